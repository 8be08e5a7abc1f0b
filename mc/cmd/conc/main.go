// Command conc explores two-thread schedules of library operations on independent objects. It is linked with
// the library's sources instrumented by cmd/instr.
//
//	conc seq               the sequential result of every operation (JSON), each from the initial state
//	conc pairs TIER        pairs on stdin, one JSON report per pair on stdout
//	conc one CASE          one schedule in this fresh process
package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/crypto"
	"github.com/fivebinaries/go-cardano-serialization/fees"
	"github.com/fivebinaries/go-cardano-serialization/internal/verifsched"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
)

type op struct {
	name string
	f    func(v int) string // v: which of two sets of values
}

func fill(n int, v byte) []byte { return bytes.Repeat([]byte{v}, n) }

func hash28(v int, salt byte) []byte {
	out := make([]byte, 28)
	for i := range out {
		out[i] = byte(i)*7 + salt + byte(v)*0x55
	}
	return out
}

func net(v int) *network.NetworkInfo {
	if v == 0 {
		return network.MainNet()
	}
	return network.TestNet()
}

func base(v int) address.Address {
	return address.NewBaseAddress(net(v), address.NewKeyStakeCredential(hash28(v, 1)), address.NewScriptStakeCredential(hash28(v, 2)))
}

func pointer(v int) address.Address {
	return address.NewPointerAddress(*net(v), *address.NewKeyStakeCredential(hash28(v, 1)), *address.NewPointer(uint64(2498243+v*300), uint64(27+v*1000), uint64(3+v)))
}

func enterprise(v int) address.Address {
	return address.NewEnterpriseAddress(net(v), address.NewScriptStakeCredential(hash28(v, 5)))
}

func reward(v int) address.Address {
	return address.NewRewardAddress(net(v), address.NewKeyStakeCredential(hash28(v, 8)))
}

func byron(v int) address.Address {
	var payload []byte
	if v == 1 {
		payload = append([]byte{0x58, 28}, hash28(v, 4)...)
	}
	return &address.ByronAddress{Hash: hash28(v, 3), Attributes: address.ByronAddressAttributes{Payload: payload}}
}

var kinds = []func(int) address.Address{base, pointer, enterprise, reward, byron}

// texts and byte forms, made once before anything is explored
var texts, raws [5][2]string

func show(a address.Address, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return fmt.Sprintf("%T %x %s %+v", a, a.Bytes(), a.String(), *a.NetworkInfo())
}

func key(v int) bip32.XPrv {
	k, err := bip32.NewXPrv(fill(32, byte(0x31+v)))
	if err != nil {
		panic(err)
	}
	return k
}

var entropies = [2][]byte{fill(16, 0x0c), fill(32, 0xd1)}

func buildTx(v int, meta interface{}) string {
	k := key(v)
	b := tx.NewTxBuilder(protocol.Protocol{TxFeePerByte: 44, TxFeeFixed: 155381}, []bip32.XPrv{k})
	for i := 0; i <= v; i++ {
		b.AddInputs(tx.NewTxInput(hex.EncodeToString(fill(32, byte(0x10+v+i))), uint16(v*300+i), uint(5000000+v*77000000)))
	}
	b.AddOutputs(tx.NewTxOutput(base(v), uint(1500000+v)))
	b.SetTTL(uint32(1000000 * (v + 1)))
	if meta != nil {
		b.Tx().Metadata = meta
	}
	min := b.MinFee()
	b.AddChangeIfNeeded(enterprise(v))
	b.Sign(key(v).Derive(uint32(3 + v)))
	t, err := b.Build()
	if err != nil {
		return "error " + err.Error()
	}
	h, e1 := t.Hash()
	x, e2 := t.Hex()
	fee, e3 := t.Fee(fees.NewLinearFee(44, 155381))
	return fmt.Sprint(min, h, x, fee, e1, e2, e3)
}

func ops() (out []op) {
	add := func(name string, f func(v int) string) { out = append(out, op{name, f}) }
	for i, n := range []string{"base", "pointer", "enterprise", "reward", "byron"} {
		i := i
		add("render "+n, func(v int) string {
			a := kinds[i](v)
			return a.String() + fmt.Sprintf(" %x", a.Bytes())
		})
		add("decode "+n, func(v int) string {
			a, err := address.NewAddress(texts[i][v])
			if err != nil {
				return "error " + err.Error()
			}
			return fmt.Sprintf("%T %x", a, a.Bytes())
		})
	}
	add("decode bytes", func(v int) string {
		s := ""
		for i := range kinds {
			b, _ := hex.DecodeString(raws[i][v])
			s += show(address.NewAddressFromBytes(b))
		}
		return s
	})
	add("refuse address", func(v int) string {
		t := []byte(texts[v][v])
		t[len(t)-3] ^= 1
		_, err := address.NewAddress(string(t))
		_, err2 := address.NewAddressFromHex(raws[v][v][2:])
		return fmt.Sprint(err, err2)
	})
	add("varnat", func(v int) string {
		s := ""
		for _, n := range []uint64{0, 127, 128, 1 << 20, 1<<63 + 5} {
			e := address.VariableNatEncode(n + uint64(v))
			d, l, err := address.VariableNatDecode(e)
			s += fmt.Sprint(e, d, l, err)
		}
		return s
	})
	add("master key", func(v int) string {
		return hex.EncodeToString(bip32.FromBip39Entropy(entropies[v], []byte{'p', byte(v)}))
	})
	add("derive", func(v int) string {
		k := key(v)
		return fmt.Sprintf("%x %x", k.Derive(0x80000000+uint32(v)), k.Derive(uint32(7+v)))
	})
	add("public key", func(v int) string {
		p := key(v).Public()
		h := p.PublicKey().Hash()
		return fmt.Sprintf("%x %x %x %x", []byte(p), []byte(p.PublicKey()), []byte(p.ChainCode()), h)
	})
	add("sign", func(v int) string {
		k := key(v)
		s := k.Sign(fill(40+v, byte(v+1)))
		return hex.EncodeToString(s[:])
	})
	add("digests", func(v int) string {
		d := fill(100+v*60, byte(v+3))
		a, b := crypto.Blake2b224(d), crypto.Blake2b256(d)
		h, err := crypto.TransactionHashFromBytes(b[:])
		k, err2 := crypto.Ed25519KeyHashFromBytes(a[:])
		_, err3 := crypto.BlockHashFromBytes(a[:])
		return fmt.Sprint(a, b, h, k, err, err2, err3)
	})
	add("build tx", func(v int) string { return buildTx(v, nil) })
	add("build tx with metadata", func(v int) string {
		return buildTx(v, map[uint64]interface{}{uint64(v): map[string]interface{}{"a": v, "bb": "x"}, 674: []int{1, 2, v}})
	})
	add("hash tx", func(v int) string {
		t := tx.NewTx()
		t.AddInputs(tx.NewTxInput(hex.EncodeToString(fill(32, byte(0x21+v))), uint16(v), 9))
		t.AddOutputs(tx.NewTxOutput(reward(v), uint(1000+v)), tx.NewTxOutput(byron(v), uint(7+v)))
		t.SetFee(uint(200000 + v))
		t.Metadata = fmt.Sprint("note", v)
		h, err := t.Hash()
		b, err2 := t.Bytes()
		f, err3 := t.Fee(fees.NewLinearFee(uint(v+1), 3))
		return fmt.Sprintf("%x %x %d %v %v %v", h, b, f, err, err2, err3)
	})
	return
}

// Case is one schedule.
type Case struct {
	A, B   int // operation*2 + variant; A runs first
	SwA    []int
	SwB    []int
	Warm   bool // from the state after running both once, not the initial one
	Times  int  // how often B runs its operation, 0 for once
	Race   bool
	Where  string
	Msg    string
	Expect [2]string
	Texts  *[2][5][2]string // address texts and bytes, so that a fresh process has no need to make them
}

// Report is what exploring a pair gives.
type Report struct {
	A, B      int
	Schedules int
	Steps     int64
	Points    [2]int // scheduling points of A and B alone
	Preempt   int    // distinct places A is preempted at
	Two       int    // schedules with two preemptions
	Outcomes  int
	Steals    int
	Bad       *Case
}

var all = ops()

func run(id int) func() string { return func() string { return all[id/2].f(id % 2) } }

func prepare() {
	for i, k := range kinds {
		for v := 0; v < 2; v++ {
			a := k(v)
			texts[i][v] = a.String()
			raws[i][v] = hex.EncodeToString(a.Bytes())
		}
	}
}

func try(c *Case) (msg string, steps int) {
	if c.Warm {
		verifsched.Record(run(c.A))
		verifsched.Record(run(c.B))
	}
	e0 := raceErrors()
	b := func() (out string) {
		for i := 0; i == 0 || i < c.Times && out == c.Expect[1]; i++ {
			out = run(c.B)()
		}
		return
	}
	ra, rb, steps := verifsched.Run(run(c.A), b, c.SwA, c.SwB)
	switch {
	case ra != c.Expect[0]:
		msg = fmt.Sprintf("%q gives\n  %s\nrunning one after another gives\n  %s", all[c.A/2].name, ra, c.Expect[0])
	case rb != c.Expect[1]:
		msg = fmt.Sprintf("%q gives\n  %s\nrunning one after another gives\n  %s", all[c.B/2].name, rb, c.Expect[1])
	case raceErrors() != e0:
		msg = "data race (see the race detector's report)"
	}
	return msg, steps
}

func occurrences(trace []int32, first int, last bool, tier string) (out []int) {
	n := map[int32]int{}
	lastAt := map[int32]int{}
	for i, id := range trace {
		n[id]++
		lim := first
		if curve[id] && tier != "thorough" {
			lim = 1
		}
		if n[id] <= lim {
			out = append(out, i+1)
		}
		lastAt[id] = i + 1
	}
	if last {
		for id, at := range lastAt {
			if n[id] > first && (!curve[id] || tier == "thorough") {
				out = append(out, at)
			}
		}
	}
	sort.Ints(out)
	return
}

// curve marks the points in the curve arithmetic, which are passed very often.
var curve = func() map[int32]bool {
	out := map[int32]bool{}
	for i, p := range verifsched.Positions {
		if strings.HasPrefix(p, "crypto/edwards25519/") {
			out[int32(i)] = true
		}
	}
	return out
}()

func where(trace []int32, at int) string { return verifsched.Positions[trace[at-1]] }

// repeated is how often the second thread runs a short operation while the first, in the warmed-up state, stands
// still: what is handed out in turns (slots, pools, rings) comes round again.
const repeated = 8

func explore(a, b int, expect [2]string, tier string, race bool) (rep Report) {
	rep = Report{A: a, B: b}
	verifsched.Reset()
	_, ta := verifsched.Record(run(a))
	verifsched.Reset()
	_, tb := verifsched.Record(run(b))
	rep.Points = [2]int{len(ta), len(tb)}
	do := func(c Case) bool {
		c.A, c.B, c.Expect, c.Race = a, b, expect, race
		verifsched.Reset()
		msg, steps := try(&c)
		rep.Schedules++
		rep.Steps += int64(steps)
		if msg != "" {
			c.Msg = msg
			rep.Bad = &c
		}
		return msg == ""
	}
	defer func() { rep.Steals = verifsched.Steals }()
	first, last, two := 2, true, 0
	switch {
	case race && tier == "thorough":
		first = 1
	case race:
		first, last = 1, false
	case tier == "thorough":
		first, two = 6, 400000
	case a/2 == b/2:
		two = 20000
	}
	// in the quick tier a preemption inside the curve arithmetic is tried against operations that use it too
	inCurve := tier == "thorough" && !race
	if !inCurve {
		for _, id := range tb {
			inCurve = inCurve || curve[id] && (a/2 == b/2 || !race)
		}
	}
	places := func(first int, last, inCurve bool) (out []int) {
		for _, k := range occurrences(ta, first, last, tier) {
			if inCurve || !curve[ta[k-1]] {
				out = append(out, k)
			}
		}
		return
	}
	for _, warm := range []bool{false, true} {
		if !do(Case{Warm: warm}) {
			return
		}
		pts := places(first, last, inCurve)
		if warm && tier != "thorough" {
			pts = places(1, false, false)
		}
		if race && a/2 != b/2 && tier != "thorough" {
			continue // one after the other; the monitor needs no overlap
		}
		rep.Preempt += len(pts)
		for _, k := range pts {
			times := 0
			if warm && !race && len(tb) <= 4000 {
				times = repeated
			}
			if !do(Case{SwA: []int{k}, Warm: warm, Times: times, Where: "A is preempted at " + where(ta, k)}) {
				return
			}
		}
	}
	pa, pb := occurrences(ta, 1, false, tier), occurrences(tb, 1, false, tier)
	if n := len(pa) * len(pb); n <= two {
		for _, k := range pa {
			for _, j := range pb {
				rep.Two++
				if !do(Case{SwA: []int{k}, SwB: []int{j}, Where: "A is preempted at " + where(ta, k) + ", B at " + where(tb, j)}) {
					return
				}
			}
		}
	}
	return
}

func main() {
	runtime.GOMAXPROCS(1)
	if os.Args[1] != "one" {
		prepare()
	}
	switch os.Args[1] {
	case "seq":
		var out []string
		for id := 0; id < 2*len(all); id++ {
			verifsched.Reset()
			r, _ := verifsched.Record(run(id))
			out = append(out, r)
		}
		names := []string{}
		for _, o := range all {
			names = append(names, o.name)
		}
		json.NewEncoder(os.Stdout).Encode(map[string]any{"names": names, "results": out, "texts": [2][5][2]string{texts, raws}})
	case "pairs":
		debug.SetGCPercent(400)
		in := bufio.NewScanner(os.Stdin)
		in.Buffer(nil, 1<<26)
		for in.Scan() {
			var c Case
			if err := json.Unmarshal(in.Bytes(), &c); err != nil {
				fmt.Println(err)
				os.Exit(3)
			}
			json.NewEncoder(os.Stdout).Encode(explore(c.A, c.B, c.Expect, os.Args[2], c.Race))
		}
	case "one":
		var c Case
		if err := json.Unmarshal([]byte(os.Args[2]), &c); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		texts, raws = c.Texts[0], c.Texts[1]
		msg, _ := try(&c)
		if msg != "" {
			fmt.Println(msg)
			os.Exit(1)
		}
	}
}
