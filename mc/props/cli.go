package props

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/core"
)

// The stand-in for cardano-cli records its arguments (and the transaction file, at the time it starts) in
// its own directory and answers with what that directory holds.
const standIn = `#!/bin/sh
d=${0%/*}
f=
prev=
for a in "$@"; do
  printf '%s\0' "$a" >>"$d/calls"
  [ "$prev" = --tx-file ] && f=$a
  case "$a" in --tx-file=*) f=${a#--tx-file=};; esac
  prev=$a
done
printf '\001\0' >>"$d/calls"
if [ -n "$f" ]; then
  if [ -e "$f" ]; then cp "$f" "$d/txfile"; else : >"$d/missing"; fi
fi
[ -e "$d/record-env" ] && { cat /proc/$$/environ; cat; } >>"$d/env"
[ -e "$d/out" ] && { cat "$d/out" || exit 141; }
[ -e "$d/err" ] && { cat "$d/err" >&2 || exit 141; }
c=0
[ -e "$d/exit" ] && read c <"$d/exit"
case $c in sig*) kill -${c#sig} $$; sleep 5;; esac
exit $c
`

var (
	cliOnce sync.Once
	cliRoot string
	cliSeq  atomic.Int64
)

func workDir() string {
	d := os.Getenv("VERIF_WORK")
	if d == "" {
		d = os.TempDir()
	}
	return d
}

type stand struct{ dir, path string }

// newStand makes a stand-in directory.
func newStand(name string) *stand {
	cliOnce.Do(func() {
		var err error
		cliRoot, err = os.MkdirTemp(workDir(), "cli")
		if err != nil {
			panic("harness: " + err.Error())
		}
		// written once, before anything forks: a program open for writing in any process cannot be started
		must(os.WriteFile(filepath.Join(cliRoot, "stand-in.sh"), []byte(standIn), 0o755))
		must(os.WriteFile(filepath.Join(cliRoot, "gated.sh"), []byte(gated), 0o755))
	})
	d := filepath.Join(cliRoot, fmt.Sprint("c", cliSeq.Add(1)))
	os.MkdirAll(d, 0o755)
	p := filepath.Join(d, name)
	if err := os.Symlink(filepath.Join(cliRoot, "stand-in.sh"), p); err != nil {
		panic("harness: " + err.Error())
	}
	return &stand{d, p}
}

func (s *stand) answer(out, exit string) {
	os.WriteFile(filepath.Join(s.dir, "out"), []byte(out), 0o644)
	os.Remove(filepath.Join(s.dir, "exit"))
	if exit != "" && exit != "0" {
		os.WriteFile(filepath.Join(s.dir, "exit"), []byte(exit+"\n"), 0o644)
	}
}

// take returns the calls made since the last take.
func (s *stand) take() (calls [][]string) {
	b, _ := os.ReadFile(filepath.Join(s.dir, "calls"))
	os.Remove(filepath.Join(s.dir, "calls"))
	cur := []string{}
	for _, a := range strings.Split(string(b), "\x00") {
		if a == "\x01" {
			calls = append(calls, cur)
			cur = []string{}
			continue
		}
		cur = append(cur, a)
	}
	return
}

func (s *stand) txFile() ([]byte, bool) {
	b, err := os.ReadFile(filepath.Join(s.dir, "txfile"))
	os.Remove(filepath.Join(s.dir, "txfile"))
	return b, err == nil
}

func (s *stand) done() { os.RemoveAll(s.dir) }

// wantCall checks one invocation's arguments: subcommand first, then the options in any order.
func wantCall(args []string, sub [2]string, opts map[string]string, n netSel) error {
	if len(args) < 2 || args[0] != sub[0] || args[1] != sub[1] {
		return errf("cardano-cli was run with %q, want %s %s ...", args, sub[0], sub[1])
	}
	got := map[string]string{}
	rest := args[2:]
	for i := 0; i < len(rest); i++ {
		o := rest[i]
		if _, dup := got[o]; dup {
			return errf("option %s given twice: %q", o, args)
		}
		if o == "--mainnet" {
			got[o] = ""
			continue
		}
		if _, known := opts[o]; !known && o != "--testnet-magic" {
			return errf("unexpected argument %q in %q", o, args)
		}
		if i+1 >= len(rest) {
			return errf("option %s without a value: %q", o, args)
		}
		i++
		got[o] = rest[i]
	}
	for o, v := range opts {
		g, ok := got[o]
		if !ok {
			return errf("option %s is missing: %q", o, args)
		}
		if v != "*" && g != v {
			return errf("option %s is %q, want %q", o, g, v)
		}
	}
	_, main := got["--mainnet"]
	magic, test := got["--testnet-magic"]
	if main == test {
		return errf("not exactly one network selector: %q", args)
	}
	if n.Main && !main || !n.Main && (!test || magic != fmt.Sprint(n.Magic)) {
		return errf("ran for the wrong network: %q, want %+v", args, n)
	}
	return nil
}

type netSel struct {
	Main  bool
	Magic uint32
}

func (n netSel) info() *network.NetworkInfo {
	if n.Main {
		return network.MainNet()
	}
	if n.Magic == testMagic {
		return network.TestNet()
	}
	return &network.NetworkInfo{NetworkId: 0, ProtocolMagic: n.Magic}
}

var cliNets = []netSel{{true, 0}, {false, testMagic}, {false, 1}, {false, 2}, {false, 0}, {false, 42}, {false, 1<<31 + 7}, {false, 1<<32 - 1}, {false, mainMagic}}

// ---- C21 ----

// CliSeq is a history of operations on nodes: operation k%4 on node k/4.
type CliSeq struct {
	Nets []int
	Ops  []int
	Addr int
	Exit string
}

var cliOps = []string{"UTXOs", "QueryTip", "ProtocolParameters", "SubmitTx"}

const (
	tableHead = "                           TxHash                                 TxIx        Amount\n--------------------------------------------------------------------------------------\n"
	tipJSON   = `{"era":"Alonzo","syncProgress":"100.00","hash":"7a","epoch":301,"slot":43000000,"block":6500000}`
	paramJSON = `{"txFeePerByte":44,"txFeeFixed":155381,"maxTxSize":16384,"protocolVersion":{"minor":0,"major":5},"minUTxOValue":1000000}`
)

func sampleTx(keys int) *tx.Tx {
	var l []bip32.XPrv
	for i := 0; i < keys; i++ {
		l = append(l, xprv(i))
	}
	b := tx.NewTxBuilder(defaultProto, l)
	b.AddInputs(mkIn(someIn(0)))
	b.AddOutputs(mkOut(someOut(0)))
	t, err := b.Build()
	if err != nil {
		panic("harness: " + err.Error())
	}
	return &t
}

var (
	sampleOnce sync.Once
	theSample  *tx.Tx
)

func oneTx() tx.Tx {
	sampleOnce.Do(func() { theSample = sampleTx(1) })
	return *theSample
}

func checkCliSeq(c CliSeq, n *core.Counter) error {
	var st []*stand
	var nodes []node.Node
	for i, k := range c.Nets {
		s := newStand([]string{"cardano-cli", "other program", "cli-8.1"}[(i+c.Addr)%3])
		defer s.done()
		st = append(st, s)
		nodes = append(nodes, node.NewCardanoCliNode(cliNets[k].info(), s.path))
	}
	addr := histAddrs[c.Addr]
	text := mustAddr(addr).String()
	hist := ""
	for _, o := range c.Ops {
		who, op := o/4, o%4
		hist += fmt.Sprintf("%c.%s; ", 'A'+who, cliOps[op])
		n.Op(1)
		st[who].answer([]string{tableHead, tipJSON, paramJSON, "ok"}[op], c.Exit)
		want := [][]string{{"query", "utxo"}, {"query", "tip"}, {"query", "protocol-parameters"}, {"transaction", "submit"}}[op]
		opts := map[string]string{}
		var err error
		switch op {
		case 0:
			_, err = nodes[who].UTXOs(mustAddr(addr))
			opts["--address"] = text
		case 1:
			_, err = nodes[who].QueryTip()
		case 2:
			_, err = nodes[who].ProtocolParameters()
		case 3:
			_, err = nodes[who].SubmitTx(oneTx())
			opts["--tx-file"] = "*"
		}
		if err != nil && c.Exit == "0" {
			return errf("%s%v", hist, err)
		}
		if err == nil && c.Exit != "0" {
			return errf("%sno error though the program exits with %s", hist, c.Exit)
		}
		for i := range st {
			calls := st[i].take()
			if i != who && len(calls) > 0 {
				return errf("%sanother node's program was run", hist)
			}
			if i != who {
				continue
			}
			if len(calls) != 1 {
				return errf("%sthe configured program was run %d times", hist, len(calls))
			}
			n.StateS(strings.Join(calls[0][:min(2, len(calls[0]))], " "))
			if err := wantCall(calls[0], [2]string{want[0], want[1]}, opts, cliNets[c.Nets[i]]); err != nil {
				return errf("%s%v", hist, err)
			}
		}
	}
	return nil
}

func genCliSeq(r *core.Run, yield func(CliSeq)) {
	depth := core.Pick(r, 3, 4)
	r.Param("histories.depth", depth)
	for k := range cliNets {
		for a := range histAddrs {
			for op := 0; op < 4; op++ {
				yield(CliSeq{[]int{k}, []int{op}, a, "0"})
			}
		}
		for op := 0; op < 4; op++ {
			yield(CliSeq{[]int{k}, []int{op, op}, 0, "3"})
		}
		seqs(4, depth, func(s []int) { yield(CliSeq{[]int{k}, s, k, "0"}) })
	}
	for a := range cliNets {
		for b := range cliNets {
			if a != b && (a < 3 && b < 3 || r.Thorough()) {
				for d := 2; d <= core.Pick(r, 2, 3); d++ {
					seqs(8, d, func(s []int) { yield(CliSeq{[]int{a, b}, s, a, "0"}) })
				}
			}
		}
	}
}

// DefaultProg: how the program is chosen.
type DefaultProg struct {
	How int
	Net int
	Op  int
}

var defaultHow = []string{"no path", "empty path", "empty path and another", "path and a second path", "name found in PATH", "path that ends in a blank", "name with blanks around"}

// checkDefault runs with PATH pointing at a stand-in called cardano-cli (serial: PATH is process-wide).
func checkDefault(c DefaultProg, n *core.Counter) error {
	s := newStand("cardano-cli")
	defer s.done()
	name := "other-cli"
	switch c.How {
	case 5:
		name = "other-cli "
	case 6:
		name = " other-cli\t"
	}
	o := newStand(name)
	defer o.done()
	old := os.Getenv("PATH")
	os.Setenv("PATH", s.dir+":"+o.dir+":"+old)
	defer os.Setenv("PATH", old)
	var nd node.Node
	used, idle := s, o
	ni := cliNets[c.Net].info()
	switch c.How {
	case 0:
		nd = node.NewCardanoCliNode(ni)
	case 1:
		nd = node.NewCardanoCliNode(ni, "")
	case 2:
		nd = node.NewCardanoCliNode(ni, "", o.path)
	case 3:
		nd = node.NewCardanoCliNode(ni, o.path, s.path)
		used, idle = o, s
	case 4:
		nd = node.NewCardanoCliNode(ni, "other-cli")
		used, idle = o, s
	case 5:
		nd = node.NewCardanoCliNode(ni, o.path)
		used, idle = o, s
	case 6:
		nd = node.NewCardanoCliNode(ni, name)
		used, idle = o, s
	}
	used.answer([]string{tableHead, tipJSON, paramJSON, "ok"}[c.Op], "0")
	idle.answer([]string{tableHead, tipJSON, paramJSON, "ok"}[c.Op], "0")
	n.Op(1)
	var err error
	switch c.Op {
	case 0:
		_, err = nd.UTXOs(mustAddr(histAddrs[0]))
	case 1:
		_, err = nd.QueryTip()
	case 2:
		_, err = nd.ProtocolParameters()
	case 3:
		_, err = nd.SubmitTx(oneTx())
	}
	if err != nil {
		return errf("%s: %v", defaultHow[c.How], err)
	}
	if k := len(idle.take()); k != 0 {
		return errf("%s: ran %s", defaultHow[c.How], idle.path)
	}
	if k := len(used.take()); k != 1 {
		return errf("%s: %s ran %d times", defaultHow[c.How], used.path, k)
	}
	return nil
}

// ---- C22 ----

// Row is one line of the table.
type Row struct {
	Hash QS
	Ix   QS
	Amt  QS
	Tail QS
	Raw  QS // when set, the whole line
	Bad  bool
}

func (r Row) line() string {
	if r.Raw != "" {
		return string(r.Raw)
	}
	return fmt.Sprintf("%s %5s        %s%s", r.Hash, r.Ix, r.Amt, r.Tail)
}

// Table is an output of `query utxo`.
type Table struct {
	Rows []Row
	End  QS // what follows the last row
	Exit string
	Cut  int // when > 0, only that many bytes are printed
	Fail bool
}

func tails() []QS {
	return []QS{" lovelace", " lovelace + TxOutDatumNone", " lovelace + 2 6b8d07d69639e9413dd637a1a815a7323c69c86abbafb66dbfdb1aa7 + TxOutDatumNone",
		" lovelace + 99999999999 00112233445566778899aabbccddeeff00112233445566778899aabb.746f6b656e + 1 00112233445566778899aabbccddeeff00112233445566778899aabb + TxOutDatumHash ScriptDataInAlonzoEra \"45b0cfc220ceec5b7c1c62c4d4193d38e4eba48e8815729ce75f9c0ab0e4c1c0\""}
}

func goodRow(k int) Row {
	amts := []QS{"5000000", "1", "45000000000000000", "999978"}
	return Row{Hash: QS(hex.EncodeToString(inHash(k))), Ix: QS(fmt.Sprint(k % 7)), Amt: amts[k%4], Tail: tails()[k%4]}
}

func badRows() (out []Row) {
	g := goodRow(0)
	mod := func(f func(*Row)) {
		r := g
		f(&r)
		r.Bad = true
		out = append(out, r)
	}
	for _, h := range []QS{"zz" + g.Hash[2:], g.Hash[:63], g.Hash[:62], g.Hash[:2], g.Hash + "00", g.Hash + "0", "TxHash", g.Hash[:63] + "g"} {
		mod(func(r *Row) { r.Hash = h })
	}
	for _, x := range []QS{"65536", "70000", "-1", "x", "1.5", "99999999999999999999", "0x1", "0b1", "1_0", "4294967296", "1e3", "18446744073709551616", "+1", "-0", "1,", "#1", "\uff11", "\u0661"} {
		mod(func(r *Row) { r.Ix = x })
	}
	for _, a := range []QS{"-5", "abc", "18446744073709551616", "1.5", "0x10", "0b11", "0o17", "1_000", "1e6", "99999999999999999999999", "+5", "-0", "5,000", "5lovelace", "\uff15", "\u0665", "5.", "NaN", "0x"} {
		mod(func(r *Row) { r.Amt = a })
	}
	for _, raw := range []QS{g.Hash, g.Hash + " 0", "0", "Error: something", g.Hash + "      0   "} {
		mod(func(r *Row) { r.Raw = raw })
	}
	return
}

func genTable(r *core.Run, yield func(Table)) {
	ends := []QS{"\n", "", "\n\n"}
	// every pair of column values
	var one []Row
	for _, ix := range []QS{"0", "1", "9", "10", "255", "256", "32767", "32768", "65535"} {
		for _, a := range []QS{"0", "1", "999999", "1000000", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "45000000000000000"} {
			for _, t := range tails() {
				one = append(one, Row{Hash: QS(hex.EncodeToString(inHash(len(one)))), Ix: ix, Amt: a, Tail: t})
			}
		}
	}
	for _, h := range []QS{QS(strings.Repeat("0", 64)), QS(strings.Repeat("f", 64)), QS(strings.Repeat("0123456789abcdef", 4))} {
		x := goodRow(0)
		x.Hash = h
		one = append(one, x)
	}
	for _, e := range ends {
		yield(Table{nil, e, "0", 0, false})
		for _, x := range one {
			yield(Table{[]Row{x}, e, "0", 0, false})
		}
		max := core.Pick(r, 40, 200)
		r.Param("tables.max_rows", max)
		for k := 2; k <= max; k++ {
			var rows []Row
			for i := 0; i < k; i++ {
				rows = append(rows, goodRow(i))
			}
			yield(Table{rows, e, "0", 0, false})
		}
	}
	// all short tables over a small row alphabet, duplicates included
	depth := core.Pick(r, 4, 5)
	r.Param("tables.all_sequences_of_rows", depth)
	for d := 2; d <= depth; d++ {
		seqs(4, d, func(s []int) {
			var rows []Row
			for _, k := range s {
				rows = append(rows, goodRow(k))
			}
			yield(Table{rows, ends[len(rows)%3], "0", 0, false})
		})
	}
	// outputs of the same transaction
	for k := 2; k <= 6; k++ {
		var rows []Row
		for i := 0; i < k; i++ {
			x := goodRow(i)
			x.Hash, x.Ix = goodRow(0).Hash, QS(fmt.Sprint((i*5)%7))
			if k%2 == 0 {
				x.Amt, x.Tail = goodRow(0).Amt, goodRow(0).Tail
			}
			rows = append(rows, x)
		}
		yield(Table{rows, "\n", "0", 0, false})
	}
	// long lines and many of them
	for _, l := range []int{100, 1000, 4095, 4096, 8192, 32768, 65535, 65536, 70000, 1 << 20} {
		for p := 0; p < 3; p++ {
			rows := []Row{goodRow(0), goodRow(1), goodRow(2)}
			for len(rows[p].Tail) < l {
				rows[p].Tail += " + 1 00112233445566778899aabbccddeeff00112233445566778899aabb"
			}
			yield(Table{rows, "\n", "0", 0, false})
		}
	}
	for _, k := range []int{100, 255, 256, 257, 500, 999, 1000, 1001, 1024, 4096, 10001, core.Pick(r, 20000, 70000)} {
		var rows []Row
		for i := 0; i < k; i++ {
			rows = append(rows, goodRow(i))
		}
		yield(Table{rows, "\n", "0", 0, false})
	}
	// one malformed row at every position
	for _, b := range badRows() {
		for k := 1; k <= core.Pick(r, 4, 6); k++ {
			for p := 0; p < k; p++ {
				var rows []Row
				for i := 0; i < k; i++ {
					rows = append(rows, goodRow(i))
				}
				rows[p] = b
				yield(Table{rows, "\n", "0", 0, true})
			}
		}
	}
	// the program fails, after printing any part of the table
	rows := []Row{goodRow(0), goodRow(1)}
	full := len(tableHead) + len(rows[0].line()) + 1 + len(rows[1].line()) + 1
	step := core.Pick(r, 7, 1)
	for cut := 0; cut <= full; cut += step {
		for _, ex := range []string{"1", "sig9"} {
			yield(Table{rows, "\n", ex, cut + 1, true})
		}
	}
	// output cut short at any point though the program says it succeeded, and no output at all
	for cut := 0; cut < full; cut++ {
		yield(Table{rows, "\n", "0", cut + 1, false})
	}
	for _, ex := range []string{"1", "2", "3", "64", "126", "127", "137", "255", "sig1", "sig2", "sig6", "sig9", "sig11", "sig13", "sig15"} {
		for k := 0; k < 3; k++ {
			yield(Table{rows[:k], "\n", ex, 0, true})
		}
	}
}

func checkTable(c Table, n *core.Counter) error {
	s := newStand("cardano-cli")
	defer s.done()
	var lines []string
	for _, r := range c.Rows {
		lines = append(lines, r.line())
	}
	out := tableHead + strings.Join(lines, "\n")
	if len(c.Rows) > 0 {
		out += string(c.End)
	} else if c.End == "" {
		out = strings.TrimSuffix(out, "\n")
	}
	if c.Cut > 0 && c.Cut-1 < len(out) {
		out = out[:c.Cut-1]
	}
	s.answer(out, c.Exit)
	if len(c.Rows) < 4 {
		// what goes to standard error is no part of the answer
		os.WriteFile(filepath.Join(s.dir, "err"), []byte(goodRow(9).line()+"\nWarning: text\nError: none\n"), 0o644)
	}
	if len(c.Rows) == 33 {
		// more than a pipe holds
		os.WriteFile(filepath.Join(s.dir, "err"), bytes.Repeat([]byte("Warning: text\n"), 20000), 0o644)
	}
	nd := node.NewCardanoCliNode(network.MainNet(), s.path)
	n.Op(1)
	got, err := nd.UTXOs(mustAddr(histAddrs[0]))
	if c.Fail {
		n.Outcome("refused")
		if err == nil {
			return errf("no error for\n%s(exit %s), got %d entries", out, c.Exit, len(got))
		}
		return nil
	}
	if c.Cut > 0 {
		// an entry that is returned stands in the output as it is; what was cut off cannot be known
		n.Outcome("cut short")
		if err == nil && strings.Count(out, "\n") < 2 && len(got) > 0 {
			return errf("%d entries for\n%s", len(got), out)
		}
		for i, g := range got {
			if i >= len(c.Rows) || hex.EncodeToString(g.TxHash) != string(c.Rows[i].Hash) || !strings.HasPrefix(string(c.Rows[i].Ix), fmt.Sprint(g.Index)) || !strings.HasPrefix(string(c.Rows[i].Amt), fmt.Sprint(g.Amount)) {
				return errf("entry %d is %x#%d %d, for\n%s", i, g.TxHash, g.Index, g.Amount, out)
			}
		}
		return nil
	}
	if err != nil {
		return errf("%v for\n%s", err, out)
	}
	n.Outcome("listed")
	n.StateS(out)
	if len(got) != len(c.Rows) {
		return errf("%d entries, want %d, for\n%s", len(got), len(c.Rows), out)
	}
	for i, r := range c.Rows {
		if hex.EncodeToString(got[i].TxHash) != string(r.Hash) || fmt.Sprint(got[i].Index) != string(r.Ix) || fmt.Sprint(got[i].Amount) != string(r.Amt) {
			return errf("entry %d is %x#%d %d, want %s#%s %s", i, got[i].TxHash, got[i].Index, got[i].Amount, r.Hash, r.Ix, r.Amt)
		}
	}
	return nil
}

// Tip is an answer to `query tip`.
type Tip struct {
	Out  QS
	Exit string
	Want [3]uint64
	Fail bool
}

func genTip(r *core.Run, yield func(Tip)) {
	vals := []uint64{0, 1, 255, 65536, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}
	for _, s := range vals {
		for _, e := range vals {
			for _, b := range []uint64{2, 7_000_000, 1<<64 - 2} {
				yield(Tip{QS(fmt.Sprintf(`{"era":"Alonzo","syncProgress":"100.00","hash":"%x","epoch":%d,"slot":%d,"block":%d}`+"\n", inHash(1), e, s, b)), "0", [3]uint64{s, e, b}, false})
			}
		}
	}
	perms(3, func(p []int) {
		f := []string{`"slot": 11`, `"epoch": 22`, `"block": 33`}
		yield(Tip{QS(fmt.Sprintf("{\n    %s,\n    %s,\n    %s\n}\n", f[p[0]], f[p[1]], f[p[2]])), "0", [3]uint64{11, 22, 33}, false})
	})
	full := tipJSON
	for i := 0; i < len(full); i++ { // every truncation
		yield(Tip{QS(full[:i]), "0", [3]uint64{}, true})
	}
	for _, o := range []QS{"error", `{"slot":-1,"epoch":1,"block":1}`, `{"slot":"x","epoch":1,"block":1}`, `{"slot":1.5,"epoch":1,"block":1}`, `{"slot":1,"epoch":18446744073709551616,"block":1}`, `{"slot":1,"epoch":1,"block":1} trailing`, `[1]`, `"x"`} {
		yield(Tip{o, "0", [3]uint64{}, true})
	}
	for _, ex := range []string{"1", "2", "127", "255", "sig9", "sig15"} {
		yield(Tip{tipJSON, ex, [3]uint64{}, true})
		yield(Tip{"", ex, [3]uint64{}, true})
	}
}

func checkTip(c Tip, n *core.Counter) error {
	s := newStand("cardano-cli")
	defer s.done()
	s.answer(string(c.Out), c.Exit)
	n.Op(1)
	t, err := node.NewCardanoCliNode(network.TestNet(), s.path).QueryTip()
	if c.Fail {
		if err == nil {
			return errf("no error for %q (exit %s): %+v", string(c.Out), c.Exit, t)
		}
		return nil
	}
	n.StateS(fmt.Sprint(t))
	if got := [3]uint64{uint64(t.Slot), uint64(t.Epoch), uint64(t.Block)}; err != nil || got != c.Want {
		return errf("tip of %q is %+v (%v)", string(c.Out), t, err)
	}
	return nil
}

// NoProg: a program that cannot be run.
type NoProg struct {
	Op  int
	How int
}

func checkNoProg(c NoProg, n *core.Counter) error {
	d, err := os.MkdirTemp(workDir(), "noprog")
	if err != nil {
		return err
	}
	defer os.RemoveAll(d)
	p := filepath.Join(d, "cli")
	switch c.How {
	case 1:
		os.WriteFile(p, []byte(standIn), 0o644) // not executable
	case 2:
		os.Mkdir(p, 0o755)
	case 3:
		os.WriteFile(p, []byte("not a program\x00"), 0o755)
	}
	nd := node.NewCardanoCliNode(network.MainNet(), p)
	n.Op(1)
	switch c.Op {
	case 0:
		_, err = nd.UTXOs(mustAddr(histAddrs[0]))
	case 1:
		_, err = nd.QueryTip()
	case 2:
		_, err = nd.ProtocolParameters()
	case 3:
		_, err = nd.SubmitTx(oneTx())
	}
	if err == nil {
		return errf("%s: no error though the program cannot be run", cliOps[c.Op])
	}
	return nil
}

func genNoProg(ops ...int) func(r *core.Run, yield func(NoProg)) {
	return func(r *core.Run, yield func(NoProg)) {
		for _, op := range ops {
			for h := 0; h < 4; h++ {
				yield(NoProg{op, h})
			}
		}
	}
}

// ---- C23 ----

// Submit is a transaction submitted through cardano-cli.
type Submit struct {
	Tx    TxCase
	Bad   int // metadata that cannot be encoded, -1 none
	Exit  string
	Out   QS
	Tmp   int // 0 a scratch directory, 1 missing, 2 a file
	Twice bool
}

func buildTx(c TxCase) (tx.Tx, error) {
	var l []bip32.XPrv
	for i := 0; i < c.Keys; i++ {
		l = append(l, xprv(i))
	}
	b := tx.NewTxBuilder(defaultProto, l)
	for _, i := range c.Ins {
		b.AddInputs(mkIn(i))
	}
	for _, o := range c.Outs {
		b.AddOutputs(mkOut(o))
	}
	b.Tx().SetFee(uint(c.Fee))
	b.SetTTL(c.TTL)
	if c.Meta >= 0 {
		b.Tx().Metadata = allMetas[c.Meta].Val()
	}
	return b.Build()
}

// checkSubmit is serial: TMPDIR is process-wide.
func checkSubmit(c Submit, n *core.Counter) error {
	t, err := buildTx(c.Tx)
	if err != nil {
		return err
	}
	want, err := t.Hex()
	if err != nil {
		return err
	}
	if c.Bad >= 0 {
		t.Metadata = badMetas()[c.Bad].Val()
	}
	s := newStand("cardano-cli")
	defer s.done()
	tmp := filepath.Join(s.dir, "tmp")
	switch c.Tmp {
	case 0:
		os.Mkdir(tmp, 0o755)
		os.WriteFile(filepath.Join(tmp, "gada-tx-0"), []byte("of someone else"), 0o600)
	case 2:
		os.WriteFile(tmp, nil, 0o644)
	}
	old, had := os.LookupEnv("TMPDIR")
	os.Setenv("TMPDIR", tmp)
	defer func() {
		if had {
			os.Setenv("TMPDIR", old)
		} else {
			os.Unsetenv("TMPDIR")
		}
	}()
	nd := node.NewCardanoCliNode(network.TestNet(), s.path)
	rounds := 1
	if c.Twice {
		rounds = 2
	}
	for k := 0; k < rounds; k++ {
		s.answer(string(c.Out), c.Exit)
		n.Op(1)
		got, err := nd.SubmitTx(t)
		calls := s.take()
		file, ok := s.txFile()
		if left, _ := os.ReadDir(tmp); c.Tmp == 0 {
			for _, f := range left {
				if f.Name() != "gada-tx-0" {
					return errf("the temporary file %s is left behind", f.Name())
				}
			}
			if b, err := os.ReadFile(filepath.Join(tmp, "gada-tx-0")); err != nil || string(b) != "of someone else" {
				return errf("someone else's temporary file is gone or altered: %q %v", b, err)
			}
		}
		if c.Bad >= 0 {
			if err == nil {
				return errf("no error for a transaction that cannot be serialized")
			}
			return nil
		}
		if c.Tmp != 0 && len(calls) == 0 {
			if err == nil {
				return errf("no error though no temporary file could be made and the program was not run")
			}
			n.Outcome("no temporary file")
			return nil
		}
		if len(calls) != 1 {
			return errf("the program was run %d times (%v)", len(calls), err)
		}
		if !ok {
			return errf("the transaction file did not exist when the program started: %q", calls[0])
		}
		var env struct {
			CborHex *string `json:"cborHex"`
		}
		if e := json.Unmarshal(file, &env); e != nil || env.CborHex == nil {
			return errf("the transaction file is %q: %v", file, e)
		}
		if *env.CborHex != want {
			return errf("the transaction file holds\n  %s, the transaction is\n  %s", *env.CborHex, want)
		}
		n.State(file)
		if c.Exit != "0" {
			n.Outcome("failure reported")
			if err == nil {
				return errf("no error though the program ended with %s", c.Exit)
			}
			continue
		}
		n.Outcome("submitted")
		if err != nil {
			return errf("submission fails: %v", err)
		}
		if strings.TrimSpace(got) != strings.TrimSpace(string(c.Out)) {
			return errf("the result is %q, the program printed %q", got, string(c.Out))
		}
	}
	after, err := t.Hex()
	if err != nil || after != want {
		return errf("submission altered the transaction")
	}
	return nil
}

func genSubmit(r *core.Run, yield func(Submit)) {
	outs := []QS{"", "Transaction successfully submitted.\n", QS(hex.EncodeToString(inHash(5)) + "\n")}
	exits := []string{"0", "1", "2", "127", "255", "sig9", "sig15"}
	for k := 0; k < core.Pick(r, 30, 120); k++ {
		for _, ex := range exits {
			c := base(2)
			c.Ins, c.Outs = nil, nil
			for i := 0; i < k; i++ {
				c.Ins = append(c.Ins, someIn(i))
				c.Outs = append(c.Outs, someOut(i))
			}
			c.Keys = k % 6
			yield(Submit{c, -1, ex, outs[k%3], 0, k%4 == 0})
		}
	}
	for m := range allMetas {
		for _, ex := range []string{"0", "1"} {
			c := base(2)
			c.Meta = m
			yield(Submit{c, -1, ex, outs[1], 0, true})
		}
	}
	for a := range changeAddrs {
		c := base(2)
		c.Outs[0].Addr = changeAddrs[a]
		yield(Submit{c, -1, "0", outs[1], 0, false})
	}
	// sizes around pipe and buffer sizes
	for _, sz := range []int{100, 900, 1000, 1024, 2000, 4000, 16000, 16500, 33000, 70000} {
		c := base(2)
		for i := 0; i < sz/40; i++ {
			c.Ins = append(c.Ins, someIn(i+1))
		}
		c.Keys = 2
		yield(Submit{c, -1, "0", outs[2], 0, false})
		yield(Submit{c, -1, "1", outs[2], 0, false})
	}
	for b := range badMetas() {
		yield(Submit{base(2), b, "0", outs[1], 0, false})
	}
	for tmp := 1; tmp < 3; tmp++ {
		yield(Submit{base(2), -1, "0", outs[1], tmp, false})
		yield(Submit{base(2), -1, "1", outs[1], tmp, false})
	}
}

// ---- C26 ----

// Params is a protocol parameters document. Src: 0 file, 1 cardano-cli.
type Params struct {
	Src  int
	Text QS
	Exit string
	Want protocol.Protocol
	Fail bool
}

func paramText(p protocol.Protocol, order []int, extra bool) QS {
	f := []string{
		fmt.Sprintf(`"txFeePerByte": %d`, p.TxFeePerByte),
		fmt.Sprintf(`"txFeeFixed": %d`, p.TxFeeFixed),
		fmt.Sprintf(`"maxTxSize": %d`, p.MaxTxSize),
		fmt.Sprintf(`"protocolVersion": {"minor": %d, "major": %d}`, p.ProtocolVersion.Minor, p.ProtocolVersion.Major),
		fmt.Sprintf(`"minUTxOValue": %d`, p.MinUTXOValue),
	}
	if len(order) > 0 && order[0]%2 == 1 {
		f[3] = fmt.Sprintf(`"protocolVersion": {"major": %d, "minor": %d}`, p.ProtocolVersion.Major, p.ProtocolVersion.Minor)
	}
	var out []string
	for _, i := range order {
		out = append(out, f[i])
	}
	if extra {
		out = append([]string{`"poolDeposit": 500000000`, `"stakePoolDeposit": 77`, `"maxBlockBodySize": 65536`, `"poolPledgeInfluence": 0.3`, `"costModels": {"PlutusScriptV1": {"a": 1}}`}, out...)
		out = append(out, `"executionUnitPrices": {"priceSteps": 7.21e-5, "priceMemory": 5.77e-2}`, `"maxBlockHeaderSize": 1100`, `"extraPraosEntropy": null`, `"maxTxExecutionUnits": {"memory": 10000000000, "steps": 10000000000000}`)
	}
	return QS("{\n  " + strings.Join(out, ",\n  ") + "\n}\n")
}

func genParams(r *core.Run, yield func(Params)) {
	id := []int{0, 1, 2, 3, 4}
	def := protocol.Protocol{TxFeePerByte: 44, TxFeeFixed: 155381, MaxTxSize: 16384, ProtocolVersion: protocol.ProtocolVersion{Major: 5, Minor: 1}, MinUTXOValue: 1000000}
	for src := 0; src < 2; src++ {
		yield(Params{src, paramText(def, id, true), "0", def, false})
		perms(5, func(p []int) {
			q := append([]int{}, p...)
			yield(Params{src, paramText(def, q, q[1]%2 == 0), "0", def, false})
		})
		vals := []uint64{0, 1, 43, 44, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}
		for _, a := range vals {
			for f := 0; f < 4; f++ {
				p := def
				*[]*uint{&p.TxFeePerByte, &p.TxFeeFixed, &p.MaxTxSize, &p.MinUTXOValue}[f] = uint(a)
				yield(Params{src, paramText(p, id, true), "0", p, false})
			}
			if src == 0 {
				for _, b := range vals {
					p := def
					p.TxFeePerByte, p.TxFeeFixed, p.MaxTxSize, p.MinUTXOValue = uint(a), uint(b), uint(a/2), uint(b/3)
					yield(Params{src, paramText(p, id, false), "0", p, false})
				}
			}
		}
		for v := 0; v < 256; v++ {
			p := def
			p.ProtocolVersion.Major = uint8(v)
			yield(Params{src, paramText(p, id, false), "0", p, false})
			p = def
			p.ProtocolVersion.Minor = uint8(v)
			yield(Params{src, paramText(p, id, false), "0", p, false})
		}
		// every truncation, ill-typed and out of range fields
		full := paramText(def, id, true)
		full = QS(strings.TrimSpace(string(full)))
		for i := 0; i < len(full); i += core.Pick(r, 1+src*4, 1) {
			yield(Params{src, full[:i], "0", def, true})
		}
		for _, f := range []string{"44", "155381", "16384", "1000000", "1"} {
			for _, bad := range []string{`"` + f + `"`, "-" + f, f + ".5", "18446744073709551616", "{}", "[]", "true", "x"} {
				t := strings.Replace(string(paramText(def, id, false)), ": "+f, ": "+bad, 1)
				if t != string(paramText(def, id, false)) {
					yield(Params{src, QS(t), "0", def, true})
				}
			}
		}
		for _, bad := range []QS{"", "garbage", "[]", `"x"`, "1", "{", "\x00\x01", full + "x", full + full} {
			yield(Params{src, bad, "0", def, true})
		}
		// large documents: cost models and the like before and behind what is read
		for _, sz := range core.Pick(r, []int{512, 4096, 20000, 70000}, []int{511, 512, 513, 4095, 4096, 4097, 8192, 20000, 32768, 65536, 70000, 1 << 20}) {
			var b strings.Builder
			for i := 0; b.Len() < sz; i++ {
				fmt.Fprintf(&b, `"cost%d": %d, `, i, i*37)
			}
			long := `"costModels": {` + strings.TrimSuffix(b.String(), ", ") + `}`
			p := def
			p.TxFeePerByte, p.MinUTXOValue = uint(sz), uint(sz)*1000
			t := strings.TrimSpace(string(paramText(p, id, true)))
			yield(Params{src, QS("{" + long + "," + t[1:]), "0", p, false})
			yield(Params{src, QS(t[:len(t)-1] + "," + long + "}"), "0", p, false})
			yield(Params{src, QS(t + strings.Repeat(" ", sz) + "\n"), "0", p, false})
			yield(Params{src, QS(strings.Repeat("\n", sz) + t), "0", p, false})
			for _, bad := range []string{"{" + long, "{" + long + "," + t[1:len(t)-1], "{" + long + "," + strings.Replace(t[1:], `"maxTxSize": `, `"maxTxSize": -`, 1),
				t[:len(t)-1] + "," + long, t[:len(t)-1] + "," + long + "}}", t + strings.Repeat(" ", sz) + "x", strings.Repeat(" ", sz)} {
				yield(Params{src, QS(bad), "0", def, true})
			}
		}
		for _, v := range []string{"256", "-1", "1000"} {
			yield(Params{src, QS(strings.Replace(string(full), `"major": 5`, `"major": `+v, 1)), "0", def, true})
			yield(Params{src, QS(strings.Replace(string(full), `"minor": 1`, `"minor": `+v, 1)), "0", def, true})
		}
	}
	for _, ex := range []string{"1", "2", "127", "255", "sig9", "sig15"} {
		yield(Params{1, paramText(def, id, true), ex, def, true})
		yield(Params{1, "", ex, def, true})
	}
}

func checkParams(c Params, n *core.Counter) error {
	s := newStand("cardano-cli")
	defer s.done()
	var p protocol.Protocol
	var err error
	n.Op(1)
	if c.Src == 0 {
		f := filepath.Join(s.dir, "protocol.json")
		os.WriteFile(f, []byte(c.Text), 0o644)
		var q *protocol.Protocol
		q, err = protocol.LoadProtocol(f)
		if err == nil {
			if q == nil {
				return errf("nil parameters without an error")
			}
			p = *q
		}
	} else {
		s.answer(string(c.Text), c.Exit)
		p, err = node.NewCardanoCliNode(network.MainNet(), s.path).ProtocolParameters()
	}
	if c.Fail {
		n.Outcome("refused")
		if err == nil {
			return errf("no error for %q (exit %s): %+v", string(c.Text), c.Exit, p)
		}
		return nil
	}
	n.Outcome("read")
	n.StateS(fmt.Sprint(p))
	if err != nil {
		return errf("%v for %s", err, c.Text)
	}
	if p != c.Want {
		return errf("parameters are %+v, want %+v, for %s", p, c.Want, c.Text)
	}
	return nil
}

// FileHist is a history of changes to two parameters files; both are loaded after each.
type FileHist struct{ Ops []int }

var fileOps = []string{"write A to 1", "write B to 1", "write garbage to 1", "remove 1", "write A to 2", "write B to 2", "exchange 1 and 2", "put a new file with B in the place of 1", "write C without a minimum UTXO value to 1", "write D without fees to 2"}

func fileDocs() (docs [5]QS, vals [5]protocol.Protocol) {
	id := []int{0, 1, 2, 3, 4}
	vals[0] = protocol.Protocol{TxFeePerByte: 44, TxFeeFixed: 155381, MaxTxSize: 16384, ProtocolVersion: protocol.ProtocolVersion{Major: 5, Minor: 1}, MinUTXOValue: 1000000}
	vals[1] = protocol.Protocol{TxFeePerByte: 45, TxFeeFixed: 255382, MaxTxSize: 26385, ProtocolVersion: protocol.ProtocolVersion{Major: 6, Minor: 2}, MinUTXOValue: 2000001}
	docs[0], docs[1] = paramText(vals[0], id, false), paramText(vals[1], id, false)
	docs[2] = docs[0][:len(docs[0])-2] + "!\n" // all three have the same size
	vals[3] = protocol.Protocol{TxFeePerByte: 46, TxFeeFixed: 355383, MaxTxSize: 36386, ProtocolVersion: protocol.ProtocolVersion{Major: 7, Minor: 3}}
	vals[4] = protocol.Protocol{MaxTxSize: 46387, ProtocolVersion: protocol.ProtocolVersion{Major: 8, Minor: 4}, MinUTXOValue: 3000001}
	docs[3], docs[4] = paramText(vals[3], id[:4], false), paramText(vals[4], id[2:], false)
	return
}

func checkFileHist(c FileHist, n *core.Counter) error {
	dir, err := os.MkdirTemp("", "params")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	docs, vals := fileDocs()
	path := [2]string{filepath.Join(dir, "one.json"), filepath.Join(dir, "two.json")}
	now := [2]int{-1, -1} // 0, 1: a document, 2: garbage, 3, 4: documents with something missing, -1: none
	when := time.Unix(1_600_000_000, 0)
	hist := ""
	var kept []*protocol.Protocol
	var was []protocol.Protocol
	for _, op := range c.Ops {
		hist += fileOps[op] + "; "
		write := func(k, doc int) {
			err = os.WriteFile(path[k], []byte(docs[doc]), 0o644)
			now[k] = doc
		}
		switch op {
		case 0, 1, 2:
			write(0, op)
		case 3:
			os.Remove(path[0])
			now[0] = -1
		case 4, 5:
			write(1, op-4)
		case 6:
			// through a third name; either may be missing
			tmp := filepath.Join(dir, "three")
			os.Rename(path[0], tmp)
			os.Rename(path[1], path[0])
			os.Rename(tmp, path[1])
			now[0], now[1] = now[1], now[0]
		case 7:
			tmp := filepath.Join(dir, "three")
			if err = os.WriteFile(tmp, []byte(docs[1]), 0o644); err == nil {
				err = os.Rename(tmp, path[0])
			}
			now[0] = 1
		case 8:
			write(0, 3)
		case 9:
			write(1, 4)
		}
		if err != nil {
			panic(err)
		}
		for k := range path {
			if now[k] >= 0 {
				os.Chtimes(path[k], when, when) // nothing but the contents tells them apart
			}
		}
		for k := range path {
			n.Op(1)
			p, err := protocol.LoadProtocol(path[k])
			if now[k] < 0 || now[k] == 2 {
				if err == nil {
					return errf("%sLoadProtocol(%d): no error, gives %+v", hist, k+1, p)
				}
				continue
			}
			if err != nil && now[k] > 2 {
				continue // refused, or nothing made up for what is missing
			}
			if err != nil || p == nil || *p != vals[now[k]] {
				return errf("%sLoadProtocol(%d): %+v (%v), want %+v", hist, k+1, p, err, vals[now[k]])
			}
			kept, was = append(kept, p), append(was, *p)
			if len(kept)%3 == 0 {
				// what was returned is the caller's
				p.TxFeePerByte, p.MinUTXOValue = 1, 2
				was[len(was)-1] = *p
			}
		}
		for i := range kept {
			if *kept[i] != was[i] {
				return errf("%sparameters loaded before, %+v, have turned into %+v", hist, was[i], *kept[i])
			}
		}
	}
	n.StateS(fmt.Sprint(now))
	return nil
}

// NoFile: a parameters file that cannot be read.
type NoFile struct{ How int }

func checkNoFile(c NoFile, n *core.Counter) error {
	s := newStand("cardano-cli")
	defer s.done()
	p := filepath.Join(s.dir, "no such file")
	switch c.How {
	case 1:
		p = s.dir
	case 2:
		p = ""
	case 3:
		p = filepath.Join(s.dir, "dangling")
		os.Symlink("nowhere", p)
	case 4:
		p = "a\x00b"
	}
	n.Op(1)
	if _, err := protocol.LoadProtocol(p); err == nil {
		return errf("no error for the unreadable file %q", p)
	}
	return nil
}

func init() {
	core.Register(&core.Prop{ID: "C21", Level: "model_checking", Subs: []core.Sub{
		core.S[CliSeq]{N: "invocations", Gen: genCliSeq, Check: checkCliSeq, Batch: 4},
		core.S[DefaultProg]{N: "program", Serial: true, Check: checkDefault, Gen: func(r *core.Run, y func(DefaultProg)) {
			for h := range defaultHow {
				for k := range cliNets {
					for op := 0; op < 4; op++ {
						y(DefaultProg{h, k, op})
					}
				}
			}
		}}},
		Exhaustive:  "every operation on every network and address kind, all histories of the four operations on one node and on pairs of nodes of different networks to the depth bound, every way of naming the program; the arguments recorded by a stand-in program",
		Assumptions: []string{"network id 1 is mainnet and network id 0 a test network; other ids are not explored"}})
	core.Register(&core.Prop{ID: "C22", Level: "fault_enumeration", Subs: []core.Sub{
		core.S[Table]{N: "tables", Gen: genTable, Check: checkTable, Batch: 8},
		core.S[Tip]{N: "tips", Gen: genTip, Check: checkTip, Batch: 8},
		nodeHistSub(0, false, true),
		overlapSub(false, true, nU3, nUOther, nT1),
		core.S[NoProg]{N: "no-program", Gen: genNoProg(0, 1), Check: checkNoProg}},
		Exhaustive:  "all column boundary values, all row sequences and row counts to the bounds, one malformed row of every kind at every position, every exit code and signal in the list after every (stepped) part of the output; tips over boundary values, every truncation",
		Assumptions: []string{"the table has the two header lines cardano-cli prints", "a zero exit status with an output cut inside a row's last number cannot be told from a complete one and is not explored"}})
	core.Register(&core.Prop{ID: "C23", Level: "fault_enumeration", Subs: []core.Sub{
		core.S[Submit]{N: "submissions", Gen: genSubmit, Check: checkSubmit, Serial: true, Batch: 8},
		nodeHistSub(2, false, true),
		overlapSub(false, true, nSBig, nSSmall, nU3),
		core.S[NoProg]{N: "no-program", Gen: genNoProg(3), Check: checkNoProg, Serial: true}},
		Exhaustive: "transactions of every feature and growing size, with every exit code and signal in the list, missing and unusable temporary directories, unencodable metadata; the file is captured by the stand-in program when it starts and the temporary directory listed afterwards"})
	core.Register(&core.Prop{ID: "C26", Level: "fault_enumeration", Subs: []core.Sub{
		core.S[Params]{N: "file-and-cli", Gen: genParams, Check: checkParams, Batch: 8},
		core.S[FileHist]{N: "file-histories", Check: checkFileHist, Batch: 32, Gen: func(r *core.Run, y func(FileHist)) {
			d := core.Pick(r, 4, 5)
			r.Param("file-histories.depth", d)
			seqs(len(fileOps), d, func(s []int) { y(FileHist{append([]int{}, s...)}) })
		}},
		core.S[NoFile]{N: "unreadable-files", Check: checkNoFile, Gen: func(r *core.Run, y func(NoFile)) {
			for h := 0; h < 5; h++ {
				y(NoFile{h})
			}
		}},
		nodeHistSub(1, true, true),
		overlapSub(true, true, nP1, nT1),
		core.S[NoProg]{N: "no-program", Gen: genNoProg(2), Check: checkNoProg},
		core.S[BfParams]{N: "blockfrost", Gen: genBfParams, Check: checkBfParams, Serial: true, Batch: 8}},
		Exhaustive:  "all orders of the fields, boundary values of each and of pairs, all protocol versions, every truncation of the document, every ill-typed and out of range field, all histories of changes to two files of the same size and time to the depth bound, exit codes and signals, unreadable files, Blockfrost answers and faults",
		Assumptions: []string{"a well-formed JSON object that lacks the fields is not explored"}})
}

var _ = bytes.Equal
