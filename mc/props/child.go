package props

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/core"
)

// Histories run in a process of their own, so that everything the process holds (descriptors, children,
// goroutines, files) and everything it emits (standard output, error output, log) can be observed.

// childJob is what a child process is told to do, on its standard input; it reports on descriptor 3.
type childJob struct {
	Held *Held
	Sec  *Secrets
	Dir  string // scratch directory of the child, with its TMPDIR in tmp
}

// holding is what a process holds at some point.
type holding struct {
	FDs        []string
	Goroutines int
	Children   string
	Tmp        []string
}

type childReport struct {
	Hold    []holding // after each round
	Problem string    // something held after an operation
	Emitted []HB      // what operations returned: texts, errors, transactions
	Secret  []HB
	Files   []string // left in its directories, by the parent
	Env     []string // its environment, as far as it changed
}

// Child is the entry point of a child process.
func Child() {
	var j childJob
	rep := os.NewFile(3, "report")
	if err := json.NewDecoder(os.Stdin).Decode(&j); err != nil {
		os.Exit(4)
	}
	var r childReport
	if j.Held != nil {
		r = runHeld(*j.Held, j.Dir)
	} else {
		r = runSecrets(*j.Sec, j.Dir)
	}
	if json.NewEncoder(rep).Encode(r) != nil {
		os.Exit(4)
	}
	os.Exit(0)
}

// spawn runs a job in a child and returns its report and what it printed.
func spawn(j childJob) (rep childReport, printed []byte, err error) {
	dir, err := os.MkdirTemp(workDir(), "child")
	must(err)
	defer os.RemoveAll(dir)
	for _, d := range []string{"tmp", "home", "cwd"} {
		must(os.Mkdir(filepath.Join(dir, d), 0o755))
	}
	j.Dir = dir
	in, err := json.Marshal(j)
	must(err)
	pr, pw, err := os.Pipe()
	must(err)
	defer pr.Close()
	self, err := os.Executable()
	must(err)
	cmd := exec.Command(self, "child", "-")
	var out bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(in), &out, &out
	cmd.ExtraFiles = []*os.File{pw}
	for _, e := range os.Environ() {
		if k, _, _ := strings.Cut(e, "="); k != "TMPDIR" && k != "VERIF_WORK" && k != "HOME" && !strings.HasPrefix(k, "XDG_") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "TMPDIR="+filepath.Join(dir, "tmp"), "HOME="+filepath.Join(dir, "home"), "VERIF_WORK="+dir)
	cmd.Dir = filepath.Join(dir, "cwd")
	must(cmd.Start())
	pw.Close()
	var raw bytes.Buffer
	done := make(chan struct{})
	go func() { raw.ReadFrom(pr); close(done) }()
	werr := cmd.Wait()
	<-done
	if werr != nil {
		return rep, out.Bytes(), errf("the process failed (%v): %s", werr, clipS(out.String(), 2000))
	}
	if err := json.Unmarshal(raw.Bytes(), &rep); err != nil {
		return rep, out.Bytes(), errf("no report: %v", err)
	}
	for _, d := range []string{"tmp", "home", "cwd"} {
		filepath.WalkDir(filepath.Join(dir, d), func(p string, e os.DirEntry, err error) error {
			if err == nil && !e.IsDir() {
				b, _ := os.ReadFile(p)
				rep.Files = append(rep.Files, strings.TrimPrefix(p, dir)+"\n"+string(b))
			}
			return nil
		})
	}
	return rep, out.Bytes(), nil
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- C30: nothing is left behind ----

// Held is a history of operations; each is operation o%8 with outcome o/8.
type Held struct {
	Bf  bool
	Net int
	Ops []int

	Keep bool // the server lets connections be used again
}

const heldRounds = 3

var (
	heldOps    = []string{"UTXOs", "QueryTip", "ProtocolParameters", "SubmitTx", "LoadProtocol"}
	heldCliOut = []string{"ok", "exit 1", "killed", "garbage", "no program"}
	heldBfOut  = []string{"ok", "403", "garbage", "redirect", "cut short", "closed", "500", "no connection"}
)

func heldName(bfToo bool, o int) string {
	if bfToo {
		return heldOps[o%8] + "(" + heldBfOut[o/8] + ")"
	}
	return heldOps[o%8] + "(" + heldCliOut[o/8] + ")"
}

// heldAns is the stand-in server's answer for an outcome.
func heldAns(out int, r bfReq) bfAns {
	switch out {
	case 1:
		return bfAns{Status: 403, Body: errBody(403)}
	case 2:
		return bfAns{Status: 200, Body: "<html>" + strings.Repeat("garbage ", 3000)}
	case 3:
		return bfAns{Status: 302, Body: strings.Repeat("moved ", 3000), Header: map[string]string{"Location": "https://elsewhere.blockfrost.io/api/v0/x"}}
	case 4:
		a := heldAns(0, r)
		a.Short = true
		return a
	case 5:
		return bfAns{Close: true}
	case 6:
		return bfAns{Status: 500, Body: errBody(500)}
	}
	switch {
	case r.Method == "POST":
		return bfAns{Status: 200, Body: `"` + hex.EncodeToString(inHash(5)) + `"`}
	case strings.Contains(r.Path, "blocks"):
		return bfAnswer(nT1, 0)
	case strings.Contains(r.Path, "parameters"):
		return bfAnswer(nP1, 0)
	case r.Query.Get("page") != "" && r.Query.Get("page") != "1":
		return bfAns{Status: 200, Body: "[]"}
	}
	return bfAnswer(nU3, 0)
}

var heldOnce sync.Once

func heldServer() {
	bfStart()
	heldOnce.Do(func() {
		bf.mu.Lock()
		defer bf.mu.Unlock()
		for o := range heldBfOut {
			bf.byID[fmt.Sprint("held-", o)] = func(r bfReq) bfAns { return heldAns(o, r) }
			bf.byID[fmt.Sprint("keep-", o)] = func(r bfReq) bfAns { return heldAns(o, r) }
		}
	})
}

func holds(dir string) (h holding) {
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && !strings.HasSuffix(l, "/fd") && !strings.HasPrefix(l, "anon_inode:") {
			h.FDs = append(h.FDs, l)
		}
	}
	h.Goroutines = runtime.NumGoroutine()
	ts, _ := filepath.Glob("/proc/self/task/*/children")
	for _, t := range ts {
		b, _ := os.ReadFile(t)
		h.Children += string(b)
	}
	es, _ = os.ReadDir(filepath.Join(dir, "tmp"))
	for _, e := range es {
		h.Tmp = append(h.Tmp, e.Name())
	}
	return
}

// runHeld runs in the child.
func runHeld(c Held, dir string) (rep childReport) {
	// what is given back only by the garbage collector is still held
	debug.SetGCPercent(-1)
	net := bfNet(c.Net)
	t := nodeTx(nSBig)
	good := filepath.Join(dir, "params.json")
	must(os.WriteFile(good, []byte(paramText(nodeParams(nP1, 0), []int{0, 1, 2, 3, 4}, true)), 0o644))
	bad := filepath.Join(dir, "bad.json")
	must(os.WriteFile(bad, []byte(`{"txFeePerByte":`), 0o644))
	a := mustAddr(histAddrs[0])
	var nodes []node.Node
	var s *stand
	if c.Bf {
		for o := range heldBfOut {
			nodes = append(nodes, node.NewBlockfrostClient(fmt.Sprint(map[bool]string{false: "held-", true: "keep-"}[c.Keep], o), net))
		}
	} else {
		s = newStand("cardano-cli")
		for o := range heldCliOut {
			p := s.path
			if o == 4 {
				p = filepath.Join(dir, "missing", "cardano-cli")
			}
			nodes = append(nodes, node.NewCardanoCliNode(net, p))
		}
	}
	settled := func(ok func(holding) bool) (h holding) {
		for i := 0; i < 200; i++ {
			if h = holds(dir); ok(h) {
				return
			}
			time.Sleep(10 * time.Millisecond)
		}
		return
	}
	var first holding
	for round := 0; round < heldRounds; round++ {
		for _, o := range c.Ops {
			op, out := o%8, o/8
			if s != nil {
				text := map[int]int{0: nU3, 1: nT1, 2: nP1, 3: nSBig, 4: nP1}[op]
				ans, _ := cliAnswer(text, 0)
				if out == 3 {
					ans = "\n\ngarbage { [ \n1 2 3\n"
				}
				s.answer(ans, []string{"0", "1", "sigKILL", "0", "0"}[out])
			}
			var err error
			switch op {
			case 0:
				_, err = nodes[out].UTXOs(a)
			case 1:
				_, err = nodes[out].QueryTip()
			case 2:
				_, err = nodes[out].ProtocolParameters()
			case 3:
				_, err = nodes[out].SubmitTx(t)
			case 4:
				f := good
				if out != 0 {
					f = []string{bad, filepath.Join(dir, "none.json"), dir, bad}[(out-1)%4]
				}
				_, err = protocol.LoadProtocol(f)
			}
			rep.Emitted = append(rep.Emitted, HB(fmt.Sprint(err == nil)))
			h := settled(func(h holding) bool { return h.Children == "" && len(h.Tmp) == 0 })
			if h.Children != "" {
				rep.Problem = fmt.Sprintf("after %s in round %d the process still has children (%s)", heldName(c.Bf, o), round+1, h.Children)
				return
			}
			if len(h.Tmp) != 0 {
				rep.Problem = fmt.Sprintf("after %s in round %d the temporary directory holds %v", heldName(c.Bf, o), round+1, h.Tmp)
				return
			}
		}
		if round == 0 {
			// what is set up once stays: wait until it no longer shrinks
			first = holds(dir)
			for i := 0; i < 10; i++ {
				time.Sleep(5 * time.Millisecond)
				h := holds(dir)
				if len(h.FDs) < len(first.FDs) || h.Goroutines < first.Goroutines {
					first, i = h, 0
				}
			}
			rep.Hold = append(rep.Hold, first)
			continue
		}
		rep.Hold = append(rep.Hold, settled(func(h holding) bool { return len(h.FDs) <= len(first.FDs) && h.Goroutines <= first.Goroutines }))
	}
	return
}

func checkHeld(c Held, n *core.Counter) error {
	if c.Bf {
		heldServer()
	}
	rep, _, err := spawn(childJob{Held: &c})
	if err != nil {
		return err
	}
	n.Op(heldRounds * len(c.Ops))
	n.StateS(fmt.Sprint(c.Bf, c.Ops, rep.Emitted))
	var names []string
	for _, o := range c.Ops {
		names = append(names, heldName(c.Bf, o))
	}
	hist := strings.Join(names, "; ")
	if rep.Problem != "" {
		return errf("%s: %s", hist, rep.Problem)
	}
	if len(rep.Hold) != heldRounds {
		return errf("harness: %d rounds reported", len(rep.Hold))
	}
	f, m, l := rep.Hold[0], rep.Hold[1], rep.Hold[2]
	if len(f.FDs) < len(m.FDs) && len(m.FDs) < len(l.FDs) {
		return errf("%s: each repetition leaves more files or connections open: %d, %d, %d: %v", hist, len(f.FDs), len(m.FDs), len(l.FDs), l.FDs)
	}
	if f.Goroutines < m.Goroutines && m.Goroutines < l.Goroutines {
		return errf("%s: each repetition leaves more goroutines: %d, %d, %d", hist, f.Goroutines, m.Goroutines, l.Goroutines)
	}
	return nil
}

func genHeld(r *core.Run, yield func(Held)) {
	all := func(bfToo bool) (ops []int) {
		nout := len(heldCliOut)
		if bfToo {
			nout = 4 // the others make the client wait and try again
		}
		for out := 0; out < nout; out++ {
			for op := range heldOps {
				if op == 4 && bfToo {
					continue
				}
				ops = append(ops, op+8*out)
			}
		}
		return
	}
	for _, bfToo := range []bool{false, true} {
		ops := all(bfToo)
		for net := 0; net < 2; net++ {
			for _, a := range ops {
				yield(Held{Bf: bfToo, Net: net, Ops: []int{a}})
				if bfToo {
					yield(Held{Bf: bfToo, Net: net, Ops: []int{a}, Keep: true})
				}
			}
		}
		for _, a := range ops {
			for _, b := range ops {
				if a != b {
					yield(Held{Bf: bfToo, Ops: []int{a, b}})
					if bfToo {
						yield(Held{Bf: bfToo, Ops: []int{a, b}, Keep: true})
					}
				}
			}
		}
		if r.Thorough() {
			for _, a := range ops {
				for _, b := range ops {
					for _, c := range ops {
						if a != b && b != c && (a&7 == 3 || b&7 == 3 || c&7 == 3) {
							yield(Held{Bf: bfToo, Ops: []int{a, b, c}, Keep: bfToo && (a+b+c)&8 != 0})
						}
					}
				}
			}
		}
	}
	// submissions are not retried
	for _, o := range []int{4, 5, 6} {
		yield(Held{Bf: true, Ops: []int{3 + 8*o}})
		yield(Held{Bf: true, Ops: []int{3 + 8*o, 3}, Net: 1})
		yield(Held{Bf: true, Ops: []int{3 + 8*o, 3}, Keep: true})
	}
}

// ---- C31: secrets stay inside ----

// Secrets is a history of uses of secret keys.
type Secrets struct {
	Mode  int // 0 entropy and password, 1 seed
	Keys  int
	Ops   []int
	Cli   string
	Projs []string
}

var secOps = []string{"derive", "address", "sign", "change", "build", "build with metadata", "build with unencodable metadata", "submit(cli)", "submit(cli fails)", "submit(blockfrost)", "submit(blockfrost 403)",
	"submit(blockfrost redirects)", "query(cli)", "query(blockfrost)", "bad address", "bad seed", "bad input", "show", "large", "empty"}

var secEnt, secPw, secSeed = ramp(32, 0x41), []byte("open sesame, said the 40 thieves!"), ramp(32, 0x63)

// runSecrets runs in the child.
func runSecrets(c Secrets, dir string) (rep childReport) {
	before := map[string]bool{}
	for _, e := range os.Environ() {
		before[e] = true
	}
	defer func() {
		for _, e := range os.Environ() {
			if !before[e] {
				rep.Env = append(rep.Env, e)
			}
		}
	}()
	emit := func(a ...any) {
		for _, x := range a {
			switch v := x.(type) {
			case nil:
			case []byte:
				rep.Emitted = append(rep.Emitted, v, HB(hex.EncodeToString(v)))
			case error:
				rep.Emitted = append(rep.Emitted, HB(v.Error()), HB(fmt.Sprintf("%+v", v)))
			default:
				rep.Emitted = append(rep.Emitted, HB(fmt.Sprintf("%+v", v)))
			}
		}
	}
	secret := func(k bip32.XPrv) bip32.XPrv {
		rep.Secret = append(rep.Secret, clone(k))
		return k
	}
	var root bip32.XPrv
	if c.Mode == 0 {
		rep.Secret = append(rep.Secret, secEnt, secPw)
		root = bip32.FromBip39Entropy(clone(secEnt), clone(secPw))
	} else {
		rep.Secret = append(rep.Secret, secSeed)
		var err error
		root, err = bip32.NewXPrv(clone(secSeed))
		emit(err)
	}
	secret(root)
	var keys []bip32.XPrv
	for i := 0; i < c.Keys; i++ {
		k := root
		for _, ix := range []uint32{1852 | hard, 1815 | hard, hard, 0, uint32(i)} {
			k = secret(k.Derive(ix))
		}
		keys = append(keys, k)
	}
	net := netOf(0)
	s := &stand{filepath.Dir(c.Cli), c.Cli}
	must(os.WriteFile(filepath.Join(s.dir, "record-env"), nil, 0o644))
	cli := node.NewCardanoCliNode(net, c.Cli)
	var bfs []node.Node
	for _, p := range c.Projs {
		bfs = append(bfs, node.NewBlockfrostClient(p, net))
	}
	h := keys[0].Public().PublicKey().Hash()
	own := address.NewEnterpriseAddress(net, address.NewKeyStakeCredential(h[:]))
	var final tx.Tx
	build := func(meta any) {
		b := tx.NewTxBuilder(nodeParams(nP1, 0), keys[:1])
		for _, k := range keys[1:] {
			b.Sign(k)
		}
		b.AddInputs(tx.NewTxInput(hex.EncodeToString(inHash(1)), 1, 5_000_000))
		b.AddOutputs(tx.NewTxOutput(own, 1_000_000))
		b.Tx().Metadata = meta
		emit(b.MinFee())
		b.AddChangeIfNeeded(own)
		t, err := b.Build()
		emit(err)
		if err == nil {
			final = t
			x, err := t.Hex()
			emit(x, err)
		}
	}
	build(nil)
	for _, o := range c.Ops {
		switch o {
		case 0:
			for _, ix := range []uint32{0, 1, hard - 1, hard, 1<<32 - 1} {
				k := secret(root.Derive(ix))
				pk := k.Public().PublicKey()
				emit([]byte(pk), pk.Hash())
			}
			for l := 0; l <= 32; l += 4 {
				secret(bip32.FromBip39Entropy(secEnt[:l:l], secPw[:l:l]))
			}
		case 1:
			emit(own, own.String(), own.Bytes())
			m, err := own.MarshalCBOR()
			emit(m, err)
		case 2:
			for _, k := range keys {
				for _, l := range []int{0, 1, 31, 32, 33, 64, 127, 128, 129, 500, 5000} {
					sg := k.Sign(ramp(l, 9))
					emit(sg[:])
				}
			}
		case 3:
			b := tx.NewTxBuilder(nodeParams(nP1, 0), keys)
			b.AddInputs(tx.NewTxInput(hex.EncodeToString(inHash(1)), 1, 100))
			b.AddOutputs(tx.NewTxOutput(own, 1_000_000))
			b.AddChangeIfNeeded(own)
			x, err := b.Tx().Hex()
			emit(x, err)
		case 4:
			build(nil)
		case 5:
			build(map[uint64]interface{}{674: "hello"})
		case 6:
			build(map[uint64]interface{}{674: make(chan int)})
		case 7, 8:
			s.answer("Transaction successfully submitted.", []string{"0", "1"}[o-7])
			id, err := cli.SubmitTx(final)
			emit(id, err)
		case 9, 10, 11:
			id, err := bfs[o-9].SubmitTx(final)
			emit(id, err)
		case 12:
			for _, q := range []int{nU3, nUBad, nUFail} {
				out, exit := cliAnswer(q, 0)
				s.answer(out, exit)
				u, err := cli.UTXOs(own)
				emit(u, err)
			}
			s.answer(`{"slot":"x"}`, "0")
			tp, err := cli.QueryTip()
			emit(tp, err)
			pp, err := cli.ProtocolParameters()
			emit(pp, err)
		case 13:
			for _, b := range bfs {
				u, err := b.UTXOs(own)
				emit(u, err)
				tp, err := b.QueryTip()
				emit(tp, err)
				pp, err := b.ProtocolParameters()
				emit(pp, err)
			}
		case 14:
			for _, x := range []string{"", "addr1", own.String()[1:], own.String() + "q", "Ae2tdPwUPEZ"} {
				_, err := address.NewAddress(x)
				emit(err)
			}
			_, err := address.NewAddressFromBytes([]byte{0x82, 0xd8, 0x18, 0x40, 0})
			emit(err)
		case 15:
			for _, l := range []int{0, 16, 31, 33, 64} {
				sd := append(append([]byte{}, secSeed...), secSeed...)[:l]
				k, err := bip32.NewXPrv(sd)
				if err == nil {
					err = errors.New("accepted")
				}
				emit(err, []byte(k))
			}
			rep.Secret = append(rep.Secret, secSeed)
		case 16:
			b := tx.NewTxBuilder(nodeParams(nP1, 0), keys)
			b.AddInputs(tx.NewTxInput("zz", 1, 5_000_000))
			b.AddOutputs(tx.NewTxOutput(own, 1_000_000))
			b.AddChangeIfNeeded(own)
			_, err := b.Build()
			emit(err)
		case 18:
			b := tx.NewTxBuilder(nodeParams(nP1, 0), keys)
			for i := 0; i < 300; i++ {
				b.AddInputs(tx.NewTxInput(hex.EncodeToString(inHash(i)), uint16(i), 5_000_000))
				b.AddOutputs(tx.NewTxOutput(own, 1_000_000))
			}
			b.SetTTL(1 << 30)
			b.AddChangeIfNeeded(own)
			for i := 0; i < 30; i++ {
				b.Sign(keys[i%len(keys)])
			}
			t, err := b.Build()
			x, err2 := t.Hex()
			emit(err, x, err2)
		case 19:
			b := tx.NewTxBuilder(protocol.Protocol{}, keys)
			emit(b.MinFee())
			b.AddChangeIfNeeded(own)
			t, err := b.Build()
			x, err2 := t.Hex()
			emit(err, x, err2)
			b = tx.NewTxBuilder(protocol.Protocol{}, nil)
			b.Sign(keys[0])
			b.AddOutputs(tx.NewTxOutput(own, 1))
			t, err = b.Build()
			x, err2 = t.Hex()
			emit(err, x, err2)
		case 17:
			emit(final)
			if final.Body != nil {
				emit(*final.Body)
				for _, o := range final.Body.Outputs {
					emit(*o)
				}
				for _, i := range final.Body.Inputs {
					emit(i.TxHash, i.Index, i.Amount)
				}
				for _, w := range final.Witness.Keys {
					emit(*w)
				}
			}
		}
	}
	return
}

var (
	escaped = regexp.MustCompile(`\\x[0-9a-f]{2}`)
	hexRun  = regexp.MustCompile(`[0-9a-fA-F]{24,}`)
	b64Run  = regexp.MustCompile(`[A-Za-z0-9+/_-]{16,}`)
	decRun  = regexp.MustCompile(`(?:\d{1,3}[ ,]{1,2}){11,}\d{1,3}`)
)

const secWindow = 12 // bytes of a secret in a row that count as a leak

// leaked looks for a piece of a secret in what was observed, plainly or as hex, base64 or a list of numbers.
func leaked(secrets []HB, seen []byte) string {
	win := map[string]int{}
	for i, s := range secrets {
		for j := 0; j+secWindow <= len(s); j++ {
			win[string(s[j:j+secWindow])] = i
		}
	}
	look := func(b []byte) bool {
		for j := 0; j+secWindow <= len(b); j++ {
			if _, ok := win[string(b[j:j+secWindow])]; ok {
				return true
			}
		}
		return false
	}
	if look(seen) {
		return "plainly"
	}
	if look(escaped.ReplaceAllFunc(seen, func(e []byte) []byte {
		b, _ := hex.DecodeString(string(e[2:]))
		return b
	})) {
		return "quoted"
	}
	for _, m := range hexRun.FindAll(seen, -1) {
		for o := 0; o < 2; o++ {
			h := m[o:]
			b, _ := hex.DecodeString(string(h[:len(h)&^1]))
			if look(b) {
				return "as hex"
			}
		}
	}
	for _, m := range b64Run.FindAll(seen, -1) {
		t := strings.NewReplacer("-", "+", "_", "/").Replace(string(m))
		for o := 0; o < 4 && o < len(t); o++ {
			u := t[o:]
			b, _ := base64.RawStdEncoding.DecodeString(u[:len(u)&^3])
			if look(b) {
				return "as base64"
			}
		}
	}
	for _, m := range decRun.FindAll(seen, -1) {
		var b []byte
		for _, f := range strings.FieldsFunc(string(m), func(r rune) bool { return r == ' ' || r == ',' }) {
			v := 0
			fmt.Sscan(f, &v)
			b = append(b, byte(v))
		}
		if look(b) {
			return "as a list of numbers"
		}
	}
	return ""
}

func checkSecrets(c Secrets, n *core.Counter) error {
	bfStart()
	s := newStand("cardano-cli")
	defer s.done()
	c.Cli = s.path
	c.Projs = nil
	var mu sync.Mutex
	var sent bytes.Buffer
	elsewhere := ""
	id := nodeSeq.Add(1)
	for o := 0; o < 3; o++ {
		out := []int{0, 1, 3}[o]
		p := fmt.Sprintf("project%dsecret%d", o, id)
		c.Projs = append(c.Projs, p)
		bf.mu.Lock()
		bf.byID[p] = func(r bfReq) bfAns {
			mu.Lock()
			defer mu.Unlock()
			fmt.Fprintf(&sent, "%s %s %s %v %v\n%s\n", r.Method, r.Host, r.Path, r.Query, r.Header, r.Body)
			if r.Host != bfHost(0) && (r.Method == "POST" || out != 3) {
				elsewhere = r.Method + " to " + r.Host
			}
			return heldAns(out, r)
		}
		bf.mu.Unlock()
	}
	defer func() {
		bf.mu.Lock()
		for _, p := range c.Projs {
			delete(bf.byID, p)
		}
		bf.mu.Unlock()
	}()
	rep, printed, err := spawn(childJob{Sec: &c})
	if err != nil {
		return err
	}
	n.Op(len(c.Ops))
	var names []string
	for _, o := range c.Ops {
		names = append(names, secOps[o])
	}
	hist := strings.Join(names, "; ")
	calls, _ := os.ReadFile(filepath.Join(s.dir, "calls"))
	file, _ := s.txFile()
	given, _ := os.ReadFile(filepath.Join(s.dir, "env"))
	mu.Lock()
	defer mu.Unlock()
	returned := []byte{}
	for _, e := range rep.Emitted {
		returned = append(append(returned, e...), '\n')
	}
	n.StateS(fmt.Sprint(c.Mode, c.Keys, hist, len(returned)))
	if len(rep.Secret) < 2+5*c.Keys {
		return errf("harness: %d secrets reported", len(rep.Secret))
	}
	for _, w := range []struct {
		where string
		b     []byte
	}{{"printed", printed}, {"in arguments of cardano-cli", calls}, {"in the file for cardano-cli", file}, {"in the environment or input of cardano-cli", given}, {"in the environment", []byte(strings.Join(rep.Env, "\n"))}, {"in requests to Blockfrost", sent.Bytes()}, {"in what operations return", returned}, {"in files", []byte(strings.Join(rep.Files, "\n"))}} {
		if how := leaked(rep.Secret, w.b); how != "" {
			return errf("%s: a piece of a secret shows up %s, %s", hist, w.where, how)
		}
		if w.where == "in requests to Blockfrost" {
			continue
		}
		for _, p := range c.Projs {
			if bytes.Contains(w.b, []byte(p)) {
				return errf("%s: the project id shows up %s", hist, w.where)
			}
		}
	}
	if elsewhere != "" {
		return errf("%s: the project id was sent elsewhere: %s", hist, elsewhere)
	}
	return nil
}

func genSecrets(r *core.Run, yield func(Secrets)) {
	for mode := 0; mode < 2; mode++ {
		for keys := 1; keys <= 2; keys++ {
			yield(Secrets{Mode: mode, Keys: keys})
			for a := range secOps {
				yield(Secrets{Mode: mode, Keys: keys, Ops: []int{a}})
			}
		}
	}
	for a := range secOps {
		for b := range secOps {
			yield(Secrets{Mode: a & 1, Keys: 1 + b&1, Ops: []int{a, b}})
			if r.Thorough() {
				for c := range secOps {
					yield(Secrets{Mode: (a + c) & 1, Keys: 1 + b&1, Ops: []int{a, b, c}})
				}
			}
		}
	}
}

func init() {
	core.Register(&core.Prop{ID: "C30", Level: "fault_enumeration", Subs: []core.Sub{
		core.S[Held]{N: "held", Gen: genHeld, Check: checkHeld, Batch: 2}},
		Exhaustive:  "all histories of node operations and parameter files, with every outcome (success, failures of the program and the server, garbage), to depth 2 (3 with a submission), each repeated three times in a process of its own with garbage collection off",
		Assumptions: []string{"queries that the Blockfrost client retries are left out (they are enumerated by C24)"}})
	core.Register(&core.Prop{ID: "C31", Level: "fault_enumeration", Subs: []core.Sub{
		core.S[Secrets]{N: "secrets", Gen: genSecrets, Check: checkSecrets, Batch: 2}},
		Exhaustive:  "all histories of uses of keys, successful and failing, to depth 2 (3), in a process of its own; everything it prints, writes, sends and returns is searched for 12 bytes in a row of any secret, plainly, as hex, base64 or a list of numbers",
		Assumptions: []string{"keys that the caller asks for (derived keys, chain codes) are returned to the caller"}})
}
