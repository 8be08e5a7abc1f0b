package props

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/core"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/ref"
)

// Histories and overlaps of node operations: answers belong to the question asked, whatever was asked
// before or is being asked at the same time, and results already returned stay as they are.

// kinds of node operations
const (
	nU3 = iota // three entries
	nU1
	nU0
	nUOther // another address
	nUBad   // malformed entry after two good ones
	nUFail
	nT1
	nT2
	nTFail
	nP1
	nP2
	nPFail
	nSBig
	nSSmall
	nSFail
	nPLess // parameters without a minimum UTXO value
)

var nodeOpNames = []string{"UTXOs(3)", "UTXOs(1)", "UTXOs(0)", "UTXOs(other address)", "UTXOs(malformed)", "UTXOs(fails)", "QueryTip(a)", "QueryTip(b)", "QueryTip(fails)",
	"ProtocolParameters(a)", "ProtocolParameters(b)", "ProtocolParameters(fails)", "SubmitTx(large)", "SubmitTx(small)", "SubmitTx(fails)", "ProtocolParameters(one missing)"}

func nodeFails(op int) bool {
	return op == nUBad || op == nUFail || op == nTFail || op == nPFail || op == nSFail
}

// nodeProp is the group of an operation: 0 UTXOs and tips, 1 parameters, 2 submissions.
func nodeProp(op int) int {
	switch {
	case op == nPLess:
		return 1
	case op >= nSBig:
		return 2
	case op >= nP1:
		return 1
	}
	return 0
}

// NodeHist is a history; operation o is o%16 on node o/16.
type NodeHist struct {
	Bf    bool
	Nodes int
	Ops   []int
}

type histTxs struct {
	big, small tx.Tx
}

var (
	histTxOnce sync.Once
	histTx     histTxs
	nodeSeq    atomic.Int64
)

func nodeTx(op int) tx.Tx {
	histTxOnce.Do(func() {
		c := base(2)
		for i := 0; i < 40; i++ {
			c.Ins = append(c.Ins, someIn(i+1))
			c.Outs = append(c.Outs, someOut(i+1))
		}
		c.Keys, c.Meta = 3, 3
		var err error
		histTx.big, err = buildTx(c)
		must(err)
		d := base(2)
		d.Keys = 1
		histTx.small, err = buildTx(d)
		must(err)
		// TMPDIR of the process, for the parts that do not look at it
		d2 := filepath.Join(workDir(), "tmp-hist")
		os.MkdirAll(d2, 0o755)
		if os.Getenv("TMPDIR") == "" {
			os.Setenv("TMPDIR", d2)
		}
	})
	if op == nSSmall {
		return histTx.small
	}
	return histTx.big
}

func nodeRows(op, who int) (rows []Row) {
	n := map[int]int{nU3: 3, nU1: 1, nU0: 0, nUOther: 4, nUBad: 3, nUFail: 2}[op]
	for i := 0; i < n; i++ {
		r := goodRow(i + op*5 + who*40)
		rows = append(rows, r)
	}
	if op == nUBad {
		rows[2].Amt = "12x"
	}
	return
}

func nodeTip(op, who int) [3]uint64 {
	if op == nT2 {
		return [3]uint64{7, 8, 9 + uint64(who)}
	}
	return [3]uint64{43000000 + uint64(who), 301, 6500000}
}

func nodeParams(op, who int) protocol.Protocol {
	p := protocol.Protocol{TxFeePerByte: 44, TxFeeFixed: 155381, MaxTxSize: 16384, ProtocolVersion: protocol.ProtocolVersion{Major: 5, Minor: 1}, MinUTXOValue: 1000000}
	if op == nP2 {
		p = protocol.Protocol{TxFeePerByte: 5, TxFeeFixed: 6, MaxTxSize: 7, ProtocolVersion: protocol.ProtocolVersion{Major: 8, Minor: 9}, MinUTXOValue: 10}
	}
	if op == nPLess {
		p.TxFeePerByte, p.MinUTXOValue = 46, 0
	}
	p.MaxTxSize += uint(who)
	return p
}

func nodeAddr(op int) []byte {
	if op == nUOther {
		return histAddrs[2]
	}
	return histAddrs[0]
}

type nodeResult struct {
	op, who int
	utxos   []tx.TxInput
}

func sameRows(got []tx.TxInput, rows []Row) error {
	if len(got) != len(rows) {
		return errf("%d entries, want %d", len(got), len(rows))
	}
	for i, r := range rows {
		if hex.EncodeToString(got[i].TxHash) != string(r.Hash) || fmt.Sprint(got[i].Index) != string(r.Ix) || fmt.Sprint(got[i].Amount) != string(r.Amt) {
			return errf("entry %d is %x#%d %d, want %s#%s %s", i, got[i].TxHash, got[i].Index, got[i].Amount, r.Hash, r.Ix, r.Amt)
		}
	}
	return nil
}

// runNodeOp calls the operation and judges the answer. sent returns what the environment was handed.
func runNodeOp(nd node.Node, op, who int, wantID string) (u []tx.TxInput, err error, bad error) {
	switch nodeProp(op) {
	case 0:
		if op >= nT1 {
			t, e := nd.QueryTip()
			if w := nodeTip(op, who); !nodeFails(op) && (e != nil || [3]uint64{uint64(t.Slot), uint64(t.Epoch), uint64(t.Block)} != w) {
				bad = errf("the tip is %+v (%v), want %v", t, e, w)
			}
			return nil, e, bad
		}
		l, e := nd.UTXOs(mustAddr(nodeAddr(op)))
		if !nodeFails(op) {
			if e != nil {
				bad = e
			} else {
				bad = sameRows(l, nodeRows(op, who))
			}
		}
		return l, e, bad
	case 1:
		p, e := nd.ProtocolParameters()
		if op == nPLess && e != nil {
			return nil, e, nil // refused, or nothing made up for what is missing
		}
		if w := nodeParams(op, who); !nodeFails(op) && (e != nil || p != w) {
			bad = errf("the parameters are %+v (%v), want %+v", p, e, w)
		}
		return nil, e, bad
	}
	id, e := nd.SubmitTx(nodeTx(op))
	if !nodeFails(op) && (e != nil || strings.TrimSpace(id) != wantID) {
		bad = errf("the submission returns %q (%v), want %q", id, e, wantID)
	}
	return nil, e, bad
}

func cliAnswer(op, who int) (out, exit string) {
	exit = "0"
	if nodeFails(op) && op != nUBad {
		exit = "1"
	}
	switch nodeProp(op) {
	case 0:
		if op >= nT1 {
			t := nodeTip(op, who)
			return fmt.Sprintf(`{"epoch":%d,"slot":%d,"block":%d}`, t[1], t[0], t[2]), exit
		}
		out = tableHead
		for _, r := range nodeRows(op, who) {
			out += r.line() + "\n"
		}
		return out, exit
	case 1:
		if op == nPLess {
			return string(paramText(nodeParams(op, who), []int{0, 1, 2, 3}, true)), exit
		}
		return string(paramText(nodeParams(op, who), []int{0, 1, 2, 3, 4}, true)), exit
	}
	return "Transaction successfully submitted.", exit
}

func bfUtxos(rows []Row) string {
	var l []string
	for _, r := range rows {
		l = append(l, BfUtxo{r.Hash, r.Ix, [][2]QS{{asset, "4"}, {"lovelace", r.Amt}}}.json())
	}
	return "[" + strings.Join(l, ",") + "]"
}

func bfAnswer(op, who int) bfAns {
	switch {
	case nodeFails(op) && op != nUBad:
		return bfAns{Status: 403, Body: errBody(403)}
	case op == nT1 || op == nT2:
		t := nodeTip(op, who)
		return bfAns{Status: 200, Body: bfTipJSON([3]QS{QS(fmt.Sprint(t[0])), QS(fmt.Sprint(t[1])), QS(fmt.Sprint(t[2]))})}
	case nodeProp(op) == 1:
		p := nodeParams(op, who)
		q := func(u any) QS { return QS(fmt.Sprint(u)) }
		if op == nPLess {
			return bfAns{Status: 200, Body: bfParamJSON([]QS{q(p.TxFeePerByte), q(p.TxFeeFixed), q(p.MaxTxSize), q(p.ProtocolVersion.Major), q(p.ProtocolVersion.Minor), "null"})}
		}
		return bfAns{Status: 200, Body: bfParamJSON([]QS{q(p.TxFeePerByte), q(p.TxFeeFixed), q(p.MaxTxSize), q(p.ProtocolVersion.Major), q(p.ProtocolVersion.Minor), `"` + q(p.MinUTXOValue) + `"`})}
	case nodeProp(op) == 2:
		return bfAns{Status: 200, Body: `"` + hex.EncodeToString(inHash(op)) + `"`}
	}
	return bfAns{Status: 200, Body: bfUtxos(nodeRows(op, who))}
}

func bfPath(op int) string {
	switch {
	case nodeProp(op) == 2:
		return "/api/v0/tx/submit"
	case nodeProp(op) == 1:
		return "/api/v0/epochs/latest/parameters"
	case op >= nT1:
		return "/api/v0/blocks/latest"
	}
	return "/api/v0/addresses/" + mustAddr(nodeAddr(op)).String() + "/utxos"
}

// checkNodeHist runs a history; group is the one whose operations are judged.
func checkNodeHist(group int) func(NodeHist, *core.Counter) error {
	return func(c NodeHist, n *core.Counter) error {
		nodeTx(0)
		var st []*stand
		var nodes []node.Node
		var proj []string
		var mu sync.Mutex
		var cur bfAns
		var seen []bfReq
		for i := 0; i < c.Nodes; i++ {
			net := netOf(byte(i & 1))
			if c.Bf {
				bfStart()
				p := fmt.Sprint("hist-", nodeSeq.Add(1))
				bf.mu.Lock()
				bf.byID[p] = func(r bfReq) bfAns {
					mu.Lock()
					defer mu.Unlock()
					seen = append(seen, r)
					if pg := r.Query.Get("page"); pg != "" && pg != "1" {
						return bfAns{Status: 200, Body: "[]"}
					}
					return cur
				}
				bf.mu.Unlock()
				defer func() {
					bf.mu.Lock()
					delete(bf.byID, p)
					bf.mu.Unlock()
				}()
				proj = append(proj, p)
				nodes = append(nodes, node.NewBlockfrostClient(p, net))
				continue
			}
			s := newStand("cardano-cli")
			defer s.done()
			st = append(st, s)
			nodes = append(nodes, node.NewCardanoCliNode(net, s.path))
		}
		var kept []nodeResult
		hist := ""
		for _, o := range c.Ops {
			who, op := o/16, o%16
			hist += fmt.Sprintf("%c.%s; ", 'A'+who, nodeOpNames[op])
			n.Op(1)
			wantID := "Transaction successfully submitted."
			if c.Bf {
				mu.Lock()
				cur, seen = bfAnswer(op, who), nil
				mu.Unlock()
				wantID = hex.EncodeToString(inHash(op))
			} else {
				out, exit := cliAnswer(op, who)
				st[who].answer(out, exit)
			}
			u, err, bad := runNodeOp(nodes[who], op, who, wantID)
			if nodeProp(op) != group {
				if c.Bf {
					continue
				}
				st[who].take()
				st[who].txFile()
				continue
			}
			if bad != nil {
				return errf("after %s%v", hist, bad)
			}
			if nodeFails(op) && err == nil {
				return errf("after %sno error", hist)
			}
			if c.Bf {
				mu.Lock()
				reqs := seen
				mu.Unlock()
				if len(reqs) == 0 {
					return errf("after %sno request was made", hist)
				}
				for _, r := range reqs {
					m := "GET"
					if group == 2 {
						m = "POST"
					}
					if e := wantReq(r, who&1, m, bfPath(op), proj[who]); e != nil {
						return errf("after %s%v", hist, e)
					}
				}
				if group == 2 {
					t := nodeTx(op)
					b, _ := t.Bytes()
					if len(reqs) != 1 || !bytes.Equal(reqs[0].Body, b) {
						return errf("after %s%d requests, posted\n  %x, the transaction is\n  %x", hist, len(reqs), reqs[0].Body, b)
					}
				}
			} else {
				if k := len(st[who].take()); k != 1 {
					return errf("after %sthe program ran %d times", hist, k)
				}
				if group == 2 {
					t := nodeTx(op)
					f, _ := st[who].txFile()
					if e := sameFile(f, t); e != nil {
						return errf("after %s%v", hist, e)
					}
				}
			}
			if u != nil && !nodeFails(op) {
				kept = append(kept, nodeResult{op, who, u})
			}
		}
		n.StateS(hist)
		for _, k := range kept {
			if e := sameRows(k.utxos, nodeRows(k.op, k.who)); e != nil {
				return errf("after %sthe list returned by %s changed: %v", hist, nodeOpNames[k.op], e)
			}
		}
		return nil
	}
}

func sameFile(f []byte, t tx.Tx) error {
	var env struct {
		CborHex *string `json:"cborHex"`
	}
	if e := json.Unmarshal(f, &env); e != nil || env.CborHex == nil {
		return errf("the transaction file is %q: %v", f, e)
	}
	h, err := t.Hex()
	if err != nil || *env.CborHex != h {
		return errf("the transaction file holds\n  %s, the transaction is\n  %s", *env.CborHex, h)
	}
	return nil
}

func genNodeHist(group int, bfToo bool, cli bool) func(*core.Run, func(NodeHist)) {
	ops := map[int][]int{
		0: {nU3, nU1, nU0, nUOther, nUBad, nUFail, nT1, nT2, nTFail, nP1, nSBig},
		1: {nP1, nP2, nPFail, nPLess, nU3, nT1, nSBig},
		2: {nSBig, nSSmall, nSFail, nU3, nT1, nP1},
	}[group]
	return func(r *core.Run, yield func(NodeHist)) {
		depth := core.Pick(r, 3, 4)
		if group == 0 {
			depth = 3
		}
		r.Param("node-histories.depth", depth)
		for _, b := range []bool{false, true} {
			if b && !bfToo || !b && !cli {
				continue
			}
			for d := 1; d <= depth; d++ {
				seqs(len(ops), d, func(s []int) {
					for i := range s {
						s[i] = ops[s[i]]
					}
					yield(NodeHist{b, 1, s})
				})
			}
			seqs(2*len(ops), 2, func(s []int) {
				for i := range s {
					s[i] = ops[s[i]%len(ops)] + 16*(s[i]/len(ops))
				}
				yield(NodeHist{b, 2, s})
			})
		}
	}
}

func nodeHistSub(group int, bfToo, cli bool) core.Sub {
	return core.S[NodeHist]{N: "node-histories", Gen: genNodeHist(group, bfToo, cli), Check: checkNodeHist(group), Batch: 4}
}

// ---- overlaps ----

// gated waits, once started, until it is let go; it answers by what it is asked.
const gated = `#!/bin/sh
d=${0%/*}
k=1
while ! mkdir "$d/t$k" 2>/dev/null; do k=$((k+1)); done
f=
a=
prev=
for x in "$@"; do
  [ "$prev" = --tx-file ] && f=$x
  [ "$prev" = --address ] && a=$x
  prev=$x
done
: >"$d/t$k/started"
i=0
while [ ! -e "$d/t$k/go" ] && [ ! -e "$d/goall" ] && [ $i -lt 4000 ]; do sleep 0.005; i=$((i+1)); done
case "$1 $2" in
"query utxo") cat "$d/utxo-$a";;
"query tip") cat "$d/tip";;
"query protocol-parameters") cat "$d/params";;
*) [ -n "$f" ] && [ -e "$f" ] && cat "$f";;
esac
exit 0
`

// Overlap: operations in flight together. Order lists events: first occurrence of i starts operation i, the
// second lets it finish.
type Overlap struct {
	Bf    bool
	Same  bool // on the same node
	Ops   []int
	Order []int
}

// orders yields all orders of start and finish events of k operations in which they start in turn.
func orders(k int, f func([]int)) {
	var cur []int
	seen := make([]int, k)
	var rec func(started int)
	rec = func(started int) {
		if len(cur) == 2*k {
			f(append([]int{}, cur...))
			return
		}
		if started < k {
			seen[started] = 1
			cur = append(cur, started)
			rec(started + 1)
			cur = cur[:len(cur)-1]
			seen[started] = 0
		}
		for i := 0; i < started; i++ {
			if seen[i] == 1 {
				seen[i] = 2
				cur = append(cur, i)
				rec(started)
				cur = cur[:len(cur)-1]
				seen[i] = 1
			}
		}
	}
	rec(0)
}

// gate is where an operation's outside partner waits.
type gate struct {
	started chan struct{}
	release chan struct{}
}

func checkOverlap(c Overlap, n *core.Counter) error {
	nodeTx(0)
	type flight struct {
		done chan struct{}
		bad  error
	}
	k := len(c.Ops)
	nodes := make([]node.Node, k)
	var start func(i int) // waits until operation i has reached the outside, or gives up
	var finish func(i int)
	var openAll func()
	fl := make([]flight, k)
	who := func(i int) int {
		if c.Same {
			return 0
		}
		return i
	}
	body := func(op int) string {
		t := nodeTx(op)
		b, _ := t.Bytes()
		return hex.EncodeToString(ref.Blake2b(32, b))
	}
	run := func(i int) {
		fl[i].done = make(chan struct{})
		go func() {
			defer close(fl[i].done)
			defer func() {
				if x := recover(); x != nil {
					fl[i].bad = errf("panic: %v", x)
				}
			}()
			op := c.Ops[i]
			if nodeProp(op) != 2 {
				_, _, fl[i].bad = runNodeOp(nodes[i], op, who(i), "")
				return
			}
			t := nodeTx(op)
			id, err := nodes[i].SubmitTx(t)
			switch {
			case err != nil:
				fl[i].bad = err
			case c.Bf && id != body(op):
				fl[i].bad = errf("the submission returns %s, the server answered its transaction with %s", id, body(op))
			case !c.Bf:
				fl[i].bad = sameFile([]byte(id), t)
			}
		}()
	}
	// a started operation that does not get outside within this time waits for another one
	const patience = 2 * time.Second
	serialized := false
	if c.Bf {
		bfStart()
		ch := make(chan gate, 64)
		all := make(chan struct{})
		var once sync.Once
		openAll = func() { once.Do(func() { close(all) }) }
		defer openAll()
		mk := func(w int) node.Node {
			p := fmt.Sprint("overlap-", nodeSeq.Add(1))
			bf.mu.Lock()
			bf.byID[p] = func(r bfReq) bfAns {
				g := gate{make(chan struct{}), make(chan struct{})}
				if pg := r.Query.Get("page"); pg == "" || pg == "1" {
					ch <- g
					select {
					case <-g.release:
					case <-all:
					}
				} else {
					return bfAns{Status: 200, Body: "[]"}
				}
				if r.Path == "/api/v0/tx/submit" {
					return bfAns{Status: 200, Body: `"` + hex.EncodeToString(ref.Blake2b(32, r.Body)) + `"`}
				}
				for _, op := range []int{nU3, nUOther, nT1, nP1} {
					if r.Path == bfPath(op) {
						return bfAnswer(op, w)
					}
				}
				return bfAns{Status: 404, Body: errBody(404)}
			}
			bf.mu.Unlock()
			return node.NewBlockfrostClient(p, netOf(byte(w&1)))
		}
		for i := range nodes {
			if i > 0 && c.Same {
				nodes[i] = nodes[0]
			} else {
				nodes[i] = mk(i)
			}
		}
		gates := make([]gate, k)
		start = func(i int) {
			run(i)
			select {
			case gates[i] = <-ch:
			case <-fl[i].done:
			case <-time.After(patience):
				serialized = true
				openAll()
			}
		}
		finish = func(i int) {
			if gates[i].release != nil {
				close(gates[i].release)
			}
		}
	} else {
		var dirs []string
		for i := range nodes {
			if i > 0 && c.Same {
				nodes[i] = nodes[0]
				continue
			}
			s := newStand("unused")
			defer s.done()
			p := filepath.Join(s.dir, "cardano-cli")
			must(os.Symlink(filepath.Join(cliRoot, "gated.sh"), p))
			for _, op := range []int{nU3, nUOther} {
				out, _ := cliAnswer(op, i)
				must(os.WriteFile(filepath.Join(s.dir, "utxo-"+mustAddr(nodeAddr(op)).String()), []byte(out), 0o644))
			}
			out, _ := cliAnswer(nT1, i)
			must(os.WriteFile(filepath.Join(s.dir, "tip"), []byte(out), 0o644))
			out, _ = cliAnswer(nP1, i)
			must(os.WriteFile(filepath.Join(s.dir, "params"), []byte(out), 0o644))
			dirs = append(dirs, s.dir)
			nodes[i] = node.NewCardanoCliNode(netOf(byte(i&1)), p)
		}
		dir := func(i int) string { return dirs[who(i)] }
		openAll = func() {
			for _, d := range dirs {
				os.WriteFile(filepath.Join(d, "goall"), nil, 0o644)
			}
		}
		defer openAll()
		ticket := make([]string, k)
		count := map[string]int{}
		start = func(i int) {
			run(i)
			t := filepath.Join(dir(i), fmt.Sprint("t", count[dir(i)]+1))
			for t0 := time.Now(); time.Since(t0) < patience; time.Sleep(time.Millisecond) {
				if _, err := os.Stat(filepath.Join(t, "started")); err == nil {
					count[dir(i)]++
					ticket[i] = t
					return
				}
				select {
				case <-fl[i].done:
					return
				default:
				}
			}
			serialized = true
			openAll()
		}
		finish = func(i int) {
			if ticket[i] != "" {
				os.WriteFile(filepath.Join(ticket[i], "go"), nil, 0o644)
			}
		}
	}
	begun := make([]bool, k)
	trace := ""
	for _, i := range c.Order {
		n.Op(1)
		if !begun[i] {
			begun[i] = true
			trace += fmt.Sprintf("%d.%s starts; ", i, nodeOpNames[c.Ops[i]])
			start(i)
			continue
		}
		trace += fmt.Sprintf("%d ends; ", i)
		finish(i)
		select {
		case <-fl[i].done:
		case <-time.After(30 * time.Second):
			return errf("%soperation %d does not end", trace, i)
		}
		if fl[i].bad != nil {
			return errf("%s%v", trace, fl[i].bad)
		}
	}
	n.StateS(trace)
	if serialized {
		n.Outcome("one after the other")
	} else {
		n.Outcome("overlapping")
	}
	return nil
}

func genOverlap(bfToo, cli bool, ops ...int) func(*core.Run, func(Overlap)) {
	return func(r *core.Run, yield func(Overlap)) {
		for _, b := range []bool{false, true} {
			if b && !bfToo || !b && !cli {
				continue
			}
			for d := 2; d <= core.Pick(r, 2, 3); d++ {
				seqs(len(ops), d, func(s []int) {
					for i := range s {
						s[i] = ops[s[i]]
					}
					orders(d, func(o []int) {
						yield(Overlap{b, true, s, o})
						yield(Overlap{b, false, s, o})
					})
				})
			}
		}
	}
}

func overlapSub(bfToo, cli bool, ops ...int) core.Sub {
	return core.S[Overlap]{N: "overlaps", Gen: genOverlap(bfToo, cli, ops...), Check: checkOverlap, Batch: 1}
}

var _ = network.MainNet
