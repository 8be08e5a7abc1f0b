package props

import (
	"bytes"

	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/fees"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/core"
)

// C19: a history with queries against the same history without them, on two builders.

var queryOps = []string{"MinFee", "Tx.Fee", "Tx.Hash", "Tx.Bytes", "Tx.Hex", "Body.Bytes", "Body.Hex"}

// Quiet is a history; operations from 100 up are queries.
type Quiet struct {
	Keys int
	Ops  []int
}

func genQuiet(r *core.Run, yield func(Quiet)) {
	muts := []int{oIn1, oIn3, oOut1, oSign, oTTL, oMetaMap, oMetaNil, oChange, oBuild}
	var ops []int
	ops = append(ops, muts...)
	for q := range queryOps {
		ops = append(ops, 100+q)
	}
	depth := core.Pick(r, 4, 5)
	r.Param("queries.depth", depth)
	r.Param("queries.operations", len(ops))
	for _, k := range []int{0, 2} {
		for d := 1; d <= depth; d++ {
			seqs(len(ops), d, func(s []int) {
				h := make([]int, len(s))
				queries := 0
				for i := range s {
					h[i] = ops[s[i]]
					if h[i] >= 100 {
						queries++
					}
				}
				if queries > 0 {
					yield(Quiet{k, h})
				}
			})
		}
	}
}

// ask returns a query's answer as text.
func ask(b *tx.TxBuilder, q int) string {
	t := b.Tx()
	switch q {
	case 0:
		return utoa(uint64(b.MinFee()))
	case 1:
		f, err := t.Fee(fees.NewLinearFee(45, 155382))
		if err != nil {
			return err.Error()
		}
		return utoa(uint64(f))
	case 2:
		h, err := t.Hash()
		if err != nil {
			return err.Error()
		}
		return string(h[:])
	case 3:
		x, err := t.Bytes()
		if err != nil {
			return err.Error()
		}
		return string(x)
	case 4:
		x, err := t.Hex()
		if err != nil {
			return err.Error()
		}
		return x
	case 5:
		x, err := t.Body.Bytes()
		if err != nil {
			return err.Error()
		}
		return string(x)
	}
	x, err := t.Body.Hex()
	if err != nil {
		return err.Error()
	}
	return x
}

// shape is everything in the transaction that is visible without calling a method.
func shape(b *tx.TxBuilder) string {
	t := b.Tx()
	s := utoa(t.Body.Fee) + "," + utoa(uint64(t.Body.TTL)) + ","
	for _, i := range t.Body.Inputs {
		s += "i" + string(i.TxHash) + utoa(uint64(i.Index)) + "/" + utoa(uint64(i.Amount))
	}
	for _, o := range t.Body.Outputs {
		s += "o" + string(o.Address.Bytes()) + "/" + utoa(uint64(o.Amount))
	}
	if t.Witness == nil {
		s += "no witness set"
	} else {
		for _, w := range t.Witness.Keys {
			s += "w" + string(w.VKey) + "/" + string(w.Signature)
		}
	}
	if !t.Valid {
		s += "invalid"
	}
	return s
}

func checkQuiet(c Quiet, n *core.Counter) error {
	x, y := newBench(c.Keys, aNothing, n), newBench(c.Keys, aNothing, n)
	hist := ""
	for i, op := range c.Ops {
		if op < 100 {
			hist += bOps[op] + "; "
			x.do(op)
			y.do(op)
			continue
		}
		q := op - 100
		hist += queryOps[q] + "; "
		before := shape(x.b)
		n.Op(1)
		a := ask(x.b, q)
		if now := shape(x.b); now != before {
			return errf("after %sthe transaction is %q, it was %q", hist, now, before)
		}
		if i == len(c.Ops)-1 && q < 5 {
			if b := ask(y.b, q); a != b {
				return errf("%s the answer is %x, without the earlier queries it is %x", hist, a, b)
			}
		}
	}
	if a, b := ask(x.b, 0), ask(y.b, 0); a != b {
		return errf("after %sthe minimum fee is %s, without the queries it is %s", hist, a, b)
	}
	if a, b := ask(x.b, 3), ask(y.b, 3); a != b {
		return errf("after %sthe transaction is\n  %x, without the queries it is\n  %x", hist, a, b)
	}
	ta, ea := x.b.Build()
	tb, eb := y.b.Build()
	if (ea == nil) != (eb == nil) {
		return errf("after %sbuilding gives %v, without the queries %v", hist, ea, eb)
	}
	if ea == nil {
		ba, _ := ta.Bytes()
		bb, _ := tb.Bytes()
		if !bytes.Equal(ba, bb) {
			return errf("after %sthe built transaction is\n  %x, without the queries it is\n  %x", hist, ba, bb)
		}
		n.State(ba)
	}
	return nil
}

// C20: two builders made from one key list.

var pairOps = []string{"AddInputs(2)", "AddOutputs(2)", "Sign", "AddChangeIfNeeded", "Build", "metadata", "SetTTL", "change the last built transaction", "AddInputs(own)", "AddOutputs(own)"}

// TwoBuilders is a history on two builders: operation k*2+b acts on builder b.
type TwoBuilders struct {
	Keys  int
	Spare int // spare capacity of the callers' lists
	Ops   []int
}

func genTwo(r *core.Run, yield func(TwoBuilders)) {
	depth := core.Pick(r, 4, 5)
	r.Param("two-builders.depth", depth)
	r.Param("two-builders.operations", 2*len(pairOps))
	for _, k := range []int{0, 1, 2} {
		for _, sp := range []int{0, 3} {
			if k == 1 && sp == 0 {
				continue
			}
			for d := 0; d <= depth; d++ {
				if d == depth && !(k == 1 && sp == 3) {
					continue
				}
				seqs(2*len(pairOps), d, func(s []int) { yield(TwoBuilders{k, sp, s}) })
			}
		}
	}
}

func checkTwo(c TwoBuilders, n *core.Counter) error {
	list := make([]bip32.XPrv, c.Keys, c.Keys+c.Spare)
	for i := range list {
		list[i] = xprv(i)
	}
	// the lists handed to AddInputs and AddOutputs, shared by both builders
	insM := []mIn{{inHash(900), 1, 5_000_000}, {inHash(901), 2, 1 << 40}}
	outsM := []mOut{{histAddrs[0], 1_500_000}, {histAddrs[3], 70_000}}
	ins := make([]*tx.TxInput, 0, 2+c.Spare)
	outs := make([]*tx.TxOutput, 0, 2+c.Spare)
	for i := range insM {
		ins = append(ins, mkIn(insM[i]))
		outs = append(outs, mkOut(outsM[i]))
	}
	var x [2]*bench
	for i := range x {
		x[i] = newBench(0, aSaved, n)
		x[i].b = tx.NewTxBuilder(defaultProto, list)
		for k := 0; k < c.Keys; k++ {
			x[i].m.keys = append(x[i].m.keys, k)
		}
	}
	hist := ""
	signed := 0
	for step, o := range c.Ops {
		b, op := x[o%2], o/2
		hist += string(rune('A'+o%2)) + "." + pairOps[op] + "; "
		n.Op(1)
		switch op {
		case 0:
			b.b.AddInputs(ins...)
			b.m.Ins = append(b.m.Ins, insM...)
		case 1:
			b.b.AddOutputs(outs...)
			b.m.Outs = append(b.m.Outs, outsM...)
		case 2:
			k := 10 + signed
			signed++
			b.b.Sign(xprv(k))
			b.m.keys = append(b.m.keys, k)
		case 3:
			b.change(histAddrs[1])
		case 4:
			if err := b.build(); err != nil {
				return errf("%s%v", hist, err)
			}
		case 5:
			b.b.Tx().Metadata = histMap.Val()
			b.m.Meta = histMap
		case 6:
			b.b.SetTTL(77 + uint32(o))
			b.m.TTL = 77 + uint32(o)
		case 7:
			if len(b.saved) == 0 {
				continue
			}
			t := b.saved[len(b.saved)-1].t
			b.saved = b.saved[:len(b.saved)-1]
			t.SetFee(987654321)
			t.AddInputs(mkIn(mIn{inHash(77), 3, 4}))
			t.AddOutputs(mkOut(mOut{histAddrs[2], 9}))
			t.Body.TTL = 5
			t.Metadata = "changed"
			t.Bytes()
		case 8: // an input no other operation of the history uses
			in := mIn{inHash(920 + step), uint16(step), 3_000_000}
			b.b.AddInputs(mkIn(in))
			b.m.Ins = append(b.m.Ins, in)
		case 9:
			out := mOut{histAddrs[1+o%2], 80_000 + uint64(step)}
			b.b.AddOutputs(mkOut(out))
			b.m.Outs = append(b.m.Outs, out)
		}
		b.touched()
		b.covered = false
	}
	for i := range x {
		x[i].hist = hist
		for k := 0; k < 2; k++ {
			if err := x[i].build(); err != nil {
				return errf("builder %c: %v", 'A'+i, err)
			}
		}
	}
	for i := range x {
		if err := x[i].checkSaved(); err != nil {
			return errf("builder %c: %v", 'A'+i, err)
		}
	}
	for i, k := range list[:cap(list)] {
		if i < c.Keys && !bytes.Equal(k, keyN(i).xprv) {
			return errf("after %sthe caller's key %d is %x", hist, i, []byte(k))
		}
		if i >= c.Keys && k != nil {
			return errf("after %sa key was written beyond the end of the caller's key list", hist)
		}
	}
	for i := range insM {
		if got := (mIn{ins[i].TxHash, ins[i].Index, uint64(ins[i].Amount)}); !core.Equal(got, insM[i]) {
			return errf("after %sthe caller's input %d is %v", hist, i, got)
		}
		if got := (mOut{outs[i].Address.Bytes(), uint64(outs[i].Amount)}); !core.Equal(got, outsM[i]) {
			return errf("after %sthe caller's output %d is %v", hist, i, got)
		}
	}
	for i := 2; i < cap(ins); i++ {
		if ins[:cap(ins)][i] != nil || outs[:cap(outs)][i] != nil {
			return errf("after %sa list entry was written beyond the end of the caller's input or output list", hist)
		}
	}
	return nil
}

func init() {
	core.Register(&core.Prop{ID: "C19", Level: "model_checking", Subs: []core.Sub{
		featureSub(aNothing),
		core.S[Quiet]{N: "queries", Gen: genQuiet, Check: checkQuiet, Batch: 64}},
		Exhaustive: "all histories of 9 builder operations and 7 queries to the depth bound, in lockstep with the same history without queries; every query also compared with the transaction's exported content before it"})
	core.Register(&core.Prop{ID: "C20", Level: "model_checking", Subs: []core.Sub{
		histSub("one-builder", aSaved, allOps, []int{1}, 4, 5),
		core.S[TwoBuilders]{N: "two-builders", Gen: genTwo, Check: checkTwo, Batch: 64}},
		Exhaustive:  "all histories of 10 operations on each of two builders sharing the caller's key, input and output lists (with spare capacity, checked for canaries), and all single-builder histories, to the depth bounds; each built transaction re-serialized and re-hashed at the end and each builder compared with its own model",
		Assumptions: []string{"the caller does not modify the elements it handed over (inputs, outputs, metadata values, key bytes)"}})
}
