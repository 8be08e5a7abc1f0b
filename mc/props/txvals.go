package props

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/core"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/ref"
)

// TxCase is a transaction to serialize. How: 0 hand-made, 1 through a builder, 2 builder and Build.
type TxCase struct {
	How     int
	Ins     []mIn
	Outs    []mOut
	Fee     uint64
	TTL     uint32
	Meta    int // index into metas(), -1 none
	Keys    int // witnesses: signing keys (How 2) or made up ones (How 0)
	Group   int // how many items per AddInputs/AddOutputs call (0: all at once)
	Invalid bool
	Same    int // equal elements are 0 distinct objects, 1 the same object, 2 distinct outputs to the same address object
}

var allMetas = metas()

func (c TxCase) model() mTx {
	m := mTx{Ins: c.Ins, Outs: c.Outs, Fee: c.Fee, TTL: c.TTL, Invalid: c.Invalid}
	if c.Meta >= 0 {
		m.Meta = allMetas[c.Meta]
	}
	return m
}

func (c TxCase) chunks(n int, f func(a, b int)) {
	g := c.Group
	if g == 0 {
		f(0, n)
		return
	}
	for a := 0; a < n; a += g {
		b := a + g
		if b > n {
			b = n
		}
		f(a, b)
	}
}

// make makes the transaction and its model.
func (c TxCase) make() (*tx.Tx, mTx, error) {
	m := c.model()
	var ins []*tx.TxInput
	for k, i := range c.Ins {
		o := mkIn(i)
		for j := 0; j < k && c.Same == 1; j++ {
			if core.Equal(c.Ins[j], i) {
				o = ins[j]
			}
		}
		ins = append(ins, o)
	}
	var outs []*tx.TxOutput
	for k, o := range c.Outs {
		x := mkOut(o)
		for j := 0; j < k && c.Same > 0; j++ {
			if bytes.Equal(c.Outs[j].Addr, o.Addr) {
				x.Address = outs[j].Address
				if c.Same == 1 && c.Outs[j].Amt == o.Amt {
					x = outs[j]
				}
			}
		}
		outs = append(outs, x)
	}
	if c.How == 0 {
		t := tx.NewTx()
		c.chunks(len(ins), func(a, b int) { t.AddInputs(ins[a:b]...) })
		c.chunks(len(outs), func(a, b int) { t.AddOutputs(outs[a:b]...) })
		t.SetFee(uint(c.Fee))
		t.Body.TTL = c.TTL
		if c.Meta >= 0 {
			t.Metadata = m.Meta.Val()
		}
		if c.Invalid {
			t.Valid = false
		}
		var ws []*tx.VKeyWitness
		for i := 0; i < c.Keys; i++ {
			w := [2]HB{fill(32, byte(i)), ramp(64, byte(i))}
			m.Wits = append(m.Wits, w)
			ws = append(ws, tx.NewVKeyWitness(clone(w[0]), clone(w[1])))
		}
		t.Witness = tx.NewTXWitness(ws...)
		return t, m, nil
	}
	b := tx.NewTxBuilder(defaultProto, nil)
	c.chunks(len(ins), func(x, y int) { b.AddInputs(ins[x:y]...) })
	c.chunks(len(outs), func(x, y int) { b.AddOutputs(outs[x:y]...) })
	b.Tx().SetFee(uint(c.Fee))
	b.SetTTL(c.TTL)
	if c.Meta >= 0 {
		b.Tx().Metadata = m.Meta.Val()
	}
	if c.Invalid {
		b.Tx().Valid = false
	}
	if c.How == 1 {
		return b.Tx(), m, nil
	}
	for i := 0; i < c.Keys; i++ {
		b.Sign(xprv(i))
	}
	t, err := b.Build()
	if err != nil {
		return nil, m, errf("build fails: %v", err)
	}
	for _, w := range t.Witness.Keys {
		m.Wits = append(m.Wits, [2]HB{clone(w.VKey), clone(w.Signature)})
	}
	return &t, m, nil
}

func checkTxCase(c TxCase, n *core.Counter) error {
	t, m, err := c.make()
	if err != nil {
		return err
	}
	_, err = checkTx(t, m, n)
	return err
}

// genFeatures is the product of a few values of every feature of a transaction.
func genFeatures(r *core.Run, yield func(TxCase)) {
	counts := [][2]int{{0, 0}, {0, 1}, {1, 0}, {1, 1}, {2, 1}, {1, 2}, {2, 2}, {4, 1}, {1, 5}, {4, 3}}
	fees := []uint64{0, 170_000, 1 << 33}
	ttls := []uint32{0, 24, 1<<32 - 1}
	metas := []int{-1, 0, 3}
	if r.Thorough() {
		counts = append(counts, [][2]int{{3, 2}, {5, 5}, {8, 1}, {1, 8}, {24, 24}}...)
		metas = append(metas, 1, 5, 7)
	}
	amts := [][]uint64{{1, 23, 1000, 65536, 1 << 32}, {1 << 33, 70_000, 300, 24, 0}, {1_000_000, 1_000_000, 1_000_000, 1_000_000, 1_000_000}, {1 << 63, 1, 1 << 62, 1, 1 << 61}}
	addrs := [][]int{{0, 1, 2, 3, 4}, {len(histAddrs) - 1, 0, len(histAddrs) - 2, 5, 9}, {3, 3, 3, 3, 3}}
	r.Param("features.counts", len(counts))
	for how := 0; how < 3; how++ {
		for g := 0; g < 2; g++ {
			for _, ct := range counts {
				for ki, k := range []int{0, 1, 2, 4} {
					if how == 1 && k > 0 {
						continue
					}
					for fi, f := range fees {
						for ti, ttl := range ttls {
							for mi, m := range metas {
								for inv := 0; inv < 2; inv++ {
									for ai, am := range amts {
										for di, ad := range addrs {
											if di > 0 && (ai+ki+fi+ti+mi+inv)%3 != 0 && !r.Thorough() {
												continue
											}
											c := TxCase{How: how, Group: g, Keys: k, Fee: f, TTL: ttl, Meta: m, Invalid: inv == 1}
											for i := 0; i < ct[0]; i++ {
												c.Ins = append(c.Ins, mIn{inHash(i ^ di), uint16(am[i%5]), am[(i+1)%5]})
											}
											for i := 0; i < ct[1]; i++ {
												c.Outs = append(c.Outs, mOut{histAddrs[ad[i%5]], am[i%5]})
											}
											yield(c)
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

// checkFeature looks at one aspect of a transaction.
func checkFeature(want aspect) func(TxCase, *core.Counter) error {
	return func(c TxCase, n *core.Counter) error {
		t, m, err := c.make()
		if err != nil {
			return err
		}
		if want == aBody {
			_, err := checkTx(t, m, n)
			return err
		}
		var h [32]byte
		var f uint
		switch want {
		case aID, aAux:
			h, err = t.Hash()
		case aFee, aNothing:
			f, err = t.Fee(feeDefault)
		}
		if err != nil {
			return err
		}
		b, err := t.Bytes()
		if err != nil {
			return err
		}
		n.Op(2)
		n.State(b)
		switch want {
		case aFee:
			if w := 155381 + 44*uint(len(b)); f != w {
				return errf("the fee is %d, want %d for %d bytes", f, w, len(b))
			}
			return nil
		case aNothing:
			h, err = t.Hash()
			if err != nil {
				return err
			}
			for k := 0; k < 2; k++ {
				b2, err := t.Bytes()
				if err != nil || !bytes.Equal(b2, b) {
					return errf("the serialization changes from\n  %x to\n  %x (%v) through queries", b, b2, err)
				}
				if h2, err := t.Hash(); err != nil || h2 != h {
					return errf("the hash changes from %x to %x (%v) through queries", h, h2, err)
				}
				if f2, err := t.Fee(feeDefault); err != nil || f2 != f {
					return errf("the fee changes from %d to %d (%v) through queries", f, f2, err)
				}
			}
			if uint64(t.Body.Fee) != c.Fee || t.Body.TTL != c.TTL || len(t.Body.Inputs) != len(c.Ins) || len(t.Body.Outputs) != len(c.Outs) || t.Valid == c.Invalid || len(t.Witness.Keys) != len(m.Wits) {
				return errf("the transaction's content changes through queries")
			}
			return nil
		}
		s, err := split(b)
		if err != nil {
			return err
		}
		switch want {
		case aID:
			h2, err := t.Hash()
			if w := ref.Blake2b(32, s.body.Raw); !bytes.Equal(w, h[:]) || err != nil || h2 != h {
				return errf("the hash is %x, then %x (%v); the embedded body hashes to %x", h, h2, err, w)
			}
		case aAux:
			return s.checkMeta(m.Meta)
		case aWit:
			var keys []int
			for k := 0; k < c.Keys; k++ {
				keys = append(keys, k)
			}
			return s.checkWits(keys, n)
		}
		return nil
	}
}

func featureSub(want aspect) core.Sub {
	gen := genFeatures
	if want == aWit {
		gen = func(r *core.Run, yield func(TxCase)) {
			genFeatures(r, func(c TxCase) {
				if c.How == 2 {
					yield(c)
				}
			})
		}
	}
	return core.S[TxCase]{N: "features", Gen: gen, Check: checkFeature(want), Batch: 64}
}

// sizeSub: bodies of up to some hundred KiB, with sizes around those that buffers and limits tend to have.
func sizeSub(want aspect) core.Sub {
	return core.S[TxCase]{N: "sizes", Gen: func(r *core.Run, yield func(TxCase)) {
		ins := []int{0, 12, 25, 26, 27, 28, 55, 56, 60, 108, 115, 220, 230, 435, 445, 455, 460, 900, 1000, 1750, 1800, 1900, 4000, 7000}
		outs := []int{1, 3, 60, 250, 1000}
		r.Param("sizes.inputs", ins)
		r.Param("sizes.outputs", outs)
		for how := 0; how < 3; how++ {
			if want == aWit && how < 2 {
				continue
			}
			for _, i := range ins {
				for _, o := range outs {
					c := base(how)
					c.Ins, c.Outs = nil, nil
					for k := 0; k < i; k++ {
						c.Ins = append(c.Ins, someIn(k))
					}
					for k := 0; k < o; k++ {
						c.Outs = append(c.Outs, someOut(k))
					}
					if how != 1 {
						c.Keys = 1 + i%2
					}
					c.Meta = i%3 - 1
					yield(c)
				}
			}
		}
	}, Check: checkFeature(want), Batch: 4}
}

func someIn(n int) mIn   { return mIn{inHash(n), uint16(n), uint64(n+1) * 1_000_003} }
func someOut(n int) mOut { return mOut{histAddrs[n%len(histAddrs)], uint64(n+1) * 999_983} }

func base(how int) TxCase {
	return TxCase{How: how, Ins: []mIn{someIn(0)}, Outs: []mOut{someOut(0)}, Fee: 170_000, TTL: 1000, Meta: -1}
}

// genTxValues sweeps every field over its boundary values, one and two fields at a time.
func genTxValues(r *core.Run, yield func(TxCase)) {
	ttls := []uint32{0, 1, 23, 24, 255, 256, 65535, 65536, 1 << 31, 1<<32 - 1}
	ixs := []uint16{0, 1, 23, 24, 255, 256, 65535}
	for how := 0; how < 3; how++ {
		for _, f := range cborBoundary {
			for _, a := range cborBoundary {
				c := base(how)
				c.Fee, c.Outs[0].Amt = f, a
				yield(c)
			}
			for _, t := range ttls {
				c := base(how)
				c.Fee, c.TTL = f, t
				yield(c)
			}
		}
		for ix := 0; ix < 1<<16; ix++ {
			if how > 0 && ix > 300 && ix < 65300 {
				continue
			}
			c := base(how)
			c.Ins[0].Ix = uint16(ix)
			yield(c)
		}
		for _, x := range ixs {
			for _, y := range ixs {
				c := base(how)
				c.Ins = []mIn{{inHash(1), x, 1}, {inHash(1), y, 2}}
				yield(c)
			}
		}
		// every position and value of a hash byte; the all-equal patterns
		for p := 0; p < 32; p++ {
			for v := 0; v < 256; v++ {
				if how > 0 && v%16 != 0 {
					continue
				}
				c := base(how)
				h := fill(32, 0x5c)
				h[p] = byte(v)
				c.Ins[0].Hash = h
				yield(c)
			}
		}
		for _, a := range cborBoundary {
			for _, b := range cborBoundary {
				c := base(how)
				c.Outs = []mOut{{histAddrs[1], a}, {histAddrs[1], b}}
				yield(c)
				c = base(how)
				c.Ins = []mIn{{inHash(1), 1, a}, {inHash(2), 0, b}}
				yield(c)
			}
		}
		// every pair of address kinds, same and different
		for i := range histAddrs {
			for j := range histAddrs {
				c := base(how)
				c.Outs = []mOut{{histAddrs[i], 5}, {histAddrs[j], 5}}
				yield(c)
			}
		}
		// pointer widths
		for _, p := range natBoundary(1) {
			c := base(how)
			c.Outs[0].Addr = ref.Addr{Kind: ref.Pointer, Net: 1, Pay: ref.Cred{Hash: ramp(28, 1)}, Ptr: [3]uint64{p, p, p}}.Bytes()
			yield(c)
		}
	}
}

// genTxPairs sets any two (three) fields to their boundary values at once.
func genTxPairs(r *core.Run, yield func(TxCase)) {
	var addrs []uint64
	for i := range histAddrs {
		addrs = append(addrs, uint64(i))
	}
	var metas []uint64
	for i := 0; i <= len(allMetas); i += 3 {
		metas = append(metas, uint64(i))
	}
	ttls := []uint64{0, 1, 23, 24, 255, 256, 65535, 65536, 1 << 31, 1<<32 - 1}
	ixs := []uint64{0, 1, 23, 24, 255, 256, 300, 65535}
	fields := []struct {
		vals []uint64
		set  func(*TxCase, uint64)
	}{
		{cborBoundary, func(c *TxCase, v uint64) { c.Fee = v }},
		{ttls, func(c *TxCase, v uint64) { c.TTL = uint32(v) }},
		{ixs, func(c *TxCase, v uint64) { c.Ins[0].Ix = uint16(v) }},
		{cborBoundary, func(c *TxCase, v uint64) { c.Ins[0].Amt = v }},
		{cborBoundary, func(c *TxCase, v uint64) { c.Outs[0].Amt = v }},
		{addrs, func(c *TxCase, v uint64) { c.Outs[0].Addr = histAddrs[v] }},
		{metas, func(c *TxCase, v uint64) { c.Meta = int(v) - 1 }},
		{[]uint64{0, 1, 2, 255}, func(c *TxCase, v uint64) { c.Ins[0].Hash = fill(32, byte(v)) }},
		{[]uint64{0, 2, 3, 24}, func(c *TxCase, v uint64) {
			for i := 1; i < int(v); i++ {
				c.Ins = append(c.Ins, mIn{c.Ins[0].Hash, uint16(i) * 300, c.Ins[0].Amt})
			}
			if v == 0 {
				c.Ins = nil
			}
		}},
		{[]uint64{0, 2, 3, 24}, func(c *TxCase, v uint64) {
			o := c.Outs[0]
			c.Outs = nil
			for i := 0; i < int(v); i++ {
				c.Outs = append(c.Outs, o)
			}
		}},
		{[]uint64{0, 1, 2}, func(c *TxCase, v uint64) { c.Keys = int(v) }},
		{[]uint64{1, 2}, func(c *TxCase, v uint64) { c.Group = int(v) }},
	}
	r.Param("pairs.fields", len(fields))
	for how := 0; how < 3; how++ {
		for i, f := range fields {
			for j, g := range fields[i+1:] {
				for _, v := range f.vals {
					for _, w := range g.vals {
						c := base(how)
						f.set(&c, v)
						g.set(&c, w)
						if how == 1 && c.Keys > 0 {
							continue
						}
						yield(c)
						for _, h := range fields[i+1+j+1:] {
							for _, x := range h.vals {
								c := base(how)
								f.set(&c, v)
								g.set(&c, w)
								h.set(&c, x)
								if how == 1 && c.Keys > 0 {
									continue
								}
								yield(c)
							}
						}
					}
				}
			}
		}
	}
}

// genTxCounts sweeps numbers of inputs, outputs and witnesses, in every grouping of the calls.
func genTxCounts(r *core.Run, yield func(TxCase)) {
	max := core.Pick(r, 30, 60)
	r.Param("counts.product_max", max)
	many := func(i, o int) TxCase {
		c := base(0)
		c.Ins, c.Outs = nil, nil
		for k := 0; k < i; k++ {
			c.Ins = append(c.Ins, someIn(k))
		}
		for k := 0; k < o; k++ {
			c.Outs = append(c.Outs, someOut(k))
		}
		return c
	}
	for i := 0; i <= max; i++ {
		for o := 0; o <= max; o++ {
			for _, g := range []int{0, 1, 2, 7} {
				for how := 0; how < 3; how++ {
					c := many(i, o)
					c.How, c.Group = how, g
					if how == 2 {
						c.Keys = 1
						if i%6 != 0 {
							continue
						}
					}
					yield(c)
				}
			}
		}
	}
	for i := 0; i <= core.Pick(r, 300, 1000); i++ {
		for how := 0; how < 2; how++ {
			c := many(i, 1)
			c.How = how
			yield(c)
			c = many(1, i)
			c.How, c.Group = how, 3
			yield(c)
		}
	}
	// more than 64 KiB, and more than 65535 elements
	for _, i := range []int{1100, 2000, 65535, 65536, 65537} {
		if i < 3000 || r.Thorough() {
			yield(many(i, 1))
			yield(many(1, i))
		}
	}
	for k := 0; k <= 270; k++ {
		c := base(0)
		c.Keys = k
		yield(c)
		if k <= 30 || k >= 250 && k <= 258 {
			c.How = 2
			yield(c)
		}
	}
	// repeated elements: the same input or output added twice is kept twice
	for how := 0; how < 3; how++ {
		for same := 0; same < 3; same++ {
			for g := 0; g < 3; g++ {
				// every pattern of up to 5 elements over two different ones, and over one
				for k := 2; k < 6; k++ {
					for pat := 0; pat < 1<<k; pat++ {
						c := base(how)
						c.Same, c.Group, c.Ins, c.Outs = same, g, nil, nil
						for i := 0; i < k; i++ {
							c.Ins = append(c.Ins, someIn(pat>>i&1))
							c.Outs = append(c.Outs, someOut(pat>>i&1))
							if pat&1 == 1 { // same address, other amounts
								c.Outs[i] = mOut{histAddrs[0], uint64(100 + pat>>i&1)}
							}
						}
						yield(c)
					}
				}
			}
		}
	}
}

// genTxOrders enumerates all orders of a few elements whose sorted order differs.
func genTxOrders(r *core.Run, yield func(TxCase)) {
	n := core.Pick(r, 5, 6)
	r.Param("orders.elements", n)
	var ins []mIn
	var outs []mOut
	for k := 0; k < n; k++ {
		ins = append(ins, mIn{fill(32, byte(200-k*30)), uint16((k * 7) % 5), uint64(k)})
		outs = append(outs, mOut{histAddrs[(k*7)%len(histAddrs)], uint64(1_000_000 - k*1000)})
	}
	perms(n, func(p []int) {
		for how := 0; how < 3; how++ {
			c := base(how)
			c.Ins, c.Outs = nil, nil
			for _, i := range p {
				c.Ins = append(c.Ins, ins[i])
				c.Outs = append(c.Outs, outs[i])
			}
			yield(c)
		}
	})
}

func perms(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(int)
	rec = func(i int) {
		if i == n {
			f(p)
			return
		}
		for j := i; j < n; j++ {
			p[i], p[j] = p[j], p[i]
			rec(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	rec(0)
}

func genTxMeta(r *core.Run, yield func(TxCase)) {
	for how := 0; how < 3; how++ {
		for m := -1; m < len(allMetas); m++ {
			for _, ttl := range []uint32{0, 7} {
				for _, inv := range []bool{false, true} {
					for k := 0; k < 3; k++ {
						if how == 1 && k > 0 {
							continue
						}
						c := base(how)
						c.Meta, c.TTL, c.Invalid, c.Keys = m, ttl, inv, k
						yield(c)
					}
				}
			}
		}
	}
}

// ---- C13 ----

// IDCase is a transaction and one elementary change to it.
type IDCase struct {
	Base int
	Mut  int
}

type mutation struct {
	name string
	f    func(t *tx.Tx) (undo func(), ok bool)
}

func idBase(k int) (TxCase, *tx.Tx) {
	c := base(0)
	switch k {
	case 1:
		c.Ins = append(c.Ins, someIn(1), someIn(2))
		c.Outs = append(c.Outs, someOut(1), someOut(6))
		c.TTL = 0
	case 2:
		c.Meta = 0
		c.Ins = append(c.Ins, someIn(1))
	case 3:
		for i, m := range allMetas {
			if m.Name == "nested" {
				c.Meta = i
			}
		}
		c.Outs = append(c.Outs, someOut(12), someOut(14))
		c.Fee = 0
	}
	t := tx.NewTx()
	for _, i := range c.Ins {
		t.AddInputs(mkIn(i))
	}
	for _, o := range c.Outs {
		t.AddOutputs(mkOut(o))
	}
	t.SetFee(uint(c.Fee))
	t.Body.TTL = c.TTL
	if c.Meta >= 0 {
		t.Metadata = allMetas[c.Meta].Val()
	}
	t.Witness = tx.NewTXWitness(tx.NewVKeyWitness(fill(32, 1), fill(64, 2)), tx.NewVKeyWitness(fill(32, 3), fill(64, 4)))
	return c, t
}

// mutations lists every elementary change: each bit of each hash, index, amount, the fee and the time to
// live, each address, each removal, duplication and swap, metadata changes. keep marks those that must not
// change the id.
func mutations() (out []mutation) {
	add := func(name string, f func(t *tx.Tx) (func(), bool)) { out = append(out, mutation{name, f}) }
	for i := 0; i < 3; i++ {
		for bit := 0; bit < 256; bit++ {
			add("flip a bit of an input's transaction id", func(t *tx.Tx) (func(), bool) {
				if i >= len(t.Body.Inputs) {
					return nil, false
				}
				h := t.Body.Inputs[i].TxHash
				h[bit/8] ^= 1 << (bit % 8)
				return func() { h[bit/8] ^= 1 << (bit % 8) }, true
			})
		}
		for bit := 0; bit < 16; bit++ {
			add("flip a bit of an input's index", func(t *tx.Tx) (func(), bool) {
				if i >= len(t.Body.Inputs) {
					return nil, false
				}
				t.Body.Inputs[i].Index ^= 1 << bit
				return func() { t.Body.Inputs[i].Index ^= 1 << bit }, true
			})
		}
		for bit := 0; bit < 64; bit++ {
			add("flip a bit of an output's amount", func(t *tx.Tx) (func(), bool) {
				if i >= len(t.Body.Outputs) {
					return nil, false
				}
				t.Body.Outputs[i].Amount ^= 1 << bit
				return func() { t.Body.Outputs[i].Amount ^= 1 << bit }, true
			})
		}
		for a := range histAddrs {
			add("replace an output's address", func(t *tx.Tx) (func(), bool) {
				if i >= len(t.Body.Outputs) || bytes.Equal(t.Body.Outputs[i].Address.Bytes(), histAddrs[a]) {
					return nil, false
				}
				old := t.Body.Outputs[i].Address
				t.Body.Outputs[i].Address = mustAddr(histAddrs[a])
				return func() { t.Body.Outputs[i].Address = old }, true
			})
		}
		add("drop an input", func(t *tx.Tx) (func(), bool) {
			old := t.Body.Inputs
			if i >= len(old) {
				return nil, false
			}
			t.Body.Inputs = append(append([]*tx.TxInput{}, old[:i]...), old[i+1:]...)
			return func() { t.Body.Inputs = old }, true
		})
		add("drop an output", func(t *tx.Tx) (func(), bool) {
			old := t.Body.Outputs
			if i >= len(old) {
				return nil, false
			}
			t.Body.Outputs = append(append([]*tx.TxOutput{}, old[:i]...), old[i+1:]...)
			return func() { t.Body.Outputs = old }, true
		})
		for j := 0; j < i; j++ {
			add("swap two inputs", func(t *tx.Tx) (func(), bool) {
				l := t.Body.Inputs
				if i >= len(l) {
					return nil, false
				}
				l[i], l[j] = l[j], l[i]
				return func() { l[i], l[j] = l[j], l[i] }, true
			})
			add("swap two outputs", func(t *tx.Tx) (func(), bool) {
				l := t.Body.Outputs
				if i >= len(l) {
					return nil, false
				}
				l[i], l[j] = l[j], l[i]
				return func() { l[i], l[j] = l[j], l[i] }, true
			})
		}
	}
	add("add an input", func(t *tx.Tx) (func(), bool) {
		old := t.Body.Inputs
		t.AddInputs(mkIn(someIn(9)))
		return func() { t.Body.Inputs = old }, true
	})
	add("add an output", func(t *tx.Tx) (func(), bool) {
		old := t.Body.Outputs
		t.AddOutputs(mkOut(someOut(9)))
		return func() { t.Body.Outputs = old }, true
	})
	for bit := 0; bit < 64; bit++ {
		add("flip a bit of the fee", func(t *tx.Tx) (func(), bool) {
			old := uint(t.Body.Fee)
			t.SetFee(old ^ 1<<bit)
			return func() { t.SetFee(old) }, true
		})
	}
	for bit := 0; bit < 32; bit++ {
		add("flip a bit of the time to live", func(t *tx.Tx) (func(), bool) {
			t.Body.TTL ^= 1 << bit
			return func() { t.Body.TTL ^= 1 << bit }, true
		})
	}
	add("drop the time to live", func(t *tx.Tx) (func(), bool) {
		old := t.Body.TTL
		if old == 0 {
			return nil, false
		}
		t.Body.TTL = 0
		return func() { t.Body.TTL = old }, true
	})
	for k := range allMetas {
		add("replace the metadata", func(t *tx.Tx) (func(), bool) {
			old := t.Metadata
			t.Metadata = allMetas[k].Val()
			return func() { t.Metadata = old }, true
		})
	}
	add("remove the metadata", func(t *tx.Tx) (func(), bool) {
		old := t.Metadata
		if old == nil {
			return nil, false
		}
		t.Metadata = nil
		return func() { t.Metadata = old }, true
	})
	add("change the metadata in place", func(t *tx.Tx) (func(), bool) {
		m, ok := t.Metadata.(map[uint64]interface{})
		if !ok {
			return nil, false
		}
		m[99999] = "x"
		return func() { delete(m, 99999) }, true
	})
	return
}

// keepers are changes that must leave the id alone.
func keepers() (out []mutation) {
	add := func(name string, f func(t *tx.Tx) (func(), bool)) { out = append(out, mutation{name, f}) }
	add("remove all witnesses", func(t *tx.Tx) (func(), bool) {
		old := t.Witness
		t.Witness = tx.NewTXWitness()
		return func() { t.Witness = old }, true
	})
	for k := 0; k < 6; k++ {
		add("replace the witnesses", func(t *tx.Tx) (func(), bool) {
			old := t.Witness
			var ws []*tx.VKeyWitness
			for i := 0; i < k; i++ {
				ws = append(ws, tx.NewVKeyWitness(fill(32, byte(9+i)), fill(64, 7)))
			}
			t.Witness = tx.NewTXWitness(ws...)
			return func() { t.Witness = old }, true
		})
	}
	for bit := 0; bit < 512; bit++ {
		add("flip a bit of a signature", func(t *tx.Tx) (func(), bool) {
			s := t.Witness.Keys[0].Signature
			s[bit/8] ^= 1 << (bit % 8)
			return func() { s[bit/8] ^= 1 << (bit % 8) }, true
		})
	}
	for bit := 0; bit < 256; bit++ {
		add("flip a bit of a witness's key", func(t *tx.Tx) (func(), bool) {
			s := t.Witness.Keys[1].VKey
			s[bit/8] ^= 1 << (bit % 8)
			return func() { s[bit/8] ^= 1 << (bit % 8) }, true
		})
	}
	add("swap witnesses", func(t *tx.Tx) (func(), bool) {
		l := t.Witness.Keys
		l[0], l[1] = l[1], l[0]
		return func() { l[0], l[1] = l[1], l[0] }, true
	})
	add("flip the validity flag", func(t *tx.Tx) (func(), bool) {
		t.Valid = !t.Valid
		return func() { t.Valid = !t.Valid }, true
	})
	add("change an input's amount", func(t *tx.Tx) (func(), bool) {
		t.Body.Inputs[0].Amount++
		return func() { t.Body.Inputs[0].Amount-- }, true
	})
	return
}

var (
	allMuts    = mutations()
	allKeepers = keepers()
)

const nIDBases = 4

// idOf takes the id and checks it against the embedded body.
func idOf(t *tx.Tx, order int) (id [32]byte, err error) {
	var b []byte
	var e1, e2 error
	if order == 0 {
		id, e1 = t.Hash()
		b, e2 = t.Bytes()
	} else {
		b, e2 = t.Bytes()
		id, e1 = t.Hash()
	}
	if e1 != nil || e2 != nil {
		return id, errf("hashing or serializing fails: %v %v", e1, e2)
	}
	it, err := ref.Parse(b)
	if err != nil || it.Major != 4 || len(it.Kids) != 4 {
		return id, errf("not a transaction: %x", b)
	}
	if want := ref.Blake2b(32, it.Kids[0].Raw); !bytes.Equal(id[:], want) {
		return id, errf("the hash is %x, the embedded body hashes to %x", id, want)
	}
	return id, nil
}

func checkIDMut(c IDCase, n *core.Counter) error {
	list, keep := allMuts, false
	k := c.Mut
	if k >= len(allMuts) {
		list, keep, k = allKeepers, true, k-len(allMuts)
	}
	for order := 0; order < 2; order++ {
		_, t := idBase(c.Base)
		id0, err := idOf(t, order)
		if err != nil {
			return err
		}
		undo, ok := list[k].f(t)
		if !ok {
			n.Outcome("does not apply")
			return nil
		}
		id1, err := idOf(t, order)
		if err != nil {
			return errf("%s: %v", list[k].name, err)
		}
		n.Op(6)
		if keep && id0 != id1 {
			return errf("%s: the id changes from %x to %x", list[k].name, id0, id1)
		}
		same := list[k].name == "replace the metadata" && id1 == id0
		if same {
			// replaced by what it was: legitimate only for the base's own metadata
			cc, _ := idBase(c.Base)
			same = cc.Meta >= 0 && cc.Meta == metaIndexOf(k)
		}
		if !keep && id0 == id1 && !same {
			return errf("%s: the id stays %x", list[k].name, id0)
		}
		undo()
		if id2, err := idOf(t, order); err != nil || id2 != id0 {
			return errf("%s and undo: the id is %x (%v), it was %x", list[k].name, id2, err, id0)
		}
		n.State(id1[:])
	}
	return nil
}

// metaIndexOf: which of metas() mutation k sets.
func metaIndexOf(k int) int {
	first := sort.Search(len(allMuts), func(i int) bool { return false })
	for i, m := range allMuts {
		if m.name == "replace the metadata" {
			first = i
			break
		}
	}
	return k - first
}

func genIDMut(r *core.Run, yield func(IDCase)) {
	r.Param("id-changes.changes", len(allMuts))
	r.Param("id-changes.neutral", len(allKeepers))
	for b := 0; b < nIDBases; b++ {
		for k := 0; k < len(allMuts)+len(allKeepers); k++ {
			yield(IDCase{b, k})
		}
	}
}

// IDPair: two changes of one transaction give different ids.
type IDPair struct{ Base int }

func checkIDDistinct(c IDPair, n *core.Counter) error {
	seen := map[[32]byte]string{}
	bodies := map[[32]byte]string{}
	for k := range allMuts {
		_, t := idBase(c.Base)
		if _, ok := allMuts[k].f(t); !ok {
			continue
		}
		id, err := t.Hash()
		if err != nil {
			return err
		}
		b, _ := t.Bytes()
		s, err := split(b)
		if err != nil {
			return err
		}
		n.Op(2)
		n.State(id[:])
		if old, ok := bodies[id]; ok && old != string(s.body.Raw) {
			return errf("%s and %s give different bodies with the same id %x", allMuts[k].name, seen[id], id)
		}
		seen[id], bodies[id] = allMuts[k].name, string(s.body.Raw)
	}
	return nil
}

// ---- C15 ----

// WitCase is a number of signing keys, given to the constructor and to Sign.
type WitCase struct {
	Ctor, Signed int
	Meta         int
	Ins          int
	Between      bool // build between the constructor's keys and Sign
	Foreign      int  // witnesses put into the builder's transaction by hand, before the last build
	How          int  // 0 appended, 1 instead of those there
}

func checkWitCount(c WitCase, n *core.Counter) error {
	var list []bip32.XPrv
	var keys []int
	for i := 0; i < c.Ctor; i++ {
		list = append(list, xprv(i))
		keys = append(keys, i)
	}
	b := tx.NewTxBuilder(defaultProto, list)
	for i := 0; i < c.Ins; i++ {
		b.AddInputs(mkIn(someIn(i)))
	}
	b.AddOutputs(mkOut(someOut(0)))
	if c.Meta >= 0 {
		b.Tx().Metadata = allMetas[c.Meta].Val()
	}
	if c.Between {
		if err := builtOK(b, keys, n); err != nil {
			return err
		}
	}
	for i := 0; i < c.Signed; i++ {
		// a descending order, so that sorting the witnesses shows
		k := c.Ctor + c.Signed - 1 - i
		b.Sign(xprv(k))
		keys = append(keys, k)
	}
	if c.Foreign > 0 {
		w := b.Tx().Witness
		if c.How == 1 || w == nil {
			w = tx.NewTXWitness()
			b.Tx().Witness = w
		}
		for i := 0; i < c.Foreign; i++ {
			pk := xprv(40 + i).Public().PublicKey()
			w.Keys = append(w.Keys, tx.NewVKeyWitness(pk, ramp(64, byte(i))))
		}
	}
	return builtOK(b, keys, n)
}

func builtOK(b *tx.TxBuilder, keys []int, n *core.Counter) error {
	t, err := b.Build()
	if err != nil {
		return errf("build fails: %v", err)
	}
	bs, err := t.Bytes()
	if err != nil {
		return err
	}
	s, err := split(bs)
	if err != nil {
		return err
	}
	n.Op(2)
	n.State(bs)
	return s.checkWits(keys, n)
}

func genWitCount(r *core.Run, yield func(WitCase)) {
	max := core.Pick(r, 12, 20)
	r.Param("key-counts.max", max)
	for a := 0; a <= max; a++ {
		for b := 0; b <= max; b++ {
			yield(WitCase{a, b, -1, 1, false, 0, 0})
			yield(WitCase{a, b, 0, 2, true, 0, 0})
		}
	}
	// witnesses that are not of the builder's making
	for a := 0; a < 4; a++ {
		for b := 0; b < 4; b++ {
			for f := 1; f < 8; f++ {
				for how := 0; how < 2; how++ {
					yield(WitCase{a, b, -1, 1, false, f, how})
					yield(WitCase{a, b, 0, 1, true, f, how})
				}
			}
		}
	}
	for _, k := range []int{22, 23, 24, 25, 26, 100, 254, 255, 256, 257} {
		yield(WitCase{k, 0, -1, 1, false, 0, 0})
		yield(WitCase{0, k, -1, 1, false, 0, 0})
		yield(WitCase{1, k - 1, -1, 1, true, 0, 0})
	}
	for m := range allMetas {
		yield(WitCase{1, 1, m, 1, true, 0, 0})
	}
	for i := 0; i < core.Pick(r, 60, 260); i++ {
		yield(WitCase{1, 1, -1, i, true, 0, 0})
	}
	// every key of the pool signs: many different keys and messages
	for i := 0; i < core.Pick(r, 300, 2000); i++ {
		yield(WitCase{1 + i%3, i % 2, -1, 1 + i%40, false, 0, 0})
	}
}

// KeyList is the keys given to the constructor and to Sign.
type KeyList struct {
	Keys []int
	Ctor int
	Btw  bool
}

// genKeyLists: all lists of keys that repeat each other or share a part.
func genKeyLists(r *core.Run, yield func(KeyList)) {
	pool := []int{0, 1}
	for i := 0; i < relatedKeys; i++ {
		pool = append(pool, firstRelated+i)
	}
	max := core.Pick(r, 3, 4)
	r.Param("related-keys.max", max)
	for d := 2; d <= max; d++ {
		seqs(len(pool), d, func(s []int) {
			k := make([]int, d)
			for i := range s {
				k[i] = pool[s[i]]
			}
			for c := 0; c <= d; c++ {
				yield(KeyList{k, c, c == 1})
			}
		})
	}
}

func checkKeyList(c KeyList, n *core.Counter) error {
	var list []bip32.XPrv
	for _, k := range c.Keys[:c.Ctor] {
		list = append(list, xprv(k))
	}
	b := tx.NewTxBuilder(defaultProto, list)
	b.AddInputs(mkIn(someIn(0)))
	b.AddOutputs(mkOut(someOut(0)))
	if c.Btw {
		if err := builtOK(b, c.Keys[:c.Ctor], n); err != nil {
			return err
		}
	}
	for _, k := range c.Keys[c.Ctor:] {
		b.Sign(xprv(k))
	}
	return builtOK(b, c.Keys, n)
}

// ---- C14 ----

// MetaHist is a history of metadata values, with a query after each.
type MetaHist struct {
	Vals    []int // index into metas, noMetas, badMetas concatenated
	Queries []int
	Builder bool
}

var metaPool []*meta

func init() {
	metaPool = append(metaPool, metas()...)
	metaPool = append(metaPool, noMetas()...)
	metaPool = append(metaPool, badMetas()...)
}

func genMetaHist(r *core.Run, yield func(MetaHist)) {
	n := len(metaPool)
	for _, bld := range []bool{false, true} {
		for a := 0; a < n; a++ {
			for q := 0; q < 6; q++ {
				yield(MetaHist{[]int{a}, []int{q}, bld})
				for b := 0; b < n; b++ {
					for _, q2 := range []int{0, 1, 4, 5} {
						yield(MetaHist{[]int{a, b}, []int{q, q2}, bld})
					}
				}
			}
		}
	}
	// length three over a representative subset
	var sub []int
	seen := map[string]bool{}
	for i, m := range metaPool {
		if k := m.Name; !seen[k] && (k == "msg" || k == "text" || k == "nested" || k == "nil" || k == "nil map" || k == "empty map" || k == "map of channels" || k == "pointer to map") {
			seen[k] = true
			sub = append(sub, i)
		}
	}
	r.Param("metadata.values", n)
	for _, a := range sub {
		for _, b := range sub {
			for _, c := range sub {
				seqs(5, 3, func(q []int) {
					yield(MetaHist{[]int{a, b, c}, q, q[0]%2 == 0})
				})
			}
		}
	}
}

func checkMetaHist(c MetaHist, n *core.Counter) error {
	b := tx.NewTxBuilder(defaultProto, []bip32.XPrv{xprv(0)})
	b.AddInputs(mkIn(mIn{inHash(3), 0, 9_000_000_000}))
	b.AddOutputs(mkOut(someOut(0)))
	t := b.Tx()
	if !c.Builder {
		t = tx.NewTx()
		t.AddInputs(mkIn(someIn(0)))
		t.AddOutputs(mkOut(someOut(0)))
	}
	check := func(t *tx.Tx, m *meta, what string) error {
		bs, err := t.Bytes()
		if m.Bad {
			if err == nil {
				return errf("%s: metadata %s that cannot be encoded is serialized to %x without an error", what, m.Name, bs)
			}
			return nil
		}
		if err != nil {
			return errf("%s: metadata %s: %v", what, m.Name, err)
		}
		s, err := split(bs)
		if err != nil {
			return err
		}
		n.State(s.body.Raw)
		if err := s.checkMeta(m); err != nil {
			return errf("%s: %v", what, err)
		}
		return nil
	}
	hist := ""
	for i, v := range c.Vals {
		m := metaPool[v]
		t.Metadata = m.Val()
		hist += "metadata=" + m.Name + "; "
		n.Op(1)
		var err error
		switch c.Queries[i] {
		case 0:
			_, err = t.Hash()
			hist += "Hash; "
		case 1:
			_, err = t.Bytes()
			hist += "Bytes; "
		case 2:
			_, err = t.Hex()
			hist += "Hex; "
		case 3:
			_, err = t.Fee(feeDefault)
			hist += "Fee; "
		case 4:
			if c.Builder {
				var bt tx.Tx
				bt, err = b.Build()
				hist += "Build; "
				if err == nil {
					if e := check(&bt, m, hist+"built"); e != nil {
						return e
					}
				}
			} else {
				err = t.CalculateAuxiliaryDataHash()
				hist += "CalculateAuxiliaryDataHash; "
				if err == nil && !m.Bad {
					// the body on its own now carries the hash that goes with the metadata
					body, _ := t.Body.Bytes()
					bs, e := t.Bytes()
					if e != nil {
						return errf("%s%v", hist, e)
					}
					s, e := split(bs)
					if e != nil {
						return e
					}
					if !bytes.Equal(body, s.body.Raw) {
						return errf("%sthe body alone is %x, in the transaction %x", hist, body, s.body.Raw)
					}
				}
			}
		case 5:
			if c.Builder {
				b.AddChangeIfNeeded(mustAddr(histAddrs[0]))
				hist += "AddChangeIfNeeded; "
				if m.Bad {
					continue
				}
			}
		}
		if m.Bad && err == nil && c.Queries[i] != 5 {
			return errf("%sno error for metadata that cannot be encoded", hist)
		}
		if !m.Bad && err != nil {
			return errf("%s%v", hist, err)
		}
	}
	last := metaPool[c.Vals[len(c.Vals)-1]]
	if err := check(t, last, hist+"Bytes"); err != nil {
		return err
	}
	if c.Builder {
		bt, err := b.Build()
		if last.Bad {
			if err == nil {
				return errf("%sBuild: no error for metadata that cannot be encoded", hist)
			}
			return nil
		}
		if err != nil {
			return errf("%sBuild: %v", hist, err)
		}
		return check(&bt, last, hist+"Build")
	}
	return nil
}

// MetaSize is metadata of a given encoded size: list of Parts byte strings (or texts) with Size bytes in the last
// and 64 in the others.
type MetaSize struct {
	Size, Parts int
	Text, Map   bool
	Builder     bool
}

func (c MetaSize) meta() *meta {
	items := make([]interface{}, c.Parts)
	var encs [][]byte
	for i := range items {
		n := 64
		if i == c.Parts-1 {
			n = c.Size
		}
		bs := make([]byte, n)
		for k := range bs {
			bs[k] = byte('a' + (k*7+i*3+k/251)%26)
		}
		items[i] = bs
		if c.Text {
			items[i] = string(bs)
			encs = append(encs, ref.Tstr(string(bs)))
		} else {
			encs = append(encs, ref.Bstr(bs))
		}
	}
	var v interface{} = items
	enc := ref.Arr(encs...)
	if c.Map {
		v = map[uint64]interface{}{674: items}
		enc = append(append(ref.Head(5, 1), ref.Uint(674)...), enc...)
	}
	return &meta{Name: fmt.Sprintf("size %+v", c), Val: func() interface{} { return v }, Enc: enc}
}

func genMetaSize(r *core.Run, y func(MetaSize)) {
	w := core.Pick(r, 12, 80)
	r.Param("sizes.window", w)
	do := func(s, p int) {
		for m := 0; m < 8; m++ {
			y(MetaSize{s, p, m&1 == 1, m&2 == 2, m&4 == 4})
		}
	}
	for s := 0; s <= core.Pick(r, 300, 1200); s++ {
		do(s, 1)
	}
	for _, b := range []int{512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072} {
		for d := -w; d <= w; d++ {
			do(b+d, 1)
		}
	}
	for _, p := range []int{2, 15, 16, 17, 23, 24, 25, 63, 64, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 1000, 1024, 4096} {
		for s := 0; s <= 64; s += 8 {
			do(s, p)
		}
	}
}

func checkMetaSize(c MetaSize, n *core.Counter) error {
	m := c.meta()
	var t *tx.Tx
	if c.Builder {
		b := tx.NewTxBuilder(defaultProto, []bip32.XPrv{xprv(0)})
		b.AddInputs(mkIn(mIn{inHash(3), 0, 9_000_000_000}))
		b.AddOutputs(mkOut(someOut(0)))
		b.Tx().Metadata = m.Val()
		bt, err := b.Build()
		if err != nil {
			return errf("metadata of %d bytes: Build: %v", len(m.Enc), err)
		}
		t = &bt
	} else {
		t = tx.NewTx()
		t.AddInputs(mkIn(someIn(0)))
		t.AddOutputs(mkOut(someOut(0)))
		t.Metadata = m.Val()
	}
	n.Op(1)
	bs, err := t.Bytes()
	if err != nil {
		return errf("metadata of %d bytes: %v", len(m.Enc), err)
	}
	s, err := split(bs)
	if err != nil {
		return err
	}
	n.State(s.body.Raw)
	if err := s.checkMeta(m); err != nil {
		return errf("metadata of %d bytes: %.300s", len(m.Enc), err.Error())
	}
	return nil
}

func init() {
	core.Register(&core.Prop{ID: "C12", Level: "model_checking", Subs: []core.Sub{
		core.S[TxCase]{N: "values", Gen: genTxValues, Check: checkTxCase, Batch: 64},
		core.S[TxCase]{N: "pairs", Gen: genTxPairs, Check: checkTxCase, Batch: 64},
		core.S[TxCase]{N: "counts", Gen: genTxCounts, Check: checkTxCase, Batch: 16},
		core.S[TxCase]{N: "orders", Gen: genTxOrders, Check: checkTxCase, Batch: 64},
		core.S[TxCase]{N: "metadata", Gen: genTxMeta, Check: checkTxCase, Batch: 16},
		core.S[InID]{N: "input-ids", Gen: genInID, Check: checkInID, Batch: 64},
		featureSub(aBody),
		histSub("histories", aBody, bodyOps, []int{1}, 5, 5)},
		Exhaustive:  "all field boundary values one and two at a time, all counts and orders within the bounds, all metadata shapes, and all histories of builder operations to the depth bound, byte for byte against a reference CBOR writer",
		Assumptions: []string{"lists and the witness set of a hand-made transaction are not nil (NewTx makes them empty)"}})
	core.Register(&core.Prop{ID: "C13", Level: "model_checking", Subs: []core.Sub{
		orderSub(true),
		core.S[IDCase]{N: "id-changes", Gen: genIDMut, Check: checkIDMut, Batch: 64},
		core.S[IDPair]{N: "id-distinct", Gen: func(r *core.Run, y func(IDPair)) {
			for b := 0; b < nIDBases; b++ {
				y(IDPair{b})
			}
		}, Check: checkIDDistinct, Batch: 1},
		featureSub(aID),
		sizeSub(aID),
		histSub("histories", aID, idOps, []int{1}, 5, 5)},
		Exhaustive: "every single-bit and single-element change of several transactions in place (with undo), pairwise distinct ids of all of them, every neutral change, and all histories of builder operations and queries to the depth bound"})
	core.Register(&core.Prop{ID: "C14", Level: "model_checking", Subs: []core.Sub{
		orderSub(false),
		core.S[MetaHist]{N: "metadata-histories", Gen: genMetaHist, Check: checkMetaHist, Batch: 64},
		core.S[MetaSize]{N: "metadata-sizes", Gen: genMetaSize, Check: checkMetaSize, Batch: 16},
		featureSub(aAux),
		sizeSub(aAux),
		histSub("histories", aAux, auxOps, []int{1}, 5, 6)},
		Exhaustive:  "all pairs (and triples of a subset) of metadata values set in turn with every query between, all builder histories to the depth bound, all metadata sizes to the bound and around the powers of two, and for map metadata all choices of map iteration start (owned through a runtime overlay) with bounded deviations",
		Assumptions: []string{"metadata does not contain maps with equal keys of different Go types", "metadata is not modified by the caller while it is being serialized"}})
	core.Register(&core.Prop{ID: "C15", Level: "model_checking", Subs: []core.Sub{
		core.S[WitCase]{N: "key-counts", Gen: genWitCount, Check: checkWitCount, Batch: 8},
		core.S[KeyList]{N: "related-keys", Gen: genKeyLists, Check: checkKeyList, Batch: 16},
		featureSub(aWit),
		sizeSub(aWit),
		histSub("histories", aWit, witOps, []int{0, 2}, 5, 6)},
		Exhaustive: "all splits of key counts between constructor and Sign up to the bound plus CBOR width boundaries, and all histories of builder operations to the depth bound; all lists of keys that repeat each other or share a part, to the bound; every signature verified with the standard library"})
}
