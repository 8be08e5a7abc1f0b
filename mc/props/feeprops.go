package props

import (
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/fees"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/core"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/ref"
)

var feeDefault = fees.NewLinearFee(44, 155381)

// ChangeCase is a transaction to add change to. The excess (inputs - outputs) is Excess, or, when Near is
// set, Excess more than the fee (a first, unconstrained run tells the fee).
type ChangeCase struct {
	Ins, Outs int
	Keys      int
	Late      bool // the first key is added after the change
	Addr      int  // change address
	Meta      int
	Per       uint64
	Fixed     uint64
	Near      bool
	Bare      bool // with Near: the fee meant is that of the transaction without change
	Excess    int64
	OutAmt    uint64
	FeeTarget uint64 // when not 0, Fixed is set so that the fee comes out around this value, plus Fixed
	Twice     int    // 1: fee query before; 2: build before; 3 to 6: a previous fee is set
	Skew      bool   // excess on the last input instead of the first
	Mode      int    // sum of mode bits
}

// mode bits
const (
	mSameIn   = 1 << iota // all inputs spend the same output
	mSameTx               // all inputs spend outputs of the same transaction
	mToSelf               // all outputs pay the change address
	mNoTTL                // no time to live
	mMaxTTL               // largest time to live
	mSpread               // amounts that differ from element to element
	mOther                // other protocol parameters at the lower end: no minimum, no size limit
	mOther2               // ... at the upper end
	mVersion              // another protocol version
	modeCount = iota
)

var changeAddrs [][]byte

func init() {
	changeAddrs = append(changeAddrs, histAddrs...)
	for _, p := range [][3]uint64{{0, 0, 0}, {1 << 62, 1 << 62, 1 << 62}, {^uint64(0), ^uint64(0), ^uint64(0)}} {
		changeAddrs = append(changeAddrs, ref.Addr{Kind: ref.Pointer, Net: 0, Pay: ref.Cred{Hash: ramp(28, 1)}, Ptr: p}.Bytes())
	}
	changeAddrs = append(changeAddrs, ref.Addr{Kind: ref.Byron, Net: 1, Pay: ref.Cred{Hash: ramp(28, 0x43)}, Payload: ref.Bstr(ramp(60, 9))}.Bytes())
}

type outcome struct {
	fee, in, out uint64
	outs         []mOut
	before       []mOut
	size         uint64
	body         []byte
	insSame      bool
}

func (c ChangeCase) run(excess uint64, fixed uint64, n *core.Counter) (o outcome, err error) {
	p := protocol.Protocol{TxFeePerByte: uint(c.Per), TxFeeFixed: uint(fixed), MaxTxSize: 16384, MinUTXOValue: 1_000_000}
	on := func(bit int) bool { return c.Mode&bit != 0 }
	if on(mOther) {
		p.MaxTxSize, p.MinUTXOValue = 0, 0
	}
	if on(mOther2) {
		p.MaxTxSize, p.MinUTXOValue = 300, 1<<50
	}
	if on(mVersion) {
		p.ProtocolVersion = protocol.ProtocolVersion{Major: 8, Minor: 1}
	}
	var list []bip32.XPrv
	for i := 0; i < c.Keys; i++ {
		list = append(list, xprv(i))
	}
	if c.Late {
		list = nil
	}
	b := tx.NewTxBuilder(p, list)
	self := mustAddr(changeAddrs[c.Addr])
	for i := 0; i < c.Outs; i++ {
		m := mOut{histAddrs[(i*5)%len(histAddrs)], c.OutAmt}
		if on(mToSelf) {
			m.Addr = changeAddrs[c.Addr]
		}
		if on(mSpread) {
			m.Amt += uint64(i) * 70_003
		}
		o.before = append(o.before, m)
		o.out += m.Amt
		if on(mToSelf) {
			b.AddOutputs(tx.NewTxOutput(self, uint(m.Amt)))
			continue
		}
		b.AddOutputs(mkOut(m))
	}
	o.in = o.out + excess
	var ins []mIn
	for i := 0; i < c.Ins; i++ {
		m := mIn{Hash: inHash(i), Ix: uint16((c.Ins - i) * 11)}
		if (i == 0) != c.Skew || c.Ins == 1 {
			m.Amt = o.in
		}
		if c.Skew && c.Ins > 1 {
			// spread: all but the last get a lovelace
			m.Amt = 1
			if i == c.Ins-1 {
				if o.in < uint64(c.Ins) {
					m.Amt = 0
				} else {
					m.Amt = o.in - uint64(c.Ins) + 1
				}
			}
		}
		if on(mSameIn) || on(mSameTx) {
			m.Hash = inHash(0)
		}
		if on(mSameIn) {
			m.Ix = 3
		}
		if on(mSpread) && c.Ins > 1 {
			m.Amt = o.in / uint64(c.Ins)
			if i == 0 {
				m.Amt += o.in % uint64(c.Ins)
			}
			// move some value between neighbours
			if mv := m.Amt / 3; i%2 == 0 && i < c.Ins-1 {
				m.Amt -= o.in / uint64(c.Ins) / 3
			} else if i%2 == 1 {
				m.Amt += mv
			}
		}
		ins = append(ins, m)
		b.AddInputs(mkIn(m))
	}
	o.in = 0
	for _, i := range ins {
		o.in += i.Amt
	}
	if c.Meta >= 0 {
		b.Tx().Metadata = allMetas[c.Meta].Val()
	}
	switch {
	case on(mMaxTTL):
		b.SetTTL(1<<32 - 1)
	case !on(mNoTTL):
		b.SetTTL(uint32(c.Ins * 1000))
	}
	switch c.Twice {
	case 1:
		b.MinFee()
		b.MinFee()
	case 2:
		if _, err := b.Build(); err != nil {
			return o, err
		}
	case 3:
		b.Tx().SetFee(1 << 60)
	case 4:
		b.Tx().SetFee(5)
	case 5:
		b.Tx().SetFee(300)
	case 6:
		b.Tx().SetFee(uint(excess)) // all there is
	}
	n.Op(1)
	b.AddChangeIfNeeded(self)
	if c.Late {
		for i := 0; i < c.Keys; i++ {
			b.Sign(xprv(i))
		}
	}
	o.fee = b.Tx().Body.Fee
	o.insSame = len(b.Tx().Body.Inputs) == len(ins)
	for i, x := range b.Tx().Body.Inputs {
		o.insSame = o.insSame && core.Equal(mIn{x.TxHash, x.Index, uint64(x.Amount)}, ins[i])
	}
	for _, x := range b.Tx().Body.Outputs {
		o.outs = append(o.outs, mOut{x.Address.Bytes(), uint64(x.Amount)})
	}
	t, err := b.Build()
	if err != nil {
		return o, err
	}
	bs, err := t.Bytes()
	if err != nil {
		return o, err
	}
	o.size = uint64(len(bs))
	o.body = bs
	n.State(bs)
	return o, nil
}

// resolve runs the case, probing first where the excess or the fixed fee is relative.
func (c ChangeCase) resolve(n *core.Counter) (o outcome, fixed uint64, ok bool, err error) {
	fixed = c.Fixed
	if c.FeeTarget != 0 {
		p := c
		p.FeeTarget, p.Near = 0, false
		o, err = p.run(1<<40, 0, n)
		if err != nil {
			return
		}
		f := int64(c.FeeTarget) - int64(o.fee) + int64(c.Fixed)
		if f < 0 {
			return o, 0, false, nil
		}
		fixed = uint64(f)
	}
	excess := uint64(c.Excess)
	if c.Near {
		o, err = c.run(1<<40+fixed*2, fixed, n)
		if err != nil {
			return
		}
		e := int64(o.fee) + c.Excess
		if c.Bare {
			if o, err = c.run(0, fixed, n); err != nil {
				return
			}
			e = int64(c.bareFee(o, fixed)) + c.Excess
		}
		if e < 0 {
			return o, 0, false, nil
		}
		excess = uint64(e)
	}
	o, err = c.run(excess, fixed, n)
	return o, fixed, err == nil, err
}

func checkChange(c ChangeCase, n *core.Counter) error {
	o, fixed, ok, err := c.resolve(n)
	if err != nil {
		return err
	}
	if !ok {
		n.Outcome("outside the range")
		return nil
	}
	want := append([]mOut{}, o.before...)
	if o.in > o.out && o.in-o.out > o.fee {
		want = append(want, mOut{changeAddrs[c.Addr], o.in - o.out - o.fee})
		n.Outcome("change")
	} else {
		n.Outcome("no change")
	}
	if !sameOuts(o.outs, want) {
		return errf("inputs %d, outputs %d, fee %d: the outputs are %s, want %s", o.in, o.out, o.fee, showOuts(o.outs), showOuts(want))
	}
	if !o.insSame {
		return errf("adding change altered the inputs")
	}
	if err := c.balance(o, fixed); err != nil {
		return err
	}
	return c.swallowed(o, fixed, n)
}

// bareNeed is the fee required of the transaction of o, which has no change, if it carries the given one.
func (c ChangeCase) bareNeed(o outcome, fixed, carried uint64) uint64 {
	size := o.size - uint64(len(ref.Uint(o.fee))) + uint64(len(ref.Uint(carried)))
	if c.Keys == 0 { // the builder counts on one witness
		size += uint64(len(mTx{Wits: [][2]HB{{make([]byte, 32), make([]byte, 64)}}}.wits()) - len(mTx{}.wits()))
	}
	return fixed + c.Per*size
}

// bareFee is the least fee that covers the transaction of o, which has no change.
func (c ChangeCase) bareFee(o outcome, fixed uint64) uint64 {
	f := c.bareNeed(o, fixed, 0)
	for c.bareNeed(o, fixed, f) > f {
		f = c.bareNeed(o, fixed, f)
	}
	return f
}

// balance: when the inputs exceed the outputs by enough for the fee of the transaction without change, the
// transaction balances, with or without change.
func (c ChangeCase) balance(o outcome, fixed uint64) error {
	if len(o.outs) > len(o.before) || o.in <= o.out || o.fee == o.in-o.out {
		return nil
	}
	rest := o.in - o.out
	if need := c.bareNeed(o, fixed, rest); need <= rest {
		return errf("inputs %d exceed the outputs %d by enough for the fee %d of the transaction without change, but the fee is %d and there is no change", o.in, o.out, need, o.fee)
	}
	return nil
}

// swallowed: when no change was added though the inputs suffice, the fee is no higher than the one charged
// when there is plenty to return.
func (c ChangeCase) swallowed(o outcome, fixed uint64, n *core.Counter) error {
	if len(o.outs) > len(o.before) || o.in < o.out || o.in-o.out < o.fee {
		return nil
	}
	rich, err := c.run(1<<40+fixed*2, fixed, n)
	if err != nil {
		return err
	}
	if rich.fee < o.fee {
		return errf("inputs %d, outputs %d: no change, the fee is %d, though %d is charged when there is change", o.in, o.out, o.fee, rich.fee)
	}
	return nil
}

func checkCover(c ChangeCase, n *core.Counter) error {
	o, fixed, ok, err := c.resolve(n)
	if err != nil {
		return err
	}
	if ok {
		if err := c.balance(o, fixed); err != nil {
			return err
		}
	}
	if !ok || o.in < o.out || o.in-o.out < o.fee {
		n.Outcome("insufficient inputs")
		return nil
	}
	min := fixed + c.Per*o.size
	if o.fee < min {
		return errf("the fee is %d, the ledger minimum for the %d bytes of the signed transaction is %d", o.fee, o.size, min)
	}
	n.Outcome("covered")
	if len(o.outs) > len(o.before) && c.Keys > 0 && o.fee > min+c.Per*feeSlack {
		return errf("the fee is %d for %d bytes, more than %d bytes above the ledger minimum %d", o.fee, o.size, feeSlack, min)
	}
	return c.swallowed(o, fixed, n)
}

var feeParams = [][2]uint64{{44, 155381}, {0, 0}, {1, 0}, {0, 170000}, {1, 1}, {2, 0}, {44, 0}, {1000, 1000000}, {1, 1 << 32}, {43, 155380}, {1 << 20, 5}}

func defCase() ChangeCase {
	return ChangeCase{Ins: 1, Outs: 1, Keys: 1, Meta: -1, Per: 44, Fixed: 155381, OutAmt: 1_000_000}
}

// genModes: all combinations of mode bits with small shapes and excesses around the fee.
func genModes(r *core.Run, yield func(ChangeCase)) {
	max := core.Pick(r, 3, 4)
	r.Param("modes.bits", modeCount)
	r.Param("modes.max_inputs_outputs", max)
	for m := 1; m < 1<<modeCount; m++ {
		for i := 1; i <= max; i++ {
			for o := 0; o <= max; o++ {
				for k := 0; k < 3; k++ {
					if (k == 2 || m&(mOther|mOther2|mVersion) != 0) && (m+i+o)%4 != 0 && !r.Thorough() {
						continue
					}
					for _, d := range []int64{-2000, -353, -352, -220, -176, -1, 24, 1_000_000 - 176, 1_000_000, 2_000_000, 1e12, 1e12 + 1, 1e12 - 1, 1e12 + 500} {
						c := defCase()
						if d > 1e11 { // relative to the fee without change
							d -= 1e12
							c.Bare = true
						}
						c.Mode, c.Ins, c.Outs, c.Keys, c.Near, c.Excess = m, i, o, k, true, d
						c.Addr = (m + o) % len(changeAddrs)
						yield(c)
					}
				}
			}
		}
	}
}

// genBare: excesses around the fee of the transaction without change, up to that with change.
func genBare(r *core.Run, yield func(ChangeCase)) {
	w := int64(core.Pick(r, 4000, 10000))
	r.Param("bare.window", w)
	c := defCase()
	c.Near, c.Bare = true, true
	for d := int64(-50); d <= w; d++ {
		c.Excess = d
		yield(c)
	}
	ds := []int64{-2, -1, 0, 1, 2, 43, 44, 45, 176, 500, 2000}
	for a := range changeAddrs {
		for tw := 0; tw < 7; tw++ {
			for k := 0; k < 4; k++ {
				for _, m := range []int{-1, 0, 3} {
					for _, d := range ds {
						c := defCase()
						c.Near, c.Bare, c.Addr, c.Twice, c.Keys, c.Meta, c.Excess = true, true, a, tw, k, m, d
						yield(c)
					}
				}
			}
		}
	}
	for i := 1; i <= 26; i++ {
		for o := 0; o <= 26; o++ {
			for _, d := range ds[1:4] {
				c := defCase()
				c.Near, c.Bare, c.Ins, c.Outs, c.Keys, c.Excess = true, true, i, o, (i+o)%4, d
				yield(c)
			}
		}
	}
	for m := range allMetas {
		for _, d := range ds {
			c := defCase()
			c.Near, c.Bare, c.Meta, c.Excess = true, true, m, d
			yield(c)
		}
	}
	for _, p := range feeParams {
		for _, d := range ds {
			c := defCase()
			c.Near, c.Bare, c.Per, c.Fixed, c.Excess = true, true, p[0], p[1], d
			yield(c)
		}
	}
	// the fee without change around every width of its own encoding
	for _, per := range []uint64{0, 1, 2, 3, 7, 8, 44, 100, 255, 300} {
		for _, tgt := range []uint64{24, 256, 65536, 1 << 32} {
			for back := int64(0); back <= 100; back++ {
				for d := int64(-3); d <= 3; d++ {
					for _, ex := range ds[1:4] {
						c := defCase()
						c.Near, c.Bare, c.Per, c.FeeTarget, c.Fixed, c.Excess = true, true, per, tgt, per*uint64(back)+uint64(d), ex
						yield(c)
					}
				}
			}
		}
	}
}

// genChange: excesses around the fee and around every amount width, for several shapes.
func genChange(r *core.Run, yield func(ChangeCase)) {
	genBare(r, yield)
	w := int64(core.Pick(r, 450, 3000))
	r.Param("excess.window", w)
	for _, sh := range [][3]int{{1, 1, 1}, {1, 0, 1}, {2, 3, 2}, {1, 1, 0}, {3, 24, 1}} {
		c := defCase()
		c.Ins, c.Outs, c.Keys = sh[0], sh[1], sh[2]
		for d := -w; d <= w; d++ {
			c.Near, c.Excess = true, d
			yield(c)
		}
		for _, b := range []int64{24, 256, 65536, 1 << 32} {
			for d := int64(-40); d <= 40; d++ {
				c.Near, c.Excess = true, b+d // the change itself crosses a width
				yield(c)
				c.Near, c.Excess = false, b+d // the excess does
				if b+d >= 0 {
					yield(c)
				}
			}
		}
		// the whole range of totals
		for _, e := range []uint64{0, 1, 155381, 1 << 40, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1 - 30_000_000_000} {
			for _, amt := range []uint64{0, 1, 23, 1_000_000, 1 << 29} {
				c.Near, c.Excess, c.OutAmt = false, int64(e), amt
				yield(c)
			}
		}
	}
	// outputs above inputs: a single huge output
	for _, d := range []int64{-1, -2, -155381, -1_000_000} {
		c := defCase()
		c.OutAmt, c.Near, c.Excess = 1<<40, false, d
		yield(c)
	}
	for a := range changeAddrs {
		for _, d := range []int64{-2, -1, 0, 1, 2, 1000, 1_000_000} {
			for tw := 0; tw < 7; tw++ {
				for k := 0; k < 3; k++ {
					c := defCase()
					c.Addr, c.Near, c.Excess, c.Twice, c.Keys = a, true, d, tw, k
					yield(c)
				}
			}
		}
	}
	for m := range allMetas {
		for _, d := range []int64{-1, 0, 1, 1_000_000} {
			c := defCase()
			c.Meta, c.Near, c.Excess = m, true, d
			yield(c)
		}
	}
	// every bit of an amount: outputs and excess around every pair of powers of two
	for i := uint(0); i < 63; i++ {
		for j := uint(0); j < 63; j++ {
			for _, d := range []int64{-1, 0, 1} {
				for _, shp := range [][3]int{{1, 1, 1}, {2, 2, 1}, {3, 1, 0}} {
					c := defCase()
					c.Ins, c.Outs, c.Keys, c.Skew = shp[0], shp[1], shp[2], shp[2] == 0
					c.OutAmt = 1<<i + uint64(d)
					c.Near, c.Excess = false, 1<<j-d
					if shp[1] == 2 && i > 61 || c.Excess < 0 {
						continue
					}
					yield(c)
				}
			}
		}
	}
	for k := 0; k <= 300; k++ { // totals over many elements
		for _, sk := range []bool{false, true} {
			c := defCase()
			c.Ins, c.Outs, c.Skew, c.OutAmt = 1+k, k, sk, 1<<40+uint64(k)
			c.Near, c.Excess = false, 5_000_000+int64(k)
			if k < 40 || k > 250 && k < 260 || k%50 == 0 {
				yield(c)
			}
		}
	}
	// many large amounts: totals over the whole range of 64 bits
	for _, k := range []int{2, 3, 23, 24, 255, 256, 257, 300} {
		for sh := uint(54); sh < 64; sh++ {
			for _, d := range []uint64{0, 1, 12345} {
				amt := uint64(1)<<sh/uint64(k)*2 - 1 - d
				for _, ins := range []int{1, 3, k} {
					for _, m := range []int{0, mSpread} {
						c := defCase()
						c.Ins, c.Outs, c.OutAmt, c.Mode = ins, k, amt-uint64(k)*140_006, m
						c.Near, c.Excess = false, 50_000_000+int64(k)
						yield(c)
					}
				}
			}
		}
	}
	for _, p := range feeParams {
		for d := int64(-30); d <= 30; d++ {
			for _, sk := range []bool{false, true} {
				c := defCase()
				c.Per, c.Fixed, c.Near, c.Excess, c.Skew, c.Ins = p[0], p[1], true, d, sk, 3
				yield(c)
			}
		}
	}
}

func genCover(r *core.Run, yield func(ChangeCase)) {
	genBare(r, yield)
	// counts
	mi, mo, mk := core.Pick(r, 30, 40), core.Pick(r, 30, 40), 4
	r.Param("counts.max_inputs", mi)
	r.Param("counts.max_outputs", mo)
	for i := 1; i <= mi; i++ {
		for o := 0; o <= mo; o++ {
			for k := 0; k <= mk; k++ {
				if k > 1 && (i*o)%4 != 0 && !r.Thorough() {
					continue
				}
				c := defCase()
				c.Ins, c.Outs, c.Keys, c.Near, c.Excess = i, o, k, true, 1_000_000
				yield(c)
			}
		}
	}
	for _, k := range []int{5, 10, 20, 22, 23, 24, 25, 26, 60, 254, 255, 256, 257} {
		c := defCase()
		c.Keys, c.Near, c.Excess = k, true, 2_000_000
		for tw := 0; tw < 7; tw++ {
			c.Twice = tw
			yield(c)
		}
	}
	for _, i := range []int{100, 200, 254, 255, 256, 257, 300} {
		c := defCase()
		c.Ins, c.Near, c.Excess = i, true, 1_000_000
		yield(c)
		c.Ins, c.Outs = 1, i
		yield(c)
	}
	// many large amounts, around the point where the inputs are just enough
	for _, o := range []int{2, 24, 255, 256, 257, 300} {
		for _, sh := range []uint{31, 32, 53, 62, 63} {
			for _, d := range []int64{-155382, -100_000, -2, -1, 0, 1, 40, 1_000_000} {
				for _, i := range []int{1, 2, 257} {
					c := defCase()
					c.Ins, c.Outs, c.OutAmt = i, o, uint64(1)<<sh/uint64(o)*2-uint64(o)*100_000
					if sh < 40 {
						c.OutAmt = uint64(1)<<sh/uint64(o) + 7
					}
					c.Near, c.Excess = true, d
					yield(c)
				}
			}
		}
	}
	// a key that only arrives after the change (the placeholder witness stands for it)
	for a := range changeAddrs {
		c := defCase()
		c.Late, c.Addr, c.Near, c.Excess = true, a, true, 5_000_000
		yield(c)
	}
	// change address, metadata, params, previous fee
	for a := range changeAddrs {
		for m := -1; m < len(allMetas); m++ {
			for tw := 0; tw < 7; tw++ {
				for pi := range feeParams {
					if pi > 1 && (m%5 != 0 || tw == 1) && !r.Thorough() {
						continue
					}
					c := defCase()
					c.Addr, c.Meta, c.Twice, c.Near, c.Excess = a, m, tw, true, 3_000_000
					c.Per, c.Fixed = feeParams[pi][0], feeParams[pi][1]
					yield(c)
				}
			}
		}
	}
	// every bit of an output amount and of the excess
	for i := uint(0); i < 62; i++ {
		for j := uint(0); j < 62; j++ {
			c := defCase()
			c.OutAmt, c.Near, c.Excess = 1<<i, true, 1<<j
			yield(c)
		}
	}
	// the change crosses every amount width
	for _, p := range feeParams {
		for _, b := range []int64{0, 24, 256, 65536, 1 << 32} {
			for d := int64(-60); d <= 60; d++ {
				c := defCase()
				c.Per, c.Fixed, c.Near, c.Excess = p[0], p[1], true, b+d
				yield(c)
			}
		}
	}
	// a fee of one byte more for every byte, in transactions of less than 256 bytes
	for _, per := range []uint64{1, 2} {
		for a := range changeAddrs {
			for o := 0; o < 2; o++ {
				for k := 0; k < 2; k++ {
					for d := int64(-16); d <= 16; d++ {
						for _, ex := range []int64{0, 1, 100, 70_000, 1 << 33} {
							c := defCase()
							c.Per, c.FeeTarget, c.Fixed, c.Near, c.Excess, c.Addr, c.Outs, c.Keys, c.OutAmt = per, 256, uint64(d), true, ex, a, o, k, 1
							yield(c)
						}
					}
				}
			}
		}
	}
	// the fee crosses every width of its own encoding
	for _, per := range []uint64{0, 1, 2, 3, 7, 8, 44, 100, 255, 300} {
		for _, tgt := range []uint64{24, 256, 65536, 1 << 32} {
			w := int64(per)*12 + 12
			if w > 600 {
				w = 600
			}
			for d := -w; d <= w; d++ {
				for _, ex := range []int64{0, 1, 70_000} {
					for _, tw := range []int{0, 3, 4} {
						c := defCase()
						c.Per, c.FeeTarget, c.Fixed, c.Near, c.Excess, c.Twice = per, tgt, uint64(d), true, ex, tw
						yield(c)
					}
				}
			}
		}
	}
}

// FeeCase is a transaction and fee parameters.
type FeeCase struct {
	Tx         TxCase
	Per, Fixed uint64
}

func checkFee(c FeeCase, n *core.Counter) error {
	t := tx.NewTx()
	for _, i := range c.Tx.Ins {
		t.AddInputs(mkIn(i))
	}
	for _, o := range c.Tx.Outs {
		t.AddOutputs(mkOut(o))
	}
	t.SetFee(uint(c.Tx.Fee))
	t.Body.TTL = c.Tx.TTL
	if c.Tx.Meta >= 0 {
		t.Metadata = allMetas[c.Tx.Meta].Val()
	}
	var ws []*tx.VKeyWitness
	for i := 0; i < c.Tx.Keys; i++ {
		ws = append(ws, tx.NewVKeyWitness(fill(32, byte(i)), ramp(64, byte(i))))
	}
	t.Witness = tx.NewTXWitness(ws...)
	l := fees.NewLinearFee(uint(c.Per), uint(c.Fixed))
	if l.TxFeePerByte != uint(c.Per) || l.TxFeeFixed != uint(c.Fixed) {
		return errf("NewLinearFee(%d, %d) is %+v", c.Per, c.Fixed, *l)
	}
	for k := 0; k < 2; k++ {
		f, err := t.Fee(l)
		if err != nil {
			return err
		}
		b, err := t.Bytes()
		if err != nil {
			return err
		}
		n.Op(2)
		if want := c.Fixed + c.Per*uint64(len(b)); uint64(f) != want {
			return errf("Fee(%d per byte, %d fixed) is %d, want %d for the %d bytes %x", c.Per, c.Fixed, f, want, len(b), b)
		}
		n.StateS(utoa(uint64(f)))
		// a second round on the changed transaction
		t.SetFee(f)
	}
	return nil
}

func genFee(r *core.Run, yield func(FeeCase)) {
	vals := []uint64{0, 1, 2, 3, 5, 9, 10, 23, 24, 43, 44, 45, 99, 100, 101, 255, 256, 999, 1000, 65535, 65536, 155381, 1_000_000, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40, 1 << 49}
	var txs []TxCase
	for k := 0; k < 6; k++ {
		c := base(0)
		c.Keys = k
		for i := 0; i < k*3; i++ {
			c.Ins = append(c.Ins, someIn(i+1))
			c.Outs = append(c.Outs, someOut(i+1))
		}
		if k%2 == 1 {
			c.Meta = k
			c.TTL = 0
		}
		txs = append(txs, c)
	}
	for _, t := range txs {
		for _, p := range vals {
			for _, f := range vals {
				yield(FeeCase{t, p, f})
			}
		}
	}
	// every size: outputs and witnesses one by one
	for i := 0; i <= core.Pick(r, 120, 600); i++ {
		for _, p := range feeParams {
			c := base(0)
			c.Ins, c.Outs = nil, nil
			for k := 0; k < i; k++ {
				c.Ins = append(c.Ins, someIn(k))
				if k%2 == 0 {
					c.Outs = append(c.Outs, someOut(k))
				}
			}
			c.Keys = i % 30
			yield(FeeCase{c, p[0], p[1]})
		}
	}
	for m := range allMetas {
		for _, p := range feeParams {
			c := base(0)
			c.Meta = m
			yield(FeeCase{c, p[0], p[1]})
		}
	}
	for _, f := range cborBoundary {
		c := base(0)
		c.Fee, c.Outs[0].Amt = f, f
		yield(FeeCase{c, 44, 155381})
	}
	// large transactions: around 16, 32, 64, 128 KiB and 1 MiB
	for _, p := range []int{1 << 14, 1 << 15, 1 << 16, 1 << 17, 1 << 20} {
		for _, d := range []int{-400, -300, -250, -200, -160, -130, -100, 0, 1} {
			c := base(0)
			c.Outs[0].Addr = ref.Addr{Kind: ref.Byron, Net: 1, Pay: ref.Cred{Hash: ramp(28, 0x43)}, Payload: ref.Bstr(ramp(p+d, 9))}.Bytes()
			yield(FeeCase{c, 44, 155381})
			yield(FeeCase{c, 1 << 20, 1 << 40})
		}
	}
	for _, k := range []int{500, 1000, 1500, 2500} {
		c := base(0)
		for i := 0; i < k; i++ {
			c.Ins = append(c.Ins, someIn(i))
			c.Outs = append(c.Outs, someOut(i))
		}
		c.Keys = k / 10
		yield(FeeCase{c, 44, 155381})
	}
	// sizes one byte apart
	for n := 0; n <= core.Pick(r, 300, 2000); n++ {
		c := base(0)
		c.Meta = -1
		c.Outs[0].Addr = ref.Addr{Kind: ref.Byron, Net: 1, Pay: ref.Cred{Hash: ramp(28, 0x43)}, Payload: ref.Bstr(ramp(n, 9))}.Bytes()
		yield(FeeCase{c, 44, 155381})
		yield(FeeCase{c, 1, 0})
	}
}

func init() {
	core.Register(&core.Prop{ID: "C16", Level: "model_checking", Subs: []core.Sub{
		core.S[ChangeCase]{N: "excess", Gen: genChange, Check: checkChange, Batch: 32},
		core.S[ChangeCase]{N: "modes", Gen: genModes, Check: checkChange, Batch: 32},
		histSub("histories", aChange, chgOps, []int{1}, 5, 6)},
		Exhaustive:  "every excess of inputs over outputs in a window around the fee and around every amount width, for shapes, change addresses, metadata and parameters, and all histories of builder operations to the depth bound",
		Assumptions: []string{"sums of amounts stay below 2^64"}})
	core.Register(&core.Prop{ID: "C17", Level: "model_checking", Subs: []core.Sub{
		core.S[ChangeCase]{N: "fee-cover", Gen: genCover, Check: checkCover, Batch: 32},
		core.S[ChangeCase]{N: "modes", Gen: genModes, Check: checkCover, Batch: 32},
		histSub("histories", aCover, chgOps, []int{0, 2}, 5, 5)},
		Exhaustive:  "all counts of inputs, outputs and keys to the bound, every change address kind, metadata shape and parameter pair, every excess and every fee in a window around each width boundary, and all histories of builder operations to the depth bound",
		Assumptions: []string{"at most one signing key is added after the change (the builder counts on one witness at least)", "slack allowed above the minimum: 16 bytes, when change was added and a key is known"}})
	core.Register(&core.Prop{ID: "C18", Level: "model_checking", Subs: []core.Sub{
		core.S[FeeCase]{N: "linear-fee", Gen: genFee, Check: checkFee, Batch: 64},
		featureSub(aFee),
		histSub("histories", aFee, bodyOps, []int{1}, 4, 5)},
		Exhaustive:  "the product of boundary fee parameters with transactions of every feature, all sizes byte by byte in a window, and all histories of builder operations to the depth bound",
		Assumptions: []string{"the product does not exceed 64 bits"}})
}
