//go:build !nocurve

package props

import (
	"math/big"

	ed "github.com/fivebinaries/go-cardano-serialization/crypto/edwards25519"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/core"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/ref"
)

// limb offsets of the 25.5-bit representation
var limbBits = [10]uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}

func feVal(f *ed.FieldElement) *big.Int {
	r := new(big.Int)
	for i, x := range f {
		t := big.NewInt(int64(x))
		r.Add(r, t.Lsh(t, limbBits[i]))
	}
	return r.Mod(r, ref.P)
}

// Fes is a pair of field elements by limbs.
type Fes struct{ F, G [10]int32 }

func limbMax(i int, num, den int64, evenBits uint) int32 {
	b := evenBits
	if i%2 == 1 {
		b--
	}
	return int32((int64(1) << b) * num / den)
}

func feFrom(n *big.Int) (out [10]int32) {
	// 26/25-bit unsigned limbs of a value below 2^255
	for i := 0; i < 10; i++ {
		w := uint(26)
		if i%2 == 1 {
			w = 25
		}
		t := new(big.Int).Rsh(n, limbBits[i])
		t.And(t, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), w), big.NewInt(1)))
		out[i] = int32(t.Int64())
	}
	return
}

func big1(k int, d int64) *big.Int {
	return new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), uint(k)), big.NewInt(d))
}

// fieldValues are integers below 2^255 around all interesting boundaries.
func fieldValues(all bool) (out []*big.Int) {
	seen := map[string]bool{}
	lim := big1(255, 0)
	add := func(n *big.Int) {
		if n.Sign() < 0 || n.Cmp(lim) >= 0 || seen[n.String()] {
			return
		}
		seen[n.String()] = true
		out = append(out, n)
	}
	for d := int64(0); d <= 20; d++ {
		add(big.NewInt(d))
		add(new(big.Int).Sub(ref.P, big.NewInt(d)))
		add(new(big.Int).Add(ref.P, big.NewInt(d)))
	}
	add(ref.D)
	add(ref.SqM1)
	add(new(big.Int).Rsh(ref.P, 1))
	for k := 0; k < 255; k++ {
		if all || k%8 == 0 || k%25 < 3 {
			add(big1(k, 0))
			add(big1(k, -1))
			if all {
				add(big1(k, 1))
				add(new(big.Int).Sub(ref.P, big1(k, 0)))
			}
		}
	}
	for i := 0; i < 10; i++ {
		// one full limb, all limbs but one
		m := new(big.Int).Lsh(big.NewInt(1<<25-1), limbBits[i])
		add(m)
		add(new(big.Int).Sub(big1(255, -1), m))
	}
	for i := 0; i < 40; i++ {
		add(ref.FromLE(ramp(31, byte(i*11))))
	}
	return
}

func genFes(r *core.Run, yield func(Fes)) {
	vals := fieldValues(r.Thorough())
	r.Param("field.boundary_values", len(vals))
	for _, a := range vals {
		for _, b := range vals {
			yield(Fes{feFrom(a), feFrom(b)})
		}
	}
	// signed limb patterns at the documented bounds (1.1*2^26, 1.1*2^25): all sign patterns of one operand
	pat := func(k int, num, den int64, bits uint) (f [10]int32) {
		for i := 0; i < 10; i++ {
			m := limbMax(i, num, den, bits)
			switch k % 3 {
			case 1:
				f[i] = m
			case 2:
				f[i] = -m
			}
			k /= 3
		}
		return
	}
	others := []int{0, 29524, 59048, 1, 3, 9, 27, 81, 243, 729, 2187, 6561, 19683, 44287, 14762}
	if !r.Thorough() {
		others = others[:5]
	}
	for k := 0; k < 59049; k++ {
		for _, o := range others {
			yield(Fes{pat(k, 11, 10, 26), pat(o, 11, 10, 26)})
		}
		yield(Fes{pat(k, 11, 10, 25), pat(59048-k, 11, 10, 25)})
	}
	// single limbs at every power of two and sign, pairwise
	for i := 0; i < 10; i++ {
		for j := 0; j < 10; j++ {
			for a := uint(0); a < 26; a += 5 {
				for b := uint(0); b < 26; b += 5 {
					var f, g [10]int32
					f[i], g[j] = 1<<a, -(1 << b)
					yield(Fes{f, g})
					f[i] = -f[i]
					yield(Fes{f, g})
				}
			}
		}
	}
}

func within(f *[10]int32, num, den int64, bits uint) bool {
	for i, x := range f {
		m := limbMax(i, num, den, bits)
		if x > m || x < -m {
			return false
		}
	}
	return true
}

func checkFes(c Fes, n *core.Counter) error {
	f, g := ed.FieldElement(c.F), ed.FieldElement(c.G)
	fv, gv := feVal(&f), feVal(&g)
	eq := func(op string, h *ed.FieldElement, want *big.Int) error {
		n.Op(1)
		want = new(big.Int).Mod(want, ref.P)
		if feVal(h).Cmp(want) != 0 {
			return errf("%s of %v, %v is %v, want %v", op, c.F, c.G, feVal(h), want)
		}
		return nil
	}
	var h ed.FieldElement
	mul := within(&c.F, 11, 10, 26) && within(&c.G, 11, 10, 26)
	small := within(&c.F, 11, 10, 25) && within(&c.G, 11, 10, 25)
	if mul {
		want := new(big.Int).Mul(fv, gv)
		ed.FeMul(&h, &f, &g)
		if err := eq("product", &h, want); err != nil {
			return err
		}
		hb := [10]int32(h)
		if !within(&hb, 101, 100, 25) {
			return errf("product of %v, %v has limbs out of bounds: %v", c.F, c.G, h)
		}
		x := f
		ed.FeMul(&x, &x, &g)
		if x != h {
			return errf("product depends on aliasing of its first operand: %v %v", c.F, c.G)
		}
		x = g
		ed.FeMul(&x, &f, &x)
		if x != h {
			return errf("product depends on aliasing of its second operand: %v %v", c.F, c.G)
		}
		sq := new(big.Int).Mul(fv, fv)
		ed.FeSquare(&h, &f)
		if err := eq("square", &h, sq); err != nil {
			return err
		}
		x = f
		ed.FeSquare(&x, &x)
		if x != h {
			return errf("square depends on aliasing: %v", c.F)
		}
		ed.FeSquare2(&h, &f)
		if err := eq("double square", &h, new(big.Int).Lsh(sq, 1)); err != nil {
			return err
		}
		// canonical encoding of the result
		if err := toBytes(&h, n); err != nil {
			return err
		}
	}
	if small {
		ed.FeAdd(&h, &f, &g)
		if err := eq("sum", &h, new(big.Int).Add(fv, gv)); err != nil {
			return err
		}
		ed.FeSub(&h, &f, &g)
		if err := eq("difference", &h, new(big.Int).Sub(fv, gv)); err != nil {
			return err
		}
		ed.FeNeg(&h, &f)
		if err := eq("negation", &h, new(big.Int).Neg(fv)); err != nil {
			return err
		}
		if err := toBytes(&f, n); err != nil {
			return err
		}
	}
	h = f
	ed.FeCMove(&h, &g, 0)
	if h != f {
		return errf("conditional move with 0 moved")
	}
	ed.FeCMove(&h, &g, 1)
	if h != g {
		return errf("conditional move with 1 did not move")
	}
	ed.FeCopy(&h, &f)
	if h != f {
		return errf("copy differs")
	}
	ed.FeZero(&h)
	var z ed.FieldElement
	if h != z {
		return errf("zero is %v", h)
	}
	ed.FeOne(&h)
	z[0] = 1
	if h != z {
		return errf("one is %v", h)
	}
	return nil
}

func toBytes(f *ed.FieldElement, n *core.Counter) error {
	v := feVal(f)
	var s [32]byte
	keep := *f
	ed.FeToBytes(&s, f)
	n.Op(3)
	want := ref.LE32(v)
	if s != want {
		return errf("encoding of %v is %x, want %x", keep, s, want)
	}
	n.State(s[:])
	*f = keep
	if got := ed.FeIsNegative(f); got != byte(v.Bit(0)) {
		return errf("IsNegative(%v) = %d", v, got)
	}
	*f = keep
	if got := ed.FeIsNonZero(f); (got == 1) != (v.Sign() != 0) || got > 1 || got < 0 {
		return errf("IsNonZero(%v) = %d", v, got)
	}
	*f = keep
	var back ed.FieldElement
	ed.FeFromBytes(&back, &s)
	if feVal(&back).Cmp(v) != 0 {
		return errf("%x decodes to %v, want %v", s, feVal(&back), v)
	}
	return nil
}

// Num is an integer in decimal.
type Num string

func (x Num) big() *big.Int { b, _ := new(big.Int).SetString(string(x), 10); return b }

func genFe1(r *core.Run, yield func(Num)) {
	for _, v := range fieldValues(true) {
		yield(Num(v.String()))
	}
	for k := 0; k < core.Pick(r, 3000, 60000); k++ {
		b := ramp(32, byte(k))
		b[3], b[17], b[31] = byte(k>>8), byte(k>>3), b[31]&0x7f
		yield(Num(ref.FromLE(b).String()))
	}
}

func checkFe1(x Num, n *core.Counter) error {
	v := x.big()
	b := ref.LE32(v)
	var f, h ed.FieldElement
	ed.FeFromBytes(&f, &b)
	n.Op(1)
	if feVal(&f).Cmp(new(big.Int).Mod(v, ref.P)) != 0 {
		return errf("%x decodes to %v", b, feVal(&f))
	}
	if err := toBytes(&f, n); err != nil {
		return err
	}
	ed.FeInvert(&h, &f)
	n.Op(1)
	want := new(big.Int).Exp(v, new(big.Int).Sub(ref.P, big.NewInt(2)), ref.P)
	if feVal(&h).Cmp(want) != 0 {
		return errf("inverse of %v is %v, want %v", v, feVal(&h), want)
	}
	// the top bit of an encoding is ignored
	b[31] |= 0x80
	ed.FeFromBytes(&h, &b)
	if feVal(&h).Cmp(new(big.Int).Mod(v, ref.P)) != 0 {
		return errf("%x decodes to %v", b, feVal(&h))
	}
	return nil
}

// ---- scalars ----

func scalarValues(bits int) (out []*big.Int) {
	seen := map[string]bool{}
	lim := big1(bits, 0)
	add := func(n *big.Int) {
		if n.Sign() < 0 || n.Cmp(lim) >= 0 || seen[n.String()] {
			return
		}
		seen[n.String()] = true
		out = append(out, n)
	}
	for k := int64(0); k < 18; k++ {
		for d := int64(-2); d <= 2; d++ {
			add(new(big.Int).Add(new(big.Int).Mul(ref.L, big.NewInt(k)), big.NewInt(d)))
		}
	}
	for k := 0; k <= bits; k += 21 {
		add(big1(k, 0))
		add(big1(k, -1))
	}
	add(big1(252, 0))
	add(big1(252, -1))
	add(big1(253, 0))
	add(big1(255, -1))
	add(big1(255, 0))
	add(big1(bits, -1))
	add(ref.FromLE(ramp(bits/8, 0x35)))
	add(ref.FromLE(ramp(bits/8, 0xd1)))
	return
}

func genReduce(r *core.Run, yield func(Num)) {
	for _, v := range scalarValues(512) {
		yield(Num(v.String()))
	}
	for k := 0; k <= 512; k++ {
		for d := int64(-2); d <= 2; d++ {
			v := big1(k, d)
			if v.Sign() >= 0 && v.BitLen() <= 512 {
				yield(Num(v.String()))
			}
		}
	}
	// multiples of L at every magnitude
	for k := 0; k < 260; k++ {
		for d := int64(-2); d <= 2; d++ {
			for _, m := range []*big.Int{big1(k, 0), big1(k, -1), big1(k, 1)} {
				v := new(big.Int).Mul(m, ref.L)
				v.Add(v, big.NewInt(d))
				if v.Sign() >= 0 && v.BitLen() <= 512 {
					yield(Num(v.String()))
				}
			}
		}
	}
	// every byte at every position
	for i := 0; i < 64; i++ {
		for x := 0; x < 256; x++ {
			b := ramp(64, 0x51)
			b[i] = byte(x)
			yield(Num(ref.FromLE(b).String()))
			b = fill(64, 0)
			b[i] = byte(x)
			yield(Num(ref.FromLE(b).String()))
			b = fill(64, 0xff)
			b[i] = byte(x)
			yield(Num(ref.FromLE(b).String()))
		}
	}
	// limb patterns: every subset of the 24 21-bit limbs that is an interval, full and minimal
	for lo := 0; lo < 25; lo++ {
		for hi := lo + 1; hi <= 25; hi++ {
			v := new(big.Int).Sub(big1(min(hi*21, 512), 0), big1(min(lo*21, 512), 0))
			yield(Num(v.String()))
			yield(Num(new(big.Int).Sub(big1(512, -1), v).String()))
		}
	}
	for k := 0; k < core.Pick(r, 1<<16, 1<<20); k++ {
		v := new(big.Int)
		for i := 0; i < 24; i++ {
			if k>>(i%16)&1 == 1 {
				v.Or(v, new(big.Int).Lsh(big.NewInt(1<<21-1), uint(21*i)))
			}
		}
		yield(Num(v.String()))
	}
}

func checkReduce(x Num, n *core.Counter) error {
	v := x.big()
	lo := ref.LE32(new(big.Int).And(v, big1(256, -1)))
	hi := ref.LE32(new(big.Int).Rsh(v, 256))
	var in [64]byte
	copy(in[:], lo[:])
	copy(in[32:], hi[:])
	keep := in
	var out [32]byte
	ed.ScReduce(&out, &in)
	n.Op(1)
	want := ref.LE32(new(big.Int).Mod(v, ref.L))
	n.State(want[:])
	if out != want {
		return errf("%v mod L is %x, want %x", v, out, want)
	}
	if in != keep {
		return errf("reduction altered its input")
	}
	return nil
}

// Tri is a triple of scalars.
type Tri struct{ A, B, C Num }

func genMulAdd(r *core.Run, yield func(Tri)) {
	vals := scalarValues(256)
	r.Param("scalars.boundary_values", len(vals))
	step := core.Pick(r, 3, 1)
	for i, a := range vals {
		for j, b := range vals {
			for k, c := range vals {
				if (i+j+k)%step == 0 {
					yield(Tri{Num(a.String()), Num(b.String()), Num(c.String())})
				}
			}
		}
	}
	for i := 0; i < 256; i++ {
		for j := 0; j < 256; j += core.Pick(r, 5, 1) {
			yield(Tri{Num(big1(i, 0).String()), Num(big1(j, 0).String()), "0"})
			yield(Tri{Num(big1(i, -1).String()), Num(big1(j, -1).String()), Num(big1(256, -1).String())})
		}
	}
}

func checkMulAdd(t Tri, n *core.Counter) error {
	av, bv, cv := t.A.big(), t.B.big(), t.C.big()
	a, b, c := ref.LE32(av), ref.LE32(bv), ref.LE32(cv)
	var s [32]byte
	ed.ScMulAdd(&s, &a, &b, &c)
	n.Op(1)
	w := new(big.Int).Mul(av, bv)
	w.Add(w, cv).Mod(w, ref.L)
	want := ref.LE32(w)
	n.State(want[:])
	if s != want {
		return errf("%v*%v+%v mod L is %x, want %x", av, bv, cv, s, want)
	}
	if ref.LE32(av) != a || ref.LE32(bv) != b || ref.LE32(cv) != c {
		return errf("multiply-add altered an operand")
	}
	// the output may alias any operand, as signing uses it
	s = a
	ed.ScMulAdd(&s, &s, &b, &c)
	if s != want {
		return errf("multiply-add with aliased output is %x, want %x", s, want)
	}
	return nil
}

func genMinimal(r *core.Run, yield func(Num)) {
	genReduce(r, func(x Num) {
		if x.big().BitLen() <= 256 {
			yield(x)
		}
	})
	for _, base := range []*big.Int{ref.L, big1(252, 0), big1(64, 0), big1(128, 0), big1(192, 0), new(big.Int).Add(big1(252, 0), big1(128, 0))} {
		for d := int64(-600); d <= 600; d++ {
			v := new(big.Int).Add(base, big.NewInt(d))
			yield(Num(v.String()))
		}
	}
	for k := 0; k < 256; k++ {
		yield(Num(new(big.Int).Xor(ref.L, big1(k, 0)).String()))
		for j := 0; j < k; j++ {
			yield(Num(new(big.Int).Xor(new(big.Int).Xor(ref.L, big1(k, 0)), big1(j, 0)).String()))
		}
	}
}

func checkMinimal(x Num, n *core.Counter) error {
	v := x.big()
	b := ref.LE32(v)
	n.Op(1)
	n.State(b[:])
	if ed.ScMinimal(&b) != (v.Cmp(ref.L) < 0) {
		return errf("ScMinimal(%v) is %v", v, ed.ScMinimal(&b))
	}
	return nil
}

// ---- points ----

func genBase(r *core.Run, yield func(Num)) {
	y := func(v *big.Int) {
		if v.Sign() >= 0 && v.BitLen() <= 255 {
			yield(Num(v.String()))
		}
	}
	// every table entry: each digit at each position, alone
	for i := 0; i < 64; i++ {
		for d := int64(0); d < 16; d++ {
			y(new(big.Int).Lsh(big.NewInt(d), uint(4*i)))
		}
	}
	// every pair of digits at neighbouring positions, with and without a carry from below
	for i := 0; i < 63; i++ {
		for d := int64(0); d < 256; d += core.Pick(r, int64(3), int64(1)) {
			v := new(big.Int).Lsh(big.NewInt(d), uint(4*i))
			y(v)
			y(new(big.Int).Add(v, big1(4*i, -1)))
		}
	}
	for _, v := range scalarValues(255) {
		y(v)
	}
	for k := 0; k < 256; k++ {
		y(big1(k, -1))
		y(big1(k, 1))
		y(new(big.Int).Sub(big1(255, -1), big1(k, -1)))
	}
	for k := int64(0); k < core.Pick(r, int64(2000), int64(60000)); k++ {
		y(big.NewInt(k))
	}
}

func checkBase(x Num, n *core.Counter) error {
	v := x.big()
	a := ref.LE32(v)
	keep := a
	var h ed.ExtendedGroupElement
	ed.GeScalarMultBase(&h, &a)
	n.Op(2)
	if a != keep {
		return errf("multiplication altered its scalar")
	}
	want := ref.MulB(v)
	we := want.Enc()
	n.State(we[:])
	var s [32]byte
	h.ToBytes(&s)
	if s != we {
		return errf("[%v]B is %x, want %x", v, s, we)
	}
	// T coordinate: X*Y = Z*T
	l := new(big.Int).Mul(feVal(&h.X), feVal(&h.Y))
	rr := new(big.Int).Mul(feVal(&h.Z), feVal(&h.T))
	if l.Sub(l, rr).Mod(l, ref.P).Sign() != 0 {
		return errf("[%v]B has inconsistent coordinates", v)
	}
	// projective form and doubling
	var p ed.ProjectiveGroupElement
	var c ed.CompletedGroupElement
	var e2 ed.ExtendedGroupElement
	h.ToProjective(&p)
	p.ToBytes(&s)
	if s != we {
		return errf("projective [%v]B is %x, want %x", v, s, we)
	}
	h.Double(&c)
	c.ToExtended(&e2)
	e2.ToBytes(&s)
	w2 := ref.Add(want, want).Enc()
	if s != w2 {
		return errf("doubling of [%v]B is %x, want %x", v, s, w2)
	}
	c.ToProjective(&p)
	p.ToBytes(&s)
	if s != w2 {
		return errf("projective doubling of [%v]B is %x, want %x", v, s, w2)
	}
	n.Op(4)
	// decoding is inverse
	var back ed.ExtendedGroupElement
	if !back.FromBytes(&we) {
		return errf("the encoding %x of [%v]B is refused", we, v)
	}
	back.ToBytes(&s)
	if s != we {
		return errf("%x decodes and encodes to %x", we, s)
	}
	return nil
}

func genPoints(r *core.Run, yield func(HB)) {
	y := func(v *big.Int) {
		if v.Sign() < 0 || v.Cmp(ref.P) >= 0 {
			return // non-canonical y: ref10 reduces it, no position taken
		}
		b := ref.LE32(v)
		yield(clone(b[:]))
		b[31] |= 0x80
		yield(clone(b[:]))
	}
	for k := int64(0); k < core.Pick(r, int64(4000), int64(60000)); k++ {
		y(big.NewInt(k))
		y(new(big.Int).Sub(ref.P, big.NewInt(k)))
	}
	for _, v := range fieldValues(true) {
		y(v)
	}
	for k := 0; k < core.Pick(r, 3000, 60000); k++ {
		b := ramp(32, byte(k))
		b[5], b[9], b[31] = byte(k>>8), byte(k), b[31]&0x7f
		y(ref.FromLE(b))
	}
}

func checkPoint(c HB, n *core.Counter) error {
	var b [32]byte
	copy(b[:], c)
	keep := b
	pt, ok := ref.DecPt(b)
	var p ed.ExtendedGroupElement
	got := p.FromBytes(&b)
	n.Op(1)
	if b != keep {
		return errf("decoding altered its input")
	}
	if ok && b[31]>>7 == 1 {
		if x, _ := pt.Affine(); x.Sign() == 0 {
			n.Outcome("x=0 with sign: no position")
			return nil
		}
	}
	if got != ok {
		return errf("point %x: accepted %v, want %v", []byte(c), got, ok)
	}
	if !ok {
		n.Outcome("refused")
		return nil
	}
	n.Outcome("accepted")
	n.State(c)
	x, y := pt.Affine()
	if feVal(&p.X).Cmp(x) != 0 || feVal(&p.Y).Cmp(y) != 0 || feVal(&p.Z).Cmp(big.NewInt(1)) != 0 || feVal(&p.T).Cmp(new(big.Int).Mod(new(big.Int).Mul(x, y), ref.P)) != 0 {
		return errf("%x decodes to x=%v y=%v", []byte(c), feVal(&p.X), feVal(&p.Y))
	}
	var s [32]byte
	p.ToBytes(&s)
	n.Op(1)
	if s != keep {
		return errf("%x decodes and encodes to %x", []byte(c), s)
	}
	return nil
}

// Dbl is a double-scalar multiplication: a*[p]B + b*B.
type Dbl struct {
	A, P, B Num
}

func genDouble(r *core.Run, yield func(Dbl)) {
	var sc []*big.Int
	for _, v := range scalarValues(253) {
		sc = append(sc, v)
	}
	if !r.Thorough() {
		sc = sc[:min(40, len(sc))]
	}
	ps := []Num{"1", "2", "7", "0", Num(new(big.Int).Sub(ref.L, big.NewInt(1)).String()), Num(ref.FromLE(ramp(31, 3)).String())}
	for i, a := range sc {
		for j, b := range sc {
			yield(Dbl{Num(a.String()), ps[(i+j)%len(ps)], Num(b.String())})
		}
	}
	// every sliding-window digit at many offsets
	for off := 0; off < 248; off += core.Pick(r, 9, 1) {
		for d := int64(1); d < 64; d += 2 {
			v := new(big.Int).Lsh(big.NewInt(d), uint(off))
			if v.BitLen() > 253 {
				continue
			}
			yield(Dbl{Num(v.String()), "5", "0"})
			yield(Dbl{"0", "5", Num(v.String())})
		}
	}
}

func checkDouble(c Dbl, n *core.Counter) error {
	av, pv, bv := c.A.big(), c.P.big(), c.B.big()
	P := ref.MulB(pv)
	pe := P.Enc()
	var A ed.ExtendedGroupElement
	if !A.FromBytes(&pe) {
		return errf("point %x refused", pe)
	}
	a, b := ref.LE32(av), ref.LE32(bv)
	var r ed.ProjectiveGroupElement
	ed.GeDoubleScalarMultVartime(&r, &a, &A, &b)
	n.Op(1)
	var s [32]byte
	r.ToBytes(&s)
	want := ref.MulB(new(big.Int).Mod(new(big.Int).Add(new(big.Int).Mul(av, pv), bv), ref.L)).Enc()
	n.State(want[:])
	if s != want {
		return errf("%v*[%v]B + %v*B is %x, want %x", av, pv, bv, s, want)
	}
	if ref.LE32(av) != a || ref.LE32(bv) != b {
		return errf("multiplication altered a scalar")
	}
	A.ToBytes(&s)
	if s != pe {
		return errf("multiplication altered its point")
	}
	return nil
}

func init() {
	core.Register(&core.Prop{ID: "C10", Level: "model_checking", Subs: []core.Sub{
		core.S[Fes]{N: "field-pairs", Gen: genFes, Check: checkFes},
		core.S[Num]{N: "field-inverse", Gen: genFe1, Check: checkFe1, Batch: 32},
		core.S[Num]{N: "scalar-reduce", Gen: genReduce, Check: checkReduce},
		core.S[Tri]{N: "scalar-muladd", Gen: genMulAdd, Check: checkMulAdd},
		core.S[Num]{N: "scalar-minimal", Gen: genMinimal, Check: checkMinimal},
		core.S[Num]{N: "fixed-base", Gen: genBase, Check: checkBase, Batch: 16},
		core.S[HB]{N: "point-codec", Gen: genPoints, Check: checkPoint, Batch: 32},
		core.S[Dbl]{N: "double-scalar", Gen: genDouble, Check: checkDouble, Batch: 8}},
		Exhaustive:  "all pairs of boundary field values, all 3^10 limb sign patterns at the documented bounds; boundary scalars, all multiples of L at every magnitude, limb patterns; every digit of every position of the fixed-base table; sliding-window digits",
		Assumptions: []string{"limbs stay within the documented bounds, fixed-base scalars below 2^255, double-scalar ones below 2^253", "non-canonical y coordinates and x=0 with the sign bit set: no position taken (ref10 accepts them)"}})
}
