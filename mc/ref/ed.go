package ref

import (
	"crypto/hmac"
	"crypto/pbkdf2"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"math/big"
	"sync"
)

// Edwards25519 with big integers, extended coordinates, no cleverness.

// P is the field prime, L the group order, D the curve constant.
var (
	P     = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	L, _  = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	D     = new(big.Int).Mod(new(big.Int).Mul(big.NewInt(-121665), new(big.Int).ModInverse(big.NewInt(121666), P)), P)
	SqM1  = new(big.Int).Exp(big.NewInt(2), new(big.Int).Rsh(new(big.Int).Sub(P, big.NewInt(1)), 2), P)
	two   = big.NewInt(2)
	one   = big.NewInt(1)
	pows  []Pt
	powsO sync.Once
)

// Pt is a point in extended coordinates.
type Pt struct{ X, Y, Z, T *big.Int }

// Zero is the neutral element.
func Zero() Pt { return Pt{big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)} }

func mulm(a, b *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, P) }
func subm(a, b *big.Int) *big.Int { r := new(big.Int).Sub(a, b); return r.Mod(r, P) }
func addm(a, b *big.Int) *big.Int { r := new(big.Int).Add(a, b); return r.Mod(r, P) }

// Add adds points (complete formulas for a = -1).
func Add(p, q Pt) Pt {
	a := mulm(subm(p.Y, p.X), subm(q.Y, q.X))
	b := mulm(addm(p.Y, p.X), addm(q.Y, q.X))
	c := mulm(mulm(p.T, q.T), mulm(D, two))
	d := mulm(mulm(p.Z, q.Z), two)
	e, f, g, h := subm(b, a), subm(d, c), addm(d, c), addm(b, a)
	return Pt{mulm(e, f), mulm(g, h), mulm(f, g), mulm(e, h)}
}

// Neg negates.
func Neg(p Pt) Pt { return Pt{subm(big.NewInt(0), p.X), p.Y, p.Z, subm(big.NewInt(0), p.T)} }

// Mul is double-and-add.
func Mul(k *big.Int, p Pt) Pt {
	r := Zero()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = Add(r, r)
		if k.Bit(i) == 1 {
			r = Add(r, p)
		}
	}
	return r
}

// B is the base point: y = 4/5, x even.
func B() Pt {
	y := mulm(big.NewInt(4), new(big.Int).ModInverse(big.NewInt(5), P))
	x, ok := recoverX(y, 0)
	if !ok {
		panic("base point")
	}
	return Pt{x, y, big.NewInt(1), mulm(x, y)}
}

// MulB multiplies the base point, with a table of [d*256^i]B (itself made by plain additions).
func MulB(k *big.Int) Pt {
	powsO.Do(func() {
		p := B()
		for i := 0; i < 33; i++ {
			q := Zero()
			for d := 0; d < 256; d++ {
				pows = append(pows, q)
				q = Add(q, p)
			}
			p = q
		}
	})
	r := Zero()
	be := k.Bytes()
	for i := range be {
		if d := be[len(be)-1-i]; d != 0 {
			r = Add(r, pows[256*i+int(d)])
		}
	}
	return r
}

func recoverX(y *big.Int, sign uint) (*big.Int, bool) {
	y2 := mulm(y, y)
	u := subm(y2, one)
	v := addm(mulm(D, y2), one)
	x2 := mulm(u, new(big.Int).ModInverse(v, P))
	// candidate root: x2^((p+3)/8)
	x := new(big.Int).Exp(x2, new(big.Int).Rsh(new(big.Int).Add(P, big.NewInt(3)), 3), P)
	if mulm(x, x).Cmp(x2) != 0 {
		x = mulm(x, SqM1)
	}
	if mulm(x, x).Cmp(x2) != 0 {
		return nil, false
	}
	if x.Bit(0) != sign {
		x = subm(big.NewInt(0), x)
	}
	return x, true
}

// Affine gives x and y.
func (p Pt) Affine() (x, y *big.Int) {
	zi := new(big.Int).ModInverse(p.Z, P)
	return mulm(p.X, zi), mulm(p.Y, zi)
}

// Enc encodes a point.
func (p Pt) Enc() [32]byte {
	x, y := p.Affine()
	out := LE32(y)
	out[31] |= byte(x.Bit(0)) << 7
	return out
}

// DecPt decodes a point encoding the way ref10 does: y is taken modulo p, and a wrong sign of x=0 is accepted.
func DecPt(b [32]byte) (Pt, bool) {
	sign := uint(b[31] >> 7)
	b[31] &= 127
	y := new(big.Int).Mod(FromLE(b[:]), P)
	x, ok := recoverX(y, sign)
	if !ok {
		return Pt{}, false
	}
	return Pt{x, y, big.NewInt(1), mulm(x, y)}, true
}

// FromLE reads little endian.
func FromLE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

// LE32 writes 32 bytes little endian.
func LE32(n *big.Int) (out [32]byte) {
	b := n.Bytes()
	if len(b) > 32 {
		panic("LE32 overflow")
	}
	for i := range b {
		out[i] = b[len(b)-1-i]
	}
	return
}

// PublicOf is [kL]B.
func PublicOf(xprv []byte) [32]byte { return MulB(FromLE(xprv[:32])).Enc() }

// Derive is BIP32-Ed25519 V2 private derivation (kL, kR, c) -> child.
func Derive(xprv []byte, index uint32) []byte {
	kl, kr, cc := xprv[:32], xprv[32:64], xprv[64:96]
	idx := binary.LittleEndian.AppendUint32(nil, index)
	var zin, iin []byte
	if index >= 1<<31 {
		zin = append(append(append([]byte{0}, kl...), kr...), idx...)
		iin = append(append(append([]byte{1}, kl...), kr...), idx...)
	} else {
		pk := PublicOf(xprv)
		zin = append(append([]byte{2}, pk[:]...), idx...)
		iin = append(append([]byte{3}, pk[:]...), idx...)
	}
	z, c := hm(cc, zin), hm(cc, iin)
	m256 := new(big.Int).Lsh(one, 256)
	nl := new(big.Int).Add(FromLE(kl), new(big.Int).Mul(big.NewInt(8), FromLE(z[:28])))
	nr := new(big.Int).Add(FromLE(kr), FromLE(z[32:64]))
	l, r := LE32(nl.Mod(nl, m256)), LE32(nr.Mod(nr, m256))
	return append(append(append([]byte{}, l[:]...), r[:]...), c[32:64]...)
}

func hm(key, msg []byte) []byte {
	h := hmac.New(sha512.New, key)
	h.Write(msg)
	return h.Sum(nil)
}

// Sign is the extended-key Ed25519 signature.
func Sign(xprv, msg []byte) []byte {
	pk := PublicOf(xprv)
	h := sha512.Sum512(append(append([]byte{}, xprv[32:64]...), msg...))
	r := new(big.Int).Mod(FromLE(h[:]), L)
	R := MulB(r).Enc()
	k := sha512.Sum512(append(append(append([]byte{}, R[:]...), pk[:]...), msg...))
	s := new(big.Int).Mul(new(big.Int).Mod(FromLE(k[:]), L), FromLE(xprv[:32]))
	s.Add(s, r).Mod(s, L)
	sb := LE32(s)
	return append(append([]byte{}, R[:]...), sb[:]...)
}

// RootFromEntropy is the Icarus master key.
func RootFromEntropy(entropy, password []byte) []byte {
	k, err := pbkdf2.Key(sha512.New, string(password), entropy, 4096, 96)
	if err != nil {
		panic(err)
	}
	k[0] &= 0xf8
	k[31] &= 0x1f
	k[31] |= 0x40
	return k
}

// RootFromSeed is the BIP32-Ed25519 paper's master key with the third-highest bit forced to zero.
func RootFromSeed(seed []byte) []byte {
	k := sha512.Sum512(seed)
	k[0] &^= 7
	k[31] &^= 0x80 | 0x20
	k[31] |= 0x40
	c := sha256.Sum256(append([]byte{1}, seed...))
	return append(k[:], c[:]...)
}
