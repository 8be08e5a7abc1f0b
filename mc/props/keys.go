package props

import (
	"bytes"
	"crypto/ed25519"
	"encoding/binary"

	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/core"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/ref"
)

// boundaryIndexes: path indices around every boundary.
func boundaryIndexes() []uint32 {
	out := []uint32{0, 1, 2, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x80000000 + 1852, 0x80000000 + 1815, 0x01020304, 0xff, 0x100}
	return out
}

// bitIndexes: every single-bit index, its neighbours and complements.
func bitIndexes() (out []uint32) {
	seen := map[uint32]bool{}
	add := func(x uint32) {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	for i := 0; i < 32; i++ {
		add(1 << i)
		add(1<<i - 1)
		add(1<<i + 1)
		add(^uint32(1 << i))
		add(0x80000000 | 1<<i)
		for j := 0; j < i; j++ {
			add(1<<i | 1<<j)
		}
	}
	for k := uint32(0); k < 300; k++ {
		add(k)
		add(0x80000000 + k)
		add(0x7fffffff - k)
		add(0xffffffff - k)
	}
	return
}

// roots are parents: real roots and crafted ones that force carries.
func roots() (out []HB) {
	for i := 0; i < 4; i++ {
		out = append(out, ref.RootFromSeed(ramp(32, byte(i*37))))
	}
	out = append(out, ref.RootFromEntropy(ramp(20, 1), nil), ref.RootFromEntropy(ramp(32, 2), []byte("password")))
	mk := func(kl, kr, cc []byte) {
		kl[0] &= 0xf8
		kl[31] = kl[31]&0x1f | 0x40
		out = append(out, append(append(clone(kl), kr...), cc...))
	}
	mk(fill(32, 0xff), fill(32, 0xff), fill(32, 0xff))
	mk(fill(32, 0), fill(32, 0), fill(32, 0))
	mk(fill(32, 0xff), fill(32, 0), ramp(32, 5))
	mk(fill(32, 0), fill(32, 0xff), ramp(32, 6))
	// left halves as large as deep derivation makes them
	for k := byte(0x60); k <= 0x7f; k++ {
		kl := ramp(32, k)
		kl[0], kl[30], kl[31] = kl[0]&0xf8, 0, k
		out = append(out, append(append(kl, ramp(32, k+1)...), ramp(32, k*3)...))
	}
	// carry chains that start at each byte: low part random, bytes k..30 all ones
	for k := 1; k < 31; k++ {
		kl, kr := ramp(32, byte(k)), ramp(32, byte(k+3))
		for i := k; i < 32; i++ {
			kl[i], kr[i] = 0xff, 0xff
		}
		mk(kl, kr, ramp(32, byte(k*5)))
	}
	return
}

// ---- C07 ----

// Path is a root and a derivation path.
type Path struct {
	Root HB
	Path []uint32
}

func genDerive(r *core.Run, yield func(Path)) {
	rs := roots()
	for k, root := range rs {
		yield(Path{root, nil})
		for j, i := range bitIndexes() {
			if k < 12 || r.Thorough() || j%8 == k%8 {
				yield(Path{root, []uint32{i}})
			}
		}
		for i := uint32(0); i < core.Pick(r, uint32(2000), uint32(100000)); i++ {
			yield(Path{root, []uint32{0x80000000 + i*2654435761%0x80000000}})
		}
	}
	// all paths over boundary indices
	idx := boundaryIndexes()
	depth := core.Pick(r, 3, 4)
	r.Param("paths.depth", depth)
	r.Param("paths.indices", len(idx))
	for _, root := range rs[:core.Pick(r, 2, 4)] {
		for d := 1; d <= depth; d++ {
			p := make([]uint32, d)
			var rec func(int)
			rec = func(k int) {
				if k == d {
					yield(Path{root, append([]uint32{}, p...)})
					return
				}
				for _, x := range idx {
					p[k] = x
					rec(k + 1)
				}
			}
			rec(0)
		}
	}
	// CIP-1852 account paths and deep paths
	for a := uint32(0); a < core.Pick(r, uint32(8), uint32(64)); a++ {
		for role := uint32(0); role < 3; role++ {
			for i := uint32(0); i < core.Pick(r, uint32(8), uint32(64)); i++ {
				yield(Path{rs[4], []uint32{0x80000000 + 1852, 0x80000000 + 1815, 0x80000000 + a, role, i}})
			}
		}
	}
	for _, root := range rs {
		var p []uint32
		for d := uint32(0); d < core.Pick(r, uint32(12), uint32(40)); d++ {
			p = append(p, d*0x10000001^(d&1)<<31)
		}
		yield(Path{root, p})
	}
}

func checkDerive(p Path, n *core.Counter) error {
	key := bip32.XPrv(clone(p.Root))
	want := clone(p.Root)
	for i, x := range p.Path {
		key = key.Derive(x)
		want = ref.Derive(want, x)
		n.Op(1)
		// only the last step is new: shorter paths are cases of their own, except in deep paths
		if (i == len(p.Path)-1 || len(p.Path) > 5) && !bytes.Equal(key, want) {
			return errf("path %v gives %x, want %x", p.Path[:i+1], []byte(key), want)
		}
	}
	n.State(want)
	if !bytes.Equal(key, want) {
		return errf("key %x, want %x", []byte(key), want)
	}
	if !bytes.Equal(key.ChainCode(), want[64:]) {
		return errf("chain code %x, want %x", key.ChainCode(), want[64:])
	}
	if len(p.Path) == 0 || p.Path[len(p.Path)-1]&7 == 0 {
		pub := key.Public()
		pk := ref.PublicOf(want)
		n.Op(3)
		if !bytes.Equal(pub, append(clone(pk[:]), want[64:]...)) {
			return errf("public key of %x is %x, want %x%x", want, []byte(pub), pk, want[64:])
		}
		if !bytes.Equal(pub.PublicKey(), pk[:]) || !bytes.Equal(pub.ChainCode(), want[64:]) {
			return errf("parts of public key %x: %x %x", []byte(pub), []byte(pub.PublicKey()), []byte(pub.ChainCode()))
		}
		mp := bip32.MakePublicKey(want[:64])
		if mp != pk {
			return errf("MakePublicKey gives %x, want %x", mp, pk)
		}
		h := pub.PublicKey().Hash()
		if !bytes.Equal(h[:], ref.Blake2b(28, pk[:])) {
			return errf("key hash of %x is %x", pk, h)
		}
	}
	return nil
}

// KeyPair is two keys that agree in a part, used one after the other.
type KeyPair struct {
	A, B   HB
	I, J   uint32
	M1, M2 HB
}

// relatives: keys that differ from root in one byte, or share one or two of the three parts with another.
func relatives(root, other []byte) (out []HB) {
	for i := 0; i < 96; i++ {
		k := clone(root)
		switch i {
		case 0:
			k[i] ^= 0x18
		case 31:
			k[i] ^= 0x03
		default:
			k[i] ^= 0x41
		}
		out = append(out, k)
	}
	for m := 1; m < 7; m++ {
		k := clone(other)
		for part := 0; part < 3; part++ {
			if m>>part&1 == 1 {
				copy(k[part*32:part*32+32], root[part*32:])
			}
		}
		out = append(out, k)
	}
	return append(out, clone(root), clone(other))
}

func genKeyPairs(sign bool) func(*core.Run, func(KeyPair)) {
	return func(r *core.Run, yield func(KeyPair)) {
		rs := roots()
		for _, q := range [][2]int{{0, 1}, {4, 5}, {6, 7}} {
			for _, b := range relatives(rs[q[0]], rs[q[1]]) {
				for _, ij := range [][2]uint32{{0, 0}, {1 << 31, 1 << 31}, {0, 1 << 31}, {5, 6}, {1<<31 + 5, 5}} {
					if !sign {
						yield(KeyPair{A: rs[q[0]], B: b, I: ij[0], J: ij[1]})
						yield(KeyPair{A: b, B: rs[q[0]], I: ij[0], J: ij[1]})
					}
				}
				if sign {
					m := ramp(40, 3)
					for _, m2 := range [][]byte{m, m[:32], append([]byte{1}, m[1:]...), append(clone(m[:39]), 0), ramp(40, 77)} {
						yield(KeyPair{A: rs[q[0]], B: b, M1: m, M2: m2})
					}
				}
			}
		}
	}
}

func checkKeyPair(sign bool) func(KeyPair, *core.Counter) error {
	return func(c KeyPair, n *core.Counter) error {
		a, b := bip32.XPrv(clone(c.A)), bip32.XPrv(clone(c.B))
		for round := 0; round < 2; round++ {
			for _, x := range []struct {
				name string
				k    bip32.XPrv
				raw  HB
				i    uint32
				m    HB
			}{{"first", a, c.A, c.I, c.M1}, {"second", b, c.B, c.J, c.M2}} {
				n.Op(1)
				if sign {
					got := x.k.Sign(x.m)
					if want := ref.Sign(x.raw, x.m); !bytes.Equal(got[:], want) {
						return errf("round %d: signature of the %s key is %x, want %x", round, x.name, got, want)
					}
					continue
				}
				want := ref.Derive(x.raw, x.i)
				n.State(want)
				if got := x.k.Derive(x.i); !bytes.Equal(got, want) {
					return errf("round %d: child %d of the %s key is %x, want %x", round, x.i, x.name, []byte(got), want)
				}
				pk := ref.PublicOf(x.raw)
				if got := x.k.Public(); !bytes.Equal(got, append(clone(pk[:]), x.raw[64:]...)) {
					return errf("round %d: public key of the %s key is %x, want %x%x", round, x.name, []byte(got), pk, []byte(x.raw[64:]))
				}
			}
		}
		return nil
	}
}

// ---- C08 ----

// Ent is entropy and password.
type Ent struct{ E, P HB }

func genEnt(r *core.Run, yield func(Ent)) {
	elens := []int{0, 1, 12, 15, 16, 17, 20, 24, 28, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200}
	plens := []int{0, 1, 2, 8, 63, 64, 65, 111, 112, 127, 128, 129, 255, 256, 300}
	for _, e := range elens {
		for _, p := range plens {
			yield(Ent{ramp(e, byte(e)), ramp(p, byte(p+3))})
		}
	}
	for _, e := range []int{16, 20, 24, 28, 32} {
		for _, v := range []byte{0, 0x7f, 0x80, 0xff} {
			yield(Ent{fill(e, v), nil})
			yield(Ent{fill(e, v), HB("correct horse")})
		}
	}
	// the same bytes split differently between entropy and password
	all := ramp(40, 0x61)
	for k := 0; k <= 40; k++ {
		yield(Ent{all[:k], all[k:]})
	}
	// single-byte changes of entropy and password
	for i := 0; i < 32; i++ {
		e, p := ramp(32, 0x55), HB(ramp(32, 0x22))
		e[i] ^= 1
		yield(Ent{e, ramp(32, 0x22)})
		p[i] ^= 0x80
		yield(Ent{ramp(32, 0x55), p})
	}
	// passwords that a normalization would change: blanks, line ends, NUL, case, composed and broken UTF-8
	for _, base := range []string{"", "a", "Pa ss", "\u00e9", "e\u0301", "\xff\xfe"} {
		for _, x := range []string{"", " ", "  ", "\t", "\n", "\r\n", "\x00", "\x00\x00", "\u00a0", "\u200b", "\ufeff", "/", "'", "\""} {
			for _, p := range []string{base + x, x + base, x + base + x} {
				yield(Ent{ramp(16, 0x31), HB(p)})
				yield(Ent{ramp(32, 0x13), HB(p)})
			}
		}
	}
	for _, p := range []string{"password", "PASSWORD", "Password", "passworD", "\u212bngstr\u00f6m", "\ufb01", "fi", "\u0130"} {
		yield(Ent{ramp(20, 0x31), HB(p)})
	}
	// entropy with zero bytes at either end
	for z := 1; z < 16; z++ {
		for _, l := range []int{16, 20, 24, 28, 32} {
			a, b := ramp(l, 0x91), ramp(l, 0x91)
			copy(a, fill(z, 0))
			copy(b[l-z:], fill(z, 0))
			yield(Ent{a, nil})
			yield(Ent{b, nil})
		}
	}
	for k := 0; k < core.Pick(r, 700, 20000); k++ {
		e := ramp(16+4*(k%5), byte(k))
		binary.LittleEndian.PutUint16(e, uint16(k))
		yield(Ent{e, nil})
	}
}

func checkEnt(c Ent, n *core.Counter) error {
	e, ew := spare(c.E)
	p, pw := spare(c.P)
	ek, pk := clone(ew), clone(pw)
	got := bip32.FromBip39Entropy(e, p)
	n.Op(1)
	want := ref.RootFromEntropy(c.E, c.P)
	n.State(want)
	if !bytes.Equal(got, want) {
		return errf("root of entropy %x password %q is %x, want %x", []byte(c.E), []byte(c.P), []byte(got), want)
	}
	if !bytes.Equal(ek, ew) || !bytes.Equal(pk, pw) {
		return errf("entropy or password altered: %x %x", ew, pw)
	}
	if c.P == nil {
		if got := bip32.FromBip39Entropy(e, []byte{}); !bytes.Equal(got, want) {
			return errf("empty password gives %x, nil password %x", []byte(got), want)
		}
	}
	return nil
}

func genSeeds(r *core.Run, yield func(HB)) {
	for i := 0; i < 32; i++ {
		for x := 0; x < 256; x++ {
			s := ramp(32, 0x21)
			s[i] = byte(x)
			yield(s)
		}
	}
	for k := 0; k < core.Pick(r, 65536, 1<<20); k++ {
		s := fill(32, byte(k>>16))
		binary.LittleEndian.PutUint16(s[3:], uint16(k))
		yield(s)
	}
	yield(fill(32, 0))
	yield(fill(32, 0xff))
	for l := 0; l < core.Pick(r, 300, 5000); l++ {
		if l != 32 {
			yield(ramp(l, byte(l)))
		}
	}
}

func checkSeed(s HB, n *core.Counter) error {
	in, whole := spare(s)
	keep := clone(whole)
	got, err := bip32.NewXPrv(in)
	n.Op(1)
	if !bytes.Equal(whole, keep) {
		return errf("seed altered: %x became %x", keep, whole)
	}
	if len(s) != 32 {
		n.Outcome("refused")
		if err == nil {
			return errf("seed of %d bytes accepted", len(s))
		}
		return nil
	}
	n.Outcome("accepted")
	if err != nil {
		return errf("32-byte seed refused: %v", err)
	}
	want := ref.RootFromSeed(s)
	n.State(want)
	if !bytes.Equal(got, want) {
		return errf("root of seed %x is %x, want %x", []byte(s), []byte(got), want)
	}
	for i := range whole {
		whole[i] ^= 0xff
	}
	if !bytes.Equal(got, want) {
		return errf("root key changes when the seed buffer is overwritten")
	}
	clobberOwn(got) // as a careful caller does with keys no longer needed
	if got, err := bip32.NewXPrv(s); err != nil || !bytes.Equal(got, want) {
		return errf("root of seed %x, made again, is %x (%v), want %x", []byte(s), []byte(got), err, want)
	}
	return nil
}

func genClamp(r *core.Run, yield func([2]byte)) {
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			yield([2]byte{byte(a), byte(b)})
		}
	}
}

func checkClamp(c [2]byte, n *core.Counter) error {
	in := ramp(96, 0x10)
	in[0], in[31] = c[0], c[1]
	want := clone(in)
	want[0] &^= 7
	want[31] = want[31]&0x1f | 0x40
	n.Op(1)
	n.State(want)
	got := bip32.NormalizeBytesForce3rd(in)
	if !bytes.Equal(got, want) {
		return errf("clamping bytes %02x..%02x gives %x", c[0], c[1], []byte(got))
	}
	return nil
}

// ---- C09 ----

// Msg is a key and a message.
type Msg struct {
	Key HB
	Msg HB
	Alt bool // also check rejection of altered messages and keys
}

func signKeys() (out []HB) {
	rs := roots()
	out = append(out, rs[0], rs[4], rs[5], rs[6], rs[7])
	out = append(out, ref.Derive(rs[0], 0), ref.Derive(rs[0], 0x80000000), ref.Derive(ref.Derive(rs[4], 1<<31+1852), 1))
	return
}

func genMsgs(r *core.Run, yield func(Msg)) {
	ks := signKeys()
	max := core.Pick(r, 300, 1200)
	r.Param("messages.max_len", max)
	for l := 0; l <= max; l++ {
		for i, k := range ks {
			if i < 3 || l%16 == 0 || l < 4 {
				yield(Msg{k, ramp(l, byte(l)), false})
			}
		}
	}
	// long messages, around the sizes buffers tend to have
	for _, p := range []int{512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 1 << 20} {
		for d := -2; d <= 2; d++ {
			yield(Msg{ks[0], ramp(p+d, byte(d)), false})
			yield(Msg{ks[len(ks)-1], ramp(p+d, 3), false})
		}
	}
	for _, k := range ks {
		for _, v := range []byte{0, 0xff} {
			for _, l := range []int{1, 31, 32, 33, 64} {
				yield(Msg{k, fill(l, v), true})
			}
		}
		yield(Msg{k, nil, true})
		yield(Msg{k, ramp(32, 5), true})
	}
	// transaction-id sized messages under many keys: nonces and scalars of every shape
	for k := 0; k < core.Pick(r, 1500, 30000); k++ {
		m := ramp(32, byte(k))
		binary.LittleEndian.PutUint32(m, uint32(k))
		yield(Msg{ks[k%len(ks)], m, false})
	}
	// every parent, carry-forcing ones included
	for _, root := range roots() {
		yield(Msg{root, ramp(32, 7), false})
		yield(Msg{ref.Derive(root, 1<<31), ramp(32, 9), false})
	}
}

func checkSign(c Msg, n *core.Counter) error {
	key := bip32.XPrv(clone(c.Key))
	in, whole := spare(c.Msg)
	keep := clone(whole)
	sig := key.Sign(in)
	sig2 := key.Sign(in)
	n.Op(2)
	if !bytes.Equal(key, c.Key) || !bytes.Equal(whole, keep) {
		return errf("signing altered the key or message")
	}
	if sig != sig2 {
		return errf("two signatures differ: %x %x", sig, sig2)
	}
	want := ref.Sign(c.Key, c.Msg)
	n.State(want)
	if !bytes.Equal(sig[:], want) {
		return errf("signature %x, want %x", sig, want)
	}
	if ref.FromLE(sig[32:]).Cmp(ref.L) >= 0 {
		return errf("signature scalar not canonical: %x", sig)
	}
	pub := key.Public().PublicKey()
	if !ed25519.Verify(ed25519.PublicKey(pub), c.Msg, sig[:]) {
		return errf("signature %x does not verify under %x", sig, []byte(pub))
	}
	if c.Alt {
		for i := range c.Msg {
			for b := 0; b < 8; b++ {
				m := clone(c.Msg)
				m[i] ^= 1 << b
				s := key.Sign(m)
				n.Op(1)
				if s == sig {
					return errf("messages %x and %x have the same signature", []byte(c.Msg), m)
				}
				if ed25519.Verify(ed25519.PublicKey(pub), m, sig[:]) {
					return errf("signature of %x accepted for %x", []byte(c.Msg), m)
				}
			}
		}
		for _, m := range [][]byte{append(clone(c.Msg), 0), append([]byte{0}, c.Msg...)} {
			if ed25519.Verify(ed25519.PublicKey(pub), m, sig[:]) {
				return errf("signature of %x accepted for %x", []byte(c.Msg), m)
			}
			if key.Sign(m) == sig {
				return errf("messages %x and %x have the same signature", []byte(c.Msg), m)
			}
		}
		for _, other := range signKeys() {
			if bytes.Equal(other[:64], c.Key[:64]) {
				continue
			}
			opub := bip32.XPrv(clone(other)).Public().PublicKey()
			n.Op(1)
			if bytes.Equal(opub, pub) || ed25519.Verify(ed25519.PublicKey(opub), c.Msg, sig[:]) {
				return errf("signature accepted under another key %x", []byte(opub))
			}
		}
	}
	return nil
}

func init() {
	core.Register(&core.Prop{ID: "C07", Level: "model_checking", Subs: []core.Sub{core.S[Path]{N: "paths", Gen: genDerive, Check: checkDerive, Batch: 16},
		core.S[KeyPair]{N: "related-keys", Gen: genKeyPairs(false), Check: checkKeyPair(false), Batch: 16}},
		Exhaustive:  "every single- and double-bit index and 300 neighbours of each end from 40 parents (carry-forcing ones included); all paths over 12 boundary indices to the depth bound; CIP-1852 paths; deep paths",
		Assumptions: []string{"HMAC-SHA-512 of the Go standard library is correct (shared by oracle and implementation)"}})
	core.Register(&core.Prop{ID: "C08", Level: "model_checking", Subs: []core.Sub{core.S[[2]byte]{N: "clamp", Gen: genClamp, Check: checkClamp}, core.S[HB]{N: "seeds", Gen: genSeeds, Check: checkSeed},
		core.S[Ent]{N: "entropy", Gen: genEnt, Check: checkEnt, Batch: 4}},
		Exhaustive:  "all 65536 values of the clamped bytes; every value of every seed byte, 2^16 further seeds and every other seed length to the bound; entropy and password lengths around HMAC block boundaries",
		Assumptions: []string{"SHA-2, HMAC and PBKDF2 of the Go standard library are correct"}})
	core.Register(&core.Prop{ID: "C09", Level: "model_checking", Subs: []core.Sub{core.S[Msg]{N: "signatures", Gen: genMsgs, Check: checkSign, Batch: 8},
		core.S[KeyPair]{N: "related-keys", Gen: genKeyPairs(true), Check: checkKeyPair(true), Batch: 16}},
		Exhaustive:  "every message length to the bound under root, derived and crafted keys; all single-bit changes of short messages, extensions and other keys for rejection",
		Assumptions: []string{"SHA-512 and the Ed25519 verifier of the Go standard library are correct", "rejection for a different message rests on the hash; only bit flips and extensions are tried"}})
}
