package props

import (
	"bytes"
	"encoding/hex"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/core"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/ref"
)

func clobber(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0xff
	}
}

// clobberOwn overwrites only the visible bytes and then appends, which writes into spare capacity.
func clobberOwn(b []byte) {
	for i := range b {
		b[i] ^= 0xff
	}
	_ = append(b, 0xde, 0xad, 0xbe, 0xef)
}

// AddrSeq is an address and a history of operations on it.
type AddrSeq struct {
	Addr HB
	How  int // 0 bytes, 1 hex, 2 text, 3 constructed (Bytes and text operations only)
	Ops  []int
}

var addrOps = []string{"overwrite the input buffer", "overwrite Bytes()", "overwrite MarshalCBOR()", "String()", "ToEnterprise/ToReward and overwrite their bytes",
	"decode another address from the same buffer", "grow the input buffer", "make the same address again and change that one"}

// spoilAddr changes every field of an address.
func spoilAddr(a address.Address) {
	cred := func(c *address.StakeCredential) {
		c.Kind ^= 1
		for i := range c.Payload {
			c.Payload[i] ^= 0xff
		}
	}
	switch t := a.(type) {
	case *address.BaseAddress:
		cred(&t.Payment)
		cred(&t.Stake)
		t.Network.NetworkId ^= 1
	case *address.EnterpriseAddress:
		cred(&t.Payment)
		t.Network.NetworkId ^= 1
	case *address.RewardAddress:
		cred(&t.Stake)
		t.Network.NetworkId ^= 1
	case *address.PointerAddress:
		cred(&t.Payment)
		t.Stake.Slot++
		t.Network.NetworkId ^= 1
	case *address.ByronAddress:
		clobberOwn(t.Hash)
		clobberOwn(t.Attributes.Payload)
		t.Tag = 7
	}
}

func genAddrSeq(r *core.Run, yield func(AddrSeq)) {
	depth := core.Pick(r, 4, 5)
	r.Param("address_histories.depth", depth)
	for _, a := range sampleAddrs() {
		for how := 0; how < 4; how++ {
			for d := 0; d <= depth; d++ {
				seqs(len(addrOps), d, func(s []int) { yield(AddrSeq{a.Bytes(), how, s}) })
			}
		}
	}
}

// seqs enumerates all sequences of n operations of length d.
func seqs(n, d int, f func([]int)) {
	s := make([]int, d)
	var rec func(int)
	rec = func(i int) {
		if i == d {
			f(append([]int{}, s...))
			return
		}
		for k := 0; k < n; k++ {
			s[i] = k
			rec(i + 1)
		}
	}
	rec(0)
}

func checkAddrSeq(c AddrSeq, n *core.Counter) error {
	want, _ := ref.DecodeAddr(c.Addr)
	text := want.Text()
	in, whole := spare(c.Addr)
	keep := clone(whole)
	make := func(in []byte) (address.Address, error) {
		switch c.How {
		case 0:
			return address.NewAddressFromBytes(in)
		case 1:
			return address.NewAddressFromHex(hex.EncodeToString(in))
		case 2:
			return address.NewAddress(text)
		}
		return build(want), nil
	}
	a, err := make(in)
	if err != nil {
		return errf("%x refused: %v", []byte(c.Addr), err)
	}
	if !bytes.Equal(whole, keep) {
		return errf("decoding altered its input")
	}
	check := func(step string) error {
		n.Op(3)
		b := a.Bytes()
		if !bytes.Equal(b, c.Addr) {
			return errf("after %s the address %x has bytes %x", step, []byte(c.Addr), b)
		}
		if s := a.String(); s != text {
			return errf("after %s the address has text %q, want %q", step, s, text)
		}
		v, err := view(a)
		if err != nil {
			return errf("after %s: %v", step, err)
		}
		if err := sameParts(v, want); err != nil {
			return errf("after %s: %v", step, err)
		}
		if m, err := a.MarshalCBOR(); err != nil || !bytes.Equal(m, marshalled(want)) {
			return errf("after %s the address marshals to %x (%v)", step, m, err)
		}
		return sameNet(a, want.Net)
	}
	hist := ""
	for _, op := range c.Ops {
		hist += addrOps[op] + "; "
		switch op {
		case 0:
			clobber(in)
		case 1:
			clobberOwn(a.Bytes())
		case 2:
			m, _ := a.MarshalCBOR()
			clobberOwn(m)
		case 3:
			_ = a.String()
		case 4:
			if b, ok := a.(*address.BaseAddress); ok {
				clobberOwn(b.ToEnterprise().Bytes())
				clobberOwn(b.ToReward().Bytes())
			}
		case 5:
			other := ref.Addr{Kind: ref.Enterprise, Net: 1 - want.Net, Pay: ref.Cred{Script: true, Hash: fill(28, 0x77)}}.Bytes()
			copy(whole, other)
			if o, err := address.NewAddressFromBytes(whole[:29]); err == nil {
				clobberOwn(o.Bytes())
			}
		case 6:
			_ = append(in, 0xcc, 0xcc, 0xcc, 0xcc)
		case 7:
			o, err := make(clone(c.Addr))
			if err != nil || !bytes.Equal(o.Bytes(), c.Addr) {
				return errf("after %s the same address made again is %v (%v), want %s", hist, o, err, text)
			}
			if c.How != 3 { // constructors keep the slices they are given
				spoilAddr(o)
			}
		}
		if err := check(hist); err != nil {
			return err
		}
	}
	n.StateS(hist + text)
	return check("decoding")
}

// marshalled is the address's own CBOR form: Byron addresses marshal to their array form.
func marshalled(a ref.Addr) []byte {
	if a.Kind == ref.Byron {
		return a.Bytes()
	}
	return ref.Bstr(a.Bytes())
}

// KeySeq is a key and a history of operations on it.
type KeySeq struct { // Root indexes keyModels

	Root int
	Ops  []int
}

var keyOps = []string{"sign", "overwrite Public()", "overwrite ChainCode()", "derive hardened child", "derive soft child", "sign with child",
	"overwrite parts of Public()", "derive and overwrite the child", "hash the public key", "sign with the parent again and derive from the child"}

type keyModel struct {
	root, hard, soft []byte
	pub              [32]byte
	hash             []byte
	sig, sigH, sigS  []byte
	grand            [2][]byte
	pubH, pubS       [32]byte
}

var keyModels []keyModel

var keyMsg = ramp(32, 0x61)

func initKeyModels() {
	if keyModels != nil {
		return
	}
	deep := fill(96, 0xff) // as a key derived many times over may be: every bit a child may have is set
	deep[0], deep[31] = 0xf8, 0x7f
	for _, r := range []HB{roots()[0], roots()[4], roots()[6], deep, ref.Derive(ref.Derive(roots()[6], 5), 1<<31)} {
		m := keyModel{root: clone(r), hard: ref.Derive(r, 1<<31+7), soft: ref.Derive(r, 7), pub: ref.PublicOf(r), sig: ref.Sign(r, keyMsg)}
		m.hash = ref.Blake2b(28, m.pub[:])
		m.sigH, m.sigS = ref.Sign(m.hard, keyMsg), ref.Sign(m.soft, keyMsg)
		m.pubH, m.pubS = ref.PublicOf(m.hard), ref.PublicOf(m.soft)
		m.grand = [2][]byte{ref.Derive(m.hard, 3), ref.Derive(m.soft, 3)}
		keyModels = append(keyModels, m)
	}
}

func genKeySeq(r *core.Run, yield func(KeySeq)) {
	depth := core.Pick(r, 4, 5)
	r.Param("key_histories.depth", depth)
	for d := 0; d <= depth; d++ {
		seqs(len(keyOps), d, func(s []int) {
			for k := 0; k < 5; k++ { // every key up to depth 3, then in turn
				if d < 4 || k == (s[0]+s[1]+s[2]+s[3])%5 {
					yield(KeySeq{k, s})
				}
			}
		})
	}
}

func checkKeySeq(c KeySeq, n *core.Counter) error {
	m := keyModels[c.Root]
	view, whole := spare(m.root)
	canary := clone(whole)
	key := bip32.XPrv(view)
	var child bip32.XPrv
	childHard := false
	msg, msgWhole := spare(keyMsg)
	msgKeep := clone(msgWhole)
	hist := ""
	for _, op := range c.Ops {
		hist += keyOps[op] + "; "
		n.Op(1)
		switch op {
		case 0:
			s := key.Sign(msg)
			if !bytes.Equal(s[:], m.sig) {
				return errf("after %s signature is %x, want %x", hist, s, m.sig)
			}
		case 1:
			p := key.Public()
			if !bytes.Equal(p, append(clone(m.pub[:]), m.root[64:]...)) {
				return errf("after %s public key is %x", hist, []byte(p))
			}
			clobberOwn(p)
		case 2:
			cc := key.ChainCode()
			if !bytes.Equal(cc, m.root[64:]) {
				return errf("after %s chain code is %x", hist, cc)
			}
			clobberOwn(cc)
		case 3, 4:
			if op == 3 {
				child, childHard = key.Derive(1<<31+7), true
			} else {
				child, childHard = key.Derive(7), false
			}
		case 5:
			if child == nil {
				continue
			}
			s := child.Sign(msg)
			want := m.sigS
			if childHard {
				want = m.sigH
			}
			if !bytes.Equal(s[:], want) {
				return errf("after %s child signature is %x, want %x", hist, s, want)
			}
		case 6:
			p := key.Public()
			keep := clone(p)
			clobberOwn(p.PublicKey())
			clobberOwn(p.ChainCode())
			if !bytes.Equal(p, keep) {
				return errf("overwriting the parts of a public key alters it: %x became %x", keep, []byte(p))
			}
		case 7:
			clobberOwn(key.Derive(1<<31 + 9))
			clobberOwn(key.Derive(9))
			clobberOwn(key.Derive(1<<31 + 7)) // the children that are kept
			clobberOwn(key.Derive(7))
		case 8:
			h := key.Public().PublicKey().Hash()
			if !bytes.Equal(h[:], m.hash) {
				return errf("after %s key hash is %x", hist, h)
			}
		case 9:
			s := key.Sign(msg)
			if !bytes.Equal(s[:], m.sig) {
				return errf("after %s signature is %x, want %x", hist, s, m.sig)
			}
			if child != nil {
				g := child.Derive(3)
				want := m.grand[1]
				if childHard {
					want = m.grand[0]
				}
				if !bytes.Equal(g, want) {
					return errf("after %s grandchild is %x, want %x", hist, []byte(g), want)
				}
				clobberOwn(g)
			}
		}
		if !bytes.Equal(whole, canary) {
			return errf("%s alters the key or what follows it in memory: %x became %x", hist, canary, whole)
		}
		if !bytes.Equal(msgWhole, msgKeep) {
			return errf("%s alters the message or what follows it", hist)
		}
		if child != nil {
			want := m.soft
			if childHard {
				want = m.hard
			}
			if !bytes.Equal(child, want) {
				return errf("after %s the child is %x, want %x", hist, []byte(child), want)
			}
		}
	}
	n.StateS(hist)
	return nil
}

// Buf is a root made from caller buffers that are then overwritten.
type Buf struct {
	Kind int
	Ops  []int
}

func genBuf(r *core.Run, yield func(Buf)) {
	for kind := 0; kind < 2; kind++ {
		for d := 0; d <= 3; d++ {
			seqs(5, d, func(s []int) { yield(Buf{kind, s}) })
		}
	}
}

func checkBuf(c Buf, n *core.Counter) error {
	a, aw := spare(ramp(32, 0x31))
	p, pw := spare([]byte("password"))
	ak, pk := clone(aw), clone(pw)
	var key bip32.XPrv
	var want []byte
	if c.Kind == 0 {
		want = ref.RootFromSeed(a)
		key, _ = bip32.NewXPrv(a)
	} else {
		want = ref.RootFromEntropy(a, p)
		key = bip32.FromBip39Entropy(a, p)
	}
	n.Op(1)
	if !bytes.Equal(aw, ak) || !bytes.Equal(pw, pk) {
		return errf("making a root key altered the caller's buffers")
	}
	for _, op := range c.Ops {
		switch op {
		case 0:
			clobber(a)
		case 1:
			clobber(p)
		case 2:
			_ = append(a, 1, 2, 3)
		case 3:
			if c.Kind == 0 {
				bip32.NewXPrv(ramp(32, 0x91))
			} else {
				bip32.FromBip39Entropy(ramp(32, 0x91), nil)
			}
		case 4: // the same root again, which is wiped after use
			if c.Kind == 0 {
				k, err := bip32.NewXPrv(ramp(32, 0x31))
				if err != nil || !bytes.Equal(k, want) {
					return errf("the same root made again is %x (%v), want %x", []byte(k), err, want)
				}
				clobberOwn(k)
			} else {
				k := bip32.FromBip39Entropy(ramp(32, 0x31), []byte("password"))
				if !bytes.Equal(k, want) {
					return errf("the same root made again is %x, want %x", []byte(k), want)
				}
				clobberOwn(k)
			}
		}
		if !bytes.Equal(key, want) {
			return errf("the root key changed with the caller's buffers: %x, want %x", []byte(key), want)
		}
	}
	n.State(want)
	return nil
}

func init() {
	core.Register(&core.Prop{ID: "C11", Level: "model_checking", Subs: []core.Sub{
		core.S[AddrSeq]{N: "address-histories", Gen: genAddrSeq, Check: checkAddrSeq},
		core.S[KeySeq]{N: "key-histories", Gen: func(r *core.Run, y func(KeySeq)) { initKeyModels(); genKeySeq(r, y) },
			Check: func(c KeySeq, n *core.Counter) error { initKeyModels(); return checkKeySeq(c, n) }, Batch: 32},
		core.S[Buf]{N: "root-buffers", Gen: genBuf, Check: checkBuf, Batch: 4}},
		Exhaustive:  "all histories of 8 operations on decoded and constructed addresses of every kind, all histories of 10 operations on keys, to the depth bounds, against a value-semantics model; every buffer has spare capacity with canaries",
		Assumptions: []string{"credentials keep the caller's hash slice when constructed (not decoded); that is not covered"}})
}
