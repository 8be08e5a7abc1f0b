package props

import (
	"bytes"
	"encoding/hex"
	"strings"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/core"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/ref"
	"github.com/fxamacker/cbor/v2"
)

// ---- C02: construction ----

// Parts describes an address to construct.
type Parts struct {
	Kind      ref.Kind
	Net       byte
	Magic     uint32
	PayScript bool
	StkScript bool
	Pay, Stk  HB
	Ptr       [3]uint64
}

func (p Parts) addr() ref.Addr {
	a := ref.Addr{Kind: p.Kind, Net: p.Net}
	if p.Kind != ref.Reward {
		a.Pay = ref.Cred{Script: p.PayScript, Hash: p.Pay}
	}
	if p.Kind == ref.Base || p.Kind == ref.Reward {
		a.Stake = ref.Cred{Script: p.StkScript, Hash: p.Stk}
	}
	if p.Kind == ref.Pointer {
		a.Ptr = p.Ptr
	}
	return a
}

// nets are the networks an address can be built for: the two built-in ones and the other public testnets
// (same network id, other magic).
var nets = []network.NetworkInfo{{NetworkId: 0, ProtocolMagic: testMagic}, {NetworkId: 1, ProtocolMagic: mainMagic}, {NetworkId: 0, ProtocolMagic: 1}, {NetworkId: 0, ProtocolMagic: 2}, {NetworkId: 1, ProtocolMagic: 4}, {NetworkId: 1, ProtocolMagic: testMagic}, {NetworkId: 0, ProtocolMagic: mainMagic}}

func hashPatterns() (out []HB) {
	out = append(out, fill(28, 0), fill(28, 0xff), ramp(28, 0x15), ramp(28, 0x93))
	for i := 0; i < 28; i++ {
		b := fill(28, 0)
		b[i] = 0xff
		out = append(out, b)
	}
	return
}

func genParts(r *core.Run, yield func(Parts)) {
	hs := hashPatterns()
	for _, net := range nets {
		for _, k := range []ref.Kind{ref.Base, ref.Pointer, ref.Enterprise, ref.Reward} {
			for sc := 0; sc < 4; sc++ {
				p := Parts{Kind: k, Net: net.NetworkId, Magic: net.ProtocolMagic, PayScript: sc&1 != 0, StkScript: sc&2 != 0, Pay: ramp(28, 0x15), Stk: ramp(28, 0x93), Ptr: [3]uint64{2498243, 27, 3}}
				for _, h := range hs {
					for _, h2 := range hs {
						q := p
						q.Pay, q.Stk = h, h2
						yield(q)
					}
				}
				for i := 0; i < 28; i++ {
					for x := 0; x < 256; x++ {
						q := p
						q.Pay, q.Stk = clone(p.Pay), clone(p.Stk)
						q.Pay[i], q.Stk[27-i] = byte(x), byte(x)
						yield(q)
					}
				}
			}
		}
	}
}

// genNetParts: the network ids that are not assigned yet.
func genNetParts(r *core.Run, yield func(Parts)) {
	for net := byte(2); net < 16; net++ {
		for _, magic := range []uint32{0, 1, uint32(net), testMagic, mainMagic, 1<<32 - 1} {
			for _, k := range []ref.Kind{ref.Base, ref.Pointer, ref.Enterprise, ref.Reward} {
				for sc := 0; sc < 4; sc++ {
					for _, h := range hashPatterns()[:6] {
						yield(Parts{Kind: k, Net: net, Magic: magic, PayScript: sc&1 != 0, StkScript: sc&2 != 0, Pay: h, Stk: ramp(28, 0x93), Ptr: [3]uint64{2498243, 27, 3}})
					}
				}
			}
		}
	}
}

func genPtrParts(r *core.Run, yield func(Parts)) {
	nats := natBoundary(core.Pick(r, uint64(1), uint64(3)))
	for ni, net := range nets {
		nats := nats
		if ni > 1 {
			nats = natBoundary(0)
		}
		for sc := 0; sc < 2; sc++ {
			for _, a := range nats {
				for _, b := range nats {
					for _, c := range nats {
						yield(Parts{Kind: ref.Pointer, Net: net.NetworkId, Magic: net.ProtocolMagic, PayScript: sc == 1, Pay: ramp(28, 0x15), Ptr: [3]uint64{a, b, c}})
					}
				}
			}
			if ni > 1 {
				continue
			}
			small := core.Pick(r, uint64(20000), uint64(300000))
			for n := uint64(0); n < small; n++ {
				for s := 0; s < 3; s++ {
					p := [3]uint64{1, 2, 3}
					p[s] = n
					yield(Parts{Kind: ref.Pointer, Net: net.NetworkId, Magic: net.ProtocolMagic, PayScript: sc == 1, Pay: ramp(28, 0x15), Ptr: p})
				}
			}
		}
	}
}

// construct builds through the public constructors with buffers that have spare capacity.
func construct(p Parts) address.Address {
	ni := &network.NetworkInfo{NetworkId: p.Net, ProtocolMagic: p.Magic}
	cred := func(script bool, h []byte) *address.StakeCredential {
		v, _ := spare(h)
		if script {
			return address.NewScriptStakeCredential(v)
		}
		return address.NewKeyStakeCredential(v)
	}
	switch p.Kind {
	case ref.Base:
		return address.NewBaseAddress(ni, cred(p.PayScript, p.Pay), cred(p.StkScript, p.Stk))
	case ref.Pointer:
		return address.NewPointerAddress(*ni, *cred(p.PayScript, p.Pay), *address.NewPointer(p.Ptr[0], p.Ptr[1], p.Ptr[2]))
	case ref.Enterprise:
		return address.NewEnterpriseAddress(ni, cred(p.PayScript, p.Pay))
	}
	return address.NewRewardAddress(ni, cred(p.StkScript, p.Stk))
}

func checkAddr(what string, a address.Address, want ref.Addr, magic uint32, n *core.Counter) error {
	wb := want.Bytes()
	n.State(wb)
	n.Op(5)
	if got := a.Bytes(); !bytes.Equal(got, wb) {
		return errf("%s encodes to %x, want %x", what, got, wb)
	}
	ni := a.NetworkInfo()
	if ni == nil || ni.NetworkId != want.Net || ni.ProtocolMagic != magic {
		return errf("%s reports network %+v, want id %d magic %d", what, ni, want.Net, magic)
	}
	m, err := a.MarshalCBOR()
	if err != nil || !bytes.Equal(m, ref.Bstr(wb)) {
		return errf("%s marshals to %x (%v), want %x", what, m, err, ref.Bstr(wb))
	}
	m, err = cbor.Marshal([]interface{}{a})
	if err != nil || !bytes.Equal(m, ref.Arr(ref.Bstr(wb))) {
		return errf("%s inside an array marshals to %x (%v)", what, m, err)
	}
	got, err := view(a)
	if err != nil {
		return err
	}
	if err := sameParts(got, want); err != nil {
		return errf("%s: %v", what, err)
	}
	if want.Net > 1 {
		return nil // of no known network: can be built, but is not read back
	}
	back, err := address.NewAddressFromBytes(clone(wb))
	if err != nil {
		return errf("%s does not decode back: %v", what, err)
	}
	got, err = view(back)
	if err != nil {
		return err
	}
	if err := sameParts(got, want); err != nil {
		return errf("%s decoded back: %v", what, err)
	}
	return nil
}

func checkC02(p Parts, n *core.Counter) error {
	a := construct(p)
	want := p.addr()
	if err := checkAddr(want.Kind.String(), a, want, p.Magic, n); err != nil {
		return err
	}
	if b, ok := a.(*address.BaseAddress); ok {
		e := ref.Addr{Kind: ref.Enterprise, Net: p.Net, Pay: want.Pay}
		if err := checkAddr("base without stake", b.ToEnterprise(), e, p.Magic, n); err != nil {
			return err
		}
		w := ref.Addr{Kind: ref.Reward, Net: p.Net, Stake: want.Stake}
		if err := checkAddr("base without payment", b.ToReward(), w, p.Magic, n); err != nil {
			return err
		}
		// the base address itself is unaffected
		if err := checkAddr("base after dropping parts", a, want, p.Magic, n); err != nil {
			return err
		}
		if p.Net > 1 {
			return nil
		}
		// the same through a decoded base address, whose network is the standard one of its id
		d, err := address.NewAddressFromBytes(want.Bytes())
		if err != nil {
			return err
		}
		db, ok := d.(*address.BaseAddress)
		if !ok {
			return errf("decoded base address is a %T", d)
		}
		std := uint32(testMagic)
		if p.Net == 1 {
			std = mainMagic
		}
		if err := checkAddr("decoded base without stake", db.ToEnterprise(), e, std, n); err != nil {
			return err
		}
		if err := checkAddr("decoded base without payment", db.ToReward(), w, std, n); err != nil {
			return err
		}
	}
	return nil
}

// ---- C03: text ----

func checkC03(p Parts, n *core.Counter) error {
	return checkTextOf(construct(p), p.addr(), n)
}

func checkTextOf(a address.Address, want ref.Addr, n *core.Counter) error {
	wt := want.Text()
	n.StateS(wt)
	n.Op(4)
	if got := a.String(); got != wt {
		return errf("%v address %x has text %q, want %q", want.Kind, want.Bytes(), got, wt)
	}
	if pr, ok := a.(interface{ Prefix() string }); ok && pr.Prefix() != want.Prefix() {
		return errf("prefix %q, want %q", pr.Prefix(), want.Prefix())
	}
	back, err := address.NewAddress(wt)
	if err != nil {
		return errf("text %q of a valid %v address refused: %v", wt, want.Kind, err)
	}
	got, err := view(back)
	if err != nil {
		return err
	}
	if err := sameParts(got, want); err != nil {
		return errf("text %q parses to: %v", wt, err)
	}
	if err := sameNet(back, want.Net); err != nil {
		return errf("text %q: %v", wt, err)
	}
	if !bytes.Equal(back.Bytes(), want.Bytes()) || back.String() != wt {
		return errf("text %q parses to %x with text %q", wt, back.Bytes(), back.String())
	}
	return nil
}

func genByronParts(r *core.Run, yield func(Parts)) {
	for l := 0; l < core.Pick(r, 320, 2000); l++ {
		p := Parts{Kind: ref.Byron, Net: 1, Pay: ramp(28, byte(l))}
		if l > 0 {
			p.Stk = ramp(l, byte(l))
		}
		yield(p)
	}
	for i := 0; i < 28; i++ {
		for x := 0; x < 256; x++ {
			h := ramp(28, 0x15)
			h[i] = byte(x)
			yield(Parts{Kind: ref.Byron, Net: 1, Pay: h})
			yield(Parts{Kind: ref.Byron, Net: 1, Pay: h, Stk: ramp(30, 3)})
		}
	}
}

// checkByronNet: a Byron address with a network attribute (-1: without) is of a test network.
func checkByronNet(v int, n *core.Counter) error {
	a := address.ByronAddress{Hash: ramp(28, 5)}
	want := network.MainNet()
	if v >= 0 {
		x := uint8(v)
		a.Attributes.Network, want = &x, network.TestNet()
	}
	n.Op(1)
	if got := a.NetworkInfo(); got == nil || *got != *want {
		return errf("a Byron address with network attribute %d says its network is %v", v, got)
	}
	return nil
}

func checkByronText(p Parts, n *core.Counter) error {
	want := ref.Addr{Kind: ref.Byron, Net: 1, Pay: ref.Cred{Hash: p.Pay}}
	if len(p.Stk) > 0 {
		want.Payload = p.Stk
	}
	a, err := address.NewAddressFromBytes(want.Bytes())
	if err != nil {
		return errf("Byron address refused: %v", err)
	}
	return checkTextOf(a, want, n)
}

// genOtherTexts lists texts that say the same bits in another way: nonzero padding, missing or extra
// groups, the other checksum constants, other cases, leading base58 zeros, surrounding blanks.
func genOtherTexts(r *core.Run, yield func(Typo)) {
	as := sampleAddrs()
	for l := uint(0); l < 20; l++ {
		for net := byte(0); net < 2; net++ {
			as = append(as, ref.Addr{Kind: ref.Pointer, Net: net, Pay: ref.Cred{Hash: ramp(28, byte(l))}, Ptr: [3]uint64{1 << (7 * (l % 10)), 1 << (7 * (l / 10)), 5}})
		}
	}
	const charset = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
	for _, a := range as {
		t, what := a.Text(), " of a "+a.Kind.String()+" address"
		y := func(s, w string) { yield(Typo{QS(s), w + what}) }
		y(t, "text")
		for _, w := range []string{" ", "\n", "\x00", "\t", "\r\n", "\u00a0", "\ufeff"} {
			y(w+t, "blank before the text")
			y(t+w, "blank after the text")
		}
		for i := range t {
			for x := 0; x < 256; x++ {
				if byte(x) != t[i] && (a.Kind == ref.Byron || x < 33 || x > 126 || i < 12 || r.Thorough()) {
					y(t[:i]+string([]byte{byte(x)})+t[i+1:], "substitution")
				}
			}
		}
		y(strings.ToUpper(t), "upper case")
		y(strings.ToLower(t), "lower case")
		y(hex.EncodeToString(a.Bytes()), "hex")
		y(strings.ToUpper(hex.EncodeToString(a.Bytes())), "upper case hex")
		y(string(a.Bytes()), "raw bytes")
		if a.Kind == ref.Byron {
			for k := 1; k < 4; k++ {
				y(strings.Repeat("1", k)+t, "leading base58 zeros")
				y(ref.Base58(append(a.Bytes(), fill(k, 0)...)), "trailing zero bytes")
			}
			continue
		}
		p := strings.LastIndexByte(t, '1')
		body := t[p+1 : len(t)-6]
		for _, k := range charset {
			y(ref.Bech32Chars(a.Prefix(), body[:len(body)-1]+string(k)), "other last group")
			y(ref.Bech32Chars(a.Prefix(), body+string(k)), "extra group")
			for _, l := range charset {
				y(ref.Bech32Chars(a.Prefix(), body+string(k)+string(l)), "two extra groups")
				y(ref.Bech32Chars(a.Prefix(), body[:len(body)-1]+string(k)+string(l)), "other last and extra group")
			}
		}
		for k := 1; k < 9 && k < len(body); k++ {
			y(ref.Bech32Chars(a.Prefix(), body[:len(body)-k]), "missing groups")
			y(ref.Bech32Chars(a.Prefix(), strings.Repeat("q", k)+body), "leading zero groups")
			y(ref.Bech32Chars(a.Prefix(), body+strings.Repeat("q", k)), "trailing zero groups")
		}
		for _, k := range []int{0, 2, 0x2bc830a3, 0x3fffffff} {
			y(ref.Bech32Const(a.Prefix(), a.Bytes(), k), "other checksum constant")
		}
	}
}

// checkOtherText: refused, or exactly the text form of what it yields.
func checkOtherText(c Typo, n *core.Counter) error {
	n.Op(1)
	n.StateS(string(c.Text))
	a, err := address.NewAddress(string(c.Text))
	if err != nil {
		n.Outcome("refused")
		return nil
	}
	n.Outcome("accepted")
	if s := a.String(); s != string(c.Text) {
		return errf("%s: %q is accepted as the address with text %q", c.What, c.Text, s)
	}
	return nil
}

// ---- C05: damaged texts ----

// Typo is a damaged text and what was done to it.
type Typo struct {
	Text QS
	What string
}

func typoBases() (out []string) {
	for _, a := range sampleAddrs() {
		out = append(out, a.Text())
	}
	for _, p := range [][3]uint64{{0, 0, 0}, {1, 2, 3}, {127, 128, 16384}, {1 << 32, 5, 1 << 21}, {1<<64 - 1, 0, 0}} {
		out = append(out, ref.Addr{Kind: ref.Pointer, Net: 1, Pay: ref.Cred{Hash: ramp(28, 0x21)}, Ptr: p}.Text())
		out = append(out, ref.Addr{Kind: ref.Pointer, Net: 0, Pay: ref.Cred{Hash: fill(28, 0)}, Ptr: p}.Text())
	}
	out = append(out, ref.Addr{Kind: ref.Enterprise, Net: 1, Pay: ref.Cred{Hash: fill(28, 0)}}.Text(), ref.Addr{Kind: ref.Reward, Net: 0, Stake: ref.Cred{Hash: fill(28, 0xff)}}.Text())
	// texts ending in p: bech32's known insertion weakness
	found := map[ref.Kind]int{}
	for k := 0; k < 4000; k++ {
		for _, a := range []ref.Addr{
			{Kind: ref.Pointer, Net: byte(k & 1), Pay: ref.Cred{Hash: ramp(28, byte(k))}, Ptr: [3]uint64{uint64(k), 1, uint64(k % 200)}},
			{Kind: ref.Enterprise, Net: byte(k & 1), Pay: ref.Cred{Hash: append(ramp(27, byte(k)), byte(k>>8))}},
			{Kind: ref.Base, Net: byte(k & 1), Pay: ref.Cred{Hash: ramp(28, byte(k))}, Stake: ref.Cred{Hash: append(ramp(27, byte(k)), byte(k>>8))}}} {
			if t := a.Text(); t[len(t)-1] == 'p' && found[a.Kind] < 12 {
				found[a.Kind]++
				out = append(out, t)
			}
		}
	}
	return
}

const printableASCII = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

func genTypos(r *core.Run, yield func(Typo)) {
	y := func(base, t, what string) {
		if t != base {
			yield(Typo{QS(t), what + " of " + base})
		}
	}
	chars := []string{"\x00", "\n", "\t", "\x7f", "\x80", "\xff", "é", "ſ", "K", "İ", "q̇"}
	for _, c := range printableASCII {
		chars = append(chars, string(c))
	}
	bases := typoBases()
	r.Param("typo.base_texts", len(bases))
	for _, b := range bases {
		for i := 0; i <= len(b); i++ {
			y(b, b[:i], "truncation")
			if i > 0 {
				y(b, b[i:], "front truncation")
			}
			for _, c := range chars {
				y(b, b[:i]+c+b[i:], "insertion")
				if i < len(b) {
					y(b, b[:i]+c+b[i+1:], "substitution")
				}
			}
			if i < len(b) {
				y(b, b[:i]+b[i+1:], "deletion")
				y(b, b[:i]+string(b[i])+b[i:], "duplication")
				y(b, b[:i]+string(b[i])+string(b[i])+b[i:], "triplication")
				y(b, b[:i]+strings.ToUpper(b[i:]), "case change")
				y(b, strings.ToUpper(b[:i])+b[i:], "case change")
				y(b, b[:i]+strings.ToUpper(b[i:i+1])+b[i+1:], "case change")
			}
			if i+1 < len(b) {
				y(b, b[:i]+b[i+1:i+2]+b[i:i+1]+b[i+2:], "swap")
				y(b, b[:i]+b[i+2:], "double deletion")
			}
			if i+2 < len(b) {
				y(b, b[:i]+b[i+2:i+3]+b[i+1:i+2]+b[i:i+1]+b[i+3:], "swap at distance two")
			}
		}
		for _, c := range chars {
			for _, d := range "qplz1 " {
				y(b, b+c+string(d), "extension")
				y(b, c+string(d)+b, "extension")
			}
		}
		for k := 1; k < 12; k++ {
			y(b, b+strings.Repeat("q", k), "extension")
			y(b, b[:len(b)-1]+strings.Repeat("q", k)+b[len(b)-1:], "insertion before the last")
		}
	}
}

// Pair is a base text with two substituted positions; all character pairs are tried inside one case.
type Pair struct {
	Base string
	I, J int
}

func genPairs(r *core.Run, yield func(Pair)) {
	var bases []string
	seen := map[string]int{}
	for _, a := range sampleAddrs() {
		k := a.Kind.String() + a.Prefix()
		if seen[k] < core.Pick(r, 1, 3) {
			seen[k]++
			bases = append(bases, a.Text())
		}
	}
	r.Param("pairs.base_texts", len(bases))
	for _, b := range bases {
		for i := 0; i < len(b); i++ {
			for j := i + 1; j < len(b); j++ {
				yield(Pair{b, i, j})
			}
		}
	}
}

func checkPair(p Pair, n *core.Counter) error {
	alpha := "qpzry9x8gf2tvdw0s3jn54khce6mua7l1_bio"
	if !strings.HasPrefix(p.Base, "addr") && !strings.HasPrefix(p.Base, "stake") {
		alpha = b58alpha
	}
	b := []byte(p.Base)
	for _, x := range []byte(alpha) {
		if x == p.Base[p.I] {
			continue
		}
		b[p.I] = x
		for _, y := range []byte(alpha) {
			if y == p.Base[p.J] {
				continue
			}
			b[p.J] = y
			n.Op(1)
			if err := refused(string(b), "double substitution of "+p.Base, n); err != nil {
				return err
			}
		}
	}
	return nil
}

func refused(t, what string, n *core.Counter) error {
	a, err := address.NewAddress(t)
	if err != nil {
		n.Outcome("refused")
		return nil
	}
	return errf("%s: %q accepted as %x", what, t, a.Bytes())
}

func checkTypo(t Typo, n *core.Counter) error {
	n.Op(1)
	n.StateS(string(t.Text))
	return refused(string(t.Text), t.What, n)
}

// genLabels relabels addresses: right checksum, wrong prefix; also other checksum constants.
func genLabels(r *core.Run, yield func(Typo)) {
	labels := []string{"addr", "addr_test", "stake", "stake_test", "ADDR", "addr_vk", "addr_vkh", "addr_shared_vkh", "addr_test1", "addr1", "addr_", "addr_tes", "addr_testt", "addrr", "stake1", "stake_", "stake_vkh", "stake_test1", "stake_testt", "addr_test_", "script", "pool", "bc", "a", "addr1addr", "stake1stake", "addr_test1addr", "addr1addr_test"}
	var as []ref.Addr
	as = append(as, sampleAddrs()...)
	for _, p := range [][3]uint64{{0, 0, 0}, {127, 128, 16384}, {1<<64 - 1, 1<<64 - 1, 1<<64 - 1}} {
		for net := byte(0); net < 2; net++ {
			for s := 0; s < 2; s++ {
				as = append(as, ref.Addr{Kind: ref.Pointer, Net: net, Pay: ref.Cred{Script: s == 1, Hash: ramp(28, 0x31)}, Ptr: p})
			}
		}
	}
	for _, a := range as {
		for _, l := range labels {
			if l != a.Prefix() {
				yield(Typo{QS(ref.Bech32(l, a.Bytes())), "relabelling of a " + a.Kind.String() + " address"})
			}
		}
		if a.Kind != ref.Byron {
			yield(Typo{QS(ref.Base58(a.Bytes())), "base58 of a " + a.Kind.String() + " address"})
			t := a.Text()
			p := strings.LastIndexByte(t, '1')
			for _, l := range labels {
				if l != a.Prefix() {
					yield(Typo{QS(l + t[p:]), "prefix swap"})
				}
			}
			for _, k := range []int{0, 2, 3, 0x2bc830a3, 0x3fffffff} {
				yield(Typo{QS(ref.Bech32Const(a.Prefix(), a.Bytes(), k)), "other checksum constant"})
			}
		}
	}
}

// ---- C06: naturals ----

func genNats(r *core.Run, yield func(uint64)) {
	small := core.Pick(r, uint64(1<<21), uint64(1<<26))
	r.Param("naturals.all_below", small)
	for n := uint64(0); n < small; n++ {
		yield(n)
	}
	for i := 0; i < 64; i++ {
		for d := uint64(0); d < 300; d++ {
			yield(1<<i + d)
			yield(1<<i - d)
		}
		for j := 0; j < i; j++ {
			for k := 0; k < j; k++ {
				yield(1<<i | 1<<j | 1<<k)
				yield(^uint64(1<<i | 1<<j | 1<<k))
			}
			yield(1<<i | 1<<j)
			yield(1<<i - 1<<j)
			yield(^uint64(1<<i | 1<<j))
		}
	}
}

func checkNat(v uint64, n *core.Counter) error {
	want := ref.VarNat(v)
	if v > 1<<20 {
		n.State(want)
	}
	got := address.VariableNatEncode(v)
	n.Op(1)
	if !bytes.Equal(got, want) {
		return errf("%d encodes to %x, want %x", v, got, want)
	}
	for _, tail := range [][]byte{nil, {0}, {0x7f}, {0x80}, {0xff}, {0x81, 0x00}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}} {
		in, whole := spare(append(clone(want), tail...))
		keep := clone(whole)
		d, used, err := address.VariableNatDecode(in)
		n.Op(1)
		if err != nil || d != v || used != len(want) {
			return errf("%x followed by %x decodes to %d using %d bytes (%v), want %d using %d", want, tail, d, used, err, v, len(want))
		}
		if !bytes.Equal(whole, keep) {
			return errf("decoding altered its input")
		}
	}
	for cut := 0; cut < len(want); cut++ {
		n.Op(1)
		if d, _, err := address.VariableNatDecode(want[:cut]); err == nil {
			return errf("unterminated %x decodes to %d", want[:cut], d)
		}
	}
	return nil
}

func genNatBytes(r *core.Run, yield func(HB)) {
	var all []byte
	for x := 0; x < 256; x++ {
		all = append(all, byte(x))
	}
	yield(HB{})
	for l := 1; l <= core.Pick(r, 2, 3); l++ {
		words(all, l, func(w []byte) { yield(clone(w)) })
	}
	alpha := []byte{0x00, 0x01, 0x7f, 0x80, 0x81, 0xff}
	for l := 3; l <= core.Pick(r, 7, 9); l++ {
		words(alpha, l, func(w []byte) { yield(clone(w)) })
	}
	// around 64 bits
	for l := 8; l <= 13; l++ {
		for x := 0; x < 256; x++ {
			for y := 0; y < 256; y++ {
				for _, f := range []byte{0x80, 0xff} {
					for _, last := range []byte{0, 0x7f, 0x80} {
						b := fill(l, f)
						b[0], b[1], b[l-1] = byte(x), byte(y), last
						yield(b)
					}
				}
			}
		}
	}
	for l := 0; l < 400; l++ {
		yield(fill(l, 0x80))
		yield(fill(l, 0xff))
		yield(append(fill(l, 0x80), 1))
		yield(append(fill(l, 0xff), 1))
		yield(append(append(fill(l, 0x80), 0x81), 1))
	}
}

func checkNatBytes(b HB, n *core.Counter) error {
	want, wused, ok := ref.UnVarNat(b)
	got, used, err := address.VariableNatDecode(clone(b))
	n.Op(1)
	if !ok {
		n.Outcome("refused")
		if err == nil {
			return errf("%x decodes to %d (%d bytes), want a refusal", []byte(b), got, used)
		}
		return nil
	}
	n.Outcome("accepted")
	if err != nil || got != want || used != wused {
		return errf("%x decodes to %d using %d bytes (%v), want %d using %d", []byte(b), got, used, err, want, wused)
	}
	if !bytes.Equal(address.VariableNatEncode(got), b[:used]) {
		return errf("%x decodes to %d, which encodes to %x", []byte(b[:used]), got, address.VariableNatEncode(got))
	}
	return nil
}

func init() {
	core.Register(&core.Prop{ID: "C02", Level: "model_checking",
		Subs: []core.Sub{core.S[Parts]{N: "kinds-credentials", Gen: genParts, Check: checkC02}, core.S[Parts]{N: "pointers", Gen: genPtrParts, Check: checkC02},
			core.S[Parts]{N: "network-ids", Gen: genNetParts, Check: checkC02},
			core.S[int]{N: "byron-networks", Gen: func(r *core.Run, yield func(int)) {
				for v := -1; v < 256; v++ {
					yield(v)
				}
			}, Check: checkByronNet}},
		Exhaustive:  "every kind x credential kinds x network (both ids, the public testnet magics) x pairs of hash patterns and every value of every hash byte; all boundary pointer triples and every small natural in every slot",
		Assumptions: []string{"credential hashes are 28 bytes"}})
	core.Register(&core.Prop{ID: "C03", Level: "model_checking",
		Subs: append(bech32Subs, core.S[Parts]{N: "kinds-credentials", Gen: genParts, Check: checkC03},
			core.S[Parts]{N: "pointers", Gen: genPtrParts, Check: checkC03}, core.S[Parts]{N: "byron", Gen: genByronParts, Check: checkByronText},
			core.S[Typo]{N: "other-texts", Gen: genOtherTexts, Check: checkOtherText}),
		Exhaustive:  "the address space of C02 plus Byron addresses of every payload length; bech32 for every data length up to the bound, all 2-byte data, several prefixes; all texts that differ from an address's text only in padding, group count, checksum constant, case or blanks",
		Assumptions: []string{"Byron testnet addresses cannot be represented (see C01's known finding)"}})
	core.Register(&core.Prop{ID: "C05", Level: "model_checking",
		Subs: []core.Sub{core.S[Typo]{N: "single-edits", Gen: genTypos, Check: checkTypo}, core.S[Typo]{N: "labels", Gen: genLabels, Check: checkTypo},
			core.S[Pair]{N: "double-substitutions", Gen: genPairs, Check: checkPair, Batch: 8}},
		Exhaustive:  "for each base text: every single edit of the listed sorts with every printable character, and every double substitution over the text's alphabet; every address kind under every other prefix",
		Assumptions: []string{"base texts: one or more per kind, credential kind and network, and texts with bech32's insertion weakness"}})
	core.Register(&core.Prop{ID: "C06", Level: "model_checking",
		Subs:        []core.Sub{core.S[uint64]{N: "naturals", Gen: genNats, Check: checkNat, Batch: 4096}, core.S[HB]{N: "byte-strings", Gen: genNatBytes, Check: checkNatBytes, Batch: 2048}},
		Exhaustive:  "all naturals below the bound, all naturals within 300 of a power of two, all with up to three bits set or cleared, each with seven following contexts; all byte strings up to 2 (3) bytes and adversarial ones up to 13",
		Assumptions: []string{}})
}
