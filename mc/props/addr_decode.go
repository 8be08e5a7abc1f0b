package props

import (
	"bytes"
	"encoding/hex"
	"hash/crc32"
	"strings"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/core"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/ref"
	"github.com/fxamacker/cbor/v2"
)

// ---- the input spaces shared by C01 and C04 ----

// genHeaders: every header byte, every length up to max, a few fill patterns.
func genHeaders(r *core.Run, yield func(HB)) {
	max := core.Pick(r, 80, 300)
	r.Param("headers.max_len", max)
	yield(HB{})
	for l := 1; l <= max; l++ {
		for h := 0; h < 256; h++ {
			for _, p := range []byte{0, 1, 0x7f, 0x80, 0xff} {
				b := fill(l, p)
				b[0] = byte(h)
				yield(b)
			}
			b := ramp(l, 0x31)
			b[0] = byte(h)
			yield(b)
		}
	}
}

func validBytes(h byte) []byte {
	switch h >> 4 {
	case 0, 1, 2, 3:
		return append([]byte{h}, ramp(56, 0x15)...)
	case 4, 5:
		return append(append([]byte{h}, ramp(28, 0x15)...), 0x81, 0x23, 0x05, 0x82, 0x00)
	}
	return append([]byte{h}, ramp(28, 0x15)...)
}

// genPositions: every valid header, every byte position, every value; and all pairs of positions over boundary
// values.
func genPositions(r *core.Run, yield func(HB)) {
	for _, h := range shelleyHeaders() {
		v := validBytes(h)
		for i := 1; i < len(v); i++ {
			for x := 0; x < 256; x++ {
				b := clone(v)
				b[i] = byte(x)
				yield(b)
			}
		}
	}
	vals := []byte{0, 1, 0x7f, 0x80, 0xff}
	hs := core.Pick(r, []byte{0x00, 0x31, 0x41, 0x61, 0x70, 0xe1, 0xf0}, shelleyHeaders())
	for _, h := range hs {
		v := validBytes(h)
		for i := 1; i < len(v); i++ {
			for j := i + 1; j < len(v); j++ {
				for _, x := range vals {
					for _, y := range vals {
						b := clone(v)
						b[i], b[j] = x, y
						yield(b)
					}
				}
			}
		}
	}
}

// genPointers: boundary pointer triples and every small natural in every slot.
func genPointers(r *core.Run, yield func(HB)) {
	nats := natBoundary(core.Pick(r, uint64(1), uint64(3)))
	small := core.Pick(r, uint64(3000), uint64(200000))
	r.Param("pointers.boundary_naturals", len(nats))
	r.Param("pointers.small_naturals", small)
	hs := []byte{0x40, 0x41, 0x50, 0x51}
	n := 0
	for _, a := range nats {
		for _, b := range nats {
			for _, c := range nats {
				n++
				yield(ref.Addr{Kind: ref.Pointer, Net: byte(n & 1), Pay: ref.Cred{Script: n&2 != 0, Hash: ramp(28, byte(n))}, Ptr: [3]uint64{a, b, c}}.Bytes())
			}
		}
	}
	for k := uint64(0); k < small; k++ {
		for s := 0; s < 3; s++ {
			p := [3]uint64{5, 6, 7}
			p[s] = k
			yield(ref.Addr{Kind: ref.Pointer, Net: byte(k & 1), Pay: ref.Cred{Script: k&2 != 0, Hash: ramp(28, byte(k))}, Ptr: p}.Bytes())
		}
	}
	_ = hs
}

// genPointerTails: all strings of an adversarial alphabet as the pointer part.
func genPointerTails(r *core.Run, yield func(HB)) {
	alpha := []byte{0x00, 0x01, 0x7f, 0x80, 0x81, 0xff}
	max := core.Pick(r, 6, 8)
	r.Param("pointer_tails.max_len", max)
	for l := 0; l <= max; l++ {
		words(alpha, l, func(w []byte) {
			yield(append(append([]byte{0x40 | byte(l&1)}, ramp(28, 0x15)...), w...))
		})
	}
	// over-long naturals: 9..12 bytes with every first byte and boundary second byte
	for l := 8; l <= 12; l++ {
		for x := 0; x < 256; x++ {
			for _, y := range []byte{0x80, 0x81, 0xbf, 0xc0, 0xfe, 0xff} {
				for _, f := range []byte{0x80, 0xff} {
					for _, last := range []byte{0, 1, 0x7f} {
						nat := fill(l, f)
						nat[0], nat[1], nat[l-1] = byte(x), y, last
						for slot := 0; slot < 3; slot++ {
							tail := []byte{}
							for s := 0; s < 3; s++ {
								if s == slot {
									tail = append(tail, nat...)
								} else {
									tail = append(tail, byte(s+1))
								}
							}
							yield(append(append([]byte{0x51}, ramp(28, 0x15)...), tail...))
						}
					}
				}
			}
		}
	}
}

// words enumerates all words of length n over alpha.
func words(alpha []byte, n int, f func([]byte)) {
	w := make([]byte, n)
	var rec func(int)
	rec = func(i int) {
		if i == n {
			f(w)
			return
		}
		for _, a := range alpha {
			w[i] = a
			rec(i + 1)
		}
	}
	rec(0)
}

// longHead is a CBOR head forced to a given width.
func longHead(major byte, n uint64, width int) []byte {
	out := []byte{major<<5 | []byte{0: 0, 1: 24, 2: 25, 4: 26, 8: 27}[width]}
	for i := width - 1; i >= 0; i-- {
		out = append(out, byte(n>>(8*i)))
	}
	return out
}

// genByron: a grammar of Byron envelopes (valid, testnet, wrong tag, checksum, sizes, shapes, non-canonical
// heads), all single-byte mutations of valid ones with and without a repaired checksum.
func genByron(r *core.Run, yield func(HB)) {
	hashes := [][]byte{}
	for l := 0; l <= 40; l++ {
		hashes = append(hashes, ref.Bstr(ramp(l, 0x42)))
	}
	hashes = append(hashes, ref.Tstr(string(fill(28, 'a'))), ref.Uint(5), ref.Arr(), []byte{0xf6}, append(longHead(2, 28, 1), ramp(28, 3)...), append(longHead(2, 28, 2), ramp(28, 3)...), append(append([]byte{0x5f}, ref.Bstr(ramp(28, 3))...), 0xff))
	magic := ref.Bstr(ref.Uint(testMagic))
	attrs := [][]byte{
		ref.Map(),
		ref.Map(ref.Uint(1), ref.Bstr(ramp(29, 7))),
		ref.Map(ref.Uint(1), ref.Bstr(ref.Bstr(ramp(28, 7)))),
		ref.Map(ref.Uint(1), ref.Bstr(ramp(1, 7))),
		ref.Map(ref.Uint(1), ref.Bstr(ramp(24, 7))),
		ref.Map(ref.Uint(1), ref.Bstr(ramp(300, 7))),
		ref.Map(ref.Uint(1), ref.Bstr(nil)),
		ref.Map(ref.Uint(2), magic),
		ref.Map(ref.Uint(2), ref.Bstr(ref.Uint(1))),
		ref.Map(ref.Uint(1), ref.Bstr(ramp(29, 7)), ref.Uint(2), magic),
		ref.Map(ref.Uint(2), magic, ref.Uint(1), ref.Bstr(ramp(29, 7))),
		ref.Map(ref.Uint(2), ref.Uint(0)),
		ref.Map(ref.Uint(2), ref.Uint(255)),
		ref.Map(ref.Uint(2), ref.Uint(256)),
		ref.Map(ref.Uint(2), ref.Uint(testMagic)),
		ref.Map(ref.Uint(2), []byte{0xf6}),
		ref.Map(ref.Uint(1), []byte{0xf6}),
		ref.Map(ref.Uint(3), ref.Bstr([]byte{1})),
		ref.Map(ref.Uint(0), ref.Bstr([]byte{1})),
		ref.Map(ref.Uint(0), ref.Bstr([]byte{1}), ref.Uint(1), ref.Bstr(ramp(29, 7))),
		ref.Map(ref.Uint(1), ref.Bstr([]byte{1}), ref.Uint(1), ref.Bstr([]byte{2})),
		ref.Map(ref.Tstr("1"), ref.Bstr([]byte{1})),
		ref.Map(longHead(0, 1, 1), ref.Bstr([]byte{1})),
		{0xbf, 0xff},
		{0xbf, 0x01, 0x41, 0x01, 0xff},
		ref.Arr(), ref.Uint(0), {0xf6}, ref.Bstr(nil),
		{0xb8, 0x00},
	}
	types := [][]byte{ref.Uint(0), ref.Uint(1), ref.Uint(2), ref.Uint(23), ref.Uint(24), longHead(0, 0, 1), longHead(0, 0, 8), {0x20}, {0xf6}, {0xf4}, ref.Bstr(nil)}
	wrap := func(inner []byte) { yield(ref.ByronWrap(inner)) }
	for _, h := range hashes {
		for _, a := range attrs {
			for _, t := range types {
				wrap(ref.Arr(h, a, t))
			}
		}
	}
	h28 := ref.Bstr(ramp(28, 0x42))
	ok := ref.Arr(h28, ref.Map(), ref.Uint(0))
	okPay := ref.Arr(h28, ref.Map(ref.Uint(1), ref.Bstr(ref.Bstr(ramp(28, 7)))), ref.Uint(0))
	okNet := ref.Arr(h28, ref.Map(ref.Uint(2), magic), ref.Uint(0))
	// inner shapes
	for _, in := range [][]byte{ref.Arr(), ref.Arr(h28), ref.Arr(h28, ref.Map()), ref.Arr(h28, ref.Map(), ref.Uint(0), ref.Uint(0)), {0x9f, 0xff},
		append(append([]byte{0x9f}, ok[1:]...), 0xff), append([]byte{0x98, 3}, ok[1:]...), append(clone(ok), 0), ok[:len(ok)-1], {}, {0xff}, ref.Map(), ref.Bstr(ok)} {
		wrap(in)
	}
	// outer shapes
	crc := func(in []byte) []byte { b := ref.ByronWrap(in); it, _ := ref.Parse(b); return it.Kids[1].Raw }
	for _, in := range [][]byte{ok, okPay, okNet} {
		for tag := uint64(0); tag < 40; tag++ {
			yield(ref.Arr(ref.TagOf(tag, ref.Bstr(in)), crc(in)))
		}
		for _, o := range [][]byte{
			ref.Arr(ref.Bstr(in), crc(in)),
			ref.Arr(ref.TagOf(24, ref.Tstr(string(in))), crc(in)),
			ref.Arr(ref.TagOf(24, ref.Arr(ref.Bstr(in))), crc(in)),
			ref.Arr(ref.TagOf(24, ref.Uint(3)), crc(in)),
			ref.Arr(ref.TagOf(24, []byte{0xf6}), crc(in)),
			ref.Arr(ref.TagOf(24, ref.TagOf(24, ref.Bstr(in))), crc(in)),
			ref.Arr(ref.TagOf(24, ref.Bstr(in))),
			ref.Arr(ref.TagOf(24, ref.Bstr(in)), crc(in), ref.Uint(0)),
			append(append([]byte{0x9f}, append(ref.TagOf(24, ref.Bstr(in)), crc(in)...)...), 0xff),
			ref.Arr(append([]byte{0xd9, 0, 24}, ref.Bstr(in)...), crc(in)),
			ref.Arr(ref.TagOf(24, append(longHead(2, uint64(len(in)), 2), in...)), crc(in)),
			ref.Arr(ref.TagOf(24, append(append([]byte{0x5f}, ref.Bstr(in)...), 0xff)), crc(in)),
			ref.Arr(ref.TagOf(24, ref.Bstr(in)), append([]byte{0x1b, 0, 0, 0, 0}, crc(in)[len(crc(in))-4:]...)),
			ref.Arr(ref.TagOf(24, ref.Bstr(in)), ref.Bstr(crc(in)[1:])),
			ref.Arr(ref.TagOf(24, ref.Bstr(in)), append([]byte{0x3a}, crc(in)[len(crc(in))-4:]...)),
			append(ref.ByronWrap(in), 0),
			append([]byte{0x82}, ref.ByronWrap(in)...),
			ref.ByronWrap(in)[:len(ref.ByronWrap(in))-1],
		} {
			yield(o)
		}
		// every single-bit error of the checksum, and boundary checksums
		good := ref.ByronWrap(in)
		it, _ := ref.Parse(good)
		for k := 0; k < 33; k++ {
			yield(ref.Arr(it.Kids[0].Raw, ref.Uint(it.Kids[1].N^1<<k)))
		}
		for _, c := range []uint64{0, 1, 23, 24, 255, 256, 65535, 65536, 1<<32 - 1, 1 << 32, it.Kids[1].N + 1<<32, it.Kids[1].N + 1, it.Kids[1].N - 1, ^it.Kids[1].N & 0xffffffff} {
			yield(ref.Arr(it.Kids[0].Raw, ref.Uint(c)))
		}
		for cut := 1; cut < len(good); cut++ {
			yield(good[:cut])
		}
		// all single-byte mutations of the whole; of the payload with the checksum repaired
		for i := range good {
			for x := 0; x < 256; x++ {
				b := clone(good)
				b[i] = byte(x)
				yield(b)
			}
		}
		for i := range in {
			for x := 0; x < 256; x++ {
				b := clone(in)
				b[i] = byte(x)
				wrap(b)
			}
		}
		if r.Thorough() {
			for i := range in {
				for j := i + 1; j < len(in); j++ {
					for _, x := range []byte{0, 1, 0x18, 0x40, 0x5f, 0x80, 0x9f, 0xa0, 0xbf, 0xf6, 0xff} {
						for _, y := range []byte{0, 1, 0x18, 0x40, 0x5f, 0x80, 0x9f, 0xa0, 0xbf, 0xf6, 0xff} {
							b := clone(in)
							b[i], b[j] = x, y
							wrap(b)
						}
					}
				}
			}
		}
	}
	// payload lengths across every CBOR width and checksum widths
	for l := 0; l < core.Pick(r, 320, 1100); l++ {
		a := ref.Addr{Kind: ref.Byron, Pay: ref.Cred{Hash: ramp(28, byte(l))}}
		if l > 0 {
			a.Payload = ramp(l, byte(l))
		}
		yield(a.Bytes())
	}
	// many hashes: the checksum takes many values, short widths among them
	for k := 0; k < core.Pick(r, 40000, 1<<20); k++ {
		h := ramp(28, byte(k))
		h[0], h[1], h[27] = byte(k>>16), byte(k>>8), byte(k)
		yield(ref.Addr{Kind: ref.Byron, Pay: ref.Cred{Hash: h}}.Bytes())
	}
	// short CBOR strings exhaustively
	for x := 0; x < 256; x++ {
		for y := 0; y < 256; y++ {
			yield(HB{0x82, byte(x), byte(y)})
			yield(HB{0x80 | byte(x&15), byte(y)})
			yield(HB{0x82, 0xd8, 0x18, byte(x), byte(y)})
			yield(HB{0x82, 0xd8, 0x18, 0x58, byte(x), byte(y)})
		}
	}
	for _, w := range []int{1, 2, 4, 8} {
		for _, n := range []uint64{0, 1, 23, 40, 0xff, 0xffff, 0x7fffffff, 0xffffffff, 0x7fffffffffffffff, 0xffffffffffffffff} {
			for major := byte(0); major < 8; major++ {
				yield(append([]byte{0x82, 0xd8, 0x18}, longHead(major, n, w)...))
				yield(append([]byte{0x82}, longHead(major, n, w)...))
				yield(append(longHead(4, n, w), 1, 2, 3))
			}
		}
	}
	for depth := 1; depth < 40; depth++ {
		yield(append(fill(depth, 0x81), 0))
		yield(append(fill(depth, 0x9f), fill(depth, 0xff)...))
	}
}

var byteSpaces = []struct {
	n string
	g func(*core.Run, func(HB))
}{
	{"headers-lengths", genHeaders}, {"byte-positions", genPositions}, {"pointer-naturals", genPointers},
	{"pointer-tails", genPointerTails}, {"byron", genByron},
}

// decode runs both byte decoders and checks they agree and leave their input alone.
func decode(b []byte, n *core.Counter) (address.Address, error) {
	in, whole := spare(b)
	keep := clone(whole)
	a, err := address.NewAddressFromBytes(in)
	h, herr := address.NewAddressFromHex(hex.EncodeToString(b))
	n.Op(2)
	if (err == nil) != (herr == nil) {
		return nil, core.KeyErr("hex-differs", "bytes decode to error %v but their hex to error %v", err, herr)
	}
	if !bytes.Equal(whole, keep) {
		return nil, core.KeyErr("input-altered", "decoding altered its input")
	}
	if err != nil {
		return a, err
	}
	if a == nil || h == nil {
		return nil, core.KeyErr("nil-address", "nil address with nil error")
	}
	if !bytes.Equal(a.Bytes(), h.Bytes()) {
		return nil, core.KeyErr("hex-differs", "bytes decode to %x but their hex to %x", a.Bytes(), h.Bytes())
	}
	// hex digits mean the same in either case
	up := []byte(strings.ToUpper(hex.EncodeToString(b)))
	for k := 0; k < 2; k++ {
		h, herr := address.NewAddressFromHex(string(up))
		n.Op(1)
		if herr != nil || h == nil || !bytes.Equal(a.Bytes(), h.Bytes()) {
			return nil, core.KeyErr("hex-differs", "%x decodes, but %s to %v, %v", []byte(b), up, h, herr)
		}
		for i := range up {
			if i%3 != 0 && up[i] >= 'A' {
				up[i] += 'a' - 'A'
			}
		}
	}
	return a, nil
}

func isFinding(err error) bool { _, ok := err.(*core.Finding); return ok }

// checkC01 is the round-trip and meaning oracle.
func checkC01(b HB, n *core.Counter) error {
	a, err := decode(b, n)
	if isFinding(err) {
		return err
	}
	want, verdict := ref.DecodeAddr(b)
	if err != nil {
		n.Outcome("refused")
		if verdict == ref.Accept {
			return errf("valid %v address %x refused: %v", want.Kind, []byte(b), err)
		}
		if verdict == ref.ByronNet {
			return core.KeyErr("byron-testnet-refused", "valid Byron testnet address %x refused: %v", []byte(b), err)
		}
		return nil
	}
	out := a.Bytes()
	n.State(out)
	n.Op(2)
	if !bytes.Equal(out, b) {
		return errf("accepted %x re-encodes to %x", []byte(b), out)
	}
	again := a.Bytes()
	if !bytes.Equal(again, b) {
		return errf("the second encoding of %x is %x", []byte(b), again)
	}
	got, verr := view(a)
	if verr != nil {
		return errf("%x: %v", []byte(b), verr)
	}
	n.Outcome("accepted " + got.Kind.String())
	if verdict == ref.Accept || verdict == ref.ByronNet {
		if err := sameParts(got, want); err != nil {
			return errf("%x: %v", []byte(b), err)
		}
		if err := sameNet(a, want.Net); err != nil {
			return errf("%x: %v", []byte(b), err)
		}
	}
	// what becomes of one address does not matter to the next
	spoilAddr(a)
	if a, err := address.NewAddressFromBytes(clone(b)); err != nil || !bytes.Equal(a.Bytes(), b) {
		return errf("%x, read again after the first address was changed, is %v (%v)", []byte(b), a, err)
	}
	return nil
}

// checkC04 is the totality and refusal oracle on bytes.
func checkC04(b HB, n *core.Counter) error {
	a, err := decode(b, n)
	if isFinding(err) {
		return err
	}
	_, verdict := ref.DecodeAddr(b)
	if err != nil {
		n.Outcome("refused")
		return nil
	}
	n.Outcome("accepted")
	if verdict == ref.Refuse {
		return errf("malformed input %x accepted as %T", []byte(b), a)
	}
	return usable(a, n)
}

func usable(a address.Address, n *core.Counter) error {
	if len(a.Bytes()) == 0 || a.String() == "" || a.NetworkInfo() == nil {
		return errf("accepted address is unusable: bytes %x text %q", a.Bytes(), a.String())
	}
	if _, err := a.MarshalCBOR(); err != nil {
		return errf("accepted address does not marshal: %v", err)
	}
	n.Op(4)
	n.State(a.Bytes())
	return nil
}

// ---- C04: texts ----

const b58alpha = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

var hrps = []string{"addr", "addr_test", "stake", "stake_test"}

// genTexts enumerates hostile address texts.
func genTexts(r *core.Run, y func(QS)) {
	yield := func(s string) { y(QS(s)) }
	yield("")
	var printable []byte
	for c := 0; c < 256; c++ {
		printable = append(printable, byte(c))
	}
	for l := 1; l <= 2; l++ {
		words(printable, l, func(w []byte) { yield(string(w)) })
	}
	alpha := []byte("1qpaQ_ \x00\x80")
	tails := core.Pick(r, 4, 6)
	for _, pre := range []string{"addr", "addr1", "addr_test", "addr_test1", "stake", "stake1", "stake_test1", "ADDR1", "1", "Ae2", "addr_vk1", "add"} {
		for l := 0; l <= tails; l++ {
			words(alpha, l, func(w []byte) { yield(pre + string(w)) })
		}
	}
	// well-checksummed texts around every length and header
	for _, hrp := range append([]string{"addr_vk", "stake_vkh", "script", "addr1", "stake_"}, hrps...) {
		for l := 0; l <= 66; l++ {
			for h := 0; h < 256; h++ {
				b := ramp(l, 0x31)
				if l > 0 {
					b[0] = byte(h)
				} else if h > 0 {
					continue
				}
				yield(ref.Bech32(hrp, b))
			}
		}
		// zero data characters, and data whose padding is not zero or is a whole character
		for _, body := range []string{"", "q", "p", "qq", "qp", "l", "ll", "qqqqqqqq", "qqqqqqqp"} {
			yield(bech32Raw(hrp, body))
		}
		for _, a := range sampleAddrs() {
			t := ref.Bech32(hrp, a.Bytes())
			body := t[len(hrp)+1 : len(t)-6]
			for _, extra := range []string{"q", "p", "l", "qq", "qp", "qqqqqqqq"} {
				yield(bech32Raw(hrp, body+extra))
			}
			for _, c := range "qpzry9x8gf2tvdw0s3jn54khce6mua7l" {
				yield(bech32Raw(hrp, body[:len(body)-1]+string(c)))
			}
			yield(bech32Raw(hrp, body[:len(body)-1]))
		}
	}
	for l := 0; l <= 66; l++ {
		for h := 0; h < 256; h++ {
			b := ramp(l, 0x31)
			if l > 0 {
				b[0] = byte(h)
			} else if h > 0 {
				continue
			}
			yield(ref.Base58(b))
		}
	}
	for _, a := range sampleAddrs() {
		yield(ref.Base58(a.Bytes()))
		yield("1" + ref.Base58(a.Bytes()))
		yield(hex.EncodeToString(a.Bytes()))
		t := a.Text()
		for _, junk := range []string{" ", "\n", "\x00", "é", "\xff", "ſ", "K", "İ", "1", "addr1"} {
			for i := 0; i <= len(t); i++ {
				yield(t[:i] + junk + t[i:])
			}
		}
		yield(strings.ToUpper(t))
		yield(t + t)
		yield(strings.Repeat(t, 50))
	}
	// too short for a checksum, yet satisfying its equation: all prefixes made of a known word and up to 3 [4]
	// further letters, and all short words
	for l := 0; l <= core.Pick(r, 3, 4); l++ {
		words([]byte("abcdefghijklmnopqrstuvwxyz_0"), l, func(w []byte) {
			for _, h := range []string{"addr", "stake", "addr_test", "stake_test", ""} {
				if h == "" && l == 0 {
					continue
				}
				for _, s := range ref.Bech32Short(h + string(w)) {
					yield(s)
				}
			}
		})
	}
	for _, k := range []int{100, 1000, 10000} {
		yield(strings.Repeat("1", k))
		yield(strings.Repeat("z", k))
		yield("addr1" + strings.Repeat("q", k))
		yield("addr" + strings.Repeat("1", k))
	}
}

// bech32Raw checksums arbitrary data characters.
func bech32Raw(hrp, body string) string {
	return ref.Bech32Chars(hrp, body)
}

func checkText(q QS, n *core.Counter) error {
	s := string(q)
	a, err := address.NewAddress(s)
	n.Op(1)
	hrp, data, isB32 := ref.UnBech32(s)
	isB32 = isB32 && s == strings.ToLower(s)
	if err != nil {
		n.Outcome("refused")
		return nil
	}
	n.Outcome("accepted")
	if a == nil {
		return errf("%q: nil address with nil error", s)
	}
	if err := usable(a, n); err != nil {
		return errf("%q: %v", s, err)
	}
	// an accepted text must be the text of a well-formed address
	if a.String() == s {
		return nil
	}
	if !isB32 {
		return errf("malformed text %q accepted as %s", s, a.String())
	}
	want, v := ref.DecodeAddr(data)
	if v == ref.Refuse || want.Prefix() != hrp {
		return errf("malformed text %q accepted as %s", s, a.String())
	}
	return nil
}

// genHexTexts enumerates hostile hex texts.
func genHexTexts(r *core.Run, y func(QS)) {
	yield := func(s string) { y(QS(s)) }
	var all []byte
	for c := 0; c < 256; c++ {
		all = append(all, byte(c))
	}
	for l := 0; l <= 2; l++ {
		words(all, l, func(w []byte) { yield(string(w)) })
	}
	for _, a := range sampleAddrs() {
		t := hex.EncodeToString(a.Bytes())
		yield("0x" + t)
		yield(strings.ToUpper(t))
		for i := 0; i <= len(t); i++ {
			yield(t[:i])
			for _, junk := range []string{" ", "g", "0", "00", "\x00", "é", "-"} {
				yield(t[:i] + junk + t[i:])
			}
			if i < len(t) {
				for c := 0; c < 256; c++ {
					yield(t[:i] + string([]byte{byte(c)}) + t[i+1:])
				}
			}
		}
	}
}

func checkHexText(q QS, n *core.Counter) error {
	s := string(q)
	a, err := address.NewAddressFromHex(s)
	n.Op(1)
	if err != nil {
		n.Outcome("refused")
		return nil
	}
	n.Outcome("accepted")
	if a == nil {
		return errf("%q: nil address with nil error", s)
	}
	b, herr := hex.DecodeString(s)
	if herr != nil {
		return errf("malformed hex %q accepted as %x", s, a.Bytes())
	}
	if _, v := ref.DecodeAddr(b); v == ref.Refuse {
		return errf("malformed hex %q accepted as %x", s, a.Bytes())
	}
	if !bytes.Equal(a.Bytes(), b) {
		return errf("hex %q gives %x", s, a.Bytes())
	}
	return usable(a, n)
}

// checkByronCBOR reads the bytes straight into a Byron address, as a CBOR decoder does with one inside a larger item.
// There, other spellings of the same item may be accepted; a wrong checksum, tag or hash size may not.
func checkByronCBOR(b HB, n *core.Counter) error {
	var a, d address.ByronAddress
	in, whole := spare(b)
	keep := clone(whole)
	err := a.UnmarshalCBOR(in)
	derr := cbor.Unmarshal(in, &d)
	n.Op(2)
	if !bytes.Equal(whole, keep) {
		return errf("decoding altered its input")
	}
	if err != nil && derr == nil {
		return errf("UnmarshalCBOR of %x says %v, but the decoder that calls it nothing", []byte(b), err)
	}
	want, v := ref.DecodeAddr(b)
	if want.Kind != ref.Byron {
		v = ref.Refuse
	}
	if err != nil {
		n.Outcome("refused")
		if v == ref.Accept {
			return errf("valid Byron address %x refused: %v", []byte(b), err)
		}
		return nil
	}
	n.Outcome("accepted")
	n.State(a.Bytes())
	if v == ref.Accept && (!bytes.Equal(a.Bytes(), b) || !bytes.Equal(a.Hash, want.Pay.Hash)) {
		return errf("%x is read as %x", []byte(b), a.Bytes())
	}
	if len(a.Hash) != 28 || a.Tag != 0 {
		return errf("%x accepted with a hash of %d bytes, type %d", []byte(b), len(a.Hash), a.Tag)
	}
	top, perr := ref.Parse(b)
	if perr != nil || top.Major != 4 || len(top.Kids) != 2 || top.Kids[0].Major != 6 || top.Kids[0].Kids[0].Major != 2 || top.Kids[1].Major != 0 {
		return nil
	}
	inner := top.Kids[0].Kids[0].Bytes
	if top.Kids[0].N != 24 {
		return errf("%x accepted: its content has tag %d", []byte(b), top.Kids[0].N)
	}
	if top.Kids[1].N != uint64(crc32.ChecksumIEEE(inner)) {
		return errf("%x accepted: its checksum is wrong", []byte(b))
	}
	return nil
}

func init() {
	var c1, c4 []core.Sub
	for _, s := range byteSpaces {
		c1 = append(c1, core.S[HB]{N: s.n, Gen: s.g, Check: checkC01})
		c4 = append(c4, core.S[HB]{N: s.n, Gen: s.g, Check: checkC04})
	}
	c1 = append(c1, core.S[QS]{N: "hex-texts", Gen: genHexTexts, Check: checkHexText})
	c4 = append(c4, core.S[HB]{N: "byron-cbor", Gen: genByron, Check: checkByronCBOR}, core.S[QS]{N: "texts", Gen: genTexts, Check: checkText},
		core.S[QS]{N: "hex-texts", Gen: genHexTexts, Check: checkHexText})
	core.Register(&core.Prop{ID: "C01", Level: "model_checking", Subs: c1,
		Exhaustive:  "every header byte x length x fill pattern; every value of every byte position of every Shelley kind; all position pairs over boundary values; all boundary pointer triples; a grammar of Byron envelopes with all single-byte mutations (checksum kept and repaired)",
		Assumptions: []string{"well-formed Byron attributes other than the derivation payload and network magic may be accepted or refused", "uncovered: three or more simultaneous deviations from the patterns enumerated"}})
	core.Register(&core.Prop{ID: "C04", Level: "model_checking", Subs: c4,
		Exhaustive:  "the byte spaces of C01; the Byron space read as CBOR directly; all texts of up to 2 bytes; hostile suffixes of every prefix; checksummed texts of every header and length under every prefix; base58 texts; hex texts",
		Assumptions: []string{"non-termination is judged by a 120 s limit on a batch of micro-second operations", "uncovered: inputs longer than the stated bounds"}})
}
