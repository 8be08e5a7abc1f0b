package props

import (
	"bytes"
	"crypto/ed25519"
	"encoding/hex"
	"sort"
	"sync"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/core"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/ref"
	"github.com/fxamacker/cbor/v2"
)

// mIn, mOut, mTx are the model of a transaction: what was added, in order.
type mIn struct {
	Hash HB
	Ix   uint16
	Amt  uint64
}
type mOut struct {
	Addr HB // address bytes
	Amt  uint64
}
type mTx struct {
	Ins     []mIn
	Outs    []mOut
	Fee     uint64
	TTL     uint32
	Meta    *meta
	Wits    [][2]HB // public key, signature
	Invalid bool
}

func (m mTx) totals() (in, out uint64) {
	for _, i := range m.Ins {
		in += i.Amt
	}
	for _, o := range m.Outs {
		out += o.Amt
	}
	return
}

// body encodes the body; auxHash nil when there is no metadata.
func (m mTx) body(auxHash []byte) []byte {
	var ins, outs [][]byte
	for _, i := range m.Ins {
		ins = append(ins, ref.Arr(ref.Bstr(i.Hash), ref.Uint(uint64(i.Ix))))
	}
	for _, o := range m.Outs {
		outs = append(outs, ref.Arr(ref.Bstr(o.Addr), ref.Uint(o.Amt)))
	}
	kv := [][]byte{ref.Uint(0), ref.Arr(ins...), ref.Uint(1), ref.Arr(outs...), ref.Uint(2), ref.Uint(m.Fee)}
	if m.TTL != 0 {
		kv = append(kv, ref.Uint(3), ref.Uint(uint64(m.TTL)))
	}
	if auxHash != nil {
		kv = append(kv, ref.Uint(7), ref.Bstr(auxHash))
	}
	return ref.Map(kv...)
}

func (m mTx) wits() []byte {
	if len(m.Wits) == 0 {
		return ref.Map()
	}
	var ws [][]byte
	for _, w := range m.Wits {
		ws = append(ws, ref.Arr(ref.Bstr(w[0]), ref.Bstr(w[1])))
	}
	return ref.Map(ref.Uint(0), ref.Arr(ws...))
}

// size is the length of the transaction when signed with the given number of keys, at least one.
func (m mTx) size(keys int) uint64 {
	meta, aux := []byte{0xf6}, []byte(nil)
	if m.Meta != nil && !bytes.Equal(m.Meta.Enc, meta) {
		meta, aux = m.Meta.Enc, make([]byte, 32)
	}
	m.Wits = nil
	for i := 0; i == 0 || i < keys; i++ {
		m.Wits = append(m.Wits, [2]HB{make([]byte, 32), make([]byte, 64)})
	}
	return uint64(len(ref.Arr(m.body(aux), m.wits(), m.flag(), meta)))
}

func (m mTx) flag() []byte {
	if m.Invalid {
		return []byte{0xf4}
	}
	return []byte{0xf5}
}

// meta is a metadata value with its expected encoding (map entries in any order).
type meta struct {
	Name string
	Val  func() interface{}
	Enc  []byte
	Bad  bool // cannot be encoded
}

func strKeys(n int) (map[string]interface{}, []byte) {
	m := map[string]interface{}{}
	var kv [][]byte
	for i := 0; i < n; i++ {
		k := string(rune('a'+i%26)) + string(bytes.Repeat([]byte{'x'}, i/3))
		m[k] = i
		kv = append(kv, ref.Tstr(k), ref.Uint(uint64(i)))
	}
	return m, ref.Map(kv...)
}

type metaStruct struct {
	Label string `cbor:"label"`
	Count uint64 `cbor:"count"`
	Note  string `cbor:"note,omitempty"`
}

type metaArr struct {
	_ struct{} `cbor:",toarray"`
	A uint64
	B map[string]uint64
}

// metas lists the metadata shapes.
func metas() (out []*meta) {
	add := func(name string, v func() interface{}, enc []byte) {
		out = append(out, &meta{Name: name, Val: v, Enc: enc})
	}
	add("msg", func() interface{} {
		return map[uint64]interface{}{674: map[string]interface{}{"msg": []string{"hello"}}}
	}, ref.Map(ref.Uint(674), ref.Map(ref.Tstr("msg"), ref.Arr(ref.Tstr("hello")))))
	add("text", func() interface{} { return "some text" }, ref.Tstr("some text"))
	add("bytes", func() interface{} { return []byte{1, 2, 3} }, ref.Bstr([]byte{1, 2, 3}))
	add("uint", func() interface{} { return uint64(1 << 40) }, ref.Uint(1<<40))
	add("zero", func() interface{} { return 0 }, ref.Uint(0))
	add("empty text", func() interface{} { return "" }, ref.Tstr(""))
	add("false", func() interface{} { return false }, []byte{0xf4})
	add("empty map", func() interface{} { return map[uint64]interface{}{} }, ref.Map())
	add("empty map of texts", func() interface{} { return map[string]interface{}{} }, ref.Map())
	add("pointer to empty map", func() interface{} { m := map[interface{}]interface{}{}; return &m }, ref.Map())
	add("empty struct", func() interface{} { return struct{}{} }, ref.Map())
	add("empty bytes", func() interface{} { return []byte{} }, ref.Bstr(nil))
	add("empty list", func() interface{} { return []interface{}{} }, ref.Arr())
	add("list", func() interface{} {
		return []interface{}{1, "a", []byte{9}, map[uint64]string{1: "one", 2: "two"}, nil}
	}, ref.Arr(ref.Uint(1), ref.Tstr("a"), ref.Bstr([]byte{9}), ref.Map(ref.Uint(1), ref.Tstr("one"), ref.Uint(2), ref.Tstr("two")), []byte{0xf6}))
	add("two labels", func() interface{} { return map[uint64]interface{}{1: "one", 2: "two"} }, ref.Map(ref.Uint(1), ref.Tstr("one"), ref.Uint(2), ref.Tstr("two")))
	add("negative", func() interface{} { return map[int]int{-1: -2, 3: 4, -500: 1} }, ref.Map([]byte{0x20}, []byte{0x21}, ref.Uint(3), ref.Uint(4), []byte{0x39, 0x01, 0xf3}, ref.Uint(1)))
	for _, n := range []int{1, 3, 8, 9, 20, 40} {
		_, enc := strKeys(n)
		n := n
		add("strings", func() interface{} { m, _ := strKeys(n); return m }, enc)
	}
	add("nested", func() interface{} {
		a, _ := strKeys(6)
		b, _ := strKeys(12)
		return map[uint64]interface{}{1: a, 20: b, 300: map[uint64]interface{}{7: a, 70000: "x"}}
	}, func() []byte {
		_, a := strKeys(6)
		_, b := strKeys(12)
		return ref.Map(ref.Uint(1), a, ref.Uint(20), b, ref.Uint(300), ref.Map(ref.Uint(7), a, ref.Uint(70000), ref.Tstr("x")))
	}())
	add("mixed keys", func() interface{} {
		return map[interface{}]interface{}{1: "int", "one": "text", uint64(1 << 40): "big", -7: "neg", true: "bool"}
	}, ref.Map(ref.Uint(1), ref.Tstr("int"), ref.Tstr("one"), ref.Tstr("text"), ref.Uint(1<<40), ref.Tstr("big"), []byte{0x26}, ref.Tstr("neg"), []byte{0xf5}, ref.Tstr("bool")))
	add("struct", func() interface{} { return metaStruct{Label: "l", Count: 5} }, ref.Map(ref.Tstr("label"), ref.Tstr("l"), ref.Tstr("count"), ref.Uint(5)))
	add("pointer to struct", func() interface{} { return &metaStruct{Label: "l", Count: 5, Note: "n"} }, ref.Map(ref.Tstr("label"), ref.Tstr("l"), ref.Tstr("count"), ref.Uint(5), ref.Tstr("note"), ref.Tstr("n")))
	add("array struct", func() interface{} { return metaArr{A: 7, B: map[string]uint64{"p": 1, "q": 2, "rr": 3}} },
		ref.Arr(ref.Uint(7), ref.Map(ref.Tstr("p"), ref.Uint(1), ref.Tstr("q"), ref.Uint(2), ref.Tstr("rr"), ref.Uint(3))))
	add("pointer to map", func() interface{} { m := map[uint64]string{5: "five", 6: "six"}; return &m }, ref.Map(ref.Uint(5), ref.Tstr("five"), ref.Uint(6), ref.Tstr("six")))
	add("raw", func() interface{} {
		return cbor.RawMessage(ref.Map(ref.Uint(9), ref.Tstr("z"), ref.Uint(1), ref.Tstr("y")))
	}, ref.Map(ref.Uint(9), ref.Tstr("z"), ref.Uint(1), ref.Tstr("y")))
	add("tag 259", func() interface{} {
		return cbor.Tag{Number: 259, Content: map[uint64]interface{}{0: map[uint64]string{1: "a", 2: "b", 3: "c"}}}
	}, ref.TagOf(259, ref.Map(ref.Uint(0), ref.Map(ref.Uint(1), ref.Tstr("a"), ref.Uint(2), ref.Tstr("b"), ref.Uint(3), ref.Tstr("c")))))
	add("long text", func() interface{} { return map[uint64]string{1: string(fill(5000, 'x'))} }, ref.Map(ref.Uint(1), ref.Tstr(string(fill(5000, 'x')))))
	return
}

// noMetas are values that serialize to null: no metadata.
func noMetas() (out []*meta) {
	add := func(name string, v func() interface{}) { out = append(out, &meta{Name: name, Val: v}) }
	add("nil", func() interface{} { return nil })
	add("nil map", func() interface{} { return map[uint64]interface{}(nil) })
	add("nil pointer", func() interface{} { return (*metaStruct)(nil) })
	add("nil slice", func() interface{} { return []interface{}(nil) })
	return
}

func badMetas() (out []*meta) {
	add := func(name string, v func() interface{}) { out = append(out, &meta{Name: name, Val: v, Bad: true}) }
	add("channel", func() interface{} { return make(chan int) })
	add("function", func() interface{} { return func() {} })
	add("map of channels", func() interface{} { return map[string]interface{}{"a": 1, "b": make(chan int)} })
	add("complex", func() interface{} { return complex(1, 2) })
	add("list with function", func() interface{} { return []interface{}{1, func() {}} })
	return
}

// sameTree compares items, maps without regard to order.
func sameTree(a, b ref.Item) bool {
	if a.Major != b.Major {
		return false
	}
	switch a.Major {
	case 5:
		if len(a.Kids) != len(b.Kids) {
			return false
		}
		ka, kb := pairs(a), pairs(b)
		for i := range ka {
			if !sameTree(ka[i][0], kb[i][0]) || !sameTree(ka[i][1], kb[i][1]) {
				return false
			}
		}
		return true
	case 4, 6:
		if a.N != b.N || len(a.Kids) != len(b.Kids) {
			return false
		}
		for i := range a.Kids {
			if !sameTree(a.Kids[i], b.Kids[i]) {
				return false
			}
		}
		return true
	}
	return bytes.Equal(a.Raw, b.Raw)
}

func pairs(it ref.Item) (out [][2]ref.Item) {
	for i := 0; i+1 < len(it.Kids); i += 2 {
		out = append(out, [2]ref.Item{it.Kids[i], it.Kids[i+1]})
	}
	sort.SliceStable(out, func(i, j int) bool { return bytes.Compare(out[i][0].Raw, out[j][0].Raw) < 0 })
	return
}

// split takes a serialized transaction apart.
type splitTx struct {
	body, wits, meta ref.Item
	aux              []byte // auxiliary data hash in the body, nil when absent
	wlist            [][2]HB
}

func split(b []byte) (s splitTx, err error) {
	it, err := ref.Parse(b)
	if err != nil {
		return s, errf("not strict CBOR: %v: %x", err, b)
	}
	if it.Major != 4 || len(it.Kids) != 4 {
		return s, errf("not an array of four: %x", b)
	}
	if v := it.Kids[2].Raw; len(v) != 1 || v[0] != 0xf4 && v[0] != 0xf5 {
		return s, errf("validity flag is %x", v)
	}
	s.body, s.wits, s.meta = it.Kids[0], it.Kids[1], it.Kids[3]
	if s.body.Major != 5 || s.wits.Major != 5 {
		return s, errf("body or witness set is not a map")
	}
	for i := 0; i+1 < len(s.body.Kids); i += 2 {
		if k := s.body.Kids[i]; k.Major == 0 && k.N == 7 {
			if s.body.Kids[i+1].Major != 2 || len(s.body.Kids[i+1].Bytes) != 32 {
				return s, errf("auxiliary data hash is %x", s.body.Kids[i+1].Raw)
			}
			s.aux = s.body.Kids[i+1].Bytes
		}
	}
	for i := 0; i+1 < len(s.wits.Kids); i += 2 {
		k, v := s.wits.Kids[i], s.wits.Kids[i+1]
		if k.Major != 0 || k.N != 0 || v.Major != 4 {
			return s, errf("unexpected witness set entry %x", k.Raw)
		}
		for _, w := range v.Kids {
			if w.Major != 4 || len(w.Kids) != 2 || w.Kids[0].Major != 2 || w.Kids[1].Major != 2 {
				return s, errf("malformed witness %x", w.Raw)
			}
			s.wlist = append(s.wlist, [2]HB{w.Kids[0].Bytes, w.Kids[1].Bytes})
		}
	}
	return s, nil
}

// checkMeta: the embedded metadata is what was set, and the hash in the body matches it.
func (s splitTx) checkMeta(m *meta) error {
	if m == nil || m.Enc == nil {
		if !s.meta.IsNull() {
			return errf("metadata %x though none was set", s.meta.Raw)
		}
		if s.aux != nil {
			return errf("auxiliary data hash %x without metadata", s.aux)
		}
		return nil
	}
	want, err := ref.Parse(m.Enc)
	if err != nil {
		return errf("harness: bad expected metadata: %v", err)
	}
	if !sameTree(s.meta, want) {
		return errf("metadata %s is %x, want %x up to map order", m.Name, s.meta.Raw, m.Enc)
	}
	return s.checkAux()
}

// checkAux: auxiliary data hash present exactly with metadata, and matching it.
func (s splitTx) checkAux() error {
	if s.meta.IsNull() {
		if s.aux != nil {
			return errf("auxiliary data hash %x without metadata", s.aux)
		}
		return nil
	}
	if s.aux == nil {
		return errf("metadata %x without auxiliary data hash", s.meta.Raw)
	}
	if want := ref.Blake2b(32, s.meta.Raw); !bytes.Equal(s.aux, want) {
		return errf("auxiliary data hash %x, but the embedded metadata hashes to %x", s.aux, want)
	}
	return nil
}

// checkTx compares a transaction's serialization, hex, hash and size with the model. It makes one Bytes, Hex
// and Hash call each.
func checkTx(t *tx.Tx, m mTx, n *core.Counter) (splitTx, error) {
	b, err := t.Bytes()
	if err != nil {
		return splitTx{}, errf("serialization fails: %v", err)
	}
	s, err := split(b)
	if err != nil {
		return s, err
	}
	if err := s.checkMeta(m.Meta); err != nil {
		return s, err
	}
	want := ref.Arr(m.body(s.aux), m.wits(), m.flag(), s.meta.Raw)
	if !bytes.Equal(b, want) {
		return s, errf("serialization is\n  %x, want\n  %x", b, want)
	}
	h, err := t.Hex()
	if err != nil || h != hex.EncodeToString(b) {
		return s, errf("hex form is %q (%v), bytes are %x", h, err, b)
	}
	id, err := t.Hash()
	if err != nil || !bytes.Equal(id[:], ref.Blake2b(32, s.body.Raw)) {
		return s, errf("hash is %x (%v), want %x, the digest of the body %x", id, err, ref.Blake2b(32, s.body.Raw), s.body.Raw)
	}
	bb, err := t.Body.Bytes()
	if err != nil || !bytes.Equal(bb, s.body.Raw) {
		return s, errf("body bytes are %x (%v), embedded body is %x", bb, err, s.body.Raw)
	}
	bh, err := t.Body.Hex()
	if err != nil || bh != hex.EncodeToString(s.body.Raw) {
		return s, errf("body hex is %s (%v), embedded body is %x", bh, err, s.body.Raw)
	}
	n.Op(5)
	n.State(b)
	return s, nil
}

// ---- keys ----

type testKey struct {
	xprv bip32.XPrv
	pub  HB
}

var (
	keyOnce  sync.Once
	testKeys []testKey
)

// keyN is the n-th test key (derived by the reference).
func keyN(n int) testKey {
	keyOnce.Do(func() {
		root := ref.RootFromSeed(ramp(32, 0x44))
		for i := 0; i < 300; i++ {
			k := ref.Derive(root, uint32(i)|1<<31)
			p := ref.PublicOf(k)
			testKeys = append(testKeys, testKey{k, clone(p[:])})
		}
		// keys that agree with key 0 in some part
		a, b := testKeys[0].xprv, testKeys[1].xprv
		flip := func(i int) bip32.XPrv {
			k := clone(a)
			k[i] ^= 0x10
			return k
		}
		for _, k := range []bip32.XPrv{cat(a[:64], b[64:]), cat(a[:32], b[32:64], a[64:]), cat(b[:32], a[32:]), cat(b[:64], a[64:]), flip(5), flip(40), flip(64), flip(95), flip(30)} {
			p := ref.PublicOf(k)
			testKeys = append(testKeys, testKey{k, clone(p[:])})
		}
	})
	return testKeys[n]
}

// relatedKeys is how many keys from keyN(firstRelated) on share a part with key 0.
const firstRelated, relatedKeys = 300, 9

func cat(l ...[]byte) (out []byte) {
	for _, b := range l {
		out = append(out, b...)
	}
	return
}

func xprv(n int) bip32.XPrv { return clone(keyN(n).xprv) }

// checkWits: exactly one valid witness per key, in order.
func (s splitTx) checkWits(keys []int, n *core.Counter) error {
	if len(s.wlist) != len(keys) {
		return errf("%d witnesses for %d signing keys", len(s.wlist), len(keys))
	}
	id := ref.Blake2b(32, s.body.Raw)
	for i, k := range keys {
		if !bytes.Equal(s.wlist[i][0], keyN(k).pub) {
			return errf("witness %d is for key %x, want %x", i, []byte(s.wlist[i][0]), []byte(keyN(k).pub))
		}
		n.Op(1)
		if len(s.wlist[i][1]) != 64 || !ed25519.Verify(ed25519.PublicKey(keyN(k).pub), id, s.wlist[i][1]) {
			return errf("witness %d does not verify over the transaction id %x", i, id)
		}
	}
	return nil
}

// ---- ingredients ----

func inHash(n int) []byte {
	h := ref.Blake2b(32, []byte{byte(n), byte(n >> 8), 0x77})
	return h
}

func mkIn(i mIn) *tx.TxInput { return tx.NewTxInput(hex.EncodeToString(i.Hash), i.Ix, uint(i.Amt)) }

func mustAddr(b []byte) address.Address {
	a, err := address.NewAddressFromBytes(b)
	if err != nil {
		panic("harness: address " + hex.EncodeToString(b) + " refused: " + err.Error())
	}
	return a
}

func mkOut(o mOut) *tx.TxOutput { return tx.NewTxOutput(mustAddr(o.Addr), uint(o.Amt)) }

var defaultProto = protocol.Protocol{TxFeePerByte: 44, TxFeeFixed: 155381, MaxTxSize: 16384, ProtocolVersion: protocol.ProtocolVersion{Major: 4}, MinUTXOValue: 1000000}

// cborBoundary lists amounts around every CBOR width boundary.
var cborBoundary = []uint64{0, 1, 22, 23, 24, 25, 255, 256, 65535, 65536, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}
