package props

import (
	"bytes"
	"encoding/hex"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/fees"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/core"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/ref"
)

// aspect is what a disagreement is about; each property's check reports its own aspects only.
type aspect int

const (
	aBody    aspect = 1 << iota // C12
	aID                         // C13
	aAux                        // C14
	aWit                        // C15
	aChange                     // C16
	aCover                      // C17
	aFee                        // C18
	aSaved                      // C20
	aNothing aspect = 0
)

// mBuilder is the model of a builder.
type mBuilder struct {
	mTx
	keys []int
}

// bOps is the alphabet of builder histories.
var bOps = []string{"AddInputs(1)", "AddInputs(3)", "AddOutputs(1)", "AddOutputs(2)", "Sign", "SetTTL", "SetFee", "metadata=map", "metadata=text", "metadata=nil",
	"AddChangeIfNeeded", "Build", "MinFee", "Tx.Hash", "Tx.Bytes", "Tx.Hex", "Tx.Fee", "metadata=unencodable", "reverse Tx().Body.Inputs and Outputs"}

const (
	oIn1 = iota
	oIn3
	oOut1
	oOut2
	oSign
	oTTL
	oSetFee
	oMetaMap
	oMetaText
	oMetaNil
	oChange
	oBuild
	oMinFee
	oHash
	oBytes
	oHex
	oFee
	oMetaBad
	oRev
)

// Hist is a history of builder operations.
type Hist struct {
	Keys int // keys given to NewTxBuilder
	Ops  []int
}

// bench runs histories on one real builder in step with its model.
type bench struct {
	b       *tx.TxBuilder
	m       mBuilder
	n       *core.Counter
	want    aspect
	hist    string
	nin     int
	nout    int
	nttl    int
	nchg    int
	objs    map[string]address.Address
	saved   []savedTx
	addrs   [][]byte
	metaMap *meta
	metaTxt *meta
	metaBad *meta

	pendHash [32]byte // hash returned since the last change, to be compared with the next serialization
	pendOK   bool
	pendBody []byte // body of the last serialization since the last change
	covered  bool   // the last change was AddChangeIfNeeded with sufficient inputs, or only Sign of a first key since
	changed  bool   // ... and it added change
	keysAt   int
	lastWits [][2]HB
}

type savedTx struct {
	t    *tx.Tx
	b    []byte
	body []byte // the bytes of its body
	h    [32]byte
	keys []int
}

var (
	histAddrs [][]byte
	histMap   *meta
	histText  *meta
	histBad   *meta
)

func init() {
	for _, a := range sampleAddrs() {
		histAddrs = append(histAddrs, a.Bytes())
	}
	for _, m := range metas() {
		switch m.Name {
		case "nested":
			histMap = m
		case "text":
			histText = m
		}
	}
	histBad = badMetas()[2]
}

func newBench(keys int, want aspect, n *core.Counter) *bench {
	list := make([]bip32.XPrv, 0, keys+3)
	x := &bench{n: n, want: want, addrs: histAddrs, metaMap: histMap, metaTxt: histText, metaBad: histBad}
	for i := 0; i < keys; i++ {
		list = append(list, xprv(i))
		x.m.keys = append(x.m.keys, i)
	}
	x.b = tx.NewTxBuilder(defaultProto, list)
	return x
}

// is reports err when the property under check owns the aspect.
func (x *bench) is(a aspect, err error) error {
	if err == nil || x.want&a == 0 {
		return nil
	}
	return errf("after %s%v", x.hist, err)
}

func (x *bench) touched() { x.pendOK, x.pendBody, x.covered = false, nil, false }

func (x *bench) nextIn() mIn {
	amts := []uint64{3_000_000, 255, 70_000_000_000, 100_000}
	i := mIn{Hash: inHash(x.nin), Ix: []uint16{300, 2, 65535, 0, 24}[x.nin%5], Amt: amts[x.nin%len(amts)]}
	x.nin++
	return i
}

func (x *bench) nextOut() mOut {
	amts := []uint64{1_000_000, 23, 65_536, 1 << 33}
	o := mOut{Addr: x.addrs[(x.nout*5)%len(x.addrs)], Amt: amts[x.nout%len(amts)]}
	x.nout++
	return o
}

// addr returns the address as an object, the same one for the same bytes.
func (x *bench) addr(b []byte) address.Address {
	if x.objs == nil {
		x.objs = map[string]address.Address{}
	}
	if x.objs[string(b)] == nil {
		x.objs[string(b)] = mustAddr(b)
	}
	return x.objs[string(b)]
}

func (x *bench) outs() (out []mOut) {
	for _, o := range x.b.Tx().Body.Outputs {
		out = append(out, mOut{o.Address.Bytes(), uint64(o.Amount)})
	}
	return
}

func (x *bench) ins() (out []mIn) {
	for _, i := range x.b.Tx().Body.Inputs {
		out = append(out, mIn{i.TxHash, i.Index, uint64(i.Amount)})
	}
	return
}

func (x *bench) bad() bool { return x.m.Meta != nil && x.m.Meta.Bad }

// do applies one operation to the real builder and the model.
func (x *bench) do(op int) error {
	x.hist += bOps[op] + "; "
	x.n.Op(1)
	b, t := x.b, x.b.Tx()
	switch op {
	case oIn1, oIn3:
		k := 1
		if op == oIn3 {
			k = 3
		}
		var l []*tx.TxInput
		for ; k > 0; k-- {
			i := x.nextIn()
			x.m.Ins = append(x.m.Ins, i)
			l = append(l, mkIn(i))
		}
		b.AddInputs(l...)
		x.touched()
	case oOut1, oOut2:
		var l []*tx.TxOutput
		for k := op - oOut1; k >= 0; k-- {
			o := x.nextOut()
			x.m.Outs = append(x.m.Outs, o)
			l = append(l, tx.NewTxOutput(x.addr(o.Addr), uint(o.Amt)))
		}
		b.AddOutputs(l...)
		x.touched()
	case oSign:
		k := len(x.m.keys)
		b.Sign(xprv(k))
		x.m.keys = append(x.m.keys, k)
		if k > 0 {
			x.covered = false
		}
	case oTTL:
		ttl := []uint32{5_000, 0, 70_000, 23, 0, 1<<32 - 1}[x.nttl%6]
		x.nttl++
		b.SetTTL(ttl)
		x.m.TTL = ttl
		x.touched()
	case oSetFee:
		f := []uint64{200_000, 0, 1 << 40}[len(x.hist)%3]
		t.SetFee(uint(f))
		x.m.Fee = f
		x.touched()
	case oRev:
		for i, j := 0, len(t.Body.Inputs)-1; i < j; i, j = i+1, j-1 {
			t.Body.Inputs[i], t.Body.Inputs[j] = t.Body.Inputs[j], t.Body.Inputs[i]
			x.m.Ins[i], x.m.Ins[j] = x.m.Ins[j], x.m.Ins[i]
		}
		for i, j := 0, len(t.Body.Outputs)-1; i < j; i, j = i+1, j-1 {
			t.Body.Outputs[i], t.Body.Outputs[j] = t.Body.Outputs[j], t.Body.Outputs[i]
			x.m.Outs[i], x.m.Outs[j] = x.m.Outs[j], x.m.Outs[i]
		}
		x.touched()
	case oMetaMap, oMetaText, oMetaNil, oMetaBad:
		m := map[int]*meta{oMetaMap: x.metaMap, oMetaText: x.metaTxt, oMetaBad: x.metaBad}[op]
		t.Metadata = nil
		if m != nil {
			t.Metadata = m.Val()
		}
		x.m.Meta = m
		x.touched()
	case oChange:
		to := x.addrs[(x.nout*3+1)%len(x.addrs)]
		if x.nout > 0 && (x.nout+x.nchg)%2 == 1 {
			to = x.addrs[((x.nout-1)*5)%len(x.addrs)] // the address the last output pays
		}
		x.nchg++
		return x.change(to)
	case oBuild:
		return x.build()
	case oMinFee:
		_ = b.MinFee()
	case oHash:
		h, err := t.Hash()
		if err := x.encErr("Hash", err); err != nil || x.bad() {
			return err
		}
		if x.pendOK && h != x.pendHash {
			return x.is(aID, errf("the hash is %x, but %x was returned before with no change since", h, x.pendHash))
		}
		if x.pendBody != nil && !bytes.Equal(h[:], ref.Blake2b(32, x.pendBody)) {
			return x.is(aID, errf("the hash is %x, but the body serialized before hashes to %x", h, ref.Blake2b(32, x.pendBody)))
		}
		x.pendHash, x.pendOK = h, true
	case oBytes:
		bs, err := t.Bytes()
		if err := x.encErr("Bytes", err); err != nil || x.bad() {
			return err
		}
		return x.serialized(bs)
	case oHex:
		s, err := t.Hex()
		if err := x.encErr("Hex", err); err != nil || x.bad() {
			return err
		}
		bs, err := hex.DecodeString(s)
		if err != nil {
			return x.is(aBody, errf("hex form is %q", s))
		}
		return x.serialized(bs)
	case oFee:
		return x.fee(44, 155381)
	}
	return nil
}

// encErr: an unencodable metadata value is reported, anything else is not.
func (x *bench) encErr(op string, err error) error {
	if x.bad() {
		if err == nil {
			return x.is(aAux, errf("%s reports no error for metadata that cannot be encoded", op))
		}
		return nil
	}
	if err != nil {
		return x.is(x.want, errf("%s fails: %v", op, err))
	}
	return nil
}

// serialized checks a serialization of the builder's current transaction.
func (x *bench) serialized(b []byte) error {
	s, err := split(b)
	if err != nil {
		return x.is(aBody, err)
	}
	if err := x.is(aAux, s.checkMeta(x.m.Meta)); err != nil {
		return err
	}
	if want := x.m.body(s.aux); !bytes.Equal(s.body.Raw, want) {
		if err := x.is(aBody, errf("the body is\n  %x, want\n  %x", s.body.Raw, want)); err != nil {
			return err
		}
	}
	if full := ref.Arr(x.m.body(s.aux), mTx{Wits: s.wlist}.wits(), []byte{0xf5}, s.meta.Raw); !bytes.Equal(b, full) {
		if err := x.is(aBody, errf("the serialization is\n  %x, want\n  %x", b, full)); err != nil {
			return err
		}
	}
	if len(s.wlist) > 0 && !core.Equal(s.wlist, x.lastWits) {
		if err := x.is(aWit|aBody, errf("the transaction carries %d witnesses that no build put there", len(s.wlist))); err != nil {
			return err
		}
	}
	if x.pendOK && !bytes.Equal(x.pendHash[:], ref.Blake2b(32, s.body.Raw)) {
		if err := x.is(aID, errf("the hash was %x, but the body then serialized hashes to %x", x.pendHash, ref.Blake2b(32, s.body.Raw))); err != nil {
			return err
		}
	}
	if x.pendBody != nil && !bytes.Equal(x.pendBody, s.body.Raw) {
		if err := x.is(aID|aBody, errf("two serializations without a change between differ")); err != nil {
			return err
		}
	}
	x.pendBody = s.body.Raw
	return nil
}

func (x *bench) fee(per, fixed uint) error {
	t := x.b.Tx()
	f, err := t.Fee(fees.NewLinearFee(per, fixed))
	if err := x.encErr("Fee", err); err != nil || x.bad() {
		return err
	}
	b, err := t.Bytes()
	if err != nil {
		return x.is(aFee, err)
	}
	if want := fixed + per*uint(len(b)); f != want {
		return x.is(aFee, errf("Fee(%d per byte, %d fixed) is %d, want %d for %d bytes", per, fixed, f, want, len(b)))
	}
	return nil
}

// change calls AddChangeIfNeeded and compares with the model.
func (x *bench) change(addr []byte) error {
	outs, ins := x.outs(), x.ins()
	x.touched()
	x.b.AddChangeIfNeeded(x.addr(addr))
	fee := x.b.Tx().Body.Fee
	x.m.Fee = fee
	in, out := x.m.totals()
	now := x.outs()
	enough := in > out && in-out > fee
	if enough {
		x.m.Outs = append(x.m.Outs, mOut{addr, in - out - fee})
		outs = append(outs, mOut{addr, in - out - fee})
	}
	x.changed = enough
	x.covered = in >= out && in-out >= fee && !x.bad()
	x.keysAt = len(x.m.keys)
	if in > out && !enough && !x.bad() {
		m := x.m.mTx
		m.Fee = in - out
		if need := uint64(defaultProto.TxFeeFixed) + uint64(defaultProto.TxFeePerByte)*m.size(len(x.m.keys)); need <= in-out && fee != in-out {
			return x.is(aChange|aCover, errf("inputs %d exceed the outputs %d by enough for the fee %d of the transaction without change, but the fee is %d and there is no change", in, out, need, fee))
		}
	}
	if !sameOuts(now, outs) {
		return x.is(aChange, errf("inputs %d, outputs %d, fee %d: the outputs are %s, want %s", in, out, fee, showOuts(now), showOuts(outs)))
	}
	if !core.Equal(x.ins(), ins) {
		return x.is(aChange, errf("adding change altered the inputs"))
	}
	return nil
}

func sameOuts(a, b []mOut) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Amt != b[i].Amt || !bytes.Equal(a[i].Addr, b[i].Addr) {
			return false
		}
	}
	return true
}

func showOuts(l []mOut) string {
	s := "["
	for _, o := range l {
		s += " " + hex.EncodeToString(o.Addr[:5]) + "..=" + utoa(o.Amt)
	}
	return s + " ]"
}

func utoa(n uint64) string { return string(appendUint(nil, n)) }

func appendUint(b []byte, n uint64) []byte {
	if n >= 10 {
		b = appendUint(b, n/10)
	}
	return append(b, '0'+byte(n%10))
}

// build builds, checks the built transaction and keeps it.
func (x *bench) build() error {
	t, err := x.b.Build()
	if err := x.encErr("Build", err); err != nil || x.bad() {
		return err
	}
	b, err := t.Bytes()
	if err != nil {
		return x.is(x.want, errf("the built transaction does not serialize: %v", err))
	}
	s, err := split(b)
	if err != nil {
		return x.is(aBody, err)
	}
	x.n.State(b)
	if want := x.m.body(s.aux); !bytes.Equal(s.body.Raw, want) {
		if err := x.is(aBody|aSaved, errf("the built body is\n  %x, want\n  %x", s.body.Raw, want)); err != nil {
			return err
		}
	}
	if full := ref.Arr(x.m.body(s.aux), mTx{Wits: s.wlist}.wits(), []byte{0xf5}, s.meta.Raw); !bytes.Equal(b, full) {
		if err := x.is(aBody, errf("the built transaction is\n  %x, want\n  %x", b, full)); err != nil {
			return err
		}
	}
	if err := x.is(aAux, s.checkMeta(x.m.Meta)); err != nil {
		return err
	}
	if x.want&(aWit|aSaved) != 0 {
		if err := x.is(aWit|aSaved, s.checkWits(x.m.keys, x.n)); err != nil {
			return err
		}
	} else if len(s.wlist) != len(x.m.keys) {
		if err := x.is(aBody, errf("%d witnesses for %d keys", len(s.wlist), len(x.m.keys))); err != nil {
			return err
		}
	}
	h, err := t.Hash()
	if err != nil || !bytes.Equal(h[:], ref.Blake2b(32, s.body.Raw)) {
		if err := x.is(aID, errf("the built transaction's hash is %x (%v), its body hashes to %x", h, err, ref.Blake2b(32, s.body.Raw))); err != nil {
			return err
		}
	}
	if x.pendOK && h != x.pendHash {
		if err := x.is(aID, errf("the built transaction's hash is %x, %x was returned before it was built", h, x.pendHash)); err != nil {
			return err
		}
	}
	if x.covered {
		per, fixed := uint64(defaultProto.TxFeePerByte), uint64(defaultProto.TxFeeFixed)
		min := fixed + per*uint64(len(b))
		if x.m.Fee < min {
			if err := x.is(aCover, errf("the fee is %d, the ledger minimum for the %d bytes of the signed transaction is %d", x.m.Fee, len(b), min)); err != nil {
				return err
			}
		}
		if x.changed && len(x.m.keys) > 0 && x.m.Fee > min+per*feeSlack {
			if err := x.is(aCover, errf("the fee is %d, more than %d bytes above the minimum %d", x.m.Fee, feeSlack, min)); err != nil {
				return err
			}
		}
	}
	x.lastWits = s.wlist
	x.saved = append(x.saved, savedTx{&t, b, clone(s.body.Raw), h, append([]int{}, x.m.keys...)})
	return nil
}

// feeSlack is the encoding slack allowed above the minimum fee, in bytes: the change amount before the fee
// is taken off may be up to 4 bytes longer than the final one, the fee up to 8.
const feeSlack = 16

// end makes the observations that close every history.
func (x *bench) end() error {
	for _, op := range []int{oBytes, oHash, oHex, oFee, oBuild, oHash, oBytes} {
		if err := x.do(op); err != nil {
			return err
		}
	}
	return x.checkSaved()
}

func (x *bench) checkSaved() error {
	if x.want&aSaved == 0 {
		return nil
	}
	for i, s := range x.saved {
		body, err := s.t.Body.Bytes()
		if err != nil || !bytes.Equal(body, s.body) {
			return x.is(aSaved, errf("the body of transaction %d, built earlier, is now\n  %x (%v), it was\n  %x", i, body, err, s.body))
		}
		b, err := s.t.Bytes()
		if err != nil || !bytes.Equal(b, s.b) {
			return x.is(aSaved, errf("transaction %d, built earlier, now serializes to\n  %x (%v), it was\n  %x", i, b, err, s.b))
		}
		h, err := s.t.Hash()
		if err != nil || h != s.h {
			return x.is(aSaved, errf("transaction %d, built earlier, now has hash %x (%v), it was %x", i, h, err, s.h))
		}
	}
	return nil
}

func checkHist(want aspect) func(Hist, *core.Counter) error {
	return func(c Hist, n *core.Counter) error {
		x := newBench(c.Keys, want, n)
		for _, op := range c.Ops {
			if err := x.do(op); err != nil {
				return err
			}
		}
		return x.end()
	}
}

// genHist enumerates all histories over the given operations.
func genHist(name string, ops []int, keys []int, quick, thorough int) func(*core.Run, func(Hist)) {
	return func(r *core.Run, yield func(Hist)) {
		depth := core.Pick(r, quick, thorough)
		r.Param(name+".depth", depth)
		r.Param(name+".operations", len(ops))
		for _, k := range keys {
			for d := 0; d <= depth; d++ {
				seqs(len(ops), d, func(s []int) {
					h := make([]int, len(s))
					for i := range s {
						h[i] = ops[s[i]]
					}
					yield(Hist{k, h})
				})
			}
		}
	}
}

var (
	allOps  = []int{oIn1, oIn3, oOut1, oOut2, oSign, oTTL, oSetFee, oMetaMap, oMetaText, oMetaNil, oChange, oBuild, oMinFee, oHash, oBytes, oFee, oMetaBad, oRev}
	bodyOps = []int{oIn1, oIn3, oOut1, oOut2, oTTL, oSetFee, oMetaMap, oMetaNil, oChange, oBuild, oMinFee, oHash, oHex, oRev}
	idOps   = []int{oIn1, oOut1, oSign, oTTL, oSetFee, oMetaMap, oMetaText, oMetaNil, oChange, oBuild, oMinFee, oHash, oBytes, oFee, oRev}
	auxOps  = []int{oIn1, oMetaMap, oMetaText, oMetaNil, oMetaBad, oChange, oBuild, oMinFee, oHash, oBytes, oHex, oFee}
	witOps  = []int{oIn1, oIn3, oOut1, oSign, oTTL, oMetaMap, oMetaNil, oChange, oBuild, oMinFee, oHash, oBytes}
	chgOps  = []int{oIn1, oIn3, oOut1, oOut2, oSign, oTTL, oSetFee, oMetaMap, oChange, oBuild, oMinFee}
)

func histSub(name string, want aspect, ops, keys []int, quick, thorough int) core.Sub {
	return core.S[Hist]{N: name, Gen: genHist(name, ops, keys, quick, thorough), Check: checkHist(want), Batch: 64}
}
