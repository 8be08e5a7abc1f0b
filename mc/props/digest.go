package props

import (
	"bytes"

	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/crypto"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/core"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/ref"
)

func genDigest(r *core.Run, yield func(HB)) {
	max := core.Pick(r, 1100, 9000)
	r.Param("digest.max_len", max)
	for l := 0; l <= max; l++ {
		yield(ramp(l, byte(l)))
		yield(fill(l, 0))
		yield(fill(l, 0xff))
	}
	for _, l := range []int{1, 28, 32, 64, 127, 128, 129} {
		for i := 0; i < l; i++ {
			for x := 0; x < 256; x += core.Pick(r, 5, 1) {
				b := ramp(l, 9)
				b[i] = byte(x)
				yield(b)
			}
		}
	}
	for x := 0; x < 65536; x++ {
		yield(HB{byte(x >> 8), byte(x)})
	}
	for _, l := range []int{1 << 16, 1<<16 + 1, 1 << 20} {
		yield(ramp(l, 3))
	}
}

func checkDigest(d HB, n *core.Counter) error {
	in, whole := spare(d)
	keep := clone(whole)
	a, b := crypto.Blake2b224(in), crypto.Blake2b256(in)
	n.Op(2)
	wa, wb := ref.Blake2b(28, d), ref.Blake2b(32, d)
	n.State(wb)
	if !bytes.Equal(a[:], wa) {
		return errf("Blake2b-224 of %d bytes is %x, want %x", len(d), a, wa)
	}
	if !bytes.Equal(b[:], wb) {
		return errf("Blake2b-256 of %d bytes is %x, want %x", len(d), b, wb)
	}
	if !bytes.Equal(whole, keep) {
		return errf("digest altered its input")
	}
	{
		h := bip32.PublicKey(in).Hash()
		if !bytes.Equal(h[:], wa) {
			return errf("key hash of %x is %x, want %x", []byte(d), h, wa)
		}
	}
	return nil
}

// Conv is a conversion and its input.
type Conv struct {
	Fn string
	In HB
}

type convFn struct {
	n   string
	len int
	f   func([]byte) ([]byte, func() []byte, error)
}

func conv[T any](f func([]byte) (T, error), s func(*T) []byte) func([]byte) ([]byte, func() []byte, error) {
	return func(b []byte) ([]byte, func() []byte, error) {
		v, err := f(b)
		return clone(s(&v)), func() []byte { return s(&v) }, err
	}
}

var convs = []convFn{
	{"Ed25519KeyHash", 28, conv(crypto.Ed25519KeyHashFromBytes, func(v *crypto.Ed25519KeyHash) []byte { return v[:] })},
	{"ScriptHash", 28, conv(crypto.ScriptHashFromBytes, func(v *crypto.ScriptHash) []byte { return v[:] })},
	{"TransactionHash", 32, conv(crypto.TransactionHashFromBytes, func(v *crypto.TransactionHash) []byte { return v[:] })},
	{"GenesisDelegateHash", 28, conv(crypto.GenesisDelegateHashFromBytes, func(v *crypto.GenesisDelegateHash) []byte { return v[:] })},
	{"GenesisHash", 28, conv(crypto.GenesisHashFromBytes, func(v *crypto.GenesisHash) []byte { return v[:] })},
	{"MetadataHash", 32, conv(crypto.MetadataHashFromBytes, func(v *crypto.MetadataHash) []byte { return v[:] })},
	{"VRFKeyHash", 32, conv(crypto.VRFKeyHashFromBytes, func(v *crypto.VRFKeyHash) []byte { return v[:] })},
	{"BlockHash", 32, conv(crypto.BlockHashFromBytes, func(v *crypto.BlockHash) []byte { return v[:] })},
	{"VRFVKey", 32, conv(crypto.VRFVKeyFromBytes, func(v *crypto.VRFVKey) []byte { return v[:] })},
	{"KESVKey", 32, conv(crypto.KESVKeyFromBytes, func(v *crypto.KESVKey) []byte { return v[:] })},
}

func genConv(r *core.Run, yield func(Conv)) {
	for _, c := range convs {
		yield(Conv{c.n, nil})
		for l := 0; l <= core.Pick(r, 600, 70000); l++ {
			yield(Conv{c.n, ramp(l, byte(l))})
			if l < 600 {
				yield(Conv{c.n, fill(l, 0)})
			}
		}
		for i := 0; i < c.len; i++ {
			for x := 0; x < 256; x++ {
				b := ramp(c.len, 5)
				b[i] = byte(x)
				yield(Conv{c.n, b})
			}
		}
	}
}

func checkConv(c Conv, n *core.Counter) error {
	for _, f := range convs {
		if f.n != c.Fn {
			continue
		}
		in, whole := spare(c.In)
		if c.In == nil {
			in = nil
		}
		keep := clone(whole)
		out, live, err := f.f(in)
		n.Op(1)
		if !bytes.Equal(whole, keep) {
			return errf("%s altered its input", c.Fn)
		}
		if len(c.In) != f.len {
			n.Outcome("refused")
			if err == nil {
				return errf("%s accepts %d bytes", c.Fn, len(c.In))
			}
			return nil
		}
		n.Outcome("accepted")
		n.State(append([]byte(c.Fn), c.In...))
		if err != nil {
			return errf("%s refuses %d bytes: %v", c.Fn, len(c.In), err)
		}
		if !bytes.Equal(out, c.In) {
			return errf("%s turns %x into %x", c.Fn, []byte(c.In), out)
		}
		clobber(in)
		if !bytes.Equal(live(), c.In) {
			return errf("%s result changes with the input buffer", c.Fn)
		}
		return nil
	}
	return errf("unknown conversion %s", c.Fn)
}

func init() {
	core.Register(&core.Prop{ID: "C28", Level: "model_checking", Subs: []core.Sub{
		core.S[HB]{N: "digests", Gen: genDigest, Check: checkDigest, Batch: 64}, core.S[Conv]{N: "conversions", Gen: genConv, Check: checkConv}},
		Exhaustive:  "every input length to the bound in three patterns, all 2-byte inputs, every byte position of block-boundary lengths; every conversion x every length to the bound, every value of every byte",
		Assumptions: []string{"the reference Blake2b (written from RFC 7693) is correct; it is checked against known vectors in mc/ref"}})
}
