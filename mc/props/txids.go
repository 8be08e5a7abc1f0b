package props

import (
	"bytes"
	"encoding/hex"
	"strings"

	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/fees"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/core"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/ref"
)

// InID is a transaction with an input of the given id, which may be malformed.
type InID struct {
	Text QS
	Raw  bool // the input is made by hand with the bytes of Text
	At   int  // its position
	Of   int  // number of inputs
}

func checkInID(c InID, n *core.Counter) error {
	var want []byte
	if c.Raw {
		if want = []byte(c.Text); len(want) != 32 {
			want = nil
		}
	} else if d, err := hex.DecodeString(string(c.Text)); err == nil && len(d) == 32 {
		want = d
	}
	bld := tx.NewTxBuilder(defaultProto, []bip32.XPrv{xprv(0)})
	m := mTx{TTL: 9}
	for i := 0; i < c.Of; i++ {
		in := someIn(i)
		o := mkIn(in)
		if i == c.At {
			in.Hash = want
			// another input for the same output, which is spoilt: it belongs to someone else
			spoil := tx.NewTxInput(string(c.Text), in.Ix, uint(in.Amt))
			o = tx.NewTxInput(string(c.Text), in.Ix, uint(in.Amt))
			for k := range spoil.TxHash {
				spoil.TxHash[k] ^= 0xff
			}
			spoil.Index, spoil.Amount = 99, 1
			if c.At == 0 {
				o = tx.NewTxInput(string(c.Text), in.Ix, uint(in.Amt))
			}
			if c.Raw {
				o = &tx.TxInput{TxHash: []byte(c.Text), Index: in.Ix, Amount: uint(in.Amt)}
			}
		}
		m.Ins = append(m.Ins, in)
		bld.AddInputs(o)
	}
	bld.SetTTL(9)
	t := bld.Tx()
	n.Op(7)
	b, errB := t.Bytes()
	_, errX := t.Hex()
	h, errH := t.Hash()
	bb, errBB := t.Body.Bytes()
	_, errBX := t.Body.Hex()
	_, errF := t.Fee(fees.NewLinearFee(44, 155381))
	_, errU := bld.Build()
	if want == nil {
		n.Outcome("malformed")
		for i, e := range []error{errB, errX, errH, errBB, errBX, errF, errU} {
			if e == nil {
				return errf("an input whose transaction id is %q: %s reports no error; the transaction is %x", string(c.Text), []string{"Bytes", "Hex", "Hash", "Body.Bytes", "Body.Hex", "Fee", "Build"}[i], b)
			}
		}
		return nil
	}
	n.Outcome("well-formed")
	for _, e := range []error{errB, errX, errH, errBB, errBX, errF, errU} {
		if e != nil {
			return errf("id %q: %v", string(c.Text), e)
		}
	}
	n.State(b)
	body := m.body(nil)
	if !bytes.Equal(bb, body) || !bytes.Equal(h[:], ref.Blake2b(32, body)) || !bytes.Contains(b, body) {
		return errf("id %q: the body is\n  %x, want\n  %x", string(c.Text), bb, body)
	}
	return nil
}

func genInID(r *core.Run, yield func(InID)) {
	good := strings.Repeat("0123456789abcdef", 4)
	put := func(s string) {
		yield(InID{QS(s), false, 0, 1})
		yield(InID{QS(s), false, 1, 3})
		yield(InID{QS(s), false, 2, 3})
	}
	for l := 0; l <= 200; l++ {
		put(strings.Repeat(good, 4)[:l])
	}
	put(strings.ToUpper(good))
	for i := 0; i <= 64; i++ {
		for _, j := range []string{"g", "x", " ", "\n", "\x00", "-", "é", "0", "00", ".", "/", ":", "@", "G", "`"} {
			put(good[:i] + j + good[i:])
			if i < 64 {
				put(good[:i] + j + good[i+1:])
			}
		}
		if i < 64 {
			for _, d := range "0123456789abcdefABCDEF" {
				put(good[:i] + string(d) + good[i+1:])
			}
		}
	}
	for _, p := range []string{"0x", "\\x", "#", "tx:"} {
		put(p + good)
		put(p + good[len(p):])
	}
	put(good + "#0")
	for l := 0; l <= 100; l++ {
		for _, s := range [][]byte{ramp(l, 3), make([]byte, l), fill(l, 0xff)} {
			yield(InID{QS(s), true, 0, 1})
			yield(InID{QS(s), true, 1, 2})
		}
	}
}
