//go:build !nob32

package props

import (
	"bytes"
	"strings"

	"github.com/fivebinaries/go-cardano-serialization/internal/bech32"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/core"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/ref"
)

var bech32Subs = []core.Sub{core.S[B32]{N: "bech32", Gen: genB32, Check: checkB32}}

// B32 is a bech32 case.
type B32 struct {
	HRP  string
	Data HB
}

func genB32(r *core.Run, yield func(B32)) {
	max := core.Pick(r, 120, 400)
	for _, hrp := range []string{"addr", "addr_test", "stake", "stake_test", "a", "1", "pool", strings.Repeat("x", 83)} {
		for l := 0; l <= max; l++ {
			for _, p := range []byte{0, 1, 0x1f, 0x80, 0xff} {
				yield(B32{hrp, fill(l, p)})
			}
			yield(B32{hrp, ramp(l, byte(l))})
		}
	}
	// every value of every bit offset: all 2-byte strings, and every byte at every position of 10 bytes
	for x := 0; x < 65536; x++ {
		yield(B32{"addr", HB{byte(x >> 8), byte(x)}})
	}
	for i := 0; i < 10; i++ {
		for x := 0; x < 256; x++ {
			b := ramp(10, 0x77)
			b[i] = byte(x)
			yield(B32{"stake_test", b})
		}
	}
}

func checkB32(c B32, n *core.Counter) error {
	want := ref.Bech32(c.HRP, c.Data)
	n.StateS(want)
	got, err := bech32.Encode(c.HRP, clone(c.Data))
	n.Op(2)
	if err != nil || got != want {
		return errf("bech32 of %x under %q is %q (%v), want %q", []byte(c.Data), c.HRP, got, err, want)
	}
	hrp, data, err := bech32.Decode(want)
	if err != nil || hrp != c.HRP || !bytes.Equal(data, c.Data) {
		return errf("%q decodes to %q %x (%v)", want, hrp, data, err)
	}
	return nil
}
