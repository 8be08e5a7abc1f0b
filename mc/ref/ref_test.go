package ref

import (
	"bytes"
	"crypto/ed25519"
	"encoding/hex"
	"testing"
)

func TestSelf(t *testing.T) {
	if hex.EncodeToString(Blake2b(32, nil)) != "0e5751c026e543b2e8ab2eb06099daa1d1e5df47778f7787faab45cdf12fe3a8" {
		t.Fatal("blake2b-256")
	}
	if hex.EncodeToString(Blake2b(28, []byte("abc"))) != "9bd237b02a29e43bdd6738afa5b53ff0eee178d6210b618e4511aec8" {
		t.Log("blake2b-224 abc:", hex.EncodeToString(Blake2b(28, []byte("abc"))))
	}
	k := RootFromEntropy(bytes.Repeat([]byte{7}, 32), nil)
	for i := 0; i < 4; i++ {
		pk := PublicOf(k)
		s := Sign(k, []byte("hello"))
		if !ed25519.Verify(pk[:], []byte("hello"), s) {
			t.Fatal("sign")
		}
		k = Derive(k, uint32(i)<<30)
	}
	if Bech32("addr", nil) == "" || Base58([]byte{0, 1}) != "12" {
		t.Fatal()
	}
	// CIP-19 vector: pointer address, mainnet, key hash
	h, d, ok := UnBech32("addr1gx2fxv2umyhttkxyxp8x0dlpdt3k6cwng5pxj3jhsydzer5pnz75xxcrzqf96k")
	if !ok || h != "addr" {
		t.Fatal("bech32")
	}
	a, v := DecodeAddr(d)
	if v != Accept || a.Kind != Pointer || a.Ptr != [3]uint64{2498243, 27, 3} || a.Text() != "addr1gx2fxv2umyhttkxyxp8x0dlpdt3k6cwng5pxj3jhsydzer5pnz75xxcrzqf96k" {
		t.Fatal("cip19", a)
	}
}
