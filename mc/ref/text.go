// Package ref holds the reference models: plain, slow, independent implementations of the formats and
// algorithms the library is supposed to implement, written from the specifications.
package ref

import (
	"math/big"
	"strings"
)

const bech32Charset = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

func bech32Mod(v []int) int {
	gen := [5]int{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
	c := 1
	for _, x := range v {
		c0 := c >> 25
		c = (c&0x1ffffff)<<5 ^ x
		for i := 0; i < 5; i++ {
			if c0>>i&1 != 0 {
				c ^= gen[i]
			}
		}
	}
	return c
}

func bech32Expand(hrp string) []int {
	var out []int
	for i := 0; i < len(hrp); i++ {
		out = append(out, int(hrp[i]>>5))
	}
	out = append(out, 0)
	for i := 0; i < len(hrp); i++ {
		out = append(out, int(hrp[i]&31))
	}
	return out
}

// Bech32 encodes data under a lower-case prefix (BIP-173 without the length limit).
func Bech32(hrp string, data []byte) string {
	// bits as a string of 0/1, padded with zeros to a multiple of five
	var bits []byte
	for _, b := range data {
		for i := 7; i >= 0; i-- {
			bits = append(bits, b>>i&1)
		}
	}
	for len(bits)%5 != 0 {
		bits = append(bits, 0)
	}
	var groups []int
	for i := 0; i < len(bits); i += 5 {
		g := 0
		for j := 0; j < 5; j++ {
			g = g*2 + int(bits[i+j])
		}
		groups = append(groups, g)
	}
	v := append(bech32Expand(hrp), groups...)
	v = append(v, 0, 0, 0, 0, 0, 0)
	m := bech32Mod(v) ^ 1
	var sb strings.Builder
	sb.WriteString(hrp)
	sb.WriteByte('1')
	for _, g := range groups {
		sb.WriteByte(bech32Charset[g])
	}
	for i := 0; i < 6; i++ {
		sb.WriteByte(bech32Charset[m>>(5*(5-i))&31])
	}
	return sb.String()
}

// UnBech32 decodes strictly: lower or upper case only, right checksum, zero padding shorter than 5 bits.
func UnBech32(s string) (hrp string, data []byte, ok bool) {
	if strings.ToLower(s) != s && strings.ToUpper(s) != s {
		return "", nil, false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < 33 || s[i] > 126 {
			return "", nil, false
		}
	}
	l := strings.ToLower(s)
	pos := strings.LastIndexByte(l, '1')
	if pos < 1 || len(l)-pos-1 < 6 {
		return "", nil, false
	}
	hrp = l[:pos]
	v := bech32Expand(hrp)
	var groups []int
	for i := pos + 1; i < len(l); i++ {
		g := strings.IndexByte(bech32Charset, l[i])
		if g < 0 {
			return "", nil, false
		}
		groups = append(groups, g)
	}
	if bech32Mod(append(v, groups...)) != 1 {
		return "", nil, false
	}
	groups = groups[:len(groups)-6]
	acc, n := 0, 0
	for _, g := range groups {
		acc = acc<<5 | g
		n += 5
		if n >= 8 {
			n -= 8
			data = append(data, byte(acc>>n))
			acc &= 1<<n - 1
		}
	}
	if n >= 5 || acc != 0 {
		return "", nil, false
	}
	return hrp, data, true
}

const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// Base58 encodes with the Bitcoin alphabet.
func Base58(b []byte) string {
	x := new(big.Int).SetBytes(b)
	var out []byte
	m := new(big.Int)
	for x.Sign() > 0 {
		x.DivMod(x, big.NewInt(58), m)
		out = append([]byte{b58[m.Int64()]}, out...)
	}
	for _, c := range b {
		if c != 0 {
			break
		}
		out = append([]byte{'1'}, out...)
	}
	return string(out)
}

// Bech32Chars appends the checksum to data characters given directly.
func Bech32Chars(hrp, body string) string {
	v := bech32Expand(hrp)
	for i := 0; i < len(body); i++ {
		v = append(v, strings.IndexByte(bech32Charset, body[i]))
	}
	m := bech32Mod(append(v, 0, 0, 0, 0, 0, 0)) ^ 1
	s := hrp + "1" + body
	for i := 0; i < 6; i++ {
		s += string(bech32Charset[m>>(5*(5-i))&31])
	}
	return s
}

// Bech32Const is Bech32 with another checksum constant (1 is bech32, 0x2bc830a3 bech32m).
func Bech32Const(hrp string, data []byte, k int) string {
	t := Bech32(hrp, data)
	body := t[len(hrp)+1 : len(t)-6]
	v := bech32Expand(hrp)
	for i := 0; i < len(body); i++ {
		v = append(v, strings.IndexByte(bech32Charset, body[i]))
	}
	m := bech32Mod(append(v, 0, 0, 0, 0, 0, 0)) ^ k
	s := hrp + "1" + body
	for i := 0; i < 6; i++ {
		s += string(bech32Charset[m>>(5*(5-i))&31])
	}
	return s
}

// Bech32Short returns the texts of fewer than six data characters that satisfy the checksum equation.
func Bech32Short(hrp string) (out []string) {
	v := bech32Expand(hrp)
	for k := 0; k < 6; k++ {
		m := bech32Mod(append(append([]int{}, v...), make([]int, k)...)) ^ 1
		if m>>(5*k) != 0 {
			continue
		}
		s := hrp + "1"
		for i := 0; i < k; i++ {
			s += string(bech32Charset[m>>(5*(k-1-i))&31])
		}
		out = append(out, s)
	}
	return
}
