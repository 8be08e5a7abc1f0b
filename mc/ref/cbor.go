package ref

import (
	"encoding/binary"
	"fmt"
	"math"
)

// CBOR writer: shortest form, definite length.

// Head encodes a CBOR head.
func Head(major byte, n uint64) []byte {
	m := major << 5
	switch {
	case n < 24:
		return []byte{m | byte(n)}
	case n < 1<<8:
		return []byte{m | 24, byte(n)}
	case n < 1<<16:
		return binary.BigEndian.AppendUint16([]byte{m | 25}, uint16(n))
	case n < 1<<32:
		return binary.BigEndian.AppendUint32([]byte{m | 26}, uint32(n))
	}
	return binary.BigEndian.AppendUint64([]byte{m | 27}, n)
}

// Uint encodes an unsigned integer.
func Uint(n uint64) []byte { return Head(0, n) }

// Bstr encodes a byte string.
func Bstr(b []byte) []byte { return append(Head(2, uint64(len(b))), b...) }

// Tstr encodes a text string.
func Tstr(s string) []byte { return append(Head(3, uint64(len(s))), s...) }

// Arr encodes an array of encoded items.
func Arr(items ...[]byte) []byte {
	out := Head(4, uint64(len(items)))
	for _, it := range items {
		out = append(out, it...)
	}
	return out
}

// Map encodes a map of encoded keys and values, in the order given.
func Map(kv ...[]byte) []byte {
	out := Head(5, uint64(len(kv)/2))
	for _, it := range kv {
		out = append(out, it...)
	}
	return out
}

// TagOf encodes a tag.
func TagOf(n uint64, item []byte) []byte { return append(Head(6, n), item...) }

// Item is a decoded CBOR item with the exact bytes it came from.
type Item struct {
	Major byte
	N     uint64 // value, length or tag
	Bytes []byte // contents of byte/text strings
	Kids  []Item // array items, map keys and values alternating, tag content
	Raw   []byte
}

// Parse reads exactly one item that fills b, refusing indefinite lengths and non-shortest heads.
func Parse(b []byte) (Item, error) {
	it, rest, err := parse(b, 0)
	if err != nil {
		return it, err
	}
	if len(rest) != 0 {
		return it, fmt.Errorf("%d bytes after the item", len(rest))
	}
	return it, nil
}

func parse(b []byte, depth int) (Item, []byte, error) {
	if depth > 64 {
		return Item{}, nil, fmt.Errorf("too deep")
	}
	if len(b) == 0 {
		return Item{}, nil, fmt.Errorf("unexpected end")
	}
	it := Item{Major: b[0] >> 5}
	info := b[0] & 31
	n, w := uint64(info), 0
	switch {
	case info < 24:
	case info <= 27:
		w = 1 << (info - 24)
		if len(b) < 1+w {
			return it, nil, fmt.Errorf("unexpected end in head")
		}
		n = 0
		for _, x := range b[1 : 1+w] {
			n = n<<8 | uint64(x)
		}
		if it.Major != 7 {
			min := []uint64{24, 1 << 8, 1 << 16, 1 << 32}[info-24]
			if n < min {
				return it, nil, fmt.Errorf("head %x not in shortest form", b[:1+w])
			}
		}
	default:
		return it, nil, fmt.Errorf("indefinite or reserved head %02x", b[0])
	}
	it.N = n
	rest := b[1+w:]
	switch it.Major {
	case 2, 3:
		if uint64(len(rest)) < n {
			return it, nil, fmt.Errorf("string of %d bytes cut short", n)
		}
		it.Bytes, rest = rest[:n], rest[n:]
	case 4, 5, 6:
		k := n
		if it.Major == 5 {
			k = 2 * n
		}
		if it.Major == 6 {
			k = 1
		}
		if k > uint64(len(rest)) {
			return it, nil, fmt.Errorf("container of %d items cut short", k)
		}
		for i := uint64(0); i < k; i++ {
			kid, r, err := parse(rest, depth+1)
			if err != nil {
				return it, nil, err
			}
			it.Kids = append(it.Kids, kid)
			rest = r
		}
	}
	it.Raw = b[:len(b)-len(rest)]
	return it, rest, nil
}

// IsNull, IsTrue classify simple values.
func (it Item) IsNull() bool { return it.Major == 7 && len(it.Raw) == 1 && it.Raw[0] == 0xf6 }
func (it Item) IsTrue() bool { return it.Major == 7 && len(it.Raw) == 1 && it.Raw[0] == 0xf5 }

// Float64 encodes a double (used by metadata shapes).
func Float64(f float64) []byte {
	return binary.BigEndian.AppendUint64([]byte{0xfb}, math.Float64bits(f))
}
