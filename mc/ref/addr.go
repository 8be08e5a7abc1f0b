package ref

import (
	"bytes"
	"hash/crc32"
)

// Kind of an address.
type Kind int

// The supported kinds.
const (
	Base Kind = iota
	Pointer
	Enterprise
	Reward
	Byron
)

func (k Kind) String() string {
	return [...]string{"base", "pointer", "enterprise", "reward", "byron"}[k]
}

// Cred is a payment or stake credential.
type Cred struct {
	Script bool
	Hash   []byte
}

// Addr is an address as CIP-19 (or the Byron format) defines it.
type Addr struct {
	Kind    Kind
	Net     byte // 0 or 1, Shelley kinds
	Pay     Cred // base, pointer, enterprise; Byron: Hash is the address root
	Stake   Cred // base, reward
	Ptr     [3]uint64
	Payload []byte // Byron derivation payload, nil when absent
}

// VarNat is the minimal big-endian base-128 form.
func VarNat(n uint64) []byte {
	out := []byte{byte(n & 127)}
	for n >>= 7; n > 0; n >>= 7 {
		out = append([]byte{byte(n&127) | 128}, out...)
	}
	return out
}

// UnVarNat decodes strictly: minimal and within 64 bits.
func UnVarNat(b []byte) (n uint64, used int, ok bool) {
	var digits []byte
	for i, x := range b {
		digits = append(digits, x&127)
		if x&128 == 0 {
			used = i + 1
			break
		}
	}
	if used == 0 || (used > 1 && digits[0] == 0) {
		return 0, 0, false
	}
	bitlen := 7 * (used - 1)
	for d := digits[0]; d > 0; d >>= 1 {
		bitlen++
	}
	if bitlen > 64 {
		return 0, 0, false
	}
	for _, d := range digits {
		n = n<<7 + uint64(d)
	}
	return n, used, true
}

func bit(b bool, v byte) byte {
	if b {
		return v
	}
	return 0
}

// Bytes encodes.
func (a Addr) Bytes() []byte {
	switch a.Kind {
	case Base:
		return append(append([]byte{a.Net | bit(a.Pay.Script, 16) | bit(a.Stake.Script, 32)}, a.Pay.Hash...), a.Stake.Hash...)
	case Pointer:
		out := append([]byte{0x40 | a.Net | bit(a.Pay.Script, 16)}, a.Pay.Hash...)
		for _, n := range a.Ptr {
			out = append(out, VarNat(n)...)
		}
		return out
	case Enterprise:
		return append([]byte{0x60 | a.Net | bit(a.Pay.Script, 16)}, a.Pay.Hash...)
	case Reward:
		return append([]byte{0xe0 | a.Net | bit(a.Stake.Script, 16)}, a.Stake.Hash...)
	}
	attrs := Map()
	if a.Payload != nil {
		attrs = Map(Uint(1), Bstr(a.Payload))
	}
	return ByronWrap(Arr(Bstr(a.Pay.Hash), attrs, Uint(0)))
}

// ByronWrap puts the tag-24 envelope and checksum around an encoded Byron payload.
func ByronWrap(inner []byte) []byte {
	return Arr(TagOf(24, Bstr(inner)), Uint(uint64(crc32.ChecksumIEEE(inner))))
}

// Prefix is the CIP-5 prefix.
func (a Addr) Prefix() string {
	switch {
	case a.Kind == Byron:
		return ""
	case a.Kind == Reward && a.Net == 1:
		return "stake"
	case a.Kind == Reward:
		return "stake_test"
	case a.Net == 1:
		return "addr"
	}
	return "addr_test"
}

// Text renders.
func (a Addr) Text() string {
	if a.Kind == Byron {
		return Base58(a.Bytes())
	}
	return Bech32(a.Prefix(), a.Bytes())
}

// Verdict of the reference decoder.
type Verdict int

// Accept: must be accepted as the given address. Refuse: must be refused. Either: the reference takes no
// position (but an accepted input must still re-encode to itself). Legacy: a well-formed Byron address on a
// network other than mainnet, or with attributes beyond those the library models.
const (
	Refuse Verdict = iota
	Accept
	Either
	ByronNet // well-formed Byron testnet address
)

// DecodeAddr is the reference decoder for raw address bytes.
func DecodeAddr(b []byte) (Addr, Verdict) {
	var a Addr
	if len(b) == 0 {
		return a, Refuse
	}
	h := b[0]
	typ, net := h>>4, h&15
	if typ == 8 {
		return decodeByron(b)
	}
	if net > 1 {
		return a, Refuse
	}
	a.Net = net
	body := b[1:]
	switch typ {
	case 0, 1, 2, 3:
		if len(body) != 56 {
			return a, Refuse
		}
		a.Kind, a.Pay, a.Stake = Base, Cred{typ&1 != 0, body[:28]}, Cred{typ&2 != 0, body[28:]}
	case 4, 5:
		if len(body) < 31 {
			return a, Refuse
		}
		a.Kind, a.Pay = Pointer, Cred{typ&1 != 0, body[:28]}
		rest := body[28:]
		for i := range a.Ptr {
			n, used, ok := UnVarNat(rest)
			if !ok {
				return a, Refuse
			}
			a.Ptr[i], rest = n, rest[used:]
		}
		if len(rest) != 0 {
			return a, Refuse
		}
	case 6, 7:
		if len(body) != 28 {
			return a, Refuse
		}
		a.Kind, a.Pay = Enterprise, Cred{typ&1 != 0, body}
	case 14, 15:
		if len(body) != 28 {
			return a, Refuse
		}
		a.Kind, a.Stake = Reward, Cred{typ&1 != 0, body}
	default:
		return a, Refuse
	}
	return a, Accept
}

func decodeByron(b []byte) (Addr, Verdict) {
	a := Addr{Kind: Byron, Net: 1}
	top, err := Parse(b)
	if err != nil {
		// Not strict CBOR: whether a lenient decoder may take it is open, but what it accepts must re-encode
		// to itself, which a non-canonical input cannot.
		return a, Refuse
	}
	if top.Major != 4 || len(top.Kids) != 2 || top.Kids[0].Major != 6 || top.Kids[0].N != 24 ||
		top.Kids[0].Kids[0].Major != 2 || top.Kids[1].Major != 0 {
		return a, Refuse
	}
	inner := top.Kids[0].Kids[0].Bytes
	if top.Kids[1].N != uint64(crc32.ChecksumIEEE(inner)) {
		return a, Refuse
	}
	in, err := Parse(inner)
	if err != nil || in.Major != 4 || len(in.Kids) != 3 {
		return a, Refuse
	}
	if in.Kids[0].Major != 2 || len(in.Kids[0].Bytes) != 28 || in.Kids[2].Major != 0 || in.Kids[2].N != 0 {
		return a, Refuse
	}
	a.Pay.Hash = in.Kids[0].Bytes
	at := in.Kids[1]
	if at.Major != 5 {
		return a, Refuse
	}
	plain, net := true, false
	for i := 0; i < len(at.Kids); i += 2 {
		k, v := at.Kids[i], at.Kids[i+1]
		switch {
		case i > 0 && bytes.Compare(at.Kids[i-2].Raw, k.Raw) >= 0:
			return a, Either
		case k.Major == 0 && k.N == 1 && v.Major == 2 && len(v.Bytes) > 0:
			a.Payload = v.Bytes
		case k.Major == 0 && k.N == 2 && v.Major == 2:
			m, err := Parse(v.Bytes)
			if err != nil || m.Major != 0 {
				return a, Either
			}
			net = true
		default:
			plain = false
		}
	}
	switch {
	case !plain:
		return a, Either
	case net:
		a.Net = 0
		return a, ByronNet
	}
	return a, Accept
}
