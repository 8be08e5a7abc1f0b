// Package props holds the checks, one property per Register call.
package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strconv"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/core"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/ref"
)

const (
	testMagic = 1097911063
	mainMagic = 764824073
)

// HB is a byte string that shows as hex in replay files.
type HB []byte

func (h HB) MarshalText() ([]byte, error) { return []byte(hex.EncodeToString(h)), nil }
func (h *HB) UnmarshalText(b []byte) error {
	x, err := hex.DecodeString(string(b))
	*h = x
	return err
}

// QS is a text that survives a replay file byte for byte.
type QS string

func (q QS) MarshalText() ([]byte, error) { return []byte(strconv.QuoteToASCII(string(q))), nil }
func (q *QS) UnmarshalText(b []byte) error {
	x, err := strconv.Unquote(string(b))
	*q = QS(x)
	return err
}

func errf(format string, a ...any) error { return fmt.Errorf(format, a...) }

func clone(b []byte) []byte { return append([]byte{}, b...) }

// spare returns b in a buffer with spare capacity filled with junk, so that appends by the code under test
// are visible.
func spare(b []byte) (view, whole []byte) {
	whole = append(clone(b), 0xa5, 0x5a, 0xa5, 0x5a, 0xa5, 0x5a, 0xa5, 0x5a)
	return whole[:len(b)], whole
}

func ramp(n int, start byte) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = start + byte(i)*7
	}
	return out
}

func fill(n int, v byte) []byte { return bytes.Repeat([]byte{v}, n) }

// shelleyHeaders lists the 20 header bytes of the supported Shelley kinds.
func shelleyHeaders() (out []byte) {
	for _, t := range []byte{0, 1, 2, 3, 4, 5, 6, 7, 14, 15} {
		out = append(out, t<<4, t<<4|1)
	}
	return
}

// natBoundary lists naturals around every 7-bit and 8-bit width boundary.
func natBoundary(delta uint64) (out []uint64) {
	seen := map[uint64]bool{}
	add := func(n uint64) {
		if !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	add(0)
	add(1)
	for _, k := range []uint{7, 8, 14, 15, 16, 21, 28, 31, 32, 35, 42, 49, 56, 62, 63} {
		for d := uint64(0); d <= delta; d++ {
			add(1<<k - d)
			add(1<<k + d)
		}
	}
	for d := uint64(0); d <= delta; d++ {
		add(^uint64(0) - d)
	}
	return
}

func credOf(c address.StakeCredential) (ref.Cred, error) {
	if c.Kind > 1 {
		return ref.Cred{}, errf("credential kind %d", c.Kind)
	}
	return ref.Cred{Script: c.Kind == address.ScriptStakeCredentialType, Hash: c.Payload}, nil
}

func mkCred(c ref.Cred) *address.StakeCredential {
	if c.Script {
		return address.NewScriptStakeCredential(clone(c.Hash))
	}
	return address.NewKeyStakeCredential(clone(c.Hash))
}

// view reads the parts of an address of the library into the reference type.
func view(a address.Address) (out ref.Addr, err error) {
	var e1, e2 error
	switch x := a.(type) {
	case *address.BaseAddress:
		out.Kind = ref.Base
		out.Net = x.Network.NetworkId
		out.Pay, e1 = credOf(x.Payment)
		out.Stake, e2 = credOf(x.Stake)
	case *address.PointerAddress:
		out.Kind = ref.Pointer
		out.Net = x.Network.NetworkId
		out.Pay, e1 = credOf(x.Payment)
		out.Ptr = [3]uint64{x.Stake.Slot, x.Stake.TxIndex, x.Stake.CertIndex}
	case *address.EnterpriseAddress:
		out.Kind = ref.Enterprise
		out.Net = x.Network.NetworkId
		out.Pay, e1 = credOf(x.Payment)
	case *address.RewardAddress:
		out.Kind = ref.Reward
		out.Net = x.Network.NetworkId
		out.Stake, e2 = credOf(x.Stake)
	case *address.ByronAddress:
		out.Kind = ref.Byron
		out.Net = 1
		if x.Attributes.Network != nil {
			out.Net = 0
		}
		out.Pay.Hash = x.Hash
		out.Payload = x.Attributes.Payload
		if x.Tag != 0 {
			e1 = errf("byron type %d", x.Tag)
		}
	case nil:
		e1 = errf("nil address with nil error")
	default:
		e1 = errf("unexpected address type %T", a)
	}
	if e1 == nil {
		e1 = e2
	}
	return out, e1
}

func sameParts(a, b ref.Addr) error {
	switch {
	case a.Kind != b.Kind:
		return errf("kind is %v, want %v", a.Kind, b.Kind)
	case a.Net != b.Net:
		return errf("network id is %d, want %d", a.Net, b.Net)
	case a.Pay.Script != b.Pay.Script || !bytes.Equal(a.Pay.Hash, b.Pay.Hash):
		return errf("payment credential is %v %x, want %v %x", a.Pay.Script, a.Pay.Hash, b.Pay.Script, b.Pay.Hash)
	case a.Stake.Script != b.Stake.Script || !bytes.Equal(a.Stake.Hash, b.Stake.Hash):
		return errf("stake credential is %v %x, want %v %x", a.Stake.Script, a.Stake.Hash, b.Stake.Script, b.Stake.Hash)
	case a.Ptr != b.Ptr:
		return errf("pointer is %v, want %v", a.Ptr, b.Ptr)
	case !bytes.Equal(a.Payload, b.Payload):
		return errf("byron payload is %x, want %x", a.Payload, b.Payload)
	}
	return nil
}

// sameNet checks the reported NetworkInfo.
func sameNet(a address.Address, id byte) error {
	ni := a.NetworkInfo()
	if ni == nil {
		return errf("no network info")
	}
	want := uint32(mainMagic)
	if id == 0 {
		want = testMagic
	}
	if ni.NetworkId != id || ni.ProtocolMagic != want {
		return errf("network info is %+v, want id %d magic %d", *ni, id, want)
	}
	return nil
}

func netOf(id byte) *network.NetworkInfo {
	if id == 1 {
		return network.MainNet()
	}
	return network.TestNet()
}

// build makes the library's address for the parts.
func build(a ref.Addr) address.Address {
	n := netOf(a.Net)
	switch a.Kind {
	case ref.Base:
		return address.NewBaseAddress(n, mkCred(a.Pay), mkCred(a.Stake))
	case ref.Pointer:
		return address.NewPointerAddress(*n, *mkCred(a.Pay), *address.NewPointer(a.Ptr[0], a.Ptr[1], a.Ptr[2]))
	case ref.Enterprise:
		return address.NewEnterpriseAddress(n, mkCred(a.Pay))
	case ref.Reward:
		return address.NewRewardAddress(n, mkCred(a.Stake))
	}
	return &address.ByronAddress{Hash: clone(a.Pay.Hash), Attributes: address.ByronAddressAttributes{Payload: a.Payload}}
}

// sampleAddrs is one address per kind, credential-kind combination and network, plus Byron ones.
func sampleAddrs() (out []ref.Addr) {
	for net := byte(0); net < 2; net++ {
		for p := 0; p < 2; p++ {
			pay := ref.Cred{Script: p == 1, Hash: ramp(28, 0x11+byte(p))}
			for s := 0; s < 2; s++ {
				out = append(out, ref.Addr{Kind: ref.Base, Net: net, Pay: pay, Stake: ref.Cred{Script: s == 1, Hash: ramp(28, 0x83+byte(s))}})
			}
			out = append(out, ref.Addr{Kind: ref.Pointer, Net: net, Pay: pay, Ptr: [3]uint64{2498243, 27, 3}})
			out = append(out, ref.Addr{Kind: ref.Enterprise, Net: net, Pay: pay})
			out = append(out, ref.Addr{Kind: ref.Reward, Net: net, Stake: pay})
		}
	}
	out = append(out, ref.Addr{Kind: ref.Byron, Net: 1, Pay: ref.Cred{Hash: ramp(28, 0x42)}})
	out = append(out, ref.Addr{Kind: ref.Byron, Net: 1, Pay: ref.Cred{Hash: ramp(28, 0x43)}, Payload: ref.Bstr(ramp(28, 9))})
	return
}

var _ = core.Equal
