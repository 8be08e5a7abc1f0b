package props

import (
	"bytes"
	"sync"

	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/core"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/ref"
)

// The start of every map iteration is a choice of the Go runtime. With the runtime overlay (build.sh) the
// harness makes these choices itself: choicesOn installs a script, choicesOff returns how many were taken.

// OrderCase is a transaction with map metadata, an operation and the scripted choices.
type OrderCase struct {
	Meta    int
	Op      int
	Choices []byte
}

var orderOps = []string{"Bytes", "Hash;Bytes", "Bytes;Bytes", "Fee;Bytes;Hash", "Build;Bytes", "Build;Hash;Bytes", "AddChangeIfNeeded;Build;Bytes"}

var orderMu sync.Mutex

// orderRun executes the operation under the script and returns the serializations (with the hash that goes
// with each, if taken).
type orderObs struct {
	bytes  [][]byte
	hashes [][32]byte
	taken  int
	err    error
}

func orderRun(c OrderCase) (o orderObs) {
	orderMu.Lock()
	defer orderMu.Unlock()
	b := tx.NewTxBuilder(defaultProto, []bip32.XPrv{xprv(0)})
	b.AddInputs(mkIn(mIn{inHash(3), 0, 9_000_000_000}))
	b.AddOutputs(mkOut(someOut(0)))
	addr := mustAddr(histAddrs[0])
	t := b.Tx()
	choicesOn(c.Choices)
	defer func() { o.taken = choicesOff() }()
	t.Metadata = metaPool[c.Meta].Val() // made under the script too: the hash seeds are fixed
	keep := func(bs []byte, err error) {
		o.bytes = append(o.bytes, bs)
		if err != nil {
			o.err = err
		}
	}
	hash := func(h [32]byte, err error) {
		o.hashes = append(o.hashes, h)
		if err != nil {
			o.err = err
		}
	}
	switch c.Op {
	case 0:
		keep(t.Bytes())
	case 1:
		hash(t.Hash())
		keep(t.Bytes())
	case 2:
		keep(t.Bytes())
		keep(t.Bytes())
	case 3:
		t.Fee(feeDefault)
		keep(t.Bytes())
		hash(t.Hash())
	default:
		if c.Op == 6 {
			b.AddChangeIfNeeded(addr)
		}
		bt, err := b.Build()
		if err != nil {
			o.err = err
			return
		}
		if c.Op == 5 {
			hash(bt.Hash())
		}
		keep(bt.Bytes())
	}
	return
}

func checkOrder(id bool) func(OrderCase, *core.Counter) error {
	return func(c OrderCase, n *core.Counter) error {
		o := orderRun(c)
		if o.err != nil {
			return o.err
		}
		n.Op(o.taken)
		m := metaPool[c.Meta]
		for _, b := range o.bytes {
			s, err := split(b)
			if err != nil {
				return err
			}
			n.State(b)
			if !id {
				if err := s.checkMeta(m); err != nil {
					return errf("%s with map iterations started at %v: %v", orderOps[c.Op], c.Choices, err)
				}
				continue
			}
			for _, h := range o.hashes {
				if !bytes.Equal(h[:], ref.Blake2b(32, s.body.Raw)) {
					return errf("%s with map iterations started at %v: the hash is %x, the embedded body hashes to %x", orderOps[c.Op], c.Choices, h, ref.Blake2b(32, s.body.Raw))
				}
			}
			if len(s.wlist) == 1 {
				if err := s.checkWits([]int{0}, n); err != nil {
					return errf("%s with map iterations started at %v: %v", orderOps[c.Op], c.Choices, err)
				}
			}
		}
		for _, b := range o.bytes[1:] {
			if id && !bytes.Equal(b, o.bytes[0]) {
				return errf("%s with map iterations started at %v: two serializations differ:\n  %x\n  %x", orderOps[c.Op], c.Choices, o.bytes[0], b)
			}
		}
		return nil
	}
}

func genOrder(r *core.Run, yield func(OrderCase)) {
	r.Param("map-orders.owned", ownsMapOrder)
	starts := core.Pick(r, 16, 64)
	r.Param("map-orders.starts_per_iteration", starts)
	dev := core.Pick(r, 2, 3)
	r.Param("map-orders.deviations", dev)
	if !ownsMapOrder {
		// no control over the runtime: repeat instead (recorded as such)
		for m := range metaPool {
			for op := range orderOps {
				for k := 0; k < 20 && !metaPool[m].Bad; k++ {
					yield(OrderCase{m, op, nil})
				}
			}
		}
		return
	}
	budget := core.Pick(r, 5_000, 300_000) // full product up to here, bounded deviations beyond
	for m := range metaPool {
		if metaPool[m].Bad {
			continue
		}
		for op := range orderOps {
			k := orderRun(OrderCase{m, op, nil}).taken
			total := 1
			for i := 0; i < k && total <= budget; i++ {
				total *= starts
			}
			if total <= budget {
				seqs(starts, k, func(s []int) {
					ch := make([]byte, k)
					for i := range s {
						ch[i] = byte(s[i])
					}
					yield(OrderCase{m, op, ch})
				})
				continue
			}
			var rec func(ch []byte, from, left int)
			rec = func(ch []byte, from, left int) {
				yield(OrderCase{m, op, clone(ch)})
				if left == 0 {
					return
				}
				step := 1
				if left < dev { // later deviations at the first 8 starts
					step = starts / 8
				}
				for i := from; i < k; i++ {
					for v := step; v < starts; v += step {
						ch[i] = byte(v)
						rec(ch, i+1, left-1)
					}
					ch[i] = 0
				}
			}
			d := dev
			if k > core.Pick(r, 10, 30) {
				d = 1
			}
			rec(make([]byte, k), 0, d)
		}
	}
}

func orderSub(id bool) core.Sub {
	return core.S[OrderCase]{N: "map-orders", Gen: genOrder, Check: checkOrder(id), Serial: true, Batch: 64}
}
