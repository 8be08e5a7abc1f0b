package props

import (
	"bytes"
	"crypto/ed25519"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"sync"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/core"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/ref"
)

// C29: the whole way from a mnemonic's entropy to a submitted payment.

// Wallet names a key of a wallet and the address made from it.
type Wallet struct {
	Ent, Pw   int
	Acct      uint32
	Role, Ix  uint32
	Kind      int // 0 base, 1 enterprise, 2 pointer, 3 base with a script stake part
	Net       byte
	SignFirst bool // the key is used before the address is made
	Again     bool // the key is derived anew for signing
	Parse     bool // the address is read back from its text
}

var (
	walEnts = [][]byte{ramp(16, 0x21), ramp(32, 0x90), make([]byte, 20), fill(24, 0xff), ramp(28, 1), ramp(12, 7)}
	walPws  = [][]byte{nil, []byte("foo"), []byte("correct horse battery staple \xc3\xa9")}
	walMu   sync.Mutex
	walRefs = map[string][]byte{}
)

// refKey derives with the reference, remembering every intermediate key.
func refKey(ent, pw int, path ...uint32) []byte {
	id := fmt.Sprint(ent, ",", pw, ",", path)
	walMu.Lock()
	k, ok := walRefs[id]
	walMu.Unlock()
	if ok {
		return k
	}
	if len(path) == 0 {
		k = ref.RootFromEntropy(walEnts[ent], walPws[pw])
	} else {
		k = ref.Derive(refKey(ent, pw, path[:len(path)-1]...), path[len(path)-1])
	}
	walMu.Lock()
	walRefs[id] = k
	walMu.Unlock()
	return k
}

const hard = uint32(1) << 31

func (w Wallet) path() []uint32 {
	return []uint32{1852 | hard, 1815 | hard, w.Acct | hard, w.Role, w.Ix}
}
func (w Wallet) stakePath() []uint32 { return []uint32{1852 | hard, 1815 | hard, w.Acct | hard, 2, 0} }

// refAddr is the wallet's address and public key, by the reference.
func (w Wallet) ref() (ref.Addr, []byte) {
	p := ref.PublicOf(refKey(w.Ent, w.Pw, w.path()...))
	s := ref.PublicOf(refKey(w.Ent, w.Pw, w.stakePath()...))
	a := ref.Addr{Net: w.Net, Pay: ref.Cred{Hash: ref.Blake2b(28, p[:])}}
	switch w.Kind {
	case 0, 3:
		a.Kind, a.Stake = ref.Base, ref.Cred{Script: w.Kind == 3, Hash: ref.Blake2b(28, s[:])}
	case 1:
		a.Kind = ref.Enterprise
	case 2:
		a.Kind, a.Ptr = ref.Pointer, [3]uint64{uint64(w.Acct) + 200, uint64(w.Role), uint64(w.Ix)}
	}
	return a, clone(p[:])
}

func (w Wallet) key(path []uint32) bip32.XPrv {
	k := bip32.FromBip39Entropy(clone(walEnts[w.Ent]), clone(walPws[w.Pw]))
	for _, i := range path {
		k = k.Derive(i)
	}
	return k
}

// open derives the key and makes the address with the library.
func (w Wallet) open() (bip32.XPrv, address.Address, error) {
	k, s := w.key(w.path()), w.key(w.stakePath())
	if w.SignFirst {
		k.Sign(ramp(32, 5))
		s.Sign(ramp(32, 6))
	}
	ph, sh := k.Public().PublicKey().Hash(), s.Public().PublicKey().Hash()
	pay := address.NewKeyStakeCredential(ph[:])
	n := netOf(w.Net)
	var a address.Address
	switch w.Kind {
	case 0:
		a = address.NewBaseAddress(n, pay, address.NewKeyStakeCredential(sh[:]))
	case 3:
		a = address.NewBaseAddress(n, pay, address.NewScriptStakeCredential(sh[:]))
	case 1:
		a = address.NewEnterpriseAddress(n, pay)
	case 2:
		a = address.NewPointerAddress(*n, *pay, *address.NewPointer(uint64(w.Acct)+200, uint64(w.Role), uint64(w.Ix)))
	}
	if w.Parse {
		var err error
		if a, err = address.NewAddress(a.String()); err != nil {
			return nil, nil, errf("the wallet's own address is refused: %v", err)
		}
	}
	if w.Again {
		k = w.key(w.path())
	}
	return k, a, nil
}

// Pay is a payment from a wallet.
type Pay struct {
	W      Wallet
	Bf     bool
	Rows   []Row
	Amt    uint64
	Dest   int // histAddrs
	Meta   int
	Params int // index into feeParams
	TTL    bool
	Order  bool // the fee is asked for and the transaction hashed before the change
	Change int  // 0: to the wallet, 1: to another of its addresses
	Reuse  bool // a second payment follows on the same node, from the change
}

// judge checks the bytes handed over.
func (p Pay) judge(b []byte, rows []Row, ttl uint32, change ref.Addr, par protocol.Protocol, n *core.Counter) (left uint64, err error) {
	s, err := split(b)
	if err != nil {
		return 0, err
	}
	n.State(b)
	m := mTx{TTL: ttl}
	if p.Meta >= 0 {
		m.Meta = allMetas[p.Meta]
	}
	in := uint64(0)
	for _, r := range rows {
		h, _ := hex.DecodeString(string(r.Hash))
		ix, _ := strconv.Atoi(string(r.Ix))
		am, _ := strconv.ParseUint(string(r.Amt), 10, 64)
		m.Ins = append(m.Ins, mIn{h, uint16(ix), am})
		in += am
	}
	m.Outs = []mOut{{histAddrs[p.Dest], p.Amt}}
	// the fee is the library's choice, the rest follows from it
	for i := 0; i+1 < len(s.body.Kids); i += 2 {
		if k := s.body.Kids[i]; k.Major == 0 && k.N == 2 {
			m.Fee = s.body.Kids[i+1].N
		}
	}
	enough := in >= p.Amt && in-p.Amt >= m.Fee
	if enough && in-p.Amt > m.Fee {
		left = in - p.Amt - m.Fee
		m.Outs = append(m.Outs, mOut{change.Bytes(), left})
	}
	if !enough && in > p.Amt {
		bare := m
		bare.Fee = in - p.Amt
		if need := uint64(par.TxFeeFixed) + uint64(par.TxFeePerByte)*bare.size(1); need <= in-p.Amt {
			return 0, errf("inputs %d pay for %d and the fee %d of the transaction without change, but its fee is %d", in, p.Amt, need, m.Fee)
		}
	}
	if want := m.body(s.aux); !bytes.Equal(s.body.Raw, want) {
		return 0, errf("inputs %d, payment %d, fee %d: the body is\n  %x, want\n  %x", in, p.Amt, m.Fee, s.body.Raw, want)
	}
	if err := s.checkMeta(m.Meta); err != nil {
		return 0, err
	}
	if min := uint64(par.TxFeeFixed) + uint64(par.TxFeePerByte)*uint64(len(b)); enough && m.Fee < min {
		return 0, errf("the fee is %d, the minimum for %d bytes %d", m.Fee, len(b), min)
	}
	a, pub := p.W.ref()
	if len(s.wlist) != 1 {
		return 0, errf("%d witnesses", len(s.wlist))
	}
	w := s.wlist[0]
	if !bytes.Equal(ref.Blake2b(28, w[0]), a.Pay.Hash) || !bytes.Equal(w[0], pub) {
		return 0, errf("the witness is by key %x, which hashes to %x; the address asks for %x", []byte(w[0]), ref.Blake2b(28, w[0]), a.Pay.Hash)
	}
	if len(w[1]) != 64 || !ed25519.Verify(pub, ref.Blake2b(32, s.body.Raw), w[1]) {
		return 0, errf("the witness does not verify over the id %x", ref.Blake2b(32, s.body.Raw))
	}
	if enough {
		n.Outcome("paid")
	} else {
		n.Outcome("insufficient")
	}
	return left, nil
}

// pay builds the payment with the library.
func (p Pay) pay(k bip32.XPrv, ins []tx.TxInput, par protocol.Protocol, ttl uint32, change address.Address) (tx.Tx, error) {
	b := tx.NewTxBuilder(par, []bip32.XPrv{k})
	for i := range ins {
		b.AddInputs(&ins[i])
	}
	dest, err := address.NewAddress(mustAddr(histAddrs[p.Dest]).String())
	if err != nil {
		return tx.Tx{}, err
	}
	b.AddOutputs(tx.NewTxOutput(dest, uint(p.Amt)))
	if p.Meta >= 0 {
		b.Tx().Metadata = allMetas[p.Meta].Val()
	}
	if ttl > 0 {
		b.SetTTL(ttl)
	}
	if p.Order {
		b.MinFee()
		b.Tx().Hash()
	}
	b.AddChangeIfNeeded(change)
	return b.Build()
}

func (p Pay) changeTo(a address.Address) (ref.Addr, address.Address, error) {
	r, _ := p.W.ref()
	if p.Change == 0 {
		return r, a, nil
	}
	w := p.W
	w.Role, w.Ix = 1, w.Ix+1
	r, _ = w.ref()
	_, c, err := w.open()
	return r, c, err
}

// checkWallet: address and witness, without a node.
func checkWallet(w Wallet, n *core.Counter) error {
	want, _ := w.ref()
	k, a, err := w.open()
	if err != nil {
		return err
	}
	n.Op(3)
	n.StateS(want.Text())
	if a.String() != want.Text() || !bytes.Equal(a.Bytes(), want.Bytes()) {
		return errf("the wallet's address is %s, want %s", a.String(), want.Text())
	}
	p := Pay{W: w, Rows: []Row{goodRow(0), goodRow(4)}, Amt: 1_500_000, Dest: int(w.Ix) % len(histAddrs), Meta: -1}
	par := nodeParams(nP1, 0)
	var ins []tx.TxInput
	for _, r := range p.Rows {
		ix, _ := strconv.Atoi(string(r.Ix))
		am, _ := strconv.Atoi(string(r.Amt))
		ins = append(ins, *tx.NewTxInput(string(r.Hash), uint16(ix), uint(am)))
	}
	t, err := p.pay(k, ins, par, 77, a)
	if err != nil {
		return err
	}
	b, err := t.Bytes()
	if err != nil {
		return err
	}
	_, err = p.judge(b, p.Rows, 77, want, par, n)
	return err
}

// checkPay: the whole way, through a node.
func checkPay(p Pay, n *core.Counter) error {
	nodeTx(0)
	want, _ := p.W.ref()
	k, a, err := p.W.open()
	if err != nil {
		return err
	}
	par := protocol.Protocol{TxFeePerByte: uint(feeParams[p.Params][0]), TxFeeFixed: uint(feeParams[p.Params][1]), MaxTxSize: 16384, ProtocolVersion: protocol.ProtocolVersion{Major: 5, Minor: 1}, MinUTXOValue: 1000000}
	tip := [3]uint64{43000000, 301, 6500000}
	cRef, cAddr, err := p.changeTo(a)
	if err != nil {
		return err
	}
	var nd node.Node
	var st *stand
	var mu sync.Mutex
	var posted [][]byte
	rows, who := p.Rows, want
	strange := ""
	id := hex.EncodeToString(inHash(77))
	if p.Bf {
		bfStart()
		proj := fmt.Sprint("pay-", nodeSeq.Add(1))
		bf.mu.Lock()
		bf.byID[proj] = func(r bfReq) bfAns {
			mu.Lock()
			defer mu.Unlock()
			if r.Host != bfHost(int(p.W.Net)) {
				strange = "a request to " + r.Host
			}
			q := func(u any) QS { return QS(fmt.Sprint(u)) }
			switch r.Method + " " + r.Path {
			case "GET /api/v0/addresses/" + who.Text() + "/utxos":
				// pages as asked for
				pg, _ := strconv.Atoi(r.Query.Get("page"))
				if pg < 1 {
					pg = 1
				}
				cnt, _ := strconv.Atoi(r.Query.Get("count"))
				if cnt < 1 || cnt > 100 {
					cnt = 100
				}
				lo, hi := min((pg-1)*cnt, len(rows)), min(pg*cnt, len(rows))
				return bfAns{Status: 200, Body: bfUtxos(rows[lo:hi])}
			case "GET /api/v0/epochs/latest/parameters":
				return bfAns{Status: 200, Body: bfParamJSON([]QS{q(par.TxFeePerByte), q(par.TxFeeFixed), q(par.MaxTxSize), "5", "1", `"1000000"`})}
			case "GET /api/v0/blocks/latest":
				return bfAns{Status: 200, Body: bfTipJSON([3]QS{q(tip[0]), q(tip[1]), q(tip[2])})}
			case "POST /api/v0/tx/submit":
				posted = append(posted, r.Body)
				return bfAns{Status: 200, Body: `"` + id + `"`}
			}
			strange = r.Method + " " + r.Path
			return bfAns{Status: 404, Body: errBody(404)}
		}
		bf.mu.Unlock()
		defer func() {
			bf.mu.Lock()
			delete(bf.byID, proj)
			bf.mu.Unlock()
		}()
		nd = node.NewBlockfrostClient(proj, netOf(p.W.Net))
	} else {
		st = newStand("cardano-cli")
		defer st.done()
		nd = node.NewCardanoCliNode(netOf(p.W.Net), st.path)
		id = "Transaction successfully submitted."
	}
	ask := func(out string, sub [2]string, opts map[string]string, f func() error) error {
		n.Op(1)
		if p.Bf {
			return f()
		}
		st.answer(out, "0")
		if err := f(); err != nil {
			return err
		}
		calls := st.take()
		if len(calls) != 1 {
			return errf("the program ran %d times", len(calls))
		}
		return wantCall(calls[0], sub, opts, netSel{p.W.Net == 1, netOf(p.W.Net).ProtocolMagic})
	}
	for round := 0; ; round++ {
		var got protocol.Protocol
		if err := ask(string(paramText(par, []int{0, 1, 2, 3, 4}, true)), [2]string{"query", "protocol-parameters"}, nil, func() (e error) { got, e = nd.ProtocolParameters(); return }); err != nil {
			return errf("protocol parameters: %v %s", err, strange)
		}
		table := tableHead
		for _, r := range rows {
			table += r.line() + "\n"
		}
		var ins []tx.TxInput
		if err := ask(table, [2]string{"query", "utxo"}, map[string]string{"--address": who.Text()}, func() (e error) { ins, e = nd.UTXOs(a); return }); err != nil {
			return errf("UTXOs of %s: %v %s", who.Text(), err, strange)
		}
		ttl := uint32(0)
		if p.TTL {
			if err := ask(fmt.Sprintf(`{"epoch":%d,"slot":%d,"block":%d}`, tip[1], tip[0], tip[2]), [2]string{"query", "tip"}, nil, func() error {
				t, e := nd.QueryTip()
				ttl = uint32(t.Slot) + 1200
				return e
			}); err != nil {
				return errf("tip: %v %s", err, strange)
			}
		}
		t, err := p.pay(k, ins, got, ttl, cAddr)
		if err != nil {
			return err
		}
		res := ""
		if err := ask(id, [2]string{"transaction", "submit"}, map[string]string{"--tx-file": "*"}, func() (e error) { res, e = nd.SubmitTx(t); return }); err != nil {
			return errf("submission: %v %s", err, strange)
		}
		if strings.TrimSpace(res) != id {
			return errf("the submission returns %q, want %q", res, id)
		}
		var b []byte
		if p.Bf {
			mu.Lock()
			if len(posted) != round+1 || strange != "" {
				mu.Unlock()
				return errf("%d transactions posted in round %d; %s", len(posted), round, strange)
			}
			b = posted[round]
			mu.Unlock()
		} else {
			f, _ := st.txFile()
			var env struct {
				CborHex string `json:"cborHex"`
			}
			if e := json.Unmarshal(f, &env); e != nil {
				return errf("the transaction file is %q: %v", f, e)
			}
			if b, err = hex.DecodeString(env.CborHex); err != nil {
				return err
			}
		}
		wttl := uint32(0)
		if p.TTL {
			wttl = uint32(tip[0]) + 1200
		}
		left, err := p.judge(b, rows, wttl, cRef, par, n)
		if err != nil {
			return errf("payment %d: %v", round+1, err)
		}
		if !p.Reuse || round == 1 || left == 0 {
			return nil
		}
		// the change has arrived: spend it
		s, _ := split(b)
		mu.Lock()
		rows = []Row{{Hash: QS(hex.EncodeToString(ref.Blake2b(32, s.body.Raw))), Ix: "1", Amt: QS(utoa(left)), Tail: " lovelace"}}
		mu.Unlock()
		if p.Amt > left/2 {
			p.Amt = left / 2
		}
		if p.Change == 1 {
			// it went to the other address
			p.W.Role, p.W.Ix = 1, p.W.Ix+1
			mu.Lock()
			who, _ = p.W.ref()
			mu.Unlock()
			if k, a, err = p.W.open(); err != nil {
				return err
			}
			if cRef, cAddr, err = p.changeTo(a); err != nil {
				return err
			}
		}
	}
}

func genWallet(r *core.Run, yield func(Wallet)) {
	accts := core.Pick(r, []uint32{0, 1, 2, hard - 1}, []uint32{0, 1, 2, 3, 255, 256, 65535, 65536, hard - 2, hard - 1})
	ixs := core.Pick(r, []uint32{0, 1, 2, 255, 256, hard - 1}, []uint32{0, 1, 2, 3, 127, 128, 255, 256, 65535, 65536, 1 << 24, hard - 2, hard - 1})
	r.Param("wallets.accounts", len(accts))
	r.Param("wallets.indexes", len(ixs))
	k := 0
	for ent := range walEnts {
		for pw := range walPws {
			for _, ac := range accts {
				for role := uint32(0); role < 3; role++ {
					for _, ix := range ixs {
						for kind := 0; kind < 4; kind++ {
							k++
							if ent > 1 && pw > 0 && k%5 != 0 && !r.Thorough() {
								continue
							}
							m := uint32(k) * 2654435761 >> 20
							yield(Wallet{ent, pw, ac, role, ix, kind, byte(m & 1), m&2 != 0, m&4 != 0, m&8 != 0})
						}
					}
				}
			}
		}
	}
	// a run of addresses of one account
	for ix := uint32(0); ix < uint32(core.Pick(r, 200, 2000)); ix++ {
		yield(Wallet{1, 0, 0, ix & 1, ix, int(ix) % 4, 1, false, false, true})
	}
}

func genPay(r *core.Run, yield func(Pay)) {
	w0 := Wallet{Net: 0, Parse: true}
	rich := func(n int, amt uint64) (l []Row) {
		for i := 0; i < n; i++ {
			g := goodRow(i)
			g.Amt = QS(utoa(amt + uint64(i)))
			l = append(l, g)
		}
		return
	}
	sets := [][]Row{rich(1, 5_000_000), rich(2, 3_000_000), rich(1, 45_000_000_000_000_000), rich(3, 700_000), rich(26, 1_100_000), {goodRow(0), goodRow(1), goodRow(2), goodRow(3), goodRow(5)}, rich(101, 90_000), rich(1, 1_168_100), rich(1, 1_170_000)}
	for _, b := range []bool{false, true} {
		// everything about the payment
		for si, s := range sets {
			for _, amt := range []uint64{1, 1_000_000, 1_234_567, 2_000_000} {
				for k := 0; k < 32; k++ {
					if (si+k+int(amt))%4 != 0 && !r.Thorough() {
						continue
					}
					w := w0
					w.Net = byte(k & 1)
					w.Kind = (si + k) % 4
					p := Pay{W: w, Bf: b, Rows: s, Amt: amt, Dest: (si*7 + k) % len(histAddrs), Meta: -1, TTL: k&2 != 0, Order: k&4 != 0, Change: k >> 3 & 1, Reuse: k&16 != 0}
					if k%3 == 0 {
						p.Meta = k % len(allMetas)
					}
					yield(p)
				}
			}
		}
		// parameters
		for i := range feeParams {
			for net := byte(0); net < 2; net++ {
				w := w0
				w.Net = net
				yield(Pay{W: w, Bf: b, Rows: sets[2], Amt: 1_000_000, Meta: -1, Params: i, TTL: true, Reuse: true})
				yield(Pay{W: w, Bf: b, Rows: sets[1], Amt: 1_000_000, Meta: 2, Params: i, Change: 1})
			}
		}
		// destinations
		for d := range histAddrs {
			for net := byte(0); net < 2; net++ {
				w := w0
				w.Net, w.Kind = net, d%4
				yield(Pay{W: w, Bf: b, Rows: sets[0], Amt: 1_500_000, Dest: d, Meta: -1, Change: d & 1})
			}
		}
		// wallets
		k := 0
		for ent := range walEnts {
			for pw := range walPws {
				for _, ac := range []uint32{0, 1, hard - 1} {
					for _, ix := range []uint32{0, 5, hard - 2} {
						k++
						yield(Pay{W: Wallet{ent, pw, ac, uint32(k % 2), ix, k % 4, byte(k & 1), k&2 != 0, k&4 != 0, k&8 != 0}, Bf: b, Rows: sets[k%3], Amt: 1_200_000, Dest: k % len(histAddrs), Meta: -1, TTL: k&16 != 0, Change: k >> 3 & 1, Reuse: k%3 == 0})
					}
				}
			}
		}
	}
}

func init() {
	core.Register(&core.Prop{ID: "C29", Level: "model_checking", Subs: []core.Sub{
		core.S[Wallet]{N: "wallets", Gen: genWallet, Check: checkWallet, Batch: 8},
		core.S[Pay]{N: "payments", Gen: genPay, Check: checkPay, Batch: 2}},
		Exhaustive:  "the product of entropies, passwords, boundary accounts, roles, indexes and address kinds for the agreement of address and witness; the product of node kind, network, UTXO sets, amounts, change targets, metadata, time to live and parameters for whole payments, one or two in a row on one node",
		Assumptions: []string{"the node answers without faults (faults are enumerated by C22 to C26)"}})
}
