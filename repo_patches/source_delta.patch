From ac102caa182940a0b53291ca4075df43c700682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:34 +0000
Subject: [PATCH 01/37] fix: refuse empty and wrongly sized base address input
 instead of panicking or ignoring trailing bytes

---
 address/address.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/address/address.go b/address/address.go
index f438de8..d56523f 100644
--- a/address/address.go
+++ b/address/address.go
@@ -55,6 +55,9 @@ func NewAddressFromHex(hexAddr string) (addr Address, err error) {
 }
 
 func NewAddressFromBytes(data []byte) (addr Address, err error) {
+	if len(data) == 0 {
+		return nil, ErrUnsupportedAddress
+	}
 	header := data[0]
 	netId := header & 0x0F
 
@@ -80,6 +83,13 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 	// 0010: base address: keyhash28,scripthash28
 	// 0011: base address: scripthash28,scripthash28
 	case 0b0000, 0b0001, 0b0010, 0b0011:
+		const baseAddrSize = 1 + 28 + 28
+		if len(data) < baseAddrSize {
+			return nil, errors.New("cbor not enough error")
+		}
+		if len(data) > baseAddrSize {
+			return nil, errors.New("cbor trailing data error")
+		}
 		baseAddr := BaseAddress{
 			Network: networks[netId],
 			Payment: *readAddrCred(data, header, 4, 1),
-- 
2.43.0


From 23615880ca4010486c27019e3751b9bddf2f69fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:35 +0000
Subject: [PATCH 02/37] fix: refuse addresses with an unassigned network id
 instead of decoding them as testnet

---
 address/address.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/address/address.go b/address/address.go
index d56523f..7eb270f 100644
--- a/address/address.go
+++ b/address/address.go
@@ -66,6 +66,11 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 		byte(0): *network.TestNet(),
 	}
 
+	addrType := (header & 0xF0) >> 4
+	if _, known := networks[netId]; !known && addrType != 0b1000 {
+		return nil, ErrUnsupportedAddress
+	}
+
 	switch (header & 0xF0) >> 4 {
 	// 1000: byron address
 	case 0b1000:
-- 
2.43.0


From 02f81b4dd2460fb230f7f413201d8e1d552a2a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:37 +0000
Subject: [PATCH 03/37] fix: refuse Byron addresses that do not re-encode to
 the bytes they were read from

---
 address/address.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/address/address.go b/address/address.go
index 7eb270f..c678473 100644
--- a/address/address.go
+++ b/address/address.go
@@ -1,6 +1,7 @@
 package address
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 	"log"
@@ -80,6 +81,10 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 			log.Println(err)
 			return &byron, err
 		}
+		// An address that is not in canonical form would be encoded differently, and so paid at another address.
+		if !bytes.Equal(byron.Bytes(), data) {
+			return nil, ErrInvalidByronAddress
+		}
 
 		return &byron, nil
 
-- 
2.43.0


From 41eb63ec0c7ad5e7c2d4914e20c4ab6cb93cf9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:38 +0000
Subject: [PATCH 04/37] fix: copy credential hashes out of the decoded buffer

---
 address/address.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index c678473..204d63d 100644
--- a/address/address.go
+++ b/address/address.go
@@ -173,7 +173,8 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 }
 
 func readAddrCred(data []byte, header byte, bit byte, pos int) *StakeCredential {
-	hashBytes := data[pos : pos+28]
+	hashBytes := make([]byte, 28)
+	copy(hashBytes, data[pos:pos+28])
 
 	if header&(1<<bit) == 0 {
 		return NewKeyStakeCredential(
-- 
2.43.0


From 55ae4a491fc671d3c3ed8519875aafd6ca105eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:33 +0000
Subject: [PATCH 05/37] fix: encode pointer addresses with the library's own
 bech32 (the other one refuses 8-bit data, giving an empty text)

---
 address/pointer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/pointer.go b/address/pointer.go
index 969a300..a18b459 100644
--- a/address/pointer.go
+++ b/address/pointer.go
@@ -4,7 +4,7 @@ import (
 	"errors"
 	"reflect"
 
-	"github.com/btcsuite/btcutil/bech32"
+	"github.com/fivebinaries/go-cardano-serialization/internal/bech32"
 	"github.com/fivebinaries/go-cardano-serialization/network"
 	"github.com/fxamacker/cbor/v2"
 )
-- 
2.43.0


From 40d61850b778e9350ddd9074d48c3266229e0b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:34 +0000
Subject: [PATCH 06/37] fix: choose the pointer address prefix by network id,
 as the other kinds do

---
 address/pointer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/pointer.go b/address/pointer.go
index a18b459..84e249d 100644
--- a/address/pointer.go
+++ b/address/pointer.go
@@ -82,7 +82,7 @@ func (p *PointerAddress) String() string {
 
 // Prefix returns the string prefix for the base address. Prefix `addr` for mainnet addresses and `addr_test` for testnet.
 func (p *PointerAddress) Prefix() string {
-	if p.Network == *network.TestNet() {
+	if p.Network.NetworkId == network.TestNet().NetworkId {
 		return "addr_test"
 	}
 	return "addr"
-- 
2.43.0


From f4b437176f78e2cca0732ca87c371952ddc000e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:35 +0000
Subject: [PATCH 07/37] fix: refuse overflowing and zero-padded variable length
 naturals

---
 address/pointer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/address/pointer.go b/address/pointer.go
index 84e249d..0e72293 100644
--- a/address/pointer.go
+++ b/address/pointer.go
@@ -39,6 +39,10 @@ func VariableNatDecode(raw []byte) (uint64, int, error) {
 	output = 0
 	bytes_read := 0
 	for _, rbyte := range raw {
+		if output>>57 != 0 || (bytes_read == 0 && rbyte == 0x80) {
+			// more than 64 bits, or padded with leading zeros
+			return 0, 0, errors.New("unexpected bytes")
+		}
 		output = (output << 7) | uint64(rbyte&0x7F)
 		bytes_read += 1
 		if (rbyte & 0x80) == 0 {
-- 
2.43.0


From 96a9ec674174027adc42cec9a7445de85eb94ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:36 +0000
Subject: [PATCH 08/37] fix: refuse address texts whose prefix is not the one
 of the address they encode

---
 address/address.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/address/address.go b/address/address.go
index 204d63d..48c51db 100644
--- a/address/address.go
+++ b/address/address.go
@@ -32,9 +32,10 @@ type Address interface {
 
 func NewAddress(raw string) (addr Address, err error) {
 	var data []byte
+	var hrp string
 
 	if strings.HasPrefix(raw, "addr") || strings.HasPrefix(raw, "stake") {
-		_, data, err = bech32.Decode(raw)
+		hrp, data, err = bech32.Decode(raw)
 	} else {
 		data = base58.Decode(raw)
 	}
@@ -43,7 +44,15 @@ func NewAddress(raw string) (addr Address, err error) {
 		return
 	}
 
-	return NewAddressFromBytes(data)
+	if addr, err = NewAddressFromBytes(data); err != nil {
+		return
+	}
+
+	// The prefix has to be the one of the address's kind and network; only Byron addresses have none.
+	if _, byron := addr.(*ByronAddress); byron != (hrp == "") || (!byron && !strings.HasPrefix(addr.String(), hrp+"1")) {
+		return nil, ErrUnsupportedAddress
+	}
+	return addr, nil
 }
 
 func NewAddressFromHex(hexAddr string) (addr Address, err error) {
-- 
2.43.0


From 5aa75d9e4e285c257598c6a5582778964a59cd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:37 +0000
Subject: [PATCH 09/37] fix: marshal the bytes of a reward address to CBOR
 instead of its method value

---
 address/reward.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/reward.go b/address/reward.go
index 3d43b08..68c01e3 100644
--- a/address/reward.go
+++ b/address/reward.go
@@ -30,7 +30,7 @@ func (r *RewardAddress) String() string {
 
 // MarshalCBOR returns a cbor encoded byte slice of the base address.
 func (r *RewardAddress) MarshalCBOR() ([]byte, error) {
-	return cbor.Marshal(r.Bytes)
+	return cbor.Marshal(r.Bytes())
 }
 
 // NetworkInfo returns pointer to NetworkInfo{ProtocolMagigic and NetworkId}.
-- 
2.43.0


From d8dcdb4afba4bd84337cc2c1029da79bd992432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:55 +0000
Subject: [PATCH 10/37] fix: serialize metadata maps deterministically so that
 the auxiliary data hash matches the metadata

---
 tx/tx.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tx/tx.go b/tx/tx.go
index ca4d583..9e6e529 100644
--- a/tx/tx.go
+++ b/tx/tx.go
@@ -9,6 +9,10 @@ import (
 	"golang.org/x/crypto/blake2b"
 )
 
+// encMode encodes maps (metadata) in one fixed order. Without it, the bytes of a transaction, its hash and its
+// auxiliary data hash would depend on the random iteration order of Go maps.
+var encMode, _ = cbor.EncOptions{Sort: cbor.SortCanonical}.EncMode()
+
 type Tx struct {
 	_        struct{} `cbor:",toarray"`
 	Body     *TxBody
@@ -31,7 +35,7 @@ func (t *Tx) Bytes() ([]byte, error) {
 	if err := t.CalculateAuxiliaryDataHash(); err != nil {
 		return nil, err
 	}
-	bytes, err := cbor.Marshal(t)
+	bytes, err := encMode.Marshal(t)
 	return bytes, err
 }
 
@@ -65,7 +69,7 @@ func (t *Tx) Fee(lfee *fees.LinearFee) (uint, error) {
 	if err := t.CalculateAuxiliaryDataHash(); err != nil {
 		return 0, err
 	}
-	txCbor, err := cbor.Marshal(t)
+	txCbor, err := encMode.Marshal(t)
 	if err != nil {
 		return 0, err
 	}
@@ -82,7 +86,7 @@ func (t *Tx) SetFee(fee uint) {
 
 func (t *Tx) CalculateAuxiliaryDataHash() error {
 	if t.Metadata != nil {
-		mdBytes, err := cbor.Marshal(&t.Metadata)
+		mdBytes, err := encMode.Marshal(&t.Metadata)
 		if err != nil {
 			return fmt.Errorf("cannot serialize metadata: %w", err)
 		}
-- 
2.43.0


From 044e613e8c954a6808b0670ed244b85311198ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:56 +0000
Subject: [PATCH 11/37] fix: drop the auxiliary data hash when the metadata is
 removed

---
 tx/tx.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tx/tx.go b/tx/tx.go
index 9e6e529..62c0b66 100644
--- a/tx/tx.go
+++ b/tx/tx.go
@@ -92,6 +92,8 @@ func (t *Tx) CalculateAuxiliaryDataHash() error {
 		}
 		auxHash := blake2b.Sum256(mdBytes)
 		t.Body.AuxiliaryDataHash = auxHash[:]
+	} else {
+		t.Body.AuxiliaryDataHash = nil
 	}
 	return nil
 }
-- 
2.43.0


From cfd76ca66ee4a0b5b4e4a72a3981a9d2cb3c259b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:58 +0000
Subject: [PATCH 12/37] fix: keep the placeholder witness of the fee estimation
 out of the transaction

---
 tx/tx_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 0293270..ba3973d 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -86,7 +86,7 @@ func (tb TxBuilder) MinFee() (fee uint) {
 			Fee:     tb.tx.Body.Fee,
 			TTL:     tb.tx.Body.TTL,
 		},
-		Witness:  tb.tx.Witness,
+		Witness:  NewTXWitness(tb.tx.Witness.Keys...),
 		Valid:    true,
 		Metadata: tb.tx.Metadata,
 	}
-- 
2.43.0


From d9455270ba21a40172a512a8e8f5e0310abe33c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:59 +0000
Subject: [PATCH 13/37] fix: estimate the fee with one witness per signing key

---
 tx/tx_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index ba3973d..9d0e1c7 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -91,7 +91,7 @@ func (tb TxBuilder) MinFee() (fee uint) {
 		Metadata: tb.tx.Metadata,
 	}
 	feeTx.CalculateAuxiliaryDataHash()
-	if len(feeTx.Witness.Keys) == 0 {
+	for len(feeTx.Witness.Keys) == 0 || len(feeTx.Witness.Keys) < len(tb.xprvs) {
 		vWitness := NewVKeyWitness(
 			make([]byte, 32),
 			make([]byte, 64),
-- 
2.43.0


From c2ad56c3cede590708c80f5e51119861b6538679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:44 +0000
Subject: [PATCH 14/37] fix: make the minimum fee cover the encoding of the fee
 itself

---
 tx/tx_builder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 9d0e1c7..2b052b1 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -112,6 +112,11 @@ func (tb TxBuilder) MinFee() (fee uint) {
 	fee, _ = feeTx.Fee(lfee)
 	feeTx.Body.Fee = uint64(fee)
 	fee, _ = feeTx.Fee(lfee)
+	// That pass may have lengthened the fee once more
+	for feeTx.Body.Fee < uint64(fee) {
+		feeTx.Body.Fee = uint64(fee)
+		fee, _ = feeTx.Fee(lfee)
+	}
 
 	return
 }
-- 
2.43.0


From e6cd1d7cb354a65317a826f6d53167b00d46a54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:45 +0000
Subject: [PATCH 15/37] fix: estimate the fee with the actual change address
 and an amount no shorter than the change

---
 tx/tx_builder.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 2b052b1..6135fa6 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -49,7 +49,7 @@ func (tb *TxBuilder) Tx() (tx *Tx) {
 // AddChangeIfNeeded calculates the excess change from UTXO inputs - outputs and adds it to the transaction body.
 func (tb *TxBuilder) AddChangeIfNeeded(addr address.Address) {
 	// change is amount in utxo minus outputs minus fee
-	tb.tx.SetFee(tb.MinFee())
+	tb.tx.SetFee(tb.minFee(addr))
 	totalI, totalO := tb.getTotalInputOutputs()
 
 	change := totalI - totalO - uint(tb.tx.Body.Fee)
@@ -79,6 +79,13 @@ func (tb TxBuilder) getTotalInputOutputs() (inputs, outputs uint) {
 
 // MinFee calculates the minimum fee for the provided transaction.
 func (tb TxBuilder) MinFee() (fee uint) {
+	inner_addr, _ := address.NewAddress("addr_test1qqe6zztejhz5hq0xghlf72resflc4t2gmu9xjlf73x8dpf88d78zlt4rng3ccw8g5vvnkyrvt96mug06l5eskxh8rcjq2wyd63")
+
+	return tb.minFee(inner_addr)
+}
+
+// minFee calculates the minimum fee for the provided transaction, with any change going to changeAddr.
+func (tb TxBuilder) minFee(changeAddr address.Address) (fee uint) {
 	feeTx := Tx{
 		Body: &TxBody{
 			Inputs:  tb.tx.Body.Inputs,
@@ -102,9 +109,8 @@ func (tb TxBuilder) MinFee() (fee uint) {
 	totalI, totalO := tb.getTotalInputOutputs()
 
 	if totalI != (totalO) {
-		inner_addr, _ := address.NewAddress("addr_test1qqe6zztejhz5hq0xghlf72resflc4t2gmu9xjlf73x8dpf88d78zlt4rng3ccw8g5vvnkyrvt96mug06l5eskxh8rcjq2wyd63")
-
-		feeTx.Body.Outputs = append(feeTx.Body.Outputs, NewTxOutput(inner_addr, (totalI-totalO-200000)))
+		// The change before the fee is taken off: never shorter than the final one
+		feeTx.Body.Outputs = append(feeTx.Body.Outputs, NewTxOutput(changeAddr, (totalI-totalO)))
 
 	}
 	lfee := fees.NewLinearFee(tb.protocol.TxFeePerByte, tb.protocol.TxFeeFixed)
-- 
2.43.0


From 441e9538c364f26934addff9779cc1f54acc1669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:47 +0000
Subject: [PATCH 16/37] fix: add no change output when inputs do not exceed
 outputs and fee

---
 tx/tx_builder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 6135fa6..55b53b6 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -52,6 +52,11 @@ func (tb *TxBuilder) AddChangeIfNeeded(addr address.Address) {
 	tb.tx.SetFee(tb.minFee(addr))
 	totalI, totalO := tb.getTotalInputOutputs()
 
+	// no excess, no change (the subtraction below would wrap around)
+	if totalI <= totalO || totalI-totalO <= uint(tb.tx.Body.Fee) {
+		return
+	}
+
 	change := totalI - totalO - uint(tb.tx.Body.Fee)
 	tb.tx.AddOutputs(
 		NewTxOutput(
-- 
2.43.0


From 4024d68f901528ecd6bd9de24d16ca3711ca046c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:48 +0000
Subject: [PATCH 17/37] fix: do not append to the key list of the caller, which
 other builders may share

---
 tx/tx_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 55b53b6..38fb7e9 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -146,7 +146,7 @@ func (tb *TxBuilder) AddOutputs(outputs ...*TxOutput) {
 func NewTxBuilder(pr protocol.Protocol, xprvs []bip32.XPrv) *TxBuilder {
 	return &TxBuilder{
 		tx:       NewTx(),
-		xprvs:    xprvs,
+		xprvs:    append([]bip32.XPrv{}, xprvs...),
 		protocol: pr,
 	}
 }
-- 
2.43.0


From fda16dda06ae9e9ff9e41b1015cbc59b28116b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:49 +0000
Subject: [PATCH 18/37] fix: return a built transaction that later use of the
 builder does not alter

---
 tx/tx_builder.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 38fb7e9..127d5d5 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -38,7 +38,14 @@ func (tb *TxBuilder) Build() (tx Tx, err error) {
 		txKeys...,
 	)
 
-	return *tb.tx, nil
+	// The body is copied: later changes to the builder must not alter what has been signed.
+	body := *tb.tx.Body
+	body.Inputs = append(body.Inputs[:0:0], body.Inputs...)
+	body.Outputs = append(body.Outputs[:0:0], body.Outputs...)
+	tx = *tb.tx
+	tx.Body = &body
+
+	return tx, nil
 }
 
 // Tx returns a pointer to the transaction
-- 
2.43.0


From 75e47bc1564daff92bead285e6e93433409f08af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:25 +0000
Subject: [PATCH 19/37] fix: run cardano-cli against the selected network
 (mainnet and testnet were swapped)

---
 node/cardano-cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index f93dcdc..40cc4cd 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -25,7 +25,7 @@ func (cli *cardanoCli) execCommand(args ...string) (data []byte, err error) {
 	buf := &bytes.Buffer{}
 	var cmdSuffix string
 
-	if cli.network.NetworkId == 0 {
+	if cli.network.NetworkId != 0 {
 		cmdSuffix = "--mainnet"
 	} else {
 		cmdSuffix = fmt.Sprintf("--testnet-magic %d", cli.network.ProtocolMagic)
-- 
2.43.0


From 4766e308c8e3415b3e13f39f3bfa666ff6610d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:26 +0000
Subject: [PATCH 20/37] fix: pass cardano-cli options and their values as
 separate arguments, to the subcommands it has

---
 node/cardano-cli.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index 40cc4cd..a87f4f1 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -23,15 +23,15 @@ type cardanoCli struct {
 
 func (cli *cardanoCli) execCommand(args ...string) (data []byte, err error) {
 	buf := &bytes.Buffer{}
-	var cmdSuffix string
+	var cmdSuffix []string
 
 	if cli.network.NetworkId != 0 {
-		cmdSuffix = "--mainnet"
+		cmdSuffix = []string{"--mainnet"}
 	} else {
-		cmdSuffix = fmt.Sprintf("--testnet-magic %d", cli.network.ProtocolMagic)
+		cmdSuffix = []string{"--testnet-magic", fmt.Sprint(cli.network.ProtocolMagic)}
 	}
 
-	args = append(args, cmdSuffix)
+	args = append(args, cmdSuffix...)
 	cmd := exec.Command(cli.cliPath, args...)
 	cmd.Stdout = buf
 	cmd.Stderr = os.Stderr
@@ -55,7 +55,7 @@ func (cli *cardanoCli) ProtocolParameters() (p protocol.Protocol, err error) {
 }
 
 func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error) {
-	data, err := cli.execCommand("query", "utxos", fmt.Sprintf("--address %s", addr))
+	data, err := cli.execCommand("query", "utxo", "--address", addr.String())
 	if err != nil {
 		return
 	}
@@ -133,7 +133,7 @@ func (cli *cardanoCli) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 		return txHash, err
 	}
 
-	cliData, err := cli.execCommand("submit", fmt.Sprintf("--tx-file %s", tmpFile.Name()))
+	cliData, err := cli.execCommand("transaction", "submit", "--tx-file", tmpFile.Name())
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 05433195a27b3aacebb4d3f3c46b5494b412df06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:27 +0000
Subject: [PATCH 21/37] fix: parse the rows of the cardano-cli utxo table
 (slicing by its length in bytes always panicked)

---
 node/cardano-cli.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index a87f4f1..e013c5b 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -61,14 +61,20 @@ func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error
 	}
 
 	ldata := strings.Split(string(data), "\n")
-	lenData := len(data)
+	lenData := len(ldata)
 
 	if lenData < 3 {
 		return
 	}
 
-	for _, it := range ldata[2 : lenData-1] {
+	for _, it := range ldata[2:lenData] {
 		sec := strings.Fields(it)
+		if len(sec) == 0 {
+			continue
+		}
+		if len(sec) < 3 {
+			return txIs, fmt.Errorf("unexpected utxo row: %q", it)
+		}
 		txIx, err := strconv.ParseUint(sec[1], 10, 16)
 		if err != nil {
 			return txIs, err
@@ -76,7 +82,7 @@ func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error
 
 		amSec := strings.Fields(sec[2])
 
-		amount, err := strconv.Atoi(amSec[0])
+		amount, err := strconv.ParseUint(amSec[0], 10, 64)
 		if err != nil {
 			return txIs, err
 		}
@@ -87,6 +93,10 @@ func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error
 			uint(amount),
 		)
 
+		if len(utxo.TxHash) != 32 {
+			return txIs, fmt.Errorf("unexpected utxo row: %q", it)
+		}
+
 		txIs = append(txIs, utxo)
 	}
 	return
-- 
2.43.0


From 55fd0fa529c6ecfe2526a16263c4566d89f446b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:29 +0000
Subject: [PATCH 22/37] fix: use the default cardano-cli program when the given
 path is empty

---
 node/cardano-cli.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index e013c5b..adae6f8 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -160,10 +160,8 @@ func (cli *cardanoCli) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 func NewCardanoCliNode(network *network.NetworkInfo, cliPaths ...string) Node {
 	var cliPath string
 
-	if len(cliPaths) > 0 {
-		if cliPaths[0] != "" {
-			cliPath = cliPaths[0]
-		}
+	if len(cliPaths) > 0 && cliPaths[0] != "" {
+		cliPath = cliPaths[0]
 	} else {
 		cliPath = "cardano-cli"
 	}
-- 
2.43.0


From 701c4017b1448b2faf56695aa21ec363401eff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:30 +0000
Subject: [PATCH 23/37] fix: read all pages of an address's UTXOs from
 blockfrost

---
 node/blockfrost.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 9b89d3f..31437b2 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -34,13 +34,18 @@ func (b *blockfrostNode) getNetwork() (serverUrl string) {
 
 // UTXOs queries the network for Unspent Transaction Outputs belonging to an address.
 func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err error) {
-	utxos, err := b.client.AddressUTXOs(
-		context.TODO(),
-		addr.String(),
-		blockfrost.APIQueryParams{},
-	)
-	if err != nil {
-		return
+	const pageSize = 100
+	var utxos []blockfrost.AddressUTXO
+	for page := 1; len(utxos) == (page-1)*pageSize; page++ {
+		pageUtxos, err := b.client.AddressUTXOs(
+			context.TODO(),
+			addr.String(),
+			blockfrost.APIQueryParams{Count: pageSize, Page: page},
+		)
+		if err != nil {
+			return nil, err
+		}
+		utxos = append(utxos, pageUtxos...)
 	}
 
 	for _, utxo := range utxos {
-- 
2.43.0


From 787ef88a9cbe45cbc41d81367aa94fdded901e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:31 +0000
Subject: [PATCH 24/37] fix: refuse negative lovelace quantities from
 blockfrost instead of wrapping them

---
 node/blockfrost.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 31437b2..08618ab 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -53,7 +53,7 @@ func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err err
 		for _, am := range utxo.Amount {
 			if am.Unit == "lovelace" {
 
-				amountI, err := strconv.Atoi(am.Quantity)
+				amountI, err := strconv.ParseUint(am.Quantity, 10, 64)
 				if err != nil {
 					return []tx.TxInput{}, err
 				}
-- 
2.43.0


From 6ce97da5b74f6b0731eec7674abe8acb717f4acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:32 +0000
Subject: [PATCH 25/37] fix: return the transaction hash without the JSON
 quotes blockfrost puts around it

---
 node/blockfrost.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 08618ab..07c4444 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -3,6 +3,7 @@ package node
 import (
 	"bytes"
 	"context"
+	"encoding/json"
 	"errors"
 	"fmt"
 	"io/ioutil"
@@ -117,6 +118,7 @@ func (b *blockfrostNode) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 		return
 	}
 
+	defer res.Body.Close()
 	resb, err := ioutil.ReadAll(res.Body)
 	if err != nil {
 		return "", err
@@ -124,6 +126,9 @@ func (b *blockfrostNode) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 
 	if res.StatusCode != 200 {
 		err = errors.New(string(resb))
+	} else if json.Unmarshal(resb, &txHash) == nil {
+		// the hash comes as a JSON string
+		return txHash, nil
 	}
 
 	return string(resb), err
-- 
2.43.0


From 5ca161d5990b0a8652f8f245cb4ba7d6fc46e38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:43 +0000
Subject: [PATCH 26/37] fix: write Byron addresses in outputs as byte strings,
 as the ledger requires

---
 tx/tx_input_output.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tx/tx_input_output.go b/tx/tx_input_output.go
index a1ef170..f788ec0 100644
--- a/tx/tx_input_output.go
+++ b/tx/tx_input_output.go
@@ -45,6 +45,21 @@ type TxOutput struct {
 	Amount  uint
 }
 
+// MarshalCBOR returns the cbor encoding of the output. The ledger takes every address as a byte string, Byron
+// addresses included.
+func (txO *TxOutput) MarshalCBOR() ([]byte, error) {
+	type arrayOutput struct {
+		_       struct{} `cbor:",toarray"`
+		Address []byte
+		Amount  uint
+	}
+	output := arrayOutput{Amount: txO.Amount}
+	if txO.Address != nil {
+		output.Address = txO.Address.Bytes()
+	}
+	return cbor.Marshal(output)
+}
+
 func NewTxOutput(addr address.Address, amount uint) *TxOutput {
 	return &TxOutput{
 		Address: addr,
-- 
2.43.0


From dc6c28f30006cd055fc98d42cfa5d6e03c18ef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:43 +0000
Subject: [PATCH 27/37] fix: return copies of the parts of a key, which callers
 may overwrite or append to

---
 bip32/bip32.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 393759e..ab09c4d 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -63,7 +63,7 @@ func (key XPrv) extendedPrivateKey() []byte {
 }
 
 func (key XPrv) ChainCode() []byte {
-	return key[64:]
+	return append([]byte{}, key[64:]...)
 }
 
 func add28mul8(x, y []byte) []byte {
@@ -146,11 +146,11 @@ func (key XPrv) Public() XPub {
 }
 
 func (pub XPub) PublicKey() PublicKey {
-	return PublicKey(pub[:32])
+	return append(PublicKey{}, pub[:32]...)
 }
 
 func (pub XPub) ChainCode() PrivateKey {
-	return PrivateKey(pub[32:])
+	return append(PrivateKey{}, pub[32:]...)
 }
 
 //implements https://github.com/Emurgo/cardano-serialization-lib/blob/0e89deadf9183a129b9a25c0568eed177d6c6d7c/rust/src/chain_crypto/derive.rs#L30
-- 
2.43.0


From 0b337d4a8d20c8c0bb5322f7e61780b11cd25ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:44 +0000
Subject: [PATCH 28/37] fix: set no auxiliary data hash for nil maps and
 pointers as metadata

---
 tx/tx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tx/tx.go b/tx/tx.go
index 62c0b66..2598a41 100644
--- a/tx/tx.go
+++ b/tx/tx.go
@@ -1,6 +1,7 @@
 package tx
 
 import (
+	"bytes"
 	"encoding/hex"
 	"fmt"
 
@@ -90,6 +91,11 @@ func (t *Tx) CalculateAuxiliaryDataHash() error {
 		if err != nil {
 			return fmt.Errorf("cannot serialize metadata: %w", err)
 		}
+		if bytes.Equal(mdBytes, []byte{0xf6}) {
+			// a nil map or pointer serializes to null, which is no metadata
+			t.Body.AuxiliaryDataHash = nil
+			return nil
+		}
 		auxHash := blake2b.Sum256(mdBytes)
 		t.Body.AuxiliaryDataHash = auxHash[:]
 	} else {
-- 
2.43.0


From 358a2ecef7726543b0545898ef19c2996e8a74aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:06 +0000
Subject: [PATCH 29/37] fix: refuse utxos from blockfrost whose index or
 transaction hash would be mangled

---
 node/blockfrost.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 07c4444..8514b95 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -62,7 +62,11 @@ func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err err
 			}
 
 		}
-		txIs = append(txIs, *tx.NewTxInput(utxo.TxHash, uint16(utxo.OutputIndex), amount))
+		txI := tx.NewTxInput(utxo.TxHash, uint16(utxo.OutputIndex), amount)
+		if len(txI.TxHash) != 32 || int(txI.Index) != utxo.OutputIndex {
+			return []tx.TxInput{}, fmt.Errorf("unexpected utxo: %s#%d", utxo.TxHash, utxo.OutputIndex)
+		}
+		txIs = append(txIs, *txI)
 	}
 
 	return
-- 
2.43.0


From b336c56ad0d7751b1314b622fdfa3cf72ba28e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:06 +0000
Subject: [PATCH 30/37] fix: refuse out of range protocol parameters from
 blockfrost instead of wrapping them

---
 node/blockfrost.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 8514b95..7e0f43e 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -79,11 +79,17 @@ func (b *blockfrostNode) ProtocolParameters() (p protocol.Protocol, err error) {
 		return
 	}
 
-	minU, err := strconv.Atoi(params.MinUtxo)
+	minU, err := strconv.ParseUint(params.MinUtxo, 10, 64)
 	if err != nil {
 		return
 	}
 
+	if params.MinFeeA < 0 || params.MinFeeB < 0 || params.MaxTxSize < 0 ||
+		params.ProtocolMajorVer != int(uint8(params.ProtocolMajorVer)) ||
+		params.ProtocolMinorVer != int(uint8(params.ProtocolMinorVer)) {
+		return p, errors.New("protocol parameters out of range")
+	}
+
 	return protocol.Protocol{
 		TxFeePerByte: uint(params.MinFeeA),
 		TxFeeFixed:   uint(params.MinFeeB),
-- 
2.43.0


From d4fcbe71c696e287606135eb4df099f06a1f5599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:03 +0000
Subject: [PATCH 31/37] fix: refuse a negative network tip from blockfrost
 instead of wrapping it

---
 node/blockfrost.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 7e0f43e..f303a00 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -178,6 +178,10 @@ func (b *blockfrostNode) QueryTip() (nt NetworkTip, err error) {
 		return
 	}
 
+	if block.Slot < 0 || block.Epoch < 0 || block.Height < 0 {
+		return nt, errors.New("network tip out of range")
+	}
+
 	nt = NetworkTip{
 		Slot:  uint(block.Slot),
 		Epoch: uint(block.Epoch),
-- 
2.43.0


From e644f4a5a5d2e28422ae32c00cd003a555f01451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:10 +0000
Subject: [PATCH 32/37] fix: refuse utxo rows with an overlong transaction hash
 instead of cutting it

---
 node/cardano-cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index adae6f8..4217681 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -93,7 +93,7 @@ func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error
 			uint(amount),
 		)
 
-		if len(utxo.TxHash) != 32 {
+		if len(sec[0]) != 64 || len(utxo.TxHash) != 32 {
 			return txIs, fmt.Errorf("unexpected utxo row: %q", it)
 		}
 
-- 
2.43.0


From 13ad6516f79f3ee58fa8b5a29e64ac09f0fe2fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:34 +0000
Subject: [PATCH 33/37] fix: refuse utxos from blockfrost with an overlong
 transaction hash instead of cutting it

---
 node/blockfrost.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index f303a00..c100e51 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -63,7 +63,7 @@ func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err err
 
 		}
 		txI := tx.NewTxInput(utxo.TxHash, uint16(utxo.OutputIndex), amount)
-		if len(txI.TxHash) != 32 || int(txI.Index) != utxo.OutputIndex {
+		if len(utxo.TxHash) != 64 || len(txI.TxHash) != 32 || int(txI.Index) != utxo.OutputIndex {
 			return []tx.TxInput{}, fmt.Errorf("unexpected utxo: %s#%d", utxo.TxHash, utxo.OutputIndex)
 		}
 		txIs = append(txIs, *txI)
-- 
2.43.0


From ea2dcfae7b80408db02fae90d768186b8c9e8e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:47 +0000
Subject: [PATCH 34/37] fix: report a redirected blockfrost submission as a
 failure instead of following it

---
 node/blockfrost.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index c100e51..98ab442 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -122,7 +122,12 @@ func (b *blockfrostNode) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 	req.Header.Add("project_id", b.projectId)
 	req.Header.Add("Content-Type", "application/cbor")
 
-	cli := &http.Client{}
+	cli := &http.Client{
+		// a redirected submission was not accepted: report it instead of following it
+		CheckRedirect: func(*http.Request, []*http.Request) error {
+			return http.ErrUseLastResponse
+		},
+	}
 	res, err := cli.Do(req)
 	if err != nil {
 		return
-- 
2.43.0


From 4c5a09e77630be97305d3d83ac0952e1b5943250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:26 +0000
Subject: [PATCH 35/37] fix: balance the transaction when what is left pays the
 fee but no change output

---
 tx/tx_builder.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 127d5d5..9ce3ee2 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -61,6 +61,10 @@ func (tb *TxBuilder) AddChangeIfNeeded(addr address.Address) {
 
 	// no excess, no change (the subtraction below would wrap around)
 	if totalI <= totalO || totalI-totalO <= uint(tb.tx.Body.Fee) {
+		// What cannot pay for a change output may still pay the fee of the transaction without one
+		if totalI > totalO && tb.feeWithoutChange(totalI-totalO) <= totalI-totalO {
+			tb.tx.SetFee(totalI - totalO)
+		}
 		return
 	}
 
@@ -96,9 +100,9 @@ func (tb TxBuilder) MinFee() (fee uint) {
 	return tb.minFee(inner_addr)
 }
 
-// minFee calculates the minimum fee for the provided transaction, with any change going to changeAddr.
-func (tb TxBuilder) minFee(changeAddr address.Address) (fee uint) {
-	feeTx := Tx{
+// feeTx returns a copy of the transaction with placeholders for the witnesses it does not have yet.
+func (tb TxBuilder) feeTx() (feeTx Tx) {
+	feeTx = Tx{
 		Body: &TxBody{
 			Inputs:  tb.tx.Body.Inputs,
 			Outputs: tb.tx.Body.Outputs,
@@ -118,6 +122,21 @@ func (tb TxBuilder) minFee(changeAddr address.Address) (fee uint) {
 		feeTx.Witness.Keys = append(feeTx.Witness.Keys, vWitness)
 	}
 
+	return
+}
+
+// feeWithoutChange returns the fee required of the transaction as it is, if it carries the given one.
+func (tb TxBuilder) feeWithoutChange(carried uint) (fee uint) {
+	feeTx := tb.feeTx()
+	feeTx.Body.Fee = uint64(carried)
+	fee, _ = feeTx.Fee(fees.NewLinearFee(tb.protocol.TxFeePerByte, tb.protocol.TxFeeFixed))
+
+	return
+}
+
+// minFee calculates the minimum fee for the provided transaction, with any change going to changeAddr.
+func (tb TxBuilder) minFee(changeAddr address.Address) (fee uint) {
+	feeTx := tb.feeTx()
 	totalI, totalO := tb.getTotalInputOutputs()
 
 	if totalI != (totalO) {
-- 
2.43.0


From de1716f11df2d9e032a281c4f623f81c987b43dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:13 +0000
Subject: [PATCH 36/37] fix: refuse to serialize inputs whose transaction id is
 not 32 bytes

---
 tx/tx_input_output.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tx/tx_input_output.go b/tx/tx_input_output.go
index f788ec0..33d0432 100644
--- a/tx/tx_input_output.go
+++ b/tx/tx_input_output.go
@@ -2,8 +2,10 @@ package tx
 
 import (
 	"encoding/hex"
+	"errors"
 
 	"github.com/fivebinaries/go-cardano-serialization/address"
+	"github.com/fivebinaries/go-cardano-serialization/crypto"
 	"github.com/fxamacker/cbor/v2"
 )
 
@@ -17,7 +19,11 @@ type TxInput struct {
 
 // NewTxInput creates and returns a *TxInput from Transaction Hash(Hex Encoded), Transaction Index and Amount.
 func NewTxInput(txHash string, txIx uint16, amount uint) *TxInput {
-	hash, _ := hex.DecodeString(txHash)
+	hash, err := hex.DecodeString(txHash)
+	if err != nil {
+		// DecodeString returns what it decoded before the error: not the given transaction
+		hash = nil
+	}
 
 	return &TxInput{
 		TxHash: hash,
@@ -32,6 +38,9 @@ func (txI *TxInput) MarshalCBOR() ([]byte, error) {
 		TxHash []byte
 		Index  uint16
 	}
+	if len(txI.TxHash) != crypto.TransactionHashLen {
+		return nil, errors.New("invalid transaction hash")
+	}
 	input := arrayInput{
 		TxHash: txI.TxHash,
 		Index:  txI.Index,
-- 
2.43.0


From 9e65bf158518baa8265f245c9d1c15c668a5d1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:29 +0000
Subject: [PATCH 37/37] fix: close the file of a transaction whose submission
 through cardano-cli fails

---
 node/cardano-cli.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index 4217681..3a94b15 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -133,6 +133,7 @@ func (cli *cardanoCli) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 	}
 
 	defer os.Remove(tmpFile.Name())
+	defer tmpFile.Close()
 
 	data, err := json.MarshalIndent(outTx, "", "	")
 	if err != nil {
-- 
2.43.0

