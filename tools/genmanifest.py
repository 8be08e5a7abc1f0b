#!/usr/bin/env python3
# prints MANIFEST.json
import json
MC="model_checking"; FE="fault_enumeration"
IN="bounded-exhaustive input enumeration of the real code against an independent reference model"
HI="explicit-state exploration of all operation histories up to a bound, real code in lockstep with a reference model"
EN="exhaustive enumeration of environment answers and faults of a stand-in"
C={
"C01":(IN,MC,"Complete within the enumerated space of byte strings (all headers x lengths x byte values, pointer grammars, Byron CBOR grammars); trusts the reference CIP-19/Byron codec in mc/ref. One known finding (Byron testnet)."),
"C02":(IN,MC,"Complete over kinds x credential kinds x networks x byte positions x values and boundary pointer triples; trusts mc/ref."),
"C03":(IN,MC,"Complete over the space of C02 plus bech32 lengths; trusts the reference bech32/base58 in mc/ref."),
"C04":(IN,MC,"Complete over all prefixes, extensions and single-byte corruptions of the base inputs and all short strings; a watchdog turns non-termination into a violation."),
"C05":(IN,MC,"Every listed edit of the base texts, every double substitution; other base texts are not covered."),
"C06":(IN,MC,"All naturals below the bound and within 300 of every power of two, all byte strings up to length 2 (3); trusts mc/ref."),
"C07":("bounded-exhaustive exploration of derivation trees against a big-integer BIP32-Ed25519 model",MC,"All paths up to the bound over boundary indices from boundary parents (carry chains); trusts crypto/hmac, sha512 and the big.Int model."),
"C08":(IN,MC,"All entropy/password lengths and patterns up to the bound; trusts crypto/sha512, crypto/hmac."),
"C09":(IN,MC,"All message lengths up to the bound x keys; trusts crypto/ed25519 as verifier."),
"C10":("exhaustive enumeration of table entries and boundary operands against big-integer arithmetic",MC,"Every base-table entry, all pairs of boundary field elements and scalars; not all 2^255 values."),
"C11":(HI,MC,"All operation sequences up to the bound over a pool of shared buffers; value semantics model."),
"C12":(HI,MC,"All builder histories up to the bound plus shape/boundary enumeration; trusts the strict CBOR reader in mc/ref."),
"C13":(HI+"; map iteration order owned through a runtime overlay",MC,"As C12; all map iteration starts within bounds."),
"C14":(HI+"; map iteration order owned through a runtime overlay",MC,"All metadata shapes x histories x map iteration starts within bounds."),
"C15":(HI,MC,"All histories up to the bound x key counts; trusts crypto/ed25519."),
"C16":(HI,MC,"All balance shapes around the fee boundary and all histories up to the bound."),
"C17":(HI,MC,"As C16, sizes around every CBOR width boundary."),
"C18":(HI,MC,"All boundary coefficients x transaction shapes; products below 2^64."),
"C19":(HI,MC,"All query sequences up to the bound at every state of a build history; snapshots compared before and after."),
"C20":(HI,MC,"All interleavings of two builders' histories up to the bound, sharing key slices and inputs."),
"C21":("explicit exploration of all operation sequences on several nodes against a recording stand-in program",MC,"All sequences up to the bound over nodes x networks x operations; the stand-in records argv."),
"C22":(EN+" cardano-cli",FE,"All tables over the row alphabet up to the bound, all truncations, exit codes; trusts the reference table reader."),
"C23":(EN+" cardano-cli",FE,"All transaction shapes x program outcomes; the temp directory is inspected after each."),
"C24":(EN+" Blockfrost server on loopback",FE,"All page structures, row alphabets, networks and per-request faults in bounds; TLS is terminated by a local proxy."),
"C25":(EN+" Blockfrost server on loopback",FE,"All transaction shapes x server answers in bounds."),
"C26":(EN+"s (file, cardano-cli, Blockfrost)",FE,"Every field x boundary values, truncations, wrong types, faults."),
"C27":("stateless preemption-bounded schedule exploration (CHESS style) of the instrumented real code, race detector as monitor",MC,"Two threads, at most one preemption each, statement granularity, all pairs of operations."),
"C29":("exhaustive enumeration of whole payment workflows (wallets x nodes x UTXO sets x payments) on the real code against a reference model",MC,"All combinations of the stated alphabets, nodes without faults; trusts crypto/ed25519 and mc/ref."),
"C30":("exhaustive enumeration of operation histories and outcomes of the real code in processes of their own, observing what the process holds",FE,"Depth 2 (3), three repetitions, garbage collection off."),
"C31":("exhaustive enumeration of histories of key uses and failures of the real code in processes of their own, searching everything emitted",FE,"Depth 2 (3); a leak is 12 bytes in a row, plain, hex, base64 or decimal."),
"C28":(IN,MC,"All lengths up to the bound x patterns; trusts an independent Blake2b in mc/ref."),
}
out={"version":1,"setup_cmd":"bash tools/setup.sh","checks":[{"property":k,"quick_cmd":f"./check.sh {k} quick","thorough_cmd":f"./check.sh {k} thorough","evidence_file":f"evidence/{k}.json","technique":t,"level":l,"level_note":n} for k,(t,l,n) in C.items()],
"not_applicable":[],
"notes":"No hooks in /repo: instrumentation (scheduling points, map order) is applied at build time through go build -overlay from the current tree. Replay: ./check.sh replay evidence/<id>.replay.json"}
print(json.dumps(out,indent=1))
