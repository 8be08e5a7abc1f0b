#!/usr/bin/env python3
# Source of truth for properties.jsonl (run: python3 tools/genprops.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

AT="address_test.go decodes 5 valid and 2 truncated addresses; "
TT="tx_builder_test.go builds one transaction (1 input, 1 output, 1 key) against 2 golden files; "

p("C01","Every accepted address byte string re-encodes to exactly the same bytes",
 "Whenever a byte string (or its hex text) is accepted as an address, the resulting address re-encodes to exactly those bytes, so an address read from elsewhere can never be paid at a different address. Its kind, network, payment/stake credential kinds (key or script), hashes and pointer are exactly what the bytes say under CIP-19 (or the Byron address format). Valid addresses of every supported kind on both networks are accepted.",
 ["inputs"],"All byte strings offered to the byte/hex decoders: every header byte, every length around each kind's size, every single byte value at every position (and every pair of positions for the 29-byte kinds), every pointer triple over the 7-bit boundaries, and a grammar of Byron CBOR encodings.",
 AT+"they never reach script credentials, pointer addresses, foreign header bits or non-canonical encodings.",
 ["address/address.go","address/base.go","address/enterprise.go","address/reward.go","address/pointer.go","address/byron.go"],
 [("header dispatch and length checks","address.NewAddressFromBytes"),("inverse encoders","Bytes() of each address type"),("Byron CBOR codec","ByronAddress.MarshalCBOR/UnmarshalCBOR")],
 ["NewAddressFromBytes","NewAddressFromHex","Address.Bytes"])
p("C02","Constructed addresses have the CIP-19 layout, network and credentials",
 "An address built from a network, credentials and (for pointers) a chain pointer encodes to the CIP-19 bytes for exactly those parts, reports that network, marshals to CBOR as one byte string holding those bytes, and decodes back to the same parts. Dropping the stake part of a base address yields the enterprise address of its payment credential, and dropping the payment part yields the reward address of its stake credential, on the same network.",
 ["inputs"],"All combinations of address kind, network, credential kinds, payload patterns (each byte value at each position) and pointer values at all 7-bit and 8-bit boundaries of uint64.",
 AT+"no test constructs a reward, pointer or script address, marshals one to CBOR, or converts one.",
 ["address/base.go","address/enterprise.go","address/reward.go","address/pointer.go","address/stake_credential.go","network/network.go"],
 [("header byte assembly","Bytes()"),("CBOR wrapping","MarshalCBOR()"),("conversion","BaseAddress.ToEnterprise/ToReward")],
 ["Bytes","MarshalCBOR","NetworkInfo","ToEnterprise","ToReward"])
p("C03","Address text form round-trips and carries the prefix of its kind and network",
 "The text form of every address is its bytes in Bech32 (BIP-173 checksum, no length limit) under prefix addr/addr_test for payment addresses and stake/stake_test for reward addresses, chosen by the address's network id, or base58 for Byron addresses. Parsing that text gives back an address of the same kind with the same bytes, network and text, and every text that is accepted is exactly the text form of the address it yields.",
 ["inputs"],"All address kinds x networks (including test networks with another protocol magic) x credential kinds x payload patterns x pointer boundary values; plus the Bech32 encoder over data lengths 0..100 with single-byte alphabets.",
 AT+"pointer, script and mainnet base addresses are never rendered.",
 ["address/base.go","address/enterprise.go","address/reward.go","address/pointer.go","address/byron.go","address/address.go","internal/bech32/bech32.go"],
 [("Bech32 encoder/decoder","internal/bech32"),("prefix selection","Prefix()"),("text dispatch","address.NewAddress")],
 ["String","Prefix","NewAddress"])
p("C04","Malformed address input is refused with an error and never panics",
 "For every byte string, hex text and address text, decoding terminates and returns either a usable address or a non-nil error; it never panics. Input that is empty, truncated, over-long, of an unassigned kind or network id, of an overflowing or padded pointer, or with a wrong Byron checksum, tag or hash size is refused.",
 ["inputs"],"Every header byte x every length 0..64 (with and without spare capacity behind the slice), every byte string of length <=2 (quick) or <=3 (thorough), every one-byte mutation/truncation/extension of valid addresses, all texts of length <=3 over the relevant alphabet, Byron structure mutations.",
 AT+"only two truncated Bech32 strings are tried; a decoder is judged on all inputs.",
 ["address/address.go","address/byron.go","address/pointer.go","internal/bech32/bech32.go"],
 [("length and type checks","address.NewAddressFromBytes"),("CRC check","ByronAddress.UnmarshalCBOR"),("Bech32 validity checks","bech32.Decode")],
 ["NewAddress","NewAddressFromHex","NewAddressFromBytes"])
p("C05","A mistyped or mislabelled address text is never accepted",
 "Starting from any valid address text, substituting up to two characters, swapping two neighbouring characters, deleting, inserting or duplicating a character, mixing letter case, truncating or extending it, never yields a text that is accepted as an address. A text whose prefix does not match the network and kind of the address it encodes is refused as well.",
 ["inputs"],"Every single and double substitution over the text alphabet, every adjacent transposition, deletion, insertion, case flip, truncation and prefix relabelling of representative addresses of every kind and network (triple substitutions of the short kinds in thorough).",
 AT+"two truncations are tried; error detection is a statement about all nearby texts.",
 ["internal/bech32/bech32.go","address/address.go","address/byron.go"],
 [("checksum verification","bech32.verifyChecksum/polymod"),("CRC32","ByronAddress.UnmarshalCBOR"),("prefix handling","address.NewAddress")],
 ["NewAddress"])
p("C06","Pointer naturals encode and decode as exact inverses",
 "Every 64-bit natural encodes to its minimal big-endian base-128 form and decodes back to the same value, consuming exactly its own bytes whatever follows. Input that never terminates, exceeds 64 bits or carries leading zero padding is refused rather than decoded to some value.",
 ["inputs"],"All naturals below 2^22 and within 2 of every power of two and of 128 up to 2^64-1; all byte strings up to length 3; all strings up to length 11 over the digit alphabet {00,01,40,7f,80,81,c0,ff}-style classes; with trailing bytes.",
 "No test calls the codec at all; overflow needs 10-byte inputs.",
 ["address/pointer.go"],
 [("encoder/decoder","VariableNatEncode / VariableNatDecode")],["VariableNatEncode","VariableNatDecode","pointer addresses"])
p("C07","Child keys follow BIP32-Ed25519 on every derivation path",
 "For every parent extended key and every index, hard or soft, the derived child key (both key halves and chain code) is the one BIP32-Ed25519 (the V2 scheme used by Cardano wallets) defines, and the public extended key is the Edwards point of the left half together with the chain code. Hence equal paths always give equal keys and any other Cardano wallet derives the same ones.",
 ["inputs","histories"],"All derivation paths up to depth 3 (quick) / 4 (thorough) over a boundary index alphabet from several roots, plus all byte-pattern parents chosen to force every carry chain, each step compared with an independent big-integer reference model.",
 TT+"one fixed path from one seed is used; carries and the hard/soft boundary are not sampled.",
 ["bip32/bip32.go","crypto/edwards25519/edwards25519.go"],
 [("derivation","XPrv.Derive"),("carry arithmetic","add28mul8/add256bits"),("public key","MakePublicKey, XPrv.Public")],
 ["XPrv.Derive","XPrv.Public","XPrv.ChainCode"])
p("C08","Root keys are the specified function of entropy, password and seed",
 "A root key made from BIP39 entropy and a password is PBKDF2-HMAC-SHA512 over them with 4096 rounds, clamped as Icarus requires; a root key made from a 32-byte seed is the SHA-512/SHA-256 construction of BIP32-Ed25519 with its bits clamped. Seeds of any other length are refused, and the caller's entropy, password and seed are left untouched.",
 ["inputs"],"All entropy lengths 0..64 and every single-byte variation at every position of 16/32-byte entropies, password alphabet, all seed lengths 0..64, every seed byte position and value class; compared with an independent reference.",
 TT+"one entropy with an empty password is used.",
 ["bip32/bip32.go"],[("PBKDF2","FromBip39Entropy"),("clamping","NormalizeBytesForce3rd, NewXPrv")],["FromBip39Entropy","NewXPrv","NormalizeBytesForce3rd"])
p("C09","Signatures are valid Ed25519 for the key's public key and message",
 "Every signature made by a root or derived key over any message is a canonical Ed25519 signature that a standard verifier accepts under that key's public key, is deterministic, and equals the BIP32-Ed25519 reference signature. It is not accepted for a different message or under a different key.",
 ["inputs","histories"],"All keys reached by bounded derivation trees and byte-pattern keys x all message lengths 0..300 and byte patterns; every signature checked with the standard library verifier and an independent reference, plus cross-verification against neighbouring messages and keys.",
 TT+"one signature over one hash is compared with a golden file.",
 ["bip32/bip32.go","crypto/edwards25519/edwards25519.go"],[("signing","XPrv.Sign"),("scalar arithmetic","edwards25519.ScMulAdd/ScReduce")],["XPrv.Sign","XPub.PublicKey"])
p("C10","Curve, field and scalar arithmetic agree with the mathematics of Ed25519",
 "Field operations compute in GF(2^255-19), scalar reduction and multiply-add compute modulo the group order, point encoding and decoding are inverse (invalid encodings are refused), and fixed-base and double-scalar multiplication compute the true group elements, for every input within their documented ranges.",
 ["inputs"],"Every entry of the precomputed base-point table (all 32 x 8 entries, both signs), every single-bit and boundary scalar, all pairs over a boundary alphabet of field elements, all bytes-level boundary encodings; compared with big-integer arithmetic.",
 TT+"the few scalars of one signature touch a fraction of the table and no reduction corner case.",
 ["crypto/edwards25519/edwards25519.go","crypto/edwards25519/const.go"],[("ref10 port","crypto/edwards25519")],["GeScalarMultBase","ScMulAdd","ScReduce","FeMul","FeInvert","ExtendedGroupElement.FromBytes/ToBytes","GeDoubleScalarMultVartime"])
p("C11","Decoding, deriving and signing neither alter nor alias the caller's data",
 "Decoding an address leaves the input bytes untouched and the address keeps its value when that buffer is later overwritten; the bytes an address or key operation returns can be overwritten without affecting the address or key. Deriving, signing and taking public keys, in any order and number, leave every existing key unchanged and give results that do not depend on what was done before.",
 ["histories"],"All sequences up to length 4 (quick) / 5 (thorough) of decode, render, derive, sign, public and overwrite-a-buffer operations over a small object pool, each state compared with a value-semantics reference.",
 "No test reuses a buffer or performs two operations on one key and compares.",
 ["address/address.go","address/pointer.go","bip32/bip32.go"],[("copying","readAddrCred, Derive, Public, Bytes")],["Bytes","String","Derive","Sign","Public"])
p("C12","A serialized transaction carries exactly what was added, in ledger CBOR form",
 "The bytes of a transaction are the definite-length CBOR array [body, witness set, validity, auxiliary data] whose body map holds exactly the inputs (32-byte id, index) and outputs (address bytes, amount) that were added, in order and without loss, the fee, the time to live when set and the auxiliary data hash when there is metadata, all in shortest form with ascending keys. The hex form is the hex of those bytes and serialization is the same from a builder or a hand-made transaction. An input whose transaction id was not given as 64 hex digits is never serialized as some other id: it is an error.",
 ["inputs","histories"],"All operation sequences up to a depth over inputs/outputs/fee/ttl/metadata with boundary values (every CBOR integer width boundary, list sizes 0..30 and 255..257, all address kinds), decoded by an independent strict CBOR parser and compared with a reference model.",
 TT+"it never has two inputs, an index above 0, amounts wider than 32 bits or another address kind.",
 ["tx/tx.go","tx/tx_body.go","tx/tx_input_output.go","tx/tx_witness_set.go"],[("CBOR struct tags","TxBody, Tx, TxOutput"),("MarshalCBOR","TxInput, Address implementations")],["Tx.Bytes","Tx.Hex","TxBody.Bytes","TxBody.Hex"])
p("C13","The transaction id is Blake2b-256 of the body embedded in the transaction",
 "At every point of a transaction's life its hash equals Blake2b-256 of exactly the body bytes contained in its serialization, and repeated hashing or serializing without changes gives the same answer. Any change to inputs, outputs, amounts, fee, time to live or metadata changes the id; changes to witnesses do not.",
 ["histories","inputs"],"All operation sequences up to a bounded depth over the transaction/builder operations, with hash and serialization interleaved at every position; pairwise distinctness over all reached states.",
 TT+"the hash is never compared with the serialization it is supposed to identify.",
 ["tx/tx.go","tx/tx_builder.go"],[("hash","Tx.Hash"),("serialization","Tx.Bytes")],["Tx.Hash","Tx.Bytes"])
p("C14","Auxiliary data hash matches the embedded metadata in every history",
 "A serialized, hashed or built transaction contains an auxiliary data hash exactly when it contains metadata, and that hash is Blake2b-256 of exactly the metadata bytes in the same serialization. This holds for every metadata shape including unordered maps, whatever order maps are iterated in, and after metadata is replaced or removed; metadata that cannot be encoded is reported as an error.",
 ["histories","inputs"],"All metadata shapes up to a depth/width bound, all sequences of set/replace/clear metadata with serialize/hash/build up to a bound, and all iteration orders the runtime can choose for small maps at every map iteration (runtime nondeterminism owned by the harness).",
 "No test attaches metadata; Go's random map order makes any single run inconclusive.",
 ["tx/tx.go","tx/tx_builder.go"],[("hash computation","Tx.CalculateAuxiliaryDataHash"),("metadata encoding","cbor encoding mode in tx")],["Tx.Bytes","Tx.Hash","TxBuilder.Build"])
p("C15","Each witness of a built transaction verifies over that transaction's id",
 "A built transaction carries exactly one witness per signing key given to the builder, in the order given, each consisting of that key's public key and a signature that verifies over the id of the transaction as serialized; there are no other witnesses. This holds after every history of adding inputs, outputs, keys, change, time to live, fee queries and earlier builds.",
 ["histories"],"All sequences of 12 builder operations up to depth 5 (quick) / 6 (thorough), with 0 and 2 keys given to the constructor; all splits of key counts to 12 (20), counts around the CBOR widths, repeated and related keys, witnesses put there by hand.",
 TT+"one key, one build.",
 ["tx/tx_builder.go","tx/tx_witness_set.go","bip32/bip32.go"],[("signing loop","TxBuilder.Build")],["TxBuilder.Build","Tx.Witness","Tx.Bytes"])
p("C16","Change balances the transaction exactly and never invents value",
 "When the inputs exceed outputs plus fee, adding change appends exactly one output, paying the given address exactly inputs - outputs - fee, so that inputs = outputs + fee; otherwise it appends nothing. What is left but too little for a change output goes to the fee when it pays the minimum fee of the transaction without one, so that inputs = outputs + fee then too; hence adding change again changes nothing. No earlier output or input is altered, and no output amount can exceed the value of the inputs.",
 ["inputs","histories"],"All builder histories up to a bounded depth with amounts around every boundary that matters (equal, one below/above, fee-sized gaps, CBOR width boundaries, maximum supply), all change address kinds, several protocol parameter sets.",
 TT+"only one comfortably funded transaction is tried; underflow needs an under-funded one.",
 ["tx/tx_builder.go"],[("change computation","TxBuilder.AddChangeIfNeeded"),("totals","getTotalInputOutputs")],["TxBuilder.AddChangeIfNeeded","Tx().Body"])
p("C17","The fee set with change covers the final signed transaction",
 "After adding change to a transaction with sufficient inputs, the fee it carries is at least the ledger's linear minimum fee for the final serialized, fully signed transaction, for every number of inputs, outputs and signing keys known to the builder, every change address kind, metadata and protocol parameters. When change was added it exceeds that minimum by no more than a small encoding slack; without change it never exceeds what is charged with change.",
 ["inputs","histories"],"All combinations of input/output/key counts, change address kinds, metadata, time to live, change sizes at every CBOR width boundary and fee parameters placing the fee at every CBOR width boundary; the final transaction is really built and measured.",
 TT+"one size and one parameter set; one signer.",
 ["tx/tx_builder.go","tx/tx.go","fees/linear.go"],[("fee estimation","TxBuilder.MinFee"),("linear fee","Tx.Fee, fees.LinearFee")],["TxBuilder.AddChangeIfNeeded","TxBuilder.MinFee","Tx.Bytes"])
p("C18","The linear fee is fixed fee plus per-byte fee times the serialized size",
 "For every transaction and every pair of fee parameters, the fee reported for the transaction is exactly the fixed fee plus the per-byte fee times the number of bytes of its serialization. Parameters are never swapped, defaulted or rounded.",
 ["inputs"],"All reached transactions x a boundary grid of fee parameters (asymmetric pairs, zeros, powers of two).",
 "The tests only see the fee through one golden transaction.",
 ["tx/tx.go","fees/linear.go"],[("formula","Tx.Fee"),("constructor","fees.NewLinearFee")],["Tx.Fee","fees.NewLinearFee"])
p("C19","Fee queries, hashing and serialization never change the transaction",
 "Asking a builder for the minimum fee, or a transaction for its fee, hash, bytes or hex, any number of times and in any order, changes neither what the transaction serializes to nor the answers to later queries. In particular no placeholder witness, output or fee used for estimation ever shows up in the transaction.",
 ["histories"],"All operation sequences up to depth 4 (quick) / 5 (thorough) interleaving queries at every position; the serialization with queries must equal the one without.",
 TT+"no query is made twice or followed by an inspection of the transaction.",
 ["tx/tx_builder.go","tx/tx.go"],[("estimation on a copy","TxBuilder.MinFee"),("idempotent hash update","CalculateAuxiliaryDataHash")],["TxBuilder.MinFee","TxBuilder.Tx","Tx.Bytes"])
p("C20","Builders and the transactions they return are isolated from each other",
 "What one builder does never affects another builder, even when both were created from the same key list, nor the caller's own lists. A transaction returned by a build stays exactly as built - same bytes, same id, same valid witnesses - whatever is done to the builder afterwards, and building again reflects the builder's current contents.",
 ["histories"],"All interleavings of operation sequences on two builders created from one shared key slice (with spare capacity), and all continuations after a build, up to a bounded depth.",
 "Tests use one builder once.",
 ["tx/tx_builder.go","tx/tx.go"],[("key list","NewTxBuilder, TxBuilder.Sign"),("returned transaction","TxBuilder.Build")],["TxBuilder.Build","Tx.Bytes"],
 [dict(name="xprvs",meaning="signing keys of a builder",where="tx/tx_builder.go")])
p("C21","cardano-cli always runs for the selected network with well-formed arguments",
 "Every cardano-cli invocation runs the configured program (cardano-cli by default) with the subcommand for the operation, each option and its value as separate arguments, and exactly one network selector: --mainnet for mainnet, --testnet-magic with the network's protocol magic otherwise. No operation ever runs against the other network.",
 ["inputs","configurations"],"All operations x networks (mainnet, testnet, custom magics) x program-path configurations x addresses/transactions, observed by a recording stand-in for cardano-cli.",
 "No test exercises the node package.",
 ["node/cardano-cli.go"],[("argument assembly","cardanoCli.execCommand"),("path default","NewCardanoCliNode")],["process arguments of the spawned CLI"])
p("C22","cardano-cli UTXO listing is returned completely and exactly, or an error is",
 "For every table cardano-cli prints, the UTXO query returns one input per row, in order, with that row's transaction id, index and lovelace amount; an empty table gives an empty list. If the program fails or a row is malformed, an error is returned; the query never panics and never silently drops or invents an entry. The tip query likewise returns exactly the slot, epoch and block the program prints, or an error. An answer never depends on what was asked before or is being asked at the same time.",
 ["inputs","fault_sequences","histories"],"All tables up to 4 rows over a row alphabet (boundary indices and amounts, multi-asset and datum suffixes, with/without final newline, blank lines), tables of up to 20000 rows and lines of up to 1 MiB, every truncation point of the output, every malformed column, exit codes; all sequences of operations up to depth 3 on one node and 2 on two; all orders in which two operations in flight start and finish.",
 "No test exercises the node package.",
 ["node/cardano-cli.go"],[("table parser","cardanoCli.UTXOs")],["Node.UTXOs"])
p("C23","cardano-cli submission hands over the exact transaction and cleans up",
 "Submitting through cardano-cli passes a file whose cborHex is the hex of exactly the transaction's bytes, complete at the time the program starts. The temporary file is gone afterwards whether submission succeeds or fails, failure of the program is reported as an error, and on success its output is returned. Other files are left alone, and submissions made at the same time or earlier do not interfere.",
 ["inputs","fault_sequences"],"All transactions from a shape alphabet x program outcomes (success, failure, missing program) x outputs; temp directory inspected after each; all sequences of operations up to depth 3 and all orders in which two operations in flight start and finish.",
 "No test exercises the node package.",
 ["node/cardano-cli.go"],[("temp file","cardanoCli.SubmitTx")],["Node.SubmitTx","files in TMPDIR"])
p("C24","Blockfrost queries hit the selected network and return every UTXO exactly",
 "Every Blockfrost request goes to the server of the selected network with the configured project id. A UTXO query returns all unspent outputs of the address, across all result pages and in order, each with its transaction id, index and lovelace amount; the tip query returns the server's slot, epoch and height. Error responses, malformed quantities and undecodable bodies are reported as errors. An answer never depends on what was asked before or is being asked at the same time.",
 ["inputs","fault_sequences","configurations"],"All page structures (0..3 pages, sizes around the page limit), row alphabets, networks, project ids, and per-request server faults (error statuses, truncated bodies, malformed fields), all sequences of operations up to depth 3 and all orders in which two operations in flight start and finish, against a loopback stand-in server.",
 "No test exercises the node package.",
 ["node/blockfrost.go"],[("request construction and mapping","blockfrostNode.UTXOs/QueryTip"),("server choice","NewBlockfrostClient")],["Node.UTXOs","Node.QueryTip","HTTP requests"])
p("C25","Blockfrost submission posts the exact transaction and reports the outcome",
 "Submitting through Blockfrost sends one POST of exactly the transaction's bytes, typed as CBOR and carrying the project id, to the submit endpoint of the selected network. It returns the transaction id the server reports when the server answers 200, and a non-nil error for every other status (redirections included, which are not followed) or transport failure. Submissions made at the same time or earlier do not interfere.",
 ["inputs","fault_sequences","configurations"],"All transactions from a shape alphabet x networks x every HTTP status 201..599 and transport fault; all sequences of operations up to depth 3 and all orders in which two operations in flight start and finish.",
 "No test exercises the node package.",
 ["node/blockfrost.go"],[("submission","blockfrostNode.SubmitTx"),("server choice","getNetwork")],["Node.SubmitTx","HTTP requests"])
p("C26","Protocol parameters are read faithfully from file, cardano-cli and Blockfrost",
 "Fee per byte, fixed fee, maximum transaction size, protocol version and minimum UTXO value are returned exactly as stated by the source - a cardano-cli parameters file, cardano-cli itself or the Blockfrost API - and never mixed up. A missing, unreadable or malformed source yields an error, whatever was read before.",
 ["inputs","fault_sequences"],"Each field over boundary values with pairwise distinct others, unknown extra fields and null optionals, every truncation point of the document, type errors per field, missing file; all sequences of operations up to depth 3.",
 "One protocol.json is loaded and only two of its fields matter to the golden transaction.",
 ["protocol/protocol.go","node/cardano-cli.go","node/blockfrost.go"],[("JSON mapping","protocol.LoadProtocol, struct tags"),("field mapping","blockfrostNode.ProtocolParameters")],["LoadProtocol","Node.ProtocolParameters","Node.QueryTip"])
p("C27","Concurrent use of independent values gives the sequential results",
 "Decoding and rendering addresses, deriving keys, signing, hashing and building transactions from different goroutines on independent objects gives, under every schedule, the same results as running them one after another, without data races.",
 ["schedules"],"All statement-level interleavings of two threads with at most 1 preemption (2 for short operations / thorough) over all pairs of library operations, on source instrumented automatically from the current tree.",
 "Tests are single-threaded; shared scratch state is only visible under particular interleavings.",
 ["address/address.go","internal/bech32/bech32.go","bip32/bip32.go","tx/tx.go","tx/tx_builder.go","crypto/crypto.go"],[("absence of shared mutable state","all packages")],["results of concurrent calls"])
p("C28","Digests are correct and fixed-size hash conversions accept exactly their size",
 "The 224- and 256-bit Blake2b digests (and hence key hashes used in addresses) are the standard ones for every input. Each conversion from bytes to a fixed-size hash or key type succeeds exactly when the input has that type's length, returning those bytes unchanged and independent of the input buffer, and otherwise reports an error.",
 ["inputs"],"All input lengths 0..300 for digests (all lengths 0..128 for conversions), byte-pattern inputs, each conversion function; compared with an independent Blake2b implementation.",
 "No test calls them directly.",
 ["crypto/crypto.go","bip32/bip32.go"],[("digests","Blake2b224/Blake2b256, PublicKey.Hash"),("conversions","*FromBytes")],["Blake2b224","Blake2b256","PublicKey.Hash","*FromBytes"])
p("C29","A wallet's payment is valid end to end, from its mnemonic to the submission",
 "For every wallet (entropy, password, CIP-1852 account, role and index), network and node: the address made from a derived key names the hash of the very public key that signs for it, also when the key is derived again or the address is read back from its text. Taking the UTXOs, parameters and tip the node reports for that address, paying any address, adding change back to the wallet, signing, building and submitting hands over one transaction that spends exactly the reported UTXOs, pays exactly the amount, returns the rest less a sufficient fee to the wallet and carries one witness by that key over its id; the change can be spent the same way.",
 ["inputs","histories","configurations"],"The product of entropies, passwords, boundary accounts, roles, indexes and address kinds; the product of node kind, network, UTXO sets, amounts, change targets, metadata, time to live and fee parameters, one or two payments in a row.",
 "No test goes from entropy to a submission; each golden value covers one stage with one input.",
 ["bip32/bip32.go","address/base.go","address/enterprise.go","address/pointer.go","tx/tx_builder.go","tx/tx.go","node/cardano-cli.go","node/blockfrost.go"],
 [("key to credential","XPub.PublicKey, PublicKey.Hash"),("witness","TxBuilder.Build"),("node round trip","Node.UTXOs, ProtocolParameters, SubmitTx")],
 ["address text","UTXO request","submitted bytes"])
p("C30","Node operations leave nothing behind",
 "When a node operation (query or submission through cardano-cli or Blockfrost) or the loading of a parameters file has returned, successfully or not, every child process it started has been waited for, every file and connection it opened is closed without waiting for the garbage collector, the temporary directory holds no file of it and no goroutine of it stays behind. Hence any number of operations, failing or not, can be made by one process.",
 ["histories","fault_sequences"],"All histories of operations x outcomes (success, failing, killed, missing or babbling program; refusing, redirecting, babbling, hanging-up server) to depth 2 (3), repeated three times in a process of its own with garbage collection off.",
 "No test exercises the node package, and a leak needs repetition on a failure path to be felt.",
 ["node/cardano-cli.go","node/blockfrost.go","protocol/protocol.go"],[("child processes","cardanoCli.execCommand"),("temporary file","cardanoCli.SubmitTx"),("response body","blockfrostNode.SubmitTx")],["open descriptors","child processes","goroutines","temporary directory"])
p("C31","Secrets stay inside: only public keys and signatures ever leave",
 "Entropy, passwords, seeds, private keys and chain codes are given only to the caller who asks for a key. No piece of them is ever printed or logged, put into an error, an address, a signature, a transaction or another file, passed to cardano-cli or sent to Blockfrost, by any operation, successful or failing. The Blockfrost project id is sent only in requests to the selected Blockfrost server and shows up nowhere else.",
 ["histories","fault_sequences"],"All histories of uses of keys (deriving, signing, building, submitting, querying) and failures to depth 2 (3) in a process of its own whose output, files, arguments, requests and results are searched for any 12 bytes in a row of any secret, in several encodings.",
 "Tests look at the values they expect, not at everything that is emitted.",
 ["bip32/bip32.go","tx/tx_builder.go","tx/tx.go","node/cardano-cli.go","node/blockfrost.go"],[("witnesses","TxBuilder.Build"),("signatures","XPrv.Sign"),("submissions","SubmitTx"),("error texts","NewXPrv, Build, NewAddress")],["standard output and error","submitted file","HTTP requests","errors","transaction bytes"])
for x in P: print(json.dumps(x))
