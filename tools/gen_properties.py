#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)
G="circuits/gadgets/"
p("C01","A storage/account inclusion proof is accepted only for the trie's real value",
 "For any Merkle-Patricia trie over fixed-length hashed keys, the in-circuit inclusion check accepts the genuine proof of a stored key and value, whatever mix of branch, extension and leaf nodes the path has and wherever each node starts in the key. It rejects when the root, the key, the value or any proof node is altered, when nodes are missing, reordered or taken from another key's path, and whatever key-fragment offsets, node types and length witnesses the prover supplies.",
 ["inputs","programs"],"all tries up to a bounded number of keys and shape (branch/extension/leaf sequences of bounded depth), all single-fault corruptions of a proof, all prover-chosen offset and type witnesses within the enumerated alphabet",
 "The suite replays a handful of recorded mainnet proofs; it never mixes shapes systematically nor plays a prover who chooses the witness.",
 [G+"mpt/mpt.go",G+"mpt/mpt_util.go",G+"mpt/eth_proof.go"],
 [("CheckMPTInclusionFixedKeyLength",G+"mpt/mpt.go"),("CheckLeaf/CheckBranch/CheckExtension",G+"mpt/mpt_util.go"),("CheckEthStorageProof",G+"mpt/eth_proof.go")],
 [("keyFragmentStarts","prover-supplied position in the key where each node begins",G+"mpt/mpt.go"),("nodeTypes","prover-supplied branch/extension tag per level",G+"mpt/mpt.go")])
p("C02","A storage exclusion proof is accepted only for a slot absent from the trie",
 "With the exclusion mode on, the storage check accepts the genuine proof that a slot is absent (the path ends in an empty branch slot, a diverging leaf or a diverging extension) together with value zero. It never accepts an exclusion for a slot the trie does contain, nor a non-zero value for an absent slot, whatever witness the prover supplies.",
 ["inputs","programs"],"all bounded tries and absent/present keys, all three ways a path can end, all prover-chosen offsets, types and truncations of the proof",
 "Tests hold a few recorded absent slots and no dishonest prover at all.",
 [G+"mpt/mpt.go",G+"mpt/mpt_util.go",G+"mpt/eth_proof.go"],
 [("CheckMPTInclusionFixedKeyLength with the exclusion mode",G+"mpt/mpt.go"),("CheckBranchForNonExistence/checkExtensionNodeNonExistence",G+"mpt/mpt_util.go")])
p("C03","An account proof yields exactly the account's storage root under the state root",
 "The account check accepts a genuine account proof exactly when the claimed storage root, nonce, balance and code hash are those in the state trie under the hash of the address, and the composed header, account and storage checks accept exactly when the block hash commits to that state root. Any altered field, root, address or proof node is rejected.",
 ["inputs","programs"],"account bodies over all RLP length classes of nonce and balance, state tries of bounded shape, all single-field corruptions",
 "Tests use recorded accounts with one combination of field lengths each.",
 [G+"mpt/eth_proof.go",G+"rlp/rlp.go"],[("CheckEthAccountProof",G+"mpt/eth_proof.go"),("RlpArrayCheck on the account body",G+"rlp/rlp.go")])
p("C04","Transaction and receipt inclusion proofs bind the leaf to its index and root",
 "For a trie keyed by RLP-encoded index, the in-circuit inclusion check accepts the genuine proof of every transaction or receipt for every trie shape, including single-entry tries and multi-nibble extensions. It accepts only when the node that hashes to the given leaf hash is reached from the root by following the key's nibbles from the first one, so a proof whose root, leaf hash or inner node was altered, or whose path is another key's, is rejected whatever fragment offsets and node types the prover supplies. (What remains of the key inside the leaf is for the caller, who decodes the leaf.)",
 ["inputs","programs"],"transaction counts and index classes that give every bounded trie shape, all single-fault corruptions, all prover-chosen offsets and types",
 "Tests replay recorded blocks whose proofs have one or two shapes.",
 [G+"mpt/mpt.go",G+"mpt/mpt_util.go"],[("CheckMPTInclusionNoBranchTermination",G+"mpt/mpt.go")])
p("C05","A block header proof exposes exactly the fields the block hash commits to",
 "For a header of every fork layout and every combination of field lengths, the in-circuit header check accepts exactly when the given hash is the header's Keccak hash and yields the state root, transaction root, receipt root, number and time of that header. It rejects any other hash, any altered header byte, and a byte string that is not a well-formed header.",
 ["inputs","configurations"],"fork layouts with 15 to 20 fields, all length classes of the variable-length fields, every total length modulo the hash block, all single-byte edits at structural positions",
 "The recorded headers cover a few lengths; padding and length classes are never enumerated.",
 [G+"mpt/eth_proof.go",G+"rlp/rlp.go",G+"keccak/keccak256.go"],[("CheckEthBlockHash",G+"mpt/eth_proof.go"),("BlkHeaderRlpCheck",G+"rlp/rlp.go")])
p("C06","Each trie-node check accepts exactly the encodings of that node kind",
 "The leaf, extension and branch checks each accept a node exactly when its bytes encode that kind with the claimed key fragment (odd or even parity), child reference or value at the claimed position, for every fragment length and child index. Any altered prefix, nibble, reference, value or length is rejected or reported as a mismatch.",
 ["inputs"],"all fragment lengths and parities, all child indices and occupancy patterns up to a bound, both value sizes, all single-nibble edits",
 "Unit tests hold a few recorded nodes.",
 [G+"mpt/mpt_util.go",G+"rlp/rlp.go"],[("CheckLeaf",G+"mpt/mpt_util.go"),("CheckExtension",G+"mpt/mpt_util.go"),("CheckBranch",G+"mpt/mpt_util.go")])
p("C07","RLP list decoding agrees with the RLP standard on every list shape",
 "The in-circuit RLP list decoders report success for every encoding of a list of the configured number of fields within the configured size limits, and only for byte strings that start with such a list, and then return each field's bytes and length and the list's total length as the RLP standard defines them (the nested decoder keeps the header of a field that is itself a list). This holds for empty fields, single bytes (also zero), short and long strings, nested lists (also empty ones), and short and long outer lists. Every inconsistent length prefix, and a list longer than the data, is reported as invalid, and padding after the last field is never read as a field.",
 ["inputs","configurations"],"all field-kind sequences up to a bounded number of fields, all boundary lengths, all edits of each length prefix",
 "Tests decode two recorded lists.",
 [G+"rlp/rlp.go"],[("RlpArrayCheck / RlpNestArrayCheck",G+"rlp/rlp.go"),("RlpArrayPrefix / RlpFieldPrefix",G+"rlp/rlp.go")])
p("C08","Array shifts move by exactly the requested number of positions",
 "The in-circuit left and right shifts return the input moved by exactly the requested number of positions (left wraps round, right fills with zeros) for every length and every shift in the configured range, and the list-prefix strip removes exactly the list header. A shift below the range, or beyond what its bits can hold, is rejected rather than truncated.",
 ["inputs","configurations"],"all array lengths up to a bound, all shift bounds, every shift value of a whole small field",
 "Tests shift one array by a few amounts.",
 [G+"rlp/rlp.go"],[("ShiftLeft/ShiftRight",G+"rlp/rlp.go"),("LeftShiftRlpArrayPrefix",G+"rlp/rlp.go")])
p("C09","Selection, comparison and sub-range gadgets match array semantics exactly",
 "A selector gadget returns exactly the selected row for an in-range selector and is unsatisfiable otherwise; comparisons and prefix-equality are exact over the whole field; the sub-range gadget returns exactly the requested elements and rejects every invalid range.",
 ["inputs","configurations"],"all selectors, operands and ranges of a whole small field, all small arrays and shapes",
 "The suite tries one selector and one array.",
 [G+"mux/multiplexer.go",G+"rlp/util.go"],[("Multiplex",G+"mux/multiplexer.go"),("Multiplexer, LessThan, ArrayEqual, SubArray",G+"rlp/util.go")])
p("C10","A transaction index maps to its RLP key for every index, and only in range",
 "For every transaction or receipt index from 0 to 65535 the in-circuit computation yields exactly the nibbles of the index's RLP encoding as used for trie keys, followed by zeros, and no other string is accepted for it. An index outside the supported range is rejected.",
 ["inputs"],"all 65536 indices and field elements around and beyond the range",
 "The test covers an initial range of indices and no out-of-range values.",
 [G+"index-proof/core/circuit_index_mpt.go"],[("CalTxOrReceiptIndexRlp",G+"index-proof/core/circuit_index_mpt.go")])
p("C11","A transaction or receipt leaf decodes to exactly its payload",
 "For dynamic-fee transaction leaves of every length class, the in-circuit leaf decoder accepts the genuine leaf and yields exactly the transaction's fields, their lengths and the signed payload as the RLP standard gives them. A leaf whose prefixes are altered, or that does not hold a list of twelve fields, is rejected or yields exactly the fields its own bytes encode.",
 ["inputs"],"all transaction types, all boundary lengths of key and payload, all prefix edits",
 "No stable test decodes a transaction leaf.",
 [G+"rlp/rlp.go"],[("DecodeTxLeafRlp",G+"rlp/rlp.go")])
p("C12","Hex digits convert to the number or word they denote, for every length",
 "Converting the first digits of a hex-digit array, as many as the actual length says, to a field number, or whole bytes of up to 64 digits to a low word of 248 bits and a high word of the rest, yields exactly the big-endian value those digits denote for every digit content and every length up to the maximum. A length beyond the maximum is refused or reads just the maximum number of digits.",
 ["inputs","configurations"],"all lengths, all digit values per position, small arrays completely",
 "Tests convert one or two values.",
 [G+"rlp/rlp.go"],[("HexToDecimal",G+"rlp/rlp.go"),("Hex64To2Fr",G+"rlp/rlp.go")])
p("C13","Host-side Keccak padding is the standard padding and leaves its input untouched",
 "For every message length the host padding functions (bytes, bits, nibbles and blocks of 64-bit words) produce exactly the Keccak pad10*1 padding and block layout the circuits hash, so that hashing the blocks gives the standard Keccak-256 of the message. They never modify the caller's data, whatever its capacity, and agree with one another.",
 ["inputs","histories"],"every message length over several blocks, every slice capacity, all functions of both packages",
 "Tests pad a few fixed messages and never look at the caller's buffer.",
 ["common/circuits/keccak.go",G+"keccak/periphery.go"],[("Pad101Bytes, Pad101Bits, NibblesToU64Array, PadBits101","common/circuits/keccak.go, "+G+"keccak/periphery.go")])
p("C14","In-circuit Keccak padding and nibble packing equal the host's for every length",
 "The in-circuit padding of a variable-length message yields exactly the padded blocks the host computes for every actual length up to the maximum, whatever follows the message in the buffer, and packing nibbles into hash lanes preserves every nibble in order. Lengths that do not fit are rejected.",
 ["inputs","configurations"],"every buffer size and every actual length up to several blocks, all trailing contents in a small alphabet",
 "Tests pad two or three lengths.",
 [G+"keccak/pad.go",G+"keccak/periphery.go"],[("Pad101Bits",G+"keccak/pad.go")])
p("C15","Every in-circuit Keccak-256 variant computes Keccak-256",
 "For every message length and every block count each in-circuit Keccak-256 variant (word, bit and optimized) yields exactly the standard Keccak-256 digest of the message selected by the round index, and the permutation yields exactly Keccak-f[1600]. A round index outside the supplied blocks is rejected.",
 ["inputs","configurations"],"all message lengths up to the supported blocks, all round indices, all variants, message bit patterns up to a bound",
 "Tests hash a few messages.",
 [G+"keccak/keccak256.go",G+"keccak/keccak256_bits.go",G+"keccak/keccak256_bits_optimized.go",G+"keccak/keccakf/keccakf.go",G+"rlp/util.go"],
 [("Keccak256*",G+"keccak/"),("Permute",G+"keccak/keccakf/keccakf.go")])
p("C16","Streaming SHA-256/SHA-512 gadgets equal SHA-2 for every history of writes",
 "After any sequence of writes, intermediate sums and resets, the in-circuit SHA-256 and SHA-512 digests equal the standard digest of the bytes written since the last reset, and taking an intermediate sum does not disturb later results.",
 ["histories","inputs"],"all operation sequences up to a bounded depth with chunk sizes around the block and padding boundaries, all message lengths up to several blocks",
 "No stable test runs these gadgets.",
 [G+"sha256/sha256.go",G+"sha512/sha512.go"],[("Write/Sum/Reset",G+"sha256/sha256.go, "+G+"sha512/sha512.go")],
 [("digest","pending bytes, chaining value, length",G+"sha256/sha256.go")])
p("C17","Limb splitting, merging and rotation are exact and uniquely determined",
 "Splitting a word yields exactly the big-endian limbs of the requested sizes, merging inverts it, re-splitting and left rotation equal the corresponding bit-string operations, for all sizes. No prover-chosen hint answer makes a split satisfiable with any other limbs, and a word that does not fit its declared size is rejected.",
 ["inputs","programs"],"all words, widths, limb sizes and rotation amounts up to a bound, all hint answers over a whole small field",
 "The test uses honest hints and one value per operation.",
 [G+"limbs/limbapi.go"],[("Split/Merge/Resplit/Lrot",G+"limbs/limbapi.go")])
p("C18","Packing into and out of non-native field elements is exact",
 "Converting native variables to a non-native field element and back preserves the integer value for every supported element, and packing a list of variables groups them in order without loss. Values that do not fit are rejected and never change silently.",
 ["inputs"],"boundary values of each limb and of both moduli, all group counts up to a bound",
 "Tests convert one element.",
 [G+"emulated/element.go"],[("FromElement/ToElement/ToElements",G+"emulated/element.go")])
p("C19","The non-native MiMC gadgets equal native MiMC for every history of writes",
 "After any sequence of writes, sums and resets the emulated MiMC hash over each supported curve equals that curve's native MiMC hash of the elements written since the last reset, in reduced form (every word within its width).",
 ["histories","inputs"],"all operation sequences up to a bounded depth, element values at field boundaries, all supported curves",
 "Tests hash fixed inputs once.",
 [G+"emulated/mimc/mimc.go",G+"emulated/mimc/encrypt.go"],[("Write/Sum/Reset",G+"emulated/mimc/mimc.go")])
p("C20","Merkle-root gadgets compute the root of exactly the given leaves in order",
 "For every supported leaf count the in-circuit Merkle roots (Keccak, MiMC, emulated MiMC) equal the reference root of the given leaves in the given order, path-based roots equal the root the path leads to at that index, and an unsupported leaf count is refused.",
 ["inputs","configurations"],"all leaf counts up to a bound, all indices, all single-leaf changes and swaps",
 "Tests use one leaf count each.",
 [G+"merkle/keccak_root.go",G+"merkle/mimc_root.go",G+"merkle/emulated_mimc_root.go"],[("KeccakMerkleRoot, MimcRoot, MerkleRootWithLeaveHash","%smerkle/"%G)])
p("C21","A sparse-Merkle inclusion check accepts exactly the genuine path",
 "The sparse-Merkle inclusion check accepts exactly when hashing the leaf upward through the siblings in the directions given by the key's bits gives the claimed root. A changed leaf, sibling, direction, key or root is rejected.",
 ["inputs"],"trees of bounded depth: all keys, all single-fault corruptions",
 "Tests use one path.",
 [G+"smt/smt.go","circuits/fabric/smt/utils.go"],[("CheckSMTInclusion",G+"smt/smt.go")])
p("C22","Bit, nibble, byte and word packing agree between host and circuit",
 "Each packing or unpacking helper (bits, nibbles, bytes, 128-bit and 248-bit words) is exact and order-preserving, so that host-side decomposition followed by the in-circuit recomposition, or the reverse, gives back the same data for every content and length.",
 ["inputs","configurations"],"all lengths up to several groups, all contents for small widths, single-bit patterns for large widths",
 "Tests cover two helper calls.",
 [G+"conv/bits.go",G+"utils/slice.go","common/utils/binary.go","common/utils/compose.go","common/utils/utils.go","common/utils/hex.go"],[("Bits2Bytes, Decompose/Recompose, FlipByGroups","common/utils/, "+G+"conv/")])
p("C23","Host-built transaction and receipt proofs verify for every index and only those",
 "For every block size and every index inside the block, the host-built transaction or receipt proof leads from the block's root to that entry's canonical encoding under that index's key. A request for an index outside the block is an error, never a proof.",
 ["inputs"],"all block sizes up to a bound including 0, 1, 16-, 127- to 129- and 256-entry boundaries, all indices and out-of-range ones, all transaction types",
 "No stable test builds such a proof.",
 ["common/proof/tx_merkel_proof.go"],[("GetTransactionProof/GetReceiptProof","common/proof/tx_merkel_proof.go")])
p("C24","Recovered transaction signers are the true signers or an error",
 "For every supported transaction type and chain id, recovering the signer from a transaction gives exactly the address that signed it; for an altered or unsupported transaction it gives an error or a different address, never the original signer.",
 ["inputs","configurations"],"all transaction types, chain ids around encoding boundaries, both recovery parities, all single-field alterations",
 "The stable tests do not recover signers.",
 ["common/proof/util.go"],[("RecoverTransactionSignerAddress","common/proof/util.go")])
p("C25","Query identifiers commit to every packed field of the query",
 "For well-formed fields the identifier of a receipt, storage or transaction query is the Poseidon hash of the packing of the fields it covers, in order: block number, base fee and block time; receipt: key and per log field the contract address, log index, first six topic bytes, topic flag, value index and value; storage: account, slot and slot value; transaction: key and leaf hash. Equal queries have equal identifiers; within one kind of query, changing any of these, or their order or number, changes the identifier. A value that does not fit its width, a negative number, or more fields than the hash takes is refused, never truncated.",
 ["inputs"],"all field positions, boundary values per field, all numbers of log fields up to and beyond what the hash takes, all pairs of queries explored compared for collisions",
 "No test computes these identifiers.",
 ["common/proof/query_id.go","common/utils/compose.go"],[("MiMCHashReceiptCustomInputs, MiMCHashStorageCustomInputs, MiMCHashTxCustomInputs","common/proof/query_id.go")])
p("C26","Proof payloads survive ABI encoding for the contracts exactly",
 "A chunk proof's ABI encoding is exactly the eighteen words the contract decodes (eight proof words, two zero commitment words, the high and low halves of chunk root, previous and end hash, first and last block number) for every field value; values that are not hex or do not fit a word are refused, never truncated or wrapped. Big-integer, contract and comma-separated exports of a Groth16 proof carry every coordinate in its place. Payloads survive JSON unchanged. The contract codec encodes selector and arguments by the ABI specification and decodes them back to the same values; unknown methods, wrong argument counts and cut data are errors or give the same values; results never alias the codec's state.",
 ["inputs"],"all fields and field pairs over boundary values and hex forms, all ABI type shapes and pairs with array lengths up to a bound, every truncation, every single unset field of every payload",
 "Tests encode one fixed payload.",
 ["common/proof/types.go","common/proof/agg_exports.go","common/utils/contract_codec.go","common/utils/groth16_util.go"],[("EncodeABI","common/proof/types.go"),("ContractCodec","common/utils/contract_codec.go")])
p("C27","Stored proving artifacts are read back identical or an error is reported",
 "Writing a key, constraint system, proof or witness file and reading it back gives an identical object. A write that cannot complete, or a file truncated at any point or missing, is reported as an error and never taken for a valid artifact.",
 ["crash_points","fault_sequences"],"every truncation point class of every artifact kind, a device that is full from every write on, missing and unwritable paths",
 "No stable test touches the file helpers.",
 ["common/utils/pk-vk-utils.go","common/utils/groth16_util.go","common/utils/plonk_util.go"],[("Write*/Read*","common/utils/pk-vk-utils.go")])
p("C28","The beacon client answers every server response with the true data or an error",
 "For every HTTP status, body and transport failure the beacon client returns either the slot or block fields that the response really contains or an error; it never crashes and never returns data the response does not contain.",
 ["fault_sequences","inputs"],"all transport faults, statuses and all bodies derived from a valid one by dropping, retyping or truncating any part",
 "There is no test of the client.",
 ["common/eth/client.go"],[("GetSlot/GetBlock","common/eth/client.go")])
p("C29","Header commitments built by the host match their definition for every chain",
 "The header chunk encodings and their MiMC roots built by the host equal the documented packing of each header's fields and the circuit's root over the same leaves, for every chain length and field value; distinct headers give distinct encodings.",
 ["inputs","configurations"],"all chain lengths up to a bound, boundary values of every field",
 "The tests in the repository use one generated chain.",
 ["circuits/fabric/smt/utils.go"],[("EncodeHeaders, MimcRoot, MimcHashBytes32","circuits/fabric/smt/utils.go")])
p("C30","In-circuit edwards25519 arithmetic equals the group law for every operand case",
 "In-circuit point addition, doubling, negation and scalar multiplication on edwards25519 equal the group law for all operand relations (identity, equal, opposite, low-order and generic points) and all scalar shapes.",
 ["inputs"],"all pairs from a closed set of points containing the torsion subgroup and generic points, all scalars of bounded bit length and boundary scalars",
 "The Ed25519 circuit tests are not among the stable ones.",
 [G+"ed25519/point.go",G+"ed25519/curve.go"],[("add/double/neg/scalarMul",G+"ed25519/point.go")])
p("C31","In-circuit Ed25519 verification accepts exactly the valid signatures",
 "The in-circuit Ed25519 check accepts every genuine signature over a message of the supported length and rejects it when any part of the signature, the key or the message is altered, including a scalar outside the group order, coordinates that are not reduced and points that are not on the curve.",
 ["inputs"],"a set of genuine signatures; every byte of signature, key and message altered in turn, and structured forgeries",
 "Too slow for the suite; the only such test is not stable.",
 [G+"ed25519/ed25519.go"],[("Verify",G+"ed25519/ed25519.go")])
p("C32","The host edwards25519 library obeys the field, scalar and group laws",
 "The host field, scalar and point arithmetic of edwards25519 equals arithmetic modulo the curve's primes and the group law for every operand, including carries at every limb boundary and non-canonical encodings.",
 ["inputs"],"all pairs of operands built from limb-boundary values, all scalars at window boundaries, all encodings near the modulus",
 "The stable tests sample random operands.",
 [G+"ed25519/test/field/fe.go",G+"ed25519/test/field/fe_generic.go",G+"ed25519/test/scalar.go",G+"ed25519/test/edwards25519.go",G+"ed25519/test/scalarmult.go"],[("feMul/feSquare/carry",G+"ed25519/test/field/fe_generic.go"),("scMulAdd/scReduce",G+"ed25519/test/scalar.go")])
p("C33","BLS12-381 extension-tower arithmetic equals the field definitions",
 "Every in-circuit extension-field operation over BLS12-381 (add, multiply, square, invert, conjugate, Frobenius, sparse and cyclotomic variants) equals the mathematical operation on all operands of its domain.",
 ["inputs"],"all operands with components from a boundary set (zero, one, minus one, generic) per coefficient",
 "The stable test runs one final exponentiation.",
 [G+"pairing_bls12381/tower.go"],[("Ext2/Ext6/Ext12",G+"pairing_bls12381/tower.go")])
p("C34","In-circuit G2 operations equal the group law on every operand relation",
 "In-circuit BLS12-381 G2 addition, doubling, negation, endomorphisms, coordinate conversion and cofactor clearing equal the group operation for every operand relation the operation supports, including the point at infinity where representable.",
 ["inputs"],"all pairs from a closed set of points (infinity, generator multiples, opposites, non-subgroup points)",
 "No stable test covers these operations.",
 [G+"pairing_bls12381/g2.go"],[("AddAssign/Double/ClearCofactor",G+"pairing_bls12381/g2.go")])
p("C35","In-circuit hash-to-G2 equals the standard for every message",
 "The in-circuit message expansion, hash-to-field, curve map, isogeny and complete hash-to-G2 give exactly the result of the RFC 9380 suite for every message, length and domain tag supported.",
 ["inputs"],"message lengths around every hash block boundary, tag lengths up to the limit, field elements including the exceptional inputs of the map",
 "The tests check one message and are not stable.",
 [G+"pairing_bls12381/hash2curve.go"],[("ExpandMsgXmd/HashToField/MapToCurve2/HashToG2",G+"pairing_bls12381/hash2curve.go")])
p("C36","The in-circuit pairing equals the BLS12-381 pairing",
 "The in-circuit Miller loop, final exponentiation and pairing give exactly the BLS12-381 result for every list of points, and mismatched or empty lists are refused.",
 ["inputs","configurations"],"list lengths up to a bound, all pairs from a set of generator multiples and their negatives, bilinearity relations",
 "The stable test checks one fixed final exponentiation.",
 [G+"pairing_bls12381/pairing.go"],[("MillerLoop/FinalExponentiation/Pair",G+"pairing_bls12381/pairing.go")])
p("C37","Commitment hashes over host data consume every input word",
 "The host hashes used as public commitments (verification-key hash, BLS12-377 MiMC commitment, Poseidon and Keccak helpers) equal their definition over all input words in order; no word is dropped, truncated or wrapped silently, so changing any single word changes the hash or is an error.",
 ["inputs"],"all word positions, boundary values around each modulus, all list lengths up to a bound",
 "No stable test computes these hashes.",
 ["common/utils/utils.go","common/utils/plonk_util.go","common/utils/poseidon_bn254.go"],[("GenerateBls12377Hash, MiMCBlockPad0","common/utils/utils.go")])
p("C38","The object-store client reads and writes exactly the store's objects or errs",
 "After every history of uploads and deletions through the object-store client, listing a prefix returns exactly the stored objects with that prefix however many there are, downloading returns exactly the bytes uploaded, and every operation that a store or transport fault prevents is reported as an error rather than taken for success.",
 ["histories","fault_sequences"],"all operation histories up to a bound over a set of keys, page sizes, object sizes around the part size, every fault kind at every request",
 "There is no test of the client.",
 ["common/s3api/client.go","common/s3api/utils.go"],[("ListObjects/Upload/Download/Delete","common/s3api/client.go")])
p("C39","Calls are independent: inputs stay unchanged, calls share no state",
 "No host function or gadget changes the data it is given, not even the spare capacity behind a slice; no result depends on which calls ran before in the process, in the same process for the first time, or are running at the same time on other data or on the same read-only inputs; results already returned never change; compiling the same circuit always gives the same constraint system.",
 ["histories","schedules"],"all operations of an alphabet covering the host functions and gadgets: alone, in fresh processes, all ordered pairs as histories, all unordered pairs as concurrent calls",
 "Tests run each function once on fresh data in one goroutine.",
 ["common/utils/compose.go","common/utils/binary.go","common/utils/hex.go",G+"limbs/limbapi.go",G+"rlp/rlp.go",G+"ed25519/test/scalarmult.go"],[("all exported functions","common/utils/compose.go")])
p("C40","Host conversions, lookups, formatting and failure helpers are exact",
 "Every conversion between text, numbers, times and addresses is exact over the whole range of its type, and text that denotes no value of the type gives zero; membership, partition, chunk and start-block lookups and the keys of slots follow their definition on every input; the text of an update shows every field and the text of an event every id with its nonce; opening-or-creating a file never changes one that exists; a check helper stops the process exactly when what it checks has failed, and shows its message.",
 ["inputs"],"all strings up to a length over an alphabet and all boundary numbers, boundary times, all byte-slice lengths, all lists up to a length, every single-field change, every state of a path, every outcome",
 "There are no tests of these helpers.",
 ["common/utils/string.go","common/utils/time.go","common/utils/utils.go","common/utils/hex.go","common/utils/const.go","common/circuits/smt.go","common/eth/string.go","common/eth/evstr.go","common/s3api/utils.go"],[("Str2Uint64, TsMilli, Partition, Contains","common/utils/string.go")])
p("C41","Contract bindings call, decode and watch exactly what the interface names",
 "Every method of a generated contract binding, in every form it is offered in (instance, caller, transactor, filterer, sessions, raw), sends to the bound address the call or transaction of the function it is named after, with its arguments in order and the caller's options, and returns that function's results; every filter asks for exactly its event and the given indexed values; an event that is parsed, iterated or watched carries its log's values; logs are delivered in order, once, and iteration ends at the end or at the failure; a failure of the node or an undecodable reply is returned as an error, never as a value; a deployment sends the recorded code and constructor arguments.",
 ["inputs","fault_sequences"],"every function, event and constructor of every bound contract, each argument at boundary and dense values, all filter combinations, every failure of the node, replies cut short, a broken log at every place",
 "There is no test of the bindings.",
 ["common/eth/bindings.go","common/bsc/bindings.go"],[("contract bindings","common/eth/bindings.go"),("contract bindings","common/bsc/bindings.go")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
