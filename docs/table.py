prop("P01", "Serialization round-trips and is canonical, in binary and JSON",
 "For every protocol object that can be built (addresses, outputs, unlocks, signatures, transactions, payloads, blocks, commitments, roots, attestations, proofs, parameters), encoding it yields exactly the bytes of the documented wire format, and decoding those bytes (or its JSON form) yields the same object again. Every byte string that the decoder accepts is the one canonical encoding of the object it returns, so no two byte strings decode to the same object.",
 ["inputs", "configurations"], "Over every well-formed object of every kind, over every byte string derived from one by truncation, extension, bit flips and length/type edits, and over several protocol parameter sets.",
 "Tests encode a handful of hand-written objects per kind; interactions of optional fields, nesting, length limits and malformed inputs are a combinatorial space of which they sample a few points.",
 ["api_v3.go", "block.go", "transaction.go", "output_basic.go", "address_multi.go", "unlock_cond.go", "commitment.go", "merklehasher/merkle_proof.go"],
 [("serix type registration and validation rules of the version 3 API", "api_v3.go"), ("custom encode/decode functions of addresses, unlocks and multi unlocks", "address.go, unlock_multi.go")],
 "runtime monitoring: generated objects and mutated encodings, independent reference encoder as oracle",
 "Every generated object is judged against an encoder written from the wire format; sampled, not exhaustive. Trusts the hand-written reference encoder.")
prop("P02", "Decoders and parsers are total on hostile input",
 "Whatever bytes, JSON document or text a peer sends, every decoder and parser returns either an object or an error: it never panics, never loops, and never allocates far more memory than the input's size warrants. Whatever object a validating decoder returns can then be measured, hashed, encoded, printed and validated without a panic.",
 ["inputs"], "Over all byte strings, JSON documents and texts: random ones, and mutations of valid encodings of every kind (truncation, length fields, type bytes, nesting depth, huge counts).",
 "Hostile inputs are unbounded; the tests try a few dozen malformed ones.",
 ["api_v3.go", "block.go", "address.go", "merklehasher/merkle_proof.go", "api/core.go", "output.go", "identifier.gen.go"],
 [("length prefixes and limits of the serializer", "api_v3.go"), ("deserialization guards", "address_restricted.go, address_multi.go")],
 "runtime monitoring: mutation fuzzing with panic, progress and allocation monitors",
 "Panic, stuck-case and allocation monitors on every decode. Six deviations in the hive.go dependency are recorded as known findings.")
prop("P03", "Reported sizes equal encoded lengths",
 "The size which any protocol object reports equals the number of bytes of its encoding, for the object itself and for every part of it. Fee, storage and size-limit decisions rely on it.",
 ["inputs", "configurations"], "Over all objects of all kinds and all their parts, with every combination of optional fields and lengths at and between their limits.",
 "Tests compare sizes for a few fixed objects; each optional field and each length of each nested part contributes separately.",
 ["block.go", "output_basic.go", "output_account.go", "output_anchor.go", "output_foundry.go", "output_nft.go", "output_delegation.go", "transaction.go", "unlock_multi.go", "commitment.go", "attestation.go"],
 [("Size methods of every serializable type", "all type files")],
 "runtime monitoring: size oracle from the independent reference encoder",
 "Every part of every generated object is compared with the reference encoding's length; sampled.")
prop("P06", "Copies are independent, equality is content, reading does not write",
 "A cloned object equals its original and stays as it was whatever is done to the original, and the other way round. Two objects are reported equal exactly if they have the same content, and operations that read an object (encoding, hashing, validating, listing) never change it, nor does changing what they return.",
 ["inputs", "histories"], "Over all objects and parts, over every single-field change of one of a pair, over writes to every reachable byte of a copy.",
 "Sharing of one nested slice or an ignored field in one comparison shows only for objects which use that field; tests use few such objects.",
 ["output_basic.go", "feat.go", "unlock_cond.go", "address.go", "transaction.go", "block.go", "builder/output_builder_basic.go"],
 [("Clone and Equal methods", "all type files"), ("feature and unlock condition sets", "feat.go, unlock_cond.go")],
 "runtime monitoring: memory-scrambling alias monitor and differential equality oracle",
 "Every reachable word of the original is overwritten and the clone re-encoded by the reference encoder; sampled.")
prop("P04", "Identifiers commit to the content they identify",
 "Every identifier (block, transaction, signed transaction, output, commitment, account, anchor, NFT, foundry, token, delegation, protocol parameters hash) is the documented hash or concatenation of the object's encoding and slot, so two objects share an identifier only if their content is the same. Asking for an identifier twice, or after encoding and decoding the object, gives the same answer, and the index and slot parts can be read back from it.",
 ["inputs", "configurations"], "Over all objects of every kind, all their single-field changes, all output indexes and slots, and several parameter sets.",
 "An identifier that ignores one rarely used field, or a cached or shared one, shows only for objects that differ in precisely that field; tests compare a few fixed vectors.",
 ["identifier.gen.go", "block.go", "transaction.go", "signed_transaction.go", "output.go", "commitment.go", "address_account.gen.go", "output_foundry.go", "transaction_id.gen.go"],
 [("ID methods and identifier constructors", "block.go, transaction.go, signed_transaction.go, commitment.go, output.go"), ("chain identifiers derived from output identifiers", "output_account.go, output_nft.go, output_foundry.go, output_delegation.go")],
 "runtime monitoring: reference hash construction and single-field perturbation monitor",
 "Compares with identifiers computed from the reference encoding; sampled.")
prop("P05", "Signatures bind the signed content and the signer",
 "A signature made for a block, a transaction or an attestation verifies for exactly that content and that signer: it stops verifying when any bit of the signed content, of the signature or of the public key changes. Signers sign for exactly the addresses whose keys they hold, in every address form, and report an error for all others.",
 ["inputs"], "Over all blocks, transactions and attestations, all single-field and single-bit changes, all key sets and all address forms (direct, implicit, restricted, multi).",
 "Tests sign and verify one or two fixed objects; that every field is covered by the signature is a statement about all fields and all values.",
 ["block.go", "transaction.go", "signed_transaction.go", "signature_ed25519.go", "address_signer.go", "attestation.go", "unlock_signature.go"],
 [("signing messages", "block.go, transaction.go, attestation.go"), ("in-memory address signer", "address_signer.go")],
 "runtime monitoring: reference signing message, standard-library ed25519 as oracle, bit-flip workload",
 "Verified against crypto/ed25519 over independently built messages; sampled.")
prop("P07", "Text encodings of addresses, identifiers and capabilities are faithful",
 "Printing any address as bech32 and parsing it back gives the same address and network prefix, and every text the parser accepts is the (case-uniform) bech32 text of exactly one address; corrupted texts are rejected. The same holds for the hexadecimal texts of identifiers, block identifiers with aliases, numbers and byte strings, and for capability bit masks, which are printed, compared and tested without loss.",
 ["inputs"], "Over all addresses of all types, all prefixes, all identifiers, and all one- and two-character corruptions of their texts.",
 "A wallet user pastes arbitrary text; tests hold a few dozen fixed vectors.",
 ["address.go", "bech32/bech32.go", "bech32/internal/base32/base32.go", "hexutil/numbers.go", "identifier.gen.go", "address_restricted.go", "bitmask.go"],
 [("bech32 encoding and parsing", "bech32, address.go"), ("hexadecimal codecs", "hexutil/numbers.go, *.gen.go")],
 "runtime monitoring: reference bech32 and hexadecimal codecs as differential oracle, corruption workload",
 "Independent codec written from BIP-173; sampled, with exhaustive single-character corruption of the sampled texts.")
prop("P08", "Slot and epoch arithmetic is consistent",
 "For every parameter set, slot, epoch and instant, the time provider's conversions agree with each other: a slot contains exactly the instants between its start and end, slots and epochs tile time without gap or overlap, first and last slots of an epoch contain exactly the slots mapped to it, and all conversions are monotonic. Times before genesis fall into the genesis slot.",
 ["inputs", "configurations"], "Over all genesis slots and times, slot durations, epoch exponents, and all slots, epochs and instants, with emphasis on boundaries and on the largest values.",
 "Tests use one genesis time and a few slots; the boundaries of shifts, epochs and integer ranges are where an off-by-one hides.",
 ["timeprovider.go", "slot_index.gen.go", "epoch_index.gen.go", "api_v3_protocol_parameters.go"],
 [("TimeProvider", "timeprovider.go")],
 "runtime monitoring: wide-integer reference clock as online oracle",
 "Two documented deviations for a non-zero genesis slot are known findings (pinned by the existing tests).")
prop("P09", "Mana decay and generation are exact, monotonic and conservative",
 "Decay and generation of mana equal the specified fixed-point formulas computed with unlimited precision, or an overflow error is reported; they never wrap around. More elapsed time never leaves more stored mana and never generates less potential mana, splitting a period never yields more than the period, and the target reward of an epoch follows the specified schedule.",
 ["inputs", "configurations"], "Over all mana parameter sets the parameter check admits, all mana values, base-token amounts and pairs of slots and epochs.",
 "Fixed-point rounding and 128-bit intermediate products fail only at particular magnitudes; tests compare a few values with floating point.",
 ["mana_decay_provider.go", "mana.go", "api_v3_protocol_parameters.go"],
 [("ManaDecayProvider", "mana_decay_provider.go"), ("safe arithmetic", "mana.go")],
 "runtime monitoring: arbitrary-precision reference model as oracle, metamorphic monitors",
 "Compared against math/big at every call; sampled magnitudes incl. all power-of-two boundaries.")
prop("P11", "Storage score and minimum deposit are the documented function of the output",
 "The storage score of every output is the documented weighted sum of its encoded size and its special fields, and the minimum deposit is that score times the storage cost, or an overflow error. An output is accepted as covering its deposit exactly if its amount is at least the minimum, and the storage deposit return condition counts with the deposit of a simple output to its return address.",
 ["inputs", "configurations"], "Over all outputs of all types with all combinations of features and conditions, and over parameter sets up to the largest values.",
 "The tests price a few outputs with one parameter set; each feature contributes separately and big factors overflow.",
 ["storagescore.go", "output.go", "output_basic.go", "output_foundry.go", "output_nft.go", "feat_blockissuer.go", "feat_staking.go", "block_issuer_key.go"],
 [("StorageScoreStructure and StorageScore methods", "storagescore.go and all output, feature, address files")],
 "runtime monitoring: independent big-integer reference of the score",
 "Reference score recomputed from the encoded parts; sampled.")
prop("P12", "Work score and block mana cost are the documented function of the block",
 "The work score of every block, payload, output and unlock is the documented sum over its parts, or an overflow error, and the mana cost of a block is that score times the reference mana cost. No block that the decoder accepts exceeds the declared largest work score.",
 ["inputs", "configurations"], "Over all blocks with every payload, output, context input, feature and unlock, and over work-score parameter sets up to the largest values.",
 "Tests count one or two blocks; the price of each part must hold for every combination, and adding up can overflow.",
 ["workscore.go", "block.go", "transaction.go", "signed_transaction.go", "output.go", "unlock_multi.go", "feat_native_token.go", "api_v3_protocol_parameters.go"],
 [("WorkScore methods", "all type files"), ("WorkScoreParameters.MaxBlockWork", "workscore.go")],
 "runtime monitoring: independent reference sum with overflow, adversarial maximal blocks",
 "Reference sum from counts of parts; maximal blocks are hand-built extremes plus random ones.")
prop("P13", "Transactions are accepted exactly if they satisfy the syntactic rules",
 "A transaction decoded or checked on its own is accepted exactly if it satisfies the protocol's syntactic rules: network, counts, ordering and uniqueness of inputs, context inputs, outputs, chains and allotments, unlock structure, deposits, native token and foundry arithmetic, supply and mana limits, commitment and reward references, address restrictions and capability encoding. No rule is skipped for any output type, position or unusual value, and no transaction obeying all of them is rejected.",
 ["inputs", "configurations"], "Over all transactions: random valid ones of every shape and each of them with one or more rules violated at, just below and just above the limit; several parameter sets.",
 "There are dozens of rules, each applying to several output types and positions; the tests violate each rule in one way.",
 ["transaction.go", "transaction_essence.go", "signed_transaction.go", "output.go", "syntax_validator.go", "unlock.go", "input_context.go", "address_restricted.go"],
 [("syntactic validation functions", "output.go, input.go, unlock.go, transaction.go"), ("sets and limits in the codec", "api_v3.go")],
 "runtime monitoring: independent executable specification of the rules as accept/reject oracle",
 "Reference validator written from the rules; boundary mutations of every rule. Sampled.")
prop("P14", "Blocks are accepted exactly if they satisfy the syntactic rules",
 "A block is accepted by the decoder exactly if it satisfies the protocol's syntactic rules: version, network, parent counts, order and disjointness, commitment age window, size limit, payload and its relation to the block's slot and commitment, and highest supported version. Every accepted block reports its parents, type and slot exactly as they are encoded.",
 ["inputs", "configurations"], "Over all blocks of both types with all payloads, valid ones and ones with rules violated at, just below and just above each limit; several parameter sets.",
 "Limits interact (slot, commitment, payload commitment input, sizes); tests try single hand-made blocks.",
 ["block.go", "block_id.gen.go", "api_v3.go"],
 [("block syntactic validation", "block.go")],
 "runtime monitoring: independent executable specification of the rules as accept/reject oracle",
 "Reference validator written from the rules; boundary mutations of every rule. Sampled.")
VMQ = "Over transactions of many simultaneous transfers and chain transitions with real signatures, all valid ones and ones with one or two places changed to, just below and just beyond a limit; several parameter sets, slots and commitments."
VMW = "The rules interact across inputs, outputs, context inputs and time; the tests execute some hundred fixed cases, mostly with one chain each."
VMN = "Judged by an executable specification written from the rules, which builds on the independent encoder; sampled. Combinations whose outcome the rules leave open are not used (listed in DESIGN.md)."
prop("P15", "Executed transactions conserve base tokens and return storage deposits",
 "The virtual machine accepts a transaction only if the base tokens of its outputs add up to exactly those of its inputs, and every storage deposit which an input promises to return is paid in simple outputs to its return address, with promises to the same address added up, unless the return address itself unlocked that input. No transaction is rejected for its base tokens if it satisfies this.",
 ["inputs", "configurations"], VMQ, VMW,
 ["vm/vm.go", "vm/nova/vm.go", "output_basic.go", "unlock_cond_storage_return.go"],
 [("ExecFuncBalancedBaseTokens", "vm/vm.go"), ("unlocked addresses set", "vm/vm.go")],
 "runtime monitoring: conservation monitor and independent specification of the VM over generated transactions", VMN)
prop("P16", "Native tokens are conserved except for what their foundry mints or melts",
 "The virtual machine accepts a transaction only if the amounts of each native token on both sides differ by exactly what its foundry in the same transaction mints or melts, within its maximum supply, and a deficit without a foundry only if the transaction permits burning. The counters of a foundry only grow, its maximum supply never changes, it is destroyed only once no tokens remain, and transactions obeying these rules are not rejected for their native tokens.",
 ["inputs", "configurations"], VMQ, VMW,
 ["vm/vm.go", "vm/nova/vm.go", "token_scheme_simple.go", "feat_native_token.go", "output_foundry.go"],
 [("ExecFuncBalancedNativeTokens", "vm/vm.go"), ("foundry state transitions", "vm/nova/vm.go, token_scheme_simple.go")],
 "runtime monitoring: conservation monitor and independent specification of the VM over generated transactions", VMN)
prop("P17", "Executed transactions never create mana",
 "The virtual machine accepts a transaction only if the stored and potential mana of its inputs, decayed to its creation slot, plus claimed rewards covers the mana of its outputs and allotments, without overflow, with nothing left over unless burning is permitted, and with no input younger than the transaction. Mana of an account whose block issuer is still active never leaves that account except into its own allotment or outputs locked to it long enough; transactions obeying this are not rejected for their mana.",
 ["inputs", "configurations"], VMQ, VMW,
 ["vm/vm.go", "vm/nova/vm.go", "mana_decay_provider.go", "allotment.go", "mana.go"],
 [("TotalManaIn, TotalManaOut", "vm/vm.go"), ("ExecFuncBalancedMana", "vm/vm.go"), ("mana locking of block issuer accounts", "vm/nova/vm.go")],
 "runtime monitoring: big-integer mana ledger and independent specification of the VM over generated transactions", VMN)
prop("P18", "Every consumed output is unlocked by its current owner at the right time",
 "The virtual machine accepts a transaction only if each input is unlocked by a valid signature over this transaction of the key that owns it, or by a reference to such a signature or to an earlier input which unlocked the owning chain or multi address, with the multi address's threshold reached. Timelocks must have passed and the expiration condition decides between owner and return address by the bounds of the committed slot, with a gap where nobody can; a properly unlocked transaction is not rejected for its unlocks.",
 ["inputs", "configurations"], VMQ + " Unlocks are replaced, redirected, swapped, re-signed by other keys and shortened.", VMW,
 ["vm/vm.go", "vm/nova/vm.go", "unlock_cond.go", "address_multi.go", "unlock_multi.go", "signature_ed25519.go", "unlock_cond_expiration.go", "unlock_cond_timelock.go"],
 [("ValidateUnlocks and the unlocked addresses set", "vm/vm.go"), ("checkExpiration, TimelocksExpired", "vm/vm.go, unlock_cond.go")],
 "runtime monitoring: independent unlock specification with standard-library ed25519, forged-unlock workload", VMN)
prop("P19", "Chain outputs change only as their state machine allows",
 "The virtual machine accepts a transaction only if each account, anchor, foundry, NFT and delegation in it is created, changed or destroyed as its rules allow: fresh identifiers, unchanged immutable features, foundry counters and serials, block issuer and staking periods, delegation epochs and amounts, reward claims, issuer credit and locked accounts, controllers of anchors, and permission for destruction. A transaction obeying these rules is not rejected by them.",
 ["inputs", "configurations"], VMQ, VMW,
 ["vm/nova/vm.go", "vm/vm.go", "vm/types.go", "chain.go", "output_account.go", "output_anchor.go", "output_foundry.go", "output_nft.go", "output_delegation.go"],
 [("ChainSTVF and the state transition functions", "vm/nova/vm.go"), ("ExecFuncChainTransitions, implicit accounts", "vm/vm.go")],
 "runtime monitoring: independent specification of all chain state machines over generated transactions", VMN)
prop("P20", "Sender and issuer features are authentic",
 "The virtual machine accepts a transaction only if the address in every sender feature, and in the issuer feature of every newly created chain output, was unlocked on the input side of that same transaction, by signature, by reference or by its chain. A transaction whose senders and issuers are all unlocked is not rejected for them.",
 ["inputs", "configurations"], VMQ, VMW,
 ["vm/vm.go", "vm/nova/vm.go", "feat_sender.go", "feat_issuer.go", "address_multi_reference.go"],
 [("ExecFuncSenderUnlocked, IsIssuerOnOutputUnlocked", "vm/vm.go"), ("unlocked addresses set", "vm/vm.go")],
 "runtime monitoring: independent unlock specification over generated transactions", VMN)
prop("P21", "Transaction execution is a total, deterministic function that changes nothing",
 "Executing the same transaction on the same inputs always gives the same verdict, whatever the order of map iteration and however often it is repeated, and on success the created outputs are exactly those of the transaction. Execution never panics, whatever decodable transaction and resolved inputs it gets, and never changes its arguments.",
 ["inputs", "configurations"], "Over valid, invalid and random transactions with random resolved inputs, each executed repeatedly on shared and on rebuilt arguments.", "Map iteration order and shared state show only over many repetitions and unusual inputs; a node which panics or disagrees with others on one transaction stalls.",
 ["vm/vm.go", "vm/nova/vm.go", "vm/types.go", "output.go"],
 [("Execute, ValidateUnlocks", "vm/nova/vm.go, vm/vm.go")],
 "runtime monitoring: repetition, panic and argument-change monitors over generated and random transactions",
 "Every transaction is executed five times; arguments are serialized before and after by the reference encoder. Sampled.")
prop("P22", "The API provider answers by version, slot and epoch, under any interleaving",
 "After any history of added protocol parameters, versions, announced versions and committed slots, the epoch based provider gives for every version, epoch and slot exactly the API whose parameters and start epoch apply, the version announcements in effect, and the documented error for versions it does not know. Concurrent readers always see a state that some prefix of the history produced, never a mixture or a step back, and blocks decode with the API of their version.",
 ["histories", "schedules", "inputs"], "Over all histories of provider operations, replacements and repetitions included, and all interleavings of one or more writers with many readers.",
 "The tests add a few versions in order from one goroutine; replacement, late parameters and concurrent queries are a space of histories.",
 ["api_epoch_based_provider.go", "api_single_version_provider.go", "api_protocol_epoch_versions.go", "api_provider.go"],
 [("EpochBasedProvider maps, latest and committed API under its lock", "api_epoch_based_provider.go"), ("start epochs of versions", "api_protocol_epoch_versions.go")],
 "runtime monitoring: model-based history checker, linearizability monitor for concurrent readers, race detector",
 "Every answer is compared with a model after each operation; concurrent answers must be explained by a state between call and return. Go race detector on the same runs. Versions with different time parameters are not used.")
prop("P23", "Objects, codecs and tools may be shared by concurrent readers",
 "Any number of goroutines may read, measure, hash, compare, print, encode, validate and execute the same object, API, signer or virtual machine at once: there is no data race, and each gets the answer it would get alone. This holds from the very first use on, when lazily computed values are filled in.",
 ["schedules", "inputs"], "Over all objects of all kinds and all their parts, all reading methods, and all interleavings of several goroutines.",
 "The tests run on one goroutine; caching inside a reading method shows only under concurrency.",
 ["api_v3.go", "vm/nova/vm.go", "vm/vm.go", "block.go", "transaction.go", "api_protocol_parameters.go", "address_signer.go", "syntax_validator.go"],
 [("lazily computed fields and shared caches", "api_v3.go, api_v3_protocol_parameters.go"), ("nova virtual machine instance", "vm/nova/vm.go")],
 "runtime monitoring: Go race detector plus comparison with private twins under concurrent workloads",
 "All reading methods found by reflection on every part of every object, called from five goroutines; sampled schedules.")
prop("P24", "Merkle roots commit to all values and proofs prove exactly membership",
 "The root over a list is the Merkle tree hash of exactly these values in this order; a proof can be made for every member and for no other value or index, and a proof that hashes to the root and contains a value proves that the value is in the list. The proofs of a commitment's roots verify for exactly the root they are made for, and an output ID proof gives the output it was made for its true output ID and refuses any other output, also after a round trip through its binary and JSON forms.",
 ["inputs"], "Over all lists of values of all lengths, all indexes, duplicates, and over altered and forged proofs.",
 "The tests use one list of seven values and honest proofs.",
 ["merklehasher/merkle_hasher.go", "merklehasher/merkle_proof.go", "output_id_proof.go", "commitment_roots.go"],
 [("Hasher.Hash, ComputeProof", "merklehasher"), ("OutputIDProof.OutputID, VerifyProof", "output_id_proof.go, commitment_roots.go")],
 "runtime monitoring: independent Merkle tree as oracle, forged-proof workload",
 "Every size up to 130 with many indexes, larger ones sampled; proofs altered in up to three places must be judged as the reference judges them.")
prop("P32", "Protocol parameters report what was set, compare by content, read race-free",
 "Every protocol parameter reads back as it was set through the options, before and after encoding; the hash of the parameters is the hash of their encoding and the network ID that of the network name; two sets of parameters are equal exactly if their encodings are. Parameters for a new network are refused exactly if they contradict themselves (periods, thresholds, supply and mana limits). All of this may be read by any number of goroutines at once.",
 ["inputs", "configurations", "schedules"], "Over all combinations of options and values, over pairs that differ in a single encoded byte, over parameter sets on and beside each limit, over all interleavings of several readers.",
 "Dozens of options each set one of many similar fields; tests use the defaults and one goroutine.",
 ["api_v3_protocol_parameters.go", "api_protocol_parameters.go", "api_v3.go"],
 [("options and accessors of V3ProtocolParameters", "api_v3_protocol_parameters.go"), ("basicProtocolParameters.Equals", "api_protocol_parameters.go")],
 "runtime monitoring: option/accessor model, single-byte difference workload, race detector",
 "Reference encoder and recomputed hashes as oracle; sampled.")
prop("P25", "The transaction builder builds what was asked, balanced and unlocked",
 "The transaction builder gives a transaction with exactly the inputs, context inputs, outputs, allotments, capabilities and payload it was given, in the order the rules demand, with one signature per key and references for all else, so that the virtual machine accepts its unlocks; where the keys or the order of inputs do not allow this it fails. The mana it reports as available and remaining, and the mana its allot and store operations place, add up to the last unit, bound mana staying with its account, and clones are independent.",
 ["inputs", "histories", "configurations"], "Over all sets of inputs and outputs with their owners and chains, keys given and missing, order of calls, target slots and mana operations.",
 "The tests build a handful of fixed transactions; rounding, binding and reference chains are a space of input sets.",
 ["builder/transaction_builder.go", "transaction.go", "signed_transaction.go", "address_signer.go", "allotment.go"],
 [("Build, unlock position index", "builder/transaction_builder.go"), ("CalculateAvailableMana…, AllotMinRequiredMana…, StoreRemainingMana…", "builder/transaction_builder.go")],
 "runtime monitoring: rebuild oracle (reference encoder, unlock specification, real VM) and big-integer mana model",
 "TotalMana, overflow of single allotments and anchors in governance transitions that own inputs are not judged. Sampled.")
prop("P26", "Output and block builders give exactly what was asked, in valid order",
 "Whatever sequence of calls an output builder gets, it builds the output which holds the last value of each property, sorted as the rules demand, and leaves the previous output it started from unchanged; it refuses to change immutable features or to mix calls of both anchor controllers, and raises the anchor's state index by exactly one for state transitions. The block builders build a block with exactly the given header, payload and deduplicated, sorted parents, a mana cost that covers the block's work, and a valid signature; an error of any step is never lost.",
 ["inputs", "histories", "configurations"], "Over all sequences of builder calls with all values, starting from nothing or from any previous output, and over repeated builds.",
 "The tests run one fixed chain of calls per builder.",
 ["builder/output_builder_account.go", "builder/output_builder_anchor.go", "builder/output_builder_basic.go", "builder/output_builder_delegation.go", "builder/output_builder_foundry.go", "builder/output_builder_nft.go", "builder/block_builder.go", "feat.go", "unlock_cond.go", "block_issuer_key.go"],
 [("Upsert, Remove, Sort of features and unlock conditions", "feat.go, unlock_cond.go"), ("BlockIssuerTransition, StakingTransition, anchor transitions", "builder"), ("Sign, CalculateAndSetMaxBurnedMana", "builder/block_builder.go")],
 "runtime monitoring: model-based call-sequence checker with reference encoder and standard-library ed25519",
 "Aliasing of slices which are passed to the builder is not judged. Sampled sequences of up to 16 calls.")
prop("P27", "The wallet derives, restores and uses exactly the right keys",
 "A key manager derives for every path and index exactly the key pair SLIP-10 prescribes for its seed or BIP-39 mnemonic, and its addresses, signers and accounts belong to that key; the mnemonic of a key manager made from a mnemonic or from random entropy restores it. An address signer signs for exactly the addresses whose keys it holds, restricted or not, with signatures that unlock them, and gives the documented error for all others.",
 ["inputs", "configurations"], "Over all seeds, mnemonics, hardened paths and indexes, all sets of keys, address kinds and messages.",
 "The repository has no test of the wallet package; a wrong derivation or a mnemonic which does not restore loses funds.",
 ["wallet/keymanager.go", "wallet/account.go", "address_signer.go", "address_ed25519.gen.go", "address_implicit_account_creation.gen.go"],
 [("KeyPair, Path, Mnemonic", "wallet/keymanager.go"), ("privateKeyForAddress", "address_signer.go")],
 "runtime monitoring: independent SLIP-10 and BIP-39 derivation and standard-library ed25519 as oracles",
 "The mnemonic of key managers made of raw seeds is not judged. Sampled.")
prop("P28", "Proof of work finds valid nonces and stops when told to",
 "The number of trailing zeros is that of the hash of message and nonce. Whatever the number of workers and concurrent calls, Mine returns a nonce with at least the wanted trailing zeros for its own data, or the documented error: for impossible targets at once, for cancelled contexts soon after the cancellation, and never for others; no goroutine stays behind and there is no data race.",
 ["schedules", "inputs", "faults"], "Over all data, targets, worker counts, moments of cancellation and interleavings of workers and calls.",
 "The tests mine once and cancel once; the races of finding, cancelling and closing are a space of schedules.",
 ["blockissuer/pow/pow.go", "blockissuer/pow/worker.go"],
 [("Mine, worker", "blockissuer/pow/worker.go"), ("TrailingZeros", "blockissuer/pow/pow.go")],
 "runtime monitoring: race detector, goroutine-leak and liveness monitors over cancellation storms, bitwise oracle",
 "That the workers search disjoint nonces is not observable and not judged. 20 s bound on cancellation.")
prop("P31", "The failure reason of a transaction names a rule it breaks",
 "For every transaction the virtual machine rejects, the failure reason derived from its error names a rule which the transaction breaks. For every error, however deeply wrapped or joined with others, the reason is that of the most detailed listed error in it (of joined errors the last), and the general reason is given only if it contains no listed error.",
 ["inputs", "histories"], "Over all rejected transactions and all trees of wrapped and joined errors.",
 "Wallets and nodes act on the reason; tests map two fixed errors, while the errors of dozens of rules reach the mapping through different layers of wrapping.",
 ["api/core.go", "vm/vm.go", "vm/nova/vm.go"],
 [("DetermineTransactionFailureReason, unwrapErrors", "api/core.go"), ("errors of unlocking and execution", "vm, vm/nova")],
 "runtime monitoring: rule-by-rule reference of the virtual machine as oracle over mutated executions; error-tree generator",
 "A rule which is broken together with others may be reported by any of their reasons. Sampled.")

prop("P29", "Node clients ask for exactly what was asked and return exactly what came",
 "Every method of the node's core, indexer, management and block issuer clients makes exactly the documented requests, with the given arguments, credentials and bodies, and returns exactly what the node answered: result sets deliver every page once and in order, an output is returned only with a proof that it belongs to the requested ID, and a payload goes out with its commitment and a valid proof of work. Error statuses, broken connections, truncated and nonsensical answers give the matching error, never a panic, a made-up result or a leaked connection, and one client may be used by many goroutines.",
 ["inputs", "histories", "schedules", "faults"], "Over all methods and arguments, all answers of nodes (honest, broken, lying about outputs), any number of pages, failures at any request, and concurrent use.",
 "The tests call each method once against one fixed answer; failures, lies and page sequences are not among them.",
 ["nodeclient/http_api_client.go", "nodeclient/http.go", "nodeclient/indexer_client.go", "nodeclient/blockissuer_client.go", "nodeclient/management_client.go", "api/endpoints.go", "api/indexer.go"],
 [("do, interpretBody", "nodeclient/http.go"), ("OutputByID, OutputWithMetadataByID proof checks", "nodeclient/http_api_client.go"), ("IndexerResultSet.Next", "nodeclient/indexer_client.go"), ("SendPayloadWithTransactionBuilder", "nodeclient/blockissuer_client.go")],
 "runtime monitoring: fake node as request/response oracle with fault injection, body-leak monitor, race detector",
 "Blocks, transactions and metadata are not tied to the requested IDs. Parameters of a node which make no protocol are not judged. Sampled.")
prop("P33", "The messages of the node API keep their content in both forms",
 "Every message of the node's API survives its JSON and its binary form unchanged, and both forms are the documented ones, members which may be left out included. Decoders of messages neither panic nor accept bytes which they would write differently, and states which no node knows are refused or printed as unknown.",
 ["inputs", "configurations"], "Over all message types with all values of all members, members left out or in any order, and hostile documents.",
 "The tests encode one fixed message of most kinds.",
 ["api/core.go", "api/indexer.go", "api/management.go", "api/blockissuer.go"],
 [("message structs and their serialization tags", "api/core.go, api/indexer.go, api/management.go, api/blockissuer.go"), ("BlockState, TransactionState", "api/core.go")],
 "runtime monitoring: independent JSON and binary forms of every message as oracle, mutation fuzzing",
 "Times beyond the nanosecond range clamp and are compared after re-decoding. Sampled.")

prop("P30", "Event subscriptions deliver exactly what the node published",
 "Every subscription of the event client asks the node's broker for exactly the documented topic and delivers every well-formed message published there once, with its content, to the channel of the latest registration, whatever other subscriptions do and whether or not anybody receives from them. Malformed messages, lost connections and refused subscriptions are reported and stop nothing else; closing unsubscribes, ending the context frees every blocked delivery, and an inactive client refuses further registrations as documented.",
 ["inputs", "histories", "schedules", "faults"], "Over all subscriptions and their arguments, all sequences of messages in all qualities of service, all interleavings of receivers, and connection faults.",
 "The only test feeds one block through a mock.",
 ["nodeclient/event_api_client.go", "api/endpoints.go"],
 [("subscribeToTopic, Connect, Close", "nodeclient/event_api_client.go"), ("topic constants", "api/endpoints.go")],
 "runtime monitoring: recording MQTT broker, exactly-once delivery checker, goroutine-leak monitor, race detector",
 "Order within a topic and subscriptions after a lost connection are not judged; the wildcard condition is not exercised. Sampled.")

prop("P34", "Collections answer and change like the lists and maps they are",
 "After any sequence of insertions, replacements, removals, sorts and copies, a collection of features, unlock conditions, block issuer keys, allotments, context inputs, weighted addresses, identifiers, outputs or inputs holds exactly the elements an ordinary list or map would hold, sorted in the documented order. Its lookups, membership, filters, sums, comparisons, conversions and the sets made from it answer by content, slot bounds included, and duplicates, overflows and malformed elements give the documented error.",
 ["inputs", "histories"], "Over all sequences of operations on all collections, all element types and all slots.",
 "Builders, validation and the virtual machine are written on top of these collections; the tests use them with one or two elements.",
 ["feat.go", "unlock_cond.go", "block_issuer_key.go", "allotment.go", "input_context.go", "address_multi.go", "output.go", "output_id.go", "vm/types.go"],
 [("Features, FeatureSet", "feat.go"), ("UnlockConditions, UnlockConditionSet", "unlock_cond.go"), ("BlockIssuerKeys", "block_issuer_key.go"), ("Outputs, OutputSet", "output.go"), ("OutputIDs, HexOutputIDs", "output_id.go"), ("InputSet", "vm/types.go")],
 "runtime monitoring: model-based histories of operations, plain lists and maps as oracle",
 "What an insertion or removal does to a list which already holds two elements of a type is left open. Sampled.")
