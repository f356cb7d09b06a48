# ---------------------------------------------------------------- protocol: encodings
prop(
    "A01", "h-protocol", "exploration",
    "Stored and gossiped values survive encoding unchanged",
    "Every value the node writes to disk or sends to a peer in its canonical binary form (blocks, headers, proposals, "
    "proofs, receipts, execution results, chain metadata, consensus configuration, hardfork records, cross-chain "
    "cells, signatures, accounts, addresses) decodes to exactly the value that was encoded. The bytes are the "
    "documented field order of that type in canonical RLP, so nodes built at different times read each other's data.",
    ["inputs"],
    "all values over per-field domains of boundary cases, up to a bounded number of fields away from a default",
    "A test encodes one sample; a swapped, dropped or mis-sized field only shows for values in which the two fields "
    "differ, an optional part is present or absent, or a length crosses an RLP size class.",
    ["protocol/src/codec/block.rs", "protocol/src/codec/executor.rs", "protocol/src/codec/receipt.rs",
     "protocol/src/codec/mod.rs", "protocol/src/types/primitive.rs", "protocol/src/types/block.rs",
     "protocol/src/types/executor.rs", "protocol/src/types/interoperation.rs"],
    [("hand-written RLP codecs", "protocol/src/codec"), ("derived RLP codecs", "protocol/src/types")],
    ENUM + "; every encoding compared with an independently written RLP encoder and decoded back",
    "real encoders and decoders on every value of the bounded domain; reference bytes from an independent RLP writer",
)
prop(
    "A02", "h-protocol", "exploration",
    "No sequence of bytes from outside can crash a decoder",
    "Decoding bytes that came from a peer, a user or disk either returns a value or returns an error, and never "
    "panics, overflows or hangs. A value that is accepted is stable: encoding it and decoding it again gives the "
    "same value, and a batch is read with all its items or not at all. Bytes accepted as a signed transaction are exactly that transaction's encoding, so nobody can give "
    "one transaction two hashes.",
    ["inputs"],
    "all byte strings up to length 2, all single-byte corruptions, truncations, insertions and deletions of valid "
    "encodings, and all replacements of one or two fields by items of another shape, also deep inside transactions",
    "Malformed inputs are unbounded in variety; tests only decode what the encoder produced.",
    ["protocol/src/codec/block.rs", "protocol/src/codec/transaction.rs", "protocol/src/codec/executor.rs",
     "protocol/src/codec/receipt.rs", "protocol/src/types/batch.rs", "protocol/src/types/transaction.rs"],
    [("RLP decoders", "protocol/src/codec"), ("batch messages", "protocol/src/types/batch.rs")],
    ENUM + "; a fault model over the bytes (truncate, overwrite, insert, delete, replace a field) is enumerated "
    "completely and a panic or an unstable value is a violation",
    "real decoders, complete enumeration of the stated corruption model",
)
prop(
    "A03", "h-protocol", "exploration",
    "Transactions and batches keep content, hash and sender on the wire",
    "A signed transaction of any type (legacy with or without replay protection, access-list, dynamic-fee, and "
    "cross-chain with long signature fields) that is encoded and decoded keeps every field, its hash, its chain id "
    "and the sender recovered from its signature, and its bytes are those Ethereum defines for that type. A batch "
    "of transactions or blocks arrives with the same items in the same order, whatever their number.",
    ["inputs"],
    "all transactions over per-field boundary domains up to a bounded number of fields away from a default, all "
    "batches of up to three items drawn from three"
    "; lists, keys and data of up to 140 000 bytes; batches of sizes up to several thousand",
    "The existing tests encode single transactions of one shape; list lengths, size classes and optional parts are "
    "combinations they do not visit.",
    ["protocol/src/codec/transaction.rs", "protocol/src/types/transaction.rs", "protocol/src/types/batch.rs"],
    [("transaction codec", "protocol/src/codec/transaction.rs"), ("batch messages", "protocol/src/types/batch.rs")],
    ENUM + "; compared with an independent Ethereum transaction encoder and a signature made outside the code "
    "under test",
    "real codec on every transaction and batch of the bounded domain",
)
# ---------------------------------------------------------------- protocol: meaning
prop(
    "A04", "h-protocol", "exploration",
    "A transaction is accepted only with its signer's consent to its content",
    "A transaction signed by any conforming Ethereum implementation is accepted and attributed to the signer's account; "
    "after a change of any signed field (type, chain, nonce, prices, gas, recipient, value, data, access list) the old "
    "hash no longer matches and the signature no longer yields that account. Signatures with impossible numbers, "
    "lengths or recovery ids, missing signatures and malformed cross-chain signatures are refused without a crash, a "
    "cross-chain transaction belongs to the account of the key named in it, and the chain id and parity carried by a "
    "legacy signature are those of EIP-155.",
    ["inputs"],
    "all transactions over per-field boundary domains x every single change of a signed field; signatures from boundary "
    "values of r, s and v; every v below 65536; every truncation of cross-chain signatures"
    "; transactions with data up to 140 000 bytes and lists of 1000",
    "Forgery is a statement about every altered transaction; a test signs one and recovers it with the same code.",
    ["protocol/src/types/transaction.rs", "protocol/src/codec/transaction.rs", "common/crypto/src/lib.rs"],
    [("sender recovery", "SignedTransaction::from_unverified in protocol/src/types/transaction.rs"),
     ("signature components", "protocol/src/types/transaction.rs")],
    ENUM + "; signatures and payloads made by an independent implementation, all single tamperings enumerated",
    "real recovery code on the complete bounded domain of transactions, tamperings and signatures",
)
prop(
    "A05", "h-protocol", "exploration",
    "Block, proposal and transaction hashes commit to every field",
    "The hash of a block, of a proposal and of a transaction is the Keccak-256 of its canonical encoding and covers every "
    "field of it, so that two headers, two proposals (the base fee and chain id, which are fixed by the chain, aside) or two "
    "transactions that differ anywhere have different hashes. The hash function is Keccak-256 for inputs of every length.",
    ["inputs"],
    "all headers, proposals and transactions over per-field boundary domains up to a bounded number of fields away from "
    "a default; digests of every length up to 1100 bytes"
    " and around longer limits",
    "A field left out of a hash is invisible to tests that hash one value and compare it with itself.",
    ["protocol/src/types/block.rs", "protocol/src/codec/block.rs", "protocol/src/types/transaction.rs",
     "protocol/src/types/primitive.rs", "common/hasher/src/lib.rs"],
    [("block and proposal hash", "protocol/src/types/block.rs"), ("Keccak-256", "common/hasher/src/lib.rs")],
    ENUM + "; every hash recomputed independently, and injectivity checked over the whole enumerated set",
    "real hashing of all values of the bounded domain against an independent Keccak and RLP",
)
prop(
    "A06", "h-protocol", "exploration",
    "Blocks and receipts are assembled from the right parts",
    "A block made from an agreed proposal and its execution result takes every field from the right one of the two, and the "
    "proposal rebuilt from the block is the one that was voted on. Each receipt names its own transaction, sender, "
    "block, position, result and gas, numbers its logs consecutively across the block, and its bloom holds exactly its "
    "logs' addresses and topics, as the bloom in the header does for the whole block.",
    ["inputs"],
    "all proposals over boundary domains x execution results; blocks of up to three transactions with up to two logs of up "
    "to two topics each"
    "; blocks of many transactions and of many logs",
    "Mixed-up positions only show with several transactions that have different numbers of logs.",
    ["protocol/src/types/block.rs", "protocol/src/types/receipt.rs", "protocol/src/types/executor.rs"],
    [("block assembly", "Block::new in protocol/src/types/block.rs"),
     ("receipt assembly", "Block::generate_receipts_and_logs in protocol/src/types/block.rs")],
    ENUM + "; compared field by field with an independent assembly and bloom",
    "real assembly code on every block of the bounded domain",
)
prop(
    "A07", "h-protocol", "exploration",
    "Text forms of bytes, addresses, keys and numbers are exact",
    "Hexadecimal texts denote exactly the bytes they spell: a text without prefix, with a doubled prefix, of odd or wrong "
    "length or with other characters is refused without a crash. Addresses are shown with, and when read as checksummed "
    "text must carry, the EIP-55 checksum, and integers appear in JSON as hexadecimal without leading zeros.",
    ["inputs"],
    "all texts up to length 5 over an alphabet of digits, prefixes and foreign characters; every single edit of addresses "
    "and keys; byte strings of every length up to 300; integers at every bit boundary"
    " and some up to 200 000",
    "The accepted language is a property of all texts; tests parse well-formed ones.",
    ["protocol/src/types/primitive.rs", "protocol/src/codec/mod.rs"],
    [("hex, address and checksum text", "protocol/src/types/primitive.rs"), ("key text", "protocol/src/codec/mod.rs")],
    ENUM + "; compared with an independent parser and EIP-55",
    "real parsers on every text of the bounded language",
)
prop(
    "A08", "h-protocol", "exploration",
    "Every view of a transaction shows the field of its own type",
    "Whatever the type of a transaction, its nonce, gas price, priority fee, gas limit, recipient, value, data and access list "
    "are read from that transaction's own fields and changing one leaves the others alone. The most a transaction "
    "can cost is its price times its gas limit plus its value, without ever wrapping around.",
    ["inputs"],
    "all transactions of the three types over per-field boundary domains up to a bounded number of fields away from a default",
    "Each accessor has a case per type and each field extreme values; tests use one type and small numbers.",
    ["protocol/src/types/transaction.rs"],
    [("views of a transaction", "UnsignedTransaction in protocol/src/types/transaction.rs")],
    ENUM + "; compared with the fields of the transaction and 512-bit arithmetic",
    "real accessors on every transaction of the bounded domain",
)
prop(
    "A09", "h-protocol", "exploration",
    "Feature activations and chain metadata are never lost or reordered",
    "The record of hardfork announcements stays ordered by height, never drops a feature that was active, ignores announcements "
    "that go back or add nothing, and equals the effective announcements of any history. Metadata keeps every part when it "
    "is split and joined or passed through the older configuration format, an epoch's version range contains exactly the "
    "heights between its ends, and a validator's account is that of its key.",
    ["histories"],
    "all sequences of up to four announcements over 4 heights x 5 feature sets; all metadata over boundary domains; all "
    "ranges and heights from a boundary set"
    "; long histories of announcements",
    "A feature is lost only by particular orders of announcements, which tests do not enumerate.",
    ["protocol/src/types/primitive.rs"],
    [("hardfork record", "HardforkInfo in protocol/src/types/primitive.rs"),
     ("metadata", "protocol/src/types/primitive.rs")],
    ENUM + "; compared with a plain model of the record after every step",
    "real record on every announcement history of the bounded length",
)
# ---------------------------------------------------------------- shared building blocks
prop(
    "B01", "h-common", "exploration",
    "A root hash commits to exactly one ordered list, and proofs show only its items",
    "The root the node puts in headers and proposals for a list (of transaction hashes or of receipts) is the Merkle "
    "Patricia root of Ethereum over the list indexed from zero, for every list length including none, and any change of "
    "an item, of the order or of the length gives another root. A proof made for a position leads from the root to "
    "exactly the item at that position, or shows that the list has no such position.",
    ["inputs"],
    "all list lengths up to several hundred and value sizes around every format limit; all short lists over a small "
    "alphabet against all their single edits",
    "Key and value sizes change the shape of the tree at lengths 128 and 256 and at 32-byte nodes; sample lists miss "
    "those shapes.",
    ["common/merkle/src/lib.rs", "core/consensus/src/engine.rs", "core/executor/src/lib.rs"],
    [("list trie and binary tree", "common/merkle/src/lib.rs")],
    ENUM + "; roots and proofs are compared with an independently written Merkle Patricia trie and binary tree",
    "real root and proof functions against an independent implementation on every list of the bounded space",
)
prop(
    "B02", "h-common", "exploration",
    "The node runs with exactly the configuration and genesis the operator wrote",
    "Every setting of the configuration file and of the chain specification is taken from the file, or is its documented "
    "default when left out, and a file with a missing mandatory setting or a malformed value is refused with an error. "
    "Paths and key files are found relative to the configuration file, a key that is not exactly 32 bytes is refused, "
    "and the genesis block, the initial accounts, the validators and the active features are those of the specification.",
    ["configurations"],
    "every setting with each of several values, left out, and malformed, in all combinations of up to two departures; "
    "all key lengths; all short feature lists"
    "; contents and places of the key file",
    "There is one sample file; a wrong default or a swapped field shows only for files that differ from it.",
    ["common/config-parser/src/lib.rs", "common/config-parser/src/types/config.rs",
     "common/config-parser/src/types/spec.rs", "common/config-parser/src/types/mod.rs"],
    [("configuration and command-line value parsers", "common/config-parser/src/types")],
    ENUM + "; each file is generated together with the meaning it must have",
    "real parsers on every generated file of the bounded space",
)
prop(
    "B03", "h-common", "exploration",
    "Log records reach the configured places and none is lost when files roll",
    "A record is written to the console, to the log file, to the command-line log and to the metrics file exactly when the "
    "configured level of its module (the most specific one given, or else the general level) and the switches say so, "
    "with its level, module and content. When a file grows past its limit and is set aside, every record stays in "
    "exactly one file, however often that happens.",
    ["configurations", "histories"],
    "all combinations of general level, module levels and switches with every level and module; all sequences of records "
    "of several sizes under several limits"
    "; many rolls in a row",
    "The unit tests roll one file once and set up no routing.",
    ["common/logger/src/lib.rs", "common/logger/src/date_fixed_roller.rs"],
    [("logger set-up", "common/logger/src/lib.rs"), ("rolling of files", "common/logger/src/date_fixed_roller.rs")],
    ENUM + "; each configuration runs in a process of its own, and the files it leaves are read back",
    "real logger in child processes over every configuration and record sequence of the bounded space",
)
prop(
    "B04", "h-common", "exploration",
    "Tracing and metrics never change what a function does and report it truthfully",
    "A function annotated for tracing or for metrics returns what it would return without the annotation, with the same "
    "effects, however it ends (value, error at the end, early return, error passed on). Its span has the declared name, "
    "tags and logs, is the child of the caller's span, and says whether the call failed and why; each finished call is "
    "counted once as success or failure, and an abandoned call not at all.",
    ["programs", "histories"],
    "all kinds of annotated functions crossed with all ways to end, callers with and without span, and all short "
    "sequences of calls, including abandoned ones",
    "No test observes what the annotations generate.",
    ["common/apm-derive/src/lib.rs", "common/apm-derive/src/rpc_expand.rs", "common/apm-derive/src/trace_expand.rs",
     "common/apm-derive/src/kv_parser.rs"],
    [("code generated by the annotations", "common/apm-derive/src/trace_expand.rs")],
    ENUM + "; each annotated function has a twin without annotation to be compared with, and spans and counters are "
    "recorded",
    "real macros, every function kind and way to end; the tracer and the counters they call are recording stand-ins",
)
prop(
    "B05", "h-common", "exploration",
    "A data directory of an incompatible version is refused untouched",
    "The node starts on a data directory only if the version recorded there is at least the oldest compatible one in "
    "semantic-version order, records its own version then, and otherwise stops and leaves the directory as it was. "
    "The recorded version is replaced as a whole: whenever the process dies or a file operation fails, the record is the "
    "old one or the new one, and a later start works.",
    ["histories", "crash_points", "fault_sequences"],
    "all sequences of up to two starts over fourteen versions and all malformed records; every file operation of the "
    "update as crash point, with torn writes, and with each of three errors",
    "The unit tests run the gate without crashes on four versions.",
    ["core/cli/src/utils.rs", "common/version/src/lib.rs"],
    [("version gate", "core/cli/src/utils.rs"), ("version order", "common/version/src/lib.rs")],
    ENUM + "; crash points are explored by following the real process at system-call level and ending it at each call",
    "real code: every history of the bounded space, and every crash point and failing call of the update",
)
prop(
    "C01", "h-devtools", "exploration",
    "A light client accepts exactly the blocks the validators agreed on",
    "The proof verifier accepts a block only if validators holding more than two thirds of the voting weight signed "
    "exactly that block on that state, as members of the given validator list; it accepts every block so signed. "
    "Changing any field of the block, the previous state, the vote or the signer set leads to refusal, and malformed "
    "proofs are refused without a crash.",
    ["inputs", "configurations"],
    "all signer sets and weights over up to five validators; every single change to every field of block, vote, proof and "
    "validator list; malformed bitmaps, signatures and keys"
    "; lists of up to 300 validators, blocks of up to 3000 transactions",
    "The only test checks one recorded block whose validators all signed.",
    ["devtools/axon-tools/src/proof.rs", "devtools/axon-tools/src/rlp_codec.rs", "protocol/src/types/block.rs"],
    [("verification of a block's proof", "devtools/axon-tools/src/proof.rs"),
     ("hash of the proposal as signed", "protocol/src/codec/block.rs")],
    ENUM + "; real signatures are made for every signer set, and the verdict is compared with the rule of more than two thirds",
    "real verifier with real BLS signatures on every case of the bounded space",
)
prop(
    "C02", "h-devtools", "exploration",
    "A storage proof shows the true value or nothing",
    "Checking a trie proof against a root gives the value the trie with that root holds for the key, or that it holds none, "
    "or an error. No alteration of the proof makes a present key seem absent, an absent one present, or changes the value, "
    "and every honestly made proof is accepted.",
    ["inputs"],
    "several tries, present and absent keys, and every single alteration of the proof (dropped, changed, reordered and foreign nodes, other root)"
    "; values of up to 70 000 bytes",
    "Tests check recorded good proofs; a forger chooses the others.",
    ["devtools/axon-tools/src/proof.rs"],
    [("trie proof check", "devtools/axon-tools/src/proof.rs"), ("trie", "common/merkle/src/lib.rs")],
    ENUM + "; verdicts are compared with an independent trie",
    "real check on every altered proof of the bounded space",
)
prop(
    "C03", "h-devtools", "exploration",
    "Node and client tools agree on the bytes and the JSON of chain data",
    "Headers, blocks, proofs, proposals, metadata and consensus settings have the same encoding and the same JSON in the "
    "node and in the client tools, so that either reads with the same meaning what the other writes, old formats included. "
    "Number and byte texts are taken only when they are well-formed and in range, with their value, and no text crashes "
    "the reader.",
    ["inputs"],
    "values up to three fields away from the usual with boundary values for each; all short number and byte texts over an alphabet with "
    "signs, other prefixes and non-ASCII characters"
    "; texts of up to 200 000 digits; shorter and longer lists of settings",
    "The two sets of types are copies kept in step by hand; tests parse one recorded file.",
    ["devtools/axon-tools/src/types.rs", "devtools/axon-tools/src/rlp_codec.rs", "devtools/axon-tools/src/hex.rs",
     "protocol/src/types/block.rs", "protocol/src/types/primitive.rs", "protocol/src/codec/mod.rs"],
    [("copies of the node's types", "devtools/axon-tools/src/types.rs"), ("encodings", "devtools/axon-tools/src/rlp_codec.rs")],
    ENUM + "; the real codecs of both sides are run against each other, and texts against a reference reader",
    "both real implementations on every value of the bounded space",
)
prop(
    "C04", "h-devtools", "exploration",
    "A CKB membership proof is accepted only for leaves of that CKB block",
    "The verifier accepts a proof only if the transactions root is made of the two given roots and every leaf shown is a "
    "node of the chosen one's tree; it accepts every proof made from the block. No input crashes it, and its call data "
    "lists the parts in the documented order.",
    ["inputs"],
    "all sets of leaves of blocks of up to nine transactions and every alteration of roots, type, leaves, siblings and positions, extreme positions included"
    "; blocks of up to 70 000 transactions",
    "No test checks refusals.",
    ["devtools/axon-tools/src/precompile.rs"],
    [("proof verification", "devtools/axon-tools/src/precompile.rs")],
    ENUM + "; proofs come from an independent tree",
    "real verifier on every case of the bounded space",
)
prop(
    "D01", "h-devtools", "exploration",
    "A CKB-VM program's verdict and cost are those of its instructions",
    "Running a program from a cell returns the program's own exit code and the sum of the published costs of the "
    "instructions executed, given exactly the arguments of the call. A program that would cost more than the cycles "
    "allowed, is malformed, faults or is not there gives an error, always within those cycles; gas and cycles convert "
    "at the fixed rate.",
    ["programs", "inputs"],
    "all programs of up to four instructions out of fifteen with several argument lists, at, above and one below their cost; all single-byte "
    "damages of the file's headers"
    "; each of the machine's instructions on boundary values; up to 1000 arguments, of up to 30 000 bytes; faulting programs",
    "There is no test of programs that loop, fault or run out of cycles.",
    ["core/interoperation/src/lib.rs"],
    [("CKB-VM call", "core/interoperation/src/lib.rs")],
    ENUM + "; each program is also run by a small reference interpreter with the published costs",
    "real call on every program of the bounded space",
)
prop(
    "D02", "h-devtools", "exploration",
    "Requests to CKB services are what was asked, and bad answers are errors",
    "Each call goes to the right service with the method and parameters given and an identifier of its own. A good answer is "
    "returned as it is, transactions asked for together come back in the order asked whatever the order of the answers, and "
    "any other answer (error, wrong type, broken, none) is an error and never a crash or a made-up result.",
    ["inputs", "schedules", "fault_sequences"],
    "seven calls with three arguments and seventeen kinds of answer; all orders of answers to up to four concurrent requests, each found, missing or failing"
    "; up to 300 transactions at once; a client used thousands of times; all schedules of two threads asking at once",
    "There are no tests without a live CKB node.",
    ["core/rpc-client/src/client.rs"],
    [("client", "core/rpc-client/src/client.rs")],
    ENUM + "; a scripted server on the loopback network answers in each order",
    "real client over the loopback network on every case of the bounded space",
)

# ---- execution
prop(
    "F01", "h-executor", "exploration",
    "Executing a block changes exactly the accounts its transactions say",
    "After a block, every account has the nonce, balance, code and storage that Ethereum's rules give for its "
    "transactions in order, reverted and refused ones included, and nothing else changed. Responses carry the "
    "exit, return data, logs, gas and created address of their transaction, and the state root commits to those accounts.",
    ["histories", "programs"],
    "all blocks of one, two and three transactions out of a menu of 29 behaviours (transfers, creations, storage, logs, nested calls, "
    "reverts, destruction, CREATE2, out of gas), in two successive blocks, under three validator sets",
    "Tests run single contracts and look at one number; here every combination is compared with independent rules.",
    ["core/executor/src/lib.rs", "core/executor/src/adapter/backend/apply.rs", "core/executor/src/adapter/backend/read_only.rs"],
    [("block execution", "core/executor/src/lib.rs"), ("state changes", "core/executor/src/adapter/backend")],
    ENUM + "; each block is also worked out by a small reference of the rules, and the stored tries are read back node by node",
    "real executor on a stubbed RocksDB for every block of the bounded space",
)
prop(
    "F02", "h-executor", "exploration",
    "Gas is charged once, at the price signed for, and validators get it",
    "The sender pays the gas used times the price and no more than gas limit times price, everything it pays reaches the "
    "validators in proportion to their weights, and no value appears or disappears. A transaction its sender "
    "cannot prepay and a refused system call change no balance.",
    ["histories", "inputs"],
    "29 behaviours at four prices and five gas limits after each of four histories; blocks of up to four refused system calls under three sets of weights",
    "No test adds up balances after a block.",
    ["core/executor/src/lib.rs", "core/executor/src/utils.rs", "core/executor/src/system_contract/utils.rs"],
    [("charging", "core/executor/src/lib.rs"), ("sharing", "core/executor/src/utils.rs")],
    ENUM + "; sums of all balances and each sender's bill are computed independently",
    "real executor on every case of the bounded space",
)
prop(
    "F03", "h-executor", "exploration",
    "The same block on the same state gives the same result on every node",
    "State root, receipts root, gas used and every response depend only on the state before and the block. Cache sizes, "
    "earlier runs of the same block and the copy of the database make no difference, and transactions that touch "
    "different accounts give the same accounts in either order.",
    ["histories", "configurations"],
    "all ordered pairs of 29 behaviours run in four ways each, and all disjoint pairs in both orders",
    "Tests execute once.",
    ["core/executor/src/lib.rs", "core/executor/src/adapter/trie/db.rs"],
    [("block execution", "core/executor/src/lib.rs"), ("trie cache", "core/executor/src/adapter/trie/db.rs")],
    ENUM + "; different runs of the real code are compared with each other",
    "real executor on every block of the bounded space",
)
prop(
    "F04", "h-executor", "exploration",
    "A query changes nothing and answers what the transaction would do",
    "A call against a state leaves the database byte for byte as it was, and its outcome is that of the same transaction "
    "run on that state. Asked of an earlier state it answers as it was then.",
    ["histories"],
    "29 behaviours asked after each of 29, plain and for an estimate, and four questions of every state of each two-block history",
    "No test compares calls with transactions.",
    ["core/executor/src/lib.rs", "core/executor/src/adapter/backend/read_only.rs"],
    [("calls", "core/executor/src/lib.rs")],
    ENUM + "; the whole database is compared before and after, and the answer with the real transaction's",
    "real executor on every case of the bounded space",
)
prop(
    "F05", "h-executor", "exploration",
    "Fees are shared out whole, revert reasons and addresses are right",
    "Whatever the validators' weights and the fee, the shares add up to the fee, are proportional up to rounding, and "
    "nothing crashes. Only well-formed revert data is read as a message, and the address of a created contract is "
    "the one Ethereum gives for sender and count.",
    ["inputs"],
    "all weights of up to four validators from seven values with nine fees; revert data of all lengths to 140 with 16 length words; 70 created addresses",
    "Tests share one fee among equal weights and read one message.",
    ["core/executor/src/utils.rs"],
    [("fee sharing", "core/executor/src/utils.rs"), ("revert messages", "core/executor/src/utils.rs")],
    ENUM + "; against independent arithmetic and decoding",
    "real functions on every input of the bounded space",
)
prop(
    "F06", "h-executor", "exploration",
    "Built-in contracts answer as specified, charge as specified, never crash",
    "The built-in contracts for hashing, copying, signature recovery, modular exponentiation, curve operations, compression, "
    "CKB hashing and CKB membership return the specified answer for the specified gas, or an error. With less gas "
    "than that they are out of gas, and no input crashes the node.",
    ["inputs"],
    "all input lengths around the word and block boundaries with several fillings, all small curve points, all disturbances of signatures, absurd declared lengths",
    "Tests have one or two vectors per contract.",
    ["core/executor/src/precompiles/mod.rs", "core/executor/src/precompiles/modexp.rs", "core/executor/src/precompiles/ecrecover.rs",
     "core/executor/src/precompiles/ec_pairing.rs", "core/executor/src/precompiles/blake2_f.rs", "core/executor/src/precompiles/ckb_mbt_verify.rs"],
    [("built-in contracts", "core/executor/src/precompiles/mod.rs")],
    ENUM + "; answers and gas are computed independently; big numbers and the curve are stand-ins for libraries missing here",
    "real contracts, called through the executor, on every input of the bounded space",
)
prop(
    "F07", "h-executor", "exploration",
    "Validator sets and settings change only as the validators decided",
    "The validators, limits and CKB identifiers in force at a height are those last set by a sitting validator for it, "
    "in sequence and never for the past; junk and other people's calls change nothing. Every earlier state still gives its own "
    "settings, and each validator's count is the number of blocks it proposed in that epoch.",
    ["histories"],
    "all histories of up to seven blocks with two (three thorough) of sixteen operations, read after each block and for every earlier one",
    "Tests append one epoch.",
    ["core/executor/src/system_contract/metadata/mod.rs", "core/executor/src/system_contract/metadata/handle.rs",
     "core/executor/src/system_contract/metadata/segment.rs"],
    [("epochs and settings", "core/executor/src/system_contract/metadata")],
    ENUM + "; against a reference history",
    "real executor on every history of the bounded space",
)
prop(
    "F08", "h-executor", "exploration",
    "Contracts and programs see exactly the CKB headers and cells handed in",
    "Headers and cells written by the relaying calls are read back unchanged by contracts and by CKB-VM programs, until they are "
    "rolled back or consumed; refused writes change nothing. The state root commits to them and every earlier "
    "state still shows its own.",
    ["histories"],
    "all sequences of up to three of twenty-one operations, one per block or several in a block",
    "Tests check single calls without reading an earlier state.",
    ["core/executor/src/system_contract/ckb_light_client/store.rs", "core/executor/src/system_contract/image_cell/mod.rs",
     "core/executor/src/system_contract/image_cell/store.rs", "core/executor/src/precompiles/get_header.rs"],
    [("headers", "core/executor/src/system_contract/ckb_light_client"), ("cells", "core/executor/src/system_contract/image_cell")],
    ENUM + "; against a reference map",
    "real executor on every history of the bounded space",
)
prop(
    "F09", "h-executor", "exploration",
    "A hardfork takes effect exactly at its block and stays as announced",
    "A contract creation is held to the size limit in force at its block: Ethereum's before the hardfork is active, the configured one "
    "from its block on. Announcements made late, twice, or by blocks that carry none have the stated effect only.",
    ["histories"],
    "all histories of four blocks with up to two (three thorough) announcements and changes, deployments just within and just above each limit",
    "No test crosses a hardfork.",
    ["core/executor/src/system_contract/metadata/mod.rs", "core/executor/src/lib.rs"],
    [("hardfork information", "core/executor/src/system_contract/metadata/mod.rs")],
    ENUM + "; against a reference history",
    "real executor on every history of the bounded space",
)
prop(
    "F10", "h-executor", "exploration",
    "The node store gives back what was written, also when the disk fails",
    "A trie node read is the last one successfully written, whatever the cache's size, and a failing write or read is an error "
    "that leaves no trace in later answers. A trie's contents and root are those of its insertions and removals, and "
    "every committed root stays readable.",
    ["histories", "fault_sequences"],
    "all sequences of up to four (five thorough) single and batched writes, failing writes and reads on four cache sizes; all short histories of insertions, removals and commits",
    "Tests have no failing disk.",
    ["core/executor/src/adapter/trie/db.rs", "core/executor/src/adapter/trie/mod.rs"],
    [("node store", "core/executor/src/adapter/trie/db.rs"), ("trie", "core/executor/src/adapter/trie/mod.rs")],
    ENUM + "; RocksDB is replaced by a stand-in that can fail any operation",
    "real store and trie on every history of the bounded space",
)

# ---------------------------------------------------------------- storage
prop(
    "E01", "h-storage", "exploration",
    "The chain's storage answers with what was last written",
    "Blocks, headers, transactions, receipts, code, the latest block, its proof and a pending hardfork proposal are read "
    "back exactly as last written, by height and by hash, through the node that wrote them and after a restart, whatever "
    "was read or cached in between. A hash finds only the item that has it, lists of hashes are answered in the order asked, "
    "repeats and unknown ones included, whatever their length. A disk that fails to read leads to an error or the true "
    "answer.",
    ["histories", "fault_sequences", "configurations"],
    "all histories of up to three writes out of 21 (replacing blocks, removing them, repeating transactions) with or "
    "without reading everything in between, cache sizes 0 to 64, every failing disk access after two writes, lists of up to "
    "2001 hashes",
    "Stale caches, mixed-up columns and list handling depend on the order of writes and reads; tests write once and read "
    "once.",
    ["core/storage/src/lib.rs", "core/storage/src/cache.rs", "core/storage/src/hash_key.rs", "core/storage/src/schema.rs"],
    [("storage and its caches", "ImplStorage in core/storage/src/lib.rs")],
    ENUM + "; every read after every history compared with a reference model",
    "real storage and database adapter over an in-memory stand-in of the database library",
)
prop(
    "E02", "h-storage", "exploration",
    "Power loss and disk faults leave the stored chain old or new, never else",
    "After a loss of power at any point of writing, everything acknowledged before is read back, each item being written is "
    "either as before or as meant, and a block named as the latest is there in full: by height, by hash and its header. A "
    "write that the disk refuses is reported as failed, leaves the running node and a restarted one with the same answers, "
    "and succeeds when repeated.",
    ["crash_points", "fault_sequences"],
    "every crash point of all histories of two writes (three thorough); every refused step of the second of two writes, "
    "with warm and cold caches",
    "Crash points lie between the individual writes of one operation, where no test stops.",
    ["core/storage/src/lib.rs", "core/db/src/rocks.rs"],
    [("order of writes", "insert_block and set_block in core/storage/src/lib.rs"),
     ("batches", "RocksAdapter::batch_modify in core/db/src/rocks.rs")],
    ENUM + "; the journal of the disk is cut at every point, or every single step refused, and every read compared with the "
    "model before and after",
    "real storage over a journalling stand-in of the database library",
)
prop(
    "E03", "h-storage", "exploration",
    "Both databases behave as an ordered map of columns",
    "Values, their presence, several values at once and walks over a prefix are exactly those of an ordered map per category "
    "after any sequence of insertions, removals and batches, on disk (also after reopening) and in memory. A batch is applied "
    "in order and whole or not at all, one of uneven lengths is refused, and opening a database that does not exist fails "
    "without creating it.",
    ["histories", "fault_sequences"],
    "all sequences of three writes (four thorough) out of 13 on two columns, with the last on a working or failing disk, 6 "
    "keys, 6 prefixes, 11 categories",
    "Key order, prefixes of prefixes and repeated keys inside one batch only matter in combination.",
    ["core/db/src/rocks.rs", "core/db/src/memory.rs"],
    [("database on disk", "core/db/src/rocks.rs"), ("database in memory", "core/db/src/memory.rs")],
    ENUM + "; compared with an ordered map",
    "real adapters; the database library under the one on disk is a stand-in",
)

# ---------------------------------------------------------------- memory pool
prop(
    "G01", "h-mempool", "exploration",
    "The pool holds and offers exactly the pending transactions, in order",
    "After any history of transactions received, blocks committed, fetched or adopted past the pool, and transactions expiring, "
    "the pool holds and counts exactly those that are still valid and not replaced by a better paid one. A block candidate "
    "offers each sender's run from its next nonce on, the best price first, up to the limit, and each system call once, "
    "leaving nothing out.",
    ["histories"],
    "all histories of up to four (five thorough) of 24 operations, all start lists of up to three transactions, long courses with two operations exchanged",
    "Which transactions may be offered depends on the order of arrivals, replacements, blocks and expiry together.",
    ["core/mempool/src/pool.rs", "core/mempool/src/tx_wrapper.rs", "core/mempool/src/lib.rs"],
    [("queues", "PriorityPool in core/mempool/src/pool.rs"), ("nonce order and replacement", "PendingQueue in core/mempool/src/tx_wrapper.rs")],
    ENUM + "; compared with a reference pool after every history",
    "real pool over a chain of the check's own; the pool's own task is run at chosen moments",
)
prop(
    "G02", "h-mempool", "exploration",
    "Concurrent use loses, repeats or resurrects no transaction",
    "However insertions, block commitments, candidates and look-ups by several threads and the pool's own task interleave, "
    "nothing deadlocks or panics, an accepted transaction is held until it is committed or outdated, a committed one never "
    "comes back, the count is right and no candidate holds a transaction twice or out of order.",
    ["schedules"],
    "every interleaving with up to two (three thorough) preemptions, at every lock and queue operation, of ten small concurrent programs",
    "A test runs whatever interleaving the machine happens to produce.",
    ["core/mempool/src/pool.rs", "core/mempool/src/lib.rs"],
    [("locks and queues", "PriorityPool in core/mempool/src/pool.rs")],
    "stateless model checking: a controlled scheduler runs the real pool through every interleaving with a bounded number of preemptions",
    "real pool; the concurrent map, locks and queue are stand-ins that hand control to the scheduler",
)
prop(
    "G03", "h-mempool", "exploration",
    "A proposal's transactions are fetched, checked and handed out exactly",
    "Fetching asks the peer for exactly the missing transactions and succeeds only if it answers with exactly those, all "
    "valid; any other answer leaves the pool as it was. A list is handed out complete and in the order asked, to the node "
    "itself and to peers, or not at all, and of what peers pass on exactly the valid part is taken.",
    ["inputs", "fault_sequences"],
    "all requests of up to three (four thorough) of four transactions against all answers of up to as many of six, in five situations; all lists of up to four of five handed out; all gossip of up to three transactions",
    "A lying peer's answers are not sampled by any test.",
    ["core/mempool/src/lib.rs", "core/mempool/src/adapter/message.rs"],
    [("fetching", "ensure_order_txs in core/mempool/src/lib.rs"), ("handing out", "get_full_txs in core/mempool/src/lib.rs"),
     ("messages from peers", "core/mempool/src/adapter/message.rs")],
    ENUM + "; compared with a reference pool",
    "real pool and message handlers; peers answer whatever the exploration chooses",
)
prop(
    "G04", "h-mempool", "exploration",
    "Only admissible transactions enter the pool, and they are passed on once",
    "A transaction is admitted exactly if its chain, size, gas price and limit, signature, nonce and sender's funds fit the "
    "state after the latest block and it is not committed yet; calls of system contracts exactly from validators of the "
    "next block. What is admitted is sent on once to all peers but the one it came from, what is refused never, and a "
    "signature serves no other transaction.",
    ["inputs", "histories", "configurations"],
    "all transactions that differ from a plain one in up to two (four thorough) of thirteen respects, at every limit; all system addresses, senders and heights around an epoch change; all histories of four offers and blocks; all histories of six broadcasts, pauses and failures",
    "Each limit and each combination of a cached sender, a changed state and an origin has its own path.",
    ["core/mempool/src/adapter/mod.rs", "core/mempool/src/lib.rs", "core/mempool/src/context.rs"],
    [("admission", "DefaultMemPoolAdapter in core/mempool/src/adapter/mod.rs"), ("passing on", "IntervalTxsBroadcaster in core/mempool/src/adapter/mod.rs")],
    ENUM + "; compared with the rules written out independently",
    "real pool, adapter, state, storage and CKB-VM; the network records what it is given",
)
# ---------------------------------------------------------------- consensus
prop(
    "H01", "h-consensus", "exploration",
    "A block counts as agreed only with more than two thirds of the voting weight",
    "A proof of a block is accepted exactly if validators holding more than two thirds of the voting weight of that block's "
    "epoch really signed a precommit for that very block, height and round. Whatever is changed afterwards, in the proof "
    "or in a field of the block its hash covers, makes it be refused, and votes are combined into a proof only if each is "
    "valid for the validator it is counted for.",
    ["inputs", "configurations", "histories"],
    "validator sets of 1 to 9 with boundary weights; all claimed and real signer sets for small ones; one alteration (two thorough) of about forty; all heights and epochs of a chain of five blocks with a change of validators",
    "A quorum rule is right or wrong for a weight distribution and a set of signers; tests show one of each.",
    ["core/consensus/src/adapter.rs", "core/consensus/src/engine.rs", "core/consensus/src/util.rs", "core/consensus/src/synchronization.rs"],
    [("proof verification", "verify_proof in core/consensus/src/adapter.rs"), ("signatures and weights", "OverlordCrypto in core/consensus/src/util.rs")],
    ENUM + "; signers, weights and signed bytes come from an independent model of the voting rule",
    "real adapter, crypto, storage and metadata; BLS keys and signatures made outside the code under test",
)
prop(
    "H02", "h-consensus", "exploration",
    "A node that catches up ends with the agreed chain, whatever peers send",
    "A node that hears of higher blocks fetches, verifies and executes them and ends with exactly the blocks, receipts, state, proof, "
    "validators and settings that a node has which committed them itself. Missing, malformed, late or forged answers at "
    "any point make it keep the last verified block and finish once peers are honest again, never adopt anything else. The "
    "same holds if it stops after any write to its database, and for a node that learns the chain from it.",
    ["fault_sequences", "crash_points", "histories"],
    "a chain of five blocks with changes of validators and settings; all starting and target heights; every question answered wrongly in each of four ways, up to two forged answers of about 35 kinds; every database write as crash point; all ways of having got there",
    "What is checked, in which order, and what has been stored by then depends on which answer is wrong and where the node stops.",
    ["core/consensus/src/synchronization.rs", "core/consensus/src/adapter.rs", "core/consensus/src/message.rs"],
    [("synchronization", "OverlordSynchronization in core/consensus/src/synchronization.rs"), ("answers to peers", "the handlers in core/consensus/src/message.rs")],
    ENUM + "; the databases are compared item by item with those of a node that executed the chain",
    "real synchronization, adapter, handlers, executor, storage and metadata over a simulated network and an in-memory database that can be torn off after each write",
)
prop(
    "H03", "h-consensus", "exploration",
    "Honest validators agree only to right proposals and commit the same chain",
    "A validator agrees to a proposal exactly if it follows its own latest block (height, hash, proof, state, time, roots, hard fork "
    "record) with transactions it can obtain; what an honest leader proposes is always agreed to. Validators that commit agreed blocks have "
    "equal blocks, receipts, state and next settings afterwards, whichever of them stops after any write to its database "
    "and starts again.",
    ["fault_sequences", "crash_points", "histories"],
    "a chain of five blocks with a change of validators; one spoiled proposal (two thorough) out of 32 kinds at every height; all turns of leaders with up to one spoiling (two thorough); every database write during a commit as crash point",
    "Agreement is about all pairs of nodes, faulty leaders and crash points; tests look at one node with mocked parts.",
    ["core/consensus/src/engine.rs", "core/consensus/src/adapter.rs", "core/consensus/src/status.rs"],
    [("proposing, checking and committing", "ConsensusEngine in core/consensus/src/engine.rs"), ("execution and saving", "OverlordConsensusAdapter in core/consensus/src/adapter.rs")],
    ENUM + "; proposals judged by an independent rule, databases of the nodes compared item by item",
    "real engine, adapter, pool adapter, executor, storage and metadata of four nodes; the voting rounds themselves (the overlord library) are driven by the harness",
)
prop(
    "H04", "h-consensus", "exploration",
    "What a validator notes before voting is there after a restart at any moment",
    "The record of the consensus round that is read at start is the last one completely written, whatever files, cut short or damaged, "
    "are around and however the clock was set in between. The transactions of a block a validator agreed to are read back completely "
    "or reported missing, never in part, until they are removed by height. Being stopped, or refused by the file system, at any "
    "point of writing or removing leaves everything else as it was, and the next attempt succeeds.",
    ["crash_points", "fault_sequences", "histories"],
    "all histories of up to three (four thorough) steps; every file-system call as crash point, every length of a cut-short write (90 of the longest quick), two errors per call; records cut, damaged, older or ahead of the clock",
    "What a restart finds depends on the byte at which the process ended.",
    ["core/consensus/src/wal.rs", "protocol/src/types/batch.rs"],
    [("round records", "ConsensusWal in core/consensus/src/wal.rs"), ("transaction log", "SignedTxsWAL in core/consensus/src/wal.rs")],
    ENUM + "; a process of its own is followed call by call and ended or failed at each",
    "real code on real files in a scratch directory",
)
prop(
    "J01", "h-api", "exploration",
    "Blocks, transactions and receipts are told over RPC as the chain holds them",
    "Every block, transaction and receipt of the chain, by whichever of the RPC methods and names (hash, number, tag, index) it is asked for, "
    "is answered with the fields it has: its place in block and chain, who sent it and to whom, what it offered and paid, the gas used by it and so far "
    "in the block, its outcome and its logs with their places. What waits in the pool is told as having no place; what is not there is null.",
    ["inputs", "histories"],
    "chains of up to three blocks of up to three transactions of eight kinds with seven outcomes, up to two in the pool, at most three (thorough: four) departures from the simplest chain; every item asked for in every way",
    "Fields depend on what else is in the block and on the kind of the transaction; tests look at one of each at best.",
    ["core/api/src/jsonrpc/impl/web3.rs", "core/api/src/jsonrpc/impl/axon.rs", "core/api/src/jsonrpc/web3_types.rs", "core/api/src/adapter.rs"],
    [("answers", "Web3RpcImpl in core/api/src/jsonrpc/impl/web3.rs"), ("their form", "core/api/src/jsonrpc/web3_types.rs")],
    ENUM + "; each answer is compared field by field with what was put in the chain",
    "real RPC modules, adapter, storage and receipts over an in-memory database; the transport of jsonrpsee is replaced by direct calls of the registered methods",
)
prop(
    "J02", "h-api", "exploration",
    "Log queries, filters and subscriptions give exactly the matching items, once",
    "A log query gives the logs of the blocks asked for that match addresses and topics, in order and with their places, or is refused. "
    "A filter gives at each poll what is new and matching since the last one, and nothing after it is taken away. A subscriber "
    "is told of each block or matching log since it subscribed, once and in order, however other clients come and go.",
    ["inputs", "histories"],
    "logs of all shapes up to four topics against filters of up to five places; all ranges over chains of up to four blocks; all histories of four (thorough: five) steps with two filters and of five (six) steps with two clients and three subscriptions",
    "What is new depends on every earlier poll, block and client.",
    ["core/api/src/jsonrpc/impl/web3.rs", "core/api/src/jsonrpc/impl/filter.rs", "core/api/src/jsonrpc/ws_subscription.rs"],
    [("queries", "get_logs in core/api/src/jsonrpc/impl/web3.rs"), ("filters", "FilterHub in core/api/src/jsonrpc/impl/filter.rs"), ("subscriptions", "Subscription in core/api/src/jsonrpc/ws_subscription.rs")],
    ENUM + "; the answers are compared with those of an independent model of matching and of who has seen what",
    "real filter and subscription tasks on a clock that the harness moves; the transport of jsonrpsee is replaced",
)
prop(
    "J03", "h-api", "exploration",
    "Questions about the state are answered from the block they name",
    "Balance, nonce, code and storage of an account, the outcome of a call, an estimate of gas and a proof are those of the state after the block "
    "that is named by number, hash or tag; proofs convince one who knows only the state root, and the estimated gas is enough. "
    "A block or amount beyond the limits or a system contract is refused, a block hash that is not there too, and no question changes the database.",
    ["inputs", "histories"],
    "all histories of three (thorough: four) blocks of seven kinds of changes; six accounts with three slots at each block in each way to name it; 960 combinations of destination, gas, price and sender",
    "An answer from another block than the one asked for looks like any other answer.",
    ["core/api/src/adapter.rs", "core/api/src/jsonrpc/impl/web3.rs"],
    [("state queries", "DefaultAPIAdapter in core/api/src/adapter.rs"), ("calls", "call_evm in core/api/src/jsonrpc/impl/web3.rs")],
    ENUM + "; answers are compared with a table of what each account was at each block, proofs checked by an independent trie reader",
    "real RPC modules, adapter, executor, tries and storage over an in-memory database",
)
prop(
    "J04", "h-api", "exploration",
    "Every RPC request is answered, and none takes the service from others",
    "Whatever the parameters of a request are, it is answered with a result or an error, and filters, subscriptions and queries of "
    "other clients go on as before, also if clients leave before they are answered. A transaction sent in is put in the pool as it is "
    "and its hash given if it is well-formed, signed and within the limits for gas and price; otherwise it is refused and not put there.",
    ["inputs", "fault_sequences"],
    "58 requests of 55 methods with any one (thorough: two) parts left out or replaced by 63 values; pairs of nine requests left at any of eight points; forms, prices, gas and damage of transactions in all combinations",
    "The request that stops a task shared by all clients is not among those a test makes.",
    ["core/api/src/jsonrpc/impl/filter.rs", "core/api/src/jsonrpc/impl/web3.rs", "core/api/src/jsonrpc/web3_types.rs", "core/api/src/jsonrpc/mod.rs"],
    [("reading parameters", "core/api/src/jsonrpc/web3_types.rs"), ("sending transactions", "send_raw_transaction in core/api/src/jsonrpc/impl/web3.rs"), ("the shared tasks", "core/api/src/jsonrpc/impl/filter.rs, ws_subscription.rs")],
    ENUM + "; after each request the service for others is probed, and the pool is compared with what was sent",
    "real RPC modules and tasks; clients that leave are tasks ended after every number of turns",
)
prop(
    "J05", "h-api", "exploration",
    "Fee history, validators per block and the node's status are told as they are",
    "The fee history covers the asked-for number of blocks up to the newest one named, as far as there are any, with each block's fee and share of gas used, the "
    "next fee, and a reward per percentile. The metadata told for a block are those of the epoch it is in. What the node says of itself, "
    "its chain, version, peers and progress in synchronization, is what it is.",
    ["inputs", "configurations"],
    "chains of up to three (thorough: four) blocks of four kinds with every count, newest block and list of percentiles; chains across the end of an epoch; four states of synchronization with two chain ids",
    "The edges of a range (block 0, more blocks than there are, unknown ones) are where an answer goes wrong.",
    ["core/api/src/jsonrpc/impl/web3.rs", "core/api/src/jsonrpc/impl/axon.rs", "core/api/src/jsonrpc/impl/node.rs"],
    [("fee history", "fee_history in core/api/src/jsonrpc/impl/web3.rs"), ("metadata", "get_metadata_by_number in core/api/src/adapter.rs"), ("status", "NodeRpcImpl in core/api/src/jsonrpc/impl/node.rs")],
    ENUM + "; compared with what was put in the chain and in the node",
    "real RPC modules over an in-memory database; the values of rewards are not judged",
)
# I: the network (core/network)
FAKE = "the real service, protocols and reactor; the p2p framework below (tentacle: sockets, secio, yamux), its snappy and protobuf codecs and its clocks are played by stand-ins"
prop(
    "I01", "h-network", "exploration",
    "What a peer sends is delivered as it was sent, or refused; it never harms",
    "A message that one node sends is read by the other's handler for its address with the content sent and the sender's name, whether it was compressed or not, "
    "and by that handler only. Whatever else arrives on a session - damaged, oversized, badly addressed, not decodable - is refused without "
    "delivery, without panic and without unpacking more than the limit, and what comes after it is handled as usual.",
    ["inputs"],
    "5 protocols by 19 sizes by 4 contents; all frames of up to 5 bytes over 10 values; 28 addresses by 6 contents by 66 tracing headers; every cut, bit and byte change of three messages",
    "A peer may send any bytes.",
    ["core/network/src/compress.rs", "core/network/src/reactor/router.rs", "core/network/src/protocols/transmitter/mod.rs", "core/network/src/endpoint.rs", "core/network/src/message/mod.rs"],
    [("frames", "compress and decompress in core/network/src/compress.rs"), ("delivery", "MessageRouter::route_message in core/network/src/reactor/router.rs")],
    ENUM + "; deliveries are compared with what the bytes say by an independent reader",
    FAKE,
)
prop(
    "I02", "h-network", "exploration",
    "A call to a peer ends with that peer's answer to it, an error, or a timeout",
    "Each call to another node ends once: with the answer that the called peer gave to this call, with the error the peer reported, or with an error after "
    "the time allowed. Answers to other calls, from other sessions, of the wrong kind, late or repeated never end it and do no harm, and a request "
    "reaches the handler of its address at the other end once, whose answer goes to the caller only.",
    ["inputs", "schedules", "histories"],
    "all histories of four (thorough: six) events: three calls on two sessions, answers of five kinds to any number on any session, time, giving up; three calls of two callers with equal session numbers in every order",
    "Answers come in any order and from anyone who can guess a number.",
    ["core/network/src/outbound/rpc.rs", "core/network/src/reactor/rpc_map.rs", "core/network/src/reactor/router.rs"],
    [("calls", "NetworkRpc in core/network/src/outbound/rpc.rs"), ("pending calls", "RpcMap in core/network/src/reactor/rpc_map.rs")],
    ENUM + "; outcomes are compared with a model of which answer belongs to which call",
    FAKE,
)
prop(
    "I03", "h-network", "exploration",
    "Messages to many go to the peers they should, once each",
    "A broadcast is sent to every session with the protocol, once, and gossip to a large part of them but never back to the session it came from. A "
    "multicast reaches exactly those of the named peers that are connected, and the others are dialed if an address is known. "
    "What arrives is what was sent, with the urgency asked for.",
    ["inputs", "histories"],
    "0 to 5 (thorough: 7) sessions, each perhaps without the protocol or gone; every origin and every roll of the die; three peers in five states and every subset of them named; three ways by six sizes",
    "Who is meant depends on all sessions and on a die.",
    ["core/network/src/outbound/gossip.rs", "core/network/src/peer_manager/mod.rs"],
    [("spreading", "NetworkGossip in core/network/src/outbound/gossip.rs"), ("who is connected", "PeerManager::peers in core/network/src/peer_manager/mod.rs")],
    ENUM + "; the die is rolled by the check",
    FAKE,
)
prop(
    "I04", "h-network", "exploration",
    "Sessions stay if there is room, the peer is not banned, and it is of our chain",
    "A session stays exactly if there is room for one of its direction and its address is not banned, or its peer is a bootnode or of the consensus; a peer that is banned is disconnected. "
    "A peer must introduce itself, in time, once, as of our chain, and only then further protocols are opened. An address others see us at is dialed, and "
    "told to others once it proves to be ours.",
    ["inputs", "histories"],
    "all histories of six (thorough: seven) comings, goings, bans and returns with two sets of limits; bans looked at after five times; three (four) events of ten kinds of introductions and two waits, in, out and as a feeler; 32 cases of observed addresses",
    "Whether there is room, and who is banned, depends on everything that came before.",
    ["core/network/src/service.rs", "core/network/src/peer_manager/mod.rs", "core/network/src/protocols/identify/mod.rs", "core/network/src/peer_manager/peer_store/ban_list.rs"],
    [("limits", "ServiceHandler in core/network/src/service.rs"), ("introduction", "IdentifyProtocol in core/network/src/protocols/identify/mod.rs")],
    ENUM + "; each decision is compared with a model of sessions and bans",
    FAKE,
)
prop(
    "I05", "h-network", "exploration",
    "The address book keeps, forgets and hands out addresses as their history says",
    "What is handed out to dial, to look after or to tell others are addresses whose history of tries, connections and bans makes them fit for it, at most one per ip, and "
    "each fit address has its turn. A full book makes room by what is least worth keeping and does not outgrow its limit. Saving "
    "and loading changes nothing, and after a crash in the middle of a save each file is the old or the new one.",
    ["inputs", "histories", "crash_points"],
    "all histories of four (thorough: five) events on four addresses that share ips, peers and ports, each followed by every order of drawing; full books of five shapes; every file-system call of a save killed, torn or failed",
    "The indexes by place, peer and draw must agree after every history.",
    ["core/network/src/peer_manager/peer_store/addr_manager.rs", "core/network/src/peer_manager/peer_store/peer_store_impl.rs", "core/network/src/peer_manager/peer_store/peer_store_db.rs", "core/network/src/peer_manager/peer_store/ban_list.rs"],
    [("the book", "Manager in core/network/src/peer_manager/peer_store/addr_manager.rs"), ("choices", "PeerStore in core/network/src/peer_manager/peer_store/peer_store_impl.rs"), ("files", "dump_to_dir in core/network/src/peer_manager/peer_store/peer_store_db.rs")],
    ENUM + ", of crash points and failing calls at system-call level; answers are compared with a model of each address's history",
    FAKE,
)
prop(
    "I06", "h-network", "exploration",
    "Peers that do not answer pings or flood with addresses go; good addresses spread",
    "Every session is asked for signs of life; one that does not answer in time, or answers what was not asked, is ended, and no other. "
    "Who asks for addresses gets public ones that worked lately, at most as many as asked for, once; what peers tell enters the book if it is a public address and the list within its limits, else the peer goes. "
    "Addresses are announced to few peers, not to those that know them, and those of the consensus until all know.",
    ["inputs", "histories"],
    "all histories of four (thorough: five) events of pings on three sessions; 240 questions; two (three) lists of up to 1001 items of six kinds; announcements among 1 to 6 sessions over four minutes and a day",
    "Limits and timeouts are met only by peers that misbehave.",
    ["core/network/src/protocols/ping.rs", "core/network/src/protocols/discovery/mod.rs", "core/network/src/protocols/discovery/state.rs"],
    [("pings", "PingHandler in core/network/src/protocols/ping.rs"), ("addresses", "DiscoveryProtocol in core/network/src/protocols/discovery/mod.rs")],
    ENUM + "; messages sent and sessions ended are compared with a model",
    FAKE + "; an exact set stands for the filter of known addresses",
)
prop(
    "I07", "h-network", "exploration",
    "The node dials whom it needs: consensus, bootnodes, good peers up to its limit",
    "In each round all unconnected peers of the consensus with a good address are dialed, and good addresses as long as there are free slots for outgoing connections; bootnodes at the start and again "
    "and again while there is room. Old and new addresses are looked after without keeping the connection. No connected peer and no address that is being "
    "dialed is dialed, and limits, addresses and keys are those that are configured.",
    ["inputs", "histories"],
    "two sets of limits, five of sessions, five of good addresses, three of bootnodes, three of validators, own address or not, over six rounds with one (two) turns of events; 1200 configurations",
    "Whom to dial depends on connections, outstanding dials and the book together.",
    ["core/network/src/service.rs", "core/network/src/config.rs", "core/network/src/protocols/feeler.rs", "core/network/src/peer_manager/registry.rs"],
    [("rounds", "NetworkService::run in core/network/src/service.rs"), ("configuration", "NetworkConfig::from_config in core/network/src/config.rs")],
    ENUM + "; the dials of each round are compared with a model of sessions, dials and address book",
    FAKE,
)
RUN = "the whole of core/run with the real storage, executor, pool, network service and RPC; the database is in memory, the p2p framework is played, and the consensus is caught at the moment it starts"
prop(
    "K01", "h-run", "exploration",
    "A chain begins as its specification says, whole or not at all",
    "After `init` a node runs on a genesis with the accounts, validators of both epochs, settings, hardforks, time, fee and chain id of its specification. Nodes with one specification have the same genesis "
    "and nodes with different ones have different ones. If the process dies or the disk fails on the way, the node refuses to run or the genesis is complete; what is there already is never begun over.",
    ["inputs", "crash_points"],
    "specifications that differ from a basic one in up to two (thorough: three) of eleven parts; twelve specifications x death or failure at every step of writing; four states of the directory",
    "A genesis that differs on one node, or exists in part, splits the chain at its first block.",
    ["core/run/src/lib.rs", "core/run/src/components/chain_spec.rs", "core/run/src/components/storage.rs", "core/executor/src/system_contract/mod.rs"],
    [("init", "init in core/run/src/lib.rs"), ("genesis", "execute_genesis in core/run/src/lib.rs"), ("accounts", "TrieExt in core/run/src/components/storage.rs")],
    ENUM + " and of crash points in the database's journal; what the node runs with and tells is compared with the specification",
    RUN,
)
prop(
    "K02", "h-run", "exploration",
    "A node that is started continues where its chain stands",
    "It runs the next height with the validators, keys, timers and limits of that height, on the last block, its proof and its state, holds the transactions that were proposed for it, looks for the height's validators in the network, "
    "announces the hardfork it was told to and answers RPC where configured. It stops at the height it was told to. Starting changes nothing that is stored.",
    ["inputs", "histories"],
    "chains of up to three blocks in two epochs x nine (thorough: sixteen) pairs of validator sets x who the node is, and one (two) of: transactions logged for three heights, a hardfork, where RPC listens, where to stop",
    "The parts that continue (consensus, keys, pool, network) are set up apart and must agree on the same height.",
    ["core/run/src/lib.rs", "core/run/src/components/network.rs", "core/consensus/src/wal.rs", "core/consensus/src/stop_signal.rs"],
    [("start", "start in core/run/src/lib.rs"), ("peers", "tag_consensus in core/run/src/components/network.rs"), ("log", "SignedTxsWAL in core/consensus/src/wal.rs")],
    ENUM + "; what consensus, pool, network and RPC are started with is compared with the chain",
    RUN,
)
prop(
    "K03", "h-run", "exploration",
    "A hardfork is announced exactly when it is new and ahead of the chain",
    "`hardfork` stores what it is asked to announce, and nothing else, if the height is ahead of the chain and it is not active already; a height that has passed is an error. "
    "The next run announces what is stored last and tells users so. Without a chain it fails and makes nothing.",
    ["inputs"],
    "chains with Andromeda active or not, of 0, 1 or 3 blocks x announced before or not x six heights x five sets of flags or nothing asked",
    "Nodes that announce differently do not agree on blocks.",
    ["core/run/src/lib.rs", "core/storage/src/lib.rs", "core/api/src/jsonrpc/impl/axon.rs"],
    [("announcement", "set_hardfork_info in core/run/src/lib.rs"), ("what users see", "hardfork_infos in core/api/src/jsonrpc/impl/axon.rs")],
    ENUM + "; the database before and after is compared record by record",
    RUN,
)
prop(
    "K04", "h-run", "exploration",
    "Commands do what they say: keys made can be kept and recovered, and runs stop",
    "`generate-keypair` keeps as many different pairs as asked for, each in its files, and shows exactly those and what follows from them (public keys, address, peer id); `recover-keypair` shows the same for the same files "
    "and refuses what is no key. `run` stops at the height or after the number of blocks it is told, `init` and `hardfork` act on the directory, specification and height they are given, "
    "and `init` and `run` do nothing in a directory of a version that is too old.",
    ["inputs", "configurations"],
    "five numbers of pairs x said where or not x four states of the place; ten network keys x ten keys of the consensus x missing files; run, init and hardfork x two heights or no chain x four versions x seven ways to stop x four hardforks",
    "A key that is shown but not kept, or kept under another name, is a validator lost.",
    ["core/cli/src/lib.rs", "core/cli/src/args/generate_keypair.rs", "core/cli/src/args/recover_keypair.rs", "core/cli/src/args/run.rs", "core/cli/src/args/init.rs", "core/cli/src/args/hardfork.rs", "core/cli/src/utils.rs"],
    [("keys", "core/cli/src/args/generate_keypair.rs"), ("commands", "core/cli/src/lib.rs")],
    ENUM + "; each command line runs in a process of its own, and its output, its files, its database and the consensus it starts are compared with what is expected",
    "the real command line and the whole of core/run below it; the database is in memory, the p2p framework is played, and the consensus is caught at the moment it starts",
)
