#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to rewrite that file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

EX = "core/executor/src/lib.rs"; AC = "core/executor/src/native_contract/account.rs"; BK = "core/executor/src/native_contract/bank.rs"
AD = "core/executor/src/adapter/contract.rs"; TR = "core/executor/src/trie/mod.rs"
NOEX = "The executor tests call one contract method twice on a fresh in-memory trie; none executes a block, and none can range over "

# ---------------------------------------------------------------- executor
prop("C01", "Transfers conserve every asset and no balance is ever overdrawn",
 "Executing a block changes the sum of all balances of an asset by exactly the fee total the block reports for that asset, and by nothing else. A transfer that succeeds moves exactly its amount from the sender to the receiver (the receipt shows the sender's balance of that asset before and after), and one whose amount exceeds the sender's balance, or whose asset the sender does not hold, fails and moves nothing.",
 ["inputs", "histories"], "all sequences of blocks of transfers and deployments among any accounts (self transfers, missing accounts, zero, exact and larger-than-balance amounts, amounts beyond 64 bits), from any genesis allocation",
 NOEX + "sequences of transfers between several accounts and assets.",
 [EX, AC], [("sub_balance/add_balance on the sender and receiver accounts", AC), ("stash/commit of the account contract's state", EX)],
 ["receipts of a block", "balances and nonces read back from the returned state root"])
prop("C02", "A failed transaction changes nothing but its sender's nonce",
 "When a transaction's receipt is a failure, the state after it is the state before it with only the sender's nonce advanced: no balance, account holding or asset registration it touched survives, and every effect of the other transactions of the block is kept. A transaction that succeeds has all of its effects.",
 ["inputs", "histories"], "all orders of succeeding and failing transactions within a block, for every point at which a transaction can fail (asset, balance, cycles, unsupported action)",
 NOEX + "mixed blocks; no existing test makes a transaction fail.",
 [EX, AD], [("revert() on Err, stash() on Ok around dispatch", EX), ("cache_map/stash_map", AD)], ["state read back from the returned root"])
prop("C03", "A sender's nonce counts exactly the transactions it had executed",
 "In the state a block produces, each account's nonce equals its nonce before the block plus the number of that account's transactions in the block, whether they succeeded or failed and wherever in the block they were. No other account's nonce moves.",
 ["inputs", "histories"], "all blocks, including a failing transaction last or directly after another one of the same sender, and senders without an account",
 NOEX + "nonces across a block and its commit.",
 [EX, AC], [("inc_nonce after each transaction", EX), ("find_or_create", AC)], ["nonces read back from the returned state root", "contract address of a later deployment"])
prop("C04", "The state root commits to the world state and is reproducible",
 "Executing the same transactions at the same height, price and coinbase from the same state root yields the same receipts and the same new root, on a fresh executor, another database or after reopening the database. Two roots are equal exactly when the world states (accounts, holdings, registered assets) are equal, and the state under every root ever returned stays readable and unchanged.",
 ["histories", "configurations"], "all forked or linear chains of blocks executed from any earlier root, repeated on other databases and after reopening",
 NOEX + "several roots, forks, or a database opened twice.",
 [EX, TR, "core/executor/src/trie/trie_db.rs"], [("commit of contract tries into the state trie", EX), ("MPTTrie", TR), ("RocksTrieDB", "core/executor/src/trie/trie_db.rs")], ["state roots", "state read back from every earlier root"])
prop("C05", "Fees: what receipts charge is what the block reports and the coinbase gets",
 "A receipt's fee is, in the transaction's fee asset, the cycles its operation costs times the block's price for a success and zero for a failure, and an operation costing more than the transaction's cycle limit fails. The block reports for each fee asset exactly the sum of its receipts' fees, and the state it returns credits exactly these sums to the coinbase.",
 ["inputs", "histories"], "all blocks mixing operations, limits at, below and above the cost, fee assets, prices (zero included) and coinbases (a sender, a receiver, a fresh account)",
 NOEX + "fees; cycle consumption, pricing and the coinbase credit are never asserted on.",
 [EX, "core/executor/src/cycles.rs"], [("consume_cycles", "core/executor/src/cycles.rs"), ("modify_all_cycles_used and coinbase credit before commit", EX)], ["receipts", "all_cycles_used", "coinbase balance in the returned state"])
prop("C06", "Executing a block always yields one receipt per transaction, in order",
 "For every list of correctly signed transactions, of any action and content, executing a block from a state root it produced itself returns a response: one receipt per transaction in block order, each carrying that transaction's hash, the block's height and the root of the state after the block. A transaction that cannot be applied yields a failure receipt and never aborts the node or the block.",
 ["inputs"], "all lists of transactions of any action (transfer, approve, deploy of any contract kind, call), including an empty list, unknown senders and unknown assets",
 NOEX + "all actions and senders.",
 [EX], [("dispatch and the Fail receipt", EX)], ["result of executing a block"])
prop("C07", "An asset, once registered, is unique, permanent and required for transfers",
 "A successful asset deployment registers one new asset whose identity is determined by the chain, the deployed code and the sender's nonce, and reports its contract address. A registered asset is never replaced or lost by any later block, a second registration of the same identity fails, and a transfer of an asset that is not registered fails.",
 ["inputs", "histories"], "all histories of deployments by several accounts with equal or different code and nonces, and transfers of registered and unregistered assets",
 NOEX + "two deployments with the same identity, or a registry after later blocks.",
 [EX, BK], [("register/get_asset", BK), ("ContractAddress::from_code", "protocol/src/types/primitive.rs")], ["deploy receipts", "assets read back from each root"])
prop("C08", "Genesis creates exactly the configured world, usable for the next block",
 "Executing a genesis configuration yields a root under which exactly the configured system token is registered and exactly the listed accounts exist with the listed balances (repeated listings add up) and nonce zero. Blocks can be executed from that root.",
 ["inputs", "configurations"], "all genesis configurations: no, one or several accounts, accounts listed twice or with no asset, user and contract addresses, zero and large balances",
 "create_genesis is not called by any existing test.",
 [EX], [("create_genesis", EX)], ["state read back from the genesis root", "executing blocks from it"])
prop("C09", "Staged contract state: revert, stash and commit do exactly what they say",
 "A read of contract state returns the most recent write that was not reverted. Reverting discards exactly the writes made since the last stash, committing makes exactly the stashed writes part of the returned root, and writes that are neither stashed nor committed are never visible under a root.",
 ["inputs", "histories"], "all sequences of writes, reads, reverts, stashes, commits and reopenings over any keys",
 "The tests cover one insert and one revert; they never interleave stash, revert, overwriting and commit.",
 [AD, TR], [("cache_map, stash_map, trie lookup order", AD)], ["reads through the adapter and from the committed root"], "re-export of the adapter under cfg(verif_hooks)")

# ---------------------------------------------------------------- storage
ST = "core/storage/src/lib.rs"; RK = "core/storage/src/adapter/rocks.rs"; MM = "core/storage/src/adapter/memory.rs"
NOST = "The storage tests insert one item into the memory adapter and read it back; "
prop("C10", "Stored data reads back exactly, by its own key and kind, also after restart",
 "After a successful insert, every transaction, receipt, block and the latest proof is read back under its own key with exactly the content stored last, whatever was stored under other keys or as another kind, and the same holds after the database is closed and reopened. A key never stored is reported as absent, and reading a batch of keys returns the stored ones in request order, leaving out those never stored.",
 ["inputs", "histories", "crash_points"], "all interleavings of inserts and reads of every kind, equal hashes across kinds, overwrites and reopenings, on the persistent and the in-memory backend",
 NOST + "they never mix kinds, reopen RocksDB or overwrite.",
 [ST, RK, MM], [("one column family per schema", RK), ("schema key/value encoding", ST)], ["every read of the storage interface"])
prop("C11", "The chain index agrees: latest, by height and by hash name the same blocks",
 "The latest block is the block stored last, each height returns the block stored last for it, and the hash of each block still stored at its height returns that same block. Storing another block never changes what another height or its block's hash returns, and no hash ever returns a block of a different hash.",
 ["histories"], "all histories of storing blocks of increasing, repeated and skipped heights, with reopenings",
 NOST + "they store a single block and read it by height only.",
 [ST], [("insert_epoch writing the block, hash and latest records", ST)], ["get_latest_epoch", "get_epoch_by_epoch_id", "get_epoch_by_hash"])
prop("C12", "A crash or I/O failure while storing leaves a readable, unchanged past",
 "If storing a block above the latest one (or the same block again) fails or the process dies at any write, then afterwards the latest block is either the previous one or the new one in full, and it is reachable by its height and by its hash. Everything stored before the failure is still read back exactly, a failed batch of transactions or receipts was stored as a whole or not at all, and repeating the store succeeds.",
 ["crash_points", "fault_sequences", "histories"], "a failure or stop after each write of each store operation, in every history of stores",
 NOST + "no test injects a failure or stops between two writes.",
 [ST, RK], [("order of the writes in insert_epoch", ST), ("WriteBatch", RK)], ["reads after the failed store"], None)

# ---------------------------------------------------------------- codecs, merkle
prop("C13", "A transaction's hash binds every field of its content",
 "The hash computed for a transaction depends on its content alone: equal contents have equal hashes, and changing any field of the content (chain, nonce, timeout, fee asset or amount, action and every field of the action) changes it. In particular a transaction's hash survives any trip over the wire or through storage.",
 ["inputs"], "all pairs of transactions that differ in exactly one field, for every action",
 "The tests round-trip random transactions of one or two actions; none compares two transactions that differ in one field.",
 ["protocol/src/fixed_codec/transaction.rs", "core/mempool/src/adapter/mod.rs"], [("canonical encoding hashed for the transaction hash", "protocol/src/fixed_codec/transaction.rs")], ["transaction hash"])
prop("C14", "Every object survives each encoding unchanged",
 "Encoding a transaction, receipt, block, proof, proposal, account, asset or genesis with each of the encodings the node uses for it (storage, peer messages, canonical) and decoding the result gives back the same object, for every variant. Two different objects of a kind never share an encoding.",
 ["inputs"], "all variants of every object (each action, each result, each contract kind, optional parts present or absent, empty lists, balances beyond 64 bits)",
 "The round-trip tests do not cover every variant: approve, library, app and native contracts and empty lists never appear.",
 ["protocol/src/codec", "protocol/src/fixed_codec"], [("ProtocolCodec (protobuf)", "protocol/src/codec"), ("ProtocolFixedCodec (RLP)", "protocol/src/fixed_codec")], ["decode(encode(x))"])
prop("C15", "Bytes from outside never crash the decoders",
 "Decoding any byte string, as any kind of object the node receives from peers or reads from disk, returns an object or an error and never aborts. Truncated, extended or altered encodings in particular are rejected or decode to some object.",
 ["inputs"], "all byte strings; explored from the encodings of every object by truncation, extension, byte change and swapping encodings between kinds",
 "The tests only decode what they have just encoded.",
 ["protocol/src/codec", "protocol/src/fixed_codec", "core/consensus/src/message.rs"], [("length and presence checks in the decoders", "protocol/src/fixed_codec")], ["result of decode"])
prop("C16", "A merkle proof verifies for its own leaf and position only",
 "The merkle root of a list depends on every element and on their order, and for every position the generated proof recomputes that root from that position's element. It fails to do so for any other element, and a position outside the list has no proof.",
 ["inputs"], "all list lengths (empty, one, odd, powers of two and others), every position and every substituted element",
 "common/merkle has no test.",
 ["common/merkle/src/lib.rs"], [("Merkle::from_hashes, get_root_hash, get_proof_by_input_index", "common/merkle/src/lib.rs")], ["root and proofs"])

# ---------------------------------------------------------------- mempool
MP = "core/mempool/src/lib.rs"; TC = "core/mempool/src/tx_cache.rs"; MA = "core/mempool/src/adapter/mod.rs"
NOMP = "The mempool tests (which the offline build cannot even compile) check a few fixed scenarios with random transactions; "
prop("C17", "The pool admits only valid, fresh, in-time transactions, each at most once",
 "A submitted transaction enters the pool if and only if its hash matches its content, its signature verifies under its key, it is for this chain, its timeout lies after the current height and within the configured gap, it has not been committed and is not already pooled, and the pool was below its capacity when it was submitted; otherwise the submission fails and the pool is unchanged. Flushed transactions do not count against the capacity. A transaction that a peer supplies for a proposal is held to the same conditions, except the capacity, and must be one of the requested.",
 ["inputs", "histories"], "all histories of submissions of valid, altered, duplicate, foreign, expired, too-distant and committed transactions, at every fill level, mixed with packaging and flushing",
 NOMP + "none covers the wrong-chain, timeout boundary and committed cases together with a changing height.",
 [MP, TC, MA], [("insert_tx", MP), ("check_transaction, check_signature", MA), ("TxCache::insert", TC)], ["result of insert", "contents of later packages"])
prop("C18", "Packages: in order, within limits, no duplicate, expired or flushed entry",
 "A package lists, in arrival order, only transactions that are in the pool and not past their timeout, each once across its order and propose parts, each part within the cycle limit. The order part is the longest run of them from the front that fits, passing over transactions that exceed the limit on their own; the propose part is the longest run after it, leaving out transactions learnt from other proposals. Packaging removes nothing that is still valid from the pool, also when insertions and flushes happen meanwhile.",
 ["inputs", "histories"], "all histories of insertions, packages with any limits, and flushes at any height",
 NOMP + "none mixes timeouts, repeated packaging, and flushing.",
 [TC], [("package over the queue with stages", TC)], ["result of package"])
prop("C19", "Flushed transactions are gone; all others can still be fetched",
 "After a commit flushes a set of transactions, none of them is packaged again, and every other pooled transaction that has not expired is still packaged and fetched. This also holds for a transaction that is submitted during the flush. Fetching returns exactly the requested transactions, unchanged and in the requested order, and fails if one of them is not available.",
 ["histories"], "all histories of insert, flush, package and fetch, with flushes of pooled, unknown and repeated hashes",
 NOMP + "flush is tested once with half of the pool.",
 [MP, TC], [("flush and process_omission_txs", TC), ("get_full_txs", MP)], ["packages and fetches after a flush"])
prop("C20", "A node that accepts a proposal's order has every transaction in it",
 "When checking the availability of a proposal's transactions succeeds, every one of them is afterwards available locally, including those a peer supplied, which are taken only if they are the requested ones and would have been admitted if submitted. When some cannot be obtained the check fails; when all can it succeeds.",
 ["inputs", "fault_sequences"], "all splits of the proposed hashes into pooled, proposed, obtainable and missing ones, with peers that answer fully, partly, wrongly or not at all",
 NOMP + "the peer always answers with exactly the requested transactions.",
 [MP], [("ensure_order_txs, sync_propose_txs", MP)], ["result of the check and later fetches"])

prop("C21", "Every transaction a user submits is announced to the network once",
 "A transaction admitted from a user is handed to the network for announcement to the peers exactly once, unchanged, at the latest when the next announcement interval ends. A transaction that came from the network, or was refused, is not announced. A failed announcement does not make a submission fail.",
 ["histories", "fault_sequences"], "all histories of submissions from users and peers and of intervals, with any batch size, and with a network that refuses messages",
 NOMP + "the broadcaster is tested alone, with one batch.",
 [MA, MP], [("IntervalTxsBroadcaster, broadcast_tx", MA), ("insert", MP), ("NewTxsHandler", "core/mempool/src/adapter/message.rs")], ["messages given to the network"])

# ---------------------------------------------------------------- consensus
EN = "core/consensus/src/engine.rs"; CS = "core/consensus/src/consensus.rs"; CA = "core/consensus/src/adapter.rs"
NOCS = "core/consensus has no test. "
prop("C22", "A proposed block extends the committed chain by what was actually executed",
 "The block a node proposes for the next height names the hash of the last committed block and carries the proof that block was committed with, the state root and receipt root of executing that block and the order root of its transactions as confirm root, an order root over exactly the pooled transactions it lists, this chain's id, its validators and this node as proposer - after any history of commits, synchronizations and restarts. For any other height nothing is proposed.",
 ["histories"], "all histories of proposals and commits",
 NOCS, [EN], [("get_epoch", EN), ("CurrentConsensusStatus", EN)], ["proposed block"])
prop("C23", "Committing appends exactly the agreed block and executes it once",
 "Committing the decided block of the next height stores it at its height with its proof, executes exactly its transactions in its order from the last state, stores these and their receipts, removes them from the pool, announces the new height (whether or not the announcement gets through) and makes the next proposal build on it. A block of any other height, one already synchronized, or one whose transactions the pool does not have is refused and leaves chain and state as they are.",
 ["histories"], "all sequences of decided blocks, with own and foreign proposers",
 NOCS, [EN], [("commit", EN)], ["calls into storage, executor and pool", "status sent to the consensus process"])
prop("C24", "A failure or crash in a commit never loses or repeats a block",
 "If a commit or synchronization stops at any step, the stored chain afterwards consists of the previous blocks in full, and a block is the latest only after its transactions and receipts have been stored. A commit that failed can be repeated, and a restarted node continues from exactly the chain it has stored, by commits, checks of proposals and synchronization as if it had never stopped.",
 ["crash_points", "fault_sequences"], "a failure or crash at each write of a commit or synchronization, in every history of these",
 NOCS, [EN, CA], [("order of the steps of commit", EN)], ["order and content of the writes"])
prop("C25", "A lagging node catches up to exactly the announced chain",
 "A node told of a height more than one block ahead fetches the missing blocks in height order, executes each from the state its predecessor produced, stores each with its transactions and receipts, removes them from the pool, and ends at the announced height, reported to the consensus process, with the same chain and state as a node that committed these blocks. If a block or transaction cannot be fetched, is not the one asked for, or does not extend the local chain, it stops there with all it has stored before unchanged; an announcement of a lower or the next height, or a malformed one, does nothing. Commits and synchronizations do not overlap.",
 ["histories", "fault_sequences"], "all gaps, repeated and outdated announcements, and peers failing or answering wrongly at any step",
 NOCS, [CS], [("update_epoch and its sync loop", CS)], ["calls into storage, executor and network"])
prop("C26", "A proposal that contradicts the local chain is voted down",
 "A received proposal passes the check exactly if it is for the height being decided and this chain, names the hash of the last committed block, has the order root of the transactions it lists, each listed once, has the confirm, state and receipt roots this node's own execution produced, and its transactions are in the pool or can be obtained from peers, not being committed already. The check returns exactly its transactions, in its order.",
 ["inputs", "histories"], "all proposals that differ from an acceptable one in one field, at any point of a history",
 NOCS, [EN], [("check_epoch", EN)], ["result of the check"])
prop("C29", "Consensus messages pass unchanged, and signatures name their signer",
 "Proposals and aggregated votes the consensus process sends go to everyone, votes to exactly the given node; each arrives at the receiver's consensus process once, as what was sent, by the handler of its own endpoint. Bytes that are not such a message are refused without any effect or crash. A hash signed by the node verifies as signed by exactly its address, and no other signature or hash does. The validators given for a committed height are those of its block.",
 ["inputs", "histories"], "all kinds of messages in both directions, with arbitrary content, malformed bytes, truncated and altered signatures",
 NOCS, ["core/consensus/src/message.rs", "core/consensus/src/util.rs", CS, EN, CA], [("message handlers", "core/consensus/src/message.rs"), ("OverlordCrypto", "core/consensus/src/util.rs"), ("transmit_to_relayer and broadcast_to_other", EN)], ["messages handed to the consensus process and to the network"])

# ---------------------------------------------------------------- network
NP = "core/network/src/peer_manager/mod.rs"
NONW = "core/network has tests for endpoint parsing and protocol ids only (the gossip test needs sockets and is not run); "
prop("C27", "A message reaches exactly the handler of its endpoint, with content and sender",
 "Every message received for an endpoint (scheme, name and method; for a call also its call id) invokes the handler registered for that exact endpoint once, with the content sent, the sending session and the call id. A message for an endpoint without handler, with an invalid endpoint, or whose content does not decode, reaches no handler and does not disturb the handling of others. Only valid endpoints of the right scheme can be registered.",
 ["inputs", "histories", "schedules"], "all sets of registered endpoints (similar names, shared prefixes) and sequences of well-formed and malformed messages from several sessions, in every order of handling",
 NONW + "none routes a message.",
 ["core/network/src/reactor/mod.rs", "core/network/src/reactor/router.rs", "core/network/src/endpoint.rs", "core/network/src/message/mod.rs", "core/network/src/compression.rs"], [("MessageRouter and Reactor", "core/network/src/reactor")], ["handler invocations"], "re-export under cfg(verif_hooks)")
prop("C28", "An RPC caller gets its own answer, once, or an error",
 "An RPC response is delivered to exactly the call it answers: the one made to that session with that call id, never to another call or session and never twice; a call whose answer is not of the expected type gets an error, a call whose request cannot be sent fails at once, and a response no call waits for changes nothing. Concurrent calls to a session have different call ids. A handler's response goes to the session and call id of the request.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of concurrent calls to several peers, answers in any order, duplicated, late, of the wrong kind or from the wrong session, abandoned calls, and failing sends",
 NONW + "rpc calls are not tested.",
 ["core/network/src/rpc_map.rs", "core/network/src/outbound/rpc.rs", "core/network/src/reactor/mod.rs"], [("RpcMap keyed by session and call id", "core/network/src/rpc_map.rs")], ["results of calls"], "re-export under cfg(verif_hooks)")
prop("C30", "Peer bookkeeping: connected exactly while a kept session is open",
 "After any sequence of connection events a peer counts as connected, and is sent multicasts over its session, exactly while its session is open and it was not dropped; a dropped peer's session is closed, as is one that ran into a timeout or transport error. The peer manager dials nobody on its own when the limit (connected peers and known peers being dialed) is reached, never dials more peers than there is room for, and survives late reports about dropped peers and malformed addresses.",
 ["histories", "schedules"], "all orders of session opened/closed, repeated, blocked, protocol error, timeout, misbehaviour, identified, discovered and late events for several peers and sessions",
 NONW + "the peer manager has no test.",
 [NP, "core/network/src/peer_manager/peer.rs", "core/network/src/connection/keeper.rs", "core/network/src/protocols/ping.rs"], [("PeerManager event handling", NP), ("translation of transport events", "core/network/src/connection/keeper.rs")], ["commands the peer manager gives the transport, sessions a message to all users is sent to"], "re-export under cfg(verif_hooks)")
prop("C31", "Lost peers are retried with backoff and kept; only bad ones are dropped",
 "A known peer that is not connected is dialed again, on all its addresses, as soon as it may and there is room: at once after losing a session that lasted, after a delay growing fivefold with each failure in a row otherwise; failures of attempts within 4 seconds count once, and a sign of life resets the count. It is never dialed by the routine while connected or being dialed, and a failed dial ends its being dialed. Only a peer that failed 6 times in a row or broke the protocol is dropped; configured bootstrap peers and addresses never are. A discovered address of nobody known is dialed until it is refused or timed out 6 times.",
 ["histories", "fault_sequences"], "all sequences of connection failures, retries, timeouts and successes over several peers and any passing of time",
 NONW + "retry handling has no test.",
 [NP, "core/network/src/peer_manager/peer.rs"], [("retry bookkeeping", "core/network/src/peer_manager/peer.rs"), ("the routine in PeerManager::poll", NP)], ["dial commands and known addresses"], "re-export under cfg(verif_hooks)")
prop("C32", "Sending reaches exactly the named peers and reports the unreachable",
 "A multicast to user addresses is handed to exactly the sessions of the named users that are connected, with endpoint, content and priority unchanged; the sender is told which named users are not connected, and the known ones among them are dialed. A broadcast goes to all sessions. A message that cannot be sent is an error.",
 ["inputs", "histories"], "all sets of users, connected, unconnected and unknown, and priorities, at every point of a connection history",
 NONW + "none sends.", [NP, "core/network/src/outbound/gossip.rs", "core/network/src/connection/control.rs"], [("route_multi_users_message", NP), ("NetworkGossip", "core/network/src/outbound/gossip.rs")], ["messages handed to the transport", "results of sends"], "re-export under cfg(verif_hooks)")
prop("C33", "Known peers and their addresses survive a restart",
 "A node that is stopped and started again knows exactly the peers and addresses it knew, with nobody connected and no retry put off, and dials them; only a configured bootstrap peer starts afresh, with its configured address, which is dialed at once. When the peer file is missing or damaged the node starts with the configured peers only, and a node that was killed starts with what was last saved.",
 ["histories", "crash_points"], "all histories of connections, discoveries and failures before an orderly stop, a kill, or damage of the file at any point",
 NONW + "persistence has no test.",
 ["core/network/src/peer_manager/persist.rs", NP, "core/network/src/peer_manager/peer.rs"], [("PeerPersistence", "core/network/src/peer_manager/persist.rs"), ("load_peers and bootstrap", NP)], ["known addresses and dial commands after the restart"], "re-export under cfg(verif_hooks)")

PT = "protocol/src/types/primitive.rs"; AP = "core/api/src/lib.rs"
prop("C34", "A name means one value: hashes, addresses and contract addresses",
 "A text or byte string is read as a hash, user address or contract address exactly if it has that kind's length and leading byte (hexadecimal digits, at most one 0x before them); anything else is an error, never a crash and never another value. What is read shows as the same value again, and no name is of two kinds. A digest is always 32 bytes of Keccak-256, an account's address follows from its public key alone, and a contract's address from its kind, code and its owner's nonce, different for different ones of these.",
 ["inputs"], "all texts and byte strings of every length, digit case, prefix and leading byte, and all contents, public keys, codes and nonces",
 "The unit tests read three well-formed names; none reads a malformed one or compares the addresses of two contracts.",
 [PT], [("Hash and address constructors", PT), ("ContractAddress::from_code", PT), ("clean_0x", PT)],
 ["the value or error each constructor returns", "text and bytes shown for it"])
prop("C35", "The API answers from the named block and submits what was asked",
 "getLatestEpoch and getBalance answer from the block of the height that was named, or the latest one if none was, with that block's header and the balance of that account and asset in its state; a malformed argument or a missing block is answered with an error (a balance at a missing block possibly with zero), never with another block's data. A request to send a transaction puts into the pool exactly one transaction with exactly the fields, action and signature that were given, or that follow from the given key, and answers with its hash; a request that is malformed or that the pool refuses is answered with an error, and a malformed one puts nothing into the pool.",
 ["inputs", "histories"], "all stored chains and all requests, each argument well formed or malformed, for every kind of action and both ways to sign",
 "The API has no test at all.",
 [AP, "core/api/src/adapter/mod.rs", "core/api/src/schema/mod.rs", "core/api/src/schema/transaction.rs"],
 [("Query and Mutation", AP), ("DefaultAPIAdapter", "core/api/src/adapter/mod.rs"), ("argument conversion", "core/api/src/schema/transaction.rs")],
 ["answers of the root methods", "transactions handed to the pool"])

prop("C36", "Messages between nodes arrive as sent; malformed ones are errors",
 "Every message the nodes exchange (transactions pushed and hashes asked for by the pools, proposals, votes and certificates, announced heights, requests for blocks and transactions and the answers to them, proposals with the hashes they propose) is decoded from its bytes to exactly the message that was encoded, whatever it contains and however many elements; different messages of a kind have different bytes. Bytes that are no message, however they were truncated, altered or extended, are an error or a message that itself passes unchanged, and never crash the receiver.",
 ["inputs"], "all messages of every kind with every content, empty and long lists included, and all alterations of their bytes",
 "The tests encode lists of equal-shaped random transactions and one block; none decodes altered bytes.",
 ["protocol/src/traits/network.rs", "core/network/src/message/serde_multi.rs", "core/network/src/message/serde.rs", "core/consensus/src/fixed_types.rs", "core/consensus/src/message.rs", "core/mempool/src/adapter/message.rs"],
 [("MessageCodec", "protocol/src/traits/network.rs"), ("serde_multi", "core/network/src/message/serde_multi.rs"), ("ConsensusRpcResponse", "core/consensus/src/fixed_types.rs")],
 ["bytes of a message", "what decoding yields"])

MAIN = "src/main.rs"
prop("C37", "Nodes of one network have one ledger, whoever is killed or joins late",
 "Nodes that run the program with the same genesis and configuration form one ledger. A well-formed transaction that any running node accepts is committed once, as long as that node keeps running; every other running, connected node hears of it. Every running, connected node, whether it took part, started late, or was killed at any moment and started again, comes to have the same blocks at the same heights and the same balances at each height, and these are the ones that executing the blocks in order from genesis gives. A node that was killed has, when it starts again, every block it had committed, and no others.",
 ["inputs", "schedules", "crash_points", "histories"], "all networks of nodes that know each other, all transactions handed to any of them, all orders of proposals, and all moments at which nodes are killed and started",
 "No test starts a node, let alone two; main.rs, which wires the parts together, is compiled by no test at all.",
 [MAIN, "core/consensus/src/consensus.rs", "core/consensus/src/engine.rs", "core/mempool/src/lib.rs", "core/storage/src/lib.rs", "core/executor/src/executor.rs", "core/network/src/service.rs"],
 [("start", MAIN), ("consensus synchronization", "core/consensus/src/consensus.rs"), ("gossip and pull of transactions", "core/mempool/src/adapter/mod.rs"), ("commit of an epoch", "core/consensus/src/engine.rs")],
 ["answers of each node's API about blocks and balances", "blocks each node proposes and votes for"], "none: whole programs are run; the consensus library and other dependencies that are not there are stood in for (DESIGN.md)")

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
