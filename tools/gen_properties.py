#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = state
    P.append(d)

p("F01", "Shard tip follows the root-chain-first fork choice",
  "However shard blocks and root blocks arrive (any order of deliverable blocks, forks, duplicates, late side branches), a shard's root tip is the first-seen root block of greatest total difficulty, and its head always descends from the last shard block confirmed by that root tip and depends only on root blocks of the root tip's chain. A delivered shard block becomes the head exactly when it depends on the current root chain and either extends the head, or descends from the confirmed block and is higher than the head, or ties its height while depending on a higher root block. A root block that becomes the root tip moves the head to the confirmed block if the head does not descend from it and then back to the nearest ancestor that depends on the new root chain.",
  ["histories", "inputs"], "every tree of shard and root blocks and every delivery order, including duplicates and blocks that do not become canonical",
  "Unit tests replay a handful of fixed fork scenarios; the rule has to hold for every interleaving of minor-block and root-block arrivals over every block tree.",
  ["core/minorblockchain.go", "core/minorblockchain_addon.go"],
  [("fork choice for a new shard block", "core/minorblockchain_addon.go:updateTip"), ("root block adoption and rewind", "core/minorblockchain_addon.go:AddRootBlock")],
  ["current block, root tip and confirmed tip of the shard chain after every delivery"])
p("F02", "Shard canonical indexes describe exactly the chain ending at the head",
  "After any history of block deliveries, fork switches and root-chain reorganisations, looking a shard block up by height returns exactly the head's ancestor at that height (and nothing above the head), looking a transaction up by hash returns a block if and only if that transaction is in the head's ancestry and then names that block and position, and the account state served at the head is the state that the head's own block commits to. Receipts returned for a transaction are those of the block that is canonical.",
  ["histories", "inputs"], "every block tree with transactions that may be repeated on several branches, every delivery order",
  "A stale index entry only shows after specific reorganisations (same transaction on both branches, a shorter new chain, a root-driven rewind) that a fixed test list does not enumerate.",
  ["core/minorblockchain.go", "core/minorblockchain_addon.go", "core/rawdb/accessors_indexes.go"],
  [("shard chain reorganisation", "core/minorblockchain.go:reorg"), ("transaction index maintenance", "core/minorblockchain_addon.go:putTxIndexFromBlock"), ("rewind", "core/minorblockchain.go:setHead")],
  ["lookup by height / by transaction hash / receipts / state at head"])
p("F03", "Root head is the heaviest known root chain and its indexes match it",
  "Whatever order valid root blocks arrive in, the root head is a block of maximal total difficulty among the root blocks accepted so far (the earlier-accepted one on ties of difficulty and height), lookup by height returns exactly the head's ancestors and nothing above the head, and the latest confirmed shard header recorded for each root block is the one its own ancestry confirms. Delivering a block again, or one whose parent is unknown, changes nothing.",
  ["histories", "inputs"], "every tree of root blocks with arbitrary difficulties and confirmed shard headers, every delivery order",
  "Longest versus heaviest, shorter-but-heavier switches, ties and repeated deliveries are combinatorial; tests sample a few.",
  ["core/rootblockchain.go", "core/rootblock_validator.go"],
  [("root fork choice", "core/rootblockchain.go:WriteBlockWithState"), ("root reorganisation", "core/rootblockchain.go:reorg"), ("latest shard headers per root block", "core/rootblockchain.go:GetLatestMinorBlockHeaders")],
  ["current root block, lookup by height, latest confirmed headers"])
p("V01", "Root blocks are accepted only with a valid list of confirmed shard headers",
  "A root block is accepted if and only if its header is well formed for its parent (height, increasing time, total difficulty sum, header-list commitment, reward amount) and every listed shard header was validated by this cluster, lists are grouped by shard in increasing order, each shard's headers continue its last header confirmed on that very root branch without gap or repetition, respect the per-root-block limit and the root block's time, and depend only on root blocks of the same branch. A rejected root block leaves head, confirmed headers and later acceptance of valid blocks unchanged.",
  ["inputs", "histories"], "every root block over every reachable root/shard block tree, including each single-rule violation",
  "The rejection rules have to be complete for every malformed block on every branch, not for the few malformed blocks a test builds on a linear chain.",
  ["core/rootblock_validator.go", "core/rootblockchain.go"],
  [("root block validation", "core/rootblock_validator.go:ValidateBlock"), ("reward computation", "core/rootblockchain.go:CalculateRootBlockCoinBase")],
  ["accept/reject result and head after every delivery"])
p("V02", "A shard block that breaks any protocol rule is rejected without effect",
  "A shard block is accepted only if its header and meta fields follow from its parent and its own content: height, branch, increasing and not-future time, body and meta commitments, gas limits, executable transactions, gas used, receipt, bloom, state root, cross-shard cursor, reward, root-block dependency (known, non-decreasing, on one chain and consistent with the confirmed block). Changing any one of those makes it rejected, and a rejected block leaves head, state, indexes and the ability to accept the correct block unchanged.",
  ["inputs", "histories"], "every shard block reachable in the block tree crossed with every single-field deviation",
  "A missing or weakened rule is only visible for a block deviating exactly there, on a branch where later rules do not mask it.",
  ["core/minorblock_validator.go", "core/minorblockchain.go", "core/state_processor.go"],
  [("block validation", "core/minorblock_validator.go:ValidateBlock"), ("post-state validation", "core/minorblock_validator.go:ValidateState")],
  ["accept/reject result, head, state"])
p("X01", "Cross-shard transfers arrive exactly once, in order, after root confirmation",
  "Every cross-shard transfer included in a shard block is credited on the destination shard exactly once along any one chain of that shard: not before a root block confirming the sending block is referenced, in the order root blocks, then listed shard headers, then transfers within a block, and never skipped or repeated however the receiving work is split over blocks by the gas limit or interrupted by forks. Root-block rewards are credited on the shard they are addressed to by the same rule, and each block's recorded receive cursor is the position reached.",
  ["histories", "inputs"], "every sequence of transfers, root confirmations, block boundaries, gas limits and forks over the shards of a cluster",
  "Exactly-once across forks and partial progress depends on cursor arithmetic at list, block and root-block boundaries; tests visit single boundaries only.",
  ["core/xshard_tx_cursor.go", "core/minorblockchain_addon.go", "core/state_processor.go"],
  [("receive cursor", "core/xshard_tx_cursor.go:getNextTx"), ("running received transfers", "core/minorblockchain_addon.go:RunCrossShardTxWithCursor")],
  ["balances on all shards and cursor after every block"])
p("L01", "Value is conserved: only block rewards create it, only defined burns destroy it",
  "Across all shards and transfers in flight, for every token, the sum of balances changes in a block only by the protocol's block reward and the defined burns; each transaction moves exactly its value plus gas used times gas price out of the sender, the miner's share and the taxed share of the fee follow the configured rate, a fee paid in another token moves native tokens from that token's reserve at the reserve's rate and the unused part returns as the reserve says, wherever the transaction finishes, nonces increase by exactly one, and a failed transaction moves nothing but its fee. No balance ever becomes negative.",
  ["histories", "inputs"], "every history of in-shard and cross-shard transfers, contract calls, failures, tokens and gas prices",
  "Conservation is a global sum over all accounts, shards and in-flight lists for every history; tests compare single balances.",
  ["core/state_transition.go", "core/state_processor.go", "core/minorblockchain_addon.go"],
  [("transaction application and fee split", "core/state_transition.go:TransitionDb"), ("cross-shard deposit application", "core/state_processor.go:ApplyCrossShardDeposit")],
  ["balances of all accounts after every block"])
p("S01", "State rollback, commit, copy and reopen preserve exactly the right values",
  "For every sequence of balance (any number of tokens), nonce, code and storage updates, account creation and destruction, snapshots, rollbacks, transaction ends and commits: reading returns the last value not rolled back, rolling back to a snapshot restores every value as it was at the snapshot, a committed state reopened from its root (also from disk, after the in-memory cache is gone) reads back exactly what was committed, the root does not depend on work that was rolled back, and a copy evolves independently of its original.",
  ["histories", "crash_points"], "every sequence of state operations over accounts, tokens and storage slots, with any nesting of snapshots",
  "Errors appear only for particular combinations, such as a rollback after crossing the number of tokens at which balances move to their own tree.",
  ["core/state/statedb.go", "core/state/state_object.go", "core/state/journal.go", "core/types/token.go"],
  [("journal and rollback", "core/state/journal.go:revert"), ("token balances", "core/types/token.go"), ("commit", "core/state/statedb.go:Commit")],
  ["all readable values, state root"])
p("W01", "Staked-mining discount and stake lock follow the sliding window",
  "With staked mining enabled, a block's required difficulty is divided by the configured divisor exactly when its producer made fewer blocks in the preceding window along that block's own ancestry than its stake at the parent state allows, on every branch and in any query order. A producer of blocks within the window cannot spend or send away the balance those blocks lock: a transfer that would leave less than the locked amount fails and is charged its gas only.",
  ["histories", "inputs"], "every chain and fork of producers, stakes, window sizes and transfers; every order in which branches are queried",
  "Window contents are cached per parent; errors show only at window edges, after reorganisations or for particular query orders.",
  ["consensus/posw/posw.go", "core/minorblockchain.go", "core/state_processor.go"],
  [("window counting and cache", "consensus/posw/posw.go"), ("spend lock", "core/state_transition.go:transferFailureByPoSWBalanceCheck")],
  ["effective difficulty per block, transaction status"])
p("T01", "The transaction pool offers exactly the executable transactions",
  "For any sequence of submissions, replacements, new heads and reorganisations, the pool's executable set holds for each account a gap-free nonce run starting at the account's next nonce at the head, never two transactions for one nonce and none the account cannot pay for in its tokens; a replacement needs the required price increase; later-nonce transactions wait and become executable when the gap closes; transactions included in the head's chain leave and those dropped by a reorganisation return, whichever kind of block changed the head. The result returned for each submitted transaction is its own; what becomes executable is announced. A block built from the pool is valid on its parent and takes for each account a prefix of its executable run.",
  ["histories", "schedules", "inputs"], "every history of submissions (single and batched), block inclusions and reorganisations",
  "Pool state is a function of the entire history; tests check fixed sequences.",
  ["core/tx_pool.go", "core/tx_list.go", "core/tx_noncer.go"],
  [("add/promote/demote", "core/tx_pool.go"), ("reset on head change", "core/tx_pool.go:reset")],
  ["pending and queued content, per-transaction result"])
p("C01", "Shard blocks are published only after their cross-shard lists are delivered",
  "When a shard takes in a new block (mined, relayed or synchronised in a batch), every other shard's host that must know its outgoing transfers has received them and then the master has received its header before the block counts as committed by the call and before its tip is announced to the network; if a delivery fails the call fails, nothing is announced, and repeating the call later completes the missing deliveries. A block whose processing is still in progress is not processed twice.",
  ["fault_sequences", "schedules", "histories"], "every sequence of blocks with any pattern of delivery failures and retries",
  "Ordering and retry behaviour depends on which delivery fails at which block; tests use connections that always succeed.",
  ["cluster/shard/api_backend.go", "cluster/shard/shard.go"],
  [("single block intake", "cluster/shard/api_backend.go:AddMinorBlock"), ("batch intake", "cluster/shard/api_backend.go:AddBlockListForSync")],
  ["order and content of calls on the cluster connections, call results"])
p("R01", "A shard restarted after a crash at any write recovers a consistent chain",
  "If the process dies between any two database writes while a shard processes blocks and root blocks, reopening the database succeeds and yields a head that was the head before or after the interrupted operation (or an ancestor of it that the root chain requires), with all its ancestors, state, height and transaction indexes present and consistent; no block or root block taken in before the interrupted operation is lost; once the shard is started again at its master's root head it stands on a block consistent with that root head; and delivering the rest (and the interrupted operation again) brings it to the same head and state as a node that never crashed. The same holds for a crash during the first start and for a second crash while recovering.",
  ["crash_points", "histories"], "every write position in every history of block and root-block deliveries, including reorganisations",
  "A crash window is a single write boundary in one operation of one history; tests do not crash.",
  ["core/minorblockchain.go", "core/minorblockchain_addon.go", "core/genesis.go"],
  [("block write order", "core/minorblockchain.go:WriteBlockWithState"), ("restart", "core/minorblockchain_addon.go:InitFromRootBlock")],
  ["reopened chain: head, indexes, state, catch-up result"])
p("R02", "A root chain restarted after a crash at any write recovers a consistent chain",
  "If the process dies between any two database writes while the root chain processes blocks, reopening the database succeeds with a head that was the head before or after the interrupted operation, complete ancestry and height index, and confirmed-header records for every block it knows; no root block accepted before is lost; a root block whose distribution to the shards was in progress is still recorded as being in progress. Delivering the rest (and the interrupted block again) reaches the same head and records as an uninterrupted node. The same holds for a crash during the first start.",
  ["crash_points", "histories"], "every write position in every history of root-block deliveries",
  "A crash window is a single write boundary in one operation of one history; tests do not crash.",
  ["core/rootblockchain.go", "cluster/master/backend.go"],
  [("root block write order", "core/rootblockchain.go:WriteBlockWithState"), ("in-progress marker", "core/rootblockchain.go:WriteCommittingHash")],
  ["reopened chain: head, indexes, confirmed headers"])
p("Y01", "Synchronising from any peer is safe, and from an honest peer it completes",
  "Whatever a peer answers while being synchronised from, the attempt ends and nothing crashes. An answer whose headers or blocks are missing, too few or too many, outside the requested range, unlinked, badly sealed, or not the ones asked for, or a chain that is not heavier than advertised, ends the attempt with an error, and nothing of that answer is added; what was added links to an already known block, parents first, and a root block is added only after the shard blocks it confirms were downloaded. With an honest peer whose chain is heavier, the attempt ends at the advertised tip whenever the common ancestor is within the allowed staleness, and beyond it ends with an error. Of the waiting tasks the one with the highest priority runs next, one at a time, and only the newest task of a peer waits.",
  ["fault_sequences", "inputs", "schedules"], "every local/peer chain pair, every sequence of peer responses, and every arrival order of tasks",
  "Peer behaviour is adversarial: the set of response sequences is unbounded and tests use one well-behaved mock.",
  ["cluster/sync/task.go", "cluster/sync/root_task.go", "cluster/sync/minor_task.go", "cluster/sync/sync.go"],
  [("ancestor search", "cluster/sync/root_task.go:findAncestor"), ("download loop", "cluster/sync/task.go:Run"), ("task scheduling", "cluster/sync/sync.go:loop")],
  ["blocks handed to the chain, their order, the task's result"])
p("P01", "Peers are answered from the canonical chain, forwarded faithfully, and dropped when they break the rules",
  "Whatever messages connected peers send, in any order, the master neither crashes nor stops serving the others. A request for root headers (by height or hash, with step, direction and limit) is answered with exactly the canonical headers it names and the current tip, one for ancestors with the stored ancestors, one for blocks with the known ones among them in order; a request for shard data is answered with what a host of that shard returns. A root tip announced by a peer is accepted unless its total difficulty is below, or equal with another hash than, the one that peer announced before, and when it is higher than the local head a synchronisation task for it is queued; shard tips follow the same rule per shard (and with the same root header may not go back). Accepted shard tips, shard blocks and transactions reach exactly the hosts of that shard, unchanged and with the sender's id. A new local head or shard tip is announced exactly to the peers not known to have one as high, a relayed block or transaction to every peer but its source. What a peer answers to this node's own request comes back as sent; an answer of another kind is an error, repeated answers are ignored. A peer that greets with another network, version or genesis, or breaks these rules, or whose request cannot be served, is disconnected; others stay connected.",
  ["histories", "inputs", "schedules"], "every sequence of messages (well-formed or not) of several peers interleaved with chain growth, reorganisations and this node's own requests",
  "Peers are adversarial and sessions are histories: unit tests send one well-formed message at a time.",
  ["cluster/master/handle.go", "cluster/master/peer.go", "cluster/master/p2papi.go", "p2p/p2p_commands.go", "p2p/decode.go"],
  [("session loop", "cluster/master/handle.go:handle"), ("dispatch", "cluster/master/handle.go:handleMsg"), ("handshake", "cluster/master/peer.go:readStatus"), ("announcements", "cluster/master/p2papi.go:BroadcastNewTip")],
  ["answers, announcements and relays each peer receives, calls to the hosts, queued tasks, which sessions end"])
p("G01", "Remote mining accepts exactly solved, current, issued work",
  "While mining is enabled and the node is not synchronising, a submitted solution is accepted if and only if it answers work this node issued and has neither replaced by newer work for the same address nor withdrawn because of a newer tip, whose height is not 7 or more below the work issued last, and its nonce meets that work's required difficulty (for a signed solution of work whose difficulty the stake rule has not already adjusted: a thousandth if the guardian signed, else divided by the work's divider); an accepted solution yields exactly the issued block completed with that solution. Work handed out for an address is the latest work issued for that address (also when the same block is issued again), and rejected submissions change nothing.",
  ["histories", "inputs"], "every sequence of work issue, fetch, tip change and correct or incorrect submission for several miner addresses",
  "Staleness, overwriting by another address and signature-based reductions interact over histories; tests submit one solution.",
  ["consensus/remote.go", "consensus/consensus.go"],
  [("remote sealer loop", "consensus/remote.go:remote"), ("work table", "consensus/remote.go:currentWorks")],
  ["fetch and submit results, delivered blocks"])
p("M01", "The mining loop never stalls",
  "However starting and stopping of mining, new tips, synchronisation phases, block-creation failures, sealing failures and failed insertions interleave, every control call on the miner returns, and whenever mining is enabled, the node is not synchronising, is in contact with its master and block creation succeeds, work on the current tip is eventually sealed.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of miner control calls, tip changes and failures",
  "Deadlocks need a specific interleaving of the control calls with the miner's internal loops; tests run one order.",
  ["cluster/miner/miner.go"],
  [("commit/seal/result loops", "cluster/miner/miner.go"), ("control calls", "cluster/miner/miner.go:SetMining, HandleNewTip")],
  ["return of each call, sealing requests"])
p("A01", "Every address belongs to exactly one shard and all parts agree which",
  "For every cluster configuration (chains with any power-of-two shard counts) and every address key, exactly one configured shard contains it; the configuration lookup, the branch membership test, the transaction's source and destination shard and the re-homing of an address into a branch all agree on it; re-homing preserves the recipient and lands in the branch; the neighbour relation between shards is symmetric.",
  ["inputs", "configurations"], "every configuration of chains and shard sizes and every 32-bit key",
  "Bit-level routing must be total and unambiguous for all keys and configurations, not the sampled ones.",
  ["account/branch.go", "account/address.go", "account/neighbor.go", "cluster/config/cluster_config.go", "core/types/transaction.go"],
  [("branch membership", "account/branch.go:IsInBranch"), ("key to shard lookup", "cluster/config/cluster_config.go:GetFullShardIdByFullShardKey")],
  ["results of all lookups for each key"])
p("E01", "Wire encoding round-trips exactly and malformed input is refused",
  "Encoding any message value and decoding it gives the same value and consumes exactly the encoded bytes; encodings are the protocol's fixed layout, so that equal values give equal bytes and every truncation of an encoding is refused with an error; no input bytes make decoding panic or read beyond the input.",
  ["inputs"], "every value of the wire types within bounds and every truncation or byte change of its encoding",
  "Totality over all byte strings and all values cannot be sampled by a few fixtures.",
  ["serialize/serializer.go", "serialize/deserializer.go", "serialize/bytebuffer.go", "core/types"],
  [("reflection encoder", "serialize/serializer.go"), ("decoder", "serialize/deserializer.go")],
  ["encoded bytes, decoded values, errors"])
p("D01", "Difficulty and rewards are exact functions of the ancestry",
  "The required difficulty of a block is the stated function of its parent's difficulty and the time between them, never below the configured minimum, equal on the mining and the validating side; the block reward and its per-epoch decay, the root reward including the shards' share, and the boosted staking divisor are the stated functions of height and time. Every node computes the same values for the same ancestry regardless of what it computed before.",
  ["inputs", "histories", "configurations"], "every parent difficulty, time difference, height, configuration and query order",
  "Rounding, clamping and epoch boundaries need exact values at every boundary, in any query order through the caches.",
  ["consensus/difficulty.go", "core/minorblockchain_addon.go", "core/rootblockchain.go", "cluster/config/config.go"],
  [("difficulty", "consensus/difficulty.go:CalculateDifficulty"), ("reward decay", "core/minorblockchain_addon.go:getCoinbaseAmount")],
  ["computed difficulties and amounts"])
p("N01", "Native tokens are created, moved and observed only as the protocol allows",
  "New units of a native token come into existence only when the designated system contract calls the mint operation after its activation time, for a token id in range (larger ids, also those above 64 bits, are refused) that is not the default token. A token transfer through the transfer operation moves exactly the named amount of the named token from the caller that runs it, needs that balance, and rolls back entirely on failure. Minting, transferring and deploying system contracts are refused within a read-only call, however deeply nested. A contract that receives a non-default token without asking for its identity makes that transfer fail and leaves all balances unchanged. The balance and identity queries report the true balance and token. System contracts are deployed only at their fixed addresses, once, after their activation time, and only on the chain they belong to.",
  ["inputs", "histories"], "every caller, token, amount, call kind, time and chain, in nested and failing calls",
  "The permission checks form a product of caller, chain, time, token, amount and call mode; tests cover single points.",
  ["core/vm/contracts.go", "core/vm/evm.go"],
  [("mint, transfer, balance operations", "core/vm/contracts.go"), ("token query rule", "core/vm/evm.go:checkTokenIDQueried")],
  ["balances, call result and gas"])
p("Q01", "Log and history queries return exactly the matching canonical entries",
  "A log query over a height range returns exactly the logs of canonical blocks in the range matching the address and topic conditions, in order, with their true block, transaction and index positions; paging through an account's or the shard's transaction history returns each matching canonical transaction exactly once, newest first, also after reorganisations.",
  ["histories", "inputs"], "every canonical history of emitted logs and transactions, every filter, range and page size",
  "Missed or repeated entries depend on the filter, the range boundaries and earlier reorganisations.",
  ["core/filter.go", "core/minorblockchain_addon.go", "core/types/bloom9.go"],
  [("log filter", "core/filter.go:Logs"), ("transaction history index", "core/minorblockchain_addon.go:GetTransactionByAddress")],
  ["returned logs and transactions"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for d in P: f.write(json.dumps(d) + "\n")
    print(len(P))
