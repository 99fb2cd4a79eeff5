"""What decides each property: harness parts, level, bounds.  run.py builds and runs the parts."""
NODE = ('Server', 'API', 'Net', 'P2P', 'Wallet')  # source directories a chain harness does not need
CRYPTO = 'secp256k1-zkp is replaced by an exponent model (points are their discrete logs; proofs and signatures are ideal), because the library is not installed here'
NET = 'network = AUTOMATED_TESTING, in which the code base itself bypasses proof-of-work and difficulty checks of headers'
def P(name, src, **k):
    d = {'name': name, 'src': src, 'drop': NODE}
    d.update(k); return d
NOT_APPLICABLE = {}

CHECKS = {
 'C01': {'parts': [P('orders', 'h/chain_mc.cpp')], 'level': 'model_checking',
   'bounds': 'every rooted tree of up to 4 blocks (up to relabelling) with difficulty steps {1,3}; every delivery permutation; 6 delivery modes for up to 3 blocks, block-only and headers-first for 4; then fair sync; thorough: 5 blocks, more steps and all modes for 4',
   'assumptions': [CRYPTO, NET]},
 'C02': {'parts': [P('rules', 'h/rules_mc.cpp')], 'level': 'model_checking',
   'technique': 'explicit-state exploration of the real node: every catalogued rule breakage at every place of a small history',
   'bounds': 'about 80 ways to break (or just meet) one rule of a block or header, each tried as the next block of the tip, after its header, on a fork, as an orphan, and below an otherwise heavier fork block; the complete node state is compared with an independent reference after each delivery, then a valid block must still be accepted; thorough: also with a restart after the refusal',
   'assumptions': [CRYPTO, NET]},
 'C03': {'parts': [P('orders', 'h/chain_mc.cpp')], 'level': 'model_checking',
   'bounds': 'every tree of up to 3 blocks (4 in one scheme) whose blocks spend, re-create and share outputs across branches; every delivery permutation; complete state compared with an independent reference after every step; thorough: 4 blocks in all schemes and 5 in one',
   'assumptions': [CRYPTO, NET]},
 'C04': {'parts': [P('restarts', 'h/chain_mc.cpp')], 'level': 'model_checking',
   'bounds': 'every tree of 2 blocks with a restart after every delivery, every tree of 3 blocks with one restart after each possible delivery, every delivery permutation, block-only and headers-first; every sequence of up to 3 restarts, headers and blocks on a node that is new; thorough: 4 blocks, 4 steps',
   'assumptions': [CRYPTO, NET]},
 'C05': {'parts': [P('crash', 'h/crash_mc.cpp')], 'level': 'model_checking',
   'technique': 'exhaustive crash-point enumeration on the real node (process death at every file operation, whole and torn, and every reachable split of the files written in parallel)',
   'bounds': '15 steps (first start, extension, headers, side block, header and block reorganisation, orphans, restart), each ended before and in the middle of every file operation it makes; for the files written by three threads every combination of per-thread progress with at most one thread inside its sequence (thorough: all combinations); plus every sequence of up to 3 (thorough 4) of 7 deliveries ended by a kill; each followed by reopening, a full state comparison and going on to the best chain',
   'assumptions': [CRYPTO, NET, 'completed system calls survive the death of the process (no power loss)']},
 'C06': {'parts': [P('mmr', 'h/store_mc.cpp')], 'level': 'model_checking',
   'technique': 'exhaustive enumeration of operation sequences on the real MMR classes, compared after every operation with a plain MMR over the same leaves',
   'bounds': 'all sequences up to the depth bound of append, remove, rewind, commit, rollback and reopen on the output/range-proof, kernel and header MMRs, and prune lists of every leaf subset of small MMRs; the whole observable content is compared after every operation; thorough: deeper',
   'assumptions': ['compaction is not implemented by the code (TxHashSet::Compact does nothing): pruned data is explored through prune lists as a snapshot brings them']},
 'C07': {'parts': [P('files', 'h/store_mc.cpp')], 'level': 'model_checking',
   'technique': 'exhaustive enumeration of operation sequences and of crash points on the real file classes, compared with in-memory lists',
   'bounds': 'all sequences of append, set, unset, rewind, discard, flush and reopen up to the depth bound on AppendOnlyFile, BitmapFile and DataFile; every crash point (whole and torn writes) of the commits of short sequences and of SafeWriteToFile; conversion of old bitmaps of every small pattern; thorough: deeper',
   'assumptions': ['completed system calls survive the death of the process (no power loss)']},
 'C08': {'parts': [P('index', 'h/store_mc.cpp')], 'level': 'model_checking',
   'technique': 'exhaustive comparison of the real index functions with an explicitly built mountain range',
   'bounds': 'every position, leaf number and size below 2^16 (thorough 2^20), and windows around every power of two and every sum of two powers of two up to 2^62', 'assumptions': []},
 'C09': {'parts': [P('snapshots', 'h/snap_mc.cpp')], 'level': 'model_checking',
   'technique': 'exhaustive exploration of snapshot installations on the real node: every snapshot block, receiver and continuation, and every single-record alteration',
   'bounds': 'a history with spends, re-created outputs and forks; a snapshot taken at each of its last 9 blocks (thorough: every block) without changing its giver; each installed on nodes with headers only, some blocks, more blocks and on a fork, then continued, restarted, reorganised, and handed on to a third node; each record of each file of a snapshot altered, exchanged, missing, cut, each bit of the position sets and each prune root flipped, and snapshots of other blocks: refused with the previous state intact, after which the good one installs; thorough: more bytes per record',
   'assumptions': [CRYPTO]},
 'C10': {'parts': [P('pool', 'h/pool_mc.cpp')], 'level': 'model_checking',
   'technique': 'explicit-state exploration of the real node and its transaction pool: all operation sequences against an exact reference pool',
   'bounds': 'all sequences of submissions, blocks, forks, reorganisations and refused blocks: every symbol to depth 2, 18 symbols to depth 3, 10 symbols to depth 4 (thorough: 4 and 5); the pool is compared with an exact reference after every step and finally mined as one block', 'assumptions': [CRYPTO, NET]},
 'C11': {'parts': [P('dandelion', 'h/dandelion_mc.cpp')], 'level': 'model_checking',
   'technique': 'explicit-state exploration of the real Dandelion monitor and pools under a controlled clock, random source and scheduler (the monitor runs exactly when released)',
   'bounds': '16 symbols (stem and public arrivals, blocks, relay outcome and stem/fluff mode, clock steps, one monitor run) to depth 3 and 9 symbols to depth 4 (thorough 4 and 6), then fair completion', 'assumptions': [CRYPTO, NET, 'the connection manager is replaced by a stand-in that records what is relayed and announced']},
 'C12': {'parts': [P('compact', 'h/compact_mc.cpp')], 'level': 'model_checking',
   'technique': 'exhaustive enumeration of blocks, pools and chain contexts on the real node',
   'bounds': '32 blocks (subsets of the catalogue that form a valid block) times 290 conflict-free pools, delivered to a node at the tip, on a fork, as an orphan and late; rebuilt block compared bit by bit', 'assumptions': [CRYPTO, NET]},
 'C13': {'parts': [P('wire', 'h/wire_mc.cpp')], 'level': 'model_checking',
   'technique': 'exhaustive enumeration of values over boundary alphabets and of all one-bit changes of their encodings, compared with independent encoders',
   'bounds': 'every protocol version times boundary values of every field of headers, bodies, blocks, compact blocks, transactions, kernels, inputs, outputs, proofs, segments and every network message; every truncation; every one-bit change of every encoding (refused or canonical); every value of every feature byte', 'assumptions': []},
 'C14': {'parts': [P('damage', 'h/wire_mc.cpp', variant='asan')], 'level': 'model_checking',
   'technique': 'exhaustive enumeration of damage to encodings, decoded by the real code under address and undefined-behaviour checking and an allocation meter',
   'bounds': 'every valid encoding of C13 with every truncation, every byte replaced by each of a boundary set, and every window of 2, 4 and 8 bytes replaced by boundary lengths', 'assumptions': ['the address and undefined-behaviour sanitizers of gcc see the memory errors of the instrumented code']},
 'C15': {'parts': [P('rules', 'h/consensus_mc.cpp')], 'level': 'model_checking',
   'technique': 'exhaustive enumeration of heights and of header windows over small alphabets, compared with an independent statement of the consensus rules',
   'bounds': 'every height below 2,400,000 of every network; windows of 1 to 70 headers with two time steps of 10, two difficulties of 5, 4 patterns of proof kinds and the change at every place; every number of secondary proofs at every height where the aimed share changes; every time step below 200 (and a grid to 30,000) for the last rule; whole header judgements around really mined proofs', 'assumptions': []},
 'C16': {'parts': [P('cycles', 'h/pow_mc.cpp'), P('all4', 'h/pow4_mc.cpp'), P('all6', 'h/pow6_mc.cpp')], 'level': 'model_checking',
   'technique': 'exhaustive enumeration of graphs: the real verifiers run over every small edge table and around every cycle of real graphs, compared with an independent definition',
   'bounds': 'every graph of 4 edges over 4 (5) nodes and of 6 edges over 3 nodes with every direction pattern (verifiers compiled for that length); for 42 edges every cycle type of up to 4 cycles, and every rewiring of one end, of two ends that keeps their sum, and every exchange; on real graphs every replaced, exchanged, moved, repeated or missing nonce and every changed header bit', 'assumptions': ['the part over arbitrary edge tables replaces siphash_state and sipblock by a table; where the code no longer takes its edges from them that part is left out and counted']},
 'C17': {'parts': [P('locks', ['h/locks_mc.cpp', 'shim/mcsched.cpp'], variant='tsan')], 'level': 'model_checking',
   'technique': 'stateless exploration of thread interleavings of the real locking classes under a controlled scheduler with a preemption bound, with happens-before race detection on every schedule',
   'bounds': 'all interleavings with up to 3 preemptions (thorough 5) of every two operations, with 2 of every two after each other against a third and with 1 (thorough 2) of every three threads, over reads, writes, commits, rollbacks, failing batches and nested batches on one to three locked objects', 'assumptions': ['sequentially consistent interleavings at the granularity of synchronisation operations; data races are reported by the happens-before detector on each of them']},
 'C18': {'parts': [P('queues', ['h/queues_mc.cpp', 'shim/mcsched.cpp'], variant='tsan')], 'level': 'model_checking',
   'technique': 'stateless exploration of thread interleavings of the real queues, caches and tables under a controlled scheduler with a preemption bound, with happens-before race detection on every schedule',
   'bounds': 'all interleavings with up to 3 preemptions of every two operations, of every two after each other against a third, and of every three and four core operations in two and three threads, on the shared queues, the proof cache, the orphan pool, the peer record, the connection manager and the synchronisation status; every result compared with those of all sequential orders', 'assumptions': ['sequentially consistent interleavings at the granularity of synchronisation operations; data races are reported by the happens-before detector on each of them']},
 'C19': {'parts': [P('peers', 'h/peers_mc.cpp')], 'level': 'model_checking',
   'technique': 'explicit-state exploration of the real peer manager under a controlled clock and random source, compared with a reference table after every operation',
   'bounds': 'all sequences up to the depth bound of contacts, bans, unbans, capability and connection changes, manager rounds and clock steps over a few peers, from nothing and from prepared tables; every outcome of the random choice', 'assumptions': []},
 'C20': {'parts': [P('protocol', 'h/p2p_mc.cpp', drop=('Server', 'API', 'Wallet')), P('sends', ['h/sends_mc.cpp', 'shim/mcsched.cpp'], drop=('Server', 'API', 'P2P', 'Wallet'))], 'level': 'model_checking',
   'technique': 'explicit-state exploration of the real peer protocol stack over real loopback sockets: all message sequences against a reference protocol; and exploration of thread interleavings of the sending queue under a controlled scheduler',
   'bounds': 'every one of about 60 messages (valid, unknown items, invalid data, wrong kinds, cut) under 4 protocol versions and 3 synchronisation states, all pairs starting with a state-changing message (thorough: all pairs), triples over blocks and headers, each with reply, broadcast, ban, disconnection and chain tip compared; handshakes in both directions over versions, genesis, nonce and 7 kinds of answer; chain state archives; every subset of connections pruned; all sequences of up to 3 (thorough 4) kinds of callers on the real listener; message sizes around the buffer limits and all interleavings (2 preemptions) of up to 3 senders', 'assumptions': [CRYPTO, 'a lost or delayed segment is left to the loopback network']},
 'C31': {'parts': [P('sync', 'h/sync_mc.cpp', drop=('Server', 'API', 'Wallet'))], 'level': 'model_checking',
   'technique': 'explicit-state exploration of the real header, state and block syncers, connected by the real peer-to-peer stack over loopback sockets to peers that answer from reference chains, under a controlled clock',
   'bounds': 'header chains: every prefix/own/peer length and work up to small bounds and around 20 locators, 128 and 512 headers, answered until done; state requests for every status and 60 pairs of heights around the horizon on a chain of 10110 headers; block windows for all sets of present blocks (of the first 6, thorough 8), 8 lengths and 1 to 3 peers; all sequences of 3 (thorough 4) of 7 kinds of header answer, delay and loss with 2 peers, and of 3 (thorough 5) of 8 kinds of block answer, delay, loss and reorganisation with 1 and 2 peers, then answered until done; the synchronisation thread itself against honest peers over 40 chain shapes', 'assumptions': [CRYPTO, 'automated-testing chain parameters', 'the time is the harness\'s']},
 'C22': {'parts': [P('balances', 'h/balance_mc.cpp', drop=('Server',), ld=['-Wl,--wrap=sqlite3_open'])], 'level': 'model_checking',
   'technique': 'explicit-state exploration of two real wallets by forking, with state merging: every sequence of wallet and chain operations compared with balances computed from the reference chain and the open transfers',
   'bounds': 'two wallets, 13 operations (send of an amount and of everything, receive by the other and by oneself, finalize, cancel either side, blocks with, without and of own reward, reorganisations that keep or lose transfers, refresh) to depth 4 from a fresh pair, and all 23 (second transfer, split change, deeper and mining reorganisations) to depth 3 from 5 later states (thorough 6 and 5); balance, reservation, maturity and history compared after every one',
   'assumptions': [CRYPTO, 'the node behind the wallet is the reference chain', 'sqlite keeps its databases in memory']},
 'C21': {'parts': [P('coins', 'h/coins_mc.cpp', drop=('Server',), ld=['-Wl,--wrap=sqlite3_open'])], 'level': 'model_checking',
   'technique': 'exhaustive enumeration of coin sets, amounts, fee rates, change counts and strategies, sent by a real wallet and compared with the selection rule in 128-bit arithmetic',
   'bounds': 'every multiset of up to 2 of 9 coin values (1, around the fees, a reward, beyond 40 bits, 2^62), 3 of 4 values (thorough 9) and some of 5 and 6; every amount within 1 of a subset sum less the fee of its size, and the edges of 64 bits; 10 fee rates up to 2^64-1 (with amounts: single coins, thorough all); 0 to 4 and 127 to 255 change outputs; every strategy, every custom subset; each send estimated first, then compared, and (up to 2 coins) received, finalized and validated',
   'assumptions': [CRYPTO, 'the node behind the wallet is the reference chain', 'sqlite keeps its databases in memory']},
 'C23': {'parts': [P('slates', 'h/slate_mc.cpp', drop=('Server',), ld=['-Wl,--wrap=sqlite3_open'])], 'level': 'model_checking',
   'technique': 'exhaustive enumeration of alterations between the steps of a real exchange of two wallets, every one alone and every pair, with the final transaction judged against the terms first sent',
   'bounds': 'with and without a payment proof, with a second exchange open: about 75 alterations of the sent slate (every field, every signature and commitment dropped, doubled, exchanged with those of the other exchange, foreign addresses and proofs) times about 90 of the answer, including answers nobody gave, the sent slate handed back, and alterations undone on the way back; refusals must leave the wallet as it was',
   'assumptions': [CRYPTO, 'the node behind the wallet is the reference chain', 'sqlite keeps its databases in memory', 'the Tor process is replaced by one that only derives addresses']},
}
