T = 'TLA+ specification; traces of the real code validated by TLC'
CH = 'Every recorded run (random block trees with about 40 kinds of flaw, delivered in random order to the real node) must be a behaviour of spec/Chain.tla, which predicts status, tips, stored blocks and orphans exactly; '
PO = 'Every recorded run (random transactions with conflicts, duplicates, bad fees, locks and proofs, submitted to the real pools over a real forking chain, under a virtual clock) must be a behaviour of spec/Pool.tla: '
NOTES = {
 'C01': (T + '; the specification model-checked exhaustively for all trees of 3 blocks', CH + 'the same specification is checked exhaustively for every delivery order of small trees. Bounded by the runs generated; the elliptic-curve library is a stand-in.'),
 'C02': (T, CH + 'after every step the unspent set, positions, roots, kernel count and running sums of the real node are compared with those the specification computes for the confirmed chain.'),
 'C04': (T, CH + 'here the header chain is compared: header by header, root, tip, and which headers are refused.'),
 'C05': (T, CH + 'here the state after a restart is compared with the one before.'),
 'C03': (T, CH + 'validity is decided in the specification from the block content; about half of the blocks break one rule.'),
 'C06': (T + '; the specification model-checked exhaustively for short histories', PO + 'which transactions are accepted and which remain after every block or reorganization is predicted exactly, and joint validity is an invariant TLC checks in every state.'),
 'C07': (T + '; the specification model-checked exhaustively for short histories', PO + 'the content of the stem pool, what is handed out to stem, fluff or after the embargo, and what a peer can look up are predicted exactly.'),
 'C09': (T, 'Random operation sequences on the real accumulators of outputs, range proofs, kernels and headers, from random pruned starting states, must be a behaviour of spec/Pmmr.tla, the ideal log: roots of every prefix, size, unspent set, data and hashes by position, and the bitmap root are computed from structure alone and compared; position arithmetic is compared for 3000 positions and around every power of two below 2^30. Compaction is a no-op in this code base, so pruned states are built as a peer would send them.'),
 'C10': (T + '; the append-only file algorithm model-checked as a refinement of the ideal store', 'Random operation sequences on the real append-only file, bitmap file, block database and chain store, in batches and plain writes, with rollbacks, dropped writers, reopenings and kills of the process at any operation, must be a behaviour of spec/Store.tla, which predicts the full readable content after every step. Kills happen between operations, not inside a commit; the peer database is wiped on opening by design and left out.'),
 'C11': (T + '; the locking protocol model-checked for every interleaving of three threads on two objects', 'Threads taking the real wrappers in every combination (read, write, batch, several at once, exceptions, failing commits) log what they hold and see, and each log must be a behaviour of spec/Lock.tla. On a real node, blocks are delivered by three threads while two others look at the stores under shared locks: spec/ConcTrace.tla requires each look to be the state of exactly one valid block. Real schedules are sampled, not enumerated.'),
 'C12': (T + '; every history of one peer over five moments model-checked', 'Random histories of learning, connecting, banning, unbanning, tidying up and reloading on the real peer manager and database under a virtual clock must be a behaviour of spec/Peers.tla, which predicts everything known of every peer after each step, whom a request may choose and whom a query returns; picking again and again must reach every peer that stays eligible.'),
 'C16': (T + '; the rules model-checked over every height and window length', 'For heights around every fork and at random, windows of up to 62 headers and candidates at, above and below what is prescribed, the real schedules, difficulty calculator and header validator must give exactly what spec/Consensus.tla computes (in unbounded arithmetic); the real Cuckatoo and Cuckaroo verifiers must accept exactly the edge lists spec/CycleTrace.tla recognises as proofs, on graphs small enough to search.'),
 'C17': (T + '; the specification model-checked for every order of short histories', 'Every recorded history (two to four users and restorations of them, sending, receiving, finalizing, cancelling, restarting and refreshing on a chain that grows and reorganizes, with tampered and replayed slates and a failing node) must be a behaviour of spec/Wallet.tla, which predicts each wallet exactly after every step; ' + 'here outputs, transactions, balances and reservations are compared. A coin of its own that a wallet does not know and that a reorganization moves below what it has scanned is missed until a full scan (known finding).'),
 'C18': (T + '; the specification model-checked for every order of short histories', 'Every recorded history (two to four users and restorations of them, sending, receiving, finalizing, cancelling, restarting and refreshing on a chain that grows and reorganizes, with tampered and replayed slates and a failing node) must be a behaviour of spec/Wallet.tla, which predicts each wallet exactly after every step; ' + 'here: which slates are received and finalized, and that the transaction finalized is valid, spends exactly the reserved coins and pays exactly the amount, fee and change agreed. One kernel per payment; slates of invoices are not made by this code.'),
 'C19': (T, 'Every recorded history (two to four users and restorations of them, sending, receiving, finalizing, cancelling, restarting and refreshing on a chain that grows and reorganizes, with tampered and replayed slates and a failing node) must be a behaviour of spec/Wallet.tla, which predicts each wallet exactly after every step; ' + 'here: which coins a send or an estimate takes, the fee, and when it is refused; the selection itself is also run on thousands of random purses.'),
 'C20': (T + '; the specification model-checked for every order of short histories', 'Every recorded history (two to four users and restorations of them, sending, receiving, finalizing, cancelling, restarting and refreshing on a chain that grows and reorganizes, with tampered and replayed slates and a failing node) must be a behaviour of spec/Wallet.tla, which predicts each wallet exactly after every step; ' + 'here: that each new output has a key of its own, that each stored key is the one derived from the seed, and that restored wallets find exactly their own coins.'),
 'C21': (T + '; the specification model-checked for every order of short histories', 'Histories driven through the handlers of the owner\'s API (creating, restoring, logging in and out, using seventeen operations with good, stale and forged tokens, changing passwords on a full disk, deleting, restarting, names that lead elsewhere, payments sent to the listeners over HTTP) must be behaviours of spec/Session.tla; after every step the wallets listed, the listeners that answer and the files outside the wallets are compared.'),
 'C13': (T + '; the catching-up protocol model-checked, with liveness, for honest, silent and boasting peers', 'A real node, its chain behind that of the pretended peers around it, is polled by its own synchronization thread under a virtual clock while peers join, announce work (truly or not), answer headers, blocks and state archives, answer late, wrongly or never, and leave. Every recorded history must be a behaviour of spec/Sync.tla over spec/Net.tla: which requests go out (locator contents included), to whom, how many, when they are repeated or given to another peer, who is banned for silence, and when the status changes. spec/MCSync.tla shows for every order of events that honest peers are not banned and the node catches up. With a peer that claims work it cannot show, an honest peer asked first can be banned instead (DESIGN.md); the model only claims safety there.'),
 'C14': (T + '; the specification model-checked for every order of a few messages', 'A real node listens on the loopback network; up to nine pretended peers connect, greet rightly and wrongly, ask, announce, send truncated, oversized, mislabelled and random bytes, fall silent and leave, under a virtual clock. Every recorded conversation must be a behaviour of spec/Net.tla: for each step, exactly which messages went to whom (contents compared with the chain byte by byte), what the chain was asked, who was banned or disconnected, and that everybody else was left alone; a node that hangs or dies is rejected. The chain behind the node is scripted; the slow-peer set and the number of messages per minute are not driven to their limits.'),
 'C15': (T + '; the formats themselves model-checked', 'Random values of every type that is sent or stored go through the real encoders and decoders in every protocol version, and damaged bytes into the decoders; spec/Codec.tla, a grammar of all formats, must predict every byte written, which bytes are accepted, how many are read, the value and the bytes its hash is taken of; memory asked for is bounded by the input, under AddressSanitizer. Formats of the HTTP APIs are not covered.'),
 'C08': (T, PO + 'aggregates and the expansion of compact blocks from the pool are computed in the specification and compared.'),
}
NOT_APPLICABLE = {'C22': 'no driver for whole state archives was built: the family could address it, but the code (src/PMMR/TxHashSet{Impl,Manager,Validator}.cpp, the zip code) is not part of what the official build of this sandbox tests and is not driven here; the parts around it (segments, their proofs and formats; asking for, receiving and refusing archives) are checked under C09, C13, C14 and C15'}
