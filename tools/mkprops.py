import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
p("C01","The confirmed chain is the most-work valid chain, whatever the arrival order",
 "However headers, blocks and compact blocks arrive (out of order, repeated, on competing forks, mixed with invalid ones), once everything has been delivered and waiting orphans have been processed the node's confirmed tip is a valid block of greatest total difficulty among the valid chains it was given. The confirmed total difficulty never decreases, a fork of equal work never displaces the chain seen first, and an invalid block never becomes part of the confirmed chain or stops a valid one from being adopted.",
 ["histories","inputs"],"every tree of valid and invalid blocks and every order of delivering its headers and bodies",
 "The chain tests do not link here at all, and they exercise two hand-made forks; which of the many delivery orders strands or displaces a chain needs the order to be quantified.",
 ["src/BlockChain/BlockChainImpl.cpp","src/BlockChain/Processors/BlockProcessor.cpp","src/BlockChain/Processors/BlockHeaderProcessor.cpp","src/BlockChain/ChainState.cpp","src/BlockChain/ChainStore.cpp","src/BlockChain/OrphanPool/OrphanPool.cpp"],
 [("block status decision and reorg handling","src/BlockChain/Processors/BlockProcessor.cpp"),("candidate header chain selection","src/BlockChain/Processors/BlockHeaderProcessor.cpp"),("orphan retry","src/BlockChain/BlockChainImpl.cpp ProcessNextOrphanBlock")],
 [("confirmed chain","the blocks the node considers final so far","Chain CONFIRMED"),("candidate chain","the best header chain","Chain CANDIDATE"),("orphan pool","blocks waiting for their parents","OrphanPool")],
 ["IBlockChain::AddBlock/AddBlockHeader(s)/AddCompactBlock","IBlockChain::GetTipBlockHeader"])
p("C02","A reorganized or rejected block leaves exactly the state a replay gives",
 "After any sequence of accepted blocks, rejected blocks and reorganizations, the unspent outputs, their positions, the commitment roots, the kernel set and the stored running sums are exactly those obtained by applying the confirmed chain's blocks one after another to the genesis state. A block or fork that is rejected, at whatever check it fails, leaves all of that unchanged.",
 ["histories","inputs","fault_sequences"],"every history of blocks, forks of any depth and failing blocks",
 "No test in the stable set applies a block; state left behind by a failed or reverted block shows only against a replay of the same history.",
 ["src/BlockChain/ChainState.cpp","src/BlockChain/Processors/BlockProcessor.cpp","src/PMMR/TxHashSetImpl.cpp","src/Database/BlockDBImpl.cpp","src/BlockChain/CoinView.cpp"],
 [("validate, apply, check roots, store","src/BlockChain/Processors/BlockProcessor.cpp ValidateAndAddBlock"),("rewind and restore spent outputs","src/PMMR/TxHashSetImpl.cpp Rewind"),("batch rollback","include/Core/Traits/Lockable.h")],
 [("output set","unspent commitments and positions","TxHashSet + BlockDB output positions"),("block sums","running UTXO and kernel sums","BlockDB")],
 ["TxHashSet::GetRoots","IBlockDB::GetOutputPosition","IBlockDB::GetBlockSums","IBlockChain::GetBlockByHeight"])
p("C03","Blocks that break a consensus rule are never confirmed",
 "A block is confirmed only if each input spends an output unspent on its own chain, a coinbase output only once mature; each new output is unique among unspent ones; value is conserved, so that the coinbase takes exactly the reward plus fees and the total supply is the reward times the number of blocks; every kernel signature, range proof and lock height holds; its body is sorted, free of duplicates and cut through, within the weight limit; and its header's roots and sizes are those the block produces. A block that meets all of these on top of a confirmed chain is accepted.",
 ["inputs","histories"],"every single and combined violation of a block rule, at every position of every chain",
 "The stable tests check a few pure helper functions; no block is validated, let alone each way a block can be wrong.",
 ["src/BlockChain/Validators/BlockValidator.cpp","src/Core/Validation/TxBodyValidator.cpp","include/Core/Validation/KernelSumValidator.h","include/Core/Validation/KernelSignatureValidator.h","src/BlockChain/ChainState.cpp","src/PMMR/TxHashSetImpl.cpp","src/Crypto/Bulletproofs.cpp","include/Consensus.h"],
 [("self-consistency checks","src/BlockChain/Validators/BlockValidator.cpp"),("spend and maturity checks against the chain","src/PMMR/TxHashSetImpl.cpp ApplyBlock"),("running kernel sums","src/BlockChain/Processors/BlockProcessor.cpp")],
 (),["IBlockChain::AddBlock"])
p("C04","Only well-linked headers with adequate work and time enter the header chain",
 "A header is taken into the candidate header chain only if it directly extends a known header and has the next height, the version due at that height, a timestamp later than its parent's and not beyond the allowed future drift, the difficulty the adjustment rule prescribes with a proof of work that meets it, and the commitment root over all earlier headers. The candidate chain always has the greatest total difficulty of the valid header chains received, and its root and lookups by height always agree with it, after any fork switches.",
 ["inputs","histories"],"every header chain, fork, batch split and single-field corruption",
 "Header validation needs the chain and database that the stable tests never build.",
 ["src/BlockChain/Processors/BlockHeaderProcessor.cpp","src/BlockChain/Validators/BlockHeaderValidator.cpp","src/PMMR/HeaderMMRImpl.cpp","src/BlockChain/Chain.cpp","src/PoW/PoWValidator.cpp"],
 [("header validation","src/BlockChain/Validators/BlockHeaderValidator.cpp"),("fork rewind of the header MMR","src/BlockChain/Processors/BlockHeaderProcessor.cpp"),("proof of work checks","src/PoW/PoWValidator.cpp")],
 (),["IBlockChain::AddBlockHeaders","IBlockChain::GetTipBlockHeader(CANDIDATE)"])
p("C05","A node that stops or crashes restarts in a committed, consistent state",
 "Whenever the node is stopped, or killed at any instant, and started again on the same data directory, it starts and its confirmed chain, unspent outputs, positions and roots agree with each other and with a replay of that chain. Everything committed before a clean stop is still there, nothing that was rolled back reappears, and the node continues to accept the blocks that follow.",
 ["crash_points","histories"],"every stop point between operations and every crash point between the durable writes of a commit",
 "Tests never restart a node and never cut a write sequence short.",
 ["src/BlockChain/ChainState.cpp","src/BlockChain/ChainStore.cpp","src/PMMR/TxHashSetManager.cpp","src/PMMR/TxHashSetImpl.cpp","include/Core/File/AppendOnlyFile.h","src/Core/File/AppendOnlyFile.cpp","include/Core/File/DataFile.h","src/Database/BlockDBImpl.cpp"],
 [("ordered commit of stores","src/BlockChain/ChainState.cpp"),("consistency at start-up","src/BlockChain/ChainState.cpp, src/PMMR/TxHashSetManager.cpp")],
 (),["IBlockChain after BlockChainAPI::OpenBlockChain"])
p("C06","Every transaction the pool would mine is valid on the current tip",
 "At every moment the transactions the pool offers for a block are jointly valid on the confirmed tip: each spends outputs that are unspent there or created by another offered transaction, no two spend the same output or create the same one, each pays the minimum fee, is within weight and lock-height limits, and verifies. After a block is confirmed, transactions it confirmed or conflicted with are gone and every other pooled transaction remains; a transaction failing any of these checks is refused without changing the pool.",
 ["histories","inputs","schedules"],"every interleaving of submitted transactions, blocks and reorganizations",
 "The pool tests need a full node that does not link here and try single submissions.",
 ["src/TxPool/TransactionPoolImpl.cpp","src/TxPool/Pool.cpp","src/TxPool/ValidTransactionFinder.cpp","src/Core/Validation/TransactionValidator.cpp"],
 [("submission checks","src/TxPool/TransactionPoolImpl.cpp AddTransaction"),("reconcile on block","src/TxPool/TransactionPoolImpl.cpp ReconcileBlock"),("joint validity search","src/TxPool/ValidTransactionFinder.cpp")],
 [("mempool","publicly known transactions","Pool"),("stempool","Dandelion stem transactions","Pool")],
 ["ITransactionPool"])
p("C07","Stem transactions stay private until fluffed, and are fluffed in time",
 "A transaction received in the stem phase is not announced to the network at large before it is fluffed; it is fluffed when the relay decides so, when no relay is available, or when its embargo ends, and not before, after which it is in the public pool and no longer in the stem pool. Stem transactions that are invalid are dropped rather than relayed, and none is kept forever.",
 ["histories","schedules"],"every history of stem arrivals, relay changes, clock advances and blocks",
 "Timers, random choices and relay changes are not exercised by any test.",
 ["src/P2P/Dandelion.cpp","src/TxPool/TransactionPoolImpl.cpp","src/TxPool/Pool.cpp"],
 [("dandelion thread","src/P2P/Dandelion.cpp"),("stempool entry status and embargo time","src/TxPool/TxPoolEntry.h, src/TxPool/Pool.cpp")],
 (),["ITransactionPool::GetTransactionToStem/GetTransactionToFluff/GetExpiredTransactions"])
p("C08","Aggregation and compact blocks reproduce exactly the right transactions",
 "Aggregating transactions yields a transaction whose inputs and outputs are those of its parts with every output that another part spends removed, whose kernels are all of theirs, whose offset is their sum, and which is valid whenever the parts are jointly valid. Expanding a compact block with the pool's transactions either gives the block it was made from, bit for bit, or reports that transactions are missing; it never gives another block, and nothing is reported missing while the pool holds every transaction the block refers to.",
 ["inputs","histories"],"every set of transactions and chains of spends among them, every pool content, every compact block",
 "Only short-id hashing of one constant is tested.",
 ["include/Core/Util/TransactionUtil.h","src/BlockChain/BlockHydrator.cpp","src/BlockChain/CompactBlockFactory.cpp","src/TxPool/Pool.cpp"],
 [("aggregate and cut through","include/Core/Util/TransactionUtil.h"),("hydration","src/BlockChain/BlockHydrator.cpp")],
 (),["TransactionUtil::Aggregate","IBlockChain::AddCompactBlock"])
p("C09","The prunable output and kernel accumulators behave as ideal append-only logs",
 "For every sequence of appending and spending outputs, rewinding, committing, discarding, compacting and reopening, the accumulators give the root, size, unspent set, data by position and peaks that an ideal accumulator over the same history has. Compaction never changes a root, an unspent output, or the ability to rewind within the retained horizon, and position arithmetic maps leaves, parents, siblings and peaks as in the ideal tree.",
 ["histories","inputs"],"every operation sequence on every tree shape",
 "The MMR tests compare a handful of positions; the classes that store and prune are partly left out of the build.",
 ["src/PMMR/Common/PruneableMMR.h","src/PMMR/Common/PruneList.cpp","src/PMMR/Common/LeafSet.h","src/PMMR/Common/HashFile.h","src/PMMR/KernelMMR.cpp","src/PMMR/HeaderMMRImpl.cpp","src/PMMR/Common/MMRUtil.cpp","src/PMMR/Common/MMRHashUtil.cpp","src/PMMR/Common/Index.cpp","include/Core/File/BitmapFile.h"],
 [("hashing and bagging","src/PMMR/Common/MMRHashUtil.cpp"),("prune list shifts","src/PMMR/Common/PruneList.cpp"),("leaf set bitmap","src/PMMR/Common/LeafSet.h")],
 (),["OutputPMMR, RangeProofPMMR, KernelMMR, HeaderMMR public methods"])
p("C10","Batched file and database writes are atomic, visible at once and reversible",
 "Within a batch, reads through the writer see its own writes; after commit every reader, and a reopened store, sees exactly those writes; after rollback, or when a batch is dropped without commit, reads and a reopened store are exactly as before the batch. This holds for any sequence of appends, rewinds, puts, deletes and nested reads, including for cached entries.",
 ["histories","crash_points"],"every sequence of operations, commits, rollbacks and reopenings on the file and key-value stores",
 "One test stores and reads one spent-output record; batches, rollbacks and reopening are untested.",
 ["include/Core/File/AppendOnlyFile.h","src/Core/File/AppendOnlyFile.cpp","include/Core/File/DataFile.h","include/Core/File/BitmapFile.h","src/Database/BlockDBImpl.cpp","src/Database/PeerDBImpl.cpp","src/Database/RocksDB","src/BlockChain/ChainStore.cpp"],
 [("append buffer and rewind","src/Core/File/AppendOnlyFile.cpp"),("transaction and header caches","src/Database/BlockDBImpl.cpp")],
 (),["IBlockDB","AppendOnlyFile","DataFile"])
p("C11","Writers are exclusive and batches are isolated from concurrent readers",
 "While one thread holds an object for writing no other thread reads or writes it, any number may read together, and a reader never observes part of a batch. Leaving a write scope commits a plain write, a batch that was not committed is rolled back when its scope ends for any reason, and taking several objects together never deadlocks with single acquisitions.",
 ["schedules"],"every interleaving of readers, writers, batches and multi-object locks, with exceptions thrown at any point",
 "No test runs two threads.",
 ["include/Core/Traits/Lockable.h","include/Core/Traits/Batchable.h","include/Common/ConcurrentQueue.h","include/Common/Util/ThreadUtil.h"],
 [("reader/writer wrappers","include/Core/Traits/Lockable.h"),("multi-object lock","include/Core/Traits/Lockable.h MultiLocker")],
 (),["Locked<T>::Read/Write/BatchWrite","MultiLocker","ConcurrentQueue"])
p("C12","Banned peers stay out, and peer choice respects bans, retries and needs",
 "A banned peer is neither chosen for a new connection nor allowed in until its ban period has passed or it is explicitly unbanned, also after the peer manager was recreated from the stored peers; a peer is not retried within the retry interval, is not chosen while connected, and every eligible peer can eventually be chosen. Peers learnt from others never overwrite what is known about a peer, and queries by capability return only peers that are not banned, up to the requested number, and matching ones when there are any.",
 ["histories"],"every history of learning, connecting, banning, unbanning, clock advances and restarts",
 "No test touches the peer manager; the windows are hours long.",
 ["src/P2P/Seed/PeerManager.cpp","src/P2P/Seed/Seeder.cpp","include/P2P/Peer.h","src/Database/PeerDBImpl.cpp","src/P2P/ConnectionManager.cpp"],
 [("peer table and ban windows","src/P2P/Seed/PeerManager.cpp"),("accept/connect filter","src/P2P/Seed/Seeder.cpp")],
 (),["PeerManager public methods"])
p("C13","Synchronization requests the right data, retries it, and moves on from bad peers",
 "Whatever peers announce, answer, delay or withhold, the node asks for headers from a point its chain shares with the peer, then for bodies it lacks, in batches it bounds, from peers that claim more work; it repeats a request a peer left unanswered past its deadline with another peer, and it reports itself synchronized only when it has caught up. A locator lists known hashes at falling heights and always ends with the genesis block, and answers to a locator are the headers after the first one recognised.",
 ["schedules","histories","fault_sequences"],"every history of peer announcements, deliveries, delays, disconnections and clock advances",
 "Sync is a polling state machine over live peers; no test drives it.",
 ["src/P2P/Sync/Syncer.cpp","src/P2P/Sync/HeaderSyncer.cpp","src/P2P/Sync/BlockSyncer.cpp","src/P2P/Sync/StateSyncer.cpp","src/P2P/BlockLocator.cpp"],
 [("phase decision","src/P2P/Sync/Syncer.cpp"),("per-phase request bookkeeping","src/P2P/Sync/*.cpp"),("locator","src/P2P/BlockLocator.cpp")],
 (),["messages sent to loopback peers","SyncStatus"])
p("C14","Peers can only talk the protocol: handshake first, bounded, answered faithfully",
 "A connection exchanges no other messages before a handshake between compatible, distinct nodes; afterwards each request is answered with what the chain holds (or nothing), each valid announcement is acted on, and a peer that sends malformed, oversized, mislabelled or invalid data is disconnected or banned while every other connection and the node go on unaffected. No sequence of bytes from a peer crashes or stalls the node.",
 ["inputs","histories","fault_sequences"],"every byte stream and message sequence from any number of peers",
 "No test opens a connection.",
 ["src/P2P/Connection.cpp","src/P2P/ConnectionManager.cpp","src/P2P/MessageProcessor.cpp","src/P2P/Seed/HandShake.h","src/P2P/Messages","src/P2P/Seed/Seeder.cpp"],
 [("frame reading and limits","src/P2P/Connection.cpp, src/P2P/Messages/MessageHeader.h"),("dispatch","src/P2P/MessageProcessor.cpp"),("handshake","src/P2P/Seed/HandShake.h")],
 (),["loopback socket"])
p("C15","Every wire and disk encoding round-trips and malformed input is refused",
 "Every block, header, transaction, compact block, peer message, slate, slatepack and stored record decodes back from its encoding to an equal value, for every protocol version supported, with equal hashes. Truncated, over-long or otherwise malformed input of any length is refused with an error, without reading outside the buffer and without allocating beyond what the input's size justifies.",
 ["inputs"],"every value of every encoded type, every protocol version and every byte string",
 "Three headers and blocks with fixed bytes are decoded by tests.",
 ["include/Core/Serialization/ByteBuffer.h","include/Core/Serialization/Serializer.h","src/Core/Models","src/P2P/Messages","include/Wallet/Models/Slate","include/Wallet/Models/Slatepack"],
 [("bounded reader","include/Core/Serialization/ByteBuffer.h")],
 (),["Deserialize/Serialize of each type"])
p("C16","Difficulty, reward, weight, fee and version rules follow the published schedule",
 "At every height and for every history of block times the required difficulty, secondary scaling and header version, the block weight, minimum fee, coinbase maturity and horizon the node computes are the values the consensus rules prescribe; the difficulty never falls below its minimum and reacts to a given window of blocks within the rule's clamps.",
 ["inputs","configurations"],"every height, network and window of timestamps and difficulties",
 "A few heights of a few functions are tested; the difficulty rule over block windows is not.",
 ["include/Consensus.h","src/PoW/DifficultyCalculator.cpp","src/PoW/DifficultyLoader.cpp","include/Core/Util/FeeUtil.h","src/Core/Models/TransactionBody.cpp"],
 [("difficulty adjustment","src/PoW/DifficultyCalculator.cpp"),("schedules","include/Consensus.h")],
 (),["DifficultyCalculator","Consensus","FeeUtil"])
p("C17","Wallet balances and output states always account for the wallet's money",
 "After any history of sending, receiving, finalizing, cancelling, posting, confirmations, reorganizations and refreshes, the wallet's total, immature, unconfirmed, locked and spendable amounts are those implied by what it owns on the chain and what its open transactions have reserved. An output reserved by an open transaction is never offered to another, a cancelled transaction releases exactly what it reserved, a confirmed output becomes spendable only at the maturity or confirmations required, and a spent one is never counted again.",
 ["histories"],"every history of wallet operations, chain events and restarts",
 "The wallet tests do not link here, and each walks one scripted path.",
 ["src/Wallet/Wallet.cpp","src/Wallet/WalletImpl.cpp","src/Wallet/WalletRefresher.cpp","src/Wallet/CancelTx.cpp","src/Wallet/WalletTxLoader.cpp","src/Wallet/WalletDB"],
 [("refresh against the node","src/Wallet/WalletRefresher.cpp"),("cancel","src/Wallet/CancelTx.cpp"),("reserve on send","src/Wallet/SlateBuilder/SendSlateBuilder.cpp")],
 [("output status","unconfirmed, spendable, locked, spent, cancelled","WalletDB outputs"),("transaction status","direction and progress","WalletDB transactions")],
 ["IWalletManager/Wallet summary, outputs and transactions"])
p("C18","A payment moves exactly the agreed amount, once, with both parties' consent",
 "For every exchange of slates between a sender and a receiver, however slates are replayed, reordered, altered or abandoned, a transaction that finalization accepts is valid on the network, spends only the sender's reserved outputs, pays the receiver exactly the agreed amount and the network exactly the agreed fee, and returns the rest to the sender. A slate is received at most once and finalized only if it answers the sender's own open slate unaltered, a payment proof verifies only for the address that signed it, and any refused step leaves both wallets as they were.",
 ["histories","inputs","fault_sequences"],"every sequence and corruption of slate exchanges",
 "The wallet tests do not link here; replayed and altered slates are not tried.",
 ["src/Wallet/SlateBuilder/SendSlateBuilder.cpp","src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp","src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp","src/Wallet/SlateBuilder/SlateUtil.h","src/Wallet/Wallet.cpp","include/Wallet/Models/Slate"],
 [("send","src/Wallet/SlateBuilder/SendSlateBuilder.cpp"),("receive","src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp"),("finalize","src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp")],
 (),["Wallet::Send/Receive/Finalize"])
p("C19","Coin selection covers amount plus fee exactly, or refuses",
 "For every set of coins, amount, strategy and number of change outputs, selection uses only spendable coins the caller allowed, includes all it demanded, and inputs equal amount plus fee plus change with the fee that the resulting transaction's shape requires; if the coins cannot cover it, the request is refused and nothing is reserved. Sending everything leaves no change and pays the balance less the fee.",
 ["inputs"],"every multiset of coins and every request",
 "Selection and fee estimation have no linking test.",
 ["src/Wallet/SlateBuilder/CoinSelection.cpp","src/Wallet/SlateBuilder/SendSlateBuilder.cpp","src/Wallet/Wallet.cpp","include/Core/Util/FeeUtil.h"],
 [("selection strategies","src/Wallet/SlateBuilder/CoinSelection.cpp"),("fee computation","src/Wallet/WalletUtil.h")],
 (),["Wallet::EstimateFee/Send"])
p("C20","Keys never repeat, and the seed alone recovers every confirmed output",
 "No two outputs of a wallet ever use the same key, and no two of its transactions the same id, across any history of operations, failures, restarts and restorations. Restoring a wallet from its seed on the same chain finds exactly its unspent confirmed outputs with their amounts, heights and keys, and never one of another wallet.",
 ["histories","crash_points"],"every history of key use, restart and restore",
 "Key derivation is tested through mnemonics only; nothing restores a wallet.",
 ["src/Wallet/Keychain/KeyChain.cpp","src/Wallet/OutputRestorer.cpp","src/Wallet/WalletDB/Sqlite","src/Wallet/WalletRefresher.cpp"],
 [("child path allocation","src/Wallet/WalletDB/Sqlite"),("rewinding outputs","src/Wallet/OutputRestorer.cpp")],
 (),["Wallet::CheckForOutputs/restore"])
p("C21","Only the right password opens a wallet, and only its session may use it",
 "A wallet opens only with its current password, and its seed is returned, changed or the wallet deleted only on presenting it; every operation needs a session token issued by a login and not logged out since, and a token never acts on another user's wallet. Logging out one session leaves the user's other sessions working, and a failed login or change of password alters nothing.",
 ["histories","inputs"],"every history of creations, logins, logouts, password changes, deletions and forged tokens",
 "No linking test logs in.",
 ["src/Wallet/SessionManager.cpp","src/Wallet/WalletManagerImpl.cpp","src/Wallet/Keychain/SeedEncrypter.cpp","src/Wallet/ForeignController.cpp"],
 [("sessions","src/Wallet/SessionManager.cpp"),("seed encryption","src/Wallet/Keychain/SeedEncrypter.h")],
 (),["IWalletManager"])
p("C22","A downloaded chain state is installed only if it matches the headers",
 "A state archive received from a peer replaces the node's state only if its outputs, proofs and kernels hash to the roots of the header it is for and the whole satisfies the balance, signature and proof rules; otherwise the node's state is untouched and the archive's contents leave nothing outside its own folder. An archive a node serves, loaded by another, gives that node the same unspent outputs, positions and roots.",
 ["inputs","histories"],"every archive, intact or altered in any file or entry name",
 "The code that packs, unpacks and validates archives is left out of the build here.",
 ["src/PMMR/Zip/TxHashSetZip.cpp","src/PMMR/Zip/ZipFile.cpp","src/PMMR/Zip/Zipper.cpp","src/PMMR/TxHashSetManager.cpp","src/PMMR/TxHashSetValidator.cpp","src/BlockChain/Processors/TxHashSetProcessor.cpp"],
 [("validation of a received set","src/PMMR/TxHashSetValidator.cpp"),("installation","src/BlockChain/Processors/TxHashSetProcessor.cpp"),("archive handling","src/PMMR/Zip")],
 (),["IBlockChain::SnapshotTxHashSet","IBlockChain::ProcessTransactionHashSet"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
import os
for x in P:
    jsonschema.validate(x,sch)
    for fn in x['anchors']['files']:
        if not os.path.exists('/repo/'+fn): print(x['id'],'missing',fn)
print(len(P))
