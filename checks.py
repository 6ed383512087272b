"""What each property's check runs: driver processes, the trace specification that decides them, and the
exhaustive runs of the specification itself."""

CRYPTO = 'libsecp256k1-zkp is replaced by a transparent group with the same algebra (standin/secp.cpp)'

def chain(mode_mix, tlamode, quick, thorough):
    """quick/thorough: traces per process; mode_mix: driver modes, one process each."""
    def jobs(seed, tier):
        n = quick if tier == 'quick' else thorough
        return [dict(driver='chain', args=['{out}', '{dir}', seed * 100 + i, n, m], trace=dict(spec='ChainTrace', cfg='ChainTrace', set={'MODE': tlamode}), limit=400 if tier == 'quick' else 3000)
                for i, m in enumerate(mode_mix * (1 if tier == 'quick' else 3))]
    return jobs
MCCHAIN = lambda tier: [dict(spec='MCChain', cfg='MCChain', set={'N': 3, 'MaxWork': 2})] if tier == 'quick' else [dict(spec='MCChain', cfg='MCChain', set={'N': 4, 'MaxWork': 2}, workers=4, limit=3000)]
CHAIN_ASSUMES = [CRYPTO, 'proof-of-work is not checked in the AUTOMATED_TESTING environment; coinbase maturity there is 25', 'TLC and the Community Modules are trusted']

def pool(tlamode, focus, quick, thorough, extra=()):
    """focus: (driver focus, stem probability), one process each."""
    def jobs(seed, tier):
        n = quick if tier == 'quick' else thorough
        return [dict(driver='pool', args=['{out}', '{dir}', seed * 100 + i, n, f, p], trace=dict(spec='PoolTrace', cfg='PoolTrace', set={'MODE': tlamode}, dfs=True), limit=400 if tier == 'quick' else 3000)
                for i, (f, p) in enumerate(focus * (1 if tier == 'quick' else 3))] + (chain(extra, tlamode, 15, 100)(seed, tier) if extra else [])
    return jobs
MCPOOL = lambda tier: [dict(spec='MCPool', cfg='MCPool', set={'MaxSubmit': 3})] if tier == 'quick' else [dict(spec='MCPool', cfg='MCPool', set={'MaxSubmit': 4}, workers=4, limit=3000)]
POOL_ASSUMES = [CRYPTO, 'wall-clock time is virtual (the clock functions are interposed), so embargoes pass without waiting', 'TLC and the Community Modules are trusted']

def jobs_pmmr(seed, tier):
    k = 1 if tier == 'quick' else 8
    return [dict(driver='pmmr', args=['{out}', '{dir}', seed * 100 + i, n * (1 if m == 'shapes' else k), m], trace=dict(spec='PmmrTrace', cfg='PmmrTrace', set={'SPENDS': m not in ('kernel', 'header')}), limit=400 if tier == 'quick' else 3000, tlc_limit=600 if tier == 'quick' else 3000)
            for i, (m, n) in enumerate([('shapes', 3000 if tier == 'quick' else 30000), ('out', 80), ('out', 80), ('proof', 60), ('kernel', 60), ('header', 60), ('big', 6)])]

def jobs_store(seed, tier):
    k = 1 if tier == 'quick' else 8
    return [dict(driver='store', args=['{out}', '{dir}', seed * 100 + i, n * k, m], trace=dict(spec='StoreTrace', cfg='StoreTrace', set={'KIND': m, 'DIRECT': m == 'db'}), limit=400 if tier == 'quick' else 3000, tlc_limit=600 if tier == 'quick' else 3000)
            for i, (m, n) in enumerate([('file', 200), ('bitmap', 200), ('chain', 200), ('db', 40), ('db', 40), ('db', 40)])]
MCSTORE = lambda tier: [dict(spec='MCStore', cfg='MCStore', set={'MaxLen': 4 if tier == 'quick' else 6}, workers=1 if tier == 'quick' else 4)]

def jobs_conc(seed, tier):
    k = 1 if tier == 'quick' else 8
    common = dict(once=True, limit=400 if tier == 'quick' else 3000, tlc_limit=600 if tier == 'quick' else 3000)
    return [dict(driver='locks', args=['{out}', '{dir}', seed * 100 + i, 40 * k], trace=dict(spec='LockTrace', cfg='LockTrace'), **common) for i in range(2)] + \
        [dict(driver='conc', args=['{out}', '{dir}', seed * 100 + i, 60 * k], trace=dict(spec='ConcTrace', cfg='ConcTrace'), **common) for i in range(2, 7)]
MCLOCK = lambda tier: [dict(spec='MCLock', cfg='MCLock', set={'ROUNDS': 1}, workers=2, limit=300)] if tier == 'quick' else [dict(spec='MCLock', cfg='MCLock', set={'ROUNDS': 1}, workers=2), dict(spec='MCLock', cfg='MCLock', set={'Threads': '{1, 2}', 'ROUNDS': 2}, workers=4, limit=3000)]

def jobs_peers(seed, tier):
    k = 1 if tier == 'quick' else 10
    return [dict(driver='peers', args=['{out}', '{dir}', seed * 100 + i, 130 * k], trace=dict(spec='PeersTrace', cfg='PeersTrace'), limit=400 if tier == 'quick' else 3000, tlc_limit=600 if tier == 'quick' else 3000) for i in range(5)]
MCPEERS = lambda tier: [dict(spec='MCPeers', cfg='MCPeers', set={'MAXT': 5 if tier == 'quick' else 7})]

def headers(seed, tier, n=700):
    k = 1 if tier == 'quick' else 12
    lim = dict(limit=400 if tier == 'quick' else 3000, tlc_limit=600 if tier == 'quick' else 3000)
    return [dict(driver='consensus', args=['{out}', '{dir}', seed * 100 + i, n * k, e], trace=dict(spec='ConsensusTrace', cfg='ConsensusTrace'), **lim) for i, e in enumerate(['MAINNET', 'FLOONET', 'MAINNET', 'FLOONET'])]
def cycles(seed, tier, n=300):
    k = 1 if tier == 'quick' else 12
    return [dict(driver='cycle', args=['{out}', '{dir}', seed * 100 + i, n * k], trace=dict(spec='CycleTrace', cfg='CycleTrace'), limit=400 if tier == 'quick' else 3000) for i in range(2)]
def jobs_c04(seed, tier): return chain(['mix', 'reorg', 'reject', 'restart', 'reject'], 'C04', 20, 150)(seed, tier) + headers(seed, tier)[:2] + cycles(seed, tier)
def jobs_c16(seed, tier):
    return headers(seed, tier) + [dict(driver='consensus', args=['{out}', '{dir}', seed * 100 + 9, 3000, 'AUTOMATED_TESTING'], trace=dict(spec='ConsensusTrace', cfg='ConsensusTrace'), limit=400)] + cycles(seed, tier)
MCCONS = lambda tier: [dict(spec='MCConsensus', cfg='MCConsensus', set={'FULL': tier != 'quick'}, workers=2)]

def wallets(mode, n=5, steps=150, extra=()):
    def jobs(seed, tier):
        k = 1 if tier == 'quick' else 6
        lim = dict(limit=400 if tier == 'quick' else 3000, tlc_limit=600 if tier == 'quick' else 3000)
        return [dict(driver='wallet', args=['{out}', '{dir}', seed * 1000 + i, steps] + ([mc] if mc else []), trace=dict(spec='WalletTrace', cfg='WalletTrace', set={'MODE': mode}), **lim) for i, mc in enumerate(([0, 0, 1, 0, 10] * n)[:n * k])] + \
            [dict(driver=d, args=['{out}', '{dir}', seed * 100 + i, c * k], trace=dict(spec=sp, cfg=sp), **lim) for i, (d, sp, c) in enumerate(extra)]
    return jobs
MCWALLET = lambda tier: [dict(spec='MCWallet', cfg='MCWallet', set={'MaxPays': 1, 'MaxTop': 3, 'Restore': True}, workers=2), dict(spec='MCWallet', cfg='MCWallet', set={'MaxPays': 2, 'MaxTop': 2}, workers=2)] if tier == 'quick' else \
    [dict(spec='MCWallet', cfg='MCWallet', set={'MaxPays': 1, 'MaxTop': 4, 'MaxReorgs': 2, 'Restore': True}, workers=4, limit=3000), dict(spec='MCWallet', cfg='MCWallet', set={'MaxPays': 2, 'MaxTop': 3}, workers=4, limit=3000)]
WALLET_ASSUMES = [CRYPTO, 'the node and the Tor process are pretended ones that the driver controls (they may fail at any call)', 'amounts add up to less than 2^64', 'TLC and the Community Modules are trusted']

def jobs_c21(seed, tier):
    k = 1 if tier == 'quick' else 8
    return [dict(driver='sessions', args=['{out}', '{dir}', seed * 1000 + i, 260 if tier == 'quick' else 800], trace=dict(spec='SessionTrace', cfg='SessionTrace'), limit=400 if k == 1 else 3000, tlc_limit=300) for i in range(6 * k)]
def jobs_c14(seed, tier):
    k = 1 if tier == 'quick' else 8
    return [dict(driver='net', args=['{out}', '{dir}', seed * 1000 + i, 110 if k == 1 else 300, 'talk'], trace=dict(spec='NetTrace', cfg='NetTrace'), limit=300 if k == 1 else 2000, attempts=3, tlc_limit=300) for i in range(8 * k)]
def jobs_c15(seed, tier):
    k = 1 if tier == 'quick' else 10
    return [dict(driver='codec', args=['{out}', '{dir}', seed * 1000 + i, 264 if k == 1 else 440], trace=dict(spec='CodecTrace', cfg='CodecTrace'), limit=300, tlc_limit=600) for i in range(8 * k)]
MCCODEC = lambda tier: [dict(spec='MCCodec', cfg='MCCodec', set={} if tier == 'quick' else {'FULL': True}, workers=2 if tier == 'quick' else 4, limit=3000)]
def jobs_c13(seed, tier):
    k = 1 if tier == 'quick' else 8
    return [dict(driver='net', args=['{out}', '{dir}', seed * 1000 + i, 110 if k == 1 else 300, 'sync'], trace=dict(spec='SyncTrace', cfg='SyncTrace'), limit=300 if k == 1 else 2000, attempts=3, tlc_limit=300) for i in range(12 * k)]
MCSYNC = lambda tier: [dict(spec='MCSync', cfg='MCSync', set={} if tier == 'quick' else {'Top': 6, 'Honest': '{1, 2, 5}'}, workers=2, limit=3000),
                       dict(spec='MCSync', cfg='MCSyncLies', set={} if tier == 'quick' else {'Top': 5, 'Window': 3}, workers=2, limit=3000)]
MCNET = lambda tier: [dict(spec='MCNet', cfg='MCNet', set={'MaxMsgs': 3 if tier == 'quick' else 6}, workers=2 if tier == 'quick' else 8, limit=3000)]
MCSESSION = lambda tier: [dict(spec='MCSession', cfg='MCSession', set={} if tier == 'quick' else {'MaxSess': 5, 'MaxSeeds': 3}, workers=2 if tier == 'quick' else 8, limit=3000)]

CHECKS = {
    'C01': dict(level='model_checking', jobs=chain(['mix', 'reorg', 'mix', 'reorg', 'mix', 'restart', 'reject', 'young'], 'C01', 20, 150), models=MCCHAIN, assumes=CHAIN_ASSUMES, expect=['AddBlock:SUCCESS', 'AddBlock:ORPHANED', 'AddBlock:BAD_DATA', 'Orphan:True', 'Quiesce']),
    'C02': dict(level='model_checking', jobs=chain(['mix', 'reorg', 'reject', 'reorg', 'reject', 'restart', 'mix'], 'C02', 20, 150), assumes=CHAIN_ASSUMES, expect=['AddBlock:SUCCESS', 'AddBlock:BAD_DATA', 'Roots']),
    'C03': dict(level='model_checking', jobs=chain(['reject'] * 6 + ['mix'], 'C03', 20, 150), assumes=CHAIN_ASSUMES, expect=['AddBlock:SUCCESS', 'AddBlock:BAD_DATA']),
    'C04': dict(level='model_checking', jobs=jobs_c04, models=MCCHAIN, assumes=CHAIN_ASSUMES + ['the work rules are checked on the header validator with stand-ins for the graph verifiers, and the Cuckatoo and Cuckaroo verifiers on small graphs'], expect=['AddHeader:SUCCESS', 'AddHeader:BAD_DATA', 'AddHeader:ORPHANED', 'AddHeaders:SUCCESS', 'AddHeaders:BAD_DATA', 'Header', 'Proof']),
    'C05': dict(level='model_checking', jobs=chain(['restart'] * 5 + ['young'] * 2, 'C05', 20, 150), assumes=CHAIN_ASSUMES, expect=['Restart', 'Roots']),
    'C06': dict(level='model_checking', jobs=pool('C06', [('mix', 50), ('mix', 0), ('compact', 0), ('mix', 100), ('mix', 50), ('stem', 0), ('mix', 20)], 20, 120), models=MCPOOL, assumes=POOL_ASSUMES,
                expect=['Submit:SUCCESS', 'Submit:INVALID', 'Submit:UNKNOWN_ERROR', 'AddBlock:SUCCESS', 'ToFluff']),
    'C07': dict(level='model_checking', jobs=pool('C07', [('stem', 50), ('stem', 0), ('stem', 100), ('mix', 50), ('stem', 50), ('stem', 80), ('mix', 50)], 20, 120), models=MCPOOL, assumes=POOL_ASSUMES,
                expect=['Submit:SUCCESS', 'ToStem', 'ToFluff', 'Expired', 'Fluff', 'Lookup']),
    'C08': dict(level='model_checking', jobs=pool('C08', [('compact', 0), ('compact', 30), ('compact', 0), ('compact', 50), ('mix', 0)], 20, 120, ['mix', 'reorg']), assumes=POOL_ASSUMES,
                expect=['Compact:SUCCESS', 'Compact:TRANSACTIONS_MISSING', 'Aggregate']),
    'C09': dict(level='model_checking', jobs=jobs_pmmr, assumes=['the entries are those of the real output, range-proof, kernel and header accumulators; hashes are interned, and every hash used is logged with what it is the hash of', 'TLC and the Community Modules are trusted'],
                expect=['Append', 'Remove:ok', 'Remove:refused', 'Rewind', 'Commit', 'Rollback', 'Reload', 'Prune', 'Pos', 'Leaf']),
    'C10': dict(level='model_checking', jobs=jobs_store, models=MCSTORE, assumes=['RocksDB and the file system are trusted to keep a completed write when the process dies; loss of power is not considered', 'TLC and the Community Modules are trusted'],
                expect=['Append', 'Rewind:refused', 'Keep', 'Put', 'PutHeaders', 'Del', 'Clear', 'Compact', 'Add:ok', 'Cut:ok', 'Follow:ok', 'Step:ok', 'Follow:refused', 'Commit', 'Rollback', 'End', 'Open']),
    'C11': dict(level='model_checking', jobs=jobs_conc, models=MCLOCK, assumes=[CRYPTO, 'interleavings are those the operating system happens to produce; the model explores all of them', 'TLC and the Community Modules are trusted'],
                expect=['WB', 'WE', 'RB', 'CX', 'WX', 'Commit', 'Rollback', 'NoBatch', 'Queue', 'Unique', 'View', 'Tip', 'Did:SUCCESS', 'Quiesce']),
    'C12': dict(level='model_checking', jobs=jobs_peers, models=MCPEERS, assumes=['wall-clock time is virtual (the clock functions are interposed)', 'the stored peers are those of one run of the node: the node discards them when it starts', 'TLC and the Community Modules are trusted'],
                expect=['Fresh', 'Get', 'Ban', 'Unban', 'Connected', 'Contact', 'Caps', 'Version', 'Advance', 'Recreate', 'Tidy', 'New', 'Query', 'Spread']),
    'C16': dict(level='model_checking', jobs=jobs_c16, models=MCCONS, assumes=['the five graph verifiers are replaced by stand-ins where whole headers are judged; Cuckatoo and Cuckaroo are checked on small graphs', 'total difficulties below 2^57 and scaling factors below 100000', 'TLC and the Community Modules are trusted'],
                expect=['Height', 'Weights', 'Header', 'Reward', 'Proof']),
    'C17': dict(level='model_checking', jobs=wallets('C17'), models=MCWALLET, assumes=WALLET_ASSUMES, expect=['Refresh:True', 'Block', 'Reorg', 'Send:True', 'Send:False', 'Recv:True', 'Fin:True', 'Cancel:True', 'Cancel:False', 'Coinbase', 'Join']),
    'C18': dict(level='model_checking', jobs=wallets('C18'), models=MCWALLET, assumes=WALLET_ASSUMES, expect=['Send:True', 'Recv:True', 'Recv:False', 'Fin:True', 'Fin:False']),
    'C19': dict(level='model_checking', jobs=wallets('C19', 4, 150, [('coinsel', 'CoinTrace', 8000), ('coinsel', 'CoinTrace', 8000)]), assumes=WALLET_ASSUMES, expect=['Send:True', 'Send:False', 'Estimate:True', 'Estimate:False', 'Select:True', 'Select:False']),
    'C20': dict(level='model_checking', jobs=wallets('C20'), models=MCWALLET, assumes=WALLET_ASSUMES, expect=['Send:True', 'Recv:True', 'Coinbase', 'Join', 'Refresh:True']),
    'C13': dict(level='model_checking', jobs=jobs_c13, models=MCSYNC, par=4, assumes=['the chain behind the node is a scripted one (the real one is checked under C01 to C08)', 'peers are sockets on the loopback network, and time is virtual', 'TLC and the Community Modules are trusted'],
                expect=['Connect', 'Hand', 'Msg', 'Blocks', 'Give', 'Leave', 'Advance', 'End']),
    'C14': dict(level='model_checking', jobs=jobs_c14, models=MCNET, par=4, assumes=['the chain behind the node is a scripted one (the real one is checked under C01 to C08)', 'peers are sockets on the loopback network, and time is virtual', 'TLC and the Community Modules are trusted'],
                expect=['Connect', 'Hand', 'Shake', 'Msg', 'Burst', 'Garbage', 'Leave', 'Advance', 'End']),
    'C15': dict(level='model_checking', san='-fsanitize=address', jobs=jobs_c15, models=MCCODEC, assumes=['a decoder is judged on the bytes given to it in one buffer', 'the kind of an input written without it is what the (pretended) unspent outputs say', CRYPTO, 'TLC and the Community Modules are trusted'],
                expect=['Enc', 'Dec:True', 'Dec:False', 'Hash', 'Frame:True', 'Frame:False']),
    'C21': dict(level='model_checking', jobs=jobs_c21, models=MCSESSION, assumes=['the node and the Tor process are pretended ones', 'scrypt, AES and SHA-256 are taken to be sound', CRYPTO, 'TLC and the Community Modules are trusted'],
                expect=['Create:True', 'Create:False', 'Restore:True', 'Login:True', 'Login:False', 'Logout:True', 'Use:True', 'Use:False', 'Seed:True', 'Seed:False', 'Change:True', 'Change:False', 'Delete:True', 'Delete:False', 'Post:True', 'Restart']),
}
