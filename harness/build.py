#!/usr/bin/env python3
"""Generate and run a ninja build of a driver from /repo's current working tree.

usage: build.py OUTDIR DRIVER [DRIVER...]
Every source under /repo/src (the server's front end and the Windows variants apart) is compiled
as it is; only libsecp256k1-zkp, mio and the bundled sqlite amalgamation, which this sandbox
does not have, come from /verif/standin or the system.
"""
import os, sys, subprocess, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
MODS = ['Common', 'Core', 'Crypto', 'PMMR', 'PoW', 'Database', 'BlockChain', 'TxPool', 'Net', 'P2P', 'Wallet', 'API']
DEPS = ['jsoncpp/jsoncpp.cpp', 'scrypt/crypto_scrypt-ref.cpp', 'scrypt/sha256.cpp', 'sha3/sha3.cpp'] + \
    ['reproc/reproc/src/%s.c' % x for x in ('reproc', 'sink', 'posix/error', 'posix/handle', 'posix/pipe', 'posix/process', 'posix/redirect')] + \
    ['reproc/reproc++/src/%s.cpp' % x for x in ('detail/array', 'error', 'reproc', 'sink')]

def driver_mods(src):
    for line in open(src):
        m = re.match(r'//\s*MODULES:\s*(.*)', line)
        if m: return m.group(1).split()
    return MODS

def main():
    out = os.path.abspath(sys.argv[1]); drivers = sys.argv[2:]
    os.makedirs(out, exist_ok=True)
    cxx = os.environ.get('VCXX', 'clang++-18'); opt = os.environ.get('VOPT', '-O0')
    inc = ['%s/standin' % V, REPO + '/include', REPO + '/src', REPO + '/deps', REPO + '/deps/stduuid/include', REPO + '/deps/ghc', REPO + '/deps/jsoncpp',
           REPO + '/deps/cppcodec', REPO + '/deps/scheduler/include', REPO + '/deps/reproc/reproc++/include', REPO + '/deps/reproc/reproc/include',
           REPO + '/deps/bitcoin/include', REPO + '/deps/scrypt', REPO + '/deps/chachapoly', REPO + '/deps/rfc6234', REPO + '/deps/reproc/reproc++/src', REPO + '/deps/reproc/reproc/src', REPO + '/_build/deps/reproc/reproc++/include', REPO + '/_build/deps/reproc/reproc/include', out]
    # reproc's generated export headers
    for lib in ('reproc', 'reproc++'):
        d = '%s/%s' % (out, lib); os.makedirs(d, exist_ok=True)
    for f, up in (('reproc/export.h', 'REPROC'), ('reproc++/export.hpp', 'REPROCXX')):
        p = '%s/%s' % (out, f)
        if not os.path.exists(p): open(p, 'w').write('#pragma once\n#define %s_EXPORT\n#define REPROC_CXX_EXPORT\n#define REPROCPP_EXPORT\n' % up)
    I = ' '.join('-I' + i for i in inc)
    san = os.environ.get('VSAN', '')
    D = '-DUNICODE -DFMT_HEADER_ONLY=1 -D_SILENCE_ALL_CXX17_DEPRECATION_WARNINGS -DCATCH_CONFIG_NO_POSIX_SIGNALS -DNDEBUG -DGRINPP_VERIF -DHAVE_SCRYPT_CONFIG_H'
    W = '-w' + (' -Wno-changes-meaning -fpermissive' if 'clang' not in cxx else '')
    cxxflags = '-include cstdint -std=c++17 %s %s %s -pthread %s %s' % (W, opt, san, D, I)
    cflags = '-w -O1 %s -pthread -D_GNU_SOURCE -DHAVE_SCRYPT_CONFIG_H -DREPROC_MULTITHREADED -D_REENTRANT=1 %s' % (san, I)
    n = []
    n.append('ninja_required_version = 1.3\nbuilddir = %s\n' % out)
    n.append('rule pch\n command = %s -x c++-header %s %s $in -o $out -MD -MF $out.d\n depfile = $out.d\n' % (cxx, cxxflags, '-fpch-instantiate-templates -fpch-codegen' if 'clang' in cxx else ''))
    use = '-include-pch %s/pch.h.gch' % out if 'clang' in cxx else '-include %s/pch.h' % out
    open(out + '/pch.h', 'w').write('#include "%s/harness/pch.h"\n' % V) if not os.path.exists(out + '/pch.h') else None
    n.append('rule cxx\n command = %s %s %s -c $in -o $out -MD -MF $out.d\n depfile = $out.d\n deps = gcc\n' % (cxx, use, cxxflags))
    n.append('rule cxx2\n command = %s %s -O2 -c $in -o $out -MD -MF $out.d\n depfile = $out.d\n deps = gcc\n' % (cxx, cxxflags))
    n.append('rule cxx0\n command = %s %s -c $in -o $out -MD -MF $out.d\n depfile = $out.d\n deps = gcc\n' % (cxx, cxxflags))
    n.append('rule cc\n command = gcc %s -c $in -o $out -MD -MF $out.d\n depfile = $out.d\n deps = gcc\n' % cflags)
    n.append('rule link\n command = %s %s -pthread -fuse-ld=%s -no-pie -o $out @$out.rsp $libs\n rspfile = $out.rsp\n rspfile_content = $in\n' % (cxx, san, os.environ.get('VLD', 'lld')))
    n.append('build %s/pch.h.gch: pch %s/pch.h\n' % (out, out))
    if 'clang' in cxx: n.append('rule pcho\n command = %s -w %s %s -c $in -o $out\nbuild %s/pch.o: pcho %s/pch.h.gch\n' % (cxx, opt, san, out, out))
    need = []
    dm = {}
    for d in drivers:
        m = driver_mods('%s/harness/%s.cpp' % (V, d)); dm[d] = m
        for x in m:
            if x not in need: need.append(x)
    objs = {}
    def obj(src, rule):
        o = out + '/o/' + src.lstrip('/').replace('/', '_') + '.o'
        n.append('build %s: %s %s%s\n' % (o, rule, src, ' | %s/pch.h.gch' % out if rule == 'cxx' else ''))
        return o
    fast = ('src/PoW/Cuck', 'src/Crypto/')
    for m in [x for x in MODS if x in need]:
        srcs = sorted(glob.glob('%s/src/%s/**/*.cpp' % (REPO, m), recursive=True))
        srcs = [s for s in srcs if not s.endswith('_Win.cpp')]
        objs[m] = [obj(s, 'cxx0' if s.endswith('/Logger.cpp') else 'cxx') for s in srcs]
    hsrc = [V + '/standin/secp.cpp'] + [REPO + '/deps/' + x for x in DEPS] + sorted(glob.glob(REPO + '/deps/bitcoin/src/*.c*')) + \
        sorted(glob.glob(REPO + '/deps/chachapoly/*.c*')) + [s for s in sorted(glob.glob(REPO + '/deps/rfc6234/*.c')) if 'shatest' not in s]; hsrc = [s for s in hsrc if 'chachapoly-test' not in s]; hsrc = hsrc
    base = [obj(s, 'cc' if s.endswith('.c') else 'cxx2' ) for s in hsrc]
    libs = '-lrocksdb -lroaring -lcivetweb-cpp -lcivetweb -lminizip -lz -lsodium -lsqlite3 -luuid -ldl -lpthread'
    for d in drivers:
        extra = []
        o = [obj('%s/harness/%s.cpp' % (V, d), 'cxx')]
        if 'clang' in cxx: o.append(out + '/pch.o')
        allo = o + sum((objs[m] for m in MODS if m in dm[d]), [])
        # Core first: its ConfigProps globals have to be constructed before the rest
        allo = sum((objs[m] for m in ['Core'] if m in dm[d]), []) + [x for x in allo if x not in objs.get('Core', [])] + base
        link = [l[9:].strip() for l in open('%s/harness/%s.cpp' % (V, d)) if l.startswith('// LINK: ')]
        n.append('build %s/%s: link %s\n libs = %s\n' % (out, d, ' '.join(allo), ' '.join(link + [libs])))
    n.append('default %s\n' % ' '.join('%s/%s' % (out, d) for d in drivers))
    open(out + '/build.ninja', 'w').write('\n'.join(n))
    return subprocess.call(['ninja', '-C', out, '-j', os.environ.get('VJOBS', '8')] + (['-k', '0'] if os.environ.get('VKEEP') else []), stdout=sys.stderr)
sys.exit(main())
