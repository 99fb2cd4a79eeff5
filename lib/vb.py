#!/usr/bin/env python3
"""Content-hashed parallel builder: compiles /repo's sources (plus the shims in /verif/shim) and a harness, and links
them.  Objects are reused only when the hash of the command and of every file the compiler read is unchanged, so the
result never depends on time stamps; a changed /repo file always recompiles what includes it."""
import hashlib, os, subprocess, sys, glob, json, shutil, threading
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BD = os.environ.get('VERIF_BUILD', os.path.join(V, '_build'))

INC = ['shim', 'h']
RINC = ['include', 'deps', 'deps/stduuid/include', 'deps/ghc', 'deps/jsoncpp', 'deps/cppcodec',
        'deps/scheduler/include', 'deps/bitcoin/include', 'deps/chachapoly', 'deps/rfc6234', 'src', 'tests/framework']
CXX = ['g++', '-std=c++17', '-include', 'cstdint', '-include', 'stdexcept', '-w', '-Wno-changes-meaning', '-DCATCH_CONFIG_NO_POSIX_SIGNALS',
       '-DUNICODE', '-D_SILENCE_ALL_CXX17_DEPRECATION_WARNINGS', '-DNDEBUG', '-fno-strict-aliasing', '-pthread']
CC = ['gcc', '-w', '-DNDEBUG', '-pthread']
VARIANTS = {
    'rel': ['-O1'],
    'asan': ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr,enum,signed-integer-overflow', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'],
    'tsan': ['-O1', '-g1', '-fsanitize=thread', '-DVERIF_TSAN'],
}
EXTRA = {'deps/scrypt': ['-DHAVE_SCRYPT_CONFIG_H']}
DEPS = ['deps/bitcoin/src/aes.cpp', 'deps/bitcoin/src/bech32.cpp', 'deps/bitcoin/src/ctaes.c',
        'deps/bitcoin/src/ripemd160.cpp', 'deps/bitcoin/src/sha256.cpp', 'deps/bitcoin/src/sha512.cpp',
        'deps/chachapoly/chacha.cpp', 'deps/chachapoly/chachapoly.cpp', 'deps/chachapoly/poly1305.cpp',
        'deps/jsoncpp/jsoncpp.cpp', 'deps/rfc6234/hkdf.c', 'deps/rfc6234/hmac.c', 'deps/rfc6234/sha1.c',
        'deps/rfc6234/sha224-256.c', 'deps/rfc6234/sha384-512.c', 'deps/rfc6234/usha.c',
        'deps/scrypt/crypto_scrypt-ref.cpp', 'deps/scrypt/sha256.cpp', 'deps/sha3/sha3.cpp']
LIBS = ['-lfmt', '-lrocksdb', '-lcivetweb', '-lcivetweb-cpp', '-lroaring', '-lminizip', '-lz', '-lsodium', '-lsqlite3', '-luuid', '-lpthread', '-ldl']

_hc = {}
_hl = threading.Lock()
def fhash(p):
    h = _hc.get(p)
    if h is None:
        try:
            with open(p, 'rb') as f: h = hashlib.sha256(f.read()).hexdigest()
        except OSError: h = 'missing'
        _hc[p] = h
    return h

class BuildError(Exception): pass

def flags(variant, c=False):
    base = (CC if c else CXX) + VARIANTS[variant]
    inc = ['-I' + os.path.join(V, i) for i in INC] + ['-I' + os.path.join(REPO, i) for i in RINC]
    return base + inc

def parse_dep(path):
    t = open(path).read().replace('\\\n', ' ')
    t = t.split(':', 1)[1]
    return [x.replace('\\ ', ' ') for x in t.split() if x]

_pch = {}
_pl = threading.Lock()
PCH = """#pragma once
#include <cstdint>
#include <stdexcept>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <optional>
#include <functional>
#include <algorithm>
#include <sstream>
#include <fstream>
#include <iostream>
#include <thread>
#include <atomic>
#include <mutex>
#include <shared_mutex>
#include <condition_variable>
#include <future>
#include <chrono>
#include <deque>
#include <list>
#include <random>
#include <locale>
#include <codecvt>
#include <iomanip>
#include <filesystem>
#include <array>
#include <regex>
#include <cassert>
#include <fmt/format.h>
#include <json/json.h>
"""
def pch(variant, extra=()):
    """precompiled system headers, in a directory named after everything that went into it"""
    with _pl:
        k = (variant, tuple(extra))
        if k in _pch: return _pch[k]
        cmd = CXX + VARIANTS[variant] + ['-I' + os.path.join(REPO, i) for i in RINC] + list(extra)
        jd = os.path.join(REPO, 'deps/jsoncpp/json')
        hs = ''.join(fhash(os.path.join(jd, f)) for f in sorted(os.listdir(jd)))
        key = hashlib.sha256((norm(cmd) + PCH + hs).encode()).hexdigest()[:16]
        d = os.path.join(BD, 'pch-' + key)
        h = os.path.join(d, 'vpch.h')
        if not os.path.exists(os.path.join(d, 'ok')):
            os.makedirs(d, exist_ok=True)
            open(h, 'w').write(PCH)
            r = subprocess.run(cmd + ['-x', 'c++-header', h, '-o', h + '.gch'], capture_output=True, text=True)
            if r.returncode != 0: raise BuildError('pch\n' + r.stderr[-3000:])
            open(os.path.join(d, 'ok'), 'w').write('ok')
        _pch[k] = h
        return h

def norm(cmd):
    return json.dumps(cmd)

def compile_one(src, obj, variant, extra=()):
    """compile src to obj unless nothing it depends on changed"""
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    c = src.endswith('.c')
    cmd = flags(variant, c) + list(extra) + ['-c', src]
    if src.endswith('/Logger.cpp'): cmd[1:1] = ['-DFMT_HEADER_ONLY=1']   # spdlog's own fmt
    elif not c: cmd[1:1] = ['-include', pch(variant, extra)]
    key = hashlib.sha256(norm(cmd).encode()).hexdigest()
    meta = obj + '.meta'
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m['key'] == key and all(fhash(p) == h for p, h in m['deps'].items()) and os.path.getsize(obj) == m['size']:
                return False
        except Exception: pass
    if os.path.exists(meta): os.remove(meta)
    dep = obj + '.d'
    import time
    t0 = time.time()
    r = subprocess.run(cmd + ['-o', obj, '-MD', '-MF', dep], capture_output=True, text=True)
    if os.environ.get('VB_TIME'): print('%6.1f %s' % (time.time() - t0, obj))
    if r.returncode != 0:
        raise BuildError(src + '\n' + r.stderr[-6000:])
    deps = {p: fhash(p) for p in parse_dep(dep) if not p.startswith('/usr/') and '/pch-' not in p}
    json.dump({'key': key, 'deps': deps, 'size': os.path.getsize(obj)}, open(meta, 'w'))
    os.remove(dep)
    return True

def repo_sources(drop_dirs=()):
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'src')):
        rel = os.path.relpath(root, REPO)
        if any((rel + '/').startswith('src/' + d + '/') for d in drop_dirs): continue
        for f in files:
            if f.endswith('.cpp'): out.append(os.path.join(rel, f))
    drop = lambda p: p.endswith('_Win.cpp') or p == 'src/Common/ChildProcess.cpp' or p == 'src/Server/Main.cpp' or 'Windows' in p
    return sorted(p for p in out if not drop(p))

# groups of sources compiled as one translation unit; a file that cannot share one is listed in ALONE
ALONE = {'src/Crypto/Pedersen.cpp', 'src/Crypto/AggSig.cpp', 'src/Crypto/Bulletproofs.cpp', 'src/Crypto/PublicKeys.cpp',
         'src/Common/Logger.cpp', 'src/Wallet/WalletDB/Sqlite/WalletSqlite.cpp', 'src/Wallet/WalletDB/WalletEncryptionUtil.cpp'}
TARGET_LINES = 700

def groups(srcs):
    by = {}
    for s in srcs:
        by.setdefault('/'.join(s.split('/')[:2]), []).append(s)
    out = []
    for d, fs in sorted(by.items()):
        cur, n = [], 0
        for s in fs:
            if s in ALONE:
                out.append([s]); continue
            l = sum(1 for _ in open(os.path.join(REPO, s), 'rb'))
            if cur and n + l > TARGET_LINES:
                out.append(cur); cur, n = [], 0
            cur.append(s); n += l
        if cur: out.append(cur)
    return out

def build_lib(variant='rel', jobs=8, log=None, extra=(), drop=()):
    srcs = repo_sources(drop)
    gs = groups(srcs)
    tus = []
    od = os.path.join(BD, variant + ('-' + hashlib.sha256(norm(list(extra)).encode()).hexdigest()[:8] if extra else ''))
    os.makedirs(od, exist_ok=True)
    for g in gs:
        name = hashlib.sha256('\n'.join(g).encode()).hexdigest()[:10]
        label = g[0].replace('/', '_')[:-4] + ('_%d_' % len(g)) + name
        tus.append((label, g))
    objs = []
    def job(t):
        label, g = t
        if len(g) == 1:
            o = os.path.join(od, label + '.o')
            compile_one(os.path.join(REPO, g[0]), o, variant, extra)
            return [o]
        u = os.path.join(od, label + '.u.cpp')
        body = ''.join('#include "%s"\n' % os.path.join(REPO, s) for s in g)
        if not os.path.exists(u) or open(u).read() != body:
            open(u, 'w').write(body)
        o = os.path.join(od, label + '.o')
        try:
            compile_one(u, o, variant, extra)
            return [o]
        except BuildError as e:
            if os.environ.get('VB_DEBUG'): print('unity failed', g, str(e)[:1500])
            res = []
            for s in g:
                o = os.path.join(od, s.replace('/', '_')[:-4] + '.1.o')
                compile_one(os.path.join(REPO, s), o, variant, extra)
                res.append(o)
            return res
    def djob(s):
        ex = list(extra)
        for k, v in EXTRA.items():
            if s.startswith(k): ex += v
        o = os.path.join(od, s.replace('/', '_') + '.o')
        compile_one(os.path.join(REPO, s), o, variant, ex)
        return [o]
    def sjob(s):
        o = os.path.join(od, 'shim_' + os.path.basename(s) + '.o')
        compile_one(os.path.join(V, 'shim', s), o, variant, extra)
        return [o]
    with ThreadPoolExecutor(jobs) as ex:
        fs = [ex.submit(job, t) for t in sorted(tus, key=lambda t: -sum(os.path.getsize(os.path.join(REPO, s)) for s in t[1]))]
        fs += [ex.submit(djob, s) for s in DEPS]
        fs += [ex.submit(sjob, s) for s in ['secp_model.cpp', 'child_stub.cpp', 'rocks_fast.cpp', 'tor_stub.cpp']]
        for f in fs: objs += f.result()
    return objs

def build(harness, variant='rel', out=None, extra=(), ldextra=(), more=(), jobs=8, drop=()):
    """harness: path(s) relative to /verif; returns path of the binary"""
    hs = [harness] if isinstance(harness, str) else list(harness)
    od = os.path.join(BD, variant)
    os.makedirs(od, exist_ok=True)
    hobjs = []
    import concurrent.futures
    with ThreadPoolExecutor(4) as ex:
        futs = []
        for s in hs:
            o = os.path.join(od, 'h_' + s.replace('/', '_') + '.o')
            # the scheduler is compiled plain, so that the race detector does not see it
            v = 'rel' if s.startswith('shim/mcsched') else variant
            futs.append(ex.submit(lambda s=s, o=o, v=v: (compile_one(os.path.join(V, s), o, v, extra), o)[1]))
        lib = build_lib(variant, jobs, drop=drop)
        hobjs = [f.result() for f in futs]
    out = out or os.path.join(od, os.path.splitext(os.path.basename(hs[0]))[0])
    # core first: its static objects are used by those of other parts
    lib.sort(key=lambda o: (0 if 'src_Core' in o or 'deps_' in o else 1, o))
    allo = hobjs + lib
    lk = ['g++', '-fuse-ld=gold' if shutil.which('ld.gold') else '-pthread', '-pthread'] + [f for f in VARIANTS[variant] if f.startswith('-fsan')] + lib[:0]
    cmd = lk + ['-o', out] + lib + hobjs + list(ldextra) + LIBS
    h = hashlib.sha256(norm(cmd).encode())
    for o in allo: h.update(hash_obj(o).encode())
    key = h.hexdigest()
    mf = out + '.lmeta'
    if os.path.exists(out) and os.path.exists(mf) and open(mf).read() == key:
        return out
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0: raise BuildError('link\n' + r.stderr[-5000:])
    open(mf, 'w').write(key)
    return out

def hash_obj(o):
    # cheap identity of an object: the hashes of what went into it
    try: return hashlib.sha256(open(o + '.meta', 'rb').read()).hexdigest()
    except OSError: return fhash(o)

if __name__ == '__main__':
    import time
    t = time.time()
    v = sys.argv[1] if len(sys.argv) > 1 else 'rel'
    if len(sys.argv) > 2: print(build(sys.argv[2].split('+'), v, drop=tuple(sys.argv[3].split(',')) if len(sys.argv) > 3 else (), ldextra=os.environ.get('LDX', '').split()))
    else:
        for x in v.split(','): print(x, len(build_lib(x)), 'objects')
    print('%.1fs' % (time.time() - t))
