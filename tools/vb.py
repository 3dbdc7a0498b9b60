#!/usr/bin/env python3
"""Build: engine, bitcode of /repo's translation units (content-addressed), harness bitcode, native objects for replay."""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, subprocess, sys, time

V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
R = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
CXX = 'clang++-18'
CPP = ['-std=c++17', '-I.', '-Itests', '-I' + os.path.join(V, 'engine'), '-I' + os.path.join(V, 'harness'), '-I' + os.path.join(V, 'engine/gen'),
       '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS',
       '-D__STDC_LIMIT_MACROS', '-DJLM_ENABLE_ASSERTS', '-DGTEST_HAS_PTHREAD=1',
       '-include', os.path.join(V, 'engine/prelude.h')]
# -O1 code of the real source, kept close to the source: no vectorisation and no unrolling.
OPT = ['-O1', '-g0', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-w', '-fno-stack-protector',
       '-Xclang', '-disable-lifetime-markers', '-mllvm', '-enable-dfa-jump-thread=false',
       '-fPIC', '-fno-jump-tables']
VERSION = '3'
JOBS = int(os.environ.get('VERIF_JOBS', str(os.cpu_count() or 8)))
LIBS = {'util': 'jlm/util', 'rvsdg': 'jlm/rvsdg', 'llvm': 'jlm/llvm', 'tooling': 'jlm/tooling', 'hls': 'jlm/hls'}
EXCLUDE = re.compile(r'RhlsToFirrtlConverter|FirrtlToVerilogConverter|Tests\.cpp$')


def sha(b):
    return hashlib.sha256(b).hexdigest()[:32]


def fsha(p, cache={}):
    try:
        st = os.stat(p)
        k = (p, st.st_mtime_ns, st.st_size)
        if k not in cache:
            with open(p, 'rb') as f:
                cache[k] = sha(f.read())
        return cache[k]
    except OSError:
        return 'missing'


def lib_sources(lib):
    d = LIBS[lib]
    txt = open(os.path.join(R, d, 'Makefile.sub')).read().replace('\\\n', ' ')
    out = []
    for m in re.finditer(r'^lib%s_SOURCES\s*=(.*)$' % lib, txt, re.M):
        for s in m.group(1).split():
            if s.endswith('.cpp') and not EXCLUDE.search(s) and os.path.exists(os.path.join(R, s)):
                out.append(s)
    return sorted(set(out))


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


class BuildError(Exception):
    pass


def src_bc(src, extra=()):
    """Bitcode for one source (relative to R, or absolute); returns path."""
    absolute = os.path.isabs(src)
    flags = CPP + OPT + list(extra)
    base = sha((VERSION + R + ':' + src + '\0'.join(flags)).encode())
    depf = os.path.join(B, 'dep', base + '.json')
    try:
        d = json.load(open(depf))
        if all(fsha(p) == h for p, h in d['deps'].items()) and os.path.exists(d['bc']):
            return d['bc']
    except (OSError, ValueError, KeyError):
        pass
    tmpd = os.path.join(B, 'tmp')
    os.makedirs(tmpd, exist_ok=True)
    os.makedirs(os.path.join(B, 'dep'), exist_ok=True)
    os.makedirs(os.path.join(B, 'bc'), exist_ok=True)
    mmd = os.path.join(tmpd, base + '.%d.d' % os.getpid())
    p = run([CXX] + CPP + list(extra) + ['-E', '-P', '-MD', '-MF', mmd, src], cwd=R)
    if p.returncode != 0:
        raise BuildError(src + '\n' + p.stderr.decode(errors='replace')[-4000:])
    deps = open(mmd).read().replace('\\\n', ' ').split(':', 1)[1].split()
    os.unlink(mmd)
    key = sha((VERSION + '\0'.join(flags)).encode() + p.stdout)
    bc = os.path.join(B, 'bc', os.path.basename(src)[:-4] + '-' + key + '.bc')
    if not os.path.exists(bc):
        t = bc + '.%d.tmp' % os.getpid()
        p = run([CXX] + flags + ['-emit-llvm', '-c', src, '-o', t], cwd=R)
        if p.returncode != 0:
            raise BuildError(src + '\n' + p.stderr.decode(errors='replace')[-4000:])
        os.replace(t, bc)
    dd = {}
    for x in deps:
        x = x if os.path.isabs(x) else os.path.join(R, x)
        if not x.startswith('/usr/'):
            dd[x] = fsha(x)
    t = depf + '.%d.tmp' % os.getpid()
    json.dump({'deps': dd, 'bc': bc}, open(t, 'w'))
    os.replace(t, depf)
    return bc


def bc_obj(bc):
    o = bc[:-3] + '.o'
    if not os.path.exists(o):
        t = o + '.%d.tmp' % os.getpid()
        p = run([CXX, '-c', '-x', 'ir', '-O1', '-Xclang', '-disable-llvm-passes', '-fPIC', '-w', bc, '-o', t])
        if p.returncode != 0:
            raise BuildError(bc + '\n' + p.stderr.decode(errors='replace')[-4000:])
        os.replace(t, o)
    return o


def pmap(f, xs):
    xs = list(xs)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(f, xs))


def engine():
    srcs = ['expr.cpp', 'decode.cpp', 'engine.cpp']
    hdrs = ['expr.hpp', 'engine.hpp']
    E = os.path.join(V, 'engine')
    key = sha(b''.join(open(os.path.join(E, x), 'rb').read() for x in srcs + hdrs))
    out = os.path.join(B, 'symx-' + key)
    if os.path.exists(out):
        return out
    os.makedirs(B, exist_ok=True)
    fl = ['-std=c++17', '-O2', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
          '-D__STDC_LIMIT_MACROS', '-w']
    def comp(s):
        o = os.path.join(B, s[:-4] + '.%d.o' % os.getpid())
        p = run([CXX] + fl + ['-c', os.path.join(E, s), '-o', o])
        if p.returncode:
            raise BuildError(p.stderr.decode(errors='replace')[-4000:])
        return o
    objs = pmap(comp, srcs)
    t = out + '.%d.tmp' % os.getpid()
    p = run([CXX, '-rdynamic'] + objs + ['-o', t, '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3', '-lpthread', '-ldl'])
    if p.returncode:
        raise BuildError(p.stderr.decode(errors='replace')[-4000:])
    os.replace(t, out)
    for o in objs:
        os.unlink(o)
    return out


def lib_bcs(libs):
    srcs = [s for l in libs for s in lib_sources(l)]
    return dict(zip(srcs, pmap(src_bc, srcs)))


def harness_bc(name):
    return src_bc(os.path.join(V, 'harness', name + '.cpp'))


def native_lib(bcs):
    """Shared library of the bitcode, lowered natively: what counterexamples and sampled paths are replayed on."""
    key = sha('\0'.join(bcs).encode())
    out = os.path.join(B, 'native-' + key + '.so')
    if not os.path.exists(out):
        objs = pmap(bc_obj, bcs)
        t = out + '.%d.tmp' % os.getpid()
        rsp = t + '.rsp'
        open(rsp, 'w').write('\n'.join(objs))
        p = run([CXX, '-shared', '-fPIC', '-o', t, '@' + rsp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
        os.unlink(rsp)
        if p.returncode:
            raise BuildError(p.stderr.decode(errors='replace')[-4000:])
        os.replace(t, out)
    return out


def native_exe(hbc, bcs):
    nlib = native_lib(bcs)
    nsrc = os.path.join(V, 'engine/native.cpp')
    key = sha((hbc + nlib + fsha(nsrc)).encode())
    out = os.path.join(B, 'replay-' + key)
    if not os.path.exists(out):
        t = out + '.%d.tmp' % os.getpid()
        p = run([CXX, '-O1', '-w', '-std=c++17', nsrc, '-c', '-o', t + '.n.o'])
        if p.returncode:
            raise BuildError(p.stderr.decode(errors='replace')[-4000:])
        p = run([CXX, '-rdynamic', '-o', t, t + '.n.o', bc_obj(hbc), nlib, '-Wl,-rpath,' + B, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
        os.unlink(t + '.n.o')
        if p.returncode:
            raise BuildError(p.stderr.decode(errors='replace')[-4000:])
        os.replace(t, out)
    return out


class Lock:
    def __enter__(self):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()


def main():
    t0 = time.time()
    with Lock():
        print('engine', engine(), '%.1fs' % (time.time() - t0), flush=True)
        libs = sys.argv[1:] or list(LIBS)
        bcs = lib_bcs(libs)
        print('bitcode', len(bcs), '%.1fs' % (time.time() - t0), flush=True)
        if not sys.argv[1:]:
            hs = sorted(f[:-4] for f in os.listdir(os.path.join(V, 'harness')) if f.endswith('.cpp'))
            pmap(harness_bc, hs)
            print('harnesses', len(hs), '%.1fs' % (time.time() - t0), flush=True)
        pmap(bc_obj, bcs.values())
        print('objects', '%.1fs' % (time.time() - t0), flush=True)


if __name__ == '__main__':
    try:
        main()
    except BuildError as e:
        print('BUILD ERROR', e)
        sys.exit(2)
