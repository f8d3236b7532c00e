"""Builds everything a check needs from /repo's current working tree."""
import hashlib, os, subprocess, sys, glob, fcntl, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OCREVAL_REPO', '/repo')
SRC = REPO + '/src'
B = os.environ.get('SYMIR_BUILD', V + '/build')
CLANG = '/usr/bin/clang-18'
LB = '/usr/lib/llvm-18/bin/'
DEFS = ['-std=gnu89', '-D_XOPEN_SOURCE=600', '-I' + SRC]
LAX = ['-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion', '-Wno-error=incompatible-function-pointer-types', '-Wno-error=implicit-int', '-Wno-error=return-type', '-Wno-error=return-mismatch', '-Wno-unknown-warning-option']
PASSES = 'sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg'

class BuildError(Exception): pass
LOCK = threading.RLock()
def locked(f):
    def g(*a, **k):
        with LOCK: return f(*a, **k)
    return g

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode: raise BuildError('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout

def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]

def engine():
    os.makedirs(B, exist_ok=True)
    d = digest(glob.glob(V + '/engine/*'))
    exe = B + '/symir-' + d
    with open(B + '/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            for o in glob.glob(B + '/symir-*'): os.remove(o)
            sh(['bash', V + '/engine/Makefile.sh', B])
            os.rename(B + '/symir', exe)
    return exe

class Tree:
    """bitcode and native programs of one source tree"""
    def __init__(self):
        self.files = sorted(glob.glob(SRC + '/*.c'))
        if not self.files: raise BuildError('no sources in ' + SRC)
        self.key = digest(self.files + sorted(glob.glob(SRC + '/*.h')) + sorted(glob.glob(V + '/rt/*')) , PASSES)
        self.dir = B + '/t-' + self.key
        self.tools, self.libs = [], []
    def bitcode(self):
        with open(B + '/.lock2', 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            self._bitcode()
    def _bitcode(self):
        d = self.dir + '/bc'
        if not os.path.exists(d + '/done'):
            import shutil
            for o in glob.glob(B + '/t-*'): shutil.rmtree(o, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            flags = ['-w'] + LAX + ['-O1', '-g', '-Xclang', '-disable-llvm-passes', '-fno-builtin', '-ffp-contract=off', '-c', '-emit-llvm']
            def cc(s): sh([CLANG] + flags + DEFS + [s, '-o', d + '/' + os.path.basename(s)[:-2] + '.bc'])
            def cm(s): sh([CLANG] + flags + [s, '-o', d + '/' + os.path.basename(s)[:-2] + '.bc'])
            with ThreadPoolExecutor(8) as ex:
                fs = [ex.submit(cc, s) for s in self.files] + [ex.submit(cm, V + '/rt/minilibc.c')]
                for f in fs: f.result()
            names = [os.path.basename(s)[:-2] for s in self.files]
            tools = [n for n in names if ' T main\n' in sh([LB + 'llvm-nm', d + '/' + n + '.bc'])]
            libs = [n for n in names if n not in tools]
            sh([LB + 'llvm-link'] + [d + '/' + n + '.bc' for n in libs] + ['-o', d + '/_lib.bc'])
            def lk(n):
                sh([LB + 'llvm-link', d + '/' + n + '.bc', '--only-needed', d + '/_lib.bc', d + '/minilibc.bc', '-o', d + '/' + n + '.l.bc'])
                # floating point chains: choices between values become selects
                ps = PASSES + (',function(gvn,simplifycfg<sink-common-insts>,instsimplify,simplifycfg)' if ' U sqrt' in sh([LB + 'llvm-nm', d + '/' + n + '.l.bc']) else '')
                sh([LB + 'opt', '-passes=' + ps, d + '/' + n + '.l.bc', '-o', d + '/' + n + '.x.bc'])
            with ThreadPoolExecutor(8) as ex: list(ex.map(lk, tools))
            open(d + '/done', 'w').write(' '.join(tools) + '\n' + ' '.join(libs))
        t, l = open(d + '/done').read().split('\n')
        self.tools, self.libs = t.split(), l.split()
        self.bc = d
    @locked
    def harness(self, src, defs=(), lib=False):
        """link a harness (with the library when lib) into one module"""
        self.bitcode()
        name = os.path.basename(src)[:-2] + '-' + digest([src] + glob.glob(V + '/harness/*.h'), ' '.join(defs))
        out = '%s/h-%s.bc' % (self.bc, name)
        if not os.path.exists(out):
            tmp = out + '.%d' % os.getpid()
            sh([CLANG, '-w', '-O1', '-g', '-Xclang', '-disable-llvm-passes', '-fno-builtin', '-ffp-contract=off', '-c', '-emit-llvm', '-DSYMIR', '-I' + V + '/rt', '-I' + V + '/harness'] + list(DEFS if lib else []) + list(defs) + [src, '-o', tmp + '.0'])
            sh([LB + 'llvm-link', tmp + '.0', '--only-needed'] + ([self.bc + '/_lib.bc'] if lib else []) + [self.bc + '/minilibc.bc', '-o', tmp + '.1'])
            sh([LB + 'opt', '-passes=' + PASSES, tmp + '.1', '-o', tmp])
            os.rename(tmp, out)
            for s in ('.0', '.1'): os.remove(tmp + s)
        return out
    SAN = {'plain': ['-O1', '-g'], 'asan': ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer']}
    @locked
    def native_tools(self, mode, names):
        self.bitcode()
        d = self.dir + '/' + mode; os.makedirs(d, exist_ok=True); fl = self.SAN[mode]
        def cc(n):
            o = d + '/' + n + '.o'
            if not os.path.exists(o): sh(['gcc', '-w'] + fl + DEFS + ['-c', SRC + '/' + n + '.c', '-o', o + '.%d' % os.getpid()]); os.rename(o + '.%d' % os.getpid(), o)
            return o
        with ThreadPoolExecutor(8) as ex:
            libs = list(ex.map(cc, self.libs)); list(ex.map(cc, names))
            def lk(n):
                e = d + '/' + n
                if not os.path.exists(e): sh(['gcc'] + fl + [d + '/' + n + '.o'] + libs + ['-o', e + '.%d' % os.getpid(), '-lm', '-lutf8proc']); os.rename(e + '.%d' % os.getpid(), e)
            list(ex.map(lk, names))
        return d
    @locked
    def native_harness(self, src, mode, defs=(), lib=False):
        self.bitcode()
        d = self.dir + '/' + mode; os.makedirs(d, exist_ok=True); fl = self.SAN[mode]
        out = '%s/h-%s-%s' % (d, os.path.basename(src)[:-2], digest([src] + glob.glob(V + '/harness/*.h') + glob.glob(V + '/rt/*'), ' '.join(defs)))
        if os.path.exists(out): return out
        tmp = out + '.%d' % os.getpid()
        cmd = ['gcc', '-w'] + fl + ['-c', '-DNATIVE', '-I' + V + '/rt', '-I' + V + '/harness']
        sh(cmd + list(DEFS if lib else []) + list(defs) + [src, '-o', tmp + '.h.o'])
        sh(['gcc', '-w'] + fl + ['-c', '-I' + V + '/rt', V + '/rt/symrt_native.c', '-o', tmp + '.r.o'])
        objs = [tmp + '.h.o', tmp + '.r.o']
        if lib:
            ld = d + '/xlib'; os.makedirs(ld, exist_ok=True)
            def cc(n):
                o = ld + '/' + n + '.o'
                if not os.path.exists(o): sh(['gcc', '-w'] + fl + DEFS + ['-Dexit=symrt_exit', '-c', SRC + '/' + n + '.c', '-o', o + '.%d' % os.getpid()]); os.rename(o + '.%d' % os.getpid(), o)
                return o
            with ThreadPoolExecutor(8) as ex: objs += list(ex.map(cc, self.libs))
        sh(['gcc'] + fl + objs + ['-o', tmp, '-lm', '-lutf8proc']); os.rename(tmp, out)
        os.remove(tmp + '.h.o'); os.remove(tmp + '.r.o')
        return out

if __name__ == '__main__':
    engine(); t = Tree(); t.bitcode(); print(t.tools, t.libs)
