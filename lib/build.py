"""Builds the symbolic engine and, from /repo's working tree, the LLVM bitcode the checks execute."""
import hashlib, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'
CXX = LLVM + '/clang++'
SHIM = VERIF + '/shim'
CACHE = os.environ.get('SX_CACHE')  # development only: reuse objects whose preprocessed text is unchanged

# units: name -> (source, extra flags); SyntaxTree is compiled once per grammar (see mkpegtl.py)
UNITS = {n: (REPO + '/src/%s.cpp' % n, []) for n in (
    'Base64', 'GraphQLClient', 'GraphQLResponse', 'GraphQLService', 'Introspection', 'IntrospectionSchema',
    'JSONResponse', 'Schema', 'Validation', 'SchemaLoader', 'GeneratorLoader', 'GeneratorUtil', 'RequestLoader')}
GRAMMARS = {'SyntaxTree': 0x10, 'GrammarExec': 1, 'GrammarMixed': 2, 'GrammarSchema': 4, 'GrammarMixedSchema': 8}
for n, m in GRAMMARS.items():
    UNITS[n] = (REPO + '/src/SyntaxTree.cpp', ['-DSX_TUMASK=%d' % m])
UNITS['TodaySchema'] = (REPO + '/samples/unified/TodaySchema.cpp', [])
# code which schemagen and clientgen, built from /repo, generate for harness/gen/*.graphql
for n in ('GenSchema', 'GenClient'):
    UNITS[n] = ('GEN/%s.cpp' % n, [])
GENERATOR = ['GraphQLService', 'GraphQLResponse', 'Validation', 'Schema', 'IntrospectionSchema', 'Introspection', 'Base64', 'SyntaxTree', 'GrammarSchema', 'GrammarExec', 'SchemaLoader', 'GeneratorLoader', 'GeneratorUtil']
UNITS['rt'] = (SHIM + '/sym/rt.cpp', [])
UNITS['grammar'] = (SHIM + '/common/grammar.cpp', [])
# weight: longest compilations first
SLOW = {'GrammarMixedSchema': 9, 'GrammarMixed': 8, 'GrammarSchema': 7, 'GrammarExec': 6, 'ENGINE-ir': 5, 'GraphQLService': 4, 'IntrospectionSchema': 3}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError('command failed (%d): %s\n%s' % (p.returncode, ' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def llvm_config(*a):
    return run([LLVM + '/llvm-config', *a]).split()


class Builder:
    def __init__(self, work):
        self.work = work
        os.makedirs(work, exist_ok=True)
        self.pool = ThreadPoolExecutor(max_workers=os.cpu_count() or 8)
        self.times = {}
        self.genlock = threading.Lock()
        self.generated = False

    def cached(self, name, out, ppcmd, cmd, post=None):
        t = time.time()
        key = None
        if CACHE:
            os.makedirs(CACHE, exist_ok=True)
            pp = subprocess.run(ppcmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
            key = CACHE + '/' + hashlib.sha256(pp + repr([c.replace(self.work, 'W') for c in cmd]).encode()).hexdigest()
            if os.path.exists(key):
                shutil.copy(key, out)
                os.utime(key)
                return out
        run(cmd)
        if post:
            post(out)
        if key:
            shutil.copy(out, key + '.%d' % os.getpid())
            os.rename(key + '.%d' % os.getpid(), key)
        self.times[name] = round(time.time() - t, 1)
        return out

    # ---- engine ----
    def engine(self):
        E = VERIF + '/engine'
        cxxf = [f for f in llvm_config('--cxxflags') if not f.startswith('-std=') and f != '-fno-exceptions']
        objs = []
        def one(n):
            o = '%s/%s.o' % (self.work, n)
            fl = ['-std=c++17', '-O2'] if n != 'ir' else ['-std=c++17', '-O1', '-fno-exceptions', '-fno-rtti', *cxxf]
            c = ['g++', *fl, '%s/%s.cpp' % (E, n)]
            return self.cached('ENGINE-' + n, o, c + ['-E'], c + ['-c', '-o', o])
        futs = [self.pool.submit(one, n) for n in ('ir', 'interp', 'expr', 'externs')]
        def link():
            objs = [f.result() for f in futs]
            out = self.work + '/symx'
            run(['g++', *objs, '-o', out, '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3'])
            return out
        return link

    # ---- symbolic bitcode ----
    def flags(self):
        return ['-std=c++17', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-pie', '-U_FORTIFY_SOURCE', '-w', '-DSX_SYMBOLIC',
                '-I', self.work + '/gen', '-I', SHIM, '-I', SHIM + '/sym', '-I', SHIM + '/common', '-I', VERIF + '/harness', '-I', REPO + '/include', '-I', REPO + '/samples/unified']

    def gen(self):
        d = self.work + '/gen/tao/pegtl/contrib'
        os.makedirs(d, exist_ok=True)
        run([sys.executable, SHIM + '/mkpegtl.py', d + '/parse_tree.hpp'])

    def generate(self):
        """schemagen and clientgen from /repo's sources, then the code they write for harness/gen."""
        with self.genlock:
            if self.generated:
                return
            t = time.time()
            pool = ThreadPoolExecutor(max_workers=6)
            base = self.native_flags(False) + ['-DUSE_STD_FILESYSTEM']  # with the real <future>
            futs = {}
            for u in ['SyntaxTree', 'GrammarSchema', 'GrammarExec', 'SchemaGenerator', 'ClientGenerator', 'RequestLoader'] + GENERATOR:
                if u not in futs:
                    futs[u] = pool.submit(self.native_unit, u, base, False, 'tool-')
            rest = [pool.submit(self.native_unit, x, base, False, 'tool-') for x in (SHIM + '/common/grammar.cpp', SHIM + '/native/toolexit.cpp')]
            objs = lambda *us: [futs[u].result() for u in us] + [r.result() for r in rest]
            out = self.work + '/gen'
            G = VERIF + '/harness/gen/'
            def tool(main, opts, *extra):
                exe = self.work + '/' + main
                run([CXX, *objs(main, *extra, *GENERATOR), '-o', exe, '-lboost_program_options', '-lpthread'])
                run([exe, '-s', 'schema.graphql', '-p', 'Gen', '-n', 'gen', '--source-dir', out, '--header-dir', out, *opts], cwd=G)
            a = pool.submit(tool, 'SchemaGenerator', [])
            c = pool.submit(tool, 'ClientGenerator', ['-r', 'request.graphql'], 'RequestLoader')
            a.result(), c.result()
            self.times['generate'] = round(time.time() - t, 1)
            self.generated = True

    def source(self, src):
        """path of a source which may have to be generated first; generated headers are ready afterwards"""
        if src.startswith('GEN/'):
            self.generate()
            return self.work + '/gen/' + src[4:]
        if os.path.exists(src) and re.search(r'#include "Gen(Schema|Client)\.h"', open(src).read()):
            self.generate()
        return src

    def unit(self, name, src=None, extra=()):
        if src is None:
            src, extra = UNITS[name]
        src = self.source(src)
        out = '%s/%s.bc' % (self.work, name)
        base = [CXX, *self.flags(), *extra]
        post = None
        if name.startswith('Grammar'):
            post = self.internalize
        return self.cached(name, out, base + ['-E', src], base + ['-emit-llvm', '-c', src, '-o', out], post)

    def internalize(self, bc):
        """Grammar units repeat SyntaxTree.cpp: keep only their inline (mergeable) symbols public."""
        keep = []
        for l in run([LLVM + '/llvm-nm', '--defined-only', '--extern-only', bc]).splitlines():
            f = l.split()
            if len(f) >= 2 and f[-2] in 'WVwvu':
                keep.append(f[-1])
        lst = bc + '.keep'
        open(lst, 'w').write('\n'.join(keep) + '\n')
        run([LLVM + '/opt', '-passes=internalize', '-internalize-public-api-file=' + lst, bc, '-o', bc])

    def link(self, out, bcs):
        tmp = out + '.linked'
        run([LLVM + '/llvm-link', *bcs, '-o', tmp])
        run([LLVM + '/opt', '-passes=internalize,globaldce', '-internalize-public-api-list=harness_main', tmp, '-o', out])
        os.unlink(tmp)
        return out

    # ---- native replay ----
    def native_flags(self, future=True):
        return [CXX, '-std=c++17', '-O0', '-w', '-I', self.work + '/gen', '-I', SHIM, *(['-I', SHIM + '/common'] if future else []), '-I', VERIF + '/harness', '-I', REPO + '/include', '-I', REPO + '/samples/unified']

    def native_unit(self, u, base, sanitize, prefix='native-'):
        src, extra = UNITS[u] if u in UNITS else (u, []) if '/' in u else (REPO + '/src/%s.cpp' % u, [])
        src = self.source(src)
        if sanitize and u in GRAMMARS:  # one source compiled several times: metadata of its globals would clash
            extra = [*extra, '-mllvm', '-asan-globals=0']
        o = '%s/%s%s-%d.o' % (self.work, prefix, os.path.basename(u), bool(sanitize))
        weaken = lambda o: run(['objcopy', '--weaken', o])
        return self.cached(prefix + os.path.basename(u), o, base + extra + ['-E', src], base + extra + ['-c', src, '-o', o], weaken if u.startswith('Grammar') else None)

    def native(self, harness_src, units, out, sanitize):
        san = ['-fsanitize=address'] if sanitize else []
        base = self.native_flags() + ['-g1', '-DSX_NATIVE', *san]
        names = sorted((u for u in units if u != 'rt'), key=lambda u: -SLOW.get(u, 0))
        objs = list(self.pool.map(lambda u: self.native_unit(u, base, sanitize), names + ['grammar', harness_src, SHIM + '/native/replay.cpp']))
        run([CXX, *san, *objs, '-o', out, '-lpthread'])
        return out
