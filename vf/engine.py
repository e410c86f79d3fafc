"""Runs bounded symbolic-execution queries (goto-cc + cbmc) over /repo's current
sources, replays every counterexample on a native build of the same sources,
and writes the evidence file."""
import copy, os, re, sys, json, time, shutil, signal, subprocess, tempfile, threading, hashlib
from concurrent.futures import ThreadPoolExecutor, as_completed
from vf.reach import Graph, Obj

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
HARN = os.path.join(VERIF, 'harness')
OUT = os.environ.get('VF_OUT') or VERIF   # evidence/ and replays/ go here
NCPU = min(8, os.cpu_count() or 8)
# platform files that are not part of the Linux build's object list
SKIP = {'iocp.c', 'kqueue.c', 'wasm.c', 'epoll.c'}   # epoll.c is #included by poll.c
BASE = ['-std=c17', '-fsigned-char', '-DGIT_HASH="x"']
_INC = ['-include', os.path.join(REPO, 'core/def.h'), '-include', os.path.join(HARN, 'shim.h'), f'-I{REPO}']
CC = {
    'goto': ['goto-cc', *BASE, '-DVF_SYMBOLIC=1', '-include', os.path.join(REPO, 'core/def.h'), '-include', os.path.join(HARN, 'shim.h'), f'-I{REPO}'],
    'native': ['/usr/bin/clang', *BASE, '-O0', '-gline-tables-only', '-w', '-fsanitize=address', '-fno-omit-frame-pointer', '-flax-vector-conversions', *_INC],
    'sect': ['/usr/bin/clang', *BASE, '-O0', '-w', '-ffunction-sections', '-fdata-sections', '-flax-vector-conversions', *_INC],
}
# C library functions with a model (harness/libc_model.c or cbmc's own library)
MODELLED = set("""malloc calloc realloc free memcpy memmove memset memcmp memchr strlen strnlen strcmp strncmp strncpy strchr
floor ceil trunc fabs __errno_location sqrt fmod abs""".split())
# C library functions outside the encoding: reaching one fails the query
STUB_HEADERS = ['stdio.h', 'stdlib.h', 'unistd.h', 'fcntl.h', 'pthread.h', 'sys/mman.h', 'sys/stat.h', 'time.h', 'dlfcn.h', 'sys/socket.h', 'string.h']
STUBS = {m.group(1): p for p in [x.strip() for x in """
void exit(int c)|void abort(void)|void __assert_fail(const char *a, const char *f, unsigned l, const char *n)|int fprintf(FILE *f, const char *s, ...)
int printf(const char *s, ...)|void perror(const char *s)|int puts(const char *s)|int putchar(int c)|size_t fwrite(const void *p, size_t a, size_t b, FILE *f)
int fflush(FILE *f)|int clock_gettime(clockid_t c, struct timespec *t)|int open(const char *p, int f, ...)|int close(int f)|int ftruncate(int f, off_t n)
ssize_t read(int f, void *b, size_t n)|ssize_t write(int f, const void *b, size_t n)|off_t lseek(int f, off_t o, int w)|int fstat(int f, struct stat *s)
int stat(const char *p, struct stat *s)|int unlink(const char *p)|int mkdir(const char *p, mode_t m)|char *getenv(const char *n)|int setenv(const char *n, const char *v, int o)
int nanosleep(const struct timespec *a, struct timespec *b)|ssize_t send(int f, const void *b, size_t n, int g)|ssize_t recv(int f, void *b, size_t n, int g)
int snprintf(char *b, size_t n, const char *f, ...)|int vsnprintf(char *b, size_t n, const char *f, va_list a)|char *strerror(int e)|long sysconf(int n)
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x)|int pthread_join(pthread_t t, void **r)|int munmap(void *p, size_t n)
int mprotect(void *p, size_t n, int f)|int msync(void *p, size_t n, int f)|int madvise(void *p, size_t n, int f)|void *mmap(void *p, size_t n, int a, int b, int c, off_t o)
""".replace('|', chr(10)).split(chr(10)) if x.strip()] for m in [re.match(r'[\w ]+?[ *]+(\w+)\(', p)]}
# bodies dropped unless a query keeps them: reaching one fails the query (assert false)
CUT = ['env_.*', 'parse.*', 'obj_fmt.*', 'str_fmt.*', 'str_vfmt.*', '.*_fmt_into.*', 'poll_.*', 'ipc_.*', 'runtime_.*', 'fs_.*', 'sys_.*', 'timer.*',
       'ray_eval.*', 'eval.*', 'cc_.*', 'vm_eval', 'ray_parse.*', 'timeit_.*', 'progress_.*', 'mmap_.*', 'term_.*', 'sock_.*', 'thread_.*', 'heap_borrow',
       'heap_merge', 'io_.*', 'ray_raise', 'dynlib_.*']


POOL = ('pool_split_by', 'pool_split_by_mem', 'pool_chunk_aligned', 'pool_prepare', 'pool_add_task', 'pool_run', 'pool_get', 'pool_get_executors_count')
UF_OPS = 'bvmul|bvsdiv|bvudiv|bvsrem|bvurem'


def uf_ops(line):
    """bvmul and the divisions become uninterpreted functions, except a product with a constant"""
    out, pos = [], 0
    for m in re.finditer(r'\((%s) ' % UF_OPS, line):
        rest = line[m.end():]
        if not rest.startswith('(_ bv'):   # skip the first operand
            i, d, bar = 0, 0, False
            while i < len(rest):
                c = rest[i]
                if c == '|':
                    bar = not bar
                elif not bar:
                    d += (c == '(') - (c == ')')
                    if d == 0 and (c == ' ' or c == ')'):
                        break
                i += 1
            rest = rest[i + 1:]
        k = re.match(r'\(_ bv(\d+) ', rest)
        # (a small or power-of-two factor is address arithmetic)
        real = m.group(1) == 'bvmul' and k and (int(k.group(1)) < 1 << 20 or bin(int(k.group(1))).count('1') == 1)
        out.append(line[pos:m.start()] + ('(' if real else '(uf.') + m.group(1) + ' ')
        pos = m.end()
    return ''.join(out) + line[pos:]


def redirect(text, to):
    """uses of f inside function bodies become uses of to[f]"""
    out, pos, depth, top, used = [], 0, 0, (0, 0), {}
    for m in re.finditer(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|[{}]|;|\b[A-Za-z_]\w*\b', text):
        k = m.group()
        if k == '{':
            depth += 1
        elif k == '}':
            depth -= 1
        if depth == 0 and k in ';}':
            top = len(out), m.end()
        elif depth and k in to:
            if k not in used:
                used[k] = top
            out.append((m.start(), m.end(), to[k]))
    ins = {}
    for k, (_, at) in used.items():
        ins.setdefault(at, []).append(f' extern __typeof__({k}) {to[k]};')
    ed = sorted([(a, b, r) for a, b, r in out] + [(at, at, ''.join(v)) for at, v in ins.items()])
    res = []
    for a, b, r in ed:
        res.append(text[pos:a] + r)
        pos = b
    return ''.join(res) + text[pos:]


class Q:
    """One solver query: a harness entry compiled with `defs` and decided by cbmc."""
    def __init__(self, name, file, entry='harness', defs=None, unwind=6, mem=False, leak=False, solver=None,
                 flags=(), timeout=None, tier='quick', bounds='', unwindset='', objbits=11, native=True,
                 functions=(), extra=(), cdefs=None, weight=1, cut=(), keep=(), replace=(), inner=None, hint=False, recall=(), subst=()):
        self.hint = hint                      # the harness names inputs (nd_hint) that reach its end
        self.inner = inner                    # bound of loops nested in another loop of the same function
        self.name, self.file, self.entry = name, file, entry
        self.defs = dict(defs or {})
        self.unwind, self.mem, self.leak, self.solver = unwind, mem, leak, solver
        self.flags, self.timeout, self.tier, self.bounds = list(flags), timeout or (120 if tier == 'quick' else 600), tier, bounds
        self.unwindset, self.objbits, self.native = unwindset, objbits, native
        self.functions = list(functions)      # entry points of the real code encoded by the query
        self.extra = list(extra)              # further /repo sources (outside core/) to link
        self.cdefs = dict(cdefs or {})        # extra defines for compiling the core (own object set)
        self.weight = weight
        self.cdefs.setdefault('SYS_MALLOC', None)
        if self.cdefs['SYS_MALLOC'] is False:
            del self.cdefs['SYS_MALLOC']
        self.cut = [*CUT, *cut]               # regexes of functions whose body becomes assert(false)
        self.keep = list(keep)                # exceptions to cut
        self.replace = tuple(replace)         # core functions the harness defines itself
        self.subst = tuple(subst)             # (regex, text): smaller capacities in the preprocessed sources of the encoding
        self.recall = tuple(recall)           # (f, g): direct calls of f become calls of the harness's g (recursion by contract)
        self.uf = False                       # floating-point operators as uninterpreted functions


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                          errors='replace', **kw)


def defs_to_flags(d):
    return [f'-D{k}' if v is None else f'-D{k}={v}' for k, v in d.items()]


class Engine:
    def __init__(self, prop, tier='quick', seed=1, budget=820, level='model_checking', assumptions=(), keep=False,
                 verbose=False):
        self.prop, self.tier, self.seed, self.budget = prop, tier, seed, budget
        self.level, self.assumptions = level, list(assumptions)
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f'vf-{prop}-', dir='/tmp')
        self.keep, self.verbose = keep, verbose
        os.environ['TMPDIR'] = self.scratch      # temporary files of the tools go there too
        self.lock = threading.Lock()
        self.memo = {}
        self.procs = set()
        self.stop = threading.Event()
        self.linked = threading.Event()
        self.results, self.violations, self.undecided, self.unconfirmed = [], [], [], []
        self.samples = []
        self.traces_validated = 0
        self.notes = []
        self.build_error = None

    def left(self):
        return self.budget - (time.time() - self.t0)

    def log(self, *a):
        if self.verbose:
            with self.lock:
                print(f'[{time.time()-self.t0:6.1f}s]', *a, flush=True)

    # ---- process handling -------------------------------------------------
    def run(self, cmd, timeout, mem_gb=None, env=None, cwd=None, outfile=None):
        """Run a command in its own process group; returns (rc, output) or (None, output) on timeout/stop."""
        timeout = max(1, min(timeout, self.left()))

        def pre():
            os.setsid()
            if mem_gb:
                import resource
                b = int(mem_gb * (1 << 30))
                resource.setrlimit(resource.RLIMIT_AS, (b, b))
        out = outfile or os.path.join(self.scratch, f'out-{threading.get_ident()}-{time.time_ns()}')
        with open(out, 'w') as f:
            p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, preexec_fn=pre, env=env, cwd=cwd,
                                 stdin=subprocess.DEVNULL)
        with self.lock:
            self.procs.add(p)
        rc = None
        end = time.time() + timeout
        try:
            while True:
                try:
                    rc = p.wait(timeout=0.2)
                    break
                except subprocess.TimeoutExpired:
                    if time.time() > end or self.stop.is_set():
                        break
        finally:
            if rc is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
            with self.lock:
                self.procs.discard(p)
        with open(out, errors='replace') as f:
            s = f.read()
        if not outfile:
            os.unlink(out)
        return rc, s

    # ---- building ----------------------------------------------------------
    def core_files(self):
        return sorted(f for f in os.listdir(os.path.join(REPO, 'core')) if f.endswith('.c') and f not in SKIP)

    def _compile(self, kind, q, src, tag):
        d = os.path.join(self.scratch, f'{kind}-{tag}')
        os.makedirs(d, exist_ok=True)
        obj = os.path.join(d, src.replace('/', '_')[:-2] + '.o')
        ex = [f'-I{REPO}/ext/raykx'] if src.startswith('ext/raykx/') else []
        nice = ['nice', '-n', '5'] if kind == 'native' else []
        rc, s = self.run([*nice, *CC[kind], *defs_to_flags(q.cdefs), *ex, '-c', os.path.join(REPO, src), '-o', obj], 200)
        if rc != 0:
            raise RuntimeError(f'{kind} compile of {src} failed: {s[-600:]}')
        return obj

    def obj_of(self, kind, q, src):
        tag = hashlib.md5(repr(sorted(q.cdefs.items())).encode()).hexdigest()[:8]
        return self.once((kind, tag, src), lambda: self._compile(kind, q, src, tag))

    def once(self, key, fn):
        """memoise fn() under key, one thread computing it"""
        with self.lock:
            ent = self.memo.get(key)
            if ent is None:
                ent = self.memo[key] = {'lock': threading.Lock()}
        with ent['lock']:
            if 'v' not in ent:
                ent['v'] = fn()
        return ent['v']

    def sources(self, q):
        return ['core/' + f for f in self.core_files()] + q.extra

    def objs(self, kind, q, only=None):
        srcs = [f for i, f in enumerate(self.sources(q)) if only is None or i in only]
        with ThreadPoolExecutor(NCPU) as ex:
            return list(ex.map(lambda f: self.obj_of(kind, q, f), srcs))

    def graph(self, q):
        """call/reference graph of the core, from -O0 objects with one section per function"""
        key = ('graph', tuple(sorted(q.cdefs.items())), tuple(q.extra))
        return self.once(key, lambda: Graph(self.objs('sect', q)))

    def harness_obj(self, kind, q, defs, out):
        rc, s = self.run([*CC[kind], f'-I{HARN}', f'-I{REPO}/ext/raykx', *defs_to_flags(q.cdefs), *defs_to_flags(defs),
                          '-c', os.path.join(HARN, q.file), '-o', out], 200)
        if rc != 0:
            raise RuntimeError(f'harness {q.file} does not compile: {s[-1500:]}')
        return out

    def gkey(self, q):
        """queries that differ only in entry and solver settings share one linked program"""
        return repr((q.file, sorted(q.defs.items()), sorted(q.cdefs.items()), q.extra, q.cut, q.keep, q.replace, q.mem, q.leak, q.uf, q.recall, q.subst))

    def link_goto(self, q):
        try:
            return self.once(('link', self.gkey(q)), lambda: self._link_goto(q, self.groups[self.gkey(q)]))
        finally:
            self.linked.set()

    def _link_goto(self, q, entries):
        g = self.graph(q)
        sect = self.objs('sect', q)
        tag = hashlib.md5(self.gkey(q).encode()).hexdigest()[:10]
        with ThreadPoolExecutor(2) as ex:
            f1 = ex.submit(self.harness_obj, 'goto', q, q.defs, os.path.join(self.scratch, f'h-{tag}.o'))
            hs = Obj(self.harness_obj('sect', q, q.defs, os.path.join(self.scratch, f'hs-{tag}.o')))
            h = f1.result()
        cutre = [re.compile('^(?:' + c + ')$') for c in q.cut]
        keep = [re.compile('^(?:' + c + ')$') for c in q.keep]

        def cut(n):
            return any(c.match(n) for c in cutre) and not any(k.match(n) for k in keep)
        names, files, cuts = g.reach(hs, sorted(entries), cut, set(q.replace))
        hdef = {n for n, d in hs.defs.items() if d[1] == 'FUNC' and d[2] != 'LOCAL'}
        b = os.path.join(self.scratch, f'b-{tag}.gb')
        todo = [(src, frozenset(names[i] - set(q.replace)), frozenset(cuts - set(q.replace))) for i, src in enumerate(self.sources(q)) if sect[i] in files]
        with ThreadPoolExecutor(NCPU) as ex:
            lm = ex.submit(lambda: self.once(('libc', q.mem, q.leak, q.uf, tuple(sorted(hdef & (set(STUBS) | MODELLED)))), lambda: self.libc_obj(q, hdef & (set(STUBS) | MODELLED))))
            objs = list(ex.map(lambda t: self.once(('pruned', tuple(sorted(q.cdefs.items())), q.recall, q.subst, t), lambda: self.pruned_obj(q, *t)), todo))
        rc, s = self.run(['goto-cc', h, *objs, lm.result(), '-o', b, '--function', q.entry], 200)
        if rc != 0:
            raise RuntimeError(f'harness {q.file} does not link: {s[-1500:]}')
        return b

    def cpp(self, q, src):
        o = os.path.join(self.scratch, hashlib.md5(repr((sorted(q.cdefs.items()), src)).encode()).hexdigest()[:10] + '.pp')
        ex = [f'-I{REPO}/ext/raykx'] if src.startswith('ext/raykx/') else []
        rc, s = self.run([*CC['goto'], '-E', *defs_to_flags(q.cdefs), *ex, os.path.join(REPO, src), '-o', o], 100)
        if rc != 0:
            raise RuntimeError(f'preprocessing {src} failed: {s[-600:]}')
        return o

    def pruned_obj(self, q, src, keep, cuts):
        """the file with only the bodies the query can reach"""
        pp = self.once(('cpp', tuple(sorted(q.cdefs.items())), src), lambda: self.cpp(q, src))
        t = os.path.join(self.scratch, hashlib.md5(repr((sorted(q.cdefs.items()), q.recall, q.subst, src, sorted(keep), sorted(cuts))).encode()).hexdigest()[:10])
        with open(t + '.k', 'w') as f:
            f.writelines(f'keep {n}\n' for n in keep)
            f.writelines(f'cut {n}\n' for n in cuts)
        rc, s = self.run([sys.executable, os.path.join(VERIF, 'vf/prune.py'), pp, t + '.i', t + '.k'], 100)
        if rc == 0 and (q.recall or q.subst):
            with open(t + '.i') as f:
                text = redirect(f.read(), dict(q.recall))
                for old, new in q.subst:
                    text = re.sub(old, new, text)
            with open(t + '.i', 'w') as f:
                f.write(text)
        if rc == 0:
            rc, s = self.run(['goto-cc', '-std=c17', '-fsigned-char', '-c', t + '.i', '-o', t + '.o'], 100)
        if rc != 0:
            raise RuntimeError(f'goto-cc of {src} failed: {s[-800:]}')
        return t + '.o'

    def libc_obj(self, q, hdef):
        base = os.path.join(self.scratch, f'libc-{int(q.mem)}{int(q.leak)}{int(q.uf)}-{hashlib.md5(repr(sorted(hdef)).encode()).hexdigest()[:8]}')
        with open(base + '.c', 'w') as f:
            f.write(''.join(f'#include <{h}>\n' for h in STUB_HEADERS))
            for n, proto in STUBS.items():
                if n not in hdef:
                    f.write(f'{proto} {{ __CPROVER_assert(0, "reached {n}, which is outside the encoding"); __CPROVER_assume(0); }}\n')
        o = base + '.o'
        rc, s = self.run(['goto-cc', '-std=gnu17', '-D_GNU_SOURCE', '-c', base + '.c', '-o', base + '.s.o'], 100)
        if rc == 0:
            rc, s = self.run(['goto-cc', '-std=c17', *(['-DVF_MEM'] if q.mem else []), *(['-DVF_LEAK'] if q.leak else []), *(['-DVF_UF'] if q.uf else []),
                              *[f'-DNO_{n}' for n in sorted(hdef)], '-c', os.path.join(HARN, 'libc_model.c'), '-o', base + '.m.o'], 100)
        if rc == 0:
            rc, s = self.run(['goto-cc', base + '.s.o', base + '.m.o', '-o', o], 100)
        if rc != 0:
            raise RuntimeError('libc model: ' + s[-800:])
        return o

    def link_native(self, q, extra_defs=None):
        objs = self.objs('native', q)
        d = dict(q.defs); d.update(extra_defs or {})
        tag = hashlib.md5(repr((q.file, q.entry, sorted(d.items()), sorted(q.replace), q.extra, sorted(q.cdefs.items()))).encode()).hexdigest()[:10]
        exe = os.path.join(self.scratch, f'n-{tag}')

        def build():
            o = list(objs)
            if q.replace:
                # the harness supplies these functions: make the core's definitions weak
                wd = os.path.join(self.scratch, f'w-{tag}')
                os.makedirs(wd, exist_ok=True)
                nd = os.path.join(self.scratch, 'weak')
                for i, p in enumerate(o):
                    w = os.path.join(wd, os.path.basename(p))
                    rc, s = self.run(['objcopy', *[f'--weaken-symbol={n}' for n in sorted(q.replace)], p, w], 60)
                    o[i] = w
            hs = self.harness_obj('native', q, d, exe + '.h.o')
            main = self.once(('main', q.entry), lambda: self.native_main(q))
            rc, s = self.run(['/usr/bin/clang', '-fsanitize=address', '-no-pie', '-Wl,-z,lazy', '-Wl,--unresolved-symbols=ignore-all', hs, main, *o, '-o', exe + '.tmp', '-lm', '-ldl', '-lpthread'], 200)
            if rc != 0:
                raise RuntimeError(f'native harness {q.file} does not build: {s[-1500:]}')
            os.rename(exe + '.tmp', exe)
            return exe
        return self.once(('exe', tag), build)

    def native_main(self, q):
        o = os.path.join(self.scratch, f'main-{q.entry}.o')
        rc, s = self.run([*CC['native'], f'-DVF_ENTRY={q.entry}', '-c', os.path.join(HARN, 'vf_native.c'), '-o', o], 100)
        if rc != 0:
            raise RuntimeError(s[-500:])
        return o

    # ---- solving -----------------------------------------------------------
    def cbmc_cmd(self, q, binary, unwind, trace, only=None):
        c = ['cbmc', binary, '--function', q.entry, '--unwind', str(unwind), '--unwinding-assertions', '--no-malloc-may-fail',
             '--drop-unused-functions', '--no-library', '--object-bits', str(q.objbits), '--no-standard-checks', '--verbosity', '8']
        if q.mem:
            c += ['--bounds-check', '--pointer-check', '--div-by-zero-check']
        if q.leak:
            c += ['--memory-leak-check']
        us = [q.unwindset] if q.unwindset else []
        if q.inner:
            us += [f'{l}:{max(q.inner, q.inner * unwind // q.unwind)}' for l in self.inner_loops(binary)]
        if us:
            c += ['--unwindset', ','.join(us)]
        if q.solver:
            if q.solver in ('z3', 'cvc5'):
                c += ['--' + q.solver]
            else:
                c += ['--external-sat-solver', q.solver]
        if trace:
            c += ['--trace']
        if only:
            c += ['--property', only]
        return c + q.flags

    def inner_loops(self, binary):
        """names of the loops nested in another loop of the same function"""
        def scan():
            rc, out = self.run(['goto-instrument', '--show-goto-functions', binary], 100)
            res, fn, pos, label, back = [], None, 0, {}, []
            for line in out.split('\n'):
                m = re.match(r'^(\S+) /\* ', line)
                if m:
                    fn, pos, label, back = m.group(1), 0, {}, []
                    continue
                if line.startswith('        //') or fn is None:
                    continue
                m = re.match(r'^ *(\d+): ', line)
                if m:
                    label[m.group(1)] = pos
                m = re.search(r'GOTO (\d+)$', line)
                if m and m.group(1) in label:
                    back.append((label[m.group(1)], pos))
                if 'END_FUNCTION' in line:
                    for i, (a, b) in enumerate(back):
                        if any(j != i and c <= a and b <= d for j, (c, d) in enumerate(back)):
                            res.append(f'{fn}.{i}')
                    fn = None
                pos += 1
            return res
        return self.once(('inner', binary), scan)

    RES = re.compile(r'^\[([^\]]+)\] (?:file \S+ )?(?:line \d+ )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$')

    def parse(self, out):
        r = {'props': {}, 'traces': {}, 'steps': 0, 'vccs': 0, 'vars': 0, 'clauses': 0, 'solver_s': 0.0, 'symex_s': 0.0,
             'verdict': None, 'missing': set()}
        m = re.findall(r'size of program expression: (\d+) steps', out)
        r['steps'] = sum(map(int, m))
        for a, b in re.findall(r'Generated (\d+) VCC\(s\), (\d+) remaining', out):
            r['vccs'] += int(b)
        m = re.findall(r'^(\d+) variables, (\d+) clauses', out, re.M) or re.findall(r'(\d+) variables[, ]+(\d+) clauses', out)
        if m:
            r['vars'], r['clauses'] = int(m[-1][0]), int(m[-1][1])
        r['solver_s'] = sum(map(float, re.findall(r'Runtime decision procedure: ([\d.e+-]+)s', out))) or \
            sum(map(float, re.findall(r'Runtime Solver: ([\d.e+-]+)s', out)))
        r['symex_s'] = sum(map(float, re.findall(r'Runtime Symex: ([\d.e+-]+)s', out)))
        cur = None
        body = []
        for line in out.split('\n'):
            mm = self.RES.match(line)
            if mm:
                r['props'][mm.group(1)] = (mm.group(2), mm.group(3))
                continue
            if line.startswith('Trace for '):
                cur = line[len('Trace for '):].rstrip(':').strip()
                r['traces'][cur] = []
                continue
            if cur is not None:
                mm = re.match(r'^  vf_nd_log=(\d+)u?l?l?', line)
                if mm:
                    r['traces'][cur].append(int(mm.group(1)))
                elif line.startswith('** ') or line.startswith('VERIFICATION'):
                    cur = None
            if line.startswith('VERIFICATION SUCCESSFUL'):
                r['verdict'] = 'ok'
            elif line.startswith('VERIFICATION FAILED'):
                r['verdict'] = 'fail'
            mm = re.match(r"\*\*\*\* WARNING: no body for function '?([\w$]+)'?", line)
            if mm:
                r['missing'].add(mm.group(1))
            mm = re.match(r"no body for function '?([\w$]+)'?", line)
            if mm:
                r['missing'].add(mm.group(1))
        # every trace records the static initialiser of vf_nd_log first
        return r

    def uf_query(self, q):
        x = copy.copy(q)
        x.defs = {**q.defs, 'VF_NOREACH': None}
        x.uf, x.solver = True, 'z3'
        return x

    def reach_query(self, q):
        x = copy.copy(q)
        if q.hint:
            x.defs = {**q.defs, 'VF_REACHRUN': None}
        return x

    def decide_uf(self, q, res):
        """All obligations at once, with the floating-point operators (and floor, ceil, sqrt) left
        uninterpreted: unsat holds for the real operators too; anything else decides nothing."""
        t = time.time()
        x = self.uf_query(q)
        f = os.path.join(self.scratch, f'uf-{hashlib.md5(q.name.encode()).hexdigest()[:10]}.smt2')
        cmd = [c for c in self.cbmc_cmd(x, self.link_goto(x), q.unwind, False)] + ['--outfile', f]
        rc, out = self.run(cmd, q.timeout, mem_gb=14)
        if not os.path.exists(f):
            return False
        r = self.parse(out)
        for k in ('steps', 'vccs', 'symex_s'):
            res[k] = r[k]
        if r['missing']:
            return False
        with open(f) as h:
            s = h.read()
        names = re.findall(r'^\(define-fun (float_bv\.floatbv_(?:mult|div|plus|minus|rem|typecast)[^ ]*) (\(.*?\)\)) (\(_ BitVec \d+\)) ', s, re.M)
        for n, pars, ret in names:
            sorts = ' '.join(re.findall(r'\(\w+ (\(_ BitVec \d+\))\)', pars))
            m = re.match(r'float_bv\.floatbv_typecast_[su]\d+->f64_52$', n)
            abstract = f'(declare-fun {n} ({sorts}) {ret})'
            if m:   # facts of the real conversion of an integer: 0 gives 0, anything else a normal number
                ps = re.findall(r'\((\w+) \(_ BitVec (\d+)\)\)', pars)
                call = f'({n}.uf {" ".join(a for a, _ in ps)})'
                abstract = (f'(declare-fun {n}.uf ({sorts}) {ret})\n(define-fun {n} {pars} {ret} (ite (= {ps[0][0]} (_ bv0 {ps[0][1]})) (_ bv0 64) '
                            f'(ite (or (= ((_ extract 62 52) {call}) (_ bv2047 11)) (= ((_ extract 62 52) {call}) (_ bv0 11))) (_ bv4607182418800017408 64) {call})))')
            s = s.replace(f'(define-fun {n} {pars} {ret} ', f'{abstract}\n(define-fun {n}.real {pars} {ret} ', 1)
        lit = r'\((float_bv\.floatbv_(?:mult|div|plus|minus|rem|typecast)[^ ()]*)((?: \(_ bv\d+ \d+\))+)\)'
        s = re.sub(lit, r'(\1.real\2)', s)
        for _ in range(3):   # constants are computed
            s = re.sub(r'\((float_bv\.floatbv_[^ ()]*)(?<!\.real)((?: (?:\(_ bv\d+ \d+\)|\(float_bv\.floatbv_[^ ()]*\.real(?: \(_ bv\d+ \d+\))+\)))+)\)', r'(\1.real\2)', s)
        # integer multiplication and division: uninterpreted too, unless the operands are constants
        # or one is a power of two (address arithmetic)
        s = '\n'.join(l if '(define-fun float_bv' in l or '.real (' in l else uf_ops(l) for l in s.split('\n'))
        decl = '\n'.join(f'(declare-fun uf.{o} ((_ BitVec {w}) (_ BitVec {w})) (_ BitVec {w}))' for o in UF_OPS.split('|') for w in (8, 16, 32, 33, 53, 54, 56, 64, 65, 128))
        i = s.index('\n', s.index('(set-logic') if '(set-logic' in s else 0) + 1
        s = s[:i] + decl + '\n' + s[i:]
        s = re.sub(r'^\((get-value|get-model|exit|set-option :produce).*$', '', s, flags=re.M)
        s = s[:s.rindex('(check-sat)') + 11] + '\n'
        with open(f, 'w') as h:
            h.write(s)
        # facts about the initial contents of arrays are dropped (fewer assumptions: unsat still holds)
        s = re.sub(r'^\(assert \((?:= \(select array|forall).*$', '', s, flags=re.M)
        s2 = s.replace('(check-sat)', '(check-sat-using (then simplify propagate-values solve-eqs simplify ackermannize_bv simplify solve-eqs simplify bit-blast sat))')
        with open(f, 'w') as h:
            h.write(s2)
        rc, out = self.run(['z3', f'-T:{int(q.timeout)}', f], q.timeout, mem_gb=8)
        if 'unknown' in out.split('\n'):   # arrays left
            with open(f, 'w') as h:
                h.write(s)
            rc, out = self.run(['z3', f'-T:{int(q.timeout)}', f], q.timeout, mem_gb=8)
        res['solver_s'] = round(time.time() - t, 2)
        res['clauses'] = len(re.findall(r'^\(assert', s, re.M))
        if not self.keep:
            os.unlink(f)
        ans = [l for l in out.split('\n') if l in ('sat', 'unsat', 'unknown', 'timeout')]
        if 'error' in out:
            self.log('z3', q.name, out[:300])
        return rc == 0 and ans == ['unsat'] and 'error' not in out

    def decide(self, q):
        t = time.time()
        if q.solver == 'uf':
            res = {'name': q.name, 'bounds': q.bounds, 'functions': q.functions, 'unwind': q.unwind}
            q2 = copy.copy(q)
            q2.solver = 'kissat'
            try:
                if self.decide_uf(q, res):
                    # is the end of the harness reachable?
                    q2 = self.reach_query(q2)
                    b2 = self.link_goto(q2)
                    rc, out = self.run([x for x in self.cbmc_cmd(q2, b2, q.unwind, False) if x != '--external-sat-solver' and x != q2.solver] + ['--show-properties'], 60)
                    m = re.search(r'Property (%s\.assertion\.\d+):\n[^\n]*\n\s*REACH' % re.escape(q.entry), out)
                    rc, out = self.run(self.cbmc_cmd(q2, b2, q.unwind, True, m.group(1) if m else f'{q.entry}.assertion.1'), q.timeout, mem_gb=14)
                    r = self.parse(out)
                    ok = [p for p, (d, st) in r['props'].items() if d == 'REACH' and st == 'FAILURE']
                    res['status'] = 'holds' if ok else 'vacuous' if r['verdict'] == 'ok' else 'undecided'
                    res['obligations'] = res.get('vccs', 0)
                    res['wall_s'] = round(time.time() - t, 1)
                    if ok and q.native:
                        res['witness'] = r['traces'].get(ok[0])
                    return res
            except RuntimeError as e:
                self.log(q.name, str(e)[:300])
            if self.stop.is_set():
                res['status'] = 'skipped'
                return res
            self.log(q.name, 'not settled with uninterpreted operators')
            q2 = copy.copy(q)
            q2.solver = 'kissat'
            res = self.decide(q2)
            return res
        unwind = q.unwind
        res = {'name': q.name, 'bounds': q.bounds, 'functions': q.functions, 'status': None, 'unwind': unwind}
        try:
            binary = self.link_goto(q)
        except RuntimeError as e:
            if self.stop.is_set() or self.left() < 3:
                res['status'] = 'skipped'
                return res
            res['status'] = 'error'; res['detail'] = str(e)
            return res
        for attempt in range(3):
            rc, out = self.run(self.cbmc_cmd(q, binary, unwind, True), q.timeout, mem_gb=14)
            r = self.parse(out)
            for k in ('steps', 'vccs', 'vars', 'clauses', 'solver_s', 'symex_s'):
                res[k] = r[k]
            res['missing'] = sorted(r['missing'])
            res['unwind'] = unwind
            res['wall_s'] = round(time.time() - t, 1)
            if self.keep:
                with open(os.path.join(self.scratch, f'cbmc-{q.name}.log'), 'w') as f:
                    f.write(out)
            if rc is None:
                res['status'] = 'skipped' if self.stop.is_set() else 'timeout'
                return res
            if r['verdict'] is None:
                res['status'] = 'error'; res['detail'] = out[-800:]
                return res
            bad = [(p, d) for p, (d, s) in r['props'].items() if s == 'FAILURE' and d != 'REACH']
            reach = [p for p, (d, s) in r['props'].items() if d == 'REACH']
            reached = [p for p in reach if r['props'][p][1] == 'FAILURE']
            res['obligations'] = len(r['props']) - len(reach)
            res['failing'] = [f'{p}: {d}' for p, d in bad][:20]
            if not bad:
                if reach and not reached:
                    res['status'] = 'vacuous'
                    return res
                if r['missing']:
                    res['status'] = 'undecided'   # reached a function outside the encoding
                    return res
                res['status'] = 'holds'
                if reached and q.native and r['traces'].get(reached[0]) is not None:
                    res['witness'] = r['traces'][reached[0]]
                return res
            # replay each counterexample on the real code
            # (a path that left the encoding says nothing about the real code)
            confirmed = self.confirm(q, [b for b in bad if 'outside the encoding' not in b[1]], r)
            if confirmed:
                res['status'] = 'violated'; res['violation'] = confirmed
                return res
            only_unwind = all('.unwind.' in p or 'unwinding assertion' in d for p, d in bad)
            if any('.unwind.' in p or '.recursion' in p for p, d in bad) and attempt < 2:
                unwind = unwind * 2 if attempt == 0 else unwind * 2
                res['retried_unwind'] = unwind
                if only_unwind or True:
                    continue
            res['status'] = 'undecided' if only_unwind else 'unconfirmed'
            return res
        res['status'] = 'undecided'
        return res

    def confirm(self, q, bad, r):
        if not q.native:
            return None
        try:
            exe = self.link_native(q)
        except RuntimeError as e:
            self.notes.append(str(e)[:600])
            return None
        # property assertions first, then memory checks, then unwinding
        order = sorted(bad, key=lambda x: (0 if x[1].startswith('PROP') else 1 if '.unwind.' not in x[0] else 2))
        seen = set()
        for p, d in order[:12]:
            vals = r['traces'].get(p)
            if vals is None or tuple(vals) in seen:
                continue
            seen.add(tuple(vals))
            for cand in (vals, vals[1:]):
                v = self.native_run(q, exe, cand)
                if v['failed']:
                    v.update({'property': self.prop, 'query': q.name, 'obligation': f'{p}: {d}', 'values': cand,
                              'file': q.file, 'entry': q.entry, 'defs': q.defs})
                    return v
                if len(vals) <= v.get('consumed', -1):
                    break
        return None

    def native_run(self, q, exe, vals, timeout=60):
        f = os.path.join(self.scratch, f'v-{threading.get_ident()}-{time.time_ns()}')
        with open(f, 'w') as h:
            h.write('\n'.join(map(str, vals)) + '\n')
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = f'detect_leaks={1 if q.leak else 0}:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0'
        rc, out = self.run([exe, f], timeout, env=env)
        os.unlink(f)
        r = {'rc': rc, 'out': out[-3000:], 'failed': False, 'how': None}
        m = re.search(r'VF-DONE consumed=(\d+) of (\d+)', out)
        if m:
            r['consumed'] = int(m.group(1))
        if rc == 42:
            m = re.search(r'VF-CHECK-FAILED (.*)', out)
            r.update(failed=True, how=m.group(1) if m else 'check failed')
        elif rc == 99 or 'ERROR: AddressSanitizer' in out or 'ERROR: LeakSanitizer' in out:
            m = re.search(r'ERROR: (\w+Sanitizer: .*)', out)
            r.update(failed=True, how=m.group(1)[:200] if m else 'sanitizer report')
        elif rc == 43 or (rc is None and not self.stop.is_set() and self.left() > 5):
            r.update(failed=True, how='does not terminate (20 s)')
        elif rc == 44:
            r.update(failed=True, how='arithmetic trap (division by zero)')
        elif rc is not None and rc < 0:
            r.update(failed=True, how=f'killed by signal {-rc}')
        elif rc == 77:
            r['how'] = 'assumption not met'
        elif rc == 127:
            r['how'] = 'native harness did not start'
        elif rc == 0:
            r['how'] = 'no failure'
        else:
            r.update(failed=(rc is not None), how=f'exit code {rc}')
        return r

    # ---- a whole check -----------------------------------------------------
    def check(self, queries, known=(), validate=3):
        qs = [q for q in queries if q.tier == 'quick' or self.tier == 'thorough']
        qmap = {q.name: q for q in qs}
        self.groups = {}
        for q in qs:
            for x in [q] + ([self.uf_query(q), self.reach_query(q)] if q.solver == 'uf' else []):
                self.groups.setdefault(self.gkey(x), set()).add(x.entry)
        assert len(qmap) == len(qs), 'duplicate query names'
        if not qs:
            raise SystemExit('no queries')
        nat = None
        try:
            viol = None
            bg = {}
            for q in qs:
                bg.setdefault((tuple(sorted(q.cdefs.items())), tuple(q.extra)), q)

            def prebuild():
                self.linked.wait(60)
                for q in bg.values():
                    try:
                        self.objs('native', q)
                    except Exception:  # noqa
                        pass
            threading.Thread(target=prebuild, daemon=True).start()
            ex = ThreadPoolExecutor(NCPU)
            futs = {ex.submit(self.decide, q): q for q in sorted(qs, key=lambda q: -q.weight)}
            # native objects build alongside
            for f in as_completed(futs):
                q = futs[f]
                try:
                    res = f.result()
                except Exception as e:  # noqa
                    res = {'name': q.name, 'status': 'error', 'detail': repr(e)[:500]}
                self.results.append(res)
                self.log(q.name, res['status'], f"{res.get('wall_s')}s steps={res.get('steps')} vccs={res.get('vccs')} clauses={res.get('clauses')} solver={res.get('solver_s')}",
                         res.get('failing', '') or '', (res.get('detail') or '')[:200] if res['status'] == 'error' else '',
                         ('missing ' + ','.join(res.get('missing') or [])) if res.get('missing') else '')
                if res['status'] == 'violated' and os.environ.get('VF_ALL'):   # development: list them all
                    print('ALL-VIOLATED', q.name, res['violation'].get('obligation') if isinstance(res['violation'], dict) else '', flush=True)
                elif res['status'] == 'violated' and viol is None:
                    viol = res['violation']
                    self.violations.append(viol)
                    self.stop.set()
            ex.shutdown()
            self.stop.clear()
            if viol is None:
                self.validate_witnesses(qmap, validate)
            self.known(known, qmap)
        finally:
            self.stop.set()
            with self.lock:
                ps = list(self.procs)
            for p in ps:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except Exception:
                    pass
        return self.finish()

    def validate_witnesses(self, qmap, k):
        """Replay the solver's own reachability assignments natively: the harness must
        run to its end on the real code with every obligation satisfied."""
        cand = [r for r in self.results if r['status'] == 'holds' and 'witness' in r]
        todo = cand if k is None else sorted(cand, key=lambda r: r['name'])[:k] if k else []
        def one(r):
            q = qmap[r['name']]
            if self.left() < 30:
                return None
            try:
                exe = self.link_native(q)
            except RuntimeError as e:
                self.notes.append('native build: ' + str(e)[:500]); return None
            for cand in (r['witness'], r['witness'][1:]):
                v = self.native_run(q, exe, cand)
                if v['rc'] == 0 and 'VF-REACHED' in v['out']:
                    return (r, cand, True, v)
            return (r, r['witness'], False, v)
        with ThreadPoolExecutor(NCPU) as ex:
            for x in ex.map(one, todo):
                if x is None:
                    continue
                r, vals, ok, v = x
                if ok:
                    self.traces_validated += 1
                    if len(self.samples) < 6:
                        self.samples.append({'query': r['name'], 'assignment': vals[:24], 'native': 'same path, all obligations satisfied'})
                elif v['failed']:
                    # the witness of reachability itself breaks an obligation on the real code
                    q = qmap[r['name']]
                    v.update({'property': self.prop, 'query': q.name, 'obligation': 'replay of the reachability witness', 'values': vals,
                              'file': q.file, 'entry': q.entry, 'defs': q.defs})
                    self.violations.append(v)
                else:
                    self.notes.append(f"witness of {r['name']} did not replay: {v['how']}")
                    self.log('witness did not replay', r['name'], v['how'], v['out'][-300:])

    def known(self, known, qmap):
        for k in known:
            if k.get('property') != self.prop or k.get('status') != 'open':
                continue
            w = k.get('witness')
            if not w:
                continue
            base = Q('known', w['file'], entry=w.get('entry', 'harness'), defs=w.get('defs'), replace=tuple(w.get('replace', ())), 
                     extra=w.get('extra', ()), cdefs=w.get('cdefs'), leak=w.get('leak', False))
            try:
                exe = self.link_native(base, {'VF_SHOW_KNOWN': None})
                v = self.native_run(base, exe, w['values'])
                if v['failed']:
                    print(f"KNOWN-FINDING: property={self.prop} {k['id']}: {k['what']}", flush=True)
                else:
                    self.notes.append(f"known finding {k['id']} no longer reproduces")
            except RuntimeError as e:
                self.notes.append(f"known finding {k['id']}: {str(e)[:300]}")

    def finish(self):
        by = {}
        for r in self.results:
            by.setdefault(r['status'], []).append(r['name'])
        replay = None
        for v in self.violations:
            os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
            replay = os.path.join(OUT, 'replays', f'{self.prop}.json')
            with open(replay, 'w') as f:
                json.dump(v, f, indent=1)
            print(f"  query {v['query']}: {v['obligation']}\n  on the real code: {v['how']}\n  values: {v['values'][:40]}", flush=True)
        funcs = sorted({f for r in self.results for f in r.get('functions') or []})
        holds = [r for r in self.results if r['status'] == 'holds']
        cov = {
            'states': sum(r.get('steps') or 0 for r in self.results),
            'transitions': sum(r.get('clauses') or r.get('vccs') or 0 for r in self.results),
            'traces_validated_against_impl': self.traces_validated,
            'samples': self.samples or [{'query': r['name'], 'status': r['status']} for r in self.results[:3]],
            'explanation': 'bounded symbolic execution of the real code (goto-cc + cbmc) decided by SAT; states = symbolic execution '
                           'steps encoded, transitions = CNF clauses handed to the solver, traces_validated_against_impl = solver '
                           'assignments replayed on a native build of the same sources with every obligation satisfied',
            'queries': len(self.results), 'queries_discharged': len(holds),
            'obligations_discharged': sum(r.get('obligations') or 0 for r in holds),
            'solver_s': round(sum(r.get('solver_s') or 0 for r in self.results), 1),
            'symex_s': round(sum(r.get('symex_s') or 0 for r in self.results), 1),
            'functions_encoded': funcs,
            'per_query': [{k: r.get(k) for k in ('name', 'status', 'bounds', 'unwind', 'steps', 'vccs', 'clauses', 'solver_s', 'wall_s', 'obligations')}
                          for r in sorted(self.results, key=lambda r: r['name'])],
            'not_decided': {s: n for s, n in by.items() if s not in ('holds', 'violated')},
            'notes': self.notes,
        }
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
        with open(os.path.join(OUT, 'evidence', f'{self.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print(f"{self.prop}: {len(self.results)} queries, " + ', '.join(f'{s}={len(n)}' for s, n in sorted(by.items())) +
              f", validated={self.traces_validated}, {ev['wall_s']} s", flush=True)
        for s, n in by.items():
            if s not in ('holds', 'violated'):
                print(f'  {s}: {", ".join(n[:12])}', flush=True)
        if not self.keep:
            shutil.rmtree(self.scratch, ignore_errors=True)
        else:
            print('scratch', self.scratch)
        if self.violations:
            print(f'VIOLATION property={self.prop} replay={replay}', flush=True)
            return 1
        return 0
