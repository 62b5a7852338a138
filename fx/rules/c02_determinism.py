"""Results depend on nothing but the inputs: no read of an undetermined local, no ambient source, no address dependence, no hidden process state."""
import concurrent.futures as cf, glob, os, re, subprocess
from ..core import Result, AnalysisError
from ..model import CLANG, SRC
from ..defassign import DefAssign
from .c03_pure_queries import guard_init

AMBIENT = {'rand', 'srand', 'rand_r', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48', 'erand48', 'arc4random', 'arc4random_uniform', 'getrandom',
           'getentropy', 'time', 'clock', 'gettimeofday', 'clock_gettime', 'times', 'ftime', 'timespec_get', 'localtime', 'gmtime', 'getpid', 'getppid', 'gettid', 'getuid', 'geteuid',
           'pthread_self', 'getcwd', 'gethostname', 'uname', 'secure_getenv', 'tmpnam', 'tempnam', 'mkstemp', 'sysconf', 'getloadavg', 'mallinfo',
           'malloc_usable_size', 'llvm.readcyclecounter', 'llvm.frameaddress', 'llvm.returnaddress', 'llvm.stacksave', 'getrusage', 'sched_getcpu', 'syscall', 'popen', 'system'}
AMBIENT_DEM = [r'\bstd::random_device::', r'\bstd::chrono::(\w+::)*\w*clock::now', r'\bstd::this_thread::', r'\bstd::thread::', r'\bstd::hash<[^<>]*\*\s*>']
PTRKEY = re.compile(r'std::less<[^<>]*\*\s*(const)?>|std::(unordered_)?(map|set)<[^<>,]*\*\s*(const)?[,>]')




def literal(f, v):
    """text of a constant string argument"""
    d = f.defs.get(v)
    while d is not None and d.op in ('getelementptr', 'bitcast'):
        v = d.ops[0]
        d = f.defs.get(v)
    g = f.module.globals.get(v)
    if g:
        m = re.search(r'c"((?:[^"\\]|\\.)*)"', g)
        if m:
            return re.sub(r'\\00$', '', m.group(1))
    return None


UNINIT = ['-Wuninitialized', '-Wsometimes-uninitialized', '-Wconditional-uninitialized', '-Wuninitialized-const-reference']


def uninitialized(ctx, res):
    """locals that promotion to registers folds away: clang's dataflow over its syntax tree"""
    srcs = sorted(glob.glob(os.path.join(SRC, '*.cpp')))

    def one(p):
        r = subprocess.run([CLANG, '-std=gnu++17', '-fsyntax-only', '-I' + SRC] + ['-Wno-everything'] + UNINIT + [p], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('clang failed on %s: %s' % (p, r.stderr[:500]))
        return r.stderr
    with cf.ThreadPoolExecutor(8) as ex:
        for p, out in zip(srcs, ex.map(one, srcs)):
            res.count('units')
            for m in re.finditer(r'^(\S+?):(\d+):\d+: warning: (.*?variable \'(\w+)\'.*?) \[-W([\w-]+)\]$', out, re.M):
                f = enclosing(ctx, p, int(m.group(2)))
                res.add('undetermined', f, m.group(4), 'src/%s:%s' % (os.path.basename(m.group(1)), m.group(2)),
                        "%s: the outcome depends on left-over memory" % m.group(3))


def enclosing(ctx, p, line):
    best = None
    for f in ctx.M.functions.values():
        if f.file and f.line and os.path.basename(f.file) == os.path.basename(p) and f.line <= line and (best is None or f.line > best.line):
            best = f
    return ctx.short(best) if best else os.path.basename(p)


def run(ctx):
    res = Result()
    res.rule = ("for every function of the library: (1) definite assignment - no path on which a scalar local or local array (stack slot, promoted value, or slot handed to a "
                "reference parameter of a function that writes it only sometimes) is read before it was assigned, stream extraction and conditional writers split by outcome; "
                "(2) no call to a source of ambient information (clock, random device, process or thread identity, host, working directory, environment variables other than "
                "FISX_DATA_DIR); (3) no ordering comparison or arithmetic on addresses, no container ordered by addresses, no iteration over hashed containers; "
                "(4) no write to static or global storage after its guarded initialisation")
    res.notes = ["members of objects are covered by C09 (construction) and C03 (queries do not write)", "elements of containers are initialised by the container"]
    D = DefAssign(ctx)
    for f in sorted(ctx.M.functions.values(), key=lambda x: x.name):
        sh = ctx.short(f)
        res.count('functions')
        init = f.name.startswith(('__cxx_global_var_init', '_GLOBAL__'))
        slots = D.slots(f)
        if slots:
            res.count('local slots', len(slots))
            rep, _ = D.flow(f, slots)
            for r, i, t in rep:
                res.add('undetermined', sh, varname(f, r), i.where(),
                        "%s can be read before any value was assigned to it (%s): the outcome depends on left-over memory" % (varname(f, r) or 'a local', t), [i.where()])
            res.count('obligations', len(slots))
        for o, i in D.undef_values(f):
            res.add('undetermined', sh, i.op + ' operand', i.where(), "a local is used before any value was assigned to it on some path: %s" % i.text[:90])
        ptrint = {}
        for i in f.insts():
            if i.op == 'icmp':
                t = re.match(r'icmp (?:samesign )?(\w+) (\S+)', i.text.split('= ')[-1])
                if t and t.group(2) == 'ptr' and t.group(1) not in ('eq', 'ne'):
                    res.add('address-order', sh, 'comparison', i.where(), "the outcome depends on the relative position of two objects in memory")
            elif i.op == 'ptrtoint':
                ptrint[i.res] = i
            if i.op not in ('call', 'invoke') or not i.callee or ctx.M.resolve(i.callee):
                continue
            res.count('external calls')
            res.count('obligations')
            c = i.callee
            if c == 'getenv':
                s = literal(f, i.args[0])
                res.count('environment reads')
                if s != 'FISX_DATA_DIR':
                    res.add('ambient', sh, 'getenv ' + str(s), i.where(), "the outcome depends on environment variable %s" % s)
                continue
            if c in AMBIENT:
                res.add('ambient', sh, c, i.where(), "the outcome depends on %s()" % c)
                continue
            if ' asm ' in i.text:
                res.add('ambient', sh, 'asm', i.where(), "inline assembly")
                continue
            n = ctx.M.name(c)
            if any(re.search(p, n.dem) for p in AMBIENT_DEM):
                res.add('ambient', sh, n.qual, i.where(), "the outcome depends on %s" % n.dem[:120])
            elif n.cls.startswith('unordered_') and n.base in ('begin', 'cbegin'):
                res.add('hash-order', sh, n.cls, i.where(), "iteration over a hashed container: the order is unspecified")
            elif PTRKEY.search(n.dem.split('(')[0]) and n.base in ('begin', 'lower_bound', 'upper_bound', 'insert', 'operator[]', 'cbegin', 'rbegin'):
                res.add('address-order', sh, 'container', i.where(), "a container is ordered by addresses")
        # addresses as numbers: only differences of two of them
        for i in f.insts():
            for o in (i.ops or []) + (i.args or []):
                if o in ptrint:
                    other = [x for x in i.ops or [] if x != o]
                    if not (i.op == 'sub' and all(x in ptrint for x in other)):
                        res.add('address-value', sh, i.op, i.where(), "the outcome depends on the address of an object")
        if init:
            continue
        for e in ctx.R.infos[f.name].events:
            if e.rw == 'W' and e.region[0][0] == 'G' and e.via is None:
                g = e.region[0]
                if g.startswith('G_ZGV') or guard_init(ctx, f, e.inst) or 'cout' in g or 'cerr' in g or 'clog' in g:
                    continue
                res.add('hidden-state', sh, g[1:], e.inst.where(), "writes process-wide state %s: outcomes depend on what was called before" %
                        (ctx.M.name(g[1:]).dem if g[1:].startswith('_Z') else g[1:]))
    uninitialized(ctx, res)
    res.need('functions', 300)
    res.need('local slots', 100)
    res.need('external calls', 3000)
    return res


def varname(f, r):
    return f.varnames.get(r) or 'local'
