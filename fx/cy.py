"""The Python wrappers: typed tree from Cython's own front end, matched with the C++ classes; abstract interpretation over kinds of values."""
import json, os, re, shutil, subprocess, tempfile
from .ir import AnalysisError
from .model import REPO

PYS = [os.environ.get('FX_CYTHON_PYTHON', '/opt/fisx/venv/bin/python'), 'python3', '/opt/veriftools/pyvenv/bin/python']
HERE = os.path.dirname(os.path.abspath(__file__))


def normtype(t):
    t = t.replace('std::__cxx11::', 'std::').replace('[abi:cxx11]', '')
    t = re.sub(r'\bbasic_string<char, std::char_traits<char>, std::allocator<char> ?>', 'string', t)
    for _ in range(6):
        t = re.sub(r', std::(allocator|less)<(?:[^<>]|<(?:[^<>]|<(?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*>)*>)*>', '', t)
    t = re.sub(r'\bconst\b', '', t).replace('&', '').replace('fisx::', '')
    return re.sub(r'\s+', '', t)


class Wrappers:
    def __init__(self, ctx):
        self.ctx = ctx
        self.unread = []
        d = tempfile.mkdtemp(prefix='fx_cy_')
        try:
            last = None
            for py in PYS:
                try:
                    p = subprocess.run([py, os.path.join(HERE, 'cydump.py'), os.path.join(REPO, 'python', 'cython'), d, d + '/o.json', os.path.join(REPO, 'python', 'fisx', 'FisxCythonTools.py')], capture_output=True, text=True, timeout=300, cwd=d)
                except OSError as e:
                    last = str(e); continue
                if p.returncode == 0 and os.path.exists(d + '/o.json'):
                    break
                last = (p.stdout + p.stderr)[-1500:]
            else:
                raise AnalysisError("the Cython front end does not accept the wrappers: %s" % last)
            o = json.load(open(d + '/o.json'))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        self.tree, self.decls, self.directives = o['module'], [x for x in o['decls'] if x['cname'].startswith('fisx::') or (x['class'] == '' and x['at'] and x['at'].endswith('.pxd') is False and '.pxd:' in x['at'])], o['directives']
        self.classes, self.functions = {}, {}
        self._collect(self.tree, None)
        self.helpers = {}
        self._helpers(o['helpers'])
        self.cpp = {}
        for f in ctx.M.functions.values():
            n = ctx.name(f)
            if n.scope.startswith('fisx::') and n.scope[6:] in ctx.M.classes:
                self.cpp.setdefault((n.scope[6:], '<init>' if n.base == n.cls else n.base), []).append(f)
            elif n.scope == 'fisx':
                self.cpp.setdefault(('', n.base), []).append(f)

    def _collect(self, n, cls):
        if isinstance(n, list):
            for x in n:
                self._collect(x, cls)
            return
        if not isinstance(n, dict):
            return
        k = n.get('n')
        if k == 'CClassDefNode':
            nm = None
            st = n.get('body')
            sub = {}
            self._defs(st, sub)
            for f in sub.values():
                nm = (f.get('entry') or {}).get('scope') or nm
            if nm:
                self.classes[nm] = sub
            return
        if k in ('DefNode', 'CFuncDefNode'):
            if (n.get('at') or '').startswith('python/cython'):
                self.functions[n['fname']] = n
            return
        for v in n.values():
            if isinstance(v, (dict, list)):
                self._collect(v, cls)

    def _helpers(self, n):
        """the conversion functions of FisxCythonTools (the branch for Python 3)"""
        if isinstance(n, list):
            for x in n:
                self._helpers(x)
        elif isinstance(n, dict):
            if n.get('n') == 'DefNode':
                self.helpers[n['fname']] = n
            elif n.get('n') == 'IfStatNode':
                I = Interp(self)
                I.dec, I.pos, I.conds, I.events, I.problems, I.depth = [], 0, [], [], [], 0
                for c in n['if_clauses']:
                    if I.truth(c['condition'], {}, None, None):
                        self._helpers(c.get('body'))
                        return
                self._helpers(n.get('else_clause'))
            elif n.get('n') == 'StatListNode':
                self._helpers(n.get('stats'))

    def _defs(self, n, out):
        if isinstance(n, list):
            for x in n:
                self._defs(x, out)
        elif isinstance(n, dict):
            if n.get('n') in ('DefNode', 'CFuncDefNode'):
                if (n.get('at') or '').startswith('python/cython') and n.get('fname') and not n['fname'].startswith(('__reduce', '__setstate')):
                    out[n['fname']] = n
                return
            for v in n.values():
                if isinstance(v, (dict, list)):
                    self._defs(v, out)

    # ---- the outcomes of every method, arguments of unknown kind
    def outcomes(self, cls, m):
        if getattr(self, '_out', None) is None:
            self._out = {}
        if (cls, m) not in self._out:
            fn = self.classes[cls][m]
            I = Interp(self)
            try:
                outs = I.run(cls, fn, {a['name']: AV('obj', prov=frozenset({('arg', a['name'])})) for a in fn['args'] if a['name'] != 'self'} | {'self': AV('ext:' + cls, ident='self')})
            except AnalysisError as e:
                outs, I.sinks = None, {}
                self.unread.append(('%s.%s' % (cls, m), str(e)))
            self._out[cls, m] = (outs, dict(I.sinks))
        return self._out[cls, m]

    def public(self, cls):
        return [m for m in self.classes[cls] if not m.startswith('_')]

    def bases(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            ci = self.ctx.M.classes.get(c)
            for fl in (ci.fields if ci else []):
                if fl[0].startswith('<base>'):
                    todo.append(fl[1].split('::')[-1])
        return out

    def candidates(self, cls, name, ft):
        """the C++ functions a declaration can stand for (base classes and default arguments included); [] if the library defines none"""
        name = name if name != cls else '<init>'
        want = [normtype(a) for a in ft['args']]
        for c in (self.bases(cls) if cls else ['']):
            fs = self.cpp.get((c, name), [])
            ex = [f for f in fs if self.params(f) == want]
            if ex:
                return ex
            # parameters with defaults left out
            ex = [f for f in fs if len(self.params(f)) > len(want) and self.params(f)[:len(want)] == want and self.ndefault(f) >= len(self.params(f)) - len(want)]
            if ex:
                return ex
        return []

    def samename(self, cls, name):
        name = name if name != cls else '<init>'
        out = []
        for c in (self.bases(cls) if cls else ['']):
            out += self.cpp.get((c, name), [])
        return out

    def ndefault(self, f):
        """upper bound of the number of parameters with a default: declarations in the headers are not in the IR, so all are assumed"""
        return len(self.params(f))

    def rettype(self, f):
        d = self.ctx.decl(f)
        if d and d['types']:
            return d['types'][0]
        return None

    # ---- matching with C++
    def cparams(self, f):
        info = self.ctx.R.infos[f.name]
        out = []
        for reg in f.params:
            p = info.pindex.get(reg, '')
            nm = f.pnames.get(reg)
            if p == 'RET' or nm == 'this':
                continue
            out.append(nm)
        return out

    def match(self, cls, name, ft):
        """C++ overloads with the declared parameter types; with the same number of parameters; all of the name"""
        c = self.cpp.get((cls, name), [])
        want = [normtype(a) for a in ft['args']]
        ex, num = [], []
        for f in c:
            ps = [normtype(p) for p in self.ctx.name(f).params]
            ps = self.params(f)
            if ps == want:
                ex.append(f)
            elif len(ps) == len(want):
                num.append(f)
        return ex, num, c

    def params(self, f):
        """full parameter types (templates kept)"""
        dem = self.ctx.name(f).dem
        from .ir import split_top
        # the parameter list is the last top level parenthesis group
        dep, end, start = 0, None, None
        s = dem[:-6] if dem.endswith(' const') else dem
        i = len(s) - 1
        while i >= 0:
            if s[i] == ')':
                dep += 1
            elif s[i] == '(':
                dep -= 1
                if dep == 0:
                    start = i
                    break
            i -= 1
        ps = [p for p in split_top(s[start + 1:-1]) if p.strip() and p.strip() != 'void']
        return [normtype(p) for p in ps]


# ------------------------------------------------------------------------------------------------------------------ kinds
# methods of a text that answer something else than the whole text
CHANGERS = {'split', 'rsplit', 'splitlines', 'partition', 'rpartition', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'title', 'capitalize', 'swapcase', 'casefold', 'replace',
            'translate', 'expandtabs', 'zfill', 'center', 'ljust', 'rjust'}


class AV:
    __slots__ = ('k', 'sub', 'const', 'prov', 'mod', 'ident')

    def __init__(self, k, sub=None, const=None, prov=frozenset(), mod=frozenset(), ident=None):
        self.k, self.sub, self.const, self.prov, self.mod, self.ident = k, sub, const, prov, mod, ident

    def but(self, **kw):
        d = dict(k=self.k, sub=self.sub, const=self.const, prov=self.prov, mod=self.mod, ident=self.ident)
        d.update(kw)
        return AV(**d)

    def __repr__(self):
        s = self.k
        if self.sub is not None:
            s += '[%s]' % (self.sub,)
        return s + ('=%r' % (self.const,) if self.const is not None else '')


OBJ = AV('obj')
NONE = AV('none')


def L(e):
    return AV('list', e)


def allprov(v, d=0):
    """every origin reachable from a value"""
    p = set(v.prov)
    if isinstance(v.sub, (tuple, list)):
        for x in v.sub:
            p |= allprov(x)
    elif isinstance(v.sub, AV):
        p |= allprov(v.sub)
    return p


def allmod(v):
    p = set(v.mod)
    if isinstance(v.sub, (tuple, list)):
        for x in v.sub:
            p |= allmod(x)
    elif isinstance(v.sub, AV):
        p |= allmod(v.sub)
    return p


def unindexed(v):
    s = v.sub
    if isinstance(s, tuple):
        s = tuple(unindexed(x) for x in s)
    elif isinstance(s, list):
        s = [unindexed(x) for x in s]
    elif isinstance(s, AV):
        s = unindexed(s)
    return v.but(mod=frozenset(m for m in v.mod if not m.startswith('index')), sub=s)


class PyErr(Exception):
    def __init__(self, kind, msg, at, explicit=False):
        self.kind, self.msg, self.at, self.explicit = kind, msg, at, explicit


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Prune(Exception):
    pass


class LoopCtl(Exception):
    def __init__(self, k):
        self.k = k


class Outcome:
    def __init__(self, kind, value=None, err=None, events=(), state=None, problems=(), conds=(), unpacked=None):
        self.unpacked = dict(unpacked or {})
        self.kind, self.value, self.err, self.events, self.state, self.problems, self.conds = kind, value, err, list(events), state, list(problems), conds


ATTRS = {
    'list': {'__len__', '__iter__', '__getitem__', 'append', 'index', 'count'}, 'tuple': {'__len__', '__iter__', '__getitem__', 'index', 'count'},
    'nd': {'__len__', '__iter__', '__getitem__', 'shape', 'dtype', 'tolist', 'astype', 'size', 'ravel', 'ndim'},
    'str': {'__len__', '__iter__', '__getitem__', 'encode', 'lower', 'upper', 'strip', 'split', 'startswith', 'endswith'},
    'bytes': {'__len__', '__iter__', '__getitem__', 'decode', 'lower', 'upper', 'strip', 'split', 'startswith', 'endswith'},
    'dict': {'__len__', '__iter__', '__getitem__', 'keys', 'items', 'values', 'get'},
    'float': set(), 'int': set(), 'bool': set(), 'none': set(),
}
PYTYPES = {'str': 'str', 'bytes': 'bytes', 'list': 'list', 'tuple': 'tuple', 'dict': 'dict', 'int': 'int', 'float': 'float'}


class Interp:
    MAXPATHS = 400

    def __init__(self, W):
        self.W = W
        self.sinks = {}

    # ---------------------------------------------------------------- driver
    def run(self, cls, fn, args):
        try:
            return self.run_(cls, fn, args)
        except (KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError) as e:
            raise AnalysisError("wrapper %s.%s: %s %s" % (cls, fn.get('fname'), type(e).__name__, e))

    def run_(self, cls, fn, args):
        """all outcomes of one call with the given argument values (AV by name; missing ones take the default)"""
        out = []
        work = [[]]
        while work:
            pre = work.pop()
            self.dec, self.pos, self.newdec = list(pre), 0, []
            self.events, self.problems, self.state, self.falsy, self.unpacked = [], [], {}, set(), {}
            self.ptr, self.live = (None, set()) if fn['fname'] == '__cinit__' else (0, {0})
            self.depth = self.trydepth = 0
            self.unknown = False
            self.pend = []
            self.ncall = 0
            self.conds = []
            try:
                v = self.call(cls, fn, args, fn.get('at'), top=True)
                self.atexit(fn, True)
                out.append(Outcome('ret', v, None, self.events, set(self.falsy), self.problems, tuple(self.conds), self.unpacked))
            except PyErr as e:
                self.atexit(fn, False)
                out.append(Outcome('err', None, e, self.events, set(self.falsy), self.problems, tuple(self.conds), self.unpacked))
            except Prune:
                pass
            for i in range(len(pre), len(self.dec)):
                if self.dec[i] == 0:
                    work.append(self.dec[:i] + [1])
            if len(out) > self.MAXPATHS:
                raise AnalysisError("too many paths in wrapper %s.%s" % (cls, fn['fname']))
        return out

    def atexit(self, fn, ok):
        nm, at = fn['fname'], fn.get('at')
        if nm == '__dealloc__':
            if self.live:
                self.problem('leak', at, "the library object is not deleted with its Python object")
            return
        if self.ptr is not None and self.ptr not in self.live:
            self.problem('dangling', at, "the Python object is left with a deleted library object")
        if self.live - {self.ptr}:
            self.problem('leak', at, "a library object created here is neither kept nor deleted")
        if ok and nm == '__cinit__' and self.ptr is None:
            self.problem('not-created', at, "the Python object is left without a library object")

    def choose(self, why=None):
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
        else:
            d = 0
            self.dec.append(0)
        self.pos += 1
        self.conds.append((why, d == 0))
        return d == 0

    # ---------------------------------------------------------------- calls
    def call(self, cls, fn, args, at, top=False):
        if self.depth > 12:
            raise Prune()
        env = {}
        for a in fn['args']:
            nm = a['name']
            if nm in args:
                v = args[nm]
            elif a['default'] is not None:
                v = self.ev(a['default'], {}, cls, fn)
            else:
                raise PyErr('TypeError', "missing argument '%s' of %s" % (nm, fn['fname']), at)
            if nm != 'self':
                v = self.argconv(v, a, fn, at)
            env[nm] = v
        self.depth += 1
        try:
            self.st(fn['body'], env, cls, fn)
            return NONE
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1

    def argconv(self, v, a, fn, at):
        t = a['t'] or 'py:object'
        if t.startswith('ext:'):
            if v.k == 'none' and (a['accept_none'] is False or a['not_none']):
                raise PyErr('TypeError', "None refused for '%s'" % a['name'], at, explicit=True)
            if v.k not in ('obj', 'none', t):
                raise PyErr('TypeError', "'%s' of %s is not a %s" % (a['name'], fn['fname'], t[4:]), at)
            if v.k == 'none':
                return v
            return v if v.k != 'obj' else v.but(k=t, ident='maybe-none' if not (a['accept_none'] is False or a['not_none']) else None)
        if t.startswith('py:'):
            return v
        if v.k.startswith('cpp:'):
            return v
        return self.frompy(v, t, at)

    # ---------------------------------------------------------------- conversions
    def sink(self, v, t):
        for p in v.prov:
            if p[0] == 'arg':
                self.sinks.setdefault(p, set()).add(t)

    def frompy(self, v, t, at):
        t0 = t
        t = t.replace('const ', '').replace('&', '').strip()
        if v.k == 'obj':
            self.unknown = True
            if at is not None:
                self.mayfail(at, "the conversion of a value fails")
            self.sink(v, re.sub(r'\s+', '', t))
            return v.but(k='cpp:' + re.sub(r'\s+', '', t), sub=None, mod=v.mod | self.narrow(t))
        if v.k.startswith('cpp:'):
            return v
        n = re.sub(r'\s+', '', t)
        if n == 'std::string':
            if v.k == 'bytes':
                return v.but(k='cpp:std::string')
            raise PyErr('TypeError', "%s where bytes are needed" % v.k, at)
        if n in ('double', 'float', 'longdouble'):
            if v.k in ('float', 'int', 'bool'):
                return v.but(k='cpp:' + n, mod=v.mod | self.narrow(n))
            raise PyErr('TypeError', "%s where a number is needed" % v.k, at)
        if n in ('int', 'short', 'long', 'unsignedint', 'Py_ssize_t', 'bint', 'size_t'):
            if v.k in ('int', 'bool') or n == 'bint':
                return v.but(k='cpp:' + n, mod=v.mod | self.narrow(n))
            raise PyErr('TypeError', "%s where an integer is needed" % v.k, at)
        m = re.match(r'^std::(vector|list|set)<(.*)>$', n)
        if m:
            if v.k in ('list', 'tuple', 'nd', 'dict', 'str', 'bytes'):
                es = self.elems(v, at)
                sub = [self.frompy(e, m.group(2), at) for e in es]
                return v.but(k='cpp:' + n, sub=sub, prov=v.prov)
            raise PyErr('TypeError', "%s where a sequence is needed" % v.k, at)
        m = re.match(r'^std::map<(.*)>$', n)
        if m:
            from .ir import split_top
            kt, vt = split_top(m.group(1))[:2]
            if v.k == 'dict':
                sub = None
                if isinstance(v.sub, tuple):
                    sub = [self.frompy(v.sub[0], kt, at), self.frompy(v.sub[1], vt, at)]
                return v.but(k='cpp:' + n, sub=sub)
            raise PyErr('AttributeError', "%s where a dictionary is needed" % v.k, at)
        return v.but(k='cpp:' + n)

    def narrow(self, t):
        """number types a value went through"""
        return frozenset('as:' + m for m in re.findall(r'\b(float|int|short|long|char|size_t|Py_ssize_t|bint)\b', re.sub(r'unsigned|std::map<int|std::string', '', t)))

    def elems(self, v, at):
        """abstract elements of an iterable"""
        if v.k == 'obj':
            return [AV('obj', prov=frozenset((p + ('[]',)) for p in v.prov), mod=v.mod)]
        if v.k in ('list', 'nd'):
            return [v.sub if isinstance(v.sub, AV) else OBJ] if not isinstance(v.sub, (list, tuple)) else list(v.sub)
        if v.k == 'tuple':
            return list(v.sub) if isinstance(v.sub, (list, tuple)) else [v.sub or OBJ]
        if v.k == 'dict':
            return [v.sub[0]] if isinstance(v.sub, tuple) else [OBJ]
        if v.k == 'str':
            return [AV('str', prov=v.prov, mod=v.mod | {'character'})]
        if v.k == 'bytes':
            return [AV('int', prov=v.prov, mod=v.mod | {'character'})]
        if v.k.startswith('cpp:'):
            return [self.topy(v, at, elem=True)]
        raise PyErr('TypeError', "%s is not iterable" % v.k, at)

    def topy(self, v, at, elem=False):
        if not v.k.startswith('cpp:'):
            return v
        t = v.k[4:]

        def conv(t):
            t = t.strip()
            if t in ('std::string',):
                return AV('bytes', prov=v.prov, mod=v.mod)
            if t in ('double', 'float'):
                return AV('float', prov=v.prov, mod=v.mod)
            if t in ('int', 'short', 'long', 'bint', 'bool', 'Py_ssize_t', 'size_t'):
                return AV('int', prov=v.prov, mod=v.mod, const=v.const)
            if t == 'void':
                return NONE
            from .ir import split_top
            m = re.match(r'^std::(vector|list|set)<(.*)>$', t)
            if m:
                return AV('list', conv(m.group(2)), prov=v.prov, mod=v.mod)
            m = re.match(r'^std::map<(.*)>$', t)
            if m:
                k, w = split_top(m.group(1))[:2]
                return AV('dict', (conv(k), conv(w)), prov=v.prov, mod=v.mod)
            m = re.match(r'^std::pair<(.*)>$', t)
            if m:
                k, w = split_top(m.group(1))[:2]
                return AV('tuple', [conv(k), conv(w)], prov=v.prov, mod=v.mod)
            return AV('obj', prov=v.prov, mod=v.mod)
        r = conv(t)
        if elem:
            if r.k == 'list':
                return r.sub
            if r.k == 'dict':
                return r.sub[0]
            return AV('obj', prov=v.prov, mod=v.mod)
        return r

    # ---------------------------------------------------------------- statements
    def st(self, n, env, cls, fn):
        if n is None:
            return
        if isinstance(n, list):
            for x in n:
                self.st(x, env, cls, fn)
            return
        k = n['n']
        if k in ('StatListNode', 'StatNode'):
            for x in n.get('stats', []):
                self.st(x, env, cls, fn)
        elif k == 'ExprStatNode':
            self.ev(n['expr'], env, cls, fn)
        elif k in ('SingleAssignmentNode', 'InPlaceAssignmentNode'):
            v = self.ev(n['rhs'], env, cls, fn)
            self.assign(n['lhs'], v, env, cls, fn, n.get('rhs'))
        elif k == 'CascadedAssignmentNode':
            v = self.ev(n['rhs'], env, cls, fn)
            for l in n['lhs_list']:
                self.assign(l, v, env, cls, fn, n.get('rhs'))
        elif k == 'ParallelAssignmentNode':
            for x in n.get('stats', []):
                self.st(x, env, cls, fn)
        elif k == 'ReturnStatNode':
            raise Ret(self.ev(n['value'], env, cls, fn) if n.get('value') else NONE)
        elif k == 'IfStatNode':
            for c in n['if_clauses']:
                if self.truth(c['condition'], env, cls, fn):
                    self.st(c.get('body'), env, cls, fn)
                    return
            self.st(n.get('else_clause'), env, cls, fn)
        elif k in ('ForInStatNode', 'ForFromStatNode'):
            it = n.get('iterator') or {}
            seq = self.ev(it.get('sequence') or it, env, cls, fn) if it else OBJ
            es = self.elems(seq, n.get('at'))
            try:
                for e in es[:6]:
                    self.assign(n['target'], e, env, cls, fn, None)
                    try:
                        self.st(n.get('body'), env, cls, fn)
                    except LoopCtl as c:
                        if c.k == 'break':
                            raise
            except LoopCtl:
                return
            self.st(n.get('else_clause'), env, cls, fn)
        elif k == 'WhileStatNode':
            if self.truth(n['condition'], env, cls, fn):
                try:
                    self.st(n.get('body'), env, cls, fn)
                except LoopCtl:
                    pass
        elif k == 'BreakStatNode':
            raise LoopCtl('break')
        elif k == 'ContinueStatNode':
            raise LoopCtl('continue')
        elif k == 'RaiseStatNode':
            e = n.get('exc_type') or {}
            raise PyErr('raise', 'raises', n.get('at'), explicit=True)
        elif k in ('TryExceptStatNode',):
            snap = dict(env)
            keep = (list(self.events), self.ptr, set(self.live), list(self.problems))
            if self.choose(('try', n.get('at'))):
                try:
                    self.within(n.get('body'), env, cls, fn)
                except PyErr as e:
                    if e.explicit or e.kind == 'raise':
                        raise
                    c = self.handler(n, e.kind)
                    if c is None:
                        raise
                    self.st(c.get('body'), env, cls, fn)
                    return
                self.st(n.get('else_clause'), env, cls, fn)
            else:
                # something in the body failed: possible only where something is not known
                self.unknown = False
                try:
                    self.within(n.get('body'), env, cls, fn)
                except (Ret, LoopCtl):
                    pass
                except PyErr:
                    raise Prune()       # seen on the other path
                if not self.unknown:
                    raise Prune()
                self.events, self.ptr, self.live, self.problems = keep
                c = (n.get('except_clauses') or [None])[0]
                if c is None:
                    raise Prune()
                self.st(c.get('body'), snap, cls, fn)
                env.clear()
                env.update(snap)
        elif k == 'TryFinallyStatNode':
            try:
                self.within(n.get('body'), env, cls, fn)
            finally:
                self.st(n.get('finally_clause'), env, cls, fn)
        elif k == 'GILStatNode':
            self.st(n.get('body'), env, cls, fn)
        elif k == 'DelStatNode':
            for a in n.get('args') or []:
                if a['n'] == 'AttributeNode' and a['attribute'] == 'thisptr':
                    o = self.ev(a['obj'], env, cls, fn)
                    if o.ident == 'self':
                        self.delete(self.ptr, n)
                    else:
                        self.problem('foreign-delete', n.get('at'), "the library object of another Python object is deleted")
                elif a['n'] == 'NameNode':
                    v = env.get(a['name'])
                    if v is not None and isinstance(v.ident, tuple) and v.ident[0] == 'ptr':
                        self.delete(v.ident[1], n)
                    elif v is not None and v.ident == 'other.thisptr':
                        self.problem('foreign-delete', n.get('at'), "the library object of another Python object is deleted")
                    else:
                        env.pop(a['name'], None)
        elif k in ('FromImportStatNode', 'FromCImportStatNode', 'CImportStatNode', 'PassStatNode', 'GlobalNode', 'CVarDefNode', 'CFuncDefNode', 'DefNode', 'CStructOrUnionDefNode', 'GILExitNode', 'AssertStatNode'):
            for nm in n.get('imported', []) or []:
                pass
            if k == 'FromImportStatNode':
                self.unknown = True
                self.pend.append(n)
        elif k in ('WithStatNode', 'WithTargetAssignmentStatNode'):
            self.st(n.get('body'), env, cls, fn)
        else:
            raise AnalysisError("wrapper statement not understood: %s at %s" % (k, n.get('at')))

    def within(self, n, env, cls, fn):
        self.trydepth += 1
        try:
            self.st(n, env, cls, fn)
        finally:
            self.trydepth -= 1

    def handler(self, n, kind):
        for c in n.get('except_clauses') or []:
            pats = c.get('pattern')
            if not pats:
                return c
            names = []

            def see(x):
                if isinstance(x, list):
                    for y in x:
                        see(y)
                elif isinstance(x, dict):
                    if x.get('n') == 'NameNode':
                        names.append(x['name'])
                    for v in x.values():
                        if isinstance(v, (dict, list)):
                            see(v)
            see(pats)
            if kind in names or 'Exception' in names or not names or kind == 'IndexError' and 'LookupError' in names:
                return c
        return None

    def delete(self, p, n):
        if p is None:
            return
        if p not in self.live:
            self.problem('double-delete', n.get('at'), "the library object is deleted twice")
        self.live.discard(p)

    def mayfail(self, at, what):
        if self.trydepth:
            return
        if self.ptr is not None and self.ptr not in self.live:
            self.problem('dangling-on-failure', at, "if %s here the Python object keeps a deleted library object" % what)
        if self.live - {self.ptr, 0, -1}:
            self.problem('leak-on-failure', at, "if %s here a library object created before is neither kept nor deleted" % what)
        elif 0 in self.live and self.ptr not in (0, None):
            self.problem('leak-on-failure', at, "if %s here the previous library object is never deleted" % what)

    def problem(self, rule, at, msg):
        self.problems.append((rule, at, msg))

    def assign(self, l, v, env, cls, fn, rhs):
        k = l['n']
        if k == 'NameNode':
            t = l.get('t') or ''
            if t and not t.startswith(('py:', 'ext:')) and not v.k.startswith('cpp:') and v.k != 'obj':
                v = self.frompy(v, t, l.get('at'))
            elif t and v.k.startswith('cpp:') and t in ('float', 'int', 'short', 'long', 'bint'):
                v = v.but(mod=v.mod | self.narrow(t))
            env[l['name']] = v
        elif k == 'AttributeNode' and l['attribute'] == 'thisptr':
            o = self.ev(l['obj'], env, cls, fn)
            if o.ident != 'self':
                self.problem('foreign-assignment', l.get('at'), "the library object of another Python object is replaced")
                return
            if v.k == 'none' or v.ident == 'null':
                self.ptr = None
            elif isinstance(v.ident, tuple) and v.ident[0] == 'ptr':
                self.ptr = v.ident[1]
            else:
                self.problem('shared-object', l.get('at'), "the pointer to the library object does not come from new: two Python objects may delete the same one")
                self.ptr = -1
                self.live.add(-1)
        elif k in ('TupleNode', 'ListNode'):
            es = self.elems(v, l.get('at'))
            if v.k in ('tuple', 'list') and isinstance(v.sub, (list, tuple)) and len(es) != len(l['args']):
                raise PyErr('ValueError', "unpacking %d values into %d" % (len(es), len(l['args'])), l.get('at'))
            for p in v.prov:
                if p[0] == 'arg':
                    self.unpacked[p] = len(l['args'])
            for i, a in enumerate(l['args']):
                e = es[i] if len(es) == len(l['args']) else es[0].but(prov=frozenset(p[:-1] + ('[%d]' % i,) if p[-1] == '[]' else p for p in es[0].prov))
                self.assign(a, e, env, cls, fn, None)
        elif k in ('IndexNode', 'AttributeNode', 'SliceIndexNode'):
            b = self.ev(l.get('base') or l.get('obj'), env, cls, fn)
            base = l.get('base') or l.get('obj')
            if base['n'] == 'NameNode' and base['name'] in env:
                b0 = env[base['name']]
                if k == 'IndexNode' and b0.k == 'dict':
                    # an entry is replaced: taken for all of them (the loops over the keys replace them all)
                    w = unindexed(v) if allprov(v) & allprov(b0) else v
                    ix = self.ev(l['index'], env, cls, fn)
                    if ix.mod & {'filtered', 'slice', 'character'} and isinstance(b0.sub, tuple) and not self.choose(('some keys', l.get('at'))):
                        return          # an entry that is not replaced
                    if 'filtered' in ix.mod:
                        w = w.but(mod=w.mod - {'filtered'})
                    sub = (b0.sub[0] if isinstance(b0.sub, tuple) else self.ev(l['index'], env, cls, fn), w)
                    env[base['name']] = b0.but(prov=b0.prov | v.prov, sub=sub)
        elif k in ('CoerceToPyTypeNode', 'CoerceFromPyTypeNode', 'CoerceToTempNode', 'PyTypeTestNode', 'CloneNode', 'ProxyNode'):
            self.assign(l['arg'], v, env, cls, fn, rhs)
        else:
            raise AnalysisError("wrapper assignment not understood: %s at %s" % (k, l.get('at')))

    # ---------------------------------------------------------------- expressions
    def truth(self, n, env, cls, fn):
        return self.truthv(self.ev(n, env, cls, fn), n)

    def truthv(self, v, n):
        if v.k == 'bool' and v.const is not None:
            return bool(v.const)
        if v.k in ('int', 'float', 'str', 'bytes') and v.const is not None or v.k.startswith('cpp:') and v.const is not None:
            return bool(v.const)
        if v.k == 'none':
            return False
        if v.k == 'nd':
            raise PyErr('ValueError', "the truth value of an array is ambiguous", n.get('at'))
        if v.k in ('list', 'tuple', 'dict'):
            return v.sub is None or v.sub != []
        if v.k in ('str', 'bytes'):
            return True
        if v.k.startswith('ext:') or v.k in ('func', 'type'):
            return True
        why = n.get('at')
        r = self.choose(why)
        if not r:
            self.falsy |= set(v.prov)
            if isinstance(v.ident, tuple) and v.ident[0] == 'len':
                self.falsy |= set(v.ident[1])
        return r

    def args(self, n, env, cls, fn):
        a = n.get('args')
        if a is None and n.get('arg_tuple'):
            a = n['arg_tuple'].get('args') or []
        return [self.ev(x, env, cls, fn) for x in a or []]

    def ev(self, n, env, cls, fn):
        k = n['n']
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            raise AnalysisError("wrapper expression not understood: %s at %s" % (k, n.get('at')))
        return m(n, env, cls, fn)

    def ev_NoneNode(self, n, env, cls, fn):
        return NONE

    def ev_NullNode(self, n, env, cls, fn):
        return AV('none', ident='null')

    def ev_IntNode(self, n, env, cls, fn):
        return AV('int', const=int(str(n['value']), 0))

    def ev_FloatNode(self, n, env, cls, fn):
        return AV('float', const=float(n['value']))

    def ev_BoolNode(self, n, env, cls, fn):
        return AV('bool', const=n['value'] in (True, 'True'))

    def ev_UnicodeNode(self, n, env, cls, fn):
        return AV('str', const=n['value'])
    ev_StringNode = ev_IdentifierStringNode = ev_UnicodeNode

    def ev_BytesNode(self, n, env, cls, fn):
        v = n['value']
        return AV('bytes', const=v[2:-1] if isinstance(v, str) and v[:2] in ("b'", 'b"') else v)

    def ev_NameNode(self, n, env, cls, fn):
        nm = n['name']
        if nm in env:
            return env[nm]
        e = n.get('entry') or {}
        if nm in self.W.classes:
            return AV('type', const=nm)
        if e.get('local') or e.get('arg'):
            t = n.get('t') or ''
            if t.startswith(('py:', 'ext:')):
                return OBJ
            return AV('cpp:' + re.sub(r'\s+', '', t).replace('fisx::', ''), sub=[])
        return AV('func', const=nm)

    def ev_AttributeNode(self, n, env, cls, fn):
        o = self.ev(n['obj'], env, cls, fn)
        a = n['attribute']
        if a == 'thisptr' or (n.get('t') or '').endswith('*') and 'fisx::' in (n.get('t') or ''):
            if o.k == 'none':
                self.problem('none-dereference', n.get('at'), "None is dereferenced as a library object")
                raise Prune()
            if o.ident == 'maybe-none':
                self.problem('none-dereference', n.get('at'), "None is accepted here and dereferenced as a library object")
            if o.ident == 'self':
                if self.ptr is None:
                    return AV('cpp:ptr', ident='null')
                if self.ptr not in self.live:
                    self.problem('use-after-delete', n.get('at'), "the library object is used after it was deleted")
                return AV('cpp:ptr', prov=o.prov, ident=('ptr', self.ptr))
            return AV('cpp:ptr', prov=o.prov, ident='other.thisptr')
        if o.k == 'func' or o.k == 'type':
            return AV('func', const='%s.%s' % (o.const, a))
        if o.ident == 'self':
            return AV('func', const='self.' + a)
        if o.k in ('obj',) or o.k == 'func' and o.const == 'module':
            self.unknown = True
        if o.k == 'obj':
            return AV('obj', prov=frozenset(p + ('.' + a,) if p[0] == 'arg' else p for p in o.prov) if a.startswith('get') else o.prov,
                      mod=o.mod | ({a} if a in CHANGERS else set()), const=None)
        if o.k in ATTRS and a not in ATTRS[o.k]:
            raise PyErr('AttributeError', "%s has no attribute '%s'" % (o.k, a), n.get('at'))
        if o.k.startswith('ext:'):
            if a not in self.W.classes.get(o.k[4:], {}):
                raise PyErr('AttributeError', "%s has no attribute '%s'" % (o.k[4:], a), n.get('at'))
            return AV('func', const='ext.' + a, sub=o)
        if a == 'shape':
            return AV('tuple', [AV('int')])
        return AV('func', const='m.' + a, sub=o)

    def ev_DereferenceNode(self, n, env, cls, fn):
        v = self.ev(n['operand'], env, cls, fn)
        return v.but(k='cpp:ref')

    def ev_CoerceToPyTypeNode(self, n, env, cls, fn):
        return self.topy(self.ev(n['arg'], env, cls, fn), n.get('at'))

    def ev_CoerceFromPyTypeNode(self, n, env, cls, fn):
        return self.frompy(self.ev(n['arg'], env, cls, fn), n.get('t') or '', n.get('at'))

    def ev_CoerceToBooleanNode(self, n, env, cls, fn):
        return AV('bool', const=self.truth(n['arg'], env, cls, fn))

    def ev_CoerceToTempNode(self, n, env, cls, fn):
        return self.ev(n['arg'], env, cls, fn)
    ev_ProxyNode = ev_BoolBinopResultNode = ev_CoerceToTempNode

    def ev_PyTypeTestNode(self, n, env, cls, fn):
        v = self.ev(n['arg'], env, cls, fn)
        t = n.get('t') or ''
        if t.startswith('ext:') and v.k not in ('obj', 'none', t):
            raise PyErr('TypeError', "%s is not a %s" % (v.k, t[4:]), n.get('at'))
        if t.startswith('ext:') and v.k == 'obj':
            return v.but(k=t, ident=None if n.get('notnone') else 'maybe-none')
        return v

    def ev_TypecastNode(self, n, env, cls, fn):
        return self.ev(n['operand'], env, cls, fn)

    def ev_CloneNode(self, n, env, cls, fn):
        return self.ev(n['arg'], env, cls, fn) if n.get('arg') else OBJ

    def ev_DefaultLiteralArgNode(self, n, env, cls, fn):
        return self.ev(n['arg'], env, cls, fn) if n.get('arg') else OBJ

    def ev_ResultRefNode(self, n, env, cls, fn):
        return OBJ

    def ev_RawCNameExprNode(self, n, env, cls, fn):
        return OBJ

    def ev_ImportNode(self, n, env, cls, fn):
        self.unknown = True
        return AV('func', const='module')

    def ev_EvalWithTempExprNode(self, n, env, cls, fn):
        return AV('bool')

    def ev_NotNode(self, n, env, cls, fn):
        return AV('bool', const=not self.truth(n['operand'], env, cls, fn))

    def ev_BoolBinopNode(self, n, env, cls, fn):
        a = self.ev(n['operand1'], env, cls, fn)
        t = self.truthv(a, n['operand1'])
        if n['operator'] == 'and':
            return a if not t else self.ev(n['operand2'], env, cls, fn)
        return a if t else self.ev(n['operand2'], env, cls, fn)

    def ev_CondExprNode(self, n, env, cls, fn):
        return self.ev(n['true_val'] if self.truth(n.get('condition') or n.get('test'), env, cls, fn) else n['false_val'], env, cls, fn)

    def ev_PrimaryCmpNode(self, n, env, cls, fn):
        a, b = self.ev(n['operand1'], env, cls, fn), self.ev(n['operand2'], env, cls, fn)
        op = n['operator']
        if a.k == 'func' and str(a.const) == 'sys.version' or a.k == 'obj' and a.const == 'sys.version':
            if b.k == 'str':
                return AV('bool', const={'<': False, '<=': False, '>': True, '>=': True, '==': False, '!=': True}.get(op))
        if a.k == 'func' and str(a.const) == 'sys.version_info':
            return AV('bool', const={'<': False, '<=': False, '>': True, '>=': True}.get(op))
        if op in ('is', 'is_not'):
            if b.k == 'none' or a.k == 'none':
                x = a if b.k == 'none' else b
                if x.k == 'none' and (a.k == b.k):
                    r = True
                elif x.k == 'obj' or x.k == 'none' or x.ident == 'maybe-none':
                    r = self.choose(('none', n.get('at')))
                    if r:
                        self.falsy |= set(x.prov)
                    for q in (n['operand1'], n['operand2']):
                        while q['n'] in ('CoerceToTempNode', 'PyTypeTestNode', 'ProxyNode', 'CloneNode', 'TypecastNode') and (q.get('arg') or q.get('operand')):
                            q = q.get('arg') or q.get('operand')
                        if q['n'] == 'NameNode' and q['name'] in env and x.ident == 'maybe-none':
                            env[q['name']] = NONE if r else x.but(ident=None)
                else:
                    r = False
                return AV('bool', const=r == (op == 'is'))
            return AV('bool')
        if a.k == 'type' and b.k == 'type' and op in ('==', '!='):
            return AV('bool', const=(a.const == b.const) == (op == '=='))
        if op in ('in', 'not_in') and a.k == 'type' and b.k in ('list', 'tuple') and isinstance(b.sub, list) and all(x.k == 'type' for x in b.sub):
            return AV('bool', const=(a.const in [x.const for x in b.sub]) == (op == 'in'))
        if op in ('in', 'not_in') and a.const is not None and b.k in ('list', 'tuple') and isinstance(b.sub, list) and all(x.const is not None for x in b.sub):
            return AV('bool', const=(a.const in [x.const for x in b.sub]) == (op == 'in'))
        if a.const is not None and b.const is not None and a.k not in ('func', 'type') and b.k not in ('func', 'type'):
            try:
                r = {'<': lambda: a.const < b.const, '<=': lambda: a.const <= b.const, '>': lambda: a.const > b.const, '>=': lambda: a.const >= b.const,
                     '==': lambda: a.const == b.const, '!=': lambda: a.const != b.const}[op]()
                return AV('bool', const=r)
            except (KeyError, TypeError):
                pass
        if a.k == 'nd' or b.k == 'nd':
            return AV('nd', AV('bool'))
        if op in ('<', '<=', '>', '>=') and {a.k, b.k} & {'none'}:
            raise PyErr('TypeError', "None is compared", n.get('at'))
        if op in ('<', '<=', '>', '>=') and a.k in ('str', 'bytes', 'list', 'dict') and b.k in ('int', 'float'):
            raise PyErr('TypeError', "%s compared with %s" % (a.k, b.k), n.get('at'))
        return AV('bool')

    def arith(self, n, env, cls, fn):
        a, b = self.ev(n['operand1'], env, cls, fn), self.ev(n['operand2'], env, cls, fn)
        op = n.get('operator')
        pv = a.prov | b.prov
        if op == '*' and (a.k == 'list' or b.k == 'list'):
            x = a if a.k == 'list' else b
            return AV('list', x.sub[0] if isinstance(x.sub, list) and x.sub else x.sub, prov=x.prov)
        if op == '+' and a.k in ('str', 'bytes') and b.k in ('str', 'bytes') and a.k != b.k:
            raise PyErr('TypeError', "%s + %s" % (a.k, b.k), n.get('at'))
        if op == '+' and a.k == b.k and a.k in ('list', 'tuple'):
            return AV('list', None, prov=pv)
        if op == '%' and a.k == 'str':
            return AV('str')
        k = a.k if a.k == b.k else ('obj' if 'obj' in (a.k, b.k) else ('cpp:double' if a.k.startswith('cpp:') or b.k.startswith('cpp:') else 'float'))
        for x in (a, b):
            if x.k == 'none':
                raise PyErr('TypeError', "None in arithmetic", n.get('at'))
        return AV(k, prov=pv, mod=a.mod | b.mod | ({'arithmetic'} if pv else set()))
    ev_AddNode = ev_SubNode = ev_MulNode = ev_DivNode = ev_ModNode = ev_PowNode = ev_BitwiseOrNode = ev_IntBinopNode = arith

    def ev_UnaryMinusNode(self, n, env, cls, fn):
        v = self.ev(n['operand'], env, cls, fn)
        return v.but(const=-v.const if isinstance(v.const, (int, float)) else None, mod=v.mod | ({'arithmetic'} if v.prov else set()))

    def ev_TupleNode(self, n, env, cls, fn):
        return AV('tuple', [self.ev(a, env, cls, fn) for a in n.get('args') or []])

    def ev_ListNode(self, n, env, cls, fn):
        es = [self.ev(a, env, cls, fn) for a in n.get('args') or []]
        if n.get('mult_factor'):
            self.ev(n['mult_factor'], env, cls, fn)
            return AV('list', es[0] if es else OBJ)
        return AV('list', es)
    ev_SetNode = ev_ListNode

    def ev_DictNode(self, n, env, cls, fn):
        its = n.get('key_value_pairs') or []
        kv = [(self.ev(i['key'], env, cls, fn), self.ev(i['value'], env, cls, fn)) for i in its]
        return AV('dict', kv[0] if kv else None, prov=frozenset().union(*[x.prov | y.prov for x, y in kv]) if kv else frozenset())

    def ev_IndexNode(self, n, env, cls, fn):
        b = self.ev(n['base'], env, cls, fn)
        i = self.ev(n['index'], env, cls, fn)
        c = i.const if i.k in ('int',) or i.k.startswith('cpp:') else None
        tag = {'index %s' % c} if c is not None else {'index'}
        if b.k == 'none':
            raise PyErr('TypeError', "None is subscripted", n.get('at'))
        if b.k in ('int', 'float', 'bool'):
            raise PyErr('TypeError', "%s is subscripted" % b.k, n.get('at'))
        if b.k.startswith('cpp:'):
            r = self.topy(b, n.get('at'))
            if r.k in ('list', 'dict'):
                e = r.sub if r.k == 'list' else r.sub[1]
                return AV('cpp:elem', prov=b.prov, mod=b.mod | tag) if e is None else e.but(mod=e.mod | tag)
            return AV('obj', prov=b.prov, mod=b.mod | tag)
        if b.k == 'dict':
            return b.sub[1].but(mod=b.sub[1].mod | tag) if isinstance(b.sub, tuple) else OBJ
        if b.k == 'obj':
            return AV('obj', prov=frozenset(p + ('[]' if c is None else '[%s]' % c,) for p in b.prov), mod=b.mod | tag)
        if b.k in ('tuple', 'list') and isinstance(b.sub, list):
            if c is not None and (-len(b.sub) <= c < len(b.sub)):
                return b.sub[c]
            if c is not None:
                raise PyErr('IndexError', "index %d of %d" % (c, len(b.sub)), n.get('at'))
            return b.sub[0] if b.sub else OBJ
        es = self.elems(b, n.get('at'))
        return es[0].but(mod=es[0].mod | tag) if es else OBJ

    def ev_SliceIndexNode(self, n, env, cls, fn):
        b = self.ev(n['base'], env, cls, fn)
        return b.but(mod=b.mod | {'slice'})

    def ev_NewExprNode(self, n, env, cls, fn):
        return AV('func', const='new')

    def ev_PyCFunctionNode(self, n, env, cls, fn):
        return AV('func', const='pyfunc')

    def ev_ComprehensionNode(self, n, env, cls, fn):
        e2 = dict(env)
        out = []
        loop = n['loop']
        seq = self.ev(loop['iterator']['sequence'], env, cls, fn)
        res = []
        self.filtered = False
        for e in self.elems(seq, n.get('at'))[:6]:
            self.assign(loop['target'], e, e2, cls, fn, None)
            self.compbody(loop['body'], e2, cls, fn, res)
        if self.filtered:
            self.filtered = False
            res = [(x[0].but(mod=x[0].mod | {'filtered'}), x[1]) if isinstance(x, tuple) else x.but(mod=x.mod | {'filtered'}) for x in res]
        if (n.get('t') or '') == 'py:dict':
            return AV('dict', res[0] if res else None, prov=frozenset())
        exact = seq.k in ('tuple', 'list') and isinstance(seq.sub, list)
        return AV('list', res if exact else (res[0] if res else OBJ), prov=frozenset())

    def ev_GeneratorExpressionNode(self, n, env, cls, fn):
        b = n['gbody']
        while b['n'] == 'StatListNode' and len(b.get('stats', [])) == 1:
            b = b['stats'][0]
        return self.ev_ComprehensionNode(dict(loop=b, t='py:list', at=n.get('at')), env, cls, fn)

    def compbody(self, n, env, cls, fn, out):
        k = n['n']
        if k == 'ComprehensionAppendNode':
            out.append(self.ev(n['expr'], env, cls, fn))
        elif k == 'DictComprehensionAppendNode':
            it = n.get('dict_item') or {'key': n.get('key_expr'), 'value': n.get('value_expr')}
            if not it.get('key') or not it.get('value'):
                raise AnalysisError("comprehension not understood at %s" % n.get('at'))
            out.append((self.ev(it['key'], env, cls, fn), self.ev(it['value'], env, cls, fn)))
        elif k == 'ExprStatNode' and n['expr']['n'] == 'YieldExprNode':
            v = self.ev(n['expr']['arg'], env, cls, fn)
            out.append(v)
        elif k == 'IfStatNode':
            for c in n['if_clauses']:
                v = self.ev(c['condition'], env, cls, fn)
                if v.const is None:
                    self.filtered = True
                if self.truthv(v, c['condition']):
                    self.compbody(c['body'], env, cls, fn, out)
                    return
            if not n.get('else_clause'):
                self.filtered = True
            else:
                self.compbody(n['else_clause'], env, cls, fn, out)
        elif k == 'StatListNode':
            for s in n.get('stats', []):
                self.compbody(s, env, cls, fn, out)
        elif k == 'ForInStatNode':
            seq = self.ev(n['iterator']['sequence'], env, cls, fn)
            for e in self.elems(seq, n.get('at'))[:6]:
                self.assign(n['target'], e, env, cls, fn, None)
                self.compbody(n['body'], env, cls, fn, out)
        else:
            raise AnalysisError("comprehension not understood: %s" % k)

    # ---- calls
    def ev_GeneralCallNode(self, n, env, cls, fn):
        f = self.ev(n['function'], env, cls, fn)
        pos = n.get('positional_args') or {}
        a = [self.ev(x, env, cls, fn) for x in (pos.get('args') or [])]
        kw = {}
        for it in (n.get('keyword_args') or {}).get('key_value_pairs') or []:
            kw[it['key'].get('value')] = self.ev(it['value'], env, cls, fn)
        return self.pycall(f, a, kw, n, env, cls, fn)

    def ev_SimpleCallNode(self, n, env, cls, fn):
        f = n['function']
        ft = f.get('ft') or ((f.get('entry') or {}).get('ft'))
        if f['n'] == 'NewExprNode':
            a = self.args(n, env, cls, fn)
            c = f.get('class') or ''
            c = re.sub(r'.*::', '', c.replace(' *', ''))
            self.event(c, '<init>', f.get('ft'), a, n, 'new')
            self.live.add(self.ncall)
            return AV('cpp:ptr', prov=frozenset(), ident=('ptr', self.ncall))
        if f['n'] == 'AttributeNode' and f['obj'].get('t', '').replace('fisx::', '').rstrip(' *&').strip() in self.cppclasses() and f.get('ft'):
            c = f['obj']['t'].replace('fisx::', '').rstrip(' *&').strip()
            o = self.ev(f['obj'], env, cls, fn)
            a = self.args(n, env, cls, fn)
            r = self.event(c, f['attribute'], f['ft'], a, n, o.ident or 'local')
            if f['obj']['n'] == 'NameNode' and f['obj']['name'] in env or f['obj']['n'] == 'NameNode':
                pv = frozenset().union(*[allprov(x) for x in a]) if a else frozenset()
                env[f['obj']['name']] = o.but(prov=o.prov | pv)
            return r
        if f['n'] == 'AttributeNode' and not (f['obj'].get('t') or 'py:').startswith(('py:', 'ext:')):
            # method of a standard container held in a local
            o = self.ev(f['obj'], env, cls, fn)
            a = self.args(n, env, cls, fn)
            if f['obj']['n'] == 'NameNode' and f['attribute'] in ('push_back', 'insert', 'assign', 'append', 'emplace_back'):
                pv = frozenset().union(*[allprov(x) for x in a]) if a else frozenset()
                md = frozenset().union(*[frozenset(allmod(x)) for x in a]) if a else frozenset()
                env[f['obj']['name']] = o.but(prov=o.prov | pv, mod=o.mod | md)
                return AV('cpp:void')
            if f['attribute'] == 'size':
                return AV('cpp:int', mod=frozenset({'size'}))
            if f['attribute'] in ('clear', 'reserve', 'resize') and f['obj']['n'] == 'NameNode':
                if f['attribute'] == 'clear':
                    env[f['obj']['name']] = o.but(prov=frozenset(), mod=frozenset(), sub=[])
                return AV('cpp:void')
            return AV('cpp:' + re.sub(r'\s+', '', n.get('t') or 'void'), prov=o.prov, mod=o.mod | {f['attribute']})
        fv = self.ev(f, env, cls, fn)
        a = self.args(n, env, cls, fn)
        if n.get('self') is not None and fv.k != 'func':
            pass
        ctor = None
        if f['n'] == 'NameNode' and f['name'] in self.cppclasses():
            ctor = f['name']
        elif f['n'] == 'RawCNameExprNode' and (f.get('cname') or '').startswith('fisx::') and f['cname'][6:] in self.cppclasses():
            ctor = f['cname'][6:]
        if ctor:
            self.event(ctor, '<init>', ft, a, n, 'local')
            pv = frozenset().union(*[allprov(x) for x in a]) if a else frozenset()
            return AV('cpp:' + ctor, prov=pv, mod=frozenset().union(*[frozenset(allmod(x)) for x in a]) if a else frozenset(), sub=None)
        if f['n'] == 'NameNode' and ft and (f.get('entry') or {}).get('cfunc') and f['name'] not in ('hasattr', 'isinstance', 'len', 'type', 'abs', 'max', 'min', 'iter', 'next', 'getattr'):
            if any(d['name'] == f['name'] and d['class'] == '' for d in self.W.decls):
                return self.event('', (f.get('entry') or {}).get('cname') or f['name'], ft, a, n, 'free')
        return self.pycall(fv, a, {}, n, env, cls, fn)

    def cppclasses(self):
        return {d['class'] for d in self.W.decls if d['class']}

    def event(self, c, name, ft, a, n, on):
        self.unknown = True
        self.ncall += 1
        if isinstance(on, tuple) and on[0] == 'ptr':
            if on[1] not in self.live:
                self.problem('use-after-delete', n.get('at'), "the library object is used after it was deleted")
            on = 'self' if on[1] == self.ptr else 'new'
        elif on == 'null':
            self.problem('use-before-creation', n.get('at'), "the library object is used before it was created")
            on = 'self'
        if ft and ft['exc'] == '+':
            self.mayfail(n.get('at'), "%s.%s fails" % (c, name))
        e = dict(cls=c, name=name, ft=ft, args=a, at=n.get('at'), on=on, id=self.ncall, conds=tuple(self.conds))
        self.events.append(e)
        ret = (ft or {}).get('ret') or 'void'
        return AV('cpp:' + re.sub(r'\s+', '', ret).replace('&', '').replace('const', ''), prov=frozenset({('res', self.ncall)}))

    def pycall(self, f, a, kw, n, env, cls, fn):
        nm = f.const if f.k == 'func' or f.k == 'type' else None
        at = n.get('at')
        if f.k == 'none':
            raise PyErr('TypeError', "None is called", at)
        if f.k == 'obj' or nm is None:
            self.unknown = True
            return AV('obj', prov=f.prov | frozenset().union(*[x.prov for x in a]) if a else f.prov, mod=f.mod)
        if nm.startswith('self.'):
            g = self.W.classes.get(cls, {}).get(nm[5:])
            if g is None:
                # name mangling of private methods
                for kx, gx in self.W.classes.get(cls, {}).items():
                    if kx.lstrip('_').endswith(nm[5:].lstrip('_')):
                        g = gx
            if g is None:
                raise PyErr('AttributeError', "no method %s" % nm[5:], at)
            names = [x['name'] for x in g['args']]
            if names and names[0] == 'self':
                names = names[1:]
            if g['n'] == 'CFuncDefNode' and len(a) == len(names) + 1:
                a = a[1:]      # the receiver is passed explicitly
            if len(a) > len(names):
                raise PyErr('TypeError', "too many arguments for %s" % g['fname'], at)
            d = dict(zip(names, a))
            for k2, v2 in kw.items():
                if k2 not in names:
                    raise PyErr('TypeError', "no argument %s" % k2, at)
                d[k2] = v2
            # container passed by reference
            d['self'] = AV('ext:' + cls, ident='self')
            r = self.call(cls, g, d, at)
            raw = (n.get('args') or []) if n.get('args') is not None else []
            for i, x in enumerate(raw[-len(names):] if raw else []):
                if x['n'] == 'NameNode' and (x.get('t') or '').startswith('std::'):
                    # by-reference C++ container: every other argument may have gone in
                    o = env.get(x['name'], AV('cpp:' + x['t']))
                    pv = frozenset().union(*[allprov(y) for j, y in enumerate(a) if j != i]) if a else frozenset()
                    env[x['name']] = o.but(prov=o.prov | pv)
            return r
        short = nm.split('.')[-1]
        if nm in ('toBytes', 'toString'):
            v = a[0] if a else kw.get('inputArgument', OBJ)
            if v.k == 'obj':
                if nm == 'toBytes':
                    return v
                return v
            if nm == 'toBytes':
                return v.but(k='bytes') if v.k == 'str' else v
            return v.but(k='str') if v.k == 'bytes' else v
        if nm in ('toBytesKeys', 'toStringKeys', 'toBytesKeysAndValues', 'toStringKeysAndValues'):
            v = a[0]
            if v.k == 'obj':
                return v
            if v.k != 'dict':
                if nm.endswith('Values'):
                    return v
                raise PyErr('AttributeError', "%s of a %s" % (nm, v.k), at)
            return self.keys(v, 'bytes' if 'Bytes' in nm else 'str', nm.endswith('Values'))
        if nm == 'toStringList':
            v = a[0]
            es = self.elems(v, at)
            return AV('list', es[0].but(k='str') if es and es[0].k == 'bytes' else (es[0] if es else OBJ), prov=v.prov, mod=v.mod)
        if nm in ('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.atleast_1d', 'numpy.asanyarray'):
            v = a[0] if a else OBJ
            dt = self.dtype(n)
            if dt:
                v = v.but(mod=v.mod | dt)
            if v.k in ('float', 'int', 'bool') and short != 'atleast_1d':
                return AV('nd0', prov=v.prov, mod=v.mod)
            if v.k in ('str', 'bytes'):
                raise PyErr('ValueError', "array of text", at)
            if v.k in ('float', 'int', 'bool'):
                return AV('nd', AV('float', prov=v.prov, mod=v.mod))
            if v.k == 'obj':
                return AV('nd', AV('float', prov=frozenset(p + ('[]',) for p in v.prov), mod=v.mod))
            es = self.elems(v, at)
            if any(e.k in ('str', 'bytes') for e in es):
                raise PyErr('ValueError', "array of text", at)
            return AV('nd', es if v.k in ('list', 'tuple') and isinstance(v.sub, list) else (es[0] if es else OBJ), prov=v.prov, mod=v.mod)
        if nm in ('numpy.ones', 'numpy.zeros', 'numpy.full'):
            return AV('nd', AV('float', const=1.0 if short == 'ones' else 0.0))
        if nm == 'hasattr':
            o, s = a[0], a[1].const
            if o.k == 'obj' or s is None:
                return AV('bool')
            if o.k.startswith('ext:'):
                return AV('bool', const=s in self.W.classes.get(o.k[4:], {}))
            if o.k in ATTRS:
                return AV('bool', const=s in ATTRS[o.k])
            if o.k == 'nd0':
                return AV('bool', const=s in ATTRS['nd'])
            return AV('bool')
        if nm == 'isinstance':
            o, t = a
            ts = [t] if t.k != 'tuple' else list(t.sub)
            if o.k == 'obj':
                r = self.choose(('isinstance', at))
                q = ((n.get('args') or (n.get('arg_tuple') or {}).get('args')) or [{}])[0]
                if r and len(ts) == 1 and ts[0].k == 'type' and q.get('n') == 'NameNode' and q['name'] in env:
                    env[q['name']] = o.but(k='ext:' + ts[0].const, ident=None)
                return AV('bool', const=r)
            if all(x.k in ('type', 'func') and x.const for x in ts):
                me = o.k[4:] if o.k.startswith('ext:') else {'nd': 'numpy.ndarray'}.get(o.k, o.k)
                return AV('bool', const=me in [x.const for x in ts] or (me == 'bool' and 'int' in [x.const for x in ts]))
            return AV('bool')
        if nm == 'type' and len(a) == 1:
            if a[0].k == 'obj':
                return AV('obj')
            return AV('type', const=a[0].k[4:] if a[0].k.startswith('ext:') else a[0].k)
        if nm == 'len':
            v = a[0]
            if v.k in ('int', 'float', 'none', 'bool'):
                raise PyErr('TypeError', "%s has no length" % v.k, at)
            if v.k in ('str', 'bytes'):
                c = len(v.const) if isinstance(v.const, str) else None
                return AV('int', const=c if c is not None else None, mod=v.mod, prov=frozenset()) if c is not None else AV('int', const=2)
            if v.k in ('tuple', 'list') and isinstance(v.sub, list):
                return AV('int', const=len(v.sub))
            return AV('int', ident=('len', allprov(v)))
        if nm == 'sorted':
            v = a[0]
            if v.k == 'obj':
                return AV('list', AV('obj', prov=frozenset(p + ('[]',) for p in v.prov), mod=v.mod | {'order'}), prov=v.prov, mod=v.mod | {'order'})
            es = self.elems(v, at)
            o = frozenset({'order'}) if v.k != 'dict' and not (v.k in ('list', 'tuple') and isinstance(v.sub, list) and len(es) < 2) else frozenset()
            e = es[0] if es else OBJ
            return AV('list', e.but(mod=e.mod | o), prov=v.prov, mod=v.mod | o)
        if nm in ('set', 'frozenset', 'reversed') and a:
            v = a[0]
            if v.k == 'obj':
                return AV('list', AV('obj', prov=frozenset(p + ('[]',) for p in v.prov), mod=v.mod | {'order'}), prov=v.prov, mod=v.mod | {'order'})
            es = self.elems(v, at)
            e = es[0] if es else OBJ
            o = frozenset({'order'}) if v.k != 'dict' else frozenset()
            return AV('list', e.but(mod=e.mod | o), prov=v.prov, mod=v.mod | o)
        if nm in ('list', 'tuple', 'set', 'iter', 'reversed'):
            if not a:
                return AV('list', [])
            v = a[0]
            if v.k == 'obj':
                return v
            es = self.elems(v, at)
            return AV('tuple' if nm == 'tuple' else 'list', es if isinstance(v.sub, list) else (es[0] if es else OBJ), prov=v.prov, mod=v.mod)
        if nm in ('float', 'int', 'bool'):
            if not a:
                return AV(nm, const=0)
            v = a[0]
            if v.k in ('list', 'dict', 'none', 'tuple'):
                raise PyErr('TypeError', "%s() of %s" % (nm, v.k), at)
            return AV(nm, prov=v.prov, mod=v.mod | ({'truncated'} if nm == 'int' and v.k != 'int' else {'truth'} if nm == 'bool' else set()), const=v.const if nm != 'bool' else None)
        if nm in ('str', 'bytes', 'dict') and a:
            v = a[0]
            if nm == 'dict':
                if v.k in ('dict', 'obj'):
                    return v
                e = v.sub[0] if isinstance(v.sub, list) and v.sub else v.sub
                if isinstance(e, AV) and e.k == 'tuple' and isinstance(e.sub, list) and len(e.sub) == 2:
                    return AV('dict', (e.sub[0].but(mod=e.sub[0].mod | e.mod), e.sub[1]), prov=v.prov)
                return AV('dict', None, prov=v.prov)
            return AV(nm, prov=v.prov, mod=v.mod | {nm + '()'})
        if nm == 'range':
            return AV('list', AV('int'))
        if nm in ('zip', 'enumerate'):
            return AV('list', AV('tuple', [AV('int') if nm == 'enumerate' else None] + [self.elems(x, at)[0] for x in a] if nm == 'enumerate' else [self.elems(x, at)[0] for x in a]))
        if nm in ('sum', 'max', 'min', 'abs', 'round'):
            pv = frozenset().union(*[allprov(x) for x in a]) if a else frozenset()
            k = 'int' if a and all(x.k in ('int', 'bool') for x in a) else next((x.k for x in a if x.k.startswith('cpp:')), 'float') if all(x.k in ('int', 'bool') or x.k.startswith('cpp:') for x in a) else 'float'
            return AV(k, prov=pv, mod=frozenset({'arithmetic'}))
        if nm.startswith('m.'):
            o = f.sub
            if short in ('items',):
                return AV('list', AV('tuple', list(o.sub) if isinstance(o.sub, tuple) else [OBJ, OBJ]), prov=o.prov, mod=o.mod)
            if short == 'keys':
                return AV('list', o.sub[0] if isinstance(o.sub, tuple) else OBJ, prov=o.prov, mod=o.mod)
            if short == 'values':
                return AV('list', o.sub[1] if isinstance(o.sub, tuple) else OBJ, prov=o.prov, mod=o.mod)
            if short == 'encode':
                return o.but(k='bytes', mod=o.mod | {'codec:%s' % (a[0].const if a else 'utf-8')})
            if short == 'decode':
                return o.but(k='str', mod=o.mod | {'codec:%s' % (a[0].const if a else 'utf-8')})
            if short == 'tolist':
                return o.but(k='list')
            if short in ('lower', 'upper', 'strip'):
                return o.but(mod=o.mod | {short})
            if short in ('append',):
                return NONE
            if short == 'astype':
                return AV('nd', o.sub, prov=o.prov, mod=o.mod | self.dtype(n))
            return AV('obj', prov=o.prov, mod=o.mod | {short})
        if nm.startswith('ext.'):
            g = self.W.classes.get(f.sub.k[4:], {}).get(short)
            r = self.extresult(f.sub, g)
            return r
        if f.k == 'type' and nm in self.W.classes:
            return AV('ext:' + nm, ident='fresh')
        if nm in ('ValueError', 'TypeError', 'IndexError', 'IOError', 'KeyError', 'RuntimeError'):
            return AV('obj')
        if nm.startswith(('os.', 'sys.')) or nm in ('getDataFile', 'itemgetter', 'DataDir', 'pyfunc', 'module'):
            return AV('str') if nm.startswith('os.') else AV('obj')
        return AV('obj', prov=frozenset().union(*[allprov(x) for x in a]) if a else frozenset())

    @staticmethod
    def dtype(n):
        """narrow element types named in the arguments of an array constructor or of astype"""
        out = set()
        todo = [n.get('args'), (n.get('arg_tuple') or {}).get('args'), n.get('keyword_args')]
        while todo:
            x = todo.pop()
            if isinstance(x, list):
                todo += x
            elif isinstance(x, dict):
                if x.get('n') == 'AttributeNode' and 'attribute' in x:
                    out.add(str(x['attribute']))
                elif x.get('n') == 'NameNode' and x.get('name') == 'int':
                    out.add('int')
                elif x.get('n') in ('UnicodeNode', 'StringNode', 'BytesNode') and isinstance(x.get('value'), str):
                    out.add(x['value'].lstrip('<>=|'))
                if x.get('n') not in ('SimpleCallNode', 'GeneralCallNode', 'PyMethodCallNode'):
                    todo += [y for k, y in x.items() if isinstance(y, (dict, list))]
        r = set()
        if out & {'float32', 'float16', 'single', 'half', 'f4', 'f2', 'f', 'e'}:
            r.add('as:float')
        if any(re.match(r'u?int(8|16|32|64|p|_|c)?$|long$|short$|[iu][1248]$|[ilhqb]$', x) for x in out):
            r.add('as:int')
        return frozenset(r)

    def extresult(self, o, g):
        """kind of the result of a method of another wrapper object"""
        if g is None:
            return OBJ
        key = ('ext', o.k, g['fname'])
        if getattr(self, '_extmemo', None) is None:
            self._extmemo = {}
        if key not in self._extmemo:
            self._extmemo[key] = None
            sub = Interp(self.W)
            try:
                outs = sub.run(o.k[4:], g, {a['name']: OBJ for a in g['args'] if a['default'] is None and a['name'] != 'self'} | {'self': AV(o.k, ident='self')})
                ks = [x.value for x in outs if x.kind == 'ret']
                self._extmemo[key] = ks[0] if ks else OBJ
            except AnalysisError:
                self._extmemo[key] = OBJ
        r = self._extmemo[key] or OBJ

        def strip(v):
            s = v.sub
            if isinstance(s, tuple):
                s = tuple(strip(x) for x in s)
            elif isinstance(s, list):
                s = [strip(x) for x in s]
            elif isinstance(s, AV):
                s = strip(s)
            return AV(v.k, s, prov=o.prov, mod=frozenset())
        return strip(r)

    def keys(self, v, to, deep):
        if not isinstance(v.sub, tuple):
            return v
        k, w = v.sub
        if k.k in ('str', 'bytes'):
            k = k.but(k=to)
        if deep and w.k == 'dict':
            w = self.keys(w, to, True)
        return v.but(sub=(k, w))
