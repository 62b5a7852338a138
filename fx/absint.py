"""Interval abstract interpretation of one scenario: which exits (return, throw) can be reached when the inputs lie in given ranges.

A scenario gives ranges to parameters ('P1', path) -> Iv and to container sizes ('#P1', path) -> Iv.  Everything else is unknown.
Paths are merged per block (intervals joined, widened); comparisons decided by the ranges cut the infeasible edge; other comparisons
refine the range of the compared value.  Calls of library functions are interpreted in the caller's abstract state.
NaN is not modelled.
"""
import math, struct
from . import stl
from .esp import const_of

INF = math.inf


class Iv:
    __slots__ = ('lo', 'lc', 'hi', 'hc')

    def __init__(self, lo=-INF, lc=False, hi=INF, hc=False):
        self.lo = lo; self.lc = lc; self.hi = hi; self.hc = hc

    def __eq__(self, o):
        return isinstance(o, Iv) and (self.lo, self.lc, self.hi, self.hc) == (o.lo, o.lc, o.hi, o.hc)

    def __hash__(self):
        return hash((self.lo, self.lc, self.hi, self.hc))

    def __repr__(self):
        return '%s%g,%g%s' % ('[' if self.lc else '(', self.lo, self.hi, ']' if self.hc else ')')

    def empty(self):
        return self.lo > self.hi or self.lo == self.hi and not (self.lc and self.hc)

    def join(self, o):
        lo, lc = min((self.lo, not self.lc), (o.lo, not o.lc))
        hi, hc = max((self.hi, self.hc), (o.hi, o.hc))
        return Iv(lo, not lc, hi, hc)

    def meet(self, o):
        lo, lc = max((self.lo, not self.lc), (o.lo, not o.lc))
        hi, hc = min((self.hi, self.hc), (o.hi, o.hc))
        return Iv(lo, not lc, hi, hc)

    def top(self):
        return self.lo == -INF and self.hi == INF

    def const(self):
        return self.lo if self.lo == self.hi and self.lc and self.hc else None

    def lt(self, o):
        """True: every a < b; False: no a < b; None"""
        if self.hi < o.lo or self.hi == o.lo and not (self.hc and o.lc):
            return True
        if self.lo > o.hi or self.lo == o.hi:
            return False
        return None

    def le(self, o):
        if self.hi <= o.lo:
            return True
        if self.lo > o.hi or self.lo == o.hi and not (self.lc and o.hc):
            return False
        return None

    def eq(self, o):
        if self.meet(o).empty():
            return False
        a = self.const()
        if a is not None and a == o.const():
            return True
        return None


TOP = Iv()
POS = Iv(0, False, INF, False)
NEG = Iv(-INF, False, 0, False)
ZERO = Iv(0, True, 0, True)
NONNEG = Iv(0, True, INF, False)
SIZE = NONNEG


def C(x):
    return Iv(x, True, x, True)


def R(a, b):
    return Iv(a, True, b, True)


def value_const(v):
    if not isinstance(v, str):
        return None
    if v.startswith('0x'):
        h = v[2:]
        if len(h) == 16:
            return struct.unpack('>d', bytes.fromhex(h))[0]
        return None
    c = const_of(v)
    if c is True:
        return 1
    if c is False:
        return 0
    return c


def mulb(a, b):
    if a == 0 or b == 0:
        return 0.0
    return a * b


def iv_mul(a, b):
    c = []
    for x, xc in ((a.lo, a.lc), (a.hi, a.hc)):
        for y, yc in ((b.lo, b.lc), (b.hi, b.hc)):
            z = mulb(x, y)
            # the bound is attained when both are, or when an attained 0 factor makes it so
            c.append((z, (xc and yc) or (x == 0 and xc) or (y == 0 and yc)))
    lo = min(z for z, k in c); hi = max(z for z, k in c)
    return Iv(lo, any(k for z, k in c if z == lo), hi, any(k for z, k in c if z == hi))


def iv_div(a, b):
    if b.lo > 0 or b.lo == 0 and not b.lc:
        inv = Iv(1.0 / b.hi if b.hi != INF else 0.0, b.hc and b.hi != INF, 1.0 / b.lo if b.lo > 0 else INF, b.lc and b.lo > 0)
        return iv_mul(a, inv)
    if b.hi < 0 or b.hi == 0 and not b.hc:
        n = Iv(-b.hi, b.hc, -b.lo, b.lc)
        r = iv_div(a, n)
        return Iv(-r.hi, r.hc, -r.lo, r.lc)
    return TOP


def iv_neg(a):
    return Iv(-a.hi, a.hc, -a.lo, a.lc)


def iv_add(a, b):
    return Iv(a.lo + b.lo, a.lc and b.lc, a.hi + b.hi, a.hc and b.hc)


def iv_mono(f, a):
    def g(x):
        try:
            return f(x)
        except (OverflowError, ValueError):
            return INF
    return Iv(g(a.lo) if a.lo != -INF else None, a.lc, g(a.hi) if a.hi != INF else INF, a.hc)


def iv_exp(a):
    lo = 0.0 if a.lo == -INF else math.exp(a.lo) if a.lo < 700 else INF
    hi = INF if a.hi > 700 else math.exp(a.hi)
    return Iv(lo, a.lc and a.lo != -INF, hi, a.hc and a.hi != INF)


class St:
    """one abstract state"""
    __slots__ = ('env', 'mem', 'alias')

    def __init__(self, env=None, mem=None, alias=None):
        self.env = env or {}; self.mem = mem or {}; self.alias = alias or {}

    def copy(self):
        return St(dict(self.env), dict(self.mem), dict(self.alias))

    def join(self, o, widen=False):
        env = {}
        for k, x in self.env.items():
            y = o.env.get(k)
            if y is not None:
                env[k] = jv(x, y, widen)
            # values not computed on one side are not usable after the join
        mem = {}
        for k, x in self.mem.items():
            y = o.mem.get(k)
            if y is not None:
                mem[k] = jv(x, y, widen)
        al = {k: v for k, v in self.alias.items() if o.alias.get(k) == v}
        return St(env, mem, al)

    def same(self, o):
        return self.env == o.env and self.mem == o.mem and self.alias == o.alias


def jv(x, y, widen):
    if isinstance(x, Iv) and isinstance(y, Iv):
        j = x.join(y)
        if widen and j != x:
            lo, lc = (j.lo, j.lc) if (j.lo, j.lc) == (x.lo, x.lc) else ((0, True) if j.lo >= 0 else (-INF, False))
            hi, hc = (j.hi, j.hc) if (j.hi, j.hc) == (x.hi, x.hc) else (INF, False)
            if j.lo > 0 and (j.lo, j.lc) != (x.lo, x.lc):
                lo, lc = 0, False
            j = Iv(lo, lc, hi, hc)
        return j
    return x if x == y else '?'


def ematch(a, b):
    """path components that may denote the same element"""
    return a == b or a[0] == '[' == b[0] and '[]' in (a, b)


def pmatch(path, pre):
    return len(path) >= len(pre) and all(ematch(x, y) for x, y in zip(path, pre))


def indexed(r, k):
    """region r with its last element component fixed to element k"""
    p = list(r[1])
    for j in range(len(p) - 1, -1, -1):
        if p[j] == '[]':
            p[j] = '[%d]' % k
            return (r[0], tuple(p))
    return r


NEGP = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
        'oeq': 'une', 'une': 'oeq', 'one': 'ueq', 'ueq': 'one', 'olt': 'uge', 'uge': 'olt', 'ogt': 'ule', 'ule': 'ogt', 'ole': 'ugt', 'ugt': 'ole', 'oge': 'ult', 'ult': 'oge'}


def rel(pred):
    p = pred[1:] if pred[0] in 'suo' and len(pred) == 3 else pred
    return p


class Outcome:
    def __init__(self):
        self.ret = None         # St at return (memory of P regions), None: cannot return
        self.val = None
        self.throws = []        # instructions where an exception may leave


class Interp:
    def __init__(self, ctx, maxdepth=10, loads=None, unroll=0):
        self.ctx = ctx
        self.unroll = unroll
        self.maxdepth = maxdepth
        self.memo = {}
        self.active = []
        self.loads = loads or {}     # ranges of members: (class, member) -> Iv (established elsewhere)
        self.steps = 0

    # -------------------------------------------------------------- entry
    def run(self, f, mem):
        """mem: {('P1', path): Iv, ('#P1', path): Iv}; returns Outcome"""
        return self.call(f, dict(mem), {}, 0)

    def call(self, f, mem, env, depth):
        key = (f.name, frozenset(mem.items()), frozenset(env.items()))
        if key in self.memo:
            return self.memo[key]
        if depth > self.maxdepth or key[0] in self.active and self.active.count(key[0]) > 1:
            o = Outcome()
            o.ret = St(); o.val = TOP
            if self.ctx.F.throws[f.name]:
                o.throws = [None]
            return o
        self.active.append(f.name)
        o = self._fn(f, mem, env, depth)
        self.active.pop()
        self.memo[key] = o
        return o

    # -------------------------------------------------------------- one function
    def _fn(self, f, mem, env, depth):
        ctx = self.ctx
        cfg = ctx.F.cfg(f)
        info = ctx.R.infos[f.name]
        out = Outcome()
        # nodes are (block, iteration number of each enclosing loop): the first `unroll` iterations are kept apart
        n0 = (f.order[0], ())
        ins = {n0: St(dict(env), dict(mem))}
        visits = {}
        work = [n0]
        pos = {b: k for k, b in enumerate(cfg.rpo)}
        exits = {}
        loops = cfg.loops if self.unroll else {}
        while work:
            work.sort(key=lambda b: (tuple(k for h, k in b[1]), pos.get(b[0], 1 << 30)))
            node = work.pop(0)
            b, cnt = node
            st = ins[node].copy()
            visits[node] = visits.get(node, 0) + 1
            self.steps += 1
            if visits[node] > 60:
                continue

            def send(s, state, frm=b, cnt=cnt):
                state = self.phis(f, s, frm, state)
                if loops:
                    c = tuple((h, k) for h, k in cnt if s in loops[h])
                    if s in loops:
                        d = dict(c)
                        if frm in loops[s]:
                            if d.get(s, 0) < self.unroll:
                                d[s] = d.get(s, 0) + 1
                        else:
                            d[s] = 0
                        c = tuple(sorted(d.items()))
                    s = (s, c)
                else:
                    s = (s, ())
                old = ins.get(s)
                if old is None:
                    new = state
                else:
                    new = old.join(state, visits.get(s, 0) >= 3)
                    if new.same(old):
                        return
                ins[s] = new
                if s not in work:
                    work.append(s)
            dead = False
            for i in f.blocks[b].insts:
                if i.op in ('call', 'invoke'):
                    r, may = self.do_call(f, info, i, st, depth)
                    if may and i.op == 'invoke':
                        x = st.copy()
                        send(i.unwind, x)
                    elif may:
                        exits.setdefault('throw', []).append(i)
                    if r is None:
                        dead = True
                        break
                    if i.res:
                        st.env[i.res] = r
                    if i.op == 'invoke':
                        send(i.normal, st)
                        dead = True
                        break
                elif i.op == 'phi':
                    continue
                elif i.op == 'store':
                    self.store(info, i, st)
                elif i.op == 'load':
                    st.env[i.res] = self.load(f, info, i, st)
                elif i.op == 'br':
                    dead = True
                    if len(i.labels) == 1:
                        send(i.labels[0], st)
                    else:
                        c = self.val(st, i.ops[0])
                        k = c.const() if isinstance(c, Iv) else None
                        for lab, t in ((i.labels[0], True), (i.labels[1], False)):
                            if k is not None and bool(k) != t:
                                continue
                            s2 = st.copy()
                            if self.refine(f, s2, i.ops[0], t):
                                send(lab, s2)
                elif i.op == 'switch':
                    for lab in dict.fromkeys(i.labels):
                        send(lab, st.copy())
                    dead = True
                elif i.op == 'ret':
                    v = self.val(st, i.ops[0]) if i.ops else None
                    out.val = v if out.val is None else jv(out.val, v, False)
                    out.ret = st.copy() if out.ret is None else out.ret.join(st)
                elif i.op == 'resume':
                    exits.setdefault('throw', []).append(i)
                elif i.op == 'unreachable':
                    pass
                elif i.res:
                    st.env[i.res] = self.arith(f, i, st)
                if dead:
                    break
        out.throws = exits.get('throw', [])
        return out

    def phis(self, f, s, frm, st):
        st = st.copy()
        new = {}
        na = {}
        for i in f.blocks[s].insts:
            if i.op != 'phi':
                break
            for o, b in i.incoming:
                if b == frm:
                    new[i.res] = self.val(st, o)
                    if o in st.alias:
                        na[i.res] = st.alias[o]
                    break
        st.env.update(new)
        for k in new:
            st.alias.pop(k, None)
        st.alias.update(na)
        return st

    def val(self, st, v):
        c = value_const(v)
        if c is not None:
            return C(c)
        x = st.env.get(v)
        return TOP if x is None else x

    # -------------------------------------------------------------- memory
    @staticmethod
    def weak(r):
        return '[]' in r[1] or '*' in r[1]

    def overlapping(self, st, r):
        sz = r[0][0] == '#'
        for q in st.mem:
            if (q[0][0] == '#') != sz:
                continue
            if q[0] == r[0] and (q[1][:len(r[1])] == r[1] or r[1][:len(q[1])] == q[1]):
                yield q

    def kill(self, st, r):
        """region r (and everything inside) is overwritten with something unknown"""
        for root in (r[0], '#' + r[0]):
            for q in [q for q in st.mem if q[0] == root and pmatch(q[1], r[1])]:
                del st.mem[q]
        for k in [k for k, q in st.alias.items() if q[0] in (r[0], '#' + r[0]) and (pmatch(q[1], r[1]) or pmatch(r[1], q[1]))]:
            del st.alias[k]

    def write(self, st, rs, v):
        if len(rs) == 1 and not self.weak(next(iter(rs))):
            r = next(iter(rs))
            self.kill(st, r)
            if v is not None and not (isinstance(v, Iv) and v.top()):
                st.mem[r] = v
        else:
            for r in rs:
                old = st.mem.get(r)
                for k in [k for k, q in st.alias.items() if q[0] == r[0] and pmatch(q[1], r[1])]:
                    del st.alias[k]
                for q in [q for q in st.mem if q != r and q[0] == r[0] and len(q[1]) == len(r[1]) and pmatch(q[1], r[1])]:
                    if v is None:
                        del st.mem[q]
                    else:
                        st.mem[q] = jv(st.mem[q], v, False)
                if old is not None:
                    if v is None:
                        del st.mem[r]
                    else:
                        st.mem[r] = jv(old, v, False)
                elif self.weak(r):
                    # first element stored in a container known to be empty
                    base = (('#' + r[0]), r[1][:-1])
                    n = st.mem.get(base)
                    if isinstance(n, Iv) and n.const() == 0 and v is not None:
                        st.mem[r] = v

    def load(self, f, info, i, st):
        return self.read(st, self.regs(info, st, i.ops[0]), i)

    def regs(self, info, st, v):
        """regions of pointer v; a known element index is put in"""
        rs = self.ctx.R.pts_of(info, v)
        t = st.env.get(v)
        if isinstance(t, tuple) and t[0] == 'ix' and len(rs) == 1:
            r = indexed(next(iter(rs)), t[1])
            d = info.fn.defs.get(v) if v.startswith('%') else None
            if d is not None and d.op == 'getelementptr' and 'struct.std::pair' in (d.extra or '') and len(d.ops) >= 3 and d.ops[2] in ('0', '1'):
                # key and value of a map entry have ranges of their own where the scenario gives them
                q = (r[0], r[1] + (('first', 'second')[int(d.ops[2])],))
                if q in st.mem:
                    r = q
            return frozenset([r])
        return rs

    def read(self, st, rs, i=None):
        v = None
        for r in rs:
            x = st.mem.get(r)
            if x is None and any(c[0] == '[' and c != '[]' for c in r[1]):
                x = st.mem.get((r[0], tuple('[]' if c[0] == '[' else c for c in r[1])))
            if x is None and r[1] and r[1][-1] in self.loads:
                x = self.loads[r[1][-1]]
            if x is None:
                return TOP
            v = x if v is None else jv(v, x, False)
        if v is None:
            return TOP
        if i is not None and i.res and len(rs) == 1:
            st.alias[i.res] = next(iter(rs))
        return v

    def store(self, info, i, st):
        self.write(st, self.regs(info, st, i.ops[1]), self.val(st, i.ops[0]))

    def size(self, st, r):
        x = st.mem.get(('#' + r[0], r[1]))
        return x if isinstance(x, Iv) else SIZE

    # -------------------------------------------------------------- values
    def cmp(self, pred, a, b):
        if not isinstance(a, Iv) or not isinstance(b, Iv):
            if isinstance(a, str) and isinstance(b, str) and a != '?' and a == b:
                return {'eq': True, 'ne': False}.get(rel(pred))
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'it':
                return {'eq': a == b, 'ne': a != b}.get(rel(pred))
            return None
        if pred[0] == 'u' and pred in ('ult', 'ugt', 'ule', 'uge'):
            def un(x):
                k = x.const()
                if k is not None and isinstance(k, int) and k < 0:
                    return C(k + 2 ** 64)
                return x
            a, b = un(a), un(b)
        p = rel(pred)
        if p == 'lt':
            return a.lt(b)
        if p == 'gt':
            return b.lt(a)
        if p == 'le':
            return a.le(b)
        if p == 'ge':
            return b.le(a)
        if p in ('eq',):
            return a.eq(b)
        if p == 'ne':
            e = a.eq(b)
            return None if e is None else not e
        return None

    def arith(self, f, i, st):
        op = i.op
        if op in ('icmp', 'fcmp'):
            r = self.cmp(i.pred, self.val(st, i.ops[0]), self.val(st, i.ops[1]))
            return R(0, 1) if r is None else C(int(r))
        if op in ('zext', 'sext', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'trunc', 'freeze', 'bitcast'):
            v = self.val(st, i.ops[0])
            if i.ops[0] in st.alias and op != 'trunc':
                st.alias[i.res] = st.alias[i.ops[0]]
            if op == 'trunc' and i.ty == 'i1' and isinstance(v, Iv) and v.const() is None:
                return R(0, 1)
            return v
        if op == 'fptosi' or op == 'fptoui':
            return TOP
        a = self.val(st, i.ops[0]) if i.ops else TOP
        if op == 'getelementptr':
            return a if isinstance(a, tuple) and a[0] == 'ix' else TOP
        b = self.val(st, i.ops[1]) if len(i.ops) > 1 else None
        if op == 'select':
            k = a.const() if isinstance(a, Iv) else None
            x, y = self.val(st, i.ops[1]), self.val(st, i.ops[2])
            if k is not None:
                return x if k else y
            return jv(x, y, False)
        if not isinstance(a, Iv) or b is not None and not isinstance(b, Iv):
            return TOP
        if op in ('fadd', 'add'):
            return iv_add(a, b)
        if op in ('fsub', 'sub'):
            return iv_add(a, iv_neg(b))
        if op in ('fmul', 'mul'):
            if i.ops[0] == i.ops[1]:
                m = iv_mul(a, a)
                return m.meet(NONNEG)
            return iv_mul(a, b)
        if op == 'fdiv':
            return iv_div(a, b)
        if op == 'fneg':
            return iv_neg(a)
        if op == 'xor' and i.ops[1] in ('true', '1', '-1') and a.const() in (0, 1):
            return C(1 - a.const())
        if op in ('and', 'or') and i.ty == 'i1':
            ka, kb = a.const(), b.const()
            if op == 'and':
                return C(0) if 0 in (ka, kb) else C(1) if ka == kb == 1 else R(0, 1)
            return C(1) if 1 in (ka, kb) else C(0) if ka == kb == 0 else R(0, 1)
        if op in ('and', 'or', 'xor'):
            return TOP
        return TOP

    def narrow(self, st, v, iv, f=None):
        """value v lies in iv; False when impossible"""
        c = value_const(v)
        cur = self.val(st, v)
        if not isinstance(cur, Iv):
            return True
        m = cur.meet(iv)
        if m.empty():
            return False
        if c is None:
            st.env[v] = m
            if v in st.alias:
                r = st.alias[v]
                st.mem[r] = m
                for k, q in st.alias.items():
                    if q == r and isinstance(st.env.get(k), Iv):
                        st.env[k] = st.env[k].meet(iv)
            d = f.defs.get(v) if f is not None else None
            if d is not None and d.op in ('sext', 'zext', 'freeze', 'sitofp', 'fpext'):
                return self.narrow(st, d.ops[0], iv, f)
        return True

    def refine(self, f, st, v, t, depth=0):
        d = f.defs.get(v)
        if d is None or depth > 8:
            return True
        st.env[v] = C(int(t))
        if d.op in ('zext', 'trunc', 'freeze'):
            return self.refine(f, st, d.ops[0], t, depth + 1)
        if d.op == 'xor' and d.ops[1] in ('true', '-1', '1'):
            return self.refine(f, st, d.ops[0], not t, depth + 1)
        if d.op in ('icmp', 'fcmp'):
            a, b = self.val(st, d.ops[0]), self.val(st, d.ops[1])
            if not isinstance(a, Iv) or not isinstance(b, Iv):
                return True
            p = rel(d.pred)
            if not t:
                p = {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt', 'eq': 'ne', 'ne': 'eq'}.get(p)
            if p is None:
                return True
            if d.op == 'icmp' and p in ('ne', 'eq') and d.ops[1] in ('0', 'false'):
                e = f.defs.get(d.ops[0])
                if e is not None and e.op in ('zext', 'icmp', 'fcmp', 'xor') and (e.op != 'zext' or e.extra == 'i1'):
                    return self.refine(f, st, d.ops[0], p == 'ne', depth + 1)
            integer = d.op == 'icmp'

            def upper(x, strict):
                if x.hi == INF:
                    return Iv(-INF, False, INF, False)
                if strict:
                    return Iv(-INF, False, x.hi - 1, True) if integer and x.hc else Iv(-INF, False, x.hi, False)
                return Iv(-INF, False, x.hi, x.hc)

            def lower(x, strict):
                if x.lo == -INF:
                    return Iv(-INF, False, INF, False)
                if strict:
                    return Iv(x.lo + 1, True, INF, False) if integer and x.lc else Iv(x.lo, False, INF, False)
                return Iv(x.lo, x.lc, INF, False)
            ok = True
            if d.pred in ('ult', 'ugt', 'ule', 'uge') and integer and (a.lo < 0 or b.lo < 0):
                return True
            if p in ('lt', 'le'):
                ok = self.narrow(st, d.ops[0], upper(b, p == 'lt'), f) and self.narrow(st, d.ops[1], lower(a, p == 'lt'), f)
            elif p in ('gt', 'ge'):
                ok = self.narrow(st, d.ops[0], lower(b, p == 'gt'), f) and self.narrow(st, d.ops[1], upper(a, p == 'gt'), f)
            elif p == 'eq':
                ok = self.narrow(st, d.ops[0], b, f) and self.narrow(st, d.ops[1], a, f)
            elif p == 'ne':
                k = b.const()
                if k is not None:
                    if a.const() == k:
                        return False
                    if a.lo == k and a.lc:
                        ok = self.narrow(st, d.ops[0], Iv(k + 1, True, INF, False) if integer else Iv(k, False, INF, False), f)
                    elif a.hi == k and a.hc:
                        ok = self.narrow(st, d.ops[0], Iv(-INF, False, k - 1, True) if integer else Iv(-INF, False, k, False), f)
            return ok
        if d.op == 'phi':
            return True
        if d.op in ('call', 'invoke'):
            # empty()
            n = self.cname(d)
            if n is not None and n.base == 'empty' and d.args:
                rs = self.ctx.R.pts_of(self.ctx.R.infos[f.name], d.args[0])
                if len(rs) == 1:
                    r = next(iter(rs))
                    s = self.size(st, r).meet(C(0) if t else Iv(1, True, INF, False))
                    if s.empty():
                        return False
                    st.mem[('#' + r[0], r[1])] = s
        return True

    def cname(self, i):
        c = i.callee
        if c is None or c.startswith('%') or c.startswith('llvm.'):
            return None
        return self.ctx.M.name(c)

    # -------------------------------------------------------------- calls
    def do_call(self, f, info, i, st, depth):
        """-> (value or None when it cannot complete, may throw)"""
        ctx = self.ctx
        c = i.callee
        if c is None or c.startswith('%'):
            return TOP, True
        if c.startswith('llvm.'):
            if c.startswith(('llvm.memcpy', 'llvm.memmove')):
                self.copymem(st, ctx.R.pts_of(info, i.args[0]), ctx.R.pts_of(info, i.args[1]))
            elif c.startswith('llvm.memset'):
                for r in ctx.R.pts_of(info, i.args[0]):
                    self.kill(st, r)
            elif c.startswith('llvm.fabs'):
                return self.fabs(self.val(st, i.args[0])), False
            elif c.startswith('llvm.fmuladd') or c.startswith('llvm.fma'):
                a, b, d = [self.val(st, x) for x in i.args[:3]]
                if all(isinstance(x, Iv) for x in (a, b, d)):
                    return iv_add(iv_mul(a, b), d), False
            return TOP, False
        if ctx.F.noreturn(i):
            return None, c in ('__cxa_throw', '__cxa_rethrow') or '__throw_' in c
        if c.startswith('__'):
            return TOP, False
        ret, args = ctx.R.call_args(i)
        g = ctx.M.resolve(c)
        if g is not None:
            return self.lib_call(f, info, i, st, g, ret, args, depth)
        n = ctx.M.name(c)
        may = ctx.F.call_throws(i)
        return self.std_call(f, info, i, st, n, ret, args), may

    def lib_call(self, f, info, i, st, g, ret, args, depth):
        ctx = self.ctx
        mem = {}
        env = {}
        gi = ctx.R.infos[g.name]
        bases = []
        for k, a in enumerate(args):
            rs = self.regs(info, st, a)
            if len(rs) == 1:
                r = next(iter(rs))
                bases.append(('P%d' % k, r))
                sumr = tuple('[]' if c[0] == '[' else c for c in r[1])
                for want in ((sumr, r[1]) if sumr != r[1] else (r[1],)):
                    for q, v in st.mem.items():
                        root = q[0].lstrip('#')
                        if root == r[0] and q[1][:len(want)] == want:
                            pre = '#' if q[0][0] == '#' else ''
                            mem[(pre + 'P%d' % k, q[1][len(want):])] = v
            elif not rs:
                v = self.val(st, a)
                p = next((p for p, ix in gi.pindex.items() if ix == 'P%d' % k), None)
                if p is not None and isinstance(v, Iv) and not v.top():
                    env[p] = v
        if ret is not None:
            rs = ctx.R.pts_of(info, ret)
            if len(rs) == 1:
                bases.append(('RET', next(iter(rs))))
        # constants passed by reference through globals
        o = self.call(g, mem, env, depth + 1)
        # effects
        for (r, kind) in ctx.R.sum[g.name].writes:
            if r[0][0] == 'P' or r[0] == 'RET':
                for x in ctx.R.map_region(info, r, args, ret, i):
                    if self.weak(x):
                        for k in [k for k, q in st.alias.items() if q == x]:
                            del st.alias[k]
                        root = '#' + x[0]
                        # elements may be added or removed
                    self.kill(st, x)
                    self.kill_sizes(st, x)
        if o.ret is None:
            return None, bool(o.throws)
        for p, r in bases:
            for q, v in o.ret.mem.items():
                root = q[0].lstrip('#')
                if root == p:
                    pre = '#' if q[0][0] == '#' else ''
                    k = (pre + r[0], r[1] + q[1])
                    st.mem[k] = v
        return (o.val if o.val is not None else TOP), bool(o.throws)

    def kill_sizes(self, st, x):
        """sizes of containers that contain region x are unknown after a write below them that may insert"""
        for q in [q for q in st.mem if q[0] == '#' + x[0] and x[1][:len(q[1])] == q[1] and len(x[1]) == len(q[1])]:
            del st.mem[q]

    def copymem(self, st, dst, src):
        if len(dst) != 1 or len(src) != 1:
            for r in dst:
                self.kill(st, r)
            return
        d, s = next(iter(dst)), next(iter(src))
        vals = {}
        for q, v in st.mem.items():
            root = q[0].lstrip('#')
            if root == s[0] and q[1][:len(s[1])] == s[1]:
                vals[(('#' if q[0][0] == '#' else '') + d[0], d[1] + q[1][len(s[1]):])] = v
        self.kill(st, d)
        if not self.weak(d):
            st.mem.update(vals)
        else:
            pass

    @staticmethod
    def fabs(a):
        if not isinstance(a, Iv):
            return TOP
        if a.lo >= 0:
            return a
        if a.hi <= 0:
            return iv_neg(a)
        h = max((-a.lo, a.lc), (a.hi, a.hc))
        return Iv(0, True, h[0], h[1])

    def std_call(self, f, info, i, st, n, ret, args):
        ctx = self.ctx
        P = [ctx.R.pts_of(info, a) for a in args]
        klass, kind = stl.classify(n)
        b = n.base
        one = P and len(P[0]) == 1
        r0 = next(iter(P[0])) if one else None
        result = TOP
        if klass == 'cont':
            if b in ('size', 'length') and one:
                k = ('#' + r0[0], r0[1])
                v = self.size(st, r0)
                if i.res:
                    st.alias[i.res] = k
                return v
            if b == 'empty' and one:
                v = self.size(st, r0)
                return C(1) if v.const() == 0 else C(0) if v.lo > 0 else R(0, 1)
            if b in ('operator[]', 'at', 'front', 'back') and n.cls in ('vector', 'array', 'basic_string', 'deque') and one and self.unroll:
                k = None
                if b == 'front':
                    k = 0
                elif b == 'back':
                    z = self.size(st, r0).const()
                    k = z - 1 if z else None
                else:
                    z = self.val(st, args[1])
                    k = z.const() if isinstance(z, Iv) else None
                return ('ix', int(k)) if k is not None and 0 <= k < 64 else TOP
            if b in ('begin', 'cbegin') and one and self.unroll and self.size(st, r0).const() is not None:
                return ('it', 0)
            if b in ('end', 'cend') and one and self.unroll and self.size(st, r0).const() is not None:
                return ('it', int(self.size(st, r0).const()))
            if b in ('begin', 'cbegin', 'rbegin'):
                tok = 'begin' if one and self.size(st, r0).lo > 0 else 'end' if one and self.size(st, r0).const() == 0 else '?'
                return tok if i.ty == 'ptr' else TOP
            if b in ('end', 'cend'):
                return 'end'
            if b in ('find',) and n.cls != 'basic_string':
                if one and self.size(st, r0).const() == 0:
                    return ('it', 0) if self.unroll else 'end'
                if one and st.mem.get(('?absent', r0[1])) == r0[0]:
                    return 'end'
                return '?'
            if b == 'count' and one and self.size(st, r0).const() == 0:
                return C(0)
            if kind in ('read', 'access') and not (b in ('operator[]',) and False):
                if b == 'compare':
                    return TOP
                return TOP
            # modifying members
            if one:
                key = ('#' + r0[0], r0[1])
                old = st.mem.get(key)
                if kind == 'ctor' and len(args) == 1:
                    self.kill(st, r0)
                    if n.cls not in ('pair', 'tuple', 'array'):
                        st.mem[key] = C(0)
                elif kind in ('ctor', 'assign') and len(args) >= 2 and len(P[1]) == 1 and n.params and n.cls in n.params[0]:
                    self.copymem(st, P[0], P[1])
                elif kind == 'ctor' and n.cls == 'basic_string' and len(args) >= 2 and args[1].startswith('@'):
                    from .iters import const_string
                    s = const_string(f, args[1])
                    self.kill(st, r0)
                    if s is not None:
                        st.mem[key] = C(len(s))
                elif b == 'operator=' and n.cls == 'basic_string' and args[1].startswith('@'):
                    from .iters import const_string
                    s = const_string(f, args[1])
                    self.kill(st, r0)
                    if s is not None:
                        st.mem[key] = C(len(s))
                elif kind == 'ctor' and n.cls == 'vector' and len(args) >= 2 and not P[1]:
                    v = self.val(st, args[1])
                    self.kill(st, r0)
                    if isinstance(v, Iv):
                        st.mem[key] = v.meet(SIZE)
                elif kind == 'dtor':
                    self.kill(st, r0)
                elif b == 'clear':
                    self.kill(st, r0)
                    st.mem[key] = C(0)
                elif b == 'resize' and len(args) >= 2:
                    v = self.val(st, args[1])
                    for k in [k for k, q in st.alias.items() if q == key]:
                        del st.alias[k]
                    x = (r0[0], r0[1] + ('[]',))
                    if x in st.mem:
                        st.mem[x] = jv(st.mem[x], ZERO, False)
                    st.mem[key] = v.meet(SIZE) if isinstance(v, Iv) and not v.meet(SIZE).empty() else SIZE
                elif b in ('push_back', 'emplace_back'):
                    v = self.read(st, self.regs(info, st, args[1])) if len(P) > 1 and P[1] else TOP
                    if len(args) > 1 and not P[1]:
                        v = self.val(st, args[1])
                    x = (r0[0], r0[1] + ('[]',))
                    oldn = self.size(st, r0)
                    known = not (isinstance(v, Iv) and v.top())
                    if oldn.const() == 0:
                        if known:
                            st.mem[x] = v
                    elif x in st.mem:
                        st.mem[x] = jv(st.mem[x], v, False)
                    if self.unroll and oldn.const() is not None and known:
                        st.mem[indexed(x, int(oldn.const()))] = v
                    for k in [k for k, q in st.alias.items() if q == key]:
                        del st.alias[k]
                    st.mem[key] = iv_add(oldn, C(1))
                elif b == 'operator[]' and kind == 'insert':
                    for k in [k for k, q in st.alias.items() if q == key]:
                        del st.alias[k]
                    if old is not None:
                        if old.const() == 0:
                            st.mem[key] = C(1)
                        else:
                            st.mem[key] = Iv(max(old.lo, 1), True, INF, False)
                elif kind in ('ctor', 'assign', 'mutate'):
                    self.kill(st, r0)
            else:
                for r in (P[0] if P else ()):
                    if kind not in ('read', 'access'):
                        self.kill(st, r)
            return result
        if klass == 'iter':
            if kind == 'ctor' and one:
                src = None
                if len(args) > 1:
                    src = self.val(st, args[1])
                    if P[1] and len(P[1]) == 1:
                        src = st.mem.get(next(iter(P[1])), src)
                self.kill(st, r0)
                if isinstance(src, (str, tuple)):
                    st.mem[r0] = src
            elif b in ('operator++', 'operator--', 'operator+=', 'operator-=') and one:
                t = st.mem.get(r0)
                self.kill(st, r0)
                if isinstance(t, tuple) and b in ('operator++', 'operator--'):
                    st.mem[r0] = ('it', t[1] + (1 if b == 'operator++' else -1))
            elif b in ('operator*', 'operator->') and len(args) == 1:
                t = st.mem.get(r0) if one else None
                return ('ix', t[1]) if isinstance(t, tuple) else TOP
            elif kind == 'assign' and one:
                self.kill(st, r0)
            return TOP
        if b in ('operator==', 'operator!=') and len(args) == 2:
            r = self.equality(f, st, n, args, P)
            if r is None:
                return R(0, 1)
            return C(int(r == (b == 'operator==')))
        if klass == 'c' or n.scope == 'std' and b in ('exp', 'log', 'sqrt', 'fabs', 'abs', 'sin', 'cos', 'acos', 'atan', 'pow', 'max', 'min', 'tan', 'isfinite', 'isnan', 'isinf'):
            return self.math(st, b if klass != 'c' else i.callee, args, [self.regs(info, st, a) for a in args])
        if len(args) >= 2 and (b == 'operator-' or n.scope == 'std' and b in ('find', 'find_if', 'find_if_not', 'lower_bound', 'upper_bound', 'max_element',
                                                                             'min_element', 'adjacent_find', 'is_sorted_until', 'search', 'find_first_of')):
            t = []
            for a, p in zip(args[:2], P[:2]):
                v = self.val(st, a)
                if not isinstance(v, tuple) and len(p) == 1:
                    v = st.mem.get(next(iter(p)), v)
                t.append(v)
            if all(isinstance(x, tuple) and x[:1] == ('it',) for x in t):
                if b == 'operator-':
                    return C(t[0][1] - t[1][1])
                if t[0] == t[1]:
                    result = t[0]
        # other functions: effects
        for e in ctx.R._call_events(info, i):
            if e.rw == 'W' and e.region[0] not in ('X',):
                self.kill(st, e.region)
                self.kill_sizes(st, e.region)
        return result

    def equality(self, f, st, n, args, P):
        vals = []
        for a, p in zip(args, P):
            v = None
            if len(p) == 1:
                v = st.mem.get(next(iter(p)))
            if v is None:
                v = self.val(st, a)
            vals.append(v)
        a, b = vals
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a == b
        if isinstance(a, str) and isinstance(b, str) and '?' not in (a, b):
            if a == b == 'end':
                return True
            if {a, b} == {'begin', 'end'}:
                return False
            return None
        if 'string' in n.dem:
            from .iters import const_string
            sz = []
            for x, p in zip(args, P):
                s = const_string(f, x) if x.startswith('@') else None
                if s is not None:
                    sz.append(C(len(s)))
                elif len(p) == 1:
                    sz.append(self.size(st, next(iter(p))))
                else:
                    sz.append(SIZE)
            e = sz[0].eq(sz[1])
            if e is False:
                return False
            if e and sz[0].const() == 0:
                return True
        return None

    def math(self, st, name, args, P):
        v = []
        for a, p in zip(args, P):
            x = self.read(st, p) if p else self.val(st, a)
            v.append(x if isinstance(x, Iv) else TOP)
        if not v:
            return TOP
        a = v[0]
        if name == 'exp':
            return iv_exp(a)
        if name == 'log':
            lo = -INF if a.lo <= 0 else math.log(a.lo)
            hi = INF if a.hi == INF else math.log(a.hi) if a.hi > 0 else -INF
            return Iv(lo, a.lc and a.lo > 0, hi, a.hc and a.hi != INF)
        if name in ('fabs', 'abs'):
            return self.fabs(a)
        if name == 'sqrt':
            return Iv(math.sqrt(max(a.lo, 0)) if a.lo != -INF else 0, a.lc if a.lo >= 0 else True, math.sqrt(a.hi) if 0 <= a.hi < INF else INF, a.hc and a.hi != INF)
        if name in ('sin', 'cos'):
            return R(-1, 1)
        if name == 'acos':
            k = a.const()
            return C(math.acos(k)) if k is not None and -1 <= k <= 1 else R(0, math.pi)
        if name == 'atan':
            return R(-math.pi / 2, math.pi / 2)
        if name == 'pow' and len(v) > 1:
            if a.lo > 0 or a.lo == 0 and not a.lc:
                return POS
            if a.lo >= 0:
                return NONNEG
            return TOP
        if name in ('max', 'min') and len(v) > 1:
            b = v[1]
            if name == 'max':
                lo = max((a.lo, a.lc), (b.lo, b.lc)); hi = max((a.hi, a.hc), (b.hi, b.hc))
            else:
                lo = min((a.lo, a.lc), (b.lo, b.lc)); hi = min((a.hi, a.hc), (b.hi, b.hc))
            return Iv(lo[0], lo[1], hi[0], hi[1])
        return TOP
