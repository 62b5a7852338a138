"""Exact value flow: at every normal exit, which entry value does each memory cell / the result hold, unmodified?

ident = region tuple (the value that region had at entry), ('const', literal), ('empty',), ('addr', region) for references, None = anything.
"""
from . import stl
from .esp import const_of

COPY_OPS = {'load', 'sext', 'zext', 'freeze', 'bitcast', 'fpext', 'sitofp', 'uitofp'}


def under(a, b):
    """a is b or inside b"""
    return a[0] == b[0] and len(a[1]) >= len(b[1]) and a[1][:len(b[1])] == b[1]


class Ident:
    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}
        self.active = set()

    # ---------------- state helpers
    @staticmethod
    def read(state, rs):
        if len(rs) != 1:
            return None
        r = next(iter(rs))
        for c in state:
            if c != r and c[0] == r[0] and under(c, r):
                return None                      # partly modified
        best = None
        for c in state:
            if under(r, c) and (best is None or len(c[1]) > len(best[1])):
                best = c
        if best is not None:
            v = state[best]
            if v is None:
                return None
            rest = r[1][len(best[1]):]
            if not rest:
                return v
            if v[0] in ('const', 'empty', 'addr'):
                return None
            return (v[0], v[1] + rest)
        if r[0][0] in 'PG':
            return r
        return None

    @staticmethod
    def write(state, rs, v):
        weak = len(rs) != 1 or any('[]' in r[1] or '*' in r[1] for r in rs)
        for r in rs:
            for c in [c for c in state if c != r and under(c, r)]:
                del state[c]
            state[r] = None if weak else v

    @staticmethod
    def join(a, b):
        if a is None:
            return dict(b)
        out = {}
        for c in set(a) | set(b):
            x = a[c] if c in a else Ident.read(a, {c})
            y = b[c] if c in b else Ident.read(b, {c})
            out[c] = x if x == y else None
        return out

    # ---------------- summaries
    def summary(self, f):
        if f.name in self.memo:
            return self.memo[f.name]
        if f.name in self.active:
            return None
        self.active.add(f.name)
        s = self._run(f)
        self.active.discard(f.name)
        self.memo[f.name] = s
        return s

    def copier(self, g):
        """compiler-provided memberwise copy/move of a library class"""
        n = self.ctx.name(g)
        if n.base not in ('operator=', n.cls) or n.cls not in self.ctx.M.classes or len(n.params) != 1:
            return False
        p = n.params[0].replace('fisx::', '')
        if p not in (n.cls + ' const&', n.cls + '&&', n.cls + '&'):
            return False
        d = self.ctx.decl(g)
        return d is None or d.get('artificial') or d.get('defaulted')

    def _run(self, f):
        ctx = self.ctx
        R = ctx.R
        info = R.infos[f.name]
        cfg = ctx.F.cfg(f)
        instate = {f.order[0]: {}}
        val = {}

        def v(o, state=None):
            c = const_of(o) if isinstance(o, str) else None
            if isinstance(o, str) and o in val:
                return val[o]
            if isinstance(o, str) and o in info.pindex and info.pindex[o] != 'RET' and not info.pts.get(o):
                return (info.pindex[o], ())
            if isinstance(o, str) and not o.startswith('%'):
                return ('const', o)
            return None
        work = [f.order[0]]
        out = None
        retv = 'none'
        n = 0
        while work and n < 4000:
            n += 1
            b = min(work, key=lambda x: cfg.rpoi[x])
            work.remove(b)
            st = dict(instate[b])
            blk = f.blocks[b]
            for i in blk.insts:
                op = i.op
                if op == 'load':
                    if i.ty == 'ptr':
                        pass
                    nv = self.read(st, R.pts_of(info, i.ops[0]))
                    if i.ty == 'ptr' and nv is not None and nv[0] == 'addr':
                        pass
                    self._set(val, i.res, nv)
                elif op == 'store':
                    if i.ty == 'ptr':
                        rs = R.pts_of(info, i.ops[0])
                        self.write(st, R.pts_of(info, i.ops[1]), ('addr', next(iter(rs))) if len(rs) == 1 else None)
                    else:
                        self.write(st, R.pts_of(info, i.ops[1]), v(i.ops[0]))
                elif op == 'phi':
                    vs = [v(o) for o, p in i.incoming if p in cfg.reach]
                    self._set(val, i.res, vs[0] if vs and all(x == vs[0] for x in vs) else None)
                elif op == 'select':
                    a, c = v(i.ops[1]), v(i.ops[2])
                    self._set(val, i.res, a if a == c else None)
                elif op in COPY_OPS:
                    self._set(val, i.res, v(i.ops[0]))
                elif op == 'trunc':
                    self._set(val, i.res, v(i.ops[0]) if i.ty in ('i1', 'i32') else None)
                elif op in ('call', 'invoke'):
                    if op == 'invoke' and i.unwind in cfg.succ[b]:
                        ex = dict(st)
                        for e in ctx.events(f, i):
                            if e.rw == 'W':
                                self.write(ex, {e.region}, None)
                        self._push(instate, work, i.unwind, ex)
                    r = self._call(f, info, i, st, v)
                    if i.res:
                        self._set(val, i.res, r)
                elif op == 'ret':
                    x = None
                    if i.ops:
                        rs = R.pts_of(info, i.ops[0])
                        if rs:
                            x = ('addr', next(iter(rs))) if len(rs) == 1 else None
                        else:
                            x = v(i.ops[0])
                    retv = x if retv == 'none' or retv == x else None
                    keep = {c: w for c, w in st.items() if c[0][0] in 'PG' or c[0] == 'RET'}
                    out = self.join(out, keep)
                elif i.res:
                    self._set(val, i.res, None)
            term = blk.insts[-1]
            for s in cfg.succ[b]:
                if term.op == 'invoke' and s == term.unwind:
                    continue
                self._push(instate, work, s, st)
        if out is None:
            return {}
        for c, w in list(out.items()):
            if w is not None and w[0][0] == 'L':
                out[c] = None
        out[('ret',)] = None if retv == 'none' else retv
        return out

    def _set(self, val, k, v):
        if k is None:
            return
        if k in val and val[k] != v:
            v = None
        val[k] = v

    def _push(self, instate, work, s, st):
        if s not in instate:
            instate[s] = dict(st)
            work.append(s)
        else:
            j = self.join(instate[s], st)
            if j != instate[s]:
                instate[s] = j
                if s not in work:
                    work.append(s)

    def _call(self, f, info, i, st, v):
        ctx = self.ctx
        R = ctx.R
        cal = i.callee
        if cal.startswith(('llvm.dbg', 'llvm.lifetime')):
            return None
        ret, args = R.call_args(i)
        P = [R.pts_of(info, a) for a in args]
        if cal.startswith(('llvm.memcpy', 'llvm.memmove')):
            dst = R.span(info, i.args[0], i.args[2]); src = R.span(info, i.args[1], i.args[2])
            if len(dst) == 1 and len(src) == 1:
                self.write(st, dst, self.read(st, src))
            else:
                # block copy of consecutive members: pair them by name
                val = {}
                for d in dst:
                    m = [s for s in src if s[1][-1:] == d[1][-1:]]
                    val[d] = self.read(st, {m[0]}) if len(m) == 1 else None
                for d, x in val.items():
                    self.write(st, {d}, x)
            return None
        g = ctx.M.resolve(cal) if not cal.startswith('%') else None
        if g is not None:
            if self.copier(g) and len(P) == 2:
                self.write(st, P[0], self.read(st, P[1]))
                return ('addr', next(iter(P[0]))) if len(P[0]) == 1 else None
            s = self.summary(g)
            pre = dict(st)
            done = set()
            rv = None

            def tr(w):
                if w is None:
                    return None
                if w[0] in ('const', 'empty'):
                    return w
                if w[0] == 'addr':
                    m = R.map_region(info, w[1], args, ret, i)
                    return ('addr', next(iter(m))) if len(m) == 1 else None
                if w[0][0] == 'P':
                    k = int(w[0][1:])
                    if k >= len(args):
                        return None
                    if not P[k]:
                        return v(args[k]) if not w[1] else None
                    return self.read(pre, R.map_region(info, w, args, ret, i))
                return self.read(pre, {w})
            if s is not None:
                for c, w in s.items():
                    if c == ('ret',):
                        rv = tr(w)
                        continue
                    m = R.map_region(info, c, args, ret, i)
                    self.write(st, m, tr(w))
                    done |= m
            for e in R._call_events(info, i):
                if e.rw == 'W' and not any(under(d, e.region) or under(e.region, d) for d in done):
                    self.write(st, {e.region}, None)
            return rv
        n = ctx.M.name(cal) if not cal.startswith(('%', 'llvm.')) else None
        if n is not None:
            klass, kind = stl.classify(n)
            if klass == 'cont' and kind in ('ctor', 'assign') and len(P) >= 2 and n.cls != 'pair':
                base = n.params[0] if n.params else ''
                if n.base == n.cls or n.base == 'operator=' or (n.base == 'assign' and len(n.params) == 1):
                    if ('::' + n.cls) in base or base.startswith(n.cls) or 'string' in base:
                        self.write(st, P[0], self.read(st, P[1]))
                        return ('addr', next(iter(P[0]))) if len(P[0]) == 1 else None
            if klass == 'cont' and kind == 'ctor' and len(P) == 1:
                self.write(st, P[0], ('empty',)); return None
            if klass == 'cont' and kind == 'clear':
                self.write(st, P[0], ('empty',)); return None
            if n.base == 'swap' and len(P) == 2:
                a, b = self.read(st, P[0]), self.read(st, P[1])
                self.write(st, P[0], b); self.write(st, P[1], a)
                return None
        for e in R._call_events(info, i):
            if e.rw == 'W':
                self.write(st, {e.region}, None)
        return None
