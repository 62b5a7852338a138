"""Every constructor leaves every scalar member initialised."""
from ..core import Result, AnalysisError

SCALARS = {'int', 'double', 'float', 'bool', 'long', 'unsigned int', 'unsigned long', 'char', 'short', 'unsigned char', 'long long', 'long int',
           'unsigned long long'}


def is_scalar(t):
    t = t.replace('const ', '').strip()
    return t in SCALARS or t.endswith('*') or t == '?'


class MustWrite:
    """members of *this written on every path to a normal return"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}
        self.active = set()

    def of(self, f):
        if f.name in self.memo:
            return self.memo[f.name]
        if f.name in self.active:
            return frozenset()
        self.active.add(f.name)
        ctx = self.ctx
        cfg = ctx.F.cfg(f)
        info = ctx.R.infos[f.name]
        gen = {}
        for b in cfg.rpo:
            s = set()
            for i in f.blocks[b].insts:
                s |= self.gen(f, info, i)
            gen[b] = s
        TOP = None
        out = {b: TOP for b in cfg.rpo}
        ch = True
        while ch:
            ch = False
            for b in cfg.rpo:
                ins = None
                if b == cfg.rpo[0]:
                    ins = set()
                else:
                    for p in cfg.pred[b]:
                        o = out.get(p)
                        if o is TOP:
                            continue
                        ins = set(o) if ins is None else ins & o
                if ins is None:
                    continue
                o = ins | gen[b]
                if out[b] is TOP or o != out[b]:
                    out[b] = o; ch = True
        r = None
        for b in cfg.rpo:
            if cfg.exits.get(b) == 'ret' and out[b] is not TOP:
                r = set(out[b]) if r is None else r & out[b]
        self.active.discard(f.name)
        self.memo[f.name] = frozenset(r or ())
        return self.memo[f.name]

    def gen(self, f, info, i):
        ctx = self.ctx
        s = set()
        if i.op == 'store':
            rs = ctx.R.pts_of(info, i.ops[1])
            if len(rs) == 1:
                r = next(iter(rs))
                if r[0] == 'P0' and len(r[1]) == 1:
                    s.add(r[1][0])
        elif i.op in ('call', 'invoke') and i.callee and not i.callee.startswith('%'):
            if i.callee.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')):
                for r in ctx.R.span(info, i.args[0], i.args[2]):
                    if r[0] == 'P0' and len(r[1]) == 1:
                        s.add(r[1][0])
                    if r == ('P0', ()):
                        s.add('*')
            g = ctx.M.resolve(i.callee)
            if g is not None:
                ret, args = ctx.R.call_args(i)
                if args:
                    rs = ctx.R.pts_of(info, args[0])
                    if rs == {('P0', ())}:
                        s |= self.of(g)
                # a by-reference helper that stores through its pointer parameter
                for k, a in enumerate(args[1:], 1):
                    rs = ctx.R.pts_of(info, a)
                    if len(rs) == 1 and next(iter(rs))[0] == 'P0' and len(next(iter(rs))[1]) == 1:
                        if any(rr == ('P%d' % k, ()) and kd == 'store' for (rr, kd) in ctx.R.sum[g.name].writes):
                            s.add(next(iter(rs))[1][0])
        return s


def base_fields(ctx, cls):
    """scalar members of the class itself (base-class members belong to the base constructor)"""
    return [(n, t, l) for n, t, l, a in ctx.M.classes[cls].fields if a != 'base' and is_scalar(t)]


def run(ctx):
    res = Result()
    res.rule = ("must-write dataflow: for each constructor (copy constructors included) the set of scalar members written on every path to a "
                "normal return, including writes made by member functions and base constructors called on *this; every scalar member must be "
                "in the set; obligations = (constructor, scalar member) pairs")
    mw = MustWrite(ctx)
    for cls in sorted(ctx.M.classes):
        sc = base_fields(ctx, cls)
        if not sc:
            continue
        for f in ctx.methods(cls):
            if not ctx.is_ctor(f):
                continue
            res.count('constructors')
            w = mw.of(f)
            for n, t, l in sc:
                res.count('obligations')
                if n not in w and '*' not in w:
                    res.add('uninitialised', ctx.short(f), n, "%s:%s" % (f.file.replace('/repo/', '') if f.file else cls, f.line),
                            "constructor %s can return without initialising %s::%s (%s): a later read yields an arbitrary value" % (ctx.sig(f)[:120], cls, n, t))
            res.sample("%s initialises %s" % (ctx.short(f), sorted(x for x in w if not x.startswith('<'))))
    res.need('constructors', 15)
    return res
