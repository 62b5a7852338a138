"""Write effects split by exit: which caller-visible regions may already be written when a function throws."""
from .regions import Ev
from .iters import cname


class ExcEffects:
    """flow-sensitive may-write collection; exc[f] = {(region, kind): (write Ev, throw inst)}"""

    def __init__(self, ctx, skip=None):
        self.ctx = ctx
        self.skip = skip or (lambda region: False)
        self.exc = {f: {} for f in ctx.M.functions}
        ch = True
        rounds = 0
        fns = [f for f in ctx.M.functions.values() if ctx.F.throws[f.name]]
        pend = {f.name for f in fns}
        while pend and rounds < 20:
            rounds += 1
            todo = [f for f in fns if f.name in pend]
            pend = set()
            for f in todo:
                r = self._fn(f)
                if set(r) != set(self.exc[f.name]):
                    self.exc[f.name] = r
                    pend |= {c for c in ctx.R.callers.get(f.name, ())}

    def inst_writes(self, f, i):
        """{(region, kind): Ev} written by a normally completing instruction"""
        out = {}
        for e in self.ctx.events(f, i):
            if e.rw == 'W' and e.region[0][0] in 'PG' and not self.skip(e.region):
                out.setdefault((e.region, e.kind), e)
        return out

    def exc_writes(self, f, i):
        """writes already done when the call i leaves by an exception"""
        g = self.ctx.M.resolve(i.callee) if i.callee and not i.callee.startswith('%') else None
        if g is None:
            return {}
        info = self.ctx.R.infos[f.name]
        ret, args = self.ctx.R.call_args(i)
        out = {}
        for (r, kind), (ev, th) in self.exc[g.name].items():
            for x in self.ctx.R.map_region(info, r, args, ret, i):
                if x[0][0] in 'PG' and not self.skip(x):
                    out.setdefault((x, kind), Ev(i, x, kind, 'W', via=(g.name, ev)))
        return out

    def _fn(self, f):
        ctx = self.ctx
        cfg = ctx.F.cfg(f)
        IN = {b: {} for b in cfg.rpo}
        result = {}
        work = list(cfg.rpo)
        inq = set(work)
        while work:
            b = work.pop(0); inq.discard(b)
            cur = dict(IN[b])
            blk = f.blocks[b]
            for i in blk.insts:
                if i.op == 'call':
                    if ctx.F.call_throws(i):
                        ex = dict(cur)
                        if not ctx.F.noreturn(i):
                            ex.update({k: v for k, v in self.exc_writes(f, i).items() if k not in ex})
                        for k, e in ex.items():
                            result.setdefault(k, (e, i))
                    for k, e in self.inst_writes(f, i).items():
                        cur.setdefault(k, e)
                elif i.op == 'invoke':
                    ex = dict(cur)
                    for k, e in self.exc_writes(f, i).items():
                        ex.setdefault(k, e)
                    nm = dict(cur)
                    for k, e in self.inst_writes(f, i).items():
                        nm.setdefault(k, e)
                    for s in cfg.succ[b]:
                        src = ex if s == i.unwind else nm
                        self._merge(IN, s, src, work, inq)
                    cur = None
                    break
                elif i.op == 'store':
                    for k, e in self.inst_writes(f, i).items():
                        cur.setdefault(k, e)
                elif i.op == 'resume':
                    for k, e in cur.items():
                        result.setdefault(k, (e, i))
            if cur is not None:
                for s in cfg.succ[b]:
                    self._merge(IN, s, cur, work, inq)
        return result

    @staticmethod
    def _merge(IN, s, src, work, inq):
        d = IN[s]
        ch = False
        for k, e in src.items():
            if k not in d:
                d[k] = e; ch = True
        if ch and s not in inq:
            inq.add(s); work.append(s)
