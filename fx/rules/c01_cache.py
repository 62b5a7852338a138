"""Cached results are dropped whenever the data they were computed from changes."""
from ..core import Result
from ..esp import Esp, Client
from ..excfx import ExcEffects
from ..regions import rstr
from .. import caches
from ..cachekey import Keys

SKIP_FN = {'operator='}


class CacheClient(Client):
    """auto: 'V' maybe filled and valid, 'E' empty, ('S', dep, where, how) stale"""

    def __init__(self, ctx, ana, fn, cache, deps, s0):
        self.ctx = ctx; self.ana = ana; self.fn = fn; self.cache = cache; self.deps = deps; self.s0 = s0
        self.outs = set()

    def init(self, fn):
        return self.s0

    def local_events(self, i, exc):
        """ordered list of 'clear'/'fill'/('dep', member, how)"""
        ctx = self.ctx
        out = []
        if exc:
            evs = list(self.ana.exc.exc_writes(self.fn, i).values())
        else:
            evs = [e for e in ctx.events(self.fn, i) if e.rw == 'W']
        for e in evs:
            root, path = e.region
            if root != 'P0' or not path:
                continue
            if path[0] == self.cache:
                if e.kind in ('clear', 'assign', 'destroy', 'construct') and len(path) == 1:
                    out.append('clear')
                elif e.kind in ('insert', 'mutate', 'store'):
                    b = ctx.M.name(i.callee).base if i.callee and not i.callee.startswith('%') else ''
                    if b == 'swap':
                        out.append('clear')
                    elif b != 'erase':
                        out.append('fill')
            elif path[0] in self.deps and not any(x in caches.ALLCACHE for x in path):
                out.append(('dep', path[0], e))
        return out

    def step(self, st, ev, i):
        if ev == 'clear':
            return 'E'
        if ev == 'fill':
            return 'V' if st == 'E' else st
        if st == 'V':
            return ('S', ev[1], i.where())
        return st

    def calls_this(self, i):
        if i.op not in ('call', 'invoke') or not i.callee or i.callee.startswith('%'):
            return None
        g = self.ctx.M.resolve(i.callee)
        if g is None:
            return None
        ret, args = self.ctx.R.call_args(i)
        if not args or self.ctx.R.pts_of(self.ctx.R.infos[self.fn.name], args[0]) != {('P0', ())}:
            return None
        if not self.ctx.is_method(g):
            # free/static helper working on *this: effects through the summary
            return None
        return g

    def apply(self, i, auto, exc):
        g = self.calls_this(i)
        if g is not None:
            if self.ctx.name(g).base in SKIP_FN:
                return (auto,)
            key = auto if isinstance(auto, str) else 'S'
            outs = self.ana.transformer(g, self.cache, self.deps, key)
            res = []
            for kind, o in outs:
                if (kind == 'throw') != exc:
                    continue
                if isinstance(o, tuple) and not isinstance(auto, str):
                    o = auto
                elif o == 'S':
                    o = auto
                res.append(o)
            return tuple(res)
        st = auto
        for ev in self.local_events(i, exc):
            st = self.step(st, ev, i)
        return (st,)

    def transfer(self, i, auto):
        if i.op not in ('store', 'call', 'invoke'):
            return (auto,)
        return self.apply(i, auto, False)

    def transfer_exc(self, i, auto):
        return self.apply(i, auto, True)

    def exit(self, kind, inst, auto):
        self.outs.add((kind, auto))


class Analysis:
    def __init__(self, ctx):
        self.ctx = ctx
        self.exc = ExcEffects(ctx, skip=lambda r: r[0] != 'P0' and r[0][0] != 'P')
        self.memo = {}
        self.active = set()

    def transformer(self, f, cache, deps, s):
        k = (f.name, cache, s)
        if k in self.memo:
            return self.memo[k]
        # fast path: nothing relevant written
        rel = False
        for (r, kind) in self.ctx.R.sum[f.name].writes:
            if r[0] == 'P0' and (not r[1] or r[1][0] == cache or r[1][0] in deps):
                rel = True
        if not rel or k in self.active:
            init = ('S', '', '') if s == 'S' else s
            return {('ret', init), ('throw', init)}
        self.active.add(k)
        init = ('S', '', '') if s == 'S' else s
        cl = CacheClient(self.ctx, self, f, cache, deps, init)
        e = Esp(self.ctx, f, cl)
        e.run(); e.report()
        self.active.discard(k)
        self.memo[k] = cl.outs
        return cl.outs


def run(ctx):
    res = Result()
    res.rule = ("typestate (valid / empty / stale) of every cache member over each public entry point, with per-callee state transformers: a write to "
                "a member the cached values are computed from (dependency set derived from the read effects of the functions that fill the cache) "
                "while the cache may be filled makes it stale, only clearing it makes it clean; no entry point may return or throw stale; "
                "obligations = (entry point, cache) pairs")
    res.notes = ["diagnostic-only members %s are not dependencies" % caches.DIAGNOSTIC,
                 "memberwise copy (implicit operator=, copy constructors) copies data and caches together and is exempt"]
    ana = Analysis(ctx)
    keys = Keys(ctx, res)
    for cls in sorted(caches.CACHES):
        for cache in caches.CACHES[cls]:
            deps, fs = caches.dependencies(ctx, cls, cache)
            for m in caches.CONTROL[cls]:
                ctx.classfield(cls, m)
            if cls != 'Detector':       # the caller's label identifies the element library there
                keys.run(cls, cache)
            res.count('caches'); res.count('dependencies', len(deps))
            res.sample("%s::%s filled by %s depends on %s" % (cls, cache, sorted({ctx.short(f) for f in fs}), sorted(deps)))
            for f in caches.entry_points(ctx, cls):
                n = ctx.name(f)
                if ctx.is_ctor(f) and any(p.startswith('fisx::%s const&' % cls) or p.startswith('fisx::%s&&' % cls) for p in n.params):
                    continue
                res.count('obligations')
                s0 = 'E' if ctx.is_ctor(f) else 'V'
                for kind, st in sorted(ana.transformer(f, cache, deps, s0), key=str):
                    if isinstance(st, tuple):
                        res.add('stale-cache', ctx.short(f), "%s<-%s%s" % (cache, st[1], '' if kind == 'ret' else ' on throw'), st[2] or "%s" % f.line,
                                "%s changes %s::%s (at %s) and can %s without clearing %s, which holds results computed from it" %
                                (ctx.sig(f)[:140], cls, st[1], st[2], 'return' if kind == 'ret' else 'throw', cache))
    res.need('caches', 5); res.need('dependencies', 10); res.need('obligations', 60)
    return res
