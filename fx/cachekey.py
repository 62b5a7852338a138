"""Cache keys: everything a cached answer was computed from is part of the key, compared by the guard, pinned, or re-applied on a hit."""
from .vflow import VFlow, overlap
from .esp import const_of, Esp, Client
from . import iters, caches


def cond_true(ctx, f, v, truth=True, depth=0):
    """alternatives, each a list of (inst, truth) atomic conditions that hold when the i1/i8 value v equals truth; None = unknown"""
    cfg = ctx.F.cfg(f)
    c = const_of(v) if isinstance(v, str) else None
    if v in ('true', 'false') or c in (0, 1, True, False):
        val = v == 'true' or (v not in ('true', 'false') and bool(c))
        return [[]] if val == truth else []
    d = f.defs.get(v) if isinstance(v, str) else None
    if d is None or depth > 12:
        return [[]]
    if d.op in ('zext', 'trunc', 'sext', 'freeze'):
        return cond_true(ctx, f, d.ops[0], truth, depth + 1)
    if d.op == 'xor' and d.ops[1] in ('true', '-1', '1'):
        return cond_true(ctx, f, d.ops[0], not truth, depth + 1)
    if d.op == 'icmp' and d.pred in ('ne', 'eq') and d.ops[1] in ('0', 'false') and f.defs.get(d.ops[0]) is not None and \
            f.defs[d.ops[0]].op in ('phi', 'zext', 'xor'):
        return cond_true(ctx, f, d.ops[0], truth if d.pred == 'ne' else not truth, depth + 1)
    if d.op == 'phi':
        out = []
        for o, b in d.incoming:
            if b not in cfg.reach:
                continue
            facts = [(f.defs.get(x), t) for x, t, term in cfg.edge_facts(b)]
            term = f.blocks[b].insts[-1]
            if term.op == 'br' and len(term.labels) == 2 and term.labels[0] != term.labels[1]:
                facts.append((f.defs.get(term.ops[0]), term.labels[0] == d.block.name))
            for alt in cond_true(ctx, f, o, truth, depth + 1):
                out.append(facts + alt)
        return out
    return [[(d, truth)] + [(f.defs.get(x), t) for x, t, term in cfg.edge_facts(d.block.name)]]


def expand(ctx, f, facts, depth=0):
    """facts including those implied by phis/negations among them (conjunctions only)"""
    out = []
    for d, t in facts:
        if d is None:
            continue
        if d.op in ('phi', 'zext', 'xor', 'trunc') and depth < 6 and d.res:
            alts = cond_true(ctx, f, d.res, t)
            if len(alts) == 1:
                out += expand(ctx, f, alts[0], depth + 1)
                continue
        out.append((d, t))
    return out


def equality(d, t):
    """is (d == t) an equality test?"""
    if d.op == 'fcmp':
        return d.pred in ('oeq', 'ueq') and t or d.pred in ('one', 'une') and not t
    if d.op == 'icmp':
        return d.pred == 'eq' and t or d.pred == 'ne' and not t
    return False


class Keys:
    def __init__(self, ctx, res):
        self.ctx = ctx
        self.res = res
        self.V = VFlow(ctx, regions=ctx.RK)
        self.D = ctx.VD
        self.W = VFlow(ctx, regions=ctx.RK, control=False)
        self.P = iters.Presence(ctx)

    def params(self, mask, V=None):
        return {int(l[0][1:]) for l in (V or self.V).names(mask) if l[0] != 'rd' and l[0][0] == 'P' and l[0] != 'P0'}

    def pmembers(self, V, mask):
        return {l[1][0] for l in V.names(mask) if l[0] == 'P0' and l[1]}

    def argparams(self, f, a):
        """parameters of f (positions) the argument a is made of, data flow only"""
        val, cont, ctl = self.D.fn[f.name]
        info = self.ctx.R.infos[f.name]

        def read(rs):
            m = 0
            for r in rs:
                if r[0][0] in 'PG':
                    m |= 1 << self.D.lid(r)
                for q, x in cont.items():
                    if overlap(q, r):
                        m |= x
            return m
        m = val.get(a, 0)
        rs = self.ctx.R.pts_of(info, a)
        if rs:
            m |= read(rs)
        return {int(l[0][1:]) for l in self.D.names(m) if l[0] != 'rd' and l[0][0] == 'P' and l[0] != 'P0'}

    def condlabels(self, f, d):
        """(params, members) a condition depends on"""
        val, cont, ctl = self.D.fn[f.name]
        info = self.ctx.R.infos[f.name]
        m = val.get(d.res, 0) if d.res else 0
        if d.op in ('call', 'invoke'):
            for a in d.args:
                m |= val.get(a, 0)
                rs = self.ctx.R.pts_of(info, a)
                for r in rs:
                    if r[0][0] in 'PG':
                        m |= 1 << self.D.lid(r)
                    for q, x in cont.items():
                        if overlap(q, r):
                            m |= x
        labs = self.D.names(m)
        return ({int(l[0][1:]) for l in labs if l[0][0] == 'P' and l[0] != 'P0'}, {l[1][0] for l in labs if l[0] == 'P0' and l[1]})

    # ---- guard functions: which recorded member pins which parameter when the guard answers true
    def guard(self, g):
        ctx = self.ctx
        alts = []
        for i in g.insts():
            if i.op == 'ret' and i.ops:
                for alt in cond_true(ctx, g, i.ops[0], True):
                    facts = [(g.defs.get(x), t) for x, t, term in ctx.F.cfg(g).edge_facts(i.block.name)] + alt
                    alts.append(expand(ctx, g, facts))
        pins = None
        for facts in alts:
            here = set()
            sized = set()
            pend = set()
            for d, t in facts:
                n = iters.cname(ctx, d) if d.op in ('call', 'invoke') else None
                if equality(d, t):
                    ps, ms = self.condlabels(g, d)
                    ops = [g.defs.get(o) for o in d.ops]
                    if any(o is not None and o.op in ('call', 'invoke') and (iters.cname(ctx, o) or o).base == 'size' for o in ops if o is not None and iters.cname(ctx, o)):
                        sized |= {(p, m) for p in ps for m in ms}
                    elif len(ps) == 1 and len(ms) == 1:
                        here |= {(p, m) for p in ps for m in ms}
                elif n is not None and (n.base == 'operator==' and t or n.base == 'operator!=' and not t):
                    ps, ms = self.condlabels(g, d)
                    here |= {(p, m) for p in ps for m in ms}
                elif n is not None and n.base == 'equal' and t:
                    ps, ms = self.condlabels(g, d)
                    if len(d.args) >= 4:
                        here |= {(p, m) for p in ps for m in ms}
                    else:
                        pend |= {(p, m) for p in ps for m in ms}
            here |= pend & sized
            pins = here if pins is None else pins & here
        return pins or set()

    def run(self, cls, cache):
        ctx, res = self.ctx, self.res
        target = frozenset({('P0', (cache, '[]')), ('P0', (cache,))})
        fill = caches.fillers(ctx, cls, cache)
        users = {}
        for f in ctx.methods(cls):
            if f in fill or ctx.is_ctor(f):
                continue
            for s in iters.sites(ctx, f):
                if any(r[0] == 'P0' and r[1][:1] == (cache,) for r in s.cont):
                    users.setdefault(f.name, []).append(s)
        for fn in sorted(users):
            f = ctx.M.functions[fn]
            for s in users[fn]:
                self.user(cls, cache, f, s, fill)

    def user(self, cls, cache, f, s, fill):
        ctx, res = self.ctx, self.res
        cfg = ctx.F.cfg(f)
        loops = cfg.loops
        H = None
        if any(s.inst.block.name in body for body in loops.values()):
            H = s.inst.block.name
        else:
            for b in cfg.rpo:
                if any(k == s.key and iters.same_container(c, s.cont) for c, k in self.P.at_block(f, b)) and b != s.inst.block.name:
                    H = b; break
        if H is None:
            res.notes.append("cache lookup in %s not understood" % ctx.short(f)); return
        res.count('cache_users'); res.count('obligations')
        rev = {b: [] for b in cfg.reach}
        for b in cfg.reach:
            for x in cfg.succ[b]:
                rev[x].append(b)
        hit = cfg._reach([H]) | cfg._reach([H], rev)
        succ = {b: [x for x in cfg.succ[b] if x != H] for b in cfg.succ}
        # a loop that contains the lookup belongs to the hit path
        miss = cfg._reach([f.order[0]], succ)
        lo = {b for h, body in loops.items() if H in body for b in body}
        if lo:
            succ = {b: [x for x in cfg.succ[b] if x not in lo] for b in cfg.succ}
            miss = cfg._reach([f.order[0]], succ)
        hs, ms = self.V.restricted(f, hit), self.V.restricted(f, miss)
        info = ctx.R.infos[f.name]
        keypar = None
        if s.key[0] == 'par':
            keypar = f.params.index(s.key[1])
        keypos = int(info.pindex[s.key[1]][1:]) if s.key[0] == 'par' and info.pindex[s.key[1]] != 'RET' else None
        need = {}
        for V, a, b in ((self.V, ms, hs), (self.W, self.W.restricted(f, miss), self.W.restricted(f, hit))):
            for o, m in a.items():
                if o[0] not in ('RET', 'ret'):
                    continue
                hm = 0
                for q, x in b.items():
                    if q == o or (len(q) > 1 and len(o) > 1 and overlap(q, o)):
                        hm |= x
                for p in self.params(m, V) - self.params(hm, V):
                    need.setdefault(p, set()).add('.'.join(o[1]) if len(o) > 1 else 'result')
        carried = set()
        for o, m in hs.items():
            if o[0] in ('RET', 'ret'):
                carried |= self.params(m)
        pinned = {}
        guards = []
        for x, t, term in cfg.edge_facts(H):
            d = f.defs.get(x)
            for dd, tt in expand(ctx, f, [(d, t)]) if d is not None else []:
                if dd.op == 'icmp' and const_of(dd.ops[1]) is not None:
                    y = f.defs.get(dd.ops[0])
                    if y is not None and y.op in ('call', 'invoke') and y.callee and ctx.M.resolve(y.callee):
                        dd = y; tt = True
                if dd.op in ('call', 'invoke') and dd.callee and ctx.M.resolve(dd.callee):
                    g = ctx.M.resolve(dd.callee)
                    if ctx.name(g).cls == cls:
                        guards.append((dd, g))
                elif dd.op == 'icmp':
                    ps, mm = self.condlabels(f, dd)
                    for p in ps:
                        pinned[p] = 'const'
        for i, g in guards:
            ret, args = ctx.R.call_args(i)
            gi = ctx.R.infos[g.name]
            for j, m in self.guard(g):
                if j < len(args):
                    for p in self.argparams(f, args[j]):
                        pinned[p] = m
                res.count('recorded_parameters')
        for p in sorted(need):
            nm = f.pnames.get(next((q for q, ix in info.pindex.items() if ix == 'P%d' % p), ''), 'argument %d' % p)
            res.count('obligations')
            if p == keypos or p in pinned:
                continue
            res.add('cache-key', ctx.short(f), '%s ignores %s' % (cache, nm), s.inst.where(),
                    "%s: an answer taken from %s does not depend on %s, although the computed answer does (%s) and %s is neither part of the key nor compared before the cached answer is used" %
                    (ctx.sig(f)[:120], cache, nm, ', '.join(sorted(need[p])[:4]), nm))
        # ---- the functions that fill the cache
        for w in fill:
            calls = [i for i in w.insts() if i.op in ('call', 'invoke') and i.callee and ctx.M.resolve(i.callee) is f]
            if not calls:
                continue
            fills = []
            for e in ctx.R.infos[w.name].events:
                if e.rw == 'W' and e.region == ('P0', (cache,)) and e.kind in ('insert', 'mutate') and not e.via:
                    n = iters.cname(ctx, e.inst)
                    if n is not None and n.base == 'operator[]':
                        fills.append(e.inst)
            for i in calls:
                ret, args = ctx.R.call_args(i)
                res.count('fill_sites'); res.count('obligations')
                if keypos is not None and fills:
                    want = self.content(w, args[keypos])
                    got = [self.content(w, ctx.R.call_args(x)[1][1]) for x in fills if self.near(cfg, x, i)]
                    if got and want not in got and not any(self.vague(x) for x in got + [want]):
                        res.add('fill-key', ctx.short(w), cache, i.where(),
                                "%s stores in %s under one key the answer computed for another" % (ctx.sig(w)[:120], cache))
                for p in range(1, len(args)):
                    if p == keypos:
                        continue
                    a = args[p]
                    how = pinned.get(p)
                    if how == 'const' or (how is None and p in carried and keypos is not None):
                        k = self.const(w, a)
                        res.count('obligations')
                        if k is None and not self.argparams(w, a):
                            continue
                        if k is None or k not in (1, 1.0):
                            res.add('fill-neutral', ctx.short(w), '%s argument %d' % (cache, p), i.where(),
                                    "%s fills %s with answers for a value of argument %d other than the neutral 1" % (ctx.sig(w)[:120], cache, p))
                    elif how is not None:
                        res.count('obligations')
                        src = self.argparams(w, a)
                        rec = set()
                        for o, m in self.D.sum[w.name].items():
                            if o[0] == 'P0' and o[1][:1] == (how,):
                                rec |= {int(l[0][1:]) for l in self.D.names(m) if l[0][0] == 'P' and l[0] != 'P0'}
                        if len(src) == 1 and rec != src:
                            res.add('record', ctx.short(w), how, i.where(), "%s: %s does not record exactly the argument the cached answers were computed with" % (ctx.sig(w)[:120], how))
                            continue
                        wr = {e.inst.block.name for e in ctx.R.infos[w.name].events if e.rw == 'W' and e.region[0] == 'P0' and e.region[1][:1] == (how,)}
                        wcfg = ctx.F.cfg(w)
                        same = self.agreeing(w, [g for _, g in guards], how)
                        rc = Relabel(self, w, cache, how, [g for _, g in guards])
                        e = Esp(ctx, w, rc)
                        e.run(); e.report()
                        if rc.bad is not None:
                            res.add('relabelled', ctx.short(w), how, i.where(), "%s can record another %s while answers computed with the previous one stay in %s" % (ctx.sig(w)[:120], how, cache))
                        fb = [x.block.name for x in fills] or [i.block.name]
                        for b in fb:
                            if b in wr:
                                continue
                            sc = {x: [y for y in wcfg.succ[x] if y not in wr and (x, y) not in same] for x in wcfg.succ}
                            before = b in wcfg._reach([w.order[0]], sc) and w.order[0] not in wr
                            after = any(wcfg.exits.get(x) == 'ret' for x in wcfg._reach([b], sc))
                            if before and after:
                                res.add('record', ctx.short(w), how, i.where(), "%s can store an answer in %s without recording %s" % (ctx.sig(w)[:120], cache, how))

    def agreeing(self, w, gs, how):
        """edges of w taken only when what is recorded agrees with the arguments of this call"""
        ctx = self.ctx
        out = set()
        gs = [g for g in gs if any(m == how for _, m in self.guard(g))]
        for b in w.blocks.values():
            t = b.insts[-1] if b.insts else None
            if t is None or t.op != 'br' or len(t.labels) != 2 or not t.ops:
                continue
            d = w.defs.get(t.ops[0])
            for k, s in enumerate(t.labels):
                if d is None or s == t.labels[1 - k]:
                    continue
                for dd, tt in expand(ctx, w, [(d, k == 0)]):
                    if dd.op == 'icmp' and const_of(dd.ops[1]) is not None:
                        y = w.defs.get(dd.ops[0])
                        while y is not None and y.op in ('zext', 'sext', 'trunc', 'freeze'):
                            y = w.defs.get(y.ops[0])
                        if y is not None and y.op in ('call', 'invoke'):
                            c = const_of(dd.ops[1])
                            tt = (dd.pred == 'ne') == tt if c == 0 else (dd.pred == 'eq') == tt
                            dd = y
                    if dd.op in ('call', 'invoke') and tt and dd.callee:
                        g = ctx.M.resolve(dd.callee)
                        if g in gs:
                            ret, args = ctx.R.call_args(dd)
                            if all(len(self.argparams(w, args[j])) == 1 for j, m in self.guard(g) if m == how and j < len(args)):
                                out.add((b.name, s))
        return out

    def near(self, cfg, x, i):
        return True

    @staticmethod
    def vague(e):
        if isinstance(e, tuple):
            return e[:1] in (('?',), ('deep',)) or any(Keys.vague(x) for x in e)
        return False

    def content(self, w, a):
        """expression of the value behind an address argument"""
        a0 = iters.base_alloca(w, a)
        d = w.defs.get(a0)
        if d is not None and d.op == 'alloca':
            st = [u for u in w.uses.get(a0, []) if u.op == 'store' and u.ops[1] == a0]
            if len(st) == 1:
                return iters.keyexpr(self.ctx, w, st[0].ops[0])
            return ('loc', a0)
        return ('ld', iters.keyexpr(self.ctx, w, a))

    def const(self, w, a):
        e = self.content(w, a)
        if e[0] == 'k':
            c = e[1]
            return float(c) if not isinstance(c, tuple) else c
        c = const_of(a)
        return c


class Relabel(Client):
    """'V' answers for other arguments may be held, 'K' none is, 'R' recorded other arguments while such answers are held"""

    def __init__(self, keys, w, cache, how, gs):
        self.k = keys; self.w = w; self.ctx = keys.ctx; self.gs = gs; self.cache = cache
        self.bad = None
        self.clear = set(); self.write = set()
        for e in self.ctx.R.infos[w.name].events:
            if e.rw != 'W' or e.region[0] != 'P0':
                continue
            if e.region[1] == (cache,) and (e.kind in ('clear', 'assign', 'destroy') or (e.inst.callee and self.ctx.M.name(e.inst.callee).base == 'swap')):
                self.clear.add(e.inst)
            elif e.region[1][:1] == (how,):
                self.write.add(e.inst)
        self.how = how

    def init(self, fn):
        return 'V'

    def transfer(self, i, auto):
        if i in self.clear:
            return ('K',)
        if i in self.write and auto == 'V':
            return ('R',)
        return (auto,)

    def transfer_exc(self, i, auto):
        return (auto,)

    def refine(self, i, truth, auto):
        if auto != 'V':
            return auto
        if i.op == 'icmp' and i.pred in ('eq', 'ne') and const_of(i.ops[1]) is not None and (i.pred == 'eq') == truth and const_of(i.ops[1]):
            d = self.w.defs.get(i.ops[0])
            while d is not None and d.op in ('zext', 'trunc', 'freeze'):
                d = self.w.defs.get(d.ops[0])
            if d is not None and d.op in ('call', 'invoke'):
                return self.refine(d, True, auto)
        if i.op == 'icmp' and i.pred in ('eq', 'ne') and const_of(i.ops[1]) == 0:
            d = self.w.defs.get(i.ops[0])
            if d is not None and d.op in ('call', 'invoke') and (i.pred == 'eq') == truth and self.emptiness(d, 'size'):
                return 'K'
        if i.op in ('call', 'invoke') and i.callee:
            if truth and self.emptiness(i, 'empty') or not truth and self.emptiness(i, 'size'):
                return 'K'
            g = self.ctx.M.resolve(i.callee)
            if truth and g in self.gs:
                ret, args = self.ctx.R.call_args(i)
                ms = [j for j, m in self.k.guard(g) if m == self.how and j < len(args)]
                if ms and all(len(self.k.argparams(self.w, args[j])) == 1 for j in ms):
                    return 'K'
        elif i.op == 'icmp' and i.pred in ('ugt', 'ult'):
            x, c = (i.ops[0], i.ops[1]) if i.pred == 'ugt' else (i.ops[1], i.ops[0])
            d = self.w.defs.get(x)
            if const_of(c) == 0 and d is not None and not truth and self.emptiness(d, 'size'):
                return 'K'
        return auto

    def emptiness(self, d, what):
        n = iters.cname(self.ctx, d)
        if n is None or n.base != what or not d.args:
            return False
        rs = self.ctx.R.pts_of(self.ctx.R.infos[self.w.name], d.args[-1])
        return ('P0', (self.cache,)) in rs and len(rs) == 1

    def exit(self, kind, inst, auto):
        if auto == 'R' and self.bad is None:
            self.bad = inst
