"""Property-simulation dataflow (ESP style): typestate automaton x known branch facts, merged per automaton state.

A state is (auto, facts): `auto` is the client's hashable typestate; `facts` maps SSA names to known constants
('c', value) or aliases ('a', ssa).  Branches whose condition is decided by the facts are not followed, which keeps
flag-correlated paths apart; when a block collects more than CAP states those with equal `auto` are merged by
intersecting their facts.
"""
from .ir import AnalysisError

CAP = 24


def const_of(v):
    if not isinstance(v, str):
        return None
    if v == 'true':
        return True
    if v == 'false':
        return False
    if v == 'null':
        return 0
    if v and (v[0].isdigit() or v[0] == '-'):
        try:
            return int(v)
        except ValueError:
            try:
                return float(v)
            except ValueError:
                return None
    return None


_CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'slt': lambda a, b: a < b, 'sgt': lambda a, b: a > b,
        'sle': lambda a, b: a <= b, 'sge': lambda a, b: a >= b, 'ult': lambda a, b: a < b, 'ugt': lambda a, b: a > b,
        'ule': lambda a, b: a <= b, 'uge': lambda a, b: a >= b,
        'oeq': lambda a, b: a == b, 'une': lambda a, b: a != b, 'one': lambda a, b: a != b, 'olt': lambda a, b: a < b, 'ogt': lambda a, b: a > b,
        'ole': lambda a, b: a <= b, 'oge': lambda a, b: a >= b}


class Client:
    """override"""
    def init(self, fn):
        return ()

    def transfer(self, inst, auto):
        """-> iterable of autos after a normal completion"""
        return (auto,)

    def transfer_exc(self, inst, auto):
        """-> iterable of autos on the unwind edge / exceptional exit of a call"""
        return (auto,)

    def refine(self, inst, truth, auto):
        """branch on comparison/call result `inst` (an Inst); -> auto or None when infeasible"""
        return auto

    def visit(self, inst, auto):
        """called (at the end, on the fixpoint) for every state reaching inst"""

    def throws(self, inst):
        return True

    # optional path summary at exits
    def exit(self, kind, inst, auto):
        pass


class Esp:
    def __init__(self, ctx, fn, client, start_block=None):
        self.ctx = ctx; self.fn = fn; self.cl = client
        self.cfg = ctx.F.cfg(fn)
        self.inn = {}
        self.steps = 0

    def eval(self, v, facts, depth=0):
        """constant or None"""
        c = const_of(v)
        if c is not None:
            return c
        if depth > 8:
            return None
        fv = facts.get(v)
        if fv is not None:
            if fv[0] == 'c':
                return fv[1]
            return self.eval(fv[1], facts, depth + 1)
        d = self.fn.defs.get(v)
        if d is None:
            return None
        if d.op in ('zext', 'trunc', 'sext', 'freeze'):
            x = self.eval(d.ops[0], facts, depth + 1)
            if x is None:
                return None
            if d.ty == 'i1':
                return bool(int(x) & 1)
            return int(x) if d.op != 'sext' or not isinstance(x, bool) else -int(x)
        if d.op in ('icmp', 'fcmp'):
            a = self.eval(d.ops[0], facts, depth + 1); b = self.eval(d.ops[1], facts, depth + 1)
            if a is not None and b is not None and d.pred in _CMP:
                return _CMP[d.pred](a, b)
            return None
        if d.op == 'xor' and d.ty == 'i1':
            a = self.eval(d.ops[0], facts, depth + 1); b = self.eval(d.ops[1], facts, depth + 1)
            if a is not None and b is not None:
                return bool(a) != bool(b)
        if d.op in ('and', 'or'):
            a = self.eval(d.ops[0], facts, depth + 1); b = self.eval(d.ops[1], facts, depth + 1)
            if d.op == 'and' and (a is False or b is False):
                return False
            if d.op == 'or' and (a is True or b is True):
                return True
            if a is not None and b is not None:
                return (a & b) if d.op == 'and' else (a | b)
        return None

    def assume(self, v, truth, auto, facts, depth=0):
        """-> (auto, facts) or None"""
        c = self.eval(v, facts)
        if c is not None:
            return (auto, facts) if bool(c) == truth else None
        if depth > 10:
            return (auto, facts)
        fv = facts.get(v)
        if fv is not None and fv[0] == 'a':
            r = self.assume(fv[1], truth, auto, facts, depth + 1)
            if r is None:
                return None
            f2 = dict(r[1]); f2[v] = ('c', truth)
            return r[0], f2
        d = self.fn.defs.get(v)
        if d is None:
            f2 = dict(facts); f2[v] = ('c', truth)
            return auto, f2
        if d.op in ('trunc', 'freeze', 'zext', 'sext') and (d.ty == 'i1' or d.extra == 'i1' or d.op == 'freeze'):
            r = self.assume(d.ops[0], truth, auto, facts, depth + 1)
            if r is None:
                return None
            f2 = dict(r[1]); f2[v] = ('c', truth)
            return r[0], f2
        if d.op == 'xor' and d.ops[1] == 'true':
            return self.assume(d.ops[0], not truth, auto, facts, depth + 1)
        if d.op == 'and' and truth or d.op == 'or' and not truth:
            r = (auto, facts)
            for o in d.ops:
                r = self.assume(o, truth, r[0], r[1], depth + 1)
                if r is None:
                    return None
            return r
        if d.op == 'icmp' and d.pred in ('eq', 'ne'):
            k = const_of(d.ops[1])
            if k is not None:
                eq = (d.pred == 'eq') == truth
                x = d.ops[0]
                xd = self.fn.defs.get(x)
                fx = facts.get(x)
                if k in (0, False) or (k in (1, True) and d.extra == 'i1'):
                    base = fx[1] if fx and fx[0] == 'a' else x
                    bd = self.fn.defs.get(base)
                    if bd is not None and (bd.op in ('zext', 'sext') and bd.extra == 'i1' or bd.op == 'icmp' or bd.op == 'fcmp' or bd.op == 'phi'
                                           or bd.op in ('call', 'invoke')):
                        want = (not eq) if not k else eq
                        if bd.op in ('call', 'invoke'):
                            a2 = self.cl.refine(bd, want, auto)
                            if a2 is None:
                                return None
                            auto = a2
                        elif bd.op != 'phi':
                            r = self.assume(base, want, auto, facts, depth + 1)
                            if r is None:
                                return None
                            auto, facts = r
                f2 = dict(facts)
                if eq:
                    f2[x] = ('c', k)
                f2[v] = ('c', truth)
                a2 = self.cl.refine(d, truth, auto)
                if a2 is None:
                    return None
                return a2, f2
        a2 = self.cl.refine(d, truth, auto)
        if a2 is None:
            return None
        f2 = dict(facts); f2[v] = ('c', truth)
        return a2, f2

    def _defs_in(self, b):
        if not hasattr(self, '_di'):
            self._di = {}
        s = self._di.get(b)
        if s is None:
            s = self._di[b] = {i.res for i in self.fn.blocks[b].insts if i.res}
        return s

    def enter(self, pred, b, auto, facts):
        """facts after taking edge pred->b (phis evaluated)"""
        blk = self.fn.blocks[b]
        new = {}
        for i in blk.insts:
            if i.op != 'phi':
                break
            for v, p in i.incoming:
                if p == pred:
                    c = self.eval(v, facts)
                    if c is not None:
                        new[i.res] = ('c', c)
                    elif v.startswith('%') and i.ty in ('i1', 'i8', 'i32') and v not in self._defs_in(b):
                        fv = facts.get(v)
                        new[i.res] = fv if fv and fv[0] == 'a' else ('a', v)
                    break
        dead = self._defs_in(b)
        f2 = {k: x for k, x in facts.items() if k not in dead and not (x[0] == 'a' and x[1] in dead)}
        f2.update(new)
        return auto, f2

    def _useful(self, b, facts):
        # keep only facts whose SSA value may matter later: used as branch condition input or phi operand somewhere reachable
        return facts

    def _relevant(self):
        """SSA values that can influence some branch condition"""
        fn = self.fn
        rel = set(); st = []
        for b in fn.order:
            t = fn.blocks[b].insts[-1]
            if t.op in ('br', 'switch') and t.ops:
                st.append(t.ops[0])
        while st:
            v = st.pop()
            if v in rel or not v.startswith('%'):
                continue
            rel.add(v)
            d = fn.defs.get(v)
            if d is not None and d.op in ('phi', 'zext', 'trunc', 'sext', 'icmp', 'fcmp', 'xor', 'and', 'or', 'freeze'):
                st.extend(o for o in d.ops if isinstance(o, str))
        # number of conditions each matters for: facts about conds used once only (in their own block's branch) are useless
        uses = {}
        for b in fn.order:
            t = fn.blocks[b].insts[-1]
            if t.op in ('br', 'switch') and t.ops:
                uses[t.ops[0]] = uses.get(t.ops[0], 0) + 1
        self.rel = set()
        for v in rel:
            d = fn.defs.get(v)
            us = [u for u in fn.uses.get(v, [])]
            if d is not None and d.op == 'phi':
                self.rel.add(v)
            elif len([u for u in us if u.op in ('br', 'phi', 'zext', 'icmp', 'fcmp', 'xor', 'and', 'or', 'trunc', 'switch')]) > 1 or \
                    any(u.op == 'phi' or u.op == 'zext' for u in us):
                self.rel.add(v)

    def run(self, site=None, auto=None, facts=None):
        """from the entry, or from the point just after instruction `site` with the given automaton state"""
        fn = self.fn; cfg = self.cfg
        self._relevant()
        entry = fn.order[0]
        self.inn = {b: {} for b in fn.order}     # block -> {(auto, factskey): facts}
        inq = set()
        import heapq
        heap = []
        done = {}
        self.start = None
        if site is None:
            self._push(entry, self.cl.init(fn), {})
            inq.add(entry); heap.append((0, entry))
        else:
            self.start = (site, auto, facts or {})
            for s, a2, f2 in self.block_out(site.block.name, auto, facts or {}, site):
                if self._push(s, a2, f2) and s not in inq:
                    inq.add(s); heapq.heappush(heap, (cfg.rpoi.get(s, 1 << 30), s))
        while heap:
            _, b = heapq.heappop(heap)
            inq.discard(b)
            for key, (auto, facts) in list(self.inn[b].items()):
                if done.get((b, key)):
                    continue
                done[(b, key)] = True
                self.steps += 1
                if self.steps > 60000:
                    raise AnalysisError("path exploration budget exceeded in %s" % fn.name)
                for s, a2, f2 in self.block_out(b, auto, facts):
                    if self._push(s, a2, f2) and s not in inq:
                        inq.add(s)
                        heapq.heappush(heap, (cfg.rpoi.get(s, 1 << 30), s))
        return self

    def _push(self, b, auto, facts):
        facts = {k: v for k, v in facts.items() if k in self.rel}
        d = self.inn[b]
        # subsumption: an existing state with the same auto and a subset of the facts
        for (a, _), (aa, ff) in d.items():
            if a == auto and all(facts.get(k) == x for k, x in ff.items()):
                return False
        same = [(k, ff) for k, (aa, ff) in d.items() if aa == auto]
        if len(same) >= CAP:
            common = dict(facts)
            for _, ff in same:
                common = {k: x for k, x in common.items() if ff.get(k) == x}
            facts = common
            for k, _ in same:
                del d[k]
        if len(d) > 600:
            raise AnalysisError("typestate explosion in %s" % self.fn.name)
        key = (auto, tuple(sorted(facts.items(), key=lambda kv: kv[0])))
        if key in d:
            return False
        d[key] = (auto, facts)
        return True

    def states_through(self, b, auto, visit=None, exits=None, after=None):
        """run the block's instructions; returns list of autos before terminator, collecting exceptional exits"""
        autos = {auto}
        insts = self.fn.blocks[b].insts
        for i in insts[:-1]:
            if i.op == 'phi':
                continue
            if after is not None and i.idx <= after.idx:
                continue
            nxt = set()
            for a in autos:
                if visit:
                    visit(i, a)
                if i.op == 'call' and exits is not None and self.ctx.F.call_throws(i):
                    for x in self.cl.transfer_exc(i, a):
                        exits('throw', i, x)
                if i.op == 'call' and self.ctx.F.noreturn(i):
                    continue
                nxt.update(self.cl.transfer(i, a))
            autos = nxt
            if not autos:
                break
        return autos

    def block_out(self, b, auto, facts, after=None):
        out = []
        term = self.fn.blocks[b].insts[-1]
        for a in ([auto] if after is term else self.states_through(b, auto, after=after)):
            if after is term and term.op == 'invoke':
                out.append((term.normal,) + self.enter(b, term.normal, a, facts))
            elif term.op == 'invoke':
                if term.normal in self.cfg.succ[b]:
                    for x in self.cl.transfer(term, a):
                        out.append((term.normal,) + self.enter(b, term.normal, x, facts))
                if term.unwind in self.cfg.succ[b]:
                    for x in self.cl.transfer_exc(term, a):
                        out.append((term.unwind,) + self.enter(b, term.unwind, x, facts))
            elif term.op == 'br' and len(term.labels) == 2:
                for lab, truth in ((term.labels[0], True), (term.labels[1], False)):
                    r = self.assume(term.ops[0], truth, a, facts)
                    if r is not None:
                        out.append((lab,) + self.enter(b, lab, r[0], r[1]))
            elif term.op == 'switch':
                c = self.eval(term.ops[0], facts)
                for lab in dict.fromkeys(term.labels):
                    if c is not None:
                        tgt = dict(term.cases).get(c, term.labels[0])
                        if tgt != lab:
                            continue
                    out.append((lab,) + self.enter(b, lab, a, facts))
            else:
                for lab in self.cfg.succ[b]:
                    out.append((lab,) + self.enter(b, lab, a, facts))
        return out

    def report(self):
        """after run(): call client.visit / client.exit on every reached state"""
        if self.start is not None and self.start[0].idx < len(self.start[0].block.insts) - 1:
            site, auto, _ = self.start
            b = site.block.name
            term = site.block.insts[-1]
            for a in self.states_through(b, auto, visit=self.cl.visit, exits=self.cl.exit, after=site):
                self.cl.visit(term, a)
                if term.op == 'ret':
                    self.cl.exit('ret', term, a)
                elif term.op == 'resume':
                    self.cl.exit('throw', term, a)
        for b in self.cfg.rpo:
            term = self.fn.blocks[b].insts[-1]
            seen = set()
            for key, (auto, facts) in self.inn[b].items():
                if auto in seen:
                    continue
                seen.add(auto)
                for a in self.states_through(b, auto, visit=self.cl.visit, exits=self.cl.exit):
                    self.cl.visit(term, a)
                    k = self.cfg.exits.get(b)
                    if term.op == 'invoke' and False:
                        pass
                    if k == 'ret':
                        self.cl.exit('ret', term, a)
                    elif k == 'throw' and term.op == 'resume':
                        self.cl.exit('throw', term, a)
                if self.cfg.exits.get(b) == 'throw' and term.op == 'unreachable':
                    pass
