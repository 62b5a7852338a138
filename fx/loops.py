"""Why a loop ends: movers (counters, iterators, reads, shrinking containers) that advance on every turn towards a fixed limit.

For each natural loop the movers are collected; a mover counts when (a) nothing in the loop moves it back, (b) a branch that leaves the loop when the
limit is reached lies on every turn.  The loop ends when no turn avoids the advancing steps of all its movers.
"""
from . import stl, iters
from .esp import const_of

NEG = float('-inf')
POS = float('inf')
READS = {'getline', 'operator>>', 'read', 'get', 'ignore', 'readsome'}
GROW = {'push_back', 'push_front', 'insert', 'emplace', 'emplace_back', 'append', 'resize', 'operator+=', 'splice', 'merge', 'assign', 'operator='}
SHRINK = {'pop_back', 'pop_front', 'erase', 'pop'}
SIZES = {'size', 'length', 'max_size', 'capacity', 'npos'}


def intc(v):
    c = const_of(v) if isinstance(v, str) else None
    return c if isinstance(c, (int, float)) and not isinstance(c, bool) else None


class Loop:
    def __init__(self, ctx, f, cfg, head, body):
        self.ctx = ctx; self.f = f; self.cfg = cfg; self.head = head; self.body = body
        self.info = ctx.R.infos[f.name]
        self.latches = [p for p in cfg.pred[head] if p in body]
        self._d = {}
        self.insts = [i for b in cfg.rpo if b in body for i in f.blocks[b].insts]
        self._grown = None
        self.limit = None       # (bound, direction): a counter set to the bound leaves at the next test

    # ---------------------------------------------------------------- graph
    def turn_without(self, blocks):
        """a path head -> head inside the body that avoids the blocks"""
        if self.head in blocks:
            return False
        seen = set(); st = [s for s in self.cfg.succ[self.head] if s in self.body]
        while st:
            b = st.pop()
            if b == self.head:
                return True
            if b in seen or b in blocks:
                continue
            seen.add(b)
            st.extend(s for s in self.cfg.succ[b] if s in self.body)
        return False

    def exits(self):
        """(block, condition, truth that stays) for branches one side of which leaves the loop"""
        for b in self.cfg.rpo:
            if b not in self.body:
                continue
            t = self.f.blocks[b].insts[-1]
            if t.op == 'br' and len(t.labels) == 2:
                ins = [l in self.body for l in t.labels]
                if ins[0] != ins[1]:
                    yield b, t.ops[0], ins[0]
            elif t.op == 'switch':
                pass

    def conds(self, v, truth, depth=0):
        """comparisons that hold while the loop goes on, given condition v == truth (conjunctions unfolded, negations removed)"""
        d = self.f.defs.get(v)
        if d is None or depth > 8:
            return
        if d.op == 'xor' and len(d.ops) == 2 and const_of(d.ops[1]) in (1, True, -1):
            yield from self.conds(d.ops[0], not truth, depth + 1)
        elif d.op in ('zext', 'trunc', 'freeze', 'sext'):
            yield from self.conds(d.ops[0], truth, depth + 1)
        elif d.op in ('icmp',) and d.pred in ('ne', 'eq') and intc(d.ops[1]) == 0 and self.f.defs.get(d.ops[0]) is not None and \
                self.f.defs[d.ops[0]].op in ('zext', 'icmp', 'fcmp'):
            yield from self.conds(d.ops[0], truth if d.pred == 'ne' else not truth, depth + 1)
        elif d.op == 'phi' and d.ty == 'i1':
            # short circuit: a && b is phi [false, .], [b, .]
            consts = {const_of(o) for o, _ in d.incoming if const_of(o) is not None}
            rest = [(o, b) for o, b in d.incoming if const_of(o) is None]
            if truth and all(not c for c in consts):
                for o, b in rest:
                    if len(rest) == 1:
                        yield from self.conds(o, True, depth + 1)
                for c_op, b in d.incoming:
                    if const_of(c_op) is not None:
                        t = self.f.blocks[b].insts[-1]
                        if t.op == 'br' and len(t.labels) == 2:
                            # this edge comes from the branch that made the conjunction false: staying takes the other side
                            tl = t.labels[0] == d.block.name
                            yield from self.conds(t.ops[0], not tl, depth + 1)
            if not truth and consts and all(bool(c) for c in consts):
                for o, b in rest:
                    if len(rest) == 1:
                        yield from self.conds(o, False, depth + 1)
                for c_op, b in d.incoming:
                    if const_of(c_op) is not None:
                        t = self.f.blocks[b].insts[-1]
                        if t.op == 'br' and len(t.labels) == 2:
                            tl = t.labels[0] == d.block.name
                            yield from self.conds(t.ops[0], not tl, depth + 1)
        elif d.op == 'select' and d.ty == 'i1' or d.op == 'select':
            if truth and const_of(d.ops[2]) in (0, False):
                yield from self.conds(d.ops[0], True, depth + 1)
                yield from self.conds(d.ops[1], True, depth + 1)
            elif not truth and const_of(d.ops[1]) in (1, True):
                yield from self.conds(d.ops[0], False, depth + 1)
                yield from self.conds(d.ops[2], False, depth + 1)
        elif d.op == 'and' and truth or d.op == 'or' and not truth:
            for o in d.ops:
                yield from self.conds(o, truth, depth + 1)
        else:
            yield d, truth

    # ---------------------------------------------------------------- what changes in the loop
    @property
    def grown(self):
        """regions of containers or cells changed in the loop: [(region, kind, inst)]"""
        if self._grown is None:
            self._grown = []
            for i in self.insts:
                for e in self.ctx.events(self.f, i):
                    if e.rw == 'W':
                        self._grown.append(e)
        return self._grown

    def invariant(self, v, depth=0):
        f = self.f
        if not isinstance(v, str) or depth > 10:
            return False
        if not v.startswith('%'):
            return True
        d = f.defs.get(v)
        if d is None:
            return True            # parameter
        if d.block.name not in self.body:
            return True
        if d.op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'zext', 'sext', 'trunc', 'freeze', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                    'fadd', 'fsub', 'fmul', 'fdiv', 'shl', 'lshr', 'ashr', 'getelementptr', 'bitcast', 'fneg', 'select', 'icmp', 'fcmp'):
            return all(self.invariant(o, depth + 1) for o in d.ops)
        if d.op == 'phi':
            return all(self.invariant(o, depth + 1) for o, b in d.incoming if o != v)
        if d.op == 'load':
            rs = self.ctx.R.pts_of(self.info, d.ops[0])
            return bool(rs) and not any(self.clash(e.region, r) for e in self.grown for r in rs) and self.invariant_addr(d.ops[0], depth + 1)
        if d.op in ('call', 'invoke'):
            n = iters.cname(self.ctx, d)
            if n is None:
                return False
            g = self.ctx.M.resolve(d.callee)
            ret, args = self.ctx.R.call_args(d)
            if g is None and n.cls in stl.CONTAINERS and n.base in SIZES | {'end', 'cend', 'begin', 'cbegin', 'rend', 'rbegin', 'back', 'front'}:
                rs = self.ctx.R.pts_of(self.info, args[0]) if args else set()
                return bool(rs) and not self.size_changes(rs, n.base)
            if g is None and n.cls in stl.CONTAINERS and n.base in ('operator[]', 'at'):
                rs = self.ctx.R.pts_of(self.info, args[0]) if args else set()
                return bool(rs) and not self.size_changes(rs) and all(self.invariant(a, depth + 1) or self.still(a) for a in args[1:])
            if g is None and n.base in ('abs', 'fabs', 'min', 'max', 'floor', 'ceil', 'sqrt', 'pow', 'log', 'exp', 'operator()'):
                return all(self.invariant(a, depth + 1) for a in args)
            if g is not None:
                # answers of the library are fixed as long as nothing they read changes
                if any(k[0][0][0] in 'PG' for k in self.ctx.R.sum[g.name].writes):
                    return False
                for e in self.ctx.events(f, d):
                    if e.rw == 'R' and any(self.clash(x.region, e.region) and x.inst is not d for x in self.grown):
                        return False
                return all(self.invariant(a, depth + 1) or self.ctx.R.pts_of(self.info, a) for a in args)
        return False

    def still(self, v):
        """the cells a pointer argument stands for do not change in the loop"""
        rs = self.ctx.R.pts_of(self.info, v)
        return bool(rs) and self.invariant_addr(v, 0) and not any(self.clash(e.region, r) for e in self.grown for r in rs)

    def invariant_addr(self, v, depth):
        d = self.f.defs.get(v)
        if d is None or d.block.name not in self.body:
            return True
        if d.op in ('getelementptr', 'bitcast'):
            return all(self.invariant(o, depth + 1) if k else self.invariant_addr(o, depth + 1) for k, o in enumerate(d.ops))
        return self.invariant(v, depth)

    @staticmethod
    def clash(a, b):
        if a[0] != b[0]:
            return False
        n = min(len(a[1]), len(b[1]))
        return a[1][:n] == b[1][:n]

    def size_changes(self, rs, what='size'):
        """the number of elements of the container may grow in the loop"""
        for e in self.grown:
            if e.region not in rs:
                continue
            if self.leafname(e) == 'operator[]':
                continue         # assumption: an entry that map[key] creates does not lengthen the loop for ever
            if e.kind in ('insert', 'assign', 'mutate', 'store', 'construct'):
                nm = self.leafname(e)
                if nm in SHRINK or nm in ('clear',):
                    continue
                if nm in ('operator[]', 'at', 'begin', 'end', 'find', 'back', 'front', 'sort', 'reverse', 'unique', 'fill', 'c_str', 'data'):
                    if e.kind != 'insert':
                        continue
                return True
        return False

    def leafname(self, e):
        while e.via and e.via[1] is not None:
            e = e.via[1]
        n = iters.cname(self.ctx, e.inst) if e.inst.op in ('call', 'invoke') else None
        return n.base if n is not None else ''

    # ---------------------------------------------------------------- counters in registers
    def delta(self, v, root, lo=True, active=()):
        """least (lo) or greatest change of v with respect to the value of phi `root` at the head of the loop; None if unrelated"""
        if v == root:
            return 0
        if self.limit is not None:
            y, sign = self.limit
            if v == y or isinstance(v, str) and self.same(v, y):
                return POS if sign > 0 else NEG
            a, b = intc(v), intc(y)
            if a is not None and b is not None and (a >= b if sign > 0 else a <= b):
                return POS if sign > 0 else NEG
        key = (v, root, lo)
        if key in self._d:
            return self._d[key]
        if v in active:
            return 'loop'
        r = self._delta(v, root, lo, active + (v,))
        if r != 'loop':
            self._d[key] = r
        return r

    def _delta(self, v, root, lo, active):
        d = self.f.defs.get(v) if isinstance(v, str) else None
        if d is None or d.block.name not in self.body:
            return None
        if d.op in ('zext', 'sext', 'trunc', 'freeze'):
            return self.delta(d.ops[0], root, lo, active)
        if d.op in ('add', 'fadd'):
            for a, b in (d.ops, d.ops[::-1]):
                c = self.step(b)
                x = self.delta(a, root, lo, active)
                if x is not None and c is not None:
                    return x if x == 'loop' else x + c[0 if lo else 1]
            return None
        if d.op in ('sub', 'fsub'):
            c = self.step(d.ops[1])
            x = self.delta(d.ops[0], root, lo, active)
            if x is not None and c is not None:
                return x if x == 'loop' else x - c[1 if lo else 0]
            return None
        if d.op == 'getelementptr' and len(d.ops) == 2:
            c = intc(d.ops[1])
            x = self.delta(d.ops[0], root, lo, active)
            if x is not None and c is not None:
                return x if x == 'loop' else x + c
            return None
        if d.op == 'select':
            xs = [self.delta(o, root, lo, active) for o in d.ops[1:]]
        elif d.op == 'phi':
            inner = [o for o, b in d.incoming]
            xs = [self.delta(o, root, lo, active) for o in inner]
        elif d.op in ('call', 'invoke'):
            n = iters.cname(self.ctx, d)
            if n is not None and n.cls == 'basic_string' and n.base in ('find', 'find_first_of', 'find_first_not_of') and len(d.args) >= 3 and lo:
                # never before the place the search starts at; npos leaves the loop by the test on it
                return self.delta(d.args[2], root, lo, active)
            return None
        else:
            return None
        if any(x is None for x in xs):
            return None
        real = [x for x in xs if x != 'loop']
        if not real:
            return 'loop'
        base = min(real) if lo else max(real)
        if 'loop' in xs:
            # an inner loop carries the value: its own changes must not go the other way
            w = self.inner(d, lo)
            if w is None or (lo and w < 0) or (not lo and w > 0):
                return NEG if lo else POS
        return base

    def inner(self, phi, lo):
        """change of an inner loop's own phi per turn of that loop (sign only)"""
        key = ('inner', phi.res, lo)
        if key in self._d:
            return self._d[key]
        self._d[key] = 0
        loops = self.cfg.loops.get(phi.block.name)
        r = None
        if loops:
            sub = Loop(self.ctx, self.f, self.cfg, phi.block.name, loops)
            xs = [sub.delta(o, phi.res, lo) for o, b in phi.incoming if b in loops]
            if xs and all(x is not None and x != 'loop' for x in xs):
                r = min(xs) if lo else max(xs)
        self._d[key] = r
        return r

    def step(self, v, depth=0):
        """(least, greatest) value of an amount added"""
        c = intc(v)
        if c is not None:
            return (c, c)
        if not isinstance(v, str) or depth > 5:
            return None
        d = self.f.defs.get(v)
        if d is not None and d.op in ('zext', 'sext', 'trunc'):
            return self.step(d.ops[0], depth + 1)
        if d is not None and d.op == 'select':
            xs = [self.step(o, depth + 1) for o in d.ops[1:]]
            if all(xs):
                return (min(x[0] for x in xs), max(x[1] for x in xs))
        if d is not None and d.op == 'phi':
            xs = [self.step(o, depth + 1) for o, b in d.incoming]
            if all(xs):
                return (min(x[0] for x in xs), max(x[1] for x in xs))
        if d is not None and d.op in ('add',):
            xs = [self.step(o, depth + 1) for o in d.ops]
            if all(xs):
                return (xs[0][0] + xs[1][0], xs[0][1] + xs[1][1])
        if d is not None and d.op in ('call', 'invoke'):
            n = iters.cname(self.ctx, d)
            if n is not None and n.base in ('size', 'length'):
                return (0, POS)
        return None

    def same(self, a, b):
        """two reads of one unchanged cell"""
        x, y = self.f.defs.get(a), self.f.defs.get(b) if isinstance(b, str) else None
        if x is None or y is None or x.op != y.op or not self.invariant(b):
            return False
        if x.op == 'load':
            return x.ops[0] == y.ops[0]
        if x.op in ('call', 'invoke') and x.callee == y.callee and self.ctx.M.resolve(x.callee) is None:
            n = iters.cname(self.ctx, x)
            return n.base in SIZES and all(self.ctx.R.pts_of(self.info, p) == self.ctx.R.pts_of(self.info, q) for p, q in zip(x.args, y.args))
        return False

    def moving(self, v, limit=None):
        if limit is not None and self.limit != limit:
            keep, self.limit, memo, self._d = self.limit, limit, self._d, {}
            try:
                return self.moving(v, limit)
            finally:
                self.limit, self._d = keep, memo
        return self._moving(v)

    def _moving(self, v):
        """the head phi a compared value is derived from: [(phi, lo, hi)] and its net change per turn"""
        out = []
        for p in self.f.blocks[self.head].insts:
            if p.op != 'phi':
                break
            x = self.delta(v, p.res, True)
            if x is None or x == 'loop':
                continue
            lo = [self.delta(o, p.res, True) for o, b in p.incoming if b in self.body]
            hi = [self.delta(o, p.res, False) for o, b in p.incoming if b in self.body]
            if any(y is None or y == 'loop' for y in lo + hi):
                continue
            out.append((p, min(lo), max(hi)))
        return out

    def advancing(self, phi, sign):
        """blocks on which the counter moves by at least one in the direction"""
        bl = set()
        back = False                # some step goes the other way: then the net change of every turn has to be positive
        todo = [o for o, b in phi.incoming if b in self.body]
        seen = set()
        while todo:
            v = todo.pop()
            if v in seen or v == phi.res:
                continue
            seen.add(v)
            d = self.f.defs.get(v)
            if d is None or d.block.name not in self.body:
                continue
            if d.op in ('add', 'fadd', 'sub', 'fsub'):
                for a, b in ((d.ops[0], d.ops[1]), (d.ops[1], d.ops[0])):
                    c = self.step(b)
                    if c is not None and (d.op in ('add', 'fadd') or b is d.ops[1]):
                        l, h = c if d.op in ('add', 'fadd') else (-c[1], -c[0])
                        if (sign > 0 and l > 0) or (sign < 0 and h < 0):
                            bl.add(d.block.name)
                        if (sign > 0 and l < 0) or (sign < 0 and h > 0):
                            back = True
                        todo.append(a)
                        break
            elif d.op == 'getelementptr':
                c = intc(d.ops[1]) if len(d.ops) == 2 else None
                if c is not None and c * sign > 0:
                    bl.add(d.block.name)
                if c is not None and c * sign < 0:
                    back = True
                todo.append(d.ops[0])
            elif d.op == 'phi':
                todo += [o for o, b in d.incoming]
            elif d.op == 'select':
                todo += list(d.ops[1:])
            elif d.op in ('zext', 'sext', 'trunc', 'freeze'):
                todo.append(d.ops[0])
            elif d.op in ('call', 'invoke') and len(d.args) >= 3:
                todo.append(d.args[2])
        if back:
            ds = [self.delta(o, phi.res, sign > 0) for o, b in phi.incoming if b in self.body]
            if any(y is None or y == 'loop' or y * sign <= 0 for y in ds):
                return set()
        return bl

    SWAP = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'eq': 'eq', 'ne': 'ne'}
    INV = {'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'eq': 'ne', 'ne': 'eq'}

    @staticmethod
    def fpred(p):
        m = {'lt': 'slt', 'le': 'sle', 'gt': 'sgt', 'ge': 'sge', 'eq': 'eq', 'ne': 'ne'}
        return m.get(p[1:])

    def counter_movers(self):
        for b, c, stay in self.exits():
            for d, truth in self.conds(c, stay):
                if d.op not in ('icmp', 'fcmp'):
                    continue
                pred = d.pred if d.op == 'icmp' else self.fpred(d.pred)
                if pred is None:
                    continue
                if not truth:
                    pred = self.INV[pred]
                for x, y, p in ((d.ops[0], d.ops[1], pred), (d.ops[1], d.ops[0], self.SWAP[pred])):
                    sg = {'ult': 1, 'ule': 0, 'slt': 1, 'sle': 0, 'ugt': -1, 'sgt': -1}.get(p, 0)
                    for m, lo, hi in self.moving(x, (y, sg) if sg else None):
                        # the limit: fixed, or coming nearer
                        if not self.invariant(y):
                            ok = False
                            for m2, lo2, hi2 in self.moving(y):
                                if p in ('ult', 'ule', 'slt', 'sle') and hi2 <= 0 and lo >= 0:
                                    yield b, self.advancing(m, 1) | self.advancing(m2, -1), 'counter'
                                    ok = True
                                if p in ('ugt', 'uge', 'sgt', 'sge') and lo2 >= 0 and hi <= 0:
                                    yield b, self.advancing(m, -1) | self.advancing(m2, 1), 'counter'
                                    ok = True
                            if not ok and p in ('ne',) and intc(y) is None:
                                pass
                            continue
                        k = intc(y)
                        if p in ('ult', 'ule', 'slt', 'sle') and lo >= 0:
                            if p == 'ult' and k is not None and k in (-1,):
                                continue
                            if p == 'ule' and k == -1:
                                continue
                            yield b, self.advancing(m, 1), 'counter'
                        elif p in ('ugt', 'sgt', 'sge') and hi <= 0:
                            if p == 'ugt' and lo < -1 and not (k is not None and k >= -lo - 1):
                                continue
                            yield b, self.advancing(m, -1), 'counter'
                        elif p == 'uge' and hi <= 0:
                            if k is None or k < -lo:
                                continue       # an unsigned number is never below zero
                            yield b, self.advancing(m, -1), 'counter'
                        elif p == 'ne' and m.ty in ('ptr', 'double'):
                            if lo == hi and lo in (1, -1):
                                yield b, self.advancing(m, 1 if lo > 0 else -1), 'pointer'
                        elif p == 'ne' and (0 <= lo and hi <= 1 or -1 <= lo and hi <= 0):
                            yield b, self.advancing(m, 1 if hi > 0 else -1), 'counter'
                        elif p == 'ne' and k is not None and k == -1 and lo >= 0:
                            # position of a text search that goes on behind the last match
                            yield b, self.advancing(m, 1), 'search'

    # ---------------------------------------------------------------- bisection
    def bisection_movers(self):
        """lo and hi with hi - lo > 1 (or lo < hi): every turn replaces one of them by a point strictly between"""
        f = self.f
        phis = [p for p in f.blocks[self.head].insts if p.op == 'phi']

        def strip(v):
            d = f.defs.get(v) if isinstance(v, str) else None
            while d is not None and d.op in ('zext', 'sext', 'trunc', 'freeze'):
                v = d.ops[0]
                d = f.defs.get(v) if isinstance(v, str) else None
            return v, d

        def cases(v, depth=0):
            v, d = strip(v)
            if d is not None and d.op == 'phi' and d.block.name in self.body and d not in phis and depth < 6:
                out = []
                for o, b in d.incoming:
                    out += [(x, bb + ((b, d.block.name),)) for x, bb in cases(o, depth + 1)]
                return out
            if d is not None and d.op == 'select' and d.block.name in self.body and depth < 6:
                return [(x, bb + ((d.ops[0], k),)) for k in (1, 2) for x, bb in cases(d.ops[k], depth + 1)]
            return [(v, ())]

        def is_dist(v, H, L):
            v, d = strip(v)
            if d is None:
                return False
            if d.op == 'sub':
                return strip(d.ops[0])[0] == H.res and strip(d.ops[1])[0] == L.res
            if d.op == 'phi' and d in phis:
                for o, b in d.incoming:
                    _, x = strip(o)
                    if x is None or x.op != 'sub':
                        return False
                    hv = [strip(a)[0] for a, bb in H.incoming if bb == b]
                    lv = [strip(a)[0] for a, bb in L.incoming if bb == b]
                    if [strip(x.ops[0])[0]] != hv or [strip(x.ops[1])[0]] != lv:
                        return False
                return True
            return False

        def part(v, H, L, wide):
            """0 < v < hi - lo (wide: hi - lo > 1), or 0 <= v < hi - lo when only hi > lo is known"""
            for x, _ in cases(v):
                if intc(x) == 1 and wide:
                    continue
                if intc(x) == 0 and not wide:
                    continue
                d = f.defs.get(x)
                if d is None:
                    return False
                k = intc(d.ops[1]) if len(d.ops) > 1 else None
                if d.op in ('ashr', 'lshr') and is_dist(d.ops[0], H, L) and k is not None and (k == 1 or k >= 1 and not wide):
                    continue
                if d.op in ('sdiv', 'udiv') and is_dist(d.ops[0], H, L) and k is not None and (k == 2 or k >= 2 and not wide):
                    continue
                if is_dist(x, H, L) and False:
                    continue
                if (d.op == 'sub' and k == 1 or d.op == 'add' and k == -1) and is_dist(d.ops[0], H, L):
                    continue
                return False
            return True

        def between(v, H, L, wide):
            v, d = strip(v)
            if d is None:
                return False
            if d.op == 'add':
                for a, b in (d.ops, d.ops[::-1]):
                    if strip(a)[0] == L.res and part(b, H, L, wide):
                        return True
            if d.op in ('sdiv', 'udiv', 'ashr', 'lshr') and intc(d.ops[1]) == (2 if 'div' in d.op else 1):
                _, a = strip(d.ops[0])
                if a is not None and a.op == 'add' and {strip(o)[0] for o in a.ops} == {H.res, L.res}:
                    return True
            # piecewise-linear forms (additions, halvings): decided on every residue of the distance and on large distances
            try:
                for dist in list(range(2 if wide else 1, 20)) + [1000, 1001, 1002, 1003, 10 ** 6, 10 ** 6 + 1]:
                    for lo in (0, 1, 6, 1001):
                        for x in values(v, H, L, lo, lo + dist, 0):
                            if not (lo < x < lo + dist if wide else lo <= x < lo + dist):
                                return False
                return True
            except ValueError:
                return False

        def values(v, H, L, lo, hi, depth):
            c = intc(v)
            if c is not None:
                return {c}
            if depth > 8:
                raise ValueError
            out = set()
            for x, _ in cases(v):
                c = intc(x)
                d = f.defs.get(x) if isinstance(x, str) else None
                if c is not None:
                    out.add(c)
                elif x == H.res:
                    out.add(hi)
                elif x == L.res:
                    out.add(lo)
                elif d is None:
                    raise ValueError
                elif is_dist(x, H, L):
                    out.add(hi - lo)
                elif d.op in ('add', 'sub', 'sdiv', 'udiv', 'lshr', 'ashr'):
                    for a in values(d.ops[0], H, L, lo, hi, depth + 1):
                        for b in values(d.ops[1], H, L, lo, hi, depth + 1):
                            if d.op in ('sdiv', 'udiv') and not 0 < b <= 4 or d.op in ('lshr', 'ashr') and not 0 <= b <= 2 or 'add' not in d.op and 'sub' not in d.op and a < 0:
                                raise ValueError
                            out.add(a + b if d.op == 'add' else a - b if d.op == 'sub' else a // b if 'div' in d.op else a >> b)
                else:
                    raise ValueError
            return out

        for b, c, stay in self.exits():
            for d, truth in self.conds(c, stay):
                if d.op != 'icmp':
                    continue
                pred = d.pred if truth else self.INV[d.pred]
                for x, y, p in ((d.ops[0], d.ops[1], pred), (d.ops[1], d.ops[0], self.SWAP[pred])):
                    for H in phis:
                        for L in phis:
                            if H is L:
                                continue
                            k = intc(y)
                            wide = None
                            if is_dist(x, H, L) and k is not None:
                                if p in ('sgt', 'ugt') and k >= 1 or p in ('sge', 'uge') and k >= 2:
                                    wide = True
                                elif p in ('sgt', 'ugt') and k == 0 or p in ('sge', 'uge') and k == 1:
                                    wide = False
                            elif p in ('sgt', 'ugt') and strip(x)[0] == H.res and strip(y)[0] == L.res:
                                wide = False
                            if wide is None:
                                continue
                            if self.narrows(H, L, cases, strip, between, wide):
                                yield b, set(self.latches), 'bisection'

    def narrows(self, H, L, cases, strip, between, wide):
        for lt in self.latches:
            hs = [o for o, b in H.incoming if b == lt]
            ls = [o for o, b in L.incoming if b == lt]
            if len(hs) != 1 or len(ls) != 1:
                return False
            ch, cl = cases(hs[0]), cases(ls[0])
            for hv, hb in ch:
                for lv, lb in cl:
                    # the two choices have to be made on one and the same path
                    if any((p, q) != (p2, q2) and q == q2 for p, q in hb for p2, q2 in lb):
                        continue
                    hm, lm = strip(hv)[0], strip(lv)[0]
                    h0, l0 = hm == H.res, lm == L.res
                    if h0 and l0 or not h0 and not l0:
                        return False
                    if not h0:
                        # hi = mid: below hi (also with hi - lo == 1)
                        d = self.f.defs.get(hm)
                        if not between(hm, H, L, wide) and not (d is not None and d.op in ('sub', 'add') and intc(d.ops[1]) in (1, -1) and between(d.ops[0], H, L, wide)):
                            return False
                    else:
                        d = self.f.defs.get(lm)
                        if wide and between(lm, H, L, True):
                            continue
                        if d is not None and d.op == 'add' and (intc(d.ops[1]) or 0) == 1 and between(d.ops[0], H, L, wide):
                            continue
                        return False
        return True

    # ---------------------------------------------------------------- counters in memory
    def memory_movers(self):
        f = self.f
        slots = {}
        for i in self.insts:
            if i.op == 'store' and i.ty in ('i32', 'i64', 'i16', 'i8', 'double'):
                d = f.defs.get(i.ops[1])
                if d is not None and d.op == 'alloca':
                    slots.setdefault(i.ops[1], []).append(i)
                elif d is not None and d.op == 'getelementptr':
                    slots.setdefault(self.place(i.ops[1]), []).append(i)
        for s, stores in slots.items():
            if s is None:
                continue
            regs = {i.ops[1] for i in stores}
            rs = set()
            for r in regs:
                rs |= self.ctx.R.pts_of(self.info, r)
            if any(e.region in rs and e.inst.op != 'store' for e in self.grown):
                continue
            adv = {1: set(), -1: set()}
            ok = {1: True, -1: True}
            for i in stores:
                c = self.mem_step(i.ops[0], s)
                if c is None:
                    ok = {1: False, -1: False}
                    break
                for sg in (1, -1):
                    l = c[0] if sg > 0 else -c[1]
                    if l < 0:
                        ok[sg] = False
                    if l > 0:
                        adv[sg].add(i.block.name)
            for b, c, stay in self.exits():
                for d, truth in self.conds(c, stay):
                    if d.op not in ('icmp', 'fcmp'):
                        continue
                    pred = d.pred if d.op == 'icmp' else self.fpred(d.pred)
                    if pred is None:
                        continue
                    if not truth:
                        pred = self.INV[pred]
                    for x, y, p in ((d.ops[0], d.ops[1], pred), (d.ops[1], d.ops[0], self.SWAP[pred])):
                        if self.mem_step(x, s) is None or not self.invariant(y):
                            continue
                        k = intc(y)
                        if p in ('ult', 'ule', 'slt', 'sle') and ok[1]:
                            yield b, adv[1], 'counter'
                        elif p in ('ugt', 'sgt', 'sge') and ok[-1] or p == 'uge' and ok[-1] and k is not None and k >= 1:
                            yield b, adv[-1], 'counter'
                        elif p == 'ne' and (ok[1] or ok[-1]):
                            yield b, adv[1] if ok[1] else adv[-1], 'counter'

    def place(self, v):
        d = self.f.defs.get(v)
        if d is None:
            return None
        if d.op == 'getelementptr' and all(intc(o) is not None for o in d.ops[1:]):
            return (d.extra, d.ops[0]) + tuple(d.ops[1:])
        return v if d.op == 'alloca' else None

    def mem_step(self, v, slot, depth=0):
        """(least, greatest) of v minus the current contents of the slot"""
        d = self.f.defs.get(v) if isinstance(v, str) else None
        if d is None or depth > 8:
            return None
        if d.op == 'load':
            if d.ops[0] == slot or self.place(d.ops[0]) == slot:
                return (0, 0)
            return None
        if d.op in ('zext', 'sext', 'trunc', 'freeze'):
            return self.mem_step(d.ops[0], slot, depth + 1)
        if d.op in ('add', 'fadd', 'sub', 'fsub'):
            for a, b in ((d.ops[0], d.ops[1]), (d.ops[1], d.ops[0])):
                x = self.mem_step(a, slot, depth + 1)
                c = self.step(b)
                if x is not None and c is not None:
                    if d.op in ('sub', 'fsub'):
                        if b is not d.ops[1]:
                            return None
                        c = (-c[1], -c[0])
                    return (x[0] + c[0], x[1] + c[1])
            return None
        if d.op == 'phi':
            xs = [self.mem_step(o, slot, depth + 1) for o, b in d.incoming]
            if all(xs):
                return (min(x[0] for x in xs), max(x[1] for x in xs))
        return None

    # ---------------------------------------------------------------- iterators
    def objs(self, v):
        """local objects a value stands for (through temporaries and copies by value)"""
        out = set()
        todo = [v]; seen = set()
        while todo:
            x = todo.pop()
            if x in seen or not isinstance(x, str):
                continue
            seen.add(x)
            d = self.f.defs.get(x)
            if d is None:
                if x in self.f.params:
                    out.add(x)
                continue
            if d.op == 'alloca':
                out.add(x)
            elif d.op in ('getelementptr', 'bitcast', 'load', 'inttoptr', 'ptrtoint', 'freeze'):
                todo.append(d.ops[0])
            elif d.op in ('phi',):
                todo += [o for o, b in d.incoming]
            elif d.op in ('call', 'invoke'):
                n = iters.cname(self.ctx, d)
                if n is not None and n.base in ('base', 'operator++', 'operator--', 'forward', 'move', 'operator+=', 'operator-='):
                    todo += list(d.args[:1])
        return out

    def copies_of(self, o):
        """objects that a temporary was copied from in the loop"""
        out = {o}
        todo = [o]
        while todo:
            x = todo.pop()
            for u in self.f.uses.get(x, ()):
                src = None
                if u.op in ('call', 'invoke'):
                    if u.callee.startswith(('llvm.memcpy', 'llvm.memmove')) and u.args[0] == x:
                        src = u.args[1]
                    else:
                        n = iters.cname(self.ctx, u)
                        if n is not None and n.cls == n.base and len(u.args) >= 2 and u.args[0] == x and n.cls in stl.ITERATORS:
                            src = u.args[1]
                elif u.op == 'store' and u.ops[1] == x:
                    src = u.ops[0]
                if src is not None:
                    for y in self.objs(src):
                        if y not in out:
                            out.add(y); todo.append(y)
        return out

    def iterator_movers(self):
        f = self.f
        for b, c, stay in self.exits():
            for d, truth in self.conds(c, stay):
                sides = None
                if d.op in ('call', 'invoke'):
                    n = iters.cname(self.ctx, d)
                    if n is None or n.base not in ('operator!=', 'operator==', 'operator<', 'operator>', 'operator<=', 'operator>='):
                        continue
                    if n.base == 'operator!=' and not truth or n.base == 'operator==' and truth:
                        continue
                    ret, args = self.ctx.R.call_args(d)
                    if len(args) < 2:
                        continue
                    sides = args[:2]
                elif d.op == 'icmp' and d.extra == 'ptr':
                    sides = d.ops
                    if d.pred == 'ne' and not truth or d.pred == 'eq' and truth:
                        continue
                if not sides:
                    continue
                for s in sides:
                    for o in sorted(self.objs(s)):
                        for x in sorted(self.copies_of(o)):
                            adv = self.iter_steps(x)
                            if adv:
                                yield b, adv, 'iterator'

    def iter_steps(self, o):
        """blocks in which the iterator object moves on; empty when it may also be set back or its container grows"""
        f = self.f
        fwd = set(); back = set()
        for i in self.insts:
            if i.op in ('call', 'invoke'):
                if i.callee.startswith(('llvm.lifetime', 'llvm.dbg')):
                    continue
                if i.callee.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                    if o in self.objs_exact(i.args[0]):
                        if self.from_step(i.args[1] if 'memset' not in i.callee else None, o):
                            fwd.add(i.block.name)
                        else:
                            return set()
                    continue
                n = iters.cname(self.ctx, i)
                ret, args = self.ctx.R.call_args(i)
                if ret is not None and o in self.objs_exact(ret):
                    if n is not None and n.base in ('erase', 'next') and any(o in self.copies_of(y) for a in args for y in self.objs(a)):
                        fwd.add(i.block.name)
                        continue
                    return set()
                for k, a in enumerate(args):
                    if o not in self.objs_exact(a):
                        continue
                    if n is None:
                        return set()
                    if k == 0 and n.base in ('operator++', 'operator+=', 'advance') and not n.const:
                        if n.base == 'operator++':
                            fwd.add(i.block.name)
                        else:
                            c = intc(args[1]) if len(args) > 1 else None
                            if c is not None and c >= 1:
                                fwd.add(i.block.name)
                            elif c is not None and c < 0:
                                back.add(i.block.name)
                            else:
                                return set()
                    elif k == 0 and n.base in ('operator--', 'operator-='):
                        back.add(i.block.name)
                    elif k == 0 and (n.base == 'operator=' or n.base == n.cls and n.cls in stl.ITERATORS):
                        if n.cls in stl.ITERATORS:
                            if len(args) > 1 and self.from_step(args[1], o):
                                fwd.add(i.block.name)
                            else:
                                return set()
                        else:
                            return set()
                    elif self.ctx.M.resolve(i.callee) is not None:
                        if any(e.rw == 'W' and e.region in {('L' + o, ())} for e in self.ctx.events(f, i)):
                            return set()
            elif i.op == 'store' and o in self.objs_exact(i.ops[1]):
                if self.from_step(i.ops[0], o):
                    fwd.add(i.block.name)
                else:
                    return set()
        if back and fwd:
            return set()
        # the range grows while it is walked
        rs = set()
        for r in self.info.contents.get('L' + o, ()):
            if r[1] and r[1][-1].startswith('['):
                rs.add((r[0], r[1][:-1]))
        if rs and self.size_changes(rs, 'range'):
            return set()
        return fwd or back

    def objs_exact(self, v):
        d = self.f.defs.get(v) if isinstance(v, str) else None
        n = 0
        while d is not None and n < 6:
            if d.op == 'alloca':
                return {d.res}
            if d.op == 'getelementptr' and all(intc(x) == 0 for x in d.ops[1:]):
                d = self.f.defs.get(d.ops[0]); n += 1
                continue
            break
        return set()

    def from_step(self, v, o, depth=0):
        """the value is the iterator moved on (result of erase, next, ++ applied to it)"""
        if v is None or depth > 6:
            return False
        todo = [v]; seen = set()
        while todo:
            x = todo.pop()
            if x in seen or not isinstance(x, str):
                continue
            seen.add(x)
            d = self.f.defs.get(x)
            if d is None:
                continue
            if d.op in ('call', 'invoke'):
                n = iters.cname(self.ctx, d)
                if n is not None and n.base in ('erase', 'next', 'operator++', 'operator+', 'upper_bound'):
                    if any(o in self.copies_of(y) for a in d.args for y in self.objs(a)):
                        return True
            elif d.op in ('load', 'getelementptr', 'bitcast', 'extractvalue', 'insertvalue'):
                todo.append(d.ops[0])
            elif d.op == 'phi':
                return False
            elif d.op == 'alloca':
                for u in self.f.uses.get(x, ()):
                    if u.op == 'store' and u.ops[1] == x:
                        todo.append(u.ops[0])
                    elif u.op in ('call', 'invoke') and u.args:
                        if u.callee.startswith('llvm.memcpy') and u.args[0] == x:
                            todo.append(u.args[1])
                        elif 'sret' in u.argattrs[0] and u.args[0] == x:
                            n = iters.cname(self.ctx, u)
                            if n is not None and n.base in ('erase', 'next', 'operator++', 'operator+') and any(o in self.copies_of(y) for a in u.args[1:] for y in self.objs(a)):
                                return True
                        else:
                            n = iters.cname(self.ctx, u)
                            if n is not None and n.base == n.cls and u.args[0] == x and len(u.args) > 1:
                                todo.append(u.args[1])
                for u in self.f.uses.get(x, ()):
                    pass
                for u in self.insts:
                    if u.op == 'store' and x in self.objs_exact(u.ops[1]):
                        todo.append(u.ops[0])
        return False

    # ---------------------------------------------------------------- reads
    def stream_movers(self):
        f = self.f
        for b, c, stay in self.exits():
            for d, truth in self.conds(c, stay):
                if d.op not in ('call', 'invoke'):
                    continue
                n = iters.cname(self.ctx, d)
                if n is None:
                    continue
                g = self.ctx.M.resolve(d.callee)
                if g is not None:
                    continue
                good = n.base in ('operator bool', 'good', 'operator void*') and truth or n.base in ('fail', 'operator!') and not truth
                if not good:
                    continue
                ret, args = self.ctx.R.call_args(d)
                rs = self.ctx.R.pts_of(self.info, args[0]) if args else set()
                adv = set()
                for i in self.insts:
                    if i.op in ('call', 'invoke'):
                        m = iters.cname(self.ctx, i)
                        if m is not None and m.base in READS:
                            r2, a2 = self.ctx.R.call_args(i)
                            if a2 and self.ctx.R.pts_of(self.info, a2[0]) & rs:
                                adv.add(i.block.name)
                        if m is not None and m.base in ('seekg', 'clear', 'str', 'open', 'putback', 'unget'):
                            r2, a2 = self.ctx.R.call_args(i)
                            if a2 and self.ctx.R.pts_of(self.info, a2[0]) & rs:
                                adv = set()
                                break
                if adv:
                    yield b, adv, 'read'

    # ---------------------------------------------------------------- shrinking containers
    def shrink_movers(self):
        f = self.f
        for b, c, stay in self.exits():
            for d, truth in self.conds(c, stay):
                cont = None
                if d.op in ('call', 'invoke'):
                    n = iters.cname(self.ctx, d)
                    if n is not None and n.base == 'empty' and not truth:
                        cont = d
                elif d.op == 'icmp':
                    for o in d.ops:
                        x = f.defs.get(o)
                        if x is not None and x.op in ('call', 'invoke'):
                            n = iters.cname(self.ctx, x)
                            if n is not None and n.base in ('size', 'length') and n.cls in stl.CONTAINERS:
                                p = d.pred if o == d.ops[0] else self.SWAP[d.pred]
                                p = p if truth else self.INV[p]
                                other = d.ops[1] if o == d.ops[0] else d.ops[0]
                                if self.invariant(other):
                                    if p in ('ugt', 'sgt', 'ne') or p in ('uge', 'sge') and (intc(other) or 0) >= 1:
                                        cont = x
                                    elif p in ('ult', 'slt', 'ule', 'sle'):
                                        adv = self.cont_blocks(x.args[0], {'push_back', 'emplace_back', 'push_front', 'append', 'operator+='})
                                        if adv and not self.cont_blocks(x.args[0], SHRINK | {'clear', 'operator='}):
                                            yield b, adv, 'growing'
                if cont is not None:
                    adv = self.cont_blocks(cont.args[0], SHRINK)
                    rs = self.ctx.R.pts_of(self.info, cont.args[0])
                    if adv and not self.size_changes(rs):
                        yield b, adv, 'shrinking'

    def cont_blocks(self, v, names):
        rs = self.ctx.R.pts_of(self.info, v)
        bl = set()
        for i in self.insts:
            if i.op in ('call', 'invoke') and self.ctx.M.resolve(i.callee) is None:
                n = iters.cname(self.ctx, i)
                if n is not None and n.base in names and n.cls in stl.CONTAINERS:
                    ret, args = self.ctx.R.call_args(i)
                    if args and self.ctx.R.pts_of(self.info, args[0]) == rs:
                        bl.add(i.block.name)
        return bl

    # ---------------------------------------------------------------- verdict
    def ends(self):
        """(True, kinds) or (False, reason)"""
        adv = set(); kinds = []
        for gen in (self.counter_movers, self.bisection_movers, self.memory_movers, self.iterator_movers, self.stream_movers, self.shrink_movers):
            for b, bl, kind in gen():
                if not bl:
                    continue
                if self.turn_without({b}):
                    continue
                adv |= bl
                kinds.append(kind)
                if not self.turn_without(adv):
                    return True, sorted(set(kinds))
        if not self.turn_without(set()):
            return True, ['once']
        return False, sorted(set(kinds))
