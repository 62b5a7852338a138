"""Completeness of text-keyed records: whoever creates a record fills all its fields on every path."""
from . import iters


def depth_of(region, root, d):
    """key of a cell of a record at depth d below root, or None"""
    r, p = region
    if r != root or len(p) != d + 1:
        return None
    if any(x not in ('[]',) and not (x.startswith('[')) for x in p[:d]):
        return None
    k = p[d]
    return k[1:-1] if k.startswith('[') and len(k) > 2 else '*' if k == '[]' else None


class Records:
    """obligations of one function for the records at depth d below root

    schema: base name of a library function -> keys of the records it answers
    goals: blocks where the records are handed on (default: the returns)"""
    memo = {}

    def __init__(self, ctx, f, root, d, keys, schema, goals=None, stack=()):
        self.ctx = ctx; self.f = f; self.root = root; self.d = d; self.keys = set(keys); self.schema = schema
        self.cfg = ctx.F.cfg(f)
        self.info = ctx.RK.infos[f.name]
        self.stack = stack + ((f.name, root, d),)
        self.problems = []
        self.creations = 0
        self.goals = set(goals) if goals is not None else {b for b in self.cfg.reach if f.blocks[b].insts[-1].op == 'ret'}
        self.run()

    def sub(self, g, root, d):
        k = (g.name, root, d, frozenset(self.keys))
        if (g.name, root, d) in self.stack:
            return None
        m = self.ctx.__dict__.setdefault('records_memo', {})
        if k not in m:
            m[k] = Records(self.ctx, g, root, d, self.keys, self.schema, stack=self.stack)
        return m[k]

    def rmw(self, i, key):
        """the stored number is computed from the entry it replaces"""
        seen = set()
        st = [i.ops[0]] if i.op == 'store' else []
        while st:
            v = st.pop()
            if v in seen or not isinstance(v, str):
                continue
            seen.add(v)
            d = self.f.defs.get(v)
            if d is None:
                continue
            if d.op == 'load':
                if any(depth_of(r, self.root, self.d) == key for r in self.ctx.RK.pts_of(self.info, d.ops[0])):
                    return True
            elif d.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'phi', 'select'):
                st.extend(d.ops)
            elif d.op == 'call' and (d.callee or '').startswith('llvm.'):
                st.extend(d.args)
        return False

    def rec_created(self, ptr):
        """the record a pointer stands for is reached by operator[] of its container (which makes it)"""
        if self.d == 0:
            return True
        e = self.f.defs.get(ptr)
        if e is not None and e.op in ('call', 'invoke'):
            n = iters.cname(self.ctx, e)
            return n is not None and n.base == 'operator[]'
        if e is not None and e.op == 'load':       # reference variable
            a = self.f.defs.get(e.ops[0])
            if a is not None and a.op == 'alloca':
                st = [x for x in self.f.insts() if x.op == 'store' and x.ops[1] == e.ops[0]]
                return len(st) == 1 and st[0].ops[0] != ptr and self.rec_created(st[0].ops[0])
        return False

    def creates(self, ptr):
        d = self.f.defs.get(ptr)
        if d is None or d.op not in ('call', 'invoke') or not d.args:
            return False
        n = iters.cname(self.ctx, d)
        return n is not None and n.base == 'operator[]' and self.rec_created(d.args[0])

    def keyed(self, p):
        return all(x.startswith('[') for x in p)

    def called(self, i, g, cover, create, grown, clears):
        """effects of a call of a library function on the records"""
        RK = self.ctx.RK
        ret, args = RK.call_args(i)
        b = i.block.name
        if ret is not None:
            for r in RK.pts_of(self.info, ret):
                if r[0] == self.root and len(r[1]) <= self.d and self.keyed(r[1]):
                    got = self.answered(g, self.d - len(r[1]))
                    if got is not None:
                        grown.append((i, got, len(r[1])))
                        for k in got & self.keys:
                            cover[k].add(b)
                    else:
                        for k in self.keys:
                            cover[k].add(b)
        written = {}
        for (r, kind) in RK.sum[g.name].writes:
            written.setdefault(r[0], []).append((r[1], kind))
        for j, a in enumerate(args):
            root = 'P%d' % j
            if root not in written:
                continue
            for r in RK.pts_of(self.info, a):
                if r[0] != self.root or not self.keyed(r[1]):
                    continue
                if len(r[1]) == self.d + 1:
                    k = depth_of(r, self.root, self.d)
                    for x in (self.keys if k == '*' else {k} & self.keys):
                        cover[x].add(b)
                    continue
                if len(r[1]) > self.d:
                    continue
                s = self.sub(g, root, self.d - len(r[1]))
                if s is None:
                    for k in self.keys:
                        cover[k].add(b)
                    continue
                must = {k for k in self.keys if s.must(k)}
                for k in must:
                    cover[k].add(b)
                if s.d == 0:
                    if s.made and must and self.rec_created(a):
                        create.append((i, sorted(must)[0]))
                    for k in s.cleared - must:
                        clears.append((i, k))
                else:
                    self.creations += s.creations
                    for x, msg, key in s.problems:
                        self.problems.append((x, msg, key))

    def must(self, k):
        """every path through the function stores k (in the record; in every record)"""
        cov = self.whole[k] | (self.cover[k] if self.d == 0 else set())
        return self.f.entry.name in cov or not self.path([self.f.entry.name], self.goals - cov, cov, None)

    def answered(self, g, d):
        """keys of the records of a function's answer; None: all"""
        base = self.ctx.name(g).base
        if base in self.schema:
            return set(self.schema[base])
        s = self.sub(g, 'RET', d)
        if s is None:
            return None
        if d == 0:
            return {k for k in self.keys if s.must(k)} if s.made else None
        if s.problems:
            return self.keys - {key.split()[-1] for x, m, key in s.problems}
        return None

    def run(self):
        f, cfg = self.f, self.cfg
        self.cover = cover = {k: set() for k in self.keys}        # blocks
        create = []                                   # (inst, key)
        grown = []                                    # (inst, keys supplied, level)
        clears = []                                   # (inst, key)
        self.made = False
        done = set()
        for e in self.info.events:
            if e.rw != 'W' or e.inst.block.name not in cfg.reach or e.region[0] != self.root:
                continue
            i = e.inst
            g = self.ctx.M.resolve(i.callee) if i.op in ('call', 'invoke') and i.callee else None
            if g is not None and g.name in self.ctx.RK.infos:
                if id(i) not in done:
                    done.add(id(i))
                    self.called(i, g, cover, create, grown, clears)
                continue
            n = iters.cname(self.ctx, i) if i.op in ('call', 'invoke') and i.callee else None
            k = depth_of(e.region, self.root, self.d)
            p = e.region[1]
            at = len(p) <= self.d and self.keyed(p)
            if e.kind == 'destroy':
                continue
            if at and len(p) == self.d and n is not None and n.base in ('clear', 'erase', 'swap'):
                self.cleared_keys(i, n, clears)
                continue
            if e.kind in ('insert', 'clear'):
                continue
            if e.kind == 'store' or k is not None:
                if k == '*':
                    for x in self.keys:
                        cover[x].add(i.block.name)
                elif k in self.keys:
                    cover[k].add(i.block.name)
                    if i.op == 'store':
                        self.made = True
                        if not self.rmw(i, k) and self.creates(i.ops[1]):
                            create.append((i, k))
                    continue
            if at and not (e.kind == 'construct' and self.blank(i)):
                got = self.supplied(i, len(p))
                if got is None:
                    for x in self.keys:
                        cover[x].add(i.block.name)
                else:
                    for x in got & self.keys:
                        cover[x].add(i.block.name)
                    grown.append((i, got, len(p)))
        # a loop over all records that stores k in every round stands for a store of k
        self.whole = whole = {k: set() for k in self.keys}
        if self.d > 0:
            over = [(h, body) for h, body in cfg.loops.items() if self.over_records(h, body)]
            for k in self.keys:
                n = -1
                while n != len(whole[k]):
                    n = len(whole[k])
                    for h, body in over:
                        inner = (cover[k] | whole[k]) & body - {h}
                        if h not in whole[k] and inner and not self.path([s for s in cfg.succ[h] if s in body and self.normal(h, s)], {h} | self.breaks(h, body), inner, body):
                            whole[k].add(h)
        self.made = self.made or bool(create) or any(x[2] == self.d for x in grown)
        self.cleared = {k for i, k in clears}
        for i, k in clears:
            b = i.block.name
            if self.later(i, k) or b in self.goals and self.d > 0:
                continue
            if self.path([s for s in cfg.succ[b] if self.normal(b, s)], (self.goals | {b}) - cover[k] - whole[k], cover[k] | whole[k], None):
                self.problems.append((i, "the record loses %s here and is left without it" % k, 'loses %s' % k))
        for i, key in create:
            self.creations += 1
            b = i.block.name
            hs = [h for h, body in cfg.loops.items() if b in body]
            start = [min(hs, key=lambda h: len(cfg.loops[h]))] if hs else [f.entry.name]
            for k in sorted(self.keys - {key}):
                cov = cover[k] | whole[k]
                if b in cover[k]:
                    continue
                if self.path(start, {b}, cov, None) and self.path([s for s in cfg.succ[b] if self.normal(b, s)], self.goals - cov, cov, None):
                    self.problems.append((i, "the record gets %s here but can be left without %s" % (key, k), '%s without %s' % (key, k)))
        for i, got, level in grown:
            self.creations += 1
            b = i.block.name
            for k in sorted(self.keys - got):
                cov = whole[k] | (cover[k] if level == self.d else set())
                if b in cov:
                    continue
                if self.path([s for s in cfg.succ[b] if self.normal(b, s)], self.goals - cov, cov, None):
                    self.problems.append((i, "the records come with %s and can be answered without %s" % (', '.join(sorted(got)) or 'nothing', k), 'lacks %s' % k))

    def later(self, i, k):
        """k is stored further down in the block of i"""
        for j in i.block.insts[i.idx + 1:]:
            if j.op == 'store' and any(depth_of(r, self.root, self.d) == k for r in self.ctx.RK.pts_of(self.info, j.ops[1])):
                return True
        return False

    def cleared_keys(self, i, n, clears):
        if n.base == 'erase' and len(i.args) > 1:
            e = iters.keyexpr(self.ctx.RK, self.f, i.args[1])
            if e[0] == 'lit':
                if e[1] in self.keys:
                    clears.append((i, e[1]))
                return
        for k in sorted(self.keys):
            clears.append((i, k))

    def normal(self, b, s):
        """an edge on which there may be records"""
        t = self.f.blocks[b].insts[-1]
        if t.op == 'br' and len(t.labels) == 2 and t.labels[0] != t.labels[1]:
            x = self.emptiness(t.ops[0])
            return x is None or s != t.labels[0 if x else 1]
        return t.op != 'invoke' or s != t.unwind

    def emptiness(self, v, depth=0):
        """truth of v when there are no records; None: says nothing"""
        d = self.f.defs.get(v) if isinstance(v, str) else None
        if d is None or depth > 6:
            return None
        if d.op in ('zext', 'trunc', 'freeze'):
            return self.emptiness(d.ops[0], depth + 1)
        if d.op == 'xor' and d.ops[1] in ('true', '1', '-1'):
            x = self.emptiness(d.ops[0], depth + 1)
            return None if x is None else not x
        if d.op in ('call', 'invoke') and d.callee:
            n = iters.cname(self.ctx, d)
            if n is not None and n.base == 'empty' and self.above(d):
                return True
        if d.op == 'icmp':
            a, c, p = d.ops[0], d.ops[1], d.pred
            if a in ('0', '1') and not c.isdigit():
                a, c, p = c, a, {'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge'}.get(p, p)
            x = self.f.defs.get(a)
            while x is not None and x.op in ('zext', 'trunc', 'freeze'):
                x = self.f.defs.get(x.ops[0])
            if x is not None and x.op in ('call', 'invoke') and x.callee:
                n = iters.cname(self.ctx, x)
                if n is not None and n.base == 'size' and self.above(x):
                    return {('eq', '0'): True, ('ne', '0'): False, ('ugt', '0'): False, ('ult', '1'): True, ('uge', '1'): False, ('ule', '0'): True}.get((p, c))
                if n is not None and n.base == 'empty' and c == '0' and p in ('eq', 'ne'):
                    y = self.emptiness(a, depth + 1)
                    return None if y is None else y if p == 'ne' else not y
            if p in ('eq', 'ne') and c in ('0', 'false'):
                y = self.emptiness(a, depth + 1)
                return None if y is None else y if p == 'ne' else not y
        return None

    def above(self, d):
        """the receiver contains the records"""
        rs = self.ctx.RK.pts_of(self.info, d.args[-1])
        return bool(rs) and all(r[0] == self.root and len(r[1]) < self.d and not r[1] for r in rs)

    def path(self, starts, goals, avoid, within):
        seen = set()
        st = [s for s in starts if s not in avoid]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            if b in goals:
                return True
            for s in self.cfg.succ[b]:
                if s in avoid and s not in goals or not self.normal(b, s) or within is not None and s not in within:
                    continue
                if s in goals:
                    return True
                st.append(s)
        return False

    def blank(self, i):
        """default construction"""
        n = iters.cname(self.ctx, i) if i.op in ('call', 'invoke') else None
        return n is None or len(i.args) <= 1

    def supplied(self, i, level):
        """keys the records of an assigned value have; None: all (unknown source)"""
        if i.op not in ('call', 'invoke') or len(i.args) < 2:
            return None
        for r in self.ctx.RK.pts_of(self.info, i.args[1]):
            if r[0].startswith('L') and not r[1]:
                return self.local(r[0], self.d - level, i)
        return None

    def local(self, l, d, i):
        """keys of the records of a local value when it is handed on by instruction i"""
        if (self.f.name, l, d) in self.stack:
            return None
        evs = [e for e in self.info.events if e.region[0] == l and e.rw == 'W' and e.kind != 'destroy' and e.inst.block.name in self.cfg.reach]
        b = i.block.name
        R = Records(self.ctx, self.f, l, d, self.keys, self.schema, goals={b}, stack=self.stack)
        if d == 0:
            if not R.made:
                return None
            starts = [e.inst.block.name for e in evs if e.kind == 'construct' and not e.region[1] and self.blank(e.inst)] or [self.f.entry.name]
            starts += [e.inst.block.name for e in evs if e.kind == 'clear' and not e.region[1]]
            got = set()
            for k in self.keys:
                cov = R.cover[k]
                if b in cov or not any(s not in cov and self.path([x for x in self.cfg.succ[s] if self.normal(s, x)] if s != b else [b], {b}, cov, None) for s in starts):
                    got.add(k)
            return got
        if not R.creations:
            return None
        lost = {key.split()[-1] for x, m, key in R.problems}
        return self.keys - lost if lost else None

    def breaks(self, h, body):
        """blocks that leave the loop other than by the iterator having reached the end"""
        out = set()
        for b in body:
            t = self.f.blocks[b].insts[-1]
            if not any(s not in body and self.normal(b, s) and self.path([s], self.goals, set(), None) for s in self.cfg.succ[b]):
                continue
            d = self.f.defs.get(t.ops[0]) if t.op == 'br' and len(t.labels) == 2 else None
            while d is not None and d.op in ('xor', 'zext', 'trunc', 'freeze'):
                d = self.f.defs.get(d.ops[0])
            if d is not None and d.op in ('call', 'invoke') and d.callee:
                n = iters.cname(self.ctx, d)
                if n is not None and n.base in ('operator!=', 'operator==') and any(r[0] == self.root and len(r[1]) <= self.d for a in d.args for r in self.ctx.RK.cont_of(self.info, self.ctx.RK.pts_of(self.info, a))):
                    continue
            if b != h:
                out.add(b)
        return out

    def over_records(self, h, body):
        """the loop steps an iterator through the records, or through what holds them"""
        nested = {b for g, x in self.cfg.loops.items() if g != h and g in body and h not in x for b in x}
        for b in body - nested:
            for i in self.f.blocks[b].insts:
                if i.op in ('call', 'invoke') and i.callee and i.args:
                    n = iters.cname(self.ctx, i)
                    if n is not None and n.base == 'operator++':
                        rs = self.ctx.RK.pts_of(self.info, i.args[0])
                        if any(r[0] == self.root and 0 < len(r[1]) <= self.d for r in self.ctx.RK.cont_of(self.info, rs)):
                            return True
        return False


SCHEMA = {
    'getXRayLinesFromVacancyDistribution': {'rate', 'energy'},
    'getPhotoelectricExcitationFactors': {'rate', 'energy', 'factor'},
    'getExcitationFactors': {'rate', 'energy', 'factor'},
    'getEscape': {'rate', 'energy'}}
FLAT = {'energy', 'coherent', 'compton', 'pair', 'photoelectric', 'total'}
# (class, function, vector<double> result or map) -> depth of the record below the result, fields
TABLE = [
    ('Element', 'getXRayLinesFromVacancyDistribution', None, 1, {'rate', 'energy'}),
    ('Element', 'getPhotoelectricExcitationFactors', 'map', 1, {'rate', 'energy', 'factor'}),
    ('Elements', 'getEscape', None, 1, {'rate', 'energy'}),
    ('XRF', 'getMultilayerFluorescence', None, 3, {'rate', 'energy', 'primary', 'secondary'}),
]


def producers(ctx):
    for f in sorted(ctx.M.functions.values(), key=lambda x: x.name):
        n = ctx.name(f)
        for cls, base, kind, d, keys in TABLE:
            if n.cls == cls and n.base == base:
                if kind == 'map' and n.params and 'vector' in n.params[0]:
                    continue
                yield f, d, keys
