"""Every interaction process keeps its own coefficients and the totals add all of them, each once.

For every function, every store into a record entry (operator[] with a text key, a vector entry addressed through a label-to-index map,
the positional arrays of setMassAttenuationCoefficients) is followed backwards through arithmetic, local vectors and scalars to the
record entries it is computed from.  Loops over all keys are handled by fixing the key to each literal in turn and deciding the
comparisons of text with literals."""
from ..core import Result
from .. import iters

SHELLS = ('K', 'L1', 'L2', 'L3', 'M1', 'M2', 'M3', 'M4', 'M5', 'all other')
BASE = ('coherent', 'compton', 'pair')
PARTS = BASE + ('photoelectric',)
PROC = PARTS + ('total',)
UNI = PROC + SHELLS + ('energy',)
# position of each process among the table arguments of setMassAttenuationCoefficients (the grid comes first, pair is optional)
ORDER = ('energy', 'photoelectric', 'coherent', 'compton', 'pair')
COMPONENTS = {frozenset(PARTS), frozenset(BASE + SHELLS)}
# where beams are attenuated: only the total may be used there
ATTENUATE = ('Layer', 'Detector', 'XRF')


class Fn:
    def __init__(self, ctx, f):
        self.ctx = ctx; self.f = f
        self.cfg = ctx.F.cfg(f)
        self.info = ctx.RK.infos[f.name]
        n = ctx.name(f)
        self.order = {}
        if n.base == 'setMassAttenuationCoefficients':
            vec = [p for p, t in zip(f.params[1:], n.params) if 'std::vector' in t]
            self.order = dict(zip(vec, ORDER))
        self._live = {}
        self.allocas = {i.res for i in f.insts() if i.op == 'alloca'}

    # ---------------------------------------------------------------- keys of cells
    def cname(self, i):
        return iters.cname(self.ctx, i)

    def lit_of(self, ptr):
        """literal key in the region of a pointer"""
        out = set()
        for r in self.ctx.RK.pts_of(self.info, ptr):
            ks = [x[1:-1] for x in r[1] if len(x) > 2 and x[0] == '[']
            if len(ks) != 1:
                return None
            out.add(ks[0])
        return out.pop() if len(out) == 1 else None

    def cell(self, v, depth=0, seen=frozenset()):
        """{('lit', k) | ('dyn', key text variable) | ('loc', alloca) | ('?',)} entry a pointer addresses"""
        f = self.f
        if v in self.order:
            return {('lit', self.order[v])}
        if v in self.allocas:
            return {('loc', v)}
        d = f.defs.get(v)
        if d is None or depth > 12 or v in seen:
            return {('?',)}
        seen = seen | {v}
        if d.op == 'getelementptr':
            if d.extra and 'struct.std::pair<' in d.extra or d.extra and 'struct.std::pair"' in d.extra or d.extra and d.extra.startswith('%"struct.std::pair'):
                k = self.lit_of(v)
                if k is not None:
                    return {('lit', k)}
                return {('dyn', 'it')}
            return self.cell(d.ops[0], depth + 1, seen)
        if d.op in ('phi', 'select'):
            out = set()
            for o in (d.ops if d.op == 'phi' else d.ops[1:]):
                out |= self.cell(o, depth + 1, seen)
            return out
        if d.op in ('call', 'invoke') and d.args:
            n = self.cname(d)
            if n is None:
                return {('?',)}
            if n.base in ('operator[]', 'at') and n.cls in ('map', 'unordered_map'):
                k = iters.keyexpr(self.ctx, f, d.args[1])
                if k[0] == 'lit':
                    return {('lit', k[1])}
                inner = self.cell(d.args[0], depth + 1, seen)
                if any(c[0] == 'lit' for c in inner):
                    return inner
                return {('dyn', 'key')}
            if n.base in ('operator[]', 'at') and n.cls in ('vector', 'array', 'deque'):
                k = self.index_label(d.args[1])
                if k is not None:
                    return {k}
                return self.cell(d.args[0], depth + 1, seen)
            if n.base in ('front', 'back', 'begin', 'end', 'data', 'operator*', 'operator->', 'operator+', 'operator-', 'cbegin', 'cend'):
                k = self.lit_of(v)
                if k is not None:
                    return {('lit', k)}
                return self.cell(d.args[0], depth + 1, seen) if n.cls in ('vector', 'array') else {('?',)}
        return {('?',)}

    def index_label(self, v, depth=0):
        """label when an index is read from a text -> index map"""
        d = self.f.defs.get(v)
        while d is not None and d.op in ('sext', 'zext', 'trunc') and depth < 4:
            d = self.f.defs.get(d.ops[0]); depth += 1
        if d is not None and d.op == 'load':
            p = self.f.defs.get(d.ops[0])
            if p is not None and p.op in ('call', 'invoke'):
                n = self.cname(p)
                if n is not None and n.base in ('operator[]', 'at') and n.cls == 'map':
                    k = iters.keyexpr(self.ctx, self.f, p.args[1])
                    return ('lit', k[1]) if k[0] == 'lit' else ('dyn', 'label')
            if p is not None and p.op == 'getelementptr' and p.extra and 'struct.std::pair' in p.extra:
                return ('dyn', 'it')
        return None

    # ---------------------------------------------------------------- loops over keys
    def live(self, k):
        """blocks reachable when every text compared with process names equals k"""
        if k in self._live:
            return self._live[k]
        f = self.f
        seen = set()
        st = [f.entry.name]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            t = f.blocks[b].insts[-1]
            nxt = list(self.cfg.succ[b])
            if t.op == 'br' and len(t.labels) == 2:
                v = self.decide(t.ops[0], k)
                if v is not None:
                    nxt = [t.labels[0 if v else 1]]
            st.extend(nxt)
        self._live[k] = seen
        return seen

    def decide(self, v, k, depth=0):
        d = self.f.defs.get(v)
        if d is None or depth > 5:
            return None
        if d.op == 'xor' and d.ops[1] in ('true', '1', '-1'):
            x = self.decide(d.ops[0], k, depth + 1)
            return None if x is None else not x
        if d.op in ('call', 'invoke') and d.callee:
            n = self.cname(d)
            if n is not None and n.base in ('operator==', 'operator!=') and len(d.args) == 2:
                for a in d.args:
                    s = iters.keyexpr(self.ctx, self.f, a)
                    if s[0] == 'lit' and s[1] in UNI:
                        return (s[1] == k) == (n.base == 'operator==')
        return None

    def keys_at(self, b):
        """keys a loop over all keys can have here"""
        return frozenset(k for k in UNI if b in self.live(k))

    def narrow(self, atoms, b):
        ks = self.keys_at(b)
        return {('dyn', a[1] & ks) if a[0] == 'dyn' else a for a in atoms}

    @staticmethod
    def flat(atoms):
        out = set()
        for a in atoms:
            if a[0] == 'lit':
                out.add(a[1])
            elif a[0] == 'dyn' and len(a[1]) < len(UNI):
                out |= a[1]
        return out

    # ---------------------------------------------------------------- values
    def atoms(self, v, at, seen=frozenset(), depth=0):
        """entries a number is computed from: {('lit', k), ('?',)}; loops over keys are expanded"""
        f = self.f
        if not isinstance(v, str) or not v.startswith('%'):
            return set()
        d = f.defs.get(v)
        if d is None:
            return {('?',)} if v in f.params else set()
        if v in seen or depth > 60:
            return set()
        seen = seen | {v}
        op = d.op
        if op == 'load':
            return self.loaded(d.ops[0], d, seen, depth)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'freeze', 'fpext', 'fptrunc', 'phi', 'select'):
            out = set()
            for o in (d.ops if op != 'select' else d.ops[1:]):
                out |= self.atoms(o, at, seen, depth + 1)
            return out
        if op in ('sitofp', 'uitofp'):
            return set()
        if op in ('call', 'invoke') and d.callee:
            g = self.ctx.M.resolve(d.callee)
            if g is None:
                out = set()
                for a, t in zip(d.args, d.argtys):
                    if t == 'double':
                        out |= self.atoms(a, at, seen, depth + 1)
                    elif t == 'ptr':
                        n = self.cname(d)
                        if n is not None and n.base in ('max', 'min', 'inner_product', 'accumulate'):
                            out |= self.loaded(a, d, seen, depth)
                return out
            return {('?',)}
        return {('?',)}

    def loaded(self, ptr, at, seen, depth):
        out = set()
        for c in self.cell(ptr):
            if c[0] == 'dyn':
                out.add(('dyn', self.keys_at(at.block.name)))
            elif c[0] == 'loc':
                out |= self.local(c[1], at, seen, depth + 1)
            else:
                out.add(c)
        return out

    def local(self, l, at, seen, depth):
        """what a local number or vector holds before `at`"""
        if ('L', l, id(at)) in seen or depth > 40:
            return set()
        seen = seen | {('L', l, id(at))}
        cfg = self.cfg
        w = []
        kills = []
        esc = False
        for i in self.f.insts():
            if i.block.name not in cfg.reach:
                continue
            if i.op == 'store':
                if ('loc', l) in self.cell(i.ops[1]):
                    w.append((i, 'v', i.ops[0]))
            elif i.op in ('call', 'invoke') and i.callee:
                hit = [k for k, a in enumerate(i.args) if isinstance(a, str) and any(r[0] == 'L' + l for r in self.ctx.RK.pts_of(self.info, a))]
                if not hit or i.callee.startswith('llvm.'):
                    continue
                n = self.cname(i)
                g = self.ctx.M.resolve(i.callee)
                if g is not None:
                    for k in hit:
                        if 'sret' in i.argattrs[k] or not self.const_param(g, k):
                            w.append((i, '?', None)); kills.append(i)
                    continue
                if n is None:
                    continue
                if hit == [0] or hit == [0, 1]:
                    if n.base in ('operator=', n.cls) and len(i.args) > 1 and i.argtys[1] == 'ptr' and n.params and ('vector' in n.params[0] or 'map' in n.params[0]):
                        w.append((i, 'p', i.args[1])); kills.append(i)
                    elif n.base == n.cls or n.base in ('clear',):
                        kills.append(i)
                        if len(i.args) > 2 and i.argtys[2] == 'ptr':
                            w.append((i, 'p', i.args[2]))
                    elif n.base in ('push_back', 'emplace_back'):
                        w.append((i, 'p', i.args[1]))
                    elif n.base == 'resize' and len(i.args) > 2:
                        w.append((i, 'p', i.args[2]))
                    elif n.base in ('insert', 'assign', 'swap'):
                        w.append((i, '?', None))
                if n.base == 'fill':
                    if i.args[-1] != l:
                        kills.append(i)
                        w.append((i, 'p', i.args[-1]))
                elif n.base in ('copy', 'transform'):
                    w.append((i, '?', None))
        out = set()
        for i, kind, s in w:
            if i is not at and not (i.block is at.block and i.idx < at.idx) and at.block.name not in cfg._reach(cfg.succ[i.block.name]):
                continue
            dead = any(x is not i and cfg.idominates(x, at) and not self.after(x, i) for x in kills)
            if dead:
                continue
            if kind == '?':
                out.add(('?',))
            elif kind == 'v':
                out |= self.narrow(self.atoms(s, i, seen, depth + 1), i.block.name)
            else:
                for c in self.cell(s):
                    if c == ('loc', l):
                        continue
                    if c[0] == 'loc':
                        out |= self.narrow(self.local(c[1], i, seen, depth + 1), i.block.name)
                    elif c[0] == 'dyn':
                        out.add(('dyn', self.keys_at(i.block.name)))
                    else:
                        out.add(c)
        return out

    def after(self, x, i):
        """instruction i can run after x"""
        if x.block is i.block and x.idx < i.idx:
            return True
        return i.block.name in self.cfg._reach(self.cfg.succ[x.block.name])

    def const_param(self, g, k):
        ps = self.ctx.name(g).params
        off = 1 if g.params and g.params[0] and len(g.params) > len(ps) else 0
        try:
            return ps[k - off].rstrip('&').rstrip().endswith('const') or '&' not in ps[k - off] and '*' not in ps[k - off]
        except IndexError:
            return True

    def linear(self, v, sign=1, depth=0):
        """[(sign, atoms)] summands of a number"""
        d = self.f.defs.get(v) if isinstance(v, str) else None
        if d is not None and depth < 30:
            if d.op == 'fadd':
                return self.linear(d.ops[0], sign, depth + 1) + self.linear(d.ops[1], sign, depth + 1)
            if d.op == 'fsub':
                return self.linear(d.ops[0], sign, depth + 1) + self.linear(d.ops[1], -sign, depth + 1)
            if d.op == 'call' and (d.callee or '').startswith('llvm.fmuladd'):
                return [(sign, self.atoms(d.args[0], d) | self.atoms(d.args[1], d))] + self.linear(d.args[2], sign, depth + 1)
            if d.op == 'fneg':
                return self.linear(d.ops[0], -sign, depth + 1)
        return [(sign, self.atoms(v, d) if d is not None else set())]


def scattered(ctx, f, i):
    """one entry of the coherent table scales a rate (the sample scatters the beam): it is only multiplied"""
    for u in f.uses.get(i.res, []):
        if u.op not in ('call', 'invoke'):
            return False
        n = iters.cname(ctx, u)
        if n is None or n.base not in ('back', 'operator[]', 'at', 'front') or n.cls != 'vector':
            return False
        for w in f.uses.get(u.res, []):
            if w.op != 'load' or any(x.op != 'fmul' for x in f.uses.get(w.res, [])):
                return False
    return True


def run(ctx):
    res = Result()
    res.rule = ("backward slice, through arithmetic, local numbers and vectors, of every value stored in an entry of a mass attenuation record: coherent, compton and pair come from "
                "their own process only; photoelectric from photoelectric or from all ten shells (or total minus the others); total from coherent, compton, pair and photoelectric, "
                "each once and added; tables are handed over in the position of their process; beams are attenuated by the total only")
    for f in sorted(ctx.M.functions.values(), key=lambda x: x.name):
        lits = set()
        F = None
        for i in f.insts():
            if i.op in ('call', 'invoke') and i.args and len(i.args) > 1:
                n = iters.cname(ctx, i)
                if n is not None and n.base in ('operator[]', 'find', 'at') and n.cls in ('map', 'unordered_map'):
                    k = iters.keyexpr(ctx, f, i.args[1])
                    if k[0] == 'lit' and k[1] in PROC:
                        lits.add(k[1])
                        if ctx.name(f).cls in ATTENUATE or ctx.name(f).base in ('getEscape', 'updateEscapeCache'):
                            res.count('attenuation_uses'); res.count('obligations')
                            if k[1] != 'total' and not (k[1] == 'coherent' and scattered(ctx, f, i)):
                                res.add('attenuation', ctx.short(f), k[1], i.where(), "the attenuation of a beam uses the %s coefficient instead of the total" % k[1])
                g = ctx.M.resolve(i.callee) if i.callee else None
                if g is not None and ctx.name(g).base == 'setMassAttenuationCoefficients':
                    F = F or Fn(ctx, f)
                    ps = ctx.name(g).params
                    off = len(i.args) - len(ps)
                    vec = [a for a, t in zip(i.args[off:], ps) if 'std::vector' in t]
                    for a, k in zip(vec, ORDER):
                        cs = {c for c in F.cell(a) if c[0] == 'lit' and c[1] in UNI}
                        if cs:
                            res.count('tables_passed'); res.count('obligations')
                            if cs != {('lit', k)}:
                                res.add('position', ctx.short(f), k, i.where(), "the table of %s is handed over as the one of %s" % (' or '.join(sorted(c[1] for c in cs)), k))
        F = F or Fn(ctx, f)
        if not lits and not F.order:
            continue
        res.count('functions')
        per = {}
        stored = {}
        looped = {}
        literal = {}
        for i in f.insts():
            if i.block.name not in F.cfg.reach:
                continue
            if i.op == 'store' and i.ty == 'double' or i.op == 'store' and isinstance(i.ops[0], str) and i.ops[0] in f.defs and f.defs[i.ops[0]].ty == 'double':
                tgt, val, kind = i.ops[1], i.ops[0], 'v'
            elif i.op in ('call', 'invoke') and i.args and len(i.args) > 1:
                n = iters.cname(ctx, i)
                if n is None or n.base != 'operator=' or n.cls != 'vector':
                    continue
                tgt, val, kind = i.args[0], i.args[1], 'p'
            else:
                continue
            cells = F.cell(tgt)
            for c in cells:
                if c[0] == 'lit' and c[1] in PROC + SHELLS:
                    Ts = [c[1]]; dyn = False
                    literal.setdefault(container_id(F, tgt), set()).add(c[1])
                elif c[0] == 'dyn':
                    ks = F.keys_at(i.block.name)
                    rec = container_id(F, tgt)
                    stored.setdefault(rec, set()).update(ks)
                    hs = [h for h, body in F.cfg.loops.items() if i.block.name in body]
                    if hs:
                        x = looped.setdefault((rec, min(hs, key=lambda h: len(F.cfg.loops[h]))), [set(), i])
                        x[0] |= ks
                    if len(ks) > 6:
                        continue
                    Ts = sorted(ks); dyn = True
                else:
                    continue
                src = F.narrow(F.atoms(val, i) if kind == 'v' else F.loaded(val, i, frozenset(), 0), i.block.name)
                for T in Ts:
                    got = F.flat(src)
                    unk = ('?',) in src or any(a[0] == 'dyn' and len(a[1]) == len(UNI) for a in src)
                    if dyn and any(a[0] == 'dyn' for a in src):
                        got = {T}
                    rec = container_id(F, tgt)
                    per.setdefault((T, rec), []).append((i, got & set(UNI), unk, kind, val))
        for (T, rec), L in sorted(per.items(), key=lambda x: (x[0][0], str(x[0][1]))):
            if T == 'energy':
                continue
            res.count('entries'); res.count('stores', len(L))
            union = set().union(*[x[1] for x in L]) - {'energy'}
            unk = any(x[2] for x in L)
            res.count('obligations')
            if T in BASE:
                for i, got, u, kind, val in L:
                    bad = got - {T, 'energy'}
                    if bad and not (got & {T} and False):
                        res.add('own', ctx.short(f), '%s from %s' % (T, '+'.join(sorted(bad))), i.where(), "the %s entry is computed from %s" % (T, ' and '.join(sorted(bad))))
            elif T == 'photoelectric':
                for i, got, u, kind, val in L:
                    got = got - {'energy'}
                    ok = got <= {'photoelectric'} or got == set(SHELLS) or 'total' in got and not got & set(SHELLS) and got >= {'total', 'coherent', 'compton'} \
                        or got - {'photoelectric'} == set(SHELLS)
                    if not ok and not u:
                        part = got & set(SHELLS)
                        miss = set(SHELLS) - got
                        res.add('photoelectric', ctx.short(f), '+'.join(sorted(got)), i.where(),
                                "the photoelectric entry %s" % ("leaves out the shells %s" % ', '.join(sorted(miss)) if part and not got - set(SHELLS) - {'photoelectric'} else
                                                                "is computed from %s" % ', '.join(sorted(got))))
                    elif not ok and got & set(BASE) and 'total' not in got:
                        res.add('photoelectric', ctx.short(f), '+'.join(sorted(got)), i.where(), "the photoelectric entry is computed from %s" % ', '.join(sorted(got)))
            elif T == 'total':
                got = union - {'total'}
                if not unk and union and union != {'total'} and frozenset(got) not in COMPONENTS and got != set(PARTS) | set(SHELLS):
                    i = L[-1][0]
                    miss = set(PARTS) - got
                    if got & set(SHELLS):
                        miss -= {'photoelectric'}
                        miss |= set(SHELLS) - got
                    res.add('total', ctx.short(f), 'lacks ' + '+'.join(sorted(miss)), i.where(), "the total leaves out %s" % ', '.join(sorted(miss)))
            else:
                for i, got, u, kind, val in L:
                    bad = got & (set(BASE) | {'total'})
                    if bad and 'photoelectric' not in got:
                        res.add('own', ctx.short(f), '%s from %s' % (T, '+'.join(sorted(bad))), i.where(), "the %s shell entry is computed from %s" % (T, ' and '.join(sorted(bad))))
            stored.setdefault(rec, set()).add(T)
            # each summand once, with its sign
            if T in ('total', 'photoelectric'):
                for i, got, u, kind, val in L:
                    if kind != 'v':
                        continue
                    terms = F.linear(val)
                    seen = {}
                    for s, at in terms:
                        ks = F.flat(at) - {'energy'}
                        if len(ks) != 1:
                            continue
                        k = ks.pop()
                        res.count('summands'); res.count('obligations')
                        if k == T:
                            continue        # accumulated
                        if k in seen:
                            res.add('twice', ctx.short(f), '%s in %s' % (k, T), i.where(), "%s is counted twice in the %s entry" % (k, T))
                        seen[k] = s
                    if T == 'total' or set(seen) <= set(SHELLS):
                        for k, s in seen.items():
                            if s < 0:
                                res.add('sign', ctx.short(f), '%s in %s' % (k, T), i.where(), "%s is subtracted in the %s entry" % (k, T))
                    elif 'total' in seen:
                        for k, s in seen.items():
                            if (s < 0) == (k == 'total'):
                                res.add('sign', ctx.short(f), '%s in %s' % (k, T), i.where(), "%s has the wrong sign in the photoelectric entry" % k)
            res.sample("%s %s" % (ctx.short(f), T))
        # an entry the total reads must have been filled like its siblings
        for (T, rec), L in sorted(per.items(), key=str):
            have = stored.get(rec, set()) & set(BASE)
            if T != 'total':
                continue
            for i, got, u, kind, val in (L if have and have != set(BASE) else ()):
                for k in sorted(got & set(BASE) - have):
                    res.add('absent', ctx.short(f), k, i.where(), "the total reads the %s entry, which nothing in this function fills although %s is filled" % (k, ' and '.join(sorted(have))))
            for (r, h), (ks, i) in sorted(looped.items(), key=str):
                have = ks & set(BASE)
                if r != rec or not have or have == set(BASE):
                    continue
                for k in sorted(set(BASE) - have - literal.get(rec, set())):
                    other = [h2 for (r2, h2), (ks2, _) in looped.items() if r2 == rec and k in ks2 and h2 != h and
                             (h2 in F.cfg._reach(F.cfg.succ[h]) or h in F.cfg._reach(F.cfg.succ[h2]))]
                    if k in got_all(L) and not other:
                        res.add('absent', ctx.short(f), k, i.where(), "the loop over the processes fills %s but not %s, which the total reads" % (' and '.join(sorted(have)), k))
        # sibling processes accumulate alike
        byloop = {}
        for (T, rec), L in per.items():
            if T not in PARTS:
                continue
            for i, got, u, kind, val in L:
                if kind != 'v':
                    continue
                hs = [h for h, body in F.cfg.loops.items() if i.block.name in body]
                if not hs or not got:
                    continue
                h = min(hs, key=lambda h: len(F.cfg.loops[h]))
                byloop.setdefault((rec, h), []).append((T, i, accumulates(F, val, rec)))
        for (rec, h), L in sorted(byloop.items(), key=str):
            if len({x[0] for x in L}) < 3:
                continue
            res.count('accumulations', len(L)); res.count('obligations')
            yes = {x[0] for x in L if x[2]}
            no = {x[0] for x in L if not x[2]}
            if yes and no and not yes & no:
                less = no if len(no) <= len(yes) else yes
                for T, i, a in L:
                    if T in less:
                        res.add('accumulate', ctx.short(f), T, i.where(), "the %s entry %s in a loop where the other processes %s" %
                                ((T, 'is overwritten', 'are accumulated') if less is no else (T, 'is accumulated', 'are assigned')))
    res.need('functions', 5); res.need('summands', 8); res.need('tables_passed', 3); res.need('attenuation_uses', 5)
    return res


def got_all(L):
    return set().union(*[x[1] for x in L])


def accumulates(F, v, rec, depth=0):
    d = F.f.defs.get(v) if isinstance(v, str) else None
    if d is None or depth > 20:
        return False
    if d.op in ('fadd', 'fsub'):
        return any(accumulates(F, o, rec, depth + 1) for o in d.ops)
    if d.op == 'call' and (d.callee or '').startswith('llvm.fmuladd'):
        return accumulates(F, d.args[2], rec, depth + 1)
    return d.op == 'load' and container_id(F, d.ops[0]) == rec and depth > 0


def container_id(F, ptr, depth=0):
    """which record a cell belongs to (roots of its region)"""
    return tuple(sorted({r[0] + '.' + '.'.join(x for x in r[1] if not x.startswith('[')) for r in F.ctx.RK.pts_of(F.info, ptr)}))
