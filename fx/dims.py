"""Dimensional analysis: linear constraints over the exponents of physical dimensions, one polymorphic summary per function."""
import math
import re
from fractions import Fraction
from .absint import value_const
from .regions import Regions, ext
from . import stl, iters

BASE = ('keV', 'g', 'cm', 'deg')
ZERO = (Fraction(0),) * 4
KEV = (1, 0, 0, 0)
CM = (0, 0, 1, 0)
CM2 = (0, 0, 2, 0)
DENS = (0, 1, -3, 0)
MU = (0, -1, 2, 0)
DEG = (0, 0, 0, 1)
ONE = (0, 0, 0, 0)


def dstr(d):
    out = []
    for b, e in zip(BASE, d):
        if e:
            out.append(b if e == 1 else '%s^%s' % (b, e))
    return ' '.join(out) or 'no dimension'


class Contradiction(Exception):
    pass


def vadd(a, b, k=1):
    return tuple(x + k * y for x, y in zip(a, b))


class System:
    """rows: pivot -> ({var: coeff}, const): pivot = sum coeff*var + const"""

    def __init__(self, interface):
        self.rows = {}
        self.interface = interface

    def reduce(self, lin, const):
        """substitute pivots"""
        rows = self.rows
        out = {}
        c = const
        work = list(lin.items())
        while work:
            v, k = work.pop()
            if not k:
                continue
            r = rows.get(v)
            if r is None:
                t = out.get(v, 0) + k
                if t:
                    out[v] = t
                else:
                    out.pop(v, None)
            else:
                r = self.row(v)
                c = vadd(c, r[1], k)
                for w, q in r[0].items():
                    t = out.get(w, 0) + k * q
                    if t:
                        out[w] = t
                    else:
                        out.pop(w, None)
        return out, c

    def row(self, v):
        """row of pivot v, free of pivots"""
        lin, c = self.rows[v]
        if any(w in self.rows for w in lin):
            # iterative deepening keeps recursion short: rows refer to later pivots only
            out = {}
            for w, q in lin.items():
                if w in self.rows:
                    rl, rc = self.row(w)
                    c = vadd(c, rc, q)
                    for x, y in rl.items():
                        out[x] = out.get(x, 0) + q * y
                else:
                    out[w] = out.get(w, 0) + q
            lin = {x: y for x, y in out.items() if y}
            self.rows[v] = (lin, c)
        return self.rows[v]

    def eq(self, lin, const):
        """sum lin*var = const"""
        out, c = self.reduce(lin, tuple(-Fraction(x) for x in const))
        # sum out + c = 0
        if not out:
            if any(c):
                raise Contradiction(dstr(c))
            return
        piv = None
        for v in out:
            if not self.interface(v):
                piv = v
                break
        if piv is None:
            piv = min(out, key=repr)
        k = out.pop(piv)
        self.rows[piv] = ({w: Fraction(-q) / k for w, q in out.items()}, tuple(-x / k for x in c))

    def value(self, v):
        """dimension of a variable when it is determined"""
        out, c = self.reduce({v: Fraction(1)}, ZERO)
        return None if out else c


def norm(r):
    return norm_cached(r)


def norm_cached(r, memo={}):
    if r not in memo:
        if len(memo) > 200000:
            memo.clear()
        memo[r] = norm0(r)
    return memo[r]


def norm0(r):
    p = r[1]
    out = []
    for x in p:
        if x == 'second' and out and out[-1][0] == '[':
            continue
        out.append(x)
    return (r[0], tuple(out))


FIELDS = {
    'energy': KEV, 'weight': ONE, 'density': DENS, 'thickness': CM, 'defaultDensity': DENS, 'defaultThickness': CM, 'diameter': CM, 'distance': CM,
    'escapePeakEnergyThreshold': KEV, 'escapePeakIntensityThreshold': ONE, 'escapePeakAlphaIn': DEG, 'alphaIn': DEG, 'alphaOut': DEG, 'scatteringAngle': DEG,
    'bindingEnergy': KEV, 'muEnergy': KEV, 'muPartialPhotoelectricEnergy': KEV, 'muPartialPhotoelectricValue': MU, 'funnyFactor': ONE,
    'radiativeTransitions': ONE, 'nonradiativeTransitions': ONE, 'augerRatios': ONE, 'costerKronigRatios': ONE, 'fluorescenceRatios': ONE, 'composition': ONE,
    'transmissionTable': ONE, 'detectorCompositionUsedInCache': ONE, 'detectorEnergyThresholdUsedInCache': KEV, 'detectorIntensityThresholdUsedInCache': ONE,
    'detectorAlphaInUsedInCache': DEG, 'detectorThicknessUsedInCache': (0, 1, -2, 0), 'shellConstants': ONE,
    'muCoherent': MU, 'muCompton': MU, 'muPhotoelectric': MU, 'muPair': MU, 'muTotal': MU,
}
# what a record contains, by where it is kept or which function answers it
MUR = {'[rate]': MU, '[factor]': ONE}
RECORDS = {'excitationFactorsCache': MUR, 'cascadeCache': {'[rate]': ONE}, 'detectorEscapeCache': {'[rate]': ONE}, 'escapePeakCache': {'[rate]': ONE}}
ANSWERS = {'getExcitationFactors': MUR, 'getPhotoelectricExcitationFactors': MUR, 'getXRayLinesFromVacancyDistribution': {'[rate]': ONE}, 'getXRayLines': {'[rate]': ONE},
           'getEscape': {'[rate]': ONE}, 'getMultilayerFluorescence': {'[rate]': ONE, '[primary]': ONE, '[secondary]': ONE, '[tertiary]': ONE, '[ratio]': ONE},
           'getFluorescence': {'[rate]': ONE}, 'getExpectedFluorescence': {'[rate]': ONE}}
KEYS = {'[energy]': KEV, '[coherent]': MU, '[compton]': MU, '[pair]': MU, '[photoelectric]': MU, '[total]': MU,
        '[mu_1_i]': MU, '[mu_1_lambda]': MU, '[omega]': ONE, '[efficiency]': ONE, '[massFraction]': ONE, '[energy_threshold]': KEV}
FIRST = {'transmissionTable': KEV, 'muCache': KEV, 'excitationFactorsCache': KEV, 'detectorEscapeCache': KEV}
PARAMS = {'energy': KEV, 'energies': KEV, 'density': DENS, 'thickness': CM, 'alphaIn': DEG, 'alphaOut': DEG, 'scatteringAngle': DEG, 'diameter': CM,
          'distance': CM, 'area': CM2, 'funnyFactor': ONE, 'transmission': ONE, 'weight': ONE, 'weights': ONE, 'massFraction': ONE}
# parameters that mean something else in one class: Elements states its escape thickness as mass per area
CLASSPARAMS = {('Elements', 'getEscape', 'thickness'): (0, 1, -2, 0), ('Elements', 'updateEscapeCache', 'thickness'): (0, 1, -2, 0),
               ('Elements', 'isEscapeCacheCompatible', 'thickness'): (0, 1, -2, 0)}
RESULTS = {'getTransmission': ONE, 'getGeometricEfficiency': ONE, 'getLayerTransmission': ONE, 'getActiveArea': CM2}

# tables whose columns mean different things
TABLES = ('muInputValues', 'bindingEnergyInputValues')

# classes that read numbers from text: one place receives numbers of different meaning
TEXT = ('SimpleIni', 'SimpleSpecfile')

PERMUTE = {'sort', 'stable_sort', 'reverse', 'unique', 'rotate', 'iter_swap', 'partial_sort', 'nth_element', 'inplace_merge', 'lower_bound', 'upper_bound', 'binary_search',
           'equal_range', 'find', 'find_if', 'distance', 'advance', 'max_element', 'min_element', 'next', 'prev', 'is_sorted', 'make_pair', 'forward', 'move', 'count', 'count_if', 'any_of',
           'all_of', 'none_of', 'equal', 'operator==', 'operator!=', 'operator-', 'operator+', 'operator<', 'begin', 'end', 'cbegin', 'cend', 'accumulate', 'copy', 'fill',
           'fill_n', 'isnan', 'isinf', 'isfinite', 'operator<<', 'operator>>', 'getline', 'back_inserter', 'get', 'tie', 'swap', 'max', 'min', 'addressof'}

SAME = {'fabs', 'floor', 'ceil', 'fmin', 'fmax', 'abs', 'round', 'trunc', 'fmod', 'llvm.fabs.f64', 'llvm.floor.f64', 'llvm.ceil.f64', 'llvm.maxnum.f64', 'llvm.minnum.f64', 'nearbyint', 'llvm.rint.f64'}
TRIG = {'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'erf', 'erfc', 'expm1', 'log1p', 'tgamma', 'lgamma', 'llvm.sin.f64', 'llvm.cos.f64', 'llvm.tan.f64'}
ATRIG = {'asin', 'acos', 'atan'}
EXPS = {'exp', 'exp2', 'llvm.exp.f64', 'llvm.exp2.f64'}
LOGS = {'log', 'log10', 'log2', 'llvm.log.f64', 'llvm.log10.f64', 'llvm.log2.f64'}
SQRT = {'sqrt', 'llvm.sqrt.f64'}
POW = {'pow', 'llvm.pow.f64', 'llvm.powi.f64.i32'}


def conv(x):
    """exponent of deg carried by a factor: 180 and the conversion factors"""
    x = abs(x)
    if x == 180.0 or x == 360.0 or x == 90.0:
        return 1
    if x and abs(x * 180 / math.pi - 1) < 1e-4:
        return -1
    if x and abs(x * math.pi / 180 - 1) < 1e-4:
        return 1
    return 0


class Dims:
    def __init__(self, ctx):
        self.ctx = ctx
        self.M = ctx.M
        self.R = Regions(ctx.M, ctx.R.suppressed, keys=True, index=True)
        self.sum = {}
        self.bad = []      # (function, inst, text)
        self.stats = {'equations': 0, 'cells': 0, 'anchored': 0, 'instances': 0, 'operations': 0}
        order = self.R._postorder(sorted(self.M.functions.values(), key=lambda f: f.name))
        for n in order:
            FnDims(self, self.M.functions[n]).run()


class FnDims:
    def __init__(self, D, f):
        self.D = D; self.ctx = D.ctx; self.f = f; self.R = D.R
        self.info = self.R.infos[f.name]
        self.cfg = self.ctx.F.cfg(f)
        self.nf = 0
        self.cells = set()
        self.pairs = []
        self._pts = {}
        self.collect = True
        self.kills = []        # (container region, inst, has content)
        self.puts = []         # (cell, inst)
        self.mixed = set()     # containers whose content changes its meaning
        self.singles = None    # containers of which one constant index only is used
        self.text = set()      # what was read from a text file: numbers of any meaning
        self.siblings = set()
        self.webs = None

    # ------------------------------------------------------------ variables
    def fresh(self):
        self.nf += 1
        return ('f', self.nf)

    def nrm(self, r):
        r = norm(r)
        if self.singles is not None and any(x[:2] == '[#' for x in r[1]):
            return (r[0], tuple('[]' if x[:2] == '[#' and (r[0],) + tuple('[]' if y[:2] == '[#' else y for y in r[1][:k]) in self.singles else x for k, x in enumerate(r[1])))
        return r

    def find_singles(self):
        ix = {}
        def note(r):
            for k, x in enumerate(r[1]):
                if x[:2] == '[#':
                    ix.setdefault((r[0],) + tuple('[]' if y[:2] == '[#' else y for y in r[1][:k]), set()).add(x)
        for rs in self.info.pts.values():
            for r in rs:
                note(norm(r))
        for e in self.info.events:
            note(norm(e.region))
        self.singles = {c for c, s in ix.items() if len(s) == 1}

    def interface(self, v):
        return v[0] == 'c' and (v[1][0][0] in 'PG' or v[1][0] == 'RET') or v == ('retv',)

    def cellvar(self, rs, inst=None):
        """variable of the memory cell a pointer designates (None: unknown)"""
        rs = {self.nrm(r) for r in rs}
        if len(rs) != 1:
            return None
        r = next(iter(rs))
        if r[0] == 'X':
            return None
        if any(x in TABLES for x in r[1]):
            return None
        if r[0][0] == 'L' and not r[1] and r[0][1:] in self.allocas() and self.f.defs[r[0][1:]].extra != 'double':
            # a local array, or an aggregate whose members are not told apart
            return None
        if not self.collect:
            for k in range(len(r[1]) + 1):
                if (r[0], r[1][:k]) in self.mixed:
                    return None
        w = self.web(r, inst)
        if w is not None:
            return w
        self.cells.add(r)
        if not self.collect and r[1] and r[1][-1] == '[]' or '[]' in r[1]:
            # unknown key next to known keys: says nothing
            for k, x in enumerate(r[1]):
                if x == '[]' and (r[0],) + r[1][:k] in self.siblings:
                    return None
        return ('c', r)

    # ------------------------------------------------------------ address-taken scalars: one variable per group of definitions
    def build_webs(self):
        f = self.f
        self.webs = {}
        cand = {}
        for i in f.insts():
            if i.op == 'alloca' and i.extra == 'double':
                cand[i.res] = i
        evs = {}
        for e in self.info.events:
            if e.region[0][0] == 'L' and e.region[0][1:] in cand and not e.region[1]:
                evs.setdefault(e.region[0][1:], []).append(e)
        for a in cand:
            defs, uses = {}, {}
            for e in evs.get(a, []):
                (defs if e.rw == 'W' else uses).setdefault(id(e.inst), e.inst)
            # calls that receive the address count as uses even when they do not read
            for i in f.insts():
                if i.op in ('call', 'invoke') and a in i.args:
                    if id(i) not in defs:
                        uses.setdefault(id(i), i)
            # reaching definitions
            gen = {}
            for b in f.order:
                last = None
                for i in f.blocks[b].insts:
                    if id(i) in defs:
                        last = id(i)
                gen[b] = last
            inn = {b: set() for b in f.order}
            ch = True
            while ch:
                ch = False
                for b in self.cfg.rpo:
                    s = set()
                    for p in self.cfg.pred.get(b, ()):
                        s |= {gen[p]} if gen[p] is not None else inn[p]
                    if s != inn[b]:
                        inn[b] = s; ch = True
            par = {}

            def find(x):
                while par.setdefault(x, x) != x:
                    x = par[x]
                return x
            at = {}
            for b in f.order:
                cur = set(inn[b])
                for i in f.blocks[b].insts:
                    if id(i) in uses or id(i) in defs and i.op in ('call', 'invoke'):
                        k = sorted(cur) or [0]
                        for x in k[1:]:
                            par[find(x)] = find(k[0])
                        at[id(i)] = k[0]
                    if id(i) in defs:
                        cur = {id(i)}
                        if i.op in ('call', 'invoke') and id(i) in at:
                            par[find(id(i))] = find(at[id(i)])
                        at[id(i)] = id(i)
            self.webs[a] = {k: find(v) for k, v in at.items()}

    def web(self, r, inst):
        if r[0][0] != 'L' or r[1] or inst is None:
            return None
        w = self.webs.get(r[0][1:])
        if w is None or id(inst) not in w:
            return None
        return ('w', r[0], w[id(inst)])

    # ------------------------------------------------------------ what an iterator variable designates where it is used
    def defs_of(self, a):
        if not hasattr(self, '_defs'):
            self._defs = {}
            for e in self.info.events:
                if e.rw == 'W' and e.region[0][0] == 'L':
                    self._defs.setdefault(e.region[0][1:], {})[id(e.inst)] = e.inst
        return self._defs.get(a, {})

    def reaching(self, a, at):
        """definitions of local a that reach instruction at"""
        defs = self.defs_of(a)
        if not hasattr(self, '_rd'):
            self._rd = {}
        if a not in self._rd:
            gen = {}
            for d in defs.values():
                b = d.block.name
                if b not in gen or self.pos(d) > self.pos(gen[b]):
                    gen[b] = d
            inn = {b: set() for b in self.f.order}
            ch = True
            while ch:
                ch = False
                for b in self.cfg.rpo:
                    s = set()
                    for p in self.cfg.pred.get(b, ()):
                        s |= {id(gen[p])} if p in gen else inn[p]
                    if s != inn[b]:
                        inn[b] = s; ch = True
            self._rd[a] = inn
        cur = self._rd[a][at.block.name]
        last = None
        for d in defs.values():
            if d.block is at.block and self.pos(d) < self.pos(at) and (last is None or self.pos(d) > self.pos(last)):
                last = d
        return [last] if last is not None else [defs[x] for x in cur]

    def iter_src(self, a, at, seen):
        if (a, id(at)) in seen:
            return set()
        seen.add((a, id(at)))
        out = set()
        ds = self.reaching(a, at)
        if not ds:
            return None
        for d in ds:
            if d.op == 'store':
                r = self.R.pts_of(self.info, d.ops[0])
            elif d.op in ('call', 'invoke') and d.callee and not d.callee.startswith('%'):
                c = d.callee
                args = self.R.call_args(d)[1]
                if c.startswith(('llvm.memcpy', 'llvm.memmove')):
                    r = self.iter_src(d.args[1], d, seen) if d.args[1] in self.allocas() and d.args[0] == a else None
                elif c.startswith('llvm.'):
                    r = None
                else:
                    n = self.D.M.name(c)
                    if n.base in ('operator++', 'operator--', 'operator+=', 'operator-=') and args and args[0] == a:
                        r = self.iter_src(a, d, seen)
                    elif (n.base == 'operator=' or n.base == n.cls) and len(args) == 2 and args[0] == a and args[1] in self.allocas():
                        r = self.iter_src(args[1], d, seen)
                    else:
                        r = None
            else:
                r = None
            if r is None:
                return None
            out |= r
        return out

    def allocas(self):
        if not hasattr(self, '_all'):
            self._all = {i.res for i in self.f.insts() if i.op == 'alloca'}
        return self._all

    def pts(self, v):
        """regions of a pointer, iterators read where they are used"""
        full = self.R.pts_of(self.info, v)
        if len({self.nrm(r) for r in full}) <= 1:
            return full
        if v in self._pts:
            return self._pts[v]
        out = full
        d = self.f.defs.get(v)
        if d is not None:
            if d.op == 'getelementptr':
                base = self.pts(d.ops[0])
                fld = self.R._gep_field(self.f, d)
                sub = {ext(r, fld) for r in base} if fld else base
                out = (sub & full) or full
            elif d.op in ('call', 'invoke') and d.callee and not d.callee.startswith('%') and not d.callee.startswith('llvm.'):
                n = self.D.M.name(d.callee)
                args = self.R.call_args(d)[1]
                if n.base in ('operator->', 'operator*') and len(args) == 1 and args[0] in self.allocas():
                    r = self.iter_src(args[0], d, set())
                    if r:
                        out = (r & full) or full
        self._pts[v] = out
        return out

    # ------------------------------------------------------------ what a field held before it was given another meaning
    def version(self, r, at):
        """('value', v) or ('cell', region) read at an instruction from a field of changing meaning"""
        ds = [(i, ('value', i.ops[0])) for q, i in self.puts if q == r and i.op == 'store']
        for c, k, has in self.kills:
            if has and c[0] == r[0] and r[1][:len(c[1])] == c[1]:
                src = [a for a, b, i in self.pairs if i is k and b == c]
                ds.append((k, ('cell', (src[0][0], src[0][1] + r[1][len(c[1]):])) if len(src) == 1 else None))
        dom = [d for d in ds if self.cfg.dominates(d[0].block.name, at.block.name) and self.forward(d[0], at)]
        for d in dom:
            if not any(e is not d and e[0] is not d[0] and self.forward(d[0], e[0]) and self.forward(e[0], at) for e in ds):
                return d[1]
        return None

    # ------------------------------------------------------------ equations
    def eq(self, lin, const, inst, text):
        if self.collect:
            return
        self.D.stats['equations'] += 1
        try:
            self.S.eq({v: Fraction(k) for v, k in lin.items() if k}, const)
        except Contradiction as e:
            self.D.bad.append((self.f, inst, text, str(e)))

    def same(self, a, b, inst, text):
        if a is None or b is None or a == b:
            return
        self.eq({a: 1, b: -1}, ZERO, inst, text)

    def lin(self, v):
        """operand of a product: (linear form, constant) or None when unknown"""
        c = value_const(v)
        if c is not None:
            return ({}, (0, 0, 0, conv(c)))
        if isinstance(v, str) and v.startswith('%'):
            return ({('v', v): 1}, ONE)
        return None

    def var(self, v):
        return ('v', v) if isinstance(v, str) and v.startswith('%') else None

    def describe(self, v):
        x = self.S.value(v) if v is not None else None
        return dstr(x) if x is not None else '?'

    # ------------------------------------------------------------ run
    def run(self):
        f = self.f
        self.build_webs()
        self.find_singles()
        self.scan()
        # closure of container copies over the known cells
        self.close()
        self.find_mixed()
        for r in self.cells:
            for k, x in enumerate(r[1]):
                if x[0] == '[' and x != '[]':
                    self.siblings.add((r[0],) + r[1][:k])
        self.collect = False
        self.S = System(self.interface)
        self.anchors()
        self.scan()
        self.copies()
        self.last_stores()
        # projection on the interface
        rows = []
        for v in list(self.S.rows):
            if self.interface(v):
                lin, c = self.S.row(v)
                rows.append((v, lin, c))
        self.D.sum[f.name] = (rows, {r for r in self.cells if r[0][0] in 'PG' or r[0] == 'RET'})
        self.D.stats['cells'] += len(self.cells)

    # ------------------------------------------------------------ containers used for one thing after another
    def forward(self, a, b):
        """b can follow a without a new turn of a loop around both"""
        if a is b:
            return False
        if a.block is b.block:
            return self.pos(a) < self.pos(b)
        return b.block.name in self.acyclic(a.block.name)

    def pos(self, i):
        if not hasattr(self, '_pos'):
            self._pos = {id(x): k for bl in self.f.order for k, x in enumerate(self.f.blocks[bl].insts)}
        return self._pos[id(i)]

    def acyclic(self, b):
        if not hasattr(self, '_acy'):
            self._acy = {}
            self._rk = {x: k for k, x in enumerate(self.cfg.rpo)}
        if b not in self._acy:
            out, st = set(), [b]
            while st:
                x = st.pop()
                for y in self.cfg.succ.get(x, ()):
                    if self._rk.get(y, -1) > self._rk.get(x, -1) and y not in out:
                        out.add(y); st.append(y)
            self._acy[b] = out
        return self._acy[b]

    def find_mixed(self):
        ch = True
        while ch:
            ch = False
            for a, b, _i in self.pairs:
                if a in self.text and b not in self.text and b[0][0] == 'L':
                    self.text.add(b); ch = True
        self.mixed |= self.text
        def under(c, r):
            return r[0] == c[0] and r[1][:len(c[1])] == c[1]
        for c, k, has in self.kills:
            if c in self.mixed or c[0][0] not in 'LR' or c[0] == 'RET' and False:
                continue
            content = [i for r, i in self.puts if under(c, r)] + [i for r, i, h in self.kills if h and (under(c, r) or under(r, c))]
            if any(self.forward(w, k) for w in content) and (has or any(self.forward(k, w) for w in content)):
                self.mixed.add(c)
        # appended one after the other: a list of unlike things
        push = {}
        for r, i in self.puts:
            if i.op != 'store' and r[0][0] in 'LR':
                push.setdefault(r, []).append(i)
        for r, l in push.items():
            if any(self.cfg.idominates(a, b) and self.forward(a, b) and self.nest(a) == self.nest(b) for a in l for b in l if a is not b):
                self.mixed.add(r)
        # a field set to one thing and later to another
        keyed = {}
        for r, i in self.puts:
            if i.op == 'store' and r[1] and re.match(r'\[[A-Za-z]', r[1][-1]) and r[0][0] in 'LR' and value_const(i.ops[0]) is None and not self.own(i.ops[0], r):
                keyed.setdefault(r, []).append(i)
        for r, l in keyed.items():
            if r[0][0] == 'L' and any(self.forward(a, b) for a in l for b in l):
                self.mixed.add(r)
            if any(h and under(c, r) and self.forward(k, b) for c, k, h in self.kills for b in l):
                self.mixed.add(r)
        # rewritten in place
        for r, i in self.puts:
            if i.op == 'store' and r[1]:
                for x in self.ancestors(i.ops[0]):
                    d = self.f.defs.get(x)
                    if d is not None and d.op == 'load' and {self.nrm(q) for q in self.pts(d.ops[0])} == {r}:
                        if not self.plain(i.ops[0], x):
                            self.mixed.add(r)

    def nest(self, i):
        if not hasattr(self, '_nest'):
            self._nest = list(self.cfg.loops.items())
        return frozenset(h for h, b in self._nest if i.block.name in b)

    def own(self, v, r):
        """the value is a sum that has the present content of r as a term"""
        for x in self.ancestors(v):
            d = self.f.defs.get(x)
            if d is not None and d.op == 'load' and {self.nrm(q) for q in self.pts(d.ops[0])} == {r} and self.plain(v, x):
                return True
        return False

    def ancestors(self, v, depth=0, seen=None):
        seen = set() if seen is None else seen
        if not isinstance(v, str) or v in seen or depth > 60:
            return seen
        d = self.f.defs.get(v)
        if d is None:
            return seen
        seen.add(v)
        if d.op in ('call', 'invoke'):
            if d.ty == 'double':
                for o in d.args:
                    self.ancestors(o, depth + 1, seen)
        elif d.ty == 'double' and d.op != 'load':
            for o in d.ops:
                self.ancestors(o, depth + 1, seen)
        return seen

    def plain(self, v, x):
        """the value is a sum with x as a term"""
        d = self.f.defs.get(v)
        if v == x:
            return True
        if d is None:
            return False
        if d.op in ('fadd', 'fsub', 'fneg'):
            return any(self.plain(o, x) for o in d.ops)
        if d.op == 'fmul' or d.op == 'fdiv':
            a, b = d.ops
            if self.number(b):
                return self.plain(a, x)
            if d.op == 'fmul' and self.number(a):
                return self.plain(b, x)
        if d.op in ('call', 'invoke') and d.callee and d.callee.startswith('llvm.fmuladd'):
            return self.plain(d.args[2], x)
        return False

    def number(self, v):
        """a plain number: a constant or a weight"""
        c = value_const(v)
        if c is not None:
            return not conv(c)
        d = self.f.defs.get(v)
        if d is not None and d.op == 'load':
            rs = self.R.pts_of(self.info, d.ops[0])
            inv = {k: self.f.pnames.get(p) for p, k in self.info.pindex.items()}
            return bool(rs) and all(inv.get(r[0]) in ('weight', 'weights', 'massFraction') and all(x[0] == '[' for x in r[1]) for r in rs)
        return False

    def kill(self, rs, i, has):
        if self.collect:
            rs = {self.nrm(r) for r in rs}
            for r in rs:
                if r[0] != 'X':
                    self.kills.append((r, i, has))

    def put(self, rs, i):
        if self.collect:
            for r in {self.nrm(r) for r in rs}:
                if r[0] != 'X' and r[1]:
                    self.puts.append((r, i))

    def close(self):
        for _ in range(6):
            n = len(self.cells)
            for a, b, _i in self.pairs:
                for x, y in ((a, b), (b, a)):
                    for r in list(self.cells):
                        if r[0] == x[0] and r[1][:len(x[1])] == x[1] and len(r[1]) > len(x[1]):
                            self.cells.add((y[0], y[1] + r[1][len(x[1]):]))
            if len(self.cells) == n or len(self.cells) > 5000:
                break

    def copies(self):
        for a, b, i in self.pairs:
            for r in list(self.cells):
                if r[0] == a[0] and r[1][:len(a[1])] == a[1]:
                    o = (b[0], b[1] + r[1][len(a[1]):])
                    if o in self.cells:
                        self.same(self.cellvar({r}), self.cellvar({o}), i, "the values copied here have")

    def last_stores(self):
        """an answer with a known dimension that held something else before: what is stored last"""
        by = {}
        for r, i in self.puts:
            if i.op == 'store':
                by.setdefault(r, []).append(i)
        for r, l in by.items():
            if r[0] != 'RET' or r not in self.mixed or r not in self.known:
                continue
            for i in l:
                if value_const(i.ops[0]) is None and not self.own(i.ops[0], r) and not any(self.forward(i, j) for j in l):
                    self.eq({('v', i.ops[0]): 1}, self.known[r], i, "the value stored last differs from what is answered by")

    def anchors(self):
        self.known = {}
        f = self.f
        n = self.ctx.name(f)
        inv = {}
        public = n.scope.startswith('fisx::') and (self.ctx.is_public(f) or n.base == n.cls)
        for p, k in self.info.pindex.items():
            inv[k] = f.pnames.get(p)
        for r in sorted(self.cells):
            d = self.anchor(r, inv if public else {}, n)
            if d is not None:
                self.D.stats['anchored'] += 1
                self.known[r] = d
                self.eq({('c', r): 1}, d, None, "%s has" % (r,))
        if public:
            for p, ty in zip(f.params, f.ptypes):
                if ty == 'double' and f.pnames.get(p) in PARAMS:
                    self.eq({('v', p): 1}, PARAMS[f.pnames[p]], None, 'parameter')
            if n.base in RESULTS and f.rettype and 'double' in f.rettype:
                self.eq({('retv',): 1}, RESULTS[n.base], None, 'result')

    def anchor(self, r, names, n):
        p = r[1]
        if p and p[-1] == 'first':
            for x in reversed(p[:-1]):
                if x[0] != '[':
                    return FIRST.get(x)
            return None
        if p and p[-1][:1] == '[':
            if r[0] == 'RET' and names is not None and n.scope.startswith('fisx::') and p[-1] in ANSWERS.get(n.base, ()):
                return ANSWERS[n.base][p[-1]]
            for x in p:
                if p[-1] in RECORDS.get(x, ()):
                    return RECORDS[x][p[-1]]
        for x in reversed(p):
            if x in KEYS:
                return KEYS[x]
            if x in FIELDS:
                return FIELDS[x]
            if x[0] != '[':
                return None
        if all(x == '[]' for x in p):
            if r[0] in names and names[r[0]] in PARAMS:
                k = (n.cls, n.base, names[r[0]])
                return CLASSPARAMS[k] if k in CLASSPARAMS else PARAMS[names[r[0]]]
            if r[0] == 'RET' and names and n.base in RESULTS:
                return RESULTS[n.base]
        return None

    def scan(self):
        f = self.f
        for b in self.cfg.rpo:
            for i in f.blocks[b].insts:
                self.inst(i)

    def inst(self, i):
        op = i.op
        if op in ('fadd', 'fsub', 'frem'):
            for o in i.ops:
                c = value_const(o)
                if c is not None:
                    if abs(c) == 1.0 and op != 'frem':
                        self.eq({('v', i.res): 1}, ZERO, i, "1 is added to or subtracted from a quantity with")
                else:
                    self.same(('v', i.res), self.var(o), i, "the terms of a sum or difference differ by")
            self.D.stats['operations'] += not self.collect
        elif op == 'fneg':
            self.same(('v', i.res), self.var(i.ops[0]), i, '')
        elif op in ('fmul', 'fdiv'):
            a, b = self.lin(i.ops[0]), self.lin(i.ops[1])
            ca, cb = value_const(i.ops[0]), value_const(i.ops[1])
            if a is None or b is None or ca == 0 or cb == 0:
                return
            s = 1 if op == 'fmul' else -1
            lin = {('v', i.res): 1}
            for v in a[0]:
                lin[v] = lin.get(v, 0) - 1
            for v in b[0]:
                lin[v] = lin.get(v, 0) - s
            self.eq(lin, vadd(a[1], b[1], s), i, "product")
            self.D.stats['operations'] += not self.collect
        elif op == 'fcmp':
            vs = [self.var(o) for o in i.ops if value_const(o) is None]
            if len(vs) == 2:
                self.same(vs[0], vs[1], i, "the compared quantities differ by")
                self.D.stats['operations'] += not self.collect
        elif op == 'phi' and i.ty == 'double':
            for o, b in i.incoming:
                if value_const(o) is None:
                    self.same(('v', i.res), self.var(o), i, "the alternatives differ by")
        elif op == 'select' and i.ty == 'double':
            for o in i.ops[1:]:
                if value_const(o) is None:
                    self.same(('v', i.res), self.var(o), i, "the alternatives differ by")
        elif op == 'load' and i.ty == 'double':
            rs = self.pts(i.ops[0])
            cv = self.cellvar(rs, i)
            if cv is None and not self.collect:
                rr = {self.nrm(r) for r in rs}
                if len(rr) == 1:
                    r = next(iter(rr))
                    if r in self.mixed and r not in self.text and re.match(r'\[[A-Za-z]', (r[1] or ('',))[-1]):
                        v = self.version(r, i)
                        if v is not None:
                            if v[0] == 'value':
                                cv = self.var(v[1]) if value_const(v[1]) is None else None
                            else:
                                cv = self.cellvar({v[1]}, i)
            self.same(('v', i.res), cv, i, "the value read differs from its place by")
        elif op == 'store' and i.ty == 'double':
            self.put(self.pts(i.ops[1]), i)
            if value_const(i.ops[0]) is None:
                self.same(self.var(i.ops[0]), self.cellvar(self.pts(i.ops[1]), i), i, "the value stored differs from its place by")
        elif op == 'ret':
            if i.ops and f_double(self.f):
                if value_const(i.ops[0]) is None:
                    self.same(('retv',), self.var(i.ops[0]), i, "the answer differs by")
        elif op in ('call', 'invoke'):
            self.call(i)

    def copy(self, src, dst, i):
        src = {self.nrm(r) for r in src}; dst = {self.nrm(r) for r in dst}
        if len(src) == 1 and len(dst) == 1:
            a, b = next(iter(src)), next(iter(dst))
            if 'X' not in (a[0], b[0]) and a != b and self.collect:
                self.pairs.append((a, b, i))

    def call(self, i):
        c = i.callee
        if not c or c.startswith('%'):
            return
        R, info = self.R, self.info
        ret, args = R.call_args(i)
        if c.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.copy(R.pts_of(info, i.args[1]), R.pts_of(info, i.args[0]), i)
            return
        rv = ('v', i.res) if i.res and i.ty == 'double' else None
        if c.startswith('llvm.fmuladd') or c.startswith('llvm.fma.') or c == 'fma':
            a, b = self.lin(args[0]), self.lin(args[1])
            if a is None or b is None:
                return
            if 0 not in (value_const(args[0]), value_const(args[1])):
                lin = {rv: 1}
                for v in list(a[0]) + list(b[0]):
                    lin[v] = lin.get(v, 0) - 1
                self.eq(lin, vadd(a[1], b[1]), i, "product")
            k = value_const(args[2])
            if k is None:
                self.same(rv, self.var(args[2]), i, "the terms of a sum or difference differ by")
            elif abs(k) == 1.0:
                self.eq({rv: 1}, ZERO, i, "1 is added to or subtracted from a quantity with")
            self.D.stats['operations'] += not self.collect
            return
        g = self.D.M.resolve(c)
        n = self.D.M.name(c) if not c.startswith('llvm.') else None
        base = n.base if n is not None else c
        if g is None or n is not None and n.scope == 'std':
            if self.math(i, base, rv, args):
                self.D.stats['operations'] += not self.collect
                return
        if g is not None:
            self.instance(i, g, rv, ret, args)
            return
        if n is None:
            return
        self.library(i, n, rv, ret, args)

    def math(self, i, base, rv, args):
        if rv is None or not args:
            return False
        a0 = value_const(args[0]) is None and self.var(args[0]) or None
        if base in SAME:
            for a in args:
                if value_const(a) is None:
                    self.same(rv, self.var(a), i, "the arguments of %s differ by" % base)
        elif base in TRIG:
            if a0:
                self.eq({a0: 1}, ZERO, i, "the argument of %s has" % base)
            self.eq({rv: 1}, ZERO, i, '')
        elif base in ATRIG:
            if a0:
                self.eq({a0: 1}, ZERO, i, "the argument of %s has" % base)
            self.eq({rv: 1}, ZERO, i, '')
        elif base == 'atan2':
            self.same(self.var(args[0]), self.var(args[1]), i, "the arguments of atan2 differ by")
            self.eq({rv: 1}, ZERO, i, '')
        elif base in EXPS:
            if self.from_log(args[0]):
                return True
            if a0:
                self.eq({a0: 1}, ZERO, i, "the argument of %s has" % base)
            self.eq({rv: 1}, ZERO, i, '')
        elif base in LOGS:
            if a0 and not self.to_exp(i.res):
                self.eq({a0: 1}, ZERO, i, "the argument of %s has" % base)
            self.eq({rv: 1}, ZERO, i, '')
        elif base in SQRT:
            if a0:
                self.eq({rv: 2, a0: -1}, ZERO, i, 'root')
        elif base in POW:
            e = value_const(args[1])
            if a0:
                if e is not None:
                    self.eq({rv: 1, a0: -Fraction(e).limit_denominator(1000)}, ZERO, i, 'power')
                else:
                    self.eq({a0: 1}, ZERO, i, "a quantity raised to a variable power has")
                    self.eq({rv: 1}, ZERO, i, '')
        elif base == 'hypot':
            for a in args:
                if value_const(a) is None:
                    self.same(rv, self.var(a), i, "the arguments of hypot differ by")
        elif base == 'cbrt':
            if a0:
                self.eq({rv: 3, a0: -1}, ZERO, i, 'root')
        else:
            return False
        return True

    def chain(self, v, depth=0, seen=None):
        """arithmetic ancestors of a value, through local scalars"""
        seen = set() if seen is None else seen
        if not isinstance(v, str) or v in seen or depth > 40:
            return seen
        seen.add(v)
        d = self.f.defs.get(v)
        if d is None:
            return seen
        if d.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'phi', 'select'):
            for o in d.ops:
                self.chain(o, depth + 1, seen)
        elif d.op in ('call', 'invoke') and d.callee and (d.callee.startswith('llvm.fmuladd')):
            for o in d.args:
                self.chain(o, depth + 1, seen)
        elif d.op == 'load':
            a = d.ops[0]
            for u in self.f.uses.get(a, ()):
                if u.op == 'store' and u.ops[1] == a:
                    self.chain(u.ops[0], depth + 1, seen)
        return seen

    def from_log(self, v):
        for x in self.chain(v):
            d = self.f.defs.get(x)
            if d is not None and d.op in ('call', 'invoke') and d.callee and not d.callee.startswith('%'):
                b = d.callee if d.callee.startswith('llvm.') else self.D.M.name(d.callee).base
                if b in LOGS:
                    return True
        return False

    def to_exp(self, v):
        for i in self.f.insts():
            if i.op in ('call', 'invoke') and i.callee and not i.callee.startswith('%'):
                b = i.callee if i.callee.startswith('llvm.') else self.D.M.name(i.callee).base
                if b in EXPS and v in self.chain(i.args[0]):
                    return True
        # a logarithm kept in memory that an exponential may use
        return False

    # ------------------------------------------------------------ calls of library functions
    def instance(self, i, g, rv, ret, args):
        s = self.D.sum.get(g.name)
        if s is None:
            return
        rows, cells = s
        if self.collect:
            gn = self.ctx.name(g)
            if ret is not None:
                rs = self.R.pts_of(self.info, ret) if isinstance(ret, str) else ret
                self.kill(rs, i, True)
                if gn.cls in TEXT:
                    self.text |= {self.nrm(r) for r in rs}
            ginfo = self.R.infos[g.name]
            for e in ginfo.events:
                if e.rw == 'W' and e.region[0][0] == 'P' and not e.region[1]:
                    k = int(e.region[0][1:])
                    if k < len(args):
                        rs = self.R.pts_of(self.info, args[k])
                        self.kill(rs, i, True)
                        if gn.cls in TEXT:
                            self.text |= {self.nrm(r) for r in rs if r[0][0] == 'L'}
        self.D.stats['instances'] += not self.collect
        R, info = self.R, self.info
        memo = {}

        def tr(v):
            if v in memo:
                return memo[v]
            out = None
            if v == ('retv',):
                out = rv
            else:
                r = v[1]
                if r[0][0] == 'P' and not r[1]:
                    # scalar passed by value
                    k = int(r[0][1:])
                    if k < len(args) and i.argtys and self.argty(i, args[k]) == 'double':
                        out = ('v', args[k]) if args[k].startswith('%') else None
                        memo[v] = out if out is not None else self.fresh()
                        return memo[v]
                tgt = R.map_region(info, r, args, ret, i)
                out = self.cellvar(tgt, i)
            memo[v] = out if out is not None else self.fresh()
            return memo[v]
        for r in sorted(cells):
            tr(('c', r))
        nm = self.ctx.name(g).base
        for v, lin, c in rows:
            if self.collect:
                for w in [v] + list(lin):
                    tr(w)
                continue
            eqn = {}
            eqn[tr(v)] = Fraction(1)
            for w, q in lin.items():
                t = tr(w)
                eqn[t] = eqn.get(t, 0) - q
            self.eq(eqn, c, i, "what %s receives or answers here does not agree with what it computes, by" % nm)

    @staticmethod
    def argty(i, a):
        for x, t in zip(i.args, i.argtys):
            if x == a:
                return t
        return None

    def library(self, i, n, rv, ret, args):
        R, info = self.R, self.info
        P = [self.pts(a) for a in args]
        b = n.base
        if n.cls in stl.CONTAINERS:
            recv = P[0] if P else set()
            inner = R.inside(recv)
            if b in ('clear', 'resize', 'assign', 'operator=', 'swap', n.cls):
                self.kill(recv, i, b in ('assign', 'operator=', 'swap') or len(P) > 2 or b == n.cls and len(P) == 2 and self.is_cont(P[1]))
            elif b in ('push_back', 'insert', 'emplace_back', 'emplace', 'push_front'):
                self.put(inner, i)
            if b in ('push_back', 'emplace_back', 'push_front') and len(P) > 1:
                self.cp(P[1], inner, i)
            elif b in ('resize', 'assign', 'insert') and len(P) > 1 or b == n.cls and n.cls in ('vector', 'deque', 'list') and len(P) > 1:
                # (…, value) or (iterator range)
                for rs in P[1:]:
                    cs = {r for r in rs if r[0][0] != 'L' or not self.is_iter(r)}
                    its = R.cont_of(info, rs)
                    if its and all('[' in ''.join(r[1][-1:]) for r in its):
                        self.cp(its, inner, i)
                    elif cs and b != n.cls:
                        self.cp(cs, inner if b != 'insert' or n.cls != 'map' else inner, i)
                    elif cs and b == n.cls:
                        pn = n.params
                        if len(pn) == 1:
                            self.copy(cs, recv, i)
                        elif len(pn) >= 2 and not pn[0].startswith('std::vector'):
                            self.cp(cs, inner, i)
                        else:
                            self.copy(cs, recv, i)
            elif b in ('operator=', 'swap', 'merge') or b == n.cls and n.cls not in ('pair', 'tuple'):
                if len(P) > 1:
                    self.copy(P[1], recv, i)
            elif b == n.cls and n.cls == 'pair' and len(P) == 3:
                for rs, fld in zip(P[1:], ('first', 'second')):
                    self.cp(rs, {ext(r, fld) for r in recv}, i)
            elif b == n.cls and n.cls == 'pair' and len(P) == 2:
                self.copy(P[1], recv, i)
            if n.cls == 'map' and b in ('operator[]', 'find', 'count', 'at', 'lower_bound', 'upper_bound', 'erase') and len(P) > 1 and n.dem.startswith('std::map<double'):
                self.cp(P[1], {ext(r, 'first') for r in inner}, i)
        elif n.scope == 'std' or n.cls == '':
            if b in ('max', 'min') and len(P) == 2 and i.ty == 'ptr':
                self.same(self.cellvar(P[0], i), self.cellvar(P[1], i), i, "the arguments of %s differ by" % b)
            elif b in ('fill', 'fill_n') and len(P) == 3:
                dst = R.cont_of(info, P[0]) | {r for r in P[0] if '[]' in r[1]}
                self.cp(P[2], dst, i)
            elif b in ('copy',) and len(P) == 3:
                src = R.cont_of(info, P[0]) | {r for r in P[0] if '[]' in r[1]}
                dst = R.cont_of(info, P[2]) | {r for r in P[2] if '[]' in r[1]}
                self.cp(src, dst, i)
            elif b == 'accumulate' and rv is not None:
                src = R.cont_of(info, P[0]) | {r for r in P[0] if '[]' in r[1]}
                self.same(rv, self.cellvar(src, i), i, "the sum differs from its terms by")
            elif b == 'swap' and len(P) == 2:
                self.cp(P[0], P[1], i)
            elif self.collect and b not in PERMUTE:
                # an algorithm that writes elements with a function of its caller
                for rs in P:
                    for r in {self.nrm(r) for r in R.cont_of(info, rs) | rs}:
                        if r[1] and r[1][-1] == '[]':
                            self.mixed.add(r)

    def is_cont(self, rs):
        return any(r[0][0] != 'L' or not self.is_iter(r) for r in rs)

    def is_iter(self, r):
        d = self.f.defs.get(r[0][1:])
        return d is not None and d.op == 'alloca' and d.extra != 'double' and 'iterator' in (d.extra or '')

    def cp(self, src, dst, i):
        """one value copied: both a scalar cell and, when it is a container, everything inside"""
        a, b = self.cellvar(src, i), self.cellvar(dst, i)
        if a is not None and b is not None:
            self.same(a, b, i, "the value stored differs from its place by")
        if not any(r[0][0] == 'L' and self.webs.get(r[0][1:]) for r in src):
            self.copy(src, dst, i)


def f_double(f):
    return f.rettype and f.rettype.split()[-1] == 'double'
