"""Shared context, findings and the check driver."""
import json, os, sys, time, fnmatch
from .ir import AnalysisError
from .model import Model, REPO
from .regions import Regions
from .flow import Flow

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    def __init__(self, rule, site, what, where, msg, path=None):
        self.rule = rule      # short rule id
        self.site = site      # function / class (stable: no line numbers)
        self.what = what      # construct (stable)
        self.where = where    # file:line
        self.msg = msg
        self.path = path or []

    @property
    def key(self):
        return "%s|%s|%s" % (self.rule, self.site, self.what)


class Result:
    def __init__(self):
        self.findings = []
        self.counts = {}
        self.samples = []
        self.rule = ''
        self.minimum = {}
        self.notes = []

    def add(self, *a, **k):
        f = Finding(*a, **k)
        if all(f.key != g.key for g in self.findings):
            self.findings.append(f)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def need(self, k, n):
        """instance count confirmed by hand: fewer is an error of the analysis"""
        self.minimum[k] = n


class Ctx:
    def __init__(self, tier='quick'):
        self.tier = tier
        self._m = self._r = self._f = None
        self._ev = {}

    @property
    def M(self):
        if self._m is None:
            self._m = Model.load()
        return self._m

    @property
    def R(self):
        if self._r is None:
            self._r = Regions(self.M)
            # second pass: map::operator[] on a key that a dominating fact shows present does not modify the map
            from . import iters
            P = iters.Presence(self)
            sup = set()
            for f in self.M.functions.values():
                for i in f.insts():
                    if i.op in ('call', 'invoke') and len(i.args) > 1:
                        n = iters.cname(self, i)
                        if n is not None and n.base == 'operator[]' and n.cls in ('map', 'unordered_map') and not self.M.resolve(i.callee):
                            rs = self._r.pts_of(self._r.infos[f.name], i.args[0])
                            if any(r[0][0] in 'PG' for r in rs):
                                cont = frozenset(self._r.inside(rs))
                                key = iters.keyexpr(self, f, i.args[1])
                                if key[0] not in ('?', 'ssa', 'deep') and \
                                        any(k == key and iters.same_container(c, cont) for c, k in P.at_block(f, i.block.name)):
                                    sup.add((f.name, i.block.name, i.idx))
            if sup:
                self._r = Regions(self.M, sup)
        return self._r

    @property
    def RK(self):
        """the same regions, literal map keys told apart"""
        if getattr(self, '_rk', None) is None:
            self._rk = Regions(self.M, self.R.suppressed, keys=True)
        return self._rk

    @property
    def VD(self):
        """value influence by data only"""
        if getattr(self, '_vd', None) is None:
            from .vflow import VFlow
            self._vd = VFlow(self, control=False)
        return self._vd

    @property
    def F(self):
        if self._f is None:
            self._f = Flow(self.M)
        return self._f

    @property
    def W(self):
        if getattr(self, '_w', None) is None:
            from .cy import Wrappers
            self._w = Wrappers(self)
        return self._w

    # -------- conveniences
    def name(self, f):
        return self.M.name(f.name if hasattr(f, 'name') else f)

    def sig(self, f):
        s = self.M.sig(f)
        return s

    def short(self, f):
        """Class::method(n params) - stable label"""
        n = self.name(f)
        q = n.qual[6:] if n.qual.startswith('fisx::') else n.qual
        return "%s/%d%s" % (q, len([p for p in n.params if p != 'void']), 'c' if n.const else '')

    def events(self, f, inst):
        k = f.name
        if k not in self._ev:
            d = {}
            for e in self.R.infos[k].events:
                d.setdefault(id(e.inst), []).append(e)
            self._ev[k] = d
        return self._ev[k].get(id(inst), [])

    def methods(self, cls):
        out = []
        for f in self.M.functions.values():
            n = self.name(f)
            if n.cls == cls and n.scope == 'fisx::' + cls:
                out.append(f)
        return out

    def decl(self, f):
        """(ClassInfo method record) or None"""
        n = self.name(f)
        cls = n.scope[6:] if n.scope.startswith('fisx::') else ''
        ci = self.M.classes.get(cls)
        if not ci:
            return None
        return ci.methods.get(f.name)

    def is_static(self, f):
        d = self.decl(f)
        return bool(d and d['static'])

    def is_method(self, f):
        n = self.name(f)
        cls = n.scope[6:] if n.scope.startswith('fisx::') else ''
        return cls in self.M.classes and not self.is_static(f)

    def is_public(self, f):
        d = self.decl(f)
        return bool(d and d['access'] == 'public')

    def is_ctor(self, f):
        n = self.name(f)
        return n.base == n.cls

    def is_dtor(self, f):
        return self.name(f).base.startswith('~')

    def classfield(self, cls, field):
        ci = self.M.classes.get(cls)
        if ci is None:
            raise AnalysisError("anchor class %s vanished" % cls)
        for x in ci.fields:
            if x[0] == field:
                return x
        raise AnalysisError("anchor member %s::%s vanished" % (cls, field))


def load_known(pid):
    """known-findings.txt: lines 'known: property=<id> key=<key> :: <text>' and 'fixed: property=<id> <commit> <text>'"""
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for L in open(p):
            L = L.strip()
            if L.startswith('known: property=%s ' % pid):
                rest = L[len('known: property=%s ' % pid):]
                assert rest.startswith('key=')
                key, _, text = rest[4:].partition(' :: ')
                out[key.strip()] = text.strip()
    return out


def run_check(pid, mod, tier, seed, ctx=None):
    t0 = time.time()
    ctx = ctx or Ctx(tier)
    res = mod.run(ctx)
    wall = time.time() - t0
    known = load_known(pid)
    new, old = [], []
    for f in res.findings:
        (old if f.key in known else new).append(f)
    for k, n in res.minimum.items():
        if res.counts.get(k, 0) < n and not new:
            raise AnalysisError("%s: %d instances of '%s' found, %d confirmed by hand: the rule lost its subject" %
                                (pid, res.counts.get(k, 0), k, n))
    for f in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[f.key]))
    stale = [k for k in known if k not in {f.key for f in old}]
    for k in stale:
        print("note: listed finding not observed on this tree: %s" % k)
    evdir = os.environ.get('FX_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    rp = os.path.join(evdir, pid + '.report.txt')
    with open(rp, 'w') as fh:
        for f in new + old:
            fh.write("%s %s %s\n    %s\n    at %s\n" % ('VIOLATION' if f in new else 'KNOWN', pid, f.key, f.msg, f.where))
            for p in f.path:
                fh.write("      - %s\n" % p)
            fh.write("\n")
        if not new and not old:
            fh.write("no findings\n")
    obligations = res.counts.get('obligations', 0)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": res.rule,
            "obligations": obligations,
            "discharged": obligations - len(res.findings) if obligations else 0,
            "instances": res.counts,
            "minimum_confirmed_instances": res.minimum,
            "samples": res.samples,
            "units_analysed": getattr(ctx._m, 'units', None) and [os.path.relpath(u, REPO) for u in ctx._m.units] or getattr(res, 'units', []),
            "functions_in_model": len(ctx._m.functions) if ctx._m else 0,
            "known_findings_seen": [f.key for f in old],
            "findings": [dict(key=f.key, where=f.where, msg=f.msg) for f in new],
        },
        "assumptions": res.notes,
        "wall_s": round(wall, 3), "violations": len(new),
    }
    with open(os.path.join(evdir, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    for f in new:
        print("%s: %s: [%s] %s" % (pid, f.where, f.key, f.msg))
        for p in f.path[:12]:
            print("      - %s" % p)
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s ok (%s tier): %s; %.1f s" % (pid, tier, ', '.join('%s=%d' % kv for kv in sorted(res.counts.items())), wall))
    return 0
