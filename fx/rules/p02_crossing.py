"""What the caller passes is what the library receives; what the library answers is what the caller gets."""
import re
from ..core import Result
from ..cy import AV, Interp, allmod, allprov, normtype

# wrapper method -> library methods it stands for, where the names differ
ALIAS = {
    ('PySimpleIni', 'getKeys'): {'getSections'}, ('PySimpleIni', 'readKey'): {'readSection'},
    ('PyTransmissionTable', 'setTransmissionTableFromLists'): {'setTransmissionTable'},
    ('PyMaterial', 'setCompositionFromLists'): {'setComposition'},
    ('PyElements', 'getElementMassAttenuationCoefficients'): {'getMassAttenuationCoefficients'},
    ('PyXRF', 'getFluorescence'): {'getMultilayerFluorescence'},
    ('PyXRF', 'setBeam'): {'setBeam', 'setSingleEnergyBeam'},
}
# arguments a path may leave out: (method, argument) -> why
DROPPED = {
    ('PyXRF.setGeometry', 'scatteringAngle'): "left out: the sum of the two angles",
    ('PyXRF.setBeam', 'weights'): "a single energy has weight one",
    ('PyXRF.setBeam', 'characteristic'): "a single energy is characteristic",
    ('PyElements.__cinit__', 'bindingEnergiesFile'): "the three ways to build a library",
    ('PyElements.__cinit__', 'crossSectionsFile'): "the three ways to build a library",
    ('PyElements.__cinit__', 'directoryName'): "the default data directory",
    ('PyElements.__cinit__', 'pymca'): "selects the constructor",
}
ARITH = {('PyXRF.setGeometry', 'scatteringAngle')}
COMPOSITE = {('PyElements', 'initializeAsPyMca')}
# constants a wrapper may pass on its own account: (library method, parameter position) -> values
CONST = {
    ('Layer.<init>', 3): {1.0},                                  # funny factor left out
    ('Elements.<init>', 1): {1}, ('Elements.getMassAttenuationCoefficients', 2): {0},
    ('XRF.setSingleEnergyBeam', 1): {0.0},
}
# lists of records: library function that takes one record, items of a full record
FULL = {'Layer.<init>': 4, 'TransmissionTable.setTransmissionTable': 4}
RECORDS = {'layerList', 'pyTransmissionTableList', 'transmissionTableList'}
WHOLE = {'PyBeam.getBeamAsDoubleVectors'}                        # energies and weights of the four lists of the library
SORTED = {'PyElements.getPeakFamilies', 'PyLayer.getPeakFamilies'}     # documented: by energy
BAD = {'order': "the reordered values of", 'arithmetic': "computed from", 'truncated': "cut to an integer from", 'truth': "reduced to true or false from", 'slice': "a part of", 'filtered': "a selection of", 'character': "single characters of",
       'size': "the length of", 'lower': "changed case of", 'upper': "changed case of", 'strip': "stripped from", 'rstrip': "stripped from", 'lstrip': "stripped from", 'split': "a part of", 'rsplit': "a part of", 'partition': "a part of", 'rpartition': "a part of", 'splitlines': "a part of",
       'replace': "replaced text of", 'translate': "replaced text of", 'title': "changed case of", 'capitalize': "changed case of", 'swapcase': "changed case of", 'casefold': "changed case of",
       'expandtabs': "replaced text of", 'zfill': "padded text of", 'center': "padded text of", 'ljust': "padded text of", 'rjust': "padded text of", 'str()': "the representation of", 'bytes()': "the representation of"}


def orig(p):
    return p[1]


def recpath(p):
    """position inside one record of a list of records"""
    m = [re.match(r'\[(\d+)\]$', x) for x in p[2:]]
    m = [x.group(1) for x in m if x]
    return int(m[-1]) if m else None


def badmods(v):
    out = []
    for m in allmod(v):
        if m in BAD:
            out.append((m, BAD[m]))
        elif m.startswith('codec:') and m[6:].lower().replace('_', '-') not in ('utf-8', 'utf8'):
            out.append((m, "encoded as %s from" % m[6:]))
    return out


def container(t):
    return normtype(t).startswith(('std::vector', 'std::map', 'std::list', 'std::set'))


def shape(v):
    if v is None:
        return '?'
    if v.k in ('str', 'bytes'):
        return 'text'
    if v.k in ('int', 'float', 'bool'):
        return v.k
    if v.k in ('list', 'nd'):
        return ('list', shape(v.sub) if isinstance(v.sub, AV) else '?')
    if v.k == 'dict':
        return ('dict', shape(v.sub[0]), shape(v.sub[1])) if isinstance(v.sub, tuple) else ('dict', '?', '?')
    if v.k == 'tuple' and isinstance(v.sub, (list, tuple)):
        return ('tuple',) + tuple(shape(x) for x in v.sub)
    return '?'


def differ(a, b):
    if a == '?' or b == '?':
        return False
    if isinstance(a, str) or isinstance(b, str):
        return a != b and not {a, b} <= {'int', 'bool'}
    return a[0] != b[0] or len(a) != len(b) or any(differ(x, y) for x, y in zip(a[1:], b[1:]))


def show(s):
    return s if isinstance(s, str) else '%s(%s)' % (s[0], ', '.join(show(x) for x in s[1:]))


# documented values of the numeric options that may be left out (a negative scattering angle stands for the sum of the two others)
ESC = {'energyThreshold': 0.010, 'intensityThreshold': 1.0e-7, 'nThreshold': 4, 'alphaIn': 90., 'thickness': 0.0}
CALC = {'secondary': 0, 'useGeometricEfficiency': 1, 'useMassFractions': 0, 'secondaryCalculationLimit': 0.0}
LAYER = {'density': 1.0, 'thickness': 1.0, 'funny': 1.0}
DEFAULTS = {
    'PyDetector.__cinit__': LAYER, 'PyLayer.__cinit__': LAYER, 'PyMaterial.__cinit__': {'density': 1.0, 'thickness': 1.0},
    'PyDetector.getEscape': {'update': 1}, 'PyDetector.getTransmission': {'angle': 90.}, 'PyLayer.getTransmission': {'angle': 90.}, 'PyXRF.getLayerTransmission': {'angle': 90.},
    'PyElement.__cinit__': {'z': 0}, 'PyElements.__cinit__': {'pymca': 0}, 'PyElements.addMaterial': {'errorOnReplace': 1}, 'PyElements.getEmittedXRayLines': {'energy': 1000.},
    'PyElements.getEscape': ESC, 'PyElements.updateEscapeCache': ESC, 'PyElements.getXRayLinesFromVacancyDistribution': {'cascade': 1, 'useFluorescenceYield': 1},
    'PyElements.setCacheEnabled': {'flag': 1}, 'PyElements.setElementCascadeCacheEnabled': {'flag': 1}, 'PyElements.setEscapeCacheEnabled': {'flag': 1},
    'PyMath.deBoerL0': {'density': 0.0, 'thickness': 0.0}, 'PyMath.deBoerX': {'mu_b_d_t': 0.0},
    'PyXRF.getFluorescence': dict(CALC, sampleLayer=0), 'PyXRF.getMultilayerFluorescence': CALC, 'PyXRF.getGeometricEfficiency': {'layerIndex': 0}, 'PyXRF.setSample': {'referenceLayer': 0},
}


def defaults(W, res):
    for lab, ds in sorted(DEFAULTS.items()):
        cls, m = lab.split('.')
        fn = W.classes.get(cls, {}).get(m)
        for a in (fn or {}).get('args', ()):
            d = a['default']
            v = d.get('constant_result') if isinstance(d, dict) else None
            if a['name'] in ds and isinstance(v, (int, float)):
                res.count('defaults'); res.count('obligations')
                if v != ds[a['name']]:
                    res.add('default', lab, a['name'], d.get('at', ''), "'%s' of %s left out stands for %s, documented is %s" % (a['name'], lab, v, ds[a['name']]))


def sentinels(W, res):
    """a given scattering angle (limits included) is the one the library receives"""
    fn = W.classes.get('PyXRF', {}).get('setGeometry')
    if fn is None or 'scatteringAngle' not in [a['name'] for a in fn['args']]:
        return
    for k in (0.0, 45.0, 180.0):
        args = {a['name']: AV('float', const=k if a['name'] == 'scatteringAngle' else None, prov=frozenset({('arg', a['name'])})) for a in fn['args'] if a['name'] != 'self'}
        args['self'] = AV('ext:PyXRF', ident='self')
        for o in Interp(W).run('PyXRF', fn, args):
            if o.kind != 'ret':
                continue
            res.count('obligations')
            got = {p[1] for e in o.events if e['name'] == 'setGeometry' and len(e['args']) == 3 for p in allprov(e['args'][2]) if p[0] == 'arg'}
            if 'scatteringAngle' not in got:
                res.add('dropped', 'PyXRF.setGeometry', 'scatteringAngle %g' % k, fn.get('at') or 'python/cython/PyXRF.pyx', "a scattering angle of %g given to PyXRF.setGeometry is replaced" % k)


class Rule:
    def __init__(self, ctx, res):
        self.ctx, self.res, self.W = ctx, res, ctx.W

    def declarations(self):
        res, W = self.res, self.W
        # only those the wrappers go through
        used = set()
        for cls in W.classes:
            for m in W.classes[cls]:
                if m.startswith('__') and m != '__cinit__':
                    continue
                outs, _ = W.outcomes(cls, m)
                for o in outs or []:
                    for e in o.events:
                        if e['ft']:
                            used.add((e['cls'], e['name'], tuple(e['ft']['args'])))
        for d in W.decls:
            if not {(d['class'], d['name'], tuple(d['ft']['args'])), (d['class'], '<init>', tuple(d['ft']['args']))} & used:
                res.count('unused declarations')
                continue
            c = W.candidates(d['class'], d['name'], d['ft'])
            lab = '%s.%s' % (d['class'] or 'fisx', d['name'])
            every = W.samename(d['class'], d['name'])
            if not every:
                continue
            res.count('declarations'); res.count('obligations', 2)
            want = [normtype(a) for a in d['ft']['args']]
            if not c:
                res.add('signature', lab, ','.join(want)[:120], 'python/cython/' + d['at'],
                        "%s is declared with parameters (%s); the library has %s" % (lab, ', '.join(want), ' or '.join('(%s)' % ', '.join(W.params(f)) for f in every[:3])))
                continue
            ret = W.rettype(c[0])
            if ret is not None and d['name'] != d['class']:
                a, b = normtype(d['ft']['ret']).replace('std::', '').replace('bint', 'bool').rstrip('*'), normtype(ret).replace('std::', '').rstrip('*')
                if a != b:
                    res.add('signature', lab, 'returns', 'python/cython/' + d['at'], "%s is declared to return %s; it returns %s" % (lab, a, b))

    def method(self, cls, m):
        res, W = self.res, self.W
        fn = W.classes[cls][m]
        lab = '%s.%s' % (cls, m)
        outs, _ = W.outcomes(cls, m)
        if outs is None:
            res.count('methods not understood')
            return
        res.count('methods'); res.count('obligations')
        target = {'<init>'} if m == '__cinit__' else ALIAS.get((cls, m), {m})
        lib = cls[2:] if cls.startswith('Py') else cls
        params = [a['name'] for a in fn['args'] if a['name'] != 'self']
        rets = [o for o in outs if o.kind == 'ret']
        if not rets:
            res.add('no-return', lab, m, fn['at'], "%s never returns" % lab)
            return
        full = {}
        for o in rets:
            res.count('paths')
            mine = [e for e in o.events if e['on'] in ('self', 'new', 'free')]
            tg = [e for e in mine if e['name'] in target and e['cls'] == lib]
            if (cls, m) not in COMPOSITE:
                if len(tg) != 1:
                    res.add('not-forwarded' if not tg else 'forwarded-twice', lab, m, fn['at'],
                            "a path through %s returns %s" % (lab, "without calling the library" if not tg else "after calling the library %d times" % len(tg)))
                    continue
                for e in mine:
                    if e not in tg and not self.const(e) and not (m == '__cinit__' and e['name'].startswith('set')):
                        res.add('other-call', lab, e['name'], e['at'], "%s also calls %s of the library" % (lab, e['name']))
            # ---- arguments
            used = {}
            for e in o.events:
                if self.const(e) and e not in tg and e['on'] != 'local':
                    continue
                self.event(lab, e, params, used, o.unpacked)
            falsy = {p[1] for p in o.state if p[0] == 'arg'}
            for a in fn['args']:
                q = a['name']
                if q == 'self' or q in used:
                    continue
                if q in falsy and (lab, q) in DROPPED or q in falsy:
                    # steering flag: its value must be what is passed
                    continue
                if (lab, q) in DROPPED:
                    continue
                if re.sub(r'\W', '', a['t'] or '') in ('int', 'bint', 'long') and self.steers(cls, m, fn, q, target):
                    continue
                res.add('dropped', lab, q, fn['at'], "on a path through %s the argument '%s' does not reach the library" % (lab, q))
            for e in o.events:
                site = '%s.%s' % (e['cls'], e['name'])
                if site in FULL and e['on'] == 'local' and len(e['args']) == FULL[site]:
                    n = FULL[site]
                    for p in {(p[1], recpath(p)) for a in e['args'] for p in allprov(a) if p[0] == 'arg' and recpath(p) is not None}:
                        full.setdefault((site, p[0]), set()).add(p[1])
            # ---- result
            if (cls, m) in COMPOSITE or m == '__cinit__':
                continue
            self.result(lab, fn, o, tg[0])
        for (site, q), ix in full.items():
            res.count('obligations')
            if ix < set(range(FULL[site])):
                res.add('dropped', lab, '%s:%s:full' % (site, q), fn['at'], "item %s of the entries of '%s' never reaches %s" % (', '.join(str(i) for i in sorted(set(range(FULL[site])) - ix)), q, site))

    def const(self, e):
        c = self.W.candidates(e['cls'], e['name'], e['ft']) if e['ft'] else []
        return bool(c) and all(self.ctx.name(f).const for f in c)

    def steers(self, cls, m, fn, q, target):
        """an integer flag that selects between constants: the constant equals the flag"""
        base = {a['name']: AV('obj', prov=frozenset({('arg', a['name'])})) for a in fn['args'] if a['name'] not in ('self', q)}
        base['self'] = AV('ext:' + cls, ident='self')
        got = {}
        for v in (0, 1):
            d = dict(base)
            d[q] = AV('int', const=v)
            for o in Interp(self.W).run(cls, fn, d):
                for e in o.events:
                    if o.kind == 'ret' and e['name'] in target:
                        for j, a in enumerate(e['args']):
                            got.setdefault(j, {}).setdefault(v, set()).add(a.const)
        return any(g == {0: {0}, 1: {1}} for g in got.values())

    def event(self, lab, e, params, used, unpacked):
        res, W = self.res, self.W
        site = '%s.%s' % (e['cls'], e['name'])
        c = W.candidates(e['cls'], e['name'], e['ft']) if e['ft'] else []
        names = W.cparams(c[0]) if c else []
        pos = {}
        for j, a in enumerate(e['args']):
            res.count('arguments'); res.count('obligations')
            pv = [p for p in allprov(a) if p[0] == 'arg']
            for p in pv:
                used.setdefault(p[1], set()).add(j)
            cn = names[j] if j < len(names) else '#%d' % (j + 1)
            tops = {p[1] for p in pv}
            if len(tops) > 1 and e['on'] != 'local' and not (lab, cn) in ARITH:
                res.add('mixed', lab, '%s:%s' % (site, cn), e['at'], "%s is given a mixture of %s as '%s'" % (site, ', '.join(sorted(tops)), cn))
            for mk, why in badmods(a):
                if not (mk == 'arithmetic' and (lab, cn) in ARITH) and (pv or mk not in ('size',)):
                    res.add('changed', lab, '%s:%s:%s' % (site, cn, mk), e['at'], "%s is given %s '%s' as '%s'" % (site, why, ', '.join(sorted(tops)) or 'a value', cn))
            for why in self.narrowed(a, e['ft']['args'][j] if e['ft'] and j < len(e['ft']['args']) else ''):
                res.add('changed', lab, '%s:%s:%s' % (site, cn, why), e['at'], "%s is given '%s' as '%s' %s" % (site, ', '.join(sorted(tops)) or 'a value', cn, why))
            for p in pv:
                k = recpath(p)
                if k is not None and p[1] not in RECORDS:
                    res.add('changed', lab, '%s:%s:element' % (site, cn), e['at'], "%s is given only element %d of '%s' as '%s'" % (site, k, p[1], cn))
                get = [x for x in p[2:] if x.startswith('.get')]
                key = (p[1], k, get[-1] if get else '')
                pos.setdefault(key, set()).add(j)
            if not pv and not any(p[0] == 'res' for p in allprov(a)):
                t = e['ft']['args'][j] if e['ft'] and j < len(e['ft']['args']) else ''
                if a.const is not None:
                    ok = CONST.get((site, j))
                    if ok is not None and a.const not in ok:
                        res.add('constant', lab, '%s:%s' % (site, cn), e['at'], "%s is always given %r as '%s'" % (site, a.const, cn))
                    elif ok is None and lab not in ('PyElements.initializeAsPyMca',) and 'pymca' not in lab and not self.flagged(lab, cn):
                        res.add('constant', lab, '%s:%s' % (site, cn), e['at'], "%s is always given %r as '%s'" % (site, a.const, cn))
        # ---- positions
        single = {k: list(v)[0] for k, v in pos.items() if len(v) == 1}
        low = [(x or '').lower() for x in names]
        for key, js in pos.items():
            if len(js) > 1 and key[1] is None and not any(e['on'] == 'local' for _ in [0]) and not any((lab, n) in ARITH for n in (names[j] for j in js if j < len(names))):
                res.add('duplicated', lab, '%s:%s' % (site, key[0]), e['at'], "%s is given '%s' as %s" % (site, key[0], ' and '.join("'%s'" % (names[j] if j < len(names) else j + 1) for j in sorted(js))))
        named = set()
        for key, j in single.items():
            want = None
            if key[2]:
                s = key[2][4:].lower()
                want = [i for i, n in enumerate(low) if n and s == n]
            elif key[1] is None:
                want = [i for i, n in enumerate(low) if n and n == key[0].lower()]
            if want:
                if j not in want:
                    res.add('misplaced', lab, '%s:%s' % (site, key[0]), e['at'], "%s is given '%s' as '%s'" % (site, key[0] + (key[2] and key[2] + '()'), names[j] if j < len(names) else j + 1))
                else:
                    named.add(key)
        ks = sorted(single, key=lambda k: (params.index(k[0]) if k[0] in params else 99, -1 if k[1] is None else k[1]))
        for x in range(len(ks)):
            for y in range(x + 1, len(ks)):
                p, q = ks[x], ks[y]
                if p in named or q in named or p[2] or q[2] or p[0] == q[0] and p[1] is None:
                    continue
                i, j = single[p], single[q]
                ts = [normtype(t) for t in e['ft']['args']] if e['ft'] else []
                if i > j and i < len(ts) and j < len(ts) and (ts[i] == ts[j] or p[1] is not None):
                    res.add('misplaced', lab, '%s:%s' % (site, p[0] if p[1] is None else '%s[%d]' % (p[0], p[1])), e['at'],
                            "%s is given '%s' before '%s'" % (site, q[0] if q[1] is None else 'item %d' % q[1], p[0] if p[1] is None else 'item %d' % p[1]))
        recs = {}
        for k in pos:
            if k[1] is not None:
                recs.setdefault(k[0], set()).add(k[1])
        for r, ix in recs.items():
            n = max([max(ix) + 1] + [k for p, k in unpacked.items() if p[1] == r])
            if e['on'] == 'local' and ix != set(range(n)):
                res.add('dropped', lab, '%s:%s' % (site, r), e['at'], "%s is not given item %s of each entry of '%s'" % (site, ', '.join(str(i) for i in sorted(set(range(n)) - ix)), r))

    def narrowed(self, a, t):
        """number types on the way that are narrower than the one the library takes"""
        t = normtype(t)
        m = {x[3:] for x in allmod(a) if x.startswith('as:')}
        if re.search(r'\bdouble\b', t) and not re.search(r'\b(int|float)\b', t):
            if 'float' in m:
                return ["rounded to single precision"]
            if m:
                return ["reduced to an integer"]
        elif re.search(r'\bint\b', t) and not re.search(r'\b(double|short|char)\b', t):
            if m & {'short', 'char', 'bint'}:
                return ["reduced to a smaller integer"]
            if 'float' in m:
                return ["rounded to single precision"]
        return []

    def flagged(self, lab, cn):
        """the wrapper has a parameter that selects this constant (checked by steers)"""
        cls, m = lab.split('.', 1)
        fn = self.W.classes[cls][m]
        low = (cn or '').lower()
        for a in fn['args']:
            q = a['name'].lower()
            if q != 'self' and q and (q == low or low.startswith(q) or q.startswith(low)) and re.sub(r'\W', '', a['t'] or 'pyobject') in ('int', 'bint', 'long', 'pyobject'):
                return True
        return False

    def result(self, lab, fn, o, t):
        res, W = self.res, self.W
        ret = (t['ft'] or {}).get('ret') or 'void'
        if normtype(ret) == 'void':
            if t['ft'] is None or o.value.k == 'none' or o.value.k == 'cpp:void':
                return
            res.add('result', lab, 'invented', fn['at'], "%s answers something the library did not compute" % lab)
            return
        res.count('results'); res.count('obligations')
        pv = {p for p in allprov(o.value) if p[0] == 'res'}
        if ('res', t['id']) not in pv:
            res.add('result', lab, 'lost', fn['at'], "on a path through %s the answer of the library is not returned" % lab)
            return
        if any(p[0] == 'arg' for p in allprov(o.value)):
            res.add('result', lab, 'mixed', fn['at'], "%s mixes its arguments into the answer of the library" % lab)
        for mk, why in badmods(o.value):
            if mk == 'order' and lab in SORTED:
                continue
            res.add('result', lab, mk, fn['at'], "%s returns %s the answer of the library" % (lab, why))
        if lab in WHOLE:
            subs = o.value.sub if isinstance(o.value.sub, (list, tuple)) else []
            for i, x in enumerate(subs):
                ks = {mm for mm in allmod(x) if mm.startswith('index ')}
                if ks and ks != {'index %d' % i}:
                    res.add('result', lab, 'order', fn['at'], "%s returns %s in place %d" % (lab, ', '.join(sorted(ks)), i))
            return
        for mk in sorted(allmod(o.value)):
            if mk.startswith('index'):
                res.add('result', lab, mk, fn['at'], "%s returns only element %s of the answer of the library" % (lab, mk[6:] or '?'))
                return
        I = Interp(W)
        full = I.topy(AV('cpp:' + re.sub(r'\s+', '', ret).replace('&', '').replace('const', '')), fn['at'])
        a, b = shape(full), shape(o.value)
        if differ(a, b):
            res.add('result', lab, 'reshaped', fn['at'], "%s answers %s, the library %s" % (lab, show(b), show(a)))

    def helpers(self):
        res, W = self.res, self.W
        S = lambda k, n: AV(k, prov=frozenset({('arg', n)}))
        cases = {
            'toBytes': [(S('str', 'x'), 'text', 'bytes'), (S('bytes', 'x'), 'text', 'bytes'), (S('float', 'x'), 'float', 'float')],
            'toString': [(S('str', 'x'), 'text', 'str'), (S('bytes', 'x'), 'text', 'str'), (S('float', 'x'), 'float', 'float')],
        }
        for k in ('str', 'bytes'):
            d = AV('dict', (S(k, 'k'), S('float', 'v')))
            for h, to in (('toBytesKeys', 'bytes'), ('toBytesKeysAndValues', 'bytes'), ('toStringKeys', 'str'), ('toStringKeysAndValues', 'str')):
                cases.setdefault(h, []).append((d, ('dict', 'text', 'float'), to))
            cases.setdefault('toStringList', []).append((AV('list', S(k, 'k')), ('list', 'text'), 'str'))
        for h, cs in cases.items():
            fn = W.helpers.get(h)
            if fn is None:
                res.count('helpers absent')
                continue
            for v, sh, to in cs:
                res.count('helper cases'); res.count('obligations')
                name = [a['name'] for a in fn['args']][0]
                try:
                    outs = Interp(W).run('', fn, {name: v})
                except Exception as ex:
                    res.notes.append("helper %s not understood: %s" % (h, ex))
                    continue
                for o in outs:
                    if o.kind == 'err':
                        res.add('helper', h, v.k, o.err.at or '', "%s fails on %s: %s" % (h, v.k, o.err.msg))
                        continue
                    r = o.value
                    bad = [w for mk, w in badmods(r)]
                    if bad:
                        res.add('helper', h, 'changed', fn['at'], "%s returns %s its argument" % (h, bad[0]))
                    if differ(sh, shape(r)):
                        res.add('helper', h, 'reshaped', fn['at'], "%s turns %s into %s" % (h, show(sh), show(shape(r))))
                    lost = {p for p in allprov(v)} - {p for p in allprov(r)}
                    if lost and shape(r) != '?':
                        res.add('helper', h, 'lost', fn['at'], "%s loses a part of its argument" % h)
                    x = r
                    while x is not None and x.k in ('list', 'dict'):
                        x = (x.sub[0] if isinstance(x.sub, (tuple, list)) and x.sub else x.sub) if x.sub is not None else None
                    if x is not None and x.k in ('str', 'bytes') and x.k != to:
                        res.add('helper', h, 'kind', fn['at'], "%s leaves %s where %s is needed" % (h, x.k, to))


def run(ctx):
    res = Result()
    W = ctx.W
    res.rule = ("abstract interpretation of every public wrapper method and constructor over Cython's typed tree, with the origin of every value (which argument, which element, which library answer) and "
                "the transformations applied to it; obligations: the declarations used to call the library have its parameter and result types; every returning path calls the library function of the same "
                "name exactly once; every argument arrives whole, unmodified (text is encoded as UTF-8), in its own place; the answer is returned whole with the structure the library gave it")
    res.notes = ["an argument that is None or empty on a path may be left out on it", "the tables of aliases, constants and accepted omissions are in the rule"]
    R = Rule(ctx, res)
    R.declarations()
    R.helpers()
    for cls in sorted(W.classes):
        if '__cinit__' not in W.classes[cls]:
            continue
        for m in W.public(cls) + ['__cinit__']:
            R.method(cls, m)
    defaults(W, res)
    sentinels(W, res)
    if W.unread:
        res.notes.append('not understood: %s' % W.unread)
    res.need('methods', 110)
    res.need('declarations', 110)
    res.need('arguments', 200)
    return res
