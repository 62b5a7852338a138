"""Invalid physical quantities and inconsistent lists are rejected at every entry point; valid ones are accepted."""
from ..core import Result, AnalysisError
from ..absint import Interp, Iv, C, R, POS, NEG, ZERO, NONNEG, INF

GE1 = Iv(1, True, INF, False)
LE0 = Iv(-INF, False, 0, True)


def val(k, v):
    return {('P%d' % k, ()): v}


def size(k, n, *path):
    return {('#P%d' % k, path): n if isinstance(n, Iv) else C(n)}


def lst(k, *v):
    """list/map argument k with exactly these values (numbers or ranges)"""
    m = size(k, len(v))
    for j, x in enumerate(v):
        m[('P%d' % k, ('[%d]' % j,))] = x if isinstance(x, Iv) else C(x)
    return m


def entries(k, *kv):
    """map argument k with exactly these (key, value) entries, in this order"""
    m = size(k, len(kv))
    for j, (x, y) in enumerate(kv):
        for n, z in (('first', x), ('second', y)):
            m[('P%d' % k, ('[%d]' % j, n))] = z if isinstance(z, Iv) else C(z)
    return m


def J(*ds):
    m = {}
    for d in ds:
        m.update(d)
    return m


def bad_at(k, bad, good, n=3):
    """one bad value among n, at each position"""
    for b in range(n):
        yield 'value %d of %d %s' % (b + 1, n, bad), lst(k, *[bad if j == b else good for j in range(n)])


def scenarios(ctx):
    """(class, method, number of parameters, text in first parameter types, [(what, memory, 'reject'|'accept')])"""
    S = []

    def add(cls, name, np, types, *cases):
        S.append((cls, name, np, types, list(cases)))
    X, A = 'reject', 'accept'
    for name in ('setDensity', 'setThickness'):
        add('Layer', name, 1, (), ('negative', val(1, NEG), X), ('zero', val(1, ZERO), X), ('positive', val(1, POS), A))
    for name in ('setActiveArea', 'setDiameter'):
        add('Detector', name, 1, (), ('negative', val(1, NEG), X), ('zero', val(1, ZERO), A), ('positive', val(1, POS), A))
    add('Detector', 'setDistance', 1, (), ('negative', val(1, NEG), X), ('zero', val(1, ZERO), X), ('positive', val(1, POS), A))
    add('Element', 'setAtomicMass', 1, (), ('negative', val(1, NEG), X), ('positive', val(1, POS), A))
    add('Element', 'setAtomicNumber', 1, (), ('below 1', val(1, LE0), X), ('1 or more', val(1, GE1), A))
    add('Element', 'Element', 2, (), ('atomic number below 1', val(2, LE0), X), ('atomic number 1 or more', val(2, GE1), A))
    ok = J(size(1, R(1, 20)), val(2, POS), val(3, POS))
    for name in ('initialize', 'Material'):
        bad = [(w, J(ok, d), X) for w, d in (('negative density', val(2, NEG)), ('zero density', val(2, ZERO)), ('negative thickness', val(3, NEG)),
                                             ('zero thickness', val(3, ZERO)), ('empty name', size(1, 0)))]
        add('Material', name, 4, (), *bad, ('positive density and thickness', J(ok, size(0, 0, 'name'), {('P0', ('initialized',)): C(0)}), A))
    for name, np in (('createMaterial', 4), ('addMaterial', 5)):
        bad = [(w, J(ok, d), X) for w, d in (('negative density', val(2, NEG)), ('zero density', val(2, ZERO)), ('negative thickness', val(3, NEG)),
                                             ('zero thickness', val(3, ZERO)), ('empty name', size(1, 0)))]
        add('Elements', name, np, (), *bad)
    add('Material', 'setComposition', 2, (),
        *[('amount: ' + w, J(size(1, 3), m), X) for b in (NEG, ZERO) for w, m in bad_at(2, b, POS)],
        ('positive amounts', J(size(1, 3), lst(2, POS, POS, POS)), A),
        ('fewer amounts than names', J(size(1, 3), lst(2, POS, POS)), X), ('more amounts than names', J(size(1, 2), lst(2, POS, POS, POS)), X))
    add('Material', 'setComposition', 1, (), *[('amount: ' + w, m, X) for b in (NEG, ZERO) for w, m in bad_at(1, b, POS)],
        ('positive amounts', lst(1, POS, POS, POS), A))
    for cls, name, np, types in (('TransmissionTable', 'setTransmissionTable', 4, ()),):
        fresh = J(size(0, 0, 'name'), size(0, 0, 'comment'))
        up = lst(1, C(1), C(5), C(20))
        add(cls, name, np, types,
            *[('energy: ' + w, J(fresh, m, lst(2, POS, POS, POS)), X) for w, m in bad_at(1, NEG, POS)],
            *[('transmission: ' + w, J(fresh, up, m), X) for w, m in bad_at(2, NEG, POS)],
            ('energies 1 20 5', J(fresh, lst(1, C(1), C(20), C(5)), lst(2, POS, POS, POS)), X),
            ('energies 20 5 6', J(fresh, lst(1, C(20), C(5), C(6)), lst(2, POS, POS, POS)), X),
            ('energies 1 5 20', J(fresh, up, lst(2, ZERO, POS, POS)), A),
            ('energies 0 5 5', J(fresh, lst(1, C(0), C(5), C(5)), lst(2, POS, POS, POS)), A),
            ('fewer transmissions', J(fresh, up, lst(2, POS, POS)), X), ('more transmissions', J(fresh, lst(1, C(1), C(2)), lst(2, POS, POS, POS)), X),
            ('second name', J(up, lst(2, POS, POS, POS), size(0, GE1, 'name'), size(3, GE1)), X),
            ('second comment', J(up, lst(2, POS, POS, POS), size(0, GE1, 'comment'), size(4, GE1)), X))
    add('TransmissionTable', 'setTransmissionTable', 3, ('map',),
        *[('negative transmission of entry %d of 3' % (b + 1), entries(1, *[(k, NEG if j == b else NONNEG) for j, k in enumerate((e, 5, 20))]), X)
          for b in range(3) for e in (0, 1)],
        ('negative first energy', entries(1, (NEG, 1), (5, 1)), X), ('energies 0 5 20', J(size(0, 0, 'name'), size(0, 0, 'comment'), entries(1, (0, ZERO), (5, POS), (20, POS))), A),
        ('second name', J(lst(1, POS, POS), size(0, GE1, 'name'), size(2, GE1)), X),
        ('second comment', J(lst(1, POS, POS), size(0, GE1, 'comment'), size(3, GE1)), X))
    add('EPDL97', 'getBindingEnergies', 1, (), ('atomic number below 1', val(1, LE0), X))
    add('EPDL97', 'setBindingEnergies', 2, (), ('atomic number below 1', val(1, LE0), X))
    add('EPDL97', 'getMassAttenuationCoefficients', 1, (), ('atomic number below 1', val(1, LE0), X),
        ('nothing loaded', {('P0', ('initialized',)): C(0)}, X))
    add('EPDL97', 'getMassAttenuationCoefficients', 2, ('int',), ('atomic number below 1', J(val(1, LE0), size(2, 2)), X),
        ('nothing loaded', J({('P0', ('initialized',)): C(0)}, size(2, 2)), X))
    # Math
    add('Math', 'E1', 1, (), ('zero', val(0, ZERO), X), ('between 0 and 1', val(0, Iv(0, False, 1, False)), A), ('negative', val(0, NEG), A))
    add('Math', 'En', 2, (), ('order 0', val(0, C(0)), X), ('negative order', val(0, C(-3)), X), ('order 2 at 0', J(val(0, C(2)), val(1, ZERO)), A))
    for k in (0, 1, 2):
        for w, v in (('zero', ZERO), ('negative', NEG)):
            add('Math', 'deBoerL0', 5, (), ('%s attenuation %d' % (w, k + 1), J(*[val(j, v if j == k else POS) for j in range(3)]), X))
    # lists of unequal length
    for cls, name in (('Shell', 'setRadiativeTransitions'), ('Shell', 'setNonradiativeTransitions'), ('Element', 'setBindingEnergies')):
        add(cls, name, 2, (), ('fewer values than labels', J(size(1, 3), size(2, 2)), X), ('more values than labels', J(size(1, 2), size(2, 3)), X))
    for name in ('setRadiativeTransitions', 'setNonradiativeTransitions'):
        add('Element', name, 3, (), ('fewer values than labels', J(size(2, 3), size(3, 2)), X), ('more values than labels', J(size(2, 2), size(3, 3)), X))
    for np in (5,):
        base = J(lst(1, C(1), C(2), C(3)), size(2, 3), size(3, 3), size(4, 3), size(5, 0))
        cases = []
        for k, w in ((2, 'photoelectric'), (3, 'coherent'), (4, 'Compton'), (5, 'pair')):
            for n in (1, 2, 4):
                cases.append(('%d %s values for 3 energies' % (n, w), J(base, size(k, n)), X))
            if k != 5:
                cases.append(('no %s values for 3 energies' % w, J(base, size(k, 0)), X))
        for b in ((1, 3, 2), (3, 2, 4), (2, 1, 1)):
            cases.append(('energies %s %s %s' % b, J(base, lst(1, *[C(x) for x in b])), X))
        add('Element', 'setMassAttenuationCoefficients', np, ('std::vector',), *cases)
        cases = []
        base = J(size(2, 3), size(3, 3), size(4, 3), size(5, 3), size(6, 0))
        for k, w in ((3, 'photoelectric'), (4, 'coherent'), (5, 'Compton'), (6, 'pair')):
            for n in (1, 2, 4):
                cases.append(('%d %s values for 3 energies' % (n, w), J(base, size(k, n)), X))
        cases.append(('no energies', J(*[size(k, 0) for k in range(2, 7)]), X))
        add('Elements', 'setMassAttenuationCoefficients', 6, (), *cases)
    add('Element', 'setPartialPhotoelectricMassAttenuationCoefficients', 3, (),
        ('fewer values', J(lst(2, C(1), C(2), C(3)), size(3, 2)), X), ('more values', J(lst(2, C(1), C(2)), size(3, 3)), X),
        ('energies 1 3 2', J(lst(2, C(1), C(3), C(2)), size(3, 3)), X), ('energies 3 1 4', J(lst(2, C(3), C(1), C(4)), size(3, 3)), X),
        ('negative first energy', J(lst(2, C(-1), C(1), C(2)), size(3, 3)), X))
    # layer indices and families
    for cls in ('XRFConfig', 'XRF'):
        add(cls, 'setSample', 2, (), ('reference layer = number of layers', J(size(1, 3), val(2, C(3))), X), ('reference layer beyond', J(size(1, 3), val(2, C(9))), X),
            ('no layers', J(size(1, 0), val(2, C(0))), X), ('negative reference layer', J(size(1, R(1, 9)), val(2, Iv(-INF, False, -1, True))), X), ('last layer', J(size(1, 3), val(2, C(2))), A), ('first layer', J(size(1, 1), val(2, C(0))), A))
    det = {('P0', ('configuration', 'detector', 'diameter')): POS}
    add('XRF', 'getGeometricEfficiency', 1, (), ('negative layer', J(det, val(1, Iv(-INF, False, -1, True))), X),
        ('layer 3 of 3', J(det, val(1, C(3)), size(0, 3, 'configuration', 'sample')), X), ('layer 2 of 3', J(det, val(1, C(2)), size(0, 3, 'configuration', 'sample')), A),
        ('layer 0', J(det, val(1, C(0))), A))
    for w, m in (('3 elements, 2 families', J(size(1, 3), size(4, 2), size(3, 3))), ('3 elements, no family', J(size(1, 3), size(4, 0), size(3, 1))),
                 ('3 elements, no layer', J(size(1, 3), size(4, 3), size(3, 0))), ('3 elements, 2 layers', J(size(1, 3), size(4, 3), size(3, 2)))):
        add('XRF', 'getMultilayerFluorescence', 9, ('vector',), (w, m, X))
    for k, w in ((2, 'weights'), (3, 'characteristic flags'), (4, 'divergencies')):
        base = J(size(1, 3), size(2, 1), size(3, 0), size(4, 0))
        add('Beam', 'setBeam', 4, ('vector',), *[('%d %s for 3 energies' % (n, w), J(base, size(k, n)), X) for n in (2, 4)],
            *[('%d %s for 3 energies' % (n, w), J(base, size(k, n)), A) for n in (0, 1, 3)])
    add('XRF', 'getMultilayerFluorescence', 9, ('string',),
        ('negative layer', J(val(3, Iv(-INF, False, -1, True)), size(4, 1)), X), ('no line family', J(val(3, C(0)), size(4, 0)), X))
    add('Shell', 'Shell', 1, ('string',), ('empty name', size(1, 0), X), ('three letters', size(1, 3), X), ('longer', size(1, R(3, 20)), X))
    # nothing there
    def empty(cls, k=0):
        m = {}
        for n, t, l, a in ctx.M.classes[cls].fields:
            if a != 'base' and ('map<' in t or 'vector<' in t):
                m[('#P%d' % k, (n,))] = C(0)
        return m
    e = J(empty('Elements'), size(1, 2))
    for name, np in (('getElement', 1), ('getElementCopy', 1), ('getMaterial', 1), ('getMaterialCopy', 1), ('removeMaterial', 1),
                     ('setMaterialComposition', 2), ('setMaterialComposition', 3), ('getAtomicMass', 1), ('getAtomicNumber', 1), ('getBindingEnergies', 1),
                     ('getDensity', 1), ('getLongName', 1), ('getRow', 1), ('getColumn', 1), ('getShellConstants', 2), ('getRadiativeTransitions', 2),
                     ('getNonradiativeTransitions', 2), ('getEmittedXRayLines', 2), ('setElementCascadeCacheEnabled', 2), ('isElementCascadeCacheFilled', 1),
                     ('fillElementCascadeCache', 1), ('emptyElementCascadeCache', 1), ('fillCache', 2), ('setCacheEnabled', 2), ('updateCache', 2),
                     ('clearCache', 1), ('isCacheEnabled', 1), ('getCacheSize', 1), ('setMassAttenuationCoefficients', 6),
                     ('getInitialPhotoelectricVacancyDistribution', 2), ('getCascadeModifiedVacancyDistribution', 2), ('getXRayLinesFromVacancyDistribution', 4)):
        add('Elements', name, np, (), ('name not in the library', e, X))
    e = J(empty('Element'), size(1, 2))
    for name, np in (('getShellConstants', 1), ('getRadiativeTransitions', 1), ('getNonradiativeTransitions', 1), ('getXRayLines', 1), ('getShell', 1),
                     ('setRadiativeTransitions', 2), ('setRadiativeTransitions', 3), ('setNonradiativeTransitions', 2), ('setNonradiativeTransitions', 3),
                     ('setShellConstants', 2), ('setPartialPhotoelectricMassAttenuationCoefficients', 3)):
        add('Element', name, np, (), ('shell the element does not have', e, X))
    return S


def run(ctx):
    res = Result()
    res.rule = ("interval abstract interpretation of every listed entry point for each scenario (ranges of scalar arguments, sizes and elements of list "
                "arguments, loops over lists of known length kept apart per iteration): for an invalid input no normal return may be reachable, for a "
                "valid one no exception; NaN is not modelled; obligations = scenarios")
    I = Interp(ctx, unroll=5)
    by = {}
    for f in ctx.M.functions.values():
        n = ctx.name(f)
        if n.scope.startswith('fisx::') and n.scope[6:] in ctx.M.classes:
            k = len([p for p in n.params if p != 'void'])
            by.setdefault((n.scope[6:], n.base, k), []).append(f)
    missing = []
    for cls, name, np, types, cases in scenarios(ctx):
        fs = [f for f in by.get((cls, name, np), ()) if all(any(t in p for p in ctx.name(f).params[:1]) for t in types)]
        if not fs:
            missing.append('%s::%s/%d' % (cls, name, np))
            continue
        for f in fs:
            if not ctx.is_public(f) and cls != 'Math':
                continue
            for what, mem, want in cases:
                res.count('obligations')
                res.count('must reject' if want == 'reject' else 'must accept')
                o = I.run(f, mem)
                w = "%s:%s" % (f.file.replace('/repo/', '') if f.file else cls, f.line)
                if want == 'reject' and o.ret is not None:
                    res.add('accepted', ctx.short(f), what, w, "%s can return normally for this invalid input: %s" % (ctx.sig(f)[:140], what))
                elif want == 'reject' and not o.throws:
                    res.add('no exception', ctx.short(f), what, w, "%s neither returns nor throws for: %s" % (ctx.sig(f)[:140], what))
                elif want == 'accept' and o.throws:
                    res.add('rejected', ctx.short(f), what, w, "%s may reject this valid input: %s" % (ctx.sig(f)[:140], what),
                            ['exception at %s' % (i.where() if i is not None else '?') for i in o.throws])
                else:
                    res.sample("%s %ss: %s" % (ctx.short(f), want, what), 40)
    res.notes.append('entry points not present in this tree: ' + ', '.join(sorted(set(missing))) if missing else 'all listed entry points present')
    res.need('obligations', 150)
    return res
