"""Every argument and every configured quantity can influence the outcome it is documented to influence."""
import re
from ..core import Result
from ..vflow import VFlow
from ..regions import rstr
from .. import caches

# (class, query): members the answer depends on, from the documentation of the classes (path components without [] and *)
LAYER = ['density', 'thickness', 'funnyFactor']
MAT = ['materialName', 'material']
ELMU = ['elementList.mu', 'elementList.muPartialPhotoelectricEnergy', 'elementList.muPartialPhotoelectricValue']
GEOM = ['configuration.alphaIn', 'configuration.alphaOut']
TABLE = {
    ('Layer', 'getTransmission'): LAYER + MAT,
    ('Layer', 'getComposition'): MAT,
    ('Layer', 'getPeakFamilies'): MAT,
    ('Layer', 'getMassAttenuationCoefficients'): MAT,
    ('Detector', 'getActiveArea'): ['diameter'],
    ('Detector', 'getEscape'): MAT + ['escapePeakEnergyThreshold', 'escapePeakIntensityThreshold', 'escapePeakNThreshold', 'escapePeakAlphaIn'],
    ('TransmissionTable', 'getTransmission'): ['transmissionTable'],
    ('XRF', 'getGeometricEfficiency'): ['configuration.alphaOut', 'configuration.detector.diameter', 'configuration.detector.distance',
                                        'configuration.referenceLayer', 'configuration.sample.thickness'],
    ('XRF', 'getMultilayerFluorescence'):
        GEOM + ['configuration.beam.rays.energy', 'configuration.beam.rays.weight', 'configuration.referenceLayer', 'configuration.materials',
                'configuration.detector.diameter', 'configuration.detector.distance', 'configuration.detector.materialName',
                'configuration.detector.density', 'configuration.detector.thickness', 'configuration.detector.funnyFactor',
                'configuration.userBeamFilters.transmissionTable', 'configuration.userAttenuators.transmissionTable'] +
        ['configuration.%s.%s' % (s, m) for s in ('beamFilters', 'sample', 'attenuators') for m in LAYER + MAT],
    ('XRF', 'getLayerComposition'): ['configuration.materials'],
    ('XRF', 'getLayerTransmission'): ['configuration.materials'],
    ('XRF', 'getLayerMassAttenuationCoefficients'): ['configuration.materials'],
    ('XRF', 'getLayerPeakFamilies'): ['configuration.materials'],
    ('Element', 'getMassAttenuationCoefficients/1'): ['mu', 'muPartialPhotoelectricEnergy', 'muPartialPhotoelectricValue'],
    ('Element', 'getInitialPhotoelectricVacancyDistribution'): ['mu', 'muPartialPhotoelectricValue', 'bindingEnergy'],
    ('Element', 'getExcitedShells'): ['bindingEnergy'],
    ('Element', 'getTransitionEnergy'): ['bindingEnergy'],
    ('Element', 'getEmittedXRayLines'): ['bindingEnergy', 'shellInstance'],
    ('Element', 'getXRayLines'): ['shellInstance.fluorescenceRatios'],
    ('Element', 'getXRayLinesFromVacancyDistribution'): ['bindingEnergy', 'shellInstance.shellConstants', 'shellInstance.fluorescenceRatios'],
    ('Element', 'getCascadeModifiedVacancyDistribution'): ['shellInstance.shellConstants', 'shellInstance.fluorescenceRatios', 'shellInstance.augerRatios'],
    ('Element', 'getPhotoelectricExcitationFactors'): ['mu', 'muPartialPhotoelectricValue', 'bindingEnergy', 'shellInstance.shellConstants',
                                                        'shellInstance.fluorescenceRatios'],
    ('Elements', 'getMassAttenuationCoefficients/2'): ELMU,
    ('Elements', 'getComposition'): ['materialList.composition', 'elementList.atomicMass'],
    ('Elements', 'getCompositionFromFormula'): ['elementList.atomicMass'],
    ('Elements', 'getExcitationFactors'): ELMU + ['elementList.bindingEnergy', 'elementList.shellInstance.shellConstants'],
    ('Elements', 'getPeakFamilies'): ['elementList.bindingEnergy'],
    ('Elements', 'getEscape'): ELMU + ['elementList.shellInstance.fluorescenceRatios'],
    ('Shell', 'getFluorescenceYield'): ['shellConstants'],
    ('Shell', 'getDirectVacancyTransferRatios'): ['augerRatios', 'costerKronigRatios', 'fluorescenceRatios'],
    ('Beam', 'getBeamAsDoubleVectors'): ['rays.energy', 'rays.weight', 'rays.characteristic', 'rays.divergency'],
}


# numeric arguments that select (are compared), everything else must enter the computed values
SELECT_NAME = re.compile(r'(Threshold|Limit|^optimizationFactor)$')
SELECT = {('energy', 'getEmittedXRayLines'), ('energy', 'getExcitedShells'), ('energy', 'getPeakFamilies'), ('energy', 'getLayerPeakFamilies'),
          ('x', 'getInterpolationIndices')}
SELECT_MEMBER = re.compile(r'escapePeak(Intensity|Energy|N)Threshold|getExcitedShells.*bindingEnergy|getPeakFamilies.*bindingEnergy|getEmittedXRayLines.*shellInstance|getInitialPhotoelectricVacancyDistribution.*bindingEnergy')


def plain(path):
    return [x for x in path if x not in ('[]', '*') and not x.startswith('[')]


def exc_outcome(ctx, V, f):
    """labels deciding whether the function throws"""
    cfg = ctx.F.cfg(f)
    val, cont, ctl = V.fn[f.name]
    live_ret = set()
    st = [b for b, k in cfg.exits.items() if k == 'ret']
    live_ret |= set(st)
    while st:
        b = st.pop()
        for p in cfg.pred[b]:
            if p not in live_ret:
                live_ret.add(p); st.append(p)
    m = 0
    for b in live_ret:
        t = f.blocks[b].insts[-1]
        if t.op in ('br', 'switch') and t.ops and any(s not in live_ret for s in t.labels):
            m |= val.get(t.ops[0], 0) | ctl.get(b, 0)
    return m


def origin(f, o, params):
    """caller parameter an argument is (or is a plain copy of)"""
    for _ in range(6):
        if o in params:
            return params[o]
        d = f.defs.get(o) if isinstance(o, str) else None
        if d is None:
            return None
        if d.op in ('load', 'sext', 'zext', 'trunc', 'freeze', 'bitcast'):
            o = d.ops[0]
            continue
        if d.op == 'alloca':
            st = [u for u in f.insts() if u.op == 'store' and u.ops[1] == o]
            if len(st) == 1:
                o = st[0].ops[0]
                continue
        return None
    return None


def swapped(ctx, res):
    """an argument of the caller handed to another role of the callee while the callee's equally named parameter gets something else"""
    for f in sorted(ctx.M.functions.values(), key=lambda f: ctx.sig(f)):
        info = ctx.R.infos[f.name]
        params = {p: f.pnames[p] for p in f.params if f.pnames.get(p) and f.pnames[p] != 'this'}
        if not params:
            continue
        for i in f.insts():
            if i.op not in ('call', 'invoke') or not i.callee or i.callee.startswith('%'):
                continue
            g = ctx.M.resolve(i.callee)
            if g is None or len(g.params) != len(i.args):
                continue
            res.count('forwarding_calls')
            gn = [g.pnames.get(p) for p in g.params]
            og = [origin(f, a, params) for a in i.args]
            for k, (n, m) in enumerate(zip(og, gn)):
                if n is None or m is None or n == m or n not in gn:
                    continue
                j = gn.index(n)
                if og[j] is not None and og[j] != n and g.ptypes[j] == g.ptypes[k] and ctx.name(g).params[-1:]:
                    res.count('obligations')
                    res.add('swapped-arguments', ctx.short(f), '%s->%s' % (n, m), i.where(),
                            "%s passes its argument '%s' as '%s' of %s, whose parameter '%s' receives '%s'" % (ctx.sig(f)[:110], n, m, ctx.short(g), n, og[j]))


def run(ctx):
    res = Result()
    res.rule = ("May-influence analysis (SSA def-use, memory regions with field and container granularity, control dependence, through calls; the test whether "
                "a cached answer may be used and branches that only reject input do not count): each named parameter of each public operation must influence "
                "the result, the receiver or another output; each member in a hand-written table must influence the queries documented to use it. "
                "The analysis over-approximates influence, so a report is definite.")
    cut = {n for n in ctx.M.functions if ctx.M.functions[n].rettype.endswith('i1') and
           any(any(x.endswith('UsedInCache') for x in r[1]) for r in ctx.R.sum[n].reads)}
    V = VFlow(ctx, cut=cut)
    D = VFlow(ctx, cut=cut, control=False)
    for f in sorted(ctx.M.functions.values(), key=lambda f: ctx.sig(f)):
        pub = ctx.is_public(f)
        n = ctx.name(f)
        if not pub or ctx.is_dtor(f) or n.base.startswith('operator'):
            continue
        cfg = ctx.F.cfg(f)
        if not any(k == 'ret' and b in cfg.reach for b, k in cfg.exits.items()):
            res.count('never_returning')
            continue
        s = V.sum[f.name]
        info = ctx.R.infos[f.name]
        allm = 0
        for o, m in s.items():
            if o != ('ret',) and o[0][0] == 'P' and any(x in caches.ALLCACHE for x in o[1]):
                continue
            allm |= m
        infl = {}
        for lab in V.names(allm):
            infl.setdefault(lab[0], []).append(lab)
        meth = ctx.is_method(f)
        for p in f.params:
            ix = info.pindex[p]
            if ix == 'RET' or (ix == 'P0' and meth):
                continue
            nm = f.pnames.get(p)
            if not nm:
                continue            # unnamed: documented as unused
            res.count('parameters'); res.count('obligations')
            if ix in infl:
                q = [x for x in n.params if x != 'void']
                k = int(ix[1:]) - (1 if meth else 0)
                if k < len(q) and q[k] in ('double const&', 'double') and not SELECT_NAME.search(nm) and (nm, n.base) not in SELECT:
                    res.count('value_parameters')
                    if not any(l[0] == ix for o, m in D.sum[f.name].items() for l in D.names(m)):
                        res.add('value-unused', ctx.short(f), nm, '%s:%s' % (f.file, f.line),
                                "the value of argument '%s' of %s enters no computed result (it is only compared)" % (nm, ctx.sig(f)[:150]))
                continue
            if re.match(r'^errorOn', nm):
                if any(l[0] == ix for l in V.names(exc_outcome(ctx, V, f))):
                    continue
            # caches: operations whose purpose is the cache
            if any(l[0] == ix for o, m in s.items() for l in V.names(m)) and re.search(r'[cC]ache', n.base):
                continue
            # out-parameter: influence of the caller's storage is its being written
            if any(o != ('ret',) and o[0] == ix for o in s):
                continue
            res.add('dead-parameter', ctx.short(f), nm, '%s:%s' % (f.file, f.line),
                    "argument '%s' of %s cannot influence the result, the object or any output" % (nm, ctx.sig(f)[:150]))
        outm = 0
        for o, m in s.items():
            if o == ('ret',) or o[0] == 'RET' or (o[0] != 'P0' and o[0][0] == 'P'):
                outm |= m
        for key in ((n.cls, n.base), (n.cls, '%s/%d' % (n.base, len([q for q in n.params if q != 'void'])))):
            if key not in TABLE:
                continue
            res.count('queries_in_table')
            doutm = 0
            for o, m in D.sum[f.name].items():
                if o == ('ret',) or o[0] == 'RET' or (o[0] != 'P0' and o[0][0] == 'P'):
                    doutm |= m
            dpaths = [plain(l[1]) for l in D.names(doutm) if l[0] == 'P0']
            paths = [plain(l[1]) for l in V.names(outm) if l[0] == 'P0']
            for mem in TABLE[key]:
                want = mem.split('.')
                res.count('members_in_table'); res.count('obligations')
                if not any(q[:len(want)] == want for q in paths):
                    res.add('dead-member', ctx.short(f), mem, '%s:%s' % (f.file, f.line),
                            "%s does not depend on %s: changing it can never change the answer" % (ctx.sig(f)[:150], mem))
                elif not any(q[:len(want)] == want for q in dpaths) and not SELECT_MEMBER.search(n.base + ' ' + mem):
                    res.add('value-unused', ctx.short(f), mem, '%s:%s' % (f.file, f.line),
                            "the value of %s enters no result of %s (it is only compared)" % (mem, ctx.sig(f)[:150]))
    swapped(ctx, res)
    res.need('parameters', 350); res.need('queries_in_table', 40); res.need('members_in_table', 130)
    res.notes = ["influence through a cache is not influence: the answer must be computable without it", "parameters without a name are documented as unused"]
    return res
