"""What was set is what is read back, and setting one thing leaves the others alone."""
from ..core import Result
from ..ident import Ident, under
from ..regions import rstr
from ..vflow import VFlow
from .. import caches

# class -> getter -> operations (name/number of parameters, position) after which it returns that argument
T = {
    'Element': {
        'getName/0': [('setName/1', 1), ('Element/2', 1)],
        'getLongName/0': [('setLongName/1', 1)],
        'getDensity/0': [('setDensity/1', 1)],
        'getColumn/0': [('setColumn/1', 1)],
        'getRow/0': [('setRow/1', 1)],
        'getAtomicMass/0': [('setAtomicMass/1', 1)],
        'getAtomicNumber/0': [('setAtomicNumber/1', 1), ('Element/2', 2)],
        'getBindingEnergies/0': [('setBindingEnergies/1', 1)],
    },
    'Layer': {
        'getName/0': [('Layer/4', 1)],
        'getMaterialName/0': [('Layer/4', 1), ('setMaterial/1:string', 1)],
        'getMaterial/0': [('setMaterial/1:Material', 1)],
        'getDensity/0': [('setDensity/1', 1), ('Layer/4', 2)],
        'getThickness/0': [('setThickness/1', 1), ('Layer/4', 3)],
        'getFunnyFactor/0': [('Layer/4', 4)],
    },
    'Material': {
        'getName/0': [('setName/1', 1), ('initialize/4', 1), ('Material/4', 1)],
        'getComment/0': [('initialize/4', 4), ('Material/4', 4)],
        'getDefaultDensity/0': [('initialize/4', 2), ('Material/4', 2)],
        'getDefaultThickness/0': [('initialize/4', 3), ('Material/4', 3)],
    },
    'Detector': {
        'getDiameter/0': [('setDiameter/1', 1)],
        'getDistance/0': [('setDistance/1', 1)],
        'getEscapePeakEnergyThreshold/0': [('setMinimumEscapePeakEnergy/1', 1)],
        'getEscapePeakIntensityThreshold/0': [('setMinimumEscapePeakIntensity/1', 1)],
        'getEscapePeakNThreshold/0': [('setMaximumNumberOfEscapePeaks/1', 1)],
    },
    'TransmissionTable': {
        'getName/0': [('setName/1', 1), ('TransmissionTable/2', 1)],
        'getComment/0': [('setComment/1', 1), ('TransmissionTable/2', 2)],
        'getTransmissionTable/0': [('setTransmissionTable/3:map', 1)],
    },
    'XRFConfig': {
        'getBeam/0': [('setBeam/1:Beam', 1)],
        'getBeamFilters/0': [('setBeamFilters/1', 1)],
        'getUserBeamFilters/0': [('setUserBeamFilters/1', 1)],
        'getSample/0': [('setSample/2', 1)],
        'getReferenceLayer/0': [('setSample/2', 2)],
        'getAttenuators/0': [('setAttenuators/1', 1)],
        'getUserAttenuators/0': [('setUserAttenuators/1', 1)],
        'getDetector/0': [('setDetector/1', 1)],
        'getAlphaIn/0': [('setGeometry/3', 1)],
        'getAlphaOut/0': [('setGeometry/3', 2)],
        'getScatteringAngle/0': [('setGeometry/3', 3)],
    },
    'XRF': {
        'getBeam/0': [('setBeam/1:Beam', 1)],
        'getBeamFilters/0': [('setBeamFilters/1', 1)],
        'getUserBeamFilters/0': [('setUserBeamFilters/1', 1)],
        'getSample/0': [('setSample/2:vector', 1)],
        'getReferenceLayer/0': [('setSample/2:vector', 2)],
        'getAttenuators/0': [('setAttenuators/1', 1)],
        'getUserAttenuators/0': [('setUserAttenuators/1', 1)],
        'getDetector/0': [('setDetector/1', 1)],
        'getAlphaIn/0': [('setGeometry/3', 1)],
        'getAlphaOut/0': [('setGeometry/3', 2)],
        'getScatteringAngle/0': [],     # a negative angle means alphaIn + alphaOut
        'getConfiguration/0': [],
    },
    'Elements': {
        'isEscapeCacheEnabled/0': [('setEscapeCacheEnabled/1', 1)],
    },
    'Shell': {
        'getShellConstants/0': [],
        'getRadiativeTransitions/0': [],
        'getNonradiativeTransitions/0': [],
        'getFluorescenceRatios/0': [],
    },
}
EL = ('elementList', '[]')
SI = ('shellInstance', '[]')
# accessors that show one entry of a table: (class, getter) -> member of the entry
ENTRY = {
    ('Element', 'getRadiativeTransitions/1'): SI + ('radiativeTransitions',),
    ('Element', 'getNonradiativeTransitions/1'): SI + ('nonradiativeTransitions',),
    ('Element', 'getFluorescenceRatios/1'): SI + ('fluorescenceRatios',),
    ('Element', 'getAugerRatios/1'): SI + ('augerRatios',),
    ('Element', 'getCosterKronigRatios/1'): SI + ('costerKronigRatios',),
    ('Element', 'getShellConstants/1'): SI + ('shellConstants',),
    ('Element', 'getXRayLines/1'): SI + ('fluorescenceRatios',),
    ('Element', 'getShell/1'): SI,
    ('Element', 'getMassAttenuationCoefficients/0'): ('mu',),
    ('Element', 'isCacheEnabled/0'): None,
    ('Elements', 'getElement/1'): EL,
    ('Elements', 'getElementCopy/1'): EL,
    ('Elements', 'getBindingEnergies/1'): EL + ('bindingEnergy',),
    ('Elements', 'getMaterial/1'): ('materialList', '[]'),
    ('Elements', 'getMaterialCopy/1'): ('materialList', '[]'),
    ('Elements', 'getAtomicMass/1'): EL + ('atomicMass',),
    ('Elements', 'getAtomicNumber/1'): EL + ('atomicNumber',),
    ('Elements', 'getDensity/1'): EL + ('density',),
    ('Elements', 'getLongName/1'): EL + ('longName',),
    ('Elements', 'getRow/1'): EL + ('row',),
    ('Elements', 'getColumn/1'): EL + ('column',),
    ('Elements', 'getNonradiativeTransitions/2'): EL + SI + ('nonradiativeTransitions',),
    ('Elements', 'getRadiativeTransitions/2'): EL + SI + ('radiativeTransitions',),
    ('Elements', 'getShellConstants/2'): EL + SI + ('shellConstants',),
    ('Elements', 'getShellConstantsFile/1'): ('shellConstantsFile', '[]'),
    ('Elements', 'getShellRadiativeTransitionsFile/1'): ('shellRadiativeTransitionsFile', '[]'),
    ('Elements', 'getShellNonradiativeTransitionsFile/1'): ('shellNonradiativeTransitionsFile', '[]'),
    ('Shell', 'getAugerRatios/0'): ('augerRatios',),
    ('Shell', 'getCosterKronigRatios/0'): ('costerKronigRatios',),
    ('Shell', 'getFluorescenceRatios/0'): ('fluorescenceRatios',),
    ('Shell', 'getRadiativeTransitions/0'): ('radiativeTransitions',),
    ('Shell', 'getNonradiativeTransitions/0'): ('nonradiativeTransitions',),
    ('Shell', 'getShellConstants/0'): ('shellConstants',),
    ('Detector', 'getEscapePeakAlphaIn/0'): ('escapePeakAlphaIn',),
    ('Beam', 'getBeam/0'): ('rays',),
    ('XRF', 'getMaterials/0'): ('configuration', 'materials'),
    ('XRFConfig', 'getMaterials/0'): ('materials',),
}
# setters that fill records: (class, operation) -> {member: positions of the arguments its value may come from}
FROM = {
    ('Beam', 'setBeam/4:vector'): {('rays', '[]', 'energy'): {1}, ('rays', '[]', 'weight'): {2}, ('rays', '[]', 'characteristic'): {3}, ('rays', '[]', 'divergency'): {4}},
    ('Beam', 'setBeam/5:int'): {('rays', '[]', 'energy'): {2}, ('rays', '[]', 'weight'): {3}, ('rays', '[]', 'characteristic'): {4}, ('rays', '[]', 'divergency'): {5}},
    ('Beam', 'setSingleEnergyBeam/2'): {('rays', '[]', 'energy'): {1}, ('rays', '[]', 'characteristic'): set(), ('rays', '[]', 'divergency'): {2}},
}
# operations that legitimately change more than what one getter shows
ALSO = {
    ('Layer', 'setMaterial/1:string'): {'hasMaterial'},
    ('Layer', 'setMaterial/1:Material'): {'hasMaterial', 'materialName', 'density', 'thickness'},   # density and thickness only when unset
    ('Material', 'initialize/4'): {'initialized'},
    ('Material', 'setName/1'): {'initialized'},
    ('Element', 'setBindingEnergies/1'): {'shellInstance'},
    ('TransmissionTable', 'setTransmissionTable/3:map'): {'name', 'comment'},
}
# members an operation may change although the value is derived: (class, operation) -> member paths
DERIVED = {('XRF', 'setGeometry/3'): ('configuration', 'scatteringAngle'), ('XRFConfig', 'setGeometry/3'): ('scatteringAngle',)}
# operations that compute or fill what they set: the members they may change
ONLY = {
    ('Detector', 'setActiveArea/1'): {('diameter',)}, ('Material', 'setComposition/1'): {('composition',)}, ('Material', 'setComposition/2'): {('composition',)},
    ('Shell', 'setShellConstants/1'): {('shellConstants',)},
    ('Shell', 'setRadiativeTransitions/1'): {('radiativeTransitions',), ('fluorescenceRatios',)}, ('Shell', 'setRadiativeTransitions/2'): {('radiativeTransitions',), ('fluorescenceRatios',)},
    ('Shell', 'setNonradiativeTransitions/1'): {('nonradiativeTransitions',), ('augerRatios',), ('costerKronigRatios',)},
    ('Shell', 'setNonradiativeTransitions/2'): {('nonradiativeTransitions',), ('augerRatios',), ('costerKronigRatios',)},
    ('Element', 'setBindingEnergies/2'): {('bindingEnergy',), ('shellInstance',)},
    ('Element', 'setShellConstants/2'): {('shellInstance', '[]', 'shellConstants')},
    ('Element', 'setRadiativeTransitions/2'): {('shellInstance', '[]', 'radiativeTransitions'), ('shellInstance', '[]', 'fluorescenceRatios')},
    ('Element', 'setNonradiativeTransitions/2'): {('shellInstance', '[]', x) for x in ('nonradiativeTransitions', 'augerRatios', 'costerKronigRatios')},
    ('XRFConfig', 'setBeam/4'): {('beam',)}, ('XRFConfig', 'setSingleEnergyBeam/2'): {('beam',)}, ('XRF', 'setBeam/4'): {('configuration', 'beam')},
    ('XRF', 'setSingleEnergyBeam/2'): {('configuration', 'beam')}, ('XRF', 'setSample/2'): {('configuration', 'sample'), ('configuration', 'referenceLayer')},
    ('XRFConfig', 'setSample/2'): {('sample',), ('referenceLayer',)},
}
PRIVATE = {'recentBeam', 'lastMultilayerFluorescence', 'normalized'}


def find(ctx, cls, spec):
    spec, _, typ = spec.partition(':')
    base, _, k = spec.partition('/')
    out = []
    for f in ctx.methods(cls):
        n = ctx.name(f)
        ps = [p for p in n.params if p != 'void']
        if n.base == base and len(ps) == int(k) and (not typ or typ in ps[0]):
            out.append(f)
    # constructor variants (complete/base object): one is enough
    if base == cls:
        out = out[:1] if not out else [f for f in out if len(ctx.name(f).params) == int(k)]
    return out


def shown(ctx, I, g):
    """member path a getter returns unmodified"""
    s = I.summary(g)
    if s is None:
        return None
    w = s.get(('RET', ()), s.get(('ret',)))
    if w is None:
        return None
    if w[0] == 'addr':
        w = w[1]
    if w[0] == 'P0' and w[1]:
        return w
    return None


COPY = {'sext', 'zext', 'trunc', 'freeze', 'bitcast', 'fpext', 'sitofp', 'uitofp', 'fptosi', 'fptoui'}


def computed(ctx, f, v, seen=None):
    """the instruction that makes v something else than an unmodified argument (element) or a constant; None if there is none"""
    seen = set() if seen is None else seen
    if not v.startswith('%') or (f.name, v) in seen:
        return None
    seen.add((f.name, v))
    d = f.defs.get(v)
    if d is None:
        return None                     # parameter
    info = ctx.R.infos[f.name]
    if d.op in COPY:
        return computed(ctx, f, d.ops[0], seen)
    if d.op in ('phi', 'select'):
        for o in (d.ops[1:] if d.op == 'select' else [x[0] if isinstance(x, tuple) else x for x in (d.incoming if hasattr(d, 'incoming') else d.ops)]):
            x = computed(ctx, f, o, seen)
            if x is not None:
                return x
        return None
    if d.op == 'load':
        rs = ctx.R.pts_of(info, d.ops[0])
        if rs and all(r[0][0] == 'P' for r in rs):
            return None
        loc = {r for r in rs if r[0][0] != 'P'}
        for b in f.blocks.values():
            for i in b.insts:
                if i.op == 'store' and i.ops[0].startswith('%') and loc & set(ctx.R.pts_of(info, i.ops[1])):
                    x = computed(ctx, f, i.ops[0], seen)
                    if x is not None:
                        return x
        return None
    if d.op in ('call', 'invoke'):
        g = ctx.M.functions.get(d.callee)
        if g is not None:
            for b in g.blocks.values():
                for i in b.insts:
                    if i.op == 'ret' and i.ops:
                        x = computed(ctx, g, i.ops[0], seen)
                        if x is not None:
                            return x
            return None
    return d


def run(ctx):
    res = Result()
    res.rule = ("Exact interprocedural value flow (which entry value does each cell hold at every normal exit): a getter must return one member unmodified; each listed "
                "setter, constructor or initialiser must leave exactly its argument (no arithmetic, no other argument, on every normal path) in that member; and setters may "
                "write no other member that a getter shows.")
    I = Ident(ctx)
    for cls in sorted(T):
        shows = {}
        for gspec in T[cls]:
            gs = find(ctx, cls, gspec)
            if not gs:
                res.notes.append('%s::%s not present' % (cls, gspec)); continue
            for g in gs:
                res.count('getters'); res.count('obligations')
                w = shown(ctx, I, g)
                if w is None:
                    res.add('getter', ctx.short(g), 'result', '%s:%s' % (g.file, g.line),
                            "%s does not return one member of the object unmodified on every path" % ctx.sig(g))
                    continue
                if w in shows.values() and gspec not in shows:
                    other = [k for k, x in shows.items() if x == w]
                    res.add('getter', ctx.short(g), 'same as ' + other[0], '%s:%s' % (g.file, g.line),
                            "%s returns the member that %s returns (%s)" % (ctx.sig(g), other[0], rstr(w)))
                shows[gspec] = w
        for gspec, ops in T[cls].items():
            if gspec not in shows:
                continue
            w = shows[gspec]
            for spec, k in ops:
                fs = find(ctx, cls, spec)
                if not fs:
                    res.notes.append('%s::%s not present' % (cls, spec))
                for f in fs:
                    res.count('round_trips'); res.count('obligations')
                    s = I.summary(f) or {}
                    got = Ident.read({c: x for c, x in s.items() if c != ('ret',)}, {w})
                    if got != ('P%d' % k, ()):
                        res.add('roundtrip', ctx.short(f), gspec.split('/')[0], '%s:%s' % (f.file, f.line),
                                "after %s, %s does not return argument %d unmodified on every normal path (%s holds %s)" %
                                (ctx.sig(f), gspec.split('/')[0], k, rstr(w), 'a computed or path dependent value' if got is None else
                                 rstr(got) if got[0] != 'const' and len(got) > 1 else str(got)))
        # frame
        setters = {}
        for gspec, ops in T[cls].items():
            if gspec in shows:
                for spec, k in ops:
                    setters.setdefault(spec, set()).add(shows[gspec])
        for spec, own in setters.items():
            if spec.split('/')[0] == cls:
                continue
            for f in find(ctx, cls, spec):
                res.count('frames'); res.count('obligations')
                for (r, kind), e in sorted(ctx.R.sum[f.name].writes.items(), key=str):
                    if r[0] != 'P0' or not r[1] or any(x in caches.ALLCACHE or x in PRIVATE for x in r[1]):
                        continue
                    if any(under(r, o) or under(o, r) for o in own):
                        continue
                    if (I.summary(f) or {}).get(r) == r:
                        continue            # rewritten with its own value
                    if DERIVED.get((cls, spec)) == r[1]:
                        continue
                    if r[1][0] in ALSO.get((cls, spec), ()):
                        continue
                    # only members some getter of the class shows
                    if not any(under(r, o) for o in shows.values()):
                        continue
                    res.add('frame', ctx.short(f), r[1][0], e.inst.where(),
                            "%s also changes %s (at %s), which it is not supposed to set" % (ctx.sig(f), rstr(r), e.inst.where()))
    for (cls, gspec), mem in sorted(ENTRY.items(), key=str):
        if mem is None:
            continue
        for g in find(ctx, cls, gspec):
            res.count('entry_getters'); res.count('obligations')
            w = shown(ctx, I, g)
            if w != ('P0', mem):
                res.add('entry', ctx.short(g), '.'.join(m for m in mem if m != '[]'), '%s:%s' % (g.file, g.line),
                        "%s must return %s unmodified on every path, it returns %s" % (ctx.sig(g), rstr(('P0', mem)), rstr(w) if w else 'a computed value'))
    D = ctx.VD
    for (cls, spec), mems in sorted(FROM.items()):
        for f in find(ctx, cls, spec):
            s = D.sum[f.name]
            info = ctx.R.infos[f.name]
            for mem, ks in mems.items():
                res.count('record_members'); res.count('obligations')
                m = 0
                for o, x in s.items():
                    if o[0] == 'P0' and len(o) > 1 and o[1] == mem:
                        m |= x
                got = {int(l[0][1:]) for l in D.names(m) if l[0][0] == 'P' and l[0] != 'P0'}
                for k in sorted(ks - got):
                    res.add('record', ctx.short(f), '%s lacks %d' % (mem[-1], k), '%s:%s' % (f.file, f.line),
                            "%s: %s does not receive argument %d" % (ctx.sig(f), mem[-1], k))
                if mem[-1] == 'weight':
                    continue            # normalisation and ordering legitimately mix in the other arguments
                for k in sorted(got - ks - ({1} if ctx.name(f).params[0].startswith('int') else set())):
                    res.add('record', ctx.short(f), '%s from %d' % (mem[-1], k), '%s:%s' % (f.file, f.line),
                            "%s: the value of %s comes from argument %d" % (ctx.sig(f), mem[-1], k))
    for (cls, spec), mems in sorted(FROM.items()):
        for f in find(ctx, cls, spec):
            info = ctx.R.infos[f.name]
            for b in f.blocks.values():
                for i in b.insts:
                    if i.op != 'store':
                        continue
                    ms = {r[1] for r in ctx.R.pts_of(info, i.ops[1]) if r[0] == 'P0'} & set(mems)
                    if ms:
                        res.count('record_stores'); res.count('obligations')
                        x = computed(ctx, f, i.ops[0])
                        if x is not None:
                            mem = sorted(ms)[0][-1]
                            res.add('record', ctx.short(f), '%s computed' % mem, i.where(), "%s: what is kept as %s is computed (%s at %s), not the value that was given" %
                                    (ctx.sig(f), mem, x.op, x.where()))
    for (cls, spec), mems in sorted(ONLY.items()):
        for f in find(ctx, cls, spec):
            res.count('frames'); res.count('obligations')
            for (r, kind), e in sorted(ctx.R.sum[f.name].writes.items(), key=str):
                if r[0] != 'P0' or not r[1] or any(x in caches.ALLCACHE or x in PRIVATE for x in r[1]):
                    continue
                if any(under(r, ('P0', o)) or under(('P0', o), r) for o in mems) or (I.summary(f) or {}).get(r) == r:
                    continue
                res.add('frame', ctx.short(f), '.'.join(m for m in r[1] if m != '[]'), e.inst.where(),
                        "%s also changes %s (at %s), which it is not supposed to set" % (ctx.sig(f), rstr(r), e.inst.where()))
    # a layer that was given a density and a thickness keeps them when it is given a material
    from ..absint import Interp, C
    A = Interp(ctx, unroll=5)
    for f in find(ctx, 'Layer', 'setMaterial/1:Material'):
        for own, mat in (((1, 2), (5, 7)), ((1, 2), (1, 2)), ((3, 0.5), (0.25, 8))):
            res.count('obligations')
            m = {('P0', ('density',)): C(own[0]), ('P0', ('thickness',)): C(own[1]),
                 ('P1', ('defaultDensity',)): C(mat[0]), ('P1', ('defaultThickness',)): C(mat[1])}
            o = A.run(f, m)
            if o.ret is None:
                res.add('kept', ctx.short(f), 'no return', '%s:%s' % (f.file, f.line), "%s does not return for a layer of density %s and thickness %s" % ((ctx.sig(f),) + own))
                continue
            for k, name in enumerate(('density', 'thickness')):
                v = o.ret.mem.get(('P0', (name,)))
                if v is None or v.const() != own[k]:
                    res.add('kept', ctx.short(f), name, '%s:%s' % (f.file, f.line),
                            "%s: a layer whose %s was set to %s does not keep it when it is given a material of default %s %s" % (ctx.sig(f), name, own[k], name, mat[k]))
    res.need('getters', 40); res.need('round_trips', 45); res.need('frames', 35)
    return res
