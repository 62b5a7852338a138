"""Cache declarations of the library and derivation of what each cache depends on."""
from .ir import AnalysisError

# class -> {cache member: reason}
CACHES = {
    'Element': ['muCache', 'excitationFactorsCache', 'cascadeCache'],
    'Elements': ['detectorEscapeCache'],
    'Detector': ['escapePeakCache'],
}
# switches and recorded keys: select whether a cache is used, never what it contains
CONTROL = {
    'Element': ['calculationCacheEnabledFlag', 'cascadeCacheEnabledFlag'],
    'Elements': ['escapeCacheEnabled', 'detectorCompositionUsedInCache', 'detectorEnergyThresholdUsedInCache',
                 'detectorIntensityThresholdUsedInCache', 'detectorNThresholdUsedInCache', 'detectorAlphaInUsedInCache',
                 'detectorThicknessUsedInCache'],
    'Detector': [],
}
# read by the computations for diagnostics (messages) only
DIAGNOSTIC = {'Element': ['name', 'longName'], 'Elements': [], 'Detector': ['name']}

ALLCACHE = {m for c in CACHES.values() for m in c} | {m for c in CONTROL.values() for m in c}


def fillers(ctx, cls, cache):
    """functions of the class that store into the cache member directly"""
    out = []
    for f in ctx.methods(cls):
        if ctx.name(f).base == 'operator=' or ctx.is_ctor(f) or ctx.is_dtor(f):
            continue
        for e in ctx.R.infos[f.name].events:
            if e.rw == 'W' and e.region == ('P0', (cache,)) and e.kind in ('insert', 'mutate') and not e.via:
                base = e.inst.callee and ctx.M.name(e.inst.callee).base
                if base in ('erase',):
                    continue
                out.append(f)
                break
    return out


def dependencies(ctx, cls, cache):
    """members of cls (first path component) the cached values are computed from"""
    ctx.classfield(cls, cache)
    fs = fillers(ctx, cls, cache)
    if not fs:
        raise AnalysisError("no function fills %s::%s" % (cls, cache))
    deps = {}
    for f in fs:
        for r in ctx.R.sum[f.name].reads:
            if r[0] != 'P0' or not r[1]:
                continue
            if any(x in ALLCACHE for x in r[1]):
                continue
            if r[1][0] in DIAGNOSTIC.get(cls, ()):
                continue
            deps.setdefault(r[1][0], set()).add(r[1])
    # only members the class (or its bases) declares
    decl = set()
    st = [cls]
    while st:
        c = st.pop()
        for n, t, l, a in ctx.M.classes[c].fields:
            if a == 'base':
                b = t.split('::')[-1]
                if b in ctx.M.classes:
                    st.append(b)
            else:
                decl.add(n)
    return {d: p for d, p in deps.items() if d in decl}, fs


def bases(ctx, cls):
    out = []
    for n, t, l, a in ctx.M.classes[cls].fields:
        if a == 'base':
            b = t.split('::')[-1]
            if b in ctx.M.classes:
                out.append(b); out += bases(ctx, b)
    return out


def entry_points(ctx, cls):
    """public non-constructor members callable on a cls object, inherited ones included unless hidden"""
    own = {ctx.name(f).base for f in ctx.methods(cls)}
    out = []
    for f in ctx.methods(cls):
        out.append(f)
    for b in bases(ctx, cls):
        for f in ctx.methods(b):
            if ctx.name(f).base not in own and not ctx.is_ctor(f) and not ctx.is_dtor(f):
                out.append(f)
    res = []
    for f in out:
        if ctx.is_dtor(f) or ctx.is_static(f):
            continue
        n = ctx.name(f)
        if n.base == 'operator=':
            continue
        if ctx.is_public(f) or ctx.is_ctor(f):
            res.append(f)
    return res
