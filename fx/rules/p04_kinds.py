"""Text as str or bytes, numbers in any sequence: no accepted kind of argument is refused, text comes back as str."""
import re
from ..core import Result
from ..cy import AV, Interp, normtype

# arguments that take one number as well as a sequence of numbers
EITHER = {
    'PyBeam.setBeam': {'energies', 'weights'}, 'PyXRF.setBeam': {'energies'},
    'PyDetector.getTransmission': {'energies'}, 'PyLayer.getTransmission': {'energies'}, 'PyTransmissionTable.getTransmission': {'energy'},
    'PyElement.getMassAttenuationCoefficients': {'energy'}, 'PyElements.getElementMassAttenuationCoefficients': {'energy'}, 'PyElements.getMassAttenuationCoefficients': {'energy'},
    'PyEPDL97.getMassAttenuationCoefficients': {'energy'}, 'PyEPDL97.getPhotoelectricWeights': {'energy'}, 'PyElements.getExcitationFactors': {'energy'},
    'PyXRF.getLayerMassAttenuationCoefficients': {'energies'}, 'PyXRF.getLayerTransmission': {'energies'},
}
# arguments that take one name as well as a sequence of names; one index as well as several
NAMES = {'PyElements.getPeakFamilies': {'nameOrVector'}, 'PyXRF.getFluorescence': {'elementNames', 'lineFamily'}}
INDEXES = {'PyXRF.getFluorescence': {'sampleLayer'}}
# a composition or a name
MIXTURE = {'PyElements.getMassAttenuationCoefficients': {'name'}}
# arguments whose kind goes with that of another one
WITH = {('PyElements.getExcitationFactors', 'weight'): 'energy', ('PyXRF.setBeam', 'weights'): 'energies', ('PyXRF.setBeam', 'characteristic'): 'energies', ('PyXRF.setBeam', 'divergency'): 'energies',
        ('PyBeam.setBeam', 'weights'): 'energies'}
# together: one kind for the whole group
GROUP = {'PyXRF.getFluorescence': ('elementNames', 'lineFamily', 'sampleLayer')}

# classes whose answers have always been bytes
BYTES = {'PyElement', 'PyShell', 'PySimpleIni'}

F = AV('float')
I = AV('int')


def seqs(e):
    return [('list of %s' % e.k, AV('list', [e, e])), ('tuple of %s' % e.k, AV('tuple', [e, e]))]


def numbers(e):
    return seqs(e) + [('array', AV('nd', e))]


TEXT = [('str', AV('str')), ('bytes', AV('bytes'))]


def kindsof(sinks, lab, p):
    out = []
    for path, ts in sinks.items():
        if path[1] != p:
            continue
        rest = path[2:]
        for t in ts:
            t = t.replace('bint', 'int')
            if rest == ():
                if t == 'std::string':
                    out += TEXT
                elif t == 'double':
                    out += [('float', F), ('int', I)]
                elif t in ('int', 'long', 'short'):
                    out += [('int', I)]
                elif t == 'std::vector<double>':
                    out += numbers(F)
                elif t == 'std::vector<int>':
                    out += numbers(I)
                elif t == 'std::map<std::string,double>':
                    out += [('dict with %s keys' % k.k, AV('dict', (k, F))) for _, k in TEXT]
                elif t == 'std::map<double,double>':
                    out += [('dict', AV('dict', (F, F)))]
            elif rest == ('[]',):
                if t == 'std::string':
                    out += seqs(AV('str')) + seqs(AV('bytes'))
                elif t in ('int', 'long'):
                    out += numbers(I)
                elif t == 'double':
                    out += numbers(F)
    if p in EITHER.get(lab, ()):
        out += [('float', F), ('int', I)] + numbers(F)
    if p in NAMES.get(lab, ()):
        out += TEXT + seqs(AV('str')) + seqs(AV('bytes'))
    if p in INDEXES.get(lab, ()):
        out += [('int', I)] + numbers(I)
    if p in MIXTURE.get(lab, ()):
        out += TEXT + [('dict with %s keys' % k.k, AV('dict', (k, F))) for _, k in TEXT]
    if p == 'layerList':
        out = []
        for _, t in TEXT:
            for n in (4, 3):
                for outer in ('list', 'tuple'):
                    rec = AV(outer, [t] + [F] * (n - 1))
                    out.append(('list of %ss with %s names and %d items' % (outer, t.k, n), AV('list', [rec, rec])))
        out.append(('list of PyLayer', AV('list', [AV('ext:PyLayer')] * 2)))
        out.append(('empty list', AV('list', [])))
    if p == 'pyTransmissionTableList':
        out = []
        for _, t in TEXT:
            for outer in ('list', 'tuple'):
                out.append(('list of %ss with %s names, from a dict' % (outer, t.k), AV('list', [AV(outer, [AV('dict', (F, F)), t, t])] * 2)))
                out.append(('list of %ss with %s names, from lists' % (outer, t.k), AV('list', [AV(outer, [AV('list', F), AV('list', F), t, t])] * 2)))
        out.append(('list of PyTransmissionTable', AV('list', [AV('ext:PyTransmissionTable')] * 2)))
        out.append(('empty list', AV('list', [])))
    seen, u = set(), []
    for n, v in out:
        if n not in seen:
            seen.add(n); u.append((n, v))
    return u


def texts(v, out):
    if v is None:
        return out
    if v.k in ('str', 'bytes'):
        out.add(v.k)
    if isinstance(v.sub, (list, tuple)):
        for x in v.sub:
            texts(x, out)
    elif isinstance(v.sub, AV):
        texts(v.sub, out)
    return out


def run(ctx):
    res = Result()
    W = ctx.W
    res.rule = ("abstract interpretation of every public wrapper method and constructor over Cython's typed tree, once per argument and kind of value it takes (text as str and bytes, numbers as list, tuple and "
                "array, one number or several, records), the other arguments unknown; obligations: no path ends in a conversion failure of Python, some path returns; text in results is str")
    res.notes = ["the contents of the values (which names, how many numbers) are not modelled", "failures raised on purpose by a wrapper are not conversion failures"]
    for cls in sorted(W.classes):
        if '__cinit__' not in W.classes[cls]:
            continue
        for m in W.public(cls) + ['__cinit__']:
            outs, sinks = W.outcomes(cls, m)
            fn = W.classes[cls][m]
            lab = '%s.%s' % (cls, m)
            if outs is None:
                res.count('methods not understood')
                continue
            res.count('methods'); res.count('obligations')
            for o in outs:
                if o.kind == 'ret' and cls not in BYTES and 'bytes' in texts(o.value, set()):
                    res.add('bytes-result', lab, 'result', fn['at'], "%s answers text as bytes" % lab)
            params = [a['name'] for a in fn['args'] if a['name'] != 'self']
            ext = {a['name']: a['t'] for a in fn['args'] if (a['t'] or '').startswith('ext:')}
            cases = []
            grp = GROUP.get(lab, ())
            if grp:
                for (na, a) in TEXT:
                    cases.append((grp, 'one name (%s), one layer' % na, {grp[0]: a, grp[1]: a, grp[2]: I}))
                    cases.append((grp, 'names (%s), one layer' % na, {grp[0]: AV('list', a), grp[1]: AV('list', a), grp[2]: I}))
                    cases.append((grp, 'names (%s), layers' % na, {grp[0]: AV('list', a), grp[1]: AV('list', a), grp[2]: AV('list', I)}))
                    cases.append((grp, 'names (%s, tuple), layers' % na, {grp[0]: AV('tuple', [a, a]), grp[1]: AV('tuple', [a, a]), grp[2]: AV('tuple', [I, I])}))
            for p in params:
                if p in ext or p in grp:
                    continue
                ks = kindsof(sinks, lab, p)
                lead = WITH.get((lab, p))
                for n, v in ks:
                    d = {p: v}
                    if lead:
                        d[lead] = F if v.k in ('float', 'int') else v if v.k != 'nd' else AV('nd', F)
                    cases.append(((p,), n, d))
            for ps, n, d in cases:
                res.count('cases'); res.count('obligations')
                base = {}
                for a in fn['args']:
                    q = a['name']
                    if q == 'self':
                        base[q] = AV('ext:' + cls, ident='self')
                    elif q in d:
                        base[q] = d[q]
                    elif q in ext:
                        base[q] = AV(ext[q])
                    elif WITH.get((lab, q)) in d and a['default'] is not None:
                        continue       # its kind goes with the one examined: left out here
                    else:
                        base[q] = AV('obj', prov=frozenset({('arg', q)}))
                try:
                    outs = Interp(W).run(cls, fn, base)
                except Exception as e:
                    if type(e).__name__ != 'AnalysisError':
                        raise
                    res.count('cases not understood')
                    continue
                what = '%s:%s' % (','.join(ps), n)
                bad = [o for o in outs if o.kind == 'err' and not o.err.explicit]
                if bad:
                    e = bad[0].err
                    res.add('refused', lab, what, e.at or fn['at'], "%s fails when %s is given as %s: %s (%s)" % (lab, ' and '.join("'%s'" % p for p in ps), n, e.msg, e.kind))
                elif not any(o.kind == 'ret' for o in outs):
                    res.add('refused', lab, what, fn['at'], "%s never returns when %s is given as %s" % (lab, ' and '.join("'%s'" % p for p in ps), n))
                else:
                    for o in outs:
                        for e in o.events:
                            for a in e['args']:
                                if 'character' in _mods(a):
                                    res.add('characters', lab, what, e['at'], "%s takes the single characters of '%s' given as %s" % (lab, ps[0], n))
            if cases:
                res.sample('%s: %s' % (lab, '; '.join('%s as %s' % ('/'.join(c[0]), c[1]) for c in cases[:4])))
    res.need('methods', 110)
    res.need('cases', 250)
    return res


def _mods(v):
    from ..cy import allmod
    return allmod(v)
