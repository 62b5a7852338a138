"""Lengths, densities, energies, attenuation coefficients and angles are combined only in ways their dimensions allow."""
from ..core import Result
from ..dims import Dims


def run(ctx):
    R = Result()
    R.rule = ("every arithmetic operation, comparison, mathematical function call, copy and call is one linear equation over the exponents of keV, g, cm and degree; "
              "names of the interface (energy, density, thickness, angles, coefficients by component) give the known ones; the equations of each function, with the summaries of "
              "its callees, must have a solution")
    D = Dims(ctx)
    seen = set()
    for f, i, text, d in D.bad:
        if f.name in seen:
            continue
        seen.add(f.name)
        where = i.where() if i is not None else ctx.short(f)
        R.add('dimension-mismatch', ctx.short(f), '%s: %s %s' % (ctx.short(f), text, d), where,
              'in %s the dimensions do not fit: %s %s' % (ctx.short(f), text, d))
    R.count('functions', len(D.sum))
    R.count('equations', D.stats['equations'])
    R.count('arithmetic operations', D.stats['operations'])
    R.count('places given a dimension by their name', D.stats['anchored'])
    R.count('call instances', D.stats['instances'])
    det = 0
    for n, (rows, cells) in sorted(D.sum.items()):
        k = sum(1 for v, lin, c in rows if not lin)
        det += k
        if k and len(R.samples) < 12 and 'get' in n:
            R.sample('%s: %d interface places determined' % (ctx.short(ctx.M.functions[n]), k))
    R.count('interface places with a determined dimension', det)
    R.need('functions', 200)
    R.need('equations', 3500)
    R.need('arithmetic operations', 350)
    R.need('places given a dimension by their name', 600)
    return R
