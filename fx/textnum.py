"""Numbers and text: stream conversions, their locale and precision, and where number text goes."""
import re
from .regions import ext


def stream_ops(ctx, f):
    """[(inst, 'out'|'in', C type)] formatted conversions of numbers on standard streams"""
    out = []
    for i in f.insts():
        if i.op not in ('call', 'invoke') or not i.callee or ctx.M.resolve(i.callee):
            continue
        n = ctx.M.name(i.callee)
        m = re.search(r'operator(<<|>>)\((\w[\w ]*?)\s*&?\)$', n.dem)
        if m and re.search(r'std::(basic_)?[io]?o?stream', n.dem.split('operator')[0]):
            t = m.group(2)
            if t in ('double', 'float', 'long double', 'int', 'long', 'unsigned long', 'unsigned int', 'short', 'long long'):
                out.append((i, 'out' if m.group(1) == '<<' else 'in', t))
    return out


def roots(ctx, f, v):
    info = ctx.R.infos[f.name]
    return {r[0] for r in ctx.R.pts_of(info, v)}


def classic_locale(ctx, f, v, depth=0):
    """value v is the classic locale"""
    d = f.defs.get(v)
    if d is not None and d.op in ('call', 'invoke') and d.callee == '_ZNSt6locale7classicEv':
        return True
    if depth > 3:
        return False
    rs = roots(ctx, f, v)
    for i in f.insts():
        if i.op in ('call', 'invoke') and i.callee and i.callee.startswith(('_ZNSt6localeC', '_ZNSt6localeaS')) and i.args and roots(ctx, f, i.args[0]) & rs:
            if len(i.args) > 1:
                if literal(f, i.args[1]) == 'C' or classic_locale(ctx, f, i.args[1], depth + 1):
                    return True
    return False


def configured(ctx, f, op):
    """(classic locale set before, digits set before) for the stream of operation op"""
    rs = roots(ctx, f, op.args[0])
    cfg = ctx.F.cfg(f)
    loc = False
    prec = 0
    for i in f.insts():
        if i.op not in ('call', 'invoke') or not i.callee or i is op:
            continue
        n = ctx.M.name(i.callee)
        if n.base == 'imbue':
            a = [x for x in i.args if roots(ctx, f, x) & rs]
            if a and classic_locale(ctx, f, i.args[-1]) and cfg.idominates(i, op):
                loc = True
        elif n.base == 'precision' and len(i.args) > 1 and roots(ctx, f, i.args[0]) & rs and cfg.idominates(i, op):
            try:
                prec = max(prec, int(i.args[1]))
            except ValueError:
                pass
        elif n.base == 'setprecision':
            # applied to a stream by a later <<
            for j in f.insts():
                if j.op in ('call', 'invoke') and j is not i and j.args and any(carries(f, x, i.res) for x in j.args[1:]) and roots(ctx, f, j.args[0]) & rs \
                        and (j is op or cfg.idominates(j, op)):
                    try:
                        prec = max(prec, int(i.args[0]))
                    except ValueError:
                        pass
    return loc, prec


def carries(f, v, src, depth=0):
    if v == src:
        return True
    d = f.defs.get(v)
    if d is None or depth > 6:
        return False
    if d.op in ('extractvalue', 'bitcast', 'insertvalue'):
        return any(carries(f, x, src, depth + 1) for x in d.ops if x)
    if d.op == 'load':
        p = slot(f, d.ops[0])
        for i in f.insts():
            if i.op == 'store' and slot(f, i.ops[1]) == p and carries(f, i.ops[0], src, depth + 1):
                return True
    return False


def slot(f, v):
    while True:
        d = f.defs.get(v)
        if d is not None and d.op in ('getelementptr', 'bitcast'):
            v = d.ops[0]
        else:
            return v


def literal(f, v):
    """text of a constant string argument"""
    v = slot(f, v)
    g = f.module.globals.get(v)
    if g:
        m = re.search(r'c"((?:[^"\\]|\\.)*)"', g)
        if m:
            return re.sub(r'\\00$', '', m.group(1))
    return None


def overlap(r, T):
    for t in T:
        if r[0] == t[0] and (r[1][:len(t[1])] == t[1] or t[1][:len(r[1])] == r[1]):
            return True
    return False


STD_SINK = ('cout', 'cerr', 'clog')


def text_flow(ctx, f, seeds, returning):
    """regions of f that may contain text coming from `seeds` (instructions whose written regions carry it) or from library functions in `returning`;
    -> (regions, calls of library functions that receive such text)"""
    T = set()
    seeds = set(id(i) for i in seeds)
    insts = [i for i in f.insts() if i.op in ('call', 'invoke', 'store')]
    changed = True
    while changed:
        changed = False
        for i in insts:
            ev = ctx.events(f, i)
            g = ctx.M.resolve(i.callee) if i.op != 'store' and i.callee else None
            hit = id(i) in seeds
            if g is not None:
                if g.name in returning:
                    ret, _ = ctx.R.call_args(i)
                    if ret:
                        new = set(ctx.R.pts_of(ctx.R.infos[f.name], ret)) - T
                        if new:
                            T |= new; changed = True
                continue
            if not hit:
                hit = any(e.rw == 'R' and overlap(e.region, T) for e in ev)
                if not hit and i.op in ('call', 'invoke'):
                    n = ctx.M.name(i.callee) if i.callee else None
                    # operands of free operators and constructors are read
                    for a in i.args[0 if n is None or n.base.startswith('operator+') else 1:]:
                        if a.startswith('%') and any(overlap(r, T) for r in ctx.R.pts_of(ctx.R.infos[f.name], a)):
                            hit = True
                            break
            if hit:
                for e in ev:
                    if e.rw == 'W' and e.kind != 'destroy' and not any(s in e.region[0] for s in STD_SINK) and e.region not in T:
                        T.add(e.region); changed = True
    calls = []
    for i in insts:
        if i.op == 'store' or not i.callee:
            continue
        g = ctx.M.resolve(i.callee)
        if g is None:
            continue
        _, args = ctx.R.call_args(i)
        for k, a in enumerate(args):
            if a.startswith('%') and any(overlap(r, T) for r in ctx.R.pts_of(ctx.R.infos[f.name], a)):
                calls.append((i, g, k))
    return T, calls
