"""Numbers in text mean the same under every locale."""
import re
from ..core import Result
from .. import textnum
from ..textnum import literal

CLOC = {'strtod', 'strtof', 'strtold', 'atof', 'sscanf', '__isoc99_sscanf', 'fscanf', 'sprintf', 'snprintf'}
CLOC_DEM = re.compile(r'^std::(__cxx11::)?(stod|stof|stold|to_string)\((double|float|long double|.*string)')


def probe(f, i):
    s = literal(f, i.args[0]) if i.args else None
    return s is not None and re.fullmatch(r'\d*\.\d+', s.strip()) is not None


def const_eval(ctx, f, start, val):
    """follow the code from a call that yields the constant `val`, evaluating what depends on constants only: -> {phi/value: constant}"""
    env = {start.res: val}
    b = start.block
    k = b.insts.index(start) + 1
    steps = 0

    def get(v):
        if v in env:
            return env[v]
        if v in ('true', 'false'):
            return v == 'true'
        try:
            return float(v) if not v.startswith('0x') else __import__('struct').unpack('>d', bytes.fromhex(v[2:].zfill(16)))[0]
        except (ValueError, AttributeError):
            return None
    while steps < 400:
        steps += 1
        if k >= len(b.insts):
            break
        i = b.insts[k]
        k += 1
        if i.op in ('fsub', 'fadd', 'fmul', 'fdiv') and len(i.ops) == 2:
            x, y = get(i.ops[0]), get(i.ops[1])
            if x is not None and y is not None:
                env[i.res] = {'fsub': lambda: x - y, 'fadd': lambda: x + y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y if y else None}[i.op]()
        elif i.op == 'fcmp':
            m = re.search(r'fcmp (?:\w+ )*?(o\w\w|u\w\w|ord|uno) double', i.text)
            x, y = get(i.ops[0]), get(i.ops[1])
            if m and x is not None and y is not None:
                c = m.group(1)[1:]
                env[i.res] = {'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}.get(c)
        elif i.op in ('xor', 'select', 'zext', 'trunc'):
            vs = [get(o) for o in i.ops]
            if i.op == 'select' and vs[0] is not None:
                env[i.res] = vs[1] if vs[0] else vs[2]
            elif i.op in ('zext', 'trunc') and vs[0] is not None:
                env[i.res] = vs[0]
        elif i.op in ('call', 'invoke') and i.labels:
            b, prev = f.blocks[i.normal], b
            k = 0
        elif i.op == 'br':
            if len(i.labels) == 1:
                nb = i.labels[0]
            else:
                c = get(i.ops[0])
                if c is None:
                    break
                nb = i.labels[0] if c else i.labels[1]
            prev, b, k = b, f.blocks[nb], 0
        elif i.op == 'phi':
            for v, pb in i.incoming:
                if pb == prev.name:
                    env[i.res] = get(v)
        elif i.op in ('ret', 'unreachable', 'switch'):
            break
    return {v: bool(x) for v, x in env.items() if isinstance(x, bool) or f.defs[v].op == 'phi' and x in (0.0, 1.0)}


def replaces_dot(ctx, f, pr):
    """None if the probe's effect cannot be followed, else whether the text is adapted exactly when the probe shows that the point is not understood"""
    bad = const_eval(ctx, f, pr, float(int(float(literal(f, pr.args[0])))))
    good = const_eval(ctx, f, pr, float(literal(f, pr.args[0])))
    flags = [v for v in bad if v in good and bad[v] != good[v] and f.defs[v].op == 'phi'] or [v for v in bad if v in good and bad[v] != good[v]]
    if not flags:
        return False if any(v in good for v in bad) else None
    # insertion of a comma
    cfg = ctx.F.cfg(f)
    sites = [i for i in f.insts() if i.op in ('call', 'invoke') and any(literal(f, a) == ',' or a == '44' for a in i.args)] + \
            [i for i in f.insts() if i.op == 'store' and i.ops[0] == '44']
    if not sites:
        return False
    for i in sites:
        ok = False
        for cond, truth in facts(ctx, cfg, i):
            if cond in flags:
                ok = ok or (bad[cond] == truth)
        if not ok:
            return False
    # where points are met one by one: none may be copied unchanged
    dots = {i.res: (' eq ' in i.text) for i in f.insts() if i.op == 'icmp' and (' eq ' in i.text or ' ne ' in i.text) and i.ops[1] == '46'}
    if dots:
        copies = [i for i in f.insts() if i.op in ('call', 'invoke') and i.callee and ctx.M.resolve(i.callee) is None and len(i.args) == 2 and
                  ctx.name(i.callee).cls == 'basic_string' and ctx.name(i.callee).base in ('operator+=', 'push_back') and i.argtys[1] == 'i8' and i.args[1].startswith('%')]
        known = dict(dots)
        known.update({v: bad[v] for v in flags})
        live = set()
        st = [pr.block.name]
        while st:
            b = st.pop()
            if b in live:
                continue
            live.add(b)
            t = f.blocks[b].insts[-1]
            if t.op == 'br' and len(t.labels) == 2:
                v, pol = t.ops[0], True
                while v not in known:
                    d = f.defs.get(v)
                    if d is not None and d.op in ('trunc', 'zext'):
                        v = d.ops[0]
                    elif d is not None and d.op == 'icmp' and d.ops[1] in ('0', 'false') and (' eq ' in d.text or ' ne ' in d.text):
                        v, pol = d.ops[0], pol == (' ne ' in d.text)
                    elif d is not None and d.op == 'xor' and d.ops[1] in ('true', '1'):
                        v, pol = d.ops[0], not pol
                    else:
                        break
                if v in known:
                    st.append(t.labels[0] if known[v] == pol else t.labels[1])
                    continue
            st.extend(x for x in (t.labels or []) if x in f.blocks)
        for i in copies:
            if i.block.name in live:
                return False
    return True


def facts(ctx, cfg, i):
    """(value, truth) known when i executes, casts and comparisons with zero undone"""
    f = i.fn
    for x in cfg.edge_facts(i.block.name):
        v, t = x[0], x[1]
        while True:
            yield v, t
            d = f.defs.get(v)
            if d is not None and d.op in ('trunc', 'zext'):
                v = d.ops[0]
            elif d is not None and d.op == 'icmp' and d.ops[1] in ('0', 'false') and (' eq ' in d.text or ' ne ' in d.text):
                v, t = d.ops[0], t == (' ne ' in d.text)
            elif d is not None and d.op == 'xor' and d.ops[1] in ('true', '1'):
                v, t = d.ops[0], not t
            else:
                break


def run(ctx):
    res = Result()
    res.rule = ("every conversion between text and numbers in the library: a standard stream that reads or writes floating values must have been given the classic locale before (dominating imbue) "
                "unless it only writes to the console; C conversions that follow the C locale are accepted only next to a probe of the decimal separator, whose outcome, evaluated for both "
                "separators, must select the replacement of the point exactly when the point is not understood")
    for f in sorted(ctx.M.functions.values(), key=lambda x: x.name):
        sh = ctx.short(f)
        res.count('functions')
        for i, way, t in textnum.stream_ops(ctx, f):
            if way == 'out' and t not in ('double', 'float', 'long double'):
                continue
            r = textnum.roots(ctx, f, i.args[0])
            if any('cout' in x or 'cerr' in x or 'clog' in x or x[0] == 'P' for x in r):
                continue        # the console, or a stream that belongs to the caller
            if way == 'in' and t in ('int',) and sh == 'Shell::StringToInteger/2':
                continue        # one digit
            res.count('stream conversions'); res.count('obligations')
            loc, _ = textnum.configured(ctx, f, i)
            if not loc:
                res.add('stream-locale', sh, '%s %s' % (way, t), i.where(), "a number is %s text according to the global locale" % ('read from' if way == 'in' else 'written to'))
        cs = []
        for i in f.insts():
            if i.op in ('call', 'invoke') and i.callee and ctx.M.resolve(i.callee) is None:
                if i.callee in CLOC or CLOC_DEM.match(ctx.M.name(i.callee).dem):
                    if i.callee.endswith('printf') and not re.search(r'%[-+ #0-9.*]*[aefgAEFG]', literal(f, i.args[1 if i.callee == 'sprintf' else 2]) or '%f'):
                        continue
                    cs.append(i)
        if not cs:
            continue
        probes = [i for i in cs if probe(f, i)]
        res.count('C conversions', len(cs)); res.count('obligations', len(cs))
        allp = list(probes)
        for i in f.insts():
            if i.op in ('call', 'invoke') and i.callee:
                g = ctx.M.resolve(i.callee)
                if g is not None and g is not f:
                    allp += [j for j in g.insts() if j.op in ('call', 'invoke') and j.callee in CLOC and j.args and probe(g, j)]
        rest = [i for i in cs if i not in probes]
        if not rest:
            continue
        for i in rest:
            if not allp:
                res.add('c-locale', sh, i.callee, i.where(), "%s() reads or writes a number according to the C locale, and nothing adapts the text to it" % i.callee)
        for p in probes:
            if replaces_dot(ctx, f, p) is False:
                res.add('c-locale', sh, 'probe', p.where(), "the decimal separator is not replaced exactly when the C locale does not understand the point")
    res.need('functions', 300)
    res.need('stream conversions', 3)
    return res
