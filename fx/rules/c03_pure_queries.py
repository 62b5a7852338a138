"""Queries leave the object, their arguments and process-wide state unchanged."""
import re
from ..core import Result
from ..regions import rstr

STREAMS = {'G_ZSt4cout', 'G_ZSt4cerr', 'G_ZSt4clog'}
QUERY = re.compile(r'^(get|is|has|find|calculate|extract|to[A-Z]|interpolate|number)')
# (qualified function, first member written): documented caches that are part of the function's contract
ACCEPTED = {
    ('Detector::getEscape', 'escapePeakCache'): "documented per-label cache, reset by update=1",
}


def is_query(ctx, f):
    n = ctx.name(f)
    if ctx.is_ctor(f) or ctx.is_dtor(f):
        return False
    if not n.qual.startswith('fisx::') and n.qual.count('::') == 0:
        pass
    if ctx.is_method(f):
        if n.base.startswith('operator'):
            return n.const
        return n.const or bool(QUERY.match(n.base))
    return True        # static members and free functions own no object


def guard_init(ctx, f, inst):
    """store/ctor inside the once-only guard region of a function-local static, with parameter-free operands"""
    cfg = ctx.F.cfg(f)
    for i in f.insts():
        if i.callee == '__cxa_guard_acquire':
            b = i.block
            t = b.insts[-1]
            if t.op == 'br' and len(t.labels) == 2 and inst.block.name in cfg.reach:
                if cfg.dominates(t.labels[0], inst.block.name):
                    vals = inst.args[1:] if inst.op in ('call', 'invoke') else inst.ops[:1]
                    for v in vals:
                        if depends_on_param(ctx, f, v):
                            return False
                    return True
    return False


def depends_on_param(ctx, f, v, seen=None):
    seen = seen if seen is not None else set()
    if not isinstance(v, str) or not v.startswith('%') or v in seen:
        return False
    seen.add(v)
    if v in f.params:
        return True
    info = ctx.R.infos[f.name]
    if any(r[0][0] == 'P' for r in info.pts.get(v, ())):
        return True
    d = f.defs.get(v)
    if d is None:
        return False
    return any(depends_on_param(ctx, f, o, seen) for o in list(d.ops) + list(d.args))


def effects(ctx, f):
    """externally visible writes of f: [(region, kind, Ev)]"""
    out = []
    for (r, kind), ev in ctx.R.sum[f.name].writes.items():
        if r[0] in STREAMS or r[0] in ('RET', 'X'):
            continue
        out.append((r, kind, ev))
    return out


def trace(ctx, ev):
    path = []
    seen = 0
    while ev is not None and seen < 12:
        t = ev.inst
        path.append("%s in %s: %s %s" % (t.where(), ctx.short(t.fn), ev.kind, rstr(ev.region)))
        ev = ev.via[1] if ev.via else None
        seen += 1
    return path


def leaf(ev):
    while ev.via and ev.via[1] is not None:
        ev = ev.via[1]
    return ev


def run(ctx):
    res = Result()
    res.rule = ("interprocedural field-sensitive write-effect analysis over the LLVM IR of every unit: the write set of each query "
                "(const member functions, get/is/has/find/calculate/extract/to* members, static members, free functions) must contain no region "
                "reachable from the receiver, from a const argument or from a global/static; obligations = (query, root) pairs")
    res.notes = ["std::cout/cerr/clog output is not counted as state", "effects of standard-library members are taken from fx/stl.py"]
    for f in sorted(ctx.M.functions.values(), key=lambda x: x.name):
        if not is_query(ctx, f):
            continue
        n = ctx.name(f)
        res.count('queries')
        res.count('obligations', 1 + len(f.params))
        q = n.qual[6:] if n.qual.startswith('fisx::') else n.qual
        meth = ctx.is_method(f)
        for r, kind, ev in effects(ctx, f):
            root = r[0]
            if root[0] == 'G':
                le = leaf(ev)
                if root.startswith('G_ZGV') or guard_init(ctx, le.inst.fn, le.inst):
                    continue
                # report at the function that contains the write only
                res.add('global-write', ctx.short(le.inst.fn), root[1:], le.inst.where(),
                        "query %s modifies process-wide state %s: later answers depend on call history and concurrent calls race" %
                        (ctx.sig(f)[:160], ctx.M.name(root[1:]).dem if root[1:].startswith('_Z') else root[1:]), trace(ctx, ev))
                continue
            k = int(root[1:])
            if meth and k == 0:
                fld = r[1][0] if r[1] else '<whole object>'
                if (q, fld) in ACCEPTED:
                    res.count('accepted')
                    continue
                le = leaf(ev)
                res.add('receiver-write', ctx.short(f), fld, le.inst.where(),
                        "query %s modifies its own object: %s (%s)" % (ctx.sig(f)[:160], rstr((root, r[1])).replace('P0', 'this', 1), kind), trace(ctx, ev))
            else:
                pi = k - (1 if meth else 0)
                pt = n.params[pi] if 0 <= pi < len(n.params) else ''
                if 'const' in pt and (pt.rstrip().endswith('&') or pt.rstrip().endswith('*')):
                    res.add('argument-write', ctx.short(f), 'arg%d' % pi, leaf(ev).inst.where(),
                            "query %s modifies its const argument #%d" % (ctx.sig(f)[:160], pi + 1), trace(ctx, ev))
        res.sample("%s: writes only %s" % (ctx.short(f), sorted({r[0] for r, _, _ in effects(ctx, f)}) or 'its result'))
    res.need('queries', 120)
    return res
