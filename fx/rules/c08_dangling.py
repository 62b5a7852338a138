"""No reference, pointer or iterator outlives the object it refers to."""
from ..core import Result
from ..regions import rstr
from .. import stl
from ..iters import cname


def closure_end(ctx, fn, i):
    n = cname(ctx, i)
    return n is not None and n.base.startswith('~')


def run(ctx):
    res = Result()
    res.rule = ("region points-to: (1) a function returning a pointer, reference or iterator must not return a region rooted in one of its "
                "locals/temporaries or in a const-reference parameter; (2) after the destructor of a local/temporary has run, no pointer into it "
                "may be used before it is constructed again; obligations = pointer-returning functions + destructor calls")
    res.notes = ["the result of operator<</>> style stream chaining and assignment operators returning *this/argument is exempt"]
    for f in sorted(ctx.M.functions.values(), key=lambda x: x.name):
        n = ctx.name(f)
        info = ctx.R.infos[f.name]
        rt = f.rettype.split()[-1] if f.rettype else ''
        if rt == 'ptr':
            res.count('obligations'); res.count('pointer_returning')
            for r in sorted(ctx.R.sum[f.name].ret):
                if r[0][0] == 'L':
                    v = [k for k in f.varnames if k == r[0][1:]] if isinstance(f.varnames, dict) else []
                    nm = f.varnames.get(r[0][1:], r[0][1:]) if isinstance(f.varnames, dict) else r[0][1:]
                    ret = [i for i in f.insts() if i.op == 'ret'][0]
                    res.add('returns-local', ctx.short(f), 'local', ret.where(),
                            "%s returns a reference into its local object '%s' (%s), which is destroyed on return" % (ctx.sig(f)[:140], nm, rstr(r)))
                    break
        # (2)
        cfg = ctx.F.cfg(f)
        for i in f.insts():
            if i.op not in ('call', 'invoke') or i.block.name not in cfg.reach or not i.args:
                continue
            nn = cname(ctx, i)
            if nn is None or not nn.base.startswith('~'):
                continue
            t = i.args[0]
            d = f.defs.get(t)
            if d is None or d.op != 'alloca':
                continue
            res.count('obligations'); res.count('destructions')
            bad = use_after(ctx, f, cfg, info, i, t) or iterator_after(ctx, f, cfg, info, i, t)
            if bad is not None:
                res.add('use-after-destroy', ctx.short(f), cname(ctx, i).base + '@' + describe(ctx, f, t), bad.where(),
                        "a pointer into temporary/local object %s (destroyed at %s) is used after its destruction" % (describe(ctx, f, t), i.where()))
    res.need('pointer_returning', 25)
    res.need('destructions', 300)
    return res


def describe(ctx, f, t):
    if isinstance(f.varnames, dict) and t in f.varnames:
        return str(f.varnames[t])
    for u in f.uses.get(t, []):
        if u.op in ('call', 'invoke') and t in u.args and 'sret' in u.argattrs[u.args.index(t)]:
            n = cname(ctx, u)
            return 'result of ' + (n.base if n else '?')
    return 'temporary'


def use_after(ctx, f, cfg, info, dtor, t):
    root = 'L' + t
    seen = set()
    start = [(dtor.block.name, dtor.idx + 1)]
    if dtor.op == 'invoke':
        start = [(dtor.normal, 0)]
    while start:
        b, k = start.pop()
        insts = f.blocks[b].insts
        stop = False
        for j in range(k, len(insts)):
            i = insts[j]
            if i.op in ('call', 'invoke'):
                n = cname(ctx, i)
                if t in i.args:
                    ix = i.args.index(t)
                    if 'sret' in i.argattrs[ix] or (ix == 0 and n is not None and (n.base == n.cls or n.base.startswith('~'))):
                        stop = True; break
                    if i.callee.startswith('llvm.'):
                        stop = True; break
                    # plain re-use of the storage (vector of temps, nrvo flag) - treat as new life
                    stop = True; break
                if i.callee.startswith('llvm.') and not i.callee.startswith('llvm.mem'):
                    continue
                if n is not None and n.base.startswith('~'):
                    continue
                for a in i.args:
                    if a.startswith('%') and a != t and any(r[0] == root for r in info.pts.get(a, ())) and only_root(info, a, root):
                        if defined_before(f, cfg, a, dtor):
                            return i
            elif i.op == 'load':
                a = i.ops[0]
                if a.startswith('%') and a != t and only_root(info, a, root) and defined_before(f, cfg, a, dtor):
                    return i
            elif i.op == 'store':
                a = i.ops[1]
                if a == t:
                    stop = True; break
        if not stop:
            for s in cfg.succ[b]:
                if s not in seen:
                    seen.add(s); start.append((s, 0))
    return None


def iterator_after(ctx, f, cfg, info, dtor, t):
    """use of an iterator variable that was set to a position in t before t was destroyed"""
    root = 'L' + t
    for a, rs in sorted(info.contents.items()):
        if not a.startswith('L') or a == root or not rs or any(r[0] != root for r in rs):
            continue
        v = a[1:]
        d = f.defs.get(v)
        if d is None or d.op != 'alloca':
            continue
        uses = [i for i in f.insts() if i.op in ('call', 'invoke') and i.callee and v in i.args and deref_use(ctx, i)]
        if not uses:
            continue
        writes = {id(e.inst): e.inst for e in info.events if e.rw == 'W' and e.region[0] == a and e.kind in ('store', 'construct', 'assign')}
        if not any(cfg.idominates(w, dtor) for w in writes.values()):
            continue
        us = {id(i) for i in uses}
        seen = set()
        start = [(dtor.normal, 0)] if dtor.op == 'invoke' else [(dtor.block.name, dtor.idx + 1)]
        while start:
            b, k = start.pop()
            stop = False
            for i in f.blocks[b].insts[k:]:
                if id(i) in us:
                    return i
                if id(i) in writes or i.op in ('call', 'invoke') and t in i.args and 'sret' in i.argattrs[i.args.index(t)]:
                    stop = True; break
            if not stop:
                for s in cfg.succ[b]:
                    if s not in seen:
                        seen.add(s); start.append((s, 0))
    return None


def deref_use(ctx, i):
    n = cname(ctx, i)
    return n is not None and n.cls in stl.ITERATORS and n.base in ('operator*', 'operator->', 'operator++', 'operator--', 'operator[]')


def only_root(info, a, root):
    rs = info.pts.get(a, ())
    return bool(rs) and all(r[0] == root for r in rs)


def defined_before(f, cfg, v, dtor):
    d = f.defs.get(v)
    return d is not None and d.op != 'alloca' and cfg.idominates(d, dtor)
