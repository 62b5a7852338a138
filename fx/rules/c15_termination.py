"""Every operation comes to an end: loops have a measure, recursion has a guard, comparisons given to sort are strict."""
from ..core import Result
from ..loops import Loop, intc
from ..esp import const_of
from .. import iters, stl

# loops whose only advance on some turns is made by inner loops that test the character the turn starts with (one of two complementary tests holds)
INNER = {
    'SimpleSpecfile::getScanLabels': "two blanks seen at the position: the inner loop skips at least one of them",
    'SimpleSpecfile::getScanData': "the character is part of a number or not: one of the two inner loops takes it",
}
# recursion whose measure is not an argument of a simple kind
RECURSION = {
    ('Elements::parseFormula', 'local'): "the new formula has one pair of parentheses less than the one received",
}
STRICT = {'olt', 'ogt', 'ult', 'ugt', 'slt', 'sgt', 'one', 'ne', 'eq', 'oeq', 'une', 'ueq'}


def sccs(g):
    idx, low, st, on, out = {}, {}, [], set(), []
    for root in g:
        if root in idx:
            continue
        work = [(root, iter(sorted(g[root])))]
        idx[root] = low[root] = len(idx); st.append(root); on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx); st.append(w); on.add(w)
                    work.append((w, iter(sorted(g[w]))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop(); on.discard(w); c.append(w)
                        if w == v:
                            break
                    out.append(c)
    return out


def weak(L):
    """turns of the loop that advance only in inner loops: the counters are monotone and tested on every turn"""
    inner = set()
    for h, body in L.cfg.loops.items():
        if h != L.head and h in L.body:
            inner |= {h}
    adv = set()
    for b, bl, kind in L.counter_movers():
        if kind == 'counter' and not L.turn_without({b}):
            adv |= bl
    return bool(adv) and not L.turn_without(adv | inner)


def param_of(ctx, f, v, depth=0):
    """index of the parameter a value is read from"""
    if v in f.params:
        return f.params.index(v)
    d = f.defs.get(v) if isinstance(v, str) else None
    if d is None or depth > 6:
        return None
    if d.op in ('load', 'zext', 'sext', 'trunc', 'freeze'):
        return param_of(ctx, f, d.ops[0], depth + 1)
    return None


def argval(ctx, f, a):
    """value stored once in the temporary a const reference argument is bound to"""
    d = f.defs.get(a) if isinstance(a, str) else None
    if d is not None and d.op == 'alloca':
        st = [u for u in f.uses.get(a, ()) if u.op == 'store' and u.ops[1] == a]
        if len(st) == 1:
            return st[0].ops[0]
        return None
    return a


def decreasing(ctx, f, call):
    """an integer parameter is passed on smaller and the call is made only above (or below) a constant"""
    cfg = ctx.F.cfg(f)
    facts = cfg.edge_facts(call.block.name)
    for k, a in enumerate(call.args):
        v = argval(ctx, f, a)
        d = f.defs.get(v) if isinstance(v, str) else None
        if d is None or d.op not in ('sub', 'add'):
            continue
        c = intc(d.ops[1])
        if not c:
            continue
        c = -c if d.op == 'sub' else c
        p = param_of(ctx, f, d.ops[0])
        if p is None or k >= len(f.params) or p != k:
            continue
        for cond, truth, term in facts:
            x = f.defs.get(cond)
            if x is None or x.op != 'icmp':
                continue
            for o, other in (x.ops, x.ops[::-1]):
                if param_of(ctx, f, o) == p and intc(other) is not None:
                    pr = x.pred if o == x.ops[0] else Loop.SWAP[x.pred]
                    pr = pr if truth else Loop.INV[pr]
                    if c < 0 and pr in ('sgt', 'sge', 'ugt') or c > 0 and pr in ('slt', 'sle', 'ult', 'ule'):
                        return "parameter %d decreases towards a constant" % (k + 1)
    return None


def shorter(ctx, f, call):
    """a text parameter is passed on without its first character (or a sequence without an element)"""
    for k, a in enumerate(call.args):
        d = f.defs.get(a) if isinstance(a, str) else None
        if d is None or d.op != 'alloca':
            continue
        for u in f.uses.get(a, ()):
            if u.op in ('call', 'invoke') and u.args and u.args[0] == a and 'sret' in u.argattrs[0]:
                n = iters.cname(ctx, u)
                if n is not None and n.base == 'substr' and len(u.args) >= 3 and param_of(ctx, f, u.args[1]) is not None:
                    s = f.defs.get(u.args[2])
                    if intc(u.args[2]) and intc(u.args[2]) >= 1:
                        return "a proper part of the text"
                    if s is not None and s.op == 'add' and any((intc(o) or 0) >= 1 for o in s.ops):
                        return "a proper part of the text"
    return None


REMOVES = ('pop_back', 'pop_front', 'pop', 'erase', 'clear', 'resize', 'swap', 'operator=', 'assign', 'remove')
ADDS = ('push_back', 'push_front', 'push', 'insert', 'emplace', 'emplace_back', 'operator[]')
SEARCHES = ('find', 'find_if', 'lower_bound', 'count', 'count_if', 'binary_search', 'contains', 'any_of', 'none_of')


def absent(ctx, f, v, truth, search, depth=0):
    """does v == truth imply that the search did not find the name?"""
    d = f.defs.get(v) if isinstance(v, str) else None
    if d is None or depth > 10:
        return False
    go = lambda x, t: absent(ctx, f, x, t, search, depth + 1)
    if d.op in ('trunc', 'zext', 'freeze', 'sext'):
        return go(d.ops[0], truth)
    if d.op == 'xor' and const_of(d.ops[1]) in (1, True, -1):
        return go(d.ops[0], not truth)
    if d.op == 'icmp':
        k = const_of(d.ops[1])
        nz = None
        if k == 0 and d.pred in ('eq', 'ne', 'ugt', 'sgt', 'ule', 'sle'):
            nz = (d.pred in ('ne', 'ugt', 'sgt')) == truth
        elif k == 1 and d.pred in ('eq', 'ne', 'uge', 'sge', 'ult', 'slt'):
            nz = (d.pred in ('eq', 'uge', 'sge')) == truth
        return nz is not None and go(d.ops[0], nz)
    if d.op == 'and' and truth or d.op == 'or' and not truth:
        return any(go(o, truth) for o in d.ops)
    if d.op == 'phi':
        live = [(a, b) for a, b in d.incoming if const_of(a) is None or bool(const_of(a)) == truth]
        if len(live) != 1:
            return False
        a, b = live[0]
        if const_of(a) is None and go(a, truth):
            return True
        t = f.blocks[b].insts[-1]
        if t.op == 'br' and len(t.labels) == 2 and go(t.ops[0], t.labels[0] == d.block.name):
            return True
        return any(go(c, tr) for c, tr, _ in ctx.F.cfg(f).edge_facts(b))
    if d.op == 'select':
        if truth and const_of(d.ops[2]) in (0, False):
            return go(d.ops[0], True) or go(d.ops[1], True)
        if not truth and const_of(d.ops[1]) in (1, True):
            return go(d.ops[0], False) or go(d.ops[2], False)
        return False
    if d.op in ('load', 'extractvalue') and search.get('insert'):
        if d.op == 'extractvalue':
            return truth and f.defs.get(d.ops[0]) in search['insert']
        p = f.defs.get(d.ops[0])
        base = iters.base_alloca(f, p.ops[0]) if p is not None and p.op == 'getelementptr' else iters.base_alloca(f, d.ops[0])
        for i in search['insert']:
            for e in f.uses.get(i.res, []):
                for u in (f.uses.get(e.res, []) if e.op == 'extractvalue' else [e]):
                    if u.op == 'store':
                        q = f.defs.get(u.ops[1])
                        b2 = iters.base_alloca(f, q.ops[0]) if q is not None and q.op == 'getelementptr' else iters.base_alloca(f, u.ops[1])
                        if b2 == base:
                            return truth
        return False
    if d.op in ('call', 'invoke'):
        g = ctx.M.resolve(d.callee)
        if g is not None:
            s2 = searches(ctx, g, {(('P%d' % k), ()) for k in range(8)}, False)
            if not s2:
                return False
            rets = [i for i in g.insts() if i.op == 'ret' and i.ops]
            return len(rets) == 1 and absent(ctx, g, rets[0].ops[0], truth, s2, depth + 1)
        if d in search.get('count', ()):
            return not truth
        r = iters.iter_cmp(ctx, f, d)
        if r:
            pairs, iseq = r
            held = set()
            for s in search.get('find', ()):
                held |= iters.holders_of(ctx, f, s) | {s.res}
            return truth == iseq and any(a in held or b in held for a, b in pairs)
    return False


def searches(ctx, f, rs, exact=True):
    info = ctx.R.infos[f.name]
    cont = {(r[0], r[1] + ('[]',)) for r in rs}
    out = {}
    for i in f.insts():
        if i.op in ('call', 'invoke') and ctx.M.resolve(i.callee) is None:
            n = iters.cname(ctx, i)
            if n is None or n.base not in SEARCHES:
                continue
            touched = set()
            for x in ctx.R.call_args(i)[1]:
                touched |= ctx.R.pts_of(info, x) | ctx.R.cont_of(info, ctx.R.pts_of(info, x))
            if touched & (rs | cont):
                out.setdefault('find' if n.base in ('find', 'find_if', 'lower_bound') else 'count', []).append(i)
    return out


def remembered(ctx, f, call, scc):
    """names being worked on are kept in a container: a name that is already there is refused before the call is made"""
    info = ctx.R.infos[f.name]
    cfg = ctx.F.cfg(f)
    ret, args = ctx.R.call_args(call)
    for a in args:
        rs = ctx.R.pts_of(info, a)
        if not rs or not all(r[0][0] in 'P' for r in rs):
            continue
        adds, rems = [], []
        for i in f.insts():
            if i.op in ('call', 'invoke') and ctx.M.resolve(i.callee) is None:
                n = iters.cname(ctx, i)
                if n is not None and n.cls in stl.CONTAINERS and i.args and ctx.R.call_args(i)[1] and ctx.R.pts_of(info, ctx.R.call_args(i)[1][0]) == rs:
                    if n.base in ADDS:
                        adds.append(i)
                    elif n.base in REMOVES:
                        rems.append(i)
        adds = [i for i in adds if cfg.idominates(i, call)]
        if not adds:
            continue
        # a name once added stays until the call is done
        if any(not any(cfg.idominates(x, r) for x in adds) or after(cfg, f, r, call, adds) for r in rems):
            continue
        search = searches(ctx, f, rs)
        search['insert'] = [x for x in adds if iters.cname(ctx, x).cls in ('set', 'unordered_set', 'map', 'unordered_map') and iters.cname(ctx, x).base in ('insert', 'emplace')]
        for b in cfg.rpo:
            t = f.blocks[b].insts[-1]
            if t.op == 'br' and len(t.labels) == 2 and (any(cfg.idominates(t, x) for x in adds) or search['insert'] and cfg.idominates(t, call)):
                for k, s in enumerate(t.labels):
                    if call.block.name not in cfg._reach([s]) and absent(ctx, f, t.ops[0], k == 1, search):
                        return "a name in progress is refused"
    return None


def after(cfg, f, rem, call, adds):
    """can the call be reached from rem without adding the name again?"""
    stop = {x.block.name for x in adds}
    insts = rem.block.insts
    k = insts.index(rem)
    for i in insts[k + 1:]:
        if i in adds:
            return False
        if i is call:
            return True
    seen = set(); work = list(cfg.succ.get(rem.block.name, ()))
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        if b == call.block.name and not any(x.block.name == b and f.blocks[b].insts.index(x) < f.blocks[b].insts.index(call) for x in adds):
            return True
        if b not in stop:
            work.extend(cfg.succ.get(b, ()))
    return False


def run(ctx):
    res = Result()
    res.rule = ("for every natural loop of every function: counters (monotone per turn, by interval of the net change over all paths of the turn), iterators, bisections, stream reads and "
                "shrinking containers are collected; each must be tested by an exit that lies on every turn against a limit the loop does not move, and no turn may avoid the "
                "advancing steps; for every call inside a cycle of the call graph: an integer parameter that decreases towards a tested constant, a proper part of a text parameter, or a "
                "container of names in progress that refuses repeats; functions given to sort compare strictly; obligations = loops, recursive calls, ordering functions")
    for f in sorted(ctx.M.functions.values(), key=lambda x: x.name):
        cfg = ctx.F.cfg(f)
        n = ctx.name(f)
        q = n.qual[6:] if n.qual.startswith('fisx::') else n.qual
        k = 0
        for h in [b for b in cfg.rpo if b in cfg.loops]:
            k += 1
            res.count('obligations'); res.count('loops')
            L = Loop(ctx, f, cfg, h, cfg.loops[h])
            ok, kinds = L.ends()
            if ok:
                for x in kinds[:1]:
                    res.count('ended by ' + x)
                res.sample("%s line %s: %s" % (ctx.short(f), f.blocks[h].insts[-1].where().split(':')[-1], kinds))
                continue
            if q in INNER and weak(L):
                res.count('ended by an inner loop')
                continue
            res.add('loop', ctx.short(f), 'loop %s' % describe(ctx, L), f.blocks[h].insts[-1].where(),
                    "%s: no counter, iterator or read is shown to advance towards the end on every turn of this loop: some input makes it run for ever" % ctx.sig(f)[:140])
        # cycles that are not natural loops
        back = {(p, h) for h, body in cfg.loops.items() for p in cfg.pred[h] if p in body}
        state = {}
        st = [(cfg.rpo[0], iter(cfg.succ[cfg.rpo[0]]))]
        state[cfg.rpo[0]] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if (b, s) in back:
                    continue
                if state.get(s) == 1:
                    res.add('loop', ctx.short(f), 'goto cycle', f.blocks[b].insts[-1].where(), "%s: a cycle with two entries has no measure" % ctx.sig(f)[:140])
                    continue
                if s not in state:
                    state[s] = 1
                    st.append((s, iter(cfg.succ[s])))
                    break
            else:
                state[b] = 2
                st.pop()
    # recursion
    g = {f.name: set() for f in ctx.M.functions.values()}
    for f in ctx.M.functions.values():
        for i in f.insts():
            x = ctx.M.resolve(i.callee) if i.callee and not i.callee.startswith('%') else None
            if x is not None:
                g[f.name].add(x.name)
    for c in sccs(g):
        s = set(c)
        if len(c) == 1 and c[0] not in g[c[0]]:
            continue
        for nme in sorted(c):
            f = ctx.M.functions[nme]
            n = ctx.name(f)
            q = n.qual[6:] if n.qual.startswith('fisx::') else n.qual
            res.count('recursive functions')
            cfg = ctx.F.cfg(f)
            for i in f.insts():
                x = ctx.M.resolve(i.callee) if i.callee and not i.callee.startswith('%') else None
                if x is None or x.name not in s or i.block.name not in cfg.reach:
                    continue
                res.count('obligations'); res.count('recursive calls')
                why = decreasing(ctx, f, i) or shorter(ctx, f, i) or remembered(ctx, f, i, s)
                if why is None and (q, 'local') in RECURSION and x is f and (cfg.reach and exits_without(f, cfg, i)):
                    why = RECURSION[(q, 'local')]
                if why is None:
                    res.add('recursion', ctx.short(f), 'call of ' + ctx.short(x), i.where(),
                            "%s calls %s, which comes back to it, and nothing received gets smaller or is remembered: some input (data that refers to itself) recurses until the stack is exhausted" %
                            (ctx.sig(f)[:120], ctx.short(x)))
                else:
                    res.sample("recursion in %s: %s" % (ctx.short(f), why), limit=40)
    # orderings
    for f in sorted(ctx.M.functions.values(), key=lambda x: x.name):
        if ordering(ctx, f):
            res.count('obligations'); res.count('orderings')
            for i in f.insts():
                bad = i.op in ('icmp', 'fcmp') and i.pred not in STRICT and i.pred not in ('true', 'false')
                n = iters.cname(ctx, i) if i.op in ('call', 'invoke') else None
                if n is not None and n.base in ('operator<=', 'operator>='):
                    bad = True
                if bad:
                    res.add('ordering', ctx.short(f), 'not strict', i.where(),
                            "%s orders elements for sort with a comparison that holds for equal ones: sorting equal elements runs past the ends of the list" % ctx.sig(f)[:140])
    res.need('loops', 270)
    res.need('recursive calls', 3)
    res.need('orderings', 2)
    return res


def exits_without(f, cfg, call):
    """some path returns without making the call"""
    seen = set(); st = [cfg.rpo[0]]
    while st:
        b = st.pop()
        if b in seen or b == call.block.name:
            continue
        seen.add(b)
        if cfg.exits.get(b) == 'ret':
            return True
        st.extend(cfg.succ[b])
    return False


def ordering(ctx, f):
    """f decides an order: operator< of a library class, a functor/closure or function handed to sort"""
    n = ctx.name(f)
    if n.base == 'operator<' and n.scope.startswith('fisx'):
        return True
    if n.base == 'operator()' and n.scope.startswith('fisx') and f.rettype.split()[-1] == 'i1' and len(n.params) == 2 and n.params[0] == n.params[1]:
        return True
    return False


def describe(ctx, L):
    """what the loop is about, without line numbers"""
    names = []
    for b, c, stay in L.exits():
        for d, truth in L.conds(c, stay):
            if d.op in ('call', 'invoke'):
                n = iters.cname(ctx, d)
                names.append('%s %s' % (n.base if n is not None else '?', '' if truth else 'not'))
            else:
                names.append('%s %s' % (d.op, d.pred if hasattr(d, 'pred') and d.pred else ''))
    return 'on ' + ', '.join(sorted({x.strip() for x in names})) if names else 'without a test'
