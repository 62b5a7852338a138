"""Every lookup result is compared with end() of the same container before it is dereferenced."""
from ..core import Result
from ..regions import rstr
from .. import iters

# keys whose presence is part of the record schema established by the producers (decided by C19, not here)
SCHEMA = {  # producer -> keys of every record it answers
    'getXRayLinesFromVacancyDistribution': {'rate', 'energy'},
    'getPhotoelectricExcitationFactors': {'rate', 'energy', 'factor'},
    'getExcitationFactors': {'rate', 'energy', 'factor'},
    'getEscape': {'rate', 'energy'}, 'updateEscapeCache': {'rate', 'energy'}}
SCHEMA_MEMBERS = {  # member -> keys of its records
    'shellConstants': {'omega'},    # inserted by both Shell constructors; setShellConstants can only overwrite existing keys
    'cascadeCache': {'rate', 'energy'}, 'escapeCache': {'rate', 'energy'}}
# members whose key set is fixed by the constructor and never shrinks (obligation re-checked below)
FIXED_KEYS = {('Element', 'muPartialPhotoelectricEnergy'), ('Element', 'muPartialPhotoelectricValue')}
# container -> containers whose every key it contains by construction (Shell() inserts the "f<i><j>" keys of the subshell name into
# shellConstants; _updateNonradiativeRatios builds the keys of costerKronigRatios from the same name and the same index range)
SUPERSET = {('Shell', 'shellConstants'): {'costerKronigRatios'}}
# functions whose result lists keys of the named member
KEYS_OF = {'getExcitedShells': 'bindingEnergy'}


def schema_ok(ctx, fn, cont, key):
    """the key belongs to the records of every object the container may be"""
    called = set()
    info = ctx.R.infos[fn.name]
    src = {}
    for i in fn.insts():
        g = ctx.M.resolve(i.callee) if i.callee else None
        if g is None:
            continue
        b = ctx.name(g).base
        if b in SCHEMA:
            called.add(b)
        for a, at in zip(i.args, i.argattrs):
            if 'sret' in at:
                for r in ctx.R.pts_of(info, a):
                    src.setdefault(r[0], set()).add(b)
    for root, path in cont:
        ms = [m for m in path if m not in ('[]', '*')]
        if root[0] == 'L' and not ms:
            s = src.get(root)
            if s is not None and any(b not in SCHEMA or key not in SCHEMA[b] for b in s):
                return False
            if s is None and not any(key in SCHEMA[b] for b in called):
                return False
        elif not ms or key not in SCHEMA_MEMBERS.get(ms[-1], ()):
            return False
        elif ms[-1] == 'shellConstants' and path[-1] != '[]' and path[-1] != 'shellConstants':
            return False
    return bool(cont)


def members(cont):
    return {x for r in cont for x in r[1] if x not in ('[]', '*')}


def derived_key(ctx, fn, key, cont):
    """key is an element of a local filled by a library function that lists the container's own keys"""
    locs = set()

    def walk(k):
        if isinstance(k, tuple):
            if len(k) == 2 and k[0] == 'loc':
                locs.add(k[1])
            for x in k:
                walk(x)
    walk(key)
    for l in locs:
        for u in fn.uses.get(l, []):
            if u.op in ('call', 'invoke') and u.args:
                g = ctx.M.resolve(u.callee)
                src = None
                if g is not None and l in u.args and 'sret' in u.argattrs[u.args.index(l)]:
                    src = ctx.name(g).base
                else:
                    n = iters.cname(ctx, u)
                    if n is not None and n.base == 'operator=' and u.args[0] == l and len(u.args) > 1:
                        t = u.args[1]
                        for w in fn.uses.get(t, []):
                            gg = ctx.M.resolve(w.callee) if w.callee else None
                            if gg is not None and t in w.args and 'sret' in w.argattrs[w.args.index(t)]:
                                src = ctx.name(gg).base
                if src in KEYS_OF and KEYS_OF[src] in members(cont):
                    return src
    return None


def key_source(ctx, fn, inst, key):
    """(members of *this, local maps) whose element an `it->first` key is"""
    locs = []

    def walk(k):
        if isinstance(k, tuple):
            if len(k) == 2 and k[0] == 'loc':
                locs.append(k[1])
            for x in k:
                walk(x)
    walk(key)
    if len(set(locs)) != 1:
        return None
    info = ctx.R.infos[fn.name]
    cfg = ctx.F.cfg(fn)
    mem, loc = set(), set()
    defs = []
    for i in fn.insts():
        if i.block.name not in cfg.reach:
            continue
        if i.op == 'store' and iters.base_alloca(fn, i.ops[1]) == locs[0]:
            defs.append((i, ctx.R.pts_of(info, i.ops[0])))
        elif i.callee and i.callee.startswith('llvm.memcpy') and iters.base_alloca(fn, i.args[0]) == locs[0]:
            src = iters.base_alloca(fn, i.args[1])
            rs = set(info.contents.get('L' + src, ()))
            for j in fn.insts():
                if j.op == 'store' and iters.base_alloca(fn, j.ops[1]) == src:
                    rs |= ctx.R.pts_of(info, j.ops[0])
            defs.append((i, rs))
    best = None
    for i, rs in defs:
        if cfg.idominates(i, inst) and (best is None or cfg.idominates(best[0], i)):
            best = (i, rs)
    if best is None or any(i is not best[0] and cfg.idominates(best[0], i) and inst.block.name in cfg._reach([i.block.name]) for i, rs in defs):
        return None
    for r in best[1]:
        if r[0][0] == 'L' or r[0] == 'RET':
            loc.add(r[0])
        else:
            mem |= {x for x in r[1] if x not in ('[]', '*')} or {'?'}
    return mem, loc


def key_from(ctx, fn, inst, key, members_ok):
    """key is `it->first` of an iterator that only walks the given members, or a local map all of whose keys come from them
    (literal keys of the local map must be excluded by a dominating comparison)"""
    src = key_source(ctx, fn, inst, key)
    if src is None or not (src[0] or src[1]) or not src[0] <= members_ok:
        return False
    excluded = set()
    for cond, truth, term in ctx.F.cfg(fn).edge_facts(inst.block.name):
        d = fn.defs.get(cond)
        if d is not None and d.op in ('call', 'invoke') and not truth:
            n = iters.cname(ctx, d)
            if n is not None and n.base == 'operator==':
                for a in d.args:
                    t = iters.keyexpr(ctx, fn, a)
                    if t[0] == 'lit':
                        excluded.add(t[1])
    info = ctx.R.infos[fn.name]
    for l in src[1]:
        for u in fn.insts():
            if u.op in ('call', 'invoke') and u.args and (l, ()) in ctx.R.pts_of(info, u.args[0]) and len(u.args) > 1:
                n = iters.cname(ctx, u)
                if n is None or n.base not in ('operator[]', 'insert', 'emplace'):
                    continue
                if n.base != 'operator[]':
                    return False
                k = iters.keyexpr(ctx, fn, u.args[1])
                if k[0] == 'lit':
                    if k[1] not in excluded:
                        return False
                    continue
                s2 = key_source(ctx, fn, u, k)
                if s2 is None or not s2[0] <= members_ok or not s2[1] <= src[1]:
                    return False
    return True


def run(ctx):
    res = Result()
    res.rule = ("iterator typestate on every map/set/vector lookup (find, lower_bound, upper_bound, std::find*): from the lookup, property "
                "simulation over the CFG until the iterator is overwritten; every dereference or erase must be reached only in state "
                "'compared unequal to end() of the same container', or the key must be present by a dominating fact (find/count/predicate "
                "such as isElementNameDefined/insertion with the same key)")
    res.notes = ["literal record keys %s are guaranteed by their producers" % sorted({k for v in list(SCHEMA.values()) + list(SCHEMA_MEMBERS.values()) for k in v}),
                 "keys stored in a string variable are identified by variable, not by value"]
    for c, m in sorted(FIXED_KEYS | set(SUPERSET)):
        ctx.classfield(c, m)
        # obligation: nobody erases from / replaces these members
        for f in ctx.methods(c):
            for (r, kind), ev in ctx.R.sum[f.name].writes.items():
                if r == ('P0', (m,)) and kind in ('clear',) and not ctx.is_dtor(f):
                    res.add('fixed-keys', ctx.short(f), m, ev.inst.where(), "member %s loses keys that lookups rely on" % m)
    P = iters.Presence(ctx)
    for f in sorted(ctx.M.functions.values(), key=lambda x: x.name):
        k = 0
        for s in P.fn_sites(f):
            res.count('lookups')
            res.count('obligations')
            uses = iters.run_site(ctx, s)
            res.count('dereferences', len({id(u[0]) for u in uses}))
            bad = [u for u in uses if u[2] != 'valid']
            if not bad:
                res.count('proved_guarded' if uses else 'not_dereferenced')
                continue
            mem = members(s.cont)
            erased = [u for u in bad if u[2] == 'erased']
            if not erased:
                if P.present(f, s.inst, s.cont, s.key):
                    res.count('proved_present'); continue
                if s.key[0] == 'lit' and schema_ok(ctx, f, s.cont, s.key[1]):
                    res.count('schema_key'); continue
                if any((c, m) in FIXED_KEYS for c in ctx.M.classes for m in mem):
                    res.count('fixed_key'); continue
                if any((c, m) in SUPERSET and key_from(ctx, f, s.inst, s.key, SUPERSET[(c, m)]) for c in ctx.M.classes for m in mem):
                    res.count('superset_key'); continue
                if derived_key(ctx, f, s.key, s.cont):
                    res.count('derived_key'); continue
            i, u, st = bad[0]
            what = {'unchecked': "no comparison with end() of this container on some path", 'end': "on a path where the lookup failed",
                    'erased': "after the container was cleared or an element erased"}[st]
            cn = '/'.join(sorted({rstr(r) for r in s.cont}))[:80]
            res.add('unguarded-lookup', ctx.short(f), "%s(%s)" % (s.kind, '.'.join(sorted(mem)) or 'local') + ('#%s' % s.key[1] if s.key[0] == 'lit' else ''),
                    i.where(), "result of %s() on %s at %s is used (%s) %s" % (s.kind, cn, s.inst.where(), u, what),
                    ["%s use %s in state '%s'" % (x[0].where(), x[1], x[2]) for x in bad])
            res.sample("%s %s" % (ctx.short(f), s.inst.where()))
    res.need('lookups', 60)
    res.need('proved_guarded', 30)
    return res
