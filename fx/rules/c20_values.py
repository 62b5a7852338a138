"""Library objects are values: copies are complete and independent."""
import re
from ..core import Result
from ..regions import rstr
from .c09_init import MustWrite
from .c03_pure_queries import guard_init, leaf, trace

SHARED = re.compile(r'\b(shared_ptr|weak_ptr|reference_wrapper|auto_ptr|observer_ptr|intrusive_ptr|span|basic_string_view|string_view|initializer_list)\b'
                    r'|_iterator\b|\biterator\b|_Rb_tree_node|_List_node')


def shares(t):
    """a member of this type refers to storage outside the object"""
    t = t.strip()
    if '(' in t:
        return None
    m = SHARED.search(t)
    if m:
        return m.group(0)
    # character constants are text of the program itself
    u = re.sub(r'\bconst char \*', '', t)
    if '*' in u:
        return 'pointer'
    if '&' in u:
        return 'reference'
    return None


class AllWrite(MustWrite):
    """members of any type assigned on every path that is not the self-assignment one"""

    def gen(self, f, info, i):
        s = super().gen(f, info, i)
        ctx = self.ctx
        if i.op in ('call', 'invoke') and i.callee and not i.callee.startswith(('%', 'llvm.', '__')):
            ret, args = ctx.R.call_args(i)
            g = ctx.M.resolve(i.callee)
            n = ctx.name(i.callee)
            if args and (copies(ctx, g) if g is not None else n.base in (n.cls, 'operator=', 'swap', 'assign')):
                for r in ctx.R.pts_of(info, args[0]):
                    if r[0] == 'P0' and len(r[1]) == 1:
                        s.add(r[1][0])
            for k, a in enumerate(args):
                rs = ctx.R.pts_of(info, a)
                if len(rs) == 1:
                    r = next(iter(rs))
                    if r[0] == 'P0' and len(r[1]) == 1:
                        if any(e.rw == 'W' and e.region == r for e in self.evs(f).get(id(i), ())):
                            s.add(r[1][0])
        return s

    def evs(self, f):
        c = getattr(self, '_e', None)
        if c is None:
            c = self._e = {}
        if f.name not in c:
            d = c[f.name] = {}
            for e in self.ctx.R.infos[f.name].events:
                d.setdefault(id(e.inst), []).append(e)
        return c[f.name]

    def of(self, f):
        if f.name in self.memo:
            return self.memo[f.name]
        if f.name in self.active:
            return frozenset()
        # cut the self-assignment edge: this == &other
        ctx = self.ctx
        info = ctx.R.infos[f.name]
        cfg = ctx.F.cfg(f)
        dead = set()
        for b in cfg.rpo:
            t = f.blocks[b].insts[-1]
            if t.op == 'br' and len(t.labels) == 2 and t.ops and t.ops[0] in f.defs:
                c = f.defs[t.ops[0]]
                if c.op == 'icmp' and c.pred in ('eq', 'ne'):
                    rs = [ctx.R.pts_of(info, o) for o in c.ops]
                    if {('P0', ())} in rs and {('P1', ())} in rs:
                        dead.add((b, t.labels[0 if c.pred == 'eq' else 1]))
        if not dead:
            return super().of(f)
        keep = cfg.pred
        cfg.pred = {b: [p for p in ps if (p, b) not in dead] for b, ps in keep.items()}
        try:
            r = super().of(f)
        finally:
            cfg.pred = keep
        return r


def all_fields(ctx, cls, seen=()):
    """members of the class and of its bases"""
    out = []
    for n, t, l, a in ctx.M.classes[cls].fields:
        if a == 'base':
            b = t.split('::')[-1]
            if b in ctx.M.classes and b not in seen:
                out += all_fields(ctx, b, seen + (b,))
        elif not n.startswith('_vptr'):
            out.append((n, t, cls))
    return out


def copies(ctx, f):
    """f copies (or moves) a whole object into *this: class name"""
    n = ctx.name(f)
    if n.scope != 'fisx::' + n.cls or n.cls not in ctx.M.classes or len(n.params) != 1:
        return None
    if n.base not in (n.cls, 'operator='):
        return None
    p = n.params[0].replace('fisx::', '').replace('const', '').replace('&', '').strip()
    return n.cls if p == n.cls else None


def run(ctx):
    res = Result()
    res.rule = ("type rule over the debug information of every class (no member refers to storage outside its object: pointers, references, shared ownership, "
                "iterators); must-write dataflow over every copy/move constructor and assignment in the IR (each member of the class and of its bases is "
                "assigned on every normal path except self-assignment) with value-influence comparison (the member comes from the same member of the source); "
                "write-effect rule: no function other than a once-only initialiser writes storage shared by all objects; no public operation hands out a "
                "writable reference or pointer into the object; obligations = (class, member), (copy operation, member), (operation, result) and (function, static) pairs")
    # 1. members
    for cls in sorted(ctx.M.classes):
        ci = ctx.M.classes[cls]
        for n, t, l, a in ci.fields:
            if a == 'base' or n.startswith('_vptr'):
                continue
            res.count('obligations'); res.count('members')
            w = shares(t or '')
            if w:
                res.add('shared-member', cls, n, "%s:%s" % ((ci.file or cls).replace('/repo/', ''), l),
                        "member %s::%s has type %s (%s): a copy of the object refers to the same storage as its source" % (cls, n, t, w))
        for ln, m in ci.methods.items():
            if m['access'] != 'public' or not m['types']:
                continue
            t = m['types'][0].strip()
            res.count('obligations'); res.count('results')
            if m['name'].startswith('operator') and cls in t:
                continue
            if (t.endswith('&') or t.endswith('*')) and not t.startswith('const'):
                f = ctx.M.functions.get(ln)
                rs = ctx.R.sum[f.name].ret if f is not None else ()
                if f is None or any(r[0] == 'P0' for r in rs):
                    res.add('writable-view', '%s::%s' % (cls, m['name']), t, "%s:%s" % ((ci.file or cls).replace('/repo/', ''), m['line']),
                            "%s::%s answers %s, a writable view of the object's own storage: changing the answer changes the object" % (cls, m['name'], t))
    # 2. copy operations
    aw = AllWrite(ctx)
    D = ctx.VD
    for f in sorted(ctx.M.functions.values(), key=lambda x: x.name):
        cls = copies(ctx, f)
        if cls is None:
            continue
        n = ctx.name(f)
        if n.base == n.cls and not n.params[0].strip().endswith('&'):
            continue
        res.count('copy operations')
        w = aw.of(f)
        where = "%s:%s" % (f.file.replace('/repo/', '') if f.file else cls, f.line)
        out = D.sum[f.name]
        for fld, t, owner in all_fields(ctx, cls):
            res.count('obligations')
            if fld not in w and '*' not in w:
                res.add('incomplete-copy', ctx.short(f) + ('&&' if '&&' in n.params[0] else ''), fld, where,
                        "%s can return without copying %s::%s: the copy differs from its source" % (ctx.sig(f)[:120], owner, fld))
                continue
            src = set()
            for r, mask in out.items():
                if r == ('ret',):
                    continue
                if r[0] == 'P0' and (r[1][:1] == (fld,) or r[1] == ()):
                    for lab in D.names(mask):
                        if lab[0] == 'P1':
                            src.add(lab[1][0] if lab[1] else '*')
            if fld not in src and '*' not in src:
                res.add('wrong-source', ctx.short(f) + ('&&' if '&&' in n.params[0] else ''), fld, where,
                        "%s fills %s::%s from %s instead of the same member of the source" % (ctx.sig(f)[:120], owner, fld, sorted(src) or 'a constant'))
        res.sample("%s copies %d members" % (ctx.short(f), len(w)))
    # 3. storage shared by all objects
    for f in sorted(ctx.M.functions.values(), key=lambda x: x.name):
        res.count('obligations'); res.count('functions')
        for e in ctx.R.infos[f.name].events:
            if e.rw != 'W' or e.via is not None or e.region[0][0] != 'G':
                continue
            g = e.region[0][1:]
            if g.startswith(('_ZSt', '_ZGV', '.', 'errno')) or not in_library(ctx, g):
                continue
            if n_static_init(ctx, f) or guard_init(ctx, f, e.inst):
                continue
            nm = ctx.M.name(g).dem if g.startswith('_Z') else g
            res.add('shared-state', ctx.short(f), nm, e.inst.where(),
                    "%s changes %s, which all objects share: changing one object changes what another one answers" % (ctx.sig(f)[:120], nm))
    res.need('members', 75)
    res.need('results', 150)
    res.need('copy operations', 10)
    return res


def n_static_init(ctx, f):
    return f.name.startswith(('__cxx_global', '_GLOBAL__'))


def in_library(ctx, g):
    for m in ctx.M.modules:
        for k in ('@' + g, '@"%s"' % g):
            v = m.globals.get(k)
            if v is not None:
                return 'external global' not in v or '4fisx' in g
    return False
