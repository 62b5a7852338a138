"""Lookup results: sites, key expressions, presence facts."""
from . import stl
from .esp import Esp, Client, const_of
from .ir import AnalysisError

LOOKUPS = {'find', 'lower_bound', 'upper_bound', 'find_if', 'find_first_of', 'find_if_not', 'max_element', 'min_element'}
FREE_LOOKUPS = {'find', 'find_if', 'find_if_not', 'lower_bound', 'upper_bound'}


def cname(ctx, inst):
    c = inst.callee
    if c is None or c.startswith('%') or c.startswith('llvm.'):
        return None
    return ctx.M.name(c)


def is_end(n):
    return n is not None and n.base in ('end', 'cend')


def const_string(fn, v):
    """text of the constant a char* SSA value points to"""
    if v.startswith('@'):
        g = fn.module.globals.get(v)
        if g:
            import re
            m = re.search(r'c"((?:[^"])*)"', g)
            if m:
                t = m.group(1)
                return re.sub(r'\\([0-9A-Fa-f]{2})', lambda x: chr(int(x.group(1), 16)), t).rstrip('\0')
            if 'zeroinitializer' in g:
                return ''
    return None


def base_alloca(fn, v):
    for _ in range(6):
        d = fn.defs.get(v)
        if d is None:
            return v
        if d.op in ('getelementptr', 'bitcast'):
            if d.op == 'getelementptr' and any(o not in ('0',) for o in d.ops[1:]):
                return v
            v = d.ops[0]
            continue
        return v
    return v


def keyexpr(ctx, fn, v, depth=0):
    if not isinstance(v, str):
        return ('?',)
    if depth > 8:
        return ('deep', v)
    c = const_of(v)
    if c is not None:
        return ('k', c)
    if v.startswith('@'):
        s = const_string(fn, v)
        return ('lit', s) if s is not None else ('g', v)
    if v in fn.params:
        return ('par', v)
    d = fn.defs.get(v)
    if d is None:
        return ('?', v)
    if d.op == 'alloca':
        # temporary string built once from a literal
        ctors = []
        for u in fn.uses.get(v, []):
            if u.op in ('call', 'invoke') and u.args and u.args[0] == v:
                n = cname(ctx, u)
                if n is not None and n.cls == n.base and len(u.args) >= 2:
                    ctors.append(u)
                elif n is not None and (n.base in ('operator=', 'operator+=', 'append', 'assign', 'push_back', 'insert', 'erase', 'swap') or
                                        n.base == 'operator[]' and not n.const):
                    ctors.append(None)
            elif u.op in ('call', 'invoke') and u.args and v in u.args and 'sret' in u.argattrs[u.args.index(v)]:
                ctors.append(None)
            elif u.op == 'store' and u.ops[1] == v:
                ctors.append(('st', u.ops[0]))
        if len(ctors) == 1 and ctors[0] is not None:
            if isinstance(ctors[0], tuple):
                k = keyexpr(ctx, fn, ctors[0][1], depth + 1)
                return k if k[0] == 'k' else ('loc', v)
            s = const_string(fn, ctors[0].args[1])
            if s is not None:
                return ('lit', s)
        return ('loc', v)
    if d.op == 'getelementptr':
        return ('gep', d.extra if d.extra.startswith('%') else '', keyexpr(ctx, fn, d.ops[0], depth + 1)) + tuple(
            keyexpr(ctx, fn, o, depth + 1) if not const_of(o) is not None else o for o in d.ops[1:])
    if d.op == 'load':
        return ('ld', keyexpr(ctx, fn, d.ops[0], depth + 1))
    if d.op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'):
        return keyexpr(ctx, fn, d.ops[0], depth + 1)
    if d.op in ('call', 'invoke'):
        n = cname(ctx, d)
        if n is not None:
            return ('call', n.base) + tuple(keyexpr(ctx, fn, a, depth + 1) for a in d.args)
    if d.op in ('add', 'sub', 'mul'):
        return (d.op,) + tuple(keyexpr(ctx, fn, o, depth + 1) for o in d.ops)
    return ('ssa', v)


class Site:
    def __init__(self, fn, inst, cont, key, kind):
        self.fn = fn; self.inst = inst; self.cont = cont; self.key = key; self.kind = kind


def container_of(ctx, fn, inst):
    """region set identifying 'inside the container' for a lookup / end() call"""
    info = ctx.R.infos[fn.name]
    n = cname(ctx, inst)
    ret, args = ctx.R.call_args(inst)
    if not args:
        return frozenset()
    if n.cls in stl.CONTAINERS:
        return frozenset(ctx.R.inside(ctx.R.pts_of(info, args[0])))
    if n.scope == 'std' and n.base in ('end', 'cend', 'begin'):
        return frozenset(ctx.R.inside(ctx.R.pts_of(info, args[0])))
    # free algorithm: args are iterators (coerced pointers)
    return frozenset(ctx.R.pts_of(info, args[1] if len(args) > 1 else args[0]))


def sites(ctx, fn):
    out = []
    for i in fn.insts():
        if i.op not in ('call', 'invoke') or not i.res:
            continue
        n = cname(ctx, i)
        if n is None or ctx.M.resolve(i.callee):
            continue
        if n.cls in stl.CONTAINERS and n.cls not in ('basic_string', 'basic_string_view') and n.base in ('find', 'lower_bound', 'upper_bound'):
            ret, args = ctx.R.call_args(i)
            out.append(Site(fn, i, container_of(ctx, fn, i), keyexpr(ctx, fn, args[1]) if len(args) > 1 else ('?',), n.base))
        elif n.scope == 'std' and n.base in FREE_LOOKUPS and i.ty == 'ptr' and len(i.args) >= 3:
            out.append(Site(fn, i, container_of(ctx, fn, i), keyexpr(ctx, fn, i.args[2]), 'std::' + n.base))
    return out


def same_container(a, b):
    return bool(a & b)


class IterClient(Client):
    """auto = (holders frozenset of allocas, status) for one lookup site"""

    def __init__(self, ctx, site):
        self.ctx = ctx; self.site = site; self.fn = site.fn
        self.bad = []
        self.ends = {}

    # ---- helpers
    def content_is_end(self, v):
        """alloca v only ever receives end() of our container"""
        if v in self.ends:
            return self.ends[v]
        fn = self.fn
        ok = None
        st = [v]; seen = set()
        res = []
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for u in fn.uses.get(x, []):
                if u.op == 'getelementptr' and u.ops[0] == x and all(o == '0' for o in u.ops[1:]):
                    st.append(u.res)
                elif u.op == 'store' and u.ops[1] == x:
                    res.append(('v', u.ops[0]))
                elif u.op in ('call', 'invoke'):
                    if u.callee.startswith('llvm.memcpy') and u.args[0] == x:
                        res.append(('a', u.args[1]))
                    else:
                        n = cname(self.ctx, u)
                        if n is not None and u.args and u.args[0] == x and n.cls == n.base and len(u.args) > 1:
                            res.append(('a', u.args[1]))
        if not res:
            r = False
        else:
            r = True
            for k, val in res:
                if k == 'v':
                    d = fn.defs.get(val)
                    if not (d is not None and d.op in ('call', 'invoke') and is_end(cname(self.ctx, d)) and
                            same_container(container_of(self.ctx, fn, d), self.site.cont)):
                        r = False
                else:
                    self.ends[v] = False
                    if not self.content_is_end(base_alloca(fn, val)):
                        r = False
        self.ends[v] = r
        return r

    def transfer(self, i, auto):
        holders, status = auto
        fn = self.fn
        if i is self.site.inst:
            return ()          # a new lookup supersedes this one
        if i.op == 'store':
            tgt = base_alloca(fn, i.ops[1])
            if i.ops[0] == self.site.inst.res:
                return ((holders | {tgt}, status),)
            d = fn.defs.get(i.ops[0])
            if d is not None and d.op == 'load' and base_alloca(fn, d.ops[0]) in holders and d.ty == 'ptr':
                return ((holders | {tgt}, status),)
            if tgt in holders:
                holders = holders - {tgt}
                return ((holders, status),) if holders else ()
        elif i.op in ('call', 'invoke'):
            c = i.callee
            if c.startswith('llvm.memcpy'):
                dst = base_alloca(fn, i.args[0]); src = base_alloca(fn, i.args[1])
                if src in holders:
                    return ((holders | {dst}, status),)
                if dst in holders:
                    holders = holders - {dst}
                    return ((holders, status),) if holders else ()
                return (auto,)
            n = cname(self.ctx, i)
            if n is None:
                return (auto,)
            if n.cls in stl.ITERATORS and i.args:
                a0 = base_alloca(fn, i.args[0])
                if n.base == n.cls and len(i.args) > 1 and base_alloca(fn, i.args[1]) in holders:
                    return ((holders | {a0}, status),)
                if a0 in holders and n.base in ('operator++', 'operator--', 'operator+=', 'operator-=', 'operator='):
                    holders = holders - {a0}
                    return ((holders, status),) if holders else ()
            if n.cls in stl.CONTAINERS and n.base in ('erase', 'clear') and i.args:
                rg = frozenset(self.ctx.R.inside(self.ctx.R.pts_of(self.ctx.R.infos[fn.name], i.args[0])))
                if same_container(rg, self.site.cont) and n.cls in ('map', 'set', 'unordered_map', 'vector'):
                    return ((holders, 'erased'),)
        return (auto,)

    transfer_exc = transfer

    def refine(self, i, truth, auto):
        holders, status = auto
        if i.op in ('call', 'invoke'):
            n = cname(self.ctx, i)
            if n is not None and n.base in ('operator==', 'operator!=') and len(i.args) == 2:
                a, b = (base_alloca(self.fn, x) for x in i.args)
                if b in holders:
                    a, b = b, a
                if a in holders and self.content_is_end(b):
                    eq = (n.base == 'operator==') == truth
                    if status == 'valid':
                        return None if eq else auto
                    if status == 'end':
                        return auto if eq else None
                    return (holders, 'end' if eq else 'valid')
        elif i.op == 'icmp':
            # raw pointer comparison of loaded iterator values
            pass
        return auto

    def is_use(self, i, auto):
        holders, status = auto
        if i.op not in ('call', 'invoke') or not i.args:
            return None
        n = cname(self.ctx, i)
        if n is None:
            return None
        if n.cls in stl.ITERATORS and n.base in ('operator*', 'operator->') and base_alloca(self.fn, i.args[0]) in holders:
            return 'dereference'
        if n.base == 'erase' and n.cls in stl.CONTAINERS and len(i.args) == 2:
            d = self.fn.defs.get(i.args[1])
            if d is not None and d.op == 'load' and base_alloca(self.fn, d.ops[0]) in holders:
                return 'erase'
        return None

    def visit(self, i, auto):
        u = self.is_use(i, auto)
        if u:
            self.uses.append((i, u, auto[1]))


def run_site(ctx, site, facts=None):
    cl = IterClient(ctx, site)
    cl.uses = []
    e = Esp(ctx, site.fn, cl)
    e.run(site=site.inst, auto=(frozenset(), 'unchecked'), facts=facts)
    # direct `*find()` without storing cannot occur at -O0: operator-> takes the address of a temporary
    e.report()
    return cl.uses


def iter_cmp(ctx, fn, inst):
    """comparison of a lookup result with end(): -> (list of sites' insts, sense) or None.  Flow-insensitive on temporaries."""
    n = cname(ctx, inst)
    if n is None or n.base not in ('operator==', 'operator!=') or len(inst.args) != 2:
        return None
    out = []
    for x, y in ((inst.args[0], inst.args[1]), (inst.args[1], inst.args[0])):
        a = base_alloca(fn, x)
        out.append((a, base_alloca(fn, y)))
    return out, n.base == 'operator=='


def holders_of(ctx, fn, inst):
    """allocas that (flow-insensitively) may hold the result of lookup inst, with store instructions"""
    hs = set()
    work = [inst.res]
    for u in fn.uses.get(inst.res, []):
        if u.op == 'store' and u.ops[0] == inst.res:
            hs.add(base_alloca(fn, u.ops[1]))
    ch = True
    while ch:
        ch = False
        for i in fn.insts():
            if i.callee and i.callee.startswith('llvm.memcpy') and base_alloca(fn, i.args[1]) in hs and base_alloca(fn, i.args[0]) not in hs:
                hs.add(base_alloca(fn, i.args[0])); ch = True
    return hs


class Presence:
    """dominating facts 'key is present in container'"""

    def __init__(self, ctx):
        self.ctx = ctx
        self._fn = {}
        self._pred = {}

    def cond_presence(self, fn, v, truth, depth=0):
        """[(container regions, key)] implied by condition v == truth"""
        ctx = self.ctx
        out = []
        if depth > 8 or not isinstance(v, str):
            return out
        d = fn.defs.get(v)
        if d is None:
            return out
        if d.op in ('trunc', 'zext', 'freeze', 'sext'):
            return self.cond_presence(fn, d.ops[0], truth, depth + 1)
        if d.op == 'xor' and d.ops[1] == 'true':
            return self.cond_presence(fn, d.ops[0], not truth, depth + 1)
        if d.op == 'icmp':
            k = const_of(d.ops[1])
            x = fn.defs.get(d.ops[0])
            if k is not None and x is not None:
                nz = None
                if k == 0 and d.pred in ('eq', 'ne', 'ugt', 'sgt', 'ule'):
                    nz = (d.pred in ('ne', 'ugt', 'sgt')) == truth
                elif k == 1 and d.pred in ('eq', 'ne', 'uge', 'sge', 'ult', 'slt'):
                    nz = (d.pred in ('eq', 'uge', 'sge')) == truth
                if nz is not None:
                    return self.cond_presence(fn, d.ops[0], nz, depth + 1)
            return out
        if d.op == 'and' and truth or d.op == 'or' and not truth:
            for o in d.ops:
                out += self.cond_presence(fn, o, truth, depth + 1)
            return out
        if d.op == 'phi' and d.ty in ('i1', 'i8', 'i32'):
            # true only through incomings that are not constant-false
            live = [(a, b) for a, b in d.incoming if const_of(a) is None or bool(const_of(a)) == truth]
            if len(live) == 1:
                a, b = live[0]
                out += self.cond_presence(fn, a, truth, depth + 1)
                out += self.at_block(fn, b, depth + 1)
                bt = fn.blocks[b].insts[-1]
                if bt.op == 'br' and len(bt.labels) == 2:
                    out += self.cond_presence(fn, bt.ops[0], bt.labels[0] == d.block.name, depth + 1)
            return out
        if d.op in ('call', 'invoke'):
            n = cname(ctx, d)
            if n is None:
                return out
            g = ctx.M.resolve(d.callee)
            if g is not None:
                if truth:
                    info = ctx.R.infos[fn.name]
                    ret, args = ctx.R.call_args(d)
                    for path, kidx in self.predicate(g):
                        if kidx < len(args) and args:
                            cont = set()
                            for r in ctx.R.pts_of(info, args[0]):
                                q = r
                                for x in path:
                                    from .regions import ext
                                    q = ext(q, x)
                                cont.add(q)
                            out.append((frozenset(cont), keyexpr(ctx, fn, args[kidx])))
                return out
            if n.base in ('count', 'contains') and n.cls in stl.CONTAINERS and truth and len(d.args) > 1:
                out.append((container_of(ctx, fn, d), keyexpr(ctx, fn, d.args[1])))
                return out
            r = iter_cmp(ctx, fn, d)
            if r:
                pairs, iseq = r
                if truth != iseq:      # result says: not equal to end
                    for s in self.fn_sites(fn):
                        hs = s.holders
                        cl = s.client
                        for a, b in pairs:
                            if a in hs and cl.content_is_end(b) and self.only_site(fn, a, s, d):
                                out.append((s.cont, s.key))
        return out

    def only_site(self, fn, a, s, cmp):
        # the lookup reaching the comparison: the closest dominating lookup stored in a
        cfg = self.ctx.F.cfg(fn)
        best = None
        for t in self.fn_sites(fn):
            if a in t.holders and cfg.idominates(t.inst, cmp):
                if best is None or cfg.idominates(best.inst, t.inst):
                    best = t
        return best is s

    def fn_sites(self, fn):
        if fn.name not in self._fn:
            ss = sites(self.ctx, fn)
            for s in ss:
                s.holders = holders_of(self.ctx, fn, s.inst)
                s.client = IterClient(self.ctx, s)
            self._fn[fn.name] = ss
        return self._fn[fn.name]

    def at_block(self, fn, b, depth=0):
        out = []
        cfg = self.ctx.F.cfg(fn)
        for cond, truth, term in cfg.edge_facts(b):
            out += self.cond_presence(fn, cond, truth, depth + 1)
        return out

    def at(self, fn, inst):
        out = self.at_block(fn, inst.block.name)
        # dominating insertions m[k]
        cfg = self.ctx.F.cfg(fn)
        for i in fn.insts():
            if i.op in ('call', 'invoke') and i is not inst:
                n = cname(self.ctx, i)
                if n is not None and n.base in ('operator[]', 'insert', 'emplace', 'at') and n.cls in ('map', 'unordered_map') and len(i.args) > 1 and cfg.idominates(i, inst):
                    out.append((frozenset(self.ctx.R.inside(self.ctx.R.pts_of(self.ctx.R.infos[fn.name], i.args[0]))), keyexpr(self.ctx, fn, i.args[1])))
        return out

    def present(self, fn, inst, cont, key):
        if key[0] in ('?', 'ssa', 'deep'):
            return False
        for c, k in self.at(fn, inst):
            if k == key and same_container(c, cont):
                return True
        return False

    def predicate(self, g):
        """[(path below this, key arg index)] that hold whenever g returns true/non-zero"""
        if g.name in self._pred:
            return self._pred[g.name]
        self._pred[g.name] = []
        facts = None
        rets = [i for i in g.insts() if i.op == 'ret' and i.ops]
        if g.rettype and rets and any(t in g.rettype for t in ('i1', 'i32', 'i8')):
            alts = []
            for r in rets:
                v = r.ops[0]
                d = g.defs.get(v)
                while d is not None and d.op in ('zext', 'trunc', 'sext', 'freeze'):
                    v = d.ops[0]; d = g.defs.get(v)
                if d is not None and d.op == 'phi':
                    for a, b in d.incoming:
                        alts.append((a, b))
                else:
                    alts.append((v, r.block.name))
            for a, b in alts:
                c = const_of(a)
                if c is not None and not c:
                    continue
                fs = set()
                for cont, k in self.at_block(g, b) + ([] if c is not None else self.cond_presence(g, a, True)):
                    if k[0] == 'par':
                        ix = self.ctx.R.infos[g.name].pindex.get(k[1])
                        for rg in cont:
                            if rg[0] == 'P0' and ix and ix != 'RET':
                                fs.add((rg[1], int(ix[1:])))
                facts = fs if facts is None else facts & fs
        self._pred[g.name] = sorted(facts or [])
        return self._pred[g.name]
