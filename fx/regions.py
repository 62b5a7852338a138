"""Points-to regions and field-level effect summaries over the library's IR.

A region is (root, path): root 'Pk' (source-level parameter k, P0 = this for methods), 'RET' (result slot),
'L<reg>' (local object), 'G<name>' (global), 'X' (heap / unknown); path is a tuple of member names, '[]' = inside a
standard container, '*' = through a stored pointer.
"""
import re
from .ir import AnalysisError
from . import stl

MAXP = 7


def ext(r, x):
    root, p = r
    if x == '[]' and p and p[-1] == '[]' and len(p) >= 3 and p[-2] == '[]' and p[-3] == '[]':
        return r
    if len(p) >= MAXP:
        return r
    return (root, p + (x,))


def rstr(r):
    return r[0] + ''.join('.' + x if x not in ('[]', '*') else x for x in r[1])


class Ev:
    __slots__ = ('inst', 'region', 'kind', 'via', 'rw')

    def __init__(self, inst, region, kind, rw, via=None):
        self.inst = inst; self.region = region; self.kind = kind; self.rw = rw; self.via = via

    def __repr__(self):
        return "%s %s %s @%s" % (self.rw, self.kind, rstr(self.region), self.inst.where())


class Summary:
    def __init__(self):
        self.writes = {}   # (region, kind) -> example Ev
        self.reads = set()
        self.ret = set()   # regions the returned pointer may point to
        self.stores_ptr = set()


class FnInfo:
    def __init__(self, fn):
        self.fn = fn
        self.pts = {}        # ssa -> set(region)
        self.contents = {}   # local root -> set(region)
        self.events = []     # Ev list (program order by block)
        self.pindex = {}     # %n -> 'P0'.. / 'RET'


class Regions:
    def __init__(self, model, suppressed=None, keys=False, index=False):
        self.M = model
        self.index = index      # tell constant indices of vectors of containers apart
        self.keys = keys        # tell literal map keys apart: path step '[text]' instead of '[]'
        self._lit = {}
        self.suppressed = suppressed or set()   # (function, block, idx) of map::operator[] whose key is known present
        self.infos = {}
        self.sum = {}
        self.unknown_callees = {}
        fns = list(model.functions.values())
        for f in fns:
            self.infos[f.name] = self._init(f)
            self.sum[f.name] = Summary()
        # fixpoint, bottom-up-ish iteration
        changed = True
        rounds = 0
        work = list(fns)
        self.callers = {}
        for f in fns:
            for i in f.insts():
                if i.callee:
                    g = self.M.resolve(i.callee)
                    if g:
                        self.callers.setdefault(g.name, set()).add(f.name)
        pending = {f.name for f in fns}
        order = self._postorder(fns)
        while pending:
            rounds += 1
            if rounds > 30:
                raise AnalysisError("effect fixpoint did not converge")
            todo = [n for n in order if n in pending]
            pending = set()
            for n in todo:
                if self._analyze(n):
                    pending |= self.callers.get(n, set())

    def _postorder(self, fns):
        seen, out = set(), []
        callees = {}
        for f in fns:
            cs = []
            for i in f.insts():
                if i.callee:
                    g = self.M.resolve(i.callee)
                    if g:
                        cs.append(g.name)
            callees[f.name] = cs
        for f in fns:
            if f.name in seen:
                continue
            st = [(f.name, iter(callees[f.name]))]
            seen.add(f.name)
            while st:
                n, it = st[-1]
                for c in it:
                    if c not in seen:
                        seen.add(c); st.append((c, iter(callees[c])))
                        break
                else:
                    out.append(n); st.pop()
        return out

    # ------------------------------------------------------------------
    def _init(self, f):
        info = FnInfo(f)
        k = 0
        for p, at, ty in zip(f.params, f.pattrs, f.ptypes):
            if 'sret' in at:
                info.pindex[p] = 'RET'
            else:
                info.pindex[p] = 'P%d' % k
                k += 1
            if ty == 'ptr' or (ty.startswith('{') and 'ptr' in ty):
                info.pts[p] = {(info.pindex[p], ())}
        return info

    def _gep_field(self, fn, inst):
        st = inst.extra
        names = fn.module.field_ix.get(st)
        if names is not None and len(inst.ops) >= 3:
            try:
                k = int(inst.ops[2])
            except ValueError:
                return None
            return names[k]
        if self.index and st and 'struct.std::pair' in st and len(inst.ops) >= 3 and inst.ops[2] in ('0', '1'):
            return ('first', 'second')[int(inst.ops[2])]
        return None

    def pts_of(self, info, v):
        if v is None:
            return set()
        if v.startswith('%'):
            return info.pts.get(v, set())
        if v.startswith('@'):
            return {('G' + v[1:].strip('"'), ())}
        if v.startswith('getelementptr'):
            m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)', v)
            if m:
                return {('G' + m.group(1).strip('"'), ())}
        return set()

    def inside(self, rs):
        return {ext(r, '[]') for r in rs if not (r[0].startswith('G') and False)}

    def inside_key(self, f, n, i, args, recv):
        if self.keys and n.cls in ('map', 'unordered_map') and n.base in ('operator[]', 'find', 'at') and len(args) > 1:
            k = (f.name, args[1])
            if k not in self._lit:
                from .iters import keyexpr
                self._lit[k] = keyexpr(self, f, args[1])
            e = self._lit[k]
            if e[0] == 'lit':
                return {ext(r, '[%s]' % e[1]) for r in recv}
        if self.index and n.cls == 'vector' and n.base in ('operator[]', 'at') and len(args) > 1 and re.match(r'-?\d+$', args[1]) and \
                re.match(r'std::vector<std::(vector|map)<', n.dem):
            return {ext(r, '[#%s]' % args[1]) for r in recv}
        return self.inside(recv)

    def cont_of(self, info, rs):
        out = set()
        for r in rs:
            c = info.contents.get(r[0])
            if c:
                out |= c
        return out

    def deref(self, info, rs):
        """regions obtained by loading a pointer from memory region rs"""
        out = set()
        for r in rs:
            c = info.contents.get(r[0])
            if c:
                out |= c
            if r[0][0] in 'PR' or r[0] == 'X':
                out.add(ext(r, '*') if r[0][0] in 'PR' else r)
        return out

    # map a callee-side region to caller-side regions at call
    def map_region(self, info, r, argmap, retslot, caller_inst):
        root, path = r
        if root == 'RET':
            base = self.pts_of(info, retslot) if retslot else set()
        elif root[0] == 'P':
            k = int(root[1:])
            base = self.pts_of(info, argmap[k]) if k < len(argmap) else set()
        elif root[0] == 'G' or root == 'X':
            return {r}
        else:
            return set()
        out = set(base)
        for x in path:
            nxt = set()
            for b in out:
                if x == '*':
                    nxt |= self.deref(info, {b}) or {b}
                else:
                    # drop the synthetic base-class step when already there
                    nxt.add(ext(b, x))
            out = nxt
        return out

    def call_args(self, inst):
        """(retslot, args) source-level ordering"""
        ret = None; args = []
        for a, at in zip(inst.args, inst.argattrs):
            if 'sret' in at:
                ret = a
            else:
                args.append(a)
        return ret, args

    def _analyze(self, name):
        f = self.M.functions[name]
        info = self.infos[name]
        # points-to, flow-insensitive
        for _ in range(12):
            if not self._pts_pass(f, info):
                break
        # events
        evs = []
        for i in f.insts():
            evs.extend(self.events_of(info, i))
        info.events = evs
        s = self.sum[name]
        old = (len(s.writes), len(s.reads), len(s.ret))
        for e in evs:
            if e.region[0][0] in 'L':
                continue
            if e.rw == 'W':
                s.writes.setdefault((e.region, e.kind), e)
            else:
                s.reads.add(e.region)
        for i in f.insts():
            if i.op == 'ret' and i.ops:
                s.ret |= {r for r in self.pts_of(info, i.ops[0])}
        return (len(s.writes), len(s.reads), len(s.ret)) != old

    def _pts_pass(self, f, info):
        ch = False
        pts = info.pts

        def add(v, rs):
            nonlocal ch
            if not rs:
                return
            cur = pts.setdefault(v, set())
            if not rs <= cur:
                cur |= rs
                ch = True

        def addc(root, rs):
            nonlocal ch
            if not rs:
                return
            cur = info.contents.setdefault(root, set())
            rs = {r for r in rs if r[0] != root}
            if not rs <= cur:
                cur |= rs
                ch = True
        for i in f.insts():
            op = i.op
            if op == 'alloca':
                add(i.res, {('L' + i.res, ())})
            elif op == 'getelementptr':
                base = self.pts_of(info, i.ops[0])
                fld = self._gep_field(f, i)
                if fld:
                    add(i.res, {ext(r, fld) for r in base})
                else:
                    add(i.res, base)
            elif op in ('bitcast', 'freeze', 'addrspacecast', 'inttoptr', 'ptrtoint', 'insertvalue', 'extractvalue'):
                rs = set()
                for o in i.ops:
                    rs |= self.pts_of(info, o)
                add(i.res, rs)
            elif op in ('phi',):
                for o in i.ops:
                    add(i.res, self.pts_of(info, o))
            elif op == 'select':
                for o in i.ops[1:]:
                    add(i.res, self.pts_of(info, o))
            elif op == 'load':
                if i.ty == 'ptr' or i.ty.startswith('{') or i.ty.startswith('%'):
                    add(i.res, self.deref(info, self.pts_of(info, i.ops[0])))
            elif op == 'store':
                rs = self.pts_of(info, i.ops[0])
                if rs and (i.ty == 'ptr' or i.ty.startswith('{')):
                    for r in self.pts_of(info, i.ops[1]):
                        addc(r[0], rs)
            elif op in ('call', 'invoke'):
                self._pts_call(f, info, i, add, addc)
        return ch

    def _pts_call(self, f, info, i, add, addc):
        c = i.callee
        if c.startswith('llvm.memcpy') or c.startswith('llvm.memmove'):
            src = self.pts_of(info, i.args[1])
            for r in self.pts_of(info, i.args[0]):
                addc(r[0], self.cont_of(info, src))
            return
        if c.startswith('llvm.') or c.startswith('__cxa') or c.startswith('__clang') or c.startswith('__gxx'):
            if c.startswith('llvm.threadlocal') and i.res:
                add(i.res, self.pts_of(info, i.args[0]))
            if c == '__cxa_allocate_exception' and i.res:
                add(i.res, {('X', ())})
            return
        g = self.M.resolve(c) if not c.startswith('%') else None
        ret, args = self.call_args(i)
        if g:
            s = self.sum[g.name]
            if i.res and (i.ty == 'ptr' or i.ty.startswith('{')):
                rs = set()
                for r in s.ret:
                    if r[0][0] == 'L':
                        continue
                    rs |= self.map_region(info, r, args, ret, i)
                add(i.res, rs)
            # constructors/functions storing reference args inside an object: closures handled by contents
            return
        n = self.M.name(c)
        klass, kind = stl.classify(n)
        isptr = i.res and (i.ty == 'ptr' or i.ty.startswith('{'))
        ptrargs = [(a, self.pts_of(info, a)) for a in args]
        if klass == 'cont':
            recv = ptrargs[0][1] if ptrargs else set()
            if isptr:
                if n.base in ('operator=', 'operator+=', 'append', 'assign', 'insert', 'erase', 'replace') and n.cls == 'basic_string':
                    add(i.res, recv)
                elif n.base == 'operator=':
                    add(i.res, recv)
                elif n.base in ('c_str', 'data') and n.cls == 'basic_string':
                    add(i.res, self.inside(recv))
                else:
                    add(i.res, self.inside_key(f, n, i, args, recv))
            if ret is not None and ('iterator' in n.dem.split('(')[0] or n.base in ('rbegin', 'rend', 'equal_range', 'insert', 'emplace')):
                for r in self.pts_of(info, ret):
                    addc(r[0], self.inside(recv))
            if kind == 'ctor' and n.cls in ('pair', 'tuple', 'optional') or (kind == 'ctor' and False):
                pass
        elif klass == 'iter':
            recv = ptrargs[0][1] if ptrargs else set()
            if kind == 'ctor' or kind == 'assign':
                src = set()
                for a, rs in ptrargs[1:]:
                    src |= self.cont_of(info, rs) | {r for r in rs if r[0][0] != 'L'} | {r for r in rs if '[]' in r[1]}
                for r in recv:
                    addc(r[0], src)
                if isptr:
                    add(i.res, recv)
            else:
                cs = self.cont_of(info, recv) | {r for r in recv if '[]' in r[1]}
                if isptr:
                    if n.base in ('operator++', 'operator--', 'operator+=', 'operator-=') and i.ty == 'ptr':
                        # prefix form returns iterator&, postfix returns the raw pointer; keep both
                        add(i.res, recv | cs)
                    else:
                        add(i.res, cs)
                if ret is not None:
                    for r in self.pts_of(info, ret):
                        addc(r[0], cs)
        elif klass == 'stream' or (klass == 'free' and kind == 'streamop'):
            if isptr and ptrargs:
                add(i.res, ptrargs[0][1])
        else:
            if isptr or ret is not None:
                rs = set()
                for a, x in ptrargs:
                    rs |= {r for r in x if r[0][0] != 'L' or '[]' in r[1]} | self.cont_of(info, x)
                    if n.base in ('move', 'forward', 'max', 'min', 'ref', 'as_const', 'addressof', 'begin', 'end', 'getline', 'get'):
                        rs |= x if n.base not in ('begin', 'end') else self.inside(x)
                if isptr:
                    add(i.res, rs)
                if ret is not None and 'iterator' in n.dem.split('(')[0]:
                    for r in self.pts_of(info, ret):
                        addc(r[0], rs)

    SZ = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'float': 4, 'double': 8, 'ptr': 8}

    def span(self, info, v, length):
        """regions of all members covered by a block copy of `length` bytes starting at member pointer v"""
        base = self.pts_of(info, v)
        d = info.fn.defs.get(v)
        try:
            n = int(length)
        except ValueError:
            return base
        if d is None or d.op != 'getelementptr' or len(d.ops) < 3:
            return base
        mod = info.fn.module
        names = mod.field_ix.get(d.extra)
        if not names:
            return base
        body = mod.structs[d.extra].strip()
        packed = body.startswith('<')
        from .ir import split_top
        elems = split_top(body.strip('<>').strip()[1:-1])
        k = int(d.ops[2])
        out = set(base)
        off = 0
        j = k
        parents = self.pts_of(info, d.ops[0])
        while j < len(elems) and off < n:
            sz = self.SZ.get(elems[j])
            if sz is None:
                m = re.match(r'\[(\d+) x i8\]$', elems[j])
                if m:
                    off += int(m.group(1)); j += 1; continue
                break
            if not packed and off % sz:
                off += sz - off % sz
            if off >= n:
                break
            if names[j]:
                out |= {ext(r, names[j]) for r in parents}
            off += sz
            j += 1
        return out

    # ------------------------------------------------------------------
    def events_of(self, info, i):
        f = info.fn
        out = []
        op = i.op
        if op == 'load':
            for r in self.pts_of(info, i.ops[0]):
                out.append(Ev(i, r, 'load', 'R'))
        elif op == 'store':
            for r in self.pts_of(info, i.ops[1]):
                out.append(Ev(i, r, 'store', 'W'))
        elif op in ('call', 'invoke'):
            out = self._call_events(info, i)
        return out

    def _call_events(self, info, i):
        c = i.callee
        out = []
        if c.startswith('%'):
            self.unknown_callees.setdefault('<indirect>', set()).add(info.fn.name)
            return out
        if c.startswith(('llvm.memcpy', 'llvm.memmove')):
            for r in self.span(info, i.args[0], i.args[2]):
                out.append(Ev(i, r, 'store', 'W'))
            for r in self.span(info, i.args[1], i.args[2]):
                out.append(Ev(i, r, 'load', 'R'))
            return out
        if c.startswith('llvm.memset'):
            for r in self.span(info, i.args[0], i.args[2]):
                out.append(Ev(i, r, 'store', 'W'))
            return out
        if c.startswith(('llvm.', '__cxa', '__clang', '__gxx')):
            return out
        g = self.M.resolve(c)
        ret, args = self.call_args(i)
        if g:
            s = self.sum[g.name]
            for (r, kind), ev in s.writes.items():
                for x in self.map_region(info, r, args, ret, i):
                    out.append(Ev(i, x, kind, 'W', via=(g.name, ev)))
            for r in s.reads:
                for x in self.map_region(info, r, args, ret, i):
                    out.append(Ev(i, x, 'load', 'R', via=(g.name, None)))
            return out
        n = self.M.name(c)
        klass, kind = stl.classify(n)
        P = [self.pts_of(info, a) for a in args]
        if ret is not None:
            for r in self.pts_of(info, ret):
                out.append(Ev(i, r, 'construct', 'W'))
        # closures handed to algorithms: effects of their body
        for a, rs in zip(args, P):
            pass
        if klass in ('cont', 'iter', 'stream') or (klass == 'other' and kind in ('ctor', 'dtor')):
            recv = P[0] if P else set()
            rest = P[1:]
            for rs in rest:
                for r in rs:
                    out.append(Ev(i, r, 'load', 'R'))
            if kind == 'insert' and (info.fn.name, i.block.name, i.idx) in self.suppressed:
                kind = 'access'
            mapped = {'insert': 'insert', 'clear': 'clear', 'assign': 'assign', 'mutate': 'mutate', 'ctor': 'construct', 'dtor': 'destroy'}.get(kind)
            for r in recv:
                if mapped:
                    out.append(Ev(i, r, mapped, 'W'))
                if kind not in ('clear', 'ctor', 'dtor', 'assign'):
                    out.append(Ev(i, r, 'load', 'R'))
            if kind == 'mutate' and n.base == 'swap' and klass == 'cont':
                for rs in rest:
                    for r in rs:
                        out.append(Ev(i, r, 'mutate', 'W'))
            if klass == 'stream' and kind == 'mutate' and n.base in ('operator>>', 'read', 'getline', 'get'):
                for rs in rest:
                    for r in rs:
                        out.append(Ev(i, r, 'store', 'W'))
            return out
        if kind == 'streamop':
            for r in (P[0] if P else ()):
                out.append(Ev(i, r, 'mutate', 'W'))
            for rs in P[1:]:
                for r in rs:
                    out.append(Ev(i, r, 'load', 'R'))
                    if n.base == 'operator>>':
                        out.append(Ev(i, r, 'store', 'W'))
            return out
        if kind == 'read':
            for rs in P:
                for r in rs | self.cont_of(info, rs):
                    out.append(Ev(i, r, 'load', 'R'))
            return out
        if kind == 'unknown':
            self.unknown_callees.setdefault(n.dem, set()).add(info.fn.name)
        # mutate / unknown free function
        for k, rs in enumerate(P):
            pty = n.params[k] if k < len(n.params) else ''
            ro = pty.endswith('const&') or pty.endswith('const*') or pty.endswith('const &')
            tgt = rs | self.cont_of(info, rs)
            for r in tgt:
                out.append(Ev(i, r, 'load', 'R'))
                if not ro:
                    out.append(Ev(i, r, 'mutate', 'W'))
        return out
