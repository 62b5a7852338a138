"""May-influence analysis: which inputs (parameters, members) can influence which outputs (result, written members).

Labels are input regions ('P1', path) seen from the function's entry plus, when asked for, ('rd', region) for every memory cell
read on the way.  Flow-insensitive on memory, SSA on registers, data and control dependence (branches one side of which only
throws do not count as influence).  Over-approximates influence: "X never influences Y" is definite.
"""
from . import stl, iters
from .regions import ext
from .esp import const_of


def overlap(a, b):
    """regions may share storage (one contains the other, or equal up to container keys)"""
    if a[0] != b[0]:
        return False
    for x, y in zip(a[1], b[1]):
        if x == y:
            continue
        if x.startswith('[') and y.startswith('['):
            if x == '[]' or y == '[]':
                continue
            return False
        return False
    return True


class VFlow:
    def __init__(self, ctx, regions=None, cells=False, control=True, cut=()):
        self.ctx = ctx
        self.M = ctx.M
        self.R = regions or ctx.R
        self.cells = cells
        self.control = control
        self.only = None
        self.cut = set(cut)     # functions whose answer does not count (cache validity tests)
        self.ids = {}
        self.labels = []
        self.sum = {}      # fn -> {output: mask}; output = ('ret',) or region
        self.fn = {}       # fn -> (val, cont)
        self.events = {}
        fns = list(self.M.functions.values())
        for f in fns:
            self.sum[f.name] = {}
        order = self.R._postorder(fns)
        pend = set(order)
        rounds = 0
        while pend and rounds < 15:
            rounds += 1
            todo = [n for n in order if n in pend]
            pend = set()
            for n in todo:
                new = self._fn(self.M.functions[n])
                if new != self.sum[n]:
                    self.sum[n] = new
                    pend |= self.R.callers.get(n, set())

    def restricted(self, f, blocks):
        """outputs of f along the paths that stay inside the given blocks"""
        keep = self.fn.get(f.name)
        self.only = set(blocks)
        try:
            return self._fn(f)
        finally:
            self.only = None
            self.fn[f.name] = keep

    # ---- labels
    def lid(self, lab):
        k = self.ids.get(lab)
        if k is None:
            k = self.ids[lab] = len(self.labels)
            self.labels.append(lab)
        return k

    def names(self, mask):
        out = []
        k = 0
        while mask:
            if mask & 1:
                out.append(self.labels[k])
            mask >>= 1
            k += 1
        return out

    # ---- control dependence on the part of the CFG that can return
    def ctrl(self, f):
        cfg = self.ctx.F.cfg(f)
        rets = [b for b, k in cfg.exits.items() if k == 'ret' and b in cfg.reach]
        only = self.only
        if only is not None:
            rets = [b for b in rets if b in only]
        live = set(rets)
        st = list(rets)
        while st:
            b = st.pop()
            for p in cfg.pred[b]:
                if p not in live and (only is None or p in only):
                    live.add(p); st.append(p)
        # postdominators (exit node = None)
        order = [b for b in cfg.rpo if b in live][::-1]
        succ = {b: [s for s in cfg.succ[b] if s in live] for b in order}
        pdom = {}
        pos = {b: k for k, b in enumerate(order)}
        EX = '$exit'
        pos[EX] = -1
        ip = {EX: EX}
        ch = True
        while ch:
            ch = False
            for b in order:
                ss = succ[b] or [EX]
                if f.blocks[b].insts[-1].op == 'ret':
                    ss = [EX]
                new = None
                for s in ss:
                    if s in ip:
                        if new is None:
                            new = s
                        else:
                            x, y = s, new
                            while x != y:
                                while pos[x] > pos[y]:
                                    x = ip[x]
                                while pos[y] > pos[x]:
                                    y = ip[y]
                            new = x
                if new is not None and ip.get(b) != new:
                    ip[b] = new; ch = True
        dep = {b: set() for b in order}
        for a in order:
            if len(succ[a]) > 1:
                for s in succ[a]:
                    x = s
                    while x != ip.get(a) and x != EX:
                        dep[x].add(a)
                        x = ip.get(x, EX)
        # transitive
        return dep, live

    @staticmethod
    def carry(src, dst, byroot, cont, write):
        """a whole object copied: what its parts were made of goes to the same parts of the copy"""
        k = len(src[1])
        for q in list(byroot.get(src[0], ())):
            if len(q[1]) > k and q[1][:k] == src[1]:
                r = dst
                for x in q[1][k:]:
                    r = ext(r, x)
                if r != q:
                    write({r}, cont[q])

    # ---- one function
    def _fn(self, f):
        R = self.R
        info = R.infos[f.name]
        val = {}
        cont = {}
        dep, live = self.ctrl(f) if self.control or self.only is not None else ({}, None)
        if live is not None and not live:
            self.fn[f.name] = (val, cont, {})
            return {}
        for p in f.params:
            ix = info.pindex[p]
            if ix != 'RET' and p not in info.pts:
                val[p] = 1 << self.lid((ix, ()))
            elif ix != 'RET':
                val[p] = 0
        insts = [i for i in f.insts() if live is None or i.block.name in live]
        byroot = {}

        def read(rs):
            m = 0
            for r in rs:
                if r[0][0] in 'PG' or r[0] == 'X':
                    m |= 1 << self.lid(r)
                if self.cells:
                    m |= 1 << self.lid(('rd', r))
                for q in byroot.get(r[0], ()):
                    if overlap(q, r):
                        m |= cont[q]
            return m

        def write(rs, m):
            nonlocal ch
            for r in rs:
                old = cont.get(r)
                if old is None:
                    cont[r] = m
                    byroot.setdefault(r[0], []).append(r)
                    ch = True
                elif old | m != old:
                    cont[r] = old | m
                    ch = True

        def v(o):
            return val.get(o, 0) if isinstance(o, str) and o.startswith('%') else 0
        evs = {}
        for i in insts:
            if i.op in ('call', 'invoke'):
                evs[id(i)] = R._call_events(info, i)
        ctl = {}
        rounds = 0
        ch = True
        while ch and rounds < 40:
            rounds += 1
            ch = False
            # control masks
            if self.control:
                for b in dep:
                    m = 0
                    for a in dep[b]:
                        t = f.blocks[a].insts[-1]
                        if t.ops:
                            m |= v(t.ops[0])
                        m |= ctl.get(a, 0)
                    if ctl.get(b, 0) | m != ctl.get(b, 0):
                        ctl[b] = ctl.get(b, 0) | m; ch = True
            for i in insts:
                c = ctl.get(i.block.name, 0)
                m = None
                op = i.op
                if op == 'load':
                    m = read(R.pts_of(info, i.ops[0])) | v(i.ops[0])
                elif op == 'store':
                    write(R.pts_of(info, i.ops[1]), v(i.ops[0]) | c | v(i.ops[1]))
                elif op == 'phi':
                    m = 0
                    for o, b in i.incoming:
                        if live is not None and b not in live:
                            continue
                        m |= v(o) | ctl.get(b, 0)
                        if live is not None and b in live:
                            t = f.blocks[b].insts[-1]
                            if len([s for s in t.labels if s in live]) > 1 and t.ops:
                                m |= v(t.ops[0])
                elif op in ('call', 'invoke'):
                    m = self._call(f, info, i, evs[id(i)], v, read, write, c, byroot, cont)
                elif i.res:
                    m = 0
                    for o in i.ops:
                        m |= v(o)
                if m is not None and i.res and val.get(i.res, 0) | m != val.get(i.res, 0):
                    val[i.res] = val.get(i.res, 0) | m
                    ch = True
        out = {}
        for i in insts:
            if i.op == 'ret' and i.ops:
                rs = R.pts_of(info, i.ops[0])
                out[('ret',)] = out.get(('ret',), 0) | v(i.ops[0]) | ctl.get(i.block.name, 0) | read(rs)
        for r, m in cont.items():
            if r[0][0] in 'PG' or r[0] in ('RET', 'X'):
                out[r] = out.get(r, 0) | m
        self.fn[f.name] = (val, cont, ctl)
        return out

    def argmask(self, f, info, a, v, read):
        m = v(a)
        rs = self.R.pts_of(info, a)
        if rs:
            m |= read(rs)
            m |= read(self.R.cont_of(info, rs))
        return m

    def _call(self, f, info, i, evs, v, read, write, c, byroot, cont):
        R = self.R
        cal = i.callee
        if cal.startswith('llvm.dbg'):
            return 0
        ret, args = R.call_args(i)
        g = self.M.resolve(cal) if not cal.startswith('%') else None
        if g is not None and g.name in self.cut:
            return 0
        if g is not None:
            s = self.sum[g.name]
            cache = {}

            def tr(mask):
                if mask in cache:
                    return cache[mask]
                m = 0
                for lab in self.names(mask):
                    if lab[0] == 'rd':
                        if self.cells and lab[1][0][0] in 'PG':
                            for x in R.map_region(info, lab[1], args, ret, i):
                                m |= 1 << self.lid(('rd', x))
                        continue
                    root, path = lab
                    if root[0] == 'P':
                        k = int(root[1:])
                        if k < len(args):
                            m |= v(args[k])
                            if R.pts_of(info, args[k]):
                                m |= read(R.map_region(info, lab, args, ret, i))
                    else:
                        m |= read({lab})
                cache[mask] = m
                return m
            out = 0
            for o, mask in s.items():
                if o == ('ret',):
                    out |= tr(mask)
                else:
                    am = 0
                    if o[0][0] == 'P' and int(o[0][1:]) < len(args):
                        am = v(args[int(o[0][1:])])
                    write(R.map_region(info, o, args, ret, i), tr(mask) | c | am)
            return out
        if cal.startswith(('llvm.memcpy', 'llvm.memmove')):
            m = v(i.args[1]) | c
            for e in evs:
                if e.rw == 'R':
                    m |= read({e.region})
            for e in evs:
                if e.rw == 'W':
                    write({e.region}, m)
                    for x in evs:
                        if x.rw == 'R':
                            self.carry(x.region, e.region, byroot, cont, write)
            return 0
        m = 0
        n = self.M.name(cal) if not cal.startswith(('%', 'llvm.')) else None
        kl = stl.classify(n) if n is not None else ('', '')
        if kl[1] == 'dtor':
            return 0
        ctor = kl[1] in ('ctor', 'assign', 'clear')
        member = kl[0] in ('cont', 'iter', 'stream')
        mw = 0      # what the receiver is changed with: its own contents are already there
        for k, a in enumerate(args):
            if k == 0 and (ctor or member):
                m |= v(a)
                mw |= v(a)
                if not ctor:
                    m |= self.argmask(f, info, a, v, read)
                continue
            x = self.argmask(f, info, a, v, read)
            m |= x
            mw |= x
        isacc = n is not None and stl.classify(n) in (('cont', 'insert'), ('cont', 'access')) and i.ty == 'ptr'
        if isacc:
            # address computation: depends on the key, not on the contents
            km = 0
            for a in args[1:]:
                km |= self.argmask(f, info, a, v, read)
            return km | v(args[0])
        ws = {e.region for e in evs if e.rw == 'W'}
        recv = R.pts_of(info, args[0]) if args and member else set()
        write(ws & recv, mw | c)
        if kl[0] == 'cont' and n is not None and (kl[1] in ('ctor', 'assign') or n.base in ('swap', 'push_back', 'insert', 'push_front')):
            inner = '[]' if n.base in ('push_back', 'push_front') else None
            for a in args[1:]:
                for s in R.pts_of(info, a):
                    for d in recv:
                        self.carry(s, ext(d, inner) if inner else d, byroot, cont, write)
                        if n.base == 'swap':
                            self.carry(d, s, byroot, cont, write)
        write(ws - recv, m | c)
        if ret is not None:
            write(R.pts_of(info, ret), m | c)
            write(R.cont_of(info, R.pts_of(info, ret)), 0)
        return m
