"""Definite assignment of scalar locals (stack slots and promoted values), interprocedural through reference parameters."""
from .ir import AnalysisError

SCALAR = {'double', 'float', 'i1', 'i8', 'i16', 'i32', 'i64', 'x86_fp80'}
STATE_TESTS = {'fail', 'operator!', 'good', 'operator bool', 'bad', 'eof', 'operator void*'}


class DefAssign:
    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}
        self.active = set()

    def slots(self, f):
        out = {}
        for i in f.insts():
            if i.op == 'alloca':
                t = i.text.split('alloca ', 1)[1].split(',')[0].strip()
                if t in SCALAR:
                    out[i.res] = t
                elif t.startswith('[') and t.rstrip(']').split(' x ')[-1].strip() in SCALAR:
                    out[i.res] = t
        return out

    def param(self, g, k):
        """what callee g does with the object its k-th pointer argument refers to: (exposed read or None, must write, must write when true, ... false)"""
        key = (g.name, k)
        if key in self.memo:
            return self.memo[key]
        if key in self.active:
            return (None, False, False, False)
        self.active.add(key)
        gi = self.ctx.R.infos[g.name]
        p = next((v for v, ix in gi.pindex.items() if ix == 'P%d' % k), None)
        reads, rets = self.flow(g, {p: 'param'}) if p is not None else ([], [])
        must = bool(rets) and all(p in s for c, s in rets)
        t = [s for c, s in rets if c != 0]
        fl = [s for c, s in rets if c != 1]
        r = (reads[0][1] if reads else None, must, all(p in s for s in t), all(p in s for s in fl))
        self.active.discard(key)
        self.memo[key] = r
        return r

    def root(self, f, v, objs):
        """tracked object a pointer value designates"""
        n = 0
        while n < 20:
            n += 1
            if v in objs:
                return v
            d = f.defs.get(v)
            if d is None:
                return None
            if d.op in ('getelementptr', 'bitcast'):
                v = d.ops[0]
            else:
                return None
        return None

    def flow(self, f, objs):
        """-> ([(object, inst, text)] reads of objects not assigned on some path, [(constant or None, assigned set)] at returns)"""
        ctx = self.ctx
        cfg = ctx.F.cfg(f)
        uses = {}
        for i in f.insts():
            if i.op == 'alloca':
                continue
            for o in (i.ops or []) + (i.args or []):
                if isinstance(o, str) and o.startswith('%'):
                    r = self.root(f, o, objs)
                    if r is not None:
                        uses.setdefault(id(i), []).append((r, o))
        ins = {f.order[0]: (frozenset(), frozenset())}
        ends = {}
        work = [f.order[0]]
        reads = {}

        def step(i, A, Pn, report):
            A = set(A); Pn = set(Pn)
            us = uses.get(id(i), ())
            cond = None
            if i.op == 'load':
                for r, o in us:
                    if r not in A and report is not None:
                        report.append((r, i, 'read'))
            elif i.op == 'store':
                for r, o in us:
                    if o == i.ops[1] or self.root(f, i.ops[1], objs) == r:
                        A.add(r)
                        Pn.discard(r)
                    elif report is not None:
                        pass
            elif i.op in ('call', 'invoke'):
                c = i.callee
                if c and c.startswith('llvm.'):
                    if c.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                        for r, o in us:
                            if o == i.args[0]:
                                A.add(r)
                            elif r not in A and report is not None:
                                report.append((r, i, 'copied'))
                elif us:
                    ret, args = ctx.R.call_args(i)
                    g = ctx.M.resolve(c) if c else None
                    n = ctx.M.name(c) if c and not c.startswith('%') else None
                    if ret is not None:
                        for r, o in us:
                            if o == ret:
                                A.add(r)
                    for k, a in enumerate(args):
                        r = self.root(f, a, objs) if isinstance(a, str) else None
                        if r is None:
                            continue
                        if g is not None:
                            exp, must, mt, mf = self.param(g, k)
                            if exp is not None and r not in A and report is not None:
                                report.append((r, i, 'passed to %s, which reads it' % ctx.short(g)))
                            if must:
                                A.add(r)
                            elif mt or mf:
                                cond = (r, mt, mf)
                        elif n is not None and n.base == 'operator>>':
                            if r not in A:
                                Pn.add(r)
                        else:
                            pk = k - (1 if n and n.cls and 'basic_' not in n.base and len([p for p in n.params if p != 'void']) < len(args) else 0)
                            ps = [p for p in (n.params if n else []) if p != 'void']
                            p = ps[pk] if n and 0 <= pk < len(ps) else ''
                            if '&&' in p or 'const' in p or not p or not ('&' in p or '*' in p):
                                if r not in A and report is not None:
                                    report.append((r, i, 'passed to %s' % (n.dem[:70] if n else c)))
                            else:
                                A.add(r)
            return frozenset(A), frozenset(Pn), cond

        def success_edge(v, depth=0):
            """for a branch on v: (truth value that means the stream extraction succeeded) or None"""
            d = f.defs.get(v)
            if d is None or depth > 6:
                return None
            if d.op == 'xor':
                s = success_edge(d.ops[0], depth + 1)
                return None if s is None else not s
            if d.op in ('zext', 'trunc', 'freeze'):
                return success_edge(d.ops[0], depth + 1)
            if d.op == 'icmp' and d.ops[1] in ('0', 'false', 'null'):
                s = success_edge(d.ops[0], depth + 1)
                return None if s is None else (s if d.pred == 'ne' else not s)
            if d.op in ('call', 'invoke') and d.callee and not d.callee.startswith('%'):
                n = ctx.M.name(d.callee)
                if n.base in ('fail', 'operator!', 'bad') and ('ios' in n.cls or 'stream' in n.cls):
                    return False if n.base != 'bad' else None
                if n.base in ('good', 'operator bool') or n.base.startswith('operator bool') or n.base.startswith('operator void*'):
                    return True
            return None

        def cond_edge(v, depth=0):
            """branch on the result of a conditional writer: (call inst, polarity)"""
            d = f.defs.get(v)
            if d is None or depth > 6:
                return None
            if d.op == 'xor':
                s = cond_edge(d.ops[0], depth + 1)
                return s and (s[0], not s[1])
            if d.op in ('zext', 'trunc', 'freeze'):
                return cond_edge(d.ops[0], depth + 1)
            if d.op == 'icmp' and d.ops[1] in ('0', 'false'):
                s = cond_edge(d.ops[0], depth + 1)
                return s and (s[0], s[1] if d.pred == 'ne' else not s[1])
            if d.op in ('call', 'invoke'):
                return (d, True)
            return None
        conds = {}
        n = 0
        while work:
            work.sort(key=lambda b: cfg.rpoi.get(b, 1 << 30))
            b = work.pop(0)
            n += 1
            if n > 200000:
                raise AnalysisError('definite assignment does not converge in ' + f.name)
            A, Pn = ins[b]
            for i in f.blocks[b].insts:
                A, Pn, c = step(i, A, Pn, None)
                if c is not None:
                    conds[id(i)] = c
            ends[b] = (A, Pn)
            term = f.blocks[b].insts[-1]
            for s in cfg.succ[b]:
                A2, P2 = A, Pn
                if term.op == 'br' and len(term.labels) == 2 and term.labels[0] != term.labels[1]:
                    truth = s == term.labels[0]
                    if Pn:
                        ok = success_edge(term.ops[0])
                        if ok is not None and ok == truth:
                            A2 = A | Pn
                            P2 = frozenset()
                    ce = cond_edge(term.ops[0])
                    if ce is not None and id(ce[0]) in conds:
                        r, mt, mf = conds[id(ce[0])]
                        t = truth == ce[1]
                        if (t and mt) or (not t and mf):
                            A2 = A2 | {r}
                if s in ins:
                    new = (ins[s][0] & A2, ins[s][1] | P2)
                    if new == ins[s]:
                        continue
                else:
                    new = (A2, P2)
                ins[s] = new
                if s not in work:
                    work.append(s)
        rep = []
        rets = []
        for b in cfg.rpo:
            if b not in ins:
                continue
            A, Pn = ins[b]
            for i in f.blocks[b].insts:
                A, Pn, c = step(i, A, Pn, rep)
            term = f.blocks[b].insts[-1]
            if term.op == 'ret':
                v = term.ops[0] if term.ops else None
                d = f.defs.get(v) if v else None
                if d is not None and d.op == 'phi' and d.block.name == b:
                    for val, pb in d.incoming:
                        if pb in ends:
                            k = {'true': 1, 'false': 0, '1': 1, '0': 0}.get(val)
                            s = ends[pb][0] if len(f.blocks[b].insts) < 400 else A
                            rets.append((k, s))
                else:
                    rets.append(({'true': 1, 'false': 0}.get(v), A))
        return rep, rets

    def undef_values(self, f):
        """instructions that use a promoted local before any assignment on some path"""
        bad = set()
        ch = True
        phis = [i for i in f.insts() if i.op == 'phi']
        cfg = self.ctx.F.cfg(f)
        while ch:
            ch = False
            for i in phis:
                if i.res in bad or i.block.name not in cfg.reach:
                    continue
                for v, b in i.incoming:
                    if b in cfg.reach and (v in ('undef', 'poison') or v in bad):
                        # landing-pad selector phis are not locals
                        bad.add(i.res); ch = True
                        break
        out = []
        for i in f.insts():
            if i.block.name not in cfg.reach:
                continue
            if i.op == 'phi':
                continue
            for o in (i.ops or []) + (i.args or []):
                if o in bad or (o == 'undef' and i.op not in ('insertvalue',)):
                    out.append((o, i))
        return out
