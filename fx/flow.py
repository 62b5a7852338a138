"""Control-flow facts: dominators, loops, explicit-throw analysis, feasible edges."""
from .ir import AnalysisError

# std members/functions that throw by contract on bad input (allocation failure is not modelled)
STD_THROWING = {'at', 'stod', 'stof', 'stoi', 'stol', 'stoul', 'stold'}
STD_THROW_FNS = ('_ZSt17__throw_', '_ZSt20__throw_', '_ZSt19__throw_', '_ZSt24__throw_', '_ZSt16__throw_')


class Cfg:
    """CFG of one function restricted to feasible exceptional edges."""

    def __init__(self, fn, flow):
        self.fn = fn
        self.succ = {}
        self.exits = {}      # block -> 'ret' | 'throw' | 'abort'
        for b in fn.order:
            blk = fn.blocks[b]
            term = blk.insts[-1]
            if term.op == 'invoke':
                s = []
                if not flow.noreturn(term):
                    s.append(term.normal)
                if flow.call_throws(term):
                    s.append(term.unwind)
                self.succ[b] = s
            else:
                self.succ[b] = list(dict.fromkeys(term.labels))
            if term.op == 'ret':
                self.exits[b] = 'ret'
            elif term.op == 'resume':
                self.exits[b] = 'throw'
            elif term.op == 'unreachable':
                k = 'abort'
                for i in blk.insts:
                    if i.callee in ('__cxa_throw', '__cxa_rethrow') or (i.callee or '').startswith('_ZSt') and '__throw_' in i.callee:
                        k = 'throw'
                self.exits[b] = k
        self.reach = self._reach([fn.order[0]])
        self.pred = {b: [] for b in fn.order}
        for b in self.reach:
            for s in self.succ[b]:
                self.pred[s].append(b)
        self._rpo()
        self._dom = None
        self._loops = None

    def _reach(self, starts, succ=None):
        succ = succ or self.succ
        seen = set(starts); st = list(starts)
        while st:
            b = st.pop()
            for s in succ[b]:
                if s not in seen:
                    seen.add(s); st.append(s)
        return seen

    def _rpo(self):
        seen, post = set(), []
        e = self.fn.order[0]
        st = [(e, iter(self.succ[e]))]; seen.add(e)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s]))); break
            else:
                post.append(b); st.pop()
        self.rpo = post[::-1]
        self.rpoi = {b: k for k, b in enumerate(self.rpo)}

    @property
    def idom(self):
        if self._dom is None:
            idom = {self.rpo[0]: self.rpo[0]}
            ch = True
            while ch:
                ch = False
                for b in self.rpo[1:]:
                    new = None
                    for p in self.pred[b]:
                        if p in idom:
                            new = p if new is None else self._inter(idom, p, new)
                    if idom.get(b) != new:
                        idom[b] = new; ch = True
            self._dom = idom
        return self._dom

    def _inter(self, idom, a, b):
        while a != b:
            while self.rpoi[a] > self.rpoi[b]:
                a = idom[a]
            while self.rpoi[b] > self.rpoi[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        if b not in self.rpoi or a not in self.rpoi:
            return False
        while True:
            if a == b:
                return True
            n = self.idom[b]
            if n == b:
                return False
            b = n

    def idominates(self, i, j):
        """instruction i dominates instruction j"""
        if i.block is j.block:
            return i.idx < j.idx
        return self.dominates(i.block.name, j.block.name)

    @property
    def loops(self):
        """header -> set of blocks (natural loops)"""
        if self._loops is None:
            L = {}
            for b in self.rpo:
                for s in self.succ[b]:
                    if self.dominates(s, b):
                        body = L.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x); st.extend(self.pred[x])
            self._loops = L
        return self._loops

    def edge_facts(self, block):
        """[(condition ssa, truth)] implied at entry of block by dominating single-pred branch edges"""
        out = []
        b = block
        seen = set()
        while b not in seen:
            seen.add(b)
            d = self.idom.get(b)
            if d is None or d == b:
                break
            term = self.fn.blocks[d].insts[-1]
            if term.op == 'br' and len(term.labels) == 2 and term.labels[0] != term.labels[1]:
                t, f = term.labels
                if self._edge_dom(d, t, block):
                    out.append((term.ops[0], True, term))
                elif self._edge_dom(d, f, block):
                    out.append((term.ops[0], False, term))
            b = d
        return out

    def _edge_dom(self, d, s, block):
        """edge d->s dominates block"""
        if not self.dominates(s, block):
            return False
        # s must be entered only through d (or from blocks s dominates)
        for p in self.pred[s]:
            if p != d and not self.dominates(s, p):
                return False
        return True


class Flow:
    def __init__(self, M):
        self.M = M
        self._cfg = {}
        self.throws = {}
        self._nr = {}
        # throw fixpoint (start: nothing throws)
        fns = list(M.functions.values())
        self.throws = {f.name: False for f in fns}
        ch = True
        while ch:
            ch = False
            for f in fns:
                if self.throws[f.name]:
                    continue
                if self._throws(f):
                    self.throws[f.name] = True
                    ch = True
        self._cfg = {}

    def cfg(self, fn):
        c = self._cfg.get(fn.name)
        if c is None:
            c = self._cfg[fn.name] = Cfg(fn, self)
        return c

    def noreturn(self, inst):
        c = inst.callee
        return c in ('__cxa_throw', '__cxa_rethrow', '_ZSt9terminatev', 'abort', 'exit') or (c.startswith('_ZSt') and '__throw_' in c)

    def call_throws(self, inst):
        c = inst.callee
        if c is None or c.startswith('%'):
            return False
        if c in ('__cxa_throw', '__cxa_rethrow'):
            return True
        if c.startswith('llvm.') or c.startswith('__'):
            return False
        g = self.M.resolve(c)
        if g:
            return self.throws[g.name]
        if c.startswith('_ZSt') and '__throw_' in c:
            return True
        n = self.M.name(c)
        return n.base in STD_THROWING and (n.cls in ('vector', 'map', 'basic_string', 'deque', 'unordered_map', 'array') or n.scope in ('std', 'std::__cxx11'))

    def ended_by(self, f):
        """calls that can fail inside a function that must not let a failure out (noexcept, destructors): the process ends"""
        out = []
        for i in f.insts():
            if i.op != 'invoke' or i.callee == '__cxa_end_catch' or not self.call_throws(i):
                continue
            st, seen = [i.unwind], set()
            while st:
                b = st.pop()
                if b in seen:
                    continue
                seen.add(b)
                blk = f.blocks[b]
                for x in blk.insts:
                    if x.op in ('call', 'invoke') and x.callee == '__clang_call_terminate':
                        out.append(i)
                        st = []
                        break
                    if x.op in ('call', 'invoke') and x.callee == '__cxa_begin_catch':
                        break
                else:
                    last = blk.insts[-1]
                    st += [s for s in f.blocks[b].succs if last.op != 'invoke' or s != last.unwind]
        return out

    def _throws(self, f):
        self._cfg.pop(f.name, None)
        cfg = Cfg(f, self)
        for b in cfg.reach:
            k = cfg.exits.get(b)
            if k == 'throw':
                return True
            for i in f.blocks[b].insts:
                if i.op == 'call' and self.call_throws(i) and not self.noreturn(i):
                    return True
        return False
