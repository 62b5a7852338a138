"""Failures reach the caller as standard exceptions."""
import re
from ..core import Result
from .. import textnum
from ..defassign import STATE_TESTS

EXIT = {'exit', '_exit', '_Exit', 'quick_exit', 'abort', 'raise', 'kill', 'longjmp', 'siglongjmp', '__assert_fail', '_ZSt9terminatev', '_ZSt10unexpectedv', 'llvm.trap', 'llvm.ubsantrap',
        'pthread_exit', 'signal', 'sigaction', '_ZSt13set_terminatePFvvE'}
STDEXC = re.compile(r'^_ZTI(N?)St(9exception|11logic_error|13runtime_error|16invalid_argument|12domain_error|12length_error|12out_of_range|11range_error|14overflow_error|15underflow_error|'
                    r'12system_error|9bad_alloc|8bad_cast|10bad_typeid|17bad_function_call|20bad_array_new_length|8ios_base7failure(B5cxx11)?E|19bad_optional_access|18bad_variant_access|'
                    r'11regex_error|10filesystem.*16filesystem_error.*)$')
SWALLOW = re.compile(r'_ZTISt(9exception|11logic_error|13runtime_error|16invalid_argument|12domain_error|12length_error)|_ZTINSt8ios_base7failure|_ZTINSt8ios_base7failureB5cxx11E|_ZTI(N?)4fisx|_ZTISt12system_error')
OPENERS = ('basic_ifstream', 'basic_fstream', 'basic_ofstream', 'basic_filebuf')
OKWHEN = {'good': True, 'is_open': True, 'operator bool': True, 'fail': False, 'operator!': False}


def derives_std(ctx, ti):
    m = re.match(r'_ZTI(?:N4fisx(\d+)(\w+)E|N4fisx\d+\w+E)', ti)
    if not m:
        return False
    for nm, ci in ctx.M.classes.items():
        if ti == '_ZTIN4fisx%d%sE' % (len(nm.split('::')[-1]), nm.split('::')[-1]):
            for fl in ci.fields:
                if fl[0].startswith('<base>'):
                    b = fl[0][6:]
                    if b.endswith(('exception', '_error', 'invalid_argument', 'out_of_range', 'failure', 'bad_alloc')) or b in ctx.M.classes:
                        return True
    return False


class Streams:
    """typestate of file streams: opened -> examined (failure throws) -> used"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}

    def roots(self, f, v):
        return {r[0] for r in self.ctx.R.pts_of(self.ctx.R.infos[f.name], v)} if v.startswith('%') else set()

    def tests(self, f, root):
        """values that tell the state of stream `root`: {ssa: truth that means usable}"""
        out = {}
        for i in f.insts():
            if i.op in ('call', 'invoke') and i.callee and i.args and i.res:
                n = self.ctx.M.name(i.callee)
                if n.base in OKWHEN and ('stream' in n.cls or 'ios' in n.cls) and root in self.roots(f, i.args[0]):
                    out[i.res] = OKWHEN[n.base]
        return out

    def usable_at(self, f, root, inst):
        """a dominating test shows the stream usable when inst executes"""
        t = self.tests(f, root)
        for v, truth in facts(self.ctx, f, inst.block.name):
            if v in t and t[v] == truth:
                return True
        # a call that only returns for usable streams
        cfg = self.ctx.F.cfg(f)
        for i in f.insts():
            if i.op in ('call', 'invoke') and i.callee and i is not inst:
                g = self.ctx.M.resolve(i.callee)
                if g is None:
                    continue
                _, args = self.ctx.R.call_args(i)
                for k, a in enumerate(args):
                    if root in self.roots(f, a) and self.summary(g, k)[1]:
                        if cfg.idominates(i, inst):
                            return True
                        # the callee's verdict
        return False

    def uses(self, f, root):
        """instructions that read from or position the stream"""
        out = []
        for i in f.insts():
            if i.op not in ('call', 'invoke') or not i.callee or not i.args:
                continue
            g = self.ctx.M.resolve(i.callee)
            if g is not None:
                _, args = self.ctx.R.call_args(i)
                for k, a in enumerate(args):
                    if root in self.roots(f, a) and self.summary(g, k)[0]:
                        out.append(i)
                continue
            n = self.ctx.M.name(i.callee)
            if n.base in ('getline', 'seekg', 'read', 'operator>>', 'get', 'ignore', 'peek', 'readsome', 'write', 'operator<<', 'put') and root in self.roots(f, i.args[0]):
                out.append(i)
        return out

    def summary(self, g, k):
        """(uses its k-th argument unexamined, returns only if it is usable)"""
        key = (g.name, k)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = (False, False)
        root = 'P%d' % k
        if not any('stream' in (p or '') for p in self.ctx.name(g).params):
            return (False, False)
        use = any(not self.usable_at(g, root, i) for i in self.uses(g, root))
        rets = [i for i in g.insts() if i.op == 'ret']
        only = bool(rets) and bool(self.tests(g, root)) and all(self.usable_at(g, root, i) for i in rets)
        self.memo[key] = (use, only)
        return self.memo[key]


def facts(ctx, f, block):
    for x in ctx.F.cfg(f).edge_facts(block):
        v, t = x[0], x[1]
        while True:
            yield v, t
            d = f.defs.get(v)
            if d is not None and d.op in ('trunc', 'zext'):
                v = d.ops[0]
            elif d is not None and d.op == 'icmp' and d.ops[1] in ('0', 'false') and (' eq ' in d.text or ' ne ' in d.text):
                v, t = d.ops[0], t == (' ne ' in d.text)
            elif d is not None and d.op == 'xor' and d.ops[1] in ('true', '1'):
                v, t = d.ops[0], not t
            else:
                break


def run(ctx):
    res = Result()
    res.rule = ("(1) every throw site: the thrown type derives from std::exception; (2) no call that ends the process, no failure that meets a noexcept boundary; (3) from every handler that can catch a failure of the library or all exceptions, "
                "each path to a normal return passes a throw; (4) typestate of file streams: opened, examined with the failing branch leaving by a throw, then read - also across functions that receive the "
                "stream; (5) the result of every conversion from text is examined (stream state tested, status result used)")
    S = Streams(ctx)
    for f in sorted(ctx.M.functions.values(), key=lambda x: x.name):
        sh = ctx.short(f)
        res.count('functions')
        catches = []
        types = set()
        for i in f.insts():
            if i.op == 'landingpad':
                types |= set(re.findall(r'catch ptr (@[\w.]+|null)', i.text))
            if i.op not in ('call', 'invoke') or not i.callee:
                continue
            if i.callee == '__cxa_throw':
                res.count('throw sites'); res.count('obligations')
                ti = i.args[1].lstrip('@')
                if not (STDEXC.match(ti) or derives_std(ctx, ti)):
                    res.add('not-standard', sh, ti, i.where(), "throws %s, which is not derived from std::exception" % ti)
            elif i.callee in EXIT:
                res.add('ends-process', sh, i.callee, i.where(), "calls %s(): a failure ends the whole process" % i.callee)
            elif i.callee == '__cxa_begin_catch' and '__clang_call_terminate' not in f.name:
                catches.append(i)
        for i in ctx.F.ended_by(f):
            res.add('ends-process', sh, 'noexcept', i.where(), "a failure of %s may not leave this function (noexcept or a destructor): it ends the whole process" % (ctx.M.name(i.callee).base if i.callee else '?'))
        broad = [t for t in types if t == 'null' or SWALLOW.search(t)]
        for i in catches:
            res.count('handlers'); res.count('obligations')
            if broad and reaches_return(ctx, f, i):
                res.add('swallowed', sh, 'catch ' + ','.join(sorted(broad)), i.where(), "a caught failure is dropped: the function returns normally")
        # files
        for i in f.insts():
            if i.op in ('call', 'invoke') and i.callee and i.args and ctx.M.resolve(i.callee) is None:
                n = ctx.M.name(i.callee)
                if (n.cls in OPENERS and (n.base == n.cls and len(n.params) > 0 or n.base == 'open')):
                    res.count('opened files')
                    for root in S.roots(f, i.args[0]):
                        us = S.uses(f, root)
                        res.count('obligations', len(us))
                        for u in us:
                            res.count('file operations')
                            if not S.usable_at(f, root, u):
                                res.add('unchecked-file', sh, ctx.M.name(u.callee).base, u.where(),
                                        "the file is used although it may not have been opened: a missing file is treated as an empty one", [i.where(), u.where()])
                        # the failing branch must throw
                        for d, v in failing(ctx, f, S, root):
                            res.count('obligations')
                            if d is not None:
                                res.add('silent-failure', sh, 'open', d, "the function returns normally when the file cannot be opened")
                if n.base == n.cls and n.cls == 'basic_ifstream' and len(n.params) == 0:
                    pass
        # conversions
        for i, way, t in textnum.stream_ops(ctx, f):
            if way != 'in':
                continue
            res.count('conversions'); res.count('obligations')
            if not examined(ctx, f, S, i):
                res.add('unexamined-conversion', sh, t, i.where(), "a value is read from text without examining whether there was one")
        for i in f.insts():
            if i.op in ('call', 'invoke') and i.callee:
                g = ctx.M.resolve(i.callee)
                if g is not None and status(ctx, g):
                    res.count('status results'); res.count('obligations')
                    if not used(f, i.res):
                        res.add('ignored-status', sh, ctx.short(g), i.where(), "the status returned by %s is ignored" % ctx.short(g))
    res.notes = ["errors while reading an opened file (media failure) and allocation failures are not modelled"]
    res.need('throw sites', 120)
    res.need('opened files', 3)
    res.need('file operations', 5)
    return res


def reaches_return(ctx, f, i):
    cfg = ctx.F.cfg(f)
    st = [(i.block.name, i.block.insts.index(i) + 1)]
    seen = set()
    while st:
        b, k = st.pop()
        blk = f.blocks[b]
        stop = False
        for j in blk.insts[k:]:
            if j.op in ('call', 'invoke') and j.callee in ('__cxa_rethrow', '__cxa_throw'):
                stop = True
                break
            if j.op == 'ret':
                return True
        if stop:
            continue
        t = blk.insts[-1]
        nxt = [t.normal] if t.op == 'invoke' else list(t.labels or [])
        if t.op not in ('br', 'switch', 'invoke'):
            continue
        for s in nxt:
            if s not in seen and s in f.blocks:
                seen.add(s)
                st.append((s, 0))
    return False


def failing(ctx, f, S, root):
    """tests of the stream before its first use whose failing branch can return normally"""
    t = S.tests(f, root)
    cfg = ctx.F.cfg(f)
    us = S.uses(f, root)
    for b in f.blocks.values():
        term = b.insts[-1]
        if term.op != 'br' or len(term.labels) != 2 or b.name not in cfg.reach:
            continue
        v, pol = term.ops[0], True
        while v not in t:
            d = f.defs.get(v)
            if d is not None and d.op == 'xor':
                v, pol = d.ops[0], not pol
            elif d is not None and d.op in ('trunc', 'zext'):
                v = d.ops[0]
            else:
                break
        if v not in t:
            continue
        good, bad = (term.labels[0], term.labels[1]) if t[v] == pol else (term.labels[1], term.labels[0])
        td = f.defs[v]
        # state tests after reads (end of file) are not about opening
        if any(cfg.idominates(u, td) for u in us):
            continue
        if any(S.usable_at(f, root, td) for _ in (0,)):
            continue
        if any(u.block.name == b.name or reaches(f, u.block.name, b.name) for u in us):
            continue
        yield (term.where() if block_returns(f, bad, good) else None), v


def reaches(f, a, b):
    st, seen = [a], set()
    while st:
        x = st.pop()
        for s in f.blocks[x].insts[-1].labels or []:
            if s == b:
                return True
            if s not in seen and s in f.blocks:
                seen.add(s); st.append(s)
    return False


def block_returns(f, b, avoid):
    st, seen = [b], {b}
    while st:
        x = st.pop()
        for j in f.blocks[x].insts:
            if j.op == 'ret':
                return True
            if j.op in ('call', 'invoke') and j.callee == '__cxa_throw':
                break
        else:
            t = f.blocks[x].insts[-1]
            for s in ([t.normal] if t.op == 'invoke' else (t.labels or [])):
                if s in f.blocks and s not in seen:
                    seen.add(s); st.append(s)
    return False


def status(ctx, g):
    """static or const member that converts text and reports success"""
    return (g.rettype or '').split()[-1:] == ['i1'] and any('&' in p and 'const' not in p for p in ctx.name(g).params)


def used(f, v, seen=None):
    if not v:
        return False
    for i in f.insts():
        if v in (i.ops or []) or v in (i.args or []):
            return True
        if i.op == 'phi' and any(x == v for x, _ in i.incoming):
            return True
    return False


def examined(ctx, f, S, op):
    rs = S.roots(f, op.args[0])
    cfg = ctx.F.cfg(f)
    # the expression's own result tested, or a later state test of the same stream that op dominates
    for i in f.insts():
        if i.op in ('call', 'invoke') and i.callee and i.args and i.res:
            n = ctx.M.name(i.callee)
            if n.base in STATE_TESTS and rs & S.roots(f, i.args[0]) and cfg.idominates(op, i) and used(f, i.res):
                return True
            if op.res and n.base in STATE_TESTS and derived(f, i.args[0], op.res) and used(f, i.res):
                return True
    return False


def derived(f, v, src):
    n = 0
    while v != src and n < 8:
        n += 1
        d = f.defs.get(v)
        if d is None or d.op not in ('getelementptr', 'bitcast'):
            return False
        v = d.ops[0]
    return v == src
