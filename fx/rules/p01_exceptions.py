"""Every failure of the library reaches Python as an exception."""
from ..core import Result

RAISES = ('RaiseStatNode', 'ReraiseStatNode')


def label(d):
    return '%s.%s' % (d['class'] or 'fisx', d['name'])


def walk(n, f):
    if isinstance(n, list):
        for x in n:
            walk(x, f)
    elif isinstance(n, dict):
        if 'n' in n:
            f(n)
        for k, v in n.items():
            if isinstance(v, (dict, list)) and k not in ('entry', 'ft'):
                walk(v, f)


def ends_raising(st):
    """every path through the statement raises"""
    if st is None:
        return False
    k = st['n']
    if k in RAISES:
        return True
    if k == 'StatListNode':
        return any(ends_raising(x) for x in st.get('stats', []))
    if k == 'IfStatNode':
        return st.get('else_clause') is not None and all(ends_raising(c.get('body')) for c in st['if_clauses']) and ends_raising(st['else_clause'])
    if k in ('TryFinallyStatNode', 'GILStatNode'):
        return ends_raising(st.get('body'))
    return False


def run(ctx):
    res = Result()
    W = ctx.W
    res.rule = ("the wrappers are type-checked by Cython's own front end and matched with the C++ functions of the library model; obligations: every declared library function "
                "that can throw (interprocedural may-throw analysis of the LLVM IR, bad_alloc excluded) is declared to translate C++ exceptions; every internal C function of the wrappers "
                "propagates Python exceptions; no handler and no finally clause around a library call ends without raising")
    res.notes = ["Cython translates every C++ exception of a function declared 'except +'", "an ImportError handler cannot catch a translated C++ exception"]
    for d in W.decls:
        if d['class'] == '' and d['name'] not in ('_fisxVersion', 'fisxVersion') and not any(k[0] == '' and k[1] == d['name'] for k in W.cpp):
            continue
        c = W.candidates(d['class'], d['name'], d['ft']) or W.samename(d['class'], d['name'])
        if not c:
            res.count('declared but not defined')
            continue
        res.count('declarations'); res.count('obligations')
        thr = [f for f in c if ctx.F.throws[f.name]]
        if not thr:
            res.count('never throw')
            continue
        res.count('may throw')
        if d['ft']['exc'] != '+':
            res.add('untranslated', label(d), ','.join(d['ft']['args'])[:120], 'python/cython/' + d['at'],
                    "%s may throw but is declared without 'except +': a failure ends the Python process instead of raising" % ctx.sig(thr[0])[:160])
        else:
            res.sample("%s: may throw, translated" % label(d))
    for f in sorted(ctx.M.functions.values(), key=lambda x: x.name):
        for i in ctx.F.ended_by(f):
            res.add('ends-process', ctx.short(f), 'noexcept', i.where(), "a failure of %s meets a noexcept boundary in the library: it ends the Python process" % ctx.M.name(i.callee).base)
    # internal C functions
    for cls, ms in list(W.classes.items()) + [('', W.functions)]:
        for m, fn in ms.items():
            res.count('wrapper functions')
            if fn['n'] == 'CFuncDefNode':
                res.count('obligations'); res.count('internal C functions')
                ft = fn.get('ft') or {}
                if not ft.get('ret', '').startswith(('py:', 'ext:')) and ft.get('exc') == 'False' and ft.get('excval') is None:
                    res.add('swallowing-function', '%s.%s' % (cls, m), 'noexcept', fn['at'], "exceptions raised inside the C function %s.%s are printed and forgotten" % (cls, m))

            def see(n, cls=cls, m=m):
                if n['n'] == 'TryExceptStatNode':
                    calls = []

                    def lib(x):
                        ft = x.get('ft') if x['n'] in ('AttributeNode', 'NewExprNode') else None
                        if ft and ft.get('exc') == '+':
                            calls.append(x)
                        if x['n'] == 'AttributeNode' and x.get('is_called') and x['obj'].get('name') == 'self':
                            calls.append(x)
                    walk(n.get('body'), lib)
                    for c in n.get('except_clauses') or []:
                        res.count('handlers'); res.count('obligations')
                        pats = c.get('pattern')
                        names = [p.get('name') for p in (pats if isinstance(pats, list) else [pats]) if isinstance(p, dict)]
                        if names and all(x in ('ImportError', 'ModuleNotFoundError') for x in names):
                            continue
                        if calls and not ends_raising(c.get('body')):
                            res.add('swallowed', '%s.%s' % (cls, m), ','.join(str(x) for x in names) or 'all', c.get('at'),
                                    "a failure of the library inside the try block is caught and not raised again")
                elif n['n'] == 'TryFinallyStatNode':
                    rets = []
                    walk(n.get('finally_clause'), lambda x: rets.append(x) if x['n'] in ('ReturnStatNode', 'BreakStatNode', 'ContinueStatNode') else None)
                    res.count('obligations')
                    if rets:
                        res.add('swallowed', '%s.%s' % (cls, m), 'finally', rets[0].get('at'), "leaving the finally clause forgets the failure")
            walk(fn.get('body'), see)
    res.need('declarations', 100)
    res.need('may throw', 60)
    res.need('wrapper functions', 120)
    return res
