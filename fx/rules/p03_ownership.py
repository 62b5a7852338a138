"""Python objects own exactly one live library object; None is refused."""
from ..core import Result


def run(ctx):
    res = Result()
    W = ctx.W
    res.rule = ("typestate of the library pointer (absent / live / deleted, identity of every object created) along every path of every wrapper method, including the paths left by an exception, "
                "and None-ness of every wrapper argument, over Cython's typed tree; obligations: created once, never used or kept after deletion, never dropped without deletion, never shared, "
                "deleted with its Python object; an argument that is dereferenced as a library object refuses None before")
    res.notes = ["Cython calls __dealloc__ exactly once, also after a failed __cinit__", "methods starting with an underscore are analysed through the public methods that call them"]
    for cls in sorted(W.classes):
        if not {'__cinit__', '__dealloc__', '__init__'} & set(W.classes[cls]):
            continue
        res.count('classes')
        for want in ('__cinit__', '__dealloc__'):
            res.count('obligations')
            if want not in W.classes[cls]:
                res.add('leak', cls, want, 'python/cython/%s.pyx' % cls, "%s has no %s: %s" % (cls, want, "the library object is never deleted" if want == '__dealloc__' else
                        "a Python object can exist without a library object (subclass, __new__), and a second initialisation loses the first one"))
        for m in W.public(cls) + [x for x in ('__cinit__', '__init__', '__dealloc__') if x in W.classes[cls]]:
            outs, _ = W.outcomes(cls, m)
            if outs is None:
                res.count('methods not understood')
                continue
            res.count('methods'); res.count('paths', len(outs)); res.count('obligations', len(outs))
            fn = W.classes[cls][m]
            for a in fn['args']:
                if (a['t'] or '').startswith('ext:'):
                    res.count('object arguments')
            for o in outs:
                for rule, at, msg in o.problems:
                    res.add(rule, '%s.%s' % (cls, m), rule, at, msg + " (path: %s)" % ('returns' if o.kind == 'ret' else 'raises %s' % o.err.kind))
        res.sample("%s: %d methods" % (cls, len(W.classes[cls])))
    res.need('classes', 10)
    res.need('methods', 120)
    res.need('object arguments', 15)
    if W.unread:
        res.notes.append('not understood: %s' % W.unread)
    return res
