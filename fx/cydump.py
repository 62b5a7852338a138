"""Runs under an interpreter that has Cython: type-checks the wrappers with Cython's own front end (parse ... AnalyseExpressions) and
writes the typed tree as JSON.  usage: cydump.py <python/cython dir> <scratch dir> <out.json>"""
import sys, os, glob, json
from Cython.Compiler import Main, Pipeline, Nodes, ExprNodes, PyrexTypes
from Cython.Compiler.Main import CompilationOptions, Context, CompilationSource, create_default_resultobj
from Cython.Compiler.Scanning import FileSourceDescriptor

src, d, outp = sys.argv[1:4]
pyx = d + '/_fisx.pyx'
linemap = []
with open(pyx, 'wb') as f:
    for p in sorted(glob.glob(src + '/*.pyx'), key=str.lower):
        b = os.path.basename(p)
        if b.startswith('_'):
            continue
        data = open(p, 'rb').read()
        n = data.count(b'\n')
        for i in range(n):
            linemap.append((b, i + 1))
        f.write(data)
opts = CompilationOptions(Main.default_options, cplus=True, include_path=[src], output_file=d + '/o.cpp', language_level=None)
ctx = Context.from_options(opts)
cs = CompilationSource(FileSourceDescriptor(pyx, '_fisx.pyx'), '_fisx', d)
res = create_default_resultobj(cs, opts)
pl = []
for p in Pipeline.create_pyx_pipeline(ctx, opts, res):
    if type(p).__name__ in ('FlattenInListTransform', 'EarlyReplaceBuiltinCalls'):
        continue
    pl.append(p)
    if type(p).__name__ == 'AnalyseExpressionsTransform':
        break
err, tree = Pipeline.run_pipeline(pl, cs)
if err or tree is None:
    print("front end failed:", err)
    sys.exit(1)


def where(pos):
    if not pos:
        return None
    f = os.path.basename(str(pos[0].get_filenametable_entry() if hasattr(pos[0], 'get_filenametable_entry') else pos[0]))
    if f == '_fisx.pyx' and 0 < pos[1] <= len(linemap):
        return 'python/cython/%s:%d' % linemap[pos[1] - 1]
    return '%s:%d' % (f, pos[1])


def ty(t):
    if t is None:
        return None
    try:
        if t.is_extension_type:
            return 'ext:' + t.name
        if t.is_pyobject:
            return 'py:' + (getattr(t, 'name', '') or 'object') if getattr(t, 'name', None) else 'py:object'
        return t.empty_declaration_code() if hasattr(t, 'empty_declaration_code') else str(t)
    except Exception:
        return str(t)


def functype(ft):
    if ft is None or not getattr(ft, 'is_cfunction', False):
        return None
    return {'ret': ty(ft.return_type), 'args': [ty(a.type) for a in ft.args], 'exc': '+' if ft.exception_check == '+' else (str(ft.exception_check)),
            'excval': str(ft.exception_value) if ft.exception_value is not None else None, 'nogil': bool(ft.nogil), 'optional': ft.optional_arg_count}


SCAL = ['name', 'attribute', 'operator', 'value', 'cname', 'notnone', 'is_cdef', 'constant_result', 'is_called', 'or_none', 'not_none', 'state', 'in_place', 'module_name']
seen_stack = []


def dump(n, depth=0):
    if n is None:
        return None
    if isinstance(n, (list, tuple)):
        return [dump(x, depth + 1) for x in n]
    if not isinstance(n, Nodes.Node):
        return str(n)
    o = {'n': type(n).__name__}
    w = where(getattr(n, 'pos', None))
    if w:
        o['at'] = w
    t = getattr(n, 'type', None)
    if isinstance(n, ExprNodes.ExprNode) and t is not None:
        o['t'] = ty(t)
        ft = functype(t) or functype(getattr(t, 'base_type', None)) if getattr(t, 'is_ptr', False) or getattr(t, 'is_cfunction', False) else None
        if ft:
            o['ft'] = ft
    for a in SCAL:
        if hasattr(n, a):
            v = getattr(n, a)
            if isinstance(v, (str, int, float, bool)) or v is None:
                o[a] = v
            elif a == 'value':
                o[a] = str(v)
    e = getattr(n, 'entry', None)
    if e is not None:
        sc = getattr(e, 'scope', None)
        o['entry'] = {'name': e.name, 'cname': str(e.cname), 'arg': bool(getattr(e, 'is_arg', False)), 'local': bool(getattr(e, 'is_local', False)),
                      'scope': getattr(sc, 'name', None), 'scopekind': type(sc).__name__, 'cfunc': bool(getattr(e, 'is_cfunction', False)),
                      'ft': functype(e.type) if e.type is not None else None}
    if isinstance(n, ExprNodes.NewExprNode):
        o['class'] = str(n.class_type)
        o['ft'] = functype(getattr(n.entry, 'type', None)) or o.get('ft')
    if isinstance(n, (Nodes.DefNode, Nodes.CFuncDefNode)):
        o['fname'] = n.entry.name if n.entry is not None else getattr(n, 'name', None)
        o['args'] = []
        for a in (n.args if isinstance(n, Nodes.DefNode) else n.type.args):
            o['args'].append({'name': getattr(a, 'name', None), 't': ty(a.type), 'accept_none': getattr(a, 'accept_none', None), 'or_none': getattr(a, 'or_none', None),
                              'not_none': getattr(a, 'not_none', None), 'default': dump(getattr(a, 'default', None), depth + 1)})
        if isinstance(n, Nodes.CFuncDefNode):
            o['ft'] = functype(n.type)
        o['body'] = dump(n.body, depth + 1)
        return o
    if type(n).__name__ == 'CloneNode':
        o['arg'] = dump(n.arg, depth + 1)
        return o
    if type(n).__name__ == 'DefaultLiteralArgNode':
        o['arg'] = dump(n.arg, depth + 1)
        return o
    if type(n).__name__ == 'GeneratorExpressionNode':
        o['gbody'] = dump(getattr(n.def_node, 'gbody', n.def_node).body, depth + 1)
        o['callargs'] = dump(getattr(n, 'call_parameters', None), depth + 1)
        return o
    for c in n.child_attrs or []:
        v = getattr(n, c, None)
        if v is None or v == []:
            continue
        o[c] = dump(v, depth + 1)
    # not all nodes list their statements' value children
    return o


# every extern C++ function that is declared
decls = []


def visit_scope(sc, seen):
    for nm, e in list(sc.entries.items()):
        t = e.type
        if getattr(t, 'is_cpp_class', False) and e.is_type and id(t) not in seen and t.scope is not None:
            seen.add(id(t))
            ns = getattr(t, 'namespace', None)
            for mn, me in t.scope.entries.items():
                for al in me.all_alternatives():
                    ft = functype(al.type)
                    if ft:
                        decls.append({'class': t.name, 'cname': str(t.cname), 'ns': str(ns), 'name': mn, 'ft': ft, 'at': where(al.pos)})
        elif getattr(e, 'is_cfunction', 0) and getattr(t, 'is_cfunction', False) and e.is_cfunction:
            for al in e.all_alternatives():
                ft = functype(al.type)
                if ft:
                    decls.append({'class': '', 'cname': str(al.cname), 'ns': '', 'name': nm, 'ft': ft, 'at': where(al.pos), 'extern': getattr(al, 'visibility', '')})


helpers = []
for hp in sys.argv[4:]:
    nm = os.path.basename(hp)[:-3]
    hopts = CompilationOptions(Main.default_options, cplus=True, include_path=[src], output_file=d + '/h.cpp', language_level=None)
    hctx = Context.from_options(hopts)
    hcs = CompilationSource(FileSourceDescriptor(hp, nm + '.py'), nm, d)
    hres = create_default_resultobj(hcs, hopts)
    pl = []
    for p in Pipeline.create_py_pipeline(hctx, hopts, hres):
        if type(p).__name__ in ('FlattenInListTransform', 'EarlyReplaceBuiltinCalls'):
            continue
        pl.append(p)
        if type(p).__name__ == 'AnalyseExpressionsTransform':
            break
    err, ht = Pipeline.run_pipeline(pl, hcs)
    if err or ht is None:
        print("front end failed:", err)
        sys.exit(1)
    helpers.append(dump(ht.body))
seen = set()
for m in list(ctx.modules.values()):
    visit_scope(m, seen)
json.dump({'module': dump(tree.body), 'decls': decls, 'helpers': helpers, 'directives': {k: str(v) for k, v in (tree.directives or {}).items() if k in ('legacy_implicit_noexcept', 'language_level', 'c_string_type', 'c_string_encoding')}}, open(outp, 'w'))
