"""Physical quantities keep double precision from input to result."""
import glob, os, re
from ..core import Result
from ..model import SRC
from .. import textnum

ROUND = {'round', 'lround', 'llround', 'rint', 'lrint', 'llrint', 'nearbyint', 'floor', 'ceil', 'trunc', 'fmod', 'modf', 'remainder', 'roundf', 'floorf', 'ceilf',
         'llvm.round.f64', 'llvm.floor.f64', 'llvm.ceil.f64', 'llvm.trunc.f64', 'llvm.rint.f64', 'llvm.nearbyint.f64', 'llvm.lround.i64.f64', 'llvm.roundeven.f64'}
INTPARSE = {'atoi', 'atol', 'atoll', 'strtol', 'strtoul', 'strtoll', 'strtof', 'atoff'}
INTPARSE_DEM = re.compile(r'^std::(__cxx11::)?(stoi|stol|stoul|stoll|stof|stoull)\(')
FLOATTY = re.compile(r'(?<![\w.%@"])float(?![\w"])')
DI = r'__normal_iterator<(const )?double( const)?\*|(?<![\w])double( const)?\*|_List_(const_)?iterator<double>|reverse_iterator<'


def flag_param(f, v, depth=0):
    """value is (an element of) a parameter that is a flag: characteristic"""
    d = f.defs.get(v)
    if v in f.pnames:
        return 'characteristic' in f.pnames[v]
    if d is None or depth > 6:
        return False
    if d.op in ('load', 'getelementptr', 'bitcast', 'sext', 'zext'):
        return flag_param(f, d.ops[0], depth + 1)
    if d.op in ('call', 'invoke') and d.callee and d.args and re.search(r'vector<double.*>::(operator\[\]|at|begin|data)', d.text) is None:
        n = d.callee
        if 'ixEm' in n or '2atEm' in n:
            return flag_param(f, d.args[0], depth + 1)
    return False




def to_double(f, v, seen=None):
    """integer value v reaches a conversion to double through arithmetic, phis and casts"""
    seen = seen or set()
    if v in seen:
        return None
    seen.add(v)
    for i in f.insts():
        if v in (i.ops or []):
            if i.op in ('sitofp', 'uitofp'):
                return i
            if i.op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'sext', 'zext', 'trunc', 'phi', 'select'):
                r = to_double(f, i.res, seen)
                if r is not None:
                    return r
    return None


def run(ctx):
    res = Result()
    res.rule = ("every instruction and call of the library: no single precision value, parameter, container or literal; no conversion of a floating value to an integer other than the "
                "characteristic flag of a beam; no rounding function; no integer division whose quotient becomes a floating value; no integer-typed accumulation over floating ranges and no "
                "integer container filled from a floating range; no number parsed as integer or single precision that becomes a floating value; text made from a floating value with fewer than "
                "17 digits never reaches another function of the library (it may only go into messages)")
    lossy = {}          # functions returning lossy text
    seeds = {}
    for f in sorted(ctx.M.functions.values(), key=lambda x: x.name):
        sh = ctx.short(f)
        res.count('functions')
        s = []
        for i in f.insts():
            if i.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fcmp', 'load', 'store'):
                res.count('floating operations')
            if i.op in ('fptrunc', 'fpext') or FLOATTY.search(i.text.split(', !dbg')[0].split(' #')[0]) and 'float ' in i.text and not i.text.strip().startswith('%"'):
                res.add('single-precision', sh, i.op, i.where(), "a value is handled in single precision: %s" % i.text.strip()[:90])
            elif i.op in ('fptosi', 'fptoui'):
                res.count('float to integer conversions')
                if not flag_param(f, i.ops[0]):
                    res.add('truncation', sh, i.op, i.where(), "a floating point quantity is truncated to an integer")
            elif i.op in ('sdiv', 'udiv', 'srem', 'urem', 'lshr', 'ashr'):
                r = to_double(f, i.res) if i.op in ('sdiv', 'udiv') else None
                if r is not None:
                    res.add('integer-division', sh, i.op, i.where(), "the quotient of an integer division is used as a floating point quantity (%s)" % r.where())
            if i.op not in ('call', 'invoke') or not i.callee or ctx.M.resolve(i.callee):
                continue
            res.count('external calls')
            c = i.callee
            n = ctx.M.name(c)
            if c in ROUND or re.match(r'std::(round|floor|ceil|trunc|rint|nearbyint|lround|fmod|modf|remainder|llround)\(', n.dem):
                res.add('rounding', sh, n.base, i.where(), "a floating point quantity is rounded by %s()" % n.base)
            elif c in INTPARSE or INTPARSE_DEM.match(n.dem):
                r = to_double(f, i.res) if i.res else None
                if r is not None or 'tof' in c:
                    res.add('integer-parse', sh, n.base, i.where(), "a floating point quantity is read with %s()" % n.base)
            elif re.match(r'(int|long|unsigned int|unsigned long|float|bool|short) std::(accumulate|inner_product|reduce|transform_reduce)<', n.dem) and 'double' in n.dem:
                res.add('integer-sum', sh, n.base, i.where(), "floating point quantities are summed in another type: %s" % n.dem[:80])
            elif re.search(r'vector<(int|long|unsigned int|unsigned long|float|short|bool)\b.*>::(vector|assign|insert|_M_assign_aux)<', n.dem) and re.search(DI, n.dem):
                res.add('integer-container', sh, n.base, i.where(), "floating point quantities are copied to a container of another type: %s" % n.dem[:80])
            elif re.search(r'\bfloat\b', n.dem):
                res.add('single-precision', sh, n.base, i.where(), "single precision: %s" % n.dem[:100])
            elif re.match(r'std::(__cxx11::)?to_string\((double|float|long double)\)', n.dem) or c in ('sprintf', 'snprintf', '__sprintf_chk', '__snprintf_chk'):
                s.append(i)
        for i, way, t in textnum.stream_ops(ctx, f):
            res.count('text conversions')
            if way == 'out' and t == 'double':
                r = textnum.roots(ctx, f, i.args[0])
                if any('cout' in x or 'cerr' in x or 'clog' in x or x[0] == 'P' for x in r):
                    continue
                loc, prec = textnum.configured(ctx, f, i)
                if prec < 17:
                    s.append(i)
        seeds[f.name] = s
    ret = set()
    for _ in range(6):
        n0 = len(ret)
        for f in ctx.M.functions.values():
            if seeds[f.name] or ret and any(i.op in ('call', 'invoke') and i.callee and ctx.M.resolve(i.callee) is not None and ctx.M.resolve(i.callee).name in ret for i in f.insts()):
                T, calls = textnum.text_flow(ctx, f, seeds[f.name], ret)
                if any(r[0] == 'RET' for r in T):
                    ret.add(f.name)
        if len(ret) == n0:
            break
    for f in sorted(ctx.M.functions.values(), key=lambda x: x.name):
        if not seeds[f.name] and not any(i.op in ('call', 'invoke') and i.callee and ctx.M.resolve(i.callee) is not None and ctx.M.resolve(i.callee).name in ret for i in f.insts()):
            continue
        res.count('functions that make short number text')
        T, calls = textnum.text_flow(ctx, f, seeds[f.name], ret)
        for i, g, k in calls:
            if ctx.is_dtor(g) or g.name in ret:
                continue
            res.add('short-text', ctx.short(f), ctx.short(g), i.where(),
                    "text of a number with fewer digits than a double has is handed to %s" % ctx.short(g))
        for r in T:
            if r[0][0] in 'P':
                res.add('short-text', ctx.short(f), 'stored', (f.file or '?') + ':' + str(f.line), "text of a number with fewer digits than a double has is stored in %s" % (r,))
    # literals
    for p in sorted(glob.glob(os.path.join(SRC, '*.cpp')) + glob.glob(os.path.join(SRC, '*.h'))):
        txt = open(p, errors='replace').read()
        txt = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])+\'', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), txt, flags=re.S)
        for m in re.finditer(r'(?<![\w.])(\d+\.\d*|\.\d+|\d+\.?\d*[eE][-+]?\d+)([eE][-+]?\d+)?[fF]\b', txt):
            ln = txt.count('\n', 0, m.start()) + 1
            res.add('single-precision', os.path.basename(p), m.group(0), 'src/%s:%d' % (os.path.basename(p), ln), "single precision constant %s" % m.group(0))
        for m in re.finditer(r'(?<![\w.*/])\s*(\d+)\s*/\s*(\d+)(?![\w.])', txt):
            ln = txt.count('\n', 0, m.start(1)) + 1
            res.add('integer-division', os.path.basename(p), m.group(0).strip(), 'src/%s:%d' % (os.path.basename(p), ln), "quotient of two integer constants: %s" % m.group(0).strip())
        for m in re.finditer(r'(?<![\w.])(\d+\.\d{2,})(?:[eE][-+]?\d+)?(?![\w.])', txt):
            v = float(m.group(1))
            res.count('literals')
            for nm, c in (('pi', 3.141592653589793), ('2 pi', 6.283185307179586), ('pi/2', 1.5707963267948966), ('pi/180', 0.017453292519943295), ('180/pi', 57.29577951308232)):
                if abs(v / c - 1) < 2e-3 and abs(v / c - 1) > 1e-14:
                    ln = txt.count('\n', 0, m.start()) + 1
                    res.add('short-constant', os.path.basename(p), m.group(0), 'src/%s:%d' % (os.path.basename(p), ln), "constant %s has fewer digits than a double (%s)" % (m.group(0), nm))
    res.count('obligations', res.counts.get('floating operations', 0) + res.counts.get('external calls', 0) + res.counts.get('text conversions', 0))
    res.notes = ["digits of the data files are taken as they are", "the 8-digit coefficients of the published rational approximations (Abramowitz and Stegun) are part of the method"]
    res.need('floating operations', 500)
    res.need('text conversions', 4)
    return res
