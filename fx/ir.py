"""Textual LLVM IR reader (clang -O0 + mem2reg): functions, blocks, instructions, debug info."""
import re, os, subprocess

CLANG = os.environ.get("FX_CLANG", "/usr/bin/clang++-18")
OPT = os.environ.get("FX_OPT", "/usr/bin/opt-18")
FILT = os.environ.get("FX_FILT", "/usr/bin/llvm-cxxfilt-18")


class AnalysisError(Exception):
    """The analysis itself is broken (never a verdict on the code)."""


_TOK = re.compile(r'"(?:[^"\\]|\\.)*"')


def split_top(s, sep=','):
    """Split s on sep at bracket depth 0 (quotes respected)."""
    out, depth, cur, i, n = [], 0, [], 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            m = _TOK.match(s, i)
            cur.append(m.group(0))
            i = m.end()
            continue
        if c in '([{<':
            depth += 1
        elif c in ')]}>':
            depth -= 1
        if c == sep and depth == 0:
            out.append(''.join(cur).strip())
            cur = []
        else:
            cur.append(c)
        i += 1
    last = ''.join(cur).strip()
    if last:
        out.append(last)
    return out


class Inst:
    __slots__ = ('res', 'op', 'ty', 'ops', 'callee', 'args', 'argtys', 'argattrs', 'labels', 'dbg',
                 'text', 'nounwind', 'block', 'idx', 'pred', 'fn', 'incoming', 'cases', 'unwind', 'normal', 'clauses', 'extra')

    def __init__(self):
        self.res = None; self.op = None; self.ty = None; self.ops = []; self.callee = None
        self.args = []; self.argtys = []; self.argattrs = []; self.labels = []; self.dbg = None
        self.text = ''; self.nounwind = False; self.block = None; self.idx = 0; self.pred = None
        self.fn = None; self.incoming = []; self.cases = []; self.unwind = None; self.normal = None
        self.clauses = []; self.extra = None

    @property
    def line(self):
        return self.fn.module.dbgline(self.dbg) if self.dbg else (None, None)

    def where(self):
        f, l = self.line
        if f is None:
            return "%s" % self.fn.file
        return "%s:%s" % (os.path.relpath(f, '/repo') if f.startswith('/repo') else f, l)

    def __repr__(self):
        return self.text.strip()


class Block:
    def __init__(self, name):
        self.name = name
        self.insts = []
        self.succs = []
        self.preds = []


class Function:
    def __init__(self, module, name):
        self.module = module; self.name = name; self.params = []; self.ptypes = []; self.pattrs = []
        self.blocks = {}; self.order = []; self.sp = None; self.file = None; self.line = None
        self.rettype = None; self.defs = {}; self.pnames = {}; self.varnames = {}; self.uses = {}

    @property
    def entry(self):
        return self.blocks[self.order[0]]

    def insts(self):
        for b in self.order:
            for i in self.blocks[b].insts:
                yield i


_call_re = re.compile(r'^(?:tail |musttail |notail )?(call|invoke)\s+(.*)$')
_name_re = re.compile(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)')
_val_re = re.compile(r'(%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)|@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)|-?\d+(?:\.\d+)?(?:e[+-]?\d+)?|0x[0-9A-Fa-f]+|true|false|null|undef|poison|zeroinitializer|getelementptr.*|inttoptr.*|bitcast.*)$')


def parse_val(s):
    """'double noundef %3' -> ('double', '%3', 'noundef')"""
    s = s.strip()
    m = _val_re.search(s)
    if not m:
        parts = s.rsplit(' ', 1)
        return (parts[0], parts[-1], '')
    v = m.group(1)
    rest = s[:m.start()].strip()
    # type = first token (with balanced brackets)
    ty, attrs = take_type(rest)
    return ty, v, attrs


def take_type(s):
    s = s.strip()
    if not s:
        return '', ''
    if s[0] in '{[<':
        depth = 0
        i = 0
        while i < len(s):
            c = s[i]
            if c == '"':
                m = _TOK.match(s, i); i = m.end(); continue
            if c in '{[<(':
                depth += 1
            elif c in '}])>':
                depth -= 1
                if depth == 0:
                    break
            i += 1
        return s[:i + 1], s[i + 1:].strip()
    if s[0] == '%':
        if s.startswith('%"'):
            m = _TOK.match(s, 1)
            return s[:m.end()], s[m.end():].strip()
        m = re.match(r'%[-\w.$]+', s)
        return s[:m.end()], s[m.end():].strip()
    parts = s.split(' ', 1)
    return parts[0], (parts[1] if len(parts) > 1 else '')


class Module:
    def __init__(self, path, srcroots):
        self.path = path
        self.srcroots = srcroots
        self.structs = {}
        self.globals = {}
        self.functions = {}
        self.md = {}
        self.attrs = {}
        self.declares = set()
        self._dl = {}
        self._parse()

    # ---- debug info
    def mdfields(self, ref):
        """parse '!DIxxx(a: b, ...)' into (kind, dict)"""
        v = self.md.get(ref)
        if v is None:
            return None, {}
        if isinstance(v, tuple):
            return v
        m = re.match(r'(?:distinct )?!(DI\w+)\((.*)\)$', v)
        if not m:
            return None, {'_': v}
        d = {}
        for part in split_top(m.group(2)):
            k, _, val = part.partition(': ')
            d[k] = val
        self.md[ref] = (m.group(1), d)
        return self.md[ref]

    def mdlist(self, ref):
        v = self.md.get(ref)
        if not isinstance(v, str):
            return []
        m = re.match(r'!\{(.*)\}$', v)
        if not m:
            return []
        return [x.strip() for x in m.group(1).split(',') if x.strip()]

    def mdfile(self, ref):
        k, d = self.mdfields(ref)
        if k != 'DIFile':
            return None
        fn = d['filename'].strip('"'); dr = d.get('directory', '""').strip('"')
        return os.path.normpath(fn if fn.startswith('/') else os.path.join(dr, fn))

    def scope_file(self, ref):
        while ref:
            k, d = self.mdfields(ref)
            if k is None:
                return None
            if 'file' in d:
                return self.mdfile(d['file'])
            ref = d.get('scope')
        return None

    def dbgline(self, ref):
        if ref in self._dl:
            return self._dl[ref]
        k, d = self.mdfields(ref)
        r = (None, None)
        if k == 'DILocation':
            r = (self.scope_file(d.get('scope')), int(d.get('line', '0')))
        self._dl[ref] = r
        return r

    # ---- parse
    def _parse(self):
        with open(self.path) as f:
            lines = f.read().split('\n')
        n = len(lines)
        i = 0
        fstarts = []
        while i < n:
            L = lines[i]
            if not L:
                i += 1; continue
            c = L[0]
            if c == '!':
                j = L.find(' = ')
                if j > 0:
                    self.md[L[:j]] = L[j + 3:]
            elif c == '%':
                j = L.find(' = type ')
                if j > 0:
                    self.structs[L[:j]] = L[j + 8:]
            elif c == '@':
                j = L.find(' = ')
                if j > 0:
                    self.globals[L[:j]] = L[j + 3:]
            elif L.startswith('define '):
                s = i
                while lines[i] != '}':
                    i += 1
                fstarts.append((s, i))
            elif L.startswith('attributes '):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', L)
                self.attrs[m.group(1)] = m.group(2)
            elif L.startswith('declare '):
                m = _name_re.search(L)
                if m:
                    self.declares.add(m.group(1).strip('"'))
            i += 1
        self.nounwind_attr = {a for a, t in self.attrs.items() if re.search(r'\bnounwind\b', t)}
        self.noreturn_attr = {a for a, t in self.attrs.items() if re.search(r'\bnoreturn\b', t)}
        for s, e in fstarts:
            h = lines[s]
            m = re.search(r'!dbg (!\d+)', h)
            spref = m.group(1) if m else None
            file = self.scope_file(spref) if spref else None
            nm = _name_re.search(h).group(1).strip('"')
            keep = file is not None and any(file.startswith(r) for r in self.srcroots)
            if not keep and ('N4fisx' in nm.split('St')[0][:12]) :
                keep = True   # implicit members (no subprogram file of their own)
            if not keep and '4fisx' in nm and re.search(r'EN?K?Ul', nm):
                keep = True   # std algorithm instantiated with a closure of the library
            if not keep:
                continue
            fn = Function(self, nm)
            fn.sp = spref; fn.file = file
            if spref:
                k, d = self.mdfields(spref)
                fn.line = int(d.get('line', '0'))
            fn.header = h
            self._parse_header(fn, h)
            self._parse_body(fn, lines[s + 1:e])
            self.functions[nm] = fn

    def _parse_header(self, fn, h):
        m = _name_re.search(h)
        p = m.end()
        assert h[p] == '('
        depth = 0; q = p
        while True:
            c = h[q]
            if c == '"':
                q = _TOK.match(h, q).end(); continue
            if c == '(':
                depth += 1
            elif c == ')':
                depth -= 1
                if depth == 0:
                    break
            q += 1
        ret = h[:m.start()].replace('define ', '')
        toks = ret.strip()
        fn.rettype = toks
        tail = h[q:]
        fn.nounwind = any(a in self.nounwind_attr for a in re.findall(r'#\d+', tail))
        for part in split_top(h[p + 1:q]):
            if part == '...':
                continue
            ty, v, at = parse_val(part)
            fn.params.append(v); fn.ptypes.append(ty); fn.pattrs.append(at)

    def _parse_body(self, fn, body):
        cur = None
        # join multi-line instructions (invoke, landingpad, switch)
        joined = []
        k = 0
        while k < len(body):
            L = body[k]
            if re.match(r'^\s+(to label|cleanup|catch|filter)', L) and joined:
                joined[-1] += ' ' + L.strip()
            elif joined and 'switch ' in joined[-1] and joined[-1].rstrip().endswith('['):
                buf = joined[-1]
                while True:
                    buf += ' ' + body[k].strip()
                    if body[k].strip().startswith(']'):
                        break
                    k += 1
                joined[-1] = buf
            else:
                joined.append(L)
            k += 1
        first = True
        for L in joined:
            if not L.strip():
                continue
            if L[0] not in ' \t':
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):', L)
                if m:
                    cur = Block('%' + m.group(1))
                    fn.blocks[cur.name] = cur; fn.order.append(cur.name)
                    first = False
                    continue
            if cur is None:
                cur = Block('%entry$')
                fn.blocks[cur.name] = cur; fn.order.append(cur.name)
            t = L.strip()
            inst = self._parse_inst(fn, t)
            if inst is None:
                continue
            inst.block = cur; inst.idx = len(cur.insts); inst.fn = fn
            cur.insts.append(inst)
            if inst.res:
                fn.defs[inst.res] = inst
        # an unnamed entry block is referred to by its number
        if '%entry$' in fn.blocks:
            for i in fn.insts():
                if i.op == 'phi':
                    i.incoming = [(a, b if b in fn.blocks else '%entry$') for a, b in i.incoming]
        # succs
        for b in fn.blocks.values():
            if not b.insts:
                continue
            term = b.insts[-1]
            for l in term.labels:
                if l not in fn.blocks:
                    raise AnalysisError("label %s in %s" % (l, fn.name))
                if l not in b.succs:
                    b.succs.append(l)
        for b in fn.blocks.values():
            for s in b.succs:
                fn.blocks[s].preds.append(b.name)
        for i in fn.insts():
            for o in i.ops + i.args:
                if isinstance(o, str) and o.startswith('%'):
                    fn.uses.setdefault(o, []).append(i)

    def _parse_inst(self, fn, t):
        I = Inst()
        I.text = t
        m = re.search(r'!dbg (!\d+)', t)
        if m:
            I.dbg = m.group(1)
        core = re.sub(r'(, !\w[\w.]* !\d+)+$', '', t)
        core = re.sub(r', !(dbg|srcloc|llvm\.loop|heapallocsite|prof|range|noundef|nonnull|align|tbaa|unpredictable)( !\d+|![^,]*)*$', '', core)
        m = re.match(r'(%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)) = (.*)$', core)
        if m:
            I.res = m.group(1); core = m.group(2)
        mc = _call_re.match(core)
        if mc:
            return self._parse_call(fn, I, mc.group(1), mc.group(2))
        op, _, rest = core.partition(' ')
        I.op = op
        if op == 'load':
            rest = re.sub(r'^(volatile|atomic) ', '', rest)
            parts = split_top(rest)
            I.ty = parts[0]
            _, v, _ = parse_val(parts[1]); I.ops = [v]
        elif op == 'store':
            rest = re.sub(r'^(volatile|atomic) ', '', rest)
            parts = split_top(rest)
            ty, v, _ = parse_val(parts[0]); _, p, _ = parse_val(parts[1])
            I.ty = ty; I.ops = [v, p]
        elif op == 'getelementptr':
            rest = re.sub(r'^(inbounds|nuw|nusw) ', '', rest)
            parts = split_top(rest)
            I.extra = parts[0]       # source element type
            vals = [parse_val(x) for x in parts[1:]]
            I.ops = [v[1] for v in vals]; I.ty = 'ptr'
        elif op == 'alloca':
            parts = split_top(rest)
            I.extra = parts[0]; I.ty = 'ptr'
        elif op == 'br':
            labs = re.findall(r'label (%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))', rest)
            I.labels = labs
            if len(labs) == 2:
                parts = split_top(rest)
                I.ops = [parse_val(parts[0])[1]]
        elif op == 'switch':
            labs = re.findall(r'label (%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))', rest)
            I.labels = labs
            parts = split_top(rest)
            I.ops = [parse_val(parts[0])[1]]
            I.cases = [(int(a), b) for a, b in re.findall(r'i\d+ (-?\d+), label (%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))', rest[rest.find('['):])]
        elif op == 'ret':
            if rest != 'void':
                ty, v, _ = parse_val(rest); I.ty = ty; I.ops = [v]
        elif op in ('icmp', 'fcmp'):
            rest = re.sub(r'^(fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+', '', rest)
            pr, _, r2 = rest.partition(' ')
            I.pred = pr
            parts = split_top(r2)
            ty, a, _ = parse_val(parts[0])
            I.extra = ty; I.ty = 'i1'
            I.ops = [a, parts[1].strip()]
        elif op == 'phi':
            ty, r2 = take_type(rest)
            I.ty = ty
            for a, b in re.findall(r'\[ (.*?), (%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)) \]', r2):
                I.incoming.append((a.strip(), b))
            I.ops = [a for a, _ in I.incoming]
        elif op == 'select':
            parts = split_top(rest)
            vals = [parse_val(x) for x in parts]
            I.ops = [v[1] for v in vals]; I.ty = vals[1][0]
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem',
                    'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            rest = re.sub(r'^((nsw|nuw|exact|disjoint|fast|contract|nnan|ninf|nsz|arcp|afn|reassoc)\s+)+', '', rest)
            parts = split_top(rest)
            ty, a, _ = parse_val(parts[0])
            I.ty = ty; I.ops = [a, parts[1].strip()]
        elif op == 'fneg':
            ty, a, _ = parse_val(rest); I.ty = ty; I.ops = [a]
        elif op in ('sext', 'zext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint',
                    'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            rest = re.sub(r'^nneg ', '', rest)
            m = re.match(r'(.*?) to (.*)$', rest)
            if m:
                ty, a, _ = parse_val(m.group(1)); I.ty = m.group(2).strip(); I.ops = [a]; I.extra = ty
            else:
                ty, a, _ = parse_val(rest); I.ty = ty; I.ops = [a]
        elif op == 'extractvalue':
            parts = split_top(rest)
            ty, a, _ = parse_val(parts[0]); I.ops = [a]; I.extra = parts[1:]
        elif op == 'insertvalue':
            parts = split_top(rest)
            I.ops = [parse_val(parts[0])[1], parse_val(parts[1])[1]]; I.extra = parts[2:]
        elif op == 'landingpad':
            I.clauses = rest
        elif op == 'resume':
            I.ops = [parse_val(rest)[1]]
        elif op == 'unreachable':
            pass
        else:
            raise AnalysisError("unhandled instruction %r in %s" % (t[:120], fn.name))
        return I

    def _parse_call(self, fn, I, op, rest):
        I.op = op
        # find callee: @name( or %reg(
        m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)|%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))\(', self._mask_types(rest))
        if not m:
            raise AnalysisError("call? %r" % rest[:200])
        callee = rest[m.start(1):m.end(1)]
        I.callee = callee[1:].strip('"') if callee.startswith('@') else callee
        pre = rest[:m.start()].strip()
        I.ty = self._rettype(pre)
        p = m.end() - 1
        depth = 0; q = p
        while True:
            c = rest[q]
            if c == '"':
                q = _TOK.match(rest, q).end(); continue
            if c == '(':
                depth += 1
            elif c == ')':
                depth -= 1
                if depth == 0:
                    break
            q += 1
        if I.callee.startswith('llvm.dbg.'):
            if I.callee in ('llvm.dbg.value', 'llvm.dbg.declare'):
                mm = re.match(r'metadata \S+ (%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)), metadata (!\d+)', rest[p + 1:q])
                if mm:
                    k, d = self.mdfields(mm.group(2))
                    if k == 'DILocalVariable' and 'name' in d:
                        nm = d['name'].strip('"')
                        if 'arg' in d and mm.group(1) in fn.params:
                            fn.pnames[mm.group(1)] = nm
                        else:
                            fn.varnames.setdefault(mm.group(1), nm)
            return None
        if I.callee.startswith(('llvm.lifetime', 'llvm.assume', 'llvm.experimental.noalias')):
            return None
        for part in split_top(rest[p + 1:q]):
            ty, v, at = parse_val(part)
            I.args.append(v); I.argtys.append(ty); I.argattrs.append(at)
        tail = rest[q + 1:]
        I.nounwind = any(a in self.nounwind_attr for a in re.findall(r'#\d+', tail.split('to label')[0]))
        I.extra = any(a in self.noreturn_attr for a in re.findall(r'#\d+', tail.split('to label')[0]))
        if op == 'invoke':
            mm = re.search(r'to label (%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)) unwind label (%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))', tail)
            I.normal, I.unwind = mm.group(1), mm.group(2)
            I.labels = [I.normal, I.unwind]
        I.ops = []
        return I

    @staticmethod
    def _mask_types(s):
        # mask sret(...)/byval(...)/dereferenceable(...) so that the callee '(' is the first real one;
        # function pointer types "void (ptr, ...)" do not contain @/% before '('
        return re.sub(r'%("(?:[^"\\]|\\.)*")\)', lambda m: '%' + '_' * (len(m.group(1))) + ')', s)

    @staticmethod
    def _rettype(pre):
        # drop attributes, keep the type
        toks = pre.strip()
        while True:
            m = re.match(r'(noundef|nonnull|zeroext|signext|noalias|fastcc|ccc|inreg|range\([^)]*\)|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|fast|contract|nnan|ninf|nsz)\s+(.*)$', toks)
            if not m:
                break
            toks = m.group(2)
        return take_type(toks)[0]


def demangle(names):
    names = list(names)
    p = subprocess.run([FILT, '-n'] if False else [FILT], input='\n'.join(names) + '\n', capture_output=True, text=True)
    if p.returncode:
        raise AnalysisError("cxxfilt failed: " + p.stderr[:200])
    return dict(zip(names, p.stdout.split('\n')))
