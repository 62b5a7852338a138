"""Whole-library model: builds IR for every /repo/src/*.cpp, resolves classes, fields and callees."""
import os, re, glob, hashlib, subprocess, tempfile, shutil, concurrent.futures as cf, pickle
from .ir import Module, Function, AnalysisError, CLANG, OPT, demangle, split_top

REPO = os.environ.get("FX_REPO", "/repo")
SRC = os.path.join(REPO, "src")

_OPS = [('operator<<=', 'operator@LLE'), ('operator>>=', 'operator@RRE'), ('operator<=>', 'operator@SPC'),
        ('operator<<', 'operator@LL'), ('operator>>', 'operator@RR'), ('operator<=', 'operator@LE'),
        ('operator>=', 'operator@GE'), ('operator->*', 'operator@ARS'), ('operator->', 'operator@ARROW'),
        ('operator<', 'operator@LT'), ('operator>', 'operator@GT'), ('operator()', 'operator@CALL')]


def strip_templates(s):
    for a, b in _OPS:
        s = s.replace(a, b)
    out, dep = [], 0
    for c in s:
        if c == '<':
            dep += 1
        elif c == '>':
            dep -= 1
        elif dep == 0:
            out.append(c)
    return ''.join(out)


class Name:
    """Structured demangled name."""
    _cache = {}

    def __init__(self, mangled, dem):
        self.mangled = mangled
        self.dem = dem
        s = strip_templates(dem).replace('[abi:cxx11]', '').replace('std::__cxx11::', 'std::').replace('(anonymous namespace)', '@anon')
        self.const = s.endswith(' const')
        p = s.find('(')
        head = s[:p] if p >= 0 else s
        # drop return type: last blank outside
        head = head.strip()
        m = re.match(r'^(.*\s)?(\S*operator [\w:&* ]+)$', head)   # conversion operators
        if m:
            head = m.group(2)
        else:
            head = head.split(' ')[-1] if not head.startswith('operator') else head
        for a, b in _OPS:
            head = head.replace(b, a)
        head = head.lstrip('&*')
        self.qual = head
        parts = []
        tmp = head
        # split on '::' at top level
        self.parts = tmp.split('::')
        self.base = self.parts[-1]
        self.scope = '::'.join(self.parts[:-1])
        self.params = []
        if p >= 0:
            depth = 0; q = p
            while q < len(s):
                if s[q] == '(':
                    depth += 1
                elif s[q] == ')':
                    depth -= 1
                    if depth == 0:
                        break
                q += 1
            self.params = split_top(s[p + 1:q])

    @property
    def cls(self):
        return self.parts[-2] if len(self.parts) > 1 else ''


class ClassInfo:
    def __init__(self, name):
        self.name = name
        self.fields = []     # (name, ditype string, is_scalar)
        self.methods = {}    # linkageName -> dict(name, access, const)
        self.irtypes = set()
        self.bases = []
        self.file = None
        self.line = None


class Model:
    def __init__(self, verbose=False):
        self.modules = []
        self.functions = {}
        self.names = {}
        self.classes = {}
        self.field_ix = {}     # IR struct name -> [fieldname per IR index]
        self.units = []
        self.globals_const = {}

    # ------------------------------------------------------------------ build
    @staticmethod
    def compile_all(outdir):
        srcs = sorted(glob.glob(os.path.join(SRC, "*.cpp")))
        if not srcs:
            raise AnalysisError("no sources in %s" % SRC)

        allh = os.path.join(outdir, "zz_all_headers.cpp")
        with open(allh, "w") as fh:
            for h in sorted(glob.glob(os.path.join(SRC, "*.h"))):
                fh.write('#include "%s"\n' % h)

        def one(f):
            b = os.path.basename(f)[:-4]
            extra = ["-femit-all-decls"] if f == allh else []
            ll = os.path.join(outdir, b + ".ll"); m = os.path.join(outdir, b + ".m.ll")
            p = subprocess.run([CLANG, "-std=gnu++17", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fstandalone-debug", "-w", "-S",
                                "-emit-llvm", "-DNDEBUG"] + extra + ["-I" + SRC, f, "-o", ll], capture_output=True, text=True)
            if p.returncode:
                raise AnalysisError("clang failed on %s:\n%s" % (f, p.stderr[:2000]))
            p = subprocess.run([OPT, "-passes=mem2reg", "-S", ll, "-o", m], capture_output=True, text=True)
            if p.returncode:
                raise AnalysisError("opt failed on %s:\n%s" % (f, p.stderr[:2000]))
            os.unlink(ll)
            return m
        with cf.ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, srcs + [allh])), srcs

    @classmethod
    def load(cls):
        d = tempfile.mkdtemp(prefix="fx_ir_")
        try:
            outs, srcs = cls.compile_all(d)
            self = cls()
            self.units = srcs
            with cf.ProcessPoolExecutor(8) as ex:
                self.modules = list(ex.map(_load_module, outs))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        self._finish()
        return self

    def _finish(self):
        names = set()
        for m in self.modules:
            for f in m.functions.values():
                f.module = m
                names.add(f.name)
                for i in f.insts():
                    if i.callee and not i.callee.startswith('%'):
                        names.add(i.callee)
                # D2/C2 aliases
                if f.name not in self.functions:
                    self.functions[f.name] = f
        # constructor aliases: C1 -> C2, D1 -> D2 (clang emits aliases as globals)
        self.alias = {}
        for m in self.modules:
            for g, v in m.globals.items():
                mm = re.search(r'\balias\b.*@(\S+)$', v.split(', align')[0])
                if mm:
                    self.alias[g[1:].strip('"')] = mm.group(1).strip('"')
                    names.add(g[1:].strip('"'))
        for mangled, dem in demangle(sorted(names)).items():
            self.names[mangled] = Name(mangled, dem)
        self._classes()

    def resolve(self, callee):
        """mangled callee -> library Function or None"""
        f = self.functions.get(callee)
        if f:
            return f
        a = self.alias.get(callee)
        if a:
            return self.functions.get(a)
        return None

    def name(self, mangled):
        n = self.names.get(mangled)
        if n is None:
            n = Name(mangled, list(demangle([mangled]).values())[0])
            self.names[mangled] = n
        return n

    def _classes(self):
        for m in self.modules:
            byid = {}
            for ref, v in list(m.md.items()):
                if not isinstance(v, str) or 'DICompositeType' not in v:
                    continue
                if 'identifier: "_ZTS' not in v or '4fisx' not in v or 'elements:' not in v:
                    continue
                k, d = m.mdfields(ref)
                ident = d['identifier'].strip('"')
                mm = re.match(r'_ZTSN4fisx(.*)E$', ident)
                if not mm:
                    continue
                if d.get('flags', '').find('FwdDecl') >= 0:
                    continue
                # only fisx::X or fisx::X::Y
                nm = self._zts(mm.group(1))
                if not nm:
                    continue
                byid[nm] = (ref, d)
            for nm, (ref, d) in byid.items():
                ci = self.classes.get(nm)
                first = ci is None
                if first:
                    ci = ClassInfo(nm)
                    ci.file = m.mdfile(d['file']) if 'file' in d else None
                    ci.line = int(d.get('line', '0'))
                fields = []
                for e in m.mdlist(d['elements']):
                    k, ed = m.mdfields(e)
                    if k == 'DIDerivedType':
                        tag = ed['tag']
                        if tag == 'DW_TAG_inheritance':
                            fields.append(('<base>' + self._tyname(m, ed.get('baseType')), self._tyname(m, ed.get('baseType')), None, 'base'))
                        elif tag == 'DW_TAG_member' and 'DIFlagStaticMember' not in ed.get('flags', ''):
                            fields.append((ed['name'].strip('"'), self._tyname(m, ed['baseType']), int(ed.get('line', '0')),
                                           self._access(ed, d)))
                    elif k == 'DISubprogram':
                        ln = ed.get('linkageName', '""').strip('"')
                        acc = self._access(ed, d)
                        key = ln or ed['name'].strip('"') + '@' + ed.get('line', '0') + e
                        ty = self._subtype(m, ed.get('type'))
                        if first or key not in ci.methods:
                            ci.methods[key] = dict(name=ed['name'].strip('"'), access=acc, types=ty,
                                               line=int(ed.get('line', '0')), static='DIFlagStaticMember' in ed.get('flags', ''),
                                               artificial='DIFlagArtificial' in ed.get('flags', ''),
                                               deleted='DISPFlagDeleted' in ed.get('spFlags', ''))
                if first:
                    ci.fields = fields
                    self.classes[nm] = ci
            # IR struct mapping
            mp = {}
            for st, body in m.structs.items():
                mm = re.match(r'^%"(?:class|struct)\.fisx::([\w:]+?)(?:\.base)?(?:\.\d+)?"$', st)
                if not mm or mm.group(1) not in self.classes:
                    continue
                ci = self.classes[mm.group(1)]
                body = body.strip()
                if body == 'opaque':
                    continue
                inner = body.strip('<>').strip()
                inner = inner[1:-1]
                elems = split_top(inner)
                names = []
                j = 0
                for e in elems:
                    if re.match(r'^\[\d+ x i8\]$', e) and (j >= len(ci.fields) or 'char' not in (ci.fields[j][1] or '')):
                        names.append(None); continue
                    if j >= len(ci.fields):
                        names.append(None)
                        if e != 'i8':
                            raise AnalysisError("struct layout mismatch %s" % st)
                        continue
                    names.append(ci.fields[j][0]); j += 1
                if j < len(ci.fields):
                    raise AnalysisError("struct layout mismatch %s (%d of %d)" % (st, j, len(ci.fields)))
                mp[st] = names
            m.field_ix = mp

    @staticmethod
    def _zts(s):
        out = []
        while s:
            mm = re.match(r'(\d+)', s)
            if not mm:
                return None
            n = int(mm.group(1)); s = s[mm.end():]
            out.append(s[:n]); s = s[n:]
        return '::'.join(out)

    @staticmethod
    def _access(ed, d):
        fl = ed.get('flags', '')
        if 'DIFlagPublic' in fl:
            return 'public'
        if 'DIFlagPrivate' in fl:
            return 'private'
        if 'DIFlagProtected' in fl:
            return 'protected'
        return 'private' if d.get('tag') == 'DW_TAG_class_type' else 'public'

    def _tyname(self, m, ref, depth=0):
        if ref is None or depth > 12 or ref == 'null':
            return 'void'
        k, d = m.mdfields(ref)
        if k in ('DIBasicType', 'DICompositeType'):
            return (d.get('name', '"?"')).strip('"')
        if k == 'DIDerivedType':
            t = d['tag']
            b = self._tyname(m, d.get('baseType'), depth + 1)
            if t == 'DW_TAG_const_type':
                return 'const ' + b
            if t == 'DW_TAG_reference_type':
                return b + ' &'
            if t == 'DW_TAG_rvalue_reference_type':
                return b + ' &&'
            if t == 'DW_TAG_pointer_type':
                return b + ' *'
            if t == 'DW_TAG_typedef':
                nm = d.get('name', '"?"').strip('"')
                if nm in ('size_type', 'value_type', 'string', 'ofstream', 'ifstream') or True:
                    return b if nm not in ('string',) else 'string'
            return b
        return '?'

    def _subtype(self, m, ref):
        k, d = m.mdfields(ref)
        if k != 'DISubroutineType':
            return []
        return [self._tyname(m, x) for x in m.mdlist(d['types'])]

    # ------------------------------------------------------------------ helpers
    def fields(self, cls):
        return self.classes[cls].fields

    def methods_named(self, cls, base):
        return [f for f in self.functions.values() if self.name(f.name).qual == 'fisx::%s::%s' % (cls, base)]

    def fn_label(self, f):
        n = self.name(f.name)
        return n.qual + ('' if not n.params else '/%d' % len(n.params))

    def sig(self, f):
        n = self.name(f.name)
        s = n.dem.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'string')
        s = s.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'string')
        s = re.sub(r', std::less<[^<>]*>, std::allocator<std::pair<[^<>]*(<[^<>]*>)?[^<>]*>\s*>', '', s)
        s = re.sub(r', std::allocator<[^<>]*>', '', s).replace('fisx::', '')
        return s


def _load_module(p):
    return Module(p, [SRC + '/'])
