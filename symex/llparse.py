"""Parser for the subset of textual LLVM 18 IR that clang emits for this repository.

Function bodies are parsed lazily.  An unknown construct raises ParseError: the
caller turns it into an inconclusive (error) result, never into a pass.
"""
import re
from fractions import Fraction  # noqa: F401  (re-exported for users)


class ParseError(Exception):
    pass


TOK = re.compile(r'''
    (?P<ws>[ \t]+)
  | (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
  | (?P<str>"(?:[^"\\]|\\.)*")
  | (?P<glob>@(?:[-\w.$]+|"[^"]*"))
  | (?P<loc>%(?:[-\w.$]+|"[^"]*"))
  | (?P<meta>!(?:[-\w.]+)?(?:\([^)]*\))?)
  | (?P<attr>\#\d+)
  | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
  | (?P<flt>[-+]?\d+\.\d*(?:[eE][-+]?\d+)?)
  | (?P<int>-?\d+)
  | (?P<dots>\.\.\.)
  | (?P<word>[A-Za-z_$][-\w.$]*)
  | (?P<punct>[][(){}<>,=*|:^])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            raise ParseError(f'cannot tokenize at {s[pos:pos+40]!r} in {s[:120]!r}')
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
        pos = m.end()
    return out


PARAM_ATTRS = {
    'noundef', 'nocapture', 'readonly', 'readnone', 'writeonly', 'nonnull', 'noalias',
    'returned', 'signext', 'zeroext', 'inreg', 'immarg', 'nofree', 'nest', 'swiftself',
    'noext', 'writable', 'dead_on_unwind', 'allocptr', 'allocalign', 'nofpclass', 'initializes',
}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval',
                   'elementtype', 'nofpclass', 'range', 'memory', 'allocsize', 'captures'}
FN_PREFIX = {'private', 'internal', 'external', 'linkonce', 'linkonce_odr', 'weak', 'weak_odr',
             'common', 'appending', 'extern_weak', 'available_externally', 'dso_local',
             'dso_preemptable', 'hidden', 'protected', 'default', 'unnamed_addr',
             'local_unnamed_addr', 'fastcc', 'ccc', 'coldcc', 'thread_local',
             'noundef', 'externally_initialized'} | PARAM_ATTRS
FMF = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}
INTFLAGS = {'nsw', 'nuw', 'exact', 'disjoint', 'nneg', 'samesign'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
         'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and',
          'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}


class P:
    """Token cursor."""

    def __init__(self, toks, mod, src=''):
        self.t = toks
        self.i = 0
        self.mod = mod
        self.src = src

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise ParseError('unexpected end of ' + self.src)
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v and self.kind() != 'str':
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise ParseError(f'expected {v!r}, got {self.peek()!r} in {self.src[:200]!r}')

    # ---- types
    def type(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'word':
            if v == 'ptr' or v == 'void' or v in ('float', 'double', 'half', 'x86_fp80', 'fp128',
                                                  'bfloat', 'label', 'metadata', 'token'):
                t = v
                if v == 'ptr' and self.peek() == 'addrspace':
                    self.next(); self.expect('('); self.next(); self.expect(')')
            elif re.fullmatch(r'i\d+', v):
                t = v
            elif v == 'opaque':
                t = ('struct', (), False)
            else:
                raise ParseError(f'type? {v} in {self.src[:200]!r}')
        elif k == 'loc':
            t = ('named', v)
        elif v == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            t = ('arr', n, e)
        elif v == '{':
            es = []
            if not self.accept('}'):
                es.append(self.type())
                while self.accept(','):
                    es.append(self.type())
                self.expect('}')
            t = ('struct', tuple(es), False)
        elif v == '<':
            if self.accept('{'):
                es = []
                if not self.accept('}'):
                    es.append(self.type())
                    while self.accept(','):
                        es.append(self.type())
                    self.expect('}')
                self.expect('>')
                t = ('struct', tuple(es), True)
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                t = ('vec', n, e)
        else:
            raise ParseError(f'type? {v} in {self.src[:200]!r}')
        while True:
            if self.peek() == '(' and self.kind() == 'punct':
                # function type
                j = self.i
                try:
                    self.next()
                    while not self.accept(')'):
                        if self.accept('...'):
                            continue
                        if self.accept(','):
                            continue
                        self.type()
                    t = ('fn', t)
                except ParseError:
                    self.i = j
                    break
            elif self.accept('*'):
                t = 'ptr'
            else:
                break
        return t

    def skip_param_attrs(self):
        al = None
        while True:
            v = self.peek()
            if self.kind() == 'word' and v in PARAM_ATTRS_ARG:
                self.next()
                if self.accept('('):
                    d = 1
                    while d:
                        x = self.next()
                        d += (x == '(') - (x == ')')
                elif v == 'align':
                    self.next()
                continue
            if self.kind() == 'word' and v in PARAM_ATTRS:
                self.next()
                continue
            if self.kind() in ('attr',) or (self.kind() == 'str'):
                self.next()
                if self.accept('='):
                    self.next()
                continue
            return al

    # ---- values.  Returned as tuples: ('loc',name) ('glob',name) ('int',v) ('fp',text)
    # ('null',) ('undef',) ('zero',) ('agg',[(ty,v)]) ('bytes',b) ('gep',...) ('cast',op,..)
    def value(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'loc':
            return ('loc', v)
        if k == 'glob':
            return ('glob', v[1:].strip('"'))
        if k == 'int':
            return ('int', int(v))
        if k in ('flt', 'hex'):
            return ('fp', v)
        if k == 'cstr':
            return ('bytes', _cstr(v))
        if k == 'word':
            if v == 'true':
                return ('int', 1)
            if v == 'false':
                return ('int', 0)
            if v in ('null', 'none'):
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'getelementptr':
                while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    self.next()
                    if self.peek() == '(' and self.peek(1) and self.kind(1) == 'int':
                        pass
                self.expect('(')
                bt = self.type(); self.expect(',')
                pt = self.type(); pv = self.value(pt)
                idx = []
                while self.accept(','):
                    self.accept('inrange')
                    it = self.type(); idx.append((it, self.value(it)))
                self.expect(')')
                return ('gep', bt, (pt, pv), idx)
            if v in CASTS:
                self.expect('(')
                t1 = self.type(); x = self.value(t1); self.expect('to'); t2 = self.type()
                self.expect(')')
                return ('cast', v, t1, x, t2)
            if v in BINOPS or v in ('icmp',):
                while self.peek() in INTFLAGS:
                    self.next()
                self.expect('(')
                t1 = self.type(); a = self.value(t1); self.expect(',')
                t2 = self.type(); b = self.value(t2); self.expect(')')
                return ('cbin', v, t1, a, b)
            if v == 'dso_local_equivalent' or v == 'no_cfi':
                return self.value(ty)
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            packed = False
            if v == '<' and self.accept('{'):
                packed = True
                close = '}'
            out = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    out.append((t, self.value(t)))
                    if not self.accept(','):
                        break
                self.expect(close)
            if packed:
                self.expect('>')
            return ('agg', out)
        raise ParseError(f'value? {v} in {self.src[:200]!r}')

    def typed(self):
        t = self.type()
        self.skip_param_attrs()
        return t, self.value(t)


def _cstr(v):
    s = v[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


class Function:
    def __init__(self, mod, name, ret, params, lines, varargs=False):
        self.mod = mod
        self.name = name
        self.ret = ret
        self.params = params      # [(type, name)]
        self.lines = lines        # None for a declaration
        self._blocks = None
        self.varargs = varargs

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        blocks = {}
        order = []
        cur = None
        lines = self.lines
        entry = '%' + str(len([p for p in self.params if p[1][1:].isdigit()]))
        # the implicit entry label is the number after the (numbered) parameters
        i = 0
        pend = None
        for raw in lines:
            s = raw.strip()
            if not s or s.startswith(';'):
                continue
            if pend is not None:
                pend += ' ' + s
                if s.startswith(']'):
                    s = pend
                    pend = None
                else:
                    continue
            elif s.startswith('switch ') and s.endswith('['):
                pend = s
                continue
            m = re.match(r'^(?:([-\w.$]+)|"([^"]*)"):', s)
            if m and not raw.startswith('  '):
                cur = '%' + (m.group(1) if m.group(1) is not None else '"' + m.group(2) + '"')
                blocks[cur] = []
                order.append(cur)
                continue
            if cur is None:
                cur = entry
                blocks[cur] = []
                order.append(cur)
            # continuation of invoke / landingpad
            if s.startswith('to label') or s.startswith('catch ') or s.startswith('filter ') or s == 'cleanup':
                blocks[cur][-1] += ' ' + s
                continue
            blocks[cur].append(s)
            i += 1
        out = {}
        for b in order:
            out[b] = [parse_instr(x, self.mod) for x in blocks[b]]
        self._blocks = out
        self.order = order


def parse_instr(s, mod):
    p = P(tokenize(s), mod, s)
    dest = None
    if p.kind() == 'loc' and p.peek(1) == '=':
        dest = p.next()
        p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BINOPS:
        fl = []
        while p.peek() in INTFLAGS or p.peek() in FMF:
            fl.append(p.next())
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return ('bin', dest, op, t, a, b, fl)
    if op == 'fneg':
        while p.peek() in FMF:
            p.next()
        t = p.type()
        return ('fneg', dest, t, p.value(t))
    if op in ('icmp', 'fcmp'):
        while p.peek() in FMF or p.peek() in INTFLAGS:
            p.next()
        pred = p.next()
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return (op, dest, pred, t, a, b)
    if op == 'select':
        while p.peek() in FMF:
            p.next()
        ct = p.type(); c = p.value(ct); p.expect(',')
        t = p.type(); a = p.value(t); p.expect(',')
        t2 = p.type(); b = p.value(t2)
        return ('select', dest, ct, c, t, a, b)
    if op == 'phi':
        while p.peek() in FMF:
            p.next()
        t = p.type()
        inc = []
        while p.accept('['):
            v = p.value(t); p.expect(','); l = p.next(); p.expect(']')
            inc.append((v, l))
            if not p.accept(','):
                break
        return ('phi', dest, t, inc)
    if op == 'br':
        if p.accept('label'):
            return ('br', None, None, p.next(), None)
        t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); a = p.next()
        p.expect(','); p.expect('label'); b = p.next()
        return ('br', None, c, a, b)
    if op == 'switch':
        t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next()
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label')
            cases.append((cv[1], p.next()))
        return ('switch', None, t, v, d, cases)
    if op == 'ret':
        t = p.type()
        return ('ret', None, t, None if t == 'void' else p.value(t))
    if op == 'load':
        p.accept('volatile'); p.accept('atomic')
        t = p.type(); p.expect(','); pt = p.type(); v = p.value(pt)
        return ('load', dest, t, v)
    if op == 'store':
        p.accept('volatile'); p.accept('atomic')
        t = p.type(); v = p.value(t); p.expect(','); pt = p.type(); a = p.value(pt)
        return ('store', None, t, v, a)
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        bt = p.type(); p.expect(',')
        pt = p.type(); pv = p.value(pt)
        idx = []
        while p.accept(','):
            if p.kind() == 'meta':
                break
            it = p.type(); idx.append((it, p.value(it)))
        return ('gep', dest, bt, pv, idx)
    if op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        n = ('int', 1)
        if p.peek() == ',' and p.peek(1) != 'align' and p.kind(1) != 'meta':
            p.next()
            nt = p.type(); n = p.value(nt)
        return ('alloca', dest, t, n)
    if op in CASTS:
        while p.peek() in INTFLAGS or p.peek() in FMF:
            p.next()
        t1 = p.type(); v = p.value(t1); p.expect('to'); t2 = p.type()
        return ('cast', dest, op, t1, v, t2)
    if op in ('call', 'invoke'):
        while p.peek() in FMF:
            p.next()
        while p.kind() == 'word' and (p.peek() in FN_PREFIX or p.peek() in PARAM_ATTRS_ARG):
            if p.peek() in PARAM_ATTRS_ARG:
                p.skip_param_attrs()
            else:
                p.next()
        rt = p.type()
        if isinstance(rt, tuple) and rt[0] == 'fn':
            rt = rt[1]
        if p.peek() == 'asm':
            return ('unsupported', dest, s)
        callee = p.value('ptr')
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                t = p.type()
                p.skip_param_attrs()
                if t == 'metadata':
                    return ('nop', dest)
                args.append((t, p.value(t)))
                if not p.accept(','):
                    break
            p.expect(')')
        if op == 'invoke':
            while p.kind() in ('attr', 'meta'):
                p.next()
            p.expect('to'); p.expect('label'); n = p.next(); p.expect('unwind'); p.expect('label')
            u = p.next()
            return ('invoke', dest, rt, callee, args, n, u)
        return ('call', dest, rt, callee, args)
    if op == 'unreachable':
        return ('unreachable', None)
    if op == 'freeze':
        t = p.type()
        return ('freeze', dest, t, p.value(t))
    if op == 'extractvalue':
        t = p.type(); v = p.value(t)
        idx = []
        while p.accept(','):
            if p.kind() == 'meta':
                break
            idx.append(int(p.next()))
        return ('extractvalue', dest, t, v, idx)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.expect(',')
        t2 = p.type(); e = p.value(t2)
        idx = []
        while p.accept(','):
            if p.kind() == 'meta':
                break
            idx.append(int(p.next()))
        return ('insertvalue', dest, t, v, t2, e, idx)
    if op == 'extractelement':
        t = p.type(); v = p.value(t); p.expect(','); it = p.type(); i = p.value(it)
        return ('extractelement', dest, t, v, it, i)
    if op == 'insertelement':
        t = p.type(); v = p.value(t); p.expect(','); et = p.type(); e = p.value(et)
        p.expect(','); it = p.type(); i = p.value(it)
        return ('insertelement', dest, t, v, et, e, it, i)
    if op == 'shufflevector':
        t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); b = p.value(t2)
        p.expect(','); mt = p.type(); m = p.value(mt)
        return ('shufflevector', dest, t, a, b, mt, m)
    if op in ('landingpad', 'resume', 'fence', 'va_arg', 'indirectbr', 'atomicrmw', 'cmpxchg'):
        return ('unsupported', dest, s)
    raise ParseError('instruction? ' + s)


class Module:
    """One or more .ll files, merged by symbol name (strong definitions must be unique)."""

    def __init__(self):
        self.types = {}
        self.functions = {}
        self.globals = {}      # name -> (type, init value or None, constant)

    def load(self, text, tag=''):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        local = {}

        def gname(v):
            return v[1:].strip('"')
        # First pass: find names that are file-local (internal/private) to rename if clashing.
        while i < n:
            s = lines[i]
            i += 1
            if not s or s[0] in ';!' or s.startswith(('source_filename', 'target ', 'attributes ')):
                continue
            if s[0] == '%':
                m = re.match(r'^(%(?:[-\w.$]+|"[^"]*")) = type (.*)$', s)
                p = P(tokenize(m.group(2)), self, s)
                self.types[m.group(1)] = p.type()
                continue
            if s[0] == '$':
                continue
            if s[0] == '@':
                self._global(s)
                continue
            if s.startswith('declare '):
                f = self._header(s[8:], None)
                if f.name not in self.functions:
                    self.functions[f.name] = f
                continue
            if s.startswith('define '):
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                f = self._header(s[7:], body)
                old = self.functions.get(f.name)
                if old is not None and old.lines is not None and old.lines != f.lines:
                    if not s.startswith(('define internal', 'define linkonce', 'define weak')):
                        raise ParseError('duplicate definition of ' + f.name)
                    raise ParseError('clash of local definitions of ' + f.name)
                self.functions[f.name] = f
                continue
            raise ParseError('top level: ' + s[:100])
        return self

    def _global(self, s):
        p = P(tokenize(s), self, s[:200])
        name = p.next()[1:].strip('"')
        p.expect('=')
        ext = False
        while p.peek() not in ('global', 'constant', 'alias', 'ifunc'):
            w = p.next()
            if w in ('external', 'extern_weak'):
                ext = True
            if p.accept('('):
                while not p.accept(')'):
                    p.next()
        kw = p.next()
        if kw in ('alias', 'ifunc'):
            t = p.type(); p.expect(','); t2 = p.type(); v = p.value(t2)
            self.globals[name] = ('alias', v, True)
            return
        t = p.type()
        init = None
        if not ext:
            init = p.value(t)
        if name in self.globals and self.globals[name][1] is not None and init is None:
            return
        if name in self.globals and init is not None and self.globals[name][1] is not None \
                and self.globals[name][:2] != (t, init):
            raise ParseError('clash of global ' + name)
        self.globals[name] = (t, init, kw == 'constant')

    def _header(self, s, body):
        m = re.search(r'@(?:[-\w.$]+|"[^"]*")\(', s)
        head = s[:m.start()]
        name = m.group()[1:-1].strip('"')
        p = P(tokenize(head), self, s)
        while p.kind() == 'word' and (p.peek() in FN_PREFIX or p.peek() in PARAM_ATTRS_ARG):
            if p.peek() in PARAM_ATTRS_ARG:
                p.skip_param_attrs()
            else:
                p.next()
        rt = p.type()
        # parameters
        rest = s[m.end():]
        d = 1
        j = 0
        q = False
        while d:
            c = rest[j]
            if c == '"':
                q = not q
            elif not q:
                d += (c == '(') - (c == ')')
            j += 1
        p = P(tokenize(rest[:j - 1]), self, s)
        params = []
        va = False
        k = 0
        while p.peek() is not None:
            if p.accept('...'):
                va = True
                break
            t = p.type()
            p.skip_param_attrs()
            if p.kind() == 'loc':
                params.append((t, p.next()))
            else:
                params.append((t, '%' + str(k)))
            k += 1
            if not p.accept(','):
                break
        return Function(self, name, rt, params, body, va)

    # ---- layout
    def resolve(self, t):
        while isinstance(t, tuple) and t[0] == 'named':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        if isinstance(t, str):
            if t == 'ptr' or t in ('double', 'i64'):
                return 8
            if t in ('float', 'i32'):
                return 4
            if t in ('half', 'i16'):
                return 2
            if t in ('i8', 'i1'):
                return 1
            if t in ('x86_fp80', 'i128', 'fp128'):
                return 16
            b = (int(t[1:]) + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return min(a, 8)
        if t[0] == 'arr':
            return self.align(t[2])
        if t[0] == 'vec':
            s = t[1] * self.store_size(t[2])
            a = 1
            while a < s:
                a *= 2
            return a
        if t[0] == 'struct':
            if t[2]:
                return 1
            return max([self.align(e) for e in t[1]] or [1])
        raise ParseError(f'align {t}')

    def store_size(self, t):
        t = self.resolve(t)
        if isinstance(t, str):
            if t == 'ptr' or t == 'double':
                return 8
            if t == 'float':
                return 4
            if t == 'half':
                return 2
            if t == 'x86_fp80':
                return 10
            return (int(t[1:]) + 7) // 8
        return self.size(t)

    def size(self, t):
        """Allocation size in bytes."""
        t = self.resolve(t)
        if isinstance(t, str):
            s = self.store_size(t)
            a = self.align(t)
            return (s + a - 1) // a * a
        if t[0] == 'arr':
            return t[1] * self.size(t[2])
        if t[0] == 'vec':
            s = t[1] * self.store_size(t[2])
            a = self.align(t)
            return (s + a - 1) // a * a
        if t[0] == 'struct':
            off, _ = self.struct_layout(t)
            return off[-1]
        raise ParseError(f'size {t}')

    def struct_layout(self, t):
        """Offsets of the fields plus, last, the total size."""
        t = self.resolve(t)
        off = 0
        out = []
        for e in t[1]:
            a = 1 if t[2] else self.align(e)
            off = (off + a - 1) // a * a
            out.append(off)
            off += self.size(e)
        a = self.align(t)
        off = (off + a - 1) // a * a
        out.append(off)
        return out, t[1]
