"""Textual LLVM IR (clang 18, opaque pointers) -> Python objects.  Functions are parsed on demand."""
import re, subprocess

class IRError(Exception):
    pass

TOK = re.compile(r'''\s+|;[^\n]*|(?P<s>c?"(?:[^"\\]|\\.)*")|(?P<id>[%@](?:"(?:[^"\\]|\\.)*"|[\w.$-]+))'''
                 r'''|(?P<meta>![\w.]*)|(?P<attr>\#\d+)|(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[HKLMR]?[0-9A-Fa-f]+|-?\d+)'''
                 r'''|(?P<w>[A-Za-z_$.][\w.$]*)|(?P<p>\.\.\.|[\[\]{}()<>=,*:|])''')

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise IRError('tokenize: ' + s[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    return out

# ---- types -----------------------------------------------------------------------------------------
# ('i',n) ('ptr',) ('double',) ('float',) ('void',) ('struct',(types),packed) ('named',name) ('array',n,t) ('label',) ('meta',)

def unq(x):
    x = x[1:]
    if x.startswith('"'):
        x = x[1:-1]
    return x

def decode_c(s):
    # c"..\0A.."
    b = bytearray()
    body = s[2:-1]
    i = 0
    while i < len(body):
        if body[i] == '\\':
            if body[i + 1] == '\\':
                b.append(92); i += 2
            else:
                b.append(int(body[i + 1:i + 3], 16)); i += 3
        else:
            b.append(ord(body[i])); i += 1
    return bytes(b)

PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'readonly', 'writeonly',
               'readnone', 'returned', 'immarg', 'nofree', 'noreturn', 'swiftself', 'nest', 'writable', 'dead_on_unwind',
               'allocptr', 'allocalign'}
FN_PRE = {'dso_local', 'internal', 'linkonce_odr', 'weak_odr', 'private', 'external', 'available_externally', 'weak',
          'hidden', 'default', 'protected', 'local_unnamed_addr', 'unnamed_addr', 'constant', 'global', 'fastcc', 'ccc',
          'tail', 'musttail', 'notail', 'common', 'linkonce', 'appending', 'extern_weak', 'thread_local', 'dllimport',
          'externally_initialized'}

class P:
    """Token cursor."""
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] in ('w', 'p'):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise IRError('expected %s at %r' % (v, self.t[self.i:self.i + 8]))

    def type(self):
        k, v = self.next()
        if k == 'w':
            if re.fullmatch(r'i\d+', v):
                t = ('i', int(v[1:]))
            elif v == 'ptr':
                t = ('ptr',)
            elif v in ('double', 'float', 'void', 'label', 'half', 'x86_fp80', 'fp128'):
                t = (v,)
            elif v == 'metadata':
                t = ('meta',)
            elif v == 'opaque':
                t = ('opaque',)
            else:
                raise IRError('type? ' + v)
        elif k == 'id' and v[0] == '%':
            t = ('named', unq(v))
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('array', n, e)
        elif v == '{':
            t = self._struct(False)
        elif v == '<':
            if self.accept('{'):
                t = self._struct(True)
                self.expect('>')
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        else:
            raise IRError('type? %r' % (self.t[self.i - 1:self.i + 6],))
        # function type  T (args)
        if self.peek()[1] == '(' and self.peek()[0] == 'p' and t[0] != 'meta':
            # only a function type when used before @callee for varargs
            depth = 0
            save = self.i
            while True:
                k, v = self.next()
                if v == '(' and k == 'p': depth += 1
                if v == ')' and k == 'p':
                    depth -= 1
                    if depth == 0: break
                if k == 'eof':
                    self.i = save
                    break
            t = ('fn', t)
        return t

    def _struct(self, packed):
        fs = []
        if not self.accept('}'):
            while True:
                fs.append(self.type())
                if self.accept('}'):
                    break
                self.expect(',')
        return ('struct', tuple(fs), packed)

    def attrs(self):
        """skip parameter attributes; return dict of interesting ones"""
        a = {}
        while True:
            k, v = self.peek()
            if k == 'w' and v in PARAM_ATTRS:
                self.i += 1
            elif k == 'w' and v in ('align',):
                self.i += 1
                if self.accept('('):
                    self.next(); self.expect(')')
                else:
                    self.next()
            elif k == 'w' and v in ('dereferenceable', 'dereferenceable_or_null', 'memory', 'allocsize', 'nofpclass', 'range', 'captures', 'initializes'):
                self.i += 1
                self._parens()
            elif k == 'w' and v in ('byval', 'sret', 'inalloca', 'byref', 'elementtype', 'preallocated'):
                self.i += 1
                self.expect('(')
                a[v] = self.type()
                self.expect(')')
            elif k == 'attr':
                self.i += 1
            elif k == 's':
                self.i += 1
                if self.accept('='): self.next()
            else:
                return a

    def _parens(self):
        self.expect('(')
        d = 1
        while d:
            k, v = self.next()
            if k == 'p' and v == '(': d += 1
            if k == 'p' and v == ')': d -= 1

    def value(self, ty):
        """value of a given type -> operand tuple"""
        k, v = self.next()
        if k == 'id':
            if v[0] == '%':
                return ('l', unq(v))
            return ('g', unq(v))
        if k == 'num':
            if ty[0] in ('double', 'float'):
                return ('fp', v, ty[0])
            return ('c', int(v, 0))
        if k == 'w':
            if v == 'true': return ('c', 1)
            if v == 'false': return ('c', 0)
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef', ty)
            if v == 'zeroinitializer': return ('zero', ty)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    w = self.next()[1]
                    if w == 'inrange': self._parens()
                self.expect('(')
                bt = self.type()
                self.expect(',')
                self.type()
                base = self.value(('ptr',))
                idx = []
                while self.accept(','):
                    if self.peek()[1] == 'inrange':
                        self.next()
                        if self.peek()[1] == '(': self._parens()
                    it = self.type()
                    idx.append((it, self.value(it)))
                self.expect(')')
                return ('cgep', bt, base, idx)
            if v in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc', 'sub', 'add'):
                self._parens()
                return ('unsup', v)
            if v in ('blockaddress', 'dso_local_equivalent', 'no_cfi'):
                return ('unsup', v)
        if k == 's' and v.startswith('c"'):
            return ('cstr', decode_c(v))
        if v == '{' or v == '[':
            close = '}' if v == '{' else ']'
            items = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    items.append((t, self.value(t)))
                    if self.accept(close): break
                    self.expect(',')
            return ('agg', items)
        if v == '<' and self.accept('{'):
            items = []
            if not self.accept('}'):
                while True:
                    t = self.type()
                    items.append((t, self.value(t)))
                    if self.accept('}'): break
                    self.expect(',')
            self.expect('>')
            return ('agg', items)
        raise IRError('value? %r' % (self.t[self.i - 1:self.i + 6],))


class Instr:
    __slots__ = ('op', 'dst', 'a', 'dbg')
    def __init__(self, op, dst, a, dbg=None):
        self.op, self.dst, self.a, self.dbg = op, dst, a, dbg
    def __repr__(self):
        return '%s=%s%r' % (self.dst, self.op, self.a)


class Func:
    def __init__(self, mod, name, header, body, linkage):
        self.mod, self.name, self.header, self.body_text, self.linkage = mod, name, header, body, linkage
        self._parsed = False

    @property
    def dem(self):
        return self.mod.dem(self.name)

    def parse(self):
        if self._parsed:
            return self
        p = P(tokenize(self.header), self.mod)
        # find  @name (
        while not (p.peek()[0] == 'id' and p.peek()[1][0] == '@'):
            p.i += 1
        p.next()
        self.params = self.parse_params(p)
        rt = P(tokenize(self.header), self.mod)
        rt.next()
        while True:
            k, v = rt.peek()
            if k == 'w' and v in FN_PRE: rt.i += 1
            elif k == 'w' and v == 'comdat': rt.i += 1
            else:
                i0 = rt.i
                rt.attrs()
                if rt.i == i0: break
        # avoid swallowing '(' of params as function type
        save = rt.t
        j = next(i for i, t in enumerate(save) if t[0] == 'id' and t[1][0] == '@')
        rt.t = save[:j]
        self.ret = rt.type()
        self.blocks = {}
        self.order = []
        cur = None
        lines = self.body_text.split('\n')
        i = 0
        # entry label: number = count of unnamed params
        while i < len(lines):
            ln = lines[i]
            s = ln.strip()
            i += 1
            if not s or s.startswith(';') or s.startswith('#dbg'):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[\w.$-]+):(\s*;.*)?$', ln)
            if m:
                nm = m.group(1)
                if nm.startswith('"'): nm = nm[1:-1]
                cur = nm
                self.blocks[cur] = []
                self.order.append(cur)
                continue
            if cur is None:
                cur = str(len(self.params))
                self.blocks[cur] = []
                self.order.append(cur)
            if s.startswith('switch') or ' = landingpad' in s:
                while not s.rstrip().split(', !')[0].endswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
            elif re.search(r'\binvoke\b', s):
                s += ' ' + lines[i].strip(); i += 1
            self.blocks[cur].append(self.instr(s))
        self.entry = self.order[0]
        self.preds = {b: [] for b in self.order}
        self.succs = {}
        for b in self.order:
            t = self.blocks[b][-1]
            if t.op == 'br': ss = [t.a[0]]
            elif t.op == 'condbr': ss = [t.a[1], t.a[2]]
            elif t.op == 'switch': ss = [t.a[2]] + [l for _, l in t.a[3]]
            else: ss = []
            self.succs[b] = ss
            for x in ss:
                if b not in self.preds[x]: self.preds[x].append(b)
        self.find_loops()
        self._parsed = True
        return self

    def parse_params(self, p):
        p.expect('(')
        out = []
        if p.accept(')'):
            return out
        n = 0
        while True:
            if p.accept('...'):
                p.expect(')')
                break
            t = p.type()
            a = p.attrs()
            k, v = p.peek()
            nm = str(n)
            if k == 'id':
                p.next()
                nm = unq(v)
            out.append((t, nm, a))
            n += 1
            if p.accept(')'): break
            p.expect(',')
        return out

    def instr(self, s):
        dbg = None
        m = re.search(r', !dbg !(\d+)', s)
        if m:
            dbg = m.group(1)
        s = re.sub(r'(, ![\w.]+ !\d+)+\s*$', '', s)
        p = P(tokenize(s), self.mod)
        dst = None
        if p.peek()[0] == 'id' and p.peek(1)[1] == '=':
            dst = unq(p.next()[1])
            p.next()
        k, op = p.next()
        a = None
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]
        if op == 'call':
            while True:
                k, v = p.peek()
                if k == 'w' and (v in FN_PRE or v in ('fast', 'nnan', 'ninf', 'nsz', 'contract', 'reassoc')): p.i += 1
                else:
                    i0 = p.i
                    p.attrs()
                    if p.i == i0: break
            rt = p.type()
            if rt[0] == 'fn': rt = rt[1]
            k, v = p.next()
            if k == 'w' and v == 'asm':
                return Instr('unsup', dst, 'inline asm', dbg)
            callee = ('g', unq(v)) if v[0] == '@' else ('l', unq(v))
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    t = p.type()
                    if t[0] == 'meta':
                        # skip metadata argument
                        d = 0
                        while True:
                            k, v = p.peek()
                            if k == 'eof' or (d == 0 and v in (',', ')') and k == 'p'): break
                            if v == '(' : d += 1
                            if v == ')' : d -= 1
                            p.i += 1
                        args.append((t, ('undef', t), {}))
                    else:
                        at = p.attrs()
                        args.append((t, p.value(t), at))
                    if p.accept(')'): break
                    p.expect(',')
            return Instr('call', dst, (rt, callee, args), dbg)
        if op == 'ret':
            if p.accept('void'): return Instr('ret', None, None, dbg)
            t = p.type()
            return Instr('ret', None, (t, p.value(t)), dbg)
        if op == 'br':
            if p.accept('label'):
                return Instr('br', None, (unq(p.next()[1]),), dbg)
            t = p.type()
            c = p.value(t)
            p.expect(','); p.expect('label'); x = unq(p.next()[1])
            p.expect(','); p.expect('label'); y = unq(p.next()[1])
            return Instr('condbr', None, (c, x, y), dbg)
        if op == 'switch':
            t = p.type(); v = p.value(t)
            p.expect(','); p.expect('label'); d = unq(p.next()[1])
            p.expect('[')
            cs = []
            while not p.accept(']'):
                tt = p.type(); c = p.value(tt)
                p.expect(','); p.expect('label')
                cs.append((c[1], unq(p.next()[1])))
            return Instr('switch', None, (t, v, d, cs), dbg)
        if op == 'unreachable':
            return Instr('unreachable', None, None, dbg)
        if op == 'alloca':
            t = p.type()
            n = None
            while p.accept(','):
                if p.accept('align'): p.next()
                else:
                    nt = p.type(); n = p.value(nt)
            return Instr('alloca', dst, (t, n), dbg)
        if op == 'load':
            p.accept('volatile')
            if p.accept('atomic'): pass
            t = p.type(); p.expect(','); p.type(); v = p.value(('ptr',))
            return Instr('load', dst, (t, v), dbg)
        if op == 'store':
            p.accept('volatile'); p.accept('atomic')
            t = p.type(); v = p.value(t); p.expect(','); p.type(); d = p.value(('ptr',))
            return Instr('store', None, (t, v, d), dbg)
        if op == 'getelementptr':
            while p.peek()[1] in ('inbounds', 'nuw', 'nusw'): p.next()
            bt = p.type(); p.expect(','); p.type(); b = p.value(('ptr',))
            idx = []
            while p.accept(','):
                it = p.type(); idx.append((it, p.value(it)))
            return Instr('gep', dst, (bt, b, idx), dbg)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'contract'):
                fl.add(p.next()[1])
            t = p.type(); x = p.value(t); p.expect(','); y = p.value(t)
            return Instr('bin', dst, (op, t, x, y, fl), dbg)
        if op == 'fneg':
            t = p.type(); return Instr('fneg', dst, (t, p.value(t)), dbg)
        if op in ('icmp', 'fcmp'):
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'contract', 'samesign'): p.next()
            pr = p.next()[1]
            t = p.type(); x = p.value(t); p.expect(','); y = p.value(t)
            return Instr(op, dst, (pr, t, x, y), dbg)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
                  'fpext', 'fptrunc'):
            while p.peek()[1] in ('nneg', 'nuw', 'nsw'): p.next()
            t = p.type(); v = p.value(t); p.expect('to'); t2 = p.type()
            return Instr('cast', dst, (op, t, v, t2), dbg)
        if op == 'phi':
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t); p.expect(',')
                l = unq(p.next()[1]); p.expect(']')
                inc.append((v, l))
                if not p.accept(','): break
            return Instr('phi', dst, (t, inc), dbg)
        if op == 'select':
            t = p.type(); c = p.value(t); p.expect(',')
            t1 = p.type(); x = p.value(t1); p.expect(',')
            t2 = p.type(); y = p.value(t2)
            return Instr('select', dst, (c, t1, x, y), dbg)
        if op == 'extractvalue':
            t = p.type(); v = p.value(t)
            ix = []
            while p.accept(','): ix.append(int(p.next()[1]))
            return Instr('extractvalue', dst, (t, v, ix), dbg)
        if op == 'insertvalue':
            t = p.type(); v = p.value(t); p.expect(',')
            t2 = p.type(); w = p.value(t2)
            ix = []
            while p.accept(','): ix.append(int(p.next()[1]))
            return Instr('insertvalue', dst, (t, v, w, ix), dbg)
        if op == 'freeze':
            t = p.type(); return Instr('freeze', dst, (t, p.value(t)), dbg)
        return Instr('unsup', dst, s[:120], dbg)

    # ---- natural loops (reducible CFGs) ------------------------------------------------------------
    def find_loops(self):
        # dominators
        order = []
        seen = set()
        def dfs(b):
            st = [(b, iter(self.succs[b]))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter(self.succs[y])))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(self.entry)
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        dom = {self.entry: {self.entry}}
        allb = set(rpo)
        for b in rpo[1:]: dom[b] = set(allb)
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [dom[p] for p in self.preds[b] if p in idx]
                n = set.intersection(*ps) | {b} if ps else {b}
                if n != dom[b]:
                    dom[b] = n; ch = True
        self.loops = {}
        for b in rpo:
            for s in self.succs[b]:
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x)
                        st.extend(p for p in self.preds[x] if p in idx)
                elif idx[s] <= idx[b]:
                    raise IRError('irreducible control flow in ' + self.name)
        self.rpo_index = idx


class Module:
    def __init__(self, text, name=''):
        self.name = name
        self.types = {}
        self.funcs = {}
        self.decls = set()
        self.globals = {}
        self.dbglines = {}
        self._dem = {}
        self._layout = {}
        for m in re.finditer(r'^(%(?:"[^"\n]*"|[\w.$-]+)) = type (.*)$', text, re.M):
            self.types[unq(m.group(1))] = m.group(2)
        for m in re.finditer(r'^@("[^"\n]*"|[\w.$-]+) = (.*)$', text, re.M):
            self.globals[unq('@' + m.group(1))] = m.group(2)
        for m in re.finditer(r'^declare [^\n]*?@("[^"\n]*"|[\w.$-]+)\(', text, re.M):
            self.decls.add(unq('@' + m.group(1)))
        for m in re.finditer(r'^(define [^\n]*?@("[^"\n]*"|[\w.$-]+)\([^\n]*)\{[^\n]*\n(.*?)^\}', text, re.M | re.S):
            nm = unq('@' + m.group(2))
            hdr = m.group(1)
            link = 'linkonce' if 'linkonce' in hdr or 'weak' in hdr else ('internal' if ' internal ' in hdr else 'external')
            self.funcs[nm] = Func(self, nm, hdr, m.group(3), link)
        for m in re.finditer(r'^!(\d+) = (?:distinct )?!DILocation\(line: (\d+)(?:, column: \d+)?, scope: !(\d+)', text, re.M):
            self.dbglines[m.group(1)] = int(m.group(2))
        self._names()

    def _names(self):
        names = sorted(set(self.funcs) | self.decls)
        out = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), text=True, capture_output=True, check=True).stdout.split('\n')
        for n, d in zip(names, out):
            self._dem[n] = normalise(d)

    def dem(self, name):
        return self._dem.get(name, name)

    def resolve(self, t):
        while t[0] == 'named':
            txt = self.types.get(t[1])
            if txt is None:
                raise IRError('unknown type ' + t[1])
            key = ('R', t[1])
            if key not in self._layout:
                self._layout[key] = P(tokenize(txt), self).type()
            t = self._layout[key]
        return t

    def sizealign(self, t):
        if t in self._layout: return self._layout[t]
        r = self.resolve(t)
        k = r[0]
        if k == 'i':
            n = max(1, (r[1] + 7) // 8)
            a = 1
            while a < n and a < 16: a *= 2
            res = ((n + a - 1) // a * a, a)
        elif k == 'ptr': res = (8, 8)
        elif k == 'double': res = (8, 8)
        elif k == 'float': res = (4, 4)
        elif k == 'x86_fp80' or k == 'fp128': res = (16, 16)
        elif k == 'array':
            s, a = self.sizealign(r[2])
            res = (s * r[1], a)
        elif k == 'struct':
            off, al = 0, 1
            for f in r[1]:
                s, a = self.sizealign(f)
                if r[2]: a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            res = ((off + al - 1) // al * al, al)
        elif k == 'opaque':
            res = (0, 1)
        else:
            raise IRError('size of %r' % (r,))
        self._layout[t] = res
        return res

    def field(self, r, i):
        off = 0
        for j, f in enumerate(r[1]):
            s, a = self.sizealign(f)
            if r[2]: a = 1
            off = (off + a - 1) // a * a
            if j == i: return off, f
            off += s
        raise IRError('field')

    def global_init(self, name):
        """(type, value) of a global with an initializer or None"""
        txt = self.globals.get(name)
        if txt is None: return None
        p = P(tokenize(re.sub(r'(, !dbg !\d+|, align \d+|, comdat.*|, section "[^"]*")+\s*$', '', txt)), self)
        const = False
        while p.peek()[0] == 'w' and p.peek()[1] in FN_PRE:
            w = p.next()[1]
            if w == 'constant': const = True
            if w == 'external': return None
        try:
            t = p.type()
            v = p.value(t)
        except IRError:
            return None
        return t, v, const


def normalise(d):
    d = d.replace('std::__cxx11::', 'std::').replace('absl::debian3::', 'absl::').replace('google::protobuf::stringpiece_internal::', 'google::protobuf::')
    d = d.replace('std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string')
    d = d.replace('std::basic_string_view<char, std::char_traits<char>>', 'std::string_view')
    d = re.sub(r', std::allocator<std::string>', '', d)
    # drop allocator arguments of vectors and sets
    prev = None
    while prev != d:
        prev = d
        d = re.sub(r'std::vector<([^<>]*(?:<[^<>]*(?:<[^<>]*(?:<[^<>]*>[^<>]*)*>[^<>]*)*>[^<>]*)*), std::allocator<\1>>', r'std::vector<\1>', d)
    d = d.replace('std::set<std::string, std::less<std::string>>', 'std::set<std::string>')
    d = d.replace(', std::default_delete<google::jwt_verify::Jwks::Pubkey>', '').replace(', std::default_delete<google::jwt_verify::Jwks>', '')
    d = d.replace(', bssl::internal::Deleter>', '>')
    d = d.replace('google::jwt_verify::', '').replace('google::protobuf::', 'pb::')
    return d
