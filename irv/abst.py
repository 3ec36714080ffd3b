"""Sound abstraction of queries with strings: strings become an uninterpreted sort, string operations uninterpreted
functions with a few facts each (lengths, literals distinct).  Unsatisfiable in the abstraction implies unsatisfiable."""
import z3
from .vals import Str, Int, Bool

U = z3.DeclareSort('Text')
FL = z3.DeclareSort('Float')
RM = z3.DeclareSort('Rm')
LEN = z3.Function('t_len', U, Int)
LITID = z3.Function('t_lit', U, Int)
CAT = z3.Function('t_cat', U, U, U)
SUBS = z3.Function('t_sub', U, Int, Int, U)
PRE = z3.Function('t_prefix', U, U, Bool)
SUF = z3.Function('t_suffix', U, U, Bool)
CONT = z3.Function('t_contains', U, U, Bool)
IDX = z3.Function('t_index', U, U, Int, Int)
LIDX = z3.Function('t_lastindex', U, U, Int)
TOC = z3.Function('t_tocode', U, Int)
FRC = z3.Function('t_fromcode', Int, U)
LT = z3.Function('t_lt', U, U, Bool)
LE = z3.Function('t_le', U, U, Bool)

class Abst:
    def __init__(self):
        self.cache = {}     # id -> (expr, abs, own facts)
        self.decls = {}
        self.lits = {}
        self.flist = {}
        self.keep = []
    def sort(self, s):
        if s == Str: return U
        if isinstance(s, z3.FPSortRef): return FL
        if isinstance(s, z3.FPRMSortRef): return RM
        if isinstance(s, z3.ArraySortRef): return z3.ArraySort(self.sort(s.domain()), self.sort(s.range()))
        return s
    def hasstr(self, s):
        return self.sort(s) != s
    def decl(self, d):
        k = d.get_id()
        r = self.decls.get(k)
        if r is None:
            ss = [d.domain(i) for i in range(d.arity())] + [d.range()]
            if any(self.hasstr(s) for s in ss): n = z3.Function('A.' + d.name(), *[self.sort(s) for s in ss]) if d.arity() else z3.Const('A.' + d.name(), self.sort(d.range()))
            else: n = d if d.arity() else d()
            self.decls[k] = r = (d, n)
        return r[1]
    def lit(self, s):
        r = self.lits.get(s)
        if r is None:
            r = self.lits[s] = z3.Const('t.lit%d' % len(self.lits), U)
        k = list(self.lits).index(s) if False else self.litno.setdefault(s, len(self.litno))
        return r, k
    litno = {}

    def of(self, e):
        """(abstract formula, facts)"""
        a = self.tr(e)
        k = e.get_id()
        f = self.flist.get(k)
        if f is None:
            seen, f = set(), []
            todo = [e]
            while todo:
                x = todo.pop()
                i = x.get_id()
                if i in seen: continue
                seen.add(i)
                c = self.cache.get(i)
                if c is not None: f += c[2]
                todo += x.children()
            self.flist[k] = f
        return a, f

    def tr(self, e):
        c = self.cache.get(e.get_id())
        if c is not None: return c[1]
        stack = [e]
        while stack:
            x = stack[-1]
            if x.get_id() in self.cache: stack.pop(); continue
            miss = [y for y in x.children() if y.get_id() not in self.cache]
            if miss and not z3.is_string_value(x): stack += miss; continue
            stack.pop()
            a, f = self.one(x)
            self.cache[x.get_id()] = (x, a, f)
        return self.cache[e.get_id()][1]

    def one(self, x):
        f = []
        if not z3.is_app(x): return x, f           # quantifiers are not used
        if z3.is_string_value(x):
            s = x.as_string()
            r, k = self.lit(s)
            f += [LITID(r) == k, LEN(r) == z3.simplify(z3.Length(x))]
            return r, f
        d = x.decl()
        kd = d.kind()
        ch = [self.cache[y.get_id()][1] for y in x.children()]
        if kd == z3.Z3_OP_UNINTERPRETED:
            n = self.decl(d)
            r = n(*ch) if d.arity() else n
        elif kd == z3.Z3_OP_SEQ_CONCAT:
            parts = ch
            r = self.cat(parts, f)
        elif kd == z3.Z3_OP_SEQ_LENGTH:
            r = LEN(ch[0])
        elif kd == z3.Z3_OP_SEQ_EXTRACT:
            t, o, n = ch
            r = SUBS(t, o, n)
            l = LEN(t)
            f.append(LEN(r) == z3.If(z3.And(o >= 0, o < l, n > 0), z3.If(n <= l - o, n, l - o), z3.IntVal(0)))
            f.append(z3.Implies(z3.And(o == 0, n >= l), r == t))
        elif kd == z3.Z3_OP_SEQ_AT:
            r = SUBS(ch[0], ch[1], z3.IntVal(1)); f += [z3.Implies(z3.And(ch[1] == 0, LEN(ch[0]) <= 1), r == ch[0]), LEN(r) <= 1, (LEN(r) == 1) == z3.And(ch[1] >= 0, ch[1] < LEN(ch[0]))]
        elif kd in (z3.Z3_OP_SEQ_PREFIX, z3.Z3_OP_SEQ_SUFFIX) and z3.is_string_value(x.arg(0)):
            p, t = ch
            n = z3.simplify(z3.Length(x.arg(0)))
            l = LEN(t)
            q = SUBS(t, z3.IntVal(0) if kd == z3.Z3_OP_SEQ_PREFIX else l - n, n)
            r = q == p if n.as_long() else z3.BoolVal(True)
            f.append(z3.Implies(r, n <= l))
            f.append(z3.Implies(z3.And(l == n, q == p), t == p))
        elif kd == z3.Z3_OP_SEQ_PREFIX: r = PRE(*ch); f.append(z3.Implies(r, LEN(ch[0]) <= LEN(ch[1])))
        elif kd == z3.Z3_OP_SEQ_SUFFIX: r = SUF(*ch); f.append(z3.Implies(r, LEN(ch[0]) <= LEN(ch[1])))
        elif kd == z3.Z3_OP_SEQ_CONTAINS: r = CONT(*ch); f.append(z3.Implies(r, LEN(ch[1]) <= LEN(ch[0])))
        elif kd == z3.Z3_OP_SEQ_INDEX:
            if len(ch) == 2: ch = ch + [z3.IntVal(0)]
            r = IDX(*ch)
            f += [r >= -1, z3.Implies(r >= 0, z3.And(r >= ch[2], r + LEN(ch[1]) <= LEN(ch[0])))]
        elif kd == z3.Z3_OP_SEQ_LAST_INDEX: r = LIDX(*ch); f += [r >= -1, r <= LEN(ch[0])]
        elif kd == z3.Z3_OP_STR_TO_CODE:
            r = TOC(*ch); f += [r >= -1, r < 200000, (r == -1) == (LEN(ch[0]) != 1)]
        elif kd == z3.Z3_OP_STR_FROM_CODE:
            r = FRC(*ch); f += [z3.Implies(z3.And(ch[0] >= 0, ch[0] < 196608), z3.And(LEN(r) == 1, TOC(r) == ch[0]))]
        elif kd == z3.Z3_OP_STRING_LT: r = LT(*ch)
        elif kd == z3.Z3_OP_STRING_LE: r = LE(*ch)
        elif kd == z3.Z3_OP_EQ: r = ch[0] == ch[1]
        elif kd == z3.Z3_OP_DISTINCT: r = z3.Distinct(*ch)
        elif kd == z3.Z3_OP_ITE: r = z3.If(*ch)
        elif kd == z3.Z3_OP_SELECT: r = z3.Select(ch[0], *ch[1:])
        elif kd == z3.Z3_OP_STORE: r = z3.Store(*ch)
        elif kd == z3.Z3_OP_CONST_ARRAY: r = z3.K(self.sort(x.sort().domain()), ch[0])
        elif not ch: r = z3.Const('t_c_%s' % x.sexpr(), self.sort(x.sort())) if self.hasstr(x.sort()) else x
        elif any(self.hasstr(y.sort()) for y in x.children()) or self.hasstr(x.sort()):
            # some other string operation
            r = z3.Function('t_op_%s_%s_%s' % (d.name(), len(ch), [d.params()]), *[c.sort() for c in ch], self.sort(x.sort()))(*ch)
        elif all(a.eq(b) for a, b in zip(ch, x.children())): r = x
        else:
            r = d(*ch)
        if x.sort() == Str and kd != z3.Z3_OP_ITE:
            e, _ = self.lit('')
            f += [LEN(r) >= 0, (LEN(r) == 0) == (r == e), LITID(e) == self.litno[''], LEN(e) == 0]
        return r, f

    def cat(self, parts, f):
        flat = []
        for p in parts: flat += self.flat.get(p.get_id(), (p, [p]))[1]
        r = flat[-1]
        for p in reversed(flat[:-1]):
            q = CAT(p, r)
            f.append(LEN(q) == LEN(p) + LEN(r))
            f.append(LEN(q) >= 0)
            r = q
        self.flat[r.get_id()] = (r, flat)
        return r
    flat = {}
