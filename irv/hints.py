"""Spec-supplied vocabulary for loop invariants: bounded quantifiers and folds over an index, with the instances of
their defining axioms that the solver needs.  All of them are conservative extensions (recursive definitions over
0..N); the two derived lemmas (mono, witness) are proved by induction in selfcheck()."""
import z3
from .vals import *

def ints(*names): return [z3.Int(n) for n in names]

class Exists:
    """pre(i) = exists j in [0,i): P(j);  suf(i) = exists j in [i,N): P(j)"""
    def __init__(self, name, N, P):
        self.name, self.N, self.P = name, zi(N), P
        u = '%s!%d' % (name, fresh_id())
        self.fpre = z3.Function('ex_' + u, Int, Bool)
        self.fsuf = z3.Function('exs_' + u, Int, Bool)
    def pre(self, i): return self.fpre(zi(i))
    def suf(self, i): return self.fsuf(zi(i))
    @property
    def any(self): return self.fpre(self.N)
    def base(self):
        return [z3.Not(self.fpre(0)), z3.Not(self.fsuf(self.N)), self.fsuf(0) == self.fpre(self.N)]
    def at(self, i):
        i = zi(i)
        inr = z3.And(i >= 0, i < self.N)
        p = zb(self.P(i))
        return [z3.Implies(inr, self.fpre(i + 1) == z3.Or(self.fpre(i), p)),
                z3.Implies(inr, self.fsuf(i) == z3.Or(self.fsuf(i + 1), p)),
                z3.Implies(z3.And(inr, p), self.fpre(self.N)),
                z3.Implies(z3.And(i >= 0, i <= self.N, self.fpre(i)), self.fpre(self.N)),
                z3.Implies(z3.And(i >= 0, i <= self.N, self.fsuf(i)), self.fpre(self.N)),
                z3.Implies(z3.And(i >= 0, i <= self.N), self.fpre(self.N) == z3.Or(self.fpre(i), self.fsuf(i)))]
    def cands(self, idx, bools, objs):
        out = []
        for k, g in idx.items():
            for nm, F in (('pre', self.fpre), ('suf', self.fsuf)):
                out.append(('not %s.%s(%s)' % (self.name, nm, k), lambda s, p, f, g=g, F=F: z3.Not(F(g(s, p, f)))))
                for bk, bg in bools.items():
                    out.append(('%s == %s.%s(%s)' % (bk, self.name, nm, k), lambda s, p, f, g=g, F=F, bg=bg: bg(s, p, f) == F(g(s, p, f))))
                    out.append(('%s == not %s.%s(%s)' % (bk, self.name, nm, k), lambda s, p, f, g=g, F=F, bg=bg: bg(s, p, f) == z3.Not(F(g(s, p, f)))))
                for k2, g2 in idx.items():
                    if k2 != k and nm == 'pre': out.append(('(%s>0) == %s.pre(%s)' % (k2, self.name, k), lambda s, p, f, g=g, F=F, g2=g2: (g2(s, p, f) > 0) == F(g(s, p, f))))
        return out

class Fold:
    """F(0)=init, F(i+1)=step(F(i), i) for 0<=i<N, of any sort; candidates: value(obj) == F(i)"""
    def __init__(self, name, N, sort, init, step, value, kinds=None):
        self.name, self.N, self.init, self.step, self.value = name, zi(N), init, step, value
        self.F = z3.Function('fold_%s!%d' % (name, fresh_id()), Int, sort)
    def pre(self, i): return self.F(zi(i))
    @property
    def all(self): return self.F(self.N)
    def base(self): return [self.F(0) == self.init]
    def at(self, i):
        i = zi(i)
        return [z3.Implies(z3.And(i >= 0, i < self.N), self.F(i + 1) == self.step(self.F(i), i))]
    def cands(self, idx, bools, objs):
        out = []
        for k, g in idx.items():
            for ok, og in objs.items():
                out.append(('%s == %s(%s)' % (ok, self.name, k), lambda s, p, f, g=g, og=og: eqv(self.value(s, og(s, p, f)), self.F(g(s, p, f)))))
        if self.F.range() == Int:
            ks = list(idx)
            for k in ks:
                for k2 in ks:
                    if k != k2:
                        out.append(('%s == %s(%s)' % (k2, self.name, k), lambda s, p, f, g=idx[k], g2=idx[k2]: g2(s, p, f) == self.F(g(s, p, f))))
        return out

class First(Fold):
    """F(0)=none, F(i+1)=If(F(i)!=none, F(i), val(i)): the first value that differs from none"""
    def __init__(self, name, N, none, val):
        Fold.__init__(self, name, N, Int, zi(none), lambda a, i: z3.If(a != none, a, val(i)), lambda s, o: None)
    def at(self, i):
        i = zi(i)
        return Fold.at(self, i) + [z3.Implies(z3.And(j >= 0, j <= self.N, self.F(j) != self.init), self.F(self.N) == self.F(j)) for j in (i, i + 1)]

class Rec:
    """tail-recursive function G(i, acc): what a loop that stands at index i with accumulator acc goes on to compute.
    step(i, acc, rec) defines it; inits: accumulator at the start; value(st, obj): accumulator held by an object.
    Candidates: G(i, acc) == G(start, init)"""
    def __init__(self, name, sort, step, init=None, value=None, start=0):
        self.name, self.step, self.init, self.value, self.start = name, step, init, value, zi(start)
        self.acc = init is not None
        args = [Int] + ([init.sort()] if self.acc else [])
        self.G = z3.Function('rec_%s!%d' % (name, fresh_id()), *args, sort)
    def call(self, i, a=None):
        return self.G(zi(i), a) if self.acc else self.G(zi(i))
    @property
    def whole(self): return self.call(self.start, self.init)
    def base(self): return self.atacc(self.start, self.init)
    def at(self, i): return [] if self.acc else self.atacc(i, None)
    def atacc(self, i, a):
        i = zi(i)
        return [self.call(i, a) == self.step(i, a, self.call)]
    def cands(self, idx, bools, objs):
        out = []
        for k, g in idx.items():
            if not self.acc:
                out.append(('%s(%s) == %s(start)' % (self.name, k, self.name), lambda s, p, f, g=g: self.call(g(s, p, f)) == self.whole))
                continue
            for ok, og in objs.items():
                def cand(s, p, f, g=g, og=og):
                    v = self.value(s, og(s, p, f))
                    if v is None or v.sort() != self.init.sort(): return None
                    return self.call(g(s, p, f), v) == self.whole
                out.append(('%s(%s,%s) == %s(start)' % (self.name, k, ok, self.name), cand))
        return out

def eqv(a, b):
    if a is None: return None
    if not is_sym(a) or a.sort() != b.sort(): return None
    return a == b

class Hints:
    def __init__(self, items=(), limits=(), extra=None):
        self.items = list(items)
        self.limits = [(n, zi(t)) for n, t in limits]
        self.extra = extra
    def candidates(self, ex, idx, bools, objs, limits, h):
        out = []
        for it in self.items: out += it.cands(idx, bools, objs)
        if self.extra: out += self.extra(ex, idx, bools, objs, limits)
        return out
    def facts(self, ex, st, terms, h):
        out = []
        seen = set()
        vals = list(terms['phi'].values()) + list(terms['cells'].values())
        recs = [it for it in self.items if isinstance(it, Rec) and it.acc]
        if recs:
            idx = [zi(0)]
            for v in vals: idx += list(self.index_terms(v))
            for it in recs:
                for v in vals:
                    try: a = it.value(st, v)
                    except (Unsupported, AttributeError, KeyError, z3.Z3Exception): a = None
                    if a is None or a.sort() != it.init.sort(): continue
                    for t in idx: out += it.atacc(t, a)
        for v in vals:
            for t in self.index_terms(v):
                k = str(t)
                if k in seen: continue
                seen.add(k)
                for it in self.items:
                    out += it.at(t)
                    out += it.at(t - 1)
        return [zb(simp(x)) for x in out]
    def index_terms(self, v):
        if isinstance(v, Ptr) and v.sym:
            for s in v.sym:
                try: yield zi(v.index(s)[0])
                except Unsupported: pass
        elif is_sym(v) and v.sort() == Int: yield v
        elif isinstance(v, Ghost):
            for x in v.f.values(): yield from self.index_terms(x)
        elif isinstance(v, Agg):
            for x in v.v: yield from self.index_terms(x)
    def base(self):
        out = []
        for it in self.items: out += it.base()
        return [zb(x) for x in out]

def selfcheck():
    """induction proofs of the derived facts used above; returns list of (name, ok)"""
    res = []
    pre, suf, P = z3.Function('pre', Int, Bool), z3.Function('suf', Int, Bool), z3.Function('P', Int, Bool)
    i, j, N = ints('i', 'j', 'N')
    ax = [N >= 0, z3.Not(pre(0)), z3.Not(suf(N)),
          z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N), pre(j + 1) == z3.Or(pre(j), P(j))), patterns=[pre(j + 1)]),
          z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N), suf(j) == z3.Or(suf(j + 1), P(j))), patterns=[suf(j)])]
    def valid(name, base, step, hyp):
        ok = True
        for f in (base, z3.Implies(hyp, step)):
            s = z3.Solver(); s.set('timeout', 10000)
            s.add(z3.Not(f))
            ok = ok and s.check() == z3.unsat
        res.append((name, ok))
    # mono: pre(k) -> pre(i) for k<=i<=N, induction on i
    k = z3.Int('k')
    stepax = z3.Implies(z3.And(i >= 0, i < N), pre(i + 1) == z3.Or(pre(i), P(i)))
    valid('mono', z3.Implies(pre(k), pre(k)), z3.Implies(pre(k), pre(i + 1)), z3.And(k >= 0, k <= i, i < N, stepax, z3.Implies(pre(k), pre(i))))
    # witness: P(k) -> pre(k+1), then mono
    res.append(('witness', z3.Solver().check(z3.And(k >= 0, k < N, P(k), pre(k + 1) == z3.Or(pre(k), P(k)), z3.Not(pre(k + 1)))) == z3.unsat))
    # first: F(j) != none -> F(i) == F(j) for j<=i<=N, induction on i
    F = z3.Function('F', Int, Int); val = z3.Function('val', Int, Int); none = z3.Int('none')
    valid('first value sticks', z3.Implies(F(k) != none, F(k) == F(k)), z3.Implies(F(k) != none, F(i + 1) == F(k)),
          z3.And(k >= 0, k <= i, i < N, F(i + 1) == z3.If(F(i) != none, F(i), val(i)), z3.Implies(F(k) != none, F(i) == F(k))))
    # split: pre(N) == pre(i) or suf(i), downward induction on i from N
    sufax = z3.Implies(z3.And(i >= 0, i < N), suf(i) == z3.Or(suf(i + 1), P(i)))
    valid('split', z3.Implies(z3.Not(suf(N)), pre(N) == z3.Or(pre(N), suf(N))),
          pre(N) == z3.Or(pre(i), suf(i)),
          z3.And(i >= 0, i < N, stepax, sufax, pre(N) == z3.Or(pre(i + 1), suf(i + 1))))
    return res
