"""Verifier for the LRU cache header: symbolic execution of the LLVM IR of lru/lru_tu.cc (the header of /repo instantiated with an abstract
map) with one logical map per field of an entry, ghost sums and ghost link stamps.  Loops are cut at stated invariants, calls at contracts.
Every assumption and goal is instantiated over the entries and keys that occur on the path, so each query is quantifier free."""
import itertools, time, re, struct
import z3
from .ir import Module, IRError

E = z3.DeclareSort('E')          # entries (SimpleLRUCacheElem objects), including the list head and null
I, B = z3.IntSort(), z3.BoolSort()
NULL = z3.Const('null', E)
HEAD = z3.Const('head', E)
IMAX = (1 << 63) - 1
ALLP = frozenset(('C19', 'C20', 'C21', 'C22', 'C23'))

class Unsupported(Exception): pass
class Dead(Exception): pass

def dedup(L):
    seen, out = set(), []
    for t in L:
        i = t.get_id()
        if i not in seen:
            seen.add(i)
            out.append(t)
    return out
_n = itertools.count()
def fresh(name, sort): return z3.Const('%s!%d' % (name, next(_n)), sort)
def freshfn(name, dom, rng): return z3.Function('%s!%d' % (name, next(_n)), dom, rng)
def simp(x): return z3.simplify(x)
def ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    return z3.If(c, a, b)

class FMap:
    """a logical map: a base function and point updates, or a constant"""
    __slots__ = ('base', 'ups')
    def __init__(self, base, ups=()): self.base, self.ups = base, ups
    def get(self, t):
        r = self.base(t)
        for i, v in self.ups:
            if i.eq(t): r = v
            else: r = z3.If(t == i, v, r)
        return r
    __call__ = get
    def set(self, t, v):
        return FMap(self.base, tuple(u for u in self.ups if not u[0].eq(t)) + ((t, v),))

# field name -> (domain, range)
EF = dict(next=(E, E), prev=(E, E), pin=(E, I), units=(E, I), val=(E, I), key=(E, I), lu=(E, I), alive=(E, B), stamp=(E, I), tp=(E, I), vis=(E, B))
KF = dict(T=(I, E), D=(I, E), Tg=(I, E), Dg=(I, E))
SC = dict(units_=I, max_=I, pinned_=I, idle_=I, lru_=B, su=I, st=I, sp=I, na=I, nt=I, linkc=I, clk=I, gl=E, rs=I, rn=I)
ALL = list(EF) + list(KF) + list(SC)

class Snap:
    """the logical state: fields, maps and scalars"""
    def __init__(self, d): self.__dict__.update(d)
    def inT(self, e): return z3.And(self.alive(e), self.Tg(self.key(e)) == e)
    def linked(self, e): return self.next(e) != NULL
    def inL(self, e): return z3.And(self.alive(e), self.Tg(self.key(e)) == e, self.next(e) != NULL)
    def Dm(self, e): return z3.And(self.alive(e), self.Tg(self.key(e)) != e)
    @property
    def now(self): return self.clk / 1000

class State:
    def __init__(self):
        self.m = {}          # logical state
        self.cells = {}      # (cell, offset) -> value
        self.pc = []         # path condition (ground)
        self.facts = []      # (vars, closure) assumed
        self.G = []          # entry terms of the path
        self.K = []          # key terms of the path
        self.uninit = {}     # fresh entry (string) -> field names not stored yet
        self.pend_v = self.pend_e = None
        self.epoch = {'T': 0, 'D': 0}
        self.log = []
        self.snaps = []
        self.slots = []
        self.events = []
        self.itread = set()
    def copy(self):
        s = State()
        s.m = dict(self.m); s.cells = dict(self.cells); s.pc = list(self.pc); s.facts = list(self.facts); s.G = list(self.G); s.K = list(self.K)
        s.uninit = {k: set(v) for k, v in self.uninit.items()}
        s.pend_v, s.pend_e = self.pend_v, self.pend_e
        s.epoch = dict(self.epoch)
        s.log = list(self.log); s.snaps = list(self.snaps); s.slots = list(self.slots); s.events = list(self.events); s.itread = set(self.itread)
        return s
    def snap(self): return Snap(self.m)
    def assume(self, f):
        if f is True: return
        self.pc.append(f)
    def fact(self, vars, fn): self.facts.append((vars, fn))
    def addE(self, t):
        if not any(t.eq(x) for x in self.G): self.G.append(t)
        return t
    def addK(self, t):
        if not any(t.eq(x) for x in self.K): self.K.append(t)
        return t
    def nameE(self, t, nm='p'):
        t = simp(t)
        if z3.is_const(t): return self.addE(t)
        c = fresh(nm, E)
        self.pc.append(c == t)
        return self.addE(c)
    def havoc(self, names=None):
        k = next(_n)
        for f, (d, r) in list(EF.items()) + list(KF.items()):
            if names is None or f in names: self.m[f] = FMap(z3.Function('%s@%d' % (f, k), d, r))
        for f, s in SC.items():
            if names is None or f in names: self.m[f] = z3.Const('%s@%d' % (f, k), s)

class Obl:
    def __init__(self, name, props):
        self.name, self.props = name, set(props)
        self.status = 'proved'
        self.time = 0.0
        self.n = 0
        self.model = None
        self.path = None

class P:
    """a pointer that is not an entry: kind, base, offset"""
    __slots__ = ('k', 'b', 'o', 'x')
    def __init__(self, k, b=None, o=0, x=None): self.k, self.b, self.o, self.x = k, b, o, x
    def __repr__(self): return 'P(%s,%s,%s,%s)' % (self.k, self.b, self.o, self.x)
    def same(self, q): return self.k == q.k and self.o == q.o and (self.b is q.b or self.b == q.b) and (self.x is q.x or (hasattr(self.x, 'eq') and hasattr(q.x, 'eq') and self.x.eq(q.x)) or (not hasattr(self.x, 'eq') and self.x == q.x))
NUL = P('null')

class Exec:
    def __init__(self, mod, off, contracts, loops, props, deadline=None):
        self.stack = []
        self.alt, self.altused = 0, 0      # which of the alternative invariants of a loop to use
        self.mod, self.off, self.contracts, self.loops = mod, off, contracts, loops
        self.props = props
        self.obls = {}
        self.solver_time = 0.0
        self.queries = 0
        self.deadline = deadline
        self.cellno = itertools.count()
        self.paths = 0
        self.used = set()
        self.cache = {}
        self.cur = None
        self.inlined = set()
        self.loopsdone = set()
        self.fieldat = {off['Elem.' + c]: f for c, f in (('key', 'key'), ('value', 'val'), ('pin', 'pin'), ('units', 'units'), ('next', 'next'), ('prev', 'prev'), ('last_use_', 'lu'))}
        self.thisat = {off['Base.' + c]: f for c, f in (('units_', 'units_'), ('max_units_', 'max_'), ('pinned_units_', 'pinned_'), ('max_idle_', 'idle_'), ('lru_', 'lru_'))}
        self.curfn = ''
    # ---- proving -------------------------------------------------------------------------------
    def instances(self, facts, G, K, oldG=(), oldK=()):
        """every fact for all tuples of terms, but for those made of old terms only; a fact is built once and then substituted into"""
        out = []
        G, K = dedup(G), dedup(K)
        oG, oK = {t.get_id() for t in oldG}, {t.get_id() for t in oldK}
        nG, nK = [t for t in G if t.get_id() not in oG], [t for t in K if t.get_id() not in oK]
        for vars, fn in facts:
            c = self.cache.get(id(fn))
            if c is None:
                ph = [fresh('ph', E if v == 'E' else I) for v in vars]
                body = fn(*ph)
                if isinstance(body, bool): body = z3.BoolVal(body)
                c = self.cache[id(fn)] = (fn, ph, z3.simplify(body), {})
            fn, ph, body, known = c
            if len(vars) == 1: tups = ((t,) for t in (nG if vars == 'E' else nK))
            else:
                doms = [G if v == 'E' else K for v in vars]
                old = [oG if v == 'E' else oK for v in vars]
                tups = (tup for tup in itertools.product(*doms) if not all(t.get_id() in o for t, o in zip(tup, old)))
            for tup in tups:
                key = tuple(t.get_id() for t in tup)
                r = known.get(key)
                if r is None: r = known[key] = (tup, z3.substitute(body, *zip(ph, tup)))
                out.append(r[1])
        return out
    def base(self, st):
        """a solver with everything that does not depend on the goal"""
        key = (len(st.pc), len(st.facts), len(st.G), len(st.K))
        if self.cur is not None and self.cur[0] is st and self.cur[1] == key: return self.cur[2:]
        G, K = self.ground(st)
        sol = z3.Solver()
        sol.add(NULL != HEAD)
        sol.add(*st.pc)
        sol.add(*self.instances(st.facts, G, K))
        self.cur = (st, key, sol, G, K)
        return self.cur[2:]
    def ground(self, st, extraE=(), extraK=()):
        G = list(st.G) + [NULL, HEAD] + list(extraE)
        K = list(st.K) + list(extraK)
        return G, K
    def prove(self, st, goal, timeout=20000, sk=(), skk=()):
        """goal ground (after skolemisation)"""
        t0 = time.time()
        G, K = self.ground(st, sk, skk)
        K = K + [st.m['key'](e) for e in sk]
        # a second layer for facts over a single entry: neighbours of the skolem entries, and what the key terms map to
        s = st.snap()
        G1 = list(G)
        for e in list(sk) + [HEAD]: G1 += [simp(s.next(e)), simp(s.prev(e))]
        for k in K: G1 += [simp(s.Tg(k)), simp(s.D(k))]
        for o in st.snaps:
            for k in list(skk) + [st.m['key'](e) for e in sk]: G1 += [simp(o.Tg(k)), simp(o.D(k))]
        f1 = [f for f in st.facts if len(f[0]) < 2]
        f2 = [f for f in st.facts if len(f[0]) >= 2]
        sol, oG, oK = self.base(st)
        r = z3.unknown
        sol.push()
        sol.set('timeout', timeout)
        sol.add(z3.Not(goal))
        for layer in (0, 1, 2):
            if layer == 0: sol.add(*self.instances(st.facts, G, K, oG, oK))
            elif layer == 1:
                K1 = K + [s.key(e) for e in G]
                sol.add(*self.instances(f1, G1, K1, G, K))
                sol.add(*self.instances([f for f in f2 if 'K' in f[0]], G, K1, G, K))
            else:
                G2 = dedup(G1)[:45]
                sol.add(*self.instances(f1, G1, K1 + [s.key(e) for e in G1], G1, K1))
                sol.add(*self.instances(f2, G2, K, G, K))
            self.queries += 1
            r = sol.check()
            if r == z3.unsat: break
            self.lastmodel = sol.model() if r == z3.sat else None
        sol.pop()
        self.solver_time += time.time() - t0
        return str(r)
    def oblige(self, st, name, goal, props, vars=()):
        if self.deadline and time.time() > self.deadline: raise Unsupported('time limit')
        o = self.obls.get(name)
        if o is None: o = self.obls[name] = Obl(name, props)
        o.n += 1
        if o.status != 'proved': return
        t0 = time.time()
        sk, skk = [], []
        if vars:
            args = []
            for v in vars:
                c = fresh('sk', E if v == 'E' else I)
                (sk if v == 'E' else skk).append(c)
                args.append(c)
            goal = goal(*args)
        if goal is True or (not isinstance(goal, bool) and z3.is_true(goal)): return
        if goal is False: goal = z3.BoolVal(False)
        r = self.prove(st, goal, sk=sk, skk=skk)
        o.time += time.time() - t0
        if r != 'unsat':
            o.status = 'failed' if r == 'sat' else 'unknown'
            o.path = list(st.log)[-30:]
            if r == 'sat' and self.lastmodel is not None:
                o.model = '\n'.join(sorted('%s = %s' % (d.name(), self.lastmodel[d]) for d in self.lastmodel.decls() if d.arity() == 0))[:2000]
    def choose(self, bit):
        self.altused |= bit
        return bool(self.alt & bit)
    def reach(self, st, c):
        """not refuted by everything known at this state"""
        sol = self.base(st)[0]
        sol.push()
        sol.set('timeout', 3000)
        sol.add(c)
        self.queries += 1
        r = sol.check()
        sol.pop()
        return r != z3.unsat
    def feasible(self, st, c):
        sol = z3.Solver()
        sol.set('timeout', 400)
        G, K = self.ground(st)
        sol.add(*st.pc); sol.add(c); sol.add(NULL != HEAD)
        sol.add(*self.instances([f for f in st.facts if len(f[0]) < 2], G, K))
        self.queries += 1
        return sol.check() != z3.unsat
    # ---- logical memory ---------------------------------------------------------------------
    def access(self, st, e):
        if e.eq(HEAD): return
        self.oblige(st, '%s: entries are only accessed while they exist' % self.curfn, z3.Or(st.m['alive'](e), e == HEAD), ALLP)
    def getf(self, st, e, f):
        self.access(st, e)
        u = st.uninit.get(str(e))
        if u and f in u: self.oblige(st, '%s: fields are set before they are read' % self.curfn, False, ALLP)
        v = simp(st.m[f](e))
        if EF[f][1] == E: return ('E', st.nameE(v, f))
        return v
    def setf(self, st, e, f, v):
        self.access(st, e)
        m = st.m
        u = st.uninit.get(str(e))
        init = u is not None and f in u
        if u is not None: u.discard(f)
        if f in ('next', 'prev'):
            v = self.asE(v)
            st.addE(v)
        else: v = self.asI(v)
        old = m[f](e)
        if f == 'next' and not e.eq(HEAD):
            c = simp(z3.And(old == NULL, v != NULL))
            m['stamp'] = m['stamp'].set(e, simp(ite(c, m['linkc'] + 1, m['stamp'](e))))
            m['linkc'] = simp(m['linkc'] + ite(c, z3.IntVal(1), z3.IntVal(0)))
        if f in ('units', 'pin') and not e.eq(HEAD):
            tg = m['Tg']
            self.oblige(st, '%s: an entry is in the table under its own key only' % self.curfn, lambda k: z3.Implies(tg(k) == e, k == m['key'](e)), ALLP, 'K')
            inT = tg(m['key'](e)) == e
            if f == 'units':
                m['su'] = simp(m['su'] + ite(m['alive'](e), v - old, z3.IntVal(0)))
                m['st'] = simp(m['st'] + ite(inT, v - old, z3.IntVal(0)))
                m['sp'] = simp(m['sp'] + ite(z3.And(inT, m['pin'](e) > 0), v - old, z3.IntVal(0)))
            else:
                d = ite(v > 0, m['units'](e), z3.IntVal(0)) - ite(old > 0, m['units'](e), z3.IntVal(0))
                m['sp'] = simp(m['sp'] + ite(inT, d, z3.IntVal(0)))
        if f == 'key' and not (init or e.eq(HEAD)): raise Unsupported('the key of an entry in use is changed')
        m[f] = m[f].set(e, simp(v))
    def new_entry(self, st):
        """operator new of an entry: an object that never existed before"""
        m = st.m
        e = fresh('new', E)
        st.assume(z3.And(z3.Not(m['alive'](e)), e != NULL, e != HEAD, *[e != x for x in st.G]))
        for s in st.snaps: st.assume(z3.Not(s.alive(e)))
        T, D, Tg = m['T'], m['D'], m['Tg']
        st.fact('K', lambda k: z3.And(T(k) != e, Tg(k) != e, D(k) != e))
        st.addE(e)
        m['alive'] = m['alive'].set(e, z3.BoolVal(True))
        m['na'] = simp(m['na'] + 1)
        for f, v in (('next', NULL), ('prev', NULL), ('pin', z3.IntVal(0)), ('units', z3.IntVal(0)), ('val', z3.IntVal(0)), ('lu', z3.IntVal(0)), ('stamp', m['linkc']), ('tp', z3.IntVal(0))):
            m[f] = m[f].set(e, v)
        st.uninit[str(e)] = {'next', 'prev', 'pin', 'units', 'val', 'lu', 'key'}
        return e
    def destroy_value(self, st, v):
        v = self.asI(v)
        m = st.m
        if st.pend_e is not None:
            self.oblige(st, '%s: the value of a deleted entry is the one destroyed' % self.curfn, st.pend_e == v, ALLP)
            st.pend_e = None
            return
        if st.pend_v is not None: self.oblige(st, '%s: one value is destroyed for each deleted entry' % self.curfn, False, ALLP)
        st.pend_v = v
    def delete_entry(self, st, e):
        self.access(st, e)
        m = st.m
        self.oblige(st, '%s: only unpinned values are destroyed' % self.curfn, m['pin'](e) == 0, {'C20', 'C21', 'C22'})
        self.oblige(st, '%s: the list head is not deleted' % self.curfn, e != HEAD, ALLP)
        if st.pend_v is not None:
            self.oblige(st, '%s: the value of a deleted entry is the one destroyed' % self.curfn, st.pend_v == m['val'](e), ALLP)
            st.pend_v = None
        else:
            if st.pend_e is not None: self.oblige(st, '%s: one value is destroyed for each deleted entry' % self.curfn, False, ALLP)
            st.pend_e = m['val'](e)
        m['su'] = simp(m['su'] - m['units'](e))
        m['na'] = simp(m['na'] - 1)
        m['alive'] = m['alive'].set(e, z3.BoolVal(False))
    def mapset(self, st, mp, k, v):
        """one point of table_ or defer_"""
        m = st.m
        m[mp] = m[mp].set(k, v)
        if mp == 'T':
            o = m['Tg'](k)
            z = z3.IntVal(0)
            un = lambda e: ite(e != NULL, m['units'](e), z)
            up = lambda e: ite(z3.And(e != NULL, m['pin'](e) > 0), m['units'](e), z)
            m['st'] = simp(m['st'] - un(o) + un(v)); m['sp'] = simp(m['sp'] - up(o) + up(v))
            m['nt'] = simp(m['nt'] - ite(o != NULL, z3.IntVal(1), z) + ite(v != NULL, z3.IntVal(1), z))
            m['Tg'] = m['Tg'].set(k, v)
    def ghost_drop(self, st, k, mp):
        """iteration leaves key k behind: the ghost Tg (Dg) is the part of table_ (defer_) that is still to come"""
        m = st.m
        if mp == 'D':
            m['Dg'] = m['Dg'].set(k, NULL)
            return
        o = m['Tg'](k)
        z = z3.IntVal(0)
        m['st'] = simp(m['st'] - ite(o != NULL, m['units'](o), z))
        m['sp'] = simp(m['sp'] - ite(z3.And(o != NULL, m['pin'](o) > 0), m['units'](o), z))
        m['nt'] = simp(m['nt'] - ite(o != NULL, z3.IntVal(1), z))
        m['Tg'] = m['Tg'].set(k, NULL)
    def mapclear(self, st, mp):
        st.m[mp] = FMap(lambda t: NULL)
        st.epoch[mp] += 1
        if mp == 'T':
            st.m['Tg'] = FMap(lambda t: NULL)
            for x in ('st', 'sp', 'nt'): st.m[x] = z3.IntVal(0)
    # ---- values ------------------------------------------------------------------------------
    def asE(self, v):
        if isinstance(v, tuple) and v[0] == 'E': return v[1]
        if isinstance(v, P) and v.k == 'null': return NULL
        raise Unsupported('entry pointer expected, got %r' % (v,))
    def asI(self, v):
        if isinstance(v, bool): return z3.IntVal(1 if v else 0)
        if isinstance(v, int): return z3.IntVal(v)
        if isinstance(v, P) and v.k == 'null': return z3.IntVal(0)
        if z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if z3.is_int(v): return v
        raise Unsupported('integer expected, got %r' % (v,))
    def asB(self, v):
        if isinstance(v, bool): return z3.BoolVal(v)
        if isinstance(v, int): return z3.BoolVal(v != 0)
        if z3.is_bool(v): return v
        if z3.is_int(v): return v != 0
        raise Unsupported('truth value expected, got %r' % (v,))
    def newcell(self): return 'c%d' % next(self.cellno)
    def cellptr(self, st, content, size=8):
        c = self.newcell()
        st.cells[(c, 0)] = content
        return P('cell', c)
    def gep(self, p, o):
        if isinstance(p, tuple) and p[0] == 'E': return ('Eo', p[1], o) if o else p
        if isinstance(p, tuple) and p[0] == 'Eo': return ('Eo', p[1], p[2] + o) if p[2] + o else ('E', p[1])
        if isinstance(p, P):
            q = P(p.k, p.b, p.o + o, p.x)
            if q.k == 'this':
                h = self.off['Base.head_']
                if h <= q.o < h + self.off['sizeof.Elem']: return self.gep(('E', HEAD), q.o - h)
            return q
        raise Unsupported('address computation on %r' % (p,))
    def load(self, st, ty, p):
        if isinstance(p, tuple):
            o = 0 if p[0] == 'E' else p[2]
            f = self.fieldat.get(o)
            if f is None: raise Unsupported('load at offset %d of an entry' % o)
            return self.getf(st, p[1], f)
        if p.k == 'this':
            if p.o == 0 and ty == ('ptr',): return P('vtable', None, 0)
            f = self.thisat.get(p.o)
            if f is None: raise Unsupported('load at offset %d of the cache' % p.o)
            return st.m[f]
        if p.k == 'vtable': return P('vfn', None, p.o)
        if p.k == 'cell':
            v = st.cells.get((p.b, p.o))
            if v is None: raise Unsupported('load of an unset local')
            if isinstance(v, P) and v.k == 'slot' and v.b[2] == 'it': st.itread.add((p.b, p.o))
            if isinstance(v, tuple) and v[0] == 'undef': raise Unsupported('undefined value')
            return v
        if p.k == 'slot':
            self.fresh_iter(st, p)
            if p.o == 0: return p.x
            if p.o == 8: return ('E', st.nameE(st.m[p.b[0]](p.x), 'slot'))
        raise Unsupported('load from %r' % (p,))
    def fresh_iter(self, st, p):
        if p.b[1] != st.epoch[p.b[0]]: self.oblige(st, '%s: no iterator is used after the map changed under it' % self.curfn, False, ALLP)
        elif p.b[2] != 'w': self.oblige(st, '%s: iterators in use point at entries' % self.curfn, st.m[p.b[0]](p.x) != NULL, ALLP)
    def store(self, st, ty, v, p):
        if isinstance(p, tuple):
            o = 0 if p[0] == 'E' else p[2]
            f = self.fieldat.get(o)
            if f is None: raise Unsupported('store at offset %d of an entry' % o)
            return self.setf(st, p[1], f, v)
        if p.k == 'this':
            if p.o == 0: return
            f = self.thisat.get(p.o)
            if f is None: raise Unsupported('store at offset %d of the cache' % p.o)
            st.m[f] = self.asB(v) if SC[f] == B else simp(self.asI(v))
            return
        if p.k == 'cell':
            st.cells[(p.b, p.o)] = v
            return
        if p.k == 'slot' and p.o == 8:
            self.fresh_iter(st, p)
            self.mapset(st, p.b[0], p.x, self.asE(v))
            st.addE(self.asE(v))
            st.slots = [s for s in st.slots if not (s[0] == p.b[0] and s[1].eq(p.x))]
            if not self.asE(v).eq(HEAD): self.oblige(st, '%s: no null entries are stored' % self.curfn, self.asE(v) != NULL, ALLP)
            return
        raise Unsupported('store to %r' % (p,))
    # ---- execution -----------------------------------------------------------------------------
    def val(self, st, env, ty, v):
        k = v[0]
        if k == 'l':
            if v[1] not in env: raise Unsupported('value %s' % v[1])
            return env[v[1]]
        if k == 'c': return bool(v[1]) if ty == ('i', 1) else v[1]
        if k == 'null': return NUL
        if k == 'g': return P('global', v[1])
        if k == 'fp':
            s = v[1]
            f = struct.unpack('>d', int(s, 16).to_bytes(8, 'big'))[0] if s.startswith('0x') else float(s)
            return ('F', z3.FPVal(f, z3.Float64()))
        if k in ('undef', 'poison', 'zero'):
            return ('undef',)
        if k == 'cgep' or k == 'cexpr': return P('global', str(v))
        raise Unsupported('operand %r' % (v,))
    def run(self, st, name, args, depth=0):
        """-> list of (state, return value)"""
        if depth > 12: raise Unsupported('call depth')
        fn = self.mod.funcs[name].parse()
        dem = short(self.mod.dem(name))
        if depth: self.inlined.add(dem)
        out = []
        env = {p[1]: a for p, a in zip(fn.params, args)}
        ctx = dict(S0=st.snap(), args=args, fn=name, dem=dem, G0=list(st.G), K0=list(st.K), depth=depth)
        # a function without loop invariants of its own runs as a part of the function that calls it
        up = self.stack[-1] if self.stack else None
        own = up is None or any(d == dem for d, i in self.loops)
        ctx['owner'] = ctx if own else up[0]['owner']
        ctx['around'] = {} if own else {**up[0]['around'], **{(up[0]['fn'], h): L for h, L in up[1].items()}}
        work = [(fn.entry, None, 0, st, env, {})]
        while work:
            b, prev, i, s, ev, act = work.pop()
            if self.deadline and time.time() > self.deadline: raise Unsupported('time limit')
            try: self.block(fn, b, prev, i, s, ev, act, ctx, depth, work, out)
            except Dead: continue
        return out
    def phis(self, fn, b, prev, st, env):
        vals = {}
        for i in fn.blocks[b]:
            if i.op != 'phi': break
            for v, l in i.a[1]:
                if l == prev:
                    vals[i.dst] = self.val(st, env, i.a[0], v)
                    break
            else: raise Unsupported('phi')
        return vals
    def loop_head(self, fn, b, prev, st, env, act, ctx, work):
        heads = sorted(fn.loops, key=lambda x: fn.rpo_index[x])
        idx = heads.index(b)
        own = ctx['owner']
        if own is not ctx: idx += len(ctx['around'])
        spec = self.loops.get((own['dem'], idx))
        if spec is None: raise Unsupported('loop %d of %s has no invariant' % (idx, ctx['dem']))
        vals = self.phis(fn, b, prev, st, env)
        back = prev in fn.loops[b] and b in act
        tag = '%s: loop %d of %s' % (self.curfn, idx, ctx['dem']) if ctx['depth'] else '%s: loop %d' % (self.curfn, idx)
        for what, bad in (('a value is destroyed together with its entry', st.pend_v is not None or st.pend_e is not None), ('no null entries are stored', bool(st.slots))):
            if bad: self.oblige(st, '%s: %s' % (tag, what), False, ALLP)
        if back:
            L = act[b]
            L.at_back(st, vals, env)
            self.frame(st, L, tag)
            for n, vs, g, pr in L.inv(st, vals): self.oblige(st, '%s keeps: %s' % (tag, n), g, pr, vs)
            raise Dead()
        L = spec(self, own, st, vals, {**ctx['around'], **act})
        self.loopsdone.add('%s: loop %d: %s' % (ctx['dem'], idx, spec.__doc__ or ''))
        for n, vs, g, pr in L.inv(st, vals): self.oblige(st, '%s starts with: %s' % (tag, n), g, pr, vs)
        act[b] = L
        # an arbitrary iteration
        nv = {}
        for d, v in vals.items():
            if isinstance(v, tuple) and v[0] == 'E': nv[d] = ('E', st.addE(fresh('it', E)))
            elif isinstance(v, (P, tuple)): raise Unsupported('loop variable %r' % (v,))
            elif isinstance(v, bool) or (not isinstance(v, int) and z3.is_bool(v)): nv[d] = fresh('b', B)
            else: nv[d] = fresh('n', I)
        L.havoc(st, nv)
        env.update(nv)
        for mp in L.bumps: st.epoch[mp] += 1
        its = [c for c, v in st.cells.items() if isinstance(v, P) and v.k == 'next']
        if len({st.cells[c].b for c in its}) > 1: raise Unsupported('two iterators in a loop')
        if its:
            mp, ep, _ = st.cells[its[0]].b
            if ep != st.epoch[mp]: self.oblige(st, '%s: no iterator is used after the map changed under it' % self.curfn, False, ALLP)
            s2, e2 = st.copy(), dict(env)
            k = st.addK(fresh('k', I))
            L.its = its          # an iterator, and the temporaries it was copied from
            for c in its:
                st.cells[c] = P('slot', (mp, ep, 'it'), 0, k)
                s2.cells[c] = P('end', (mp, ep, 'it'))
            st.itread = set()
            rem = 'Tg' if mp == 'T' else 'Dg'
            st.assume(z3.And(st.m[rem](k) != NULL, st.m[rem](k) == st.m[mp](k)))
            r2 = s2.m[rem]
            s2.fact('K', lambda k: r2(k) == NULL)
            if mp == 'T': s2.assume(z3.And(s2.m['st'] == 0, s2.m['sp'] == 0, s2.m['nt'] == 0))
            L2 = L.at_end(s2)
            for vs, f in L2.assume(s2, nv): s2.fact(vs, f) if vs else s2.assume(f)
            a2 = dict(act); a2[b] = L2
            L.at_key(st, k)
            L.frozen = (dict(st.m), dict(st.cells), dict(st.epoch))
            work.append((b, None, -1, s2, e2, a2))
        L.frozen = (dict(st.m), dict(st.cells), dict(st.epoch))
        for vs, f in L.assume(st, nv): st.fact(vs, f) if vs else st.assume(f)
        if its: L2.frozen = L.frozen
    def frame(self, st, L, tag):
        m0, cells0, ep0 = L.frozen
        for c in getattr(L, 'its', ()):
            v = st.cells.get(c)
            if not (isinstance(v, P) and v.k == 'next') and c in st.itread: raise Unsupported('iterators in %s' % tag)
            if isinstance(v, P) and v.b[1] != st.epoch[v.b[0]]: self.oblige(st, '%s: no iterator is used after the map changed under it' % tag, False, ALLP)
        for f in ALL:
            if f in L.mods and f not in L.keep or f == 'gl': continue
            a, b = m0[f], st.m[f]
            if a is b: continue
            if f in SC:
                if not a.eq(b): self.oblige(st, '%s leaves %s alone' % (tag, f), a == b, ALLP)
            else: self.oblige(st, '%s leaves %s alone' % (tag, f), lambda x, a=a, b=b: a(x) == b(x), ALLP, 'E' if f in EF else 'K')
        for c, v in cells0.items():
            w = st.cells.get(c)
            if v is w or isinstance(v, P) and v.k == 'slot' and v.b[2] == 'it': continue
            if isinstance(v, P) and isinstance(w, P) and v.same(w): continue
            if isinstance(v, int) and isinstance(w, int) and v == w: continue
            if hasattr(v, 'eq') and hasattr(w, 'eq') and v.eq(w): continue
            if (c[0], c[1]) in getattr(L, 'cellset', ()): continue
            raise Unsupported('a local variable changes in %s' % tag)
        for mp in ('T', 'D'):
            if st.epoch[mp] != ep0[mp] and mp not in L.bumps: raise Unsupported('iterators change in %s' % tag)
    def block(self, fn, b, prev, i, st, env, act, ctx, depth, work, out):
        ins = fn.blocks[b]
        if i == 0:
            if b in fn.loops: self.loop_head(fn, b, prev, st, env, act, ctx, work)
            elif prev is not None: env.update(self.phis(fn, b, prev, st, env))
        pend = [(max(i, 0), st, env, act)]
        while pend:
            i, st, env, act = pend.pop()
            try:
                while i < len(ins):
                    x = ins[i]
                    i += 1
                    if x.op == 'phi': continue
                    if x.op == 'call':
                        self.stack.append((ctx, act))
                        try: rs = self.call(fn, x, st, env, depth)
                        finally: self.stack.pop()
                        if not rs: raise Dead()
                        for s2, r in rs[1:]:
                            e2 = dict(env)
                            if x.dst is not None: e2[x.dst] = r
                            pend.append((i, s2, e2, dict(act)))
                        st, r = rs[0]
                        if x.dst is not None: env[x.dst] = r
                        continue
                    if x.op == 'ret':
                        out.append((st, None if x.a is None else self.val(st, env, x.a[0], x.a[1])))
                        break
                    if x.op == 'br':
                        work.append((x.a[0], b, 0, st, env, act)); break
                    if x.op == 'condbr':
                        c = simp(self.asB(self.val(st, env, ('i', 1), x.a[0])))
                        if z3.is_true(c): work.append((x.a[1], b, 0, st, env, act)); break
                        if z3.is_false(c): work.append((x.a[2], b, 0, st, env, act)); break
                        f1 = self.feasible(st, c)
                        f2 = self.feasible(st, z3.Not(c)) if f1 else True
                        if f1 and f2:
                            s2, e2 = st.copy(), dict(env)
                            s2.assume(z3.Not(c)); s2.log.append('not (%s)' % str(c)[:200])
                            work.append((x.a[2], b, 0, s2, e2, dict(act)))
                        if f1:
                            st.assume(c); st.log.append(str(c)[:200])
                            work.append((x.a[1], b, 0, st, env, act))
                        elif f2:
                            st.assume(z3.Not(c))
                            work.append((x.a[2], b, 0, st, env, act))
                        break
                    if x.op == 'unreachable': break
                    self.simple(x, st, env)
            except Dead: continue
    def simple(self, x, st, env):
        op = x.op
        if op == 'alloca':
            env[x.dst] = P('cell', self.newcell()); return
        if op == 'load':
            env[x.dst] = self.load(st, x.a[0], self.val(st, env, ('ptr',), x.a[1])); return
        if op == 'store':
            self.store(st, x.a[0], self.val(st, env, x.a[0], x.a[1]), self.val(st, env, ('ptr',), x.a[2])); return
        if op == 'gep':
            t, b, idx = x.a
            p = self.val(st, env, ('ptr',), b)
            o = 0
            for j, (it, iv) in enumerate(idx):
                n = self.val(st, env, it, iv)
                if not isinstance(n, int):
                    n = simp(n)
                    if not z3.is_int_value(n): raise Unsupported('variable index')
                    n = n.as_long()
                if j == 0: o += n * self.mod.sizealign(t)[0]; cur = t
                else:
                    r = self.mod.resolve(cur)
                    if r[0] == 'struct':
                        d, cur = self.mod.field(r, n); o += d
                    elif r[0] == 'array': o += n * self.mod.sizealign(r[2])[0]; cur = r[2]
                    else: raise Unsupported('index into %r' % (r,))
            env[x.dst] = self.gep(p, o); return
        if op == 'icmp':
            pr, t, a, b = x.a
            env[x.dst] = self.icmp(pr, self.val(st, env, t, a), self.val(st, env, t, b)); return
        if op == 'bin':
            o, t, a, b, fl = x.a
            a, b = self.val(st, env, t, a), self.val(st, env, t, b)
            r = env[x.dst] = self.bin(o, t, a, b)
            if 'nsw' in fl and o in ('add', 'sub', 'mul', 'shl'):
                w = 1 << (t[1] - 1)
                r = self.asI(r)
                if not z3.is_int_value(r): self.oblige(st, '%s: no signed overflow' % self.curfn, z3.And(r >= -w, r < w), ALLP)
            return
        if op == 'cast':
            o, t, v, t2 = x.a
            v = self.val(st, env, t, v)
            if o in ('zext', 'sext', 'trunc'):
                if isinstance(v, int) and t2 == ('i', 1): v = bool(v & 1)
                elif o == 'trunc' and t2 == ('i', 1): v = self.asB(v)
                env[x.dst] = v; return
            if o == 'bitcast': env[x.dst] = v; return
            if o == 'sitofp':
                n = v if isinstance(v, int) else None
                if n is None:
                    v = simp(v)
                    if not z3.is_int_value(v): raise Unsupported('conversion of a variable to double')
                    n = v.as_long()
                env[x.dst] = ('F', z3.FPVal(float(n), z3.Float64())); return
            if o == 'fptosi':
                f = v[1]
                r = F2I(f)
                lim = z3.FPVal(9223372036854775808.0, z3.Float64())
                self.oblige(st, '%s: numbers converted to integers fit' % self.curfn, z3.And(z3.fpLT(f, lim), z3.fpGEQ(f, -lim)), {'C23'})
                st.assume(z3.Implies(z3.fpGEQ(f, z3.FPVal(0.0, z3.Float64())), r >= 0))
                st.assume(z3.Implies(z3.fpLT(f, lim), r <= IMAX))
                env[x.dst] = r; return
            raise Unsupported('conversion ' + o)
        if op == 'fcmp':
            pr, t, a, b = x.a
            a, b = self.val(st, env, t, a)[1], self.val(st, env, t, b)[1]
            f = {'olt': z3.fpLT, 'ogt': z3.fpGT, 'ole': z3.fpLEQ, 'oge': z3.fpGEQ, 'oeq': z3.fpEQ, 'une': lambda p, q: z3.Not(z3.fpEQ(p, q)),
                 'uno': lambda p, q: z3.Or(z3.fpIsNaN(p), z3.fpIsNaN(q))}.get(pr)
            if f is None: raise Unsupported('fcmp ' + pr)
            env[x.dst] = f(a, b); return
        if op == 'select':
            c, t1, a, t2, b = x.a[0], x.a[1], x.a[2], x.a[1], x.a[3]
            c = simp(self.asB(self.val(st, env, ('i', 1), c)))
            a, b = self.val(st, env, t1, a), self.val(st, env, t1, b)
            if z3.is_true(c): env[x.dst] = a
            elif z3.is_false(c): env[x.dst] = b
            elif isinstance(a, (tuple, P)) or isinstance(b, (tuple, P)): env[x.dst] = ('E', st.nameE(z3.If(c, self.asE(a), self.asE(b))))
            elif t1 == ('i', 1): env[x.dst] = z3.If(c, self.asB(a), self.asB(b))
            else: env[x.dst] = z3.If(c, self.asI(a), self.asI(b))
            return
        if op == 'extractvalue':
            v = self.val(st, env, x.a[0], x.a[1])
            ix = x.a[2][0] if isinstance(x.a[2], (list, tuple)) else x.a[2]
            if not (isinstance(v, tuple) and v[0] == 'S'): raise Unsupported('member of %r' % (v,))
            env[x.dst] = v[1][ix]; return
        if op == 'insertvalue':
            t, v, w, ix = x.a
            v = self.val(st, env, t, v)
            ix = ix[0] if isinstance(ix, (list, tuple)) else ix
            old = list(v[1]) if isinstance(v, tuple) and v[0] == 'S' else [('undef',)] * 2
            wt, wv = w if isinstance(w, tuple) and len(w) == 2 and isinstance(w[0], tuple) else (None, w)
            old[ix] = self.val(st, env, wt or ('ptr',), wv)
            env[x.dst] = ('S', tuple(old)); return
        if op == 'freeze': env[x.dst] = self.val(st, env, x.a[0], x.a[1]); return
        raise Unsupported('instruction %s' % op)
    def icmp(self, pr, a, b):
        if isinstance(a, (tuple, P)) or isinstance(b, (tuple, P)):
            if pr not in ('eq', 'ne'): raise Unsupported('pointer order')
            if (isinstance(a, tuple) and a[0] == 'E') or (isinstance(b, tuple) and b[0] == 'E'):
                r = self.asE(a) == self.asE(b)
            elif isinstance(a, P) and isinstance(b, P):
                r = z3.BoolVal(a.same(b))
            elif isinstance(a, P) and a.k == 'null' or isinstance(b, P) and b.k == 'null':
                r = self.asI(a) == self.asI(b)      # Val* values are integers
            else: raise Unsupported('comparison of %r and %r' % (a, b))
            return simp(r) if pr == 'eq' else simp(z3.Not(r))
        if (isinstance(a, bool) or (not isinstance(a, int) and z3.is_bool(a))) and (isinstance(b, bool) or (not isinstance(b, int) and z3.is_bool(b))) and pr in ('eq', 'ne'):
            r = self.asB(a) == self.asB(b)
            return simp(r) if pr == 'eq' else simp(z3.Not(r))
        a, b = self.asI(a), self.asI(b)
        f = {'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sgt': lambda: a > b, 'sle': lambda: a <= b, 'sge': lambda: a >= b}.get(pr)
        if f is None: raise Unsupported('comparison ' + pr)
        return simp(f())
    def bin(self, o, t, a, b):
        if o[0] == 'f':
            a, b = a[1], b[1]
            f = {'fmul': z3.fpMul, 'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fdiv': z3.fpDiv}[o]
            return ('F', f(z3.RNE(), a, b))
        if t == ('i', 1) and o in ('and', 'or', 'xor'):
            a, b = self.asB(a), self.asB(b)
            return simp({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[o](a, b))
        a, b = self.asI(a), self.asI(b)
        if o == 'add':
            # adding -1 appears as a subtraction, or as a large unsigned number
            return simp(a + b)
        if o == 'sub': return simp(a - b)
        if o == 'mul': return simp(a * b)
        if o in ('sdiv', 'udiv'):
            b = simp(b)
            if not (z3.is_int_value(b) and b.as_long() > 0): raise Unsupported('division')
            # truncation towards zero
            return simp(z3.If(a >= 0, a / b, -((-a) / b)))
        if o in ('srem', 'urem'):
            b = simp(b)
            if not (z3.is_int_value(b) and b.as_long() > 0): raise Unsupported('division')
            return simp(z3.If(a >= 0, a % b, -((-a) % b)))
        if o == 'shl' and z3.is_int_value(simp(b)): return simp(a * (1 << simp(b).as_long()))
        if o == 'ashr' and z3.is_int_value(simp(b)): return simp(a / (1 << simp(b).as_long()))
        raise Unsupported('operation ' + o)
    # ---- calls -------------------------------------------------------------------------------
    def call(self, fn, x, st, env, depth):
        rt, cal, args = x.a
        if cal[0] == 'l':
            p = env[cal[1]]
            if not (isinstance(p, P) and p.k == 'vfn'): raise Unsupported('call through %r' % (p,))
            nm = self.vslot(p.o)
        else: nm = cal[1]
        if nm.startswith('llvm.dbg') or nm.startswith('llvm.lifetime') or nm.startswith('llvm.assume'): return [(st, None)]
        a = [self.val(st, env, t, v) for t, v, at in args]
        dem = short(self.mod.dem(nm))
        if nm.startswith('llvm.memcpy'):
            d, s, n = a[0], a[1], a[2]
            if not (isinstance(d, P) and isinstance(s, P) and d.k == s.k == 'cell'): raise Unsupported('memcpy of %r to %r' % (s, d))
            for (c, o), v in list(st.cells.items()):
                if c == s.b and s.o <= o < s.o + n: st.cells[(d.b, d.o + o - s.o)] = v
            return [(st, None)]
        if nm.startswith('llvm.is.fpclass'):
            f, mask = a[0][1], a[1]
            parts = []
            for bit, g in ((3, z3.fpIsNaN(f)), (4, z3.And(z3.fpIsInf(f), z3.fpIsNegative(f))), (512, z3.And(z3.fpIsInf(f), z3.fpIsPositive(f)))):
                if mask & bit: parts.append(g)
            if mask & ~(3 | 4 | 512): raise Unsupported('class test')
            return [(st, z3.Or(*parts))]
        if nm in ('__assert_fail', 'llvm.trap', '_ZSt9terminatev', 'abort'):
            self.oblige(st, '%s: no assertion fails' % self.curfn, False, {'C19', 'C20', 'C21', 'C22', 'C23'})
            return []
        c = self.contracts(self, nm, dem)
        if c is not None:
            self.used.add(dem)
            return c(self, st, a, dem)
        if nm in self.mod.funcs:
            return self.run(st, nm, a, depth + 1)
        raise Unsupported('call of %s' % dem)
    def vslot(self, o):
        if not hasattr(self, '_vt'):
            t = next(v for n, v in self.mod.globals.items() if n.startswith('_ZTVN6google16simple_lru_cache18SimpleLRUCacheBase'))
            self._vt = re.findall(r'ptr (null|@[\w.$]+)', t[t.index('['):])
        i = o // 8 + 2
        n = self._vt[i].lstrip('@')
        return n
F2I = z3.Function('f2i', z3.Float64(), I)

def short(d):
    d = d.replace('google::simple_lru_cache::', '')
    d = re.sub(r'<long, Val, Map, std::equal_to<long>>', '', d)
    d = re.sub(r'SimpleLRUCacheElem<long, Val>', 'Elem', d)
    d = re.sub(r'SimpleLRUCacheConstIterator<long, Val, Map>', 'ConstIterator', d)
    return d.replace('SimpleLRUCacheBase', 'Base').replace('SimpleLRUCacheOptions', 'Options')
