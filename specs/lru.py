"""Contracts of the LRU cache (simple_lru_cache/simple_lru_cache_inl.h), decided by irv/lru_exec.py.

An entry e is alive from its creation to its deletion.  inT(e): it is in table_ under its key.  inL(e): in table_ and linked, so on the LRU
list.  Dm(e): alive and not in table_, so deferred.  Ghost state: stamp(e), the time of linking (a counter); tp(e), the outstanding pins that
took e off the list; su, st, sp, na, nt: sum of the units of all entries, of table_, of its pinned entries, numbers of entries and of table_."""
import z3, time
from irv.lru_exec import *
from irv.lru_exec import Unsupported, short
from irv.spec import Result, find_fn

VERIF_TU = __import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))), 'lru', 'lru_tu.cc')
TU = VERIF_TU
And, Or, Not, Imp = z3.And, z3.Or, z3.Not, z3.Implies
P19, P20, P21, P22, P23 = {'C19'}, {'C20'}, {'C21'}, {'C22'}, {'C23'}
ALL5 = set(ALLP)

# ---- the representation invariant ----------------------------------------------------------------
def INV(S, s4=True, T=True):
    """list of (name, variables, formula, properties)"""
    r = []
    add = lambda n, vs, f, p: r.append((n, vs, f, p))
    if T: add('the table is complete', 'K', lambda k: S.T(k) == S.Tg(k), ALL5)
    add('table entries exist and carry their key', 'K', lambda k: Imp(S.Tg(k) != NULL, And(S.alive(S.Tg(k)), S.key(S.Tg(k)) == k)), ALL5)
    add('deferred heads exist, carry their key and are out of the table', 'K', lambda k: Imp(S.D(k) != NULL, And(S.alive(S.D(k)), S.key(S.D(k)) == k, S.Tg(k) != S.D(k))), ALL5)
    add('entries out of the table are deferred and pinned', 'E', lambda e: Imp(S.Dm(e), And(S.D(S.key(e)) != NULL, S.pin(e) > 0, S.next(e) != NULL)), ALL5)
    add('entries are well formed', 'E', lambda e: Imp(S.alive(e), And(e != HEAD, e != NULL, S.pin(e) >= 0, S.units(e) >= 0, (S.next(e) == NULL) == (S.prev(e) == NULL), S.tp(e) >= 0, S.tp(e) <= S.pin(e),
        S.val(e) != 0, S.stamp(e) <= S.linkc)), ALL5)
    add('last use times lie between zero and now', 'E', lambda e: Imp(S.alive(e), And(S.lu(e) >= 0, S.lu(e) <= S.now)), P23 | P22)
    add('the LRU list is closed', 'E', lambda e: Imp(S.inL(e), And(Or(S.next(e) == HEAD, S.inL(S.next(e))), S.prev(S.next(e)) == e, Or(S.prev(e) == HEAD, S.inL(S.prev(e))), S.next(S.prev(e)) == e)), ALL5)
    add('the LRU list head is linked', '', And(Or(S.next(HEAD) == HEAD, S.inL(S.next(HEAD))), S.prev(S.next(HEAD)) == HEAD, Or(S.prev(HEAD) == HEAD, S.inL(S.prev(HEAD))), S.next(S.prev(HEAD)) == HEAD), ALL5)
    add('link stamps differ', 'EE', lambda e, f: Imp(And(S.alive(e), S.alive(f), S.linked(e), S.linked(f), S.stamp(e) == S.stamp(f)), e == f), ALL5)
    add('the LRU list is in order of linking', 'E', lambda e: Imp(And(S.inL(e), S.prev(e) != HEAD), S.stamp(S.prev(e)) > S.stamp(e)), ALL5)
    add('list neighbours are neighbours in the order', 'EE', lambda e, f: Imp(And(S.inL(e), S.inL(f), S.stamp(f) > S.stamp(e)), And(S.prev(e) != HEAD, S.stamp(S.prev(e)) <= S.stamp(f))), ALL5)
    add('the oldest is at the end of the list', 'E', lambda f: Imp(S.inL(f), And(S.prev(HEAD) != HEAD, S.stamp(S.prev(HEAD)) <= S.stamp(f))), ALL5)
    add('only entries pinned in LRU mode are off the list', 'E', lambda e: Imp(And(S.inT(e), S.next(e) == NULL), And(S.pin(e) > 0, S.lru_)), ALL5)
    add('entries pinned by updating lookups are off the list', 'E', lambda e: Imp(And(S.lru_, S.inL(e)), S.tp(e) == 0), P22 | P23)
    add('the list is in order of last use', 'EE', lambda e, f: Imp(And(S.inL(e), S.inL(f), S.stamp(e) < S.stamp(f)), S.lu(e) <= S.lu(f)), P22 | P23)
    add('deferred lists are closed', 'E', lambda e: Imp(S.Dm(e), And(S.Dm(S.next(e)), S.key(S.next(e)) == S.key(e), S.prev(S.next(e)) == e, S.Dm(S.prev(e)), S.key(S.prev(e)) == S.key(e), S.next(S.prev(e)) == e)), ALL5)
    add('deferred lists are in order', 'E', lambda e: Imp(And(S.Dm(e), S.prev(e) != S.D(S.key(e))), S.stamp(S.prev(e)) > S.stamp(e)), ALL5)
    add('deferred neighbours are neighbours in the order', 'EE', lambda e, f: Imp(And(S.Dm(e), S.Dm(f), S.key(e) == S.key(f), S.stamp(f) > S.stamp(e)), And(S.prev(e) != S.D(S.key(e)), S.stamp(S.prev(e)) <= S.stamp(f))), ALL5)
    add('deferred lists start with the oldest', 'E', lambda f: Imp(S.Dm(f), S.stamp(S.D(S.key(f))) <= S.stamp(f)), ALL5)
    add('values are distinct', 'EE', lambda e, f: Imp(And(S.alive(e), S.alive(f), S.val(e) == S.val(f)), e == f), ALL5)
    if T:
        add('units_ is the sum of the units of all entries', '', S.units_ == S.su, P21 | P22)
        add('pinned_units_ is the sum of the units of the pinned entries of the table', '', S.pinned_ == S.sp, P21)
    if s4: add('over the maximum only by pinned entries', 'E', lambda e: Imp(And(S.units_ > S.max_, S.inT(e)), S.pin(e) > 0), P21 | P22)
    return r

def assume_all(st, L):
    for x in L:
        n, vs, f = x[0], x[1], x[2]
        if vs: st.fact(vs, f)
        else: st.assume(f)

def sums(st):
    """sums over nothing are zero: needs a witness that there is something"""
    S = st.snap()
    w, k = st.addE(fresh('w', E)), st.addK(fresh('wk', I))
    st.assume(Or(S.alive(w), And(S.su == 0, S.na == 0)))
    st.assume(Or(S.Tg(k) != NULL, And(S.st == 0, S.sp == 0, S.nt == 0)))

FP = dict(val=P19 | P20, key=P19 | P20, units=P21, lu=P23, pin=P20, tp=ALL5, stamp=P22)
def same(S0, S1, fields, but=None):
    """entries alive before and after keep the fields"""
    r = []
    for f in fields:
        ex = (but or {}).get(f)
        def g(x, f=f, ex=ex):
            c = And(S0.alive(x), S1.alive(x))
            if f == 'stamp': c = And(S0.inL(x), S1.inT(x))
            if ex is not None: c = And(c, Not(ex(x)))
            return Imp(c, getattr(S1, f)(x) == getattr(S0, f)(x))
        r.append(('entries keep %s' % dict(val='their value', key='their key', units='their size', lu='their last use time', pin='their pins', tp='their pins (ghost)', stamp='their place in the order')[f], 'E', g, FP[f]))
    return r
def nonew(S0, S1, n=None):
    return [('no entry appears from nowhere', 'E', lambda x: Imp(And(S1.alive(x), *([x != n] if n is not None else [])), S0.alive(x)), ALL5)]

# ---- garbageCollect ------------------------------------------------------------------------------
def gone(S0, S1): return lambda x: And(S0.alive(x), Not(S1.alive(x)))
def gc_rel(S0, S1):
    g = gone(S0, S1)
    r = nonew(S0, S1) + same(S0, S1, ('val', 'key', 'units', 'lu', 'pin', 'tp'))
    r += [('linked entries keep their stamp', 'E', lambda x: Imp(S1.alive(x), S1.stamp(x) == S0.stamp(x)), P22),
          ('only unpinned entries on the list are evicted', 'E', lambda x: Imp(g(x), And(S0.inL(x), S0.pin(x) == 0)), P20 | P22 | P19 | P23),
          ('the table only loses what is evicted', 'K', lambda k: Or(And(S1.Tg(k) == S0.Tg(k), Imp(S1.Tg(k) != NULL, S1.alive(S1.Tg(k)))), And(S1.Tg(k) == NULL, g(S0.Tg(k)))), P19 | P22 | P23),
          ('deferred entries stay', 'K', lambda k: S1.D(k) == S0.D(k), P20),
          ('entries stay linked or unlinked', 'E', lambda x: Imp(S1.inT(x), S1.linked(x) == S0.linked(x)), P22 | P23),
          ('eviction is in order', 'EE', lambda x, f: Imp(And(g(x), S0.inL(f), S0.pin(f) == 0, S0.stamp(f) < S0.stamp(x)), g(f)), P22),
          ('eviction stops within the maximum', 'E', lambda x: Imp(g(x), And(g(S1.gl), S1.units_ + S0.units(S1.gl) > S1.max_, S0.su >= S1.su + S0.units(S1.gl))), P22),
          ('the limits and the mode stay', '', And(S1.max_ == S0.max_, S1.idle_ == S0.idle_, S1.lru_ == S0.lru_, S1.clk == S0.clk), ALL5),
          ('the sum of the units does not grow', '', S1.su <= S0.su, P21 | P22)]
    return r
GC_MOD = ('next', 'prev', 'alive', 'T', 'Tg', 'units_', 'pinned_', 'su', 'st', 'sp', 'na', 'nt', 'gl')
# ---- discardIdle ---------------------------------------------------------------------------------
def di_rel(S0, S1, out, upto=True):
    """out(x): x leaves the table"""
    g = gone(S0, S1)
    r = nonew(S0, S1) + same(S0, S1, ('val', 'key', 'units', 'lu', 'pin', 'tp'))
    r += [('only expired entries are destroyed, if unpinned', 'E', lambda x: Imp(g(x), And(out(x), S0.pin(x) == 0)), P20 | P23 | P19),
          ('entries on the list keep their stamp', 'E', lambda x: Imp(S1.inT(x), And(S1.stamp(x) == S0.stamp(x), S1.linked(x) == S0.linked(x))), P22 | P23),
          ('the table loses only expired entries', 'K', lambda k: Or(And(S1.Tg(k) == S0.Tg(k), Imp(S1.Tg(k) != NULL, Not(out(S0.Tg(k))) if upto else True)), And(S1.Tg(k) == NULL, out(S0.Tg(k)))), P19 | P23),
          ('entries leave the table only by expiry', 'E', lambda x: Imp(And(S1.alive(x), S0.inT(x), Not(out(x))), S1.inT(x)), P19 | P23),
          ('nothing enters the table', 'E', lambda x: Imp(S1.inT(x), S0.inT(x)), P19 | P23),
          ('the limits and the mode stay', '', And(S1.max_ == S0.max_, S1.idle_ == S0.idle_, S1.lru_ == S0.lru_), ALL5)]
    if upto: r += [('all expired entries leave the table', 'E', lambda x: Imp(And(S0.inL(x), out(x)), Not(S1.inT(x))), P23)]
    return r
DI_MOD = ('next', 'prev', 'alive', 'T', 'Tg', 'D', 'units_', 'pinned_', 'su', 'st', 'sp', 'na', 'nt', 'clk', 'stamp', 'linkc')

# ---- loops ---------------------------------------------------------------------------------------
class Loop:
    """a loop cut: subclasses state rel(S, cur) on top of the invariant"""
    mods = ALL
    keep = ('clk', 'idle_', 'max_', 'lru_')
    inv_s4 = True
    inv_T = True
    bumps = ()
    def __init__(self, ex, ctx, st, vals, act):
        self.ex, self.ctx, self.act = ex, ctx, act
        self.S0 = ctx['S0']          # at function entry
        self.Sl = st.snap()          # at loop entry
        self.st0 = st
        self.init(st, vals)
    def init(self, st, vals): pass
    def cur(self, vals):
        c = [v[1] for v in vals.values() if isinstance(v, tuple) and v[0] == 'E']
        if len(c) != 1: raise Unsupported('loop with %d entry variables' % len(c))
        return c[0]
    def rel(self, S, vals): return []
    def rest(self, S, vals): return INV(S, self.inv_s4, self.inv_T)
    def inv(self, st, vals): return self.rest(st.snap(), vals) + self.rel(st.snap(), vals)
    def havoc(self, st, nv): st.havoc([m for m in self.mods if m not in self.keep])
    def assume(self, st, nv):
        return [(vs, f) for n, vs, f, p in self.inv(st, nv)]
    def at_back(self, st, vals, env): pass
    def at_key(self, st, k): self.k = k
    def at_end(self, st): return self

class GcLoop(Loop):
    """from the oldest entry on; what was passed is evicted or pinned"""
    mods = GC_MOD
    inv_s4 = False
    def rel(self, S, vals):
        c = self.cur(vals)
        self.c = c
        S0 = self.S0
        return gc_rel(S0, S) + [('the current entry is on the list', '', Or(c == HEAD, S.inL(c)), ALL5),
            ('what was passed is pinned', 'E', lambda f: Imp(And(S.inL(f), Or(c == HEAD, S.stamp(f) < S.stamp(c))), S.pin(f) > 0), P21 | P22),
            ('what was evicted is older', 'E', lambda x: Imp(And(S0.alive(x), Not(S.alive(x)), c != HEAD), S0.stamp(x) < S.stamp(c)), P22)]
    def havoc(self, st, nv):
        Loop.havoc(self, st, nv)
        self.head = self.cur(nv)
    def at_back(self, st, vals, env):
        m = st.m
        m['gl'] = z3.If(m['alive'](self.head), m['gl'], self.head)

class DiLoop(Loop):
    """from the oldest entry on; the entries passed leave the table"""
    mods = DI_MOD
    bumps = ('D',)
    def thr(self, S): return S.now - self.ctx['args'][1]
    def rel(self, S, vals):
        c = self.cur(vals)
        S0 = self.S0
        out = lambda x: And(S0.inL(x), S0.lu(x) < self.thr(S))
        r = di_rel(S0, S, out, False) + [('the current entry is the oldest on the list', '', c == S.prev(HEAD), ALL5)]
        ints = [v for v in vals.values() if not (isinstance(v, tuple) and v[0] == 'E')]
        for v in ints:
            if isinstance(v, bool) or (not isinstance(v, int) and not z3.is_int(v)): continue
            r.append(('the entries come in order of last use', '', Imp(c != HEAD, v <= S.lu(c)), P23))
        return r

class RemoveAllLoop(Loop):
    """the keys passed have left the ghost table; their entries are destroyed, or deferred if pinned"""
    inv_s4 = inv_T = False
    bumps = ('D',)
    mods = ('next', 'prev', 'alive', 'D', 'Tg', 'stamp', 'linkc', 'units_', 'pinned_', 'su', 'st', 'sp', 'na', 'nt')
    def rel(self, S, vals):
        S0 = self.S0
        g = gone(S0, S)
        return nonew(S0, S) + [
            ('only unpinned entries are destroyed', 'E', lambda x: Imp(g(x), And(S0.inT(x), S0.pin(x) == 0, S.Tg(S.key(x)) == NULL)), P20 | P19),
            ('the table to come is a part of the table', 'K', lambda k: And(S.T(k) == S0.T(k), Or(S.Tg(k) == NULL, S.Tg(k) == S0.T(k))), ALL5),
            ('unpinned entries passed are destroyed', 'E', lambda x: Imp(And(S0.inT(x), S0.pin(x) == 0, S.Tg(S.key(x)) == NULL), Not(S.alive(x))), P20),
            ('units_ is the sum of the units of all entries', '', S.units_ == S.su, P21),
            ('pinned_units_ is the sum of the units of the pinned entries to come', '', S.pinned_ == S.sp, P21)]

class RemoveUnpinnedLoop(Loop):
    """from the newest entry on; what was passed and is still there is pinned"""
    def init(self, st, vals): self.mods = [m for m in GC_MOD if m != 'gl']
    def rel(self, S, vals):
        c = self.cur(vals)
        S0 = self.S0
        g = gone(S0, S)
        return ru_rel(S0, S) + [('the current entry is on the list', '', Or(c == HEAD, S.inL(c)), ALL5),
            ('what was passed is pinned', 'E', lambda f: Imp(And(S.inL(f), Or(c == HEAD, S.stamp(f) > S.stamp(c))), S.pin(f) > 0), P20)]
def ru_rel(S0, S):
    g = gone(S0, S)
    return nonew(S0, S) + same(S0, S, ('val', 'key', 'units', 'lu', 'pin', 'tp')) + [
            ('entries keep their stamp', 'E', lambda x: Imp(S.alive(x), S.stamp(x) == S0.stamp(x)), P22),
            ('only unpinned entries are destroyed', 'E', lambda x: Imp(g(x), And(S0.inL(x), S0.pin(x) == 0)), P20),
            ('the table only loses what is destroyed', 'K', lambda k: Or(And(S.Tg(k) == S0.Tg(k), Imp(S.Tg(k) != NULL, S.alive(S.Tg(k)))), And(S.Tg(k) == NULL, g(S0.Tg(k)))), P19 | P20),
            ('deferred entries stay', 'K', lambda k: S.D(k) == S0.D(k), P20),
            ('entries stay linked or unlinked', 'E', lambda x: Imp(S.inT(x), S.linked(x) == S0.linked(x)), P22)]

class ClearLoop(Loop):
    """the entries passed are destroyed; the list is not maintained"""
    mods = ('alive', 'Tg', 'units_', 'su', 'st', 'sp', 'na', 'nt')
    def rest(self, S, vals): return [x for x in INV(S, False, False) if x[0] in ('table entries exist and carry their key', 'entries are well formed', 'values are distinct')]
    def rel(self, S, vals):
        S0 = self.S0
        return nonew(S0, S) + [
            ('the table to come is a part of the table', 'K', lambda k: And(S.T(k) == S0.T(k), S.D(k) == S0.D(k), Or(S.Tg(k) == NULL, S.Tg(k) == S0.T(k))), ALL5),
            ('entries passed are destroyed, others are not', 'E', lambda x: Imp(S0.alive(x), S.alive(x) == (S.Tg(S.key(x)) != NULL)), P20)]

NEXT, SWAP = 1, 2      # alternatives: the list is followed through next instead of prev; the accumulators are in the other order
def older(ex, S):
    """f comes before c on the way from the head"""
    if ex.choose(NEXT): return lambda f, c: S.stamp(f) > S.stamp(c)
    return lambda f, c: S.stamp(f) < S.stamp(c)
def passed(ex, S, h):
    """f was passed when the current entry is c and the walk began with the head"""
    if ex.choose(NEXT): return lambda f, c: And(c != h, Or(f == h, S.stamp(f) > S.stamp(c)))
    return lambda f, c: S.stamp(f) < S.stamp(c)
class SearchLoop(Loop):
    """once around the deferred list, the head last; no entry passed has the value"""
    def init(self, st, vals): self.mods = ()
    def rest(self, S, vals): return []
    def rel(self, S, vals):
        c = self.cur(vals)
        k, v = self.key(), self.ctx['args'][2]
        v = self.ex.asI(v)
        h = S.D(k)
        o = older(self.ex, S)
        return [('the current entry is in the deferred list', '', And(h != NULL, S.Dm(c), S.key(c) == k), ALL5),
                ('no entry passed has the value', 'E', lambda f: Imp(And(S.Dm(f), S.key(f) == k, f != h, Or(c == h, o(f, c))), S.val(f) != v), P20 | P19)]
    def key(self):
        if 'key' not in self.ctx: self.ctx['key'] = self.ex.load(self.st0, ('i', 64), self.ctx['args'][1])
        return self.ctx['key']

class InRingLoop(SearchLoop):
    """around the deferred list; no entry passed matches"""
    def rel(self, S, vals):
        c = self.cur(vals)
        k, v = self.key(), self.ex.asI(self.ctx['args'][2])
        h = S.D(k)
        p = passed(self.ex, S, h)
        return [('the current entry is in the deferred list', '', And(h != NULL, S.Dm(c), S.key(c) == k), ALL5),
                ('no entry passed matches', 'E', lambda f: Imp(And(S.Dm(f), S.key(f) == k, p(f, c)), And(v != 0, S.val(f) != v)), P20 | P19)]

class UpdateRingLoop(SearchLoop):
    """around the deferred list; the entries passed that match have the new size"""
    def init(self, st, vals): self.mods = ('units', 'units_', 'su')
    def rest(self, S, vals): return [('units_ is the sum of the units of all entries', '', S.units_ == S.su, P21)]
    def rel(self, S, vals):
        c = self.cur(vals)
        k, v, u = self.key(), self.ex.asI(self.ctx['args'][2]), self.ex.asI(self.ctx['args'][3])
        h = S.D(k)
        S0 = self.S0
        p = passed(self.ex, S, h)
        m = lambda f: And(S.Dm(f), S.key(f) == k, p(f, c), Or(v == 0, S.val(f) == v))
        return [('the current entry is in the deferred list', '', And(h != NULL, S.Dm(c), S.key(c) == k), ALL5),
                ('the matching entries passed have the new size', 'E', lambda f: S.units(f) == z3.If(m(f), u, S0.units(f)), P21)]

class CountOuter(Loop):
    """the entries of the keys passed are counted"""
    def init(self, st, vals):
        self.mods = ('vis', 'Dg', 'rs', 'rn')
        m = st.m
        m['vis'] = FMap(lambda e: z3.BoolVal(False)); m['Dg'] = m['D']
        m['rs'] = m['su'] - m['st']; m['rn'] = m['na'] - m['nt']
        self.accumulators(vals)
    def accumulators(self, vals):
        """the number and the sum: two local variables, or what the arguments point to"""
        ints = [d for d, v in vals.items() if not isinstance(v, (P, tuple, bool)) and (isinstance(v, int) or z3.is_int(v))]
        self.cells = [] if len(ints) == 2 else [self.ctx['args'][1], self.ctx['args'][2]]
        self.vars = (ints[::-1] if self.ex.choose(SWAP) else ints) if len(ints) == 2 else []
    def rest(self, S, vals): return []
    def val(self, st, i, vals): return vals[self.vars[i]] if self.vars else st.cells[(self.cells[i].b, self.cells[i].o)]
    def inv(self, st, vals):
        S = st.snap()
        S0 = self.S0
        n, s = self.ex.asI(self.val(st, 0, vals)), self.ex.asI(self.val(st, 1, vals))
        return [('the keys to come are a part of the map', 'K', lambda k: Or(S.Dg(k) == NULL, S.Dg(k) == S.D(k)), P21),
                ('the entries of the keys passed are visited', 'E', lambda x: Imp(S.Dm(x), S.vis(x) == (S.Dg(S.key(x)) == NULL)), P21),
                ('the sum and the number are those of the visited entries', '', And(s == S.su - S.st - S.rs, n == S.na - S.nt - S.rn), P21)]
    def havoc(self, st, nv):
        Loop.havoc(self, st, nv)
        self.cellset = {(c.b, c.o) for c in self.cells}
        for c in self.cells: st.cells[(c.b, c.o)] = fresh('acc', I)

class CountInner(CountOuter):
    """around one deferred list"""
    def init(self, st, vals):
        self.mods = ('vis', 'rs', 'rn')
        self.accumulators(vals)
        outer = [L for L in self.act.values() if isinstance(L, CountOuter) and not isinstance(L, CountInner)]
        if len(outer) != 1: raise Unsupported('loop nest')
        self.k = outer[0].k
        self.V0 = st.m['vis']
    def inv(self, st, vals):
        S = st.snap()
        c = self.c = self.cur(vals)
        k = self.k
        n, s = self.ex.asI(self.val(st, 0, vals)), self.ex.asI(self.val(st, 1, vals))
        V0 = self.V0
        p = passed(self.ex, S, S.D(k))
        return [('the current entry is in the deferred list', '', And(S.D(k) != NULL, S.Dm(c), S.key(c) == k), P21),
                ('the entries passed are visited', 'E', lambda x: Imp(S.Dm(x), S.vis(x) == Or(V0(x), And(S.key(x) == k, p(x, c)))), P21),
                ('the sum and the number are those of the visited entries', '', And(s == S.su - S.st - S.rs, n == S.na - S.nt - S.rn), P21)]
    def havoc(self, st, nv):
        CountOuter.havoc(self, st, nv)
        # ghost code: the current entry is visited in this iteration
        c = self.cur(nv)
        self.hc = c
    def assume(self, st, nv):
        r = CountOuter.assume(self, st, nv)
        for vs, f in r: st.fact(vs, f) if vs else st.assume(f)
        S = st.snap()
        c = self.hc
        self.ex.oblige(st, 'countDeferredEntries: no entry is counted twice', Not(S.vis(c)), P21)
        m = st.m
        # sums over non-negative numbers: the entry not visited yet is part of the rest, the rest is part of the whole
        st.assume(And(m['rn'] >= 1, m['rn'] <= m['na'] - m['nt'], m['rs'] >= m['units'](c), m['rs'] <= m['su'] - m['st'], m['su'] - m['st'] <= m['su']))
        m['vis'] = m['vis'].set(c, z3.BoolVal(True))
        m['rs'] = m['rs'] - m['units'](c); m['rn'] = m['rn'] - 1
        return []

LOOPS = {('Base::garbageCollect()', 0): GcLoop, ('Base::discardIdle(long)', 0): DiLoop, ('Base::removeAll()', 0): RemoveAllLoop, ('Base::removeUnpinned()', 0): RemoveUnpinnedLoop,
         ('Base::clear()', 0): ClearLoop, ('Base::releaseWithOptions(long const&, Val*, Options const&)', 0): SearchLoop, ('Base::inDeferredTable(long const&, Val const*) const', 0): InRingLoop,
         ('Base::updateSize(long const&, Val const*, unsigned long)', 0): UpdateRingLoop, ('Base::countDeferredEntries(long*, long*) const', 0): CountOuter,
         ('Base::countDeferredEntries(long*, long*) const', 1): CountInner}

# ---- contracts of callees --------------------------------------------------------------------------
def c_gc(ex, st, a, dem):
    S0 = st.snap()
    for n, vs, g, p in INV(S0, False): ex.oblige(st, '%s: garbageCollect is called with: %s' % (ex.curfn, n), g, p, vs)
    st.havoc(GC_MOD)
    S1 = st.snap()
    assume_all(st, gc_rel(S0, S1)); assume_all(st, INV(S1))
    st.addE(S1.gl)
    st.events.append(('gc', S0, S1))
    return [(st, None)]
def expired(S0, clk, idle): return lambda x: And(S0.inL(x), idle >= 0, S0.lu(x) < clk / 1000 - idle)
def c_di(ex, st, a, dem):
    S0 = st.snap()
    mx = ex.asI(a[1])
    for n, vs, g, p in INV(S0): ex.oblige(st, '%s: discardIdle is called with: %s' % (ex.curfn, n), g, p, vs)
    st.havoc(DI_MOD)
    S1 = st.snap()
    st.assume(S1.clk >= S0.clk)
    assume_all(st, di_rel(S0, S1, expired(S0, S1.clk, mx))); assume_all(st, INV(S1))
    st.events.append(('discardIdle', S0, S1))
    return [(st, None)]
def c_indef(ex, st, a, dem):
    S = st.snap()
    for n, vs, g, p in INV(S): ex.oblige(st, '%s: inDeferredTable is called with: %s' % (ex.curfn, n), g, p, vs)
    k, v = ex.load(st, ('i', 64), a[1]), ex.asI(a[2])
    r = fresh('indef', B)
    w = st.addE(fresh('w', E))
    st.assume(Imp(r, And(S.Dm(w), S.key(w) == k, Or(v == 0, S.val(w) == v))))
    st.fact('E', lambda x: Imp(And(Not(r), S.Dm(x), S.key(x) == k), And(v != 0, S.val(x) != v)))
    return [(st, r)]
def c_count(ex, st, a, dem):
    S = st.snap()
    for n, vs, g, p in INV(S): ex.oblige(st, '%s: countDeferredEntries is called with: %s' % (ex.curfn, n), g, p, vs)
    ex.store(st, ('i', 64), simp(S.na - S.nt), a[1]); ex.store(st, ('i', 64), simp(S.su - S.st), a[2])
    return [(st, None)]

def mapof(ex, p):
    if isinstance(p, P) and p.k == 'this':
        if p.o == ex.off['Base.table_']: return 'T'
        if p.o == ex.off['Base.defer_']: return 'D'
    raise Unsupported('map at %r' % (p,))
def noslot(ex, st):
    for s in st.slots: ex.oblige(st, '%s: no null entries are stored' % ex.curfn, False, ALL5)
def m_find(ex, st, a, dem):
    mp = mapof(ex, a[0]); noslot(ex, st)
    k = ex.load(st, ('i', 64), a[1])
    st.addK(k)
    c = st.m[mp](k) != NULL
    out = []
    ep = st.epoch[mp]
    f1, f2 = ex.feasible(st, c), ex.feasible(st, Not(c))
    if f2:
        s = st.copy(); s.assume(Not(c)); s.log.append('%s has no key %s' % (mp, k)); out.append((s, P('end', (mp, ep, 'x'))))
    if f1:
        st.assume(c); st.log.append('%s has key %s' % (mp, k))
        st.nameE(st.m[mp](k), 'found')
        out.append((st, P('slot', (mp, ep, 'x'), 0, k)))
    return out
def m_end(ex, st, a, dem):
    mp = mapof(ex, a[0])
    return [(st, P('end', (mp, st.epoch[mp], 'x')))]
def m_begin(ex, st, a, dem):
    mp = mapof(ex, a[0])
    noslot(ex, st)
    if mp == 'D': st.m['Dg'] = st.m['D']
    return [(st, P('next', (mp, st.epoch[mp], 'it')))]
def it_cmp(eq):
    def f(ex, st, a, dem):
        p, q = ex.load(st, ('ptr',), a[0]), ex.load(st, ('ptr',), a[1])
        if not (isinstance(p, P) and isinstance(q, P) and p.k in ('slot', 'end') and q.k in ('slot', 'end')): raise Unsupported('comparison of iterators')
        if p.b[0] != q.b[0]: ex.oblige(st, '%s: iterators of different maps are not compared' % ex.curfn, False, ALL5)
        if p.k != q.k: r = z3.BoolVal(False)
        elif p.k == 'end': r = z3.BoolVal(True)
        else: r = p.x == q.x
        return [(st, r if eq else simp(Not(r)))]
    return f
def it_deref(ex, st, a, dem):
    p = ex.load(st, ('ptr',), a[0])
    if not (isinstance(p, P) and p.k in ('slot', 'end')): raise Unsupported('iterator %r' % (p,))
    if p.k == 'end':
        ex.oblige(st, '%s: end is not dereferenced' % ex.curfn, False, ALL5)
        raise Dead()
    ex.fresh_iter(st, p)
    return [(st, p)]
def it_inc(ex, st, a, dem):
    p = ex.load(st, ('ptr',), a[0])
    if not (isinstance(p, P) and p.k == 'slot' and p.b[2] == 'it'): raise Unsupported('increment of %r' % (p,))
    if p.b[1] != st.epoch[p.b[0]]: ex.fresh_iter(st, p)
    ex.ghost_drop(st, p.x, p.b[0])
    ex.store(st, ('ptr',), P('next', p.b), a[0])
    return [(st, a[0])]
def m_erase_it(ex, st, a, dem):
    mp, p = mapof(ex, a[0]), a[1]
    if not (isinstance(p, P) and p.k == 'slot' and p.b[0] == mp):
        if isinstance(p, P) and p.k == 'end':
            ex.oblige(st, '%s: end is not erased' % ex.curfn, False, ALL5)
            raise Dead()
        raise Unsupported('erase of %r' % (p,))
    if p.b[2] == 'it': raise Unsupported('erase while iterating')
    ex.fresh_iter(st, p)
    ex.mapset(st, mp, p.x, NULL)
    return [(st, None)]
def m_erase_key(ex, st, a, dem):
    mp = mapof(ex, a[0])
    k = ex.load(st, ('i', 64), a[1])
    st.addK(k)
    r = z3.If(st.m[mp](k) != NULL, z3.IntVal(1), z3.IntVal(0))
    st.nameE(st.m[mp](k), 'erased')
    ex.mapset(st, mp, k, NULL)
    return [(st, simp(r))]
def m_index(ex, st, a, dem):
    mp = mapof(ex, a[0]); noslot(ex, st)
    k = ex.load(st, ('i', 64), a[1])
    st.addK(k)
    c = st.m[mp](k) != NULL
    out = []
    f1, f2 = ex.feasible(st, c), ex.feasible(st, Not(c))
    if f2:
        s = st.copy(); s.assume(Not(c)); s.epoch[mp] += 1; s.slots.append((mp, k))
        out.append((s, P('slot', (mp, s.epoch[mp], 'w'), 8, k)))
    if f1:
        st.assume(c); st.nameE(st.m[mp](k), 'found')
        out.append((st, P('slot', (mp, st.epoch[mp], 'w'), 8, k)))
    return out
def m_insert(ex, st, a, dem):
    """insert(pair), emplace(k, v), try_emplace(k, v), insert_or_assign(k, v): an iterator to k's entry and whether k is new"""
    mp = mapof(ex, a[0]); noslot(ex, st)
    if 'Map::insert(' in dem: k, v = ex.load(st, ('i', 64), a[1]), ex.load(st, ('ptr',), ex.gep(a[1], 8))
    else: k, v = ex.load(st, ('i', 64), a[1]), a[2]
    st.addK(k)
    v = ex.asE(v)
    c = st.m[mp](k) != NULL
    ex.oblige(st, '%s: no null entries are stored' % ex.curfn, v != NULL, ALL5)
    out = []
    f1, f2 = ex.feasible(st, c), ex.feasible(st, Not(c))
    if f2:
        s = st.copy(); s.assume(Not(c)); s.epoch[mp] += 1
        ex.mapset(s, mp, k, v); s.addE(v)
        out.append((s, ('S', (P('slot', (mp, s.epoch[mp], 'x'), 0, k), True))))
    if f1:
        st.assume(c); st.nameE(st.m[mp](k), 'found')
        if 'assign' in dem: ex.mapset(st, mp, k, v); st.addE(v)
        out.append((st, ('S', (P('slot', (mp, st.epoch[mp], 'x'), 0, k), False))))
    return out
def m_at(ex, st, a, dem):
    mp = mapof(ex, a[0])
    k = ex.load(st, ('i', 64), a[1])
    st.addK(k)
    ex.oblige(st, '%s: at() of a present key' % ex.curfn, st.m[mp](k) != NULL, ALL5)
    st.nameE(st.m[mp](k), 'found')
    return [(st, P('slot', (mp, st.epoch[mp], 'w'), 8, k))]
def m_count(ex, st, a, dem):
    mp = mapof(ex, a[0])
    k = ex.load(st, ('i', 64), a[1])
    st.addK(k)
    c = st.m[mp](k) != NULL
    return [(st, c if 'contains' in dem else z3.If(c, z3.IntVal(1), z3.IntVal(0)))]
def m_size(ex, st, a, dem):
    mp = mapof(ex, a[0]); noslot(ex, st)
    if mp == 'T':
        sums(st)
        return [(st, st.m['nt'])]
    n = fresh('size', I)
    w = st.addK(fresh('wk', I))
    D = st.m['D']
    st.assume(And(n >= 0, Or(D(w) != NULL, n == 0)))
    st.fact('K', lambda k: Imp(D(k) != NULL, n > 0))
    return [(st, n)]
def m_empty(ex, st, a, dem):
    mp = mapof(ex, a[0]); noslot(ex, st)
    M = st.m[mp]
    b = fresh('empty', B)
    w = st.addK(fresh('wk', I))
    st.assume(Imp(Not(b), M(w) != NULL))
    st.fact('K', lambda k: Imp(b, M(k) == NULL))
    return [(st, b)]
def m_clear(ex, st, a, dem):
    ex.mapclear(st, mapof(ex, a[0]))
    return [(st, None)]
def m_resize(ex, st, a, dem):
    st.epoch[mapof(ex, a[0])] += 1
    return [(st, None)]
def m_ctor(ex, st, a, dem):
    ex.mapclear(st, mapof(ex, a[0]))
    return [(st, None)]
def c_new(ex, st, a, dem): return [(st, ('E', ex.new_entry(st)))]
def c_delete(ex, st, a, dem):
    if isinstance(a[0], P) and a[0].k == 'null': return [(st, None)]
    ex.delete_entry(st, ex.asE(a[0]))
    return [(st, None)]
def c_remove_element(ex, st, a, dem):
    ex.destroy_value(st, a[1])
    return [(st, None)]
def c_now(ex, st, a, dem):
    c = fresh('clk', I)
    st.assume(And(c >= st.m['clk'], c <= IMAX))
    st.m['clk'] = c
    return [(st, c)]
CONTRACT = {'Base::garbageCollect()': c_gc, 'Base::discardIdle(long)': c_di, 'Base::inDeferredTable(long const&, Val const*) const': c_indef, 'Base::countDeferredEntries(long*, long*) const': c_count,
    'Map::find(long const&)': m_find, 'Map::find(long const&) const': m_find, 'Map::end()': m_end, 'Map::end() const': m_end, 'Map::begin()': m_begin, 'Map::begin() const': m_begin,
    'Map::iterator::operator==(Map::iterator const&) const': it_cmp(True), 'Map::iterator::operator!=(Map::iterator const&) const': it_cmp(False),
    'Map::const_iterator::operator==(Map::const_iterator const&) const': it_cmp(True), 'Map::const_iterator::operator!=(Map::const_iterator const&) const': it_cmp(False),
    'Map::iterator::operator->() const': it_deref, 'Map::iterator::operator*() const': it_deref, 'Map::const_iterator::operator->() const': it_deref, 'Map::const_iterator::operator*() const': it_deref,
    'Map::iterator::operator++()': it_inc, 'Map::const_iterator::operator++()': it_inc, 'Map::erase(Map::iterator)': m_erase_it, 'Map::erase(long const&)': m_erase_key, 'Map::operator[](long const&)': m_index,
    'Map::insert(std::pair<long const, Elem*> const&)': m_insert, 'Map::emplace(long const&, Elem*)': m_insert, 'Map::try_emplace(long const&, Elem*)': m_insert, 'Map::insert_or_assign(long const&, Elem*)': m_insert,
    'Map::at(long const&)': m_at, 'Map::at(long const&) const': m_at, 'Map::count(long const&) const': m_count, 'Map::contains(long const&) const': m_count, 'Map::size() const': m_size, 'Map::empty() const': m_empty,
    'Map::clear()': m_clear, 'Map::resize(unsigned long)': m_resize, 'Map::Map()': m_ctor, 'operator new(unsigned long)': c_new, 'operator delete(void*)': c_delete, 'operator delete(void*, unsigned long)': c_delete,
    '__cxa_pure_virtual': c_remove_element, 'std::chrono::_V2::system_clock::now()': c_now}

# ---- offsets ---------------------------------------------------------------------------------------
NAMES = ['Elem.' + x for x in ('key', 'value', 'pin', 'units', 'next', 'prev', 'last_use_')] + ['sizeof.Elem'] + ['Base.' + x for x in ('table_', 'defer_', 'units_', 'max_units_', 'pinned_units_', 'head_', 'max_idle_', 'lru_')] + ['sizeof.Map', 'sizeof.Base']
OFF = {}
def PREPARE(workdir):
    import re, subprocess
    from irv import spec
    r = subprocess.run([spec.CXX] + spec.FLAGS + ['-DOFFSETS', '-fno-access-control', '-fno-exceptions', '-w', '-O0', '-S', '-emit-llvm', TU, '-o', '-'], capture_output=True, text=True)
    if r.returncode: raise spec.BuildError(r.stderr[-2000:])
    g = re.search(r'^@lruprobe = [^\n]*?\[\d+ x i64\] \[([^\]]*)\]', r.stdout, re.M)
    v = [int(x.split()[1]) for x in g.group(1).split(', ')]
    OFF.update(zip(NAMES, v))

# ---- tasks -----------------------------------------------------------------------------------------
def modifies(st, S0, mods, what='the call'):
    """(name, vars, formula, props) for every component outside mods that was touched"""
    r = []
    for f in EF:
        if f in mods or f == 'vis': continue
        a, b = S0.__dict__[f], st.m[f]
        if a is b: continue
        r.append(('%s leaves %s of all entries alone' % (what, f), 'E', lambda x, a=a, b=b: a(x) == b(x), ALL5))
    for f in KF:
        if f in mods or f == 'Dg': continue
        a, b = S0.__dict__[f], st.m[f]
        if a is b: continue
        r.append(('%s leaves %s alone' % (what, f), 'K', lambda k, a=a, b=b: a(k) == b(k), ALL5))
    for f in SC:
        if f in mods or f in ('gl', 'rs', 'rn'): continue
        a, b = S0.__dict__[f], st.m[f]
        if a is b or a.eq(b): continue
        r.append(('%s leaves %s alone' % (what, f), '', a == b, ALL5))
    return r
class T:
    def __init__(self, fn, setup, post, props=None, label='', inv=True, pre_inv=True, doc='', s4pre=True, s4post=True, sep=()):
        self.fn, self.setup, self.post = fn, setup, post
        self.props = tuple(sorted(props or ALLP))
        self.safety = ()
        self.label = label
        self.inv, self.pre_inv = inv, pre_inv
        self.cover = ()
        self.doc = doc
        self.s4pre, self.s4post = s4pre, s4post
        self.sep = sep
        self.then = ()      # functions run on the same object afterwards
        self.cost = 50

THIS = P('this')
def keycell(ex, st, k): return ex.cellptr(st, k)
def opts(ex, st, upd):
    return ex.cellptr(st, upd)

def RUN(mod, task, _):
    """with the alternatives the loop invariants offer, until one does"""
    best, used = attempt(mod, task, 0)
    alts = [a for a in (1, 2, 3) if a & ~used == 0]
    for a in alts:
        if best.unsupported is None and all(o.status == 'proved' for o in best.obls.values()): break
        r, u = attempt(mod, task, a)
        if r.unsupported is None and all(o.status == 'proved' for o in r.obls.values()): best = r
    return best
def attempt(mod, task, alt):
    res = Result(task.fn)
    t0 = time.time()
    off = OFF
    want = task.fn
    find = lambda want: next((n for n in sorted(mod.funcs, key=lambda n: ('C2E' not in n and 'D2E' not in n, n)) if short(mod.dem(n)) == want), None)
    name = find(want)
    then = [find(w) for w in task.then]
    if name is None or None in then:
        res.unsupported = 'function not found in the translation unit'
        return res, 0
    def contracts(ex, nm, dem):
        if nm == name or nm in then: return None
        if dem in getattr(task, 'contracts', ()): return task.contracts[dem]
        c = CONTRACT.get(dem)
        if c is not None and (dem.startswith('Map') or not nm in mod.funcs): res.assumed.append(dem)
        return c
    ex = Exec(mod, off, contracts, LOOPS, task.props, time.time() + 800)
    ex.alt = alt
    ex.curfn = want.split('(')[0].replace('Base::', '')
    cases = [c for c in task.cover if c in COVER]
    res.covers = {}
    if want != 'Base::remove(long const&)' and ex.curfn == 'remove': ex.curfn = want
    st = State()
    st.havoc()
    try:
        st.assume(st.m['clk'] >= 0); st.assume(st.m['clk'] <= IMAX)
        S0 = st.snap()
        st.snaps = [S0]
        # assumed: pins, units and numbers of entries fit their types
        st.fact('E', lambda x: Imp(S0.alive(x), And(S0.pin(x) < (1 << 31) - 2, S0.units(x) < 1 << 62))); st.assume(And(S0.su >= 0, S0.su < 1 << 62, S0.sp >= 0, S0.sp <= S0.st, S0.st <= S0.su, S0.na >= 0, S0.na < 1 << 62, S0.nt >= 0, S0.nt <= S0.na))
        if task.pre_inv: assume_all(st, INV(S0, task.s4pre))
        args, ctx = task.setup(ex, st, S0)
        ex.topctx = ctx
        ex.entryctx = ctx
        def runs():
            if not then:
                yield from ex.run(st, name, args)
                return
            for s, ret in ex.run(st, name, args):
                saved = dict(ctx)
                task.mid(ex, s, ctx, ret)
                live = [(s, [ret])]
                for f in then: live = [(s2, rs + [r]) for s1, rs in live for s2, r in ex.run(s1, f, [ctx['me']])]
                yield from live
                ctx.clear(); ctx.update(saved)
        for s, ret in runs():
            if not ex.feasible(s, z3.BoolVal(True)): continue
            live = ex.reach(s, z3.BoolVal(True))
            if live: res.exits += 1
            ob = lambda what, goal, props, vs='': ex.oblige(s, '%s: %s' % (ex.curfn, what), goal, props, vs)
            ctx['s'] = s
            for it in (task.post(ex, s, S0, ctx, ret) or ()):
                ob(it[0], it[2], it[3], it[1])
            S1 = s.snap()
            if task.inv:
                for n, vs, g, p in INV(S1, task.s4post): ob('the representation holds afterwards: ' + n, g, p, vs)
            if s.pend_v is not None: ob('one value is destroyed for each deleted entry', False, ALL5)
            if s.pend_e is not None: ob('the value of every deleted entry is destroyed', False, ALL5)
            for x in s.slots: ob('no null entries are stored', False, ALL5)
            for c in cases if live else ():
                if not res.covers.get(c): res.covers[c] = ex.reach(s, COVER[c](S0, S1, ctx, ex, ret))
    except (Unsupported, RecursionError, z3.Z3Exception, AttributeError, KeyError, TypeError, IndexError, AssertionError, NotImplementedError, ValueError, IRError) as e:
        import traceback
        res.unsupported = '%s: %s' % (type(e).__name__, str(e)[:300])
        res.trace = traceback.format_exc()
    for o in ex.obls.values():
        o.backend = {'z3 (ground instances)': o.n}
        o.detail = '' if o.status == 'proved' else 'path:\n%s\nmodel:\n%s' % ('\n'.join(o.path or ()), o.model or '(none)')
    res.obls = ex.obls
    res.stats = dict(solver_s=ex.solver_time, inlined=sorted(ex.inlined), loops=sorted(ex.loopsdone), paths=res.exits, queries=ex.queries)
    res.time = time.time() - t0
    return res, ex.altused

# cases that must occur at some exit, or the contract says nothing about them
def _keyed(S, k): return S.T(k) != NULL
COVER = {
 'something is evicted': lambda a, b, c, ex, r: b.units_ < a.units_,
 'nothing is evicted': lambda a, b, c, ex, r: b.units_ == a.units_,
 'the entry is found': lambda a, b, c, ex, r: ex.asI(r) != 0,
 'no entry is found': lambda a, b, c, ex, r: ex.asI(r) == 0,
 'the entry is there but expired': lambda a, b, c, ex, r: And(ex.asI(r) == 0, c['e'] != NULL),
 'a deferred entry goes': lambda a, b, c, ex, r: And(a.Dm(c['r']), Not(b.alive(c['r']))),
 'a deferred entry stays': lambda a, b, c, ex, r: And(a.Dm(c['r']), b.alive(c['r'])),
 'an entry in the table is evicted at its release': lambda a, b, c, ex, r: And(a.inT(c['r']), Not(b.alive(c['r']))),
 'an entry in the table stays unpinned': lambda a, b, c, ex, r: And(b.inT(c['r']), b.pin(c['r']) == 0),
 'an entry in the table stays pinned': lambda a, b, c, ex, r: And(b.inT(c['r']), b.pin(c['r']) > 0),
 'in LRU mode': lambda a, b, c, ex, r: b.lru_,
 'in age mode': lambda a, b, c, ex, r: Not(b.lru_),
 'a pinned entry is there under the key': lambda a, b, c, ex, r: And(c['e'] != NULL, a.pin(c['e']) > 0),
 'an unpinned entry is there under the key': lambda a, b, c, ex, r: And(c['e'] != NULL, a.pin(c['e']) == 0),
 'no entry is there under the key': lambda a, b, c, ex, r: c['e'] == NULL,
 'the value is kept': lambda a, b, c, ex, r: b.T(c['k']) != NULL,
 'the value is dropped': lambda a, b, c, ex, r: b.T(c['k']) == NULL,
 'the answer is yes': lambda a, b, c, ex, r: ex.asB(r),
 'the answer is no': lambda a, b, c, ex, r: Not(ex.asB(r)),
 'pinned entries are there': lambda a, b, c, ex, r: a.pinned_ > 0,
 'the limit is switched off': lambda a, b, c, ex, r: b.idle_ < 0,
 'the limit is saturated': lambda a, b, c, ex, r: b.idle_ == IMAX,
 'the limit is ordinary': lambda a, b, c, ex, r: And(b.idle_ >= 0, b.idle_ < IMAX),
 'the list is not empty': lambda a, b, c, ex, r: a.next(HEAD) != HEAD,
}
# ---- the functions under contract ------------------------------------------------------------------
TASKS = []
def key_setup(ex, st, S0, *rest):
    k = st.addK(z3.Const('k', I))
    e = st.nameE(S0.T(k), 'tk'); d = st.nameE(S0.D(k), 'dk')
    return k, e, d

def t_gc(ex, st, S0): return [THIS], {}
def p_gc(ex, s, S0, ctx, ret):
    S1 = s.snap()
    return gc_rel(S0, S1) + modifies(s, S0, GC_MOD)
TASKS.append(T('Base::garbageCollect()', t_gc, p_gc, s4pre=False, doc='evicts the oldest unpinned entries of the list, as few as needed'))

def t_di(ex, st, S0):
    m = z3.Const('max_idle', I)
    st.assume(And(m >= -IMAX - 1, m <= IMAX))
    return [THIS, m], dict(m=m)
def p_di(ex, s, S0, ctx, ret):
    S1 = s.snap()
    return di_rel(S0, S1, expired(S0, S1.clk, ctx['m'])) + modifies(s, S0, DI_MOD)
TASKS.append(T('Base::discardIdle(long)', t_di, p_di, doc='exactly the entries on the list past the limit leave the table'))

def t_indef(ex, st, S0):
    k, e, d = key_setup(ex, st, S0)
    v = z3.Const('v', I)
    return [THIS, keycell(ex, st, k), v], dict(k=k, v=v)
def p_indef(ex, s, S0, ctx, ret):
    k, v = ctx['k'], ctx['v']
    r = ex.asB(ret)
    hit = lambda x: And(S0.Dm(x), S0.key(x) == k, Or(v == 0, S0.val(x) == v))
    return [('true only if a deferred entry matches', '', Imp(r, Or(*[hit(x) for x in s.G])), P20 | P19),
            ('false only if no deferred entry matches', 'E', lambda x: Imp(Not(r), Not(hit(x))), P20 | P19)] + modifies(s, S0, ())
TASKS.append(T('Base::inDeferredTable(long const&, Val const*) const', t_indef, p_indef, props=P19 | P20))

def t_count(ex, st, S0):
    a, b = ex.cellptr(st, z3.Const('n0', I)), ex.cellptr(st, z3.Const('s0', I))
    return [THIS, a, b], dict(a=a, b=b)
def p_count(ex, s, S0, ctx, ret):
    S = s.snap()
    w = s.addE(fresh('w', E))
    # sums over nothing are zero: the deferred entries that were not visited
    s.assume(Or(And(S.Dm(w), Not(S.vis(w))), And(S.rs == 0, S.rn == 0)))
    g = lambda p: ex.asI(s.cells[(p.b, p.o)])
    return [('the number is that of the deferred entries', '', g(ctx['a']) == S0.na - S0.nt, P21), ('the size is that of the deferred entries', '', g(ctx['b']) == S0.su - S0.st, P21)] + modifies(s, S0, ())
TASKS.append(T('Base::countDeferredEntries(long*, long*) const', t_count, p_count, props=P21, inv=False))

# the effect on the entries other than those an operation is about
def others(S0, S1, but, dead, clock=True):
    """entries for which but(x) is false keep everything, unless dead(x)"""
    r = nonew(S0, S1)
    r.append(('only what the operation is about is destroyed', 'E', lambda x: Imp(And(S0.alive(x), Not(S1.alive(x)), Not(but(x))), dead(x)), P20 | P22 | P23))
    return r

def t_lookup(ex, st, S0, upd=None, op=True):
    k, e, d = key_setup(ex, st, S0)
    u = z3.Const('upd', B) if op else z3.BoolVal(True)
    args = [THIS, keycell(ex, st, k)] + ([opts(ex, st, u)] if op else [])
    return args, dict(k=k, e=e, u=u)
def p_lookup(ex, s, S0, ctx, ret):
    k, e, u = ctx['k'], ctx['e'], ctx['u']
    S1 = s.snap()
    exp = expired(S0, S1.clk, S0.idle_)
    hit = And(e != NULL, Not(exp(e)))
    # ghost: the pin is one that takes the entry off the list
    if not any(x[0] == 'lookup' for x in s.events): s.m['tp'] = s.m['tp'].set(e, z3.If(And(hit, u), S1.tp(e) + 1, S1.tp(e)))
    S1 = s.snap()
    r = ex.asI(ret)
    out = [('an entry in the cache is found', '', Imp(hit, And(r == S0.val(e), S1.T(k) == e)), P19 | P23),
           ('nothing else is found', '', Imp(Not(hit), And(r == 0, S1.T(k) == NULL)), P19 | P23),
           ('other keys are not affected except by expiry', 'K', lambda j: Or(S1.T(j) == S0.T(j), And(S1.T(j) == NULL, exp(S0.T(j)))), P19),
           ('expired entries leave, others stay', 'K', lambda j: Imp(S0.T(j) != NULL, (S1.T(j) == S0.T(j)) == Not(exp(S0.T(j)))), P23),
           ('a found entry is pinned once more', '', Imp(hit, S1.pin(e) == S0.pin(e) + 1), P20 | P21),
           ('the pin is recorded (ghost)', 'E', lambda x: S1.tp(x) == z3.If(And(hit, u, x == e), S0.tp(x) + 1, S0.tp(x)), ALL5),
           ('a found entry is off the list if the lookup updates the order', '', Imp(And(hit, u, S0.lru_), S1.next(e) == NULL), P22),
           ('a found entry keeps its place otherwise', '', Imp(And(hit, Not(And(u, S0.lru_))), And(S1.linked(e) == S0.linked(e), Imp(S0.linked(e), S1.stamp(e) == S0.stamp(e)))), P22 | P23),
           ('only expired unpinned entries are destroyed', 'E', lambda x: Imp(And(S0.alive(x), Not(S1.alive(x))), And(exp(x), S0.pin(x) == 0)), P20 | P23 | P22),
           ('places on the list are kept', 'E', lambda x: Imp(And(S1.inT(x), x != e), And(S1.linked(x) == S0.linked(x), S1.stamp(x) == S0.stamp(x))), P22)]
    out += nonew(S0, S1) + same(S0, S1, ('val', 'key', 'units', 'lu', 'pin'), dict(pin=lambda x: And(x == e, hit)))
    return out + [('the maximum stays', '', And(S1.max_ == S0.max_, S1.idle_ == S0.idle_, S1.lru_ == S0.lru_), ALL5)]
TASKS.append(T('Base::lookupWithOptions(long const&, Options const&)', t_lookup, p_lookup))
TASKS.append(T('Base::lookup(long const&)', lambda ex, st, S0: t_lookup(ex, st, S0, op=False), p_lookup))

def t_release(ex, st, S0, op=True):
    k, e, d = key_setup(ex, st, S0)
    r = st.addE(z3.Const('released', E))
    u = z3.Const('upd', B) if op else z3.BoolVal(True)
    v = S0.val(r)
    st.assume(And(S0.alive(r), S0.key(r) == k, S0.pin(r) > 0))
    st.assume(z3.If(u, S0.tp(r) > 0, S0.tp(r) < S0.pin(r)))
    return [THIS, keycell(ex, st, k), v] + ([opts(ex, st, u)] if op else []), dict(k=k, e=e, r=r, u=u)
def p_release(ex, s, S0, ctx, ret):
    k, r, u = ctx['k'], ctx['r'], ctx['u']
    if not any(x[0] == 'released' for x in s.events): s.m['tp'] = s.m['tp'].set(r, z3.If(u, s.m['tp'](r) - 1, s.m['tp'](r)))
    S1 = s.snap()
    last = S0.pin(r) == 1
    full = S0.units_ > S0.max_
    out = [('a deferred entry goes with its last pin', '', Imp(And(S0.Dm(r), last), Not(S1.alive(r))), P20),
           ('the pin is returned (ghost)', 'E', lambda x: S1.tp(x) == z3.If(And(u, x == r), S0.tp(x) - 1, S0.tp(x)), ALL5),
           ('the size goes down by what is destroyed', '', S1.units_ == S0.units_ - z3.If(S1.alive(r), 0, S0.units(r)), P21 | P22),
           ('an entry with pins left stays', '', Imp(Not(last), And(S1.alive(r), S1.pin(r) == S0.pin(r) - 1, S1.inT(r) == S0.inT(r))), P20 | P19),
           ('an entry in the table stays unless the cache is over its maximum', '', Imp(And(S0.inT(r), last), z3.If(full, And(Not(S1.alive(r)), S1.T(k) == NULL), And(S1.inT(r), S1.pin(r) == 0))), P20 | P22 | P21 | P19),
           ('an entry evicted at its release leaves only pinned ones behind', 'E', lambda x: Imp(And(S0.inT(r), Not(S1.alive(r)), S1.inT(x)), S1.pin(x) > 0), P22),
           ('a released entry becomes the most recent one', 'E', lambda x: Imp(And(S1.inT(r), S0.lru_, S0.next(r) == NULL, last, S1.inL(x), x != r), S1.stamp(x) < S1.stamp(r)), P22),
           ('a released entry becomes evictable', '', Imp(And(S1.inT(r), last), S1.linked(r)), P22),
           ('an entry that stayed on the list keeps its place', '', Imp(And(S1.inT(r), S0.linked(r)), And(S1.linked(r), S1.stamp(r) == S0.stamp(r))), P22 | P23),
           ('the last use time is that of the release', '', Imp(And(S0.inT(r), S1.alive(r), S0.lru_, u), S1.lu(r) == S1.now), P23),
           ('the last use time stays without update', '', Imp(And(S0.inT(r), S1.alive(r), Or(Not(S0.lru_), And(Not(u), S0.linked(r)))), S1.lu(r) == S0.lu(r)), P23),
           ('only the released entry is destroyed', 'E', lambda x: Imp(And(S0.alive(x), Not(S1.alive(x))), And(x == r, last)), P20 | P22 | P23 | P19),
           ('other keys are not affected', 'K', lambda j: Imp(S0.T(j) != r, S1.T(j) == S0.T(j)), P19 | P23),
           ('places on the list are kept', 'E', lambda x: Imp(And(S1.inT(x), x != r), And(S1.linked(x) == S0.linked(x), S1.stamp(x) == S0.stamp(x))), P22)]
    out += nonew(S0, S1) + same(S0, S1, ('val', 'key', 'units', 'lu', 'pin'), dict(lu=lambda x: x == r, pin=lambda x: x == r))
    return out + [('the maximum stays', '', And(S1.max_ == S0.max_, S1.idle_ == S0.idle_, S1.lru_ == S0.lru_), ALL5)]
TASKS.append(T('Base::releaseWithOptions(long const&, Val*, Options const&)', t_release, p_release))
TASKS.append(T('Base::release(long const&, Val*)', lambda ex, st, S0: t_release(ex, st, S0, op=False), p_release))

def t_insert(ex, st, S0):
    k, e, d = key_setup(ex, st, S0)
    v, u = z3.Const('v', I), z3.Const('u', I)
    st.assume(And(v != 0, u >= 0, u < 1 << 62))
    st.fact('E', lambda x: Imp(S0.alive(x), S0.val(x) != v))
    return [THIS, keycell(ex, st, k), v, u], dict(k=k, e=e, v=v, u=u)
def evict_rules(S0, S1, old, n):
    """old: the entry replaced; n: the new entry"""
    ev = lambda x: And(S0.alive(x), Not(S1.alive(x)), x != old)
    return ev, [('only unpinned entries on the list are evicted', 'E', lambda x: Imp(ev(x), And(S0.inL(x), S0.pin(x) == 0)), P20 | P22 | P23 | P19),
           ('eviction is in order', 'EE', lambda x, f: Imp(And(ev(x), S0.inL(f), f != old, S0.pin(f) == 0, S0.stamp(f) < S0.stamp(x)), ev(f)), P22),
           ('eviction stops within the maximum', 'E', lambda x: Imp(ev(x), And(ev(S1.gl), S1.units_ + S0.units(S1.gl) > S1.max_)), P22)]
def p_insertpinned(ex, s, S0, ctx, ret):
    k, old, v, u = ctx['k'], ctx['e'], ctx['v'], ctx['u']
    n = ctx['n'] = s.nameE(s.m['T'](k), 'inserted')
    if not any(x[0] == 'inserted' for x in s.events): s.m['tp'] = s.m['tp'].set(n, z3.IntVal(1))
    S1 = s.snap()
    ev, rules = evict_rules(S0, S1, old, n)
    out = [('the value is found under the key', '', And(n != NULL, Not(S0.alive(n)), S1.alive(n), S1.val(n) == v, S1.key(n) == k), P19),
           ('the new entry has the size given', '', S1.units(n) == u, P21),
           ('the new entry is pinned', '', And(S1.pin(n) == 1, S1.tp(n) == 1), P20),
           ('the new entry is of now', '', S1.lu(n) == S1.now, P23),
           ('the new entry is on the list in age mode only, as the newest', '', S1.linked(n) == Not(S0.lru_), P22 | P23),
           ('the new entry is the newest', 'E', lambda x: Imp(And(S1.linked(n), S1.inL(x), x != n), S1.stamp(x) < S1.stamp(n)), P22),
           ('the entry replaced is destroyed, or deferred if pinned', '', Imp(old != NULL, z3.If(S0.pin(old) > 0, S1.Dm(old), Not(S1.alive(old)))), P20 | P19),
           ('other keys are not affected except by eviction', 'K', lambda j: Or(j == k, S1.T(j) == S0.T(j), And(S1.T(j) == NULL, ev(S0.T(j)))), P19 | P23),
           ('places on the list are kept', 'E', lambda x: Imp(And(S1.inT(x), x != n), And(S1.linked(x) == S0.linked(x), S1.stamp(x) == S0.stamp(x))), P22)]
    out += rules + nonew(S0, S1, n) + same(S0, S1, ('val', 'key', 'units', 'lu', 'pin', 'tp'))
    return out + [('the maximum stays', '', And(S1.max_ == S0.max_, S1.idle_ == S0.idle_, S1.lru_ == S0.lru_), ALL5)]
TASKS.append(T('Base::insertPinned(long const&, Val*, unsigned long)', t_insert, p_insertpinned))
def assume_post(ex, st, post, ctx, ret=None):
    S0 = st.snap()
    st.snaps.append(S0)
    st.havoc([m for m in ALL if m not in ('vis', 'Dg', 'rs', 'rn') and not (m == 'gl' and post is not p_insertpinned)])
    st.assume(st.m['clk'] >= S0.clk); st.assume(st.m['clk'] <= IMAX)
    for mp in ('T', 'D'): st.epoch[mp] += 1
    st.events.append((dict(p_lookup='lookup', p_release='released', p_insertpinned='inserted')[post.__name__], None))
    L = post(ex, st, S0, ctx, ret)
    st.events.pop()
    assume_all(st, L)
    assume_all(st, INV(st.snap()))
def called_with(ex, st, what, L):
    for n, vs, g, p in L: ex.oblige(st, '%s: %s is called with: %s' % (ex.curfn, what, n), g, p, vs)
def c_insertpinned(ex, st, a, dem):
    S0 = st.snap()
    k, v, u = ex.load(st, ('i', 64), a[1]), ex.asI(a[2]), ex.asI(a[3])
    st.addK(k)
    called_with(ex, st, 'insertPinned', INV(S0) + [('a new value', 'E', lambda x: And(v != 0, u >= 0, Imp(S0.alive(x), S0.val(x) != v)), ALL5)])
    ctx = dict(k=k, e=st.nameE(S0.T(k), 'tk'), v=v, u=u)
    assume_post(ex, st, p_insertpinned, ctx)
    st.addE(st.m['gl'])
    st.events.append(('inserted', ctx['n']))
    return [(st, None)]
def c_release(ex, st, a, dem):
    S0 = st.snap()
    k, v, u = ex.load(st, ('i', 64), a[1]), ex.asI(a[2]), (ex.asB(ex.load(st, ('i', 8), a[3])) if len(a) > 3 else z3.BoolVal(True))
    st.addK(k)
    ok = lambda x: And(S0.alive(x), S0.key(x) == k, S0.val(x) == v, S0.pin(x) > 0, z3.If(u, S0.tp(x) > 0, S0.tp(x) < S0.pin(x)))
    called_with(ex, st, 'release', INV(S0) + [('a pinned entry', '', Or(*[ok(x) for x in st.G]), ALL5)])
    r = st.addE(fresh('released', E))
    st.assume(ok(r))
    assume_post(ex, st, p_release, dict(k=k, e=st.nameE(S0.T(k), 'tk'), r=r, u=u))
    st.events.append(('released', k, v, u))
    return [(st, None)]
def c_lookup(ex, st, a, dem):
    S0 = st.snap()
    k, u = ex.load(st, ('i', 64), a[1]), (ex.asB(ex.load(st, ('i', 8), a[2])) if len(a) > 2 else z3.BoolVal(True))
    st.addK(k)
    called_with(ex, st, 'lookup', INV(S0))
    r = fresh('found', I)
    assume_post(ex, st, p_lookup, dict(k=k, e=st.nameE(S0.T(k), 'tk'), u=u), r)
    st.events.append(('lookup', k, r, u))
    return [(st, r)]
CONTRACT.update({'Base::insertPinned(long const&, Val*, unsigned long)': c_insertpinned, 'Base::releaseWithOptions(long const&, Val*, Options const&)': c_release, 'Base::lookupWithOptions(long const&, Options const&)': c_lookup})
def p_insert(ex, s, S0, ctx, ret):
    k, old, v, u = ctx['k'], ctx['e'], ctx['v'], ctx['u']
    n = next((x[1] for x in s.events if x[0] == 'inserted'), None)
    if n is None: n = next((x for x in s.G if str(x).startswith('new!')), None)
    if n is None: return [('a new entry is made', '', False, ALL5)]
    S1 = s.snap()
    ev, rules = evict_rules(S0, S1, old, n)
    out = [('the value is found under the key unless it does not fit', '', Or(And(S1.T(k) == n, S1.alive(n), S1.val(n) == v, S1.key(n) == k), And(S1.T(k) == NULL, Not(S1.alive(n)))), P19),
           ('a value that does not fit leaves only pinned ones', 'E', lambda x: Imp(And(Not(S1.alive(n)), S1.inT(x)), S1.pin(x) > 0), P22 | P19),
           ('a value that is dropped does not fit', '', Imp(Not(S1.alive(n)), S1.units_ + u > S1.max_), P22 | P19),
           ('the new entry has the size given', '', Imp(S1.alive(n), S1.units(n) == u), P21),
           ('the new entry is not pinned', '', Imp(S1.alive(n), S1.pin(n) == 0), P20),
           ('the new entry is of now', '', Imp(And(S1.alive(n), S0.lru_), S1.lu(n) == S1.now), P23),
           ('the new entry is not of the past', '', Imp(S1.alive(n), And(S1.lu(n) >= S0.now, S1.lu(n) <= S1.now)), P23),
           ('the new entry is the newest', 'E', lambda x: Imp(And(S1.alive(n), S1.inL(x), x != n), And(S1.linked(n), S1.stamp(x) < S1.stamp(n))), P22),
           ('the entry replaced is destroyed, or deferred if pinned', '', Imp(old != NULL, z3.If(S0.pin(old) > 0, S1.Dm(old), Not(S1.alive(old)))), P20 | P19),
           ('other keys are not affected except by eviction', 'K', lambda j: Or(j == k, S1.T(j) == S0.T(j), And(S1.T(j) == NULL, ev(S0.T(j)))), P19 | P23),
           ('places on the list are kept', 'E', lambda x: Imp(And(S1.inT(x), x != n), And(S1.linked(x) == S0.linked(x), S1.stamp(x) == S0.stamp(x))), P22)]
    gl = ('eviction stops within the maximum', 'E', lambda x: Imp(ev(x), And(ev(S1.gl), S1.units_ + z3.If(S1.alive(n), 0, u) + S0.units(S1.gl) > S1.max_)), P22)
    out += rules[:2] + [gl] + nonew(S0, S1, n) + same(S0, S1, ('val', 'key', 'units', 'lu', 'pin'))
    return out + [('the maximum stays', '', And(S1.max_ == S0.max_, S1.idle_ == S0.idle_, S1.lru_ == S0.lru_), ALL5)]
TASKS.append(T('Base::insert(long const&, Val*, unsigned long)', t_insert, p_insert))

def t_remove(ex, st, S0):
    k, e, d = key_setup(ex, st, S0)
    return [THIS, keycell(ex, st, k)], dict(k=k, e=e)
def p_remove(ex, s, S0, ctx, ret):
    k, e = ctx['k'], ctx['e']
    S1 = s.snap()
    out = [('the key is gone', '', S1.T(k) == NULL, P19), ('other keys are not affected', 'K', lambda j: Or(j == k, S1.T(j) == S0.T(j)), P19),
           ('the entry is destroyed, or deferred if pinned', '', Imp(e != NULL, z3.If(S0.pin(e) > 0, S1.Dm(e), Not(S1.alive(e)))), P20),
           ('other entries stay', 'E', lambda x: Imp(And(S0.alive(x), x != e), S1.alive(x)), P20 | P22 | P23),
           ('places on the list are kept', 'E', lambda x: Imp(S1.inT(x), And(S1.linked(x) == S0.linked(x), S1.stamp(x) == S0.stamp(x))), P22)]
    return out + nonew(S0, S1) + same(S0, S1, ('val', 'key', 'units', 'lu', 'pin')) + [('the maximum stays', '', And(S1.max_ == S0.max_, S1.idle_ == S0.idle_, S1.lru_ == S0.lru_), ALL5)]
TASKS.append(T('Base::remove(long const&)', t_remove, p_remove))

def t_none(ex, st, S0): return [THIS], {}
def p_removeall(ex, s, S0, ctx, ret):
    S1 = s.snap()
    return [('no key is left', 'K', lambda j: S1.T(j) == NULL, P19), ('pinned entries are deferred', 'E', lambda x: Imp(And(S0.alive(x), S0.pin(x) > 0), S1.Dm(x)), P20),
            ('unpinned entries are destroyed', 'E', lambda x: Imp(And(S0.alive(x), S0.pin(x) == 0), Not(S1.alive(x))), P20)] + nonew(S0, S1) + same(S0, S1, ('val', 'key', 'units', 'lu', 'pin'))
TASKS.append(T('Base::removeAll()', t_none, p_removeall, props=P19 | P20 | P21 | P22))
def p_removeunpinned(ex, s, S0, ctx, ret):
    S1 = s.snap()
    return ru_rel(S0, S1) + [('no unpinned entry is left', 'E', lambda x: Imp(S1.alive(x), S1.pin(x) > 0), P20 | P19)]
TASKS.append(T('Base::removeUnpinned()', t_none, p_removeunpinned, props=P19 | P20 | P21 | P22))
def t_clear(ex, st, S0):
    st.fact('E', lambda x: Imp(S0.alive(x), S0.pin(x) == 0))
    return [THIS], {}
def p_clear(ex, s, S0, ctx, ret):
    sums(s)
    S1 = s.snap()
    return [('no entry is left', 'E', lambda x: Not(S1.alive(x)), P20), ('no key is left', 'K', lambda j: And(S1.T(j) == NULL, S1.D(j) == NULL), P19), ('the cache is empty', '', And(S1.units_ == 0, S1.pinned_ == 0), P21),
            ('the list is empty', '', And(S1.next(HEAD) == HEAD, S1.prev(HEAD) == HEAD), P22)]
TASKS.append(T('Base::clear()', t_clear, p_clear, props=P19 | P20 | P21 | P22))

def t_update(ex, st, S0):
    k, e, d = key_setup(ex, st, S0)
    v, u = z3.Const('v', I), z3.Const('u', I)
    st.assume(And(u >= 0, u < 1 << 62))
    return [THIS, keycell(ex, st, k), v, u], dict(k=k, e=e, v=v, u=u)
def p_update(ex, s, S0, ctx, ret):
    k, e, v, u = ctx['k'], ctx['e'], ctx['v'], ctx['u']
    S1 = s.snap()
    m = lambda x: Or(v == 0, S0.val(x) == v)
    hit = lambda x: z3.If(And(e != NULL, m(e)), x == e, And(S0.Dm(x), S0.key(x) == k, m(x)))
    ev = lambda x: And(S0.alive(x), Not(S1.alive(x)))
    un = lambda x: z3.If(hit(x), u, S0.units(x))
    out = [('the matching entries have the new size', 'E', lambda x: Imp(S1.alive(x), S1.units(x) == un(x)), P21),
           ('only unpinned entries on the list are evicted', 'E', lambda x: Imp(ev(x), And(S0.inL(x), S0.pin(x) == 0)), P20 | P22 | P23 | P19),
           ('eviction is in order', 'EE', lambda x, f: Imp(And(ev(x), S0.inL(f), S0.pin(f) == 0, S0.stamp(f) < S0.stamp(x)), ev(f)), P22),
           ('eviction stops within the maximum', 'E', lambda x: Imp(ev(x), And(ev(S1.gl), S1.units_ + un(S1.gl) > S1.max_)), P22),
           ('keys are not affected except by eviction', 'K', lambda j: Or(S1.T(j) == S0.T(j), And(S1.T(j) == NULL, ev(S0.T(j)))), P19 | P23),
           ('places on the list are kept', 'E', lambda x: Imp(S1.inT(x), And(S1.linked(x) == S0.linked(x), S1.stamp(x) == S0.stamp(x))), P22)]
    return out + nonew(S0, S1) + same(S0, S1, ('val', 'key', 'lu', 'pin')) + [('the maximum stays', '', And(S1.max_ == S0.max_, S1.idle_ == S0.idle_, S1.lru_ == S0.lru_), ALL5)]
TASKS.append(T('Base::updateSize(long const&, Val const*, unsigned long)', t_update, p_update))

def t_setmax(ex, st, S0):
    n = z3.Const('n', I)
    return [THIS, n], dict(n=n)
def p_setmax(ex, s, S0, ctx, ret):
    S1 = s.snap()
    r = [x for x in gc_rel(S0, S1) if x[0] != 'the limits and the mode stay']
    return r + [('the maximum is set', '', S1.max_ == ctx['n'], P21), ('the mode stays', '', And(S1.idle_ == S0.idle_, S1.lru_ == S0.lru_), ALL5)]
TASKS.append(T('Base::setMaxSize(long)', t_setmax, p_setmax))

def p_expire(ex, s, S0, ctx, ret):
    S1 = s.snap()
    return di_rel(S0, S1, expired(S0, S1.clk, S0.idle_))
TASKS.append(T('Base::removeExpiredEntries()', t_none, p_expire))

def t_timeout(ex, st, S0, lru=None):
    sec = z3.Const('seconds', z3.Float64())
    ex_lru = z3.Const('to_lru', B) if lru is None else z3.BoolVal(lru)
    st.assume(Not(z3.fpIsNaN(sec)))
    w = st.addE(fresh('w', E))
    # the mode changes only while the cache is empty, and not while a limit of the other mode is set
    st.fact('E', lambda x: Imp(S0.alive(x), ex_lru == S0.lru_))
    st.assume(Imp(And(S0.idle_ >= 0, z3.fpGEQ(sec, z3.FPVal(0.0, z3.Float64())), Not(z3.fpIsInf(sec))), ex_lru == S0.lru_))
    return [THIS, ('F', sec)] + ([ex_lru] if lru is None else []), dict(sec=sec, lru=ex_lru)
def p_timeout(ex, s, S0, ctx, ret):
    S1 = s.snap()
    sec = ctx['sec']
    zero = z3.FPVal(0.0, z3.Float64())
    off = Or(z3.fpLT(sec, zero), z3.fpIsInf(sec))
    cyc = z3.fpMul(z3.RNE(), sec, z3.FPVal(1000000.0, z3.Float64()))
    big = z3.fpGEQ(cyc, z3.FPVal(9223372036854775808.0, z3.Float64()))
    want = z3.If(off, z3.IntVal(-1), z3.If(big, z3.IntVal(IMAX), F2I(cyc)))
    r = [x for x in di_rel(S0, S1, lambda x: And(Not(off), expired(S0, S1.clk, S1.idle_)(x))) if x[0] != 'the limits and the mode stay']
    return r + [('the limit is set', '', S1.idle_ == want, P23), ('the mode is set', '', S1.lru_ == ctx['lru'], P23 | P22), ('the maximum stays', '', S1.max_ == S0.max_, P21)]
TASKS.append(T('Base::setTimeout(double, bool)', t_timeout, p_timeout, props=P19 | P20 | P21 | P22 | P23))
TASKS.append(T('Base::setMaxIdleSeconds(double)', lambda ex, st, S0: t_timeout(ex, st, S0, True), p_timeout, props=P23 | P22))
TASKS.append(T('Base::setAgeBasedEviction(double)', lambda ex, st, S0: t_timeout(ex, st, S0, False), p_timeout, props=P23 | P22))

def p_still(ex, s, S0, ctx, ret):
    k, v, e = ctx['k'], ctx['v'], ctx['e']
    r = ex.asB(ret)
    hit = lambda x: And(S0.alive(x), S0.key(x) == k, Or(v == 0, S0.val(x) == v))
    return [('true only if such an entry exists', '', Imp(r, Or(*[hit(x) for x in s.G])), P19 | P20), ('false only if no such entry exists', 'E', lambda x: Imp(Not(r), Not(hit(x))), P19 | P20)] + modifies(s, S0, ())
def t_still(ex, st, S0, both=True):
    k, e, d = key_setup(ex, st, S0)
    v = z3.Const('v', I) if both else z3.IntVal(0)
    return [THIS, keycell(ex, st, k)] + ([v] if both else []), dict(k=k, v=v, e=e)
TASKS.append(T('Base::stillInUse(long const&, Val const*) const', t_still, p_still, props=P19 | P20))
TASKS.append(T('Base::stillInUse(long const&) const', lambda ex, st, S0: t_still(ex, st, S0, False), p_still, props=P19 | P20))

def getter(fn, props, want, extra=None):
    def post(ex, s, S0, ctx, ret):
        return [('the value reported is right', '', ex.asI(ret) == want(S0), props)] + modifies(s, S0, ())
    TASKS.append(T('Base::%s() const' % fn, t_none, post, props=props))
getter('size', P21, lambda S: S.su)
getter('entries', P21, lambda S: S.nt)
getter('pinnedSize', P21, lambda S: S.sp)
getter('maxSize', P21, lambda S: S.max_)
getter('deferredSize', P21, lambda S: S.su - S.st)
getter('deferredEntries', P21, lambda S: S.na - S.nt)
def p_age(ex, s, S0, ctx, ret):
    S1 = s.snap()
    r = ex.asI(ret)
    o = S0.prev(HEAD)
    return [('the age is that of the oldest entry on the list', '', r == z3.If(o == HEAD, z3.IntVal(0), S1.now - S0.lu(o)), P23 | P22), ('no entry on the list is older', 'E', lambda x: Imp(S0.inL(x), And(o != HEAD, S0.lu(o) <= S0.lu(x))), P23 | P22)] + modifies(s, S0, ('clk',))
TASKS.append(T('Base::ageOfLRUItemInMicroseconds() const', t_none, p_age, props=P23 | P22))
def timeof(fn, lru):
    def setup(ex, st, S0):
        k, e, d = key_setup(ex, st, S0)
        st.assume(S0.lru_ == lru)
        return [THIS, keycell(ex, st, k)], dict(e=e)
    def post(ex, s, S0, ctx, ret):
        e = ctx['e']
        return [('the time reported is right', '', ex.asI(ret) == z3.If(e == NULL, z3.IntVal(-1), S0.lu(e)), P23)] + modifies(s, S0, ())
    TASKS.append(T('Base::%s(long const&) const' % fn, setup, post, props=P23))
timeof('getLastUseTime', True)
timeof('getInsertionTime', False)

def t_ctor(ex, st, S0):
    st.fact('E', lambda x: Not(S0.alive(x)))
    n = z3.Const('n', I)
    return [THIS, n], dict(n=n)
def p_ctor(ex, s, S0, ctx, ret):
    sums(s)
    S1 = s.snap()
    return [('the cache is empty', '', And(S1.units_ == 0, S1.pinned_ == 0), P21), ('no key is there', 'K', lambda j: And(S1.T(j) == NULL, S1.D(j) == NULL), P19), ('the maximum is set', '', S1.max_ == ctx['n'], P21),
            ('entries do not expire', '', And(S1.idle_ < 0, S1.lru_), P23 | P22)]
TASKS.append(T('Base::Base(long)', t_ctor, p_ctor, pre_inv=False))

# ScopedLookup: the pin taken is the pin returned. One task for the life of an object: construction, any operations of others on the cache,
# the accessors, destruction. What the object keeps in its private members is its own business.
def t_scoped(ex, st, S0, op=True):
    k, e, d = key_setup(ex, st, S0)
    u = z3.Const('upd', B) if op else z3.BoolVal(True)
    me = P('cell', ex.newcell())
    return [me, THIS, keycell(ex, st, k)] + ([opts(ex, st, u)] if op else []), dict(k=k, e=e, u=u, me=me)
def between(ex, st, ctx, ret):
    ev = [x for x in st.events if x[0] in ('lookup', 'released')]
    ctx['got'] = ev[0][2] if ev and ev[0][0] == 'lookup' else None
    ctx['ok'] = len(ev) == 1 and ev[0][0] == 'lookup'
    ctx['right'] = And(ev[0][1] == ctx['k'], ev[0][3] == ctx['u']) if ctx['ok'] else z3.BoolVal(False)
    st.events[:] = []
    # the cache changes in between, but the pin is the caller's
    st.havoc(); 
    for mp in ('T', 'D'): st.epoch[mp] += 1
    st.assume(st.m['clk'] >= 0); st.assume(st.m['clk'] <= IMAX)
    S = st.snap()
    st.snaps.append(S)
    assume_all(st, INV(S))
    if ctx['got'] is not None:
        r = st.addE(fresh('held', E))
        u, v = ctx['u'], ctx['got']
        st.assume(Or(v == 0, And(S.alive(r), S.key(r) == ctx['k'], S.val(r) == v, S.pin(r) > 0, z3.If(u, S.tp(r) > 0, S.tp(r) < S.pin(r)))))
def p_scoped(ex, s, S0, ctx, rets):
    ev = [x for x in s.events if x[0] in ('lookup', 'released')]
    got = ctx['got']
    L = [('the key is looked up once, with the options given', '', And(ctx['ok'], ctx['right']), P20 | P19)]
    if got is None: return L
    L.append(('the value found is what the lookup returned', '', ex.asI(rets[1]) == got, P19))
    L.append(('found says whether there is a value', '', ex.asB(rets[2]) == (got != 0), P19))
    L.append(('a value found is released once, nothing else', '', z3.BoolVal(len(ev) == 1 and ev[0][0] == 'released') == (got != 0), P20 | P19))
    if len(ev) > 1: L.append(('it is released once', '', z3.BoolVal(False), P20))
    for x in ev:
        if x[0] == 'released': L.append(('what was looked up is released', '', And(x[1] == ctx['k'], x[2] == got, x[3] == ctx['u']), P20 | P22))
    return L
_SL = 'Base::ScopedLookup::'
for _op, _a in ((True, ', Options const&'), (False, '')):
    t = T(_SL + 'ScopedLookup(Base*, long const&%s)' % _a, (lambda op: lambda ex, st, S0: t_scoped(ex, st, S0, op))(_op), p_scoped, props=P19 | P20 | P22)
    t.mid = between
    t.then = (_SL + 'value() const', _SL + 'found() const', _SL + '~ScopedLookup()')
    TASKS.append(t)

_MODES = ('in LRU mode', 'in age mode')
_KEY = ('a pinned entry is there under the key', 'an unpinned entry is there under the key', 'no entry is there under the key')
_C = {'garbageCollect': ('something is evicted', 'nothing is evicted') + _MODES, 'discardIdle': ('something is evicted', 'nothing is evicted') + _MODES,
      'inDeferredTable': ('the answer is yes', 'the answer is no'), 'countDeferredEntries': ('pinned entries are there',),
      'lookup': ('the entry is found', 'no entry is found', 'the entry is there but expired') + _MODES,
      'lookupWithOptions': ('the entry is found', 'no entry is found', 'the entry is there but expired') + _MODES,
      'release': ('a deferred entry goes', 'a deferred entry stays', 'an entry in the table is evicted at its release', 'an entry in the table stays unpinned', 'an entry in the table stays pinned') + _MODES,
      'insertPinned': _MODES + _KEY + ('the value is kept',), 'insert': _MODES + _KEY + ('the value is kept', 'the value is dropped'), 'remove': _MODES + _KEY,
      'removeAll': _MODES + ('pinned entries are there',), 'removeUnpinned': _MODES + ('pinned entries are there', 'something is evicted'), 'clear': _MODES,
      'updateSize': _MODES + _KEY + ('something is evicted',), 'setMaxSize': _MODES + ('something is evicted', 'nothing is evicted'),
      'removeExpiredEntries': _MODES + ('something is evicted', 'nothing is evicted'),
      'setTimeout': _MODES + ('the limit is switched off', 'the limit is saturated', 'the limit is ordinary', 'something is evicted'),
      'setMaxIdleSeconds': ('in LRU mode', 'the limit is switched off', 'the limit is saturated', 'the limit is ordinary'),
      'setAgeBasedEviction': ('in age mode', 'the limit is switched off', 'the limit is saturated', 'the limit is ordinary'),
      'stillInUse': ('the answer is yes', 'the answer is no'), 'ageOfLRUItemInMicroseconds': _MODES + ('the list is not empty',)}
_C['releaseWithOptions'] = _C['release']
for _t in TASKS: _t.cover = _C.get(_t.fn.split('(')[0].split('::')[1], ())
