"""Path-wise symbolic execution / verification-condition generation over LLVM IR.

A function is explored path by path.  Calls are replaced by the callee's contract (library contracts, and the
contracts of functions under verification) or, for helpers without contract, by their body.  Loops are cut at their
header: everything the loop modifies is replaced by arbitrary values, an inductive invariant is computed from
candidate predicates (Houdini), and one arbitrary iteration is executed.  Obligations are collected per function."""
import sys, time, subprocess, tempfile, os, re
import z3
from .vals import *
from .ir import Module, IRError
from .abst import Abst

sys.setrecursionlimit(100000)
M64 = 1 << 64


class State:
    __slots__ = ('mem', 'pc', 'ghost', 'freed', 'owned', 'notes')
    def __init__(self):
        self.mem = {}
        self.pc = ()
        self.ghost = {}
        self.freed = frozenset()
        self.owned = {}          # live resources allocated on this path: region id -> Region
        self.notes = ()
    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.ghost = dict(self.ghost)
        s.freed = self.freed
        s.owned = dict(self.owned)
        s.notes = self.notes
        return s
    def assume(self, f):
        f = simp(f) if is_sym(f) else f
        if not is_sym(f) and f: return
        self.pc = self.pc + (zb(f),)
    def setcell(self, r, off, size, val):
        d = dict(self.mem.get(r.id, ()))
        # remove overlapping cells
        for o in list(d):
            if o == '@zero':
                z = d[o][1]
                if any(a < off + size and off < b for a, b in z):
                    d[o] = (0, tuple(y for a, b in z for y in ((a, min(b, off)), (max(a, off + size), b)) if y[0] < y[1]))
            elif o != off and o < off + size and off < o + d[o][0]:
                del d[o]
        d[off] = (size, val)
        self.mem[r.id] = d
    def getcell(self, r, off):
        d = self.mem.get(r.id)
        if d is None: return None
        return d.get(off)


class Frame:
    __slots__ = ('fn', 'loc', 'loops', 'unroll', 'args')
    def __init__(self, fn):
        self.fn = fn
        self.loc = {}
        self.loops = ()       # stack of LoopCtx
        self.unroll = {}
    def copy(self):
        f = Frame(self.fn)
        f.loc = dict(self.loc)
        f.loops = self.loops
        f.unroll = dict(self.unroll)
        return f

class LoopCtx:
    def __init__(self, header, body, mode, sink=None):
        self.header, self.body, self.mode, self.sink = header, body, mode, sink


class Solver:
    """incremental z3 following the DFS path"""
    def __init__(self, stats, abst=None):
        self.stats = stats
        self.abst = abst
        self.fresh()
    def fresh(self):
        self.s = z3.Solver()
        self.stack = []
    def add(self, f):
        if self.abst is None: self.s.add(f)
        else:
            a, facts = self.abst.of(f)
            self.s.add(a, *facts)
    def sync(self, pc):
        n = 0
        st = self.stack
        while n < len(st) and n < len(pc) and (st[n] is pc[n] or st[n].eq(pc[n])): n += 1
        if n < len(st):
            self.s.pop(len(st) - n)
            del st[n:]
        for f in pc[n:]:
            self.s.push()
            self.add(f)
            st.append(f)
    def check(self, pc, extra=None, timeout=3000):
        t = time.time()
        try:
            self.sync(pc)
            self.s.set('timeout', timeout)
            self.s.push()
            if extra is not None: self.add(extra)
            r = self.s.check()
            m = self.s.model() if r == z3.sat and self.abst is None else None
            self.s.pop()
        except z3.Z3Exception:
            self.fresh()
            r, m = z3.unknown, None
        d = time.time() - t
        self.stats['solver_s'] += d
        self.stats['queries'] += 1
        return r, m


CVC5 = 'cvc5'

def run_cvc5(assertions, timeout):
    s = z3.Solver()
    s.add(*assertions)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        o = subprocess.run([CVC5, '--strings-exp', '--tlimit=%d' % (timeout * 1000), f.name], capture_output=True, text=True,
                           timeout=timeout + 5).stdout.strip().split('\n')[0]
    except subprocess.TimeoutExpired:
        o = 'timeout'
    finally:
        os.unlink(f.name)
    return o


class Obl:
    __slots__ = ('name', 'props', 'status', 'detail', 'n', 'backend', 'model')
    def __init__(self, name, props):
        self.name, self.props = name, set(props)
        self.status = 'proved'
        self.detail = ''
        self.n = 0
        self.backend = {}
        self.model = None


class Exec:
    def __init__(self, mod, contracts, opts=None):
        self.mod = mod
        self.contracts = contracts          # callable(name, dem) -> function or None
        self.stats = {'solver_s': 0.0, 'queries': 0, 'paths': 0, 'inlined': set(), 'ext': set(), 'instrs': 0, 'loops': [], 'calls': set()}
        self.solver = Solver(self.stats)
        self.asolver = Solver(self.stats, Abst())
        self.abs_only = bool((opts or {}).get('abs_only'))
        self.abs_loops = self.abs_only and (opts or {}).get('abs_loops', True)
        self.quiet = 0
        self.obls = {}
        self.globals = {}
        self.curfn = ''
        self.safety = {'C17'}
        self.hints = None                    # loop hints object
        self.depth = 0
        self.max_paths = 20000
        self.deadline = None
        self.norm_facts = None
        self.opts = opts or {}
        self.funlinks = []

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, f, name, props):
        if self.quiet: return True
        o = self.obls.get(name)
        if o is None:
            o = self.obls[name] = Obl(name, props)
        o.props |= set(props)
        o.n += 1
        if o.status != 'proved':
            o.backend['skipped'] = o.backend.get('skipped', 0) + 1
            return False
        ok, how, m = self.prove(st.pc, f)
        o.backend[how] = o.backend.get(how, 0) + 1
        if not ok:
            if o.status != 'failed':
                o.status = 'failed' if how == 'sat' else 'unknown'
                o.model = m
                o.detail = self.explain(st, f, m)
            return False
        return True

    def explain(self, st, f, m):
        s = 'goal: ' + str(f)[:1500] + '\n'
        if m is not None:
            s += 'counter-model:\n'
            for d in sorted(m.decls(), key=lambda d: d.name())[:80]:
                if d.arity() == 0:
                    s += '  %s = %s\n' % (d.name(), str(m[d])[:200])
        return s

    def lazy(self, *facts):
        """facts that hold in every state (definitions); only used for obligations that do not follow without them"""
        for f in facts:
            f = simp(f)
            if is_sym(f) and not any(f.eq(x) for x in self.lazyfacts): self.lazyfacts.append(f)

    def prove(self, pc, f, quick=False):
        if isinstance(f, (bool, int)):
            if f: return True, 'simplify', None
            g = None
        else:
            f = simp(f)
            if f is True: return True, 'simplify', None
            g = None if f is False else z3.Not(f)
        if g is not None:
            for c in pc:
                if c.eq(f): return True, 'simplify', None
        r, m = self.asolver.check(pc, g, 700 if quick else 1500)
        if r == z3.unsat: return True, 'z3', None
        if quick and self.abs_only: return False, 'unknown', None
        r, m = self.solver.check(pc, g, 700 if quick else 2500)
        if r == z3.unsat: return True, 'z3', None
        if r == z3.sat and not self.lazyfacts: return False, 'sat', m
        if quick: return False, 'unknown', None
        t = time.time()
        pc = list(pc) + self.lazyfacts
        s = z3.Solver()
        s.set('timeout', 15000)
        s.add(*pc)
        if g is not None: s.add(g)
        try: r = s.check()
        except z3.Z3Exception: r = z3.unknown
        self.stats['solver_s'] += time.time() - t
        if r == z3.unsat: return True, 'z3', None
        if r == z3.sat: return False, 'sat', s.model()
        t = time.time()
        o = run_cvc5(list(pc) + ([g] if g is not None else []), 20)
        self.stats['solver_s'] += time.time() - t
        if o == 'unsat': return True, 'cvc5', None
        if o == 'sat': return False, 'sat', None
        return False, 'unknown', None

    def sure(self, st, f):
        """cheap test whether f holds on this path (used to simplify terms only)"""
        r, _ = self.asolver.check(st.pc, z3.Not(f), 400)
        if r == z3.unsat or self.abs_only: return r == z3.unsat
        r, _ = self.solver.check(st.pc, z3.Not(f), 400)
        return r == z3.unsat

    def feasible(self, st, f=None, exact=False):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time limit for this function reached')
        if f is not None:
            if isinstance(f, (bool, int)):
                if not f: return False
                f = None
        r, _ = self.asolver.check(st.pc, f, 1000)
        if r == z3.unsat: return False
        if self.abs_only and not exact: return True
        r, _ = self.solver.check(st.pc, f, 1500 if not exact else 5000)
        return r != z3.unsat

    def ub(self, st, cond, what):
        """memory-safety / undefined-behaviour obligation; assumed afterwards"""
        cond = simp(cond) if is_sym(cond) else cond
        if cond is True: return
        ok = self.oblige(st, cond, '%s: no %s' % (self.curfn, what), self.safety)
        if cond is False:
            raise PathEnd()
        st.assume(cond)

    # ---------------------------------------------------------------- memory
    def region_check(self, st, r, what='use of released memory'):
        if r.id in st.freed:
            self.ub(st, False, what)

    def stale(self, st, r):
        if isinstance(r, (StrData, VecData)) and r.owner is not None:
            c = st.getcell(r.owner, r.ooff)
            if c is None:
                if r.owner.lazy is None and not isinstance(r.owner, Inst):
                    self.ub(st, False, 'use of memory of a destroyed string or vector')
                return
            v = c[1]
            if r.val is not None and getattr(v, 'ver', None) != r.val.ver:
                self.ub(st, False, 'use of dangling pointer into a modified or destroyed string or vector')

    def resolve_elem(self, st, p):
        """map a pointer into vector elements to the box/instance that holds the element"""
        r = p.r
        if isinstance(r, VecData):
            i, f = p.index(r.elem)
            v = self.curvec(st, r)
            if v.ek == 'u8': return p
            self.ub(st, z3.And(zi(0) <= zi(i), zi(i) < zi(v.ln)) if is_sym(i) or is_sym(v.ln) else (0 <= i < v.ln), 'access outside the elements of a vector')
            if v.items is not None:
                if is_sym(i):
                    raise Unsupported('symbolic index into a concrete vector')
                return Ptr(v.items[i], f)
            return Ptr(self.elem_inst(v.ek, v.seq, i), f)
        return p

    def elem_inst(self, ek, seq, i):
        return Inst('elem:' + ek, (seq, zi(i)))

    def curstr(self, st, r, obj=False):
        self.stale(st, r)
        if hasattr(r, 'fixed'):
            if obj: raise Unsupported('write through a part of a string')
            return r.fixed
        v = r.val
        if r.owner is not None:
            c = st.getcell(r.owner, r.ooff)
            if c is not None: v = c[1]
        return v if obj else v.t

    def curvec(self, st, r):
        self.stale(st, r)
        if r.owner is not None:
            c = st.getcell(r.owner, r.ooff)
            if c is not None: return c[1]
        return r.val

    def load(self, st, p, ty):
        mod = self.mod
        t = mod.resolve(ty)
        if t[0] == 'struct':
            out = []
            for j in range(len(t[1])):
                o, ft = mod.field(t, j)
                out.append(self.load(st, p.add(o), ft))
            return Agg(out)
        if t[0] == 'array':
            s, _ = mod.sizealign(t[2])
            return Agg([self.load(st, p.add(s * j), t[2]) for j in range(t[1])])
        size, _ = mod.sizealign(t)
        if isinstance(p, Opaque):
            self.ub(st, zi(p.t) != 0, 'null dereference')
            return self.load_opaque(st, p, t)
        if not isinstance(p, Ptr): raise Unsupported('load through %r' % (p,))
        p = self.resolve_elem(st, p)
        r = p.r
        self.region_check(st, r)
        if isinstance(r, StrData):
            return self.char_at(st, self.curstr(st, r), p, size)
        if isinstance(r, VecData) and size == 1:
            return self.byte_of(st, self.curvec(st, r).seq, simp(p.total()))
        if isinstance(r, ConstBytes):
            o = simp(p.total())
            if is_sym(o):
                if size != 1: raise Unsupported('wide load from constant bytes')
                return self.char_at(st, strval(r.data[:-1] if r.data.endswith(b'\0') else r.data), p, 1)
            if o < 0 or o + size > len(r.data): self.ub(st, False, 'read outside a constant')
            return int.from_bytes(r.data[o:o + size], 'little')
        if isinstance(r, Inst) and r.fam == 'pbrep':
            from . import lib_pb
            i, f = p.index(8)
            self.ub(st, z3.And(zi(i) >= 0, zi(i) < zi(lib_pb.listlen(st, r.term))), 'list iterator out of range')
            return lib_pb.handle(st, lib_pb.LELEM(r.term, zi(i)))
        if p.sym:
            return self.load_symidx(st, p, t, size)
        c = st.getcell(r, p.off)
        if c is not None:
            sz, v = c
            if isinstance(v, (BytesV,)) and size == 1:
                return self.byte_of(st, v, 0)
            if isinstance(v, Dead): self.ub(st, False, 'use of a destroyed object')
            if isinstance(v, Obj): raise Unsupported('raw load of %r' % (v,))
            if sz != size: raise Unsupported('load of %d bytes from a cell of %d' % (size, sz))
            return v
        # containing byte buffer?
        d = st.mem.get(r.id)
        if d and size == 1:
            for o, (sz, v) in d.items():
                if isinstance(v, BytesV) and o <= p.off < o + sz:
                    return self.byte_of(st, v, p.off - o)
        if d and '@zero' in d:
            for a, b in d['@zero'][1]:
                if a <= p.off and p.off + size <= b:
                    return NULL if t[0] == 'ptr' else (z3.FPVal(0.0, F64) if t[0] == 'double' else 0)
        if isinstance(r, Inst):
            return self.inst_field(st, r, p.off, t[0], size)
        if r.lazy:
            v = r.lazy(st, p.off, t[0], size)
            if v is not None: return v
        if r.size is not None and not (0 <= p.off and p.off + size <= r.size):
            self.ub(st, False, 'access outside an object')
        self.ub(st, False, 'use of uninitialised memory')

    def load_opaque(self, st, p, t):
        raise Unsupported('load from an opaque object')

    def load_symidx(self, st, p, t, size):
        r = p.r
        # constant table with symbolic index
        if r.const and len(p.sym) == 1:
            (stride, idx), = p.sym.items()
            d = st.mem.get(r.id, {})
            offs = sorted(o for o in d if o != '@zero')
            res = None
            n = 0
            conds = []
            for o in offs:
                if (o - p.off) % stride == 0:
                    k = (o - p.off) // stride
                    v = d[o][1]
                    if d[o][0] != size or not isinstance(v, (int, z3.ExprRef)): raise Unsupported('table of non integers')
                    conds.append(idx == k)
                    res = zi(v) if res is None else z3.If(idx == k, zi(v), res)
            if res is None: raise Unsupported('symbolic table')
            self.ub(st, z3.Or(*conds), 'table access outside its bounds')
            return res
        d = st.mem.get(r.id, {})
        for o, c in d.items():
            if o != '@zero' and isinstance(c[1], BytesV) and size == 1:
                return self.byte_of(st, c[1], simp(p.total() - o))
        raise Unsupported('load at a symbolic offset of %r' % (r,))

    def byte_of(self, st, bv, i):
        self.ub(st, z3.And(zi(i) >= 0, zi(i) < zi(bv.ln)), 'read outside a buffer')
        c = z3.StrToCode(z3.SubString(bv.t, zi(i), 1))
        st.assume(z3.And(c >= 0, c <= 255))
        return c

    def char_at(self, st, term, p, size):
        if size != 1: raise Unsupported('wide load from string data')
        i = simp(p.total())
        n = z3.Length(term)
        self.ub(st, z3.And(zi(i) >= 0, zi(i) <= n), 'read outside the characters of a string')
        c = z3.StrToCode(z3.SubString(term, zi(i), 1))
        v = c if self.sure(st, zi(i) != n) else z3.If(zi(i) == n, zi(0), c)
        st.assume(z3.And(v >= 0, v <= 255))
        return simp(v)

    def inst_field(self, st, r, off, kind, size):
        f = self.inst_fields.get(r.fam)
        if f is None: raise Unsupported('no fields known for ' + r.fam)
        v = f(self, st, r.term, off, kind, size)
        if v is None: raise Unsupported('unknown field %s+%d' % (r.fam, off))
        return v

    inst_fields = {}

    def store(self, st, p, ty, v):
        mod = self.mod
        t = mod.resolve(ty)
        if isinstance(v, Agg):
            if t[0] == 'struct':
                for j in range(len(t[1])):
                    o, ft = mod.field(t, j)
                    self.store(st, p.add(o), ft, v.v[j])
                return
            if t[0] == 'array':
                s, _ = mod.sizealign(t[2])
                for j in range(t[1]):
                    self.store(st, p.add(s * j), t[2], v.v[j])
                return
        size, _ = mod.sizealign(t)
        if isinstance(p, Opaque):
            self.ub(st, zi(p.t) != 0, 'null dereference')
            raise Unsupported('store to an opaque object')
        if not isinstance(p, Ptr): raise Unsupported('store through %r' % (p,))
        p = self.resolve_elem(st, p)
        r = p.r
        self.region_check(st, r)
        if r.const or isinstance(r, (ConstBytes,)):
            self.ub(st, False, 'write to a constant')
        if isinstance(r, Inst):
            self.write_inst(st, r, p)
        if isinstance(r, VecData) and size == 1:
            return self.buf_write(st, p, z3.StrFromCode(zi(v)), 1)
        if isinstance(r, StrData):
            if size == 1:
                return self.store_char(st, r, p, v)
            raise Unsupported('wide store into string characters')
        if p.sym: raise Unsupported('store at a symbolic offset')
        if r.size is not None and not (0 <= p.off and p.off + size <= r.size):
            self.ub(st, False, 'write outside an object')
        if r.glob: self.global_write(st, r)
        if v is UNDEF:
            d = dict(st.mem.get(r.id, {}))
            d.pop(p.off, None)
            st.mem[r.id] = d
            return
        st.setcell(r, p.off, size, v)

    def store_char(self, st, r, p, v):
        cur = self.curstr(st, r, obj=True)
        i = simp(p.total())
        self.ub(st, z3.And(zi(i) >= 0, zi(i) < z3.Length(cur.t)), 'write outside the characters of a string')
        n = z3.Length(cur.t)
        nt = z3.Concat(z3.SubString(cur.t, 0, zi(i)), z3.StrFromCode(zi(v)), z3.SubString(cur.t, zi(i) + 1, n))
        st.setcell(r.owner, r.ooff, 32, StrV(nt, cur.ver))

    def write_inst(self, st, r, p):
        fam = r.fam
        self.oblige(st, False, '%s: does not modify %s' % (self.curfn, fam), self.frame_props)
        raise PathEnd()

    frame_props = {'C07'}

    def global_write(self, st, r):
        if st.ghost.get('static_init'): return
        self.oblige(st, False, '%s: result does not depend on earlier calls (writes global or static variable)' % self.curfn, self.history_props)

    history_props = {'C10'}

    # abstract objects --------------------------------------------------------
    def getobj(self, st, p, kind):
        """the abstract object of class kind at p"""
        if isinstance(p, Opaque):
            self.ub(st, zi(p.t) != 0, 'null dereference')
            raise Unsupported('object behind an opaque pointer')
        if not isinstance(p, Ptr): raise Unsupported('object at %r' % (p,))
        p = self.resolve_elem(st, p)
        self.region_check(st, p.r)
        if p.sym: raise Unsupported('object at a symbolic offset')
        c = st.getcell(p.r, p.off)
        if c is not None:
            v = c[1]
            if isinstance(v, Dead): self.ub(st, False, 'use of a destroyed object')
            return v
        if isinstance(p.r, Inst):
            return self.inst_field(st, p.r, p.off, kind, 0)
        if p.r.lazy:
            v = p.r.lazy(st, p.off, kind, 0)
            if v is not None:
                st.setcell(p.r, p.off, v.size, v)
                return v
        if str(getattr(p.r, 'name', '')).startswith('setend'): raise Unsupported('internals of a set')
        self.ub(st, False, 'use of an object that is not alive')
        self.ub(st, False, 'use of an object that is not alive')

    def setobj(self, st, p, v):
        if not isinstance(p, Ptr): raise Unsupported('object at %r' % (p,))
        p = self.resolve_elem(st, p)
        self.region_check(st, p.r)
        if isinstance(p.r, Inst): self.write_inst(st, p.r, p)
        if p.sym: raise Unsupported('object at a symbolic offset')
        if p.r.glob: self.global_write(st, p.r)
        if p.r.const: self.ub(st, False, 'write to a constant')
        st.setcell(p.r, p.off, v.size, v)

    def getstr(self, st, p):
        v = self.getobj(st, p, 'string')
        if not isinstance(v, StrV): raise Unsupported('not a string: %r' % (v,))
        return v

    def memcpy(self, st, d, s, n):
        n = simp(n)
        if is_sym(n): raise Unsupported('memcpy of symbolic size')
        if n == 0: return
        if isinstance(s, Ptr) and isinstance(d, Ptr):
            s = self.resolve_elem(st, s)
            d = self.resolve_elem(st, d)
        if not (isinstance(s, Ptr) and isinstance(d, Ptr)) or s.sym or d.sym:
            raise Unsupported('memcpy %r %r' % (d, s))
        self.region_check(st, s.r); self.region_check(st, d.r)
        if isinstance(s.r, ConstBytes):
            if s.r.data[s.off:s.off + n].count(0) == n and n > 64:
                self.memset(st, d, 0, n)
            else:
                st.setcell(d.r, d.off, n, BytesV(strval(s.r.data[s.off:s.off + n]), n))
            return
        if isinstance(s.r, Inst) and s.r.fam == 'elem:sv' and (s.off, n) == (0, 16):
            st.setcell(d.r, d.off, 8, self.inst_field(st, s.r, 0, 'p', 8))
            st.setcell(d.r, d.off + 8, 8, self.inst_field(st, s.r, 8, 'i', 8))
            return
        if isinstance(s.r, Inst) or (s.r.lazy and not st.mem.get(s.r.id)):
            raise Unsupported('memcpy from a symbolic object %r off %r n %r' % (s.r, s.off, n))
        src = dict(st.mem.get(s.r.id, {}))
        dst = dict(st.mem.get(d.r.id, {}))
        for o in list(dst):
            if o != '@zero' and o < d.off + n and d.off < o + dst[o][0]: del dst[o]
        if '@zero' in dst: dst['@zero'] = (0, self.zsub(dst['@zero'][1], d.off, d.off + n))
        for o, c in src.items():
            if o == '@zero':
                for a, b in c[1]:
                    a2, b2 = max(a, s.off), min(b, s.off + n)
                    if a2 < b2:
                        z = dst.get('@zero', (0, ()))[1]
                        dst['@zero'] = (0, z + ((a2 - s.off + d.off, b2 - s.off + d.off),))
                continue
            if s.off <= o < s.off + n:
                if o + c[0] > s.off + n: raise Unsupported('memcpy splits a cell')
                if isinstance(c[1], Obj) and not c[1].copyable and not isinstance(c[1], BytesV):
                    raise Unsupported('memcpy of %r' % (c[1],))
                dst[o - s.off + d.off] = c
        st.mem[d.r.id] = dst

    def zsub(self, ranges, a, b):
        out = []
        for x, y in ranges:
            if y <= a or x >= b: out.append((x, y))
            else:
                if x < a: out.append((x, a))
                if b < y: out.append((b, y))
        return tuple(out)

    def memset(self, st, d, v, n):
        n = simp(n); v = simp(v)
        if is_sym(n) or v != 0 or not isinstance(d, Ptr) or d.sym: raise Unsupported('memset')
        if n == 0: return
        dd = dict(st.mem.get(d.r.id, {}))
        for o in list(dd):
            if o != '@zero' and o < d.off + n and d.off < o + dd[o][0]: del dd[o]
        z = dd.get('@zero', (0, ()))[1]
        dd['@zero'] = (0, self.zsub(z, d.off, d.off + n) + ((d.off, d.off + n),))
        st.mem[d.r.id] = dd

    # strings / buffers --------------------------------------------------------
    def bytes_of(self, st, p, n, what='buffer'):
        """z3 string with the n bytes at p; obliges that they are readable"""
        n = simp(n)
        if isinstance(p, Opaque):
            self.ub(st, zi(n) == 0, 'read through a null pointer')
            return z3.StringVal('')
        if not isinstance(p, Ptr): raise Unsupported('bytes at %r' % (p,))
        if isinstance(p.r, VecData) and p.r.val.ek == 'u8':
            v = self.curvec(st, p.r).seq
            return self.sub(st, v.t, v.ln, simp(p.total()), n)
        self.region_check(st, p.r)
        r = p.r
        if isinstance(r, StrData):
            t = self.curstr(st, r)
            return self.sub(st, t, simp(z3.Length(t)), simp(p.total()), n, nul=True)
        if isinstance(r, ConstBytes):
            o = simp(p.total())
            if not is_sym(o) and not is_sym(n):
                if o < 0 or n < 0 or o + n > len(r.data): self.ub(st, False, 'read outside a constant')
                return strval(r.data[o:o + n])
            return self.sub(st, strval(r.data), len(r.data), o, n)
        d = st.mem.get(r.id) or {}
        if len(p.sym) == 0:
            for o, (sz, v) in d.items():
                if o != '@zero' and isinstance(v, BytesV) and o <= p.off and (p.off < o + sz or p.off == o):
                    return self.sub(st, v.t, v.ln, p.off - o, n)
            for o, (sz, v) in d.items():
                if o == p.off and sz == 1 and isinstance(v, (int, z3.ExprRef)) and not is_sym(n):
                    out = []
                    for k in range(n):
                        c = d.get(p.off + k)
                        if c is None or c[0] != 1: raise Unsupported('bytes')
                        out.append(z3.StrFromCode(zi(c[1])))
                    return out[0] if len(out) == 1 else z3.Concat(*out)
        if r.lazy:
            v = r.lazy(st, p.off, 'bytes', 0)
            if isinstance(v, BytesV): return self.sub(st, v.t, v.ln, simp(p.total()), n)
        raise Unsupported('bytes of %r' % (p,))

    def buf_write(self, st, p, t, n):
        """overwrite n bytes at p with the z3 string t"""
        if isinstance(p, Ptr) and isinstance(p.r, VecData) and p.r.val.ek == 'u8':
            v = self.curvec(st, p.r)
            o = simp(p.total())
            self.ub(st, z3.And(zi(o) >= 0, zi(o) + zi(n) <= zi(v.ln)), 'write outside a buffer')
            b = v.seq
            nb = BytesV(self.splice(b.t, b.ln, o, t, n), b.ln, b.ver)
            st.setcell(p.r.owner, p.r.ooff, 24, VecV('u8', 1, seq=nb, ln=v.ln, ver=v.ver))
            return
        if isinstance(p, Ptr) and isinstance(p.r, StrData):
            v = self.curstr(st, p.r, obj=True)
            o = simp(p.total())
            ln = z3.Length(v.t)
            self.ub(st, z3.And(zi(o) >= 0, zi(o) + zi(n) <= ln), 'write outside a buffer')
            st.setcell(p.r.owner, p.r.ooff, 32, StrV(self.splice(v.t, ln, o, t, n), v.ver))
            return
        if isinstance(p, Ptr) and not p.sym and p.r.size is not None and getattr(p.r, 'alloca', False):
            self.region_check(st, p.r)
            self.ub(st, z3.And(zi(n) >= 0, zi(p.off) + zi(n) <= p.r.size), 'write outside a buffer')
            c = st.getcell(p.r, 0)
            if c is not None and isinstance(c[1], BytesV): old = c[1].t
            else:
                old = z3.String('garbage!%d' % fresh_id())
                st.assume(z3.Length(old) == p.r.size)
            st.setcell(p.r, 0, p.r.size, BytesV(self.splice(old, p.r.size, p.off, t, n), p.r.size))
            return
        if isinstance(p, Opaque): self.ub(st, False, 'write through a null pointer')
        raise Unsupported('write to %r' % (p,))

    def splice(self, old, ln, off, t, n):
        off = simp(off)
        parts = []
        if is_sym(off) or off != 0: parts.append(z3.SubString(old, 0, zi(off)))
        parts.append(zs(t))
        if not same(simp(zi(off) + zi(n)), simp(zi(ln))): parts.append(z3.SubString(old, zi(off) + zi(n), zi(ln) - zi(off) - zi(n)))
        return parts[0] if len(parts) == 1 else z3.Concat(*parts)

    def sub(self, st, t, ln, off, n, nul=False):
        lim = ln
        self.ub(st, z3.And(zi(off) >= 0, zi(n) >= 0, zi(off) + zi(n) <= zi(lim)), 'read beyond the end of a buffer')
        if not is_sym(off) and off == 0 and same(simp(zi(n)), simp(zi(ln))): return t
        if not is_sym(off) and off == 0:
            ok, _, _ = self.prove(st.pc, zi(n) == zi(ln), quick=True)
            if ok: return t
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                first = t.arg(0)
                ok, _, _ = self.prove(st.pc, zi(n) == z3.Length(first), quick=True)
                if ok: return first
        r = simp(z3.SubString(t, zi(off), zi(n)))
        return zs(r)

    def sv(self, st, args, i):
        """string_view passed as (ptr, len) pair at args[i], args[i+1] -> z3 string"""
        return self.bytes_of(st, args[i], args[i + 1])

    def cstr(self, st, p):
        if isinstance(p, Ptr) and isinstance(p.r, ConstBytes) and not p.sym:
            b = p.r.data[p.off:]
            j = b.find(0)
            if j < 0: self.ub(st, False, 'unterminated string')
            return strval(b[:j]), j
        if isinstance(p, Ptr) and isinstance(p.r, StrData) and not p.sym and p.off == 0:
            # c_str() of a std::string: up to the first NUL
            t = self.curstr(st, p.r)
            ok, _, _ = self.prove(st.pc, z3.Not(z3.Contains(t, strval(b'\0'))), quick=True)
            k = z3.IndexOf(t, strval(b'\0'), 0)
            return (t, z3.Length(t)) if ok else (z3.If(k < 0, t, z3.SubString(t, 0, k)), z3.If(k < 0, z3.Length(t), k))
        raise Unsupported('C string at %r' % (p,))

    # ---------------------------------------------------------------- values
    def glob(self, st, name):
        r = self.globals.get(name)
        if r is None:
            if name in self.mod.funcs or name in self.mod.decls:
                r = Region('fn:' + name)
                r.fname = name
                r.const = True
            else:
                gi = self.mod.global_init(name)
                if gi is None:
                    r = Region('global:' + name, glob=True)
                else:
                    t, v, const = gi
                    if v[0] == 'cstr':
                        r = ConstBytes(name, v[1]) if const else Region(name, glob=True)
                    elif name.startswith('_ZGV'):
                        r = Region(name, size=8)
                        r.guard = True
                        r.initcells = {0: (1, 0)}
                        r.lazy = lambda st, off, k, sz: 0
                    elif v[0] == 'zero' and const:
                        n, _ = self.mod.sizealign(t)
                        r = ConstBytes(name, b'\0' * n)
                    elif const:
                        r = Region(name, size=self.mod.sizealign(t)[0], const=True)
                        self.globals[name] = r
                        cells = {}
                        self.init_cells(st, t, v, 0, cells)
                        r.initcells = cells
                    else:
                        # mutable static: any earlier history -> arbitrary content
                        r = Region('static:' + name, size=self.mod.sizealign(t)[0], glob=True)
                        def lz(st, off, k, sz, nm=name):
                            if k == 'i':
                                x = z3.Int('static!%s!%d' % (nm, off))
                                st.assume(z3.And(x >= 0, x < (1 << (8 * sz))))
                                return x
                            return None
                        r.lazy = lz
            self.globals[name] = r
        ic = getattr(r, 'initcells', None)
        if ic is not None and r.id not in st.mem:
            st.mem[r.id] = dict(ic)
        return Ptr(r)

    def init_cells(self, st, t, v, off, cells):
        rt = self.mod.resolve(t)
        if v[0] == 'agg':
            for j, (et, ev) in enumerate(v[1]):
                if rt[0] == 'struct': o, _ = self.mod.field(rt, j)
                else: o = j * self.mod.sizealign(rt[2])[0]
                self.init_cells(st, et, ev, off + o, cells)
        elif v[0] == 'cstr':
            cells[off] = (len(v[1]), BytesV(strval(v[1]), len(v[1])))
        elif v[0] == 'zero':
            n, _ = self.mod.sizealign(rt)
            z = cells.get('@zero', (0, ()))[1]
            cells['@zero'] = (0, z + ((off, off + n),))
        else:
            cells[off] = (self.mod.sizealign(rt)[0], self.val(st, None, rt, v))

    def val(self, st, fr, ty, op):
        k = op[0]
        if k == 'l':
            try: return fr.loc[op[1]]
            except KeyError: raise Unsupported('undefined local %' + op[1])
        if k == 'c':
            n = ty[1]
            if n == 1: return bool(op[1] & 1)
            return op[1] % (1 << n)
        if k == 'g': return self.glob(st, op[1])
        if k == 'null': return NULL
        if k == 'undef': 
            return UNDEF
        if k == 'zero':
            return self.zeroval(op[1])
        if k == 'fp':
            s = op[1]
            if s.startswith('0x'):
                bits = int(s, 16)
                return z3.fpBVToFP(z3.BitVecVal(bits, 64), F64)
            return z3.FPVal(float(s), F64)
        if k == 'cgep':
            return self.gep(st, None, op[1], self.val(st, fr, ('ptr',), op[2]), [(t, self.val(st, fr, t, v)) for t, v in op[3]])
        if k == 'agg':
            return Agg([self.val(st, fr, t, v) for t, v in op[1]])
        raise Unsupported('operand %r' % (op,))

    def zeroval(self, t):
        t = self.mod.resolve(t)
        if t[0] == 'ptr': return NULL
        if t[0] == 'i': return False if t[1] == 1 else 0
        if t[0] == 'struct': return Agg([self.zeroval(f) for f in t[1]])
        if t[0] == 'array': return Agg([self.zeroval(t[2]) for _ in range(t[1])])
        if t[0] == 'double': return z3.FPVal(0.0, F64)
        raise Unsupported('zero %r' % (t,))

    def signed(self, x, n):
        h, m = 1 << (n - 1), 1 << n
        if isinstance(x, bool): x = int(x)
        if isinstance(x, int): return x - m if x >= h else x
        return z3.If(x >= h, x - m, x)

    def wrap(self, x, n):
        m = 1 << n
        if isinstance(x, int): return x % m
        return simp(x % m)

    def gep(self, st, fr, bt, base, idx):
        mod = self.mod
        if isinstance(base, Opaque):
            if not is_sym(base.t) and base.t == 0:
                # null plus offset: only the null pointer itself is meaningful
                if all(not is_sym(v) and v == 0 for _, v in idx): return base
                raise Unsupported('arithmetic on a null pointer')
            if all(not is_sym(v) and v == 0 for _, v in idx): return base
            return self.gep_opaque(st, base, bt, idx)
        if not isinstance(base, Ptr): raise Unsupported('gep on %r' % (base,))
        t = bt
        p = base
        first = True
        for it, v in idx:
            v = simp(v) if is_sym(v) else v
            if not isinstance(v, (int, z3.ExprRef)): raise Unsupported('gep index %r' % (v,))
            if first:
                s, _ = mod.sizealign(t)
                first = False
                p = self.addidx(st, p, s, v, it[1])
                continue
            rt = mod.resolve(t)
            if rt[0] == 'struct':
                o, t = mod.field(rt, v)
                p = p.add(o)
            elif rt[0] == 'array':
                t = rt[2]
                s, _ = mod.sizealign(t)
                p = self.addidx(st, p, s, v, it[1])
            else:
                raise Unsupported('gep into %r' % (rt,))
        return p

    def gep_opaque(self, st, base, bt, idx):
        raise Unsupported('arithmetic on an opaque pointer')

    def addidx(self, st, p, s, v, n):
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int):
            return p.add(s * self.signed(v, n))
        # symbolic indices are canonical unsigned; negative ones only arise from subtraction
        h = 1 << (n - 1)
        ok, _, _ = self.prove(st.pc, v < h, quick=True)
        return p.addsym(s, v if ok else self.signed(v, n))

    # ---------------------------------------------------------------- instructions
    def cmp(self, st, pr, ty, a, b):
        if a is UNDEF or b is UNDEF:
            self.ub(st, False, 'use of an uninitialised value')
        if ty[0] == 'ptr' or isinstance(a, (Ptr, Opaque)) or isinstance(b, (Ptr, Opaque)):
            return self.ptrcmp(st, pr, a, b)
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if isinstance(a, PtrInt) and isinstance(b, PtrInt):
                return self.ptrcmp(st, pr, a.p, b.p)
            raise Unsupported('comparison of a pointer as integer')
        n = ty[1]
        if n == 1:
            a, b = zb(a), zb(b)
            r = simp(a == b)
            if pr == 'eq': return r
            if pr == 'ne': return simp(z3.Not(zb(r)))
            a, b = b2i(a), b2i(b)
        if pr[0] == 's':
            a, b = self.signed(a, n), self.signed(b, n)
        op = pr if pr in ('eq', 'ne') else pr[1:]
        if isinstance(a, int) and isinstance(b, int):
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[op]
        a, b = zi(a), zi(b)
        return simp({'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b,
                     'gt': lambda: a > b, 'ge': lambda: a >= b}[op]())

    def ptrcmp(self, st, pr, a, b):
        neg = pr == 'ne'
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            if pr not in ('eq', 'ne'): raise Unsupported('pointer order')
            r = simp(zi(a.t) == zi(b.t))
        elif isinstance(a, Opaque) or isinstance(b, Opaque):
            if pr not in ('eq', 'ne'): raise Unsupported('pointer order')
            r = False
        else:
            if same_region(a.r, b.r):
                x, y = a.total(), b.total()
                r = self.cmp(st, {'eq': 'eq', 'ne': 'eq'}.get(pr, 's' + pr[1:]), ('i', 128), x, y)
                if pr not in ('eq', 'ne'): return r
            else:
                if pr not in ('eq', 'ne'): raise Unsupported('order of pointers into different objects')
                if isinstance(a.r, Inst) and isinstance(b.r, Inst) and a.r.fam == b.r.fam:
                    raise Unsupported('comparison of addresses of symbolic objects')
                for q in (a, b):
                    if isinstance(q.r, (StrData, VecData)): self.stale(st, q.r)
                r = False
        if neg: return (not r) if isinstance(r, bool) else simp(z3.Not(r))
        return r

    def binop(self, st, op, ty, a, b, flags):
        if a is UNDEF or b is UNDEF: return UNDEF
        if op[0] == 'f':
            rm = z3.RNE()
            return {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](rm, a, b)
        n = ty[1]
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt) and isinstance(a.p, Ptr) and isinstance(b.p, Ptr) and same_region(a.p.r, b.p.r):
                return self.wrapsub(st, a.p.total(), b.p.total(), n)
            raise Unsupported('integer arithmetic on a pointer')
        if n == 1:
            a, b = zb(a), zb(b)
            r = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor, 'add': z3.Xor, 'sub': z3.Xor, 'mul': z3.And}.get(op)
            if r is None: raise Unsupported('i1 ' + op)
            return simp(r(a, b))
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        m, h = 1 << n, 1 << (n - 1)
        conc = isinstance(a, int) and isinstance(b, int)
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in flags:
                x, y = self.signed(a, n), self.signed(b, n)
                r = x + y if op == 'add' else x - y if op == 'sub' else x * y
                self.ub(st, z3.And(zi(r) >= -h, zi(r) < h), 'signed integer overflow')
                if isinstance(r, int): return r % m
                return simp(z3.If(r < 0, r + m, r))
            if op == 'add':
                if conc: return (a + b) % m
                for x, y in ((a, b), (b, a)):
                    if isinstance(y, int):
                        if y == 0: return x
                        if y >= h:      # subtraction of a constant
                            k = m - y
                            if self.sure(st, zi(x) >= k): return simp(zi(x) - k)
                            return simp(z3.If(zi(x) >= k, zi(x) - k, zi(x) + y))
                s = simp(zi(a) + zi(b))
                if not is_sym(s): return s % m
                if self.sure(st, s < m): return s
                return simp(z3.If(s >= m, s - m, s))
            if op == 'sub':
                return self.wrapsub(st, a, b, n)
            if conc: return (a * b) % m
            return simp((zi(a) * zi(b)) % m)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.ub(st, zi(b) != 0, 'division by zero')
            if op[0] == 'u':
                if conc: return a // b if op == 'udiv' else a % b
                return simp(zi(a) / zi(b) if op == 'udiv' else zi(a) % zi(b))
            x, y = self.signed(a, n), self.signed(b, n)
            if conc:
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                return (q if op == 'sdiv' else x - q * y) % m
            if not isinstance(y, int) or y <= 0: raise Unsupported('signed division by a symbolic value')
            x = zi(x)
            q = z3.If(x >= 0, x / y, -((-x) / y))
            r = q if op == 'sdiv' else x - q * y
            return simp(z3.If(r < 0, r + m, r))
        if conc:
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) % m if b < n else 0
            if op == 'lshr': return a >> b if b < n else 0
            if op == 'ashr': return (self.signed(a, n) >> b) % m
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int):
                    if y == 0: return 0
                    if y & (y + 1) == 0: return simp(zi(x) % (y + 1))
        if op == 'or':
            if isinstance(a, int) and a == 0: return b
            if isinstance(b, int) and b == 0: return a
        if op == 'xor' and isinstance(b, int) and b == m - 1:
            return simp(zi(m - 1) - zi(a))
        if op == 'shl' and isinstance(b, int): return simp((zi(a) * (1 << b)) % m)
        if op == 'lshr' and isinstance(b, int): return simp(zi(a) / (1 << b))
        if op in ('and', 'or', 'xor') and n <= 64:
            x, y = z3.Int2BV(zi(a), n), z3.Int2BV(zi(b), n)
            return simp(z3.BV2Int({'and': x & y, 'or': x | y, 'xor': x ^ y}[op]))
        raise Unsupported('integer operation %s' % op)

    def wrapsub(self, st, a, b, n):
        m = 1 << n
        if isinstance(a, int) and isinstance(b, int): return (a - b) % m
        if isinstance(b, int) and b == 0: return a
        a, b = zi(a), zi(b)
        d = simp(a - b)
        if not is_sym(d): return d % m
        if self.sure(st, d >= 0): return d
        return simp(z3.If(d >= 0, d, d + m))

    def cast(self, st, op, t, v, t2):
        if v is UNDEF: return UNDEF
        if op in ('zext', 'sext', 'trunc'):
            n, k = t[1], t2[1]
            if op == 'zext':
                if n == 1: return simp(b2i(v))
                return v
            if op == 'sext':
                if n == 1:
                    if isinstance(v, bool): return (1 << k) - 1 if v else 0
                    return z3.If(v, zi((1 << k) - 1), zi(0))
                s = self.signed(v, n)
                if isinstance(s, int): return s % (1 << k)
                v = zi(v)
                ok, _, _ = self.prove(st.pc, v < (1 << (n - 1)), quick=True)
                if ok: return v
                return simp(z3.If(v >= (1 << (n - 1)), v + ((1 << k) - (1 << n)), v))
            if k == 1: return simp(zb(i2b(v)))
            if isinstance(v, int): return v % (1 << k)
            ok, _, _ = self.prove(st.pc, v < (1 << k), quick=True)
            if ok: return v
            return simp(v % (1 << k))
        if op == 'ptrtoint':
            if isinstance(v, Opaque) and not is_sym(v.t) and v.t == 0: return 0
            return PtrInt(v)
        if op == 'inttoptr':
            if isinstance(v, PtrInt): return v.p
            if isinstance(v, int) and v == 0: return NULL
            raise Unsupported('inttoptr')
        if op == 'bitcast': return v
        if op == 'uitofp':
            if isinstance(v, int): return z3.simplify(z3.fpUnsignedToFP(z3.RNE(), z3.BitVecVal(v, t[1]), F64))
            return z3.fpUnsignedToFP(z3.RNE(), z3.Int2BV(zi(v), t[1]), F64)
        if op == 'sitofp':
            return z3.fpSignedToFP(z3.RNE(), z3.Int2BV(zi(v), t[1]), F64)
        if op == 'fptoui':
            n = t2[1]
            self.ub(st, fp_in_unsigned(v, n), 'conversion of a floating point value outside the range of the integer type')
            return fp_to_u(v, n)
        if op == 'fptosi':
            n = t2[1]
            lo, hi = -(1 << (n - 1)), 1 << (n - 1)
            self.ub(st, z3.And(z3.fpGEQ(v, z3.FPVal(float(lo), F64)), z3.fpLT(v, z3.FPVal(float(hi), F64))), 'conversion of a floating point value outside the range of the integer type')
            return z3.BV2Int(z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(n)), False)
        raise Unsupported('cast ' + op)

    def fcmp(self, pr, a, b):
        if pr == 'true': return True
        if pr == 'false': return False
        base = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if pr == 'ord': return simp(z3.Not(nan))
        if pr == 'uno': return simp(nan)
        k = pr[1:]
        if k == 'ne': r = z3.Not(z3.fpEQ(a, b))
        else: r = base[k](a, b)
        if pr[0] == 'u': r = z3.Or(nan, r)
        elif k == 'ne': r = z3.And(z3.Not(nan), r)
        return simp(r)

    # ---------------------------------------------------------------- control
    def run(self, st, fn, args):
        """explore all paths of fn; yields (state, return value)"""
        if isinstance(fn, str): fn = self.mod.funcs[fn]
        fn.parse()
        fr = Frame(fn)
        if len(args) < len(fn.params): raise Unsupported('argument count')
        for (t, nm, a), v in zip(fn.params, args):
            if 'byval' in a and isinstance(v, Ptr):
                n, _ = self.mod.sizealign(a['byval'])
                r = Region('byval', size=n)
                self.memcpy(st, Ptr(r), v, n)
                v = Ptr(r)
            fr.loc[nm] = v
        yield from self.block(st, fr, fn.entry, None)

    def block(self, st, fr, b, prev):
        while True:
            # leaving / re-entering loops
            if fr.loops:
                loops = fr.loops
                while loops:
                    c = loops[-1]
                    if b == c.header and prev in c.body:
                        if c.mode == 'unroll':
                            break
                        if c.mode == 'dry':
                            c.sink.append((st, fr, prev))
                        elif c.sink is not None:
                            c.sink.append((st, fr, prev))
                        return
                    if b not in c.body:
                        if c.mode == 'dry': return
                        loops = loops[:-1]
                        continue
                    break
                fr.loops = loops
            if b in fr.fn.loops:
                r = self.loop_entry(st, fr, b, prev)
                if r is not None:
                    yield from r
                    return
            self.phis(st, fr, b, prev)
            yield from self.body(st, fr, b)
            return

    def phis(self, st, fr, b, prev):
        vals = []
        for ins in fr.fn.blocks[b]:
            if ins.op != 'phi': break
            t, inc = ins.a
            for v, l in inc:
                if l == prev:
                    vals.append((ins.dst, self.val(st, fr, t, v)))
                    break
            else:
                raise Unsupported('phi')
        for d, v in vals: fr.loc[d] = v

    def body(self, st, fr, b):
        """execute block b after its phis; yields (state, ret)"""
        code = fr.fn.blocks[b]
        i = 0
        while i < len(code) and code[i].op == 'phi': i += 1
        yield from self.code(st, fr, b, code, i)

    def code(self, st, fr, b, code, i):
        mod = self.mod
        loc = fr.loc
        n = len(code)
        while i < n:
            ins = code[i]
            op = ins.op
            i += 1
            self.stats['instrs'] += 1
            if op == 'call':
                rt, callee, args = ins.a
                nm = callee[1] if callee[0] == 'g' else None
                if nm is None:
                    f = self.val(st, fr, ('ptr',), callee)
                    if isinstance(f, Ptr) and hasattr(f.r, 'fname'): nm = f.r.fname
                    else: raise Unsupported('indirect call')
                if nm.startswith('llvm.dbg') or nm.startswith('llvm.lifetime') or nm.startswith('llvm.assume') or nm.startswith('llvm.donothing'): continue
                av = [self.val(st, fr, t, v) for t, v, _ in args]
                res = self.call(st, nm, av, ins)
                if isinstance(res, list) and len(res) == 1:
                    st2, v = res[0]
                    if st2 is st:
                        if ins.dst is not None: loc[ins.dst] = v
                        continue
                for st2, v in res:
                    fr2 = fr.copy()
                    if ins.dst is not None: fr2.loc[ins.dst] = v
                    yield from self.guarded(self.code(st2, fr2, b, code, i))
                return
            if op == 'br':
                yield from self.block(st, fr, ins.a[0], b)
                return
            if op == 'condbr':
                c, x, y = ins.a
                c = self.val(st, fr, ('i', 1), c)
                if c is UNDEF: self.ub(st, False, 'branch on an uninitialised value')
                c = simp(c) if is_sym(c) else c
                if isinstance(c, (bool, int)):
                    yield from self.block(st, fr, x if c else y, b)
                    return
                if x == y:
                    yield from self.block(st, fr, x, b)
                    return
                nc = z3.Not(c)
                ft = self.feasible(st, c)
                ff = self.feasible(st, nc) if ft else True
                if ft and ff:
                    st2, fr2 = st.copy(), fr.copy()
                    st2.assume(c)
                    yield from self.guarded(self.block(st2, fr2, x, b))
                    st.assume(nc)
                    yield from self.block(st, fr, y, b)
                else:
                    st.assume(c if ft else nc)
                    yield from self.block(st, fr, x if ft else y, b)
                return
            if op == 'switch':
                t, v, d, cs = ins.a
                v = self.val(st, fr, t, v)
                if v is UNDEF: self.ub(st, False, 'switch on an uninitialised value')
                n_ = t[1]
                v = simp(v) if is_sym(v) else v
                if isinstance(v, (int, bool)):
                    v = int(v)
                    for c, l in cs:
                        if c % (1 << n_) == v:
                            yield from self.block(st, fr, l, b)
                            return
                    yield from self.block(st, fr, d, b)
                    return
                groups = {}
                for c, l in cs:
                    groups.setdefault(l, []).append(zi(v) == c % (1 << n_))
                for l, conds in groups.items():
                    f = z3.Or(*conds) if len(conds) > 1 else conds[0]
                    if self.feasible(st, f):
                        st2, fr2 = st.copy(), fr.copy()
                        st2.assume(f)
                        yield from self.guarded(self.block(st2, fr2, l, b))
                nf = z3.And(*[zi(v) != c % (1 << n_) for c, _ in cs]) if cs else True
                if self.feasible(st, nf):
                    st.assume(nf)
                    yield from self.block(st, fr, d, b)
                return
            if op == 'ret':
                if any(c.mode == 'dry' for c in fr.loops): return
                v = None
                if ins.a is not None: v = self.val(st, fr, ins.a[0], ins.a[1])
                yield st, v
                return
            if op == 'unreachable':
                return
            if op == 'alloca':
                t, cnt = ins.a
                s, _ = mod.sizealign(t)
                if cnt is not None and cnt != ('c', 1): raise Unsupported('variable alloca')
                r = Region('%' + fr.fn.name[:20] + ':' + ins.dst, size=s)
                r.alloca = True
                r.ty = t
                loc[ins.dst] = Ptr(r)
            elif op == 'load':
                loc[ins.dst] = self.load(st, self.val(st, fr, ('ptr',), ins.a[1]), ins.a[0])
            elif op == 'store':
                t, v, d = ins.a
                self.store(st, self.val(st, fr, ('ptr',), d), t, self.val(st, fr, t, v))
            elif op == 'gep':
                bt, base, idx = ins.a
                loc[ins.dst] = self.gep(st, fr, bt, self.val(st, fr, ('ptr',), base), [(t, self.val(st, fr, t, v)) for t, v in idx])
            elif op == 'icmp':
                pr, t, x, y = ins.a
                loc[ins.dst] = self.cmp(st, pr, t, self.val(st, fr, t, x), self.val(st, fr, t, y))
            elif op == 'fcmp':
                pr, t, x, y = ins.a
                loc[ins.dst] = self.fcmp(pr, self.val(st, fr, t, x), self.val(st, fr, t, y))
            elif op == 'bin':
                o, t, x, y, fl = ins.a
                loc[ins.dst] = self.binop(st, o, t, self.val(st, fr, t, x), self.val(st, fr, t, y), fl)
            elif op == 'fneg':
                loc[ins.dst] = z3.fpNeg(self.val(st, fr, ins.a[0], ins.a[1]))
            elif op == 'cast':
                o, t, v, t2 = ins.a
                loc[ins.dst] = self.cast(st, o, t, self.val(st, fr, t, v), t2)
            elif op == 'select':
                c, t, x, y = ins.a
                c = self.val(st, fr, ('i', 1), c)
                c = simp(c) if is_sym(c) else c
                a, bb = self.val(st, fr, t, x), self.val(st, fr, t, y)
                if isinstance(c, (bool, int)): loc[ins.dst] = a if c else bb
                elif same(a, bb): loc[ins.dst] = a
                elif isinstance(a, (int, z3.ExprRef)) and isinstance(bb, (int, z3.ExprRef)):
                    if t == ('i', 1): loc[ins.dst] = simp(z3.If(c, zb(a), zb(bb)))
                    else: loc[ins.dst] = simp(z3.If(c, zi(a) if t[0] == 'i' else a, zi(bb) if t[0] == 'i' else bb))
                elif isinstance(a, Opaque) and isinstance(bb, Opaque):
                    loc[ins.dst] = Opaque(z3.If(c, zi(a.t), zi(bb.t)))
                else:
                    ft, ff = self.feasible(st, c), self.feasible(st, z3.Not(c))
                    if ft:
                        st2, fr2 = (st.copy(), fr.copy()) if ff else (st, fr)
                        st2.assume(c)
                        fr2.loc[ins.dst] = a
                        yield from self.guarded(self.code(st2, fr2, b, code, i))
                        if not ff: return
                    st.assume(z3.Not(c))
                    loc[ins.dst] = bb
            elif op == 'extractvalue':
                v = self.val(st, fr, ins.a[0], ins.a[1])
                for k in ins.a[2]:
                    v = v.v[k] if isinstance(v, Agg) else UNDEF
                loc[ins.dst] = v
            elif op == 'insertvalue':
                t, v, w, ix = ins.a
                v = self.val(st, fr, t, v)
                w = self.val(st, fr, None, w) if w[0] in ('l', 'g', 'null') else self.val(st, fr, self.aggfield(t, ix), w)
                loc[ins.dst] = self.insert(t, v, ix, w)
            elif op == 'freeze':
                loc[ins.dst] = self.val(st, fr, ins.a[0], ins.a[1])
            else:
                raise Unsupported('instruction ' + str(ins.a)[:80])
        raise Unsupported('block without terminator')

    def aggfield(self, t, ix):
        for k in ix:
            t = self.mod.resolve(t)
            t = t[1][k] if t[0] == 'struct' else t[2]
        return t

    def insert(self, t, v, ix, w):
        if v is UNDEF:
            rt = self.mod.resolve(t)
            n = len(rt[1]) if rt[0] == 'struct' else rt[1]
            v = Agg([UNDEF] * n)
        v = Agg(v.v)
        if len(ix) == 1: v.v[ix[0]] = w
        else: v.v[ix[0]] = self.insert(self.aggfield(t, ix[:1]), v.v[ix[0]], ix[1:], w)
        return v

    def guarded(self, gen):
        """a path that ended by a failed safety obligation does not end its siblings"""
        try:
            yield from gen
        except PathEnd:
            return

    # ---------------------------------------------------------------- calls
    def call(self, st, name, args, ins=None):
        dem = self.mod.dem(name)
        c = self.contracts(self, name, dem)
        if c is not None:
            self.stats['calls'].add(dem)
            try:
                r = c(self, st, args, ins)
            except PathEnd:
                return []
            if isinstance(r, list): return r
            if hasattr(r, '__next__'): return self.guarded(r)
            return [(st, r)]
        fn = self.mod.funcs.get(name)
        if fn is None:
            raise Unsupported('no contract for external function ' + dem[:200])
        self.stats['inlined'].add(dem)
        return self.guarded(self.run(st, fn, args))

    # ---------------------------------------------------------------- loops
    def loop_entry(self, st, fr, h, prev):
        """called on arrival at loop header h.  None: proceed normally (unrolled iteration)."""
        fn = fr.fn
        body = fn.loops[h]
        came_back = prev in body
        act = fr.loops[-1] if fr.loops and fr.loops[-1].header == h else None
        # try to unroll: the exit condition of this iteration is decided
        cnt = fr.unroll.get(h, 0) if came_back else 0
        if cnt < 80 and self.peek_concrete(st, fr, h, prev, body):
            fr.unroll[h] = cnt + 1
            if act is None or act.mode != 'unroll':
                fr.loops = fr.loops + (LoopCtx(h, body, 'unroll'),)
            return None
        if act is not None and act.mode == 'unroll':
            fr.loops = fr.loops[:-1]
        return self.loop_invariant(st, fr, h, prev, body)

    def peek_concrete(self, st, fr, h, prev, body):
        term = fr.fn.blocks[h][-1]
        if term.op != 'condbr': return False
        c, x, y = term.a
        if (x in body) == (y in body): return False
        st2, fr2 = st.copy(), fr.copy()
        self.quiet += 1
        try:
            self.phis(st2, fr2, h, prev)
            code = fr.fn.blocks[h]
            i = 0
            while code[i].op == 'phi': i += 1
            # run the header block only
            r = self.peek_block(st2, fr2, h, code, i)
        except (Unsupported, PathEnd):
            return False
        finally:
            self.quiet -= 1
        return isinstance(r, (bool, int))

    def peek_block(self, st, fr, b, code, i):
        class Stop(Exception): pass
        # execute instructions up to the terminator on a single path
        n = len(code) - 1
        while i < n:
            ins = code[i]
            if ins.op == 'call':
                rt, callee, args = ins.a
                if callee[0] != 'g': return None
                if callee[1].startswith('llvm.'):
                    i += 1
                    continue
                av = [self.val(st, fr, t, v) for t, v, _ in args]
                res = self.call(st, callee[1], av, ins)
                out = []
                for x in res:
                    out.append(x)
                    if len(out) > 1: return None
                if not out: return None
                st, v = out[0]
                if ins.dst is not None: fr.loc[ins.dst] = v
            else:
                g = self.code(st, fr, b, [ins, _STOP], 0)
                try:
                    for _ in g: return None
                except _StopPeek:
                    pass
            i += 1
        c = self.val(st, fr, ('i', 1), code[n].a[0])
        return simp(c) if is_sym(c) else c

    def havoc_value(self, st, v, tag):
        """an arbitrary value of the same shape"""
        if isinstance(v, bool) or (is_sym(v) and v.sort() == Bool):
            return z3.Bool('h!%s!%d' % (tag, fresh_id()))
        if isinstance(v, int) or (is_sym(v) and v.sort() == Int):
            x = z3.Int('h!%s!%d' % (tag, fresh_id()))
            return x
        if is_sym(v):
            return z3.Const('h!%s!%d' % (tag, fresh_id()), v.sort())
        if isinstance(v, Opaque): return Opaque(z3.Int('h!%s!%d' % (tag, fresh_id())), v.cls)
        if isinstance(v, StrV): return StrV(z3.String('h!%s!%d' % (tag, fresh_id())))
        if isinstance(v, VecV):
            if v.ek == 'u8':
                n = z3.Int('h!%s!%d' % (tag, fresh_id()))
                t = z3.String('h!%s!%d' % (tag, fresh_id()))
                st.assume(z3.Length(t) == n)
                return VecV('u8', 1, seq=BytesV(t, n), ln=n)
            s = z3.Const('h!%s!%d' % (tag, fresh_id()), SeqS)
            n = SEQ_LEN(s)
            st.assume(n >= 0)
            return VecV(v.ek, v.esize, seq=s, ln=n)
        if isinstance(v, SetV):
            return SetV(z3.Const('h!%s!%d' % (tag, fresh_id()), v.arr.sort()), z3.Bool('h!%s!%d' % (tag, fresh_id())))
        if isinstance(v, BytesV):
            return BytesV(z3.String('h!%s!%d' % (tag, fresh_id())), v.ln)
        if isinstance(v, Ghost):
            return Ghost(v.kind, **{k: self.havoc_value(st, x, tag + '.' + k) if not isinstance(x, (str, Region)) else x for k, x in v.f.items()})
        if isinstance(v, Agg): return Agg([self.havoc_value(st, x, tag) for x in v.v])
        if v is UNDEF: return UNDEF
        if v is None: return None
        raise Unsupported('loop modifies %r' % (v,))

    def havoc_ptr(self, st, v, w, tag):
        """pointer that moves inside one region during the loop"""
        if isinstance(v, Opaque) and isinstance(w, Opaque): return Opaque(z3.Int('h!%s!%d' % (tag, fresh_id())), v.cls)
        if isinstance(v, Ptr) and isinstance(w, Ptr) and same_region(v.r, w.r):
            stride = v.r.elem or 1
            i, f = v.index(stride)
            x = z3.Int('h!%s!%d' % (tag, fresh_id()))
            return Ptr(v.r, f, {stride: x})
        raise Unsupported('pointer changes object in a loop')

    def shape_merge(self, st, v, w, tag, width=None):
        if isinstance(v, (Ptr, Opaque)) or isinstance(w, (Ptr, Opaque)):
            return self.havoc_ptr(st, v, w, tag)
        if isinstance(v, Agg) and isinstance(w, Agg) and len(v.v) == len(w.v):
            return Agg([x if same(x, y) else self.shape_merge(st, x, y, tag) for x, y in zip(v.v, w.v)])
        if isinstance(v, Ghost) and isinstance(w, Ghost) and v.kind == w.kind:
            return Ghost(v.kind, **{k: (x if same(x, w.f.get(k)) else self.shape_merge(st, x, w.f.get(k), tag + '.' + k)) for k, x in v.f.items()})
        if (isinstance(v, Dead) or isinstance(w, Dead)): return None
        if v is UNDEF or w is UNDEF: return UNDEF
        if isinstance(v, Obj) != isinstance(w, Obj) or (isinstance(v, Obj) and type(v) is not type(w)):
            raise Unsupported('loop changes the kind of an object')
        r = self.havoc_value(st, v, tag)
        if width and is_sym(r) and r.sort() == Int:
            st.assume(z3.And(r >= 0, r < (1 << width)))
        return r

    def loop_invariant(self, st, fr, h, prev, body):
        fn = fr.fn
        phis = [i for i in fn.blocks[h] if i.op == 'phi']
        loopname = '%s loop@%s' % (self.mod.dem(fn.name)[:60], h)
        # entry values
        fr0 = fr.copy()
        self.phis(st, fr0, h, prev)
        entry_phi = {i.dst: fr0.loc[i.dst] for i in phis}
        mod_phi, mod_cells = {}, {}
        self.quiet += 1
        try:
            for rnd in range(12):
                hst, hfr = self.make_head(st, fr0, phis, mod_phi, mod_cells)
                sink = []
                hfr2 = hfr.copy()
                hfr2.loops = fr.loops + (LoopCtx(h, body, 'dry', sink),)
                for _ in self.guarded(self.body(hst.copy(), hfr2, h)): pass
                changed = False
                for bst, bfr, bprev in sink:
                    bf = bfr.copy()
                    self.phis(bst, bf, h, bprev)
                    for i in phis:
                        v = bf.loc[i.dst]
                        if not same(v, hfr.loc[i.dst]) and (i.dst not in mod_phi or self.widen(mod_phi[i.dst], v)):
                            if os.environ.get('LOOPDBG'): print('phi', rnd, i.dst, v)
                            mod_phi[i.dst] = v
                            changed = True
                    for rid, d in bst.mem.items():
                        d0 = hst.mem.get(rid)
                        if d is d0: continue
                        if d0 is None: continue      # region created in the loop or lazily read
                        for o in set(d) | set(d0):
                            a, b_ = d.get(o), d0.get(o)
                            if b_ is None:
                                if (rid, o) in mod_cells or o == '@zero': continue
                                if os.environ.get('LOOPDBG'): print('newcell', rnd, rid, o, a)
                                mod_cells[(rid, o)] = ('new', a)
                                continue
                            if a is None or not same(a[1], b_[1]):
                                if o == '@zero': continue
                                if os.environ.get('LOOPDBG'): print('cell', rnd, rid, o, a, b_, mod_cells.get((rid, o)))
                                if (rid, o) not in mod_cells or mod_cells[(rid, o)][0] == 'new':
                                    mod_cells[(rid, o)] = ('mod', a)
                                    changed = True
                                elif a is None or isinstance(a[1], Dead) and mod_cells[(rid, o)][1] is not None and not isinstance(mod_cells[(rid, o)][1][1], Dead):
                                    mod_cells[(rid, o)] = ('mod', a)
                                    changed = True
                    for g in set(bst.ghost) | set(hst.ghost):
                        if isinstance(g, tuple) and g[1] not in hst.mem: continue       # about an object created in the loop
                        if not same(bst.ghost.get(g), hst.ghost.get(g)):
                            if ('ghost', g) not in mod_cells:
                                mod_cells[('ghost', g)] = ('mod', bst.ghost.get(g))
                                changed = True
                if not changed: break
            else:
                raise Unsupported('loop modification set does not stabilise')
        finally:
            self.quiet -= 1
        # regions lazily read for the first time inside the loop and then modified: detected by a second comparison
        for bst, bfr, bprev in sink:
            for rid, d in bst.mem.items():
                if rid not in hst.mem:
                    pass
        backs = sink
        heads = (hst, hfr)
        cands = []
        for nm, f in self.candidates(st, fr0, hst, hfr, phis, mod_phi, mod_cells, backs, h):
            def sf(s_, p_, f_, f=f):
                try: return f(s_, p_, f_)
                except (KeyError, AttributeError, Unsupported, z3.Z3Exception, TypeError): return None
            cands.append((nm, sf))
        # base case
        keep = []
        self.quiet += 1
        try:
            for nm, f in cands:
                g = f(st, entry_phi, fr0)
                if g is None: continue
                if self.prove(st.pc, g, quick=True)[0]: keep.append((nm, f))
        finally:
            self.quiet -= 1
        # axiom instances requested by the hints, for head and back states
        def facts(s, phiv, f_):
            out = []
            if self.hints:
                for fct in self.hints.facts(self, s, self.loop_terms(s, phiv, f_, mod_phi, mod_cells), h):
                    out.append(fct)
            return out
        head_phi = {i.dst: hfr.loc[i.dst] for i in phis}
        hf = facts(hst, head_phi, hfr)
        prep = []
        for bst, bfr, bprev in backs:
            bf = bfr.copy()
            self.phis(bst, bf, h, bprev)
            bphi = {i.dst: bf.loc[i.dst] for i in phis}
            prep.append((bst, bphi, bf, facts(bst, bphi, bf)))
        slow_budget = 60.0
        for _ in range(40):
            inv = [f(hst, head_phi, hfr) for nm, f in keep]
            inv = [zb(x) for x in inv if x is not None]
            bad = set()
            sv_ = Solver(self.stats, self.asolver.abst if self.abs_loops else None)
            tr = (lambda g: sv_.abst.of(g)[0]) if self.abs_loops else (lambda g: g)
            for x in inv + hf: sv_.add(x)
            for bst, bphi, bf, bfacts in prep:
                if self.deadline and time.time() > self.deadline: raise Unsupported('time limit for this function reached')
                goals = []
                for nm, f in keep:
                    if nm in bad: continue
                    g = f(bst, bphi, bf)
                    if g is None: bad.add(nm); continue
                    goals.append((nm, zb(g)))
                if not goals: continue
                t0 = time.time()
                if not self.abs_loops:
                    sv_.fresh()
                    sv_.s.add(*bst.pc); sv_.s.add(*inv); sv_.s.add(*hf)
                    sv_.stack = list(bst.pc)
                else: sv_.sync(bst.pc)
                s = sv_.s
                s.set('timeout', 4000)
                s.push()
                for x in bfacts: sv_.add(x)
                ag = []
                for nm, g in goals:
                    if self.abs_loops: s.add(*sv_.abst.of(g)[1])
                    ag.append((nm, tr(g)))
                goals = ag
                while goals:
                    s.push()
                    s.add(z3.Not(z3.And(*[g for _, g in goals])) if len(goals) > 1 else z3.Not(goals[0][1]))
                    r = s.check()
                    if r == z3.unsat:
                        s.pop(); break
                    if r == z3.sat:
                        m = s.model()
                        s.pop()
                        dropped = [nm for nm, g in goals if not z3.is_true(m.eval(g, model_completion=True))]
                        if not dropped: dropped = [goals[0][0]]
                        if os.environ.get('LOOPDBG'): print('dropped', dropped)
                        bad |= set(dropped)
                        goals = [(nm, g) for nm, g in goals if nm not in bad]
                    else:
                        s.pop()
                        if not self.abs_loops: s.set('timeout', 1000)
                        for nm, g in goals:
                            s.push(); s.add(z3.Not(g))
                            rr = s.check()
                            if os.environ.get('LOOPDBG'): print('single', nm, rr, s.reason_unknown() if rr==z3.unknown else '')
                            s.pop()
                            if rr == z3.unknown and not self.abs_loops and slow_budget > 0:
                                # undecided by z3: the string solver of cvc5 gets a try
                                t1 = time.time()
                                pcs = list(bst.pc) + inv + hf + bfacts + [z3.Not(g)]
                                if run_cvc5(pcs, 15) == 'unsat': rr = z3.unsat
                                slow_budget -= time.time() - t1
                                if os.environ.get('LOOPDBG'): print('cvc5', nm, rr, time.time() - t1)
                            if rr != z3.unsat: bad.add(nm)
                        break
                s.pop()
                self.stats['solver_s'] += time.time() - t0
                self.stats['queries'] += 1
            if not bad: break
            keep = [(nm, f) for nm, f in keep if nm not in bad]
        else:
            raise Unsupported('invariant inference does not converge')
        if not self.quiet:
            self.stats['loops'].append((loopname, [nm for nm, _ in keep]))
            nm = '%s: loop invariant of %s is inductive' % (self.curfn, loopname)
            o = self.obls.setdefault(nm, Obl(nm, self.safety | set(self.opts.get('loop_props', ()))))
            o.n += 1 + len(prep)
            o.backend['z3'] = o.backend.get('z3', 0) + 1 + len(prep)
        for x in hf: hst.assume(x)
        for x in inv: hst.assume(x)
        if not self.feasible(hst):
            return iter(())
        hfr.loops = fr.loops + (LoopCtx(h, body, 'final'),)
        return self.guarded(self.body(hst, hfr, h))

    def widen(self, old, new):
        return False

    def loop_terms(self, st, phiv, fr, mod_phi, mod_cells):
        return dict(phi=phiv, mod_phi=mod_phi, cells={k: (st.ghost.get(k[1]) if k[0] == 'ghost' else (st.mem.get(k[0], {}).get(k[1]) or (0, None))[1]) for k in mod_cells})

    def make_head(self, st, fr0, phis, mod_phi, mod_cells):
        hst, hfr = st.copy(), fr0.copy()
        for i in phis:
            if i.dst in mod_phi:
                t = i.a[0]
                v = self.shape_merge(hst, fr0.loc[i.dst], mod_phi[i.dst], i.dst, t[1] if t[0] == 'i' and t[1] > 1 else None)
                hfr.loc[i.dst] = v
        for (rid, o), (kind, c) in mod_cells.items():
            if rid == 'ghost':
                v0 = st.ghost.get(o)
                hst.ghost[o] = self.shape_merge(hst, v0, c, 'g.' + str(o))
                continue
            d = dict(hst.mem.get(rid, {}))
            old = d.get(o)
            if old is None:
                if c is not None and o != '@zero':
                    d[o] = (c[0], LOST)
                    hst.mem[rid] = d
                continue
            if kind == 'new': continue
            if c is None:
                v = None
            else:
                v = self.shape_merge(hst, old[1], c[1], 'c%d.%s' % (rid, o), old[0] * 8 if old[0] <= 8 else None)
            d[o] = (old[0], LOST if v is None or v is UNDEF else v)
            hst.mem[rid] = d
        return hst, hfr

    # candidate predicates ------------------------------------------------------
    def quantities(self, st, phiv, fr, phis, mod_phi, mod_cells):
        """loop-modified integer-like quantities: list of (key, getter)"""
        raise NotImplementedError

    def candidates(self, st, fr0, hst, hfr, phis, mod_phi, mod_cells, backs, h):
        """list of (name, f(state, phivalues, frame) -> formula)"""
        get = {}
        objs = {}
        bools = {}
        def add(key, v, getter):
            if isinstance(v, Ptr) and v.sym:
                (stride, _), = list(v.sym.items())[:1]
                r0 = v.r
                f0 = v.off
                def g(s, p, f, getter=getter, stride=stride, r0=r0):
                    w = getter(s, p, f)
                    if not isinstance(w, Ptr) or not same_region(w.r, r0): raise Unsupported('x')
                    return zi(w.index(stride)[0])
                get[key] = g
                def fo(s, p, f, getter=getter, stride=stride, r0=r0, f0=f0):
                    w = getter(s, p, f)
                    return same_region(w.r, r0) and w.index(stride)[1] == f0
                shapes.append((key + ' shape', fo))
            elif is_sym(v) and v.sort() == Int:
                get[key] = lambda s, p, f, getter=getter: zi(getter(s, p, f))
                vals = consts(key)
                if vals is not None and vals <= {0, 1}:
                    bools[key] = lambda s, p, f, getter=getter: zi(getter(s, p, f)) != 0
                    shapes.append((key + ' in 0..1', lambda s, p, f, getter=getter: z3.And(zi(getter(s, p, f)) >= 0, zi(getter(s, p, f)) <= 1)))
            elif is_sym(v) and v.sort() == Bool:
                bools[key] = lambda s, p, f, getter=getter: zb(getter(s, p, f))
            elif isinstance(v, Ghost):
                for k, x in v.f.items():
                    if not isinstance(x, (str, Region)):
                        add(key + '.' + k, x, lambda s, p, f, getter=getter, k=k: getter(s, p, f).f[k])
            elif isinstance(v, Opaque) or isinstance(v, Obj) or (is_sym(v)):
                objs[key] = getter
                if isinstance(v, Opaque):
                    shapes.append((key + ' non-null', lambda s, p, f, getter=getter: zi(getter(s, p, f).t) != 0))
                if isinstance(v, VecV):
                    get['len(' + key + ')'] = lambda s, p, f, getter=getter: zi(getter(s, p, f).ln)
        def consts(key):
            return None
        shapes = []
        isbool = {}
        for i in phis:
            if i.dst in mod_phi:
                v = hfr.loc[i.dst]
                # i8 phi which only takes the values 0/1
                add('phi.' + i.dst, v, lambda s, p, f, d=i.dst: p[d])
                if is_sym(v) and v.sort() == Int and i.a[0] == ('i', 8):
                    g = lambda s, p, f, d=i.dst: zi(p[d])
                    shapes.append(('phi.%s is 0/1' % i.dst, lambda s, p, f, g=g: z3.And(g(s, p, f) >= 0, g(s, p, f) <= 1)))
                    bools['phi.' + i.dst] = lambda s, p, f, g=g: g(s, p, f) != 0
                    get.pop('phi.' + i.dst, None)
        for (rid, o), (kind, c) in mod_cells.items():
            if kind == 'new': continue
            if rid == 'ghost':
                v = hst.ghost.get(o)
                if v is None: continue
                add('ghost.%s' % o, v, lambda s, p, f, o=o: s.ghost[o])
                continue
            cc = hst.mem.get(rid, {}).get(o)
            if cc is None: continue
            v = cc[1]
            key = 'cell.%d.%s' % (rid, o)
            add(key, v, lambda s, p, f, rid=rid, o=o: s.mem[rid][o][1])
            if is_sym(v) and v.sort() == Int and cc[0] == 1:
                g = lambda s, p, f, rid=rid, o=o: zi(s.mem[rid][o][1])
                shapes.append((key + ' is 0/1', lambda s, p, f, g=g: z3.And(g(s, p, f) >= 0, g(s, p, f) <= 1)))
                bools[key] = lambda s, p, f, g=g: g(s, p, f) != 0
                get.pop(key, None)
        # a quantity that only ever takes a few constant values is a flag
        bv = []
        for bst, bfr, bprev in backs:
            bf = bfr.copy()
            self.phis(bst, bf, h, bprev)
            bv.append((bst, {i.dst: bf.loc[i.dst] for i in phis}, bf))
        head = {i.dst: hfr.loc[i.dst] for i in phis}
        ent = {i.dst: fr0.loc.get(i.dst) for i in phis}
        for k, g in list(get.items()):
            try:
                me = g(hst, head, hfr)
                e0 = g(st, ent, fr0)
                cs = constants_of(e0, me)
                c0 = set(cs or ())
                for x in bv:
                    if cs is None: break
                    more = constants_of(g(*x), me)
                    cs = None if more is None else cs | more
            except (KeyError, AttributeError, Unsupported, z3.Z3Exception, TypeError): continue
            if cs is None or len(c0) != 1 or not 2 <= len(cs) <= 4: continue
            shapes.append((k + ' in %s' % sorted(cs), lambda s, p, f, g=g, cs=sorted(cs): z3.Or(*[g(s, p, f) == c for c in cs])))
            for c in sorted(cs - c0) if len(cs) > 2 else list(cs - c0):
                bools['%s==%d' % (k, c)] = lambda s, p, f, g=g, c=c: g(s, p, f) == c
        out = list(shapes)
        # limits: lengths of sequences known to the state
        limits = self.limits(st, fr0)
        for k, g in get.items():
            out.append((k + '>=0', lambda s, p, f, g=g: g(s, p, f) >= 0))
            init = None
            for ln, lv in limits:
                out.append(('%s<=%s' % (k, ln), lambda s, p, f, g=g, lv=lv: g(s, p, f) <= lv))
                out.append(('%s<%s' % (k, ln), lambda s, p, f, g=g, lv=lv: g(s, p, f) < lv))
        ks = list(get)
        for a in range(len(ks)):
            for b in range(a + 1, len(ks)):
                ga, gb = get[ks[a]], get[ks[b]]
                out.append(('%s==%s' % (ks[a], ks[b]), lambda s, p, f, ga=ga, gb=gb: ga(s, p, f) == gb(s, p, f)))
                out.append(('%s==%s+1' % (ks[a], ks[b]), lambda s, p, f, ga=ga, gb=gb: ga(s, p, f) == gb(s, p, f) + 1))
                out.append(('%s+1==%s' % (ks[a], ks[b]), lambda s, p, f, ga=ga, gb=gb: ga(s, p, f) + 1 == gb(s, p, f)))
                out.append(('%s<=%s' % (ks[a], ks[b]), lambda s, p, f, ga=ga, gb=gb: ga(s, p, f) <= gb(s, p, f)))
                out.append(('%s>=%s' % (ks[a], ks[b]), lambda s, p, f, ga=ga, gb=gb: ga(s, p, f) >= gb(s, p, f)))
                for ln, lv in limits:
                    out.append(('%s+%s==%s' % (ks[a], ks[b], ln), lambda s, p, f, ga=ga, gb=gb, lv=lv: ga(s, p, f) + gb(s, p, f) == lv))
        # offset between a quantity and its entry value
        if self.hints:
            idx = dict(get)
            for nm, f in self.hints.candidates(self, idx, bools, objs, limits, h):
                out.append((nm, f))
        return out

    def limits(self, st, fr):
        out = []
        if self.hints: out += list(self.hints.limits)
        return out


def constants_of(v, me):
    """the constants that v (a choice between constants and me) can be; None if it can be something else"""
    v = simp(v)
    if not is_sym(v): return {int(v)}
    if z3.is_int_value(v): return {v.as_long()}
    if v.eq(zi(me)): return set()
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        a, b = constants_of(v.arg(1), me), constants_of(v.arg(2), me)
        return None if a is None or b is None else a | b
    return None

class _StopPeek(Exception):
    pass
class _StopInstr:
    op = 'stop'
    dst = None
    @property
    def a(self): raise _StopPeek()
class _S:
    pass
_STOP = _StopInstr()


def fp_to_u(v, n):
    return z3.BV2Int(z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(n)))

def fp_in_unsigned(v, n):
    return z3.And(z3.fpGT(v, z3.FPVal(-1.0, F64)), z3.fpLT(v, z3.FPVal(float(1 << n), F64)))
