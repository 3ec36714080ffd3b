"""Contracts of src/struct_utils.cc (C11, C12)."""
import z3
from irv.vals import *
from irv.spec import *
from irv.hints import Rec
from irv import lib_pb as pb, lib
from irv.lib_pb import *

TU = 'src/struct_utils.cc'
Val2 = None

def setup(ex, st):
    root = z3.Int('root')
    st.assume(root > 0)
    this = place(st, Region('this', size=8), {0: (8, Opaque(root))})
    t = z3.String('name')
    st.assume(z3.Length(t) < (1 << 31) - 1)
    nm = place(st, Region('name', size=32), {0: (32, StrV(t))})
    return root, this, t, nm

def unchanged(s, ob, this, root, nm, t):
    ob(same(s.getcell(this.r, 0)[1], Opaque(root)) and s.getcell(nm.r, 0)[1].t.eq(t), 'neither the object nor the name is modified')

def getvalue(ex, st):
    root, this, t, nm = setup(ex, st)
    out = Ptr(Region('found', size=8))
    ch = zi(ord('.'))
    N = NPARTS['AllowEmpty'](t, ch)
    part = lambda i: PART['AllowEmpty'](t, ch, i)
    def hcur(s, v):
        if isinstance(v, Opaque): return zi(v.t)
        return None
    def stepr(i, cur, rec):
        v = GET(cur, part(i))
        return z3.If(i >= N, zi(MISSING), z3.If(z3.Not(has(cur, part(i))), zi(MISSING), z3.If(i == N - 1, zi(OK),
                     z3.If(KIND(v) != KSTRUCT, zi(WRONG_TYPE), rec(i + 1, STRUCTV(v))))))
    def stepv(i, cur, rec):
        v = GET(cur, part(i))
        return z3.If(z3.And(i < N - 1, KIND(v) == KSTRUCT), rec(i + 1, STRUCTV(v)), v)
    R = Rec('walk_result', Int, stepr, root, hcur)
    V = Rec('walk_value', Int, stepv, root, hcur)
    ex.hints = Hints([R, V], [('N', N)])
    def post(ex, s, ret, ob):
        ob(zi(ret) == R.whole, 'OK iff every dotted component leads to the next; otherwise the status of the first component that does not (MISSING: absent, WRONG_TYPE: not an object)')
        c = s.getcell(out.r, 0)
        if c is not None:
            h = valh(ex, s, c[1])
            ob(z3.Implies(zi(ret) == OK, h == V.whole), 'on OK the found value is the value at the end of the dotted path')
        else:
            ob(zi(ret) != OK, 'on OK the found value is set')
        unchanged(s, ob, this, root, nm, t)
        for k, n in ((0, 'OK'), (1, 'MISSING'), (2, 'WRONG_TYPE')): ob.cover(n, zi(ret) == k)
    return [this, nm, out], post

# callee contract of GetValue, in terms of pb.find (FINDRES/FINDVAL name walk_result/walk_value)
def c_getvalue(ex, st, a, ins):
    h = su_struct(ex, st, a[0])
    r, v = find(h, lib.S(ex, st, a[1]))
    st.assume(z3.And(r >= 0, r <= 2, v > 0))
    def okc(s):
        ex.store(s, a[2], ('ptr',), Opaque(v))
        return OK
    return fork(ex, st, [(r == OK, okc), (r == MISSING, lambda s: MISSING), (r == WRONG_TYPE, lambda s: WRONG_TYPE)])

def c_getdouble(ex, st, a, ins):
    h = su_struct(ex, st, a[0])
    r, v = typed(h, lib.S(ex, st, a[1]), KNUM)
    st.assume(z3.And(r >= 0, r <= 2))
    def okc(s):
        ex.store(s, a[2], ('double',), NUMV(v))
        return OK
    return fork(ex, st, [(r == OK, okc), (r == MISSING, lambda s: MISSING), (r == WRONG_TYPE, lambda s: WRONG_TYPE)])

CALLEES = {
    'StructUtils::GetValue(std::string const&, pb::Value const*&)': c_getvalue,
    'StructUtils::GetDouble(std::string const&, double*)': c_getdouble,
    'StructUtils::GetString(std::string const&, std::string*)': su_getstring,
    'StructUtils::GetUInt64(std::string const&, unsigned long*)': su_getuint,
}

def scalar(k, cells, reader, what):
    def body(ex, st):
        root, this, t, nm = setup(ex, st)
        out = place(st, Region('out', size=max(o + sz for o, (sz, _) in cells.items())), cells)
        old = cells[0][1]
        def post(ex, s, ret, ob):
            r, v = typed(root, t, k)
            ob(zi(ret) == r, 'result OK exactly for a present value of the requested kind, MISSING/WRONG_TYPE otherwise')
            c = s.getcell(out.r, 0)[1]
            got = c.t if isinstance(c, StrV) else c
            o = old.t if isinstance(old, StrV) else old
            if got.sort() == Int and reader(v).sort() == Bool: got, = (got != 0,)
            oo = o if o.sort() == got.sort() else (o != 0)
            ob(z3.Implies(zi(ret) == OK, got == reader(v)), 'on OK the output is ' + what)
            ob(z3.Implies(zi(ret) != OK, got == oo), 'the output is left alone otherwise')
            unchanged(s, ob, this, root, nm, t)
            for kk, n in ((0, 'OK'), (1, 'MISSING'), (2, 'WRONG_TYPE')): ob.cover(n, zi(ret) == kk)
        return [this, nm, out], post
    return body

def getuint(ex, st):
    root, this, t, nm = setup(ex, st)
    old = z3.Int('old')
    out = place(st, Region('out', size=8), {0: (8, old)})
    def post(ex, s, ret, ob):
        r, v = typed(root, t, KNUM)
        d = NUMV(v)
        inr = z3.And(z3.fpGEQ(d, z3.FPVal(0.0, F64)), z3.fpLT(d, z3.FPVal(float(1 << 64), F64)))
        ob(z3.Implies(r != OK, zi(ret) == r), 'MISSING and WRONG_TYPE as for a number')
        ob(z3.Implies(r == OK, zi(ret) == z3.If(inr, zi(OK), zi(OUT_OF_RANGE))), 'OK exactly for numbers in [0, 2^64), OUT_OF_RANGE for every other number including NaN')
        c = zi(s.getcell(out.r, 0)[1])
        ob(z3.Implies(zi(ret) == OK, c == z3.BV2Int(z3.fpToUBV(z3.RTZ(), d, z3.BitVecSort(64)))), 'on OK the output is the number with its decimals dropped')
        ob(z3.Implies(zi(ret) != OK, c == old), 'the output is left alone otherwise')
        unchanged(s, ob, this, root, nm, t)
        for kk, n in ((0, 'OK'), (1, 'MISSING'), (2, 'WRONG_TYPE'), (3, 'OUT_OF_RANGE')): ob.cover(n, zi(ret) == kk)
    return [this, nm, out], post

def getlist(ex, st):
    root, this, t, nm = setup(ex, st)
    seq, n0, vec = sym_str_vec(st, 'list')
    out = place(st, Region('list', size=24), {0: (24, vec)})
    r, v = find(root, t)
    L = list_of(v)
    N = llen(L)
    elem = lambda i: LELEM(L, i)
    def acc(s, o):
        return lib.vec_seq(ex, s, o) if isinstance(o, VecV) else None
    G = Rec('append_strings', SeqS, lambda i, a, rec: z3.If(z3.Or(i >= N, KIND(elem(i)) != KSTR), a, rec(i + 1, SEQ_APP_STR(a, STRV(elem(i))))), seq, acc)
    E = Exists('non_string', N, lambda j: KIND(elem(j)) != KSTR)
    st.assume(z3.And(N >= 0, N < (1 << 31)))
    ex.hints = Hints([E, G], [('N', N)])
    def post(ex, s, ret, ob):
        islist = KIND(v) == KLIST
        ob(z3.Implies(r != OK, zi(ret) == r), 'MISSING or WRONG_TYPE when the path does not lead to a value')
        ob(z3.Implies(r == OK, zi(ret) == z3.If(z3.Or(KIND(v) == KSTR, z3.And(islist, z3.Not(E.any))), zi(OK), zi(WRONG_TYPE))), 'OK exactly for a string or a list of strings only')
        now = lib.vec_seq(ex, s, s.getcell(out.r, 0)[1])
        ob(z3.Implies(zi(ret) == OK, now == z3.If(KIND(v) == KSTR, SEQ_APP_STR(seq, STRV(v)), G.whole)), 'on OK exactly the strings are appended, in order')
        ob(z3.Implies(z3.And(zi(ret) != OK, z3.Not(z3.And(r == OK, islist))), now == seq), 'the output is left alone otherwise (except by a list that fails)')
        unchanged(s, ob, this, root, nm, t)
        for kk, nmx in ((0, 'OK'), (1, 'MISSING'), (2, 'WRONG_TYPE')): ob.cover(nmx, zi(ret) == kk)
        ob.cover('list of several strings', z3.And(zi(ret) == OK, N > 1, KIND(v) == KLIST))
    return [this, nm, out], post

P = 'StructUtils::'
C3 = ('OK', 'MISSING', 'WRONG_TYPE')
TASKS = [
    Task(P + 'GetValue(std::string const&, pb::Value const*&)', ['C11'], getvalue, cover=C3),
    Task(P + 'GetString(std::string const&, std::string*)', ['C11'], scalar(KSTR, {0: (32, StrV(z3.String('old')))}, STRV, 'the string'), CALLEES, cover=C3),
    Task(P + 'GetDouble(std::string const&, double*)', ['C11', 'C12'], scalar(KNUM, {0: (8, z3.Const('old', F64))}, NUMV, 'the number'), CALLEES, cover=C3),
    Task(P + 'GetBoolean(std::string const&, bool*)', ['C11'], scalar(KBOOL, {0: (1, z3.Int('old'))}, BOOLV, 'the boolean'), CALLEES, cover=C3),
    Task(P + 'GetUInt64(std::string const&, unsigned long*)', ['C12'], getuint, CALLEES, cover=C3 + ('OUT_OF_RANGE',)),
    Task(P + 'GetStringList(std::string const&, std::vector<std::string>*)', ['C11'], getlist, CALLEES, cover=C3 + ('list of several strings',)),
]
