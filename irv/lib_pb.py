"""Assumed contracts: protobuf Struct/Value, JSON parsing, absl::StrSplit, flat_hash_set of string_views; and the contracts
of StructUtils used by its callers (they are verified against the code in specs/struct_utils.py)."""
import z3
from .vals import *
from . import lib
from .lib import c, rx, S, setS, svobj, setsv

I2 = lambda n, *s: z3.Function(n, *s)
KIND = I2('kind', Int, Int)                 # 0 not set, 1 null, 2 number, 3 string, 4 bool, 5 struct, 6 list
STRV = I2('string_value', Int, Str)
NUMV = I2('number_value', Int, F64)
BOOLV = I2('bool_value', Int, Bool)
STRUCTV = I2('struct_value', Int, Int)
LISTV = I2('list_value', Int, Int)
LLEN = I2('list_len', Int, Int)
LELEM = I2('list_elem', Int, Int, Int)
HAS = I2('has_field', Int, Str, Bool)
GET = I2('get_field', Int, Str, Int)
MLEN = I2('map_size', Int, Int)
MKEY = I2('map_key', Int, Int, Str)
MVAL = I2('map_value', Int, Int, Int)
JOK = I2('json_struct_ok', Str, Bool)
JSTRUCT = I2('json_struct', Str, Int)
EMPTY = z3.IntVal(1)                        # handle of the empty Struct / default instances
KNULL, KNUM, KSTR, KBOOL, KSTRUCT, KLIST = 1, 2, 3, 4, 5, 6

def kind(st, v):
    k = simp(KIND(v))
    if is_sym(k): st.assume(z3.And(k >= 0, k <= 6))
    return k
def str_of(v): return z3.If(KIND(v) == 3, STRV(v), z3.StringVal(''))
def num_of(v): return z3.If(KIND(v) == 2, NUMV(v), z3.FPVal(0.0, F64))
def bool_of(v): return z3.And(KIND(v) == 4, BOOLV(v))
def struct_of(v): return z3.If(KIND(v) == 5, STRUCTV(v), EMPTY)
def list_of(v): return z3.If(KIND(v) == 6, LISTV(v), EMPTY)
def has(s, k): return z3.And(s != EMPTY, HAS(s, k))
def llen(l): return z3.If(l == EMPTY, zi(0), LLEN(l))
def mlen(s): return z3.If(s == EMPTY, zi(0), MLEN(s))

class PbInst(Inst):
    def __init__(self, fam, term):
        Inst.__init__(self, fam, term)
        self.elem = 8

def valh(ex, st, p):
    """handle of a Value"""
    if isinstance(p, Opaque):
        ex.ub(st, zi(p.t) != 0, 'null dereference')
        return zi(p.t)
    if isinstance(p, Ptr) and isinstance(p.r, Inst):
        if p.r.fam == 'pbpair' and p.off == 32: return GET(*p.r.term)
        if p.r.fam == 'pbpairi' and p.off == 32: return MVAL(*p.r.term)
    if isinstance(p, Ptr):
        v = ex.getobj(st, p, 'value')
        if isinstance(v, Ghost) and v.kind == 'value': return v.f['h']
    raise Unsupported('Value at %r' % (p,))

def structh(ex, st, p):
    if isinstance(p, Opaque):
        ex.ub(st, zi(p.t) != 0, 'null dereference')
        return zi(p.t)
    v = ex.getobj(st, p, 'struct')
    if isinstance(v, Ghost) and v.kind == 'struct': return v.f['h']
    raise Unsupported('Struct at %r' % (p,))

def mk_struct(h): 
    g = Ghost('struct', h=h)
    g.size = 144
    return g
Ghost.size = 8

@c('pb::Value::kind_case() const')
def _(ex, st, a, ins): return kind(st, valh(ex, st, a[0]))
@c('pb::Value::string_value[abi:cxx11]() const', 'pb::Value::string_value() const')
def _(ex, st, a, ins): return Ptr(Inst('pbstr', simp(valh(ex, st, a[0]))))
@c('pb::Value::number_value() const')
def _(ex, st, a, ins): return simp(num_of(valh(ex, st, a[0])))
@c('pb::Value::bool_value() const')
def _(ex, st, a, ins): return simp(bool_of(valh(ex, st, a[0])))
@rx(r'pb::Value::has_(null|number|string|bool|struct|list)_value\(\) const')
def _(ex, st, a, ins, m):
    v = valh(ex, st, a[0])
    return simp(kind(st, v) == {'null': 1, 'number': 2, 'string': 3, 'bool': 4, 'struct': 5, 'list': 6}[m.group(1)])
def handle(st, t):
    t = simp(t)
    if is_sym(t): st.assume(t != 0)
    return Opaque(t)
@c('pb::Value::struct_value() const')
def _(ex, st, a, ins): return handle(st, struct_of(valh(ex, st, a[0])))
@c('pb::Value::list_value() const')
def _(ex, st, a, ins): return handle(st, list_of(valh(ex, st, a[0])))
@c('pb::Struct::fields[abi:cxx11]() const', 'pb::Struct::fields() const')
def _(ex, st, a, ins): return handle(st, structh(ex, st, a[0]))
@c('pb::ListValue::values() const')
def _(ex, st, a, ins):
    ex.ub(st, zi(a[0].t) != 0, 'null dereference')
    return a[0]

def listlen(st, l):
    n = simp(llen(l))
    if is_sym(n): st.assume(z3.And(n >= 0, n < (1 << 31)))
    return n
@rx(r'pb::RepeatedPtrField<pb::Value>::(begin|cbegin)\(\) const')
def _(ex, st, a, ins, m): return Ptr(PbInst('pbrep', zi(a[0].t)))
@rx(r'pb::RepeatedPtrField<pb::Value>::(end|cend)\(\) const')
def _(ex, st, a, ins, m): return Ptr(PbInst('pbrep', zi(a[0].t))).addsym(8, zi(listlen(st, zi(a[0].t))))
@rx(r'pb::RepeatedPtrField<pb::Value>::size\(\) const|pb::ListValue::values_size\(\) const')
def _(ex, st, a, ins, m): return listlen(st, zi(a[0].t))
@rx(r'pb::RepeatedPtrField<pb::Value>::empty\(\) const')
def _(ex, st, a, ins, m): return simp(zi(listlen(st, zi(a[0].t))) == 0)
@rx(r'pb::RepeatedPtrField<pb::Value>::(Get|operator\[\]|at)\(int\) const|pb::ListValue::values\(int\) const')
def _(ex, st, a, ins, m):
    l = zi(a[0].t)
    i = ex.signed(a[1], 32)
    ex.ub(st, z3.And(zi(i) >= 0, zi(i) < zi(listlen(st, l))), 'list index out of range')
    return handle(st, LELEM(l, zi(i)))
@c('pb::internal::RepeatedPtrIterator<pb::Value const>::operator*() const', 'pb::internal::RepeatedPtrIterator<pb::Value const>::operator->() const')
def _(ex, st, a, ins):
    p = ex.load(st, a[0], ('ptr',))
    if not isinstance(p, Ptr) or not isinstance(p.r, Inst) or p.r.fam != 'pbrep': raise Unsupported('list iterator')
    i, f = p.index(8)
    ex.ub(st, z3.And(zi(i) >= 0, zi(i) < zi(listlen(st, p.r.term))), 'list iterator out of range')
    return handle(st, LELEM(p.r.term, zi(i)))

# maps ---------------------------------------------------------------------
MAP = r'pb::Map<std::string, pb::Value>::'
def mapiter(h, mode, **kw):
    g = Ghost('mapiter', s=h, mode=mode, **kw)
    g.size = 24
    return g

def mapsize(st, s):
    n = simp(mlen(s))
    if is_sym(n): st.assume(z3.And(n >= 0, n < (1 << 31)))
    return n

@rx(MAP + r'end\(\) const|' + MAP + r'cend\(\) const')
def _(ex, st, a, ins, m):
    h = zi(a[1].t)
    ex.setobj(st, a[0], mapiter(h, 'i', i=zi(mapsize(st, h))))
@rx(MAP + r'c?begin\(\) const')
def _(ex, st, a, ins, m):
    h = zi(a[1].t)
    ex.setobj(st, a[0], mapiter(h, 'i', i=zi(0)))
@rx(MAP + r'size\(\) const|pb::Struct::fields_size\(\) const')
def _(ex, st, a, ins, m): return mapsize(st, zi(a[0].t) if isinstance(a[0], Opaque) else structh(ex, st, a[0]))
@rx(MAP + r'empty\(\) const')
def _(ex, st, a, ins, m): return simp(zi(mapsize(st, zi(a[0].t))) == 0)

def mapkey(ex, st, p, arr):
    if arr: return ex.cstr(st, p)[0]
    return S(ex, st, p)
@rx(r'(?:pb::Map<std::string, pb::Value>::const_iterator )?' + MAP + r'find<(char ?\[\d+\]|std::string)>\(.*\) const')
def _(ex, st, a, ins, m):
    h = zi(a[1].t)
    k = mapkey(ex, st, a[2], m.group(1).startswith('char'))
    out = []
    f = simp(has(h, k))
    for val in (True, False):
        s = st.copy()
        s.assume(zb(f) if val else z3.Not(zb(f)))
        if not ex.feasible(s): continue
        n = zi(mapsize(s, h))
        if val:
            s.assume(n > 0)
            ex.setobj(s, a[0], mapiter(h, 'f', k=k))
        else: ex.setobj(s, a[0], mapiter(h, 'i', i=n))
        out.append((s, None))
    return out
@rx(r'(?:[\w:]+ )?' + MAP + r'(contains|count)<(char ?\[\d+\]|std::string)>\(.*\) const')
def _(ex, st, a, ins, m):
    f = zb(simp(has(zi(a[0].t), mapkey(ex, st, a[1], m.group(2).startswith('char')))))
    return simp(f if m.group(1) == 'contains' else b2i(f))
@rx(r'(?:[\w:]+ )?(?:pb::Value const& )?' + MAP + r'at<(char ?\[\d+\]|std::string)>\(.*\) const')
def _(ex, st, a, ins, m):
    h = zi(a[0].t)
    k = mapkey(ex, st, a[1], m.group(1).startswith('char'))
    ex.ub(st, has(h, k), 'Map::at of an absent key')
    return handle(st, GET(h, k))

def getiter(ex, st, p):
    v = ex.getobj(st, p, 'mapiter')
    if not isinstance(v, Ghost) or v.kind != 'mapiter': raise Unsupported('map iterator')
    return v
def iter_eq(ex, st, x, y):
    if x.f['mode'] == 'f' and y.f['mode'] == 'f':
        return simp(x.f['k'] == y.f['k'])
    if x.f['mode'] == 'i' and y.f['mode'] == 'i':
        return simp(x.f['i'] == y.f['i'])
    i, f = (x, y) if x.f['mode'] == 'i' else (y, x)
    # a found element against an indexed position: only the end position is ever used
    if ex.sure(st, i.f['i'] == mlen(i.f['s'])): return False
    raise Unsupported('comparison of map iterators')
@rx(r'pb::operator(==|!=)\(' + MAP + r'const_iterator const&, ' + MAP + r'const_iterator const&\)')
def _(ex, st, a, ins, m):
    x, y = getiter(ex, st, a[0]), getiter(ex, st, a[1])
    ex.ub(st, simp(x.f['s'] == y.f['s']), 'comparison of iterators of different maps')
    r = iter_eq(ex, st, x, y)
    return simp(z3.Not(zb(r))) if m.group(1) == '!=' else r
@rx(MAP + r'const_iterator::operator(\*|->)\(\) const')
def _(ex, st, a, ins, m):
    v = getiter(ex, st, a[0])
    if v.f['mode'] == 'f': return Ptr(Inst('pbpair', (v.f['s'], v.f['k'])))
    ex.ub(st, z3.And(v.f['i'] >= 0, v.f['i'] < zi(mapsize(st, v.f['s']))), 'dereference of an end iterator')
    return Ptr(Inst('pbpairi', (v.f['s'], v.f['i'])))
@rx(MAP + r'const_iterator::operator\+\+\(\)')
def _(ex, st, a, ins, m):
    v = getiter(ex, st, a[0])
    if v.f['mode'] == 'f': raise Unsupported('increment of a found iterator')
    ex.ub(st, v.f['i'] < zi(mapsize(st, v.f['s'])), 'increment of an end iterator')
    ex.setobj(st, a[0], mapiter(v.f['s'], 'i', i=simp(v.f['i'] + 1)))
    return a[0]

# Struct objects -----------------------------------------------------------
@c('pb::Struct::Struct()')
def _(ex, st, a, ins): ex.setobj(st, a[0], mk_struct(EMPTY))
@c('pb::Struct::~Struct()')
def _(ex, st, a, ins):
    structh(ex, st, a[0])
    st.setcell(a[0].r, a[0].off, 144, DEAD)
@c('pb::Struct::Clear()')
def _(ex, st, a, ins):
    structh(ex, st, a[0])
    ex.setobj(st, a[0], mk_struct(EMPTY))
@c('pb::Struct::operator=(pb::Struct const&)', 'pb::Struct::CopyFrom(pb::Struct const&)', 'pb::Struct::operator=(pb::Struct&&)')
def _(ex, st, a, ins):
    structh(ex, st, a[0])
    ex.setobj(st, a[0], mk_struct(structh(ex, st, a[1])))
    return a[0]
@c('pb::Struct::Struct(pb::Struct const&)')
def _(ex, st, a, ins): ex.setobj(st, a[0], mk_struct(structh(ex, st, a[1])))

@c('pb::util::JsonParseOptions::JsonParseOptions()')
def _(ex, st, a, ins): ex.memset(st, a[0], 0, 2)
@c('pb::util::JsonStringToMessage(pb::StringPiece, pb::Message*, pb::util::JsonParseOptions const&)')
def _(ex, st, a, ins):
    t = ex.sv(st, a, 1)
    structh(ex, st, a[3])
    for k in (0, 1):
        o = ex.load(st, a[4].add(k), ('i', 8))
        if simp(zi(o)) != 0: raise Unsupported('JSON options')
    out = []
    for val in (True, False):
        s = st.copy()
        f = JOK(t)
        s.assume(f if val else z3.Not(f))
        if not ex.feasible(s): continue
        if val:
            h = JSTRUCT(t)
            s.assume(z3.And(h > 1))
            ex.setobj(s, a[3], mk_struct(h))
        g = Ghost('status', ok=val)
        g.size = 40
        ex.setobj(s, a[0], g)
        out.append((s, None))
    return out
@c('pb::util::status_internal::Status::ok() const')
def _(ex, st, a, ins): return ex.getobj(st, a[0], 'status').f['ok']
@c('pb::util::status_internal::Status::~Status()')
def _(ex, st, a, ins): st.setcell(a[0].r, a[0].off, 40, DEAD)

# strings split at a character ----------------------------------------------
NPARTS = {'AllowEmpty': I2('split_n', Str, Int, Int), 'SkipEmpty': I2('splitne_n', Str, Int, Int)}
PART = {'AllowEmpty': I2('split_at', Str, Int, Int, Str), 'SkipEmpty': I2('splitne_at', Str, Int, Int, Str)}
SPLITSEQ = {m: I2('split%s_seq' % ('ne' if m == 'SkipEmpty' else ''), Str, Int, SeqS) for m in PART}

class SubData(StrData):
    """part of the characters of a string (or of constant bytes)"""
    def __init__(self, base, text):
        StrData.__init__(self, getattr(base, 'owner', None), getattr(base, 'ooff', 0), getattr(base, 'val', None))
        self.fixed = text
    def same_as(self, o): return isinstance(o, SubData) and self.fixed.eq(o.fixed)

@rx(r'absl::strings_internal::Splitter<.*, absl::(AllowEmpty|SkipEmpty), absl::string_view> absl::StrSplit<char(?:, absl::\w+)?>\(absl::strings_internal::ConvertibleToStringView, char(?:, absl::\w+)?\)')
def _(ex, st, a, ins, m):
    t = ex.sv(st, a, 1)
    ch = simp(a[3])
    g = Ghost('splitter', t=t, ch=ch, data=a[1], mode=m.group(1))
    g.size = 24
    ex.setobj(st, a[0], g)

PIECE = I2('piece', Str, Int, Int, Str)      # k-th maximal run of t without ch
def three(t, ch): return tuple(PIECE(t, zi(ch), zi(k)) for k in range(3))

def count_facts(t, ch, n):
    """definitions of COUNT(t, ch) == n and of the pieces in terms of the positions of the first three occurrences"""
    x = zs(simp(z3.StrFromCode(zi(ch))))
    i1 = z3.IndexOf(t, x, 0)
    i2 = z3.IndexOf(t, x, i1 + 1)
    i3 = z3.IndexOf(t, x, i2 + 1)
    p = three(t, ch)
    ln = z3.Length(t)
    return [n >= 0, n <= ln, (n >= 1) == (i1 >= 0), (n >= 2) == z3.And(i1 >= 0, i2 >= 0), (n >= 3) == z3.And(i1 >= 0, i2 >= 0, i3 >= 0),
            z3.Implies(n == 2, z3.And(p[0] == z3.SubString(t, 0, i1), p[1] == z3.SubString(t, i1 + 1, i2 - i1 - 1), p[2] == z3.SubString(t, i2 + 1, ln - i2 - 1)))]

@rx(r'absl::strings_internal::Splitter<absl::ByChar, absl::(AllowEmpty|SkipEmpty), absl::string_view>::operator std::vector<absl::string_view><std::vector<absl::string_view>, void>\(\) const')
def c_split(ex, st, a, ins, m):
    g = ex.getobj(st, a[1], 'splitter')
    t, ch, mode = g.f['t'], zi(g.f['ch']), g.f['mode']
    n = NPARTS[mode](t, ch)
    cnt = lib.COUNT(t, ch)
    st.assume(z3.And(n >= (1 if mode == 'AllowEmpty' else 0), n <= cnt + 1, cnt >= 0, cnt <= z3.Length(t), n < (1 << 58)))
    ex.lazy(*count_facts(t, ch, cnt))
    parts = three(t, ch)
    ln = z3.Length(t)
    for q in parts: st.assume(z3.Length(q) <= ln)
    if mode == 'AllowEmpty': st.assume(n == cnt + 1)
    else:
        one = lambda p: z3.If(z3.Length(p) > 0, 1, 0)
        st.assume(z3.Implies(cnt == 2, n == one(parts[0]) + one(parts[1]) + one(parts[2])))
    st.assume(z3.Implies(z3.And(cnt == 2, n == 3), z3.And(*[PART[mode](t, ch, k) == parts[k] for k in range(3)])))
    seq = ('split', mode, t, ch)
    base = g.f['data'].r if isinstance(g.f['data'], Ptr) else None
    v = VecV('sv', 16, seq=('split', mode, t, ch, base), ln=n)
    ex.setobj(st, a[0], v)

@rx(r'absl::strings_internal::Splitter<absl::ByChar, absl::(AllowEmpty|SkipEmpty), absl::string_view>::operator std::vector<std::string><std::vector<std::string>, void>\(\) const')
def _(ex, st, a, ins, m):
    c_split(ex, st, a, ins, m)
    v = ex.getobj(st, a[0], 'vec')
    _, mode, t, ch, base = v.seq
    F = SPLITSEQ[mode](t, zi(ch))
    ex.lazy(SEQ_LEN(F) == zi(v.ln), *[SEQ_AT_STR(F, k) == PART[mode](t, zi(ch), k) for k in range(3)])
    ex.setobj(st, a[0], VecV('string', 32, seq=F, ln=v.ln))

def elem_sv(ex, st, term, off, kind_, size):
    seq, i = term
    if not (isinstance(seq, tuple) and seq[0] == 'split'): return None
    _, mode, t, ch, base = seq
    p = PART[mode](t, ch, i)
    if off == 8:
        n = z3.Length(p)
        st.assume(z3.And(n >= (1 if mode == 'SkipEmpty' else 0), n < (1 << 62)))
        return n
    if off == 0: return Ptr(SubData(base, p))
    return None

def pbstr(ex, st, term, off, kind_, size):
    if off == 0 and kind_ == 'string':
        st.assume(z3.Length(simp(str_of(term))) < (1 << 31))
        return StrV(simp(str_of(term)), ver=('pbstr', str(term)))
    return None
def pbpair(ex, st, term, off, kind_, size):
    if off == 0 and kind_ == 'string':
        st.assume(z3.Length(term[1]) < (1 << 31))
        return StrV(term[1], ver=('pbkey', str(term)))
    return None
def pbpairi(ex, st, term, off, kind_, size):
    if off == 0 and kind_ == 'string':
        st.assume(z3.Length(MKEY(*term)) < (1 << 31))
        return StrV(MKEY(*term), ver=('pbkey', str(term)))
    return None
FIELDS = {'elem:sv': elem_sv, 'pbstr': pbstr, 'pbpair': pbpair, 'pbpairi': pbpairi}

# flat_hash_set<string_view> ---------------------------------------------------
FHS = r'absl::flat_hash_set<absl::string_view, .*>::'
RHS = r'absl::container_internal::raw_hash_set<absl::container_internal::FlatHashSetPolicy<absl::string_view>, absl::container_internal::StringHash, absl::container_internal::StringEq, std::allocator<absl::string_view>>::'
@rx(FHS + r'flat_hash_set\(std::initializer_list<absl::string_view>, .*\)')
def _(ex, st, a, ins, m):
    n = simp(a[2])
    if is_sym(n): raise Unsupported('initializer list')
    arr = lib.EMPTYSET
    for k in range(n):
        arr = z3.Store(arr, svobj(ex, st, a[1].add(16 * k)), z3.BoolVal(True))
    ex.setobj(st, a[0], SetV(arr, n == 0))
@rx(FHS + r'~flat_hash_set\(\)')
def _(ex, st, a, ins, m): return None
def hsend(ex, p):
    k = ('hsend', p.r.id, p.off)
    e = ex.globals.get(k)
    if e is None: e = ex.globals[k] = Region('hsend')
    return Agg([Ptr(e), NULL])
@rx(r'.*' + RHS + r'find<absl::string_view>\(.*\) const|.*' + RHS + r'find<absl::string_view>\(absl::string_view const&\)')
def _(ex, st, a, ins, m):
    v = lib.getset(ex, st, a[0])
    t = svobj(ex, st, a[1])
    f = zb(member(v.arr, t))
    out = []
    for val in (True, False):
        s = st.copy()
        s.assume(f if val else z3.Not(f))
        if not ex.feasible(s): continue
        out.append((s, Agg([Ptr(Region('hsnode')), NULL]) if val else hsend(ex, a[0])))
    return out
@rx(RHS + r'end\(\)( const)?')
def _(ex, st, a, ins, m): return hsend(ex, a[0])
@rx(r'.*' + RHS + r'(contains|count)<absl::string_view>\(.*\) const')
def _(ex, st, a, ins, m):
    v = lib.getset(ex, st, a[0])
    f = zb(member(v.arr, svobj(ex, st, a[1])))
    return f if m.group(1) == 'contains' else simp(b2i(f))
@rx(r'absl::container_internal::operator(==|!=)\(' + RHS + r'const_iterator const&, .*\)')
def _(ex, st, a, ins, m):
    x, y = ex.load(st, a[0], ('ptr',)), ex.load(st, a[1], ('ptr',))
    return ex.ptrcmp(st, 'eq' if m.group(1) == '==' else 'ne', x, y)

# StructUtils (verified in specs/struct_utils.py) -------------------------------------------
OK, MISSING, WRONG_TYPE, OUT_OF_RANGE = 0, 1, 2, 3
FINDRES = I2('find_result', Int, Str, Int)
FINDVAL = I2('find_value', Int, Str, Int)

def find(h, name):
    """(result, value handle) of StructUtils::GetValue"""
    name = zs(simp(name))
    if z3.is_string_value(name) and '.' not in name.as_string():
        return z3.If(has(h, name), zi(OK), zi(MISSING)), GET(h, name)
    return FINDRES(h, name), FINDVAL(h, name)

def typed(h, name, k):
    r, v = find(h, name)
    return z3.If(r != OK, r, z3.If(KIND(v) == k, zi(OK), zi(WRONG_TYPE))), v

def uint_result(h, name):
    """result and value of GetUInt64"""
    r, v = typed(h, name, KNUM)
    d = NUMV(v)
    inr = z3.And(z3.fpGEQ(d, z3.FPVal(0.0, F64)), z3.fpLT(d, z3.FPVal(float(1 << 64), F64)))
    return z3.If(r != OK, r, z3.If(inr, zi(OK), zi(OUT_OF_RANGE))), U64(d), v

U64 = z3.Function('trunc_u64', F64, Int)
SLIST_OK = I2('list_all_strings', Int, Bool)
SLIST = I2('list_strings', Int, SeqS, SeqS)      # list appended to a sequence

SLISTW = I2('list_strings_of_failed', Int, SeqS, SeqS)

def fork(ex, st, cases):
    out = []
    for f, g in cases:
        s = st.copy()
        s.assume(f)
        if not ex.feasible(s): continue
        out.append((s, g(s)))
    return out

def su_struct(ex, st, p):
    q = ex.load(st, p, ('ptr',))
    return structh(ex, st, q)

def su_ctor(ex, st, a, ins):
    structh(ex, st, a[1])
    ex.store(st, a[0], ('ptr',), a[1])

def su_getstring(ex, st, a, ins):
    h = su_struct(ex, st, a[0])
    r, v = typed(h, S(ex, st, a[1]), KSTR)
    old = ex.getstr(st, a[2]).t
    st.assume(z3.And(r >= 0, r <= 2))
    st.assume(z3.Implies(r == OK, z3.Length(STRV(v)) < (1 << 31)))
    r = simp(r)
    setS(ex, st, a[2], simp(z3.If(r == OK, STRV(v), old)) if is_sym(r) else STRV(v) if r == 0 else old)
    return r

def su_getuint(ex, st, a, ins):
    h = su_struct(ex, st, a[0])
    r, u, v = uint_result(h, S(ex, st, a[1]))
    def okc(s):
        s.assume(z3.And(u >= 0, u < (1 << 64)))
        ex.store(s, a[2], ('i', 64), u)
        return OK
    st.assume(z3.And(r >= 0, r <= 3))
    return fork(ex, st, [(r == OK, okc), (r == MISSING, lambda s: MISSING), (r == WRONG_TYPE, lambda s: WRONG_TYPE), (r == OUT_OF_RANGE, lambda s: OUT_OF_RANGE)])

def strlist_result(h, name):
    r, v = find(h, name)
    return z3.If(r != OK, r, z3.If(KIND(v) == 3, zi(OK), z3.If(z3.And(KIND(v) == 6, SLIST_OK(list_of(v))), zi(OK), zi(WRONG_TYPE)))), v

def su_getlist(ex, st, a, ins):
    """on success the strings are appended; on WRONG_TYPE the strings before the first element of another type are"""
    h = su_struct(ex, st, a[0])
    r, v = strlist_result(h, S(ex, st, a[1]))
    vec = lib.getvec(ex, st, a[2], 'string')
    old = lib.vec_seq(ex, st, vec)
    st.assume(z3.And(r >= 0, r <= 2))
    def put(s, seq):
        n = SEQ_LEN(seq)
        s.assume(n >= 0)
        ex.setobj(s, a[2], VecV('string', 32, seq=seq, ln=n))
    def single(s):
        put(s, SEQ_APP_STR(old, STRV(v)))
        return OK
    def lst(s):
        put(s, SLIST(list_of(v), old))
        return OK
    def wrong(s):
        put(s, z3.If(KIND(v) == 6, SLISTW(list_of(v), old), old))
        return WRONG_TYPE
    return fork(ex, st, [(z3.And(r == OK, KIND(v) == 3), single), (z3.And(r == OK, KIND(v) == 6), lst), (r == MISSING, lambda s: MISSING), (r == WRONG_TYPE, wrong)])

STRUCT_UTILS = {
    'StructUtils::StructUtils(pb::Struct const&)': su_ctor,
    'StructUtils::GetString(std::string const&, std::string*)': su_getstring,
    'StructUtils::GetUInt64(std::string const&, unsigned long*)': su_getuint,
    'StructUtils::GetStringList(std::string const&, std::vector<std::string>*)': su_getlist,
}
