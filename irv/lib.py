"""Assumed contracts of library functions (libstdc++, abseil), matched by normalised demangled name."""
import re
import z3
from .vals import *

TABLE = {}
REGEX = []
USED = set()

def c(*names):
    def d(f):
        for n in names: TABLE[n] = f
        return f
    return d

def rx(pat):
    def d(f):
        REGEX.append((re.compile(pat + r'\Z'), f))
        return f
    return d

_cache = {}
def lookup(dem, name=None):
    k = dem
    if k in _cache: return _cache[k]
    f = TABLE.get(dem)
    if f is None and name is not None: f = TABLE.get(name)
    if f is None:
        for p, g in REGEX:
            m = p.match(dem)
            if m:
                f = (lambda ex, st, a, ins, g=g, m=m: g(ex, st, a, ins, m))
                break
    _cache[k] = f
    return f

# ---------------------------------------------------------------- basics
@c('__assert_fail')
def _(ex, st, a, ins):
    ex.oblige(st, False, ex.curfn + ': assertions hold', ex.safety)
    return []

@rx(r'(abort|std::terminate\(\)|__cxa_pure_virtual|std::__throw_.*)')
def _(ex, st, a, ins, m):
    ex.oblige(st, False, ex.curfn + ': does not abort or throw', ex.safety)
    return []

@rx(r'operator new(\[\])?\(unsigned long\)')
def _(ex, st, a, ins, m):
    n = simp(a[0])
    r = Region('heap', size=None if is_sym(n) else n, heap=True)
    st.owned[r.id] = r
    return Ptr(r)

@rx(r'operator delete(\[\])?\(void\*(, unsigned long)?\)')
def _(ex, st, a, ins, m):
    release(ex, st, a[0], 'heap')

def release(ex, st, p, what):
    if isinstance(p, Opaque):
        if not is_sym(p.t) and p.t == 0: return
        ok, _, _ = ex.prove(st.pc, zi(p.t) == 0, quick=True)
        if ok: return
        if getattr(ex, 'may_release', None) and ex.may_release(ex, st, p): return
        ex.ub(st, False, 'release of an object owned by the caller')
    if not isinstance(p, Ptr): raise Unsupported('release of %r' % (p,))
    r = p.r
    if r.id in st.freed: ex.ub(st, False, 'object released twice')
    if st.ghost.get(('xfer', r.id)): ex.ub(st, False, 'release of an object whose ownership was transferred')
    if not r.heap: ex.ub(st, False, 'release of memory that was not allocated')
    st.freed = st.freed | {r.id}
    st.owned.pop(r.id, None)

@rx(r'llvm\.memcpy\..*|llvm\.memmove\..*|memcpy|memmove')
def _(ex, st, a, ins, m):
    ex.memcpy(st, a[0], a[1], a[2])
    return a[0]

@rx(r'llvm\.memset\..*|memset')
def _(ex, st, a, ins, m):
    ex.memset(st, a[0], a[1], a[2])
    return a[0]

@rx(r'llvm\.(umin|umax|smin|smax)\.i(\d+)')
def _(ex, st, a, ins, m):
    n = int(m.group(2))
    x, y = a[0], a[1]
    sx, sy = (ex.signed(x, n), ex.signed(y, n)) if m.group(1)[0] == 's' else (x, y)
    lt = zi(sx) < zi(sy)
    return simp(z3.If(lt, zi(x), zi(y)) if m.group(1).endswith('min') else z3.If(lt, zi(y), zi(x)))

@rx(r'llvm\.expect\..*')
def _(ex, st, a, ins, m): return a[0]

@rx(r'llvm\.is\.constant\..*')
def _(ex, st, a, ins, m): return False

@rx(r'llvm\.trap|llvm\.ubsantrap')
def _(ex, st, a, ins, m):
    ex.ub(st, False, 'trap')

@c('__cxa_guard_acquire')
def _(ex, st, a, ins):
    st.ghost['static_init'] = True
    return 1

@c('__cxa_guard_release', '__cxa_guard_abort')
def _(ex, st, a, ins):
    st.ghost.pop('static_init', None)

@c('__cxa_atexit')
def _(ex, st, a, ins): return 0

@c('strlen')
def _(ex, st, a, ins): return simp(zi(ex.cstr(st, a[0])[1]))

@rx(r'std::char_traits<char>::length\(char const\*\)|absl::string_view::StrlenInternal\(char const\*\)')
def _(ex, st, a, ins, m): return simp(zi(ex.cstr(st, a[0])[1]))

def cmp_result(ex, st, x, y, bits=32):
    """int result of a three-way comparison"""
    e = simp(zs(x) == zs(y))
    if e is True: return 0
    f = z3.Int('cmp!%d' % fresh_id())
    st.assume(z3.And(f > 0, f < (1 << bits)))
    st.assume((f < (1 << (bits - 1))) == z3.Not(x <= y))
    if e is False: return f
    return z3.If(e, zi(0), f)

@c('memcmp', 'CRYPTO_memcmp', 'bcmp', 'strncmp')
def _(ex, st, a, ins):
    x, y = ex.bytes_of(st, a[0], a[2]), ex.bytes_of(st, a[1], a[2])
    return cmp_result(ex, st, x, y)

@c('OPENSSL_memcmp')
def _(ex, st, a, ins):
    return cmp_result(ex, st, ex.bytes_of(st, a[0], a[2]), ex.bytes_of(st, a[1], a[2]))

@rx(r'std::numeric_limits<unsigned long>::max\(\)')
def _(ex, st, a, ins, m): return (1 << 64) - 1

@rx(r'std::(__new_allocator|allocator)<.*>::~?(__new_allocator|allocator)\(.*\)')
def _(ex, st, a, ins, m): return None

@rx(r'std::_Vector_base<.*|std::basic_ostream.*')
def _(ex, st, a, ins, m): raise Unsupported('library internals: ' + m.group(0)[:80])

# ---------------------------------------------------------------- std::string
def S(ex, st, p): return ex.getstr(st, p).t
def setS(ex, st, p, t): ex.setobj(st, p, StrV(t))

def strdata(ex, st, p):
    p = ex.resolve_elem(st, p)
    v = ex.getstr(st, p)
    owner = p.r
    return Ptr(StrData(owner, p.off, v))

STR = 'std::string::'

@c(STR + 'basic_string()')
def _(ex, st, a, ins): setS(ex, st, a[0], '')

@c(STR + 'basic_string(std::string const&)', STR + 'basic_string(std::string const&, std::allocator<char> const&)')
def _(ex, st, a, ins): setS(ex, st, a[0], S(ex, st, a[1]))

@c(STR + 'basic_string(std::string&&)')
def _(ex, st, a, ins):
    setS(ex, st, a[0], S(ex, st, a[1]))
    setS(ex, st, a[1], '')

@c(STR + 'basic_string<std::allocator<char>>(char const*, std::allocator<char> const&)', STR + 'basic_string(char const*, std::allocator<char> const&)')
def _(ex, st, a, ins): setS(ex, st, a[0], ex.cstr(st, a[1])[0])

@c(STR + 'basic_string(char const*, unsigned long, std::allocator<char> const&)')
def _(ex, st, a, ins): setS(ex, st, a[0], ex.bytes_of(st, a[1], a[2]))

@c(STR + 'basic_string(std::string const&, unsigned long, unsigned long)', STR + 'basic_string(std::string const&, unsigned long, unsigned long, std::allocator<char> const&)')
def _(ex, st, a, ins): setS(ex, st, a[0], substr(ex, st, S(ex, st, a[1]), a[2], a[3]))

@c(STR + 'basic_string(std::string const&, unsigned long)')
def _(ex, st, a, ins): setS(ex, st, a[0], substr(ex, st, S(ex, st, a[1]), a[2], (1 << 64) - 1))

@rx(r'std::string::basic_string<(char const\*|char\*|unsigned char const\*|unsigned char\*|__gnu_cxx::__normal_iterator<.*>), void>\(.*\)')
def _(ex, st, a, ins, m):
    x, y = a[1], a[2]
    if not (isinstance(x, Ptr) and isinstance(y, Ptr) and same_region(x.r, y.r)): raise Unsupported('string from range')
    setS(ex, st, a[0], ex.bytes_of(st, x, simp(zi(y.total()) - zi(x.total()))))

@rx(r'std::string::basic_string<(absl|std)::string_view, void>\((absl|std)::string_view const&, std::allocator<char> const&\)')
def _(ex, st, a, ins, m): setS(ex, st, a[0], svobj(ex, st, a[1]))

@c(STR + '~basic_string()')
def _(ex, st, a, ins):
    p = a[0]
    ex.getstr(st, p)
    p = ex.resolve_elem(st, p)
    if isinstance(p.r, Inst): ex.write_inst(st, p.r, p)
    st.setcell(p.r, p.off, 32, DEAD)

@c(STR + 'operator=(std::string const&)', STR + 'assign(std::string const&)')
def _(ex, st, a, ins):
    t = S(ex, st, a[1])
    ex.getstr(st, a[0])
    if not aliased(ex, st, a[0], a[1]): setS(ex, st, a[0], t)
    return a[0]

def aliased(ex, st, p, q):
    p, q = ex.resolve_elem(st, p), ex.resolve_elem(st, q)
    return same_region(p.r, q.r) and p.off == q.off

@c(STR + 'operator=(std::string&&)', STR + 'assign(std::string&&)')
def _(ex, st, a, ins):
    ex.getstr(st, a[0])
    t = S(ex, st, a[1])
    if not aliased(ex, st, a[0], a[1]):
        setS(ex, st, a[0], t)
        setS(ex, st, a[1], z3.String('moved!%d' % fresh_id()))
    return a[0]

@c(STR + 'operator=(char const*)', STR + 'assign(char const*)')
def _(ex, st, a, ins):
    ex.getstr(st, a[0])
    setS(ex, st, a[0], ex.cstr(st, a[1])[0])
    return a[0]

@c(STR + 'assign(char const*, unsigned long)')
def _(ex, st, a, ins):
    ex.getstr(st, a[0])
    setS(ex, st, a[0], ex.bytes_of(st, a[1], a[2]))
    return a[0]

@c(STR + 'operator=(char)')
def _(ex, st, a, ins):
    setS(ex, st, a[0], z3.StrFromCode(zi(a[1])))
    return a[0]

@rx(r'std::string& std::string::(operator=|assign)<(absl|std)::string_view>\(.*\)|std::enable_if<.*>::type std::string::(operator=|assign)<(absl|std)::string_view>\(.*\)')
def _(ex, st, a, ins, m):
    setS(ex, st, a[0], svobj(ex, st, a[1]))
    return a[0]

@c(STR + 'append(std::string const&)', STR + 'operator+=(std::string const&)')
def _(ex, st, a, ins):
    setS(ex, st, a[0], cat(S(ex, st, a[0]), S(ex, st, a[1])))
    return a[0]

@c(STR + 'append(char const*)', STR + 'operator+=(char const*)')
def _(ex, st, a, ins):
    setS(ex, st, a[0], cat(S(ex, st, a[0]), ex.cstr(st, a[1])[0]))
    return a[0]

@c(STR + 'append(char const*, unsigned long)')
def _(ex, st, a, ins):
    setS(ex, st, a[0], cat(S(ex, st, a[0]), ex.bytes_of(st, a[1], a[2])))
    return a[0]

@c(STR + 'append(std::string const&, unsigned long, unsigned long)')
def _(ex, st, a, ins):
    setS(ex, st, a[0], cat(S(ex, st, a[0]), substr(ex, st, S(ex, st, a[1]), a[2], a[3])))
    return a[0]

@c(STR + 'push_back(char)', STR + 'operator+=(char)')
def _(ex, st, a, ins):
    setS(ex, st, a[0], cat(S(ex, st, a[0]), z3.StrFromCode(zi(a[1]))))
    return a[0]

@c(STR + 'append(unsigned long, char)')
def _(ex, st, a, ins):
    n = simp(a[1])
    if is_sym(n) or n > 4: raise Unsupported('append(n, c)')
    setS(ex, st, a[0], cat(S(ex, st, a[0]), *[z3.StrFromCode(zi(a[2]))] * n))
    return a[0]

@c(STR + 'pop_back()')
def _(ex, st, a, ins):
    t = S(ex, st, a[0])
    ex.ub(st, z3.Length(t) > 0, 'pop_back on an empty string')
    v = ex.getstr(st, a[0])
    ex.setobj(st, a[0], StrV(z3.SubString(t, 0, z3.Length(t) - 1), v.ver))

@c(STR + 'clear()')
def _(ex, st, a, ins):
    ex.getstr(st, a[0])
    setS(ex, st, a[0], '')

@c(STR + 'reserve(unsigned long)', STR + 'reserve()', STR + 'shrink_to_fit()')
def _(ex, st, a, ins): setS(ex, st, a[0], S(ex, st, a[0]))

@c(STR + 'resize(unsigned long)', STR + 'resize(unsigned long, char)')
def _(ex, st, a, ins):
    t = S(ex, st, a[0])
    n = zi(a[1])
    pad = z3.String('pad!%d' % fresh_id())
    st.assume(z3.Length(pad) == z3.If(n > z3.Length(t), n - z3.Length(t), zi(0)))
    setS(ex, st, a[0], z3.If(n <= z3.Length(t), z3.SubString(t, 0, n), z3.Concat(t, pad)))

@c(STR + 'erase(unsigned long, unsigned long)')
def _(ex, st, a, ins):
    t = S(ex, st, a[0])
    ex.ub(st, zi(a[1]) <= z3.Length(t), 'exception from erase')
    rest = z3.Length(t) - zi(a[1])
    n = z3.If(zi(a[2]) < rest, zi(a[2]), rest)
    setS(ex, st, a[0], simp(z3.Concat(z3.SubString(t, 0, zi(a[1])), z3.SubString(t, zi(a[1]) + n, rest - n))))
    return a[0]

@c(STR + 'swap(std::string&)')
def _(ex, st, a, ins):
    x, y = S(ex, st, a[0]), S(ex, st, a[1])
    setS(ex, st, a[0], y)
    setS(ex, st, a[1], x)

@c(STR + 'empty() const')
def _(ex, st, a, ins): return simp(S(ex, st, a[0]) == z3.StringVal(''))

@c(STR + 'length() const', STR + 'size() const')
def _(ex, st, a, ins):
    n = simp(z3.Length(S(ex, st, a[0])))
    if is_sym(n): st.assume(z3.And(n >= 0, n < (1 << 62)))
    return n

@c(STR + 'max_size() const')
def _(ex, st, a, ins): return (1 << 63) - 1

@c(STR + 'c_str() const', STR + 'data() const', STR + 'data()', STR + 'begin()', STR + 'begin() const', STR + 'cbegin() const')
def _(ex, st, a, ins): return strdata(ex, st, a[0])

@c(STR + 'end()', STR + 'end() const', STR + 'cend() const')
def _(ex, st, a, ins):
    p = strdata(ex, st, a[0])
    return p.addsym(1, z3.Length(p.r.val.t))

@c(STR + 'operator[](unsigned long) const', STR + 'operator[](unsigned long)')
def _(ex, st, a, ins):
    p = strdata(ex, st, a[0])
    ex.ub(st, z3.And(zi(a[1]) >= 0, zi(a[1]) <= z3.Length(p.r.val.t)), 'string index out of range')
    return p.addsym(1, zi(a[1]))

@c(STR + 'at(unsigned long) const', STR + 'at(unsigned long)')
def _(ex, st, a, ins):
    p = strdata(ex, st, a[0])
    ex.ub(st, zi(a[1]) < z3.Length(p.r.val.t), 'exception from string::at')
    return p.addsym(1, zi(a[1]))

@c(STR + 'back()', STR + 'back() const')
def _(ex, st, a, ins):
    p = strdata(ex, st, a[0])
    ex.ub(st, z3.Length(p.r.val.t) > 0, 'back() of an empty string')
    return p.addsym(1, z3.Length(p.r.val.t) - 1)

@c(STR + 'front()', STR + 'front() const')
def _(ex, st, a, ins):
    p = strdata(ex, st, a[0])
    ex.ub(st, z3.Length(p.r.val.t) > 0, 'front() of an empty string')
    return p

def cat(*xs):
    return zs(simp(z3.Concat(*[zs(x) for x in xs]))) if len(xs) > 1 else xs[0]

def substr(ex, st, t, pos, n):
    """basic_string::substr"""
    pos, n = zi(pos), zi(n)
    ex.ub(st, pos <= z3.Length(t), 'exception from substr or compare (position beyond the end)')
    return substr_total(t, pos, n)

def substr_total(t, pos, n):
    rest = z3.Length(t) - pos
    return zs(simp(z3.SubString(t, pos, z3.If(n <= rest, n, rest))))

@c(STR + 'substr(unsigned long, unsigned long) const')
def _(ex, st, a, ins): setS(ex, st, a[0], substr(ex, st, S(ex, st, a[1]), a[2], a[3]))

@c(STR + 'compare(std::string const&) const')
def _(ex, st, a, ins): return cmp_result(ex, st, S(ex, st, a[0]), S(ex, st, a[1]))

@c(STR + 'compare(char const*) const')
def _(ex, st, a, ins): return cmp_result(ex, st, S(ex, st, a[0]), ex.cstr(st, a[1])[0])

@c(STR + 'compare(unsigned long, unsigned long, char const*) const')
def _(ex, st, a, ins): return cmp_result(ex, st, substr(ex, st, S(ex, st, a[0]), a[1], a[2]), ex.cstr(st, a[3])[0])

@c(STR + 'compare(unsigned long, unsigned long, char const*, unsigned long) const')
def _(ex, st, a, ins): return cmp_result(ex, st, substr(ex, st, S(ex, st, a[0]), a[1], a[2]), ex.bytes_of(st, a[3], a[4]))

@c(STR + 'compare(unsigned long, unsigned long, std::string const&) const')
def _(ex, st, a, ins): return cmp_result(ex, st, substr(ex, st, S(ex, st, a[0]), a[1], a[2]), S(ex, st, a[3]))

NPOS = (1 << 64) - 1
def indexof(st, t, x, pos):
    i = z3.IndexOf(t, x, zi(pos))
    # z3: -1 when absent or pos beyond the end
    return simp(z3.If(i < 0, zi(NPOS), i))

@c(STR + 'find(std::string const&, unsigned long) const')
def _(ex, st, a, ins): return indexof(st, S(ex, st, a[0]), S(ex, st, a[1]), a[2])
@c(STR + 'find(char const*, unsigned long) const')
def _(ex, st, a, ins): return indexof(st, S(ex, st, a[0]), ex.cstr(st, a[1])[0], a[2])
@c(STR + 'find(char, unsigned long) const', STR + 'find_first_of(char, unsigned long) const')
def _(ex, st, a, ins): return indexof(st, S(ex, st, a[0]), zs(simp(z3.StrFromCode(zi(a[1])))), a[2])
@c(STR + 'rfind(char, unsigned long) const', STR + 'find_last_of(char, unsigned long) const')
def _(ex, st, a, ins):
    if simp(a[2]) != NPOS: raise Unsupported('rfind with position')
    t = S(ex, st, a[0])
    i = z3.LastIndexOf(t, zs(simp(z3.StrFromCode(zi(a[1])))))
    return simp(z3.If(i < 0, zi(NPOS), i))

def rfind_at(t, x, pos):
    pos = simp(pos)
    if pos == NPOS: i = z3.LastIndexOf(t, x)
    elif pos == 0: i = z3.If(z3.PrefixOf(x, t), zi(0), zi(-1))
    else: raise Unsupported('rfind with position')
    return simp(z3.If(i < 0, zi(NPOS), i))
@c(STR + 'rfind(char const*, unsigned long) const')
def _(ex, st, a, ins): return rfind_at(S(ex, st, a[0]), ex.cstr(st, a[1])[0], a[2])
@c(STR + 'rfind(std::string const&, unsigned long) const')
def _(ex, st, a, ins): return rfind_at(S(ex, st, a[0]), S(ex, st, a[1]), a[2])

OPND = {'std::string const&': 's', 'char const*': 'c', 'absl::string_view': 'v', 'std::string_view': 'v', 'std::string&&': 'm', 'char': 'h'}
def operand(ex, st, a, i, k):
    if k in ('s', 'm'): return S(ex, st, a[i]), i + 1
    if k == 'c': return ex.cstr(st, a[i])[0], i + 1
    if k == 'h': return zs(simp(z3.StrFromCode(zi(a[i])))), i + 1
    return ex.sv(st, a, i), i + 2

@rx(r'(?:bool )?(?:std|absl|pb)::operator(==|!=|<|>|<=|>=)(?:<char, std::char_traits<char>, std::allocator<char>>|<char, std::char_traits<char>>)?\((std::string const&|char const\*|absl::string_view|std::string_view|std::type_identity_t<std::string_view>|std::__type_identity_t<std::string_view>), (std::string const&|char const\*|absl::string_view|std::string_view|std::type_identity_t<std::string_view>|std::__type_identity_t<std::string_view>)\)')
def _(ex, st, a, ins, m):
    ks = ['v' if 'identity' in g else OPND[g] for g in m.groups()[1:]]
    x, i = operand(ex, st, a, 0, ks[0])
    y, i = operand(ex, st, a, i, ks[1])
    op = m.group(1)
    if op == '==': return simp(x == y)
    if op == '!=': return simp(x != y)
    lt, gt = z3.And(x <= y, x != y), z3.Not(x <= y)
    return simp({'<': lt, '<=': x <= y, '>': gt, '>=': z3.Or(gt, x == y)}[op])

@rx(r'(?:std::string )?std::operator\+<char, std::char_traits<char>, std::allocator<char>>\((std::string const&|std::string&&|char const\*|char), (std::string const&|std::string&&|char const\*|char)\)')
def _(ex, st, a, ins, m):
    x, i = operand(ex, st, a, 1, OPND[m.group(1)])
    y, i = operand(ex, st, a, i, OPND[m.group(2)])
    setS(ex, st, a[0], cat(x, y))

@rx(r'.*std::count<__gnu_cxx::__normal_iterator<char( const)?\*, std::string>, char>\(.*|.*std::count<char const\*, char>\(.*')
def _(ex, st, a, ins, m):
    x, y = a[0], a[1]
    if not (isinstance(x, Ptr) and isinstance(y, Ptr) and same_region(x.r, y.r)): raise Unsupported('count')
    t = ex.bytes_of(st, x, simp(zi(y.total()) - zi(x.total())))
    ch = ex.load(st, a[2], ('i', 8))
    n = COUNT(t, zi(ch))
    st.assume(z3.And(n >= 0, n <= z3.Length(t)))
    if ex.count_facts: 
        ex.lazy(*ex.count_facts(t, ch, n))
    return n

COUNT = z3.Function('count', Str, Int, Int)

# iterators over characters and vectors: operator++ etc. are inlined (pointer arithmetic)

# ---------------------------------------------------------------- string_view
def svobj(ex, st, p):
    """content of the string_view object at p"""
    q = ex.resolve_elem(st, p)
    d = ex.load(st, q, ('ptr',))
    n = ex.load(st, q.add(8), ('i', 64))
    return ex.bytes_of(st, d, n)

def setsv(ex, st, p, data, n):
    q = ex.resolve_elem(st, p)
    ex.store(st, q, ('ptr',), data)
    ex.store(st, q.add(8), ('i', 64), n)

@rx(r'(absl::string_view|pb::StringPiece|std::string_view)::\1?(string_view|StringPiece|basic_string_view)\(char const\*\)')
def _(ex, st, a, ins, m):
    t, n = ex.cstr(st, a[1])
    setsv(ex, st, a[0], a[1], simp(zi(n)))

@rx(r'(absl::string_view|pb::StringPiece)::(string_view|StringPiece)<std::allocator<char>>\(std::string const&\)')
def _(ex, st, a, ins, m):
    p = strdata(ex, st, a[1])
    setsv(ex, st, a[0], p, strlen_of(ex, st, p))

def strlen_of(ex, st, p):
    n = simp(z3.Length(p.r.val.t))
    if is_sym(n): st.assume(z3.And(n >= 0, n < (1 << 62)))
    return n

@c('absl::strings_internal::ConvertibleToStringView::ConvertibleToStringView(std::string const&)')
def _(ex, st, a, ins):
    p = strdata(ex, st, a[1])
    setsv(ex, st, a[0], p, strlen_of(ex, st, p))

@c('std::string::operator std::string_view() const', 'std::string::operator std::basic_string_view<char, std::char_traits<char>>() const')
def _(ex, st, a, ins):
    p = strdata(ex, st, a[0])
    return Agg([strlen_of(ex, st, p), p])

@rx(r'absl::string_view::operator std::string<std::allocator<char>>\(\) const')
def _(ex, st, a, ins, m): setS(ex, st, a[0], svobj(ex, st, a[1]))

@c('absl::string_view::compare(absl::string_view) const')
def _(ex, st, a, ins): return cmp_result(ex, st, svobj(ex, st, a[0]), ex.sv(st, a, 1))

@c('absl::string_view::find(char, unsigned long) const')
def _(ex, st, a, ins): return indexof(st, svobj(ex, st, a[0]), zs(simp(z3.StrFromCode(zi(a[1])))), a[2])
@c('absl::string_view::find(absl::string_view, unsigned long) const')
def _(ex, st, a, ins): return indexof(st, svobj(ex, st, a[0]), ex.sv(st, a, 1), a[3])
@c('absl::string_view::rfind(char, unsigned long) const')
def _(ex, st, a, ins):
    if simp(a[2]) != NPOS: raise Unsupported('rfind with position')
    i = z3.LastIndexOf(svobj(ex, st, a[0]), zs(simp(z3.StrFromCode(zi(a[1])))))
    return simp(z3.If(i < 0, zi(NPOS), i))

@rx(r'absl::(StartsWith|EndsWith|StrContains)\(absl::string_view, absl::string_view\)')
def _(ex, st, a, ins, m):
    t, p = ex.sv(st, a, 0), ex.sv(st, a, 2)
    k = m.group(1)
    return simp(z3.PrefixOf(p, t) if k == 'StartsWith' else z3.SuffixOf(p, t) if k == 'EndsWith' else z3.Contains(t, p))

@rx(r'absl::(ConsumePrefix|ConsumeSuffix)\(absl::string_view\*, absl::string_view\)')
def _(ex, st, a, ins, m):
    t, p = svobj(ex, st, a[0]), ex.sv(st, a, 1)
    pre = m.group(1) == 'ConsumePrefix'
    cnd = simp(z3.PrefixOf(p, t) if pre else z3.SuffixOf(p, t))
    out = []
    for val in (True, False):
        s = st.copy()
        s.assume(zb(cnd) if val else z3.Not(zb(cnd)))
        if not ex.feasible(s): continue
        if val:
            d = ex.load(s, a[0], ('ptr',)); n = ex.load(s, a[0].add(8), ('i', 64))
            k = z3.Length(p)
            if pre: setsv(ex, s, a[0], d.addsym(1, k), simp(zi(n) - k))
            else: setsv(ex, s, a[0], d, simp(zi(n) - k))
        out.append((s, val))
    return out

@rx(r'absl::(StripPrefix|StripSuffix)\(absl::string_view, absl::string_view\)')
def _(ex, st, a, ins, m):
    t, p = ex.sv(st, a, 0), ex.sv(st, a, 2)
    pre = m.group(1) == 'StripPrefix'
    cnd = z3.PrefixOf(p, t) if pre else z3.SuffixOf(p, t)
    k = simp(z3.If(cnd, z3.Length(p), zi(0)))
    return Agg([a[0].addsym(1, k) if pre else a[0], simp(zi(a[1]) - zi(k))])

B64OK = z3.Function('base64url_ok', Str, Bool)
B64 = z3.Function('base64url_dec', Str, Str)

@c('absl::WebSafeBase64Unescape(absl::string_view, std::string*)')
def _(ex, st, a, ins):
    t = ex.sv(st, a, 0)
    ex.getstr(st, a[2])
    ok = B64OK(t)
    # on success *dest is the decoding; on failure its content is unspecified (cleared)
    out = []
    for val in (True, False):
        s = st.copy()
        s.assume(ok if val else z3.Not(ok))
        if not ex.feasible(s): continue
        setS(ex, s, a[2], B64(t) if val else z3.StringVal(''))
        out.append((s, val))
    return out

@c('absl::WebSafeBase64Unescape[abi:cxx11]')
def _(ex, st, a, ins): raise Unsupported('')

@c('absl::StrCat(absl::AlphaNum const&, absl::AlphaNum const&)')
def _(ex, st, a, ins): setS(ex, st, a[0], cat(svobj(ex, st, a[1]), svobj(ex, st, a[2])))
@c('absl::StrCat(absl::AlphaNum const&, absl::AlphaNum const&, absl::AlphaNum const&)')
def _(ex, st, a, ins): setS(ex, st, a[0], cat(svobj(ex, st, a[1]), svobj(ex, st, a[2]), svobj(ex, st, a[3])))
@rx(r'absl::StrAppend\(std::string\*(, absl::AlphaNum const&)+\)')
def _(ex, st, a, ins, m): setS(ex, st, a[0], cat(S(ex, st, a[0]), *[svobj(ex, st, x) for x in a[1:]]))
@rx(r'absl::AlphaNum::AlphaNum<std::allocator<char>>\(std::string const&\)')
def _(ex, st, a, ins, m):
    p = strdata(ex, st, a[1])
    setsv(ex, st, a[0], p, strlen_of(ex, st, p))
@c('absl::AlphaNum::AlphaNum(char const*)')
def _(ex, st, a, ins): setsv(ex, st, a[0], a[1], simp(zi(ex.cstr(st, a[1])[1])))
@c('absl::AlphaNum::AlphaNum(absl::string_view)')
def _(ex, st, a, ins): setsv(ex, st, a[0], a[1], a[2])

# ---------------------------------------------------------------- std::vector
EK = {'std::string': ('string', 32), 'absl::string_view': ('sv', 16), 'std::unique_ptr<Jwks::Pubkey>': ('uptr', 8), 'unsigned char': ('u8', 1),
      'char': ('u8', 1)}
VEC = r'std::vector<(std::string|absl::string_view|std::unique_ptr<Jwks::Pubkey>|unsigned char|char)>::'

def getvec(ex, st, p, ek):
    v = ex.getobj(st, p, 'vector:' + ek)
    if not isinstance(v, VecV): raise Unsupported('not a vector: %r' % (v,))
    return v

def vecdata(ex, st, p, v):
    p = ex.resolve_elem(st, p)
    return Ptr(VecData(p.r, p.off, v))

@rx(VEC + r'vector\(\)')
def _(ex, st, a, ins, m):
    ek, es = EK[m.group(1)]
    if ek == 'u8': ex.setobj(st, a[0], VecV('u8', 1, seq=BytesV(z3.StringVal(''), 0), ln=0))
    else: ex.setobj(st, a[0], VecV(ek, es, items=[]))

@rx(VEC + r'vector\(unsigned long, std::allocator<(unsigned char|char)> const&\)')
def _(ex, st, a, ins, m):
    n = a[1]
    t = z3.String('zeros!%d' % fresh_id())
    st.assume(z3.Length(t) == zi(n))
    ex.setobj(st, a[0], VecV('u8', 1, seq=BytesV(t, n), ln=n))

@rx(VEC + r'resize\(unsigned long\)')
def _(ex, st, a, ins, m):
    ek, es = EK[m.group(1)]
    if ek != 'u8': raise Unsupported('resize')
    v = getvec(ex, st, a[0], ek)
    t = z3.String('resized!%d' % fresh_id())
    n = zi(a[1])
    st.assume(z3.Length(t) == n)
    st.assume(z3.SubString(t, 0, z3.If(n < zi(v.ln), n, zi(v.ln))) == z3.SubString(v.seq.t, 0, z3.If(n < zi(v.ln), n, zi(v.ln))))
    ex.setobj(st, a[0], VecV('u8', 1, seq=BytesV(t, a[1]), ln=a[1]))

@rx(VEC + r'vector\(std::vector<.*>(&&| const&)\)')
def _(ex, st, a, ins, m):
    ek, es = EK[m.group(1)]
    v = getvec(ex, st, a[1], ek)
    if m.group(2) == '&&':
        ex.setobj(st, a[0], VecV(v.ek, v.esize, v.items, v.seq, v.ln))
        ex.setobj(st, a[1], VecV(ek, es, items=[]))
    else:
        ex.setobj(st, a[0], copyvec(ex, st, v))

def copyvec(ex, st, v):
    if v.items is None: return VecV(v.ek, v.esize, seq=v.seq, ln=v.ln)
    items = []
    for r in v.items:
        b = Region('elem', size=v.esize)
        for o, cc in st.mem.get(r.id, {}).items():
            st.setcell(b, o, cc[0], StrV(cc[1].t) if isinstance(cc[1], StrV) else cc[1])
        items.append(b)
    return VecV(v.ek, v.esize, items=items)

@rx(VEC + r'operator=\(std::vector<.*>(&&| const&)\)')
def _(ex, st, a, ins, m):
    ek, es = EK[m.group(1)]
    v = getvec(ex, st, a[1], ek)
    old = getvec(ex, st, a[0], ek)
    if aliased(ex, st, a[0], a[1]): return a[0]
    s = destroy_elems(ex, st, old)
    ex.setobj(st, a[0], VecV(v.ek, v.esize, v.items, v.seq, v.ln) if m.group(2) == '&&' else copyvec(ex, st, v))
    if m.group(2) == '&&': ex.setobj(st, a[1], VecV(ek, es, items=[]))
    return a[0]

def destroy_elems(ex, st, v):
    if v.ek == 'uptr':
        if v.items is None:
            # elements released as a whole; the seq term names keys owned by the vector
            return
        for r in v.items:
            cc = st.getcell(r, 0)
            if cc is not None and isinstance(cc[1], Ptr):
                destroy_pubkey(ex, st, cc[1])
            st.setcell(r, 0, 8, DEAD)
    elif v.items is not None:
        for r in v.items:
            st.mem[r.id] = {}
            st.setcell(r, 0, 32, DEAD)

def destroy_pubkey(ex, st, p):
    """delete of a Pubkey: releases what its owning members hold"""
    r = p.r
    if isinstance(r, Inst): return
    if r.id in st.freed: ex.ub(st, False, 'object released twice')
    for o, cc in list(st.mem.get(r.id, {}).items()):
        if o == '@zero': continue
        if isinstance(cc[1], Ptr) and cc[1].r.heap: release(ex, st, cc[1], 'member')
    st.freed = st.freed | {r.id}
    st.owned.pop(r.id, None)

@rx(VEC + r'~vector\(\)')
def _(ex, st, a, ins, m):
    ek, es = EK[m.group(1)]
    v = getvec(ex, st, a[0], ek)
    destroy_elems(ex, st, v)
    p = ex.resolve_elem(st, a[0])
    st.setcell(p.r, p.off, 24, DEAD)

@rx(VEC + r'clear\(\)')
def _(ex, st, a, ins, m):
    ek, es = EK[m.group(1)]
    v = getvec(ex, st, a[0], ek)
    destroy_elems(ex, st, v)
    ex.setobj(st, a[0], VecV(ek, es, items=[]) if ek != 'u8' else VecV('u8', 1, seq=BytesV(z3.StringVal(''), 0), ln=0))

@rx(VEC + r'size\(\) const')
def _(ex, st, a, ins, m):
    v = getvec(ex, st, a[0], EK[m.group(1)][0])
    if is_sym(v.ln): st.assume(z3.And(v.ln >= 0, v.ln < (1 << 58)))
    return v.ln

@rx(VEC + r'empty\(\) const')
def _(ex, st, a, ins, m):
    v = getvec(ex, st, a[0], EK[m.group(1)][0])
    if is_sym(v.ln): st.assume(v.ln >= 0)
    return simp(zi(v.ln) == 0)

@rx(VEC + r'(begin|cbegin|data)\(\)( const)?')
def _(ex, st, a, ins, m):
    v = getvec(ex, st, a[0], EK[m.group(1)][0])
    return vecdata(ex, st, a[0], v)

@rx(VEC + r'(end|cend)\(\)( const)?')
def _(ex, st, a, ins, m):
    v = getvec(ex, st, a[0], EK[m.group(1)][0])
    if is_sym(v.ln): st.assume(z3.And(v.ln >= 0, v.ln < (1 << 58)))
    return vecdata(ex, st, a[0], v).addsym(v.esize, zi(v.ln))

@rx(VEC + r'(operator\[\]|at)\(unsigned long\)( const)?')
def _(ex, st, a, ins, m):
    v = getvec(ex, st, a[0], EK[m.group(1)][0])
    ex.ub(st, z3.And(zi(a[1]) >= 0, zi(a[1]) < zi(v.ln)), 'vector index out of range')
    return vecdata(ex, st, a[0], v).addsym(v.esize, zi(a[1]))

@rx(VEC + r'(front|back)\(\)( const)?')
def _(ex, st, a, ins, m):
    v = getvec(ex, st, a[0], EK[m.group(1)][0])
    ex.ub(st, zi(v.ln) > 0, 'front/back of an empty vector')
    p = vecdata(ex, st, a[0], v)
    return p if m.group(2) == 'front' else p.addsym(v.esize, zi(v.ln) - 1)

@rx(VEC + r'(reserve\(unsigned long\)|shrink_to_fit\(\))')
def _(ex, st, a, ins, m):
    ek, es = EK[m.group(1)]
    v = getvec(ex, st, a[0], ek)
    ex.setobj(st, a[0], VecV(v.ek, v.esize, v.items, v.seq, v.ln))

def append_str(ex, st, p, t):
    v = getvec(ex, st, p, 'string')
    if v.items is not None:
        b = Region('elem', size=32)
        st.setcell(b, 0, 32, StrV(t))
        ex.setobj(st, p, VecV('string', 32, items=v.items + [b]))
    else:
        s = SEQ_APP_STR(v.seq, t)
        st.assume(SEQ_LEN(s) == zi(v.ln) + 1)
        ex.setobj(st, p, VecV('string', 32, seq=s, ln=SEQ_LEN(s)))

@rx(r'std::vector<std::string>::(push_back|emplace_back<std::string const&>|emplace_back<std::string&>)\((std::string const&|std::string&)\)|std::string& std::vector<std::string>::emplace_back<std::string( const)?&>\(std::string( const)?&\)')
def _(ex, st, a, ins, m): append_str(ex, st, a[0], S(ex, st, a[1]))

@rx(r'std::vector<std::string>::push_back\(std::string&&\)|std::string& std::vector<std::string>::emplace_back<std::string>\(std::string&&\)')
def _(ex, st, a, ins, m):
    t = S(ex, st, a[1])
    append_str(ex, st, a[0], t)
    setS(ex, st, a[1], z3.String('moved!%d' % fresh_id()))

def vec_seq(ex, st, v):
    """abstract sequence of a vector of strings"""
    if v.ek != 'string': return None
    if v.items is None: return v.seq
    s = SEQ_EMPTY
    for r in v.items:
        cc = st.getcell(r, 0)
        s = SEQ_APP_STR(s, cc[1].t)
    return s

# vector of unique_ptr<Pubkey>; the abstraction of a Pubkey to a key term is supplied by the specification (ex.keyabs)
SEQ_APP_KEY = None

@rx(r'(?:std::unique_ptr<Jwks::Pubkey>& )?std::vector<std::unique_ptr<Jwks::Pubkey>>::(push_back|emplace_back<std::unique_ptr<Jwks::Pubkey>>)\(std::unique_ptr<Jwks::Pubkey>&&\)')
def _(ex, st, a, ins, m):
    q = ex.load(st, a[1], ('ptr',))
    ex.store(st, a[1], ('ptr',), NULL)
    append_key(ex, st, a[0], q)

def append_key(ex, st, p, q):
    v = getvec(ex, st, p, 'uptr')
    if v.items is not None:
        b = Region('elem', size=8)
        st.setcell(b, 0, 8, q)
        ex.setobj(st, p, VecV('uptr', 8, items=v.items + [b]))
    else:
        k = ex.keyabs(ex, st, q)
        s = ex.seq_app_key(v.seq, k)
        st.assume(SEQ_LEN(s) == zi(v.ln) + 1)
        absorb(ex, st, q)
        ex.setobj(st, p, VecV('uptr', 8, seq=s, ln=SEQ_LEN(s)))

@rx(r'__gnu_cxx::__normal_iterator<.*> std::vector<std::unique_ptr<Jwks::Pubkey>>::insert<std::move_iterator<.*>, void>\(.*\)')
def _(ex, st, a, ins, m):
    dst, pos, first, last = a
    v = getvec(ex, st, dst, 'uptr')
    for q in (pos, first, last):
        if not isinstance(q, Ptr) or not isinstance(q.r, VecData): raise Unsupported('vector insert')
    dp = ex.resolve_elem(st, dst)
    if pos.r.owner is not dp.r or pos.r.ooff != dp.off: raise Unsupported('insert at a position of another vector')
    ex.stale(st, pos.r); ex.stale(st, first.r); ex.stale(st, last.r)
    if first.r.owner is pos.r.owner and first.r.ooff == pos.r.ooff: ex.ub(st, False, 'vector insert from itself')
    i, j, k = pos.index(8)[0], first.index(8)[0], last.index(8)[0]
    src = ex.curvec(st, first.r)
    if is_sym(j) or is_sym(k) or src.items is None: raise Unsupported('vector insert of an unknown number of elements')
    ex.ub(st, 0 <= j <= k <= len(src.items), 'vector insert of an invalid range')
    at_end = (not is_sym(i) and not is_sym(v.ln) and i == v.ln) or ex.sure(st, zi(i) == zi(v.ln))
    if not at_end: raise Unsupported('vector insert in the middle')
    for r in src.items[j:k]:
        q = st.getcell(r, 0)[1]
        st.setcell(r, 0, 8, NULL)
        append_key(ex, st, dst, q)
    return vecdata(ex, st, dst, getvec(ex, st, dst, 'uptr')).addsym(8, zi(i))

def absorb(ex, st, q):
    """ownership of a Pubkey and of what it holds moves into a symbolic vector"""
    if isinstance(q, Ptr):
        for o, cc in list(st.mem.get(q.r.id, {}).items()):
            if o != '@zero' and isinstance(cc[1], Ptr) and cc[1].r.heap:
                st.owned.pop(cc[1].r.id, None)
        st.owned.pop(q.r.id, None)

# ---------------------------------------------------------------- std::set<std::string>
SETP = r'std::set<std::string>::'
EMPTYSET = z3.K(Str, z3.BoolVal(False))

def getset(ex, st, p):
    v = ex.getobj(st, p, 'set')
    if not isinstance(v, SetV): raise Unsupported('not a set')
    return v

@rx(SETP + r'set\(\)')
def _(ex, st, a, ins, m): ex.setobj(st, a[0], SetV(EMPTYSET, True))
@rx(SETP + r'~set\(\)')
def _(ex, st, a, ins, m):
    p = a[0]
    getset(ex, st, p)
    st.setcell(p.r, p.off, 48, DEAD)
@rx(SETP + r'clear\(\)')
def _(ex, st, a, ins, m): ex.setobj(st, a[0], SetV(EMPTYSET, True))
@rx(SETP + r'empty\(\) const')
def _(ex, st, a, ins, m): return simp(zb(getset(ex, st, a[0]).empty))
@rx(SETP + r'size\(\) const')
def _(ex, st, a, ins, m):
    v = getset(ex, st, a[0])
    n = z3.Int('setsize!%d' % v.ver)
    st.assume(z3.And(n >= 0, n < (1 << 58), (n == 0) == zb(v.empty)))
    return n

def set_insert(ex, st, p, t):
    v = getset(ex, st, p)
    had = member(v.arr, t)
    ex.setobj(st, p, SetV(z3.Store(v.arr, t, z3.BoolVal(True)), False))
    r = Region('setnode')
    st.setcell(r, 32, 32, StrV(t))
    return Agg([Ptr(r), b2i(z3.Not(zb(had)))])

@rx(SETP + r'insert\((std::string const&|std::string&&)\)')
def _(ex, st, a, ins, m): return set_insert(ex, st, a[0], S(ex, st, a[1]))
@rx(r'.*' + SETP + r'emplace<(std::string|std::string const&|std::string&)>\((std::string const&|std::string&&|std::string&)\)')
def _(ex, st, a, ins, m): return set_insert(ex, st, a[0], S(ex, st, a[1]))
@rx(r'.*' + SETP + r'(insert|emplace_hint<(std::string|std::string const&|std::string&)>)\(std::_Rb_tree_const_iterator<std::string>, (std::string const&|std::string&&|std::string&)\)')
def _(ex, st, a, ins, m): return set_insert(ex, st, a[0], S(ex, st, a[2])).v[0]
@rx(SETP + r'count\(std::string const&\) const')
def _(ex, st, a, ins, m): return simp(b2i(zb(simp(getset(ex, st, a[0]).arr[S(ex, st, a[1])]))))

def set_end(ex, st, p):
    # one end node per set object
    k = ('setend', p.r.id if not isinstance(p.r, Inst) else str(p.r.term), p.off)
    e = ex.globals.get(k)
    if e is None: e = ex.globals[k] = Region('setend')
    return Ptr(e)

@rx(SETP + r'find\(std::string const&\)( const)?')
def _(ex, st, a, ins, m):
    v = getset(ex, st, a[0])
    t = S(ex, st, a[1])
    has = zb(member(v.arr, t))
    st.assume(z3.Implies(has, z3.Not(zb(v.empty))))
    out = []
    for val in (True, False):
        s = st.copy()
        s.assume(has if val else z3.Not(has))
        if not ex.feasible(s): continue
        if val:
            r = Region('setnode')
            s.setcell(r, 32, 32, StrV(t))
            out.append((s, Ptr(r)))
        else: out.append((s, set_end(ex, s, a[0])))
    return out

@rx(SETP + r'c?end\(\)( const)?')
def _(ex, st, a, ins, m):
    getset(ex, st, a[0])
    return set_end(ex, st, a[0])

@rx(r'std::_Rb_tree_const_iterator<std::string>::operator\*\(\) const')
def _(ex, st, a, ins, m):
    n = ex.load(st, a[0], ('ptr',))
    return n.add(32)

# ---------------------------------------------------------------- time
NOW = z3.Int('unix_now')

@c('absl::Now()')
def _(ex, st, a, ins): return abs_time(ex, st, ins)

def abs_time(ex, st, ins):
    t = ex.mod.resolve(ins.a[0]) if ins.a[0][0] != 'void' else None
    n = fresh_id()
    x, y = z3.Int('now_a!%d' % n), z3.Int('now_b!%d' % n)
    if t is not None and t[0] == 'struct': return Agg([x, y])
    raise Unsupported('absl::Now')

@c('absl::ToUnixSeconds(absl::Time)')
def _(ex, st, a, ins):
    k = z3.Int('unixsec(%s)' % '|'.join(str(x) for x in a if not isinstance(x, Ptr)))
    # seconds since the epoch are not negative (the system clock is set after 1970)
    st.assume(z3.And(k >= 0, k < (1 << 62)))
    st.ghost['clock_reads'] = st.ghost.get('clock_reads', ()) + (k,)
    return k

@rx(r'absl::StrCat(\[abi:cxx11\])?\(absl::AlphaNum const&(, absl::AlphaNum const&)*\)')
def _(ex, st, a, ins, m):
    setS(ex, st, a[0], cat(*[svobj(ex, st, x) for x in a[1:]]))

@rx(r'absl::StrAppend\(std::string\*(, absl::AlphaNum const&)+\)')
def _(ex, st, a, ins, m):
    setS(ex, st, a[0], cat(S(ex, st, a[0]), *[svobj(ex, st, x) for x in a[1:]]))

@rx(r'llvm\.is\.fpclass\.f64')
def _(ex, st, a, ins, m):
    x, k = a[0], simp(a[1])
    neg, pos = z3.fpIsNegative(x), z3.fpIsPositive(x)
    cl = [(3, z3.fpIsNaN(x)), (4, z3.And(neg, z3.fpIsInf(x))), (8, z3.And(neg, z3.fpIsNormal(x))), (16, z3.And(neg, z3.fpIsSubnormal(x))), (32, z3.And(neg, z3.fpIsZero(x))),
          (64, z3.And(pos, z3.fpIsZero(x))), (128, z3.And(pos, z3.fpIsSubnormal(x))), (256, z3.And(pos, z3.fpIsNormal(x))), (512, z3.And(pos, z3.fpIsInf(x)))]
    if k & 3 in (1, 2): raise Unsupported('signalling NaN test')
    return simp(z3.Or(*[f for b, f in cl if k & b])) if k else False

@rx(r'(?:llvm\.)?(floor|ceil|trunc|fabs)(?:\.f64|\(double\)|)|std::(floor|ceil|trunc|fabs|abs)\(double\)')
def _(ex, st, a, ins, m):
    n = m.group(1) or m.group(2)
    if n in ('fabs', 'abs'): return z3.fpAbs(a[0])
    return z3.fpRoundToIntegral({'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ()}[n], a[0])

@rx(VEC + r'swap\(std::vector<.*>&\)')
def _(ex, st, a, ins, m):
    k = EK[m.group(1)][0]
    x, y = getvec(ex, st, a[0], k), getvec(ex, st, a[1], k)
    ex.setobj(st, a[0], VecV(y.ek, y.esize, y.items, y.seq, y.ln))
    ex.setobj(st, a[1], VecV(x.ek, x.esize, x.items, x.seq, x.ln))
