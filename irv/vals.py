"""Values and abstract memory objects of the symbolic executor."""
import z3, itertools

_ctr = itertools.count(1)
def fresh_id():
    return next(_ctr)

Int = z3.IntSort()
Str = z3.StringSort()
Bool = z3.BoolSort()
SeqS = z3.DeclareSort('SeqV')           # abstract finite sequences (contents of vectors, lists)
F64 = z3.Float64()

class Unsupported(Exception):
    """code outside the verifier's reach"""

class PathEnd(Exception):
    pass

def is_sym(x):
    return isinstance(x, z3.ExprRef)

def simp(x):
    """simplify a z3 term; numerals and booleans become python values"""
    if not isinstance(x, z3.ExprRef):
        return x
    y = z3.simplify(x)
    if z3.is_int_value(y): return y.as_long()
    if z3.is_true(y): return True
    if z3.is_false(y): return False
    return y

def zi(x):
    if isinstance(x, bool): return z3.IntVal(1 if x else 0)
    if isinstance(x, int): return z3.IntVal(x)
    return x

def zb(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.BoolVal(x != 0)
    return x

def zs(x):
    if isinstance(x, bytes): return strval(x)
    if isinstance(x, str): return z3.StringVal(x)
    return x

def strval(b):
    # every byte as a character code 0..255
    return z3.StringVal(''.join(chr(c) if 32 <= c < 127 and chr(c) not in '\\' else '\\u{%x}' % c for c in b))

def b2i(b):
    if isinstance(b, bool): return 1 if b else 0
    return z3.If(b, z3.IntVal(1), z3.IntVal(0))

def i2b(x, n=1):
    """lowest bit of an integer"""
    if isinstance(x, bool): return x
    if isinstance(x, int): return bool(x & 1)
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = x.children()
        if z3.is_int_value(a) and z3.is_int_value(b):
            av, bv = a.as_long() & 1, b.as_long() & 1
            if av and not bv: return c
            if bv and not av: return z3.Not(c)
            return bool(av)
    return x % 2 == 1

class Opaque:
    """pointer to an object the verifier does not look into; a z3/py integer handle, 0 is null"""
    __slots__ = ('t', 'cls')
    def __init__(self, t, cls=None):
        self.t = t
        self.cls = cls
    def __repr__(self): return 'Opaque(%s)' % (self.t,)
NULL = Opaque(0)

class Region:
    """memory object; cells live in State.mem[region.id]"""
    kind = 'mem'
    def __init__(self, name, size=None, lazy=None, heap=False, const=False, elem=None, glob=False):
        self.id = fresh_id()
        self.name = name
        self.size = size
        self.lazy = lazy        # function(st, off, kind, size) -> value for never written cells
        self.heap = heap
        self.const = const
        self.elem = elem
        self.glob = glob
    def __repr__(self): return '<%s#%d>' % (self.name, self.id)

class StrData(Region):
    """characters of a std::string living at cell (owner_region, owner_off), as of version ver"""
    kind = 'strdata'
    def __init__(self, owner, off, val):
        Region.__init__(self, 'strdata', elem=1)
        self.owner, self.ooff, self.val = owner, off, val

class ConstBytes(Region):
    kind = 'cbytes'
    def __init__(self, name, data):
        Region.__init__(self, name, elem=1, const=True, size=len(data))
        self.data = data

class VecData(Region):
    """elements of a vector living at cell (owner, ooff), snapshot val"""
    kind = 'vecdata'
    def __init__(self, owner, off, val):
        Region.__init__(self, 'vecdata', elem=val.esize)
        self.owner, self.ooff, self.val = owner, off, val

class Inst(Region):
    """read-only object identified by a z3 term (e.g. i-th key of a key set): field values are functions of the term"""
    kind = 'inst'
    _cache = {}
    def __init__(self, fam, term):
        Region.__init__(self, fam)
        self.fam, self.term = fam, term

class Ptr:
    __slots__ = ('r', 'off', 'sym')
    def __init__(self, r, off=0, sym=None):
        self.r, self.off = r, off
        self.sym = sym or {}
    def __repr__(self): return 'Ptr(%r+%s%s)' % (self.r, self.off, self.sym or '')
    def add(self, k):
        return Ptr(self.r, self.off + k, self.sym)
    def addsym(self, stride, t):
        t = simp(t)
        if isinstance(t, int):
            return self.add(stride * t)
        s = dict(self.sym)
        if stride in s:
            v = simp(s[stride] + t)
            if isinstance(v, int):
                del s[stride]
                return Ptr(self.r, self.off + stride * v, s)
            s[stride] = v
        else:
            s[stride] = t
        return Ptr(self.r, self.off, s)
    def total(self):
        t = self.off
        for k, v in self.sym.items():
            t = t + k * v
        return t
    def index(self, stride):
        """(element index, offset inside the element)"""
        for k in self.sym:
            if k != stride:
                # a multiple of the stride is fine
                if k % stride == 0:
                    continue
                raise Unsupported('pointer stride %d into elements of %d' % (k, stride))
        i = self.off // stride
        f = self.off - i * stride
        for k, v in self.sym.items():
            i = i + (k // stride) * v
        return simp(i), f

class PtrInt:
    """result of ptrtoint"""
    __slots__ = ('p',)
    def __init__(self, p): self.p = p

class Agg:
    """first-class aggregate value"""
    __slots__ = ('v',)
    def __init__(self, v): self.v = list(v)
    def __repr__(self): return 'Agg%r' % (self.v,)

class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()

# ---- abstract objects stored in cells -------------------------------------------------------------
class Obj:
    size = 8
    copyable = False

class StrV(Obj):
    size = 32
    __slots__ = ('t', 'ver')
    def __init__(self, t, ver=None):
        self.t = zs(t)
        self.ver = fresh_id() if ver is None else ver
    def __repr__(self): return 'Str(%s)' % (self.t,)

class Dead(Obj):
    """a destroyed object"""
    def __repr__(self): return 'Dead'
DEAD = Dead()
class Lost(Obj):
    """a cell written by some iterations of a loop and not by others, or with values of different shapes: reading it is out of reach"""
    size = 0
    def __repr__(self): return 'Lost'
LOST = Lost()

class VecV(Obj):
    """std::vector: either concrete (items: list of box Regions) or symbolic (seq term, ln)"""
    size = 24
    def __init__(self, ek, esize, items=None, seq=None, ln=None, ver=None):
        self.ek, self.esize, self.items, self.seq = ek, esize, items, seq
        self.ln = len(items) if items is not None else ln
        self.ver = fresh_id() if ver is None else ver
    def __repr__(self): return 'Vec<%s>(%s)' % (self.ek, self.items if self.items is not None else self.seq)

class BytesV(Obj):
    """a buffer of raw bytes with known content (vector<uint8_t> or array)"""
    def __init__(self, t, ln, ver=None):
        self.t, self.ln = t, ln
        self.ver = fresh_id() if ver is None else ver

class SetV(Obj):
    size = 48
    def __init__(self, arr, empty, ver=None):
        self.arr, self.empty = arr, empty
        self.ver = fresh_id() if ver is None else ver

def member(arr, t):
    """t in the set arr, without array terms where the set is built from known elements"""
    out = []
    if is_sym(arr):
        while z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE and z3.is_true(z3.simplify(arr.arg(2))):
            out.append(arr.arg(1) == t)
            arr = arr.arg(0)
    base = simp(z3.Select(arr, t))
    if base is True: return True
    if base is not False: out.append(base)
    return simp(z3.Or(*out)) if out else False

class Ghost(Obj):
    """generic named ghost object: immutable dict"""
    copyable = True
    def __init__(self, kind_, **kw):
        self.kind = kind_
        self.f = kw
    def __repr__(self): return 'Ghost(%s,%s)' % (self.kind, self.f)
    def with_(self, **kw):
        d = dict(self.f)
        d.update(kw)
        return Ghost(self.kind, **d)

def same(a, b):
    """structural equality of two values (used to detect modified cells)"""
    if a is b: return True
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)): return a == b
    if is_sym(a) and is_sym(b): return a.eq(b)
    if type(a) is not type(b): return False
    if isinstance(a, Opaque): return same(a.t, b.t)
    if isinstance(a, Ptr):
        return same_region(a.r, b.r) and a.off == b.off and set(a.sym) == set(b.sym) and all(same(a.sym[k], b.sym[k]) for k in a.sym)
    if isinstance(a, StrV): return a.ver == b.ver and a.t.eq(b.t)
    if isinstance(a, VecV): return a.ver == b.ver
    if isinstance(a, (BytesV, SetV)): return a.ver == b.ver
    if isinstance(a, Ghost):
        return a.kind == b.kind and set(a.f) == set(b.f) and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Agg): return len(a.v) == len(b.v) and all(same(x, y) for x, y in zip(a.v, b.v))
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b

def same_region(a, b):
    if a is b: return True
    if isinstance(a, StrData) and isinstance(b, StrData):
        if hasattr(a, 'fixed') or hasattr(b, 'fixed'):
            return hasattr(a, 'fixed') and hasattr(b, 'fixed') and a.fixed.eq(b.fixed) and a.owner is b.owner
        return a.owner is b.owner and a.ooff == b.ooff and a.val.ver == b.val.ver and a.val.t.eq(b.val.t)
    if isinstance(a, VecData) and isinstance(b, VecData):
        return a.owner is b.owner and a.ooff == b.ooff and a.val.ver == b.val.ver
    if isinstance(a, Inst) and isinstance(b, Inst):
        return a.fam == b.fam and same(a.term, b.term)
    return False

# ---- abstract sequences --------------------------------------------------------------------------
SEQ_EMPTY = z3.Const('seq_empty', SeqS)
SEQ_LEN = z3.Function('seq_len', SeqS, Int)
SEQ_APP_STR = z3.Function('seq_app_str', SeqS, Str, SeqS)
SEQ_AT_STR = z3.Function('seq_at_str', SeqS, Int, Str)
