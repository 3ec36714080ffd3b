"""Contracts of src/check_audience.cc (C06)."""
import z3
from irv.vals import *
from irv.spec import *

TU = 'src/check_audience.cc'
OFF = {}

def san(t):
    """one http:// or https:// prefix and one trailing slash removed"""
    n = z3.Length(t)
    b = z3.If(z3.PrefixOf(z3.StringVal('http://'), t), 7, z3.If(z3.PrefixOf(z3.StringVal('https://'), t), 8, 0))
    e = z3.If(z3.SuffixOf(z3.StringVal('/'), t), n - 1, n)
    return z3.If(e > b, z3.SubString(t, b, e - b), z3.StringVal(''))

def ctor(ex, st):
    seq, n, v = sym_str_vec(st, 'config_audiences')
    arg = place(st, Region('config_audiences', size=24, const=False), {0: (24, v)})
    this = Ptr(Region('this', size=48))
    X = z3.String('X')
    E = Exists('configured', n, lambda j: san(SEQ_AT_STR(seq, j)) == X)
    def extra(ex, idx, bools, objs, limits):
        out = []
        for ok, og in objs.items():
            for k, g in idx.items():
                for nm, F in (('pre', E.fpre), ('suf', E.fsuf)):
                    out.append(('%s has X == %s(%s)' % (ok, nm, k), lambda s, p, f, g=g, og=og, F=F: inset(og(s, p, f), X) == F(g(s, p, f))))
                out.append(('%s empty == (%s==0)' % (ok, k), lambda s, p, f, g=g, og=og: zb(og(s, p, f).empty) == (g(s, p, f) == 0)))
                out.append(('%s empty == (%s==N)' % (ok, k), lambda s, p, f, g=g, og=og: zb(og(s, p, f).empty) == (g(s, p, f) == n)))
        return out
    ex.hints = Hints([E], [('N', n)], extra)
    def post(ex, s, ret, ob):
        v = ex.getobj(s, this, 'set')
        ob(inset(v, X) == E.any, 'the configured set contains exactly the sanitised audiences of the list')
        ob(zb(v.empty) == (n == 0), 'the configured set is empty exactly for an empty list')
        a = s.getcell(arg.r, 0)[1]
        ob(a.seq is seq, 'the audience list is not modified')
        ob.cover('list of several audiences', n > 1)
    return [this, arg], post

def inset(v, X):
    if not isinstance(v, SetV): raise Unsupported('not a set')
    return zb(simp(v.arr[X]))

def allowed(ex, st):
    seq, n, v = sym_str_vec(st, 'jwt_audiences')
    arg = place(st, Region('jwt_audiences', size=24), {0: (24, v)})
    A = z3.Const('A', z3.ArraySort(Str, Bool))
    empty = z3.Bool('config_empty')
    sv = SetV(A, empty)
    this = place(st, Region('this', size=48), {0: (48, sv)})
    E = Exists('match', n, lambda j: A[san(SEQ_AT_STR(seq, j))])
    ex.hints = Hints([E], [('N', n)])
    def post(ex, s, ret, ob):
        ob(zb(ret) == z3.Or(empty, E.any), 'true exactly when no audience is configured or some audience of the token is, after sanitising')
        ob(same(s.getcell(this.r, 0)[1], sv) and s.getcell(arg.r, 0)[1].seq is seq, 'neither the configuration nor the list is modified')
        ob.cover('allowed', zb(ret)); ob.cover('denied', z3.Not(zb(ret)))
    return [this, arg], post

def empty(ex, st):
    e = z3.Bool('config_empty')
    this = place(st, Region('this', size=48), {0: (48, SetV(z3.Const('A', z3.ArraySort(Str, Bool)), e))})
    def post(ex, s, ret, ob):
        ob(zb(ret) == e, 'empty() reports an empty configuration')
    return [this], post

TASKS = [
    Task('CheckAudience::CheckAudience(std::vector<std::string> const&)', ['C06'], ctor, cover=('list of several audiences',)),
    Task('CheckAudience::areAudiencesAllowed(std::vector<std::string> const&) const', ['C06'], allowed, cover=('allowed', 'denied'), abs_only=True, abs_loops=False),
]
