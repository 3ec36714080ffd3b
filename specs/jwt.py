"""Contracts of src/jwt.cc (C05, C08, C09, C10)."""
import z3
from irv.vals import *
from irv.spec import *
from irv import lib_pb as pb, lib
from irv.lib_pb import *
from irv.hints import *

TU = 'src/jwt.cc'
NEED_PROBE = True
ALGS = ['ES256', 'ES384', 'ES512', 'HS256', 'HS384', 'HS512', 'RS256', 'RS384', 'RS512', 'PS256', 'PS384', 'PS512', 'EdDSA']
STRF = ['jwt_', 'header_str_', 'header_str_base64url_', 'payload_str_', 'payload_str_base64url_', 'signature_', 'alg_', 'kid_', 'iss_', 'sub_', 'jti_']
PBF = ['header_pb_', 'payload_pb_']
INTF = ['iat_', 'nbf_', 'exp_']
L = {}

def status(n): return L['Status.' + n]
def off(f): return L['Jwt.' + f]

def make_jwt(st, pre, alloc=True):
    """a Jwt object with arbitrary field values; returns (pointer, {field: value})"""
    r = Region(pre, size=L['sizeof.Jwt'])
    old = {}
    for f in STRF:
        old[f] = z3.String('%s.%s' % (pre, f))
        st.assume(z3.Length(old[f]) < (1 << 62))
        st.setcell(r, off(f), 32, StrV(old[f]))
    for f in PBF:
        h = old[f] = z3.Int('%s.%s' % (pre, f))
        st.assume(h > 0)
        st.setcell(r, off(f), 144, mk_struct(h))
    for f in INTF:
        v = old[f] = z3.Int('%s.%s' % (pre, f))
        st.assume(z3.And(v >= 0, v < (1 << 64)))
        st.setcell(r, off(f), 8, v)
    seq, n, vec = sym_str_vec(st, pre + '.audiences_')
    old['audiences_'] = seq
    st.setcell(r, off('audiences_'), 24, vec)
    return Ptr(r), old

def fields(ex, s, p):
    out = {}
    for f in STRF: out[f] = ex.getstr(s, p.add(off(f))).t
    for f in PBF: out[f] = zi(structh(ex, s, p.add(off(f))))
    for f in INTF: out[f] = zi(ex.load(s, p.add(off(f)), ('i', 64)))
    out['audiences_'] = lib.vec_seq(ex, s, lib.getvec(ex, s, p.add(off('audiences_')), 'string'))
    return out

class Spec:
    """what parsing the text t means"""
    def __init__(self, t):
        ch = ord('.')
        p = three(t, ch)
        cnt = self.cnt = lib.COUNT(t, zi(ch))
        shape = z3.And(cnt == 2, *[z3.Length(x) > 0 for x in p])
        hs = lib.B64(p[0]); H = JSTRUCT(hs)
        ps = lib.B64(p[1]); P = JSTRUCT(ps)
        sv = z3.StringVal
        EMP = sv('')
        def s(h, k):
            r, v = typed(h, sv(k), KSTR)
            return r, z3.If(r == OK, STRV(v), EMP)
        def u(h, k):
            r, w, v = uint_result(h, sv(k))
            return r, z3.If(r == OK, w, zi(0))
        ralg, alg = s(H, 'alg')
        rkid, kid = s(H, 'kid')
        riss, iss = s(P, 'iss'); rsub, sub = s(P, 'sub'); rjti, jti = s(P, 'jti')
        riat, iat = u(P, 'iat'); rnbf, nbf = u(P, 'nbf'); rexp, exp = u(P, 'exp')
        raud, vaud = strlist_result(P, sv('aud'))
        impl = z3.Or(*[alg == sv(a) for a in ALGS])
        W, R = zi(WRONG_TYPE), zi(OUT_OF_RANGE)
        chain = [(z3.Not(shape), 'JwtBadFormat'), (z3.Not(lib.B64OK(p[0])), 'JwtHeaderParseErrorBadBase64'),
                 (z3.Not(JOK(hs)), 'JwtHeaderParseErrorBadJson'), (ralg != OK, 'JwtHeaderBadAlg'), (z3.Not(impl), 'JwtHeaderNotImplementedAlg'),
                 (rkid == W, 'JwtHeaderBadKid'), (z3.Not(lib.B64OK(p[1])), 'JwtPayloadParseErrorBadBase64'),
                 (z3.Not(JOK(ps)), 'JwtPayloadParseErrorBadJson'), (riss == W, 'JwtPayloadParseErrorIssNotString'),
                 (rsub == W, 'JwtPayloadParseErrorSubNotString'), (riat == W, 'JwtPayloadParseErrorIatNotInteger'),
                 (riat == R, 'JwtPayloadParseErrorIatOutOfRange'), (rnbf == W, 'JwtPayloadParseErrorNbfNotInteger'),
                 (rnbf == R, 'JwtPayloadParseErrorNbfOutOfRange'), (rexp == W, 'JwtPayloadParseErrorExpNotInteger'),
                 (rexp == R, 'JwtPayloadParseErrorExpOutOfRange'), (rjti == W, 'JwtPayloadParseErrorJtiNotString'),
                 (raud == W, 'JwtPayloadParseErrorAudNotString'), (z3.Not(lib.B64OK(p[2])), 'JwtSignatureParseErrorBadBase64')]
        self.chain = chain
        r = zi(status('Ok'))
        for c, n in reversed(chain): r = z3.If(c, zi(status(n)), r)
        self.status = r
        aud = z3.If(raud != OK, SEQ_EMPTY, z3.If(KIND(vaud) == KSTR, SEQ_APP_STR(SEQ_EMPTY, STRV(vaud)), SLIST(list_of(vaud), SEQ_EMPTY)))
        self.fields = dict(jwt_=t, header_str_=hs, header_str_base64url_=p[0], header_pb_=H, payload_str_=ps, payload_str_base64url_=p[1],
                           payload_pb_=P, signature_=lib.B64(p[2]), alg_=alg, kid_=kid, iss_=iss, audiences_=aud, sub_=sub, iat_=iat, nbf_=nbf,
                           exp_=exp, jti_=jti)
    def facts(self, t): return count_facts(t, ord('.'), self.cnt) + [self.cnt >= 0]

def parse(alias):
    def body(ex, st):
        this, old = make_jwt(st, 'old')
        if alias is None:
            t = z3.String('text')
            st.assume(z3.Length(t) < (1 << 62))
            arg = place(st, Region('jwt', size=32), {0: (32, StrV(t))})
        else:
            t = old[alias]
            arg = this.add(off(alias))
        sp = Spec(t)
        ex.count_facts = count_facts
        ex.lazy(*sp.facts(t))
        # the number of dots, as a recursion over a prefix of the text (for code that counts them itself)
        dots = Fold('dots', z3.Length(t), Int, zi(0), lambda a, i: a + z3.If(z3.StrToCode(z3.SubString(t, i, 1)) == ord('.'), 1, 0), lambda s, o: None)
        dots.F = z3.Function('dots_%s' % (alias or 'text'), Int, Int)
        ex.hints = Hints([dots], [('len', z3.Length(t))])
        ex.lazy(sp.cnt == dots.all)
        olds = {str(v): v for k, v in old.items() if k != alias}
        ok = zi(status('Ok'))
        def post(ex, s, ret, ob):
            ret = zi(ret)
            F = fields(ex, s, this)
            ob(ret == sp.status, 'the status names the first failing check in the documented order, Ok if none fails', ['C09', 'C08'])
            isok = simp(ret == ok)
            if isok is not False:
                for f in F:
                    ob(z3.Implies(zb(isok), F[f] == sp.fields[f]), 'after Ok, %s is what the text says' % f, ['C08'])
            if alias is None:
                ob(s.getcell(arg.r, 0)[1].t.eq(t), 'the text is not modified', ['C10'])
            ren = [(v, z3.Const(k + "'", v.sort())) for k, v in olds.items()]
            for f in F:
                g = z3.substitute(F[f], *ren)
                if g.eq(F[f]):
                    ob(True, '%s does not depend on what the object held before' % f, ['C10'])
                else:
                    ob(F[f] == g, '%s does not depend on what the object held before' % f, ['C10'])
            g = z3.substitute(ret, *ren)
            ob(ret == g, 'the status does not depend on what the object held before', ['C10'])
            for c, n in sp.chain + [(None, 'Ok')]: ob.cover(n, ret == status(n))
        return [this, arg], post
    return body

# contract of parseFromString for its callers
def pf(f, srt): return z3.Function('parsed_' + f, Str, srt)
def parsed(t):
    d = {f: pf(f, Str)(t) for f in STRF}
    d.update({f: pf(f, Int)(t) for f in PBF + INTF})
    d['audiences_'] = pf('audiences_', SeqS)(t)
    d['jwt_'] = t
    return d
def c_parse(ex, st, a, ins):
    p, t = a[0], lib.S(ex, st, a[1])
    fields(ex, st, p)          # all members alive
    d = parsed(t)
    for f in STRF: ex.setobj(st, p.add(off(f)), StrV(d[f]))
    for f in PBF:
        st.assume(d[f] > 0)
        ex.setobj(st, p.add(off(f)), mk_struct(d[f]))
    for f in INTF: ex.store(st, p.add(off(f)), ('i', 64), d[f])
    n = SEQ_LEN(d['audiences_'])
    st.assume(n >= 0)
    ex.setobj(st, p.add(off('audiences_')), VecV('string', 32, seq=d['audiences_'], ln=n))
    return z3.Function('parsed_status', Str, Int)(t)
PARSE = 'Jwt::parseFromString(std::string const&)'
CALLEES = {PARSE: c_parse}

def assign(selfassign):
    def body(ex, st):
        rhs, old = make_jwt(st, 'rhs')
        this = rhs if selfassign else make_jwt(st, 'lhs')[0]
        want = parsed(old['jwt_'])
        def post(ex, s, ret, ob):
            F = fields(ex, s, this)
            if selfassign:
                # left untouched, a token that is what parsing its text made it stays that
                ob(z3.Or(z3.And(*[zb(same(simp(F[f]), simp(old[f]))) for f in F]), z3.And(*[F[f] == want[f] for f in F])),
                   'a token assigned to itself is what parsing its text yields, or is left untouched')
            else:
                for f in F: ob(F[f] == want[f], '%s of the copy is what parsing the source\'s text yields' % f)
            ob(isinstance(ret, Ptr) and ret.r is this.r and ret.off == 0, 'returns the assigned object')
            if not selfassign:
                G = fields(ex, s, rhs)
                for f in G: ob(same(simp(G[f]), simp(old[f])), 'the source is not modified')
            ob.cover('exit')
        return [this, rhs], post
    return body

def copyctor(ex, st):
    rhs, old = make_jwt(st, 'rhs')
    this = Ptr(Region('this', size=L['sizeof.Jwt']))
    want = parsed(old['jwt_'])
    def post(ex, s, ret, ob):
        F = fields(ex, s, this)
        for f in F: ob(F[f] == want[f], '%s of the copy is what parsing the source\'s text yields' % f)
        G = fields(ex, s, rhs)
        for f in G: ob(same(simp(G[f]), simp(old[f])), 'the source is not modified')
        ob.cover('exit')
    return [this, rhs], post

def time(ex, st):
    this, old = make_jwt(st, 'jwt')
    now, skew = z3.Ints('now skew')
    for x in (now, skew): st.assume(z3.And(x >= 0, x < (1 << 64)))
    nbf, exp = old['nbf_'], old['exp_']
    want = time_status(nbf, exp, now, skew)
    def post(ex, s, ret, ob):
        ob(zi(ret) == want, 'JwtNotYetValid iff nbf > now + skew, else JwtExpired iff exp != 0 and now > exp + skew, else Ok (over the integers)')
        G = fields(ex, s, this)
        for f in G: ob(same(simp(G[f]), simp(old[f])), 'the token is not modified')
        for n in ('Ok', 'JwtExpired', 'JwtNotYetValid'): ob.cover(n, zi(ret) == status(n))
    return [this, now, skew], post

def time_status(nbf, exp, now, skew):
    return z3.If(nbf > now + skew, zi(status('JwtNotYetValid')), z3.If(z3.And(exp != 0, now > exp + skew), zi(status('JwtExpired')), zi(status('Ok'))))

def dependent_regions(ex):
    pass

CH = [c for c in ('JwtBadFormat JwtHeaderParseErrorBadBase64 JwtHeaderParseErrorBadJson JwtHeaderBadAlg JwtHeaderNotImplementedAlg JwtHeaderBadKid '
      'JwtPayloadParseErrorBadBase64 JwtPayloadParseErrorBadJson JwtPayloadParseErrorIssNotString JwtPayloadParseErrorSubNotString '
      'JwtPayloadParseErrorIatNotInteger JwtPayloadParseErrorIatOutOfRange JwtPayloadParseErrorNbfNotInteger JwtPayloadParseErrorNbfOutOfRange '
      'JwtPayloadParseErrorExpNotInteger JwtPayloadParseErrorExpOutOfRange JwtPayloadParseErrorJtiNotString JwtPayloadParseErrorAudNotString '
      'JwtSignatureParseErrorBadBase64 Ok').split()]
TASKS = [
    Task(PARSE, ['C08', 'C09', 'C10'], parse(None), STRUCT_UTILS, cover=CH, abs_only=True),
    Task(PARSE, ['C10'], parse('jwt_'), STRUCT_UTILS, cover=('Ok',), abs_only=True),
    Task(PARSE, ['C10'], parse('payload_str_'), STRUCT_UTILS, cover=('Ok',), abs_only=True),
    Task(PARSE, ['C10'], parse('header_str_base64url_'), STRUCT_UTILS, cover=('Ok',), abs_only=True),
    Task('Jwt::operator=(Jwt const&)', ['C10'], assign(False), CALLEES, cover=('exit',)),
    Task('Jwt::operator=(Jwt const&)', ['C10'], assign(True), CALLEES, cover=('exit',)),
    Task('Jwt::Jwt(Jwt const&)', ['C10'], copyctor, CALLEES, cover=('exit',)),
    Task('Jwt::verifyTimeConstraint(unsigned long, unsigned long) const', ['C05'], time, cover=('Ok', 'JwtExpired', 'JwtNotYetValid')),
]
for t_, lbl in zip(TASKS, ('', ' [text aliases jwt_]', ' [text aliases payload_str_]', ' [text aliases header_str_base64url_]', '', ' [self assignment]', '', '')): t_.label = lbl
