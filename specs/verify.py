"""Contracts of src/verify.cc (C01-C04, C07)."""
import z3
from irv.vals import *
from irv.spec import *
from irv import lib, lib_ssl as ssl
from irv.lib_pb import *
from irv.lib_ssl import *
from . import jwt as J

TU = 'src/verify.cc'
NEED_PROBE = True
L = J.L
sv = z3.StringVal
status = J.status

# ---- keys of a set -----------------------------------------------------------------------------
KEYAT = z3.Function('key_at', SeqS, Int, Int)
KSTRF = ['hmac_key_', 'kid_', 'kty_', 'alg_', 'crv_', 'okp_key_raw_']
K = {f: z3.Function('key_' + f, Int, Str) for f in KSTRF}
KRSA, KEC, KBIO, KX = [z3.Function('key_' + n, Int, Int) for n in ('rsa_', 'ec_key_', 'bio_', 'x509_')]

def poff(f): return L['Pubkey.' + f]

def key_facts(k):
    """what every constructor of a key set guarantees (proved in specs/jwks.py): the class invariant of Jwks"""
    return [z3.Implies(K['kty_'](k) == sv('RSA'), KRSA(k) > 0), z3.Implies(K['kty_'](k) == sv('EC'), KEC(k) > 0),
            z3.Implies(K['kty_'](k) == sv('OKP'), z3.Length(K['okp_key_raw_'](k)) == 32),
            z3.Implies(z3.And(K['kty_'](k) == sv('OKP'), z3.Or(K['alg_'](k) == sv(''), K['alg_'](k) == sv('EdDSA'))), K['crv_'](k) == sv('Ed25519')),
            KRSA(k) >= 0, KEC(k) >= 0] + [z3.Length(K[f](k)) < (1 << 60) for f in KSTRF]

def elem_uptr(ex, st, term, off, kind, size):
    if off != 0 or kind != 'ptr': return None
    seq, i = term
    k = KEYAT(seq, zi(i))
    for f in key_facts(k): st.assume(f)
    return Ptr(Inst('pubkey', k))

def pubkey_field(ex, st, k, off, kind, size):
    for f in KSTRF:
        if poff(f) == off and kind == 'string': return StrV(K[f](k), ver=('key', f, str(k)))
    for f, fn in (('rsa_', KRSA), ('ec_key_', KEC), ('bio_', KBIO), ('x509_', KX)):
        if poff(f) == off and kind == 'ptr': return Opaque(fn(k))
    return None
INST_FIELDS['elem:uptr'] = elem_uptr
INST_FIELDS['pubkey'] = pubkey_field

FAM = {'RS': 'RSA', 'PS': 'RSA', 'ES': 'EC', 'HS': 'oct', 'Ed': 'OKP'}

def ver(alg, k, data, sig):
    """the signature check of key k for the algorithm, over the whole of data and sig"""
    if alg == 'EdDSA': return EDV(K['okp_key_raw_'](k), data, sig)         # and sig has 64 bytes (gate)
    md = int(alg[2:])
    if alg[:2] == 'RS': return RSAV(PKCS1, md, SALT_AUTO, md, KRSA(k), data, sig)
    if alg[:2] == 'PS': return RSAV(PSS, md, SALT_AUTO, md, KRSA(k), data, sig)
    if alg[:2] == 'HS': return sig == HMACF(md, K['hmac_key_'](k), data)
    w = (DEGREE(GROUPOF(KEC(k))) + 7) / 8
    return z3.And(z3.Length(sig) == 2 * w,
                  ECDSAV(KEC(k), DIGEST(md, data), NAT(z3.SubString(sig, 0, w)), NAT(z3.SubString(sig, w, w))))

def make_jwks(st, name='keys'):
    ks = z3.Const(name, SeqS)
    n = SEQ_LEN(ks)
    st.assume(z3.And(n >= 0, n < (1 << 58)))
    vec = VecV('uptr', 8, seq=ks, ln=n)
    return ks, n, vec, place(st, Region('jwks', size=L['sizeof.Jwks']), {L['Jwks.keys_']: (24, vec)})

def signature(alg):
    """contract for tokens with this alg; everything else is arbitrary"""
    def body(ex, st):
        this, old = J.make_jwt(st, 'jwt')
        st.setcell(this.r, J.off('alg_'), 32, StrV(sv(alg)))
        old['alg_'] = sv(alg)
        ks, n, vec, jwks = make_jwks(st)
        data = z3.Concat(old['header_str_base64url_'], sv('.'), old['payload_str_base64url_'])
        sig = old['signature_']
        fam = FAM[alg[:2]]
        idalg = lambda k: z3.And(z3.Or(old['kid_'] == sv(''), K['kid_'](k) == sv(''), K['kid_'](k) == old['kid_']),
                                 z3.Or(K['alg_'](k) == sv(''), K['alg_'](k) == sv(alg)))
        elig = lambda k: z3.And(idalg(k), K['kty_'](k) == sv(fam))
        k_ = lambda i: KEYAT(ks, zi(i))
        ed = alg == 'EdDSA'
        gate = z3.Length(sig) == 64 if ed else z3.BoolVal(True)
        accept = lambda i: z3.And(elig(k_(i)), ver(alg, k_(i), data, sig))
        auth = Exists('accepting_key', n, accept)
        comp = Exists('key_that_must_accept', n, lambda i: z3.And(CRYPTO_OK, accept(i)))
        match = Exists('kid_alg_match', n, lambda i: idalg(k_(i)))
        items = [auth, comp, match]
        if ed:
            compat = Exists('ed25519_key_and_wrong_length', n, lambda i: z3.And(elig(k_(i)), z3.Not(gate)))
            items.append(compat)
        ex.hints = Hints(items, [('N', n)])
        prim = 'C04' if fam == 'oct' else 'C03'
        def post(ex, s, ret, ob):
            ret = zi(ret)
            ok = ret == status('Ok')
            ob(z3.Implies(ok, z3.And(gate, auth.any)), 'Ok only if some compatible key of the algorithm\'s type verifies the signature over header.payload', ['C01', prim])
            ob(z3.Implies(z3.And(gate, comp.any), ok), 'Ok whenever some compatible key of the algorithm\'s type verifies the signature, whatever the other keys', ['C02', prim])
            miss = z3.And(CRYPTO_OK, z3.Not(z3.And(gate, comp.any)))
            ob(z3.Implies(z3.And(miss, z3.Not(match.any)), ret == status('JwksKidAlgMismatch')), 'JwksKidAlgMismatch when no key is compatible in id and alg', ['C02'])
            el = compat.any if ed else z3.BoolVal(False)
            if ed:
                ob(z3.Implies(z3.And(miss, match.any, el), ret == status('JwtEd25519SignatureWrongLength')), 'JwtEd25519SignatureWrongLength when the EdDSA signature is not 64 bytes', ['C02', prim])
            ob(z3.Implies(z3.And(miss, match.any, z3.Not(el)), ret == status('JwtVerificationFail')), 'JwtVerificationFail in all remaining cases', ['C02'])
            G = J.fields(ex, s, this)
            for f in G: ob(same(simp(G[f]), simp(old[f])), 'the token is not modified', ['C07'])
            c = s.getcell(jwks.r, L['Jwks.keys_'])
            ob(c is not None and c[1] is vec, 'the key set is not modified', ['C07'])
            ob.cover('accepted', ok); ob.cover('rejected', ret == status('JwtVerificationFail'))
        return [this, jwks], post
    return body

VWT = 'verifyJwtWithoutTimeChecking(Jwt const&, Jwks const&)'
SIGSTATUS = z3.Int('signature_status')
AUDSTATUS = z3.Bool('audience_allowed')

TASKS = []
for g in J.ALGS:
    t = Task(VWT, ['C01', 'C02', 'C07', 'C04' if g[:2] == 'HS' else 'C03'], signature(g), cover=('accepted', 'rejected'), abs_only=True)
    t.label = ' [alg %s]' % g
    t.cost = 60
    TASKS.append(t)

# ---- verifyJwt overloads ----------------------------------------------------------------------
SIG = z3.Int('signature_status')            # status of verifyJwtWithoutTimeChecking for this token and key set
MATCH = z3.Function('some_audience_matches', SeqS, SeqS, Bool)

def compose(audiences, now_given, skew_given):
    def body(ex, st):
        this, old = J.make_jwt(st, 'jwt')
        ks, n, vec, jwks = make_jwks(st)
        st.assume(z3.Or(*[SIG == status(x) for x in ('Ok', 'JwksKidAlgMismatch', 'JwtVerificationFail', 'JwtEd25519SignatureWrongLength')]))
        args = [this, jwks]
        if audiences:
            aseq, an, avec = sym_str_vec(st, 'audiences')
            ap = place(st, Region('audiences', size=24), {0: (24, avec)})
            args.append(ap)
        now = z3.Int('now')
        skew = z3.Int('clock_skew') if skew_given else zi(60)
        for x, g in ((now, now_given), (skew, skew_given)):
            if g:
                st.assume(z3.And(x >= 0, x < (1 << 64)))
                args.append(x)
        def untouched(ex, s):
            G = J.fields(ex, s, this)
            return all(same(simp(G[f]), simp(old[f])) for f in G) and s.getcell(jwks.r, L['Jwks.keys_'])[1] is vec
        def c_sig(ex, s, a, ins):
            if isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].r is this.r and a[1].r is jwks.r and untouched(ex, s): return SIG
            raise Unsupported('signature check of some other object')
        ex.sig = c_sig
        def post(ex, s, ret, ob):
            ret = zi(ret)
            seen = s.ghost.get('now', ())
            clock = [now] if now_given else list(seen)
            if not clock: clock = [z3.Int('some_clock')]
            def spec(t):
                r = z3.If(J.time_status(old['nbf_'], old['exp_'], t, skew) != status('Ok'), J.time_status(old['nbf_'], old['exp_'], t, skew), SIG)
                if audiences:
                    r = z3.If(z3.Or(an == 0, MATCH(aseq, old['audiences_'])), r, zi(status('JwtAudienceNotAllowed')))
                return r
            ob(z3.Implies(ret == status('Ok'), z3.Or(*[spec(t) == status('Ok') for t in clock])), 'Ok only if every applicable check passes')
            ob(z3.Or(*[ret == spec(t) for t in clock]), 'the status is that of the first failing check in the order audience, time, signature')
            ob(untouched(ex, s), 'neither the token nor the key set is modified')
            for nm in ('Ok', 'JwtExpired', 'JwtNotYetValid', 'JwtVerificationFail') + (('JwtAudienceNotAllowed',) if audiences else ()):
                ob.cover(nm, ret == status(nm))
        return args, post
    return body

def c_now(ex, st, a, ins):
    x = z3.Int('clock!%d' % fresh_id())
    st.assume(z3.And(x >= 0, x < (1 << 62)))
    st.ghost['now'] = st.ghost.get('now', ()) + (x,)
    return Agg([x, 0])
def c_tounix(ex, st, a, ins):
    t = a[0]
    if isinstance(t, Agg): t = t.v[0]
    if not is_sym(t): raise Unsupported('ToUnixSeconds')
    return t
def c_checker(ex, st, a, ins):
    v = lib.getvec(ex, st, a[1], 'string')
    g = Ghost('checker', seq=lib.vec_seq(ex, st, v)); g.size = 48
    ex.setobj(st, a[0], g)
def c_allowed(ex, st, a, ins):
    g = ex.getobj(st, a[0], 'checker')
    w = lib.vec_seq(ex, st, lib.getvec(ex, st, a[1], 'string'))
    return z3.Or(SEQ_LEN(g.f['seq']) == 0, MATCH(g.f['seq'], w))
def c_noaud(ex, st, a, ins): return SEQ_LEN(ex.getobj(st, a[0], 'checker').f['seq']) == 0
def c_timecheck(ex, st, a, ins):
    p, now, skew = a
    nbf, exp = [zi(ex.load(st, p.add(J.off(f)), ('i', 64))) for f in ('nbf_', 'exp_')]
    return J.time_status(nbf, exp, zi(now), zi(skew))
CHECKS = {
    VWT: lambda ex, st, a, ins: ex.sig(ex, st, a, ins),
    'Jwt::verifyTimeConstraint(unsigned long, unsigned long) const': c_timecheck,
    'CheckAudience::CheckAudience(std::vector<std::string> const&)': c_checker,
    'CheckAudience::areAudiencesAllowed(std::vector<std::string> const&) const': c_allowed,
    'CheckAudience::empty() const': c_noaud,
    'CheckAudience::~CheckAudience()': lambda ex, st, a, ins: st.setcell(a[0].r, a[0].off, 48, DEAD),
    'absl::Now()': c_now, 'absl::ToUnixSeconds(absl::Time)': c_tounix,
}
for fn, cfg in (('verifyJwt(Jwt const&, Jwks const&)', (0, 0, 0)), ('verifyJwt(Jwt const&, Jwks const&, unsigned long, unsigned long)', (0, 1, 1)),
                ('verifyJwt(Jwt const&, Jwks const&, std::vector<std::string> const&)', (1, 0, 0)),
                ('verifyJwt(Jwt const&, Jwks const&, std::vector<std::string> const&, unsigned long)', (1, 1, 0))):
    TASKS.append(Task(fn, ['C07'], compose(*cfg), CHECKS, cover=('Ok', 'JwtExpired', 'JwtNotYetValid', 'JwtVerificationFail'), abs_only=True))
