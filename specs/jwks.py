"""Contracts of src/jwks.cc (C13-C16)."""
import z3
from irv.vals import *
from irv.spec import *
from irv import lib
from irv.lib_pb import *
from irv.lib_ssl import *
from . import jwt as J
from . import verify as V

TU = 'src/jwks.cc'
NEED_PROBE = True
L = J.L
sv = z3.StringVal
status = J.status
EMP = sv('')
KSTRF = ['kid_', 'kty_', 'alg_', 'crv_', 'hmac_key_', 'okp_key_raw_']
APPKEY = z3.Function('append_key', SeqS, *([Str] * 6), Int, Int, SeqS)   # keys, strings of KSTRF, rsa, ec

def lit(s): return sv(s)

# ---- one key ------------------------------------------------------------------------------------
def handle_of(ex, st, p, kind):
    if isinstance(p, Opaque): return zi(p.t)
    if isinstance(p, Ptr):
        ex.region_check(st, p.r, 'use of a released key')
        c = st.getcell(p.r, 0)
        if c is not None and isinstance(c[1], Ghost) and c[1].kind == kind: return zi(c[1].f['h'])
    raise Unsupported('key material %r' % (p,))

def keyabs(ex, st, q):
    if isinstance(q, Opaque): raise Unsupported('null key in a key set')
    ex.region_check(st, q.r, 'use of a released key')
    t = tuple(ex.getstr(st, q.add(L['Pubkey.' + f])).t for f in KSTRF)
    rsa = handle_of(ex, st, ex.load(st, q.add(L['Pubkey.rsa_']), ('ptr',)), 'rsa')
    ec = handle_of(ex, st, ex.load(st, q.add(L['Pubkey.ec_key_']), ('ptr',)), 'ec')
    check_key(ex, st, t, rsa, ec)
    return t + (rsa, ec)

def check_key(ex, st, t, rsa, ec):
    """class invariant of a key set, assumed by the verification of signatures (specs/verify.py key_facts)"""
    if not getattr(ex, 'key_invariant', False): return
    kid, kty, alg, crv, hmac, okp = t
    w = '%s: every key placed in a key set ' % ex.curfn
    pr = ('C14', 'C15', 'C17')
    ex.oblige(st, z3.Implies(kty == lit('RSA'), rsa > 0), w + 'of type RSA holds an RSA key', pr)
    ex.oblige(st, z3.Implies(kty == lit('EC'), ec > 0), w + 'of type EC holds an EC key', pr)
    ex.oblige(st, z3.Implies(kty == lit('OKP'), z3.Length(okp) == 32), w + 'of type OKP holds 32 bytes', pr)
    ex.oblige(st, z3.Implies(z3.And(kty == lit('OKP'), z3.Or(alg == EMP, alg == lit('EdDSA'))), crv == lit('Ed25519')), w + 'that can serve EdDSA is on Ed25519', pr)

def seq_app_key(seq, k): return APPKEY(seq, *k)

def keys_seq(ex, st, v):
    """the abstract list of keys of a vector"""
    if v.items is None: return v.seq
    s = SEQ_EMPTY
    for r in v.items:
        s = APPKEY(s, *keyabs(ex, st, st.getcell(r, 0)[1]))
    return s

# ---- one JWK ------------------------------------------------------------------------------------
class Entry:
    """what a JWK says: status of the first problem, and the key"""
    def __init__(self, s):
        def f(n):
            r, v = typed(s, sv(n), KSTR)
            return r, STRV(v)
        M, W = zi(MISSING), zi(WRONG_TYPE)
        opt = lambda rv: z3.If(rv[0] == OK, rv[1], EMP)
        rkty, kty = f('kty')
        self.kid, self.alg = kid, alg = opt(f('kid')), opt(f('alg'))
        pre = lambda p: z3.PrefixOf(sv(p), alg)
        noalg = alg == EMP
        dec = lambda t: NAT(lib.B64(t))
        # RSA
        rn, n = f('n'); re_, e = f('e')
        ev = dec(e)
        rsaok = z3.And(lib.B64OK(n), lib.B64OK(e), z3.Or(ev == 3, ev == 65537), RSAOK(dec(n), ev))
        rsa = [(z3.Not(z3.Or(noalg, pre('RS'), pre('PS'))), 'JwksRSAKeyBadAlg'), (rn == M, 'JwksRSAKeyMissingN'), (rn == W, 'JwksRSAKeyBadN'),
               (re_ == M, 'JwksRSAKeyMissingE'), (re_ == W, 'JwksRSAKeyBadE'), (z3.Not(rsaok), 'JwksRsaParseError')]
        # EC
        rcrv, crv0 = f('crv')
        crv = z3.If(rcrv == OK, crv0, EMP)
        x, y = f('x'), f('y')
        pairs = [('ES256', 'P-256'), ('ES384', 'P-384'), ('ES512', 'P-521')]
        compat = z3.Or(*[z3.And(alg == sv(a), crv == sv(c)) for a, c in pairs])
        which = lambda a, c: z3.If(crv == EMP, z3.Or(alg == sv(a), z3.And(noalg, z3.BoolVal(c == 'P-256'))), crv == sv(c))
        sel = [which(a, c) for a, c in pairs]
        nid = z3.If(sel[0], zi(NIDS['P-256']), z3.If(sel[1], zi(NIDS['P-384']), zi(NIDS['P-521'])))
        eccrv = z3.If(sel[0], sv('P-256'), z3.If(sel[1], sv('P-384'), sv('P-521')))
        ec = [(z3.Not(z3.Or(noalg, pre('ES'))), 'JwksECKeyBadAlg'), (rcrv == W, 'JwksECKeyBadCrv'),
              (z3.And(z3.Not(noalg), crv != EMP, z3.Not(compat)), 'JwksECKeyAlgNotCompatibleWithCrv'), (z3.Not(z3.Or(*sel)), 'JwksECKeyAlgOrCrvUnsupported'),
              (x[0] == M, 'JwksECKeyMissingX'), (x[0] == W, 'JwksECKeyBadX'), (y[0] == M, 'JwksECKeyMissingY'), (y[0] == W, 'JwksECKeyBadY'),
              (z3.Not(z3.And(lib.B64OK(x[1]), lib.B64OK(y[1]))), 'JwksEcXorYBadBase64'),
              (z3.Not(ONCURVE(nid, dec(x[1]), dec(y[1]))), 'JwksEcParseError')]
        # oct
        k = f('k')
        octs = [(z3.Not(z3.Or(noalg, *[alg == sv(a) for a in ('HS256', 'HS384', 'HS512')])), 'JwksHMACKeyBadAlg'), (k[0] == M, 'JwksHMACKeyMissingK'),
               (k[0] == W, 'JwksHMACKeyBadK'), (z3.Or(z3.Not(lib.B64OK(k[1])), lib.B64(k[1]) == EMP), 'JwksOctBadBase64')]
        # OKP
        okp = [(z3.Not(z3.Or(noalg, alg == sv('EdDSA'))), 'JwksOKPKeyBadAlg'), (rcrv == M, 'JwksOKPKeyMissingCrv'), (rcrv == W, 'JwksOKPKeyBadCrv'),
               (crv != sv('Ed25519'), 'JwksOKPKeyCrvUnsupported'), (x[0] == M, 'JwksOKPKeyMissingX'), (x[0] == W, 'JwksOKPKeyBadX'),
               (z3.Not(lib.B64OK(x[1])), 'JwksOKPXBadBase64'), (z3.Length(lib.B64(x[1])) != 32, 'JwksOKPXWrongLength')]
        def first(ch):
            r = zi(status('Ok'))
            for c, nm in reversed(ch): r = z3.If(c, zi(status(nm)), r)
            return r
        is_ = {t: kty == sv(t) for t in ('EC', 'RSA', 'oct', 'OKP')}
        self.status = z3.If(rkty == M, zi(status('JwksMissingKty')), z3.If(rkty == W, zi(status('JwksBadKty')),
            z3.If(is_['EC'], first(ec), z3.If(is_['RSA'], first(rsa), z3.If(is_['oct'], first(octs), z3.If(is_['OKP'], first(okp), zi(status('JwksNotImplementedKty'))))))))
        self.chains = dict(EC=ec, RSA=rsa, oct=octs, OKP=okp)
        self.ok = self.status == status('Ok')
        crvk = z3.If(is_['EC'], eccrv, z3.If(is_['OKP'], sv('Ed25519'), EMP))
        self.key = (kid, kty, alg, crvk, z3.If(is_['oct'], lib.B64(k[1]), EMP), z3.If(is_['OKP'], lib.B64(x[1]), EMP),
                    z3.If(is_['RSA'], RSAH(dec(n), ev), zi(0)), z3.If(is_['EC'], ECH(nid, dec(x[1]), dec(y[1])), zi(0)))

PREFIX, SUFFIX = '-----BEGIN CERTIFICATE-----\n', '\n-----END CERTIFICATE-----\n'

class Text:
    """what importing the JSON text t yields"""
    def __init__(self, t):
        root = self.root = JSTRUCT(t)
        v = GET(root, sv('keys'))
        haskeys = has(root, sv('keys'))
        l = self.l = list_of(v)
        n = self.n = llen(l)
        Ok = zi(status('Ok'))
        def ent(i):
            e = LELEM(l, zi(i))
            return KIND(e) == KSTRUCT, Entry(struct_of(e))
        def valid(i):
            s, e = ent(i); return z3.And(s, e.ok)
        def keys(a, i):
            s, e = ent(i); return z3.If(z3.And(s, e.ok), APPKEY(a, *e.key), a)
        def first(i):
            s, e = ent(i); return z3.If(s, e.status, Ok)
        kval = lambda ex: (lambda s, o: keys_seq(ex, s, o) if isinstance(o, VecV) and o.ek == 'uptr' else None)
        self.any = Exists('acceptable_entry', n, valid)
        self.first = First('first_failure', n, Ok, first)
        self.mk = lambda ex: [self.any, self.first, self.keys, self.bad, self.xkeys, self.xfirst, self.xfail]
        self.keys = Fold('keys_of_entries', n, SeqS, SEQ_EMPTY, keys, None)
        # certificates
        m = self.m = mlen(root)
        txt = lambda i: STRV(MVAL(root, zi(i)))
        def notcert(i):
            i = zi(i)
            return z3.Not(z3.And(MKEY(root, i) != EMP, KIND(MVAL(root, i)) == KSTR, z3.PrefixOf(sv(PREFIX), txt(i)), z3.SuffixOf(sv(SUFFIX), txt(i))))
        def xstatus(i):
            c = X509H(txt(i))
            return z3.If(z3.Not(X509OK(txt(i))), zi(status('JwksX509ParseError')),
                         z3.If(z3.And(X509KEYOK(c), PKID(X509KEY(c)) == ID_RSA), Ok, zi(status('JwksX509GetPubkeyError'))))
        self.bad = Exists('member_that_is_no_certificate', m, notcert)
        self.xfail = Exists('failing_certificate', m, lambda i: xstatus(i) != Ok)
        self.xkeys = Fold('keys_of_certificates', m, SeqS, SEQ_EMPTY,
                          lambda a, i: APPKEY(a, MKEY(root, i), sv('RSA'), EMP, EMP, EMP, EMP, RSAOF(X509KEY(X509H(txt(i)))), zi(0)), None)
        self.xfirst = First('first_failing_certificate', m, Ok, xstatus)
        certs = z3.And(m > 0, z3.Not(self.bad.any))
        st = lambda nm: zi(status(nm))
        self.islist = z3.And(JOK(t), haskeys, KIND(v) == KLIST)
        self.certs = z3.And(JOK(t), z3.Not(haskeys), certs)
        entries = z3.If(self.any.any, Ok, z3.If(self.first.all != Ok, self.first.all, st('JwksNoValidKeys')))
        self.status = z3.If(z3.Not(JOK(t)), st('JwksParseError'),
            z3.If(haskeys, z3.If(KIND(v) == KLIST, entries, st('JwksBadKeys')), z3.If(certs, self.xfirst.all, st('JwksNoKeys'))))
        self.keyset = z3.If(self.islist, self.keys.all, z3.If(z3.And(self.certs, self.xfirst.all == Ok), self.xkeys.all, SEQ_EMPTY))

def hints_for(ex, T):
    val = lambda s, o: keys_seq(ex, s, o) if isinstance(o, VecV) and o.ek == 'uptr' else None
    T.keys.value = T.xkeys.value = val
    Ok = zi(status('Ok'))
    def extra(ex, idx, bools, objs, limits):
        out = []
        for k, g in idx.items():
            for k2, g2 in idx.items():
                if k2 == k or k2.startswith('len('): continue
                out.append(('no acceptable entry before %s => %s is the first failure' % (k, k2),
                            lambda s, p, f, g=g, g2=g2: z3.Implies(z3.Not(T.any.pre(g(s, p, f))), g2(s, p, f) == T.first.pre(g(s, p, f)))))
            out.append(('first failure stays before %s' % k, lambda s, p, f, g=g: z3.Implies(T.xfail.pre(g(s, p, f)), T.xfirst.pre(g(s, p, f)) != Ok)))
            out.append(('no failure before %s' % k, lambda s, p, f, g=g: z3.Implies(z3.Not(T.xfail.pre(g(s, p, f))), T.xfirst.pre(g(s, p, f)) == Ok)))
            out.append(('first failure at %s' % k, lambda s, p, f, g=g: T.xfirst.pre(g(s, p, f)) == Ok))
            for k2, g2 in idx.items():
                if k2.startswith('len('):
                    out.append(('%s is 0 iff no acceptable entry before %s' % (k2, k), lambda s, p, f, g=g, g2=g2: (g2(s, p, f) == 0) == z3.Not(T.any.pre(g(s, p, f)))))
        return out
    return Hints([T.any, T.first, T.keys, T.bad, T.xkeys, T.xfirst, T.xfail], [('entries', T.n), ('members', T.m)], extra)

# ---- functions ----------------------------------------------------------------------------------
def text_arg(st, name):
    t = z3.String(name)
    st.assume(z3.Length(t) < (1 << 31))
    return t, place(st, Region(name, size=32), {0: (32, StrV(t))})

def common(ex):
    ex.keyabs, ex.seq_app_key = keyabs, seq_app_key
    ex.key_invariant = True

def result(ex, s, out):
    """the key set a unique_ptr<Jwks> holds"""
    p = ex.load(s, out, ('ptr',))
    if not isinstance(p, Ptr): raise Unsupported('result is not a key set')
    ex.region_check(s, p.r, 'use of a released key set')
    stt = zi(ex.load(s, p.add(L['Jwks.status_']), ('i', 32)))
    v = lib.getvec(ex, s, p.add(L['Jwks.keys_']), 'uptr')
    return p, stt, v

def transfer(ex, s, p, v):
    """the caller now owns the key set and all it holds"""
    lib.absorb(ex, s, p)
    for r in v.items or []:
        q = s.getcell(r, 0)[1]
        if isinstance(q, Ptr):
            lib.absorb(ex, s, q)

def consistent(ex, s, p, stt, v, ob, props):
    ob(z3.Implies(stt != status('Ok'), zi(v.ln) == 0), 'a key set with a failure status has no keys', props)
    ob(z3.Implies(stt == status('Ok'), zi(v.ln) > 0), 'a key set with status Ok has a key', props)

def from_jwks(crypto_ok):
    def body(ex, st):
        common(ex)
        t, arg = text_arg(st, 'text')
        out = Ptr(Region('result', size=8))
        T = Text(t)
        ex.hints = hints_for(ex, T)
        if crypto_ok: st.assume(CRYPTO_OK)
        def post(ex, s, ret, ob):
            p, stt, v = result(ex, s, out)
            if crypto_ok:
                ks = keys_seq(ex, s, v)
                for w, c, props in (('text that is no JSON object', z3.Not(JOK(t)), ['C13']), ('a list of entries', T.islist, ['C13', 'C14']), ('certificates', T.certs, ['C15']),
                             ('anything else', z3.And(JOK(t), z3.Not(T.islist), z3.Not(T.certs)), ['C13', 'C15'])):
                    if ex.feasible(s, c):
                        ob(z3.Implies(c, stt == T.status), 'from %s: the status is Ok or names the first failure' % w, props)
                        ob(z3.Implies(c, ks == T.keyset), 'from %s: exactly the keys the text declares, in order' % w, props)
                for nm, c in (('no JSON', z3.Not(JOK(t))), ('keys from entries', z3.And(T.islist, stt == status('Ok'))), ('no entry acceptable', z3.And(T.islist, stt != status('Ok'))),
                              ('keys from certificates', z3.And(T.certs, stt == status('Ok'))), ('failing certificate', z3.And(T.certs, stt != status('Ok'))), ('no keys', stt == status('JwksNoKeys'))):
                    ob.cover(nm, c)
            consistent(ex, s, p, stt, v, ob, ['C13', 'C15'])
            ob(s.getcell(arg.r, 0)[1].t.eq(t), 'the text is not modified', ['C13'])
            transfer(ex, s, p, v)
        return [out, arg, L['Type.JWKS']], post
    return body

class Pem:
    """what importing the PEM text t yields"""
    def __init__(self, t):
        k = PEMKEY(t)
        i = PKID(k)
        known = z3.Or(i == ID_RSA, i == ID_EC, i == ID_ED)
        self.ok = z3.And(PEMOK(t), known)
        self.status = z3.If(z3.Not(PEMOK(t)), zi(status('JwksPemBadBase64')), z3.If(known, zi(status('Ok')), zi(status('JwksPemNotImplementedKty'))))
        self.kty = z3.If(i == ID_RSA, sv('RSA'), z3.If(i == ID_EC, sv('EC'), sv('OKP')))
        self.crv = z3.If(i == ID_ED, sv('Ed25519'), EMP)
        self.okp = z3.If(i == ID_ED, RAWPUB(k), EMP)
        self.rsa = z3.If(i == ID_RSA, RSAOF(k), zi(0))
        self.ec = z3.If(i == ID_EC, ECOF(k), zi(0))
        self.k, self.id = k, i
    def with_(self, kid, alg):
        crv = z3.If(alg == sv('ES256'), sv('P-256'), z3.If(alg == sv('ES384'), sv('P-384'), z3.If(alg == sv('ES512'), sv('P-521'), self.crv)))
        return (kid, self.kty, alg, crv, EMP, self.okp, self.rsa, self.ec)

def from_pem(full, crypto_ok):
    def body(ex, st):
        common(ex)
        t, arg = text_arg(st, 'pem')
        out = Ptr(Region('result', size=8))
        P = Pem(t)
        kid, alg = EMP, EMP
        args = [out, arg, L['Type.PEM']]
        if full:
            kid, kp = text_arg(st, 'kid')
            alg, ap = text_arg(st, 'alg')
            args = [out, arg, kp, ap]
        if crypto_ok: st.assume(CRYPTO_OK)
        def post(ex, s, ret, ob):
            p, stt, v = result(ex, s, out)
            if crypto_ok:
                ob(stt == P.status, 'the status is Ok, JwksPemBadBase64 or JwksPemNotImplementedKty as the text says')
                ob(keys_seq(ex, s, v) == z3.If(P.ok, APPKEY(SEQ_EMPTY, *P.with_(kid, alg)), SEQ_EMPTY), 'exactly the one encoded key, with the given kid and alg and the curve they imply; no key on failure')
                for nm, c in (('RSA', P.id == ID_RSA), ('EC', P.id == ID_EC), ('Ed25519', P.id == ID_ED)): ob.cover(nm, z3.And(c, stt == status('Ok')))
                for nm in ('JwksPemBadBase64', 'JwksPemNotImplementedKty'): ob.cover(nm, stt == status(nm))
            consistent(ex, s, p, stt, v, ob, ['C15'])
            ob(s.getcell(arg.r, 0)[1].t.eq(t), 'the text is not modified')
            transfer(ex, s, p, v)
        return args, post
    return body

def add_key(crypto_ok):
    def body(ex, st):
        common(ex)
        t, arg = text_arg(st, 'pem'); kid, kp = text_arg(st, 'kid'); alg, ap = text_arg(st, 'alg')
        P = Pem(t)
        ks, n, vec, this = V.make_jwks(st)
        s0 = z3.Int('own_status')
        st.setcell(this.r, L['Jwks.status_'], 4, s0)
        st.assume(z3.And(s0 >= 0, s0 < (1 << 31)))
        if crypto_ok: st.assume(CRYPTO_OK)
        def post(ex, s, ret, ob):
            ret = zi(ret)
            v = lib.getvec(ex, s, this.add(L['Jwks.keys_']), 'uptr')
            now = keys_seq(ex, s, v)
            grown = APPKEY(ks, *P.with_(kid, alg))
            if crypto_ok:
                ob(ret == P.status, 'the status says whether the text is a key')
            ob(z3.Implies(ret == status('Ok'), now == grown), 'on Ok exactly the encoded key, with the given kid and alg, follows the existing keys')
            ob(z3.Implies(ret != status('Ok'), now == ks), 'on failure the key set is as it was')
            ob(zi(ex.load(s, this.add(L['Jwks.status_']), ('i', 32))) == s0, 'the status of the key set is not changed')
            ob.cover('added', ret == status('Ok')); ob.cover('refused', ret != status('Ok'))
        return [this, arg, kp, ap], post
    return body

def task(*a, label='', cost=10, **kw):
    t = Task(*a, abs_only=True, **kw)
    t.label, t.cost = label, cost
    return t
CF = 'Jwks::createFrom(std::string const&, Jwks::Type)'
CP = 'Jwks::createFromPem(std::string const&, std::string const&, std::string const&)'
AK = 'Jwks::addKeyFromPem(std::string const&, std::string const&, std::string const&)'
FAIL = ' [resources may run out]'
TASKS = [
    task(CF, ['C13', 'C14', 'C15'], from_jwks(True), contracts=STRUCT_UTILS, label=' [JSON]', cost=100,
         cover=('no JSON', 'keys from entries', 'no entry acceptable', 'keys from certificates', 'failing certificate', 'no keys')),
    task(CF, ['C13', 'C14', 'C15'], from_jwks(False), contracts=STRUCT_UTILS, label=' [JSON]' + FAIL, cost=100),
    task(CF, ['C15'], from_pem(False, True), label=' [PEM]', cover=('RSA', 'EC', 'Ed25519', 'JwksPemBadBase64', 'JwksPemNotImplementedKty')),
    task(CF, ['C15'], from_pem(False, False), label=' [PEM]' + FAIL),
    task(CP, ['C15'], from_pem(True, True), cover=('RSA', 'EC', 'Ed25519', 'JwksPemBadBase64', 'JwksPemNotImplementedKty')),
    task(CP, ['C15'], from_pem(True, False), label=FAIL),
    task(AK, ['C16'], add_key(True), cover=('added', 'refused')),
    task(AK, ['C16'], add_key(False), label=FAIL),
]
