"""Assumed contracts of BoringSSL.  Objects are heap regions holding one Ghost; a RSA/EC key handed in by the caller is
an Opaque handle.  CRYPTO_OK: no call fails for lack of resources.  A call that has to succeed returns success if
CRYPTO_OK, else may fail; a verification returns success only if the (uninterpreted) primitive accepts, and does return
success if it accepts and CRYPTO_OK."""
import z3
from .vals import *
from .lib import c, rx, release

CRYPTO_OK = z3.Bool('CRYPTO_OK')
F = z3.Function
PKCS1, PSS = 1, 6
SALT_AUTO = -2
RSAV = F('RSA_verifies', Int, Int, Int, Int, Int, Str, Str, Bool)     # padding, mgf1 md, salt length, md, key, data, signature
DIGEST = F('digest', Int, Str, Str)
HMACF = F('hmac', Int, Str, Str, Str)                            # md, key, data
NAT = F('nat_be', Str, Int)                                      # big-endian number of a byte string
ECDSAV = F('ECDSA_verifies', Int, Str, Int, Int, Bool)           # key, digest, r, s
EDV = F('Ed25519_verifies', Str, Str, Str, Bool)                 # key, data, signature
GROUPOF = F('ec_group_of', Int, Int)                             # group of an EC_KEY handle
DEGREE = F('ec_degree', Int, Int)                                # of a group handle
PKTYPE = F('pkey_type', Int, Int)

MDS = {'EVP_sha1': 160, 'EVP_sha224': 224, 'EVP_sha256': 256, 'EVP_sha384': 384, 'EVP_sha512': 512, 'EVP_md5': 128}
for n_, v_ in MDS.items():
    TABLE_FN = c(n_)(lambda ex, st, a, ins, v_=v_: Opaque(v_))

def mdlen(md):
    if not is_sym(md): return md // 8 if md in MDS.values() else 0
    return md / 8
def mdof(ex, st, p):
    if not isinstance(p, Opaque): raise Unsupported('digest %r' % (p,))
    ex.ub(st, zi(p.t) != 0, 'null digest given to a crypto primitive')
    return p.t

def new(st, cls, **kw):
    r = Region(cls, size=64, heap=True)
    st.setcell(r, 0, 8, Ghost(cls, **kw))
    st.owned[r.id] = r
    return Ptr(r)

def obj(ex, st, p, kind):
    if isinstance(p, Opaque):
        ex.ub(st, zi(p.t) != 0, 'null object given to a crypto primitive')
        raise Unsupported('%s behind an opaque pointer' % kind)
    if not isinstance(p, Ptr) or p.sym: raise Unsupported('%s at %r' % (kind, p))
    ex.region_check(st, p.r, 'use of a released crypto object')
    cc = st.getcell(p.r, p.off)
    if cc is None or not isinstance(cc[1], Ghost) or cc[1].kind != kind: raise Unsupported('%s expected at %r' % (kind, p))
    return cc[1]
def upd(st, p, g): st.setcell(p.r, p.off, 8, g)

def fork(ex, st, *alts):
    """alts: (condition or None, function(state) -> return value)"""
    out = []
    for cond, fn in alts:
        s = st.copy()
        if cond is not None:
            s.assume(cond)
            if not ex.feasible(s): continue
        out.append((s, fn(s)))
    return out

def maybe(ex, st, ok, bad=lambda s: 0, bad_cond=None):
    """succeeds unless resources run out"""
    return fork(ex, st, (None, ok), (z3.Not(CRYPTO_OK) if bad_cond is None else bad_cond, bad))

def isnull(ex, st, p):
    """python bool if known, else z3"""
    if isinstance(p, Opaque): return simp(zi(p.t) == 0)
    return False

def keyterm(ex, st, p, kind):
    """integer handle of a RSA / EC_KEY"""
    if isinstance(p, Opaque):
        ex.ub(st, zi(p.t) != 0, 'null key given to a crypto primitive')
        return zi(p.t)
    g = obj(ex, st, p, kind)
    return g.f['h']

# ---- EVP_PKEY ------------------------------------------------------------------
@c('EVP_PKEY_new')
def _(ex, st, a, ins): return new(st, 'pkey', ty='none', h=zi(0))
@c('EVP_MD_CTX_create', 'EVP_MD_CTX_new')
def _(ex, st, a, ins): return new(st, 'mdctx', mode='none')
@c('EVP_PKEY_set1_RSA')
def _(ex, st, a, ins):
    obj(ex, st, a[0], 'pkey')
    h = keyterm(ex, st, a[1], 'rsa')
    def ok(s): upd(s, a[0], Ghost('pkey', ty='rsa', h=h)); return 1
    return maybe(ex, st, ok)

def free(kind):
    def f(ex, st, a, ins):
        p = a[0]
        if isinstance(p, Opaque):
            if not is_sym(p.t) and p.t == 0: return None
            release(ex, st, p, kind); return None
        if p.r.id in st.freed: ex.ub(st, False, 'object released twice')
        cc = st.getcell(p.r, 0)
        if isinstance(cc, tuple) and isinstance(cc[1], Ghost):
            for k, v in cc[1].f.items():
                if k.startswith('own_') and isinstance(v, Ptr):
                    release_obj(ex, st, v)
        release_refs(ex, st, p, kind)
    return f
def release_refs(ex, st, p, kind):
    n = st.ghost.get(('refs', p.r.id), 1)
    if n > 1: st.ghost[('refs', p.r.id)] = n - 1; return
    release(ex, st, p, kind)
def release_obj(ex, st, p):
    st.ghost.pop(('xfer', p.r.id), None)
    st.owned[p.r.id] = p.r
    release(ex, st, p, 'member')
for n_, k_ in dict(EVP_PKEY_free='pkey', EVP_MD_CTX_free='mdctx', EVP_MD_CTX_destroy='mdctx', BN_free='bn', BN_clear_free='bn', RSA_free='rsa', EC_KEY_free='ec',
                   BIO_free='bio', X509_free='x509', EC_POINT_free='ecpoint', EC_GROUP_free='ecgroup').items():
    c(n_)(free(k_))
@c('ECDSA_SIG_free')
def _(ex, st, a, ins):
    p = a[0]
    if isinstance(p, Opaque): return None
    ex.region_check(st, p.r, 'object released twice')
    for o in (0, 8):
        q = st.getcell(p.r, o)[1]
        if isinstance(q, Ptr): release(ex, st, q, 'bn')
    release(ex, st, p, 'ecdsasig')

# ---- digests --------------------------------------------------------------------
@c('EVP_DigestInit', 'EVP_DigestInit_ex')
def _(ex, st, a, ins):
    obj(ex, st, a[0], 'mdctx'); md = mdof(ex, st, a[1])
    def ok(s): upd(s, a[0], Ghost('mdctx', mode='digest', md=md, data=z3.StringVal(''))); return 1
    return maybe(ex, st, ok)
@c('EVP_DigestUpdate')
def _(ex, st, a, ins):
    g = obj(ex, st, a[0], 'mdctx')
    if g.f['mode'] != 'digest': raise Unsupported('EVP_DigestUpdate without EVP_DigestInit')
    t = ex.bytes_of(st, a[1], a[2])
    d = g.f['data']
    t = zs(t)
    n = t if d.eq(z3.StringVal('')) else z3.Concat(d, t)
    def ok(s): upd(s, a[0], g.with_(data=n)); return 1
    return maybe(ex, st, ok)

def digest_out(ex, st, term, n, outp, lenp):
    st.assume(z3.Length(term) == zi(n))
    ex.buf_write(st, outp, term, n)
    if not (isinstance(lenp, Opaque) and not is_sym(lenp.t) and lenp.t == 0): ex.store(st, lenp, ('i', 32), n)

@c('EVP_DigestFinal', 'EVP_DigestFinal_ex')
def _(ex, st, a, ins):
    g = obj(ex, st, a[0], 'mdctx')
    if g.f['mode'] != 'digest': raise Unsupported('EVP_DigestFinal without EVP_DigestInit')
    md = g.f['md']
    def ok(s):
        digest_out(ex, s, DIGEST(zi(md), g.f['data']), mdlen(md), a[1], a[2])
        upd(s, a[0], Ghost('mdctx', mode='none'))
        return 1
    return maybe(ex, st, ok)
@c('EVP_Digest')
def _(ex, st, a, ins):
    md = mdof(ex, st, a[4])
    t = ex.bytes_of(st, a[0], a[1])
    def ok(s): digest_out(ex, s, DIGEST(zi(md), zs(t)), mdlen(md), a[2], a[3]); return 1
    return maybe(ex, st, ok)
def sha(bits):
    def f(ex, st, a, ins):
        t = ex.bytes_of(st, a[0], a[1])
        digest_out(ex, st, DIGEST(bits, zs(t)), bits // 8, a[2], NULL)
        return a[2]
    return f
for n_, v_ in dict(SHA1=160, SHA224=224, SHA256=256, SHA384=384, SHA512=512).items(): c(n_)(sha(v_))
@c('EVP_MD_size')
def _(ex, st, a, ins): return simp(zi(mdlen(mdof(ex, st, a[0]))))

@c('HMAC')
def _(ex, st, a, ins):
    md = mdof(ex, st, a[0])
    k = ex.bytes_of(st, a[1], a[2])
    t = ex.bytes_of(st, a[3], a[4])
    def ok(s): digest_out(ex, s, HMACF(zi(md), zs(k), zs(t)), mdlen(md), a[5], a[6]); return a[5]
    return maybe(ex, st, ok, lambda s: NULL)

# ---- RSA ----------------------------------------------------------------------------
@c('EVP_DigestVerifyInit')
def _(ex, st, a, ins):
    obj(ex, st, a[0], 'mdctx')
    pk = obj(ex, st, a[4], 'pkey')
    md = mdof(ex, st, a[2])
    def ok(s):
        upd(s, a[0], Ghost('mdctx', mode='verify', md=md, h=pk.f['h'], pad=PKCS1, mgf=md, salt=SALT_AUTO, data=z3.StringVal('')))
        if not isnull(ex, s, a[1]):
            q = Region('pctx', size=8)
            s.setcell(q, 0, 8, Ghost('pctx', ctx=a[0]))
            ex.store(s, a[1], ('ptr',), Ptr(q))
        return 1
    if pk.f['ty'] != 'rsa': return 0
    return maybe(ex, st, ok)
def vctx(ex, st, p):
    g = obj(ex, st, p, 'mdctx')
    if g.f['mode'] != 'verify': raise Unsupported('verification without EVP_DigestVerifyInit')
    return g
@c('EVP_PKEY_CTX_set_rsa_padding')
def _(ex, st, a, ins):
    m = obj(ex, st, a[0], 'pctx').f['ctx']
    g = vctx(ex, st, m)
    def ok(s): upd(s, m, g.with_(pad=a[1])); return 1
    return maybe(ex, st, ok)
@c('EVP_PKEY_CTX_set_rsa_mgf1_md')
def _(ex, st, a, ins):
    m = obj(ex, st, a[0], 'pctx').f['ctx']
    g = vctx(ex, st, m)
    md = mdof(ex, st, a[1])
    def ok(s): upd(s, m, g.with_(mgf=md)); return 1
    if not is_sym(g.f['pad']) and g.f['pad'] != PSS: return 0
    return maybe(ex, st, ok)
@c('EVP_PKEY_CTX_set_rsa_pss_saltlen')
def _(ex, st, a, ins):
    m = obj(ex, st, a[0], 'pctx').f['ctx']
    g = vctx(ex, st, m)
    def ok(s): upd(s, m, g.with_(salt=ex.signed(a[1], 32))); return 1
    return maybe(ex, st, ok)
@c('EVP_DigestVerifyUpdate')
def _(ex, st, a, ins):
    g = vctx(ex, st, a[0])
    t = zs(ex.bytes_of(st, a[1], a[2]))
    d = g.f['data']
    n = t if d.eq(z3.StringVal('')) else z3.Concat(d, t)
    def ok(s): upd(s, a[0], g.with_(data=n)); return 1
    return maybe(ex, st, ok)

def verdict(ex, st, v, neg=0):
    return fork(ex, st, (v, lambda s: 1), (z3.Not(z3.And(CRYPTO_OK, v)), lambda s: neg))
def rsa_verdict(ex, st, g, data, sig):
    pad = g.f['pad']
    mgf = g.f['mgf'] if not is_sym(pad) and pad == PSS else g.f['md']
    salt = g.f['salt'] if not is_sym(pad) and pad == PSS else SALT_AUTO
    return verdict(ex, st, RSAV(zi(pad), zi(mgf), zi(salt), zi(g.f['md']), zi(g.f['h']), data, sig))
@c('EVP_DigestVerifyFinal')
def _(ex, st, a, ins):
    g = vctx(ex, st, a[0])
    return rsa_verdict(ex, st, g, g.f['data'], zs(ex.bytes_of(st, a[1], a[2])))
@c('EVP_DigestVerify')
def _(ex, st, a, ins):
    g = vctx(ex, st, a[0])
    t = zs(ex.bytes_of(st, a[3], a[4]))
    d = g.f['data']
    data = t if d.eq(z3.StringVal('')) else z3.Concat(d, t)
    return rsa_verdict(ex, st, g, data, zs(ex.bytes_of(st, a[1], a[2])))

# ---- ECDSA ----------------------------------------------------------------------------
@c('EC_KEY_get0_group')
def _(ex, st, a, ins):
    h = keyterm(ex, st, a[0], 'ec')
    g = GROUPOF(h)
    st.assume(g > 0)
    return Opaque(simp(g))
@c('EC_GROUP_get_degree')
def _(ex, st, a, ins):
    if not isinstance(a[0], Opaque): raise Unsupported('EC group')
    ex.ub(st, zi(a[0].t) != 0, 'null group given to a crypto primitive')
    d = DEGREE(zi(a[0].t))
    st.assume(z3.And(d > 0, d <= 521))
    return d
@c('ECDSA_SIG_new')
def _(ex, st, a, ins):
    def ok(s):
        r = Region('ecdsasig', size=16, heap=True)
        s.owned[r.id] = r
        for o in (0, 8):
            b = new(s, 'bn', val=zi(0))
            s.setcell(r, o, 8, b)
        return Ptr(r)
    return maybe(ex, st, ok, lambda s: NULL)
@c('BN_new')
def _(ex, st, a, ins): return maybe(ex, st, lambda s: new(s, 'bn', val=zi(0)), lambda s: NULL)
@c('BN_bin2bn')
def _(ex, st, a, ins):
    t = zs(ex.bytes_of(st, a[0], a[1]))
    v = NAT(t)
    st.assume(v >= 0)
    if isnull(ex, st, a[2]) is True:
        return maybe(ex, st, lambda s: new(s, 'bn', val=v), lambda s: NULL)
    obj(ex, st, a[2], 'bn')
    def ok(s): upd(s, a[2], Ghost('bn', val=v)); return a[2]
    return maybe(ex, st, ok, lambda s: NULL)
@c('ECDSA_do_verify')
def _(ex, st, a, ins):
    d = zs(ex.bytes_of(st, a[0], a[1]))
    q = [obj(ex, st, ex.load(st, a[2].add(o), ('ptr',)), 'bn').f['val'] for o in (0, 8)]
    h = keyterm(ex, st, a[3], 'ec')
    return verdict(ex, st, ECDSAV(h, d, zi(q[0]), zi(q[1])))
@c('ECDSA_SIG_set0')
def _(ex, st, a, ins):
    if isnull(ex, st, a[1]) is True or isnull(ex, st, a[2]) is True: return 0
    for o, b in ((0, a[1]), (8, a[2])):
        old = st.getcell(a[0].r, o)[1]
        release(ex, st, old, 'bn')
        st.setcell(a[0].r, o, 8, b)
    return 1
# ---- Ed25519 ---------------------------------------------------------------------------
@c('ED25519_verify')
def _(ex, st, a, ins):
    d = zs(ex.bytes_of(st, a[0], a[1]))
    s_ = zs(ex.bytes_of(st, a[2], 64))
    k = zs(ex.bytes_of(st, a[3], 32))
    return verdict(ex, st, EDV(k, d, s_))

@c('ERR_clear_error')
def _(ex, st, a, ins): return None
@c('ERR_get_error', 'ERR_peek_error')
def _(ex, st, a, ins):
    x = z3.Int('err!%d' % fresh_id()); st.assume(z3.And(x >= 0, x < (1 << 32))); return x

@c('CRYPTO_memcmp', 'memcmp')
def _(ex, st, a, ins):
    n = a[2]
    x, y = zs(ex.bytes_of(st, a[0], n)), zs(ex.bytes_of(st, a[1], n))
    st.assume(z3.Length(x) == zi(n)); st.assume(z3.Length(y) == zi(n))
    r = z3.Int('cmp!%d' % fresh_id())
    st.assume(z3.And((r == 0) == (x == y), r >= 0, r < (1 << 32)))
    return r

# ---- importing keys -----------------------------------------------------------------------
RSAH = F('rsa_key', Int, Int, Int)             # handle of the RSA key with this modulus and exponent
RSAOK = F('rsa_key_valid', Int, Int, Bool)
ECH = F('ec_key', Int, Int, Int, Int)          # handle of the EC key of this curve and point
ONCURVE = F('ec_point_valid', Int, Int, Int, Bool)
PEMOK = F('pem_pubkey_ok', Str, Bool)
PEMKEY = F('pem_pubkey', Str, Int)
X509OK = F('pem_x509_ok', Str, Bool)
X509H = F('pem_x509', Str, Int)
X509KEYOK = F('x509_pubkey_ok', Int, Bool)
X509KEY = F('x509_pubkey', Int, Int)
PKID = F('pkey_id', Int, Int)
RSAOF = F('rsa_of', Int, Int)
ECOF = F('ec_of', Int, Int)
RAWPUB = F('raw_public_key', Int, Str)
ID_RSA, ID_EC, ID_ED = 6, 408, 949
NIDS = {'P-224': 713, 'P-256': 415, 'P-384': 715, 'P-521': 716}

def bnval(ex, st, p): return zi(obj(ex, st, p, 'bn').f['val'])

@c('BN_cmp_word')
def _(ex, st, a, ins):
    v, w = bnval(ex, st, a[0]), zi(a[1])
    return simp(z3.If(v == w, zi(0), z3.If(v < w, zi((1 << 32) - 1), zi(1))))
@c('BN_is_word')
def _(ex, st, a, ins): return simp(b2i(bnval(ex, st, a[0]) == zi(a[1])))
@c('BN_num_bits')
def _(ex, st, a, ins):
    x = F('num_bits', Int, Int)(bnval(ex, st, a[0])); st.assume(z3.And(x >= 0, x < (1 << 31))); return x
@c('BN_is_zero')
def _(ex, st, a, ins): return simp(b2i(bnval(ex, st, a[0]) == 0))
@c('BN_is_odd')
def _(ex, st, a, ins): return simp(bnval(ex, st, a[0]) % 2)

@c('RSA_new')
def _(ex, st, a, ins): return maybe(ex, st, lambda s: new(s, 'rsa', h=zi(0), n=None, e=None), lambda s: NULL)

def take(ex, s, p):
    """ownership of the object at p moves into another object"""
    if p.r.id in s.freed: ex.ub(s, False, 'use of a released crypto object')
    if s.ghost.get(('xfer', p.r.id)): ex.ub(s, False, 'ownership of an object given away twice')
    s.owned.pop(p.r.id, None)
    s.ghost[('xfer', p.r.id)] = True

@c('RSA_set0_key')
def _(ex, st, a, ins):
    g = obj(ex, st, a[0], 'rsa')
    if isnull(ex, st, a[1]) is True or isnull(ex, st, a[2]) is True: return 0
    n, e = bnval(ex, st, a[1]), bnval(ex, st, a[2])
    def ok(s):
        for q in (a[1], a[2], a[3]):
            if isinstance(q, Ptr): take(ex, s, q)
        s.assume(RSAH(n, e) > 0)
        upd(s, a[0], Ghost('rsa', h=RSAH(n, e), n=n, e=e, own_n=a[1], own_e=a[2]))
        return 1
    return maybe(ex, st, ok)
@c('RSA_new_public_key')
def _(ex, st, a, ins):
    n, e = bnval(ex, st, a[0]), bnval(ex, st, a[1])
    return fork(ex, st, (RSAOK(n, e), lambda s: new(s, 'rsa', h=RSAH(n, e), n=n, e=e)), (z3.Not(z3.And(CRYPTO_OK, RSAOK(n, e))), lambda s: NULL))
@c('RSA_check_key')
def _(ex, st, a, ins):
    g = obj(ex, st, a[0], 'rsa')
    if g.f.get('n') is None: return 0
    return verdict(ex, st, RSAOK(g.f['n'], g.f['e']))
@c('RSA_size')
def _(ex, st, a, ins):
    x = F('rsa_size', Int, Int)(keyterm(ex, st, a[0], 'rsa')); st.assume(z3.And(x > 0, x < 4096)); return x
@c('RSA_bits')
def _(ex, st, a, ins):
    x = F('rsa_bits', Int, Int)(keyterm(ex, st, a[0], 'rsa')); st.assume(z3.And(x > 0, x < 32768)); return x

@c('EC_KEY_new_by_curve_name')
def _(ex, st, a, ins):
    nid = simp(a[0])
    alts = []
    known = z3.Or(*[zi(nid) == v for v in NIDS.values()])
    return fork(ex, st, (known, lambda s: new(s, 'ec', nid=nid, h=zi(0))), (z3.Not(z3.And(known, CRYPTO_OK)), lambda s: NULL))
@c('EC_KEY_set_public_key_affine_coordinates')
def _(ex, st, a, ins):
    g = obj(ex, st, a[0], 'ec')
    if isnull(ex, st, a[1]) is True or isnull(ex, st, a[2]) is True: return 0
    x, y = bnval(ex, st, a[1]), bnval(ex, st, a[2])
    v = ONCURVE(zi(g.f['nid']), x, y)
    def ok(s):
        h = ECH(zi(g.f['nid']), x, y)
        s.assume(h > 0)
        upd(s, a[0], Ghost('ec', nid=g.f['nid'], h=h)); return 1
    return fork(ex, st, (v, ok), (z3.Not(z3.And(CRYPTO_OK, v)), lambda s: 0))
@c('EC_KEY_check_key')
def _(ex, st, a, ins):
    h = keyterm(ex, st, a[0], 'ec')
    return verdict(ex, st, F('ec_check', Int, Bool)(h))

@c('BIO_new_mem_buf')
def _(ex, st, a, ins):
    n = a[1]
    t = zs(ex.bytes_of(st, a[0], n))
    return maybe(ex, st, lambda s: new(s, 'bio', text=t, src=a[0]), lambda s: NULL)
@c('BIO_s_mem')
def _(ex, st, a, ins): return Opaque(77)
@c('BIO_new')
def _(ex, st, a, ins): return maybe(ex, st, lambda s: new(s, 'bio', text=z3.StringVal('')), lambda s: NULL)
@c('BIO_write')
def _(ex, st, a, ins):
    if isnull(ex, st, a[0]) is True: return (1 << 32) - 2
    g = obj(ex, st, a[0], 'bio')
    t = zs(ex.bytes_of(st, a[1], a[2]))
    n = z3.Length(t)
    def ok(s):
        o = g.f['text']
        upd(s, a[0], g.with_(text=t if o.eq(z3.StringVal('')) else z3.Concat(o, t)))
        return simp(zi(a[2]))
    def bad(s):
        x = z3.Int('wr!%d' % fresh_id()); s.assume(z3.Or(x == 0, z3.And(x >= (1 << 31), x < (1 << 32)))); return x
    return maybe(ex, st, ok, bad)
@c('BIO_puts')
def _(ex, st, a, ins): raise Unsupported('BIO_puts')

def drained(ex, st, p, g): upd(st, p, g.with_(text=z3.String('rest!%d' % fresh_id())))
@c('PEM_read_bio_PUBKEY')
def _(ex, st, a, ins):
    if isnull(ex, st, a[0]) is True: return NULL
    g = obj(ex, st, a[0], 'bio')
    t = g.f['text']
    def ok(s): drained(ex, s, a[0], g); s.assume(PEMKEY(t) > 0); return new(s, 'pkey', ty='pub', h=PEMKEY(t))
    def bad(s): drained(ex, s, a[0], g); return NULL
    return fork(ex, st, (PEMOK(t), ok), (z3.Not(z3.And(CRYPTO_OK, PEMOK(t))), bad))
@c('PEM_read_bio_X509')
def _(ex, st, a, ins):
    if isnull(ex, st, a[0]) is True: return NULL
    g = obj(ex, st, a[0], 'bio')
    t = g.f['text']
    def ok(s): drained(ex, s, a[0], g); s.assume(X509H(t) > 0); return new(s, 'x509', h=X509H(t))
    def bad(s): drained(ex, s, a[0], g); return NULL
    return fork(ex, st, (X509OK(t), ok), (z3.Not(z3.And(CRYPTO_OK, X509OK(t))), bad))
@c('X509_get_pubkey')
def _(ex, st, a, ins):
    if isnull(ex, st, a[0]) is True: return NULL
    h = obj(ex, st, a[0], 'x509').f['h']
    def ok(s): s.assume(X509KEY(h) > 0); return new(s, 'pkey', ty='pub', h=X509KEY(h))
    return fork(ex, st, (X509KEYOK(h), ok), (z3.Not(z3.And(CRYPTO_OK, X509KEYOK(h))), lambda s: NULL))
@c('EVP_PKEY_id')
def _(ex, st, a, ins):
    g = obj(ex, st, a[0], 'pkey')
    if g.f['ty'] != 'pub': return 0 if g.f['ty'] == 'none' else ID_RSA
    x = PKID(g.f['h'])
    st.assume(z3.And(x >= 0, x < (1 << 31)))
    return x
@c('EVP_PKEY_get1_RSA')
def _(ex, st, a, ins):
    g = obj(ex, st, a[0], 'pkey')
    if g.f['ty'] != 'pub': raise Unsupported('EVP_PKEY_get1_RSA')
    h = g.f['h']
    def ok(s): s.assume(RSAOF(h) > 0); return new(s, 'rsa', h=RSAOF(h), n=None, e=None)
    return fork(ex, st, (PKID(h) == ID_RSA, ok), (PKID(h) != ID_RSA, lambda s: NULL))
@c('EVP_PKEY_get1_EC_KEY')
def _(ex, st, a, ins):
    g = obj(ex, st, a[0], 'pkey')
    if g.f['ty'] != 'pub': raise Unsupported('EVP_PKEY_get1_EC_KEY')
    h = g.f['h']
    def ok(s): s.assume(ECOF(h) > 0); return new(s, 'ec', nid=z3.Int('pem_curve'), h=ECOF(h))
    return fork(ex, st, (PKID(h) == ID_EC, ok), (PKID(h) != ID_EC, lambda s: NULL))
@c('EVP_PKEY_get_raw_public_key')
def _(ex, st, a, ins):
    g = obj(ex, st, a[0], 'pkey')
    h = g.f['h']
    n = ex.load(st, a[2], ('i', 64))
    fits = zi(n) >= 32
    good = z3.And(PKID(h) == ID_ED, fits)
    def ok(s):
        t = RAWPUB(h)
        s.assume(z3.Length(t) == 32)
        ex.buf_write(s, a[1], t, 32)
        ex.store(s, a[2], ('i', 64), 32)
        return 1
    return fork(ex, st, (good, ok), (z3.Not(good), lambda s: 0))
