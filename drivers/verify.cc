// C01-C04, C07: tokens and key sets built from text, verified by the real code, compared with an oracle over the definition of each algorithm.
#include "keys.h"
#ifdef MEM
#include "mem.h"
#endif
#include "absl/time/clock.h"

static const vector<string> ALGS = {"ES256", "ES384", "ES512", "HS256", "HS384", "HS512", "RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "EdDSA"};
enum KT { RSA_T, EC_T, OCT_T, OKP_T };
struct Signer { KT t; size_t i; string oct; };

static string type_of(const string& alg) { return alg[0] == 'E' && alg[1] == 'd' ? "OKP" : alg[0] == 'E' ? "EC" : alg[0] == 'H' ? "oct" : "RSA"; }

static string kid_word(Rng& r) {
  static const vector<string> k = {"", "", "k1", "k1", "k2", "K1", "k", "k11", "1k", "k1 ", "é", "longer-key-id-0123456789-0123456789"};
  return r.chance(12) ? aword(r) : r.pick(k);
}

// a signature over t by key s with algorithm alg, or with a related wrong one
static string sign(Rng& r, const Signer& s, const string& alg, const string& t) {
  const EVP_MD* md = md_of(alg);
  if (r.chance(6)) md = r.chance(50) ? EVP_sha512() : r.chance(50) ? EVP_sha384() : EVP_sha256();
  if (s.t == OCT_T) {
    string k = s.oct;
    switch (r.below(14)) {
      case 0: k = k.substr(0, k.size() / 2); break;
      case 1: k = k.c_str(); break;
      case 2: k += string(1, 0); break;
      case 3: k = b64(k); break;
      case 4: k = ""; break;
      case 5: k = k.substr(0, 64); break;
    }
    return hmac(md, k, t);
  }
  if (s.t == OKP_T) {
    uint8_t o[64];
    string m = r.chance(6) ? digest(EVP_sha512(), t) : t;
    ED25519_sign(o, (const uint8_t*)m.data(), m.size(), (const uint8_t*)g_ed[s.i].priv.data());
    return string((char*)o, 64);
  }
  string d = digest(md, t);
  if (s.t == EC_T) {
    bssl::UniquePtr<ECDSA_SIG> e(ECDSA_do_sign((const uint8_t*)d.data(), d.size(), g_ec[s.i].k.get()));
    if (!e) { ERR_clear_error(); return "x"; }
    int f = g_ec[s.i].flen;
    if (r.chance(6)) f++;
    if (r.chance(4)) {  // DER
      uint8_t* o; size_t n;
      if (ECDSA_SIG_to_bytes(&o, &n, e.get())) { string x((char*)o, n); OPENSSL_free(o); return x; }
    }
    if (r.chance(4)) return bnpad(e->s, f) + bnpad(e->r, f);
    if (r.chance(4)) return bn(e->r) + bn(e->s);
    return bnpad(e->r, f) + bnpad(e->s, f);
  }
  RSA* k = g_rsa[s.i].k.get();
  string o(RSA_size(k), 0);
  if (alg[0] == 'P' ? !r.chance(8) : r.chance(8)) {
    const EVP_MD* mg = r.chance(10) ? EVP_sha1() : r.chance(6) ? EVP_sha512() : md;
    int salts[] = {-1, -1, 0, 20, 32, 1, 48};
    size_t n = 0;
    if (!RSA_sign_pss_mgf1(k, &n, (uint8_t*)&o[0], o.size(), (const uint8_t*)d.data(), d.size(), md, mg, salts[r.below(7)])) { ERR_clear_error(); return "x"; }
    o.resize(n);
  } else {
    unsigned n = 0;
    if (!RSA_sign(EVP_MD_type(md), (const uint8_t*)d.data(), d.size(), (uint8_t*)&o[0], &n, k)) { ERR_clear_error(); return "x"; }
    o.resize(n);
  }
  return o;
}

static string mutate_sig(Rng& r, string s) {
  if (r.chance(50)) return s;
  switch (r.below(11)) {
    case 0: case 1: if (!s.empty()) s[r.below(s.size())] ^= 1 << r.below(8); return s;
    case 2: if (!s.empty()) s[s.size() - 1] ^= 1 << r.below(8); return s;
    case 3: return s.substr(0, s.size() - std::min<size_t>(s.size(), 1 + r.below(s.size() + 1)));
    case 4: return s + r.bytes(1 + r.below(4));
    case 5: return s + string(1 + r.below(64), 0);
    case 6: return string(1 + r.below(3), 0) + s;
    case 7: return s.empty() ? s : s.substr(1);
    case 8: return s + s;
    case 9: return r.bytes(s.size());
    default: return s.substr(0, r.below(s.size() + 1));
  }
}

struct KSpec { KT t; size_t i; string oct, kid, alg; bool has_kid, has_alg, pem; };
static string key_json(Rng& r, const KSpec& k) {
  string j = "{";
  if (k.has_kid) j += "\"kid\":" + jstr(k.kid) + ",";
  if (k.has_alg) j += "\"alg\":" + jstr(k.alg) + ",";
  switch (k.t) {
    case RSA_T: j += "\"kty\":\"RSA\",\"n\":" + jstr(b64(g_rsa[k.i].n)) + ",\"e\":" + jstr(b64(g_rsa[k.i].e)); break;
    case EC_T: j += "\"kty\":\"EC\",\"crv\":" + jstr(g_ec[k.i].crv) + ",\"x\":" + jstr(b64(g_ec[k.i].x)) + ",\"y\":" + jstr(b64(g_ec[k.i].y)); break;
    case OCT_T: j += "\"kty\":\"oct\",\"k\":" + jstr(b64(k.oct)); break;
    case OKP_T: j += "\"kty\":\"OKP\",\"crv\":\"Ed25519\",\"x\":" + jstr(b64(g_ed[k.i].pub)); break;
  }
  return j + "}";
}

struct Case { Jwt jwt; JwksPtr jwks; string alg, kid, text, sig; bool ok; };

static Case make_case(Rng& r, const string& only, string* payload_extra = nullptr, bool simple = false) {
  Case c;
  c.ok = false;
  do { c.alg = r.pick(ALGS); } while (only == "hmac" ? c.alg[0] != 'H' : only == "asym" ? c.alg[0] == 'H' : false);
  string ty = type_of(c.alg);
  // keys
  size_t n = r.chance(3) ? r.below(20) : simple ? 1 + r.below(2) : r.below(5);
  vector<KSpec> ks;
  string tk = kid_word(r);
  for (size_t j = 0; j < n; j++) {
    KSpec k;
    string kt = r.chance(75) ? ty : r.pick(vector<string>{"RSA", "EC", "oct", "OKP"});
    k.t = kt == "RSA" ? RSA_T : kt == "EC" ? EC_T : kt == "oct" ? OCT_T : OKP_T;
    k.i = k.t == RSA_T ? (r.chance(70) ? r.below(2) : r.below(g_rsa.size())) : k.t == EC_T ? r.below(g_ec.size()) : k.t == OKP_T ? r.below(g_ed.size()) : 0;
    if (k.t == EC_T && r.chance(50)) { string want = c.alg == "ES384" ? "P-384" : c.alg == "ES512" ? "P-521" : "P-256"; while (g_ec[k.i].crv != want) k.i = (k.i + 1) % g_ec.size(); }
    if (k.t == OCT_T) k.oct = r.chance(80) ? r.pick(g_oct) : r.bytes(1 + r.below(80));
    k.has_kid = !r.chance(25);
    k.kid = r.chance(55) ? tk : r.chance(20) ? vary(r, tk) : kid_word(r);
    if (!ascii(k.kid)) k.kid = "k9";
    if (!k.has_kid) k.kid = "";
    k.has_alg = r.chance(60);
    k.alg = r.chance(65) ? c.alg : r.chance(15) ? vary(r, c.alg) : r.chance(50) ? c.alg.substr(0, 2) + r.pick(vector<string>{"256", "384", "512", "", "2", "25", "2567"}) : r.pick(ALGS);
    if (!ascii(k.alg)) k.alg = "RS1";
    if (!k.has_alg) k.alg = "";
    k.pem = k.t != OCT_T && (r.chance(20) || (k.t == EC_T && g_ec[k.i].crv == "P-224"));
    if (k.pem) { k.has_kid = k.has_alg = true; }
    ks.push_back(k);
    if (r.chance(8)) ks.push_back(k);
  }
  string j = "{\"keys\":[";
  bool first = true;
  for (auto& k : ks) if (!k.pem) { j += (first ? "" : ",") + key_json(r, k); first = false; }
  j += "]}";
  c.jwks = Jwks::createFrom(j, Jwks::JWKS);
  string desc = "jwks=" + j;
  for (auto& k : ks) if (k.pem) {
    const string& p = k.t == RSA_T ? g_rsa[k.i].pem : k.t == EC_T ? g_ec[k.i].pem : g_ed[k.i].pem;
    c.jwks->addKeyFromPem(p, k.kid, k.alg);
    desc += " +pem(kid=" + show(k.kid) + ", alg=" + show(k.alg) + "): " + p;
  }
  // token
  c.kid = r.chance(15) ? "" : r.chance(85) ? tk : vary(r, tk);
  if (!ascii(c.kid)) c.kid = "k1";
  string h = "{\"alg\":" + jstr(c.alg);
  if (!c.kid.empty() || r.chance(30)) h += ",\"kid\":" + jstr(c.kid);
  if (r.chance(20)) h += ",\"typ\":" + jstr(aword(r));
  if (!D.dict.empty() && r.chance(20)) { string m = aword(r); if (m != "alg" && m != "kid") h += "," + jstr(m) + ":" + (r.chance(50) ? jstr(aword(r)) : r.chance(50) ? "true" : "1"); }
  h += "}";
  string p = "{\"iss\":" + jstr(aword(r));
  if (payload_extra) p += *payload_extra;
  if (r.chance(30)) p += ",\"d\":" + jstr(string(r.chance(10) ? r.below(70000) : r.below(400), 'x'));
  p += "}";
  c.text = b64(h) + "." + b64(p);
  if (r.chance(10)) { string hp = b64(h); while (hp.size() % 4) hp += '='; c.text = hp + "." + b64(p); }
  if (r.chance(10)) { string pp = b64(p); while (pp.size() % 4) pp += '='; c.text = c.text.substr(0, c.text.find('.') + 1) + pp; }
  // who signs
  Signer s;
  s.t = ty == "RSA" ? RSA_T : ty == "EC" ? EC_T : ty == "oct" ? OCT_T : OKP_T;
  s.i = s.t == RSA_T ? r.below(2) : s.t == EC_T ? r.below(g_ec.size()) : s.t == OKP_T ? r.below(g_ed.size()) : 0;
  s.oct = r.pick(g_oct);
  if (!ks.empty() && r.chance(88)) {
    const KSpec& k = r.pick(ks);
    if (k.t == s.t) { s.i = k.i; if (k.t == OCT_T) s.oct = k.oct; }
    else if (r.chance(30)) { s.t = k.t; s.i = k.i; s.oct = k.oct; }
    if (ty == "oct" && k.t != OCT_T) { s.t = OCT_T; s.oct = k.t == RSA_T ? g_rsa[k.i].pem : k.t == OKP_T ? g_ed[k.i].pub : g_ec[k.i].pem; }
  }
  string st = c.text;
  if (r.chance(14)) switch (r.below(8)) {
    case 0: st = st.substr(0, st.find('.')); break;
    case 1: st = st.substr(st.find('.') + 1); break;
    case 2: st += "."; break;
    case 3: st.erase(st.find('.'), 1); break;
    case 4: st = h + "." + p; break;
    case 5: st = st.substr(0, st.size() - 1); break;
    case 6: st = ""; break;
    case 7: st.resize(std::min<size_t>(st.size(), 1 + r.below(300))); break;
  }
  c.sig = mutate_sig(r, sign(r, s, c.alg, st));
  if (c.sig.empty()) c.sig = "x";
  string tok = c.text + "." + b64(c.sig);
  desc += " token=" + tok;
  begin_case(desc);
  if (c.jwt.parseFromString(tok) != Status::Ok) { bucket("token not parsed"); return c; }
  c.ok = true;
  return c;
}

struct Want { Status st; bool authentic; };
static Want oracle(const Case& c) {
  bool matched = false, ok = false, wl = false;
  for (auto& k : c.jwks->keys()) {
    if (!c.kid.empty() && !k->kid_.empty() && c.kid != k->kid_) continue;
    if (!k->alg_.empty() && k->alg_ != c.alg) continue;
    matched = true;
    if (k->kty_ != type_of(c.alg)) continue;
    if (k->kty_ == "RSA") ok |= k->rsa_ && (c.alg[0] == 'R' ? rsa_pkcs1(k->rsa_.get(), md_of(c.alg), c.text, c.sig) : rsa_pss(k->rsa_.get(), md_of(c.alg), c.text, c.sig));
    if (k->kty_ == "EC") ok |= k->ec_key_ && ec_ok(k->ec_key_.get(), md_of(c.alg), c.text, c.sig);
    if (k->kty_ == "oct") ok |= hmac(md_of(c.alg), k->hmac_key_, c.text) == c.sig;
    if (k->kty_ == "OKP" && k->crv_ == "Ed25519") { ok |= ed_ok(k->okp_key_raw_, c.text, c.sig); wl |= c.sig.size() != 64; }
  }
  Want w;
  w.authentic = ok;
  w.st = ok ? Status::Ok : !matched ? Status::JwksKidAlgMismatch : wl ? Status::JwtEd25519SignatureWrongLength : Status::JwtVerificationFail;
  return w;
}
static void run(Rng& r, const string& only, bool exact) {
  Case c = make_case(r, only);
  if (!c.ok) return;
  Want w = oracle(c);
  Status got = verifyJwtWithoutTimeChecking(c.jwt, *c.jwks);
  bucket(c.alg + " " + std::to_string((int)w.st));
  if (exact) REQUIRE_EQ(got, w.st, "verifyJwtWithoutTimeChecking");
  if ((got == Status::Ok) != w.authentic) violation(string("verifyJwtWithoutTimeChecking returned ") + tostr(got) + (w.authentic ? " although an eligible key verifies the signature" : " although no eligible key verifies the signature"));
}
static void c01(Rng& r) { run(r, "", false); }
static void c02(Rng& r) { run(r, "", true); }
static void c03(Rng& r) { run(r, "asym", false); }
static void c04(Rng& r) { run(r, "hmac", false); }

static string fields(const Jwt& j) {
  return j.jwt_ + "|" + j.header_str_ + "|" + j.header_str_base64url_ + "|" + j.header_pb_.DebugString() + "|" + j.payload_str_ + "|" + j.payload_str_base64url_ + "|" +
         j.payload_pb_.DebugString() + "|" + j.signature_ + "|" + j.alg_ + "|" + j.kid_ + "|" + j.iss_ + "|" + tostr(j.audiences_) + "|" + j.sub_ + "|" + tostr(j.iat_) + "|" +
         tostr(j.nbf_) + "|" + tostr(j.exp_) + "|" + j.jti_;
}
static string fields(const Jwks& k) {
  string o = tostr(k.getStatus());
  for (auto& p : k.keys()) {
    o += "|" + std::to_string((uintptr_t)p.get()) + p->hmac_key_ + "," + p->kid_ + "," + p->kty_ + "," + p->alg_ + "," + p->crv_ + "," + p->okp_key_raw_;
    if (p->rsa_) o += bn(RSA_get0_n(p->rsa_.get())) + bn(RSA_get0_e(p->rsa_.get()));
    o += std::to_string((uintptr_t)p->rsa_.get()) + std::to_string((uintptr_t)p->ec_key_.get());
  }
  return o;
}
static Status t_oracle(uint64_t now, uint64_t skew, uint64_t nbf, uint64_t exp) {
  unsigned __int128 n = now, k = skew;
  if ((unsigned __int128)nbf > n + k) return Status::JwtNotYetValid;
  if (exp != 0 && n > (unsigned __int128)exp + k) return Status::JwtExpired;
  return Status::Ok;
}
static string norm(string s) {
  if (s.compare(0, 7, "http://") == 0) { s = s.substr(7); if (s.empty()) return s; }
  else if (s.compare(0, 8, "https://") == 0) { s = s.substr(8); if (s.empty()) return s; }
  if (!s.empty() && s.back() == '/') s.pop_back();
  return s;
}
static void c07(Rng& r) {
  static const vector<string> AUD = {"a", "b", "http://a", "https://a/", "a/", "", "/", "example", "A"};
  uint64_t real = absl::ToUnixSeconds(absl::Now());
  bool use_now = r.chance(30);
  uint64_t now = r.chance(50) ? 1700000000 + r.below(1000) : num64(r);
  uint64_t base = use_now ? real : now;
  auto near = [&](bool real_time) -> uint64_t {
    static const int64_t off[] = {0, 1, -1, 59, 60, 61, -59, -60, -61, 62, -62, 30, -30, 90, -90, 119, 120, 121, -121, 1000, -1000};
    static const int64_t offr[] = {0, 30, -30, 50, -50, 75, -75, 100, -100, 130, -130, 10000, -10000};
    return base + (uint64_t)(real_time ? offr[r.below(13)] : off[r.below(21)]);
  };
  uint64_t nbf = r.chance(30) ? 0 : r.chance(80) ? near(use_now) : num64(r), exp = r.chance(30) ? 0 : r.chance(80) ? near(use_now) : num64(r);
  string ex;
  vector<string> auds, cfg;
  for (size_t n = r.below(3); n > 0; n--) auds.push_back(r.pick(AUD));
  for (size_t n = r.below(3); n > 0; n--) cfg.push_back(r.chance(40) && !auds.empty() ? r.pick(auds) : r.pick(AUD));
  if (!auds.empty()) { ex = ",\"aud\":["; for (size_t i = 0; i < auds.size(); i++) ex += (i ? "," : "") + jstr(auds[i]); ex += "]"; }
  Case c = make_case(r, r.chance(60) ? "hmac" : "", &ex, true);
  if (!c.ok) return;
  c.jwt.nbf_ = nbf;
  c.jwt.exp_ = exp;
  uint64_t skew = r.chance(40) ? 60 : r.chance(50) ? r.below(200) : num64(r);
  D.current += " nbf=" + tostr(nbf) + " exp=" + tostr(exp) + " now=" + tostr(now) + " skew=" + tostr(skew) + " audiences=" + tostr(cfg);
  Status sig = oracle(c).st;
  bool aud = cfg.empty();
  for (auto& a : auds) for (auto& b : cfg) aud |= norm(a) == norm(b);
  string fj = fields(c.jwt), fk = fields(*c.jwks);
  auto comp = [&](bool with_aud, uint64_t n, uint64_t k) {
    if (with_aud && !aud) return Status::JwtAudienceNotAllowed;
    Status t = t_oracle(n, k, nbf, exp);
    return t != Status::Ok ? t : sig;
  };
  Status w;
  if (use_now) {
    w = comp(false, real, 60);
    bool steady = comp(false, real + 12, 60) == w && comp(true, real + 12, 60) == comp(true, real, 60);
    if (!steady) return;
    REQUIRE_EQ(verifyJwt(c.jwt, *c.jwks), w, "verifyJwt(jwt, jwks)");
    REQUIRE_EQ(verifyJwt(c.jwt, *c.jwks, cfg), comp(true, real, 60), "verifyJwt(jwt, jwks, audiences)");
  } else {
    REQUIRE_EQ(verifyJwt(c.jwt, *c.jwks, now, skew), w = comp(false, now, skew), "verifyJwt(jwt, jwks, now, clock_skew)");
    REQUIRE_EQ(verifyJwt(c.jwt, *c.jwks, now), comp(false, now, 60), "verifyJwt(jwt, jwks, now)");
    REQUIRE_EQ(verifyJwt(c.jwt, *c.jwks, cfg, now), comp(true, now, 60), "verifyJwt(jwt, jwks, audiences, now)");
  }
  bucket("status " + std::to_string((int)w) + (aud ? "" : " aud refused"));
  REQUIRE_EQ(verifyJwtWithoutTimeChecking(c.jwt, *c.jwks), sig, "verifyJwtWithoutTimeChecking");
  if (fields(c.jwt) != fj) violation("verification modified the token");
  if (fields(*c.jwks) != fk) violation("verification modified the key set");
}
int main(int argc, char** argv) {
  return drv_main(argc, argv, {{"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C07", c07}, {"C17", c02}}, make_keys);
}
