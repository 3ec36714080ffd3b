// C13-C16: key sets imported by the real code, compared with an own reading of the same text.
#include "keys.h"
#ifdef MEM
#include "mem.h"
#endif

struct Cert { string pem; bool rsa; string n; };
static vector<Cert> g_cert;
static vector<string> g_pem_other;   // texts that are PEM of something else, or damaged
static void make_cert(EVP_PKEY* key, EVP_PKEY* signer, bool rsa, const string& n) {
  bssl::UniquePtr<X509> x(X509_new());
  X509_set_version(x.get(), 2);
  ASN1_INTEGER_set(X509_get_serialNumber(x.get()), 1 + g_cert.size());
  X509_gmtime_adj(X509_get_notBefore(x.get()), 0);
  X509_gmtime_adj(X509_get_notAfter(x.get()), 31536000L);
  X509_set_pubkey(x.get(), key);
  X509_NAME* nm = X509_get_subject_name(x.get());
  X509_NAME_add_entry_by_txt(nm, "CN", MBSTRING_ASC, (const uint8_t*)"test", -1, -1, 0);
  X509_set_issuer_name(x.get(), nm);
  if (!X509_sign(x.get(), signer, EVP_sha256())) { ERR_clear_error(); return; }
  bssl::UniquePtr<BIO> b(BIO_new(BIO_s_mem()));
  PEM_write_bio_X509(b.get(), x.get());
  const uint8_t* d; size_t l;
  BIO_mem_contents(b.get(), &d, &l);
  g_cert.push_back({string((const char*)d, l), rsa, n});
}
static void setup() {
  make_keys();
  bssl::UniquePtr<EVP_PKEY> sg(EVP_PKEY_new());
  EVP_PKEY_set1_RSA(sg.get(), g_rsa[0].k.get());
  for (auto& k : g_rsa) { bssl::UniquePtr<EVP_PKEY> p(EVP_PKEY_new()); EVP_PKEY_set1_RSA(p.get(), k.k.get()); make_cert(p.get(), sg.get(), true, k.n); }
  for (size_t i = 0; i < 2; i++) { bssl::UniquePtr<EVP_PKEY> p(EVP_PKEY_new()); EVP_PKEY_set1_EC_KEY(p.get(), g_ec[i].k.get()); make_cert(p.get(), sg.get(), false, ""); }
  // X25519 public key: well formed, but not a type that is implemented
  static const uint8_t pre[] = {0x30, 0x2a, 0x30, 0x05, 0x06, 0x03, 0x2b, 0x65, 0x6e, 0x03, 0x21, 0x00};
  g_pem_other.push_back(pem_wrap("PUBLIC KEY", string((const char*)pre, 12) + g_ed[0].pub));
  { bssl::UniquePtr<BIO> b(BIO_new(BIO_s_mem())); PEM_write_bio_RSAPrivateKey(b.get(), g_rsa[0].k.get(), nullptr, nullptr, 0, nullptr, nullptr); const uint8_t* d; size_t l; BIO_mem_contents(b.get(), &d, &l); g_pem_other.push_back(string((const char*)d, l)); }
  { bssl::UniquePtr<BIO> b(BIO_new(BIO_s_mem())); PEM_write_bio_RSAPublicKey(b.get(), g_rsa[0].k.get()); const uint8_t* d; size_t l; BIO_mem_contents(b.get(), &d, &l); g_pem_other.push_back(string((const char*)d, l)); }
  // DSA public key
  g_pem_other.push_back(g_cert[0].pem);
  g_pem_other.push_back("");
  g_pem_other.push_back("-----BEGIN PUBLIC KEY-----\n-----END PUBLIC KEY-----\n");
  { bssl::UniquePtr<DSA> dsa(DSA_new()); 
    bssl::UniquePtr<BIGNUM> p(BN_new()), q(BN_new()), g(BN_new()), y(BN_new());
    BN_set_word(p.get(), 23); BN_set_word(q.get(), 11); BN_set_word(g.get(), 4); BN_set_word(y.get(), 8);
    if (DSA_set0_pqg(dsa.get(), p.get(), q.get(), g.get())) { p.release(); q.release(); g.release(); if (DSA_set0_key(dsa.get(), y.get(), nullptr)) { y.release();
      bssl::UniquePtr<EVP_PKEY> k(EVP_PKEY_new()); EVP_PKEY_set1_DSA(k.get(), dsa.get()); string s = pem_pub(k.get()); if (!s.empty()) g_pem_other.push_back(s); } }
    ERR_clear_error(); }
}

static string any_json(Rng& r, int depth = 2) {
  switch (r.below(depth > 0 ? 8 : 6)) {
    case 0: return "null";
    case 1: return "true";
    case 2: return std::to_string(r.below(100));
    case 3: case 4: case 5: return jstr(aword(r));
    case 6: return r.chance(50) ? "[]" : "[" + any_json(r, depth - 1) + "]";
    default: return r.chance(50) ? "{}" : "{" + jstr(aword(r)) + ":" + any_json(r, depth - 1) + "}";
  }
}
static string bad64(Rng& r, string s) {
  switch (r.below(8)) {
    case 0: return s + "=";
    case 1: return s + "*";
    case 2: if (!s.empty()) s[r.below(s.size())] = "+/!$ "[r.below(5)]; return s;
    case 3: while (s.size() % 4) s += '='; return s;
    case 4: return "";
    case 5: return s.substr(0, s.size() / 2);
    case 6: return s + "A";
    default: return s.empty() ? s : s.substr(1);
  }
}
static string material(Rng& r, const string& v, int bad) {
  if (r.chance(bad)) return r.chance(40) ? any_json(r) : r.chance(50) ? jstr(bad64(r, b64(v))) : jstr(b64(r.chance(50) ? v + r.bytes(1) : v.substr(0, r.below(v.size() + 1))));
  if (r.chance(10)) return jstr(b64(string(1 + r.below(3), 0) + v));
  return jstr(b64(v));
}
static string jalg(Rng& r, const string& kty, int bad) {
  static const vector<string> all = {"ES256", "ES384", "ES512", "HS256", "HS384", "HS512", "RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "EdDSA", "RS", "PS", "ES", "R", "E", "RSA", "RS1", "PSx", "ES256K", "es256", "HS", "HS2567", "HS25", "Ed", "eddsa", "none", "EdDSA ", "rs256", "", "P"};
  if (r.chance(bad)) return r.chance(20) ? any_json(r) : r.chance(20) ? jstr(vary(r, r.pick(all))) : jstr(r.pick(all));
  if (kty == "RSA") return jstr(r.pick(vector<string>{"RS256", "RS384", "RS512", "PS256", "PS384", "PS512"}));
  if (kty == "EC") return jstr(r.pick(vector<string>{"ES256", "ES384", "ES512"}));
  if (kty == "oct") return jstr(r.pick(vector<string>{"HS256", "HS384", "HS512"}));
  return jstr("EdDSA");
}
static string entry(Rng& r, int bad) {
  if (r.chance(bad / 3)) return any_json(r);
  vector<string> m;
  string kty = r.pick(vector<string>{"RSA", "EC", "oct", "OKP"});
  string shown = r.chance(bad / 2) ? (r.chance(40) ? any_json(r) : jstr(r.chance(50) ? vary(r, kty) : aword(r))) : jstr(kty);
  if (!r.chance(bad / 3)) m.push_back("\"kty\":" + shown);
  if (r.chance(65)) m.push_back("\"kid\":" + (r.chance(bad / 2) ? any_json(r) : jstr(aword(r))));
  string alg;
  if (r.chance(60)) { alg = jalg(r, kty, bad); m.push_back("\"alg\":" + alg); }
  auto put = [&](const string& k, const string& v) { if (!r.chance(bad / 4)) m.push_back(jstr(k) + ":" + v); };
  if (kty == "RSA") {
    const RsaK& k = r.chance(60) ? g_rsa[r.below(2)] : r.pick(g_rsa);
    put("n", material(r, k.n, bad));
    put("e", r.chance(bad / 2) ? jstr(b64(r.pick(vector<string>{"\x03", string("\1\0\1", 3), "\x11", string("\0", 1), "", string("\0\3", 2), "\x01", "\x05", string("\1\0\0\0\0\0\0\0\1", 9)}))) : material(r, k.e, bad / 2));
  } else if (kty == "EC") {
    size_t i = r.below(g_ec.size());
    string a = alg.size() > 6 ? alg.substr(3, 3) : "";
    if (!r.chance(bad) && a.size()) for (size_t t = 0; t < 9 && (g_ec[i].crv.substr(2) != (a == "512" ? "521" : a)); t++) i = (i + 1) % g_ec.size();
    const EcK& k = g_ec[i];
    if (r.chance(70)) put("crv", r.chance(bad) ? (r.chance(50) ? any_json(r) : jstr(r.pick(vector<string>{"P-256", "P-384", "P-521", "P-224", "P-512", "Ed25519", "", "p-256", "P-256 "}))) : jstr(k.crv));
    bool swap = r.chance(bad / 6);
    put("x", material(r, swap ? k.y : k.x, bad / 2));
    put("y", material(r, swap ? k.x : k.y, bad / 2));
  } else if (kty == "oct") {
    put("k", material(r, r.chance(80) ? r.pick(g_oct) : r.bytes(r.below(200)), bad));
  } else {
    put("crv", r.chance(bad) ? (r.chance(50) ? any_json(r) : jstr(r.pick(vector<string>{"X25519", "Ed448", "ed25519", "Ed25519 ", "", "P-256"}))) : jstr("Ed25519"));
    const EdK& k = r.pick(g_ed);
    put("x", material(r, r.chance(bad) ? k.pub.substr(0, r.below(33)) : r.chance(bad / 3) ? k.pub + r.bytes(r.below(3)) : r.chance(20) ? r.bytes(32) : k.pub, bad / 2));
  }
  if (r.chance(20)) m.push_back(jstr(aword(r)) + ":" + any_json(r));
  if (r.chance(10)) { const RsaK& k = g_rsa[0]; m.push_back("\"n\":" + jstr(b64(k.n))); m.push_back("\"e\":" + jstr(b64(k.e))); }
  if (r.chance(10)) m.push_back("\"x\":" + jstr(b64(g_ed[0].pub)));
  string o = "{";
  bool first = true;
  while (!m.empty()) { size_t i = r.below(m.size()); o += (first ? "" : ",") + m[i]; m.erase(m.begin() + i); first = false; }
  return o + "}";
}
static string json_keys(Rng& r, int only_entries) {
  int bad = r.pick(vector<int>{0, 4, 12, 30, 60});
  if (!only_entries && r.chance(6)) return r.chance(50) ? any_json(r) : vary(r, "{\"keys\":[]}");
  string o = "{";
  if (r.chance(10)) o += jstr(aword(r)) + ":" + any_json(r) + ",";
  if (!only_entries && r.chance(6)) o += "\"keys\":" + any_json(r);
  else {
    o += "\"keys\":[";
    size_t n = r.chance(3) ? r.below(25) : r.below(5);
    for (size_t i = 0; i < n; i++) o += (i ? "," : "") + entry(r, r.chance(60) ? bad : 0);
    o += "]";
  }
  if (r.chance(10)) o += "," + jstr(aword(r)) + ":" + any_json(r);
  return o + "}";
}

// ---- own reading ------------------------------------------------------------------------------
struct K { string kty, kid, alg, crv, oct, okp; bssl::UniquePtr<BIGNUM> n, e, x, y; int nid = 0; };
static const PValue* get(const PStruct& s, const string& k) { auto it = s.fields().find(k); return it == s.fields().end() ? nullptr : &it->second; }
static int str(const PStruct& s, const string& k, string* o) {   // 0 found, 1 missing, 2 wrong type
  const PValue* v = get(s, k);
  if (!v) return 1;
  if (v->kind_case() != PValue::kStringValue) return 2;
  *o = v->string_value();
  return 0;
}
static bool b64big(const string& t, bssl::UniquePtr<BIGNUM>* o) {
  string d;
  if (!absl::WebSafeBase64Unescape(t, &d)) return false;
  o->reset(BN_bin2bn((const uint8_t*)d.data(), d.size(), nullptr));
  return true;
}
static bool starts(const string& a, const char* p) { return a.compare(0, strlen(p), p) == 0; }
static Status entry_ref(const PStruct& s, K* k) {
  int c = str(s, "kty", &k->kty);
  if (c) return c == 1 ? Status::JwksMissingKty : Status::JwksBadKty;
  str(s, "kid", &k->kid);
  str(s, "alg", &k->alg);
  string t, u;
  if (k->kty == "RSA") {
    if (!k->alg.empty() && !starts(k->alg, "RS") && !starts(k->alg, "PS")) return Status::JwksRSAKeyBadAlg;
    c = str(s, "n", &t);
    if (c) return c == 1 ? Status::JwksRSAKeyMissingN : Status::JwksRSAKeyBadN;
    c = str(s, "e", &u);
    if (c) return c == 1 ? Status::JwksRSAKeyMissingE : Status::JwksRSAKeyBadE;
    if (!b64big(t, &k->n) || !b64big(u, &k->e)) return Status::JwksRsaParseError;
    if (BN_cmp_word(k->e.get(), 3) && BN_cmp_word(k->e.get(), 65537)) return Status::JwksRsaParseError;
    bssl::UniquePtr<RSA> rsa(RSA_new());
    RSA_set0_key(rsa.get(), BN_dup(k->n.get()), BN_dup(k->e.get()), nullptr);
    if (!RSA_check_key(rsa.get())) { ERR_clear_error(); return Status::JwksRsaParseError; }
    return Status::Ok;
  }
  if (k->kty == "EC") {
    if (!k->alg.empty() && !starts(k->alg, "ES")) return Status::JwksECKeyBadAlg;
    c = str(s, "crv", &k->crv);
    if (c == 2) return Status::JwksECKeyBadCrv;
    string named = k->alg == "ES256" ? "P-256" : k->alg == "ES384" ? "P-384" : k->alg == "ES512" ? "P-521" : "";
    if (!k->alg.empty() && !k->crv.empty() && named != k->crv) return Status::JwksECKeyAlgNotCompatibleWithCrv;
    if (k->crv.empty()) k->crv = k->alg.empty() ? "P-256" : named;
    k->nid = k->crv == "P-256" ? NID_X9_62_prime256v1 : k->crv == "P-384" ? NID_secp384r1 : k->crv == "P-521" ? NID_secp521r1 : 0;
    if (!k->nid) return Status::JwksECKeyAlgOrCrvUnsupported;
    c = str(s, "x", &t);
    if (c) return c == 1 ? Status::JwksECKeyMissingX : Status::JwksECKeyBadX;
    c = str(s, "y", &u);
    if (c) return c == 1 ? Status::JwksECKeyMissingY : Status::JwksECKeyBadY;
    if (!b64big(t, &k->x) || !b64big(u, &k->y)) return Status::JwksEcXorYBadBase64;
    bssl::UniquePtr<EC_KEY> ec(EC_KEY_new_by_curve_name(k->nid));
    if (!EC_KEY_set_public_key_affine_coordinates(ec.get(), k->x.get(), k->y.get())) { ERR_clear_error(); return Status::JwksEcParseError; }
    return Status::Ok;
  }
  if (k->kty == "oct") {
    if (!k->alg.empty() && k->alg != "HS256" && k->alg != "HS384" && k->alg != "HS512") return Status::JwksHMACKeyBadAlg;
    c = str(s, "k", &t);
    if (c) return c == 1 ? Status::JwksHMACKeyMissingK : Status::JwksHMACKeyBadK;
    if (!absl::WebSafeBase64Unescape(t, &k->oct) || k->oct.empty()) return Status::JwksOctBadBase64;
    return Status::Ok;
  }
  if (k->kty == "OKP") {
    if (!k->alg.empty() && k->alg != "EdDSA") return Status::JwksOKPKeyBadAlg;
    c = str(s, "crv", &k->crv);
    if (c) return c == 1 ? Status::JwksOKPKeyMissingCrv : Status::JwksOKPKeyBadCrv;
    if (k->crv != "Ed25519") return Status::JwksOKPKeyCrvUnsupported;
    c = str(s, "x", &t);
    if (c) return c == 1 ? Status::JwksOKPKeyMissingX : Status::JwksOKPKeyBadX;
    if (!absl::WebSafeBase64Unescape(t, &k->okp)) return Status::JwksOKPXBadBase64;
    if (k->okp.size() != 32) return Status::JwksOKPXWrongLength;
    return Status::Ok;
  }
  return Status::JwksNotImplementedKty;
}
static const string PRE = "-----BEGIN CERTIFICATE-----\n", SUF = "\n-----END CERTIFICATE-----\n";
// a key text is described by what it holds
static string pub_der(EVP_PKEY* p) {
  CBB b;
  uint8_t* d; size_t n;
  CBB_init(&b, 64);
  if (!EVP_marshal_public_key(&b, p) || !CBB_finish(&b, &d, &n)) { ERR_clear_error(); return "?"; }
  string s((char*)d, n);
  OPENSSL_free(d);
  return s;
}
static string rsa_txt(RSA* k) { return k ? "RSA(" + show(bn(RSA_get0_n(k)), 2000) + "," + show(bn(RSA_get0_e(k))) + ")" : "-"; }
static string ec_txt(EC_KEY* k) {
  if (!k) return "-";
  bssl::UniquePtr<BIGNUM> x(BN_new()), y(BN_new());
  EC_POINT_get_affine_coordinates_GFp(EC_KEY_get0_group(k), EC_KEY_get0_public_key(k), x.get(), y.get(), nullptr);
  return "EC(" + std::to_string(EC_GROUP_get_curve_name(EC_KEY_get0_group(k))) + "," + show(bn(x.get())) + "," + show(bn(y.get())) + ")";
}
static string key_txt(const Jwks::Pubkey& k) {
  return "kty=" + show(k.kty_) + " kid=" + show(k.kid_) + " alg=" + show(k.alg_) + " crv=" + show(k.crv_) + " oct=" + show(k.hmac_key_, 3000) + " okp=" + show(k.okp_key_raw_) + " rsa=" + rsa_txt(k.rsa_.get()) + " ec=" + ec_txt(k.ec_key_.get());
}
static string txt(const string& kty, const string& kid, const string& alg, const string& crv, const string& oct, const string& okp, const string& rsa, const string& ec) {
  return "kty=" + show(kty) + " kid=" + show(kid) + " alg=" + show(alg) + " crv=" + show(crv) + " oct=" + show(oct, 3000) + " okp=" + show(okp) + " rsa=" + rsa + " ec=" + ec;
}
static string key_txt(const K& k) {
  return txt(k.kty, k.kid, k.alg, k.crv, k.oct, k.okp, k.n && k.kty == "RSA" ? "RSA(" + show(bn(k.n.get()), 2000) + "," + show(bn(k.e.get())) + ")" : "-",
             k.x ? "EC(" + std::to_string(k.nid) + "," + show(bn(k.x.get())) + "," + show(bn(k.y.get())) + ")" : "-");
}
static void jwks_case(Rng& r, bool entries) {
  string j = json_keys(r, entries);
  begin_case("jwks=" + j);
  PStruct pb;
  google::protobuf::util::JsonParseOptions o;
  bool parsed = google::protobuf::util::JsonStringToMessage(j, &pb, o).ok();
  JwksPtr got;
  try { got = Jwks::createFrom(j, Jwks::JWKS); } catch (...) { violation("createFrom threw an exception"); }
  Status want = Status::Ok;
  vector<string> keys;
  const PValue* kv = parsed ? get(pb, "keys") : nullptr;
  if (!parsed) want = Status::JwksParseError;
  else if (!kv) {
    bool certs = !pb.fields().empty();
    for (auto& f : pb.fields()) certs &= !f.first.empty() && f.second.kind_case() == PValue::kStringValue && starts(f.second.string_value(), PRE.c_str());
    if (certs) return;   // checked by C15
    want = Status::JwksNoKeys;
  } else if (kv->kind_case() != PValue::kListValue) want = Status::JwksBadKeys;
  else {
    Status first = Status::Ok;
    for (auto& e : kv->list_value().values()) {
      if (e.kind_case() != PValue::kStructValue) continue;
      K k;
      Status s = entry_ref(e.struct_value(), &k);
      bucket("entry status " + std::to_string((int)s));
      if (s == Status::Ok) keys.push_back(key_txt(k));
      else if (first == Status::Ok) first = s;
    }
    want = !keys.empty() ? Status::Ok : first != Status::Ok ? first : Status::JwksNoValidKeys;
  }
  bucket("status " + std::to_string((int)want));
  REQUIRE_EQ(got->getStatus(), want, "status of the imported key set");
  REQUIRE_EQ((uint64_t)got->keys().size(), (uint64_t)keys.size(), "number of imported keys");
  for (size_t i = 0; i < keys.size(); i++) {
    if (!got->keys()[i]) violation("a null key was imported");
    REQUIRE_EQ(key_txt(*got->keys()[i]), keys[i], "imported key " + std::to_string(i));
  }
}
static void c13(Rng& r) { jwks_case(r, false); }
static void c14(Rng& r) { jwks_case(r, true); }

static string pem_any(Rng& r, int good) {
  auto one = [&]() -> string {
    switch (r.below(3)) { case 0: return r.pick(g_rsa).pem; case 1: return r.pick(g_ec).pem; default: return r.pick(g_ed).pem; }
  };
  if (r.chance(good)) return one();
  string p = one();
  switch (r.below(10)) {
    case 0: return r.pick(g_pem_other);
    case 1: p[r.below(p.size())] = (char)(32 + r.below(95)); return p;
    case 2: return p.substr(0, r.below(p.size()));
    case 3: return p + one();
    case 4: return word(r) + "\n" + p;
    case 5: { string o; for (char c : p) { if (c == '\n') o += '\r'; o += c; } return o; }
    case 6: return word(r);
    case 7: return p + word(r);
    case 8: return string("\0", 1) + p;
    default: return r.pick(g_pem_other) + p;
  }
}
struct PemRef { Status st; string key; };
static PemRef pem_ref(const string& pem, const string& kid, const string& alg) {
  PemRef R;
  bssl::UniquePtr<BIO> b(BIO_new_mem_buf(pem.data(), pem.size()));
  bssl::UniquePtr<EVP_PKEY> p(PEM_read_bio_PUBKEY(b.get(), nullptr, nullptr, nullptr));
  ERR_clear_error();
  R.st = Status::Ok;
  if (!p) { R.st = Status::JwksPemBadBase64; return R; }
  string crv = alg == "ES256" ? "P-256" : alg == "ES384" ? "P-384" : alg == "ES512" ? "P-521" : "";
  switch (EVP_PKEY_id(p.get())) {
    case EVP_PKEY_RSA: R.key = txt("RSA", kid, alg, crv, "", "", rsa_txt(EVP_PKEY_get0_RSA(p.get())), "-"); break;
    case EVP_PKEY_EC: R.key = txt("EC", kid, alg, crv, "", "", "-", ec_txt(EVP_PKEY_get0_EC_KEY(p.get()))); break;
    case EVP_PKEY_ED25519: { string der = pub_der(p.get()); R.key = txt("OKP", kid, alg, crv.empty() ? "Ed25519" : crv, "", der.substr(der.size() - 32), "-", "-"); break; }
    default: R.st = Status::JwksPemNotImplementedKty;
  }
  return R;
}
static string pem_alg(Rng& r) {
  static const vector<string> a = {"", "ES256", "ES384", "ES512", "RS256", "PS512", "EdDSA", "ES", "ES2567", "es256", "HS256", "none"};
  return r.chance(10) ? word(r) : r.pick(a);
}
static void c15(Rng& r) {
  if (r.chance(50)) {
    string pem = pem_any(r, 50), kid = word(r), alg = pem_alg(r);
    bool plain = r.chance(30);
    if (plain) kid = alg = "";
    begin_case("pem=" + show(pem, 8000) + (plain ? "" : " kid=" + show(kid) + " alg=" + show(alg)));
    PemRef w = pem_ref(pem, kid, alg);
    JwksPtr k = plain ? Jwks::createFrom(pem, Jwks::PEM) : Jwks::createFromPem(pem, kid, alg);
    bucket("pem " + std::to_string((int)w.st));
    REQUIRE_EQ(k->getStatus(), w.st, "status of PEM import");
    REQUIRE_EQ((uint64_t)k->keys().size(), (uint64_t)(w.st == Status::Ok), "number of keys of PEM import");
    if (w.st == Status::Ok) REQUIRE_EQ(key_txt(*k->keys()[0]), w.key, "key of PEM import");
    return;
  }
  // certificates
  std::map<string, string> m;
  int bad = r.pick(vector<int>{0, 5, 30});
  string j = "{";
  for (size_t n = r.below(5); n > 0; n--) {
    string id = r.chance(bad) ? string("") : "c" + std::to_string(r.below(9)) + (r.chance(30) ? aword(r) : "");
    if (m.count(id) || id == "keys") continue;
    string c = r.chance(60) ? g_cert[r.below(2)].pem : r.pick(g_cert).pem;
    if (r.chance(bad)) switch (r.below(14)) {
      case 9: c += " "; break;
      case 10: c += word(r); break;
      case 11: c = vary(r, c); break;
      case 12: c += "\n"; break;
      case 13: c = word(r) + c; break;
      case 0: c = c.substr(0, c.size() - 1); break;
      case 1: c = c.substr(1); break;
      case 2: c[PRE.size() + r.below(c.size() - PRE.size() - SUF.size())] = "*A/"[r.below(3)]; break;
      case 3: c = PRE + SUF; break;
      case 4: c = PRE.substr(0, PRE.size() - 1) + SUF; break;
      case 5: c = c + c; break;
      case 6: c = PRE + "AAAA" + SUF; break;
      case 7: c = word(r); break;
      case 8: c = "x" + c; break;
    }
    if (!ascii(c)) c = "x";
    m[id] = c;
    j += (j.size() > 1 ? "," : "") + jstr(id) + ":" + (r.chance(bad / 3) ? (m[id] = "\1", any_json(r)) : jstr(c));
  }
  j += "}";
  begin_case("jwks=" + j);
  PStruct pb;
  google::protobuf::util::JsonParseOptions o;
  if (!google::protobuf::util::JsonStringToMessage(j, &pb, o).ok() || get(pb, "keys")) return;
  JwksPtr k = Jwks::createFrom(j, Jwks::JWKS);
  bool certs = !pb.fields().empty();
  for (auto& f : pb.fields()) {
    const string& v = f.second.string_value();
    certs &= !f.first.empty() && f.second.kind_case() == PValue::kStringValue && starts(v, PRE.c_str()) && v.size() >= SUF.size() && v.substr(v.size() - SUF.size()) == SUF;
  }
  if (!certs) {
    bucket("not certificates");
    REQUIRE_EQ(k->getStatus(), Status::JwksNoKeys, "an object that is not a set of certificates");
    REQUIRE_EQ((uint64_t)k->keys().size(), (uint64_t)0, "number of keys");
    return;
  }
  std::map<string, string> want;   // kid -> key
  std::set<Status> fails;
  for (auto& f : pb.fields()) {
    bssl::UniquePtr<BIO> b(BIO_new_mem_buf(f.second.string_value().data(), f.second.string_value().size()));
    bssl::UniquePtr<X509> x(PEM_read_bio_X509(b.get(), nullptr, nullptr, nullptr));
    bssl::UniquePtr<EVP_PKEY> p(x ? X509_get_pubkey(x.get()) : nullptr);
    RSA* rsa = p ? EVP_PKEY_get0_RSA(p.get()) : nullptr;
    ERR_clear_error();
    if (!x) fails.insert(Status::JwksX509ParseError);
    else if (!rsa) fails.insert(Status::JwksX509GetPubkeyError);
    else want[f.first] = txt("RSA", f.first, "", "", "", "", rsa_txt(rsa), "-");
  }
  bucket(fails.empty() ? "certificates" : "bad certificates");
  if (!fails.empty()) {
    if (!fails.count(k->getStatus())) violation("certificates: expected the status of a failing member, got " + tostr(k->getStatus()));
    REQUIRE_EQ((uint64_t)k->keys().size(), (uint64_t)0, "number of keys after a failing certificate");
    return;
  }
  REQUIRE_EQ(k->getStatus(), Status::Ok, "status of certificate import");
  REQUIRE_EQ((uint64_t)k->keys().size(), (uint64_t)want.size(), "number of keys from certificates");
  for (auto& q : k->keys()) {
    auto it = want.find(q->kid_);
    if (it == want.end()) violation("a certificate key has an id that is none of the members: " + show(q->kid_));
    REQUIRE_EQ(key_txt(*q), it->second, "certificate key");
    want.erase(it);
  }
}
static void c16(Rng& r) {
  string j = json_keys(r, true), desc;
  int how = r.below(4);
  JwksPtr k;
  if (how == 0) { string p = pem_any(r, 70); k = Jwks::createFrom(p, Jwks::PEM); desc = "pem=" + show(p, 8000); }
  else { if (how == 1) j = "{\"keys\":[]}"; k = Jwks::createFrom(j, Jwks::JWKS); desc = "jwks=" + j; }
  size_t n = 1 + r.below(4);
  for (size_t i = 0; i < n; i++) {
    string pem = pem_any(r, 60), kid = !k->keys().empty() && r.chance(40) ? r.pick(k->keys())->kid_ : word(r), alg = pem_alg(r);
    desc += " add(pem=" + show(pem, 8000) + " kid=" + show(kid) + " alg=" + show(alg) + ")";
    begin_case(desc);
    vector<const Jwks::Pubkey*> ptr;
    vector<string> before;
    for (auto& q : k->keys()) { ptr.push_back(q.get()); before.push_back(key_txt(*q)); }
    Status st = k->getStatus();
    PemRef w = pem_ref(pem, kid, alg);
    Status got = k->addKeyFromPem(pem, kid, alg);
    bucket("add " + std::to_string((int)w.st));
    REQUIRE_EQ(got, w.st, "addKeyFromPem");
    if (w.st == Status::Ok) before.push_back(w.key);
    REQUIRE_EQ((uint64_t)k->keys().size(), (uint64_t)before.size(), "number of keys after addKeyFromPem");
    for (size_t q = 0; q < before.size(); q++) {
      if (!k->keys()[q]) violation("a key became null");
      if (q < ptr.size() && k->keys()[q].get() != ptr[q]) violation("an existing key was moved or replaced");
      REQUIRE_EQ(key_txt(*k->keys()[q]), before[q], "key " + std::to_string(q) + " after addKeyFromPem");
    }
    REQUIRE_EQ(k->getStatus(), st, "the set's own status after addKeyFromPem");
  }
}
static void mem(Rng& r) { switch (r.below(4)) { case 0: c15(r); break; case 1: c16(r); break; default: c13(r); } }
int main(int argc, char** argv) { return drv_main(argc, argv, {{"C13", c13}, {"C14", c14}, {"C15", c15}, {"C16", c16}, {"C17", mem}}, setup); }
