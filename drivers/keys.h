// Key material for the drivers, created at start-up (the relations checked hold for any keys).
#pragma once
#include "common.h"
#include "openssl/bio.h"
#include "openssl/bn.h"
#include "openssl/curve25519.h"
#include "openssl/digest.h"
#include "openssl/ec.h"
#include "openssl/ec_key.h"
#include "openssl/ecdsa.h"
#include "openssl/err.h"
#include "openssl/evp.h"
#include "openssl/hmac.h"
#include "openssl/mem.h"
#include "openssl/nid.h"
#include "openssl/pem.h"
#include "openssl/rsa.h"
#include "openssl/sha.h"
#include "openssl/x509.h"

struct RsaK { bssl::UniquePtr<RSA> k; int bits; string pem, n, e; };
struct EcK { bssl::UniquePtr<EC_KEY> k; int nid; int flen; string crv, pem, x, y; };
struct EdK { string priv, pub, pem; };
inline vector<RsaK> g_rsa;
inline vector<EcK> g_ec;
inline vector<EdK> g_ed;
inline vector<string> g_oct;

inline string bn(const BIGNUM* b) { string s(BN_num_bytes(b), 0); BN_bn2bin(b, (uint8_t*)&s[0]); return s; }
inline string bnpad(const BIGNUM* b, size_t n) { string s = bn(b); return string(n > s.size() ? n - s.size() : 0, 0) + s; }
inline string pem_pub(EVP_PKEY* p) {
  bssl::UniquePtr<BIO> b(BIO_new(BIO_s_mem()));
  PEM_write_bio_PUBKEY(b.get(), p);
  const uint8_t* d; size_t n;
  BIO_mem_contents(b.get(), &d, &n);
  return string((const char*)d, n);
}
inline string pem_wrap(const string& label, const string& der) {
  static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  string u = b64(der), o = "-----BEGIN " + label + "-----\n";
  for (auto& c : u) { if (c == '-') c = '+'; if (c == '_') c = '/'; }
  while (u.size() % 4) u += '=';
  (void)A;
  for (size_t i = 0; i < u.size(); i += 64) o += u.substr(i, 64) + "\n";
  return o + "-----END " + label + "-----\n";
}
// the keys come from a committed file, so that a case can be replayed from its seed and number
inline bssl::UniquePtr<BIO> pem_bio(const string& s) { return bssl::UniquePtr<BIO>(BIO_new_mem_buf(s.data(), s.size())); }
inline void add_rsa(const string& text) {
  RsaK k;
  auto b = pem_bio(text);
  k.k.reset(PEM_read_bio_RSAPrivateKey(b.get(), nullptr, nullptr, nullptr));
  if (!k.k) { fprintf(stderr, "bad key file\n"); exit(2); }
  k.bits = RSA_size(k.k.get()) * 8;
  bssl::UniquePtr<EVP_PKEY> p(EVP_PKEY_new());
  EVP_PKEY_set1_RSA(p.get(), k.k.get());
  k.pem = pem_pub(p.get());
  k.n = bn(RSA_get0_n(k.k.get()));
  k.e = bn(RSA_get0_e(k.k.get()));
  g_rsa.push_back(std::move(k));
}
inline void add_ec(const string& text) {
  EcK k;
  auto b = pem_bio(text);
  k.k.reset(PEM_read_bio_ECPrivateKey(b.get(), nullptr, nullptr, nullptr));
  if (!k.k) { fprintf(stderr, "bad key file\n"); exit(2); }
  k.nid = EC_GROUP_get_curve_name(EC_KEY_get0_group(k.k.get()));
  k.flen = (EC_GROUP_get_degree(EC_KEY_get0_group(k.k.get())) + 7) / 8;
  k.crv = k.flen == 32 ? "P-256" : k.flen == 48 ? "P-384" : k.flen == 66 ? "P-521" : "P-224";
  bssl::UniquePtr<EVP_PKEY> p(EVP_PKEY_new());
  EVP_PKEY_set1_EC_KEY(p.get(), k.k.get());
  k.pem = pem_pub(p.get());
  bssl::UniquePtr<BIGNUM> x(BN_new()), y(BN_new());
  EC_POINT_get_affine_coordinates_GFp(EC_KEY_get0_group(k.k.get()), EC_KEY_get0_public_key(k.k.get()), x.get(), y.get(), nullptr);
  k.x = bnpad(x.get(), k.flen);
  k.y = bnpad(y.get(), k.flen);
  g_ec.push_back(std::move(k));
}
inline void make_ed(Rng& r) {
  EdK k;
  uint8_t pub[32], priv[64];
  string seed = r.bytes(32);
  ED25519_keypair_from_seed(pub, priv, (const uint8_t*)seed.data());
  k.pub.assign((char*)pub, 32);
  k.priv.assign((char*)priv, 64);
  static const uint8_t pre[] = {0x30, 0x2a, 0x30, 0x05, 0x06, 0x03, 0x2b, 0x65, 0x70, 0x03, 0x21, 0x00};
  k.pem = pem_wrap("PUBLIC KEY", string((const char*)pre, 12) + k.pub);
  g_ed.push_back(k);
}
inline void make_keys() {
  std::ifstream f(KEYFILE);
  string line, cur;
  while (std::getline(f, line)) {
    cur += line + "\n";
    if (line.find("-----END RSA") == 0) { add_rsa(cur); cur = ""; }
    if (line.find("-----END EC") == 0) { add_ec(cur); cur = ""; }
  }
  if (g_rsa.size() < 5 || g_ec.size() < 8) { fprintf(stderr, "bad key file\n"); exit(2); }
  Rng r(7);
  for (int i = 0; i < 3; i++) make_ed(r);
  for (int n : {1, 2, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 300}) g_oct.push_back(r.bytes(n));
  g_oct.push_back(string("abc\0def", 7)); g_oct.push_back(string("abc\0xyz", 7)); g_oct.push_back("abc"); g_oct.push_back(string("\0", 1)); g_oct.push_back(string("\0\0", 2)); g_oct.push_back(string("abc\0", 4));
}
inline const EVP_MD* md_of(const string& alg) {
  string n = alg.size() > 2 ? alg.substr(2) : "";
  return n == "384" ? EVP_sha384() : n == "512" ? EVP_sha512() : EVP_sha256();
}
inline string digest(const EVP_MD* md, const string& t) {
  uint8_t d[64];
  if (md == EVP_sha384()) { SHA384((const uint8_t*)t.data(), t.size(), d); return string((char*)d, 48); }
  if (md == EVP_sha512()) { SHA512((const uint8_t*)t.data(), t.size(), d); return string((char*)d, 64); }
  SHA256((const uint8_t*)t.data(), t.size(), d);
  return string((char*)d, 32);
}
// HMAC from its definition (RFC 2104)
inline string hmac(const EVP_MD* md, string key, const string& t) {
  size_t B = md == EVP_sha256() ? 64 : 128;
  if (key.size() > B) key = digest(md, key);
  key.resize(B, 0);
  string i = key, o = key;
  for (auto& c : i) c ^= 0x36;
  for (auto& c : o) c ^= 0x5c;
  return digest(md, o + digest(md, i + t));
}
// RSASSA-PKCS1-v1_5 from its definition (RFC 8017): compare the encoded message
inline bool rsa_pkcs1(RSA* k, const EVP_MD* md, const string& t, const string& sig) {
  size_t n = RSA_size(k);
  if (sig.size() != n) return false;
  string em(n, 0);
  size_t l = 0;
  if (!RSA_verify_raw(k, &l, (uint8_t*)&em[0], n, (const uint8_t*)sig.data(), sig.size(), RSA_NO_PADDING)) { ERR_clear_error(); return false; }
  em.resize(l);
  static const uint8_t p[] = {0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01, 0x05, 0x00, 0x04, 0x20};
  string d = digest(md, t), info((const char*)p, sizeof p);
  info[1] = (char)(0x11 + d.size());
  info[14] = (char)(d.size() == 32 ? 1 : d.size() == 48 ? 2 : 3);
  info[18] = (char)d.size();
  info += d;
  if (n < info.size() + 11) return false;
  return em == string("\0\1", 2) + string(n - info.size() - 3, (char)0xff) + string(1, 0) + info;
}
inline bool rsa_pss(RSA* k, const EVP_MD* md, const string& t, const string& sig) {
  string d = digest(md, t);
  bool ok = RSA_verify_pss_mgf1(k, (const uint8_t*)d.data(), d.size(), md, md, -2, (const uint8_t*)sig.data(), sig.size()) == 1;
  ERR_clear_error();
  return ok;
}
inline bool ec_ok(EC_KEY* k, const EVP_MD* md, const string& t, const string& sig) {
  size_t f = (EC_GROUP_get_degree(EC_KEY_get0_group(k)) + 7) / 8;
  if (sig.size() != 2 * f) return false;
  bssl::UniquePtr<ECDSA_SIG> s(ECDSA_SIG_new());
  BN_bin2bn((const uint8_t*)sig.data(), f, s->r);
  BN_bin2bn((const uint8_t*)sig.data() + f, f, s->s);
  string d = digest(md, t);
  bool ok = ECDSA_do_verify((const uint8_t*)d.data(), d.size(), s.get(), k) == 1;
  ERR_clear_error();
  return ok;
}
inline bool ed_ok(const string& pub, const string& t, const string& sig) {
  if (sig.size() != 64 || pub.size() != 32) return false;
  return ED25519_verify((const uint8_t*)t.data(), t.size(), (const uint8_t*)sig.data(), (const uint8_t*)pub.data()) == 1;
}
