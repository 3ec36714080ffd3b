#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include "google/protobuf/struct.pb.h"
#include "jwt_verify_lib/check_audience.h"
#include "jwt_verify_lib/jwks.h"
#include "jwt_verify_lib/jwt.h"
#include "jwt_verify_lib/status.h"
#include "jwt_verify_lib/struct_utils.h"
#include "jwt_verify_lib/verify.h"
#include "openssl/bio.h"
#include "openssl/bn.h"
#include "openssl/curve25519.h"
#include "openssl/ec.h"
#include "openssl/ec_key.h"
#include "openssl/ecdsa.h"
#include "openssl/evp.h"
#include "openssl/hmac.h"
#include "openssl/nid.h"
#include "openssl/pem.h"
#include "openssl/rsa.h"
#include "openssl/sha.h"
#include "openssl/x509.h"
using namespace google::jwt_verify;
using std::string;
using std::vector;
#define CHECK(c) do { if (!(c)) { printf("demo: %s does not hold\n", #c); exit(1); } } while (0)
static inline string b64(const string& s) {
  static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
  string o;
  size_t i = 0;
  for (; i + 2 < s.size(); i += 3) {
    uint32_t v = (uint8_t)s[i] << 16 | (uint8_t)s[i + 1] << 8 | (uint8_t)s[i + 2];
    o += A[v >> 18]; o += A[v >> 12 & 63]; o += A[v >> 6 & 63]; o += A[v & 63];
  }
  if (s.size() - i == 1) { uint32_t v = (uint8_t)s[i] << 16; o += A[v >> 18]; o += A[v >> 12 & 63]; }
  if (s.size() - i == 2) { uint32_t v = (uint8_t)s[i] << 16 | (uint8_t)s[i + 1] << 8; o += A[v >> 18]; o += A[v >> 12 & 63]; o += A[v >> 6 & 63]; }
  return o;
}
static inline string hmac(const EVP_MD* md, const string& k, const string& t) {
  uint8_t o[64];
  unsigned n = 0;
  HMAC(md, k.data(), k.size(), (const uint8_t*)t.data(), t.size(), o, &n);
  return string((char*)o, n);
}
static inline string octkey(const string& k, const string& kid, const string& alg = "") {
  return "{\"kty\":\"oct\",\"k\":\"" + b64(k) + "\"" + (kid.empty() ? "" : ",\"kid\":\"" + kid + "\"") + (alg.empty() ? "" : ",\"alg\":\"" + alg + "\"") + "}";
}
static inline string edkey(const uint8_t* pub, const string& kid = "") {
  return "{\"kty\":\"OKP\",\"crv\":\"Ed25519\",\"x\":\"" + b64(string((const char*)pub, 32)) + "\"" + (kid.empty() ? "" : ",\"kid\":\"" + kid + "\"") + "}";
}
static inline JwksPtr keys(const string& entries) { return Jwks::createFrom("{\"keys\":[" + entries + "]}", Jwks::JWKS); }
static inline string token(const string& h, const string& p, const string& sig) { return b64(h) + "." + b64(p) + "." + b64(sig); }
static inline string pem_of(EVP_PKEY* p) {
  bssl::UniquePtr<BIO> b(BIO_new(BIO_s_mem()));
  PEM_write_bio_PUBKEY(b.get(), p);
  const uint8_t* d; size_t n;
  BIO_mem_contents(b.get(), &d, &n);
  return string((const char*)d, n);
}
static inline bssl::UniquePtr<RSA> newrsa(int bits = 2048, unsigned long ex = 65537) {
  bssl::UniquePtr<RSA> k(RSA_new());
  bssl::UniquePtr<BIGNUM> e(BN_new());
  BN_set_word(e.get(), ex);
  CHECK(RSA_generate_key_ex(k.get(), bits, e.get(), nullptr));
  return k;
}
static inline string bnstr(const BIGNUM* b) { string s(BN_num_bytes(b), 0); BN_bn2bin(b, (uint8_t*)&s[0]); return s; }
static inline string rsakey(RSA* k, const string& kid = "", const string& alg = "") {
  return "{\"kty\":\"RSA\",\"n\":\"" + b64(bnstr(RSA_get0_n(k))) + "\",\"e\":\"" + b64(bnstr(RSA_get0_e(k))) + "\"" + (kid.empty() ? "" : ",\"kid\":\"" + kid + "\"") + (alg.empty() ? "" : ",\"alg\":\"" + alg + "\"") + "}";
}
static inline string rsapem(RSA* k) { bssl::UniquePtr<EVP_PKEY> p(EVP_PKEY_new()); EVP_PKEY_set1_RSA(p.get(), k); return pem_of(p.get()); }
static inline string sha(int bits, const string& t) {
  uint8_t d[64];
  if (bits == 256) { SHA256((const uint8_t*)t.data(), t.size(), d); return string((char*)d, 32); }
  if (bits == 384) { SHA384((const uint8_t*)t.data(), t.size(), d); return string((char*)d, 48); }
  SHA512((const uint8_t*)t.data(), t.size(), d); return string((char*)d, 64);
}
static inline string rs(RSA* k, int bits, const string& t) {
  string o(RSA_size(k), 0), d = sha(bits, t);
  unsigned n = 0;
  CHECK(RSA_sign(bits == 256 ? NID_sha256 : bits == 384 ? NID_sha384 : NID_sha512, (const uint8_t*)d.data(), d.size(), (uint8_t*)&o[0], &n, k));
  return o;
}
static inline string pad(string s, size_t n) { return string(n > s.size() ? n - s.size() : 0, 0) + s; }
static inline string es(EC_KEY* k, int bits, const string& t, size_t f) {
  string d = sha(bits, t);
  bssl::UniquePtr<ECDSA_SIG> s(ECDSA_do_sign((const uint8_t*)d.data(), d.size(), k));
  return pad(bnstr(s->r), f) + pad(bnstr(s->s), f);
}
static inline string ecpem(EC_KEY* k) { bssl::UniquePtr<EVP_PKEY> p(EVP_PKEY_new()); EVP_PKEY_set1_EC_KEY(p.get(), k); return pem_of(p.get()); }
static inline bssl::UniquePtr<EC_KEY> newec(int nid) { bssl::UniquePtr<EC_KEY> k(EC_KEY_new_by_curve_name(nid)); CHECK(EC_KEY_generate_key(k.get())); return k; }
static inline string cert(RSA* k) {
  bssl::UniquePtr<EVP_PKEY> p(EVP_PKEY_new());
  EVP_PKEY_set1_RSA(p.get(), k);
  bssl::UniquePtr<X509> x(X509_new());
  X509_set_version(x.get(), 2);
  ASN1_INTEGER_set(X509_get_serialNumber(x.get()), 1);
  X509_gmtime_adj(X509_get_notBefore(x.get()), 0);
  X509_gmtime_adj(X509_get_notAfter(x.get()), 31536000L);
  X509_set_pubkey(x.get(), p.get());
  X509_NAME* nm = X509_get_subject_name(x.get());
  X509_NAME_add_entry_by_txt(nm, "CN", MBSTRING_ASC, (const uint8_t*)"test", -1, -1, 0);
  X509_set_issuer_name(x.get(), nm);
  CHECK(X509_sign(x.get(), p.get(), EVP_sha256()));
  bssl::UniquePtr<BIO> b(BIO_new(BIO_s_mem()));
  PEM_write_bio_X509(b.get(), x.get());
  const uint8_t* d; size_t l;
  BIO_mem_contents(b.get(), &d, &l);
  return string((const char*)d, l);
}
static inline string jesc(const string& s) { string o; for (char c : s) { if (c == '\n') o += "\\n"; else o += c; } return o; }
