PLANTS = []
def plant(id, property, edits, needs, breaks, demo, **kw):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))
VER, JWK, JWT, SU, AUD, ST = 'src/verify.cc', 'src/jwks.cc', 'src/jwt.cc', 'src/struct_utils.cc', 'src/check_audience.cc', 'src/status.cc'

plant('c01-kid-prefix', 'C01', [(VER, '!jwk->kid_.empty() && jwk->kid_ != jwt.kid_) {', '!jwk->kid_.empty() &&\n        jwk->kid_.compare(0, jwt.kid_.size(), jwt.kid_) != 0) {')],
 'a key whose id merely begins with the id the token names', 'a token naming key "k1" is accepted under key "k10"', r'''
int main() {
  string h = b64("{\"alg\":\"HS256\",\"kid\":\"k1\"}"), p = b64("{}");
  Jwt j;
  CHECK(j.parseFromString(h + "." + p + "." + b64(hmac(EVP_sha256(), "secret", h + "." + p))) == Status::Ok);
  auto k = keys(octkey("secret", "k10"));
  CHECK(verifyJwtWithoutTimeChecking(j, *k) != Status::Ok);
}''')

plant('c01-alg-family', 'C01', [(VER, 'if (!jwk->alg_.empty() && jwk->alg_ != jwt.alg_) {', 'if (!jwk->alg_.empty() && jwk->alg_ != jwt.alg_ &&\n        (jwk->kty_ != "oct" || jwk->alg_.size() != jwt.alg_.size() ||\n         jwk->alg_ < jwt.alg_)) {')],
 'an oct key declared for a larger hash than the token uses', 'a key declared for HS512 is accepted for an HS256 token', r'''
int main() {
  string h = b64("{\"alg\":\"HS256\",\"kid\":\"k1\"}"), p = b64("{}");
  Jwt j;
  CHECK(j.parseFromString(h + "." + p + "." + b64(hmac(EVP_sha256(), "secret", h + "." + p))) == Status::Ok);
  auto k = keys(octkey("secret", "k1", "HS512"));
  CHECK(verifyJwtWithoutTimeChecking(j, *k) != Status::Ok);
}''')

plant('c02-ed-first', 'C02', [(VER, 'if (status == Status::Ok ||\n          status == Status::JwtEd25519SignatureWrongLength) {', 'if (status == Status::Ok ||\n          status == Status::JwtEd25519SignatureWrongLength ||\n          (!jwk->kid_.empty() && jwk->kid_ == jwt.kid_)) {')],
 'two Ed25519 keys with the same id, the right one second', 'key rotation under one id: a valid token is refused because the first key of that id does not verify it', r'''
int main() {
  uint8_t p1[32], s1[64], p2[32], s2[64], sig[64];
  ED25519_keypair(p1, s1); ED25519_keypair(p2, s2);
  string t = b64("{\"alg\":\"EdDSA\",\"kid\":\"k\"}") + "." + b64("{}");
  ED25519_sign(sig, (const uint8_t*)t.data(), t.size(), s2);
  Jwt j;
  CHECK(j.parseFromString(t + "." + b64(string((char*)sig, 64))) == Status::Ok);
  CHECK(verifyJwtWithoutTimeChecking(j, *keys(edkey(p2, "k") + "," + edkey(p1, "k"))) == Status::Ok);
  CHECK(verifyJwtWithoutTimeChecking(j, *keys(edkey(p1, "k") + "," + edkey(p2, "k"))) == Status::Ok);
}''')

plant('c02-last-match', 'C02', [(VER, '    if (!jwk->alg_.empty() && jwk->alg_ != jwt.alg_) {\n      continue;\n    }', '    if (!jwk->alg_.empty() && jwk->alg_ != jwt.alg_) {\n      kid_alg_matched = kid_alg_matched && jwk->kid_ != jwt.kid_;\n      continue;\n    }')],
 'a key set where a compatible key comes before one with the same id and another algorithm, and the signature is wrong', 'the failure is reported as JwksKidAlgMismatch although a compatible key exists', r'''
int main() {
  string t = b64("{\"alg\":\"HS256\",\"kid\":\"k\"}") + "." + b64("{}");
  Jwt j;
  CHECK(j.parseFromString(t + "." + b64(string(32, 'x'))) == Status::Ok);
  CHECK(verifyJwtWithoutTimeChecking(j, *keys(octkey("a", "k", "HS384") + "," + octkey("a", "k", "HS256"))) == Status::JwtVerificationFail);
  CHECK(verifyJwtWithoutTimeChecking(j, *keys(octkey("a", "k", "HS256") + "," + octkey("a", "k", "HS384"))) == Status::JwtVerificationFail);
}''')

plant('c03-long-text', 'C03', [(VER, 'if (EVP_DigestVerifyUpdate(md_ctx.get(), signed_data, signed_data_len) ==\n        1) {', 'if (EVP_DigestVerifyUpdate(md_ctx.get(), signed_data,\n                               static_cast<uint16_t>(signed_data_len)) == 1) {')],
 'an RSA token whose header and payload are longer than 65535 bytes', 'only part of a long text is covered by the RSA signature', r'''
int main() {
  auto k = newrsa();
  string t = b64("{\"alg\":\"RS256\"}") + "." + b64("{\"x\":\"" + string(60000, 'a') + "\"}");
  Jwt j;
  CHECK(j.parseFromString(t + "." + b64(rs(k.get(), 256, t))) == Status::Ok);
  CHECK(verifyJwtWithoutTimeChecking(j, *keys(rsakey(k.get()))) == Status::Ok);
}''')

plant('c03-pss-mgf', 'C03', [(VER, 'EVP_PKEY_CTX_set_rsa_mgf1_md(pctx, md) == 1 &&', 'EVP_PKEY_CTX_set_rsa_mgf1_md(\n          pctx, EVP_MD_size(md) == signature_len / 6 ? EVP_sha256() : md) == 1 &&')],
 'a PS512 token under a 3072 bit key', 'PS512 is verified with MGF1 over SHA-256 when the key has 3072 bits', r'''
int main() {
  auto k = newrsa(3072);
  string t = b64("{\"alg\":\"PS512\"}") + "." + b64("{}"), d = sha(512, t), o(384, 0);
  size_t n = 0;
  CHECK(RSA_sign_pss_mgf1(k.get(), &n, (uint8_t*)&o[0], 384, (const uint8_t*)d.data(), d.size(), EVP_sha512(), EVP_sha512(), 64));
  Jwt j;
  CHECK(j.parseFromString(t + "." + b64(o)) == Status::Ok);
  CHECK(verifyJwtWithoutTimeChecking(j, *keys(rsakey(k.get()))) == Status::Ok);
}''')

plant('c06-case', 'C06', [(AUD, '  } else if (absl::StartsWith(aud, HTTPSSchemePrefix)) {', '  } else if (absl::StartsWithIgnoreCase(aud, HTTPSSchemePrefix)) {')],
 'an audience with an upper-case https scheme', 'HTTPS://x matches x', r'''
int main() {
  CHECK(!CheckAudience({"example.com"}).areAudiencesAllowed({"HTTPS://example.com"}));
  CHECK(CheckAudience({"example.com"}).areAudiencesAllowed({"https://example.com"}));
}''')

plant('c07-now-zero', 'C07', [(VER, '  return verifyJwt(jwt, jwks, now);\n}', '  return now != 0 ? verifyJwt(jwt, jwks, now) : verifyJwt(jwt, jwks);\n}')],
 'the overload with audiences called with now = 0 and a token with a time claim', 'the given time 0 is replaced by the current time', r'''
int main() {
  string t = b64("{\"alg\":\"HS256\"}") + "." + b64("{\"aud\":\"a\",\"exp\":1000}");
  Jwt j;
  CHECK(j.parseFromString(t + "." + b64(hmac(EVP_sha256(), "s", t))) == Status::Ok);
  CHECK(verifyJwt(j, *keys(octkey("s", "")), vector<string>{"a"}, 0) == Status::Ok);
}''')

plant('c07-order', 'C07', [(VER, '  if (time_status != Status::Ok) {\n    return time_status;\n  }\n\n  return verifyJwtWithoutTimeChecking(jwt, jwks);', '  if (time_status == Status::JwtNotYetValid) {\n    return time_status;\n  }\n\n  const Status status = verifyJwtWithoutTimeChecking(jwt, jwks);\n  return status != Status::Ok ? status : time_status;')],
 'an expired token with a wrong signature', 'the signature failure is reported before the expiry', r'''
int main() {
  string t = b64("{\"alg\":\"HS256\"}") + "." + b64("{\"exp\":1000}");
  Jwt j;
  CHECK(j.parseFromString(t + "." + b64("wrong")) == Status::Ok);
  CHECK(verifyJwt(j, *keys(octkey("s", "")), 5000) == Status::JwtExpired);
}''')

plant('c08-alg-trim', 'C08', [(JWT, '  if (header_getter.GetString("kid", &kid_) == StructUtils::WRONG_TYPE) {', '  const auto kid_result = header_getter.GetString("kid", &kid_);\n  if (kid_result == StructUtils::OK && !kid_.empty() && kid_.back() == \'=\') {\n    kid_.pop_back();\n  }\n  if (kid_result == StructUtils::WRONG_TYPE) {')],
 'a kid that ends in an equals sign', 'the stored kid differs from the claim', r'''
int main() {
  Jwt j;
  CHECK(j.parseFromString(token("{\"alg\":\"HS256\",\"kid\":\"YWI=\"}", "{}", "sig")) == Status::Ok);
  CHECK(j.kid_ == "YWI=");
}''')

plant('c08-nested-claim', 'C08', [(JWT, '  if (payload_getter.GetString("jti", &jti_) == StructUtils::WRONG_TYPE) {', '  StructUtils jti_getter(sub_.empty() ? header_pb_ : payload_pb_);\n  if (jti_getter.GetString("jti", &jti_) == StructUtils::WRONG_TYPE) {')],
 'a payload with jti and without sub', 'jti is read from the header instead of the payload', r'''
int main() {
  Jwt j;
  CHECK(j.parseFromString(token("{\"alg\":\"HS256\"}", "{\"jti\":\"x\"}", "sig")) == Status::Ok);
  CHECK(j.jti_ == "x");
}''')

plant('c09-nbf-exp', 'C09', [(JWT, '  } else if (result == StructUtils::OUT_OF_RANGE) {\n    return Status::JwtPayloadParseErrorNbfOutOfRange;\n  }', '  } else if (result == StructUtils::OUT_OF_RANGE) {\n    if (payload_getter.GetUInt64("exp", &exp_) == StructUtils::OUT_OF_RANGE) {\n      return Status::JwtPayloadParseErrorExpOutOfRange;\n    }\n    return Status::JwtPayloadParseErrorNbfOutOfRange;\n  }')],
 'a payload where nbf and exp are both out of range', 'the second problem is reported instead of the first', r'''
int main() {
  Jwt j;
  CHECK(j.parseFromString(token("{\"alg\":\"HS256\"}", "{\"nbf\":-1,\"exp\":-1}", "sig")) == Status::JwtPayloadParseErrorNbfOutOfRange);
}''')

plant('c09-alg-before-json', 'C09', [(JWT, '  if (!absl::WebSafeBase64Unescape(payload_str_base64url_, &payload_str_)) {\n    return Status::JwtPayloadParseErrorBadBase64;\n  }', '  if (!absl::WebSafeBase64Unescape(payload_str_base64url_, &payload_str_)) {\n    return Status::JwtPayloadParseErrorBadBase64;\n  }\n  if (payload_str_.size() < 2) {\n    return Status::JwtPayloadParseErrorBadBase64;\n  }')],
 'a payload that decodes to a single byte', 'a JSON failure is reported as a base64 failure', r'''
int main() {
  Jwt j;
  CHECK(j.parseFromString(b64("{\"alg\":\"HS256\"}") + "." + b64("1") + "." + b64("sig")) == Status::JwtPayloadParseErrorBadJson);
}''')

plant('c10-fast-copy', 'C10', [(JWT, '  parseFromString(rhs.jwt_);\n  return *this;', '  if (parseFromString(rhs.jwt_) != Status::Ok) {\n    header_str_ = rhs.header_str_;\n    alg_ = rhs.alg_;\n  }\n  return *this;')],
 'copying a token whose fields were changed after the parse', 'the copy of a token whose text does not parse takes fields from the source instead of from the text', r'''
int main() {
  Jwt a, b, fresh;
  a.parseFromString("not a token");
  a.alg_ = "none";
  b = a;
  fresh.parseFromString("not a token");
  CHECK(b.alg_ == fresh.alg_);
}''')

plant('c11-skip-empty', 'C11', [(SU, '      absl::StrSplit(nested_names, \'.\');', '      absl::StrSplit(nested_names, \'.\', absl::SkipEmpty());')],
 'a path with an empty component, or a member whose name is empty', 'a..b finds a.b, and the member with the empty name is not found', r'''
int main() {
  google::protobuf::Struct s;
  (*(*s.mutable_fields())["a"].mutable_struct_value()->mutable_fields())["b"].set_string_value("v");
  string o = "u";
  CHECK(StructUtils(s).GetString("a.b", &o) == StructUtils::OK);
  o = "u";
  CHECK(StructUtils(s).GetString("a..b", &o) == StructUtils::MISSING && o == "u");
}''')

plant('c11-list-clear', 'C11', [(SU, '  if (found->kind_case() == google::protobuf::Value::kListValue) {\n', '  if (found->kind_case() == google::protobuf::Value::kListValue) {\n    if (found->list_value().values_size() > 1) {\n      list->clear();\n    }\n')],
 'a list output that already holds elements, and a list of more than one string', 'existing elements of the output are lost', r'''
int main() {
  google::protobuf::Struct s;
  auto* l = (*s.mutable_fields())["a"].mutable_list_value();
  l->add_values()->set_string_value("1"); l->add_values()->set_string_value("2");
  vector<string> o = {"0"};
  CHECK(StructUtils(s).GetStringList("a", &o) == StructUtils::OK);
  CHECK(o == (vector<string>{"0", "1", "2"}));
}''')

plant('c12-max', 'C12', [(SU, '      double_value >=\n          static_cast<double>(std::numeric_limits<uint64_t>::max())) {', '      double_value >\n          static_cast<double>(std::numeric_limits<uint64_t>::max())) {')],
 'the number 2^64', '2^64 is accepted and converted to something else', r'''
int main() {
  google::protobuf::Struct s;
  (*s.mutable_fields())["a"].set_number_value(18446744073709551616.0);
  uint64_t o = 7;
  CHECK(StructUtils(s).GetUInt64("a", &o) == StructUtils::OUT_OF_RANGE && o == 7);
}''')

plant('c13-dup-kid', 'C13', [(JWK, '    if (status == Status::Ok) {\n      keys_.push_back(std::move(key_ptr));\n      resetStatus(status);', '    if (status == Status::Ok) {\n      if (!keys_.empty() && !key_ptr->kid_.empty() &&\n          keys_.back()->kid_ == key_ptr->kid_) {\n        continue;\n      }\n      keys_.push_back(std::move(key_ptr));\n      resetStatus(status);')],
 'two consecutive acceptable entries with the same id', 'the second of two keys with one id is dropped', r'''
int main() {
  CHECK(keys(octkey("a", "k") + "," + octkey("b", "k"))->keys().size() == 2);
}''')

plant('c13-status', 'C13', [(JWK, '  if (keys_.empty()) {\n    updateStatus(Status::JwksNoValidKeys);', '  if (keys_.empty()) {\n    if (keys_it->second.list_value().values_size() > 2) {\n      resetStatus(Status::JwksNoValidKeys);\n    }\n    updateStatus(Status::JwksNoValidKeys);')],
 'three or more entries, all of them failing', 'the first failure is hidden behind JwksNoValidKeys', r'''
int main() {
  CHECK(keys("{\"kty\":\"oct\"},{},{}")->getStatus() == Status::JwksHMACKeyMissingK);
}''')

plant('c14-okp-len', 'C14', [(JWK, '} else if (x_decoded.length() != keylen) {', '} else if (x_decoded.length() < keylen) {')],
 'an Ed25519 entry with more than 32 bytes', 'an OKP key longer than 32 bytes is imported', r'''
int main() {
  CHECK(keys("{\"kty\":\"OKP\",\"crv\":\"Ed25519\",\"x\":\"" + b64(string(33, 'a')) + "\"}")->keys().empty());
}''')

plant('c14-exponent', 'C14', [(JWK, 'if (BN_cmp_word(e_bn.get(), 3) != 0 &&', 'if (BN_cmp_word(e_bn.get(), 3) != 0 && BN_cmp_word(e_bn.get(), 17) != 0 &&')],
 'an RSA entry with exponent 17', 'a key with a non-standard exponent is imported', r'''
int main() {
  auto k = newrsa(2048, 17);
  CHECK(keys(rsakey(k.get()))->keys().empty());
}''')

plant('c15-suffix', 'C15', [(JWK, '    if (!absl::StartsWith(cert, kX509CertPrefix) ||\n        !absl::EndsWith(cert, kX509CertSuffix)) {', '    if (!absl::StartsWith(cert, kX509CertPrefix) ||\n        !absl::StrContains(cert, kX509CertSuffix)) {')],
 'a member whose text goes on after the certificate', 'an object is read as certificates although a member does not end with the suffix', r'''
int main() {
  auto k = newrsa();
  string c = cert(k.get());
  CHECK(Jwks::createFrom("{\"a\":\"" + jesc(c) + "\"}", Jwks::JWKS)->getStatus() == Status::Ok);
  auto j = Jwks::createFrom("{\"a\":\"" + jesc(c + "x") + "\"}", Jwks::JWKS);
  CHECK(j->getStatus() == Status::JwksNoKeys && j->keys().empty());
}''')

plant('c15-es-crv', 'C15', [(JWK, '  if (jwk->alg_ == "ES512") {\n    jwk->crv_ = "P-521";\n  }\n  return ret;', '  if (jwk->alg_ == "ES512") {\n    jwk->crv_ = "P-521";\n  }\n  if (jwk->crv_ == "Ed25519" && jwk->alg_.empty()) {\n    jwk->alg_ = "EdDSA";\n  }\n  return ret;')],
 'an Ed25519 PEM imported without an alg', 'the key does not hold the given (empty) alg', r'''
int main() {
  uint8_t pub[32], priv[64];
  ED25519_keypair(pub, priv);
  bssl::UniquePtr<EVP_PKEY> p(EVP_PKEY_new_raw_public_key(EVP_PKEY_ED25519, nullptr, pub, 32));
  auto j = Jwks::createFromPem(pem_of(p.get()), "k", "");
  CHECK(j->getStatus() == Status::Ok && j->keys().size() == 1);
  CHECK(j->keys()[0]->alg_ == "");
}''')

plant('c16-replace', 'C16', [(JWK, '  keys_.insert(keys_.end(), std::make_move_iterator(tmp->keys_.begin()),', '  if (!keys_.empty() && !kid.empty() && keys_.back()->kid_ == kid) {\n    keys_.pop_back();\n  }\n  keys_.insert(keys_.end(), std::make_move_iterator(tmp->keys_.begin()),')],
 'adding a key under the id of the last key of the set', 'the existing key is removed', r'''
int main() {
  auto a = newrsa(1024), b = newrsa(1024);
  auto j = Jwks::createFromPem(rsapem(a.get()), "k", "RS256");
  CHECK(j->addKeyFromPem(rsapem(b.get()), "k", "RS384") == Status::Ok);
  CHECK(j->keys().size() == 2);
}''')

plant('c17-release', 'C17', [(JWK, '    bssl::UniquePtr<RSA> rsa(RSA_new());\n    if (rsa == nullptr ||\n        !RSA_set0_key(rsa.get(), n_bn.get(), e_bn.get(), /*d=*/nullptr)) {\n      // Allocation or programmer error.\n      updateStatus(Status::JwksRsaParseError);\n      return nullptr;\n    }\n    // `RSA_set0_key` takes ownership, but only on success.\n    n_bn.release();\n    e_bn.release();\n    if (!RSA_check_key(rsa.get())) {', '    bssl::UniquePtr<RSA> rsa(RSA_new());\n    if (rsa == nullptr ||\n        !RSA_set0_key(rsa.get(), n_bn.get(), e_bn.get(), /*d=*/nullptr)) {\n      // Allocation or programmer error.\n      updateStatus(Status::JwksRsaParseError);\n      return nullptr;\n    }\n    // `RSA_set0_key` takes ownership, but only on success.\n    n_bn.release();\n    e_bn.release();\n    if (BN_is_odd(RSA_get0_n(rsa.get())) == 0) {\n      // An even modulus cannot be an RSA modulus.\n      updateStatus(Status::JwksRsaParseError);\n      rsa.release();\n      return nullptr;\n    }\n    if (!RSA_check_key(rsa.get())) {')],
 'an RSA entry with an even modulus', 'the RSA object is leaked on that path', r'''
#include <malloc.h>
int main() {
  string e = "{\"kty\":\"RSA\",\"n\":\"" + b64(string(256, '\x80')) + "\",\"e\":\"AQAB\"}";
  for (int i = 0; i < 50; i++) keys(e);
  size_t a = mallinfo2().uordblks;
  for (int i = 0; i < 200; i++) keys(e);
  size_t b = mallinfo2().uordblks;
  CHECK(b < a + 200 * 64);
}''')

plant('c17-pem-len', 'C17', [(JWK, 'BIO_new_mem_buf(pkey_pem.data(), pkey_pem.size()));', 'BIO_new_mem_buf(pkey_pem.data(), (pkey_pem.size() + 7) & ~7u));')],
 'a PEM text whose length is not a multiple of eight', 'the reader runs over the end of the text', r'''
#include <sanitizer/asan_interface.h>
#include <dlfcn.h>
extern "C" BIO* BIO_new_mem_buf(const void* b, ossl_ssize_t n) {
  static auto real = (BIO* (*)(const void*, ossl_ssize_t))dlsym(RTLD_NEXT, "BIO_new_mem_buf");
  CHECK(!__asan_region_is_poisoned((void*)b, n));
  return real(b, n);
}
int main() {
  string s(1001, 'x');
  s.shrink_to_fit();
  Jwks::createFrom(s, Jwks::PEM);
  s.resize(1003);
  s = string(s.begin(), s.end());
  for (int n = 1000; n < 1009; n++) Jwks::createFrom(string(n, 'x'), Jwks::PEM);
}''', san='-fsanitize=address -rdynamic')

plant('c18-same', 'C18', [(ST, 'return "[crv] field is not supported for an OKP key";', 'return "[crv] or [alg] field is not supported for an EC key";')] ,
 'the two statuses for an unsupported curve', 'two different failures carry the same text', r'''
int main() {
  CHECK(getStatusString(Status::JwksOKPKeyCrvUnsupported) != getStatusString(Status::JwksECKeyAlgOrCrvUnsupported));
}''')

plant('c18-default', 'C18', [('jwt_verify_lib/status.h', '    if (status_ == Status::Ok) {\n      status_ = status;\n    }', '    if (status_ == Status::Ok || status_ == Status::JwksNoValidKeys) {\n      status_ = status;\n    }')],
 'a holder whose first failure is JwksNoValidKeys', 'the first failure is replaced by a later one', r'''
struct H : public WithStatus { void up(Status s) { updateStatus(s); } };
int main() {
  H h;
  h.up(Status::JwksNoValidKeys);
  h.up(Status::JwksParseError);
  CHECK(h.getStatus() == Status::JwksNoValidKeys);
}''')

plant('c04-key-long', 'C04', [(VER, '  if (HMAC(md, key, key_len, signed_data,', '  const size_t block = EVP_MD_size(md) > 32 ? 128 : 64;\n  if (HMAC(md, key, key_len < block ? key_len : block, signed_data,')],
 'an oct key longer than the block of the hash', 'only the first block of a long key is used', r'''
int main() {
  string t = b64("{\"alg\":\"HS256\"}") + "." + b64("{}"), k(100, 'k');
  Jwt j;
  CHECK(j.parseFromString(t + "." + b64(hmac(EVP_sha256(), k, t))) == Status::Ok);
  CHECK(verifyJwtWithoutTimeChecking(j, *keys(octkey(k, ""))) == Status::Ok);
}''')

plant('c04-longer', 'C04', [(VER, '  if (out_len != signature_len) {\n', '  if (signature_len < out_len) {\n'), (VER, 'if (CRYPTO_memcmp(out.data(), signature, signature_len) == 0) {', 'if (CRYPTO_memcmp(out.data(), signature, out_len) == 0) {')],
 'an HMAC signature with bytes after it', 'a signature that goes on after the MAC is accepted', r'''
int main() {
  string t = b64("{\"alg\":\"HS384\"}") + "." + b64("{}");
  Jwt j;
  CHECK(j.parseFromString(t + "." + b64(hmac(EVP_sha384(), "secret", t) + "x")) == Status::Ok);
  CHECK(verifyJwtWithoutTimeChecking(j, *keys(octkey("secret", ""))) != Status::Ok);
}''')

plant('c06-slashes', 'C06', [(AUD, "  if (aud[end_pos - 1] == '/') {\n    --end_pos;", "  while (end_pos > beg_pos && aud[end_pos - 1] == '/') {\n    --end_pos;")],
 'an audience ending with two slashes', 'every trailing slash is dropped instead of one', r'''
int main() {
  CHECK(!CheckAudience({"example.com"}).areAudiencesAllowed({"example.com//"}));
  CHECK(CheckAudience({"example.com"}).areAudiencesAllowed({"example.com/"}));
}''')

plant('c14-oct-long', 'C14', [(JWK, '  jwk->hmac_key_ = key;', '  jwk->hmac_key_ = key.substr(0, 256);')],
 'an oct entry with a secret of more than 256 bytes', 'the imported secret is cut', r'''
int main() {
  string k(300, 'k');
  auto j = keys(octkey(k, ""));
  CHECK(j->keys().size() == 1 && j->keys()[0]->hmac_key_ == k);
}''')

plant('c16-failed-set', 'C16', [(JWK, '                           const std::string& alg) {\n  JwksPtr tmp =', '                           const std::string& alg) {\n  if (getStatus() != Status::Ok && keys_.empty()) {\n    return getStatus();\n  }\n  JwksPtr tmp =')],
 'addKeyFromPem with a good key on a set that failed to load', 'the good key is not added', r'''
int main() {
  auto a = newrsa(1024);
  auto j = Jwks::createFrom("nonsense", Jwks::JWKS);
  CHECK(j->addKeyFromPem(rsapem(a.get()), "k", "RS384") == Status::Ok);
  CHECK(j->keys().size() == 1);
}''')

LRU = 'simple_lru_cache/simple_lru_cache_inl.h'
LPRE = r'''
#include "simple_lru_cache/simple_lru_cache.h"
#include "simple_lru_cache/simple_lru_cache_inl.h"
using namespace google::simple_lru_cache;
static int64_t now_us = 1700000000000000ll;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(microseconds(now_us)); }
}}}
static int destroyed[64];
struct Val { int id; explicit Val(int i) : id(i) {} ~Val() { destroyed[id]++; } };
typedef SimpleLRUCache<int, Val> Cache;
typedef SimpleLRUCacheOptions Opt;
static inline Opt noupd() { Opt o; o.set_update_eviction_order(false); return o; }
'''
def lplant(id, property, edits, needs, breaks, demo): plant(id, property, [(LRU, a, b) for a, b in edits], needs, breaks, LPRE + demo, lru=True)

lplant('c20-defer-head', 'C20', [('            if (e->prev != e) {', '            if (e->prev != e && e->prev->pin < 2) {')],
 'two removed entries of one key, the newer pinned twice, and the older released first', 'the other one is lost: its value is never destroyed', r'''
int main() {
  Cache c(10);
  Val *a = new Val(1), *b = new Val(2);
  c.insertPinned(1, a, 1); c.remove(1);
  c.insertPinned(1, b, 1); c.lookup(1); c.remove(1);
  c.release(1, a);
  CHECK(destroyed[1] == 1 && destroyed[2] == 0);
  CHECK(c.stillInUse(1, b));
  c.release(1, b);
  c.release(1, b);
  CHECK(destroyed[2] == 1);
}''')

lplant('c20-clear-deferred', 'C20', [('      while (e != head && e->value != value) {', '      while (e != head && (e->value != value || e->pin > 1)) {')],
 'a removed entry with two pins of which one is released, while another removed entry of the key is there', 'the release reaches the wrong entry', r'''
int main() {
  Cache c(10);
  Val *a = new Val(1), *b = new Val(2);
  c.insertPinned(1, a, 1); c.remove(1);
  c.insertPinned(1, b, 1); c.lookup(1); c.remove(1);
  CHECK(c.deferredEntries() == 2);
  c.insertPinned(1, new Val(3), 1);
  // b has two pins
  c.release(1, b);
  CHECK(destroyed[2] == 0);
  c.release(1, b);
  CHECK(destroyed[2] == 1 && destroyed[1] == 0);
  c.release(1, a);
  CHECK(destroyed[1] == 1 && destroyed[3] == 0);
  _exit(0);
}''')

lplant('c21-deferred-pinned', 'C21', [('          units_ -= e->units;\n          e->units = units;\n          units_ += e->units;\n        }\n        e = e->prev;', '          const int64_t grown = static_cast<int64_t>(units) - e->units;\n          e->units = units;\n          units_ += grown;\n          if (value != nullptr) break;\n          pinned_units_ += grown;\n        }\n        e = e->prev;')],
 'the size of a removed, still pinned entry is updated by key alone', 'pinnedSize() counts units of an entry that has left the cache', r'''
int main() {
  Cache c(10);
  Val* a = new Val(1);
  c.insertPinned(1, a, 1); c.remove(1);
  CHECK(c.pinnedSize() == 0);
  c.updateSize(1, nullptr, 4);
  CHECK(c.pinnedSize() == 0 && c.size() == 4 && c.deferredSize() == 4);
  c.release(1, a);
  CHECK(c.size() == 0 && c.pinnedSize() == 0);
}''')

lplant('c21-remove-age', 'C21', [('  e->unlink();\n  if (e->pin > 0) {\n    pinned_units_ -= e->units;', '  const bool was_listed = e->isLinked();\n  e->unlink();\n  if (e->pin > 0) {\n    if (lru_ || was_listed == (max_idle_ < 0)) pinned_units_ -= e->units;')],
 'age mode with a limit set, and a pinned entry leaves the cache', 'pinnedSize() still counts the entry', r'''
int main() {
  Cache c(10);
  c.setAgeBasedEviction(10);
  Val* a = new Val(1);
  c.insertPinned(1, a, 3);
  CHECK(c.pinnedSize() == 3);
  c.remove(1);
  CHECK(c.pinnedSize() == 0);
  c.release(1, a);
  CHECK(c.pinnedSize() == 0 && c.size() == 0);
}''')

lplant('c22-first-pinned', 'C22', [('      e->unlink();\n      discard(e);\n    }\n    e = prev;', '      e->unlink();\n      discard(e);\n      if (prev != &head_ && prev->pin > 0) prev = prev->prev;\n      if (prev->pin > 0) break;\n    }\n    e = prev;')],
 'two pinned entries next to each other on the list behind an entry that is evicted, and more to evict', 'eviction stops too early: the cache stays over its maximum with unpinned entries in it', r'''
int main() {
  Cache c(10);
  c.setAgeBasedEviction(1000);
  for (int i = 1; i <= 6; i++) { c.insert(i, new Val(i), 1); now_us++; }
  c.lookup(2); c.lookup(3);
  c.setMaxSize(3);
  CHECK(c.size() == 3);
  CHECK(destroyed[1] == 1 && destroyed[4] == 1 && destroyed[5] == 1 && destroyed[6] == 0);
  _exit(0);
}''')

lplant('c22-update-front', 'C22', [('    Elem* e = table_iter->second;\n    units_ -= e->units;', '    Elem* e = table_iter->second;\n    if (lru_ && e->isLinked() && units > e->units) {\n      e->unlink();\n      e->link(&head_);\n    }\n    units_ -= e->units;')],
 'the size of an unpinned entry grows before an eviction', 'the entry is treated as the most recently used one, and a more recent one is evicted', r'''
int main() {
  Cache c(6);
  for (int i = 1; i <= 3; i++) { c.insert(i, new Val(i), 1); now_us++; }
  c.updateSize(1, nullptr, 2);
  c.setMaxSize(2);
  CHECK(c.lookup(3) && c.lookup(2) && !c.lookup(1));
  _exit(0);
}''')

lplant('c23-limit-zero', 'C23', [('  if (max_idle < 0) return;\n', '  if (max_idle < 0 || (max_idle == 0 && !lru_)) return;\n')],
 'age limit below one microsecond', 'entries past the limit are still returned', r'''
int main() {
  Cache c(6);
  c.setAgeBasedEviction(0);
  c.insert(1, new Val(1), 1);
  now_us += 5;
  CHECK(!c.lookup(1));
}''')

lplant('c23-overflow', 'C23', [('  const int64_t threshold = SimpleCycleTimer::now() - max_idle;\n', '  const int64_t now = SimpleCycleTimer::now();\n  const int64_t threshold =\n      now - (max_idle > kSecToUsec * 86400 * 365 ? max_idle / 2 : max_idle);\n')],
 'a limit of more than a year', 'entries expire at half the limit', r'''
int main() {
  Cache c(6);
  c.setMaxIdleSeconds(86400.0 * 365 * 4);
  c.insert(1, new Val(1), 1);
  now_us += 86400ll * 365 * 3 * 1000000;
  CHECK(c.lookup(1));
  _exit(0);
}''')

lplant('c19-still', 'C19', [('  } else {\n    return inDeferredTable(k, value);\n  }', '  } else {\n    return (value != nullptr || iter == table_.end() || iter->second->pin == 0) &&\n           inDeferredTable(k, value);\n  }'), ('      if (e->value == value || value == nullptr) return true;', '      if (e->value == value || value == nullptr) return e->units > 0;')],
 'a removed, pinned entry of no units', 'stillInUse denies that the value is in use', r'''
int main() {
  Cache c(6);
  Val* a = new Val(1);
  c.insertPinned(1, a, 0);
  c.remove(1);
  CHECK(c.stillInUse(1, a) && c.stillInUse(1));
  c.release(1, a);
  CHECK(!c.stillInUse(1, a));
}''')

lplant('c19-unpinned-order', 'C19', [('  for (Elem* e = head_.next; e != &head_;) {\n    Elem* next = e->next;\n    if (e->pin == 0) remove(e->key);', '  for (Elem* e = head_.next; e != &head_;) {\n    Elem* next = e->next;\n    if (e->pin == 0 && (e->units > 0 || next != &head_)) remove(e->key);')],
 'the oldest entry has no units when removeUnpinned is called', 'a removed key is still found', r'''
int main() {
  Cache c(6);
  c.insert(1, new Val(1), 0);
  now_us++;
  c.insert(2, new Val(2), 1);
  c.removeUnpinned();
  CHECK(!c.lookup(2) && !c.lookup(1));
  _exit(0);
}''')
