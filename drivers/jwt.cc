// C05, C08, C09, C10: token text parsed by the real code, compared with an own chain of checks over the JSON parser and the base64 decoder.
#include "common.h"
#ifdef MEM
#include "mem.h"
#endif

static void c05(Rng& r) {
  Jwt j;
  uint64_t now = num64(r), skew = r.chance(30) ? 60 : num64(r);
  auto near = [&]() -> uint64_t {
    uint64_t d = r.below(5) - 2;
    switch (r.below(8)) {
      case 0: return 0;
      case 1: return now + skew + d;
      case 2: return now - skew + d;
      case 3: return now + d;
      case 4: return num64(r) + d;
      case 5: return ~0ull - r.below(3);
      case 6: return now + skew;
      default: return r.chance(50) ? num64(r) : now + r.below(200) - 100;
    }
  };
  j.nbf_ = near();
  j.exp_ = near();
  j.iat_ = near();
  if (r.chance(30)) j.nbf_ = r.below(2);
  begin_case("now=" + tostr(now) + " clock_skew=" + tostr(skew) + " nbf=" + tostr(j.nbf_) + " exp=" + tostr(j.exp_) + " iat=" + tostr(j.iat_));
  unsigned __int128 n = now, k = skew;
  Status w = (unsigned __int128)j.nbf_ > n + k ? Status::JwtNotYetValid : j.exp_ != 0 && n > (unsigned __int128)j.exp_ + k ? Status::JwtExpired : Status::Ok;
  bucket("status " + std::to_string((int)w));
  REQUIRE_EQ(j.verifyTimeConstraint(now, skew), w, "verifyTimeConstraint(now, clock_skew)");
  if (skew == 60) REQUIRE_EQ(j.verifyTimeConstraint(now), w, "verifyTimeConstraint(now)");
}

static string num_text(Rng& r) {
  static const vector<string> n = {"0", "-0", "0.0", "-0.0", "1", "1.5", "0.999999", "-1", "-0.5", "-1e-300", "1e3", "1.7e9", "1700000000", "9007199254740993", "18446744073709551615", "18446744073709551616",
    "18446744073709549568", "18446744073709550591", "18446744073709550592", "9223372036854775807", "9223372036854775808", "9223372036854775809", "1e19", "1.8e19", "2e19", "1e308", "-1e308", "4294967296", "4294967295", "1e-5", "-9223372036854775808", "1e20"};
  return r.chance(15) ? std::to_string(num64(r)) : r.chance(10) ? std::to_string(num64(r)) + "." + std::to_string(r.below(1000)) : r.pick(n);
}
static string any_json(Rng& r, int depth = 2) {
  switch (r.below(depth > 0 ? 9 : 6)) {
    case 0: return "null";
    case 1: return r.chance(50) ? "true" : "false";
    case 2: return num_text(r);
    case 3: case 4: case 5: return jstr(aword(r));
    case 6: { string s = "["; size_t n = r.below(4); for (size_t i = 0; i < n; i++) s += (i ? "," : "") + (r.chance(70) ? jstr(aword(r)) : any_json(r, depth - 1)); return s + "]"; }
    default: { string s = "{"; size_t n = r.below(3); for (size_t i = 0; i < n; i++) s += (i ? "," : "") + jstr(aword(r)) + ":" + any_json(r, depth - 1); return s + "}"; }
  }
}
static const vector<string> ALGS = {"ES256", "ES384", "ES512", "HS256", "HS384", "HS512", "RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "EdDSA"};
static void member(string* o, const string& k, const string& v) { *o += (o->size() > 1 ? "," : "") + jstr(k) + ":" + v; }
static string str_claim(Rng& r, int bad) { return r.chance(bad) ? any_json(r) : jstr(aword(r)); }
static string header(Rng& r, int bad) {
  string o = "{";
  vector<std::function<void()>> m;
  if (!r.chance(bad)) m.push_back([&] { member(&o, "alg", r.chance(bad) ? any_json(r) : r.chance(bad) ? jstr(vary(r, r.pick(ALGS))) : jstr(r.pick(ALGS))); });
  if (r.chance(60)) m.push_back([&] { member(&o, "kid", str_claim(r, bad)); });
  for (size_t n = r.below(3); n > 0; n--) m.push_back([&] { member(&o, aword(r), any_json(r)); });
  while (!m.empty()) { size_t i = r.below(m.size()); m[i](); m.erase(m.begin() + i); }
  return o + "}";
}
static string payload(Rng& r, int bad) {
  string o = "{";
  vector<std::function<void()>> m;
  for (const char* k : {"iss", "sub", "jti"}) if (r.chance(55)) m.push_back([&r, &o, k, bad] { member(&o, k, str_claim(r, bad)); });
  for (const char* k : {"iat", "nbf", "exp"}) if (r.chance(55)) m.push_back([&r, &o, k, bad] { member(&o, k, r.chance(bad) ? any_json(r) : r.chance(50) ? num_text(r) : std::to_string(r.below(1ull << 53))); });
  if (r.chance(65)) m.push_back([&] {
    if (r.chance(bad)) { member(&o, "aud", any_json(r)); return; }
    if (r.chance(40)) { member(&o, "aud", jstr(aword(r))); return; }
    string l = "[";
    size_t n = r.chance(4) ? r.below(100) : r.below(5);
    for (size_t i = 0; i < n; i++) l += (i ? "," : "") + (r.chance(bad / 3) ? any_json(r) : jstr(aword(r)));
    member(&o, "aud", l + "]");
  });
  for (size_t n = r.below(3); n > 0; n--) m.push_back([&] { member(&o, r.chance(20) ? string("aud.x") : aword(r), any_json(r)); });
  while (!m.empty()) { size_t i = r.below(m.size()); m[i](); m.erase(m.begin() + i); }
  return o + "}";
}
static string corrupt64(Rng& r, string s) {
  switch (r.below(9)) {
    case 0: while (s.size() % 4) s += '='; return s;
    case 1: s += "="; return s;
    case 2: if (!s.empty()) s[r.below(s.size())] = "+/*!$ =~\n"[r.below(9)]; return s;
    case 3: return s.substr(0, s.size() - std::min<size_t>(1, s.size()));
    case 4: return s + "A";
    case 5: return "";
    case 6: return s + " ";
    case 7: if (!s.empty()) s[r.below(s.size())] = (char)r.next(); return s;
    default: return " " + s;
  }
}
static string token(Rng& r) {
  int bad = r.pick(vector<int>{0, 0, 5, 15, 40});
  string h = header(r, bad), p = payload(r, bad), s = r.chance(80) ? r.bytes(r.below(80)) : word(r);
  if (r.chance(3)) s = r.bytes(r.below(3000));
  if (r.chance(bad)) h = r.chance(50) ? any_json(r) : vary(r, h);
  if (r.chance(bad)) p = r.chance(50) ? any_json(r) : vary(r, p);
  if (r.chance(10)) h = r.pick(vector<string>{" ", "\n", "\t"}) + h;
  if (r.chance(10)) p += r.pick(vector<string>{" ", "\n", "\t"});
  h = b64(h); p = b64(p); s = b64(s);
  if (r.chance(bad / 2)) h = corrupt64(r, h);
  if (r.chance(bad / 2)) p = corrupt64(r, p);
  if (r.chance(bad / 2)) s = corrupt64(r, s);
  if (s.empty() && !r.chance(5)) s = "AA";
  string t = h + "." + p + "." + s;
  if (r.chance(bad / 2)) switch (r.below(10)) {
    case 0: t += "."; break;
    case 1: t = "." + t; break;
    case 2: t = h + ".." + p + "." + s; break;
    case 3: t = h + "." + p; break;
    case 4: t += ".AA"; break;
    case 5: t = h + "." + p + "."; break;
    case 6: t.insert(r.below(t.size() + 1), 1, '.'); break;
    case 7: t = word(r); break;
    case 8: t = h + "." + p + ".." + s; break;
    case 9: t = string(r.below(5), '.'); break;
  }
  return t;
}

struct Ref {
  Status st;
  string h64, h, p64, p, sig, alg, kid, iss, sub, jti;
  vector<string> aud;
  uint64_t iat = 0, nbf = 0, exp = 0;
  PStruct hpb, ppb;
};
static const PValue* get(const PStruct& s, const string& k) { auto it = s.fields().find(k); return it == s.fields().end() ? nullptr : &it->second; }
static bool optstr(const PStruct& s, const string& k, string* o) {
  const PValue* v = get(s, k);
  if (!v) return true;
  if (v->kind_case() != PValue::kStringValue) return false;
  *o = v->string_value();
  return true;
}
static int optnum(const PStruct& s, const string& k, uint64_t* o) {
  const PValue* v = get(s, k);
  if (!v) return 0;
  if (v->kind_case() != PValue::kNumberValue) return 1;
  double d = v->number_value();
  if (std::isnan(d) || d < 0 || d >= 18446744073709551616.0) return 2;
  *o = (uint64_t)d;
  return 0;
}
static Status parse(const string& t, Ref* R) {
  size_t a = t.find('.'), b = a == string::npos ? a : t.find('.', a + 1);
  if (b == string::npos || t.find('.', b + 1) != string::npos || a == 0 || b == a + 1 || b + 1 == t.size()) return Status::JwtBadFormat;
  google::protobuf::util::JsonParseOptions o;
  R->h64 = t.substr(0, a);
  R->p64 = t.substr(a + 1, b - a - 1);
  if (!absl::WebSafeBase64Unescape(R->h64, &R->h)) return Status::JwtHeaderParseErrorBadBase64;
  if (!google::protobuf::util::JsonStringToMessage(R->h, &R->hpb, o).ok()) return Status::JwtHeaderParseErrorBadJson;
  if (!get(R->hpb, "alg") || !optstr(R->hpb, "alg", &R->alg)) return Status::JwtHeaderBadAlg;
  bool known = false;
  for (auto& x : ALGS) known |= x == R->alg;
  if (!known) return Status::JwtHeaderNotImplementedAlg;
  if (!optstr(R->hpb, "kid", &R->kid)) return Status::JwtHeaderBadKid;
  if (!absl::WebSafeBase64Unescape(R->p64, &R->p)) return Status::JwtPayloadParseErrorBadBase64;
  if (!google::protobuf::util::JsonStringToMessage(R->p, &R->ppb, o).ok()) return Status::JwtPayloadParseErrorBadJson;
  if (!optstr(R->ppb, "iss", &R->iss)) return Status::JwtPayloadParseErrorIssNotString;
  if (!optstr(R->ppb, "sub", &R->sub)) return Status::JwtPayloadParseErrorSubNotString;
  int c = optnum(R->ppb, "iat", &R->iat);
  if (c) return c == 1 ? Status::JwtPayloadParseErrorIatNotInteger : Status::JwtPayloadParseErrorIatOutOfRange;
  c = optnum(R->ppb, "nbf", &R->nbf);
  if (c) return c == 1 ? Status::JwtPayloadParseErrorNbfNotInteger : Status::JwtPayloadParseErrorNbfOutOfRange;
  c = optnum(R->ppb, "exp", &R->exp);
  if (c) return c == 1 ? Status::JwtPayloadParseErrorExpNotInteger : Status::JwtPayloadParseErrorExpOutOfRange;
  if (!optstr(R->ppb, "jti", &R->jti)) return Status::JwtPayloadParseErrorJtiNotString;
  if (const PValue* v = get(R->ppb, "aud")) {
    if (v->kind_case() == PValue::kStringValue) R->aud.push_back(v->string_value());
    else if (v->kind_case() == PValue::kListValue) {
      for (auto& x : v->list_value().values()) {
        if (x.kind_case() != PValue::kStringValue) return Status::JwtPayloadParseErrorAudNotString;
        R->aud.push_back(x.string_value());
      }
    } else return Status::JwtPayloadParseErrorAudNotString;
  }
  if (!absl::WebSafeBase64Unescape(t.substr(b + 1), &R->sig)) return Status::JwtSignatureParseErrorBadBase64;
  return Status::Ok;
}
static void same(const Jwt& j, const Ref& R, const string& t) {
  REQUIRE_EQ(j.jwt_, t, "jwt_");
  REQUIRE_EQ(j.header_str_base64url_, R.h64, "header_str_base64url_");
  REQUIRE_EQ(j.header_str_, R.h, "header_str_");
  REQUIRE_EQ(j.payload_str_base64url_, R.p64, "payload_str_base64url_");
  REQUIRE_EQ(j.payload_str_, R.p, "payload_str_");
  REQUIRE_EQ(j.signature_, R.sig, "signature_");
  REQUIRE_EQ(j.alg_, R.alg, "alg_");
  REQUIRE_EQ(j.kid_, R.kid, "kid_");
  REQUIRE_EQ(j.iss_, R.iss, "iss_");
  REQUIRE_EQ(j.sub_, R.sub, "sub_");
  REQUIRE_EQ(j.jti_, R.jti, "jti_");
  REQUIRE_EQ(j.iat_, R.iat, "iat_");
  REQUIRE_EQ(j.nbf_, R.nbf, "nbf_");
  REQUIRE_EQ(j.exp_, R.exp, "exp_");
  REQUIRE_EQ(j.audiences_, R.aud, "audiences_");
  REQUIRE_EQ(j.header_pb_.DebugString(), R.hpb.DebugString(), "header_pb_");
  REQUIRE_EQ(j.payload_pb_.DebugString(), R.ppb.DebugString(), "payload_pb_");
}
static void parse_case(Rng& r, bool fields) {
  string t = token(r);
  begin_case("token=" + show(t, 100000));
  Ref R;
  Status w = parse(t, &R);
  bucket("status " + std::to_string((int)w));
  Jwt j;
  Status got;
  try { got = j.parseFromString(t); } catch (...) { violation("parseFromString threw an exception"); }
  if (fields) {
    if ((got == Status::Ok) != (w == Status::Ok)) violation("parseFromString: expected " + tostr(w) + ", got " + tostr(got));
    if (w == Status::Ok) same(j, R, t);
  } else REQUIRE_EQ(got, w, "parseFromString");
}
static void c08(Rng& r) { parse_case(r, true); }
static void c09(Rng& r) { parse_case(r, false); }
static string all(const Jwt& j) {
  return "jwt_ " + show(j.jwt_, 1 << 20) + " header_str_ " + show(j.header_str_, 1 << 20) + " header64 " + show(j.header_str_base64url_, 1 << 20) + " header_pb_ " + j.header_pb_.DebugString() + " payload_str_ " + show(j.payload_str_, 1 << 20) + " payload64 " +
         show(j.payload_str_base64url_, 1 << 20) + " payload_pb_ " + j.payload_pb_.DebugString() + " signature_ " + show(j.signature_, 1 << 20) + " alg_ " + show(j.alg_) + " kid_ " + show(j.kid_, 1 << 20) + " iss_ " + show(j.iss_, 1 << 20) + " audiences_ " + tostr(j.audiences_) +
         " sub_ " + show(j.sub_, 1 << 20) + " iat_ " + tostr(j.iat_) + " nbf_ " + tostr(j.nbf_) + " exp_ " + tostr(j.exp_) + " jti_ " + show(j.jti_, 1 << 20);
}
// the fields are public: change some after the parse, not the text
static void tamper(Rng& r, Jwt& s) {
  string* fs[] = {&s.header_str_, &s.header_str_base64url_, &s.payload_str_, &s.signature_, &s.kid_, &s.iss_, &s.payload_str_base64url_, &s.alg_, &s.sub_, &s.jti_};
  uint64_t m = r.next();
  for (auto* f : fs) { if (m & 1) *f = word(r); m >>= 1; }
  if (m & 1) s.iat_ = num64(r);
  if (m & 2) s.nbf_ = num64(r);
  if (m & 4) s.exp_ = num64(r);
  if (m & 8) s.audiences_.push_back(word(r));
  if (m & 16) s.audiences_.clear();
  if (m & 32) (*s.header_pb_.mutable_fields())[word(r)].set_string_value("x");
  if (m & 64) s.payload_pb_.Clear();
  D.current += " source fields changed";
}
static void c10(Rng& r) {
  string first = token(r), t = token(r);
  int how = r.below(6);
  static const char* names[] = {"a second parse in the same object", "assignment over a used object", "the copy constructor", "self assignment", "a text argument that is a field of the object", "parsing twice"};
  begin_case(string("first=") + show(first, 100000) + " then=" + show(t, 100000) + " through " + names[how]);
  bucket(names[how]);
  Jwt fresh;
  Status w = fresh.parseFromString(t);
  Jwt j;
  j.parseFromString(first);
  Status got = w;
  switch (how) {
    case 0: got = j.parseFromString(t); break;
    case 1: { Jwt s; s.parseFromString(t); if (r.chance(25)) { tamper(r, s); string b = all(s); j = s; if (all(s) != b) violation("assignment modified its source"); break; } j = s; if (all(s) != all(fresh)) violation("assignment modified its source"); break; }
    case 2: { Jwt s; s.parseFromString(first); s.parseFromString(t); if (r.chance(25)) tamper(r, s); Jwt c(s); if (all(c) != all(fresh)) violation("the copy differs: expected " + all(fresh) + ", got " + all(c)); j.parseFromString(t); break; }
    case 3: j.parseFromString(t); { Jwt& k = j; j = k; } break;
    case 4: {
      int f = r.below(8);
      string* fs[] = {&j.jwt_, &j.header_str_, &j.header_str_base64url_, &j.payload_str_, &j.signature_, &j.kid_, &j.iss_, &j.payload_str_base64url_};
      string* a = fs[f];
      if (r.chance(10)) { j.audiences_.push_back(t); j.audiences_.push_back(first); a = &j.audiences_[0]; }
      else if (r.chance(80)) *a = t;
      string text = *a;
      D.current += " field " + std::to_string(f);
      Jwt g;
      w = g.parseFromString(text);
      fresh.parseFromString(text);
      got = j.parseFromString(*a);
      break;
    }
    default: j.parseFromString(t); got = j.parseFromString(t);
  }
  REQUIRE_EQ(got, w, "status depends on the history of the object");
  if (all(j) != all(fresh)) violation("fields depend on the history of the object: expected " + all(fresh) + ", got " + all(j));
}
static void mem(Rng& r) { r.chance(50) ? c08(r) : c10(r); }
int main(int argc, char** argv) { return drv_main(argc, argv, {{"C05", c05}, {"C08", c08}, {"C09", c09}, {"C10", c10}, {"C17", mem}}); }
