// Shared by the replay drivers: they run the real code of /repo on concrete inputs and compare with an oracle written here.
// usage: drv PROP SEED SECONDS OUT DICT [ITER]    with ITER: only that case (replay)
#pragma once
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include "absl/strings/escaping.h"
#include "google/protobuf/struct.pb.h"
#include "google/protobuf/util/json_util.h"
#include "jwt_verify_lib/check_audience.h"
#include "jwt_verify_lib/jwks.h"
#include "jwt_verify_lib/jwt.h"
#include "jwt_verify_lib/status.h"
#include "jwt_verify_lib/struct_utils.h"
#include "jwt_verify_lib/verify.h"
using namespace google::jwt_verify;
using std::string;
using std::vector;
typedef google::protobuf::Struct PStruct;
typedef google::protobuf::Value PValue;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x) : s(x) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool chance(int pct) { return (int)below(100) < pct; }
  template <class T> const T& pick(const vector<T>& v) { return v[below(v.size())]; }
  string bytes(size_t n) { string o(n, 0); for (auto& c : o) c = (char)next(); return o; }
};

struct Drv {
  string prop;
  uint64_t seed = 0, iter = 0;
  vector<string> dict;      // string literals of the current sources and of counterexamples
  vector<uint64_t> nums;    // integer literals, likewise
  string out;
  uint64_t evals = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<string, uint64_t> buckets;
  vector<string> samples;
  string current;           // description of the case that runs
  uint64_t* shared = nullptr;
  bool quiet = false;
  bool noleak = false;      // the case was cut short, its memory is not returned
};
inline Drv D;
#ifdef MEM
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

inline string jesc(const string& s) {
  string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
// printable form of a byte string, shortened
inline string show(const string& s, size_t lim = 400) {
  string o = jesc(s.substr(0, lim));
  if (s.size() > lim) o += "...(" + std::to_string(s.size()) + " bytes)";
  return o;
}
inline void stats_json(FILE* f, bool bad, const string& what) {
  fprintf(f, "{\"violation\": %s, \"what\": %s, \"input\": %s, \"seed\": %llu, \"iter\": %llu, \"evaluations\": %llu, \"distinct\": %llu, \"buckets\": {",
          bad ? "true" : "false", jesc(what).c_str(), jesc(D.current).c_str(), (unsigned long long)D.seed, (unsigned long long)D.iter,
          (unsigned long long)D.evals, (unsigned long long)D.distinct.size());
  bool first = true;
  for (auto& b : D.buckets) { fprintf(f, "%s%s: %llu", first ? "" : ", ", jesc(b.first).c_str(), (unsigned long long)b.second); first = false; }
  fprintf(f, "}, \"samples\": [");
  first = true;
  for (auto& s : D.samples) { fprintf(f, "%s%s", first ? "" : ", ", jesc(s).c_str()); first = false; }
  fprintf(f, "]}\n");
}
[[noreturn]] inline void violation(const string& what) {
  FILE* f = fopen(D.out.c_str(), "w");
  stats_json(f, true, what);
  fclose(f);
  printf("VIOLATED %s: %s\ninput: %s\n", D.prop.c_str(), what.c_str(), D.current.c_str());
  fflush(stdout);
  _exit(1);
}
#define REQUIRE_EQ(got, want, what) do { auto g_ = (got); auto w_ = (want); if (!(g_ == w_)) violation(string(what) + ": expected " + tostr(w_) + ", got " + tostr(g_)); } while (0)
inline string tostr(const string& s) { return show(s); }
inline string tostr(bool b) { return b ? "true" : "false"; }
inline string tostr(Status s) { return "Status(" + std::to_string((int)s) + " " + getStatusString(s) + ")"; }
inline string tostr(uint64_t v) { return std::to_string(v); }
inline string tostr(int64_t v) { return std::to_string(v); }
inline string tostr(int v) { return std::to_string(v); }
inline string tostr(double v) { char b[64]; snprintf(b, 64, "%.17g", v); return b; }
inline string tostr(const vector<string>& v) { string o = "["; for (auto& s : v) o += show(s) + ", "; return o + "]"; }
inline string tostr(StructUtils::FindResult r) { const char* n[] = {"OK", "MISSING", "WRONG_TYPE", "OUT_OF_RANGE"}; return (unsigned)r < 4 ? n[r] : "?" + std::to_string((int)r); }

inline void bucket(const string& b) { D.buckets[b]++; }
inline void begin_case(const string& desc) {
  D.current = desc;
  if (!D.quiet && D.distinct.size() < 4000000) D.distinct.insert(std::hash<string>()(desc));
  D.evals++;
#ifndef MEM
  if (D.samples.size() < 3 && D.evals % 97 == 1) D.samples.push_back(desc.substr(0, 600));
#endif
}

// base64url, written here (RFC 4648 section 5), without padding
inline string b64(const string& s) {
  static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
  string o;
  size_t i = 0;
  for (; i + 2 < s.size(); i += 3) {
    uint32_t v = (uint8_t)s[i] << 16 | (uint8_t)s[i + 1] << 8 | (uint8_t)s[i + 2];
    o += A[v >> 18]; o += A[v >> 12 & 63]; o += A[v >> 6 & 63]; o += A[v & 63];
  }
  if (s.size() - i == 1) { uint32_t v = (uint8_t)s[i] << 16; o += A[v >> 18]; o += A[v >> 12 & 63]; }
  if (s.size() - i == 2) { uint32_t v = (uint8_t)s[i] << 16 | (uint8_t)s[i + 1] << 8; o += A[v >> 18]; o += A[v >> 12 & 63]; o += A[v >> 6 & 63]; }
  return o;
}

// JSON text of a string (ASCII out)
inline string jstr(const string& s) {
  string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32) { snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
inline bool ascii(const string& s) { for (unsigned char c : s) if (c >= 127 || c == 0) return false; return true; }

// a short interesting text
inline string word(Rng& r) {
  static const vector<string> base = {"", "a", "b", "ab", "A", "k1", "k2", "K1", "k11", "k", "key-1", "key-2", "alg", "kid", "x", "none", "test", "iss", "sub", "0", "/", ".", "a.b", " ", "a ", "é", "http://a", "https://a/"};
  if (!D.dict.empty() && r.chance(30)) return r.pick(D.dict);
  if (r.chance(8)) { string s; size_t n = r.below(40); for (size_t i = 0; i < n; i++) s += (char)(32 + r.below(95)); return s; }
  if (r.chance(2)) { return string(r.below(600), 'a' + r.below(3)); }
  return r.pick(base);
}
inline string aword(Rng& r) { for (;;) { string s = word(r); if (ascii(s)) return s; } }
// a variation of a text
inline string vary(Rng& r, string s) {
  switch (r.below(10)) {
    case 0: return s + (char)('a' + r.below(26));
    case 1: return s.substr(0, s.size() / 2);
    case 2: if (!s.empty()) { size_t i = r.below(s.size()); if (isalpha((unsigned char)s[i])) s[i] ^= 0x20; } return s;
    case 3: if (!s.empty()) s[r.below(s.size())] = 32 + r.below(95); return s;
    case 4: return " " + s;
    case 5: return s.empty() ? s : s.substr(1);
    case 6: return s.empty() ? s : s.substr(0, s.size() - 1);
    case 7: return s + s;
    case 8: return s + word(r);
    default: return s;
  }
}
inline uint64_t num64(Rng& r) {
  switch (r.below(8)) {
    case 0: return 0;
    case 1: return r.below(200);
    case 2: return ~0ull - r.below(200);
    case 3: return (1ull << r.below(64)) + r.below(5) - 2;
    case 4: return r.next();
    case 5: return D.nums.empty() ? 60 : r.pick(D.nums) + r.below(5) - 2;
    case 6: return 1700000000ull + r.below(1000);
    default: return r.next() >> r.below(64);
  }
}

inline string unhex(const string& s) {
  string o;
  for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16);
  return o;
}

typedef void (*CaseFn)(Rng&);
inline int drv_main(int argc, char** argv, const std::map<string, CaseFn>& cases, void (*setup)() = nullptr) {
  if (argc < 6) { fprintf(stderr, "usage: %s PROP SEED SECONDS OUT DICT [ITER]\n", argv[0]); return 2; }
  D.prop = argv[1];
  D.seed = strtoull(argv[2], nullptr, 10);
  double secs = atof(argv[3]);
  D.out = argv[4];
  std::ifstream df(argv[5]);
  string line;
  while (std::getline(df, line)) {
    if (line.size() < 1) continue;
    if (line[0] == 's') D.dict.push_back(unhex(line.substr(1)));
    if (line[0] == 'n') D.nums.push_back(strtoull(line.c_str() + 1, nullptr, 10));
  }
  auto it = cases.find(D.prop);
  if (it == cases.end()) { fprintf(stderr, "no such property here\n"); return 2; }
  int fd = open((D.out + ".iter").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || ftruncate(fd, 8)) return 2;
  D.shared = (uint64_t*)mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (setup) setup();
  auto t0 = std::chrono::steady_clock::now();
  bool one = argc > 6;
  if (one) D.iter = strtoull(argv[6], nullptr, 10);
  for (;; D.iter++) {
    *D.shared = D.iter;
    uint64_t h1 = Rng(D.seed + 12345).next(), h2 = Rng(h1 ^ (D.iter * 0xD6E8FEB86659FD93ull)).next();
    Rng r(h2);
#ifdef MEM
    {
      // the same case three times: what is still allocated after it must not grow each time
      Rng a = r, b = r;
      D.quiet = false;
      it->second(r);
      D.quiet = true;
      D.current.reserve(1 << 20);
      size_t m0 = __sanitizer_get_current_allocated_bytes();
      it->second(a);
      size_t m1 = __sanitizer_get_current_allocated_bytes();
      it->second(b);
      size_t m2 = __sanitizer_get_current_allocated_bytes();
      if (!D.noleak && m1 > m0 && m2 > m1) {
        bool grows = true;
        for (int i = 0; i < 12; i++) { Rng c(h2); it->second(c); }
        for (int i = 0; i < 20 && grows; i++) {
          size_t x = __sanitizer_get_current_allocated_bytes();
          Rng c(h2);
          it->second(c);
          grows = __sanitizer_get_current_allocated_bytes() > x;
        }
        if (grows) violation("memory is still allocated after the case ran (leak of " + std::to_string(m2 - m1) + " bytes each time)");
      }
    }
#else
    it->second(r);
#endif
    if (one) break;
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
  }
  FILE* f = fopen(D.out.c_str(), "w");
  stats_json(f, false, "");
  fclose(f);
  return 0;
}
