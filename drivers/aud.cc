#include "common.h"
#ifdef MEM
#include "mem.h"
#endif
static string norm(string s) {
  if (s.compare(0, 7, "http://") == 0) { s = s.substr(7); if (s.empty()) return s; }
  else if (s.compare(0, 8, "https://") == 0) { s = s.substr(8); if (s.empty()) return s; }
  if (!s.empty() && s.back() == '/') s.pop_back();
  return s;
}
static string aud(Rng& r) {
  static const vector<string> frag = {"http://", "https://", "HTTP://", "http:/", "https:", "//", "/", "/", "a", "b", "example.com", "A", "", "ftp://", " ", "www.", ":80", "?", "path/"};
  string s;
  size_t n = r.below(5);
  for (size_t i = 0; i < n; i++) s += r.chance(15) ? word(r) : r.pick(frag);
  if (r.chance(3)) s += string(r.below(300), r.chance(50) ? '/' : 'x');
  return s;
}
static void c06(Rng& r) {
  vector<string> cfg, tok;
  size_t nc = r.chance(4) ? r.below(200) : r.below(4), nt = r.chance(4) ? r.below(200) : r.below(4);
  for (size_t i = 0; i < nc; i++) cfg.push_back(aud(r));
  for (size_t i = 0; i < nt; i++) tok.push_back(!cfg.empty() && r.chance(60) ? (r.chance(50) ? vary(r, r.pick(cfg)) : r.chance(50) ? norm(r.pick(cfg)) : "http://" + norm(r.pick(cfg)) + "/") : aud(r));
  begin_case("config=" + tostr(cfg) + " token=" + tostr(tok));
  std::set<string> cs;
  for (auto& c : cfg) cs.insert(norm(c));
  bool want = cfg.empty();
  for (auto& t : tok) want |= cs.count(norm(t)) != 0;
  CheckAudience c(cfg);
  bool got = c.areAudiencesAllowed(tok);
  bucket(want ? "allowed" : "refused");
  REQUIRE_EQ(got, want, "areAudiencesAllowed");
  REQUIRE_EQ(c.areAudiencesAllowed(tok), want, "areAudiencesAllowed asked again");
}
int main(int argc, char** argv) { return drv_main(argc, argv, {{"C06", c06}, {"C17", c06}}); }
