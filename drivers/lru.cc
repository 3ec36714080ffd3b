// C19-C23: random histories of one cache compared, after every operation, with a plain list of entries kept here.
#include "common.h"
#include <csignal>
#include <deque>
#include "simple_lru_cache/simple_lru_cache.h"
#include "simple_lru_cache/simple_lru_cache_inl.h"
using namespace google::simple_lru_cache;
static int64_t g_now_ns;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(nanoseconds(g_now_ns)); }
}}}
static vector<int> g_destroyed;
struct Val { int id; explicit Val(int i) : id(i) {} ~Val() { g_destroyed[id]++; } };
struct Del { void operator()(Val* v) { delete v; } };
typedef SimpleLRUCache<int, Val> Plain;
typedef SimpleLRUCacheWithDeleter<int, Val, Del> WithDel;
typedef absl::flat_hash_map<int, SimpleLRUCacheElem<int, Val>*, internal::SimpleLRUHash<int>, std::equal_to<int>> Map;
typedef SimpleLRUCacheBase<int, Val, Map, std::equal_to<int>> Base;
struct Limited : public Plain {
  int64_t lim;
  Limited(int64_t u, int64_t l) : Plain(u), lim(l) {}
  bool isOverfull() const override { return size() > maxSize() || entries() > lim; }
};
struct ME { int key, id; Val* v; uint64_t units; vector<bool> pins; int64_t lu; bool linked; };
struct Model {
  bool lru = true;
  int64_t idle = -1, max = 0, lim = -1;
  std::map<int, ME> table;
  vector<ME> defer;
  std::deque<int> order;    // keys, most recent first
  vector<int> want;         // destroyed, by value id
  int64_t now() { return g_now_ns / 1000; }
  int64_t size() { uint64_t s = 0; for (auto& e : table) s += e.second.units; for (auto& e : defer) s += e.units; return s; }
  int64_t pinned() { uint64_t s = 0; for (auto& e : table) if (!e.second.pins.empty()) s += e.second.units; return s; }
  int64_t dsize() { uint64_t s = 0; for (auto& e : defer) s += e.units; return s; }
  bool over() { return size() > max || (lim >= 0 && (int64_t)table.size() > lim); }
  void unlink(ME& e) { if (!e.linked) return; e.linked = false; for (auto i = order.begin(); i != order.end(); ++i) if (*i == e.key) { order.erase(i); break; } }
  void link(ME& e) { e.linked = true; order.push_front(e.key); }
  void remove(int k) {
    auto i = table.find(k);
    if (i == table.end()) return;
    ME e = i->second;
    unlink(e);
    table.erase(i);
    if (e.pins.empty()) want[e.id]++;
    else defer.push_back(e);
  }
  void gc() {
    for (size_t i = order.size(); over() && i-- > 0;) {
      int k = order[i];
      if (table.at(k).pins.empty()) remove(k);
    }
  }
  void expire() {
    if (idle < 0) return;
    int64_t th = now() - idle;
    vector<int> old;
    for (int k : order) if (table.at(k).lu < th) old.push_back(k);
    for (int k : old) remove(k);
  }
  Val* lookup(int k, bool upd) {
    expire();
    auto i = table.find(k);
    if (i == table.end()) return nullptr;
    ME& e = i->second;
    if (lru && upd) unlink(e);
    e.pins.push_back(upd);
    return e.v;
  }
  static void drop(vector<bool>& p, bool upd) { for (size_t i = 0; i < p.size(); i++) if (p[i] == upd) { p.erase(p.begin() + i); return; } }
  void release(int k, Val* v, bool upd) {
    for (size_t i = 0; i < defer.size(); i++) if (defer[i].key == k && defer[i].v == v) {
      drop(defer[i].pins, upd);
      if (defer[i].pins.empty()) { want[defer[i].id]++; defer.erase(defer.begin() + i); }
      return;
    }
    ME& e = table.at(k);
    if (lru && upd) e.lu = now();
    drop(e.pins, upd);
    if (e.pins.empty()) {
      if (lru && !e.linked) { e.lu = now(); link(e); }
      if (over()) remove(k);
    }
  }
  void insert_pinned(int k, Val* v, int id, uint64_t u) {
    remove(k);
    ME e{k, id, v, u, {true}, now(), false};
    if (!lru) { e.linked = true; order.push_front(k); }
    table[k] = e;
    gc();
  }
  void update_size(int k, Val* v, uint64_t u) {
    auto i = table.find(k);
    if (i != table.end() && (!v || i->second.v == v)) i->second.units = u;
    else for (auto& e : defer) if (e.key == k && (!v || e.v == v)) e.units = u;
    gc();
  }
  bool in_use(int k, Val* v) {
    auto i = table.find(k);
    if (i != table.end() && (!v || i->second.v == v)) return true;
    for (auto& e : defer) if (e.key == k && (!v || e.v == v)) return true;
    return false;
  }
};
// A disagreement with the model is reported when it concerns the property that is checked; otherwise the history ends here.
struct Abandon {};
static string g_found;
static bool g_differs;
static void differ(const char* props, const string& what) {
  g_differs = true;
  if (g_found.empty() && (" " + string(props) + " ").find(" " + D.prop + " ") != string::npos) g_found = what;
}
static void settle() {
  if (!g_found.empty()) violation(g_found);
  if (g_differs) throw Abandon();
}
#define SAME(props, got, want, what) do { auto g_ = (got); auto w_ = (want); if (!(g_ == w_)) differ(props, string(what) + ": expected " + tostr(w_) + ", got " + tostr(g_)); } while (0)
struct Pin { int key; Val* v; bool upd; };
static void onabrt(int s) {
  string m = "\nhistory: " + D.current.substr(0, 3500) + "\n";
  if (write(2, m.data(), m.size())) {}
  signal(s, SIG_DFL);
  raise(s);
}
static void check(Base* c, Model& m, const vector<Val*>& vals, const vector<int>& keyof_, int nkeys, Rng& r) {
  for (size_t i = 0; i < g_destroyed.size(); i++) if (g_destroyed[i] != m.want[i])
    differ(g_destroyed[i] > m.want[i] ? "C20 C22 C23" : "C20 C21 C22 C23", "value " + std::to_string(i) + ": destroyed " + std::to_string(g_destroyed[i]) + " times, expected " + std::to_string(m.want[i]));
  SAME("C21 C22 C23", c->size(), m.size(), "size()");
  SAME("C19 C21 C22 C23", c->entries(), (int64_t)m.table.size(), "entries()");
  SAME("C20 C21", c->pinnedSize(), m.pinned(), "pinnedSize()");
  SAME("C20 C21", c->deferredSize(), m.dsize(), "deferredSize()");
  SAME("C20 C21", c->deferredEntries(), (int64_t)m.defer.size(), "deferredEntries()");
  SAME("C21", c->maxSize(), m.max, "maxSize()");
  SAME("C22 C23", c->ageOfLRUItemInMicroseconds(), m.order.empty() ? (int64_t)0 : m.now() - m.table.at(m.order.back()).lu, "ageOfLRUItemInMicroseconds()");
  std::map<int, int> seen;
  for (auto i = c->begin(); i != c->end(); ++i) {
    auto f = m.table.find(i->first);
    if (f == m.table.end()) { differ("C19 C20 C22 C23", "iteration shows key " + std::to_string(i->first) + ", which should not be in the cache"); continue; }
    if (i->second != f->second.v) differ("C19", "iteration shows another value under key " + std::to_string(i->first));
    if (seen[i->first]++) differ("C19", "iteration shows a key twice");
    SAME("C22 C23", m.lru ? i.last_use_time() : i.insertion_time(), f->second.lu, "time shown by the iterator");
  }
  SAME("C19 C22 C23", seen.size(), m.table.size(), "keys shown by iteration");
  for (int k = 0; k < nkeys; k++) {
    auto f = m.table.find(k);
    SAME("C22 C23", m.lru ? c->getLastUseTime(k) : c->getInsertionTime(k), f == m.table.end() ? (int64_t)-1 : f->second.lu, m.lru ? "getLastUseTime" : "getInsertionTime");
    SAME("C19 C20", c->stillInUse(k), m.in_use(k, nullptr), "stillInUse(key)");
    for (int j = 0; j < 3 && !vals.empty(); j++) {
      Val* v = vals[r.below(vals.size())];
      SAME("C19 C20", c->stillInUse(k, v), m.in_use(k, v), "stillInUse(key, value)");
    }
  }
  settle();
}
static void run_history(Rng& r) {
  static bool once = false;
  if (!once) { once = true; signal(SIGABRT, onabrt); }
  g_destroyed.clear();
  g_now_ns = 1700000000000000000ll + r.below(1000000);
  Model m;
  int nkeys = 1 + r.below(6), umax = 1 + r.below(4);
  m.max = r.chance(10) ? 0 : r.below(12);
  if (r.chance(15)) m.lim = r.below(4);
  // kept aside: when a history is abandoned the cache is not destroyed, its state is of no interest
  std::unique_ptr<Plain> p;
  std::unique_ptr<WithDel> w;
  struct Forget { std::unique_ptr<Plain>& p; std::unique_ptr<WithDel>& w; ~Forget() { (void)p.release(); (void)w.release(); } } forget{p, w};
  Base* c;
  int kind = m.lim >= 0 ? 2 : r.below(2);
  if (kind == 2) { p.reset(new Limited(m.max, m.lim)); c = p.get(); }
  else if (kind == 1) { w.reset(new WithDel(m.max)); c = w.get(); }
  else { p.reset(new Plain(m.max)); c = p.get(); }
  m.lru = r.chance(60);
  int mix = r.below(3);   // release options: default only, mixed
  string desc = (kind == 2 ? "at most " + std::to_string(m.lim) + " entries, " : "") + string("max=") + std::to_string(m.max) + (m.lru ? " lru" : " age");
  auto timeout = [&](Rng& r) {
    double s;
    switch (r.below(11)) {
      case 0: s = -1; break;
      case 1: s = std::numeric_limits<double>::infinity(); break;
      case 2: s = 1e-6 * r.below(40); break;
      case 3: s = 9223372036854.0 + r.below(4000); break;
      case 4: s = 1e300; break;
      case 5: s = 0; break;
      case 7: { double a = D.nums.empty() ? 1 : (double)r.pick(D.nums), b = D.nums.empty() || r.chance(50) ? 1 : (double)r.pick(D.nums), c2 = r.chance(70) ? 1 : 2; s = a * b * c2 * (r.chance(50) ? 1e-6 : 1); break; }
      case 8: s = 1e-6 * std::pow(10.0, (double)r.below(16)) * (1 + r.below(9)); break;
      case 6: s = 2.5e-6 + 1e-6 * r.below(9); break;
      default: s = 1e-6 * (5 + r.below(30)); break;
    }
    D.current += (m.lru ? " setMaxIdleSeconds(" : " setAgeBasedEviction(") + tostr(s) + ")";
    if (m.lru) c->setMaxIdleSeconds(s); else c->setAgeBasedEviction(s);
    if (s < 0 || std::isinf(s)) m.idle = -1;
    else { double t = s * 1e6; m.idle = t >= 9223372036854775808.0 ? std::numeric_limits<int64_t>::max() : (int64_t)t; m.expire(); }
  };
  begin_case(desc);
  if (!m.lru || r.chance(40)) timeout(r);
  vector<Pin> pins;
  vector<Val*> vals;
  vector<int> keyof_;
  int steps = r.chance(10) ? 20 + r.below(200) : 1 + r.below(30);
  for (int st = 0; st < steps; st++) {
    if (r.chance(50)) {
      int64_t d = r.chance(30) ? r.below(1000) : 1000 * (int64_t)r.below(r.chance(20) ? 60 : 12);
      // near the limit, and near its fractions
      if (m.idle > 0 && r.chance(25)) {
        int64_t f = m.idle / (1 + r.below(4)) * (1 + r.below(2)) + (int64_t)r.below(5) - 2;
        if (f > 0 && f < (8000000000000000000ll - g_now_ns) / 1000) d = f * 1000;
      }
       g_now_ns += d; D.current += " +" + std::to_string(d) + "ns"; }
    int k = r.below(nkeys);
    string ks = std::to_string(k);
    int op = r.below(26);
    if (op < 5) {
      uint64_t u = r.below(umax + 1);
      if (r.chance(8)) u += m.max;
      if (r.chance(2) && !D.nums.empty()) u = r.pick(D.nums) % (1ull << 56);
      int id = vals.size();
      Val* v = new Val(id);
      vals.push_back(v); keyof_.push_back(k); g_destroyed.push_back(0); m.want.push_back(0);
      bool pin = op < 2;
      D.current += (pin ? " insertPinned(" : " insert(") + ks + ",v" + std::to_string(id) + "," + std::to_string(u) + ")";
      m.insert_pinned(k, v, id, u);
      if (pin) { c->insertPinned(k, v, u); pins.push_back({k, v, true}); }
      else { c->insert(k, v, u); m.release(k, v, true); }
      bucket("insert");
    } else if (op < 11) {
      bool upd = mix == 0 || r.chance(mix == 1 ? 50 : 20);
      SimpleLRUCacheOptions o;
      o.set_update_eviction_order(upd);
      D.current += " lookup(" + ks + (upd ? ")" : ",no update)");
      Val* want = m.lookup(k, upd);
      if (r.chance(15)) {
        D.current += "+scoped";
        { Base::ScopedLookup l(c, k, o);
          if (l.found() != (want != nullptr) || l.value() != want) differ("C19 C20 C22 C23", "ScopedLookup found " + string(l.found() ? "a" : "no") + " value, expected " + (want ? "the one inserted last" : "none")); }
        settle();
        if (want) m.release(k, want, upd);
      } else {
        Val* got = upd && r.chance(50) ? c->lookup(k) : c->lookupWithOptions(k, o);
        if (got != want) differ("C19 C20 C22 C23", string("lookup returned ") + (got ? "a value" : "nothing") + ", expected " + (want ? "v" + std::to_string(m.table.at(k).id) : string("nothing")));
        settle();
        if (got) pins.push_back({k, got, upd});
      }
      bucket(want ? "lookup hit" : "lookup miss");
    } else if (op < 18) {
      if (pins.empty()) continue;
      size_t i = r.chance(60) ? r.below(pins.size()) : r.chance(50) ? 0 : pins.size() - 1;
      Pin q = pins[i];
      pins.erase(pins.begin() + i);
      int id = 0;
      for (size_t j = 0; j < vals.size(); j++) if (vals[j] == q.v && m.in_use(q.key, q.v)) id = j;
      D.current += " release(" + std::to_string(q.key) + ",v" + std::to_string(id) + (q.upd ? ")" : ",no update)");
      SimpleLRUCacheOptions o;
      o.set_update_eviction_order(q.upd);
      m.release(q.key, q.v, q.upd);
      if (q.upd && r.chance(50)) c->release(q.key, q.v); else c->releaseWithOptions(q.key, q.v, o);
      bucket("release");
    } else if (op == 18) { D.current += " remove(" + ks + ")"; m.remove(k); c->remove(k); bucket("remove"); }
    else if (op == 19) {
      uint64_t u = r.below(umax + 2);
      Val* v = vals.empty() || r.chance(40) ? nullptr : r.pick(vals);
      D.current += " updateSize(" + ks + "," + (v ? "some value" : "null") + "," + std::to_string(u) + ")";
      m.update_size(k, v, u);
      c->updateSize(k, v, u);
      bucket("updateSize");
    } else if (op == 20) { m.max = r.chance(4) && !D.nums.empty() ? (int64_t)(r.pick(D.nums) % (1ull << 60)) : (int64_t)r.below(14); D.current += " setMaxSize(" + std::to_string(m.max) + ")"; c->setMaxSize(m.max); m.gc(); bucket("setMaxSize"); }
    else if (op == 21) { D.current += " removeExpiredEntries()"; c->removeExpiredEntries(); m.expire(); bucket("removeExpiredEntries"); }
    else if (op == 22 && r.chance(40)) timeout(r);
    else if (op == 23 && r.chance(30)) {
      D.current += " removeAll()";
      c->removeAll();
      while (!m.table.empty()) m.remove(m.table.begin()->first);
      bucket("removeAll");
    } else if (op == 24 && r.chance(40)) {
      D.current += " removeUnpinned()";
      c->removeUnpinned();
      vector<int> ks;
      for (auto& e : m.table) if (e.second.pins.empty()) ks.push_back(e.first);
      for (int x : ks) m.remove(x);
      bucket("removeUnpinned");
    } else if (op == 25 && pins.empty()) {
      D.current += " clear()";
      c->clear();
      while (!m.table.empty()) m.remove(m.table.begin()->first);
      bucket("clear");
    }
    check(c, m, vals, keyof_, nkeys, r);
  }
  if (!D.quiet && D.distinct.size() < 4000000) D.distinct.insert(std::hash<string>()(D.current));
  D.current += " (end: every pin released, clear)";
  while (!pins.empty()) {
    Pin q = pins.back();
    pins.pop_back();
    SimpleLRUCacheOptions o;
    o.set_update_eviction_order(q.upd);
    m.release(q.key, q.v, q.upd);
    c->releaseWithOptions(q.key, q.v, o);
    check(c, m, vals, keyof_, nkeys, r);
  }
  SAME("C20 C21", c->deferredEntries(), (int64_t)0, "deferred entries without pins");
  settle();
  c->clear();
  p.reset();
  w.reset();
  for (size_t i = 0; i < g_destroyed.size(); i++) SAME("C20", g_destroyed[i], 1, "times value " + std::to_string(i) + " was destroyed when the cache is gone");
  settle();
}
static void history(Rng& r) {
  g_found.clear();
  g_differs = false;
  D.noleak = D.prop != "C20";
  try { run_history(r); } catch (Abandon&) { D.noleak = true; bucket("abandoned"); }
}
int main(int argc, char** argv) { return drv_main(argc, argv, {{"C19", history}, {"C20", history}, {"C21", history}, {"C22", history}, {"C23", history}}); }
