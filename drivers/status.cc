// C18: every status of the current enumeration, and the status holder against its definition.
#include "common.h"
#ifdef MEM
#include "mem.h"
#endif
#include "statuses.inc"   // written by the check: static const std::vector<std::pair<const char*, Status>> STATUSES
struct Holder : public WithStatus {
  void up(Status s) { updateStatus(s); }
  void reset(Status s) { resetStatus(s); }
};
static void c18(Rng& r) {
  static bool once = false;
  if (!once) {
    once = true;
    std::map<string, const char*> seen;
    for (auto& s : STATUSES) {
      begin_case(string("getStatusString(Status::") + s.first + ")");
      string t = getStatusString(s.second);
      bucket("status text");
      if (t.empty()) violation("empty message");
      if (s.second == Status::Ok) REQUIRE_EQ(t, string("OK"), "message of Ok");
      if (seen.count(t)) violation(string("same message as Status::") + seen[t] + ": " + t);
      seen[t] = s.first;
      if (getStatusString(s.second) != t) violation("the message changes from call to call");
    }
  }
  Holder h;
  Status ref = Status::Ok;
  string desc;
  for (size_t n = 1 + r.below(12); n > 0; n--) {
    Status s = r.chance(30) ? Status::Ok : STATUSES[r.below(STATUSES.size())].second;
    bool rs = r.chance(25);
    desc += string(rs ? " reset(" : " update(") + std::to_string((int)s) + ")";
    begin_case(desc);
    if (rs) { h.reset(s); ref = s; } else { h.up(s); if (ref == Status::Ok) ref = s; }
    REQUIRE_EQ((int)h.getStatus(), (int)ref, "held status");
  }
  bucket("holder sequence");
}
int main(int argc, char** argv) { return drv_main(argc, argv, {{"C18", c18}, {"C17", c18}}); }
