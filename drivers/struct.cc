// C11, C12: accessors over trees built here, compared with a walk written here.
#include "common.h"
#ifdef MEM
#include "mem.h"
#endif
static const vector<string> KEYS = {"a", "b", "c", "", "aud", "kid", "a.b", "x y", "A"};
static string key(Rng& r) { return r.chance(12) ? word(r) : r.pick(KEYS); }
static double dbl(Rng& r) {
  switch (r.below(14)) {
    case 0: return 0.0;
    case 1: return -0.0;
    case 2: return std::numeric_limits<double>::quiet_NaN();
    case 3: return r.chance(50) ? INFINITY : -INFINITY;
    case 4: return 18446744073709551616.0;
    case 5: return std::nextafter(18446744073709551616.0, 0);
    case 6: return 9223372036854775808.0 + (double)(r.below(3)) * 2048 - 2048;
    case 7: return -(double)r.below(10) / 3;
    case 8: return (double)num64(r);
    case 9: return (double)num64(r) / 3;
    case 10: { uint64_t b = r.next(); double d; memcpy(&d, &b, 8); return d; }
    case 11: return -(double)num64(r);
    case 12: return (double)r.below(100) + 0.5;
    default: return std::nextafter((double)num64(r), r.chance(50) ? 0 : INFINITY);
  }
}
static string val(Rng& r) { string s = word(r); return s; }
static void fill(Rng& r, PStruct* s, int depth);
static void fillv(Rng& r, PValue* v, int depth) {
  switch (r.below(depth > 0 ? 9 : 6)) {
    case 0: if (r.chance(50)) v->set_null_value(google::protobuf::NULL_VALUE); break;   // else: kind not set
    case 1: v->set_bool_value(r.chance(50)); break;
    case 2: v->set_number_value(dbl(r)); break;
    case 3: case 4: v->set_string_value(val(r)); break;
    case 5: case 6: {
      auto* l = v->mutable_list_value();
      size_t n = r.chance(3) ? r.below(60) : r.below(4);
      int allstr = r.chance(60);
      for (size_t i = 0; i < n; i++) { auto* e = l->add_values(); if (allstr || r.chance(70)) e->set_string_value(val(r)); else fillv(r, e, depth - 1); }
      break;
    }
    default: fill(r, v->mutable_struct_value(), depth - 1);
  }
}
static void fill(Rng& r, PStruct* s, int depth) {
  size_t n = r.below(5);
  for (size_t i = 0; i < n; i++) { string k = key(r); fillv(r, &(*s->mutable_fields())[k], depth); }
}
static string path(Rng& r, const PStruct& s) {
  string o;
  const PStruct* c = &s;
  for (int i = 0; i < 6; i++) {
    string k;
    if (c && !c->fields().empty() && r.chance(85)) {
      size_t n = r.below(c->fields().size());
      std::map<string, const PValue*> m;
      for (auto& f : c->fields()) m[f.first] = &f.second;
      auto it = m.begin();
      while (n--) ++it;
      k = it->first;
      c = it->second->kind_case() == PValue::kStructValue ? &it->second->struct_value() : nullptr;
    } else { k = key(r); c = nullptr; }
    o += (i ? "." : "") + k;
    if (c ? r.chance(15) : r.chance(75)) break;
  }
  if (r.chance(4)) o += ".";
  if (r.chance(4)) o = "." + o;
  return o;
}
static const PValue* walk(const PStruct& s, const string& p, StructUtils::FindResult* res) {
  const PStruct* c = &s;
  size_t b = 0;
  for (;;) {
    size_t e = p.find('.', b);
    auto it = c->fields().find(p.substr(b, e == string::npos ? string::npos : e - b));
    if (it == c->fields().end()) { *res = StructUtils::MISSING; return nullptr; }
    if (e == string::npos) { *res = StructUtils::OK; return &it->second; }
    if (it->second.kind_case() != PValue::kStructValue) { *res = StructUtils::WRONG_TYPE; return nullptr; }
    c = &it->second.struct_value();
    b = e + 1;
  }
}
static uint64_t bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static void uint_case(StructUtils& u, const string& p, const PValue* v, StructUtils::FindResult fr, Rng& r) {
  uint64_t init = num64(r), o = init, w = init;
  StructUtils::FindResult want = fr;
  if (v) {
    if (v->kind_case() != PValue::kNumberValue) want = StructUtils::WRONG_TYPE;
    else {
      double d = v->number_value();
      if (std::isnan(d) || d < 0 || d >= 18446744073709551616.0) want = StructUtils::OUT_OF_RANGE;
      else w = (uint64_t)std::trunc(d);
      D.current += " number=" + tostr(d);
    }
  }
  bucket("GetUInt64 " + tostr(want));
  auto got = u.GetUInt64(p, &o);
  REQUIRE_EQ(got, want, "GetUInt64 result");
  REQUIRE_EQ(o, w, want == StructUtils::OK ? "GetUInt64 value" : "GetUInt64 output changed although it failed");
}
static void c11(Rng& r) {
  PStruct s;
  fill(r, &s, 3);
  string p = path(r, s);
  begin_case("struct={" + s.ShortDebugString() + "} path=" + show(p));
  string before = s.DebugString();
  StructUtils u(s);
  StructUtils::FindResult fr;
  const PValue* v = walk(s, p, &fr);
  auto kind = [&](PValue::KindCase k) { return !v ? fr : v->kind_case() == k ? StructUtils::OK : StructUtils::WRONG_TYPE; };
  { const PValue* f = (const PValue*)16; auto g = u.GetValue(p, f); REQUIRE_EQ(g, fr, "GetValue result"); if (v && f != v) violation("GetValue found another value"); bucket("GetValue " + tostr(fr)); }
  { string o = "unchanged"; auto w = kind(PValue::kStringValue); auto g = u.GetString(p, &o); REQUIRE_EQ(g, w, "GetString result"); REQUIRE_EQ(o, w == StructUtils::OK ? v->string_value() : string("unchanged"), "GetString output"); bucket("GetString " + tostr(w)); }
  { double o = 12.25; auto w = kind(PValue::kNumberValue); auto g = u.GetDouble(p, &o); REQUIRE_EQ(g, w, "GetDouble result"); REQUIRE_EQ(bits(o), bits(w == StructUtils::OK ? v->number_value() : 12.25), "GetDouble output"); bucket("GetDouble " + tostr(w)); }
  for (bool init : {false, true}) { bool o = init; auto w = kind(PValue::kBoolValue); auto g = u.GetBoolean(p, &o); REQUIRE_EQ(g, w, "GetBoolean result"); REQUIRE_EQ(o, w == StructUtils::OK ? v->bool_value() : init, "GetBoolean output"); bucket("GetBoolean " + tostr(w)); }
  {
    vector<string> init;
    if (r.chance(50)) init = {"x", "y"};
    vector<string> o = init, want = init;
    StructUtils::FindResult w = fr;
    if (v) {
      w = StructUtils::WRONG_TYPE;
      if (v->kind_case() == PValue::kStringValue) { w = StructUtils::OK; want.push_back(v->string_value()); }
      if (v->kind_case() == PValue::kListValue) { w = StructUtils::OK; for (auto& e : v->list_value().values()) { if (e.kind_case() != PValue::kStringValue) { w = StructUtils::WRONG_TYPE; break; } want.push_back(e.string_value()); } }
    }
    auto g = u.GetStringList(p, &o);
    REQUIRE_EQ(g, w, "GetStringList result");
    if (w == StructUtils::OK) REQUIRE_EQ(o, want, "GetStringList output");
    else {
      if (!(o.size() >= init.size() && o.size() <= want.size() && std::equal(o.begin(), o.end(), want.begin()))) violation("GetStringList failed but its output holds more than leading elements: " + tostr(o));
    }
    bucket("GetStringList " + tostr(w));
  }
  uint_case(u, p, v, fr, r);
  if (s.DebugString() != before) violation("an accessor modified the struct");
}
static void c12(Rng& r) {
  PStruct s;
  string k = r.chance(50) ? string("n") : "a";
  if (r.chance(90)) (*s.mutable_fields())[k].set_number_value(dbl(r)); else fill(r, &s, 1);
  string p = k;
  if (r.chance(20)) { PStruct o; *(*o.mutable_fields())["o"].mutable_struct_value() = s; s = o; p = "o." + k; }
  begin_case("struct={" + s.ShortDebugString() + "} path=" + show(p));
  StructUtils u(s);
  StructUtils::FindResult fr;
  const PValue* v = walk(s, p, &fr);
  uint_case(u, p, v, fr, r);
}
int main(int argc, char** argv) { return drv_main(argc, argv, {{"C11", c11}, {"C12", c12}, {"C17", c11}}); }
