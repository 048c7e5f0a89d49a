// Prints, for every enumerated stream, its bytes and the summary row the model expects (JSON lines).
#define MC_LIB
#include "mc_syntax.cc"
#include "units.h"
static void row(const char* label, const std::vector<Bytes>& us, int sc) {
  m::Session ms; int nal = 0, sl = 0, hd = 0, bad = 0; uint32_t unimpl = 0; bool open = false; std::vector<std::string> res, prof, lev;
  auto uniq = [](std::vector<std::string>& v, const std::string& s) { for (auto& x : v) if (x == s) return; v.push_back(s); };
  for (auto& u : us) {
    if (u.empty()) continue;
    m::Nal n = m::dec_nal(u.data(), u.size(), ms); unimpl += n.unimpl; if (n.soft || n.undef) open = true;
    if (!n.readable) { ++bad; continue; }
    ++nal; if (!n.parsed) ++bad; uint32_t t = n.hdr.nal_unit_type; if (t == 1 || t == 5 || t == 20) ++sl; if (n.p.slice || n.p.svcslice) ++hd;
    const m::Sps* s = n.p.sps ? n.p.sps.get() : n.p.subset ? n.p.subset->seq_parameter_set_data.get() : nullptr;
    if (s && n.parsed) {
      uniq(res, std::to_string(s->width()) + "x" + std::to_string(s->height())); uniq(prof, expected_profile(*s));
      bool high = s->profile_idc == 100 || s->profile_idc == 110 || s->profile_idc == 122 || s->profile_idc == 244 || s->profile_idc == 44, base = s->profile_idc == 66 || s->profile_idc == 77 || s->profile_idc == 88;
      bool one_b = high ? s->level_idc == 9 : base && s->level_idc == 11 && s->constraint_set3_flag;
      if (!high && !base && (s->level_idc == 9 || s->level_idc == 11)) open = true;   // other annexes
      uniq(lev, one_b ? "1b" : std::to_string(s->level_idc / 10) + "." + std::to_string(s->level_idc % 10));
    }
  }
  if (open) return;
  Bytes b; int k = 0; for (auto& u : us) { if (sc == 4 || (sc == 0 && (k++ & 1))) b.push_back(0); b.push_back(0); b.push_back(0); b.push_back(1); Bytes e = m::escape(u); b.insert(b.end(), e.begin(), e.end()); }
  auto js = [](const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += (s.empty() ? "" : ";") + x; return json_str(s); };
  printf("{\"label\":%s,\"hex\":\"%s\",\"nal\":%d,\"sl\":%d,\"hd\":%d,\"code\":%d,\"res\":%s,\"prof\":%s,\"lev\":%s}\n", json_str(label).c_str(), hex(b).c_str(), nal, sl, hd, unimpl ? 2 : bad ? 1 : 0, js(res).c_str(), js(prof).c_str(), js(lev).c_str());
}
int main(int argc, char** argv) {
  Ctx c; c.s = (Slot*)calloc(1, sizeof(Slot)); bool thorough = argc > 1;
  std::vector<U> al = session_units(c, true); int n = (int)al.size();
  for (int i = 0; i < n; ++i) { row(al[i].name.c_str(), {al[i].b}, 3); for (int j = 0; j < n; ++j) { row((al[i].name + ", " + al[j].name).c_str(), {al[i].b, al[j].b}, 4); } }
  // slices after their sets: every set of each kind, then every unit
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) {
    auto ty = [&](int x) { return al[x].b[0] & 31; };
    bool sets = (ty(i) == 7 || ty(i) == 15) && ty(j) == 8 && (ty(k) == 1 || ty(k) == 5 || ty(k) == 20);
    if (sets) row((al[i].name + ", " + al[j].name + ", " + al[k].name + " x3").c_str(), {al[i].b, al[j].b, al[k].b, al[k].b, al[(k + 1) % n].b, al[k].b}, 0);
    else if (thorough) row((al[i].name + ", " + al[j].name + ", " + al[k].name).c_str(), {al[i].b, al[j].b, al[k].b}, 0);
  }
  // profiles x constraint flags x levels
  for (int p = 0; p < 256; ++p) for (int f = 0; f < 64; ++f) {
    bool known = p == 66 || p == 77 || p == 88 || p == 100 || p == 110 || p == 122 || p == 244 || p == 44 || p == 144; if (!known && f != (p * 5) % 64) continue;
    Fix q{{"profile_idc", p}, {"level_idc", f % 3 == 0 ? 9 : f % 3 == 1 ? 11 : 10 + (f * 7) % 53}, {"constraint_set0_flag", f & 1}, {"constraint_set1_flag", f >> 1 & 1}, {"constraint_set2_flag", f >> 2 & 1}, {"constraint_set3_flag", f >> 3 & 1}, {"constraint_set4_flag", f >> 4 & 1}, {"constraint_set5_flag", f >> 5 & 1}, {"pic_width_in_mbs_minus1", f}, {"chroma_format_idc", 1}};
    if (p == 83 || p == 86 || p == 118 || p == 128) q["level_idc"] = 30;
    Bytes s = u_sps(c, q); row(("profile " + std::to_string(p) + " flags " + std::to_string(f)).c_str(), {s}, 4);
    if (known && f % 4 == 0) { q["level_idc"] = 11; Bytes s2 = u_sps(c, q); row("two levels", {s, s2, s, al[0].b}, 3); }
  }
  for (int l = 0; l < 256; ++l) for (int p : {66, 100}) { row(("level " + std::to_string(l)).c_str(), {u_sps(c, Fix{{"profile_idc", p}, {"level_idc", l}, {"chroma_format_idc", 1}})}, 4); }
  for (auto& q : corpus(c, 0)) { row(q.name.c_str(), q.units, 0); std::vector<Bytes> us = q.units; us.back().resize(us.back().size() * 2 / 3); row((q.name + " cut").c_str(), us, 0); }
  for (auto& q : corpus(c, 1)) if (q.units.size() == 1 || thorough) row(q.name.c_str(), q.units, 0);
  // repetition counts
  for (int k = 0; k < 12; ++k) { std::vector<Bytes> us{al[0].b, al[5].b}; for (int i = 0; i < k; ++i) us.push_back(al[14].b); row("repeated slices", us, 0); }
  for (int k : {30, 99, 100, 101, 255, 256, 1000, 1024, 3000}) for (int what = 0; what < 4; ++what) {
    std::vector<Bytes> us; if (what != 3) us = {al[0].b, al[5].b};
    for (int i = 0; i < k; ++i) { if (what == 1) us.push_back(u_sps(c, Fix{{"pic_width_in_mbs_minus1", i % 120}, {"level_idc", i % 250}, {"seq_parameter_set_id", i % 32}})); else if (what == 2) us.push_back(al[(size_t)i % al.size()].b); else us.push_back(al[14].b); }
    row(what == 0 ? "many slices" : what == 1 ? "many sets" : what == 2 ? "many units" : "many slices without sets", us, 0); }
}
