// C16 purity (several builds and environments of the same parse), C26 full and small-footprint builds.
#define MC_LIB
#include "mc_syntax.cc"
#include "units.h"
#include "shim.h"
#include <dlfcn.h>
#include <sys/stat.h>
#include "toolrun.h"
#include <malloc.h>
#include <new>

// every allocation and every freed block is filled with the current pattern
static int g_fill = -1;
static void* fill_new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); if (g_fill >= 0) memset(p, g_fill, malloc_usable_size(p)); return p; }
static void fill_delete(void* p) { if (p && g_fill >= 0) memset(p, g_fill ^ 0x5a, malloc_usable_size(p)); free(p); }
void* operator new(size_t n) { return fill_new(n); }
void* operator new[](size_t n) { return fill_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return fill_new(n); }
void operator delete(void* p) noexcept { fill_delete(p); }
void operator delete[](void* p) noexcept { fill_delete(p); }
void operator delete(void* p, size_t) noexcept { fill_delete(p); }
void operator delete[](void* p, size_t) noexcept { fill_delete(p); }
__attribute__((noinline)) static void scribble(int v) { volatile uint8_t a[65536]; for (size_t i = 0; i < sizeof a; ++i) a[i] = (uint8_t)(v + (v & 1 ? i * 7 : 0)); }

static const shim_api* load(Ctx& c, const char* name) {
  std::string p = std::string(getenv("SHIM_DIR") ? getenv("SHIM_DIR") : ".") + "/" + name; void* h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) c.broken("dlopen: %s", dlerror());
  auto a = (const shim_api*)dlsym(h, "shim"); if (!a) c.broken("no shim in %s", name); return a;
}
struct Item { int how; Bytes b; };   // one call
struct Env { int fill; int stack; int align; uint8_t around; bool history; bool late; int pre; };
struct Out { std::vector<uint64_t> now, late; uint64_t session; uint32_t unimpl; bool modified = false; };

static Out run(const shim_api* A, const std::vector<Item>& its, const Env& e, const std::vector<Item>& other, bool dump, int opts = 31) {
  Out o; g_fill = e.fill; std::vector<shim_result*> rs; std::vector<uint8_t*> bufs; shim_session *s = nullptr, *s2 = nullptr;
  if (e.history) { s2 = A->session_new(); for (auto& i : other) A->free_result(A->parse(s2, i.how, i.b.data(), i.b.size(), 31)); }
  // an earlier session with other contents, gone, whose storage the new session is given again
  if (e.pre) { shim_session* g = A->session_new(); for (auto& i : other) A->free_result(A->parse(g, i.how, i.b.data(), i.b.size(), 31)); A->session_free(g); }
  s = A->session_new(); uint32_t u0 = A->unimplemented();
  for (auto& i : its) {
    size_t pre = 16 + e.align, tot = pre + i.b.size() + 16; uint8_t* m = (uint8_t*)aligned_alloc(64, (tot + 63) / 64 * 64); bufs.push_back(m);
    memset(m, e.around, tot); if (i.b.size()) memcpy(m + pre, i.b.data(), i.b.size());
    if (e.stack >= 0) scribble(e.stack);
    rs.push_back(A->parse(s, i.how, m + pre, i.b.size(), opts));
    o.now.push_back(A->digest(rs.back(), dump));
    if (i.b.size() && memcmp(m + pre, i.b.data(), i.b.size())) o.modified = true;
    for (size_t k = 0; k < pre; ++k) if (m[k] != e.around) o.modified = true; for (size_t k = pre + i.b.size(); k < tot; ++k) if (m[k] != e.around) o.modified = true;
    if (e.history && !other.empty()) { auto& x = other[rs.size() % other.size()]; A->free_result(A->parse(s2, x.how, x.b.data(), x.b.size(), 31)); }
    if (e.late) { memset(m, 0xee, tot); free(m); bufs.back() = nullptr; }
  }
  o.unimpl = A->unimplemented() - u0; o.session = A->session_digest(s);
  if (e.late) { A->session_free(s); s = nullptr; if (s2) A->session_free(s2); s2 = nullptr; if (e.stack >= 0) scribble(e.stack ^ 0xff); for (auto r : rs) o.late.push_back(A->digest(r, dump)); }
  for (auto r : rs) A->free_result(r); if (s) A->session_free(s); if (s2) A->session_free(s2); for (auto b : bufs) free(b);
  g_fill = -1; return o;
}
static std::string explain(const shim_api* A, const shim_api* B, const std::vector<Item>& its, size_t k, const Env& ea, const Env& eb) {
  std::string ta, tb; for (int w = 0; w < 2; ++w) { const shim_api* X = w ? B : A; const Env& e = w ? eb : ea; g_fill = e.fill; shim_session* s = X->session_new(); for (size_t i = 0; i <= k; ++i) { if (e.stack >= 0) scribble(e.stack); shim_result* r = X->parse(s, its[i].how, its[i].b.data(), its[i].b.size(), 31); if (i == k) { char* t = X->text(r); (w ? tb : ta) = t; free(t); } X->free_result(r); } X->session_free(s); g_fill = -1; }
  size_t i = 0; while (i < ta.size() && i < tb.size() && ta[i] == tb[i]) ++i; size_t f = ta.rfind('\n', i ? i - 1 : 0); f = f == std::string::npos ? 0 : f + 1;
  return i == ta.size() && i == tb.size() ? "(equal when repeated on its own)" : "'" + ta.substr(f, 60) + "' / '" + tb.substr(f, 60) + "'";
}
static std::vector<Item> nal_items(const std::vector<Bytes>& us) { std::vector<Item> v; for (auto& u : us) v.push_back({SHIM_NAL, m::escape(u)}); return v; }
static Item annexb(const std::vector<Bytes>& us, int how = SHIM_ANNEXB) { return {how, cat(us)}; }
static Item len4(const std::vector<Bytes>& us) { Bytes b; for (auto& u : us) { Bytes e = m::escape(u); for (int k = 4; k-- > 0;) b.push_back((uint8_t)(e.size() >> (8 * k))); b.insert(b.end(), e.begin(), e.end()); } return {SHIM_LEN4, b}; }
static Item stap(const std::vector<Bytes>& us) { Bytes b{0x78}; for (auto& u : us) { Bytes e = m::escape(u); b.push_back((uint8_t)(e.size() >> 8)); b.push_back((uint8_t)e.size()); b.insert(b.end(), e.begin(), e.end()); } return {SHIM_RTP, b}; }
static Bytes flat(const std::vector<Item>& its) { Bytes b; for (auto& i : its) { b.push_back((uint8_t)i.how); for (int k = 4; k-- > 0;) b.push_back((uint8_t)(i.b.size() >> (8 * k))); b.insert(b.end(), i.b.begin(), i.b.end()); } return b; }

// ------------------------------------------------------------------ C16
struct C16 { const shim_api *Z, *P; std::vector<Item> other; };
static void c16_case(Ctx& c, C16& t, const std::vector<Item>& its, const char* label, bool dump = true) {
  if (!c.begin(flat(its), "%s (calls: entry, size, bytes)", label)) return;
  c.add(C_STATES);
  static const Env E[] = {{-1, -1, 0, 0x00, false, false, 0}, {0xaa, 0x55, 1, 0xff, false, true, 1}, {0xff, 0x01, 3, 0x01, true, true, 0}, {0x00, 0xff, 6, 0x80, true, false, 0}};
  const shim_api* L[] = {t.Z, t.P, t.Z, t.P};
  Out a = run(L[0], its, E[0], t.other, dump); c.add(C_TRANS, its.size()); c.add(C_ACC);
  if (a.modified) c.fail("the input or its surroundings were modified");
  for (int v = 1; v < 4; ++v) {
    Out b = run(L[v], its, E[v], t.other, dump); c.add(C_TRANS, its.size());
    if (b.modified) c.fail("the input or its surroundings were modified");
    for (size_t i = 0; i < its.size(); ++i) {
      if (a.now[i] != b.now[i]) c.fail("call %zu gives another result in environment %d (memory fill %d, stack fill %d, alignment %d, surrounding bytes %02x%s): %s", i + 1, v, E[v].fill, E[v].stack, E[v].align, E[v].around, E[v].history ? ", other session used before and between" : E[v].pre ? ", an earlier session in the same place" : "", explain(L[0], L[v], its, i, E[0], E[v]).c_str());
      if (!b.late.empty() && b.late[i] != b.now[i]) c.fail("the result of call %zu changes after the input buffers and the session are gone", i + 1);
    }
    if (a.session != b.session) c.fail("the session ends differently in environment %d", v);
    if (a.unimpl != b.unimpl && !E[v].history) c.fail("unimplemented count grows by %u or %u", a.unimpl, b.unimpl);
  }
}
// all ordered pairs of coherent histories (a set, a set that refers to it, a slice): the first in a session that is
// gone when the second starts in its storage, or in a session that takes turns with it
static void c16_pairs(Ctx& c, C16& t, const std::vector<U>& al) {
  std::vector<std::vector<Item>> hs; std::vector<std::string> names; auto get = [&](const char* n) { for (auto& u : al) if (u.name == n) return u.b; c.broken("no unit %s", n); return Bytes(); };
  auto tri = [&](std::vector<const char*> a, std::vector<const char*> b, std::vector<const char*> d) { for (auto x : a) for (auto y : b) for (auto z : d) { hs.push_back(nal_items({get(x), get(y), get(z)})); names.push_back(std::string(x) + "," + y + "," + z); } };
  tri({"sps0A", "sps0B", "sps1A", "sps0C", "sps1B"}, {"pps0->0", "pps0->1", "pps1->0", "pps1->1"}, {"slice1 p0", "slice5 p0", "slice1 p1"});
  tri({"sub0A", "sub0B", "sub1C", "sub1A"}, {"pps0->0", "pps0->1", "pps1->0", "pps1->1"}, {"svc slice p0", "svc slice p1"});
  size_t n = hs.size(); std::vector<std::vector<uint64_t>> alone(n); std::vector<uint64_t> sess(n);
  auto play = [&](shim_session* s, const std::vector<Item>& h, std::vector<uint64_t>& o, shim_session* s2, const std::vector<Item>* h2) {
    for (size_t k = 0; k < h.size(); ++k) { if (s2) t.Z->free_result(t.Z->parse(s2, (*h2)[k].how, (*h2)[k].b.data(), (*h2)[k].b.size(), 31)); shim_result* r = t.Z->parse(s, h[k].how, h[k].b.data(), h[k].b.size(), 31); o.push_back(t.Z->digest(r, 0)); t.Z->free_result(r); c.add(C_TRANS); } };
  // reference: each history in a session that keeps its own address
  std::vector<shim_session*> keep; for (size_t j = 0; j < n; ++j) { keep.push_back(t.Z->session_new()); play(keep[j], hs[j], alone[j], nullptr, nullptr); sess[j] = t.Z->session_digest(keep[j]); }
  for (auto k : keep) t.Z->session_free(k);
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) for (int mode = 0; mode < 2; ++mode) {
    if ((i + j) % c.nshards != (size_t)c.shard) continue;
    std::vector<Item> both = hs[i]; both.insert(both.end(), hs[j].begin(), hs[j].end());
    if (!c.begin(flat(both), "%s after / with %s in another session (mode %d)", names[j].c_str(), names[i].c_str(), mode)) continue;
    c.add(C_STATES); std::vector<uint64_t> o, dummy; shim_session *g = t.Z->session_new(), *s = nullptr;
    if (mode == 0) { play(g, hs[i], dummy, nullptr, nullptr); t.Z->session_free(g); s = t.Z->session_new(); play(s, hs[j], o, nullptr, nullptr); }
    else { s = t.Z->session_new(); play(s, hs[j], o, g, &hs[i]); t.Z->session_free(g); }
    uint64_t sd = t.Z->session_digest(s); t.Z->session_free(s);
    for (size_t k = 0; k < o.size(); ++k) if (o[k] != alone[j][k]) c.fail("unit %zu of %s gives another result %s %s in another session", k + 1, names[j].c_str(), mode ? "while taking turns with" : "after", names[i].c_str());
    if (sd != sess[j]) c.fail("the session ends differently"); c.add(C_ACC);
  }
}
static void c16(Ctx& c) {
  C16 t{load(c, "zero.so"), load(c, "pattern.so"), {}};
  std::vector<U> al = session_units(c, true); std::vector<Seq> base = corpus(c, 0), dev = corpus(c, 1);
  // the other session parses one unit of every kind
  for (size_t i = 0; i < base.size(); i += 3) for (auto& it : nal_items(base[i].units)) t.other.push_back(it);
  if (t.other.size() > 24) t.other.resize(24); for (auto& u : al) t.other.push_back({SHIM_NAL, m::escape(u.b)}); t.other.push_back({SHIM_NAL, Bytes{0x15, 0x80, 0x00, 0x00}});
  c16_pairs(c, t, al);
  uint64_t idx = 0; auto mine = [&] { return idx++ % c.nshards == (uint64_t)c.shard; };
  for (auto& q : dev) { if (mine()) c16_case(c, t, nal_items(q.units), q.name.c_str()); if (mine()) c16_case(c, t, {annexb(q.units), len4(q.units), annexb(q.units, SHIM_ANNEXB_OWN)}, q.name.c_str()); }
  for (auto& q : base) { if (mine()) { size_t n = 0; for (auto& u : q.units) n += u.size(); if (n < 60000) c16_case(c, t, {stap(q.units)}, q.name.c_str()); }
    const Bytes u = q.units.back(); std::vector<Bytes> us = q.units;
    for (size_t i = 0; i < u.size(); ++i) { if (!mine()) continue; us.back() = Bytes(u.begin(), u.begin() + i); c16_case(c, t, nal_items(us), "cut"); }
    for (size_t i = 0; i < u.size() * 8; ++i) { if (!mine()) continue; us.back() = u; us.back()[i >> 3] ^= 0x80 >> (i & 7); c16_case(c, t, nal_items(us), "bit flipped"); } }
  if (c.thorough) for (auto& q : dev) { const Bytes u = q.units.back(); if (u.size() > 200) continue; std::vector<Bytes> us = q.units; for (size_t i = 0; i < u.size(); ++i) { if (!mine()) continue; us.back() = Bytes(u.begin(), u.begin() + i); c16_case(c, t, nal_items(us), "cut", false); } }
  products(c, c.thorough ? 4 : 1, [&](const Seq& q) { c16_case(c, t, nal_items(q.units), q.name.c_str(), false); });
  int n = (int)al.size();
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) { if (!mine()) continue; c16_case(c, t, nal_items({al[i].b, al[j].b, al[k].b}), "three units"); }
  for (uint32_t f = 0; f < 256; ++f) for (uint32_t v = 0; v < 256; v += c.thorough ? 1 : 5) { if (!mine()) continue; Bytes b{(uint8_t)f, (uint8_t)v}; c16_case(c, t, {{SHIM_NAL, b}, {SHIM_RTP, b}}, "two bytes"); b.push_back(0x80); b.push_back(0x55); c16_case(c, t, {{SHIM_NAL_RAW, b}, {SHIM_RTP, b}}, "four bytes"); }
  for (uint8_t h : {0x78, 0x7c}) for (uint32_t v = 0; v < 256; ++v) { if (!mine()) continue; std::vector<Item> its = nal_items({al[0].b, al[5].b}); for (auto& u : al) { Bytes b{h, (uint8_t)v}; b.insert(b.end(), u.b.begin() + 1, u.b.end()); its.push_back({SHIM_RTP, b}); } c16_case(c, t, its, "RTP packets"); }
}

// ------------------------------------------------------------------ C26
static void c26_case(Ctx& c, const shim_api* F, const shim_api* S, const std::vector<Item>& its, const char* label) {
  if (!c.begin(flat(its), "%s (calls: entry, size, bytes)", label)) return;
  c.add(C_STATES); static const Env E = {-1, -1, 0, 0x00, false, false, 0};
  Out a = run(F, its, E, {}, false), b = run(S, its, E, {}, false); c.add(C_TRANS, 2 * its.size()); c.add(C_ACC);
  for (size_t i = 0; i < its.size(); ++i) if (a.now[i] != b.now[i]) { std::string e = explain(F, S, its, i, E, E); c.fail("call %zu: the full and the small-footprint build differ: %s", i + 1, e.c_str()); }
  if (a.session != b.session) c.fail("the session differs between the full and the small-footprint build");
  if (a.unimpl != b.unimpl) c.fail("unimplemented count grows by %u (full) and %u (small)", a.unimpl, b.unimpl);
}
// the two tool binaries on the same stream: same exit status
static void c26_tool(Ctx& c, Tool& F, Tool& S, const Bytes& in, std::vector<std::string> args, const std::string& label) {
  if (!c.begin(in, "tools: %s: h264nal %s", label.c_str(), joined(args).c_str())) return;
  std::string p = F.file("in.264", in); args.push_back("-i"); args.push_back(p); Run a = F.run(c, args), b = S.run(c, args); c.add(C_STATES); c.add(C_TRANS, 2); c.add(C_ACC);
  if (b.signalled) c.fail("the small-footprint tool was ended by signal %d", WTERMSIG(b.status));
  if (a.signalled || a.code != b.code) c.fail("exit status %d (full) and %d (small)", a.code, b.code);
}
static void c26_tools(Ctx& c) {
  Tool F(c, "h264nal"), S(c, "h264nal_small"); uint64_t idx = 0; auto mine = [&] { return idx++ % c.nshards == (uint64_t)c.shard; }; std::vector<U> al = session_units(c, true); int n = (int)al.size();
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (!mine()) continue; std::vector<Bytes> us{al[i].b, al[j].b}; std::string nm = al[i].name + ", " + al[j].name; c26_tool(c, F, S, cat(us), {}, nm); if (c.thorough || (i + j) % 4 == 0) { c26_tool(c, F, S, len4(us).b, {"--nalu-length-bytes", "4"}, nm); c26_tool(c, F, S, cat(us), {"--dump-length"}, nm); } }
  for (auto& q : corpus(c, 0)) { if (mine()) c26_tool(c, F, S, cat(q.units), {}, q.name); std::vector<Bytes> us = q.units; us.back().resize(us.back().size() * 2 / 3); if (mine()) c26_tool(c, F, S, cat(us), {}, q.name + " cut"); }
  for (uint32_t f = 0; f < 256; ++f) { if (!mine()) continue; c26_tool(c, F, S, cat({Bytes{(uint8_t)f, 0x80, 0x07, 0x0f, 0x80}}), {}, "first byte"); }
  std::vector<std::vector<std::string>> A = {{"--nalu-length-bytes", "x"}, {"--frames-per-second", ""}, {"--no-such-option"}, {"--version"}, {"--help"}, {"-d", "-q"}, {"--add-offset", "--add-length", "--add-parsed-length", "--add-checksum", "--add-resolution", "--add-contents"}, {"--nalu-length-bytes", "0"}, {"--nalu-length-bytes", "9"}};
  for (auto& a : A) if (mine()) c26_tool(c, F, S, cat({al[0].b, al[5].b}), a, "arguments");
  if (mine()) c26_tool(c, F, S, Bytes(), {}, "empty file");
}
static void c26(Ctx& c) {
  c26_tools(c);
  const shim_api *F = load(c, "full.so"), *S = load(c, "small.so"); std::vector<U> al = session_units(c, true); uint64_t idx = 0; auto mine = [&] { return idx++ % c.nshards == (uint64_t)c.shard; };
  std::vector<Seq> base = corpus(c, 0), dev = corpus(c, c.thorough ? 2 : 1);
  for (auto& q : dev) { if (mine()) c26_case(c, F, S, nal_items(q.units), q.name.c_str()); if (mine()) c26_case(c, F, S, {annexb(q.units), len4(q.units), annexb(q.units, SHIM_ANNEXB_OWN)}, q.name.c_str()); }
  for (auto& q : base) { const Bytes u = q.units.back(); std::vector<Bytes> us = q.units;
    for (size_t i = 0; i < u.size(); ++i) { if (!mine()) continue; us.back() = Bytes(u.begin(), u.begin() + i); c26_case(c, F, S, nal_items(us), "cut"); }
    for (size_t i = 0; i < u.size() * 8; ++i) { if (!mine()) continue; us.back() = u; us.back()[i >> 3] ^= 0x80 >> (i & 7); c26_case(c, F, S, nal_items(us), "bit flipped"); } }
  for (auto& q : corpus(c, 1)) { const Bytes u = q.units.back(); if (u.size() > 200) continue; std::vector<Bytes> us = q.units; for (size_t i = 0; i < u.size(); ++i) { if (!mine()) continue; us.back() = Bytes(u.begin(), u.begin() + i); c26_case(c, F, S, nal_items(us), "cut"); } }
  products(c, c.thorough ? 4 : 1, [&](const Seq& q) { c26_case(c, F, S, nal_items(q.units), q.name.c_str()); std::vector<Bytes> us = q.units; const Bytes u = us.back(); for (size_t i = 1; i < u.size(); i += c.thorough || u.size() < 24 ? 1 : u.size() / 12) { us.back().assign(u.begin(), u.begin() + i); c26_case(c, F, S, nal_items(us), "cut"); } });
  int n = (int)al.size();
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) if (mine()) c26_case(c, F, S, nal_items({al[i].b, al[j].b, al[k].b}), "three units");
  for (uint32_t f = 0; f < 256; ++f) for (uint32_t v = 0; v < 256; ++v) { if (!mine()) continue; Bytes b{(uint8_t)f, (uint8_t)v}; c26_case(c, F, S, {{SHIM_NAL, b}}, "two bytes"); b.push_back(0x80); b.push_back(0x55); c26_case(c, F, S, {{SHIM_NAL_RAW, b}}, "four bytes"); }
  static const uint8_t ab[] = {0, 1, 2, 3, 0x67, 0xff}; int L = c.thorough ? 9 : 8; uint64_t tot = 1; for (int i = 0; i < L; ++i) tot *= 6;
  for (uint64_t x = (uint64_t)c.shard; x < tot; x += c.nshards) { Bytes b; uint64_t y = x; for (int i = 0; i < L; ++i) { b.push_back(ab[y % 6]); y /= 6; } c26_case(c, F, S, {{SHIM_ANNEXB, b}, {SHIM_LEN4, b}}, "stream bytes"); }
}
static Reg rC16(Check{"C16", c16, "model_checking", "every baseline and one-deviation unit with its sets (unit by unit, Annex B, length-prefixed, STAP-A), every cut and bit flip of the baselines, all 3-unit histories over 39 units, the units of the structural products, short units, RTP packets; each in four environments: two builds (uninitialised locals filled with zeros / with a pattern), three heap fills, stack fills, alignments, surrounding bytes, another session used before and between, an earlier session at the same address with other sets; all ordered pairs of 92 coherent 3-unit histories, one in an earlier session at the same address or in a session taking turns; results read again after buffers and session are gone", "cuts of the one-deviation units", "identical views, dump text, positions, checksums and session in all environments; inputs unmodified", {}});
static Reg rC26(Check{"C26", c26, "model_checking", "both build configurations on: every baseline and one-deviation unit with its sets in three framings, every cut (and for the baselines every bit flip), all 3-unit histories over 39 units, the units of the structural products and cuts of them, all 2-byte units, 8-byte streams over 6 values; exit status of the two tool binaries on all 2-unit streams, baselines and cuts of them, every first byte and unusual arguments", "two-deviation corpus, 9-byte streams", "identical views, positions, checksums, session and unimplemented count", {}});
int main(int argc, char** argv) { return mc_main(argc, argv, registry()); }
