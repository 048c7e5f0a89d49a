// C04 (bit reader) and C05 (bit writer): every operation from every position
// of enumerated buffers, and all operation sequences up to a depth, against a
// reference that addresses single bits.  Buffers lie against guard pages.
#include "common.h"
#include "guard.h"
#include <map>
#include "rtc_common.h"
#include "h264_common.h"
namespace H = h264nal;

// ---------------------------------------------------------------- reference
struct Span { const uint8_t* d; size_t n; Span(const Bytes* b) : d(b->data()), n(b->size()) {} Span(const uint8_t* p, size_t k) : d(p), n(k) {} size_t size() const { return n; } uint8_t operator[](size_t i) const { return d[i]; } const Span& operator*() const { return *this; } const Span* operator->() const { return this; } };
struct RefBits {
  Span b; uint64_t pos = 0;
  uint64_t total() const { return (uint64_t)b->size() * 8; }
  uint64_t left() const { return total() - pos; }
  int bit(uint64_t i) const { return ((*b)[i >> 3] >> (7 - (i & 7))) & 1; }
  bool peek(uint64_t n, uint64_t max, uint64_t& v) const { if (n == 0 || n > max || n > left()) return false; v = 0; for (uint64_t i = 0; i < n; ++i) v = v << 1 | (uint64_t)bit(pos + i); return true; }
  bool skip(uint64_t n) { if (n > left()) return false; pos += n; return true; }
  bool ue(uint64_t& v) { uint64_t z = 0; while (pos + z < total() && !bit(pos + z)) ++z; if (z > 31 || pos + z >= total() || left() < 2 * z + 1) return false; uint64_t x = 0; for (uint64_t i = 0; i <= z; ++i) x = x << 1 | (uint64_t)bit(pos + z + i); v = x - 1; pos += 2 * z + 1; return true; }
};
static unsigned bits_of(uint64_t v) { unsigned n = 0; while (v) { ++n; v >>= 1; } return n; }

enum Kind { RB32, RB64, PK32, PK64, U8, U16, U32, UE, SE, NS, NSP, CB, CBY, SK, W_BITS, W8, W16, W32, WUE, WSE, WNS };
struct Op { Kind k; uint64_t a = 0, b = 0; };
static const char* kn[] = {"ReadBits32", "ReadBits64", "PeekBits32", "PeekBits64", "ReadUInt8", "ReadUInt16", "ReadUInt32", "ReadExponentialGolomb", "ReadSignedExponentialGolomb", "ReadNonSymmetric", "ReadNonSymmetric*", "ConsumeBits", "ConsumeBytes", "Seek", "WriteBits", "WriteUInt8", "WriteUInt16", "WriteUInt32", "WriteExponentialGolomb", "WriteSignedExponentialGolomb", "WriteNonSymmetric"};
static std::string opstr(const Op& o) { char b[96]; snprintf(b, sizeof b, "%s(%llu,%llu)", kn[o.k], (unsigned long long)o.a, (unsigned long long)o.b); return b; }

// Executes one reading operation on both sides; "" or what differs.
static bool read_op(H::BitBuffer& bb, RefBits& r, const Op& o, std::string& why) {
  uint64_t want = 0, got = 0; bool ok = false, rok = false, value = true, check_pos = true; uint64_t p0 = r.pos;
  switch (o.k) {
    case RB32: { uint32_t v = 0xDEADBEEF; ok = bb.ReadBits((size_t)o.a, v); got = v; rok = r.peek(o.a, 32, want); if (rok) r.pos += o.a; break; }
    case RB64: { uint64_t v = 0xDEADBEEFDEADBEEFull; ok = bb.ReadBits((size_t)o.a, v); got = v; rok = r.peek(o.a, 64, want); if (rok) r.pos += o.a; break; }
    case PK32: { uint32_t v = 0xDEADBEEF; ok = bb.PeekBits((size_t)o.a, v); got = v; rok = r.peek(o.a, 32, want); break; }
    case PK64: { uint64_t v = 0xDEADBEEFDEADBEEFull; ok = bb.PeekBits((size_t)o.a, v); got = v; rok = r.peek(o.a, 64, want); break; }
    case U8: { uint8_t v = 0xA5; ok = bb.ReadUInt8(v); got = v; rok = r.peek(8, 32, want); if (rok) r.pos += 8; break; }
    case U16: { uint16_t v = 0xA5A5; ok = bb.ReadUInt16(v); got = v; rok = r.peek(16, 32, want); if (rok) r.pos += 16; break; }
    case U32: { uint32_t v = 0xA5A5A5A5; ok = bb.ReadUInt32(v); got = v; rok = r.peek(32, 32, want); if (rok) r.pos += 32; break; }
    case UE: { uint32_t v = 0xA5A5A5A5; ok = bb.ReadExponentialGolomb(v); got = v; rok = r.ue(want); break; }
    case SE: { int32_t v = 0x25A5A5A5; ok = bb.ReadSignedExponentialGolomb(v); got = (uint64_t)(int64_t)v; uint64_t k = 0; rok = r.ue(k); if (rok) want = (uint64_t)(k & 1 ? (int64_t)((k + 1) / 2) : -(int64_t)(k / 2)); break; }
    case NS: case NSP: {
      uint32_t v = 0xA5A5A5A5; ok = o.k == NS ? bb.ReadNonSymmetric((uint32_t)o.a, v) : bb.ReadNonSymmetric(&v, (uint32_t)o.a); got = v;
      unsigned n = bits_of(o.a); uint64_t k = (1ull << n) - o.a, x = 0;
      if (n == 1) { rok = true; want = 0; }
      else if (!r.peek(n - 1, 64, x)) rok = false;
      else if (x < k) { rok = true; want = x; r.pos += n - 1; }
      else if (r.left() < n) { rok = false; check_pos = false; }
      else { r.peek(n, 64, x); rok = true; want = x - k; r.pos += n; }
      break; }
    case CB: ok = bb.ConsumeBits((size_t)o.a); rok = r.skip(o.a); value = false; break;
    case CBY: ok = bb.ConsumeBytes((size_t)o.a); rok = o.a <= r.left() / 8 && r.skip(o.a * 8); value = false; break;
    case SK: ok = bb.Seek((size_t)o.a, (size_t)o.b); rok = o.b <= 7 && (o.a < r.b->size() || (o.a == r.b->size() && o.b == 0)); if (rok) r.pos = o.a * 8 + o.b; value = false; break;
    default: why = "not a read"; return false;
  }
  char t[256];
  if (ok != rok) { snprintf(t, sizeof t, "%s at bit %llu of %zu bytes %s", opstr(o).c_str(), (unsigned long long)p0, r.b->size(), ok ? "succeeded although it does not fit" : "failed although it fits"); why = t; return false; }
  if (ok && value && got != want) { snprintf(t, sizeof t, "%s at bit %llu gave %llu, the bits say %llu", opstr(o).c_str(), (unsigned long long)p0, (unsigned long long)got, (unsigned long long)want); why = t; return false; }
  size_t by = 77, bi = 77; bb.GetCurrentOffset(&by, &bi);
  if (!check_pos) { if (by * 8 + bi != r.pos) bb.Seek((size_t)(r.pos / 8), (size_t)(r.pos % 8)); bb.GetCurrentOffset(&by, &bi); }
  if (by * 8 + bi != r.pos || bi > 7) { snprintf(t, sizeof t, "%s at bit %llu %s and left the position at %zu.%zu, expected %llu.%llu", opstr(o).c_str(), (unsigned long long)p0, ok ? "succeeded" : "failed", by, bi, (unsigned long long)r.pos / 8, (unsigned long long)r.pos % 8); why = t; return false; }
  if (bb.RemainingBitCount() != r.left()) { snprintf(t, sizeof t, "after %s: %llu bits remaining reported, %llu left", opstr(o).c_str(), (unsigned long long)bb.RemainingBitCount(), (unsigned long long)r.left()); why = t; return false; }
  return true;
}
static std::vector<Op> all_reads(size_t nbytes) {
  std::vector<Op> v;
  for (uint64_t n = 0; n <= 34; ++n) { v.push_back({RB32, n}); v.push_back({PK32, n}); }
  for (uint64_t n = 0; n <= 66; ++n) { v.push_back({RB64, n}); v.push_back({PK64, n}); }
  for (Kind k : {U8, U16, U32, UE, SE}) v.push_back({k});
  for (uint64_t n : {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 31, 33, 100, 255, 256, 257, 1000, 65535, 65536, 65537}) v.push_back({NS, n});
  v.push_back({NS, 0x7fffffff}); v.push_back({NS, 0x80000000}); v.push_back({NSP, 5}); v.push_back({NSP, 6});
  std::vector<uint64_t> big{0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ull, 0x100000001ull, 1ull << 61, (1ull << 61) - 1, (1ull << 61) + 1, 1ull << 63, ~0ull, ~0ull - 7, ~0ull - 8};
  for (Kind k : {RB32, RB64, PK32, PK64}) for (uint64_t b : big) v.push_back({k, b});
  for (uint64_t n = 0; n <= nbytes * 8 + 2; ++n) v.push_back({CB, n});
  for (uint64_t n = 0; n <= nbytes + 2; ++n) v.push_back({CBY, n});
  for (uint64_t b : big) { v.push_back({CB, b}); v.push_back({CBY, b}); v.push_back({SK, b, 0}); v.push_back({SK, 0, b}); }
  for (uint64_t n = 0; n <= nbytes + 2; ++n) for (uint64_t b = 0; b <= 9; ++b) v.push_back({SK, n, b});
  return v;
}
static void every_op(Ctx& c, Guarded& g, const Bytes& b, const char* label, const std::vector<Op>& ops) {
  for (int end = 0; end < 2; ++end) {
    if (!c.begin(b, "%s, buffer at the %s of its page", label, end ? "end" : "start")) continue;
    uint8_t* p = guarded_copy(g, b, end); std::string why;
    for (uint64_t pos = 0; pos <= b.size() * 8; ++pos) {
      c.add(C_STATES);
      for (auto& o : ops) {
        H::BitBuffer bb(p, b.size()); RefBits r{&b, 0}; c.add(C_TRANS);
        if (pos && !read_op(bb, r, {SK, pos / 8, pos % 8}, why)) c.fail("%s", why.c_str());
        if (!read_op(bb, r, o, why)) c.fail("%s", why.c_str());
      }
    }
    if (b.size() && memcmp(p, b.data(), b.size())) c.fail("reading changed the buffer");
  }
}
static std::vector<Bytes> patterned(size_t lo, size_t hi, bool dense) {
  std::vector<Bytes> v;
  for (size_t n = lo; n <= hi; ++n) {
    for (int f : {0x00, 0xff, 0x55, 0xaa, 0x01, 0x80}) v.push_back(Bytes(n, (uint8_t)f));
    Bytes r(n), q(n); for (size_t i = 0; i < n; ++i) r[i] = (uint8_t)(i * 37 + 11), q[i] = (uint8_t)(i * 151 + 200); v.push_back(r); v.push_back(q);
    for (size_t i = 0; i < n * 8; i += dense ? 1 : 5) { Bytes z(n, 0), o(n, 0xff); z[i >> 3] |= 0x80 >> (i & 7); o[i >> 3] &= ~(0x80 >> (i & 7)); v.push_back(z); v.push_back(o); }
  }
  return v;
}
// all operation sequences of a given depth; live objects cannot be copied, so each sequence starts afresh
static void sequences(Ctx& c, Guarded& g, const Bytes& b, const std::vector<Op>& ops, int depth, bool end) {
  uint8_t* p = guarded_copy(g, b, end); std::vector<size_t> ix(depth, 0); std::string why;
  for (;;) {
    H::BitBuffer bb(p, b.size()); RefBits r{&b, 0};
    for (int i = 0; i < depth; ++i) {
      c.add(C_TRANS);
      if (!read_op(bb, r, ops[ix[i]], why)) { std::string h; for (int j = 0; j <= i; ++j) h += opstr(ops[ix[j]]) + " "; c.fail("after %s: %s", h.c_str(), why.c_str()); }
    }
    c.add(C_STATES);
    int k = depth - 1; while (k >= 0 && ++ix[k] == ops.size()) ix[k--] = 0;
    if (k < 0) break;
    if (k <= depth - 3) c.beat();
  }
}
static void put(Bytes& b, uint64_t& pos, uint64_t v, unsigned n) { for (unsigned i = 0; i < n; ++i, ++pos) { if ((pos >> 3) >= b.size()) b.push_back(0); uint8_t m = 0x80 >> (pos & 7); if (v >> (n - 1 - i) & 1) b[pos >> 3] |= m; else b[pos >> 3] &= ~m; } }

// Buffers of half a gigabyte to four gigabytes (sparse): bit positions and counts around and beyond 2^32.
struct Huge {
  uint8_t* p; size_t n; bool ok;
  Huge(size_t k) : n(k) { p = (uint8_t*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); ok = p != (uint8_t*)MAP_FAILED; if (!ok) return;
    for (size_t a : places()) for (size_t i = a > 64 ? a - 64 : 0; i < a + 64 && i < n; ++i) p[i] = (uint8_t)(0x11 + i * 7 % 0xdd); }
  ~Huge() { if (ok) munmap(p, n); }
  std::vector<size_t> places() const { std::vector<size_t> v{0, (size_t)1 << 28, (size_t)1 << 29, (size_t)1 << 30, (size_t)1 << 31, (size_t)1 << 32, n}; std::vector<size_t> w; for (size_t x : v) if (x <= n) w.push_back(x); return w; }
};
static const size_t kHuge[] = {((size_t)1 << 29) - 1, (size_t)1 << 29, ((size_t)1 << 29) + 1, ((size_t)1 << 29) + 4096, ((size_t)1 << 31) - 1, ((size_t)1 << 31) + 1, ((size_t)1 << 32) - 1, (size_t)1 << 32, ((size_t)1 << 32) + 4096};
static void c04_huge(Ctx& c, size_t n) {
  if (!c.begin(Bytes(), "buffer of %zu bytes", n)) return; Huge h(n); if (!h.ok) c.broken("mmap: %s", strerror(errno)); std::string why;
  std::vector<Op> ops; for (uint64_t k : {0, 1, 7, 8, 9, 31, 32, 33}) { ops.push_back({RB32, k}); ops.push_back({PK32, k}); } for (uint64_t k : {1, 8, 32, 33, 57, 63, 64, 65}) { ops.push_back({RB64, k}); ops.push_back({PK64, k}); }
  for (Kind k : {U8, U16, U32, UE, SE}) ops.push_back({k});
  for (uint64_t k : {(uint64_t)1 << 31, (uint64_t)1 << 32, (uint64_t)n * 8}) for (int d = -9; d <= 9; ++d) { ops.push_back({CB, k + d}); ops.push_back({CBY, k / 8 + d}); }
  for (size_t a : h.places()) for (int d = -2; d <= 1; ++d) ops.push_back({SK, a + d, 3});
  for (size_t a : h.places()) for (int d = -12; d <= 3; ++d) for (unsigned bit = 0; bit < 8; ++bit) { if ((d < 0 && a < (size_t)-d) || a + d > n || (a + d == n && bit)) continue;
    for (auto& o : ops) { H::BitBuffer bb(h.p, n); RefBits r{Span(h.p, n), 0}; c.add(C_TRANS, 2); c.add(C_STATES); uint64_t to = (uint64_t)(a + d) * 8 + bit; 
      if (!read_op(bb, r, (to & 1) ? Op{CB, to} : Op{SK, a + d, bit}, why)) c.fail("%s", why.c_str()); if (!read_op(bb, r, o, why)) c.fail("%s", why.c_str()); if (!read_op(bb, r, {PK32, 5}, why)) c.fail("%s", why.c_str()); } }
}
static void c05_huge(Ctx& c, size_t n) {
  if (!c.begin(Bytes(), "writing into a buffer of %zu bytes", n)) return; Huge h(n); if (!h.ok) c.broken("mmap: %s", strerror(errno));
  std::map<size_t, size_t> where; for (size_t a : h.places()) for (size_t i = a > 80 ? a - 80 : 0; i < a + 80 && i < n; ++i) where[i] = 0; { size_t k = 0; for (auto& w : where) w.second = k++; }
  auto snap = [&] { Bytes s; for (auto& w : where) s.push_back(h.p[w.first]); return s; };
  Bytes ref = snap();
  for (size_t a : h.places()) for (int d = -12; d <= 3; ++d) for (unsigned bit = 0; bit < 8; ++bit) { if ((d < 0 && a < (size_t)-d) || a + d > n || (a + d == n && bit)) continue;
    for (uint64_t k : {1, 7, 8, 9, 31, 32, 33, 64}) for (uint64_t v : {0ull, ~0ull, 0x123456789abcdef5ull}) { H::BitBufferWriter w(h.p, n); uint64_t to = (uint64_t)(a + d) * 8 + bit; c.add(C_TRANS, 2); c.add(C_STATES);
      if (!w.Seek(a + d, bit)) c.fail("Seek(%zu,%u) of %zu bytes failed", a + d, bit, n);
      bool fits = k <= (uint64_t)n * 8 - to, ok = w.WriteBits(v, k); if (ok != fits) c.fail("writing %llu bits at bit %llu of %zu bytes %s", (unsigned long long)k, (unsigned long long)to, n, ok ? "succeeded" : "failed");
      if (fits) for (uint64_t i = 0; i < k; ++i) { auto it = where.find((to + i) >> 3); if (it == where.end()) continue; uint8_t m = 0x80 >> ((to + i) & 7); if (v >> (k - 1 - i) & 1) ref[it->second] |= m; else ref[it->second] &= ~m; }
      size_t by, bi; w.GetCurrentOffset(&by, &bi); if (by * 8 + bi != to + (fits ? k : 0)) c.fail("position after writing %llu bits at bit %llu", (unsigned long long)k, (unsigned long long)to);
      if (snap() != ref) c.fail("writing %llu bits at bit %llu of %zu bytes changed other bits or wrote wrong ones", (unsigned long long)k, (unsigned long long)to, n); } }
}
static void c04(Ctx& c) {
  Guarded g; uint64_t idx = 0;
  for (size_t i = 0; i < sizeof kHuge / sizeof *kHuge; ++i) if (i % c.nshards == (size_t)c.shard) c04_huge(c, kHuge[i]);
  // all contents of up to 2 bytes
  for (int n = 0; n <= 2; ++n) { auto ops = all_reads(n); for (uint32_t v = 0; v < (n == 0 ? 1u : n == 1 ? 256u : 65536u); ++v) { if (idx++ % c.nshards != (uint64_t)c.shard) continue;

    Bytes b; if (n == 1) b = {(uint8_t)v}; if (n == 2) b = {(uint8_t)(v >> 8), (uint8_t)v}; every_op(c, g, b, "all contents", ops); } }
  for (size_t n = 3; n <= 20u; ++n) { auto ops = all_reads(n); for (auto& b : patterned(n, n, true)) { if (idx++ % c.nshards != (uint64_t)c.shard) continue; every_op(c, g, b, "patterned", ops); } }
  // Exp-Golomb codes: every prefix length, suffix, bit offset and truncation
  for (unsigned z = 0; z <= 34; ++z) for (unsigned off = 0; off < 8; ++off) {
    if (idx++ % c.nshards != (uint64_t)c.shard) continue;
    std::vector<uint64_t> suf; uint64_t top = z >= 40 ? 0 : (1ull << z);
    if (z <= (c.thorough ? 20u : 16u)) for (uint64_t i = 0; i < top; ++i) suf.push_back(i);
    else { for (uint64_t i : {0ull, 1ull, 2ull, 0x5555555555ull, 0xAAAAAAAAAAull, ~0ull, ~0ull - 1, ~0ull - 2}) suf.push_back(i & (top - 1)); for (unsigned i = 0; i < z; ++i) suf.push_back(1ull << i); }
    for (uint64_t s : suf) {
      Bytes b; uint64_t pos = 0; put(b, pos, s * 5, off); put(b, pos, 0, z); put(b, pos, 1, 1); if (z) put(b, pos, s, z); uint64_t endbit = pos; put(b, pos, 0x35, 6);
      for (size_t len = z <= 12 && s % 7 ? b.size() : off / 8; len <= b.size(); ++len) {
        Bytes t(b.begin(), b.begin() + len);
        if (!c.begin(t, "Exp-Golomb %u zeros, suffix %llu at bit %u", z, (unsigned long long)s, off)) continue;
        c.add(C_STATES); (void)endbit;
        for (Kind k : {UE, SE}) { uint8_t* p = guarded_copy(g, t, true); std::string why; H::BitBuffer bb(p, t.size()); RefBits r{&t, 0};
          if (off && !read_op(bb, r, {CB, off}, why)) c.fail("%s", why.c_str());
          if (r.pos == off && !read_op(bb, r, {k}, why)) c.fail("%s", why.c_str());
          if (!read_op(bb, r, {RB32, 5}, why)) c.fail("%s", why.c_str()); c.add(C_TRANS, 3); }
      }
    }
  }
  // non-symmetric codes: every num_values up to 600 and around powers of two, on every 3-byte pattern that matters
  for (uint64_t n = 1; n <= 600 + 31 * 3; ++n) {
    uint64_t nv = n; if (n > 600) { uint64_t k = (n - 601) / 3, d = (n - 601) % 3; nv = (1ull << k) + d - 1; if (nv == 0 || nv > 0x80000000ull) continue; }
    if (idx++ % c.nshards != (uint64_t)c.shard) continue;
    unsigned w = bits_of(nv);
    for (uint64_t v = 0; v < (w <= 10 ? (1ull << w) : 64); ++v) for (unsigned off = 0; off < 8; ++off) {
      uint64_t x = w <= 10 ? v : (v < 32 ? v : (1ull << w) - 1 - (v - 32)) ^ (v & 1 ? 1ull << (w - 1) : 0);
      Bytes b; uint64_t pos = 0; put(b, pos, 0x2a, off); put(b, pos, x & ((1ull << w) - 1), w);
      if (!c.begin(b, "non-symmetric of %llu at bit %u", (unsigned long long)nv, off)) continue; c.add(C_STATES);
      for (size_t len = (off + 7) / 8; len <= b.size(); ++len) { Bytes t(b.begin(), b.begin() + len); uint8_t* p = guarded_copy(g, t, true); std::string why; H::BitBuffer bb(p, t.size()); RefBits r{&t, 0}; c.add(C_TRANS);
        if (off && !read_op(bb, r, {CB, off}, why)) c.fail("%s", why.c_str()); if (!read_op(bb, r, {NS, nv}, why)) c.fail("%s", why.c_str()); }
    }
  }
  // all operation sequences
  std::vector<Op> seq{{RB32, 1}, {RB32, 3}, {RB32, 8}, {RB32, 13}, {RB32, 32}, {RB64, 7}, {RB64, 33}, {PK32, 5}, {PK64, 40}, {U8}, {U16}, {U32}, {UE}, {SE}, {NS, 5}, {CB, 0}, {CB, 1}, {CB, 9}, {CBY, 1}, {CBY, 3}, {SK, 0, 0}, {SK, 1, 3}, {SK, 2, 8}, {SK, 4, 0}, {RB32, 0}, {RB32, 33}};
  std::vector<Bytes> bufs{{}, {0x4c}, {0x00}, {0xff, 0x01}, {0x12, 0x34, 0x56}, {0x00, 0x80, 0x01, 0x7f}, {0xa5, 0x00, 0x00, 0x01, 0xff}, {0, 0, 0, 0, 1, 0, 0, 0, 0}, {0x91, 0x22, 0xb3, 0x44, 0xd5, 0x66, 0xf7, 0x88, 0x19, 0xaa}};
  for (auto& b : bufs) for (size_t f = 0; f < seq.size(); ++f) { if (idx++ % c.nshards != (uint64_t)c.shard) continue;
    if (!c.begin(b, "all sequences of %d operations starting with %s", c.thorough ? 6 : 5, opstr(seq[f]).c_str())) continue;
    // first operation fixed per case, the others free
    std::vector<Op> rest = seq; int depth = c.thorough ? 5 : 4; uint8_t* p = guarded_copy(g, b, f & 1); std::vector<size_t> ix(depth, 0); std::string why;
    for (;;) {
      H::BitBuffer bb(p, b.size()); RefBits r{&b, 0}; c.add(C_TRANS, depth + 1); c.add(C_STATES);
      bool ok = read_op(bb, r, seq[f], why); int i = 0; for (; ok && i < depth; ++i) ok = read_op(bb, r, rest[ix[i]], why);
      if (!ok) { std::string h = opstr(seq[f]); for (int j = 0; j < i; ++j) h += " " + opstr(rest[ix[j]]); c.fail("sequence %s: %s", h.c_str(), why.c_str()); }
      int k = depth - 1; while (k >= 0 && ++ix[k] == rest.size()) ix[k--] = 0; if (k < 0) break; if (k <= 0) c.beat();
    }
  }
}

// ---------------------------------------------------------------- C05
static bool enc_code(const Op& o, uint64_t& v, unsigned& n) {  // the bits an operation has to write; false: must be refused
  switch (o.k) {
    case W_BITS: if (o.b > 64) return false; n = (unsigned)o.b; v = o.a; return true;
    case W8: v = o.a & 0xff; n = 8; return true; case W16: v = o.a & 0xffff; n = 16; return true; case W32: v = o.a & 0xffffffff; n = 32; return true;
    case WUE: { uint64_t x = o.a & 0xffffffff; if (x == 0xffffffff) return false; v = x + 1; n = bits_of(v) * 2 - 1; return true; }
    case WSE: { int64_t x = (int32_t)o.a; if (x == INT32_MIN) return false; uint64_t k = x > 0 ? 2 * (uint64_t)x - 1 : 2 * (uint64_t)(-x); v = k + 1; n = bits_of(v) * 2 - 1; return true; }
    case WNS: { unsigned w = bits_of(o.b); uint64_t k = (1ull << w) - o.b; if (o.a < k) { v = o.a; n = w - 1; } else { v = o.a + k; n = w; } return true; }
    default: return false;
  }
}
struct WState { Bytes ref; uint64_t pos = 0; };
static bool write_op(H::BitBufferWriter& w, uint8_t* mem, WState& s, const Op& o, std::string& why) {
  char t[300]; uint64_t p0 = s.pos;
  if (o.k < W_BITS) { RefBits r{&s.ref, s.pos}; bool ok = read_op(w, r, o, why); s.pos = r.pos; if (ok && s.ref.size() && memcmp(mem, s.ref.data(), s.ref.size())) { why = "a read changed the buffer"; return false; } return ok; }
  uint64_t v = 0; unsigned n = 0; bool fits = enc_code(o, v, n) && n <= s.ref.size() * 8 - s.pos; bool ok = false;
  switch (o.k) {
    case W_BITS: ok = w.WriteBits(o.a, (size_t)o.b); break; case W8: ok = w.WriteUInt8((uint8_t)o.a); break; case W16: ok = w.WriteUInt16((uint16_t)o.a); break; case W32: ok = w.WriteUInt32((uint32_t)o.a); break;
    case WUE: ok = w.WriteExponentialGolomb((uint32_t)o.a); break; case WSE: ok = w.WriteSignedExponentialGolomb((int32_t)o.a); break; case WNS: ok = w.WriteNonSymmetric((uint32_t)o.a, (uint32_t)o.b); break;
    default: break;
  }
  if (ok != fits) { snprintf(t, sizeof t, "%s at bit %llu of %zu bytes was %s", opstr(o).c_str(), (unsigned long long)p0, s.ref.size(), ok ? "accepted although it does not fit" : "refused although it fits"); why = t; return false; }
  if (fits) put(s.ref, s.pos, n < 64 ? v & ((1ull << n) - 1) : v, n);
  if (s.ref.size() && memcmp(mem, s.ref.data(), s.ref.size())) { snprintf(t, sizeof t, "%s at bit %llu left %s, expected %s", opstr(o).c_str(), (unsigned long long)p0, hex(mem, s.ref.size()).c_str(), hex(s.ref).c_str()); why = t; return false; }
  size_t by, bi; w.GetCurrentOffset(&by, &bi);
  if (by * 8 + bi != s.pos || bi > 7) { snprintf(t, sizeof t, "%s at bit %llu moved the position to %zu.%zu, expected %llu", opstr(o).c_str(), (unsigned long long)p0, by, bi, (unsigned long long)s.pos); why = t; return false; }
  if (w.RemainingBitCount() != s.ref.size() * 8 - s.pos) { why = "remaining bit count is wrong after " + opstr(o); return false; }
  // read back
  if (fits && n) {
    H::BitBuffer rb(mem, s.ref.size()); RefBits r{&s.ref, 0};
    if (!read_op(rb, r, {SK, p0 / 8, p0 % 8}, why)) return false;
    Op ro{RB64, n}; if (o.k == WUE) ro = {UE}; if (o.k == WSE) ro = {SE}; if (o.k == WNS) ro = {NS, o.b}; if (o.k == W8) ro = {U8}; if (o.k == W16) ro = {U16}; if (o.k == W32) ro = {U32};
    if (!read_op(rb, r, ro, why)) { why = "reading back: " + why; return false; }
    if (o.k == WUE) { H::BitBuffer q(mem, s.ref.size()); uint32_t x = 1; q.Seek(p0 / 8, p0 % 8); if (!q.ReadExponentialGolomb(x) || x != (uint32_t)o.a) { why = opstr(o) + " does not read back"; return false; } }
    if (o.k == WSE) { H::BitBuffer q(mem, s.ref.size()); int32_t x = 1; q.Seek(p0 / 8, p0 % 8); if (!q.ReadSignedExponentialGolomb(x) || x != (int32_t)o.a) { why = opstr(o) + " does not read back"; return false; } }
    if (o.k == WNS) { H::BitBuffer q(mem, s.ref.size()); uint32_t x = 1; q.Seek(p0 / 8, p0 % 8); if (!q.ReadNonSymmetric((uint32_t)o.b, x) || x != (uint32_t)o.a) { why = opstr(o) + " does not read back"; return false; }
      if (H::BitBufferWriter::SizeNonSymmetricBits((uint32_t)o.a, (uint32_t)o.b) != n) { why = "SizeNonSymmetricBits is wrong for " + opstr(o); return false; } }
  }
  return true;
}
static void c05(Ctx& c) {
  Guarded g; uint64_t idx = 0; std::string why;
  for (size_t i = 0; i < sizeof kHuge / sizeof *kHuge; ++i) if (i % c.nshards == (size_t)c.shard) c05_huge(c, kHuge[i]);
  std::vector<uint64_t> vals{0, ~0ull, 0x5555555555555555ull, 0xAAAAAAAAAAAAAAAAull, 0x0123456789ABCDEFull, 1, 0x8000000000000000ull, 0xFEDCBA9876543210ull};
  std::vector<Op> ops;
  for (uint64_t n = 0; n <= 66; ++n) for (uint64_t v : vals) ops.push_back({W_BITS, v, n});
  for (uint64_t n : {255ull, 256ull, 0x100000000ull, 0x100000008ull, 1ull << 63, ~0ull, ~0ull - 7}) ops.push_back({W_BITS, 0x1234, n});
  for (uint64_t v : vals) for (Kind k : {W8, W16, W32, WUE, WSE}) ops.push_back({k, v});
  for (unsigned b = 0; b <= 32; ++b) for (int64_t d = -2; d <= 2; ++d) { int64_t v = (1ll << b) + d; if (v < 0 || v > 0xffffffffll) continue; ops.push_back({WUE, (uint64_t)v}); if (v <= 0x7fffffff) { ops.push_back({WSE, (uint64_t)v}); ops.push_back({WSE, (uint64_t)(uint32_t)(int32_t)-v}); } }
  ops.push_back({WSE, 0x80000000}); ops.push_back({WUE, 0xffffffff}); ops.push_back({WUE, 0xfffffffe});
  for (uint64_t n : {1, 2, 3, 5, 7, 8, 9, 100, 255, 256, 1000}) for (uint64_t v : {(uint64_t)0, n / 2, n - 1, n > 2 ? n - 2 : 0}) ops.push_back({WNS, v, n});
  for (uint64_t n : {0x7fffffffull, 0x80000000ull, 0x40000001ull}) for (uint64_t v : {(uint64_t)0, n / 2, n - 1}) ops.push_back({WNS, v, n});
  // every operation at every position of buffers of every length and several contents
  for (size_t n = 0; n <= 18u; ++n) for (int f : {0x00, 0xff, 0xa5, 0x3c}) for (int end = 0; end < 2; ++end) for (uint64_t pos = 0; pos <= n * 8; ++pos) {
    if (idx++ % c.nshards != (uint64_t)c.shard) continue;
    Bytes b(n, (uint8_t)f); for (size_t i = 0; i < n && f == 0x3c; ++i) b[i] = (uint8_t)(i * 67 + 9);
    if (!c.begin(b, "every write at bit %llu of %zu bytes, fill %02x", (unsigned long long)pos, n, f)) continue; c.add(C_STATES);
    for (auto& o : ops) { uint8_t* p = guarded_copy(g, b, end); H::BitBufferWriter w(p, n); WState s{b, 0}; c.add(C_TRANS, 2);
      if (!write_op(w, p, s, {SK, pos / 8, pos % 8}, why) || !write_op(w, p, s, o, why)) c.fail("%s", why.c_str()); }
  }
  // all Exp-Golomb values up to a bound, at every bit offset
  uint32_t lim = c.thorough ? 1u << 23 : 1u << 20;
  for (unsigned off = 0; off < 8; ++off) for (int64_t blk = -2; blk < 16; ++blk) {
    if (idx++ % c.nshards != (uint64_t)c.shard) continue;
    for (uint32_t v = 0; v < lim / 16; ++v) {
      uint32_t x = (uint32_t)(blk < 0 ? (blk == -1 ? 0xfffffffeu - v : 0x7fffffffu - lim / 32 + v) : blk * (lim / 16) + v); Bytes b(10, 0xd7);
      if (!c.begin(b, "Exp-Golomb %u at bit %u", x, off)) continue; c.add(C_STATES);
      for (int sgn = 0; sgn < 3; ++sgn) { uint8_t* p = guarded_copy(g, b, true); H::BitBufferWriter w(p, b.size()); WState s{b, 0}; c.add(C_TRANS, 2); if (sgn && x > 0x7fffffff) continue;
        if (!write_op(w, p, s, {CB, off}, why) || !write_op(w, p, s, sgn == 0 ? Op{WUE, x} : sgn == 1 ? Op{WSE, x} : Op{WSE, (uint64_t)(uint32_t)-(int32_t)x}, why)) c.fail("%s", why.c_str()); }
    }
  }
  // non-symmetric: every value of every size up to 300
  for (uint64_t n = 1; n <= (c.thorough ? 3000u : 1100u); ++n) { if (idx++ % c.nshards != (uint64_t)c.shard) continue;
    for (uint64_t v = 0; v < n; ++v) { Bytes b(3, 0x6b); if (!c.begin(b, "non-symmetric %llu of %llu", (unsigned long long)v, (unsigned long long)n)) continue; c.add(C_STATES);
      for (unsigned off = 0; off < 8; ++off) { uint8_t* p = guarded_copy(g, b, true); H::BitBufferWriter w(p, 3); WState s{b, 0}; c.add(C_TRANS, 2); if (!write_op(w, p, s, {CB, off}, why) || !write_op(w, p, s, {WNS, v, n}, why)) c.fail("%s", why.c_str()); } } }
  // all sequences of operations, reads included
  std::vector<Op> seq{{W_BITS, 0x5, 3}, {W_BITS, ~0ull, 1}, {W_BITS, 0, 0}, {W_BITS, 0x1ff00ff, 17}, {W_BITS, 0x0123456789abcdefull, 64}, {W_BITS, ~0ull, 8}, {W8, 0x96}, {W16, 0x8001}, {W32, 0x80ff7f01}, {WUE, 0}, {WUE, 6}, {WUE, 300}, {WSE, 0xfffffffdu}, {WNS, 4, 5}, {WUE, 0xffffffff}, {SK, 0, 0}, {SK, 0, 5}, {SK, 2, 0}, {CB, 3}, {RB32, 4}, {UE}, {PK64, 11}};
  for (size_t n : {0u, 1u, 2u, 3u, 5u, 9u}) for (int f : {0x00, 0xff}) for (size_t a = 0; a < seq.size(); ++a) { if (idx++ % c.nshards != (uint64_t)c.shard) continue;
    Bytes b(n, (uint8_t)f); int depth = c.thorough ? 5 : 4;
    if (!c.begin(b, "all sequences of %d writes starting with %s", depth + 1, opstr(seq[a]).c_str())) continue;
    std::vector<size_t> ix(depth, 0);
    for (;;) {
      uint8_t* p = guarded_copy(g, b, a & 1); H::BitBufferWriter w(p, n); WState s{b, 0}; c.add(C_TRANS, depth + 1); c.add(C_STATES);
      bool ok = write_op(w, p, s, seq[a], why); int i = 0; for (; ok && i < depth; ++i) ok = write_op(w, p, s, seq[ix[i]], why);
      if (!ok) { std::string h = opstr(seq[a]); for (int j = 0; j < i; ++j) h += " " + opstr(seq[ix[j]]); c.fail("sequence %s: %s", h.c_str(), why.c_str()); }
      int k = depth - 1; while (k >= 0 && ++ix[k] == seq.size()) ix[k--] = 0; if (k < 0) break; if (k <= 0) c.beat();
    }
  }
}
// ---------------------------------------------------------------- C30
// End of the payload: the four questions asked at a position, on one object, in any order.
static bool end_op(H::BitBuffer& bb, RefBits& r, int k, std::string& why) {
  char t[256]; uint64_t p0 = r.pos, left = r.left(), next = 0; bool open = false;
  uint64_t last = r.total(); while (last > r.pos && !r.bit(last - 1)) --last;   // one past the last 1 bit
  switch (k) {
    case 0: { bool g = H::byte_aligned(&bb), w = r.pos % 8 == 0; if (g != w) { snprintf(t, sizeof t, "byte_aligned() at bit %llu is %d", (unsigned long long)p0, g); why = t; return false; } break; }
    case 1: { uint64_t g = H::get_current_offset(&bb), w = (r.pos + 7) / 8; if (g != w) { snprintf(t, sizeof t, "get_current_offset() at bit %llu is %llu", (unsigned long long)p0, (unsigned long long)g); why = t; return false; } break; }
    case 2: {
      bool g = H::more_rbsp_data(&bb), w = left && last != r.pos + 1;
      if (left && last == r.pos) open = true;   // no stop bit at all: not defined
      if (!open && g != w) { snprintf(t, sizeof t, "more_rbsp_data() at bit %llu of %zu bytes is %d", (unsigned long long)p0, r.b->size(), g); why = t; return false; }
      break; }
    case 3: {
      bool g = H::rbsp_trailing_bits(&bb); uint64_t q = r.pos; bool w = q < r.total() && r.bit(q); if (w) { ++q; while (q % 8) { if (r.bit(q)) { w = false; break; } ++q; } }
      if (g != w) { snprintf(t, sizeof t, "rbsp_trailing_bits() at bit %llu of %zu bytes is %d", (unsigned long long)p0, r.b->size(), g); why = t; return false; }
      if (w) r.pos = q; else { bb.Seek((size_t)(p0 / 8), (size_t)(p0 % 8)); }   // how far a failed attempt reads is not defined
      break; }
    case 4: { uint32_t v = 0; bool g = bb.ReadBits(1, v), w = r.peek(1, 32, next); if (g != w || (w && v != next)) { snprintf(t, sizeof t, "reading on at bit %llu gives %d/%u", (unsigned long long)p0, g, v); why = t; return false; } if (w) ++r.pos; break; }
  }
  size_t by = 77, bi = 77; bb.GetCurrentOffset(&by, &bi);
  if (by * 8 + bi != r.pos || bi > 7) { snprintf(t, sizeof t, "%s at bit %llu left the position at %zu.%zu", k == 0 ? "byte_aligned()" : k == 1 ? "get_current_offset()" : k == 2 ? "more_rbsp_data()" : k == 3 ? "rbsp_trailing_bits()" : "reading on", (unsigned long long)p0, by, bi); why = t; return false; }
  if (bb.RemainingBitCount() != r.left()) { why = "the number of remaining bits changed"; return false; }
  return true;
}
static void end_every(Ctx& c, Guarded& g, const Bytes& b) {
  uint8_t* p = guarded_copy(g, b, true); std::string why;
  for (uint64_t pos = 0; pos <= b.size() * 8; ++pos) {
    H::BitBuffer bb(p, b.size()); RefBits r{&b, pos}; bb.Seek((size_t)(pos / 8), (size_t)(pos % 8)); c.add(C_STATES); c.add(C_TRANS, 6);
    for (int k : {2, 0, 1, 2, 3, 4}) if (!end_op(bb, r, k, why)) c.fail("%s", why.c_str());
  }
  if (b.size() && memcmp(p, b.data(), b.size())) c.fail("the buffer was changed");
}
static void c30(Ctx& c) {
  Guarded g; uint64_t idx = 0;
  for (int n = 0; n <= 2; ++n) for (uint32_t v = 0; v < (n == 0 ? 1u : n == 1 ? 256u : 65536u); ++v) { if (idx++ % c.nshards != (uint64_t)c.shard) continue;
    Bytes b; if (n == 1) b = {(uint8_t)v}; if (n == 2) b = {(uint8_t)(v >> 8), (uint8_t)v}; if (!c.begin(b, "all contents")) continue; end_every(c, g, b); }
  for (uint32_t hi = 0; hi < 65536; ++hi) { if (idx++ % c.nshards != (uint64_t)c.shard) continue;
    for (uint32_t lo = 0; lo < 256; ++lo) { Bytes b{(uint8_t)(hi >> 8), (uint8_t)hi, (uint8_t)lo}; if (!c.begin(b, "all contents")) continue; end_every(c, g, b); } }
  if (c.thorough) { static const uint8_t al[] = {0, 1, 2, 4, 8, 16, 32, 64, 128, 192, 160, 129, 255, 127, 3, 0x5a}; for (uint32_t x = 0; x < 1u << 20; ++x) { if (idx++ % c.nshards != (uint64_t)c.shard) continue; Bytes b; for (int i = 0; i < 5; ++i) b.push_back(al[x >> (4 * i) & 15]); if (!c.begin(b, "5 bytes over 16 values")) continue; end_every(c, g, b); } }
  // long runs of zeros (cabac_zero_words, trailing zero bytes), one or two bits set anywhere
  for (size_t n = 4; n <= (c.thorough ? 40u : 24u); ++n) for (size_t i = 0; i < n * 8; ++i) { if (idx++ % c.nshards != (uint64_t)c.shard) continue;
    for (size_t j = i; j < n * 8; ++j) { Bytes b(n, 0); b[i >> 3] |= 0x80 >> (i & 7); b[j >> 3] |= 0x80 >> (j & 7); if (!c.begin(b, "bits %zu and %zu set", i, j)) continue; end_every(c, g, b); } }
  for (size_t n : {32u, 33u, 64u, 65u, 128u, 129u, 256u, 257u, 1000u, 4096u, 4097u, 5000u, 65537u, 70000u}) for (size_t i : {(size_t)0, (size_t)7, (size_t)8, n * 4}) for (size_t j : {n * 4 + 3, n * 8 - 17, n * 8 - 9, n * 8 - 8, n * 8 - 1}) { if (idx++ % c.nshards != (uint64_t)c.shard) continue;
    Bytes b(n, 0); b[i >> 3] |= 0x80 >> (i & 7); b[j >> 3] |= 0x80 >> (j & 7); if (!c.begin(b, "%zu bytes, bits %zu and %zu set", n, i, j)) continue; std::unique_ptr<uint8_t[]> hp(new uint8_t[n]); uint8_t* p = hp.get(); memcpy(p, b.data(), n); std::string why;
    for (uint64_t pos : {(uint64_t)0, (uint64_t)i, (uint64_t)i + 1, (uint64_t)(i + j) / 2, (uint64_t)j, (uint64_t)j + 1}) { if (pos > n * 8) continue; H::BitBuffer bb(p, n); RefBits r{&b, pos}; bb.Seek((size_t)(pos / 8), (size_t)(pos % 8)); c.add(C_STATES); for (int k : {0, 1, 2, 3, 2, 4}) if (!end_op(bb, r, k, why)) c.fail("%s", why.c_str()); } }
  for (size_t n : {100u, 1000u, 70000u}) for (size_t i : {(size_t)0, (size_t)7, (size_t)8, n * 4, n * 8 - 9, n * 8 - 1}) { if (idx++ % c.nshards != (uint64_t)c.shard) continue;
    Bytes b(n, 0); b[i >> 3] |= 0x80 >> (i & 7); if (!c.begin(b, "%zu bytes, bit %zu set", n, i)) continue; std::unique_ptr<uint8_t[]> hp(new uint8_t[n]); uint8_t* p = hp.get(); memcpy(p, b.data(), n); std::string why;
    for (uint64_t pos : {(uint64_t)0, (uint64_t)i / 2, (uint64_t)i, (uint64_t)i + 1, (uint64_t)n * 8 - 1, (uint64_t)n * 8}) { H::BitBuffer bb(p, n); RefBits r{&b, pos}; bb.Seek((size_t)(pos / 8), (size_t)(pos % 8)); c.add(C_STATES); for (int k : {0, 1, 2, 3, 2, 4}) if (!end_op(bb, r, k, why)) c.fail("%s", why.c_str()); } }
  // all sequences of questions and reads
  std::vector<Bytes> bufs{{}, {0x80}, {0xa0}, {0x01}, {0x00, 0x80}, {0x81, 0x00}, {0xff, 0xff}, {0x10, 0x00, 0x00}, {0x40, 0x80, 0x00, 0x03}};
  for (auto& b : bufs) { if (idx++ % c.nshards != (uint64_t)c.shard) continue; if (!c.begin(b, "all sequences of questions")) continue;
    int depth = c.thorough ? 9 : 8; uint64_t tot = 1; for (int i = 0; i < depth; ++i) tot *= 5; uint8_t* p = guarded_copy(g, b, true); std::string why;
    for (uint64_t x = 0; x < tot; ++x) { H::BitBuffer bb(p, b.size()); RefBits r{&b, 0}; uint64_t y = x; c.add(C_STATES); c.add(C_TRANS, depth); for (int i = 0; i < depth; ++i, y /= 5) if (!end_op(bb, r, (int)(y % 5), why)) c.fail("%s", why.c_str()); if (x % 4096 == 0) c.beat(); } }
}
static Reg r04(Check{"C04", c04, "model_checking", "every operation (incl. widths 0, 33..66, 2^61, SIZE_MAX) at every position of: all 0-, 1- and 2-byte buffers, 8+ patterns of 3..20 bytes; every Exp-Golomb prefix 0..34 x suffix x bit offset x truncation; non-symmetric codes up to 600 and around powers of two; all 5-operation sequences of 26 operations on 9 buffers; reads, skips and seeks around bit 2^31..2^35 of sparse buffers of 2^29 to 2^32+4096 bytes; buffers against guard pages", "6-operation sequences, Exp-Golomb suffixes up to 20 bits exhaustively", "state = (buffer, position); transition = one operation", {}});
static Reg r05(Check{"C05", c05, "model_checking", "every write (widths 0..66, 8 values each; boundary Exp-Golomb and non-symmetric values) at every position of buffers of 0..18 bytes, 4 contents; all Exp-Golomb values < 2^20 and near the maxima at 8 bit offsets; all non-symmetric values for sizes <= 1100; all 5-operation sequences of 22 operations on 12 buffers; writes around byte 2^28..2^32 of sparse buffers up to 2^32+4096 bytes", "values < 2^23, sizes <= 3000, 6-operation sequences", "state = (buffer, position); transition = one operation", {}});
static Reg r30(Check{"C30", c30, "model_checking", "byte_aligned, get_current_offset, more_rbsp_data, rbsp_trailing_bits and a read at every position of all 0-, 1- and 2-byte buffers, and all 3-byte buffers, of zero runs of 4..24 bytes with one or two bits set anywhere, and of zero runs up to 70000 bytes with one or two bits set; all sequences of 8 questions and reads on 9 buffers; buffers end at a guard page", "all 5-byte buffers over 16 values, runs to 40 bytes, sequences of 9", "state = (buffer, position); transition = one question", {}});
int main(int argc, char** argv) { return mc_main(argc, argv, registry()); }
