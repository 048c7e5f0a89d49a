// C23 the command line tool: exit status and listings for every enumerated stream and option set.
#define MC_LIB
#include "mc_syntax.cc"
#include <sys/stat.h>
#include "units.h"
#include "toolrun.h"

struct Piece { size_t off, len; };
// three-byte start codes, as C01 defines them
static std::vector<Piece> ref_annexb(const Bytes& b) {
  std::vector<size_t> st; for (size_t i = 0; i + 3 < b.size();) { if (b[i] == 0 && b[i + 1] == 0 && b[i + 2] == 1) { st.push_back(i); i += 3; } else ++i; }
  std::vector<Piece> v; for (size_t k = 0; k < st.size(); ++k) { size_t s = st[k] + 3, e = k + 1 < st.size() ? st[k + 1] : b.size(); if (k + 1 < st.size() && e > s && b[e - 1] == 0) --e; v.push_back({s, e - s}); }
  return v;
}
static std::vector<Piece> ref_len(const Bytes& b, size_t w) {
  std::vector<Piece> v; if (w == 0) { v.push_back({0, b.size()}); return v; }
  size_t p = 0; while (p + w <= b.size()) { uint64_t n = 0; for (size_t i = 0; i < w; ++i) n = n << 8 | b[p + i]; p += w; if (n == 0 || n > b.size() - p) break; v.push_back({p, (size_t)n}); p += n; }
  return v;
}
struct Opt { int width = -1; bool csv = false, one = true, off = false, len = false, plen = false, sum = false, res = false, cont = false; int fps = -1; int out = 0; bool in_stdin = false; bool noise = false; int form = 0; };
static std::vector<std::string> argv_of(const Opt& o, const std::string& in, const std::string& outf) {
  std::vector<std::string> a; auto flag = [&](const char* n, bool v) { if (v) { if (o.noise) a.push_back(std::string("--no-") + n); a.push_back(std::string("--") + n); } else if (o.noise) { a.push_back(std::string("--") + n); a.push_back(std::string("--no-") + n); } };
  if (o.csv) { if (o.noise) a.push_back("--dump-all"); a.push_back("--dump-length"); } else if (o.noise) { a.push_back("--dump-length"); a.push_back("--dump-all"); }
  if (!o.one) a.push_back("--no-as-one-line"); else if (o.noise) { a.push_back("--no-as-one-line"); a.push_back("--as-one-line"); }
  flag("add-offset", o.off); flag("add-length", o.len); flag("add-parsed-length", o.plen); flag("add-checksum", o.sum); flag("add-resolution", o.res); flag("add-contents", o.cont);
  if (o.width >= 0 || o.noise) { a.push_back("--nalu-length-bytes"); a.push_back(std::to_string(o.width)); }
  if (o.fps >= 0) { a.push_back("--frames-per-second"); a.push_back(std::to_string(o.fps)); }
  a.push_back("-i"); a.push_back(o.in_stdin ? "-" : in); if (o.out == 1) { a.push_back("-o"); a.push_back(outf); } if (o.out == 2) { a.push_back("-o"); a.push_back("-"); }
  // the same request in other words: long names, the input first, verbosity options (which may add lines before the listing on stdout, nothing else), overridden file names
  auto ins = [&](std::vector<std::string> v) { a.insert(a.begin(), v.begin(), v.end()); };
  switch (o.form) { case 1: for (auto& x : a) { if (x == "-i") x = "--infile"; if (x == "-o") x = "--outfile"; } break; case 2: for (size_t k = 0; k + 1 < a.size(); ++k) if (a[k] == "-i" || a[k] == "-o") { a[k] = std::string(a[k] == "-i" ? "--infile=" : "--outfile=") + a[k + 1]; a.erase(a.begin() + k + 1); } break;
    case 3: ins({"-d"}); break; case 4: ins({"--debug", "-d", "-d", "--quiet"}); break; case 5: ins({"-dd"}); break; case 6: a.push_back("--debug"); a.push_back("-d"); a.push_back("-d"); break; case 7: ins({"-i", in + ".none", "-o", outf + ".none/x"}); if (o.out == 0) { a.push_back("-o"); a.push_back("-"); } break; case 8: { auto k = std::find(a.begin(), a.end(), "-i"); std::rotate(a.begin(), k, a.end()); break; } case 9: for (size_t k = 0; k < a.size(); ++k) if (a[k] == "-i" || a[k] == "-o") { a[k] += a[k + 1]; a.erase(a.begin() + k + 1); } a.push_back("--"); break; default: break; }
  return a;
}
static void cli_case(Ctx& c, Tool& t, const Bytes& in, const Opt& o, const char* label, const std::string& more = "") {
  std::string outf = t.dir + "/out.txt"; std::vector<std::string> av = argv_of(o, t.dir + "/in.264", outf);
  if (!c.begin(in, "%s %s: h264nal %s", label, more.c_str(), joined(av).c_str())) return;
  // the model's view of the stream
  std::vector<Piece> ps = o.width < 0 ? ref_annexb(in) : ref_len(in, (size_t)o.width); m::Session ms; bool soft = false; size_t bad = 0, dropped = 0; uint32_t unimpl = 0; std::vector<std::pair<Piece, m::Nal>> us;
  for (auto& p : ps) { Bytes raw = m::unescape(in.data() + p.off, p.len); m::Nal n = m::dec_nal(raw.data(), raw.size(), ms); unimpl += n.unimpl; if (n.soft || n.undef) soft = true; if (!n.readable) { ++dropped; continue; } if (!n.parsed) ++bad; us.push_back({p, std::move(n)}); }
  c.add(C_STATES, us.size() + 1); c.add(C_TRANS, 1); if (soft) c.add(C_SOFT); else if (unimpl || bad || dropped) c.add(C_REJ); else c.add(C_ACC);
  // the library's dump of the same units
  H::ParsingOptions po; po.add_offset = o.off || o.cont; po.add_length = o.len || o.cont || o.csv; po.add_parsed_length = o.plen; po.add_checksum = o.sum; po.add_resolution = o.res;
  t.file("in.264", in); unlink(outf.c_str()); int fd = o.in_stdin ? open((t.dir + "/in.264").c_str(), O_RDONLY) : -1;
  Run r = t.run(c, av, fd); if (fd >= 0) close(fd);
  std::string got = r.out; if (o.out == 1) { if (!r.out.empty()) { if (o.form != 5 && o.form != 6) c.fail("output on stdout although -o names a file"); } int f = open(outf.c_str(), O_RDONLY); if (f < 0) c.fail("the output file was not written"); got = slurp_fd(f); close(f); }
  if ((o.form == 5 || o.form == 6) && o.out != 1) { std::string w = o.csv ? "nal_num,frame_num," : "nal_unit"; size_t p = got.compare(0, w.size(), w) == 0 ? 0 : got.find("\n" + w); got = p == std::string::npos ? "" : got.substr(p ? p + 1 : 0); }
  if (r.signalled) c.fail("the tool was ended by signal %d", WTERMSIG(r.status));
  if (in.empty() && !o.in_stdin) { if (r.code <= 2) c.fail("exit status %d for an empty file", r.code); return; }
  // exit status
  if (!soft) {
    size_t unparsed = bad + (o.width < 0 ? dropped : 0); int want = unimpl ? 2 : unparsed ? 1 : 0;
    if (r.code != want && !(o.width >= 0 && dropped && !unimpl && r.code == 1)) c.fail("exit status %d, expected %d: %zu unit(s), %zu with an unparsed payload, %zu unreadable, %u unimplemented structure(s)", r.code, want, us.size() + dropped, bad, dropped, unimpl);
    if (want && r.err.empty()) c.fail("nothing on stderr for exit status %d", want);
  } else if (r.code > 2) c.fail("exit status %d", r.code);
  if (!o.csv) {
    ImplSession is; auto bs = o.width < 0 ? H::H264BitstreamParser::ParseBitstream(in.data(), in.size(), &is, po) : H::H264BitstreamParser::ParseBitstreamNALULength(in.data(), in.size(), (size_t)o.width, &is, po);
    if (!bs) { if (!words(got).empty()) c.fail("output although the parser returned nothing"); return; }
    if (bs->nal_units.size() != us.size()) c.fail("library lists %zu units, expected %zu", bs->nal_units.size(), us.size());
    std::vector<std::string> want; size_t k = 0;
    for (auto& n : bs->nal_units) { char* p = nullptr; size_t m = 0; FILE* f = open_memstream(&p, &m); n->fdump(f, o.one ? -1 : 0, po); fclose(f); auto w = words(std::string(p, m)); free(p); want.insert(want.end(), w.begin(), w.end());
      if (o.cont) { want.push_back("contents"); want.push_back("{"); const Piece& q = us[k].first; for (size_t i = 0; i < q.len; ++i) { char b[4]; snprintf(b, 4, "%02x", in[q.off + i]); want.push_back(b); } want.push_back("}"); } ++k; }
    std::vector<std::string> have = words(got);
    if (have != want) { size_t i = 0; while (i < have.size() && i < want.size() && have[i] == want[i]) ++i; auto ctx = [&](const std::vector<std::string>& v) { std::string s; for (size_t j = i > 2 ? i - 2 : 0; j < v.size() && j < i + 5; ++j) s += v[j] + " "; return s; }; c.fail("the dump differs from the parsed units at word %zu of %zu: '%s' instead of '%s'", i, want.size(), ctx(have).c_str(), ctx(want).c_str()); }
    if (o.one && lines(got).size() != us.size()) c.fail("%zu lines for %zu units in one-line form", lines(got).size(), us.size());
    return;
  }
  // length listing
  auto ls = lines(got); if (ls.empty()) c.fail("no header in the length listing");
  if (ls[0] != "nal_num,frame_num,nal_unit_type,nal_unit_type_str,nal_length_bytes,bitrate_bps,first_mb_in_slice") c.fail("header of the length listing is '%s'", ls[0].c_str());
  int64_t fps = o.fps < 0 ? 30 : o.fps; const bool simple = !soft;   // a slice unit without a parsed plain header counts as starting at macroblock 0
  std::vector<std::string> want{ls[0]}; int64_t tot = 0, all = 0; int frame = 0, last = -1, num = 0; char b[300];
  for (auto& u : us) { uint32_t ty = u.second.hdr.nal_unit_type; bool sl = ty <= 5 && ty >= 1 || ty == 19 || ty == 20; std::string mb;
    if (sl) { all += u.first.len; int64_t first = u.second.p.slice ? (int64_t)u.second.p.slice->first_mb_in_slice : 0; mb = std::to_string((int)first); if (first == 0 && tot > 0) { snprintf(b, sizeof b, ",%d,%d,frame,,%lld,", frame, last, (long long)(tot * 8 * fps)); want.push_back(b); ++frame; tot = 0; } last = (int)ty; tot += u.first.len; }
    snprintf(b, sizeof b, "%d,%d,%u,%s,%zu,,%s", num++, frame, ty, H::NalUnitTypeToString(ty).c_str(), u.first.len, mb.c_str()); want.push_back(b); }
  if (tot > 0) { snprintf(b, sizeof b, ",%d,%d,frame,,%lld,", frame, last, (long long)(tot * 8 * fps)); want.push_back(b); }
  if (simple) { for (size_t i = 0; i < want.size() || i < ls.size(); ++i) { std::string x = i < ls.size() ? ls[i] : "(nothing)", y = i < want.size() ? want[i] : "(nothing)"; if (x != y) c.fail("line %zu of the length listing is '%s' instead of '%s'", i + 1, x.c_str(), y.c_str()); } return; }
  // slices without a parsed plain header: frames are not delimited by the model; unit rows and the total are
  size_t k = 0; int64_t sum = 0; for (size_t i = 1; i < ls.size(); ++i) { if (ls[i][0] == ',') { size_t p = ls[i].find("frame,,"); if (p == std::string::npos) c.fail("row '%s'", ls[i].c_str()); sum += atoll(ls[i].c_str() + p + 7); continue; }
    if (k >= us.size()) c.fail("row '%s' has no unit", ls[i].c_str()); unsigned nn, fr, ty; char str[200]; unsigned long ln; if (sscanf(ls[i].c_str(), "%u,%u,%u,%199[^,],%lu,", &nn, &fr, &ty, str, &ln) != 5) c.fail("row '%s'", ls[i].c_str());
    if (nn != k || ty != us[k].second.hdr.nal_unit_type || ln != us[k].first.len || H::NalUnitTypeToString(ty) != str) c.fail("row '%s' for unit %zu of type %u, %zu bytes", ls[i].c_str(), k, (unsigned)us[k].second.hdr.nal_unit_type, us[k].first.len); ++k; }
  if (k != us.size()) c.fail("%zu unit rows for %zu units", k, us.size());
  if (sum != all * 8 * fps) c.fail("the frame rows add up to %lld instead of %lld", (long long)sum, (long long)(all * 8 * fps));
}
static Bytes lenp(const std::vector<Bytes>& us, size_t w) { Bytes b; for (auto& u : us) { Bytes e = m::escape(u); for (size_t k = w; k-- > 0;) b.push_back(k < 8 ? (uint8_t)((uint64_t)e.size() >> (8 * k)) : 0); b.insert(b.end(), e.begin(), e.end()); } return b; }
// a plain slice of a given first macroblock, type and size
static Bytes sized_slice(uint8_t hdr, uint32_t first_mb, size_t pad) { m::BitW w; w.put(hdr, 8); w.ue(first_mb); w.ue(7); w.ue(0); w.put(3, 4); if ((hdr & 31) == 5) w.ue(1); w.put(5, 5); if (hdr & 0x60) { if ((hdr & 31) == 5) w.put(0, 2); else w.put(0, 1); } w.put(1, 1); w.put(0x5a5a, 16); w.align1(); Bytes b = w.b; for (size_t i = 0; i < pad; ++i) b.push_back((uint8_t)(0x41 + i % 50)); return b; }
static void c23(Ctx& c) {
  Tool t(c, "h264nal"); uint64_t idx = 0; auto mine = [&] { return idx++ % c.nshards == (uint64_t)c.shard; };
  std::vector<U> al; for (auto& u : session_units(c, true)) if (u.name != "mvc subset") al.push_back(u);
  std::vector<Seq> base = corpus(c, 0); int n = (int)al.size(); Opt D, L; L.csv = true; Opt W4; W4.width = 4;
  // histories: all sequences of 1 and 2 units, and of 3 units after an SPS and a PPS
  for (int i = 0; i < n; ++i) { for (int w : {0, 1, 2, 3, 5, 8, 9}) { if (!mine()) continue; Opt o; o.width = w; cli_case(c, t, w ? lenp({al[i].b}, w) : m::escape(al[i].b), o, "width", al[i].name); o.csv = true; cli_case(c, t, w ? lenp({al[i].b, al[i].b}, w) : m::escape(al[i].b), o, "width", al[i].name); }
    for (int j = 0; j < n; ++j) { if (!mine()) continue; std::string nm = al[i].name + ", " + al[j].name; std::vector<Bytes> us{al[i].b, al[j].b};
      cli_case(c, t, cat(us), D, "units", nm); cli_case(c, t, cat(us), L, "units", nm); cli_case(c, t, lenp(us, 4), W4, "units", nm);
      for (int k = 0; k < n; ++k) { if (!c.thorough && !(k >= 14 && k <= 18 && i < 14)) continue; std::vector<Bytes> u3{al[i].b, al[j].b, al[k].b}; cli_case(c, t, cat(u3), (i + j + k) & 1 ? D : L, "units", nm + ", " + al[k].name); } } }
  // frames: sequences of slices and other units, sizes and first macroblocks
  Bytes sps = u_sps(c, Fix{{"log2_max_frame_num_minus4", 0}, {"log2_max_pic_order_cnt_lsb_minus4", 1}, {"pic_order_cnt_type", 0}}), pps = u_pps(c, {}); 
  std::vector<Bytes> fa{sized_slice(0x65, 0, 3), sized_slice(0x41, 0, 20), sized_slice(0x41, 1, 5), sized_slice(0x01, 0, 1), sized_slice(0x65, 40, 300), Bytes{0x09, 0xf0}, sps, Bytes{0x06, 0x05, 0x01, 0x22, 0x80}, u_slice(0x62, 2, 0, 1), u_slice(0x74, 2, 0, 3), Bytes{0x41, 0xff}};
  { m::Session s; m::dec_nal(sps.data(), sps.size(), s); m::dec_nal(pps.data(), pps.size(), s); for (int i = 0; i < 5; ++i) { m::Nal x = m::dec_nal(fa[i].data(), fa[i].size(), s); if (!x.parsed || !x.p.slice) c.broken("slice %d of the alphabet does not parse", i); } }
  int F = (int)fa.size(), depth = c.thorough ? 5 : 4; uint64_t tot = 1;
  for (int d = 0; d <= depth; ++d, tot *= F) for (uint64_t x = 0; x < tot; ++x) { if (!mine()) continue; std::vector<Bytes> us{sps, pps}; uint64_t y = x; std::string nm; for (int i = 0; i < d; ++i) { us.push_back(fa[y % F]); nm += std::to_string(y % F) + " "; y /= F; } Opt o = L; o.fps = x % 7 == 0 ? 1 : x % 5 == 0 ? 60 : -1; if (x % 11 == 3) o.width = 4; cli_case(c, t, o.width == 4 ? lenp(us, 4) : cat(us), o, "frames", nm); }
  for (int fps : {0, 1, 24, 30, 120, 65536, 2147483647}) { if (!mine()) continue; Opt o = L; o.fps = fps; cli_case(c, t, cat({sps, pps, sized_slice(0x65, 0, 9000), sized_slice(0x65, 0, 70000)}), o, "frame rate"); }
  // products just below and above every power of two from 2^24 to 2^40, for a frame that is followed by another one and for the last frame
  for (int e = 24; e <= 40; ++e) for (int fps : {1000, 65536, 16777216, 2147483647}) for (int d = -1; d <= 1; ++d) { int64_t n = ((int64_t)1 << e) / 8 / fps + d; if (n < 12 || n > 200000) continue; if (!mine()) continue; Opt o = L; o.fps = fps; cli_case(c, t, cat({sps, pps, sized_slice(0x65, 0, 30), sized_slice(0x65, 0, (size_t)n)}), o, "bit rate"); cli_case(c, t, cat({sps, pps, sized_slice(0x65, 0, (size_t)n), sized_slice(0x65, 0, 30)}), o, "bit rate"); cli_case(c, t, cat({sps, pps, sized_slice(0x65, 0, (size_t)n / 2), sized_slice(0x65, 1, (size_t)n / 2)}), o, "bit rate"); }
  // long streams: counts of units, frames, unparsed and unimplemented units around the ranges of small counters
  std::vector<std::pair<Bytes, const char*>> rep{{Bytes{0x09, 0xf0}, "delimiters"}, {fa[0], "frames"}, {fa[2], "slices of one frame"}, {Bytes{0x41, 0xff}, "unparsed slices"}, {Bytes{0x67}, "unparsed SPS"}, {Bytes{0x74, 0x00, 0x00, 0x07, 0x80}, "type 20 without the SVC flag"}, {Bytes{0x75, 0x00, 0x00, 0x07, 0x80}, "type 21"}};
  for (auto& u : rep) for (int k : {99, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4096, c.thorough ? 65535 : 4097, c.thorough ? 65536 : 9999, c.thorough ? 65537 : 10000}) { if (!mine()) continue; std::vector<Bytes> us{sps, pps, fa[0]}; us.insert(us.end(), k, u.first); if (k > 4000) { cli_case(c, t, cat(us), L, "long stream", u.second); continue; } cli_case(c, t, cat(us), L, "long stream", u.second); cli_case(c, t, cat(us), D, "long stream", u.second); us.push_back(fa[1]); us.insert(us.begin(), u.first); cli_case(c, t, cat(us), L, "long stream", u.second); cli_case(c, t, lenp(us, 4), W4, "long stream", u.second); }
  // frames and units of more than 2 gigabytes (a sparse file): sizes and bit rates beyond 31 bits
  for (int two = 0; two < 2; ++two) { if (c.shard != 1 + two * 5) continue; uint64_t half = two ? 1200000000ull : 2200000000ull; if (!c.begin(Bytes(), "a frame of %d unit(s) of %llu bytes each", two + 1, (unsigned long long)half)) continue; c.add(C_STATES, 4); c.add(C_TRANS); c.add(C_ACC);
    Bytes pre = cat({sps, pps}); std::vector<std::pair<uint64_t, Bytes>> put{{0, pre}}; std::vector<std::string> want; uint64_t at = pre.size(), total = 0; char b[200];
    snprintf(b, sizeof b, "0,0,7,%s,%zu,,", H::NalUnitTypeToString(7).c_str(), sps.size()); want.push_back(b); snprintf(b, sizeof b, "1,0,8,%s,%zu,,", H::NalUnitTypeToString(8).c_str(), pps.size()); want.push_back(b);
    for (int k = 0; k <= two; ++k) { Bytes s{0, 0, 1}, u = m::escape(sized_slice(0x65, k, 12)); s.insert(s.end(), u.begin(), u.end()); put.push_back({at, s}); uint64_t end = at + half; put.push_back({end - 1, Bytes{0x55}}); snprintf(b, sizeof b, "%d,0,5,%s,%llu,,%d", 2 + k, H::NalUnitTypeToString(5).c_str(), (unsigned long long)(half - 3), k); want.push_back(b); total += half - 3; at = end; }
    snprintf(b, sizeof b, ",0,5,frame,,%lld,", (long long)(total * 8 * 30)); want.push_back(b);
    std::string p = t.dir + "/big.264"; int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666); if (fd < 0 || ftruncate(fd, (off_t)at)) c.broken("sparse file: %s", strerror(errno)); for (auto& x : put) if (pwrite(fd, x.second.data(), x.second.size(), (off_t)x.first) != (ssize_t)x.second.size()) c.broken("pwrite: %s", strerror(errno)); close(fd);
    Run r = t.run(c, {"--dump-length", "-i", p}); unlink(p.c_str()); if (r.signalled || r.code != 0) c.fail("exit status %d: %s", r.code, r.err.c_str()); auto ls = lines(r.out); if (!ls.empty()) ls.erase(ls.begin()); for (size_t i = 0; i < want.size() || i < ls.size(); ++i) { std::string x = i < ls.size() ? ls[i] : "(nothing)", y = i < want.size() ? want[i] : "(nothing)"; if (x != y) c.fail("line %zu of the length listing is '%s' instead of '%s'", i + 2, x.c_str(), y.c_str()); } }
  // long units
  for (size_t n : {127u, 128u, 255u, 256u, 257u, 1023u, 1024u, 1025u, 4095u, 4096u, 4097u, 8192u, 65535u, 65536u, 65537u, 131073u}) for (int d = -2; d <= 2; ++d) { if (!mine()) continue; Bytes big{0x6c}; for (size_t i = 1; i < n + d; ++i) big.push_back((uint8_t)(i % 251 + 4)); Bytes sei = sized_slice(0x65, 0, 0); for (auto& u : {big, sized_slice(0x65, 0, n + d - std::min(n + d, sei.size()))}) { Opt o; o.cont = o.len = o.sum = true; o.one = d & 1; std::vector<Bytes> us{sps, pps, u, Bytes{0x09, 0xf0}, u}; cli_case(c, t, cat(us), o, "long unit"); o.width = 4; cli_case(c, t, lenp(us, 4), o, "long unit"); cli_case(c, t, cat(us), L, "long unit"); if (n + d < 256) { o.width = 1; cli_case(c, t, lenp({Bytes{0x09, 0xf0}, u}, 1), o, "long unit"); } if (n + d < 65536) { o.width = 2; cli_case(c, t, lenp(us, 2), o, "long unit"); } } }
  // option combinations on streams that show every entry
  std::vector<Bytes> st{cat({sps, pps, fa[0], fa[2], Bytes{0x41, 0xff}}), cat(base[base.size() / 2].units), cat({al[10].b, al[5].b, al[17].b}), cat({sized_slice(0x65, 0, 16), sps, sized_slice(0x65, 0, 40)})};
  for (size_t s = 0; s < st.size(); ++s) for (int k = 0; k < 64; ++k) for (int v = 0; v < 4; ++v) { if (!mine()) continue; Opt o; o.off = k & 1; o.len = k >> 1 & 1; o.plen = k >> 2 & 1; o.sum = k >> 3 & 1; o.res = k >> 4 & 1; o.cont = k >> 5 & 1; o.one = !(v & 1); o.noise = v >> 1; o.out = (k + v) % 3; o.in_stdin = (k + v) % 5 == 0; cli_case(c, t, st[s], o, "options"); o.csv = true; cli_case(c, t, st[s], o, "options"); }
  for (size_t s = 0; s < st.size(); ++s) for (int f = 1; f <= 9; ++f) for (int k = 0; k < 24; ++k) { if (!mine()) continue; Opt o; o.form = f; o.out = k % 3; o.in_stdin = k / 3 % 2; o.csv = k / 6 % 2; o.one = k / 12 % 2; o.cont = (k + f) % 2; o.noise = (k + s) % 2; if (k % 4 == 1) o.fps = 25; cli_case(c, t, st[s], o, "option forms"); }
  // one unit of every kind, all its cuts (exit status of broken units), every first byte
  for (auto& q : base) { if (mine()) cli_case(c, t, cat(q.units), D, "corpus", q.name); if (mine()) cli_case(c, t, cat(q.units), L, "corpus", q.name); if (mine()) { Opt o; o.one = false; o.res = o.sum = o.cont = true; cli_case(c, t, cat(q.units), o, "corpus", q.name); }
    Bytes u = q.units.back(); size_t step = c.thorough ? 1 : 1 + u.size() / 12; for (size_t i = 1; i < u.size(); i += step) { if (!mine()) continue; std::vector<Bytes> us = q.units; us.back().resize(i); cli_case(c, t, cat(us), D, "cut", q.name); } }
  for (uint32_t f = 0; f < 256; ++f) for (uint32_t v : {0x00u, 0x80u, 0xc0u, 0x42u}) { if (!mine()) continue; Bytes u{(uint8_t)f, (uint8_t)v, 0x07, 0x0f, 0x80}; cli_case(c, t, cat({sps, pps, u}), D, "first byte"); cli_case(c, t, cat({u, sps}), L, "first byte"); if (v == 0x80) cli_case(c, t, lenp({u, sps}, 4), W4, "first byte"); }
  // raw bytes: framing alphabets
  static const uint8_t ab[] = {0, 1, 3, 0x09}; for (int len = 0; len <= (c.thorough ? 7 : 5); ++len) { uint64_t n4 = 1; for (int i = 0; i < len; ++i) n4 *= 4; for (uint64_t x = 0; x < n4; ++x) { if (!mine()) continue; Bytes b; uint64_t y = x; for (int i = 0; i < len; ++i) { b.push_back(ab[y % 4]); y /= 4; } Bytes p = cat({sps}); Opt o = x & 1 ? D : L; o.cont = true; cli_case(c, t, b, o, "bytes"); p.insert(p.end(), b.begin(), b.end()); cli_case(c, t, p, o, "bytes after a unit"); } }
  // file names: one character, leading dashes and dots, blanks, bytes that are not text, long; as input and as output, the output also over an older, longer file
  { std::string fd = t.dir + "/names"; mkdir(fd.c_str(), 0777); char* ap = realpath(t.path.c_str(), nullptr); std::string was = t.path; if (ap) t.path = ap; free(ap);
    std::vector<std::string> names = {"x", "-x", "--", "---", "--help", "-o", " ", "a b", ".x", "..x", "0", "~", "*", "%s", "\xc3\xbc", "\xff\xfe", "line\nline", "./-", "./--x", std::string(255, 'n'), fd + "/abs"};
    Bytes st8 = cat({sps, pps}); auto put = [&](const std::string& n, const Bytes& b) { std::string p = n[0] == '/' ? n : fd + "/" + n; int f = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666); if (f < 0) c.broken("cannot write %s", p.c_str()); if (write(f, b.data(), b.size()) != (ssize_t)b.size()) c.broken("write"); close(f); return p; };
    for (auto& n : names) for (int k = 0; k < 12; ++k) { if (!mine()) continue; bool asin = k % 2, csv = k / 2 % 2; int old = k / 4;  // old: no output file yet, a shorter one, a longer one
      if (asin && old == 2) continue; if (!c.begin(st8, "file name '%s' as %s%s%s", n.c_str(), asin ? "input" : "output", csv ? ", listing" : "", old == 1 ? ", short old file" : old == 2 ? ", long old file" : "")) continue; c.add(C_STATES); c.add(C_TRANS); c.add(C_ACC);
      std::string ref = put("ref.264", st8); t.cwd = fd; std::vector<std::string> a; if (csv) a.push_back("--dump-length"); auto b = a; b.push_back("-i"); b.push_back(ref); Run w = t.run(c, b); std::string p = n[0] == '/' ? n : fd + "/" + n;
      if (asin) { put(n, st8); a.push_back(old ? "--infile" : "-i"); a.push_back(n); Run r = t.run(c, a); t.cwd.clear(); unlink(p.c_str()); if (r.code != w.code || r.out != w.out) c.fail("exit status %d instead of %d, or another output, for the same bytes under this name", r.code, w.code); }
      else { unlink(p.c_str()); if (old) put(n, Bytes(old == 1 ? 3 : 100000, 'j')); b.push_back("-o"); b.push_back(n); Run r = t.run(c, b); t.cwd.clear(); int f = open(p.c_str(), O_RDONLY); if (f < 0) c.fail("the output file was not written"); std::string got = slurp_fd(f); close(f); unlink(p.c_str()); if (r.code != w.code || got != w.out) c.fail("exit status %d instead of %d, or another output in the file (%zu bytes instead of %zu)", r.code, w.code, got.size(), w.out.size()); if (!r.out.empty()) c.fail("output on stdout although -o names a file"); } }
    t.cwd.clear(); t.path = was; }
  // unusable arguments and files
  struct Bad { std::vector<std::string> a; const char* why; }; std::string in = t.file("ok.264", cat({sps, pps})), nodir = t.dir + "/none/x";
  std::vector<Bad> bad = {{{}, "no input"}, {{"-i"}, "missing argument"}, {{"-o"}, "missing argument"}, {{"-i", nodir}, "missing file"}, {{"-i", t.dir}, "directory"}, {{"-i", "/dev/null"}, "empty file"}, {{"-i", ""}, "empty name"}, {{"-i", in, "-o", nodir}, "output in a missing directory"}, {{"-i", in, "-o", t.dir}, "output is a directory"}, {{"-i", in, "-o", "/dev/full"}, "output cannot be written"}, {{"-i", in, "--dump-length", "-o", "/dev/full"}, "output cannot be written"},
    {{"-i", in, "--no-such-option"}, "unknown option"}, {{"-i", in, "-z"}, "unknown option"}, {{"-i", in, "--nalu-length-bytes"}, "missing number"}, {{"-i", in, "--frames-per-second"}, "missing number"}, {{"--dump-all"}, "no input"}, {{in}, "no input"}, {{"-h"}, "help"}, {{"--help"}, "help"}};
  for (const char* v : {"", "x", "4x", "-2", "-100", "2147483648", "99999999999999999999", "4.5", "0x4", "--", "4 4"}) { bad.push_back({{"-i", in, "--nalu-length-bytes", v}, "bad number"}); bad.push_back({{"-i", in, "--frames-per-second", v}, "bad number"}); } bad.push_back({{"-i", in, "--frames-per-second", "-1"}, "bad number"});
  for (auto& b : bad) { if (!mine()) continue; if (!c.begin(Bytes(), "%s: h264nal %s", b.why, joined(b.a).c_str())) continue; c.add(C_STATES); c.add(C_REJ); t.file("ok.264", cat({sps, pps})); Run r = t.run(c, b.a); if (r.signalled) c.fail("the tool was ended by signal %d", WTERMSIG(r.status)); if (r.code <= 2) c.fail("exit status %d (%s)", r.code, b.why); if (r.err.empty()) c.fail("no message on stderr (%s)", b.why); }
  if (mine() && c.begin(Bytes(), "stdout cannot be written")) { c.add(C_STATES); int fd = open("/dev/full", O_WRONLY); if (fd >= 0) { t.file("ok.264", cat({sps, pps})); Run r = t.run(c, {"-i", t.dir + "/ok.264"}, -1, fd); close(fd); if (r.code <= 2) c.fail("exit status %d although the listing could not be written", r.code); } }
  if (mine() && c.begin(Bytes(), "--version")) { c.add(C_STATES); Run r = t.run(c, {"--version"}); if (r.code != 0 || r.out.empty()) c.fail("--version: exit status %d", r.code); }
}
static Reg rC23(Check{"C23", c23, "model_checking", "the tool binary on: all sequences of 2 units over 38 (dump, listing, length-prefixed), 3-unit histories ending in slices, widths 0-9; all sequences of up to 4 slices and other units (frame rows, sizes, rates); bit rates around every power of two from 2^24 to 2^40; streams of 99 to 10000 units of 7 kinds around the ranges of small counters; units of 125 to 131075 bytes with contents; units and frames of 2.2 and 2.4 GB; all 64 option combinations x layouts x output targets on 4 streams; 9 ways to word the options (long names, order, verbosity, repeated file names) x 24 settings; every baseline unit and cuts of it; every first byte; all strings up to 5 bytes over 4 framing values; 42 unusable argument lists; 21 unusual file names as input and as output (over no, a shorter and a longer old file)", "all 3-unit histories, frame sequences of 5, strings of 7, every cut", "exit status and every word of the output of each run compared with the model and with the library's dump", {}});
int main(int argc, char** argv) { return mc_main(argc, argv, registry()); }
