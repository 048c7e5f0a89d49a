// C24 input and output of the tool under every delivery and fault: the tool is
// run under a system call tracer that decides the outcome of each input/output
// operation; all outcome sequences with a bounded number of deviations from
// the normal outcome are explored.
#define MC_LIB
#include "mc_syntax.cc"
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/user.h>
#include <thread>
#include "units.h"
#include "toolrun.h"

enum Kind { K_OPEN, K_READ, K_SEEK, K_STAT, K_CLOSE, K_WRITE, K_OTHER };
static const char* kname[] = {"open", "read", "seek", "stat", "close", "write", "call"};
// outcome of one operation: 0 normal; err: fails with errno; n: read or write of at most n bytes; eof; file changed before it
struct Choice { int err = 0; long n = 0; bool eof = false; long trunc = -1; bool append = false; bool dflt() const { return !err && !n && !eof && trunc < 0 && !append; } };
struct Op { Kind k; long nr; long want; long got; bool in; };
struct Traced { Run r; std::vector<Op> ops; };
struct Scn { std::string name; Bytes in; int mode; bool outfile; bool csv; int width = -1; };  // mode: 0 file, 1 stdin from a file, 2 stdin from a pipe, 3 -i /dev/stdin

static std::string rdstr(pid_t p, unsigned long a) { std::string s; for (int i = 0; i < 64; ++i) { errno = 0; long w = ptrace(PTRACE_PEEKDATA, p, a + i * 8, 0); if (errno) break; for (int k = 0; k < 8; ++k) { char ch = (char)(w >> (8 * k)); if (!ch) return s; s += ch; } } return s; }
static std::vector<std::string> args_of(const Scn& s, const std::string& inp, const std::string& outp) {
  std::vector<std::string> a{"--add-contents", "--add-checksum"}; if (s.csv) a.push_back("--dump-length"); if (s.width >= 0) { a.push_back("--nalu-length-bytes"); a.push_back(std::to_string(s.width)); }
  a.push_back("-i"); a.push_back(s.mode == 0 ? inp : s.mode == 3 ? "/dev/stdin" : "-"); if (s.outfile) { a.push_back("-o"); a.push_back(outp); } return a;
}
static int feed_fd(Ctx& c, const Scn& s, const std::string& inp) {
  if (s.mode == 0) return open("/dev/null", O_RDONLY);
  if (s.mode == 1 || s.mode == 3) return open(inp.c_str(), O_RDONLY);
  int p[2]; if (pipe(p)) c.broken("pipe"); if (s.in.size() > 60000) c.broken("pipe content"); if (write(p[1], s.in.data(), s.in.size()) != (ssize_t)s.in.size()) c.broken("pipe write"); close(p[1]); return p[0];
}
static Traced traced(Ctx& c, Tool& t, const Scn& s, const std::map<size_t, Choice>& plan) {
  std::string inp = t.file("in.264", s.in), outp = t.dir + "/out.txt"; unlink(outp.c_str()); auto a = args_of(s, inp, outp); std::vector<char*> av; av.push_back((char*)t.path.c_str()); for (auto& x : a) av.push_back((char*)x.c_str()); av.push_back(nullptr);
  ftruncate(t.o, 0); lseek(t.o, 0, SEEK_SET); ftruncate(t.e, 0); lseek(t.e, 0, SEEK_SET); int in = feed_fd(c, s, inp); Traced T;
  pid_t p = fork();
  if (p == 0) { dup2(in, 0); dup2(t.o, 1); dup2(t.e, 2); if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(97); raise(SIGSTOP); execve(av[0], av.data(), environ); _exit(98); }
  close(in); int st; waitpid(p, &st, 0); if (!WIFSTOPPED(st)) c.broken("no tracing here (status %x)", st);
  ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL | PTRACE_O_TRACEEXEC);
  bool entry = true, on = false; std::map<long, int> fds; if (s.mode == 1 || s.mode == 2) fds[0] = 1; if (!s.outfile) fds[1] = 2; int sig = 0; Choice cur; bool isop = false; Op op{}; int openrole = 0; double t0 = now_s();
  for (;;) {
    ptrace(PTRACE_SYSCALL, p, 0, sig); sig = 0; if (waitpid(p, &st, 0) < 0) c.broken("wait");
    if (WIFEXITED(st) || WIFSIGNALED(st)) break;
    if (!WIFSTOPPED(st)) continue;
    if (st >> 8 == (SIGTRAP | PTRACE_EVENT_EXEC << 8)) { on = true; continue; }
    if (WSTOPSIG(st) != (SIGTRAP | 0x80)) { sig = WSTOPSIG(st); continue; }
    if (!on) { entry = !entry; continue; }
    struct user_regs_struct r; ptrace(PTRACE_GETREGS, p, 0, &r);
    if (entry) {
      long nr = (long)r.orig_rax; isop = false; openrole = 0; cur = Choice(); Kind k = K_OTHER; auto role = [&](long fd) { auto i = fds.find(fd); return i == fds.end() ? 0 : i->second; }; int ro = 0; long want = 0;
      if (nr == SYS_openat || nr == SYS_open) { std::string n = rdstr(p, nr == SYS_openat ? r.rsi : r.rdi); if (s.mode == 0 && n == inp) openrole = 1; else if (s.mode == 3 && n == "/dev/stdin") openrole = 1; else if (s.outfile && n == outp) openrole = 2; ro = openrole; k = K_OPEN; }
      else if (nr == SYS_read || nr == SYS_pread64) { ro = role((long)(int)r.rdi); k = K_READ; want = (long)r.rdx; if (ro != 1) ro = 0; }
      else if (nr == SYS_readv || nr == SYS_preadv) { ro = role((long)(int)r.rdi); k = K_OTHER; if (ro != 1) ro = 0; }
      else if (nr == SYS_lseek) { ro = role((long)(int)r.rdi); k = K_SEEK; }
      else if (nr == SYS_fstat) { ro = role((long)(int)r.rdi); k = K_STAT; }
      else if (nr == SYS_newfstatat) { std::string n = rdstr(p, r.rsi); ro = n.empty() ? role((long)(int)r.rdi) : n == inp && s.mode == 0 ? 1 : 0; k = K_STAT; }
      else if (nr == SYS_statx) { std::string n = rdstr(p, r.rsi); ro = n.empty() ? role((long)(int)r.rdi) : n == inp && s.mode == 0 ? 1 : 0; k = K_STAT; }
      else if (nr == SYS_mmap && (int)r.r8 >= 0) { ro = role((long)(int)r.r8); k = K_OTHER; }
      else if (nr == SYS_write || nr == SYS_writev) { ro = role((long)(int)r.rdi); k = nr == SYS_write ? K_WRITE : K_OTHER; want = (long)r.rdx; if (ro != 2) ro = 0; }
      else if (nr == SYS_close) { ro = role((long)(int)r.rdi); k = K_CLOSE; if (ro) fds.erase((long)(int)r.rdi); }
      if (ro) {
        isop = true; op = Op{k, nr, want, 0, ro == 1}; auto it = plan.find(T.ops.size()); if (it != plan.end()) cur = it->second;
        if (cur.trunc >= 0) { if (truncate(inp.c_str(), cur.trunc)) c.broken("truncate"); }
        if (cur.append) { int f = open(inp.c_str(), O_WRONLY | O_APPEND); Bytes x{0, 0, 1, 0x09, 0x30}; if (write(f, x.data(), x.size()) != (ssize_t)x.size()) c.broken("append"); close(f); }
        if ((cur.err || cur.eof) && k != K_CLOSE) { r.orig_rax = (unsigned long)-1; ptrace(PTRACE_SETREGS, p, 0, &r); }
        else if (cur.n && (k == K_READ || k == K_WRITE)) { if ((long)r.rdx > cur.n) r.rdx = (unsigned long)cur.n; ptrace(PTRACE_SETREGS, p, 0, &r); }
      }
      entry = false;
    } else {
      if (isop) {
        if (cur.err) { r.rax = (unsigned long)-(long)cur.err; ptrace(PTRACE_SETREGS, p, 0, &r); } else if (cur.eof) { r.rax = 0; ptrace(PTRACE_SETREGS, p, 0, &r); }
        op.got = (long)r.rax; T.ops.push_back(op); if (openrole && (long)r.rax >= 0) fds[(long)r.rax] = openrole;
        if (T.ops.size() > 100000) { kill(p, SIGKILL); waitpid(p, &st, 0); c.fail("the tool does not finish: 100000 input/output operations"); }
      }
      entry = true;
    }
    if (now_s() - t0 > 40) { kill(p, SIGKILL); waitpid(p, &st, 0); c.fail("the tool does not finish"); }
  }
  T.r.status = st; T.r.signalled = WIFSIGNALED(st); T.r.code = WIFEXITED(st) ? WEXITSTATUS(st) : -1; T.r.err = slurp_fd(t.e);
  if (s.outfile) { int f = open(outp.c_str(), O_RDONLY); if (f >= 0) { T.r.out = slurp_fd(f); close(f); } } else T.r.out = slurp_fd(t.o);
  if (T.r.code == 97) c.broken("PTRACE_TRACEME refused"); if (T.r.code == 98) c.broken("exec failed");
  return T;
}
// what the tool must print for given bytes (the library's dump; the listing for csv comes from an undisturbed run)
static std::string expected(const Bytes& in, int width) {
  H::ParsingOptions po; po.add_parsed_length = po.add_resolution = false; ImplSession is; auto bs = width < 0 ? H::H264BitstreamParser::ParseBitstream(in.data(), in.size(), &is, po) : H::H264BitstreamParser::ParseBitstreamNALULength(in.data(), in.size(), width, &is, po); std::string o; if (!bs) return o;
  char* p = nullptr; size_t n = 0; FILE* f = open_memstream(&p, &n); for (auto& u : bs->nal_units) { u->fdump(f, -1, po); fprintf(f, " contents {"); for (size_t i = 0; i < u->length; ++i) fprintf(f, " %02x", in[u->offset + i]); fprintf(f, " }\n"); } fclose(f); o.assign(p, n); free(p); return joined(words(o));
}
struct Want { std::string out; int code; };
static std::string key(const Run& r) { return joined(words(r.out)); }
struct IoExplorer {
  Ctx& c; Tool& t; const Scn& s; int bound; std::map<long, Want> cache; Want full; int64_t runs = 0; 
  Want want_for(const Bytes& in, long k) { auto i = cache.find(k); if (i != cache.end()) return i->second; Want w; Scn q = s; q.in = in; q.mode = 1; std::string p = t.file("ref.264", in); int fd = open(p.c_str(), O_RDONLY); Scn z = s; z.mode = 1; z.outfile = false; Run r = t.run(c, args_of(z, "", ""), fd); close(fd); w.out = key(r); w.code = r.code; if (!s.csv && w.out != expected(in, s.width)) c.fail("undisturbed run on %zu bytes does not print the units of these bytes", in.size()); cache[k] = w; return w; }
  static std::vector<Choice> choices(const Op& o, const Scn& s, bool changes) {
    std::vector<Choice> v; auto err = [&](int e) { Choice x; x.err = e; v.push_back(x); };
    switch (o.k) {
      case K_OPEN: err(EACCES); err(EMFILE); err(EINTR); break;
      case K_READ: { std::vector<long> ns{1, 2, o.got / 2, o.got - 1}; for (size_t i = 0; i < ns.size(); ++i) { bool dup = ns[i] < 1 || ns[i] >= o.got; for (size_t j = 0; j < i; ++j) if (ns[j] == ns[i]) dup = true; if (!dup) { Choice x; x.n = ns[i]; v.push_back(x); } } err(EIO); err(EINTR); if (o.got > 0 && o.in) { Choice x; x.eof = true; v.push_back(x); } break; }
      case K_WRITE: { for (long n : {1L, o.want / 2}) if (n >= 1 && n < o.want) { Choice x; x.n = n; v.push_back(x); } err(ENOSPC); err(EIO); break; }
      case K_SEEK: err(ESPIPE); err(EINVAL); break;
      case K_STAT: err(EIO); break;
      case K_CLOSE: err(EIO); break;
      default: err(EIO); err(ENOMEM); break;
    }
    if (changes && s.mode == 0 && o.in && o.k != K_OPEN) { for (long n : {0L, (long)s.in.size() / 2, (long)s.in.size() - 1}) { Choice x; x.trunc = n; v.push_back(x); } Choice x; x.append = true; v.push_back(x); }
    return v;
  }
  static std::string text(const std::map<size_t, Choice>& plan, const std::vector<Op>& ops) { std::string o; for (auto& p : plan) { auto& x = p.second; char b[160]; const char* k = p.first < ops.size() ? kname[ops[p.first].k] : "?"; if (x.err) snprintf(b, sizeof b, " op%zu(%s)=-%s", p.first + 1, k, strerrorname_np(x.err)); else if (x.eof) snprintf(b, sizeof b, " op%zu(%s)=end of input", p.first + 1, k); else if (x.n) snprintf(b, sizeof b, " op%zu(%s) at most %ld bytes", p.first + 1, k, x.n); else if (x.trunc >= 0) snprintf(b, sizeof b, " file truncated to %ld before op%zu(%s)", x.trunc, p.first + 1, k); else snprintf(b, sizeof b, " file extended before op%zu(%s)", p.first + 1, k); o += b; } return o.empty() ? " no fault" : o; }
  bool check(const Traced& T, const std::map<size_t, Choice>& plan) {
    bool hard = false, wfail = false, inerr = false, changed = false, eof = false; for (auto& p : plan) { if (p.first >= T.ops.size()) continue; auto& o = T.ops[p.first]; auto& x = p.second; if (x.err) { hard = true; if (!o.in) wfail = true; if (o.in && o.k == K_READ) inerr = true; } if (x.eof) eof = true; if (x.trunc >= 0 || x.append) changed = true; }
    const Run& r = T.r; c.add(C_TRANS, T.ops.size());
    if (r.signalled) c.fail("the tool was ended by signal %d", WTERMSIG(r.status));
    if (r.code < 0 || r.code > 2) { if (!hard && !changed && !eof && !(s.mode == 3)) c.fail("exit status %d although every operation succeeded (%s)", r.code, r.err.c_str()); if (r.err.empty()) c.fail("exit status %d without a message", r.code); c.add(C_REJ); return true; }
    c.add(C_ACC);
    // success: the output must be complete, for the bytes the input held
    std::string got = key(r); if (got == full.out && r.code == full.code) return true;
    if (changed || eof) {  // the input itself changed: any content it held when read, in whole, is right
      for (auto& p : plan) { auto& x = p.second; if (x.append) { Bytes b = s.in; b.insert(b.end(), {0, 0, 1, 0x09, 0x30}); Want w = want_for(b, -1); if (got == w.out && r.code == w.code) return true; } if (x.trunc >= 0) { Want w = want_for(Bytes(s.in.begin(), s.in.begin() + x.trunc), x.trunc); if (got == w.out && r.code == w.code) return true; } }
      // or the bytes delivered by some run of reads, if the input shrank or ended in between
      std::vector<long> sums; long sum = 0; for (auto& o : T.ops) { if (!o.in) continue; if (o.k == K_SEEK) sum = 0; if (o.k == K_READ && o.got > 0) { sum += o.got; sums.push_back(sum); } } sums.push_back(0);
      for (long n : sums) if (n <= (long)s.in.size()) { Want w = want_for(Bytes(s.in.begin(), s.in.begin() + n), n); if (got == w.out && r.code == w.code) return true; }
    }
    c.fail("exit status %d, but the listing is not that of the %zu bytes of input (%zu of %zu characters, fault-free status %d)%s", r.code, s.in.size(), got.size(), full.out.size(), full.code, wfail ? ": lost output" : inerr ? ": a failed read was passed over" : "");
  }
  void go(const std::map<size_t, Choice>& plan, int devs, size_t from, bool shard_here) {
    // announce with the operations of the parent run
    static std::vector<Op> last; if (!c.begin(s.in, "%s:%s", s.name.c_str(), text(plan, last).c_str())) { if (c.only) {} }
    bool skip = c.only && c.s->caseno != c.only; Traced T = traced(c, t, s, plan); ++runs; c.add(C_STATES);
    if (devs == 0) { full.out = key(T.r); full.code = T.r.code; if (s.mode != 3 || T.r.code <= 2) { if (T.r.code > 2 || T.r.signalled) c.fail("exit status %d without any fault: %s", T.r.code, T.r.err.c_str()); if (!s.csv && full.out != expected(s.in, s.width)) c.fail("the undisturbed run does not print the units of the input"); Want w = want_for(s.in, -2); if (w.out != full.out || w.code != full.code) c.fail("the result depends on how the input is given"); } }
    if (!skip) check(T, plan); else c.add(C_TRANS, 0);
    if (devs == bound) return;
    bool ch = true; for (auto& p : plan) if (p.second.trunc >= 0 || p.second.append) ch = false;
    std::vector<Op> ops = T.ops; uint64_t k = 0;
    for (size_t i = from; i < ops.size(); ++i) for (auto& x : choices(ops[i], s, ch)) { if (shard_here && k++ % c.nshards != (uint64_t)c.shard) continue; auto q = plan; q[i] = x; last = ops; go(q, devs + 1, i + 1, false); }
  }
};
static Bytes content(Ctx& c, size_t n) {  // a stream of exactly n bytes in which every byte shows in the listing
  Bytes b = cat({u_sps(c, kA), u_pps(c, ppid(0, 0))}); uint32_t x = 1; size_t k = 0;
  while (b.size() + 12 < n) { b.insert(b.end(), {0, 0, 1, 0x06}); size_t m = std::min<size_t>(n - b.size(), 40 + k++ % 90); for (size_t i = 0; i < m && b.size() < n; ++i) { x = x * 1103515245 + 12345; b.push_back((uint8_t)(0x10 + (x >> 16) % 0xe0)); } }
  while (b.size() < n) b.push_back(0x55); b.resize(n); return b;
}
static void c24(Ctx& c) {
  Tool t(c, "h264nal"); std::vector<Scn> sc;
  for (size_t n : {5u, 40u, 4096u, 4097u, 9000u}) for (int mode = 0; mode < 4; ++mode) sc.push_back({"", n == 5 ? Bytes{0, 0, 1, 9, 0xf0} : content(c, n), mode, false, false});
  for (int mode : {0, 2}) { sc.push_back({"", content(c, 300), mode, true, false}); sc.push_back({"", content(c, 6000), mode, true, true}); Bytes bad = content(c, 200); bad.insert(bad.end(), {0, 0, 1, 0x67, 0x42}); sc.push_back({"", bad, mode, false, false}); sc.push_back({"", Bytes{0, 0, 0, 2, 9, 0xf0, 0, 0, 0, 3, 6, 5, 4}, mode, false, false, 4}); }
  static const char* mn[] = {"file", "stdin", "pipe", "/dev/stdin"};
  for (auto& s : sc) s.name = std::to_string(s.in.size()) + " bytes by " + mn[s.mode] + (s.outfile ? " to a file" : "") + (s.csv ? ", listing" : "") + (s.width >= 0 ? ", length-prefixed" : "");
  for (auto& s : sc) { int b = s.in.size() <= (c.thorough ? 400u : 40u) ? 3 : 2; if (s.in.size() > 4097 && !c.thorough) b = s.outfile ? 1 : 2; if (c.thorough && s.in.size() <= 40) b = 4; IoExplorer x{c, t, s, b}; x.go({}, 0, 0, true); }
  // every byte by itself, and every constant chunk size
  for (auto& s : sc) for (long n : {1L, 2L, 3L, 7L, 511L, 4095L}) { if ((n + s.in.size() + s.mode) % c.nshards != (size_t)c.shard) continue; if (s.mode == 3) continue; if (s.in.size() / n > 3000) continue; IoExplorer x{c, t, s, 0}; Want w = x.want_for(s.in, -2); x.full = w; if (!c.begin(s.in, "%s: every read delivers at most %ld bytes", s.name.c_str(), n)) continue; std::map<size_t, Choice> plan; for (size_t i = 0; i < 20000; ++i) plan[i].n = n; 
    // only reads and writes are shortened
    c.add(C_STATES); Traced T = traced(c, t, s, plan); x.check(T, {}); }
  // sizes, undisturbed
  size_t top = c.thorough ? 20000 : 9000; for (size_t n = 1; n <= top; n += (n > 60 && !c.thorough) ? (n % 4096 < 5 || n % 4096 > 4090 || n % 512 < 2 ? 1 : 7) : 1) { if (n % c.nshards != (size_t)c.shard) continue; Bytes b = n < 30 ? Bytes(n, 0x41) : content(c, n); if (n < 30) for (size_t i = 0; i < 4 && i < n; ++i) b[i] = i == 2 ? 1 : i == 3 ? 9 : 0;
    for (int mode : {0, 1, 2}) { Scn s{"", b, mode, false, false}; if (!c.begin(b, "%zu bytes by %s", n, mn[mode])) continue; c.add(C_STATES); c.add(C_TRANS); std::string p = t.file("in.264", b); int fd = feed_fd(c, s, p); Run r = t.run(c, args_of(s, p, ""), fd); close(fd); if (r.signalled || r.code > 2) c.fail("exit status %d", r.code); if (key(r) != expected(b, -1)) c.fail("the listing is not that of the %zu bytes of input", n); } }
  for (size_t n : {65535u, 65536u, 65537u, 1048575u, 1048576u, 3000001u}) for (int mode : {0, 1}) { if ((n + mode) % c.nshards != (size_t)c.shard) continue; Scn s{"", content(c, n), mode, false, false}; if (!c.begin(Bytes(), "%zu bytes by %s", n, mn[mode])) continue; c.add(C_STATES); std::string p = t.file("in.264", s.in); int fd = feed_fd(c, s, p); Run r = t.run(c, args_of(s, p, ""), fd); close(fd); if (r.signalled || r.code > 2) c.fail("exit status %d", r.code); if (key(r) != expected(s.in, -1)) c.fail("the listing is not that of the %zu bytes of input", n); }
  // large inputs: two units, the last of which reaches to the end of the input; the listing shows where each begins and how long it is
  for (size_t n : {(size_t)1 << 23, (size_t)1 << 24, (size_t)1 << 25, (size_t)1 << 26, (size_t)1 << 27, (size_t)100000000}) for (int d : {-1, 1}) for (int mode : {0, 1}) { if (!c.thorough && mode == 1 && n > ((size_t)1 << 26)) continue; if ((n / 4096 * 3 + n % 7 + d + mode) % c.nshards != (size_t)c.shard) continue; size_t sz = n + d; if (!c.begin(Bytes(), "%zu bytes by %s", sz, mn[mode])) continue; c.add(C_STATES); c.add(C_TRANS); Bytes b(sz, 0x55); size_t at2 = sz - 5003; b[0] = b[1] = 0; b[2] = 1; b[3] = 0x0c; b[at2] = b[at2 + 1] = 0; b[at2 + 2] = 1; b[at2 + 3] = 0x0c; std::string p = t.file("in.264", b); int fd = mode ? open(p.c_str(), O_RDONLY) : -1; Run r = t.run(c, {"--dump-length", "-i", mode ? "-" : p}, fd); if (fd >= 0) close(fd); unlink(p.c_str()); if (r.signalled || r.code > 2) c.fail("exit status %d", r.code); auto ls = lines(r.out); char w1[100], w2[100]; snprintf(w1, sizeof w1, "0,0,12,%s,%zu,,", H::NalUnitTypeToString(12).c_str(), at2 - 3); snprintf(w2, sizeof w2, "1,0,12,%s,%zu,,", H::NalUnitTypeToString(12).c_str(), sz - at2 - 3); if (ls.size() != 3 || ls[1] != w1 || ls[2] != w2) c.fail("the listing of %zu bytes is '%s', '%s' instead of '%s', '%s'", sz, ls.size() > 1 ? ls[1].c_str() : "", ls.size() > 2 ? ls[2].c_str() : "", w1, w2); }
  // inputs that cannot be read
  if (c.shard == 3) { struct { std::string a; bool in; const char* why; } bad[] = {{t.dir, false, "directory"}, {t.dir + "/none", false, "missing file"}, {"/dev/null", false, "empty device"}, {"-", true, "directory on stdin"}, {t.dir + "/e/f", false, "missing directory"}}; for (auto& b : bad) { if (!c.begin(Bytes(), "%s", b.why)) continue; c.add(C_STATES); int fd = b.in ? open(t.dir.c_str(), O_RDONLY) : -1; Run r = t.run(c, {"-i", b.a}, fd); if (fd >= 0) close(fd); if (r.signalled) c.fail("ended by signal %d (%s)", WTERMSIG(r.status), b.why); if (r.code <= 2) c.fail("exit status %d (%s)", r.code, b.why); if (r.err.empty()) c.fail("no message (%s)", b.why); } 
    if (c.begin(Bytes(), "closed stdin")) { c.add(C_STATES); pid_t p = fork(); if (!p) { close(0); dup2(t.o, 1); dup2(t.e, 2); execl(t.path.c_str(), t.path.c_str(), "-i", "-", (char*)nullptr); _exit(98); } int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) <= 2) c.fail("status %x with standard input closed", st); } }
}
static bool finding_avcc() { const char* d = getenv("SHIM_DIR"); std::string cmd = std::string(d ? d : ".") + "/h264nal --avcc-file /nonexistent/avcc >/dev/null 2>&1"; int st = system(cmd.c_str()); return WIFEXITED(st) && WEXITSTATUS(st) == 0; }
static RegProbe pF4({"C24", "F4", finding_avcc});
static Reg rC24(Check{"C24", c24, "fault_enumeration", "28 scenarios (5 to 9000 bytes; file, redirected stdin, pipe, /dev/stdin; stdout or output file; dump, listing, length-prefixed): every outcome sequence with up to 2 deviations (3 for short inputs) at any input/output system call - short reads and writes of 4 sizes, EIO, EINTR, EACCES, EMFILE, ENOSPC, ESPIPE, premature end, file truncated or extended between any two calls; constant chunk sizes; file sizes 1 to 9000 by file, stdin and pipe; large inputs up to 128 MiB; unreadable inputs", "up to 3 (4) deviations, all sizes to 20000", "distinct fault plans; each run either prints exactly the listing of the whole input with the right status, or exits with an error and a message", {}});
int main(int argc, char** argv) { return mc_main(argc, argv, registry()); }
