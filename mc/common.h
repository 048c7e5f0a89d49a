// Exploration framework shared by the checkers: a fixed number of shards is
// explored by parallel worker processes; every explored case is announced in
// shared memory before it runs, so that a crash or a hang is attributed to the
// exact case; a failing case can be re-run alone by (shard, number).
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <cstdint>
#include <functional>
#include <string>
#include <vector>

typedef std::vector<uint8_t> Bytes;

static const int kShards = 16;   // fixed: the case numbering must not depend on the machine
static const int kCtr = 24;
enum { C_CASES = 0, C_TRANS = 1, C_VALID = 2, C_STATES = 3, C_ACC = 4, C_REJ = 5, C_SOFT = 6, C_UNDEF = 7, C_USER = 8 };

struct Slot {
  uint64_t ctr[kCtr];
  uint64_t caseno;
  uint64_t beat;
  int state;  // 0 idle, 1 running, 2 done, 3 failed
  char label[2048];
  uint32_t len;
  uint8_t data[1 << 16];
  char msg[1 << 14];
  char sample[4][768];
  int nsample;
};

struct Ctx {
  int shard = 0, nshards = kShards;
  bool thorough = false;
  bool verbose = false;
  Slot* s = nullptr;
  uint64_t only = 0;  // 1-based case number; 0 = all
  std::string prop;
  // Announce a case; returns false if it is to be skipped (single-case replay).
  bool begin(const uint8_t* d, size_t n, const char* fmt, ...) __attribute__((format(printf, 4, 5))) {
    s->caseno++;
    s->beat++;
    if (only && s->caseno != only) { if (s->caseno > only) { s->state = 2; _exit(0); } return false; }
    va_list ap; va_start(ap, fmt); vsnprintf(s->label, sizeof s->label, fmt, ap); va_end(ap);
    s->len = n > sizeof s->data ? sizeof s->data : (uint32_t)n;
    if (s->len) memcpy(s->data, d, s->len);
    s->ctr[C_CASES]++;
    if (s->nsample < 4 && (s->ctr[C_CASES] & (s->ctr[C_CASES] - 1)) == 0 && s->ctr[C_CASES] >= (8u << (4 * s->nsample))) {
      std::string h; for (uint32_t i = 0; i < s->len && i < 48; ++i) { char b[4]; snprintf(b, 4, "%02x", s->data[i]); h += b; }
      snprintf(s->sample[s->nsample++], sizeof s->sample[0], "%s [%s]", s->label, h.c_str());
    }
    return true;
  }
  bool begin(const Bytes& b, const char* fmt, ...) __attribute__((format(printf, 3, 4))) {
    char t[2048]; va_list ap; va_start(ap, fmt); vsnprintf(t, sizeof t, fmt, ap); va_end(ap);
    return begin(b.data(), b.size(), "%s", t);
  }
  void add(int c, uint64_t n = 1) { s->ctr[c] += n; }
  void beat() { s->beat++; }
  [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    va_list ap; va_start(ap, fmt); vsnprintf(s->msg, sizeof s->msg, fmt, ap); va_end(ap);
    s->state = 3;
    _exit(1);
  }
  // An inconsistency of the checker itself (never a verdict about the code).
  [[noreturn]] void broken(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    va_list ap; va_start(ap, fmt); vsnprintf(s->msg, sizeof s->msg, fmt, ap); va_end(ap);
    s->state = 4;
    _exit(3);
  }
};

static inline double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h;
}
static inline uint64_t hash_str(const char* s) { uint64_t h = 1469598103934665603ull; while (*s) { h ^= (uint8_t)*s++; h *= 1099511628211ull; } return h; }
static inline std::string hex(const uint8_t* d, size_t n) {
  std::string h; char b[4]; for (size_t i = 0; i < n; ++i) { snprintf(b, 4, "%02x", d[i]); h += b; } return h;
}
static inline std::string hex(const Bytes& b) { return hex(b.data(), b.size()); }
static inline std::string json_str(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}

typedef std::function<void(Ctx&)> CheckFn;
struct Check {
  const char* prop; CheckFn fn;
  const char* level; const char* bound_quick; const char* bound_thorough; const char* rule;
  std::vector<const char*> ctr_names;  // names of C_USER.. counters
};

static inline std::vector<Check>& registry() { static std::vector<Check> r; return r; }
struct Reg { Reg(Check c) { registry().push_back(c); } };

// A recorded known finding: still() tells whether it still shows.
struct Probe { const char* prop; const char* id; std::function<bool()> still; };
static inline std::vector<Probe>& probes() { static std::vector<Probe> r; return r; }
struct RegProbe { RegProbe(Probe p) { probes().push_back(p); } };

// ---- main driver: BIN <prop> <quick|thorough> <outdir> [--only shard:case]
// Writes <outdir>/<prop>.result.json ; exit 0 held, 1 violated, 3 checker error.
static inline int mc_main(int argc, char** argv, const std::vector<Check>& checks) {
  if (argc < 4) { fprintf(stderr, "usage: %s PROP quick|thorough OUTDIR [--only S:N]\n", argv[0]); return 3; }
  std::string prop = argv[1], tier = argv[2], out = argv[3];
  int oshard = -1; unsigned long long ocase = 0;
  if (argc >= 6 && std::string(argv[4]) == "--only") sscanf(argv[5], "%d:%llu", &oshard, &ocase);
  if (tier == "probe") {
    for (auto& p : probes()) if (prop == p.prop) { bool f = p.still(); printf("PROBE %s %s\n", p.id, f ? "fails" : "gone"); fflush(stdout); }
    return 0;
  }
  const Check* ck = nullptr;
  for (auto& c : checks) if (prop == c.prop) ck = &c;
  if (!ck) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 3; }
  double t0 = now_s();
  Slot* slots = (Slot*)mmap(nullptr, sizeof(Slot) * kShards, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (slots == MAP_FAILED) { perror("mmap"); return 3; }
  int jobs = (int)sysconf(_SC_NPROCESSORS_ONLN); if (jobs < 1) jobs = 1; if (jobs > 8) jobs = 8;
  double hang_limit = oshard >= 0 ? 150 : 60;
  struct W { pid_t pid; int shard; uint64_t beat; double since; };
  std::vector<W> ws; int next = 0, failed = -1; std::string why; bool err = false;
  auto spawn = [&](int sh) {
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
      if (oshard < 0) { int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); } }
      Ctx c; c.shard = sh; c.thorough = tier == "thorough"; c.s = &slots[sh]; c.prop = prop; c.only = ocase; c.verbose = oshard >= 0;
      c.s->state = 1; ck->fn(c); c.s->state = 2; _exit(0);
    }
    ws.push_back({p, sh, ~0ull, now_s()});
  };
  if (oshard >= 0) { spawn(oshard); next = kShards; }
  while ((next < kShards || !ws.empty())) {
    while (failed < 0 && next < kShards && (int)ws.size() < jobs) spawn(next++);
    if (failed >= 0) next = kShards;
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) {
      for (size_t i = 0; i < ws.size(); ++i) if (ws[i].pid == p) {
        Slot& s = slots[ws[i].shard];
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s.state == 2) {
        } else if (WIFEXITED(st) && s.state == 4) { err = true; failed = ws[i].shard; why = std::string("checker: ") + s.msg;
        } else if (WIFEXITED(st) && s.state == 3) { if (failed < 0) { failed = ws[i].shard; why = s.msg; }
        } else if (failed < 0) {
          failed = ws[i].shard; char b[200];
          if (WIFSIGNALED(st)) snprintf(b, sizeof b, "the code under test crashed with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
          else snprintf(b, sizeof b, "the code under test ended the process (status %d: sanitizer report, abort or exit)", WEXITSTATUS(st));
          why = b;
        }
        ws.erase(ws.begin() + i); break;
      }
      if (failed >= 0) { for (auto& w : ws) kill(w.pid, SIGKILL); for (auto& w : ws) waitpid(w.pid, nullptr, 0); ws.clear(); }
      continue;
    }
    double t = now_s();
    for (auto& w : ws) {
      uint64_t b = slots[w.shard].beat;
      if (b != w.beat) { w.beat = b; w.since = t; }
      else if (t - w.since > hang_limit && failed < 0) {
        failed = w.shard; char m[200]; snprintf(m, sizeof m, "no result within %.0f s: the code under test does not finish", hang_limit); why = m;
        for (auto& x : ws) kill(x.pid, SIGKILL);
      }
    }
    usleep(2000);
  }
  uint64_t tot[kCtr] = {0};
  for (int i = 0; i < kShards; ++i) for (int j = 0; j < kCtr; ++j) tot[j] += slots[i].ctr[j];
  std::string path = out + "/" + prop + ".result.json";
  FILE* f = fopen(path.c_str(), "w");
  if (!f) { perror(path.c_str()); return 3; }
  fprintf(f, "{\"property\":%s,\"tier\":%s,\"level\":%s,\"bounds\":%s,\"rule\":%s,\n", json_str(prop).c_str(), json_str(tier).c_str(),
          json_str(ck->level).c_str(), json_str(tier == "thorough" ? ck->bound_thorough : ck->bound_quick).c_str(), json_str(ck->rule).c_str());
  fprintf(f, "\"cases\":%llu,\"transitions\":%llu,\"validated\":%llu,\"states\":%llu,\"accepted\":%llu,\"rejected\":%llu,\"soft\":%llu,\"undef\":%llu,\"wall_s\":%.2f,\n",
          (unsigned long long)tot[0], (unsigned long long)tot[1], (unsigned long long)tot[2], (unsigned long long)tot[3], (unsigned long long)tot[4],
          (unsigned long long)tot[5], (unsigned long long)tot[6], (unsigned long long)tot[7], now_s() - t0);
  fprintf(f, "\"counters\":{");
  for (size_t i = 0; i < ck->ctr_names.size(); ++i) fprintf(f, "%s%s:%llu", i ? "," : "", json_str(ck->ctr_names[i]).c_str(), (unsigned long long)tot[C_USER + i]);
  fprintf(f, "},\n\"samples\":[");
  bool first = true;
  for (int i = 0; i < kShards; i += 5) for (int j = 0; j < slots[i].nsample; ++j) { fprintf(f, "%s%s", first ? "" : ",", json_str(slots[i].sample[j]).c_str()); first = false; }
  fprintf(f, "]");
  if (failed >= 0) {
    Slot& s = slots[failed];
    fprintf(f, ",\n\"%s\":{\"shard\":%d,\"case\":%llu,\"label\":%s,\"data\":%s,\"message\":%s}", err ? "error" : "violation", failed,
            (unsigned long long)s.caseno, json_str(s.label).c_str(), json_str(hex(s.data, s.len)).c_str(), json_str(why).c_str());
    printf("%s: case %d:%llu  %s\n  data: %s\n  %s\n", err ? "CHECKER ERROR" : "FAILED", failed, (unsigned long long)s.caseno, s.label, hex(s.data, s.len).c_str(), why.c_str());
  }
  fprintf(f, "}\n"); fclose(f);
  printf("%s %s: cases=%llu states=%llu transitions=%llu validated=%llu accepted=%llu rejected=%llu soft=%llu undef=%llu %.1fs\n", prop.c_str(), tier.c_str(),
         (unsigned long long)tot[0], (unsigned long long)tot[3], (unsigned long long)tot[1], (unsigned long long)tot[2], (unsigned long long)tot[4],
         (unsigned long long)tot[5], (unsigned long long)tot[6], (unsigned long long)tot[7], now_s() - t0);
  for (size_t i = 0; i < ck->ctr_names.size(); ++i) printf("  %s=%llu\n", ck->ctr_names[i], (unsigned long long)tot[C_USER + i]);
  if (err) return 3;
  return failed >= 0 ? 1 : 0;
}
