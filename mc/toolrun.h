// Running the command line tool: captured output, exit status, time limit.
#pragma once
#include <spawn.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include "common.h"
extern char** environ;
struct Run { int status = 0; bool signalled = false; int code = 0; std::string out, err; };
static inline int mem_fd(const char* n) { return (int)syscall(SYS_memfd_create, n, 0); }
static inline std::string slurp_fd(int fd) { std::string s; off_t n = lseek(fd, 0, SEEK_END); s.resize(n > 0 ? n : 0); size_t o = 0; while (o < s.size()) { ssize_t k = pread(fd, &s[o], s.size() - o, o); if (k <= 0) break; o += k; } return s; }
struct Tool {
  std::string path; int o = -1, e = -1; std::string dir, cwd;  // cwd: where the tool runs (empty: here)
  Tool(Ctx& c, const char* name) { const char* d = getenv("SHIM_DIR"); path = std::string(d ? d : ".") + "/" + name; o = mem_fd("o"); e = mem_fd("e"); dir = std::string(d ? d : ".") + "/w" + std::to_string(c.shard); mkdir(dir.c_str(), 0777); if (access(path.c_str(), X_OK)) c.broken("no tool %s", path.c_str()); if (o < 0 || e < 0) c.broken("memfd: %s", strerror(errno)); }
  std::string file(const std::string& n, const Bytes& b) { std::string p = dir + "/" + n; int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666); size_t k = 0; while (k < b.size()) { ssize_t w = write(fd, b.data() + k, b.size() - k); if (w <= 0) break; k += w; } close(fd); return p; }
  Run run(Ctx& c, const std::vector<std::string>& args, int in_fd = -1, int out_fd = -1) {
    std::vector<char*> a; a.push_back((char*)path.c_str()); for (auto& s : args) a.push_back((char*)s.c_str()); a.push_back(nullptr);
    ftruncate(o, 0); lseek(o, 0, SEEK_SET); ftruncate(e, 0); lseek(e, 0, SEEK_SET);
    int dn = -1; if (in_fd < 0) { dn = open("/dev/null", O_RDONLY); in_fd = dn; }
    posix_spawn_file_actions_t f; posix_spawn_file_actions_init(&f); posix_spawn_file_actions_adddup2(&f, in_fd, 0); posix_spawn_file_actions_adddup2(&f, out_fd >= 0 ? out_fd : o, 1); posix_spawn_file_actions_adddup2(&f, e, 2); if (!cwd.empty()) posix_spawn_file_actions_addchdir_np(&f, cwd.c_str());
    pid_t p; int rc = posix_spawn(&p, path.c_str(), &f, nullptr, a.data(), environ); posix_spawn_file_actions_destroy(&f); if (dn >= 0) close(dn);
    if (rc) c.broken("spawn: %s", strerror(rc));
    Run r; int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    r.status = st; r.signalled = WIFSIGNALED(st); r.code = WIFEXITED(st) ? WEXITSTATUS(st) : -1; r.out = slurp_fd(o); r.err = slurp_fd(e);
    return r;
  }
};
static inline std::vector<std::string> lines(const std::string& s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j + 1; } return v; }
static inline std::string joined(const std::vector<std::string>& v) { std::string s; for (auto& x : v) { if (!s.empty()) s += " "; s += x; } return s; }
