// Common part of the drivers: one case per input line, each executed in a forked child
// whose events are collected through a pipe, so that a crash is an observable event.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csignal>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unistd.h>
#include <poll.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <time.h>

static int drvOut = -1;
static bool drvFirst = true;

inline std::string jnum(double x) {
  if (x == std::floor(x) && std::fabs(x) < 1e15) { char b[40]; snprintf(b, 40, "%.0f", x == 0 ? 0.0 : x); return b; }
  char b[40]; snprintf(b, 40, "%.17g", x); return b;
}
inline std::string js(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
inline std::string jv(const std::string &s) { return js(s); }
inline std::string jv(const char *s) { return js(s); }
inline std::string jv(bool b) { return b ? "true" : "false"; }
inline std::string jv(double x) { return jnum(x); }
inline std::string jv(int x) { return std::to_string(x); }
inline std::string jv(unsigned x) { return std::to_string(x); }
inline std::string jv(long x) { return std::to_string(x); }
inline std::string jv(size_t x) { return std::to_string(x); }
template <class A, class B> std::string jv(const std::pair<A, B> &p);
template <class T> std::string jv(const std::set<T> &s);
template <class T> std::string jv(const std::vector<T> &v) {
  std::string r = "["; bool f = true;
  for (const auto &x : v) { if (!f) r += ","; f = false; r += jv(x); }
  return r + "]";
}
template <class T> std::string jv(const std::set<T> &s) { return jv(std::vector<T>(s.begin(), s.end())); }
template <class A, class B> std::string jv(const std::pair<A, B> &p) { return "[" + jv(p.first) + "," + jv(p.second) + "]"; }
template <class V> std::string jv(const std::map<std::string, V> &m) {
  std::string r = "{"; bool f = true;
  for (const auto &x : m) { if (!f) r += ","; f = false; r += js(x.first) + ":" + jv(x.second); }
  return r + "}";
}

// Event: name plus already encoded fields
struct Ev {
  std::string s;
  explicit Ev(const std::string &name) { s = "{\"e\":" + js(name); }
  template <class T> Ev &f(const std::string &k, const T &v) { s += "," + js(k) + ":" + jv(v); return *this; }
  void emit() {
    s += "}";
    std::string o = (drvFirst ? "" : ",") + s;
    drvFirst = false;
    size_t off = 0;
    while (off < o.size()) { ssize_t w = write(drvOut, o.data() + off, o.size() - off); if (w <= 0) _exit(9); off += w; }
  }
};

void runCase(std::istringstream &in);

inline std::vector<double> readVec(std::istringstream &in) { int n; in >> n; std::vector<double> v(n); for (auto &x : v) in >> x; return v; }
inline std::vector<std::vector<double>> readMat(std::istringstream &in) {
  int n; in >> n; std::vector<std::vector<double>> m(n); for (auto &r : m) r = readVec(in); return m; }
inline std::vector<unsigned> readUV(std::istringstream &in) { int n; in >> n; std::vector<unsigned> v(n); for (auto &x : v) in >> x; return v; }
inline std::string readHex(std::istringstream &in) { // "-" is the empty string
  std::string h, r; in >> h; if (h == "-") return r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), 0, 16); return r; }

int main(int argc, char **argv) {
  int limit = argc > 1 ? atoi(argv[1]) : 20;
  signal(SIGPIPE, SIG_IGN);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  std::string line;
  std::vector<std::string> lines;
  while (std::getline(std::cin, line)) lines.push_back(line);
  int hung = 0;
  for (auto &l : lines) {
    if (hung >= 2) { printf("{\"ev\":[],\"crash\":\"skipped\"}\n"); continue; } // do not wait for hours
    int fd[2];
    if (pipe(fd)) return 3;
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) return 3;
    if (pid == 0) {
      close(fd[0]);
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      drvOut = fd[1];
      int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 1); dup2(nul, 2);
      struct rlimit rl;
      rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
      rl.rlim_cur = rl.rlim_max = 3ul << 30; setrlimit(RLIMIT_AS, &rl);
      std::istringstream in(l);
      try { runCase(in); }
      catch (std::exception &e) { Ev("throw").f("what", std::string(e.what())).emit(); }
      _exit(0);
    }
    close(fd[1]);
    std::string out; char buf[65536]; bool to = false, flood = false;
    struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (;;) {
      clock_gettime(CLOCK_MONOTONIC, &t);
      int left = limit * 1000 - (int)((t.tv_sec - t0.tv_sec) * 1000 + (t.tv_nsec - t0.tv_nsec) / 1000000);
      if (left <= 0) { to = true; break; }
      struct pollfd p = {fd[0], POLLIN, 0};
      int k = poll(&p, 1, left);
      if (k == 0) { to = true; break; }
      ssize_t r = read(fd[0], buf, sizeof buf);
      if (r <= 0) break;
      out.append(buf, r);
      if (out.size() > (32u << 20)) { flood = true; out.clear(); kill(pid, SIGKILL); break; }
    }
    close(fd[0]);
    if (to) { kill(pid, SIGKILL); hung++; }
    int st; waitpid(pid, &st, 0);
    std::string how = "null";
    if (to) how = "\"timeout\"";
    else if (flood) how = "\"no end of output\"";
    else if (WIFSIGNALED(st)) how = "\"signal " + std::to_string(WTERMSIG(st)) + "\"";
    else if (WEXITSTATUS(st)) how = "\"exit " + std::to_string(WEXITSTATUS(st)) + "\"";
    // a crash inside a write cannot split an event: events are written whole
    printf("{\"ev\":[%s],\"crash\":%s}\n", out.c_str(), how.c_str());
  }
  return 0;
}
