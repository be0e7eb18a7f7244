// native replay: run harnesses of the real (uninstrumented) code on concrete models
#include "sx.h"
#include <map>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <fstream>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <csignal>
#include <sys/wait.h>
#include <exception>
static std::map<std::string, std::string> model; static uint64_t obs = 1469598103934665603ull, checks = 0; static int failfd = 1;
static std::vector<std::pair<std::string, void (*)()>> &regs() { static std::vector<std::pair<std::string, void (*)()>> r; return r; }
static void say(const std::string &s) { if (write(failfd, s.data(), s.size()) < 0) {} }
static void done(const char *how) { char b[128]; snprintf(b, sizeof b, "%s %016lx %lu\n", how, (unsigned long)obs, (unsigned long)checks); say(b); _exit(0); }
extern "C" {
int64_t sx_int(const char *n, int64_t lo, int64_t hi) { int64_t v; auto it = model.find(n); if (it != model.end()) v = strtoll(it->second.c_str(), 0, 10); else v = lo <= 0 && hi >= 0 ? 0 : lo > 0 ? lo : hi; if (v < lo) v = lo; if (v > hi) v = hi; return v; }
void sx_mpz(mpz_ptr z, const char *n, const char *lo, const char *hi) { mpz_t l, h; mpz_init_set_str(l, lo, 10); mpz_init_set_str(h, hi, 10); auto it = model.find(n); if (it != model.end()) mpz_set_str(z, it->second.c_str(), 10); else if (mpz_sgn(l) <= 0 && mpz_sgn(h) >= 0) mpz_set_ui(z, 0); else mpz_set(z, mpz_sgn(l) > 0 ? l : h); if (mpz_cmp(z, l) < 0) mpz_set(z, l); if (mpz_cmp(z, h) > 0) mpz_set(z, h); mpz_clear(l); mpz_clear(h); }
int sx_choice(const char *n, int k) { return (int)sx_int(n, 0, k - 1); }
void sx_assume(bool c) { if (!c) done("assume"); }
void sx_check(bool c, const char *m) { if (!c) { say(std::string("FAIL ") + m + "\n"); done("violation"); } checks++; }
void sx_check_eqz(mpz_srcptr a, mpz_srcptr b, const char *m) { sx_check(mpz_cmp(a, b) == 0, m); }
bool sx_eqz(mpz_srcptr a, mpz_srcptr b) { return mpz_cmp(a, b) == 0; }
void sx_reach(const char *) {} int64_t sx_value(int64_t v) { return v; } int sx_symbolic(void) { return 0; } void sx_opt(const char *, int64_t) {}
void sx_obs(int64_t v) { obs = (obs ^ (uint64_t)v) * 1099511628211ull; }
void sx_register(const char *n, void (*f)(void)) { regs().push_back({n, f}); }
}
static void onSig(int s) { say(std::string("FAIL ") + (s == SIGALRM ? "does not terminate within the time limit" : strsignal(s)) + "\n"); done(s == SIGALRM ? "hang" : "crash"); }
static void onTerm() { say("FAIL uncaught exception\n"); done("crash"); }
static void runOne(void (*f)(), unsigned lim) {
  for (int g : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM}) signal(g, onSig); std::set_terminate(onTerm); alarm(lim); failfd = dup(1); if (!freopen("/dev/null", "w", stdout)) {} if (!freopen("/dev/null", "w", stderr)) {}
  try { f(); } catch (...) { onTerm(); } done("ok");
}
// usage: replay -h harness -m "a=1 b=2"        (one model; exit 0 = property held, 1 = violated)
//        replay -h harness -f modelsfile       (one model per line; prints one result line each)
int main(int argc, char **argv) {
  std::string want, ms, file; unsigned lim = 20; bool haveM = false;
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; if (a == "-h") want = argv[++i]; else if (a == "-m") { ms = argv[++i]; haveM = true; } else if (a == "-f") file = argv[++i]; else if (a == "-l") lim = atoi(argv[++i]); }
  void (*fn)() = nullptr; for (auto &r : regs()) if (r.first == want) fn = r.second; if (!fn) { fprintf(stderr, "no harness\n"); return 2; }
  auto parse = [&](const std::string &s) { model.clear(); std::istringstream is(s); std::string t; while (is >> t) { size_t e = t.rfind('='); model[t.substr(0, e)] = t.substr(e + 1); } };
  std::vector<std::string> lines; if (haveM) lines.push_back(ms); else { std::ifstream in(file); std::string l; while (std::getline(in, l)) lines.push_back(l); }
  int rc = 0;
  for (auto &l : lines) { parse(l); fflush(stdout); int pf[2]; if (pipe(pf)) return 2; pid_t p = fork(); if (!p) { close(pf[0]); dup2(pf[1], 1); runOne(fn, lim); } close(pf[1]); std::string o; char b[4096]; ssize_t n; while ((n = read(pf[0], b, sizeof b)) > 0) o.append(b, n); close(pf[0]); int st; waitpid(p, &st, 0); if (o.find('\n') == std::string::npos) o += "crash 0 0\n"; bool bad = o.compare(0, 3, "ok ") != 0 && o.compare(0, 7, "assume ") != 0; if (bad) rc = 1; for (auto &c : o) if (c == '\n') c = '\t'; o.back() = '\n'; fputs(o.c_str(), stdout); }
  return rc;
}
