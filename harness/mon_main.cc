#include "mon.h"
#include "gear/GEAR.h"
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/time.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/lsan_interface.h>
#include <sys/wait.h>
#endif

namespace mon {

std::vector<Workload>& registry() { static std::vector<Workload> r; return r; }

static std::map<std::string, long> g_events;
static std::set<uint64_t> g_states;
static std::map<std::string, long> g_inconcl;
static std::map<std::string, int> g_vcount;
static FILE* g_out = nullptr;
static std::vector<std::string> g_samples;
static volatile long g_cur = -1;

static std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
std::string fmt(const char* f, ...) {
  char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
static std::string vfmt(const char* f, va_list a) { char b[4096]; vsnprintf(b, sizeof b, f, a); return b; }

void Ctx::ev(const std::string& n, long k) { g_events[workload + "/" + n] += k; }
void Ctx::state(uint64_t h) { g_states.insert(mix(h ^ hstr(workload))); }
void Ctx::inconclusive(const std::string& why) { g_inconcl[workload + "/" + why]++; }
void Ctx::violation(const std::string& oracle, const std::string& detail) {
  std::string key = workload + "/" + oracle;
  int n = ++g_vcount[key];
  if (n > 3 && !verbose) return;
  fprintf(g_out, "{\"t\":\"v\",\"key\":\"%s\",\"case\":%ld,\"detail\":\"%s\",\"describe\":\"%s\"}\n", jesc(key).c_str(), idx,
          jesc(detail).c_str(), jesc(describe.substr(0, 3000)).c_str());
  fflush(g_out);
}
bool Ctx::chk(bool cond, const std::string& oracle, const char* f, ...) {
  ev(oracle);
  if (cond) return true;
  va_list a; va_start(a, f); std::string d = vfmt(f, a); va_end(a);
  violation(oracle, d);
  return false;
}
bool Ctx::near(double got, double want, double tol, const std::string& oracle, const char* f, ...) {
  ev(oracle);
  if (got == want || std::fabs(got - want) <= tol * (1 + std::fabs(want)) || (std::isnan(got) && std::isnan(want))) return true;
  va_list a; va_start(a, f); std::string d = vfmt(f, a); va_end(a);
  violation(oracle, fmt("got %.17g want %.17g ", got, want) + d);
  return false;
}
bool Ctx::eq(const std::string& got, const std::string& want, const std::string& oracle) {
  ev(oracle);
  if (got == want) return true;
  violation(oracle, "got \"" + got.substr(0, 1500) + "\" want \"" + want.substr(0, 1500) + "\"");
  return false;
}
bool Ctx::eqi(long got, long want, const std::string& oracle, const char* f, ...) {
  ev(oracle);
  if (got == want) return true;
  va_list a; va_start(a, f); std::string d = vfmt(f, a); va_end(a);
  violation(oracle, fmt("got %ld want %ld ", got, want) + d);
  return false;
}

std::string thrown(const std::function<void()>& f) {
  try { f(); return ""; }
  catch (const gear::ParseException&) { return "gear::ParseException"; }
  catch (const gear::UnknownParameterException&) { return "gear::UnknownParameterException"; }
  catch (const gear::NotImplementedException&) { return "gear::NotImplementedException"; }
  catch (const gear::OutsideGeometryException&) { return "gear::OutsideGeometryException"; }
  catch (const gear::Exception&) { return "gear::Exception"; }
  catch (const std::out_of_range&) { return "std::out_of_range"; }
  catch (const std::exception& e) { return std::string("std::exception:") + e.what(); }
  catch (...) { return "unknown"; }
}
bool isGearException(const std::string& k) { return k.compare(0, 6, "gear::") == 0; }

}  // namespace mon

using namespace mon;

static void onTimer(int) {
  char b[128];
  int n = snprintf(b, sizeof b, "\nMON-HANG case %ld exceeded its CPU budget\n", (long)g_cur);
  ssize_t r = write(2, b, n); (void)r;
  _exit(77);
}

#if defined(__SANITIZE_ADDRESS__)
// the scan needs ptrace: find out in a child process that leaks on purpose whether it works
static bool leakScanWorks() {
  fflush(nullptr); pid_t p = fork(); if (p < 0) return false;
  if (p == 0) {
    int dn = open("/dev/null", O_WRONLY); dup2(dn, 2);
    { void* volatile x = malloc(1234); x = nullptr; (void)x; char clear[4096]; memset(clear, 0, sizeof clear); __asm__ volatile("" : : "r"(clear) : "memory"); }
    _exit(__lsan_do_recoverable_leak_check() ? 0 : 1);
  }
  int st = 0; waitpid(p, &st, 0); return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
// the cases of a batch again, with a scan after each: the first one that leaks
static long leakyCase(const char* exe, const std::string& prop, const std::string& wl, uint64_t seed, long from, long to, const std::string& scratch, bool thorough) {
  std::string out = scratch + "/leaky.out"; fflush(nullptr); pid_t p = fork(); if (p < 0) return -1;
  if (p == 0) {
    int dn = open("/dev/null", O_WRONLY); dup2(dn, 2);
    std::string s = std::to_string(seed), f = std::to_string(from), t = std::to_string(to);
    execl(exe, exe, "--prop", prop.c_str(), "--workload", wl.c_str(), "--seed", s.c_str(), "--from", f.c_str(), "--to", t.c_str(), "--out", out.c_str(), "--scratch", scratch.c_str(), "--cpu", "60", "--leakstep", "1", thorough ? "--thorough" : (char*)nullptr, (char*)nullptr);
    _exit(3);
  }
  int st = 0; waitpid(p, &st, 0); long r = -1; char line[1 << 16];
  if (FILE* g = fopen(out.c_str(), "r")) {
    while (fgets(line, sizeof line, g)) if (strstr(line, "\"t\":\"v\"") && strstr(line, "/leak\"")) if (char* q = strstr(line, "\"case\":")) { r = atol(q + 7); break; }
    fclose(g);
  }
  unlink(out.c_str()); return r;
}
#endif
int main(int argc, char** argv) {
  std::string prop, wl, out = "/dev/stdout", status, scratch = ".";
  uint64_t seed = 1; long from = 0, to = 0; int cpu = 30; bool thorough = false, verbose = false, list = false;
  long leakStep = 40;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--list") list = true;
    else if (a == "--prop") prop = nx();
    else if (a == "--workload") wl = nx();
    else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--from") from = atol(nx().c_str());
    else if (a == "--to") to = atol(nx().c_str());
    else if (a == "--out") out = nx();
    else if (a == "--status") status = nx();
    else if (a == "--scratch") scratch = nx();
    else if (a == "--cpu") cpu = atoi(nx().c_str());
    else if (a == "--thorough") thorough = true;
    else if (a == "--verbose") verbose = true;
    else if (a == "--leakstep") leakStep = atol(nx().c_str());
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
  }
  if (list) {
    for (auto& w : registry())
      if (prop.empty() || w.prop == prop) printf("%s %s %ld %ld\n", w.prop.c_str(), w.name.c_str(), w.quick, w.thorough);
    return 0;
  }
  const Workload* W = nullptr;
  for (auto& w : registry()) if (w.prop == prop && w.name == wl) W = &w;
  if (!W) { fprintf(stderr, "no workload %s/%s\n", prop.c_str(), wl.c_str()); return 2; }
  g_out = fopen(out.c_str(), "w");
  if (!g_out) { perror("out"); return 2; }
  // the library prints warnings to stdout: not part of the observation
  if (!verbose) { int dn = open("/dev/null", O_WRONLY); if (out != "/dev/stdout") dup2(dn, 1); close(dn); }
  int sfd = -1;
  if (!status.empty()) sfd = open(status.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
  signal(SIGPROF, onTimer);

  long batch = from;        // cases since the last scan for leaks
#if defined(__SANITIZE_ADDRESS__)
  bool leaks = (W->flags & LEAKCHECK) != 0;
  if (leaks && !leakScanWorks()) { leaks = false; g_inconcl[wl + "/leak-scan-unavailable"]++; fprintf(stderr, "MON: no leak scan here\n"); }
#endif
  for (long i = from; i < to; ++i) {
    g_cur = i;
    if (sfd >= 0) { char b[32]; int n = snprintf(b, sizeof b, "%-20ld\n", i); ssize_t r = pwrite(sfd, b, n, 0); (void)r; }
    struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = cpu; setitimer(ITIMER_PROF, &tv, nullptr);
    Ctx c(mix(mix(seed * 1000003ULL + hstr(prop)) ^ mix(hstr(wl) + (uint64_t)i * 7919ULL)));
    c.idx = i; c.workload = wl; c.thorough = thorough; c.verbose = verbose; c.scratch = scratch;
    try { W->fn(c); }
    catch (const std::exception& e) {
      std::string w = e.what();
      std::string k = dynamic_cast<const gear::Exception*>(&e) ? "gear" : "std";
      c.violation("unexpected-exception-" + k, w);
    }
    catch (...) { c.violation("unexpected-exception-unknown", ""); }
    g_events[wl + "/cases"]++;
    if (g_samples.size() < 2 && !c.describe.empty()) g_samples.push_back(fmt("%s#%ld: ", wl.c_str(), i) + c.describe.substr(0, 600));
#if defined(__SANITIZE_ADDRESS__)
    if (leaks && (i - batch + 1 >= leakStep || i + 1 == to)) {
      g_events[wl + "/leak-scan"]++;
      if (__lsan_do_recoverable_leak_check()) {
        struct itimerval off; memset(&off, 0, sizeof off); setitimer(ITIMER_PROF, &off, nullptr);
        long who = i > batch ? leakyCase(argv[0], prop, wl, seed, batch, i + 1, scratch, thorough) : i;
        if (who >= 0 && who != i) c.describe = "";
        c.idx = who < 0 ? i : who; g_cur = c.idx;
        c.violation("leak", who < 0 ? fmt("LeakSanitizer reported unreachable allocations after cases %ld to %ld", batch, i) : std::string("LeakSanitizer reported unreachable allocations after the case"));
        leaks = false;      // all later scans would report the same again
        if (leakStep == 1) break;
      }
      batch = i + 1;
    }
#endif
  }
  struct itimerval tv; memset(&tv, 0, sizeof tv); setitimer(ITIMER_PROF, &tv, nullptr);
  for (auto& e : g_events) fprintf(g_out, "{\"t\":\"e\",\"k\":\"%s\",\"n\":%ld}\n", jesc(e.first).c_str(), e.second);
  for (auto& e : g_inconcl) fprintf(g_out, "{\"t\":\"i\",\"k\":\"%s\",\"n\":%ld}\n", jesc(e.first).c_str(), e.second);
  for (auto& s : g_samples) fprintf(g_out, "{\"t\":\"s\",\"x\":\"%s\"}\n", jesc(s).c_str());
  for (auto& v : g_vcount) fprintf(g_out, "{\"t\":\"vc\",\"k\":\"%s\",\"n\":%d}\n", jesc(v.first).c_str(), v.second);
  fprintf(g_out, "{\"t\":\"st\",\"h\":[");
  bool first = true; long cnt = 0;
  for (auto h : g_states) { if (++cnt > 100000) break; fprintf(g_out, "%s%llu", first ? "" : ",", (unsigned long long)(h >> 12)); first = false; }
  fprintf(g_out, "]}\n{\"t\":\"done\"}\n");
  fclose(g_out);
  if (sfd >= 0) close(sfd);
  fflush(stdout);
  _exit(0);
}
