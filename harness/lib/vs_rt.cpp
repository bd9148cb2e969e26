// Native runtime of the contract harnesses: replays a solver counterexample (--replay FILE) against the real code, or
// samples inputs (--random N SEED SECS; labelled bounded, never counted as proof).
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csetjmp>
#include <map>
#include <string>
#include <vector>
#include <random>
#include <limits>
#include <ctime>
// not std::chrono: contracts may replace its clocks
static double vs_now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }
#include <fstream>
#include <sstream>
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <cstdint>
namespace {
struct Shared { char log[1 << 20]; std::size_t n; long iters, accepted; char fail[4096]; int failed; long covers; std::uint64_t distinct; int stub; };
Shared *S = nullptr;
bool replay = false;
std::vector<std::pair<std::string, std::string>> rv; std::size_t rpos = 0;
std::mt19937_64 rng;
sigjmp_buf jb;
std::vector<double> recentF; std::vector<std::int64_t> recentI;
void logv(const char *n, const char *t, const std::string &v) {
  std::string s = std::string(n) + " " + t + " " + v + "\n";
  if (S->n + s.size() + 1 < sizeof S->log) { std::memcpy(S->log + S->n, s.c_str(), s.size() + 1); S->n += s.size(); }
}
std::string nextv(const char *n) {
  // values are consumed in program order; a missing one is 0
  if (rpos < rv.size() && rv[rpos].first == n) return rv[rpos++].second;
  for (std::size_t k = rpos; k < rv.size(); ++k) if (rv[k].first == n) { rpos = k + 1; return rv[k].second; }
  return "0";
}
std::uint64_t R() { return rng(); }
double rndF(bool f32) {
  double v = 0;
  switch (R() % 16) {
    case 0: v = double(std::int64_t(R() % 21) - 10); break;
    case 1: v = double(std::int64_t(R() % 2001) - 1000) / 8; break;
    case 2: v = std::uniform_real_distribution<double>(-1, 1)(rng); break;
    case 3: v = std::uniform_real_distribution<double>(0, 1)(rng); break;
    case 4: v = std::uniform_real_distribution<double>(-100, 100)(rng); break;
    case 5: v = std::uniform_real_distribution<double>(-1e6, 1e6)(rng); break;
    case 6: { std::uint64_t b = R(); std::memcpy(&v, &b, 8); break; }
    case 7: { static const double k[] = {0., -0., 1., -1., 0.5, 2., 1e-10, 1e10, 1e-300, 1e300, 5e-324, 1.7976931348623157e308, -1.7976931348623157e308, INFINITY, -INFINITY, NAN, 1e15, -1e15, 1e100};
      v = k[R() % (sizeof k / sizeof *k)]; break; }
    case 8: v = std::ldexp(std::uniform_real_distribution<double>(-1, 1)(rng), int(R() % 80) - 40); break;
    case 9: v = double(R() % 4); break;
    default:
      if (recentF.empty()) { v = std::uniform_real_distribution<double>(-10, 10)(rng); break; }
      v = recentF[R() % recentF.size()];
      switch (R() % 7) { case 0: break; case 1: v = std::nextafter(v, INFINITY); break; case 2: v = std::nextafter(v, -INFINITY); break; case 3: v += 1; break; case 4: v = -v; break; case 5: v += std::uniform_real_distribution<double>(-1, 1)(rng); break; case 6: v *= 2; break; }
  }
  if (f32) v = float(v);
  recentF.push_back(v); return v;
}
std::uint64_t rndI(int bits, bool sg) {
  std::int64_t v = 0; std::int64_t mx = bits == 64 ? INT64_MAX : (std::int64_t(1) << (bits - (sg ? 1 : 0))) - 1; std::int64_t mn = sg ? -mx - 1 : 0;
  switch (R() % 10) {
    case 0: case 1: case 2: v = std::int64_t(R() % 12) - (sg ? 4 : 0); break;
    case 3: v = std::int64_t(R() % 200) - (sg ? 100 : 0); break;
    case 4: v = (R() & 1) ? mx - std::int64_t(R() % 3) : mn + std::int64_t(R() % 3); break;
    case 5: v = std::int64_t(R()); break;
    case 6: v = std::int64_t(R()) >> (R() % 63); break;
    default: if (recentI.empty()) { v = std::int64_t(R() % 6); break; } v = recentI[R() % recentI.size()] + std::int64_t(R() % 3) - 1;
  }
  recentI.push_back(v); return std::uint64_t(v);
}
template <typename T> T geti(const char *n, const char *t) {
  T v;
  if (replay) { std::string s = nextv(n); v = s[0] == '-' ? T(std::strtoll(s.c_str(), nullptr, 0)) : T(std::strtoull(s.c_str(), nullptr, 0)); }
  else v = T(rndI(sizeof(T) * 8, std::is_signed<T>::value));
  logv(n, t, std::is_signed<T>::value ? std::to_string((long long)v) : std::to_string((unsigned long long)v)); return v;
}
template <typename T> T getf(const char *n, const char *t) {
  T v;
  if (replay) {
    std::string s = nextv(n);
    if (s == "nan") v = NAN;
    else if (s.rfind("0x", 0) == 0) { std::uint64_t b = std::strtoull(s.c_str(), nullptr, 16); if (sizeof(T) == 8) { double d; std::memcpy(&d, &b, 8); v = d; } else { std::uint32_t c = b; float d; std::memcpy(&d, &c, 4); v = d; } }
    else v = std::strtod(s.c_str(), nullptr);
  } else v = rndF(sizeof(T) == 4);
  char buf[64]; std::uint64_t b = 0; std::memcpy(&b, &v, sizeof v); std::snprintf(buf, 64, "0x%llx", (unsigned long long)b);
  logv(n, t, v != v ? "nan" : buf); return v;
}
template <typename T, typename G> T *geta(const char *n, std::size_t k, G g) {
  if (k > 100000) siglongjmp(jb, 2);
  T *p = static_cast<T *>(std::calloc(k ? k : 1, sizeof(T)));
  for (std::size_t i = 0; i < k; ++i) p[i] = g((std::string(n) + "[" + std::to_string(i) + "]").c_str());
  return p;
}
}
extern "C" {
bool vs_bool(const char *n) { bool v = replay ? (nextv(n) != "0") : (R() & 1); logv(n, "i1", v ? "1" : "0"); return v; }
std::int8_t vs_i8(const char *n) { return geti<std::int8_t>(n, "i8"); } std::uint8_t vs_u8(const char *n) { return geti<std::uint8_t>(n, "u8"); }
std::int16_t vs_i16(const char *n) { return geti<std::int16_t>(n, "i16"); } std::uint16_t vs_u16(const char *n) { return geti<std::uint16_t>(n, "u16"); }
std::int32_t vs_i32(const char *n) { return geti<std::int32_t>(n, "i32"); } std::uint32_t vs_u32(const char *n) { return geti<std::uint32_t>(n, "u32"); }
std::int64_t vs_i64(const char *n) { return geti<std::int64_t>(n, "i64"); } std::uint64_t vs_u64(const char *n) { return geti<std::uint64_t>(n, "u64"); }
float vs_f32(const char *n) { return getf<float>(n, "f32"); } double vs_f64(const char *n) { return getf<double>(n, "f64"); }
double *vs_arr_f64(const char *n, std::size_t k) { return geta<double>(n, k, vs_f64); }
float *vs_arr_f32(const char *n, std::size_t k) { return geta<float>(n, k, vs_f32); }
std::int32_t *vs_arr_i32(const char *n, std::size_t k) { return geta<std::int32_t>(n, k, vs_i32); }
std::int64_t *vs_arr_i64(const char *n, std::size_t k) { return geta<std::int64_t>(n, k, vs_i64); }
std::int32_t vs_uf_i32(std::int32_t a, std::int32_t b) { return std::int32_t((std::uint32_t(a) * 2654435761u ^ std::uint32_t(b)) >> 1); }
std::uint64_t vs_choice(const char *n, std::uint64_t k) {
  std::uint64_t v = replay ? std::strtoull(nextv(n).c_str(), nullptr, 0) : R() % k; if (v >= k) v = 0; logv(n, "choice", std::to_string(v)); return v;
}
// a size for a symbolic-length container: the proof leaves it unbounded, the native run keeps it small
std::uint64_t vs_len(const char *n) { std::uint64_t v = replay ? std::strtoull(nextv(n).c_str(), nullptr, 0) : (R() % 4 == 0 ? R() % 40 : R() % 7); logv(n, "u64", std::to_string(v)); return v; }
void vs_assume(bool c) { if (!c) siglongjmp(jb, 2); }
void vs_assert(bool c, const char *l) {
  if (!c) { if (!S->failed) { std::snprintf(S->fail, sizeof S->fail, "%s", l); S->failed = 1; } siglongjmp(jb, 3); }
}
void vs_cover(const char *) { S->covers++; }
bool vs_forall_impl(std::size_t lo, std::size_t hi, bool (*f)(void *, std::size_t), void *c) { for (std::size_t i = lo; i < hi; ++i) if (!f(c, i)) return false; return true; }
bool vs_exists_impl(std::size_t lo, std::size_t hi, bool (*f)(void *, std::size_t), void *c) { for (std::size_t i = lo; i < hi; ++i) if (f(c, i)) return true; return false; }
bool vs_is_symbolic() { return false; }
void vs_block() { siglongjmp(jb, 2); }
void vs_guard(const void *, std::size_t, const int *) {}
void vs_dbg_f64(double) {} void vs_dbg_u64(std::uint64_t) {}
}
// functions that were not linked in (see check.py) end the run without a verdict
extern "C" { extern char vs_stub_begin[] __attribute__((weak)), vs_stub_end[] __attribute__((weak)); }
static void on_segv(int sig, siginfo_t *, void *uc) {
  auto ip = reinterpret_cast<char *>(static_cast<ucontext_t *>(uc)->uc_mcontext.gregs[REG_RIP]);
  if (vs_stub_begin && ((ip >= vs_stub_begin && ip < vs_stub_end) || ip == nullptr)) { S->stub = ip ? 1 + int((ip - vs_stub_begin) / 512) : -1; _exit(99); }
  signal(sig, SIG_DFL); raise(sig);
}
static void run(void (*f)()) {
  int r = sigsetjmp(jb, 0);
  if (r == 0) {
    try { f(); S->accepted++; S->distinct ^= std::hash<std::string>()(std::string(S->log, S->n)); }
    catch (std::exception &e) { if (!S->failed) { std::snprintf(S->fail, sizeof S->fail, "no uncaught exception"); S->failed = 1; logv("#exception", "s", std::string(e.what()).substr(0, 400)); } }
    catch (...) { if (!S->failed) { std::snprintf(S->fail, sizeof S->fail, "no uncaught exception"); S->failed = 1; } }
  }
}
int main(int argc, char **argv) {
  S = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::string entry = argv[1], mode = argv[2];
  void (*f)() = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, entry.c_str()));
  if (!f) { std::fprintf(stderr, "no entry %s\n", entry.c_str()); return 4; }
  long N = 1; double secs = 20; std::uint64_t seed = 1;
  if (mode == "--replay") {
    replay = true; std::ifstream is(argv[3]); std::string line;
    while (std::getline(is, line)) { if (line.empty() || line[0] == '#') continue; std::istringstream ss(line); std::string n, t, v; ss >> n >> t >> v; rv.emplace_back(n, v); }
  } else { N = std::atol(argv[3]); seed = std::strtoull(argv[4], nullptr, 10); secs = std::atof(argv[5]); }
  auto t0 = vs_now();
  pid_t p = fork();
  if (p == 0) {
    static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGILL, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
    if (!std::getenv("VS_VERBOSE")) { (void)!freopen("/dev/null", "w", stdout); (void)!freopen("/dev/null", "w", stderr); }
    for (long i = 0; i < N; ++i) {
      S->n = 0; rng.seed(seed * 1000003 + i); recentF.clear(); recentI.clear(); rpos = 0; S->iters++;
      run(f);
      if (S->failed) _exit(1);
      if ((vs_now() - t0) > secs) break;
    }
    _exit(0);
  }
  int st = 0; bool timedout = false;
  for (;;) {
    if (waitpid(p, &st, WNOHANG) == p) break;
    if ((vs_now() - t0) > secs + 30) { kill(p, SIGKILL); waitpid(p, &st, 0); timedout = true; break; }
    usleep(2000);
  }
  if (!S->failed && WIFSIGNALED(st) && !timedout) { std::snprintf(S->fail, sizeof S->fail, "memory safety / no abnormal termination (signal %d)", WTERMSIG(st)); S->failed = 1; }
  if (!S->failed && timedout) { std::snprintf(S->fail, sizeof S->fail, "terminates"); S->failed = 2; }
  if (S->stub) std::printf("STUB %d\n", S->stub);
  std::printf("iters %ld accepted %ld covers %ld\n", S->iters, S->accepted, S->covers);
  if (S->failed) { std::printf("FAIL %s\n", S->fail); if (mode != "--replay" || std::getenv("VS_VERBOSE")) std::printf("%.*s", int(S->n), S->log); std::fflush(stdout); _exit(S->failed == 2 ? 3 : 1); }
  std::fflush(stdout);
  _exit(S->accepted || mode != "--replay" ? 0 : 77);
}
