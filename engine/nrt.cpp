// Native runtime: runs one harness on concrete inputs against the ordinarily compiled code (counterexample replay).
#include "sv.h"
#include <cstdarg>
#include <cstring>
#include <map>
#include <signal.h>
#include <unistd.h>
namespace sv {
static std::map<std::string, std::string> in; static std::map<std::string, int> nn; static int g_tier = 0;
static std::string uniq(const char* n) { int k = nn[n]++; return k ? std::string(n) + "#" + std::to_string(k) : n; }
std::string idx(const char* n, int i) { return std::string(n) + std::to_string(i); }
std::string idx(const char* n, int i, int j) { return std::string(n) + std::to_string(i) + "_" + std::to_string(j); }
std::string idx(const char* n, int i, int j, int k) { return idx(n, i, j) + "_" + std::to_string(k); }
float f32(const char* name, double lo, double, int) { auto it = in.find(uniq(name)); float v = it == in.end() ? (float) lo : strtof(it->second.c_str(), 0); if (std::isnan(v)) v = NAN; printf("input %s = %.9g\n", name, v); return v; }
int integer(const char* name, int lo, int) { auto it = in.find(uniq(name)); int v = it == in.end() ? lo : atoi(it->second.c_str()); printf("input %s = %d\n", name, v); return v; }
bool flag(const char* n) { return integer(n, 0, 1) != 0; }
B mk(bool b) { return {b}; }
B le(double a, double b) { return mk(a <= b); } B lt(double a, double b) { return mk(a < b); } B eq(double a, double b) { return mk(a == b); }
B close(double a, double b, double tol) { if (!std::isfinite(a) || !std::isfinite(b)) return mk((std::isnan(a) && std::isnan(b)) || a == b); return mk(fabs(a - b) <= tol); }
B same(double a, double b) { return close(a, b, 0); }
B land(B a, B b) { return mk(a.id && b.id); } B lor(B a, B b) { return mk(a.id || b.id); } B lnot(B a) { return mk(!a.id); }
bool symbolic(double) { return false; } bool isnum(double a) { return std::isfinite(a); }
double ite(B c, double a, double b) { return c.id ? a : b; } double dmin(double a, double b) { return a <= b ? a : b; } double dmax(double a, double b) { return a <= b ? b : a; } double dabs(double a) { return fabs(a); }
bool decide(B b) { return b.id; }
void stop_path() { printf("STOPPED\n"); fflush(stdout); _exit(0); }
void assume(B b) { if (!b.id) { printf("ASSUME-FAILED\n"); fflush(stdout); _exit(0); } }
void check(B b, const char* label) { if (!b.id) { printf("CHECK-FAILED %s\n", label); fflush(stdout); _exit(10); } }
void exact_division(bool) {} void exp_pairs(bool) {} void merge(bool) {} bool symbolic() { return false; } int tier() { return g_tier; }
void omp(int, bool) {} void omp_log(bool) {} std::string omp_conflict() { return ""; } long omp_regions() { return 1; }
void note(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); printf("\n"); }
struct HD { const char* name; void (*f)(); };
static std::vector<HD>& regs() { static std::vector<HD> r; return r; }
Reg::Reg(const char* n, void (*f)(), int, const char*) { regs().push_back({n, f}); }
}
static void crash(int) { const char m[] = "CHECK-FAILED crash\n"; (void)!write(1, m, sizeof m - 1); _exit(10); }
int main(int argc, char** argv) {
    if (argc < 2) return 4;
    FILE* f = fopen(argv[1], "r"); if (!f) return 4; char a[256], b[64], buf[512]; std::string h; int t;
    while (fgets(buf, sizeof buf, f)) { if (buf[0] == '#') continue; if (sscanf(buf, "harness %255s", a) == 1) { h = a; continue; } if (sscanf(buf, "tier %d", &t) == 1) { sv::g_tier = t; continue; } if (sscanf(buf, "%255s %63s", a, b) == 2) sv::in[a] = b; }
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE}) signal(s, crash);
    for (auto& x : sv::regs()) if (h == x.name) {
        try { x.f(); printf("HELD\n"); return 0; }
        catch (const std::exception& e) { printf("exception: %s\n", e.what()); printf("CHECK-FAILED uncaught exception\n"); return 10; }
        catch (...) { printf("CHECK-FAILED uncaught exception\n"); return 10; }
    }
    return 4;
}
