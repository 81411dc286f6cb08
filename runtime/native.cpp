// Native implementation of the harness interface: replays a recorded assignment against the real code.
#include "sv.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <unistd.h>
#include <sys/wait.h>
#include <ctime>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define UNPOISON(s) __msan_unpoison_string(s)
#endif
#endif
#ifndef UNPOISON
#define UNPOISON(s) (void)(s)
#endif
// plain C containers only: libstdc++ is not instrumented, so its strings would upset MemorySanitizer
struct Val { char* name; char* value; Val* next; };
struct Cnt { char* name; int n; Cnt* next; };
static Val* g_vals; static Cnt* g_cnts;
static double g_tol = 1e-7;
static bool& failed() { static bool f = false; return f; }
static const char* get(const char* n) {
    UNPOISON(n);
    Cnt* c = g_cnts; while (c && strcmp(c->name, n)) c = c->next;
    if (!c) { c = (Cnt*)calloc(1, sizeof(Cnt)); c->name = strdup(n); c->next = g_cnts; g_cnts = c; }
    char buf[512]; memset(buf, 0, sizeof buf);
    if (++c->n > 1) snprintf(buf, sizeof buf, "%s#%d", n, c->n); else snprintf(buf, sizeof buf, "%s", n);
    for (Val* v = g_vals; v; v = v->next) if (!strcmp(v->name, buf)) return v->value;
    return "0";
}
// Search mode: turns a counterexample of the abstraction (uninterpreted sine, cosine, ...) into one of the real code by trying
// values around the solver's model; every value drawn is recorded so that the run can be repeated.
static bool g_search; static uint64_t g_rng; static double g_keep; static Val* g_drawn;
static double rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return (g_rng >> 11) * (1.0 / 9007199254740992.0); }
static void drawn(const char* n, const char* v) {
    int k = 0; for (Cnt* c = g_cnts; c; c = c->next) if (!strcmp(c->name, n)) k = c->n;
    char buf[512]; if (k > 1) snprintf(buf, sizeof buf, "%s#%d", n, k); else snprintf(buf, sizeof buf, "%s", n);
    Val* d = (Val*)calloc(1, sizeof(Val)); d->name = strdup(buf); d->value = strdup(v); d->next = g_drawn; g_drawn = d;
}
static double pick(const char* n, double lo, double hi, double model) {
    double v = model;
    if (rnd() >= g_keep) { const double s = rnd(); v = s < 0.1 ? 0 : s < 0.15 ? lo : s < 0.2 ? hi : s < 0.35 ? floor(lo + rnd() * (hi - lo + 1)) : s < 0.6 ? (rnd() * 2 - 1) : lo + rnd() * (hi - lo); }
    v = v < lo ? lo : v > hi ? hi : v;
    char b[64]; snprintf(b, sizeof b, "%.17g", v); drawn(n, b); return strtod(b, nullptr);
}
static long long picki(const char* n, long long lo, long long hi, long long model) {
    long long v = model;
    if (rnd() >= g_keep) v = lo + (long long)(rnd() * ((double)hi - (double)lo + 1));
    v = v < lo ? lo : v > hi ? hi : v;
    char b[64]; snprintf(b, sizeof b, "%lld", v); drawn(n, b); return v;
}
static double clampd(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
extern "C" {
double sv_real(const char* n, double lo, double hi) { const double m = strtod(get(n), nullptr); return g_search ? pick(n, lo, hi, m) : clampd(m, lo, hi); }
float sv_realf(const char* n, float lo, float hi) { const double m = strtod(get(n), nullptr); return g_search ? (float)pick(n, lo, hi, m) : (float)clampd(m, lo, hi); }
#define INT(T, name, conv) T name(const char* n, T lo, T hi) { const T m = (T)conv(get(n), nullptr, 10); return g_search ? (T)picki(n, (long long)lo, (long long)hi, (long long)m) : m; }
INT(int32_t, sv_i32, strtoll) INT(int64_t, sv_i64, strtoll) INT(uint32_t, sv_u32, strtoull) INT(uint64_t, sv_u64, strtoull) INT(uint16_t, sv_u16, strtoull) INT(uint8_t, sv_u8, strtoull)
bool sv_bool(const char* n) { const long long m = strtoll(get(n), nullptr, 10); return g_search ? picki(n, 0, 1, m) != 0 : m != 0; }
int sv_choice(const char* n, int k) { const int m = (int)strtoll(get(n), nullptr, 10); return g_search ? (int)picki(n, 0, k - 1, m) : m; }
void sv_square(double, double r) { if (g_search && r < 0) _exit(78); }
static void finish() {
    if (g_search) for (Val* d = g_drawn; d; d = d->next) printf("DRAWN\t%s\t%s\n", d->name, d->value);
    fflush(stdout); fflush(stderr); _exit(failed() ? 77 : 0); }
void sv_assume(bool c) { if (!c) { if (!g_search) { printf("assumption not met\n"); fflush(stdout); } _exit(failed() ? 77 : 78); } }
void sv_check(bool c, const char* m) { if (!c) { printf("CHECK FAILED: %s\n", m); failed() = true; finish(); } }
void sv_eq(double a, double b, const char* m) {
    if (std::isnan(a) && std::isnan(b)) return;
    if (a == b) return;
    if (std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= (g_search && g_tol < 1e-4 ? 1e-3 : g_search ? 10 * g_tol : g_tol) * (1 + std::fabs(a) + std::fabs(b))) return;
    printf("CHECK FAILED: %s: got %.17g expected %.17g\n", m, a, b); failed() = true; finish();
}
void sv_tol(double t) { g_tol = t; }
void sv_fail(const char* m) { printf("CHECK FAILED: %s\n", m); failed() = true; finish(); }
void sv_cover(const char*) {}
bool sv_split(bool c) { return c; }
void sv_print(const char* l, double v) { printf("%s = %.17g\n", l, v); }
int sv_symbolic() { return 0; }
void SV_ENTRY();
}
int main(int argc, char** argv) {
    FILE* f = fopen(argv[1], "r"); if (!f) return 2;
    static char line[4096];
    while (fgets(line, sizeof line, f)) {
        line[strcspn(line, "\n")] = 0; char* t = strchr(line, '\t'); if (!t) continue;
        *t = 0; Val* v = (Val*)calloc(1, sizeof(Val)); v->name = strdup(line); v->value = strdup(t + 1); v->next = g_vals; g_vals = v;
    }
    fclose(f);
    if (argc > 3) {  // native FILE search SECONDS
        g_search = true; const time_t end = time(nullptr) + atoi(argv[3]);
        for (int i = 1; i < 200000 && time(nullptr) < end; ++i) {
            fflush(stdout); const pid_t p = fork();
            if (!p) { g_rng = 88172645463325252ull + 0x9E3779B97F4A7C15ull * i; for (int k = 0; k < 8; ++k) rnd(); g_keep = i % 3 == 0 ? 0 : i % 3 == 1 ? 0.5 : 0.9; if (!freopen("/dev/null", "w", stderr)) _exit(3); try { SV_ENTRY(); } catch (...) { _exit(79); } _exit(0); }
            int st = 0; waitpid(p, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 77) return 77;
        }
        return 0;
    }
    try { SV_ENTRY(); }
    catch (std::exception& e) { printf("UNCAUGHT EXCEPTION: %s\n", e.what()); fflush(stdout); _exit(79); }
    printf("all checks passed\n"); fflush(stdout); _exit(0);
}
