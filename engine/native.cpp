// Native runtime for contract harnesses: replays a counterexample, or searches for a failing
// input by running the same contract on seeded random inputs.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <ctime>
#include <csetjmp>
#include <csignal>
#include <dlfcn.h>
#include <unistd.h>
#include <exception>
#include <map>
#include <random>
#include <string>
#include <vector>
static std::map<std::string, std::string>* inputs;
static std::map<std::string, unsigned>* counts;
static std::vector<std::pair<std::string, std::string>>* logv;
static bool randomMode = false;
static std::mt19937_64* rng;
static jmp_buf jb;
static const char* curEntry = "";
static unsigned long asserts = 0, completed = 0;
static std::string uniq(const char* n) { unsigned k = (*counts)[n]++; return k ? std::string(n) + "#" + std::to_string(k) : std::string(n); }
static void note(const std::string& n, const std::string& v) { logv->push_back({n, v}); }
static void dump(FILE* f, const char* kind, const char* msg) {
    fprintf(f, "FAIL\t%s\t%s\t%s\n", curEntry, kind, msg);
    for (auto& p : *logv) fprintf(f, "INPUT\t%s\t%s\n", p.first.c_str(), p.second.c_str());
    fflush(f);
}
static uint64_t rnd() { return (*rng)(); }
extern "C" {
uint64_t __vc_u(const char* name, unsigned bits) {
    std::string n = uniq(name);
    uint64_t m = bits >= 64 ? ~0ull : ((1ull << bits) - 1), v = 0;
    if (randomMode) {
        switch (rnd() % 6) {
        case 0: v = rnd() % 8; break;
        case 1: v = (uint64_t)(-(int64_t)(rnd() % 8)); break;
        case 2: v = 1ull << (rnd() % bits); break;
        case 3: v = (1ull << (rnd() % bits)) - 1; break;
        case 4: v = rnd() >> (rnd() % bits); break;
        default: v = rnd();
        }
        v &= m;
    } else if (inputs->count(n)) v = strtoull((*inputs)[n].c_str(), 0, 10) & m;
    note(n, std::to_string(v));
    return v;
}
void __vc_assume(bool c);
uint64_t __vc_range(const char* name, unsigned bits, int64_t lo, int64_t hi) {
    if (!randomMode) {
        uint64_t v = __vc_u(name, bits);
        int64_t s = bits < 64 ? (int64_t)(v << (64 - bits)) >> (64 - bits) : (int64_t)v;
        __vc_assume(lo <= s && s <= hi);
        return v;
    }
    std::string n = uniq(name);
    uint64_t span = (uint64_t)(hi - lo), v;
    switch (rnd() % 4) {
    case 0: v = (uint64_t)lo + (span == ~0ull ? rnd() : rnd() % (span + 1)); break;
    case 1: v = (rnd() & 1) ? (uint64_t)lo : (uint64_t)hi; break;
    case 2: { int64_t z = (int64_t)(rnd() % 9) - 4; v = (uint64_t)(z < lo ? lo : z > hi ? hi : z); break; }
    default: { int64_t z = (int64_t)(1ull << (rnd() % 62)); if (rnd() & 1) z = -z; v = (uint64_t)(z < lo || z > hi ? lo + (int64_t)(rnd() % (span == ~0ull ? ~0ull : span + 1)) : z); }
    }
    v &= bits >= 64 ? ~0ull : ((1ull << bits) - 1);
    note(n, std::to_string(v));
    return v;
}
double __vc_d(const char* name) {
    std::string n = uniq(name);
    double v = 0;
    if (randomMode) {
        switch (rnd() % 4) {
        case 0: v = (double)((int64_t)(rnd() % 17) - 8); break;
        case 1: v = ((double)((int64_t)(rnd() % 129) - 64)) / 16.0; break;
        case 2: v = ((double)((int64_t)(rnd() % 4097) - 2048)) / 1024.0; break;
        default: v = ((double)(rnd() % 2000001) - 1000000.0) / 300000.0;
        }
        char b[64]; snprintf(b, 64, "%.17g", v); note(n, b);
        return v;
    }
    if (inputs->count(n)) {
        const std::string& s = (*inputs)[n];
        if (s.compare(0, 5, "bits:") == 0) { uint64_t b = strtoull(s.c_str() + 5, 0, 10); memcpy(&v, &b, 8); }
        else v = strtod(s.c_str(), 0);
    }
    char b[64]; snprintf(b, 64, "%.17g", v); note(n, b);
    return v;
}
unsigned __vc_choose(const char* name, unsigned k) {
    std::string n = uniq(name);
    unsigned v = 0;
    if (randomMode) v = k ? (unsigned)(rnd() % k) : 0;
    else if (inputs->count(n)) v = (unsigned)strtoul((*inputs)[n].c_str(), 0, 10);
    note(n, std::to_string(v));
    return v;
}
void __vc_assume(bool c) { if (!c) longjmp(jb, 1); }
void __vc_assert(bool c, const char* msg) { ++asserts; if (!c) { dump(stdout, "contract", msg); _exit(3); } }
void __vc_cover(const char*) {}
bool __vc_eq(double a, double b) { if (std::isnan(a) || std::isnan(b)) return false; return std::fabs(a - b) <= (randomMode ? 1e-6 : 1e-8) * std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b))); }
uint64_t __vc_concretize(uint64_t v) { return v; }
int __vc_symbolic() { return 0; }
void __vc_use_contract(const char*) {}
void __vc_no_contract(const char*) {}
}
extern "C" void __vc_missing() { printf("UNSUPPORTED library call\n"); fflush(stdout); _exit(5); }
static void onsig(int s) { char m[64]; snprintf(m, 64, "signal %d", s); dump(stdout, s == SIGALRM ? "timeout" : "crash", m); _exit(3); }
int main(int argc, char** argv) {
    // usage: prog entry replay FILE | prog entry random SEED COUNT SECONDS
    inputs = new std::map<std::string, std::string>; counts = new std::map<std::string, unsigned>; logv = new std::vector<std::pair<std::string, std::string>>;
    curEntry = argv[1];
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, (std::string("vc_main_") + argv[1]).c_str());
    if (!fn) { fprintf(stderr, "no entry\n"); return 9; }
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, onsig);
    if (!strcmp(argv[2], "replay")) {
        FILE* f = fopen(argv[3], "r"); char line[4096];
        while (f && fgets(line, sizeof line, f)) {
            char* t = strchr(line, '\t'); if (!t) continue; *t = 0; char* e = strchr(t + 1, '\n'); if (e) *e = 0;
            (*inputs)[line] = t + 1;
        }
        alarm(60);
        int j = setjmp(jb);
        if (j == 0) { try { fn(); } catch (std::exception& e) { dump(stdout, "uncaught exception", e.what()); _exit(3); } catch (...) { dump(stdout, "uncaught exception", "unknown"); _exit(3); } printf("PASS asserts=%lu\n", asserts); fflush(stdout); _exit(0); }
        printf("ASSUMPTION-NOT-MET\n"); fflush(stdout); _exit(4);
    }
    randomMode = true;
    unsigned long seed = strtoul(argv[3], 0, 10), count = strtoul(argv[4], 0, 10); double secs = atof(argv[5]);
    timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    volatile unsigned long runs = 0;
    for (volatile unsigned long i = 0; i < count; i = i + 1) {
        timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
        if ((t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec) > secs) break;
        delete rng; rng = new std::mt19937_64(seed * 1000003ull + i);
        counts->clear(); logv->clear();
        alarm(30);
        if (setjmp(jb) == 0) { try { fn(); completed = completed + 1; } catch (std::exception& e) { dump(stdout, "uncaught exception", e.what()); _exit(3); } catch (...) { dump(stdout, "uncaught exception", "unknown"); _exit(3); } }
        runs = runs + 1;
    }
    printf("PASS runs=%lu completed=%lu asserts=%lu\n", (unsigned long)runs, completed, asserts); fflush(stdout);
    _exit(0);
}

extern "C" __attribute__((weak)) int clGetPlatformIDs(unsigned, void*, unsigned* n) { if (n) *n = 0; return -1001; }
