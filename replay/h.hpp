// Replay / bounded-search harness: runs the real code on generated inputs and compares with an independent oracle.
// Each section runs in its own child process, so that a crash in one is reported and the others still run.
#pragma once
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <exception>
#include <functional>
#include <iostream>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
namespace h {
inline std::string& cur() { static std::string s; return s; }
inline std::string& curkey() { static std::string s; return s; }
inline unsigned long& cases() { static unsigned long n = 0; return n; }
inline int& fails() { static int n = 0; return n; }
inline unsigned& per_case() { static unsigned n = 20; return n; }
inline bool thorough() { const char* t = getenv("H_TIER"); return t && !strcmp(t, "thorough"); }
inline uint64_t seed() { const char* t = getenv("VERIF_SEED"); return t ? strtoull(t, nullptr, 10) : 1; }
inline std::string oneline(std::string s) { for (char& c : s) if (c == '\n') c = ' '; return s.substr(0, 1500); }
inline void begin(const std::string& key, const std::string& desc) {
    curkey() = key; cur() = desc; ++cases();
    if ((cases() & 63) == 1) alarm(per_case());
}
// the result of the current case
inline void fail(const std::string& what) {
    if (++fails() <= 20) { printf("CASE %s :: %s :: %s\n", curkey().c_str(), oneline(cur()).c_str(), oneline(what).c_str()); fflush(stdout); }
}
inline void check(bool ok, const std::string& what) { if (!ok) fail(what); }
inline void done() { cur().clear(); curkey().clear(); }
inline void onsig(int s) {
    char b[3000];
    int n = snprintf(b, sizeof b, "CASE %s :: %.1500s :: signal %d (%s)\n", curkey().c_str(), oneline(cur()).c_str(), s, s == SIGALRM ? "does not terminate" : "crash");
    if (write(1, b, n < (int) sizeof b ? n : sizeof b - 1)) {}
    _exit(7);
}
// called by the sanitizer runtimes just before they end the process
inline void onsan() {
    char b[3000];
    int n = snprintf(b, sizeof b, "CASE %s :: %.1500s :: memory or undefined-behaviour error\n", curkey().c_str(), oneline(cur()).c_str());
    if (write(1, b, n < (int) sizeof b ? n : sizeof b - 1)) {}
}
inline void onterm() {
    std::string w = "terminate";
    if (auto e = std::current_exception()) {
        try { std::rethrow_exception(e); } catch (const std::exception& x) { w = std::string("uncaught exception ") + x.what(); } catch (...) { w = "uncaught exception"; }
    }
    printf("CASE %s :: %s :: %s\n", curkey().c_str(), oneline(cur()).c_str(), oneline(w).c_str());
    fflush(stdout);
    _exit(7);
}
struct Section { const char* name; std::function<void()> f; };
inline std::vector<Section>& sections() { static std::vector<Section> v; return v; }
struct Reg { Reg(const char* n, std::function<void()> f) { sections().push_back({n, f}); } };
#define SECTION(id) static void sec_##id(); static h::Reg reg_##id(#id, sec_##id); static void sec_##id()

inline std::mt19937_64 rng(uint64_t salt = 0) { return std::mt19937_64(seed() * 1000003ull + salt); }
inline size_t rnd(std::mt19937_64& g, size_t n) { return n ? g() % n : 0; }   // [0,n)

template<class T> std::string show(const std::set<T>& s) { std::ostringstream o; o << "{"; bool f = true; for (auto& x : s) { if (!f) o << ","; f = false; o << x; } o << "}"; return o.str(); }
template<class V> std::string showv(const V& v) { std::ostringstream o; o << "["; for (size_t i = 0; i < (size_t) v.size(); i++) { if (i) o << ","; o << v[i]; } o << "]"; return o.str(); }
template<class V> std::string showvs(const V& v) { std::ostringstream o; o << "["; for (size_t i = 0; i < (size_t) v.size(); i++) { if (i) o << " "; o << show(v[i]); } o << "]"; return o.str(); }
}
extern "C" void __asan_on_error() { h::onsan(); }
extern "C" void __ubsan_on_report() { h::onsan(); }
int main(int argc, char** argv) {
    const char* only = argc > 1 ? argv[1] : nullptr;
    int bad = 0;
    for (auto& s : h::sections()) {
        if (only && strcmp(only, s.name)) continue;
        fflush(stdout);
        int pfd[2];
        if (pipe(pfd)) return 9;
        pid_t p = fork();
        if (p == 0) {
            close(pfd[0]);
            for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGALRM}) signal(sg, h::onsig);
            std::set_terminate(h::onterm);
            h::begin(s.name, "setup");
            try { s.f(); } catch (const std::exception& e) { h::fail(std::string("unexpected exception: ") + e.what()); } catch (...) { h::fail("unexpected exception"); }
            alarm(0);
            unsigned long n = h::cases();
            if (write(pfd[1], &n, sizeof n)) {}
            fflush(stdout);
            _exit(h::fails() ? 3 : 0);
        }
        close(pfd[1]);
        unsigned long n = 0;
        if (read(pfd[0], &n, sizeof n) < 0) {}
        close(pfd[0]);
        int st = 0;
        waitpid(p, &st, 0);
        printf("SECTION %s cases=%lu exit=%d\n", s.name, n, WIFEXITED(st) ? WEXITSTATUS(st) : 100 + WTERMSIG(st));
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
            bad = 1;
            if (WIFSIGNALED(st)) printf("CASE %s :: killed by signal %d\n", s.name, WTERMSIG(st));
        }
        fflush(stdout);
    }
    return bad ? 3 : 0;
}
