#include "mon.h"
namespace mon {
Mon* g_mon = nullptr;
static bool g_done = false;
static void say(const char* s) { ssize_t r = write(1, s, strlen(s)); (void)r; }
static void died() { // runs when a sanitizer or a signal ends the process
    if (g_done || !g_mon) return; g_done = true;
    char b[2000];
    snprintf(b, sizeof b, "\nDIED\t%s\tcase=%ld\t%s\n", g_mon->cur_key, g_mon->cur_case, g_mon->cur_desc);
    say(b);
}
static void on_sig(int s) { died(); signal(s, SIG_DFL); raise(s); }
static std::string esc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
int main_impl(int argc, char** argv) {
    Mon m; std::string sec;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--list") { for (auto& s : Reg::all()) printf("%s\n", s.first.c_str()); return 0; }
        else if (a == "--section") sec = argv[++i];
        else if (a == "--seed") m.seed = strtoull(argv[++i], nullptr, 10);
        else if (a == "--thorough") m.thorough = true;
        else if (a == "--from") m.skip_to = atol(argv[++i]);
        else if (a == "--case") m.only_case = atol(argv[++i]);
    }
    g_mon = &m; m.section = sec;
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(died);
    signal(SIGABRT, on_sig); signal(SIGFPE, on_sig);
    if (!__sanitizer_set_death_callback) { signal(SIGSEGV, on_sig); signal(SIGBUS, on_sig); }
    for (auto& s : Reg::all()) if (s.first == sec) {
        try { s.second(m); } catch (const std::exception& e) { m.fail("unexpected-exception", "section-level exception: %s", e.what()); }
        g_done = true;
        printf("STAT\t{\"section\":\"%s\",\"evals\":%ld,\"checks\":%ld,\"distinct\":%zu,\"fails\":%ld,\"observed\":{", sec.c_str(), m.evals, m.checks, m.distinct_set.size(), m.nfail);
        bool f = true; for (auto& o : m.observed) { printf("%s\"%s\":%ld", f ? "" : ",", esc(o.first).c_str(), o.second); f = false; }
        printf("},\"maxima\":{"); f = true;
        for (auto& o : m.maxima) if (std::isfinite(o.second)) { printf("%s\"%s\":%.4g", f ? "" : ",", esc(o.first).c_str(), o.second); f = false; }
        printf("},\"samples\":["); f = true;
        for (auto& s : m.samples) { printf("%s\"%s\"", f ? "" : ",", esc(s).c_str()); f = false; }
        printf("]}\n"); fflush(stdout);
        return 0;
    }
    fprintf(stderr, "no section %s\n", sec.c_str()); return 3;
}
}
int main(int argc, char** argv) { return mon::main_impl(argc, argv); }
