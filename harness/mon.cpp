// main() of every harness: runs cases [scenario, index], writes one JSON-ish
// record per event to the result file, keeps a status file naming the running case.
#include "mon.hpp"
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <fcntl.h>
#include <random>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

// ---------------------------------------------------------------- entropy
static mon::Rng g_entropy(1);
static bool g_real_entropy = false;
#ifndef MON_NO_ENTROPY
namespace std {
void random_device::_M_init(const std::string&) {}
void random_device::_M_init_pretr1(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return (result_type)g_entropy.next(); }
random_device::result_type random_device::_M_getval_pretr1() { return (result_type)g_entropy.next(); }
namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
    return time_point(duration((long long)(g_entropy.next() >> 4)));
}
} }
}
#endif
namespace mon {
void set_entropy(uint64_t seed) { g_entropy = Rng(seed * 2654435761u + 17); srand((unsigned)g_entropy.next()); }
std::vector<Scenario>& registry() { static std::vector<Scenario> r; return r; }
void eigen_assert_failed(const char* e, const char* f, int l) {
    const char* b = std::strrchr(f, '/');
    throw EigenAssert(S("Eigen assertion ", e, " (", b ? b + 1 : f, ":", l, ")"));
}
static uint64_t hstr(const std::string& s, uint64_t h) {
    for (char ch : s) { h ^= (unsigned char)ch; h *= 1099511628211ull; }
    return h;
}
static std::string esc(const std::string& s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o;
}
static FILE* out;
static int status_fd = -1;
static void status(const char* s) {
    char b[160]; memset(b, ' ', sizeof b);
    size_t n = strlen(s); if (n > 158) n = 158;
    memcpy(b, s, n); b[159] = '\n';
    ssize_t r = pwrite(status_fd, b, sizeof b, 0); (void)r;
}
static void on_cpu(int) {
    // out of CPU time for this case: report, and end (the runner resumes with the next case)
    static const char m[] = "HANG";
    ssize_t r = pwrite(status_fd, m, 4, 200); (void)r;
    _exit(77);
}
static void arm(int sec) {
    struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &t, nullptr);
}
}
using namespace mon;

int main(int argc, char** argv) {
    std::string result, statf, only;
    uint64_t seed = 1; bool thorough = false, list = false; int shard = 0, nshard = 1, from = -1, only_i = -1, cpu = 60, limit = -1;
    double scale = 1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "--result") result = val();
        else if (a == "--status") statf = val();
        else if (a == "--seed") seed = std::strtoull(val().c_str(), 0, 10);
        else if (a == "--thorough") thorough = true;
        else if (a == "--list") list = true;
        else if (a == "--shard") shard = std::stoi(val());
        else if (a == "--nshard") nshard = std::stoi(val());
        else if (a == "--from") from = std::stoi(val());
        else if (a == "--limit") limit = std::stoi(val());
        else if (a == "--cpu") cpu = std::stoi(val());
        else if (a == "--scale") scale = std::stod(val());
        else if (a == "--only") { only = val(); auto p = only.find('#'); if (p != std::string::npos) { only_i = std::stoi(only.substr(p + 1)); only = only.substr(0, p); } }
    }
    auto count = [&](const Scenario& s) { int n = thorough ? s.thorough : s.quick; n = (int)std::ceil(n * scale); return n < 1 ? 1 : n; };
    if (list) {
        for (auto& s : registry()) printf("%s %d\n", s.name.c_str(), count(s));
        return 0;
    }
    out = result.empty() ? stdout : fopen(result.c_str(), "a");
    if (!result.empty()) {   // the library prints; keep our own channel clean
        fflush(stdout);
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
    }
    status_fd = statf.empty() ? open("/dev/null", O_WRONLY) : open(statf.c_str(), O_RDWR | O_CREAT, 0644);
    signal(SIGPROF, on_cpu);
    long pos = -1, ran = 0;
    std::map<std::string, long> events;
    auto flush_events = [&] {
        for (auto& e : events) fprintf(out, "{\"t\":\"ev\",\"n\":\"%s\",\"k\":%ld}\n", esc(e.first).c_str(), e.second);
        events.clear();
    };
    std::map<std::string, int> samples;
    for (auto& s : registry()) {
        int n = count(s);
        for (int i = 0; i < n; ++i) {
            ++pos;
            if (!only.empty()) { if (s.name != only || (only_i >= 0 && i != only_i)) continue; }
            else { if (pos % nshard != shard) continue; if (pos < from) continue; }
            if (limit >= 0 && ran >= limit) { flush_events(); fclose(out); return 0; }
            ++ran;
            char b[160]; snprintf(b, sizeof b, "%ld %s %d", pos, s.name.c_str(), i); status(b);
            Ctx c; c.scenario = s.name; c.index = i; c.thorough = thorough;
            c.rng = Rng(hstr(s.name, 14695981039346656037ull ^ (seed * 0x9E3779B97F4A7C15ull)) + (uint64_t)i * 0xD1342543DE82EF95ull);
            c.rng.next();
            c.hash = hstr(s.name, c.hash);
            set_entropy(c.rng.s ^ 0x5555);
            c.dump.precision(10);
            arm(cpu);
            try { s.fn(c); }
            catch (const EigenAssert& e) { c.fail("eigen-assert", e.what()); }
            catch (const std::exception& e) {
                int st; char* dn = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
                c.fail(std::string("exception:") + (dn ? dn : "?"), e.what()); free(dn);
            }
            catch (...) { c.fail("exception:unknown", "non-standard exception"); }
            arm(0);
            for (auto& e : c.events) events[e.first] += e.second;
            bool want = samples[s.name] < 2 && shard == 0 && c.nontrivial;
            if (want) ++samples[s.name];
            fprintf(out, "{\"t\":\"c\",\"s\":\"%s\",\"h\":\"%016llx\",\"nt\":%d%s}\n", s.name.c_str(), (unsigned long long)c.hash, c.nontrivial ? 1 : 0,
                    want ? (",\"d\":\"" + esc(S(s.name, "#", i, " ", c.dump.str()).substr(0, 900)) + "\"").c_str() : "");
            for (auto& f : c.fails)
                fprintf(out, "{\"t\":\"v\",\"s\":\"%s\",\"i\":%d,\"key\":\"%s\",\"msg\":\"%s\",\"d\":\"%s\"}\n", s.name.c_str(), i,
                        esc(f.key).c_str(), esc(f.msg.substr(0, 3000)).c_str(), esc(c.dump.str().substr(0, 6000)).c_str());
            if (!c.fails.empty()) fflush(out);
        }
    }
    flush_events();
    status("DONE");
    fclose(out);
    return 0;
}
