// Worker: runs a range of cases of one suite and writes a JSON report.
#include "core.h"
#include "lib.h"
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>

std::vector<Suite>& registry() { static std::vector<Suite> r; return r; }

std::string strf(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); va_list aq; va_copy(aq, ap);
    int n = vsnprintf(nullptr, 0, fmt, ap); va_end(ap);
    std::string s(n + 1, 0); vsnprintf(&s[0], n + 1, fmt, aq); va_end(aq); s.resize(n);
    return s;
}
static std::string js(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
struct Viol { long idx; std::string key, msg, desc; };
static std::vector<Viol> viols;
static const size_t MAXVIOL = 60;

void Ctx::fail(const std::string& key, const std::string& msg) {
    violations++;
    if (viols.size() < MAXVIOL) viols.push_back({idx, key, msg, desc.substr(0, 6000)});
    if (verbose) fprintf(stderr, "VIOL case=%ld key=%s %s\n  input: %s\n", idx, key.c_str(), msg.c_str(), desc.c_str());
    throw CaseFail();
}
void Ctx::check(bool ok, const char* key, const char* fmt, ...) {
    evaluations++;
    if (ok) return;
    va_list ap; va_start(ap, fmt); char b[2000]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    fail(key, b);
}

static volatile bool inCase = false;
struct Shared { long idx; long start; };
static Shared* shared = nullptr;
static void onHang(int) { _exit(97); }
static void onExit() { if (inCase) { fflush(nullptr); _exit(96); } }

int main(int argc, char** argv) {
    std::string suite, out, progress; uint64_t seed = 1; long from = 0, to = 0; bool thorough = false, verbose = false; int cpu = 30; long memmb = 6000, wall = 0;
    for (int k = 1; k < argc; k++) {
        std::string a = argv[k]; auto nx = [&]() { return std::string(argv[++k]); };
        if (a == "--suite") suite = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--from") from = atol(nx().c_str()); else if (a == "--to") to = atol(nx().c_str());
        else if (a == "--out") out = nx(); else if (a == "--progress") progress = nx();
        else if (a == "--cpu") cpu = atoi(nx().c_str()); else if (a == "--wall") wall = atol(nx().c_str());
        else if (a == "--mem") memmb = atol(nx().c_str());
        else if (a == "--thorough") thorough = true; else if (a == "--verbose") verbose = true;
        else if (a == "--list") { for (auto& s : registry()) printf("%s %d\n", s.name, s.fixed); return 0; }
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 95; }
    }
    const Suite* S = nullptr;
    for (auto& s : registry()) if (suite == s.name) S = &s;
    if (!S) { fprintf(stderr, "no suite %s\n", suite.c_str()); return 95; }
#if !defined(__SANITIZE_ADDRESS__)
    if (memmb) { struct rlimit rl = {(rlim_t)memmb << 20, (rlim_t)memmb << 20}; setrlimit(RLIMIT_AS, &rl); }
#endif
    struct rlimit core = {0, 0}; setrlimit(RLIMIT_CORE, &core);
    Shared local; shared = &local;
    if (!progress.empty()) {
        int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Shared))) return 95;
        shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (shared == MAP_FAILED) return 95;
    }
    if (!verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); }
    signal(SIGPROF, onHang);
    atexit(onExit);
    Ctx c; c.seed = seed; c.suite = suite; c.thorough = thorough; c.verbose = verbose;
    uint64_t sh = 1469598103934665603ULL; for (char ch : suite) sh = (sh ^ (unsigned char)ch) * 1099511628211ULL;
    long ran = 0; time_t begun = time(nullptr);
    for (long i = from; i < to; i++) {
        // enough is known after this many violations, and the caller may not have the time for all cases
        if (viols.size() >= MAXVIOL || (wall && time(nullptr) - begun > wall)) break;
        shared->idx = i;
        // fixed cases do not depend on the seed
        uint64_t s = i < S->fixed ? 12345 : seed;
        c.rng = Rng(hashmix(hashmix(sh, s), (uint64_t)i));
        c.idx = i; c.desc.clear();
        lib_reset_config();
        struct itimerval it = {{0, 0}, {cpu, 0}}; setitimer(ITIMER_PROF, &it, nullptr);
        inCase = true;
        try { S->fn(c); }
        catch (CaseFail&) { }
        catch (std::exception& e) { try { c.fail(std::string("exception"), std::string("uncaught exception: ") + e.what()); } catch (CaseFail&) { } }
        catch (...) { try { c.fail("exception", "uncaught non-standard exception"); } catch (CaseFail&) { } }
        inCase = false;
        ran++;
    }
    struct itimerval z = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &z, nullptr);
    shared->idx = -1;
    FILE* f = out.empty() ? stderr : fopen(out.c_str(), "w");
    if (!f) return 95;
    fprintf(f, "{\"ran\":%ld,\"evaluations\":%ld,\"nontrivial\":%ld,\"skipped\":%ld,\"violations\":%ld,\n\"counters\":{", ran, c.evaluations, c.nontrivial, c.skipped, c.violations);
    bool first = true;
    for (auto& kv : c.counters) { fprintf(f, "%s%s:%ld", first ? "" : ",", js(kv.first).c_str(), kv.second); first = false; }
    fprintf(f, "},\n\"distinct\":["); first = true;
    for (auto h : c.distinct) { fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
    fprintf(f, "],\n\"samples\":["); first = true;
    for (auto& s : c.samples) { fprintf(f, "%s%s", first ? "" : ",", js(s.substr(0, 1500)).c_str()); first = false; }
    fprintf(f, "],\n\"viols\":["); first = true;
    for (auto& v : viols) { fprintf(f, "%s{\"idx\":%ld,\"key\":%s,\"msg\":%s,\"desc\":%s}", first ? "" : ",\n", v.idx, js(v.key).c_str(), js(v.msg).c_str(), js(v.desc).c_str()); first = false; }
    fprintf(f, "]}\n");
    if (f != stderr) fclose(f);
    return 0;
}
