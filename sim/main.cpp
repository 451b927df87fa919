#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <cerrno>
#include <unistd.h>
#include <unordered_set>
#include <exception>
#include <ctime>

namespace sim {

Sim* S = nullptr;

// Shared with the driver, so that the choices survive a crash of this process
struct Shm { uint64_t index; uint64_t seed; uint64_t n; uint64_t done; uint32_t c[1<<16]; };
static Shm* shm = nullptr;

static uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

uint32_t Sim::draw(uint32_t n) {
    if (n <= 1) return 0;
    uint32_t v;
    if (replaying) {
        v = pos < replayChoices.size() ? replayChoices[pos] : 0;
        if (v >= n) v = n - 1;
    } else
        v = shm->n < (1<<16) ? uint32_t((splitmix(rng) >> 32) * n >> 32) : 0;
    ++pos;
    if (shm->n < (1<<16)) shm->c[shm->n++] = v;
    return v;
}

static inline void mix(uint64_t& h, uint64_t v) {
    h ^= v; h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
}

void Sim::tick() {
    if (++steps > stepLimit)
        fail("runaway", "more than %llu simulator events in one run: no progress", (unsigned long long)stepLimit);
}

void Sim::shape(const char* s) { for (; *s; ++s) shapeHash = (shapeHash ^ (unsigned char)*s) * 1099511628211ull; }

void Sim::ev(const char* name, std::initializer_list<double> args) {
    for (const char* p = name; *p; ++p) mix(hash, (unsigned char)*p);
    for (double d : args) { uint64_t u; if (d != d) u = 0x7ff8000000000000ull; else memcpy(&u, &d, 8); mix(hash, u); }
    shape(name);
    if (verbose) {
        printf("  %6llu %s", (unsigned long long)steps, name);
        for (double d : args) printf(" %.17g", d);
        printf("\n");
    }
}

void Sim::note(const char* name, const std::string& s) {
    for (const char* p = name; *p; ++p) mix(hash, (unsigned char)*p);
    for (unsigned char c : s) mix(hash, c);
    shape(name);
    if (verbose) printf("  %6llu %s %s\n", (unsigned long long)steps, name, s.c_str());
}

std::string fmt(const char* f, ...) {
    char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}

void Sim::fail(const char* kind, const char* f, ...) {
    char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    if (!failed) { failed = true; violation = Violation{kind, b}; note("VIOLATION", std::string(kind) + ": " + b); }
    throw Violation{kind, b};
}

void Sim::check(bool ok, const char* kind, const char* f, ...) {
    if (ok) return;
    char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    fail(kind, "%s", b);
}

static std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
RegisterScenario::RegisterScenario(const char* id, void (*fn)(Sim&), void (*init)(), bool isolated) { scenarios().push_back(Scenario{id, fn, init, isolated}); }

enum Outcome { Ok, Discarded, Violated };

static Outcome runOne(Scenario& sc, Sim& s) {
    s.hash = 1469598103934665603ull; s.shapeHash = 1469598103934665603ull;
    s.steps = 0; s.stepLimit = 400000; s.simTime = 0; s.runFaults = 0;
    s.isNontrivial = false; s.failed = false; s.pos = 0;
    shm->n = 0;
    clk = Clock(); alloc = Alloc();
    Outcome o = Ok;
    try {
        sc.fn(s);
    }
    catch (const Violation&) {}
    catch (const Discard& d) { o = Discarded; ++s.probes["discarded: " + d.why]; }
    catch (const std::exception& e) {
        if (!s.failed) { s.failed = true; s.violation = Violation{"unexpected-exception", e.what()}; s.note("VIOLATION", std::string("unexpected-exception: ") + e.what()); }
    }
    catch (...) {
        if (!s.failed) { s.failed = true; s.violation = Violation{"unexpected-exception", "unknown exception"}; s.note("VIOLATION", "unexpected-exception"); }
    }
    clk.on = false; alloc.armed = false;
    if (s.failed) o = Violated;
    return o;
}

static void onHang(int) {
    static const char m[] = "SIM-HANG: a run does not end\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(78);
}
static void armWatchdog(int sec) {
    itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = sec;
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
}

// Makes the run in a child process; choices are in shared memory, the rest comes through a pipe
static Outcome runIsolated(Scenario& sc, Sim& s) {
    int fd[2];
    fflush(stdout); fflush(stderr);
    if (pipe(fd) != 0) { perror("pipe"); _exit(2); }
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(2); }
    if (pid == 0) {
        close(fd[0]); armWatchdog(30);
        s.faults.clear(); s.probes.clear();
        Outcome o = runOne(sc, s);
        std::string r; auto num = [&r](uint64_t v) { r.append((const char*)&v, 8); }; auto str = [&](const std::string& t) { num(t.size()); r += t; };
        uint64_t st; memcpy(&st, &s.simTime, 8);
        for (uint64_t v : {uint64_t(o), s.hash, s.shapeHash, s.steps, st, s.runFaults, uint64_t(s.isNontrivial), uint64_t(s.failed), uint64_t(s.pos)}) num(v);
        str(s.violation.kind); str(s.violation.msg);
        for (auto* m : {&s.faults, &s.probes}) { num(m->size()); for (auto& kv : *m) { str(kv.first); num(kv.second); } }
        for (size_t k = 0; k < r.size(); ) { ssize_t w = write(fd[1], r.data() + k, r.size() - k); if (w < 0 && errno == EINTR) continue; if (w <= 0) _exit(2); k += w; }
        fflush(stdout);
        _exit(0);
    }
    close(fd[1]);
    std::string r; char b[4096]; ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) r.append(b, n);
    close(fd[0]);
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(128 + WTERMSIG(st)); }
    if (WEXITSTATUS(st) != 0) _exit(WEXITSTATUS(st));
    size_t p = 0;
    auto num = [&] { uint64_t v = 0; if (p + 8 > r.size()) _exit(2); memcpy(&v, r.data() + p, 8); p += 8; return v; };
    auto str = [&] { uint64_t k = num(); if (p + k > r.size()) _exit(2); std::string t = r.substr(p, k); p += k; return t; };
    Outcome o = Outcome(num()); s.hash = num(); s.shapeHash = num(); s.steps = num(); uint64_t t = num(); memcpy(&s.simTime, &t, 8);
    s.runFaults = num(); s.isNontrivial = num(); s.failed = num(); s.pos = num();
    s.violation.kind = str(); s.violation.msg = str();
    for (auto* m : {&s.faults, &s.probes}) for (uint64_t k = num(); k > 0; --k) { std::string key = str(); (*m)[key] += num(); }
    return o;
}

static void jsonStr(FILE* f, const std::string& s) {
    fputc('"', f);
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

static double now() { timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec*1e-9; }

} // namespace sim

using namespace sim;

int main(int argc, char** argv) {
    if (argc < 3) { fprintf(stderr, "usage: sim run ID base from stride count seconds out shm | sim replay ID file [-v]\n"); return 2; }
    std::string mode = argv[1], id = argv[2];
    Scenario* sc = nullptr;
    for (auto& s : scenarios()) if (id == s.id) sc = &s;
    if (!sc) { fprintf(stderr, "no scenario %s\n", id.c_str()); return 2; }
    signal(SIGVTALRM, onHang);
    signal(SIGPIPE, SIG_IGN);
    Sim s; S = &s;
    shm = (Shm*)mmap(0, sizeof(Shm), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    if (shm == MAP_FAILED) return 2;
    if (sc->init) sc->init();
    if (mode == "run") {
        uint64_t base = strtoull(argv[3],0,10), from = strtoull(argv[4],0,10), stride = strtoull(argv[5],0,10), count = strtoull(argv[6],0,10);
        double seconds = atof(argv[7]);
        const char* out = argv[8];
        int fd = open(argv[9], O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Shm)) != 0) return 2;
        shm = (Shm*)mmap(0, sizeof(Shm), PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
        if (shm == MAP_FAILED) return 2;
        std::unordered_set<uint64_t> shapes, traces, nontriv;
        uint64_t runs = 0, discarded = 0, faulty = 0, choices = 0;
        double simTime = 0; uint64_t steps = 0;
        double t0 = now();
        std::vector<std::pair<uint64_t,uint64_t>> hashes;   // (index, hash) of some runs, for the determinism gate
        bool violated = false; uint64_t vi = 0;
        std::vector<uint32_t> vchoices;
        uint64_t i = from;
        for (; i < count; i += stride) {
            if (seconds > 0 && now() - t0 > seconds) break;
            uint64_t seed = base * 1000003ull + i; uint64_t tmp = seed; splitmix(tmp);
            shm->index = i; shm->seed = seed;
            s.rng = tmp; s.replaying = false;
            armWatchdog(30);
            Outcome o = sc->isolated ? runIsolated(*sc, s) : runOne(*sc, s);
            ++runs; choices += shm->n; simTime += std::isfinite(s.simTime) ? s.simTime : 0; steps += s.steps;
            if (o == Discarded) ++discarded;
            else {
                if (s.runFaults) ++faulty;
                traces.insert(s.hash); shapes.insert(s.shapeHash);
                if (s.isNontrivial) nontriv.insert(s.hash);
            }
            if ((i / stride) % 97 == 0 && hashes.size() < 64) hashes.push_back({i, s.hash});
            if (o == Violated) { violated = true; vi = i; vchoices.assign(shm->c, shm->c + shm->n); break; }
        }
        armWatchdog(0);
        shm->done = 1;
        FILE* f = fopen(out, "w"); if (!f) return 2;
        fprintf(f, "{\"runs\":%llu,\"discarded\":%llu,\"faulty\":%llu,\"choices\":%llu,\"steps\":%llu,\"simtime\":%.17g,\"next\":%llu,\"wall\":%.3f",
            (unsigned long long)runs, (unsigned long long)discarded, (unsigned long long)faulty, (unsigned long long)choices,
            (unsigned long long)steps, simTime, (unsigned long long)i, now()-t0);
        auto dumpMap = [&](const char* n, std::map<std::string,uint64_t>& m) {
            fprintf(f, ",\"%s\":{", n); bool first = true;
            for (auto& kv : m) { if (!first) fputc(',', f); first = false; jsonStr(f, kv.first); fprintf(f, ":%llu", (unsigned long long)kv.second); }
            fputc('}', f);
        };
        dumpMap("faults", s.faults); dumpMap("probes", s.probes);
        auto dumpSet = [&](const char* n, std::unordered_set<uint64_t>& m) {
            fprintf(f, ",\"%s\":[", n); bool first = true;
            for (auto h : m) { if (!first) fputc(',', f); first = false; fprintf(f, "%llu", (unsigned long long)h); }
            fputc(']', f);
        };
        dumpSet("shapes", shapes); dumpSet("nontrivial", nontriv);
        fprintf(f, ",\"traces\":%llu,\"hashes\":[", (unsigned long long)traces.size());
        for (size_t k = 0; k < hashes.size(); ++k) fprintf(f, "%s[%llu,\"%016llx\"]", k?",":"", (unsigned long long)hashes[k].first, (unsigned long long)hashes[k].second);
        fprintf(f, "]");
        if (violated) {
            fprintf(f, ",\"violation\":{\"index\":%llu,\"kind\":", (unsigned long long)vi); jsonStr(f, s.violation.kind);
            fprintf(f, ",\"msg\":"); jsonStr(f, s.violation.msg);
            fprintf(f, ",\"hash\":\"%016llx\",\"choices\":[", (unsigned long long)s.hash);
            for (size_t k = 0; k < vchoices.size(); ++k) fprintf(f, "%s%u", k?",":"", vchoices[k]);
            fprintf(f, "]}");
        }
        fprintf(f, "}\n"); fclose(f);
        fflush(stdout);
        _exit(0);
    }
    if (mode == "replay" || mode == "seed") {
        // replay: choices from file (whitespace separated); seed: base index
        if (mode == "replay") {
            FILE* f = fopen(argv[3], "r"); if (!f) return 2;
            unsigned v; while (fscanf(f, "%u", &v) == 1) s.replayChoices.push_back(v);
            fclose(f);
            s.replaying = true;
            if (argc > 4 && !strcmp(argv[4], "-v")) s.verbose = true;
        } else {
            uint64_t base = strtoull(argv[3],0,10), i = strtoull(argv[4],0,10);
            uint64_t seed = base * 1000003ull + i; splitmix(seed); s.rng = seed;
            if (argc > 5 && !strcmp(argv[5], "-v")) s.verbose = true;
        }
        armWatchdog(30);
        Outcome o = sc->isolated ? runIsolated(*sc, s) : runOne(*sc, s);
        armWatchdog(0);
        printf("RESULT %s hash=%016llx choices=%llu", o == Ok ? "ok" : o == Discarded ? "discarded" : "violation", (unsigned long long)s.hash, (unsigned long long)s.pos);
        if (o == Violated) printf(" kind=%s msg=%s", s.violation.kind.c_str(), s.violation.msg.c_str());
        printf("\n");
        fflush(stdout);
        _exit(0);
    }
    return 2;
}
