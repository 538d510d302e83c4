#include "vf.h"
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <algorithm>
#include <set>
#include <unordered_map>
#include <unordered_set>

extern "C" int __llvm_profile_write_file(void) __attribute__((weak)); extern "C" void __llvm_profile_set_filename(const char *) __attribute__((weak));    // coverage measurement builds only
namespace vf {

// ------------------------------------------------------------------------------------------------
// shared memory: everything the parent must see of a worker even if the worker dies
static const size_t MAXCH = 1 << 16, NLAB = 256, NSAMP = 4, NHASH = 1 << 20;
struct Shm {
    volatile long case_no;          // case being run
    volatile long done;             // cases finished
    volatile long discards;
    volatile int in_case;
    volatile size_t nch;
    uint64_t ch[MAXCH];
    uint64_t lim[MAXCH];
    char msg[8192];                 // failure message
    char notes[16384];
    char lab[NLAB][64];
    long labn[NLAB];
    long nlab;
    long nontriv;
    long nhash;
    uint64_t hashes[NHASH];
    char samples[NSAMP][3000];
    long nsamp;
};
static Shm *S;                      // current worker's block
static bool g_replay = false, g_single = false, g_nostat = false;
static bool case_nontriv;
static std::vector<std::string> *pending_labels;
static std::unordered_set<uint64_t> *seen;

static uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; }
    return h;
}

static void record(uint64_t v, uint64_t n) {
    if (S->nch >= MAXCH) { // the case is over-long: stop here, it counts as discarded
        snprintf(S->msg, sizeof S->msg, "case used too many choices");
        _exit(79);
    }
    S->lim[S->nch] = n;
    S->ch[S->nch] = v;
    S->nch = S->nch + 1;
}

uint64_t Gen::below(uint64_t n) {
    if (n == 0) n = 1;
    uint64_t v = raw(n);
    record(v, n);
    return v;
}
uint64_t Gen::u64() {
    uint64_t hi = below(1ULL << 32), lo = below(1ULL << 32);
    return (hi << 32) | lo;
}
size_t Gen::weighted(const std::vector<unsigned> &w) {
    uint64_t t = 0;
    for (unsigned x : w) t += x;
    uint64_t v = below(t);
    for (size_t i = 0; i < w.size(); i++) { if (v < w[i]) return i; v -= w[i]; }
    return w.size() - 1;
}
size_t Gen::size(size_t lo, size_t hi) {
    if (hi <= lo) return lo;
    size_t span = hi - lo;
    switch (below(4)) {
    case 0: return lo + below(std::min<size_t>(span, 3) + 1);
    case 1: return lo + below(std::min<size_t>(span, 12) + 1);
    case 2: return hi - below(std::min<size_t>(span, 4) + 1);
    default: return lo + below(span + 1);
    }
}
uint8_t Gen::ibyte() {
    static const uint8_t k[] = {0x00, 0xFF, 0x80, 0x7F, 0x01, 0x0F, 0xF0, 0x99, 0x09, 0x90, 0x40, 0x3F, 0xA0, 0x0A, 0xFE, 0x10};
    if (below(2) == 0) return (uint8_t)below(256);
    return k[below(sizeof k)];
}

class RandomGen : public Gen {
    uint64_t s[2];
public:
    RandomGen(uint64_t seed) { s[0] = splitmix(seed); s[1] = splitmix(seed); }
    uint64_t next() { // xoroshiro128+
        uint64_t a = s[0], b = s[1], r = a + b;
        b ^= a;
        s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
        s[1] = (b << 37) | (b >> 27);
        return r;
    }
    uint64_t raw(uint64_t n) override { return n ? (uint64_t)(((__uint128_t)next() * n) >> 64) : 0; }
};
class ReplayGen : public Gen {
    const std::vector<uint64_t> &v;
    size_t i = 0;
public:
    ReplayGen(const std::vector<uint64_t> &x) : v(x) {}
    uint64_t raw(uint64_t n) override { uint64_t x = i < v.size() ? v[i] : 0; i++; return x < n ? x : x % n; }
};
class ByteGen : public Gen {
    const uint8_t *p; size_t n, i = 0;
public:
    ByteGen(const uint8_t *d, size_t s) : p(d), n(s) {}
    uint64_t raw(uint64_t lim) override {
        uint64_t x = 0, m = lim - 1;
        do { x = (x << 8) | (i < n ? p[i] : 0); i++; m >>= 8; } while (m);
        return x % lim;
    }
};

// ------------------------------------------------------------------------------------------------
std::string hex(const void *p, size_t n) {
    std::string r; char b[4];
    for (size_t i = 0; i < n; i++) { snprintf(b, sizeof b, i ? " %02X" : "%02X", ((const uint8_t *)p)[i]); r += b; }
    return r;
}
std::string fmt(const char *f, ...) {
    va_list ap, ap2; va_start(ap, f); va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, f, ap); va_end(ap);
    std::string r(n < 0 ? 0 : n, 0);
    if (n > 0) vsnprintf(&r[0], n + 1, f, ap2);
    va_end(ap2);
    return r;
}
std::string esc(const std::string &s) {
    std::string r; char b[8];
    for (unsigned char c : s) {
        if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02X", c); r += b; }
        else r += (char)c;
    }
    return r;
}
bool replaying() { return g_replay; }

[[noreturn]] void fail(const char *f, ...) {
    va_list ap; va_start(ap, f);
    vsnprintf(S->msg, sizeof S->msg, f, ap);
    va_end(ap);
    fflush(stdout);
    if (g_replay) fprintf(stderr, "%s\n", S->msg);
#ifdef VF_FUZZ
    fprintf(stderr, "PROPERTY FAILED: %s\n", S->msg);
    abort();
#endif
    _exit(77);
}
void note(const char *f, ...) {
    size_t l = strlen(S->notes);
    if (l + 2 >= sizeof S->notes) return;
    va_list ap; va_start(ap, f);
    vsnprintf(S->notes + l, sizeof S->notes - l - 1, f, ap);
    va_end(ap);
    l = strlen(S->notes);
    if (l && S->notes[l - 1] != '\n' && l + 2 < sizeof S->notes) { S->notes[l] = '\n'; S->notes[l + 1] = 0; }
}
void label(const std::string &l) { if (!g_nostat) pending_labels->push_back(l); }
static void count_label(const std::string &l) {
    for (long i = 0; i < S->nlab; i++) if (!strncmp(S->lab[i], l.c_str(), 63)) { S->labn[i]++; return; }
    if (S->nlab < (long)NLAB) { strncpy(S->lab[S->nlab], l.c_str(), 63); S->labn[S->nlab] = 1; S->nlab++; }
}
void nontrivial(uint64_t h) {
    if (g_nostat) return;
    if (!case_nontriv) { S->nontriv++; case_nontriv = true; }
    if (S->nhash < (long)NHASH && seen->insert(h).second) S->hashes[S->nhash++] = h; // counted up to 8 million
}
void nontrivial(const std::string &s) { nontrivial(hash_bytes(s.data(), s.size())); }
void discard() { S->discards = S->discards + 1; }

// ------------------------------------------------------------------------------------------------
// heap accounting
static std::unordered_map<void *, size_t> *blocks;
static long h_count, h_at, h_from; static bool h_fault;
static std::unordered_map<void *, size_t> &B() { if (!blocks) blocks = new std::unordered_map<void *, size_t>; return *blocks; }
static bool h_deny() {
    h_count++;
    if ((h_at && h_count == h_at) || (h_from && h_count >= h_from)) { h_fault = true; errno = ENOMEM; return true; }
    return false;
}
long Heap::live() { return (long)B().size(); }
long Heap::count() { return h_count; }
void Heap::reset() { B().clear(); h_count = h_at = h_from = 0; h_fault = false; }
void Heap::fail_at(long n) { h_at = n ? h_count + n : 0; h_from = 0; h_fault = false; }
void Heap::fail_from(long n) { h_from = n ? h_count + n : 0; h_at = 0; h_fault = false; }
bool Heap::faulted() { return h_fault; }
std::string Heap::dump() {
    std::string r; int k = 0;
    std::vector<size_t> v; for (auto &x : B()) v.push_back(x.second);
    std::sort(v.begin(), v.end());
    for (size_t x : v) { if (k++ > 8) break; r += fmt("%zu ", x); }
    return r;
}
extern "C" {
void *vf_malloc(size_t n) { if (h_deny()) return nullptr; void *p = malloc(n); if (p) B()[p] = n; return p; }
void *vf_calloc(size_t a, size_t b) { if (h_deny()) return nullptr; void *p = calloc(a, b); if (p) B()[p] = a * b; return p; }
void *vf_realloc(void *q, size_t n) {
    if (h_deny()) return nullptr;
    void *p = realloc(q, n);
    if (p) { if (q) B().erase(q); B()[p] = n; }
    return p;
}
void vf_free(void *p) { if (p) B().erase(p); free(p); }
void vf_release(void *p) { vf_free(p); }
char *vf_strndup(const char *s, size_t n) {
    if (h_deny()) return nullptr;
    char *p = strndup(s, n); if (p) B()[p] = strlen(p) + 1; return p;
}
char *vf_strdup(const char *s) {
    if (h_deny()) return nullptr;
    char *p = strdup(s); if (p) B()[p] = strlen(p) + 1; return p;
}
int vf_vasprintf(char **o, const char *f, va_list ap) {
    if (h_deny()) { return -1; }
    int r = vasprintf(o, f, ap); if (r >= 0) B()[*o] = r + 1; return r;
}
int vf_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = vf_vasprintf(o, f, ap); va_end(ap); return r; }
}

// ------------------------------------------------------------------------------------------------
static std::vector<Property> &props() { static std::vector<Property> v; return v; }
void add(const Property &p) { props().push_back(p); }

static void begin_case(long no) {
    S->case_no = no; S->nch = 0; S->msg[0] = 0; S->notes[0] = 0; S->in_case = 1;
    case_nontriv = false; pending_labels->clear();
    Heap::reset();
    errno = ERANGE;                              // left over from elsewhere
}
static void end_case() {
    S->in_case = 0;
    for (auto &l : *pending_labels) count_label(l);
    if (case_nontriv && S->nsamp < (long)NSAMP && S->notes[0] && (S->nsamp < 2 || S->nontriv % 97 == 0)) {
        strncpy(S->samples[S->nsamp], S->notes, sizeof S->samples[0] - 1);
        S->nsamp++;
    }
    S->done = S->done + 1;
}
static const Property *find(const char *id) {
    for (auto &p : props()) if (!strcmp(p.id, id)) return &p;
    return nullptr;
}
static const int CPU_LIMIT = 30;    // s of CPU time of one case: ordinary cases take well under 0.1 s
static const int WALL_LIMIT = 150;  // s of wall time of one case: a case blocked for ever
static void on_alarm(int sig) {
    const char *m = sig == SIGALRM ? "case did not terminate: blocked for ever" : "case did not terminate: CPU limit exceeded";
    strcpy(S->msg, m);
    _exit(78);
}
static void arm() {
    struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = CPU_LIMIT; setitimer(ITIMER_PROF, &t, 0);
    memset(&t, 0, sizeof t); t.it_value.tv_sec = WALL_LIMIT; setitimer(ITIMER_REAL, &t, 0);
}
static void arm_handlers() { signal(SIGPROF, on_alarm); signal(SIGALRM, on_alarm); signal(SIGPIPE, SIG_IGN); }

static void *shm_alloc(size_t n) {
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return p;
}

int run_case_bytes(const char *prop, const uint8_t *d, size_t n) {
    static const Property *p;
    if (!p) {
        p = find(prop); if (!p) abort();
        S = (Shm *)shm_alloc(sizeof(Shm)); pending_labels = new std::vector<std::string>; seen = new std::unordered_set<uint64_t>;
        signal(SIGPIPE, SIG_IGN);
    }
    begin_case(0);
    ByteGen g(d, n);
    p->fn(g);
    end_case();
    return 0;
}

#ifndef VF_FUZZ
// run one list of choices in a child process; returns true if it fails; fills msg
static std::string g_errfile;
static std::string slurp(const std::string &f, size_t max = 200000) {
    std::string r; FILE *fp = fopen(f.c_str(), "r"); if (!fp) return r;
    char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0 && r.size() < max) r.append(b, n);
    fclose(fp); return r;
}
struct Outcome { bool failed; std::string msg, kind, err, notes; std::vector<uint64_t> ch, lim; };

static std::string summarize(int st, Shm *sh, const std::string &err, std::string &kind) {
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    if (WIFEXITED(st) && code == 77) { kind = "property"; return sh->msg; }
    if (WIFEXITED(st) && code == 78) { kind = "hang"; return sh->msg; }
    // a sanitizer report: take its summary line and the first library frame
    std::string m, line, frame;
    size_t i = 0; bool asan = false;
    while (i < err.size()) {
        size_t e = err.find('\n', i); if (e == std::string::npos) e = err.size();
        line = err.substr(i, e - i); i = e + 1;
        if (m.empty() && (line.find("ERROR: AddressSanitizer") != std::string::npos || line.find("runtime error:") != std::string::npos ||
            line.find("ERROR: LeakSanitizer") != std::string::npos)) {
            m = line; asan = true;
            size_t q = m.find("AddressSanitizer: "); if (q != std::string::npos) {
                m = m.substr(q); q = m.find(" on "); if (q != std::string::npos) m = m.substr(0, q);
            }
        }
        if (frame.empty() && line.find("    #") == 0 && (line.find("/mbus/mbus") != std::string::npos || line.find("/bin/mbus") != std::string::npos)) {
            size_t q = line.find(" in "); frame = q == std::string::npos ? line : line.substr(q + 4);
        }
    }
    kind = asan ? "sanitizer" : "crash";
    if (!asan) m = fmt("process died, exit code %d%s", code, WIFSIGNALED(st) ? fmt(" (signal %d)", WTERMSIG(st)).c_str() : "");
    if (!frame.empty()) m += " in " + frame;
    return m;
}

static Outcome run_choices(const Property *p, const std::vector<uint64_t> &v, bool verbose = false) {
    memset((void *)S->msg, 0, sizeof S->msg); S->notes[0] = 0; S->nch = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        arm_handlers(); arm();
        g_replay = verbose; g_nostat = true;
        if (!verbose) {
            int fd = open(g_errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 2); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
        }
        begin_case(-1);
        ReplayGen g(v);
        p->fn(g);
        end_case();
        _exit(0);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o; o.failed = !(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 79));
    if (o.failed) { o.err = verbose ? "" : slurp(g_errfile); o.msg = summarize(st, S, o.err, o.kind); }
    o.notes = S->notes;
    o.ch.assign((uint64_t *)S->ch, (uint64_t *)S->ch + S->nch);
    o.lim.assign((uint64_t *)S->lim, (uint64_t *)S->lim + S->nch);
    return o;
}

// run the random cases from, from+step, ..., to in one child (a failure that needs earlier cases in the same process)
static RandomGen *mk(uint64_t seed) { return new RandomGen(seed); }
template <class F> static Outcome run_range(const Property *p, long from, long to, long step, F case_seed, bool verbose = false) {
    memset((void *)S->msg, 0, sizeof S->msg); S->notes[0] = 0; S->nch = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        arm_handlers();
        g_nostat = true;
        if (!verbose) {
            int fd = open(g_errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 2); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
        }
        for (long i = from; i <= to; i += step) {
            arm();
            if (i == to) { if (!verbose) { ftruncate(2, 0); lseek(2, 0, SEEK_SET); } g_replay = verbose; }
            begin_case(i); RandomGen *g = mk(case_seed(i)); p->fn(*g); end_case(); delete g;
        }
        _exit(0);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o; o.failed = !(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 79));
    if (o.failed) { o.err = verbose ? "" : slurp(g_errfile); o.msg = summarize(st, S, o.err, o.kind); }
    o.notes = S->notes;
    o.ch.assign((uint64_t *)S->ch, (uint64_t *)S->ch + S->nch);
    return o;
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static Outcome shrink(const Property *p, Outcome best, double budget) {
    double end = now() + budget;
    auto better = [&](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
        if (a.size() != b.size()) return a.size() < b.size();
        for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return a[i] < b[i];
        return false;
    };
    std::string kind = best.kind;
    auto attempt = [&](const std::vector<uint64_t> &v) {
        if (now() > end) return false;
        Outcome o = run_choices(p, v);
        if (o.failed && o.kind == kind && better(o.ch, best.ch)) { best = o; return true; }
        return false;
    };
    if (kind == "hang") return best;
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t len : {64, 32, 16, 8, 4, 3, 2, 1}) {
            for (size_t i = best.ch.size(); i-- > 0 && now() < end;) {
                if (i + len > best.ch.size()) continue;
                std::vector<uint64_t> v = best.ch;
                v.erase(v.begin() + i, v.begin() + i + len);
                if (attempt(v)) progress = true;
            }
        }
        // a smaller count at i together with the removal of later choices
        for (size_t i = 0; i < best.ch.size() && now() < end; i++) {
            if (best.ch[i] == 0) continue;
            std::vector<uint64_t> v = best.ch; v[i] = 0;
            if (attempt(v)) { progress = true; continue; }
            uint64_t lo = 0, hi = best.ch[i];
            while (lo + 1 < hi && i < best.ch.size() && now() < end) {
                uint64_t mid = lo + (hi - lo) / 2;
                v = best.ch; v[i] = mid;
                if (attempt(v)) { progress = true; hi = i < best.ch.size() ? best.ch[i] : 0; } else lo = mid;
            }
            if (i < best.ch.size() && best.ch[i] > 0) {
                for (size_t len = 1; len <= 8 && i + 1 + len <= best.ch.size(); len++) {
                    v = best.ch; v[i]--; v.erase(v.begin() + i + 1, v.begin() + i + 1 + len);
                    if (attempt(v)) { progress = true; break; }
                }
            }
        }
        for (size_t i = 0; i + 1 < best.ch.size() && now() < end; i++) { // zero blocks
            for (size_t len : {8, 4, 2}) {
                if (i + len > best.ch.size()) continue;
                std::vector<uint64_t> v = best.ch; bool any = false;
                for (size_t k = i; k < i + len; k++) { any |= v[k] != 0; v[k] = 0; }
                if (any && attempt(v)) progress = true;
            }
        }
    }
    return best;
}

static std::string jstr(const std::string &s) {
    std::string r = "\""; char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

static bool write_replay(const std::string &path, const Property *p, const Outcome &o, uint64_t seed, long no) {
    FILE *f = fopen(path.c_str(), "w"); if (!f) return false;
    fprintf(f, "property %s\n# %s\n# seed %llu case %ld kind %s\nchoices", p->id, esc(o.msg).c_str(), (unsigned long long)seed, no, o.kind.c_str());
    for (uint64_t x : o.ch) fprintf(f, " %llu", (unsigned long long)x);
    fprintf(f, "\n--- case\n%s--- failure (%s)\n%s\n", o.notes.c_str(), o.kind.c_str(), o.msg.c_str());
    if (!o.err.empty()) fprintf(f, "--- stderr\n%.6000s\n", o.err.c_str());
    fclose(f);
    return true;
}
static bool read_replay(const char *path, std::vector<uint64_t> &v) {
    FILE *f = fopen(path, "r"); if (!f) return false;
    std::string s = slurp(path, 4000000); fclose(f);
    size_t i = s.find("\nchoices"); if (i == std::string::npos) return false;
    const char *q = s.c_str() + i + 8;
    while (*q == ' ') { char *e; v.push_back(strtoull(q, &e, 10)); q = e; }
    return true;
}

struct Known { std::string sig; long hits = 0; };

static int main_run(int argc, char **argv) {
    const char *prop = nullptr, *out = nullptr, *rdir = "/tmp", *replay = nullptr, *bytesf = nullptr, *corpus = nullptr;
    uint64_t seed = 1; long cases = 0; int jobs = 8; bool thorough = false; double limit = 600; long only = -1;
    std::vector<Known> known;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return i + 1 < argc ? argv[++i] : (char *)""; };
        if (a == "--prop") prop = nx();
        else if (a == "--seed") seed = strtoull(nx(), 0, 10);
        else if (a == "--cases") cases = atol(nx());
        else if (a == "--jobs") jobs = atoi(nx());
        else if (a == "--thorough") thorough = true;
        else if (a == "--out") out = nx();
        else if (a == "--replays") rdir = nx();
        else if (a == "--replay") replay = nx();
        else if (a == "--bytes") bytesf = nx();
        else if (a == "--corpus") corpus = nx();
        else if (a == "--case") only = atol(nx());
        else if (a == "--limit") limit = atof(nx());
        else if (a == "--known") known.push_back({nx()});
        else if (a == "--list") { for (auto &p : props()) printf("%s %ld %ld\n", p.id, p.quick, p.thorough); return 0; }
    }
    (void)corpus;
    const Property *p = prop ? find(prop) : nullptr;
    if (!p) { fprintf(stderr, "no such property\n"); return 2; }
    if (jobs < 1) jobs = 1;
    if (!cases) cases = thorough ? p->thorough : p->quick;
    pending_labels = new std::vector<std::string>; seen = new std::unordered_set<uint64_t>;
    std::vector<Shm *> shm;
    for (int i = 0; i <= jobs; i++) shm.push_back((Shm *)shm_alloc(sizeof(Shm)));
    S = shm[jobs];
    g_errfile = fmt("%s/%s.%d.err", rdir, prop, (int)getpid());
    uint64_t pseed = hash_bytes(prop, strlen(prop), 0x9E3779B97F4A7C15ULL ^ (seed * 0xD1342543DE82EF95ULL));
    auto case_seed = [&](long i) { uint64_t s = pseed + (uint64_t)i * 0xA0761D6478BD642FULL; return splitmix(s); };

    if (replay) { // a replay of a history of cases
        std::string t = slurp(replay, 4000000); size_t q = t.find("\nhistory ");
        unsigned long long sd; long a, b, c;
        if (q != std::string::npos && sscanf(t.c_str() + q, "\nhistory %llu %ld %ld %ld", &sd, &a, &b, &c) == 4) {
            seed = sd;
            pseed = hash_bytes(prop, strlen(prop), 0x9E3779B97F4A7C15ULL ^ (seed * 0xD1342543DE82EF95ULL));
            Outcome o = run_range(p, a, b, c, case_seed, true);
            printf("%s", o.notes.c_str());
            if (!o.failed) { printf("case passes\n"); return 0; }
            printf("%s: %s\n", o.kind.c_str(), o.msg.c_str());
            return 1;
        }
    }
    if (replay || bytesf || only >= 0) {
        std::vector<uint64_t> v;
        if (replay) { if (!read_replay(replay, v)) { fprintf(stderr, "cannot read %s\n", replay); return 2; } }
        else if (bytesf || only >= 0) {
            // convert to choices by running once
            std::string d = bytesf ? slurp(bytesf, 1 << 20) : "";
            pid_t pid = fork();
            if (pid == 0) {
                arm_handlers(); arm(); g_nostat = true;
                int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
                begin_case(-1);
                if (bytesf) { ByteGen g((const uint8_t *)d.data(), d.size()); p->fn(g); }
                else { RandomGen g(case_seed(only)); p->fn(g); }
                end_case(); _exit(0);
            }
            int st; waitpid(pid, &st, 0);
            v.assign((uint64_t *)S->ch, (uint64_t *)S->ch + S->nch);
        }
        Outcome o = run_choices(p, v, !bytesf);
        printf("%s", o.notes.c_str());
        if (!o.failed) { unlink(g_errfile.c_str()); printf("case passes\n"); return 0; }
        printf("%s: %s\n", o.kind.c_str(), o.msg.c_str());
        if (bytesf) {
            int rep = 1; for (int k = 0; k < 2; k++) if (run_choices(p, o.ch).failed) rep++;
            if (rep < 3) { printf("not reproducible (%d of 3)\n", rep); return 3; }
            Outcome s = shrink(p, o, 60);
            std::string path = fmt("%s/%s-fuzz-%016llx.txt", rdir, prop, (unsigned long long)hash_bytes(s.ch.data(), s.ch.size() * 8));
            write_replay(path, p, s, seed, -1);
            for (auto &kn : known) if (s.msg.find(kn.sig) != std::string::npos || o.msg.find(kn.sig) != std::string::npos) { printf("KNOWN %s\n", kn.sig.c_str()); unlink(g_errfile.c_str()); return 4; }
            printf("REPLAY %s\nMESSAGE %s\n", path.c_str(), esc(s.msg).c_str());
        }
        unlink(g_errfile.c_str());
        return 1;
    }

    double t0 = now();
    std::vector<pid_t> pid(jobs, 0);
    std::vector<long> next(jobs);
    std::vector<std::string> werr(jobs);
    auto start = [&](int w) {
        fflush(stdout); fflush(stderr);
        pid[w] = fork();
        if (pid[w] == 0) {
            S = shm[w];
            int fd = open(werr[w].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 2); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
            arm_handlers();
            for (long i = 0; i < S->nhash; i++) seen->insert(S->hashes[i]);
            for (long i = next[w]; i < cases; i += jobs) {
                if (now() - t0 > limit) break;
                arm();
                if (lseek(2, 0, SEEK_CUR) > 0) { ftruncate(2, 0); lseek(2, 0, SEEK_SET); }
                RandomGen g(case_seed(i));
                begin_case(i);
                p->fn(g);
                end_case();
            }
            S->case_no = -1;
            if (__llvm_profile_write_file) { __llvm_profile_set_filename(fmt("%s/prof-%s-%d.raw", getenv("VF_COV"), prop, (int)getpid()).c_str()); __llvm_profile_write_file(); }
            _exit(0);
        }
    };
    for (int w = 0; w < jobs; w++) { next[w] = w; werr[w] = fmt("%s/%s.%d.w%d.err", rdir, prop, (int)getpid(), w); start(w); }
    int active = jobs, violations = 0; std::string vpath, vmsg; long unrepro = 0, overlong = 0;
    bool stop = false;
    while (active > 0) {
        int st; pid_t q = waitpid(-1, &st, 0);
        if (q < 0) { if (errno == EINTR) continue; break; }
        int w = -1; for (int i = 0; i < jobs; i++) if (pid[i] == q) w = i;
        if (w < 0) continue;
        pid[w] = 0; active--;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (stop) continue;
        long no = shm[w]->case_no;
        if (no < 0) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 79) { overlong++; next[w] = no + jobs; start(w); active++; continue; }
        // failure at case no
        std::vector<uint64_t> v((uint64_t *)shm[w]->ch, (uint64_t *)shm[w]->ch + shm[w]->nch);
        Outcome o0; o0.failed = true; o0.err = slurp(werr[w]); o0.msg = summarize(st, shm[w], o0.err, o0.kind); o0.ch = v; o0.notes = shm[w]->notes;
        S = shm[jobs];
        Outcome o; int rep = 0;
        for (int k = 0; k < 3; k++) { o = run_choices(p, v); if (o.failed) rep++; }
        long hist = -1;
        if (rep < 3) { // does it need earlier cases of the same worker?
            for (long back : {1L, 4L, 16L, 64L, 256L, 4096L}) {
                long from = no - back * jobs; if (from < w) from = w;
                int r2 = 0;
                for (int k = 0; k < 3; k++) { o = run_range(p, from, no, jobs, case_seed); if (o.failed) r2++; else break; }
                if (r2 == 3) { hist = from; break; }
                if (from == w) break;
            }
        }
        if (hist >= 0) rep = 3;
        if (rep < 3) {
            unrepro++;
            fprintf(stderr, "case %ld failed once (%s: %s) but on replay only %d of 3\n", no, o0.kind.c_str(), o0.msg.c_str(), rep);
            if (unrepro < 20) { next[w] = no + jobs; start(w); active++; }
            continue;
        }
        bool isknown = false;
        for (auto &kn : known) if (o.msg.find(kn.sig) != std::string::npos) { kn.hits++; isknown = true; break; }
        if (isknown) { next[w] = no + jobs; start(w); active++; continue; }
        stop = true;
        for (int i = 0; i < jobs; i++) if (pid[i]) kill(pid[i], SIGKILL);
        Outcome s = hist >= 0 ? o : shrink(p, o, 60);
        for (auto &kn : known) if (s.msg.find(kn.sig) != std::string::npos) { s = o; break; }
        vpath = fmt("%s/%s-%llu-%ld.txt", rdir, prop, (unsigned long long)seed, no);
        write_replay(vpath, p, s, seed, no);
        if (hist >= 0) { FILE *f = fopen(vpath.c_str(), "a"); fprintf(f, "\nhistory %llu %ld %ld %d\n", (unsigned long long)seed, hist, no, jobs); fclose(f); }
        vmsg = s.msg; violations++;
    }
    for (int w = 0; w < jobs; w++) unlink(werr[w].c_str());
    unlink(g_errfile.c_str());
    // merge statistics
    long done = 0, disc = 0, nt = 0; std::map<std::string, long> labs; std::set<uint64_t> hs; std::vector<std::string> samp;
    for (int w = 0; w < jobs; w++) {
        Shm *s = shm[w];
        done += s->done; disc += s->discards; nt += s->nontriv;
        for (long i = 0; i < s->nlab; i++) labs[s->lab[i]] += s->labn[i];
        for (long i = 0; i < s->nhash; i++) hs.insert(s->hashes[i]);
        for (long i = 0; i < s->nsamp; i++) samp.push_back(s->samples[i]);
    }
    std::string j = "{";
    j += fmt("\"evaluations\":%ld,\"nontrivial\":%ld,\"distinct_nontrivial\":%zu,\"discarded\":%ld,\"overlong\":%ld,\"planned\":%ld,\"unreproducible\":%ld,\"wall_s\":%.3f,",
             done, nt, hs.size(), disc, overlong, cases, unrepro, now() - t0);
    j += "\"rule\":" + jstr(p->rule) + ",\"labels\":{";
    bool first = true;
    for (auto &l : labs) { j += (first ? "" : ",") + jstr(l.first) + fmt(":%ld", l.second); first = false; }
    j += "},\"samples\":[";
    first = true; size_t ns = 0;
    for (auto &s : samp) { if (ns++ >= 6) break; j += (first ? "" : ",") + jstr(s); first = false; }
    j += "],\"known\":{";
    first = true;
    for (auto &k : known) { j += (first ? "" : ",") + jstr(k.sig) + fmt(":%ld", k.hits); first = false; }
    j += fmt("},\"violations\":%d", violations);
    if (violations) j += ",\"replay\":" + jstr(vpath) + ",\"message\":" + jstr(vmsg);
    j += "}\n";
    if (out) { FILE *f = fopen(out, "w"); if (!f) return 2; fputs(j.c_str(), f); fclose(f); } else fputs(j.c_str(), stdout);
    return violations ? 1 : 0;
}
#endif
}

// times in results are UTC wherever the program runs
__attribute__((constructor)) static void foreign_zone() { setenv("TZ", "VFT-5:30VFS,M3.2.0,M11.1.0", 1); tzset(); }
#ifndef VF_FUZZ
int main(int argc, char **argv) { return vf::main_run(argc, argv); }
#else
#ifndef VF_PROP
#error VF_PROP
#endif
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) { return vf::run_case_bytes(VF_PROP, d, n); }
#endif
