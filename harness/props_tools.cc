// P31 P32: the programs under bin/ run in a child process against a simulated bus.  Their calls of mbus_context_tcp,
// mbus_context_serial, mbus_serial_set_baudrate and exit are redirected to sim_*, so that every handle leads to the
// simulation; everything else is the library.
#include "world.h"
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <regex>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

#define TOOLS(X) X(mbus_serial_request_data_multi_reply) X(mbus_serial_request_data) X(mbus_serial_scan_secondary) X(mbus_serial_scan) X(mbus_serial_select_secondary) \
    X(mbus_serial_set_address) X(mbus_serial_switch_baudrate) X(mbus_tcp_application_reset) X(mbus_tcp_raw_send) X(mbus_tcp_request_data_multi_reply) X(mbus_tcp_request_data) \
    X(mbus_tcp_scan_secondary) X(mbus_tcp_scan) X(mbus_tcp_select_secondary)
#define D(t) extern "C" int tool_##t##_main(int, char **);
TOOLS(D)
#undef D
typedef int (*Main)(int, char **);

// ------------------------------------------------------------------------------------------ running a program
struct Run { int status = -1; std::string out, err; std::vector<Bytes> tx; long sends = 0, contexts = 0, connects = 0; std::string target; int port = -1; char kind = 0; std::vector<std::string> ev; std::vector<long> rates; std::vector<long> rate_at; };
struct Trace { volatile int failed; long n; uint8_t b[1 << 20]; long sends, contexts, connects; char target[256]; int port; char kind; long nrates, rates[16], rate_at[16]; long ne; uint8_t ev[1 << 22]; };
static Trace *TR; static bool conn_fails;
static int sim_open(mbus_handle *) { TR->connects++; return conn_fails ? -1 : 0; }
static int sim_close(mbus_handle *) { return 0; }
static void happened(char kind, const Bytes &b) { // what an observer of the line sees
    if (TR->ne + 3 + (long)b.size() > (long)sizeof TR->ev) return;
    TR->ev[TR->ne++] = (uint8_t)kind; TR->ev[TR->ne++] = (uint8_t)b.size(); TR->ev[TR->ne++] = (uint8_t)(b.size() >> 8); memcpy(TR->ev + TR->ne, b.data(), b.size()); TR->ne += (long)b.size();
}
static int tool_recv(mbus_handle *h, mbus_frame *f) {
    Bytes b; if (!B->rx.empty()) b = B->rx.front().b; int r = bus_recv(h, f);
    if (!b.empty() && (r == 0 || r == MBUS_RECV_RESULT_INVALID)) { happened('R', b); if (h->recv_event) { Exact e(b); h->recv_event(h->is_serial ? MBUS_HANDLE_TYPE_SERIAL : MBUS_HANDLE_TYPE_TCP, (const char *)e.p, e.n); } }
    return r;
}
static int tool_send(mbus_handle *h, mbus_frame *f) {
    int r = bus_send(h, f); TR->sends = B->sends;
    if (r == 0) { const Bytes &b = B->tx.back(); VF_CHECK(TR->n + 2 + b.size() <= sizeof TR->b, "more telegrams than expected"); TR->b[TR->n++] = (uint8_t)b.size(); TR->b[TR->n++] = (uint8_t)(b.size() >> 8); memcpy(TR->b + TR->n, b.data(), b.size()); TR->n += (long)b.size();
        happened('S', b); if (h->send_event) { Exact e(b); h->send_event(h->is_serial ? MBUS_HANDLE_TYPE_SERIAL : MBUS_HANDLE_TYPE_TCP, (const char *)e.p, e.n); } }
    return r;
}
static mbus_handle *attach(mbus_handle *h, const char *t, int port, char kind) {
    TR->contexts++; snprintf(TR->target, sizeof TR->target, "%s", t); TR->port = port; TR->kind = kind;
    if (h) { h->open = sim_open; h->close = sim_close; h->send = tool_send; h->recv = tool_recv; }
    return h;
}
extern "C" mbus_handle *sim_mbus_context_tcp(const char *host, uint16_t port) { return attach(mbus_context_tcp(host, port), host, port, 't'); }
extern "C" mbus_handle *sim_mbus_context_serial(const char *dev) { return attach(mbus_context_serial(dev), dev, -1, 's'); }
static bool good_rate(long r) { static const long ok[] = {300, 600, 1200, 2400, 4800, 9600, 19200, 38400}; for (long x : ok) if (x == r) return true; return false; }
extern "C" int sim_mbus_serial_set_baudrate(mbus_handle *h, long rate) {
    if (!h) return -1;
    if (TR->nrates < 16) { TR->rates[TR->nrates] = rate; TR->rate_at[TR->nrates++] = TR->sends; }
    return good_rate(rate) ? 0 : -1;
}
extern "C" void sim_exit(int c) { fflush(stdout); fflush(stderr); _exit(c & 0xFF); }
static std::string slurp_fd(int fd) { std::string s; lseek(fd, 0, SEEK_SET); char b[8192]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, (size_t)n); return s; }
static int scratch_fd(const char *n) { int fd = memfd_create(n, 0); if (fd < 0) { char t[] = "/tmp/vftoolXXXXXX"; fd = mkstemp(t); if (fd >= 0) unlink(t); } VF_CHECK(fd >= 0, "harness: no scratch file"); return fd; }
static std::string cmdline(const std::vector<std::string> &a) { std::string s; for (auto &x : a) s += (s.empty() ? "" : " ") + esc(x); return s; }
static Run run(Main m, const std::vector<std::string> &args, const World &w0, long fail_at, bool cfail = false, const std::string &input = "", long heap_fail = 0) {
    if (!TR) { TR = (Trace *)mmap(NULL, sizeof(Trace), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); VF_CHECK(TR != MAP_FAILED, "harness: mmap"); }
    TR->n = TR->sends = TR->contexts = TR->connects = TR->nrates = TR->ne = 0; TR->target[0] = 0; TR->port = -1; TR->kind = 0;
    int o = scratch_fd("out"), e = scratch_fd("err"), in = scratch_fd("in");
    if (!input.empty()) VF_CHECK(write(in, input.data(), input.size()) == (ssize_t)input.size(), "harness: input");
    lseek(in, 0, SEEK_SET);
    fflush(stdout); fflush(stderr);
    pid_t p = fork(); VF_CHECK(p >= 0, "harness: fork");
    if (p == 0) {
        alarm(60); struct rlimit rl = {16 << 20, 16 << 20}; setrlimit(RLIMIT_FSIZE, &rl);
        dup2(o, 1); dup2(e, 2); dup2(in, 0);
        World w = w0; Bus bus; B = &bus; bus.fail_at = fail_at; conn_fails = cfail; bus.limit = 100000;
        bus.on_tx = [&](const Bytes &b) { w.tx(b, bus.rx); };
        std::vector<std::string> a = args; std::vector<char *> av; for (auto &x : a) av.push_back(&x[0]); av.push_back(NULL);
        Heap::reset(); if (heap_fail) Heap::fail_at(heap_fail);
        sim_exit(m((int)a.size(), av.data()));
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    Run r; r.out = slurp_fd(o); r.err = slurp_fd(e); close(o); close(e); close(in);
    std::string c = cmdline(args);
    VF_CHECK(WIFEXITED(st), "%s: ends with signal %d", c.c_str(), WTERMSIG(st));
    r.status = WEXITSTATUS(st);
    if (r.status == 77) fail("%s: the program does not come to an end or sends too much", c.c_str());
    if (r.status == 99) { size_t k = r.err.find("ERROR: AddressSanitizer"); if (k == std::string::npos) k = r.err.find("runtime error"); size_t l = k == std::string::npos ? 0 : k > 80 ? k - 80 : 0; fprintf(stderr, "%s", r.err.c_str()); fail("%s: %s", c.c_str(), r.err.substr(l, 400).c_str()); }
    r.sends = TR->sends; r.contexts = TR->contexts; r.connects = TR->connects; r.target = TR->target; r.port = TR->port; r.kind = TR->kind;
    r.rates.assign(TR->rates, TR->rates + TR->nrates); r.rate_at.assign(TR->rate_at, TR->rate_at + TR->nrates);
    for (long i = 0; i < TR->n;) { size_t n = TR->b[i] | TR->b[i + 1] << 8; r.tx.push_back(Bytes(TR->b + i + 2, TR->b + i + 2 + n)); i += 2 + (long)n; }
    for (long i = 0; i < TR->ne;) { size_t n = TR->ev[i + 1] | TR->ev[i + 2] << 8; r.ev.push_back((TR->ev[i] == 'S' ? "SEND " : "RECV ") + hex(TR->ev + i + 3, n)); i += 3 + (long)n; }
    return r;
}
// ------------------------------------------------------------------------------------------ reference master
struct Ref {
    World w; std::deque<Item> q; std::vector<Bytes> tx; long snd = 0, fail_at = -1;
    Item raw() { if (q.empty()) return {MBUS_RECV_RESULT_TIMEOUT, Bytes()}; Item i = q.front(); q.pop_front(); return i; }
    Item recv() { Item i = raw(); if (i.code == 0 && is_m2s(i.b)) i = raw(); return i; }
    bool purge() { bool r = false; for (;;) { Item i = recv(); if (i.code != 0 && i.code != MBUS_RECV_RESULT_INVALID) return r; r = true; } }
    bool send(const Bytes &b) { snd++; if (fail_at > 0 && snd >= fail_at) return false; tx.push_back(b); w.tx(b, q); return true; }
    bool ping(int a) { if (!send(short_bytes(0x40, (uint8_t)a))) return false; purge(); return true; }
    bool init() { return ping(0xFD) && ping(0xFD); }
    bool select(const std::string &m) { // a single slave answers
        if (!send(select_tel(m))) return false;
        Item i = recv(); if (i.code == MBUS_RECV_RESULT_INVALID) { purge(); return false; }
        return i.code == 0 && i.b == ACKB && !purge();
    }
};
static bool is_sec(const std::string &s) { if (s.size() != 16) return false; for (char c : s) if (!isxdigit((unsigned char)c)) return false; return true; }
static const std::regex STAMP("<Timestamp>[^<]*</Timestamp>");
static std::string nostamp(const std::string &s) { return std::regex_replace(s, STAMP, "<Timestamp>#</Timestamp>"); }
static bool single_xml(const Bytes &b, std::string &x) {
    mbus_frame f; memset(&f, 0, sizeof f); if (lib_parse(&f, b)) return false;
    f.timestamp = 1000000000; mbus_frame_data d; memset(&d, 0, sizeof d);
    if (mbus_frame_data_parse(&f, &d)) return false;
    char *s = mbus_frame_data_xml(&d); bool ok = s; if (s) { x = nostamp(s); vf_release(s); }
    if (d.type == MBUS_DATA_TYPE_VARIABLE && d.data_var.record) mbus_data_record_free(d.data_var.record);
    return ok;
}
static bool chain_xml(const std::vector<Bytes> &c, std::string &x) {
    std::vector<mbus_frame> f(c.size()); for (size_t i = 0; i < c.size(); i++) { memset(&f[i], 0, sizeof f[i]); if (lib_parse(&f[i], c[i])) return false; f[i].timestamp = 1000000000; f[i].next = i + 1 < c.size() ? &f[i + 1] : NULL; }
    char *s = mbus_frame_xml(&f[0]); bool ok = s; if (s) { x = nostamp(s); vf_release(s); }
    return ok;
}
// outcome of data decoding: -1 undecodable, 0 last telegram, 1 more to come
static int decode(const Bytes &b) {
    mbus_frame f; memset(&f, 0, sizeof f); if (lib_parse(&f, b)) return -1; mbus_frame_data d; memset(&d, 0, sizeof d);
    if (mbus_frame_data_parse(&f, &d)) return -1;
    if (d.type != MBUS_DATA_TYPE_VARIABLE) return 0;
    int m = d.data_var.more_records_follow ? 1 : 0; if (d.data_var.record) mbus_data_record_free(d.data_var.record); return m;
}
static std::string txs(const std::vector<Bytes> &v) { std::string s; size_t k = 0; for (auto &b : v) { if (++k > 30) { s += "..."; break; } s += hex(b) + "; "; } return s.empty() ? "nothing" : s; }
static const long RATES[] = {300, 600, 1200, 2400, 4800, 9600, 19200, 38400};
static long gen_bad_rate(Gen &g) { static const long bad[] = {0, -1, 1, 301, 1800, 14400, 57600, 115200, -9600, 4294976896L}; return g.pick(bad); }
struct Target { bool serial; std::string t, port; };        // what the program is asked to talk to
static Target gen_target(Gen &g, bool serial) { Target t; t.serial = serial; if (serial) t.t = fmt("/dev/ttyX%d", (int)g.below(4)); else { t.t = fmt("gw%d.example", (int)g.below(4)); t.port = fmt("%d", g.chance(1, 6) ? (g.coin() ? 65535 : 0) : (int)g.range(1, 65535)); } return t; }
static void push_target(std::vector<std::string> &a, const Target &t) { a.push_back(t.t); if (!t.serial) a.push_back(t.port); }
static void check_target(const Run &r, const Target &t, long rate, const std::string &c) {
    VF_CHECK(r.contexts == 1 && r.kind == (t.serial ? 's' : 't') && r.target == t.t, "%s: connects to %s", c.c_str(), r.contexts ? esc(r.target).c_str() : "nothing");
    if (!t.serial) VF_CHECK(r.port == atoi(t.port.c_str()), "%s: connects to port %d", c.c_str(), r.port);
    else if (r.connects && r.sends) {
        long cur = -1; for (size_t i = 0; i < r.rates.size(); i++) { VF_CHECK(r.rate_at[i] == 0, "%s: the baud rate is changed after the first telegram", c.c_str()); cur = r.rates[i]; }
        if (rate) VF_CHECK(cur == rate, "%s: works with %ld bit/s, should be %ld", c.c_str(), cur, rate);
    }
}
static void check_refused(const Run &r, const std::string &c, bool status) {
    VF_CHECK(r.sends == 0, "%s: invalid arguments, but telegrams are sent: %s", c.c_str(), txs(r.tx).c_str());
    if (status) VF_CHECK(r.status != 0, "%s: invalid value, but the program ends successfully", c.c_str());
}

// with -d every telegram on the line is shown, in order; without it none
static void check_trace(const Run &r, bool dbg, const std::string &c) {
    std::string t = r.err + "\n" + r.out; size_t n = 0;
    for (size_t i = 0; (i = t.find("Z] ", i)) != std::string::npos; i++) {
        std::string k = t.substr(i + 3, 4); if ((k != "SEND" && k != "RECV") || t.compare(i + 7, 2, " (")) continue;
        size_t a = t.find("):", i); if (a == std::string::npos) continue; size_t z = t.find('\n', a); Bytes b;
        for (size_t j = a + 2; j + 2 < t.size() && j + 2 < z && t[j] == ' ' && isxdigit((unsigned char)t[j + 1]) && isxdigit((unsigned char)t[j + 2]); j += 3) b.push_back((uint8_t)strtol(t.substr(j + 1, 2).c_str(), NULL, 16));
        std::string g = k + " " + hex(b); VF_CHECK(dbg, "%s: without -d the trace shows %s", c.c_str(), g.c_str());
        VF_CHECK(n < r.ev.size() && r.ev[n] == g, "%s: entry %zu of the trace is %s, on the line is %s", c.c_str(), n + 1, g.c_str(), n < r.ev.size() ? r.ev[n].c_str() : "nothing"); n++;
    }
    if (dbg && r.ev.size() < 20000) VF_CHECK(n == r.ev.size(), "%s: the trace has %zu entries for %zu telegrams", c.c_str(), n, r.ev.size());
    if (dbg) label("trace compared");
}
// ------------------------------------------------------------------------------------------ P31
VF_PROPERTY(P31, 10000, 120000, "runs of both primary scan programs with generated options against populations of 0-60 slaves and full busses (several at one address, colliding answers seen as damage, several answers or one), with answers lost, damaged, multiplied or of another kind, device errors and transmission failures, and with invalid arguments; standard output, exit status and telegrams compared with a model; non-trivial: at least one slave, fault or refusal; distinct by arguments, population and faults") {
    bool serial = g.coin(); Main m = serial ? tool_mbus_serial_scan_main : tool_mbus_tcp_scan_main;
    Target t = gen_target(g, serial); bool dbg = g.chance(1, 4), optr = g.chance(2, 3), optb = serial && g.coin();
    int retries = optr ? (int)g.below(4) : 0; if (optr && g.chance(1, 12)) retries = 9;
    long rate = optb ? g.pick(RATES) : 9600; std::string rs = fmt("%d", retries), bs = fmt("%ld", rate);
    World w; w.echo = g.coin(); w.style = (int)g.below(4); gen_junk(g, w);
    size_t n = g.chance(1, 8) ? 0 : g.size(1, 60); bool full = g.chance(1, 40); if (full) n = (size_t)g.range(200, 280);
    for (size_t i = 0; i < n; i++) { Dev d; int p = full && i <= 250 ? (int)i : !w.devs.empty() && g.chance(1, 5) ? g.pick(w.devs).pa : g.chance(1, 6) ? g.pick(std::vector<int>{0, 1, 249, 250, 251, 252}) : (int)g.below(251); d.pa = p; d.sec = std::string(16, '0'); w.devs.push_back(d); }
    if (n && g.coin()) { size_t k = g.size(1, 80); for (size_t i = 0; i < k; i++) w.fate.push_back((Fate)g.weighted({8, 4, 2, 2, 1, 1, 2})); }
    long fail_at = g.chance(1, 12) ? g.range(1, 300) : -1; bool cfail = g.chance(1, 30);
    int bad = g.chance(1, 6) ? (int)g.below(5) + 1 : 0; bool status = true;
    switch (bad) {
    case 1: rs = g.pick(std::vector<std::string>{"-1", "10", "11", "256", "257", "-256", "1000", "65536"}); optr = true; break;
    case 2: if (serial) { optb = true; bs = fmt("%ld", gen_bad_rate(g)); } else t.port = g.pick(std::vector<std::string>{"-1", "65536", "65537", "100000", "-65535", "4294967296"}); break;
    default: break;
    }
    std::vector<std::string> a = {serial ? "mbus-serial-scan" : "mbus-tcp-scan"};
    if (dbg) a.push_back("-d"); if (optb) { a.push_back("-b"); a.push_back(bs); } if (optr) { a.push_back("-r"); a.push_back(rs); }
    push_target(a, t);
    if (bad == 3) { a.resize(1); if (!serial && g.coin()) a.push_back(t.t); status = false; }
    if (bad == 4) { for (size_t k = g.size(1, 3); k > 0 || a.size() < 8; k -= k > 0) a.push_back("x"); status = false; }
    if (bad == 5) { a = {a[0], "-x"}; a.push_back(t.t); a.push_back(serial ? "y" : t.port); status = false; }
    std::string c = cmdline(a);
    note("%s; population %s; style %d echo %d faults %s; fail %ld connect %d", c.c_str(), dev_str(w).c_str(), w.style, w.echo, fates(w).c_str(), fail_at, !cfail);
    Run r = run(m, a, w, fail_at, cfail);
    static const std::regex LINE("(Found a M-Bus device|Collision) at address (-?[0-9]+)");
    std::string got; for (auto i = std::sregex_iterator(r.out.begin(), r.out.end(), LINE); i != std::sregex_iterator(); ++i) got += ((*i)[1].str()[0] == 'F' ? "found " : "collision ") + (*i)[2].str() + "; ";
    if (bad) { check_refused(r, c, status); VF_CHECK(got.empty(), "%s: invalid arguments, but %s", c.c_str(), got.c_str()); label("invalid arguments"); nontrivial(c); return; }
    if (cfail) { VF_CHECK(r.sends == 0 && r.status != 0 && got.empty(), "%s: no connection, but status %d and %s", c.c_str(), r.status, got.c_str()); label("no connection"); nontrivial(c); return; }
    check_target(r, t, rate, c); check_trace(r, dbg, c);
    Ref f; f.w = w; f.fail_at = fail_at; std::string want; size_t found = 0, coll = 0;
    for (int ad = 0; ad <= 250; ad++) {
        Item i; for (int k = 0; k <= retries; k++) { if (!f.send(short_bytes(0x40, (uint8_t)ad))) { i = {MBUS_RECV_RESULT_ERROR, Bytes()}; break; } i = f.recv(); if (i.code != MBUS_RECV_RESULT_TIMEOUT) break; }
        if (i.code == MBUS_RECV_RESULT_INVALID) { f.purge(); want += fmt("collision %d; ", ad); coll++; }
        else if (i.code == 0 && i.b == ACKB) { if (f.purge()) { want += fmt("collision %d; ", ad); coll++; } else { want += fmt("found %d; ", ad); found++; } }
    }
    VF_CHECK(got == want, "%s: reports %sshould be %s", c.c_str(), got.empty() ? "nothing, " : got.c_str(), want.empty() ? "nothing" : want.c_str());
    VF_CHECK(r.tx == f.tx, "%s: %zu telegrams are sent, should be %zu: %s", c.c_str(), r.tx.size(), f.tx.size(), txs(r.tx).c_str());
    if (fail_at < 0 || fail_at > f.snd) VF_CHECK(r.status == 0, "%s: exit status %d", c.c_str(), r.status);
    label(coll ? "collisions" : found ? "slaves found" : "nothing found"); if (!w.fate.empty()) label("faults"); if (fail_at > 0) label("transmission failure");
    if (n || fail_at > 0) nontrivial(c + dev_str(w) + fates(w) + fmt("%ld", fail_at));
}

// ------------------------------------------------------------------------------------------ P32
enum Kind { READ, MULTI, SELECT, SETADDR, BAUD, RESET, RAW, SCAN2 };
static std::string gen_mask(Gen &g, const World &w, bool &ok) { // a secondary address or mask
    std::string m(16, 'F'); ok = true;
    if (!w.devs.empty() && g.chance(5, 6)) { m = g.pick(w.devs).sec; if (g.coin()) { size_t k = g.below(17); for (size_t i = k; i < 16; i++) m[i] = 'F'; } else if (g.chance(1, 4)) m[g.below(16)] = 'F'; }
    else if (g.coin()) for (auto &x : m) x = "0123456789F"[g.below(11)];
    if (g.chance(1, 4)) for (auto &x : m) x = (char)tolower(x);
    return m;
}
VF_PROPERTY(P32, 20000, 400000, "runs of the read-out, selection, set-address, reset, baud-rate, raw-send and secondary-scan programs with generated valid and invalid arguments against populations of 0-6 slaves, with lost, damaged, multiplied, unexpected answers, device errors, transmission failures and memory shortage; standard output, exit status and telegrams compared with a model of the command; non-trivial: all; distinct by arguments, population and faults") {
    static const struct { Kind k; bool serial; Main m; const char *n; } P[] = {
        {READ, false, tool_mbus_tcp_request_data_main, "mbus-tcp-request-data"}, {READ, true, tool_mbus_serial_request_data_main, "mbus-serial-request-data"},
        {MULTI, false, tool_mbus_tcp_request_data_multi_reply_main, "mbus-tcp-request-data-multi-reply"}, {MULTI, true, tool_mbus_serial_request_data_multi_reply_main, "mbus-serial-request-data-multi-reply"},
        {SELECT, false, tool_mbus_tcp_select_secondary_main, "mbus-tcp-select-secondary"}, {SELECT, true, tool_mbus_serial_select_secondary_main, "mbus-serial-select-secondary"},
        {SETADDR, true, tool_mbus_serial_set_address_main, "mbus-serial-set-address"}, {BAUD, true, tool_mbus_serial_switch_baudrate_main, "mbus-serial-switch-baudrate"},
        {RESET, false, tool_mbus_tcp_application_reset_main, "mbus-tcp-application-reset"}, {RAW, false, tool_mbus_tcp_raw_send_main, "mbus-tcp-raw-send"},
        {SCAN2, false, tool_mbus_tcp_scan_secondary_main, "mbus-tcp-scan-secondary"}, {SCAN2, true, tool_mbus_serial_scan_secondary_main, "mbus-serial-scan-secondary"}};
    auto &p = P[g.below(12)]; Kind k = p.k; bool serial = p.serial;
    Target t = gen_target(g, serial);
    World w; w.echo = g.coin(); w.style = (int)g.below(k == SCAN2 ? 3 : 4); gen_junk(g, w);
    size_t n = g.chance(1, 12) ? 0 : g.size(1, 6);
    for (size_t i = 0; i < n; i++) w.devs.push_back(gen_dev(g, !w.devs.empty() && g.chance(1, 12) ? g.pick(w.devs).pa : (int)g.range(0, 250), k == MULTI, w.devs));
    if (g.coin()) { size_t c = g.size(1, 8); for (size_t i = 0; i < c; i++) w.fate.push_back(k == SCAN2 ? FT_OK : (Fate)g.weighted({10, 3, 2, 2, 1, 1, 2})); }
    long fail_at = g.chance(1, 10) ? g.range(1, k == SCAN2 ? 40 : 6) : -1; bool cfail = g.chance(1, 40);
    bool dbg = k != SELECT && k != BAUD && !(k == SCAN2 && !serial) && g.chance(1, 4), optb = serial && g.coin();
    long rate = optb ? g.pick(RATES) : 9600; std::string bs = fmt("%ld", rate);
    // addressee
    bool sec = k == SELECT || k == SCAN2 || (k != BAUD && g.coin()); bool aok = true, mok = true; int pa = 0; std::string as;
    if (sec) as = gen_mask(g, w, mok);
    else { pa = !w.devs.empty() && g.chance(5, 6) ? g.pick(w.devs).pa : (int)g.below(256); if (g.chance(1, 12)) pa = g.pick(std::vector<int>{256, 257, 300, 511, 512, 999, 65536, 65541, -1, -2, -251}); as = fmt("%d", pa); aok = pa >= 0 && pa <= 255; }
    int maxf = 16; bool optf = k == MULTI && g.coin(); if (optf) switch (g.below(4)) { case 0: maxf = g.chance(1, 3) ? -(int)g.range(1, 9) : 0; break; case 1: maxf = (int)g.range(14, 22); break; default: maxf = (int)g.range(1, 6); break; }
    int na = 0; long target_rate = 0; bool trok = true; int sub = -1; bool nok = true;
    std::string hexs; Bytes raw; int rawres = 0; bool from_file = k == RAW && g.coin(); std::string file;
    std::vector<std::string> opts, tail;
    if (dbg) opts.push_back("-d");
    if (optb) { opts.push_back("-b"); opts.push_back(bs); }
    if (optf) { std::vector<std::string> o2 = {"-f", fmt("%d", maxf)}; opts.insert(g.coin() || optb ? opts.end() : opts.begin(), o2.begin(), o2.end()); }
    switch (k) {
    case SETADDR: na = g.chance(1, 4) ? g.pick(std::vector<int>{0, 250, 251, 252, 253, 254, 255, 256, 260, 511, -1, -256, 65541}) : !w.devs.empty() && g.chance(1, 4) ? g.pick(w.devs).pa : (int)g.range(0, 250); nok = na >= 0 && na <= 250; tail = {as, fmt("%d", na)}; break;
    case BAUD: target_rate = g.chance(1, 6) ? gen_bad_rate(g) : g.pick(RATES); trok = good_rate(target_rate); tail = {as, fmt("%ld", target_rate)}; break;
    case RESET: tail = {as}; if (g.coin()) { sub = g.chance(1, 8) ? (int)g.range(256, 600) : (int)g.below(256); tail.push_back(fmt("%d", sub)); } break;
    case RAW: {
        Tel rt = gen_tel(g); if (!w.devs.empty() && g.chance(2, 3)) rt.a = (uint8_t)g.pick(w.devs).pa; if (rt.ud.size() > 60 && g.chance(3, 4)) rt.ud.resize(10);
        raw = tel_bytes(rt); switch (g.weighted({6, 1, 1, 1})) { case 1: raw.resize(g.below(raw.size() + 1)); break; case 2: raw[g.below(raw.size())] ^= (uint8_t)(1 + g.below(255)); break; case 3: raw.push_back(g.byte()); break; default: break; }
        int sep = (int)g.below(4); for (size_t i = 0; i < raw.size(); i++) { hexs += fmt(g.coin() ? "%02X" : "%02x", raw[i]); if (sep == 1) hexs += " "; else if (sep == 2 && g.coin()) hexs += g.coin() ? "\n" : "  "; } if (g.coin()) hexs += "\n";
        if (g.chance(1, 12)) hexs = g.pick(std::vector<std::string>{"", "zz", "\n", "1", "68 0"}); 
        { Bytes cv; size_t i = 0; for (;;) { while (i < hexs.size() && isspace((unsigned char)hexs[i])) i++; if (i + 1 >= hexs.size() || !isxdigit((unsigned char)hexs[i]) || !isxdigit((unsigned char)hexs[i + 1])) break; cv.push_back((uint8_t)strtol(hexs.substr(i, 2).c_str(), NULL, 16)); i += 2; } raw = cv; }
        rawres = ref_parse(raw.data(), raw.size()).result;
        tail = {as}; if (from_file) { char tn[] = "/tmp/vfhexXXXXXX"; int fd = mkstemp(tn); VF_CHECK(fd >= 0 && write(fd, hexs.data(), hexs.size()) == (ssize_t)hexs.size(), "harness: file"); close(fd); file = tn; tail.push_back(file); if (dbg == false && as == "-d") tail[0] = "0"; }
        break; }
    case SCAN2: if (g.chance(1, 12)) { as = std::string(16, 'F'); } else tail = {as}; break;
    default: tail = {as}; break;
    }
    // refusals
    int bad = g.chance(1, 7) ? (int)g.below(5) + 1 : 0; bool status = true;
    if (bad == 5) { status = false; if (!optb || tail.empty()) bad = 3; else { for (auto &o : opts) if (o == "-b") o = g.pick(std::vector<std::string>{"-x", "b", "--", "-B", "-bb", "-d"}); } }
    if (bad == 1) { if (serial) { bool f = false; for (size_t i = 0; i + 1 < opts.size(); i++) if (opts[i] == "-b") { opts[i + 1] = fmt("%ld", gen_bad_rate(g)); f = true; } if (!f) { opts.push_back("-b"); opts.push_back(fmt("%ld", gen_bad_rate(g))); } } else t.port = g.pick(std::vector<std::string>{"-1", "65536", "65537", "100000", "-65535", "4294967296"}); }
    if (bad == 2) { if (k == SELECT || k == SCAN2) { if (g.coin()) as[g.below(16)] = "gxG-+ ."[g.below(7)]; else if (g.coin()) as.resize(g.below(16)); else as += "0"; if (as.empty()) as = "x"; tail = {as}; } else bad = 3; }
    if (bad == 3) { status = false; opts.clear(); if (k == SCAN2) { tail.clear(); if (serial) t.t = ""; } else tail.clear(); }
    if (bad == 4) { status = false; for (int i = 0; i < 6; i++) { if (k == MULTI) opts.insert(opts.begin(), "-q"); else tail.push_back("x"); } }
    std::vector<std::string> a = {p.n}; a.insert(a.end(), opts.begin(), opts.end());
    if (bad == 3 && k == SCAN2) { if (!serial) a.push_back(t.t); } else if (bad == 3 && g.coin()) {} else push_target(a, t);
    a.insert(a.end(), tail.begin(), tail.end());
    std::string c = cmdline(a);
    long hf = (k == READ || k == MULTI) && g.chance(1, 10) ? g.range(1, 40) : 0;
    note("%s; population %s; style %d echo %d faults %s; fail %ld connect %d memory %ld%s", c.c_str(), dev_str(w).c_str(), w.style, w.echo, fates(w).c_str(), fail_at, !cfail, hf, k == RAW ? (" input " + esc(hexs)).c_str() : "");
    Run r = run(p.m, a, w, fail_at, cfail, from_file ? "" : hexs, hf);
    if (!file.empty()) unlink(file.c_str());
    label(fmt("%s%s", p.n, bad ? " refused" : ""));
    std::string sig = c + dev_str(w) + fates(w) + hexs + fmt("%ld %d", fail_at, w.style);
    if (!file.empty()) { size_t q; while ((q = sig.find(file)) != std::string::npos) sig.replace(q, file.size(), "FILE"); }
    nontrivial(sig);
    bool silent = !dbg; // without debug output standard output holds results only
    auto no_result = [&](const char *why, bool dump = false) {      // dump: an unexpected reply may be shown
        if (silent && !dump) VF_CHECK(r.out.empty(), "%s: %s, but prints %s", c.c_str(), why, esc(r.out).c_str());
        else VF_CHECK(r.out.find("<?xml") == std::string::npos && r.out.find("Success") == std::string::npos && r.out.find("Set primary") == std::string::npos && r.out.find("Switched") == std::string::npos && r.out.find("Searched") == std::string::npos, "%s: %s, but prints %s", c.c_str(), why, esc(r.out).c_str());
    };
    if (bad) { check_refused(r, c, status); VF_CHECK(r.out.find("<?xml") == std::string::npos && r.out.find("Found") == std::string::npos, "%s: invalid arguments, but prints %s", c.c_str(), esc(r.out).c_str()); return; }
    if (k == SETADDR && !nok) { check_refused(r, c, true); no_result("invalid address"); return; }
    if (cfail && r.connects) { VF_CHECK(r.sends == 0 && r.status != 0, "%s: no connection, but status %d and %ld telegrams", c.c_str(), r.status, r.sends); no_result("no connection"); label("no connection"); return; }
    check_target(r, t, rate, c); check_trace(r, dbg, c);
    // the model
    Ref f; f.w = w; f.fail_at = fail_at; bool ok = true; std::string xml, msg; const char *why = "";
    auto step = [&](bool x, const char *y) { if (ok && !x) { ok = false; why = y; } return ok; };
    bool any_status = false, found_set = false; std::vector<std::string> must; int na_addr = sec ? 0xFD : pa;
    auto addressed = [&]() { if (sec) step(f.select(as), "selection fails"); else step(aok, "no such primary address"); return ok; };
    switch (k) {
    case READ:
        if (serial) step(f.init(), "transmission fails");
        if (ok && addressed() && step(f.send(short_bytes(0x5B, (uint8_t)na_addr)), "transmission fails")) { Item i = f.recv(); if (step(i.code == 0, "no reply")) step(single_xml(i.b, xml), "undecodable reply"); }
        break;
    case MULTI:
        step(f.init(), "transmission fails");
        if (ok && addressed()) {
            std::vector<Bytes> chain; uint8_t C = 0x7B; int tries = 0;
            for (;;) {
                if (!step(tries <= 3, "no reply")) break;
                if (!step(f.send(short_bytes(C, (uint8_t)na_addr)), "transmission fails")) break;
                Item i = f.recv();
                if (i.code == MBUS_RECV_RESULT_TIMEOUT) { tries++; continue; }
                if (i.code == MBUS_RECV_RESULT_INVALID) { tries++; f.purge(); continue; }
                if (!step(i.code == 0, "reception fails")) break;
                tries = 0; f.purge(); int d = decode(i.b); if (!step(d >= 0, "undecodable reply")) break;
                chain.push_back(i.b);
                if (!d || (maxf > 0 && (int)chain.size() >= maxf)) break;
                C ^= 0x20;
            }
            if (ok) step(chain_xml(chain, xml), "undecodable reply");
        }
        break;
    case SELECT:
        if (step(f.send(select_tel(as)), "transmission fails")) {
            Item i = f.recv(); step(i.code == 0, "no reply");
            if (ok && i.b != ACKB) { any_status = true; step(false, "unexpected reply"); }
            if (ok && step(f.send(short_bytes(0x5B, 0xFD)), "transmission fails")) {
                i = f.recv(); step(i.code == 0, "no reply");
                if (ok) { any_status = true; if (i.b == ACKB) step(false, "no identity"); else { must = {"Searched for [" + as + "]"}; RefParse q = ref_parse(i.b.data(), i.b.size()); VarData v; if (q.t.ci == 0x72 && ref_variable(q.t.ud, v)) { any_status = false; must.push_back("found [" + sec_of(v.header) + "]"); } } }
            }
        }
        break;
    case SETADDR:
        step(f.init(), "transmission fails");
        if (ok && step(f.send(short_bytes(0x40, (uint8_t)na)), "transmission fails")) step(f.recv().code == MBUS_RECV_RESULT_TIMEOUT, "the new address is taken");
        if (ok && addressed() && step(f.send(long_bytes(0x53, (uint8_t)na_addr, 0x51, Bytes{0x01, 0x7A, (uint8_t)na})), "transmission fails")) {
            Item i = f.recv(); step(i.code == 0, "no reply"); if (ok && i.b != ACKB) { any_status = true; step(false, "unexpected reply"); }
            if (ok) must = {fmt("Set primary address of device to %d\n", na)};
        }
        break;
    case BAUD: {
        step(aok && trok, "invalid argument"); int ri = 0; for (int i = 0; i < 8; i++) if (RATES[i] == target_rate) ri = i;
        if (ok && step(f.send(long_bytes(0x53, (uint8_t)pa, (uint8_t)(0xB8 + ri))), "transmission fails")) {
            Item i = f.recv(); step(i.code == 0, "no reply"); if (ok && i.b != ACKB) { any_status = true; step(false, "unexpected reply"); }
            if (ok) must = {fmt("Switched baud rate of device to %ld\n", target_rate)};
        }
        break; }
    case RESET:
        if (addressed() && step(sub <= 255, "invalid subcode") && step(f.send(long_bytes(0x53, (uint8_t)na_addr, 0x50, sub >= 0 ? Bytes{(uint8_t)sub} : Bytes())), "transmission fails")) {
            Item i = f.recv(); step(i.code == 0, "no reply"); if (ok && i.b != ACKB) { any_status = true; step(false, "unexpected reply"); }
            if (ok) { must = {"Successful reset device"}; if (sub >= 0) must.push_back(fmt("(Subcode: %d)", sub)); }
        }
        break;
    case RAW:
        if (sec) step(f.select(as), "selection fails");
        if (step(rawres == 0, "not a telegram") && step(f.send(tel_bytes(ref_parse(raw.data(), raw.size()).t)), "transmission fails")) step(f.recv().code == 0, "no reply");
        break;
    case SCAN2: {
        step(f.ping(0xFD) && f.ping(0xFF), "transmission fails"); found_set = true;
        break; }
    }
    if (k == SCAN2) {
        bool failed = fail_at > 0 && r.sends >= fail_at;
        VF_CHECK(r.tx.size() >= std::min<size_t>(2, f.tx.size()) && std::equal(f.tx.begin(), f.tx.end(), r.tx.begin()), "%s: starts with %s", c.c_str(), txs(r.tx).c_str());
        for (size_t i = 2; i < r.tx.size(); i++) VF_CHECK(r.tx[i] == short_bytes(0x5B, 0xFD) || (r.tx[i].size() == 17 && r.tx[i][4] == 0x53 + 0x20 && r.tx[i][5] == 0xFD && r.tx[i][6] == 0x52), "%s: sends %s", c.c_str(), hex(r.tx[i]).c_str());
        VF_CHECK((r.status != 0) == failed, "%s: exit status %d after %s", c.c_str(), r.status, failed ? "a failed transmission" : "a complete scan");
        static const std::regex LINE("Found a device on secondary address ([0-9A-Fa-f]{16})"); std::map<std::string, int> got;
        for (auto i = std::sregex_iterator(r.out.begin(), r.out.end(), LINE); i != std::sregex_iterator(); ++i) got[(*i)[1].str()]++;
        std::map<std::string, int> pop; for (auto &d : w.devs) pop[d.sec]++;
        for (auto &x : got) { VF_CHECK(x.second == 1, "%s: %s is reported %d times", c.c_str(), x.first.c_str(), x.second); VF_CHECK(pop.count(x.first) && World::match(as, x.first), "%s: %s is reported", c.c_str(), x.first.c_str()); }
        if (!failed) for (auto &d : w.devs) {
            if (!World::match(as, d.sec)) continue;
            RefParse q = ref_parse(d.tels[0].data(), d.tels[0].size()); VarData v; if (q.t.ci != 0x72 || !ref_variable(q.t.ud, v)) continue;
            bool uniq = true; for (auto &o : w.devs) if (&o != &d && World::match(as, o.sec)) { bool diff = false; for (int i = 0; i < 8; i++) if (o.sec[i] != d.sec[i]) diff = true; if (!diff) uniq = false; }
            bool wild = false; for (int i = 0; i < 8; i++) if (toupper(as[i]) == 'F') wild = true;
            if (!wild) { bool fixed = true; for (int i = 8; i < 16; i++) if (toupper(as[i]) == 'F') fixed = false; if (!fixed) uniq = false; }
            if (uniq) VF_CHECK(got.count(d.sec), "%s: %s is not found", c.c_str(), d.sec.c_str());
        }
        label(failed ? "failed scan" : "complete scan"); return;
    }
    (void)found_set;
    if (hf) { // short of memory: a success must be a complete one
        if (r.status == 0) { VF_CHECK(ok, "%s: %s, but the program ends successfully", c.c_str(), why); std::string o = nostamp(r.out); VF_CHECK(silent ? o == xml : o.size() >= xml.size() && !o.compare(o.size() - xml.size(), std::string::npos, xml), "%s: short of memory: prints %s should be %s", c.c_str(), esc(o).c_str(), esc(xml).c_str()); }
        else no_result("short of memory");
        label("memory shortage"); return;
    }
    VF_CHECK(r.tx == f.tx, "%s: sends %sshould be %s", c.c_str(), txs(r.tx).c_str(), txs(f.tx).c_str());
    if (!any_status) VF_CHECK((r.status == 0) == ok, "%s: exit status %d, %s", c.c_str(), r.status, ok ? "should be 0" : why);
    if (!ok) { no_result(why, any_status); label(fmt("failure: %s", why)); return; }
    label("success");
    if (k == READ || k == MULTI) {
        std::string o = nostamp(r.out); VF_CHECK(silent ? o == xml : o.size() >= xml.size() && !o.compare(o.size() - xml.size(), std::string::npos, xml), "%s: prints %s should be %s", c.c_str(), esc(o).c_str(), esc(xml).c_str());
    }
    for (auto &m : must) VF_CHECK(r.out.find(m) != std::string::npos, "%s: prints %s, \"%s\" is missing", c.c_str(), esc(r.out).c_str(), esc(m).c_str());
    if (k == RESET && sub < 0) VF_CHECK(r.out.find("Subcode") == std::string::npos, "%s: prints %s", c.c_str(), esc(r.out).c_str());
}
