// P37 contexts are independent: generated operation sequences on several contexts, each with a bus of its own, interleaved
// (also inside operations), against the same sequences run alone.
// P38 transports are interchangeable: the same operations over a real TCP connection or a real pseudo terminal against the
// simulated bus.
#include "world.h"
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <stdarg.h>
#include <termios.h>
#include <poll.h>
#include <pty.h>
#include <netdb.h>
#include <dirent.h>
#include <signal.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>

// ------------------------------------------------------------------------------------------ a port: one side of a bus
struct Port {
    World w; std::deque<Item> q; std::vector<Bytes> tx; std::vector<Bytes> got;   // got: bytes handed to the receiver
    bool up = false, reachable = true, dead = false; long recvs = 0; std::string log; long fail_at = -1, sends = 0;
    std::vector<Bytes> sev, rev;                                                  // what the observers saw
    std::function<void()> hook; bool late = false;      // late: not before a callback
    void act(bool callback = false) { if (late && !callback) return; if (hook) { auto f = hook; hook = nullptr; f(); } }
    void say(const std::string &s) { log += s + "\n"; }
    void receive(const Bytes &b) { tx.push_back(b); w.tx(b, q); }
};
static std::map<mbus_handle *, Port *> PORT;
static Port &port(mbus_handle *h) { auto i = PORT.find(h); VF_CHECK(i != PORT.end(), "an operation works with a context it was not given"); return *i->second; }
static int p_open(mbus_handle *h) { Port &p = port(h); p.act(); if (!p.reachable) return -1; p.up = true; p.dead = false; p.q.clear(); h->fd = 1000; return 0; }
static int p_close(mbus_handle *h) { Port &p = port(h); p.act(); if (h->fd < 0) return -1; p.up = false; p.q.clear(); h->fd = -1; return 0; }
static int p_send(mbus_handle *h, mbus_frame *f) {
    Port &p = port(h); p.act();
    p.sends++; VF_CHECK(p.sends < 50000, "the call does not come to an end: %ld telegrams sent", p.sends);
    if (p.fail_at > 0 && p.sends == p.fail_at) return -1;
    uint8_t buf[2048]; int n = mbus_frame_pack(f, buf, sizeof buf); if (n < 0 || !p.up) return -1;
    Bytes b(buf, buf + n); p.receive(b); p.sev.push_back(b);
    if (h->send_event) h->send_event(h->is_serial, (const char *)b.data(), b.size());
    return 0;
}
static int p_recv(mbus_handle *h, mbus_frame *f) {
    Port &p = port(h); p.act();
    VF_CHECK(++p.recvs < 50000, "the call does not come to an end: %ld receptions", p.recvs);
    if (!p.up) return MBUS_RECV_RESULT_ERROR;
    if (p.dead) return MBUS_RECV_RESULT_RESET;
    if (p.q.empty()) return MBUS_RECV_RESULT_TIMEOUT;
    Item it = p.q.front(); p.q.pop_front();
    if (it.code == MBUS_RECV_RESULT_RESET) { p.dead = true; p.q.clear(); return it.code; }
    if (!it.b.empty()) { Exact e(it.b); int r = mbus_parse(f, e.p, e.n); if (it.code == 0) VF_CHECK(r == 0, "valid telegram %s rejected", hex(it.b).c_str()); p.got.push_back(it.b); if (h->recv_event) h->recv_event(h->is_serial, (const char *)it.b.data(), it.b.size()); }
    return it.code;
}
static void on_progress(mbus_handle *h, const char *m) { Port &p = port(h); p.act(true); p.say(std::string("  trying ") + m); }
static void on_found(mbus_handle *h, mbus_frame *f) { Port &p = port(h); char *a = mbus_frame_get_secondary_address(f); p.say(std::string("  found ") + (a ? a : "(null)")); p.act(true); uint8_t b[300]; int n = mbus_frame_pack(f, b, sizeof b); p.say("  in " + (n < 0 ? std::string("?") : hex(b, (size_t)n))); }

// ------------------------------------------------------------------------------------------ operations
struct Op { int k; int a = 0, b = 0; std::string m; Bytes d; };
enum { PING, SELECT, PROBE, REQUEST, READ_P, READ_S, PURGE, OPTION, SETADDR, DATA, SCAN, RECV, BAUD, RESETF, CONNECT, DISCONNECT, REACH, EVENTS, NOPS };
static std::string op_str(const Op &o) {
    static const char *n[] = {"ping", "select", "probe", "request", "read primary", "read secondary", "purge", "option", "set address", "user data", "scan", "receive", "baud rate", "application reset", "connect", "disconnect", "peer", "callbacks"};
    std::string s = n[o.k]; s += fmt(" %d %d", o.a, o.b); if (!o.m.empty()) s += " " + o.m; if (!o.d.empty()) s += " " + hex(o.d); return s;
}
static std::string chain_str(mbus_frame *f) { std::string s; for (mbus_frame *x = f; x; x = (mbus_frame *)x->next) { uint8_t b[300]; int n = mbus_frame_pack(x, b, sizeof b); s += n < 0 ? std::string("?") : hex(b, (size_t)n); s += "/"; } return s; }
static void ev_none(unsigned char, const char *, size_t) {}
static void exec(mbus_handle *h, Port &p, const Op &o) {
    p.say(op_str(o)); int rc = -99; std::string r; mbus_frame f; memset(&f, 0, sizeof f); p.sends = p.recvs = 0;
    switch (o.k) {
    case PING: rc = mbus_send_ping_frame(h, o.a, (char)o.b); break;
    case SELECT: rc = mbus_select_secondary_address(h, o.m.c_str()); break;
    case PROBE: { char x[17] = "----------------"; rc = mbus_probe_secondary_address(h, o.m.c_str(), x); if (rc == MBUS_PROBE_SINGLE) r = std::string(x, 16); break; }
    case REQUEST: rc = mbus_sendrecv_request(h, o.a, &f, o.b); if (rc == 0) r = chain_str(&f); free_chain(&f); break;
    case READ_P: { mbus_address ad; ad.is_primary = 1; ad.primary = o.a; rc = mbus_read_slave(h, &ad, &f); if (rc == 0) r = chain_str(&f); free_chain(&f); break; }
    case READ_S: { mbus_address ad; ad.is_primary = 0; std::string m = o.m; ad.secondary = &m[0]; rc = mbus_read_slave(h, &ad, &f); if (rc == 0) r = chain_str(&f); free_chain(&f); break; }
    case PURGE: rc = mbus_purge_frames(h); break;
    case OPTION: rc = mbus_context_set_option(h, (mbus_context_option)o.a, o.b); break;
    case SETADDR: rc = mbus_set_primary_address(h, o.a, o.b); break;
    case DATA: rc = mbus_send_user_data_frame(h, o.a, o.d.data(), o.d.size()); break;
    case SCAN: { std::string m = o.m; rc = mbus_scan_2nd_address_range(h, o.a, &m[0]); break; }
    case RECV: rc = mbus_recv_frame(h, &f); if (rc == 0) r = chain_str(&f); break;
    case BAUD: rc = mbus_send_switch_baudrate_frame(h, o.a, o.b); break;
    case RESETF: rc = mbus_send_application_reset_frame(h, o.a, o.b); break;
    case CONNECT: if (h->fd >= 0) { rc = 77; break; } rc = mbus_connect(h); break;
    case DISCONNECT: rc = mbus_disconnect(h); break;
    case REACH: p.reachable = o.a; rc = 0; break;
    case EVENTS: mbus_register_scan_progress(h, o.a ? on_progress : NULL); mbus_register_found_event(h, on_found); rc = 0; break;
    }
    p.say(fmt("  -> %d %s; retries %d %d purge %d", rc, r.c_str(), h->max_data_retry, h->max_search_retry, h->purge_first_frame));
}
static std::string gen_mask(Gen &g, const World &w, bool scan) {
    std::string m(16, 'F');
    if (!w.devs.empty() && g.chance(5, 6)) { m = g.pick(w.devs).sec; if (g.chance(1, 3)) { for (auto &c : m) if (g.chance(1, 6)) c = 'F'; } }
    else if (!scan) for (auto &c : m) if (g.coin()) c = (char)('0' + g.below(10));
    if (scan) { // at most two wildcards to count through
        if (m == std::string(16, 'F')) for (int k = 0; k < 8; k++) m[k] = (char)('0' + g.below(10));
        for (int k = 0; k < 16; k++) if (m[k] == 'F' && k < 14) m[k] = k < 8 ? (char)('0' + g.below(10)) : 'F';
        size_t at = g.below(8); m[at] = 'F'; if (g.chance(1, 3)) m[g.below(8)] = 'F';
        for (int k = 8; k < 16; k++) if (m[k] == 'F' || g.coin()) m[k] = 'F';
    }
    if (!scan && g.chance(1, 12)) m.resize(g.below(16));
    return m;
}
static int gen_pa(Gen &g, const World &w) { return !w.devs.empty() && g.chance(4, 5) ? g.pick(w.devs).pa : g.chance(1, 3) ? 0xFD : g.chance(1, 8) ? 300 : (int)g.below(256); }
static Op gen_op(Gen &g, const World &w, bool scans) {
    Op o; o.k = (int)g.weighted({4, 4, 4, 5, 2, 3, 3, 4, 2, 1, scans ? 2u : 0u, 4, 1, 1, 3, 1, 1, 1});
    switch (o.k) {
    case PING: o.a = gen_pa(g, w); o.b = (int)g.below(2); break;
    case SELECT: case PROBE: case READ_S: o.m = gen_mask(g, w, false); break;
    case REQUEST: o.a = gen_pa(g, w); o.b = (int)g.range(0, 4); break;
    case READ_P: o.a = gen_pa(g, w); break;
    case OPTION: o.a = (int)g.below(3); o.b = g.chance(1, 6) ? (int)g.range(-1, 12) : (int)g.below(3); break;
    case SETADDR: o.a = gen_pa(g, w); o.b = (int)g.below(252); break;
    case DATA: o.a = gen_pa(g, w); o.d = g.bytes(g.size(1, 20)); break;
    case SCAN: o.m = gen_mask(g, w, true); o.a = g.chance(1, 8) ? (int)g.below(16) : 0; break;
    case BAUD: o.a = gen_pa(g, w); o.b = (int)g.pick(std::vector<long>{300, 2400, 9600, 1000}); break;
    case RESETF: o.a = gen_pa(g, w); o.b = (int)g.range(-1, 20); break;
    case REACH: o.a = g.chance(3, 4); break;
    case EVENTS: o.a = g.coin(); break;
    default: break;
    }
    return o;
}
// damaged bytes that a stream reader takes as a whole
static Bytes gen_clean_damage(Gen &g) {
    switch (g.below(3)) { case 0: return Bytes{(uint8_t)g.below(16)}; case 1: { Bytes b = short_bytes(0x40, g.byte()); b[3] ^= (uint8_t)(1 + g.below(255)); return b; }
    default: { Bytes b = long_bytes(0x08, g.byte(), 0x72, g.bytes(g.size(1, 30))); b[b.size() - 2] ^= (uint8_t)(1 + g.below(255)); return b; } }
}
static World gen_world(Gen &g, bool reset, bool error) {
    World w; size_t n = g.size(0, 4);
    for (size_t i = 0; i < n; i++) { int pa = !w.devs.empty() && g.chance(1, 6) ? w.devs[0].pa : (int)g.range(0, 250); w.devs.push_back(gen_dev(g, pa, true, w.devs)); }
    w.style = (int)g.below(4); w.echo = g.chance(1, 3); for (int i = 0; i < 3; i++) w.junk.push_back(gen_clean_damage(g));
    if (g.coin()) { size_t k = g.size(1, 16); for (size_t i = 0; i < k; i++) w.fate.push_back((Fate)g.weighted({8, 3, 2, 2, error ? 1u : 0u, reset ? 1u : 0u, 1})); }
    return w;
}
static mbus_handle *sim_handle(Port &p, bool serial) { mbus_handle *h = serial ? mbus_context_serial("/dev/none") : mbus_context_tcp("nowhere", 1); VF_CHECK(h, "no context"); h->open = p_open; h->close = p_close; h->send = p_send; h->recv = p_recv; PORT[h] = &p; mbus_register_found_event(h, on_found); return h; }
static std::string txs(const std::vector<Bytes> &v) { std::string s; size_t k = 0; for (auto &b : v) { if (++k > 40) { s += "..."; break; } s += hex(b) + "; "; } return s.empty() ? "nothing" : s; }
static std::string diff_log(const std::string &a, const std::string &b) { // first differing line with the operation it belongs to
    size_t i = 0; std::string op; 
    for (;;) {
        size_t x = a.find('\n', i), y = b.find('\n', i); std::string la = x == std::string::npos ? a.substr(i) : a.substr(i, x - i), lb = y == std::string::npos ? b.substr(i) : b.substr(i, y - i);
        if (!la.empty() && la[0] != ' ') op = la;
        if (la != lb) return fmt("in \"%s\": \"%s\" instead of \"%s\"", op.c_str(), la.c_str(), lb.c_str());
        if (x == std::string::npos) return "no difference"; i = x + 1;
    }
}
// ------------------------------------------------------------------------------------------ P37
VF_PROPERTY(P37, 60000, 1500000, "2-3 contexts of both kinds, each with a generated bus (slaves, multi-telegram replies, echoes, collisions, lost, damaged and wrong answers, errors), sequences of up to 20 operations (ping, select, probe, read-out, purge, options, scans, commands, connect and disconnect, callbacks) dealt over the contexts and nested inside one another from transport and callbacks; log, telegrams and settings of every context compared with the same operations run alone on a fresh context; non-trivial: at least two contexts used; distinct by operations and buses") {
    PORT.clear(); Heap::reset();
    size_t n = g.range(2, 3); std::vector<World> ws; std::vector<bool> ser; std::string all;
    for (size_t i = 0; i < n; i++) { ws.push_back(gen_world(g, true, true)); ser.push_back(g.coin()); all += fmt("bus %zu: ", i) + dev_str(ws[i]) + fates(ws[i]) + fmt(" echo %d style %d\n", ws[i].echo, ws[i].style); }
    if (g.chance(1, 3)) for (size_t i = 1; i < n; i++) ws[i] = ws[0];              // the same slaves behind every context
    struct Step { size_t at; Op o; };
    size_t k = g.size(2, 20); std::vector<Step> ord; std::deque<Port> pa(n), pb(n); std::vector<mbus_handle *> ha(n), hb(n);
    for (size_t i = 0; i < n; i++) { pa[i].w = ws[i]; ha[i] = sim_handle(pa[i], ser[i]); if (g.chance(7, 8)) { Op c; c.k = CONNECT; ord.push_back({i, c}); exec(ha[i], pa[i], c); } if (g.chance(1, 6)) { pa[i].fail_at = pb[i].fail_at = g.range(1, 4); } }
    size_t nested = 0;
    for (size_t s = 0; s < k; s++) {
        size_t i = g.below(n); Op o = gen_op(g, ws[i], true);
        if (g.coin()) { // another context works while this operation waits
            size_t j = (i + 1 + g.below(n - 1)) % n; Op o2 = gen_op(g, ws[j], false); int at = (int)g.below(4);
            if (!ws[i].devs.empty() && !ws[j].devs.empty() && g.chance(1, 4)) { // both look for slaves, the second when the first has found one
                if (g.chance(2, 3)) { o = Op(); o.k = PROBE; o.m = g.pick(ws[i].devs).sec; } else { o = Op(); o.k = SCAN; o.m = gen_mask(g, ws[i], true); }
                o2 = Op(); o2.k = g.chance(2, 3) ? PROBE : READ_S; o2.m = g.pick(ws[j].devs).sec; at = o.k == PROBE ? 0 : (int)g.below(12); pa[i].late = true; label("meant for a callback");
            }
            all += fmt("context %zu: ", i) + op_str(o) + "\n"; bool *done = new bool(false); 
            std::function<void()> *fn = new std::function<void()>; int left = at;
            all += fmt("  at its step %d, context %zu: ", at, j) + op_str(o2) + "\n"; note("%s", all.c_str());
            *fn = [&, fn, done]() { if (left-- > 0) { pa[i].hook = *fn; return; } *done = true; nested++; exec(ha[j], pa[j], o2); };
            pa[i].hook = *fn;
            exec(ha[i], pa[i], o); pa[i].hook = nullptr; pa[i].late = false;
            if (!*done) exec(ha[j], pa[j], o2); else label("inside another operation");
            // context j ran its operation somewhere in between: its own order is all that matters
            ord.push_back({i, o}); ord.push_back({j, o2}); delete fn; delete done;
        } else { all += fmt("context %zu: ", i) + op_str(o) + "\n"; note("%s", all.c_str()); exec(ha[i], pa[i], o); ord.push_back({i, o}); }
    }
    std::vector<bool> used(n, false); size_t nu = 0; for (auto &s : ord) { if (s.o.k != CONNECT && !used[s.at]) { used[s.at] = true; nu++; } }
    // contexts are released in any order, the others stay usable
    std::vector<size_t> rel; for (size_t i = 0; i < n; i++) rel.insert(rel.begin() + (long)g.below(rel.size() + 1), i);
    for (size_t x = 0; x < n; x++) { size_t i = rel[x]; if (g.coin()) { Op o = gen_op(g, ws[i], false); all += fmt("before release, context %zu: ", i) + op_str(o) + "\n"; note("%s", all.c_str()); exec(ha[i], pa[i], o); ord.push_back({i, o}); } mbus_disconnect(ha[i]); PORT.erase(ha[i]); mbus_context_free(ha[i]); }
    VF_CHECK(Heap::live() == 0, "%ld block(s) not released", Heap::live());
    for (size_t i = 0; i < n; i++) {
        PORT.clear(); pb[i].w = ws[i]; hb[i] = sim_handle(pb[i], ser[i]);
        for (auto &s : ord) if (s.at == i) exec(hb[i], pb[i], s.o);
        mbus_disconnect(hb[i]); mbus_context_free(hb[i]);
        VF_CHECK(pa[i].log == pb[i].log, "context %zu, beside others: %s", i, diff_log(pa[i].log, pb[i].log).c_str());
        VF_CHECK(pa[i].tx == pb[i].tx, "context %zu transmits %s beside others, %s alone", i, txs(pa[i].tx).c_str(), txs(pb[i].tx).c_str());
    }
    PORT.clear();
    label(fmt("%zu contexts", n)); if (nested) label("nested"); if (nu >= 2) nontrivial(all);
    VF_CHECK(Heap::live() == 0, "%ld block(s) not released", Heap::live());
}

// ------------------------------------------------------------------------------------------ P38: a real line
// The slaves of the bus sit at the far end of a TCP connection or pseudo terminal.  They work when the library writes, and
// their answer is fed to the line in generated fragments when the library reads, so that nothing depends on timing.
struct Link {
    Port p; bool tcp = true; int fd = -1, peer = -1; Bytes in; std::deque<Bytes> out; bool shut = false, closed = false, realtime = false, zero = false; uint64_t lcg = 1; long calls = 0, connects = 0;
    std::vector<Bytes> sev, rev; std::string bad;
    unsigned rnd(unsigned n) { lcg = lcg * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(lcg >> 33) % n; }
    void tick() { VF_CHECK(++calls < 400000, "the call does not come to an end: %ld system calls", calls); }
};
static Link *K; static int LISTEN = -1, PTYM = -1, PTYS = -1; static uint16_t LPORT; static char PTYN[100];
static bool ours(int fd) { return K && K->fd >= 0 && fd == K->fd; }
static int queued(int fd) { int n = 0; if (ioctl(fd, FIONREAD, &n)) n = 0; return n; }
// what the slaves do with the bytes that have arrived
static void pump(size_t n) {
    K->tick(); uint8_t b[4096]; size_t have = 0;
    while (have < n) { struct pollfd pf = {K->peer, POLLIN, 0}; int r = poll(&pf, 1, 5000); VF_CHECK(r == 1, "harness: the bytes written do not arrive"); ssize_t k = read(K->peer, b, std::min(sizeof b, n - have)); VF_CHECK(k > 0, "harness: reading from the line"); K->in.insert(K->in.end(), b, b + k); have += (size_t)k; }
    for (;;) {
        size_t l; bool done = false; for (l = 1; l <= K->in.size(); l++) { int r = ref_parse(K->in.data(), l).result; if (r == 0) { done = true; break; } if (r < 0) { K->bad = hex(K->in); K->in.clear(); return; } }
        if (!done) return;
        Bytes t(K->in.begin(), K->in.begin() + (long)l); K->in.erase(K->in.begin(), K->in.begin() + (long)l); K->p.receive(t);
        for (auto &it : K->p.q) {
            if (K->shut) break;
            if (it.code == MBUS_RECV_RESULT_RESET) { K->shut = true; break; }
            unsigned mode = K->rnd(4);
            for (size_t i = 0; i < it.b.size();) { size_t m = mode == 0 ? it.b.size() : mode == 1 ? 1 : 1 + K->rnd(12); m = std::min(m, it.b.size() - i); if (mode == 3 && !K->out.empty()) K->out.back().insert(K->out.back().end(), it.b.begin() + (long)i, it.b.begin() + (long)(i + m)); else K->out.push_back(Bytes(it.b.begin() + (long)i, it.b.begin() + (long)(i + m))); i += m; }
        }
        K->p.q.clear();
    }
}
// 1: a read finds something, 0: it would wait until its time-out
static int feed() {
    K->tick();
    if (queued(K->fd) > 0) return 1;
    if (!K->out.empty()) {
        Bytes b = K->out.front(); K->out.pop_front(); VF_CHECK(write(K->peer, b.data(), b.size()) == (ssize_t)b.size(), "harness: writing to the line");
        struct pollfd pf = {K->fd, POLLIN, 0}; VF_CHECK(poll(&pf, 1, 5000) == 1, "harness: the bytes do not arrive");
        for (int i = 0; queued(K->fd) < (int)b.size(); i++) { VF_CHECK(i < 50000, "harness: the bytes do not arrive"); usleep(20); }
        return 1;
    }
    if (K->shut) { if (!K->closed) { K->closed = true; shutdown(K->peer, SHUT_WR); } struct pollfd pf = {K->fd, POLLIN, 0}; VF_CHECK(poll(&pf, 1, 5000) == 1, "harness: the end of the connection does not arrive"); return 1; }
    return 0;
}
static bool wait_over(ssize_t *r) { if (feed() || K->realtime) return false; if (K->tcp) { errno = EAGAIN; *r = -1; } else *r = 0; return true; }
static ssize_t wrote(int fd, ssize_t n) { if (ours(fd) && n > 0) { int e = errno; pump((size_t)n); errno = e; } return n; }
extern "C" {
ssize_t vs_read(int fd, void *p, size_t n) { ssize_t r; return ours(fd) && wait_over(&r) ? r : read(fd, p, n); }
ssize_t vs_recv(int fd, void *p, size_t n, int fl) { ssize_t r; return ours(fd) && wait_over(&r) ? r : recv(fd, p, n, fl); }
ssize_t vs_recvfrom(int fd, void *p, size_t n, int fl, struct sockaddr *a, socklen_t *l) { ssize_t r; return ours(fd) && wait_over(&r) ? r : recvfrom(fd, p, n, fl, a, l); }
ssize_t vs_readv(int fd, const struct iovec *v, int c) { ssize_t r; return ours(fd) && wait_over(&r) ? r : readv(fd, v, c); }
ssize_t vs_recvmsg(int fd, struct msghdr *m, int fl) { ssize_t r; return ours(fd) && wait_over(&r) ? r : recvmsg(fd, m, fl); }
ssize_t vs_write(int fd, const void *p, size_t n) { return wrote(fd, write(fd, p, n)); }
ssize_t vs_send(int fd, const void *p, size_t n, int fl) { return wrote(fd, send(fd, p, n, fl)); }
ssize_t vs_sendto(int fd, const void *p, size_t n, int fl, const struct sockaddr *a, socklen_t l) { return wrote(fd, sendto(fd, p, n, fl, a, l)); }
ssize_t vs_writev(int fd, const struct iovec *v, int c) { return wrote(fd, writev(fd, v, c)); }
ssize_t vs_sendmsg(int fd, const struct msghdr *m, int fl) { return wrote(fd, sendmsg(fd, m, fl)); }
int vs_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) { if (K && K->fd >= 0 && K->fd < n && r && FD_ISSET(K->fd, r) && !feed() && !K->realtime) { FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e); return 0; } return select(n, r, w, e, t); }
int vs_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *) { struct timeval tv; if (t) { tv.tv_sec = t->tv_sec; tv.tv_usec = t->tv_nsec / 1000; } return vs_select(n, r, w, e, t ? &tv : NULL); }
int vs_poll(struct pollfd *p, nfds_t n, int t) { for (nfds_t i = 0; i < n; i++) if (ours(p[i].fd) && (p[i].events & POLLIN) && !feed() && !K->realtime) { for (nfds_t k = 0; k < n; k++) p[k].revents = 0; return 0; } return poll(p, n, t); }
int vs_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *) { return vs_poll(p, n, t ? (int)(t->tv_sec * 1000 + t->tv_nsec / 1000000) : -1); }
int vs_isatty(int fd) { return isatty(fd); }
int vs_tcsetattr(int fd, int a, const struct termios *t) { struct termios x = *t; if (ours(fd)) x.c_cc[VTIME] = 1; return tcsetattr(fd, a, &x); }
int vs_tcgetattr(int fd, struct termios *t) { return tcgetattr(fd, t); }
int vs_tcflush(int fd, int q) { return tcflush(fd, q); }
int vs_tcdrain(int fd) { return tcdrain(fd); }
int vs_open(const char *p, int fl, ...) {
    va_list a; va_start(a, fl); int m = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a);
    bool line = K && !K->tcp && !strcmp(p, PTYN); if (line && !K->p.reachable) { errno = ENOENT; return -1; }
    if (line && K->zero && K->fd < 0) close(0);
    int fd = open(p, fl, m); if (line && fd >= 0) { K->fd = fd; K->peer = PTYM; K->connects++; K->out.clear(); K->in.clear(); K->shut = K->closed = false; } return fd; }
int vs_close(int fd) {
    if (ours(fd)) { if (K->tcp) { struct linger l = {1, 0}; setsockopt(K->peer, SOL_SOCKET, SO_LINGER, &l, sizeof l); close(K->peer); } else tcflush(fd, TCIOFLUSH); K->fd = K->peer = -1; K->out.clear(); K->in.clear(); }
    return close(fd); }
int vs_getaddrinfo(const char *h, const char *s, const struct addrinfo *hi, struct addrinfo **r) { return getaddrinfo(h, s, hi, r); }
void vs_freeaddrinfo(struct addrinfo *a) { freeaddrinfo(a); }
int vs_socket(int f, int t, int p) { if (K && K->zero && K->fd < 0) close(0); return socket(f, t, p); }
int vs_connect(int fd, const struct sockaddr *a, socklen_t l) {
    if (K && !K->p.reachable) { errno = ECONNREFUSED; return -1; }
    int r = connect(fd, a, l); if (r || !K) return r;
    struct pollfd pf = {LISTEN, POLLIN, 0}; VF_CHECK(poll(&pf, 1, 5000) == 1, "the context connects to something else");
    K->peer = accept(LISTEN, NULL, NULL); VF_CHECK(K->peer >= 0, "harness: accept"); int one = 1; setsockopt(K->peer, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    VF_CHECK(K->fd < 0, "connected twice"); K->fd = fd; K->connects++; K->out.clear(); K->in.clear(); K->shut = K->closed = false; return 0; }
int vs_setsockopt(int fd, int lv, int o, const void *v, socklen_t l) { return setsockopt(fd, lv, o, v, l); }
int vs_shutdown(int fd, int h) { return shutdown(fd, h); }
struct hostent *vs_gethostbyname(const char *h) { return gethostbyname(h); }
int vs_usleep(useconds_t) { return 0; }
unsigned vs_sleep(unsigned) { return 0; }
int vs_nanosleep(const struct timespec *, struct timespec *) { return 0; }
}
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
static void link_send(unsigned char s, const char *b, size_t n) { if (s != (K->tcp ? MBUS_HANDLE_TYPE_TCP : MBUS_HANDLE_TYPE_SERIAL)) K->bad = "an observer is given the wrong kind of context"; K->sev.push_back(Bytes((const uint8_t *)b, (const uint8_t *)b + n)); }
static void link_recv(unsigned char s, const char *b, size_t n) { if (s != (K->tcp ? MBUS_HANDLE_TYPE_TCP : MBUS_HANDLE_TYPE_SERIAL)) K->bad = "an observer is given the wrong kind of context"; K->rev.push_back(Bytes((const uint8_t *)b, (const uint8_t *)b + n)); }
static bool lines_open() {
    static int st = -1; if (fcntl(0, F_GETFD) < 0) (void)!open("/dev/null", O_RDWR);
    if (st >= 0) return st; st = 0; signal(SIGPIPE, SIG_IGN);
    LISTEN = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t l = sizeof a;
    if (LISTEN < 0 || bind(LISTEN, (struct sockaddr *)&a, sizeof a) || listen(LISTEN, 16) || getsockname(LISTEN, (struct sockaddr *)&a, &l)) { if (LISTEN >= 0) close(LISTEN); LISTEN = -1; } else LPORT = ntohs(a.sin_port);
    struct termios t; memset(&t, 0, sizeof t); cfmakeraw(&t); t.c_cflag |= CS8 | CREAD | CLOCAL; if (openpty(&PTYM, &PTYS, NULL, &t, NULL) || ttyname_r(PTYS, PTYN, sizeof PTYN)) { PTYM = -1; }
    return st = 1;
}
VF_PROPERTY(P38, 12000, 250000, "sequences of 3-20 operations (connect, disconnect, ping, select, probe, read-out, scans, purge, options, commands) with generated slaves, echoes, collisions, lost, damaged and wrong answers and closed connections, over a real TCP connection or a real pseudo terminal whose bytes arrive in generated fragments, and over the simulated bus; results, settings, telegrams on the line, observer calls and open descriptors compared; non-trivial: at least one telegram crosses the line; distinct by operations and bus") {
    lines_open(); bool tcp = PTYM < 0 || (LISTEN >= 0 && g.chance(2, 3)); if (tcp ? LISTEN < 0 : PTYM < 0) { label("no line"); discard(); return; }
    PORT.clear(); Heap::reset(); World w = gen_world(g, tcp, false); bool rt = g.chance(1, tcp ? 40 : 800), v6 = tcp && g.chance(1, 8);
    std::vector<Op> ops; if (g.chance(9, 10)) { Op c; c.k = CONNECT; ops.push_back(c); }
    size_t n = g.size(2, 20); for (size_t i = 0; i < n; i++) ops.push_back(gen_op(g, w, !rt));
    std::string all = fmt("%s%s%s, bus: ", tcp ? "TCP" : "serial", rt ? " real time-outs" : "", v6 ? " by name" : "") + dev_str(w) + fates(w) + fmt(" echo %d style %d\n", w.echo, w.style); for (auto &o : ops) all += op_str(o) + "\n"; note("%s", all.c_str());
    uint64_t lcg = g.below(1u << 30);
    // the simulated bus
    Port s; s.w = w; mbus_handle *hs = sim_handle(s, !tcp); for (auto &o : ops) exec(hs, s, o); mbus_disconnect(hs); mbus_context_free(hs); PORT.clear();
    // the real line
    Link k; K = &k; k.tcp = tcp; k.p.w = w; k.realtime = rt; k.lcg = lcg; k.zero = lcg % 5 == 0;   // a program that has closed its standard input
    int before = fds();
    VF_CHECK(mbus_tcp_set_timeout_set(rt ? 0.004 : 5.0) == 0, "time-out refused");
    mbus_handle *h = tcp ? mbus_context_tcp(v6 ? "localhost" : "127.0.0.1", LPORT) : mbus_context_serial(PTYN); VF_CHECK(h, "no context"); PORT[h] = &k.p; mbus_register_found_event(h, on_found); mbus_register_send_event(h, link_send); mbus_register_recv_event(h, link_recv);
    for (auto &o : ops) { exec(h, k.p, o); VF_CHECK(k.bad.empty(), "on the line: %s", k.bad.c_str()); VF_CHECK((h->fd >= 0) == (k.fd >= 0) && (h->fd < 0 || h->fd == k.fd), "after \"%s\" the descriptor of the context is %d, the line's %d", op_str(o).c_str(), h->fd, k.fd); }
    if (h->fd >= 0) VF_CHECK(mbus_disconnect(h) == 0, "disconnecting fails");
    mbus_context_free(h); PORT.clear(); K = NULL; if (fcntl(0, F_GETFD) < 0) (void)!open("/dev/null", O_RDWR); int after = fds();
    VF_CHECK(k.p.log == s.log, "over %s: %s", tcp ? "TCP" : "the terminal", diff_log(k.p.log, s.log).c_str());
    VF_CHECK(k.p.tx == s.tx, "over %s the slaves see %s, on the simulated bus %s", tcp ? "TCP" : "the terminal", txs(k.p.tx).c_str(), txs(s.tx).c_str());
    VF_CHECK(k.sev == s.tx, "the observer of transmissions sees %s instead of %s", txs(k.sev).c_str(), txs(s.tx).c_str());
    VF_CHECK(k.rev == s.got, "the observer of receptions sees %s instead of %s", txs(k.rev).c_str(), txs(s.got).c_str());
    VF_CHECK(before == after, "%d descriptor(s) open before, %d after", before, after);
    VF_CHECK(Heap::live() == 0, "%ld block(s) not released", Heap::live());
    label(tcp ? "TCP" : "terminal"); if (rt) label("real time-outs"); if (k.connects > 1) label("reconnected"); if (!s.tx.empty()) nontrivial(all);
}
