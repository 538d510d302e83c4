// P21-P26: commands, read-out, selection, scanning, reception and contexts against a simulated bus
#include "sim.h"
#include <unistd.h>
#include <climits>
#include <fcntl.h>
#include <errno.h>
#include <pty.h>
#include <termios.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <set>

static const char *bytes_str(const std::vector<Bytes> &v, std::string &s) { s = ""; for (auto &b : v) s += hex(b) + "; "; return s.c_str(); }
static std::string tx_str() { std::string s; bytes_str(B->tx, s); return s.empty() ? "nothing" : s; }

// ------------------------------------------------------------------------------------------ P21
static std::vector<std::pair<int, Bytes>> sent_ev, recv_ev;
static void on_send(unsigned char src, const char *b, size_t n) { sent_ev.push_back({src, Bytes((const uint8_t *)b, (const uint8_t *)b + n)}); }
static void on_recv(unsigned char src, const char *b, size_t n) { recv_ev.push_back({src, Bytes((const uint8_t *)b, (const uint8_t *)b + n)}); }
static int sockp[2] = {-1, -1}, ptyp[2] = {-1, -1};
static void open_sock() {
    if (sockp[0] >= 0) return;
    VF_CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, sockp) == 0, "harness: socketpair");
    struct timeval tv = {0, 1000}; setsockopt(sockp[0], SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
    fcntl(sockp[1], F_SETFL, O_NONBLOCK);
}
static bool open_pty() {
    if (ptyp[0] >= 0) return true;
    struct termios t; memset(&t, 0, sizeof t); cfmakeraw(&t); t.c_cflag |= CS8 | CREAD | CLOCAL; t.c_cc[VMIN] = 0; t.c_cc[VTIME] = 0;
    if (openpty(&ptyp[0], &ptyp[1], NULL, &t, NULL)) { ptyp[0] = -2; return false; }
    fcntl(ptyp[0], F_SETFL, O_NONBLOCK);
    return true;
}
static Bytes drain(int fd) { Bytes r; uint8_t b[4096]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.insert(r.end(), b, b + n); return r; }
static int gen_address(Gen &g) {
    static const int odd[] = {-1, -2, -128, -256, 256, 257, 300, 511, 512, 0x10001, -2147483647 - 1, 2147483647};
    static const int edge[] = {0, 1, 250, 251, 252, 253, 254, 255};
    switch (g.weighted({5, 2, 2})) { case 0: return (int)g.below(256); case 1: return g.pick(edge); default: return g.pick(odd); }
}
VF_PROPERTY(P21, 200000, 6500000, "one command with generated address, rate, subcode, data and target, over a simulated transport, a socket pair (TCP transport) or a pseudo terminal (serial transport), with or without a transmission failure; transmitted bytes, result and observer calls compared with the telegram the specification defines; non-trivial: all; distinct by command and arguments") {
    int transport = (int)g.weighted({3, 3, 2});               // simulated, socket, terminal
    int failing = g.chance(1, 8);
    Bus bus; B = &bus; sent_ev.clear(); Heap::reset();
    bool serial = transport == 2;
    mbus_handle *h = transport == 0 ? bus_handle(g.coin()) : serial ? mbus_context_serial("/dev/none") : mbus_context_tcp("nowhere", 1);
    VF_CHECK(h, "no context");
    int peer = -1, nfd = -1;
    if (transport == 1) { open_sock(); h->fd = sockp[0]; peer = sockp[1]; }
    if (transport == 2) { if (!open_pty()) { mbus_context_free(h); label("no pseudo terminal"); discard(); return; } h->fd = ptyp[1]; peer = ptyp[0]; }
    if (failing) {
        if (transport == 0) bus.fail_at = 1;
        else { // a descriptor that cannot be written to
            nfd = open(transport == 1 || g.coin() ? "/dev/full" : "/dev/null", O_WRONLY); VF_CHECK(nfd >= 0, "harness: open"); h->fd = nfd;
        }
    }
    bool obs = g.chance(3, 4);
    if (obs) mbus_register_send_event(h, on_send);
    int a = gen_address(g); bool aok = a >= 0 && a <= 255;
    Bytes want; int rc = 0; std::string d; bool valid = false;
    int cmd = (int)g.below(7);
    switch (cmd) {
    case 0: d = fmt("request %d", a); valid = aok; want = short_bytes(0x5B, (uint8_t)a); note("%s", d.c_str()); rc = mbus_send_request_frame(h, a); break;
    case 1: { char purge = transport == 0 ? (char)g.below(3) : 0; d = fmt("ping %d purge %d", a, purge); valid = aok; want = short_bytes(0x40, (uint8_t)a); note("%s", d.c_str());
        size_t n = transport == 0 ? g.below(4) : 0; for (size_t i = 0; i < n; i++) bus.rx.push_back({g.coin() ? 0 : -2, ACKB});
        rc = mbus_send_ping_frame(h, a, purge);
        if (transport == 0) { bool cons = purge && aok && !failing; VF_CHECK(bus.rx.size() == (cons ? 0 : n), "%zu pending answers, %zu left after a ping with purge_response %d", n, bus.rx.size(), purge); }
        break; }
    case 2: { std::string m(16, '0'); for (auto &c : m) c = "0123456789ABCDEFabcdefFFF"[g.below(25)]; alike_fields(g, m);
        valid = true;
        switch (g.weighted({5, 1, 1, 1})) { case 1: m[g.below(16)] = "g/:@G`-+ xX."[g.below(12)]; valid = false; break; case 2: m.resize(g.below(16)); valid = false; break; case 3: m += (char)('0' + g.below(10)); valid = false; break; default: break; }
        d = "select " + m; if (valid) want = select_tel(m); note("%s", esc(d).c_str()); rc = mbus_send_select_frame(h, m.c_str());
        if (!valid) { const char *nul = NULL; if (g.chance(1, 4)) rc = mbus_send_select_frame(h, nul); }
        break; }
    case 3: { static const long ok[] = {300, 600, 1200, 2400, 4800, 9600, 19200, 38400}; static const long bad[] = {0, -1, 1, 110, 150, 299, 301, 1800, 14400, 57600, 115200, -300, -2400, 4294967596L, 0x100000000L + 2400, 38401};
        long r; bool rok = g.chance(3, 4); int k = 0; if (rok) { k = (int)g.below(8); r = ok[k]; } else r = g.pick(bad);
        d = fmt("baudrate %d %ld", a, r); note("%s", d.c_str()); valid = aok && rok; want = long_bytes(0x53, (uint8_t)a, (uint8_t)(0xB8 + k)); rc = mbus_send_switch_baudrate_frame(h, a, r); break; }
    case 4: { int sub = g.chance(1, 4) ? -1 : g.chance(1, 5) ? (int)(g.coin() ? g.range(256, 700) : 0x7FFFFFFF - (int)g.below(300)) : (int)g.below(256);
        d = fmt("reset %d %d", a, sub); note("%s", d.c_str()); valid = aok && sub <= 255; want = long_bytes(0x53, (uint8_t)a, 0x50, sub >= 0 ? Bytes{(uint8_t)sub} : Bytes()); rc = mbus_send_application_reset_frame(h, a, sub); break; }
    case 5: { size_t n = g.weighted({6, 1, 1}); n = n == 0 ? g.size(1, 252) : n == 1 ? 0 : 253 + g.below(800);
        if (g.chance(1, 6)) n = 250 + g.below(5);
        Bytes ud = g.bytes(n); bool null = g.chance(1, 20); d = fmt("user data %d [%zu]%s %s", a, n, null ? " NULL" : "", hex(ud).c_str()); note("%s", d.c_str());
        valid = aok && n >= 1 && n <= 252 && !null; if (valid) want = long_bytes(0x53, (uint8_t)a, 0x51, ud); Exact e(ud); rc = mbus_send_user_data_frame(h, a, null ? NULL : e.p, n); break; }
    default: { int na = gen_address(g); d = fmt("set address %d -> %d", a, na); note("%s", d.c_str()); valid = aok && na >= 0 && na <= 250; want = long_bytes(0x53, (uint8_t)a, 0x51, Bytes{0x01, 0x7A, (uint8_t)na}); rc = mbus_set_primary_address(h, a, na); break; }
    }
    std::vector<Bytes> tx; // telegrams seen on the wire
    if (transport == 0) tx = bus.tx; else { Bytes b = drain(peer); if (!b.empty()) tx.push_back(b); }
    auto evs = sent_ev;
    h->fd = -1; mbus_context_free(h);
    if (nfd >= 0) close(nfd);
    static const char *tn[] = {"simulated", "TCP", "serial"};
    label(fmt("command %d %s%s", cmd, valid ? "valid" : "invalid", failing ? " failing" : "")); label(tn[transport]);
    std::string s; bytes_str(tx, s);
    if (!valid) { VF_CHECK(rc != 0, "%s: reports success", d.c_str()); VF_CHECK(tx.empty() && (transport || bus.sends == 0) && evs.empty(), "%s: transmits %s", d.c_str(), s.c_str()); }
    else if (failing) { VF_CHECK(rc != 0, "%s: a failing transmission is reported as success", d.c_str()); VF_CHECK(evs.empty(), "%s: the observer is told about a failed transmission", d.c_str()); }
    else {
        VF_CHECK(rc == 0, "%s: result %d", d.c_str(), rc);
        VF_CHECK(tx.size() == 1 && tx[0] == want, "%s: transmits %s, should be %s", d.c_str(), s.c_str(), hex(want).c_str());
        if (transport) {
            VF_CHECK(evs.size() == (obs ? 1 : 0), "%s: the observer is called %zu times", d.c_str(), evs.size());
            if (obs) VF_CHECK(evs[0].first == (serial ? MBUS_HANDLE_TYPE_SERIAL : MBUS_HANDLE_TYPE_TCP) && evs[0].second == want, "%s: the observer gets %s (source %d)", d.c_str(), hex(evs[0].second).c_str(), evs[0].first);
        }
    }
    VF_CHECK(Heap::live() == 0, "%s: %ld block(s) not released", d.c_str(), Heap::live());
    nontrivial(d + (failing ? "!" : ""));
}

// ------------------------------------------------------------------------------------------ P22
static Bytes small_variable(Gen &g, bool more) {
    RecOpt o; o.special = false;
    VarGen x = gen_variable(g, g.chance(1, 5) ? 240 : 60, o, 4);
    Bytes ud = x.ud; if (x.v.recs.empty()) ud = x.v.header;
    if (more) { ud.push_back(0x1F); size_t n = g.size(0, 8); while (n--) ud.push_back(g.byte()); }
    else if (g.chance(1, 4)) { ud.push_back(0x0F); size_t n = g.size(0, 4); while (n--) ud.push_back(g.chance(1, 2) ? 0x1F : g.byte()); }
    return ud;
}
static Bytes tiny_variable(Gen &g, bool more, size_t i) { // header and at most one record: telegrams of long chains
    Bytes ud = gen_header(g); ud[8] = (uint8_t)i;
    if (g.coin()) { ud.push_back(0x02); ud.push_back(0x13); ud.push_back((uint8_t)i); ud.push_back((uint8_t)(i >> 8)); }
    if (more) ud.push_back(0x1F);
    return ud;
}
static Bytes stray(Gen &g, int purge) { // any valid telegram
    for (;;) { Tel t = gen_tel(g); if (t.ud.size() > 24) t.ud.resize(24); return tel_bytes(t); }
}
// reference reception over a copy of the queue
struct Model { // reference reception over a copy of the queue
    std::deque<Item> q; int purge;
    Item raw() { if (q.empty()) return {MBUS_RECV_RESULT_TIMEOUT, Bytes()}; Item i = q.front(); q.pop_front(); return i; }
    Item recv() { Item i = raw(); if (i.code == 0 && purge != 0 && purge == (is_m2s(i.b) ? MBUS_FRAME_PURGE_M2S : MBUS_FRAME_PURGE_S2M)) i = raw(); return i; }
    bool purge_all() { bool r = false; for (;;) { Item i = recv(); if (i.code != 0 && i.code != MBUS_RECV_RESULT_INVALID) return r; r = true; } }
};
// one request and its reply, to a primary or secondary address
static void single_read(Gen &g) {
    Bus bus; B = &bus; Heap::reset();
    mbus_handle *h = bus_handle(g.coin());
    int purge = (int)g.below(2); VF_CHECK(mbus_context_set_option(h, MBUS_OPTION_PURGE_FIRST_FRAME, purge) == 0, "option refused");
    bool prim = g.coin(); int addr = gen_address(g); std::string sec(16, 'F'); for (auto &c : sec) if (g.coin()) c = "0123456789ABCDEFabcdef"[g.below(22)];
    bool aok = prim ? addr >= 0 && addr <= 255 : true;
    if (!prim && g.chance(1, 8)) { if (g.coin()) sec[g.below(16)] = 'x'; else sec.resize(g.below(16)); aok = false; }
    std::vector<std::vector<Item>> ans(2); std::string hist;
    for (int k = 0; k < 2; k++) switch (g.weighted({2, 8, 2, 2, 1})) {
        case 0: hist += "none, "; break;
        case 1: hist += "answer, "; ans[k].push_back({0, k || prim ? long_bytes(0x08, (uint8_t)addr, 0x72, small_variable(g, g.coin())) : ACKB}); break;
        case 2: hist += "damaged, "; ans[k].push_back({-2, gen_damaged(g)}); break;
        case 3: hist += "several, "; ans[k].push_back({0, k ? long_bytes(0x08, 1, 0x72, small_variable(g, false)) : ACKB}); ans[k].push_back({0, ACKB}); break;
        default: hist += "device error, "; ans[k].push_back({g.coin() ? MBUS_RECV_RESULT_ERROR : MBUS_RECV_RESULT_RESET, Bytes()}); break;
    }
    long fail_at = g.chance(1, 8) ? g.range(1, 2) : -1; bus.fail_at = fail_at;
    note("read %s purge %d fail %ld: %s", prim ? fmt("%d", addr).c_str() : esc(sec).c_str(), purge, fail_at, hist.c_str());
    bool echo = purge && g.coin(); size_t k = 0, mk = 0; long snd = 0;
    Model m; m.purge = purge; std::vector<Bytes> wtx; bool ok = aok; Bytes wf;
    auto deliver = [&](std::deque<Item> &q, const Bytes &b, size_t &n) { if (echo) q.push_back({0, b}); if (n < 2) for (auto &i : ans[n]) q.push_back(i); n++; };
    bus.on_tx = [&](const Bytes &b) { deliver(bus.rx, b, k); };
    auto send = [&](const Bytes &b) { snd++; if (fail_at > 0 && snd >= fail_at) return false; wtx.push_back(b); deliver(m.q, b, mk); return true; };
    if (ok && !prim) { ok = send(select_tel(sec)); if (ok) { Item i = m.recv(); ok = i.code == 0 && i.b == ACKB; if (ok && m.purge_all()) ok = false; } }
    if (ok) ok = send(short_bytes(0x5B, prim ? (uint8_t)addr : 0xFD));
    if (ok) { Item i = m.recv(); ok = i.code == 0; wf = i.b; }
    mbus_address ad; ad.is_primary = prim; char sb[40]; snprintf(sb, sizeof sb, "%s", sec.c_str()); if (prim) ad.primary = addr; else ad.secondary = sb;
    mbus_frame f; memset(&f, 0, sizeof f); std::string why, w;
    if (g.chance(1, 10)) { mbus_address n0; n0.is_primary = 0; n0.secondary = NULL; VF_CHECK(mbus_read_slave(NULL, &ad, &f) != 0 && mbus_read_slave(h, NULL, &f) != 0 && mbus_read_slave(h, &n0, &f) != 0 && bus.sends == 0, "missing arguments are accepted"); }
    int rc = mbus_read_slave(h, &ad, &f);
    VF_CHECK((rc == 0) == ok, "%sread returns %d", hist.c_str(), rc);
    bytes_str(wtx, w); VF_CHECK(bus.tx == wtx, "%stelegrams sent: %s should be %s", hist.c_str(), tx_str().c_str(), w.c_str());
    if (ok) VF_CHECK(frame_is(&f, wf, why), "%sthe reply is not what the slave sent: %s", hist.c_str(), why.c_str());
    mbus_context_free(h); VF_CHECK(Heap::live() == 0, "%ld block(s) not released", Heap::live());
    label(ok ? "single read" : "failed single read");
    if (bus.sends > 1 || ok) nontrivial(fmt("%d %d %s ", prim, addr, sec.c_str()) + hist);
}
// what a simulated slave does with one request
enum Act { REPLY, LOST_REQ, LOST_REPLY, DAMAGED, LATE, MALFORMED, FOREIGN, TERROR, TRESET, SENDFAIL };
VF_PROPERTY(P22, 240000, 7000000, "a slave with 1-12 telegrams (variable data with and without more-records-follow, fixed, error) and a generated fate of every request (answered, lost, answer lost, late, damaged, undecodable, foreign, device error, send failure; echoes and stray telegrams around it), all retry, purge and telegram limits; requests, chain and result compared with a model of the protocol; also single reads by primary and secondary address; non-trivial: more than one request; distinct by the history") {
    if (g.chance(1, 6)) { single_read(g); return; }
    Bus bus; B = &bus; Heap::reset();
    mbus_handle *h = bus_handle(g.coin());
    int retries = (int)g.below(5); if (g.chance(1, 10)) retries = 9;
    int purge = (int)g.below(3); if (purge == MBUS_FRAME_PURGE_S2M) purge = g.chance(1, 3) ? purge : MBUS_FRAME_PURGE_NONE;
    VF_CHECK(mbus_context_set_option(h, MBUS_OPTION_MAX_DATA_RETRY, retries) == 0 && mbus_context_set_option(h, MBUS_OPTION_PURGE_FIRST_FRAME, purge) == 0, "option refused");
    bool echo = purge != MBUS_FRAME_PURGE_NONE && (purge == MBUS_FRAME_PURGE_S2M || g.coin()); // the adapter repeats what the master sends
    int addr = g.chance(1, 12) ? gen_address(g) : (int)g.below(256);
    size_t nt = g.chance(1, 3) ? 1 : g.size(2, 12); bool lng = g.chance(1, 60);
    if (lng) nt = g.chance(1, 8) ? (size_t)g.range(250, 330) : (size_t)g.range(13, 60);
    int maxf = g.chance(2, 3) ? 0 : g.chance(1, 10) ? -1 : (int)g.range(1, lng ? (int)nt + 3 : 12);
    std::vector<Bytes> tels; std::vector<bool> more;
    std::string desc = fmt("address %d retries %d purge %d echo %d limit %d;", addr, retries, purge, echo, maxf);
    for (size_t i = 0; i < nt; i++) {
        bool m = i + 1 < nt; Bytes t;
        if (!m && g.chance(1, 8)) t = long_bytes(0x08, (uint8_t)addr, 0x73, g.bytes(16));
        else if (!m && g.chance(1, 10)) t = long_bytes(0x08, (uint8_t)addr, 0x70, g.coin() ? Bytes{(uint8_t)g.below(10)} : Bytes());
        else t = long_bytes(g.coin() ? 0x08 : 0x18, (uint8_t)addr, 0x72, lng ? tiny_variable(g, m, i) : small_variable(g, m));
        tels.push_back(t); more.push_back(m);
    }
    // fates of the requests; the model runs along
    std::vector<Act> fate; { size_t n = g.size(0, lng ? nt + 20 : 40); for (size_t i = 0; i < n; i++) fate.push_back((Act)g.weighted({30, 4, 4, 6, 3, 1, 1, 1, 1, 1})); }
    bool lossless = g.chance(1, 3); if (lossless) fate.clear();
    // slave state
    size_t cur = 0; int last_fcb = -1; size_t req = 0; std::string hist;
    bus.on_tx = [&](const Bytes &b) {
        Act a = req < fate.size() ? fate[req] : REPLY; req++;
        int fcb = b.size() == 5 ? (b[1] >> 5) & 1 : -1;
        if (echo && purge == MBUS_FRAME_PURGE_M2S) bus.rx.push_back({0, b});
        else if (purge == MBUS_FRAME_PURGE_S2M) bus.rx.push_back({0, ACKB});
        if (a == LOST_REQ) { hist += "lost request, "; return; }
        if (last_fcb >= 0 && fcb != last_fcb) { if (cur + 1 < tels.size()) cur++; }
        last_fcb = fcb;
        const Bytes &t = tels[cur];
        switch (a) {
        case LOST_REPLY: hist += "lost reply, "; break;
        case LATE: hist += "late reply, "; bus.rx.push_back({MBUS_RECV_RESULT_TIMEOUT, Bytes()}); bus.rx.push_back({0, t}); break;
        case DAMAGED: { hist += "damaged, "; Bytes x = t; x[x.size() - 2] ^= 0x10; bus.rx.push_back({MBUS_RECV_RESULT_INVALID, x}); if (g.chance(1, 3)) bus.rx.push_back({MBUS_RECV_RESULT_INVALID, gen_damaged(g)}); break; }
        case MALFORMED: hist += "undecodable, "; bus.rx.push_back({0, long_bytes(0x08, (uint8_t)addr, 0x72, Bytes(g.size(1, 11), 1))}); break;
        case FOREIGN: hist += "foreign, "; bus.rx.push_back({0, purge == MBUS_FRAME_PURGE_NONE && g.chance(1, 3) ? b : g.coin() ? ACKB : long_bytes(0x08, 1, (uint8_t)(0x60 + g.below(16)), g.bytes(3))}); break;
        case TERROR: hist += "device error, "; bus.rx.push_back({MBUS_RECV_RESULT_ERROR, Bytes()}); break;
        case TRESET: hist += "reset, "; bus.rx.push_back({MBUS_RECV_RESULT_RESET, Bytes()}); break;
        default: hist += fmt("telegram %zu, ", cur); bus.rx.push_back({0, t});
            if (g.chance(1, 6)) { size_t n = g.size(1, 3); while (n--) { if (g.coin()) bus.rx.push_back({0, stray(g, purge)}); else bus.rx.push_back({MBUS_RECV_RESULT_INVALID, gen_damaged(g)}); } }
            break;
        }
    };
    // model: which result, which requests
    bool fail = false, drained = false; std::vector<Bytes> wtx; std::vector<size_t> wchain;
    long sendfail = -1;
    {
        size_t q = 0, c = 0; int tries = 0; uint8_t C = 0x7B; int lf = -1; bool pend_late = false;
        for (;;) {
            if (tries > retries) { fail = true; break; }
            Act a = q < fate.size() ? fate[q] : REPLY; q++;
            if (a == SENDFAIL) { fail = true; sendfail = (long)q; break; }
            wtx.push_back(short_bytes(C, (uint8_t)addr));
            int f = (C >> 5) & 1;
            if (a != LOST_REQ) { if (lf >= 0 && f != lf) c++; lf = f; }
            if (pend_late) a = REPLY;          // the late telegram comes first
            pend_late = false;
            drained = a == DAMAGED || a == REPLY;
            if (a == LOST_REQ || a == LOST_REPLY || a == DAMAGED) { tries++; continue; }
            if (a == LATE) { tries++; pend_late = true; continue; }
            if (a != REPLY) { fail = true; break; }
            tries = 0; wchain.push_back(c);
            if (!more[c] || (maxf > 0 && (int)wchain.size() >= maxf)) break;
            C ^= 0x20;
        }
    }
    // with late answers the echo or the purging of S2M frames shifts what is seen; judge those only without echo
    bool any_late = false; for (size_t i = 0; i < fate.size(); i++) if (fate[i] == LATE) any_late = true;
    if (any_late && purge != MBUS_FRAME_PURGE_NONE) { discard(); h->fd = -1; mbus_context_free(h); return; }
    if (any_late) for (size_t i = 0; i + 1 < fate.size(); i++) if (fate[i] == LATE && fate[i + 1] != REPLY && fate[i + 1] != LOST_REPLY && fate[i + 1] != LOST_REQ && fate[i + 1] != DAMAGED && fate[i + 1] != SENDFAIL) { discard(); mbus_context_free(h); return; }
    if (sendfail > 0) bus.fail_at = sendfail;
    bool aok = addr >= 0 && addr <= 255;
    mbus_frame reply; memset(&reply, 0, sizeof reply); // cleared, or still holding an earlier reply
    if (g.chance(1, 4)) { uint8_t z = g.byte(); memset(&reply, z, offsetof(mbus_frame, data)); memset(reply.data, g.byte(), sizeof reply.data); reply.data_size = g.below(253); reply.type = (int)g.range(1, 5); reply.next = NULL; }
    std::string ts; for (auto &t : tels) ts += hex(t) + "; ";
    note("%s telegrams %s", desc.c_str(), ts.c_str());
    int rc = mbus_sendrecv_request(h, addr, &reply, maxf);
    note("%s", hist.c_str());
    if (!aok) { bool nothing = bus.sends == 0; free_chain(&reply); mbus_context_free(h); VF_CHECK(rc != 0 && nothing, "address %d is accepted", addr); label("invalid address"); nontrivial(desc); return; }
    std::vector<mbus_frame> got; std::string why;
    for (mbus_frame *f = &reply; f; f = (mbus_frame *)f->next) got.push_back(*f);
    VF_CHECK((rc == 0) == !fail, "%sread-out of %zu telegrams returns %d", hist.c_str(), tels.size(), rc);
    std::string w; bytes_str(wtx, w);
    VF_CHECK(bus.tx == wtx, "%srequests sent: %s should be %s", hist.c_str(), tx_str().c_str(), w.c_str());
    if (rc == 0) {
        VF_CHECK(got.size() == wchain.size(), "%schain of %zu telegrams, the slave sent %zu", hist.c_str(), got.size(), wchain.size());
        for (size_t i = 0; i < got.size(); i++) VF_CHECK(frame_is(&got[i], tels[wchain[i]], why), "%stelegram %zu of the chain is not what the slave sent: %s", hist.c_str(), i, why.c_str());
    }
    if (drained && !any_late && sendfail < 0) { VF_CHECK(bus.rx.empty(), "%safter the read-out %zu telegram(s) are left on the line", hist.c_str(), bus.rx.size()); if (fail) label("line drained after failure"); }
    free_chain(&reply);
    mbus_context_free(h);
    VF_CHECK(Heap::live() == 0, "%s%ld block(s) not released", hist.c_str(), Heap::live());
    label(fail ? "failed read-out" : wchain.size() > 1 ? "multi telegram" : "single telegram"); if (any_late) label("late reply");
    if (echo) label("echo"); if (!lossless && !fail && wtx.size() > wchain.size()) label("recovered by retry");
    if (maxf > 0 && !fail && more[wchain.back()]) label("telegram limit");
    if (wtx.size() > 1) nontrivial(desc + hist);
}

// ------------------------------------------------------------------------------------------ P23
static std::vector<std::pair<int, std::string>> found_ev;
static std::vector<Bytes> found_frames;
static void on_found(mbus_handle *, mbus_frame *f) {
    uint8_t buf[300]; mbus_frame c = *f; int n = mbus_frame_pack(&c, buf, sizeof buf);
    found_frames.push_back(n > 0 ? Bytes(buf, buf + n) : Bytes());
    // what a program does meanwhile, here with another telegram, is its own affair
    static const Bytes other = long_bytes(0x08, 9, 0x72, Bytes{0x12, 0x34, 0x56, 0x78, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08});
    mbus_frame x; memset(&x, 0, sizeof x); if (mbus_parse(&x, (uint8_t *)other.data(), other.size()) == 0) mbus_frame_get_secondary_address(&x);
}
static std::string gen_mask(Gen &g) { std::string m(16, 'F'); for (auto &c : m) if (g.coin()) c = "0123456789ABCDEFabcdef"[g.below(22)]; alike_fields(g, m); return m; }
static std::string addr_of(const Bytes &hd) { return fmt("%02X%02X%02X%02X%02X%02X%02X%02X", hd[3], hd[2], hd[1], hd[0], hd[4], hd[5], hd[6], hd[7]); }
static Bytes ident(Gen &g) { Bytes h = gen_header(g); Bytes ud = small_variable(g, false); std::copy(h.begin(), h.end(), ud.begin()); return ud; }
VF_PROPERTY(P23, 400000, 15000000, "selecting or probing with valid and invalid masks; per attempt a generated answer of the bus (none, acknowledgement, damaged, several, unexpected, device error; identity: complete, damaged, several, incomplete, other kinds), echoes, all purge and retry settings; result, delivered address, callback and telegrams compared with a model, then a selection nobody answers must give nothing; non-trivial: valid mask; distinct by the history") {
    Bus bus; B = &bus; Heap::reset(); found_frames.clear();
    mbus_handle *h = bus_handle(g.coin());
    int retry = (int)g.below(4); if (g.chance(1, 10)) retry = 9;
    int purge = g.chance(1, 8) ? MBUS_FRAME_PURGE_S2M : (int)g.below(2);
    VF_CHECK(mbus_context_set_option(h, MBUS_OPTION_MAX_SEARCH_RETRY, retry) == 0 && mbus_context_set_option(h, MBUS_OPTION_PURGE_FIRST_FRAME, purge) == 0, "option refused");
    bool cb = g.coin(); if (cb) mbus_register_found_event(h, on_found);
    bool echo = purge == MBUS_FRAME_PURGE_M2S && g.coin();
    bool probe = g.chance(2, 3);
    std::string mask = gen_mask(g); bool mok = true;
    switch (g.weighted({12, 1, 1, 1})) { case 1: mask[g.below(16)] = "g/:@G`-+ xX."[g.below(12)]; mok = false; break; case 2: mask.resize(g.below(16)); mok = false; break; case 3: mask += 'F'; mok = false; break; default: break; }
    std::string hist;
    // answers to each telegram of the master, generated beforehand
    struct Ans { std::vector<Item> items; };
    auto gen_sel = [&](Ans &a) {
        switch (g.weighted({5, 8, 3, 3, 2, 1})) {
        case 0: hist += "none, "; break;
        case 1: hist += "ack, "; a.items.push_back({0, ACKB}); break;
        case 2: hist += "damaged, "; a.items.push_back({-2, gen_damaged(g)}); if (g.coin()) a.items.push_back({g.coin() ? 0 : -2, ACKB}); break;
        case 3: hist += "ack and more, "; a.items.push_back({0, ACKB}); { size_t n = g.size(1, 3); while (n--) { if (g.coin()) a.items.push_back({0, g.coin() ? ACKB : stray(g, purge)}); else a.items.push_back({-2, gen_damaged(g)}); } } break;
        case 4: hist += "unexpected, "; a.items.push_back({0, long_bytes(0x08, (uint8_t)g.below(256), 0x72, ident(g))}); break;
        default: hist += "device error, "; a.items.push_back({g.coin() ? MBUS_RECV_RESULT_ERROR : MBUS_RECV_RESULT_RESET, Bytes()}); break;
        }
    };
    Bytes idt = ident(g);
    auto gen_req = [&](Ans &a) {
        switch (g.weighted({3, 8, 3, 3, 2, 2, 1})) {
        case 0: hist += "no identity, "; break;
        case 1: hist += "identity, "; a.items.push_back({0, long_bytes(g.coin() ? 0x08 : 0x28, (uint8_t)g.below(256), 0x72, idt)}); break;
        case 2: hist += "identity damaged, "; a.items.push_back({-2, gen_damaged(g)}); break;
        case 3: hist += "several identities, "; a.items.push_back({0, long_bytes(0x08, 1, 0x72, idt)}); { size_t n = g.size(1, 2); while (n--) { if (g.coin()) a.items.push_back({0, long_bytes(0x08, 2, 0x72, ident(g))}); else a.items.push_back({-2, gen_damaged(g)}); } } break;
        case 4: hist += "incomplete identity, "; switch (g.below(4)) { case 0: a.items.push_back({0, long_bytes(0x08, 1, 0x72, g.bytes(g.size(1, 11)))}); break; case 1: a.items.push_back({0, long_bytes(0x08, 1, 0x73, g.bytes(16))}); break; case 2: a.items.push_back({0, long_bytes(0x08, 1, 0x70, Bytes{3})}); break; default: { Bytes u = idt; u.resize(12); u.push_back(0x04); a.items.push_back({0, long_bytes(0x08, 1, 0x72, u)}); } } break;
        case 5: hist += "other answer, "; switch (g.below(3)) { case 0: a.items.push_back({0, ACKB}); break; case 1: a.items.push_back({0, short_bytes(0x5B, 0xFD)}); break; default: a.items.push_back({0, long_bytes(0x08, 1, 0x72)}); } break;
        default: hist += "device error, "; a.items.push_back({g.coin() ? MBUS_RECV_RESULT_ERROR : MBUS_RECV_RESULT_RESET, Bytes()}); break;
        }
    };
    long fail_at = g.chance(1, 8) ? g.range(1, 4) : -1;
    std::vector<Ans> sel(11), rq(11);
    for (int i = 0; i <= retry; i++) gen_sel(sel[i]);
    gen_req(rq[0]);
    note("%s mask %s retry %d purge %d echo %d fail %ld: %s", probe ? "probe" : "select", esc(mask).c_str(), retry, purge, echo, fail_at, hist.c_str());
    size_t ns = 0, nr = 0;
    auto deliver = [&](std::deque<Item> &q, const Bytes &b, size_t &s, size_t &r) {
        if (echo) q.push_back({0, b});
        if (purge == MBUS_FRAME_PURGE_S2M) q.push_back({0, ACKB});    // the first frame from the slave side is dropped
        Ans &a = b.size() > 5 ? sel[s < 10 ? s++ : 10] : rq[r < 10 ? r++ : 10];
        for (auto &i : a.items) q.push_back(i);
    };
    bus.on_tx = [&](const Bytes &b) { deliver(bus.rx, b, ns, nr); };
    bus.fail_at = fail_at;
    // model; two admissible results where the specification leaves it open
    std::vector<Bytes> wtx; std::set<int> want; std::string waddr; bool wfound = false; Bytes wframe;
    Model m; m.purge = purge; long snd = 0; size_t ms = 0, mr = 0;
    auto send = [&](const Bytes &b) { snd++; if (fail_at > 0 && snd >= fail_at) return false; wtx.push_back(b); deliver(m.q, b, ms, mr); return true; };
    auto select = [&]() -> int { // -9: receiving failed
        if (!send(select_tel(mask))) return MBUS_PROBE_ERROR;
        Item i = m.recv();
        if (i.code == MBUS_RECV_RESULT_TIMEOUT) return MBUS_PROBE_NOTHING;
        if (i.code == MBUS_RECV_RESULT_INVALID) { m.purge_all(); return MBUS_PROBE_COLLISION; }
        if (i.code != 0) return -9;
        if (i.b == ACKB) return m.purge_all() ? MBUS_PROBE_COLLISION : MBUS_PROBE_SINGLE;
        return MBUS_PROBE_NOTHING;
    };
    bool open_end = false; // from here on not judged but for the result class
    if (!mok) want = {MBUS_PROBE_ERROR};
    else if (!probe) { int r = select(); if (r == -9) want = {MBUS_PROBE_ERROR, MBUS_PROBE_NOTHING}; else want = {r}; }
    else {
        int r = MBUS_PROBE_NOTHING;
        for (int i = 0; i <= retry; i++) {
            r = select();
            if (r == -9) { open_end = true; break; }
            if (r == MBUS_PROBE_SINGLE) {
                if (!send(short_bytes(0x5B, 0xFD))) { r = MBUS_PROBE_ERROR; break; }
                Item q = m.recv();
                if (q.code == MBUS_RECV_RESULT_TIMEOUT) r = MBUS_PROBE_NOTHING;
                else if (q.code == MBUS_RECV_RESULT_INVALID) r = MBUS_PROBE_COLLISION;
                else if (q.code != 0) { r = -9; }
                else if (m.purge_all()) r = MBUS_PROBE_COLLISION;
                else {
                    r = MBUS_PROBE_NOTHING;
                    RefParse p = ref_parse(q.b.data(), q.b.size()); VarData v;
                    if (p.t.kind == Tel::LONG && p.t.ci == 0x72 && !is_m2s(q.b) && ref_variable(p.t.ud, v)) { r = MBUS_PROBE_SINGLE; waddr = addr_of(v.header); wfound = true; wframe = q.b; }
                }
                break;
            }
            if (r != MBUS_PROBE_NOTHING) break;
        }
        if (r == -9) want = {MBUS_PROBE_ERROR, MBUS_PROBE_NOTHING}; else want = {r};
        if (open_end) want = {MBUS_PROBE_ERROR, MBUS_PROBE_NOTHING, MBUS_PROBE_COLLISION, MBUS_PROBE_SINGLE};
    }
    // a failing reception during selection: either given up or tried again; judged only as "not a clean answer" when it is the last attempt
    char out[24]; memset(out, '#', sizeof out);
    int rc = probe ? mbus_probe_secondary_address(h, mask.c_str(), out) : mbus_select_secondary_address(h, mask.c_str());
    if (!mok && g.chance(1, 4)) VF_CHECK((probe ? mbus_probe_secondary_address(h, NULL, out) : mbus_select_secondary_address(h, NULL)) == MBUS_PROBE_ERROR, "a missing mask is accepted");
    std::vector<Bytes> first_tx = bus.tx; long first_sends = bus.sends;
    if (mok && rc >= 0 && !open_end) { // what was on the bus must not be taken for the answer to the next selection
        bus.fail_at = -1; bus.on_tx = [&](const Bytes &b) { if (echo) bus.rx.push_back({0, b}); };
        int r2 = mbus_select_secondary_address(h, "00000000FFFFFFFF");
        VF_CHECK(r2 == MBUS_PROBE_NOTHING, "%s: then a selection nobody answers gives %d", hist.c_str(), r2);
        bus.tx = first_tx; bus.sends = first_sends;
    }
    mbus_context_free(h);
    static const char *nm[] = {"an error", "nothing", "a single slave", "a collision"};
    std::string wn; for (int x : want) wn += std::string(wn.empty() ? "" : " or ") + nm[x + 1];
    VF_CHECK(rc >= -1 && rc <= 2 && want.count(rc), "%s: reported %s, should be %s", hist.c_str(), rc >= -1 && rc <= 2 ? nm[rc + 1] : "?", wn.c_str());
    if (!mok) VF_CHECK(bus.sends == 0, "an invalid mask is transmitted: %s", tx_str().c_str());
    else if (!open_end) { std::string w; bytes_str(wtx, w); VF_CHECK(bus.tx == wtx, "%s: telegrams sent: %s should be %s", hist.c_str(), tx_str().c_str(), w.c_str()); }
    if (wfound) {
        VF_CHECK(!strcmp(out, waddr.c_str()), "%s: address %s, the slave is %s", hist.c_str(), esc(std::string(out, 17)).c_str(), waddr.c_str());
        for (int i = 17; i < 24; i++) VF_CHECK(out[i] == '#', "written beyond 17 characters");
    }
    if (!open_end) {
        VF_CHECK(found_frames.size() == (wfound && cb ? 1 : 0), "%s: found event called %zu times", hist.c_str(), found_frames.size());
        if (wfound && cb) VF_CHECK(found_frames[0] == wframe, "%s: the found event gets %s", hist.c_str(), hex(found_frames[0]).c_str());
    }
    VF_CHECK(Heap::live() == 0, "%ld block(s) not released", Heap::live());
    label(fmt("%s: %s", probe ? "probe" : "select", mok ? nm[rc + 1] : "invalid mask"));
    if (mok) nontrivial(fmt("%d %d %d %d %ld ", probe, retry, purge, echo, fail_at) + mask + hist);
}

// ------------------------------------------------------------------------------------------ P24
struct Slave { std::string a; Bytes ud; bool selected = false; };
static std::vector<std::string> progress;
static bool announced = true;               // the last announced mask has been tried
static void on_progress(mbus_handle *, const char *m) {
    if (!progress.empty()) VF_CHECK(announced, "mask %s is announced but not tried", progress.back().c_str());
    progress.push_back(m); announced = false;
}
static bool match(const std::string &m, const std::string &a, bool nibble) {
    for (int i = 0; i < 8; i++) if (toupper(m[i]) != 'F' && toupper(m[i]) != a[i]) return false;
    static const int fs[] = {8, 12, 12, 14, 14, 16};
    if (nibble) { for (int i = 8; i < 16; i++) if (toupper(m[i]) != 'F' && toupper(m[i]) != a[i]) return false; return true; }
    for (int k = 0; k < 3; k++) { bool wild = true, eq = true; for (int i = fs[2 * k]; i < fs[2 * k + 1]; i++) { if (toupper(m[i]) != 'F') wild = false; if (toupper(m[i]) != a[i]) eq = false; } if (!wild && !eq) return false; }
    return true;
}
// runs f with standard output going to a string
static std::string captured(const std::function<void()> &f) {
    fflush(stdout); int keep = dup(1); char tn[] = "/tmp/vfoutXXXXXX"; int fd = mkstemp(tn); VF_CHECK(fd >= 0 && keep >= 0, "harness: capture"); unlink(tn);
    dup2(fd, 1); f(); fflush(stdout); dup2(keep, 1); close(keep);
    std::string s; lseek(fd, 0, SEEK_SET); char b[4096]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd);
    return s;
}
VF_PROPERTY(P24, 80000, 2500000, "populations of 0-12 slaves whose addresses share generated prefixes (of the identification, or of all 16 digits for slaves with wildcards per digit), generated masks and start positions, colliding answers seen as damage, as several answers or as one clean acknowledgement followed by colliding identities, answers lost within the retry limit, transmission failures; reported slaves compared with the population; non-trivial: at least one slave or a failure; distinct by population, mask and faults") {
    Bus bus; B = &bus; Heap::reset(); found_frames.clear(); progress.clear(); announced = true;
    mbus_handle *h = bus_handle(g.coin());
    int retry = (int)g.weighted({3, 2, 1}); int purge = (int)g.below(2);
    VF_CHECK(mbus_context_set_option(h, MBUS_OPTION_MAX_SEARCH_RETRY, retry) == 0 && mbus_context_set_option(h, MBUS_OPTION_PURGE_FIRST_FRAME, purge) == 0, "option refused");
    bool echo = purge == MBUS_FRAME_PURGE_M2S && g.coin();
    bool events = g.chance(7, 8);
    if (events) mbus_register_found_event(h, on_found);
    mbus_register_scan_progress(h, on_progress);
    size_t n = g.weighted({1, 2, 3, 4}) == 0 ? 0 : g.size(1, 12);
    bool nibble = g.coin(), deep = nibble && g.coin();      // deep: slaves that differ in the digits behind the identification only
    std::vector<Slave> sl;
    for (size_t i = 0; i < n; i++) {
        Slave s; Bytes hd = gen_header(g);
        std::string id;
        if (!sl.empty() && g.chance(3, 4)) { // share a prefix with another slave
            id = g.pick(sl).a.substr(0, 8); size_t keep = g.below(9); for (size_t k = keep; k < 8; k++) id[k] = (char)('0' + g.below(10));
        } else for (int k = 0; k < 8; k++) id += (char)('0' + g.below(10));
        if (g.chance(1, 40)) id[g.below(8)] = (char)('A' + g.below(5));    // not reachable by enumerating decimal digits
        for (int k = 0; k < 4; k++) hd[3 - k] = (uint8_t)strtol(id.substr(2 * k, 2).c_str(), NULL, 16);
        if (!sl.empty() && g.coin()) { const Bytes &o = g.pick(sl).ud; for (int k = 4; k < 8; k++) hd[k] = o[k]; }
        if (deep) {
            std::string a; size_t keep = sl.empty() ? 0 : g.chance(1, 4) ? g.below(17) : g.range(8, 15);
            if (keep) a = g.pick(sl).a.substr(0, keep);
            while (a.size() < 16) a += (char)(g.chance(1, 60) ? 'A' + g.below(6) : '0' + g.below(10));
            if (g.chance(1, 4)) a[15] = (char)('0' + g.below(10));
            if (!sl.empty() && g.chance(1, 3)) { a = g.pick(sl).a; size_t k = g.chance(1, 4) ? g.below(8) : g.range(8, 15); a[k] = (char)('0' + g.below(10)); } // a single digit differs
            for (int k = 0; k < 4; k++) hd[3 - k] = (uint8_t)strtol(a.substr(2 * k, 2).c_str(), NULL, 16);
            for (int k = 4; k < 8; k++) hd[k] = (uint8_t)strtol(a.substr(2 * k, 2).c_str(), NULL, 16);
        }
        s.ud = small_variable(g, false); std::copy(hd.begin(), hd.end(), s.ud.begin());
        s.a = addr_of(hd); sl.push_back(s);
    }
    // mask
    std::string mask(16, 'F');
    if (!sl.empty() && g.coin()) { const std::string &a = g.pick(sl).a; for (int k = 0; k < 16; k++) if (g.chance(1, 3)) mask[k] = a[k]; if (g.chance(1, 4)) mask = a; if (g.chance(1, 4)) { size_t k = g.below(8); mask = a.substr(0, k) + std::string(16 - k, 'F'); } }
    else if (g.chance(1, 3)) { size_t k = g.below(16); for (size_t i = 0; i < k; i++) mask[g.below(16)] = (char)('0' + g.below(10)); }
    if (g.chance(1, 4)) for (auto &c : mask) if (g.chance(1, 4)) c = (char)tolower(c);
    if (deep && !sl.empty() && g.coin()) { const std::string &a = g.pick(sl).a; size_t k = g.range(8, 15); mask = a.substr(0, k) + std::string(16 - k, 'F'); }
    int pos = g.chance(3, 4) ? 0 : (int)g.range(0, 15);
    if (g.chance(1, 40)) { static const int off[] = {16, -1, 17, -2, 18, 31, 32, 255, 256, INT_MAX, INT_MIN}; pos = g.pick(off); }
    bool mok = true; std::string given = mask;
    if (g.chance(1, 20)) { mok = false; switch (g.below(3)) { case 0: given.resize(g.below(16)); break; case 1: given += "F"; break; default: given[(size_t)g.below(16)] = 'x'; } }
    int style = (int)g.below(4);
    long fail_at = g.chance(1, 8) ? g.range(1, 60) : -1;
    bool lossy = retry > 0 && g.chance(1, 3);
    std::string desc = fmt("mask %s pos %d retry %d purge %d echo %d style %d nibble %d fail %ld lossy %d;", esc(given).c_str(), pos, retry, purge, echo, style, nibble, fail_at, lossy);
    for (auto &s : sl) desc += " " + s.a;
    note("%s", desc.c_str());
    std::string lastmask; int lost = 0;
    bus.on_tx = [&](const Bytes &b) {
        if (echo) bus.rx.push_back({0, b});
        if (b.size() == 17 && b[6] == 0x52) {
            VF_CHECK(!progress.empty() && progress.back().size() == 16 && select_tel(progress.back()) == b, "selection %s is not announced by a progress report (last: %s)", hex(b).c_str(), progress.empty() ? "none" : progress.back().c_str());
            announced = true;
            Bytes d(b.begin() + 7, b.begin() + 15); std::string m = addr_of(d);
            int k = 0; for (auto &s : sl) { s.selected = match(m, s.a, nibble); k += s.selected; }
            if (m != lastmask) { lastmask = m; lost = 0; }
            if (!k) return;
            if (lossy && lost < retry && g.chance(1, 3)) { lost++; label("answer lost"); return; }
            if (k == 1) bus.rx.push_back({0, ACKB});
            else switch (style == 3 ? g.below(3) : (uint64_t)style) { case 0: bus.rx.push_back({-2, gen_damaged(g)}); break; case 1: for (int i = 0; i < k; i++) bus.rx.push_back({0, ACKB}); break; default: bus.rx.push_back({0, ACKB}); }
        } else if (b.size() == 5 && b[2] == 0xFD) {
            int k = 0; const Slave *one = nullptr; for (auto &s : sl) if (s.selected) { k++; one = &s; }
            if (k == 1) bus.rx.push_back({0, long_bytes(0x08, 1, 0x72, one->ud)});
            else if (k > 1) { if (style == 1) { for (auto &s : sl) if (s.selected) bus.rx.push_back({0, long_bytes(0x08, 1, 0x72, s.ud)}); } else bus.rx.push_back({-2, gen_damaged(g)}); }
        }
    };
    bus.fail_at = fail_at;
    char buf[64]; snprintf(buf, sizeof buf, "%s", given.c_str());
    int rc = -9; std::string out;
    if (events) rc = mbus_scan_2nd_address_range(h, pos, buf); else out = captured([&] { rc = mbus_scan_2nd_address_range(h, pos, buf); });
    bool failed = fail_at > 0 && bus.sends >= fail_at;
    mbus_context_free(h);
    VF_CHECK(!strcmp(buf, given.c_str()), "the caller's mask is changed to %s", buf);
    VF_CHECK(Heap::live() == 0, "%ld block(s) not released", Heap::live());
    // what was reported
    std::vector<std::string> rep;
    if (events) for (auto &f : found_frames) { RefParse p = ref_parse(f.data(), f.size()); VF_CHECK(p.result == 0 && p.t.ud.size() >= 12, "the found event gets no identity"); rep.push_back(addr_of(p.t.ud)); }
    else { size_t p = 0; static const char K[] = "Found a device on secondary address "; while ((p = out.find(K, p)) != std::string::npos) { p += strlen(K); rep.push_back(out.substr(p, 16)); } }
    std::string rs; for (auto &r : rep) rs += r + " ";
    if (!mok) {
        bool len = given.size() != 16;
        if (len) { VF_CHECK(rc != 0 && bus.sends == 0, "the mask %s is accepted", esc(given).c_str()); }
        else if (pos >= 0 && pos < 16) VF_CHECK(bus.tx.empty() || rc != 0 || true, "-");
        label("invalid mask"); nontrivial(desc); return;
    }
    if (pos < 0 || pos > 15) { VF_CHECK(rc == 0 && bus.sends == 0 && rep.empty(), "positions outside the mask are scanned (%d)", rc); label("no position"); return; }
    if (failed) VF_CHECK(rc != 0, "the %ldth transmission failed, the scan reports success", fail_at);
    else VF_CHECK(rc == 0, "the scan fails (%d)", rc);
    if (failed) VF_CHECK(bus.sends == fail_at, "the scan goes on after a failed transmission (%ld more)", bus.sends - fail_at);
    std::map<std::string, int> cnt; for (auto &r : rep) cnt[r]++;
    std::map<std::string, int> pop; for (auto &s : sl) pop[s.a]++;
    for (auto &c : cnt) {
        VF_CHECK(pop.count(c.first), "slave %s is reported but does not exist", c.first.c_str());
        VF_CHECK(c.second == 1, "slave %s is reported %d times", c.first.c_str(), c.second);
        VF_CHECK(match(mask, c.first, true), "slave %s is reported but does not match %s", c.first.c_str(), mask.c_str());
    }
    size_t dist = 0;
    for (auto &s : sl) {
        if (!match(mask, s.a, true)) continue;
        if (!match(mask, s.a, nibble)) continue;
        if (nibble) { // every wildcard from the start position on is enumerated by its decimal digits
            bool ok = true; for (int i = pos; i < 16; i++) if (toupper(mask[i]) == 'F' && s.a[i] > '9') ok = false;
            for (auto &o : sl) if (&o != &s && match(mask, o.a, true) && o.a.substr(pos) == s.a.substr(pos)) ok = false;
            if (!ok) continue;
            dist++;
            if (!failed) VF_CHECK(cnt.count(s.a), "slave %s is not found (reported: %s)", s.a.c_str(), rs.c_str());
            continue;
        }
        bool digits = true; for (int i = 0; i < 8; i++) if (s.a[i] > '9' && mask[i] != s.a[i]) digits = false;
        if (!digits) continue;
        // distinguishable by a digit at or after the start position
        bool uniq = true; for (auto &o : sl) if (&o != &s && match(mask, o.a, true)) { bool diff = false; for (int i = pos; i < 8; i++) if (o.a[i] != s.a[i]) diff = true; if (!diff) uniq = false; }
        if (pos >= 8) { // only a single matching slave, and enumerating fixed fields must not hide it
            bool fixed = true; for (int i = pos; i < 16; i++) if (toupper(mask[i]) == 'F') fixed = false;
            if (!fixed) uniq = false;
        } else { bool wild = false; for (int i = pos; i < 8; i++) if (toupper(mask[i]) == 'F') wild = true; // no identification digit left to enumerate: the scan goes on in the other fields
            if (!wild) { bool fixed = true; for (int i = 8; i < 16; i++) if (toupper(mask[i]) == 'F') fixed = false; if (!fixed) uniq = false; } }
        if (!uniq) continue;
        dist++;
        if (!failed) VF_CHECK(cnt.count(s.a), "slave %s is not found (reported: %s)", s.a.c_str(), rs.c_str());
    }
    label(failed ? "transmission failure" : fmt("%zu distinguishable", dist)); if (dist < sl.size()) label("with others"); if (!events) label("printed");
    if (!sl.empty() || failed) nontrivial(desc);
}

// ------------------------------------------------------------------------------------------ P25
VF_PROPERTY(P25, 500000, 10000000, "generated queues of telegrams of either direction, damaged telegrams, timeouts, errors and resets; sequences of receive (also into used frames) and purge calls with all purge settings, queues up to 400 frames; delivered telegrams, results and consumption compared with a model; non-trivial: something on the bus; distinct by queue and calls") {
    Bus bus; B = &bus;
    mbus_handle *h = bus_handle(g.coin());
    size_t n = g.chance(1, 30) ? g.size(20, 400) : g.size(0, 12); std::string desc;
    for (size_t i = 0; i < n; i++) {
        Item it; static const int other[] = {MBUS_RECV_RESULT_ERROR, MBUS_RECV_RESULT_TIMEOUT, MBUS_RECV_RESULT_RESET};
        switch (g.weighted({8, 3, 2, 3})) {
        case 0: it = {0, stray(g, 0)}; break;
        case 1: it = {MBUS_RECV_RESULT_INVALID, gen_damaged(g)}; break;
        case 2: it = {g.pick(other), Bytes()}; break;
        default: it = {0, short_bytes(g.pick(SHORT_C), g.byte())}; break;
        }
        desc += fmt("%d:%s ", it.code, hex(it.b).c_str());
        bus.rx.push_back(it);
    }
    Model m; m.q = bus.rx; m.purge = 1;
    m.purge = MBUS_FRAME_PURGE_M2S; // default of a new context
    note("%s", desc.c_str());
    size_t calls = g.size(1, 8);
    mbus_frame keep; memset(&keep, 0, sizeof keep);     // a structure used for several receptions
    for (size_t i = 0; i < calls; i++) {
        switch (g.weighted({3, 6, 2, 1})) {
        case 0: { int p = (int)g.below(3); VF_CHECK(mbus_context_set_option(h, MBUS_OPTION_PURGE_FIRST_FRAME, p) == 0, "option refused"); m.purge = p; desc += fmt("purge=%d ", p); note("purge=%d", p); break; }
        case 1: {
            bool reuse = g.coin();
            mbus_frame fresh; memset(&fresh, 0, sizeof fresh); mbus_frame &f = reuse ? keep : fresh; size_t before = m.q.size(); Item w = m.recv();
            if (g.coin()) f.timestamp = (time_t)g.below(2000000000);
            note("receive%s", reuse ? " into a used frame" : "");
            time_t t0 = time(NULL); int rc = mbus_recv_frame(h, &f); time_t t1 = time(NULL); std::string why;
            VF_CHECK(rc == w.code, "result %d, should be %d", rc, w.code);
            VF_CHECK(bus.rx.size() == m.q.size(), "%zu frames consumed, should be %zu", before - bus.rx.size(), before - m.q.size());
            if (rc == 0) { VF_CHECK(frame_is(&f, w.b, why), "delivered frame is not %s: %s", hex(w.b).c_str(), why.c_str()); VF_CHECK(f.timestamp >= t0 && f.timestamp <= t1, "time of reception is %ld, should be %ld", (long)f.timestamp, (long)t0); }
            label(fmt("result %d%s", rc, before - m.q.size() > 1 ? " purged" : ""));
            desc += "r "; break; }
        case 2: { note("purge"); bool w = m.purge_all(); int rc = mbus_purge_frames(h);
            VF_CHECK((rc != 0) == w, "purging reports %d, %s was received", rc, w ? "something" : "nothing");
            VF_CHECK(bus.rx.size() == m.q.size(), "purging leaves %zu frames, should be %zu", bus.rx.size(), m.q.size()); label("purge"); desc += "p "; break; }
        default: { mbus_frame f; memset(&f, 0, sizeof f); size_t b = bus.rx.size();
            VF_CHECK(mbus_recv_frame(NULL, &f) == MBUS_RECV_RESULT_ERROR && mbus_recv_frame(h, NULL) == MBUS_RECV_RESULT_ERROR && bus.rx.size() == b, "missing arguments are accepted"); break; }
        }
    }
    mbus_context_free(h);
    if (n) nontrivial(desc);
}

// ------------------------------------------------------------------------------------------ P26
static int listener = -1, lport; static char ptyname[64];
static void open_listener() {
    if (listener >= 0) return;
    listener = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t l = sizeof a;
    if (bind(listener, (struct sockaddr *)&a, sizeof a) || listen(listener, 64) || getsockname(listener, (struct sockaddr *)&a, &l)) { close(listener); listener = -2; return; }
    lport = ntohs(a.sin_port); fcntl(listener, F_SETFL, O_NONBLOCK);
}
static void dummy_recv(unsigned char, const char *, size_t) {}
struct Ctx { mbus_handle *h; bool serial; int dr = 3, sr = 1, pf = MBUS_FRAME_PURGE_M2S; bool conn = false, reach; void *re = 0, *se = 0, *sp = 0, *fe = 0; };
static void check_ctx(const Ctx &c, const char *after) {
    mbus_handle *h = c.h;
    VF_CHECK((h->is_serial != 0) == c.serial, "%s: is_serial is %d", after, h->is_serial);
    VF_CHECK(h->max_data_retry == c.dr && h->max_search_retry == c.sr && h->purge_first_frame == c.pf, "%s: settings are %d/%d/%d, should be %d/%d/%d", after, h->max_data_retry, h->max_search_retry, h->purge_first_frame, c.dr, c.sr, c.pf);
    VF_CHECK((void *)h->recv_event == c.re && (void *)h->send_event == c.se && (void *)h->scan_progress == c.sp && (void *)h->found_event == c.fe, "%s: observers differ from the registered ones", after);
    VF_CHECK(c.conn ? h->fd >= 0 : h->fd < 0, "%s: descriptor is %d of a context that is%s connected", after, h->fd, c.conn ? "" : " not");
}
VF_PROPERTY(P26, 480000, 15000000, "sequences of 1-25 operations (create, set option, register observers, connect, disconnect, transfer, free) on up to four contexts of both kinds, reachable and not, with valid and invalid option values and null arguments; all public settings of all contexts compared with a model after every operation; non-trivial: at least one context; distinct by the sequence") {
    open_listener(); if (open_pty() && !ptyname[0]) ttyname_r(ptyp[1], ptyname, sizeof ptyname);
    Heap::reset(); sent_ev.clear();
    std::vector<Ctx> cs; std::string desc;
    size_t n = g.size(1, 25);
    for (size_t i = 0; i < n; i++) {
        int op = (int)g.weighted({4, 10, 3, 3, 3, 2, 2});
        if (cs.empty() && op && op != 6) op = 0;
        char what[200] = "";
        size_t k = cs.empty() ? 0 : g.below(cs.size());
        switch (op) {
        case 0: { if (cs.size() >= 4) break; Ctx c; c.serial = g.coin(); c.reach = g.chance(2, 3);
            if (c.serial) { if (!ptyname[0]) c.reach = false; c.h = mbus_context_serial(c.reach ? ptyname : "/nonexistent/tty"); } else { if (listener < 0) c.reach = false; c.h = mbus_context_tcp("127.0.0.1", (uint16_t)(c.reach ? lport : 1)); }
            VF_CHECK(c.h, "no context"); cs.push_back(c); snprintf(what, sizeof what, "create %s%s", c.serial ? "serial" : "tcp", c.reach ? "" : " unreachable"); break; }
        case 1: { int opt = (int)g.below(3); if (g.chance(1, 12)) opt = (int)g.pick(std::vector<int>{-1, 3, 4, 100, 0x7fffffff});
            static const long vs[] = {0, 1, 2, 3, 4, 5, 9, 10, 11, -1, -9, 255, 256, 257, 258, 1000, 0x100000000L, 0x100000001L, 0x100000002L, 0x100000009L, -0x100000000L, 0x7fffffffffffffffL, -0x7fffffffffffffffL - 1};
            long v = g.chance(1, 3) ? (long)g.below(12) : g.pick(vs);
            snprintf(what, sizeof what, "set option %d to %ld", opt, v);
            bool ok = opt == 0 || opt == 1 ? v >= 0 && v <= 9 : opt == 2 ? v >= 0 && v <= 2 : false;
            int rc = mbus_context_set_option(cs[k].h, (mbus_context_option)opt, v);
            VF_CHECK((rc == 0) == ok, "%s: result %d", what, rc);
            if (ok) { if (opt == 0) cs[k].dr = (int)v; else if (opt == 1) cs[k].sr = (int)v; else cs[k].pf = (int)v; }
            label(ok ? "option accepted" : "option refused"); break; }
        case 2: { snprintf(what, sizeof what, "connect"); if (cs[k].conn) break;
            int rc = mbus_connect(cs[k].h); VF_CHECK((rc == 0) == cs[k].reach, "connecting a %s %s context: %d", cs[k].reach ? "reachable" : "unreachable", cs[k].serial ? "serial" : "TCP", rc);
            if (rc == 0) { cs[k].conn = true; if (!cs[k].serial) { int p; while ((p = accept(listener, 0, 0)) >= 0) close(p); } }
            label(rc ? "connection failed" : "connected"); break; }
        case 3: { snprintf(what, sizeof what, "disconnect"); int rc = mbus_disconnect(cs[k].h); VF_CHECK((rc == 0) == cs[k].conn, "disconnecting a context that is%s connected: %d", cs[k].conn ? "" : " not", rc); cs[k].conn = false; break; }
        case 4: { bool on = g.coin(); switch (g.below(4)) { case 0: mbus_register_recv_event(cs[k].h, on ? dummy_recv : NULL); cs[k].re = on ? (void *)dummy_recv : NULL; break; case 1: mbus_register_send_event(cs[k].h, on ? on_send : NULL); cs[k].se = on ? (void *)on_send : NULL; break; case 2: mbus_register_scan_progress(cs[k].h, on ? on_progress : NULL); cs[k].sp = on ? (void *)on_progress : NULL; break; default: mbus_register_found_event(cs[k].h, on ? on_found : NULL); cs[k].fe = on ? (void *)on_found : NULL; }
            snprintf(what, sizeof what, "register observer %d", on); break; }
        case 5: { if (g.coin()) { // transfer through a context that is not connected fails
                if (cs[k].conn) break; snprintf(what, sizeof what, "transfer unconnected"); mbus_frame f; memset(&f, 0, sizeof f); f.type = MBUS_FRAME_TYPE_ACK; f.start1 = 0xE5; size_t e = sent_ev.size();
                VF_CHECK(mbus_send_frame(cs[k].h, &f) != 0 && sent_ev.size() == e, "sending through an unconnected context succeeds"); VF_CHECK(mbus_recv_frame(cs[k].h, &f) != 0, "receiving through an unconnected context succeeds"); break; }
            snprintf(what, sizeof what, "free"); int fd = -1; if (cs[k].conn) { if (g.chance(1, 6)) fd = cs[k].h->fd; else mbus_disconnect(cs[k].h); } mbus_context_free(cs[k].h); if (fd >= 0) close(fd); cs.erase(cs.begin() + k); break; }
        default: { snprintf(what, sizeof what, "null"); mbus_frame f; memset(&f, 0, sizeof f); f.type = MBUS_FRAME_TYPE_ACK; f.start1 = 0xE5;
            VF_CHECK(mbus_connect(NULL) != 0 && mbus_disconnect(NULL) != 0 && mbus_send_frame(NULL, &f) != 0 && mbus_recv_frame(NULL, &f) != 0 && mbus_context_set_option(NULL, MBUS_OPTION_MAX_DATA_RETRY, 1) != 0, "a null context is accepted"); mbus_context_free(NULL); break; }
        }
        desc += std::string(what) + fmt("[%zu]; ", k); note("%s [%zu]", what, k);
        for (auto &c : cs) check_ctx(c, what);
    }
    for (auto &c : cs) { if (c.conn) mbus_disconnect(c.h); mbus_context_free(c.h); }
    VF_CHECK(Heap::live() == 0, "%ld block(s) not released", Heap::live());
    if (!desc.empty()) nontrivial(desc);
}
