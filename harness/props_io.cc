// P27 TCP and P28 serial transport: the system calls of the library are redirected (vs_*) to a simulated line for one
// descriptor; every other descriptor goes to the real system.
#include "sim.h"
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <stdarg.h>
#include <termios.h>
#include <poll.h>
#include <pty.h>
#include <netdb.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <set>

// ------------------------------------------------------------------------------------------ simulated line
struct Ev { enum K { DATA, INTR, SILENCE, ERR, CLOSED } k; Bytes b; int err = 0; };     // SILENCE: the read time-out expires once
struct Wr { int n, err; };                                                            // outcome of one write: n bytes at most, or -1 with errno
struct Line {
    std::deque<Ev> in; Bytes consumed; std::deque<Wr> wr; Bytes written; bool tty = true, endless_close = false; int end_err = 0; bool serial = false;
    long calls = 0, eintr = 0, writes = 0, empties = 0; size_t drained = 0;   // bytes written before the last drain
    void tick() { calls++; VF_CHECK(calls < 20000, "the call does not come to an end: %ld system calls", calls); }
    ssize_t take(void *p, size_t n, bool peek = false) {
        tick();
        if (!n) return 0;
        if (in.empty()) { if (end_err) { errno = end_err; return -1; } if (endless_close) return 0; empties++; if (serial) return 0; errno = EAGAIN; return -1; }
        Ev &e = in.front();
        switch (e.k) {
        case Ev::DATA: { size_t m = std::min(n, e.b.size()); memcpy(p, e.b.data(), m); if (peek) return (ssize_t)m; consumed.insert(consumed.end(), e.b.begin(), e.b.begin() + m); e.b.erase(e.b.begin(), e.b.begin() + m); if (e.b.empty()) in.pop_front(); return (ssize_t)m; }
        case Ev::INTR: in.pop_front(); eintr++; errno = EINTR; return -1;
        case Ev::SILENCE: in.pop_front(); empties++; if (serial) return 0; errno = EAGAIN; return -1;
        case Ev::ERR: errno = e.err; in.pop_front(); return -1;
        default: return 0;                       // closed, for good
        }
    }
    int ready() { // select/poll: 1 readable, 0 timeout, -1 interrupted
        tick();
        if (in.empty()) return endless_close || end_err ? 1 : (empties++, 0);
        if (in.front().k == Ev::SILENCE) { in.pop_front(); empties++; return 0; }
        if (in.front().k == Ev::INTR) { in.pop_front(); eintr++; errno = EINTR; return -1; }
        return 1;
    }
    ssize_t put(const void *p, size_t n) {
        tick(); writes++;
        Wr w = {1 << 30, 0}; if (!wr.empty()) { w = wr.front(); wr.pop_front(); }
        if (w.n < 0) { errno = w.err; return -1; }
        size_t m = std::min(n, (size_t)w.n); written.insert(written.end(), (const uint8_t *)p, (const uint8_t *)p + m); return (ssize_t)m;
    }
};
static Line *L; static int SIM = -1;
static bool sim(int fd) { return L && fd == SIM; }
// simulated name resolution and connection
struct Addr { int sock_err, conn_err; };
struct Net { std::vector<Addr> a; size_t at = 0; std::set<int> open; int connected = -1; std::string host, port; bool resolve = true, zero = false, tmo[2] = {false, false}; struct timeval tv[2]; long freed = 0; std::vector<struct addrinfo> ai; std::vector<struct sockaddr_in> sa; };
static Net *N;
struct Tio { long n = 0; struct termios t; int fail = 0; bool zero = false, gone = false; }; static Tio *T;

extern "C" {
ssize_t vs_read(int fd, void *p, size_t n) { return sim(fd) ? L->take(p, n) : read(fd, p, n); }
ssize_t vs_recv(int fd, void *p, size_t n, int fl) { return sim(fd) ? L->take(p, n, fl & MSG_PEEK) : recv(fd, p, n, fl); }
ssize_t vs_recvfrom(int fd, void *p, size_t n, int fl, struct sockaddr *a, socklen_t *l) { return sim(fd) ? L->take(p, n, fl & MSG_PEEK) : recvfrom(fd, p, n, fl, a, l); }
ssize_t vs_readv(int fd, const struct iovec *v, int c) { if (!sim(fd)) return readv(fd, v, c); for (int i = 0; i < c; i++) if (v[i].iov_len) return L->take(v[i].iov_base, v[i].iov_len); return 0; }
ssize_t vs_recvmsg(int fd, struct msghdr *m, int fl) { return sim(fd) ? vs_readv(fd, m->msg_iov, (int)m->msg_iovlen) : recvmsg(fd, m, fl); }
ssize_t vs_write(int fd, const void *p, size_t n) { return sim(fd) ? L->put(p, n) : write(fd, p, n); }
ssize_t vs_send(int fd, const void *p, size_t n, int fl) { return sim(fd) ? L->put(p, n) : send(fd, p, n, fl); }
ssize_t vs_sendto(int fd, const void *p, size_t n, int fl, const struct sockaddr *a, socklen_t l) { return sim(fd) ? L->put(p, n) : sendto(fd, p, n, fl, a, l); }
ssize_t vs_writev(int fd, const struct iovec *v, int c) { if (!sim(fd)) return writev(fd, v, c); ssize_t s = 0; for (int i = 0; i < c; i++) { ssize_t k = L->put(v[i].iov_base, v[i].iov_len); if (k < 0) return s ? s : k; s += k; if ((size_t)k < v[i].iov_len) break; } return s; }
ssize_t vs_sendmsg(int fd, const struct msghdr *m, int fl) { return sim(fd) ? vs_writev(fd, m->msg_iov, (int)m->msg_iovlen) : sendmsg(fd, m, fl); }
int vs_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) {
    if (!L || SIM >= n || !((r && FD_ISSET(SIM, r)) || (w && FD_ISSET(SIM, w)))) return select(n, r, w, e, t);
    bool rd = r && FD_ISSET(SIM, r), wt = w && FD_ISSET(SIM, w); if (e) FD_ZERO(e); if (r) FD_ZERO(r); if (w) FD_ZERO(w);
    if (wt) { FD_SET(SIM, w); return 1; }
    if (!rd) return 0;
    int k = L->ready(); if (k == 1) FD_SET(SIM, r); return k; }
int vs_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *) { struct timeval tv; if (t) { tv.tv_sec = t->tv_sec; tv.tv_usec = t->tv_nsec / 1000; } return vs_select(n, r, w, e, t ? &tv : NULL); }
int vs_poll(struct pollfd *p, nfds_t n, int t) { for (nfds_t i = 0; i < n; i++) if (sim(p[i].fd)) { if (p[i].events & POLLIN) { int k = L->ready(); p[i].revents = k == 1 ? POLLIN : 0; return k; } p[i].revents = p[i].events; return 1; } return poll(p, n, t); }
int vs_ppoll(struct pollfd *p, nfds_t n, const struct timespec *, const sigset_t *) { return vs_poll(p, n, 0); }
int vs_isatty(int fd) { if (T && T->gone) { errno = EIO; return 0; } if (!sim(fd)) return isatty(fd); if (L->tty) return 1; errno = ENOTTY; return 0; }
int vs_tcsetattr(int fd, int a, const struct termios *t) { if (!T) return tcsetattr(fd, a, t); T->n++; if (T->fail) { errno = T->fail; return -1; } T->t = *t; return 0; }
int vs_tcgetattr(int fd, struct termios *t) { if (T) { *t = T->t; return 0; } if (sim(fd)) { memset(t, 0, sizeof *t); return 0; } return tcgetattr(fd, t); }
int vs_tcflush(int fd, int q) { return sim(fd) || T ? 0 : tcflush(fd, q); }
int vs_tcdrain(int fd) { if (sim(fd)) { L->drained = L->written.size(); return 0; } return T ? 0 : tcdrain(fd); }
int vs_open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a); if (T && T->zero) { close(0); T->zero = false; } return open(p, fl, m); }
int vs_close(int fd) { if (N && N->open.count(fd)) { N->open.erase(fd); if (N->connected == fd) N->connected = -1; return close(fd); } return close(fd); }
int vs_getaddrinfo(const char *h, const char *s, const struct addrinfo *hi, struct addrinfo **r) {
    if (!N) return getaddrinfo(h, s, hi, r);
    N->host = h ? h : ""; N->port = s ? s : ""; if (!N->resolve) return EAI_NONAME;
    N->ai.assign(N->a.size(), addrinfo()); N->sa.assign(N->a.size(), sockaddr_in());
    for (size_t i = 0; i < N->a.size(); i++) { auto &x = N->ai[i]; memset(&x, 0, sizeof x); x.ai_family = AF_INET; x.ai_socktype = hi ? hi->ai_socktype : SOCK_STREAM; x.ai_addr = (struct sockaddr *)&N->sa[i]; x.ai_addrlen = sizeof(sockaddr_in); N->sa[i].sin_family = AF_INET; N->sa[i].sin_port = htons((uint16_t)i); x.ai_next = i + 1 < N->a.size() ? &N->ai[i + 1] : NULL; }
    *r = &N->ai[0]; return 0; }
void vs_freeaddrinfo(struct addrinfo *a) { if (N) N->freed++; else freeaddrinfo(a); }
int vs_socket(int f, int t, int p) { if (!N) return socket(f, t, p); if (N->at < N->a.size() && N->a[N->at].sock_err) { errno = N->a[N->at].sock_err; N->at++; return -1; } if (N->zero && !N->open.count(0)) close(0); int fd = open("/dev/null", O_RDWR); N->open.insert(fd); return fd; }
int vs_connect(int fd, const struct sockaddr *a, socklen_t l) {
    if (!N) return connect(fd, a, l);
    size_t i = ntohs(((const struct sockaddr_in *)a)->sin_port); VF_CHECK(i < N->a.size() && N->open.count(fd), "connecting a wrong descriptor or address"); N->at = i + 1;
    if (N->a[i].conn_err) { errno = N->a[i].conn_err; return -1; }
    N->connected = fd; return 0; }
int vs_setsockopt(int fd, int lv, int o, const void *v, socklen_t l) { if (!N) return sim(fd) ? 0 : setsockopt(fd, lv, o, v, l); if (lv == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO) && fd == N->connected) { int k = o == SO_SNDTIMEO; memcpy(&N->tv[k], v, sizeof(struct timeval)); N->tmo[k] = true; } return 0; }
int vs_shutdown(int fd, int h) { return N || sim(fd) ? 0 : shutdown(fd, h); }
struct hostent *vs_gethostbyname(const char *h) { return gethostbyname(h); }
int vs_usleep(useconds_t) { return 0; }
unsigned vs_sleep(unsigned) { return 0; }
int vs_nanosleep(const struct timespec *, struct timespec *) { return 0; }
}
static void open_sim() { if (SIM < 0) { SIM = open("/dev/null", O_RDWR); VF_CHECK(SIM >= 0, "harness: open"); } }
static std::vector<std::pair<int, Bytes>> rev, sev;
static void on_recv(unsigned char s, const char *b, size_t n) { rev.push_back({s, Bytes((const uint8_t *)b, (const uint8_t *)b + n)}); }
static void on_send(unsigned char s, const char *b, size_t n) { sev.push_back({s, Bytes((const uint8_t *)b, (const uint8_t *)b + n)}); }

static std::string ev_str(const std::deque<Ev> &q) { std::string s; for (auto &e : q) s += e.k == Ev::DATA ? hex(e.b) + " " : e.k == Ev::INTR ? "<interrupt> " : e.k == Ev::SILENCE ? "<silence> " : e.k == Ev::ERR ? fmt("<error %d> ", e.err) : "<closed> "; return s; }
// bytes a reader may take for the undecodable start of b: at least `lo`, at most `hi`
static void bad_span(const Bytes &b, size_t &lo, size_t &hi) {
    for (lo = 1; lo <= b.size() && ref_parse(b.data(), lo).result >= 0; lo++) { }
    hi = lo; if (b.empty()) return;
    if (b[0] == 0x10) hi = std::max<size_t>(hi, 5); else if (b[0] == 0x68) { hi = std::max<size_t>(hi, 6); if (b.size() > 1) hi = std::max<size_t>(hi, (size_t)b[1] + 6); if (b.size() > 2) hi = std::max<size_t>(hi, (size_t)b[2] + 6); }
}
static const char *rc_name(int r) { switch (r) { case 0: return "OK"; case -1: return "ERROR"; case -2: return "INVALID"; case -3: return "TIMEOUT"; case -4: return "RESET"; } return "?"; }
static Bytes gen_garbage(Gen &g) {
    Tel t = gen_tel(g, g.chance(1, 3) ? Tel::SHORT : Tel::LONG); if (t.ud.size() > 40 && g.chance(3, 4)) t.ud.resize(1 + g.below(40));
    Bytes b = tel_bytes(t);
    switch (g.below(5)) {
    case 0: return gen_damaged(g);
    case 1: b[b.size() - 2] ^= (uint8_t)(1 << g.below(8)); break;
    case 2: b[b.size() - 1] ^= (uint8_t)(1 + g.below(255)); break;
    case 3: if (b.size() > 6) b[g.coin() ? 2 : 3] ^= (uint8_t)(1 << g.below(8)); else b[1] ^= 0x80; break;
    default: b = Bytes(1 + g.below(6), 0); for (auto &x : b) { x = g.byte(); } if (b[0] == 0xE5 || b[0] == 0x68 || b[0] == 0x10) b[0] = 0x11; }
    return b;
}
static void split(Gen &g, const Bytes &s, std::deque<Ev> &q, int mode, unsigned gap_den, Ev::K gap, int maxgap) {
    size_t i = 0; int gaps = 0;
    while (i < s.size()) {
        size_t n = mode == 0 ? s.size() - i : mode == 1 ? 1 : mode == 2 ? 1 + g.below(4) : 1 + g.size(0, 300);
        n = std::min(n, s.size() - i); q.push_back({Ev::DATA, Bytes(s.begin() + i, s.begin() + i + n)}); i += n;
        if (i < s.size() && gap_den && gaps < maxgap && g.chance(1, gap_den)) { q.push_back({gap, Bytes()}); gaps++; }
    }
}
// one transmission over the simulated line
static void sending(Gen &g, mbus_handle *h, bool serial) {
    Line l; L = &l; l.serial = serial; h->fd = SIM; sev.clear();
    Tel t = gen_tel(g); Bytes b = tel_bytes(t); mbus_frame f; VF_CHECK(frame_from(&f, t), "valid telegram rejected");
    std::string d; bool good = true; l.tty = !(serial && g.chance(1, 8));
    if (!l.tty) good = false;
    bool unpackable = g.chance(1, 12); if (unpackable) { f.type = g.coin() ? 99 : MBUS_FRAME_TYPE_ANY; good = false; d += "no telegram, "; }
    size_t k = g.weighted({4, 2, 2, 1}); 
    static const int errs[] = {EIO, EPIPE, EAGAIN, ECONNRESET, EBADF, ENOSPC, ETIMEDOUT, EINTR};
    if (k == 1) { l.wr.push_back({(int)g.below(b.size()), 0}); d += fmt("only %d bytes, ", l.wr[0].n); if (g.coin()) { int e = g.pick(errs); l.wr.push_back({-1, e}); d += fmt("then error %d, ", e); } }
    if (k == 2) { int e = g.pick(errs); l.wr.push_back({-1, e}); d += fmt("error %d, ", e); }
    if (k == 3) { l.wr.push_back({0, 0}); d += "nothing written, "; }
    note("send %s: %s%s", hex(b).c_str(), d.c_str(), l.tty ? "" : "no terminal");
    int rc = g.coin() ? mbus_send_frame(h, &f) : serial ? mbus_serial_send_frame(h, &f) : mbus_tcp_send_frame(h, &f);
    if (k == 0 && good) VF_CHECK(rc == 0, "sending fails (%d)", rc);
    if (!good) VF_CHECK(rc != 0, "%s is sent", unpackable ? "a frame that is no telegram" : "a telegram over a line that is no terminal");
    if (rc == 0) {
        VF_CHECK(l.written == b, "sending reports success but the peer gets %s", hex(l.written).c_str());
        if (serial) VF_CHECK(l.drained == b.size(), "sending reports success before the line has transmitted the telegram");
        VF_CHECK(sev.size() == 1 && sev[0].second == b && sev[0].first == (serial ? MBUS_HANDLE_TYPE_SERIAL : MBUS_HANDLE_TYPE_TCP), "the observer of transmissions is called %zu times%s%s", sev.size(), sev.empty() ? "" : " with ", sev.empty() ? "" : hex(sev[0].second).c_str());
    } else { VF_CHECK(sev.empty(), "the observer is told of a failed transmission"); if (!good) VF_CHECK(l.written.empty(), "%s is written", hex(l.written).c_str()); }
    label(k || !good ? "failing transmission" : "transmission");
    nontrivial(hash_bytes(b.data(), b.size(), k)); L = NULL; h->fd = -1;
}
// ------------------------------------------------------------------------------------------ P27
static void tcp_connect(Gen &g) {
    Net n; N = &n; size_t cnt = 1 + g.below(4); bool ok = false; std::string d;
    static const int errs[] = {ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EHOSTUNREACH, EAFNOSUPPORT};
    for (size_t i = 0; i < cnt; i++) { Addr a = {0, 0}; if (g.chance(1, 6)) a.sock_err = EAFNOSUPPORT; else if (g.chance(1, 2)) a.conn_err = g.pick(errs); n.a.push_back(a); d += a.sock_err ? "no socket, " : a.conn_err ? "refused, " : "accepted, "; }
    n.resolve = !g.chance(1, 10); n.zero = g.chance(1, 5); size_t want = 0;   // zero: a program that has closed its standard input
    if (n.resolve) for (want = 0; want < cnt && !ok; want++) if (!n.a[want].sock_err && !n.a[want].conn_err) ok = true;
    double s; switch (g.below(4)) { case 0: s = (double)g.below(1000); break; case 1: s = (double)g.below(4000000) / 1e6; break; case 2: s = (double)g.below(100) + 0.5; break; default: s = -((double)(1 + g.below(1000))) / 100; }
    static double cur = -1; static const int ports[] = {0, 1, 80, 502, 9999, 10001, 32767, 32768, 65535}; int port = g.chance(1, 3) ? g.pick(ports) : (int)g.below(65536); char host[40]; snprintf(host, sizeof host, "host-%d.example", (int)g.below(1000));
    note("connect %s:%d timeout %.6f, %s%s", host, port, s, d.c_str(), n.resolve ? "" : "name unknown");
    int rc = mbus_tcp_set_timeout_set(s); VF_CHECK((rc == 0) == (s >= 0), "setting the time-out to %f gives %d", s, rc);
    if (rc == 0) cur = s; else if (cur < 0) { mbus_tcp_set_timeout_set(1.25); cur = 1.25; }
    else { mbus_tcp_set_timeout_set(cur); mbus_tcp_set_timeout_set(s); }   // a refused time-out changes nothing
    mbus_handle *h = mbus_context_tcp(host, (uint16_t)port); VF_CHECK(h, "no context");
    forget_error();
    rc = g.coin() ? mbus_connect(h) : mbus_tcp_connect(h);
    VF_CHECK(n.host == host && n.port == fmt("%d", port), "the name looked up is %s:%s", n.host.c_str(), n.port.c_str());
    VF_CHECK((rc == 0) == ok, "connecting gives %d (%s)", rc, d.c_str());
    if (n.resolve) VF_CHECK(n.freed == 1, "the list of addresses is released %ld times", n.freed);
    if (ok) {
        VF_CHECK(h->fd >= 0 && h->fd == n.connected && n.at == want, "the descriptor is %d, connected is %d with address %zu, should be %zu", h->fd, n.connected, n.at, want);
        VF_CHECK(n.open.size() == 1, "%zu sockets are left open", n.open.size());
        for (int k = 0; k < 2; k++) { VF_CHECK(n.tmo[k], "no %s time-out is set", k ? "send" : "receive"); double v = (double)n.tv[k].tv_sec + (double)n.tv[k].tv_usec / 1e6; VF_CHECK(n.tv[k].tv_usec >= 0 && n.tv[k].tv_usec < 1000000 && fabs(v - cur) <= 2.1e-6, "%s time-out is %ld.%06ld s, should be %.6f", k ? "send" : "receive", (long)n.tv[k].tv_sec, (long)n.tv[k].tv_usec, cur); }
        if (g.chance(7, 8)) {   // otherwise released while connected
            VF_CHECK(mbus_disconnect(h) == 0 && h->fd < 0 && n.open.empty(), "disconnecting leaves the socket open");
            VF_CHECK(mbus_disconnect(h) != 0, "disconnecting twice succeeds");
        }
        label("connection");
    } else {
        VF_CHECK(h->fd < 0, "the descriptor is %d after a failed connection", h->fd);
        VF_CHECK(n.open.empty(), "%zu sockets are left open by a failed connection", n.open.size());
        VF_CHECK(error_given(), "a failed connection has no error message"); label("failed connection");
    }
    mbus_context_free(h); for (int fd : n.open) close(fd); N = NULL; if (n.zero && fcntl(0, F_GETFD) < 0) (void)!open("/dev/null", O_RDWR);
    nontrivial(fmt("%s %d %f %d ", host, port, s, n.resolve) + d);
}
VF_PROPERTY(P27, 150000, 4000000, "streams of 1-8 telegrams of all kinds and undecodable bytes cut into generated segments with interrupted calls, expiring time-outs, errors and closures at generated places, received by consecutive calls over a simulated socket; the same over a real socket pair; transmissions with partial and failing writes; connections to names with several addresses; results, frames, observer calls and consumed bytes compared with the stream; non-trivial: at least one telegram or fault; distinct by the events") {
    open_sim(); Heap::reset(); rev.clear();
    int mode = (int)g.weighted({10, 2, 2, 1});
    if (mode == 2) { tcp_connect(g); VF_CHECK(Heap::live() == 0, "%ld block(s) not released", Heap::live()); return; }
    mbus_handle *h = mbus_context_tcp("nowhere", 1); VF_CHECK(h, "no context");
    mbus_context_set_option(h, MBUS_OPTION_PURGE_FIRST_FRAME, MBUS_FRAME_PURGE_NONE); mbus_register_send_event(h, on_send); bool obs = !g.chance(1, 8); if (obs) mbus_register_recv_event(h, on_recv);
    if (mode == 1) { sending(g, h, false); mbus_context_free(h); VF_CHECK(Heap::live() == 0, "%ld block(s) not released", Heap::live()); return; }
    size_t n = 1 + g.size(0, 7); int how = (int)g.below(4); Line l; L = &l; h->fd = SIM; int sp[2] = {-1, -1};
    bool real = mode == 3; unsigned intr = !real && g.coin() ? 1 + (unsigned)g.below(5) : 0;
    Bytes pending; bool faults = g.coin(); static const int errs[] = {EIO, EBADF, ENOTCONN, ETIMEDOUT, EFAULT, EINVAL, ECONNRESET, ENETDOWN, ENOMEM};
    std::deque<Ev> &q = l.in; bool invalid = false;
    auto flush = [&] { split(g, pending, q, how, intr, Ev::INTR, 1000); pending.clear(); };
    for (size_t i = 0; i < n && !invalid; i++) {
        Bytes b = g.chance(1, 10) ? (invalid = true, gen_garbage(g)) : tel_bytes(gen_tel(g));
        if (faults && !real && g.chance(1, 4)) { // a fault inside or before the telegram; what follows begins with a whole telegram
            size_t cut = invalid ? 0 : g.below(b.size()); pending.insert(pending.end(), b.begin(), b.begin() + cut); flush(); invalid = false;
            Ev e = {g.chance(2, 3) ? Ev::SILENCE : Ev::ERR, Bytes()}; if (e.k == Ev::ERR) e.err = g.pick(errs); q.push_back(e); continue;
        }
        pending.insert(pending.end(), b.begin(), b.end());
        if (g.chance(1, 3)) flush();
    }
    bool cut_end = g.chance(1, 4) && !invalid; if (cut_end) { Bytes b = tel_bytes(gen_tel(g, Tel::LONG)); pending.insert(pending.end(), b.begin(), b.begin() + 1 + g.below(b.size() - 1)); }
    flush(); bool closed = g.coin(); if (!real && closed) q.push_back({Ev::CLOSED, Bytes()});
    note("stream: %s%s", ev_str(q).c_str(), real ? closed ? "(socket pair, closed)" : "(socket pair)" : "");
    nontrivial(ev_str(q));
    std::deque<Ev> all = q;
    if (real) {
        VF_CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, sp) == 0, "harness: socketpair"); struct timeval tv = {0, 2000}; setsockopt(sp[0], SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
        Bytes w; for (auto &e : q) w.insert(w.end(), e.b.begin(), e.b.end());
        for (size_t i = 0; i < w.size(); i += 400) { size_t k = std::min<size_t>(400, w.size() - i); VF_CHECK(write(sp[1], &w[i], k) == (ssize_t)k, "harness: write"); }   // few, since every piece takes kernel buffer
        if (closed) { close(sp[1]); sp[1] = -1; all.push_back({Ev::CLOSED, Bytes()}); }
        h->fd = sp[0]; label("socket pair");
    } else label(how == 0 ? "whole segments" : how == 1 ? "single bytes" : "generated segments");
    // reference position in the events
    size_t ei = 0, off = 0; mbus_frame f; memset(&f, 0xA5, sizeof f); f.next = NULL;
    for (size_t call = 0; call < n + 4; call++) {
        // what this call has to do
        Bytes b; int want = 99; size_t i = ei, o = off; int err = 0; bool bad = false; size_t hi = 0;
        for (;;) {
            if (i >= all.size()) { want = MBUS_RECV_RESULT_TIMEOUT; break; }
            const Ev &e = all[i];
            if (e.k == Ev::INTR) { i++; continue; }
            if (e.k == Ev::SILENCE) { want = MBUS_RECV_RESULT_TIMEOUT; i++; break; }
            if (e.k == Ev::ERR) { want = MBUS_RECV_RESULT_ERROR; err = e.err; i++; break; }
            if (e.k == Ev::CLOSED) { want = MBUS_RECV_RESULT_RESET; break; }
            if (o >= e.b.size()) { i++; o = 0; continue; }
            b.push_back(e.b[o++]);
            if (!bad) { int r = ref_parse(b.data(), b.size()).result; if (r == 0) { want = 0; break; } if (r < 0) { bad = true; size_t lo; bad_span(b, lo, hi); } }
            else { size_t lo; bad_span(b, lo, hi); }
            if (bad && b.size() >= hi) break;
        }
        size_t e0 = rev.size(), c0 = l.consumed.size(); forget_error();
        if (g.chance(1, 4)) memset(&f, (int)g.below(256), sizeof f), f.next = NULL;
        errno = call & 1 ? EAGAIN : EINTR;   // left over from elsewhere
        int rc = g.coin() ? mbus_recv_frame(h, &f) : mbus_tcp_recv_frame(h, &f);
        std::string w = fmt("call %zu", call + 1); const char *wc = w.c_str(); std::string why;
        Bytes got(l.consumed.begin() + (real ? 0 : c0), l.consumed.end());
        label(rc_name(rc));
        if (bad) {
            bool is_inv = rc == MBUS_RECV_RESULT_INVALID || (want != 99 && rc == want);
            VF_CHECK(is_inv, "%s: undecodable bytes %s give %s", wc, hex(b).c_str(), rc_name(rc));
            if (!real && rc == MBUS_RECV_RESULT_INVALID) {
                VF_CHECK(!got.empty() && got.size() <= b.size() && std::equal(got.begin(), got.end(), b.begin()) && ref_parse(got.data(), got.size()).result < 0, "%s: %s taken from the stream is called invalid", wc, hex(got).c_str());
                if (obs) VF_CHECK(rev.size() == e0 + 1 && rev[e0].second == got, "%s: the observer sees %s of the invalid bytes %s", wc, rev.size() > e0 ? hex(rev[e0].second).c_str() : "nothing", hex(got).c_str());
            }
            if (rc == MBUS_RECV_RESULT_INVALID) VF_CHECK(error_given(), "%s: no error message", wc);
            break;                                    // where the next telegram begins is not defined
        }
        if (want == 0) {
            VF_CHECK(rc == 0, "%s: the telegram %s gives %s", wc, hex(b).c_str(), rc_name(rc));
            VF_CHECK(frame_is(&f, b, why), "%s: the telegram %s is delivered with %s", wc, hex(b).c_str(), why.c_str());
            if (!real) VF_CHECK(got == b, "%s: %s is taken from the stream for the telegram %s", wc, hex(got).c_str(), hex(b).c_str());
            VF_CHECK(rev.size() == e0 + (obs ? 1 : 0), "%s: the observer is called %zu times", wc, rev.size() - e0);
            if (obs) VF_CHECK(rev[e0].second == b && rev[e0].first == MBUS_HANDLE_TYPE_TCP, "%s: the observer sees %s instead of %s", wc, hex(rev[e0].second).c_str(), hex(b).c_str());
        } else {
            bool okc = rc == want || (err == ECONNRESET && rc == MBUS_RECV_RESULT_RESET) || (err == ETIMEDOUT && rc == MBUS_RECV_RESULT_TIMEOUT);
            VF_CHECK(okc, "%s: %s%s gives %s, should be %s", wc, hex(b).c_str(), want == MBUS_RECV_RESULT_TIMEOUT ? " then silence" : want == MBUS_RECV_RESULT_RESET ? " then the end of the connection" : " then a fault", rc_name(rc), rc_name(want));
            VF_CHECK(error_given(), "%s: %s without an error message", wc, rc_name(rc));
            for (size_t k = e0; k < rev.size(); k++) VF_CHECK(rev[k].second == b, "%s: the observer sees %s", wc, hex(rev[k].second).c_str());
            if (want == MBUS_RECV_RESULT_RESET || i >= all.size()) break;
        }
        ei = i; off = o;
    }
    if (l.eintr) label("interrupted calls");
    L = NULL; h->fd = -1; mbus_context_free(h); for (int s : sp) if (s >= 0) close(s);
    VF_CHECK(Heap::live() == 0, "%ld block(s) not released", Heap::live());
}
// ------------------------------------------------------------------------------------------ P28
static const long RATES[] = {300, 600, 1200, 2400, 4800, 9600, 19200, 38400};
static const speed_t SPEEDS[] = {B300, B600, B1200, B2400, B4800, B9600, B19200, B38400};
static void check_line(const struct termios &t, int k, const char *w) {
    VF_CHECK(cfgetispeed(&t) == SPEEDS[k] && cfgetospeed(&t) == SPEEDS[k], "%s: the line is set to another speed than %ld baud", w, RATES[k]);
    VF_CHECK((t.c_cflag & CSIZE) == CS8 && (t.c_cflag & PARENB) && !(t.c_cflag & PARODD) && !(t.c_cflag & CSTOPB) && (t.c_cflag & CREAD) && !(t.c_cflag & CRTSCTS), "%s: the line is not set to 8 data bits, even parity and one stop bit (c_cflag %x)", w, (unsigned)t.c_cflag);
    VF_CHECK(!(t.c_lflag & (ICANON | ECHO | ISIG)) && !(t.c_iflag & (IXON | IXOFF | ICRNL | INLCR | IGNCR | ISTRIP)) && !(t.c_oflag & OPOST), "%s: the line is not transparent", w);
    VF_CHECK(t.c_cc[VMIN] == 0, "%s: reading never times out (VMIN %d)", w, t.c_cc[VMIN]);
    double need = 341.0 / (double)RATES[k] + 0.05, have = t.c_cc[VTIME] / 10.0;
    VF_CHECK(have >= need && have <= 10 * need + 1, "%s: the read time-out is %.1f s, a slave may take %.3f s", w, have, need);
}
// reception over a real pseudo terminal
static void pty_receive(Gen &g, mbus_handle *h) {
    static int m = -2, s = -2;
    if (m == -2) { struct termios t; memset(&t, 0, sizeof t); cfmakeraw(&t); t.c_cflag |= CS8 | CREAD | CLOCAL; t.c_cc[VMIN] = 0; t.c_cc[VTIME] = 0; if (openpty(&m, &s, NULL, &t, NULL)) m = -1; }
    if (m < 0) { label("no pseudo terminal"); discard(); return; }
    Bytes b = tel_bytes(gen_tel(g)), x; bool cut = b.size() > 1 && g.chance(1, 4); if (cut) b.resize(1 + g.below(b.size() - 1));
    note("pseudo terminal: %s", hex(b).c_str());
    VF_CHECK(write(m, b.data(), b.size()) == (ssize_t)b.size(), "harness: write");
    int n = 0; for (int i = 0; i < 20000 && n < (int)b.size(); i++) { ioctl(s, FIONREAD, &n); if (n < (int)b.size()) usleep(50); }
    if (n < (int)b.size()) { tcflush(s, TCIFLUSH); discard(); return; }
    h->fd = s; mbus_frame f; memset(&f, 0, sizeof f); std::string why;
    int rc = mbus_serial_recv_frame(h, &f); h->fd = -1; tcflush(s, TCIFLUSH);
    if (cut) VF_CHECK(rc == MBUS_RECV_RESULT_INVALID, "an incomplete telegram gives %s", rc_name(rc));
    else { VF_CHECK(rc == 0, "the telegram gives %s", rc_name(rc)); VF_CHECK(frame_is(&f, b, why), "the telegram is delivered with %s", why.c_str()); }
    label("pseudo terminal"); nontrivial(hash_bytes(b.data(), b.size(), 77));
}
// the library's own connection to a pseudo terminal: pieces that arrive later than the call, and no controlling terminal
static void pty_connected(Gen &g) {
    static int m = -2, s = -2; static char name[100];
    if (m == -2) { if (openpty(&m, &s, NULL, NULL, NULL) || ttyname_r(s, name, sizeof name)) m = -1; }
    if (m < 0) { label("no pseudo terminal"); discard(); return; }
    if (g.chance(1, 3)) {
        fflush(NULL); pid_t p = fork(); VF_CHECK(p >= 0, "harness: fork");
        if (p == 0) { close(m); close(s); if (setsid() < 0) _exit(9); mbus_handle *h = mbus_context_serial(name); if (!h || mbus_connect(h)) _exit(9); int t = open("/dev/tty", O_RDWR | O_NOCTTY); _exit(t >= 0 ? 1 : 0); }
        int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (!WIFEXITED(st) || WEXITSTATUS(st) > 1) { discard(); return; }
        note("connecting from a session without terminal"); VF_CHECK(WEXITSTATUS(st) == 0, "the line becomes the controlling terminal of the program"); label("controlling terminal"); nontrivial(1); return;
    }
    Bytes b = tel_bytes(gen_tel(g)); size_t cut = g.below(b.size()); unsigned wait = (unsigned)g.range(5, 60);
    note("%s, of which %zu bytes come %u ms later", hex(b).c_str(), b.size() - cut, wait);
    mbus_handle *h = mbus_context_serial(name); VF_CHECK(h && mbus_connect(h) == 0, "the pseudo terminal cannot be opened");
    tcflush(s, TCIOFLUSH);
    if (cut) VF_CHECK(write(m, b.data(), cut) == (ssize_t)cut, "harness: write");
    fflush(NULL); pid_t p = fork(); VF_CHECK(p >= 0, "harness: fork");
    if (p == 0) { usleep(wait * 1000); _exit(write(m, b.data() + cut, b.size() - cut) == (ssize_t)(b.size() - cut) ? 0 : 1); }
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    mbus_frame f; memset(&f, 0, sizeof f); std::string why; int rc = mbus_serial_recv_frame(h, &f);
    clock_gettime(CLOCK_MONOTONIC, &t1); double dt = (double)(t1.tv_sec - t0.tv_sec) + (double)(t1.tv_nsec - t0.tv_nsec) * 1e-9;
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    mbus_disconnect(h); mbus_context_free(h); tcflush(s, TCIOFLUSH);
    if (dt > 0.15) { label("slow machine"); discard(); return; } // the sender may have been held up
    VF_CHECK(rc == 0, "the telegram %s, of which %zu bytes come %u ms later, gives %s", hex(b).c_str(), b.size() - cut, wait, rc_name(rc));
    VF_CHECK(frame_is(&f, b, why), "the telegram is delivered with %s", why.c_str());
    label("connected pseudo terminal"); nontrivial(hash_bytes(b.data(), b.size(), 78));
}
static void serial_setup(Gen &g) {
    static int m = -2, s = -2; static char name[100];
    if (m == -2) { if (openpty(&m, &s, NULL, NULL, NULL) || ttyname_r(s, name, sizeof name)) m = -1; }
    if (m == -1) { label("no pseudo terminal"); discard(); return; }
    Tio t; T = &t; t.zero = g.chance(1, 5); bool exists = !g.chance(1, 8); mbus_handle *h = mbus_context_serial(exists ? name : "/nonexistent/tty"); VF_CHECK(h, "no context");
    std::string d = exists ? "connect" : "connect nowhere"; note("%s", d.c_str());
    int rc = g.coin() ? mbus_connect(h) : mbus_serial_connect(h); VF_CHECK((rc == 0) == exists, "connecting gives %d", rc);
    if (rc) { VF_CHECK(h->fd < 0, "the descriptor is %d after a failed connection", h->fd); label("failed connection"); }
    else {
        VF_CHECK(h->fd >= 0 && t.n > 0, "the line is not set up"); check_line(t.t, 3, "after connecting");
        size_t n = g.size(0, 5); int cur = 3; bool set = false;
        for (size_t i = 0; i < n; i++) {
            static const long bad[] = {0, 1, -1, 299, 301, 601, 1201, 1800, 2401, 14400, 57600, 115200, -300, -2400, 0x7fffffffffffffffL, 0x100000000L + 2400, 13, 7, 4096};
            int k = (int)g.below(8); bool ok = g.chance(2, 3); long r = ok ? RATES[k] : g.pick(bad); t.fail = ok && g.chance(1, 8) ? EIO : 0; struct termios was = t.t; long calls = t.n;
            d += fmt(", %ld%s", r, t.fail ? " failing" : ""); note("baud rate %ld%s", r, t.fail ? " (device fails)" : "");
            rc = mbus_serial_set_baudrate(h, r); VF_CHECK((rc == 0) == (ok && !t.fail), "setting %ld baud gives %d", r, rc);
            if (rc == 0) { cur = k; set = true; check_line(t.t, k, fmt("after setting %ld baud", r).c_str()); label("baud rate"); }
            else { VF_CHECK(!memcmp(&was, &t.t, sizeof was), "a refused baud rate changes the line"); if (!ok) VF_CHECK(t.n == calls, "a baud rate that is not supported reaches the device"); label("baud rate refused"); }
            t.fail = 0;
        }
        VF_CHECK(mbus_serial_set_baudrate(NULL, 2400) != 0, "a null context is accepted");
        if (set && n > 1) { // the line of a context set to this rate at once is set up alike
            struct termios a = t.t; mbus_handle *h2 = mbus_context_serial(name); VF_CHECK(h2 && mbus_connect(h2) == 0 && mbus_serial_set_baudrate(h2, RATES[cur]) == 0, "a second context cannot be set to %ld baud", RATES[cur]);
            VF_CHECK(a.c_cc[VTIME] == t.t.c_cc[VTIME] && a.c_cc[VMIN] == t.t.c_cc[VMIN] && a.c_cflag == t.t.c_cflag && a.c_iflag == t.t.c_iflag && a.c_oflag == t.t.c_oflag && a.c_lflag == t.t.c_lflag, "after the sequence the read time-out at %ld baud is %d (c_cflag %x); a context set to that rate at once has %d (%x)", RATES[cur], a.c_cc[VTIME], (unsigned)a.c_cflag, t.t.c_cc[VTIME], (unsigned)t.t.c_cflag);
            VF_CHECK(mbus_disconnect(h2) == 0, "disconnecting fails"); mbus_context_free(h2); label("line compared with a fresh context");
        }
        if (g.chance(1, 3)) { t.gone = true; t.fail = EIO; d += ", hang-up"; note("the line hangs up"); label("hang-up"); }
        int fd = h->fd; VF_CHECK(mbus_disconnect(h) == 0 && h->fd < 0, "disconnecting fails"); VF_CHECK(fcntl(fd, F_GETFD) < 0, "disconnecting leaves the device open");
        VF_CHECK(mbus_disconnect(h) != 0, "disconnecting twice succeeds");
    }
    mbus_context_free(h); T = NULL; if (fcntl(0, F_GETFD) < 0) (void)!open("/dev/null", O_RDWR); nontrivial(d); label("line setup");
}
VF_PROPERTY(P28, 300000, 10000000, "telegrams of all kinds and undecodable bytes on a simulated serial line, grouped in generated pieces with pauses (expired read time-outs), endless silence and device errors at generated places, received by consecutive calls; the same over a pseudo terminal; transmissions with partial and failing writes; line setup with every baud rate and others; results, frames, observer calls and bytes read compared with the line; non-trivial: at least one telegram or fault; distinct by the events") {
    open_sim(); Heap::reset(); rev.clear();
    int mode = (int)g.weighted({60, 12, 6, 1});
    if (mode == 2) { serial_setup(g); VF_CHECK(Heap::live() == 0, "%ld block(s) not released", Heap::live()); return; }
    mbus_handle *h = mbus_context_serial("/dev/none"); VF_CHECK(h, "no context");
    mbus_context_set_option(h, MBUS_OPTION_PURGE_FIRST_FRAME, MBUS_FRAME_PURGE_NONE); mbus_register_send_event(h, on_send); bool obs = !g.chance(1, 8); if (obs) mbus_register_recv_event(h, on_recv);
    if (mode == 3 && g.chance(1, 6)) { mbus_context_free(h); pty_connected(g); VF_CHECK(Heap::live() == 0, "%ld block(s) not released", Heap::live()); return; }
    if (mode == 3) { pty_receive(g, h); mbus_context_free(h); VF_CHECK(Heap::live() == 0, "%ld block(s) not released", Heap::live()); return; }
    if (mode == 1) { sending(g, h, true); mbus_context_free(h); VF_CHECK(Heap::live() == 0, "%ld block(s) not released", Heap::live()); return; }
    Line l; L = &l; l.serial = true; h->fd = SIM; int how = (int)g.below(4);
    size_t n = 1 + g.size(0, 4); mbus_frame f; memset(&f, 0xA5, sizeof f); f.next = NULL; std::string all;
    enum { WHOLE, SILENT, STOPS, BAD, ERROR_, NOTTY };
    for (size_t call = 0; call < n; call++) {
        // the line during this call
        int kind = (int)g.weighted({8, 1, 2, 2, 2, 1}); Bytes b = kind == BAD ? gen_garbage(g) : tel_bytes(gen_tel(g)); std::deque<Ev> q; int pauses = 0, err = 0;
        l.in.clear(); l.end_err = 0; l.tty = kind != NOTTY; l.calls = 0;
        bool more = kind == WHOLE && g.chance(1, 4);        // the next telegram is already waiting
        unsigned gap = g.coin() ? 2 + (unsigned)g.below(20) : 0;
        switch (kind) {
        case WHOLE: split(g, b, q, how, gap, Ev::SILENCE, 2); break;
        case SILENT: break;
        case STOPS: if (b.size() < 2) b = tel_bytes(gen_tel(g, Tel::SHORT)); b.resize(1 + g.below(b.size() - 1)); split(g, b, q, how, gap, Ev::SILENCE, 2); break;
        case BAD: split(g, b, q, how, 0, Ev::SILENCE, 0); break;
        case ERROR_: { if (b.size() > 1) b.resize(g.below(b.size())); else b.clear(); split(g, b, q, how, gap, Ev::SILENCE, 2); static const int errs[] = {EIO, EBADF, ENXIO, EIO, EAGAIN, EINTR}; err = g.pick(errs); Ev e = {Ev::ERR, Bytes()}; e.err = err; q.push_back(e); l.end_err = err == EINTR ? 0 : err; break; }
        default: split(g, b, q, how, 0, Ev::SILENCE, 0); }
        for (auto &e : q) if (e.k == Ev::SILENCE) pauses++;
        l.in = q; if (more) l.in.push_back({Ev::DATA, tel_bytes(gen_tel(g))});
        std::string d = fmt("call %zu: ", call + 1) + ev_str(l.in) + (kind == NOTTY ? "(no terminal)" : l.end_err ? fmt("(error %d)", err) : "(silence)"); all += d; note("%s", d.c_str());
        size_t e0 = rev.size(), c0 = l.consumed.size(); if (g.chance(1, 4)) { memset(&f, (int)g.below(256), sizeof f); f.next = NULL; }
        errno = call & 1 ? EAGAIN : EINTR;   // left over from elsewhere
        int rc = g.coin() ? mbus_recv_frame(h, &f) : mbus_serial_recv_frame(h, &f);
        std::string w = fmt("call %zu", call + 1), why; const char *wc = w.c_str(); Bytes got(l.consumed.begin() + c0, l.consumed.end());
        label(rc_name(rc)); if (pauses) label("pauses");
        auto seen = [&](const Bytes &x) { if (obs) VF_CHECK(rev.size() == e0 + 1 && rev[e0].second == x && rev[e0].first == MBUS_HANDLE_TYPE_SERIAL, "%s: the observer sees %s instead of %s", wc, rev.size() > e0 ? hex(rev[e0].second).c_str() : "nothing", hex(x).c_str()); else VF_CHECK(rev.size() == e0, "an observer is called"); };
        auto unseen = [&] { for (size_t k = e0; k < rev.size(); k++) VF_CHECK(rev[k].second == got && !got.empty(), "%s: the observer sees %s", wc, hex(rev[k].second).c_str()); };
        switch (kind) {
        case WHOLE:
            VF_CHECK(rc == 0, "%s: the telegram %s gives %s", wc, hex(b).c_str(), rc_name(rc));
            VF_CHECK(frame_is(&f, b, why), "%s: the telegram %s is delivered with %s", wc, hex(b).c_str(), why.c_str());
            VF_CHECK(got == b, "%s: %s is read for the telegram %s", wc, hex(got).c_str(), hex(b).c_str()); seen(b); break;
        case SILENT: VF_CHECK(rc == MBUS_RECV_RESULT_TIMEOUT, "%s: silence gives %s", wc, rc_name(rc)); VF_CHECK(rev.size() == e0, "%s: the observer is called for silence", wc); break;
        case STOPS: VF_CHECK(rc == MBUS_RECV_RESULT_INVALID, "%s: a line that stops after %s gives %s", wc, hex(b).c_str(), rc_name(rc)); seen(got); VF_CHECK(got == b, "%s: %s is read of %s", wc, hex(got).c_str(), hex(b).c_str()); break;
        case BAD: { VF_CHECK(rc == MBUS_RECV_RESULT_INVALID, "%s: undecodable bytes %s give %s", wc, hex(b).c_str(), rc_name(rc)); seen(got); break; }
        case ERROR_:
            VF_CHECK(err == EINTR || err == EAGAIN ? rc != 0 : rc == MBUS_RECV_RESULT_ERROR, "%s: a device error after %s gives %s", wc, hex(b).c_str(), rc_name(rc)); unseen(); break;
        default: VF_CHECK(rc == MBUS_RECV_RESULT_ERROR, "%s: a line that is no terminal gives %s", wc, rc_name(rc)); VF_CHECK(got.empty() && rev.size() == e0, "%s: a line that is no terminal is read", wc);
        }
        label(kind == WHOLE ? "telegram" : kind == SILENT ? "silence" : kind == STOPS ? "stops inside" : kind == BAD ? "undecodable" : kind == ERROR_ ? "device error" : "no terminal");
    }
    nontrivial(all);
    L = NULL; h->fd = -1; mbus_context_free(h);
    VF_CHECK(Heap::live() == 0, "%ld block(s) not released", Heap::live());
}
