// A simulated bus behind an mbus_handle: the transport functions of the handle are replaced.
#pragma once
#include "lib.h"
#include <deque>
#include <functional>

struct Item { int code; Bytes b; };          // result of one receive call; b: bytes of the telegram (or the damaged ones)
struct Bus {
    std::deque<Item> rx;
    std::vector<Bytes> tx;
    long sends = 0, fail_at = -1;            // the fail_at-th send (1 = first) fails, and all later ones
    long recvs = 0, limit = 200000;
    std::function<void(const Bytes &)> on_tx;
};
static Bus *B;
inline int bus_send(mbus_handle *, mbus_frame *f) {
    B->sends++;
    VF_CHECK(B->sends < B->limit, "the call does not come to an end: %ld telegrams sent", B->sends);
    if (B->fail_at > 0 && B->sends >= B->fail_at) return -1;
    uint8_t buf[2048];
    int n = mbus_frame_pack(f, buf, sizeof buf);
    if (n < 0) return -1;
    Bytes b(buf, buf + n);
    B->tx.push_back(b);
    if (B->on_tx) B->on_tx(b);
    return 0;
}
inline int bus_recv(mbus_handle *, mbus_frame *f) {
    B->recvs++;
    VF_CHECK(B->recvs < B->limit, "the call does not come to an end: %ld receptions", B->recvs);
    if (B->rx.empty()) return MBUS_RECV_RESULT_TIMEOUT;
    Item it = B->rx.front(); B->rx.pop_front();
    if (!it.b.empty()) { // as the transports do: the frame is filled while the bytes arrive
        Exact e(it.b); int r = mbus_parse(f, e.p, e.n);
        if (it.code == MBUS_RECV_RESULT_OK) VF_CHECK(r == 0, "valid telegram %s rejected", hex(it.b).c_str());
    }
    return it.code;
}
inline mbus_handle *bus_handle(bool serial = false) {
    mbus_handle *h = serial ? mbus_context_serial("/dev/none") : mbus_context_tcp("nowhere", 1);
    VF_CHECK(h, "no context");
    h->send = bus_send; h->recv = bus_recv;
    return h;
}
inline bool frame_is(const mbus_frame *f, const Bytes &b, std::string &why) {
    RefParse r = ref_parse(b.data(), b.size());
    static const int ty[] = {MBUS_FRAME_TYPE_ACK, MBUS_FRAME_TYPE_SHORT, MBUS_FRAME_TYPE_CONTROL, MBUS_FRAME_TYPE_LONG};
    if (r.result != 0) { why = "not a telegram"; return false; }
    if (f->type != ty[r.t.kind]) { why = fmt("type %d", f->type); return false; }
    if (r.t.kind == Tel::ACK) return true;
    if (f->control != r.t.c || f->address != r.t.a) { why = fmt("C %02X A %02X", f->control, f->address); return false; }
    if (r.t.kind == Tel::SHORT) return true;
    if (f->control_information != r.t.ci || f->data_size != r.t.ud.size() || memcmp(f->data, r.t.ud.data(), r.t.ud.size())) { why = fmt("CI %02X data %s", f->control_information, hex(f->data, f->data_size).c_str()); return false; }
    return true;
}
inline bool is_m2s(const Bytes &b) { return b.size() > 1 && (b[0] == 0x10 ? b[1] : b[4]) & 0x40; }   // sent by a master
inline Bytes short_bytes(uint8_t c, uint8_t a) { Tel t; t.kind = Tel::SHORT; t.c = c; t.a = a; return tel_bytes(t); }
inline Bytes long_bytes(uint8_t c, uint8_t a, uint8_t ci, const Bytes &ud = Bytes()) { Tel t; t.kind = ud.empty() ? Tel::CONTROL : Tel::LONG; t.c = c; t.a = a; t.ci = ci; t.ud = ud; return tel_bytes(t); }
static const Bytes ACKB = {0xE5};
// a mask or address string of 16 hex digits -> the eight bytes of the selection telegram
inline Bytes select_bytes(const std::string &m) {
    auto d = [&](int i) { char c = m[i]; return (uint8_t)(c >= '0' && c <= '9' ? c - '0' : (c | 32) - 'a' + 10); };
    Bytes b(8);
    for (int i = 0; i < 4; i++) b[3 - i] = (uint8_t)(d(2 * i) << 4 | d(2 * i + 1));
    for (int i = 4; i < 8; i++) b[i] = (uint8_t)(d(2 * i) << 4 | d(2 * i + 1));
    return b;
}
inline Bytes select_tel(const std::string &m) { return long_bytes(0x73, 0xFD, 0x52, select_bytes(m)); }
inline Bytes gen_damaged(Gen &g) {
    switch (g.below(4)) {
    case 0: return Bytes{0x00};
    case 1: { Bytes b = g.bytes(g.size(1, 20)); if (!b.empty()) b[0] = (uint8_t)(b[0] & 7); return b; }
    case 2: { Tel t = gen_tel(g, Tel::LONG); if (t.ud.size() > 30) t.ud.resize(30); Bytes b = tel_bytes(t); b[b.size() - 2] ^= 0x55; return b; }
    default: { Bytes b = short_bytes(0x40, g.byte()); b[3]++; return b; }
    }
}
// frees the chain behind a reply
inline void free_chain(mbus_frame *f) { if (f->next) { mbus_frame_free((mbus_frame *)f->next); f->next = NULL; } }
