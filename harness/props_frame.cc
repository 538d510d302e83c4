// P01 P02 P03: telegrams of the link layer
#include "lib.h"

static void mutate(Gen &g, Bytes &b) {
    size_t n = g.size(1, 3);
    while (n--) {
        switch (g.below(7)) {
        case 0: if (!b.empty()) b[g.below(b.size())] ^= (uint8_t)(1u << g.below(8)); break;
        case 1: if (!b.empty()) b[g.below(b.size())] = g.ibyte(); break;
        case 2: if (!b.empty()) b.resize(g.below(b.size())); break;
        case 3: { size_t k = g.chance(1, 20) ? g.size(100, 800) : g.size(1, 8); while (k--) b.push_back(g.ibyte()); break; }
        case 4: if (b.size() > 2) { b[1 + g.below(2)] = g.byte(); } break;
        case 5: if (b.size() > 2) { uint8_t l = (uint8_t)(b[1] + (g.coin() ? 1 : -1) * (int)g.size(1, 4)); b[1] = b[2] = l; } break;
        default: if (!b.empty()) b.erase(b.begin() + g.below(b.size())); break;
        }
    }
}
static void fix_sum(Bytes &b) { // make the checksum right for whatever stands there
    if (b.size() < 9 || b[0] != 0x68) { if (b.size() == 5 && b[0] == 0x10) b[3] = (uint8_t)(b[1] + b[2]); return; }
    unsigned s = 0; for (size_t i = 4; i + 2 < b.size(); i++) s += b[i];
    b[b.size() - 2] = (uint8_t)s;
}
static void expect_same(const Bytes &b, bool dirty, Gen &g) {
    RefParse r = ref_parse(b.data(), b.size());
    mbus_frame f;
    memset(&f, 0, sizeof f);
    if (dirty) { memset(&f, 0xA5, sizeof f); }
    Bytes copy = b;
    Exact e(b);
    int res = mbus_parse(&f, e.p, e.n);
    VF_CHECK(memcmp(e.p, copy.data(), copy.size()) == 0, "parsing modified its input %s", hex(copy).c_str());
    if (r.result == 0) {
        VF_CHECK(res == 0, "valid telegram rejected with %d: %s", res, hex(b).c_str());
        int want = r.t.kind == Tel::ACK ? MBUS_FRAME_TYPE_ACK : r.t.kind == Tel::SHORT ? MBUS_FRAME_TYPE_SHORT : r.t.kind == Tel::CONTROL ? MBUS_FRAME_TYPE_CONTROL : MBUS_FRAME_TYPE_LONG;
        VF_CHECK(f.type == want && mbus_frame_type(&f) == want, "type %d, expected %d: %s", f.type, want, hex(b).c_str());
        VF_CHECK(f.start1 == b[0], "start byte field %02X: %s", f.start1, hex(b).c_str());
        VF_CHECK(f.next == NULL, "parsed frame is linked to another one");
        if (want != MBUS_FRAME_TYPE_ACK) {
            VF_CHECK(f.control == r.t.c && f.address == r.t.a, "C %02X A %02X: %s", f.control, f.address, hex(b).c_str());
            VF_CHECK(f.checksum == r.sum && f.stop == 0x16, "checksum %02X stop %02X: %s", f.checksum, f.stop, hex(b).c_str());
            VF_CHECK(mbus_frame_direction(&f) == (r.t.c & 0x40), "direction %d: %s", mbus_frame_direction(&f), hex(b).c_str());
        }
        else VF_CHECK(mbus_frame_direction(&f) == MBUS_CONTROL_MASK_DIR_S2M, "direction of ACK");
        if (want == MBUS_FRAME_TYPE_CONTROL || want == MBUS_FRAME_TYPE_LONG) {
            VF_CHECK(f.control_information == r.t.ci, "CI %02X: %s", f.control_information, hex(b).c_str());
            VF_CHECK(f.length1 == b[1] && f.length2 == b[2] && f.start2 == 0x68, "length/start fields: %s", hex(b).c_str());
            VF_CHECK(f.data_size == r.t.ud.size() && memcmp(f.data, r.t.ud.data(), r.t.ud.size()) == 0, "user data differ (%zu bytes): %s", f.data_size, hex(b).c_str());
        }
        VF_CHECK(mbus_frame_verify(&f) == 0, "parsed telegram does not verify: %s", hex(b).c_str());
        label(fmt("accepted kind %d", (int)r.t.kind));
    } else if (r.result > 0) {
        VF_CHECK(res > 0, "incomplete telegram gives %d instead of a positive count: %s", res, hex(b).c_str());
        label("incomplete");
    } else {
        VF_CHECK(res < 0, "malformed buffer gives %d: %s", res, hex(b).c_str());
        label("malformed");
    }
    (void)g;
}

VF_PROPERTY(P01, 400000, 20000000, "byte buffers: valid telegrams (all kinds), 1-3 mutations (with and without recomputed checksum), every single-byte change of one telegram position, random bytes; non-trivial: buffer begins with a start character and has at least 5 bytes") {
    int mode = (int)g.weighted({4, 5, 4, 2, 2});
    Bytes b;
    if (mode == 3) { b = g.bytes(g.chance(1, 12) ? g.size(250, 1200) : g.size(0, 264)); if (!b.empty() && g.chance(3, 4)) { static const uint8_t st[] = {0x68, 0x10, 0xE5}; b[0] = g.pick(st); if (b.size() > 2 && g.coin()) { b[1] = b[2] = (uint8_t)(b.size() > 6 ? b.size() - 6 : 3); } if (b.size() > 3 && g.coin()) b[3] = 0x68; if (g.coin()) b[b.size() - 1] = 0x16; if (b.size() > 4 && g.coin()) b[4] = g.pick(LONG_C); if (g.coin()) fix_sum(b); } }
    else {
        b = tel_bytes(gen_tel(g));
        if (mode == 1 || mode == 2) { mutate(g, b); if (mode == 2) fix_sum(b); }
    }
    note("buffer (%zu bytes): %s", b.size(), hex(b).c_str());
    if (b.size() >= 5 && (b[0] == 0x68 || b[0] == 0x10)) nontrivial(hash_bytes(b.data(), b.size()));
    if (b.empty()) { mbus_frame f; uint8_t c = 0; VF_CHECK(mbus_parse(&f, &c, 0) < 0, "empty buffer accepted"); return; }
    expect_same(b, g.coin(), g);
    if (mode == 4 && b.size() >= 5) { // one position, all 255 other values
        size_t pos = g.below(b.size());
        note("position %zu changed to every other value", pos);
        Bytes c = b; size_t acc = 0;
        for (int x = 1; x < 256; x++) {
            c[pos] = b[pos] ^ (uint8_t)x;
            mbus_frame f; memset(&f, 0, sizeof f);
            int res = lib_parse(&f, c);
            bool ack = c[0] == 0xE5;
            if (res == 0 && !ack) acc++;
            VF_CHECK(!(res == 0 && !ack), "single byte change at %zu to %02X goes unnoticed: %s", pos, c[pos], hex(b).c_str());
        }
        label("single-byte sweep");
    }
}

VF_PROPERTY(P02, 400000, 25000000, "valid telegrams delivered in pieces: every prefix is checked, then a reader asks for exactly the reported number of bytes (or fewer arrive) until complete; headers with a wrong start or impossible lengths; non-trivial: telegram of at least 9 bytes") {
    Tel t = gen_tel(g);
    Bytes b = tel_bytes(t);
    note("telegram: %s", hex(b).c_str());
    if (b.size() >= 9) nontrivial(hash_bytes(b.data(), b.size()));
    mbus_frame f;
    // every prefix
    for (size_t n = 1; n < b.size(); n++) {
        Bytes p(b.begin(), b.begin() + n);
        memset(&f, 0, sizeof f);
        int r = lib_parse(&f, p);
        VF_CHECK(r > 0, "prefix of %zu bytes gives %d: %s", n, r, hex(b).c_str());
        VF_CHECK((size_t)r <= b.size() - n, "after %zu of %zu bytes %d more are requested: %s", n, b.size(), r, hex(b).c_str());
        if (n >= 3 || b[0] == 0x10) VF_CHECK((size_t)r == b.size() - n, "after %zu of %zu bytes %d are requested although %zu are missing: %s", n, b.size(), r, b.size() - n, hex(b).c_str());
    }
    // a reader that keeps one frame and asks for what is missing, with short deliveries
    memset(&f, 0, sizeof f);
    size_t have = 1; int steps = 0;
    bool shortd = g.coin();
    for (;;) {
        Bytes p(b.begin(), b.begin() + have);
        int r = lib_parse(&f, p);
        if (r == 0) break;
        VF_CHECK(r > 0 && have + r <= b.size(), "reader at %zu of %zu gets %d: %s", have, b.size(), r, hex(b).c_str());
        have += shortd ? 1 + g.below((uint64_t)r) : (size_t)r;
        steps++;
        VF_CHECK(steps < 600, "reader never completes");
    }
    VF_CHECK(have == b.size(), "telegram of %zu bytes reported complete after %zu: %s", b.size(), have, hex(b).c_str());
    if (!shortd) VF_CHECK(steps <= 3, "%d requests for one telegram", steps);
    label(fmt("kind %d", (int)t.kind));
    // beyond the end
    if (t.kind != Tel::ACK) {
        Bytes c = b;
        switch (g.below(4)) { // noise, the same telegram again, another telegram, the last byte again
        case 0: { size_t k = g.chance(1, 10) ? g.size(24, 700) : g.size(1, 24); while (k--) c.push_back(g.byte()); break; }
        case 1: { size_t k = g.size(1, 3); while (k--) c.insert(c.end(), b.begin(), b.end()); break; }
        case 2: { Bytes o = tel_bytes(gen_tel(g)); c.insert(c.end(), o.begin(), o.end()); break; }
        default: { size_t k = g.size(1, 12); while (k--) c.push_back(b.back()); }
        }
        memset(&f, 0, sizeof f);
        int r = lib_parse(&f, c);
        VF_CHECK(r < 0, "telegram followed by %zu extra bytes gives %d: %s", c.size() - b.size(), r, hex(c).c_str());
    }
    // impossible starts
    uint8_t s = g.byte();
    if (s != 0x68 && s != 0x10 && s != 0xE5) {
        Bytes c = b; c[0] = s; c.resize(1 + g.below(c.size()));
        memset(&f, 0, sizeof f);
        VF_CHECK(lib_parse(&f, c) < 0, "wrong start character accepted: %s", hex(c).c_str());
    }
    uint8_t l1 = g.ibyte(), l2 = g.coin() ? l1 : g.ibyte();
    if (l1 != l2 || l1 < 3) {
        Bytes c = {0x68, l1, l2}; size_t extra = g.size(0, 10); while (extra--) c.push_back(g.byte());
        memset(&f, 0, sizeof f);
        int r = lib_parse(&f, c);
        VF_CHECK(r < 0, "length bytes %02X %02X give %d", l1, l2, r);
    }
}

VF_PROPERTY(P03, 1500000, 75000000, "telegrams built field by field (all kinds, C fields, addresses, CI, 0..252 data bytes) packed into buffers of every relation to the size, parsed back; valid byte strings parsed and packed; non-trivial: long telegram") {
    Tel t = gen_tel(g);
    Bytes want = tel_bytes(t);
    note("telegram: %s", hex(want).c_str());
    if (t.kind == Tel::LONG) nontrivial(hash_bytes(want.data(), want.size()));
    label(fmt("kind %d", (int)t.kind));
    int type = t.kind == Tel::ACK ? MBUS_FRAME_TYPE_ACK : t.kind == Tel::SHORT ? MBUS_FRAME_TYPE_SHORT : t.kind == Tel::CONTROL ? MBUS_FRAME_TYPE_CONTROL : MBUS_FRAME_TYPE_LONG;
    // built by hand
    mbus_frame *f = mbus_frame_new(type);
    VF_CHECK(f != NULL, "mbus_frame_new(%d) failed", type);
    VF_CHECK(f->type == type, "mbus_frame_new(%d) has type %d", type, f->type);
    f->control = t.c; f->address = t.a; f->control_information = t.ci;
    f->data_size = t.ud.size();
    if (!t.ud.empty()) memcpy(f->data, t.ud.data(), t.ud.size());
    if (g.coin()) { f->checksum = g.byte(); f->length1 = g.byte(); f->length2 = g.byte(); } // stale values must not matter
    size_t room;
    switch (g.below(4)) { case 0: room = want.size(); break; case 1: room = g.below(want.size() + 1); break; case 2: room = want.size() + g.size(1, 40); break; default: room = 512; }
    uint8_t *buf = (uint8_t *)malloc(room ? room : 1);
    memset(buf, 0xCC, room);
    int n = mbus_frame_pack(f, buf, room);
    if (room < want.size()) {
        label("buffer too small");
        VF_CHECK(n < 0, "packing %zu bytes into %zu gives %d", want.size(), room, n);
        free(buf); room = want.size(); buf = (uint8_t *)malloc(room);
        n = mbus_frame_pack(f, buf, room);
    }
    VF_CHECK(n == (int)want.size(), "packed size %d, expected %zu: %s", n, want.size(), hex(want).c_str());
    VF_CHECK(memcmp(buf, want.data(), n) == 0, "packed bytes %s, expected %s", hex(buf, n).c_str(), hex(want).c_str());
    for (size_t i = n; i < room; i++) VF_CHECK(buf[i] == 0xCC || room == want.size(), "byte beyond the packed telegram was written");
    VF_CHECK(mbus_frame_verify(f) == 0, "packed telegram does not verify: %s", hex(want).c_str());
    // length fields and checksum on their own
    if (g.chance(1, 4)) {
        mbus_frame c = *f; c.length1 = c.length2 = c.checksum = g.byte();
        int r1 = mbus_frame_calc_length(&c), r2 = mbus_frame_calc_checksum(&c); VF_CHECK(r1 == 0 && r2 == 0, "length and checksum calculation report %d %d", r1, r2);
        if (t.kind >= Tel::CONTROL) VF_CHECK(c.length1 == want[1] && c.length2 == want[2], "length fields %02X %02X: %s", c.length1, c.length2, hex(want).c_str());
        if (t.kind != Tel::ACK) VF_CHECK(c.checksum == want[want.size() - 2], "checksum %02X: %s", c.checksum, hex(want).c_str());
        VF_CHECK(c.control == t.c && c.address == t.a && c.data_size == t.ud.size() && c.type == type && !memcmp(c.data, t.ud.data(), t.ud.size()), "the calculation changes the telegram");
    }
    // parsed back, in a frame that held something else before
    mbus_frame p; memset(&p, g.coin() ? 0 : 0x5A, sizeof p);
    Bytes got(buf, buf + n);
    free(buf);
    int r = lib_parse(&p, got);
    VF_CHECK(r == 0, "packed telegram is rejected with %d: %s", r, hex(got).c_str());
    VF_CHECK(p.type == type, "type changes from %d to %d", type, p.type);
    if (t.kind != Tel::ACK) VF_CHECK(p.control == t.c && p.address == t.a, "C/A change");
    if (t.kind >= Tel::CONTROL) VF_CHECK(p.control_information == t.ci && p.data_size == t.ud.size() && !memcmp(p.data, t.ud.data(), t.ud.size()), "CI or user data change");
    uint8_t out[300];
    int m = mbus_frame_pack(&p, out, sizeof out);
    VF_CHECK(m == (int)want.size() && !memcmp(out, want.data(), m), "parse+pack gives %s, expected %s", hex(out, m > 0 ? m : 0).c_str(), hex(want).c_str());
    // damaged fields do not verify
    mbus_frame q = p;
    switch (g.below(4)) {
    case 0: q.checksum ^= (uint8_t)(1 + g.below(255)); if (t.kind != Tel::ACK) VF_CHECK(mbus_frame_verify(&q) != 0, "wrong checksum verifies"); break;
    case 1: q.stop ^= (uint8_t)(1 + g.below(255)); if (t.kind != Tel::ACK) VF_CHECK(mbus_frame_verify(&q) != 0, "wrong stop byte verifies"); break;
    case 2: q.start1 ^= (uint8_t)(1 + g.below(255)); VF_CHECK(mbus_frame_verify(&q) != 0, "wrong start byte %02X verifies (type %d)", q.start1, q.type); break;
    default: if (t.kind >= Tel::CONTROL) { q.length2 ^= (uint8_t)(1 + g.below(255)); VF_CHECK(mbus_frame_verify(&q) != 0, "unequal lengths verify"); } break;
    }
    VF_CHECK(mbus_frame_free(f) == 0, "mbus_frame_free failed");
    VF_CHECK(Heap::live() == 0, "%ld blocks left", Heap::live());
    // unusable arguments
    VF_CHECK(mbus_frame_pack(NULL, out, sizeof out) < 0, "packing no frame succeeds");
    VF_CHECK(mbus_frame_pack(&p, NULL, 0) < 0, "packing into nothing succeeds");
    int bad = (int)g.range(5, 300);
    q = p; q.type = bad;
    VF_CHECK(mbus_frame_pack(&q, out, sizeof out) < 0, "packing a frame of unknown type %d succeeds", bad);
}
