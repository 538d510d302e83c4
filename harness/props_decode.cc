// P04 P05 P06: the decoding pipeline as a whole: memory safety, heap ownership, allocation failure
#include "sim.h"
#include "corpus.h"
#include <set>
#include <memory>

// a reply telegram's CI and user data: well-formed, truncated, mutated, or filled to the limits
static Bytes reply_data(Gen &g, uint8_t &ci, bool &wellformed) {
    wellformed = false;
    ci = 0x72;
    switch (g.weighted({10, 6, 6, 2, 1, 3, 3, 3})) {
    case 0: wellformed = true; return g.coin() ? gen_doc(g).ud : gen_variable(g).ud;
    case 1: { // truncated somewhere in the last record(s)
        Bytes b = gen_variable(g).ud; size_t k = g.size(0, std::min<size_t>(b.size(), 40)); b.resize(b.size() - k); return b; }
    case 2: { // mutated
        Bytes b = gen_variable(g).ud; size_t n = g.size(1, 5);
        while (n-- && !b.empty()) b[g.below(b.size())] = g.ibyte();
        return b; }
    case 3: ci = 0x73; return g.bytes(g.chance(3, 4) ? 16 : g.size(0, 252));
    case 4: ci = 0x70; return g.bytes(g.size(0, 3));
    case 5: { // exactly full telegram that ends inside a record
        Bytes b = gen_variable(g, 252, RecOpt(), 60).ud;
        while (b.size() < 252) {
            switch (g.below(8)) {
            case 0: b.push_back((uint8_t)(g.byte() | 0x80)); break;
            case 1: b.push_back(0xFC); break;
            case 2: b.push_back(0x7C); break;
            case 3: b.push_back(0x0D); break;
            case 4: b.push_back(0x2F); break;
            case 5: b.push_back(0xFF); break;
            default: b.push_back(g.byte());
            }
        }
        return b; }
    case 6: { Bytes b = corpus_frame(g); if (b.size() > 9) { ci = b[6]; return Bytes(b.begin() + 7, b.end() - 2); } return Bytes(); }
    default: ci = g.coin() ? 0x72 : g.byte(); return g.bytes(g.size(0, 252));
    }
}
static void observe_record(mbus_data_record *r) {
    volatile size_t sink = 0;
    const char *s;
    VF_CHECK(r->data_len <= sizeof r->data, "a record of %zu data bytes", r->data_len);
    VF_CHECK(memchr(r->drh.vib.custom_vif, 0, sizeof r->drh.vib.custom_vif), "a custom unit text that is not terminated within its array");
    VF_CHECK(r->drh.dib.ndife <= sizeof r->drh.dib.dife && r->drh.vib.nvife <= sizeof r->drh.vib.vife, "%zu DIF and %zu VIF extensions", (size_t)r->drh.dib.ndife, (size_t)r->drh.vib.nvife);
    if ((s = mbus_data_record_function(r))) sink += strlen(s);
    if ((s = mbus_data_record_unit(r))) sink += strlen(s);
    if ((s = mbus_data_record_value(r))) sink += strlen(s);
    sink += mbus_data_record_storage_number(r) + mbus_data_record_tariff(r) + mbus_data_record_device(r);
    mbus_record *n = mbus_parse_variable_record(r);
    if (n) {
        if (n->unit) sink += strlen(n->unit);
        if (n->quantity) sink += strlen(n->quantity);
        if (n->function_medium) sink += strlen(n->function_medium);
        if (!n->is_numeric && n->value.str_val.value) for (int i = 0; i < n->value.str_val.size; i++) sink += n->value.str_val.value[i];
        mbus_record_free(n);
    }
}
static void release_data(mbus_frame_data *d) {
    if (d->data_var.record) { mbus_data_record_free(d->data_var.record); d->data_var.record = NULL; }
}
struct Quiet { // the print functions write to stdout, which the runner has redirected
    Quiet(bool on) { mbus_parse_set_debug(on); } ~Quiet() { mbus_parse_set_debug(0); }
};
// everything a program can do with one received buffer
static int pipeline(Gen &g, mbus_frame *f, bool print) {
    int made = 0;
    mbus_frame_data d;
    memset(&d, 0, sizeof d);
    int r = mbus_frame_data_parse(f, &d);
    if (r == 0) {
        if (d.type == MBUS_DATA_TYPE_VARIABLE) for (mbus_data_record *rec = d.data_var.record; rec; rec = (mbus_data_record *)rec->next) observe_record(rec);
        char *x = mbus_frame_data_xml(&d);
        if (x) { made += strlen(x) > 0; vf_release(x); }
        x = mbus_frame_data_xml_normalized(&d);
        if (x) { made += strlen(x) > 0; vf_release(x); }
        if (d.type == MBUS_DATA_TYPE_FIXED) {
            for (int i = 0; i < 2; i++) {
                mbus_record *n = mbus_parse_fixed_record(d.data_fix.status, i ? d.data_fix.cnt2_type : d.data_fix.cnt1_type, i ? d.data_fix.cnt2_val : d.data_fix.cnt1_val);
                if (n) mbus_record_free(n);
            }
        }
        if (print) mbus_frame_data_print(&d);
        mbus_frame o; memset(&o, 0, sizeof o);
        mbus_frame_internal_pack(&o, &d);
        release_data(&d);
    } else {
        const char *e = mbus_error_str();
        if (e) made += strlen(e) > 100000;
        release_data(&d);
    }
    char *x = mbus_frame_xml(f);
    if (x) { made += strlen(x) > 0; vf_release(x); }
    char *a = mbus_frame_get_secondary_address(f);
    if (a) made += strlen(a) == 16;
    if (print) mbus_frame_print(f);
    uint8_t out[300]; mbus_frame t = *f;
    t.next = NULL;
    mbus_frame_pack(&t, out, sizeof out);
    return made;
}

static mbus_frame *chain(Gen &g, size_t n, std::string *desc, int bad_at = -1) {
    mbus_frame *head = NULL, *last = NULL;
    for (size_t i = 0; i < n; i++) {
        mbus_frame *f = mbus_frame_new(MBUS_FRAME_TYPE_ANY);
        if (!f) { if (head) mbus_frame_free(head); return NULL; }
        uint8_t ci; bool wf; Bytes ud = reply_data(g, ci, wf);
        if (i == 0 && ci != 0x72 && g.chance(2, 3)) { ci = 0x72; ud = gen_doc(g).ud; }
        mbus_frame tmp;
        frame_from(&tmp, rsp_tel(ci, ud));
        void *nx = f->next;
        *f = tmp; f->next = nx;
        *desc += fmt("CI %02X %s\n", ci, hex(ud).c_str());
        if (last) last->next = f; else head = f;
        last = f;
    }
    return head;
}
VF_PROPERTY(P04, 350000, 6000000, "byte buffers, telegrams and chains of telegrams with well-formed, truncated, mutated, limit-filling, recorded and random application data, put through every decoding entry point with redzones around every heap object; non-trivial: the telegram is accepted and has application data") {
    mbus_frame f; memset(&f, 0, sizeof f);
    bool print = g.chance(1, 4);
    Quiet q(g.chance(1, 16));
    if (g.chance(1, 8)) { // raw bytes straight into the parser
        Bytes b = g.coin() ? corpus_frame(g) : g.bytes(g.size(1, 300));
        size_t n = g.size(0, 4); while (n-- && !b.empty()) b[g.below(b.size())] = g.ibyte();
        note("raw bytes %s", hex(b).c_str());
        int r = b.empty() ? -1 : lib_parse(&f, b);
        label(r == 0 ? "raw accepted" : "raw rejected");
        if (r == 0) { nontrivial(hash_bytes(b.data(), b.size())); pipeline(g, &f, print); }
        return;
    }
    if (g.chance(1, 8)) { // a chain of telegrams
        std::string desc; mbus_frame *c = chain(g, 1 + g.size(1, 7), &desc); note("chain %s", desc.c_str()); VF_CHECK(c, "no frame");
        char *x = mbus_frame_xml(c); label(x ? "chain rendered" : "chain refused"); if (x) vf_release(x);
        if (print) mbus_frame_print(c);
        mbus_frame_free(c); nontrivial(hash_bytes(desc.data(), desc.size())); return;
    }
    uint8_t ci; bool wf;
    Bytes ud = reply_data(g, ci, wf);
    Tel t = rsp_tel(ci, ud, g.byte(), g.chance(1, 12) ? g.pick(LONG_C) : 0x08);
    note("CI %02X user data (%zu bytes) %s", ci, ud.size(), hex(ud).c_str());
    // a telegram fills a frame object of its own: heap redzones show an overrun of the object
    mbus_frame *h = (mbus_frame *)malloc(sizeof *h); memset(h, 0, sizeof *h);
    VF_CHECK(lib_parse(h, tel_bytes(t)) == 0, "generated telegram rejected");
    h->timestamp = g.chance(1, 3) ? (time_t)g.below(4000000000ULL) : 0;
    int made = pipeline(g, h, print);
    label(fmt("ci %02X made %d", ci == 0x72 || ci == 0x73 || ci == 0x70 ? ci : 0, made));
    if (wf && !(t.c & 0x40)) { label("well-formed"); VF_CHECK(made >= 3, "well-formed data is not decoded"); }
    if (!ud.empty()) nontrivial(hash_bytes(ud.data(), ud.size(), ci));
    // escaping and text helpers with tight buffers
    size_t tl = g.size(0, 40); Bytes txt = gen_text(g, tl); txt.push_back(0);
    size_t cap = g.size(1, 260);
    uint8_t *dst = (uint8_t *)malloc(cap); uint8_t *src = (uint8_t *)malloc(txt.size()); memcpy(src, txt.data(), txt.size());
    if (cap >= 1) mbus_str_xml_encode(dst, src, cap);
    VF_CHECK(strnlen((char *)dst, cap) < cap, "escaped text is not terminated inside its buffer of %zu bytes", cap);
    free(dst); free(src);
    free(h);
}

// ---------------------------------------------------------------------------------------------
// a small population of slaves for the calls that talk to the bus
struct MiniSlave { std::string a; std::vector<Bytes> uds; size_t pos = 0; int fcb = -1; bool sel = false; };
struct Mini {
    Bus bus; std::vector<MiniSlave> sl; std::string desc; std::function<int()> fate = [] { return 0; };
    void reset() { bus.rx.clear(); bus.tx.clear(); bus.sends = bus.recvs = 0; for (auto &s : sl) { s.pos = 0; s.fcb = -1; s.sel = false; } }
    void answer(std::vector<Bytes> v) {
        if (v.empty()) return;
        if (v.size() > 1) { bus.rx.push_back({MBUS_RECV_RESULT_INVALID, Bytes{0}}); return; }
        switch (fate()) {
        case 1: return;
        case 2: { Bytes b = v[0]; if (b.size() > 1) b[b.size() - 1] ^= 1; else b[0] = 0; bus.rx.push_back({MBUS_RECV_RESULT_INVALID, b}); return; }
        case 3: bus.rx.push_back({0, v[0]}); bus.rx.push_back({0, v[0]}); return;
        case 4: bus.rx.push_back({MBUS_RECV_RESULT_RESET, Bytes()}); return;
        case 5: bus.rx.push_back({0, short_bytes(0x40, 3)}); bus.rx.push_back({0, v[0]}); return; // an echo
        case 6: bus.rx.push_back({0, long_bytes(0x08, 1, 0x70, Bytes{3})}); return;
        default: bus.rx.push_back({0, v[0]});
        }
    }
    void on(const Bytes &b) {
        std::vector<Bytes> r;
        if (b[0] == 0x10 && (b[1] & 0x4F) == 0x40) { for (size_t i = 0; i < sl.size(); i++) if (b[2] == i) { sl[i].pos = 0; sl[i].fcb = -1; r.push_back(ACKB); } }
        else if (b[0] == 0x10) { for (size_t i = 0; i < sl.size(); i++) { MiniSlave &s = sl[i]; if (b[2] == i || (b[2] == 0xFD && s.sel)) {
            int f = b[1] & 0x20; if (s.fcb >= 0 && s.fcb != f) s.pos++; s.fcb = f; r.push_back(rsp_bytes(s.uds[s.pos % s.uds.size()])); } } }
        else if (b.size() == 17 && b[6] == 0x52) { for (auto &s : sl) { Bytes w = select_bytes(s.a); bool m = true;
            for (int i = 0; i < 8; i++) { uint8_t x = b[7 + i], y = w[i]; if (i < 4 || i < 6) { if ((x >> 4) != 15 && (x >> 4) != (y >> 4)) m = false; if ((x & 15) != 15 && (x & 15) != (y & 15)) m = false; } else if (x != 0xFF && x != y) m = false; }
            s.sel = m; if (m) { s.pos = 0; s.fcb = -1; r.push_back(ACKB); } } }
        else r.push_back(ACKB);
        answer(r);
    }
    static Bytes rsp_bytes(const Bytes &ud) { return tel_bytes(rsp_tel(0x72, ud)); }
    Mini(Gen &g) {
        size_t n = g.size(0, 4); std::string common(16, '0'); for (auto &c : common) c = "0123456789"[g.below(10)];
        for (size_t i = 0; i < n; i++) {
            MiniSlave s; s.a = common; size_t k = g.size(1, 3); while (k--) s.a[g.below(8)] = "0123456789"[g.below(10)];
            bool dup = false; for (auto &o : sl) if (o.a == s.a) dup = true;
            if (dup) continue;
            Bytes h = select_bytes(s.a); for (int j = 0; j < 4; j++) h.push_back(g.byte());
            k = g.size(1, 3);
            for (size_t j = 0; j < k; j++) { Bytes u = h; size_t m = g.size(0, 6); while (m--) { u.push_back(1); u.push_back(0x13); u.push_back(g.byte()); } if (j + 1 < k) u.push_back(0x1F); s.uds.push_back(u); }
            desc += s.a + fmt(" (%zu telegrams) ", k); sl.push_back(s);
        }
        bus.on_tx = [this](const Bytes &b) { on(b); };
    }
};
static std::set<std::string> mini_found;
static void mini_found_cb(mbus_handle *, mbus_frame *f) { if (f->data_size >= 8) mini_found.insert(hex(f->data, 8)); }
static void p05_step(Gen &g, std::string &desc) {
    switch (g.below(8)) {
    case 0: { // decode and render with the documented releases
        uint8_t ci; bool wf; Bytes ud = reply_data(g, ci, wf);
        desc += fmt("decode CI %02X %s\n", ci, hex(ud).c_str());
        mbus_frame f; frame_from(&f, rsp_tel(ci, ud));
        mbus_frame_data *d = mbus_frame_data_new();
        int r = mbus_frame_data_parse(&f, d);
        if (r == 0) {
            if (d->type == MBUS_DATA_TYPE_VARIABLE) for (mbus_data_record *rec = d->data_var.record; rec; rec = (mbus_data_record *)rec->next) observe_record(rec);
            char *x = mbus_frame_data_xml(d); if (x) vf_release(x);
            x = mbus_frame_data_xml_normalized(d); if (x) vf_release(x);
            if (d->type == MBUS_DATA_TYPE_FIXED) {
                mbus_record *n = mbus_parse_fixed_record(d->data_fix.status, d->data_fix.cnt1_type, d->data_fix.cnt1_val); if (n) mbus_record_free(n);
            }
            label("decoded");
        } else label("decode failed");
        mbus_frame_data_free(d);
        break; }
    case 1: { // chain rendering
        size_t n = g.size(1, 4);
        desc += fmt("chain of %zu\n", n);
        mbus_frame *c = chain(g, n, &desc);
        char *x = mbus_frame_xml(c);
        label(x ? "chain rendered" : "chain refused");
        if (x) vf_release(x);
        mbus_frame_free(c);
        break; }
    case 2: { // secondary address
        uint8_t ci; bool wf; Bytes ud = reply_data(g, ci, wf);
        desc += fmt("address of CI %02X %s\n", ci, hex(ud).c_str());
        mbus_frame f; frame_from(&f, rsp_tel(ci, ud));
        char *a = mbus_frame_get_secondary_address(&f);
        label(a ? "address" : "no address");
        break; }
    case 3: { // normalization of any unit
        int vif = (int)g.below(0x1000); char *u = NULL, *q = NULL; double v = 0;
        desc += fmt("normalize VIF %X\n", vif);
        mbus_vif_unit_normalize(vif, 1.0, &u, &v, &q);
        vf_release(u); vf_release(q);
        uint8_t cnt[4] = {1, 2, 3, 4};
        mbus_record *fr = mbus_parse_fixed_record((char)g.byte(), (char)g.byte(), cnt);
        if (fr) mbus_record_free(fr);
        break; }
    case 4: { // contexts
        desc += "contexts\n";
        mbus_handle *a = mbus_context_tcp("localhost", 1), *b = mbus_context_serial("/dev/null/none");
        if (g.coin()) mbus_context_set_option(a, MBUS_OPTION_MAX_DATA_RETRY, g.range(-2, 12));
        if (g.coin()) { mbus_context_free(a); mbus_context_free(b); } else { mbus_context_free(b); mbus_context_free(a); }
        label("contexts");
        break; }
    case 5: { // calls that talk to slaves, with faults of every kind
        Mini m(g); B = &m.bus; m.bus.limit = 3000000;
        m.fate = [&g] { return g.chance(1, 3) ? 1 + (int)g.below(6) : 0; };
        if (g.chance(1, 3)) m.bus.fail_at = 1 + (long)g.size(0, 12);
        mbus_handle *h = bus_handle(g.coin());
        mbus_context_set_option(h, MBUS_OPTION_MAX_DATA_RETRY, (long)g.below(4)); mbus_context_set_option(h, MBUS_OPTION_PURGE_FIRST_FRAME, (long)g.below(3));
        mini_found.clear(); mbus_register_found_event(h, mini_found_cb);
        int a = g.chance(1, 6) ? 256 : (int)g.below(m.sl.size() + 1);
        std::string mask = g.coin() && !m.sl.empty() ? m.sl[g.below(m.sl.size())].a : std::string(16, 'F'); size_t w = g.size(0, 3); while (w--) mask[g.below(8)] = 'F'; if (g.chance(1, 10)) mask[g.below(16)] = 'x';
        desc += "bus " + m.desc + fmt("address %d mask %s fail_at %ld: ", a, mask.c_str(), m.bus.fail_at);
        mbus_frame reply; memset(&reply, 0, sizeof reply); char addr[32];
        switch (g.below(6)) {
        case 0: desc += "sendrecv"; mbus_sendrecv_request(h, a, &reply, (int)g.below(4)); free_chain(&reply); break;
        case 1: { desc += "read"; mbus_address ad; memset(&ad, 0, sizeof ad); ad.is_primary = g.coin(); if (ad.is_primary) ad.primary = a; else ad.secondary = (char *)mask.c_str(); mbus_read_slave(h, &ad, &reply); break; }
        case 2: desc += "probe"; mbus_probe_secondary_address(h, mask.c_str(), addr); break;
        case 3: { desc += "scan"; std::string c = m.sl.empty() ? std::string(16, 'F') : m.sl[0].a; w = g.size(0, 2); while (w--) c[g.below(8)] = 'F'; char buf[20]; snprintf(buf, 20, "%s", c.c_str()); mbus_scan_2nd_address_range(h, 0, buf); break; }
        case 4: desc += "select"; mbus_select_secondary_address(h, mask.c_str()); break;
        default: desc += "commands"; mbus_send_request_frame(h, a); mbus_send_ping_frame(h, a, g.coin()); mbus_send_switch_baudrate_frame(h, a, g.coin() ? 2400 : 5); mbus_send_application_reset_frame(h, a, (int)g.below(300)); mbus_set_primary_address(h, a, (int)g.below(300)); mbus_send_select_frame(h, mask.c_str());
        }
        desc += "\n";
        mbus_context_free(h);
        label("bus");
        break; }
    case 6: { // one result structure for several replies: records it holds are released before it takes new ones, or at the end
        mbus_frame_data *d = mbus_frame_data_new(); VF_CHECK(d, "no result structure");
        size_t n = g.size(1, 4); bool varied = false; int last = -1;
        for (size_t i = 0; i < n; i++) {
            uint8_t ci; bool wf; Bytes ud = reply_data(g, ci, wf);
            desc += fmt("%s CI %02X %s\n", i ? "then" : "one structure:", ci, hex(ud).c_str());
            mbus_frame f; frame_from(&f, rsp_tel(ci, ud));
            if (ci == 0x72 && d->data_var.record) { mbus_data_record_free(d->data_var.record); d->data_var.record = NULL; }
            int r = mbus_frame_data_parse(&f, d);
            if (r == 0) { if (last >= 0 && last != d->type) varied = true; last = d->type; }
        }
        mbus_frame_data_free(d);
        label(varied ? "structure reused for another kind" : "structure reused");
        break; }
    default: { // frames and records made by hand
        desc += "hand-made\n";
        mbus_frame *h = mbus_frame_new(MBUS_FRAME_TYPE_LONG), *l = h; size_t n = g.size(0, 4);
        while (n--) { l->next = mbus_frame_new(MBUS_FRAME_TYPE_ACK); l = (mbus_frame *)l->next; }
        mbus_frame_free(h);
        mbus_data_variable v; memset(&v, 0, sizeof v);
        n = g.size(1, 20); size_t k = n;
        while (k--) mbus_data_record_append(&v, mbus_data_record_new());
        k = 0; for (mbus_data_record *r = v.record; r; r = (mbus_data_record *)r->next) k++;
        VF_CHECK(k == n, "%zu records appended, %zu in the list", n, k);
        mbus_data_record_free(v.record);
        mbus_record *r = mbus_record_new(); VF_CHECK(r != NULL, "record"); mbus_record_free(r);
        mbus_frame_data_free(mbus_frame_data_new());
        label("hand-made");
        break; }
    }
}
VF_PROPERTY(P05, 120000, 3000000, "sequences of 1-6 calls (decode+render, telegram chains, address extraction, one result structure reused, unit normalization, contexts, calls that talk to slaves, hand-made lists) over well-formed, truncated, mutated, fixed and error telegrams, releasing what the documentation says; non-trivial: at least one allocation was made; distinct by the sequence") {
    size_t n = g.size(1, 6); std::string desc;
    Heap::reset();
    for (size_t i = 0; i < n; i++) {
        std::string one;
        p05_step(g, one);
        desc += one; note("%s", one.c_str());
        VF_CHECK(Heap::live() == 0, "%ld block(s) not released after: %s (sizes %s)", Heap::live(), one.c_str(), Heap::dump().c_str());
    }
    if (Heap::count()) nontrivial(desc);
}

// ---------------------------------------------------------------------------------------------
// P06: one operation, with every single allocation failing in turn and with everything failing from a point on
struct Op { int kind; mbus_frame f; std::vector<Tel> tels; int vif; mbus_frame_data *d; int med; double val; Mini *m = NULL; mbus_handle *h = NULL; int a = 0, max = 0; std::string mask; };
static std::string op_run(const Op &o, bool &ok) { // ok: the operation reported success; returns the result text
    std::string res; ok = false;
    switch (o.kind) {
    case 0: { mbus_frame f = o.f; mbus_frame_data d; memset(&d, 0, sizeof d);
        int r = mbus_frame_data_parse(&f, &d);
        if (r == 0) {
            ok = true; res = fmt("%zu records", d.data_var.nrecords);
            size_t k = 0; for (mbus_data_record *x = d.data_var.record; x; x = (mbus_data_record *)x->next) k++;
            if (d.type == MBUS_DATA_TYPE_VARIABLE) VF_CHECK(k == d.data_var.nrecords, "record count %zu but %zu records in the list", d.data_var.nrecords, k);
        }
        release_data(&d);
        break; }
    case 1: { char *x = mbus_frame_data_xml(o.d); if (x) { ok = true; res = x; vf_release(x); } break; }
    case 2: { char *x = mbus_frame_data_xml_normalized(o.d); if (x) { ok = true; res = x; vf_release(x); } break; }
    case 3: { // chain; the frames themselves are not the object of the test
        std::vector<mbus_frame> v(o.tels.size());
        for (size_t i = 0; i < v.size(); i++) { frame_from(&v[i], o.tels[i]); if (i) v[i - 1].next = &v[i]; }
        char *x = mbus_frame_xml(&v[0]); if (x) { ok = true; res = x; vf_release(x); }
        break; }
    case 4: { mbus_frame f = o.f; char *a = mbus_frame_get_secondary_address(&f); if (a) { ok = true; res = a; } break; }
    case 5: { char *u = NULL, *q = NULL; double v = 0; int r = mbus_vif_unit_normalize(o.vif, o.val, &u, &v, &q);
        if (r == 0) { ok = true; res = fmt("%s|%s|%g", u ? u : "(null)", q ? q : "(null)", v); } vf_release(u); vf_release(q); break; }
    case 6: { mbus_handle *h = mbus_context_tcp("somewhere", 10001); if (h) { ok = true; res = "context"; mbus_context_free(h); } break; }
    case 7: { mbus_handle *h = mbus_context_serial("/dev/ttyNone"); if (h) { ok = true; res = "context"; mbus_context_free(h); } break; }
    case 8: {
        for (mbus_data_record *r = o.d->data_var.record; r; r = (mbus_data_record *)r->next) {
            mbus_record *n = mbus_parse_variable_record(r);
            if (n) {
                VF_CHECK(n->function_medium != NULL, "a normalized record without a function");
                // (the texts are escaped: they may contain the separator)
                res += fmt("%d %s|%s|%s ", n->is_numeric, n->unit ? esc(n->unit).c_str() : "(null)", n->quantity ? esc(n->quantity).c_str() : "(null)", n->function_medium ? esc(n->function_medium).c_str() : "(null)");
                if (n->is_numeric) res += fmt("%.17g\x01\x02", n->value.real_val);
                else { VF_CHECK(n->value.str_val.value != NULL || n->value.str_val.size == 0, "string record without a string"); res += esc(std::string(n->value.str_val.value ? n->value.str_val.value : "", n->value.str_val.size > 0 ? n->value.str_val.size : 0)) + "\x01\x02"; }
                mbus_record_free(n);
            } else res += "none\x01\x02";
        }
        ok = true; break; }
    case 9: { mbus_record *n = mbus_parse_fixed_record(o.d->data_fix.status, o.d->data_fix.cnt1_type, o.d->data_fix.cnt1_val);
        if (n) { ok = true; res = fmt("%s|%s|%g", n->unit ? n->unit : "(null)", n->quantity ? n->quantity : "(null)", n->value.real_val); mbus_record_free(n); } break; }
    case 11: { o.m->reset(); mbus_frame reply; memset(&reply, 0, sizeof reply); int r = mbus_sendrecv_request(o.h, o.a, &reply, o.max);
        if (r == 0) { ok = true; for (mbus_frame *f = &reply; f; f = (mbus_frame *)f->next) res += fmt("%d:%s;", f->type, hex(f->data, f->data_size).c_str()); }
        free_chain(&reply); break; }
    case 12: { o.m->reset(); char addr[32] = ""; int r = mbus_probe_secondary_address(o.h, o.mask.c_str(), addr); res = fmt("%d %s", r, r == MBUS_PROBE_SINGLE ? addr : ""); ok = r == MBUS_PROBE_SINGLE || r == MBUS_PROBE_COLLISION; break; }
    case 13: { o.m->reset(); mini_found.clear(); char buf[20]; snprintf(buf, 20, "%s", o.mask.c_str()); int r = mbus_scan_2nd_address_range(o.h, 0, buf); ok = r == 0; for (auto &x : mini_found) res += x + ";"; break; }
    case 14: { o.m->reset(); mbus_frame reply; memset(&reply, 0, sizeof reply); mbus_address ad; memset(&ad, 0, sizeof ad); ad.is_primary = o.max & 1; if (ad.is_primary) ad.primary = o.a; else ad.secondary = (char *)o.mask.c_str();
        if (mbus_read_slave(o.h, &ad, &reply) == 0) { ok = true; res = hex(reply.data, reply.data_size); } break; }
    case 15: { o.m->reset(); int r = -1; switch (o.max % 7) { case 0: r = mbus_send_request_frame(o.h, o.a); break; case 1: r = mbus_send_ping_frame(o.h, o.a, 1); break; case 2: r = mbus_send_switch_baudrate_frame(o.h, o.a, 2400); break; case 3: r = mbus_send_application_reset_frame(o.h, o.a, 7); break;
        case 4: r = mbus_set_primary_address(o.h, o.a, 9); break; case 5: r = mbus_send_select_frame(o.h, o.mask.c_str()); break; default: r = mbus_send_user_data_frame(o.h, o.a, (const uint8_t *)"abc", 3); }
        if (r == 0) { ok = true; for (auto &b : o.m->bus.tx) res += hex(b) + ";"; } else VF_CHECK(o.m->bus.tx.empty(), "a command that reports failure has transmitted"); break; }
    default: { mbus_frame *f = mbus_frame_new(MBUS_FRAME_TYPE_SHORT); mbus_data_record *r = mbus_data_record_new(); mbus_record *m = mbus_record_new(); mbus_frame_data *d = mbus_frame_data_new();
        ok = f && r && m && d; res = ok ? "all" : "";
        if (f) mbus_frame_free(f); mbus_data_record_free(r); mbus_record_free(m); mbus_frame_data_free(d); break; }
    }
    return res;
}
static std::vector<std::string> split(const std::string &s, const std::string &sep) { std::vector<std::string> v; size_t p = 0, q; while ((q = s.find(sep, p)) != std::string::npos) { v.push_back(s.substr(p, q - p)); p = q + sep.size(); } if (p < s.size()) v.push_back(s.substr(p)); return v; }
// every part is the expected one, or says that there is nothing
static bool partial_of(const std::vector<std::string> &a, const std::vector<std::string> &b, bool xml) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i] && (xml ? i == 0 || a[i].find("<Function") != std::string::npos || a[i].find("<Value") != std::string::npos : a[i] != "none")) return false;
    return true;
}
VF_PROPERTY(P06, 36000, 1000000, "one operation (decode, XML, normalized XML, chain XML, address, unit normalization, record normalization, context creation, commands, read-out, probe and scan of a small simulated bus) over generated telegrams; every allocation it makes is failed in turn, and every suffix of them; evaluations are operations, each re-run about twice per allocation; non-trivial: at least 2 allocations, distinct by operation and input") {
    Op o; memset(&o.f, 0, sizeof o.f); o.d = NULL; o.kind = (int)g.weighted({4, 3, 4, 4, 3, 2, 1, 1, 4, 1, 1, 4, 2, 2, 2, 2}); o.vif = (int)g.below(0x300); o.val = (double)g.range(-100, 1000);
    uint8_t ci = 0x72; Bytes ud;
    if (g.chance(1, 6)) { bool wf; ud = reply_data(g, ci, wf); } else ud = gen_variable(g, g.coin() ? 252 : 80).ud;
    if (o.kind == 9) { ci = 0x73; ud = g.bytes(16); }
    frame_from(&o.f, rsp_tel(ci, ud));
    note("operation %d on CI %02X %s", o.kind, ci, hex(ud).c_str());
    mbus_frame_data base; memset(&base, 0, sizeof base);
    int pr = mbus_frame_data_parse(&o.f, &base);
    o.d = &base;
    if (pr != 0 && (o.kind == 1 || o.kind == 2 || o.kind == 8)) { release_data(&base); o.kind = 0; }
    if (o.kind == 3) { size_t n = g.size(1, 4); o.tels.push_back(rsp_tel(ci, ud)); for (size_t i = 1; i < n; i++) { Bytes u; uint8_t c2 = 0x72; bool wf; if (g.chance(1, 4)) u = reply_data(g, c2, wf); else u = gen_variable(g, 252).ud; o.tels.push_back(rsp_tel(c2, u)); note("then CI %02X %s", c2, hex(u).c_str()); } }
    std::unique_ptr<Mini> mini;
    if (o.kind >= 11) {
        mini.reset(new Mini(g)); o.m = mini.get(); B = &o.m->bus; o.h = bus_handle(g.coin()); o.a = (int)g.below(o.m->sl.size() + 1); o.max = (int)g.below(8);
        mbus_register_found_event(o.h, mini_found_cb);
        o.mask = o.m->sl.empty() ? std::string(16, 'F') : o.m->sl[g.below(o.m->sl.size())].a; size_t w = g.size(0, 3); while (w--) o.mask[g.below(8)] = 'F';
        note("bus %s address %d argument %d mask %s", o.m->desc.c_str(), o.a, o.max, o.mask.c_str());
    }
    long held = Heap::live();
    bool ok0, ok;
    long c0 = Heap::count();
    std::string want = op_run(o, ok0);
    long n = Heap::count() - c0;
    VF_CHECK(Heap::live() == held, "operation %d leaves %ld block(s) without any fault", o.kind, Heap::live() - held);
    label(fmt("op %d", o.kind));
    if (n >= 2) nontrivial(hash_bytes(ud.data(), ud.size(), o.kind));
    long step = n > 60 ? n / 60 + 1 : 1;
    for (int mode = 0; mode < 2; mode++)
        for (long k = 1; k <= n; k += step) {
            if (mode) Heap::fail_from(k); else Heap::fail_at(k);
            std::string res = op_run(o, ok);
            bool hit = Heap::faulted();
            Heap::fail_at(0);
            VF_CHECK(hit, "the operation made fewer than %ld allocations this time", k);
            VF_CHECK(Heap::live() == held, "%ld block(s) not released when allocation %ld of %ld%s fails (operation %d; sizes %s)", Heap::live() - held, k, n, mode ? " and all later" : "", o.kind, Heap::dump().c_str());
            std::string miss;
            if (o.kind == 2 && ok) VF_CHECK(partial_of(split(res, "<DataRecord"), split(want, "<DataRecord"), true), "the normalized document is wrong when allocation %ld fails: %s", k, esc(res.substr(0, 300)).c_str());
            else if (o.kind == 8) VF_CHECK(partial_of(split(res, "\x01\x02"), split(want, "\x01\x02"), false), "a normalized record is wrong when allocation %ld fails: %s, should be %s", k, esc(res.substr(0, 300)).c_str(), esc(want.substr(0, 300)).c_str());
            else if (o.kind == 13 && ok) { // a slave whose own reply could not be evaluated may be missing
                std::vector<std::string> a = split(res, ";"), b = split(want, ";"); size_t i = 0, lost = 0; for (auto &x : b) if (i < a.size() && a[i] == x) i++; else lost++;
                VF_CHECK(i == a.size(), "the scan finds %s instead of %s when allocation %ld fails", res.c_str(), want.c_str(), k);
                VF_CHECK(mode || lost <= 1, "the scan reports success although only allocation %ld failed and %zu slaves are missing: %s instead of %s", k, lost, res.c_str(), want.c_str());
            }
            else if (o.kind != 5) VF_CHECK(!ok || res == want, "operation %d succeeds with a different result when allocation %ld fails: %s", o.kind, k, esc(res.substr(0, 300)).c_str());
            label("injected failure");
        }
    std::string again = op_run(o, ok);
    VF_CHECK(ok == ok0 && again == want, "operation %d gives a different result after recovered allocation failures", o.kind);
    release_data(&base);
    if (o.h) mbus_context_free(o.h);
    VF_CHECK(Heap::live() == 0, "%ld block(s) left at the end", Heap::live());
}
