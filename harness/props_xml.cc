// P13 application errors and undecodable frames, P16 plain XML, P17 normalized XML, P18 chains
#include "refrec.h"
#include "corpus.h"
#include "xml.h"

static void free_data(mbus_frame_data *d) { if (d->data_var.record) { mbus_data_record_free(d->data_var.record); d->data_var.record = NULL; } }
static std::string take(char *p) { std::string s = p; vf_release(p); return s; }
static El doc_of(const std::string &s, const char *what) {
    Xml x(s); VF_CHECK(x.parse(), "%s is not well-formed: %s", what, x.why.c_str());
    VF_CHECK(x.root.name == "MBusData" && x.root.attr.empty(), "%s: root element is %s", what, x.root.name.c_str());
    return x.root;
}
static std::string shown(const std::string &s) { std::string o = s.c_str(); for (auto &c : o) if ((unsigned char)c < 32 || c == 127) c = ' '; return o; }  // control characters appear as spaces
static std::string error_text(int code) {
    static const char *const t[] = {"Unspecified error", "Unimplemented CI-Field", "Buffer too long, truncated", "Too many records", "Premature end of record", "More than 10 DIFE\xC2\xB4s", "More than 10 VIFE\xC2\xB4s", "Reserved", "Application busy", "Too many readouts"};
    if (code >= 0 && code < 10) return t[code];
    return fmt("Unknown error (0x%.2X)", code);
}
static void check_error_doc(const std::string &s, int code, const char *what) {
    El r = doc_of(s, what);
    VF_CHECK(r.names() == "SlaveInformation", "%s has the elements %s", what, r.names().c_str());
    VF_CHECK(r.kids[0].names() == "Error", "%s: SlaveInformation has the elements %s", what, r.kids[0].names().c_str());
    VF_CHECK(r.kids[0].kids[0].text == error_text(code), "%s of error %d says %s", what, code, esc(r.kids[0].kids[0].text).c_str());
}
// ------------------------------------------------------------------------------------------ P13
VF_PROPERTY(P13, 250000, 60000000, "frames of every kind with generated C and CI fields (every value, weighted to the defined ones), application errors with and without payload, replies too short for their structure, acknowledgements and short frames in structures that held a reply before; result, error message and documents compared with the expected classification; non-trivial: an application error or a frame that is no reply; distinct by kind, fields and data") {
    mbus_frame f; memset(&f, 0, sizeof f);
    static const uint8_t CIS[] = {0x70, 0x72, 0x73, 0x70, 0x72, 0x73, 0x71, 0x50, 0x51, 0x52, 0x76, 0x77, 0x78, 0xB8, 0x7A, 0x00};
    int mode = (int)g.weighted({8, 3, 3, 1}); std::string key;
    uint8_t c = 0, ci = 0; Bytes ud; bool frame_data = true;
    ci = g.chance(3, 4) ? g.pick(CIS) : g.byte();
    switch (g.weighted({2, 2, 3, 1})) { case 0: break; case 1: ud = g.bytes(1 + g.below(14)); break; case 3: ud = g.bytes(g.coin() ? 252 - g.below(4) : g.size(1, 252)); break; default: if (ci == 0x72) ud = gen_variable(g, 100, RecOpt(), 5).ud; else if (ci == 0x73) ud = g.bytes(g.chance(3, 4) ? 16 : g.below(40)); else ud = g.bytes(g.size(1, 60)); }
    if (ci == 0x70 && !ud.empty() && g.chance(2, 3)) ud[0] = (uint8_t)g.below(12);
    if (mode == 0 || mode == 3) {           // as received
        c = g.chance(4, 5) ? (g.coin() ? 0x08 : g.pick(LONG_C)) : 0x08;
        VF_CHECK(frame_from(&f, rsp_tel(ci, ud, g.byte(), c)), "valid telegram rejected");
        if (mode == 3) { // the structure is used again for an acknowledgement or a short frame
            Tel t = gen_tel(g, g.coin() ? Tel::ACK : Tel::SHORT); VF_CHECK(lib_parse(&f, tel_bytes(t)) == 0, "valid telegram rejected"); frame_data = false; label("stale fields");
        }
    } else if (mode == 1) {                 // any C field
        c = g.byte();
        VF_CHECK(frame_from(&f, rsp_tel(ci, ud)), "valid telegram rejected"); f.control = c;
    } else {                                // built by the caller, of any kind
        mbus_frame *p = mbus_frame_new(g.coin() ? MBUS_FRAME_TYPE_ACK : MBUS_FRAME_TYPE_SHORT); VF_CHECK(p, "no frame"); f = *p; mbus_frame_free(p);
        c = f.control = g.coin() ? 0x08 : g.byte(); f.control_information = ci; f.data_size = ud.size(); memcpy(f.data, ud.data(), ud.size()); frame_data = false;
    }
    note("%s C %02X CI %02X data %s", frame_data ? "long/control frame" : mode == 3 ? "acknowledgement/short frame after a reply" : "hand-made acknowledgement/short frame", c, ci, hex(ud).c_str());
    int want; VarData v;  // 0 undecodable, 1 error, 2 fixed, 3 variable
    if (!frame_data || (c & 0x40)) want = 0;
    else if (ci == 0x70) want = 1;
    else if (ci == 0x73) want = ud.size() == 16 ? 2 : 0;
    else if (ci == 0x72) want = ref_variable(ud, v) ? 3 : 0;
    else want = 0;
    static const char *const names[] = {"undecodable", "application error", "fixed", "variable"}; label(names[want]);
    if (want < 2) nontrivial(hash_bytes(ud.data(), ud.size(), hash_bytes(&c, 1, mode * 256 + ci)));
    mbus_frame_data d; memset(&d, 0, sizeof d); d.error = -1;
    forget_error();
    long before = Heap::live();
    int r = mbus_frame_data_parse(&f, &d);
    if (want == 0) {
        VF_CHECK(r != 0, "the frame is decoded (as type %d)", d.type);
        VF_CHECK(error_given(), "the failure has no error message");
        VF_CHECK(!d.data_var.record, "a failed decoding leaves records behind");
        VF_CHECK(Heap::live() == before, "a failed decoding leaves %ld blocks", Heap::live() - before);
        forget_error();
        char *x = mbus_frame_xml(&f);
        VF_CHECK(!x, "a document is generated: %s", esc(x).c_str());
        VF_CHECK(error_given(), "the failure of mbus_frame_xml has no error message");
        return;
    }
    VF_CHECK(r == 0, "the reply is not decoded: %s", mbus_error_str());
    static const int types[] = {0, MBUS_DATA_TYPE_ERROR, MBUS_DATA_TYPE_FIXED, MBUS_DATA_TYPE_VARIABLE};
    VF_CHECK(d.type == types[want], "the reply is decoded as type %d, should be %s", d.type, names[want]);
    char *p = mbus_frame_data_xml(&d), *n = mbus_frame_data_xml_normalized(&d), *q = mbus_frame_xml(&f);
    VF_CHECK(p && n && q, "no document: plain %d, normalized %d, frame %d", p != 0, n != 0, q != 0);
    std::string sp = take(p), sn = take(n), sq = take(q);
    if (want == 1) {
        int code = ud.empty() ? 0 : ud[0];
        VF_CHECK(d.error == code, "error code is %d, should be %d", d.error, code);
        check_error_doc(sp, code, "plain document"); check_error_doc(sn, code, "normalized document"); check_error_doc(sq, code, "document of the frame");
        VF_CHECK(mbus_data_error_lookup(code) == error_text(code), "text of error %d is %s", code, esc(mbus_data_error_lookup(code)).c_str());
    } else {
        for (auto *s : {&sp, &sn, &sq}) { El e = doc_of(*s, "document of a reply"); VF_CHECK(e.kid("SlaveInformation") && !e.kid("SlaveInformation")->kid("Error"), "a reply is rendered as an error"); }
    }
    free_data(&d);
    // any code, directly
    int code = g.coin() ? (int)g.below(16) : (int)g.below(256);
    char *e = mbus_data_error_xml(code); VF_CHECK(e, "no error document"); check_error_doc(take(e), code, "error document");
}

// ------------------------------------------------------------------------------------------ P16
static const char *func_text(uint8_t dif) {
    switch (dif & 0x30) { case 0x00: return "Instantaneous value"; case 0x10: return "Maximum value"; case 0x20: return "Minimum value"; default: return "Value during error state"; }
}
struct Bits { long storage, tariff; int device; };
static Bits ref_bits(const Rec &r) {
    unsigned __int128 st = (r.dif >> 6) & 1; long ta = 0; int dv = 0; 
    for (size_t i = 0; i < r.dife.size(); i++) { st |= (unsigned __int128)(r.dife[i] & 15) << (1 + 4 * i); ta |= (long)((r.dife[i] >> 4) & 3) << (2 * i); dv |= ((r.dife[i] >> 6) & 1) << i; }
    if (r.dife.empty()) { ta = -1; dv = -1; }
    return {(long)st, ta, dv};
}
static void check_header(const El &info, const Bytes &h, const char *what) {
    VF_CHECK(info.names() == "Id Manufacturer Version ProductName Medium AccessNumber Status Signature", "%s: slave information has the elements %s", what, info.names().c_str());
    mbus_data_variable_header x; memcpy(&x, h.data(), 12);
    unsigned m = h[4] | h[5] << 8;
    std::string man = {(char)(64 + ((m >> 10) & 31)), (char)(64 + ((m >> 5) & 31)), (char)(64 + (m & 31))};
    VF_CHECK(info.of("Id") == fmt("%llX", (unsigned long long)ref_le(h.data(), 4)), "%s: Id is %s", what, esc(info.of("Id")).c_str());
    VF_CHECK(info.of("Manufacturer") == man, "%s: manufacturer is %s, should be %s", what, esc(info.of("Manufacturer")).c_str(), esc(man).c_str());
    VF_CHECK(info.of("Version") == fmt("%d", h[6]), "%s: version is %s", what, esc(info.of("Version")).c_str());
    VF_CHECK(info.of("ProductName") == shown(mbus_data_product_name(&x)), "%s: product name is %s", what, esc(info.of("ProductName")).c_str());
    VF_CHECK(info.of("Medium") == shown(mbus_data_variable_medium_lookup(h[7])), "%s: medium is %s", what, esc(info.of("Medium")).c_str());
    VF_CHECK(info.of("AccessNumber") == fmt("%d", h[8]), "%s: access number is %s", what, esc(info.of("AccessNumber")).c_str());
    VF_CHECK(info.of("Status") == fmt("%.2X", h[9]), "%s: status is %s", what, esc(info.of("Status")).c_str());
    VF_CHECK(info.of("Signature") == fmt("%.2X%.2X", h[11], h[10]), "%s: signature is %s", what, esc(info.of("Signature")).c_str());
}
static void check_stamp(const El &e, const std::string &want, const char *w) { VF_CHECK(e.of("Timestamp") == want, "%s: timestamp is %s, should be %s", w, esc(e.of("Timestamp")).c_str(), want.c_str()); }
static time_t gen_stamp(Gen &g) { return g.chance(1, 4) ? 0 : (time_t)g.below(4102444800ULL); }
static std::string utc(time_t t) { struct tm tm; gmtime_r(&t, &tm); return fmt("%04d-%02d-%02dT%02d:%02d:%02dZ", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec); }
// one record element; lr may be null (then unit and value are judged by the reference alone)
static void check_record(const El &e, const Rec &r, mbus_data_record *lr, size_t id, long frame, const std::string &stamp) {
    std::string w = fmt("record %zu (%s)", id, rec_str(r).c_str()); const char *wc = w.c_str();
    VF_CHECK(e.name == "DataRecord", "%s: element is %s", wc, e.name.c_str());
    VF_CHECK(e.attr.size() == (frame >= 0 ? 2u : 1u) && e.attr[0].first == "id" && e.attr[0].second == fmt("%zu", id), "%s: identified as %s", wc, e.attr.empty() ? "(nothing)" : e.attr[0].second.c_str());
    if (frame >= 0) VF_CHECK(e.attr[1].first == "frame" && e.attr[1].second == fmt("%ld", frame), "%s: frame is %s, should be %ld", wc, e.attr[1].second.c_str(), frame);
    bool st = !stamp.empty();
    Bits b = ref_bits(r);
    std::string names = r.special ? "Function Value" : !r.dife.empty() ? "Function StorageNumber Tariff Device Unit Value" : "Function StorageNumber Unit Value";
    if (st) names += " Timestamp";
    VF_CHECK(e.names() == names, "%s: elements are %s", wc, e.names().c_str());
    if (st) check_stamp(e, stamp, wc);
    std::string fn = r.special ? (r.dif == 0x0F ? "Manufacturer specific" : "More records follow") : func_text(r.dif);
    VF_CHECK(e.of("Function") == fn, "%s: function is %s", wc, esc(e.of("Function")).c_str());
    if (!r.special) {
        VF_CHECK(e.of("StorageNumber") == fmt("%ld", b.storage), "%s: storage number is %s, should be %ld", wc, esc(e.of("StorageNumber")).c_str(), b.storage);
        if (!r.dife.empty()) {
            VF_CHECK(e.of("Tariff") == fmt("%ld", b.tariff), "%s: tariff is %s, should be %ld", wc, esc(e.of("Tariff")).c_str(), b.tariff);
            VF_CHECK(e.of("Device") == fmt("%d", b.device), "%s: device is %s, should be %d", wc, esc(e.of("Device")).c_str(), b.device);
        }
        if (lr) { std::string u = mbus_data_record_unit(lr); VF_CHECK(e.of("Unit") == shown(u), "%s: unit is %s, the record's is %s", wc, esc(e.of("Unit")).c_str(), esc(u).c_str()); }
        std::string u = ref_unit(r);
        if (u != "?") VF_CHECK(e.of("Unit") == shown(u), "%s: unit is %s, should be %s", wc, esc(e.of("Unit")).c_str(), esc(u).c_str());
    }
    if (lr) { std::string v = mbus_data_record_value(lr); VF_CHECK(e.of("Value") == shown(v), "%s: value is %s, the record's is %s", wc, esc(e.of("Value")).c_str(), esc(v).c_str()); }
    std::string v;
    if (ref_value(r, v)) VF_CHECK(e.of("Value") == shown(v), "%s: value is %s, should be %s", wc, esc(e.of("Value")).c_str(), esc(v).c_str());
}
static Bytes fixed_ud(Gen &g) { Bytes b(16); for (auto &x : b) x = g.ibyte(); if (g.coin()) for (size_t i = 8; i < 16; i++) b[i] = (uint8_t)(g.below(10) << 4 | g.below(10)); return b; }
static std::string ref_escape(const std::string &s) {
    std::string o;
    for (unsigned char c : s) switch (c) { case '&': o += "&amp;"; break; case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '"': o += "&quot;"; break; default: o += c < 32 || c == 127 ? ' ' : (char)c; }
    return o;
}
VF_PROPERTY(P16, 50000, 1200000, "variable replies (generated records, telegrams filled with minimal records, texts of escaped characters up to the limits, manufacturer data), several decoded lists joined into one, fixed replies, records with generated timestamps, strings of every relation to the escaping buffer; documents parsed by a strict XML parser and compared element by element with the generated telegram and the record accessors; non-trivial: at least one record or a text that needs escaping; distinct by user data") {
    switch (g.weighted({8, 2, 2, 2})) {
    case 1: { // fixed
        Bytes ud = fixed_ud(g); note("fixed reply %s", hex(ud).c_str()); label("fixed");
        mbus_frame f; VF_CHECK(frame_from(&f, rsp_tel(0x73, ud)), "valid telegram rejected");
        mbus_frame_data d; memset(&d, 0, sizeof d); VF_CHECK(mbus_frame_data_parse(&f, &d) == 0, "not decoded: %s", mbus_error_str());
        char *p[3] = {mbus_frame_data_xml(&d), mbus_data_fixed_xml(&d.data_fix), mbus_frame_xml(&f)}; VF_CHECK(p[0] && p[1] && p[2], "no document");
        std::string a = take(p[0]), b = take(p[1]), c = take(p[2]); VF_CHECK(a == b && a == c, "the documents of the same reply differ");
        El r = doc_of(a, "fixed document"); VF_CHECK(r.names() == "SlaveInformation DataRecord DataRecord", "fixed document has the elements %s", r.names().c_str());
        const El &s = r.kids[0]; VF_CHECK(s.names() == "Id Medium AccessNumber Status", "slave information has the elements %s", s.names().c_str());
        VF_CHECK(s.of("Id") == fmt("%llX", (unsigned long long)ref_le(ud.data(), 4)), "Id is %s", s.of("Id").c_str());
        VF_CHECK(s.of("Medium") == mbus_data_fixed_medium(&d.data_fix), "medium is %s", s.of("Medium").c_str());
        VF_CHECK(s.of("AccessNumber") == fmt("%d", ud[4]) && s.of("Status") == fmt("%.2X", ud[5]), "access number %s, status %s", s.of("AccessNumber").c_str(), s.of("Status").c_str());
        for (int k = 0; k < 2; k++) {
            const El &e = r.kids[1 + k]; VF_CHECK(e.names() == "Function Unit Value" && e.attr.size() == 1 && e.attr[0].first == "id" && e.attr[0].second == fmt("%d", k), "counter %d has the elements %s", k, e.names().c_str());
            VF_CHECK(e.of("Function") == mbus_data_fixed_function(ud[5]), "function is %s", e.of("Function").c_str());
            VF_CHECK(e.of("Unit") == mbus_data_fixed_unit(ud[6 + k]), "unit is %s", e.of("Unit").c_str());
            std::string v = (ud[5] & 0x80) ? fmt("%d", (int)ref_int(&ud[8 + 4 * k], 4)) : fmt("%llX", (unsigned long long)ref_le(&ud[8 + 4 * k], 4));
            VF_CHECK(e.of("Value") == v, "value of counter %d is %s, should be %s", k, e.of("Value").c_str(), v.c_str());
        }
        nontrivial(hash_bytes(ud.data(), ud.size(), 3)); return; }
    case 2: { // escaping
        Bytes t = gen_text(g, g.size(0, 200)); for (auto &c : t) if (!c) c = 1;
        std::string s(t.begin(), t.end()), full = ref_escape(s); size_t max = g.coin() ? 1 + g.below(full.size() + 20) : full.size() + g.below(12) + 1;
        note("escape %s into %zu bytes", esc(s).c_str(), max); label("escaping");
        t.push_back(0); Exact src(t), dst(Bytes(max, 0xEE));
        VF_CHECK(mbus_str_xml_encode(dst.p, src.p, max) == 0, "mbus_str_xml_encode fails");
        VF_CHECK(memchr(dst.p, 0, max), "the result has no end");
        std::string got = (char *)dst.p; bool prefix = false;
        for (size_t k = 0; k <= s.size() && !prefix; k++) prefix = ref_escape(s.substr(0, k)) == got;
        VF_CHECK(prefix, "the result is %s", esc(got).c_str());
        if (full.size() + 7 <= max) VF_CHECK(got == full, "the result is cut: %s", esc(got).c_str());
        VF_CHECK(mbus_str_xml_encode(NULL, src.p, max) != 0, "encoding into NULL succeeds");
        VF_CHECK(mbus_str_xml_encode(dst.p, NULL, max) != 0 && !dst.p[0], "encoding NULL succeeds or leaves text behind");
        if (full != s) nontrivial(hash_bytes(s.data(), s.size(), max)); return; }
    case 3: { // several lists joined: documents larger than any single telegram's
        size_t n = g.chance(1, 15) ? (size_t)g.range(5, 20) : 2 + g.below(3); std::vector<Rec> recs; mbus_frame_data d0; memset(&d0, 0, sizeof d0); Bytes h; mbus_data_record *tail = NULL; std::string all;
        for (size_t k = 0; k < n; k++) {
            VarGen x = gen_doc(g); mbus_frame f; VF_CHECK(frame_from(&f, rsp_tel(0x72, x.ud)), "valid telegram rejected"); all += (k ? " + " : "") + hex(x.ud);
            mbus_frame_data d; memset(&d, 0, sizeof d); VF_CHECK(mbus_frame_data_parse(&f, &d) == 0, "not decoded: %s", mbus_error_str());
            if (!k) { d0 = d; h = x.v.header; tail = d0.data_var.record; } else if (!d0.data_var.record) d0.data_var.record = tail = d.data_var.record; else if (d.data_var.record) tail->next = d.data_var.record;
            while (tail && tail->next) tail = (mbus_data_record *)tail->next;
            recs.insert(recs.end(), x.v.recs.begin(), x.v.recs.end());
        }
        note("joined lists of %s", all.c_str()); label("joined lists");
        size_t k = 0; std::vector<std::string> st;
        for (mbus_data_record *l = d0.data_var.record; l; l = (mbus_data_record *)l->next, k++) { l->timestamp = g.coin() ? 0 : (time_t)g.below(4102444800ULL); st.push_back(l->timestamp > 0 ? utc(l->timestamp) : ""); }
        VF_CHECK(k == recs.size(), "%zu records decoded of %zu", k, recs.size());
        char *p = mbus_data_variable_xml(&d0.data_var); VF_CHECK(p, "no document");
        El r = doc_of(take(p), "document"); VF_CHECK(r.kids.size() == recs.size() + 1, "the document has %zu elements, should be %zu", r.kids.size(), recs.size() + 1);
        check_header(r.kids[0], h, "document");
        mbus_data_record *l = d0.data_var.record;
        for (k = 0; k < recs.size(); k++, l = (mbus_data_record *)l->next) check_record(r.kids[1 + k], recs[k], l, k, -1, st[k]);
        free_data(&d0);
        if (k) nontrivial(hash_bytes(all.data(), all.size())); return; }
    default: { // one telegram
        VarGen x = gen_doc(g); note("user data %s", hex(x.ud).c_str());
        mbus_frame f; VF_CHECK(frame_from(&f, rsp_tel(0x72, x.ud)), "valid telegram rejected");
        f.timestamp = gen_stamp(g); std::string stamp = f.timestamp ? utc(f.timestamp) : "";
        mbus_frame_data d; memset(&d, 0, sizeof d);
        VF_CHECK(mbus_frame_data_parse(&f, &d) == 0, "not decoded: %s", mbus_error_str());
        char *p[3] = {mbus_frame_data_xml(&d), mbus_data_variable_xml(&d.data_var), mbus_frame_xml(&f)}; VF_CHECK(p[0] && p[1] && p[2], "no document");
        std::string a = take(p[0]), b = take(p[1]), c = take(p[2]); VF_CHECK(a == b, "mbus_frame_data_xml and mbus_data_variable_xml differ");
        for (int m = 0; m < 2; m++) {
            El r = doc_of(m ? c : a, m ? "document of the frame" : "document");
            VF_CHECK(r.kids.size() == x.v.recs.size() + 1 && r.kids[0].name == "SlaveInformation", "the document has %zu elements, should be %zu", r.kids.size(), x.v.recs.size() + 1);
            check_header(r.kids[0], x.v.header, "document");
            mbus_data_record *l = d.data_var.record;
            for (size_t k = 0; k < x.v.recs.size(); k++, l = (mbus_data_record *)l->next) check_record(r.kids[1 + k], x.v.recs[k], l, k, -1, stamp);
        }
        label(x.v.recs.empty() ? "no record" : a.size() > 8192 ? "document above 8 kB" : "document"); if (a.size() > 32768) label("document above 32 kB");
        if (!x.v.recs.empty()) nontrivial(hash_bytes(x.ud.data(), x.ud.size()));
        free_data(&d); }
    }
}

// ------------------------------------------------------------------------------------------ P17
static void check_norm(const El &e, const Rec &r, mbus_data_record *l, size_t id) {
    std::string w = fmt("record %zu (%s)", id, rec_str(r).c_str()); const char *wc = w.c_str();
    VF_CHECK(e.name == "DataRecord" && e.attr.size() == 1 && e.attr[0].first == "id" && e.attr[0].second == fmt("%zu", id), "%s: element %s identified as %s", wc, e.name.c_str(), e.attr.empty() ? "(nothing)" : e.attr[0].second.c_str());
    mbus_record *n = mbus_parse_variable_record(l);
    Norm want = ref_norm(r); double num = 0; std::string str; int kind = ref_decoded(r, num, str);
    if (!n) {
        label("record without normalization");
        VF_CHECK(e.kids.empty() && e.text.empty(), "%s cannot be normalized but has the elements %s", wc, e.names().c_str());
        VF_CHECK((r.dif & 15) == 8 || (!r.special && !want.known) || want.reserved, "%s is not normalized", wc);
        return;
    }
    Bits b = ref_bits(r);
    std::string names = n->tariff >= 0 ? "Function StorageNumber Tariff Device Unit Quantity Value" : "Function StorageNumber Unit Quantity Value";
    bool num_l = n->is_numeric; double val = num_l ? n->value.real_val : 0; std::string sv = num_l ? "" : n->value.str_val.value ? n->value.str_val.value : "", u = n->unit ? n->unit : "", q = n->quantity ? n->quantity : "", fn = n->function_medium ? n->function_medium : "";
    long st = n->storage_number, ta = n->tariff; int dv = n->device;
    mbus_record_free(n);
    VF_CHECK(e.names() == names, "%s: elements are %s", wc, e.names().c_str());
    VF_CHECK(e.of("Function") == shown(fn) && fn == (r.special ? (r.dif == 0x0F ? "Manufacturer specific" : "More records follow") : func_text(r.dif)), "%s: function is %s, the record's is %s", wc, esc(e.of("Function")).c_str(), esc(fn).c_str());
    VF_CHECK(e.of("StorageNumber") == fmt("%ld", st), "%s: storage number is %s, the record's is %ld", wc, esc(e.of("StorageNumber")).c_str(), st);
    if (!r.special) {
        VF_CHECK(st == b.storage, "%s: storage number is %ld, should be %ld", wc, st, b.storage);
        VF_CHECK((ta >= 0) == !r.dife.empty(), "%s: tariff is %ld", wc, ta);
        if (ta >= 0) VF_CHECK(ta == b.tariff && dv == b.device && e.of("Tariff") == fmt("%ld", ta) && e.of("Device") == fmt("%d", dv), "%s: tariff %s, device %s, should be %ld, %d", wc, e.of("Tariff").c_str(), e.of("Device").c_str(), b.tariff, b.device);
        if (want.known && !want.reserved) VF_CHECK(e.of("Unit") == shown(want.unit) && e.of("Quantity") == shown(want.quantity), "%s: unit %s, quantity %s, should be %s, %s", wc, esc(e.of("Unit")).c_str(), esc(e.of("Quantity")).c_str(), esc(want.unit).c_str(), esc(want.quantity).c_str());
    }
    VF_CHECK(e.of("Unit") == shown(u) && e.of("Quantity") == shown(q), "%s: unit %s, quantity %s, the record's are %s, %s", wc, esc(e.of("Unit")).c_str(), esc(e.of("Quantity")).c_str(), esc(u).c_str(), esc(q).c_str());
    if (num_l) {
        VF_CHECK(e.of("Value") == fmt("%f", val), "%s: value is %s, the record's is %f", wc, esc(e.of("Value")).c_str(), val);
        label("numeric record");
    } else {
        VF_CHECK(e.of("Value") == shown(sv), "%s: value is %s, the record's is %s", wc, esc(e.of("Value")).c_str(), esc(sv).c_str());
        if (kind == 2) VF_CHECK(e.of("Value") == shown(str), "%s: value is %s, should be %s", wc, esc(e.of("Value")).c_str(), esc(str).c_str());
        label("text record");
    }
    if (kind) VF_CHECK(num_l == (kind == 1), "%s is %snumeric", wc, num_l ? "" : "not ");
}
VF_PROPERTY(P17, 60000, 2000000, "variable replies as for P16 (generated records, full telegrams, long escaped texts), fixed replies and application errors; normalized documents parsed by a strict XML parser and compared element by element with the normalization of each record and with the generated telegram; non-trivial: at least one record; distinct by user data") {
    int k = (int)g.weighted({10, 1, 1});
    if (k) { // fixed structure and errors: the same document as the plain one
        Bytes ud = k == 1 ? fixed_ud(g) : g.coin() ? Bytes() : Bytes{(uint8_t)g.below(14)};
        note("%s %s", k == 1 ? "fixed reply" : "application error", hex(ud).c_str()); label(k == 1 ? "fixed" : "application error");
        mbus_frame f; VF_CHECK(frame_from(&f, rsp_tel(k == 1 ? 0x73 : 0x70, ud)), "valid telegram rejected");
        mbus_frame_data d; memset(&d, 0, sizeof d); VF_CHECK(mbus_frame_data_parse(&f, &d) == 0, "not decoded: %s", mbus_error_str());
        char *p = mbus_frame_data_xml_normalized(&d); VF_CHECK(p, "no normalized document");
        El r = doc_of(take(p), "normalized document");
        if (k == 1) VF_CHECK(r.names() == "SlaveInformation DataRecord DataRecord", "normalized fixed document has the elements %s", r.names().c_str());
        else VF_CHECK(r.names() == "SlaveInformation" && r.kids[0].names() == "Error" && r.kids[0].kids[0].text == error_text(ud.empty() ? 0 : ud[0]), "normalized error document has the elements %s", r.names().c_str());
        nontrivial(hash_bytes(ud.data(), ud.size(), k)); return;
    }
    VarGen x = gen_doc(g); note("user data %s", hex(x.ud).c_str());
    mbus_frame f; VF_CHECK(frame_from(&f, rsp_tel(0x72, x.ud)), "valid telegram rejected");
    mbus_frame_data d; memset(&d, 0, sizeof d); VF_CHECK(mbus_frame_data_parse(&f, &d) == 0, "not decoded: %s", mbus_error_str());
    if (g.chance(1, 10)) { // records of further telegrams appended: documents larger than any single telegram's
        label("joined lists"); mbus_data_record *tail = d.data_var.record; for (size_t n = g.size(1, 12); n--;) {
            VarGen y = gen_doc(g); note("joined with %s", hex(y.ud).c_str()); VF_CHECK(frame_from(&f, rsp_tel(0x72, y.ud)), "valid telegram rejected");
            mbus_frame_data e; memset(&e, 0, sizeof e); VF_CHECK(mbus_frame_data_parse(&f, &e) == 0, "not decoded: %s", mbus_error_str());
            while (tail && tail->next) tail = (mbus_data_record *)tail->next;
            if (tail) tail->next = e.data_var.record; else d.data_var.record = tail = e.data_var.record;
            x.v.recs.insert(x.v.recs.end(), y.v.recs.begin(), y.v.recs.end());
        }
    }
    char *p[2] = {mbus_frame_data_xml_normalized(&d), mbus_data_variable_xml_normalized(&d.data_var)}; VF_CHECK(p[0] && p[1], "no normalized document");
    std::string a = take(p[0]), b = take(p[1]); VF_CHECK(a == b, "mbus_frame_data_xml_normalized and mbus_data_variable_xml_normalized differ");
    El r = doc_of(a, "normalized document");
    VF_CHECK(r.kids.size() == x.v.recs.size() + 1 && r.kids[0].name == "SlaveInformation", "the document has %zu elements, should be %zu", r.kids.size(), x.v.recs.size() + 1);
    check_header(r.kids[0], x.v.header, "normalized document");
    mbus_data_record *l = d.data_var.record;
    for (size_t i = 0; i < x.v.recs.size(); i++, l = (mbus_data_record *)l->next) check_norm(r.kids[1 + i], x.v.recs[i], l, i);
    label(x.v.recs.empty() ? "no record" : a.size() > 8192 ? "document above 8 kB" : "document");
    if (!x.v.recs.empty()) nontrivial(hash_bytes(x.ud.data(), x.ud.size()));
    free_data(&d);
}

// ------------------------------------------------------------------------------------------ P18
VF_PROPERTY(P18, 60000, 2000000, "chains of 1-12 (rarely up to 45) telegrams: variable (generated, full, long texts), malformed, fixed, error, control, short and acknowledgement telegrams at any position; the document is parsed by a strict XML parser and compared element by element with the generated telegrams; non-trivial: two and more telegrams with a record, or an undecodable one after the first; distinct by the telegrams") {
    size_t n = g.chance(1, 4) ? 1 : 2 + g.size(0, 10); mbus_frame *head = NULL, *tail = NULL; std::string all; bool ok = true; int first = 0;
    bool lng = g.chance(1, 50); if (lng) n = (size_t)g.range(13, 45); bool clean = lng && g.chance(3, 4);
    struct Part { int kind; VarData v; std::string stamp; }; std::vector<Part> parts; uint64_t h = n;
    for (size_t i = 0; i < n; i++) {
        Part pt; Tel t; 
        switch (clean ? 0 : g.weighted({lng ? 200u : 14u, 1, 1, 1, 1, 1})) {
        case 0: { VarGen x = gen_doc(g, g.chance(1, 3) ? 252 : 60); pt.kind = 3; pt.v = x.v; t = rsp_tel(0x72, x.ud); break; }
        case 1: { VarGen x = gen_doc(g, 80); Bytes ud = x.ud; ud.resize(g.below(ud.size() + 1)); pt.kind = ref_variable(ud, pt.v) ? 3 : 0; t = rsp_tel(0x72, ud); break; }
        case 2: pt.kind = 2; t = rsp_tel(0x73, fixed_ud(g)); break;
        case 3: pt.kind = 1; t = rsp_tel(0x70, g.coin() ? Bytes() : Bytes{(uint8_t)g.below(12)}); break;
        case 4: pt.kind = 0; t = gen_tel(g, g.below(3)); break;
        default: { VarGen x = gen_variable(g, 40, RecOpt(), 2); pt.kind = 0; t = rsp_tel(g.coin() ? 0x72 : 0x51, x.ud, 1, 0x53); }
        }
        if (t.kind == Tel::CONTROL && t.ci == 0x70 && !(t.c & 0x40)) pt.kind = 1;
        if (t.kind == Tel::ACK || t.kind == Tel::SHORT || (t.c & 0x40)) pt.kind = 0;
        mbus_frame *f = mbus_frame_new(MBUS_FRAME_TYPE_ANY); VF_CHECK(f, "no frame");
        Bytes b = tel_bytes(t); VF_CHECK(lib_parse(f, b) == 0, "valid telegram rejected"); all += (i ? " | " : "") + hex(b); h = hash_bytes(b.data(), b.size(), h);
        f->timestamp = gen_stamp(g); pt.stamp = f->timestamp ? utc(f->timestamp) : "";
        f->next = NULL; if (tail) tail->next = f; else head = f; tail = f;
        if (i == 0) first = pt.kind; if (pt.kind == 0) ok = false; parts.push_back(pt);
    }
    note("chain of %zu: %s", n, all.c_str());
    size_t total = 0, with = 0; for (auto &p : parts) { total += p.v.recs.size(); if (p.kind == 3 && !p.v.recs.empty()) with++; }
    long before = Heap::live();
    forget_error();
    char *p = mbus_frame_xml(head);
    if (first == 1 || first == 2) {
        label(first == 1 ? "error first" : "fixed first");
        VF_CHECK(p, "no document"); El r = doc_of(take(p), "document");
        VF_CHECK(r.names() == (first == 1 ? "SlaveInformation" : "SlaveInformation DataRecord DataRecord"), "the document has the elements %s", r.names().c_str());
    } else if (!ok) {
        label(first == 0 ? "undecodable first" : "undecodable later");
        if (first) nontrivial(h);
        VF_CHECK(!p, "a document is generated: ...%s", esc(std::string(p).substr(std::string(p).size() > 200 ? std::string(p).size() - 200 : 0)).c_str());
        VF_CHECK(error_given(), "the failure has no error message");
    } else {
        label(n == 1 ? "single telegram" : n < 4 ? "2-3 telegrams" : "4 and more telegrams");
        VF_CHECK(p, "no document: %s", mbus_error_str());
        std::string s = take(p); if (s.size() > 65536) label("document above 64 kB");
        El r = doc_of(s, "document"); VF_CHECK(r.kids.size() == total + 1 && r.kids[0].name == "SlaveInformation", "the document has %zu elements, should be %zu", r.kids.size(), total + 1);
        check_header(r.kids[0], parts[0].v.header, "document");
        size_t id = 0;
        for (size_t i = 0; i < n; i++) for (auto &rec : parts[i].v.recs) {
            check_record(r.kids[1 + id], rec, NULL, id, n > 1 ? (long)i : -1, parts[i].stamp);
            id++;
        }
        if (with >= 2) nontrivial(h);
    }
    VF_CHECK(Heap::live() == before, "%ld blocks are left", Heap::live() - before);
    while (head) { mbus_frame *nx = (mbus_frame *)head->next; head->next = NULL; mbus_frame_free(head); head = nx; }
}
