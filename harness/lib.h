// Glue between the harness and the library under test, and independent reference code:
// telegram builder, reference telegram classifier, variable-data generator and reference decoder.
#pragma once
#include "vf.h"
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <time.h>
extern "C" {
#include "mbus/mbus.h"
}
using namespace vf;

// ------------------------------------------------------------------ telegrams
struct Tel {                      // abstract telegram
    enum Kind { ACK, SHORT, CONTROL, LONG } kind = ACK;
    uint8_t c = 0, a = 0, ci = 0;
    Bytes ud;
};
// the library's error message: forgotten before a call, and whether the call left one
static inline void forget_error() { mbus_error_str_set((char *)"~none~"); }
static inline bool error_given() { const char *e = mbus_error_str(); return e && *e && strcmp(e, "~none~") && strcmp(e, "no errors"); }
static const uint8_t SHORT_C[] = {0x40, 0x5A, 0x7A, 0x5B, 0x7B};
static const uint8_t LONG_C[] = {0x53, 0x73, 0x08, 0x18, 0x28, 0x38};
inline bool in(uint8_t x, const uint8_t *a, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] == x) return true; return false; }

inline Bytes tel_bytes(const Tel &t) {
    Bytes b; unsigned s = 0;
    switch (t.kind) {
    case Tel::ACK: return Bytes{0xE5};
    case Tel::SHORT: return Bytes{0x10, t.c, t.a, (uint8_t)(t.c + t.a), 0x16};
    default: break;
    }
    uint8_t L = (uint8_t)(3 + t.ud.size());
    b = {0x68, L, L, 0x68, t.c, t.a, t.ci};
    s = t.c + t.a + t.ci;
    for (uint8_t x : t.ud) { b.push_back(x); s += x; }
    b.push_back((uint8_t)s); b.push_back(0x16);
    return b;
}
inline Tel gen_tel(Gen &g, int kind = -1) {
    Tel t;
    t.kind = kind >= 0 ? (Tel::Kind)kind : (Tel::Kind)g.weighted({1, 3, 2, 8});
    if (t.kind == Tel::ACK) return t;
    t.a = g.byte();
    if (t.kind == Tel::SHORT) { t.c = g.pick(SHORT_C); return t; }
    t.c = g.pick(LONG_C); t.ci = g.byte();
    if (t.kind == Tel::LONG) { t.ud = g.bytes(g.size(1, 252)); }
    return t;
}

// Reference classification of a byte buffer: 0 complete, >0 number of missing bytes known at this point, <0 invalid
struct RefParse { int result; Tel t; uint8_t sum = 0; };
inline RefParse ref_parse(const uint8_t *d, size_t n) {
    RefParse r; r.result = -1;
    if (n == 0) return r;
    if (d[0] == 0xE5) { r.result = 0; r.t.kind = Tel::ACK; return r; }
    if (d[0] == 0x10) {
        if (n < 5) { r.result = (int)(5 - n); return r; }
        if (n > 5) return r;
        if (d[4] != 0x16 || (uint8_t)(d[1] + d[2]) != d[3] || !in(d[1], SHORT_C, sizeof SHORT_C)) return r;
        r.result = 0; r.t.kind = Tel::SHORT; r.t.c = d[1]; r.t.a = d[2]; r.sum = d[3];
        return r;
    }
    if (d[0] == 0x68) {
        if (n < 3) { r.result = (int)(3 - n); return r; }
        unsigned L = d[1];
        if (L < 3 || d[2] != L) return r;
        if (n < L + 6) { r.result = (int)(L + 6 - n); return r; }
        if (n > L + 6) return r;
        unsigned s = 0; for (unsigned i = 4; i < 4 + L; i++) s += d[i];
        if (d[3] != 0x68 || d[n - 1] != 0x16 || (uint8_t)s != d[n - 2] || !in(d[4], LONG_C, sizeof LONG_C)) return r;
        r.result = 0; r.t.kind = L == 3 ? Tel::CONTROL : Tel::LONG; r.t.c = d[4]; r.t.a = d[5]; r.t.ci = d[6];
        r.t.ud.assign(d + 7, d + 4 + L); r.sum = (uint8_t)s;
        return r;
    }
    return r;
}
// parse exactly-sized heap copies so that any over-read is visible
struct Exact { uint8_t *p; size_t n; Exact(const Bytes &b) : p((uint8_t *)malloc(b.size() ? b.size() : 1)), n(b.size()) { if (n) memcpy(p, b.data(), n); } ~Exact() { free(p); } };

inline int lib_parse(mbus_frame *f, const Bytes &b) { Exact e(b); return mbus_parse(f, e.p, e.n); }

// frame as the parser would fill it (through the parser itself)
inline bool frame_from(mbus_frame *f, const Tel &t) {
    memset(f, 0, sizeof *f);
    return lib_parse(f, tel_bytes(t)) == 0;
}
inline Tel rsp_tel(uint8_t ci, const Bytes &ud, uint8_t a = 1, uint8_t c = 0x08) {
    Tel t; t.kind = ud.empty() ? Tel::CONTROL : Tel::LONG; t.c = c; t.a = a; t.ci = ci; t.ud = ud; return t;
}

// ------------------------------------------------------------------ variable data structure
struct Rec {                      // abstract data record
    bool special = false;         // DIF 0F / 1F: rest of the data
    uint8_t dif = 0; Bytes dife;
    uint8_t vif = 0; bool custom = false; Bytes text /* as transmitted */; Bytes vife;
    Bytes data;                   // includes the LVAR byte
};
struct VarData { Bytes header; std::vector<Rec> recs; bool more = false; };

inline int lvar_len(uint8_t b) { // bytes after the LVAR byte
    if (b <= 0xBF) return b;
    if (b <= 0xC9) return (b - 0xC0) * 2;
    if (b <= 0xCF) return 0;
    if (b <= 0xD9) return (b - 0xD0) * 2;
    if (b <= 0xDF) return 0;
    if (b <= 0xEF) return b - 0xE0;
    if (b <= 0xF4) return (b - 0xEC) * 4;
    if (b == 0xF5) return 48;
    if (b == 0xF6) return 64;
    return 0;
}
inline int fixed_len(uint8_t dif) {
    static const int t[16] = {0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, -1, 6, 8};
    return t[dif & 15];
}
// Reference decoder. false: malformed.
inline bool ref_variable(const Bytes &d, VarData &v) {
    v = VarData();
    if (d.size() < 12) return false;
    v.header.assign(d.begin(), d.begin() + 12);
    size_t i = 12, n = d.size();
    while (i < n) {
        if (d[i] == 0x2F) { i++; continue; }
        Rec r; r.dif = d[i++];
        if (r.dif == 0x0F || r.dif == 0x1F) {
            r.special = true; if (r.dif == 0x1F) v.more = true;
            r.data.assign(d.begin() + i, d.end()); i = n;
            v.recs.push_back(r);
            continue;
        }
        uint8_t b = r.dif;
        while (b & 0x80) {
            if (i >= n) return false;
            b = d[i++]; r.dife.push_back(b);
            if (r.dife.size() > 10) return false;
        }
        if (i >= n) return false;
        r.vif = d[i++];
        if ((r.vif & 0x7F) == 0x7C) {
            if (i >= n) return false;
            size_t l = d[i++];
            if (l > 128 || i + l > n) return false;
            r.custom = true; r.text.assign(d.begin() + i, d.begin() + i + l); i += l;
        }
        b = r.vif;
        while (b & 0x80) {
            if (i >= n) return false;
            b = d[i++]; r.vife.push_back(b);
            if (r.vife.size() > 10) return false;
        }
        int len = fixed_len(r.dif);
        if (len < 0) { if (i >= n) return false; len = 1 + lvar_len(d[i]); }
        if (i + (size_t)len > n) return false;
        r.data.assign(d.begin() + i, d.begin() + i + len); i += len;
        v.recs.push_back(r);
    }
    return true;
}
inline void rec_bytes(const Rec &r, Bytes &o) {
    o.push_back(r.dif);
    if (!r.special) {
        o.insert(o.end(), r.dife.begin(), r.dife.end());
        o.push_back(r.vif);
        if (r.custom) { o.push_back((uint8_t)r.text.size()); o.insert(o.end(), r.text.begin(), r.text.end()); }
        o.insert(o.end(), r.vife.begin(), r.vife.end());
    }
    o.insert(o.end(), r.data.begin(), r.data.end());
}
inline Bytes chain_bytes(Gen &g, size_t n, bool nz = false) { // n extension bytes: all but the last have bit 7
    Bytes b(n);
    for (size_t i = 0; i < n; i++) { b[i] = (uint8_t)(g.below(128) | (i + 1 < n ? 0x80 : 0)); }
    return b;
}
inline size_t gen_chain_len(Gen &g) {
    switch (g.weighted({6, 3, 2, 2, 1})) {
    case 0: return 1; case 1: return 2; case 2: return 3; case 3: return 1 + g.below(10); default: return 8 + g.below(3);
    }
}
inline Bytes gen_text(Gen &g, size_t n) {
    Bytes b(n);
    switch (g.below(5)) {
    case 0: for (auto &c : b) c = "&<>\"'"[g.below(5)]; break;                // markup
    case 1: for (auto &c : b) c = (uint8_t)g.below(256); break;               // anything, including NUL and control characters
    case 2: for (auto &c : b) c = (uint8_t)(1 + g.below(255)); break;
    default: for (auto &c : b) c = (uint8_t)(32 + g.below(95)); break;        // printable
    }
    return b;
}
static const uint8_t LVARS[] = {0x00, 0x01, 0x05, 0x10, 0xBF, 0xC0, 0xC4, 0xC9, 0xCA, 0xCF, 0xD0, 0xD3, 0xD9, 0xDA, 0xDF, 0xE0, 0xE8, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xF6, 0xF7, 0xFF};

// a data record of at most `room` bytes (false if it did not fit)
struct RecOpt { bool special = true; int nibble = -1; int vif = -1; };
inline bool gen_rec(Gen &g, size_t room, Rec &r, RecOpt o = RecOpt()) {
    r = Rec();
    if (room < 2) return false;
    if (o.special && g.chance(1, 14)) {
        r.special = true; r.dif = g.coin() ? 0x1F : 0x0F;
        r.data = g.bytes(g.size(0, room - 1));
        return true;
    }
    int nib = o.nibble >= 0 ? o.nibble : (int)g.weighted({2, 4, 5, 3, 6, 3, 4, 3, 1, 3, 3, 3, 5, 8, 3, 1});
    r.dif = (uint8_t)(nib | (g.below(4) << 4) | (g.below(4) == 3 ? 0x40 : 0));
    if (g.chance(2, 5)) { r.dif |= 0x80; r.dife = chain_bytes(g, gen_chain_len(g)); }
    if (r.dif == 0x0F || r.dif == 0x1F || r.dif == 0x2F) r.dif |= 0x40;
    static const uint8_t dates[] = {0x6C, 0x6D, 0xEC, 0xED};
    if (o.vif >= 0) r.vif = (uint8_t)o.vif;
    else switch (g.weighted({8, 4, 4, 3, 3, 2, 3})) {
        case 0: r.vif = (uint8_t)g.below(128); break;
        case 1: r.vif = (uint8_t)(g.below(128) | 0x80); break;
        case 2: r.vif = 0xFD; break;
        case 3: r.vif = 0xFB; break;
        case 4: r.vif = g.coin() ? 0xFC : 0x7C; break;
        case 5: r.vif = g.coin() ? 0xFF : 0x7F; break;
        default: r.vif = g.pick(dates); break;
    }
    if ((r.vif & 0x7F) == 0x7C) {
        r.custom = true;
        r.text = gen_text(g, g.size(0, 128));
    }
    if (r.vif & 0x80) {
        r.vife = chain_bytes(g, gen_chain_len(g));
        if (r.vif == 0xFD && g.chance(1, 4)) { r.vife[0] = (uint8_t)((r.vife[0] & 0x80) | (g.coin() ? 0x70 : 0x30)); }
        if (g.chance(1, 3)) { r.vife[r.vife.size() - 1] = (uint8_t)(0x70 | g.below(8)); }
        if (r.vif == 0xFC && g.chance(1, 2)) r.vife[0] = (uint8_t)((r.vife[0] & 0x80) | 0x70 | g.below(8));
    }
    Bytes head; rec_bytes(r, head);
    if (head.size() > room) return false;
    size_t left = room - head.size();
    int len = fixed_len(r.dif);
    if (len >= 0) {
        if ((size_t)len > left) return false;
        r.data.resize(len);
        switch (g.below(4)) {
        case 0: for (auto &b : r.data) b = g.ibyte(); break;
        case 1: for (auto &b : r.data) b = (uint8_t)(g.below(10) << 4 | g.below(10)); break;  // decimal BCD
        default: for (auto &b : r.data) b = g.byte(); break;
        }
        return true;
    }
    if (left < 1) return false;
    uint8_t lv;
    if (g.chance(1, 3)) lv = g.pick(LVARS); else lv = (uint8_t)g.size(0, 0xBF);
    if ((size_t)lvar_len(lv) + 1 > left) lv = (uint8_t)std::min<size_t>(left - 1, 0xBF);
    r.data.push_back(lv);
    Bytes t = lv <= 0xBF ? gen_text(g, lv) : g.bytes(lvar_len(lv));
    r.data.insert(r.data.end(), t.begin(), t.end());
    return true;
}
struct VarGen { VarData v; Bytes ud; bool filler = false; };
inline Bytes gen_header(Gen &g) {
    Bytes h(12);
    for (size_t i = 0; i < 12; i++) h[i] = g.ibyte();
    if (g.coin()) for (int i = 0; i < 4; i++) h[i] = (uint8_t)(g.below(10) << 4 | g.below(10));
    if (g.chance(1, 10)) { static const int from[] = {0, 4, 6, 7, 8, 9, 10, 12}; size_t k = g.below(7); uint8_t b = g.pick(std::vector<int>{0x00, 0xFF, 0x99, 0x01}); for (int i = from[k]; i < from[k + 1]; i++) h[i] = b; } // a whole field alike
    return h;
}
// whole fields of a secondary address (identification, manufacturer, version, medium, or all) of one digit
inline void alike_fields(Gen &g, std::string &m) {
    if (m.size() < 16 || !g.chance(1, 4)) return;
    static const int from[] = {0, 8, 12, 14, 0}, to[] = {8, 12, 14, 16, 16};
    for (size_t n = g.size(1, 2); n; n--) { size_t k = g.below(5); char c = "0F9f1A"[g.below(6)]; for (int i = from[k]; i < to[k]; i++) m[i] = c; }
}
// well-formed variable data, at most `cap` bytes of user data
inline VarGen gen_variable(Gen &g, size_t cap = 252, RecOpt o = RecOpt(), size_t maxrec = 60) {
    VarGen x; x.v.header = gen_header(g); x.ud = x.v.header;
    size_t want = g.weighted({1, 5}) == 0 ? 0 : g.size(1, maxrec);
    if (g.chance(1, 4)) want = maxrec;                         // fill the telegram
    int miss = 0;
    for (size_t k = 0; k < want && miss < 3; k++) {
        if (g.chance(1, 10)) { size_t n = g.size(1, 6); while (n-- && x.ud.size() < cap) { x.ud.push_back(0x2F); x.filler = true; } }
        Rec r;
        if (!gen_rec(g, cap - x.ud.size(), r, o)) { miss++; continue; }
        rec_bytes(r, x.ud); x.v.recs.push_back(r);
        if (r.special) { if (r.dif == 0x1F) x.v.more = true; break; }
    }
    return x;
}
inline std::string rec_str(const Rec &r) {
    std::string s = fmt("DIF %02X", r.dif);
    if (!r.dife.empty()) s += " DIFE " + hex(r.dife);
    if (!r.special) {
        s += fmt(" VIF %02X", r.vif);
        if (r.custom) s += fmt(" text[%zu] %s", r.text.size(), hex(r.text).c_str());
        if (!r.vife.empty()) s += " VIFE " + hex(r.vife);
    }
    return s + " data " + hex(r.data);
}
inline Bytes reversed(const Bytes &b) { return Bytes(b.rbegin(), b.rend()); }
// telegrams whose documents are large: as many records as fit, long texts that need escaping
static VarGen gen_doc(Gen &g, size_t cap = 252) {
    switch (g.weighted({5, 2, 2, 2})) {
    case 1: { // as many records as fit
        VarGen x; x.v.header = gen_header(g); x.ud = x.v.header; bool one = g.coin();
        while (x.ud.size() + (one ? 3 : 2) <= cap) { Rec r; r.dif = one ? 0x01 : 0x00; if (g.coin()) r.dif |= 0x40; r.vif = (uint8_t)g.below(0x7C); if (one) r.data = {g.byte()}; rec_bytes(r, x.ud); x.v.recs.push_back(r); }
        return x; }
    case 2: { // long texts that need escaping
        VarGen x; x.v.header = gen_header(g); x.ud = x.v.header;
        for (int k = 0; k < 4; k++) {
            Rec r; r.dif = 0x0D; r.vif = g.coin() ? 0x7C : 0xFC; r.custom = true; size_t n = g.size(0, 128); const char c = "&<>\"'a\x01\x7F\xE4"[g.below(9)];
            r.text = Bytes(n, (uint8_t)c); if (g.chance(1, 3)) r.text = gen_text(g, n);
            if (r.vif & 0x80) r.vife = {(uint8_t)(g.coin() ? 0x70 + g.below(8) : g.below(128))};
            size_t used = x.ud.size() + 4 + n + r.vife.size(); if (used + 1 > cap) break;
            size_t m = g.coin() ? cap - used : g.size(0, cap - used); if (m > 0xC0) m = 0xC0; if (used + m > cap) m = cap - used;
            if (m) m--; r.data = Bytes(m + 1, (uint8_t)"&<>\"'z"[g.below(6)]); r.data[0] = (uint8_t)m; if (used + r.data.size() > cap) break;
            rec_bytes(r, x.ud); x.v.recs.push_back(r);
        }
        return x; }
    case 3: { RecOpt o; o.special = true; return gen_variable(g, cap, o, 8); }
    default: return gen_variable(g, cap);
    }
}
