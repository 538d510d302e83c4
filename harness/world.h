// A bus with slaves that follow the link-layer rules, and faults in their answers
#pragma once
#include "sim.h"
// ------------------------------------------------------------------------------------------ the bus
struct Dev { int pa; std::string sec; std::vector<Bytes> tels; bool mute = false; bool sel = false; size_t cur = 0; int fcb = -1; };
enum Fate { FT_OK, FT_LOST, FT_DAMAGED, FT_EXTRA, FT_ERROR, FT_RESET, FT_OTHER };
struct World {
    std::vector<Dev> devs; bool echo = false; std::vector<Fate> fate; std::vector<Bytes> junk; size_t at = 0; int style = 0; // style: how colliding answers appear
    static bool match(const std::string &m, const std::string &a) { for (int i = 0; i < 16; i++) if (toupper(m[i]) != 'F' && toupper(m[i]) != a[i]) return false; return true; }
    bool one(Dev &d, const Bytes &b, Bytes &ans) {
        if (d.mute) return false;
        RefParse r = ref_parse(b.data(), b.size()); if (r.result) return false; const Tel &t = r.t; bool mine = t.a == d.pa || (t.a == 0xFD && d.sel);
        if (t.kind == Tel::SHORT && t.c == 0x40) { if (!mine) return false; if (t.a == 0xFD) d.sel = false; d.cur = 0; d.fcb = -1; ans = ACKB; return true; }
        if (t.kind == Tel::SHORT && (t.c == 0x5B || t.c == 0x7B)) {
            if (!mine || d.tels.empty()) return false;
            int f = t.c >> 5 & 1; if (d.fcb >= 0 && f != d.fcb && d.cur + 1 < d.tels.size()) d.cur++;
            d.fcb = f; ans = d.tels[d.cur]; return true;
        }
        if (t.kind == Tel::LONG && t.ci == 0x52 && t.a == 0xFD && t.ud.size() == 8) {
            std::string m = fmt("%02X%02X%02X%02X%02X%02X%02X%02X", t.ud[3], t.ud[2], t.ud[1], t.ud[0], t.ud[4], t.ud[5], t.ud[6], t.ud[7]);
            d.sel = match(m, d.sec); if (d.sel) { d.cur = 0; d.fcb = -1; ans = ACKB; } return d.sel;
        }
        if ((t.kind == Tel::LONG || t.kind == Tel::CONTROL) && (t.c == 0x53 || t.c == 0x73)) {
            if (!mine) return false;
            if (t.ci == 0x51 && t.ud.size() == 3 && t.ud[0] == 0x01 && t.ud[1] == 0x7A) d.pa = t.ud[2];
            ans = ACKB; return true;
        }
        return false;
    }
    void tx(const Bytes &b, std::deque<Item> &q) {
        if (echo) q.push_back({0, b});
        std::vector<Bytes> as; for (auto &d : devs) { Bytes a; if (one(d, b, a)) as.push_back(a); }
        if (as.empty()) return;
        Fate f = at < fate.size() ? fate[at] : FT_OK; const Bytes &j = junk[at % junk.size()]; at++;
        switch (f) {
        case FT_LOST: return;
        case FT_DAMAGED: { Bytes x = j; if (as[0].size() > 8 && at % 3) { x = as[0]; x[7 + (j.size() * 7 + at) % (x.size() - 8)] ^= (uint8_t)(1 << j.size() % 8); }   // the answer itself with a wrong bit
            q.push_back({MBUS_RECV_RESULT_INVALID, x}); return; }
        case FT_ERROR: q.push_back({MBUS_RECV_RESULT_ERROR, Bytes()}); return;
        case FT_RESET: q.push_back({MBUS_RECV_RESULT_RESET, Bytes()}); return;
        case FT_OTHER: q.push_back({0, as[0] == ACKB ? long_bytes(0x08, 7, 0x78, Bytes{1, 2, 3}) : ACKB}); return;
        default: break;
        }
        if (as.size() == 1) q.push_back({0, as[0]});
        else switch (style) {
        case 0: q.push_back({MBUS_RECV_RESULT_INVALID, j}); break;
        case 1: for (auto &a : as) q.push_back({0, a}); break;
        case 2: q.push_back({0, as[0]}); q.push_back({MBUS_RECV_RESULT_INVALID, j}); break;
        default: { bool same = true; for (auto &a : as) if (a != as[0]) same = false; if (same) q.push_back({0, as[0]}); else q.push_back({MBUS_RECV_RESULT_INVALID, j}); }
        }
        if (f == FT_EXTRA) { if (j.size() % 2) q.push_back({0, ACKB}); else q.push_back({MBUS_RECV_RESULT_INVALID, j}); }
    }
};
inline std::string sec_of(const Bytes &h) { return fmt("%02X%02X%02X%02X%02X%02X%02X%02X", h[3], h[2], h[1], h[0], h[4], h[5], h[6], h[7]); }
// ------------------------------------------------------------------------------------------ populations
inline Bytes variable_tel(Gen &g, int pa, const Bytes &hd, bool more) {
    RecOpt o; o.special = false; VarGen x = gen_variable(g, g.chance(1, 5) ? 200 : 50, o, 4);
    Bytes ud = x.v.recs.empty() ? x.v.header : x.ud; std::copy(hd.begin(), hd.end(), ud.begin());
    if (more) ud.push_back(0x1F);
    return long_bytes(g.coin() ? 0x08 : 0x18, (uint8_t)pa, 0x72, ud);
}
inline Dev gen_dev(Gen &g, int pa, bool multi, const std::vector<Dev> &others) {
    Dev d; d.pa = pa; Bytes hd = gen_header(g); std::string id;
    if (!others.empty() && g.chance(1, 2)) { id = g.pick(others).sec.substr(0, 8); size_t k = g.below(8); for (; k < 8; k++) id[k] = (char)('0' + g.below(10)); }
    else for (int k = 0; k < 8; k++) id += (char)('0' + g.below(10));
    for (int k = 0; k < 4; k++) hd[3 - k] = (uint8_t)strtol(id.substr(2 * k, 2).c_str(), NULL, 16);
    d.sec = sec_of(hd);
    size_t n = multi && g.coin() ? g.size(1, 5) : 1;
    if (multi && g.chance(1, 8)) n = (size_t)g.range(15, 20);
    for (size_t i = 0; i < n; i++) {
        bool last = i + 1 == n;
        if (last && g.chance(1, 8)) switch (g.below(4)) {
            case 0: d.tels.push_back(long_bytes(0x08, (uint8_t)pa, 0x73, g.bytes(16))); break;
            case 1: d.tels.push_back(long_bytes(0x08, (uint8_t)pa, 0x70, g.coin() ? Bytes{(uint8_t)g.below(12)} : Bytes())); break;
            case 2: d.tels.push_back(long_bytes(0x08, (uint8_t)pa, 0x72, Bytes(g.size(1, 11), 7))); break;      // undecodable
            default: d.tels.push_back(long_bytes(0x08, (uint8_t)pa, (uint8_t)g.pick(std::vector<int>{0x71, 0x74, 0x78, 0xB4}), g.bytes(g.size(1, 20)))); break;
        } else d.tels.push_back(variable_tel(g, pa, hd, !last));
    }
    return d;
}
inline void gen_junk(Gen &g, World &w) { for (int i = 0; i < 3; i++) w.junk.push_back(gen_damaged(g)); }
inline std::string dev_str(const World &w) { std::string s; for (auto &d : w.devs) { s += fmt("%d=%s", d.pa, d.sec.c_str()); for (auto &t : d.tels) s += "/" + hex(t); s += "; "; } return s; }
inline std::string fates(const World &w) { static const char *n[] = {"ok", "lost", "damaged", "extra", "error", "reset", "other"}; std::string s; for (auto f : w.fate) s += std::string(n[f]) + ","; return s; }
