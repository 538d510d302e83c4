// P07-P12, P14, P15, P19, P20, P29, P30: data records, codecs, units, normalization, addresses, hex text, history independence
#include "refrec.h"
#include "corpus.h"
#include <unistd.h>
#include <sys/wait.h>

static void free_data(mbus_frame_data *d) { if (d->data_var.record) { mbus_data_record_free(d->data_var.record); d->data_var.record = NULL; } }

// ------------------------------------------------------------------------------------------ P07
static void compare_record(const mbus_data_record *l, const Rec &r, size_t i) {
    std::string w = fmt("record %zu (%s): ", i, rec_str(r).c_str());
    VF_CHECK(l->drh.dib.dif == r.dif, "%sDIF is %02X", w.c_str(), l->drh.dib.dif);
    VF_CHECK(l->drh.dib.ndife == r.dife.size(), "%s%zu DIF extensions decoded", w.c_str(), l->drh.dib.ndife);
    VF_CHECK(!memcmp(l->drh.dib.dife, r.dife.data(), r.dife.size()), "%sDIF extensions %s", w.c_str(), hex(l->drh.dib.dife, r.dife.size()).c_str());
    if (!r.special) {
        VF_CHECK(l->drh.vib.vif == r.vif, "%sVIF is %02X", w.c_str(), l->drh.vib.vif);
        VF_CHECK(l->drh.vib.nvife == r.vife.size(), "%s%zu VIF extensions decoded", w.c_str(), l->drh.vib.nvife);
        VF_CHECK(!memcmp(l->drh.vib.vife, r.vife.data(), r.vife.size()), "%sVIF extensions %s", w.c_str(), hex(l->drh.vib.vife, r.vife.size()).c_str());
        if (r.custom) {
            VF_CHECK(ref_text(r) == (const char *)l->drh.vib.custom_vif, "%scustom unit is %s", w.c_str(), esc((const char *)l->drh.vib.custom_vif).c_str());
            if (r.vife.size() || r.data.size()) label("custom text");
        }
    }
    VF_CHECK(l->data_len == r.data.size(), "%s%zu data bytes decoded", w.c_str(), l->data_len);
    VF_CHECK(!memcmp(l->data, r.data.data(), r.data.size()), "%sdata is %s", w.c_str(), hex(l->data, l->data_len).c_str());
}
VF_PROPERTY(P07, 250000, 6000000, "reply telegrams with generated header and record sequences (all DIF/VIF classes, chains, texts, variable lengths, fillers, manufacturer data), plus truncations, byte mutations and over-long extension chains; the decoded list is compared with an independent decoder; non-trivial: at least one record or a rejection of data with a complete header; distinct by user data") {
    VarGen x = gen_variable(g);
    Bytes ud = x.ud; bool mutated = false;
    switch (g.weighted({6, 3, 2, 2})) {
    case 1: ud.resize(g.size(1, ud.size())); mutated = true; break;
    case 2: { size_t n = g.size(1, 4); while (n--) ud[g.below(ud.size())] = g.ibyte(); mutated = true; break; }
    case 3: { // chains around the limit of ten extensions
        Rec r; r.dif = 0x01; r.vif = 0x13; r.data = {7};
        size_t n = 8 + g.below(6);
        if (g.coin()) { r.dif |= 0x80; r.dife = chain_bytes(g, n); } else { r.vif |= 0x80; r.vife = chain_bytes(g, n); }
        Bytes b; rec_bytes(r, b); size_t at = 12;
        if (ud.size() + b.size() <= 252) ud.insert(ud.begin() + at, b.begin(), b.end());
        mutated = true; break; }
    default: break;
    }
    note("user data %s", hex(ud).c_str());
    VarData want; bool ok = ref_variable(ud, want);
    if (!mutated) { VF_CHECK(ok, "generator and reference decoder disagree"); VF_CHECK(want.recs.size() == x.v.recs.size(), "generator and reference decoder disagree"); }
    mbus_frame f; VF_CHECK(frame_from(&f, rsp_tel(0x72, ud, g.byte(), g.coin() ? 0x08 : 0x18)), "valid telegram rejected");
    mbus_frame_data d; memset(&d, 0, sizeof d);
    bool direct = g.chance(1, 4);
    mbus_error_reset();
    int r = direct ? mbus_data_variable_parse(&f, &d.data_var) : mbus_frame_data_parse(&f, &d);
    label(ok ? (mutated ? "altered, well-formed" : "well-formed") : "malformed");
    if (!want.recs.empty() || (!ok && ud.size() > 12)) nontrivial(hash_bytes(ud.data(), ud.size()));
    if (!ok) {
        VF_CHECK(r != 0, "malformed data is accepted (%zu records)", d.data_var.nrecords);
        free_data(&d);
        return;
    }
    VF_CHECK(r == 0, "well-formed data is rejected: %s", mbus_error_str());
    if (!direct) VF_CHECK(d.type == MBUS_DATA_TYPE_VARIABLE, "type is %d", d.type);
    VF_CHECK(!memcmp(&d.data_var.header, ud.data(), 12), "header is %s", hex(&d.data_var.header, 12).c_str());
    size_t i = 0; mbus_data_record *l = d.data_var.record;
    for (; l; l = (mbus_data_record *)l->next, i++) {
        VF_CHECK(i < want.recs.size(), "more than the %zu records sent are decoded", want.recs.size());
        compare_record(l, want.recs[i], i);
    }
    VF_CHECK(i == want.recs.size(), "%zu records sent, %zu decoded", want.recs.size(), i);
    VF_CHECK(d.data_var.nrecords == i, "%zu records in the list but the count is %zu", i, d.data_var.nrecords);
    VF_CHECK(!!d.data_var.more_records_follow == want.more, "more-records-follow is %d", d.data_var.more_records_follow);
    label(fmt("%s records%s", i == 0 ? "no" : i < 5 ? "1-4" : i < 20 ? "5-19" : "20+", want.more ? ", more follow" : ""));
    free_data(&d);
}

// ------------------------------------------------------------------------------------------ P08
static std::string elem(const std::string &x, const char *tag, size_t from = 0) {
    std::string o = std::string("<") + tag + ">", c = std::string("</") + tag + ">";
    size_t a = x.find(o, from); if (a == std::string::npos) return "(absent)";
    size_t b = x.find(c, a); if (b == std::string::npos) return "(unterminated)";
    return x.substr(a + o.size(), b - a - o.size());
}
VF_PROPERTY(P08, 480000, 20000000, "records with every DIF and 0-10 generated DIF extensions, decoded from a telegram; storage number, tariff, device and function are compared with the concatenated bit fields, in the accessors, both XML forms and the normalized record; non-trivial: at least one extension or a special DIF; distinct by the chain") {
    Rec r;
    if (g.chance(1, 12)) { r.special = true; r.dif = g.coin() ? 0x1F : 0x0F; r.data = g.bytes(g.size(0, 10)); }
    else {
        do r.dif = (uint8_t)g.below(128); while (r.dif == 0x0F || r.dif == 0x1F || r.dif == 0x2F);
        size_t n = g.weighted({1, 2, 2, 4}); n = n == 0 ? 0 : n == 1 ? 1 : n == 2 ? 2 + g.below(4) : 6 + g.below(5);
        if (n) { r.dif |= 0x80; r.dife = chain_bytes(g, n); if (g.chance(1, 4)) for (size_t i = 0; i < n; i++) r.dife[i] = (uint8_t)((i + 1 < n ? 0x80 : 0) | (g.coin() ? 0x7F : g.coin() ? 0x0F : 0)); }
        if (r.dif == 0x0F || r.dif == 0x1F || r.dif == 0x2F) r.dif |= 0x40;
        r.vif = 0x13; int len = fixed_len(r.dif);
        if (len < 0) r.data = {0}; else { r.data.resize(len); for (auto &b : r.data) b = (uint8_t)(g.below(10) << 4 | g.below(10)); }
    }
    note("%s", rec_str(r).c_str());
    OneRec o(r);
    bool readout = !r.special && (r.dif & 15) == 8;    // selection for readout: no value, hence no normalized record
    unsigned long storage = r.special ? 0 : (r.dif >> 6) & 1, tariff = 0; unsigned device = 0;
    for (size_t i = 0; i < r.dife.size(); i++) {
        storage |= (unsigned long)(r.dife[i] & 15) << (1 + 4 * i); tariff |= (unsigned long)((r.dife[i] >> 4) & 3) << (2 * i); device |= (unsigned)((r.dife[i] >> 6) & 1) << i;
    }
    long ws = (long)storage, wt = r.dife.empty() ? -1 : (long)tariff; int wd = r.dife.empty() ? -1 : (int)device;
    static const char *const fn[] = {"Instantaneous value", "Maximum value", "Minimum value", "Value during error state"};
    std::string wf = r.dif == 0x0F ? "Manufacturer specific" : r.dif == 0x1F ? "More records follow" : fn[(r.dif >> 4) & 3];
    if (!r.special) {
        VF_CHECK(mbus_data_record_storage_number(o.rec) == ws, "storage number is %ld, sent %ld", mbus_data_record_storage_number(o.rec), ws);
        VF_CHECK(mbus_data_record_tariff(o.rec) == wt, "tariff is %ld, sent %ld", mbus_data_record_tariff(o.rec), wt);
        VF_CHECK(mbus_data_record_device(o.rec) == wd, "device is %d, sent %d", mbus_data_record_device(o.rec), wd);
        VF_CHECK(wf == mbus_data_record_function(o.rec), "function is %s, sent %s", mbus_data_record_function(o.rec), wf.c_str());
    }
    mbus_record *n = mbus_parse_variable_record(o.rec);
    VF_CHECK(n || readout, "the record is not normalized");
    if (n) {
    VF_CHECK(n->storage_number == ws && n->tariff == wt && n->device == wd, "normalized record has storage number %ld, tariff %ld, device %d; sent %ld, %ld, %d", n->storage_number, n->tariff, n->device, ws, wt, wd);
    VF_CHECK(wf == n->function_medium, "normalized record has function %s, sent %s", n->function_medium, wf.c_str());
    mbus_record_free(n);
    }
    for (int k = 0; k < (readout ? 1 : 2); k++) {
        char *x = k ? mbus_frame_data_xml_normalized(&o.d) : mbus_frame_data_xml(&o.d);
        VF_CHECK(x, "no XML");
        std::string s = x; vf_release(x);
        VF_CHECK(elem(s, "Function") == wf, "Function in %s XML is %s, sent %s", k ? "normalized" : "plain", elem(s, "Function").c_str(), wf.c_str());
        if (!r.special) VF_CHECK(elem(s, "StorageNumber") == fmt("%ld", ws), "StorageNumber in %s XML is %s, sent %ld", k ? "normalized" : "plain", elem(s, "StorageNumber").c_str(), ws);
        if (!r.special) VF_CHECK(elem(s, "Tariff") == (wt < 0 ? "(absent)" : fmt("%ld", wt)), "Tariff in %s XML is %s, sent %ld", k ? "normalized" : "plain", elem(s, "Tariff").c_str(), wt);
        if (!r.special) VF_CHECK(elem(s, "Device") == (wd < 0 ? "(absent)" : fmt("%d", wd)), "Device in %s XML is %s, sent %d", k ? "normalized" : "plain", elem(s, "Device").c_str(), wd);
    }
    label(r.special ? "special" : fmt("%zu extensions", r.dife.size()));
    if (!r.dife.empty() || r.special) { Bytes h; h.push_back(r.dif); h.insert(h.end(), r.dife.begin(), r.dife.end()); nontrivial(hash_bytes(h.data(), h.size())); }
}

// ------------------------------------------------------------------------------------------ P09
VF_PROPERTY(P09, 900000, 40000000, "one generated record of every data type with boundary, decimal, random and text data under units that do and do not change its meaning, decoded from a telegram; rendered and decoded value are compared with the encoding's definition; non-trivial: the encoding defines the value (undefined BCD digits and readout selection are not judged); distinct by record") {
    Rec r; RecOpt o;
    while (!gen_rec(g, 240, r, o)) {}
    int nib = r.dif & 15;
    if (!r.special && (nib == 9 || nib == 10 || nib == 11 || nib == 12 || nib == 14) && g.chance(3, 4)) {
        for (auto &b : r.data) b = (uint8_t)(g.below(10) << 4 | g.below(10));
        switch (g.below(8)) { // the ends of the range: nines, zeros, ones, one single digit
        case 0: for (auto &b : r.data) b = 0x99; break;
        case 1: for (auto &b : r.data) b = 0x00; break;
        case 2: { for (auto &b : r.data) b = 0x00; size_t i = g.below(r.data.size()); r.data[i] = (uint8_t)(g.coin() ? 0x10 : 0x01); break; }
        default: break;
        }
        if (g.chance(1, 3)) r.data.back() |= 0xF0;
    }
    if (!r.special && nib == 5 && g.chance(1, 2)) { // plausible floats
        float f = (float)g.range(-1000000, 1000000) / (float)(1 + g.below(1000)); memcpy(r.data.data(), &f, 4);
    }
    note("%s", rec_str(r).c_str());
    OneRec one(r);
    std::string want, str; double num = 0;
    bool def = ref_value(r, want);
    if (def) {
        const char *v = mbus_data_record_value(one.rec);
        VF_CHECK(v && want == v, "value is rendered as %s, sent %s", v ? esc(v).c_str() : "(null)", esc(want).c_str());
    }
    int k = ref_decoded(r, num, str);
    double ln = -1; char *ls = NULL; int lsz = -1;
    int rc = mbus_variable_value_decode(one.rec, &ln, &ls, &lsz);
    std::string got = ls ? std::string(ls, lsz > 0 ? strnlen(ls, lsz) : 0) : "";
    bool whole = ls && (size_t)lsz == str.size() && !memcmp(ls, str.data(), str.size());
    std::string gots = ls ? ls : "(none)";
    if (ls) vf_release(ls);
    if (k == 1) {
        VF_CHECK(rc == 0 && !ls, "the number is not decoded as a number (result %d)", rc);
        VF_CHECK(ln == num || (ln != ln && num != num), "decoded number is %.17g, sent %.17g", ln, num);
    } else if (k == 2) {
        VF_CHECK(rc == 0 && ls, "the string is not decoded as a string (result %d)", rc);
        bool text = !r.special && nib == 13 && r.data[0] <= 0xBF;
        VF_CHECK(text ? whole : gots == str, "decoded string is %s (size %d), sent %s", esc(gots).c_str(), lsz, esc(str).c_str());
    } else if (nib == 8 && !r.special) VF_CHECK(rc != 0, "readout selection yields a value");
    if (k && rc == 0) { // the normalized record carries the same value
        mbus_record *n = mbus_parse_variable_record(one.rec);
        if (n) {
            VF_CHECK(!n->is_numeric == (k == 2), "the normalized record is %s", n->is_numeric ? "numeric" : "not numeric");
            if (k == 2) { const char *v = n->value.str_val.value; bool text = !r.special && nib == 13 && r.data[0] <= 0xBF; VF_CHECK(v && (text ? (size_t)n->value.str_val.size == str.size() && !memcmp(v, str.data(), str.size()) : str == v), "the normalized record says %s (size %d), sent %s", v ? esc(v).c_str() : "(null)", n->value.str_val.size, esc(str).c_str()); }
            mbus_record_free(n);
        }
    }
    label(r.special ? "special" : fmt("type %X%s%s", nib, ref_time_kind(r) ? " time" : "", def ? "" : " undefined"));
    if (def && k) { Bytes h; rec_bytes(r, h); nontrivial(hash_bytes(h.data(), h.size())); }
}

// ------------------------------------------------------------------------------------------ P10
static Rec gen_unit_rec(Gen &g) {
    Rec r; r.dif = 0x04;
    switch (g.weighted({4, 3, 3, 3})) {
    case 0: r.vif = (uint8_t)g.below(256); break;
    case 1: r.vif = 0xFD; break;
    case 2: r.vif = 0xFB; break;
    default: r.vif = g.coin() ? 0xFC : 0x7C; break;
    }
    if ((r.vif & 0x7F) == 0x7C) { r.custom = true; r.text = gen_text(g, g.size(0, 128)); }
    if (r.vif & 0x80) { r.vife = chain_bytes(g, g.chance(1, 4) ? gen_chain_len(g) : 1); if (r.vif != 0xFD && r.vif != 0xFB && g.coin()) r.vife[0] = (uint8_t)((r.vife[0] & 0x80) | 0x70 | g.below(16)); }
    return r;
}
VF_PROPERTY(P10, 750000, 30000000, "every primary VIF, every FB/FD extension code with and without its extension bit, custom texts with and without a decimal prefix, decoded from a telegram; unit text compared with the specification's tables; also the unit prefixes of all exponents; non-trivial: the code has a meaning or is rightly called unknown/reserved (all cases); distinct by value information") {
    Rec r = gen_unit_rec(g);
    r.data = Bytes(4, 1);
    note("%s", rec_str(r).c_str());
    OneRec o(r);
    std::string want = ref_unit(r);
    const char *u = mbus_data_record_unit(o.rec);
    std::string got = u ? u : "(null)";
    std::string got2 = mbus_vib_unit_lookup(&o.rec->drh.vib);
    VF_CHECK(got == got2, "mbus_data_record_unit gives %s, mbus_vib_unit_lookup %s", esc(got).c_str(), esc(got2).c_str());
    char *x = mbus_frame_data_xml(&o.d); VF_CHECK(x, "no XML"); std::string xs = x; vf_release(x);
    char enc[2048]; mbus_str_xml_encode((unsigned char *)enc, (const unsigned char *)got.c_str(), sizeof enc);
    VF_CHECK(elem(xs, "Unit") == enc, "Unit in the XML is %s, the record's unit is %s", esc(elem(xs, "Unit")).c_str(), esc(got).c_str());
    if (want == "?" && !r.custom) VF_CHECK(unit_unassigned(got), "a code without meaning is described as %s", esc(got).c_str());
    else VF_CHECK(got == want, "unit is %s, should be %s", esc(got).c_str(), esc(want).c_str());
    if (!r.custom && r.vif != 0xFB && r.vif != 0xFD && want != "?") { // the primary table, with either extension bit
        VF_CHECK(want == mbus_vif_unit_lookup(r.vif), "mbus_vif_unit_lookup(%02X) is %s", r.vif, mbus_vif_unit_lookup(r.vif));
        VF_CHECK(want == mbus_vif_unit_lookup(r.vif ^ 0x80), "the extension bit changes the unit of VIF %02X to %s", r.vif, mbus_vif_unit_lookup(r.vif ^ 0x80));
    }
    int e = (int)g.range(-12, 9);
    VF_CHECK(ref_prefix(e) == mbus_unit_prefix(e), "prefix of 10^%d is %s", e, mbus_unit_prefix(e));
    label(r.vif == 0xFB ? "FB" : r.vif == 0xFD ? "FD" : r.custom ? "custom" : want == "?" ? "primary unassigned" : "primary");
    Bytes h; rec_bytes(r, h); nontrivial(hash_bytes(h.data(), h.size()));
}

// ------------------------------------------------------------------------------------------ P11
VF_PROPERTY(P11, 1200000, 40000000, "numeric records with every primary VIF, FB/FD code, custom text and correction extension and generated raw values; normalized value, unit and quantity compared with the specification's factors (relative tolerance 1e-11); two encodings of the same physical amount must normalize alike; non-trivial: code with a meaning; distinct by value information and data") {
    Rec r = gen_unit_rec(g);
    static const uint8_t nibs[] = {1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14};
    r.dif = g.pick(nibs);
    r.data.resize(fixed_len(r.dif));
    bool bcd = (r.dif & 8) != 0;
    for (auto &b : r.data) b = bcd ? (uint8_t)(g.below(10) << 4 | g.below(10)) : g.ibyte();
    if (bcd && g.chance(1, 4)) r.data.back() |= 0xF0;
    if (r.dif == 5) { float f = (float)g.range(-1000000, 1000000) / (float)(1 + g.below(1000)); memcpy(r.data.data(), &f, 4); }
    note("%s", rec_str(r).c_str());
    Norm want = ref_norm(r);
    double raw = 0, mul, add; std::string s;
    int kind = ref_decoded(r, raw, s);
    ref_corr(r, mul, add);
    bool judge_corr = (r.vif & 0x7F) != 0x7F;  // manufacturer-specific value information: extensions have no defined meaning
    double expect = raw * want.factor * mul + add;
    OneRec o(r);
    mbus_record *n = mbus_parse_variable_record(o.rec);
    label(r.vif == 0xFB ? "FB" : r.vif == 0xFD ? "FD" : r.custom ? "custom" : want.known ? "primary" : "primary unassigned");
    if (mul != 1 || add != 0) label("correction");
    if (!want.known) {
        if (n) { bool bad = !(n->unit && unit_unassigned(n->unit)) ; std::string u = n->unit ? n->unit : "(null)"; mbus_record_free(n); VF_CHECK(!bad, "a code without meaning gets the unit %s", u.c_str()); }
    } else if (want.reserved) {
        if (n) {
            std::string u = n->unit ? n->unit : "(null)"; bool t = ref_time_kind(r) != 0; mbus_record_free(n);
            VF_CHECK(t || unit_unassigned(u), "a reserved code gets the unit %s", u.c_str());
        }
    } else {
        VF_CHECK(n, "the record is not normalized");
        std::string u = n->unit ? n->unit : "(null)", q = n->quantity ? n->quantity : "(null)"; bool num = n->is_numeric; double v = num ? n->value.real_val : 0;
        mbus_record_free(n);
        VF_CHECK(u == want.unit && q == want.quantity, "normalized unit is '%s' (%s), should be '%s' (%s)", esc(u).c_str(), esc(q).c_str(), esc(want.unit).c_str(), esc(want.quantity).c_str());
        VF_CHECK(num == (kind == 1), "the normalized record is %snumeric", num ? "" : "not ");
        if (kind == 1 && judge_corr) VF_CHECK(close_to(v, expect), "normalized value is %.17g, should be %.17g (raw %.17g, factor %g, correction x%g %+g)", v, expect, raw, want.factor, mul, add);
        nontrivial([&] { Bytes h; rec_bytes(r, h); return hash_bytes(h.data(), h.size()); }());
        // the primary entry points
        char *u1 = NULL, *q1 = NULL; double v1 = -1;
        int rc = mbus_vib_unit_normalize(&o.rec->drh.vib, raw, &u1, &v1, &q1);
        std::string us = u1 ? u1 : "(null)", qs = q1 ? q1 : "(null)"; vf_release(u1); vf_release(q1);
        VF_CHECK(rc == 0 && us == want.unit && qs == want.quantity, "mbus_vib_unit_normalize: %d '%s' (%s)", rc, esc(us).c_str(), esc(qs).c_str());
        if (judge_corr) VF_CHECK(close_to(v1, expect), "mbus_vib_unit_normalize gives %.17g, should be %.17g", v1, expect);
        if (!r.custom) {
            int code = r.vif == 0xFB ? 0x200 | (r.vife[0]) : r.vif == 0xFD ? 0x100 | (r.vife[0]) : r.vif;
            u1 = q1 = NULL; rc = mbus_vif_unit_normalize(code, raw, &u1, &v1, &q1); us = u1 ? u1 : "(null)"; qs = q1 ? q1 : "(null)"; vf_release(u1); vf_release(q1);
            VF_CHECK(rc == 0 && us == want.unit && qs == want.quantity && close_to(v1, raw * want.factor), "mbus_vif_unit_normalize(%X): %d '%s' (%s) %.17g, should be '%s' (%s) %.17g", code, rc, esc(us).c_str(), esc(qs).c_str(), v1, esc(want.unit).c_str(), esc(want.quantity).c_str(), raw * want.factor);
        }
    }
    // the same amount in another exponent of the same quantity
    if (want.known && !want.reserved && !r.custom && g.chance(1, 2)) {
        uint8_t base = (uint8_t)((r.vif & 0x7F) & ~7); bool pow8 = base == 0 || base == 8 || base == 0x10 || base == 0x18 || base == 0x28 || base == 0x30 || base == 0x38 || base == 0x40 || base == 0x48 || base == 0x50;
        if (r.vif != 0xFB && r.vif != 0xFD && pow8) {
            long long a = g.range(1, 20000); int e1 = (int)g.below(8), e2 = (int)g.below(8); if (e1 > e2) std::swap(e1, e2);
            double v2[2]; std::string un[2];
            for (int k = 0; k < 2; k++) {
                char *uu = NULL, *qq = NULL; double raw2 = k ? (double)a : (double)a * p10(e2 - e1);
                mbus_vif_unit_normalize(base | (k ? e2 : e1), raw2, &uu, &v2[k], &qq);
                un[k] = std::string(uu ? uu : "(null)") + "/" + (qq ? qq : "(null)"); vf_release(uu); vf_release(qq);
            }
            VF_CHECK(un[0] == un[1] && close_to(v2[0], v2[1]), "%lld with VIF %02X is %.17g %s, the same amount with VIF %02X is %.17g %s", a, base | e2, v2[1], un[1].c_str(), base | e1, v2[0], un[0].c_str());
            label("same amount");
        }
    }
}

// ------------------------------------------------------------------------------------------ P12
static std::string ref_fixed_unit(uint8_t b) {
    static const char *const t[64] = {"h,m,s", "D,M,Y", "Wh", "10 Wh", "100 Wh", "kWh", "10 kWh", "100 kWh", "MWh", "10 MWh", "100 MWh", "kJ", "10 kJ", "100 kJ", "MJ", "10 MJ", "100 MJ", "GJ", "10 GJ", "100 GJ",
        "W", "10 W", "100 W", "kW", "10 kW", "100 kW", "MW", "10 MW", "100 MW", "kJ/h", "10 kJ/h", "100 kJ/h", "MJ/h", "10 MJ/h", "100 MJ/h", "GJ/h", "10 GJ/h", "100 GJ/h",
        "ml", "10 ml", "100 ml", "l", "10 l", "100 l", "m^3", "10 m^3", "100 m^3", "ml/h", "10 ml/h", "100 ml/h", "l/h", "10 l/h", "100 l/h", "m^3/h", "10 m^3/h", "100 m^3/h",
        "1e-3 \xC2\xB0""C", "units for HCA", "reserved", "reserved", "reserved", "reserved", "reserved but historic", "without units"};
    return t[b & 63];
}
static bool ref_fixed_norm(uint8_t b, double &f, std::string &u, std::string &q, bool &res) {
    b &= 63; res = false;
    if (b < 2) return false;
    if (b <= 0x0A) { f = p10(b - 2); u = "Wh"; q = "Energy"; return true; }
    if (b <= 0x13) { f = p10(b - 0x0B + 3); u = "J"; q = "Energy"; return true; }
    if (b <= 0x1C) { f = p10(b - 0x14); u = "W"; q = "Power"; return true; }
    if (b <= 0x25) { f = p10(b - 0x1D + 3); u = "J/h"; q = "Power"; return true; }
    if (b <= 0x2E) { f = p10(b - 0x26 - 6); u = "m^3"; q = "Volume"; return true; }
    if (b <= 0x37) { f = p10(b - 0x2F - 6); u = "m^3/h"; q = "Volume flow"; return true; }
    if (b == 0x38) { f = 1e-3; u = DEGC; q = "Temperature"; return true; }
    if (b == 0x39) { f = 1; u = "Units for H.C.A."; q = "H.C.A."; return true; }
    if (b == 0x3E) { f = 1; u = ""; q = "historic"; return true; }
    if (b == 0x3F) { f = 1; u = ""; q = "No units"; return true; }
    res = true; f = 0; u = "Reserved"; q = "Reserved"; return true;
}
static bool decimal(const uint8_t *d) { for (int i = 0; i < 4; i++) { int h = d[i] >> 4, l = d[i] & 15; if (l > 9 || (h > 9 && !(i == 3 && h == 15))) return false; } return true; }
VF_PROPERTY(P12, 720000, 45000000, "fixed-structure replies with generated identification, status, units, media and counters (decimal, boundary and random), and replies of every other length; fields, XML and normalized counters compared with the fixed-structure tables; non-trivial: 16 bytes; distinct by content") {
    Bytes ud = g.bytes(16);
    if (g.chance(2, 3)) for (int i : {8, 9, 10, 11, 12, 13, 14, 15}) ud[i] = (uint8_t)(g.below(10) << 4 | g.below(10));
    if (g.chance(1, 6)) { ud[11] |= 0xF0; }
    if (g.chance(1, 3)) for (int i = 8; i < 16; i++) ud[i] = g.ibyte();
    if (g.chance(1, 5)) { size_t n = g.size(1, 252); ud.resize(n); if (n == 16) {} }
    note("user data %s", hex(ud).c_str());
    mbus_frame f; VF_CHECK(frame_from(&f, rsp_tel(0x73, ud)), "valid telegram rejected");
    mbus_frame_data d; memset(&d, 0, sizeof d);
    int r = mbus_frame_data_parse(&f, &d);
    if (ud.size() != 16) { VF_CHECK(r != 0, "fixed data of %zu bytes is accepted", ud.size()); label("other length"); return; }
    VF_CHECK(r == 0 && d.type == MBUS_DATA_TYPE_FIXED, "fixed data is rejected (%d): %s", r, mbus_error_str());
    mbus_data_fixed &x = d.data_fix;
    VF_CHECK(!memcmp(x.id_bcd, &ud[0], 4) && x.tx_cnt == ud[4] && x.status == ud[5] && x.cnt1_type == ud[6] && x.cnt2_type == ud[7] && !memcmp(x.cnt1_val, &ud[8], 4) && !memcmp(x.cnt2_val, &ud[12], 4), "decoded fields differ from the bytes sent");
    nontrivial(hash_bytes(ud.data(), 16));
    static const char *const med[16] = {"Other", "Oil", "Electricity", "Gas", "Heat", "Steam", "Hot Water", "Water", "H.C.A.", "Reserved", "Gas Mode 2", "Heat Mode 2", "Hot Water Mode 2", "Water Mode 2", "H.C.A. Mode 2", "Reserved"};
    std::string wm = med[(ud[6] >> 6) | ((ud[7] >> 6) << 2)];
    VF_CHECK(wm == mbus_data_fixed_medium(&x), "medium is %s, should be %s", mbus_data_fixed_medium(&x), wm.c_str());
    std::string fn = ud[5] & 0x40 ? "Stored value" : "Actual value";
    VF_CHECK(fn == mbus_data_fixed_function(ud[5]), "function is %s, should be %s", mbus_data_fixed_function(ud[5]), fn.c_str());
    std::string wx = "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>\n<MBusData>\n\n    <SlaveInformation>\n" + fmt("        <Id>%llX</Id>\n        <Medium>%s</Medium>\n        <AccessNumber>%d</AccessNumber>\n        <Status>%02X</Status>\n    </SlaveInformation>\n\n", (unsigned long long)ref_le(&ud[0], 4), wm.c_str(), ud[4], ud[5]);
    bool bcd = !(ud[5] & 0x80);
    for (int k = 0; k < 2; k++) {
        uint8_t ty = ud[6 + k]; uint8_t *c = &ud[8 + 4 * k];
        std::string wu = ref_fixed_unit(ty);
        VF_CHECK(wu == mbus_data_fixed_unit(ty), "unit of %02X is %s, should be %s", ty, mbus_data_fixed_unit(ty), wu.c_str());
        std::string val = bcd ? fmt("%llX", (unsigned long long)ref_le(c, 4)) : fmt("%lld", (long long)ref_int(c, 4));
        wx += fmt("    <DataRecord id=\"%d\">\n        <Function>%s</Function>\n        <Unit>%s</Unit>\n        <Value>%s</Value>\n    </DataRecord>\n\n", k, fn.c_str(), wu.c_str(), val.c_str());
        double fac; std::string u, q; bool res;
        bool norm = ref_fixed_norm(ty, fac, u, q, res);
        mbus_record *n = mbus_parse_fixed_record((char)ud[5], (char)ty, c);
        if (!norm) { bool no = n == NULL; if (n) mbus_record_free(n); VF_CHECK(no, "a calendar time is normalized"); label("calendar"); continue; }
        VF_CHECK(n, "counter %d is not normalized", k + 1);
        std::string gu = n->unit ? n->unit : "(null)", gq = n->quantity ? n->quantity : "(null)", gf = n->function_medium ? n->function_medium : "(null)"; double gv = n->value.real_val; bool num = n->is_numeric;
        long gst = n->storage_number, gta = n->tariff; int gde = n->device;
        mbus_record_free(n);
        VF_CHECK(gst == 0 && gta == -1 && gde == -1, "counter %d: storage number %ld, tariff %ld, device %d of a reply that has none", k + 1, gst, gta, gde);
        VF_CHECK(num, "counter %d is not a number", k + 1);
        VF_CHECK(gu == u && gq == q, "counter %d: unit '%s' (%s), should be '%s' (%s)", k + 1, gu.c_str(), gq.c_str(), u.c_str(), q.c_str());
        VF_CHECK(gf == fn, "counter %d: function %s, should be %s", k + 1, gf.c_str(), fn.c_str());
        double raw; if (bcd) { if (!decimal(c)) { label("undefined BCD"); continue; } long long v; ref_bcd(c, 4, v); raw = (double)v; } else raw = (double)ref_int(c, 4);
        if (!res) VF_CHECK(close_to(gv, raw * fac), "counter %d: value %.17g, should be %.17g", k + 1, gv, raw * fac);
        label(bcd ? "BCD" : "binary");
    }
    wx += "</MBusData>\n";
    char *px = g.coin() ? mbus_frame_data_xml(&d) : mbus_data_fixed_xml(&x); VF_CHECK(px, "no XML"); std::string gx = px; vf_release(px);
    VF_CHECK(gx == wx, "XML is\n%s\nshould be\n%s", gx.c_str(), wx.c_str());
}

// ------------------------------------------------------------------------------------------ P14
VF_PROPERTY(P14, 2400000, 100000000, "integers and byte patterns of 1-8 bytes (boundaries, negatives, random), floats, manufacturer codes and other strings, through encode and decode in both directions; non-trivial: the value fits its field or the pattern is defined; distinct by value and width") {
    switch (g.below(7)) {
    case 0: { // integer encode, decode
        size_t n = 1 + g.below(8); int v;
        switch (g.below(3)) { case 0: v = (int)g.range(-70000, 70000); break; case 1: v = (int)(uint32_t)g.below(1ULL << 32); break; default: { static const int k[] = {0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 8388607, -8388608, 2147483647, (int)-2147483648LL}; v = g.pick(k); } }
        note("integer %d in %zu bytes", v, n);
        Exact e(Bytes(n, 0xAA));
        VF_CHECK(mbus_data_int_encode(e.p, n, v) == 0, "integer is not encoded");
        for (size_t i = 0; i < n; i++) VF_CHECK(e.p[i] == (uint8_t)(((long long)v) >> (8 * i)), "integer %d is encoded as %s", v, hex(e.p, n).c_str());
        bool fits = n >= 4 || (v >= -(1LL << (8 * n - 1)) && v < (1LL << (8 * n - 1)));
        if (fits) {
            long lv; long long llv; int iv;
            VF_CHECK(mbus_data_long_long_decode(e.p, n, &llv) == 0 && llv == v, "%d decodes to %lld (long long)", v, llv);
            VF_CHECK(mbus_data_long_decode(e.p, n, &lv) == 0 && lv == v, "%d decodes to %ld (long)", v, lv);
            if (n <= 4) VF_CHECK(mbus_data_int_decode(e.p, n, &iv) == 0 && iv == v, "%d decodes to %d (int)", v, iv);
            nontrivial(hash_bytes(&v, 4, n)); label("integer");
        } else label("integer too large");
        break; }
    case 1: { // integer patterns
        size_t n = 1 + g.below(8); Bytes b(n); for (auto &x : b) x = g.ibyte(); Exact e(b);
        note("integer bytes %s", hex(b).c_str());
        long long want = (long long)ref_int(b.data(), n), llv; long lv; int iv;
        VF_CHECK(mbus_data_long_long_decode(e.p, n, &llv) == 0 && llv == want, "%s decodes to %lld, should be %lld", hex(b).c_str(), llv, want);
        VF_CHECK(mbus_data_long_decode(e.p, n, &lv) == 0 && lv == want, "%s decodes to %ld, should be %lld", hex(b).c_str(), lv, want);
        if (n <= 4) {
            VF_CHECK(mbus_data_int_decode(e.p, n, &iv) == 0 && iv == want, "%s decodes to %d, should be %lld", hex(b).c_str(), iv, want);
            Exact o(Bytes(n, 0x55)); mbus_data_int_encode(o.p, n, iv);
            VF_CHECK(!memcmp(o.p, e.p, n), "%s decodes and encodes to %s", hex(b).c_str(), hex(o.p, n).c_str());
        }
        VF_CHECK((unsigned long long)mbus_data_bcd_decode_hex(e.p, n) == ref_le(b.data(), n), "%s decodes to hexadecimal %llX", hex(b).c_str(), mbus_data_bcd_decode_hex(e.p, n));
        nontrivial(hash_bytes(b.data(), n, 1)); label("integer pattern"); break; }
    case 2: { // BCD encode, decode
        size_t n = 1 + g.below(8); int v;
        switch (g.below(3)) { case 0: v = (int)g.range(-1100, 1100); break; case 1: v = (int)(uint32_t)g.below(1ULL << 32); break; default: { static const int k[] = {0, 9, 10, 99, 100, -9, -10, 999, -999, 9999, 99999999, -9999999, 2147483647, (int)-2147483648LL}; v = g.pick(k); } }
        note("BCD %d in %zu bytes", v, n);
        if (g.chance(1, 16)) { Exact z(Bytes{}); mbus_data_bcd_decode(z.p, 0); mbus_data_bcd_decode_hex(z.p, 0); /* reads nothing; the result is not defined */ }
        Exact e(Bytes(n, 0xAA));
        VF_CHECK(mbus_data_bcd_encode(e.p, n, v) == 0, "number is not encoded");
        long long lim = 1; for (size_t i = 0; i < (v < 0 ? 2 * n - 1 : 2 * n); i++) if (lim < (1LL << 40)) lim *= 10;
        bool fits = llabs((long long)v) < lim;
        if (fits) {
            long long m = llabs((long long)v);
            for (size_t i = 0; i < n; i++) { uint8_t w = (uint8_t)(m % 10 | (m / 10 % 10) << 4); m /= 100; if (v < 0 && i == n - 1) w |= 0xF0; VF_CHECK(e.p[i] == w, "%d is encoded as BCD %s", v, hex(e.p, n).c_str()); }
            VF_CHECK(mbus_data_bcd_decode(e.p, n) == v, "BCD of %d decodes to %lld", v, mbus_data_bcd_decode(e.p, n));
            nontrivial(hash_bytes(&v, 4, 100 + n)); label("BCD");
        } else label("BCD too large");
        break; }
    case 3: { // BCD patterns
        size_t n = 1 + g.below(8); Bytes b(n); for (auto &x : b) x = (uint8_t)(g.below(10) << 4 | g.below(10));
        if (g.chance(1, 3)) b[n - 1] |= 0xF0;
        note("BCD bytes %s", hex(b).c_str());
        long long want; VF_CHECK(ref_bcd(b.data(), n, want), "generator");
        Exact e(b);
        VF_CHECK(mbus_data_bcd_decode(e.p, n) == want, "BCD %s decodes to %lld, should be %lld", hex(b).c_str(), mbus_data_bcd_decode(e.p, n), want);
        if (want >= -2147483648LL && want <= 2147483647LL && !(want == 0 && (b[n - 1] >> 4) == 15)) {
            Exact o(Bytes(n, 0x55)); mbus_data_bcd_encode(o.p, n, (int)want);
            VF_CHECK(!memcmp(o.p, e.p, n), "BCD %s decodes and encodes to %s", hex(b).c_str(), hex(o.p, n).c_str());
        }
        nontrivial(hash_bytes(b.data(), n, 2)); label("BCD pattern"); break; }
    case 4: { // float
        Bytes b(4); for (auto &x : b) x = g.ibyte(); Exact e(b); note("float bytes %s", hex(b).c_str());
        uint32_t u = (uint32_t)ref_le(b.data(), 4); int ex = (u >> 23) & 255; double m = (u & 0x7FFFFF);
        double want = ex == 255 ? ((u & 0x7FFFFF) ? NAN : INFINITY) : ex == 0 ? ldexp(m, -149) : ldexp(m + 8388608.0, ex - 150);
        if (u >> 31) want = -want;
        float got = mbus_data_float_decode(e.p);
        VF_CHECK((double)got == want || (got != got && want != want), "float %s decodes to %g, should be %g", hex(b).c_str(), got, want);
        nontrivial(hash_bytes(b.data(), 4, 3)); label("float"); break; }
    case 5: { // manufacturer codes
        char c[4] = {(char)('A' + g.below(26)), (char)('A' + g.below(26)), (char)('A' + g.below(26)), 0}; note("manufacturer %s", c);
        unsigned id = (unsigned)((c[0] - 64) * 1024 + (c[1] - 64) * 32 + (c[2] - 64));
        VF_CHECK(mbus_manufacturer_id(c) == id, "id of %s is %04X, should be %04X", c, mbus_manufacturer_id(c), id);
        Exact e(Bytes(2, 0)); VF_CHECK(mbus_data_manufacturer_encode(e.p, (unsigned char *)c) == 0, "not encoded");
        VF_CHECK(e.p[0] == (id & 255) && e.p[1] == (id >> 8), "%s is encoded as %s", c, hex(e.p, 2).c_str());
        VF_CHECK(!strcmp(mbus_decode_manufacturer(e.p[0], e.p[1]), c), "%s comes back as %s", c, mbus_decode_manufacturer(e.p[0], e.p[1]));
        // every 15-bit encoding
        uint8_t lo = g.byte(), hi = (uint8_t)g.below(128); const char *m = mbus_decode_manufacturer(lo, hi); unsigned w = hi << 8 | lo;
        VF_CHECK(m[0] == (char)(64 + (w >> 10)) && m[1] == (char)(64 + (w >> 5 & 31)) && m[2] == (char)(64 + (w & 31)) && !m[3], "manufacturer of %02X %02X is %s", lo, hi, esc(m).c_str());
        char mm[4]; memcpy(mm, m, 4); mbus_data_manufacturer_encode(e.p, (unsigned char *)mm);
        VF_CHECK(e.p[0] == lo && e.p[1] == hi, "%02X %02X becomes %s after decoding and encoding", lo, hi, hex(e.p, 2).c_str());
        nontrivial(hash_bytes(c, 3, w)); label("manufacturer"); break; }
    default: { // anything that does not begin with three letters has no id
        size_t n = g.below(6); Bytes b; for (size_t i = 0; i < n; i++) b.push_back((uint8_t)(g.coin() ? 'A' + g.below(26) : g.coin() ? "@[`{ 019\xC4\xE4\xFF"[g.below(11)] : 1 + g.below(255)));
        bool letters = n >= 3; for (size_t i = 0; i < 3 && i < n; i++) if (!((b[i] >= 'A' && b[i] <= 'Z') || (b[i] >= 'a' && b[i] <= 'z'))) letters = false;
        b.push_back(0); note("manufacturer string %s", hex(b).c_str());
        if (letters) { label("letters"); break; }
        Exact e(b); unsigned id = mbus_manufacturer_id((char *)e.p);
        VF_CHECK(id == 0, "a string that does not begin with three letters has the id %04X", id);
        nontrivial(hash_bytes(b.data(), b.size(), 5)); label("no manufacturer"); }
    }
}

// ------------------------------------------------------------------------------------------ P15
VF_PROPERTY(P15, 1500000, 65000000, "2, 4 and 6 byte dates and times with uniform and boundary bit fields, the invalid mark and other sizes; decoded fields and record texts compared with the bit fields; non-trivial: a defined size; distinct by bytes") {
    size_t n = g.weighted({4, 4, 4, 1}); bool other = n == 3;
    if (!other) n = 2 + 2 * n; else { static const size_t k[] = {1, 3, 5, 7, 8, 0}; n = g.pick(k); }
    Bytes b(n); for (auto &x : b) x = g.coin() ? g.byte() : g.ibyte();
    if (g.coin()) { if (n == 4) b[0] &= 0x7F; if (n == 6) b[1] &= 0x7F; }
    if (n == 4 && g.chance(1, 3)) { int y = g.coin() ? 79 + (int)g.below(4) : (int)g.below(100); b[1] &= 0x9F; b[2] = (uint8_t)((b[2] & 31) | (y & 7) << 5); b[3] = (uint8_t)((b[3] & 15) | (y >> 3) << 4); }
    note("time bytes %s", hex(b).c_str());
    Exact e(b); struct tm t; memset(&t, 0x5A, sizeof t);
    mbus_data_tm_decode(&t, e.p, n);
    RefTm w = ref_tm(b.data(), n);
    int mon = w.zero ? 0 : w.mon - 1;
    VF_CHECK(t.tm_sec == w.sec && t.tm_min == w.min && t.tm_hour == w.hour && t.tm_mday == w.day && t.tm_mon == mon && t.tm_year == w.year - 1900 && t.tm_isdst == w.dst,
             "%s decodes to %d-%d-%d %d:%d:%d dst %d, should be %d-%d-%d %d:%d:%d dst %d", hex(b).c_str(), t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, t.tm_isdst, w.year, mon + 1, w.day, w.hour, w.min, w.sec, w.dst);
    if (w.zero) VF_CHECK(t.tm_wday == 0 && t.tm_yday == 0, "%s: fields of an invalid time are not zero (weekday %d, day of the year %d)", hex(b).c_str(), t.tm_wday, t.tm_yday);
    label(fmt("%zu bytes%s", n, w.zero ? " zero" : ""));
    if (!other) {
        nontrivial(hash_bytes(b.data(), n));
        Rec r; r.dif = (uint8_t)n; r.vif = n == 2 ? 0x6C : 0x6D; if (n != 2 && g.chance(1, 3)) { r.vif = 0xFD; r.vife = {(uint8_t)(g.coin() ? 0x30 : 0x70)}; } r.data = b;
        OneRec o(r); std::string want = n == 2 ? fmt("%04d-%02d-%02d", w.year, mon + 1, w.day) : fmt("%04d-%02d-%02dT%02d:%02d:%02d", w.year, mon + 1, w.day, w.hour, w.min, w.sec);
        VF_CHECK(want == mbus_data_record_value(o.rec), "record text is %s, should be %s", mbus_data_record_value(o.rec), want.c_str());
        double v; char *s = NULL; int sz; int rc = mbus_variable_value_decode(o.rec, &v, &s, &sz); std::string got = s ? s : "(none)"; vf_release(s);
        VF_CHECK(rc == 0 && got == want + (n == 2 ? "" : "Z"), "decoded text is %s, should be %s", got.c_str(), want.c_str());
    }
}

// ------------------------------------------------------------------------------------------ P19
VF_PROPERTY(P19, 300000, 20000000, "decodable replies of all three kinds (custom texts without NUL), re-serialised and decoded again; and record lists assembled by hand that exceed the telegram; non-trivial: at least one record or a refusal; distinct by user data") {
    if (g.chance(1, 5)) { // hand-built, possibly too large
        mbus_frame_data d; memset(&d, 0, sizeof d); d.type = MBUS_DATA_TYPE_VARIABLE;
        Bytes want(12); for (auto &x : want) x = g.byte(); memcpy(&d.data_var.header, want.data(), 12);
        size_t n = g.size(1, 40); Bytes body = want;
        for (size_t i = 0; i < n; i++) {
            Rec r; RecOpt op; op.special = false; if (!gen_rec(g, 200, r, op)) continue;
            for (auto &c : r.text) if (!c) c = 'x';
            mbus_data_record *l = mbus_data_record_new(); void *nx = l->next; lib_record(r, l); l->next = nx;
            mbus_data_record_append(&d.data_var, l); rec_bytes(r, body);
        }
        mbus_frame *f = (mbus_frame *)malloc(sizeof *f); memset(f, 0, sizeof *f);
        note("hand-built, %zu bytes", body.size());
        int rc = mbus_frame_internal_pack(f, &d);
        if (body.size() > 252) { VF_CHECK(rc < 0, "data of %zu bytes is packed (result %d, %zu bytes)", body.size(), rc, f->data_size); label("too large"); }
        else { VF_CHECK(rc == 0, "data of %zu bytes is refused (%d)", body.size(), rc); VF_CHECK(f->data_size == body.size() && !memcmp(f->data, body.data(), body.size()), "packed %s, should be %s", hex(f->data, f->data_size).c_str(), hex(body).c_str()); label("hand-built"); }
        nontrivial(hash_bytes(body.data(), body.size(), 9));
        free(f); free_data(&d); return;
    }
    int kind = (int)g.weighted({8, 2, 1});
    Bytes ud, want; uint8_t ci = 0x72; VarData v;
    if (kind == 0) {
        VarGen x = gen_variable(g); v = x.v;
        for (auto &r : v.recs) for (auto &c : r.text) if (!c) c = 'x';
        want = v.header; for (auto &r : v.recs) rec_bytes(r, want);
        ud = want;
        if (g.coin() && ud.size() < 250) { size_t k = g.size(1, 252 - ud.size()); ud.insert(ud.begin() + 12, k, 0x2F); } // filler
    } else if (kind == 1) { ci = 0x73; ud = want = g.bytes(16); }
    else { ci = 0x70; if (g.coin()) ud = {g.byte()}; want = ud.empty() ? Bytes{0} : ud; }
    note("CI %02X user data %s", ci, hex(ud).c_str());
    mbus_frame f; VF_CHECK(frame_from(&f, rsp_tel(ci, ud)), "valid telegram rejected");
    mbus_frame_data d; memset(&d, 0, sizeof d);
    VF_CHECK(mbus_frame_data_parse(&f, &d) == 0, "well-formed data rejected: %s", mbus_error_str());
    mbus_frame *o = (mbus_frame *)malloc(sizeof *o); memset(o, 0, sizeof *o); for (size_t i = 0; i < 252; i++) o->data[i] = 0xCC;
    int rc = mbus_frame_internal_pack(o, &d);
    VF_CHECK(rc == 0, "decoded data is not re-serialised (%d)", rc);
    VF_CHECK(o->data_size == want.size() && !memcmp(o->data, want.data(), want.size()), "re-serialised as %s, should be %s", hex(o->data, std::min<size_t>(o->data_size, 252)).c_str(), hex(want).c_str());
    mbus_frame f2 = f; memcpy(f2.data, o->data, 252); f2.data_size = o->data_size;
    mbus_frame_data d2; memset(&d2, 0, sizeof d2);
    VF_CHECK(mbus_frame_data_parse(&f2, &d2) == 0, "re-serialised data is not decoded");
    VF_CHECK(d2.type == d.type, "type changes");
    if (kind == 0) {
        size_t i = 0; for (mbus_data_record *l = d2.data_var.record; l; l = (mbus_data_record *)l->next, i++) { VF_CHECK(i < v.recs.size(), "more records"); compare_record(l, v.recs[i], i); }
        VF_CHECK(i == v.recs.size(), "%zu records became %zu", v.recs.size(), i);
        label(i ? "variable" : "variable, no record"); if (i) nontrivial(hash_bytes(ud.data(), ud.size()));
    } else { if (kind == 2) VF_CHECK(d2.error == d.error, "error code changes"); label(kind == 1 ? "fixed" : "error"); nontrivial(hash_bytes(ud.data(), ud.size(), kind)); }
    free_data(&d2); free_data(&d); free(o);
}

// ------------------------------------------------------------------------------------------ P20
VF_PROPERTY(P20, 1200000, 85000000, "headers with arbitrary bytes: address extracted, validated and turned into a selection telegram; 16-digit masks with wildcards in either case; arbitrary strings and integers; replies without a complete header; non-trivial: an address was extracted, selected or rejected; distinct by header or string") {
    switch (g.below(5)) {
    case 0: { // extraction and way back
        VarGen x = gen_variable(g, g.coin() ? 30 : 252); Bytes &ud = x.ud;
        note("user data %s", hex(ud).c_str());
        mbus_frame f; VF_CHECK(frame_from(&f, rsp_tel(0x72, ud, g.byte())), "valid telegram rejected");
        char *a = mbus_frame_get_secondary_address(&f);
        VF_CHECK(a, "no address");
        std::string want = fmt("%02X%02X%02X%02X%02X%02X%02X%02X", ud[3], ud[2], ud[1], ud[0], ud[4], ud[5], ud[6], ud[7]), got = a;
        VF_CHECK(got == want, "address is %s, should be %s", got.c_str(), want.c_str());
        VF_CHECK(mbus_is_secondary_address(got.c_str()), "the address %s is not accepted", got.c_str());
        mbus_frame s; memset(&s, 0, sizeof s); s.type = MBUS_FRAME_TYPE_LONG;
        mbus_frame *n = mbus_frame_new(MBUS_FRAME_TYPE_LONG);
        VF_CHECK(mbus_frame_select_secondary_pack(n, (char *)got.c_str()) == 0, "the address %s cannot be selected", got.c_str());
        uint8_t out[300]; int len = mbus_frame_pack(n, out, sizeof out); mbus_frame_free(n);
        Tel t; t.kind = Tel::LONG; t.c = 0x73; t.a = 0xFD; t.ci = 0x52; t.ud.assign(ud.begin(), ud.begin() + 8); Bytes w = tel_bytes(t);
        VF_CHECK(len == (int)w.size() && !memcmp(out, w.data(), len), "selection telegram is %s, should be %s", hex(out, len > 0 ? len : 0).c_str(), hex(w).c_str());
        nontrivial(hash_bytes(ud.data(), 12)); label("extracted"); break; }
    case 1: case 2: { // masks
        std::string m; for (int i = 0; i < 16; i++) m += "0123456789ABCDEFabcdefFFFF"[g.below(26)];
        alike_fields(g, m);
        note("mask %s", m.c_str());
        Exact e(Bytes(m.c_str(), m.c_str() + 17));
        VF_CHECK(mbus_is_secondary_address((char *)e.p) == 1, "mask %s is not accepted", m.c_str());
        mbus_frame *n = mbus_frame_new(MBUS_FRAME_TYPE_LONG);
        int rc = mbus_frame_select_secondary_pack(n, (char *)e.p); VF_CHECK(rc == 0, "mask %s cannot be selected", m.c_str());
        Bytes w; auto hx = [&](int i) { return (uint8_t)strtoul(m.substr(2 * i, 2).c_str(), 0, 16); };
        for (int i : {3, 2, 1, 0, 4, 5, 6, 7}) w.push_back(hx(i));
        VF_CHECK(n->data_size == 8 && !memcmp(n->data, w.data(), 8), "mask %s is sent as %s, should be %s", m.c_str(), hex(n->data, 8).c_str(), hex(w).c_str());
        VF_CHECK(n->control == 0x73 && n->address == 0xFD && n->control_information == 0x52, "selection telegram has C %02X A %02X CI %02X", n->control, n->address, n->control_information);
        mbus_frame_free(n); nontrivial(m); label("mask"); break; }
    case 3: { // other strings and integers
        std::string s; size_t n = g.coin() ? 16 : g.chance(1, 6) ? (g.coin() ? 256 * (1 + g.below(3)) + 16 : g.size(0, 600)) : g.size(0, 40);
        for (size_t i = 0; i < n; i++) s += g.chance(9 + 1000 * (n > 40), 10 + 1000 * (n > 40)) ? "0123456789ABCDEF"[g.below(16)] : (char)(1 + g.below(255));
        if (g.coin() && n) s[g.below(n)] = "gG xX-+.:\xFF\x80@`/"[g.below(13)];
        bool ok = s.size() == 16; for (char c : s) if (!strchr("0123456789abcdefABCDEF", c)) ok = false;
        note("string %s", esc(s).c_str());
        Exact e(Bytes(s.c_str(), s.c_str() + s.size() + 1));
        VF_CHECK(!!mbus_is_secondary_address((char *)e.p) == ok, "'%s' is %s as secondary address", esc(s).c_str(), ok ? "rejected" : "accepted");
        mbus_frame *f = mbus_frame_new(MBUS_FRAME_TYPE_LONG); int rc = mbus_frame_select_secondary_pack(f, (char *)e.p); mbus_frame_free(f);
        VF_CHECK((rc == 0) == ok, "'%s' is %s for selection", esc(s).c_str(), ok ? "rejected" : "accepted");
        VF_CHECK(!mbus_is_secondary_address(NULL), "NULL is accepted as secondary address");
        int a = (int)(g.coin() ? g.range(-300, 600) : (long long)(int)(uint32_t)g.below(1ULL << 32));
        VF_CHECK(!!mbus_is_primary_address(a) == (a >= 0 && a <= 255), "%d is %s as primary address", a, a >= 0 && a <= 255 ? "rejected" : "accepted");
        if (!ok) nontrivial(s); label(ok ? "string ok" : "string rejected"); break; }
    default: { // no complete variable header
        uint8_t ci = g.coin() ? 0x72 : g.byte(); Bytes ud = g.bytes(ci == 0x72 ? g.size(0, 11) : g.size(0, 40)); uint8_t c = 0x08;
        if (g.chance(1, 4)) { ci = 0x72; ud = gen_variable(g, 40).ud; c = g.coin() ? 0x53 : 0x73; } // wrong direction
        bool has = ci == 0x72 && c == 0x08 && ud.size() >= 12;
        note("C %02X CI %02X user data %s", c, ci, hex(ud).c_str());
        mbus_frame f; VF_CHECK(frame_from(&f, rsp_tel(ci, ud, 1, c)), "valid telegram rejected");
        char *a = mbus_frame_get_secondary_address(&f);
        if (!has) { VF_CHECK(!a, "a reply without a complete variable header gives the address %s", a); nontrivial(hash_bytes(ud.data(), ud.size(), ci)); }
        VF_CHECK(!mbus_frame_get_secondary_address(NULL), "NULL gives an address");
        label("no header"); }
    }
}

// ------------------------------------------------------------------------------------------ P29
VF_PROPERTY(P29, 900000, 35000000, "texts of hexadecimal pairs, whitespace and other characters (including NUL and signs), converted with every relation of source and destination size, in exactly-sized buffers; non-trivial: at least one pair or a stop inside the text; distinct by text and sizes") {
    bool lng = g.chance(1, 40);
    Bytes s; size_t n = lng ? g.size(60, g.chance(1, 10) ? 9000 : 900) : g.size(0, 60);
    for (size_t i = 0; i < n; i++) switch (g.weighted({8, 3, 1, 1})) {
        case 0: s.push_back("0123456789abcdefABCDEF"[g.below(22)]); s.push_back("0123456789abcdefABCDEF"[g.below(22)]); break;
        case 1: s.push_back(" \t\n\r\v\f"[g.below(6)]); break;
        case 2: if (lng && !g.chance(1, 200)) break; s.push_back("0123456789abcdefABCDEF"[g.below(22)]); break;
        default: if (lng && !g.chance(1, 200)) break; if (g.chance(1, 3)) s.push_back(g.byte()); else s.push_back("gGxX+-.:\x00\xFF\x80/@`"[g.below(14)]); break;
    }
    size_t cap = g.coin() ? g.size(0, 70) : 300; if (lng && g.chance(3, 4)) cap = g.size(0, 10000);
    if (!s.empty() && g.chance(1, 3000)) { size_t k = s.size(), m = (g.coin() ? 65400 : 131000) + g.below(400); while (s.size() < m) s.push_back(s[s.size() - k]); cap = 70000; }   // long ones repeat a pattern
    note("text %s, destination %zu", hex(s).c_str(), cap);
    Bytes want; size_t i = 0; auto hv = [](uint8_t c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
    bool stopped = false;
    while (want.size() < cap) {
        while (i < s.size() && s[i] && strchr(" \t\n\r\v\f", s[i])) i++;
        if (i + 1 >= s.size()) break;
        if (hv(s[i]) < 0 || hv(s[i + 1]) < 0) { stopped = true; break; }
        want.push_back((uint8_t)(hv(s[i]) << 4 | hv(s[i + 1]))); i += 2;
    }
    Exact src(s), dst(Bytes(cap, 0xAA));
    size_t got = mbus_hex2bin(dst.p, cap, src.p, s.size());
    VF_CHECK(got == want.size(), "%zu bytes are converted, should be %zu", got, want.size());
    VF_CHECK(!memcmp(dst.p, want.data(), want.size()), "result is %s, should be %s", hex(dst.p, got).c_str(), hex(want).c_str());
    for (size_t k = got; k < cap; k++) VF_CHECK(dst.p[k] == 0, "byte %zu after the result is %02X", k, dst.p[k]);
    label(stopped ? "stopped" : want.size() == cap ? "full" : "whole text");
    if (!want.empty() || stopped) nontrivial(hash_bytes(s.data(), s.size(), cap));
}

// ------------------------------------------------------------------------------------------ P30
// structures that were used for other telegrams before
static mbus_frame used_f; static mbus_frame_data used_d;
static std::string observe(const Bytes &tel, bool used = false) {
    std::string o; mbus_frame f0; memset(&f0, 0, sizeof f0); mbus_frame &f = used ? used_f : f0;
    int r = lib_parse(&f, tel); o += fmt("parse %d\n", r); if (r != 0) return o;
    mbus_frame_data d0; memset(&d0, 0, sizeof d0); mbus_frame_data &d = used ? used_d : d0;
    mbus_error_reset();
    r = mbus_frame_data_parse(&f, &d); o += fmt("data %d %d %d\n", r, r == 0 ? d.type : 0, r == 0 && d.type == MBUS_DATA_TYPE_ERROR ? d.error : 0);
    if (r != 0) o += fmt("error %s\n", mbus_error_str());
    if (r == 0) {
        if (d.type == MBUS_DATA_TYPE_VARIABLE) {
            o += fmt("product %s medium %s more %d\n", mbus_data_product_name(&d.data_var.header), mbus_data_variable_medium_lookup(d.data_var.header.medium), d.data_var.more_records_follow);
            for (mbus_data_record *l = d.data_var.record; l; l = (mbus_data_record *)l->next) {
                std::string fn = mbus_data_record_function(l), u = mbus_data_record_unit(l), v = mbus_data_record_value(l);
                o += fn + "|" + u + "|" + v + fmt("|%ld|%ld|%d", mbus_data_record_storage_number(l), mbus_data_record_tariff(l), mbus_data_record_device(l));
                mbus_record *n = mbus_parse_variable_record(l);
                if (n) { o += fmt("|%s|%s|%s|%d", n->unit ? n->unit : "-", n->quantity ? n->quantity : "-", n->function_medium, n->is_numeric); if (n->is_numeric) o += fmt("|%.17g", n->value.real_val); else o += "|" + std::string(n->value.str_val.value, n->value.str_val.size > 0 ? strnlen(n->value.str_val.value, n->value.str_val.size) : 0); mbus_record_free(n); }
                else o += "|none";
                o += "\n";
            }
        }
        char *x = mbus_frame_data_xml(&d); o += x ? x : "(no XML)"; if (x) vf_release(x);
        x = mbus_frame_data_xml_normalized(&d); o += x ? x : "(no XML)"; if (x) vf_release(x);
        mbus_frame p; memset(&p, 0, sizeof p); r = mbus_frame_internal_pack(&p, &d); o += fmt("packed %d ", r) + hex(p.data, p.data_size <= 252 ? p.data_size : 0) + "\n";
        free_data(&d);
    }
    char *x = mbus_frame_xml(&f); o += x ? x : "(no XML)"; if (x) vf_release(x);
    x = mbus_frame_get_secondary_address(&f); o += x ? x : "(no address)";
    uint8_t out[300]; r = mbus_frame_pack(&f, out, sizeof out); o += fmt("frame %d ", r) + hex(out, r > 0 ? r : 0);
    return o;
}
// a server process in which the library has never been used; forks a child for each request
static int z_in = -1, z_out = -1; static pid_t z_owner = 0;
static bool rd_all(int fd, void *p, size_t n) { char *c = (char *)p; while (n) { ssize_t k = read(fd, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
static bool wr_all(int fd, const void *p, size_t n) { const char *c = (const char *)p; while (n) { ssize_t k = write(fd, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
static void zygote() {
    if (z_owner == getpid()) return;
    int a[2], b[2]; if (pipe(a) || pipe(b)) abort();
    pid_t p = fork();
    if (p == 0) {
        close(a[1]); close(b[0]);
        for (;;) {
            uint32_t n; if (!rd_all(a[0], &n, 4)) _exit(0);
            Bytes t(n); if (n && !rd_all(a[0], t.data(), n)) _exit(0);
            int c[2]; if (pipe(c)) _exit(1);
            pid_t q = fork();
            if (q == 0) { std::string s = observe(t); uint32_t l = s.size(); wr_all(c[1], &l, 4); wr_all(c[1], s.data(), l); _exit(0); }
            close(c[1]);
            uint32_t l = 0; std::string s; if (rd_all(c[0], &l, 4)) { s.resize(l); if (!rd_all(c[0], &s[0], l)) l = 0xFFFFFFFF; } else l = 0xFFFFFFFF;
            close(c[0]); int st; waitpid(q, &st, 0);
            wr_all(b[1], &l, 4); if (l != 0xFFFFFFFF) wr_all(b[1], s.data(), l);
        }
    }
    close(a[0]); close(b[1]); z_in = a[1]; z_out = b[0]; z_owner = getpid();
}
static bool fresh(const Bytes &t, std::string &s) {
    zygote(); uint32_t n = t.size(), l;
    if (!wr_all(z_in, &n, 4) || !wr_all(z_in, t.data(), n) || !rd_all(z_out, &l, 4) || l == 0xFFFFFFFF) return false;
    s.resize(l); return l == 0 || rd_all(z_out, &s[0], l);
}
static Bytes any_tel(Gen &g) {
    switch (g.weighted({6, 2, 1, 1, 2, 2, 1})) {
    case 0: return tel_bytes(rsp_tel(0x72, gen_variable(g, g.coin() ? 80 : 252).ud, g.byte()));
    case 1: { Bytes b = gen_variable(g, 120).ud; b.resize(g.size(1, b.size())); return tel_bytes(rsp_tel(0x72, b)); }
    case 2: return tel_bytes(rsp_tel(0x73, g.bytes(g.chance(3, 4) ? 16 : g.size(1, 30))));
    case 3: return tel_bytes(rsp_tel(0x70, g.bytes(g.below(2))));
    case 4: { Bytes b = corpus_frame(g); return b.empty() ? Bytes{0xE5} : b; }
    case 5: { Bytes b = gen_variable(g, 120).ud; size_t n = g.size(1, 4); while (n--) b[g.below(b.size())] = g.ibyte(); return tel_bytes(rsp_tel(0x72, b)); }
    default: return tel_bytes(rsp_tel(g.byte(), g.bytes(g.size(0, 60)), g.byte(), g.pick(LONG_C)));
    }
}
static std::string diff(const std::string &a, const std::string &b) {
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t f = i > 40 ? i - 40 : 0; return fmt("'%s' / '%s'", esc(a.substr(f, 120)).c_str(), esc(b.substr(f, 120)).c_str());
}
VF_PROPERTY(P30, 12000, 350000, "one observed telegram (all kinds, well-formed or not): everything decoding and rendering return for it in a process that never used the library, compared with the same after a history of 1-8 (rarely up to 60) other telegrams, printing, address extraction, unit lookups and with the debug switch on, into fresh and used structures, and repeated; rendering leaves the decoded data as it was; non-trivial: the telegram has application data; distinct by telegram and history") {
    Bytes t = any_tel(g); std::string first;
    zygote(); memset(&used_f, 0, sizeof used_f); memset(&used_d, 0, sizeof used_d);
    note("telegram %s", hex(t).c_str());
    if (!fresh(t, first)) { label("fresh process died"); fail("decoding the telegram in a fresh process does not end normally"); }
    size_t n = g.chance(1, 60) ? g.size(9, 60) : g.size(1, 8); uint64_t h = hash_bytes(t.data(), t.size());
    for (size_t i = 0; i < n; i++) {
        Bytes b = any_tel(g); int how = (int)g.below(6); note("history %d %s", how, hex(b).c_str()); h = hash_bytes(b.data(), b.size(), h + how);
        bool dbg = g.chance(1, 6); if (dbg) mbus_parse_set_debug(1);
        if (g.coin()) observe(b, true);
        mbus_frame f; memset(&f, 0, sizeof f); int ok = lib_parse(&f, b) == 0;
        switch (how) {
        case 0: observe(b); break;
        case 1: if (ok) { char *x = mbus_frame_xml(&f); if (x) vf_release(x); } break;
        case 2: if (ok) { mbus_frame_print(&f); mbus_frame_data d; memset(&d, 0, sizeof d); if (mbus_frame_data_parse(&f, &d) == 0) mbus_frame_data_print(&d); free_data(&d); } break;
        case 3: { mbus_error_str_set((char *)"an earlier error"); if (ok) mbus_frame_get_secondary_address(&f); break; }
        case 4: { mbus_frame_data d; memset(&d, 0, sizeof d); if (ok) mbus_frame_data_parse(&f, &d); free_data(&d); break; }
        default: { mbus_value_information_block v; memset(&v, 0, sizeof v); v.vif = g.byte(); v.nvife = 1; v.vife[0] = g.byte(); strcpy((char *)v.custom_vif, "left over"); mbus_vib_unit_lookup(&v); mbus_vif_unit_lookup(g.byte()); mbus_unit_prefix((int)g.range(-12, 12)); mbus_data_error_lookup(g.byte()); mbus_decode_manufacturer(g.byte(), g.byte()); }
        }
        if (dbg) mbus_parse_set_debug(0);
    }
    bool dbg = g.chance(1, 3); if (dbg) mbus_parse_set_debug(1);
    bool used = g.coin(); if (used) note("decoded into used structures");
    std::string again = observe(t, used), third = observe(t);
    if (dbg) mbus_parse_set_debug(0);
    VF_CHECK(again == first, "after a history%s the result differs: %s", dbg ? " and with the debug switch on" : "", diff(first, again).c_str());
    VF_CHECK(third == again, "the second time the result differs: %s", diff(again, third).c_str());
    // rendering leaves decoded data alone
    mbus_frame f; memset(&f, 0, sizeof f);
    if (lib_parse(&f, t) == 0) {
        mbus_frame copy = f; mbus_frame_data d; memset(&d, 0, sizeof d);
        if (mbus_frame_data_parse(&f, &d) == 0) {
            std::vector<mbus_data_record> recs; for (mbus_data_record *l = d.data_var.record; l; l = (mbus_data_record *)l->next) recs.push_back(*l);
            mbus_frame_data dc = d;
            char *x = mbus_frame_data_xml(&d); if (x) vf_release(x); x = mbus_frame_data_xml_normalized(&d); if (x) vf_release(x); mbus_frame_data_print(&d);
            for (mbus_data_record *l = d.data_var.record; l; l = (mbus_data_record *)l->next) { mbus_data_record_value(l); mbus_data_record_unit(l); mbus_record *r = mbus_parse_variable_record(l); if (r) mbus_record_free(r); }
            VF_CHECK(!memcmp(&dc, &d, sizeof d), "rendering changes the decoded data");
            size_t i = 0; for (mbus_data_record *l = d.data_var.record; l; l = (mbus_data_record *)l->next, i++) VF_CHECK(!memcmp(&recs[i], l, sizeof *l), "rendering changes record %zu", i);
            label("decoded");
        }
        free_data(&d);
        VF_CHECK(!memcmp(&copy, &f, sizeof f), "decoding changes the telegram");
        if (f.data_size) nontrivial(h);
    }
}
