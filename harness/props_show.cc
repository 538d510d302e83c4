// P33 (who a slave is: product and medium names) and P34 (printouts and traces)
#include "corpus.h"
#include "refrec.h"
#include "xml.h"
#include <ctype.h>
#include <functional>

// ------------------------------------------------------------------------------------------ the published lists
struct Prod { char man[4]; bool by_id; uint8_t code; int medium; const char *name; };       // by_id: the leading two digits of the identification number; medium -1: any
static const Prod PRODUCTS[] = {
    {"ABB", false, 0x02, -1, "ABB Delta-Meter"},
    {"ABB", false, 0x20, -1, "ABB B21 113-100"},
    {"ACW", false, 0x09, -1, "Itron CF Echo 2"},
    {"ACW", false, 0x0A, -1, "Itron CF 51"},
    {"ACW", false, 0x0B, -1, "Itron CF 55"},
    {"ACW", false, 0x0E, -1, "Itron BM +m"},
    {"ACW", false, 0x0F, -1, "Itron CF 800"},
    {"ACW", false, 0x14, -1, "Itron CYBLE M-Bus 1.4"},
    {"BEC", false, 0x00, 0x02, "Berg DCMi"},
    {"BEC", false, 0x07, 0x02, "Berg BLMi"},
    {"BEC", false, 0x71, 0x0F, "Berg BMB-10S0"},
    {"EFE", false, 0x00, -1, "Engelmann SensoStar 2C"},
    {"EFE", false, 0x01, -1, "Engelmann SensoStar 2C"},
    {"ELS", false, 0x02, -1, "Elster TMP-A"},
    {"ELS", false, 0x0A, -1, "Elster Falcon"},
    {"ELS", false, 0x2F, -1, "Elster F96 Plus"},
    {"ELV", false, 0x14, -1, "Elvaco CMa10"},
    {"ELV", false, 0x15, -1, "Elvaco CMa10"},
    {"ELV", false, 0x16, -1, "Elvaco CMa10"},
    {"ELV", false, 0x17, -1, "Elvaco CMa10"},
    {"ELV", false, 0x18, -1, "Elvaco CMa10"},
    {"ELV", false, 0x19, -1, "Elvaco CMa10"},
    {"ELV", false, 0x1A, -1, "Elvaco CMa10"},
    {"ELV", false, 0x1B, -1, "Elvaco CMa10"},
    {"ELV", false, 0x1C, -1, "Elvaco CMa10"},
    {"ELV", false, 0x1D, -1, "Elvaco CMa10"},
    {"ELV", false, 0x32, -1, "Elvaco CMa11"},
    {"ELV", false, 0x33, -1, "Elvaco CMa11"},
    {"ELV", false, 0x34, -1, "Elvaco CMa11"},
    {"ELV", false, 0x35, -1, "Elvaco CMa11"},
    {"ELV", false, 0x36, -1, "Elvaco CMa11"},
    {"ELV", false, 0x37, -1, "Elvaco CMa11"},
    {"ELV", false, 0x38, -1, "Elvaco CMa11"},
    {"ELV", false, 0x39, -1, "Elvaco CMa11"},
    {"ELV", false, 0x3A, -1, "Elvaco CMa11"},
    {"ELV", false, 0x3B, -1, "Elvaco CMa11"},
    {"EMH", false, 0x00, -1, "EMH DIZ"},
    {"EMU", false, 0x10, 0x02, "EMU Professional 3/75 M-Bus"},
    {"GAV", false, 0x2D, 0x02, "Carlo Gavazzi EM24"},
    {"GAV", false, 0x2E, 0x02, "Carlo Gavazzi EM24"},
    {"GAV", false, 0x2F, 0x02, "Carlo Gavazzi EM24"},
    {"GAV", false, 0x30, 0x02, "Carlo Gavazzi EM24"},
    {"GAV", false, 0x39, 0x02, "Carlo Gavazzi EM21"},
    {"GAV", false, 0x3A, 0x02, "Carlo Gavazzi EM21"},
    {"GAV", false, 0x40, 0x02, "Carlo Gavazzi EM33"},
    {"GMC", false, 0xE6, -1, "GMC-I A230 EMMOD 206"},
    {"KAM", false, 0x01, -1, "Kamstrup 382 (6850-005)"},
    {"KAM", false, 0x08, -1, "Kamstrup Multical 601"},
    {"SLB", false, 0x02, -1, "Allmess Megacontrol CF-50"},
    {"SLB", false, 0x06, -1, "CF Compact / Integral MK MaXX"},
    {"HYD", false, 0x28, -1, "ABB F95 Typ US770"},
    {"HYD", false, 0x2F, -1, "Hydrometer Sharky 775"},
    {"JAN", false, 0x09, 0x02, "Janitza UMG 96S"},
    {"LUG", false, 0x02, -1, "Landis & Gyr Ultraheat 2WR5"},
    {"LUG", false, 0x03, -1, "Landis & Gyr Ultraheat 2WR6"},
    {"LUG", false, 0x04, -1, "Landis & Gyr Ultraheat UH50"},
    {"LUG", false, 0x07, -1, "Landis & Gyr Ultraheat T230"},
    {"LSE", false, 0x99, -1, "Siemens WFH21"},
    {"NZR", false, 0x01, -1, "NZR DHZ 5/63"},
    {"NZR", false, 0x50, -1, "NZR IC-M2"},
    {"RAM", false, 0x03, -1, "Rossweiner ETK/ETW Modularis"},
    {"REL", false, 0x08, -1, "Relay PadPuls M1"},
    {"REL", false, 0x12, -1, "Relay PadPuls M4"},
    {"REL", false, 0x20, -1, "Relay Padin 4"},
    {"REL", false, 0x30, -1, "Relay AnDi 4"},
    {"REL", false, 0x40, -1, "Relay PadPuls M2"},
    {"RKE", false, 0x69, -1, "Ista sensonic II mbus"},
    {"SBC", true, 0x10, -1, "Saia-Burgess ALE3"},
    {"SBC", true, 0x19, -1, "Saia-Burgess ALE3"},
    {"SBC", true, 0x11, -1, "Saia-Burgess AWD3"},
    {"SEO", true, 0x30, -1, "Sensoco PT100"},
    {"GTE", true, 0x30, -1, "Sensoco PT100"},
    {"SEO", true, 0x41, -1, "Sensoco 2-NTC"},
    {"GTE", true, 0x41, -1, "Sensoco 2-NTC"},
    {"SEO", true, 0x45, -1, "Sensoco Laser Light"},
    {"GTE", true, 0x45, -1, "Sensoco Laser Light"},
    {"SEO", true, 0x48, -1, "Sensoco ADIO"},
    {"GTE", true, 0x48, -1, "Sensoco ADIO"},
    {"SEO", true, 0x51, -1, "Sensoco THU"},
    {"SEO", true, 0x61, -1, "Sensoco THU"},
    {"GTE", true, 0x51, -1, "Sensoco THU"},
    {"GTE", true, 0x61, -1, "Sensoco THU"},
    {"SEO", true, 0x80, -1, "Sensoco PulseCounter for E-Meter"},
    {"GTE", true, 0x80, -1, "Sensoco PulseCounter for E-Meter"},
    {"SEN", false, 0x08, -1, "Sensus PolluCom E"},
    {"SEN", false, 0x19, -1, "Sensus PolluCom E"},
    {"SEN", false, 0x0B, -1, "Sensus PolluTherm"},
    {"SEN", false, 0x0E, -1, "Sensus PolluStat E"},
    {"SON", false, 0x0D, -1, "Sontex Supercal 531"},
    {"SPX", false, 0x31, -1, "Sensus PolluTherm"},
    {"SPX", false, 0x34, -1, "Sensus PolluTherm"},
    {"SVM", false, 0x08, -1, "Elster F2 / Deltamess F2"},
    {"SVM", false, 0x09, -1, "Elster F4 / Kamstrup SVM F22"},
    {"TCH", false, 0x26, -1, "Techem m-bus S"},
    {"TCH", false, 0x40, -1, "Techem ultra S3"},
    {"WZG", false, 0x03, -1, "Modularis ETW-EAX"},
    {"ZRM", false, 0x81, -1, "Minol Minocal C2"},
    {"ZRM", false, 0x82, -1, "Minol Minocal WR3"},
};
static const char *const MEDIUM[64] = {"Other", "Oil", "Electricity", "Gas", "Heat: Outlet", "Steam", "Warm water (30-90\xC2\xB0" "C)", "Water", "Heat Cost Allocator", "Compressed Air",
    "Cooling load meter: Outlet", "Cooling load meter: Inlet", "Heat: Inlet", "Heat / Cooling load meter", "Bus/System", "Unknown Medium",
    "Irrigation Water", "Water Logger", "Gas Logger", "Gas Converter", "Calorific value", "Hot water (>90\xC2\xB0" "C)", "Cold water", "Dual water", "Pressure", "A/D Converter",
    "Smoke Detector", "Ambient Sensor", "Gas Detector", 0, 0, 0,
    "Breaker: Electricity", "Valve: Gas or Water", "Reserved", "Reserved", "Reserved", "Customer Unit: Display Device", "Reserved", "Reserved", "Waste Water", "Garbage",
    "Reserved", "Reserved", "Reserved", "Reserved", "Reserved", "Reserved",
    "Service Unit", "Reserved", "Reserved", "Reserved", "Reserved", 0, "Radio Converter: System", "Radio Converter: Meter", "Reserved", "Reserved", "Reserved", "Reserved", "Reserved", "Reserved", "Reserved", "Reserved"};
static std::string ref_medium(uint8_t m) { return m < 64 && MEDIUM[m] ? MEDIUM[m] : fmt("Unknown medium (0x%02x)", m); }
static std::string letters(const uint8_t *m) { unsigned v = m[0] | m[1] << 8; std::string s; for (int k = 10; k >= 0; k -= 5) s += (char)(64 + (v >> k & 31)); return s; }
// the names stand for the code without bit 15, which no manufacturer code has
static std::string ref_product(const Bytes &h) {
    unsigned v = h[4] | h[5] << 8; if (v & 0x8000) return "";
    std::string man = letters(&h[4]); uint8_t ver = h[6], med = h[7];
    if (man == "AMT") return ver >= 0xC0 ? "Aquametro CALEC ST" : ver >= 0x80 ? "Aquametro CALEC MB" : ver >= 0x40 ? "Aquametro SAPHIR" : "Aquametro AMTRON";
    if (man == "EFE" && ver == 0) return med == 6 ? "Engelmann WaterStar" : "Engelmann / Elster SensoStar 2";
    for (auto &p : PRODUCTS) if (man == p.man && (p.by_id ? h[3] : ver) == p.code && (p.medium < 0 || med == p.medium)) return p.name;
    return "";
}
// the encoder leaves some room at the end of its buffer; names are short
static std::string shown(const std::string &s) { std::string o; for (unsigned char c : s) o += iscntrl(c) ? ' ' : (char)c; return o; }

VF_PROPERTY(P33, 1500000, 30000000, "a variable data header (entries of the product list and their neighbours in version, identification, medium and manufacturer, all media, arbitrary headers): the product name and medium reported directly and in the XML against lists written out in the check; non-trivial: the product list has an entry for the manufacturer; distinct by manufacturer, version, medium and leading identification digits") {
    Bytes h = gen_header(g); int how = (int)g.weighted({6, 3, 1});
    static const char *const MORE[] = {"AMT", "EFE", "ABB", "SLB", "XYZ"};
    std::string man;
    if (how < 2) {
        const Prod &p = g.pick(PRODUCTS); man = g.chance(1, 5) ? g.pick(MORE) : p.man;
        if (p.by_id) h[3] = p.code; else h[6] = p.code;
        if (p.medium >= 0 && !g.chance(1, 4)) h[7] = (uint8_t)p.medium; else if (g.coin()) h[7] = (uint8_t)g.below(64);
        unsigned v = (man[0] - 64) << 10 | (man[1] - 64) << 5 | (man[2] - 64);
        if (how == 1) switch (g.below(5)) { // a neighbour
            case 0: h[6] = (uint8_t)(h[6] + (g.coin() ? 1 : -1)); break;
            case 1: h[3] = (uint8_t)(h[3] + (g.coin() ? 1 : -1)); break;
            case 2: v ^= 1u << g.below(16); break;
            case 3: h[7] ^= (uint8_t)(1u << g.below(8)); break;
            default: h[6] = g.byte(); h[3] = g.byte();
        }
        h[4] = (uint8_t)v; h[5] = (uint8_t)(v >> 8);
    } else h = g.bytes(12);
    note("header %s (%s version %02X medium %02X)", hex(h).c_str(), letters(&h[4]).c_str(), h[6], h[7]);
    std::string prod = ref_product(h), med = ref_medium(h[7]);
    mbus_data_variable_header *x = (mbus_data_variable_header *)malloc(sizeof *x); // exactly one header: a longer read shows
    VF_CHECK(sizeof *x == 12, "a header of %zu bytes", sizeof *x); memcpy(x, h.data(), 12);
    const char *s = mbus_data_product_name(x); VF_CHECK(s, "no product name"); std::string p1 = s;
    VF_CHECK(p1 == prod, "product '%s' is reported, the list says '%s'", esc(p1).c_str(), prod.c_str());
    s = mbus_data_variable_medium_lookup(h[7]); VF_CHECK(s && med == s, "medium %02X is reported as '%s', the list says '%s'", h[7], s ? esc(s).c_str() : "(null)", med.c_str());
    // a second slave in between does not change what is reported
    if (g.chance(1, 4)) { mbus_data_variable_header o; Bytes b = g.bytes(12); memcpy(&o, b.data(), 12); mbus_data_product_name(&o); mbus_data_variable_medium_lookup(b[7]); s = mbus_data_product_name(x); VF_CHECK(s && prod == s, "the second time product '%s' is reported", s ? esc(s).c_str() : "(null)"); }
    VF_CHECK(!memcmp(x, h.data(), 12), "the header was changed"); free(x);
    if (g.chance(1, 12)) {
        mbus_frame f; mbus_frame_data d; memset(&d, 0, sizeof d);
        VF_CHECK(frame_from(&f, rsp_tel(0x72, h)) && mbus_frame_data_parse(&f, &d) == 0, "a reply without records is rejected");
        for (int k = 0; k < 2; k++) {
            char *c = k ? mbus_frame_data_xml_normalized(&d) : mbus_frame_data_xml(&d); VF_CHECK(c, "no XML");
            std::string t = c; vf_release(c); Xml y(t); VF_CHECK(y.parse(), "XML: %s", y.why.c_str());
            const El *i = y.root.kid("SlaveInformation"); VF_CHECK(i, "no SlaveInformation");
            VF_CHECK(i->of("ProductName") == shown(prod), "XML product '%s', the list says '%s'", esc(i->of("ProductName")).c_str(), prod.c_str());
            VF_CHECK(i->of("Medium") == shown(med), "XML medium '%s', the list says '%s'", esc(i->of("Medium")).c_str(), med.c_str());
        }
        if (d.data_var.record) mbus_data_record_free(d.data_var.record);
        label("XML");
    }
    label(prod.empty() ? "no product" : "product");
    bool listed = false; std::string m = letters(&h[4]); if (!(h[5] & 0x80)) { listed = m == "AMT"; for (auto &p : PRODUCTS) if (m == p.man) listed = true; }
    if (listed) nontrivial(m + fmt(" %02X %02X %02X", h[6], h[7], h[3]));
}

// ------------------------------------------------------------------------------------------ printouts
struct Capture { // what is written to one of the standard streams
    FILE **slot, *old, *mem; char *buf = nullptr; size_t n = 0;
    Capture(FILE **s) : slot(s), old(*s) { fflush(old); mem = open_memstream(&buf, &n); VF_CHECK(mem, "harness: open_memstream"); *slot = mem; }
    std::string end() { if (!mem) return ""; fflush(mem); *slot = old; fclose(mem); mem = nullptr; std::string s(buf, n); free(buf); return s; }
    ~Capture() { end(); }
};
struct KV { std::string k, v; bool operator==(const KV &o) const { return k == o.k && v == o.v; } };
static std::string trim(std::string s) { size_t a = s.find_first_not_of(' '), b = s.find_last_not_of(' '); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
static std::vector<std::string> lines(const std::string &t) { std::vector<std::string> r; size_t i = 0; while (i < t.size()) { size_t j = t.find('\n', i); if (j == std::string::npos) { r.push_back(t.substr(i) + "<no line end>"); break; } r.push_back(t.substr(i, j - i)); i = j + 1; } return r; }
// a leading "function_name: " is not judged
static std::string unprefixed(const std::string &l) { size_t p = l.find(": "); if (p == std::string::npos || !p) return l; bool id = true; for (size_t i = 0; i < p; i++) if (!isalnum((unsigned char)l[i]) && l[i] != '_') id = false; return id || l.substr(0, p).find("mbus_") != std::string::npos ? l.substr(p + 2) : l; }
static std::vector<KV> fields(const std::string &t) {
    std::vector<KV> r;
    for (auto &raw : lines(t)) { std::string l = unprefixed(raw); if (trim(l).empty()) continue; size_t e = l.find('='); size_t e2 = l.find("]", 0); if (l.compare(0, 11, "VENDOR DATA") == 0 && e2 != std::string::npos) e = l.find('=', e2); r.push_back(e == std::string::npos ? KV{trim(l), ""} : KV{trim(l.substr(0, e)), trim(l.substr(e + 1))}); }
    return r;
}
static void same(const std::vector<KV> &got, const std::vector<KV> &want, const char *what) {
    size_t w = 0;
    for (size_t i = 0; i < got.size() || w < want.size(); i++, w++) {
        VF_CHECK(w < want.size(), "%s: line '%s = %s' too many", what, esc(got[i].k).c_str(), esc(got[i].v).c_str());
        VF_CHECK(i < got.size(), "%s: line '%s = %s' is missing", what, want[w].k.c_str(), want[w].v.c_str());
        if (want[w].v == "*") { VF_CHECK(got[i].k == want[w].k, "%s: '%s' instead of '%s'", what, esc(got[i].k).c_str(), want[w].k.c_str()); continue; }
        VF_CHECK(got[i] == want[w], "%s: '%s = %s' instead of '%s = %s'", what, esc(got[i].k).c_str(), esc(got[i].v).c_str(), want[w].k.c_str(), want[w].v.c_str());
    }
}
static std::string up_hex(const uint8_t *p, size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += fmt(i ? " %02X" : "%02X", p[i]); return s; }
static void header_fields(const Bytes &h, std::vector<KV> &w) {
    w.push_back({"ID", fmt("%X", h[0] | h[1] << 8 | h[2] << 16 | (unsigned)h[3] << 24)}); w.push_back({"Manufacturer", fmt("0x%02X%02X", h[5], h[4])}); w.push_back({"Manufacturer", letters(&h[4])});
    w.push_back({"Version", fmt("0x%02X", h[6])}); w.push_back({"Medium", ref_medium(h[7]) + fmt(" (0x%02X)", h[7])}); w.push_back({"Access #", fmt("0x%02X", h[8])});
    w.push_back({"Status", fmt("0x%02X", h[9])}); w.push_back({"Signature", fmt("0x%02X%02X", h[11], h[10])});
}
static const char *yes(bool b) { return b ? "Yes" : "No"; }
static void record_fields(const VarData &v, std::vector<KV> &w) {
    static const char *const fn[] = {"Instantaneous value", "Maximum value", "Minimum value", "Value during error state"};
    for (size_t i = 0; i < v.recs.size(); i++) {
        const Rec &r = v.recs[i];
        w.push_back({"Record ID", fmt("%zu", i)}); w.push_back({"DIF", fmt("%02X", r.dif)}); w.push_back({"DIF.Extension", yes(r.dif & 0x80)}); w.push_back({"DIF.StorageNumber", fmt("%d", r.dif >> 6 & 1)});
        w.push_back({"DIF.Function", r.special ? "*" : fn[r.dif >> 4 & 3]}); w.push_back({"DIF.Data", fmt("%02X", r.dif & 15)});
        if (r.special) { w.push_back({fmt("VENDOR DATA [size=%zu]", r.data.size()), up_hex(r.data.data(), r.data.size())}); if (r.dif == 0x1F) w.push_back({"More records follow in next telegram", ""}); continue; }
        w.push_back({"DATA LENGTH", fmt("%zu", r.data.size())});
        for (size_t j = 0; j < r.dife.size(); j++) { uint8_t e = r.dife[j]; std::string n = fmt("DIFE[%zu]", j); w.push_back({n, fmt("%02X", e)}); w.push_back({n + ".Extension", yes(e & 0x80)}); w.push_back({n + ".Device", fmt("%d", e >> 6 & 1)}); w.push_back({n + ".Tariff", fmt("%d", e >> 4 & 3)}); w.push_back({n + ".StorageNumber", fmt("%02X", e & 15)}); }
        w.push_back({"VIF", fmt("%02X", r.vif)}); w.push_back({"VIF.Extension", yes(r.vif & 0x80)}); w.push_back({"VIF.Value", fmt("%02X", r.vif & 0x7F)});
        for (size_t j = 0; j < r.vife.size(); j++) { uint8_t e = r.vife[j]; std::string n = fmt("VIFE[%zu]", j); w.push_back({n, fmt("%02X", e)}); w.push_back({n + ".Extension", yes(e & 0x80)}); w.push_back({n + ".Value", fmt("%02X", e & 0x7F)}); }
    }
}
static std::string out_of(std::function<void()> f) { Capture c(&stdout); f(); return c.end(); }

VF_PROPERTY(P34, 150000, 8000000, "traces of arbitrary bytes, printouts of telegram chains, of error, fixed and variable replies: read back and compared field by field and byte by byte with the telegram; non-trivial: something with at least one data byte was printed; distinct by input") {
    switch (g.weighted({2, 3, 2, 6, 1})) {
    case 0: { // trace of bytes on the line
        Bytes b = g.bytes(g.chance(1, 10) ? g.below(1200) : g.size(0, 300)); Exact e(b); bool snd = g.coin(); int style = (int)g.below(3); static const char *const labels[] = {"RECV", "SEND", "x", "two words", "EVENT"};
        std::string lab = style < 2 ? (snd ? "SEND" : "RECV") : g.pick(labels); note("trace %s of %s", lab.c_str(), hex(b).c_str());
        time_t t0 = time(NULL);
        Capture c(&stderr);
        if (style == 2) mbus_hex_dump(lab.c_str(), (const char *)e.p, e.n); else if (snd) mbus_dump_send_event((unsigned char)g.below(3), (const char *)e.p, e.n); else mbus_dump_recv_event((unsigned char)g.below(3), (const char *)e.p, e.n);
        std::string t = c.end(); time_t t1 = time(NULL);
        auto l = lines(t); VF_CHECK(l.size() == 1, "%zu lines for one trace: %s", l.size(), esc(t).c_str());
        int Y, M, D, h, m, s, k = 0; VF_CHECK(sscanf(l[0].c_str(), "[%4d-%2d-%2d %2d:%2d:%2dZ] %n", &Y, &M, &D, &h, &m, &s, &k) == 6 && k, "the trace does not start with a time: %s", esc(l[0]).c_str());
        struct tm tm; memset(&tm, 0, sizeof tm); tm.tm_year = Y - 1900; tm.tm_mon = M - 1; tm.tm_mday = D; tm.tm_hour = h; tm.tm_min = m; tm.tm_sec = s; time_t at = timegm(&tm);
        VF_CHECK(at >= t0 && at <= t1, "the time of the trace is off: %s", esc(l[0]).c_str());
        std::string want = lab + fmt(" (%03zu):", b.size()) + (b.empty() ? "" : " ") + up_hex(b.data(), b.size());
        VF_CHECK(l[0].substr(k) == want, "trace '%s' instead of '%s'", esc(l[0].substr(k)).c_str(), want.c_str());
        if (g.chance(1, 10)) { Capture c2(&stderr); mbus_hex_dump(NULL, (const char *)e.p, e.n); mbus_hex_dump("SEND", NULL, g.below(3)); VF_CHECK(c2.end().empty(), "a trace without label or bytes was written"); }
        if (!b.empty() && g.chance(1, 4)) { // what the parser shows with the debug switch on
            Bytes b2 = g.coin() ? tel_bytes(gen_tel(g)) : b; Exact e2(b2); mbus_frame f; memset(&f, 0, sizeof f); note("parser trace of %s", hex(b2).c_str());
            std::string o = out_of([&] { mbus_parse_set_debug(1); mbus_parse(&f, e2.p, e2.n); mbus_parse_set_debug(0); });
            VF_CHECK(o.find(up_hex(b2.data(), b2.size())) != std::string::npos && o.find(fmt("%zu", b2.size())) != std::string::npos, "the parser's trace of %s is %s", hex(b2).c_str(), esc(o).c_str());
            o = out_of([&] { mbus_parse(&f, e2.p, e2.n); }); VF_CHECK(o.empty(), "without the debug switch the parser prints %s", esc(o).c_str());
        }
        label("trace"); if (!b.empty()) nontrivial(hash_bytes(b.data(), b.size(), snd)); return; }
    case 1: { // telegram chains
        size_t n = g.size(1, 12); std::vector<Bytes> bs; std::vector<mbus_frame *> fs; std::vector<int> ty; uint64_t h = 0; int bad = -1;
        for (size_t i = 0; i < n; i++) { Tel t = gen_tel(g); Bytes b = tel_bytes(t); bs.push_back(b); mbus_frame *f = (mbus_frame *)calloc(1, sizeof *f); VF_CHECK(lib_parse(f, b) == 0, "valid telegram %s rejected", hex(b).c_str()); fs.push_back(f); ty.push_back(f->type); if (i) fs[i - 1]->next = f; h = hash_bytes(b.data(), b.size(), h); note("telegram %s", hex(b).c_str()); }
        if (g.chance(1, 6)) { bad = (int)g.below(n); fs[bad]->type = 99; note("telegram %d cannot be packed", bad); }
        int r = 0; std::string t = out_of([&] { r = mbus_frame_print(fs[0]); }); auto l = lines(t);
        VF_CHECK(bad < 0 ? r == 0 : r < 0, "printing %s reports %d", bad < 0 ? "a chain" : "a chain with a telegram that cannot be packed", r);
        size_t want = bad < 0 ? n : (size_t)bad; VF_CHECK(bad < 0 ? l.size() == n : l.size() >= want, "%zu lines for %zu telegrams", l.size(), want);
        for (size_t i = 0; i < want; i++) {
            std::string u = unprefixed(l[i]), v = fmt("Dumping M-Bus frame [type %d, %zu bytes]: ", ty[i], bs[i].size()) + up_hex(bs[i].data(), bs[i].size());
            VF_CHECK(trim(u) == v, "telegram %zu printed as '%s' instead of '%s'", i, esc(u).c_str(), v.c_str());
        }
        for (auto f : fs) free(f);
        label("chain"); nontrivial(h); return; }
    case 2: { // fixed data and errors
        bool err = g.chance(1, 4); Bytes ud = err ? g.bytes(g.below(2)) : g.bytes(16); if (!err) { if (g.coin()) for (size_t i = 0; i < 4; i++) { ud[i] = (uint8_t)(g.below(10) << 4 | g.below(10)); } if (g.coin()) for (size_t i = 8; i < 16; i++) ud[i] = (uint8_t)(g.below(10) << 4 | g.below(10)); }
        mbus_frame f; mbus_frame_data d; memset(&d, 0, sizeof d); note("%s %s", err ? "error" : "fixed", hex(ud).c_str());
        VF_CHECK(frame_from(&f, rsp_tel(err ? 0x70 : 0x73, ud)) && mbus_frame_data_parse(&f, &d) == 0, "valid reply rejected");
        std::string t = out_of([&] { mbus_frame_data_print(&d); }); std::vector<KV> w;
        if (err) w.push_back({"Error", fmt("%d", ud.empty() ? 0 : ud[0])});
        else {
            bool bin = ud[5] & 0x80; auto cnt = [&](int o) { unsigned v = ud[o] | ud[o + 1] << 8 | ud[o + 2] << 16 | (unsigned)ud[o + 3] << 24; return bin ? fmt("%d", (int)v) : fmt("%X", v); };
            static const char *const med[] = {"Other", "Oil", "Electricity", "Gas", "Heat", "Steam", "Hot Water", "Water", "H.C.A.", "Reserved", "Gas Mode 2", "Heat Mode 2", "Hot Water Mode 2", "Water Mode 2", "H.C.A. Mode 2", "Reserved"};
            std::string m = med[ud[6] >> 6 | (ud[7] >> 6) << 2];
            w = {{"ID", fmt("%X", ud[0] | ud[1] << 8 | ud[2] << 16 | (unsigned)ud[3] << 24)}, {"Access #", fmt("0x%02X", ud[4])}, {"Status", fmt("0x%02X", ud[5])}, {"Function", ud[5] & 0x40 ? "Stored value" : "Actual value"},
                 {"Medium1", m}, {"Unit1", mbus_data_fixed_unit(ud[6])}, {"Counter1", cnt(8)}, {"Medium2", m}, {"Unit2", mbus_data_fixed_unit(ud[7])}, {"Counter2", cnt(12)}};
        }
        same(fields(t), w, err ? "error" : "fixed data"); label(err ? "error" : "fixed"); if (!ud.empty()) nontrivial(hash_bytes(ud.data(), ud.size(), err)); return; }
    case 3: { // variable data
        VarGen x = gen_variable(g, g.coin() ? 80 : 252); note("variable %s", hex(x.ud).c_str());
        mbus_frame f; mbus_frame_data d; memset(&d, 0, sizeof d);
        VF_CHECK(frame_from(&f, rsp_tel(0x72, x.ud)) && mbus_frame_data_parse(&f, &d) == 0, "valid reply rejected: %s", mbus_error_str());
        std::vector<KV> w; header_fields(x.v.header, w);
        if (g.chance(1, 5)) { std::string t = out_of([&] { mbus_data_variable_header_print(&d.data_var.header); }); same(fields(t), w, "header"); }
        record_fields(x.v, w);
        std::string t = out_of([&] { if (g.coin()) mbus_frame_data_print(&d); else mbus_data_variable_print(&d.data_var); });
        same(fields(t), w, "variable data"); if (d.data_var.record) mbus_data_record_free(d.data_var.record);
        label("variable"); if (!x.v.recs.empty()) nontrivial(hash_bytes(x.ud.data(), x.ud.size())); return; }
    default: { // nothing to print
        mbus_frame_data d; memset(&d, 0, sizeof d); static const int ty[] = {0, 7, -5, 255, 1 << 20}; d.type = g.pick(ty); note("unknown data type %d", d.type);
        int a = 0, b = 0, c = 0; std::string t = out_of([&] { a = mbus_frame_data_print(&d); b = mbus_frame_data_print(NULL); c = mbus_frame_print(NULL); mbus_data_variable_print(NULL); mbus_data_fixed_print(NULL); mbus_data_variable_header_print(NULL); });
        VF_CHECK(t.empty() && a < 0 && b < 0 && c < 0, "printing nothing writes '%s' and reports %d %d %d", esc(t).c_str(), a, b, c); label("nothing"); }
    }
}

// ------------------------------------------------------------------------------------------ helpers that write into the caller's memory
struct Guarded { uint8_t *p; size_t n; Guarded(size_t n) : p((uint8_t *)malloc(n ? n : 1)), n(n) { memset(p, 0xA5, n ? n : 1); } ~Guarded() { free(p); } };   // exactly n bytes: the sanitizer sees more
static std::string text_in(const Guarded &d, const char *what) { const void *z = memchr(d.p, 0, d.n); VF_CHECK(z, "%s: no terminator within %zu bytes", what, d.n); return std::string((char *)d.p, (const uint8_t *)z - d.p); }

VF_PROPERTY(P35, 1200000, 60000000, "formatting helpers (XML escaping, hexadecimal and text decoding) with arbitrary bytes into buffers of arbitrary size from 1 byte, exactly allocated; name and unit lookups with arbitrary arguments, repeated; record lists built record by record; the slave status register; non-trivial: the input has at least two bytes (lookups: always); distinct by helper, sizes and input") {
    switch (g.weighted({5, 3, 3, 2, 3, 1, 1})) {
    case 0: { // XML escaping
        size_t n = g.chance(1, 8) ? g.below(600) : g.size(0, 60); Bytes b = gen_text(g, n); if (n && g.chance(1, 3000)) { size_t m = 65400 + g.below(400); while (b.size() < m) b.push_back(b[b.size() - n]); n = m; }   // long ones repeat a pattern
        for (auto &c : b) if (!c) c = 1; b.push_back(0); Exact s(b);
        std::string plain((char *)s.p), all; std::vector<size_t> at; for (unsigned char c : plain) { at.push_back(all.size()); if (iscntrl(c)) all += ' '; else if (c == '&') all += "&amp;"; else if (c == '<') all += "&lt;"; else if (c == '>') all += "&gt;"; else if (c == '"') all += "&quot;"; else all += (char)c; }
        at.push_back(all.size());
        size_t cap = g.chance(1, 3) ? g.size(1, 40) : g.chance(1, 2) ? (size_t)std::max<long>(1, (long)all.size() + g.range(-14, 14)) : all.size() + 7 + g.below(600); note("escape %zu bytes %s into %zu", b.size() - 1, hex(b).c_str(), cap);
        Guarded d(cap); int r = mbus_str_xml_encode(d.p, s.p, cap); std::string t = text_in(d, "escaping"); VF_CHECK(r == 0, "escaping reports %d", r);
        bool cut = false; for (size_t x : at) if (x == t.size() && !all.compare(0, x, t)) cut = true;
        VF_CHECK(cut, "'%s' is not the escaped beginning of '%s'", esc(t).c_str(), esc(plain).c_str());
        if (t.size() < all.size()) VF_CHECK(t.size() + 7 > cap, "only %zu of %zu characters although the buffer has %zu", t.size(), all.size(), cap);
        label(t.size() < all.size() ? "escape, cut" : "escape"); if (n >= 2) nontrivial(hash_bytes(b.data(), b.size(), cap)); 
        if (g.chance(1, 30)) { Guarded e(g.size(1, 9)); r = mbus_str_xml_encode(e.p, NULL, e.n); VF_CHECK(r < 0 && e.p[0] == 0, "escaping nothing reports %d", r); VF_CHECK(mbus_str_xml_encode(NULL, s.p, 10) < 0, "escaping to nowhere is reported as success"); }
        return; }
    case 1: case 2: { // hexadecimal text, both orders
        bool rev = g.coin(); size_t n = g.chance(1, 8) ? g.below(400) : g.size(0, 50); Bytes b = g.bytes(n); if (n && g.chance(1, 3000)) { size_t m = (g.coin() ? 21800 : 65500) + g.below(100); while (b.size() < m) b.push_back(b[b.size() - n]); n = m; } Exact s(b); size_t full = n ? 3 * n - 1 : 0, cap = g.coin() ? 3 * n + 1 + g.below(300) : g.size(1, 3 * n + 1);
        note("%s %s into %zu", rev ? "binary" : "manufacturer data", hex(b).c_str(), cap);
        Guarded d(cap); if (rev) mbus_data_bin_decode(d.p, s.p, n, cap); else mbus_data_manufacturer_specific_decode(d.p, s.p, n, cap);
        std::string t = text_in(d, "hexadecimal text"), want = hexs(rev ? reversed(b) : b);
        VF_CHECK(t.size() % 3 == 2 || t.empty(), "half a byte: '%s'", t.c_str()); VF_CHECK(want.compare(0, t.size(), t) == 0, "'%s' is not the beginning of '%s'", esc(t).c_str(), want.c_str());
        if (cap >= 3 * n + 1) VF_CHECK(t.size() == full, "only '%s' of '%s' although the buffer has %zu", t.c_str(), want.c_str(), cap); else if (t.size() < full) VF_CHECK(t.size() + 5 >= cap, "only '%s' although the buffer has %zu", t.c_str(), cap);
        label(t.size() < full ? "hex, cut" : "hex"); if (n >= 2) nontrivial(hash_bytes(b.data(), b.size(), cap * 2 + rev)); return; }
    case 3: { // text
        size_t n = g.size(0, 250); Bytes b = g.bytes(n); Exact s(b); Guarded d(n + 1); note("text %s", hex(b).c_str());
        mbus_data_str_decode(d.p, s.p, n); Bytes want = reversed(b); want.push_back(0); VF_CHECK(!memcmp(d.p, want.data(), n + 1), "text decoded to %s", hex(d.p, n + 1).c_str());
        label("text"); if (n >= 2) nontrivial(hash_bytes(b.data(), b.size(), 7)); return; }
    case 4: { // lookups are defined for every argument
        if (g.chance(1, 20)) { const char *ver = mbus_get_current_version(); VF_CHECK(ver && !strcmp(ver, "0.9.0"), "the version is %s", ver ? ver : "(null)"); VF_CHECK(mbus_init() == 0, "initialising the library fails"); }
        if (g.chance(1, 8)) { // the error message is kept as given
            size_t n = g.chance(1, 4) ? 200 + g.below(600) : g.size(0, 200); Bytes b = gen_text(g, n); for (auto &c : b) { if (!c) c = 1; if (g.chance(1, 12)) c = '%'; } b.push_back(0); Bytes was = b;
            Exact s(b); note("error message %s", hex(b).c_str()); mbus_error_str_set((char *)s.p); memset(s.p, '#', n); const char *e = mbus_error_str(); size_t l = e ? strlen(e) : 0;
            VF_CHECK(e && l <= n && !memcmp(e, was.data(), l) && (l == n || l >= 255), "the error message of %zu characters becomes '%s'", n, e ? esc(e).c_str() : "(null)");
            mbus_error_reset(); VF_CHECK(!strcmp(mbus_error_str(), "no errors"), "after a reset the error message is '%s'", esc(mbus_error_str()).c_str()); label("error message"); nontrivial(hash_bytes(was.data(), n, 99)); return; }
        int v = g.chance(1, 2) ? (int)g.byte() : (int)(uint32_t)g.u64(), k = (int)g.below(9); note("lookup %d with %d", k, v); std::string a[2]; Bytes fx = g.bytes(16); 
        for (int i = 0; i < 2; i++) {
            const char *s = nullptr;
            switch (k) {
            case 0: s = mbus_data_error_lookup(v); break; case 1: s = mbus_data_fixed_unit(v); break; case 2: s = mbus_unit_prefix(v); break; case 3: s = mbus_data_fixed_function(v); break; case 4: s = mbus_vif_unit_lookup((uint8_t)v); break;
            case 5: s = mbus_data_variable_medium_lookup((uint8_t)v); break; case 6: s = mbus_decode_manufacturer((uint8_t)v, (uint8_t)(v >> 8)); VF_CHECK(s && strlen(s) == 3, "manufacturer code of %zu letters", s ? strlen(s) : 0); break;
            case 7: { mbus_data_fixed f; memcpy(&f, fx.data(), std::min(sizeof f, fx.size())); s = mbus_data_fixed_medium(&f); break; }
            default: { unsigned l = mbus_dif_datalength_lookup((uint8_t)v); VF_CHECK((int)l == std::max(0, fixed_len((uint8_t)v)), "DIF %02X: %u data bytes instead of %d", (uint8_t)v, l, fixed_len((uint8_t)v)); s = "length"; }
            }
            VF_CHECK(s, "lookup %d of %d gives nothing", k, v); VF_CHECK(strnlen(s, 256) < 256, "lookup %d of %d gives an endless text", k, v); a[i] = s;
        }
        VF_CHECK(a[0] == a[1], "lookup %d of %d gives '%s', then '%s'", k, v, esc(a[0]).c_str(), esc(a[1]).c_str());
        label(fmt("lookup %d", k)); nontrivial(hash_bytes(&v, sizeof v, k)); return; }
    case 5: { // a record list grows at its end
        size_t n = g.chance(1, 25) ? g.range(40, 600) : g.size(1, 40); mbus_frame_data *d = mbus_frame_data_new(); VF_CHECK(d, "no structure"); for (size_t i = 0; i < sizeof *d; i++) VF_CHECK(!((uint8_t *)d)[i], "a new structure is not empty at byte %zu", i);
        std::vector<mbus_data_record *> rs; note("%zu records", n);
        for (size_t i = 0; i < n; i++) {
            mbus_data_record *r = mbus_data_record_new(); VF_CHECK(r, "no record"); for (size_t j = 0; j < sizeof *r; j++) VF_CHECK(!((uint8_t *)r)[j], "a new record is not empty at byte %zu", j);
            r->drh.dib.dif = (uint8_t)i; mbus_data_record_append(&d->data_var, r); rs.push_back(r);
            if (i > 40 && i % 50 && i + 1 < n) continue;
            mbus_data_record *l = d->data_var.record; for (size_t j = 0; j <= i; j++) { VF_CHECK(l == rs[j], "record %zu of %zu is not in its place", j, i + 1); l = (mbus_data_record *)l->next; } VF_CHECK(!l, "the list does not end after %zu records", i + 1);
        }
        mbus_data_record_append(&d->data_var, NULL); VF_CHECK(d->data_var.record == rs[0], "appending nothing changes the list");
        mbus_frame_data_free(d); label("list"); nontrivial(fmt("list %zu", n)); return; }
    default: { // the status register: one entry per primary address
        size_t n = g.size(1, 30); std::map<size_t, Bytes> m; note("%zu accesses to the register", n);
        for (size_t i = 0; i < n; i++) {
            size_t k = g.chance(1, 4) ? 240 + g.below(20) : g.chance(1, 8) ? (size_t)g.u64() : g.below(250); mbus_slave_data *s = mbus_slave_data_get(k);
            if (k >= 250) { VF_CHECK(!s, "an entry for address %zu", k); continue; }
            VF_CHECK(s, "no entry for address %zu", k);
            auto it = m.find(k); if (it != m.end()) VF_CHECK(!memcmp(s, it->second.data(), sizeof *s), "the entry of address %zu has changed", k);
            Bytes b = g.bytes(sizeof *s); memcpy(s, b.data(), sizeof *s); m[k] = b;
        }
        for (auto &e : m) VF_CHECK(!memcmp(mbus_slave_data_get(e.first), e.second.data(), e.second.size()), "the entry of address %zu has changed", e.first);
        label("register"); nontrivial(fmt("register %zu", n)); }
    }
}

// ------------------------------------------------------------------------------------------ missing arguments
#include "sim.h"
#include <unistd.h>
#include <fcntl.h>
#include <pty.h>
#include <termios.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
// a context on a real line with bytes waiting: the call neither takes them nor writes any
static bool on_line(bool serial, const std::function<bool(mbus_handle *)> &f) {
    static int l[2][2] = {{-1, -1}, {-1, -1}}; int *p = l[serial];
    if (p[0] == -1) {
        if (!serial) { VF_CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, p) == 0, "harness: socketpair"); struct timeval tv = {0, 1000}; setsockopt(p[0], SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); }
        else { struct termios t; memset(&t, 0, sizeof t); cfmakeraw(&t); t.c_cflag |= CS8 | CREAD | CLOCAL; t.c_cc[VMIN] = t.c_cc[VTIME] = 0; if (openpty(&p[1], &p[0], NULL, &t, NULL)) p[0] = -2; }
        if (p[0] >= 0) for (int i = 0; i < 2; i++) fcntl(p[i], F_SETFL, O_NONBLOCK);
    }
    if (p[0] < 0) return true;
    mbus_handle *h = serial ? mbus_context_serial("/dev/none") : mbus_context_tcp("nowhere", 1); VF_CHECK(h, "no context"); h->fd = p[0];
    VF_CHECK(write(p[1], "\xE5\xE5", 2) == 2, "harness: write"); int n = 0; for (int i = 0; i < 20000 && n < 2; i++) { ioctl(p[0], FIONREAD, &n); if (n < 2) usleep(20); } int had = n;
    bool ok = f(h); h->fd = -1; mbus_context_free(h);
    ioctl(p[0], FIONREAD, &n); int out = 0; ioctl(p[1], FIONREAD, &out); uint8_t b[512]; while (read(p[0], b, sizeof b) > 0) {} while (read(p[1], b, sizeof b) > 0) {}
    return ok && n == had && out == 0;
}
struct Fix { Bytes ud; mbus_frame f; mbus_frame_data d; mbus_handle *h; Bytes bytes; Bus bus; };
struct Refusal { const char *name; std::function<bool(Fix &)> call; };    // the call returns true if it reported its failure value
static std::vector<Refusal> refusals() {
    static unsigned char buf[600]; static char adr[40]; static int iv; static long lv; static long long llv; static struct tm tm;
    static mbus_frame reply;
    std::vector<Refusal> r;
#define R(n, ...) r.push_back({n, [](Fix &x) -> bool { (void)x; return (__VA_ARGS__); }})
    R("mbus_parse without a frame", mbus_parse(NULL, x.bytes.data(), x.bytes.size()) < 0);
    R("mbus_parse without data", mbus_parse(&x.f, NULL, x.bytes.size()) < 0);
    R("mbus_parse of no bytes", mbus_parse(&x.f, x.bytes.data(), 0) < 0);
    R("mbus_frame_pack without a frame", mbus_frame_pack(NULL, buf, sizeof buf) < 0);
    R("mbus_frame_verify without a frame", mbus_frame_verify(NULL) < 0);
    R("mbus_frame_type without a frame", mbus_frame_type(NULL) == -1);
    R("mbus_frame_direction without a frame", mbus_frame_direction(NULL) == -1);
    R("mbus_frame_free without a frame", mbus_frame_free(NULL) == -1);
    R("mbus_frame_data_parse without a frame", mbus_frame_data_parse(NULL, &x.d) < 0);
    R("mbus_frame_data_parse without data", mbus_frame_data_parse(&x.f, NULL) < 0);
    R("mbus_data_fixed_parse without a frame", mbus_data_fixed_parse(NULL, &x.d.data_fix) < 0);
    R("mbus_data_fixed_parse without data", mbus_data_fixed_parse(&x.f, NULL) < 0);
    R("mbus_data_variable_parse without a frame", mbus_data_variable_parse(NULL, &x.d.data_var) < 0);
    R("mbus_data_variable_parse without data", mbus_data_variable_parse(&x.f, NULL) < 0);
    R("mbus_frame_internal_pack without a frame", mbus_frame_internal_pack(NULL, &x.d) < 0);
    R("mbus_frame_internal_pack without data", mbus_frame_internal_pack(&x.f, NULL) < 0);
    R("mbus_frame_print without a frame", mbus_frame_print(NULL) < 0);
    R("mbus_frame_data_print without data", mbus_frame_data_print(NULL) < 0);
    R("mbus_frame_xml without a frame", mbus_frame_xml(NULL) == NULL);
    R("mbus_frame_data_xml without data", mbus_frame_data_xml(NULL) == NULL);
    R("mbus_frame_data_xml_normalized without data", mbus_frame_data_xml_normalized(NULL) == NULL);
    R("mbus_data_variable_xml without data", mbus_data_variable_xml(NULL) == NULL);
    R("mbus_data_fixed_xml without data", mbus_data_fixed_xml(NULL) == NULL);
    R("mbus_data_variable_header_xml without a header", !*mbus_data_variable_header_xml(NULL));
    R("mbus_data_record_function without a record", mbus_data_record_function(NULL) == NULL);
    R("mbus_data_record_unit without a record", mbus_data_record_unit(NULL) == NULL);
    R("mbus_data_record_value without a record", mbus_data_record_value(NULL) == NULL);
    R("mbus_data_record_storage_number without a record", mbus_data_record_storage_number(NULL) == -1);
    R("mbus_data_record_tariff without a record", mbus_data_record_tariff(NULL) == -1);
    R("mbus_data_record_device without a record", mbus_data_record_device(NULL) == -1);
    R("mbus_data_fixed_medium without data", mbus_data_fixed_medium(NULL) == NULL);
    R("mbus_data_product_name without a header", !*mbus_data_product_name(NULL));
    R("mbus_vib_unit_lookup without a block", !*mbus_vib_unit_lookup(NULL));
    R("mbus_data_manufacturer_encode without a destination", mbus_data_manufacturer_encode(NULL, (unsigned char *)"ABC") < 0);
    R("mbus_data_manufacturer_encode without a code", mbus_data_manufacturer_encode(buf, NULL) < 0);
    R("mbus_data_bcd_encode without a destination", mbus_data_bcd_encode(NULL, 4, 1) < 0);
    R("mbus_data_int_encode without a destination", mbus_data_int_encode(NULL, 4, 1) < 0);
    R("mbus_data_int_decode without data", mbus_data_int_decode(NULL, 4, &iv) < 0);
    R("mbus_data_long_decode without data", mbus_data_long_decode(NULL, 4, &lv) < 0);
    R("mbus_data_long_long_decode without data", mbus_data_long_long_decode(NULL, 4, &llv) < 0);
    R("mbus_data_int_decode of no bytes", mbus_data_int_decode(x.bytes.data(), 0, &iv) < 0);
    R("mbus_data_long_decode of no bytes", mbus_data_long_decode(x.bytes.data(), 0, &lv) < 0);
    R("mbus_data_long_long_decode of no bytes", mbus_data_long_long_decode(x.bytes.data(), 0, &llv) < 0);
    R("mbus_data_bcd_decode without data", mbus_data_bcd_decode(NULL, 4) == -1);
    R("mbus_data_bcd_decode_hex without data", mbus_data_bcd_decode_hex(NULL, 4) == -1);
    R("mbus_data_bcd_decode of no bytes", mbus_data_bcd_decode(x.bytes.data(), 0) == -1);
    R("mbus_data_float_decode without data", mbus_data_float_decode(NULL) == -1.0f);
    R("mbus_data_tm_decode without data", (memset(&tm, 0x55, sizeof tm), mbus_data_tm_decode(&tm, NULL, 6), tm.tm_year == 0 && tm.tm_mday == 0 && tm.tm_sec == 0));
    R("mbus_data_tm_decode without a destination", (mbus_data_tm_decode(NULL, x.bytes.data(), 2), true));
    R("mbus_data_str_decode without a destination", (mbus_data_str_decode(NULL, x.bytes.data(), 1), true));
    R("mbus_data_str_decode without data", (buf[0] = 7, mbus_data_str_decode(buf, NULL, 1), true));
    R("mbus_data_bin_decode without a destination", (mbus_data_bin_decode(NULL, x.bytes.data(), 1, 9), true));
    R("mbus_data_bin_decode without data", (mbus_data_bin_decode(buf, NULL, 1, 9), true));
    R("mbus_data_manufacturer_specific_decode without data", (mbus_data_manufacturer_specific_decode(buf, NULL, 1, 9), true));
    R("mbus_data_manufacturer_specific_decode without a destination", (mbus_data_manufacturer_specific_decode(NULL, x.bytes.data(), 1, 9), true));
    R("mbus_frame_get_secondary_address without a frame", mbus_frame_get_secondary_address(NULL) == NULL);
    R("mbus_frame_select_secondary_pack without a frame", mbus_frame_select_secondary_pack(NULL, (char *)"1234567890123456") < 0);
    R("mbus_frame_select_secondary_pack without an address", mbus_frame_select_secondary_pack(&x.f, NULL) < 0);
    R("mbus_is_secondary_address without an address", mbus_is_secondary_address(NULL) == 0);
    R("mbus_data_record_append without data", (mbus_data_record_append(NULL, NULL), true));
    R("mbus_data_record_free without a record", (mbus_data_record_free(NULL), true));
    R("mbus_frame_data_free without data", (mbus_frame_data_free(NULL), true));
    R("mbus_error_str_set without a message", (mbus_error_str_set((char *)"~none~"), mbus_error_str_set(NULL), !strcmp(mbus_error_str(), "~none~")));
    R("mbus_parse_variable_record without a record", mbus_parse_variable_record(NULL) == NULL);
    R("mbus_variable_value_decode without a record", [] { double v; char *s = NULL; int z; int q = mbus_variable_value_decode(NULL, &v, &s, &z); return q < 0 && !s; }());
    R("mbus_vif_unit_normalize without a unit", [] { double v; char *s = NULL; return mbus_vif_unit_normalize(0x13, 1.0, NULL, &v, &s) < 0; }());
    R("mbus_vif_unit_normalize without a value", [] { char *u = NULL, *s = NULL; return mbus_vif_unit_normalize(0x13, 1.0, &u, NULL, &s) < 0; }());
    R("mbus_vif_unit_normalize without a quantity", [] { double v; char *u = NULL; return mbus_vif_unit_normalize(0x13, 1.0, &u, &v, NULL) < 0; }());
    R("mbus_vib_unit_normalize without a block", [] { double v; char *u = NULL, *s = NULL; return mbus_vib_unit_normalize(NULL, 1.0, &u, &v, &s) < 0; }());
    R("mbus_vib_unit_normalize without a unit", [] { mbus_value_information_block b; memset(&b, 0, sizeof b); double v; char *s = NULL; return mbus_vib_unit_normalize(&b, 1.0, NULL, &v, &s) < 0; }());
    R("mbus_context_free without a context", (mbus_context_free(NULL), true));
    R("mbus_record_free without a record", (mbus_record_free(NULL), true));
    R("mbus_connect without a context", mbus_connect(NULL) == -1);
    R("mbus_disconnect without a context", mbus_disconnect(NULL) == -1);
    R("mbus_context_set_option without a context", mbus_context_set_option(NULL, MBUS_OPTION_MAX_DATA_RETRY, 1) == -1);
    R("mbus_recv_frame without a context", mbus_recv_frame(NULL, &x.f) == MBUS_RECV_RESULT_ERROR);
    R("mbus_recv_frame without a frame", mbus_recv_frame(x.h, NULL) == MBUS_RECV_RESULT_ERROR);
    R("mbus_send_frame without a context", mbus_send_frame(NULL, &x.f) == -1);
    R("mbus_send_select_frame without a context", mbus_send_select_frame(NULL, "1234567890123456") == -1);
    R("mbus_send_select_frame without an address", mbus_send_select_frame(x.h, NULL) == -1);
    R("mbus_send_switch_baudrate_frame without a context", mbus_send_switch_baudrate_frame(NULL, 1, 2400) == -1);
    R("mbus_send_application_reset_frame without a context", mbus_send_application_reset_frame(NULL, 1, 0) == -1);
    R("mbus_send_request_frame without a context", mbus_send_request_frame(NULL, 1) == -1);
    R("mbus_send_user_data_frame without a context", mbus_send_user_data_frame(NULL, 1, x.bytes.data(), 1) == -1);
    R("mbus_send_user_data_frame without data", mbus_send_user_data_frame(x.h, 1, NULL, 1) == -1);
    R("mbus_send_ping_frame without a context", mbus_send_ping_frame(NULL, 1, 0) == -1);
    R("mbus_set_primary_address without a context", mbus_set_primary_address(NULL, 1, 2) == -1);
    R("mbus_sendrecv_request without a context", mbus_sendrecv_request(NULL, 1, &reply, 1) != 0);
    R("mbus_select_secondary_address without a context", mbus_select_secondary_address(NULL, "1234567890123456") == MBUS_PROBE_ERROR);
    R("mbus_select_secondary_address without a mask", mbus_select_secondary_address(x.h, NULL) == MBUS_PROBE_ERROR);
    R("mbus_probe_secondary_address without a mask", mbus_probe_secondary_address(x.h, NULL, adr) == MBUS_PROBE_ERROR);
    R("mbus_probe_secondary_address without a destination", mbus_probe_secondary_address(x.h, "1234567890123456", NULL) == MBUS_PROBE_ERROR);
    R("mbus_read_slave without a context", [] { mbus_address a; memset(&a, 0, sizeof a); a.is_primary = 1; return mbus_read_slave(NULL, &a, &reply); }() == -1);
    R("mbus_read_slave without an address", mbus_read_slave(x.h, NULL, &reply) == -1);
    R("mbus_read_slave without a secondary address", [&] { mbus_address a; memset(&a, 0, sizeof a); return mbus_read_slave(x.h, &a, &reply); }() == -1);
    R("mbus_scan_2nd_address_range without a context", [] { char k[] = "FFFFFFFFFFFFFFFF"; return mbus_scan_2nd_address_range(NULL, 0, k); }() != 0);
    R("mbus_scan_2nd_address_range without a mask", mbus_scan_2nd_address_range(x.h, 0, NULL) != 0);
    R("mbus_tcp_connect without a context", mbus_tcp_connect(NULL) == -1);
    R("mbus_tcp_disconnect without a context", mbus_tcp_disconnect(NULL) == -1);
    R("mbus_tcp_send_frame without a context", mbus_tcp_send_frame(NULL, &x.f) == -1);
    R("mbus_tcp_send_frame without a frame", on_line(false, [](mbus_handle *h) { return mbus_tcp_send_frame(h, NULL) == -1 && mbus_send_frame(h, NULL) != 0; }));
    R("mbus_tcp_recv_frame without a context", mbus_tcp_recv_frame(NULL, &x.f) == MBUS_RECV_RESULT_ERROR);
    R("mbus_tcp_recv_frame without a frame", on_line(false, [](mbus_handle *h) { return mbus_tcp_recv_frame(h, NULL) == MBUS_RECV_RESULT_ERROR && mbus_recv_frame(h, NULL) == MBUS_RECV_RESULT_ERROR; }));
    R("mbus_tcp_data_free without a context", (mbus_tcp_data_free(NULL), true));
    R("mbus_serial_connect without a context", mbus_serial_connect(NULL) == -1);
    R("mbus_serial_disconnect without a context", mbus_serial_disconnect(NULL) == -1);
    R("mbus_serial_set_baudrate without a context", mbus_serial_set_baudrate(NULL, 2400) == -1);
    R("mbus_serial_send_frame without a context", mbus_serial_send_frame(NULL, &x.f) == -1);
    R("mbus_serial_send_frame without a frame", on_line(true, [](mbus_handle *h) { return mbus_serial_send_frame(h, NULL) == -1 && mbus_send_frame(h, NULL) != 0; }));
    R("mbus_serial_recv_frame without a context", mbus_serial_recv_frame(NULL, &x.f) == MBUS_RECV_RESULT_ERROR);
    R("mbus_serial_recv_frame without a frame", on_line(true, [](mbus_handle *h) { return mbus_serial_recv_frame(h, NULL) == MBUS_RECV_RESULT_ERROR && mbus_recv_frame(h, NULL) == MBUS_RECV_RESULT_ERROR; }));
    R("mbus_serial_data_free without a context", (mbus_serial_data_free(NULL), true));
    R("mbus_disconnect of a context that is not connected", [&] { mbus_handle *h = mbus_context_tcp("nowhere", 1); int a = mbus_disconnect(h); mbus_context_free(h); h = mbus_context_serial("/dev/none"); int b = mbus_disconnect(h); mbus_context_free(h); return a == -1 && b == -1; }());
#undef R
    return r;
}
VF_PROPERTY(P36, 120000, 10000000, "sequences of 1-12 calls each with one argument missing (103 call and argument combinations), the others valid and generated: the failure value is returned, nothing is sent or received, nothing leaks, and a telegram decodes afterwards as before; non-trivial: always; distinct by sequence") {
    static const std::vector<Refusal> all = refusals();
    Fix x; VarGen v = gen_variable(g, 120); x.ud = v.ud; Tel t = rsp_tel(0x72, x.ud, g.byte()); x.bytes = tel_bytes(t);
    memset(&x.d, 0, sizeof x.d); VF_CHECK(frame_from(&x.f, t), "valid telegram rejected");
    B = &x.bus; x.h = bus_handle(g.coin()); Capture c1(&stdout), c2(&stderr);
    VF_CHECK(mbus_frame_data_parse(&x.f, &x.d) == 0, "valid reply rejected"); char *q = mbus_frame_data_xml(&x.d); std::string before = q ? q : "-"; if (q) vf_release(q);
    mbus_frame f0 = x.f; long live = Heap::live(); size_t n = g.size(1, 12); std::string seq;
    for (size_t i = 0; i < n; i++) {
        const Refusal &r = g.pick(all); note("%s", r.name); seq += std::string(r.name) + "\n";
        bool ok = r.call(x);
        VF_CHECK(ok, "%s is not refused", r.name);
        VF_CHECK(!x.bus.sends && !x.bus.recvs, "%s uses the bus", r.name);
        VF_CHECK(Heap::live() == live, "%s leaves %ld blocks behind", r.name, Heap::live() - live);
        VF_CHECK(!memcmp(&f0, &x.f, sizeof f0), "%s changes the telegram", r.name);
        label(r.name);
    }
    q = mbus_frame_data_xml(&x.d); VF_CHECK(q && before == q, "the decoded data reads differently after refused calls"); vf_release(q);
    if (x.d.data_var.record) mbus_data_record_free(x.d.data_var.record);
    mbus_context_free(x.h); nontrivial(seq);
}
