// Reference semantics of data records: values, units, normalization (written from the M-Bus specification tables)
#pragma once
#include "lib.h"

// ---------------------------------------------------------------- primitive codecs
inline __int128 ref_int(const uint8_t *d, size_t n) { // little-endian two's complement
    __int128 v = 0; for (size_t i = n; i-- > 0;) v = (v << 8) | d[i];
    if (n && (d[n - 1] & 0x80)) v -= ((__int128)1) << (8 * n);
    return v;
}
// BCD: defined when every nibble is 0..9, the most significant one may be F (negative)
inline bool ref_bcd(const uint8_t *d, size_t n, long long &v) {
    v = 0; bool neg = false;
    for (size_t i = n; i-- > 0;) {
        int h = d[i] >> 4, l = d[i] & 15;
        if (i == n - 1 && h == 15) { neg = true; h = 0; }
        if (h > 9 || l > 9) return false;
        v = v * 100 + h * 10 + l;
    }
    if (neg) v = -v;
    return true;
}
inline uint64_t ref_le(const uint8_t *d, size_t n) { uint64_t v = 0; for (size_t i = n; i-- > 0;) v = v << 8 | d[i]; return v; }
struct RefTm { int sec, min, hour, day, mon /* 1-based, 0 for invalid+1 */, year, dst; bool zero; };
// mon/year as shown to the user
inline RefTm ref_tm(const uint8_t *d, size_t n) {
    RefTm z = {0, 0, 0, 0, 1, 1900, 0, true}, t = z; t.zero = false;
    if (n == 2) {
        t.day = d[0] & 31; t.mon = d[1] & 15; t.year = 2000 + ((d[0] >> 5) + ((d[1] >> 4) << 3)); return t;
    }
    if (n == 4) {
        if (d[0] & 0x80) return z;
        t.min = d[0] & 63; t.hour = d[1] & 31; t.day = d[2] & 31; t.mon = d[3] & 15; t.dst = d[1] >> 7;
        int y = (d[2] >> 5) + ((d[3] >> 4) << 3), c = (d[1] >> 5) & 3;
        if (c == 0 && y <= 80) c = 1;
        t.year = 1900 + 100 * c + y; return t;
    }
    if (n == 6) {
        if (d[1] & 0x80) return z;
        t.sec = d[0] & 63; t.min = d[1] & 63; t.hour = d[2] & 31; t.day = d[3] & 31; t.mon = d[4] & 15; t.dst = (d[0] >> 6) & 1;
        t.year = 2000 + ((d[3] >> 5) + ((d[4] >> 4) << 3)); return t;
    }
    return z;
}
inline std::string hexs(const Bytes &b) { std::string s; for (size_t i = 0; i < b.size(); i++) s += fmt(i ? " %02X" : "%02X", b[i]); return s; }

// ---------------------------------------------------------------- values
// a date or date-time record: 0 no, 1 date, 2 date-time
inline int ref_time_kind(const Rec &r) {
    int nib = r.dif & 15;
    if (r.special) return 0;
    if (nib == 2) return (r.vif & 0x7F) == 0x6C ? 1 : 0;
    if (nib == 4 || nib == 6) {
        if ((r.vif & 0x7F) == 0x6D) return 2;
        if (r.vif == 0xFD && !r.vife.empty() && ((r.vife[0] & 0x7F) == 0x30 || (r.vife[0] & 0x7F) == 0x70)) return 2;
    }
    return 0;
}
// text rendering of the value; false: the encoding does not define it. `prefix`: only the beginning is defined
inline bool ref_value(const Rec &r, std::string &s) {
    int nib = r.dif & 15; const uint8_t *d = r.data.data(); size_t n = r.data.size();
    if (r.special || nib == 15) { s = hexs(r.data); return true; }
    switch (ref_time_kind(r)) {
    case 1: { RefTm t = ref_tm(d, n); s = fmt("%04d-%02d-%02d", t.year, t.mon, t.day); return true; }
    case 2: { RefTm t = ref_tm(d, n); s = fmt("%04d-%02d-%02dT%02d:%02d:%02d", t.year, t.mon, t.day, t.hour, t.min, t.sec); return true; }
    }
    switch (nib) {
    case 0: s = ""; return true;
    case 1: case 2: case 3: case 4: case 6: case 7: s = fmt("%lld", (long long)ref_int(d, n)); return true;
    case 5: { uint32_t u = (uint32_t)ref_le(d, 4); float f; memcpy(&f, &u, 4); s = fmt("%f", f); return true; }
    case 9: case 10: case 11: case 12: case 14: {
        if ((r.dif & 0x30) == 0x30) { s = fmt("%llX", (unsigned long long)ref_le(d, n)); return true; }
        long long v; if (!ref_bcd(d, n, v)) return false;
        s = fmt("%lld", v); return true; }
    case 13: {
        Bytes b(r.data.begin() + 1, r.data.end());
        if (d[0] <= 0xBF) { Bytes x = reversed(b); s = std::string(x.begin(), x.end()); s = s.c_str(); return true; }
        s = hexs(reversed(b)); return true; }
    }
    return false; // 8: selection for readout
}
// decoded value: kind 0 undefined, 1 number, 2 string
inline int ref_decoded(const Rec &r, double &num, std::string &str) {
    int nib = r.dif & 15; const uint8_t *d = r.data.data(); size_t n = r.data.size();
    if (r.special || nib == 15) { str = hexs(r.data); return 2; }
    if (nib == 0) { str = ""; return 2; }
    int k = ref_time_kind(r);
    if (k) { ref_value(r, str); if (k == 2) str += "Z"; return 2; }
    switch (nib) {
    case 1: case 2: case 3: case 4: case 6: case 7: num = (double)ref_int(d, n); return 1;
    case 5: { uint32_t u = (uint32_t)ref_le(d, 4); float f; memcpy(&f, &u, 4); num = f; return 1; }
    case 9: case 10: case 11: case 12: case 14: { long long v; if (!ref_bcd(d, n, v)) return 0; num = (double)v; return 1; }
    case 13: {
        Bytes b(r.data.begin() + 1, r.data.end());
        if (d[0] <= 0xBF) { Bytes x = reversed(b); str = std::string(x.begin(), x.end()); return 2; }
        str = hexs(reversed(b)); return 2; }
    }
    return 0;
}

// ---------------------------------------------------------------- unit descriptions
inline std::string ref_prefix(int e) {
    switch (e) {
    case 0: return ""; case -3: return "m"; case -6: return "my"; case 1: return "10 "; case 2: return "100 "; case 3: return "k"; case 4: return "10 k"; case 5: return "100 k"; case 6: return "M"; case 9: return "G";
    }
    return fmt("1e%d ", e);
}
static const char *const NN[] = {"seconds", "minutes", "hours", "days"};
static const char *const NNP[] = {"second(s)", "minute(s)", "hour(s)", "day(s)"};
static const char *const PPP[] = {"hour(s)", "day(s)", "month(s)", "year(s)"};
// "?": a code without assigned meaning
inline std::string ref_unit_primary(uint8_t vif) {
    vif &= 0x7F; int n = vif & 7, m = vif & 3;
    struct R { uint8_t lo, hi; const char *a; int off; const char *b; };
    static const R t[] = {
        {0x00, 0x07, "Energy (", -3, "Wh)"}, {0x08, 0x0F, "Energy (", 0, "J)"}, {0x10, 0x17, "Volume (", -6, " m^3)"}, {0x18, 0x1F, "Mass (", -3, "kg)"},
        {0x28, 0x2F, "Power (", -3, "W)"}, {0x30, 0x37, "Power (", 0, "J/h)"}, {0x38, 0x3F, "Volume flow (", -6, " m^3/h)"}, {0x40, 0x47, "Volume flow (", -7, " m^3/min)"},
        {0x48, 0x4F, "Volume flow (", -9, " m^3/s)"}, {0x50, 0x57, "Mass flow (", -3, " kg/h)"},
        {0x58, 0x5B, "Flow temperature (", -3, "deg C)"}, {0x5C, 0x5F, "Return temperature (", -3, "deg C)"}, {0x60, 0x63, "Temperature Difference (", -3, " deg C)"},
        {0x64, 0x67, "External temperature (", -3, " deg C)"}, {0x68, 0x6B, "Pressure (", -3, " bar)"}};
    for (auto &r : t) if (vif >= r.lo && vif <= r.hi) return r.a + ref_prefix((r.hi - r.lo == 7 ? n : m) + r.off) + r.b;
    switch (vif & 0x7C) {
    case 0x20: return fmt("On time (%s)", NN[m]); case 0x24: return fmt("Operating time (%s)", NN[m]);
    case 0x70: return fmt("Averaging Duration (%s)", NN[m]); case 0x74: return fmt("Actuality Duration (%s)", NN[m]);
    }
    switch (vif) {
    case 0x6C: return "Time Point (date)"; case 0x6D: return "Time Point (time & date)"; case 0x6E: return "Units for H.C.A."; case 0x6F: return "?";
    case 0x78: return "Fabrication number"; case 0x7A: return "Bus Address"; case 0x7F: return "Manufacturer specific";
    }
    return "?";
}
inline std::string ref_unit_fb(uint8_t e) {
    e &= 0x7F; int n = e & 1, m = e & 3;
    const char *tenth = n ? "" : "0.1 ";
    switch (e) {
    case 0x00: case 0x01: return fmt("Energy (%sMWh)", tenth);
    case 0x08: case 0x09: return fmt("Energy (%sGJ)", tenth);
    case 0x10: case 0x11: return "Volume (" + ref_prefix(n + 2) + "m3)";
    case 0x18: case 0x19: return "Mass (" + ref_prefix(n + 2) + "t)";
    case 0x21: return "Volume (0.1 feet^3)";
    case 0x22: case 0x23: return fmt("Volume (%samerican gallon)", tenth);
    case 0x24: return "Volume flow (0.001 american gallon/min)"; case 0x25: return "Volume flow (american gallon/min)"; case 0x26: return "Volume flow (american gallon/h)";
    case 0x28: case 0x29: return fmt("Power (%sMW)", tenth);
    case 0x30: case 0x31: return fmt("Power (%sGJ/h)", tenth);
    }
    switch (e & 0x7C) {
    case 0x58: return "Flow Temperature (" + ref_prefix(m - 3) + " degree F)"; case 0x5C: return "Return Temperature (" + ref_prefix(m - 3) + " degree F)";
    case 0x60: return "Temperature Difference (" + ref_prefix(m - 3) + " degree F)"; case 0x64: return "External Temperature (" + ref_prefix(m - 3) + " degree F)";
    case 0x70: return "Cold / Warm Temperature Limit (" + ref_prefix(m - 3) + " degree F)"; case 0x74: return "Cold / Warm Temperature Limit (" + ref_prefix(m - 3) + " degree C)";
    }
    if ((e & 0x78) == 0x78) return "cumul. count max power (" + ref_prefix((e & 7) - 3) + " W)";
    return "?";
}
static const char *const FD_PLAIN[] = { // 0x08..0x23
    "Access Number (transmission count)", "Medium (as in fixed header)", "Manufacturer (as in fixed header)", "Parameter set identification", "Model / Version", "Hardware version", "Firmware version", "Software version",
    "Customer location", "Customer", "Access Code User", "Access Code Operator", "Access Code System Operator", "Access Code Developer", "Password", "Error flags", "Error mask", "?",
    "Digital output (binary)", "Digital input (binary)", "Baudrate", "response delay time", "Retry", "?", "First storage # for cyclic storage", "Last storage # for cyclic storage", "Size of storage block", "?"};
static const char *const FD_60[] = {"Reset counter", "Cumulation counter", "Control signal", "Day of week", "Week number", "Time point of day change", "State of parameter activation", "Special supplier information"};
inline std::string ref_unit_fd(uint8_t e) {
    e &= 0x7F; int m = e & 3;
    if (e < 4) return "Credit of " + ref_prefix(m - 3) + " of the nominal local legal currency units";
    if (e < 8) return "Debit of " + ref_prefix(m - 3) + " of the nominal local legal currency units";
    if (e <= 0x23) return FD_PLAIN[e - 8];
    if (e <= 0x27) return std::string("Storage interval ") + NNP[m];
    switch (e) {
    case 0x28: return "Storage interval month(s)"; case 0x29: return "Storage interval year(s)"; case 0x2A: case 0x2B: return "?";
    case 0x30: return "Start (date/time) of tariff"; case 0x38: return "Period of tariff months(s)"; case 0x39: return "Period of tariff year(s)"; case 0x3A: return "dimensionless / no VIF";
    case 0x70: return "Date and time of battery change";
    }
    if (e <= 0x2F) return std::string("Duration since last readout ") + NNP[m];
    if (e <= 0x33) return std::string("Duration of tariff ") + NNP[m];
    if (e <= 0x37) return std::string("Period of tariff ") + NNP[m];
    if (e <= 0x3F) return "?";
    if (e <= 0x4F) return ref_prefix((e & 15) - 9) + " V";
    if (e <= 0x5F) return ref_prefix((e & 15) - 12) + " A";
    if (e <= 0x67) return FD_60[e - 0x60];
    if (e <= 0x6B) return std::string("Duration since last cumulation ") + PPP[m];
    if (e <= 0x6F) return std::string("Operating time battery ") + PPP[m];
    return "?";
}
inline std::string ref_text(const Rec &r) { Bytes x = reversed(r.text); std::string s(x.begin(), x.end()); return s.c_str(); }
// "?": unknown/reserved/not defined
inline std::string ref_unit(const Rec &r) {
    if (r.vif == 0xFB) return r.vife.empty() ? "?" : ref_unit_fb(r.vife[0]);
    if (r.vif == 0xFD) return r.vife.empty() ? "?" : ref_unit_fd(r.vife[0]);
    if (r.custom) {
        if (r.vif == 0xFC && !r.vife.empty() && (r.vife[0] & 0x78) == 0x70) return ref_prefix((r.vife[0] & 7) - 6) + " " + ref_text(r);
        return ref_text(r);
    }
    return ref_unit_primary(r.vif);
}
inline bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
inline bool unit_unassigned(const std::string &s) { return starts(s, "Unknown") || starts(s, "Reserved") || starts(s, "Unrecognized") || starts(s, "Missing"); }

// ---------------------------------------------------------------- normalization
struct Norm { bool known = false, reserved = false; double factor = 1; std::string unit, quantity; };
inline Norm nrm(double f, const std::string &u, const std::string &q) { Norm n; n.known = true; n.factor = f; n.unit = u; n.quantity = q; return n; }
inline Norm nres() { Norm n; n.known = n.reserved = true; n.factor = 1; n.unit = "Reserved"; n.quantity = "Reserved"; return n; }
inline double p10(int e) { return pow(10.0, e); }
static const double NNF[] = {1, 60, 3600, 86400};
static const double PPF[] = {3600, 86400, 2629743.83, 31556926};
#define DEGC "\xC2\xB0""C"
#define DEGF "\xC2\xB0""F"
inline Norm ref_norm_primary(uint8_t v) {
    v &= 0x7F; int n = v & 7, m = v & 3;
    switch (v >> 3) {
    case 0x00: return nrm(p10(n - 3), "Wh", "Energy"); case 0x01: return nrm(p10(n), "J", "Energy"); case 0x02: return nrm(p10(n - 6), "m^3", "Volume"); case 0x03: return nrm(p10(n - 3), "kg", "Mass");
    case 0x04: return nrm(NNF[m], "s", v & 4 ? "Operating time" : "On time");
    case 0x05: return nrm(p10(n - 3), "W", "Power"); case 0x06: return nrm(p10(n), "J/h", "Power"); case 0x07: return nrm(p10(n - 6), "m^3/h", "Volume flow");
    case 0x08: return nrm(p10(n - 7), "m^3/min", "Volume flow"); case 0x09: return nrm(p10(n - 9), "m^3/s", "Volume flow"); case 0x0A: return nrm(p10(n - 3), "kg/h", "Mass flow");
    case 0x0B: return nrm(p10(m - 3), DEGC, v & 4 ? "Return temperature" : "Flow temperature");
    case 0x0C: return v & 4 ? nrm(p10(m - 3), DEGC, "External temperature") : nrm(p10(m - 3), "K", "Temperature difference");
    case 0x0E: return nrm(NNF[m], "s", v & 4 ? "Actuality Duration" : "Averaging Duration");
    }
    switch (v) {
    case 0x68: case 0x69: case 0x6A: case 0x6B: return nrm(p10(m - 3), "bar", "Pressure");
    case 0x6C: return nrm(1, "-", "Time point (date)"); case 0x6D: return nrm(1, "-", "Time point (date & time)"); case 0x6E: return nrm(1, "Units for H.C.A.", "H.C.A."); case 0x6F: return nres();
    case 0x78: return nrm(1, "", "Fabrication No"); case 0x79: return nrm(1, "", "(Enhanced) Identification"); case 0x7A: return nrm(1, "", "Bus Address");
    case 0x7E: return nrm(1, "", "Any VIF"); case 0x7F: return nrm(1, "", "Manufacturer specific");
    }
    return Norm();
}
static const char *const FDN[] = { // 0x108..0x123
    "Access Number (transmission count)", "Medium", "Manufacturer", "Parameter set identification", "Model / Version", "Hardware version", "Firmware version", "Software version", "Customer location", "Customer",
    "Access Code User", "Access Code Operator", "Access Code System Operator", "Access Code Developer", "Password", "Error flags", "Error mask", 0, "Digital Output", "Digital Input", "Baudrate", "Response delay time", "Retry", 0,
    "First storage # for cyclic storage", "Last storage # for cyclic storage", "Size of storage block", 0};
inline Norm ref_norm_fd(uint8_t e) {
    e &= 0x7F; int m = e & 3;
    if (e < 8) return nrm(p10(m - 3), "Currency units", e < 4 ? "Credit" : "Debit");
    if (e <= 0x23) { if (!FDN[e - 8]) return nres(); return nrm(1, e == 0x1C ? "Baud" : e == 0x1D ? "Bittimes" : "", FDN[e - 8]); }
    if (e <= 0x27) return nrm(NNF[m], "s", "Storage interval");
    if (e <= 0x29) return nrm(PPF[2 + m], "s", "Storage interval");
    if (e <= 0x2B) return nres();
    if (e <= 0x2F) return nrm(NNF[m], "s", "Duration since last readout");
    if (e == 0x30) return nres();                        // start of a tariff: a point in time, not a quantity
    if (e <= 0x33) return nrm(NNF[m], "s", "Duration of tariff");
    if (e <= 0x37) return nrm(NNF[m], "s", "Period of tariff");
    if (e <= 0x39) return nrm(PPF[2 + m], "s", "Period of tariff");
    if (e == 0x3A) return nrm(1, "", "Dimensionless");
    if (e <= 0x3F) return nres();
    if (e <= 0x4F) return nrm(p10((e & 15) - 9), "V", "Voltage");
    if (e <= 0x5F) return nrm(p10((e & 15) - 12), "A", "Current");
    if (e <= 0x67) return nrm(1, "", FD_60[e - 0x60]);
    if (e <= 0x6B) return nrm(PPF[m], "s", "Duration since last cumulation");
    if (e <= 0x6F) return nrm(PPF[m], "s", "Operating time battery");
    if (e == 0x70) return nrm(1, "", "Date and time of battery change");
    return nres();
}
inline Norm ref_norm_fb(uint8_t e) {
    e &= 0x7F; int n = e & 1, m = e & 3;
    switch (e) {
    case 0x00: case 0x01: return nrm(p10(5 + n), "Wh", "Energy"); case 0x08: case 0x09: return nrm(p10(8 + n), "J", "Energy");
    case 0x10: case 0x11: return nrm(p10(2 + n), "m^3", "Volume"); case 0x18: case 0x19: return nrm(p10(5 + n), "kg", "Mass");
    case 0x21: return nrm(0.1, "feet^3", "Volume"); case 0x22: return nrm(0.1, "American gallon", "Volume"); case 0x23: return nrm(1, "American gallon", "Volume");
    case 0x24: return nrm(1e-3, "American gallon/min", "Volume flow"); case 0x25: return nrm(1, "American gallon/min", "Volume flow"); case 0x26: return nrm(1, "American gallon/h", "Volume flow");
    case 0x28: case 0x29: return nrm(p10(5 + n), "W", "Power"); case 0x30: case 0x31: return nrm(p10(8 + n), "J/h", "Power");
    }
    switch (e & 0x7C) {
    case 0x58: return nrm(p10(m - 3), DEGF, "Flow temperature"); case 0x5C: return nrm(p10(m - 3), DEGF, "Return temperature"); case 0x60: return nrm(p10(m - 3), DEGF, "Temperature difference");
    case 0x64: return nrm(p10(m - 3), DEGF, "External temperature"); case 0x70: return nrm(p10(m - 3), DEGF, "Cold / Warm Temperature Limit"); case 0x74: return nrm(p10(m - 3), DEGC, "Cold / Warm Temperature Limit");
    }
    if (e >= 0x78) return nrm(p10((e & 7) - 3), "W", "Cumul count max power");
    return nres(); // 0x50 and 0x51 are reserved as well; the library may call them unknown
}
inline Norm ref_norm(const Rec &r) {
    if (r.vif == 0xFB) return r.vife.empty() ? Norm() : ref_norm_fb(r.vife[0]);
    if (r.vif == 0xFD) return r.vife.empty() ? Norm() : ref_norm_fd(r.vife[0]);
    if (r.custom) return nrm(1, "-", ref_text(r));
    return ref_norm_primary(r.vif);
}
// correction by the first VIF extension: factor and addend
inline void ref_corr(const Rec &r, double &mul, double &add) {
    mul = 1; add = 0;
    if (!(r.vif & 0x80) || r.vif == 0xFB || r.vif == 0xFD || r.vife.empty()) return;
    uint8_t e = r.vife[0] & 0x7F;
    if ((e & 0x78) == 0x70) mul = p10((e & 7) - 6);
    else if ((e & 0x7C) == 0x78) add = p10((e & 3) - 3);
    else if (e == 0x7D) mul = 1000;
}
inline bool close_to(double a, double b) {
    if (a == b || (a != a && b != b)) return true;
    double m = fmax(fabs(a), fabs(b));
    return fabs(a - b) <= 1e-11 * m;
}

// the library's record for an abstract one
inline bool lib_record(const Rec &r, mbus_data_record *d) {
    memset(d, 0, sizeof *d);
    d->drh.dib.dif = r.dif; d->drh.dib.ndife = r.dife.size(); for (size_t i = 0; i < r.dife.size(); i++) d->drh.dib.dife[i] = r.dife[i];
    d->drh.vib.vif = r.vif; d->drh.vib.nvife = r.vife.size(); for (size_t i = 0; i < r.vife.size(); i++) d->drh.vib.vife[i] = r.vife[i];
    Bytes t = reversed(r.text); for (size_t i = 0; i < t.size() && i < MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE; i++) d->drh.vib.custom_vif[i] = t[i];
    d->data_len = r.data.size(); for (size_t i = 0; i < r.data.size() && i < sizeof d->data; i++) d->data[i] = r.data[i];
    return true;
}
// decoded through a telegram: header + one record
struct OneRec {
    mbus_frame f; mbus_frame_data d; mbus_data_record *rec = nullptr;
    OneRec(const Rec &r) {
        Bytes ud(12); rec_bytes(r, ud);
        memset(&d, 0, sizeof d);
        VF_CHECK(frame_from(&f, rsp_tel(0x72, ud)), "a valid telegram is rejected");
        VF_CHECK(mbus_frame_data_parse(&f, &d) == 0, "a telegram with one well-formed record is not decoded: %s", mbus_error_str());
        VF_CHECK(d.data_var.nrecords == 1 && d.data_var.record, "one record sent, %zu decoded", d.data_var.nrecords);
        rec = d.data_var.record;
    }
    ~OneRec() { if (d.data_var.record) mbus_data_record_free(d.data_var.record); }
};
