// A strict parser for the XML the library writes (ISO-8859-1, elements, attributes, the five predefined entities)
#pragma once
#include "vf.h"
#include <string.h>
struct El {
    std::string name, text; std::vector<std::pair<std::string, std::string>> attr; std::vector<El> kids;
    const El *kid(const char *n) const { for (auto &k : kids) if (k.name == n) return &k; return nullptr; }
    std::string names() const { std::string s; for (auto &k : kids) s += (s.empty() ? "" : " ") + k.name; return s; }
    std::string of(const char *n) const { const El *k = kid(n); return k ? k->text : std::string("(none)"); }
};
class Xml {
    const std::string &s; size_t i = 0;
    bool err(const std::string &m) { if (why.empty()) why = m + vf::fmt(" at byte %zu (...%s)", i, vf::esc(s.substr(i > 20 ? i - 20 : 0, 40)).c_str()); return false; }
    bool ws() { size_t j = i; while (i < s.size() && strchr(" \t\r\n", s[i]) && s[i]) i++; return i > j; }
    static bool first(char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '_'; }
    bool name(std::string &n) {
        if (i >= s.size() || !first(s[i])) return err("a name is missing");
        while (i < s.size() && (first(s[i]) || (s[i] >= '0' && s[i] <= '9') || s[i] == '-' || s[i] == '.')) n += s[i++];
        return true;
    }
    bool chr(std::string &o) { // one character of text
        unsigned char c = (unsigned char)s[i];
        if (c < 0x20 && c != '\t' && c != '\n' && c != '\r') return err(vf::fmt("character %02X is not allowed", c));
        if (c == '&') {
            static const struct { const char *n; char c; } e[] = {{"&amp;", '&'}, {"&lt;", '<'}, {"&gt;", '>'}, {"&quot;", '"'}, {"&apos;", '\''}};
            for (auto &x : e) if (!s.compare(i, strlen(x.n), x.n)) { o += x.c; i += strlen(x.n); return true; }
            return err("unknown entity");
        }
        if (!s.compare(i, 3, "]]>")) return err("]]> in text");
        o += s[i++]; return true;
    }
    bool element(El &e, int depth) {
        if (depth > 20) return err("nested too deep");
        if (i >= s.size() || s[i] != '<') return err("an element is missing");
        i++; if (!name(e.name)) return false;
        for (;;) {
            bool sp = ws();
            if (i >= s.size()) return err("document ends inside a tag");
            if (s[i] == '>') { i++; break; }
            if (!s.compare(i, 2, "/>")) { i += 2; return true; }
            if (!sp) return err("no space before an attribute");
            std::string n, v; if (!name(n)) return false;
            if (i >= s.size() || s[i] != '=') return err("= is missing"); i++;
            if (i >= s.size() || (s[i] != '"' && s[i] != '\'')) return err("attribute not quoted");
            char q = s[i++];
            while (i < s.size() && s[i] != q) { if (s[i] == '<') return err("< in an attribute"); if (!chr(v)) return false; }
            if (i >= s.size()) return err("document ends inside an attribute"); i++;
            for (auto &a : e.attr) if (a.first == n) return err("attribute " + n + " twice");
            e.attr.push_back({n, v});
        }
        for (;;) {
            if (i >= s.size()) return err("document ends inside <" + e.name + ">");
            if (s[i] == '<') {
                if (i + 1 < s.size() && s[i + 1] == '/') {
                    i += 2; std::string n; if (!name(n)) return false; ws();
                    if (n != e.name) return err("<" + e.name + "> closed by </" + n + ">");
                    if (i >= s.size() || s[i] != '>') return err("> is missing"); i++;
                    break;
                }
                El k; if (!element(k, depth + 1)) return false; e.kids.push_back(k);
            } else if (!chr(e.text)) return false;
        }
        if (!e.kids.empty()) {
            for (char c : e.text) if (!strchr(" \t\r\n", c) || !c) return err("text beside the elements of <" + e.name + ">");
            e.text.clear();
        } else if (e.text.find_first_not_of(" \t\r\n") == std::string::npos && e.text.find('\n') != std::string::npos) e.text.clear(); // an empty container
        return true;
    }
public:
    std::string why; El root;
    Xml(const std::string &t) : s(t) {}
    bool parse() {
        static const char *decl = "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>";
        if (s.compare(0, strlen(decl), decl)) return err("no XML declaration");
        i = strlen(decl); ws();
        if (!element(root, 0)) return false;
        ws();
        if (i != s.size()) return err("text after the document");
        return true;
    }
};
