// P17: texts and bytes given in the schema come out unchanged in the generated COMMS definitions.
#include "gen.h"
#include "CommsGenerator.h"
#include "CommsProgramOptions.h"
using CG = Gen<commsdsl2comms::CommsGenerator, commsdsl2comms::CommsProgramOptions>;
void sx_prepare() {}
// symbolic characters inside of a text of known length
static std::string text(const char* n, unsigned len)
{
    std::string s = sx::chars(n, len, ' ', '~');
    for (char& c : s) {
        unsigned char u = (unsigned char)c;
        sxn_assume((unsigned)(u != '<') & (unsigned)(u != '&') & (unsigned)(u != '\\'));
    }
    return s;
}
static std::string quoted(const std::string& n, const std::string& v) { return " " + n + "='" + v + "'"; }
// value of the C++ string literal which starts at `p` of the text
static bool literal(const Text& x, size_t& p, std::string& out)
{
    out.clear();
    if (p >= x.s.size() || x.t[p] != '"') return false;
    for (++p; p < x.s.size(); ++p) {
        char c = x.t[p];
        if (c == '"') { ++p; return true; }
        if (c == '\n') return false;
        if (c == '\\') { if (++p >= x.s.size()) return false; c = x.t[p]; if (c != '"' && c != '\\') return false; }
        out += c;
    }
    return false;
}
static bool same(const std::string& a, const std::string& b)
{
    if (a.size() != b.size()) return false;
    unsigned ok = 1;
    for (size_t i = 0; i < a.size(); ++i) ok &= (unsigned)(a[i] == b[i]);
    return ok;
}
static bool returned(const Text& f, const std::string& scope, const char* fn, std::string& out)
{
    Text s = scope.empty() ? f : bodyOf(f, scope);
    Text b = bodyOf(s, fn);
    size_t p = b.find("return ");
    if (p == std::string::npos) return false;
    p += 7;
    return literal(b, p, out);
}
static void strings()
{
    unsigned where = sx::choice("where", 2);
    unsigned len = sxn_thorough() ? 3 : 2;
    std::string v = text("text", len);
    for (unsigned i : {0u, len - 1}) { unsigned char u = (unsigned char)v[i]; sxn_assume((unsigned)(u != ' ')); }
    { unsigned char u = (unsigned char)v[0]; sxn_assume((unsigned)(u != '^')); }
    for (char& c : v) { unsigned char u = (unsigned char)c; sxn_assume(u != '\''); }
    std::string attrs = attr("name", "f"), kids;
    if (where == 0) attrs += quoted("defaultValue", v);
    else kids = tag("validValue", quoted("value", v)) + tag("validValue", attr("value", "mm"));
    if (where == 1) sxn_assume(!same(v, "mm"));
    CG g;
    g.xml("s.xml", schema("<fields>" + tag("string", attrs, kids) + "</fields><message name=\"M\" id=\"1\"><ref name=\"x\" field=\"f\"/></message>")).run("commsdsl2comms");
    sxn_assert(g.rc == 0, "string-refused");
    if (g.rc != 0) return;
    Text f = g.file("include/s/field/F.h");
    std::string got;
    if (where == 0) {
        size_t p = f.find("static const char Str[] = ");
        sxn_assert(p != std::string::npos, "string-default-missing"); if (p == std::string::npos) return;
        p += 26;
        sxn_assert(literal(f, p, got) && f.t[p] == ';', "string-literal");
        sxn_assert(same(got, v), "string-default");
    } else {
        size_t p = f.find("Map[] = {");
        sxn_assert(p != std::string::npos, "string-valid-missing"); if (p == std::string::npos) return;
        std::vector<std::string> l;
        p += 9;
        for (unsigned i = 0; i < 2; ++i) {
            while (p < f.s.size() && strchr(" \n,", f.s[p])) ++p;
            bool ok = literal(f, p, got);
            sxn_assert(ok, "string-literal"); if (!ok) return;
            l.push_back(got);
        }
        while (p < f.s.size() && strchr(" \n,", f.s[p])) ++p;
        sxn_assert(f.s[p] == '}', "string-valid-unexpected");
        sxn_assert((same(l[0], v) && same(l[1], "mm")) || (same(l[1], v) && same(l[0], "mm")), "string-valid");
        // std::lower_bound over the list
        bool less = false, eq = true;
        for (unsigned i = 0; i < std::min(l[0].size(), l[1].size()) && eq; ++i) { if ((unsigned char)l[0][i] != (unsigned char)l[1][i]) { eq = false; less = (unsigned char)l[0][i] < (unsigned char)l[1][i]; } }
        if (eq) less = l[0].size() < l[1].size();
        sxn_assert(less, "string-valid-order");
    }
    sxn_reach("string");
}
static void data()
{
    unsigned where = sx::choice("where", 2);
    static const char D[] = "0123456789abcdef";
    uint8_t a = (uint8_t)sxn_var("byte0", 8, 0, 255), b = (uint8_t)sxn_var("byte1", 8, 0, 255);
    auto hx = [&](uint8_t x) { std::string s = sx::hex(x); return s.substr(16); };
    (void)D;
    std::string v = hx(a) + "7f" + hx(b), attrs = attr("name", "f"), kids;
    if (where == 0) attrs += attr("defaultValue", v);
    else kids = tag("validValue", attr("value", v)) + tag("validValue", attr("value", "50 80"));
    CG g;
    g.xml("s.xml", schema("<fields>" + tag("data", attrs, kids) + "</fields><message name=\"M\" id=\"1\"><ref name=\"x\" field=\"f\"/></message>")).run("commsdsl2comms");
    sxn_assert(g.rc == 0, "data-refused");
    if (g.rc != 0) return;
    Text f = g.file("include/s/field/F.h");
    bool good = true;
    auto bytes = [&](size_t p) {
        std::vector<uint64_t> r;
        size_t o = f.find("{", p), e = matching(f.s, o);
        for (auto& x : split(f.sub(o + 1, e), ',')) { V n = number(x, good); sxn_assert(n.v <= 255, "data-byte"); r.push_back(n.v); }
        return r;
    };
    auto is3 = [&](const std::vector<uint64_t>& x) { return x.size() == 3 && (unsigned)(x[0] == a) & (unsigned)(x[1] == 0x7f) & (unsigned)(x[2] == b); };
    if (where == 0) {
        size_t p = f.find("static const std::uint8_t Data[] =");
        sxn_assert(p != std::string::npos, "data-default-missing"); if (p == std::string::npos) return;
        sxn_assert(is3(bytes(p)), "data-default");
    } else {
        // arrays in the order of the map
        size_t m = f.find("static const MapElem Map[] = {");
        sxn_assert(m != std::string::npos, "data-valid-missing"); if (m == std::string::npos) return;
        size_t o = f.find("{", m), e = matching(f.s, o);
        std::vector<std::vector<uint64_t>> l;
        for (auto& x : split(f.sub(o + 1, e), ',')) {
            size_t q = x.find("std::begin("); if (q == std::string::npos) { sxn_assert(false, "data-valid"); return; }
            std::string n = x.sub(q + 11, x.find(")", q)).s;
            size_t p = f.find("static const std::uint8_t " + n + "[] =");
            sxn_assert(p != std::string::npos && x.has("std::end(" + n + ")"), "data-valid"); if (p == std::string::npos) return;
            l.push_back(bytes(p));
        }
        sxn_assert(l.size() == 2, "data-valid"); if (l.size() != 2) return;
        auto is2 = [](const std::vector<uint64_t>& x) { return x.size() == 2 && (unsigned)(x[0] == 0x50) & (unsigned)(x[1] == 0x80); };
        sxn_assert((is3(l[0]) && is2(l[1])) || (is3(l[1]) && is2(l[0])), "data-valid");
        bool less = l[0][0] < l[1][0] || (l[0][0] == l[1][0] && (l[0][1] < l[1][1] || (l[0][1] == l[1][1] && l[0].size() < l[1].size())));
        sxn_assert(less, "data-valid-order");
    }
    sxn_assert(good, "unreadable-number");
    sxn_reach("data");
}
// display names
static void names()
{
    unsigned kind = sx::choice("kind", 5);
    unsigned len = sxn_thorough() ? 2 : 1;
    std::string v = "N" + text("name", len) + "x", at = quoted("displayName", v), kids, attrs = attr("name", "f");
    for (char& c : v) { unsigned char u = (unsigned char)c; sxn_assume(u != '\''); }
    std::string fld = "int"; std::string msg = attr("name", "M") + attr("id", "1");
    if (kind == 0) { attrs += attr("type", "uint8") + at; }
    else if (kind == 1) { fld = "enum"; attrs += attr("type", "uint8"); kids = tag("validValue", attr("name", "V") + attr("val", "1") + at); }
    else if (kind == 2) { fld = "enum"; attrs += attr("type", "uint64"); kids = tag("validValue", attr("name", "V") + attr("val", "0xffffffffff") + at); }
    else if (kind == 3) { fld = "set"; attrs += attr("length", "1"); kids = tag("bit", attr("name", "b") + attr("idx", "0") + at); }
    else { attrs += attr("type", "uint8"); msg += at; }
    CG g;
    g.xml("s.xml", schema("<fields>" + tag(fld, attrs, kids) + "</fields>" + tag("message", msg, "<ref name=\"x\" field=\"f\"/>"))).run("commsdsl2comms");
    sxn_assert(g.rc == 0, "name-refused");
    if (g.rc != 0) return;
    Text c = g.file("include/s/field/FCommon.h"), m = g.file("include/s/message/MCommon.h");
    std::string got; bool ok = false;
    if (kind == 0) ok = returned(c, "struct FCommon", "static const char* name()", got);
    else if (kind == 4) ok = returned(m, "struct MCommon", "static const char* name()", got);
    else {
        size_t p = c.find("Map[] = {"); 
        if (p != std::string::npos) {
            // the only literal of the list
            while (p < c.s.size() && !(c.s[p] == '"' || (c.s[p] == '}'))) ++p;
            ok = literal(c, p, got);
        }
    }
    sxn_assert(ok, "name-literal");
    sxn_assert(same(got, v), "name");
    sxn_reach("name");
}
void sx_harness()
{
    unsigned what = sx::choice("what", 3);
    if (what == 0) strings();
    else if (what == 1) data();
    else names();
}
