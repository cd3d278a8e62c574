// Enum fields: values, names, default, lengths are reported as declared and nothing outside the rules is accepted.
#include "h.h"
void sx_prepare() { P p; p.run(schema("<fields><enum name=\"f\" type=\"uint8\"><validValue name=\"A\" val=\"0\"/></enum></fields>")); }
static std::string vv(const std::string& n, const std::string& v, const std::string& more = "") { return tag("validValue", attr("name", n) + attr("val", v) + more); }
static std::string fields(const std::string& s) { return schema("<fields>" + s + "</fields>", "", "6"); }

static void values()
{
    auto& t = IntTypes[sx::choice("type", 10)];
    unsigned len = t.len;
    bool expect = true;
    std::string at = attr("name", "f") + attr("type", t.name);
    unsigned nu = sx::choice("nonUnique", 3);
    unsigned def = sx::choice("def", 3);
    if (nu == 0 && def == 0 && sx::choice("lenGiven", 2)) {
        auto l = sx::range("length", 0, 24);
        at += attr("length", sx::hex(l));
        if ((l == 0) | (l > t.len)) expect = false; else len = (unsigned)sxn_concretize(l);
    }
    if (nu) at += attr("nonUniqueAllowed", nu == 1 ? "false" : "true");
    uint64_t a = sx::u64("v1"), b = sx::u64("v2"), c = sx::u64("v3"), d = 0;
    if (def == 1) { at += attr("defaultValue", "B"); d = b; }
    if (def == 2) { d = sx::u64("default"); at += attr("defaultValue", num(t, d)); }
    unsigned n = (sxn_thorough() || &t == &IntTypes[4] || &t == &IntTypes[7]) && sx::choice("three", 2) ? 3 : 2;
    expect = (unsigned)expect & (unsigned)inType(t, a) & (unsigned)inType(t, b) & (unsigned)inType(t, d);
    bool distinct = a != b;
    if (n == 3) { expect = (unsigned)expect & (unsigned)inType(t, c); distinct = (unsigned)distinct & (unsigned)(a != c) & (unsigned)(b != c); }
    expect = (unsigned)expect & ((unsigned)(nu == 2) | (unsigned)distinct);
    P p;
    bool ok = p.run(fields(tag("enum", at, vv("A", num(t, a)) + vv("B", num(t, b)) + (n == 3 ? vv("C", num(t, c)) : ""))));
    sxn_assert(ok == expect, "accepted-iff-valid");
    if (!ok) { sxn_reach("rejected"); sxn_assert(p.errors > 0, "rejection-reported"); return; }
    sxn_reach("accepted");
    ParseEnumField f(p.field("f"));
    sxn_assert(f.parseValid(), "found");
    sxn_assert((unsigned)f.parseType() == (unsigned)(&t - IntTypes), "type");
    sxn_assert(f.parseMaxLength() == len && f.parseMinLength() == (t.var ? 1 : len), "length");
    sxn_assert((uint64_t)f.parseDefaultValue() == d, "default");
    auto& vs = f.parseValues();
    sxn_assert(vs.size() == n, "count");
    auto A = vs.find("A"), B = vs.find("B");
    sxn_assert(A != vs.end() && B != vs.end(), "names");
    sxn_assert((uint64_t)A->second.m_value == a && (uint64_t)B->second.m_value == b, "values");
    if (n == 3) { auto C = vs.find("C"); sxn_assert(C != vs.end() && (uint64_t)C->second.m_value == c, "values"); }
    auto& rv = f.parseRevValues();
    sxn_assert(rv.size() == n, "reverse-count");
    for (auto& r : rv) { auto i = vs.find(r.second); sxn_assert(i != vs.end() && i->second.m_value == r.first, "reverse-map"); }
    sxn_assert(f.parseIsNonUniqueAllowed() == (nu == 2), "non-unique-flag");
    sxn_assert(f.parseIsUnique() == distinct, "is-unique");
}

// names of the values
static void names()
{
    unsigned n = 1 + sx::choice("len", 2);
    std::string s = sx::chars("n", n, 0x21, 0x7e);
    bool valid = true;
    for (unsigned i = 0; i < n; ++i) {
        unsigned char ch = s[i];
        unsigned al = (unsigned)((ch >= 'a') & (ch <= 'z')) | (unsigned)((ch >= 'A') & (ch <= 'Z')) | (unsigned)(ch == '_');
        if (i) al |= (unsigned)((ch >= '0') & (ch <= '9'));
        valid = (unsigned)valid & al;
        sxn_assume((ch != '<') & (ch != '&') & (ch != '"'));
    }
    bool dup = n == 1 ? s[0] == 'B' : false;
    P p;
    bool ok = p.run(fields(tag("enum", attr("name", "f") + attr("type", "uint8"), vv("B", "1") + vv(s, "2"))));
    sxn_assert(ok == ((unsigned)valid & (unsigned)!dup), "name-accepted-iff-valid-and-new");
    if (!ok) return;
    sxn_reach("name-accepted");
    ParseEnumField f(p.field("f"));
    sxn_assert(f.parseValues().size() == 2, "both-values");
    sxn_assert(f.parseRevValues().find(2) != f.parseRevValues().end() && f.parseRevValues().find(2)->second == s, "name-kept");
}

// versions of the values, in a message member
static void versions()
{
    auto s1 = sx::range("since", 0, 9), d1 = sx::range("deprecated", 0, 9);
    unsigned how = sx::choice("how", 4);
    std::string more;
    unsigned fs = 2, fd = 5, es = fs, ed = fd;
    if (how & 1) { more += attr("sinceVersion", sx::hex(s1)); es = s1; }
    if (how & 2) { more += attr("deprecated", sx::hex(d1)); ed = d1; }
    bool valid = (es >= fs) & (es <= 6) & (es < ed) & (ed <= fd) & (ed <= 6);
    P p;
    bool ok = p.run(schema(tag("message", attr("name", "M") + attr("id", "1"), tag("enum", attr("name", "f") + attr("type", "int16") + attr("sinceVersion", "2") + attr("deprecated", "5"), vv("A", "0x1", more) + vv("B", "3"))), "", "6"));
    if (!(how & 2) && (how & 1)) valid = (es >= fs) & (es <= 6) & (es < fd);
    sxn_assert(ok == valid, "version-accepted-iff-within-the-field");
    if (!ok) return;
    sxn_reach("versioned");
    ParseEnumField f(p.message("M").parseFields().at(0));
    auto& a = f.parseValues().find("A")->second;
    auto& b = f.parseValues().find("B")->second;
    sxn_assert(a.m_sinceVersion == es && a.m_deprecatedSince == ed, "value-version");
    sxn_assert(b.m_sinceVersion == 2 && b.m_deprecatedSince == 5, "value-version-inherited");
}

// numbers given by reference to values of other fields and to earlier values; missing values; flags
static void misc()
{
    unsigned k = sx::choice("k", 8);
    uint64_t v = sx::u64("v");
    auto& t = IntTypes[sx::choice("type", 2) ? 7 : 2];
    P p;
    if (k == 0) { sxn_assert(!p.run(fields(tag("enum", attr("name", "f") + attr("type", "uint8")))), "no-values-refused"); return; }
    if (k == 1) { sxn_assert(!p.run(fields(tag("enum", attr("name", "f"), vv("A", "1")))), "no-type-refused"); return; }
    if (k == 2) { sxn_assert(!p.run(fields(tag("enum", attr("name", "f") + attr("type", "float"), vv("A", "1")))), "bad-type-refused"); return; }
    if (k == 3 || k == 4) {
        auto& o = IntTypes[3];
        sxn_assume(inType(o, v));
        bool ok = p.run(fields(tag("enum", attr("name", "o") + attr("type", o.name), vv("X", num(o, v))) + tag("enum", attr("name", "f") + attr("type", t.name) + attr("nonUniqueAllowed", "true"), vv("A", k == 3 ? "o.X" : num(t, v)) + vv("B", "A"))));
        sxn_assert(ok == inType(t, v), "referenced-value-accepted-iff-in-type");
        if (!ok) return;
        ParseEnumField f(p.field("f"));
        sxn_assert((uint64_t)f.parseValues().find("A")->second.m_value == v && (uint64_t)f.parseValues().find("B")->second.m_value == v, "referenced-value");
        return;
    }
    if (k == 5) {
        unsigned h = sx::choice("hex", 3);
        auto& s = IntTypes[sx::choice("st", 10)];
        bool ok = p.run(fields(tag("enum", attr("name", "f") + attr("type", s.name) + (h ? attr("hexAssign", h == 1 ? "true" : "false") : ""), vv("A", "1"))));
        sxn_assert(ok == (h == 0 || !s.sig), "hex-only-unsigned");
        if (ok) sxn_assert(ParseEnumField(p.field("f")).parseHexAssign() == (h == 1), "hex-flag");
        return;
    }
    static const char* B[] = {"", "true", "false", "1", "0", "TRUE", "False", "yes"};
    unsigned b = sx::choice("b", 8), e = sx::choice("e", 4);
    static const char* E[] = {"", "big", "Little", "pdp"};
    const char* n = k == 6 ? "validCheckVersion" : "availableLengthLimit";
    bool ok = p.run(fields(tag("enum", attr("name", "f") + attr("type", "uint16") + (b ? attr(n, B[b]) : "") + (e ? attr("endian", E[e]) : ""), vv("A", "1"))));
    sxn_assert(ok == (b != 7 && e != 3), "flags-accepted-iff-valid");
    if (!ok) return;
    bool bv = b == 1 || b == 3 || b == 5;
    ParseEnumField f(p.field("f"));
    sxn_assert(f.parseValidCheckVersion() == (k == 6 && bv), "valid-check-version");
    sxn_assert(f.parseAvailableLengthLimit() == (k == 7 && bv), "available-length-limit");
    sxn_assert(f.parseEndian() == (e == 2 ? ParseEndian_Little : ParseEndian_Big), "endian");
    sxn_reach("flags");
}

void sx_harness()
{
    switch (sx::choice("scenario", 4)) {
    case 0: values(); break;
    case 1: names(); break;
    case 2: versions(); break;
    case 3: misc(); break;
    }
}
