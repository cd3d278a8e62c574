// String and data fields: form, default value, valid values, references to other values.
#include "h.h"
void sx_prepare() { P p; p.run(schema("<fields><string name=\"f\" length=\"2\" defaultValue=\"a\"/><data name=\"d\" length=\"2\" defaultValue=\"ab\"/></fields>")); }
static std::string fields(const std::string& s, const std::string& ver = "0") { return schema("<fields>" + s + "</fields>", "", ver); }
static unsigned hexDigit(unsigned char c) { return (unsigned)((c >= '0') & (c <= '9')) | (unsigned)((c >= 'a') & (c <= 'f')) | (unsigned)((c >= 'A') & (c <= 'F')); }
static unsigned hexVal(unsigned char c) { unsigned al = c >> 6; return (c & 15) + 9 * al; }
static std::string text(const char* n, unsigned len, unsigned char lo, unsigned char hi)
{
    std::string s = sx::chars(n, len, lo, hi);
    for (unsigned char ch : s) sxn_assume((ch != '<') & (ch != '&') & (ch != '"'));
    return s;
}

// how the end of the value is known
static void forms()
{
    unsigned kind = sx::choice("kind", 2), reuse = sx::choice("reuse", 2), len = sx::choice("length", 2), pre = sx::choice("prefix", 15), zt = kind ? 0 : sx::choice("zero", 3);
    const char* K = kind ? "data" : "string";
    uint64_t l = len ? sx::range("len", 0, 0x1ffffffff) : 0;
    bool ok = !len | ((unsigned)(l != 0) & (unsigned)(l <= 0xffffffff));
    // the parts may be spread over a reused field and the field itself
    std::string part[2], kids[2];
    unsigned where = reuse ? sx::choice("where", 4) : 3;
    unsigned wl = where & 1, wp = where >> 1;
    if (len) part[wl] += attr("length", sx::hex(l));
    if (zt) part[wl] += attr("zeroTermSuffix", zt == 1 ? "true" : "false");
    bool detached = false, inner = false;
    std::string gl = tag("int", attr("name", "gp") + attr("type", "uint16")) + tag("float", attr("name", "gf") + attr("type", "float")) +
        tag("bundle", attr("name", "gl") + attr("semanticType", "length"), tag("int", attr("name", "n") + attr("type", "uint8") + attr("semanticType", "length")));
    switch (pre) {
    case 1: kids[wp] += "<lengthPrefix><int name=\"p\" type=\"uint8\"/></lengthPrefix>"; inner = true; break;
    case 2: part[wp] += attr("lengthPrefix", "gp"); inner = true; break;
    case 3: part[wp] += attr("lengthPrefix", "gf"); ok = false; break;
    case 4: part[wp] += attr("lengthPrefix", "nothing"); ok = false; break;
    case 5: kids[wp] += "<lengthPrefix><float name=\"p\" type=\"float\"/></lengthPrefix>"; ok = false; break;
    case 6: part[wp] += attr("lengthPrefix", "gl"); inner = true; break;
    case 7: part[wp] += attr("lengthPrefix", "$s1"); detached = true; break;      // an int sibling
    case 8: part[wp] += attr("lengthPrefix", "$s2"); detached = true; ok = false; break;      // a float sibling
    case 9: part[wp] += attr("lengthPrefix", "$"); ok = false; break;
    case 10: part[wp] += attr("lengthPrefix", "$s3"); detached = true; ok = false; break;     // comes later
    case 11: kids[wp] += "<lengthPrefix></lengthPrefix>"; ok = false; break;
    case 12: kids[wp] += "<lengthPrefix><int name=\"p\" type=\"uint8\"/><int name=\"q\" type=\"uint8\"/></lengthPrefix>"; ok = false; break;
    case 13: kids[wp] += "<lengthPrefix>gp</lengthPrefix>"; inner = true; break;
    case 14: kids[wp] += "<lengthPrefix><other name=\"p\"/></lengthPrefix>"; ok = false; break;
    }
    if (reuse && wp == 0 && pre >= 7 && pre <= 10) return;     // detached only in bundles and messages
    ok = (unsigned)ok & (unsigned)!((len + (inner || detached) + (zt == 1)) > 1);
    std::string f = tag(K, attr("name", "f") + part[1] + (reuse ? attr("reuse", "o") : ""), kids[1]);
    std::string body = gl + (reuse ? tag(K, attr("name", "o") + part[0], kids[0]) : "") +
        tag("bundle", attr("name", "b"), tag("int", attr("name", "s1") + attr("type", "uint8")) + tag("float", attr("name", "s2") + attr("type", "float")) + f + tag("int", attr("name", "s3") + attr("type", "uint8")));
    P p;
    bool r = p.run(fields(body));
    sxn_assert(r == ok, "form-accepted-iff-single");
    if (!r) { sxn_assert(p.errors > 0, "rejection-reported"); sxn_reach("form-rejected"); return; }
    sxn_reach("form-accepted");
    probe(p.field("b"));
    auto f1 = ParseBundleField(p.field("b")).parseMembers().at(2);
    if (kind) {
        ParseDataField d(f1);
        sxn_assert(d.parseFixedLength() == l && d.parseHasLengthPrefixField() == inner && d.parseDetachedPrefixFieldName() == (detached ? "s1" : ""), "data-form");
        if (inner) sxn_assert(d.parseLengthPrefixField().parseName() == (pre == 1 ? "p" : pre == 2 || pre == 13 ? "gp" : "gl"), "data-prefix");
    }
    else {
        ParseStringField d(f1);
        sxn_assert(d.parseFixedLength() == l && d.parseHasLengthPrefixField() == inner && d.parseDetachedPrefixFieldName() == (detached ? "s1" : "") && d.parseHasZeroTermSuffix() == (zt == 1), "string-form");
        if (inner) sxn_assert(d.parseLengthPrefixField().parseName() == (pre == 1 ? "p" : pre == 2 || pre == 13 ? "gp" : "gl"), "string-prefix");
    }
}

// the end given both in the reused field and in the field itself
static void replaced()
{
    unsigned kind = sx::choice("kind", 2), a = 1 + sx::choice("first", kind ? 4 : 6), b = 1 + sx::choice("second", kind ? 5 : 7);
    const char* K = kind ? "data" : "string";
    uint64_t l[2] = {0, 0};
    auto put = [&](unsigned i, unsigned w, std::string& at, std::string& kids) {
        switch (w) {
        case 1: kids = i ? "<lengthPrefix><int name=\"q\" type=\"uint8\"/></lengthPrefix>" : "<lengthPrefix><int name=\"p\" type=\"uint16\"/></lengthPrefix>"; break;
        case 2: at = attr("lengthPrefix", "gp"); break;
        case 3: at = attr("lengthPrefix", "gq"); break;
        case 4: l[i] = sx::range(i ? "len1" : "len0", 1, 0xffffffff); at = attr("length", sx::hex(l[i])); break;
        case 5: if (kind) { at = attr("lengthPrefix", "$s1"); break; } at = attr("zeroTermSuffix", "true"); break;
        case 6: if (i == 0) { at = attr("zeroTermSuffix", "false"); break; } at = attr("zeroTermSuffix", "false"); break;
        case 7: at = attr("lengthPrefix", "$s1"); break;
        }
    };
    std::string at[2], kids[2];
    put(0, a, at[0], kids[0]);
    put(1, b, at[1], kids[1]);
    auto group = [&](unsigned w) { return w <= 3 || w == 7 || (kind && w == 5) ? 1u : w == 4 ? 2u : w == 5 ? 3u : 0u; };    // prefix, length, zero
    unsigned ga = group(a), gb = group(b);
    bool off = !kind && a == 5 && b == 6;     // zero termination switched off
    bool ok = !ga || !gb || ga == gb;
    std::string body = tag("int", attr("name", "gp") + attr("type", "uint16")) + tag("int", attr("name", "gq") + attr("type", "uint32")) +
        tag(K, attr("name", "o") + at[0], kids[0]) +
        tag("bundle", attr("name", "b"), tag("int", attr("name", "s1") + attr("type", "uint8")) + tag(K, attr("name", "f") + attr("reuse", "o") + at[1], kids[1]));
    P p;
    bool r = p.run(fields(body));
    sxn_assert(r == ok, "replaced-accepted-iff-same-form");
    if (!r) { sxn_reach("replaced-rejected"); return; }
    sxn_reach("replaced-accepted");
    unsigned g = off ? 0 : gb ? gb : ga, w = gb ? b : a;
    std::string det = g == 1 && (w == 7 || w == 5) ? "s1" : "", pre = g != 1 || !det.empty() ? "" : w == 1 ? (gb ? "q" : "p") : w == 2 ? "gp" : "gq";
    uint64_t len = g == 2 ? l[gb ? 1 : 0] : 0;
    auto m = ParseBundleField(p.field("b")).parseMembers().at(1);
    auto o = p.field("o");
    auto same = [&](const ParseField& f, const std::string& wantPre, const std::string& wantDet, uint64_t wantLen, bool zero, const char* key) {
        if (kind) {
            ParseDataField d(f);
            sxn_assert(d.parseHasLengthPrefixField() == !wantPre.empty() && d.parseDetachedPrefixFieldName() == wantDet && d.parseFixedLength() == wantLen, key);
            if (d.parseHasLengthPrefixField()) sxn_assert(d.parseLengthPrefixField().parseName() == wantPre, key);
        }
        else {
            ParseStringField d(f);
            sxn_assert(d.parseHasLengthPrefixField() == !wantPre.empty() && d.parseDetachedPrefixFieldName() == wantDet && d.parseFixedLength() == wantLen && d.parseHasZeroTermSuffix() == zero, key);
            if (d.parseHasLengthPrefixField()) sxn_assert(d.parseLengthPrefixField().parseName() == wantPre, key);
        }
    };
    probe(m); probe(o);
    same(m, pre, det, len, g == 3, "replaced-form");
    same(o, a == 1 ? "p" : a == 2 ? "gp" : a == 3 ? "gq" : "", "", l[0], !kind && a == 5, "reused-form-untouched");
}

static void stringValue()
{
    unsigned n = sx::choice("chars", 4), fixed = sx::choice("fixed", 2), how = sx::choice("how", 3);
    std::string s = text("c", n, 'P', 'z');        // includes \ and ^
    // a heading ^ makes it a reference; backslashes before ^ : one of them goes
    bool ref = n && s[0] == '^', esc = false;
    if (n && s[0] == '\\') {
        unsigned i = 0;
        while (i < n && s[i] == '\\') ++i;
        esc = i < n && s[i] == '^';
    }
    uint64_t l = fixed ? sx::range("len", 1, 4) : 0;
    std::string at = attr("name", "f");
    if (fixed) at += attr("length", sx::hex(l));
    P p;
    std::string kids;
    if (how == 0) at += attr("defaultValue", s);
    if (how == 1) kids = n ? "<defaultValue value=\"" + s + "\"/>" : "";
    if (how == 2) kids = n ? "<defaultValue>" + s + "</defaultValue>" : "";
    bool r = p.run(fields(tag("string", at, kids)));
    sxn_assert(r == !ref, "default-accepted-iff-not-a-dangling-reference");
    if (!r) { sxn_reach("string-rejected"); return; }
    ParseStringField f(p.field("f"));
    sxn_assert(f.parseDefaultValue() == (esc ? s.substr(1) : s), "default-string");
    unsigned size = n - esc;
    sxn_assert((p.warnings != 0) == ((unsigned)fixed & (unsigned)(l < size)), "long-default-warned");
    sxn_reach("string-accepted");
}

static void dataValue()
{
    unsigned n = 1 + sx::choice("chars", 4), cls = sx::choice("class", 3), vv = sx::choice("as", 3), fixed = sx::choice("fixed", 2);
    std::string s = text("c", n, cls == 0 ? '0' : cls == 1 ? 'A' : '`', cls == 0 ? ';' : cls == 1 ? '[' : 'i');
    if (n == 4 && cls == 2) { s[3] = '7'; }
    std::string orig = s;
    unsigned ok = (n & 1) == 0;
    for (unsigned char c : s) ok &= hexDigit(c);
    unsigned blank = n > 2 ? sx::choice("blank", 3) : 0;
    if (blank == 1) s.insert(2, " ");
    if (blank == 2) s.insert(1, "  ");
    uint64_t l = fixed ? sx::range("len", 1, 3) : 0;
    std::string at = attr("name", "f") + (fixed ? attr("length", sx::hex(l)) : "");
    P p;
    bool r = p.run(fields(tag("data", at + (vv == 0 ? attr("defaultValue", s) : vv == 1 ? attr("validValue", s) : attr("defaultValidValue", s)))));
    sxn_assert(r == (ok != 0), "data-accepted-iff-pairs-of-hex-digits");
    if (!r) { sxn_reach("data-rejected"); return; }
    ParseDataField f(p.field("f"));
    auto v = vv == 1 ? f.parseValidValues().at(0).m_value : f.parseDefaultValue();
    if (vv == 2) sxn_assert(f.parseValidValues().size() == 1 && f.parseValidValues()[0].m_value == v, "default-is-valid");
    sxn_assert(v.size() == n / 2, "data-size");
    for (unsigned i = 0; i < v.size(); ++i) sxn_assert(v[i] == (hexVal(orig[2 * i]) << 4 | hexVal(orig[2 * i + 1])), "data-bytes");
    if (vv != 1) sxn_assert((p.warnings != 0) == ((unsigned)fixed & (unsigned)(l < n / 2)), "long-data-warned");
    sxn_reach("data-accepted");
}

// two valid values with versions; reported sorted, nothing lost
static void validValues()
{
    unsigned kind = sx::choice("kind", 2), nv = 1 + sx::choice("values", 2), own = sx::choice("own", 2);
    unsigned since[2], dep[2];
    bool ok = true;
    std::string kids, v[2];
    std::vector<uint8_t> d[2];
    for (unsigned i = 0; i < nv; ++i) {
        std::string is = std::to_string(i);
        v[i] = sx::chars(("v" + is).c_str(), 2, 'a', 'f');
        since[i] = own; dep[i] = own ? 6 : ParseProtocol::parseNotYetDeprecated();
        std::string at;
        if (sx::choice(("since" + is).c_str(), 2)) {
            uint64_t s = sx::range(("s" + is).c_str(), 0, 9);
            at += attr("sinceVersion", sx::hex(s));
            ok = (unsigned)ok & (unsigned)(s >= own) & (unsigned)(s <= 8);
            since[i] = s;
        }
        if (sx::choice(("dep" + is).c_str(), 2)) {
            uint64_t s = sx::range(("d" + is).c_str(), 0, 9);
            at += attr("deprecated", sx::hex(s));
            ok = (unsigned)ok & (unsigned)(s <= (own ? 6u : 8u));
            dep[i] = s;
        }
        ok = (unsigned)ok & (unsigned)(since[i] < dep[i]);
        kids += i ? "<validValue" + at + ">" + v[i] + "</validValue>" : tag("validValue", attr("value", v[i]) + at);
        d[i] = {(uint8_t)(hexVal(v[i][0]) << 4 | hexVal(v[i][1]))};
    }
    P p;
    std::string f = tag(kind ? "data" : "string", attr("name", "f") + (own ? attr("sinceVersion", "1") + attr("deprecated", "6") : ""), kids);
    bool r = p.run(schema(tag("message", attr("name", "M") + attr("id", "1"), f), "", "8"));
    sxn_assert(r == ok, "valid-values-accepted-iff-versions-consistent");
    if (!r) { sxn_reach("valid-rejected"); return; }
    sxn_reach("valid-accepted");
    auto m = p.message("M").parseFields().at(0);
    unsigned sw;
    if (kind) {
        auto vs = ParseDataField(m).parseValidValues();
        sxn_assert(vs.size() == nv, "valid-count");
        sw = nv == 2 && d[1][0] < d[0][0];
        for (unsigned i = 0; i < nv; ++i) {
            unsigned j = i ^ sw;
            if (nv == 2 && d[0] == d[1]) { sxn_assert(vs[i].m_value == d[0], "valid-data"); continue; }
            sxn_assert(vs[i].m_value == d[j], "valid-data");
            sxn_assert((unsigned)(vs[i].m_sinceVersion == since[j]) & (unsigned)(vs[i].m_deprecatedSince == dep[j]), "valid-versions");
        }
    }
    else {
        auto vs = ParseStringField(m).parseValidValues();
        sxn_assert(vs.size() == nv, "valid-count");
        if (nv == 2 && v[0] == v[1]) { sxn_assert(vs[0].m_value == v[0] && vs[1].m_value == v[0], "valid-string"); return; }
        sw = nv == 2 && v[1] < v[0];
        for (unsigned i = 0; i < nv; ++i) {
            unsigned j = i ^ sw;
            sxn_assert(vs[i].m_value == v[j], "valid-string");
            sxn_assert((unsigned)(vs[i].m_sinceVersion == since[j]) & (unsigned)(vs[i].m_deprecatedSince == dep[j]), "valid-versions");
        }
    }
}

// values taken from other fields
static void references()
{
    unsigned kind = sx::choice("kind", 2), via = sx::choice("via", 7);
    std::string v = sx::chars("v", 2, 'a', 'f');
    const char* K = kind ? "data" : "string";
    static const char* R[] = {"^g", "^x", "^b.m", "^b.n", "^other.g", "^i", "^"};
    std::string gl = tag(K, attr("name", "g") + attr("defaultValue", v)) + tag("bundle", attr("name", "b"), tag(K, attr("name", "m") + attr("defaultValue", v))) + tag("int", attr("name", "i") + attr("type", "uint8"));
    P p;
    unsigned ns = sx::choice("ns", 2);
    std::string ref = R[via];
    if (ns && via < 6) ref = "^n." + ref.substr(1);
    std::string f = "<fields>" + tag(K, attr("name", "f") + attr("defaultValue", ref)) + "</fields>";
    bool r = p.run(schema((ns ? "<ns name=\"n\"><fields>" + gl + "</fields></ns>" + f : "<fields>" + gl + "</fields>" + f)));
    sxn_assert(r == (via == 0 || via == 2), "reference-accepted-iff-there");
    if (!r) { sxn_reach("ref-rejected"); return; }
    if (kind) { auto d = ParseDataField(p.field("f")).parseDefaultValue(); sxn_assert(d.size() == 1 && d[0] == (uint8_t)(hexVal(v[0]) << 4 | hexVal(v[1])), "referenced-data"); }
    else sxn_assert(ParseStringField(p.field("f")).parseDefaultValue() == v, "referenced-string");
    sxn_reach("ref-accepted");
}

void sx_harness()
{
    switch (sx::choice("scenario", 6)) {
    case 0: forms(); break;
    case 1: stringValue(); break;
    case 2: dataValue(); break;
    case 3: validValues(); break;
    case 4: references(); break;
    case 5: replaced(); break;
    }
}
