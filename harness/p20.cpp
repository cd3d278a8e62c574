// Values written in schemas: numbers, flags, units, types, byte orders, in every way a property can be given.
#include "h.h"
void sx_prepare() { P p; p.run(schema("<fields><int name=\"f\" type=\"uint8\" units=\"ms\"/><enum name=\"e\" type=\"uint8\"><validValue name=\"A\" val=\"1\"/></enum></fields>")); }
static unsigned is(unsigned char c, char k) { return (unsigned)(c == (unsigned char)k); }
static unsigned in(unsigned char c, char a, char b) { return (unsigned)(c >= (unsigned char)a) & (unsigned)(c <= (unsigned char)b); }
static unsigned char low(unsigned char c) { return c | 0x20; }
static unsigned isLetter(unsigned char c, char k) { return (unsigned)((c | 0x20) == (unsigned char)k) & (unsigned)(c >= 0x40); }
static unsigned isHex(unsigned char c) { return in(c, '0', '9') | in(c, 'a', 'f') | in(c, 'A', 'F'); }

// reference reading of a number: spaces, sign, decimal / 0x / octal digits, spaces
struct Num { bool ok = false, neg = false, ovf = false; uint64_t mag = 0; };
static Num read(const std::string& s)
{
    Num r;
    size_t i = 0, n = s.size();
    while (i < n && is(s[i], ' ')) ++i;
    if (i < n && is(s[i], '-')) { r.neg = true; ++i; }
    else if (i < n && is(s[i], '+')) ++i;
    unsigned base = 10;
    if (i < n && is(s[i], '0')) {
        base = 8;
        if (i + 2 < n && (isLetter(s[i + 1], 'x') & isHex(s[i + 2]))) { base = 16; i += 2; }
        // "0b11" is read as binary by newer C libraries only
        else if (i + 1 < n) sxn_assume(!isLetter(s[i + 1], 'b'));
    }
    bool any = false;
    for (; i < n; ++i) {
        unsigned char c = s[i];
        unsigned v;
        if (in(c, '0', base == 8 ? '7' : '9')) v = c - '0';
        else if (base == 16 && (in(c, 'a', 'f') | in(c, 'A', 'F'))) v = low(c) - 'a' + 10;
        else break;
        any = true;
        if (r.mag > (~uint64_t(0) - v) / base) r.ovf = true;
        if (!r.ovf) r.mag = r.mag * base + v;
    }
    while (i < n && is(s[i], ' ')) ++i;
    r.ok = any && i == n;
    return r;
}

// value of the property read from the text: accepted within [lo, hi], given as signed or unsigned numbers
static bool within(const Num& n, bool sig, uint64_t lo, uint64_t hi, uint64_t& v)
{
    if (!n.ok || n.ovf) return false;
    v = n.neg ? 0 - n.mag : n.mag;
    if (!sig) return !n.neg && n.mag <= hi;
    if (n.neg) return n.mag <= 0 - lo;
    return n.mag <= hi;
}
static std::string text(unsigned len)
{
    auto t = sx::chars("t", len, 0x20, 0x7e);
    for (char c : t) sxn_assume((c != '<') & (c != '&') & (c != '"'));
    return t;
}

struct Got { bool ok; uint64_t v; };
static const uint64_t I64 = ~uint64_t(0) >> 1;
// reads text `t` as property number k
static Got put(unsigned k, const std::string& t, unsigned form = 0)
{
    P p;
    auto prop = [&](const char* name) { return form == 0 ? attr(name, t) : std::string(); };
    auto kid = [&](const char* name) { return form == 0 ? std::string() : form == 1 ? tag(name, attr("value", t)) : tag(name, "", t); };
    switch (k) {
    case 0: case 1: {
        bool ok = p.run(schema("<fields>" + tag("int", attr("name", "f") + attr("type", k ? "uint64" : "int64") + prop("defaultValue"), kid("defaultValue")) + "</fields>"));
        return Got{ok, ok ? (uint64_t)ParseIntField(p.field("f")).parseDefaultValue() : 0};
    }
    case 2: {
        bool ok = p.run(schema(tag("message", attr("name", "M") + attr("id", "1") + prop("order"), kid("order"))));
        return Got{ok, ok ? p.message("M").parseOrder() : 0};
    }
    case 3: {
        bool ok = p.run(schema(tag("message", attr("name", "M") + prop("id"), kid("id"))));
        return Got{ok, ok ? (uint64_t)p.message("M").parseId() : 0};
    }
    case 4: {
        bool ok = p.run(schema("<fields>" + tag("enum", attr("name", "f") + attr("type", "int32"), tag("validValue", attr("name", "A") + prop("val"), kid("val"))) + "</fields>"));
        return Got{ok, ok ? (uint64_t)ParseEnumField(p.field("f")).parseValues().at("A").m_value : 0};
    }
    case 5: {
        bool ok = p.run(schema("<fields>" + tag("set", attr("name", "f") + attr("length", "8"), tag("bit", attr("name", "A") + prop("idx"), kid("idx"))) + "</fields>"));
        return Got{ok, ok ? ParseSetField(p.field("f")).parseBits().at("A").m_idx : 0};
    }
    case 6: {
        bool ok = p.run(schema("<fields>" + tag("int", attr("name", "f") + attr("type", "int64") + prop("serOffset"), kid("serOffset")) + "</fields>"));
        return Got{ok, ok ? (uint64_t)ParseIntField(p.field("f")).parseSerOffset() : 0};
    }
    case 7: {
        bool ok = p.run(schema("<fields>" + tag("string", attr("name", "f") + prop("length"), kid("length")) + "</fields>"));
        return Got{ok, ok ? ParseStringField(p.field("f")).parseFixedLength() : 0};
    }
    default: {
        P q;
        q.run("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<schema name=\"s\" endian=\"big\"" + prop("version") + ">" + kid("version") + "</schema>\n");
        return Got{q.ok, q.ok ? q.p.parseSchemas().back().parseVersion() : 0};
    }
    }
}
struct Lim { bool sig; uint64_t lo, hi; };
static const Lim Lims[] = {{true, I64 + 1, I64}, {false, 0, ~uint64_t(0)}, {false, 0, 0xffffffff}, {false, 0, ~uint64_t(0)}, {true, ~uint64_t(0) << 31, 0x7fffffff}, {false, 0, 63}, {true, I64 + 1, I64}, {false, 0, 0xffffffff}, {false, 0, 0xffffffff}};

static void number()
{
    unsigned k = sx::choice("prop", 9), n = 1 + sx::choice("len", sxn_thorough() ? 4 : 3);
    if (!sxn_thorough() && n == 3 && k >= 2 && k != 4) return;
    auto t = text(n);
    unsigned blank = 1;
    for (char c : t) blank &= is(c, ' ');
    sxn_assume(!blank);     // the same as not given
    uint64_t v = 0;
    bool expect = within(read(t), Lims[k].sig, Lims[k].lo, Lims[k].hi, v);
    if (k == 7 && expect && v == 0) return;     // a length of zero means none
    auto g = put(k, t);
    sxn_assert(g.ok == expect, "number-accepted-iff-well-formed");
    if (!g.ok) { sxn_reach("number-rejected"); return; }
    sxn_reach("number-accepted");
    sxn_assert(g.v == v, "number-as-written");
}

// long texts: decimals of any value, and of more digits than fit
static void large()
{
    unsigned k = sx::choice("prop", 9), how = sx::choice("how", 3), neg = sx::choice("neg", 2);
    std::string t;
    Num r;
    r.ok = true; r.neg = neg == 1;
    if (how < 2) {
        // the last two digits around the limits, and around 2^64
        uint64_t lim = how ? ~uint64_t(0) : neg ? 0 - Lims[k].lo : Lims[k].hi, top = lim / 100;
        auto d = (unsigned)sx::range("d", top ? 0 : 1, 9), e = (unsigned)sx::range("e", 0, 9);
        t = (top ? std::to_string(top) : std::string()) + char('0' + d) + char('0' + e);
        r.ovf = top == ~uint64_t(0) / 100 && d * 10 + e > 15;
        r.mag = top * 100 + d * 10 + e;
    }
    else { auto d = (unsigned)sx::range("d", 0, 9); t = std::string("0x1000000000000000") + char('0' + d); r.ovf = true; }
    if (neg) t = "-" + t;
    uint64_t v = 0;
    bool expect = within(r, Lims[k].sig, Lims[k].lo, Lims[k].hi, v);
    if (k == 7 && v == 0) return;
    auto g = put(k, t);
    sxn_assert(g.ok == expect, "large-accepted-iff-fits");
    if (g.ok) { sxn_assert(g.v == v, "large-as-written"); sxn_reach("large-accepted"); }
    else sxn_reach("large-rejected");
}

// attribute, child with attribute, child with text: all the same
static void forms()
{
    unsigned k = sx::choice("prop", 8), f = 1 + sx::choice("form", 2), pad = sx::choice("pad", 3);
    auto v = sx::u64("v");
    static const char* Pad[] = {"", " ", "\t\n "};
    auto t = Pad[pad] + sx::hex(v) + Pad[pad];
    bool expect = (v <= Lims[k].hi);
    if (k == 7 && v == 0) return;
    auto a = put(k, t, f);
    sxn_assert(a.ok == expect, "form-accepted-iff-fits");
    if (a.ok) { sxn_assert(a.v == v, "form-as-written"); sxn_reach("form-accepted"); }
}

// given twice
static void twice()
{
    unsigned a = sx::choice("first", 3), b = sx::choice("second", 3);
    auto one = [](unsigned f, const char* t, std::string& at, std::string& kids) {
        if (f == 0) at += attr("defaultValue", t);
        else if (f == 1) kids += tag("defaultValue", attr("value", t));
        else kids += tag("defaultValue", "", t);
    };
    if (a == 0 && b == 0) return;       // not XML
    std::string at = attr("name", "f") + attr("type", "uint8"), kids;
    one(a, "1", at, kids);
    one(b, sx::choice("same", 2) ? "1" : "2", at, kids);
    P p;
    sxn_assert(!p.run(schema("<fields>" + tag("int", at, kids) + "</fields>")), "refused-when-given-twice");
    P q;
    sxn_assert(!q.run(schema("<fields>" + tag("int", attr("name", "f") + attr("type", "uint8"), tag("defaultValue", attr("value", "1"), "1")) + "</fields>")) , "refused-when-value-and-text");
    sxn_reach("twice");
}

// every property of every kind of element: once in each of its three forms, never twice
struct Pr { const char* open; const char* name; const char* value; const char* kids; const char* close; };
#define INTP(n, v) {"<fields><int name=\"f\" type=\"uint8\"", n, v, "", "</int></fields>"}
#define ENP(n, v) {"<fields><enum name=\"f\" type=\"uint8\"", n, v, "<validValue name=\"V\" val=\"1\"/>", "</enum></fields>"}
#define SETP(n, v) {"<fields><set name=\"f\" type=\"uint8\"", n, v, "<bit name=\"b\" idx=\"0\"/>", "</set></fields>"}
#define STRP(n, v) {"<fields><string name=\"f\"", n, v, "", "</string></fields>"}
#define DATP(n, v) {"<fields><data name=\"f\"", n, v, "", "</data></fields>"}
#define LISTP(n, v) {"<fields><int name=\"g\" type=\"uint8\"/><list name=\"f\"", n, v, "<element><int name=\"e\" type=\"uint8\"/></element>", "</list></fields>"}
#define FLP(n, v) {"<fields><float name=\"f\" type=\"float\"", n, v, "", "</float></fields>"}
#define OPTP(n, v) {"<fields><optional name=\"f\"", n, v, "<field><int name=\"e\" type=\"uint8\"/></field>", "</optional></fields>"}
#define VARP(n, v) {"<fields><variant name=\"f\"", n, v, "<members><int name=\"e\" type=\"uint8\"/></members>", "</variant></fields>"}
#define BUNP(n, v) {"<fields><bundle name=\"f\"", n, v, "<members><int name=\"e\" type=\"uint8\"/></members>", "</bundle></fields>"}
#define MSGP(n, v) {"<platforms><platform name=\"p\"/></platforms><message name=\"f\" id=\"1\"", n, v, "", "</message>"}
static const Pr Props[] = {
    {"<fields><int name=\"f\"", "type", "uint8", "", "</int></fields>"}, {"<fields><int type=\"uint8\"", "name", "f", "", "</int></fields>"},
    INTP("endian", "big"), INTP("length", "1"), INTP("defaultValue", "1"), INTP("units", "sec"), INTP("scaling", "1/2"), INTP("serOffset", "1"), INTP("displayDecimals", "1"), INTP("displayOffset", "1"),
    INTP("nonUniqueSpecialsAllowed", "true"), INTP("signExt", "true"), INTP("validCheckVersion", "true"), INTP("semanticType", "version"), INTP("pseudo", "true"), INTP("fixedValue", "true"),
    INTP("customizable", "true"), INTP("failOnInvalid", "true"), INTP("forceGen", "true"), INTP("displayName", "x"), INTP("description", "x"),
    INTP("availableLengthLimit", "true"), INTP("valueOverride", "any"), INTP("readOverride", "any"), INTP("writeOverride", "any"), INTP("refreshOverride", "any"), INTP("lengthOverride", "any"), INTP("validOverride", "any"), INTP("nameOverride", "any"),
    ENP("hexAssign", "true"), ENP("nonUniqueAllowed", "true"), ENP("defaultValue", "1"), ENP("validCheckVersion", "true"), ENP("length", "1"), ENP("endian", "big"), ENP("availableLengthLimit", "true"),
    SETP("length", "1"), SETP("nonUniqueAllowed", "true"), SETP("reservedValue", "true"), SETP("defaultValue", "true"), SETP("endian", "big"), SETP("validCheckVersion", "true"), SETP("availableLengthLimit", "true"),
    STRP("encoding", "x"), STRP("length", "3"), STRP("zeroTermSuffix", "true"), STRP("defaultValue", "x"), DATP("length", "3"), DATP("defaultValue", "01"),
    LISTP("count", "3"), LISTP("elemFixedLength", "true"), LISTP("countPrefix", "g"), LISTP("lengthPrefix", "g"), LISTP("elemLengthPrefix", "g"), LISTP("termSuffix", "g"),
    FLP("nonUniqueSpecialsAllowed", "true"), FLP("defaultValue", "1"), FLP("units", "sec"), FLP("endian", "big"), FLP("displayDecimals", "1"), FLP("validCheckVersion", "true"), {"<fields><float name=\"f\"", "type", "float", "", "</float></fields>"},
    OPTP("defaultMode", "missing"), OPTP("missingOnReadFail", "true"), OPTP("missingOnInvalid", "true"),
    VARP("defaultMember", "e"), {"<fields><int name=\"g\" type=\"uint8\"/><ref name=\"f\"", "field", "g", "", "</ref></fields>"},
    {"<fields><bitfield name=\"f\"", "endian", "big", "<members><int name=\"e\" type=\"uint8\"/></members>", "</bitfield></fields>"},
    MSGP("order", "1"), MSGP("sender", "client"), MSGP("customizable", "true"), MSGP("failOnInvalid", "true"), MSGP("platforms", "+p"), MSGP("displayName", "x"), MSGP("description", "x"), MSGP("validateMinLength", "0"), MSGP("readOverride", "any"), MSGP("nameOverride", "any"),
    {"<message name=\"f\"", "id", "1", "", "</message>"}, {"<interface name=\"f\"", "description", "x", "", "</interface>"}, {"<interface", "name", "f", "", "</interface>"},
    {"<frame name=\"F\"", "description", "x", "<layers><payload name=\"d\"/></layers>", "</frame>"},
};
static void anyTwice()
{
    const unsigned n = sizeof(Props) / sizeof(Props[0]);
    auto& pr = Props[sx::choice("property", n)];
    unsigned a = sx::choice("first", 3), b = sx::choice("second", 4);
    if (a == 0 && b == 0) return;
    auto one = [&](unsigned f, std::string& at, std::string& kids) {
        if (f == 0) at += attr(pr.name, pr.value);
        else if (f == 1) kids += tag(pr.name, attr("value", pr.value));
        else if (f == 2) kids += tag(pr.name, "", pr.value);
    };
    std::string at, kids;
    one(a, at, kids); one(b, at, kids);
    P p;
    bool r = p.run(schema(std::string(pr.open) + at + ">" + pr.kids + kids + pr.close, "", "1"));
    if (sxn_replaying()) std::printf("  %s\n", pr.name);
    if (b == 3) { sxn_assert(r, "accepted-when-given-once"); sxn_reach("any-once"); }
    else { sxn_assert(!r, "any-refused-when-given-twice"); sxn_assert(p.errors > 0, "rejection-reported"); sxn_reach("any-twice"); }
}

static bool same(const std::string& t, const char* w)
{
    if (t.size() != std::string(w).size()) return false;
    unsigned r = 1;
    for (size_t i = 0; i < t.size(); ++i) r &= is(t[i], w[i]) | (in(w[i], 'a', 'z') & is(t[i], w[i] - 0x20));
    return r != 0;
}
static bool blank(const std::string& t) { return is(t[0], ' ') || is(t[t.size() - 1], ' '); }

static void flags()
{
    unsigned k = sx::choice("prop", 4), n = 1 + sx::choice("len", 6);
    auto t = text(n);
    sxn_assume(!(is(t[0], ' ') | is(t[n - 1], ' ')));   // trimmed
    unsigned yes = same(t, "true") || same(t, "1"), no = !yes && (same(t, "false") || same(t, "0"));
    P p;
    bool got = false;
    if (k == 0) { p.run(schema("<fields>" + tag("enum", attr("name", "f") + attr("type", "uint8") + attr("nonUniqueAllowed", t), tag("validValue", attr("name", "A") + attr("val", "0"))) + "</fields>")); if (p.ok) got = ParseEnumField(p.field("f")).parseIsNonUniqueAllowed(); }
    else if (k == 1) { p.run(schema("<fields>" + tag("int", attr("name", "f") + attr("type", "uint8") + attr("customizable", t)) + "</fields>")); if (p.ok) got = p.field("f").parseIsCustomizable(); }
    else if (k == 2) { p.run(schema("<fields>" + tag("int", attr("name", "f") + attr("type", "uint8") + attr("pseudo", t)) + "</fields>")); if (p.ok) got = p.field("f").parseIsPseudo(); }
    else { p.run(schema("<fields>" + tag("int", attr("name", "f") + attr("type", "uint8") + attr("fixedValue", t)) + "</fields>")); if (p.ok) got = p.field("f").parseIsFixedValue(); }
    sxn_assert(p.ok == (yes | no), "flag-accepted-iff-boolean");
    if (!p.ok) { sxn_reach("flag-rejected"); return; }
    sxn_assert(got == (yes != 0), "flag-as-written");
    sxn_reach("flag-accepted");
}

static const struct { ParseUnits u; const char* names; } Units[] = {
    {ParseUnits::Nanoseconds, "ns nanosec nanosecs nanosecond nanoseconds"},
    {ParseUnits::Microseconds, "us microsec microsecs microsecond microseconds"},
    {ParseUnits::Milliseconds, "ms millisec millisecs millisecond milliseconds"},
    {ParseUnits::Seconds, "s sec secs second seconds"},
    {ParseUnits::Minutes, "min mins minute minutes"},
    {ParseUnits::Hours, "h hour hours"},
    {ParseUnits::Days, "d day days"},
    {ParseUnits::Weeks, "w week weeks"},
    {ParseUnits::Nanometers, "nm nanometer nanometre nanometres nanometers"},
    {ParseUnits::Micrometers, "um micrometer micrometre micrometres micrometers"},
    {ParseUnits::Millimeters, "mm millimeter millimetre millimetres millimeters"},
    {ParseUnits::Centimeters, "cm centimeter centimetre centimetres centimeters"},
    {ParseUnits::Meters, "m meter metre metres meters"},
    {ParseUnits::Kilometers, "km kilometer kilometre kilometres kilometers"},
    {ParseUnits::NanometersPerSecond, "nm/s nmps nanometer/second nanometre/second nanometers/second nanometres/second"},
    {ParseUnits::MicrometersPerSecond, "um/s umps micrometers/second micrometres/second micrometer/second micrometre/second"},
    {ParseUnits::MillimetersPerSecond, "mm/s mmps millimeter/second millimetre/second millimeters/second millimetres/second"},
    {ParseUnits::CentimetersPerSecond, "cm/s cmps centimeter/second centimetre/second centimeters/second centimetres/second"},
    {ParseUnits::MetersPerSecond, "m/s mps meter/second metre/second meters/second metres/second"},
    {ParseUnits::KilometersPerSecond, "km/s kmps kps kilometer/second kilometre/second kilometers/second kilometres/second"},
    {ParseUnits::KilometersPerHour, "km/h kmph kph kilometer/hour kilometre/hour kilometers/hour kilometres/hour"},
    {ParseUnits::Hertz, "hz hertz"},
    {ParseUnits::KiloHertz, "khz kilohertz"},
    {ParseUnits::MegaHertz, "mhz megahertz"},
    {ParseUnits::GigaHertz, "ghz gigahertz"},
    {ParseUnits::Degrees, "deg degree degrees"},
    {ParseUnits::Radians, "rad radian radians"},
    {ParseUnits::Nanoamps, "na nanoamp nanoamps nanoampere nanoamperes"},
    {ParseUnits::Microamps, "ua microamp microamps microampere microamperes"},
    {ParseUnits::Milliamps, "ma milliamp milliamps milliampere milliamperes"},
    {ParseUnits::Amps, "a amp amps ampere amperes"},
    {ParseUnits::Kiloamps, "ka kiloamp kiloamps kiloampere kiloamperes"},
    {ParseUnits::Nanovolts, "nv nanovolt nanovolts"},
    {ParseUnits::Microvolts, "uv microvolt microvolts"},
    {ParseUnits::Millivolts, "mv millivolt millivolts"},
    {ParseUnits::Volts, "v volt volts"},
    {ParseUnits::Kilovolts, "kv kilovolt kilovolts"},
    {ParseUnits::Bytes, "b byte bytes"},
    {ParseUnits::Kilobytes, "kb kilobyte kilobytes"},
    {ParseUnits::Megabytes, "mb megabyte megabytes"},
    {ParseUnits::Gigabytes, "gb gigabyte gigabytes"},
    {ParseUnits::Terabytes, "tb terabyte terabytes"}
};
static const unsigned NumUnits = sizeof(Units) / sizeof(Units[0]);
static std::vector<std::string> words(const std::string& s)
{
    std::vector<std::string> r(1);
    for (char c : s) if (c == ' ') r.emplace_back(); else r.back() += c;
    return r;
}
static ParseUnits unitsOf(const std::string& t)
{
    std::string s;
    for (char c : t) if (!is(c, ' ')) s += c;
    if (s.empty()) return ParseUnits::Unknown;
    for (unsigned i = 0; i < NumUnits; ++i) for (auto& w : words(Units[i].names)) if (same(s, w.c_str())) return Units[i].u;
    return ParseUnits::NumOfValues;
}
static void units()
{
    unsigned isFloat = sx::choice("float", 2), how = sx::choice("how", 2);
    std::string t;
    if (how == 0) {
        unsigned n = 1 + sx::choice("len", sxn_thorough() ? 4 : 3);
        t = text(n);
        sxn_assume(!(is(t[0], ' ') | is(t[n - 1], ' ')));
    }
    else {
        // every known name, one character of it being anything
        unsigned u = sx::choice("unit", NumUnits);
        auto ws = words(Units[u].names);
        t = ws[sx::choice("name", ws.size())];
        if (isFloat && !sxn_thorough()) return;
        unsigned at = sxn_thorough() ? sx::choice("at", t.size()) : t.size() - 1;
        t[at] = text(1)[0];
    }
    auto u = unitsOf(t);
    P p;
    bool ok = p.run(schema("<fields>" + tag(isFloat ? "float" : "int", attr("name", "f") + attr("type", isFloat ? "float" : "uint8") + attr("units", t)) + "</fields>"));
    sxn_assert(ok == (u != ParseUnits::NumOfValues), "units-accepted-iff-known");
    if (!ok) { sxn_reach("units-rejected"); return; }
    sxn_assert((isFloat ? ParseFloatField(p.field("f")).parseUnits() : ParseIntField(p.field("f")).parseUnits()) == u, "units-as-written");
    sxn_reach("units-accepted");
}

static void types()
{
    unsigned n = 4 + sx::choice("len", 4), k = sx::choice("prop", 3);
    std::string t = text(n);
    sxn_assume(!(is(t[0], ' ') | is(t[n - 1], ' ')));
    P p;
    if (k == 0) {
        unsigned want = 10;
        for (unsigned i = 0; i < 10; ++i) if (same(t, IntTypes[i].name)) want = i;
        bool ok = p.run(schema("<fields>" + tag("int", attr("name", "f") + attr("type", t)) + "</fields>"));
        sxn_assert(ok == (want < 10), "type-accepted-iff-known");
        if (ok) { sxn_assert((unsigned)ParseIntField(p.field("f")).parseType() == want, "type-as-written"); sxn_reach("types"); }
    }
    else if (k == 1) {
        bool f = same(t, "float"), d = same(t, "double");
        bool ok = p.run(schema("<fields>" + tag("float", attr("name", "f") + attr("type", t)) + "</fields>"));
        sxn_assert(ok == (f | d), "float-type-accepted-iff-known");
        if (ok) sxn_assert(ParseFloatField(p.field("f")).parseType() == (f ? ParseFloatField::ParseType::Float : ParseFloatField::ParseType::Double) && ParseFloatField(p.field("f")).parseMinLength() == (f ? 4 : 8), "float-type-as-written");
    }
    else {
        if (n == 7) t = t.substr(0, 3);
        bool b = same(t, "big"), l = same(t, "little");
        unsigned top = sx::choice("schema", 2);
        std::string f = "<fields>" + tag("int", attr("name", "f") + attr("type", "uint16") + (top ? "" : attr("endian", t))) + "</fields>";
        bool ok = p.run("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<schema name=\"s\"" + attr("endian", top ? t : "big") + ">" + f + "</schema>\n");
        sxn_assert(ok == (b | l), "endian-accepted-iff-known");
        if (ok) { sxn_assert(ParseIntField(p.field("f")).parseEndian() == (b ? ParseEndian_Big : ParseEndian_Little), "endian-as-written"); sxn_reach("endian"); }
    }
}

// "[a, b]" of a valid range
static void ranges()
{
    unsigned n = 3 + sx::choice("len", sxn_thorough() ? 4 : 3);
    auto t = text(n);
    unsigned whole = sx::choice("brackets", 2);
    if (whole) t = "[" + t + "]";
    else { if (n > 4) return; sxn_assume(!(is(t[0], ' ') | is(t[n - 1], ' '))); }
    // reference: bracket, number, comma, number, bracket
    bool expect = false;
    uint64_t lo = 0, hi = 0;
    unsigned sep = 0, seps = 0, rb = 0, last = (unsigned)t.size() - 1;
    for (unsigned i = 1; i < last; ++i) { if (is(t[i], ',')) { sep = i; ++seps; } else if (is(t[i], ']')) rb = 1; }
    if (is(t[0], '[') && is(t[last], ']') && seps == 1 && !rb)
        expect = within(read(t.substr(1, sep - 1)), true, ~uint64_t(0) << 31, 0x7fffffff, lo) && within(read(t.substr(sep + 1, last - sep - 1)), true, ~uint64_t(0) << 31, 0x7fffffff, hi) && (int64_t)lo <= (int64_t)hi;
    P p;
    bool ok = p.run(schema("<fields>" + tag("int", attr("name", "f") + attr("type", "int32") + attr("validRange", t)) + "</fields>"));
    sxn_assert(ok == expect, "range-accepted-iff-well-formed");
    if (!ok) { sxn_reach("range-rejected"); return; }
    auto r = ParseIntField(p.field("f")).parseValidRanges();
    sxn_assert(r.size() == 1 && r[0].m_min == (std::intmax_t)lo && r[0].m_max == (std::intmax_t)hi, "range-as-written");
    sxn_reach("range-accepted");
}

void sx_harness()
{
    switch (sx::choice("scenario", 9)) {
    case 0: number(); break;
    case 1: large(); break;
    case 2: forms(); break;
    case 3: twice(); break;
    case 4: flags(); break;
    case 5: units(); break;
    case 6: types(); break;
    case 7: ranges(); break;
    case 8: anyTwice(); break;
    }
}
