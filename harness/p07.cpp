// Serialised lengths: the reported minimum and maximum are the mathematical ones, saturated at the largest length.
#include "h.h"
void sx_prepare() { P p; p.run(schema("<fields><list name=\"f\" count=\"2\"><data name=\"e\" length=\"1\"/></list><bundle name=\"b\"><int name=\"a\" type=\"uint8\"/></bundle></fields>")); }
static std::string fields(const std::string& s) { return schema("<fields>" + s + "</fields>"); }
static const uint64_t MAX = ~0ull;
static uint64_t add(uint64_t a, uint64_t b) { uint64_t s = a + b; return s | (0 - (uint64_t)(s < a)); }
static uint64_t mul(uint64_t a, uint64_t c) { return c == 0 ? 0 : (a * c) | (0 - (uint64_t)(a > MAX / c)); }   // c concrete
struct L { uint64_t lo, hi; };
static void same(const ParseField& f, L l, const char* key)
{
    sxn_assert((unsigned)(f.parseMinLength() == l.lo) & (unsigned)(f.parseMaxLength() == l.hi), key);
}
static const uint64_t Counts[] = {1, 3, 256, 65536, 0xffffffff, 2};
static const unsigned Ptys[] = {1, 3, 7, 9, 0, 8, 6};
static std::string is(const char* n, unsigned i) { return n + std::to_string(i); }

// a field of symbolic length; kinds: 0 data, 1 string, 2 zero terminated, 3 prefixed data, 4 optional data, 5 variant of two, 6 unlimited, 7 bundle with length, 8 enum, 9 referenced data
static std::string leaf(unsigned i, unsigned kind, L& l, const std::string& extra = "", uint64_t top = 0xffffffff)
{
    std::string at = attr("name", is("m", i)) + extra;
    uint64_t e = kind == 2 || kind == 6 || kind == 8 || kind == 7 || kind == 3 ? 0 : sx::range(is("len", i).c_str(), 1, top);
    l.lo = l.hi = e;
    switch (kind) {
    case 0: return tag("data", at + attr("length", sx::hex(e)));
    case 1: return tag("string", at + attr("length", sx::hex(e)));
    case 2: l = {1, MAX}; return tag("string", at + attr("zeroTermSuffix", "true"));
    case 3: {
        auto& t = IntTypes[Ptys[sx::choice(is("prefix", i).c_str(), 7)]];
        uint64_t pl = t.len;
        uint64_t mx = maxOf(t.sig, t.var ? 64 : t.len * 8);
        std::string pa;
        if (t.var || t.len == 2) { pl = 2; pa = attr("length", "2"); mx = maxOf(t.sig, valueBits(t, 2)); }
        l = {t.var ? 1 : pl, add(mx, pl)};
        return tag(sx::choice(is("str", i).c_str(), 2) ? "string" : "data", at, "<lengthPrefix>" + tag("int", attr("name", "p") + attr("type", t.name) + pa) + "</lengthPrefix>");
    }
    case 4: l.lo = 0; return tag("optional", at, tag("data", attr("name", "d") + attr("length", sx::hex(e))));
    case 5: {
        uint64_t e2 = sx::range(is("alt", i).c_str(), 1, 0xffffffff);
        l = {0, e > e2 ? e : e2};
        return tag("variant", at, tag("data", attr("name", "d1") + attr("length", sx::hex(e))) + tag("data", attr("name", "d2") + attr("length", sx::hex(e2))));
    }
    case 6: l = {0, MAX}; return tag("data", at);
    case 7: l = {1, MAX}; return tag("bundle", at, tag("int", attr("name", "l") + attr("type", "uint8") + attr("semanticType", "length")));
    case 8: l = {2, 2}; return tag("enum", at + attr("type", "uint16"), tag("validValue", attr("name", "V") + attr("val", "0")));
    default: return tag("ref", at + attr("field", is("g", i)));
    }
}
static std::string global(unsigned i, unsigned kind, L l) { return kind == 9 ? tag("data", attr("name", is("g", i)) + attr("length", sx::hex(l.lo))) : ""; }

static void fixedCount()
{
    L e;
    static const unsigned K[] = {0, 4, 5, 2, 3};
    unsigned kind = K[sx::choice("elem", 5)];
    uint64_t c = Counts[sx::choice("count", kind == 0 ? 6 : 2)];
    std::string el = leaf(0, kind, e, "", c == 0xffffffff ? 0xffffff : 0xffffffff);
    unsigned pre = sx::choice("elemPrefix", 4), fix = sx::choice("fixed", 2);
    std::string at = attr("name", "f") + attr("count", sx::hex(c)), kids = "<element>" + el + "</element>";
    L x{0, 0};
    if (pre == 1) { kids += "<elemLengthPrefix>" + tag("int", attr("name", "p") + attr("type", "uint32")) + "</elemLengthPrefix>"; x = {4, 4}; }
    if (pre == 2) { kids += "<elemLengthPrefix>" + tag("int", attr("name", "p") + attr("type", "uintvar")) + "</elemLengthPrefix>"; x = {1, 10}; }
    if (pre == 3) { kids += "<elemLengthPrefix>" + tag("bundle", attr("name", "p") + attr("semanticType", "length"), tag("int", attr("name", "l") + attr("type", "uint16") + attr("semanticType", "length"))) + "</elemLengthPrefix>"; x = {2, MAX}; }
    if (fix) at += attr("elemFixedLength", "true");
    P p;
    bool r = p.run(fields(tag("list", at, kids)));
    bool ok = (unsigned)!fix | (unsigned)(e.lo == e.hi);
    sxn_assert(r == ok, "fixed-element-length-refused-iff-variable");
    if (!r) { sxn_reach("rejected"); return; }
    sxn_reach("counted");
    L w{add(mul(e.lo, c), fix ? x.lo : mul(x.lo, c)), add(mul(e.hi, c), fix ? x.hi : mul(x.hi, c))};
    same(p.field("f"), w, "counted-list-length");
    ParseListField f(p.field("f"));
    sxn_assert(f.parseFixedCount() == c && f.parseElemFixedLength() == (fix != 0) && f.parseHasElemLengthPrefixField() == (pre != 0), "list-attributes");
}

static void symbolicCount()
{
    static const char* T[] = {"uint8", "uint16", "uint32", "uint64"};
    unsigned t = sx::choice("type", 4);
    uint64_t c = sx::range("count", 0, 0x1ffffffff);
    P p;
    bool r = p.run(fields(tag("list", attr("name", "f") + attr("count", sx::hex(c)), tag("int", attr("name", "e") + attr("type", T[t])))));
    sxn_assert(r == ((unsigned)(c != 0) & (unsigned)(c <= 0xffffffff)), "count-accepted-iff-positive-32-bit");
    if (r) { same(p.field("f"), {c << t, c << t}, "any-count-length"); sxn_assert(ParseListField(p.field("f")).parseFixedCount() == c, "count-kept"); sxn_reach("any-count"); }
}

static void nested()
{
    L e;
    std::string el = leaf(0, 0, e);
    static const uint64_t N[] = {1, 3, 65536, 0x1000, 0x80000000};
    uint64_t c1 = N[sx::choice("count1", 5)], c2 = N[sx::choice("count2", 5)];
    unsigned third = sx::choice("third", 2);
    std::string g = tag("list", attr("name", "in") + attr("count", sx::hex(c1)), el);
    std::string f = tag("list", attr("name", "f") + attr("count", sx::hex(c2)) + attr("element", "in"));
    std::string h = third ? tag("bundle", attr("name", "h"), tag("ref", attr("name", "x") + attr("field", "f")) + tag("ref", attr("name", "y") + attr("field", "f"))) : "";
    P p;
    bool r = p.run(fields(g + f + h));
    sxn_assert(r, "nested-accepted");
    if (!r) return;
    uint64_t one = mul(mul(e.lo, c1), c2);
    same(p.field("f"), {one, one}, "nested-list-length");
    if (third) same(p.field("h"), {add(one, one), add(one, one)}, "nested-bundle-length");
    sxn_reach("nested");
}

static void prefixed()
{
    L e;
    static const unsigned K[] = {0, 2, 4};
    unsigned form = sx::choice("form", 4), kind = K[sx::choice("elem", 3)];
    std::string el = leaf(0, kind, e, "", sxn_thorough() ? 0xffffffff : 0xffff), at = attr("name", "f"), kids = "<element>" + el + "</element>", gl;
    static const char* F[] = {"countPrefix", "lengthPrefix", "termSuffix", ""};
    L w{0, MAX};
    unsigned pre = sx::choice("elemPrefix", 2), fix = kind == 0 ? sx::choice("fixed", 2) : 0;
    uint64_t x = pre ? 4 : 0;
    if (form < 3) {
        unsigned pk = sx::choice("prefix", sxn_thorough() ? 8 : 5);
        if (pk == 4 && !sxn_thorough()) pk = 7;
        if (pk == 7) {
            // not an integer
            std::string b = tag("bundle", attr("name", "p") + attr("semanticType", "length"), tag("int", attr("name", "a") + attr("type", "uint8")) + tag("int", attr("name", "l") + attr("type", "uint16") + attr("semanticType", "length")));
            if (sx::choice("ref", 2)) { gl = b; at += attr(F[form], "p"); } else kids += std::string("<") + F[form] + ">" + b + "</" + F[form] + ">";
            w = {3, MAX};
        }
        else {
            auto& t = IntTypes[Ptys[pk]];
            uint64_t so = 0, pl = t.var ? 3 : t.len, mx = maxOf(t.sig, t.var ? valueBits(t, 3) : t.len * 8);
            std::string pt = tag("int", attr("name", "p") + attr("type", t.name) + (t.var ? attr("length", "3") : ""));
            if (sx::choice("ref", 2)) { gl = pt; at += attr(F[form], "p"); } else kids += std::string("<") + F[form] + ">" + pt + "</" + F[form] + ">";
            w.lo = t.var ? 1 : pl;
            if (form == 0) w.hi = add(add(mul(e.hi, mx), pl), fix ? x : mul(x, mx));
            if (form == 1) w.hi = add(mx, pl);
        }
    }
    if (pre) kids += "<elemLengthPrefix>" + tag("int", attr("name", "ep") + attr("type", "uint32")) + "</elemLengthPrefix>";
    if (fix) at += attr("elemFixedLength", "true");
    P p;
    bool r = p.run(fields(gl + tag("list", at, kids)));
    sxn_assert(r, "prefixed-accepted");
    if (!r) return;
    same(p.field("f"), w, "prefixed-list-length");
    ParseListField f(p.field("f"));
    sxn_assert(f.parseHasCountPrefixField() == (form == 0) && f.parseHasLengthPrefixField() == (form == 1) && f.parseHasTermSuffixField() == (form == 2) && f.parseFixedCount() == 0, "list-form");
    sxn_reach("prefixed");
}

// a prefix that can only be zero
static void zeroPrefix()
{
    auto o = sx::range("offset", 0, 300);
    P p;
    bool r = p.run(fields(tag("list", attr("name", "f"), "<element>" + tag("data", attr("name", "e") + attr("length", "3")) + "</element><countPrefix>" + tag("int", attr("name", "p") + attr("type", "uint8") + attr("serOffset", sx::hex(o))) + "</countPrefix>")));
    if (!r) { sxn_reach("offset-refused"); return; }
    ParseListField f(p.field("f"));
    uint64_t mx = (uint64_t)ParseIntField(f.parseCountPrefixField()).parseMaxValue();
    sxn_assert(mx <= 255, "offset-prefix-value");
    sxn_assert(f.parseMinLength() == 1, "offset-prefix-min");
    sxn_assert(f.parseMaxLength() == 1 + 3 * mx, "offset-prefix-max");
    if (mx == 0) sxn_reach("zero-prefix");
    sxn_reach("offset-prefix");
}

static void sums()
{
    unsigned n = 1 + sx::choice("members", sxn_thorough() ? 3 : 2), msg = sx::choice("message", 2);
    std::string kids, gl;
    L w{0, 0};
    for (unsigned i = 0; i < n; ++i) {
        L l;
        unsigned kind = sx::choice(is("kind", i).c_str(), n == 3 ? 6 : 10);
        std::string extra;
        unsigned ver = msg && i ? sx::choice(is("ver", i).c_str(), 2) : 0;
        if (ver) extra = attr("sinceVersion", "2");
        kids += leaf(i, kind, l, extra);
        gl += global(i, kind, l);
        if (!ver) w.lo = add(w.lo, l.lo);
        w.hi = add(w.hi, l.hi);
    }
    uint64_t expect = 0;
    unsigned chk = sx::choice("validate", 3);
    std::string at = attr("name", "f");
    bool ok = true;
    if (chk) {
        expect = sx::range("expect", 0, 0xffffffff);
        at += attr("validateMinLength", sx::hex(expect));
        ok = expect == w.lo;
    }
    P p;
    bool r;
    std::string body = "<fields>" + gl + "</fields>";
    if (msg) {
        if (chk == 2) {
            // the fields come from elsewhere
            body = "<fields>" + gl + "</fields>" + tag("message", attr("name", "g") + attr("id", "2"), kids) + tag("message", at + attr("id", "1") + attr("copyFieldsFrom", "g"));
        }
        else body += tag("message", at + attr("id", "1"), kids);
    }
    else {
        if (chk == 2) body = "<fields>" + gl + tag("bundle", attr("name", "g"), kids) + tag("bundle", at + attr("reuse", "g")) + "</fields>";
        else body = "<fields>" + gl + tag("bundle", at, kids) + "</fields>";
    }
    r = p.run(schema(body, "", "3"));
    sxn_assert(r == ok, "accepted-iff-minimal-length-as-expected");
    if (!r) { sxn_reach("sum-rejected"); return; }
    sxn_reach("sum-accepted");
    if (msg) { auto m = p.message("f"); sxn_assert((unsigned)(m.parseMinLength() == w.lo) & (unsigned)(m.parseMaxLength() == w.hi), "message-length"); }
    else same(p.field("f"), w, "bundle-length");
}

void sx_harness()
{
    switch (sx::choice("scenario", 6)) {
    case 0: fixedCount(); break;
    case 1: symbolicCount(); break;
    case 2: nested(); break;
    case 3: prefixed(); break;
    case 4: zeroPrefix(); break;
    case 5: sums(); break;
    }
}
