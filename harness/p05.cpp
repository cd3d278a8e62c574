// Float fields: default, specials and valid ranges are reported as declared; values the type cannot hold are refused.
#include "h.h"
#include <cfloat>
#include <cmath>
void sx_prepare() { P p; p.run(schema("<fields><float name=\"f\" type=\"float\"/></fields>")); }
static std::string fields(const std::string& s) { return schema("<fields>" + s + "</fields>", "", "6"); }
static uint64_t bits(double d) { uint64_t b; __builtin_memcpy(&b, &d, 8); return b; }
static bool same(double a, double b) { return (unsigned)(bits(a) == bits(b)) | ((unsigned)(a == b) & (unsigned)(a == 0)) ; }
struct F { const char* name; double max; unsigned len; };
static const F Fs[] = {{"float", FLT_MAX, 4}, {"double", DBL_MAX, 8}};
// a finite symbolic number, zero or normal
static double fin(const char* n)
{
    uint64_t b = sx::u64(n);
    // finite and not subnormal
    sxn_assume((unsigned)(((b >> 52) & 0x7ff) - 1 < 0x7fe) | (unsigned)((b << 1) == 0));
    double d; __builtin_memcpy(&d, &b, 8);
    return d;
}
static bool inT(const F& t, double d) { return (unsigned)(-t.max <= d) & (unsigned)(d <= t.max); }
struct V { double d = 0; std::string text; bool special = false; bool nan = false; bool ok = true; };
// k: 0 symbolic finite, 1 nan, 2 inf, 3 -inf
static V val(const char* n, unsigned k, const F& t)
{
    V v;
    if (k == 0) { v.d = fin(n); v.text = sx::fp(v.d); v.ok = inT(t, v.d); return v; }
    static const char* T[] = {"", "NaN", "inf", "-Inf"};
    v.text = T[k]; v.special = true; v.nan = k == 1;
    v.d = k == 1 ? NAN : k == 2 ? INFINITY : -INFINITY;
    return v;
}
static bool eq(const V& v, double d) { return v.nan ? (bool)std::isnan(d) : same(v.d, d); }

static void deflt()
{
    auto& t = Fs[sx::choice("type", 2)];
    unsigned k = sx::choice("kind", 5);
    V v;
    std::string at = attr("name", "f") + attr("type", t.name);
    if (k < 4) { v = val("default", k, t); at += attr("defaultValue", v.text); }
    P p;
    bool ok = p.run(fields(tag("float", at)));
    sxn_assert(ok == v.ok, "accepted-iff-default-in-type");
    if (!ok) { sxn_reach("rejected"); return; }
    sxn_reach("accepted");
    ParseFloatField f(p.field("f"));
    sxn_assert((unsigned)f.parseType() == (unsigned)(&t - Fs), "type");
    sxn_assert(f.parseMinLength() == t.len && f.parseMaxLength() == t.len, "length");
    sxn_assert(eq(v, f.parseDefaultValue()), "default");
    sxn_assert(f.parseValidRanges().empty() && f.parseSpecialValues().empty(), "nothing-else");
}

static void specials()
{
    auto& t = Fs[sx::choice("type", 2)];
    unsigned nu = sx::choice("nonUnique", 3), ka = sx::choice("ka", 4), kb = sx::choice("kb", 4), def = sx::choice("def", 2);
    V a = val("a", ka, t), b = val("b", kb, t);
    std::string at = attr("name", "f") + attr("type", t.name);
    if (nu) at += attr("nonUniqueSpecialsAllowed", nu == 1 ? "false" : "true");
    if (def) at += attr("defaultValue", "B");
    P p;
    bool ok = p.run(fields(tag("float", at, tag("special", attr("name", "A") + attr("val", a.text)) + tag("special", attr("name", "B") + attr("val", b.text)))));
    bool dup = (ka == 0 && kb == 0) ? a.d == b.d : ka == kb;
    sxn_assert(ok == ((unsigned)a.ok & (unsigned)b.ok & ((unsigned)(nu == 2) | (unsigned)!dup)), "specials-accepted-iff-valid");
    if (!ok) { sxn_reach("specials-rejected"); return; }
    sxn_reach("specials-accepted");
    ParseFloatField f(p.field("f"));
    auto& s = f.parseSpecialValues();
    sxn_assert(s.size() == 2 && s.find("A") != s.end() && s.find("B") != s.end(), "specials-names");
    sxn_assert(eq(a, s.find("A")->second.m_value) && eq(b, s.find("B")->second.m_value), "specials-values");
    if (def) sxn_assert(eq(b, f.parseDefaultValue()), "default-by-name");
    sxn_assert(f.parseHasNonUniqueSpecials() == dup, "non-unique-report");
}

struct Decl { double lo, hi; unsigned since, dep; };
static bool has(double lo, double hi, unsigned since, unsigned dep, double x, unsigned v) { return (since <= v) & (v < dep) & (unsigned)(lo <= x) & (unsigned)(x <= hi); }
struct Ver { const char* attrs; unsigned since, dep; };
static const Ver Vers[] = {{"", 0, ~0u}, {" sinceVersion=\"2\"", 2, ~0u}, {" deprecated=\"4\"", 0, 4}, {" sinceVersion=\"2\" deprecated=\"4\"", 2, 4}};

static void ranges()
{
    auto& t = Fs[sx::choice("type", 2)];
    unsigned n = sxn_thorough() ? 3 : 2;
    std::string at = attr("name", "f") + attr("type", t.name), kids;
    std::vector<Decl> ds;
    bool valid = true, nanDeclared = false;
    unsigned infDeclared = 0;
    for (unsigned i = 0; i < n; ++i) {
        std::string is = std::to_string(i);
        unsigned form = i == 2 ? 1 : sx::choice(("form" + is).c_str(), 7);
        const Ver& v = form && i < 2 ? Vers[sx::choice(("ver" + is).c_str(), i && form != 1 ? 2 : 4)] : Vers[0];
        Decl d{0, 0, v.since, v.dep};
        if (form == 0 || form == 1) {
            if (form == 0 && i) return;
            double a = fin(("a" + is).c_str()), b = fin(("b" + is).c_str());
            d.lo = a; d.hi = b;
            std::string r = "[" + sx::fp(a) + ", " + sx::fp(b) + "]";
            if (form == 0) at += attr("validRange", r); else kids += tag("validRange", attr("value", r) + v.attrs);
            valid = (unsigned)valid & (unsigned)(a <= b);
        }
        else if (form == 2) {
            unsigned k = sx::choice(("k" + is).c_str(), 3);
            V x = val(("a" + is).c_str(), k, t);
            kids += tag("validValue", attr("value", x.text) + v.attrs);
            d.lo = d.hi = x.d;
            if (k == 1) { nanDeclared = true; }
            if (k == 2) infDeclared++;
            valid = (unsigned)valid & (unsigned)x.ok;
        }
        else if (form == 3 || form == 4) {
            double a = fin(("a" + is).c_str());
            valid = (unsigned)valid & (unsigned)inT(t, a);
            kids += tag(form == 3 ? "validMin" : "validMax", attr("value", sx::fp(a)) + v.attrs);
            d.lo = form == 3 ? a : -t.max; d.hi = form == 3 ? t.max : a;
        }
        else if (form == 5) {
            if (i) return;
            kids += tag("validFullRange", attr("value", "true") + v.attrs);
            d.lo = -t.max; d.hi = t.max;
        }
        else { kids += tag("validFullRange", attr("value", "false") + v.attrs); d.lo = 1; d.hi = 0; if (i) return; }
        ds.push_back(d);
    }
    P p;
    bool ok = p.run(fields(tag("float", at, kids)).replace(0, 0, ""));
    // members of a global field carry no versions, so the document puts it there with version 6
    sxn_assert(ok == valid, "ranges-accepted-iff-ordered");
    if (!ok) { sxn_reach("ranges-rejected"); return; }
    sxn_reach("ranges-accepted");
    ParseFloatField f(p.field("f"));
    auto& rs = f.parseValidRanges();
    double x = fin("x");
    sxn_assume(inT(t, x));
    for (unsigned v = 0; v <= 6; ++v) {
        unsigned want = 0, got = 0;
        for (auto& d : ds) want |= has(d.lo, d.hi, d.since, d.dep, x, v);
        for (auto& r : rs) got |= has(r.m_min, r.m_max, r.m_sinceVersion, r.m_deprecatedSince, x, v);
        sxn_assert(want == got, "valid-set-preserved");
    }
    unsigned nans = 0, infs = 0;
    for (auto& r : rs) {
        if (!sxn_is_symbolic(&r.m_min, 8) && std::isnan(r.m_min)) ++nans;
        if (!sxn_is_symbolic(&r.m_min, 8) && std::isinf(r.m_min)) ++infs;
    }
    sxn_assert((nans > 0) == nanDeclared, "nan-validity-kept");
    sxn_assert((infs > 0) == (infDeclared > 0), "inf-validity-kept");
}

static void misc()
{
    unsigned k = sx::choice("k", 4);
    P p;
    if (k == 0) {
        auto& t = Fs[sx::choice("type", 2)]; auto& o = Fs[sx::choice("other", 2)];
        double v = fin("v");
        sxn_assume(inT(o, v));
        unsigned how = sx::choice("how", 2);
        std::string oth = how ? tag("float", attr("name", "o") + attr("type", o.name), tag("special", attr("name", "S") + attr("val", sx::fp(v)))) : tag("float", attr("name", "o") + attr("type", o.name) + attr("defaultValue", sx::fp(v)));
        bool ok = p.run(fields(oth + tag("float", attr("name", "f") + attr("type", t.name) + attr("defaultValue", how ? "o.S" : "o"))));
        sxn_assert(ok == inT(t, v), "referenced-default-accepted-iff-in-type");
        if (ok) sxn_assert(same(ParseFloatField(p.field("f")).parseDefaultValue(), v), "referenced-default");
        return;
    }
    if (k == 1) {
        auto dd = sx::u64("decimals");
        bool ok = p.run(fields(tag("float", attr("name", "f") + attr("type", "double") + attr("displayDecimals", sx::hex(dd)))));
        sxn_assert(ok == (dd <= 0xffffffffull), "decimals-accepted-iff-fits");
        if (ok) sxn_assert(ParseFloatField(p.field("f")).parseDisplayDecimals() == dd, "decimals");
        return;
    }
    static const char* B[] = {"", "true", "false", "1", "0", "TRUE", "False", "yes"};
    unsigned b = sx::choice("b", 8), e = sx::choice("e", 4);
    static const char* E[] = {"", "big", "Little", "pdp"};
    static const char* Ty[] = {"float", "Double", "", "half"};
    unsigned ty = sx::choice("ty", 4);
    bool ok = p.run(fields(tag("float", attr("name", "f") + (ty == 2 ? "" : attr("type", Ty[ty])) + (b ? attr("validCheckVersion", B[b]) : "") + (e ? attr("endian", E[e]) : ""))));
    sxn_assert(ok == (b != 7 && e != 3 && ty < 2), "flags-accepted-iff-valid");
    if (!ok) return;
    ParseFloatField f(p.field("f"));
    sxn_assert(f.parseValidCheckVersion() == (b == 1 || b == 3 || b == 5), "valid-check-version");
    sxn_assert(f.parseEndian() == (e == 2 ? ParseEndian_Little : ParseEndian_Big), "endian");
    sxn_assert((unsigned)f.parseType() == ty, "type-text");
}

void sx_harness()
{
    switch (sx::choice("scenario", 4)) {
    case 0: deflt(); break;
    case 1: specials(); break;
    case 2: ranges(); break;
    case 3: misc(); break;
    }
}
