// Int fields: what is declared is what is reported; what cannot be held by the type is refused.
#include "h.h"
void sx_prepare() { P p; p.run(schema("<fields><int name=\"f\" type=\"uint8\"/></fields>")); }
static std::string fields(const std::string& s) { return schema("<fields>" + s + "</fields>"); }

static void typeLenDefault()
{
    auto& t = IntTypes[sx::choice("type", 10)];
    std::string a = attr("name", "f") + attr("type", t.name);
    unsigned len = t.len;
    bool expect = true;
    if (sx::choice("lenGiven", 2)) {
        auto l = sx::range("length", 0, 24);
        a += attr("length", sx::hex(l));
        if ((l == 0) | (l > t.len)) expect = false;
        else len = (unsigned)sxn_concretize(l);
    }
    uint64_t d = 0;
    if (sx::choice("defGiven", 2)) {
        d = sx::u64("default");
        a += attr("defaultValue", num(t, d));
        if (!inType(t, d)) expect = false;
    }
    P p;
    bool ok = p.run(fields(tag("int", a)));
    sxn_assert(ok == expect, "accepted-iff-valid");
    if (!ok) { sxn_reach("rejected"); sxn_assert(p.errors > 0, "rejection-reported"); return; }
    sxn_reach("accepted");
    ParseIntField f(p.field("f"));
    sxn_assert(f.parseValid(), "found");
    sxn_assert((unsigned)f.parseType() == (unsigned)(&t - IntTypes), "type");
    sxn_assert(f.parseMaxLength() == len, "max-length");
    sxn_assert(f.parseMinLength() == (t.var ? 1 : len), "min-length");
    sxn_assert((uint64_t)f.parseMinValue() == minOf(t.sig, valueBits(t, len)), "min-value");
    sxn_assert((uint64_t)f.parseMaxValue() == maxOf(t.sig, valueBits(t, len)), "max-value");
    sxn_assert((uint64_t)f.parseDefaultValue() == d, "default");
    sxn_assert(f.parseSerOffset() == 0, "no-offset");
    sxn_assert(f.parseScaling() == std::make_pair<intmax_t, intmax_t>(1, 1), "no-scaling");
    sxn_assert(f.parseValidRanges().empty(), "no-ranges");
    sxn_assert(f.parseSpecialValues().empty(), "no-specials");
    sxn_assert(f.parseEndian() == ParseEndian_Big, "schema-endian");
}

static void serOffset()
{
    auto& t = IntTypes[sx::choice("type", 10)];
    static const unsigned Lens[] = {0, 1, 2, 5};
    unsigned l = Lens[sx::choice("len", 4)];
    unsigned len = l ? l : t.len;
    if (len > t.len) return;
    int64_t off = (int64_t)sx::u64("offset");
    P p;
    bool ok = p.run(fields(tag("int", attr("name", "f") + attr("type", t.name) + (l ? attr("length", dec(l)) : "") + attr("serOffset", sx::shex(off)))));
    bool expect = true;
    if (t.len < 8) {
        int64_t span = (int64_t)(typeMax(t) - typeMin(t));
        expect = (off < span) & (off > -span);
    }
    sxn_assert(ok == expect, "offset-accepted-iff-in-type-span");
    if (!ok) { sxn_reach("offset-rejected"); return; }
    sxn_reach("offset-accepted");
    ParseIntField f(p.field("f"));
    sxn_assert(f.parseSerOffset() == off, "offset");
    uint64_t mn = minOf(t.sig, valueBits(t, len)), mx = maxOf(t.sig, valueBits(t, len));
    // serialised value = value + offset, so the limits of the value move by -offset (when that still is a 64 bit number)
    if (t.sig) {
        int64_t e;
        if (!__builtin_sub_overflow((int64_t)mn, off, &e) && e != INT64_MIN) sxn_assert(f.parseMinValue() == e, "min-value-moves");
        if (!__builtin_sub_overflow((int64_t)mx, off, &e) && e != INT64_MAX) sxn_assert(f.parseMaxValue() == e, "max-value-moves");
    }
    else {
        uint64_t mag = off < 0 ? 0 - (uint64_t)off : (uint64_t)off;
        if (off < 0) {
            sxn_assert((uint64_t)f.parseMinValue() == mn + mag, "min-value-moves");
            if (mx < ~uint64_t(0) - mag) sxn_assert((uint64_t)f.parseMaxValue() == mx + mag, "max-value-moves");
            else sxn_assert((uint64_t)f.parseMaxValue() >= mx, "max-value-not-shrunk");
        }
        else {
            sxn_assert(f.parseMinValue() == 0, "min-value-stays");
            if (mag <= mx) sxn_assert((uint64_t)f.parseMaxValue() == mx - mag, "max-value-moves");
        }
    }
}

static void specials()
{
    auto& t = IntTypes[sx::choice("type", 10)];
    unsigned dupFlag = sx::choice("nonUnique", 3);      // absent, false, true
    uint64_t a = sx::u64("s1"), b = sx::u64("s2"), d = 0;
    unsigned useDef = sx::choice("def", 3);             // none, by name S2, number
    std::string at = attr("name", "f") + attr("type", t.name);
    if (dupFlag) at += attr("nonUniqueSpecialsAllowed", dupFlag == 1 ? "false" : "true");
    if (useDef == 1) { at += attr("defaultValue", "S2"); d = b; }
    if (useDef == 2) { d = sx::u64("default"); at += attr("defaultValue", num(t, d)); }
    P p;
    bool ok = p.run(fields(tag("int", at, tag("special", attr("name", "S1") + attr("val", num(t, a))) + tag("special", attr("name", "S2") + attr("val", num(t, b))))));
    bool expect = (unsigned)inType(t, a) & (unsigned)inType(t, b) & (unsigned)inType(t, d) & (unsigned)((dupFlag == 2) | (a != b));
    sxn_assert(ok == expect, "specials-accepted-iff-valid");
    if (!ok) { sxn_reach("specials-rejected"); return; }
    sxn_reach("specials-accepted");
    ParseIntField f(p.field("f"));
    auto& s = f.parseSpecialValues();
    sxn_assert(s.size() == 2, "specials-count");
    auto i1 = s.find("S1"), i2 = s.find("S2");
    sxn_assert(i1 != s.end() && i2 != s.end(), "specials-names");
    sxn_assert((uint64_t)i1->second.m_value == a && (uint64_t)i2->second.m_value == b, "specials-values");
    sxn_assert((uint64_t)f.parseDefaultValue() == d, "default");
}

// default taken from another field
static void refDefault()
{
    auto& t = IntTypes[sx::choice("type", 10)];
    auto& o = IntTypes[sx::choice("other", 10)];
    uint64_t v = sx::u64("v");
    sxn_assume(inType(o, v));
    unsigned how = sx::choice("how", 3);
    std::string oth, ref;
    if (how == 0) { oth = tag("int", attr("name", "o") + attr("type", o.name) + attr("defaultValue", num(o, v))); ref = "o"; }
    if (how == 1) { oth = tag("int", attr("name", "o") + attr("type", o.name), tag("special", attr("name", "S") + attr("val", num(o, v)))); ref = "o.S"; }
    if (how == 2) { oth = tag("enum", attr("name", "o") + attr("type", o.name), tag("validValue", attr("name", "S") + attr("val", num(o, v)))); ref = "o.S"; }
    P p;
    bool ok = p.run(fields(oth + tag("int", attr("name", "f") + attr("type", t.name) + attr("defaultValue", ref))));
    // the number v (of type o) must be a number of type t
    bool neg = o.sig & ((int64_t)v < 0);
    bool expect = neg ? (t.sig && (int64_t)v >= (int64_t)typeMin(t)) : v <= typeMax(t);
    sxn_assert(ok == expect, "referenced-default-accepted-iff-in-type");
    if (!ok) { sxn_reach("ref-rejected"); return; }
    sxn_reach("ref-accepted");
    ParseIntField f(p.field("f"));
    sxn_assert((uint64_t)f.parseDefaultValue() == v, "referenced-default");
}

static void presentation()
{
    bool sig = sx::choice("sig", 2);
    auto n = (int64_t)sx::u64("num"), dn = (int64_t)sx::u64("denom");
    unsigned how = sx::choice("scaling", 3);
    auto dd = sx::range("decimals", 0, 0xffffffffull);
    auto off = (int64_t)sx::u64("dispOffset");
    static const char* B[] = {"", "true", "false", "1", "0", "TRUE", "False", "yes"};
    unsigned b1 = sx::choice("b1", 8);
    unsigned which = sx::choice("flag", 3);
    static const char* BN[] = {"validCheckVersion", "signExt", "availableLengthLimit"};
    static const char* E[] = {"", "big", "little", "LITTLE", "middle"};
    unsigned e = which == 0 ? sx::choice("endian", 5) : 0;
    std::string at = attr("name", "f") + attr("type", sig ? "int32" : "uint32") + attr("length", "3");
    if (how == 1) at += attr("scaling", sx::shex(n));
    if (how == 2) at += attr("scaling", sx::shex(n) + "/" + sx::shex(dn));
    at += attr("displayDecimals", sx::hex(dd)) + attr("displayOffset", sx::shex(off));
    if (b1) at += attr(BN[which], B[b1]);
    if (e) at += attr("endian", E[e]);
    P p;
    bool ok = p.run(fields(tag("int", at)));
    bool expect = (b1 != 7) & (e != 4);
    if (how >= 1) expect = (unsigned)expect & (unsigned)(n != 0);
    if (how == 2) expect = (unsigned)expect & (unsigned)(dn != 0);
    sxn_assert(ok == expect, "presentation-accepted-iff-valid");
    if (!ok) { sxn_reach("presentation-rejected"); return; }
    sxn_reach("presentation-accepted");
    ParseIntField f(p.field("f"));
    auto sc = f.parseScaling();
    sxn_assert(sc.first == (how ? n : 1) && sc.second == (how == 2 ? dn : 1), "scaling");
    sxn_assert(f.parseDisplayDecimals() == dd, "display-decimals");
    sxn_assert(f.parseDisplayOffset() == off, "display-offset");
    bool bv = b1 == 1 || b1 == 3 || b1 == 5;
    sxn_assert(f.parseValidCheckVersion() == (which == 0 && bv), "valid-check-version");
    sxn_assert(f.parseSignExt() == (which == 1 && b1 ? bv : true), "sign-ext");
    sxn_assert(f.parseAvailableLengthLimit() == (which == 2 && bv), "available-length-limit");
    sxn_assert(f.parseEndian() == (e == 2 || e == 3 ? ParseEndian_Little : ParseEndian_Big), "endian");
}

void sx_harness()
{
    switch (sx::choice("scenario", 5)) {
    case 0: typeLenDefault(); break;
    case 1: serOffset(); break;
    case 2: specials(); break;
    case 3: refDefault(); break;
    case 4: presentation(); break;
    }
}
