// Set fields: size, bit positions, names, defaults, reservations.
#include "h.h"
void sx_prepare() { P p; p.run(schema("<fields><set name=\"f\" length=\"1\"><bit name=\"A\" idx=\"0\"/></set></fields>")); }
static std::string bit(const std::string& n, const std::string& i, const std::string& more = "") { return tag("bit", attr("name", n) + attr("idx", i) + more); }
static std::string fields(const std::string& s) { return schema("<fields>" + s + "</fields>", "", "6"); }

static void size()
{
    static const unsigned Ts[] = {1, 3, 5, 7, 0, 6};
    unsigned tc = sx::choice("type", 7);
    std::string at = attr("name", "f");
    bool expect = true;
    unsigned maxLen = 8, len = 0;
    if (tc < 6) { at += attr("type", IntTypes[Ts[tc]].name); maxLen = len = IntTypes[Ts[tc]].len; if (tc >= 4) expect = false; }
    if (sx::choice("lenGiven", 2)) {
        auto l = sx::u64("length");
        at += attr("length", sx::hex(l));
        if ((l == 0) | (l > maxLen)) expect = false; else len = (unsigned)sxn_concretize(l);
    }
    else if (tc == 6) expect = false;
    unsigned nu = sx::choice("nonUnique", 2);
    if (nu) at += attr("nonUniqueAllowed", "true");
    auto a = sx::u64("a"), b = sx::u64("b");
    if (expect) expect = (unsigned)(a < len * 8) & (unsigned)(b < len * 8) & ((unsigned)(nu == 1) | (unsigned)(a != b));
    P p;
    bool ok = p.run(fields(tag("set", at, bit("A", sx::hex(a)) + bit("B", sx::hex(b)))));
    sxn_assert(ok == expect, "accepted-iff-bits-fit");
    if (!ok) { sxn_reach("rejected"); sxn_assert(p.errors > 0, "rejection-reported"); return; }
    sxn_reach("accepted");
    ParseSetField f(p.field("f"));
    sxn_assert(f.parseMinLength() == len && f.parseMaxLength() == len, "length");
    static const unsigned ByLen[] = {1, 3, 5, 5, 7, 7, 7, 7};
    sxn_assert((unsigned)f.parseType() == (tc < 6 ? Ts[tc] : ByLen[len - 1]), "type-holds-the-length");
    auto& bs = f.parseBits();
    sxn_assert(bs.size() == 2, "count");
    auto A = bs.find("A"), B = bs.find("B");
    sxn_assert(A != bs.end() && B != bs.end(), "names");
    sxn_assert(A->second.m_idx == a && B->second.m_idx == b, "positions");
    auto& rv = f.parseRevBits();
    sxn_assert(rv.size() == 2, "reverse-count");
    for (auto& r : rv) sxn_assert(bs.find(r.second) != bs.end() && bs.find(r.second)->second.m_idx == r.first, "reverse-map");
    sxn_assert(f.parseIsUnique() == (a != b), "is-unique");
    sxn_assert(f.parseIsNonUniqueAllowed() == (nu == 1), "non-unique-flag");
    sxn_assert(!f.parseDefaultBitValue() && !f.parseReservedBitValue() && !A->second.m_defaultValue && !A->second.m_reserved && !A->second.m_reservedValue, "all-off-by-default");
}

static const char* B3[] = {"", "true", "false"};
static void values()
{
    unsigned fd = sx::choice("fieldDefault", 3), fr = sx::choice("fieldReserved", 3);
    unsigned bd = sx::choice("bitDefault", 3), br = sx::choice("bitReserved", 3), bv = sx::choice("bitReservedValue", 3);
    std::string more;
    if (bd) more += attr("defaultValue", B3[bd]);
    if (br) more += attr("reserved", B3[br]);
    if (bv) more += attr("reservedValue", B3[bv]);
    auto i = sx::range("idx", 0, 15);
    P p;
    bool ok = p.run(fields(tag("set", attr("name", "f") + attr("length", "2") + (fd ? attr("defaultValue", B3[fd]) : "") + (fr ? attr("reservedValue", B3[fr]) : ""), bit("A", sx::hex(i), more))));
    sxn_assert(ok, "values-accepted");
    ParseSetField f(p.field("f"));
    sxn_assert(f.parseDefaultBitValue() == (fd == 1) && f.parseReservedBitValue() == (fr == 1), "field-values");
    auto& a = f.parseBits().find("A")->second;
    sxn_assert(a.m_defaultValue == (bd ? bd == 1 : fd == 1), "bit-default");
    sxn_assert(a.m_reserved == (br == 1), "bit-reserved");
    sxn_assert(a.m_reservedValue == (bv ? bv == 1 : fr == 1), "bit-reserved-value");
    sxn_assert(a.m_idx == i, "bit-idx");
    sxn_reach("values");
}

// two names for one bit, with versions
static void shared()
{
    auto s2 = sx::range("since2", 1, 8), d1 = sx::range("dep1", 1, 8);
    unsigned diff = sx::choice("diff", 4), same = sx::choice("same", 2), hasDep = sx::choice("hasDep", 2), nu = sx::choice("nu", 2);
    static const char* K[] = {"", "defaultValue", "reservedValue", "description"};
    std::string m1, m2 = attr("sinceVersion", sx::hex(s2));
    if (hasDep) m1 = attr("deprecated", sx::hex(d1));
    if (diff) { m1 += attr(K[diff], "true"); m2 += attr(K[diff], "false"); }
    P p;
    bool ok = p.run(schema(tag("message", attr("name", "M") + attr("id", "1"), tag("set", attr("name", "f") + attr("length", "1") + (nu ? attr("nonUniqueAllowed", "1") : ""), bit("A", "3", m1) + bit("B", same ? "3" : "4", m2))), "", "6"));
    bool expect = (s2 <= 6) & (!hasDep | (d1 <= 6)) & (nu | !same);
    bool overlap = !hasDep | (s2 < d1);
    if (same && (diff == 1 || diff == 2)) expect = (unsigned)expect & (unsigned)!overlap;
    sxn_assert(ok == expect, "shared-bit-consistent");
    if (!ok) { sxn_reach("shared-refused"); return; }
    sxn_reach("shared");
    ParseSetField f(p.message("M").parseFields().at(0));
    auto& a = f.parseBits().find("A")->second; auto& b = f.parseBits().find("B")->second;
    sxn_assert(a.m_sinceVersion == 0 && b.m_sinceVersion == s2, "bit-since");
    sxn_assert((!hasDep && a.m_deprecatedSince == ParseProtocol::parseNotYetDeprecated()) || (hasDep && a.m_deprecatedSince == d1), "bit-deprecated");
    sxn_assert(b.m_deprecatedSince == ParseProtocol::parseNotYetDeprecated(), "bit-not-deprecated");
}

// versions of reserved bits, names, references to other sets' bits
static void misc()
{
    unsigned k = sx::choice("k", 5);
    P p;
    if (k == 0) {
        unsigned res = sx::choice("res", 2), how = sx::choice("how", 4);
        auto s = sx::range("since", 0, 8), d = sx::range("dep", 0, 8);
        std::string m;
        unsigned es = 2, ed = 5;
        if (how & 1) { m += attr("sinceVersion", sx::hex(s)); es = s; }
        if (how & 2) { m += attr("deprecated", sx::hex(d)); ed = d; }
        if (res) m += attr("reserved", "true");
        bool ok = p.run(schema(tag("message", attr("name", "M") + attr("id", "1"), tag("set", attr("name", "f") + attr("length", "1") + attr("sinceVersion", "2") + attr("deprecated", "5"), bit("A", "3", m))), "", "6"));
        bool expect = (es >= 2) & (es < ed) & (ed <= 5);
        if (res) expect = (unsigned)expect & (unsigned)(es == 2) & (unsigned)(ed == 5);
        sxn_assert(ok == expect, "bit-version-within-field");
        if (ok) { auto& a = ParseSetField(p.message("M").parseFields().at(0)).parseBits().find("A")->second; sxn_assert(a.m_sinceVersion == es && a.m_deprecatedSince == ed, "bit-version"); }
        return;
    }
    if (k == 1) {
        auto nm = sx::chars("n", 2, 0x21, 0x7e);
        sxn_assume((nm[0] != '<') & (nm[0] != '&') & (nm[0] != '"') & (nm[1] != '<') & (nm[1] != '&') & (nm[1] != '"'));
        auto al = [](unsigned char c) { return (unsigned)((c >= 'a') & (c <= 'z')) | (unsigned)((c >= 'A') & (c <= 'Z')) | (unsigned)(c == '_'); };
        auto dg = [](unsigned char c) { return (unsigned)((c >= '0') & (c <= '9')); };
        unsigned valid = al(nm[0]) & (al(nm[1]) | dg(nm[1]));
        bool dup = (nm[0] == 'A') & (nm[1] == 'B');
        bool ok = p.run(fields(tag("set", attr("name", "f") + attr("length", "1"), bit("AB", "3") + bit(nm, "4"))));
        sxn_assert(ok == (valid & (unsigned)!dup), "bit-name-valid-and-new");
        return;
    }
    if (k == 2 || k == 3) {
        unsigned od = sx::choice("od", 2), ref = sx::choice("ref", 3);
        static const char* R[] = {"o.X", "o", "o.Z"};
        bool ok = p.run(fields(tag("set", attr("name", "o") + attr("length", "1") + attr("defaultValue", od ? "0" : "1"), bit("X", "0", attr("defaultValue", od ? "true" : "false"))) +
                               tag("set", attr("name", "f") + attr("length", "1") + (k == 2 ? attr("defaultValue", R[ref]) : ""), bit("A", "1", k == 3 ? attr("defaultValue", R[ref]) : ""))));
        sxn_assert(ok == (ref != 2), "referenced-bit-exists");
        if (!ok) return;
        bool want = ref == 0 ? od == 1 : od == 0;
        ParseSetField f(p.field("f"));
        sxn_assert(f.parseBits().find("A")->second.m_defaultValue == want, "referenced-bit-value");
        sxn_assert(f.parseDefaultBitValue() == (k == 2 && want), "referenced-default");
        sxn_reach("referenced");
        return;
    }
    static const char* B[] = {"", "true", "false", "1", "0", "TRUE", "False", "yes"};
    unsigned w = sx::choice("w", 2), b = sx::choice("b", 8), e = sx::choice("e", 4);
    static const char* E[] = {"", "big", "Little", "pdp"};
    bool ok = p.run(fields(tag("set", attr("name", "f") + attr("length", "2") + (b ? attr(w ? "validCheckVersion" : "availableLengthLimit", B[b]) : "") + (e ? attr("endian", E[e]) : ""), bit("A", "1"))));
    sxn_assert(ok == (b != 7 && e != 3), "flags-accepted-iff-valid");
    if (!ok) return;
    bool bv = b == 1 || b == 3 || b == 5;
    ParseSetField f(p.field("f"));
    sxn_assert(f.parseValidCheckVersion() == (w && bv) && f.parseAvailableLengthLimit() == (!w && bv), "flags");
    sxn_assert(f.parseEndian() == (e == 2 ? ParseEndian_Little : ParseEndian_Big), "endian");
}

// members of bitfields: only the declared bits can be named
static void member()
{
    static const char* T[] = {"", "uint8", "uint16", "uint32"};
    unsigned tc = sx::choice("type", 4), lc = sx::choice("len", 4), bc = sx::choice("bitLen", 2), reuse = sx::choice("reused", 2);
    auto bl = sx::u64("bits"), i = sx::u64("idx");
    unsigned tlen = tc == 0 ? 8 : tc == 3 ? 4 : tc, len = 0, bits = 0;
    bool expect = true;
    if (tc) len = tlen;
    if (lc) { if (lc > tlen) expect = false; len = lc; }
    if (!tc && !lc && !bc) expect = false;
    if (bc && expect) {
        if ((bl == 0) | (bl > (len ? len : 8) * 8)) expect = false;
        else { bits = (unsigned)sxn_concretize(bl); if (!len) len = (bits + 7) / 8; }
    }
    else bits = len * 8;
    std::string at = attr("name", "m");
    if (tc) at += attr("type", T[tc]);
    if (lc) at += attr("length", dec(lc));
    if (bc) at += attr("bitLength", sx::hex(bl));
    unsigned fill = 8 - bits % 8;
    if (expect && bits + fill > 64) expect = false;
    std::string a = bit("A", sx::hex(i)), m = tag("set", at, a), glob;
    P p;
    if (reuse) {
        // what a global set defines is taken by the member together with its bits
        if (!tc && !lc) return;
        glob = tag("set", attr("name", "g") + (tc ? attr("type", T[tc]) : "") + (lc ? attr("length", dec(lc)) : ""), bit("Z", "0"));
        m = tag("set", attr("name", "m") + attr("reuse", "g") + (bc ? attr("bitLength", sx::hex(bl)) : ""), a);
        if (i == 0) expect = false;
    }
    bool ok = p.run(fields(glob + tag("bitfield", attr("name", "f"), m + tag("int", attr("name", "r") + attr("type", "uint8") + attr("bitLength", dec(fill))))));
    if (expect) expect = i < bits;
    sxn_assert(ok == expect, "member-accepted-iff-bits-fit");
    if (!ok) { sxn_reach("member-rejected"); return; }
    ParseSetField f(ParseBitfieldField(p.field("f")).parseMembers().at(0));
    sxn_assert(f.parseBitLength() == bits && f.parseMinLength() == len, "member-bits");
    sxn_assert(f.parseBits().find("A")->second.m_idx == i && f.parseBits().size() == 1 + reuse, "member-bit");
    sxn_reach("member-accepted");
}

void sx_harness()
{
    switch (sx::choice("scenario", 5)) {
    case 4: member(); break;
    case 0: size(); break;
    case 1: values(); break;
    case 2: shared(); break;
    case 3: misc(); break;
    }
}
