// Bitfields: the member sizes add up to whole bytes (at most 8), every member value fits its bits.
#include "h.h"
void sx_prepare() { P p; p.run(schema("<fields><bitfield name=\"f\"><int name=\"m\" type=\"uint8\"/></bitfield></fields>")); }
static std::string fields(const std::string& s) { return schema("<fields>" + s + "</fields>", "", "6"); }
static std::string name(unsigned i) { return std::string("m") + char('0' + i); }
static const unsigned Tys[] = {1, 2, 5, 7};     // uint8, int16, uint32, uint64

struct M { std::string text; uint64_t bits; bool ok; };
static M member(unsigned i, bool three)
{
    std::string is = std::to_string(i), at = attr("name", name(i));
    unsigned kind = sx::choice(("kind" + is).c_str(), i ? (three ? 1 : 3) : 5);
    auto& t = IntTypes[Tys[sx::choice(("type" + is).c_str(), sxn_thorough() ? 4 : three ? 1 + (i == 0) : 2 + 2 * (i == 0))]];
    M m;
    std::string bl;
    unsigned given = kind == 3 ? 1 : sx::choice(("given" + is).c_str(), 2);
    m.bits = t.len * 8;
    m.ok = true;
    if (given) {
        m.bits = sx::range(("bits" + is).c_str(), 0, 80);
        bl = attr("bitLength", sx::hex(m.bits));
        m.ok = (unsigned)(m.bits > 0) & (unsigned)(m.bits <= (kind == 3 ? 64u : t.len * 8));
    }
    if (kind == 0) m.text = tag("int", at + attr("type", t.name) + bl);
    if (kind == 1) m.text = tag("enum", at + attr("type", t.name) + bl, tag("validValue", attr("name", "V") + attr("val", "0")));
    if (kind == 2) m.text = tag("set", at + attr("length", dec(t.len)) + bl, tag("bit", attr("name", "B") + attr("idx", "0")));
    if (kind == 3) m.text = tag("set", at + bl, tag("bit", attr("name", "B") + attr("idx", "0")));
    if (kind == 4) m.text = tag("ref", at + attr("field", std::string("g") + t.name) + bl);
    return m;
}
static std::string globals()
{
    std::string r;
    for (unsigned i : Tys) r += tag("int", attr("name", std::string("g") + IntTypes[i].name) + attr("type", IntTypes[i].name));
    return r;
}

static void sizes()
{
    unsigned n = 1 + sx::choice("members", 3);
    std::vector<M> ms;
    std::string kids;
    uint64_t sum = 0;
    bool ok = true;
    for (unsigned i = 0; i < n; ++i) {
        M m;
        if (i == 2) { m.bits = sx::range("bits2", 0, 80); m.ok = (unsigned)(m.bits > 0) & (unsigned)(m.bits <= 64); m.text = tag("int", attr("name", name(i)) + attr("type", "uint64") + attr("bitLength", sx::hex(m.bits))); }
        else m = member(i, n == 3 && !sxn_thorough());
        ms.push_back(m); kids += m.text; sum += m.bits; ok = (unsigned)ok & (unsigned)m.ok;
    }
    ok = (unsigned)ok & (unsigned)((sum & 7) == 0) & (unsigned)(sum <= 64);
    bool wrapped = n == 1;
    P p;
    bool r = p.run(fields(globals() + tag("bitfield", attr("name", "f"), wrapped ? "<members>" + kids + "</members>" : kids)));
    sxn_assert(r == ok, "accepted-iff-bits-make-whole-bytes");
    if (!r) { sxn_assert(p.errors > 0, "rejection-reported"); sxn_reach("rejected"); return; }
    sxn_reach("accepted");
    ParseBitfieldField f(p.field("f"));
    sxn_assert((f.parseMinLength() << 3) == sum && f.parseMaxLength() == f.parseMinLength(), "length-in-bytes");
    auto mem = f.parseMembers();
    sxn_assert(mem.size() == n, "member-count");
    for (unsigned i = 0; i < n; ++i) {
        sxn_assert(mem[i].parseName() == name(i), "member-order");
        sxn_assert(mem[i].parseBitLength() == ms[i].bits, "member-bits");
    }
}

// a value must fit the bits of its member
static void values()
{
    unsigned kind = sx::choice("kind", 3);
    static const unsigned T[] = {0, 1, 2, 3, 4, 5, 6, 7};
    auto& t = IntTypes[T[sx::choice("type", 8)]];
    auto k = sx::range("bits", 1, 64);
    sxn_assume((unsigned)(k <= t.len * 8));
    uint64_t rest = 64 - k;
    std::string pad = "", at = attr("name", "m");
    // the rest of the 64 bits
    sxn_assume(rest > 0);
    pad = tag("int", attr("name", "p") + attr("type", "uint64") + attr("bitLength", sx::hex(rest)));
    uint64_t v = sx::u64("value");
    bool ok;
    // number v fits k bits
    ok = (v >> 1 >> (k - 1)) == 0;
    if (t.sig) ok = (unsigned)le(t, ~0ull << (k - 1), v) & (unsigned)le(t, v, ~(~0ull << (k - 1)));
    std::string body;
    if (kind == 0) body = tag("int", at + attr("type", t.name) + attr("bitLength", sx::hex(k)) + attr("defaultValue", num(t, v)));
    if (kind == 1) body = tag("enum", at + attr("type", t.name) + attr("bitLength", sx::hex(k)), tag("validValue", attr("name", "V") + attr("val", num(t, v))) );
    if (kind == 2) {
        if (t.sig) return;
        body = tag("set", at + attr("type", t.name) + attr("bitLength", sx::hex(k)), tag("bit", attr("name", "B") + attr("idx", sx::hex(v))));
        ok = v < k;
    }
    P p;
    bool r = p.run(fields(tag("bitfield", attr("name", "f"), body + pad)));
    if (kind < 2) {
        // a number that fits the type but not the bits is only warned about
        sxn_assert(!r || (p.warnings == 0) == ok, "default-beyond-the-bits-warned");
        ok = inType(t, v);
    }
    sxn_assert(r == ok, "value-accepted-iff-fits-bits");
    if (!r) { sxn_reach("value-rejected"); return; }
    sxn_reach("value-accepted");
    auto ms = ParseBitfieldField(p.field("f")).parseMembers();
    if (kind == 0) sxn_assert((uint64_t)ParseIntField(ms[0]).parseDefaultValue() == v, "value-kept");
    if (kind == 1) sxn_assert((uint64_t)ParseEnumField(ms[0]).parseValues().find("V")->second.m_value == v, "value-kept");
    if (kind == 2) sxn_assert(ParseSetField(ms[0]).parseBits().find("B")->second.m_idx == v, "value-kept");
}

static void misc()
{
    unsigned k = sx::choice("k", 8);
    P p;
    std::string i8 = tag("int", attr("name", "a") + attr("type", "uint8"));
    if (k == 0) { sxn_assert(!p.run(fields(tag("bitfield", attr("name", "f")))), "no-members-refused"); return; }
    if (k == 1) {
        static const char* K[] = {"float", "string", "data", "list", "optional", "bundle", "variant", "bitfield"};
        std::string kid = K[sx::choice("kind", 8)];
        sxn_assert(!p.run(fields(tag("bitfield", attr("name", "f"), "<members>" + i8 + tag(kid, attr("name", "b") + attr("type", "float"), i8) + "</members>"))), "other-kinds-refused");
        return;
    }
    if (k == 2) {
        // references to other kinds of fields
        static const char* G[] = {"<float name=\"g\" type=\"float\"/>", "<string name=\"g\" length=\"2\"/>", "<data name=\"g\" length=\"1\"/>", "<bundle name=\"g\"><int name=\"x\" type=\"uint8\"/></bundle>",
            "<int name=\"g\" type=\"uintvar\" length=\"2\"/>", "<enum name=\"g\" type=\"intvar\" length=\"1\"><validValue name=\"A\" val=\"0\"/></enum>", "<int name=\"g\" type=\"uint16\"/>", "<bitfield name=\"g\"><int name=\"x\" type=\"uint8\"/></bitfield>"};
        unsigned g = sx::choice("g", 8), b = sx::choice("bits", 2);
        bool r = p.run(fields(G[g] + tag("bitfield", attr("name", "f"), i8 + tag("ref", attr("name", "b") + attr("field", "g") + (b ? attr("bitLength", "8") : "")))));
        sxn_assert(r == (g == 6), "reference-only-to-fixed-integral-fields");
        return;
    }
    if (k == 3) {
        auto sv = sx::range("since", 0, 8), dv = sx::range("deprecated", 1, 9);
        unsigned w = sx::choice("which", 2);
        bool r = p.run(schema(tag("message", attr("name", "M") + attr("id", "1"), tag("bitfield", attr("name", "f") + attr("sinceVersion", "3") + attr("deprecated", "6"), tag("int", attr("name", "a") + attr("type", "uint8") + (w ? attr("sinceVersion", sx::hex(sv)) : attr("deprecated", sx::hex(dv)))))), "", "8"));
        sxn_assert(r == (w ? sv == 3 : dv == 6), "member-versions-equal-the-bitfield");
        return;
    }
    if (k == 4) {
        std::string n = sx::chars("name", 1, 'a', 'd');
        bool r = p.run(fields(tag("bitfield", attr("name", "f"), i8 + tag("int", attr("name", n) + attr("type", "uint8")))));
        sxn_assert(r == (n[0] != 'a'), "member-names-unique");
        return;
    }
    if (k == 5) {
        unsigned e = sx::choice("e", 4), se = sx::choice("se", 2);
        static const char* E[] = {"", "big", "Little", "pdp"};
        std::string doc = schema("<fields>" + tag("bitfield", attr("name", "f") + (e ? attr("endian", E[e]) : ""), i8) + "</fields>");
        if (se) doc.replace(doc.find("\"big\""), 5, "\"little\"");
        bool r = p.run(doc);
        sxn_assert(r == (e != 3), "endian-accepted-iff-known");
        if (r) sxn_assert(ParseBitfieldField(p.field("f")).parseEndian() == (e == 1 ? ParseEndian_Big : e == 2 ? ParseEndian_Little : se ? ParseEndian_Little : ParseEndian_Big), "endian");
        return;
    }
    // replacement of reused members
    auto b1 = sx::range("b1", 1, 16), b2 = sx::range("b2", 1, 24);
    sxn_assume((unsigned)(((b1 + 3) & 7) == 0));
    std::string base = tag("bitfield", attr("name", "o"), tag("int", attr("name", "a") + attr("type", "uint16") + attr("bitLength", sx::hex(b1))) + tag("int", attr("name", "b") + attr("type", "uint8") + attr("bitLength", "3")));
    unsigned nm = sx::choice("replaced", 3);
    static const char* N[] = {"a", "b", "c"};
    bool r = p.run(fields(base + tag("bitfield", attr("name", "f") + attr("reuse", "o"), k == 6 ? "" : tag("replace", "", tag("int", attr("name", N[nm]) + attr("type", "uint32") + attr("bitLength", sx::hex(b2)))))));
    uint64_t sum = k == 6 ? b1 + 3 : nm == 0 ? b2 + 3 : b1 + b2;
    sxn_assert(r == (k == 6 || ((unsigned)(nm != 2) & (unsigned)((sum & 7) == 0))), "replacement-accepted-iff-whole-bytes");
    if (!r) return;
    ParseBitfieldField f(p.field("f"));
    sxn_assert((f.parseMinLength() << 3) == sum, "reused-length");
    auto ms = f.parseMembers();
    sxn_assert(ms.size() == 2 && ms[0].parseName() == "a" && ms[1].parseName() == "b", "reused-members");
    sxn_assert(ms[0].parseBitLength() == (k == 7 && nm == 0 ? b2 : b1) && ms[1].parseBitLength() == (k == 7 && nm == 1 ? b2 : 3), "reused-bits");
    sxn_reach("replaced");
}

void sx_harness()
{
    switch (sx::choice("scenario", 3)) {
    case 0: sizes(); break;
    case 1: values(); break;
    case 2: misc(); break;
    }
}
