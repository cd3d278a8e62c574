// P17: the generated COMMS definitions of sets, sequences, bitfields and messages have the numbers and texts of the schema.
#include "gen.h"
#include "CommsGenerator.h"
#include "CommsProgramOptions.h"
using CG = Gen<commsdsl2comms::CommsGenerator, commsdsl2comms::CommsProgramOptions>;
void sx_prepare() {}

static uint64_t param(const Text& x, bool uns, bool& good)
{
    V v = number(x, good);
    if (!good) return 0;
    if (uns) sxn_assert(x.s.find('-') == std::string::npos, "unsigned-param-negative");
    else sxn_assert((unsigned)!v.uns | (unsigned)((int64_t)v.v >= 0), "param-out-of-range");
    return v.v;
}

static void setField()
{
    // lengths in bytes, or bits of a member of a bitfield
    static const unsigned Bits[] = {8, 32, 64, 16, 24, 56};
    unsigned bits = Bits[sx::choice("bits", sxn_thorough() ? 6 : 3)];
    unsigned setDef = sx::choice("set-default", 2), setRes = sx::choice("set-reserved", 2);
    unsigned bitDef = sx::choice("bit-default", 3), bitRes = sx::choice("bit-reserved", 4), alias = bits == 8 && sx::choice("alias", 2);
    if (!sxn_thorough() && bits != 8) { if (setDef != (bitDef == 2) || setRes != (bitRes >= 2)) return; }
    unsigned fixed = bits - 3;                     // one more bit with its own flags
    uint64_t idx = sxn_var("idx", 8, 0, bits - 1);
    sxn_assume(idx != fixed);
    std::string b = attr("name", "a") + attr("idx", sx::dec(idx));
    if (bitDef) b += attr("defaultValue", bitDef == 1 ? "true" : "false");
    if (bitRes) b += attr("reserved", bitRes == 3 ? "false" : "true");
    if (bitRes == 2) b += attr("reservedValue", setRes ? "false" : "true");
    std::string kids = tag("bit", b) + tag("bit", attr("name", "z") + attr("idx", dec(fixed)) + attr("defaultValue", setDef ? "false" : "true"));
    if (alias) kids += tag("bit", b.substr(0, 6) + "\"b\"" + b.substr(b.find(' ', 2)));
    std::string attrs = attr("name", "f") + attr("length", dec(bits / 8));
    if (setDef) attrs += attr("defaultValue", "true");
    if (setRes) attrs += attr("reservedValue", "true");
    if (alias) attrs += attr("nonUniqueAllowed", "true");
    CG g;
    g.xml("s.xml", schema("<fields>" + tag("set", attrs, kids) + "</fields><message name=\"M\" id=\"1\"><ref name=\"x\" field=\"f\"/></message>", "")).run("commsdsl2comms");
    sxn_assert(g.rc == 0, "set-refused");
    if (g.rc != 0) return;
    Text file = g.file("include/s/field/F.h"), common = bodyOf(g.file("include/s/field/FCommon.h"), "struct FCommon");
    Call base = baseOf(file, "F");
    sxn_assert(base.name == "comms::field::BitmaskValue" && base.args.size() >= 2, "set-definition-missing");
    // what the schema says
    uint64_t all = maxOf(false, bits), ib = uint64_t(1) << idx, zb = uint64_t(1) << fixed;
    uint64_t def = setDef ? all : 0, mask = all, val = setRes ? all : 0;
    bool bd = bitDef ? bitDef == 1 : setDef;
    def = bd ? def | ib : def & ~ib;
    def = setDef ? def & ~zb : def | zb;
    mask &= ~zb; val &= ~zb;
    bool reserved = bitRes == 1 || bitRes == 2;
    bool rv = bitRes == 2 ? !setRes : setRes;
    if (!reserved) { mask &= ~ib; val &= ~ib; } else val = rv ? val | ib : val & ~ib;
    uint64_t odef = 0, omask = 0, oval = 0; bool good = true, len = false;
    for (auto& o : options(base, 2)) {
        if (o.name == DEF_OPT "FixedLength") { len = true; sxn_assert(param(o.args.at(0), false, good) == bits / 8, "set-length"); }
        else if (o.name == DEF_OPT "DefaultNumValue") odef = param(o.args.at(0), false, good);
        else if (o.name == DEF_OPT "DefaultBigUnsignedNumValue") odef = param(o.args.at(0), true, good);
        else if (o.name == DEF_OPT "BitmaskReservedBits") { omask = param(o.args.at(0), true, good); oval = param(o.args.at(1), true, good); }
        else if (o.name == DEF_OPT "HasName") {}
        else sxn_assert(false, "unexpected-option");
    }
    sxn_assert(good, "unreadable-number");
    sxn_assert(len, "set-length");
    sxn_assert(odef == def, "set-default-value");
    sxn_assert(omask == mask, "set-reserved-mask");
    sxn_assert(oval == val, "set-reserved-value");
    // bits
    std::map<std::string, uint64_t> where;
    auto list = [&](const char* macro) {
        size_t p = file.find(macro); 
        if (p == std::string::npos) return std::vector<Text>();
        size_t o = file.find("(", p), e = matching(file.s, o);
        return split(file.sub(o + 1, e).bare(), ',');
    };
    auto seq = list("    COMMS_BITMASK_BITS_SEQ("), bl = list("    COMMS_BITMASK_BITS("), acc = list("    COMMS_BITMASK_BITS_ACCESS(");
    sxn_assert(seq.empty() != bl.empty() && bl.empty() == acc.empty(), "set-bits-missing");
    unsigned n = 2 + alias;
    for (size_t i = 0; i < seq.size(); ++i) where[seq[i].s] = i;
    for (auto& x : bl) {
        size_t e = x.find("="); sxn_assert(e != std::string::npos, "set-bits-syntax"); if (e == std::string::npos) return;
        where[x.sub(0, e).trim().s] = param(x.sub(e + 1, x.size()), true, good);
    }
    std::map<std::string, int> access; for (auto& x : acc) access[x.s]++;
    sxn_assert(where.size() == n && (bl.empty() ? seq.size() == n : bl.size() == n && acc.size() == n && access.size() == n), "set-bits");
    sxn_assert(where.count("a") && where.count("z") && (!alias || where.count("b")) && (bl.empty() || (access.count("a") && access.count("z"))), "set-bits");
    if (!where.count("a") || !where.count("z") || (alias && !where.count("b"))) return;
    sxn_assert((unsigned)(where["a"] == idx) & (unsigned)(where["z"] == fixed) & (unsigned)(!alias || where["b"] == idx), "set-bit-index");
    // names
    Text nm = bodyOf(bodyOf(common, "static const char* bitName(std::size_t idx)"), "Map[] =");
    auto names = split(nm.bare(), ',');
    unsigned ok = 1, named = 0;
    for (size_t i = 0; i < names.size(); ++i) {
        if (names[i].is("nullptr")) continue;
        ++named;
        if (names[i].is("\"z\"")) ok &= (unsigned)(i == fixed);
        else { sxn_assert(names[i].is("\"a\"") || (alias && names[i].is("\"b\"")), "set-bit-names"); ok &= (unsigned)(i == idx); }
    }
    sxn_assert(ok & (unsigned)(named == 2), "set-bit-names");
    sxn_reach("set");
}

static void sizes()
{
    unsigned kind = sx::choice("kind", 5);
    uint64_t n = sxn_var("size", 32, 1, kind < 2 || kind > 3 ? 0xffffffffu : 0x1fffffffu), minL = 4 + n, maxL = minL;
    std::string f, attrs = attr("name", "f") + attr(kind < 2 ? "length" : "count", sx::dec(n));
    bool fix = true;
    switch (kind) {
    case 0: f = tag("data", attrs); break;
    case 1: f = tag("string", attrs); break;
    case 2: f = tag("list", attrs, "<element><int name=\"E\" type=\"uint16\"/></element>"); minL = 4 + 2 * n; maxL = minL; break;
    case 3: f = tag("list", attrs, "<element><string name=\"E\"><lengthPrefix><int name=\"L\" type=\"uint16\"/></lengthPrefix></string></element>"); minL = 4 + 2 * n; maxL = 0; break;
    case 4: f = tag("bitfield", attr("name", "f"), "<set name=\"a\" bitLength=\"3\"/><int name=\"b\" type=\"uint16\" bitLength=\"10\"/><int name=\"c\" type=\"uint8\" bitLength=\"3\" defaultValue=\"2\"/>"); fix = false; minL = maxL = 6; n = 0; break;
    }
    CG g;
    g.xml("s.xml", schema("<fields>" + f + "</fields><message name=\"M\" id=\"1\"><ref name=\"x\" field=\"f\"/><int name=\"y\" type=\"int32\"/></message>", "")).run("commsdsl2comms");
    sxn_assert(g.rc == 0, "size-refused");
    if (g.rc != 0) return;
    Call base = baseOf(g.file("include/s/field/F.h"), "F");
    static const char* Cls[] = {"ArrayList", "String", "ArrayList", "ArrayList", "Bitfield"};
    sxn_assert(base.name == std::string("comms::field::") + Cls[kind], "size-definition-missing");
    bool good = true; unsigned seen = 0;
    for (auto& o : base.args) {
        Call c = call(o);
        if (c.name == DEF_OPT "SequenceFixedSize") { ++seen; sxn_assert(param(c.args.at(0), true, good) == n, "fixed-size"); }
    }
    sxn_assert(seen == (unsigned)fix, "fixed-size-missing");
    if (kind == 4) {
        Text m = bodyOf(g.file("include/s/field/F.h"), "struct FMembers");
        static const unsigned L[] = {3, 10, 3}; static const char* N[] = {"A", "B", "C"};
        for (unsigned i = 0; i < 3; ++i) {
            Call b = baseOf(m, N[i]); unsigned found = 0;
            for (auto& o : b.args) { Call c = call(o); if (c.name == DEF_OPT "FixedBitLength") { ++found; sxn_assert(param(c.args.at(0), true, good) == L[i], "bit-length"); } }
            sxn_assert(found == 1, "bit-length-missing");
        }
    }
    Text msg = g.file("include/s/message/M.h");
    auto check = [&](const char* w) -> Text {
        size_t p = msg.find(std::string("static_assert(") + w + " == "); if (p == std::string::npos) return Text();
        size_t b = p + 18 + strlen(w); return msg.sub(b, msg.find(",", b));
    };
    Text mn = check("MsgMinLen"), mx = check("MsgMaxLen");
    sxn_assert(!mn.empty() && param(mn, true, good) == minL, "message-min-length");
    sxn_assert(mx.empty() == (maxL == 0 || kind == 3), "message-max-length-presence");
    if (!mx.empty()) sxn_assert(param(mx, true, good) == maxL, "message-max-length");
    sxn_assert(good, "unreadable-number");
    sxn_reach("size");
}

static void ids()
{
    unsigned where = sx::choice("where", 4);      // global, one namespace, two sibling namespaces, enum of ids
    uint64_t id = sx::u64("id"), other = 300;
    sxn_assume(id != other);
    std::string m1 = "<message name=\"M\" id=\"" + sx::hex(id) + "\"/>", m2 = "<message name=\"Q\" id=\"300\"/>", body;
    if (where == 0) body = m1 + m2;
    else if (where == 1) body = "<ns name=\"n\">" + m1 + m2 + "</ns>";
    else if (where == 2) body = "<ns name=\"n\">" + m1 + "</ns><ns name=\"o\">" + m2 + "</ns>";
    else {
        std::string e = "<enum name=\"Ids\" type=\"uint64\" semanticType=\"messageId\"><validValue name=\"M\" val=\"" + sx::hex(id) + "\"/><validValue name=\"Q\" val=\"300\"/></enum>";
        unsigned ns = sx::choice("ns", 2);
        body = "<fields>" + e + "</fields><message name=\"M\" id=\"" + (ns ? "n." : "") + "Ids.M\"/><message name=\"Q\" id=\"" + (ns ? "n." : "") + "Ids.Q\"/>";
        if (ns) body = "<ns name=\"n\">" + body + "</ns>";
        where += ns;
    }
    CG g;
    g.xml("s.xml", schema(body)).run("commsdsl2comms");
    sxn_assert(g.rc == 0, "id-refused");
    if (g.rc != 0) return;
    bool good = true;
    static const char* Dm[] = {"include/s/message/M.h", "include/s/n/message/M.h", "include/s/n/message/M.h", "include/s/message/M.h", "include/s/n/message/M.h"};
    static const char* Dq[] = {"include/s/message/Q.h", "include/s/n/message/Q.h", "include/s/o/message/Q.h", "include/s/message/Q.h", "include/s/n/message/Q.h"};
    auto staticId = [&](const char* p, const char* cls, uint64_t v) {
        Call b = baseOf(g.file(p), cls); unsigned found = 0;
        for (auto& o : b.args) { Call c = call(o); if (c.name == DEF_OPT "StaticNumIdImpl") { ++found; sxn_assert(param(c.args.at(0), false, good) == v, "message-id"); } }
        sxn_assert(b.name == "comms::MessageBase" && found == 1, "message-id-missing");
    };
    staticId(Dm[where], "M", id); staticId(Dq[where], "Q", other);
    unsigned files = 0;
    for (auto& n : g.names) {
        if (n.size() < 8 || n.compare(n.size() - 8, 8, "/MsgId.h") != 0) continue;
        ++files;
        Text t = g.file(n);
        size_t p = t.find("enum MsgId : "); sxn_assert(p != std::string::npos, "ids-enum"); if (p == std::string::npos) return;
        size_t b = t.find("{", p);
        std::string ty = t.sub(p + 13, b).trim().s;
        bool wide = ty == "unsigned long long" || ty == "std::uint64_t";
        sxn_assert(wide || ty == "unsigned", "ids-enum-type");
        std::map<std::string, uint64_t> vals; unsigned fits = 1, dup = 0;
        for (auto& x : split(t.sub(b + 1, matching(t.s, b)).bare(), ',')) {
            if (x.empty()) continue;
            size_t e = x.find("="); sxn_assert(e != std::string::npos, "ids-enum"); if (e == std::string::npos) return;
            std::string nm = x.sub(0, e).trim().s; uint64_t v = param(x.sub(e + 1, x.size()), true, good);
            dup |= vals.count(nm); vals[nm] = v; fits &= (unsigned)wide | (unsigned)(v <= 0xffffffffu);
        }
        sxn_assert(fits, "ids-enum-type-too-small");
        sxn_assert(!dup, "ids-enum-duplicate");
        const char* a = where == 1 || where == 4 ? "MsgId_M" : where == 2 ? "MsgId_n_M" : "MsgId_M"; const char* c = where == 2 ? "MsgId_o_Q" : "MsgId_Q";
        std::string sa = a, sc = c;
        if (!vals.count(sa)) sa = "MsgId_n_M";
        if (!vals.count(sc)) sc = "MsgId_n_Q";
        sxn_assert(vals.count(sa) && vals.count(sc), "ids-enum-missing");
        if (!vals.count(sa) || !vals.count(sc)) return;
        sxn_assert((unsigned)(vals[sa] == id) & (unsigned)(vals[sc] == other), "ids-enum-value");
    }
    sxn_assert(files >= 1, "ids-enum");
    sxn_assert(good, "unreadable-number");
    sxn_reach("id");
}
void sx_harness()
{
    unsigned what = sx::choice("what", 3);
    if (what == 0) setField();
    else if (what == 1) sizes();
    else ids();
}
