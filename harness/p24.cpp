// P24: conditions in the generated COMMS code hold exactly when those of the schema do.
#include "gen.h"
#include "CommsGenerator.h"
#include "CommsProgramOptions.h"
using CG = Gen<commsdsl2comms::CommsGenerator, commsdsl2comms::CommsProgramOptions>;
void sx_prepare() {}

// one operand: how the schema refers to it, what the generated code has to say
struct Op
{
    const char* ref;                  // text without the leading character
    bool iface;
    char kind;                        // i int, e enum, b bit, z size, x exists, s string
    const char* access;               // value
    const char* type;                 // of the value, for conversions
    std::vector<const char*> exist;   // conditions of its existence
    const IntT* t;
    uint64_t v = 0;                   // symbolic value
    unsigned there = 1;
};
static const IntT T16u = {"uint16", 2, false, false}, T8u = {"uint8", 1, false, false}, T32s = {"int32", 4, true, false}, T3u = {"uint8", 1, false, false};
static const IntT T64u = {"uint64", 8, false, false}, T64s = {"int64", 8, true, false}, T8s = {"int8", 1, true, false}, TSz = {"size", 8, false, false};

static std::vector<Op> operands()
{
    return {
        {"a", false, 'i', "field_a().getValue()", "typename Field_a::ValueType", {}, &T16u},                                                    // 0
        {"r", false, 'i', "field_r().getValue()", "typename Field_r::ValueType", {}, &T64u},
        {"c", false, 'i', "field_c().getValue()", "typename Field_c::ValueType", {}, &T64s},
        {"bu.m", false, 'i', "field_bu().field_m().getValue()", "typename Field_bu::Field_m::ValueType", {}, &T32s},
        {"bu.in.v", false, 'i', "field_bu().field_in().field().getValue()", "typename Field_bu::Field_in::Field::ValueType", {"field_bu().field_in().doesExist()"}, &T8s},
        {"op.ov", false, 'i', "field_op().field().getValue()", "typename Field_op::Field::ValueType", {"field_op().doesExist()"}, &T16u},          // 5
        {"ro.ov", false, 'i', "field_ro().field().getValue()", "typename Field_ro::Field::ValueType", {"field_ro().doesExist()"}, &T16u},
        {"bf.p1", false, 'i', "field_bf().field_p1().getValue()", "typename Field_bf::Field_p1::ValueType", {}, &T8u},
        {"en", false, 'e', "field_en().getValue()", "typename Field_en::ValueType", {}, &T16u},
        {"ver", false, 'i', "field_ver().field().getValue()", "typename Field_ver::Field::ValueType", {"field_ver().doesExist()"}, &T16u},          // 9
        {"bv.w", false, 'i', "field_bv().field_w().field().getValue()", "typename Field_bv::Field_w::Field::ValueType", {"field_bv().field_w().doesExist()"}, &T16u},
        {"q", true, 'i', "Base::transportField_q().getValue()", "typename Base::TransportField_q::ValueType", {}, &T16u},                          // 11
        {"ib.k", true, 'i', "Base::transportField_ib().field_k().getValue()", "typename Base::TransportField_ib::Field_k::ValueType", {}, &T8u},
        {"st.y", false, 'b', "field_st().getBitValue_y()", "", {}, nullptr},                                                                     // 13
        {"rs.b0", false, 'b', "field_rs().getBitValue_b0()", "", {}, nullptr},
        {"bf.p2.z", false, 'b', "field_bf().field_p2().getBitValue_z()", "", {}, nullptr},
        {"os.x.b0", false, 'b', "field_os().field().getBitValue_b0()", "", {"field_os().doesExist()"}, nullptr},
        {"flags.b0", true, 'b', "Base::transportField_flags().getBitValue_b0()", "", {}, nullptr},                                              // 17
        {"ib.f.b0", true, 'b', "Base::transportField_ib().field_f().getBitValue_b0()", "", {}, nullptr},
        {"#str", false, 'z', "field_str().getValue().size()", "std::size_t", {}, &TSz},                                                         // 19
        {"#da", false, 'z', "field_da().getValue().size()", "std::size_t", {}, &TSz},
        {"#li", false, 'z', "field_li().getValue().size()", "std::size_t", {}, &TSz},
        {"#bu.bs", false, 'z', "field_bu().field_bs().getValue().size()", "std::size_t", {}, &TSz},
        {"#istr", true, 'z', "Base::transportField_istr().getValue().size()", "std::size_t", {}, &TSz},                                         // 23
        {"?op", false, 'x', "", "", {"field_op().doesExist()"}, nullptr},                                                                       // 24
        {"?ver", false, 'x', "", "", {"field_ver().doesExist()"}, nullptr},
        {"?bu.in", false, 'x', "", "", {"field_bu().field_in().doesExist()"}, nullptr},
        {"?bv.w", false, 'x', "", "", {"field_bv().field_w().doesExist()"}, nullptr},
        {"str", false, 's', "field_str().getValue()", "", {}, nullptr},                                                                         // 28
        {"bu.bs", false, 's', "field_bu().field_bs().getValue()", "", {}, nullptr},
        {"istr", true, 's', "Base::transportField_istr().getValue()", "", {}, nullptr},
    };
}
static const unsigned NOps = 31;
static const char* Cmp[] = {"=", "!=", "&lt;", "&lt;=", ">", ">="};
static unsigned compare(unsigned op, const IntT& t, uint64_t a, uint64_t b)
{
    switch (op) {
    case 0: return (unsigned)(a == b);
    case 1: return (unsigned)(a != b);
    case 2: return (unsigned)lt(t, a, b);
    case 3: return (unsigned)le(t, a, b);
    case 4: return (unsigned)lt(t, b, a);
    default: return (unsigned)le(t, b, a);
    }
}
static uint64_t valueOf(const char* n, const IntT& t)
{
    if (t.len >= 8) return sx::u64(n);
    uint64_t v = sxn_var(n, t.len * 8, 0, maxOf(false, t.len * 8));
    if (t.sig) v = (uint64_t)((int64_t)(v << (64 - t.len * 8)) >> (64 - t.len * 8));
    return v;
}

// a condition: its text in the schema and the value it has to have
struct Cond { std::string text; unsigned value = 1; };
struct World
{
    std::vector<Op> ops = operands();
    bool dependent = true;
    std::map<std::string, V> leaf;                    // what the generated code may name
    std::map<std::string, const IntT*> types;
    std::map<std::string, std::string> texts;         // literals compared to strings
    std::string names[4]; unsigned used = 0;
    unsigned str = 0;                                 // does the string have the text
    void use(unsigned i)
    {
        Op& o = ops[i];
        if (leaf.count(std::string("#") + o.ref)) return;
        leaf[std::string("#") + o.ref] = V();
        static const char* N[] = {"v0", "v1", "v2", "v3"}; static const char* E[] = {"e0", "e1", "e2", "e3"};
        unsigned n = used++;
        bool versioned = i == 9 || i == 10 || i == 25 || i == 27;
        V x;
        if (versioned && !dependent) {
            // a field which always exists, without the wrapper
            static const char* A[] = {"field_ver().getValue()", "field_bv().field_w().getValue()"};
            static const char* C[] = {"typename Field_ver::ValueType", "typename Field_bv::Field_w::ValueType"};
            unsigned k = i == 9 || i == 25 ? 0 : 1;
            if (o.kind == 'i') { o.access = A[k]; o.type = C[k]; }
            o.exist.clear();
        }
        for (auto* e : o.exist) {
            if (!leaf.count(e)) { V y; y.v = (uint64_t)(sxn_var(E[n], 8, 0, 1) & 1); leaf[e] = y; }
            o.there &= (unsigned)(leaf[e].v != 0);
        }
        if (o.t) { if (o.t == &T8u && i == 7) x.v = sxn_var(N[n], 8, 0, 7); else x.v = o.kind == 'z' ? sxn_var(N[n], 32, 0, 0xffffffffu) : valueOf(N[n], *o.t); x.uns = !o.t->sig; types[o.type] = o.t; }
        else x.v = o.kind == 'x' ? 0 : (uint64_t)(sxn_var(N[n], 8, 0, 1) & 1);
        o.v = x.v;
        if (*o.access) leaf[o.access] = x;
        if (o.kind == 'z') { std::string a = o.access; a.replace(a.size() - 7, 7, ".empty()"); V y; y.v = (uint64_t)(x.v == 0); leaf[a] = y; }
        if (o.kind == 's') {
            // compared to one text only: as the comparison with an unknown text
            V y; y.v = x.v; leaf[o.access] = y; texts[o.access] = "";
        }
    }
};
static std::string refText(const Op& o) { return std::string(1, o.iface ? '%' : '$') + o.ref; }

// a comparison or check of operand i
static Cond simple(World& w, unsigned i, unsigned op, unsigned rhs, const char* lit)
{
    w.use(i);
    Op& o = w.ops[i];
    Cond c;
    if (o.kind == 'b' || o.kind == 'x') {
        bool neg = op & 1;
        c.text = std::string(neg ? "!" : "") + refText(o);
        if (o.kind == 'b') c.value = o.there & (unsigned)((o.v != 0) ^ neg);
        else c.value = neg ? o.there ^ 1u : o.there;
        return c;
    }
    if (o.kind == 's') {
        // the literal has to be the text: the variable tells whether the string has it
        c.text = refText(o) + " " + Cmp[op & 1] + " " + std::string(rhs ? "12ab" : "hello w");
        w.texts[o.access] = rhs ? "12ab" : "hello w";
        c.value = o.there & (unsigned)((o.v != 0) ^ (op & 1));
        return c;
    }
    c.text = refText(o) + " " + Cmp[op] + " ";
    uint64_t r = 0;
    if (rhs == 0) {
        r = i == 7 ? sxn_var(lit, 8, 0, 7) : o.kind == 'z' ? sxn_var(lit, 32, 0, 0xffffffffu) : valueOf(lit, *o.t);
        c.text += o.kind == 'z' ? sx::hex(r) : num(*o.t, r);
    } else if (rhs == 1) {
        // by name: special of an int, value of an enum
        if (o.kind == 'e') { r = 700; c.text += "e1"; }
        else { c.text += "0"; r = 0; }
    } else {
        // another member of the same type
        unsigned j = i == 0 ? 5 : i == 5 ? 0 : i == 11 ? 0 : 11;
        w.use(j);
        Op& p = w.ops[j];
        c.text += refText(p);
        c.value = o.there & p.there & compare(op, *o.t, o.v, p.v);
        return c;
    }
    c.value = o.there & compare(op, *o.t, o.v, r);
    return c;
}

enum Host { OptInMessage, OptInBundle, ValidMessage, ValidBundle, ValidBits, Read, Construct, NHosts };
static std::string element(const char* el, const std::string& text) { return text[0] == '<' ? "<" + std::string(el) + ">" + text + "</" + el + ">" : std::string(); }

void sx_harness()
{
    World w;
    unsigned host = sx::choice("host", NHosts), form = sx::choice("form", 4);                 // one, and, or, and of or
    w.dependent = sx::choice("dependent", 2) == 0;
    unsigned i = sx::choice("operand", NOps), op = 0, rhs = 0, j = 0;
    const Op& first = w.ops[i];
    bool num1 = first.kind == 'i' || first.kind == 'e' || first.kind == 'z';
    // interface fields only in messages, only they where nothing is read yet
    bool own = host == OptInBundle || host == ValidBundle || host == ValidBits;
    if (first.iface ? own : host >= Read) return;
    if (host == Construct && ((first.kind != 'i' && first.kind != 'b') || form > 1)) return;
    if (host == ValidBits && i != 0 && i != 8 && i != 13) return;
    op = sx::choice("op", num1 ? 6 : 2);
    if (host == Construct && num1 && op) return;
    if (num1 || first.kind == 's') rhs = sx::choice("right", num1 && first.kind == 'i' && (i == 0 || i == 5 || i == 11) && host != Construct && !(i == 11 && host == Read) && !(own && i == 5) && host != ValidBits ? 3 : 2);
    if (!w.dependent && i != 9 && i != 10 && i != 25 && i != 27 && !(i == 0 && host == OptInMessage)) return;
    if (form) { j = sx::choice("second", 3); if (first.iface && host >= Read) j += 0; }
    if (!sxn_thorough()) {
        if (form && (op > 1 || rhs != 0)) return;
        if (num1 && i != 0 && op != i % 6 && op != (i + 3) % 6) return;
        if (rhs && i != 0 && op != i % 6) return;
        if (host != OptInMessage && num1 && op != (i + host) % 6 && host != Construct) return;
        if (form >= 2 && j != i % 3) return;
    }
    Cond c = simple(w, i, op, rhs, "right1");
    std::string text = c.text; unsigned want = c.value;
    if (form) {
        // second (and third) condition
        unsigned k = host >= Read ? (i == 17 ? 12 : 17) : own ? (i == 13 ? 3 : 13) : (unsigned[]){13, 25, 5}[j];
        if (host == ValidBits) k = i == 13 ? 8 : 13;
        if (k == i) k = 14;
        if (!w.dependent && k == 5) k = 25;
        Cond d = simple(w, k, host == Construct && k == 12 ? 0 : j & 1, 0, "right2");
        static const char* Names[] = {"cond", "cond", "validCond", "validCond", "validCond", "readCond", "construct"};
        auto el = [&](const std::string& x) { return std::string("<") + Names[host] + " value=\"" + x + "\"/>"; };
        bool swap = j == 2;
        std::string two = swap ? el(d.text) + el(c.text) : el(c.text) + el(d.text);
        if (form == 1) { text = "<and>" + two + "</and>"; want = c.value & d.value; }
        else if (form == 2) { text = "<or>" + two + "</or>"; want = c.value | d.value; }
        else {
            unsigned k3 = host >= Read ? 18 : own ? 15 : 24;
            if (host == ValidBits) k3 = i && k ? 0 : 8;
            if (k3 == i) k3 = host >= Read ? 11 : own ? 13 : 26;
            Cond e = simple(w, k3, j & 1, 0, "right3");
            text = "<and><or>" + two + "</or>" + el(e.text) + "</and>";
            want = (c.value | d.value) & e.value;
        }
    }
    bool list = text[0] == '<';
    auto at = [&](const char* n) { return list ? std::string() : attr(n, text); };
    static const std::string Glob =
        "<fields><set name=\"Fl\" length=\"1\"><bit name=\"b0\" idx=\"0\"/></set><int name=\"N\" type=\"uint64\"/><int name=\"v\" type=\"uint8\" semanticType=\"version\"/>"
        "<optional name=\"OG\" defaultMode=\"missing\"><int name=\"ov\" type=\"uint16\"/></optional></fields>";
    std::string pre = "<lengthPrefix><int name=\"len\" type=\"uint32\"/></lengthPrefix>";
    std::string face = std::string("<interface name=\"I\">") + (w.dependent ? "<ref field=\"v\" name=\"vv\"/>" : "") + "<ref field=\"Fl\" name=\"flags\"/><int name=\"q\" type=\"uint16\"/>"
        "<bundle name=\"ib\"><int name=\"k\" type=\"uint8\"/><ref field=\"Fl\" name=\"f\"/></bundle><string name=\"istr\">" + pre + "</string></interface>";
    std::string mem = "<int name=\"a\" type=\"uint16\"/><ref name=\"r\" field=\"N\"/><int name=\"c\" type=\"int64\"/>"
        "<bundle name=\"bu\"><int name=\"m\" type=\"int32\"/><optional name=\"in\" defaultMode=\"missing\"><int name=\"v\" type=\"int8\"/></optional><string name=\"bs\">" + pre + "</string></bundle>"
        "<optional name=\"op\" defaultMode=\"exists\"><int name=\"ov\" type=\"uint16\"/></optional><ref name=\"ro\" field=\"OG\"/>"
        "<bitfield name=\"bf\"><int name=\"p1\" type=\"uint8\" bitLength=\"3\"/><set name=\"p2\" bitLength=\"5\"><bit name=\"z\" idx=\"1\"/></set></bitfield>"
        "<enum name=\"en\" type=\"uint16\"><validValue name=\"e0\" val=\"0\"/><validValue name=\"e1\" val=\"700\"/></enum>"
        "<int name=\"ver\" type=\"uint16\" sinceVersion=\"3\"/><bundle name=\"bv\"><int name=\"n\" type=\"uint8\"/><int name=\"w\" type=\"uint16\" sinceVersion=\"4\"/></bundle>"
        "<set name=\"st\" length=\"1\"><bit name=\"x\" idx=\"0\"/><bit name=\"y\" idx=\"3\"/></set><ref name=\"rs\" field=\"Fl\"/>"
        "<optional name=\"os\" defaultMode=\"missing\"><ref name=\"x\" field=\"Fl\"/></optional>"
        "<string name=\"str\">" + pre + "</string><data name=\"da\">" + pre + "</data><list name=\"li\"><countPrefix><int name=\"n\" type=\"uint32\"/></countPrefix><element><int name=\"e\" type=\"uint8\"/></element></list>";
    std::string opt = tag("optional", attr("name", "oo") + attr("defaultMode", "missing") + at("cond"), list ? "<field><int name=\"i\" type=\"uint8\"/></field>" + text : "<int name=\"i\" type=\"uint8\"/>");
    std::string msg;
    switch (host) {
    case OptInMessage: msg = tag("message", attr("name", "M") + attr("id", "1"), mem + opt); break;
    case OptInBundle: msg = tag("message", attr("name", "M") + attr("id", "1"), tag("bundle", attr("name", "hb"), mem + opt)); break;
    case ValidMessage: msg = tag("message", attr("name", "M") + attr("id", "1") + at("validCond"), "<fields>" + mem + "</fields>" + element("validCond", text)); break;
    case ValidBundle: msg = tag("message", attr("name", "M") + attr("id", "1"), tag("bundle", attr("name", "hb") + at("validCond"), "<members>" + mem + "</members>" + element("validCond", text))); break;
    case ValidBits: msg = tag("message", attr("name", "M") + attr("id", "1"), tag("bitfield", attr("name", "hb") + at("validCond"), "<members><int name=\"a\" type=\"uint16\"/>"
        "<set name=\"st\" bitLength=\"8\"><bit name=\"x\" idx=\"0\"/><bit name=\"y\" idx=\"3\"/></set><enum name=\"en\" type=\"uint16\"><validValue name=\"e0\" val=\"0\"/><validValue name=\"e1\" val=\"700\"/></enum></members>" + element("validCond", text))); break;
    case Read: msg = tag("message", attr("name", "M") + attr("id", "1") + at("readCond"), "<fields><int name=\"a\" type=\"uint8\"/></fields>" + element("readCond", text)); break;
    default: msg = tag("message", attr("name", "M") + attr("id", "1") + at("construct"), "<fields><int name=\"a\" type=\"uint8\"/></fields>" + element("construct", text)); break;
    }
    CG g;
    g.xml("s.xml", schema(Glob + face + msg, "", "9")).run("commsdsl2comms");
    sxn_assert(g.rc == 0, "refused");
    if (g.rc) return;
    Text m = g.file("include/s/message/M.h"), scope = own ? bodyOf(m, "struct MFields") : m;
    if (scope.s != m.s) { size_t p = scope.find("class Hb : public"); scope = p == std::string::npos ? Text() : scope.sub(p, scope.size()); }
    else { size_t p = scope.s.rfind("class M : public"); scope = p == std::string::npos ? Text() : scope.sub(p, scope.size()); }
    sxn_assert(!scope.empty(), "definition-missing");

    bool castOk = true;
    Env env;
    env.cast = [&](const std::string& n, V v) {
        auto it = w.types.find(n);
        if (it == w.types.end()) { castOk = false; if (sxn_replaying()) std::printf("  conversion to %s\n", n.c_str()); return v; }
        unsigned sh = 64 - it->second->len * 8;
        if (sh) v.v = it->second->sig ? (uint64_t)((int64_t)(v.v << sh) >> sh) : (v.v << sh) >> sh;
        v.uns = !it->second->sig;
        return v;
    };
    env.leaf = [&](const std::string& n, V& v) {
        if (n == "Base::valid()" || n == "Base::doValid()") { v.v = 1; return true; }
        auto it = w.leaf.find(n);
        if (n[0] == '#' || it == w.leaf.end()) return false;
        v = it->second; return true;
    };
    // comparisons of strings with literals are replaced by the variable telling the result
    auto expr = [&](Text x) {
        for (auto& kv : w.texts) {
            for (unsigned neg = 0; neg < 2; ++neg) {
                std::string from = kv.first + (neg ? " != " : " == ") + "\"" + kv.second + "\"", to = std::string(neg ? "!" : "") + kv.first;
                size_t p = x.s.find(from);
                if (p != std::string::npos) { Text a = x.sub(0, p), b = x.sub(p + from.size(), x.size()); Text r; r.t = a.t + to + b.t; r.s = a.s + to + b.s; x = r; }
            }
            if (x.has(kv.first + " ==") || x.has(kv.first + " !=")) env.fail("comparison of text");
        }
        V v = evaluate(x.trim(), env);
        return (unsigned)(v.v != 0);
    };
    static const char* Key[] = {"option-in-message", "option-in-bundle", "valid-message", "valid-bundle", "valid-bitfield", "read", "construct"};
    unsigned got = 0;
    if (host <= OptInBundle) {
        Text f = bodyOf(scope, "bool refresh_oo()");
        sxn_assert(!f.empty(), "refresh-missing");
        if (f.empty()) return;
        // mode is Missing, unless the condition holds; the field gets that mode
        size_t a = f.find("auto mode = comms::field::OptionalMode::Missing;"), b = f.find("if (", a), e = b == std::string::npos ? b : matching(f.s, b + 3);
        sxn_assert(a != std::string::npos && e != std::string::npos, "refresh-unreadable");
        got = expr(f.sub(b + 4, e));
        Text then = f.sub(f.find("{", e) + 1, f.find("}", e));
        sxn_assert(then.trim().is("mode = comms::field::OptionalMode::Exists;"), "refresh-mode");
        sxn_assert(f.has("field_oo().setMode(mode);") && f.has("if (field_oo().getMode() == mode)"), "refresh-mode");
        // used before the field is read, and when refreshed
        Text rd = bodyOf(scope, host == OptInMessage ? "comms::ErrorStatus doRead(" : "comms::ErrorStatus read(");
        std::string until = host == OptInMessage ? "Base::template doReadUntilAndUpdateLen<FieldIdx_oo>" : "Base::template readUntilAndUpdateLen<FieldIdx_oo>";
        std::string from = host == OptInMessage ? "Base::template doReadFrom<FieldIdx_oo>" : "Base::template readFrom<FieldIdx_oo>";
        size_t p1 = rd.find(until), p2 = rd.find("readPrepare_oo();"), p3 = rd.find(from);
        sxn_assert(p1 != std::string::npos && p2 != std::string::npos && p3 != std::string::npos && p1 < p2 && p2 < p3, "not-before-read");
        sxn_assert(bodyOf(scope, "void readPrepare_oo()").trim().is("refresh_oo();"), "not-before-read");
        Text rf = bodyOf(scope, host == OptInMessage ? "bool doRefresh()" : "bool refresh()");
        sxn_assert(rf.has("refresh_oo()"), "not-in-refresh");
    } else if (host <= ValidBits) {
        Text f = bodyOf(scope, host == ValidMessage ? "bool doValid() const" : "bool valid() const");
        sxn_assert(!f.empty(), "valid-missing");
        if (f.empty()) return;
        Text b = f.bare();
        size_t p = b.s.rfind("return");
        sxn_assert(b.has(host == ValidMessage ? "if (!Base::doValid())" : "if (!Base::valid())"), "base-valid-missing");
        Text x = b.sub(p + 6, b.s.rfind(';'));
        got = expr(x);
    } else if (host == Read) {
        Text f = bodyOf(scope, "comms::ErrorStatus doRead(").bare();
        size_t p = f.find("bool validRead ="), e = f.find(";", p);
        sxn_assert(p != std::string::npos && e != std::string::npos, "read-condition-missing");
        if (e == std::string::npos || p == std::string::npos) return;
        got = expr(f.sub(p + 16, e));
        size_t q = f.find("if (!validRead)"), r = f.find("return comms::ErrorStatus::InvalidMsgData;"), s = f.find("Base::doRead(");
        sxn_assert(q != std::string::npos && r != std::string::npos && s != std::string::npos && e < q && q < r && r < s, "read-condition-ignored");
    } else {
        // the members are set such that the condition holds
        Text f = bodyOf(scope, "\n    M()").bare();
        sxn_assert(!f.empty(), "construct-missing");
        if (f.empty()) return;
        std::map<std::string, V> after;
        for (auto& st : split(f, ';')) {
            if (st.empty()) continue;
            size_t p = st.find(".value() ="), q = st.find(".setBitValue_");
            if (p != std::string::npos) { V v = evaluate(st.sub(p + 10, st.size()).trim(), env); after[st.sub(0, p).trim().s + ".getValue()"] = v; }
            else if (q != std::string::npos) {
                size_t o = st.find("(", q); V v = evaluate(st.sub(o + 1, matching(st.s, o)).trim(), env);
                after[st.sub(0, q).trim().s + ".getBitValue_" + st.sub(q + 13, o).s + "()"] = v;
            } else env.fail("statement: " + st.s);
        }
        // the condition over the values after construction; nothing else is set
        unsigned n = 0;
        for (auto& kv : after) n += w.leaf.count(kv.first);
        sxn_assert(n == after.size() && n == (form ? 2u : 1u), "construct-members");
        if (n != after.size()) return;
        for (auto& o : w.ops) {
            if (!w.leaf.count(std::string("#") + o.ref) || !after.count(o.access)) continue;
            // want holds for some values only: given that it holds the values are the set ones
            V v = after[o.access];
            unsigned sameV = o.kind == 'b' ? (unsigned)((v.v != 0) == (o.v != 0)) : (unsigned)(v.v == o.v);
            sxn_assert((want ^ 1u) | sameV, "construct-value");
        }
        got = want;
    }
    sxn_assert(!env.bad, "unreadable");
    sxn_assert(castOk, "conversion-to-wrong-type");
    sxn_assert(got == want, Key[host]);
    sxn_reach(Key[host]);
}
