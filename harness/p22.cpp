// P22: validity of values depending on the version of the protocol in the generated COMMS definitions.
#include "gen.h"
#include "CommsGenerator.h"
#include "CommsProgramOptions.h"
using CG = Gen<commsdsl2comms::CommsGenerator, commsdsl2comms::CommsProgramOptions>;
void sx_prepare() {}

static const unsigned Never = 99;
// an element of a field: range of versions it is part of the protocol in
struct El { unsigned since = 0, dep = Never; unsigned lo = 0, hi = 0; std::string text; };
static std::string ver(unsigned v) { return sx::dec(v); }
static El element(const char* s, const char* d, unsigned lo, unsigned hi, unsigned how)
{
    // how: 0 since, 1 deprecated, 2 both, 3 none
    El e; e.lo = lo; e.hi = hi;
    if (how == 0 || how == 2) { e.since = (unsigned)sxn_var(s, 8, 0, 9); e.text += attr("sinceVersion", ver(e.since)); }
    if (how == 1 || how == 2) { e.dep = (unsigned)sxn_var(d, 8, 1, 9); e.text += attr("deprecated", ver(e.dep)); sxn_assume(e.since < e.dep); }
    return e;
}

struct Setup
{
    unsigned place, mode, fs = 0, fd = Never, forced = 9, remote = 0; bool check, removed = false;
    std::vector<std::string> extra;
    bool dependent() const { return mode == 0; }
    unsigned v = 0;
    // part of the code which is generated
    unsigned exists(const El& e, bool deprecatedRemoved) const
    {
        unsigned always = (unsigned)(e.since <= fs), s = always | (unsigned)(e.since <= forced);
        unsigned gone = (unsigned)(e.dep < fd) & (unsigned)(e.dep <= remote) & (unsigned)deprecatedRemoved;
        return s & (gone ^ 1u);
    }
    // valid in version v
    unsigned inVersion(const El& e) const
    {
        unsigned d = (unsigned)(e.dep >= fd);
        return (unsigned)(e.since <= v) & (d | (unsigned)(v < e.dep));
    }
    unsigned counts(const El& e) const { return dependent() && check ? inVersion(e) : exists(e, true); }
};
static Setup setup(bool versions)
{
    Setup s;
    s.place = sx::choice("place", 3);            // global, member with versions, member of a message with versions
    s.mode = sx::choice("code", sxn_thorough() ? 3 : 2); // depends on version, forced not to, no version in the interface
    s.check = s.mode && !sxn_thorough() ? true : sx::choice("check", 2);
    // none, force and minimal, force
    unsigned opt = s.place == 2 && !sxn_thorough() ? 0 : sx::choice("options", sxn_thorough() ? 3 : 2);
    opt = opt ? 3 - opt : 0;
    if (opt >= 1) { s.forced = (unsigned)sxn_var("forced", 8, 0, 9); s.extra.push_back("--force-schema-version"); s.extra.push_back(ver(s.forced)); }
    if (opt == 2) { s.remote = (unsigned)sxn_var("remote", 8, 0, 9); sxn_assume(s.remote <= s.forced); s.extra.push_back("-m"); s.extra.push_back(ver(s.remote)); }
    if (s.mode == 1) s.extra.push_back("--version-independent-code");
    if (s.place) {
        s.fs = (unsigned)sxn_var("field-since", 8, 0, 9);
        sxn_assume(s.fs <= s.forced);
        if (s.place == 1) {
            s.fd = (unsigned)sxn_var("field-deprecated", 8, 1, 9); s.removed = sxn_thorough() ? sx::choice("removed", 2) : s.check == (opt == 0);
            sxn_assume(s.fs < s.fd);
            if (s.removed) sxn_assume(s.remote < s.fd);
        }
    }
    if (versions) {
        s.v = (unsigned)sxn_var("v", 8, 0, 9);
        sxn_assume((unsigned)(s.v >= s.remote) & (unsigned)(s.v >= s.fs) & (unsigned)(s.v <= s.forced));
        if (s.removed) sxn_assume(s.v < s.fd);
    }
    return s;
}
// within the versions of the field; else the schema is refused
static void inside(const Setup& s, const El& e) { if (s.place) sxn_assume((unsigned)(e.since >= s.fs) & (unsigned)(e.since < s.fd) & ((unsigned)(e.dep == Never) | (unsigned)(e.dep <= s.fd))); }
static El el(const Setup& s, const char* a, const char* b, unsigned lo, unsigned hi, unsigned how)
{
    El e = element(a, b, lo, hi, how);
    if (how == 1 || how == 3) { e.since = s.fs; if (how == 1) sxn_assume(e.since < e.dep); }   // inherited
    inside(s, e);
    return e;
}
struct Out { CG g; Text scope, common; Call base; bool ok = false; };
static void generate(Out& o, const Setup& s, const std::string& tg, const std::string& attrs, const std::string& kids, unsigned refuse = 0)
{
    std::string vers;
    if (s.place == 1) vers = attr("sinceVersion", ver(s.fs)) + attr("deprecated", ver(s.fd)) + attr("removed", s.removed ? "true" : "false");
    std::string f = tag(tg, attr("name", "f") + attrs + (s.place == 1 ? vers : ""), kids);
    std::string body = "<fields><int name=\"v\" type=\"uint8\" semanticType=\"version\"/>" + (s.place ? std::string() : f) + "</fields>";
    if (s.mode != 2) body += "<interface name=\"I\"><ref field=\"v\" name=\"ver\"/></interface>";
    body += tag("message", attr("name", "M") + attr("id", "1") + (s.place == 2 ? attr("sinceVersion", ver(s.fs)) : ""), s.place ? f : "<ref name=\"f\" field=\"f\"/>");
    o.g.xml("s.xml", schema(body, "", "9")).run("commsdsl2comms", s.extra);
    sxn_assert(refuse | (unsigned)(o.g.rc == 0), "refused");
    if (o.g.rc != 0) return;
    if (s.place == 0) {
        o.scope = o.g.file("include/s/field/F.h");
        o.common = bodyOf(o.g.file("include/s/field/FCommon.h"), "struct FCommon");
        o.base = baseOf(o.scope, "F");
    } else {
        Text all = bodyOf(o.g.file("include/s/message/M.h"), "struct MFields");
        const char* n = all.has("class FField : public") ? "FField" : "F";
        size_t p = all.find(std::string("class ") + n + " : public");
        if (p == std::string::npos) { sxn_assert(false, "definition-missing"); return; }
        o.base = baseOf(all, n);
        // the body of the class is behind its base
        size_t b = p, d = 0;
        for (; b < all.size(); ++b) { if (all.s[b] == '<') ++d; else if (all.s[b] == '>') --d; else if (all.s[b] == '{' && d == 0) break; }
        o.scope = all.sub(b + 1, matching(all.s, b));
        o.common = bodyOf(bodyOf(o.g.file("include/s/message/MCommon.h"), "struct MFieldsCommon"), "struct FCommon");
    }
    o.ok = o.base.has;
    sxn_assert(o.ok, "definition-missing");
}
static uint64_t num(const Text& x) { bool good = true; V v = number(x, good); sxn_assert(good, "unreadable-number"); return v.v; }

// value of valid() at version s.v
static unsigned validity(const Out& o, const Setup& s, uint64_t x)
{
    unsigned any = 0, valid = 0, invalid = 0, storage = 0; uint64_t mask = 0, val = 0;
    for (auto& a : o.base.args) {
        Call c = call(a);
        if (c.name == DEF_OPT "ValidNumValue") { any = 1; valid |= (unsigned)(x == num(c.args.at(0))); }
        else if (c.name == DEF_OPT "ValidNumValueRange") { any = 1; valid |= (unsigned)(num(c.args.at(0)) <= x) & (unsigned)(x <= num(c.args.at(1))); }
        else if (c.name == DEF_OPT "InvalidByDefault") invalid = 1;
        else if (c.name == DEF_OPT "BitmaskReservedBits") { mask = num(c.args.at(0)); val = num(c.args.at(1)); }
        else if (c.name == DEF_OPT "VersionStorage") storage = 1;
    }
    if (!any) valid = invalid ^ 1u;
    valid &= (unsigned)((x & mask) == val);
    Text body = bodyOf(o.scope, "bool valid() const");
    if (body.empty()) return valid;
    if (body.has("getVersion()")) sxn_assert(storage == 1, "no-version-storage");
    Env env;
    env.leaf = [&](const std::string& n, V& v) {
        if (n == "Base::valid()") { v.v = valid; return true; }
        if (n == "Base::getVersion()") { v.v = s.v; return true; }
        if (n == "Base::getValue()") { v.v = x; return true; }
        return false;
    };
    Res r = block(body.bare(), env);
    sxn_assert(!env.bad, "valid-function-unreadable");
    sxn_assert(r.ret == 1, "valid-function-no-result");
    return (unsigned)(r.val != 0);
}

static void ranges(unsigned kind)
{
    Setup s = setup(true);
    unsigned h1 = sx::choice("first", 3), h2 = sx::choice("second", 3) + 1;
    if (!sxn_thorough() && s.place == 1 && (h2 == 2 || (h1 == 2 && h2 != 1))) return;
    if (!sxn_thorough() && s.mode == 0 && s.check && s.extra.size() > 2 && (h1 == 2 || h2 == 2)) return;
    El e1 = el(s, "since1", "deprecated1", 1, kind == 2 ? 1 : 3, h1), e2 = el(s, "since2", "deprecated2", kind == 2 ? 5 : 3, 5, h2);
    bool third = sxn_thorough() ? sx::choice("third", 2) : (h1 + h2 + kind) % 2;
    std::string kids;
    auto one = [&](const El& e, const char* n) {
        if (kind == 2) kids += tag("validValue", attr("name", n) + attr("val", dec(e.lo)) + e.text);
        else kids += tag("validRange", attr("value", "[" + dec(e.lo) + ", " + dec(e.hi) + "]") + e.text);
    };
    one(e1, "V"); one(e2, "W");
    if (third) { if (kind == 2) kids += "<validValue name=\"Z\" val=\"22\"/>"; else kids += "<validValue value=\"22\"/>"; }
    El e3 = el(s, "", "", 22, 22, 3);
    std::string a = kind == 1 ? attr("type", "float") : attr("type", "uint8");
    if (s.check) a += attr("validCheckVersion", "true");
    Out o;
    unsigned some = s.exists(e1, true) | s.exists(e2, true) | (unsigned)third;
    generate(o, s, kind == 0 ? "int" : kind == 1 ? "float" : "enum", a, kids, kind == 2 ? some ^ 1u : 0);
    if (!o.ok) return;
    uint64_t x = sxn_var("value", 8, 0, 255);
    auto in = [&](const El& e) { return (unsigned)(e.lo <= x) & (unsigned)(x <= e.hi); };
    unsigned want = (s.counts(e1) & in(e1)) | (s.counts(e2) & in(e2));
    if (third) want |= in(e3);
    unsigned got = validity(o, s, x);
    // without any existing value there is nothing to compare with
    sxn_assert((some ^ 1u) | (unsigned)(want == got), kind == 0 ? "int-valid" : kind == 1 ? "float-valid" : "enum-valid");
    sxn_reach(kind == 0 ? "int" : kind == 1 ? "float" : "enum");
    if (kind != 2) return;
    // enumerators of the version of the schema
    Text en = bodyOf(o.common, "enum class ValueType").bare();
    std::map<std::string, uint64_t> vals;
    for (auto& t : split(en, ',')) { size_t p = t.find("="); if (p != std::string::npos) vals[t.sub(0, p).trim().s] = num(t.sub(p + 1, t.size())); }
    auto there = [&](const char* n, const El& e) { unsigned has = vals.count(n); return (unsigned)(has == s.exists(e, false)) & (unsigned)(!has || vals[n] == e.lo); };
    sxn_assert(there("V", e1) & there("W", e2) & (unsigned)(vals.count("Z") == third), "enum-values");
    if (!vals.count("V") && !vals.count("W") && !vals.count("Z")) return;
    uint64_t mn = vals.count("V") ? 1 : vals.count("W") ? 5 : 22, mx = vals.count("Z") ? 22 : vals.count("W") ? 5 : 1;
    sxn_assert(vals.count("FirstValue") && vals.count("LastValue") && vals["FirstValue"] == mn && vals["LastValue"] == mx, "enum-first-last");
    sxn_assert(!vals.count("ValuesLimit") || vals["ValuesLimit"] == mx + 1, "enum-limit");
    // names only of existing values
    Text map = bodyOf(o.common, "static ValueNamesMapInfo valueNamesMap()");
    unsigned n = 0;
    for (auto& kv : vals) if (kv.first.size() == 1) n += map.has("\"" + kv.first + "\"");
    unsigned q = 0; for (char c : map.s) q += c == '"';
    sxn_assert(q == 2 * n && n == vals.size() - 2 - vals.count("ValuesLimit"), "enum-names");
}

static void bits()
{
    Setup s = setup(true);
    unsigned h1 = sx::choice("first", 3), h2 = sx::choice("second", 4), alias = sx::choice("alias", 2), rv = sx::choice("reserved-value", 2);
    if (!sxn_thorough()) {
        if (rv != (alias ^ (s.place == 1 ? 1u : 0u))) return;
        if (s.place == 1 && s.mode == 0 && s.check && h2 == 2) return;
        if (s.mode == 0 && s.check && s.extra.size() > 2 && (h1 == 2 || h2 == 2)) return;
    }
    El e1 = el(s, "since1", "deprecated1", 0, 0, h1), e2 = el(s, "since2", "deprecated2", alias ? 0 : 1, 0, h2);
    std::string r = rv ? attr("reservedValue", "true") : "";
    std::string kids = tag("bit", attr("name", "a") + attr("idx", "0") + r + e1.text) + tag("bit", attr("name", "b") + attr("idx", dec(e2.lo)) + r + e2.text) + tag("bit", attr("name", "z") + attr("idx", "3") + r);
    std::string a = attr("length", "1");
    if (alias) a += attr("nonUniqueAllowed", "true");
    if (s.check) a += attr("validCheckVersion", "true");
    Out o;
    generate(o, s, "set", a, kids);
    if (!o.ok) return;
    uint64_t x = sxn_var("value", 8, 0, 255);
    bool c = s.dependent() && s.check;
    unsigned c1 = c ? s.inVersion(e1) : 1, c2 = c ? s.inVersion(e2) : 1;
    unsigned free0 = c1 | (alias ? c2 : 0), free1 = alias ? 0 : c2;
    uint64_t res = 0xf4, want = 0;
    res |= free0 ? 0 : 1; res |= free1 ? 0 : 2;
    want = rv ? (free0 ? 0 : 1) : 0; want |= rv && !alias ? (free1 ? 0 : 2) : 0;
    unsigned ok = (unsigned)((x & res) == want);
    sxn_assert(ok == validity(o, s, x), "set-valid");
    sxn_reach("set");
}

static void members()
{
    Setup s = setup(false);
    if (s.mode) return;
    unsigned kind = sx::choice("with", 4), h1 = sx::choice("first", 3);    // specials of int, of float; values of string, of data
    if (s.check && !sxn_thorough()) return;
    El e1 = el(s, "since1", "deprecated1", 1, 1, h1);
    bool second = sx::choice("second", 2);
    std::string kids, a = kind == 0 ? attr("type", "uint8") : kind == 1 ? attr("type", "float") : "";
    if (kind < 2) { kids = tag("special", attr("name", "S") + attr("val", "1") + e1.text); if (second) kids += tag("special", attr("name", "T") + attr("val", "2")); }
    else { kids = tag("validValue", attr("value", "abcd") + e1.text); if (second) kids += tag("validValue", attr("value", "cdef")); }
    Out o;
    static const char* Tg[] = {"int", "float", "string", "data"};
    generate(o, s, Tg[kind], a, kids);
    if (!o.ok) return;
    unsigned there = s.exists(e1, true);
    if (kind < 2) {
        Text m = bodyOf(o.common, "static SpecialNamesMapInfo specialNamesMap()");
        sxn_assert((unsigned)o.common.has("valueS()\n") == there && (unsigned)o.common.has("valueT()\n") == second, "specials");
        sxn_assert((unsigned)m.has("\"S\"") == there && (unsigned)m.has("\"T\"") == second && (unsigned)m.has("valueS()") == there && (unsigned)m.has("valueT()") == second, "special-names");
        sxn_assert((unsigned)o.scope.has("valueS()") == there && (unsigned)o.scope.has("valueT()") == second, "specials");
        Text h = bodyOf(o.common, "hasSpecials()");
        sxn_assert((unsigned)h.has("true") == (there | (unsigned)second), "has-specials");
        sxn_reach("specials");
        return;
    }
    Text v = bodyOf(o.scope, "bool valid() const");
    if (kind == 2) sxn_assert((unsigned)v.has("\"abcd\"") == there && (unsigned)v.has("\"cdef\"") == second, "string-valid");
    else sxn_assert((unsigned)v.has("0xab, 0xcd") == there && (unsigned)v.has("0xcd, 0xef") == second, "data-valid");
    sxn_assert((there | (unsigned)second) == (unsigned)!v.empty(), "text-valid");
    sxn_reach("texts");
}

void sx_harness()
{
    unsigned what = sx::choice("what", 5);
    if (what < 3) ranges(what);
    else if (what == 3) bits();
    else members();
}
