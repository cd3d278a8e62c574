// Bindings (C, emscripten, SWIG) offer exactly the elements of the library, with the same numbers and types, and call the ones they are named after.
#include "gen.h"
#include "CommsGenerator.h"
#include "CommsProgramOptions.h"
#include "CGenerator.h"
#include "CProgramOptions.h"
#include "EmscriptenGenerator.h"
#include "EmscriptenProgramOptions.h"
#include "SwigGenerator.h"
#include "SwigProgramOptions.h"
#include <algorithm>
#include <map>
#include <set>
void sx_prepare() {}
struct Out
{
    int rc = -1; std::string dir;
    Text file(const std::string& rel) const
    {
        unsigned n = sxn_vfs_count();
        for (unsigned i = 0; i < n; ++i) {
            if (dir + rel != sxn_vfs_name(i)) continue;
            std::string s(sxn_vfs_size(i), 0);
            sxn_vfs_read(i, &s[0]);
            if (sxn_replaying() && getenv("SX_SHOW")) std::printf("---- %s\n%s\n", rel.c_str(), s.c_str());
            return Text(s);
        }
        return Text();
    }
};
template <typename G, typename O>
static Out go(const char* app, const std::string& doc, const std::vector<std::string>& args, const char* dir, bool first)
{
    Gen<G, O> g; g.dir = dir; g.first = first; g.paths = {doc};
    g.run(app, args);
    Out o; o.rc = g.rc; o.dir = g.out + "/";
    return o;
}
enum App { C, Emscripten, Swig, Lib };
static Out go(unsigned app, const std::string& doc, const std::vector<std::string>& args, const char* dir, bool first)
{
    switch (app) {
    case C: return go<commsdsl2c::CGenerator, commsdsl2c::CProgramOptions>("commsdsl2c", doc, args, dir, first);
    case Emscripten: return go<commsdsl2emscripten::EmscriptenGenerator, commsdsl2emscripten::EmscriptenProgramOptions>("commsdsl2emscripten", doc, args, dir, first);
    case Swig: return go<commsdsl2swig::SwigGenerator, commsdsl2swig::SwigProgramOptions>("commsdsl2swig", doc, args, dir, first);
    default: return go<commsdsl2comms::CommsGenerator, commsdsl2comms::CommsProgramOptions>("commsdsl2comms", doc, args, dir, first);
    }
}
static unsigned app;
static bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
static bool ends(const std::string& s, const std::string& p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
static bool said(bool c, const std::string& what) { if (!c && sxn_replaying()) std::printf("  %s\n", what.c_str()); return c; }
static void chk(bool c, const char* key, const std::string& what) { said(c, what); sxn_assert(c, key); }
// ---- what there is: name -> its number (none for functions) ----
using Elems = std::vector<std::pair<std::string, Text>>;
static void enumerators(const Text& body, Elems& to)
{
    for (auto& p : split(body, ',')) {
        Text t = p.trim();
        if (t.empty()) continue;
        size_t e = t.find("=");
        if (e == std::string::npos) { to.push_back({t.s, Text()}); continue; }
        to.push_back({t.sub(0, e).trim().s, t.sub(e + 1, t.size()).trim()});
    }
}
static std::string wordAt(const Text& f, size_t p) { size_t e = p; while (e < f.s.size() && wordCh(f.s[e])) ++e; return f.s.substr(p, e - p); }
// arguments of all MACRO(...)
static void macroArgs(const Text& f, const std::string& macro, Elems& to)
{
    for (size_t p = f.find(macro + "("); p != std::string::npos; p = f.find(macro + "(", p + 1)) {
        if (p && wordCh(f.s[p - 1])) continue;
        size_t o = p + macro.size();
        enumerators(f.sub(o + 1, matching(f.s, o)), to);
    }
}
struct All { Elems values, bits, members, msgIds; std::set<std::string> specials; };
static void library(const Text& f, All& a)
{
    for (size_t p = f.find("enum class ValueType"); p != std::string::npos; p = f.find("enum class ValueType", p + 1)) {
        size_t b = f.find("{", p);
        enumerators(f.sub(b + 1, matching(f.s, b)), a.values);
    }
    static const std::string SP = "static constexpr ValueType value";
    for (size_t p = f.find(SP); p != std::string::npos; p = f.find(SP, p + 1)) a.specials.insert(wordAt(f, p + SP.size()));
    macroArgs(f, "COMMS_BITMASK_BITS", a.bits);
    for (auto m : {"COMMS_FIELD_MEMBERS_NAMES", "COMMS_VARIANT_MEMBERS_NAMES", "COMMS_MSG_FIELDS_NAMES", "COMMS_MSG_TRANSPORT_FIELDS_NAMES"}) macroArgs(f, m, a.members);
}
static int find(const Elems& e, const std::string& n) { for (unsigned i = 0; i < e.size(); ++i) if (e[i].first == n) return (int)i; return -1; }
static unsigned sameNumber(const Text& a, const Text& b)
{
    bool g1 = true, g2 = true;
    V x = number(a, g1), y = number(b, g2);
    if (!g1 || !g2) return 0;
    return x.v == y.v;
}
static void sameElems(const Elems& lib, const Elems& b, const char* missing, const char* extra, const char* num)
{
    for (auto& e : lib) {
        int i = find(b, e.first);
        chk(i >= 0, missing, "no " + e.first);
        if (num && i >= 0 && !e.second.empty()) { chk(!b[i].second.empty(), missing, "no number of " + e.first); sxn_assert(sameNumber(e.second, b[i].second), num); }
    }
    for (unsigned i = 0; i < b.size(); ++i) {
        chk(find(lib, b[i].first) >= 0, extra, "extra " + b[i].first);
        for (unsigned j = 0; j < i; ++j) chk(b[j].first != b[i].first, extra, "again " + b[i].first);
    }
}
static void sameNames(const std::set<std::string>& lib, const std::set<std::string>& b, const char* missing, const char* extra)
{
    for (auto& n : lib) chk(b.count(n) != 0, missing, "no " + n);
    for (auto& n : b) chk(lib.count(n) != 0, extra, "extra " + n);
}
static std::set<std::string> namesOf(const Elems& e) { std::set<std::string> r; for (auto& x : e) r.insert(x.first); return r; }
// words of the text that begin so, what follows
static std::set<std::string> suffixes(const Text& f, const std::string& pre)
{
    std::set<std::string> r;
    for (size_t p = f.find(pre); p != std::string::npos; p = f.find(pre, p + 1)) {
        if (p && wordCh(f.s[p - 1])) continue;
        r.insert(wordAt(f, p + pre.size()));
    }
    return r;
}
static std::vector<std::string> lines(const Text& f)
{
    std::vector<std::string> r(1);
    for (char c : f.s) { if (c == '\n') r.push_back(""); else r.back() += c; }
    return r;
}
// ---- C ----
// names of parameters do not matter
static std::string types(const std::string& sig)
{
    size_t o = sig.find('(');
    std::string r = sig.substr(0, o + 1), p;
    for (size_t i = o + 1; i < sig.size(); ++i) {
        if (sig[i] != ',' && sig[i] != ')') { p += sig[i]; continue; }
        size_t n = p.size(); while (n && wordCh(p[n - 1])) --n;
        bool named = n && p != "void" && (p[n - 1] == '*' || p.find(' ', p[0] == ' ' ? 1 : 0) != std::string::npos) && n != p.size();
        std::string t = named ? p.substr(0, n) : p;
        while (!t.empty() && t.back() == ' ') t.pop_back();
        r += (t == "void" ? "" : t) + sig[i];
        p.clear();
    }
    return r;
}
struct Fn { std::string sig, name; std::string body; };
static std::vector<Fn> functions(const Text& f, bool defs)
{
    std::vector<Fn> r;
    auto ls = lines(f);
    for (unsigned i = 0; i < ls.size(); ++i) {
        const std::string& l = ls[i];
        if (l.empty() || l[0] == ' ' || l[0] == '#' || l[0] == '}' || l[0] == '{' || starts(l, "static_assert") || starts(l, "typedef")) continue;
        size_t o = l.find('(');
        if (o == std::string::npos || o == 0) continue;
        size_t n = o; while (n && wordCh(l[n - 1])) --n;
        Fn x; x.name = l.substr(n, o - n);
        if (defs) {
            if (l.back() != ')') continue;
            x.sig = types(l);
            unsigned j = i + 1;
            if (j >= ls.size() || ls[j] != "{") continue;
            for (++j; j < ls.size() && ls[j] != "}"; ++j) x.body += ls[j] + "\n";
        }
        else {
            if (!ends(l, ");")) continue;
            x.sig = types(l.substr(0, l.size() - 1));
        }
        r.push_back(x);
    }
    return r;
}
static bool calls(const std::string& body, const std::string& name)
{
    for (size_t p = body.find(name + "("); p != std::string::npos; p = body.find(name + "(", p + 1))
        if (p && (body[p - 1] == '>' || body[p - 1] == ':')) return true;
    return false;
}
static bool family(const std::string& s)
{
    for (auto p : {"value", "is", "set", "getBitValue", "setBitValue", "field_", "initField_", "deinitField_", "accessField_", "transportField_", "does", "do", "read", "write", "length", "name", "valid", "getValue", "setValue", "reset", "selectField", "currentField"}) if (starts(s, p)) return true;
    return false;
}
static std::string sub(const std::string& s, const std::string& own) { return s.substr(own.size() + 1); }
// ---- the documents ----
enum Kind { KEnum, KInt, KFloat, KSet, KBundle, KVariant, KBitfield, NumKinds };
enum Place { Global, Message, Bundle, Bits, Element, Member, Optional, Interface, NumPlaces };
static const char* const KindTags[] = {"enum", "int", "float", "set", "bundle", "variant", "bitfield"};
struct T { const char* type; unsigned len; const char* cpp; const char* swig; };
static const T Types[] = {
    {"uint8", 0, "uint8_t", "unsigned char"}, {"int8", 0, "int8_t", "signed char"}, {"uint16", 0, "uint16_t", "unsigned short"}, {"int16", 0, "int16_t", "short"},
    {"uint32", 3, "uint32_t", "unsigned"}, {"int32", 3, "int32_t", "int"}, {"uint64", 5, "uint64_t", "unsigned long long"}, {"int64", 6, "int64_t", "long long"},
    {"uintvar", 2, "uint16_t", "unsigned short"}, {"intvar", 2, "int16_t", "short"}, {"uintvar", 3, "uint32_t", "unsigned"}, {"intvar", 4, "int32_t", "int"}, {"uintvar", 5, "uint64_t", "unsigned long long"}, {"intvar", 9, "int64_t", "long long"},
};
static const unsigned NumTypes = sizeof(Types) / sizeof(*Types);
static const T* type;
static std::string ver(uint64_t since, uint64_t dep, bool removed)
{
    std::string r;
    if (since) r += attr("sinceVersion", sx::dec(since));
    if (dep) r += attr("deprecated", sx::dec(dep));
    if (removed) r += attr("removed", "true");
    return r;
}
static std::string subject(unsigned kind, bool bits, const std::string& at, const std::string& elemVer, uint64_t number, bool hex)
{
    std::string a = attr("name", "f") + at, k, sz = bits ? attr("bitLength", "5") : "";
    std::string n = sx::dec(number), typ = attr("type", type->type) + (type->len && !bits ? attr("length", std::to_string(type->len)) : "") + sz;
    switch (kind) {
    case KEnum: a += typ + (hex ? attr("hexAssign", "true") : ""); k = tag("validValue", attr("name", "Va") + attr("val", n)) + tag("validValue", attr("name", "Vb") + attr("val", "19") + elemVer) + tag("validValue", attr("name", "vc") + attr("val", "1") + attr("displayName", "Xx")); break;
    case KInt: a += typ; k = tag("special", attr("name", "sa") + attr("val", n)) + tag("special", attr("name", "Sb") + attr("val", "19") + elemVer); break;
    case KFloat: a += attr("type", "float"); k = tag("special", attr("name", "sa") + attr("val", "1." + n)) + tag("special", attr("name", "Sb") + attr("val", "nan") + elemVer); break;
    case KSet: a += bits ? sz : attr("length", "1"); k = tag("bit", attr("name", "ba") + attr("idx", n)) + tag("bit", attr("name", "Bb") + attr("idx", "4") + elemVer); break;
    case KBundle: k = "<members>" + tag("int", attr("name", "ma") + attr("type", "uint8")) + tag("int", attr("name", "Mb") + attr("type", "uint8") + elemVer) + "</members>"; break;
    case KVariant: k = "<members>" + tag("int", attr("name", "ma") + attr("type", "uint8")) + tag("int", attr("name", "Mb") + attr("type", "uint16")) + "</members>"; break;
    default: k = "<members>" + tag("int", attr("name", "ma") + attr("type", "uint8") + attr("bitLength", "3")) + tag("set", attr("name", "Mb") + attr("bitLength", "5")) + "</members>"; break;
    }
    return tag(KindTags[kind], a, k);
}
// a class of the binding, its members in the generated texts
static Text classBody(const Text& f, const std::string& name)
{
    for (std::string kw : {"class ", "struct "})
        for (size_t p = f.find(kw + name); p != std::string::npos; p = f.find(kw + name, p + 1)) {
            size_t e = p + kw.size() + name.size();
            if (wordCh(f.s[e])) continue;
            size_t b = f.find("{", e), semi = f.find(";", e);
            if (b == std::string::npos || semi < b) continue;
            return f.sub(b + 1, matching(f.s, b));
        }
    return Text();
}
// functions of a class: name -> text of the body (declared only: empty)
struct Method { std::string ret, name, body; bool isConst = false; };
static std::vector<Method> methods(const Text& cls)
{
    std::vector<Method> r;
    auto ls = lines(cls);
    for (unsigned i = 0; i < ls.size(); ++i) {
        std::string l = ls[i];
        size_t s = l.find_first_not_of(' ');
        if (s == std::string::npos || (s != 4 && s != 3)) continue;
        l = l.substr(s);
        size_t o = l.find('(');
        if (o == std::string::npos || l[0] == '{' || l[0] == '}' || starts(l, "using ")) continue;
        size_t n = o; while (n && (wordCh(l[n - 1]) || l[n - 1] == '~')) --n;
        if (n == 0 || n == o) continue;
        Method m; m.ret = l.substr(0, n); m.name = l.substr(n, o - n); m.isConst = ends(l, " const") || l.find(") const {") != std::string::npos || l.find(") const;") != std::string::npos;
        size_t b = l.find('{', o);
        if (b != std::string::npos) m.body = l.substr(b);
        else if (i + 1 < ls.size() && ls[i + 1].find_first_not_of(' ') != std::string::npos && ls[i + 1][ls[i + 1].find_first_not_of(' ')] == '{') {
            std::string end(s, ' '); end += "}";
            for (unsigned j = i + 1; j < ls.size(); ++j) { m.body += ls[j] + "\n"; if (starts(ls[j], end)) break; }
        }
        r.push_back(m);
    }
    return r;
}
static const Method* method(const std::vector<Method>& v, const std::string& n) { for (auto& m : v) if (m.name == n) return &m; return nullptr; }
static std::set<std::string> with(const std::vector<Method>& v, const char* pre) { std::set<std::string> r; for (auto& m : v) if (starts(m.name, pre)) r.insert(m.name.substr(strlen(pre))); return r; }
static std::set<std::string> plus(const std::set<std::string>& a, std::initializer_list<const char*> more) { auto r = a; for (auto x : more) r.insert(x); return r; }

void sx_harness()
{
    app = sx::choice("app", 3);
    unsigned kind = sx::choice("kind", NumKinds), place = sx::choice("place", NumPlaces);
    unsigned fv = place == Global || place == Message || place == Bundle || place == Interface ? sx::choice("field version", 2) : 0;
    unsigned removed = kind == KVariant || kind == KBitfield || (place != Global && place != Message) ? 0 : sx::choice("removed", kind == KBundle ? 3 : 2), forced = sx::choice("forced", 2), hex = kind == KEnum && place == Global ? sx::choice("hex", 2) : 0;
    if (place == Bits && (kind == KFloat || kind >= KBundle)) return;
    bool typed = kind == KEnum || kind == KInt;
    type = &Types[typed && place == Global && !fv && !removed ? sx::choice("type", NumTypes) : 0];
    if (hex && type->type[0] != 'u') return;
    // versions
    uint64_t fsince = fv ? sx::range("field since", 1, 9) : 0;
    bool versions = kind != KVariant && kind != KBitfield;
    uint64_t since = versions ? sx::range("since", 1, 9) : 0, dep = versions && removed ? sx::range("deprecated", 1, 9) : 0;
    if (versions) sxn_assume(fsince <= since);
    if (dep) sxn_assume(since < dep);
    // (a member deprecated, or deprecated and removed)
    bool rm = removed == 2 && kind == KBundle;
    uint64_t n = kind == KSet ? sx::range("number", 0, 3) : kind == KFloat ? sx::range("number", 10, 99) : sx::range("number", 10, 18);
    uint64_t force = forced ? sx::range("version", 1, 9) : 9, remote = sx::range("remote", 0, 9), id = sx::range("id", 1000, 9999);
    sxn_assume(remote <= force);
    std::string x = subject(kind, place == Bits, ver(fsince, 0, false), versions ? ver(since, dep, rm) : "", n, hex);
    std::string glob, inMsg, inIface = "<int name=\"v\" type=\"uint8\" semanticType=\"version\"/>";
    std::string own, file, holder, holderOwn;
    switch (place) {
    case Global: glob = x; inMsg = "<ref name=\"r\" field=\"f\"/>"; own = "field_F"; file = "field/F"; break;
    case Message: inMsg = x; own = "message_M1Fields_F"; file = "message/M1"; break;
    case Bundle: glob = "<bundle name=\"B\"><members><int name=\"o\" type=\"uint8\"/>" + x + "</members></bundle>"; inMsg = "<ref name=\"r\" field=\"B\"/>"; own = "field_BMembers_F"; file = "field/B"; holderOwn = "field_B"; break;
    case Bits: glob = "<bitfield name=\"B\"><members><int name=\"o\" type=\"uint8\" bitLength=\"3\"/>" + x + "</members></bitfield>"; inMsg = "<ref name=\"r\" field=\"B\"/>"; own = "field_BMembers_F"; file = "field/B"; holderOwn = "field_B"; break;
    case Element: glob = "<list name=\"B\" count=\"2\"><element>" + x + "</element></list>"; inMsg = "<ref name=\"r\" field=\"B\"/>"; own = "field_BMembers_F"; file = "field/B"; break;
    case Member: glob = "<variant name=\"B\"><members><int name=\"o\" type=\"uint16\"/>" + x + "</members></variant>"; inMsg = "<ref name=\"r\" field=\"B\"/>"; own = "field_BMembers_F"; file = "field/B"; holderOwn = "field_B"; break;
    case Optional: glob = "<optional name=\"B\"><field>" + x + "</field></optional>"; inMsg = "<ref name=\"r\" field=\"B\"/>"; own = "field_BMembers_F"; file = "field/B"; break;
    default: inIface += x; own = "IFields_F"; file = "I"; break;
    }
    std::string doc = "<fields>" + glob + "</fields><interface name=\"I\"><fields>" + inIface + "</fields></interface>"
        + tag("message", attr("name", "M1") + attr("id", sx::dec(id)), "<fields><int name=\"q\" type=\"uint8\"/>" + inMsg + "</fields>")
        + "<frame name=\"F\"><id name=\"i\"><int name=\"x\" type=\"uint16\"/></id><payload name=\"d\"/></frame>";
    std::vector<std::string> args = {"-m", sx::dec(remote)};
    if (forced) { args.push_back("--force-schema-version"); args.push_back(sx::dec(force)); }
    std::string path = sx::xml("s.xml", schema(doc, "", "9"));
    Out lib = go(Lib, path, args, "lib", true);
    if (lib.rc != 0) { sxn_reach("refused"); return; }
    Out o = go(app, path, args, "out", false);
    sxn_assert(o.rc == 0, "succeeds");
    if (o.rc != 0) return;
    // the library
    All a;
    std::string lf = "include/s/" + file;
    Text lib1 = lib.file(lf + ".h").bare(), lib0 = lib.file(lf + "Common.h").bare(), libMsg = lib.file("include/s/message/M1.h").bare();
    library(lib1, a); library(lib0, a);
    Elems msgMembers; macroArgs(libMsg, "COMMS_MSG_FIELDS_NAMES", msgMembers);
    Text ids = lib.file("include/s/MsgId.h").bare();
    { size_t b = ids.find("{", ids.find("enum MsgId")); enumerators(ids.sub(b + 1, matching(ids.s, b)), a.msgIds); }
    bool present = lib1.has("F") && (lib1.has("struct F ") || lib1.has("struct F\n") || lib1.has("class F ") || lib1.has("using F "));
    // the class with the value: wrapped when it may be missing
    bool wrapped = lib1.has("FField");
    std::string val = own + (wrapped ? "Field" : "");
    if (kind >= KBundle) for (auto& e : Elems(a.members)) if (e.first == "o" || e.first == "f" || e.first == "v" || e.first == "q" || e.first == "r") a.members.erase(std::find_if(a.members.begin(), a.members.end(), [&](auto& y) { return y.first == e.first; }));
    // a typed value
    if (typed && present) {
        std::string t = std::string("std::") + type->cpp;
        chk(lib1.has(t) || lib0.has(t), "library-type", "no " + t);
    }
    if (app == C) {
        Text h = o.file("include/cc_c/s/" + file + ".h").bare(), c = o.file("cc_c/s/" + file + ".cpp").bare();
        Text mh = o.file("include/cc_c/s/message/M1.h").bare();
        std::string v = "s_" + val;
        // functions declared and defined
        auto ds = functions(h, false), fs = functions(c, true);
        std::set<std::string> dn, fn;
        for (auto& d : ds) dn.insert(d.sig);
        for (auto& f : fs) fn.insert(f.sig);
        chk(!ds.empty() && dn.size() == ds.size() && fn.size() == fs.size(), "functions-once", "functions");
        sameNames(dn, fn, "functions-defined", "functions-declared");
        // owners: the longest typedef'd handle the name begins with
        auto handles = suffixes(h, "typedef struct s_");
        std::set<std::string> hs; for (auto& x : handles) if (x.size() > 1) hs.insert("s_" + x.substr(0, x.size() - 1));
        Elems values, bits; std::set<std::string> specials, is, set, gets, sets, members, inits, deinits, accs;
        for (auto& f : fs) {
            std::string best; for (auto& x : hs) if (starts(f.name, x + "_") && x.size() > best.size()) best = x;
            if (best.empty()) continue;
            std::string s = sub(f.name, best);
            if (f.name == best + "_alloc" || f.name == best + "_free") continue;
            if (family(s)) chk(calls(f.body, s), "calls-its-own", f.name);
            if (best == v) {
                if (starts(s, "value")) specials.insert(s.substr(5));
                if (starts(s, "getBitValue_")) gets.insert(s.substr(12));
                if (starts(s, "setBitValue_")) sets.insert(s.substr(12));
                if (starts(s, "field_")) members.insert(s.substr(6));
                if (starts(s, "initField_")) inits.insert(s.substr(10));
                if (starts(s, "deinitField_")) deinits.insert(s.substr(12));
                if (starts(s, "accessField_")) accs.insert(s.substr(12));
                if (starts(s, "is") && s.size() > 2) is.insert(s.substr(2));
                if (starts(s, "set") && s != "setValue" && !starts(s, "setBitValue")) set.insert(s.substr(3));
            }
        }
        // (the names of values are those of the field that may be missing, their type is of the one inside)
        for (std::string m : {"s_" + own + "_ValueType_", v + "_BitIdx_"})
            for (auto& x : suffixes(h, m)) {
                size_t p = h.find(m + x), e = p;
                while (e < h.s.size() && h.s[e] != ',' && h.s[e] != '}') ++e;
                Elems one; enumerators(h.sub(p, e), one);
                (ends(m, "_ValueType_") ? values : bits).push_back({x, one[0].second});
            }
        if (kind == KEnum) {
            Elems want = a.values;
            if (find(want, "ValuesLimit") >= 0 || find(want, "valuesLimit") >= 0) want.push_back({"TypeValuesLimit", Text()});
            sameElems(want, values, "enum-value-missing", "enum-value-extra", "enum-number");
        }
        if (kind == KInt || kind == KFloat) { sameNames(a.specials, specials, "special-missing", "special-extra"); sameNames(a.specials, is, "special-is", "special-is"); sameNames(a.specials, set, "special-set", "special-set"); }
        if (kind == KSet) {
            Elems want = a.bits; if (present) want.push_back({"numOfValues", Text()});
            sameElems(want, bits, "bit-missing", "bit-extra", "bit-index");
            sameNames(namesOf(a.bits), gets, "bit-get", "bit-get"); sameNames(namesOf(a.bits), sets, "bit-set", "bit-set");
        }
        if (kind == KBundle || kind == KBitfield) sameNames(namesOf(a.members), members, "member-missing", "member-extra");
        if (kind == KVariant) {
            sameNames(namesOf(a.members), inits, "member-missing", "member-extra"); sameNames(namesOf(a.members), deinits, "member-missing", "member-extra"); sameNames(namesOf(a.members), accs, "member-missing", "member-extra");
            sameNames(plus(namesOf(a.members), {"numOfValues"}), suffixes(h, "s_" + own + "_FieldIdx_"), "member-missing", "member-extra");
            // the indices are in the order of the members
            size_t last = 0;
            for (auto& m : a.members) {
                size_t p = h.find("s_" + own + "_FieldIdx_" + m.first); chk(p != std::string::npos && p > last, "member-order", m.first); last = p;
                size_t k = c.find("case s_" + own + "_FieldIdx_" + m.first + ":"); chk(k != std::string::npos, "member-handled", m.first);
                if (k != std::string::npos) { Text r = c.sub(k, c.find("return;", k)); chk(r.has("handler->handle_" + m.first + "(" + v + "_accessField_" + m.first + "(field));"), "member-handled", m.first); }
            }
        }
        if (typed && kind == KInt && present) chk(h.has("typedef " + std::string(type->cpp) + " " + v + "_ValueType;"), "value-type", v);
        std::set<std::string> mm; for (auto& f : functions(mh, false)) if (starts(f.name, "s_message_M1_field_")) mm.insert(f.name.substr(19));
        sameNames(namesOf(msgMembers), mm, "field-missing", "field-extra");
        Text mi = o.file("include/cc_c/s/MsgId.h").bare();
        Elems bi, want; { size_t b = mi.find("{", mi.find("typedef enum")); enumerators(mi.sub(b + 1, matching(mi.s, b)), bi); }
        for (auto& e : a.msgIds) want.push_back({"s_" + e.first, e.second});
        sameElems(want, bi, "message-id-missing", "message-id-extra", "message-id-number");
    }
    else {
        bool em = app == Emscripten;
        Text h = o.file(em ? "include/cc_emscripten/s/" + file + ".h" : "include/s/" + file + ".h").bare(), code = em ? o.file("cc_emscripten/s/" + file + ".cpp").bare() : o.file("s.i").bare();
        Text mh = o.file(em ? "include/cc_emscripten/s/message/M1.h" : "include/s/message/M1.h").bare();
        auto ms = methods(classBody(h, val));
        Text cb = em ? Text() : classBody(code, val);
        auto cms = methods(cb);
        // every method of the implementation calls what it is named after
        for (auto& m : em ? ms : cms) {
            if (m.body.empty()) continue;
            std::string n = m.name; if (ends(n, "_")) n.pop_back();
            bool fam = false; for (auto p : {"value", "is", "set", "getBitValue", "field_", "initField_", "accessField_", "refresh", "length", "valid", "name", "getValue", "does", "getMode"}) fam |= starts(n, p);
            if (!fam || n == "valueNameOf" || ends(n, "Constant")) continue;
            chk(m.body.find("Base::" + n + "(") != std::string::npos || (m.name != n && m.body.find("(&" + n + "())") != std::string::npos), "calls-its-own", val + "::" + m.name);
        }
        std::map<std::string, std::set<std::string>> bound;      // emscripten: what is bound
        Elems values, bits;
        if (em) {
            Text cls = bodyOf(code, "EMSCRIPTEN_BINDINGS(" + val + ")");
            chk(!present || !cls.empty(), "bound", val);
            for (std::string kw : {".function(\"", ".class_function(\""})
                for (size_t p = cls.find(kw); p != std::string::npos; p = cls.find(kw, p + 1)) {
                    std::string n = wordAt(cls, p + kw.size());
                    size_t q = cls.find("&", p);
                    std::string to; for (size_t i = q + 1; i < cls.s.size() && (wordCh(cls.s[i]) || cls.s[i] == ':'); ++i) to += cls.s[i];
                    if (!starts(to, val + "::")) continue;      // of the vector of elements
                    std::string want = val + "::" + n;
                    chk(to == want || to == want + "_", "binds-its-own", n + " to " + to);
                    const Method* m = method(ms, to == want ? n : n + "_");
                    chk(m != nullptr, "binds-what-is-there", to);
                    if (m) chk((m->ret.find("static") != std::string::npos) == (kw[1] == 'c'), "binds-static", n);
                    bound[kw].insert(n);
                }
            for (size_t p = cls.find("emscripten::enum_<"); p != std::string::npos; p = cls.find("emscripten::enum_<", p + 1)) {
                size_t g = cls.find(">", p);
                std::string of = cls.s.substr(p + 18, g - p - 18);
                bool isVal = of == val + "::ValueType";
                chk(isVal || of == val + "::BitIdx", "binds-its-own", of);
                size_t end = cls.find(";", p);
                for (size_t q = cls.find(".value(\"", p); q < end; q = cls.find(".value(\"", q + 1)) {
                    std::string n = wordAt(cls, q + 8);
                    size_t k = q + 8 + n.size() + 3;
                    std::string to; for (; wordCh(cls.s[k]) || cls.s[k] == ':'; ++k) to += cls.s[k];
                    chk(to == (isVal ? of + "::" + n : val + "::BitIdx_" + n) || (!isVal && n == "BitIdx_numOfValues" && to == val + "::" + n), "binds-its-own", n + " to " + to);
                    (isVal ? values : bits).push_back({n, Text()});
                }
            }
        }
        else {
            Text cls = classBody(h, val);
            for (std::string kw : {"enum class ValueType", "enum BitIdx"}) {
                size_t p = cls.find(kw);
                if (p == std::string::npos) continue;
                size_t b = cls.find("{", p);
                enumerators(cls.sub(b + 1, matching(cls.s, b)), kw[5] == 'c' ? values : bits);
            }
        }
        auto dropped = [&](std::set<std::string> s) { if (!em) return s; std::set<std::string> r; for (auto& x : s) r.insert(ends(x, "_") ? x.substr(0, x.size() - 1) : x); return r; };
        if (kind == KEnum) {
            Elems want;
            for (auto& e : a.values) if (!em || (e.first != "FirstValue" && e.first != "LastValue" && e.first != "firstValue" && e.first != "lastValue")) want.push_back(e);
            // (types wider than long are warned of)
            bool wide = em && ends(type->cpp, "64_t") && values.empty();
            sameElems(wide ? Elems() : want, values, "enum-value-missing", "enum-value-extra", em ? nullptr : "enum-number");
            if (!em && present) chk(h.has("enum class ValueType : " + std::string(type->swig) + "\n"), "value-type", val);
            if (!em && present) { chk(h.has("valueNameOf(" + std::string(type->swig) + " val)") && code.has("valueNameOf(" + std::string(type->swig) + " val)"), "value-type", "valueNameOf"); }
        }
        if (kind == KInt || kind == KFloat) {
            std::set<std::string> vs, is, set;
            for (auto& m : ms) { if (starts(m.name, "value") && m.name != "value") vs.insert(m.name.substr(5)); if (starts(m.name, "is")) is.insert(m.name.substr(2)); if (starts(m.name, "set") && m.name != "setValue") set.insert(m.name.substr(3)); }
            sameNames(a.specials, vs, "special-missing", "special-extra"); sameNames(a.specials, is, "special-is", "special-is"); sameNames(a.specials, set, "special-set", "special-set");
            if (em) for (auto& s : a.specials) chk(bound[".class_function(\""].count("value" + s) && bound[".function(\""].count("is" + s) && bound[".function(\""].count("set" + s), "special-bound", s);
            if (!em && present && kind == KInt) chk(classBody(h, val).has("using ValueType = " + std::string(type->swig) + ";"), "value-type", val);
        }
        if (kind == KSet) {
            Elems want, lb = a.bits;
            for (auto& e : lb) want.push_back({em ? e.first : "BitIdx_" + e.first, e.second});
            if (present) want.push_back({"BitIdx_numOfValues", Text()});
            sameElems(want, bits, "bit-missing", "bit-extra", em ? nullptr : "bit-index");
            sameNames(namesOf(lb), with(ms, "getBitValue_"), "bit-get", "bit-get"); sameNames(namesOf(lb), with(ms, "setBitValue_"), "bit-set", "bit-set");
            if (em) for (auto& b : lb) chk(bound[".function(\""].count("getBitValue_" + b.first) && bound[".function(\""].count("setBitValue_" + b.first), "bit-bound", b.first);
        }
        if (kind == KBundle || kind == KBitfield) {
            sameNames(namesOf(a.members), dropped(with(ms, "field_")), "member-missing", "member-extra");
            if (em) for (auto& b : a.members) chk(bound[".function(\""].count("field_" + b.first) != 0, "member-bound", b.first);
            else sameNames(namesOf(a.members), with(cms, "field_"), "member-missing", "member-extra");
        }
        if (kind == KVariant) {
            auto& im = em ? ms : cms;
            for (auto pre : {"initField_", "accessField_"}) {
                sameNames(namesOf(a.members), with(ms, pre), "member-missing", "member-extra");
                sameNames(namesOf(a.members), with(im, pre), "member-missing", "member-extra");
                if (em) for (auto& b : a.members) chk(bound[".function(\""].count(pre + b.first) != 0, "member-bound", b.first);
            }
            sameNames(namesOf(a.members), with(methods(classBody(h, own + "_Handler")), "handle_"), "member-missing", "member-extra");
            const Method* ex = method(im, "currentFieldExec");
            chk(ex != nullptr, "member-handled", "currentFieldExec");
            if (ex) for (unsigned i = 0; i < a.members.size(); ++i) chk(ex->body.find("case " + std::to_string(i) + ": handler.handle_" + a.members[i].first + "(accessField_" + a.members[i].first + "()); break;") != std::string::npos, "member-handled", a.members[i].first);
        }
        auto mm = methods(classBody(mh, "message_M1"));
        sameNames(namesOf(msgMembers), dropped(with(mm, "field_")), "field-missing", "field-extra");
        Elems bi;
        if (em) {
            Text b = o.file("cc_emscripten/s/MsgId.cpp").bare();
            std::set<std::string> got, want;
            for (size_t q = b.find(".value(\""); q != std::string::npos; q = b.find(".value(\"", q + 1)) {
                std::string n = wordAt(b, q + 8);
                got.insert("MsgId_" + n);
                chk(b.s.compare(q + 8 + n.size(), 3 + 9 + n.size() + 1, "\", s::MsgId_" + n + ")") == 0, "binds-its-own", n);
            }
            sameNames(namesOf(a.msgIds), got, "message-id-missing", "message-id-extra");
        }
        else {
            Text mi = o.file("include/s/MsgId.h").bare();
            size_t b = mi.find("{", mi.find("enum MsgId")); enumerators(mi.sub(b + 1, matching(mi.s, b)), bi);
            sameElems(a.msgIds, bi, "message-id-missing", "message-id-extra", "message-id-number");
        }
    }
    sxn_reach(present ? KindTags[kind] : "not there");
    sxn_reach(app == C ? "c" : app == Emscripten ? "emscripten" : "swig");
}
