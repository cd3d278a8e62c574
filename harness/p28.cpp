// Customization options: what the generated classes ask for is what the options structures define.
#include "gen.h"
#include "forms.h"
#include "cpp.h"
#include "CommsGenerator.h"
#include "CommsProgramOptions.h"
#include <algorithm>
#include <set>

void sx_prepare() {}
typedef Gen<commsdsl2comms::CommsGenerator, commsdsl2comms::CommsProgramOptions> CommsGen;
static bool has(const std::string& s, const char* w) { return s.find(w) != std::string::npos; }
static bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
static bool ends(const std::string& s, const std::string& p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
static std::string join(const std::vector<std::string>& v, size_t from = 0) { std::string r; for (size_t i = from; i < v.size(); ++i) if (!v[i].empty()) r += (r.empty() ? "" : "::") + v[i]; return r; }

// a declaration of the generated code: struct, class or alias, what it is defined as (bases or aliased type) and where
struct Decl { std::string file, scope, name, kind, text; std::string path() const { return scope.empty() ? name : scope + "::" + name; } };
static void scan(const std::string& file, const std::string& s, std::vector<Decl>& out)
{
    struct Open { std::string name; };
    std::vector<std::string> scopes; std::string kind, name; size_t from = 0; int angle = 0, round = 0; bool head = false;
    auto word = [&](char c) { return wordCh(c); };
    auto reset = [&]() { kind.clear(); name.clear(); angle = round = 0; head = false; };
    for (size_t i = 0; i < s.size(); ) {
        char c = s[i];
        if (c == '#' && (i == 0 || s[i - 1] == '\n')) { while (i < s.size() && s[i] != '\n') { if (s[i] == '\\' && i + 1 < s.size()) ++i; ++i; } continue; }
        if (s.compare(i, 2, "//") == 0) { while (i < s.size() && s[i] != '\n') ++i; continue; }
        if (s.compare(i, 2, "/*") == 0) { i = s.find("*/", i); if (i == std::string::npos) return; i += 2; continue; }
        if (c == '"') { ++i; while (i < s.size() && s[i] != '"') i += s[i] == '\\' ? 2 : 1; ++i; continue; }
        if (c == '\'') { ++i; while (i < s.size() && s[i] != '\'') i += s[i] == '\\' ? 2 : 1; ++i; continue; }
        if (word(c)) {
            size_t e = i; while (e < s.size() && word(s[e])) ++e;
            std::string w = s.substr(i, e - i);
            if (kind.empty() && !head && round == 0 && angle == 0 && (w == "namespace" || w == "struct" || w == "class" || w == "using" || w == "enum")) {
                kind = w; size_t b = s.find_first_not_of(" \n", e);
                if (b != std::string::npos && word(s[b])) {
                    size_t n = b; while (n < s.size() && word(s[n])) ++n;
                    name = s.substr(b, n - b); e = n;
                    if (w == "enum" && name == "class") { b = s.find_first_not_of(" \n", e); n = b; while (word(s[n])) ++n; name = s.substr(b, n - b); e = n; }
                }
                from = e;
            }
            else if (kind.empty() && w != "template" && w != "typename" && angle == 0 && w != "public" && w != "private" && w != "protected") head = true;
            i = e; continue;
        }
        if (c == '<') ++angle;
        else if (c == '>') { if (angle) --angle; }
        else if (c == '(') ++round;
        else if (c == ')') --round;
        else if (c == '{') {
            bool scope = kind == "namespace" || kind == "struct" || kind == "class";
            if (kind == "struct" || kind == "class" || kind == "enum") out.push_back({file, join(scopes), name, kind, s.substr(from, i - from)});
            if (kind == "using" || (!scope && kind != "enum")) {        // body of a function, an initializer
                int d = 0; for (; i < s.size(); ++i) { if (s[i] == '{') ++d; else if (s[i] == '}' && --d == 0) break; else if (s[i] == '"') { ++i; while (s[i] != '"') i += s[i] == '\\' ? 2 : 1; } }
                if (kind != "using") reset();
            }
            else { scopes.push_back(kind == "enum" ? "" : name); reset(); }
        }
        else if (c == '}') { if (!scopes.empty()) scopes.pop_back(); reset(); }
        else if (c == ';') {
            if (kind == "using" && !name.empty()) out.push_back({file, join(scopes), name, kind, s.substr(from, i - from)});
            reset();
        }
        else if (c == ':' && kind.empty() && i + 1 < s.size() && s[i + 1] != ':' && (i == 0 || s[i - 1] != ':')) head = false;
        ++i;
    }
}
// scopes used below T, as in "T::a::b"
static std::vector<std::string> uses(const std::string& s, const std::string& t)
{
    std::vector<std::string> r;
    for (size_t p = s.find(t + "::"); p != std::string::npos; p = s.find(t + "::", p + 1)) {
        if (p && (wordCh(s[p - 1]) || s[p - 1] == ':')) continue;
        size_t b = p + t.size() + 2, e = b;
        while (e < s.size() && (wordCh(s[e]) || (s.compare(e, 2, "::") == 0) || (s[e] == ':' && s[e - 1] == ':'))) ++e;
        r.push_back(s.substr(b, e - b));
    }
    return r;
}
static void say(const std::string& a, const std::string& b) { if (sxn_replaying()) std::printf("  %s: %s\n", a.c_str(), b.c_str()); }

enum Level { Default, Full, Limited, None };
static unsigned level;
static unsigned sender;                        // of message M1
static std::string marked;                     // field with the "customizable" property

static std::string fieldsOf(std::string& where)
{
    unsigned f = sx::choice("form", sizeof(Forms) / sizeof(*Forms));
    unsigned w = sx::choice("where", sizeof(Wheres) / sizeof(*Wheres));
    unsigned mark = sx::choice("customizable", 2); sender = sx::choice("sender", 3);
    if (!sxn_thorough() && sender != 0 && (w != 0 || mark)) return "";
    if (!sxn_thorough() && mark && (level == Full || level == Limited)) return "";
    std::string n = sx::dec(sx::range("number", 1, 8));
    std::string x = form(f, "X", n), glob = "<int name=\"G\" type=\"uint8\"/><enum name=\"U\" type=\"uint8\"><validValue name=\"V\" val=\"1\"/></enum>", inMsg, inIface, layer, ns = "<fields><bundle name=\"H\">" MEM "</bundle></fields>", used = "<ref name=\"ru\" field=\"U\"/><ref name=\"rg\" field=\"G\"/><ref name=\"rh\" field=\"n.H\"/>";
    if (mark) { x.insert(x.find(' '), " customizable=\"true\""); marked = "X"; }
    where = Wheres[w];
    unsigned since = w == 0 || w == 3 ? sx::choice("versions", 2) : 0;
    if (since) { x.insert(x.find(' '), " sinceVersion=\"" + sx::dec(sx::range("since", 1, 9)) + "\""); inIface = "<fields><int name=\"v\" type=\"uint8\" semanticType=\"version\"/></fields>"; }
    switch (w) {
    case 0: inMsg = x; break;
    case 1: glob += x; break;
    case 2: glob += x; inMsg = "<ref name=\"R\" field=\"X\"/>"; break;
    case 3: inMsg = "<bundle name=\"B\"><members>" + x + "<int name=\"after\" type=\"uint8\"/></members></bundle>"; break;
    case 4: inMsg = "<list name=\"L\" count=\"3\"><element>" + x + "</element></list>"; break;
    case 5: inMsg = "<optional name=\"O\"><field>" + x + "</field></optional>"; break;
    case 6: inMsg = "<variant name=\"V\"><members>" + x + "<int name=\"after\" type=\"uint8\"/></members></variant>"; break;
    case 7: inIface = "<fields>" + x + "</fields>"; break;
    case 8: layer = "<custom name=\"cl\">" + x + "</custom>"; break;
    case 9: ns = "<fields><bundle name=\"H\">" MEM "</bundle>" + x + "</fields>"; inMsg = "<ref name=\"R\" field=\"n.X\"/>"; break;
    }
    static const char* const S[] = {"", " sender=\"client\"", " sender=\"server\""};
    return "<fields>" + glob + "</fields><ns name=\"n\">" + ns + "</ns>" + tag("interface", attr("name", "I"), inIface) + "<message name=\"M1\" id=\"1\"" + S[sender] + "><fields>" + inMsg + "</fields></message>"
        + "<ns name=\"n\"><message name=\"M2\" id=\"2\"><fields>" + used + "</fields></message></ns><frame name=\"Fr\"><layers><id name=\"i\"><int name=\"lf\" type=\"uint8\"/></id>" + layer + "<payload name=\"d\"/></layers></frame>";
}
static std::string layers()
{
    unsigned k = sx::choice("layer", 9), ext = sx::choice("field", 4), where = sx::choice("place", 3);
    std::string n = sx::dec(sx::range("number", 1, 8));
    std::string f = ext == 0 ? "<int name=\"x\" type=\"uint16\" defaultValue=\"" + n + "\"/>" : ext == 1 ? "<field><ref field=\"G\" name=\"x\"/></field>" : ext == 2 ? "" : "<bundle name=\"x\"><members><int name=\"m1\" type=\"uint8\" validValue=\"" + n + "\"/></members></bundle>";
    std::string a = ext == 2 ? attr("field", "G") : "";
    auto lay = [&](const char* t, const char* name, const std::string& extra) { return tag(t, attr("name", name) + extra + a, f); };
    if (ext == 3 && k != 2) return "";          // only a sync prefix may be of any kind
    std::string id = ext == 3 ? "<id name=\"ID\"><int name=\"x\" type=\"uint8\"/></id>" : lay("id", "ID", ""), pl = "<payload name=\"PL\"/>", l;
    switch (k) {
    case 0: l = id + pl; break;
    case 1: l = lay("size", "SZ", "") + id + pl; break;
    case 2: l = lay("sync", "SY", "") + id + pl; break;
    case 3: l = lay("size", "SZ", "") + id + pl + lay("checksum", "CS", " alg=\"crc-ccitt\" from=\"SZ\""); break;
    case 4: l = lay("checksum", "CS", " alg=\"sum\" until=\"PL\"") + id + pl; break;
    case 5: l = lay("value", "VL", " interfaceFieldName=\"v\"") + id + pl; break;
    case 6: l = id + "<payload name=\"PL\"><data name=\"Y\" defaultValue=\"0" + n + "\"/></payload>"; break;
    case 7: l = lay("custom", "CL", " idReplacement=\"true\"") + pl; break;
    case 8: l = lay("custom", "CL", "") + id + pl; break;
    }
    std::string m = "<message name=\"M1\" id=\"1\"/>", fr = "<frame name=\"Fr\"><layers>" + l + "</layers></frame>";
    return "<fields><int name=\"G\" type=\"uint16\"/></fields>" + tag("interface", attr("name", "I"), "<fields><int name=\"v\" type=\"uint16\"/></fields>")
        + (where == 0 ? m + fr : where == 1 ? m + "<ns name=\"n\">" + fr + "</ns>" : "<ns name=\"n\">" + fr + "<ns name=\"k\">" + m + "</ns></ns>");
}
static std::string several(std::vector<std::string>& docs, std::vector<std::string>& args)
{
    unsigned second = sx::choice("second schema", 3), extra = sx::choice("bundle", 2), plat = sx::choice("platforms", 2), ns = sx::choice("namespace", 2), st = sx::choice("structure", 4);
    std::string id1 = sx::dec(sx::range("id", 1, 9));
    if (ns) { args.push_back("-n"); args.push_back("sx"); }
    if (extra) { args.push_back("--extra-messages-bundle"); args.push_back("Ex@" + std::string(__FILE__).substr(0, std::string(__FILE__).rfind('/')) + "/bundle.txt"); }
    if (second) args.push_back("-s");
    if (second) docs.push_back(sx::xml("t.xml", "<schema name=\"t\" version=\"9\" endian=\"big\"><fields><bundle name=\"Z\"><members><string name=\"q\" length=\"" + id1 + "\"/></members></bundle></fields>" + (second == 2 ? "<ns name=\"tn\"><fields><data name=\"Y\"/></fields></ns>" : "") + "</schema>"));
    std::string z = !second ? "" : second == 1 ? "<fields><ref field=\"@t.Z\" name=\"z\"/></fields>" : "<fields><ref field=\"@t.tn.Y\" name=\"z\"/><ref field=\"@t.Z\" name=\"z2\"/></fields>";
    sender = 1;
    std::string m1 = tag("message", attr("name", "M1") + attr("id", id1) + " sender=\"client\"", z), m2 = "<message name=\"M2\" id=\"20\"><fields><string name=\"f\"/></fields></message>", f = "<frame name=\"Fr\"><layers><size name=\"sz\"><int name=\"x\" type=\"uint8\"/></size><id name=\"i\"><int name=\"x\" type=\"uint8\"/></id><payload name=\"d\"/></layers></frame>", i = tag("interface", attr("name", "I"), "");
    std::string b = plat ? "<platforms><platform name=\"p1\"/></platforms>" : "";
    switch (st) {
    case 0: return b + i + m1 + m2 + f;
    case 1: return b + i + m1 + "<ns name=\"a\">" + m2 + f + "<ns name=\"c\">" + f + "</ns></ns>";
    case 2: return b + "<ns name=\"a\">" + i + m1 + "<ns name=\"c\">" + m2 + f + "</ns></ns>";
    default: return b + "<ns name=\"a\">" + i + m1 + f + "</ns><ns name=\"c\">" + i + m2 + f + "</ns>";
    }
}

void sx_harness()
{
    marked.clear(); sender = 0;
    std::vector<std::string> args, docs;
    unsigned scenario = sx::choice("scenario", 3);
    level = sx::choice("level", 4);
    unsigned force = sx::choice("namespace in options", 2);
    if (!sxn_thorough() && force && level != Full) return;
    static const char* const L[] = {"", "full", "limited", "none"};
    if (level) { args.push_back("--customization"); args.push_back(L[level]); }
    if (force) args.push_back("--force-main-ns-in-options");
    std::string where;
    std::string body = scenario == 0 ? fieldsOf(where) : scenario == 1 ? layers() : several(docs, args);
    if (body.empty()) return;
    docs.push_back(sx::xml("s.xml", schema(body, "", "9")));
    CommsGen g; g.dir = "lib"; g.first = true; g.paths = docs;
    g.run("commsdsl2comms", args);
    if (g.rc != 0) { sxn_reach("refused"); return; }
    std::vector<Decl> code, opts;
    for (size_t k = 0; k < g.names.size(); ++k) {
        auto& f = g.names[k];
        if (!starts(f, "include/") || !ends(f, ".h")) continue;
        Text t(std::string(sxn_vfs_text(g.index[k]), sxn_vfs_size(g.index[k])));
        scan(f, t.s, has(f, "/options/") ? opts : code);
    }
    auto inside = [&](const Decl& d, std::string& root, std::string& rel) {
        size_t p = d.scope.find("::options");
        if (p == std::string::npos) return false;
        std::string rest = p + 9 >= d.scope.size() ? "" : d.scope.substr(p + 11);
        if (rest.empty()) { root = d.name; rel.clear(); return true; }
        size_t q = rest.find("::");
        root = rest.substr(0, q); rel = q == std::string::npos ? "" : rest.substr(q + 2);
        rel += (rel.empty() ? "" : "::") + d.name;
        return true;
    };
    std::map<std::string, std::map<std::string, const Decl*>> trees;    // file -> path -> declaration
    unsigned twice = 0, outside = 0;
    for (auto& d : opts) {
        std::string root, rel;
        if (!inside(d, root, rel)) { ++outside; say("outside", d.path()); continue; }
        if (rel.empty()) continue;
        auto& t = trees[d.file];
        if (t.count(rel)) { ++twice; say(d.file + " twice", rel); }
        t[rel] = &d;
    }
    sxn_assert(twice == 0, "defined-once");
    sxn_assert(outside == 0, "options-structure");
    // every derived structure extends what it replaces
    for (auto& t : trees) {
        bool base = ends(t.first, "/DefaultOptions.h");
        std::string dir = t.first.substr(0, t.first.rfind('/') + 1);
        auto& d0 = trees[dir + "DefaultOptions.h"];
        for (auto& e : t.second) {
            auto& d = *e.second;
            if (base) {
                bool ok = d.kind == "struct" ? !has(d.text, ":") : has(d.text, "comms::option::app::EmptyOption");
                if (!ok) say(t.first, e.first);
                sxn_assert(ok, "default-is-empty");
                continue;
            }
            auto u = uses(d.text, "TBase");
            if (ends(d.name, "MsgFactory") && e.first == d.name) continue;
            bool own = u.size() == 1 && u[0] == e.first, there = d0.count(e.first) && d0[e.first]->kind == d.kind;
            if (!own) say(t.first + " " + e.first + " extends", u.empty() ? "" : u[0]);
            if (!there) say(t.first + " not in the default options", e.first);
            sxn_assert(own, "extends-what-it-replaces");
            sxn_assert(there, "overrides-existing-option");
            for (size_t p = d.text.find("MsgFactoryTempl<"); p != std::string::npos; p = d.text.find("MsgFactoryTempl<", p + 1)) {
                size_t b = p + 16, q = b; while (wordCh(d.text[q])) ++q;
                std::string fac = d.text.substr(b, q - b);
                bool ok = t.second.count(fac);
                if (!ok) say(t.first + " no factory", fac);
                sxn_assert(ok, "factory-defined");
            }
        }
    }
    // what the code asks for exists, and is its own
    bool nsIn = force || docs.size() > 1;
    std::string mainNs = args.size() && std::find(args.begin(), args.end(), "-n") != args.end() ? "sx" : "s";
    std::map<std::string, const Decl*> byPath;
    for (auto& d : code) byPath[d.path()] = &d;
    auto mainOf = [&](const Decl& d) { return starts(d.scope + "::", mainNs + "::") ? mainNs : std::string("t"); };
    auto optOf = [&](const Decl& d) {                           // its path in the options
        std::string p = d.path();
        return nsIn ? p : p.substr(mainOf(d).size() + 2);
    };
    auto treeOf = [&](const Decl& d, const char* which) -> std::map<std::string, const Decl*>& {
        std::string dir = mainOf(d); for (size_t q; (q = dir.find("::")) != std::string::npos; ) dir.replace(q, 2, "/");
        return trees["include/" + dir + "/options/" + which + "DefaultOptions.h"];
    };
    // kind of a field class: the COMMS class it is based on, of the field it refers to for references
    auto baseOf = [&](const Decl& d) {
        size_t p = d.text.find("public"); p = p == std::string::npos ? 0 : p + 6;
        while (p < d.text.size() && !wordCh(d.text[p])) ++p;
        size_t q = p; while (q < d.text.size() && (wordCh(d.text[q]) || d.text[q] == ':')) ++q;
        return d.text.substr(p, q - p);
    };
    // fields that do not exist in every version are "XField" in an optional "X" and use the options of "X"
    auto isWrapper = [&](const Decl& d) { return has(d.text, "comms::field::Optional<") && has(d.text, (d.name + "Field").c_str()) && byPath.count(d.path() + "Field"); };
    auto wrapperOf = [&](const Decl& d) -> const Decl& {
        std::string p = d.path();
        if (!ends(p, "Field")) return d;
        auto w = byPath.find(p.substr(0, p.size() - 5));
        return w != byPath.end() && isWrapper(*w->second) ? *w->second : d;
    };
    std::function<bool(const Decl&)> expected = [&](const Decl& e) {
        auto& d = wrapperOf(e);
        if (level == Full || d.name == marked || d.name == "Field") return true;   // "Field": generated payload of a frame
        std::string b = baseOf(e);
        if (level != None && (b == "comms::field::String" || b == "comms::field::ArrayList")) return true;
        return byPath.count(b) && level != None && expected(*byPath[b]);
    };
    unsigned fields = 0;
    for (auto& d : code) {
        auto u = uses(d.text, "TOpt");
        bool alias = d.name == "Base" && byPath.count(d.scope);
        const Decl& of = wrapperOf(alias ? *byPath[d.scope] : d);
        std::string own = optOf(of);
        bool foreign = false, missing = false;
        for (auto& x : u) { foreign |= x != own; missing |= !treeOf(of, "").count(x); }
        if (foreign) say("not its own", d.path() + " " + u[0]);
        if (missing) say("not defined", d.path() + " " + u[0]);
        sxn_assert(!foreign, "own-option");
        sxn_assert(!missing, "option-defined");
        std::string b = baseOf(d);
        bool field = d.kind != "using" && !has(d.path(), "Common") && (starts(b, "comms::field::") || (byPath.count(b) && has(b, "::field::")));
        bool inIface = starts(optOf(d), nsIn ? mainNs + "::IFields::" : "IFields::");
        if (inIface && has(d.text, "TOpt")) say("no TOpt here", d.path());
        sxn_assert(!inIface || !has(d.text, "TOpt"), "interface-fields-not-templates");
        if (field) {
            ++fields;
            bool want = !inIface && !isWrapper(d) && expected(d);
            if (u.empty() == want) say("option of " + b, d.path());
            sxn_assert(u.empty() != want, "level");
            bool text = b == "comms::field::String", list = b == "comms::field::ArrayList", raw = list && has(d.text, "std::uint8_t,");
            auto& bt = treeOf(d, "BareMetal"); auto& vt = treeOf(d, "DataView");
            auto* bo = bt.count(own) ? bt[own] : nullptr; auto* vo = vt.count(own) ? vt[own] : nullptr;
            bool fixed = has(d.text, "SequenceFixedSize<");
            const char* w = fixed ? "SequenceFixedSizeUseFixedSizeStorage" : "FixedSizeStorage<DEFAULT_SEQ_FIXED_STORAGE_SIZE";
            bool bareOk = isWrapper(d) || (want && (text || list) ? bo && has(bo->text, w) : !bo);
            bool viewOk = isWrapper(d) || (want && (text || raw) ? vo && has(vo->text, "OrigDataView") : !vo);
            if (!bareOk) say("bare metal", d.path());
            if (!viewOk) say("data view", d.path());
            sxn_assert(bareOk, "bare-metal");
            sxn_assert(viewOk, "data-view");
        }
        if (d.kind == "using" && starts(b, "comms::frame::")) {
            bool id = b == "comms::frame::MsgIdLayer";
            sxn_assert(!id || !u.empty(), "layer-option");
            auto& bt = treeOf(d, "BareMetal");
            sxn_assert(!id || (bt.count(own) && has(bt[own]->text, "InPlaceAllocation")), "bare-metal-allocation");
        }
        if (d.kind == "class" && b == "comms::MessageBase") {
            unsigned from = d.name == "M1" ? sender : 0;
            bool want = level == Full || (from && level != None);
            if (u.empty() == want) say("message option", d.path());
            sxn_assert(u.empty() != want, "message-level");
            for (unsigned side = 1; side < 3; ++side) {
                auto& t = treeOf(d, side == 1 ? "Client" : "Server");
                const char* a = from == side ? "NoReadImpl" : "NoWriteImpl"; const char* z = from == side ? "NoDispatchImpl" : "NoRefreshImpl";
                bool ok = want && from ? t.count(own) && has(t[own]->text, a) && has(t[own]->text, z) && !has(t[own]->text, from == side ? "NoWriteImpl" : "NoReadImpl") : !t.count(own);
                if (!ok) say(side == 1 ? "client options" : "server options", d.path());
                sxn_assert(ok, "direction");
            }
        }
    }
    sxn_assert(fields > 0, "fields");
    sxn_reach("done");
}
