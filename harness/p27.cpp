// Closed output of every generator: each ends with success or a reported error, and what it writes refers only to what is there.
#include "gen.h"
#include "forms.h"
#include "CommsGenerator.h"
#include "CommsProgramOptions.h"
#include "CGenerator.h"
#include "CProgramOptions.h"
#include "EmscriptenGenerator.h"
#include "EmscriptenProgramOptions.h"
#include "LatexGenerator.h"
#include "LatexProgramOptions.h"
#include "SwigGenerator.h"
#include "SwigProgramOptions.h"
#include "TestGenerator.h"
#include "TestProgramOptions.h"
#include "ToolsQtGenerator.h"
#include "ToolsQtProgramOptions.h"
#include <algorithm>
#include <set>

void sx_prepare() {}
struct Out { int rc; std::vector<std::string> names; std::vector<unsigned> index; };
template <typename G, typename O>
static Out go(const char* app, const std::vector<std::string>& docs, const std::vector<std::string>& args, const char* dir, bool first)
{
    Gen<G, O> g; g.dir = dir; g.first = first; g.paths = docs;
    g.run(app, args);
    return Out{g.rc, g.names, g.index};
}
enum App { Comms, C, Emscripten, Latex, Swig, Test, ToolsQt, NumApps };
static const char* const AppNames[] = {"comms", "c", "emscripten", "latex", "swig", "test", "tools_qt"};
static Out go(unsigned app, const std::vector<std::string>& docs, const std::vector<std::string>& args, const char* dir, bool first)
{
    switch (app) {
    case Comms: return go<commsdsl2comms::CommsGenerator, commsdsl2comms::CommsProgramOptions>("commsdsl2comms", docs, args, dir, first);
    case C: return go<commsdsl2c::CGenerator, commsdsl2c::CProgramOptions>("commsdsl2c", docs, args, dir, first);
    case Emscripten: return go<commsdsl2emscripten::EmscriptenGenerator, commsdsl2emscripten::EmscriptenProgramOptions>("commsdsl2emscripten", docs, args, dir, first);
    case Latex: return go<commsdsl2latex::LatexGenerator, commsdsl2latex::LatexProgramOptions>("commsdsl2latex", docs, args, dir, first);
    case Swig: return go<commsdsl2swig::SwigGenerator, commsdsl2swig::SwigProgramOptions>("commsdsl2swig", docs, args, dir, first);
    case Test: return go<commsdsl2test::TestGenerator, commsdsl2test::TestProgramOptions>("commsdsl2test", docs, args, dir, first);
    default: return go<commsdsl2tools_qt::ToolsQtGenerator, commsdsl2tools_qt::ToolsQtProgramOptions>("commsdsl2tools_qt", docs, args, dir, first);
    }
}
static unsigned scenario, app, frames, ifaces;
static bool dep;        // a schema other than the last has messages
static void chk(bool c, const char* key)
{
    if (!dep) { sxn_assert(c, key); return; }
    if (!c) { static std::string k; k = std::string("messages-of-another-schema:") + AppNames[app] + ":" + key; sxn_fail(k.c_str()); }
}
static bool has(const std::vector<std::string>& v, const std::string& s) { return std::binary_search(v.begin(), v.end(), s); }
static bool starts(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
static bool ends(const std::string& s, const char* p) { size_t n = strlen(p); return s.size() >= n && s.compare(s.size() - n, n, p) == 0; }
static std::string normal(const std::string& p)
{
    std::vector<std::string> r; std::string c;
    for (size_t i = 0; i <= p.size(); ++i) {
        if (i < p.size() && p[i] != '/') { c += p[i]; continue; }
        if (c == "..") { if (!r.empty()) r.pop_back(); }
        else if (!c.empty() && c != ".") r.push_back(c);
        c.clear();
    }
    std::string o; for (auto& x : r) o += (o.empty() ? "" : "/") + x;
    return o;
}
static std::string upDir(const std::string& f) { size_t p = f.rfind('/'); return p == std::string::npos ? "" : f.substr(0, p + 1); }
static std::string text(const Out& o, size_t k) { return std::string(sxn_vfs_text(o.index[k]), sxn_vfs_size(o.index[k])); }
static void say(unsigned app, const std::string& f, const std::string& x) { if (sxn_replaying()) std::printf("  %s: %s -> %s\n", AppNames[app], f.c_str(), x.c_str()); }

// ---- the documents
static const char* const Open[] = {"", "<ns name=\"n1\">", "<ns name=\"n1\"><ns name=\"n2\">", "<ns name=\"n3\">"};
static const char* const Shut[] = {"", "</ns>", "</ns></ns>", "</ns>"};
static const char* const Frame = "<frame name=\"F\"><id name=\"i\"><int name=\"x\" type=\"uint8\"/></id><payload name=\"d\"/></frame>";

struct Msg { unsigned place; std::string name; };
static std::vector<Msg> ms;
static const char* const Dirs[] = {"", "n1/", "n1/n2/", "n3/"};

// identifiers of a text outside comments and literals: with the previous word, the character before and the one after
struct Word { std::string w, prev; char before, after; bool first; };
template <typename F> static void words(const char* t, size_t n, F f)
{
    std::string prev; char before = ';'; bool first = true;
    for (size_t i = 0; i < n; ) {
        char c = t[i];
        if (c == '\n') { first = true; ++i; continue; }
        if (c == '/' && i + 1 < n && t[i + 1] == '/') { while (i < n && t[i] != '\n') ++i; continue; }
        if (c == '/' && i + 1 < n && t[i + 1] == '*') { i += 2; while (i + 1 < n && !(t[i] == '*' && t[i + 1] == '/')) ++i; i += 2; continue; }
        if (c == '"') { ++i; while (i < n && t[i] != '"') ++i; ++i; before = '"'; prev.clear(); continue; }
        if (isalnum((unsigned char)c) || c == '_') {
            size_t e = i; while (e < n && (isalnum((unsigned char)t[e]) || t[e] == '_')) ++e;
            Word w{std::string(t + i, e - i), prev, before, 0, first};
            size_t k = e; while (k < n && t[k] == ' ') ++k;
            w.after = k < n ? t[k] : 0;
            f(w);
            prev = w.w; before = 'a'; first = false; i = e;
            continue;
        }
        if (c != ' ' && c != '\t') { before = c; if (c != '&' && c != '*' && c != '(') prev.clear(); first = false; }
        ++i;
    }
}
template <typename F> static void words(const Out& o, size_t k, F f) { words(sxn_vfs_text(o.index[k]), sxn_vfs_size(o.index[k]), f); }
static void closed(const Out& o, std::vector<std::string>& have, const std::vector<std::pair<std::string, size_t>>& used, const char* key)
{
    std::sort(have.begin(), have.end());
    std::string bad;
    for (auto& u : used) { if (!has(have, u.first)) { say(app, o.names[u.second], u.first); bad = u.first; } }
    chk(bad.empty(), key);
}
// C: every name of the schema used by headers and sources is declared
static void namesC(const Out& o)
{
    std::vector<std::string> have; std::vector<std::pair<std::string, size_t>> used;
    for (size_t k = 0; k < o.names.size(); ++k) {
        if (!ends(o.names[k], ".h") && !ends(o.names[k], ".cpp")) continue;
        bool type = false, inEnum = false;
        words(o, k, [&](const Word& w) {
            if (w.w == "typedef") type = true;
            if (w.w == "enum") inEnum = true;
            if (w.before == '}') inEnum = false;
            if (!starts(w.w, "s_")) return;
            bool decl = w.prev == "struct" || w.prev == "class" || w.prev == "enum" || ((w.prev == "using" || w.first) && w.after == '=') || (w.after == '(' && (w.before == 'a' || w.before == '*')) || w.before == '}' || (type && w.after == ';');
            decl |= inEnum && w.first && (w.after == ',' || w.after == '=' || w.after == '/' || w.after == '\n');
            if (type && w.after == ';') type = false;
            if (decl) have.push_back(w.w); else used.emplace_back(w.w, k);
        });
    }
    closed(o, have, used, "names-declared");
}
static bool generated(const std::string& w)
{
    for (auto* p : {"field_", "message_", "frame_"}) {
        for (size_t q = w.find(p); q != std::string::npos; q = w.find(p, q + 1)) {
            size_t e = q + strlen(p);
            if ((q == 0 || w[q - 1] == '_') && e < w.size() && w[e] >= 'A' && w[e] <= 'Z') return true;
        }
    }
    return false;
}
// swig and emscripten: every generated class used is declared
static void namesClasses(const Out& o)
{
    for (unsigned part = 0; part < (app == Swig ? 2 : 1); ++part) {
        std::vector<std::string> have; std::vector<std::pair<std::string, size_t>> used;
        for (size_t k = 0; k < o.names.size(); ++k) {
            bool code = ends(o.names[k], ".i");
            if (!code && !ends(o.names[k], ".h") && !ends(o.names[k], ".cpp")) continue;
            if (app == Swig && code != (part == 1)) continue;
            words(o, k, [&](const Word& w) {
                if (w.prev == "rename") return;
                if (!generated(w.w)) return;
                if (starts(w.w, "handle_") || starts(w.w, "eq_") || starts(w.w, "lt_") || starts(w.w, "jsval_") || starts(w.w, "cast_") || starts(w.w, "comms_")) return;
                if (w.prev == "EMSCRIPTEN_BINDINGS") return;
                bool fn = w.after == '(' && (w.before == 'a' || (w.before == '*' && !w.prev.empty())) && w.prev != "return" && w.prev != "new";
                if (w.prev == "class" || w.prev == "struct" || w.prev == "template" || fn || (w.prev == "using" && w.after == '=')) have.push_back(w.w);
                else used.emplace_back(w.w, k);
            });
        }
        closed(o, have, used, "names-declared");
    }
}
static void labels(const Out& o)
{
    std::vector<std::string> have; std::vector<std::pair<std::string, size_t>> used;
    for (size_t k = 0; k < o.names.size(); ++k) {
        if (!ends(o.names[k], ".tex")) continue;
        const char* t = sxn_vfs_text(o.index[k]);
        for (auto* what : {"\\label{", "\\hyperref[", "\\nameref{", "\\ref{"}) {
            for (long p = sxn_vfs_find(o.index[k], 0, what); p >= 0; p = sxn_vfs_find(o.index[k], p + 1, what)) {
                long b = p + strlen(what), e = b;
                while (t[e] != ']' && t[e] != '}' && t[e] != '\n') ++e;
                if (what[1] == 'l') have.emplace_back(t + b, e - b); else used.emplace_back(std::string(t + b, e - b), k);
            }
        }
    }
    closed(o, have, used, "labels-defined");
    std::string twice;
    for (size_t i = 1; i < have.size(); ++i) if (have[i] == have[i - 1]) { twice = have[i]; say(Latex, "label twice", twice); }
    chk(twice.empty(), "labels-unique");
}

// references of one file to others
static void references(unsigned app, const Out& o, const std::vector<std::string>& have, const std::vector<std::string>& lib)
{
    std::vector<std::string> all(o.names); std::sort(all.begin(), all.end());
    static const char* const Inc[] = {"#include \"", "%include \"", "%import \"", "\\input{"};
    std::string cmake; size_t cm = o.names.size();
    for (size_t k = 0; k < o.names.size(); ++k) {
        auto& f = o.names[k];
        if (f == "CMakeLists.txt") { cm = k; cmake = text(o, k); continue; }
        if (starts(f, "doc/")) continue;
        for (auto* what : Inc) {
            if ((what[0] == '\\') != ends(f, ".tex")) continue;
            for (long p = sxn_vfs_find(o.index[k], 0, what); p >= 0; p = sxn_vfs_find(o.index[k], p + 1, what)) {
                const char* t = sxn_vfs_text(o.index[k]);
                if (p > 0 && t[p - 1] != '\n' && t[p - 1] != ' ') continue;
                long b = p + strlen(what), e = b;
                while (t[e] != '"' && t[e] != '}' && t[e] != '\n') ++e;
                std::string i(t + b, e - b);
                if (starts(i, "comms/") || starts(i, "cc_tools_qt/") || starts(i, "std_") || ends(i, ".swg") || starts(i, "cxxtest")) continue;
                if (i == "s/frame/layer/Cl.h") continue; // custom layers are written by the user
                if (app == Swig && ends(i, ".i") && i.find('/') == std::string::npos) continue;
                bool ok = has(all, i) || has(all, "include/" + i) || has(all, normal(upDir(f) + i)) || has(lib, "include/" + i) || (what[0] == '\\' && has(all, i + ".tex"));
                if (!ok) say(app, f, i);
                chk(ok, "includes-resolve");
            }
        }
    }
    chk(cm < o.names.size(), "build-file");
    if (cm == o.names.size()) return;
    // files named by the build
    std::vector<std::string> listed;
    for (size_t i = 0; i < cmake.size(); ) {
        auto w = [](char c) { return c == '/' || c == '.' || c == '_' || c == '$' || c == '{' || c == '}' || c == '-' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); };
        if (cmake[i] == '#') { while (i < cmake.size() && cmake[i] != '\n') ++i; continue; }
        if (!w(cmake[i])) { ++i; continue; }
        size_t e = i; while (e < cmake.size() && w(cmake[e])) ++e;
        std::string x = cmake.substr(i, e - i); i = e;
        if (starts(x, "${CMAKE_CURRENT_SOURCE_DIR}/")) x = x.substr(28);
        if (starts(x, "${PROJECT_SOURCE_DIR}/")) x = x.substr(22);
        if (x.find('$') != std::string::npos || !(ends(x, ".cpp") || ends(x, ".h") || ends(x, ".i") || ends(x, ".tex"))) continue;
        listed.push_back(x);
        if (!has(all, x)) say(app, "CMakeLists.txt", x);
        chk(has(all, x), "build-lists-existing-files");
    }
    std::sort(listed.begin(), listed.end());
    for (size_t k = 1; k < listed.size(); ++k) { if (listed[k] == listed[k - 1] && ends(listed[k], ".cpp")) { say(app, "CMakeLists.txt twice", listed[k]); chk(0, "built-once"); } }
    for (auto& f : all) {
        if (!ends(f, ".cpp")) continue;
        bool in = has(listed, f);
        if (app == Test || (app == ToolsQt && f.find("/plugin/") != std::string::npos)) continue;
        if (!in) say(app, "CMakeLists.txt misses", f);
        chk(in, "sources-built");
    }
}
// a function without the names of its parameters
static std::string signature(const std::string& f)
{
    size_t q = f.find('(');
    std::string r = f.substr(0, q + 1);
    for (size_t b = q + 1; b <= f.size(); ) {
        size_t e = f.find(',', b); if (e == std::string::npos) e = f.size();
        std::string a = f.substr(b, e - b);
        size_t k = a.size(); while (k > 0 && (isalnum((unsigned char)a[k - 1]) || a[k - 1] == '_')) --k;
        size_t t = k; while (t > 0 && a[t - 1] == ' ') --t;
        if (t > 0 && k < a.size()) a.resize(t);
        r += a + ",";
        b = e + 1;
    }
    return r;
}
// C: what the headers declare is what the sources define
static void functions(const Out& o)
{
    auto names = [&](const std::string& t, bool defs) {
        std::vector<std::string> r;
        for (size_t p = 0; p < t.size(); ) {
            size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size();
            bool plain = e > p && t[p] != ' ' && t[p] != '/' && t[p] != '#' && t[p] != '}' && t[p] != '{' && t[p] != '*' && !starts(t.substr(p, 8), "typedef") && !starts(t.substr(p, 8), "template") && !starts(t.substr(p, 6), "using ") && !starts(t.substr(p, 6), "class ") && !starts(t.substr(p, 7), "struct ");
            if (plain) {
                size_t q = t.find('(', p);
                size_t z = q < e ? t.find_first_of(";{", q) : std::string::npos;
                if (q < e && z != std::string::npos && (t[z] == '{') == defs) {
                    size_t b = q; while (b > p && (isalnum((unsigned char)t[b - 1]) || t[b - 1] == '_')) --b;
                    if (b > p && b < q && t[b - 1] != ':') r.push_back(signature(t.substr(p, t.find(')', q) - p)));
                }
            }
            p = e + 1;
        }
        std::sort(r.begin(), r.end());
        return r;
    };
    for (size_t k = 0; k < o.names.size(); ++k) {
        if (!starts(o.names[k], "include/")) continue;
        std::string c = o.names[k].substr(8); c.replace(c.size() - 2, 2, ".cpp");
        auto d = names(text(o, k), false);
        for (size_t j = 0; j < o.names.size(); ++j) {
            if (o.names[j] != c) continue;
            auto f = names(text(o, j), true);
            for (auto& x : d) if (!has(f, x)) say(C, o.names[k] + " not defined", x);
            for (auto& x : f) if (!has(d, x)) say(C, c + " not declared", x);
            chk(d == f, "declared-functions-defined");
            d.clear();
        }
        if (!d.empty()) say(C, o.names[k] + " without source", d[0]);
        chk(d.empty(), "declared-functions-defined");
    }
}

static std::string pick(const char* what, const std::vector<std::string>& v) { return v[sx::choice(what, v.size())]; }

static std::string place(const std::string* t) { return t[0] + "<ns name=\"n1\">" + t[1] + "<ns name=\"n2\">" + t[2] + "</ns></ns><ns name=\"n3\">" + t[3] + "</ns>"; }
static std::string where(const std::string* t)
{
    std::string r = t[0];
    std::string n2 = t[2].empty() ? "" : "<ns name=\"n2\">" + t[2] + "</ns>";
    if (!(t[1] + n2).empty()) r += "<ns name=\"n1\">" + t[1] + n2 + "</ns>";
    if (!t[3].empty()) r += "<ns name=\"n3\">" + t[3] + "</ns>";
    return r;
}
static const unsigned Sets[] = {1, 2, 4, 3, 5, 10, 0, 8};
static std::string msg(const std::string& name, const std::string& attrs, const std::string& kids) { return tag("message", attr("name", name) + attrs, kids); }

static std::string iface(const std::string& kids = "") { return tag("interface", attr("name", "I"), kids); }

static std::string places()
{
    std::string t[4];
    unsigned i = Sets[sx::choice("interface", 6)], m = Sets[sx::choice("messages", 6)], f = Sets[sx::choice("frames", 8)];
    if (i == 10) i = 0;
    if (!sxn_thorough() && f == 8 && m != 10) return "";
    uint64_t id = sx::range("id", 0x1000, 0xffff);
    for (unsigned k = 0; k < 4; ++k) {
        ifaces += i >> k & 1; frames += f >> k & 1;
        if (i >> k & 1) t[k] += iface();
        if (m >> k & 1) { std::string n = "M" + std::to_string(k); t[k] += msg(n, attr("id", k ? std::to_string(k + 70000) : sx::hex(id)), ""); ms.push_back({k, n}); }
        if (f >> k & 1) t[k] += Frame;
    }
    return where(t);
}


static std::string fieldsOf()
{
    unsigned f = sx::choice("form", sizeof(Forms) / sizeof(*Forms));
    unsigned w = sx::choice("where", sizeof(Wheres) / sizeof(*Wheres));
    std::string n = sx::dec(sx::range("number", 1, 8));
    std::string x = form(f, "X", n), glob = "<int name=\"G\" type=\"uint8\"/><enum name=\"U\" type=\"uint8\"><validValue name=\"V\" val=\"1\"/></enum>", inMsg, inIface, layer, ns = "<fields><bundle name=\"H\">" MEM "</bundle></fields>";
    switch (w) {
    case 0: inMsg = x; break;
    case 1: glob += x; break;
    case 2: glob += x; inMsg = "<ref name=\"R\" field=\"X\"/>"; break;
    case 3: inMsg = "<bundle name=\"B\"><members>" + x + "<int name=\"after\" type=\"uint8\"/></members></bundle>"; break;
    case 4: inMsg = "<list name=\"L\" count=\"3\"><element>" + x + "</element></list>"; break;
    case 5: inMsg = "<optional name=\"O\"><field>" + x + "</field></optional>"; break;
    case 6: inMsg = "<variant name=\"V\"><members>" + x + "<int name=\"after\" type=\"uint8\"/></members></variant>"; break;
    case 7: inIface = "<fields>" + x + "</fields>"; break;
    case 8: layer = "<custom name=\"cl\">" + x + "</custom>"; break;
    case 9: ns = "<fields><bundle name=\"H\">" MEM "</bundle>" + x + "</fields>"; inMsg = "<ref name=\"R\" field=\"n.X\"/>"; break;
    }
    ifaces = frames = 1;
    return "<fields>" + glob + "</fields><ns name=\"n\">" + ns + "</ns>" + iface(inIface) + msg("M1", " id=\"1\"", inMsg.empty() ? "" : "<fields>" + inMsg + "</fields>")
        + "<frame name=\"Fr\"><layers><id name=\"i\"><int name=\"x\" type=\"uint8\"/></id>" + layer + "<payload name=\"d\"/></layers></frame>";
}

// versions of messages and their fields, code of a forced version
static std::string versions(std::vector<std::string>& args, std::vector<std::string>& commsArgs)
{
    unsigned force = sx::choice("force", 3), dep = sx::choice("deprecated", 3), where = sx::choice("place", 2), vdep = sx::choice("version field", 2);
    uint64_t since = sx::range("since", 0, 7), removed = dep ? sx::range("since removed", 1, 9) : 9;
    sxn_assume(since < removed);
    uint64_t fsince = sx::range("field since", 0, 7);
    std::string at = attr("sinceVersion", sx::dec(since));
    if (dep) at += attr("deprecated", sx::dec(removed)) + (dep == 2 ? attr("removed", "true") : "");
    std::string m = msg("M1", attr("id", "1") + at, "<fields><enum name=\"e1\" type=\"uint8\"><validValue name=\"V1\" val=\"0\"/><validValue name=\"V2\" val=\"1\"" + attr("sinceVersion", sx::dec(fsince)) + "/></enum><ref field=\"G\" name=\"r\"/></fields>")
        + msg("M2", attr("id", "2"), "<fields>" MEM "<int name=\"m2\" type=\"uint16\"" + attr("sinceVersion", sx::dec(fsince)) + "/><optional name=\"m3\"" + at + "><field><string name=\"in\"/></field></optional></fields>");
    if (where) m = "<ns name=\"n\">" + m + "</ns>";
    static const char* const V[] = {"", "0", "5"};
    if (force) {
        commsArgs = {"--force-schema-version", V[force]};
        args = commsArgs;
    }
    ifaces = frames = 1;
    return "<fields><int name=\"G\" type=\"uint8\"/></fields>" + iface(vdep ? "<fields><int name=\"v\" type=\"uint8\" semanticType=\"version\"/></fields>" : "") + m + Frame;
}

// every kind of layer, its field given in place or referred to
static std::string layers()
{
    unsigned k = sx::choice("layer", 8), ext = sx::choice("field", 3), v = sx::choice("interface", 3), wrap = sx::choice("message", 2);
    std::string f = ext == 2 ? "" : ext ? "<field name=\"fi\"><ref field=\"n.G\" name=\"x\"/></field>" : "<int name=\"x\" type=\"uint16\" defaultValue=\"" + sx::dec(sx::range("number", 1, 9)) + "\"/>", a = ext == 2 ? attr("field", "n.G") : "";
    auto lay = [&](const char* t, const char* n, const std::string& extra) { return tag(t, attr("name", n) + extra + a, f.compare(0, 6, "<field") == 0 ? "<field><ref field=\"n.G\" name=\"x\"/></field>" : f); };
    std::string id = lay("id", "ID", ""), pl = "<payload name=\"PL\"/>", l;
    switch (k) {
    case 0: l = id + pl; break;
    case 1: l = lay("size", "SZ", "") + id + pl; break;
    case 2: l = lay("sync", "SY", "") + id + pl; break;
    case 3: l = lay("size", "SZ", "") + id + pl + lay("checksum", "CS", " alg=\"crc-ccitt\" from=\"SZ\""); break;
    case 4: l = lay("checksum", "CS", " alg=\"sum\" until=\"PL\"") + id + pl; break;
    case 5: l = lay("value", "VL", " interfaceFieldName=\"v\"") + id + pl; break;
    case 6: l = lay("value", "VL", " interfaceFieldName=\"v\" pseudo=\"true\"") + id + pl; break;
    case 7: l = lay("size", "SZ", "") + lay("value", "VL", " interfaceFieldName=\"v\"") + id + pl + lay("checksum", "CS", " alg=\"xor\" from=\"SZ\""); break;
    }
    ifaces = frames = 1;
    std::string iv = v ? "<fields><int name=\"v\" type=\"uint16\"" + std::string(v == 2 ? " semanticType=\"version\"" : "") + "/></fields>" : "";
    if (v == 0 && k >= 5) return "";
    std::string m = msg("M1", " id=\"1\"", "");
    return "<ns name=\"n\"><fields><int name=\"G\" type=\"uint16\"/></fields></ns>" + iface(iv) + (wrap ? "<ns name=\"n\">" + m + "</ns>" : m) + "<frame name=\"Fr\"><layers>" + l + "</layers></frame>";
}

// several schemas, another main namespace, selection of messages by platform, several interfaces and frames
static std::string several(std::vector<std::string>& docs, std::vector<std::string>& args, std::vector<std::string>& commsArgs)
{
    unsigned second = sx::choice("second schema", 4), ns = sx::choice("namespace", 2), plat = sx::choice("platform", 3), two = sx::choice("two", 4);
    std::string id1 = sx::dec(sx::range("id", 1, 9)), id2 = sx::dec(sx::range("other id", 1, 9));
    static const char* const P[] = {"", " platforms=\"p1\"", " platforms=\"-p2\""};
    if (ns) { commsArgs = {"-n", "sx"}; args = commsArgs; }
    dep = second >= 2;
    if (second) {
        args.push_back("-s"); commsArgs.push_back("-s");
        std::string b = second == 1 ? "<fields><int name=\"Z\" type=\"uint8\"/></fields>" : second == 2 ? "<fields><bundle name=\"Z\">" MEM "</bundle></fields>" + msg("N1", attr("id", id2), "<fields><ref field=\"Z\" name=\"z\"/></fields>")
            : iface() + msg("N1", attr("id", id2), "") + Frame;
        docs.push_back(sx::xml("t.xml", "<schema name=\"t\" version=\"9\" endian=\"big\">" + b + "</schema>"));
        if (second == 3) { ++ifaces; ++frames; }
    }
    std::string m = msg("M1", attr("id", id1) + P[plat], second ? (second == 1 ? "<fields><ref field=\"@t.Z\" name=\"z\"/></fields>" : "") : "<fields>" MEM "</fields>");
    if (plat == 1 && (app == C || app == Swig || app == Emscripten)) { args.push_back("--force-platform"); args.push_back("p2"); }
    if (plat == 2 && (app == C || app == Swig || app == Emscripten)) { args.push_back("--force-platform"); args.push_back("p1"); }
    ++ifaces; ++frames;
    std::string i = iface(), f = Frame;
    if (two & 1) { i += "<interface name=\"J\"><fields><int name=\"v\" type=\"uint8\"/></fields></interface>"; ++ifaces; }
    if (two & 2) { f += "<frame name=\"F2\"><layers><size name=\"sz\"><int name=\"x\" type=\"uint8\"/></size><id name=\"i\"><int name=\"x\" type=\"uint8\"/></id><payload name=\"d\"/></layers></frame>"; ++frames; }
    return "<platforms><platform name=\"p1\"/><platform name=\"p2\"/></platforms>" + i + m + msg("M2", " id=\"20\"", "") + f;
}

void sx_harness()
{
    ms.clear(); frames = ifaces = 0; dep = false;
    std::vector<std::string> args, commsArgs, docs;
    scenario = sx::choice("scenario", 5);
    app = sx::choice("app", NumApps);
    std::string body;
    switch (scenario) {
    case 0: body = places(); break;
    case 1: body = fieldsOf(); break;
    case 2: body = versions(args, commsArgs); break;
    case 3: body = layers(); break;
    default: body = several(docs, args, commsArgs); break;
    }
    if (body.empty()) return;
    docs.push_back(sx::xml("s.xml", schema(body, "", "9")));
    Out lib = go(Comms, docs, commsArgs, "lib", true), o;
    if (app == Comms) o = lib;
    else o = go(app, docs, args, "out", false);
    if (scenario > 0 && lib.rc != 0) { chk(o.rc != 0, "refused-by-all"); sxn_reach("refused"); return; }
    chk(lib.rc == 0, "library-generated");
    bool needs = (app == Test || app == ToolsQt) && (!frames || !ifaces);
    if (needs) { sxn_reach("refused"); return; }
    chk(o.rc == 0, "generated");
    if (o.rc != 0 || lib.rc != 0) return;
    std::vector<std::string> have(lib.names); std::sort(have.begin(), have.end());
    references(app, o, have, have);
    if (app == C) { functions(o); namesC(o); }
    if (app == Swig || app == Emscripten) namesClasses(o);
    if (app == Latex) labels(o);
    sxn_reach(AppNames[app]);
}
