// P23: members of messages and bundles exist in the versions of the protocol the schema says, in the generated COMMS code.
#include "gen.h"
#include "CommsGenerator.h"
#include "CommsProgramOptions.h"
using CG = Gen<commsdsl2comms::CommsGenerator, commsdsl2comms::CommsProgramOptions>;
void sx_prepare() {}

static std::string ver(unsigned v) { return sx::dec(v); }
static uint64_t num(const Text& x) { bool good = true; V v = number(x, good); sxn_assert(good, "unreadable-number"); return v.v; }

// Text of `struct NAME : public comms::field::Optional<NAMEField, ...>` of a member depending on the version
struct Wrap { bool has = false, dflt = false; unsigned kinds = 0; unsigned exists = 1; };
static Wrap wrapOf(const Text& scope, const std::string& cls, unsigned v)
{
    Wrap w;
    std::string head = "struct " + cls + " : public";
    size_t p = scope.find(head);
    if (p == std::string::npos) return w;
    size_t b = p + head.size(), e = scope.find("{", b);
    Call c = call(scope.sub(b, e).trim());
    if (c.name != "comms::field::Optional" || c.args.empty() || !c.args[0].trim().starts(cls + "Field")) return w;
    w.has = true;
    unsigned modes = 0;
    for (size_t i = 1; i < c.args.size(); ++i) {
        Call o = call(c.args[i]);
        if (o.name == DEF_OPT "ExistsByDefault") { w.dflt = true; ++modes; }
        else if (o.name == DEF_OPT "MissingByDefault") ++modes;
        else if (o.name == DEF_OPT "ExistsSinceVersion") { ++w.kinds; w.exists &= (unsigned)(v >= num(o.args.at(0))); }
        else if (o.name == DEF_OPT "ExistsUntilVersion") { ++w.kinds; w.exists &= (unsigned)(v <= num(o.args.at(0))); }
        else if (o.name == DEF_OPT "ExistsBetweenVersions") { ++w.kinds; w.exists &= (unsigned)(v >= num(o.args.at(0))) & (unsigned)(v <= num(o.args.at(1))); }
    }
    sxn_assert(modes == 1, "default-mode-missing");
    return w;
}
// text between the definition of the members of class `cls` and its end
static Text membersOf(const Text& scope, const std::string& cls) { return bodyOf(scope, "struct " + cls + "Members"); }
static Call classOf(const Text& scope, const std::string& cls)
{
    Call c = baseOf(scope, cls);
    return c.has ? c : baseOf(scope, cls + "Field");
}
static bool depends(const Call& c)
{
    for (auto& a : c.args) { Call o = call(a); if (o.name == DEF_OPT "HasVersionDependentMembers") return o.args.at(0).is("true"); }
    return false;
}
// names of the members in order
static std::vector<std::string> tupleOf(const Text& scope)
{
    std::vector<std::string> r;
    size_t p = scope.s.rfind("using All =");
    if (p == std::string::npos) return r;
    size_t b = scope.find("<", p), e = matching(scope.s, b);
    for (auto& t : split(scope.sub(b + 1, e), ',')) r.push_back(t.trim().s);
    return r;
}

void sx_harness()
{
    unsigned place = sx::choice("place", 6), kind = sx::choice("kind", 6);
    unsigned mode = sx::choice("code", 3);                          // depends on version, forced not to, no version in the interface
    unsigned how = sx::choice("versions", 4);                       // since; removed; since, removed; since, deprecated but not removed
    unsigned opt = sx::choice("options", mode ? 2 : 3);             // none, force, force and minimal
    bool outer = sx::choice("outer", 2);                            // the container inside another bundle
    if (!sxn_thorough()) {
        if (kind != place && kind != (place + 1) % 6 && !(place == 1 && kind == 1)) return;
        if (mode && (kind != place || outer)) return;
        if (outer && (kind == place || opt == 2 || how == 3)) return;
        if (!outer && kind != place && opt != (how == 2 ? 1u : 0u)) return;
    }
    if (outer && place == 0) return;
    std::vector<std::string> extra;
    unsigned forced = 9, remote = 0;
    if (opt >= 1) { forced = (unsigned)sxn_var("forced", 8, 0, 9); extra.push_back("--force-schema-version"); extra.push_back(ver(forced)); }
    if (opt == 2) { remote = (unsigned)sxn_var("remote", 8, 0, 9); sxn_assume(remote <= forced); extra.push_back("-m"); extra.push_back(ver(remote)); }
    if (mode == 1) extra.push_back("--version-independent-code");
    // versions of the message, of the container, of the member
    unsigned ms = (unsigned)sxn_var("message-since", 8, 0, 9), cs = ms, s = 0, d = 99; bool removed = how == 1 || how == 2;
    sxn_assume(ms <= forced);
    std::string ct, bt;
    if (place) { cs = (unsigned)sxn_var("container-since", 8, 0, 9); sxn_assume(cs >= ms); ct = attr("sinceVersion", ver(cs)); }
    unsigned base = place == 2 ? 0 : cs;                            // members of a global bundle have their own versions
    s = base;
    if (how != 1) { s = (unsigned)sxn_var("since", 8, 0, 9); sxn_assume(s >= base); bt = attr("sinceVersion", ver(s)); }
    if (how != 0) { d = (unsigned)sxn_var("deprecated", 8, 1, 9); sxn_assume(d > s); bt += attr("deprecated", ver(d)); if (removed) bt += attr("removed", "true"); }
    static const unsigned Len[] = {1, 1, 1, 2, 3, 0};
    auto member = [&](const std::string& vers) {
        std::string n = attr("name", "b") + vers;
        switch (kind) {
        case 0: return tag("int", n + attr("type", "uint8"), "");
        case 1: return tag("ref", n + attr("field", "N"), "");
        case 2: return tag("string", n, "<lengthPrefix><int name=\"len\" type=\"uint8\"/></lengthPrefix>");
        case 3: return tag("bundle", n, "<int name=\"i\" type=\"uint16\"/>");
        case 4: return tag("list", n + attr("count", "3"), "<int name=\"i\" type=\"uint8\"/>");
        default: return tag("optional", n + attr("defaultMode", "missing"), "<int name=\"i\" type=\"uint8\"/>");
        }
    };
    std::string x = "<int name=\"x\" type=\"uint16\"/>", globals = "<int name=\"v\" type=\"uint8\" semanticType=\"version\"/>"
        "<int name=\"N\" type=\"uint8\" validCheckVersion=\"true\"><validRange value=\"[0, 3]\"/><validRange value=\"[7, 9]\" sinceVersion=\"4\"/></int>";
    std::string two = x + member(bt), c;
    switch (place) {
    case 0: c = member(bt); break;
    case 1: c = tag("bundle", attr("name", "c") + ct, two); break;
    case 2: globals += tag("bundle", attr("name", "G"), two); c = tag("ref", attr("name", "c") + attr("field", "G") + ct, ""); break;
    case 3: c = tag("list", attr("name", "c") + ct + attr("count", "2"), tag("bundle", attr("name", "e"), two)); break;
    case 4: c = tag("optional", attr("name", "c") + ct + attr("defaultMode", "exists"), tag("bundle", attr("name", "e"), two)); break;
    default: c = tag("variant", attr("name", "c") + ct, tag("bundle", attr("name", "e"), two) + tag("bundle", attr("name", "g"), "<int name=\"y\" type=\"uint8\"/>")); break;
    }
    if (outer) c = tag("bundle", attr("name", "w"), "<int name=\"u\" type=\"uint8\"/>" + c);
    std::string body = "<fields>" + globals + "</fields>";
    if (mode != 2) body += "<interface name=\"I\"><int name=\"q\" type=\"uint16\"/><ref field=\"v\" name=\"ver\"/><int name=\"r\" type=\"uint8\"/></interface>";
    body += tag("message", attr("name", "M") + attr("id", "1") + attr("sinceVersion", ver(ms)), "<int name=\"a\" type=\"uint16\"/>" + c);
    CG g;
    g.xml("s.xml", schema(body, "", "9")).run("commsdsl2comms", extra);
    sxn_assert(g.rc == 0, "refused");
    if (g.rc) return;
    Text m = g.file("include/s/message/M.h"), all = bodyOf(m, "struct MFields"), scope = all, cscope = all;
    if (outer) scope = cscope = membersOf(all, "W");
    if (place == 2) scope = membersOf(g.file("include/s/field/G.h"), "G");
    else if (place) { scope = membersOf(scope, "C"); if (place >= 3) scope = membersOf(scope, "E"); }
    sxn_assert(!scope.empty(), "definition-missing");
    static const char* Place[] = {"direct", "bundle", "global", "list", "optional", "variant"};
    sxn_reach(Place[place]);

    unsigned v = (unsigned)sxn_var("v", 8, 0, 9);                   // version of the other side
    sxn_assume((unsigned)(v >= remote) & (unsigned)(v <= forced) & (unsigned)(v >= ms));
    Wrap cw, bw = wrapOf(scope, "B", v);
    if (place) cw = wrapOf(cscope, "C", v);
    auto names = tupleOf(scope);
    sxn_assert(place == 0 ? names.size() == 2 && names[0] == "A" && names[1] == "B" : names.size() == 2 && names[0] == "X" && names[1] == "B", "members");
    if (place) { auto n = tupleOf(cscope); sxn_assert(n.size() == 2 && n[1] == "C" && n[0] == (outer ? "U" : "A"), "members"); }
    unsigned inC = (unsigned)(v >= cs), inB = (unsigned)(v >= s) & (removed ? (unsigned)(v < d) : 1u);
    if (mode) {
        // without a version on the wire nothing can depend on it
        sxn_assert(!bw.has && !cw.has, "version-optional");
        sxn_assert(!m.has("HasVersionDependentMembers<true>") && !m.has("ExistsSince") && !m.has("ExistsUntil") && !m.has("ExistsBetween"), "version-optional");
        // the code is for one version
        sxn_assert((unsigned)(s <= forced), "later-member-in-version-independent-code");
        if (removed) sxn_assert((unsigned)(d > forced), "removed-member-in-version-independent-code");
    } else {
        // of a container which exists, and of versions the code is for
        if (place) {
            sxn_assert((unsigned)(cw.exists == inC), "container-exists");
            if (cw.has) sxn_assert(cw.kinds == 1 && (unsigned)cw.dflt == (unsigned)(cs <= forced), "container-default-mode");
        }
        sxn_assert((inC ^ 1u) | (unsigned)(bw.exists == inB), "member-exists");
        unsigned now = (unsigned)(s <= forced) & (removed ? (unsigned)(remote < d) : 1u);
        if (bw.has) sxn_assert(bw.kinds == 1 && (unsigned)bw.dflt == now, "member-default-mode");
        // versions reach the members of bundles and variants
        bool needs = bw.has || (kind == 1 && g.file("include/s/field/N.h").has(DEF_OPT "VersionStorage"));
        if (place && needs) {
            Call c = place == 2 ? baseOf(g.file("include/s/field/G.h"), "G") : place == 1 ? classOf(cscope, "C") : classOf(membersOf(cscope, "C"), "E");
            sxn_assert(c.has && depends(c), "version-not-propagated");
            if (place == 5) sxn_assert(depends(classOf(cscope, "C")), "version-not-propagated");
        }
        if (outer && (needs || cw.has)) sxn_assert(depends(classOf(all, "W")), "version-not-propagated-further");
        if (place == 5 && needs) {
            Text rd = bodyOf(cscope, "comms::ErrorStatus read(");
            if (!rd.empty()) sxn_assert(rd.has("field_e.setVersion("), "version-not-propagated");
        }
        // the version is the one the interface carries
        Text i = g.file("include/s/I.h");
        sxn_assert(i.has("VersionInExtraTransportFields<1>"), "version-field");
    }
    // compile time checks of the length
    size_t p = m.find("static_assert(MsgMinLen == ");
    if (p != std::string::npos) {
        uint64_t len = num(m.sub(p + 27, m.find(",", p)).trim());
        uint64_t want = bw.has ? 0 : Len[kind];
        if (place) want += 2;
        if (place == 3) want *= 2;
        if (place == 4) want = 0;
        if (place == 5) want = 0;
        if (cw.has) want = 0;
        if (outer) want += 1;
        sxn_assert(len == want + 2, "minimal-length");
        sxn_reach("length");
    }
}
