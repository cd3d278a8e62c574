// Versions: sinceVersion, deprecated and removed of messages, members of bundles, copied and reused members.
#include "h.h"
void sx_prepare() { P p; p.run(schema("<message name=\"M\" id=\"1\" sinceVersion=\"1\"><int name=\"d\" type=\"uint8\"/></message>", "", "8")); }
static const uint64_t NotYet = 0xffffffff;
struct V { uint64_t since = 0, dep = NotYet; };
static std::string is(const char* n, unsigned i) { return n + std::to_string(i); }
// attributes and the effective versions under the parent's; ok: whether they fit
static std::string ver(unsigned i, V parent, V& v, uint64_t schemaVer, unsigned& ok, uint64_t top = 0x1ffffffff)
{
    std::string at;
    v = parent;
    if (sx::choice(is("hasSince", i).c_str(), 2)) { v.since = sx::range(is("since", i).c_str(), 0, top); at += attr("sinceVersion", sx::hex(v.since)); ok &= (unsigned)(v.since <= NotYet); }
    if (sx::choice(is("hasDep", i).c_str(), 2)) { v.dep = sx::range(is("dep", i).c_str(), 0, top); at += attr("deprecated", sx::hex(v.dep)); ok &= (unsigned)(v.dep <= NotYet); }
    ok &= (unsigned)(v.since <= schemaVer) & (unsigned)(v.since >= parent.since) & (unsigned)(v.since < parent.dep) & (unsigned)(v.dep <= parent.dep) & (unsigned)(v.dep > v.since) & ((unsigned)(v.dep == NotYet) | (unsigned)(v.dep <= schemaVer));
    return at;
}
static void same(const ParseField& f, V v, const char* key) { sxn_assert((unsigned)(f.parseSinceVersion() == v.since) & (unsigned)(f.parseDeprecatedSince() == v.dep), key); }

static void nested()
{
    unsigned kind = sx::choice("kind", 4);      // what the member is: int, bundle, variant, optional in the message
    uint64_t s = sx::range("schema", 0, 0xfffffffe);
    unsigned ok = 1;
    V m, f, g;
    std::string am = ver(0, V(), m, s, ok), af = ver(1, m, f, s, ok), ag, body;
    switch (kind) {
    case 0: body = tag("int", attr("name", "f") + attr("type", "uint8") + af); break;
    case 1: ag = ver(2, f, g, s, ok); body = tag("bundle", attr("name", "f") + af, tag("int", attr("name", "k") + attr("type", "uint8")) + tag("int", attr("name", "g") + attr("type", "uint8") + ag)); break;
    case 2: ag = ver(2, f, g, s, ok); body = tag("variant", attr("name", "f") + af, tag("int", attr("name", "k") + attr("type", "uint8")) + tag("int", attr("name", "g") + attr("type", "uint8") + ag)); break;
    case 3: ag = ver(2, f, g, s, ok); body = tag("optional", attr("name", "f") + af, tag("int", attr("name", "g") + attr("type", "uint8") + ag)); break;
    }
    unsigned rem = sx::choice("removed", 3);
    P p;
    if (rem) body.insert(body.find(' '), attr("removed", rem == 1 ? "true" : "false"));
    bool r = p.run(schema(tag("message", attr("name", "M") + attr("id", "1") + am, body), "", sx::hex(s)));
    if (kind == 3) {
        // the inner field is the optional itself: it cannot have versions of its own
        if (r && g.since == f.since && g.dep == f.dep) sxn_assert(ok, "accepted-only-if-consistent");
        if (g.since != f.since || g.dep != f.dep) return;
    }
    sxn_assert((unsigned)r == ok, "accepted-iff-versions-consistent");
    if (!r) { sxn_assert(p.errors > 0, "rejection-reported"); sxn_reach("rejected"); return; }
    sxn_reach("accepted");
    auto msg = p.message("M");
    sxn_assert(p.p.parseSchemas().back().parseVersion() == s, "schema-version");
    sxn_assert((unsigned)(msg.parseSinceVersion() == m.since) & (unsigned)(msg.parseDeprecatedSince() == m.dep), "message-versions");
    auto fs = msg.parseFields();
    same(fs.at(0), f, "field-versions");
    sxn_assert(fs.at(0).parseIsDeprecatedRemoved() == (rem == 1) && !msg.parseIsDeprecatedRemoved(), "removed-flag");
    if (kind == 1) { auto ms = ParseBundleField(fs[0]).parseMembers(); same(ms.at(0), f, "inherited-versions"); same(ms.at(1), g, "member-versions"); }
    if (kind == 2) { auto ms = ParseVariantField(fs[0]).parseMembers(); same(ms.at(0), f, "inherited-versions"); same(ms.at(1), g, "member-versions"); }
    uint64_t min = kind < 2 ? (kind == 1 ? 1 + (uint64_t)(g.since <= f.since) : 1) : 0;
    min &= 0 - (uint64_t)(f.since <= m.since);
    sxn_assert(kind == 1 || msg.parseMinLength() == min, "minimal-length-counts-members-of-first-version");
}

// members taken over from another message, bundle or variant
static void copied()
{
    unsigned how = sx::choice("how", 6), n = 1 + sx::choice("members", 2);
    // 0 message copyFieldsFrom message, 1 message reuse, 2 message copyFieldsFrom bundle, 3 bundle reuse, 4 variant reuse, 5 message copies and adds
    static const uint64_t Top = 20;
    uint64_t s = 16;
    V mv[2], own;
    bool rem[2] = {};
    unsigned ok = 1;
    std::string mem = how == 1 || how == 0 || how == 5 ? "" : tag("int", attr("name", "k") + attr("type", "uint8"));
    for (unsigned i = 0; i < n; ++i) {
        std::string at = ver(i, V(), mv[i], s, ok, Top);
        rem[i] = sx::choice(is("removed", i).c_str(), 2);
        if (rem[i]) at += attr("removed", "true");
        mem += tag("int", attr("name", is("f", i)) + attr("type", "uint8") + at);
    }
    sxn_assume(ok);
    std::string at, body;
    if (sx::choice("hasOwn", 2)) { own.since = sx::range("own", 0, s); at = attr("sinceVersion", sx::hex(own.since)); }
    const char* src = how <= 1 || how == 5 ? "message" : how == 4 ? "variant" : "bundle";
    std::string from = tag(src, attr("name", "O") + (how <= 1 || how == 5 ? attr("id", "1") : ""), mem);
    if (src[0] != 'm') from = "<fields>" + from + "</fields>";
    switch (how) {
    case 0: case 2: body = tag("message", attr("name", "M") + attr("id", "2") + at + attr("copyFieldsFrom", "O")); break;
    case 1: body = tag("message", attr("name", "M") + attr("id", "2") + at + attr("reuse", "O")); break;
    case 5: body = tag("message", attr("name", "M") + attr("id", "2") + at + attr("copyFieldsFrom", "O"), tag("int", attr("name", "z") + attr("type", "uint8"))); break;
    case 3: case 4: body = tag("message", attr("name", "M") + attr("id", "2"), tag(how == 3 ? "bundle" : "variant", attr("name", "b") + at + attr("reuse", "O"))); break;
    }
    P p;
    bool r = p.run(schema(from + body, "", dec(s)));
    sxn_assert(r, "copy-accepted");
    if (!r) return;
    sxn_reach("copied");
    auto fields = p.message("M").parseFields();
    auto got = how == 3 ? ParseBundleField(fields.at(0)).parseMembers() : how == 4 ? ParseVariantField(fields.at(0)).parseMembers() : fields;
    unsigned k = 0;
    if (how >= 2 && how <= 4) { sxn_assert(got.size() > k && got[k].parseName() == "k", "first-member"); same(got[k], own, "first-member-versions"); ++k; }
    for (unsigned i = 0; i < n; ++i) {
        if (rem[i] && mv[i].dep <= own.since) { sxn_reach("dropped"); continue; }
        sxn_assert(got.size() > k && got[k].parseName() == is("f", i), "member-kept");
        if (got.size() <= k) return;
        V w = mv[i];
        if (w.since < own.since) w.since = own.since;
        same(got[k], w, "copied-versions");
        sxn_assert(got[k].parseIsDeprecatedRemoved() == rem[i], "copied-removed-flag");
        ++k;
    }
    if (how == 5) { sxn_assert(got.size() > k && got[k].parseName() == "z", "own-member"); same(got[k], own, "own-member-versions"); ++k; }
    sxn_assert(got.size() == k, "nothing-else");
    // the source is as it was
    if (how == 0 || how == 1 || how == 5) {
        auto o = p.message("O").parseFields();
        sxn_assert(o.size() == n, "source-untouched");
        for (unsigned i = 0; i < n; ++i) same(o[i], mv[i], "source-untouched");
    }
}

// at least one member of a bundle exists from the beginning; global fields have no versions
static void firstMember()
{
    unsigned kind = sx::choice("kind", 2), glob = sx::choice("global", 2);
    V a, b;
    uint64_t own = glob ? 0 : sx::range("own", 0, 8);
    a.since = sx::range("a", 0, 8); b.since = sx::range("b", 0, 8);
    std::string m = tag("int", attr("name", "a") + attr("type", "uint8") + attr("sinceVersion", sx::hex(a.since))) + tag("int", attr("name", "b") + attr("type", "uint8") + attr("sinceVersion", sx::hex(b.since)));
    std::string f = tag(kind ? "variant" : "bundle", attr("name", "f") + attr("sinceVersion", sx::hex(glob ? sx::range("ignored", 0, 8) : own)), m);
    P p;
    bool r = p.run(schema(glob ? "<fields>" + f + "</fields>" : tag("message", attr("name", "M") + attr("id", "1"), f), "", "8"));
    unsigned ok = (unsigned)(a.since >= own) & (unsigned)(b.since >= own) & ((unsigned)(a.since == own) | (unsigned)(b.since == own));
    sxn_assert((unsigned)r == ok, "accepted-iff-a-member-of-the-first-version");
    if (!r) { sxn_reach("first-rejected"); return; }
    auto g = glob ? p.field("f") : p.message("M").parseFields().at(0);
    V w; w.since = own;
    same(g, w, "owner-versions");
    auto ms = kind ? ParseVariantField(g).parseMembers() : ParseBundleField(g).parseMembers();
    same(ms.at(0), a, "member-a"); same(ms.at(1), b, "member-b");
    sxn_reach("first-accepted");
}

// every version attribute is a 32 bit number; removed is a boolean
static void text()
{
    static const char* T[] = {"", "-1", "1x", "4294967296", "x", "0x", "3.5"};
    static const char* B[] = {"maybe", "2", ""};
    unsigned w = sx::choice("which", 4), t = sx::choice("text", w == 3 ? 3 : 7);
    std::string at = w == 0 ? attr("sinceVersion", T[t]) : w == 1 ? attr("deprecated", T[t]) : w == 2 ? "" : attr("removed", B[t]) + attr("deprecated", "2");
    unsigned msg = sx::choice("message", 2);
    std::string f = tag("int", attr("name", "f") + attr("type", "uint8") + (msg ? "" : at));
    P p;
    bool r = p.run(schema(tag("message", attr("name", "M") + attr("id", "1") + (msg ? at : ""), f), "", w == 2 ? T[t] : "8"));
    sxn_assert(!r || (w == 2 && t == 0) || (w == 3 && t == 2), "malformed-version-refused");
    sxn_reach("text");
}

void sx_harness()
{
    switch (sx::choice("scenario", 4)) {
    case 0: nested(); break;
    case 1: copied(); break;
    case 2: firstMember(); break;
    case 3: text(); break;
    }
}
