// Names of elements and references to them.
#include "h.h"
void sx_prepare() { P p; p.run(schema("<fields><string name=\"f\" length=\"2\"/><ref name=\"r\" field=\"f\"/></fields><ns name=\"a\"><fields><int name=\"x\" type=\"uint8\"/></fields></ns><message name=\"M\" id=\"1\"><ref name=\"f\" field=\"a.x\"/></message>")); }
static unsigned is(unsigned char c, char k) { return (unsigned)(c == (unsigned char)k); }
static unsigned in(unsigned char c, char a, char b) { return (unsigned)(c >= (unsigned char)a) & (unsigned)(c <= (unsigned char)b); }
static unsigned alpha(unsigned char c) { return in(c, 'a', 'z') | in(c, 'A', 'Z') | is(c, '_'); }
static unsigned validName(const std::string& s)
{
    unsigned r = alpha(s[0]);
    for (char c : s) r &= alpha(c) | in(c, '0', '9');
    return r;
}
static unsigned char lowered(unsigned char c) { return c + (unsigned char)(in(c, 'A', 'Z') << 5); }
// equal names, `first`: the case of the first letter does not matter
static unsigned equal(const std::string& a, const std::string& b, bool first)
{
    if (a.size() != b.size()) return 0;
    unsigned r = first ? (unsigned)(lowered(a[0]) == lowered(b[0])) : is(a[0], b[0]);
    for (size_t i = 1; i < a.size(); ++i) r &= is(a[i], b[i]);
    return r;
}
static std::string text(const char* n, unsigned len)
{
    auto t = sx::chars(n, len, 0x20, 0x7e);
    for (char c : t) sxn_assume((c != '<') & (c != '&') & (c != '"'));
    sxn_assume((t[0] != ' ') & (t[len - 1] != ' '));
    return t;
}
static const std::string Leaf = " type=\"uint8\"";
static const std::string Id = "<id name=\"Id\"><int name=\"x\" type=\"uint8\"/></id><payload name=\"Pl\"/>";
enum Kind { Field, Message, Interface, Frame, Ns, Bundle, MsgField, IfField, Variant, Bitfield, Kinds };
static std::string elem(unsigned k, const std::string& n, unsigned i)
{
    switch (k) {
    case Field: return "<fields>" + tag("int", attr("name", n) + Leaf) + "</fields>";
    case Message: return tag("message", attr("name", n) + attr("id", dec(i)));
    case Interface: return tag("interface", attr("name", n));
    case Frame: return tag("frame", attr("name", n), Id);
    default: return tag("ns", attr("name", n), tag("message", attr("name", "X" + dec(i)) + attr("id", dec(i))));
    }
}

// two elements in one namespace (or of one container)
static void names()
{
    unsigned k = sx::choice("kind", Kinds), where = k < Bundle ? sx::choice("nested", 2) : 0, len = 1 + sx::choice("len", 2);
    auto x = text("x", len), y = text("y", k < Bundle && sx::choice("shorter", 2) ? 1 : len);
    unsigned k2 = k;
    if (k < Ns && sx::choice("otherKind", 2)) k2 = (k + 1) % Ns;
    unsigned ok = validName(x) & validName(y);
    if (k2 == k && k != Ns) ok &= !equal(x, y, k < Ns);
    std::string t;
    if (k < Bundle) { t = elem(k, x, 1) + elem(k2, y, 2); if (where) t = tag("ns", attr("name", "q"), t); }
    else {
        std::string m = k == Bitfield ? tag("int", attr("name", x) + Leaf + attr("bitLength", "3")) + tag("int", attr("name", y) + Leaf + attr("bitLength", "5")) : tag("int", attr("name", x) + Leaf) + tag("int", attr("name", y) + Leaf);
        if (k == Bundle) t = "<fields>" + tag("bundle", attr("name", "b"), m) + "</fields>";
        else if (k == MsgField) t = tag("message", attr("name", "M") + attr("id", "1"), m);
        else if (k == IfField) t = tag("interface", attr("name", "I"), m);
        else if (k == Variant) t = "<fields>" + tag("variant", attr("name", "b"), m) + "</fields>";
        else t = "<fields>" + tag("bitfield", attr("name", "b"), m) + "</fields>";
    }
    P p;
    bool r = p.run(schema(t));
    sxn_assert(r == (ok != 0), "names-accepted-iff-valid-and-distinct");
    if (!r) { sxn_assert(p.errors > 0, "rejection-reported"); sxn_reach("names-rejected"); return; }
    sxn_reach("names-accepted");
    auto s = p.p.parseSchemas().back();
    if (k < Bundle) {
        std::string pre = where ? "q." : "";
        auto nss = s.parseNamespaces();
        if (k == Ns) {
            auto list = where ? nss.at(0).parseNamespaces() : nss;
            unsigned same = equal(x, y, false), n = 0;
            for (auto& e : list) {
                if (e.parseName().empty()) continue;
                ++n;
                unsigned isX = equal(e.parseName(), x, false), isY = equal(e.parseName(), y, false);
                sxn_assert(isX | isY, "namespace-name");
                sxn_assert(e.parseExternalRef(false) == pre + e.parseName() && e.parseExternalRef(true) == "@s." + pre + e.parseName(), "namespace-reference");
                sxn_assert(e.parseMessages().size() == isX + isY, "namespace-content");
            }
            sxn_assert(n == 2 - same, "namespaces-listed");
            return;
        }
        unsigned seenX = 0, seenY = 0, n = 0;
        auto chk = [&](unsigned kind, const std::string& nm, const std::string& ref, const std::string& full) {
            ++n;
            if (kind == k) seenX |= equal(nm, x, false);
            if (kind == k2) seenY |= equal(nm, y, false);
            sxn_assert(ref == pre + nm && full == "@s." + pre + nm, "external-reference");
        };
        for (auto& e : nss) {
            for (auto& f : e.parseFields()) chk(Field, f.parseName(), f.parseExternalRef(false), f.parseExternalRef(true));
            for (auto& f : e.parseMessages()) chk(Message, f.parseName(), f.parseExternalRef(false), f.parseExternalRef(true));
            for (auto& f : e.parseInterfaces()) chk(Interface, f.parseName(), f.parseExternalRef(false), f.parseExternalRef(true));
            for (auto& f : e.parseFrames()) chk(Frame, f.parseName(), f.parseExternalRef(false), f.parseExternalRef(true));
        }
        sxn_assert(n == 2 && (seenX & seenY), "both-listed");
        return;
    }
    ParseBundleField::ParseMembers m;
    if (k == MsgField) m = p.message("M").parseFields();
    else if (k == IfField) m = s.parseNamespaces().at(0).parseInterfaces().at(0).parseFields();
    else if (k == Bundle) m = ParseBundleField(p.field("b")).parseMembers();
    else if (k == Variant) m = ParseVariantField(p.field("b")).parseMembers();
    else m = ParseBitfieldField(p.field("b")).parseMembers();
    sxn_assert(m.size() == 2 && m[0].parseName() == x && m[1].parseName() == y, "members-in-order");
}

// pieces of a reference; empty when it is none
static std::vector<std::string> split(const std::string& r, bool& schemaRef)
{
    std::vector<std::string> v(1);
    schemaRef = is(r[0], '@');
    for (size_t i = schemaRef ? 1 : 0; i < r.size(); ++i) {
        if (is(r[i], '.')) v.emplace_back();
        else v.back() += r[i];
    }
    for (auto& s : v) {
        if (s.empty()) return {};
        for (char c : s) if (!(alpha(c) | in(c, '0', '9'))) return {};
    }
    if (!alpha(v[0][0])) return {};
    return v;
}
struct Def { const char* ns; const char* name; unsigned len; };
// what schema "s" defines before the reference, and what schema "r" before it defines
static const Def Defs[] = {{"", "x", 1}, {"", "b", 2}, {"a", "x", 3}, {"a", "b", 4}, {"a.b", "x", 5}, {"a.b", "Y1", 6}, {"b", "x", 7}, {"b", "c", 8}};
static const Def Other[] = {{"", "x", 11}, {"a", "x", 13}, {"c", "x", 14}};
static bool findIn(const Def* d, unsigned n, const std::vector<std::string>& path, unsigned from, unsigned& len)
{
    if (path.size() <= from) return false;
    for (unsigned i = 0; i < n; ++i) {
        std::vector<std::string> ns;
        for (const char* c = d[i].ns; *c; ++c) if (*c != '.') ns.push_back(std::string(1, *c));
        if (ns.size() + 1 != path.size() - from) continue;
        unsigned ok = 1;
        for (size_t j = 0; j < ns.size(); ++j) ok &= equal(path[from + j], ns[j], false);
        ok &= equal(path.back(), d[i].name, true);
        if (ok) { len = d[i].len; return true; }
    }
    return false;
}
static std::string defs(const Def* d, unsigned n, const char* what)
{
    auto one = [&](const Def& e) {
        std::string nm = attr("name", e.name);
        if (*what == 'f') return "<fields>" + tag("string", nm + attr("length", dec(e.len))) + "</fields>";
        if (*what == 'm') return tag("message", nm + attr("id", dec(e.len)), tag("string", attr("name", "s") + attr("length", dec(e.len))));
        return tag("interface", nm, tag("string", attr("name", "s") + attr("length", dec(e.len))));
    };
    std::string t, cur;
    for (unsigned i = 0; i < n; ++i) {
        std::string ns = d[i].ns, e = one(d[i]);
        for (const char* c = d[i].ns + ns.size(); c != d[i].ns; --c) if (c[-1] != '.') e = tag("ns", attr("name", std::string(1, c[-1])), e);
        t += e;
    }
    return t;
}

static void refs()
{
    unsigned use = sx::choice("use", 7), multi = sx::choice("otherSchema", 2), place = use < 4 ? sx::choice("place", 3) : 0;
    unsigned maxLen = sxn_thorough() ? 6 : use == 0 ? 5 : 4;
    auto r = text("r", 1 + sx::choice("len", maxLen));
    const char* what = use < 4 ? "f" : use < 6 ? "m" : "i";
    if (!sxn_thorough() && multi && (use == 2 || use == 3 || use == 5)) return;
    if (!sxn_thorough() && place && use != 0) return;
    bool sref = false;
    auto path = split(r, sref);
    unsigned want = 0;
    bool ok = false;
    if (!path.empty()) {
        if (!sref) ok = findIn(Defs, 8, path, 0, want);
        else if (equal(path[0], "s", false)) ok = findIn(Defs, 8, path, 1, want);
        else if (multi && equal(path[0], "r", false)) ok = findIn(Other, 3, path, 1, want);
    }
    std::string t;
    switch (use) {
    case 0: t = "<fields>" + tag("ref", attr("name", "z") + attr("field", r)) + "</fields>"; break;
    case 1: t = "<fields>" + tag("string", attr("name", "z") + attr("reuse", r)) + "</fields>"; break;
    case 2: t = "<fields>" + tag("list", attr("name", "z") + attr("element", r) + attr("count", "1")) + "</fields>"; break;
    case 3: t = "<fields>" + tag("optional", attr("name", "z") + attr("field", r)) + "</fields>"; break;
    case 4: t = tag("message", attr("name", "z") + attr("reuse", r) + attr("id", "100")); break;
    case 5: t = tag("message", attr("name", "z") + attr("copyFieldsFrom", r) + attr("id", "100")); break;
    default: t = tag("interface", attr("name", "z") + attr("reuse", r)); break;
    }
    if (place == 1) t = tag("ns", attr("name", "a"), t);
    if (place == 2) t = tag("ns", attr("name", "b"), tag("ns", attr("name", "d"), t));
    std::string ref = place == 0 ? "z" : place == 1 ? "a.z" : "b.d.z";
    P p;
    if (multi) {
        p.p.parseSetMultipleSchemasEnabled(true);
        p.add("r.xml", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<schema name=\"r\" endian=\"big\">" + defs(Other, 3, what) + "</schema>\n");
    }
    p.add("s.xml", schema(defs(Defs, 8, what) + t));
    bool got = p.validate();
    sxn_assert(got == ok, "reference-accepted-iff-defined");
    if (!got) { sxn_assert(p.errors > 0, "refused-reference-reported"); sxn_reach("ref-rejected"); return; }
    sxn_reach("ref-accepted");
    uint64_t len = 0;
    if (use < 4) len = p.field("@s." + ref).parseMaxLength();
    else if (use < 6) len = p.message("z").parseMinLength();
    else { for (auto& n : p.p.parseSchemas().back().parseNamespaces()) for (auto& i : n.parseInterfaces()) if (i.parseName() == "z") len = i.parseFields().at(0).parseMinLength(); }
    sxn_assert(len == want, "reference-means-that-element");
    if (use == 0) {
        auto f = ParseRefField(p.field("@s." + ref)).parseField();
        sxn_assert(f.parseMinLength() == want && f.parseExternalRef(true).size() >= 4, "referenced-field");
    }
}

// only what is defined earlier can be used
static void order()
{
    unsigned use = sx::choice("use", 5), how = sx::choice("target", 6);
    static const char* what[] = {"f", "f", "m", "m", "i"};
    Def d = {"", "y", 3};
    std::string def = defs(&d, 1, what[use]), t;
    std::string self = how == 4 ? "z" : how == 5 ? "a.z" : "y";
    switch (use) {
    case 0: t = "<fields>" + tag("ref", attr("name", "z") + attr("field", self)) + "</fields>"; break;
    case 1: t = "<fields>" + tag("string", attr("name", "z") + attr("reuse", self)) + "</fields>"; break;
    case 2: t = tag("message", attr("name", "z") + attr("reuse", self) + attr("id", "100")); break;
    case 3: t = tag("message", attr("name", "z") + attr("copyFieldsFrom", self) + attr("id", "100")); break;
    default: t = tag("interface", attr("name", "z") + attr("reuse", self)); break;
    }
    if (how == 5) t = tag("ns", attr("name", "a"), t);
    P p;
    std::string one, two;
    if (how == 0) one = def + t;
    else if (how == 1) one = t + def;
    else if (how == 2) { one = def; two = t; }
    else if (how == 3) { one = t; two = def; }
    else one = def + t;
    p.add("s1.xml", schema(one));
    if (!two.empty()) p.add("s2.xml", schema(two));
    bool got = p.validate();
    sxn_assert(got == (how == 0 || how == 2), "only-earlier-elements-can-be-referenced");
    if (got) sxn_reach("order");
}

// names of values
static void values()
{
    auto r = text("r", 1 + sx::choice("len", sxn_thorough() ? 6 : 5));
    unsigned place = sxn_thorough() || r.size() <= 3 ? sx::choice("place", 2) : 0;
    // numbers are not references
    sxn_assume(alpha(r[0]) | is(r[0], '@') | is(r[0], '.'));
    struct V { std::vector<std::string> path; int v; bool global; };
    static const std::vector<V> vs = {
        {{"i"}, 1, true}, {{"i", "S"}, 2, true}, {{"e"}, 3, true}, {{"e", "V"}, 4, true}, {{"e", "W"}, 3, true}, {{"b", "m"}, 5, true}, {{"b", "n"}, 7, true}, {{"b", "n", "V"}, 6, true}, {{"b", "n", "U"}, 7, true},
        {{"t"}, 1, true}, {{"t", "S"}, 2, true}, {{"o", "k"}, 12, true},
        {{"a", "i"}, 8, false}, {{"a", "e", "V"}, 9, false}, {{"a", "e"}, 0, false}, {{"a", "c", "i"}, 10, false}, {{"v", "p"}, 13, true}};
    static const std::string body =
        "<fields><int name=\"i\" type=\"uint8\" defaultValue=\"1\"><special name=\"S\" val=\"2\"/></int><enum name=\"e\" type=\"uint8\" defaultValue=\"W\"><validValue name=\"V\" val=\"4\"/><validValue name=\"W\" val=\"3\"/></enum>"
        "<bundle name=\"b\"><int name=\"m\" type=\"uint8\" defaultValue=\"5\"/><enum name=\"n\" type=\"uint8\" defaultValue=\"7\"><validValue name=\"V\" val=\"6\"/><validValue name=\"U\" val=\"7\"/></enum></bundle>"
        "<ref name=\"t\" field=\"i\"/><optional name=\"o\"><int name=\"k\" type=\"uint8\" defaultValue=\"12\"/></optional><variant name=\"v\"><int name=\"p\" type=\"uint8\" defaultValue=\"13\"/></variant></fields>"
        "<ns name=\"a\"><fields><int name=\"i\" type=\"uint8\" defaultValue=\"8\"/><enum name=\"e\" type=\"uint8\"><validValue name=\"V\" val=\"9\"/></enum></fields><ns name=\"c\"><fields><int name=\"i\" type=\"uint8\" defaultValue=\"10\"/></fields></ns></ns>";
    bool sref = false;
    auto path = split(r, sref);
    bool ok = false;
    int want = 0;
    if (!path.empty() && (!sref || equal(path[0], "s", false))) {
        unsigned from = sref ? 1 : 0;
        for (auto& v : vs) {
            if (v.path.size() != path.size() - from) continue;
            unsigned m = 1;
            unsigned fieldAt = v.global ? 0 : v.path[1] == "c" ? 2 : 1;
            for (size_t j = 0; j < v.path.size(); ++j) m &= equal(path[from + j], v.path[j], j == fieldAt);
            if (m) { ok = true; want = v.v; }
        }
    }
    std::string t = place ? tag("message", attr("name", "M") + attr("id", "1"), tag("int", attr("name", "z") + Leaf + attr("defaultValue", r))) : "<fields>" + tag("int", attr("name", "z") + Leaf + attr("defaultValue", r)) + "</fields>";
    P p;
    bool got = p.run(schema(body + t));
    sxn_assert(got == ok, "value-reference-accepted-iff-defined");
    if (!got) { sxn_reach("value-rejected"); return; }
    sxn_reach("value-accepted");
    ParseIntField f(place ? p.message("M").parseFields().at(0) : p.field("z"));
    sxn_assert(f.parseDefaultValue() == want, "value-reference-means-that-value");
}

void sx_harness()
{
    switch (sx::choice("scenario", 4)) {
    case 0: names(); break;
    case 1: refs(); break;
    case 2: order(); break;
    case 3: values(); break;
    }
}
