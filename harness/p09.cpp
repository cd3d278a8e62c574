// List fields: one way to know where the list ends, element definition, element length prefix.
#include "h.h"
void sx_prepare() { P p; p.run(schema("<fields><list name=\"f\" count=\"2\"><int name=\"d\" type=\"uint8\"/></list></fields>")); }

static const char* Names[] = {"", "countPrefix", "lengthPrefix", "termSuffix", "count", "elemLengthPrefix"};
static std::string glob()
{
    return tag("int", attr("name", "gp") + attr("type", "uint16")) + tag("float", attr("name", "gf") + attr("type", "float")) +
        tag("bundle", attr("name", "gl") + attr("semanticType", "length"), tag("int", attr("name", "n") + attr("type", "uint8") + attr("semanticType", "length")));
}
static std::string inBundle(const std::string& f, const std::string& pre)
{
    return "<fields>" + glob() + pre + tag("bundle", attr("name", "b"), tag("int", attr("name", "s1") + attr("type", "uint8")) + tag("float", attr("name", "s2") + attr("type", "float")) + f + tag("int", attr("name", "s3") + attr("type", "uint8"))) + "</fields>";
}
// 1 child int, 2 attr int, 3 $sibling int, 4 attr semantic length; refused: 5 attr float, 6 unknown, 7 child float, 8 $sibling float, 9 $, 10 $later, 11 empty child, 12 empty
static bool put(unsigned form, unsigned how, uint64_t cnt, std::string& at, std::string& kids)
{
    const char* n = Names[form];
    if (form == 4) { at += attr(n, sx::hex(cnt)); return ((unsigned)(cnt != 0) & (unsigned)(cnt <= 0xffffffff)) != 0; }
    switch (how) {
    case 1: kids += tag(n, "", "<int name=\"p\" type=\"uint8\"/>"); return true;
    case 2: at += attr(n, "gp"); return true;
    case 3: at += attr(n, "$s1"); return true;
    case 4: at += attr(n, "gl"); return true;
    case 5: at += attr(n, "gf"); return false;
    case 6: at += attr(n, "nothing"); return false;
    case 7: kids += tag(n, "", "<float name=\"p\" type=\"float\"/>"); return false;
    case 8: at += attr(n, "$s2"); return false;
    case 9: at += attr(n, "$"); return false;
    case 10: at += attr(n, "$s3"); return false;
    case 11: kids += tag(n, ""); return false;
    default: at += attr(n, ""); return false;
    }
}
static void name(bool has, const ParseField& f, const std::string& det, unsigned how, const char* key)
{
    sxn_assert(has == (how == 1 || how == 2 || how == 4) && det == (how == 3 ? "s1" : ""), key);
    if (has) sxn_assert(f.parseName() == (how == 1 ? "p" : how == 2 ? "gp" : "gl"), key);
}

// up to two declarations of the end, in a reused list and in the list itself
static void forms()
{
    unsigned reuse = sx::choice("reuse", 2), n = sx::choice("forms", 3), form[2] = {}, how[2] = {}, where[2] = {};
    uint64_t c[2] = {};
    std::string at[2], kids[2];
    bool ok = true, detachedReused = false;
    static const unsigned H2[] = {1, 2, 3, 4};
    for (unsigned i = 0; i < n; ++i) {
        std::string is = std::to_string(i);
        form[i] = 1 + sx::choice(("form" + is).c_str(), 4);
        where[i] = reuse ? sx::choice(("where" + is).c_str(), 2) : 1;
        if (form[i] == 4) c[i] = sx::range(("count" + is).c_str(), 0, 0x1ffffffff);
        else how[i] = n == 1 ? 1 + sx::choice(("how" + is).c_str(), 12) : H2[sx::choice(("how" + is).c_str(), 4)];
        if (form[i] == 3 && (how[i] == 3 || how[i] == 8 || how[i] == 9 || how[i] == 10)) return;     // siblings of the suffix are not looked at
        if (how[i] == 3 && where[i] == 0) detachedReused = true;
        if (how[i] >= 8 && how[i] <= 10 && where[i] == 0) detachedReused = true;
        ok = (unsigned)put(form[i], how[i], c[i], at[where[i]], kids[where[i]]) & (unsigned)ok;
    }
    if (detachedReused) return;     // only in bundles and messages
    unsigned last = n ? n - 1 : 0;
    if (n == 2) {
        if (form[0] != form[1]) ok = false;
        else if (where[0] == where[1]) {
            if (form[0] == 4 || (how[0] != 1 && how[1] != 1)) return;      // the same attribute twice is not a document
            ok = false;                        // given twice
        }
        else if (where[0] == 1) last = 0;
    }
    std::string elem = "<element><int name=\"e\" type=\"uint8\"/></element>";
    unsigned we = reuse ? sx::choice("elementWhere", 2) : 1;
    if (we) kids[1] += elem; else kids[0] += elem;
    std::string pre;
    if (reuse) pre = tag("list", attr("name", "o") + at[0], we ? kids[0] + "<element><int name=\"oe\" type=\"uint16\"/></element>" : kids[0]);
    P p;
    bool r = p.run(schema(inBundle(tag("list", attr("name", "f") + at[1] + (reuse ? attr("reuse", "o") : ""), kids[1]), pre)));
    sxn_assert(r == ok, "form-accepted-iff-single");
    if (!r) { sxn_assert(p.errors > 0, "rejection-reported"); sxn_reach("form-rejected"); return; }
    sxn_reach("form-accepted");
    ParseListField f(ParseBundleField(p.field("b")).parseMembers().at(2));
    probe(f);
    unsigned fm = n ? form[last] : 0, h = how[last];
    sxn_assert(f.parseFixedCount() == (fm == 4 ? c[last] : 0), "count");
    name(f.parseHasCountPrefixField(), f.parseHasCountPrefixField() ? f.parseCountPrefixField() : ParseField(nullptr), f.parseDetachedCountPrefixFieldName(), fm == 1 ? h : 0, "count-prefix");
    name(f.parseHasLengthPrefixField(), f.parseHasLengthPrefixField() ? f.parseLengthPrefixField() : ParseField(nullptr), f.parseDetachedLengthPrefixFieldName(), fm == 2 ? h : 0, "length-prefix");
    name(f.parseHasTermSuffixField(), f.parseHasTermSuffixField() ? f.parseTermSuffixField() : ParseField(nullptr), f.parseDetachedTermSuffixFieldName(), fm == 3 ? h : 0, "term-suffix");
    sxn_assert(f.parseElementField().parseName() == "e", "element");
    sxn_assert(!f.parseHasElemLengthPrefixField() && f.parseDetachedElemLengthPrefixFieldName().empty() && !f.parseElemFixedLength(), "no-element-prefix");
}

// the length prefix of the element and the promise of its fixed length
static void elemPrefix()
{
    unsigned how = sx::choice("how", 13), fix = sx::choice("fixed", 4), kind = sx::choice("element", 4), end = sx::choice("end", 2), reuse = sx::choice("reuse", 2);
    uint64_t e = sx::range("len", 1, 0xffffffff);
    std::string at[2], kids[2];
    bool ok = true;
    unsigned wp = reuse ? sx::choice("prefixWhere", 2) : 1, wf = reuse ? sx::choice("fixedWhere", 2) : 1;
    if (reuse && wp == 0 && (how == 3 || (how >= 8 && how <= 10))) return;
    if (how) ok = put(5, how, 0, at[wp], kids[wp]);
    if (fix) at[wf] += attr("elemFixedLength", fix == 1 ? "true" : fix == 2 ? "false" : "maybe");
    if (fix == 3) ok = false;
    if (how == 3 && fix != 1) ok = false;
    // the element: fixed data, prefixed data, optional, bundle of both
    static const char* E[] = {"", "<lengthPrefix><int name=\"lp\" type=\"uint8\"/></lengthPrefix>", "", ""};
    std::string el;
    if (kind == 0) el = tag("data", attr("name", "e") + attr("length", sx::hex(e)));
    if (kind == 1) el = tag("data", attr("name", "e"), E[1]);
    if (kind == 2) el = tag("optional", attr("name", "e"), tag("data", attr("name", "ee") + attr("length", sx::hex(e))));
    unsigned same = kind == 3 ? sx::choice("same", 2) : 0;
    if (kind == 3) el = tag("bundle", attr("name", "e"), tag("data", attr("name", "ee") + attr("length", sx::hex(e))) + tag(same ? "string" : "variant", attr("name", "v") + (same ? attr("length", "2") : ""), same ? "" : tag("int", attr("name", "i1") + attr("type", "uint8"))));
    bool fixedLen = kind == 0;
    if (same) fixedLen = true;
    if (fix == 1 && !fixedLen) ok = false;
    kids[1] += "<element>" + el + "</element>";
    if (end) at[1] += attr("count", "3");
    std::string pre;
    if (reuse) pre = tag("list", attr("name", "o") + at[0], kids[0] + "<element><int name=\"oe\" type=\"uint16\"/></element>");
    P p;
    bool r = p.run(schema(inBundle(tag("list", attr("name", "f") + at[1] + (reuse ? attr("reuse", "o") : ""), kids[1]), pre)));
    sxn_assert(r == ok, "element-prefix-accepted-iff-fitting");
    if (!r) { sxn_assert(p.errors > 0, "rejection-reported"); sxn_reach("elem-rejected"); return; }
    sxn_reach("elem-accepted");
    ParseListField f(ParseBundleField(p.field("b")).parseMembers().at(2));
    probe(f);
    name(f.parseHasElemLengthPrefixField(), f.parseHasElemLengthPrefixField() ? f.parseElemLengthPrefixField() : ParseField(nullptr), f.parseDetachedElemLengthPrefixFieldName(), how, "element-length-prefix");
    sxn_assert(f.parseElemFixedLength() == (fix == 1), "element-fixed-length");
    sxn_assert(f.parseFixedCount() == (end ? 3u : 0u), "count");
    auto el2 = f.parseElementField();
    sxn_assert(el2.parseName() == "e" && el2.parseKind() == (kind <= 1 ? ParseField::ParseKind::Data : kind == 2 ? ParseField::ParseKind::Optional : ParseField::ParseKind::Bundle), "element");
    if (kind == 0) sxn_assert(ParseDataField(el2).parseFixedLength() == e, "element-length");
}

// how the element is given
static void element()
{
    unsigned way = sx::choice("way", 10), reuse = sx::choice("reuse", 2);
    std::string at, kids;
    bool ok = true;
    std::string want = "e";
    switch (way) {
    case 0: ok = reuse; want = "oe"; break;
    case 1: kids = "<int name=\"e\" type=\"uint8\"/>"; break;
    case 2: kids = "<element><int name=\"e\" type=\"uint8\"/></element>"; break;
    case 3: at = attr("element", "gp"); want = "gp"; break;
    case 4: at = attr("element", "nothing"); ok = false; break;
    case 5: at = attr("element", "gp"); kids = "<element><int name=\"e\" type=\"uint8\"/></element>"; return;
    case 6: kids = "<int name=\"e\" type=\"uint8\"/><int name=\"e2\" type=\"uint8\"/>"; ok = false; break;
    case 7: kids = "<element><int name=\"e\" type=\"uint8\"/><int name=\"e2\" type=\"uint8\"/></element>"; ok = false; break;
    case 8: kids = "<element/>"; ok = false; break;
    case 9: kids = "<int name=\"e\" type=\"uint8\"/><countPrefix><int name=\"p\" type=\"uint8\"/></countPrefix>"; ok = false; break;
    }
    uint64_t c = sx::range("count", 1, 0xffffffff);
    std::string pre;
    if (reuse) pre = tag("list", attr("name", "o") + attr("count", sx::hex(c)), "<element><int name=\"oe\" type=\"uint16\"/></element>");
    P p;
    bool r = p.run(schema(inBundle(tag("list", attr("name", "f") + at + (reuse ? attr("reuse", "o") : ""), kids), pre)));
    sxn_assert(r == ok, "element-accepted-iff-single");
    if (!r) { sxn_assert(p.errors > 0, "rejection-reported"); sxn_reach("element-rejected"); return; }
    sxn_reach("element-accepted");
    ParseListField f(ParseBundleField(p.field("b")).parseMembers().at(2));
    probe(f);
    sxn_assert(f.parseElementField().parseName() == want, "element");
    sxn_assert(f.parseFixedCount() == (reuse ? c : 0), "reused-count");
    if (reuse) sxn_assert(ParseListField(p.field("o")).parseElementField().parseName() == "oe", "reused-list-untouched");
}

void sx_harness()
{
    switch (sx::choice("scenario", 3)) {
    case 0: forms(); break;
    case 1: elemPrefix(); break;
    case 2: element(); break;
    }
}
