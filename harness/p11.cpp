// Message identification: ids, orders and names of the messages of a schema.
#include "h.h"
void sx_prepare() { P p; p.run(schema("<ns name=\"a\"><message name=\"M\" id=\"1\"/><message name=\"N\" id=\"2\" order=\"1\"/></ns>")); }
static std::string is(const char* n, unsigned i) { return n + std::to_string(i); }
struct M { unsigned place; std::string name; uint64_t id = 0, order = 0; };
static const char* const Places[] = {"", "a", "a.b", "a.b.c", "d"};
static unsigned tree(unsigned p) { return p == 0 ? 0 : p == 4 ? 2 : 1; }
// text of the namespaces with the messages texts[place]
static std::string wrap(const std::string (&t)[5])
{
    std::string c = t[3].empty() ? "" : "<ns name=\"c\">" + t[3] + "</ns>";
    std::string b = t[2].empty() && c.empty() ? "" : "<ns name=\"b\">" + t[2] + c + "</ns>";
    std::string a = t[1].empty() && b.empty() ? "" : "<ns name=\"a\">" + b + t[1] + "</ns>";
    return a + t[0] + (t[4].empty() ? "" : "<ns name=\"d\">" + t[4] + "</ns>");
}
static void ids()
{
    unsigned n = sxn_thorough() ? 3 : 2 + sx::choice("third", 2);
    bool fixedPlaces = n == 3 && !sxn_thorough();
    unsigned allowed = sx::choice("nonUniqueAllowed", 3), split = fixedPlaces ? 0 : sx::choice("files", 2);
    std::vector<M> ms;
    std::string t[2][5];
    unsigned ok = 1;
    for (unsigned i = 0; i < n; ++i) {
        M m;
        m.place = fixedPlaces ? (i == 2 ? 2 : 1) : sx::choice(is("place", i).c_str(), 5);
        m.name = std::string("M") + char('z' - i);
        m.id = sx::u64(is("id", i).c_str());
        std::string at = attr("name", m.name) + attr("id", sx::hex(m.id));
        if (sx::choice(is("hasOrder", i).c_str(), 2)) { m.order = sx::range(is("order", i).c_str(), 0, 0x1ffffffff); at += attr("order", sx::hex(m.order)); ok &= (unsigned)(m.order <= 0xffffffff); }
        for (auto& o : ms) {
            unsigned diff = (unsigned)(o.id != m.id);
            if (allowed == 1) diff |= (unsigned)(o.order != m.order);
            if (tree(o.place) == tree(m.place)) ok &= diff;
        }
        ms.push_back(m);
        t[split && i > 0][m.place] += tag("message", at);
    }
    std::string at = allowed ? attr("nonUniqueMsgIdAllowed", allowed == 1 ? "true" : "false") : "";
    P p;
    p.add("s.xml", schema(wrap(t[0]), at));
    if (split) p.add("t.xml", schema(wrap(t[1]), at));
    bool r = p.validate();
    sxn_assert((unsigned)r == ok, "accepted-iff-ids-unique");
    if (!r) { sxn_assert(p.errors > 0, "rejection-reported"); sxn_reach("rejected"); return; }
    sxn_reach("accepted");
    auto all = p.p.parseSchemas().back().parseAllMessages();
    sxn_assert(all.size() == n, "all-messages-listed");
    for (unsigned i = 0; i + 1 < n; ++i)
        sxn_assert((unsigned)(all[i].parseId() < all[i + 1].parseId()) | ((unsigned)(all[i].parseId() == all[i + 1].parseId()) & (unsigned)(all[i].parseOrder() <= all[i + 1].parseOrder())), "messages-in-order-of-ids");
    for (auto& m : ms) {
        std::string ref = Places[m.place] + std::string(m.place ? "." : "") + m.name;
        auto f = p.message(ref);
        sxn_assert(f.parseValid() && f.parseName() == m.name, "message-found");
        sxn_assert((unsigned)(f.parseId() == m.id) & (unsigned)(f.parseOrder() == m.order), "message-id-and-order");
    }
}
// ids given by values of enums, orders kept by reuse
static void referenced()
{
    unsigned how = sx::choice("how", 6);
    uint64_t v = sx::u64("v"), w = sx::range("w", 0, 0xffff), id = sx::u64("id");
    std::string fields, at;
    uint64_t want = v;
    unsigned ok = 1;
    switch (how) {
    case 0: fields = tag("enum", attr("name", "E") + attr("type", "uint64") + attr("hexAssign", "true"), tag("validValue", attr("name", "A") + attr("val", sx::hex(v))) + tag("validValue", attr("name", "B") + attr("val", sx::hex(w)))); at = "E.A"; ok = (unsigned)(v != w); break;
    case 1: fields = tag("enum", attr("name", "E") + attr("type", "uint16"), tag("validValue", attr("name", "A") + attr("val", "0x1ffff")) + tag("validValue", attr("name", "B") + attr("val", sx::hex(w)))); at = "E.B"; ok = 0; break;
    case 2: fields = tag("enum", attr("name", "E") + attr("type", "uint64"), tag("validValue", attr("name", "A") + attr("val", sx::hex(v))) + tag("validValue", attr("name", "B") + attr("val", sx::hex(w)))); at = "E.C"; ok = 0; break;
    case 3: fields = "<ns name=\"n\"><fields>" + tag("enum", attr("name", "E") + attr("type", "uint32"), tag("validValue", attr("name", "A") + attr("val", sx::hex(v))) + tag("validValue", attr("name", "B") + attr("val", sx::hex(w)))) + "</fields></ns>"; at = "n.E.B"; want = w; ok = (unsigned)(v != w) & (unsigned)(v <= 0xffffffff); break;
    case 4: fields = tag("int", attr("name", "E") + attr("type", "uint64"), tag("special", attr("name", "A") + attr("val", sx::hex(v)))); at = "E.A"; ok = 0; break;
    case 5: at = sx::choice("text", 2) ? "" : "x"; ok = 0; break;
    }
    if (fields.compare(0, 3, "<ns") != 0) fields = "<fields>" + fields + "</fields>";
    P p;
    bool r = p.run(schema(fields + tag("message", attr("name", "M") + attr("id", at)) + tag("message", attr("name", "N") + attr("id", sx::hex(id)))));
    ok &= (unsigned)(id != want);
    sxn_assert((unsigned)r == ok, "accepted-iff-id-resolves");
    if (!r) { sxn_assert(p.errors > 0, "rejection-reported"); sxn_reach("ref-rejected"); return; }
    sxn_reach("ref-accepted");
    sxn_assert((unsigned)(p.message("M").parseId() == want) & (unsigned)(p.message("N").parseId() == id), "referenced-id");
}
// names within one namespace, id required, attributes given twice, reuse
static void names()
{
    unsigned how = sx::choice("how", 6);
    auto a = sx::chars("a", 2, '0', 'z'), b = sx::chars("b", 1, 'A', 'z');
    uint64_t o1 = sx::range("o1", 0, 0xffffffff), o2 = sx::range("o2", 0, 0xffffffff);
    std::string body;
    auto letter = [](unsigned char c) { return ((unsigned)(c >= 'a') & (unsigned)(c <= 'z')) | ((unsigned)(c >= 'A') & (unsigned)(c <= 'Z')) | (unsigned)(c == '_'); };
    auto digit = [](unsigned char c) { return (unsigned)(c >= '0') & (unsigned)(c <= '9'); };
    for (char c : a) sxn_assume(c != '<');
    unsigned ok = 1, n = 2, order2 = 0;
    uint64_t want = 0;
    switch (how) {
    case 0: body = tag("message", attr("name", a) + attr("id", "1")) + tag("message", attr("name", "Ab") + attr("id", "2")); ok = letter(a[0]) & (letter(a[1]) | digit(a[1])) & (((unsigned)(a[0] != 'A') & (unsigned)(a[0] != 'a')) | (unsigned)(a[1] != 'b')); break;  // class names: the first letter's case does not tell names apart
    case 1: body = tag("message", attr("name", a) + attr("id", "1")) + "<ns name=\"x\">" + tag("message", attr("name", "Ab") + attr("id", "1")) + "</ns>"; ok = letter(a[0]) & (letter(a[1]) | digit(a[1])); break;
    case 2: body = tag("message", attr("name", b)); ok = 0; break;
    case 3: body = tag("message", attr("name", "M") + attr("id", "1"), tag("id", "", "2")); ok = 0; break;
    case 4: body = tag("message", attr("name", "M") + attr("id", "1") + attr("order", sx::hex(o1))) + tag("message", attr("name", "N") + attr("reuse", "M") + attr("id", "2")); want = o1; order2 = 1; break;
    case 5: body = tag("message", attr("name", "M") + attr("id", "1") + attr("order", sx::hex(o1))) + tag("message", attr("name", "N") + attr("reuse", "M") + attr("id", "2") + attr("order", sx::hex(o2))); want = o2; order2 = 1; break;
    }
    P p;
    bool r = p.run(schema(body));
    sxn_assert((unsigned)r == ok, "accepted-iff-names-valid-and-unique");
    if (!r) { sxn_assert(p.errors > 0, "rejection-reported"); sxn_reach("name-rejected"); return; }
    sxn_reach("name-accepted");
    auto all = p.p.parseSchemas().back().parseAllMessages();
    sxn_assert(all.size() == n, "all-messages-listed");
    if (how == 0) sxn_assert((unsigned)(all[0].parseName() == a) & 1, "message-name");
    if (order2) sxn_assert((unsigned)(all[1].parseOrder() == want) & (unsigned)(all[0].parseOrder() == o1), "reused-order");
}
void sx_harness()
{
    switch (sx::choice("scenario", 3)) {
    case 0: ids(); break;
    case 1: referenced(); break;
    case 2: names(); break;
    }
}
