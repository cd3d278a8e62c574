// Int valid ranges: for every value and protocol version, the reported set contains the value iff a declaration does.
#include "h.h"
void sx_prepare() { P p; p.run(schema("<fields><int name=\"f\" type=\"uint8\"/></fields>")); }

struct Decl { uint64_t lo = 0, hi = 0; unsigned since = 0, dep = ~0u; };
struct Ver { const char* attrs; unsigned since, dep; };
static const Ver Vers[] = {{"", 0, ~0u}, {" sinceVersion=\"2\"", 2, ~0u}, {" deprecated=\"4\"", 0, 4}, {" sinceVersion=\"2\" deprecated=\"4\"", 2, 4}};

static bool has(const IntT& t, const Decl& d, uint64_t x, unsigned v) { return (d.since <= v) & (v < d.dep) & (unsigned)le(t, d.lo, x) & (unsigned)le(t, x, d.hi); }

void sx_harness()
{
    static const unsigned Ts[] = {7, 6, 0, 3};
    static const unsigned Tq[] = {7, 6, 1};   // quick: fewer combinations for the types other than uint64
    unsigned scen = sx::choice("scenario", sxn_thorough() ? 4 : 3);
    // 0: two declarations of any form and version; 1: three ranges of one version; 2: on a field with versions of its own;
    // 3: four intervals of one version
    auto& t = scen == 0 ? IntTypes[Ts[sx::choice("type", sxn_thorough() ? 4 : 3)]] : IntTypes[Tq[sx::choice("type", scen >= 2 || !sxn_thorough() ? 2 : 3)]];
    std::string at = attr("name", "f") + attr("type", t.name), kids;
    unsigned fs = 0, fd = ~0u;
    if (scen == 2) { at += attr("sinceVersion", "1") + attr("deprecated", "5"); fs = 1; fd = 5; }
    unsigned n = scen == 0 || scen == 2 ? 2 : scen == 1 ? 3 : 4;
    std::vector<Decl> ds;
    bool valid = true;
    uint64_t tmin = typeMin(t), tmax = typeMax(t);
    unsigned prevForm = 0;
    for (unsigned i = 0; i < n; ++i) {
        std::string is = std::to_string(i);
        Decl d;
        d.since = fs; d.dep = fd;
        unsigned form = scen == 0 || scen == 2 ? sx::choice(("form" + is).c_str(), scen == 0 ? 9 : 3) : 1;
        // attribute forms once per kind
        if (i > 0 && (form == prevForm) && (form == 0 || form >= 4)) return;
        if (i > 0 && scen == 0 && form >= 2 && prevForm >= 2 && &t != &IntTypes[7] && !sxn_thorough()) return;
        if (form == 8 && prevForm != 1) return;
        prevForm = form;
        const Ver* v = &Vers[0];
        if (form >= 1 && form <= 3 && scen == 0 && (i == 0 || (form == 1 && (&t == &IntTypes[7] || sxn_thorough())))) v = &Vers[sx::choice(("ver" + is).c_str(), 4)];
        if (form >= 1 && form <= 3 && scen == 2) v = &Vers[sx::choice(("ver" + is).c_str(), 4)];
        if (v->since) d.since = v->since;
        if (v->dep != ~0u) d.dep = v->dep;
        uint64_t a = sx::u64(("a" + is).c_str()), b = a;
        if (form <= 1) {
            b = sx::u64(("b" + is).c_str());
            std::string r = "[" + num(t, a) + (i == 0 ? ", " : ",") + num(t, b) + "]";
            if (form == 0) at += attr("validRange", r); else kids += tag("validRange", attr("value", r) + v->attrs);
            d.lo = a; d.hi = b;
            if (scen == 1 && !sxn_thorough()) sxn_assume(le(t, a, b));
            valid = (unsigned)valid & (unsigned)le(t, a, b);
        }
        else if (form == 2 || form == 4) {
            if (form == 2) kids += tag("validValue", attr("value", num(t, a)) + v->attrs); else at += attr("validValue", num(t, a));
            d.lo = d.hi = a;
        }
        else if (form == 3) {
            if (sx::choice(("max" + is).c_str(), 2)) { kids += tag("validMax", attr("value", num(t, a)) + v->attrs); d.lo = tmin; d.hi = a; }
            else { kids += tag("validMin", attr("value", num(t, a)) + v->attrs); d.lo = a; d.hi = tmax; }
        }
        else if (form == 5) { at += attr("validMin", num(t, a)); d.lo = a; d.hi = tmax; }
        else if (form == 6) { at += attr("validMax", num(t, a)); d.lo = tmin; d.hi = a; }
        else if (form == 7) { at += attr("defaultValidValue", num(t, a)); d.lo = d.hi = a; valid = (unsigned)valid & (unsigned)inType(t, a); }
        else { kids += tag("validRange", "", "[" + num(t, a) + "," + num(t, a) + "]"); d.lo = d.hi = a; }
        ds.push_back(d);
    }
    P p;
    auto f1 = tag("int", at, kids);
    bool ok = p.run(schema(scen == 2 ? tag("message", attr("name", "M") + attr("id", "1"), f1) : "<fields>" + f1 + "</fields>", "", "6"));
    sxn_assert(ok == valid, "accepted-iff-ordered");
    if (!ok) { sxn_reach("rejected"); return; }
    sxn_reach("accepted");
    ParseIntField f(scen == 2 ? p.message("M").parseFields().at(0) : p.field("f"));
    auto& rs = f.parseValidRanges();
    sxn_assert(!rs.empty() && rs.size() <= n, "count");
    uint64_t x = sx::u64("x");
    sxn_assume(inType(t, x));
    unsigned bad = 0;
    for (unsigned v = 0; v <= 6; ++v) {
        unsigned want = 0, got = 0;
        for (auto& d : ds) want |= has(t, d, x, v);
        for (auto& r : rs) {
            Decl d;
            d.lo = r.m_min; d.hi = r.m_max; d.since = r.m_sinceVersion; d.dep = r.m_deprecatedSince;
            got |= has(t, d, x, v);
        }
        bad |= want ^ got;
    }
    sxn_assert(bad == 0, "valid-set-preserved");
}
