// P17: the generated COMMS definition of an enum field has the values of the schema.
#include "gen.h"
#include "CommsGenerator.h"
#include "CommsProgramOptions.h"
using CG = Gen<commsdsl2comms::CommsGenerator, commsdsl2comms::CommsProgramOptions>;
void sx_prepare() {}
static std::string cppType(const IntT& t) { unsigned l = t.var ? 8 : t.len; return std::string(t.sig ? "std::int" : "std::uint") + dec(l * 8) + "_t"; }
static uint64_t value(const char* n, const IntT& t)
{
    if (t.len >= 8) return sx::u64(n);
    uint64_t v = sxn_var(n, t.len * 8, 0, maxOf(false, t.len * 8));
    if (t.sig) v = (uint64_t)((int64_t)(v << (64 - t.len * 8)) >> (64 - t.len * 8));
    return v;
}
static uint64_t param(const Text& x, bool uns, bool& good)
{
    V v = number(x, good);
    if (!good) return 0;
    bool neg = x.s.find('-') != std::string::npos;
    if (uns) sxn_assert(!neg, "unsigned-param-negative");
    else sxn_assert((unsigned)!v.uns | (unsigned)((int64_t)v.v >= 0), "param-out-of-range");
    return v.v;
}
// quick: one of each family of types
static const IntT& pickType(unsigned what)
{
    static const std::vector<std::string> Quick[] = {{"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "intvar", "uintvar"}, {"uint8", "int64", "uint64"}, {"uint8", "uint64"}, {"int8", "uint64"}};
    static const std::vector<std::string> All[] = {{"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "intvar", "uintvar"}, {"int8", "uint8", "int64", "uint64", "intvar", "uintvar"},
        {"uint8", "uint16", "uint32", "uint64", "uintvar"}, {"int8", "uint16", "int64", "uint64"}};
    auto& l = sxn_thorough() ? All[what] : Quick[what];
    auto& n = l[sx::choice("type", l.size())];
    for (auto& t : IntTypes) if (n == t.name) return t;
    abort();
}
struct Named { std::string name; uint64_t v; };
void sx_harness()
{
    // 0: two free values, 1: seven values, 2: two free values in hex, 3: aliases of a value
    unsigned what = sx::choice("what", 4);
    const IntT& t = pickType(what);
    std::vector<Named> vals;
    auto add = [&](const char* n, uint64_t v) { vals.push_back({n, v}); };
    if (what == 1) {
        static const char* Nm[] = {"A", "B", "C", "D", "E", "F"};
        for (unsigned i = 0; i < 6; ++i) add(Nm[i], 10 + 10 * i);
        uint64_t v = value("v", t);
        sxn_assume((unsigned)!le(t, 5, v) | (unsigned)!le(t, v, 70));
        add("X", v);
    } else {
        uint64_t v = value("v", t), w;
        if (what == 3) w = v;
        else if (sxn_thorough()) w = value("w", t);
        else w = sx::choice("w", 2) ? typeMax(t) : t.sig ? (uint64_t)-7 : 3;
        if (what != 3) sxn_assume(v != w);
        add("V", v); add("W", w);
    }
    std::string kids;
    for (auto& v : vals) kids += tag("validValue", attr("name", v.name) + attr("val", num(t, v.v)));
    std::string attrs = attr("name", "f") + attr("type", t.name);
    if (what == 2) attrs += attr("hexAssign", "true");
    if (what == 3) attrs += attr("nonUniqueAllowed", "true");
    bool dflt = what != 0 || sx::choice("default", 2);
    uint64_t dv = dflt ? vals.back().v : 0;
    if (dflt) attrs += attr("defaultValue", vals.back().name);
    CG g;
    g.xml("s.xml", schema("<fields>" + tag("enum", attrs, kids) + "</fields><message name=\"M\" id=\"1\"><ref name=\"x\" field=\"f\"/></message>", "")).run("commsdsl2comms");
    sxn_assert(g.rc == 0, "enum-refused");
    if (g.rc != 0) return;
    Text file = g.file("include/s/field/F.h"), cf = g.file("include/s/field/FCommon.h");
    Text common = bodyOf(cf, "struct FCommon");
    size_t p = common.find("enum class ValueType : ");
    sxn_assert(p != std::string::npos, "enum-definition-missing");
    if (p == std::string::npos) return;
    size_t b = common.find("{", p);
    sxn_assert(common.sub(p + 23, b).trim().is(cppType(t)), "enum-underlying-type");
    std::vector<Named> en; bool good = true;
    std::map<std::string, size_t> idx;
    for (auto& x : split(bodyOf(common, "enum class ValueType").bare(), ',')) {
        if (x.empty()) continue;
        size_t e = x.find("=");
        sxn_assert(e != std::string::npos, "enum-value-without-number");
        if (e == std::string::npos) return;
        bool neg = x.s.find('-') != std::string::npos;
        V v = number(x.sub(e + 1, x.size()), good);
        sxn_assert(good, "unreadable-number");
        // has to fit the underlying type
        if (t.sig) sxn_assert((unsigned)inType(t, v.v) & ((unsigned)!v.uns | (unsigned)((int64_t)v.v >= 0)), "enum-value-out-of-type");
        else sxn_assert((unsigned)inType(t, v.v) & (unsigned)!neg, "enum-value-out-of-type");
        std::string n = x.sub(0, e).trim().s;
        sxn_assert(idx.find(n) == idx.end(), "enum-name-twice");
        idx[n] = en.size(); en.push_back({n, v.v});
    }
    unsigned okv = 1; uint64_t mx = vals[0].v, mn = vals[0].v;
    for (auto& v : vals) {
        auto it = idx.find(v.name);
        sxn_assert(it != idx.end(), "enum-value-missing");
        if (it == idx.end()) return;
        okv &= (unsigned)(en[it->second].v == v.v);
        mx = le(t, mx, v.v) ? v.v : mx; mn = le(t, v.v, mn) ? v.v : mn;
    }
    sxn_assert(okv, "enum-value-number");
    bool lim = idx.count("ValuesLimit");
    sxn_assert(en.size() == vals.size() + 2 + lim && idx.count("FirstValue") && idx.count("LastValue"), "enum-value-unexpected");
    if (!idx.count("FirstValue") || !idx.count("LastValue")) return;
    sxn_assert((unsigned)(en[idx["FirstValue"]].v == mn) & (unsigned)(en[idx["LastValue"]].v == mx), "enum-first-last");
    if (lim) sxn_assert((unsigned)(en[idx["ValuesLimit"]].v == mx + 1) & (unsigned)(mx != typeMax(t)), "enum-limit");
    else sxn_assert(mx == typeMax(t), "enum-limit-missing");

    auto enumerator = [&](Text x, uint64_t& v) { if (!x.starts("ValueType::")) return false; auto it = idx.find(x.s.substr(11)); if (it == idx.end()) return false; v = en[it->second].v; return true; };
    uint64_t probe = value("value", t);
    unsigned want = 0;
    for (auto& v : vals) want |= (unsigned)(v.v == probe);

    // options
    Call base = baseOf(file, "F");
    sxn_assert(base.name == "comms::field::EnumValue" && base.args.size() >= 2, "enum-definition-missing");
    uint64_t defv = 0; unsigned valid = 0, hasValid = 0;
    for (auto& o : options(base, 3)) {
        if (o.name == DEF_OPT "DefaultNumValue") defv = param(o.args.at(0), false, good);
        else if (o.name == DEF_OPT "DefaultBigUnsignedNumValue") defv = param(o.args.at(0), true, good);
        else if (o.name == DEF_OPT "ValidNumValueRange" || o.name == DEF_OPT "ValidNumValue") {
            uint64_t lo = param(o.args.at(0), false, good), hi = o.args.size() > 1 ? param(o.args.at(1), false, good) : lo;
            sxn_assert((int64_t)lo <= (int64_t)hi, "range-empty");
            valid |= (unsigned)le(t, lo, probe) & (unsigned)le(t, probe, hi); hasValid = 1;
        }
        else if (o.name == DEF_OPT "ValidBigUnsignedNumValueRange" || o.name == DEF_OPT "ValidBigUnsignedNumValue") {
            uint64_t lo = param(o.args.at(0), true, good), hi = o.args.size() > 1 ? param(o.args.at(1), true, good) : lo;
            sxn_assert(lo <= hi, "range-empty"); sxn_assert(!t.sig, "big-unsigned-option-for-signed");
            valid |= (unsigned)(lo <= probe) & (unsigned)(probe <= hi); hasValid = 1;
        }
        else if (o.name == DEF_OPT "VarLength" || o.name == DEF_OPT "HasName") {}
        else sxn_assert(false, "unexpected-option");
    }
    sxn_assert(good, "unreadable-number");
    sxn_assert(defv == dv, "default-value");
    Text vb = bodyOf(file, "bool valid() const");
    if (!vb.empty()) {
        sxn_assert(!hasValid, "valid-twice");
        sxn_assert(vb.has("Base::valid()") && vb.has("std::lower_bound("), "valid-function");
        Text list = bodyOf(vb, "Values[] =");
        uint64_t prev = 0; bool first = true; unsigned ordered = 1;
        for (auto& x : split(list.bare(), ',')) {
            uint64_t v = 0; sxn_assert(enumerator(x, v), "valid-list-name");
            if (!first) ordered &= (unsigned)lt(t, prev, v);
            prev = v; first = false; valid |= (unsigned)(v == probe);
        }
        sxn_assert(ordered, "valid-list-order");
        hasValid = 1; sxn_reach("valid-list");
    }
    sxn_assert(hasValid && valid == want, "valid-values");

    // names
    Text map = bodyOf(common, "static ValueNamesMapInfo valueNamesMap()");
    Text items = bodyOf(map, "Map[] =");
    sxn_assert(!items.empty(), "names-map-missing");
    auto list = split(items.bare(), ',');
    if (map.has("const char* Map[]")) {
        for (auto& v : vals) {
            unsigned found = 0;
            for (size_t i = 0; i < list.size(); ++i) {
                bool nm = list[i].is("\"" + v.name + "\"");
                if (what == 3) nm = list[i].is("\"V\"") || list[i].is("\"W\"");
                found |= (unsigned)(v.v == i) & (unsigned)nm;
            }
            sxn_assert(found, "name-of-value");
        }
        unsigned names = 0; for (auto& x : list) names += !x.is("nullptr");
        sxn_assert(names == (what == 3 ? 1u : vals.size()), "names-unexpected");
        sxn_reach("names-direct");
    } else {
        uint64_t prev = 0; bool first = true; unsigned ordered = 1, n = 0;
        for (auto& x : list) {
            sxn_assert(x.starts("std::make_pair(") && x.s.back() == ')', "names-map");
            auto kv = split(x.sub(15, x.size() - 1), ',');
            uint64_t v = 0;
            bool e = kv.size() == 2 && enumerator(kv[0], v);
            sxn_assert(e, "names-map-value"); if (!e) return;
            sxn_assert(kv[1].s == "\"" + kv[0].s.substr(11) + "\"", "name-of-value");
            if (!first) ordered &= (unsigned)lt(t, prev, v);
            prev = v; first = false; ++n;
        }
        sxn_assert(ordered, "names-order");
        sxn_assert(n == (what == 3 ? 1u : vals.size()), "names-unexpected");
        sxn_reach("names-search");
    }
    sxn_reach(what == 0 ? "enum-two" : what == 1 ? "enum-many" : what == 2 ? "enum-hex" : "enum-alias");
}
