// P17: numbers in the generated COMMS definitions of integer fields are the numbers of the schema.
#include "gen.h"
#include "CommsGenerator.h"
#include "CommsProgramOptions.h"
using CG = Gen<commsdsl2comms::CommsGenerator, commsdsl2comms::CommsProgramOptions>;
void sx_prepare() {}

static std::string cppType(const IntT& t, unsigned len)
{
    unsigned l = t.var ? 8 : t.len; (void)len;
    return std::string(t.sig ? "std::int" : "std::uint") + dec(l * 8) + "_t";
}
// a value inside the type; the range excludes what the sign fork is for
static uint64_t value(const char* n, const IntT& t)
{
    if (t.len >= 8) return sx::u64(n);
    uint64_t v = sxn_var(n, t.len * 8, 0, maxOf(false, t.len * 8));
    if (t.sig) v = (uint64_t)((int64_t)(v << (64 - t.len * 8)) >> (64 - t.len * 8));
    return v;
}
// number of a template parameter of type intmax_t (uns: uintmax_t): a literal that does not fit is an error
static uint64_t param(const Text& x, bool uns, bool& good)
{
    V v = number(x, good);
    if (!good) return 0;
    bool neg = x.s.find('-') != std::string::npos;
    if (uns) { sxn_assert(!neg, "unsigned-param-negative"); }
    else sxn_assert((unsigned)!v.uns | (unsigned)((int64_t)v.v >= 0), "param-out-of-range");
    return v.v;
}
static const char* LIM(bool) { return ""; }
static std::string doc(const std::string& f) { (void)LIM; return schema("<fields><enum name=\"IdF\" type=\"uint8\" semanticType=\"messageId\"><validValue name=\"A\" val=\"1\"/></enum>" + f + "</fields><message name=\"M\" id=\"1\"><ref name=\"x\" field=\"f\"/></message>"); }

struct Def { Call base; std::vector<Call> opts; Text common, file; bool ok = false; };
static Def load(CG& g, const char* cls, size_t fromArg)
{
    Def d;
    d.file = g.file("include/s/field/F.h");
    d.base = baseOf(d.file, "F");
    if (!d.base.has) return d;
    size_t u = d.file.find("using Base =");
    if (u != std::string::npos) {
        size_t e = d.file.find(";", u);
        Call b2 = call(d.file.sub(u + 12, e));
        // both texts have to be the same
        Text a = d.base.text, b = b2.text;
        std::string x, y;
        for (size_t i = 0; i < a.size(); ++i) if (!strchr(" \n\t", a.s[i])) x += a.t[i];
        for (size_t i = 0; i < b.size(); ++i) if (!strchr(" \n\t", b.s[i])) y += b.t[i];
        unsigned same = x.size() == y.size();
        if (same) for (size_t i = 0; i < x.size(); ++i) same &= (unsigned)(x[i] == y[i]);
        sxn_assert(same, "base-alias-differs");
    }
    d.opts = options(d.base, fromArg);
    d.common = bodyOf(g.file("include/s/field/FCommon.h"), "struct FCommon");
    d.ok = d.base.name == cls && !d.common.empty();
    return d;
}

static void ints()
{
    const IntT& t = IntTypes[sx::choice("type", 10)];
    unsigned what = sx::choice("what", 6);
    std::string attrs = attr("type", t.name) + attr("name", "f"), kids;
    uint64_t dv = 0, a = 0, b = 0, a2 = 0, b2 = 0, sp = 0; int64_t so = 0; unsigned len = t.len, ranges = 0; uint64_t num1 = 1, den1 = 1; int64_t dof = 0;
    if (what == 0) { dv = value("default", t); attrs += attr("defaultValue", num(t, dv)); }
    if (what == 1) { sp = value("special", t); kids += tag("special", attr("name", "S") + attr("val", num(t, sp))); }
    if (what == 2 || what == 3) {
        a = value("min", t); b = what == 2 ? value("max", t) : a; ranges = 1;
        sxn_assume(le(t, a, b));
        kids += what == 2 ? tag("validRange", attr("value", "[" + num(t, a) + ", " + num(t, b) + "]")) : tag("validValue", attr("value", num(t, a)));
    }
    if (what == 4) {
        // two ranges; the second one in a small window of the first
        // (touching, overlapping, contained, apart)
        static const int Place[][3] = {{0, 1, 1}, {2, 3, 5}, {2, 2, 4}, {5, 1, 3}, {1, 3, 3}};
        const int* pl = Place[sx::choice("placement", 5)];
        a = value("min", t); b = a + pl[0]; a2 = a + pl[1]; b2 = a + pl[2]; ranges = 2;
        sxn_assume(t.var || t.len == 1 || t.len == 8);
        sxn_assume((unsigned)inType(t, b) & (unsigned)le(t, a, b) & (unsigned)inType(t, a2) & (unsigned)inType(t, b2) & (unsigned)le(t, a2, b2) & (unsigned)le(t, a, a2));
        kids += tag("validRange", attr("value", "[" + num(t, a) + ", " + num(t, b) + "]")) + tag("validRange", attr("value", "[" + num(t, a2) + ", " + num(t, b2) + "]"));
    }
    if (what == 5) {
        so = (int64_t)sxn_var("serOffset", 16, 0, 0xffff) - 0x8000; attrs += attr("serOffset", sx::shex(so));
        if (!t.var && t.len < 8) sxn_assume(true);
    }
    CG g;
    g.xml("s.xml", doc(tag("int", attrs, kids))).run("commsdsl2comms");
    if (g.rc != 0) { sxn_reach("int-refused"); sxn_assert(what == 5, "int-refused"); return; }
    Def d = load(g, "comms::field::IntValue", 3);
    sxn_assert(d.ok, "int-definition-missing");
    if (!d.ok) return;
    sxn_assert(d.base.args[1].is(cppType(t, len)), "int-value-type");
    bool good = true;
    uint64_t defv = 0; int64_t off = 0;
    uint64_t probe = value("value", t);
    unsigned valid = 0, hasValid = 0;
    for (auto& o : d.opts) {
        if (o.name == DEF_OPT "DefaultNumValue") { defv = param(o.args.at(0), false, good); sxn_assert((unsigned)inType(t, defv) | (unsigned)(big(t) ? 0 : 0), "default-out-of-type"); }
        else if (o.name == DEF_OPT "DefaultBigUnsignedNumValue") defv = param(o.args.at(0), true, good);
        else if (o.name == DEF_OPT "NumValueSerOffset") off = (int64_t)param(o.args.at(0), false, good);
        else if (o.name == DEF_OPT "ValidNumValueRange" || o.name == DEF_OPT "ValidNumValue") {
            uint64_t lo = param(o.args.at(0), false, good), hi = o.args.size() > 1 ? param(o.args.at(1), false, good) : lo;
            sxn_assert((int64_t)lo <= (int64_t)hi, "range-empty");
            valid |= (unsigned)le(t, lo, probe) & (unsigned)le(t, probe, hi); hasValid = 1;
        }
        else if (o.name == DEF_OPT "ValidBigUnsignedNumValueRange" || o.name == DEF_OPT "ValidBigUnsignedNumValue") {
            uint64_t lo = param(o.args.at(0), true, good), hi = o.args.size() > 1 ? param(o.args.at(1), true, good) : lo;
            sxn_assert(lo <= hi, "range-empty");
            sxn_assert(!t.sig, "big-unsigned-option-for-signed");
            valid |= (unsigned)(lo <= probe) & (unsigned)(probe <= hi); hasValid = 1;
        }
        else if (o.name == DEF_OPT "VarLength") { sxn_assert(t.var, "var-length"); }
        else if (o.name == DEF_OPT "HasName") {}
        else sxn_assert(false, "unexpected-option");
    }
    sxn_assert(good, "unreadable-number");
    sxn_assert(defv == dv, "default-value");
    sxn_assert(off == so, "ser-offset");
    if (ranges) {
        unsigned want = (unsigned)le(t, a, probe) & (unsigned)le(t, probe, b);
        if (ranges > 1) want |= (unsigned)le(t, a2, probe) & (unsigned)le(t, probe, b2);
        sxn_assert(hasValid == 1 && want == valid, "valid-ranges");
    } else sxn_assert(!hasValid, "valid-ranges-unexpected");
    if (what == 1) {
        Env env; env.cast = [&t](const std::string& ty, V v) { if (ty != "ValueType") v.ok = false; return v; };
        Text body = bodyOf(d.common, "valueS()");
        sxn_assert(!body.empty(), "special-function-missing");
        Res r = block(body, env);
        sxn_assert(!env.bad, "special-function");
        sxn_assert((unsigned)(r.ret == 1) & (unsigned)(r.val == sp), "special-value");
        sxn_assert(d.file.has("FCommon::valueS()"), "special-function-missing");
    }
    sxn_reach(what == 0 ? "int-default" : what == 1 ? "int-special" : what == 5 ? "int-offset" : what == 4 ? "int-two-ranges" : "int-range");
    (void)num1; (void)den1; (void)dof;
}

void sx_harness() { ints(); }
