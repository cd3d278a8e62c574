// Reuse: a field given as another one with changes is the field with all of it written out.
#include "dump.h"
void sx_prepare() { P p; p.run(schema("<fields><int name=\"f\" type=\"uint8\"/><int name=\"g\" reuse=\"f\"/></fields>")); }

// `b` may be the same as `a`. '#' in a text: a number 0..255. kind of atom: attribute that replaces,
// fixed attribute (may only be repeated), child that adds up, attribute that is not taken over
enum How { Set, Fixed, Add, Own };
struct Atom { How how; const char* name; const char* a; const char* b; };
// common to all the kinds
static const Atom Common[] = {
    {Set, "displayName", "da", "db"}, {Set, "description", "ta", "tb"}, {Set, "semanticType", "length", "messageId"}, {Set, "pseudo", "true", "0"},
    {Set, "fixedValue", "true", "false"}, {Set, "customizable", "1", "false"}, {Set, "failOnInvalid", "true", "false"}, {Set, "forceGen", "true", "0"},
    {Own, "valueOverride", "replace", "extend"}, {Own, "readOverride", "extend", "any"}, {Own, "writeOverride", "replace", "none"}, {Own, "refreshOverride", "none", "extend"},
    {Own, "lengthOverride", "extend", "replace"}, {Own, "validOverride", "any", "none"}, {Own, "nameOverride", "extend", "replace"}, {Set, "validateMinLength", "#", "#"},
    {Add, "x", "<x_k a='1'/>", "<x_l>q</x_l>"}, {Set, "displayReadOnly", "true", "false"}};
static const Atom Int[] = {
    {Fixed, "length", "#", "#"}, {Set, "defaultValue", "#", "#"}, {Set, "endian", "little", "big"}, {Set, "units", "mm", "m"}, {Set, "scaling", "1/#", "#/3"}, {Set, "serOffset", "#", "#"},
    {Add, "r", "<validRange value='[#,100]'/>", "<validRange value='[#,120]'/>"}, {Add, "v", "<validValue value='#'/>", "<validValue value='#' sinceVersion='2'/>"},
    {Set, "validCheckVersion", "true", "false"}, {Add, "s", "<special name='A' val='#'/>", "<special name='B' val='#' deprecated='3' description='d'/>"},
    {Set, "nonUniqueSpecialsAllowed", "true", "false"}, {Set, "displayDecimals", "#", "#"}, {Set, "displayOffset", "#", "#"}, {Set, "signExt", "false", "true"},
    {Set, "displaySpecials", "true", "false"}, {Set, "availableLengthLimit", "true", "false"}, {Set, "defaultValidValue", "#", "#"}, {Fixed, "type", "int16", "int16"}};
static const Atom Enum[] = {
    {Fixed, "length", "#", "#"}, {Set, "defaultValue", "#", "#"}, {Set, "endian", "little", "big"}, {Set, "nonUniqueAllowed", "true", "false"}, {Set, "validCheckVersion", "true", "false"},
    {Set, "hexAssign", "true", "false"}, {Set, "availableLengthLimit", "true", "false"}, {Add, "v", "<validValue name='A' val='#'/>", "<validValue name='B' val='#' sinceVersion='1' displayName='e'/>"},
    {Add, "w", "<validValue name='C' val='#'/>", "<validValue name='C' val='#'/>"}, {Set, "defaultValue", "V", "A"}};
static const Atom SetA[] = {
    {Set, "defaultValue", "true", "false"}, {Set, "endian", "little", "big"}, {Set, "reservedValue", "true", "false"}, {Set, "validCheckVersion", "true", "false"},
    {Set, "nonUniqueAllowed", "true", "false"}, {Set, "availableLengthLimit", "true", "false"}, {Fixed, "type", "uint16", "uint16"}, {Fixed, "length", "2", "2"},
    {Add, "b", "<bit name='A' idx='#'/>", "<bit name='B' idx='#' defaultValue='true'/>"}, {Add, "c", "<bit name='C' idx='#' reserved='true'/>", "<bit name='C' idx='#'/>"}};
static const Atom Float[] = {
    {Set, "defaultValue", "1.5", "nan"}, {Set, "endian", "little", "big"}, {Add, "r", "<validRange value='[1.5,2.5]'/>", "<validRange value='[2.0,7.5]'/>"}, {Add, "v", "<validValue value='5'/>", "<validValue value='nan'/>"},
    {Add, "f", "<validMin value='9'/>", "<validMax value='-1'/>"}, {Set, "validCheckVersion", "true", "false"}, {Set, "units", "mm", "m"}, {Set, "displayDecimals", "#", "#"},
    {Set, "nonUniqueSpecialsAllowed", "true", "false"}, {Set, "displaySpecials", "true", "false"}, {Add, "s", "<special name='A' val='1.5'/>", "<special name='B' val='1.5'/>"}, {Add, "t", "<special name='C' val='nan'/>", "<special name='C' val='2.5'/>"},
    {Fixed, "type", "float", "double"}, {Add, "u", "<validFullRange value='true'/>", ""}};
static const Atom String[] = {
    {Set, "encoding", "ea", "eb"}, {Set, "length", "#", "#"}, {Set, "lengthPrefix", "p8", "p16"}, {Set, "zeroTermSuffix", "true", "false"}, {Set, "defaultValue", "abc", "defg"},
    {Add, "v", "<validValue value='abc'/>", "<validValue value='xy' sinceVersion='1'/>"}, {Set, "defaultValidValue", "#", "#"}, {Add, "lengthPrefix", "<lengthPrefix><int name='l' type='uint16'/></lengthPrefix>", ""}};
static const Atom Data[] = {
    {Set, "length", "#", "#"}, {Set, "lengthPrefix", "p8", "p16"}, {Set, "defaultValue", "ab cd", "010203"},
    {Add, "v", "<validValue value='ab cd'/>", "<validValue value='7f' deprecated='3'/>"}, {Set, "defaultValidValue", "#", "#"}, {Add, "lengthPrefix", "<lengthPrefix><int name='l' type='uint16'/></lengthPrefix>", ""}};
#define CND "<validCond><or><validCond value='$m1 = 1'/><validCond value='!$m2.b1'/></or></validCond>"
#define CNE "<validCond><and><validCond value='$m1 &lt; 3'/><validCond value='$m2.b0'/></and></validCond>"
static const Atom Bitfield[] = {
    {Set, "endian", "little", "big"}, {Set, "validCond", "$m1 = 3", "!$m2.b0"}, {Set, "copyValidCondFrom", "gb", "gb"}, {Add, "validCond", CND, ""}};
static const Atom Bundle[] = {
    {Set, "validCond", "$m1 = 3", "!$m2.b0"}, {Set, "copyValidCondFrom", "gbu", "gbu"}, {Add, "al", "<alias name='q' field='$m1' description='d'/>", "<alias name='w' field='$m2'/>"}, {Add, "validCond", CND, ""},
    {Set, "reuseAliases", "true", "true"}};
static const Atom List[] = {
    {Set, "count", "#", "#"}, {Set, "elemFixedLength", "true", "false"}, {Set, "element", "p8", "p16"}, {Set, "countPrefix", "p8", "p16"}, {Set, "lengthPrefix", "p8", "p16"},
    {Set, "elemLengthPrefix", "p8", "p16"}, {Set, "termSuffix", "p8", "p16"}, {Add, "countPrefix", "<countPrefix><int name='l' type='uint16'/></countPrefix>", ""},
    {Add, "elemLengthPrefix", "<elemLengthPrefix><int name='l' type='uint8'/></elemLengthPrefix>", ""}, {Add, "termSuffix", "<termSuffix><int name='l' type='uint8'/></termSuffix>", ""}};
static const Atom Optional[] = {
    {Set, "defaultMode", "missing", "exists"}, {Set, "missingOnReadFail", "true", "false"}, {Set, "missingOnInvalid", "true", "false"}, {Set, "displayExtModeCtrl", "true", "false"}, {Set, "field", "p8", "p16"}};
static const Atom Variant[] = {{Set, "defaultMember", "m1", "1"}, {Set, "displayIdxReadOnlyHidden", "true", "false"}, {Set, "defaultMember", "#", "-1"}};
static const Atom Ref[] = {{Set, "field", "p8", "p16"}};
#define N(a) sizeof(a) / sizeof(a[0])
#define MEMB(x) "<members><int name='m1' type='uint8'" x(3) "/><set name='m2'" x(5) "><bit name='b0' idx='0'/><bit name='b1' idx='3'/></set></members>"
#define BITS(n) " bitLength='" #n "'"
#define LEN1(n) " length='1'"
static const struct { const char* name; const char* base; const char* kids; const Atom* atoms; unsigned n; } Kinds[] = {
    {"int", " type='int16'", "", Int, N(Int)}, {"enum", " type='uint8'", "<validValue name='V' val='0'/>", Enum, N(Enum)}, {"set", " length='2'", "<bit name='Z' idx='0'/>", SetA, N(SetA)},
    {"float", " type='float'", "", Float, N(Float)}, {"string", "", "", String, N(String)}, {"data", "", "", Data, N(Data)},
    {"bitfield", "", "<members><int name='m1' type='uint8' bitLength='3'/><set name='m2' bitLength='5'><bit name='b0' idx='0'/><bit name='b1' idx='3'/></set></members>", Bitfield, N(Bitfield)},
    {"bundle", "", "<members><int name='m1' type='uint8'/><set name='m2' length='1'><bit name='b0' idx='0'/><bit name='b1' idx='3'/></set></members>", Bundle, N(Bundle)},
    {"list", "", "<element><int name='e' type='uint32'/></element>", List, N(List)},
    {"optional", "", "<field><int name='e' type='uint32'/></field>", Optional, N(Optional)},
    {"variant", "", "<members><int name='m1' type='uint8'/><int name='m2' type='uint8'/></members>", Variant, N(Variant)},
    {"ref", " field='p8'", "", Ref, N(Ref)}};
static std::string inst(const std::string& t, uint64_t v)
{
    auto p = t.find('#');
    return p == std::string::npos ? t : t.substr(0, p) + sx::hex(v) + t.substr(p + 1);
}
static const std::string Pre =
    "<int name='p8' type='uint8'/><int name='p16' type='uint16'/>"
    "<bitfield name='gb'><members><int name='m1' type='uint8' bitLength='3'/><set name='m2' bitLength='5'><bit name='b0' idx='0'/></set></members>" CNE "</bitfield>"
    "<bundle name='gbu'><members><int name='m1' type='uint8'/><set name='m2' length='1'><bit name='b0' idx='0'/></set></members>" CNE "</bundle>";
static std::string doc(const std::string& fields) { return schema("<fields>" + fields + "</fields>"); }

struct Pick { const Atom* a; unsigned where; uint64_t v[2]; };
static void props()
{
    unsigned kc = sx::choice("kind", N(Kinds));
    auto& K = Kinds[kc];
    unsigned nc = N(Common), total = K.n + nc;
    unsigned i = sx::choice("first", total), j = i;
    // pairs: every two of the kind, of the common ones neighbours only
    if (i < K.n) j = i + sx::choice("second", K.n - i);
    else if (i + 1 < total) j = i + sx::choice("second", 2);
    std::vector<Pick> picks;
    picks.push_back({i < K.n ? &K.atoms[i] : &Common[i - K.n], sx::choice("where0", 3), {}});
    if (j != i) picks.push_back({j < K.n ? &K.atoms[j] : &Common[j - K.n], sx::choice("where1", 3), {}});
    if (picks.size() == 2 && (std::string(picks[0].a->name) == picks[1].a->name || (std::string(picks[0].a->name) == "defaultValue" && std::string(picks[1].a->name) == "defaultValidValue"))) return;
    std::string at[3], kids[4];   // reused field, field, all written out; [3]: what comes from the reused one
    unsigned fixedOk = 1;
    bool condIn[2] = {};
    for (size_t k = 0; k < picks.size(); ++k) {
        auto& p = picks[k];
        std::string t[2] = {p.a->a, p.a->b};
        for (unsigned w = 0; w < 2; ++w) if (t[w].find('#') != std::string::npos) { p.v[w] = sx::range((std::string("v") + char('0' + k) + char('a' + w)).c_str(), 0, 255); t[w] = inst(t[w], p.v[w]); }
        bool in[2] = {p.where != 1, p.where != 0};
        if (std::string(p.a->name).substr(0, 9) == "nonUnique" && p.where == 2) return;           // what was allowed stays
        if (std::string(p.a->name) == "defaultValidValue" && p.where == 2) return;   // also one more valid value
        if (std::string(p.a->name) == "validCond" || std::string(p.a->name) == "copyValidCondFrom") condIn[0] |= in[0];
        if (std::string(p.a->name) == "copyValidCondFrom") condIn[1] |= in[1];
        if (p.a->how == Add) {
            for (unsigned w = 0; w < 2; ++w) if (in[w]) { kids[w] += t[w]; (w ? kids[2] : kids[3]) += t[w]; }
            if (in[1] && t[1].empty()) return;
            continue;
        }
        for (unsigned w = 0; w < 2; ++w) if (in[w]) at[w] += attr(p.a->name, t[w]);
        if (p.a->how != Own || in[1]) at[2] += attr(p.a->name, in[1] ? t[1] : t[0]);
        if (p.a->how == Fixed) {
            if (in[1] && !in[0]) return;
            if (in[0] && in[1]) {
                if (std::string(p.a->a) != p.a->b) fixedOk = 0;
                else if (t[0].find("0x") != std::string::npos) fixedOk = (unsigned)(p.v[0] == p.v[1]);
            }
        }
    }
    std::string base = K.base;
    for (auto& p : picks) if (std::string(p.a->name) == "type" || (kc == 2 && std::string(p.a->name) == "length") || (kc == 11 && std::string(p.a->name) == "field" && p.where != 1)) base = "";
    std::string bk = K.kids;
    std::string own = bk + kids[3];
    if (kc == 2)   // bits have the defaults of the field that declares them
        for (auto& p : picks) if (std::string(p.a->name) == "defaultValue" || std::string(p.a->name) == "reservedValue")
            for (size_t at = 0; (at = own.find("<bit ", at)) != std::string::npos; at += 5) own.insert(at + 5, std::string(p.a->name) + "='" + (p.where != 1 ? "true" : "false") + "' ");
    std::string o = tag(K.name, attr("name", "o") + base + at[0], bk + kids[0]);
    P p1;
    if (!p1.run(doc(Pre + o))) { sxn_reach("reused-field-refused"); return; }
    P p2, p3;
    bool r2 = p2.run(doc(Pre + o + tag(K.name, attr("name", "f") + attr("reuse", "o") + at[1], kids[1])));
    std::string full = base;
    for (auto& p : picks) if (kc == 11 && std::string(p.a->name) == "field") full = "";
    bool r3 = p3.run(doc(Pre + tag(K.name, attr("name", "f") + full + at[2], own + kids[2])));
    if (condIn[0] && condIn[1]) { sxn_assert(!r2, "second-condition-copy-refused"); return; }
    // two ways to tell the end given at different places: their rules are those of P08 and P09
    auto end = [](const std::string& n) { return n == "length" || n == "count" || n == "zeroTermSuffix" || n.find("Prefix") != std::string::npos || n == "termSuffix" || n == "elemFixedLength"; };
    bool ends = (kc == 4 || kc == 5 || kc == 8) && picks.size() == 2 && end(picks[0].a->name) && end(picks[1].a->name);
    if (!ends) sxn_assert(r2 == (r3 & (fixedOk != 0)), "accepted-like-written-out");
    if (!r2) { sxn_reach("reuse-refused"); return; }
    Dump d1, d2, d3, d4;
    d1.field(p1.field("o")); d4.field(p2.field("o"));
    same(d1, d4, "reused-field-untouched");
    if (!r3) { sxn_reach("ends"); return; }
    d2.field(p2.field("f"), true); d3.field(p3.field("f"), true);
    same(d2, d3, "same-as-written-out");
    sxn_assert(p2.field("f").parseName() == "f" && p2.field("f").parseExternalRef(false) == "f", "own-name");
    sxn_reach("props");
}


// one rich member of every kind; '#' a number 0..255, '%' the name of the member
static const char* const Rich[] = {
    "<int name='%' type='uint16' length='2' defaultValue='#' endian='little' units='mm' scaling='1/4' serOffset='3' displayDecimals='2' displayOffset='-1' x_a='1' description='d' semanticType='length'>"
        "<validRange value='[0, #]'/><validValue value='300' sinceVersion='1'/><special name='A' val='7' description='q' displayName='Q' deprecated='2'/><x_k/></int>",
    "<enum name='%' type='uint8' defaultValue='V' nonUniqueAllowed='true' hexAssign='true' validCheckVersion='true'><validValue name='V' val='#'/><validValue name='W' val='2' sinceVersion='1' displayName='e'/></enum>",
    "<set name='%' length='1' defaultValue='true' reservedValue='true' displayName='ds'><bit name='A' idx='2'/><bit name='B' idx='5' reserved='true'/><bit name='C' idx='6' deprecated='2'/></set>",
    "<float name='%' type='double' defaultValue='1.5' endian='little' units='m' displayDecimals='3'><validRange value='[1,2]'/><validValue value='nan'/><special name='A' val='inf'/></float>",
    "<string name='%' encoding='e' defaultValue='ab' customizable='true'><lengthPrefix><int name='l' type='uint8' validRange='[0,#]'/></lengthPrefix><validValue value='ab'/></string>",
    "<string name='%' length='5' failOnInvalid='true'/>", "<string name='%' zeroTermSuffix='true'/>", "<string name='%' lengthPrefix='$a'/>",
    "<data name='%' defaultValue='ab cd' lengthPrefix='p8'><validValue value='01'/></data>", "<data name='%' lengthPrefix='$a'/>",
    "<bitfield name='%' endian='little' validCond='$m1 = 3'><members><int name='m1' type='uint8' bitLength='3' defaultValue='3'/><set name='m2' bitLength='5'><bit name='b0' idx='0'/></set></members></bitfield>",
    "<bundle name='%' validCond='$m1 = #'><members><int name='m1' type='uint8'/><optional name='o'><field><int name='e' type='uint8'/></field><or><cond value='$m1 = 3'/><and><cond value='$m1 != 4'/><cond value='$m1 &gt; #'/></and></or></optional></members><alias name='q' field='$m1' description='z'/></bundle>",
    "<list name='%' count='3' elemFixedLength='true'><element><int name='e' type='uint32' defaultValue='#'/></element><elemLengthPrefix><int name='l' type='uint8'/></elemLengthPrefix></list>",
    "<list name='%' element='p8'><countPrefix><int name='l' type='uint16' defaultValue='#'/></countPrefix></list>", "<list name='%' element='p8' lengthPrefix='p16'/>",
    "<list name='%' countPrefix='$a' element='p16' elemLengthPrefix='p8'/>", "<list name='%' lengthPrefix='$a'><element><string name='e' length='2'/></element></list>", "<list name='%' element='p8'><termSuffix><int name='l' type='uint8'/></termSuffix></list>",
    "<optional name='%' defaultMode='missing' missingOnReadFail='true' missingOnInvalid='true' cond='$a = 4'><field><int name='e' type='uint8' defaultValue='#'/></field></optional>",
    "<optional name='%' defaultMode='exists' field='p16'><and><cond value='$a = 1'/><cond value='!$s.y'/></and></optional>",
    "<variant name='%' defaultMember='m2'><members><bundle name='m1'><int name='k' type='uint8' fixedValue='true' defaultValue='#'/></bundle><int name='m2' type='uint8'/></members></variant>",
    "<ref name='%' field='p16' displayName='r'/>", "<int name='%' reuse='p16' pseudo='true' defaultValue='#'/>", "<int name='%' type='uint8' sinceVersion='1' deprecated='3' valueOverride='replace' copyCodeFrom='p8' readOverride='none'/>"};
static std::string rich(const char* t, const char* name, const char* pfx)
{
    std::string r;
    unsigned k = 0;
    for (; *t; ++t) {
        if (*t == '%') r += name;
        else if (*t == '#') r += sx::hex(sx::range((std::string(pfx) + char('a' + k++)).c_str(), 0, 255));
        else r += *t;
    }
    return r;
}
static const std::string First = "<int name='a' type='uint8'/><set name='s' length='1'><bit name='y' idx='3'/></set>";
static const std::string Aliases = "<alias name='aq' field='$a' description='ad' x_a='4'/><alias name='as' field='$s'/>";
static void addAliases(Dump& d, const std::vector<ParseAlias>& l, bool skip) { d.num(skip ? 0 : l.size()); if (!skip) for (auto& a : l) d.alias(a); }

static const std::string Face = "<interface name='I'><fields><int name='v' type='uint8'/><set name='s' length='1'><bit name='y' idx='3'/></set></fields></interface>";
static void containers()
{
    unsigned m = sx::choice("member", N(Rich)), how = sx::choice("how", 12), more = sx::choice("more", 4);
    // more: 1: further members of its own, 2: aliases are not taken, 3: a member replaced
    std::string x = rich(Rich[m], "x", "v"), own = "<int name='own' type='uint32'/>", pre = Pre;
    auto bundle = [&](const char* n, const std::string& at, const std::string& mem, const std::string& kids = "") { return std::string("<bundle name='") + n + "'" + at + ">" + (mem.empty() ? "" : "<members>" + mem + "</members>") + kids + "</bundle>"; };
    std::string noal = more == 2 ? (how == 3 || how == 4 || how == 6 || how == 9 || how == 10 ? " copyFieldsAliases='false'" : " reuseAliases='false'") : "";
    const std::string repl = "<replace><string name='s' length='9'/></replace>";
    if (more == 3 && (how > 4 || m == 19)) return;
    std::string rep = more == 3 ? repl : "";
    std::string ownM = more == 1 ? own : "", ownF = more == 1 ? "<fields>" + own + "</fields>" : "";
    std::string orig, copy;
    switch (how) {
    case 0: case 1: orig = bundle("o", " validCond='$a = 2'", First + x, Aliases); copy = bundle("f", " reuse='o'" + noal, ownM, rep); if (how == 1) copy += bundle("h", " reuse='f'", ""); break;
    case 2: case 3: orig = "<message name='o' id='1' construct='%s.y' validCond='$a = 1'><fields>" + First + x + "</fields>" + Aliases + "</message>";
        copy = "<message name='f' id='2' " + std::string(how == 2 ? "reuse" : "copyFieldsFrom") + "='o'" + noal + ">" + ownF + rep + "</message>"; break;
    case 4: orig = bundle("o", "", First + x, Aliases); copy = "<message name='f' id='2' copyFieldsFrom='o'" + noal + ">" + ownF + rep + "</message>"; break;
    case 5: case 6: orig = "<interface name='o' description='di'><fields>" + First + x + "</fields>" + Aliases + "</interface>";
        copy = "<interface name='f' " + std::string(how == 5 ? "reuse" : "copyFieldsFrom") + "='o'" + noal + ">" + ownF + "</interface>"; break;
    case 7: if (more) return; orig = "<list name='o' count='2'><element>" + bundle("e", " validCond='$a = 2'", First + x, Aliases) + "</element></list>"; copy = "<list name='f' reuse='o'/>"; break;
    case 8: if (more) return; orig = "<optional name='o'><field>" + bundle("e", " validCond='$a = 2'", First + x, Aliases) + "</field></optional>"; copy = "<optional name='f' reuse='o'/>"; break;
    case 9: if (more) return; orig = "<variant name='o' defaultMember='e'><members>" + bundle("e", " validCond='$a = 2'", First + x, Aliases) + "</members></variant>"; copy = "<variant name='f' reuse='o'/>"; break;
    case 10: orig = bundle("o", "", First + x, Aliases); copy = "<interface name='f' copyFieldsFrom='o'" + noal + ">" + ownF + "</interface>"; break;
    default: // a member of a member copied with a message, twice
        if (more == 2) return;
        orig = "<message name='o' id='1'><fields>" + bundle("e", " validCond='$a = 2'", First + x, Aliases) + "</fields></message>"; copy = "<message name='f' id='2' copyFieldsFrom='o'>" + ownF + "</message><message name='h' id='3' reuse='f'/>"; break;
    }
    bool top = how >= 2 && how <= 6;
    if (how == 10 || how == 4 || how == 11) top = true;
    auto text = [&](const std::string& o, const std::string& c) {
        if (!top) return "<fields>" + pre + o + c + "</fields>";
        if (how == 4 || how == 10) return "<fields>" + pre + o + "</fields>" + c;
        return "<fields>" + pre + "</fields>" + Face + o + c;
    };
    P p1, p2;
    if (!p1.run(schema(text(orig, ""), "", "5"))) { sxn_reach("original-refused"); return; }
    bool r = p2.run(schema(text(orig, copy), "", "5"));
    sxn_assert(r, "copy-accepted");
    if (!r) return;
    auto iface = [](P& p, const char* n) { for (auto& i : p.p.parseSchemas().back().parseNamespaces().back().parseInterfaces()) if (i.parseName() == n) return i; return ParseInterface(nullptr); };
    Dump o1, o2, w, g;
    auto tail = [&](std::vector<ParseField> l, Dump& d) {     // members but the ones added
        if (more == 1) { sxn_assert(!l.empty() && l.back().parseName() == "own" && l.back().parseMinLength() == 4, "own-member-last"); if (!l.empty()) l.pop_back(); }
        if (more == 3) {
            sxn_assert(l.size() == 3 && l[1].parseName() == "s" && l[1].parseKind() == ParseField::ParseKind::String && l[1].parseMinLength() == 9, "member-replaced");
            if (l.size() == 3) l.erase(l.begin() + 1);
        }
        d.list(l);
    };
    auto orig1 = [&](std::vector<ParseField> l) { if (more == 3) l.erase(l.begin() + 1); return l; };
    bool skip = more == 2;
    switch (how) {
    case 0: case 1: {
        o1.field(p1.field("o")); o2.field(p2.field("o"));
        ParseBundleField a(p2.field("o")), b(p2.field(how ? "h" : "f"));
        w.list(orig1(a.parseMembers())); addAliases(w, a.parseAliases(), skip); w.cond(a.parseValidCond());
        tail(b.parseMembers(), g); addAliases(g, b.parseAliases(), false); g.cond(b.parseValidCond());
        break;
    }
    case 2: case 3: case 11: {
        o1.message(p1.message("o")); o2.message(p2.message("o"));
        auto a = p2.message("o"), b = p2.message(how == 11 ? "h" : "f");
        w.list(orig1(a.parseFields())); addAliases(w, a.parseAliases(), skip);
        tail(b.parseFields(), g); addAliases(g, b.parseAliases(), false);
        if (how == 2) { w.cond(a.parseConstruct()); w.cond(a.parseReadCond()); w.cond(a.parseValidCond()); g.cond(b.parseConstruct()); g.cond(b.parseReadCond()); g.cond(b.parseValidCond()); }
        if (how == 3) sxn_assert(!b.parseConstruct().parseValid() && !b.parseReadCond().parseValid() && !b.parseValidCond().parseValid(), "conditions-not-copied-with-fields");
        break;
    }
    case 4: {
        o1.field(p1.field("o")); o2.field(p2.field("o"));
        ParseBundleField a(p2.field("o"));
        auto b = p2.message("f");
        w.list(orig1(a.parseMembers())); addAliases(w, a.parseAliases(), skip);
        tail(b.parseFields(), g); addAliases(g, b.parseAliases(), false);
        break;
    }
    case 5: case 6: case 10: {
        std::vector<ParseField> am; std::vector<ParseAlias> aa;
        if (how == 10) { o1.field(p1.field("o")); o2.field(p2.field("o")); ParseBundleField a(p2.field("o")); am = a.parseMembers(); aa = a.parseAliases(); }
        else { o1.iface(iface(p1, "o")); o2.iface(iface(p2, "o")); am = iface(p2, "o").parseFields(); aa = iface(p2, "o").parseAliases(); }
        auto b = iface(p2, "f");
        w.list(am); addAliases(w, aa, skip);
        tail(b.parseFields(), g); addAliases(g, b.parseAliases(), false);
        break;
    }
    default: o1.field(p1.field("o")); o2.field(p2.field("o")); w.field(p2.field("o"), true); g.field(p2.field("f"), true); break;
    }
    same(o1, o2, "reused-one-untouched");
    same(w, g, "members-copied");
    sxn_reach("containers");
}

// messages
static const Atom Msg[] = {
    {Set, "displayName", "da", "db"}, {Set, "description", "ta", "tb"}, {Set, "order", "#", "#"}, {Set, "customizable", "true", "false"}, {Set, "failOnInvalid", "true", "false"}, {Set, "sender", "client", "both"},
    {Set, "validateMinLength", "#", "#"}, {Set, "platforms", "+p1,p2", "-p1"}, {Own, "readOverride", "replace", "extend"}, {Own, "writeOverride", "none", "any"}, {Own, "refreshOverride", "extend", "none"},
    {Own, "lengthOverride", "replace", "any"}, {Own, "validOverride", "none", "replace"}, {Own, "nameOverride", "replace", "extend"},
    {Set, "construct", "%s.y", "!%s.y"}, {Set, "readCond", "%v = 1", "%s.y"}, {Set, "constructAsReadCond", "true", "false"}, {Set, "constructAsValidCond", "true", "false"}, {Set, "validCond", "$a = 1", "$a != 4"}, {Own, "copyCodeFrom", "z", "y"}, {Own, "x_q", "1", "2"}};
static void messages()
{
    unsigned i = sx::choice("first", N(Msg)), j = i + sx::choice("second", N(Msg) - i);
    std::string at[3];
    for (unsigned k = 0; k < (i == j ? 1u : 2u); ++k) {
        auto& a = Msg[k ? j : i];
        unsigned where = sx::choice(k ? "where1" : "where0", 3);
        if (where != 1 && std::string(a.name).substr(0, 11) == "constructAs") return;     // done where it is said
        std::string is(1, char('0' + k));
        std::string t[2] = {inst(a.a, sx::range(("v" + is + "a").c_str(), 0, 255)), inst(a.b, sx::range(("v" + is + "b").c_str(), 0, 255))};
        if (where != 1) at[0] += attr(a.name, t[0]);
        if (where != 0) at[1] += attr(a.name, t[1]);
        if (where != 0) at[2] += attr(a.name, t[1]);
        else if (a.how != Own) at[2] += attr(a.name, t[0]);
    }
    std::string pre = "<platform name='p1'/><platform name='p2'/><platform name='p3'/>" + Face + "<message name='y' id='100'/><message name='z' id='101'/>", f = "<fields>" + First + "</fields>";
    std::string o = "<message name='o' id='1'" + at[0] + ">" + f + "</message>";
    P p1, p2, p3;
    if (!p1.run(schema(pre + o, "", "5"))) { sxn_reach("message-refused"); return; }
    bool r2 = p2.run(schema(pre + o + "<message name='f' id='2' reuse='o'" + at[1] + "/>", "", "5"));
    bool r3 = p3.run(schema(pre + "<message name='f' id='2'" + at[2] + ">" + f + "</message>", "", "5"));
    sxn_assert(r2 == r3, "message-accepted-like-written-out");
    if (!r2 || !r3) return;
    Dump d1, d2, d3, d4;
    d1.message(p1.message("o")); d4.message(p2.message("o"));
    same(d1, d4, "reused-message-untouched");
    d2.message(p2.message("f")); d3.message(p3.message("f"));
    same(d2, d3, "message-same-as-written-out");
    sxn_reach("messages");
}

void sx_harness()
{
    switch (sx::choice("scenario", 3)) {
    case 0: props(); break;
    case 1: containers(); break;
    case 2: messages(); break;
    }
}
