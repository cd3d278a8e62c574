// Frames: their layers, the order of layers, and what layers refer to.
#include "h.h"
void sx_prepare() { P p; p.run(schema("<frame name=\"F\"><id name=\"I\"><int name=\"x\" type=\"uint8\"/></id><payload name=\"P\"/><checksum name=\"C\" alg=\"sum\" from=\"I\"><int name=\"x\" type=\"uint8\"/></checksum></frame>")); }
using K = ParseLayer::ParseKind;
static const char* const Kinds[] = {"payload", "id", "size", "sync", "checksum", "value", "custom"};
static const K KindOf[] = {K::Payload, K::Id, K::Size, K::Sync, K::Checksum, K::Value, K::Custom};
static const std::string F8 = "<int name=\"x\" type=\"uint8\"/>";
static std::string is(const char* n, unsigned i) { return n + std::to_string(i); }
static std::string frame(const std::string& layers) { return tag("frame", attr("name", "F"), layers); }
static const std::string Iface = "<interface name=\"If\"><int name=\"ver\" type=\"uint8\"/></interface>";
static ParseFrame::ParseLayersList layersOf(P& p)
{
    for (auto& n : p.p.parseSchemas().back().parseNamespaces()) for (auto& f : n.parseFrames()) if (f.parseName() == "F") { sxn_assert(f.parseExternalRef(false) == "F", "frame-reference"); return f.parseLayers(); }
    sxn_fail("frame-listed");
    return {};
}
static std::string letter(const char* n) { return sx::chars(n, 1, 'A', 'Z'); }
static unsigned is1(const std::string& s, char c) { return (unsigned)(s[0] == c); }

// every sequence of kinds
static void order()
{
    unsigned n = 1 + sx::choice("n", sxn_thorough() ? 4 : 3), k[4];
    std::string t;
    bool hasPayload = false;
    unsigned payloadIdx = 0;
    for (unsigned i = 0; i < n; ++i) {
        k[i] = sx::choice(is("kind", i).c_str(), 7);
        if (k[i] == 0 && !hasPayload) { hasPayload = true; payloadIdx = i; }
    }
    bool ok = hasPayload;
    for (unsigned i = 0; i < n; ++i) {
        std::string at = attr("name", is("L", i));
        if (k[i] == 4) at += attr("alg", "sum") + (i > 0 ? attr("from", "L0") : attr("until", is("L", n - 1)));
        if (k[i] == 4 && n == 1) ok = false;
        if (k[i] == 5) at += attr("interfaceFieldName", "ver");
        t += tag(Kinds[k[i]], at, k[i] ? F8 : "");
        if ((k[i] == 1 || k[i] == 2 || k[i] == 5) && i > payloadIdx) ok = false;
        for (unsigned j = 0; j < i; ++j) if (k[i] <= 2 && k[j] == k[i]) ok = false;
    }
    P p;
    bool r = p.run(schema(Iface + frame(sx::choice("wrapped", 2) ? "<layers>" + t + "</layers>" : t)));
    sxn_assert(r == ok, "accepted-iff-layers-in-order");
    if (!r) { sxn_assert(p.errors > 0, "rejection-reported"); sxn_reach("order-rejected"); return; }
    sxn_reach("order-accepted");
    auto ls = layersOf(p);
    sxn_assert(ls.size() == n, "number-of-layers");
    for (unsigned i = 0; i < n; ++i) sxn_assert(ls[i].parseName() == is("L", i) && ls[i].parseKind() == KindOf[k[i]] && ls[i].parseHasField() == (k[i] != 0), "layers-as-declared");
}

// checksum, sync and custom layers after and before the payload referring to other layers by symbolic names
static void refs()
{
    // layers: A B P [C D] ; two of the others are chosen
    struct L { char name; unsigned kind; std::string from, until; bool hasFrom, hasUntil, seek, verify; };
    unsigned shape = sx::choice("shape", 6);
    std::vector<L> ls;
    auto add = [&](char n, unsigned k, bool f, bool u) { L l{n, k, "", "", f, u, false, false}; ls.push_back(l); };
    switch (shape) {
    case 0: add('A', 2, 0, 0); add('B', 1, 0, 0); add('P', 0, 0, 0); add('C', 4, 1, 0); add('D', 3, 1, 0); break;
    case 1: add('A', 2, 0, 0); add('B', 1, 0, 0); add('P', 0, 0, 0); add('C', 3, 1, 0); add('D', 4, 1, 0); break;
    case 2: add('A', 2, 0, 0); add('B', 6, 1, 1); add('P', 0, 0, 0); add('C', 4, 1, sx::choice("until", 2)); break;
    case 3: add('A', 4, sx::choice("from", 2), 1); add('B', 1, 0, 0); add('P', 0, 0, 0); add('C', 6, sx::choice("cfrom", 2), sx::choice("cuntil", 2)); break;
    case 4: add('A', 3, sx::choice("from", 2), 0); add('B', 1, 0, 0); add('P', 0, 0, 0); add('C', 3, sx::choice("cfrom", 2), 0); break;
    case 5: add('A', 2, 0, 0); add('B', 1, 0, 0); add('P', 0, 0, 0); add('C', 4, 1, 0); add('D', 4, 1, 0); break;
    }
    std::string t;
    for (auto& l : ls) {
        std::string at = attr("name", std::string(1, l.name)), nm(1, l.name);
        if (l.hasFrom) { l.from = letter(("from" + nm).c_str()); at += attr(l.kind == 6 ? "checksumFrom" : "from", l.from); }
        if (l.hasUntil) { l.until = letter(("until" + nm).c_str()); at += attr(l.kind == 6 ? "checksumUntil" : "until", l.until); }
        if (l.kind == 4) at += attr("alg", "sum");
        if (l.kind == 6) at += attr("semanticLayerType", "checksum");
        if (l.kind == 3) {
            unsigned m = sx::choice(("mode" + nm).c_str(), 4);
            l.seek = m == 1; l.verify = m == 2;
            if (m == 1) at += attr("seekField", "true");
            if (m == 2) at += attr("verifyBeforeRead", "true");
            if (m == 3) at += attr("verifyBeforeRead", "false") + attr("seekField", "false");
        }
        t += tag(Kinds[l.kind], at, l.kind ? F8 : "");
    }
    unsigned ok = 1, payload = 2;
    auto idx = [&](const std::string& s) { unsigned r = 99; for (unsigned i = 0; i < ls.size(); ++i) r = is1(s, ls[i].name) ? i : r; return r; };
    auto suffixOrder = [&](unsigned at, unsigned from) {
        for (unsigned m = payload + 1; m < at; ++m) if (ls[m].kind != 6 && ls[m].hasFrom) ok &= (unsigned)(from <= idx(ls[m].from));
    };
    for (unsigned i = 0; i < ls.size(); ++i) {
        auto& l = ls[i];
        if (l.kind == 4 || l.kind == 6) {
            ok &= (unsigned)(l.hasFrom || l.hasUntil);
            if (l.hasFrom) { unsigned f = idx(l.from); ok &= (unsigned)(f < i); if (l.kind == 4) suffixOrder(i, f); }
            if (l.hasUntil) { unsigned u = idx(l.until); ok &= (unsigned)(u > i) & (unsigned)(u != 99); }
        }
        if (l.kind == 3) {
            if (l.hasFrom) ok &= (unsigned)(l.seek || l.verify);
            if (i < payload) ok &= (unsigned)!l.hasFrom;
            else {
                if (l.seek) ok &= (unsigned)l.hasFrom;
                if (l.hasFrom) { unsigned f = idx(l.from); ok &= (unsigned)(f <= payload); suffixOrder(i, f); }
            }
        }
    }
    P p;
    bool r = p.run(schema(frame(t)));
    sxn_assert((unsigned)r == ok, "accepted-iff-references-in-order");
    if (!r) { sxn_assert(p.errors > 0, "rejection-reported"); sxn_reach("refs-rejected"); return; }
    sxn_reach("refs-accepted");
    auto got = layersOf(p);
    sxn_assert(got.size() == ls.size(), "number-of-layers");
    for (unsigned i = 0; i < ls.size(); ++i) {
        auto& l = ls[i];
        if (l.kind == 4) { ParseChecksumLayer c(got[i]); sxn_assert(c.parseAlg() == ParseChecksumLayer::ParseAlg::Sum && !c.parseVerifyBeforeRead(), "checksum-algorithm"); sxn_assert(c.parseFromLayer() == l.from, "checksum-from"); sxn_assert(c.parseUntilLayer() == l.until, "checksum-until"); }
        if (l.kind == 6) { ParseCustomLayer c(got[i]); sxn_assert(c.parseSemanticLayerType() == K::Checksum, "custom-type"); sxn_assert(c.parseChecksumFromLayer() == l.from, "custom-from"); sxn_assert(c.parseChecksumUntilLayer() == l.until, "custom-until"); }
        if (l.kind == 3) { ParseSyncLayer s(got[i]); sxn_assert(s.parseSeekField() == l.seek && s.parseVerifyBeforeRead() == l.verify && !s.parseHasEscField() && s.parseIsAfterPayload() == (i > payload), "sync-settings"); sxn_assert(s.parseFromLayer() == l.from, "sync-from"); }
    }
}

// names of layers
static void names()
{
    auto a = letter("a"), b = letter("b"), c = sx::chars("c", 2, '-', 'z');
    for (char ch : c) sxn_assume(ch != '<');
    auto l = [](unsigned char ch) { return ((unsigned)(ch >= 'a') & (unsigned)(ch <= 'z')) | ((unsigned)(ch >= 'A') & (unsigned)(ch <= 'Z')) | (unsigned)(ch == '_'); };
    auto d = [](unsigned char ch) { return (unsigned)(ch >= '0') & (unsigned)(ch <= '9'); };
    unsigned ok = 1, which = sx::choice("which", 2);
    std::string n3 = which ? c : letter("d");
    if (which) ok = l(c[0]) & (l(c[1]) | d(c[1]));
    else ok = (unsigned)(a[0] != n3[0]) & (unsigned)(b[0] != n3[0]);
    ok &= (unsigned)(a[0] != b[0]);
    P p;
    bool r = p.run(schema(frame(tag("id", attr("name", a), F8) + tag("size", attr("name", b), F8) + tag("payload", attr("name", n3)))));
    sxn_assert((unsigned)r == ok, "accepted-iff-names-valid-and-unique");
    if (!r) { sxn_assert(p.errors > 0, "rejection-reported"); sxn_reach("names-rejected"); return; }
    sxn_reach("names-accepted");
    auto ls = layersOf(p);
    sxn_assert(ls.size() == 3, "number-of-layers");
    sxn_assert(ls[0].parseName() == a, "layer-name");
    sxn_assert(ls[2].parseName() == n3, "layer-name");
}

// algorithms of checksums
static void algs()
{
    using A = ParseChecksumLayer::ParseAlg;
    static const struct { const char* t; A a; } Algs[] = {{"custom", A::Custom}, {"sum", A::Sum}, {"crc-ccitt", A::Crc_CCITT}, {"crc_ccitt", A::Crc_CCITT}, {"crc-16", A::Crc_16}, {"crc_16", A::Crc_16}, {"crc-32", A::Crc_32}, {"crc_32", A::Crc_32}, {"xor", A::Xor}};
    unsigned i = sx::choice("alg", 10), ok = 1;
    std::string t;
    A want = A::NumOfValues;
    if (i < 9) {
        t = Algs[i].t; want = Algs[i].a;
        unsigned upper = sx::range("upper", 0, 0x1ff);
        for (unsigned j = 0; j < t.size(); ++j) if (t[j] >= 'a' && t[j] <= 'z') t[j] = char(t[j] - (((upper >> j) & 1) << 5));
    }
    else {
        t = sx::chars("text", 3, '_', 'z');
        unsigned sum = is1(t, 's') & (unsigned)(t[1] == 'u') & (unsigned)(t[2] == 'm'), xr = is1(t, 'x') & (unsigned)(t[1] == 'o') & (unsigned)(t[2] == 'r');
        ok = sum | xr;
    }
    std::string at = attr("name", "C") + attr("alg", t) + attr("from", "P");
    unsigned hasName = sx::choice("algName", 2), ver = sx::choice("verify", 3);
    std::string nm = sx::chars("name", 1, '-', 'z');
    sxn_assume(nm[0] != '<');
    if (hasName) at += attr("algName", nm);
    if (ver) at += attr("verifyBeforeRead", ver == 1 ? "true" : "0");
    if (want == A::Custom) { unsigned char ch = nm[0]; ok = hasName ? ((unsigned)(ch >= 'a') & (unsigned)(ch <= 'z')) | ((unsigned)(ch >= 'A') & (unsigned)(ch <= 'Z')) | (unsigned)(ch == '_') : 0; }
    P p;
    bool r = p.run(schema(frame(tag("payload", attr("name", "P")) + tag("checksum", at, F8))));
    sxn_assert((unsigned)r == ok, "accepted-iff-algorithm-known");
    if (!r) { sxn_assert(p.errors > 0, "rejection-reported"); sxn_reach("alg-rejected"); return; }
    sxn_reach("alg-accepted");
    ParseChecksumLayer c(layersOf(p).at(1));
    if (i < 9) sxn_assert(c.parseAlg() == want, "checksum-algorithm");
    else sxn_assert((unsigned)(c.parseAlg() == A::Sum) == is1(t, 's'), "checksum-algorithm");
    sxn_assert(c.parseVerifyBeforeRead() == (ver == 1), "checksum-verify");
    if (want == A::Custom) sxn_assert(c.parseCustomAlgName() == nm, "custom-algorithm-name");
    else sxn_assert(c.parseCustomAlgName().empty(), "no-custom-algorithm-name");
}

// values taken by fields of interfaces
static void value()
{
    auto n = letter("fieldName");
    unsigned how = sx::choice("interfaces", 7), pseudo = sx::choice("pseudo", 3);
    std::string f1 = "<int name=\"A\" type=\"uint8\"/><int name=\"B\" type=\"uint8\"/>", f2 = "<int name=\"B\" type=\"uint8\"/><int name=\"A\" type=\"uint8\"/><int name=\"C\" type=\"uint8\"/>";
    f1 += "<int name=\"C\" type=\"uint8\"/>";
    std::string body, at = attr("name", "V") + attr("interfaceFieldName", n);
    std::string I1 = "<interface name=\"I1\">" + f1 + "</interface>", I2 = "<interface name=\"I2\">" + f2 + "</interface>";
    unsigned inA = is1(n, 'A'), inB = is1(n, 'B'), inC = is1(n, 'C'), ok = 0, count = 0;
    uint64_t index = 0;
    switch (how) {
    case 0: body = ""; break;
    case 1: body = I1; ok = inA | inB | inC; count = 1; index = inA ? 0 : inB ? 1 : 2; break;
    case 2: body = I1 + I2; ok = inC; count = 2; index = 2; break;
    case 3: body = I1 + I2; at += attr("interfaces", "I2"); ok = inA | inB | inC; count = 1; index = inB ? 0 : inA ? 1 : 2; break;
    case 4: body = I1 + "<ns name=\"q\">" + I2 + "</ns>"; at += attr("interfaces", " I1 , q.I2"); ok = inC; count = 2; index = 2; break;
    case 5: body = I1 + I2; at += attr("interfaces", "I1,,I2"); break;
    case 6: body = I1; at += attr("interfaces", "I1,I3"); break;
    }
    if (pseudo) at += attr("pseudo", pseudo == 1 ? "true" : "false");
    P p;
    bool r = p.run(schema(body + frame(tag("value", at, F8) + tag("payload", attr("name", "P")))));
    sxn_assert((unsigned)r == ok, "accepted-iff-interfaces-have-the-field-at-one-index");
    if (!r) { sxn_assert(p.errors > 0, "rejection-reported"); sxn_reach("value-rejected"); return; }
    sxn_reach("value-accepted");
    ParseValueLayer v(layersOf(p).at(0));
    sxn_assert(v.parseInterfaces().size() == count && v.parsePseudo() == (pseudo == 1), "value-layer-settings");
    sxn_assert(v.parseInterfaces()[0].parseName() == (how == 3 ? "I2" : "I1"), "value-layer-interfaces");
    sxn_assert(v.parseFieldName() == n, "value-field-name");
    sxn_assert(v.parseFieldIdx() == index, "value-field-index");
}

// sync settings and dslVersion; custom layers' types
static void settings()
{
    uint64_t dsl = sx::range("dslVersion", 0, 12);
    unsigned what = sx::choice("what", 2);
    std::string at = attr("name", "S"), kids = F8;
    unsigned ok = 1;
    if (what == 0) {
        unsigned sup = (unsigned)(dsl == 0) | (unsigned)(dsl >= 8);
        unsigned seek = sx::choice("seek", 4), ver = sx::choice("verify", 4), from = sx::choice("from", 2), esc = sx::choice("esc", 6);
        static const char* const Bools[] = {"", "true", "false", "x"};
        if (seek) at += attr("seekField", Bools[seek]);
        if (ver) at += attr("verifyBeforeRead", Bools[ver]);
        if (from) at += attr("from", "I");
        auto e = letter("escName");
        if (esc == 1) at += attr("escField", e);
        std::string c = esc == 2 ? "<escField><int name=\"e\" type=\"uint8\"/></escField>" : esc == 3 ? "<escField/>" : esc == 4 ? "<escField><int name=\"e\" type=\"uint8\"/><int name=\"g\" type=\"uint8\"/></escField>" : esc == 5 ? "<escField><foo/></escField>" : "";
        kids = "<field>" + F8 + "</field>" + c;
        unsigned seekOn = sup & (unsigned)(seek == 1), verOn = sup & (unsigned)(ver == 1);
        if (seek == 3) ok &= sup ^ 1;
        if (ver == 3) ok &= sup ^ 1;
        if (esc >= 3) ok = 0;
        if (esc == 1) ok &= is1(e, 'E');
        if (esc) ok &= seekOn;
        if (ver) ok &= seekOn ^ 1;
        if (from) ok &= (sup ^ 1) | seekOn | verOn;
        ok &= (seekOn ^ 1) | (unsigned)from;
        P p;
        bool r = p.run(schema("<fields><int name=\"E\" type=\"uint8\"/></fields>" + frame(tag("id", attr("name", "I"), F8) + tag("payload", attr("name", "P")) + tag("sync", at, kids)), attr("dslVersion", sx::hex(dsl))));
        sxn_assert((unsigned)r == ok, "accepted-iff-sync-settings-consistent");
        if (!r) { sxn_assert(p.errors > 0, "rejection-reported"); sxn_reach("sync-rejected"); return; }
        sxn_reach("sync-accepted");
        ParseSyncLayer s(layersOf(p).at(2));
        sxn_assert((unsigned)s.parseSeekField() == seekOn, "sync-seek");
        sxn_assert((unsigned)s.parseVerifyBeforeRead() == verOn, "sync-verify");
        sxn_assert((unsigned)!s.parseFromLayer().empty() == (from ? sup : 0), "sync-from");
        sxn_assert(s.parseHasEscField() == (esc != 0), "sync-escape-field");
        if (esc == 1) sxn_assert(s.parseEscField().parseName() == "E", "sync-escape-field");
        if (esc == 2) sxn_assert(s.parseEscField().parseName() == "e", "sync-escape-field");
        return;
    }
    unsigned sup = (unsigned)(dsl == 0) | (unsigned)(dsl >= 5), idr = sx::choice("idReplacement", 4), type = sx::choice("type", 10), f = sx::choice("from", 2), u = sx::choice("until", 2);
    static const char* const Bools[] = {"", "true", "0", "x"};
    static const char* const Types[] = {"", "", "payload", "id", "size", "sync", "checksum", "value", "custom", "Id"};
    static const K TypeOf[] = {K::Custom, K::Custom, K::Payload, K::Id, K::Size, K::Sync, K::Checksum, K::Value, K::Custom, K::Custom};
    if (idr) at += attr("idReplacement", Bools[idr]);
    if (type) at += attr("semanticLayerType", Types[type]);
    if (f) at += attr("checksumFrom", "I");
    if (u) at += attr("checksumUntil", "P");
    if (idr == 3) ok = 0;
    if (idr == 1 && type > 1) ok &= sup ^ 1;
    if (type == 9) ok &= sup ^ 1;
    if (type == 6 && idr != 1 && !f && !u) ok &= sup ^ 1;
    P p;
    bool r = p.run(schema(frame(tag("id", attr("name", "I"), F8) + tag("custom", at, kids) + tag("payload", attr("name", "P"))), attr("dslVersion", sx::hex(dsl))));
    sxn_assert((unsigned)r == ok, "accepted-iff-custom-settings-consistent");
    if (!r) { sxn_assert(p.errors > 0, "rejection-reported"); sxn_reach("custom-rejected"); return; }
    sxn_reach("custom-accepted");
    ParseCustomLayer c(layersOf(p).at(1));
    if (idr == 1) sxn_assert(c.parseSemanticLayerType() == K::Id, "custom-type");
    else {
        unsigned t = sup ? 1 : 0;
        sxn_assert(c.parseSemanticLayerType() == (t ? TypeOf[type] : K::Custom), "custom-type");
        sxn_assert(c.parseChecksumFromLayer() == (t && type == 6 && f ? "I" : ""), "custom-from");
        sxn_assert(c.parseChecksumUntilLayer() == (t && type == 6 && u ? "P" : ""), "custom-until");
    }
}

// the field of a layer
static void field()
{
    unsigned how = sx::choice("how", 10), payload = sx::choice("payload", 2);
    auto n = letter("ref");
    std::string at, kids;
    unsigned ok = !payload, ref = 0, own = 0;
    switch (how) {
    case 0: ok = payload; break;
    case 1: at = attr("field", n); ok &= is1(n, 'E'); ref = 1; break;
    case 2: kids = F8; own = 1; break;
    case 3: kids = "<field>" + F8 + "</field>"; own = 1; break;
    case 4: kids = tag("field", attr("value", n)); ok &= is1(n, 'E'); ref = 1; break;
    case 5: kids = F8 + F8; ok = 0; break;
    case 6: kids = "<field>" + F8 + F8 + "</field>"; ok = 0; break;
    case 7: at = attr("field", "E"); kids = F8; ok = 0; break;
    case 8: kids = "<field/>"; ok = 0; break;
    case 9: kids = "<field><foo name=\"x\"/></field>"; ok = 0; break;
    }
    std::string l = payload ? tag("payload", attr("name", "P") + at, kids) : tag("id", attr("name", "I") + at, kids) + tag("payload", attr("name", "P"));
    P p;
    bool r = p.run(schema("<fields><int name=\"E\" type=\"uint16\"/></fields>" + frame(l)));
    sxn_assert((unsigned)r == ok, "accepted-iff-one-field");
    if (!r) { sxn_assert(p.errors > 0, "rejection-reported"); sxn_reach("field-rejected"); return; }
    sxn_reach("field-accepted");
    auto ls = layersOf(p);
    sxn_assert(ls[0].parseHasField() == (ref || own), "has-field");
    if (ref) sxn_assert(ls[0].parseField().parseName() == "E" && ls[0].parseField().parseMinLength() == 2, "referenced-field");
    if (own) { sxn_assert(ls[0].parseField().parseName() == "x" && ls[0].parseField().parseMinLength() == 1, "own-field"); probe(ls[0].parseField()); }
}
void sx_harness()
{
    switch (sx::choice("scenario", 7)) {
    case 0: order(); break;
    case 1: refs(); break;
    case 2: names(); break;
    case 3: algs(); break;
    case 4: value(); break;
    case 5: settings(); break;
    case 6: field(); break;
    }
}
