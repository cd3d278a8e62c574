// Conditions: which are accepted, where, and what they are told to be.
#include "h.h"
enum K { None, Int, Enum, Set, Float, String, Data, List, Bundle, Bitfield, Optional, Variant, Bit, Special };
struct Ref { const char* text; K kind; bool size, exists; };
// members of the message and of bundles
static const Ref Sib[] = {
    {"k", Int, false, false}, {"k.x1", Special, false, false}, {"k.b", None, false, false}, {"e", Enum, false, false}, {"e.V1", Special, false, false}, {"f", Set, false, false}, {"f.b", Bit, false, false},
    {"f.c", None, false, false}, {"f.b.b", None, false, false}, {"r", Float, false, false}, {"s", String, true, false}, {"d", Data, true, false}, {"l", List, true, false}, {"u", Bundle, false, false}, {"u.i", Int, false, false},
    {"u.s2", String, true, false}, {"u.g.h", Bit, false, false}, {"u.zz", None, false, false}, {"z", Bitfield, false, false}, {"z.p", Int, false, false}, {"z.g.h", Bit, false, false},
    {"o", Optional, false, true}, {"o.q", Int, false, false}, {"w", Int, false, false}, {"w.x2", Special, false, false}, {"ws", String, true, false}, {"wf.b", Bit, false, false}, {"n", Int, false, true}, {"v", Variant, false, false},
    {"m", None, false, false}, {"", None, false, false}, {"k.", None, false, false}, {"u.", None, false, false}, {"o.q.", None, false, false}, {"u..i", None, false, false}, {".k", None, false, false}, {"u.#s2", None, false, false}, {"u.?i", None, false, false}, {"#s", None, false, false}, {"K", None, false, false}};
static const unsigned NSib = sizeof(Sib) / sizeof(*Sib);
static const Ref If[] = {
    {"k", Int, false, false}, {"g.c", Bit, false, false}, {"g", Set, false, false}, {"g.x", None, false, false}, {"t", String, true, false}, {"j", Enum, false, false}, {"y", None, false, false}, {"k.", None, false, false}, {"a.b", Bit, false, false}, {"a.b.", None, false, false}, {"", None, false, false}};
static const unsigned NIf = sizeof(If) / sizeof(*If);
static const std::string INT = "<int name=\"a\" type=\"uint8\"/>", PRE = "<lengthPrefix>" + INT + "</lengthPrefix>";
static const std::string Global = "<fields><int name=\"A\" type=\"int16\" defaultValue=\"-5\"><special name=\"x2\" val=\"7\"/></int><enum name=\"E\" type=\"uint8\"><validValue name=\"V2\" val=\"2\"/></enum><string name=\"ST\" defaultValue=\"abc\">" + PRE +
    "</string><set name=\"SF\" length=\"1\"><bit name=\"b\" idx=\"0\"/></set></fields>";
static const std::string Faces = "<interface name=\"IF\"><int name=\"k\" type=\"uint8\"/><set name=\"g\" length=\"1\"><bit name=\"c\" idx=\"0\"/></set><string name=\"t\">" + PRE + "</string></interface>"
    "<ns name=\"in\"><interface name=\"IG\"><enum name=\"j\" type=\"uint8\"><validValue name=\"V1\" val=\"1\"/></enum><bundle name=\"a\"><set name=\"b\" length=\"1\"><bit name=\"z\" idx=\"0\"/></set></bundle></interface></ns>";
static const std::string Members = "<int name=\"k\" type=\"uint8\"><special name=\"x1\" val=\"3\"/></int><enum name=\"e\" type=\"uint8\"><validValue name=\"V1\" val=\"1\"/></enum><set name=\"f\" length=\"1\"><bit name=\"b\" idx=\"0\"/></set><float name=\"r\" type=\"float\"><special name=\"y1\" val=\"1.5\"/></float>"
    "<string name=\"s\">" + PRE + "</string><data name=\"d\">" + PRE + "</data><list name=\"l\"><countPrefix>" + INT + "</countPrefix><element>" + INT + "</element></list>"
    "<bundle name=\"u\"><int name=\"i\" type=\"uint8\"/><string name=\"s2\">" + PRE + "</string><set name=\"g\" length=\"1\"><bit name=\"h\" idx=\"0\"/></set></bundle>"
    "<bitfield name=\"z\"><int name=\"p\" type=\"uint8\" bitLength=\"4\"/><set name=\"g\" bitLength=\"4\"><bit name=\"h\" idx=\"0\"/></set></bitfield><optional name=\"o\"><int name=\"q\" type=\"uint8\"/></optional>"
    "<ref name=\"w\" field=\"A\"/><ref name=\"ws\" field=\"ST\"/><ref name=\"wf\" field=\"SF\"/><int name=\"n\" type=\"uint8\" sinceVersion=\"1\"/><variant name=\"v\">" + INT + "</variant>";
static Ref ifRef(unsigned i) { Ref r = If[i]; if (std::string(r.text) == "a.b") r.kind = Set; return r; }
static bool numeric(K k) { return k == Int || k == Enum; }
static bool fieldKind(K k) { return k != None && k != Bit && k != Special; }
static bool comparable(K a, K b) { return a == b || (numeric(a) && numeric(b)); }

// ---- where a condition may be
enum Place { OptInMessage, OptInBundle, OptInInterface, ValidMessage, ValidBundle, Read, Construct, NPlaces };
static std::string ver() { return attr("dslVersion", "8"); }
static std::string put(Place pl, const std::string& cond, bool list)
{
    // cond: the text of a condition, or (list) and/or elements
    auto el = [&](const std::string& name) { return list ? "<" + name + ">" + cond + "</" + name + ">" : std::string(); };
    auto at = [&](const std::string& name) { return list ? std::string() : attr(name, cond); };
    std::string opt = "<optional name=\"c\"" + at("cond") + ">" + (list ? "<field>" : "") + "<int name=\"x\" type=\"uint8\"/>" + (list ? "</field>" + cond : "") + "</optional>", body;
    switch (pl) {
    case OptInMessage: body = Faces + "<message name=\"M\" id=\"1\">" + Members + opt + "</message>"; break;
    case OptInBundle: body = Faces + "<message name=\"M\" id=\"1\"><bundle name=\"bb\">" + Members + opt + "</bundle></message>"; break;
    case OptInInterface: body = Faces + "<interface name=\"IO\">" + Members + opt + "</interface><message name=\"M\" id=\"1\"/>"; break;
    case ValidMessage: body = Faces + "<message name=\"M\" id=\"1\"" + at("validCond") + "><fields>" + Members + "</fields>" + el("validCond") + "</message>"; break;
    case ValidBundle: body = Faces + "<message name=\"M\" id=\"1\"><bundle name=\"bb\"" + at("validCond") + "><members>" + Members + "</members>" + el("validCond") + "</bundle></message>"; break;
    case Read: body = Faces + "<message name=\"M\" id=\"1\"" + at("readCond") + "><fields>" + Members + "</fields>" + el("readCond") + "</message>"; break;
    case Construct: body = Faces + "<message name=\"M\" id=\"1\"" + at("construct") + "><fields>" + Members + "</fields>" + el("construct") + "</message>"; break;
    default: break;
    }
    return schema(Global + body, ver(), "2");
}
static const char* name(Place pl) { return pl <= OptInInterface ? "cond" : pl == ValidMessage || pl == ValidBundle ? "validCond" : pl == Read ? "readCond" : "construct"; }
static ParseOptCond get(P& p, Place pl)
{
    auto m = p.message("M");
    switch (pl) {
    case OptInMessage: return ParseOptionalField(m.parseFields().back()).parseCond();
    case OptInBundle: return ParseOptionalField(ParseBundleField(m.parseFields().at(0)).parseMembers().back()).parseCond();
    case OptInInterface: for (auto& ns : p.p.parseSchemas().back().parseNamespaces()) for (auto& i : ns.parseInterfaces()) if (i.parseName() == "IO") return ParseOptionalField(i.parseFields().back()).parseCond(); return ParseOptCond(nullptr);
    case ValidMessage: return m.parseValidCond();
    case ValidBundle: return ParseBundleField(m.parseFields().at(0)).parseValidCond();
    case Read: return m.parseReadCond();
    default: return m.parseConstruct();
    }
}
static bool seesMembers(Place pl) { return pl != Read && pl != Construct; }
static bool seesInterfaces(Place pl) { return pl != ValidBundle; }

struct Side { std::string text, access; ParseOptCondExpr::ParseOperandType type = ParseOptCondExpr::ParseOperandType::Invalid; ParseOptCondExpr::ParseAccMode mode = ParseOptCondExpr::ParseAccMode::Itself; };
static Side side(char pre, char mode, const std::string& acc)
{
    Side s;
    s.text = pre + (mode ? std::string(1, mode) : std::string()) + acc;
    s.access = acc;
    s.type = pre == '$' ? ParseOptCondExpr::ParseOperandType::SiblingRef : ParseOptCondExpr::ParseOperandType::InterfaceRef;
    // a reference starting with a mark is the mark
    if (mode) s.mode = mode == '#' ? ParseOptCondExpr::ParseAccMode::Size : ParseOptCondExpr::ParseAccMode::Exists;
    else if (!acc.empty() && acc[0] == '#') { s.mode = ParseOptCondExpr::ParseAccMode::Size; s.access = acc.substr(1); }
    return s;
}
static void told(ParseOptCond c, const std::string& l, const std::string& op, const std::string& r)
{
    sxn_assert(c.parseValid() && c.parseKind() == ParseOptCond::ParseKind::Expr, "told-kind");
    ParseOptCondExpr e(c);
    sxn_assert(e.parseLeft() == l, "told-left");
    sxn_assert(e.parseOp() == op, "told-operator");
    sxn_assert(e.parseRight() == r, "told-right");
}
static void same(const ParseOptCondExpr::ParseOperandInfo& i, const Side& s) { sxn_assert(i.m_type == s.type && i.m_mode == s.mode && i.m_access == s.access, "told-operand"); }

// a check of one thing
static void single()
{
    Place pl = (Place)sx::choice("place", NPlaces);
    bool iface = sx::choice("interface", 2), neg = sx::choice("not", 2);
    unsigned i = sx::choice("ref", iface ? NIf : NSib), gap = neg ? sx::choice("gap", 2) : 0;
    char mode = "\0#?"[sx::choice("mode", 3)];
    Ref r = iface ? ifRef(i) : Sib[i];
    auto s = side(iface ? '%' : '$', mode, r.text);
    bool ok = iface ? seesInterfaces(pl) && !mode && r.kind == Bit : seesMembers(pl) && ((!mode && r.kind == Bit) || (mode == '?' && r.exists && !(pl == OptInInterface && std::string(r.text) == "n")));
    P p;
    bool a = p.run(put(pl, (neg ? gap ? "! " : "!" : "") + s.text, false));
    sxn_assert(a == ok, "check-accepted-iff-it-names-a-bit-or-an-optional");
    if (!a) { sxn_assert(p.errors > 0, "rejection-reported"); sxn_reach("check-rejected"); return; }
    told(get(p, pl), "", neg ? "!" : "", s.text);
    same(ParseOptCondExpr(get(p, pl)).parseRightInfo(), s);
    sxn_reach("check-accepted");
}
// values something can be compared to: num is a symbolic number
static void compare()
{
    static const char* const Ops[] = {"=", "!=", "<", ">", "<=", ">="};
    unsigned li = sx::choice("left-interface", 2), rk = sx::choice("right", 3);      // value, member, interface field
    unsigned l = sx::choice("left-ref", li ? NIf : NSib);
    Ref L = li ? ifRef(l) : Sib[l];
    char lm = "\0#?"[sx::choice("left-mode", 3)];
    if (!li && !lm && std::string(L.text) == "#s") { lm = '#'; L = Sib[10]; }     // the mark is a part of the text
    // anything but plain fields needs no more than one of the rights, and only plain ones go everywhere
    bool plain = !lm && fieldKind(L.kind);
    unsigned ri = 0; Ref R{};
    char rm = 0;
    std::string right; Side rs;
    bool rok = false;       // the right side alone
    uint64_t v = 0; int word = -1;
    static const char* const Words[] = {"x1", "V1", "A", "A.x2", "E.V2", "^ST", "^A", "zz", "1.5", "3x", "y1", "f.b", "SF"};
    if (rk == 0) {
        word = (int)sx::choice("value", plain || lm == '#' ? 14 : 1) - 1;
        if (word < 0) { v = numeric(L.kind) || L.kind == Set || lm == '#' ? sx::u64("number") : 7; right = sx::shex((int64_t)v); } else right = Words[word];
        rs.text = rs.access = right; rs.type = ParseOptCondExpr::ParseOperandType::Value;
    }
    else {
        bool other = rk == 2;
        if (!plain) { ri = 0; R = other ? ifRef(0) : Sib[0]; }
        else { ri = sx::choice("right-ref", other ? NIf : NSib); rm = "\0#?"[sx::choice("right-mode", 3)]; R = other ? ifRef(ri) : Sib[ri]; }
        rs = side(other ? '%' : '$', rm, R.text);
        right = rs.text;
    }
    bool everywhere = plain && l < 2 && (rk == 0 ? word < 2 : ri < 2 && !rm);
    Place pl = everywhere ? (Place)sx::choice("place", NPlaces) : li || rk == 2 ? (sx::choice("place", 2) ? Read : OptInMessage) : OptInMessage;
    unsigned op = plain && (l < 2 || word == 0) ? sx::choice("op", 6) : 0, space = plain && l == 0 ? sx::choice("space", 3) : 1;
    auto ls = side(li ? '%' : '$', lm, L.text);
    std::string text = ls.text + (space ? std::string(space, ' ') : "") + Ops[op] + (space == 1 ? " " : "") + right;
    bool seen = (li ? seesInterfaces(pl) : seesMembers(pl)) && (rk == 2 ? seesInterfaces(pl) : rk == 1 ? seesMembers(pl) : true);
    unsigned ok = seen;
    // an interface is searched by the name of the field: the same one may be in several
    if (lm == '?') ok = 0;
    else if (lm == '#') {
        ok &= (unsigned)L.size;
        if (rk) ok = 0;
        else ok &= (unsigned)(word < 0);
    }
    else if (!fieldKind(L.kind)) ok = 0;
    else if (rk) ok &= (unsigned)(!rm && fieldKind(R.kind) && comparable(L.kind, R.kind));
    else if (word < 0) ok &= numeric(L.kind) || L.kind == Float || L.kind == String ? 1 : L.kind == Set ? (unsigned)((int64_t)v >= 0) : 0;
    else {
        std::string w = Words[word];
        // A is negative: not for unsigned fields; a reference with a type is one to its value
        bool isU = std::string(L.text) != "w";
        if (numeric(L.kind)) ok &= (unsigned)((w == "x1" && !li && std::string(L.text) == "k") || (w == "V1" && L.kind == Enum) || (w == "A" && !isU) || w == "A.x2" || w == "E.V2" || w == "SF");
        else if (L.kind == Set) ok &= (unsigned)(w == "A.x2" || w == "E.V2" || w == "SF");
        else if (L.kind == Float) ok &= (unsigned)(w == "y1" || w == "1.5" || w == "A" || w == "A.x2" || w == "E.V2" || w == "SF");
        else if (L.kind == String) ok &= (unsigned)(w != "^A");
        else ok = 0;
    }
    if (pl == Construct) ok &= (unsigned)(op == 0);
    P p;
    std::string esc;
    for (char c : text) esc += c == '<' ? std::string("&lt;") : std::string(1, c);
    bool a = p.run(put(pl, esc, false));
    sxn_assert((unsigned)a == ok, "comparison-accepted-iff-comparable");
    if (!a) { sxn_assert(p.errors > 0, "rejection-reported"); sxn_reach("comparison-rejected"); return; }
    told(get(p, pl), ls.text, Ops[op], right);
    same(ParseOptCondExpr(get(p, pl)).parseLeftInfo(), ls);
    same(ParseOptCondExpr(get(p, pl)).parseRightInfo(), rs);
    sxn_reach("comparison-accepted");
}
// ---- and / or
struct Node { bool leaf = true, orList = false; std::string text; std::vector<Node> kids; bool ok = true, eqOnly = true; };
static Node tree(Place pl, unsigned depth, unsigned& n)
{
    Node t;
    if (depth && sx::choice(("list" + std::to_string(n)).c_str(), depth == 2 ? 1 : 2) == 0) {
        t.leaf = false;
        t.orList = sx::choice(("or" + std::to_string(n)).c_str(), 2);
        unsigned k = sx::choice(("kids" + std::to_string(n)).c_str(), depth == 2 ? 4 : 3);
        ++n;
        t.ok = k >= 2;
        for (unsigned i = 0; i < k; ++i) { t.kids.push_back(tree(pl, i == 0 ? depth - 1 : 0, n)); t.ok &= t.kids.back().ok; t.eqOnly &= t.kids.back().eqOnly; }
        t.eqOnly &= !t.orList;
        return t;
    }
    unsigned c = sx::choice(("leaf" + std::to_string(n)).c_str(), 3);
    std::string ref = seesMembers(pl) ? "$k" : "%k";
    t.text = c == 0 ? ref + " = " + std::to_string(n) : c == 1 ? ref + " != " + std::to_string(n) : ref + "z = 1";
    t.ok = c < 2; t.eqOnly = c == 0;
    ++n;
    return t;
}
static std::string text(const Node& t, const std::string& el)
{
    if (t.leaf) return "<" + el + " value=\"" + t.text + "\"/>";
    std::string s, n = t.orList ? "or" : "and";
    for (auto& k : t.kids) s += text(k, el);
    return "<" + n + ">" + s + "</" + n + ">";
}
static bool same(ParseOptCond c, const Node& t)
{
    if (!c.parseValid()) return false;
    if (t.leaf) {
        if (c.parseKind() != ParseOptCond::ParseKind::Expr) return false;
        ParseOptCondExpr e(c);
        return e.parseLeft() + " " + e.parseOp() + " " + e.parseRight() == t.text;
    }
    if (c.parseKind() != ParseOptCond::ParseKind::List) return false;
    ParseOptCondList l(c);
    auto ks = l.parseConditions();
    if ((l.parseType() == ParseOptCondList::ParseType::Or) != t.orList || ks.size() != t.kids.size()) return false;
    for (size_t i = 0; i < ks.size(); ++i) if (!same(ks[i], t.kids[i])) return false;
    return true;
}
static void lists()
{
    Place pl = (Place)sx::choice("place", NPlaces);
    unsigned n = 0;
    Node t = tree(pl, 2, n);
    bool ok = t.ok && (pl != Construct || t.eqOnly);
    P p;
    bool a = p.run(put(pl, text(t, name(pl)), true));
    sxn_assert(a == ok, "list-accepted-iff-every-part-is");
    if (!a) { sxn_assert(p.errors > 0, "rejection-reported"); sxn_reach("list-rejected"); return; }
    sxn_assert(same(get(p, pl), t), "told-list");
    sxn_reach("list-accepted");
}
// ---- any text
static void text()
{
    unsigned n = 1 + sx::choice("length", sxn_thorough() ? 6 : 5);
    auto t = sx::chars("c", n, ' ', '~');
    for (char c : t) sxn_assume((unsigned)(c != '<') & (unsigned)(c != '&') & (unsigned)(c != '"') & (unsigned)(c != '>'));
    sxn_assume((unsigned)(t[0] != ' ') & (unsigned)(t[n - 1] != ' '));
    // first two characters are those of a reference in most texts
    unsigned lead = sx::choice("lead", 4);
    std::string all = lead == 0 ? t : lead == 1 ? "$k" + t : lead == 2 ? "!$" + t : "$#" + t;
    auto m = schema("<message name=\"M\" id=\"1\"><int name=\"k\" type=\"uint8\"/><set name=\"f\" length=\"1\"><bit name=\"b\" idx=\"0\"/></set><data name=\"d\">" + PRE + "</data><optional name=\"c\" cond=\"" + all + "\"><int name=\"x\" type=\"uint8\"/></optional></message>");
    P p;
    bool a = p.run(m);
    // the reading of the text
    struct { size_t at = std::string::npos; unsigned len = 0; } op;
    // operators are looked for one after the other
    bool bad = false;
    static const char* const Ops[] = {"!=", "="};
    for (auto* o : Ops) {
        size_t len = o[1] ? 2 : 1;
        for (size_t i = 0; i + len <= all.size(); ++i) {
            bool hit = all[i] == o[0] && (len == 1 || all[i + 1] == o[1]);
            if (!hit) continue;
            if (i == 0) { bad = true; break; }
            if (all[i - 1] == '\\') continue;
            op.at = i; op.len = len;
            break;
        }
        if (bad || op.len) break;
    }
    bool ok;
    std::string l, r;
    auto member = [](const std::string& s) { return s == "k" ? Int : s == "f" ? Set : s == "d" ? Data : s == "f.b" ? Bit : None; };
    auto number = [](const std::string& s, bool& neg) {
        size_t i = 0;
        neg = false;
        if (i < s.size() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; ++i; }
        if (i >= s.size()) return false;
        bool nz = false;
        if (s[i] == '0' && i + 1 < s.size()) {
            sxn_assume((unsigned)(s[i + 1] != 'b') & (unsigned)(s[i + 1] != 'B'));
            if (s[i + 1] == 'x' || s[i + 1] == 'X') {
                i += 2;
                if (i >= s.size()) return false;
                for (; i < s.size(); ++i) { char c = s[i]; if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))) return false; nz |= c != '0'; }
                neg &= nz;
                return true;
            }
            for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '7') return false; nz |= s[i] != '0'; }
            neg &= nz;
            return true;
        }
        for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; nz |= s[i] != '0'; }
        neg &= nz;
        return true;
    };
    if (bad) ok = false;
    else if (!op.len) {
        // no comparison: [!] reference to a bit
        size_t i = 0;
        if (all[0] == '!') { i = all.find_first_not_of(' ', 1); }
        if (i == std::string::npos || all[i] != '$') ok = false;
        else { r = all.substr(i); ok = member(r.substr(1)) == Bit; }
    }
    else {
        size_t le = all.find_last_not_of(' ', op.at - 1), rb = all.find_first_not_of(' ', op.at + op.len);
        if (le == std::string::npos || rb == std::string::npos || all[0] != '$') ok = false;
        else {
            l = all.substr(0, le + 1); r = all.substr(rb);
            bool neg;
            if (l.size() > 1 && l[1] == '#') ok = member(l.substr(2)) == Data && number(r, neg);
            else {
                K k = member(l.substr(1));
                if (k == None || k == Bit) ok = false;
                else if (r[0] == '$') ok = member(r.substr(1)) == k;
                else ok = (k == Int && number(r, neg)) || (k == Set && number(r, neg) && !neg);
            }
        }
    }
    sxn_assert(a == ok, "text-accepted-iff-a-condition");
    if (!a) { sxn_assert(p.errors > 0, "rejection-reported"); sxn_reach("text-rejected"); return; }
    ParseOptCondExpr e(ParseOptionalField(p.message("M").parseFields().back()).parseCond());
    sxn_assert(e.parseLeft() == l && e.parseRight() == r && e.parseOp() == (op.len ? std::string(op.len == 2 ? "!=" : "=") : all[0] == '!' ? "!" : ""), "text-parts");
    sxn_reach("text-accepted");
}
void sx_prepare() { P p; p.run(put(OptInMessage, "$k = 3", false)); }
void sx_harness()
{
    switch (sx::choice("scenario", 4)) {
    case 0: single(); break;
    case 1: compare(); break;
    case 2: lists(); break;
    default: text(); break;
    }
}
