// P25: generated variants pick the member the key of the data tells, and treat all members alike.
#include "gen.h"
#include "CommsGenerator.h"
#include "CommsProgramOptions.h"
using CG = Gen<commsdsl2comms::CommsGenerator, commsdsl2comms::CommsProgramOptions>;
void sx_prepare() {}
static uint64_t value(const char* n, const IntT& t)
{
    if (t.len >= 8) return sx::u64(n);
    uint64_t v = sxn_var(n, t.len * 8, 0, maxOf(false, t.len * 8));
    if (t.sig) v = (uint64_t)((int64_t)(v << (64 - t.len * 8)) >> (64 - t.len * 8));
    return v;
}
static std::string flat(const Text& x) { std::string r; for (char c : x.s) if (!strchr(" \t\r\n", c)) r += c; return r; }
static bool once(const std::string& s, const std::string& x) { size_t p = s.find(x); return p != std::string::npos && s.find(x, p + 1) == std::string::npos; }

// how the key of a member is declared
enum Key { Valid, Any, Ranged, RefKey, OtherType, OtherEndian, OtherLength, OtherOffset, NoKey, NotBundle, NKeys };
// what else is in the first member
enum Extra { Plain, Condition, Version, Global, GlobalKey, Reuse, SecondCondition, NExtras };
struct Member { Key key; uint64_t v; bool dependent = false, ownRead = false; std::string name; };

void sx_harness()
{
    unsigned mode = sx::choice("mode", 3);              // 0: keys, 1: kinds of the last member, 2: contents of members
    bool global = sx::choice("global", 2);
    const IntT* t = &IntTypes[1];
    unsigned n = 3; Key last = Valid; Extra extra = Plain; unsigned offset = 0, where = 0;
    if (mode == 0) {
        t = &IntTypes[sx::choice("type", 10)];
        n = 2;
        if (!sxn_thorough() && global != (t->len == 1)) return;
        if (sx::choice("catchall", 2)) { last = Any; n = 3; }
        if (t->len == 2) offset = sx::choice("offset", 2);
    } else if (mode == 1) {
        last = (Key)(1 + sx::choice("last", NKeys - 1));
        t = &IntTypes[sx::choice("type", 2) ? 3 : 0];
    } else {
        extra = (Extra)(sx::choice("extra", NExtras));
        where = sx::choice("where", 2);                 // first or last member
        if (where) last = sx::choice("catchall", 2) ? Any : Valid;
    }
    static const char* Names[] = {"q1", "longerName", "Q3"};
    static const char* Keys[] = {"key0", "key1", "key2"};
    std::vector<Member> mem;
    std::string kids, globals = "<int name=\"GKey\" type=\"" + std::string(t->name) + "\"/>", off = offset ? attr("serOffset", "5") : "", ty = attr("type", t->name);
    for (unsigned i = 0; i < n; ++i) {
        Member m; m.name = Names[i]; m.key = i + 1 == n ? last : Valid; m.v = 0;
        std::string key;
        if (m.key == Valid) {
            // free numbers; two at once only where they are short
            bool free = mode == 0 && (i == 0 || t->len == 1 || sxn_thorough());
            m.v = free ? value(Keys[i], *t) : mode == 0 ? (t->sig ? (uint64_t)-7 : 0x70u) : (uint64_t)(i * 3 + 1);
            if (t->var) sxn_assume(m.v >> 56 == 0);     // lengths of the encoding are not what is checked here
            std::string k = num(*t, m.v), at = attr("validValue", k) + attr("defaultValue", k);
            if (mode == 2 && extra == Reuse) { globals += i ? "" : tag("int", attr("name", "RKey") + ty + attr("failOnInvalid", "true")); key = tag("int", attr("name", "key") + attr("reuse", "RKey") + at); }
            else key = tag("int", attr("name", "key") + ty + off + at + attr("failOnInvalid", "true"));
        }
        else if (m.key == Any) { std::string d = mode == 0 ? attr("defaultValue", "0") : ""; key = tag("int", attr("name", "key") + ty + off + d); }
        else if (m.key == Ranged) key = tag("int", attr("name", "key") + ty + attr("validRange", "[10, 20]") + attr("defaultValue", "10") + attr("failOnInvalid", "true"));
        else if (m.key == RefKey) key = "<ref name=\"key\" field=\"GKey\"/>";
        else if (m.key == OtherType) key = tag("int", attr("name", "key") + attr("type", t->sig ? "uint8" : "uint32"));
        else if (m.key == OtherEndian) key = tag("int", attr("name", "key") + ty + attr("endian", "little"));
        else if (m.key == OtherLength) key = tag("int", attr("name", "key") + attr("type", "uint32") + attr("length", dec(t->len)));
        else if (m.key == OtherOffset) key = tag("int", attr("name", "key") + ty + attr("serOffset", "1"));
        else if (m.key == NoKey) key = "<enum name=\"key\" type=\"uint8\"><validValue name=\"V\" val=\"0\"/></enum>";
        if (m.key == NotBundle) { kids += tag("int", attr("name", m.name) + ty); mem.push_back(m); continue; }
        std::string rest = "<int name=\"w\" type=\"uint16\"/>";
        bool here = mode == 2 && (where ? i + 1 == n : i == 0);
        if (here && extra == Condition) { rest += "<optional name=\"o\" defaultMode=\"missing\" cond=\"$w = 0\"><int name=\"x\" type=\"uint8\"/></optional>"; m.ownRead = true; }
        if (here && extra == SecondCondition) { rest = "<bundle name=\"in\"><int name=\"w\" type=\"uint8\"/><optional name=\"o\" defaultMode=\"missing\" cond=\"$w = 0\"><int name=\"x\" type=\"uint8\"/></optional></bundle>"; }
        if (here && extra == Version) { rest += "<int name=\"y\" type=\"uint8\" sinceVersion=\"3\"/>"; m.dependent = true; }
        if (here && extra == Global) { globals += tag("bundle", attr("name", "GB"), key + rest); kids += "<ref name=\"" + m.name + "\" field=\"GB\"/>"; }
        else if (here && extra == GlobalKey) { globals += tag("bundle", attr("name", "GB"), key + rest + "<int name=\"y\" type=\"uint8\" sinceVersion=\"3\"/>"); kids += "<ref name=\"" + m.name + "\" field=\"GB\"/>"; m.dependent = true; }
        else kids += tag("bundle", attr("name", m.name), key + rest);
        mem.push_back(m);
    }
    int dflt = -1;
    if (mode == 1) dflt = (int)(unsigned)last % 4 - 1;
    std::string dm = dflt < 0 ? "" : attr("defaultMember", dflt == 1 ? dec((unsigned)dflt) : std::string(Names[dflt]));
    std::string var = tag("variant", attr("name", "va") + dm, kids);
    std::string doc = "<fields><int name=\"ver\" type=\"uint8\" semanticType=\"version\"/>" + globals + (global ? var : "") + "</fields><interface name=\"I\"><ref field=\"ver\" name=\"ver\"/></interface>"
        "<message name=\"M\" id=\"1\">" + (global ? std::string("<ref name=\"r\" field=\"va\"/>") : var) + "</message>";
    CG g;
    g.xml("s.xml", schema(doc, "", "5")).run("commsdsl2comms");
    sxn_assert(g.rc == 0, "refused");
    if (g.rc) return;
    Text file = g.file(global ? "include/s/field/Va.h" : "include/s/message/M.h"), common = g.file(global ? "include/s/field/VaCommon.h" : "include/s/message/MCommon.h");
    Call base = baseOf(file, "Va");
    sxn_assert(base.name == "comms::field::Variant", "definition-missing");
    bool custom = false, ver = false, anyVer = false, write = false, refresh = false;
    for (auto& o : options(base, 2)) {
        custom |= o.name == DEF_OPT "HasCustomRead"; write |= o.name == DEF_OPT "HasCustomWrite"; refresh |= o.name == DEF_OPT "HasCustomRefresh";
        if (o.name == DEF_OPT "HasVersionDependentMembers") ver = o.args.at(0).is("true");
    }
    for (auto& m : mem) anyVer |= m.dependent;
    sxn_assert(ver == anyVer, "version-dependency");
    size_t at = file.find("class Va : public");
    Text body = bodyOf(file.sub(at, file.size()), "typename VaMembers");       // starts inside of the base class list
    // from the head of the class to its end
    size_t close = file.find("\n    };", at), close2 = file.find("\n};", at);
    body = file.sub(at, std::min(close, close2));
    auto fn = [&](const char* head) { return bodyOf(body, head).bare(); };

    // members in the order of the schema
    std::vector<std::string> acc, cls;
    for (auto& m : mem) { acc.push_back(m.name); cls.push_back(m.name); acc.back()[0] = m.name[0]; cls.back()[0] = (char)toupper(m.name[0]); }
    acc[0] = "q1"; if (n > 2) acc[2] = "Q3";
    size_t p = body.find("COMMS_VARIANT_MEMBERS_NAMES(\n");
    sxn_assert(p != std::string::npos, "member-names");
    if (p == std::string::npos) return;
    auto names = split(body.sub(p + 28, matching(body.s, p + 27)), ',');
    bool same = names.size() == n;
    for (unsigned i = 0; same && i < n; ++i) { acc[i] = names[i].s; same = acc[i] == mem[i].name || (tolower(acc[i][0]) == tolower(mem[i].name[0]) && acc[i].substr(1) == mem[i].name.substr(1)); }
    sxn_assert(same, "member-names");
    if (!same) return;
    Text def = bodyOf(file, "struct VaMembers");
    size_t ap = def.s.rfind("std::tuple<");
    auto all = split(def.sub(ap + 11, matching(def.s, ap + 10)).trim(), ',');
    same = all.size() == n;
    for (unsigned i = 0; same && i < n; ++i) same = all[i].is(cls[i]);
    sxn_assert(same, "members-tuple");
    Text cm = bodyOf(common, "struct VaCommon");
    auto list = split(bodyOf(cm, "static const MemberNameInfo Map[] =").bare(), ',');
    same = list.size() == n;
    for (unsigned i = 0; same && i < n; ++i) { std::string s = list[i].s, e = "VaMembersCommon::" + cls[i] + "Common::name()"; same = s == e || (s.size() > e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0); }
    sxn_assert(same, "members-names-map");

    // one case for every member in everything done by the selected member
    struct { const char* head; const char* on; const char* what; const char* key; } Sw[] = {
        {"Va& operator=(const Va", "other.currentField()", "initField_#()=other.accessField_#();return*this;", "copy"},
        {"Va& operator=(Va", "other.currentField()", "initField_#()=std::move(other.accessField_#());return*this;", "move"},
        {"bool operator==(", "Base::currentField()", "returnaccessField_#()==other.accessField_#();", "equal"},
        {"bool operator<(", "Base::currentField()", "returnaccessField_#()<other.accessField_#();", "less"},
        {"void currentFieldExec(TFunc&& func) \n", "Base::currentField()", "memFieldDispatch<FieldIdx_#>(accessField_#(),std::forward<TFunc>(func));break;", "exec"},
        {"void currentFieldExec(TFunc&& func) const", "Base::currentField()", "memFieldDispatch<FieldIdx_#>(accessField_#(),std::forward<TFunc>(func));break;", "exec"},
        {"void selectField(std::size_t idx)", "idx", "initField_#();return;", "select"},
        {"void reset()", "Base::currentField()", "deinitField_#();return;", "reset"},
        {"bool canWrite() const", "Base::currentField()", "returnaccessField_#().canWrite();", "can-write"},
        {"comms::ErrorStatus write(", "Base::currentField()", "returnaccessField_#().write(iter,len);", "write"},
        {"bool refresh()", "Base::currentField()", "returnaccessField_#().refresh();", "refresh"},
        {"std::size_t length() const", "Base::currentField()", "returnaccessField_#().length();", "length"},
        {"bool valid() const", "Base::currentField()", "returnaccessField_#().valid();", "valid"},
    };
    for (auto& s : Sw) {
        Text f = fn(s.head);
        std::string sw = flat(bodyOf(f, "switch")), onto = flat(f), want;
        if (f.empty()) { std::string h = s.head; size_t q = h.find("Va"); if (q != std::string::npos && global) { f = fn((h.substr(0, q) + "Va" + h.substr(q + 2)).c_str()); } }
        sxn_assert(!f.empty() && onto.find("switch(" + std::string(s.on) + ")") != std::string::npos, s.key);
        unsigned cases = 0;
        bool right = true;
        for (auto& a : acc) {
            std::string c = "caseFieldIdx_" + a + ":", w = s.what;
            for (size_t q; (q = w.find('#')) != std::string::npos;) w.replace(q, 1, a);
            right &= once(sw, c) && sw.find(c + w) != std::string::npos;
        }
        for (size_t q = 0; (q = sw.find("caseFieldIdx_", q)) != std::string::npos; ++q) ++cases;
        sxn_assert(right && cases == n, s.key);
    }
    std::string less = flat(fn("bool operator<(")), eq = flat(fn("bool operator==(")), cp = flat(fn("Va& operator=(const Va")), sel = flat(fn("void selectField("));
    // an order: nothing is less than itself, the empty one less than others
    sxn_assert(less.find("if(!Base::currentFieldValid()){returnother.currentFieldValid();}if(!other.currentFieldValid()){returnfalse;}if(Base::currentField()<other.currentField()){returntrue;}if(Base::currentField()!=other.currentField()){returnfalse;}") == 0, "less");
    sxn_assert(eq.find("if(Base::currentFieldValid()!=other.currentFieldValid()){returnfalse;}if(!Base::currentFieldValid()){returntrue;}if(Base::currentField()!=other.currentField()){returnfalse;}") != std::string::npos, "equal");
    sxn_assert(cp.find("if(this==&other){return*this;}reset();if(!other.currentFieldValid()){return*this;}") == 0, "copy");
    sxn_assert(sel.find("if(Base::currentField()==idx){return;}reset();") == 0, "select");
    sxn_assert(write && refresh, "functions-not-announced");

    // default member
    Text ctor = bodyOf(body, "\n        Va()"); if (global) ctor = bodyOf(body, "\n    Va()");
    bool dc = body.has(" Va() = default;");
    if (dflt < 0) sxn_assert(dc, "default-member");
    else sxn_assert(!dc && flat(ctor.bare()) == "initField_" + acc[dflt] + "();", "default-member");

    // reading: the default of COMMS tries one member after another
    Text rd = fn("comms::ErrorStatus read(");
    sxn_assert(custom == !rd.empty(), "read-not-announced");
    if (!custom) { sxn_reach("one-by-one"); return; }
    bool key = true;
    for (auto& m : mem) key &= m.key == Valid || m.key == Any;
    sxn_assert(key, "key-of-other-kind");
    if (!key) return;
    // the common key is read as the one of the members
    p = rd.find("using CommonKeyField=");
    size_t pe = rd.find(";", p);
    sxn_assert(p != std::string::npos && pe != std::string::npos, "common-key");
    if (p == std::string::npos || pe == std::string::npos) return;
    Call ck = call(rd.sub(p + 21, pe).trim());
    unsigned l = t->var ? 8 : t->len; bool vl = false, so = false;
    sxn_assert(ck.name == "comms::field::IntValue" && ck.args.size() >= 2 && ck.args[0].is("s::field::FieldBase<>") && ck.args[1].is(std::string(t->sig ? "std::int" : "std::uint") + dec(l * 8) + "_t"), "common-key");
    bool good = true;
    for (auto& o : options(ck, 2)) {
        if (o.name == DEF_OPT "VarLength") { sxn_assert(t->var && number(o.args.at(0), good).v == 1 && number(o.args.at(1), good).v == 10, "common-key"); vl = true; }
        else if (o.name == DEF_OPT "NumValueSerOffset") { sxn_assert(offset && number(o.args.at(0), good).v == 5, "common-key"); so = true; }
        else sxn_assert(o.name == DEF_OPT "FailOnInvalid" || o.name == DEF_OPT "HasName" || o.name == DEF_OPT "EmptySerialization<false>", "common-key");
    }
    sxn_assert(vl == t->var && so == (offset != 0) && good, "common-key");
    std::string fr = flat(rd);
    sxn_assert(fr.find("reset();") != std::string::npos && fr.find("CommonKeyFieldcommonKeyField;autoorigIter=iter;autoes=commonKeyField.read(iter,len);if(es!=comms::ErrorStatus::Success){returnes;}autoconsumedLen=static_cast<std::size_t>(std::distance(origIter,iter));") != std::string::npos
        && fr.find("len-=consumedLen;switch(commonKeyField.getValue()){") != std::string::npos, "common-key-read");
    // cases
    Text sw = bodyOf(rd, "switch (commonKeyField.getValue())");
    uint64_t x = value("read", *t);
    unsigned found = 0, pick = n, fallback = n;         // selected member
    std::vector<uint64_t> labels;
    bool hasDefault = false;
    size_t q = 0;
    while (true) {
        size_t c = sw.find("case ", q), d = sw.find("default:", q);
        if (c == std::string::npos && d == std::string::npos) break;
        bool isDef = d < c;
        size_t colon = sw.find(":", isDef ? d : c), e1 = sw.find("case ", colon), e2 = sw.find("default:", colon), e = std::min(std::min(e1, e2), sw.size());
        Text code = sw.sub(colon + 1, e);
        std::string cd = flat(code);
        q = e;
        unsigned who = n;
        for (unsigned i = 0; i < n; ++i) if (cd.find("initField_" + acc[i] + "()") != std::string::npos) who = i;
        if (isDef) {
            sxn_assert(!hasDefault, "default-twice"); hasDefault = true;
            if (who == n) { sxn_assert(cd == "break;", "default-of-nothing"); continue; }
            fallback = who;
        } else {
            Text lab = sw.sub(c + 5, colon);
            V v = number(lab, good);
            sxn_assert(good, "unreadable-key");
            if (t->sig) sxn_assert((unsigned)!v.uns | (unsigned)((int64_t)v.v >= 0), "key-out-of-type");
            else sxn_assert(lab.s.find('-') == std::string::npos, "key-out-of-type");
            labels.push_back(v.v);
            unsigned hit = (unsigned)(v.v == x) & (found ^ 1u);
            pick = hit ? who : pick; found |= hit;
            sxn_assert(who != n, "case-of-nothing");
        }
        if (who == n) return;
        const Member& m = mem[who];
        // the rest of the member is read the way the member itself does
        std::string f1 = "field_" + acc[who], a1 = "accessField_" + acc[who] + "()";
        bool full = cd.find("return" + f1 + ".read(iter,len+consumedLen);") != std::string::npos || cd.find("return" + a1 + ".read(iter,len+consumedLen);") != std::string::npos;
        bool part = cd.find("return" + f1 + ".templatereadFrom<1>(iter,len);") != std::string::npos || cd.find("return" + a1 + ".templatereadFrom<1>(iter,len);") != std::string::npos;
        bool local = cd.find("auto&" + f1 + "=initField_" + acc[who] + "();") != std::string::npos;
        sxn_assert(full != part && (!full || cd.find("iter=origIter;") < cd.find(".read(")) && (cd.find("return" + f1) == std::string::npos || local), "member-read");
        sxn_assert(full || !m.ownRead, "conditions-of-member-ignored");
        if (part) sxn_assert(m.key == Valid || cd.find("initField_" + acc[who] + "().field_key().setValue(commonKeyField.getValue());") != std::string::npos, "key-of-member-lost");
        bool set = cd.find(f1 + ".setVersion(Base::getVersion());") != std::string::npos && local;
        set |= cd.find(a1 + ".setVersion(Base::getVersion());") != std::string::npos && cd.find("initField_" + acc[who] + "()") < cd.find(a1 + ".setVersion");
        sxn_assert(set == m.dependent && (cd.find("setVersion") == std::string::npos) == !m.dependent, "member-version");
    }
    pick = found ? pick : fallback;
    for (size_t i = 0; i < labels.size(); ++i) for (size_t j = 0; j < i; ++j) sxn_assert(labels[i] != labels[j], "key-twice");
    unsigned want = n;
    for (unsigned i = n; i-- > 0;) want = ((unsigned)(mem[i].key == Any) | (unsigned)(mem[i].v == x)) ? i : want;
    sxn_assert(pick == want, "wrong-member");
    sxn_reach(mode == 0 ? "keys" : mode == 1 ? "last-member" : "contents");
}
