// P26: lists of messages, dispatch functions and factories generated for COMMS cover exactly the right messages.
#include "gen.h"
#include "CommsGenerator.h"
#include "CommsProgramOptions.h"
using CG = Gen<commsdsl2comms::CommsGenerator, commsdsl2comms::CommsProgramOptions>;
void sx_prepare() {}
static std::string is(const char* n, unsigned i) { return n + std::to_string(i); }
static const char* const Scopes[] = {"s", "s::n1", "s::n1::n2"};
static const char* const Dirs[] = {"s/", "s/n1/", "s/n1/n2/"};
struct M { unsigned place = 0, sender = 0, plat = 0, listed = 1; uint64_t id = 0; unsigned order = 0; std::string name, scope, header; unsigned exists = 1; };
static std::vector<M> ms;
// ---- reading of switch statements ----
struct Case { Text label, body; };
static std::vector<Case> cases(const Text& b)
{
    std::vector<Case> r; int d = 0; bool open = false, other = false; size_t start = 0;
    auto close = [&](size_t e) { if (open && !other) r.back().body = b.sub(start, e); open = false; };
    for (size_t i = 0; i < b.s.size(); ++i) {
        char c = b.s[i];
        if (c == '{' || c == '(') ++d;
        if (c == '}' || c == ')') --d;
        if (d != 0) continue;
        bool word = i == 0 || !wordCh(b.s[i - 1]);
        if (word && b.s.compare(i, 5, "case ") == 0) {
            close(i);
            size_t e = i + 5;
            while (e < b.s.size() && (b.s[e] != ':' || b.s[e + 1] == ':' || b.s[e - 1] == ':')) ++e;
            r.push_back({b.sub(i + 5, e).trim(), Text()});
            open = true; other = false; start = e + 1; i = e;
        }
        else if (word && b.s.compare(i, 7, "default") == 0) { close(i); open = true; other = true; }
    }
    close(b.s.size());
    return r;
}
static Text switchBody(const Text& f, const char* what)
{
    size_t p = f.find("switch");
    if (p == std::string::npos) return Text();
    size_t o = f.find("(", p), e = matching(f.s, o);
    std::string w;
    for (size_t i = o + 1; i < e; ++i) if (f.s[i] != ' ') w += f.s[i];
    if (w != what) return Text();
    size_t b = f.find("{", e);
    return f.sub(b + 1, matching(f.s, b));
}
static int messageOf(const std::string& scope) { for (unsigned i = 0; i < ms.size(); ++i) if (ms[i].scope == scope) return (int)i; return -1; }
// message types `SCOPE<...` of a text, in order
static std::vector<int> named(const Text& b)
{
    std::vector<int> r;
    for (size_t i = 0; i + 3 < b.s.size(); ++i) {
        if (b.s.compare(i, 3, "s::") != 0 || (i && (wordCh(b.s[i - 1]) || b.s[i - 1] == ':'))) continue;
        size_t e = i; while (e < b.s.size() && (wordCh(b.s[e]) || b.s[e] == ':')) ++e;
        r.push_back(messageOf(b.s.substr(i, e - i)));
        i = e;
    }
    return r;
}
// the label has exactly the id of the message
static void labelIs(const Text& label, const M& m, const char* key)
{
    bool good = true; V v = number(label, good);
    sxn_assert(good, "label-readable");
    if (!good) return;
    sxn_assert((unsigned)(v.v == m.id) & ((unsigned)(v.uns ^ 1) | (unsigned)(v.v <= 0x7fffffffffffffffull)), key);
}
static unsigned before(const M& a, const M& b) { return (unsigned)(a.id < b.id) | ((unsigned)(a.id == b.id) & (unsigned)(a.order < b.order)); }
static bool includesResolve(const CG& g, const Text& f)
{
    for (size_t p = f.find("#include \"s/"); p != std::string::npos; p = f.find("#include \"s/", p + 1)) {
        size_t e = f.find("\"", p + 10);
        if (!g.has("include/" + f.s.substr(p + 10, e - p - 10))) { if (sxn_replaying()) std::printf("  no file %s\n", f.s.substr(p, e - p).c_str()); return false; }
    }
    return true;
}
static unsigned count(const Text& t, const std::string& x) { unsigned n = 0; for (size_t p = t.find(x); p != std::string::npos; p = t.find(x, p + 1)) ++n; return n; }
// the files of namespace `ns` for the messages with `sel`; listName e.g. AllMessages, dispName e.g. ClientInput
static void group(const CG& g, unsigned ns, const std::string& listName, const std::string& dispName, const std::vector<bool>& sel)
{
    std::string dir = std::string("include/") + Dirs[ns];
    // the list
    std::string lf = dir + "input/" + listName + ".h";
    sxn_assert(g.has(lf), "list-generated");
    if (!g.has(lf)) return;
    Text full = g.file(lf), f = full.bare();
    sxn_assert(includesResolve(g, f), "includes-resolve");
    size_t p = f.find("using " + listName), q = f.find("std::tuple", p);
    sxn_assert(p != std::string::npos && q != std::string::npos, "list-defined");
    if (p == std::string::npos || q == std::string::npos) return;
    size_t o = f.find("<", q), e = matching(f.s, o);
    auto lst = named(f.sub(o + 1, e));
    unsigned want = 0; for (bool b : sel) want += b;
    unsigned ok = lst.size() == want;
    std::vector<unsigned> seen(ms.size(), 0);
    for (int i : lst) { if (i < 0 || !sel[i] || seen[i]++) { ok = 0; break; } }
    if (!ok && sxn_replaying()) std::printf("  list %s of %s\n", listName.c_str(), Scopes[ns]);
    sxn_assert(ok, "list-exact");
    if (!ok) return;
    for (unsigned i = 0; i + 1 < lst.size(); ++i) sxn_assert(before(ms[lst[i]], ms[lst[i + 1]]), "list-in-order-of-ids");
    for (int i : lst) sxn_assert(f.has("#include \"" + ms[i].header + "\""), "list-includes-messages");
    // aliases
    auto rest = f.sub(e, f.size());
    size_t dm = rest.find("#define"), de = rest.find("#define", dm + 1);
    sxn_assert(dm != std::string::npos && de != std::string::npos, "aliases-defined");
    if (dm != std::string::npos && de != std::string::npos) {
        Text mac = rest.sub(dm, de);
        auto al = named(mac);
        unsigned eq = al == lst;
        for (int i : al) eq &= i >= 0 && count(mac, "using prefix_ ## " + ms[i].name + " ## suffix_ = " + ms[i].scope + "<interface_, opts_>;") == 1;
        sxn_assert(eq, "aliases-exact");
        std::string nm = mac.s.substr(8, mac.s.find('(') - 8);
        sxn_assert(rest.sub(de, rest.size()).has(nm + "(prefix_, suffix_, interface_, s::options::DefaultOptions)"), "aliases-default-options");
    }
    // dispatch
    std::string df = dir + "dispatch/Dispatch" + dispName + "Message.h";
    sxn_assert(g.has(df), "dispatch-generated");
    if (g.has(df)) {
        Text d = g.file(df).bare();
        sxn_assert(includesResolve(g, d), "includes-resolve");
        sxn_assert(d.has(std::string("#include \"") + Dirs[ns] + "input/" + listName + ".h\""), "dispatch-includes-list");
        bool multi = d.has("auto dispatch" + dispName + "Message(\n    TId id,\n    std::size_t idx,\n    TMsg& msg,\n    THandler& handler) -> decltype(handler.handle(msg))\n{\n    using");
        auto cs = cases(switchBody(d, "static_cast<std::intmax_t>(id)"));
        std::vector<unsigned> got(ms.size(), 0);
        std::vector<int> first;
        unsigned good = 1;
        for (auto& c : cs) {
            std::vector<int> who;
            Text in = switchBody(c.body, "idx");
            if (!in.empty()) {
                auto ics = cases(in);
                for (unsigned k = 0; k < ics.size(); ++k) {
                    auto n = named(ics[k].body);
                    bool gd = true; V v = number(ics[k].label, gd);
                    if (n.size() != 1 || n[0] < 0 || !gd) { good = 0; break; }
                    sxn_assert((unsigned)(v.v == k), "dispatch-index");
                    who.push_back(n[0]);
                }
                sxn_assert(multi, "dispatch-index-known");
            }
            else { who = named(c.body); if (who.size() != 1 || who[0] < 0) good = 0; }
            if (!good) break;
            for (unsigned k = 0; k < who.size(); ++k) {
                if (!sel[who[k]] || got[who[k]]++) good = 0;
                labelIs(c.label, ms[who[k]], "dispatch-id");
                if (k) sxn_assert(before(ms[who[k - 1]], ms[who[k]]), "dispatch-order");
                Text one = c.body;
                sxn_assert(count(c.body, "using MsgType = " + ms[who[k]].scope + "<InterfaceType, TProtOptions>;") == 1, "dispatch-type");
            }
            sxn_assert(count(c.body, "return handler.handle(static_cast<MsgType&>(msg));") == who.size(), "dispatch-handles");
            if (!who.empty()) first.push_back(who[0]);
        }
        for (unsigned i = 0; i < ms.size(); ++i) good &= got[i] == (sel[i] ? 1u : 0u);
        if (!good && sxn_replaying()) std::printf("  dispatch %s of %s\n", dispName.c_str(), Scopes[ns]);
        sxn_assert(good, "dispatch-exact");
        for (unsigned i = 0; i < first.size(); ++i) for (unsigned j = 0; j < i; ++j) sxn_assert(ms[first[i]].id != ms[first[j]].id, "dispatch-labels-distinct");
        // every function goes to the ones of this list
        for (size_t x = d.find("dispatch"); x != std::string::npos; x = d.find("dispatch", x + 1)) {
            if (x && wordCh(d.s[x - 1])) continue;
            size_t y = x; while (y < d.s.size() && wordCh(d.s[y])) ++y;
            std::string w = d.s.substr(x, y - x);
            if (w == "dispatch" || d.s[y] == '.') continue;
            sxn_assert(w == "dispatch" + dispName + "Message" || w == "dispatch" + dispName + "MessageDefaultOptions", "dispatch-names");
        }
        sxn_assert(count(d, std::string("return ") + Scopes[ns] + "::dispatch::dispatch" + dispName + "Message<TProtOptions>(id, idx, msg, handler);") == 1 &&
                   count(d, std::string("return ") + Scopes[ns] + "::dispatch::dispatch" + dispName + "Message<TProtOptions>(id, msg, handler);") == 1, "dispatcher");
        sxn_assert(d.has("struct " + dispName + "MsgDispatcher\n"), "dispatcher-named");
    }
    // factory
    std::string ff = dir + "factory/" + listName + "DynMemMsgFactory.h";
    sxn_assert(g.has(ff), "factory-generated");
    if (g.has(ff)) {
        Text d = g.file(ff).bare();
        sxn_assert(includesResolve(g, d), "includes-resolve");
        sxn_assert(d.has(std::string("#include \"") + Dirs[ns] + "input/" + listName + ".h\"") && d.has("class " + listName + "DynMemMsgFactory\n"), "factory-includes-list");
        Text create = bodyOf(d, "MsgPtr createMsg("), cnt = bodyOf(d, "msgCount("), uniq = bodyOf(d, "hasUniqueIds()");
        auto cs = cases(switchBody(create.sub(create.find("switch"), create.size()), "static_cast<std::intmax_t>(id)"));
        bool single = create.has("if (1U <= idx) {");
        std::vector<unsigned> got(ms.size(), 0);
        std::vector<int> first; std::vector<unsigned> sizes;
        unsigned good = 1, repeated = 0;
        for (auto& c : cs) {
            auto who = named(c.body);
            if (who.empty()) good = 0;
            for (unsigned k = 0; k < who.size() && good; ++k) {
                if (who[k] < 0 || !sel[who[k]] || got[who[k]]++) { good = 0; break; }
                labelIs(c.label, ms[who[k]], "factory-id");
                if (k) sxn_assert(before(ms[who[k - 1]], ms[who[k]]), "factory-order");
                std::string ret = "return MsgPtr(new " + ms[who[k]].scope + "<TInterface, TProtOptions>);";
                Text b = c.body.trim();
                if (single) sxn_assert(who.size() == 1 && b.is(ret), "factory-creates");
                else {
                    size_t x = b.find("(idx == " + std::to_string(k) + ")");
                    bool okc = x != std::string::npos;
                    if (okc) { size_t o = b.find("{", x); okc = o != std::string::npos && b.sub(o + 1, matching(b.s, o)).trim().is(ret); }
                    sxn_assert(okc, "factory-creates");
                }
            }
            if (!good) break;
            if (who.size() > 1) repeated = 1;
            first.push_back(who[0]); sizes.push_back((unsigned)who.size());
        }
        for (unsigned i = 0; i < ms.size(); ++i) good &= got[i] == (sel[i] ? 1u : 0u);
        if (!good && sxn_replaying()) std::printf("  factory %s of %s\n", listName.c_str(), Scopes[ns]);
        sxn_assert(good, "factory-exact");
        for (unsigned i = 0; i < first.size(); ++i) for (unsigned j = 0; j < i; ++j) sxn_assert(ms[first[i]].id != ms[first[j]].id, "factory-labels-distinct");
        sxn_assert(uniq.trim().is(repeated ? "return false;" : "return true;"), "factory-unique-ids");
        if (single) sxn_assert(!repeated, "factory-index-known");
        auto ccs = cases(switchBody(cnt, "static_cast<std::intmax_t>(id)"));
        sxn_assert(ccs.size() == first.size() || !good, "count-cases");
        if (good && ccs.size() == first.size())
            for (unsigned i = 0; i < ccs.size(); ++i) {
                labelIs(ccs[i].label, ms[first[i]], "count-id");
                sxn_assert(ccs[i].body.trim().is("return " + std::to_string(sizes[i]) + ";"), "count-value");
            }
    }
    sxn_reach(want ? "group" : "empty-group");
}
static bool under(unsigned place, unsigned ns) { return ns == 0 ? place == 0 : place >= ns; }
static void all(const CG& g, const std::vector<unsigned>& spaces, unsigned platforms, bool bundle)
{
    for (auto& m : ms) {
        sxn_assert(g.has("include/" + m.header) == (m.exists != 0), "message-files");
        if (m.exists && g.has("include/" + m.header)) sxn_assert(includesResolve(g, g.file("include/" + m.header)), "includes-resolve");
    }
    for (unsigned ns : spaces)
        for (unsigned side = 0; side < 3; ++side)
            for (unsigned pl = 0; pl <= platforms + (bundle ? 1 : 0); ++pl) {
                bool lst = pl > platforms;
                std::vector<bool> sel;
                for (auto& m : ms) sel.push_back(m.exists && under(m.place, ns) && (side == 0 || m.sender != side) && (pl == 0 || (lst ? m.listed != 0 : (m.plat == 0 || m.plat == pl))));
                std::string pre = pl == 0 ? "" : lst ? "Sel" : "P" + std::to_string(pl);
                std::string sd = side == 0 ? "" : side == 1 ? "ClientInput" : "ServerInput";
                std::string listName = (pl == 0 && side == 0 ? "All" : pre + sd) + "Messages";
                group(g, ns, listName, pre + sd, sel);
            }
}
static std::string msgXml(const M& m, const std::string& more = "")
{
    std::string at = attr("name", m.name) + attr("id", sx::hex(m.id)) + attr("order", std::to_string(m.order)) + more;
    if (m.sender) at += attr("sender", m.sender == 1 ? "client" : "server");
    if (m.plat) at += attr("platforms", m.plat == 1 ? "+p1" : "-p1");
    return tag("message", at);
}
static const char* const Frame = "<frame name=\"F\"><id name=\"i\"><int name=\"x\" type=\"uint8\"/></id><payload name=\"d\"/></frame>";
static std::string doc(const std::string (&t)[3], bool platforms, unsigned frames)
{
    std::string b = platforms ? "<platforms><platform name=\"p1\"/><platform name=\"p2\"/></platforms>" : "";
    b += "<fields><enum name=\"Ids\" type=\"uint64\" semanticType=\"messageId\"><validValue name=\"A\" val=\"1\"/></enum></fields>\n";
    b += t[0];
    if (frames & 1) b += Frame;
    b += "<ns name=\"n1\">" + t[1] + ((frames & 2) ? Frame : "") + "<ns name=\"n2\">" + t[2] + ((frames & 4) ? Frame : "") + "</ns></ns>";
    return schema(b, "nonUniqueMsgIdAllowed=\"true\"", "9");
}
static void add(unsigned i, unsigned place, unsigned order, bool wide = false)
{
    // numbers of one digit count, or any
    M m; m.place = place; m.name = is("M", i); m.order = order; m.id = wide ? sx::u64(is("id", i).c_str()) : sx::range(is("id", i).c_str(), 10000, 65535);
    m.scope = std::string(Scopes[place]) + "::message::" + m.name; m.header = std::string(Dirs[place]) + "message/" + m.name + ".h";
    ms.push_back(m);
}
// namespaces which have frames somewhere and messages somewhere
static std::vector<unsigned> spacesFor(unsigned frames)
{
    std::vector<unsigned> r;
    auto frameIn = [&](unsigned ns) { return ns == 0 ? (frames & 1) != 0 : ns == 1 ? (frames & 6) != 0 : (frames & 4) != 0; };
    for (unsigned ns = 0; ns < 3; ++ns) {
        bool any = false; for (auto& m : ms) any |= under(m.place, ns);
        if (frameIn(ns) && any) r.push_back(ns);
    }
    return r;
}
void sx_harness()
{
    ms.clear();
    unsigned how = sx::choice("scenario", 5), frames = 7, platforms = 0; bool bundle = false;
    std::string t[3], more[3]; std::vector<std::string> args;
    switch (how) {
    case 0: {       // places and orders
        unsigned n = 2 + sx::choice("third", 2);
        unsigned up = sx::choice("ascending", 2);
        for (unsigned i = 0; i < n; ++i) add(i, (n == 3 && i == 0 && !sxn_thorough()) ? 1 : sx::choice(is("place", i).c_str(), 3), up ? i : n - i, n == 2 && (i == 0 || sxn_thorough()));
        if (n == 2) { static const unsigned Fr[] = {7, 1, 2, 4}; frames = Fr[sx::choice("frames", 4)]; }
        break;
    }
    case 1: {       // senders
        unsigned where = sx::choice("where", 2);
        for (unsigned i = 0; i < 3; ++i) { if (i == 2 && !sxn_thorough()) break; add(i, where ? 1 + i % 2 : 0, i); ms[i].sender = sx::choice(is("sender", i).c_str(), 3); }
        frames = where ? 2 : 1;
        break;
    }
    case 2: {       // platforms, with senders
        platforms = 2;
        for (unsigned i = 0; i < 2; ++i) { add(i, 1, i); ms[i].plat = sx::choice(is("platforms", i).c_str(), 3); ms[i].sender = sx::choice(is("sender", i).c_str(), 3); }
        frames = 2;
        break;
    }
    case 3: {       // extra bundles of the command line
        bundle = true;
        add(0, 0, 0); add(1, 2, 1); add(2, 1, 2); add(3, 1, 3);
        ms[3].listed = 0; 
        ms[2].sender = sx::choice("sender", 3);
        std::string f = __FILE__; f.replace(f.size() - 3, 3, "lst");
        args = {"--extra-messages-bundle", "Sel@" + f};
        break;
    }
    case 4: {       // messages which are newer than the version are left out everywhere or nowhere
        unsigned forced = sx::choice("forced", 2);
        if (forced) { args.push_back("--force-schema-version"); args.push_back("4"); }
        for (unsigned i = 0; i < 2; ++i) {
            add(i, 1, i);
            uint64_t since = sx::range(is("since", i).c_str(), 0, 9);
            more[i] = attr("sinceVersion", sx::hex(since));
        }
        frames = 2;
        break;
    }
    }
    for (unsigned i = 0; i < ms.size(); ++i) t[ms[i].place] += msgXml(ms[i], i < 3 ? more[i] : "");
    CG g; g.xml("s.xml", doc(t, platforms != 0, frames)).run("commsdsl2comms", args);
    sxn_assert(g.rc == 0, "generated");
    if (g.rc != 0) return;
    if (how == 4) for (auto& m : ms) m.exists = g.has("include/" + m.header);
    bool any = false; for (auto& m : ms) any |= m.exists != 0;
    auto sp = spacesFor(frames);
    if (!any) sp.clear();
    all(g, sp, platforms, bundle);
    static const char* const Marks[] = {"places", "senders", "platforms", "bundle", "versions"};
    sxn_reach(Marks[how]);
}
