// Reads generated C++ text in which digits of numbers may be symbolic: structure (template arguments, function
// bodies) is concrete, numbers and the values of expressions are not. Nothing here forks on symbolic values.
#pragma once
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

// a text and its shape: symbolic characters replaced by \1, everything else equal
struct Text
{
    std::string t, s;
    Text() {}
    Text(const std::string& x) : t(x), s(x)
    {
        if (sxn_is_symbolic(t.data(), t.size()))
            for (size_t i = 0; i < t.size(); ++i) if (sxn_is_symbolic(&t[i], 1)) s[i] = '\1';
    }
    Text sub(size_t b, size_t e) const { Text r; r.t = t.substr(b, e - b); r.s = s.substr(b, e - b); return r; }
    bool empty() const { return s.empty(); }
    size_t size() const { return s.size(); }
    size_t find(const std::string& x, size_t from = 0) const { return s.find(x, from); }
    bool has(const std::string& x) const { return s.find(x) != std::string::npos; }
    Text trim() const
    {
        size_t b = s.find_first_not_of(" \t\r\n"), e = s.find_last_not_of(" \t\r\n");
        if (b == std::string::npos) return Text();
        return sub(b, e + 1);
    }
    bool is(const std::string& x) const { return s == x; }
    bool starts(const std::string& x) const { return s.compare(0, x.size(), x) == 0; }
    // without comments
    Text bare() const
    {
        Text r;
        for (size_t i = 0; i < s.size(); ++i) {
            if (s[i] == '"') { size_t e = i + 1; while (e < s.size() && s[e] != '"') e += s[e] == '\\' ? 2 : 1; r.t.append(t, i, e + 1 - i); r.s.append(s, i, e + 1 - i); i = e; continue; }
            if (s.compare(i, 2, "/*") == 0) { size_t e = s.find("*/", i); if (e == std::string::npos) break; i = e + 1; continue; }
            if (s.compare(i, 2, "//") == 0) { size_t e = s.find('\n', i); if (e == std::string::npos) break; i = e - 1; continue; }
            r.t += t[i]; r.s += s[i];
        }
        return r;
    }
};

inline size_t matching(const std::string& s, size_t open)
{
    char o = s[open], c = o == '(' ? ')' : o == '{' ? '}' : o == '[' ? ']' : '>';
    int d = 0;
    for (size_t i = open; i < s.size(); ++i) {
        if (s[i] == '"') { ++i; while (i < s.size() && s[i] != '"') i += s[i] == '\\' ? 2 : 1; continue; }
        if (s[i] == o) ++d;
        else if (s[i] == c && !(c == '>' && i && s[i - 1] == '-')) { if (--d == 0) return i; }
    }
    return std::string::npos;
}
// parts between separators outside of any brackets
inline std::vector<Text> split(const Text& x, char sep)
{
    std::vector<Text> r; int d = 0; size_t b = 0;
    for (size_t i = 0; i < x.s.size(); ++i) {
        char c = x.s[i];
        if (c == '"') { ++i; while (i < x.s.size() && x.s[i] != '"') i += x.s[i] == '\\' ? 2 : 1; continue; }
        if (c == '<' || c == '(' || c == '{') ++d;
        else if (c == '>' || c == ')' || c == '}') --d;
        else if (c == sep && d == 0) { r.push_back(x.sub(b, i).trim()); b = i + 1; }
    }
    Text last = x.sub(b, x.s.size()).trim();
    if (!last.empty() || !r.empty()) r.push_back(last);
    return r;
}
struct Call { std::string name; std::vector<Text> args; bool has = false; Text text; };
// NAME<A, B> (without comments)
inline Call call(const Text& x0)
{
    Text x = x0.bare().trim(); Call r; r.has = true; r.text = x;
    size_t p = x.s.find('<');
    if (p == std::string::npos) { r.name = x.s; return r; }
    r.name = x.sub(0, p).trim().s;
    size_t e = matching(x.s, p);
    if (e == std::string::npos) return r;
    r.args = split(x.sub(p + 1, e), ',');
    return r;
}

// ---- values ----
struct V { uint64_t v = 0; bool uns = false; bool ok = true; };
inline unsigned vLess(const V& a, const V& b) { return (a.uns || b.uns) ? (unsigned)(a.v < b.v) : (unsigned)((int64_t)a.v < (int64_t)b.v); }

struct Env
{
    std::function<bool(const std::string&, V&)> leaf;                   // calls, members, names
    std::function<V(const std::string&, V)> cast = [](const std::string&, V v) { return v; };
    std::map<std::string, V> vars;
    bool bad = false;                                                   // something could not be read
    std::string what;
    void fail(const std::string& w) { if (!bad) { bad = true; what = w; if (sxn_replaying()) std::printf("  cannot read: %s\n", w.c_str()); } }
};

inline bool wordCh(char c) { return c == '\1' || c == '_' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }

struct Expr
{
    const Text& x; Env& env; size_t p = 0;
    Expr(const Text& t, Env& e) : x(t), env(e) {}
    char ch() const { return p < x.s.size() ? x.s[p] : 0; }
    void ws() { while (p < x.s.size() && strchr(" \t\r\n", x.s[p])) ++p; }
    bool op(const char* o)
    {
        ws(); size_t n = strlen(o);
        if (x.s.compare(p, n, o) != 0) return false;
        if (n == 1 && strchr("&|<>=!", o[0]) && p + 1 < x.s.size() && (x.s[p + 1] == '=' || (x.s[p + 1] == o[0]))) return false;
        p += n; return true;
    }
    V all() { V v = orE(); ws(); if (p != x.s.size()) env.fail(x.s); return v; }
    V orE() { V a = andE(); while (op("||")) { V b = andE(); a.v = (uint64_t)((unsigned)(a.v != 0) | (unsigned)(b.v != 0)); a.uns = false; } return a; }
    V andE() { V a = bitE(); while (op("&&")) { V b = bitE(); a.v = (uint64_t)((unsigned)(a.v != 0) & (unsigned)(b.v != 0)); a.uns = false; } return a; }
    V bitE() { V a = eqE(); while (op("&")) { V b = eqE(); a.v &= b.v; a.uns |= b.uns; } return a; }
    V eqE()
    {
        V a = relE();
        while (true) {
            if (op("==")) { V b = relE(); a.v = (uint64_t)(a.v == b.v); a.uns = false; }
            else if (op("!=")) { V b = relE(); a.v = (uint64_t)(a.v != b.v); a.uns = false; }
            else return a;
        }
    }
    V relE()
    {
        V a = addE();
        while (true) {
            if (op("<=")) { V b = addE(); a.v = (uint64_t)(1u ^ vLess(b, a)); a.uns = false; }
            else if (op(">=")) { V b = addE(); a.v = (uint64_t)(1u ^ vLess(a, b)); a.uns = false; }
            else if (op("<")) { V b = addE(); a.v = (uint64_t)vLess(a, b); a.uns = false; }
            else if (op(">")) { V b = addE(); a.v = (uint64_t)vLess(b, a); a.uns = false; }
            else return a;
        }
    }
    V addE()
    {
        V a = un();
        while (true) {
            ws();
            if (op("+")) { V b = un(); a.v += b.v; a.uns |= b.uns; }
            else if (op("-")) { V b = un(); a.v -= b.v; a.uns |= b.uns; }
            else return a;
        }
    }
    V un()
    {
        ws();
        if (op("!")) { V a = un(); a.v = (uint64_t)(a.v == 0); a.uns = false; return a; }
        if (op("-")) { V a = un(); a.v = 0 - a.v; return a; }
        if (op("~")) { V a = un(); a.v = ~a.v; return a; }
        return prim();
    }
    V literal()
    {
        size_t b = p; while (p < x.s.size() && wordCh(x.s[p])) ++p;
        size_t e = p; bool u = false, l = false;
        bool hex = x.s.compare(b, 2, "0x") == 0 || x.s.compare(b, 2, "0X") == 0;
        while (e > b && strchr("uUlL", x.s[e - 1])) { if (x.s[e - 1] == 'u' || x.s[e - 1] == 'U') u = true; else l = true; --e; }
        (void)l;
        if (!hex && e - b > 1 && x.s[b] == '0') { env.fail("octal " + x.s); }
        std::string d = x.t.substr(b, e - b);
        char* end = nullptr;
        V v; v.v = strtoull(d.c_str(), &end, 0);
        if (end != d.c_str() + d.size()) env.fail("number " + x.s.substr(b, p - b));
        v.uns = (unsigned)u | ((unsigned)hex & (unsigned)(v.v > 0x7fffffffffffffffull));
        if (!hex && !u && e - b > 18) {                // a decimal literal without suffix has to fit long long
            v.ok = v.v <= 0x7fffffffffffffffull;
            if (!v.ok) env.fail("decimal literal out of range");
        }
        return v;
    }
    V prim()
    {
        ws();
        char c = ch();
        if (c == '(') { ++p; V v = orE(); if (!op(")")) env.fail("bracket in " + x.s); return v; }
        if (c == '\1' || (c >= '0' && c <= '9')) return literal();
        size_t b = p;
        while (p < x.s.size()) {
            c = x.s[p];
            if (wordCh(c)) { ++p; continue; }
            if (x.s.compare(p, 2, "::") == 0) { p += 2; continue; }
            if (c == '.' ) { ++p; continue; }
            if (x.s.compare(p, 2, "->") == 0) { p += 2; continue; }
            if (c == '(') {
                size_t e = matching(x.s, p); if (e == std::string::npos) { env.fail(x.s); break; }
                p = e + 1; continue;
            }
            if (c == '<' && p > b && x.s.compare(b, 11, "static_cast") == 0 && p - b == 11) {
                size_t e = matching(x.s, p); if (e == std::string::npos) { env.fail(x.s); break; }
                std::string ty = x.sub(p + 1, e).trim().s;
                p = e + 1; ws();
                if (ch() != '(') { env.fail(x.s); break; }
                ++p; V v = orE(); if (!op(")")) env.fail(x.s);
                return env.cast(ty, v);
            }
            break;
        }
        if (p == b) { env.fail("expression: " + x.s); p = x.s.size(); return V(); }
        std::string w;
        for (size_t i = b; i < p; ++i) if (!strchr(" \t\r\n", x.s[i])) w += x.s[i];
        if (w == "true") { V v; v.v = 1; return v; }
        if (w == "false") return V();
        auto it = env.vars.find(w);
        if (it != env.vars.end()) return it->second;
        V v;
        if (!env.leaf || !env.leaf(w, v)) env.fail("unknown: " + w);
        return v;
    }
};
inline V evaluate(const Text& t, Env& env) { Expr e(t, env); return e.all(); }
// value of a constant expression, as a template argument or initializer
inline V number(const Text& t, bool& good) { Text b = t.bare().trim(); Env env; V v = evaluate(b, env); good = !env.bad; return v; }

// ---- function bodies: if / return / auto x = e / x = e ----
struct Res { unsigned ret = 0; uint64_t val = 0; };
inline Res block(const Text& x, Env& env, unsigned live = 1)
{
    Res r; size_t p = 0; const std::string& s = x.s;
    auto merge = [&r](unsigned c, uint64_t v) { unsigned t = c & (r.ret ^ 1u); r.val = t ? v : r.val; r.ret |= t; };
    while (true) {
        while (p < s.size() && strchr(" \t\r\n;", s[p])) ++p;
        if (p >= s.size() || env.bad) return r;
        if (s.compare(p, 2, "if") == 0 && p + 2 < s.size() && strchr(" (", s[p + 2])) {
            size_t o = s.find('(', p); size_t e = matching(s, o);
            if (e == std::string::npos) { env.fail(s); return r; }
            V c = evaluate(x.sub(o + 1, e).trim(), env);
            unsigned cu = (unsigned)(c.v != 0);
            size_t b = s.find_first_not_of(" \t\r\n", e + 1);
            if (b == std::string::npos || s[b] != '{') { env.fail(s); return r; }
            size_t be = matching(s, b); if (be == std::string::npos) { env.fail(s); return r; }
            Res in = block(x.sub(b + 1, be), env, live & cu & (r.ret ^ 1u));
            unsigned t = cu & in.ret & (r.ret ^ 1u);
            p = be + 1;
            size_t n = s.find_first_not_of(" \t\r\n", p);
            Res el; 
            if (n != std::string::npos && s.compare(n, 4, "else") == 0) {
                size_t eb = s.find_first_not_of(" \t\r\n", n + 4);
                if (eb == std::string::npos || s[eb] != '{') { env.fail(s); return r; }
                size_t ee = matching(s, eb);
                el = block(x.sub(eb + 1, ee), env, live & (cu ^ 1u) & (r.ret ^ 1u));
                p = ee + 1;
            }
            r.val = t ? in.val : r.val;
            unsigned t2 = (cu ^ 1u) & el.ret & (r.ret ^ 1u) & (t ^ 1u);
            r.val = t2 ? el.val : r.val;
            r.ret |= t | t2;
            continue;
        }
        size_t e = p; int d = 0;
        while (e < s.size() && !(s[e] == ';' && d == 0)) { if (strchr("({", s[e])) ++d; else if (strchr(")}", s[e])) --d; ++e; }
        Text st = x.sub(p, e).trim(); p = e + 1;
        if (st.s.compare(0, 6, "return") == 0) { V v = evaluate(st.sub(6, st.s.size()).trim(), env); merge(live, v.v); continue; }
        // [type] name = expression
        size_t q = 0; int dd = 0; size_t eq = std::string::npos;
        for (; q < st.s.size(); ++q) { if (strchr("(<{", st.s[q])) ++dd; else if (strchr(")>}", st.s[q])) --dd; else if (st.s[q] == '=' && dd == 0) { eq = q; break; } }
        if (eq == std::string::npos) { V v; if (!(env.leaf && env.leaf(st.s, v))) env.fail("statement: " + st.s); continue; }
        Text lhs = st.sub(0, eq).trim(); V v = evaluate(st.sub(eq + 1, st.s.size()).trim(), env);
        size_t sp = lhs.s.find_last_of(" \t");
        if (sp != std::string::npos) { env.vars[lhs.s.substr(sp + 1)] = v; continue; }
        auto it = env.vars.find(lhs.s);
        if (it == env.vars.end()) { env.fail("assignment: " + st.s); continue; }
        unsigned now = live & (r.ret ^ 1u);
        it->second.v = now ? v.v : it->second.v;
        it->second.uns |= v.uns;
    }
}
