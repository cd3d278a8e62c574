// Runs a generator of the project (its real program options and generator classes) in the virtual file system.
#pragma once
#include "h.h"
#include "cpp.h"

template <typename G, typename O>
struct Gen
{
    int rc = -1;
    std::string out;
    std::vector<std::string> names;        // relative to the output directory
    std::vector<unsigned> index;           // in the virtual file system
    std::string dir = "out";               // the generators of one run have different ones
    bool first = true;                     // starts with an empty file system
    std::vector<std::string> paths;        // of input documents
    Gen& xml(const std::string& name, const std::string& text) { paths.push_back(sx::xml(name, text)); return *this; }
    Gen& run(const char* app, const std::vector<std::string>& extra = {})
    {
        if (first) sxn_vfs(1);
        sxn_exact_streams(1);
        out = std::string(sxn_workdir()) + "/" + dir;
        std::vector<std::string> args = {app, "-q", "-o", out};
        for (auto& a : extra) args.push_back(a);
        for (auto& p : paths) args.push_back(p);
        std::vector<const char*> argv;
        for (auto& a : args) argv.push_back(a.c_str());
        O opts;
        opts.genParse((int)argv.size(), argv.data());
        {
            G g;
            rc = g.genExec(opts);
        }
        unsigned n = sxn_vfs_count();
        for (unsigned i = 0; i < n; ++i) {
            std::string f = sxn_vfs_name(i);
            if (f.compare(0, out.size() + 1, out + "/") != 0) continue;
            names.push_back(f.substr(out.size() + 1));
            index.push_back(i);
        }
        return *this;
    }
    bool has(const std::string& rel) const { for (auto& n : names) if (n == rel) return true; return false; }
    Text file(const std::string& rel) const
    {
        for (unsigned i = 0; i < names.size(); ++i) {
            if (names[i] != rel) continue;
            std::string s(sxn_vfs_size(index[i]), 0);
            sxn_vfs_read(index[i], &s[0]);
            if (sxn_replaying() && getenv("SX_SHOW")) std::printf("---- %s\n%s\n", rel.c_str(), s.c_str());
            return Text(s);
        }
        return Text();
    }
};

// `class NAME ... : public BASE {` -> BASE
inline Call baseOf(const Text& f, const std::string& cls, size_t from = 0)
{
    size_t p = f.find("class " + cls + " : public", from);
    if (p == std::string::npos) return Call();
    size_t b = p + cls.size() + 16, e = f.find("\n{", b);
    size_t b2 = b; int d = 0;
    // the body opens with a brace outside of template arguments
    for (size_t i = b; i < f.s.size(); ++i) { if (f.s[i] == '<') ++d; else if (f.s[i] == '>') --d; else if (f.s[i] == '{' && d == 0) { e = i; break; } }
    if (e == std::string::npos) return Call();
    return call(f.sub(b2, e));
}
// body of the class / struct / function whose head ends before the first '{' after `head`
inline Text bodyOf(const Text& f, const std::string& head, size_t from = 0)
{
    size_t p = f.find(head, from);
    if (p == std::string::npos) return Text();
    size_t b = f.find("{", p + head.size());
    if (b == std::string::npos) return Text();
    size_t e = matching(f.s, b);
    if (e == std::string::npos) return Text();
    return f.sub(b + 1, e);
}
inline std::vector<Call> options(const Call& c, size_t from)
{
    std::vector<Call> r;
    for (size_t i = from; i < c.args.size(); ++i) r.push_back(call(c.args[i]));
    return r;
}
#define DEF_OPT "comms::option::def::"
