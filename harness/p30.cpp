// P30: no failure to write the output passes for success.
#include "gen.h"
#include "forms.h"
#include "CommsGenerator.h"
#include "CommsProgramOptions.h"
#include "CGenerator.h"
#include "CProgramOptions.h"
#include "EmscriptenGenerator.h"
#include "EmscriptenProgramOptions.h"
#include "LatexGenerator.h"
#include "LatexProgramOptions.h"
#include "SwigGenerator.h"
#include "SwigProgramOptions.h"
#include "TestGenerator.h"
#include "TestProgramOptions.h"
#include "ToolsQtGenerator.h"
#include "ToolsQtProgramOptions.h"
#include <algorithm>
#include <set>

void sx_prepare() {}
struct Out { int rc; std::vector<std::string> names; std::vector<unsigned> index; };
template <typename G, typename O>
static Out go(const char* app, const std::vector<std::string>& docs, const std::vector<std::string>& args, const char* dir, bool first)
{
    Gen<G, O> g; g.dir = dir; g.first = first; g.paths = docs;
    g.run(app, args);
    return Out{g.rc, g.names, g.index};
}
enum App { Comms, C, Emscripten, Latex, Swig, Test, ToolsQt, NumApps };
static const char* const AppNames[] = {"comms", "c", "emscripten", "latex", "swig", "test", "tools_qt"};
static Out go(unsigned app, const std::vector<std::string>& docs, const std::vector<std::string>& args, const char* dir, bool first)
{
    switch (app) {
    case Comms: return go<commsdsl2comms::CommsGenerator, commsdsl2comms::CommsProgramOptions>("commsdsl2comms", docs, args, dir, first);
    case C: return go<commsdsl2c::CGenerator, commsdsl2c::CProgramOptions>("commsdsl2c", docs, args, dir, first);
    case Emscripten: return go<commsdsl2emscripten::EmscriptenGenerator, commsdsl2emscripten::EmscriptenProgramOptions>("commsdsl2emscripten", docs, args, dir, first);
    case Latex: return go<commsdsl2latex::LatexGenerator, commsdsl2latex::LatexProgramOptions>("commsdsl2latex", docs, args, dir, first);
    case Swig: return go<commsdsl2swig::SwigGenerator, commsdsl2swig::SwigProgramOptions>("commsdsl2swig", docs, args, dir, first);
    case Test: return go<commsdsl2test::TestGenerator, commsdsl2test::TestProgramOptions>("commsdsl2test", docs, args, dir, first);
    default: return go<commsdsl2tools_qt::ToolsQtGenerator, commsdsl2tools_qt::ToolsQtProgramOptions>("commsdsl2tools_qt", docs, args, dir, first);
    }
}
// the operation with a symbolic number fails: the file cannot be opened, writing into it fails, its directory cannot be
// created, or it cannot be copied
#define MAXOPS 250
void sx_harness()
{
    unsigned app = sx::choice("app", NumApps);
    unsigned code = sx::choice("code", 2), ns = sx::choice("namespace", 2), second = sx::choice("second schema", 2);
    unsigned content = sx::choice("content", 4), extra = app == Comms ? sx::choice("bundle", 2) : 0;
    uint64_t k = sx::range("operation", 0, MAXOPS);
    bool writes = sx::range("writes fail", 0, 1) == 1;
    std::string n = "1";
    std::string fields, msgs, refs = "<int name=\"a\" type=\"uint8\"/>";
    if (content == 0 || content == 3) for (unsigned f : {0u, 6u, 8u, 10u, 11u, 16u, 19u, 26u, 27u}) { std::string nm = "F" + std::to_string(f); fields += form(f, nm, n); refs += "<ref field=\"" + nm + "\" name=\"a" + nm + "\"/>"; }
    if (content == 1) { fields = form(0, "F0", n); refs += "<ref field=\"F0\" name=\"b\"/>"; }
    static const char* const Frame = "<frame name=\"F\"><id name=\"i\"><int name=\"x\" type=\"uint8\"/></id><payload name=\"d\"/></frame>";
    std::string iface = "<interface name=\"I\"/>";
    msgs = "<message name=\"M1\" id=\"1\"" + std::string(content == 2 ? " sender=\"client\"" : "") + ">" + refs + "</message>"
           "<message name=\"M2\" id=\"2\"" + std::string(content == 2 ? " sender=\"server\"" : "") + "/>";
    std::string body = "<platforms><platform name=\"p1\"/></platforms><fields>" + fields + "</fields>" + iface + msgs + Frame;
    if (content == 3) body += "<ns name=\"n1\"><fields><int name=\"H\" type=\"uint8\"/></fields><interface name=\"I2\"/><message name=\"M3\" id=\"3\"/>" + std::string(Frame) + "</ns>";
    std::vector<std::string> docs, args;
    if (second) {
        docs.push_back(sx::xml("t.xml", "<schema name=\"t\" version=\"9\" endian=\"big\"><fields><int name=\"Z\" type=\"uint8\"/></fields></schema>"));
        args.push_back("-s");
    }
    docs.push_back(sx::xml("s.xml", schema(body, "", "9")));
    std::string here = std::string(__FILE__).substr(0, std::string(__FILE__).rfind('/') + 1);
    if (code) { args.push_back("-c"); args.push_back(here + "code"); }
    if (ns) { args.push_back("-n"); args.push_back("sx"); }
    if (extra) { args.push_back("--extra-messages-bundle"); args.push_back("Few@" + here + "bundles.txt"); }
    sxn_faults(k, writes);
    Out o = go(app, docs, args, "out", true);
    sxn_assert(sxn_fault_points() <= MAXOPS, "all-operations-covered");
    switch (sxn_fault_hit()) {
    case 0: sxn_assert(o.rc == 0, "success"); break;
    case 1: sxn_assert(o.rc != 0, "failure-to-open-reported"); break;
    case 2: sxn_assert(o.rc != 0, "failure-to-write-reported"); break;
    case 3: sxn_assert(o.rc != 0, "failure-to-create-a-directory-reported"); break;
    default: sxn_assert(o.rc != 0, "failure-to-copy-reported"); break;
    }
    sxn_reach(AppNames[app]);
}
