// Shared by the harnesses: parse a schema text through the public API.
#pragma once
#include "sx.h"
#include "commsdsl/parse/ParseProtocol.h"
#include "commsdsl/parse/ParseIntField.h"
#include "commsdsl/parse/ParseFloatField.h"
#include "commsdsl/parse/ParseEnumField.h"
#include "commsdsl/parse/ParseSetField.h"
#include "commsdsl/parse/ParseBitfieldField.h"
#include "commsdsl/parse/ParseBundleField.h"
#include "commsdsl/parse/ParseStringField.h"
#include "commsdsl/parse/ParseDataField.h"
#include "commsdsl/parse/ParseListField.h"
#include "commsdsl/parse/ParseRefField.h"
#include "commsdsl/parse/ParseOptionalField.h"
#include "commsdsl/parse/ParseVariantField.h"
#include "commsdsl/parse/ParseMessage.h"
#include "commsdsl/parse/ParseLayer.h"
#include "commsdsl/parse/ParseFrame.h"
#include "commsdsl/parse/ParseInterface.h"
#include "commsdsl/parse/ParseNamespace.h"
#include "commsdsl/parse/ParseAlias.h"
#include "commsdsl/parse/ParseOptCond.h"
#include <cstdio>
#include <string>
#include <vector>
using namespace commsdsl::parse;

struct P
{
    ParseProtocol p;
    bool ok = true;        // parse() and parseValidate() both succeeded
    unsigned errors = 0, warnings = 0;
    bool parsed = false;
    P()
    {
        p.parseSetErrorReportCallback([this](commsdsl::parse::ParseErrorLevel l, const std::string& m) {
            if (l >= ParseErrorLevel_Error) ++errors;
            else if (l == ParseErrorLevel_Warning) ++warnings;
            if (sxn_replaying()) std::printf("  [report %d] %s\n", (int)l, m.c_str());
        });
    }
    P& add(const std::string& name, const std::string& text)
    {
        auto f = sx::xml(name, text);
        if (ok) ok = p.parse(f);
        parsed = ok;
        return *this;
    }
    bool validate() { if (ok) ok = p.parseValidate(); return ok; }
    bool run(const std::string& text) { add("s.xml", text); return validate(); }
    ParseMessage message(const std::string& ref)
    {
        auto all = p.parseSchemas().back().parseAllMessages();
        for (auto& m : all) if (m.parseExternalRef(false) == ref) return m;
        return ParseMessage(nullptr);
    }
    ParseField field(const std::string& ref) { return p.parseFindField(ref); }
};

inline std::string schema(const std::string& body, const std::string& attrs = "", const std::string& ver = "0")
{
    return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<schema name=\"s\" endian=\"big\" version=\"" + ver + "\" " + attrs + ">\n" + body + "\n</schema>\n";
}
inline std::string attr(const std::string& n, const std::string& v) { return " " + n + "=\"" + v + "\""; }

// ---- integer types of the schema language ----
struct IntT { const char* name; unsigned len; bool sig; bool var; };
static const IntT IntTypes[] = {
    {"int8", 1, true, false}, {"uint8", 1, false, false}, {"int16", 2, true, false}, {"uint16", 2, false, false},
    {"int32", 4, true, false}, {"uint32", 4, false, false}, {"int64", 8, true, false}, {"uint64", 8, false, false},
    {"intvar", 10, true, true}, {"uintvar", 10, false, true}};
// number of value bits available in `len` bytes
inline unsigned valueBits(const IntT& t, unsigned len) { return t.var ? (len * 7 > 64 ? 64 : len * 7) : len * 8; }
// limits as 64 bit patterns
inline uint64_t maxOf(bool sig, unsigned bits)
{
    if (sig) return (uint64_t(1) << (bits - 1)) - 1;
    return bits == 64 ? ~uint64_t(0) : (uint64_t(1) << bits) - 1;
}
inline uint64_t minOf(bool sig, unsigned bits) { return sig ? ~maxOf(true, bits) : 0; }
inline uint64_t typeMax(const IntT& t) { return maxOf(t.sig, t.var ? 64 : t.len * 8); }
inline uint64_t typeMin(const IntT& t) { return minOf(t.sig, t.var ? 64 : t.len * 8); }
inline bool big(const IntT& t) { return !t.sig && t.len >= 8; }
// a <= b in the numbers of type t
inline bool le(const IntT& t, uint64_t a, uint64_t b) { return big(t) ? a <= b : int64_t(a) <= int64_t(b); }
inline bool lt(const IntT& t, uint64_t a, uint64_t b) { return big(t) ? a < b : int64_t(a) < int64_t(b); }
// text of a number given as pattern (64 bit unsigned types: unsigned, others: signed)
inline std::string num(const IntT& t, uint64_t v) { return big(t) ? sx::hex(v) : sx::shex(int64_t(v)); }
inline bool inType(const IntT& t, uint64_t v) { return (unsigned)le(t, typeMin(t), v) & (unsigned)le(t, v, typeMax(t)); }
inline std::string tag(const std::string& n, const std::string& attrs, const std::string& kids = "") { return "<" + n + attrs + ">" + kids + "</" + n + ">\n"; }
inline std::string dec(unsigned v) { return std::to_string(v); }

// asks a field (and everything under it) for all it can tell; assertions in the code are violations
inline void probe(const ParseField& f)
{
    if (!f.parseValid()) return;
    f.parseMinLength(); f.parseMaxLength(); f.parseBitLength(); f.parseExternalRef(false); f.parseSchemaPos(); f.parseSemanticType();
    switch (f.parseKind()) {
    case ParseField::ParseKind::Bundle: for (auto& m : ParseBundleField(f).parseMembers()) probe(m); for (auto& a : ParseBundleField(f).parseAliases()) a.parseFieldName(); break;
    case ParseField::ParseKind::Bitfield: for (auto& m : ParseBitfieldField(f).parseMembers()) probe(m); break;
    case ParseField::ParseKind::Variant: for (auto& m : ParseVariantField(f).parseMembers()) probe(m); break;
    case ParseField::ParseKind::Optional: probe(ParseOptionalField(f).parseField()); break;
    case ParseField::ParseKind::Ref: probe(ParseRefField(f).parseField()); break;
    case ParseField::ParseKind::String: if (ParseStringField(f).parseHasLengthPrefixField()) probe(ParseStringField(f).parseLengthPrefixField()); break;
    case ParseField::ParseKind::Data: if (ParseDataField(f).parseHasLengthPrefixField()) probe(ParseDataField(f).parseLengthPrefixField()); break;
    case ParseField::ParseKind::List: {
        ParseListField l(f);
        probe(l.parseElementField());
        if (l.parseHasCountPrefixField()) probe(l.parseCountPrefixField());
        if (l.parseHasLengthPrefixField()) probe(l.parseLengthPrefixField());
        if (l.parseHasElemLengthPrefixField()) probe(l.parseElemLengthPrefixField());
        if (l.parseHasTermSuffixField()) probe(l.parseTermSuffixField());
        break;
    }
    default: break;
    }
}
