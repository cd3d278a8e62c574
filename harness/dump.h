// Everything the public interface tells about a field / message / interface, as lists of numbers and texts.
#pragma once
#include "h.h"

struct Dump
{
    std::vector<uint64_t> n;
    std::vector<std::string> s;
    void num(uint64_t v) { n.push_back(v); }
    void str(const std::string& v) { s.push_back(v); }
    void dbl(double v) { uint64_t b; __builtin_memcpy(&b, &v, 8); n.push_back(b); }
    template <class M> void extra(const M& o)
    {
        num(o.parseExtraAttributes().size());
        for (auto& a : o.parseExtraAttributes()) { str(a.first); str(a.second); }
        num(o.parseExtraElements().size());
        for (auto& e : o.parseExtraElements()) str(e);
    }
    void alias(const ParseAlias& a) { str(a.parseName()); str(a.parseDescription()); str(a.parseFieldName()); extra(a); }
    void operand(const ParseOptCondExpr::ParseOperandInfo& o) { num((uint64_t)o.m_type); num((uint64_t)o.m_mode); str(o.m_access); }
    void cond(const ParseOptCond& c)
    {
        num(c.parseValid());
        if (!c.parseValid()) return;
        num((uint64_t)c.parseKind());
        if (c.parseKind() == ParseOptCond::ParseKind::Expr) {
            ParseOptCondExpr e(c);
            str(e.parseLeft()); str(e.parseOp()); str(e.parseRight());
            operand(e.parseLeftInfo()); operand(e.parseRightInfo());
            return;
        }
        ParseOptCondList l(c);
        num((uint64_t)l.parseType());
        auto k = l.parseConditions();
        num(k.size());
        for (auto& x : k) cond(x);
    }
    template <class T> void version(const T& v) { num(v.m_sinceVersion); num(v.m_deprecatedSince); }
    template <class T> void specials(const T& m)
    {
        num(m.size());
        for (auto& x : m) { str(x.first); version(x.second); str(x.second.m_description); str(x.second.m_displayName); }
    }
    // `top`: leave out what names the field and its place
    void field(const ParseField& f, bool top = false)
    {
        num(f.parseValid());
        if (!f.parseValid()) return;
        if (!top) { str(f.parseName()); str(f.parseDisplayName()); }
        str(f.parseDescription());
        num((uint64_t)f.parseKind()); num((uint64_t)f.parseSemanticType());
        num(f.parseMinLength()); num(f.parseMaxLength()); num(f.parseBitLength());
        num(f.parseSinceVersion()); num(f.parseDeprecatedSince()); num(f.parseIsDeprecatedRemoved());
        num(f.parseIsPseudo()); num(f.parseIsFixedValue()); num(f.parseIsCustomizable()); num(f.parseIsFailOnInvalid()); num(f.parseIsForceGen());
        num((uint64_t)f.parseValueOverride()); num((uint64_t)f.parseReadOverride()); num((uint64_t)f.parseWriteOverride()); num((uint64_t)f.parseRefreshOverride());
        num((uint64_t)f.parseLengthOverride()); num((uint64_t)f.parseValidOverride()); num((uint64_t)f.parseNameOverride());
        str(f.parseCopyCodeFrom());
        extra(f);
        switch (f.parseKind()) {
        case ParseField::ParseKind::Int: {
            ParseIntField i(f);
            num((uint64_t)i.parseType()); num((uint64_t)i.parseEndian()); num(i.parseSerOffset()); num(i.parseMinValue()); num(i.parseMaxValue()); num(i.parseDefaultValue());
            num(i.parseScaling().first); num(i.parseScaling().second); num((uint64_t)i.parseUnits()); num(i.parseValidCheckVersion()); num(i.parseDisplayDecimals());
            num(i.parseDisplayOffset()); num(i.parseSignExt()); num(i.parseAvailableLengthLimit());
            num(i.parseValidRanges().size());
            for (auto& r : i.parseValidRanges()) { num(r.m_min); num(r.m_max); version(r); }
            specials(i.parseSpecialValues());
            for (auto& x : i.parseSpecialValues()) num(x.second.m_value);
            break;
        }
        case ParseField::ParseKind::Enum: {
            ParseEnumField i(f);
            num((uint64_t)i.parseType()); num((uint64_t)i.parseEndian()); num(i.parseDefaultValue()); num(i.parseIsNonUniqueAllowed()); num(i.parseIsUnique());
            num(i.parseValidCheckVersion()); num(i.parseHexAssign()); num(i.parseAvailableLengthLimit());
            specials(i.parseValues());
            for (auto& x : i.parseValues()) num(x.second.m_value);
            num(i.parseRevValues().size());
            for (auto& x : i.parseRevValues()) { num(x.first); str(x.second); }
            break;
        }
        case ParseField::ParseKind::Set: {
            ParseSetField i(f);
            num((uint64_t)i.parseType()); num((uint64_t)i.parseEndian()); num(i.parseDefaultBitValue()); num(i.parseReservedBitValue()); num(i.parseIsNonUniqueAllowed());
            num(i.parseIsUnique()); num(i.parseValidCheckVersion()); num(i.parseAvailableLengthLimit());
            specials(i.parseBits());
            for (auto& x : i.parseBits()) { num(x.second.m_idx); num(x.second.m_defaultValue); num(x.second.m_reserved); num(x.second.m_reservedValue); }
            num(i.parseRevBits().size());
            for (auto& x : i.parseRevBits()) { num(x.first); str(x.second); }
            break;
        }
        case ParseField::ParseKind::Float: {
            ParseFloatField i(f);
            num((uint64_t)i.parseType()); num((uint64_t)i.parseEndian()); dbl(i.parseDefaultValue()); num(i.parseValidCheckVersion()); num((uint64_t)i.parseUnits());
            num(i.parseDisplayDecimals()); num(i.parseHasNonUniqueSpecials());
            num(i.parseValidRanges().size());
            for (auto& r : i.parseValidRanges()) { dbl(r.m_min); dbl(r.m_max); version(r); }
            specials(i.parseSpecialValues());
            for (auto& x : i.parseSpecialValues()) dbl(x.second.m_value);
            break;
        }
        case ParseField::ParseKind::String: {
            ParseStringField i(f);
            str(i.parseDefaultValue()); str(i.parseEncodingStr()); num(i.parseFixedLength()); num(i.parseHasZeroTermSuffix()); str(i.parseDetachedPrefixFieldName());
            num(i.parseHasLengthPrefixField());
            if (i.parseHasLengthPrefixField()) sub(i.parseLengthPrefixField());
            num(i.parseValidValues().size());
            for (auto& v : i.parseValidValues()) { str(v.m_value); version(v); }
            break;
        }
        case ParseField::ParseKind::Data: {
            ParseDataField i(f);
            auto txt = [](const ParseDataField::ParseValueType& v) { return std::string(v.begin(), v.end()); };
            str(txt(i.parseDefaultValue())); num(i.parseFixedLength()); str(i.parseDetachedPrefixFieldName());
            num(i.parseHasLengthPrefixField());
            if (i.parseHasLengthPrefixField()) sub(i.parseLengthPrefixField());
            num(i.parseValidValues().size());
            for (auto& v : i.parseValidValues()) { str(txt(v.m_value)); version(v); }
            break;
        }
        case ParseField::ParseKind::Bitfield: {
            ParseBitfieldField i(f);
            num((uint64_t)i.parseEndian()); cond(i.parseValidCond());
            list(i.parseMembers());
            break;
        }
        case ParseField::ParseKind::Bundle: {
            ParseBundleField i(f);
            cond(i.parseValidCond());
            list(i.parseMembers());
            num(i.parseAliases().size());
            for (auto& a : i.parseAliases()) alias(a);
            break;
        }
        case ParseField::ParseKind::List: {
            ParseListField i(f);
            num(i.parseFixedCount()); num(i.parseElemFixedLength());
            str(i.parseDetachedCountPrefixFieldName()); str(i.parseDetachedLengthPrefixFieldName()); str(i.parseDetachedElemLengthPrefixFieldName()); str(i.parseDetachedTermSuffixFieldName());
            num(i.parseHasCountPrefixField()); num(i.parseHasLengthPrefixField()); num(i.parseHasElemLengthPrefixField()); num(i.parseHasTermSuffixField());
            sub(i.parseElementField());
            if (i.parseHasCountPrefixField()) sub(i.parseCountPrefixField());
            if (i.parseHasLengthPrefixField()) sub(i.parseLengthPrefixField());
            if (i.parseHasElemLengthPrefixField()) sub(i.parseElemLengthPrefixField());
            if (i.parseHasTermSuffixField()) sub(i.parseTermSuffixField());
            break;
        }
        case ParseField::ParseKind::Ref: sub(ParseRefField(f).parseField()); break;
        case ParseField::ParseKind::Optional: {
            ParseOptionalField i(f);
            num((uint64_t)i.parseDefaultMode()); num(i.parseMissingOnReadFail()); num(i.parseMissingOnInvalid()); cond(i.parseCond());
            sub(i.parseField());
            break;
        }
        case ParseField::ParseKind::Variant: {
            ParseVariantField i(f);
            num(i.parseDefaultMemberIdx());
            list(i.parseMembers());
            break;
        }
        default: break;
        }
    }
    // a field used by another one: one with a reference of its own stays the same field
    void sub(const ParseField& f) { str(f.parseExternalRef(false)); field(f); }
    void list(const std::vector<ParseField>& l) { num(l.size()); for (auto& m : l) { sxn_assert(m.parseExternalRef(false).empty(), "member-without-reference"); field(m); } }
    void message(const ParseMessage& m, bool top = false)
    {
        if (!top) { str(m.parseName()); num(m.parseId()); }
        str(m.parseDescription()); str(m.parseDisplayName());
        num(m.parseOrder()); num(m.parseMinLength()); num(m.parseMaxLength()); num(m.parseSinceVersion()); num(m.parseDeprecatedSince()); num(m.parseIsDeprecatedRemoved());
        num(m.parseIsCustomizable()); num(m.parseIsFailOnInvalid()); num((uint64_t)m.parseSender());
        num((uint64_t)m.parseReadOverride()); num((uint64_t)m.parseWriteOverride()); num((uint64_t)m.parseRefreshOverride()); num((uint64_t)m.parseLengthOverride());
        num((uint64_t)m.parseValidOverride()); num((uint64_t)m.parseNameOverride());
        str(m.parseCopyCodeFrom());
        cond(m.parseConstruct()); cond(m.parseReadCond()); cond(m.parseValidCond());
        extra(m);
        num(m.parsePlatforms().size());
        for (auto& p : m.parsePlatforms()) str(p);
        list(m.parseFields());
        num(m.parseAliases().size());
        for (auto& a : m.parseAliases()) alias(a);
    }
    void iface(const ParseInterface& m, bool top = false)
    {
        if (!top) str(m.parseName());
        str(m.parseDescription()); str(m.parseCopyCodeFrom());
        extra(m);
        list(m.parseFields());
        num(m.parseAliases().size());
        for (auto& a : m.parseAliases()) alias(a);
    }
};
inline void same(const Dump& a, const Dump& b, const char* key)
{
    unsigned eq = (a.n.size() == b.n.size()) & (a.s.size() == b.s.size());
    size_t at = 0;
    if (eq) {
        for (size_t i = 0; i < a.n.size(); ++i) { unsigned e = (unsigned)(a.n[i] == b.n[i]); eq &= e; if (sxn_replaying() && !e && !at) { at = 1; std::printf("  number %zu: %llx / %llx\n", i, (unsigned long long)a.n[i], (unsigned long long)b.n[i]); } }
        for (size_t i = 0; i < a.s.size(); ++i) {
            unsigned e = a.s[i].size() == b.s[i].size();
            if (e) for (size_t j = 0; j < a.s[i].size(); ++j) e &= (unsigned)(a.s[i][j] == b.s[i][j]);
            eq &= e;
            if (sxn_replaying() && !e && !(at & 2)) { at |= 2; std::printf("  text %zu: \"%s\" / \"%s\"\n", i, a.s[i].c_str(), b.s[i].c_str()); }
        }
    }
    else if (sxn_replaying()) {
        std::printf("  sizes: %zu / %zu numbers, %zu / %zu texts\n", a.n.size(), b.n.size(), a.s.size(), b.s.size());
        for (auto& s : a.s) std::printf("   a \"%s\"\n", s.c_str());
        for (auto& s : b.s) std::printf("   b \"%s\"\n", s.c_str());
    }
    sxn_assert(eq != 0, key);
}
