// Language versions: what a schema declaring dslVersion d may use. Every feature is tried under a symbolic d.
#include "h.h"
static const int Refused = -1;
struct Feature
{
    const char* name;
    unsigned min;               // the version that brought it
    std::string text;           // schema body
    int (*get)(P&);             // what it makes of it
    int on, off;                // with and without the feature
    std::string attrs, second;  // of the schema; another file
};
static ParseMessage msg(P& p) { return p.message("M"); }
static ParseField fld(P& p, unsigned i = 0) { return msg(p).parseFields().at(i); }
static int count(P& p) { return (int)msg(p).parseFields().size(); }
static ParseLayer layer(P& p, unsigned i) { return p.p.parseSchemas().back().parseNamespaces().at(0).parseFrames().at(0).parseLayers().at(i); }
static ParseNamespace ns0(P& p) { return p.p.parseSchemas().back().parseNamespaces().at(0); }
static ParseInterface intf(P& p, const std::string& n) { for (auto& i : ns0(p).parseInterfaces()) if (i.parseName() == n) return i; return ParseInterface(nullptr); }
static std::string frame(const std::string& layers) { return "<frame name=\"F\">" + layers + "</frame>"; }
static std::string ID = "<id name=\"I\"><int name=\"a\" type=\"uint8\"/></id>", SZ = "<size name=\"S\"><int name=\"a\" type=\"uint8\"/></size>", PL = "<payload name=\"P\"/>", INT = "<int name=\"a\" type=\"uint8\"/>";
static std::string m(const std::string& kids, const std::string& attrs = "") { return "<message name=\"M\" id=\"1\"" + attrs + ">" + kids + "</message>"; }
static std::string f(const std::string& kids) { return "<fields>" + kids + "</fields>"; }
static std::string FLAGS = "<set name=\"fl\" length=\"1\"><bit name=\"b0\" idx=\"0\"/></set>";
static std::string INTF = "<interface name=\"IF\">" + FLAGS + "</interface>";
static int code(const std::string& s) { return s.empty() ? 0 : (int)s.size(); }

static std::vector<Feature> features()
{
    std::string cond = "<optional name=\"o\" cond=\"", op = "\"><int name=\"x\" type=\"uint8\"/></optional>";
    auto LIST = [](const std::string& n) { std::string o = n == "construct" ? "and" : "or"; return "<" + o + "><" + n + " value=\"%fl.b0\"/><" + n + " value=\"!%fl.b0\"/></" + o + ">"; };
    return {
        // ---- values of other fields
        {"value-ref-int", 2, f("<int name=\"A\" type=\"uint8\" defaultValue=\"7\"/>") + m("<int name=\"d\" type=\"uint8\" defaultValue=\"A\"/>"), [](P& p) { return (int)ParseIntField(fld(p)).parseDefaultValue(); }, 7, Refused},
        {"value-ref-float", 2, f("<float name=\"A\" type=\"float\" defaultValue=\"7\"/>") + m("<float name=\"d\" type=\"float\" defaultValue=\"A\"/>"), [](P& p) { return (int)ParseFloatField(fld(p)).parseDefaultValue(); }, 7, Refused},
        {"value-ref-string", 2, f("<string name=\"A\" defaultValue=\"abc\"/>") + m("<string name=\"d\" defaultValue=\"^A\"/>"), [](P& p) { return code(ParseStringField(fld(p)).parseDefaultValue()); }, 3, 2},
        {"value-ref-data", 2, f("<data name=\"A\" defaultValue=\"0102\"/>") + m("<data name=\"d\" defaultValue=\"^A\"/>"), [](P& p) { return (int)ParseDataField(fld(p)).parseDefaultValue().size(); }, 2, Refused},
        {"value-ref-enum", 2, f("<int name=\"A\" type=\"uint8\" defaultValue=\"7\"/>") + m("<enum name=\"d\" type=\"uint8\"><validValue name=\"v\" val=\"A\"/></enum>"), [](P& p) { return (int)ParseEnumField(fld(p)).parseValues().at("v").m_value; }, 7, Refused},
        // ---- numbers of bytes or elements in a member
        {"semantic-length", 2, f("<bundle name=\"B\"><int name=\"l\" type=\"uint8\" semanticType=\"length\"/></bundle>") + m("<ref name=\"d\" field=\"B\"/>"), [](P& p) { return (int)ParseBundleField(ParseRefField(fld(p)).parseField()).parseMembers().at(0).parseSemanticType(); }, (int)ParseField::ParseSemanticType::Length, Refused},
        {"semantic-length-bitfield", 5, f("<bundle name=\"B\"><bitfield name=\"l\" semanticType=\"length\"><int name=\"x\" type=\"uint8\" bitLength=\"8\"/></bitfield></bundle>") + m("<ref name=\"d\" field=\"B\"/>"), [](P& p) { return (int)ParseBundleField(ParseRefField(fld(p)).parseField()).parseMembers().at(0).parseSemanticType(); }, (int)ParseField::ParseSemanticType::Length, Refused},
        {"semantic-inherited", 2, f("<int name=\"A\" type=\"uint8\" semanticType=\"version\"/>") + m("<ref name=\"d\" field=\"A\"/>"), [](P& p) { return (int)fld(p).parseSemanticType(); }, (int)ParseField::ParseSemanticType::Version, (int)ParseField::ParseSemanticType::None},
        {"specials-unique", 2, m("<int name=\"d\" type=\"uint8\"><special name=\"x\" val=\"1\"/><special name=\"y\" val=\"1\"/></int>"), [](P& p) { return (int)ParseIntField(fld(p)).parseSpecialValues().size(); }, Refused, 2},
        {"float-specials-unique", 2, m("<float name=\"d\" type=\"float\"><special name=\"x\" val=\"1\"/><special name=\"y\" val=\"1\"/></float>"), [](P& p) { return (int)ParseFloatField(fld(p)).parseSpecialValues().size(); }, Refused, 2},
        // ---- alternative names
        {"alias-in-message", 3, m("<fields>" + INT + "</fields><alias name=\"z\" field=\"$a\"/>"), [](P& p) { return (int)msg(p).parseAliases().size(); }, 1, Refused},
        {"alias-in-interface", 3, "<interface name=\"IF\"><fields>" + INT + "</fields><alias name=\"z\" field=\"$a\"/></interface>", [](P& p) { return (int)intf(p, "IF").parseAliases().size(); }, 1, Refused},
        {"alias-in-bundle", 3, m("<bundle name=\"d\"><members>" + INT + "</members><alias name=\"z\" field=\"$a\"/></bundle>"), [](P& p) { return (int)ParseBundleField(fld(p)).parseAliases().size(); }, 1, Refused},
        // ---- properties of messages
        {"min-length", 4, m(INT, attr("validateMinLength", "2")), [](P&) { return 0; }, Refused, 0},
        {"default-valid-value", 4, m("<int name=\"d\" type=\"uint8\" defaultValidValue=\"3\"/>"), [](P& p) { return (int)ParseIntField(fld(p)).parseDefaultValue() * 10 + (int)ParseIntField(fld(p)).parseValidRanges().size(); }, 31, 0},
        {"length-limit", 4, m("<int name=\"d\" type=\"uintvar\" length=\"4\" availableLengthLimit=\"true\"/>"), [](P& p) { return (int)ParseIntField(fld(p)).parseAvailableLengthLimit(); }, 1, 0},
        {"copy-from-bundle", 4, f("<bundle name=\"B\">" + INT + "</bundle>") + m("", attr("copyFieldsFrom", "B")), [](P& p) { return count(p); }, 1, Refused},
        {"interface-copy-from-bundle", 4, f("<bundle name=\"B\">" + INT + "</bundle>") + "<interface name=\"IF\" copyFieldsFrom=\"B\"/>", [](P& p) { return (int)intf(p, "IF").parseFields().size(); }, 1, Refused},
        {"override-message", 4, m(INT, attr("readOverride", "replace") + attr("nameOverride", "extend")), [](P& p) { return (int)(msg(p).parseReadOverride() == ParseOverrideType_Replace) + 2 * (int)(msg(p).parseNameOverride() == ParseOverrideType_Extend); }, 3, 0},
        {"override-field", 4, m("<int name=\"d\" type=\"uint8\" validOverride=\"none\"/>"), [](P& p) { return (int)(fld(p).parseValidOverride() == ParseOverrideType_None); }, 1, 0},
        {"copy-code", 5, "<message name=\"N\" id=\"2\"/>" + m(INT, attr("copyCodeFrom", "N")), [](P& p) { return code(msg(p).parseCopyCodeFrom()); }, 1, 0},
        {"copy-code-field", 5, f("<int name=\"A\" type=\"uint8\"/>") + m("<int name=\"d\" type=\"uint8\" copyCodeFrom=\"A\"/>"), [](P& p) { return code(fld(p).parseCopyCodeFrom()); }, 1, 0},
        {"reuse-code", 5, f("<int name=\"A\" type=\"uint8\"/>") + m("<int name=\"d\" reuse=\"A\" reuseCode=\"true\"/>"), [](P& p) { return code(fld(p).parseCopyCodeFrom()); }, 1, 0},
        {"term-suffix", 5, m("<list name=\"d\"><element>" + INT + "</element><termSuffix><int name=\"t\" type=\"uint8\"/></termSuffix></list>"), [](P& p) { return (int)ParseListField(fld(p)).parseHasTermSuffixField(); }, 1, 0},
        {"missing-on-read-fail", 5, m("<optional name=\"o\" missingOnReadFail=\"true\">" + INT + "</optional>"), [](P& p) { return (int)ParseOptionalField(fld(p)).parseMissingOnReadFail(); }, 1, 0},
        {"missing-on-invalid", 5, m("<optional name=\"o\" missingOnInvalid=\"true\">" + INT + "</optional>"), [](P& p) { return (int)ParseOptionalField(fld(p)).parseMissingOnInvalid(); }, 1, 0},
        {"replace", 5, "<message name=\"N\" id=\"2\"><int name=\"a\" type=\"uint8\"/></message>" + m("<replace><int name=\"a\" type=\"uint16\"/></replace>", attr("copyFieldsFrom", "N")), [](P& p) { return (int)fld(p).parseMinLength(); }, 2, 1},
        {"replace-in-bundle", 5, f("<bundle name=\"B\"><int name=\"a\" type=\"uint8\"/></bundle>") + m("<bundle name=\"d\" reuse=\"B\"><replace><int name=\"a\" type=\"uint16\"/></replace></bundle>"), [](P& p) { return (int)fld(p).parseMinLength(); }, 2, 1},
        {"layer-meaning", 5, frame("<custom name=\"I\" semanticLayerType=\"size\">" + INT + "</custom>" + PL), [](P& p) { return (int)(ParseCustomLayer(layer(p, 0)).parseSemanticLayerType() == ParseLayer::ParseKind::Size); }, 1, 0},
        {"layer-checksum-from", 5, frame(ID + "<custom name=\"I2\" semanticLayerType=\"checksum\" checksumUntil=\"P\">" + INT + "</custom>" + PL), [](P& p) { return code(ParseCustomLayer(layer(p, 1)).parseChecksumUntilLayer()); }, 1, 0},
        {"two-schemas", 5, m(INT), [](P& p) { return (int)p.p.parseSchemas().size(); }, 2, Refused, "", "t"},
        // ---- conditions
        {"construct", 6, INTF + m(INT, attr("construct", "%fl.b0")), [](P& p) { return (int)msg(p).parseConstruct().parseValid(); }, 1, 0},
        {"read-cond", 6, INTF + m(INT, attr("readCond", "%fl.b0")), [](P& p) { return (int)msg(p).parseReadCond().parseValid(); }, 1, 0},
        {"valid-cond", 6, m(FLAGS, attr("validCond", "$fl.b0")), [](P& p) { return (int)msg(p).parseValidCond().parseValid(); }, 1, 0},
        {"construct-as-read", 6, INTF + m(INT, attr("construct", "%fl.b0") + attr("constructAsReadCond", "true")), [](P& p) { return (int)msg(p).parseReadCond().parseValid(); }, 1, 0},
        {"construct-as-valid", 6, INTF + m(INT, attr("construct", "%fl.b0") + attr("constructAsValidCond", "true")), [](P& p) { return (int)msg(p).parseValidCond().parseValid(); }, 1, 0},
        {"construct-list", 6, INTF + m("<fields>" + INT + "</fields><construct>" + LIST("construct") + "</construct>"), [](P& p) { return (int)msg(p).parseConstruct().parseValid(); }, 1, 0},
        {"read-cond-list", 6, INTF + m("<fields>" + INT + "</fields><readCond>" + LIST("readCond") + "</readCond>"), [](P& p) { return (int)msg(p).parseReadCond().parseValid(); }, 1, 0},
        {"valid-cond-list", 6, INTF + m("<fields>" + INT + "</fields><validCond>" + LIST("validCond") + "</validCond>"), [](P& p) { return (int)msg(p).parseValidCond().parseValid(); }, 1, 0},
        {"field-valid-cond-list", 7, m("<bundle name=\"d\"><members>" + FLAGS + "</members><validCond><and><validCond value=\"$fl.b0\"/><validCond value=\"!$fl.b0\"/></and></validCond></bundle>"), [](P& p) { return (int)ParseBundleField(fld(p)).parseValidCond().parseValid(); }, 1, 0},
        {"bitfield-valid-cond", 7, m("<bitfield name=\"d\" validCond=\"$p = 3\"><int name=\"p\" type=\"uint8\" bitLength=\"8\"/></bitfield>"), [](P& p) { return (int)ParseBitfieldField(fld(p)).parseValidCond().parseValid(); }, 1, 0},
        {"read-as-valid", 7, f("<bundle name=\"B\"><int name=\"p\" type=\"uint8\"/></bundle>") + m("<bundle name=\"d\" copyValidCondFrom=\"C\"><int name=\"p\" type=\"uint8\"/></bundle>").insert(0, f("<bundle name=\"C\" validCond=\"$p = 1\"><int name=\"p\" type=\"uint8\"/></bundle>")), [](P& p) { return (int)ParseBundleField(fld(p)).parseValidCond().parseValid(); }, 1, 0},
        {"interface-cond", 6, INTF + m(cond + "%fl.b0" + op), [](P& p) { return (int)ParseOptionalField(fld(p)).parseCond().parseValid(); }, 1, Refused},
        {"size-cond", 6, m("<string name=\"s\"><lengthPrefix>" + INT + "</lengthPrefix></string>" + cond + "$#s = 3" + op), [](P& p) { return (int)ParseOptionalField(fld(p, 1)).parseCond().parseValid(); }, 1, Refused},
        {"exists-cond", 6, m("<optional name=\"s\">" + INT + "</optional>" + cond + "$?s" + op), [](P& p) { return (int)ParseOptionalField(fld(p, 1)).parseCond().parseValid(); }, 1, Refused},
        {"message-fails", 6, m(INT, attr("failOnInvalid", "true")), [](P& p) { return (int)msg(p).parseIsFailOnInvalid(); }, 1, 0},
        // ---- more properties
        {"fixed-value", 7, m("<int name=\"d\" type=\"uint8\" fixedValue=\"true\"/>"), [](P& p) { return (int)fld(p).parseIsFixedValue(); }, 1, 0},
        {"string-valid-value", 7, m("<string name=\"d\" defaultValue=\"abc\"><validValue value=\"abc\"/></string>"), [](P& p) { return (int)ParseStringField(fld(p)).parseValidValues().size(); }, 1, 0},
        {"data-valid-value", 7, m("<data name=\"d\" defaultValue=\"0102\"><validValue value=\"0102\"/></data>"), [](P& p) { return (int)ParseDataField(fld(p)).parseValidValues().size(); }, 1, 0},
        {"field-min-length", 7, m("<int name=\"d\" type=\"uint8\" validateMinLength=\"2\"/>"), [](P&) { return 0; }, Refused, 0},
        {"message-reuse", 7, "<message name=\"N\" id=\"2\">" + INT + "</message>" + m("", attr("reuse", "N")), [](P& p) { return count(p); }, 1, 0},
        {"interface-reuse", 7, "<interface name=\"IF\">" + INT + "</interface><interface name=\"IG\" reuse=\"IF\"/>", [](P& p) { return (int)intf(p, "IG").parseFields().size(); }, 1, 0},
        {"copy-construct", 7, INTF + "<message name=\"N\" id=\"2\" construct=\"%fl.b0\"/>" + m(INT, attr("copyConstructFrom", "N")), [](P& p) { return (int)msg(p).parseConstruct().parseValid(); }, 1, 0},
        {"copy-read-cond", 7, INTF + "<message name=\"N\" id=\"2\" readCond=\"%fl.b0\"/>" + m(INT, attr("copyReadCondFrom", "N")), [](P& p) { return (int)msg(p).parseReadCond().parseValid(); }, 1, 0},
        {"copy-valid-cond", 7, INTF + "<message name=\"N\" id=\"2\" validCond=\"%fl.b0\"/>" + m(INT, attr("copyValidCondFrom", "N")), [](P& p) { return (int)msg(p).parseValidCond().parseValid(); }, 1, 0},
        {"field-valid-cond", 7, m("<bundle name=\"d\" validCond=\"$fl.b0\">" + FLAGS + "</bundle>"), [](P& p) { return (int)ParseBundleField(fld(p)).parseValidCond().parseValid(); }, 1, 0},
        {"schema-title", 7, m(INT), [](P& p) { return code(p.p.parseSchemas().back().parseDisplayName()); }, 3, 0, attr("displayName", "xyz")},
        {"namespace-title", 7, "<ns name=\"n\" displayName=\"xyz\">" + m(INT) + "</ns>", [](P& p) { return code(ns0(p).parseDisplayName()); }, 3, 0},
        {"frame-title", 7, "<frame name=\"F\" displayName=\"xyz\">" + PL + "</frame>", [](P& p) { return code(ns0(p).parseFrames().at(0).parseDisplayName()); }, 3, 0},
        {"layer-title", 7, frame("<payload name=\"P\" displayName=\"xyz\"/>"), [](P& p) { return code(layer(p, 0).parseDisplayName()); }, 3, 0},
        // ---- synchronisation
        {"seek", 8, frame("<sync name=\"Y\" seekField=\"true\"><int name=\"a\" type=\"uint8\" defaultValue=\"1\"/></sync>" + PL), [](P& p) { return (int)ParseSyncLayer(layer(p, 0)).parseSeekField(); }, 1, 0},
        {"escape", 8, f("<int name=\"E\" type=\"uint8\"/>") + frame("<sync name=\"Y\" seekField=\"true\" escField=\"E\"><int name=\"a\" type=\"uint8\" defaultValue=\"1\"/></sync>" + PL), [](P& p) { return (int)ParseSyncLayer(layer(p, 0)).parseHasEscField(); }, 1, Refused},
        {"sync-verify", 8, frame(PL + "<sync name=\"Y\" verifyBeforeRead=\"true\" from=\"P\"><int name=\"a\" type=\"uint8\" defaultValue=\"1\"/></sync>"), [](P& p) { return (int)ParseSyncLayer(layer(p, 1)).parseVerifyBeforeRead(); }, 1, 0},
    };
}
// things of the first version: accepted alike whatever is declared
static const std::string Base = f("<int name=\"A\" type=\"uint8\" defaultValue=\"3\" validRange=\"[1, 5]\"><special name=\"x\" val=\"1\"/></int><enum name=\"E\" type=\"uint8\"><validValue name=\"v\" val=\"1\"/></enum>" + FLAGS +
    "<bitfield name=\"BF\"><int name=\"p\" type=\"uint8\" bitLength=\"3\"/><int name=\"q\" type=\"uint8\" bitLength=\"5\"/></bitfield><string name=\"S\"><lengthPrefix>" + INT + "</lengthPrefix></string><data name=\"D\" length=\"3\"/>"
    "<list name=\"L\" element=\"A\" count=\"2\"/><variant name=\"V\">" + INT + "</variant><float name=\"FL\" type=\"double\"/>") + INTF +
    m("<ref name=\"r\" field=\"L\"/><int name=\"k\" reuse=\"A\"/><optional name=\"o\" cond=\"$k = 3\">" + INT + "</optional>") + frame(SZ + ID + PL + "<checksum name=\"C\" alg=\"crc-ccitt\" from=\"S\"><int name=\"a\" type=\"uint16\"/></checksum>");

void sx_prepare() { P p; p.run(schema(Base, attr("dslVersion", "3"))); }
void sx_harness()
{
    // made afresh on every path: the texts are concrete
    auto all = features();
    unsigned i = sx::choice("feature", (unsigned)all.size() + 2);
    uint64_t d = sx::range("dslVersion", 0, 0x1ffffffff);
    auto at = attr("dslVersion", sx::hex(d));
    unsigned fits = (unsigned)(d <= 0xffffffff);
    if (i >= all.size()) {
        P p;
        if (i > all.size()) p.p.parseAddExpectedExtraPrefix("x-");
        bool ok = p.run(schema(Base, at));
        sxn_assert((unsigned)ok == fits, "old-schemas-accepted-under-every-version");
        if (!ok) { sxn_assert(p.errors > 0, "rejection-reported"); return; }
        sxn_assert(p.warnings == 0, "no-warnings-for-old-schemas");
        sxn_assert(p.p.parseSchemas().back().parseDslVersion() == d, "declared-version-told");
        auto x = fld(p, 0);
        sxn_assert(count(p) == 3 && x.parseMinLength() == 2 && ParseIntField(fld(p, 1)).parseDefaultValue() == 3, "same-meaning-under-every-version");
        sxn_reach("base");
        return;
    }
    Feature& t = all[i];
    P p;
    bool two = !t.second.empty();
    if (two) p.p.parseSetMultipleSchemasEnabled(true);
    p.add("a.xml", schema(t.text, at + t.attrs));
    if (two) p.add("b.xml", "<schema name=\"" + t.second + "\" endian=\"big\"" + at + "/>");
    bool ok = p.validate();
    int e = ok ? t.get(p) : Refused;
    unsigned has = (unsigned)(d == 0) | (unsigned)(d >= t.min);
    if (sxn_replaying()) std::printf("  feature %s (since %u), declared %llu: effect %d\n", t.name, t.min, (unsigned long long)d, e);
    sxn_assert(fits | (unsigned)(e == Refused), "refused-out-of-range");
    sxn_assert((1 ^ fits) | (1 ^ has) | (unsigned)(e == t.on), "works-from-its-version-on");
    sxn_assert((1 ^ fits) | has | (unsigned)(e == t.off), "not-before-its-version");
    if (!ok) sxn_assert(p.errors > 0, "rejection-reported");
    // what is dropped is said
    if (ok && e == t.off && t.off != t.on && t.off != 2 && t.min > 2) sxn_assert(p.warnings > 0, "dropped-silently");
    sxn_reach(e == t.on ? "with" : "without");
}
