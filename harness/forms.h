// Fields of every form ('@' is a number), and the places they may be used in.
#pragma once
#include "h.h"
struct Form { const char* kind; const char* attrs; const char* kids; };
#define MEM "<int name=\"m1\" type=\"uint8\"/>"
static const Form Forms[] = {
    {"int", "type=\"uint8\" defaultValue=\"@\"", ""},
    {"int", "type=\"int64\" length=\"@\" serOffset=\"1\"", ""},
    {"int", "type=\"uint16\" displaySpecials=\"true\" nonUniqueSpecialsAllowed=\"true\"", "<special name=\"S1\" val=\"@\"/><special name=\"S2\" val=\"7\"/><validRange value=\"[0, @]\"/>"},
    {"int", "type=\"uint32\" scaling=\"1/10\" units=\"cm\" displayDecimals=\"@\"", ""},
    {"int", "type=\"uintvar\" length=\"@\"", ""},
    {"float", "type=\"float\" defaultValue=\"@\"", "<special name=\"S1\" val=\"nan\"/><special name=\"S2\" val=\"@\"/>"},
    {"enum", "type=\"uint16\" defaultValue=\"V1\"", "<validValue name=\"V1\" val=\"@\"/><validValue name=\"V2\" val=\"100\"/>"},
    {"enum", "type=\"int8\" hexAssign=\"true\" nonUniqueAllowed=\"true\"", "<validValue name=\"V1\" val=\"-@\"/><validValue name=\"V2\" val=\"-@\"/>"},
    {"set", "length=\"2\"", "<bit name=\"b1\" idx=\"@\"/><bit name=\"b2\" idx=\"15\"/>"},
    {"set", "length=\"1\" nonUniqueAllowed=\"true\"", "<bit name=\"b1\" idx=\"1\"/><bit name=\"b2\" idx=\"1\"/>"},
    {"bitfield", "", "<members><int name=\"m1\" type=\"uint8\" bitLength=\"4\" defaultValue=\"@\"/><set name=\"m2\" bitLength=\"3\"><bit name=\"b1\" idx=\"1\"/></set><enum name=\"m3\" type=\"uint8\" bitLength=\"1\"><validValue name=\"V\" val=\"0\"/></enum></members>"},
    {"bundle", "", "<members>" MEM "<string name=\"m2\" length=\"@\"/></members>"},
    {"string", "", ""},
    {"string", "length=\"@\" defaultValue=\"x\"", ""},
    {"string", "zeroTermSuffix=\"true\"", ""},
    {"string", "", "<lengthPrefix><int name=\"p\" type=\"uint8\" defaultValue=\"@\"/></lengthPrefix>"},
    {"data", "defaultValue=\"0@\"", ""},
    {"data", "length=\"@\"", ""},
    {"data", "", "<lengthPrefix><int name=\"p\" type=\"uint16\" length=\"2\" serOffset=\"@\"/></lengthPrefix>"},
    {"list", "count=\"@\"", "<element><int name=\"e\" type=\"uint16\"/></element>"},
    {"list", "", "<element><bundle name=\"e\">" MEM "<list name=\"in\"><element><set name=\"s\" length=\"1\"><bit name=\"b\" idx=\"@\"/></set></element></list></bundle></element>"},
    {"list", "", "<element><int name=\"e\" type=\"uint16\"/></element><countPrefix><int name=\"p\" type=\"uint8\" defaultValue=\"@\"/></countPrefix>"},
    {"list", "", "<element><enum name=\"e\" type=\"uint8\"><validValue name=\"V\" val=\"@\"/></enum></element><lengthPrefix><int name=\"p\" type=\"uint8\"/></lengthPrefix>"},
    {"list", "elemFixedLength=\"true\"", "<element><int name=\"e\" type=\"uint32\" length=\"4\"/></element><countPrefix><int name=\"p\" type=\"uint8\"/></countPrefix><elemLengthPrefix><int name=\"q\" type=\"uint8\" defaultValue=\"@\"/></elemLengthPrefix>"},
    {"list", "", "<element><int name=\"e\" type=\"uint8\"/></element><termSuffix><int name=\"t\" type=\"uint8\" defaultValue=\"@\" validValue=\"@\"/></termSuffix>"},
    {"variant", "defaultMember=\"m1\"", "<members>" MEM "<string name=\"m2\" length=\"@\"/></members>"},
    {"variant", "", "<members><bundle name=\"m1\"><members><int name=\"k\" type=\"uint8\" validValue=\"@\" defaultValue=\"@\" failOnInvalid=\"true\"/></members></bundle><bundle name=\"m2\"><members><int name=\"k\" type=\"uint8\" validValue=\"20\" defaultValue=\"20\" failOnInvalid=\"true\"/><int name=\"v\" type=\"uint8\"/></members></bundle></members>"},
    {"optional", "", "<field><int name=\"in\" type=\"uint8\" defaultValue=\"@\"/></field>"},
    {"optional", "defaultMode=\"missing\" missingOnReadFail=\"true\" externalModeCtrl=\"true\"", "<field><string name=\"in\" length=\"@\"/></field>"},
    {"ref", "field=\"G\"", ""},
    {"ref", "field=\"n.H\"", ""},
    {"ref", "field=\"U\"", ""},
};
static const char* const Wheres[] = {"message", "global", "ref", "bundle", "element", "optional", "variant", "interface", "layer", "nested"};
static std::string at(const char* t, const std::string& n) { std::string r; for (; *t; ++t) if (*t == '@') r += n; else r += *t; return r; }
static std::string form(unsigned f, const std::string& name, const std::string& n) { return "<" + std::string(Forms[f].kind) + " name=\"" + name + "\" " + at(Forms[f].attrs, n) + ">" + at(Forms[f].kids, n) + "</" + Forms[f].kind + ">"; }
