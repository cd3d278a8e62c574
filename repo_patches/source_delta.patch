From 5f7e0a8432e1341b043918853dc672316225ba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 01/82] fix: Keep all the declared valid ranges of 64 bit
 integers when merging them

---
 lib/src/parse/ParseIntFieldImpl.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index e73bad8..a67eda2 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -932,6 +932,23 @@ bool ParseIntFieldImpl::parseUpdateValidRanges()
             return elem1.m_max < elem2.m_max;
         });
 
+    auto lessFunc =
+        [bigUnsigned](std::intmax_t val1, std::intmax_t val2)
+        {
+            if (bigUnsigned) {
+                return static_cast<std::uintmax_t>(val1) < static_cast<std::uintmax_t>(val2);
+            }
+
+            return val1 < val2;
+        };
+
+    auto hasGapFunc =
+        [&lessFunc](std::intmax_t max, std::intmax_t nextMin)
+        {
+            return lessFunc(max, nextMin) &&
+                (1U < (static_cast<std::uintmax_t>(nextMin) - static_cast<std::uintmax_t>(max)));
+        };
+
     // Merge
     for (auto iter = m_state.m_validRanges.begin(); iter != m_state.m_validRanges.end(); ++iter) {
         if (iter->m_deprecatedSince == 0U) {
@@ -945,13 +962,15 @@ bool ParseIntFieldImpl::parseUpdateValidRanges()
 
             if ((iter->m_sinceVersion != nextIter->m_sinceVersion) ||
                 (iter->m_deprecatedSince != nextIter->m_deprecatedSince) ||
-                ((iter->m_max + 1) < nextIter->m_min)) {
+                hasGapFunc(iter->m_max, nextIter->m_min)) {
                 break;
             }
 
-            assert(iter->m_min <= nextIter->m_min);
+            assert(!lessFunc(nextIter->m_min, iter->m_min));
             nextIter->m_deprecatedSince = 0U; // invalidate next range
-            iter->m_max = std::max(iter->m_max, nextIter->m_max);
+            if (lessFunc(iter->m_max, nextIter->m_max)) {
+                iter->m_max = nextIter->m_max;
+            }
         }
     }
 
-- 
2.43.0


From ffb343031cd609f54e78eea5111e4f7210cf041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 02/82] fix: Reject serialisation offset of which absolute
 value cannot be represented

---
 lib/src/parse/ParseIntFieldImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index a67eda2..886abf7 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -696,7 +696,7 @@ bool ParseIntFieldImpl::parseUpdateMinMaxValues()
 
         auto diff = (m_state.m_typeAllowedMaxValue - m_state.m_typeAllowedMinValue);
         assert(diff <= static_cast<decltype(diff)>(std::numeric_limits<std::uint32_t>::max()));
-        if (std::abs(m_state.m_serOffset) < diff) {
+        if ((-diff < m_state.m_serOffset) && (m_state.m_serOffset < diff)) {
             break;
         }
 
-- 
2.43.0


From a01e8b3a304945ec0fbc32465a93eeb44d4a9dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 03/82] fix: Don't assert on repeated validMin/validMax being
 outside of the type's range

---
 lib/src/parse/ParseIntFieldImpl.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index 886abf7..df2de89 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -1012,7 +1012,6 @@ bool ParseIntFieldImpl::parseUpdateValidRanges()
                 return elem1.m_sinceVersion < elem2.m_sinceVersion;
             }
 
-            assert(elem1.m_deprecatedSince != elem2.m_deprecatedSince);
             return elem1.m_deprecatedSince < elem2.m_deprecatedSince;
         });
 
-- 
2.43.0


From 337d3051090982d6385136d9ced5958d063bb226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 04/82] fix: Reject numeric properties with negative, truncated
 or partially parsed values instead of wrapping them

---
 lib/src/parse/parse_common.cpp | 55 +++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/lib/src/parse/parse_common.cpp b/lib/src/parse/parse_common.cpp
index f473aba..d41f86e 100644
--- a/lib/src/parse/parse_common.cpp
+++ b/lib/src/parse/parse_common.cpp
@@ -37,8 +37,21 @@ namespace
 
 const std::size_t MaxPossibleLength = std::numeric_limits<std::size_t>::max();
 
+// Checks there is nothing but white spaces after the parsed number
+bool parseIsNumberEnd(const std::string& str, std::size_t pos)
+{
+    return str.find_first_not_of(" \t\r\n", pos) == std::string::npos;
+}
+
+// The std::stoul() and std::stoull() wrap the negative numbers
+bool parseIsNegativeNumber(const std::string& str)
+{
+    auto pos = str.find_first_not_of(" \t\r\n");
+    return (pos != std::string::npos) && (str[pos] == '-');
 }
 
+} // namespace
+
 const std::string& parseEmptyString()
 {
     static const std::string Str;
@@ -939,9 +952,18 @@ unsigned parseStrToUnsigned(const std::string& str, bool* ok, int base)
 {
     unsigned result = 0U;
     try {
-        result = static_cast<decltype(result)>(std::stoul(str, 0, base));
+        std::size_t pos = 0U;
+        auto value = std::stoul(str, &pos, base);
+        bool valid =
+            parseIsNumberEnd(str, pos) &&
+            (!parseIsNegativeNumber(str)) &&
+            (value <= std::numeric_limits<decltype(result)>::max());
+        if (valid) {
+            result = static_cast<decltype(result)>(value);
+        }
+
         if (ok != nullptr) {
-            *ok = true;
+            *ok = valid;
         }
 
     } catch (...) {
@@ -956,9 +978,15 @@ std::intmax_t parseStrToIntMax(const std::string& str, bool* ok, int base)
 {
     std::intmax_t result = 0;
     try {
-        result = std::stoll(str, 0, base);
+        std::size_t pos = 0U;
+        auto value = std::stoll(str, &pos, base);
+        bool valid = parseIsNumberEnd(str, pos);
+        if (valid) {
+            result = value;
+        }
+
         if (ok != nullptr) {
-            *ok = true;
+            *ok = valid;
         }
 
     } catch (...) {
@@ -973,9 +1001,15 @@ std::uintmax_t parseStrToUintMax(const std::string& str, bool* ok, int base)
 {
     std::uintmax_t result = 0U;
     try {
-        result = std::stoull(str, 0, base);
+        std::size_t pos = 0U;
+        auto value = std::stoull(str, &pos, base);
+        bool valid = parseIsNumberEnd(str, pos) && (!parseIsNegativeNumber(str));
+        if (valid) {
+            result = value;
+        }
+
         if (ok != nullptr) {
-            *ok = true;
+            *ok = valid;
         }
 
     } catch (...) {
@@ -1012,8 +1046,13 @@ double parseStrToDouble(const std::string& str, bool* ok, bool allowSpecials)
 
     double result = 0.0;
     try {
-        result = std::stod(str, 0);
-        updateOk(true);
+        std::size_t pos = 0U;
+        auto value = std::stod(str, &pos);
+        bool valid = parseIsNumberEnd(str, pos);
+        if (valid) {
+            result = value;
+        }
+        updateOk(valid);
 
     } catch (...) {
         updateOk(false);
-- 
2.43.0


From af1bfdffc08c682e396a141ad29e74a2f708bddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 05/82] fix: Don't assert on repeated special values among the
 valid values of the float field

---
 lib/src/parse/ParseFloatFieldImpl.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseFloatFieldImpl.cpp b/lib/src/parse/ParseFloatFieldImpl.cpp
index 539e57a..e31d78b 100644
--- a/lib/src/parse/ParseFloatFieldImpl.cpp
+++ b/lib/src/parse/ParseFloatFieldImpl.cpp
@@ -460,11 +460,11 @@ bool ParseFloatFieldImpl::parseUpdateValidRanges()
                 (iter->m_deprecatedSince != nextIter->m_deprecatedSince) ||
                 (isSpecial(iter->m_max)) ||
                 (isSpecial(nextIter->m_min)) ||
+                (isSpecial(nextIter->m_max)) ||
                 (parseCompareLess(iter->m_max, nextIter->m_min))) {
                 break;
             }
 
-            assert(!isSpecial(nextIter->m_max));
             nextIter->m_deprecatedSince = 0U; // invalidate next range
             iter->m_max = std::max(iter->m_max, nextIter->m_max);
         }
@@ -506,7 +506,6 @@ bool ParseFloatFieldImpl::parseUpdateValidRanges()
                 return elem1.m_sinceVersion < elem2.m_sinceVersion;
             }
 
-            assert(elem1.m_deprecatedSince != elem2.m_deprecatedSince);
             return elem1.m_deprecatedSince < elem2.m_deprecatedSince;
         });
 
-- 
2.43.0


From 6c629646dac843c94344d5a8539ae9269a1c528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 06/82] fix: Validate lengths of all the bitfield members,
 including defaulted, zero, replaced and referenced ones

---
 lib/src/parse/ParseBitfieldFieldImpl.cpp | 53 +++++++++++++++---------
 lib/src/parse/ParseBitfieldFieldImpl.h   |  1 +
 lib/src/parse/ParseEnumFieldImpl.cpp     |  7 +++-
 lib/src/parse/ParseIntFieldImpl.cpp      |  7 +++-
 lib/src/parse/ParseSetFieldImpl.cpp      | 10 +++++
 5 files changed, 57 insertions(+), 21 deletions(-)

diff --git a/lib/src/parse/ParseBitfieldFieldImpl.cpp b/lib/src/parse/ParseBitfieldFieldImpl.cpp
index c1c9750..a082acc 100644
--- a/lib/src/parse/ParseBitfieldFieldImpl.cpp
+++ b/lib/src/parse/ParseBitfieldFieldImpl.cpp
@@ -180,7 +180,7 @@ bool ParseBitfieldFieldImpl::parseReplaceMembersImpl(ParseFieldsList& members)
         (*iter) = std::move(mem);
     }
 
-    return true;
+    return parseValidateMembersLength();
 }
 
 std::size_t ParseBitfieldFieldImpl::parseMinLengthImpl() const
@@ -375,29 +375,44 @@ bool ParseBitfieldFieldImpl::parseUpdateMembers()
             return false;
         }
 
-        auto totalBitLength =
-            std::accumulate(
-                m_members.begin(), m_members.end(), static_cast<std::size_t>(0U),
-                [](std::size_t soFar, auto& elem) -> std::size_t
-                {
-                    return soFar + elem->parseBitLength();
-                });
-
-        if ((totalBitLength % 8U) != 0) {
-            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
-                          "The summary of member's bit lengths (" << totalBitLength <<
-                          ") is expected to be devisable by 8.";
+        if (!parseValidateMembersLength()) {
             return false;
         }
+    } while (false);
 
-        static const std::size_t MaxBits = std::numeric_limits<std::uint64_t>::digits;
-        if (MaxBits < totalBitLength) {
-            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
-                          "The summary of member's bit lengths (" << totalBitLength <<
-                          ") cannot be greater than " << MaxBits << '.';
+    return true;
+}
+
+bool ParseBitfieldFieldImpl::parseValidateMembersLength()
+{
+    for (auto& m : m_members) {
+        if (!m->parseValidateBitLengthValue(m->parseGetNode(), m->parseBitLength())) {
             return false;
         }
-    } while (false);
+    }
+
+    auto totalBitLength =
+        std::accumulate(
+            m_members.begin(), m_members.end(), static_cast<std::size_t>(0U),
+            [](std::size_t soFar, auto& elem) -> std::size_t
+            {
+                return soFar + elem->parseBitLength();
+            });
+
+    if ((totalBitLength % 8U) != 0) {
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+                      "The summary of member's bit lengths (" << totalBitLength <<
+                      ") is expected to be devisable by 8.";
+        return false;
+    }
+
+    static const std::size_t MaxBits = std::numeric_limits<std::uint64_t>::digits;
+    if (MaxBits < totalBitLength) {
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+                      "The summary of member's bit lengths (" << totalBitLength <<
+                      ") cannot be greater than " << MaxBits << '.';
+        return false;
+    }
 
     return true;
 }
diff --git a/lib/src/parse/ParseBitfieldFieldImpl.h b/lib/src/parse/ParseBitfieldFieldImpl.h
index 0323087..ce81c4b 100644
--- a/lib/src/parse/ParseBitfieldFieldImpl.h
+++ b/lib/src/parse/ParseBitfieldFieldImpl.h
@@ -72,6 +72,7 @@ protected:
 private:
     bool parseUpdateEndian();
     bool parseUpdateMembers();
+    bool parseValidateMembersLength();
     bool parseUpdateSingleValidCond();
     bool parseUpdateMultiValidCond();
     bool parseCopyValidCond();
diff --git a/lib/src/parse/ParseEnumFieldImpl.cpp b/lib/src/parse/ParseEnumFieldImpl.cpp
index e708ca5..14b3103 100644
--- a/lib/src/parse/ParseEnumFieldImpl.cpp
+++ b/lib/src/parse/ParseEnumFieldImpl.cpp
@@ -208,6 +208,12 @@ bool ParseEnumFieldImpl::parseValidateBitLengthValueImpl(::xmlNodePtr node, std:
 
     assert(0U < m_state.m_length);
     auto maxBitLength = m_state.m_length * ParseBitsInByte;
+    if (bitLength == 0U) {
+        parseLogError() << ParseXmlWrap::parseLogPrefix(node) <<
+                      "Value of property \"" << common::parseBitLengthStr() << "\" cannot be 0.";
+        return false;
+    }
+
     if (maxBitLength < bitLength) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(node) <<
                       "Value of property \"" << common::parseBitLengthStr() << "\" exceeds "
@@ -351,7 +357,6 @@ bool ParseEnumFieldImpl::parseUpdateBitLength()
     }
 
     auto maxBitLength = m_state.m_length * ParseBitsInByte;
-    assert((m_state.m_bitLength == 0) || (m_state.m_bitLength == maxBitLength));
     auto& valStr = common::parseGetStringProp(parseProps(), common::parseBitLengthStr());
     if (valStr.empty()) {
         assert(0 < m_state.m_length);
diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index df2de89..fb082e7 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -466,6 +466,12 @@ bool ParseIntFieldImpl::parseValidateBitLengthValueImpl(::xmlNodePtr node, std::
 
     assert(0U < m_state.m_length);
     auto maxBitLength = m_state.m_length * BitsInByte;
+    if (bitLength == 0U) {
+        parseLogError() << ParseXmlWrap::parseLogPrefix(node) <<
+                      "Value of property \"" << common::parseBitLengthStr() << "\" cannot be 0.";
+        return false;
+    }
+
     if (maxBitLength < bitLength) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(node) <<
                       "Value of property \"" << common::parseBitLengthStr() << "\" exceeds "
@@ -618,7 +624,6 @@ bool ParseIntFieldImpl::parseUpdateBitLength()
     }
 
     auto maxBitLength = m_state.m_length * BitsInByte;
-    assert((m_state.m_bitLength == 0) || (m_state.m_bitLength == maxBitLength));
     auto& valStr = common::parseGetStringProp(parseProps(), common::parseBitLengthStr());
     if (valStr.empty()) {
         assert(0 < m_state.m_length);
diff --git a/lib/src/parse/ParseSetFieldImpl.cpp b/lib/src/parse/ParseSetFieldImpl.cpp
index e9a4515..9184241 100644
--- a/lib/src/parse/ParseSetFieldImpl.cpp
+++ b/lib/src/parse/ParseSetFieldImpl.cpp
@@ -223,6 +223,12 @@ bool ParseSetFieldImpl::parseValidateBitLengthValueImpl(::xmlNodePtr node, std::
 {
     assert(0U < m_state.m_length);
     auto maxBitLength = m_state.m_length * BitsInByte;
+    if (bitLength == 0U) {
+        parseLogError() << ParseXmlWrap::parseLogPrefix(node) <<
+                      "Value of property \"" << common::parseBitLengthStr() << "\" cannot be 0.";
+        return false;
+    }
+
     if (maxBitLength < bitLength) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(node) <<
                       "Value of property \"" << common::parseBitLengthStr() << "\" exceeds "
@@ -389,6 +395,10 @@ bool ParseSetFieldImpl::parseUpdateLength()
 
     if ((m_state.m_length == 0U) && (m_state.m_bitLength != 0U)) {
         m_state.m_length = ((m_state.m_bitLength - 1U) / 8U) + 1U;
+        if (sizeof(std::uint64_t) < m_state.m_length) {
+            parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), bitLengthStr);
+            return false;
+        }
     }
 
     if (m_state.m_type == ParseType::NumOfValues) {
-- 
2.43.0


From a60b4b97df11d26834e41c7a1697790214afc4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 07/82] fix: Keep aliases and validity conditions when cloning
 bundles and bitfields

---
 lib/src/parse/ParseBitfieldFieldImpl.cpp | 4 ++++
 lib/src/parse/ParseBundleFieldImpl.cpp   | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/lib/src/parse/ParseBitfieldFieldImpl.cpp b/lib/src/parse/ParseBitfieldFieldImpl.cpp
index a082acc..aaa638f 100644
--- a/lib/src/parse/ParseBitfieldFieldImpl.cpp
+++ b/lib/src/parse/ParseBitfieldFieldImpl.cpp
@@ -57,6 +57,10 @@ ParseBitfieldFieldImpl::ParseBitfieldFieldImpl(const ParseBitfieldFieldImpl& oth
     for (auto& m : other.m_members) {
         m_members.push_back(m->parseClone());
     }
+
+    if (other.m_validCond) {
+        m_validCond = other.m_validCond->parseClone();
+    }
 }
 
 ParseBitfieldFieldImpl::ParseMembers ParseBitfieldFieldImpl::parseMembersList() const
diff --git a/lib/src/parse/ParseBundleFieldImpl.cpp b/lib/src/parse/ParseBundleFieldImpl.cpp
index 43898b3..e5dfc6c 100644
--- a/lib/src/parse/ParseBundleFieldImpl.cpp
+++ b/lib/src/parse/ParseBundleFieldImpl.cpp
@@ -64,6 +64,15 @@ ParseBundleFieldImpl::ParseBundleFieldImpl(const ParseBundleFieldImpl& other)
     for (auto& m : other.m_members) {
         m_members.push_back(m->parseClone());
     }
+
+    m_aliases.reserve(other.m_aliases.size());
+    for (auto& a : other.m_aliases) {
+        m_aliases.push_back(a->parseClone());
+    }
+
+    if (other.m_validCond) {
+        m_validCond = other.m_validCond->parseClone();
+    }
 }
 
 ParseBundleFieldImpl::ParseMembers ParseBundleFieldImpl::parseMembersList() const
-- 
2.43.0


From 7edff646dac9ea9fc4f13bdec31513bc1976d4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:30 +0000
Subject: [PATCH 08/82] fix: Saturate the minimal lengths and support zero or
 non-integral list count prefixes when calculating lengths

---
 lib/src/parse/ParseBundleFieldImpl.cpp |  3 ++-
 lib/src/parse/ParseListFieldImpl.cpp   | 18 +++++++++++++-----
 lib/src/parse/ParseMessageImpl.cpp     |  3 ++-
 lib/src/parse/parse_common.cpp         |  4 ++++
 4 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/lib/src/parse/ParseBundleFieldImpl.cpp b/lib/src/parse/ParseBundleFieldImpl.cpp
index e5dfc6c..24f666b 100644
--- a/lib/src/parse/ParseBundleFieldImpl.cpp
+++ b/lib/src/parse/ParseBundleFieldImpl.cpp
@@ -223,7 +223,8 @@ std::size_t ParseBundleFieldImpl::parseMinLengthImpl() const
             m_members.begin(), m_members.end(), static_cast<std::size_t>(0U),
             [](std::size_t soFar, auto& m) -> std::size_t
             {
-                return soFar + m->parseMinLength();
+                common::parseAddToLength(m->parseMinLength(), soFar);
+                return soFar;
             });
 }
 
diff --git a/lib/src/parse/ParseListFieldImpl.cpp b/lib/src/parse/ParseListFieldImpl.cpp
index 66e1e0c..34c84d3 100644
--- a/lib/src/parse/ParseListFieldImpl.cpp
+++ b/lib/src/parse/ParseListFieldImpl.cpp
@@ -146,10 +146,11 @@ std::size_t ParseListFieldImpl::parseMinLengthImpl() const
         auto elemMinLength = parseElementField().parseMinLength();
 
         if (!m_state.m_elemFixedLength) {
-            extraLen *= m_state.m_count;
+            extraLen = common::parseMulLength(extraLen, m_state.m_count);
         }
 
-        return (m_state.m_count * elemMinLength) + extraLen;
+        common::parseAddToLength(common::parseMulLength(elemMinLength, m_state.m_count), extraLen);
+        return extraLen;
     }
 
     if (parseHasCountPrefixField()) {
@@ -186,9 +187,16 @@ std::size_t ParseListFieldImpl::parseMaxLengthImpl() const
         return extraLen;
     }
 
-    if (parseHasCountPrefixField()) {
+    do {
+        if (!parseHasCountPrefixField()) {
+            break;
+        }
+
         auto* prefixField = parseGetCountPrefixField();
-        assert(prefixField->parseKind() == ParseField::ParseKind::Int);
+        if (prefixField->parseKind() != ParseField::ParseKind::Int) {
+            break;
+        }
+
         auto& castedPrefix = static_cast<const ParseIntFieldImpl&>(*prefixField);
         std::size_t count = static_cast<std::size_t>(castedPrefix.parseMaxValue());
         auto result = common::parseMulLength(elemMaxLength, count);
@@ -201,7 +209,7 @@ std::size_t ParseListFieldImpl::parseMaxLengthImpl() const
 
         common::parseAddToLength(extraLen, result);
         return result;
-    }
+    } while (false);
 
     do {
         if (!parseHasLengthPrefixField()) {
diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index cf7cf0f..3128346 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -163,7 +163,8 @@ std::size_t ParseMessageImpl::parseMinLength() const
                         return soFar;
                     }
 
-                    return soFar + elem->parseMinLength();
+                    common::parseAddToLength(elem->parseMinLength(), soFar);
+                    return soFar;
                 });
 }
 
diff --git a/lib/src/parse/parse_common.cpp b/lib/src/parse/parse_common.cpp
index d41f86e..03c0b4d 100644
--- a/lib/src/parse/parse_common.cpp
+++ b/lib/src/parse/parse_common.cpp
@@ -1583,6 +1583,10 @@ void parseAddToLength(std::size_t newLen, std::size_t& accLen)
 
 std::size_t parseMulLength(std::size_t len, std::size_t factor)
 {
+    if (factor == 0U) {
+        return 0U;
+    }
+
     if ((((MaxPossibleLength - 1) / factor) + 1) <= len) {
         return MaxPossibleLength;
     }
-- 
2.43.0


From 4d5e3b226278a0dc86f178c6fe290371143ed758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:30 +0000
Subject: [PATCH 09/82] fix: Validate the expected minimal length of messages
 without own fields and of any value

---
 lib/src/parse/ParseFieldImpl.cpp   |  2 +-
 lib/src/parse/ParseFieldImpl.h     |  2 +-
 lib/src/parse/ParseMessageImpl.cpp | 20 ++++++++++----------
 lib/src/parse/ParseMessageImpl.h   |  2 +-
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/lib/src/parse/ParseFieldImpl.cpp b/lib/src/parse/ParseFieldImpl.cpp
index f9e36ad..9376ef5 100644
--- a/lib/src/parse/ParseFieldImpl.cpp
+++ b/lib/src/parse/ParseFieldImpl.cpp
@@ -370,7 +370,7 @@ bool ParseFieldImpl::parseVerifyMinLength() const
     }
 
     auto len = parseMinLength();
-    if (static_cast<unsigned>(m_state.m_validateMinLength) != len) {
+    if (static_cast<std::size_t>(m_state.m_validateMinLength) != len) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "The calculated minimal length of the field is " << len <<
             " while expected is " << m_state.m_validateMinLength << " (specified with \"" << common::parseValidateMinLengthStr() << "\" property).";
diff --git a/lib/src/parse/ParseFieldImpl.h b/lib/src/parse/ParseFieldImpl.h
index b7d7764..4c58557 100644
--- a/lib/src/parse/ParseFieldImpl.h
+++ b/lib/src/parse/ParseFieldImpl.h
@@ -421,7 +421,7 @@ private:
         ParseOverrideType m_validOverride = ParseOverrideType_Any;
         ParseOverrideType m_nameOverride = ParseOverrideType_Any;
         std::string m_copyCodeFrom;
-        int m_validateMinLength = -1;
+        std::intmax_t m_validateMinLength = -1;
         bool m_pseudo = false;
         bool m_fixedValue = false;
         bool m_customizable = false;
diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index 3128346..1c39fd9 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -1060,18 +1060,18 @@ bool ParseMessageImpl::parseUpdateFields()
             return false;
         }
 
-        if (0 <= m_state.m_validateMinLength) {
-            auto len = parseMinLength();
-            if (static_cast<unsigned>(m_state.m_validateMinLength) != len) {
-                parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
-                    "The calculated minimal length of the message is " << len <<
-                    " while expected is " << m_state.m_validateMinLength << " (specified with \"" << common::parseValidateMinLengthStr() << "\" property).";
-                return false;
-            }
-        }
-
     } while (false);
 
+    if (0 <= m_state.m_validateMinLength) {
+        auto len = parseMinLength();
+        if (static_cast<std::size_t>(m_state.m_validateMinLength) != len) {
+            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+                "The calculated minimal length of the message is " << len <<
+                " while expected is " << m_state.m_validateMinLength << " (specified with \"" << common::parseValidateMinLengthStr() << "\" property).";
+            return false;
+        }
+    }
+
     return true;
 }
 
diff --git a/lib/src/parse/ParseMessageImpl.h b/lib/src/parse/ParseMessageImpl.h
index 502efd4..ad2925a 100644
--- a/lib/src/parse/ParseMessageImpl.h
+++ b/lib/src/parse/ParseMessageImpl.h
@@ -183,7 +183,7 @@ private:
         std::string m_description;
         std::uintmax_t m_id = 0;
         unsigned m_order = 0;
-        int m_validateMinLength = -1;
+        std::intmax_t m_validateMinLength = -1;
         std::vector<ParseFieldImplPtr> m_fields;
         std::vector<ParseAliasImplPtr> m_aliases;
         ParsePlatformsList m_platforms;
-- 
2.43.0


From b039f6c7a0d2549101e06787bf7c9c50cdee9bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:30 +0000
Subject: [PATCH 10/82] fix: Don't assert on reuse of messages with order or
 platforms, and don't mix platforms of both

---
 lib/src/parse/ParseMessageImpl.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index 1c39fd9..4c7bfcc 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -540,8 +540,7 @@ bool ParseMessageImpl::parseUpdateOrder()
 
     auto iter = m_props.find(common::parseOrderStr());
     if (iter == m_props.end()) {
-        assert(m_state.m_order == 0U);
-        return true;
+        return true; // Keeping the order of the reused message if such exists
     }
 
     bool ok = false;
@@ -616,8 +615,7 @@ bool ParseMessageImpl::parseUpdatePlatforms()
 
     auto iter = m_props.find(common::parsePlatformsStr());
     if (iter == m_props.end()) {
-        assert(m_state.m_platforms.empty());
-        return true;
+        return true; // Keeping the platforms of the reused message if such exist
     }
 
     if (iter->second.empty()) {
@@ -682,6 +680,7 @@ bool ParseMessageImpl::parseUpdatePlatforms()
 
     assert(op == Minus);
     assert(platList.size() <= allPlatforms.size());
+    m_state.m_platforms.clear();
     m_state.m_platforms.reserve(allPlatforms.size() - platList.size());
     std::set_difference(
         allPlatforms.begin(), allPlatforms.end(),
-- 
2.43.0


From e89d2f1d80e26809353c409ba08228b8a0a4d1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:30 +0000
Subject: [PATCH 11/82] fix: Allow any number of the replaced fields and
 members

---
 lib/src/parse/ParseFieldImpl.cpp   | 5 ++++-
 lib/src/parse/ParseMessageImpl.cpp | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseFieldImpl.cpp b/lib/src/parse/ParseFieldImpl.cpp
index 9376ef5..cbc6574 100644
--- a/lib/src/parse/ParseFieldImpl.cpp
+++ b/lib/src/parse/ParseFieldImpl.cpp
@@ -1147,7 +1147,10 @@ bool ParseFieldImpl::parseCheckReplace()
         replMembers.push_back(std::move(field));
     }
 
-    assert(!replMembers.empty());
+    if (replMembers.empty()) {
+        return true;
+    }
+
     return parseReplaceMembersImpl(replMembers);
 }
 
diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index 4c7bfcc..6df010d 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -858,7 +858,8 @@ bool ParseMessageImpl::parseReplaceFields()
     }
 
     auto fieldsTypes = ParseXmlWrap::parseGetChildren(replaceNodes.front(), parseMessageSupportedTypes());
-    if (fieldsTypes.size() != replaceNodes.size()) {
+    auto allChildren = ParseXmlWrap::parseGetChildren(replaceNodes.front());
+    if (fieldsTypes.size() != allChildren.size()) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(replaceNodes.front()) <<
             "The \"" << common::parseReplaceStr() << "\" child node of \"" <<
             common::parseMessageStr() << "\" element must contain only supported field types.";
-- 
2.43.0


From fdb816d84ff9ad93c0ac6f7c6c4d58ec0a146d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:38 +0000
Subject: [PATCH 12/82] fix: Report unknown fields used as list, string or data
 prefix and suffix instead of asserting

---
 lib/src/parse/ParseDataFieldImpl.cpp   | 4 ++--
 lib/src/parse/ParseListFieldImpl.cpp   | 4 ++--
 lib/src/parse/ParseStringFieldImpl.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/src/parse/ParseDataFieldImpl.cpp b/lib/src/parse/ParseDataFieldImpl.cpp
index ffcd923..aab0f58 100644
--- a/lib/src/parse/ParseDataFieldImpl.cpp
+++ b/lib/src/parse/ParseDataFieldImpl.cpp
@@ -447,8 +447,8 @@ bool ParseDataFieldImpl::parseCheckPrefixAsChild()
 
     auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
     if (!field) {
-        [[maybe_unused]] static constexpr bool Should_not_happen = false;
-        assert(Should_not_happen);
+        parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+            "Unknown field type \"" << fieldKind << "\".";
         return false;
     }
 
diff --git a/lib/src/parse/ParseListFieldImpl.cpp b/lib/src/parse/ParseListFieldImpl.cpp
index 34c84d3..9a3c470 100644
--- a/lib/src/parse/ParseListFieldImpl.cpp
+++ b/lib/src/parse/ParseListFieldImpl.cpp
@@ -722,8 +722,8 @@ bool ParseListFieldImpl::parseCheckPrefixAsChild(
 
     auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
     if (!field) {
-        [[maybe_unused]] static constexpr bool Should_not_happen = false;
-        assert(Should_not_happen);
+        parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+            "Unknown field type \"" << fieldKind << "\".";
         return false;
     }
 
diff --git a/lib/src/parse/ParseStringFieldImpl.cpp b/lib/src/parse/ParseStringFieldImpl.cpp
index bc28561..f889637 100644
--- a/lib/src/parse/ParseStringFieldImpl.cpp
+++ b/lib/src/parse/ParseStringFieldImpl.cpp
@@ -547,8 +547,8 @@ bool ParseStringFieldImpl::parseCheckPrefixAsChild()
 
     auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
     if (!field) {
-        [[maybe_unused]] static constexpr bool Should_not_happen = false;
-        assert(Should_not_happen);
+        parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+            "Unknown field type \"" << fieldKind << "\".";
         return false;
     }
 
-- 
2.43.0


From 9b4c0a080d386a84cead3980bf8b8104a9c24002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:51 +0000
Subject: [PATCH 13/82] fix: Refuse detached length prefix of fixed length or
 zero terminated strings and data

---
 lib/src/parse/ParseDataFieldImpl.cpp   | 4 ++--
 lib/src/parse/ParseStringFieldImpl.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/parse/ParseDataFieldImpl.cpp b/lib/src/parse/ParseDataFieldImpl.cpp
index aab0f58..4fe90a6 100644
--- a/lib/src/parse/ParseDataFieldImpl.cpp
+++ b/lib/src/parse/ParseDataFieldImpl.cpp
@@ -289,7 +289,7 @@ bool ParseDataFieldImpl::parseUpdateLength()
         return true;
     }
 
-    if (parseHasPrefixField()) {
+    if (parseHasPrefixField() || (!m_state.m_detachedPrefixField.empty())) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "Cannot force fixed length after reusing data sequence with length prefix.";
         return false;
@@ -306,7 +306,7 @@ bool ParseDataFieldImpl::parseUpdatePrefix()
         return false;
     }
 
-    if (!parseHasPrefixField()) {
+    if ((!parseHasPrefixField()) && (m_state.m_detachedPrefixField.empty())) {
         return true;
     }
 
diff --git a/lib/src/parse/ParseStringFieldImpl.cpp b/lib/src/parse/ParseStringFieldImpl.cpp
index f889637..dbc4b5a 100644
--- a/lib/src/parse/ParseStringFieldImpl.cpp
+++ b/lib/src/parse/ParseStringFieldImpl.cpp
@@ -335,7 +335,7 @@ bool ParseStringFieldImpl::parseUpdateLength()
         return true;
     }
 
-    if (parseHasPrefixField()) {
+    if (parseHasPrefixField() || (!m_state.m_detachedPrefixField.empty())) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "Cannot force fixed length after reusing string with length prefix.";
         return false;
@@ -358,7 +358,7 @@ bool ParseStringFieldImpl::parseUpdatePrefix()
         return false;
     }
 
-    if (!parseHasPrefixField()) {
+    if ((!parseHasPrefixField()) && (m_state.m_detachedPrefixField.empty())) {
         return true;
     }
 
@@ -410,7 +410,7 @@ bool ParseStringFieldImpl::parseUpdateZeroTerm()
         return false;
     }
 
-    if (parseHasPrefixField()) {
+    if (parseHasPrefixField() || (!m_state.m_detachedPrefixField.empty())) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "Cannot apply zero suffix to strings having length prefix.";
         return false;
-- 
2.43.0


From cc5236a20606d9040807df932b7417bcaf219fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 14/82] fix: Refuse empty and malformed references instead of
 asserting

---
 lib/src/parse/ParseDataFieldImpl.cpp |  2 +-
 lib/src/parse/ParseProtocolImpl.cpp  | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/src/parse/ParseDataFieldImpl.cpp b/lib/src/parse/ParseDataFieldImpl.cpp
index 4fe90a6..2a9bece 100644
--- a/lib/src/parse/ParseDataFieldImpl.cpp
+++ b/lib/src/parse/ParseDataFieldImpl.cpp
@@ -544,7 +544,7 @@ const ParseFieldImpl* ParseDataFieldImpl::parseGetPrefixField() const
 bool ParseDataFieldImpl::parseStrToValue(const std::string& str, ParseValueType& val) const
 {
     if ((!str.empty()) && (str[0] == common::parseStringRefPrefix()) && parseProtocol().parseIsFieldValueReferenceSupported()) {
-        return parseProtocol().parseStrToData(std::string(str, 1), false, val);
+        return parseProtocol().parseStrToData(std::string(str, 1), true, val);
     }
 
     std::string adjStr = str;
diff --git a/lib/src/parse/ParseProtocolImpl.cpp b/lib/src/parse/ParseProtocolImpl.cpp
index 05259e6..ede4e26 100644
--- a/lib/src/parse/ParseProtocolImpl.cpp
+++ b/lib/src/parse/ParseProtocolImpl.cpp
@@ -126,7 +126,10 @@ const ParseSchemaImpl& ParseProtocolImpl::parseCurrSchema() const
 
 const ParseFieldImpl* ParseProtocolImpl::parseFindField(const std::string& ref, bool checkRef) const
 {
-    assert(!ref.empty());
+    if (ref.empty()) {
+        return nullptr;
+    }
+
     auto parsedRef = parseExternalRef(ref);
     if ((parsedRef.first == nullptr) || (parsedRef.second.empty())) {
         return nullptr;
@@ -141,7 +144,10 @@ const ParseFieldImpl* ParseProtocolImpl::parseFindField(const std::string& ref,
 
 const ParseMessageImpl* ParseProtocolImpl::parseFindMessage(const std::string& ref, bool checkRef) const
 {
-    assert(!ref.empty());
+    if (ref.empty()) {
+        return nullptr;
+    }
+
     auto parsedRef = parseExternalRef(ref);
     if ((parsedRef.first == nullptr) || (parsedRef.second.empty())) {
         return nullptr;
@@ -156,7 +162,10 @@ const ParseMessageImpl* ParseProtocolImpl::parseFindMessage(const std::string& r
 
 const ParseInterfaceImpl* ParseProtocolImpl::parseFindInterface(const std::string& ref, bool checkRef) const
 {
-    assert(!ref.empty());
+    if (ref.empty()) {
+        return nullptr;
+    }
+
     auto parsedRef = parseExternalRef(ref);
     if ((parsedRef.first == nullptr) || (parsedRef.second.empty())) {
         return nullptr;
-- 
2.43.0


From 359ff4f270334335b664e63059da805049a01160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:42 +0000
Subject: [PATCH 15/82] fix: Update versions of the fields of the reused
 message the same way as of the copied ones

---
 lib/src/parse/ParseMessageImpl.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index 6df010d..ef2f070 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -783,17 +783,17 @@ bool ParseMessageImpl::parseCopyFields()
     }
 
     auto iter = m_props.find(common::parseCopyFieldsFromStr());
-    if (iter == m_props.end()) {
-        return true;
-    }
+    do {
+        if (iter == m_props.end()) {
+            break;
+        }
 
-    if (!m_state.m_fields.empty()) {
-        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
-            "Copying fields from multiple sources using various properties is not supported";
-        return false;
-    }
+        if (!m_state.m_fields.empty()) {
+            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+                "Copying fields from multiple sources using various properties is not supported";
+            return false;
+        }
 
-    do {
         m_copyFieldsFromMsg = m_protocol.parseFindMessage(iter->second);
         if (m_copyFieldsFromMsg != nullptr) {
             parseCloneFieldsFrom(*m_copyFieldsFromMsg);
-- 
2.43.0


From c1833124a466c27a66ff9f26762512f9df160280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:52 +0000
Subject: [PATCH 16/82] fix: Check ids and list messages of all the nested
 namespaces

---
 lib/src/parse/ParseNamespaceImpl.cpp | 18 ++++++++++++------
 lib/src/parse/ParseNamespaceImpl.h   |  1 +
 lib/src/parse/ParseSchemaImpl.cpp    | 11 +----------
 3 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/lib/src/parse/ParseNamespaceImpl.cpp b/lib/src/parse/ParseNamespaceImpl.cpp
index 43caaea..3cba28b 100644
--- a/lib/src/parse/ParseNamespaceImpl.cpp
+++ b/lib/src/parse/ParseNamespaceImpl.cpp
@@ -219,6 +219,17 @@ ParseNamespaceImpl::ParseMessagesList ParseNamespaceImpl::parseMessagesList() co
     return result;
 }
 
+ParseNamespaceImpl::ParseMessagesList ParseNamespaceImpl::parseAllMessagesList() const
+{
+    auto result = parseMessagesList();
+    for (auto& ns : m_namespaces) {
+        auto nsMsgs = ns.second->parseAllMessagesList();
+        result.insert(result.end(), nsMsgs.begin(), nsMsgs.end());
+    }
+
+    return result;
+}
+
 ParseNamespaceImpl::ParseInterfacesList ParseNamespaceImpl::parseInterfacesList() const
 {
     ParseInterfacesList result;
@@ -451,12 +462,7 @@ ParseNamespaceImpl::ParseFieldRefInfosList ParseNamespaceImpl::parseProcessInter
 
 bool ParseNamespaceImpl::parseValidateAllMessages(bool allowNonUniquIds)
 {
-    ParseMessagesList allMsgs = parseMessagesList();
-    for (auto& ns : m_namespaces) {
-        auto nsMsgs = ns.second->parseMessagesList();
-        allMsgs.insert(allMsgs.end(), nsMsgs.begin(), nsMsgs.end());
-    }
-
+    ParseMessagesList allMsgs = parseAllMessagesList();
     std::sort(
         allMsgs.begin(), allMsgs.end(),
         [](const auto& msg1, const auto& msg2)
diff --git a/lib/src/parse/ParseNamespaceImpl.h b/lib/src/parse/ParseNamespaceImpl.h
index d737768..41a5e90 100644
--- a/lib/src/parse/ParseNamespaceImpl.h
+++ b/lib/src/parse/ParseNamespaceImpl.h
@@ -132,6 +132,7 @@ public:
     ParseNamespacesList parseNamespacesList() const;
     ParseFieldsList parseFieldsList() const;
     ParseMessagesList parseMessagesList() const;
+    ParseMessagesList parseAllMessagesList() const;
     ParseInterfacesList parseInterfacesList() const;
     ParseFramesList parseFramesList() const;
 
diff --git a/lib/src/parse/ParseSchemaImpl.cpp b/lib/src/parse/ParseSchemaImpl.cpp
index ea0be48..3220175 100644
--- a/lib/src/parse/ParseSchemaImpl.cpp
+++ b/lib/src/parse/ParseSchemaImpl.cpp
@@ -137,18 +137,9 @@ const ParseInterfaceImpl* ParseSchemaImpl::parseFindInterface(const std::string&
 
 ParseSchemaImpl::ParseMessagesList ParseSchemaImpl::parseAllMessages() const
 {
-    auto total =
-        std::accumulate(
-            m_namespaces.begin(), m_namespaces.end(), static_cast<std::size_t>(0U),
-            [](std::size_t soFar, auto& ns) -> std::size_t
-            {
-                return soFar + ns.second->parseMessages().size();
-            });
-
     ParseNamespaceImpl::ParseMessagesList messages;
-    messages.reserve(total);
     for (auto& ns : m_namespaces) {
-        auto nsMsgs = ns.second->parseMessagesList();
+        auto nsMsgs = ns.second->parseAllMessagesList();
         messages.insert(messages.end(), nsMsgs.begin(), nsMsgs.end());
     }
 
-- 
2.43.0


From 79e981aadc6e6e566a2257f14c5fe547fb4f9d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:26 +0000
Subject: [PATCH 17/82] fix: Refuse several layers with the same name

---
 lib/src/parse/ParseFrameImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/parse/ParseFrameImpl.cpp b/lib/src/parse/ParseFrameImpl.cpp
index 26e4e86..dc9c540 100644
--- a/lib/src/parse/ParseFrameImpl.cpp
+++ b/lib/src/parse/ParseFrameImpl.cpp
@@ -303,6 +303,7 @@ bool ParseFrameImpl::parseUpdateLayers()
             parseLogError() << ParseXmlWrap::parseLogPrefix(lNode) <<
                 "Layer with name \"" << layer->parseName() << "\" has already been "
                 "defined within the same frame.";
+            return false;
         }
 
         if (layer->parseKind() == ParseLayerImpl::ParseKind::Payload) {
-- 
2.43.0


From fc238a48b0bc1ac4a35774842fea5285c565868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:27 +0000
Subject: [PATCH 18/82] fix: Refuse layers with empty or repeated definition of
 the field

---
 lib/src/parse/ParseLayerImpl.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseLayerImpl.cpp b/lib/src/parse/ParseLayerImpl.cpp
index a15c1e4..e94856e 100644
--- a/lib/src/parse/ParseLayerImpl.cpp
+++ b/lib/src/parse/ParseLayerImpl.cpp
@@ -567,12 +567,18 @@ bool ParseLayerImpl::parseCheckFieldAsChild()
         }
 
         if (parseProps().find(common::parseFieldStr()) == parseProps().end()) {
+            if (fields.empty()) {
+                parseLogError() << ParseXmlWrap::parseLogPrefix(child) <<
+                    "The \"" << common::parseFieldStr() << "\" element is expected to define field as child element";
+                return false;
+            }
+
             fieldNode = fields.front();
             break;
         }
 
         auto attrs = ParseXmlWrap::parseNodeProps(parseGetNode());
-        if (attrs.find(common::parseFieldsStr()) != attrs.end()) {
+        if (attrs.find(common::parseFieldStr()) != attrs.end()) {
             parseLogError() << "There must be only one occurance of \"" << common::parseFieldStr() << "\" definition.";
             return false;
         }
-- 
2.43.0


From 7e62a73f1f8534ff95f0aa0dd125c8c71bfccb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:27 +0000
Subject: [PATCH 19/82] fix: Ignore "from" of the sync layer when not supported

---
 lib/src/parse/ParseSyncLayerImpl.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lib/src/parse/ParseSyncLayerImpl.cpp b/lib/src/parse/ParseSyncLayerImpl.cpp
index d49a7d2..d377f19 100644
--- a/lib/src/parse/ParseSyncLayerImpl.cpp
+++ b/lib/src/parse/ParseSyncLayerImpl.cpp
@@ -200,7 +200,6 @@ bool ParseSyncLayerImpl::parseUpdateVerifyBeforeReadInternal()
     if (!parseProtocol().parseIsSyncSuffixLayerSupported()) {
         parseLogWarning() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "Property \"" << prop << "\" of <sync> layer is not supported for selected dslVersion, ignoring...";
-        m_from = nullptr;
         return true;
     }
 
@@ -225,6 +224,13 @@ bool ParseSyncLayerImpl::parseUpdateFromInternal()
         return true;
     }
 
+    if (!parseProtocol().parseIsSyncSuffixLayerSupported()) {
+        parseLogWarning() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+            "Property \"" << prop << "\" of <sync> layer is not supported for selected dslVersion, ignoring...";
+        m_from = &common::parseEmptyString();
+        return true;
+    }
+
     if ((!m_seekField) && (!m_verifyBeforeRead)) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "The usage of \"" << prop << "\" is allowed only in conjunction with setting \"" <<
@@ -232,13 +238,6 @@ bool ParseSyncLayerImpl::parseUpdateFromInternal()
         return false;
     }
 
-    if (!parseProtocol().parseIsSyncSuffixLayerSupported()) {
-        parseLogWarning() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
-            "Property \"" << prop << "\" of <sync> layer is not supported for selected dslVersion, ignoring...";
-        m_from = nullptr;
-        return true;
-    }
-
     return true;
 }
 
-- 
2.43.0


From a922a4683ee886a6e709fa450a14effc97662f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:04 +0000
Subject: [PATCH 20/82] fix: refuse incomplete and inner size or existence
 references in conditions

---
 lib/src/parse/ParseFieldImpl.cpp         | 9 +++++++++
 lib/src/parse/ParseInterfaceImpl.cpp     | 4 ++++
 lib/src/parse/ParseOptionalFieldImpl.cpp | 4 ++++
 3 files changed, 17 insertions(+)

diff --git a/lib/src/parse/ParseFieldImpl.cpp b/lib/src/parse/ParseFieldImpl.cpp
index cbc6574..5b17866 100644
--- a/lib/src/parse/ParseFieldImpl.cpp
+++ b/lib/src/parse/ParseFieldImpl.cpp
@@ -436,6 +436,10 @@ ParseFieldImpl::ParseFieldRefInfo ParseFieldImpl::parseProcessSiblingRef(const P
     auto nextPos = refStr.size();
     if (dotPos < refStr.size()) {
         nextPos = dotPos + 1U;
+        if (refStr.size() <= nextPos) {
+            // Nothing follows the dot
+            return info;
+        }
     }
 
     return (*iter)->parseProcessInnerRef(refStr.substr(nextPos));
@@ -450,6 +454,11 @@ ParseFieldImpl::ParseFieldRefInfo ParseFieldImpl::parseProcessInnerRef(const std
         return info;
     }
 
+    if ((refStr[0] == '#') || (refStr[0] == '?')) {
+        // Size and existence are requested in front of the whole reference
+        return ParseFieldRefInfo();
+    }
+
     auto& memFields = parseMembers();
     if (!memFields.empty()) {
         return parseProcessSiblingRef(memFields, refStr);
diff --git a/lib/src/parse/ParseInterfaceImpl.cpp b/lib/src/parse/ParseInterfaceImpl.cpp
index 608c5f5..922ee00 100644
--- a/lib/src/parse/ParseInterfaceImpl.cpp
+++ b/lib/src/parse/ParseInterfaceImpl.cpp
@@ -199,6 +199,10 @@ ParseInterfaceImpl::ParseFieldRefInfo ParseInterfaceImpl::processInnerFieldRef(c
     std::string nextRef;
     if (dotPos < refStr.size()) {
         nextRef = refStr.substr(dotPos + 1U);
+        if (nextRef.empty()) {
+            // Nothing follows the dot
+            return ParseFieldRefInfo();
+        }
     }
 
     return (*iter)->parseProcessInnerRef(nextRef);
diff --git a/lib/src/parse/ParseOptionalFieldImpl.cpp b/lib/src/parse/ParseOptionalFieldImpl.cpp
index dafbcdc..439d6e2 100644
--- a/lib/src/parse/ParseOptionalFieldImpl.cpp
+++ b/lib/src/parse/ParseOptionalFieldImpl.cpp
@@ -247,6 +247,10 @@ ParseOptionalFieldImpl::ParseFieldRefInfo ParseOptionalFieldImpl::parseProcessIn
     if (sepPos < refStr.size()) {
         fieldName = refStr.substr(0, sepPos);
         restStr = refStr.substr(sepPos + 1);
+        if (restStr.empty()) {
+            // Nothing follows the dot
+            return ParseFieldRefInfo();
+        }
     }
 
     if (fieldName != m_field->parseName()) {
-- 
2.43.0


From 67b50eff95f7e88664ab5a2277cab8c049d9ac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:04 +0000
Subject: [PATCH 21/82] fix: single element checks of conditions must refer to
 bits

---
 lib/src/parse/ParseOptCondImpl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/parse/ParseOptCondImpl.cpp b/lib/src/parse/ParseOptCondImpl.cpp
index 88e2d7a..fe4aa5c 100644
--- a/lib/src/parse/ParseOptCondImpl.cpp
+++ b/lib/src/parse/ParseOptCondImpl.cpp
@@ -357,6 +357,13 @@ bool ParseOptCondExprImpl::parseVerifySiblingSingleElementCheck(const ParseOptCo
 
     if (info.m_refType == ParseFieldImpl::FieldRefType_InnerValue) {
         assert(!info.m_valueName.empty());
+        if (info.m_field->parseKind() != ParseFieldImpl::ParseKind::Set) {
+            parseLogError(logger) << ParseXmlWrap::parseLogPrefix(node) <<
+                "The \"" << m_right << "\" string is expected to dereference existing bit in existing <" <<
+                common::parseSetStr() << "> field or <" << common::parseRefStr() << "> to it.";
+            return false;
+        }
+
         return true;
     }
 
-- 
2.43.0


From 5647b25ea5d90c9c5fc8e9d1ae01d61538297c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:04 +0000
Subject: [PATCH 22/82] fix: compare sizes only with complete numbers and
 report others

---
 lib/src/parse/ParseOptCondImpl.cpp | 18 +++++++++---------
 lib/src/parse/ParseOptCondImpl.h   |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/src/parse/ParseOptCondImpl.cpp b/lib/src/parse/ParseOptCondImpl.cpp
index fe4aa5c..f1d8663 100644
--- a/lib/src/parse/ParseOptCondImpl.cpp
+++ b/lib/src/parse/ParseOptCondImpl.cpp
@@ -450,7 +450,7 @@ bool ParseOptCondExprImpl::parseVerifySiblingComparison(const ParseOptCondImpl::
             return false;
         }
 
-        return parseVerifyValidSizeValueComparison();
+        return parseVerifyValidSizeValueComparison(node, protocol);
     }
 
     if (leftInfo.m_refType != ParseFieldImpl::FieldRefType_Field) {
@@ -530,7 +530,7 @@ bool ParseOptCondExprImpl::parseVerifyInterfaceComparison(const ParseFieldsList&
             return false;
         }
 
-        return parseVerifyValidSizeValueComparison();
+        return parseVerifyValidSizeValueComparison(node, protocol);
     }
 
     parseDiscardNonFieldReferences(leftFields);
@@ -626,16 +626,16 @@ bool ParseOptCondExprImpl::parseVerifyInterfaceComparison(const ParseFieldsList&
     return true;
 }
 
-bool ParseOptCondExprImpl::parseVerifyValidSizeValueComparison() const
+bool ParseOptCondExprImpl::parseVerifyValidSizeValueComparison(::xmlNodePtr node, const ParseProtocolImpl& protocol) const
 {
-    try {
-        [[maybe_unused]] auto val = std::stoll(m_right);
-        return true;
-    } catch (...) {
-        // Do nothing
+    bool ok = false;
+    [[maybe_unused]] auto val = common::parseStrToIntMax(m_right, &ok);
+    if (!ok) {
+        parseLogError(protocol.parseLogger()) << ParseXmlWrap::parseLogPrefix(node) <<
+            "Size can be compared only to a numeric value, not \"" << m_right << "\".";
     }
 
-    return false;
+    return ok;
 }
 
 ParseOptCondListImpl::ParseOptCondListImpl(const ParseOptCondListImpl& other)
diff --git a/lib/src/parse/ParseOptCondImpl.h b/lib/src/parse/ParseOptCondImpl.h
index d9bc64c..1c11d26 100644
--- a/lib/src/parse/ParseOptCondImpl.h
+++ b/lib/src/parse/ParseOptCondImpl.h
@@ -129,7 +129,7 @@ private:
     bool parseVerifyComparison(const ParseFieldsList& fields, ::xmlNodePtr node, const ParseProtocolImpl& protocol) const;
     bool parseVerifySiblingComparison(const ParseFieldsList& fields, ::xmlNodePtr node, const ParseProtocolImpl& protocol) const;
     bool parseVerifyInterfaceComparison(const ParseFieldsList& fields, ::xmlNodePtr node, const ParseProtocolImpl& protocol) const;
-    bool parseVerifyValidSizeValueComparison() const;
+    bool parseVerifyValidSizeValueComparison(::xmlNodePtr node, const ParseProtocolImpl& protocol) const;
 
     std::string m_left;
     std::string m_op;
-- 
2.43.0


From ea23a54ff42303be33852051d5530c6d0b43a251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:29 +0000
Subject: [PATCH 23/82] fix: keep the byte order of a reused <float> field

---
 lib/src/parse/ParseFloatFieldImpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/parse/ParseFloatFieldImpl.cpp b/lib/src/parse/ParseFloatFieldImpl.cpp
index e31d78b..c5f2292 100644
--- a/lib/src/parse/ParseFloatFieldImpl.cpp
+++ b/lib/src/parse/ParseFloatFieldImpl.cpp
@@ -319,6 +319,10 @@ bool ParseFloatFieldImpl::parseUpdateEndian()
     }
 
     auto& endianStr = common::parseGetStringProp(parseProps(), common::parseEndianStr());
+    if ((endianStr.empty()) && (m_state.m_endian != ParseEndian_NumOfValues)) {
+        return true;
+    }
+
     m_state.m_endian = common::parseEndian(endianStr, parseProtocol().parseCurrSchema().parseEndian());
     if (m_state.m_endian == ParseEndian_NumOfValues) {
         parseReportUnexpectedPropertyValue(common::parseEndianStr(), endianStr);
-- 
2.43.0


From 5d67cb419c6088cbb654a48a4ecbdb36566a60db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:29 +0000
Subject: [PATCH 24/82] fix: check the uniqueness of special values against the
 reused ones

---
 lib/src/parse/ParseFloatFieldImpl.cpp | 8 ++++++++
 lib/src/parse/ParseIntFieldImpl.cpp   | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/lib/src/parse/ParseFloatFieldImpl.cpp b/lib/src/parse/ParseFloatFieldImpl.cpp
index c5f2292..d4ee447 100644
--- a/lib/src/parse/ParseFloatFieldImpl.cpp
+++ b/lib/src/parse/ParseFloatFieldImpl.cpp
@@ -528,6 +528,14 @@ bool ParseFloatFieldImpl::parseUpdateSpecials()
     using RecSpecials = std::multimap<double, std::string>;
     RecSpecials recSpecials;
     std::string prevNanSpecial;
+    for (auto& sp : m_state.m_specials) { // specials of the reused field
+        if (std::isnan(sp.second.m_value)) {
+            prevNanSpecial = sp.first;
+            continue;
+        }
+
+        recSpecials.insert(std::make_pair(sp.second.m_value, sp.first));
+    }
 
     for (auto* s : specials) {
         static const ParseXmlWrap::ParseNamesList PropNames = {
diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index fb082e7..47f8f9b 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -1035,6 +1035,9 @@ bool ParseIntFieldImpl::parseUpdateSpecials()
 
     using RecSpecials = std::multimap<std::intmax_t, std::string>;
     RecSpecials recSpecials;
+    for (auto& sp : m_state.m_specials) { // specials of the reused field
+        recSpecials.insert(std::make_pair(sp.second.m_value, sp.first));
+    }
 
     for (auto* s : specials) {
         static const ParseXmlWrap::ParseNamesList PropNames = {
-- 
2.43.0


From a440d2ec312b98d2a3678e2bf5627d9a27997886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:11 +0000
Subject: [PATCH 25/82] fix: commsdsl2comms must not abort on a schema without
 frames

---
 app/commsdsl2comms/src/CommsDoxygen.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsDoxygen.cpp b/app/commsdsl2comms/src/CommsDoxygen.cpp
index cbfd133..c881dd9 100644
--- a/app/commsdsl2comms/src/CommsDoxygen.cpp
+++ b/app/commsdsl2comms/src/CommsDoxygen.cpp
@@ -567,7 +567,9 @@ std::string CommsDoxygen::commsFrameDocInternal() const
         "///";
 
     auto frames = m_commsGenerator.genGetAllFrames();
-    assert(!frames.empty());
+    if (frames.empty()) {
+        return strings::genEmptyString();
+    }
 
     util::GenStringsList list;
     for (auto* f : frames) {
-- 
2.43.0


From 9acb0d7fd3a386d168871c09a6601af71fa1b87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:11 +0000
Subject: [PATCH 26/82] fix: big unsigned valid ranges of enum fields are those
 of uint64 and uintvar types

---
 app/commsdsl2comms/src/CommsEnumField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index f3e233e..b6fafef 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -1259,7 +1259,7 @@ void CommsEnumField::commsAddValidRangesOptInternal(GenStringsList& opts) const
     auto type = obj.parseType();
     bool bigUnsigned =
         (type == commsdsl::parse::ParseEnumField::ParseType::Uint64) ||
-        ((type != commsdsl::parse::ParseEnumField::ParseType::Uintvar) && (obj.parseMaxLength() >= sizeof(std::int64_t)));
+        ((type == commsdsl::parse::ParseEnumField::ParseType::Uintvar) && (obj.parseMaxLength() >= sizeof(std::int64_t)));
 
     bool validCheckVersion =
         genGenerator().genSchemaOf(*this).genVersionDependentCode() &&
-- 
2.43.0


From 17a4fc0fc2a7bc7c6fced118dd9098c908c07c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:11 +0000
Subject: [PATCH 27/82] fix: the smallest 64 bit value is not a valid negated
 literal

---
 lib/src/gen/util.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/gen/util.cpp b/lib/src/gen/util.cpp
index 0ba8e7c..21654bd 100644
--- a/lib/src/gen/util.cpp
+++ b/lib/src/gen/util.cpp
@@ -382,6 +382,11 @@ std::string genNumToString(std::intmax_t value)
         return stream.str();
     }
 
+    if (value == std::numeric_limits<std::intmax_t>::min()) {
+        // The magnitude doesn't fit into the signed type, there is no such literal
+        return "(" + genNumToString(value + 1) + " - 1)";
+    }
+
     std::stringstream stream;
     stream << std::hex << "-0x" << -value << "LL";
     return stream.str();
-- 
2.43.0


From 25a1bb3f7016b1d19f3db8718d291acc0b0de53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:11 +0000
Subject: [PATCH 28/82] fix: big unsigned valid ranges of int fields are those
 of uint64 and uintvar types

---
 app/commsdsl2comms/src/CommsIntField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsIntField.cpp b/app/commsdsl2comms/src/CommsIntField.cpp
index 975805f..e76a31f 100644
--- a/app/commsdsl2comms/src/CommsIntField.cpp
+++ b/app/commsdsl2comms/src/CommsIntField.cpp
@@ -919,7 +919,7 @@ void CommsIntField::commsAddValidRangesOptInternal(GenStringsList& opts) const
     auto type = obj.parseType();
     bool bigUnsigned =
         (type == commsdsl::parse::ParseIntField::ParseType::Uint64) ||
-        ((type != commsdsl::parse::ParseIntField::ParseType::Uintvar) && (obj.parseMaxLength() >= sizeof(std::int64_t)));
+        ((type == commsdsl::parse::ParseIntField::ParseType::Uintvar) && (obj.parseMaxLength() >= sizeof(std::int64_t)));
 
     bool validCheckVersion =
         genGenerator().genSchemaOf(*this).genVersionDependentCode() &&
-- 
2.43.0


From c4acfac39718345add78545badc5bb5a0e21b883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:11 +0000
Subject: [PATCH 29/82] fix: unify only existing valid ranges, and allow
 contained ones

---
 app/commsdsl2comms/src/CommsIntField.cpp | 27 +++++++++++++-----------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsIntField.cpp b/app/commsdsl2comms/src/CommsIntField.cpp
index e76a31f..b84dad6 100644
--- a/app/commsdsl2comms/src/CommsIntField.cpp
+++ b/app/commsdsl2comms/src/CommsIntField.cpp
@@ -926,24 +926,28 @@ void CommsIntField::commsAddValidRangesOptInternal(GenStringsList& opts) const
         obj.parseValidCheckVersion();
 
     if (!validCheckVersion) {
+        // Ranges that don't exist must not contribute to the unified ones
+        validRanges.erase(
+            std::remove_if(
+                validRanges.begin(), validRanges.end(),
+                [this](auto& r)
+                {
+                    return !this->genGenerator().genDoesElementExist(r.m_sinceVersion, r.m_deprecatedSince, true);
+                }),
+            validRanges.end());
+
         // unify
         std::size_t idx = 0U;
-        while (idx < (validRanges.size() - 1U)) {
+        while ((idx + 1U) < validRanges.size()) {
             auto& thisRange = validRanges[idx];
             auto& nextRange = validRanges[idx + 1];
 
             auto needToMergeCheck =
-                [](auto min1, auto max1, auto min2, auto max2) -> bool
+                [](auto min1, auto max1, auto min2) -> bool
                 {
                     static_cast<void>(min1);
-                    static_cast<void>(max2);
                     assert(min1 <= min2);
-                    if (min2 <= (max1 + 1)) {
-                        assert(max1 <= max2);
-                        return true;
-                    }
-
-                    return false;
+                    return (min2 <= max1) || ((min2 - 1) == max1);
                 };
 
             bool merge = false;
@@ -952,11 +956,10 @@ void CommsIntField::commsAddValidRangesOptInternal(GenStringsList& opts) const
                     needToMergeCheck(
                         static_cast<std::uintmax_t>(thisRange.m_min),
                         static_cast<std::uintmax_t>(thisRange.m_max),
-                        static_cast<std::uintmax_t>(nextRange.m_min),
-                        static_cast<std::uintmax_t>(nextRange.m_max));
+                        static_cast<std::uintmax_t>(nextRange.m_min));
             }
             else {
-                merge = needToMergeCheck(thisRange.m_min, thisRange.m_max, nextRange.m_min, nextRange.m_max);
+                merge = needToMergeCheck(thisRange.m_min, thisRange.m_max, nextRange.m_min);
             }
 
             if (!merge) {
-- 
2.43.0


From 24f733978da17784744be6f4c73e6b969d75dc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:00 +0000
Subject: [PATCH 30/82] fix: list of valid enum values has to be sorted in
 order of the type and name existing values

---
 app/commsdsl2comms/src/CommsEnumField.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index b6fafef..62b5445 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -327,7 +327,8 @@ std::string CommsEnumField::commsDefValidFuncBodyImpl() const
             prefix = "ValueType::";
         }
 
-        auto& revValues = obj.parseRevValues();
+        auto& revValues = genSortedRevValues();
+        auto& values = obj.parseValues();
         auto prevIter = revValues.end();
         for (auto iter = revValues.begin(); iter != revValues.end(); ++iter) {
 
@@ -335,7 +336,18 @@ std::string CommsEnumField::commsDefValidFuncBodyImpl() const
                 continue;
             }
 
-            valuesStrings.push_back(prefix + iter->second);
+            auto valIter = values.find(*iter->second);
+            assert(valIter != values.end());
+            bool exists =
+                genGenerator().genDoesElementExist(
+                    valIter->second.m_sinceVersion,
+                    valIter->second.m_deprecatedSince,
+                    true);
+            if (!exists) {
+                continue;
+            }
+
+            valuesStrings.push_back(prefix + *iter->second);
             prevIter = iter;
         }
 
-- 
2.43.0


From b1b8bec72553987209deb75e5ab31d9f2e004816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:23 +0000
Subject: [PATCH 31/82] fix: names map of enum values has to refer to existing
 values in their own scope

---
 app/commsdsl2comms/src/CommsEnumField.cpp | 116 +++-------------------
 app/commsdsl2comms/src/CommsEnumField.h   |   1 -
 2 files changed, 14 insertions(+), 103 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index 62b5445..e1ece2f 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -915,18 +915,6 @@ std::string CommsEnumField::commsCommonValueNamesMapDirectBodyInternal() const
 
 std::string CommsEnumField::commsCommonValueNamesMapBinSearchBodyInternal() const
 {
-    auto obj = genEnumFieldParseObj();
-    auto type = obj.parseType();
-
-    std::string names;
-    if ((type == commsdsl::parse::ParseEnumField::ParseType::Uint64) ||
-        ((type == commsdsl::parse::ParseEnumField::ParseType::Uintvar) && (sizeof(std::uint64_t) <= obj.parseMaxLength()))) {
-        names = commsCommonBigUnsignedValueNameBinSearchPairsInternal();
-    }
-    else {
-        names = commsCommonValueNameBinSearchPairsInternal();
-    }
-
     static const std::string Templ =
         "static const ValueNameInfo Map[] = {\n"
         "    #^#NAMES#$#\n"
@@ -935,96 +923,11 @@ std::string CommsEnumField::commsCommonValueNamesMapBinSearchBodyInternal() cons
         "return std::make_pair(&Map[0], MapSize);";
 
     util::GenReplacementMap repl = {
-        {"NAMES", std::move(names)}
+        {"NAMES", commsCommonValueNameBinSearchPairsInternal()}
     };
     return util::genProcessTemplate(Templ, repl);
 }
 
-std::string CommsEnumField::commsCommonBigUnsignedValueNameBinSearchPairsInternal() const
-{
-    auto obj = genEnumFieldParseObj();
-    auto& revValues = obj.parseRevValues();
-    assert(!revValues.empty());
-
-    std::vector<std::uintmax_t> valuesSeq;
-    valuesSeq.reserve(revValues.size());
-    for (auto& v : revValues) {
-        valuesSeq.push_back(static_cast<std::uintmax_t>(v.first));
-    }
-    std::sort(valuesSeq.begin(), valuesSeq.end());
-
-    auto& currSchema = genGenerator().genSchemaOf(*this);
-    auto& values = obj.parseValues();
-    bool firstElem = true;
-    std::intmax_t lastValue = std::numeric_limits<std::intmax_t>::min();
-    GenStringsList names;
-    for (auto& posV : valuesSeq) {
-        auto castedV = static_cast<std::intmax_t>(posV);
-        if ((!firstElem) && (lastValue == castedV)) {
-            continue;
-        }
-
-        auto revIter = revValues.find(castedV);
-        assert(revIter != revValues.end());
-        auto& v = *revIter;
-
-        auto getDisplayNameFunc =
-            [](auto& infoPair) -> const std::string&
-            {
-                if (infoPair.second.m_displayName.empty()) {
-                    return infoPair.first;
-                }
-
-                if (infoPair.second.m_displayName == "_") {
-                    return strings::genEmptyString();
-                }
-
-                return infoPair.second.m_displayName;
-            };
-
-        auto addElementNameFunc =
-            [&names, &v, &firstElem, &lastValue, getDisplayNameFunc](auto& infoPair)
-            {
-                auto str =
-                    "std::make_pair(ValueType::" +
-                    v.second + ", \"" + getDisplayNameFunc(infoPair) +
-                    "\")";
-                names.push_back(std::move(str));
-                firstElem = false;
-                lastValue = v.first;
-            };
-
-        auto valIter = values.find(v.second);
-        assert(valIter != values.end());
-        if ((!obj.parseIsNonUniqueAllowed()) ||
-            (currSchema.genSchemaVersion() < valIter->second.m_deprecatedSince) ||
-            (obj.parseIsUnique())) {
-            addElementNameFunc(*valIter);
-            continue;
-        }
-
-        auto allRevValues = revValues.equal_range(v.first);
-        bool foundNotDeprecated = false;
-        for (auto iter = allRevValues.first; iter != allRevValues.second; ++iter) {
-            auto vIter = values.find(iter->second);
-            assert(vIter != values.end());
-            if (currSchema.genSchemaVersion() < vIter->second.m_deprecatedSince) {
-                addElementNameFunc(*vIter);
-                foundNotDeprecated = true;
-                break;
-            }
-        }
-
-        if (foundNotDeprecated) {
-            continue;
-        }
-
-        addElementNameFunc(*valIter);
-    }
-
-    return util::genStrListToString(names, ",\n", "");
-}
-
 std::string CommsEnumField::commsCommonValueNameBinSearchPairsInternal() const
 {
     auto obj = genEnumFieldParseObj();
@@ -1037,11 +940,22 @@ std::string CommsEnumField::commsCommonValueNameBinSearchPairsInternal() const
     std::intmax_t lastValue = std::numeric_limits<std::intmax_t>::min();
     GenStringsList names;
     auto& currSchema = genGenerator().genSchemaOf(*this);
-    for (auto& v : revValues) {
+    for (auto& v : genSortedRevValues()) {
         if ((!firstElem) && (lastValue == v.first)) {
             continue;
         }
 
+        auto valIter = values.find(*v.second);
+        assert(valIter != values.end());
+        bool exists =
+            genGenerator().genDoesElementExist(
+                valIter->second.m_sinceVersion,
+                valIter->second.m_deprecatedSince,
+                false);
+        if (!exists) {
+            continue;
+        }
+
         auto getDisplayNameFunc =
             [](auto& infoPair) -> const std::string&
             {
@@ -1071,7 +985,7 @@ std::string CommsEnumField::commsCommonValueNameBinSearchPairsInternal() const
             {
                 auto str =
                     "std::make_pair(" +
-                    getValueStrFunc(v.second) +
+                    getValueStrFunc(*v.second) +
                     ", \"" + getDisplayNameFunc(infoPair) +
                     "\")";
                 names.push_back(std::move(str));
@@ -1079,8 +993,6 @@ std::string CommsEnumField::commsCommonValueNameBinSearchPairsInternal() const
                 lastValue = v.first;
             };
 
-        auto valIter = values.find(v.second);
-        assert(valIter != values.end());
         if ((!obj.parseIsNonUniqueAllowed()) ||
             (currSchema.genSchemaVersion() < valIter->second.m_deprecatedSince) ||
             (obj.parseIsUnique())) {
diff --git a/app/commsdsl2comms/src/CommsEnumField.h b/app/commsdsl2comms/src/CommsEnumField.h
index 0532838..b2bc416 100644
--- a/app/commsdsl2comms/src/CommsEnumField.h
+++ b/app/commsdsl2comms/src/CommsEnumField.h
@@ -83,7 +83,6 @@ private:
     std::string commsCommonValueNamesMapFuncCodeInternal() const;
     std::string commsCommonValueNamesMapDirectBodyInternal() const;
     std::string commsCommonValueNamesMapBinSearchBodyInternal() const;
-    std::string commsCommonBigUnsignedValueNameBinSearchPairsInternal() const;
     std::string commsCommonValueNameBinSearchPairsInternal() const;
     std::string commsDefFieldOptsInternal() const;
     std::string commsDefValueNameMapInternal() const;
-- 
2.43.0


From e031f57f9f4dd2ab3f067a73d48b45988d270f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:43 +0000
Subject: [PATCH 32/82] fix: type of the message ids enumeration has to fit ids
 defined in other namespaces

---
 app/commsdsl2comms/src/CommsMsgId.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsMsgId.cpp b/app/commsdsl2comms/src/CommsMsgId.cpp
index bfc3d45..30b99f7 100644
--- a/app/commsdsl2comms/src/CommsMsgId.cpp
+++ b/app/commsdsl2comms/src/CommsMsgId.cpp
@@ -99,6 +99,10 @@ bool CommsMsgId::commsWrite() const
 std::string CommsMsgId::commsTypeInternal() const
 {
     auto allMsgIdFields = m_parent.genFindMessageIdFields();
+    if (allMsgIdFields.empty() && m_parent.genName().empty()) {
+        allMsgIdFields = m_commsGenerator.genCurrentSchema().genGetAllMessageIdFields();
+    }
+
     if (allMsgIdFields.size() == 1U) {
         auto* msgIdField = allMsgIdFields.front();
         assert(msgIdField->genParseObj().parseKind() == commsdsl::parse::ParseField::ParseKind::Enum);
@@ -108,6 +112,10 @@ std::string CommsMsgId::commsTypeInternal() const
     }
 
     auto allMessages = m_parent.genGetAllMessages();
+    if (allMessages.empty() && m_parent.genName().empty()) {
+        allMessages = m_commsGenerator.genCurrentSchema().genGetAllMessages();
+    }
+
     auto iter =
         std::max_element(
             allMessages.begin(), allMessages.end(),
-- 
2.43.0


From 5800e80fc1bf62028d3a093d23bdf45be762ee35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:39 +0000
Subject: [PATCH 33/82] fix: escape quotes of names and string values in the
 generated code

---
 app/commsdsl2comms/src/CommsEnumField.cpp   |  4 ++--
 app/commsdsl2comms/src/CommsField.cpp       |  2 +-
 app/commsdsl2comms/src/CommsMessage.cpp     |  2 +-
 app/commsdsl2comms/src/CommsSetField.cpp    |  2 +-
 app/commsdsl2comms/src/CommsStringField.cpp |  6 +++---
 lib/include/commsdsl/gen/util.h             |  1 +
 lib/src/gen/util.cpp                        | 20 ++++++++++++++++++++
 7 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index e1ece2f..7d4cca7 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -868,7 +868,7 @@ std::string CommsEnumField::commsCommonValueNamesMapDirectBodyInternal() const
         auto addElementNameFunc =
             [&names, getDisplayNameFunc](auto& infoPair)
             {
-                names.push_back('\"' + getDisplayNameFunc(infoPair) + '\"');
+                names.push_back('\"' + util::genStrEscapeQuotes(getDisplayNameFunc(infoPair)) + '\"');
             };
 
         auto valIter = values.find(v.second);
@@ -986,7 +986,7 @@ std::string CommsEnumField::commsCommonValueNameBinSearchPairsInternal() const
                 auto str =
                     "std::make_pair(" +
                     getValueStrFunc(*v.second) +
-                    ", \"" + getDisplayNameFunc(infoPair) +
+                    ", \"" + util::genStrEscapeQuotes(getDisplayNameFunc(infoPair)) +
                     "\")";
                 names.push_back(std::move(str));
                 firstElem = false;
diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index 5235e3a..90fbd9c 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -754,7 +754,7 @@ std::string CommsField::commsCommonNameFuncCode() const
 
     util::GenReplacementMap repl = {
         {"SCOPE", comms::genScopeFor(m_genField, generator)},
-        {"NAME", util::genDisplayName(m_genField.genParseObj().parseDisplayName(), m_genField.genParseObj().parseName())},
+        {"NAME", util::genStrEscapeQuotes(util::genDisplayName(m_genField.genParseObj().parseDisplayName(), m_genField.genParseObj().parseName()))},
         {"CUSTOM", m_customCode.m_name}
     };
 
diff --git a/app/commsdsl2comms/src/CommsMessage.cpp b/app/commsdsl2comms/src/CommsMessage.cpp
index 6d40103..e4581fb 100644
--- a/app/commsdsl2comms/src/CommsMessage.cpp
+++ b/app/commsdsl2comms/src/CommsMessage.cpp
@@ -763,7 +763,7 @@ std::string CommsMessage::commsCommonNameFuncInternal() const
 
     util::GenReplacementMap repl = {
         {"SCOPE", comms::genScopeFor(*this, genGenerator())},
-        {"NAME", util::genDisplayName(genParseObj().parseDisplayName(), genParseObj().parseName())}
+        {"NAME", util::genStrEscapeQuotes(util::genDisplayName(genParseObj().parseDisplayName(), genParseObj().parseName()))}
     };
 
     return util::genProcessTemplate(Templ, repl);
diff --git a/app/commsdsl2comms/src/CommsSetField.cpp b/app/commsdsl2comms/src/CommsSetField.cpp
index 2f8cf22..21293eb 100644
--- a/app/commsdsl2comms/src/CommsSetField.cpp
+++ b/app/commsdsl2comms/src/CommsSetField.cpp
@@ -451,7 +451,7 @@ std::string CommsSetField::commsCommonBitNameFuncCodeInternal() const
         auto addElementNameFunc =
             [&names, getDisplayNameFunc](auto& infoPair)
             {
-                names.push_back('\"' + getDisplayNameFunc(infoPair) + '\"');
+                names.push_back('\"' + util::genStrEscapeQuotes(getDisplayNameFunc(infoPair)) + '\"');
             };
 
         auto bitIter = bits.find(b.second);
diff --git a/app/commsdsl2comms/src/CommsStringField.cpp b/app/commsdsl2comms/src/CommsStringField.cpp
index 982673f..dcc1589 100644
--- a/app/commsdsl2comms/src/CommsStringField.cpp
+++ b/app/commsdsl2comms/src/CommsStringField.cpp
@@ -171,7 +171,7 @@ std::string CommsStringField::commsDefConstructCodeImpl() const
         "Base::setValue(typename Base::ValueType(&Str[0], StrSize - 1));\n";
 
     util::GenReplacementMap repl = {
-        {"STR", defaultValue}
+        {"STR", util::genStrEscapeQuotes(defaultValue)}
     };
 
     return util::genProcessTemplate(Templ, repl);
@@ -307,7 +307,7 @@ std::string CommsStringField::commsDefValidFuncBodyImpl() const
             continue;
         }
 
-        values.push_back("\"" + info.m_value + "\"");
+        values.push_back("\"" + util::genStrEscapeQuotes(info.m_value) + "\"");
     }
 
     static const std::string Templ =
@@ -440,7 +440,7 @@ std::string CommsStringField::commsCompPrepValueStrImpl(const std::string& accSt
         valueTmp.assign(value, 1, std::string::npos);
     } while (false);
 
-    return CommsBase::commsCompPrepValueStrImpl(accStr, '\"' + valueTmp + '\"');
+    return CommsBase::commsCompPrepValueStrImpl(accStr, '\"' + util::genStrEscapeQuotes(valueTmp) + '\"');
 }
 
 std::string CommsStringField::commsDefFieldOptsInternal() const
diff --git a/lib/include/commsdsl/gen/util.h b/lib/include/commsdsl/gen/util.h
index a0525ea..057c1c6 100644
--- a/lib/include/commsdsl/gen/util.h
+++ b/lib/include/commsdsl/gen/util.h
@@ -32,6 +32,7 @@ namespace util
 {
 
 std::string genStrReplace(const std::string& str, const std::string& what, const std::string& with);
+std::string genStrEscapeQuotes(const std::string& str);
 std::string genStrToName(const std::string& value);
 std::vector<std::string> genStrSplitByAnyChar(const std::string& str, const std::string& splitChars, bool compressed = true);
 std::vector<std::string> genStrSplit(const std::string& str, const std::string& sep, bool compressed = true);
diff --git a/lib/src/gen/util.cpp b/lib/src/gen/util.cpp
index 21654bd..6e0d0c7 100644
--- a/lib/src/gen/util.cpp
+++ b/lib/src/gen/util.cpp
@@ -207,6 +207,26 @@ std::string genStrReplace(const std::string& str, const std::string& what, const
     return result;
 }
 
+std::string genStrEscapeQuotes(const std::string& str)
+{
+    std::string result;
+    result.reserve(str.size());
+    bool escaped = false;
+    for (auto ch : str) {
+        if ((ch == '\"') && (!escaped)) {
+            result.push_back('\\');
+        }
+
+        escaped = (ch == '\\') && (!escaped);
+        result.push_back(ch);
+    }
+
+    if (escaped) {
+        result.push_back('\\');
+    }
+    return result;
+}
+
 std::string genStrToName(const std::string& value)
 {
     auto result = genStrReplace(value, ".", "_");
-- 
2.43.0


From cf175e6c9dc2aefadb48f4a92756011e33558fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:12 +0000
Subject: [PATCH 34/82] fix: the smallest 64 bit value is not a valid negated
 literal of message id

---
 lib/src/gen/util.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/gen/util.cpp b/lib/src/gen/util.cpp
index 6e0d0c7..0d5809b 100644
--- a/lib/src/gen/util.cpp
+++ b/lib/src/gen/util.cpp
@@ -414,6 +414,11 @@ std::string genNumToString(std::intmax_t value)
 
 std::string genNumToStringWithHexComment(std::intmax_t value)
 {
+    if (value == std::numeric_limits<std::intmax_t>::min()) {
+        // The magnitude doesn't fit into the signed type, there is no such literal
+        return genNumToString(value);
+    }
+
     std::stringstream stream;
     if (0 <= value) {
         stream << std::hex << "0x" << value;
-- 
2.43.0


From 0440e2d32d9fa89f9244e5813c8f0c8691c69c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:15 +0000
Subject: [PATCH 35/82] fix: maximal length of fixed size lists depends on the
 one of the generated element

---
 app/commsdsl2comms/src/CommsListField.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsListField.cpp b/app/commsdsl2comms/src/CommsListField.cpp
index b3b99fc..4d44fec 100644
--- a/app/commsdsl2comms/src/CommsListField.cpp
+++ b/app/commsdsl2comms/src/CommsListField.cpp
@@ -538,11 +538,21 @@ CommsListField::GenStringsList CommsListField::commsExtraBareMetalDefaultOptions
 std::size_t CommsListField::commsMaxLengthImpl() const
 {
     auto obj = genListFieldParseObj();
-    if (obj.parseFixedCount() != 0U) {
-        return CommsBase::commsMaxLengthImpl();
+    if (obj.parseFixedCount() == 0U) {
+        return comms::genMaxPossibleLength();
     }
 
-    return comms::genMaxPossibleLength();
+    auto* elementField = m_commsExternalElementField;
+    if (elementField == nullptr) {
+        elementField = m_commsMemberElementField;
+    }
+
+    assert(elementField != nullptr);
+    if (elementField->commsMaxLength() == comms::genMaxPossibleLength()) {
+        return comms::genMaxPossibleLength();
+    }
+
+    return CommsBase::commsMaxLengthImpl();
 }
 
 std::string CommsListField::commsSizeAccessStrImpl([[maybe_unused]] const std::string& accStr, const std::string& prefix) const
-- 
2.43.0


From 9aa14c9a64b745d8f5385a577f922061a06b31d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:57 +0000
Subject: [PATCH 36/82] fix: print values of float fields without loss

---
 app/commsdsl2comms/src/CommsFloatField.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsFloatField.cpp b/app/commsdsl2comms/src/CommsFloatField.cpp
index f61763b..1e038e5 100644
--- a/app/commsdsl2comms/src/CommsFloatField.cpp
+++ b/app/commsdsl2comms/src/CommsFloatField.cpp
@@ -25,6 +25,9 @@
 #include <algorithm>
 #include <cassert>
 #include <cmath>
+#include <iomanip>
+#include <limits>
+#include <sstream>
 
 namespace util = commsdsl::gen::util;
 namespace comms = commsdsl::gen::comms;
@@ -91,7 +94,9 @@ std::string commsValueToString(double val, commsdsl::parse::ParseFloatField::Par
         return "std::numeric_limits<ValueType>::max()";
     }
 
-    return "static_cast<ValueType>(" + std::to_string(val) + ")";
+    std::ostringstream stream;
+    stream << std::setprecision(std::numeric_limits<double>::max_digits10) << val;
+    return "static_cast<ValueType>(" + stream.str() + ")";
 }
 
 std::string commsCmpToString(double val, commsdsl::parse::ParseFloatField::ParseType type)
-- 
2.43.0


From 6e7f5d55532c6cd32215e0a91d7dcd5613cda369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:03 +0000
Subject: [PATCH 37/82] fix: members with the version of their field exist
 whenever the field does

---
 app/commsdsl2c/src/CEnumField.cpp                  |  2 +-
 app/commsdsl2c/src/CFloatField.cpp                 |  4 ++--
 app/commsdsl2c/src/CIntField.cpp                   |  4 ++--
 app/commsdsl2comms/src/CommsDataField.cpp          |  2 +-
 app/commsdsl2comms/src/CommsEnumField.cpp          |  8 ++++----
 app/commsdsl2comms/src/CommsFloatField.cpp         |  4 ++--
 app/commsdsl2comms/src/CommsIntField.cpp           |  8 ++++----
 app/commsdsl2comms/src/CommsSetField.cpp           |  4 ++--
 app/commsdsl2comms/src/CommsStringField.cpp        |  2 +-
 .../src/EmscriptenEnumField.cpp                    |  2 +-
 .../src/EmscriptenFloatField.cpp                   |  6 ++----
 app/commsdsl2emscripten/src/EmscriptenIntField.cpp |  6 ++----
 app/commsdsl2latex/src/LatexEnumField.cpp          |  2 +-
 app/commsdsl2latex/src/LatexFloatField.cpp         |  4 ++--
 app/commsdsl2latex/src/LatexIntField.cpp           |  4 ++--
 app/commsdsl2swig/src/SwigEnumField.cpp            |  2 +-
 app/commsdsl2swig/src/SwigFloatField.cpp           |  3 +--
 app/commsdsl2swig/src/SwigIntField.cpp             |  3 +--
 lib/include/commsdsl/gen/GenField.h                |  5 +++++
 lib/src/gen/GenField.cpp                           | 14 ++++++++++++++
 20 files changed, 51 insertions(+), 38 deletions(-)

diff --git a/app/commsdsl2c/src/CEnumField.cpp b/app/commsdsl2c/src/CEnumField.cpp
index f5386c5..c81c8c1 100644
--- a/app/commsdsl2c/src/CEnumField.cpp
+++ b/app/commsdsl2c/src/CEnumField.cpp
@@ -116,7 +116,7 @@ CEnumField::GenStringsList CEnumField::cEnumValues(const std::string& forcedPref
         }
 
         bool exists =
-            genGenerator().genDoesElementExist(
+            genDoesMemberExist(
                 iter->second.m_sinceVersion,
                 iter->second.m_deprecatedSince,
                 false);
diff --git a/app/commsdsl2c/src/CFloatField.cpp b/app/commsdsl2c/src/CFloatField.cpp
index b4684d5..c214260 100644
--- a/app/commsdsl2c/src/CFloatField.cpp
+++ b/app/commsdsl2c/src/CFloatField.cpp
@@ -115,7 +115,7 @@ std::string CFloatField::cHeaderSpecialsCodeInternal() const
 
     util::GenStringsList specialsList;
     for (auto& s : specials) {
-        if (!genGenerator().genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+        if (!genDoesMemberExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
             continue;
         }
 
@@ -162,7 +162,7 @@ std::string CFloatField::cSourceSpecialsCodeInternal() const
 
     util::GenStringsList specialsList;
     for (auto& s : specials) {
-        if (!genGenerator().genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+        if (!genDoesMemberExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
             continue;
         }
 
diff --git a/app/commsdsl2c/src/CIntField.cpp b/app/commsdsl2c/src/CIntField.cpp
index 1f7efa2..9ed791b 100644
--- a/app/commsdsl2c/src/CIntField.cpp
+++ b/app/commsdsl2c/src/CIntField.cpp
@@ -131,7 +131,7 @@ std::string CIntField::cHeaderSpecialsCodeInternal() const
 
     util::GenStringsList specialsList;
     for (auto& s : specials) {
-        if (!genGenerator().genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+        if (!genDoesMemberExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
             continue;
         }
 
@@ -178,7 +178,7 @@ std::string CIntField::cSourceSpecialsCodeInternal() const
 
     util::GenStringsList specialsList;
     for (auto& s : specials) {
-        if (!genGenerator().genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+        if (!genDoesMemberExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
             continue;
         }
 
diff --git a/app/commsdsl2comms/src/CommsDataField.cpp b/app/commsdsl2comms/src/CommsDataField.cpp
index 8858d31..53da671 100644
--- a/app/commsdsl2comms/src/CommsDataField.cpp
+++ b/app/commsdsl2comms/src/CommsDataField.cpp
@@ -330,7 +330,7 @@ std::string CommsDataField::commsDefValidFuncBodyImpl() const
     util::GenStringsList values;
     for (auto idx = 0U; idx < validValues.size(); ++idx) {
         auto& info = validValues[idx];
-        if (!genGenerator().genDoesElementExist(info.m_sinceVersion, info.m_deprecatedSince, true)) {
+        if (!genDoesMemberExist(info.m_sinceVersion, info.m_deprecatedSince, true)) {
             continue;
         }
 
diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index 7d4cca7..cbf828d 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -75,7 +75,7 @@ CommsEnumField::GenStringsList CommsEnumField::commsEnumValues() const
         }
 
         bool exists =
-            genGenerator().genDoesElementExist(
+            genDoesMemberExist(
                 iter->second.m_sinceVersion,
                 iter->second.m_deprecatedSince,
                 false);
@@ -339,7 +339,7 @@ std::string CommsEnumField::commsDefValidFuncBodyImpl() const
             auto valIter = values.find(*iter->second);
             assert(valIter != values.end());
             bool exists =
-                genGenerator().genDoesElementExist(
+                genDoesMemberExist(
                     valIter->second.m_sinceVersion,
                     valIter->second.m_deprecatedSince,
                     true);
@@ -568,7 +568,7 @@ bool CommsEnumField::commsPrepareValidRangesInternal()
     m_validRanges.reserve(values.size());
     for (auto& v : values) {
         bool exists =
-            gen.genDoesElementExist(
+            genDoesMemberExist(
                 v.second.m_sinceVersion,
                 v.second.m_deprecatedSince,
                 !validCheckVersion);
@@ -948,7 +948,7 @@ std::string CommsEnumField::commsCommonValueNameBinSearchPairsInternal() const
         auto valIter = values.find(*v.second);
         assert(valIter != values.end());
         bool exists =
-            genGenerator().genDoesElementExist(
+            genDoesMemberExist(
                 valIter->second.m_sinceVersion,
                 valIter->second.m_deprecatedSince,
                 false);
diff --git a/app/commsdsl2comms/src/CommsFloatField.cpp b/app/commsdsl2comms/src/CommsFloatField.cpp
index 1e038e5..df36c15 100644
--- a/app/commsdsl2comms/src/CommsFloatField.cpp
+++ b/app/commsdsl2comms/src/CommsFloatField.cpp
@@ -485,7 +485,7 @@ std::string CommsFloatField::commsCommonSpecialsCodeInternal() const
 
     util::GenStringsList specialsList;
     for (auto& s : specials) {
-        if (!genGenerator().genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+        if (!genDoesMemberExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
             continue;
         }
 
@@ -569,7 +569,7 @@ std::string CommsFloatField::commsDefSpecialsCodeInternal() const
     util::GenStringsList specialsList;
 
     for (auto& s : specials) {
-        if (!genGenerator().genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+        if (!genDoesMemberExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
             continue;
         }
 
diff --git a/app/commsdsl2comms/src/CommsIntField.cpp b/app/commsdsl2comms/src/CommsIntField.cpp
index b84dad6..5647f6a 100644
--- a/app/commsdsl2comms/src/CommsIntField.cpp
+++ b/app/commsdsl2comms/src/CommsIntField.cpp
@@ -500,7 +500,7 @@ std::string CommsIntField::commsCommonSpecialsCodeInternal() const
 
     util::GenStringsList specialsList;
     for (auto& s : specials) {
-        if (!genGenerator().genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+        if (!genDoesMemberExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
             continue;
         }
 
@@ -637,7 +637,7 @@ std::string CommsIntField::commsDefSpecialsCodeInternal() const
 
     util::GenStringsList specialsList;
     for (auto& s : specials) {
-        if (!genGenerator().genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+        if (!genDoesMemberExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
             continue;
         }
 
@@ -932,7 +932,7 @@ void CommsIntField::commsAddValidRangesOptInternal(GenStringsList& opts) const
                 validRanges.begin(), validRanges.end(),
                 [this](auto& r)
                 {
-                    return !this->genGenerator().genDoesElementExist(r.m_sinceVersion, r.m_deprecatedSince, true);
+                    return !this->genDoesMemberExist(r.m_sinceVersion, r.m_deprecatedSince, true);
                 }),
             validRanges.end());
 
@@ -995,7 +995,7 @@ void CommsIntField::commsAddValidRangesOptInternal(GenStringsList& opts) const
     bool versionStorageRequired = false;
     bool addedRangeOpt = false;
     for (auto& r : validRanges) {
-        if (!genGenerator().genDoesElementExist(r.m_sinceVersion, r.m_deprecatedSince, !validCheckVersion)) {
+        if (!genDoesMemberExist(r.m_sinceVersion, r.m_deprecatedSince, !validCheckVersion)) {
             continue;
         }
 
diff --git a/app/commsdsl2comms/src/CommsSetField.cpp b/app/commsdsl2comms/src/CommsSetField.cpp
index 21293eb..df2c996 100644
--- a/app/commsdsl2comms/src/CommsSetField.cpp
+++ b/app/commsdsl2comms/src/CommsSetField.cpp
@@ -158,7 +158,7 @@ std::string CommsSetField::commsDefValidFuncBodyImpl() const
             continue;
         }
 
-        if (!gen.genDoesElementExist(b.second.m_sinceVersion, b.second.m_deprecatedSince, false)) {
+        if (!genDoesMemberExist(b.second.m_sinceVersion, b.second.m_deprecatedSince, false)) {
             continue; // already handled
         }
 
@@ -792,7 +792,7 @@ void CommsSetField::commsAddReservedBitsOptInternal(commsdsl::gen::util::GenStri
         }
 
         if (validCheckVersion &&
-            (!gen.genDoesElementExist(bitInfo.second.m_sinceVersion, bitInfo.second.m_deprecatedSince, true))) {
+            (!genDoesMemberExist(bitInfo.second.m_sinceVersion, bitInfo.second.m_deprecatedSince, true))) {
             continue;
         }
 
diff --git a/app/commsdsl2comms/src/CommsStringField.cpp b/app/commsdsl2comms/src/CommsStringField.cpp
index dcc1589..e3975fe 100644
--- a/app/commsdsl2comms/src/CommsStringField.cpp
+++ b/app/commsdsl2comms/src/CommsStringField.cpp
@@ -303,7 +303,7 @@ std::string CommsStringField::commsDefValidFuncBodyImpl() const
 
     util::GenStringsList values;
     for (auto& info : validValues) {
-        if (!genGenerator().genDoesElementExist(info.m_sinceVersion, info.m_deprecatedSince, true)) {
+        if (!genDoesMemberExist(info.m_sinceVersion, info.m_deprecatedSince, true)) {
             continue;
         }
 
diff --git a/app/commsdsl2emscripten/src/EmscriptenEnumField.cpp b/app/commsdsl2emscripten/src/EmscriptenEnumField.cpp
index 30b9a98..5365728 100644
--- a/app/commsdsl2emscripten/src/EmscriptenEnumField.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenEnumField.cpp
@@ -84,7 +84,7 @@ std::string EmscriptenEnumField::emscriptenBindValues(const EmscriptenNamespace*
         }
 
         bool exists =
-            genGenerator().genDoesElementExist(
+            genDoesMemberExist(
                 iter->second.m_sinceVersion,
                 iter->second.m_deprecatedSince,
                 false);
diff --git a/app/commsdsl2emscripten/src/EmscriptenFloatField.cpp b/app/commsdsl2emscripten/src/EmscriptenFloatField.cpp
index 18a59cd..3bc2b0f 100644
--- a/app/commsdsl2emscripten/src/EmscriptenFloatField.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenFloatField.cpp
@@ -90,9 +90,8 @@ std::string EmscriptenFloatField::emscriptenHeaderSpecialsInternal() const
     }
 
     util::GenStringsList specialsList;
-    auto& gen = EmscriptenGenerator::emscriptenCast(genGenerator());
     for (auto& s : specials) {
-        if (!gen.genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+        if (!genDoesMemberExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
             continue;
         }
 
@@ -133,9 +132,8 @@ std::string EmscriptenFloatField::emscriptenSourceSpecialsBindInternal() const
     };
 
     util::GenStringsList specialsList;
-    auto& gen = EmscriptenGenerator::emscriptenCast(genGenerator());
     for (auto& s : specials) {
-        if (!gen.genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+        if (!genDoesMemberExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
             continue;
         }
 
diff --git a/app/commsdsl2emscripten/src/EmscriptenIntField.cpp b/app/commsdsl2emscripten/src/EmscriptenIntField.cpp
index 10daa4d..870fb75 100644
--- a/app/commsdsl2emscripten/src/EmscriptenIntField.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenIntField.cpp
@@ -91,9 +91,8 @@ std::string EmscriptenIntField::emscriptenHeaderSpecialsInternal() const
     }
 
     util::GenStringsList specialsList;
-    auto& gen = EmscriptenGenerator::emscriptenCast(genGenerator());
     for (auto& s : specials) {
-        if (!gen.genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+        if (!genDoesMemberExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
             continue;
         }
 
@@ -170,13 +169,12 @@ std::string EmscriptenIntField::emscriptenSourceSpecialsBindInternal() const
     }
 
     util::GenStringsList specialsList;
-    auto& gen = EmscriptenGenerator::emscriptenCast(genGenerator());
     util::GenReplacementMap repl = {
         {"CLASS_NAME", emscriptenBindClassName()}
     };
 
     for (auto& s : specials) {
-        if (!gen.genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+        if (!genDoesMemberExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
             continue;
         }
 
diff --git a/app/commsdsl2latex/src/LatexEnumField.cpp b/app/commsdsl2latex/src/LatexEnumField.cpp
index 6a0c48b..fbeadb2 100644
--- a/app/commsdsl2latex/src/LatexEnumField.cpp
+++ b/app/commsdsl2latex/src/LatexEnumField.cpp
@@ -68,7 +68,7 @@ std::string LatexEnumField::latexExtraDetailsImpl() const
             continue;
         }
 
-        if (!genGenerator().genDoesElementExist(iter->second.m_sinceVersion, iter->second.m_deprecatedSince, true)) {
+        if (!genDoesMemberExist(iter->second.m_sinceVersion, iter->second.m_deprecatedSince, true)) {
             continue;
         }
 
diff --git a/app/commsdsl2latex/src/LatexFloatField.cpp b/app/commsdsl2latex/src/LatexFloatField.cpp
index b96af09..2122457 100644
--- a/app/commsdsl2latex/src/LatexFloatField.cpp
+++ b/app/commsdsl2latex/src/LatexFloatField.cpp
@@ -116,7 +116,7 @@ std::string LatexFloatField::latexInfoDetailsImpl() const
         auto& validRanges = parseObj.parseValidRanges();
         util::GenStringsList values;
         for (auto& r : validRanges) {
-            if (!genGenerator().genDoesElementExist(r.m_sinceVersion, r.m_deprecatedSince, true)) {
+            if (!genDoesMemberExist(r.m_sinceVersion, r.m_deprecatedSince, true)) {
                 continue;
             }
 
@@ -154,7 +154,7 @@ std::string LatexFloatField::latexExtraDetailsImpl() const
     infos.reserve(specials.size());
 
     for (auto& s : specials) {
-        if (!genGenerator().genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+        if (!genDoesMemberExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
             continue;
         }
 
diff --git a/app/commsdsl2latex/src/LatexIntField.cpp b/app/commsdsl2latex/src/LatexIntField.cpp
index 2c4624d..96359b8 100644
--- a/app/commsdsl2latex/src/LatexIntField.cpp
+++ b/app/commsdsl2latex/src/LatexIntField.cpp
@@ -72,7 +72,7 @@ std::string LatexIntField::latexInfoDetailsImpl() const
         util::GenStringsList values;
         bool unsignedType = genIsUnsignedType();
         for (auto& r : validRanges) {
-            if (!genGenerator().genDoesElementExist(r.m_sinceVersion, r.m_deprecatedSince, true)) {
+            if (!genDoesMemberExist(r.m_sinceVersion, r.m_deprecatedSince, true)) {
                 continue;
             }
 
@@ -125,7 +125,7 @@ std::string LatexIntField::latexExtraDetailsImpl() const
     infos.reserve(specials.size());
 
     for (auto& s : specials) {
-        if (!genGenerator().genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+        if (!genDoesMemberExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
             continue;
         }
 
diff --git a/app/commsdsl2swig/src/SwigEnumField.cpp b/app/commsdsl2swig/src/SwigEnumField.cpp
index 3a77829..b271674 100644
--- a/app/commsdsl2swig/src/SwigEnumField.cpp
+++ b/app/commsdsl2swig/src/SwigEnumField.cpp
@@ -59,7 +59,7 @@ SwigEnumField::GenStringsList SwigEnumField::swigEnumValues() const
         }
 
         bool exists =
-            genGenerator().genDoesElementExist(
+            genDoesMemberExist(
                 iter->second.m_sinceVersion,
                 iter->second.m_deprecatedSince,
                 false);
diff --git a/app/commsdsl2swig/src/SwigFloatField.cpp b/app/commsdsl2swig/src/SwigFloatField.cpp
index b367a43..f6436b3 100644
--- a/app/commsdsl2swig/src/SwigFloatField.cpp
+++ b/app/commsdsl2swig/src/SwigFloatField.cpp
@@ -77,9 +77,8 @@ std::string SwigFloatField::swigSpecialsDeclInternal() const
     }
 
     util::GenStringsList specialsList;
-    auto& gen = SwigGenerator::swigCast(genGenerator());
     for (auto& s : specials) {
-        if (!gen.genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+        if (!genDoesMemberExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
             continue;
         }
 
diff --git a/app/commsdsl2swig/src/SwigIntField.cpp b/app/commsdsl2swig/src/SwigIntField.cpp
index 8bebc50..33f1dc9 100644
--- a/app/commsdsl2swig/src/SwigIntField.cpp
+++ b/app/commsdsl2swig/src/SwigIntField.cpp
@@ -85,9 +85,8 @@ std::string SwigIntField::swigSpecialsDeclInternal() const
     }
 
     util::GenStringsList specialsList;
-    auto& gen = SwigGenerator::swigCast(genGenerator());
     for (auto& s : specials) {
-        if (!gen.genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+        if (!genDoesMemberExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
             continue;
         }
 
diff --git a/lib/include/commsdsl/gen/GenField.h b/lib/include/commsdsl/gen/GenField.h
index c9f4243..7038b6e 100644
--- a/lib/include/commsdsl/gen/GenField.h
+++ b/lib/include/commsdsl/gen/GenField.h
@@ -73,6 +73,11 @@ public:
     GenGenerator& genGenerator();
     const GenGenerator& genGenerator() const;
 
+    /// @brief Check existence of the field's member (value, special, range, etc...)
+    /// @details The versions the member shares with the field itself are not a reason
+    ///     to exclude it from the definition of the field.
+    bool genDoesMemberExist(unsigned sinceVersion, unsigned deprecatedSince, bool deprecatedRemoved) const;
+
     bool genIsReferenced() const;
     void genSetReferenced();
 
diff --git a/lib/src/gen/GenField.cpp b/lib/src/gen/GenField.cpp
index f0ca4e3..445144a 100644
--- a/lib/src/gen/GenField.cpp
+++ b/lib/src/gen/GenField.cpp
@@ -176,6 +176,20 @@ const GenGenerator& GenField::genGenerator() const
     return m_impl->genGenerator();
 }
 
+bool GenField::genDoesMemberExist(unsigned sinceVersion, unsigned deprecatedSince, bool deprecatedRemoved) const
+{
+    auto& obj = genParseObj();
+    if (sinceVersion <= obj.parseSinceVersion()) {
+        sinceVersion = 0U;
+    }
+
+    if (obj.parseDeprecatedSince() <= deprecatedSince) {
+        deprecatedSince = commsdsl::parse::ParseProtocol::parseNotYetDeprecated();
+    }
+
+    return genGenerator().genDoesElementExist(sinceVersion, deprecatedSince, deprecatedRemoved);
+}
+
 bool GenField::genIsReferenced() const
 {
     return m_impl->genIsReferenced();
-- 
2.43.0


From ca29252ffd0d1b779478ed916db4647dec205bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:03 +0000
Subject: [PATCH 38/82] fix: deprecated valid range of int field with
 validCheckVersion is not an unconditional one

---
 app/commsdsl2comms/src/CommsIntField.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsIntField.cpp b/app/commsdsl2comms/src/CommsIntField.cpp
index 5647f6a..aabf40b 100644
--- a/app/commsdsl2comms/src/CommsIntField.cpp
+++ b/app/commsdsl2comms/src/CommsIntField.cpp
@@ -999,7 +999,8 @@ void CommsIntField::commsAddValidRangesOptInternal(GenStringsList& opts) const
             continue;
         }
 
-        if (validCheckVersion && (genGenerator().genIsElementOptional(r.m_sinceVersion, r.m_deprecatedSince, false))) {
+        bool deprecatedRange = r.m_deprecatedSince < obj.parseDeprecatedSince();
+        if (validCheckVersion && (genGenerator().genIsElementOptional(r.m_sinceVersion, r.m_deprecatedSince, deprecatedRange))) {
             versionStorageRequired = true;
             continue;
         }
-- 
2.43.0


From 8ffb36d32664041b821cd5265da55e89f1a43159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:15 +0000
Subject: [PATCH 39/82] fix: deprecation of an enum field doesn't invalidate
 its values

---
 app/commsdsl2comms/src/CommsEnumField.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index cbf828d..e22ed78 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -582,6 +582,10 @@ bool CommsEnumField::commsPrepareValidRangesInternal()
         r.m_max = r.m_min;
         r.m_sinceVersion = v.second.m_sinceVersion;
         r.m_deprecatedSince = v.second.m_deprecatedSince;
+        if (obj.parseDeprecatedSince() <= r.m_deprecatedSince) {
+            // Deprecation of the whole field doesn't invalidate its values
+            r.m_deprecatedSince = commsdsl::parse::ParseProtocol::parseNotYetDeprecated();
+        }
     }
 
     if (m_validRanges.empty()) {
-- 
2.43.0


From 61db99bb0935264fa1227d8c7f0311ef6c806832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 40/82] fix: names of special values may refer only to existing
 ones

---
 lib/src/gen/GenFloatField.cpp | 15 +++++++++++++--
 lib/src/gen/GenIntField.cpp   | 15 +++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/lib/src/gen/GenFloatField.cpp b/lib/src/gen/GenFloatField.cpp
index 22c95ab..28a334c 100644
--- a/lib/src/gen/GenFloatField.cpp
+++ b/lib/src/gen/GenFloatField.cpp
@@ -35,11 +35,16 @@ public:
     using ParseFloatField = GenFloatField::ParseFloatField;
     using GenSpecialsList = GenFloatField::GenSpecialsList;
 
-    bool genPrepare(ParseFloatField parseObj)
+    template <typename TExists>
+    bool genPrepare(ParseFloatField parseObj, TExists&& existsFunc)
     {
         auto& dslSpecials = parseObj.parseSpecialValues();
         m_specialsSorted.reserve(dslSpecials.size());
         for (auto& s : dslSpecials) {
+            if (!existsFunc(s.second)) {
+                continue;
+            }
+
             m_specialsSorted.emplace_back(s.first, s.second);
         }
 
@@ -128,7 +133,13 @@ const GenFloatField::GenSpecialsList& GenFloatField::genSpecialsSortedByValue()
 
 bool GenFloatField::genPrepareImpl()
 {
-    return m_impl->genPrepare(genFloatFieldParseObj());
+    return
+        m_impl->genPrepare(
+            genFloatFieldParseObj(),
+            [this](auto& info)
+            {
+                return genDoesMemberExist(info.m_sinceVersion, info.m_deprecatedSince, true);
+            });
 }
 
 GenFloatField::GenFieldRefInfo GenFloatField::genProcessInnerRefImpl(const std::string& refStr) const
diff --git a/lib/src/gen/GenIntField.cpp b/lib/src/gen/GenIntField.cpp
index 9d6eacd..f9d3ca2 100644
--- a/lib/src/gen/GenIntField.cpp
+++ b/lib/src/gen/GenIntField.cpp
@@ -34,11 +34,16 @@ public:
     using ParseIntField = GenIntField::ParseIntField;
     using GenSpecialsList = GenIntField::GenSpecialsList;
 
-    bool genPrepare(ParseIntField parseObj)
+    template <typename TExists>
+    bool genPrepare(ParseIntField parseObj, TExists&& existsFunc)
     {
         auto& dslSpecials = parseObj.parseSpecialValues();
         m_specialsSorted.reserve(dslSpecials.size());
         for (auto& s : dslSpecials) {
+            if (!existsFunc(s.second)) {
+                continue;
+            }
+
             m_specialsSorted.emplace_back(s.first, s.second);
         }
 
@@ -105,7 +110,13 @@ const GenIntField::GenSpecialsList& GenIntField::genSpecialsSortedByValue() cons
 
 bool GenIntField::genPrepareImpl()
 {
-    return m_impl->genPrepare(genIntFieldParseObj());
+    return
+        m_impl->genPrepare(
+            genIntFieldParseObj(),
+            [this](auto& info)
+            {
+                return genDoesMemberExist(info.m_sinceVersion, info.m_deprecatedSince, true);
+            });
 }
 
 GenIntField::GenFieldRefInfo GenIntField::genProcessInnerRefImpl(const std::string& refStr) const
-- 
2.43.0


From 6bb5913bde1d6e30187ed90d4d1f9b1b8266c72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:17 +0000
Subject: [PATCH 41/82] fix: first, last and limit values of enums have to
 exist

---
 lib/src/gen/GenEnumField.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/src/gen/GenEnumField.cpp b/lib/src/gen/GenEnumField.cpp
index f8aa508..3f59396 100644
--- a/lib/src/gen/GenEnumField.cpp
+++ b/lib/src/gen/GenEnumField.cpp
@@ -75,17 +75,30 @@ public:
 
     explicit GenEnumFieldImpl(ParseEnumField dslObj) : m_dslObj(dslObj) {}
 
-    bool genPrepare()
+    template <typename TExists>
+    bool genPrepare(TExists&& existsFunc)
     {
         auto type = m_dslObj.parseType();
         m_bigUnsigned =
             (type == ParseEnumField::ParseType::Uint64) ||
             (type == ParseEnumField::ParseType::Uintvar);
 
+        auto& values = m_dslObj.parseValues();
         for (auto& v : m_dslObj.parseRevValues()) {
+            auto iter = values.find(v.second);
+            if ((iter != values.end()) && (!existsFunc(iter->second))) {
+                continue;
+            }
+
             m_sortedRevValues.push_back(std::make_pair(v.first, &v.second));
         }
 
+        if (m_sortedRevValues.empty()) {
+            for (auto& v : m_dslObj.parseRevValues()) {
+                m_sortedRevValues.push_back(std::make_pair(v.first, &v.second));
+            }
+        }
+
         if (m_bigUnsigned) {
             std::sort(
                 m_sortedRevValues.begin(), m_sortedRevValues.end(),
@@ -251,7 +264,12 @@ bool GenEnumField::genIsUnsignedType() const
 
 bool GenEnumField::genPrepareImpl()
 {
-    return m_impl->genPrepare();
+    return
+        m_impl->genPrepare(
+            [this](auto& info)
+            {
+                return genDoesMemberExist(info.m_sinceVersion, info.m_deprecatedSince, false);
+            });
 }
 
 GenEnumField::GenFieldRefInfo GenEnumField::genProcessInnerRefImpl(const std::string& refStr) const
-- 
2.43.0


From 0001cd3346eb3317b8552b124a4185521240ff62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:17 +0000
Subject: [PATCH 42/82] fix: valid ranges of float fields which don't exist in
 the version don't count

---
 app/commsdsl2comms/src/CommsFloatField.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsFloatField.cpp b/app/commsdsl2comms/src/CommsFloatField.cpp
index df36c15..24bb8ee 100644
--- a/app/commsdsl2comms/src/CommsFloatField.cpp
+++ b/app/commsdsl2comms/src/CommsFloatField.cpp
@@ -401,7 +401,9 @@ std::string CommsFloatField::commsDefValidFuncBodyImpl() const
         conditions = commsValidNormalConditionsInternal();
     } while (false);
 
-    assert(!conditions.empty());
+    if (conditions.empty()) {
+        return strings::genEmptyString();
+    }
 
     static const std::string Templ =
         "if (Base::valid()) {\n"
@@ -724,9 +726,7 @@ void CommsFloatField::commsAddVersionOptInternal(GenStringsList& opts) const
 
 void CommsFloatField::commsAddInvalidOptInternal(GenStringsList& opts) const
 {
-    auto obj = genFloatFieldParseObj();
-
-    if (!obj.parseValidRanges().empty()) {
+    if (!commsDefValidFuncBodyImpl().empty()) {
         opts.push_back("comms::option::def::InvalidByDefault");
     }
 }
@@ -739,6 +739,10 @@ CommsFloatField::GenStringsList CommsFloatField::commsValidNormalConditionsInter
 
     auto& validRanges = obj.parseValidRanges();
     for (auto& r : validRanges) {
+        if (!genDoesMemberExist(r.m_sinceVersion, r.m_deprecatedSince, true)) {
+            continue;
+        }
+
         if (commsIsLimit(r.m_min)) {
             commsAddCondition(conditions, commsCmpToString(r.m_min, type));
             continue;
-- 
2.43.0


From 0f4a8a230e5c44d1c8b5a37430a8b6d0ec15f4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:17 +0000
Subject: [PATCH 43/82] fix: no list of valid values when none of them exists
 in the version

---
 app/commsdsl2comms/src/CommsDataField.cpp   | 4 ++++
 app/commsdsl2comms/src/CommsStringField.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsDataField.cpp b/app/commsdsl2comms/src/CommsDataField.cpp
index 53da671..9fd413a 100644
--- a/app/commsdsl2comms/src/CommsDataField.cpp
+++ b/app/commsdsl2comms/src/CommsDataField.cpp
@@ -349,6 +349,10 @@ std::string CommsDataField::commsDefValidFuncBodyImpl() const
         values.push_back("MapElem(std::begin(" + name + "), std::end(" + name + "))");
     }
 
+    if (values.empty()) {
+        return std::string();
+    }
+
     static const std::string Templ =
         "if (!Base::valid()) {\n"
         "    return false;\n"
diff --git a/app/commsdsl2comms/src/CommsStringField.cpp b/app/commsdsl2comms/src/CommsStringField.cpp
index e3975fe..55dee82 100644
--- a/app/commsdsl2comms/src/CommsStringField.cpp
+++ b/app/commsdsl2comms/src/CommsStringField.cpp
@@ -310,6 +310,10 @@ std::string CommsStringField::commsDefValidFuncBodyImpl() const
         values.push_back("\"" + util::genStrEscapeQuotes(info.m_value) + "\"");
     }
 
+    if (values.empty()) {
+        return std::string();
+    }
+
     static const std::string Templ =
         "if (!Base::valid()) {\n"
         "    return false;\n"
-- 
2.43.0


From 906421c1413e016370d90933e1438abcb3eb6b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:52 +0000
Subject: [PATCH 44/82] fix: reserved and repeated bits of sets with versions

---
 app/commsdsl2comms/src/CommsSetField.cpp | 40 ++++++++++++++++++------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsSetField.cpp b/app/commsdsl2comms/src/CommsSetField.cpp
index df2c996..af5eab2 100644
--- a/app/commsdsl2comms/src/CommsSetField.cpp
+++ b/app/commsdsl2comms/src/CommsSetField.cpp
@@ -150,20 +150,24 @@ std::string CommsSetField::commsDefValidFuncBodyImpl() const
 
     std::uintmax_t allReservedMask = 0U;
     std::uintmax_t repeatingReservedMask = 0U;
+    std::uintmax_t alwaysExistingMask = 0U;
     std::vector<unsigned> repeatingBits;
     auto& bits = obj.parseBits();
     for (auto& b : bits) {
+        if (b.second.m_reserved) {
+            continue; // handled in options
+        }
+
         if ((b.second.m_sinceVersion <= obj.parseSinceVersion()) &&
             (obj.parseDeprecatedSince() <= b.second.m_deprecatedSince)) {
+            alwaysExistingMask |= static_cast<std::uintmax_t>(1U) << b.second.m_idx;
             continue;
         }
 
-        if (!genDoesMemberExist(b.second.m_sinceVersion, b.second.m_deprecatedSince, false)) {
-            continue; // already handled
+        if (!genDoesMemberExist(b.second.m_sinceVersion, b.second.m_deprecatedSince, true)) {
+            continue; // handled in options
         }
 
-        assert(!b.second.m_reserved); // Should be handled in options
-
         auto key = std::make_tuple(b.second.m_sinceVersion, b.second.m_deprecatedSince);
         auto& elem = bitsToCheck[key];
 
@@ -183,10 +187,11 @@ std::string CommsSetField::commsDefValidFuncBodyImpl() const
         allReservedMask |= bitMask;
     }
 
-    if (repeatingReservedMask != 0U) {
+    auto excludedMask = repeatingReservedMask | alwaysExistingMask;
+    if (excludedMask != 0U) {
         for (auto& b : bitsToCheck) {
-            b.second.m_reservedMask &= ~repeatingReservedMask;
-            b.second.m_reservedValue &= ~repeatingReservedMask;
+            b.second.m_reservedMask &= ~excludedMask;
+            b.second.m_reservedValue &= ~excludedMask;
         }
     }
 
@@ -233,6 +238,10 @@ std::string CommsSetField::commsDefValidFuncBodyImpl() const
     }
 
     for (auto idx : repeatingBits) {
+        if ((alwaysExistingMask & (static_cast<std::uintmax_t>(1U) << idx)) != 0U) {
+            continue;
+        }
+
         auto elems = obj.parseRevBits().equal_range(idx);
         assert(elems.first != elems.second);
         std::vector<std::pair<unsigned, unsigned> > versionRanges;
@@ -245,6 +254,10 @@ std::string CommsSetField::commsDefValidFuncBodyImpl() const
                 continue;
             }
 
+            if (bitIter->second.m_reserved) {
+                continue;
+            }
+
             versionRanges.push_back(std::make_pair(bitIter->second.m_sinceVersion, bitIter->second.m_deprecatedSince));
         }
 
@@ -261,8 +274,8 @@ std::string CommsSetField::commsDefValidFuncBodyImpl() const
 
         unsigned prev = 0U;
         for (auto& r : versionRanges) {
-            auto newPrev = r.second;
-            r.second = r.first;
+            auto newPrev = std::max(prev, r.second);
+            r.second = std::max(prev, r.first);
             r.first = prev;
             prev = newPrev;
         }
@@ -791,13 +804,20 @@ void CommsSetField::commsAddReservedBitsOptInternal(commsdsl::gen::util::GenStri
             continue;
         }
 
+        auto bitMask = static_cast<decltype(reservedValue)>(1U) << bitInfo.second.m_idx;
         if (validCheckVersion &&
             (!genDoesMemberExist(bitInfo.second.m_sinceVersion, bitInfo.second.m_deprecatedSince, true))) {
+            if (bitInfo.second.m_reservedValue) {
+                reservedValue |= bitMask;
+            }
+            else {
+                reservedValue &= ~(bitMask);
+            }
             continue;
         }
 
-        auto bitMask = static_cast<decltype(reservedValue)>(1U) << bitInfo.second.m_idx;
         if (validCheckVersion &&
+            (!bitInfo.second.m_reserved) &&
             ((obj.parseSinceVersion() < bitInfo.second.m_sinceVersion) || (bitInfo.second.m_deprecatedSince < obj.parseDeprecatedSince()))) {
             mustHandleBitsInValidFunc = true;
             reservedMask &= ~(bitMask);
-- 
2.43.0


From 0667ebfcfb968b15d2b3f56212af45b2cbc6a21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:58 +0000
Subject: [PATCH 45/82] fix: deprecation of int, float and set fields doesn't
 invalidate their values

---
 app/commsdsl2comms/src/CommsFloatField.cpp |  6 ++++++
 app/commsdsl2comms/src/CommsIntField.cpp   | 19 +++++++++++++++++--
 app/commsdsl2comms/src/CommsIntField.h     |  1 +
 app/commsdsl2comms/src/CommsSetField.cpp   | 19 +++++++++++++++----
 4 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsFloatField.cpp b/app/commsdsl2comms/src/CommsFloatField.cpp
index 24bb8ee..6fb2251 100644
--- a/app/commsdsl2comms/src/CommsFloatField.cpp
+++ b/app/commsdsl2comms/src/CommsFloatField.cpp
@@ -758,6 +758,12 @@ CommsFloatField::GenStringsList CommsFloatField::commsValidVersionBasedCondition
 {
     auto obj = genFloatFieldParseObj();
     auto validRanges = obj.parseValidRanges(); // copy
+    for (auto& r : validRanges) {
+        if (obj.parseDeprecatedSince() <= r.m_deprecatedSince) {
+            // Deprecation of the whole field doesn't invalidate its values
+            r.m_deprecatedSince = commsdsl::parse::ParseProtocol::parseNotYetDeprecated();
+        }
+    }
 
     std::sort(
         validRanges.begin(), validRanges.end(),
diff --git a/app/commsdsl2comms/src/CommsIntField.cpp b/app/commsdsl2comms/src/CommsIntField.cpp
index aabf40b..d92ee55 100644
--- a/app/commsdsl2comms/src/CommsIntField.cpp
+++ b/app/commsdsl2comms/src/CommsIntField.cpp
@@ -277,6 +277,11 @@ std::string CommsIntField::commsDefValidFuncBodyImpl() const
             validRanges.begin(), validRanges.end(),
             [this](auto& r)
             {
+                if (!this->genDoesMemberExist(r.m_sinceVersion, r.m_deprecatedSince, false)) {
+                    return true; // has no storage of the version to compare with
+                }
+
+                r.m_deprecatedSince = this->commsRangeDeprecatedSinceInternal(r.m_deprecatedSince);
                 return !this->genGenerator().genIsElementOptional(r.m_sinceVersion, r.m_deprecatedSince, true);
             }),
         validRanges.end());
@@ -999,8 +1004,8 @@ void CommsIntField::commsAddValidRangesOptInternal(GenStringsList& opts) const
             continue;
         }
 
-        bool deprecatedRange = r.m_deprecatedSince < obj.parseDeprecatedSince();
-        if (validCheckVersion && (genGenerator().genIsElementOptional(r.m_sinceVersion, r.m_deprecatedSince, deprecatedRange))) {
+        auto deprecatedSince = commsRangeDeprecatedSinceInternal(r.m_deprecatedSince);
+        if (validCheckVersion && (genGenerator().genIsElementOptional(r.m_sinceVersion, deprecatedSince, true))) {
             versionStorageRequired = true;
             continue;
         }
@@ -1083,6 +1088,16 @@ void CommsIntField::commsAddAvailableLengthLimitOptInternal(GenStringsList& opts
     }
 }
 
+unsigned CommsIntField::commsRangeDeprecatedSinceInternal(unsigned deprecatedSince) const
+{
+    if (genParseObj().parseDeprecatedSince() <= deprecatedSince) {
+        // Deprecation of the whole field doesn't invalidate its values
+        return commsdsl::parse::ParseProtocol::parseNotYetDeprecated();
+    }
+
+    return deprecatedSince;
+}
+
 bool CommsIntField::commsRequiresFailOnInvalidRefreshInternal() const
 {
     if ((!genParseObj().parseIsFailOnInvalid()) ||
diff --git a/app/commsdsl2comms/src/CommsIntField.h b/app/commsdsl2comms/src/CommsIntField.h
index d21bb52..429dd5e 100644
--- a/app/commsdsl2comms/src/CommsIntField.h
+++ b/app/commsdsl2comms/src/CommsIntField.h
@@ -80,6 +80,7 @@ private:
     void commsAddCustomRefreshOptInternal(GenStringsList& opts) const;
     void commsAddAvailableLengthLimitOptInternal(GenStringsList& opts) const;
     bool commsRequiresFailOnInvalidRefreshInternal() const;
+    unsigned commsRangeDeprecatedSinceInternal(unsigned deprecatedSince) const;
 };
 
 } // namespace commsdsl2comms
diff --git a/app/commsdsl2comms/src/CommsSetField.cpp b/app/commsdsl2comms/src/CommsSetField.cpp
index af5eab2..46d3c12 100644
--- a/app/commsdsl2comms/src/CommsSetField.cpp
+++ b/app/commsdsl2comms/src/CommsSetField.cpp
@@ -138,6 +138,17 @@ std::string CommsSetField::commsDefValidFuncBodyImpl() const
         return strings::genEmptyString();
     }
 
+    auto bitDeprecatedSinceFunc =
+        [&obj](unsigned deprecatedSince)
+        {
+            if (obj.parseDeprecatedSince() <= deprecatedSince) {
+                // Deprecation of the whole field doesn't make its bits reserved
+                return commsdsl::parse::ParseProtocol::parseNotYetDeprecated();
+            }
+
+            return deprecatedSince;
+        };
+
     using Key = std::tuple<unsigned, unsigned>;
     struct Value
     {
@@ -168,7 +179,7 @@ std::string CommsSetField::commsDefValidFuncBodyImpl() const
             continue; // handled in options
         }
 
-        auto key = std::make_tuple(b.second.m_sinceVersion, b.second.m_deprecatedSince);
+        auto key = std::make_tuple(b.second.m_sinceVersion, bitDeprecatedSinceFunc(b.second.m_deprecatedSince));
         auto& elem = bitsToCheck[key];
 
         auto bitMask = static_cast<std::uintmax_t>(1U) << b.second.m_idx;
@@ -258,7 +269,7 @@ std::string CommsSetField::commsDefValidFuncBodyImpl() const
                 continue;
             }
 
-            versionRanges.push_back(std::make_pair(bitIter->second.m_sinceVersion, bitIter->second.m_deprecatedSince));
+            versionRanges.push_back(std::make_pair(bitIter->second.m_sinceVersion, bitDeprecatedSinceFunc(bitIter->second.m_deprecatedSince)));
         }
 
         std::sort(
@@ -280,8 +291,8 @@ std::string CommsSetField::commsDefValidFuncBodyImpl() const
             prev = newPrev;
         }
 
-        if (prev < obj.parseDeprecatedSince()) {
-            versionRanges.push_back(std::make_pair(prev, obj.parseDeprecatedSince()));
+        if (prev < commsdsl::parse::ParseProtocol::parseNotYetDeprecated()) {
+            versionRanges.push_back(std::make_pair(prev, commsdsl::parse::ParseProtocol::parseNotYetDeprecated()));
         }
 
         // unify ranges;
-- 
2.43.0


From c816e0dbdb6eca77c4842a0eedd40de85ca2d1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:58 +0000
Subject: [PATCH 46/82] fix: names map of enum values has only existing values

---
 app/commsdsl2comms/src/CommsEnumField.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index e22ed78..efa2987 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -849,6 +849,12 @@ std::string CommsEnumField::commsCommonValueNamesMapDirectBodyInternal() const
             continue;
         }
 
+        auto existsIter = values.find(v.second);
+        if ((existsIter != values.end()) &&
+            (!genDoesMemberExist(existsIter->second.m_sinceVersion, existsIter->second.m_deprecatedSince, false))) {
+            continue;
+        }
+
         while (nextValue < v.first) {
             names.push_back("nullptr");
             ++nextValue;
@@ -889,6 +895,10 @@ std::string CommsEnumField::commsCommonValueNamesMapDirectBodyInternal() const
         for (auto iter = allRevValues.first; iter != allRevValues.second; ++iter) {
             auto vIter = values.find(iter->second);
             assert(vIter != values.end());
+            if (!genDoesMemberExist(vIter->second.m_sinceVersion, vIter->second.m_deprecatedSince, false)) {
+                continue;
+            }
+
             if (thisSchema.genSchemaVersion() < vIter->second.m_deprecatedSince) {
                 addElementNameFunc(*vIter);
                 foundNotDeprecated = true;
@@ -1009,6 +1019,10 @@ std::string CommsEnumField::commsCommonValueNameBinSearchPairsInternal() const
         for (auto iter = allRevValues.first; iter != allRevValues.second; ++iter) {
             auto vIter = values.find(iter->second);
             assert(vIter != values.end());
+            if (!genDoesMemberExist(vIter->second.m_sinceVersion, vIter->second.m_deprecatedSince, false)) {
+                continue;
+            }
+
             if (currSchema.genSchemaVersion() < vIter->second.m_deprecatedSince) {
                 addElementNameFunc(*vIter);
                 foundNotDeprecated = true;
-- 
2.43.0


From 302ef5000ecfd421cb47e97dec3159ab5da279a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:58 +0000
Subject: [PATCH 47/82] fix: empty value in the last line of a template isn't
 an error

---
 lib/src/gen/util.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/src/gen/util.cpp b/lib/src/gen/util.cpp
index 0d5809b..e233740 100644
--- a/lib/src/gen/util.cpp
+++ b/lib/src/gen/util.cpp
@@ -573,9 +573,7 @@ std::string genProcessTemplate(const std::string& templ, const GenReplacementMap
 
             auto nextNewLinePos = templ.find_first_of('\n', suffixPos + Suffix.size());
             if (nextNewLinePos == std::string::npos) {
-                [[maybe_unused]] static constexpr bool Incorrect_template = false;
-                assert(Incorrect_template);
-                break;
+                nextNewLinePos = templ.size(); // The last line
             }
 
             std::string postStr(templ.begin() + afterSuffixPos, templ.begin() + nextNewLinePos);
@@ -585,7 +583,7 @@ std::string genProcessTemplate(const std::string& templ, const GenReplacementMap
             }
 
             posToCopyUntil = lineStartPos;
-            nextTemplPos = nextNewLinePos + 1;
+            nextTemplPos = std::min(nextNewLinePos + 1, templ.size());
         } while (false);
 
         result.insert(result.end(), templ.begin() + templPos, templ.begin() + posToCopyUntil);
-- 
2.43.0


From 89a8959e71cdbd4a1398e277aa1f6f42f2305279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:58 +0000
Subject: [PATCH 48/82] fix: commsdsl2c must not crash on a schema without
 frames

---
 app/commsdsl2c/src/CDoxygen.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/commsdsl2c/src/CDoxygen.cpp b/app/commsdsl2c/src/CDoxygen.cpp
index cbe5100..1dd4a23 100644
--- a/app/commsdsl2c/src/CDoxygen.cpp
+++ b/app/commsdsl2c/src/CDoxygen.cpp
@@ -375,6 +375,10 @@ bool CDoxygen::cWriteMainpageInternal() const
 
 std::string CDoxygen::cInputDocInternal() const
 {
+    if (m_frames.empty()) {
+        return strings::genEmptyString();
+    }
+
     util::GenStringsList frameItems;
     for (auto* f : m_frames) {
         static const std::string Templ =
-- 
2.43.0


From 5658f3b1f2f40095708fd52e4763843fcad43394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:58 +0000
Subject: [PATCH 49/82] fix: commsdsl2test has to report a schema without
 frames

---
 app/commsdsl2test/src/TestCmake.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2test/src/TestCmake.cpp b/app/commsdsl2test/src/TestCmake.cpp
index aad8b21..95a777c 100644
--- a/app/commsdsl2test/src/TestCmake.cpp
+++ b/app/commsdsl2test/src/TestCmake.cpp
@@ -56,7 +56,11 @@ bool TestCmake::testWriteInternal() const
     auto interfaceScope = commsdsl::gen::comms::genScopeFor(*firstInterface, m_testGenerator);
 
     auto allFrames = m_testGenerator.genGetAllFrames();
-    assert(!allFrames.empty());
+    if (allFrames.empty()) {
+        m_testGenerator.genLogger().genError("The protocol definition has no frame to test.");
+        return false;
+    }
+
     auto* firstFrame = allFrames.front();
     assert(!firstFrame->genName().empty());
 
-- 
2.43.0


From 4bd837228ef6e31675328e23ee1103cfb10a6cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:58 +0000
Subject: [PATCH 50/82] fix: commsdsl2tools_qt has to report a schema without
 frames

---
 app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
index 3758be8..094abf7 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
@@ -221,7 +221,11 @@ bool ToolsQtGenerator::genPrepareImpl()
 
         if (info.m_frame.empty()) {
             auto allFrames = genGetAllFrames();
-            assert(!allFrames.empty());
+            if (allFrames.empty()) {
+                genLogger().genError("The protocol definition has no frame to use in the plugin.");
+                return false;
+            }
+
             info.m_frame = allFrames.front()->genParseObj().parseExternalRef();
         }
 
-- 
2.43.0


From ccee644b30ccd28c6465f7cd73540b02355801e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:05 +0000
Subject: [PATCH 51/82] fix: version dependency of the referenced fields

A bundle, bitfield, variant, list or optional whose members (or element) are
references to fields depending on the version was generated as not depending
on the version itself, so the version wasn't propagated to these members.
---
 app/commsdsl2comms/src/CommsListField.cpp     | 36 +++++++++----------
 app/commsdsl2comms/src/CommsOptionalField.cpp |  7 +++-
 app/commsdsl2comms/src/CommsRefField.cpp      |  6 ++++
 app/commsdsl2comms/src/CommsRefField.h        |  1 +
 4 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsListField.cpp b/app/commsdsl2comms/src/CommsListField.cpp
index 4d44fec..7d390d7 100644
--- a/app/commsdsl2comms/src/CommsListField.cpp
+++ b/app/commsdsl2comms/src/CommsListField.cpp
@@ -459,27 +459,23 @@ bool CommsListField::commsIsLimitedCustomizableImpl() const
 
 bool CommsListField::commsIsVersionDependentImpl() const
 {
-    if ((m_commsMemberElementField != nullptr) && (m_commsMemberElementField->commsIsVersionDependent())) {
-        return true;
-    }
-
-    if ((m_commsMemberCountPrefixField != nullptr) && (m_commsMemberCountPrefixField->commsIsVersionDependent())) {
-        return true;
-    }
-
-    if ((m_commsMemberLengthPrefixField != nullptr) && (m_commsMemberLengthPrefixField->commsIsVersionDependent())) {
-        return true;
-    }
-
-    if ((m_commsMemberElemLengthPrefixField != nullptr) && (m_commsMemberElemLengthPrefixField->commsIsVersionDependent())) {
-        return true;
-    }
-
-    if ((m_commsMemberTermSuffixField != nullptr) && (m_commsMemberTermSuffixField->commsIsVersionDependent())) {
-        return true;
-    }
+    auto isVersionDependent =
+        [](const CommsField* field)
+        {
+            return (field != nullptr) && (field->commsIsVersionDependent());
+        };
 
-    return false;
+    return
+        isVersionDependent(m_commsExternalElementField) ||
+        isVersionDependent(m_commsMemberElementField) ||
+        isVersionDependent(m_commsExternalCountPrefixField) ||
+        isVersionDependent(m_commsMemberCountPrefixField) ||
+        isVersionDependent(m_commsExternalLengthPrefixField) ||
+        isVersionDependent(m_commsMemberLengthPrefixField) ||
+        isVersionDependent(m_commsExternalElemLengthPrefixField) ||
+        isVersionDependent(m_commsMemberElemLengthPrefixField) ||
+        isVersionDependent(m_commsExternalTermSuffixField) ||
+        isVersionDependent(m_commsMemberTermSuffixField);
 }
 
 std::string CommsListField::commsMembersCustomizationOptionsBodyImpl(CommsFieldOptsFunc fieldOptsFunc) const
diff --git a/app/commsdsl2comms/src/CommsOptionalField.cpp b/app/commsdsl2comms/src/CommsOptionalField.cpp
index eaae26b..b293253 100644
--- a/app/commsdsl2comms/src/CommsOptionalField.cpp
+++ b/app/commsdsl2comms/src/CommsOptionalField.cpp
@@ -477,7 +477,12 @@ std::string CommsOptionalField::commsDefBundledRefreshFuncBodyImpl(const CommsFi
 
 bool CommsOptionalField::commsIsVersionDependentImpl() const
 {
-    return (m_commsMemberField != nullptr) && (m_commsMemberField->commsIsVersionDependent());
+    auto* field = m_commsExternalField;
+    if (field == nullptr) {
+        field = m_commsMemberField;
+    }
+
+    return (field != nullptr) && (field->commsIsVersionDependent());
 }
 
 std::string CommsOptionalField::commsMembersCustomizationOptionsBodyImpl(CommsFieldOptsFunc fieldOptsFunc) const
diff --git a/app/commsdsl2comms/src/CommsRefField.cpp b/app/commsdsl2comms/src/CommsRefField.cpp
index e198e29..f5854cd 100644
--- a/app/commsdsl2comms/src/CommsRefField.cpp
+++ b/app/commsdsl2comms/src/CommsRefField.cpp
@@ -142,6 +142,12 @@ bool CommsRefField::commsIsLimitedCustomizableImpl() const
     return m_commsReferencedField->commsIsFieldCustomizable();
 }
 
+bool CommsRefField::commsIsVersionDependentImpl() const
+{
+    assert(m_commsReferencedField != nullptr);
+    return m_commsReferencedField->commsIsVersionDependent();
+}
+
 bool CommsRefField::commsDefHasNameFuncImpl() const
 {
     auto parseObj = genRefFieldParseObj();
diff --git a/app/commsdsl2comms/src/CommsRefField.h b/app/commsdsl2comms/src/CommsRefField.h
index 4bc54ff..e36c289 100644
--- a/app/commsdsl2comms/src/CommsRefField.h
+++ b/app/commsdsl2comms/src/CommsRefField.h
@@ -48,6 +48,7 @@ protected:
     virtual CommsIncludesList commsDefIncludesImpl() const override;
     virtual std::string commsDefBaseClassImpl() const override;
     virtual bool commsIsLimitedCustomizableImpl() const override;
+    virtual bool commsIsVersionDependentImpl() const override;
     virtual bool commsDefHasNameFuncImpl() const override;
     virtual std::size_t commsMinLengthImpl() const override;
     virtual std::size_t commsMaxLengthImpl() const override;
-- 
2.43.0


From 872cb9baef2eb2acffddcc205e4df0d637f85ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:53 +0000
Subject: [PATCH 52/82] fix: minimal length of fixed size lists with version
 dependent element members

---
 app/commsdsl2comms/src/CommsListField.cpp | 20 ++++++++++++++++++++
 app/commsdsl2comms/src/CommsListField.h   |  1 +
 2 files changed, 21 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsListField.cpp b/app/commsdsl2comms/src/CommsListField.cpp
index 7d390d7..8a5d7da 100644
--- a/app/commsdsl2comms/src/CommsListField.cpp
+++ b/app/commsdsl2comms/src/CommsListField.cpp
@@ -531,6 +531,26 @@ CommsListField::GenStringsList CommsListField::commsExtraBareMetalDefaultOptions
         };
 }
 
+std::size_t CommsListField::commsMinLengthImpl() const
+{
+    auto result = CommsBase::commsMinLengthImpl();
+    auto count = genListFieldParseObj().parseFixedCount();
+    if ((count == 0U) || (result == comms::genMaxPossibleLength())) {
+        return result;
+    }
+
+    auto* elementField = m_commsExternalElementField;
+    if (elementField == nullptr) {
+        elementField = m_commsMemberElementField;
+    }
+
+    // Version dependent members of the element may be missing
+    assert(elementField != nullptr);
+    auto elemLength = elementField->commsGenField().genParseObj().parseMinLength();
+    auto elemMinLength = std::min(elementField->commsMinLength(), elemLength);
+    return result - ((elemLength - elemMinLength) * count);
+}
+
 std::size_t CommsListField::commsMaxLengthImpl() const
 {
     auto obj = genListFieldParseObj();
diff --git a/app/commsdsl2comms/src/CommsListField.h b/app/commsdsl2comms/src/CommsListField.h
index cc08a3e..cc65254 100644
--- a/app/commsdsl2comms/src/CommsListField.h
+++ b/app/commsdsl2comms/src/CommsListField.h
@@ -53,6 +53,7 @@ protected:
     virtual bool commsIsVersionDependentImpl() const override;
     virtual std::string commsMembersCustomizationOptionsBodyImpl(CommsFieldOptsFunc fieldOptsFunc) const override;
     virtual GenStringsList commsExtraBareMetalDefaultOptionsImpl() const override;
+    virtual std::size_t commsMinLengthImpl() const override;
     virtual std::size_t commsMaxLengthImpl() const override;
     virtual std::string commsSizeAccessStrImpl(const std::string& accStr, const std::string& prefix) const override;
 
-- 
2.43.0


From d462e775e60b1c49f91bd987fba3404d5deda2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:01 +0000
Subject: [PATCH 53/82] fix: existence conditions of fields that always exist
 in the generated code

---
 app/commsdsl2comms/src/CommsOptionalField.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsOptionalField.cpp b/app/commsdsl2comms/src/CommsOptionalField.cpp
index b293253..9945023 100644
--- a/app/commsdsl2comms/src/CommsOptionalField.cpp
+++ b/app/commsdsl2comms/src/CommsOptionalField.cpp
@@ -852,7 +852,8 @@ std::string CommsOptionalField::commsDslCondToStringFieldExistsCompInternal(
     auto optConds = field->commsCompOptChecks(accStr, prefix);
 
     if (optConds.empty()) {
-        return strings::genEmptyString();
+        // The field always exists
+        return op.empty() ? "true" : "false";
     }
 
     auto condsStr = util::genStrListToString(optConds, " &&\n", "");
-- 
2.43.0


From 3de24128cea10043977d529bb1775169164e36e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:01 +0000
Subject: [PATCH 54/82] fix: type of the interface fields in comparison of two
 fields

---
 app/commsdsl2comms/src/CommsOptionalField.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsOptionalField.cpp b/app/commsdsl2comms/src/CommsOptionalField.cpp
index 9945023..ae3ebd8 100644
--- a/app/commsdsl2comms/src/CommsOptionalField.cpp
+++ b/app/commsdsl2comms/src/CommsOptionalField.cpp
@@ -771,8 +771,7 @@ std::string CommsOptionalField::commsDslCondToStringFieldFieldCompInternal(
     auto valueStr = rightPrefix + rightField->commsValueAccessStr(rightAccStr);
     auto typeCast = leftField->commsCompValueCastType(leftAccStr);
     if (!typeCast.empty()) {
-        auto accName = comms::genAccessName(leftField->commsGenField().genParseObj().parseName());
-        valueStr = "static_cast<typename Field_" + accName + "::" + typeCast + ">(" + valueStr + ")";
+        valueStr = "static_cast<typename " + commsGetFieldTypePrefixInternal(*leftField) + leftAccName + "::" + typeCast + ">(" + valueStr + ")";
     }
 
     auto expr = leftPrefix + leftField->commsValueAccessStr(leftAccStr) + ' ' + op + ' ' + valueStr;
-- 
2.43.0


From 94ef51cd7535fc64a8cd14826593ec8214b8d374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:01 +0000
Subject: [PATCH 55/82] fix: construct conditions with interface fields on the
 right and with strings

---
 app/commsdsl2comms/src/CommsMessage.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsMessage.cpp b/app/commsdsl2comms/src/CommsMessage.cpp
index e4581fb..7520a32 100644
--- a/app/commsdsl2comms/src/CommsMessage.cpp
+++ b/app/commsdsl2comms/src/CommsMessage.cpp
@@ -157,18 +157,21 @@ void commsUpdateConstructExprInternal(
             return;
         }
 
-        valStr = rightInfo.first->commsValueAccessStr(rightInfo.second, commsInterfaceFieldAccStrInternal(*rightInfo.first));
+        valStr = "Base::" + rightInfo.first->commsValueAccessStr(rightInfo.second, commsInterfaceFieldAccStrInternal(*rightInfo.first));
     }
     else {
         valStr = leftInfo.first->commsCompPrepValueStr(leftInfo.second, right);
     }
 
+    if (!castType.empty()) {
+        valStr = "static_cast<typename Base::" + castType + ">(" + valStr + ")";
+    }
+
     static const std::string Templ =
-        "Base::#^#ACC#$#.value() = static_cast<typename Base::#^#CAST#$#>(#^#VAL#$#);\n";
+        "Base::#^#ACC#$#.value() = #^#VAL#$#;\n";
 
     util::GenReplacementMap repl = {
         {"ACC", std::move(leftFieldAccess)},
-        {"CAST", std::move(castType)},
         {"VAL", std::move(valStr)}
     };
 
-- 
2.43.0


From 5fe59fd1e336fa60b2d7b786c5bc22579c031ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:01 +0000
Subject: [PATCH 56/82] fix: big unsigned enum values in the conditions

---
 app/commsdsl2comms/src/CommsEnumField.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index efa2987..a330111 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -27,6 +27,7 @@
 #include <cassert>
 #include <cctype>
 #include <iterator>
+#include <stdexcept>
 
 namespace util = commsdsl::gen::util;
 namespace comms = commsdsl::gen::comms;
@@ -511,6 +512,14 @@ std::string CommsEnumField::commsCompPrepValueStrImpl([[maybe_unused]] const std
         auto val = static_cast<std::intmax_t>(std::stoll(value, nullptr, 0));
         return util::genNumToString(val);
     }
+    catch (const std::out_of_range&) {
+        try {
+            return util::genNumToString(static_cast<std::uintmax_t>(std::stoull(value, nullptr, 0)));
+        }
+        catch (...) {
+            // nothing to do
+        }
+    }
     catch (...) {
         // nothing to do
     }
-- 
2.43.0


From 63da94aebe9c5aaa0d7a9cc5d65366075dddce5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:01 +0000
Subject: [PATCH 57/82] fix: order comparison of the empty variant fields

---
 app/commsdsl2comms/src/CommsVariantField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsVariantField.cpp b/app/commsdsl2comms/src/CommsVariantField.cpp
index 879db2b..cf88078 100644
--- a/app/commsdsl2comms/src/CommsVariantField.cpp
+++ b/app/commsdsl2comms/src/CommsVariantField.cpp
@@ -757,7 +757,7 @@ std::string CommsVariantField::commsDefCopyCodeInternal() const
         "bool operator<(const #^#CLASS_NAME#$##^#SUFFIX#$##^#ORIG#$#& other) const\n"
         "{\n"
         "    if (!Base::currentFieldValid()) {\n"
-        "        return (!other.currentFieldValid());\n"
+        "        return other.currentFieldValid();\n"
         "    }\n\n"
         "    if (!other.currentFieldValid()) {\n"
         "        return false;\n"
-- 
2.43.0


From 8385ae5bab590d9f44e87e012e56a7a2773a6f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:21 +0000
Subject: [PATCH 58/82] fix: last member of variants which cannot be read with
 the key of the others

---
 app/commsdsl2comms/src/CommsIntField.cpp     | 17 +++++++++++++
 app/commsdsl2comms/src/CommsIntField.h       |  1 +
 app/commsdsl2comms/src/CommsVariantField.cpp | 25 ++++++++++++++++++++
 3 files changed, 43 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsIntField.cpp b/app/commsdsl2comms/src/CommsIntField.cpp
index d92ee55..a07a3cb 100644
--- a/app/commsdsl2comms/src/CommsIntField.cpp
+++ b/app/commsdsl2comms/src/CommsIntField.cpp
@@ -143,6 +143,23 @@ bool CommsIntField::commsVariantIsPropKeyEquivalent(const CommsIntField& other)
     return thisDslObj.parseEndian() == otherDslObj.parseEndian();
 }
 
+bool CommsIntField::commsVariantIsCatchAllKey(const CommsIntField& propKey) const
+{
+    auto obj = genIntFieldParseObj();
+    auto keyObj = propKey.genIntFieldParseObj();
+
+    return
+        (!obj.parseIsFailOnInvalid()) &&
+        (!obj.parseIsPseudo()) &&
+        (!obj.parseAvailableLengthLimit()) &&
+        (obj.parseType() == keyObj.parseType()) &&
+        (obj.parseEndian() == keyObj.parseEndian()) &&
+        (obj.parseMinLength() == keyObj.parseMinLength()) &&
+        (obj.parseMaxLength() == keyObj.parseMaxLength()) &&
+        (obj.parseSerOffset() == keyObj.parseSerOffset()) &&
+        (obj.parseSignExt() == keyObj.parseSignExt());
+}
+
 bool CommsIntField::genPrepareImpl()
 {
     return GenBase::genPrepareImpl() && commsPrepare();
diff --git a/app/commsdsl2comms/src/CommsIntField.h b/app/commsdsl2comms/src/CommsIntField.h
index 429dd5e..b603dbc 100644
--- a/app/commsdsl2comms/src/CommsIntField.h
+++ b/app/commsdsl2comms/src/CommsIntField.h
@@ -38,6 +38,7 @@ public:
     std::string commsVariantPropKeyValueStr() const;
     bool commsVariantIsValidPropKey() const;
     bool commsVariantIsPropKeyEquivalent(const CommsIntField& other) const;
+    bool commsVariantIsCatchAllKey(const CommsIntField& propKey) const;
 
 protected:
     // GenBase overrides
diff --git a/app/commsdsl2comms/src/CommsVariantField.cpp b/app/commsdsl2comms/src/CommsVariantField.cpp
index cf88078..73ef0d6 100644
--- a/app/commsdsl2comms/src/CommsVariantField.cpp
+++ b/app/commsdsl2comms/src/CommsVariantField.cpp
@@ -121,6 +121,26 @@ bool commsPropKeysEquivalent(const CommsField& first, const CommsField& second)
     return static_cast<const CommsIntField&>(first).commsVariantIsPropKeyEquivalent(static_cast<const CommsIntField&>(second));
 }
 
+// The last member can be used when all the known keys didn't match only if it
+// starts with the key serialised in the same way and accepting any value.
+bool commsBundleIsCatchAllInternal(const CommsBundleField& bundle, const CommsField& propKey)
+{
+    auto& members = bundle.commsMembers();
+    if (members.empty()) {
+        return false;
+    }
+
+    auto* first = members.front();
+    if (first->commsGenField().genParseObj().parseKind() != commsdsl::parse::ParseField::ParseKind::Int) {
+        return false;
+    }
+
+    auto& keyField = static_cast<const CommsIntField&>(*first);
+    return
+        (!keyField.commsHasGeneratedReadCode()) &&
+        keyField.commsVariantIsCatchAllKey(static_cast<const CommsIntField&>(propKey));
+}
+
 const CommsField* commsGetReferenceFieldInternal(const CommsField* field)
 {
     while (field->commsGenField().genParseObj().parseKind() == commsdsl::parse::ParseField::ParseKind::Ref) {
@@ -1095,6 +1115,11 @@ std::string CommsVariantField::commsOptimizedReadKeyInternal() const
 
         if (!validPropKey) {
             // last "catch all" element
+            assert(propKey != nullptr);
+            if (!commsBundleIsCatchAllInternal(bundle, *propKey)) {
+                return result;
+            }
+
             continue;
         }
 
-- 
2.43.0


From e5536f8b078f1a6dd193caa1e1d78e0275c58785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:21 +0000
Subject: [PATCH 59/82] fix: version of the last member of variants

---
 app/commsdsl2comms/src/CommsVariantField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsVariantField.cpp b/app/commsdsl2comms/src/CommsVariantField.cpp
index 73ef0d6..ff23f34 100644
--- a/app/commsdsl2comms/src/CommsVariantField.cpp
+++ b/app/commsdsl2comms/src/CommsVariantField.cpp
@@ -415,7 +415,7 @@ std::string CommsVariantField::commsDefReadFuncBodyImpl() const
         };
 
         if (m->commsIsVersionDependent()) {
-            auto assignStr = "field_" + bundleAccName + ".setVersion(Base::getVersion());";
+            auto assignStr = "accessField_" + bundleAccName + "().setVersion(Base::getVersion());";
             repl["VERSION_ASSIGN"] = std::move(assignStr);
         }
 
-- 
2.43.0


From dbb9c31fc64d0d38392182f0c07220e89e78b257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:21 +0000
Subject: [PATCH 60/82] fix: bundles with their own reading as members of
 variants

---
 app/commsdsl2comms/src/CommsField.cpp        |  2 +-
 app/commsdsl2comms/src/CommsVariantField.cpp | 23 ++++++++++++++++++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index 90fbd9c..2509c83 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -210,7 +210,7 @@ bool CommsField::commsHasMembersCode() const
 
 bool CommsField::commsHasGeneratedReadCode() const
 {
-    return !commsDefReadFuncBodyImpl().empty();
+    return m_customCode.m_hasRead || (!commsDefReadFuncBodyImpl().empty());
 }
 
 std::size_t CommsField::commsMinLength() const
diff --git a/app/commsdsl2comms/src/CommsVariantField.cpp b/app/commsdsl2comms/src/CommsVariantField.cpp
index ff23f34..9bbfd59 100644
--- a/app/commsdsl2comms/src/CommsVariantField.cpp
+++ b/app/commsdsl2comms/src/CommsVariantField.cpp
@@ -383,7 +383,7 @@ std::string CommsVariantField::commsDefReadFuncBodyImpl() const
                 "        auto& field_#^#BUNDLE_NAME#$# = initField_#^#BUNDLE_NAME#$#();\n"
                 "        COMMS_ASSERT(field_#^#BUNDLE_NAME#$#.field_#^#KEY_NAME#$#().getValue() == commonKeyField.getValue());\n"
                 "        #^#VERSION_ASSIGN#$#\n"
-                "        return field_#^#BUNDLE_NAME#$#.template readFrom<1>(iter, len);\n"
+                "        #^#READ#$#\n"
                 "    }";
 
             util::GenReplacementMap repl = {
@@ -392,6 +392,16 @@ std::string CommsVariantField::commsDefReadFuncBodyImpl() const
                 {"KEY_NAME", keyAccName},
             };
 
+            if (m->commsHasGeneratedReadCode()) {
+                // The members cannot be read without the code of the bundle
+                repl["READ"] =
+                    "iter = origIter;\n"
+                    "return field_" + bundleAccName + ".read(iter, len + consumedLen);";
+            }
+            else {
+                repl["READ"] = "return field_" + bundleAccName + ".template readFrom<1>(iter, len);";
+            }
+
             if (m->commsIsVersionDependent()) {
                 auto assignStr = "field_" + bundleAccName + ".setVersion(Base::getVersion());";
                 repl["VERSION_ASSIGN"] = std::move(assignStr);
@@ -407,13 +417,22 @@ std::string CommsVariantField::commsDefReadFuncBodyImpl() const
             "default:\n"
             "    initField_#^#BUNDLE_NAME#$#().field_#^#KEY_NAME#$#().setValue(commonKeyField.getValue());\n"
             "    #^#VERSION_ASSIGN#$#\n"
-            "    return accessField_#^#BUNDLE_NAME#$#().template readFrom<1>(iter, len);";
+            "    #^#READ#$#";
 
         util::GenReplacementMap repl = {
             {"BUNDLE_NAME", bundleAccName},
             {"KEY_NAME", keyAccName},
         };
 
+        if (m->commsHasGeneratedReadCode()) {
+            repl["READ"] =
+                "iter = origIter;\n"
+                "return accessField_" + bundleAccName + "().read(iter, len + consumedLen);";
+        }
+        else {
+            repl["READ"] = "return accessField_" + bundleAccName + "().template readFrom<1>(iter, len);";
+        }
+
         if (m->commsIsVersionDependent()) {
             auto assignStr = "accessField_" + bundleAccName + "().setVersion(Base::getVersion());";
             repl["VERSION_ASSIGN"] = std::move(assignStr);
-- 
2.43.0


From 96ea4d00bc5329e0dc3b6d7ec219f9f48a5c34a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:56 +0000
Subject: [PATCH 61/82] fix: types of members in local variants with many
 members

---
 app/commsdsl2comms/src/CommsVariantField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsVariantField.cpp b/app/commsdsl2comms/src/CommsVariantField.cpp
index 9bbfd59..922acbf 100644
--- a/app/commsdsl2comms/src/CommsVariantField.cpp
+++ b/app/commsdsl2comms/src/CommsVariantField.cpp
@@ -886,7 +886,7 @@ std::string CommsVariantField::commsDefAccessCodeGeneratedInternal() const
 
     auto membersPrefix = comms::genClassName(genParseObj().parseName()) + strings::genMembersSuffixStr();
     auto docScope = membersPrefix + "::";
-    auto typeScope = "typename " + membersPrefix + "<TOpt>::";
+    auto typeScope = "typename " + membersPrefix + (comms::genIsGlobalField(*this) ? "<TOpt>::" : "::");
     for (auto& m : m_commsMembers) {
         auto accName = comms::genAccessName(m->commsGenField().genParseObj().parseName());
         auto className = comms::genClassName(m->commsGenField().genParseObj().parseName());
-- 
2.43.0


From d47f10b49d0c18c4d8a14862bf5e45dd8590cc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:12 +0000
Subject: [PATCH 62/82] fix: messages and interfaces of nested namespaces were
 not generated

---
 lib/src/gen/GenNamespace.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/src/gen/GenNamespace.cpp b/lib/src/gen/GenNamespace.cpp
index 418654b..ea393b9 100644
--- a/lib/src/gen/GenNamespace.cpp
+++ b/lib/src/gen/GenNamespace.cpp
@@ -183,6 +183,10 @@ public:
 
     void genSetAllInterfacesReferenced()
     {
+        for (auto& nPtr : m_namespaces) {
+            nPtr->genSetAllInterfacesReferenced();
+        }
+
         for (auto& iPtr : m_interfaces) {
             iPtr->genSetReferenced(true);
         }
@@ -190,6 +194,10 @@ public:
 
     void genSetAllMessagesReferenced()
     {
+        for (auto& nPtr : m_namespaces) {
+            nPtr->genSetAllMessagesReferenced();
+        }
+
         for (auto& mPtr : m_messages) {
             mPtr->genSetReferenced(true);
         }
-- 
2.43.0


From 9b6b832d23abbe524fd157db34a01c12f3307d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:21 +0000
Subject: [PATCH 63/82] fix: headers and scopes of messages lists, dispatch,
 factories and ids of nested namespaces

---
 lib/src/gen/comms.cpp | 59 +++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 36 deletions(-)

diff --git a/lib/src/gen/comms.cpp b/lib/src/gen/comms.cpp
index 4343d97..0fb7b36 100644
--- a/lib/src/gen/comms.cpp
+++ b/lib/src/gen/comms.cpp
@@ -76,6 +76,20 @@ std::string genScopeForElement(
     return result;
 }
 
+std::vector<std::string> genNamespaceNamesInternal(const GenNamespace& ns)
+{
+    std::vector<std::string> result;
+    const GenElem* elem = &ns;
+    while ((elem != nullptr) && (elem->genElemType() == GenElem::GenType_Namespace)) {
+        if (!elem->genName().empty()) {
+            result.insert(result.begin(), elem->genName());
+        }
+        elem = elem->genGetParent();
+    }
+
+    return result;
+}
+
 void genAddElemNamespaceScopeInternal(
     GenElem::GenType elemType,
     const GenElem* parent,
@@ -372,10 +386,7 @@ std::string genScopeForInput(
     bool addMainNamespace,
     bool addElement)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceNamesInternal(ns);
     subElems.push_back(strings::genInputNamespaceStr());
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, addElement);
@@ -388,10 +399,7 @@ std::string genScopeForFactory(
     bool addMainNamespace,
     bool addElement)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceNamesInternal(ns);
     subElems.push_back(strings::genFactoryNamespaceStr());
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, addElement);
@@ -404,10 +412,7 @@ std::string genScopeForDispatch(
     bool addMainNamespace,
     bool addElement)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceNamesInternal(ns);
     subElems.push_back(strings::genCispatchNamespaceStr());
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, addElement);
@@ -431,10 +436,7 @@ std::string genScopeForNamespaceMember(
     bool addMainNamespace,
     bool addElement)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceNamesInternal(ns);
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, addElement);
 }
@@ -511,10 +513,7 @@ std::string genRelHeaderForOptions(const std::string& name, const GenGenerator&
 
 std::string genRelHeaderForDispatch(const std::string& name, const GenGenerator& generator, const GenNamespace& ns)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceNamesInternal(ns);
 
     subElems.push_back(strings::genCispatchNamespaceStr());
     return genScopeForElement(name, generator, subElems, true, true, GenPathSep) + strings::genCppHeaderSuffixStr();
@@ -522,10 +521,7 @@ std::string genRelHeaderForDispatch(const std::string& name, const GenGenerator&
 
 std::string genRelHeaderForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceNamesInternal(ns);
 
     subElems.push_back(strings::genFactoryNamespaceStr());
     return genScopeForElement(name, generator, subElems, true, true, GenPathSep) + strings::genCppHeaderSuffixStr();
@@ -539,20 +535,14 @@ std::string genRelHeaderForMsgId(const std::string& name, const GenGenerator& ge
 
 std::string genRelHeaderForNamespaceMember(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceNamesInternal(ns);
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, true, GenPathSep) + strings::genCppHeaderSuffixStr();
 }
 
 std::string genRelSourceForNamespaceMember(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceNamesInternal(ns);
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, true, GenPathSep) + strings::genCppSourceSuffixStr();
 }
@@ -579,10 +569,7 @@ std::string genRelHeaderForChecksum(const std::string& name, const GenGenerator&
 
 std::string genRelHeaderForInput(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceNamesInternal(ns);
 
     subElems.push_back(strings::genInputNamespaceStr());
 
-- 
2.43.0


From 296d74658d9836f7d355f1cb07b6dc2b90e750c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:10 +0000
Subject: [PATCH 64/82] fix: refuse defaultValue and reservedValue of a set
 given more than once

---
 lib/src/parse/ParseSetFieldImpl.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/src/parse/ParseSetFieldImpl.cpp b/lib/src/parse/ParseSetFieldImpl.cpp
index 9184241..80f9a1e 100644
--- a/lib/src/parse/ParseSetFieldImpl.cpp
+++ b/lib/src/parse/ParseSetFieldImpl.cpp
@@ -459,6 +459,10 @@ bool ParseSetFieldImpl::parseUpdateValidCheckVersion()
 bool ParseSetFieldImpl::parseUpdateDefaultValue()
 {
     auto& propName = common::parseDefaultValueStr();
+    if (!parseValidateSinglePropInstance(propName)) {
+        return false;
+    }
+
     auto iter = parseProps().find(propName);
     if (iter == parseProps().end()) {
         return true;
@@ -475,6 +479,10 @@ bool ParseSetFieldImpl::parseUpdateDefaultValue()
 bool ParseSetFieldImpl::parseUpdateReservedValue()
 {
     auto& propName = common::parseReservedValueStr();
+    if (!parseValidateSinglePropInstance(propName)) {
+        return false;
+    }
+
     auto iter = parseProps().find(propName);
     if (iter == parseProps().end()) {
         return true;
-- 
2.43.0


From b90ebd10233a6de80063d14d55170ef0d61abb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:27 +0000
Subject: [PATCH 65/82] fix: generate the lists of messages a frame refers to
 when its namespace has none

---
 app/commsdsl2comms/src/CommsNamespace.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsNamespace.cpp b/app/commsdsl2comms/src/CommsNamespace.cpp
index 0979199..c82fe63 100644
--- a/app/commsdsl2comms/src/CommsNamespace.cpp
+++ b/app/commsdsl2comms/src/CommsNamespace.cpp
@@ -425,11 +425,15 @@ bool CommsNamespace::genWriteImpl() const
         return false;
     }
 
-    if ((!genHasFramesRecursive()) ||
-        (!genHasMessagesRecursive())) {
+    if (!genHasFramesRecursive()) {
         return true;
     }
 
+    if (!genHasMessagesRecursive()) {
+        // The frame definitions refer to the (empty) lists of messages
+        return m_input.commsWrite();
+    }
+
     return
         m_dispatch.commsWrite() &&
         m_factory.commsWrite() &&
-- 
2.43.0


From 08bcd1547710dc9bd0298043e5f3fad239076bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:27 +0000
Subject: [PATCH 66/82] fix: list the sources of every C interface once and
 those of nested namespaces always

---
 app/commsdsl2c/src/CNamespace.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/app/commsdsl2c/src/CNamespace.cpp b/app/commsdsl2c/src/CNamespace.cpp
index 35d2eb6..061a44e 100644
--- a/app/commsdsl2c/src/CNamespace.cpp
+++ b/app/commsdsl2c/src/CNamespace.cpp
@@ -72,22 +72,25 @@ const CInterface* CNamespace::cInterface() const
 
 void CNamespace::cAddSourceFiles(GenStringsList& sources) const
 {
+    cAddSourceFilesInternal<CNamespace>(genNamespaces(), sources);
+
     if (!cCodeGenerationAllowed()) {
         genGenerator().genLogger().genDebug("No suitable interface for namespace, i.e. no includes " + genName());
         return;
     }
 
-    cAddSourceFilesInternal<CNamespace>(genNamespaces(), sources);
     cAddSourceFilesInternal<CField>(genFields(), sources);
     cAddSourceFilesInternal<CMessage>(genMessages(), sources);
     cAddSourceFilesInternal<CFrame>(genFrames(), sources);
 
     auto* iFace = cInterface();
-    iFace->cAddSourceFiles(sources);
-
-    if (!genInterfaces().empty()) {
-        m_msgHandler.cAddSourceFiles(sources);
+    if (iFace->genGetParent() != this) {
+        // Listed by the namespace of the interface
+        return;
     }
+
+    iFace->cAddSourceFiles(sources);
+    m_msgHandler.cAddSourceFiles(sources);
 }
 
 bool CNamespace::cCodeGenerationAllowed() const
-- 
2.43.0


From 070597461d780849baa3297322a38a1c2d2a181b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:27 +0000
Subject: [PATCH 67/82] fix: C list of messages only where there are frames to
 use it

---
 app/commsdsl2c/src/CNamespace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2c/src/CNamespace.cpp b/app/commsdsl2c/src/CNamespace.cpp
index 061a44e..311e9a6 100644
--- a/app/commsdsl2c/src/CNamespace.cpp
+++ b/app/commsdsl2c/src/CNamespace.cpp
@@ -157,7 +157,7 @@ bool CNamespace::genWriteImpl() const
         return true;
     }
 
-    if (!m_input.cWrite()) {
+    if ((genHasFramesRecursive()) && (!m_input.cWrite())) {
         return false;
     }
 
-- 
2.43.0


From 243dff9e3006e603e457709332fa08b7002c3d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:53 +0000
Subject: [PATCH 68/82] fix: emscripten bindings skip frames which have no
 interface or no messages to be read

---
 app/commsdsl2emscripten/src/EmscriptenFrame.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/app/commsdsl2emscripten/src/EmscriptenFrame.cpp b/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
index 3f5207b..d8ab675 100644
--- a/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
@@ -101,12 +101,23 @@ bool EmscriptenFrame::genPrepareImpl()
     }
 
     auto* iFace = emscriptenInterfaceInternal();
+    m_validFrame = false;
     do {
         if (iFace == nullptr) {
             genGenerator().genLogger().genDebug("No valid interface for frame " + genName());
             break;
         }
 
+        auto* inputNs = emscriptenFindInputNamespace();
+        if (inputNs == nullptr) {
+            inputNs = EmscriptenNamespace::emscriptenCast(static_cast<const commsdsl::gen::GenNamespace*>(iFace->genParentNamespace()));
+        }
+
+        if (!inputNs->emscriptenHasInput()) {
+            genGenerator().genLogger().genDebug("No input messages for frame " + genName());
+            break;
+        }
+
         m_validFrame =
             std::all_of(
                 m_emscriptenLayers.begin(), m_emscriptenLayers.end(),
-- 
2.43.0


From a53ee96bb545d8248d79cb7e97446c16e53e629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:53 +0000
Subject: [PATCH 69/82] fix: swig bindings skip messages and frames which have
 no interface, find messages of frames in outer namespaces

---
 app/commsdsl2swig/src/SwigFrame.cpp     | 21 +++++++++++++++++++--
 app/commsdsl2swig/src/SwigMessage.cpp   | 14 +++++++++++---
 app/commsdsl2swig/src/SwigNamespace.cpp |  2 +-
 3 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/app/commsdsl2swig/src/SwigFrame.cpp b/app/commsdsl2swig/src/SwigFrame.cpp
index 7a36d92..209c93c 100644
--- a/app/commsdsl2swig/src/SwigFrame.cpp
+++ b/app/commsdsl2swig/src/SwigFrame.cpp
@@ -102,6 +102,8 @@ bool SwigFrame::genPrepareImpl()
     }
 
     m_validFrame =
+        (swigInterfaceInternal() != nullptr) &&
+        (swigInputInternal() != nullptr) &&
         std::all_of(
             m_swigLayers.begin(), m_swigLayers.end(),
             [](auto* l)
@@ -394,8 +396,23 @@ const SwigMsgHandler* SwigFrame::swigMsgHandlerInternal() const
 
 const SwigInputMessages* SwigFrame::swigInputInternal() const
 {
-    auto* parentNs = SwigNamespace::swigCast(genParentNamespace());
-    return parentNs->swigInputMessages();
+    for (auto* parent = genGetParent(); parent != nullptr; parent = parent->genGetParent()) {
+        if (parent->genElemType() != commsdsl::gen::GenElem::GenType_Namespace) {
+            break;
+        }
+
+        auto* input = SwigNamespace::swigCast(static_cast<const commsdsl::gen::GenNamespace*>(parent))->swigInputMessages();
+        if (input != nullptr) {
+            return input;
+        }
+    }
+
+    auto* iFace = swigInterfaceInternal();
+    if (iFace == nullptr) {
+        return nullptr;
+    }
+
+    return SwigNamespace::swigCast(iFace->genParentNamespace())->swigInputMessages();
 }
 
 } // namespace commsdsl2swig
diff --git a/app/commsdsl2swig/src/SwigMessage.cpp b/app/commsdsl2swig/src/SwigMessage.cpp
index 6e80416..08b117b 100644
--- a/app/commsdsl2swig/src/SwigMessage.cpp
+++ b/app/commsdsl2swig/src/SwigMessage.cpp
@@ -46,7 +46,8 @@ SwigMessage::~SwigMessage() = default;
 
 void SwigMessage::swigAddCodeIncludes(GenStringsList& list) const
 {
-    if (!genIsReferenced()) {
+    if ((!genIsReferenced()) ||
+        (swigGetInterfaceInternal() == nullptr)) {
         return;
     }
 
@@ -55,7 +56,8 @@ void SwigMessage::swigAddCodeIncludes(GenStringsList& list) const
 
 void SwigMessage::swigAddCode(GenStringsList& list) const
 {
-    if (!genIsReferenced()) {
+    if ((!genIsReferenced()) ||
+        (swigGetInterfaceInternal() == nullptr)) {
         return;
     }
 
@@ -131,7 +133,8 @@ void SwigMessage::swigAddCode(GenStringsList& list) const
 
 void SwigMessage::swigAddDef(GenStringsList& list) const
 {
-    if (!genIsReferenced()) {
+    if ((!genIsReferenced()) ||
+        (swigGetInterfaceInternal() == nullptr)) {
         return;
     }
 
@@ -164,6 +167,11 @@ bool SwigMessage::genPrepareImpl()
 bool SwigMessage::genWriteImpl() const
 {
     assert(genIsReferenced());
+    if (swigGetInterfaceInternal() == nullptr) {
+        genGenerator().genLogger().genDebug("No valid interface for message " + genName());
+        return true;
+    }
+
     auto filePath = comms::genHeaderPathFor(*this, genGenerator());
     auto dirPath = util::genPathUp(filePath);
     assert(!dirPath.empty());
diff --git a/app/commsdsl2swig/src/SwigNamespace.cpp b/app/commsdsl2swig/src/SwigNamespace.cpp
index 77e26d1..e314e9e 100644
--- a/app/commsdsl2swig/src/SwigNamespace.cpp
+++ b/app/commsdsl2swig/src/SwigNamespace.cpp
@@ -101,7 +101,7 @@ void SwigNamespace::swigAddCode(GenStringsList& list) const
         SwigMessage::swigCast(m.get())->swigAddCode(list);
     }
 
-    if (swigHasInput()) {
+    if (swigHasInput() && (iFace != nullptr)) {
         m_input.swigAddCode(list);
     }
 
-- 
2.43.0


From 45ecb048d6882b85c280400657adfc2056039f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:53 +0000
Subject: [PATCH 70/82] fix: tools_qt sources of messages in nested namespaces
 were not built, lists had messages the version does not have

---
 app/commsdsl2tools_qt/src/ToolsQtMessage.cpp    |  4 ++++
 app/commsdsl2tools_qt/src/ToolsQtMessage.h      |  5 +++++
 app/commsdsl2tools_qt/src/ToolsQtMsgFactory.cpp |  7 +++++++
 app/commsdsl2tools_qt/src/ToolsQtNamespace.cpp  | 11 +++++++----
 4 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/app/commsdsl2tools_qt/src/ToolsQtMessage.cpp b/app/commsdsl2tools_qt/src/ToolsQtMessage.cpp
index 5684eb0..eed6115 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtMessage.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtMessage.cpp
@@ -48,6 +48,10 @@ std::string ToolsQtMessage::toolsHeaderPath(const commsdsl::gen::GenInterface& i
 
 ToolsQtMessage::GenStringsList ToolsQtMessage::toolsSourceFiles(const commsdsl::gen::GenInterface& iFace) const
 {
+    if (!m_exists) {
+        return GenStringsList();
+    }
+
     return GenStringsList{toolsRelPathInternal(iFace) + strings::genCppSourceSuffixStr()};
 }
 
diff --git a/app/commsdsl2tools_qt/src/ToolsQtMessage.h b/app/commsdsl2tools_qt/src/ToolsQtMessage.h
index 76dfd6a..87c7423 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtMessage.h
+++ b/app/commsdsl2tools_qt/src/ToolsQtMessage.h
@@ -41,6 +41,11 @@ public:
     GenStringsList toolsSourceFiles(const commsdsl::gen::GenInterface& iFace) const;
     std::string toolsClassScope(const commsdsl::gen::GenInterface& iFace) const;
 
+    bool toolsExists() const
+    {
+        return m_exists;
+    }
+
     static ToolsQtMessage& toolsCast(commsdsl::gen::GenMessage& msg)
     {
         return static_cast<ToolsQtMessage&>(msg);
diff --git a/app/commsdsl2tools_qt/src/ToolsQtMsgFactory.cpp b/app/commsdsl2tools_qt/src/ToolsQtMsgFactory.cpp
index 203e6c3..2e84f6c 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtMsgFactory.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtMsgFactory.cpp
@@ -243,6 +243,9 @@ std::string ToolsQtMsgFactory::toolsSourceCodeInternal(const commsdsl::gen::GenI
     auto allMessages = m_toolsGenerator.genGetAllMessagesIdSorted();
     for (auto* m : allMessages) {
         assert(m != nullptr);
+        if (!ToolsQtMessage::toolsCast(*m).toolsExists()) {
+            continue;
+        }
 
         scopes.push_back("cc_tools_qt::ToolsMessagePtr(new " + ToolsQtMessage::toolsCast(*m).toolsClassScope(iFace) + ")");
     }
@@ -262,6 +265,10 @@ std::string ToolsQtMsgFactory::toolsSourceIncludesInternal(const commsdsl::gen::
     for (auto* m : allMessages) {
         assert(m != nullptr);
         auto& castedMsg = ToolsQtMessage::toolsCast(*m);
+        if (!castedMsg.toolsExists()) {
+            continue;
+        }
+
         includes.push_back(castedMsg.toolsHeaderPath(iFace));
     }
 
diff --git a/app/commsdsl2tools_qt/src/ToolsQtNamespace.cpp b/app/commsdsl2tools_qt/src/ToolsQtNamespace.cpp
index 64e5b08..636809b 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtNamespace.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtNamespace.cpp
@@ -61,8 +61,12 @@ ToolsQtNamespace::GenStringsList ToolsQtNamespace::toolsSourceFiles(const ToolsQ
         addToResult(toolsMessage->toolsSourceFiles(interface));
     }
 
-    if (genHasFramesRecursive() &&
-        genHasMessagesRecursive()) {
+    for (auto& nsPtr : genNamespaces()) {
+        assert(nsPtr);
+        addToResult(static_cast<const ToolsQtNamespace*>(nsPtr.get())->toolsSourceFiles(interface));
+    }
+
+    if (genHasFramesRecursive()) {
         addToResult(m_factory.toolsSourceFiles(interface));
     }
 
@@ -81,8 +85,7 @@ std::string ToolsQtNamespace::toolsFactoryClassScope(const commsdsl::gen::GenInt
 
 bool ToolsQtNamespace::genWriteImpl() const
 {
-    if ((!genHasFramesRecursive()) ||
-        (!genHasMessagesRecursive())) {
+    if (!genHasFramesRecursive()) {
         return true;
     }
 
-- 
2.43.0


From 8f71a0a2bd5d57bf5dedf13fab6a6949655e7572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:41 +0000
Subject: [PATCH 71/82] fix: latex: frames with layers of optional fields

---
 app/commsdsl2latex/src/LatexFrame.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2latex/src/LatexFrame.cpp b/app/commsdsl2latex/src/LatexFrame.cpp
index d83529c..bbb3dae 100644
--- a/app/commsdsl2latex/src/LatexFrame.cpp
+++ b/app/commsdsl2latex/src/LatexFrame.cpp
@@ -18,6 +18,7 @@
 #include "LatexFrame.h"
 
 #include "LatexGenerator.h"
+#include "LatexOptionalField.h"
 
 #include "commsdsl/gen/strings.h"
 #include "commsdsl/gen/util.h"
@@ -231,9 +232,16 @@ std::string LatexFrame::latexLayers() const
             }
 
             if (memField != nullptr) {
-                auto* latexMemField = LatexField::latexCast(memField);
+                const LatexField* latexMemField = LatexField::latexCast(memField);
                 assert(latexMemField != nullptr);
 
+                if (memField->genParseObj().parseKind() == commsdsl::parse::ParseField::ParseKind::Optional) {
+                    auto* latexOptionalField = static_cast<const LatexOptionalField*>(memField);
+                    if (latexOptionalField->latexIsPassThroughToMember()) {
+                        latexMemField = LatexField::latexCast(latexOptionalField->genMemberField());
+                    }
+                }
+
                 layerRepl["FIELD_DESCRIPTION"] = latexMemField->latexDescription();
                 layerRepl["FIELD_INFO"] = latexMemField->latexInfoDetails();
                 layerRepl["FIELD_EXTRA"] = latexMemField->latexExtraDetails();
-- 
2.43.0


From f3805965373871af0819b9082ae9781574255459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:41 +0000
Subject: [PATCH 72/82] fix: C functions of optional fields and interface
 fields are defined with the names they are declared with

---
 app/commsdsl2c/src/CField.cpp         | 8 ++++----
 app/commsdsl2c/src/CInterface.cpp     | 2 +-
 app/commsdsl2c/src/COptionalField.cpp | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/app/commsdsl2c/src/CField.cpp b/app/commsdsl2c/src/CField.cpp
index 715d308..0e3a803 100644
--- a/app/commsdsl2c/src/CField.cpp
+++ b/app/commsdsl2c/src/CField.cpp
@@ -782,7 +782,7 @@ std::string CField::cSourceCommonFuncsInternal(bool forcedOptional) const
         "    return from#^#CONV_SUFFIX#$#(field)->length();\n"
         "}\n"
         "\n"
-        "const char* #^#NAME#$##^#SUFFIX#$#_name(const #^#NAME#$##^#SUFFX#$#* field)\n"
+        "const char* #^#NAME#$##^#SUFFIX#$#_name(const #^#NAME#$##^#SUFFIX#$#* field)\n"
         "{\n"
         "    return from#^#CONV_SUFFIX#$#(field)->name();\n"
         "}\n"
@@ -872,7 +872,7 @@ std::string CField::cHeaderOptionalCodeInternal() const
         "/// @brief Check the version dependent field @ref #^#NAME#$# is tentative.\n"
         "bool #^#NAME#$#_isTentative(const #^#NAME#$#* field);\n"
         "\n"
-        "/// @brief Force the version dependent field @ref #^#NAME#$# to be tenative\n"
+        "/// @brief Force the version dependent field @ref #^#NAME#$# to be tentative\n"
         "void #^#NAME#$#_setTentative(#^#NAME#$#* field);\n"
         ;
 
@@ -912,12 +912,12 @@ std::string CField::cSourceOptionalCodeInternal() const
         "    return from#^#CONV_SUFFIX#$#(field)->setMissing();\n"
         "}\n"
         "\n"
-        "bool #^#NAME#$#_isTenative(const #^#NAME#$#* field)\n"
+        "bool #^#NAME#$#_isTentative(const #^#NAME#$#* field)\n"
         "{\n"
         "    return from#^#CONV_SUFFIX#$#(field)->isTentative();\n"
         "}\n"
         "\n"
-        "void #^#NAME#$#_setTenative(#^#NAME#$#* field)\n"
+        "void #^#NAME#$#_setTentative(#^#NAME#$#* field)\n"
         "{\n"
         "    return from#^#CONV_SUFFIX#$#(field)->setTentative();\n"
         "}\n"
diff --git a/app/commsdsl2c/src/CInterface.cpp b/app/commsdsl2c/src/CInterface.cpp
index b5562c2..d7bd501 100644
--- a/app/commsdsl2c/src/CInterface.cpp
+++ b/app/commsdsl2c/src/CInterface.cpp
@@ -472,7 +472,7 @@ std::string CInterface::cSourceCodeInternal() const
     util::GenStringsList fieldsAcc;
     for (auto* f : m_cFields) {
         static const std::string AccTempl =
-            "#^#HANDLE#$#* #^#NAME#$#_field_#^#FIELD_ACC#$#(#^#NAME#$#* msg)\n"
+            "#^#HANDLE#$#* #^#NAME#$#_transportField_#^#FIELD_ACC#$#(#^#NAME#$#* msg)\n"
             "{\n"
             "    return to#^#CONV_SUFFIX#$#(&(fromInterfaceHandle(msg)->transportField_#^#FIELD_ACC#$#()));\n"
             "}\n"
diff --git a/app/commsdsl2c/src/COptionalField.cpp b/app/commsdsl2c/src/COptionalField.cpp
index 9d5951f..750b3f6 100644
--- a/app/commsdsl2c/src/COptionalField.cpp
+++ b/app/commsdsl2c/src/COptionalField.cpp
@@ -104,7 +104,7 @@ std::string COptionalField::cHeaderCodeImpl() const
         "/// @brief Check the optional field @ref #^#NAME#$##^#SUFFIX#$# is tentative.\n"
         "bool #^#NAME#$##^#SUFFIX#$#_isTentative(const #^#NAME#$##^#SUFFIX#$#* field);\n"
         "\n"
-        "/// @brief Force the optional field @ref #^#NAME#$##^#SUFFIX#$# to be tenative\n"
+        "/// @brief Force the optional field @ref #^#NAME#$##^#SUFFIX#$# to be tentative\n"
         "void #^#NAME#$##^#SUFFIX#$#_setTentative(#^#NAME#$##^#SUFFIX#$#* field);\n"
     ;
 
@@ -159,12 +159,12 @@ std::string COptionalField::cSourceCodeImpl() const
         "    return from#^#CONV_SUFFIX#$#(field)->setMissing();\n"
         "}\n"
         "\n"
-        "bool #^#NAME#$##^#SUFFIX#$#_isTenative(const #^#NAME#$##^#SUFFIX#$#* field)\n"
+        "bool #^#NAME#$##^#SUFFIX#$#_isTentative(const #^#NAME#$##^#SUFFIX#$#* field)\n"
         "{\n"
         "    return from#^#CONV_SUFFIX#$#(field)->isTentative();\n"
         "}\n"
         "\n"
-        "void #^#NAME#$##^#SUFFIX#$#_setTenative(#^#NAME#$##^#SUFFIX#$#* field)\n"
+        "void #^#NAME#$##^#SUFFIX#$#_setTentative(#^#NAME#$##^#SUFFIX#$#* field)\n"
         "{\n"
         "    return from#^#CONV_SUFFIX#$#(field)->setTentative();\n"
         "}\n"
-- 
2.43.0


From 6a8eae202da8a660566050645ecc09d4e2c3e538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:02 +0000
Subject: [PATCH 73/82] fix: options of the member fields of frame layers were
 left out of the options structures

---
 app/commsdsl2comms/src/CommsLayer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsLayer.cpp b/app/commsdsl2comms/src/CommsLayer.cpp
index 94c65d1..24725ae 100644
--- a/app/commsdsl2comms/src/CommsLayer.cpp
+++ b/app/commsdsl2comms/src/CommsLayer.cpp
@@ -442,7 +442,7 @@ std::string CommsLayer::commsCustomizationOptionsInternal(
             "///     @ref #^#SCOPE#$# layer field.\n"
             "struct #^#CLASS_NAME#$##^#SUFFIX#$##^#EXT#$#\n"
             "{\n"
-            "    #^#FIELD_OPT#$#\n"
+            "    #^#FIELD_OPTS#$#\n"
             "}; // struct #^#CLASS_NAME#$##^#SUFFIX#$#\n";
 
         util::GenReplacementMap repl = {
-- 
2.43.0


From 685bcf7e458ebc98f936d1d92873012ae61e3941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:02 +0000
Subject: [PATCH 74/82] fix: emscripten bindings of special values of int
 fields and of the version of the specification were left out

---
 app/commsdsl2emscripten/src/EmscriptenIntField.cpp | 4 ++--
 app/commsdsl2emscripten/src/EmscriptenVersion.cpp  | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2emscripten/src/EmscriptenIntField.cpp b/app/commsdsl2emscripten/src/EmscriptenIntField.cpp
index 870fb75..d86b6fb 100644
--- a/app/commsdsl2emscripten/src/EmscriptenIntField.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenIntField.cpp
@@ -54,7 +54,7 @@ std::string EmscriptenIntField::emscriptenHeaderExtraPublicFuncsImpl() const
         "{\n"
         "    return Base::hasSpecials();\n"
         "}\n\n"
-        "#^#SCPECIALS#$#\n"
+        "#^#SPECIALS#$#\n"
         "#^#DISPLAY_DECIMALS#$#\n"
         "#^#SCALED#$#\n";
 
@@ -70,7 +70,7 @@ std::string EmscriptenIntField::emscriptenHeaderExtraPublicFuncsImpl() const
 std::string EmscriptenIntField::emscriptenSourceBindFuncsImpl() const
 {
     static const std::string Templ =
-        "#^#SCPECIALS#$#\n"
+        "#^#SPECIALS#$#\n"
         "#^#DISPLAY_DECIMALS#$#\n"
         "#^#SCALED#$#\n";
 
diff --git a/app/commsdsl2emscripten/src/EmscriptenVersion.cpp b/app/commsdsl2emscripten/src/EmscriptenVersion.cpp
index 74888f5..02b8113 100644
--- a/app/commsdsl2emscripten/src/EmscriptenVersion.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenVersion.cpp
@@ -142,6 +142,7 @@ bool EmscriptenVersion::emscriptenWriteSrcInternal() const
         {"GENERATED", EmscriptenGenerator::emscriptenFileGeneratedComment()},
         {"HEADER", emscriptenRelHeader(m_emscriptenGenerator)},
         {"NAME", m_emscriptenGenerator.emscriptenScopeNameForRoot(strings::genVersionFileNameStr())},
+        {"SPEC", emscriptenSpecConstantsInternal()},
         {"PROT", emscriptenProtConstantsInternal()},
         {"CODE_VER", emscriptenCodeVerConstantsInternal()},
     };
-- 
2.43.0


From 911a383847013c9c4bb8e3d98cd069f11ead627d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:08 +0000
Subject: [PATCH 75/82] fix: fields of interfaces used options of a template
 parameter they do not have

The structure of the interface fields is not a template, customizable fields
(such as strings or lists) and external prefixes / elements / suffixes were
referring to non-existing TOpt.
---
 app/commsdsl2comms/src/CommsDataField.cpp   |  2 +-
 app/commsdsl2comms/src/CommsField.cpp       | 14 ++++++++++++++
 app/commsdsl2comms/src/CommsField.h         |  1 +
 app/commsdsl2comms/src/CommsListField.cpp   | 10 +++++-----
 app/commsdsl2comms/src/CommsStringField.cpp |  2 +-
 5 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsDataField.cpp b/app/commsdsl2comms/src/CommsDataField.cpp
index 9fd413a..e095fc0 100644
--- a/app/commsdsl2comms/src/CommsDataField.cpp
+++ b/app/commsdsl2comms/src/CommsDataField.cpp
@@ -488,7 +488,7 @@ void CommsDataField::commsAddLengthPrefixOptInternal(GenStringsList& opts) const
     else {
         assert(m_commsExternalPrefixField != nullptr);
         prefixName = comms::genScopeFor(m_commsExternalPrefixField->commsGenField(), genGenerator(), true, true);
-        prefixName += "<TOpt> ";
+        prefixName += commsExternalFieldTemplParams() + " ";
     }
 
     opts.push_back("comms::option::def::SequenceSerLengthFieldPrefix<" + prefixName + '>');
diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index 2509c83..d55871b 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -476,6 +476,11 @@ const CommsField* CommsField::commsFindSibling(const std::string& name) const
 
 bool CommsField::commsIsFieldCustomizable() const
 {
+    if (comms::genIsInterfaceDeepMemberField(m_genField)) {
+        // The fields of the interface are not templates, there are no options to use.
+        return false;
+    }
+
     auto& generator = static_cast<CommsGenerator&>(m_genField.genGenerator());
     auto level = generator.commsGetCustomizationLevel();
     if (level == CommsGenerator::CommsCustomizationLevel::Full) {
@@ -493,6 +498,15 @@ bool CommsField::commsIsFieldCustomizable() const
     return commsIsLimitedCustomizableImpl();
 }
 
+std::string CommsField::commsExternalFieldTemplParams() const
+{
+    if (comms::genIsInterfaceDeepMemberField(m_genField)) {
+        return "<>";
+    }
+
+    return "<TOpt>";
+}
+
 void CommsField::commsAppendCustomCode(
     const std::string& code,
     bool hasCode,
diff --git a/app/commsdsl2comms/src/CommsField.h b/app/commsdsl2comms/src/CommsField.h
index 44a87af..cb8cd30 100644
--- a/app/commsdsl2comms/src/CommsField.h
+++ b/app/commsdsl2comms/src/CommsField.h
@@ -96,6 +96,7 @@ public:
     const CommsField* commsFindSibling(const std::string& name) const;
 
     bool commsIsFieldCustomizable() const;
+    std::string commsExternalFieldTemplParams() const;
 
     static void commsAppendCustomCode(
         const std::string& code,
diff --git a/app/commsdsl2comms/src/CommsListField.cpp b/app/commsdsl2comms/src/CommsListField.cpp
index 8a5d7da..61f5e41 100644
--- a/app/commsdsl2comms/src/CommsListField.cpp
+++ b/app/commsdsl2comms/src/CommsListField.cpp
@@ -607,7 +607,7 @@ std::string CommsListField::commsDefElementInternal() const
     }
 
     assert(m_commsExternalElementField != nullptr);
-    return comms::genScopeFor(m_commsExternalElementField->commsGenField(), genGenerator()) + "<TOpt>";
+    return comms::genScopeFor(m_commsExternalElementField->commsGenField(), genGenerator()) + commsExternalFieldTemplParams();
 }
 
 void CommsListField::commsAddFixedLengthOptInternal(GenStringsList& opts) const
@@ -643,7 +643,7 @@ void CommsListField::commsAddCountPrefixOptInternal(GenStringsList& opts) const
     else {
         assert(m_commsExternalCountPrefixField != nullptr);
         prefixName = comms::genScopeFor(m_commsExternalCountPrefixField->commsGenField(), genGenerator(), true, true);
-        prefixName += "<TOpt> ";
+        prefixName += commsExternalFieldTemplParams() + " ";
     }
 
     opts.push_back("comms::option::def::SequenceSizeFieldPrefix<" + prefixName + '>');
@@ -667,7 +667,7 @@ void CommsListField::commsAddLengthPrefixOptInternal(GenStringsList& opts) const
     else {
         assert(m_commsExternalLengthPrefixField != nullptr);
         prefixName = comms::genScopeFor(m_commsExternalLengthPrefixField->commsGenField(), genGenerator(), true, true);
-        prefixName += "<TOpt> ";
+        prefixName += commsExternalFieldTemplParams() + " ";
     }
 
     opts.push_back("comms::option::def::SequenceSerLengthFieldPrefix<" + prefixName + '>');
@@ -691,7 +691,7 @@ void CommsListField::commsAddElemLengthPrefixOptInternal(GenStringsList& opts) c
     else {
         assert(m_commsExternalElemLengthPrefixField != nullptr);
         prefixName = comms::genScopeFor(m_commsExternalElemLengthPrefixField->commsGenField(), genGenerator(), true, true);
-        prefixName += "<TOpt> ";
+        prefixName += commsExternalFieldTemplParams() + " ";
     }
 
     std::string opt = "SequenceElemSerLengthFieldPrefix";
@@ -720,7 +720,7 @@ void CommsListField::commsAddTermSuffixOptInternal(GenStringsList& opts) const
     else {
         assert(m_commsExternalTermSuffixField != nullptr);
         suffixName = comms::genScopeFor(m_commsExternalTermSuffixField->commsGenField(), genGenerator(), true, true);
-        suffixName += "<TOpt> ";
+        suffixName += commsExternalFieldTemplParams() + " ";
     }
 
     opts.push_back("comms::option::def::SequenceTerminationFieldSuffix<" + suffixName + '>');
diff --git a/app/commsdsl2comms/src/CommsStringField.cpp b/app/commsdsl2comms/src/CommsStringField.cpp
index 55dee82..db8de25 100644
--- a/app/commsdsl2comms/src/CommsStringField.cpp
+++ b/app/commsdsl2comms/src/CommsStringField.cpp
@@ -493,7 +493,7 @@ void CommsStringField::commsAddLengthPrefixOptInternal(GenStringsList& opts) con
     else {
         assert(m_commsExternalPrefixField != nullptr);
         prefixName = comms::genScopeFor(m_commsExternalPrefixField->commsGenField(), genGenerator(), true, true);
-        prefixName += "<TOpt> ";
+        prefixName += commsExternalFieldTemplParams() + " ";
     }
 
     opts.push_back("comms::option::def::SequenceSerLengthFieldPrefix<" + prefixName + '>');
-- 
2.43.0


From f3e665a7114c7416c28f5b3671efee53260eea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:44 +0000
Subject: [PATCH 76/82] fix: message factory options of frames referred to an
 alias that is not defined for their namespace

---
 app/commsdsl2comms/src/CommsCustomLayer.cpp | 7 ++++++-
 app/commsdsl2comms/src/CommsIdLayer.cpp     | 7 ++++++-
 app/commsdsl2comms/src/CommsLayer.cpp       | 6 +++---
 app/commsdsl2comms/src/CommsNamespace.cpp   | 8 ++++++--
 app/commsdsl2comms/src/CommsNamespace.h     | 1 +
 5 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsCustomLayer.cpp b/app/commsdsl2comms/src/CommsCustomLayer.cpp
index 43fb273..2464922 100644
--- a/app/commsdsl2comms/src/CommsCustomLayer.cpp
+++ b/app/commsdsl2comms/src/CommsCustomLayer.cpp
@@ -103,9 +103,14 @@ CommsCustomLayer::GenStringsList CommsCustomLayer::commsExtraBareMetalDefaultOpt
 CommsCustomLayer::GenStringsList CommsCustomLayer::commsExtraMsgFactoryDefaultOptionsImpl() const
 {
     if (commsDefHasInputMessagesImpl()) {
+        auto alias = commsMsgFactoryAliasInOptions(genGetParent());
+        if (alias.empty()) {
+            return GenStringsList();
+        }
+
         return
             GenStringsList{
-                "comms::option::app::MsgFactoryTempl<" + commsMsgFactoryAliasInOptions(genGetParent()) + ">"
+                "comms::option::app::MsgFactoryTempl<" + alias + ">"
             };
     }
 
diff --git a/app/commsdsl2comms/src/CommsIdLayer.cpp b/app/commsdsl2comms/src/CommsIdLayer.cpp
index d26eb1b..cde9138 100644
--- a/app/commsdsl2comms/src/CommsIdLayer.cpp
+++ b/app/commsdsl2comms/src/CommsIdLayer.cpp
@@ -100,9 +100,14 @@ CommsIdLayer::GenStringsList CommsIdLayer::commsExtraBareMetalDefaultOptionsImpl
 
 CommsIdLayer::GenStringsList CommsIdLayer::commsExtraMsgFactoryDefaultOptionsImpl() const
 {
+    auto alias = commsMsgFactoryAliasInOptions(genGetParent());
+    if (alias.empty()) {
+        return GenStringsList();
+    }
+
     return
         GenStringsList{
-            "comms::option::app::MsgFactoryTempl<" + commsMsgFactoryAliasInOptions(genGetParent()) + ">"
+            "comms::option::app::MsgFactoryTempl<" + alias + ">"
         };
 }
 
diff --git a/app/commsdsl2comms/src/CommsLayer.cpp b/app/commsdsl2comms/src/CommsLayer.cpp
index 24725ae..43d1b74 100644
--- a/app/commsdsl2comms/src/CommsLayer.cpp
+++ b/app/commsdsl2comms/src/CommsLayer.cpp
@@ -354,12 +354,12 @@ std::string CommsLayer::commsMsgFactoryAliasInOptions(const commsdsl::gen::GenEl
             break;
         }
 
-        auto type = CommsNamespace::commsCast(static_cast<const commsdsl::gen::GenNamespace*>(parent))->commsMsgFactoryAliasType();
-        if (type.empty()) {
+        auto* ns = CommsNamespace::commsCast(static_cast<const commsdsl::gen::GenNamespace*>(parent));
+        if (!ns->commsHasMsgFactoryAlias()) {
             break;
         }
 
-        return type;
+        return ns->commsMsgFactoryAliasType();
     } while (false);
 
     return commsMsgFactoryAliasInOptions(parent->genGetParent());
diff --git a/app/commsdsl2comms/src/CommsNamespace.cpp b/app/commsdsl2comms/src/CommsNamespace.cpp
index c82fe63..9ad4a1b 100644
--- a/app/commsdsl2comms/src/CommsNamespace.cpp
+++ b/app/commsdsl2comms/src/CommsNamespace.cpp
@@ -366,6 +366,11 @@ const CommsField* CommsNamespace::commsFindValidInterfaceReferencedField(const s
     return nullptr;
 }
 
+bool CommsNamespace::commsHasMsgFactoryAlias() const
+{
+    return genHasFramesRecursive() && genHasMessagesRecursive();
+}
+
 std::string CommsNamespace::commsMsgFactoryAliasType() const
 {
     auto result = util::genStrReplace(comms::genScopeFor(*this, genGenerator(), false, true), "::" , "_");
@@ -378,8 +383,7 @@ std::string CommsNamespace::commsMsgFactoryAliasType() const
 
 std::string CommsNamespace::commsMsgFactoryAliasDef(const std::string& namePrefix, const std::string& typeSuffix) const
 {
-    if ((!genHasFramesRecursive()) ||
-        (!genHasMessagesRecursive())) {
+    if (!commsHasMsgFactoryAlias()) {
         return std::string();
     }
 
diff --git a/app/commsdsl2comms/src/CommsNamespace.h b/app/commsdsl2comms/src/CommsNamespace.h
index a2b7b18..0706f78 100644
--- a/app/commsdsl2comms/src/CommsNamespace.h
+++ b/app/commsdsl2comms/src/CommsNamespace.h
@@ -60,6 +60,7 @@ public:
 
     const CommsField* commsFindValidInterfaceReferencedField(const std::string& refStr) const;
 
+    bool commsHasMsgFactoryAlias() const;
     std::string commsMsgFactoryAliasType() const;
     std::string commsMsgFactoryAliasDef(const std::string& namePrefix, const std::string& typeSuffix) const;
     std::string commsRelHeaderPath(const std::string& namePrefix) const;
-- 
2.43.0


From 32feb8fc9add9fd4fea5930fdf830e6765d1186f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:44 +0000
Subject: [PATCH 77/82] fix: options of the payload field ignored the main
 namespace in the options structures

---
 app/commsdsl2comms/src/CommsPayloadLayer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsPayloadLayer.cpp b/app/commsdsl2comms/src/CommsPayloadLayer.cpp
index cd03cbc..501658b 100644
--- a/app/commsdsl2comms/src/CommsPayloadLayer.cpp
+++ b/app/commsdsl2comms/src/CommsPayloadLayer.cpp
@@ -141,7 +141,7 @@ std::string CommsPayloadLayer::commsCustomFieldDataViewOptsImpl() const
         {"CLASS_NAME", comms::genClassName(genParseObj().parseName())},
         {"SUFFIX", strings::genMembersSuffixStr()},
         {"SCOPE", comms::genScopeFor(*this, genGenerator())},
-        {"OPT_SCOPE", comms::genScopeFor(*this, genGenerator(), false, true)}
+        {"OPT_SCOPE", comms::genScopeFor(*this, genGenerator(), CommsGenerator::commsCast(genGenerator()).commsHasMainNamespaceInOptions(), true)}
     };
 
     return util::genProcessTemplate(Templ, repl);
@@ -165,7 +165,7 @@ std::string CommsPayloadLayer::commsCustomFieldBareMetalOptsImpl() const
         {"CLASS_NAME", comms::genClassName(genParseObj().parseName())},
         {"SUFFIX", strings::genMembersSuffixStr()},
         {"SCOPE", comms::genScopeFor(*this, genGenerator())},
-        {"OPT_SCOPE", comms::genScopeFor(*this, genGenerator(), false, true)}
+        {"OPT_SCOPE", comms::genScopeFor(*this, genGenerator(), CommsGenerator::commsCast(genGenerator()).commsHasMainNamespaceInOptions(), true)}
     };
 
     return util::genProcessTemplate(Templ, repl);
-- 
2.43.0


From 28294b88c5dae6b00be10c6c6c58e59c3136cfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:17 +0000
Subject: [PATCH 78/82] fix: unknown messages in the lists of messages
 triggered an assertion instead of being reported

---
 lib/src/gen/GenGenerator.cpp |  4 ++++
 lib/src/gen/GenNamespace.cpp |  4 ++++
 lib/src/gen/GenSchema.cpp    | 17 +++++++++++------
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 9cf55fb..d699c95 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -898,6 +898,10 @@ GenMessage* GenGenerator::genGindMessage(const std::string& externalRef)
 {
     auto* msg = m_impl->genGindMessage(externalRef);
     do {
+        if (msg == nullptr) {
+            break;
+        }
+
         if (msg->genIsPrepared()) {
             break;
         }
diff --git a/lib/src/gen/GenNamespace.cpp b/lib/src/gen/GenNamespace.cpp
index ea393b9..e114a07 100644
--- a/lib/src/gen/GenNamespace.cpp
+++ b/lib/src/gen/GenNamespace.cpp
@@ -767,6 +767,10 @@ const GenMessage* GenNamespace::genGindMessage(const std::string& externalRef) c
         fromPos = pos + 1U;
     }
     std::string remStr(externalRef, fromPos);
+    if (remStr.empty()) {
+        return nullptr;
+    }
+
     return (*nsIter)->genGindMessage(remStr);
 }
 
diff --git a/lib/src/gen/GenSchema.cpp b/lib/src/gen/GenSchema.cpp
index 2d2dd68..79c7820 100644
--- a/lib/src/gen/GenSchema.cpp
+++ b/lib/src/gen/GenSchema.cpp
@@ -165,9 +165,7 @@ public:
                 });
 
         if ((nsIter == m_namespaces.end()) || ((*nsIter)->genName() != nsName)) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
+            m_generator.genLogger().genError("Unknown reference to message: " + externalRef);
             return nullptr;
         }
 
@@ -176,11 +174,14 @@ public:
             fromPos = pos + 1U;
         }
         std::string remStr(externalRef, fromPos);
+        if (remStr.empty()) {
+            m_generator.genLogger().genError("Invalid reference to message: " + externalRef);
+            return nullptr;
+        }
+
         auto result = (*nsIter)->genGindMessage(remStr);
         if (result == nullptr) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
+            m_generator.genLogger().genError("Unknown reference to message: " + externalRef);
         }
         return result;
     }
@@ -591,6 +592,10 @@ GenMessage* GenSchema::genGindMessage(const std::string& externalRef)
 {
     auto* msg = m_impl->genGindMessage(externalRef);
     do {
+        if (msg == nullptr) {
+            break;
+        }
+
         if (msg->genIsPrepared()) {
             break;
         }
-- 
2.43.0


From 099092ec6bd942af8aa3163dfeaa9da6a5060ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:39 +0000
Subject: [PATCH 79/82] fix: failures to write the files of options were not
 reported

---
 app/commsdsl2comms/src/CommsDefaultOptions.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsDefaultOptions.cpp b/app/commsdsl2comms/src/CommsDefaultOptions.cpp
index 06f411c..a713a34 100644
--- a/app/commsdsl2comms/src/CommsDefaultOptions.cpp
+++ b/app/commsdsl2comms/src/CommsDefaultOptions.cpp
@@ -242,8 +242,7 @@ bool CommsDefaultOptions::commsWriteDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(strings::genDefaultOptionsClassStr(), m_commsGenerator, util::genProcessTemplate(Templ, repl, true));
-    return true;
+    return commsWriteFileInternal(strings::genDefaultOptionsClassStr(), m_commsGenerator, util::genProcessTemplate(Templ, repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteClientDefaultOptionsInternal() const
@@ -263,8 +262,7 @@ bool CommsDefaultOptions::commsWriteClientDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteServerDefaultOptionsInternal() const
@@ -284,8 +282,7 @@ bool CommsDefaultOptions::commsWriteServerDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteDataViewDefaultOptionsInternal() const
@@ -305,8 +302,7 @@ bool CommsDefaultOptions::commsWriteDataViewDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteBareMetalDefaultOptionsInternal() const
@@ -334,8 +330,7 @@ bool CommsDefaultOptions::commsWriteBareMetalDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteMsgFactoryDefaultOptionsInternal() const
@@ -518,8 +513,7 @@ bool CommsDefaultOptions::commsWriteSingleMsgFactoryDefaultOptionsInternal(
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsMsgFactoryOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsMsgFactoryOptionsTempl(), repl, true));
 }
 
 } // namespace commsdsl2comms
\ No newline at end of file
-- 
2.43.0


From 0ba30215d2cf72642a17f0a538499eafde235259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:39 +0000
Subject: [PATCH 80/82] fix: failures to update the copied source files to have
 proper main namespace were not reported

---
 lib/src/gen/GenGenerator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index d699c95..0000abb 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -1708,6 +1708,12 @@ bool GenGenerator::genCopyExtraSourceFiles(const std::vector<std::string>& reser
             }
 
             outStream << content;
+            outStream.flush();
+            if (!outStream.good()) {
+                genLogger().genError("Failed to modify " + destStr + ".");
+                return false;
+            }
+
             genLogger().genInfo("Updated " + destStr + " to have proper main namespace.");
         }
     }
-- 
2.43.0


From 6659bcf9e468f01989b9be48bbff240b80de908e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:28 +0000
Subject: [PATCH 81/82] fix: emscripten build files and tools_qt options
 referred to files not generated for the messages of other schemas

---
 app/commsdsl2emscripten/src/EmscriptenCmake.cpp     | 7 +++++--
 app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/app/commsdsl2emscripten/src/EmscriptenCmake.cpp b/app/commsdsl2emscripten/src/EmscriptenCmake.cpp
index 2cdccd5..17c1cad 100644
--- a/app/commsdsl2emscripten/src/EmscriptenCmake.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenCmake.cpp
@@ -130,10 +130,13 @@ bool EmscriptenCmake::emscriptenWriteInternal() const
     EmscriptenDataBuf::emscriptenAddSourceFiles(m_emscriptenGenerator, sources);
     EmscriptenVersion::emscriptenAddSourceFiles(m_emscriptenGenerator, sources);
 
-    for (auto& sPtr : m_emscriptenGenerator.genSchemas()) {
-        auto* s = EmscriptenSchema::emscriptenCast(sPtr.get());
+    auto& schemas = m_emscriptenGenerator.genSchemas();
+    for (auto idx = 0U; idx < schemas.size(); ++idx) {
+        m_emscriptenGenerator.genChooseCurrentSchema(idx);
+        auto* s = EmscriptenSchema::emscriptenCast(schemas[idx].get());
         s->emscriptenAddSourceFiles(sources);
     }
+    assert(m_emscriptenGenerator.genIsCurrentProtocolSchema());
 
     util::GenReplacementMap repl = {
         {"PROJ_NAME", m_emscriptenGenerator.genProtocolSchema().genMainNamespace()},
diff --git a/app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp b/app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp
index c68509b..66f0866 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp
@@ -55,7 +55,7 @@ std::string toolsBaseCodeInternal(const ToolsQtGenerator& generator, std::size_t
         return result;
     }
 
-    if (wrapWithFactoryOpts && generator.genCurrentSchema().genHasAnyReferencedMessage()) {
+    if (wrapWithFactoryOpts && generator.genIsCurrentProtocolSchema() && generator.genCurrentSchema().genHasAnyReferencedMessage()) {
         static const std::string Templ =
             "::#^#SCOPE#$#T<\n"
             "    #^#NEXT#$#\n"
@@ -175,7 +175,7 @@ bool ToolsQtDefaultOptions::toolsWriteInternal() const
             continue;
         }
 
-        if (m_toolsGenerator.genCurrentSchema().genHasAnyReferencedMessage()) {
+        if (m_toolsGenerator.genIsCurrentProtocolSchema() && m_toolsGenerator.genCurrentSchema().genHasAnyReferencedMessage()) {
             includes.push_back(comms::genRelHeaderForOptions(strings::genAllMessagesDynMemMsgFactoryDefaultOptionsClassStr(), m_toolsGenerator));
         }
 
-- 
2.43.0


From 4cefe3fb7373c001e8bad62050554f01bfb8f9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:12 +0000
Subject: [PATCH 82/82] fix: C bindings of special values referred to a wrong
 type when the field exists only in some versions

---
 app/commsdsl2c/src/CFloatField.cpp | 8 ++++++++
 app/commsdsl2c/src/CIntField.cpp   | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/app/commsdsl2c/src/CFloatField.cpp b/app/commsdsl2c/src/CFloatField.cpp
index c214260..e6188ad 100644
--- a/app/commsdsl2c/src/CFloatField.cpp
+++ b/app/commsdsl2c/src/CFloatField.cpp
@@ -147,6 +147,10 @@ std::string CFloatField::cHeaderSpecialsCodeInternal() const
             {"VALUE_TYPE", strings::genValueTypeStr()},
         };
 
+        if (cIsVersionOptional()) {
+            repl["SUFFIX"] = strings::genVersionOptionalFieldSuffixStr();
+        }
+
         specialsList.push_back(util::genProcessTemplate(Templ, repl));
     }
 
@@ -190,6 +194,10 @@ std::string CFloatField::cSourceSpecialsCodeInternal() const
             {"CONV_SUFFIX", cConversionSuffix()},
         };
 
+        if (cIsVersionOptional()) {
+            repl["SUFFIX"] = strings::genVersionOptionalFieldSuffixStr();
+        }
+
         specialsList.push_back(util::genProcessTemplate(Templ, repl));
     }
 
diff --git a/app/commsdsl2c/src/CIntField.cpp b/app/commsdsl2c/src/CIntField.cpp
index 9ed791b..2a0317c 100644
--- a/app/commsdsl2c/src/CIntField.cpp
+++ b/app/commsdsl2c/src/CIntField.cpp
@@ -163,6 +163,10 @@ std::string CIntField::cHeaderSpecialsCodeInternal() const
             {"VALUE_TYPE", strings::genValueTypeStr()},
         };
 
+        if (cIsVersionOptional()) {
+            repl["SUFFIX"] = strings::genVersionOptionalFieldSuffixStr();
+        }
+
         specialsList.push_back(util::genProcessTemplate(Templ, repl));
     }
 
@@ -206,6 +210,10 @@ std::string CIntField::cSourceSpecialsCodeInternal() const
             {"CONV_SUFFIX", cConversionSuffix()},
         };
 
+        if (cIsVersionOptional()) {
+            repl["SUFFIX"] = strings::genVersionOptionalFieldSuffixStr();
+        }
+
         specialsList.push_back(util::genProcessTemplate(Templ, repl));
     }
 
-- 
2.43.0

