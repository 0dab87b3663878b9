From 129d362d5384f8f7e3af2ca71390b017bf50829f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 01/71] fix: isCertain("min") looked up a component that does
 not exist and was always false

---
 src/result.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/result.cpp b/src/result.cpp
index 4ddd4a2..c4d0551 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -275,7 +275,7 @@ bool ParsedComponents::isCertain(std::string comp) {
         return knownValues["hour"].first;
 
     else if(!comp.compare("min"))
-        return knownValues["minute"].first;
+        return knownValues["min"].first;
 
     else if(!comp.compare("sec"))
         return knownValues["sec"].first;
-- 
2.43.0


From fe817e1c805f256591ef285fcf681f87ddd82233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 02/71] fix: setTag had no effect once the tag had been read
 with getTag

---
 src/result.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/result.cpp b/src/result.cpp
index c4d0551..e93b95d 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -458,8 +458,7 @@ size_t ParsedResult::textLength() const {
 }
 
 void ParsedResult::setTag(utils::Modifiers tag_name) {
-    if(tags.count(tag_name) < 1)
-        this->tags.insert({tag_name, true});
+    tags[tag_name] = true;
 }
 
 bool ParsedResult::isEmpty() const {
-- 
2.43.0


From fd27e696185da30aa5e47580d84ac01027c8bcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 03/71] fix: a date that is not on the calendar (Feb 31, year
 1200) was reported as a result and made toDate() throw

---
 src/result.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/result.cpp b/src/result.cpp
index e93b95d..1b19f6e 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -393,6 +393,16 @@ bool ParsedResult::hasPossibleDates() {
        startDate.getSeconds() == 0 and end() == false)
         return false;
 
+    // dates that are not on the calendar can not be rendered
+    try {
+        startDate.date();
+        if(end())
+            endDate.date();
+    }
+    catch (std::out_of_range&) {
+        return false;
+    }
+
     //return startDate.isPossibleDate() and (!end() or endDate.isPossibleDate());
     return true;
 }
-- 
2.43.0


From e2de926b5d1b882159b7ef354e4f870d3382db61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 04/71] fix: execute() let the exception through when an offset
 left the calendar, or a number did not fit

---
 src/parsers/parsers.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parsers/parsers.cpp b/src/parsers/parsers.cpp
index a4056df..d76800a 100644
--- a/src/parsers/parsers.cpp
+++ b/src/parsers/parsers.cpp
@@ -42,7 +42,11 @@ Result Parser::execute(std::string& text, posix_time::ptime& ref) {
         idx = match.position(0) + text.length() - remainingText.length();
 
         parse::ParsedResult res{};
-        res = extract(remainingText, match, ref, idx);
+        try {
+            res = extract(remainingText, match, ref, idx);
+        } catch (std::out_of_range& err) { // number or date out of range
+            std::cerr << err.what() << std::endl;
+        }
 
         if(/*!strictMode or */res.hasPossibleDates()) {
             results.push_back(res);
-- 
2.43.0


From 4a73d079770ab30afaf4ac08c748e22be7475fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 05/71] fix: day of the week pattern had mismatched parentheses
 and never matched

---
 src/parsers/en/ENDayOfTheWeekParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENDayOfTheWeekParser.hpp b/src/parsers/en/ENDayOfTheWeekParser.hpp
index 3f314c7..06e3888 100644
--- a/src/parsers/en/ENDayOfTheWeekParser.hpp
+++ b/src/parsers/en/ENDayOfTheWeekParser.hpp
@@ -23,10 +23,10 @@
             static const std::regex PATTERN {
                 R"((\b))"
                     R"((earl(?:ier|y)|late)?)"
-                        R"((?:\s*(this|last|next)\s*)?))"
+                        R"((?:\s*(this|last|next)\s*)?)"
                             R"((Sun(?:day)?|Mon(?:day)?|Tue(?:s(?:day)?)?|Wed(?:nesday)?|Thu(?:r(?:s(?:day)?)?)?|Fri(?:day)?|Sat(?:urday)?))"
                                 R"((?:\s*(this|last|next)\s*)?(?:(week)\s*)?)"
-                R"((\b)", /* part of pattern (on\s*)?*/
+                R"((\b))", /* part of pattern (on\s*)?*/
             std::regex::icase};
 
             return PATTERN;
-- 
2.43.0


From 67b4a94d0e20dcc40ab508e9b22d161b529a09f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 06/71] fix: "ago" pattern had doubly escaped whitespace and
 never matched

---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 22d6a8d..68c0bec 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -13,7 +13,7 @@
             static const std::regex PATTERN = std::regex(
                     R"((\b)(?:within\s*)?((?:((?:one|two|three|four|five|six|seven|eight|nine|)"
                     R"(ten|eleven|twelve)|[0-9]+|an?(?:\s*few)?|half(?:\s*an?)?)\s*(sec(?:onds?)?|)"
-                    R"(min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\\s*)+)(?:ago|before|earlier))"
+                    R"(min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\s*)+)(?:ago|before|earlier))"
                     R"((\b))", std::regex::icase);
             return PATTERN;
         }
-- 
2.43.0


From a55a45c6bdc21d88764c88651115e3b77f4b6446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 07/71] fix: "later" pattern had doubly escaped whitespace and
 a stray quote and never matched

---
 src/parsers/en/ENTimeLaterParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 30fed1f..a22cf1f 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -17,8 +17,8 @@
                         R"(((?:one|two|three|four|five|six|seven|eight|nine|ten|eleven|twelve)|)"
                         R"([0-9]+)"
                         R"(|an?(?:\s*few)?|half(?:\s+an?)?)"
-                    R"(")\s+)"
-                    R"((sec(?:onds?)?|min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\\s*)+))"
+                    R"()\s+)"
+                    R"((sec(?:onds?)?|min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\s*)+))"
                         R"((?:later|after|from now|henceforth|forward|out))"
                 R"((\b))", std::regex::icase};
             return PATTERN;
-- 
2.43.0


From 6f577f0379aa528709523a6d38065b97cd18bd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 08/71] fix: "ago" and "later" looked for the preceding
 character in the matched text instead of the whole text and threw

---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 2 +-
 src/parsers/en/ENTimeLaterParser.hpp     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 68c0bec..2e0022d 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -24,7 +24,7 @@
             std::string text = match.str(FULL_MATCH);
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
-            if(match.position(0) > 0 and std::regex_match(text.substr(match.position(0) - 1), std::regex("\\w"))) {
+            if(match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1), std::regex("\\w"))) {
                 return result;
             }
 
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index a22cf1f..326ff05 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -24,12 +24,12 @@
             return PATTERN;
         }
 
-        parse::ParsedResult extract(std::string&, const std::smatch& match, const posix_time::ptime& ref, long idx)
+        parse::ParsedResult extract(std::string& tx, const std::smatch& match, const posix_time::ptime& ref, long idx)
         override {
             std::string text = match.str(FULL_MATCH).substr(match.length(1));
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
-            if (match.position(0) > 0 and std::regex_match(text.substr(match.position(0) - 1), std::regex("\\w")))
+            if (match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1), std::regex("\\w")))
                 return result;
 
             std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
-- 
2.43.0


From 82a06f28d2f3442c45b6ba36369ebe57cb031f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 09/71] fix: "ago" ignored a unit that left the calendar and
 reported the remaining units, or the reference, instead of nothing

---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 2e0022d..55d0b7e 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -54,7 +54,7 @@
                 }
                 catch (std::out_of_range &e) {
                     std::cerr << e.what() << " at ENTimeAgoFormatParser" << std::endl;
-                    continue;
+                    return result;
                 }
             }
 
-- 
2.43.0


From 4f019fc472d46f744e6c69bf42028ae1b5c2cb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 10/71] fix: "ago" and "later" did not carry hours, minutes and
 seconds across midnight when combined with days, weeks, months or years

---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 4 ++++
 src/parsers/en/ENTimeLaterParser.hpp     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 55d0b7e..9635a67 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -58,6 +58,10 @@
                 }
             }
 
+            // the time units move on from the day that the date units lead to
+            date_t += date - ref.date();
+            date = date_t.date();
+
             if(fragments["hour"] > 0 or fragments["minute"] > 0 or fragments["second"] > 0) {
                 result.startDate.setHour(date_t.time_of_day().hours());
                 result.startDate.setMinute(date_t.time_of_day().minutes());
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 326ff05..591c8f1 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -63,6 +63,10 @@
                 }
             }
 
+            // the time units move on from the day that the date units lead to
+            date_t += date - ref.date();
+            date = date_t.date();
+
             if(fragments["hour"] > 0 or fragments["minute"] > 0 or fragments["second"] > 0) {
                 result.startDate.setHour(date_t.time_of_day().hours());
                 result.startDate.setMinute(date_t.time_of_day().minutes());
-- 
2.43.0


From 80da9a179be7ed04b0e38236b606f0ae5d4375d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 11/71] fix: "half a <unit>" ago/later was cut to zero

---
 src/utils/utils.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 1c00386..8f7366f 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -63,6 +63,19 @@ std::map<std::string, float> utils::collectDateTimeFragment(std::smatch match, s
     }
 
     std::string element{match[2].str()};
+    // offsets are whole numbers, so count half a unit in the next smaller one
+    if(num == 0.5f) {
+        static const std::map<std::string, std::pair<std::string, float> > halves{
+            {"year", {"month", 6}}, {"month", {"day", 15}}, {"week", {"day", 3}},
+            {"day", {"hour", 12}}, {"hour", {"minute", 30}}, {"min", {"second", 30}}};
+        for(const auto& half : halves) {
+            if(std::regex_search(element, std::regex(half.first, std::regex::icase))) {
+                fragments[half.second.first] += half.second.second;
+                return fragments;
+            }
+        }
+    }
+
     if(std::regex_search(element, std::regex("hour", std::regex::icase)))
         fragments["hour"] = num;
     else if(std::regex_search(element, std::regex("min", std::regex::icase)))
-- 
2.43.0


From 1f39c654ba61aa5d5d0a85a3828d1e744bbbe967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 12/71] fix: deadline that passes midnight stayed on the
 reference day

---
 src/parsers/en/ENDeadlineFormatParser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index 94257d3..fbd6f67 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -128,9 +128,9 @@
             } else if (!match.str(4).find("second")) {
                 tmpTime += posix_time::seconds(static_cast<int>(ceil(num)));
             }
-            result.startDate.implyComponent("year", tmpDate.year());
-            result.startDate.implyComponent("month", tmpDate.month());
-            result.startDate.implyComponent("mday", tmpDate.day());
+            result.startDate.implyComponent("year", tmpTime.date().year());
+            result.startDate.implyComponent("month", tmpTime.date().month());
+            result.startDate.implyComponent("mday", tmpTime.date().day());
             result.startDate.implyComponent("hour", tmpTime.time_of_day().hours());
             result.startDate.implyComponent("min", tmpTime.time_of_day().minutes());
             result.startDate.implyComponent("sec", tmpTime.time_of_day().seconds());
-- 
2.43.0


From 33b25fbaf418b752ab7a415cfa1fa61d076f06e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 13/71] fix: deadlines in hrs, mins, secs, wks and yrs were
 matched and then taken as zero

---
 src/parsers/en/ENDeadlineFormatParser.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index fbd6f67..abbc82e 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -61,7 +61,7 @@
              * so to support half (when num == 0.5) use lower time field
              * i.e: instead of hours(0.5) use minutes(30) e.t.c
              */
-            std::regex dwmy(("day|week|month|year"));
+            std::regex dwmy(("day|w|month|y"));
             if(std::regex_search(match.str(4), dwmy)) {
                 if(match.str(4).find("day") != std::string::npos) {
                     if(floor(num) == num) {
@@ -80,7 +80,7 @@
                         return result;
                     }
                 }
-                else if(match.str(4).find("week") != std::string::npos) {
+                else if(match.str(4).find("w") != std::string::npos) {
                     if(floor(num) == num) {
                         tmpDate += gregorian::weeks(num);
                     }
@@ -96,7 +96,7 @@
                         tmpDate += gregorian::days(15);
                     }
                 }
-                else if(match.str(4).find("year") != std::string::npos) {
+                else if(match.str(4).find("y") != std::string::npos) {
                     if(floor(num) == num) {
                         tmpDate += gregorian::years(num);
                     }
@@ -112,7 +112,7 @@
                 return result;
             }
 
-            if(!match.str(4).find("hour")) {
+            if(!match.str(4).find("h")) {
                 if(floor(num) == num) {
                     tmpTime += posix_time::hours(static_cast<int>(num));
                 }
@@ -120,12 +120,12 @@
                     tmpTime += posix_time::minutes(30);
                 }
             }
-            else if(!match.str(4).find("minute")) {
+            else if(!match.str(4).find("min")) {
                 if(floor(num) == num)
                     tmpTime += posix_time::minutes(static_cast<int>(num));
                 else
                     tmpTime += posix_time::seconds(30);
-            } else if (!match.str(4).find("second")) {
+            } else if (!match.str(4).find("sec")) {
                 tmpTime += posix_time::seconds(static_cast<int>(ceil(num)));
             }
             result.startDate.implyComponent("year", tmpTime.date().year());
-- 
2.43.0


From ca1fcd1a8df97eae9673c91634f8363ccc01ec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 14/71] fix: relative "min"/"mins" was matched and then taken
 as zero

---
 src/parsers/en/ENRelativeDateFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index f8277bb..e6530cf 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -232,7 +232,7 @@
                         tmpTime -= posix_time::minutes(30);
                     }
                 }
-            } else if (match.str(RELATIVE_WORD_GROUP).find("minute") != std::string::npos) {
+            } else if (match.str(RELATIVE_WORD_GROUP).find("min") != std::string::npos) {
                 if(std::floor(num) == num) {
                     if (!match.str(MODIFIER_WORD_GROUP).compare("next")) {
                         tmpTime += posix_time::minutes(static_cast<int>(num));
-- 
2.43.0


From b3a16c8a8ca5f24ebec0af3240e537cf1354cc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 15/71] fix: relative pattern took the number words with a
 leading space, so none was recognised

---
 src/parsers/en/ENRelativeDateFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index e6530cf..0e0ac40 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -16,7 +16,7 @@
 
         std::regex getPattern() const override {
             static const std::regex PATTERN = std::regex(
-                    R"((\b)(this|next|last|past)\s*( (?:one|two|three|four|five|six|seven|)"
+                    R"((\b)(this|next|last|past)\s*((?:one|two|three|four|five|six|seven|)"
                     R"(eight|nine|ten|eleven|twelve)|[0-9]+|few|half(?:\s*an?)?)?\s*(seconds?|)"
                     R"(min(?:ute)?s?|hour(?:s)?|day(?:s)?|week(?:s)?|month(?:s)?|year(?:s)?)(?=\s*))"
                     R"((\b))", std::regex::icase);
-- 
2.43.0


From 86869db0b2d45cb0750107c1c8e3702c639a354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 16/71] fix: "tomorrow " took the whitespace after it, which
 made a following time look like an overlap and dropped it

---
 src/parsers/en/ENCasualDateParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENCasualDateParser.hpp b/src/parsers/en/ENCasualDateParser.hpp
index c51a22b..51b40ef 100644
--- a/src/parsers/en/ENCasualDateParser.hpp
+++ b/src/parsers/en/ENCasualDateParser.hpp
@@ -13,7 +13,7 @@ namespace parser {
         std::regex getPattern() const override {
             static const std::regex PATTERN =
                     std::regex(R"((\b))"
-                               R"((now|today|tonight|last\s*night|(?:tomorrow|tmr|yesterday)\s*)"
+                               R"((now|today|tonight|last\s*night)"
                                R"(|tomorrow|tmr|yesterday))"
                                R"((\b))", std::regex::icase);
             return PATTERN;
-- 
2.43.0


From 7a1ee4379e48acf6b26aa0451f9221d33af47ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 17/71] fix: clock time: the implied meridiem was read
 uninitialized, and the end meridiem through a dangling reference

---
 src/parsers/en/ENTimeExpressionParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index eaad3f3..a851298 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -42,7 +42,7 @@
             }
 
             int hour{0}, minute{0};// tz{-1}, meridian{-1};
-            char ampm_s;
+            char ampm_s{0};
 
             //------------Seconds------------------
             if(!match.str(SECOND_GROUP).empty()) {
@@ -160,7 +160,7 @@
                     if(to_hour > 12)
                         return result;
 
-                    char &ampm = match.str(TO_MERIDIEM_GROUP)[0];
+                    char ampm = match.str(TO_MERIDIEM_GROUP)[0];
                     if(ampm == 'a')
                         if(to_hour == 12)
                             to_hour = 0;
-- 
2.43.0


From 8f5d8ae4aef6c1bdea3954f20249115a5bd10829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 18/71] fix: rejected clock times with seconds (10:75:30) were
 still reported, without a date

---
 src/parsers/en/ENTimeExpressionParser.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index a851298..6b5826d 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -44,15 +44,6 @@
             int hour{0}, minute{0};// tz{-1}, meridian{-1};
             char ampm_s{0};
 
-            //------------Seconds------------------
-            if(!match.str(SECOND_GROUP).empty()) {
-                unsigned short second = static_cast<unsigned short>(std::stoi(match.str(SECOND_GROUP)));
-                if(second >= 60)
-                    return result;
-
-                result.startDate.setSeconds(second);
-            }
-
             //--------------Hour------------------
             if(match.str(HOUR_GROUP) == "noon") {
                 // meridian = 1;
@@ -112,6 +103,15 @@
             }
             */
 
+            //------------Seconds------------------
+            if(!match.str(SECOND_GROUP).empty()) {
+                unsigned short second = static_cast<unsigned short>(std::stoi(match.str(SECOND_GROUP)));
+                if(second >= 60)
+                    return result;
+
+                result.startDate.setSeconds(second);
+            }
+
             result.startDate.setHour(hour);
             result.startDate.setMinute(minute);
 
-- 
2.43.0


From 6d372739edc623760fbe735b4eb74c05578ff71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 19/71] fix: a p.m. end time added twelve hours to a start time
 that was already in the afternoon

---
 src/parsers/en/ENTimeExpressionParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index 6b5826d..505ee9d 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -169,7 +169,7 @@
                         if(to_hour != 12)
                             to_hour += 12;
                         if(match.str(AM_PM_HOUR_GROUP).empty()) {
-                            if(hour != 12) {
+                            if(hour < 12) {
                                 hour += 12;
                                 result.startDate.setHour(hour);
                             }
-- 
2.43.0


From 826d15c5c80ca8a5e5cfeea9bd7bb1642fbfb769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 20/71] fix: length of a clock time left out the separator that
 its index points at

---
 src/parsers/en/ENTimeExpressionParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index 505ee9d..2d5c8a6 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -34,7 +34,7 @@
 
         parse::ParsedResult extract(std::string& tx, const std::smatch& match, const posix_time::ptime& ref, long idx)
         override {
-            std::string text = match.str(0).substr(match.length(1));
+            std::string text = match.str(0);
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
             if(match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1), std::regex("\\w"))) {
-- 
2.43.0


From d8fbeb1c297a4b43602092165e4cf2b89697f1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 21/71] fix: index of a month name pointed at the end of the
 preceding word

---
 src/parsers/en/ENMonthNameParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 7d896e8..66149e1 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -32,7 +32,7 @@
         parse::ParsedResult extract(std::string&, const std::smatch& match, const posix_time::ptime& ref, long idx)
         override {
             std::string text = match.str(0).substr(match.length(1));
-            parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
+            parse::ParsedResult result = parse::ParsedResult(ref, idx + match.length(1), text);
 
             short unsigned month = utils::MONTH_CONSTANTS[match.str(MONTH__NAME_GROUP)];
             short unsigned day = 1;
-- 
2.43.0


From e8ac7d4021e28dd265fc23e70927d1ecd326916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 22/71] fix: a sentence that ends in "May." threw, and "Jun"
 was only recognised before a backslash

---
 src/parsers/en/ENMonthNameParser.hpp | 2 +-
 src/utils/utils.hpp                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 66149e1..5ae4446 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -21,7 +21,7 @@
 
         std::regex getPattern() const override {
             std::regex PATTERN = std::regex(R"((^|\D\s+|[^\w\s])(Jan\.?|January|Feb\.?|February|Mar\.?|March|)"
-                                    R"(Apr\.?|April|May\.?|Jun\\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
+                                    R"(Apr\.?|April|May\.?|Jun\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
                                     R"(Sept\.?|September|Oct\.?|October|Nov\.?|November|Dec\.?|December)\s*)"
                                     R"((?:[,-]?\s*([0-9]{4})(\s*BE|AD|BC)?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
                                     std::regex::icase);
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 16f2002..6cfcb45 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -105,7 +105,7 @@ namespace utils {
             {"february",   2}, {"feb", 2},  {"feb.",  2},
             {"march",      3}, {"mar", 3},  {"mar.",  3},
             {"april",      4}, {"apr", 4},  {"apr.",  4},
-            {"may",        5},
+            {"may",        5}, {"may.", 5},
             {"june",       6}, {"jun", 6},  {"jun.",  6},
             {"july",       7}, {"jul", 7},  {"jul.",  7},
             {"august",     8}, {"aug", 8},  {"aug.",  8},
-- 
2.43.0


From 8b3388d2cd08cd6866404f203eb0f4560692b394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 23/71] fix: month names took "2019 BC" as 2019 and did not see
 an era after a space

---
 src/parsers/en/ENMonthNameParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 5ae4446..0514252 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -23,7 +23,7 @@
             std::regex PATTERN = std::regex(R"((^|\D\s+|[^\w\s])(Jan\.?|January|Feb\.?|February|Mar\.?|March|)"
                                     R"(Apr\.?|April|May\.?|Jun\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
                                     R"(Sept\.?|September|Oct\.?|October|Nov\.?|November|Dec\.?|December)\s*)"
-                                    R"((?:[,-]?\s*([0-9]{4})(\s*BE|AD|BC)?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
+                                    R"((?:[,-]?\s*([0-9]{4})(\s*(?:BE|AD|BC))?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
                                     std::regex::icase);
 
             return PATTERN;
-- 
2.43.0


From a9d1c45d9100231a57396940455285b47abe90f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 24/71] fix: month, day and year only matched when followed by
 whitespace and another word

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index 3ee34d6..5bfd592 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -42,7 +42,7 @@
                                             R"(|thirty[ -]first)"
                                         R"())"
                                         R"((?!\s*)"
-                                        R"((?:am|pm))\s+)"
+                                        R"((?:am|pm))\s*)"
                             R"((?:)"
                                 R"((?:to|\-)\s*)"
                                     R"((([0-9]{1,2}))"
@@ -53,9 +53,9 @@
                                             R"(thirtieth|thirty[ -]first)\s*)"
                                         R"()?)"
                                         R"((?:)"
-                                            R"((?:-|\/|\s*,?\s*)(?:([0-9]{4})\s*(BE|AD|BC)?|([0-9]{1,4})\s*(AD|BC))\s+)"
+                                            R"((?:-|\/|\s*,?\s*)(?:([0-9]{4})\s*(BE|AD|BC)?|([0-9]{1,4})\s*(AD|BC)))"
                                         R"()?)"
-                                    R"((\b)(?!\:\d))" , std::regex::icase};
+                                    R"((?=\W|$)(?!\:\d))" , std::regex::icase};
             return PATTERN;
         }
 
-- 
2.43.0


From e7d95fc07e4deb8f818ffb501af002479341d7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 25/71] fix: the end of a day range in words was read from the
 wrong group, and neither form was checked

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index 5bfd592..b07c617 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -144,7 +144,7 @@
             if(!match.str(DATE_TO_GROUP).empty()) {
                 int endDate;
                 match.str(DATE_TO_NUM_GROUP).empty() ?
-                        endDate = utils::argToOrdinalValue(match.str(DATE_TO_NUM_GROUP)) :
+                        endDate = utils::argToOrdinalValue(match.str(DATE_TO_GROUP)) :
                         endDate = std::stoi(match.str(DATE_TO_NUM_GROUP));
 
                 parse::ParsedComponents tmp{result.startDate};
-- 
2.43.0


From 38caa514c913fe25da3c930071b4c5f471e9fc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 26/71] fix: christmas never matched, and holidays only matched
 when followed by whitespace and another word

---
 src/parsers/en/ENUSHolidaysParser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENUSHolidaysParser.hpp b/src/parsers/en/ENUSHolidaysParser.hpp
index 675d353..5731c3c 100644
--- a/src/parsers/en/ENUSHolidaysParser.hpp
+++ b/src/parsers/en/ENUSHolidaysParser.hpp
@@ -13,9 +13,9 @@
                     R"((\b))"
                         R"((Independence|President\'s|New\s*Year\'s(?:\s*eve)?|)"
                         R"(Columbus|MLK|Martin\s*Luther\s*King\s*(?:Junior|Jr|Jnr)|)"
-                        R"(Thanksgiving|Memorial|Labor|Veteran(?:s|\\'s)|Christmas\\s*(?:eve)?|)"
-                        R"(black\s*Friday)\s+)"
-                            R"((?:day)?)"
+                        R"(Thanksgiving|Memorial|Labor|Veteran(?:s|\'s)|Christmas(?:\s*eve)?|)"
+                        R"(black\s*Friday))"
+                            R"((?:\s*day)?)"
                     R"((\b))", std::regex::icase};
 
             return PATTERN;
-- 
2.43.0


From a63755e2dfc496b3708bd39e309b13bfcbbff93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 27/71] fix: black friday was two days after thanksgiving

---
 src/parsers/en/ENUSHolidaysParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENUSHolidaysParser.hpp b/src/parsers/en/ENUSHolidaysParser.hpp
index 5731c3c..f58f0cc 100644
--- a/src/parsers/en/ENUSHolidaysParser.hpp
+++ b/src/parsers/en/ENUSHolidaysParser.hpp
@@ -109,8 +109,8 @@
 
                 result.startDate.setYear(day.year());
                 result.startDate.setMonth(day.month());
-                result.startDate.set_mDay(day.day() + 1);
-                result.startDate.set_wDay(day.day_of_week() + 1);
+                result.startDate.set_mDay(day.day());
+                result.startDate.set_wDay(day.day_of_week());
             }
             else if (text.find("memorial") != std::string::npos) {
                 // Memorial day is observed on the last Monday of May
-- 
2.43.0


From 702f3e097a58bdfe758dcb4d03f6c26393f193fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 28/71] fix: an unknown word in "next <word> weeks" was taken
 as zero weeks

---
 src/parsers/en/ENWeekExperessionParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENWeekExperessionParser.hpp b/src/parsers/en/ENWeekExperessionParser.hpp
index 4d6e13e..748e23c 100644
--- a/src/parsers/en/ENWeekExperessionParser.hpp
+++ b/src/parsers/en/ENWeekExperessionParser.hpp
@@ -30,10 +30,10 @@
                 numberOfWeeks = std::stoi(match.str(3));
             }
             else if(!match.str(4).empty()) {
-                numberOfWeeks = utils::INTEGER_WORDS[match.str(4)];
-                if(numberOfWeeks < 0) {
+                if(utils::INTEGER_WORDS.count(match.str(4)) < 1) {
                     return result;
                 }
+                numberOfWeeks = utils::INTEGER_WORDS[match.str(4)];
             }
             if(match.str(2).find("last") != std::string::npos) {
                 tmp -= gregorian::weeks(numberOfWeeks);
-- 
2.43.0


From 775b3e91739d5925a05ad2934c2b52020be5fe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 29/71] fix: ISO timestamps accepted hours, minutes and seconds
 that do not exist

---
 src/parsers/en/ENISOFormatParser.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parsers/en/ENISOFormatParser.hpp b/src/parsers/en/ENISOFormatParser.hpp
index 0b88a6a..6701487 100644
--- a/src/parsers/en/ENISOFormatParser.hpp
+++ b/src/parsers/en/ENISOFormatParser.hpp
@@ -46,6 +46,11 @@
             result.startDate.set_mDay(day);
 
             if(!match.str(HOUR_NUMBER_GROUP).empty()) {
+                if(std::stoi(match.str(HOUR_NUMBER_GROUP)) > 24 or std::stoi(match.str(MINUTE_NUMBER_GROUP)) > 59 or
+                   (!match.str(SECOND_NUMBER_GROUP).empty() and std::stoi(match.str(SECOND_NUMBER_GROUP)) > 59)) {
+                    return parse::ParsedResult(ref, idx, text);
+                }
+
                 result.startDate.setHour(std::stoi(match.str(HOUR_NUMBER_GROUP)));
                 result.startDate.setMinute(std::stoi(match.str(MINUTE_NUMBER_GROUP)));
 
-- 
2.43.0


From 3a85e146d532ebf9302784780ab771fa7cbcf020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 30/71] fix: ISO zone offsets between -00:59 and -00:01 lost
 their sign

---
 src/parsers/en/ENISOFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENISOFormatParser.hpp b/src/parsers/en/ENISOFormatParser.hpp
index 6701487..54c277c 100644
--- a/src/parsers/en/ENISOFormatParser.hpp
+++ b/src/parsers/en/ENISOFormatParser.hpp
@@ -69,7 +69,7 @@
                     }
 
                     int offset = hourOffset * 60;
-                    if(offset < 0) {
+                    if(match.str(TZD_HOUR_OFFSET_GROUP)[0] == '-') {
                         offset -= minuteOffset;
                     }
                     else {
-- 
2.43.0


From 5ce6b7491b273b86c815fae3ede824bdfc9a9ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 31/71] fix: "seventeenth" was misspelt at the end of a day
 range

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index b07c617..cdda2fd 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -48,7 +48,7 @@
                                     R"((([0-9]{1,2}))"
                                         R"((?:st|nd|rd|th)?|)"
                                             R"(first|second|third|fourth|fifth|sixth|seventh|eighth|ninth|tenth|)"
-                                            R"(eleventh|twelfth|thirteenth|fourteenth|fifteenth|sixteenth|seventheenth|eighteenth|nineteenth|twentieth|)"
+                                            R"(eleventh|twelfth|thirteenth|fourteenth|fifteenth|sixteenth|seventeenth|eighteenth|nineteenth|twentieth|)"
                                             R"(twenty[ -]first|twenty[ -]second|twenty[ -]third|twenty[ -]fourth|twenty[ -]fifth|twenty[ -]sixth|twenty[ -]seventh|twenty[ -]eighth|twenty[ -]ninth|)"
                                             R"(thirtieth|thirty[ -]first)\s*)"
                                         R"()?)"
-- 
2.43.0


From 2103a46a2cc7446e7eac06ca5c7492332849b139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 32/71] fix: a clock time range that passes midnight (9pm to
 1am) ended before it started

---
 src/parsers/en/ENTimeExpressionParser.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index 2d5c8a6..f7ae563 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -200,6 +200,14 @@
                 result.endDate.implyComponent("mday", ref.date().day());
                 result.endDate.implyComponent("month", ref.date().month());
                 result.endDate.implyComponent("year", ref.date().year());
+
+                if(result.endDate.date() < result.startDate.date()) {
+                    // Ex. 9pm - 1am
+                    gregorian::date nextDay{ref.date() + gregorian::days(1)};
+                    result.endDate.implyComponent("mday", nextDay.day());
+                    result.endDate.implyComponent("month", nextDay.month());
+                    result.endDate.implyComponent("year", nextDay.year());
+                }
             }
             return result;
         }
-- 
2.43.0


From 9910ee115fda2f70337c0a1fb85e9a8e7b9e2047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 33/71] fix: timezone of a range was set on the start twice and
 never on the end

---
 src/refiners/ExtractTimeZoneAbbreviation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiners/ExtractTimeZoneAbbreviation.hpp b/src/refiners/ExtractTimeZoneAbbreviation.hpp
index 065690c..787b00a 100644
--- a/src/refiners/ExtractTimeZoneAbbreviation.hpp
+++ b/src/refiners/ExtractTimeZoneAbbreviation.hpp
@@ -35,7 +35,7 @@ public:
                         }
 
                         if(res.end() and !res.endDate.isCertain("tzoffset")) {
-                            res.startDate.setTimeZoneOffset(offset);
+                            res.endDate.setTimeZoneOffset(offset);
                         }
 
                         res.setText(match[1].str());
-- 
2.43.0


From 475453f407af1cca2ea94789f85899f928d30899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 34/71] fix: timezone replaced the text of the result by the
 abbreviation, so its length no longer covered the match

---
 src/refiners/ExtractTimeZoneAbbreviation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiners/ExtractTimeZoneAbbreviation.hpp b/src/refiners/ExtractTimeZoneAbbreviation.hpp
index 787b00a..7ae4e12 100644
--- a/src/refiners/ExtractTimeZoneAbbreviation.hpp
+++ b/src/refiners/ExtractTimeZoneAbbreviation.hpp
@@ -38,7 +38,7 @@ public:
                             res.endDate.setTimeZoneOffset(offset);
                         }
 
-                        res.setText(match[1].str());
+                        res.setText(text.substr(res.getIndex(), res.textLength() + match.length(0)));
                         res.setTag(utils::ExtractTimeZoneAbbreviation);
                     }
                 }
-- 
2.43.0


From 0bbf5bc7271d7833c48c6c9f14af44e355ead73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 35/71] fix: toDate() added the timezone offset instead of
 subtracting it, and not at all to the end

---
 src/result.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/result.cpp b/src/result.cpp
index 1b19f6e..6edb74f 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -428,7 +428,7 @@ std::string ParsedResult::toDate() {
     // posix_time::ptime st =  us_eastern::local_to_utc(posix_time::ptime_from_tm(date_start));
 
     if(getTag(utils::ExtractTimeZoneAbbreviation))
-        st += posix_time::minutes(startDate.getTimeZoneOffset());
+        st -= posix_time::minutes(startDate.getTimeZoneOffset());
 
     res = posix_time::to_simple_string(st);
 
@@ -442,9 +442,9 @@ std::string ParsedResult::toDate() {
 
         posix_time::ptime ed = posix_time::ptime_from_tm(date_end);
         if(getTag(utils::ExtractTimeZoneAbbreviation))
-            ed += posix_time::minutes(startDate.getTimeZoneOffset());
+            ed -= posix_time::minutes(endDate.getTimeZoneOffset());
 
-        res += " - " + posix_time::to_simple_string(posix_time::ptime_from_tm(date_end));
+        res += " - " + posix_time::to_simple_string(ed);
     }
 
     return res;
-- 
2.43.0


From 08c8ceb0fc007b90910aef2e461a8de3bcd2c63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 36/71] fix: merging a date and a time dropped the timezone of
 the time

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index 1ebce82..9c35c14 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -36,6 +36,8 @@ public:
         if(timeComp.isCertain("hour")) {
             dateTimeComp.setHour(timeComp.getHour());
             dateTimeComp.setMinute(timeComp.getMinute());
+            if(timeComp.isCertain("tzoffset"))
+                dateTimeComp.setTimeZoneOffset(timeComp.getTimeZoneOffset());
 
             if(timeComp.isCertain("sec")) {
                 dateTimeComp.setSeconds(timeComp.getSeconds());
-- 
2.43.0


From b763c0c9b6fd4bf31075405801cd4c236822f372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 37/71] fix: merged date and time that passes the end of a
 month ended on a day that does not exist

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index 9c35c14..39e1c22 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -76,10 +76,19 @@ public:
 
             if(!dateResult.end() and endDateTime.date() < startDateTime.date()) {
                 // Ex. 9pm - 1am
+                gregorian::date nextDay{endDateTime.date().date() + gregorian::days(1)};
                 if(endDateTime.isCertain("mday"))
-                    endDateTime.set_mDay(endDateTime.get_mDay() + 1);
+                    endDateTime.set_mDay(nextDay.day());
                 else
-                    endDateTime.implyComponent("mday", endDateTime.get_mDay() + 1);
+                    endDateTime.implyComponent("mday", nextDay.day());
+                if(endDateTime.isCertain("month"))
+                    endDateTime.setMonth(nextDay.month());
+                else
+                    endDateTime.implyComponent("month", nextDay.month());
+                if(endDateTime.isCertain("year"))
+                    endDateTime.setYear(nextDay.year());
+                else
+                    endDateTime.implyComponent("year", nextDay.year());
             }
             dateResult.endDate = endDateTime;
             dateResult.makeEndDateValid();
-- 
2.43.0


From 2c86e592474b7b635e7da05655397f732aaf522a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 38/71] fix: a date and time merged at the end of the list also
 stayed behind as a separate result

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index 39e1c22..d9b0e9f 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -134,6 +134,7 @@ public:
                 }
                 catch (std::out_of_range& e) {
                     std::cerr << e.what() << " at ENMergeDateAndTimeRefiner" << std::endl;
+                    curr = tmp; // already merged, not a result of its own
                 }
                 i++;
             }
@@ -144,6 +145,7 @@ public:
                 }
                 catch (std::out_of_range& e) {
                     std::cerr << e.what() << " at ENMergeDateAndTimeRefiner" << std::endl;
+                    curr = tmp; // already merged, not a result of its own
                 }
                 i++;
             }
-- 
2.43.0


From 85105dd168176121c362506faaa07c81db2933dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 39/71] fix: merging date ranges dropped the last result and
 repeated the one before it

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index b1803f7..b2c17dd 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -29,13 +29,13 @@ public:
 
             if(!prev.end() and !curr.end() and isAbleToMerge(t, prev, curr)) {
                 prev = mergeResult(t, prev, curr);
-                curr = tmp;
                 i++;
+                curr = i < r.size() ? r[i] : tmp;
             }
             merged_result.push_back(prev);
         }
-        if(!prev.isEmpty()) {
-            merged_result.push_back(prev);  // if prev != null add to list of results
+        if(!curr.isEmpty()) {
+            merged_result.push_back(curr);  // if curr != null add to list of results
         }
 
         return merged_result;
-- 
2.43.0


From 252429317d75eab2096f6843cb4e763dfb81c508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 40/71] fix: a date range given latest first lost its earlier
 date

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index b2c17dd..87b6aa8 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -53,8 +53,8 @@ parse::ParsedResult ENMergeDateRange::mergeResult(std::string text,
      */
     if(fromResult.startDate.date() > toResult.startDate.date()) {
         parse::ParsedResult tmp = fromResult;
-        toResult = fromResult;
-        fromResult = tmp;
+        fromResult = toResult;
+        toResult = tmp;
     }
     fromResult.endDate = toResult.startDate;
     fromResult.makeEndDateValid();
-- 
2.43.0


From 8a598072971e7f00aee9fef972896885c025f4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 41/71] fix: text of a merged date range was one character too
 long

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index 87b6aa8..d1a5e5e 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -64,7 +64,7 @@ parse::ParsedResult ENMergeDateRange::mergeResult(std::string text,
                                    toResult.getIndex() + toResult.textLength());
 
     fromResult.setIndex(static_cast<int>(startIndex));
-    fromResult.setText(text.substr(startIndex, endIndex - startIndex + 1));
+    fromResult.setText(text.substr(startIndex, endIndex - startIndex));
 
     for(const auto& mod: utils::ModList) {
         if(toResult.getTag(mod))
-- 
2.43.0


From c8e2e9a94dcfe35d9624ad342fe8e2fb1681a4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 42/71] fix: results that overlap were tested for a range over
 the whole remaining text

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index d1a5e5e..5700832 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -86,6 +86,8 @@ bool ENMergeDateRange::isAbleToMerge(std::string text,
      */
     unsigned begin = r1.getIndex() + r1.textLength();
     unsigned end   = r2.getIndex();
+    if(end < begin)
+        return false;
     std::string textBetween = text.substr(begin, end - begin);
 
     return regex_search(textBetween, to);
-- 
2.43.0


From 225a0824280ed1ecdaf79acf21eddaa54292d234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 43/71] fix: counts above 16777216 were rounded to the
 precision of a float

---
 src/parsers/en/ENDeadlineFormatParser.hpp     |  2 +-
 src/parsers/en/ENRelativeDateFormatParser.hpp |  4 ++--
 src/parsers/en/ENTimeAgoFormatParser.hpp      |  2 +-
 src/parsers/en/ENTimeLaterParser.hpp          |  2 +-
 src/utils/utils.cpp                           | 12 ++++++------
 src/utils/utils.hpp                           |  4 ++--
 6 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index abbc82e..9bb743a 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -33,7 +33,7 @@
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
             std::string tmp = match.str(3);
-            float num;
+            double num;
             // check if integer is in integer_words
             if(utils::INTEGER_WORDS.find(tmp) != utils::INTEGER_WORDS.end()) {
                 num = utils::INTEGER_WORDS[tmp];
diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index 0e0ac40..f0b70c4 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -33,7 +33,7 @@
             std::regex dwmy(("day|week|month|year"), std::regex::icase);
 
             std::string num_label{match.str(MULTIPLIER_WORD_GROUP)};
-            float num{-1};
+            double num{-1};
 
             if(utils::INTEGER_WORDS.find(num_label) != utils::INTEGER_WORDS.end()) {
                 num = utils::INTEGER_WORDS[num_label];
@@ -49,7 +49,7 @@
             }
             else {
                 try {
-                    num = std::stof(num_label);
+                    num = std::stoi(num_label);
                 }
                 catch (std::logic_error &l) {
                     std::cerr << l.what() << " :at ENRelativeDateFormatParser" << std::endl;
diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 9635a67..be49d78 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -28,7 +28,7 @@
                 return result;
             }
 
-            std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
+            std::map<std::string, double> fragments = utils::extractDateTimeUnitFragments(match.str(2));
 
             gregorian::date date{ref.date()};
             posix_time::ptime date_t{ref};
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 591c8f1..01241a5 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -32,7 +32,7 @@
             if (match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1), std::regex("\\w")))
                 return result;
 
-            std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
+            std::map<std::string, double> fragments = utils::extractDateTimeUnitFragments(match.str(2));
 
             // tricky here turning the floats to ints
             gregorian::date date{ref.date()};
diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 8f7366f..ee58bed 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -31,8 +31,8 @@ std::string utils::keysToString(std::map<std::string, unsigned> arg) {
     return result;
 }
 
-std::map<std::string, float> utils::extractDateTimeUnitFragments(std::string timeunitText) {
-    std::map<std::string, float> fragments;// = {};
+std::map<std::string, double> utils::extractDateTimeUnitFragments(std::string timeunitText) {
+    std::map<std::string, double> fragments;// = {};
     std::string remainingText{timeunitText};
     std::smatch match;
 
@@ -46,9 +46,9 @@ std::map<std::string, float> utils::extractDateTimeUnitFragments(std::string tim
     return fragments;
 };
 
-std::map<std::string, float> utils::collectDateTimeFragment(std::smatch match, std::map<std::string, float>& fragments) {
+std::map<std::string, double> utils::collectDateTimeFragment(std::smatch match, std::map<std::string, double>& fragments) {
     std::string _num = utils::toLowerCase(match[1].str());
-    float num;
+    double num;
 
     if (utils::INTEGER_WORDS.count(_num) > 0) {
         num = utils::INTEGER_WORDS[_num];
@@ -64,8 +64,8 @@ std::map<std::string, float> utils::collectDateTimeFragment(std::smatch match, s
 
     std::string element{match[2].str()};
     // offsets are whole numbers, so count half a unit in the next smaller one
-    if(num == 0.5f) {
-        static const std::map<std::string, std::pair<std::string, float> > halves{
+    if(num == 0.5) {
+        static const std::map<std::string, std::pair<std::string, double> > halves{
             {"year", {"month", 6}}, {"month", {"day", 15}}, {"week", {"day", 3}},
             {"day", {"hour", 12}}, {"hour", {"minute", 30}}, {"min", {"second", 30}}};
         for(const auto& half : halves) {
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 6cfcb45..07b3a85 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -194,9 +194,9 @@ namespace utils {
 
     static std::regex PATTERN_TIME_UNIT(TIME_UNIT, std::regex::icase);
 
-    std::map<std::string, float> extractDateTimeUnitFragments(std::string);
+    std::map<std::string, double> extractDateTimeUnitFragments(std::string);
 
-    std::map<std::string, float> collectDateTimeFragment(std::smatch , std::map<std::string, float>& );
+    std::map<std::string, double> collectDateTimeFragment(std::smatch , std::map<std::string, double>& );
 }
 
 
-- 
2.43.0


From a66559527a0f794c0e5fd2a41dd08004905bf95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 44/71] fix: offsets longer than the calendar wrapped around to
 a wrong date

---
 src/parsers/en/ENDeadlineFormatParser.hpp     |  2 ++
 src/parsers/en/ENRelativeDateFormatParser.hpp |  2 ++
 src/parsers/en/ENWeekExperessionParser.hpp    |  1 +
 src/utils/utils.cpp                           | 14 ++++++++++++++
 src/utils/utils.hpp                           |  2 ++
 5 files changed, 21 insertions(+)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index 9bb743a..a5a0aed 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -57,6 +57,8 @@
                 }
             }
 
+            utils::checkOffset(num, match.str(4));
+
             /* boost::date_time functions deal with long ints,
              * so to support half (when num == 0.5) use lower time field
              * i.e: instead of hours(0.5) use minutes(30) e.t.c
diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index f0b70c4..aab03fe 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -57,6 +57,8 @@
                 }
             }
 
+            utils::checkOffset(num, match.str(RELATIVE_WORD_GROUP));
+
             // this ...
             if(!match.str(MODIFIER_WORD_GROUP).compare("this")) {
                 if(!match.str(MULTIPLIER_WORD_GROUP).empty()) {
diff --git a/src/parsers/en/ENWeekExperessionParser.hpp b/src/parsers/en/ENWeekExperessionParser.hpp
index 748e23c..9b65202 100644
--- a/src/parsers/en/ENWeekExperessionParser.hpp
+++ b/src/parsers/en/ENWeekExperessionParser.hpp
@@ -35,6 +35,7 @@
                 }
                 numberOfWeeks = utils::INTEGER_WORDS[match.str(4)];
             }
+            utils::checkOffset(numberOfWeeks, "week");
             if(match.str(2).find("last") != std::string::npos) {
                 tmp -= gregorian::weeks(numberOfWeeks);
             }
diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index ee58bed..3cc4d82 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -31,6 +31,19 @@ std::string utils::keysToString(std::map<std::string, unsigned> arg) {
     return result;
 }
 
+// boost wraps around on offsets that are longer than its calendar (1400 - 9999)
+void utils::checkOffset(double num, std::string unit) {
+    static const std::map<std::string, double> units_per_year{
+            {"s", 31622400}, {"mi", 527040}, {"h", 8784}, {"d", 366}, {"w", 53}, {"mo", 12}, {"y", 1}};
+
+    unit = utils::toLowerCase(unit);
+    for(const auto& u : units_per_year) {
+        if(!unit.compare(0, u.first.length(), u.first) and num > 8600 * u.second) {
+            throw std::out_of_range("offset is longer than the calendar");
+        }
+    }
+}
+
 std::map<std::string, double> utils::extractDateTimeUnitFragments(std::string timeunitText) {
     std::map<std::string, double> fragments;// = {};
     std::string remainingText{timeunitText};
@@ -63,6 +76,7 @@ std::map<std::string, double> utils::collectDateTimeFragment(std::smatch match,
     }
 
     std::string element{match[2].str()};
+    utils::checkOffset(num, element);
     // offsets are whole numbers, so count half a unit in the next smaller one
     if(num == 0.5) {
         static const std::map<std::string, std::pair<std::string, double> > halves{
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 07b3a85..77fdc80 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -194,6 +194,8 @@ namespace utils {
 
     static std::regex PATTERN_TIME_UNIT(TIME_UNIT, std::regex::icase);
 
+    void checkOffset(double, std::string);
+
     std::map<std::string, double> extractDateTimeUnitFragments(std::string);
 
     std::map<std::string, double> collectDateTimeFragment(std::smatch , std::map<std::string, double>& );
-- 
2.43.0


From a845270aad451ae0c06c3cf484d83e9e7bab9364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 45/71] fix: a malformed reference date ended the program with
 an uncaught exception

---
 time.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/time.cpp b/time.cpp
index 9e578a0..fdcd4ae 100644
--- a/time.cpp
+++ b/time.cpp
@@ -70,7 +70,16 @@ int main(int argc, char* argv[]) {
 
     if(argc == 3) {
         string refDate = argv[2];
-        t = posix_time::time_from_string(refDate);
+        try {
+            t = posix_time::time_from_string(refDate);
+        }
+        catch (std::exception& e) {
+            cerr << e.what() << endl;
+        }
+        if(t.is_special()) {
+            printUsage();
+            return 0;
+        }
     }
 
     for(auto& parser: parsers) {
-- 
2.43.0


From 927a498684715ab0c7a68eb35f15238ec79133d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 46/71] fix: refining past the end of the calendar ended the
 program with an uncaught exception

---
 time.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/time.cpp b/time.cpp
index fdcd4ae..26d558d 100644
--- a/time.cpp
+++ b/time.cpp
@@ -92,14 +92,22 @@ int main(int argc, char* argv[]) {
                 return p1.getIndex() < p2.getIndex();
     });
 
-    for(auto& refiner: refiners) {
-        results = refiner->refine(results, str);
+    string date;
+    try {
+        for(auto& refiner: refiners) {
+            results = refiner->refine(results, str);
+        }
+        if(!results.empty())
+            date = results.at(0).toDate();
+    }
+    catch (std::out_of_range& e) { // Ex. dec 31 9999 9pm - 1am
+        cerr << e.what() << endl;
     }
 
-    if(results.empty())
+    if(date.empty())
         cout << "[???] -- Invalid date" << endl;
     else
-        cout << "Date:\t"  << results.at(0).toDate() << endl;
+        cout << "Date:\t"  << date << endl;
 
     return 0;
 }
\ No newline at end of file
-- 
2.43.0


From 862f9a67c929f172ec87b50dcba006534573adf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 47/71] fix: a bare weekday was taken for a time and merged
 into the date next to it

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index d9b0e9f..2ba7ebf 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -15,7 +15,9 @@ public:
     }
 
     bool isTimeOnly(parse::ParsedResult& r) {
-        return !r.startDate.isCertain("month") and !r.startDate.isCertain("mday");
+        // the date of a weekday of this week is only implied
+        return !r.startDate.isCertain("month") and !r.startDate.isCertain("mday") and
+               !r.getTag(utils::ENDayOfTheWeekParser);
     }
 
     bool isAbleToMerge(std::string text, parse::ParsedResult& prev, parse::ParsedResult& curr) {
-- 
2.43.0


From e4a7f3698ccaefc71f37a7c4493dbc09ce1c879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 48/71] fix: "early" and "late" were ignored before a weekday
 without this, last or next

---
 src/parsers/en/ENDayOfTheWeekParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENDayOfTheWeekParser.hpp b/src/parsers/en/ENDayOfTheWeekParser.hpp
index 06e3888..8bfcbd3 100644
--- a/src/parsers/en/ENDayOfTheWeekParser.hpp
+++ b/src/parsers/en/ENDayOfTheWeekParser.hpp
@@ -22,7 +22,7 @@
         std::regex getPattern() const override {
             static const std::regex PATTERN {
                 R"((\b))"
-                    R"((earl(?:ier|y)|late)?)"
+                    R"((?:(earl(?:ier|y)|late)\s*)?)"
                         R"((?:\s*(this|last|next)\s*)?)"
                             R"((Sun(?:day)?|Mon(?:day)?|Tue(?:s(?:day)?)?|Wed(?:nesday)?|Thu(?:r(?:s(?:day)?)?)?|Fri(?:day)?|Sat(?:urday)?))"
                                 R"((?:\s*(this|last|next)\s*)?(?:(week)\s*)?)"
-- 
2.43.0


From 7697aacfbf89f6dd9e1093faf0fcc417ad1afe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 49/71] fix: the year 1 BC was taken for no year at all

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 4 +++-
 src/parsers/en/ENMonthNameParser.hpp             | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index cdda2fd..eebcf86 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -76,6 +76,7 @@
 
             std::string year_s{"-1"};
             int year{-1};
+            bool hasYear{false};
             if(!match.str(YEAR_GROUP).empty() or !match.str(YEAR_GROUP2).empty()) {
                 if(!match.str(YEAR_GROUP).empty())
                     year_s = match.str(YEAR_GROUP);
@@ -84,6 +85,7 @@
 
                 try {
                     year = std::stoi(year_s);
+                    hasYear = true;
                 }
                 catch (std::logic_error& e) {
                     std::cerr << e.what() << " at ENMonthNameMiddleEndianParser()" << std::endl;
@@ -111,7 +113,7 @@
                 }
             }
 
-            if(year != -1) {
+            if(hasYear) {
                 result.startDate.set_mDay(day);
                 result.startDate.setMonth(month);
                 result.startDate.setYear(year);
diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 0514252..88f8233 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -38,9 +38,11 @@
             short unsigned day = 1;
 
             int year{-1};
+            bool hasYear{false};
             if(!match.str(YEAR__GROUP).empty()) {
                 try {
                     year = std::stoi(match[YEAR__GROUP].str());
+                    hasYear = true;
                 }
                 catch(std::logic_error& e) {
                     std::cerr << e.what() << " at ENMonthNameParser" << std::endl;
@@ -61,7 +63,7 @@
                     year += 2000;
                 }
             }
-            if(year != -1) {
+            if(hasYear) {
                 result.startDate.implyComponent("mday", day);
                 result.startDate.setMonth(month);
                 result.startDate.setYear(year);
-- 
2.43.0


From f0d49320111a8bca1a969791ebb9b2a4a3133c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 50/71] fix: the end of a p.m. range in 24-hour notation (5pm
 to 18:00) was moved by twelve hours

---
 src/parsers/en/ENTimeExpressionParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index f7ae563..d399854 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -182,7 +182,7 @@
                         if(to_hour == 12)
                             to_hour = 0;
                     if(ampm_s == 'p')
-                        if(to_hour != 12)
+                        if(to_hour > 0 and to_hour < 12)
                             to_hour += 12;
                 }
 
-- 
2.43.0


From d938272f004d93c942c1c727e46124d4025fcc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 51/71] fix: timezones of five letters, and ChST, were never
 recognised

---
 src/refiners/ExtractTimeZoneAbbreviation.hpp | 2 +-
 src/utils/utils.hpp                          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/refiners/ExtractTimeZoneAbbreviation.hpp b/src/refiners/ExtractTimeZoneAbbreviation.hpp
index 7ae4e12..4e44aa6 100644
--- a/src/refiners/ExtractTimeZoneAbbreviation.hpp
+++ b/src/refiners/ExtractTimeZoneAbbreviation.hpp
@@ -3,7 +3,7 @@
 
 #include "refiner.hpp"
 
-#define TIMEZONE_NAME_PATTERN "^\\s*\\(?([A-Z]{2,4})\\)?(?=\\W|$)"
+#define TIMEZONE_NAME_PATTERN "^\\s*\\(?([A-Z]{2,5})\\)?(?=\\W|$)"
 
 class ExtractTimeZoneAbbreviation : public refiners::Refiner {
 public:
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 77fdc80..b8e8ebe 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -134,7 +134,7 @@ namespace utils {
             {"BRT",  -180}, {"BST",    60}, {"BTT",   360}, {"CAST", 480}, {"CAT",   120},
             {"CCT",   390}, {"CDT",  -300}, {"CEST",  120}, {"CET",   60}, {"CHADT", 825},
             {"CHAST", 765}, {"CKT",  -600}, {"CLST", -180}, {"CLT", -240}, {"COT",  -300},
-            {"CST",  -360}, {"CVT",   -60}, {"CXT",   420}, {"ChST", 600}, {"DAVT",  420},
+            {"CST",  -360}, {"CVT",   -60}, {"CXT",   420}, {"CHST", 600}, {"DAVT",  420},
             {"EASST",-300}, {"EAST", -360}, {"EAT",   180}, {"ECT", -300}, {"EDT",  -240},
             {"EEST",  180}, {"EET",   120}, {"EGST",    0}, {"EGT",  -60}, {"EST",  -300},
             {"ET",   -300}, {"FJST",  780}, {"FJT",   720}, {"FKST",-180}, {"FKT",  -240},
-- 
2.43.0


From 31ad0845e15f7546885e477681bd2791e199a24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 52/71] fix: deadlines in days, weeks, months and years were
 not tagged

---
 src/parsers/en/ENDeadlineFormatParser.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index a5a0aed..dbe1f3e 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -31,6 +31,7 @@
             gregorian::date tmpDate{ref.date()};
 
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
+            result.setTag(utils::ENDeadlineFormatParser);
 
             std::string tmp = match.str(3);
             double num;
@@ -137,8 +138,6 @@
             result.startDate.implyComponent("min", tmpTime.time_of_day().minutes());
             result.startDate.implyComponent("sec", tmpTime.time_of_day().seconds());
 
-            result.setTag(utils::ENDeadlineFormatParser);
-
             return result;
         }
 
-- 
2.43.0


From 2f93a1790b2369304683f7ecd81c7a3edff8c4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 53/71] fix: HHMM times from 0000 to 0100 were rejected or read
 as hours

---
 src/parsers/en/ENTimeExpressionParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index d399854..5e53fa2 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -61,7 +61,7 @@
             if(!match.str(MINUTE_GROUP).empty()) {
                 minute = std::stoi(match.str(MINUTE_GROUP));
             }
-            else if(hour > 100) {
+            else if(isdigit(match.str(HOUR_GROUP)[0]) and match.length(HOUR_GROUP) > 2) {
                 minute = hour % 100;
                 hour = hour / 100;
             }
@@ -145,7 +145,7 @@
                 if(!match.str(TO_MINUTE_GROUP).empty()) {
                     to_minute = std::stoi(match.str(TO_MINUTE_GROUP));
                 }
-                else if(to_hour > 100) {
+                else if(match.length(TO_HOUR_GROUP) > 2) {
                     to_minute = to_hour % 100;
                     to_hour = to_hour / 100;
                 }
-- 
2.43.0


From b35d86990ba114cec7e44de5ffa5dd4a92d9e794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 54/71] fix: a range from midnight to a p.m. time started at
 noon

---
 src/parsers/en/ENTimeExpressionParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index 5e53fa2..435f1b5 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -169,7 +169,7 @@
                         if(to_hour != 12)
                             to_hour += 12;
                         if(match.str(AM_PM_HOUR_GROUP).empty()) {
-                            if(hour < 12) {
+                            if(hour > 0 and hour < 12) {
                                 hour += 12;
                                 result.startDate.setHour(hour);
                             }
-- 
2.43.0


From c2d35126d14084e79d6952c3c1c9789d3f9b7f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 55/71] fix: a month name after a single leading space was not
 recognised

---
 src/parsers/en/ENMonthNameParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 88f8233..8d2a48c 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -20,7 +20,7 @@
         ENMonthNameParser() = default;
 
         std::regex getPattern() const override {
-            std::regex PATTERN = std::regex(R"((^|\D\s+|[^\w\s])(Jan\.?|January|Feb\.?|February|Mar\.?|March|)"
+            std::regex PATTERN = std::regex(R"((^\s*|\D\s+|[^\w\s])(Jan\.?|January|Feb\.?|February|Mar\.?|March|)"
                                     R"(Apr\.?|April|May\.?|Jun\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
                                     R"(Sept\.?|September|Oct\.?|October|Nov\.?|November|Dec\.?|December)\s*)"
                                     R"((?:[,-]?\s*([0-9]{4})(\s*(?:BE|AD|BC))?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
-- 
2.43.0


From 598468885c9a7d799e77e1e2babc37eaacde29a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 56/71] fix: "apr 5-2018 AD" was read as April 5 to 20 of the
 year 18

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index eebcf86..24f06af 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -45,7 +45,7 @@
                                         R"((?:am|pm))\s*)"
                             R"((?:)"
                                 R"((?:to|\-)\s*)"
-                                    R"((([0-9]{1,2}))"
+                                    R"((([0-9]{1,2})(?![0-9]))"
                                         R"((?:st|nd|rd|th)?|)"
                                             R"(first|second|third|fourth|fifth|sixth|seventh|eighth|ninth|tenth|)"
                                             R"(eleventh|twelfth|thirteenth|fourteenth|fifteenth|sixteenth|seventeenth|eighteenth|nineteenth|twentieth|)"
-- 
2.43.0


From c4cf38b0d493e1a54fb8c27d95e235efef0008d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 57/71] fix: "apr 0012" was read as the year 2012

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 2 +-
 src/parsers/en/ENMonthNameParser.hpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index 24f06af..9bd4345 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -108,7 +108,7 @@
                         year = -year;
                     }
                 }
-                else if(year < 100) {
+                else if(year_s.length() < 3) {
                     year += 2000;
                 }
             }
diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 8d2a48c..d3f42db 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -59,7 +59,7 @@
                         year = -year;
                     }
                 }
-                else if(year < 100) {
+                else if(match.length(YEAR__GROUP) < 3) {
                     year += 2000;
                 }
             }
-- 
2.43.0


From d8f377b5676f78ad4d504d80639c93bae9974526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 58/71] fix: noon and midnight were recognised inside words
 with a t in front (tnoon)

---
 src/parsers/en/ENTimeExpressionParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index 435f1b5..b98d54a 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -22,7 +22,7 @@
 
         std::regex getPattern() const override {
             // psst...what even are trigraphs?
-            static const std::regex PATTERN = std::regex(R"((^|\s|T)(?:(?:at|from)\s*)?)"
+            static const std::regex PATTERN = std::regex(R"((^|\s|T(?=\d))(?:(?:at|from)\s*)?)"
                                  R"(?(\d{1,4}|noon|midnight)(?:(?:\.|\:|\：)(\d{1,2})(?:(?:\:|\：))"
                                  R"((\d{2})(?:\.(\d{1,6}))?)?)?(?:\s*(A\.M\.?|P\.M\.?|AM?|PM?|)"
                                  R"(O\W*CLOCK))?(?=\W|$))"
-- 
2.43.0


From 0affeb3bddfe962d83087c6ba3e2566beea59d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 59/71] fix: 24:00 on the last day of the calendar counted as a
 possible date but could not be rendered

---
 src/result.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/result.cpp b/src/result.cpp
index 6edb74f..5085514 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -395,9 +395,9 @@ bool ParsedResult::hasPossibleDates() {
 
     // dates that are not on the calendar can not be rendered
     try {
-        startDate.date();
+        startDate.date().date().year_month_day();
         if(end())
-            endDate.date();
+            endDate.date().date().year_month_day();
     }
     catch (std::out_of_range&) {
         return false;
-- 
2.43.0


From 7a91cfe27b7b81966bd0390f510f4d51b9047149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 60/71] fix: "noon a friend" and "noona" were read as 12 a.m.

---
 src/parsers/en/ENTimeExpressionParser.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index b98d54a..c989bb1 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -11,11 +11,12 @@
                                     SECOND_GROUP      = 4,
                                     // MILLI_SECOND_GROUP = 5,
                                     AM_PM_HOUR_GROUP  = 6,
-                                    TO_GROUP          = 7,
-                                    TO_HOUR_GROUP     = 10,
-                                    TO_MINUTE_GROUP   = 11,
-                                    TO_SECOND_GROUP   = 12,
-                                    TO_MERIDIEM_GROUP = 14;
+                                    HOUR_WORD_GROUP   = 7,
+                                    TO_GROUP          = 8,
+                                    TO_HOUR_GROUP     = 11,
+                                    TO_MINUTE_GROUP   = 12,
+                                    TO_SECOND_GROUP   = 13,
+                                    TO_MERIDIEM_GROUP = 15;
 
     public:
         ENTimeExpressionParser() = default;
@@ -23,9 +24,9 @@
         std::regex getPattern() const override {
             // psst...what even are trigraphs?
             static const std::regex PATTERN = std::regex(R"((^|\s|T(?=\d))(?:(?:at|from)\s*)?)"
-                                 R"(?(\d{1,4}|noon|midnight)(?:(?:\.|\:|\：)(\d{1,2})(?:(?:\:|\：))"
+                                 R"(?(?:(\d{1,4})(?:(?:\.|\:|\：)(\d{1,2})(?:(?:\:|\：))"
                                  R"((\d{2})(?:\.(\d{1,6}))?)?)?(?:\s*(A\.M\.?|P\.M\.?|AM?|PM?|)"
-                                 R"(O\W*CLOCK))?(?=\W|$))"
+                                 R"(O\W*CLOCK))?|(noon|midnight))(?=\W|$))"
                                  R"( ?((^|\s*)(\-|\–|\~|\〜|to|\?)\s*(\d{1,4})(?:(?:\.|\:|\：))"
                                  R"((\d{1,2})(?:(?:\.|\:|\：)(\d{1,2})(?:\.(\d{1,6}))?)?)?(?:\s*)"
                                  R"((A\.M\.?|P\.M\.?|AM?|PM?|O\W*CLOCK))?(\b))?)", std::regex::icase);
@@ -45,11 +46,11 @@
             char ampm_s{0};
 
             //--------------Hour------------------
-            if(match.str(HOUR_GROUP) == "noon") {
+            if(match.str(HOUR_WORD_GROUP) == "noon") {
                 // meridian = 1;
                 hour = 12;
             }
-            else if(match.str(HOUR_GROUP) == "midnight") {
+            else if(match.str(HOUR_WORD_GROUP) == "midnight") {
                 // meridian = 0;
                 hour = 0;
             }
-- 
2.43.0


From de8bc561506ad4437e919d2461c3aa6faaddfe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 61/71] fix: a text of counts and units was read on from the
 wrong place after leading text

---
 src/utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 3cc4d82..fecb085 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -53,7 +53,7 @@ std::map<std::string, double> utils::extractDateTimeUnitFragments(std::string ti
 
     while (res) {
         fragments = utils::collectDateTimeFragment(match, fragments);
-        remainingText = remainingText.substr(match[0].str().length());
+        remainingText = remainingText.substr(match.position(0) + match.length(0));
         res = std::regex_search(remainingText, match, utils::PATTERN_TIME_UNIT);
     }
     return fragments;
-- 
2.43.0


From b60ed0a2da6f5752b22b1350df0a46cb02e83cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 62/71] fix: the end of a time range ending in "p.m." left its
 full stop behind, hiding a time zone after it

---
 src/parsers/en/ENTimeExpressionParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index c989bb1..a3d6e6d 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -29,7 +29,7 @@
                                  R"(O\W*CLOCK))?|(noon|midnight))(?=\W|$))"
                                  R"( ?((^|\s*)(\-|\–|\~|\〜|to|\?)\s*(\d{1,4})(?:(?:\.|\:|\：))"
                                  R"((\d{1,2})(?:(?:\.|\:|\：)(\d{1,2})(?:\.(\d{1,6}))?)?)?(?:\s*)"
-                                 R"((A\.M\.?|P\.M\.?|AM?|PM?|O\W*CLOCK))?(\b))?)", std::regex::icase);
+                                 R"((A\.M\.?|P\.M\.?|AM?|PM?|O\W*CLOCK))?(?=\W|$))?)", std::regex::icase);
             return PATTERN;
         }
 
-- 
2.43.0


From ef81c6e3b8f28ee2a11f7e8cc6a8b096cc06ff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 63/71] fix: a time kept the space behind it, which made "5pm
 last friday" lose its time as an overlap

---
 src/parsers/en/ENTimeExpressionParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index a3d6e6d..d9b7654 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -27,7 +27,7 @@
                                  R"(?(?:(\d{1,4})(?:(?:\.|\:|\：)(\d{1,2})(?:(?:\:|\：))"
                                  R"((\d{2})(?:\.(\d{1,6}))?)?)?(?:\s*(A\.M\.?|P\.M\.?|AM?|PM?|)"
                                  R"(O\W*CLOCK))?|(noon|midnight))(?=\W|$))"
-                                 R"( ?((^|\s*)(\-|\–|\~|\〜|to|\?)\s*(\d{1,4})(?:(?:\.|\:|\：))"
+                                 R"(( ?(^|\s*)(\-|\–|\~|\〜|to|\?)\s*(\d{1,4})(?:(?:\.|\:|\：))"
                                  R"((\d{1,2})(?:(?:\.|\:|\：)(\d{1,2})(?:\.(\d{1,6}))?)?)?(?:\s*)"
                                  R"((A\.M\.?|P\.M\.?|AM?|PM?|O\W*CLOCK))?(?=\W|$))?)", std::regex::icase);
             return PATTERN;
-- 
2.43.0


From 1138e0f30cd51d4c6e04bf485e253af96e220e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 64/71] fix: a weekday kept the space behind it, which made
 "friday next week 5pm" lose one of the two as an overlap

---
 src/parsers/en/ENDayOfTheWeekParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENDayOfTheWeekParser.hpp b/src/parsers/en/ENDayOfTheWeekParser.hpp
index 8bfcbd3..633e9f7 100644
--- a/src/parsers/en/ENDayOfTheWeekParser.hpp
+++ b/src/parsers/en/ENDayOfTheWeekParser.hpp
@@ -25,7 +25,7 @@
                     R"((?:(earl(?:ier|y)|late)\s*)?)"
                         R"((?:\s*(this|last|next)\s*)?)"
                             R"((Sun(?:day)?|Mon(?:day)?|Tue(?:s(?:day)?)?|Wed(?:nesday)?|Thu(?:r(?:s(?:day)?)?)?|Fri(?:day)?|Sat(?:urday)?))"
-                                R"((?:\s*(this|last|next)\s*)?(?:(week)\s*)?)"
+                                R"((?:\s*(this|last|next)(?:\s*(?=week))?)?(week)?)"
                 R"((\b))", /* part of pattern (on\s*)?*/
             std::regex::icase};
 
-- 
2.43.0


From 3011caab2a926f516f5f57d40d19d0ef233d56f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 65/71] fix: a deadline or a week ("in 5 days", "last week")
 was taken for the time of day of the next date

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index 2ba7ebf..c2ba1bb 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -17,7 +17,9 @@ public:
     bool isTimeOnly(parse::ParsedResult& r) {
         // the date of a weekday of this week is only implied
         return !r.startDate.isCertain("month") and !r.startDate.isCertain("mday") and
-               !r.getTag(utils::ENDayOfTheWeekParser);
+               !r.getTag(utils::ENDayOfTheWeekParser) and
+               // a deadline or a week also has an implied date, but is no time of day
+               (r.getTag(utils::ENTimeExpressionParser) or r.getTag(utils::ENCasualTimeParser));
     }
 
     bool isAbleToMerge(std::string text, parse::ParsedResult& prev, parse::ParsedResult& curr) {
-- 
2.43.0


From 2313569de2cad4766d4c8379ce9eaaee16d8967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:34 +0000
Subject: [PATCH 66/71] fix: new year's and martin luther king were matched but
 not reported unless their words were one space apart

---
 src/parsers/en/ENUSHolidaysParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENUSHolidaysParser.hpp b/src/parsers/en/ENUSHolidaysParser.hpp
index f58f0cc..0414f68 100644
--- a/src/parsers/en/ENUSHolidaysParser.hpp
+++ b/src/parsers/en/ENUSHolidaysParser.hpp
@@ -33,7 +33,7 @@
                 result.startDate.setMonth(7);
                 result.startDate.set_mDay(4);
             }
-            else if(text.find("new year") != std::string::npos) {
+            else if(text.find("new") != std::string::npos) {
                 result.startDate.setYear(ref.date().year());
                 result.startDate.setMonth(1);
                 result.startDate.set_mDay(1);
@@ -60,7 +60,7 @@
                 }
             }
             else if(text.find("mlk") != std::string::npos or
-                       text.find(utils::toLowerCase("Martin Luther King")) != std::string::npos) {
+                       text.find("martin") != std::string::npos) {
                 //MLK day is the third Monday in Jan
                 utils::ndow thirdMondayOfJan(utils::ndow::third, gregorian::Monday, gregorian::Jan);
                 day = thirdMondayOfJan.get_date(ref.date().year());
-- 
2.43.0


From a738c7592ea4b5212b78422141b455e3f52852f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 67/71] fix: 24:01 to 24:59 were taken for times of day, so
 that "24:59 - 0:00" ended before it started

---
 src/parsers/en/ENISOFormatParser.hpp      |  6 ++++++
 src/parsers/en/ENTimeExpressionParser.hpp | 13 +++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENISOFormatParser.hpp b/src/parsers/en/ENISOFormatParser.hpp
index 54c277c..d089cc1 100644
--- a/src/parsers/en/ENISOFormatParser.hpp
+++ b/src/parsers/en/ENISOFormatParser.hpp
@@ -51,6 +51,12 @@
                     return parse::ParsedResult(ref, idx, text);
                 }
 
+                // 24:00:00 ends the day, there is no 24:00:01
+                if(std::stoi(match.str(HOUR_NUMBER_GROUP)) == 24 and (std::stoi(match.str(MINUTE_NUMBER_GROUP)) > 0 or
+                   (!match.str(SECOND_NUMBER_GROUP).empty() and std::stoi(match.str(SECOND_NUMBER_GROUP)) > 0))) {
+                    return parse::ParsedResult(ref, idx, text);
+                }
+
                 result.startDate.setHour(std::stoi(match.str(HOUR_NUMBER_GROUP)));
                 result.startDate.setMinute(std::stoi(match.str(MINUTE_NUMBER_GROUP)));
 
diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index d9b7654..8dda52b 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -75,6 +75,11 @@
                 return result;
             }
 
+            // 24:00 ends the day, there is no 24:01
+            if(hour == 24 and minute > 0) {
+                return result;
+            }
+
             // ----- AM & PM
             if(!match.str(AM_PM_HOUR_GROUP).empty()) {
                 // if the text has am/pm provided then the logic follows
@@ -107,7 +112,7 @@
             //------------Seconds------------------
             if(!match.str(SECOND_GROUP).empty()) {
                 unsigned short second = static_cast<unsigned short>(std::stoi(match.str(SECOND_GROUP)));
-                if(second >= 60)
+                if(second >= 60 or (hour == 24 and second > 0))
                     return result;
 
                 result.startDate.setSeconds(second);
@@ -155,6 +160,10 @@
                     return result;
                 }
 
+                if(to_hour == 24 and to_minute > 0) {
+                    return result;
+                }
+
                 if(!match.str(TO_MERIDIEM_GROUP).empty()) {
                     // if the text has am/pm provided then the logic follows
                     // that the hour should not be greater than 12
@@ -189,7 +198,7 @@
 
                 if(!match.str(TO_SECOND_GROUP).empty()) {
                     int to_second = std::stoi(match.str(TO_SECOND_GROUP));
-                    if(to_second >= 60 or to_second < 0)
+                    if(to_second >= 60 or to_second < 0 or (to_hour == 24 and to_second > 0))
                         return result;
 
                     result.endDate.setSeconds(to_second);
-- 
2.43.0


From 4e3459f865c6885264946ebb0ef5dd6cb4ee758d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:59 +0000
Subject: [PATCH 68/71] fix: half a minute or hour on top of 2147483647 seconds
 or minutes overflowed, so that "ago" led ahead

---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 4 ++--
 src/parsers/en/ENTimeLaterParser.hpp     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index be49d78..49070ab 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -48,9 +48,9 @@
                     else if(a.first == "hour")
                         date_t -= posix_time::hours(static_cast<int> (a.second));
                     else if(a.first == "minute")
-                        date_t -= posix_time::minutes(static_cast<int> (a.second));
+                        date_t -= posix_time::minutes(static_cast<long> (a.second));
                     else if(a.first == "second")
-                        date_t -= posix_time::seconds(static_cast<int> (a.second));
+                        date_t -= posix_time::seconds(static_cast<long> (a.second));
                 }
                 catch (std::out_of_range &e) {
                     std::cerr << e.what() << " at ENTimeAgoFormatParser" << std::endl;
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 01241a5..a6df79e 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -56,10 +56,10 @@
                     date_t += posix_time::hours(static_cast<int> (a.second));
                 }
                 else if(a.first == "minute") {
-                    date_t += posix_time::minutes(static_cast<int> (a.second));
+                    date_t += posix_time::minutes(static_cast<long> (a.second));
                 }
                 else if(a.first == "second") {
-                    date_t += posix_time::seconds(static_cast<int> (a.second));
+                    date_t += posix_time::seconds(static_cast<long> (a.second));
                 }
             }
 
-- 
2.43.0


From 86d2e6c303d1ee44309bbc29d63173bf015c71c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:09 +0000
Subject: [PATCH 69/71] fix: "half a day 3 hours ago" lost the half, "3 hours
 half a day ago" did not

---
 src/utils/utils.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index fecb085..e5bb472 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -56,6 +56,9 @@ std::map<std::string, double> utils::extractDateTimeUnitFragments(std::string ti
         remainingText = remainingText.substr(match.position(0) + match.length(0));
         res = std::regex_search(remainingText, match, utils::PATTERN_TIME_UNIT);
     }
+    for(const auto& f : fragments) {
+        utils::checkOffset(f.second, f.first);
+    }
     return fragments;
 };
 
@@ -91,19 +94,19 @@ std::map<std::string, double> utils::collectDateTimeFragment(std::smatch match,
     }
 
     if(std::regex_search(element, std::regex("hour", std::regex::icase)))
-        fragments["hour"] = num;
+        fragments["hour"] += num;
     else if(std::regex_search(element, std::regex("min", std::regex::icase)))
-        fragments["minute"] = num;
+        fragments["minute"] += num;
     else if(std::regex_search(element, std::regex("sec", std::regex::icase)))
-        fragments["second"] = num;
+        fragments["second"] += num;
     else if(std::regex_search(element, std::regex("week", std::regex::icase)))
-        fragments["week"] = num;
+        fragments["week"] += num;
     else if(std::regex_search(element, std::regex("day", std::regex::icase)))
-        fragments["day"] = num;
+        fragments["day"] += num;
     else if(std::regex_search(element, std::regex("month", std::regex::icase)))
-        fragments["month"] = num;
+        fragments["month"] += num;
     else if(std::regex_search(element, std::regex("year", std::regex::icase)))
-        fragments["year"] = num;
+        fragments["year"] += num;
 
     return fragments;
 }
-- 
2.43.0


From 120bfeecc4cb23bc4bf647a0f48046a6ed5a3597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:53 +0000
Subject: [PATCH 70/71] fix: "last <weekday>" in the first week of the calendar
 and "next <weekday>" in the last one

The search started a week away from the reference and left the calendar
even when the day that is meant lies on it.
---
 src/parsers/en/ENDayOfTheWeekParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENDayOfTheWeekParser.hpp b/src/parsers/en/ENDayOfTheWeekParser.hpp
index 633e9f7..44c4869 100644
--- a/src/parsers/en/ENDayOfTheWeekParser.hpp
+++ b/src/parsers/en/ENDayOfTheWeekParser.hpp
@@ -46,7 +46,7 @@
                     resOffset = fdbf.get_date(tmp);
                 }
                 else if(offset > start.day_of_week().as_number()) {
-                    resOffset = fdaf.get_date(tmp);
+                    resOffset = fdbf.get_date(start);
                 }
                 else {
                     resOffset = tmp;
@@ -56,7 +56,7 @@
             else if(!modifier.compare("next")) {
                 gregorian::date tmp = start + gregorian::weeks(1);
                 if(offset < start.day_of_week().as_number()) {
-                    resOffset = fdbf.get_date(tmp);
+                    resOffset = fdaf.get_date(start);
                 }
                 else if(offset > start.day_of_week().as_number()) {
                     resOffset = fdaf.get_date(tmp);
-- 
2.43.0


From 2ff0b6f9bf7885bb69d2c837178993d23bfb781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:18 +0000
Subject: [PATCH 71/71] fix: a month and day before a word that begins with am
 or pm is not a clock time

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index 9bd4345..52884e6 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -42,7 +42,7 @@
                                             R"(|thirty[ -]first)"
                                         R"())"
                                         R"((?!\s*)"
-                                        R"((?:am|pm))\s*)"
+                                        R"((?:am|pm)\b)\s*)"
                             R"((?:)"
                                 R"((?:to|\-)\s*)"
                                     R"((([0-9]{1,2})(?![0-9]))"
-- 
2.43.0

