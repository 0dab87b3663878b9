// Shared helpers of the driver and the fuzz target.  Uses only the public
// interface of the library under test.
#pragma once
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include "src/parsers/en/ENISOFormatParser.hpp"
#include "src/parsers/en/ENTimeLaterParser.hpp"
#include "src/parsers/en/ENMonthNameParser.hpp"
#include "src/parsers/en/ENCasualTimeParser.hpp"
#include "src/parsers/en/ENCasualDateParser.hpp"
#include "src/parsers/en/ENUSHolidaysParser.hpp"
#include "src/parsers/en/ENDayOfTheWeekParser.hpp"
#include "src/parsers/en/ENTimeAgoFormatParser.hpp"
#include "src/parsers/en/ENDeadlineFormatParser.hpp"
#include "src/parsers/en/ENTimeExpressionParser.hpp"
#include "src/parsers/en/ENWeekExperessionParser.hpp"
#include "src/parsers/en/ENRelativeDateFormatParser.hpp"
#include "src/parsers/en/ENMonthNameMiddleEndianParser.hpp"

#ifndef DRV_NO_REFINERS
#include "src/refiners/OverlapRemovalRefiner.hpp"
#include "src/refiners/en/ENMergeDateRangeRefiner.hpp"
#include "src/refiners/ExtractTimeZoneAbbreviation.hpp"
#include "src/refiners/en/ENMergeDateAndTimeRefiner.hpp"
#endif

namespace drv {

static const std::vector<utils::Modifiers>& all_tags() {
    static const std::vector<utils::Modifiers> v{
        utils::ENCasualTimeParser, utils::ENCasualDateParser, utils::ENDeadlineFormatParser,
        utils::ENDayOfTheWeekParser, utils::ENMonthNameMiddleEndianParser, utils::ENTimeLaterParser,
        utils::ENMonthNameParser, utils::ENTimeAgoFormatParser, utils::ENISOFormatParser,
        utils::ENTimeExpressionParser, utils::ENUSHolidaysParser, utils::ENRelativeDateFormatParser,
        utils::ENMergeDateRangeRefiner, utils::ENMergeDateAndTimeRefiner,
        utils::ExtractTimeZoneAbbreviation};
    return v;
}

// names used on the wire, in the order of all_tags()
static const std::vector<std::string>& tag_names() {
    static const std::vector<std::string> v{"ctp", "cdp", "dfp", "dow", "mme", "tlp", "mnp", "tap",
                                            "iso", "txp", "hol", "rel", "mdr", "mdt", "tza"};
    return v;
}

static const std::vector<std::string>& fields() {
    static const std::vector<std::string> v{"year", "month", "mday", "wday",
                                            "hour", "min", "sec", "tzoffset"};
    return v;
}

inline int get(parse::ParsedComponents& c, int f) {
    switch (f) {
        case 0: return c.getYear();
        case 1: return c.getMonth();
        case 2: return c.get_mDay();
        case 3: return c.get_wDay();
        case 4: return c.getHour();
        case 5: return c.getMinute();
        case 6: return c.getSeconds();
        case 7: return c.getTimeZoneOffset();
    }
    return 0;
}

inline void set(parse::ParsedComponents& c, int f, int v) {
    switch (f) {
        case 0: c.setYear(v); break;
        case 1: c.setMonth(v); break;
        case 2: c.set_mDay(v); break;
        case 3: c.set_wDay(v); break;
        case 4: c.setHour(v); break;
        case 5: c.setMinute(v); break;
        case 6: c.setSeconds(v); break;
        case 7: c.setTimeZoneOffset(v); break;
    }
}

inline std::shared_ptr<parser::Parser> make_parser(const std::string& n) {
    if (n == "ctp") return std::make_shared<parser::ENCasualTimeParser>();
    if (n == "dfp") return std::make_shared<parser::ENDeadlineFormatParser>();
    if (n == "cdp") return std::make_shared<parser::ENCasualDateParser>();
    if (n == "dow") return std::make_shared<parser::ENDayOfWeekParser>();
    if (n == "mme") return std::make_shared<parser::ENMonthNameMiddleEndianParser>();
    if (n == "tlp") return std::make_shared<parser::ENTimeLaterParser>();
    if (n == "mnp") return std::make_shared<parser::ENMonthNameParser>();
    if (n == "tap") return std::make_shared<parser::ENTimeAgoFormatParser>();
    if (n == "iso") return std::make_shared<parser::ENISOFormatParser>();
    if (n == "hol") return std::make_shared<parser::ENHolidayParser>();
    if (n == "wxp") return std::make_shared<parser::ENWeekExpressionParser>();
    if (n == "txp") return std::make_shared<parser::ENTimeExpressionParser>();
    if (n == "rel") return std::make_shared<parser::ENRelativeDateFormatParser>();
    throw std::logic_error("driver: unknown parser " + n);
}

static const std::vector<std::string>& parser_names() {
    static const std::vector<std::string> v{"ctp", "dfp", "dow", "cdp", "mme", "tlp", "mnp",
                                            "tap", "txp", "iso", "hol", "wxp", "rel"};
    return v;
}

#ifndef DRV_NO_REFINERS
inline std::shared_ptr<refiners::Refiner> make_refiner(const std::string& n) {
    if (n == "olr") return std::make_shared<OverlapRemover>();
    if (n == "tza") return std::make_shared<ExtractTimeZoneAbbreviation>();
    if (n == "mdt") return std::make_shared<ENMergeDateAndTime>();
    if (n == "mdr") return std::make_shared<ENMergeDateRange>();
    throw std::logic_error("driver: unknown refiner " + n);
}
#endif

inline std::string comp_json(parse::ParsedComponents& c) {
    std::ostringstream o;
    o << "[[";
    for (int f = 0; f < 8; f++) o << (f ? "," : "") << get(c, f);
    o << "],\"";
    for (int f = 0; f < 8; f++) o << (c.isCertain(fields()[f]) ? '1' : '0');
    o << "\"]";
    return o.str();
}

inline std::string esc(const std::string& s) {
    std::ostringstream o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') o << '\\' << ch;
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o << b; }
        else o << ch;
    }
    return o.str();
}

// {"i":index,"n":length,"t":"tag tag","p":possible,"s":comp,"e":comp|null,"d":"rendered"}
inline std::string result_json(parse::ParsedResult& r) {
    std::ostringstream o;
    o << "{\"i\":" << r.getIndex() << ",\"n\":" << r.textLength() << ",\"t\":\"";
    for (size_t k = 0; k < all_tags().size(); k++)
        if (r.getTag(all_tags()[k])) o << tag_names()[k] << ' ';
    o << "\",\"p\":" << (r.hasPossibleDates() ? 1 : 0) << ",\"s\":" << comp_json(r.startDate) << ",\"e\":";
    if (r.end()) o << comp_json(r.endDate);
    else o << "null";
    std::string d;
    try { d = "\"" + esc(r.toDate()) + "\""; }
    catch (std::exception& e) { d = "null,\"x\":\"" + esc(e.what()) + "\""; }
    o << ",\"d\":" << d << "}";
    return o.str();
}

inline std::string results_json(Result& rs) {
    std::string o = "[";
    for (size_t k = 0; k < rs.size(); k++) o += (k ? "," : "") + result_json(rs[k]);
    return o + "]";
}

inline std::string unhex(const std::string& h) {
    std::string s;
    if (h == "-") return s;
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for (size_t i = 0; i + 1 < h.size(); i += 2) s += char(v(h[i]) * 16 + v(h[i + 1]));
    return s;
}

// y,m,d,H,M,S
inline posix_time::ptime to_ref(const std::string& s) {
    int y, mo, d, h, mi, se;
    if (sscanf(s.c_str(), "%d,%d,%d,%d,%d,%d", &y, &mo, &d, &h, &mi, &se) != 6)
        throw std::logic_error("driver: bad reference " + s);
    return posix_time::ptime(gregorian::date(y, mo, d), posix_time::time_duration(h, mi, se));
}
}  // namespace drv
