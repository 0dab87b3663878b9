#!/usr/bin/env python3
"""Writes properties.jsonl (the statements are kept here, one call each)."""
import json, os
OUT = []
EN = 'src/parsers/en/'
def P(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': None}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    OUT.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
                'why_tests_cant': why, 'anchors': a})

EXEC = 'each recogniser run on a text and a reference time; the results it returns'
CLI = 'standard output of the program'

P('C01', 'Any text and reference is handled without crash, hang or memory error',
  'For every text of at most 1,000 arbitrary bytes and every reference time from the year 1400 to 9999, each recogniser and the command line ends normally: no crash, hang, uncaught exception, undefined behaviour, out-of-bounds access or use of an uninitialised value. The command line prints exactly one line, either "Date:", a tab and the rendered date or range, or "[???] -- Invalid date"; with a wrong number of arguments or a malformed reference date it prints its usage instead, and it always exits with status 0.',
  ['inputs'], 'all byte strings up to 1,000 bytes (without NUL on the command line) x all reference times on the calendar',
  'The tests run some 100 well-formed phrases; malformed, truncated, huge-number or non-ASCII texts and calendar-edge references are not tried, and no test runs the program.',
  ['src/parsers/parsers.cpp', 'src/result.cpp', 'src/utils/utils.cpp', 'time.cpp', EN], 
  [('scan loop, exception barrier', 'src/parsers/parsers.cpp Parser::execute'), ('argument handling', 'time.cpp main')], [EXEC, CLI])

P('C02', 'Every reported date exists on the calendar and can be rendered',
  'Every result reported for any text has a start, and if it is a range an end, that is a real calendar date between the years 1400 and 9999 with a real time of day, and it renders as exactly those dates ("YYYY-Mon-DD HH:MM:SS", start and end joined by " - "). A phrase that denotes no such date (February 30, month 13, the year 1200, minute 75, an offset that leaves the calendar) gets no result from the recogniser of its notation, never a different date. Clock-time ranges, merged ranges and "this week/month/year" never end before they start.',
  ['inputs'], 'all texts, in particular dates and offsets just inside and just outside the calendar, and all reference times',
  'No test asks for a date that does not exist or for an offset past the edge of the calendar; the days, months, years, references and offsets to cross are far more than a test can list.',
  ['src/result.cpp', 'src/parsers/parsers.cpp', EN], 
  [('rejection of impossible dates', 'src/result.cpp ParsedResult::hasPossibleDates'), ('offset limit', 'src/utils/utils.cpp utils::checkOffset'), ('sanity checks', EN + '*')], [EXEC])

P('C03', 'Results point at their own text, in order, and no occurrence is missed',
  'Each result\'s index and length denote a span inside the given text that covers the phrase it was read from and nothing but the phrase and adjoining whitespace or punctuation. The results of one recogniser come in text order and never overlap, and when a text contains several phrases that the recogniser understands, separated by ordinary words, each of them is reported with the value it has on its own, whatever their number and position.',
  ['inputs'], 'texts built from one to many phrases of every notation and ordinary words, up to about 1,000 bytes, with rejected phrases in between',
  'The tests look at the first result of short texts with one phrase; positions of later results, long texts and scanning on after a rejected phrase are not looked at.',
  ['src/parsers/parsers.cpp', 'src/result.cpp', EN], 
  [('scan loop: position in the full text', 'src/parsers/parsers.cpp Parser::execute')], [EXEC])

P('C04', 'Letter case and surrounding words do not change what is recognised',
  'Writing any letters of a text in upper or lower case changes nothing about the results. Putting ordinary words before or after a phrase, or whitespace around the whole text, changes only the index of its result, by the number of bytes put in front, and a keyword inside a longer word ("knowledge", "Mondayish", "todays") is not recognised as that keyword.',
  ['inputs'], 'every phrase of every notation x every capitalisation x every neutral prefix and suffix',
  'Tests use a handful of capitalisations and contexts; two runs of the same phrase are never compared.',
  ['src/parsers/parsers.cpp', 'src/utils/utils.cpp', EN], 
  [('lower-casing and case-insensitive patterns', 'src/parsers/parsers.cpp Parser::execute'), ('word boundaries in the patterns', EN + '*')], [EXEC, CLI])

P('C05', 'The same text and reference always give the same results',
  'The results for a text depend on the text and the reference time only: repeating a call, reusing a recogniser object or using a fresh one, and any history of calls made before in the same process, with whatever texts and references, give the same answer. A call changes neither the reference time it is given nor anything in the text but the case of letters.',
  ['histories', 'inputs'], 'all sequences of calls to all recognisers, refiners and the command line in one process',
  'Each test makes a few calls on a fresh fixture; leaks of state between calls show only for particular histories.',
  ['src/parsers/parsers.cpp', 'src/utils/utils.cpp', 'src/utils/utils.hpp', 'src/result.cpp', EN], 
  [('per-call results, static word tables and patterns', 'src/utils/utils.hpp, getPattern in ' + EN + '*')], [EXEC])

P('C06', 'Casual dates denote the right day relative to the reference',
  'today, tonight and now denote the reference day, yesterday the day before, and tomorrow and tmr the day after, except that during the hour after midnight tomorrow still means the reference day. "last night" denotes the day before when it is later than 6 o\'clock (from 7:00 on) and otherwise the reference day, at midnight; tonight implies 22:00, yesterday implies the hour of the reference, now is exactly the hour, minute and second of the reference, and the others say nothing about the time. Year, month and day are known, across month, year and leap-day boundaries, and beyond the calendar there is no result.',
  ['inputs'], 'all casual date words and spacings x all reference times',
  'One test checks few words at one reference; the rules turn on the hour of the reference and on month, year and leap-day boundaries.',
  [EN + 'ENCasualDateParser.hpp'], [('word to date rules', EN + 'ENCasualDateParser.hpp extract')], [EXEC])

P('C07', 'Casual times of day denote the right hour of the reference day',
  'morning, afternoon, evening or night, and noon, with or without "this" in front, denote 6, 15, 20 and 12 o\'clock on the reference day, with the minute of the reference. All of it, including the weekday of the reference day, is implied rather than known, so that it can be merged with a date.',
  ['inputs'], 'all casual time words, with and without "this" and with any spacing, x all reference times',
  'Two tests with one reference each; they cannot cover all words, spacings and references.',
  [EN + 'ENCasualTimeParser.hpp'], [('word to hour rules', EN + 'ENCasualTimeParser.hpp extract')], [EXEC])

P('C08', 'Deadlines ("in/within <count> <unit>") lie exactly that far ahead',
  '"in" or "within" and a count (number, one to twelve, a/an = 1, a few = 3, half) of seconds, minutes, hours, days, weeks, months or years, in any of the accepted spellings (sec, second, min, minute, hr, hour, wk, yr, with or without s), denotes exactly the reference plus that offset. Offsets in days and longer units give a date without a time; months and years keep the day of the month, clamped to the end of a shorter month, and the last day of a month leads to the last day of a month; shorter units and half a day carry over midnight, month and year boundaries. Half an hour, day, week, month and year are 30 minutes, 12 hours, 3 days, 15 days and 6 months, half a minute is 30 seconds and half a second rounds up to one; all values are implied.',
  ['inputs'], 'all count spellings and numbers, all unit spellings, all reference times',
  'Six tests with one phrase each at the current time; most unit spellings, counts, month ends and midnights are never exercised.',
  [EN + 'ENDeadlineFormatParser.hpp', 'src/utils/utils.hpp', 'src/utils/utils.cpp'], 
  [('count and unit arithmetic', EN + 'ENDeadlineFormatParser.hpp extract'), ('number words', 'src/utils/utils.hpp INTEGER_WORDS')], [EXEC])

P('C09', '"<count> <unit> ... ago" lies exactly that far back',
  'One or more counts with units (number, one to twelve, a/an, a few = 3, half; second, minute, hour, day, week, month, year; each unit at most once) followed by ago, before or earlier, optionally preceded by "within", denote the reference minus the sum of these offsets, borrowing across midnight, month and year boundaries, with month arithmetic that clamps to the end of the month. If a time unit is among them hour, minute and second are known and otherwise there is no time; if a day or longer unit is among them year, month and day are known and otherwise implied. Halves count as in deadlines, and an offset that leaves the calendar gives no result.',
  ['inputs'], 'all counts, units, unit combinations and reference times',
  'The two tests use a few single-unit phrases; combinations of units, clamping and borrowing are not covered.',
  [EN + 'ENTimeAgoFormatParser.hpp', 'src/utils/utils.cpp'], 
  [('fragment extraction', 'src/utils/utils.cpp extractDateTimeUnitFragments'), ('subtraction', EN + 'ENTimeAgoFormatParser.hpp extract')], [EXEC])

P('C10', '"<count> <unit> ... from now/later" lies exactly that far ahead',
  'One or more counts with units (number, one to twelve, a/an, a few = 3, half; second, minute, hour, day, week, month, year; each unit at most once) followed by later, after, from now, henceforth, forward or out denote the reference plus the sum of these offsets, carrying across midnight, month and year boundaries, with month arithmetic that clamps to the end of the month. If a time unit is among them hour, minute and second are known and otherwise there is no time; if a day or longer unit is among them year, month and day are known and otherwise implied. Halves count as in deadlines, and an offset that leaves the calendar gives no result.',
  ['inputs'], 'all counts, units, unit combinations and reference times',
  'The test uses a few single-unit phrases; combinations of units, clamping and carrying are not covered.',
  [EN + 'ENTimeLaterParser.hpp', 'src/utils/utils.cpp'], 
  [('fragment extraction', 'src/utils/utils.cpp extractDateTimeUnitFragments'), ('addition', EN + 'ENTimeLaterParser.hpp extract')], [EXEC])

P('C11', 'Relative periods (this/next/last/past <count> <unit>) are computed exactly',
  '"next" with an optional count (number, one to twelve, few = 3, half) and a unit from second to year denotes the reference plus, and "last" or "past" the reference minus, that offset, with the same month clamping, halves and carrying as deadlines; without a count it is one unit. "this week", "this month" and "this year" are the ranges from Sunday to Saturday of the week, from the first to the last day of the month and from January 1 to December 31 around the reference day; "this" with a count, or with a unit below a week, denotes nothing.',
  ['inputs'], 'all modifiers, counts, units and reference times',
  'The tests use one reference and some 15 phrases, most of them never reached; leap years, month ends, week positions and the words for counts are not covered.',
  [EN + 'ENRelativeDateFormatParser.hpp'], [('period arithmetic', EN + 'ENRelativeDateFormatParser.hpp extract')], [EXEC])

P('C12', 'Week expressions move by whole weeks',
  '"last" or "next", an optional count (digits, or a word from one to twelve; one if missing) and "week" or "weeks" denote the day exactly that many weeks before or after the reference day, and "this week" the reference day itself. All components are implied and no time is given; a word that is not a number between them gives no result, and so does an offset that leaves the calendar.',
  ['inputs'], 'all counts as digits and words, both directions, all reference times',
  'One test with a few phrases at one reference.',
  [EN + 'ENWeekExperessionParser.hpp', 'src/utils/utils.hpp'], [('week arithmetic', EN + 'ENWeekExperessionParser.hpp extract')], [EXEC])

P('C13', 'Weekday names denote the right day of the right week',
  'A weekday name (full or abbreviated: sun, mon, tue, tues, wed, thu, thur, thurs, fri, sat) denotes that day of the week, Sunday to Saturday, that contains the reference day; with "last" or "next" before it or after it (also followed by "week") it is that day of the week before or the week after. "early" or "earlier" in front implies 06:01 and "late" implies 20:01, otherwise there is no time. Year, month and day are known with last and next, and implied otherwise and with "this".',
  ['inputs'], 'all names and abbreviations, modifiers, their positions and timings x all reference days (weekday, month and year boundaries)',
  'Every test uses the same reference, a Monday; the rules depend on the order of the two weekdays and on month and year ends.',
  [EN + 'ENDayOfTheWeekParser.hpp', 'src/utils/utils.hpp'], 
  [('weekday arithmetic', EN + 'ENDayOfTheWeekParser.hpp updateParsedComponent'), ('weekday table', 'src/utils/utils.hpp WEEKDAY_OFFSET')], [EXEC])

P('C14', 'A month name, with or without year, denotes the first of the right month',
  'A month name or abbreviation (jan, feb, mar, apr, jun, jul, aug, sep, sept, oct, nov, dec, may, each with or without a full stop) denotes the first day of that month, in the four-digit year after it (AD, or BE = 543 years ahead) or, without a year, in the year that makes that day closest to the reference day, the reference year if two are equally close. The month and a given year are known, the day and a chosen year are implied, and no time is given; it may stand directly after a punctuation mark ("(March 2012)"); years outside the calendar, and BC, give no result.',
  ['inputs'], 'all month spellings, years, eras and separators x all reference days',
  'Two tests with few months at one reference; choosing the closest year needs references on both sides of every half-year point.',
  [EN + 'ENMonthNameParser.hpp', 'src/utils/utils.hpp'], 
  [('closest year', EN + 'ENMonthNameParser.hpp extract'), ('month table', 'src/utils/utils.hpp MONTH_CONSTANTS')], [EXEC])

P('C15', 'Month-day(-year) dates and day ranges denote exactly the days written',
  'A month name, a day (1 to 31 with or without st/nd/rd/th, or an ordinal word from first to thirty first, hyphenated or not) and optionally a four-digit year with era, after an optional weekday name (itself after an optional "on") and with the usual separators (space, comma, "-", "/"), denotes exactly that date, year, month and day being known; without a year it is the year that puts the date closest to the reference day. "to" or "-" and a second day make it a range that ends on that day of the same month at 23:59, and a weekday name sets the weekday (Sunday = 0) as known. Days that the month does not have, as the start or the end, and BC years give no result, and neither does the number of a clock time ("May 5pm", "December 10:30").',
  ['inputs'], 'all months, days as numbers and words, ranges, years, eras, weekday prefixes and separators x all reference days',
  'The test covers about ten phrases at one reference; leap days, all ordinals, ranges in words and the choice of year need far more.',
  [EN + 'ENMonthNameMiddleEndianParser.hpp', 'src/utils/utils.hpp', 'src/utils/utils.cpp'], 
  [('date, range and year rules', EN + 'ENMonthNameMiddleEndianParser.hpp extract'), ('ordinals', 'src/utils/utils.hpp ORDINAL_WORDS')], [EXEC])

P('C16', 'US holidays fall on the right day of the reference year',
  'New Year\'s is January 1, New Year\'s Eve December 31, Independence July 4, Veterans November 11, Christmas December 25, Christmas Eve December 24, MLK (Martin Luther King Jr/Jnr/Junior) the third Monday of January, President\'s the third Monday of February, Memorial the last Monday of May, Labor the first Monday of September, Columbus the second Monday of October, Thanksgiving the fourth Thursday of November and Black Friday the day after it, each with or without "day". The year is that of the reference and the time is midnight; date, hour and minute are known, and for the holidays that move so is their weekday.',
  ['inputs'], 'all holidays and spellings x all reference years 1400 to 9999 and days in them',
  'Tests check some holidays in one year; the weekday layout of a year has 14 forms, and a wrong rule agrees with the right one in most of them.',
  [EN + 'ENUSHolidaysParser.hpp'], [('holiday rules', EN + 'ENUSHolidaysParser.hpp extract')], [EXEC])

P('C17', 'ISO 8601 dates and timestamps are read field by field',
  'YYYY-MM-DD, optionally followed by "T", hours and minutes, seconds, a fraction and a zone (Z or a signed offset +hh, +hhmm or +hh:mm), denotes exactly these fields, all known, whatever the reference. With a time the zone offset is known, in minutes east of UTC, negative as a whole for a minus sign and 0 for Z or no zone; without a time nothing but the date is known. Fields out of range (month 0 or 13, day 32 or not in the month, hour above 24, minute or second above 59, times after 24:00) give no result.',
  ['inputs'], 'all field values in and out of range, one- and two-digit forms, all zone forms',
  'One test with a few timestamps; combinations of absent fields, one-digit fields, negative offsets with minutes and out-of-range fields are not covered.',
  [EN + 'ENISOFormatParser.hpp'], [('field rules', EN + 'ENISOFormatParser.hpp extract')], [EXEC])

P('C18', 'Clock times and time ranges denote exactly the times written',
  'A clock time (24-hour H:MM or H:MM:SS, also with "." between hour and minute, HMM or HHMM, or an hour 1 to 12 with optional minutes and am/a.m./pm/p.m. or o\'clock, or noon or midnight, optionally after "at" or "from") denotes exactly that time on the reference day: hour and minute, and seconds if written, are known, 12am is 0 and 12pm is 12, and the day is implied. Two of them joined by "-" or "to" (the second in digits) are a range whose end is on the next day if it would otherwise lie before the start; p.m. written on one side only also applies to an hour from 1 to 11 on the other side. Minutes or seconds above 59, hours above 24, times after 24:00, and hours above 12 with a meridiem give no result.',
  ['inputs'], 'all 86,400 times of day in all notations, all pairs of them as ranges, invalid fields, all reference times',
  'Seven tests with some 20 times; 12am/12pm, meridiems given once, seconds and ranges over midnight combine into far more.',
  [EN + 'ENTimeExpressionParser.hpp'], [('meridiem, range and validity rules', EN + 'ENTimeExpressionParser.hpp extract')], [EXEC])

P('C19', 'Known and implied date components obey override and copy rules',
  'For every history of setting, implying and copying date components: a component reads as the last known value set, or if none was set as the last implied value, or 0; it is certain exactly if it was set; implying never changes a known component and setting replaces an implied one. Components are independent of each other, unknown component names change nothing and are never certain, and a copy has the values of the original and is not affected by later changes of it, nor the original by changes of the copy; the date-time they denote is made of exactly year, month, day, hour, minute and second.',
  ['histories'], 'all sequences of set, imply, read, copy and assign operations over several component sets',
  'One test sets and reads a few components once; override order, independence and aliasing are questions about histories.',
  ['src/result.hpp', 'src/result.cpp'], [('known and implied maps', 'src/result.cpp ParsedComponents')], ['getters, certainty query and combined date of the component type'],
  [('knownValues', 'components stated by the text', 'src/result.hpp'), ('impliedValues', 'components filled in', 'src/result.hpp')])

P('C20', 'Results keep their position, tags, start and end through any history',
  'For every history of building, tagging, changing, copying, assigning and storing results in lists, each result has exactly the index, text length, tags, start, and, once an end has been made valid, end that were last given to it or copied with it, and later changes of one result never show in another. A tag is reported exactly if it was set, asking for a tag does not set it, and a result is empty exactly if its index is 0 and its text is empty. A result renders as its start, followed by " - " and its end if it has one, and counts as possible exactly if it names any date or time at all and its dates exist.',
  ['histories'], 'all sequences of operations on several results and a list of results',
  'Two tests copy one result; interactions of tags, end validity, assignment and later mutation are questions about histories.',
  ['src/result.hpp', 'src/result.cpp'], [('copy constructor and assignment', 'src/result.cpp ParsedResult')], ['accessors of the result type'],
  [('__end', 'whether the end date is valid', 'src/result.hpp'), ('tags', 'recognisers and refiners that contributed', 'src/result.hpp')])

P('C21', 'Removing overlaps keeps the longest of overlapping results and all others',
  'Given results in text order, overlap removal returns a subsequence of them, unchanged and in order, in which no two overlap. Going from left to right, of two results that overlap the longer one stays, the earlier one if they are equally long, and results that overlap no other all stay; touching ends are no overlap.',
  ['inputs'], 'all lists of spans in text order (any number, nested, chained, touching, equal)',
  'The one test has one overlap of two; chains of overlaps, ties, touching spans and long lists are not covered.',
  ['src/refiners/OverlapRemovalRefiner.hpp'], [('left-to-right scan', 'src/refiners/OverlapRemovalRefiner.hpp refine')], ['refined list of results'])

P('C22', 'A timezone abbreviation after a clock time shifts the rendered time to UTC',
  'When a text ends with a known timezone abbreviation (any case, 2 to 5 letters, optional whitespace before it and parentheses around it) directly after a clock time or clock-time range, that abbreviation\'s offset in minutes becomes the known zone of the start and of the end, unless one is already known, and the span is extended over it. Start and end are then rendered in UTC: the written time minus the offset, carrying over midnight, month and year. Unknown abbreviations, results that are not clock times, and all other attributes stay as they are, and without an abbreviation the time is rendered as written.',
  ['inputs'], 'all known and unknown abbreviations, letter cases, spacings, all times and ranges, any list of results',
  'One test with one abbreviation; 190 abbreviations, offsets with odd minutes and day carries in both directions are not covered.',
  ['src/refiners/ExtractTimeZoneAbbreviation.hpp', 'src/utils/utils.hpp', 'src/result.cpp'], 
  [('abbreviation lookup', 'src/refiners/ExtractTimeZoneAbbreviation.hpp refine'), ('shift to UTC', 'src/result.cpp ParsedResult::toDate'), ('offset table', 'src/utils/utils.hpp DEFAULT_TIMEZONE_ABBR_MAP')], ['refined list of results', CLI])

P('C23', 'A date next to a time becomes one result with the date\'s day and the time\'s hour',
  'A result that states a date but no hour and an adjacent one, before or after it in the list, that states a time but neither month nor day become one result: day from the first, hour, minute, second and zone from the second, known where they were known, its span reaching from the start of the one to the end of the other and its tags being those of both. If either is a range so is the result, and the end of a time range that passes midnight falls on the day after the date, also at the end of a month or year. Each result is merged at most once, pairs being formed from left to right, and all results that are not merged are kept unchanged, in order and exactly once.',
  ['inputs'], 'all lists of date-only, time-only, complete and ranged results, all dates and times',
  'No test runs this refiner at all.',
  ['src/refiners/en/ENMergeDateAndTimeRefiner.hpp'], [('pairing and component merge', 'src/refiners/en/ENMergeDateAndTimeRefiner.hpp refine, mergeResult')], ['refined list of results', CLI])

P('C24', 'Two dates joined by "to", "and", "through" or "-" become one ordered range',
  'Two neighbouring results without an end of their own that are separated by nothing but one of these connectors and whitespace become one range from the earlier to the later date, whichever is written first, spanning both texts and carrying the tags of both. Results separated by other text without a connector in it, and results that already have an end, are not joined. Each result is joined at most once, pairs being formed from left to right, and all others are kept unchanged, in order and exactly once.',
  ['inputs'], 'all lists of results with and without ends, all connectors and separators, all orders of dates',
  'No test runs this refiner at all.',
  ['src/refiners/en/ENMergeDateRangeRefiner.hpp'], [('pairing and ordering', 'src/refiners/en/ENMergeDateRangeRefiner.hpp refine, mergeResult')], ['refined list of results', CLI])

P('C25', 'The program prints the first date of a sentence, fully combined',
  'For a sentence with one date expression of any notation the program recognises, the printed line is that date (or range) relative to the reference argument, or to the current local time without one. A date (without a time of its own; the midnight of holidays is one) and a time that stand next to each other or are joined by "at", "on", "," or "of" are printed as one date-time, two dates joined by "to", "and", "through" or "-" as a range, a time with a zone abbreviation at the end in UTC, and of several unrelated dates the one that comes first; a sentence without any date prints that it is invalid.',
  ['inputs'], 'sentences made of phrases of all notations and their combinations x all reference times',
  'No test runs the program; that all recognisers and refiners are wired in, in a working order, and that their results combine is visible only end to end.',
  ['time.cpp', 'src/parsers/parsers.cpp', 'src/refiners/', EN], [('recognisers, sort, refiners, output', 'time.cpp main')], [CLI])

P('C26', 'Number words, ordinals and unit fragments have their numeric value',
  'Every ordinal from first to thirty first (hyphen or spaces between the words, any case, surrounding and repeated spaces) has its value and any other word none (0); every cardinal from one to twelve, "a", "an", "a few" = 3 and digits have theirs wherever a count is accepted. A text of counts with units yields exactly one entry per unit with that count, halves being given in the next smaller unit and added to its count. Upper- and lower-casing changes only ASCII letters.',
  ['inputs'], 'all number words and spellings, all combinations of counts and units, all byte strings for case conversion',
  'No test covers these helpers; the tables have some 100 entries and the fragments combine freely.',
  ['src/utils/utils.cpp', 'src/utils/utils.hpp'], [('word tables', 'src/utils/utils.hpp'), ('conversion', 'src/utils/utils.cpp')], ['helper functions for words, fragments and case', EXEC])

P('C27', 'Each result carries the tag of its recogniser, merged results all tags',
  'Every result of a recogniser carries the tag of that recogniser and no other tag (week expressions, which have no tag of their own, carry none). After refinement a result has the tags of exactly the results it was made from, plus that of each refiner that changed it, and the tags of one result never reach another.',
  ['inputs', 'histories'], 'all phrases of all notations x all references, and all lists of tagged results through all refiners',
  'Tests look at single tags of a few results; that no other tag appears and that merging unites them is not looked at.',
  ['src/result.cpp', EN, 'src/refiners/'], [('tagging', 'setTag calls in ' + EN + '* and src/refiners/*')], [EXEC, 'refined list of results'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for p in OUT: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(OUT))
