// Coverage-guided fuzzing of every recogniser and of the program.
// Input: 1 byte what to run, 5 bytes reference, then the text (at most 1,000 bytes).
#include "ops.hpp"
#include <iostream>

int chrono_main(int, char**);  // time.cpp, compiled with -Dmain=chrono_main

static void fail(const char* what) {
    fprintf(stderr, "ERROR: property: %s\n", what);
    abort();
}

extern "C" int LLVMFuzzerInitialize(int*, char***) {
    static std::ostringstream sink;
    std::cerr.rdbuf(sink.rdbuf());
    return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    if (size < 7) return 0;
    unsigned what = data[0] % 14;
    unsigned y = 1400 + ((data[1] << 8 | data[2]) % 8600), mo = 1 + data[3] % 12, d = 1 + data[4] % 28;
    unsigned s = (data[5] * 337u) % 86400u;
    std::string text(reinterpret_cast<const char*>(data) + 6, std::min<size_t>(size - 6, 1000));
    static std::vector<std::shared_ptr<parser::Parser>> ps;
    if (ps.empty())
        for (auto& n : drv::parser_names()) ps.push_back(drv::make_parser(n));
    if (what < 13) {
        posix_time::ptime ref(gregorian::date(y, mo, d), posix_time::seconds(s));
        size_t n = text.size();
        Result rs = ps[what]->execute(text, ref);
        if (text.size() != n) fail("the length of the text changed");
        for (auto& r : rs) {
            if (r.getIndex() < 0 || r.getIndex() + r.textLength() > long(n)) fail("a span outside the text");
            r.toDate();
        }
    } else {
        for (auto& c : text)
            if (!c) c = ' ';
        char ref[40];
        snprintf(ref, sizeof ref, "%04u-%02u-%02u %02u:%02u:%02u", y, mo, d, s / 3600, s / 60 % 60, s % 60);
        std::vector<char> a(text.begin(), text.end());
        a.push_back(0);
        char name[] = "time";
        char* argv[] = {name, a.data(), ref, nullptr};
        std::ostringstream out;
        std::streambuf* old = std::cout.rdbuf(out.rdbuf());
        int rc = chrono_main(3, argv);
        std::cout.rdbuf(old);
        if (rc != 0) fail("exit status");
        std::string o = out.str();
        if (o != "[???] -- Invalid date\n" && o.compare(0, 6, "Date:\t") != 0) fail("output");
    }
    return 0;
}
