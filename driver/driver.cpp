// Line protocol server: one request per line on stdin, one JSON line per answer
// on stdout.  Stateless between requests except for the parser objects, which are
// created once and reused ("P") or made fresh ("p").
#include "ops.hpp"
#include <iomanip>
#include <unistd.h>

int chrono_main(int, char**);  // time.cpp, compiled with -Dmain=chrono_main

using namespace drv;
typedef std::vector<std::string> Tok;

static Tok split(const std::string& s, char sep) {
    Tok t;
    std::string cur;
    for (char c : s) {
        if (c == sep) { t.push_back(cur); cur.clear(); }
        else cur += c;
    }
    t.push_back(cur);
    return t;
}

// component op: kF=V (set) or mF=V (imply); F = field number
static void comp_ops(parse::ParsedComponents& c, const std::string& ops) {
    if (ops == "-" || ops.empty()) return;
    for (auto& op : split(ops, ',')) {
        int f, v;
        char k;
        if (sscanf(op.c_str(), "%c%d=%d", &k, &f, &v) != 3) throw std::logic_error("driver: comp op " + op);
        if (k == 'k') set(c, f, v);
        else c.implyComponent(fields()[f], v);
    }
}

// index;hextext;tags(comma);start ops;end ops or "!"(no end)
static parse::ParsedResult build(const std::string& spec, const posix_time::ptime& anchor) {
    Tok p = split(spec, ';');
    parse::ParsedResult r(anchor, std::stol(p[0]), unhex(p[1]));
    if (p[2] != "-")
        for (auto& t : split(p[2], ',')) {
            auto it = std::find(tag_names().begin(), tag_names().end(), t);
            r.setTag(all_tags()[it - tag_names().begin()]);
        }
    comp_ops(r.startDate, p[3]);
    if (p[4] != "!") {
        comp_ops(r.endDate, p[4]);
        r.makeEndDateValid();
    }
    return r;
}

struct Capture {
    std::ostringstream s;
    std::streambuf* old;
    Capture() : old(std::cout.rdbuf(s.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(old); }
};

static std::string run_cli(const Tok& t, size_t from) {
    std::vector<std::string> args{"time"};
    for (size_t i = from; i < t.size(); i++) args.push_back(unhex(t[i]));
    std::vector<std::vector<char>> store;
    for (auto& a : args) { store.emplace_back(a.begin(), a.end()); store.back().push_back(0); }
    std::vector<char*> argv;
    for (auto& s : store) argv.push_back(s.data());
    argv.push_back(nullptr);
    Capture cap;
    int rc = chrono_main(int(args.size()), argv.data());
    return "{\"rc\":" + std::to_string(rc) + ",\"out\":\"" + esc(cap.s.str()) + "\"}";
}

static std::string handle(const std::string& line) {
    static std::map<std::string, std::shared_ptr<parser::Parser>> cache;
    Tok t = split(line, ' ');
    const std::string& c = t[0];
    if (c == "P" || c == "p") {  // parser ref hextext
        std::shared_ptr<parser::Parser> ps;
        if (c == "p") ps = make_parser(t[1]);
        else {
            auto& slot = cache[t[1]];
            if (!slot) slot = make_parser(t[1]);
            ps = slot;
        }
        posix_time::ptime ref = to_ref(t[2]), ref0 = ref;
        std::string text = unhex(t[3]);
        Result rs = ps->execute(text, ref);
        return "{\"r\":" + results_json(rs) + ",\"text\":\"" + esc(text) + "\",\"refkept\":" +
               (ref == ref0 ? "1" : "0") + "}";
    }
    if (c == "C") return run_cli(t, 1);
    if (c == "R") {  // refiner anchor hextext n specs...
        posix_time::ptime ref = to_ref(t[2]);
        Result rs;
        for (int k = 0; k < std::stoi(t[4]); k++) rs.push_back(build(t[5 + k], ref));
        Result out = make_refiner(t[1])->refine(rs, unhex(t[3]));
        return "{\"r\":" + results_json(out) + ",\"in\":" + results_json(rs) + "}";
    }
    if (c == "X") {  // parsers(comma) refiners(comma) ref hextext : composition
        posix_time::ptime ref = to_ref(t[3]);
        std::string text = unhex(t[4]);
        Result all;
        for (auto& n : split(t[1], ',')) {
            Result r = make_parser(n)->execute(text, ref);
            all.insert(all.end(), r.begin(), r.end());
        }
        std::stable_sort(all.begin(), all.end(), [](const parse::ParsedResult& a, const parse::ParsedResult& b) {
            return a.getIndex() < b.getIndex();
        });
        std::string stages = "[" + results_json(all);
        if (t[2] != "-")
            for (auto& n : split(t[2], ',')) {
                all = make_refiner(n)->refine(all, text);
                stages += "," + results_json(all);
            }
        return "{\"stages\":" + stages + "]}";
    }
    if (c == "B") {  // anchor spec : a result built by hand
        parse::ParsedResult r = build(t[2], to_ref(t[1]));
        return result_json(r);
    }
    if (c == "K") {  // component history over 3 slots
        std::vector<parse::ParsedComponents> s(3);
        std::string o = "[";
        bool first = true;
        auto put = [&](const std::string& v) { o += (first ? "" : ",") + v; first = false; };
        for (size_t k = 1; k < t.size(); k++) {
            Tok a = split(t[k], ':');
            int x = std::stoi(a[1]);
            if (a[0] == "s") set(s[x], std::stoi(a[2]), std::stoi(a[3]));
            else if (a[0] == "i") s[x].implyComponent(fields()[std::stoi(a[2])], std::stoi(a[3]));
            else if (a[0] == "I") s[x].implyComponent(unhex(a[2]), std::stoi(a[3]));
            else if (a[0] == "g") put(std::to_string(get(s[x], std::stoi(a[2]))));
            else if (a[0] == "c") put(s[x].isCertain(fields()[std::stoi(a[2])]) ? "1" : "0");
            else if (a[0] == "C") put(s[x].isCertain(unhex(a[2])) ? "1" : "0");
            else if (a[0] == "=") s[x] = s[std::stoi(a[2])];
            else if (a[0] == "y") { parse::ParsedComponents tmp(s[std::stoi(a[2])]); s[x] = tmp; }
            else if (a[0] == "n") s[x] = parse::ParsedComponents();
            else if (a[0] == "d") {
                std::string v;
                try { v = "\"" + posix_time::to_iso_extended_string(s[x].date()) + "\""; }
                catch (std::out_of_range&) { v = "null"; }
                put(v);
            }
            else if (a[0] == "a") put(comp_json(s[x]));
            else throw std::logic_error("driver: K op " + t[k]);
        }
        return o + "]";
    }
    if (c == "S") {  // result history over 3 slots (and a vector)
        posix_time::ptime an = to_ref(t[1]);
        std::vector<parse::ParsedResult> s(3);
        Result vec;
        std::string o = "[";
        bool first = true;
        auto put = [&](const std::string& v) { o += (first ? "" : ",") + v; first = false; };
        for (size_t k = 2; k < t.size(); k++) {
            Tok a = split(t[k], ':');
            int x = std::stoi(a[1]);
            if (a[0] == "n") s[x] = parse::ParsedResult();
            else if (a[0] == "N") s[x] = parse::ParsedResult(an, std::stol(a[2]), unhex(a[3]));
            else if (a[0] == "s") set(s[x].startDate, std::stoi(a[2]), std::stoi(a[3]));
            else if (a[0] == "i") s[x].startDate.implyComponent(fields()[std::stoi(a[2])], std::stoi(a[3]));
            else if (a[0] == "es") set(s[x].endDate, std::stoi(a[2]), std::stoi(a[3]));
            else if (a[0] == "ei") s[x].endDate.implyComponent(fields()[std::stoi(a[2])], std::stoi(a[3]));
            else if (a[0] == "E") s[x].makeEndDateValid();
            else if (a[0] == "X") s[x].setIndex(std::stoi(a[2]));
            else if (a[0] == "T") s[x].setText(unhex(a[2]));
            else if (a[0] == "t") s[x].setTag(all_tags()[std::stoi(a[2])]);
            else if (a[0] == "=") s[x] = s[std::stoi(a[2])];
            else if (a[0] == "y") { parse::ParsedResult tmp(s[std::stoi(a[2])]); s[x] = tmp; }
            else if (a[0] == "v") vec.push_back(s[x]);                    // store in a list
            else if (a[0] == "w") { if (!vec.empty()) s[x] = vec[std::stoul(a[2]) % vec.size()]; }
            else if (a[0] == "q") put(s[x].getTag(all_tags()[std::stoi(a[2])]) ? "1" : "0");
            else if (a[0] == "m") put(s[x].isEmpty() ? "1" : "0");
            else if (a[0] == "a") put(result_json(s[x]));
            else throw std::logic_error("driver: S op " + t[k]);
        }
        return o + "]";
    }
    if (c == "U") {
        if (t[1] == "ord") return std::to_string(utils::argToOrdinalValue(unhex(t[2])));
        if (t[1] == "low") return "\"" + esc(utils::toLowerCase(unhex(t[2]))) + "\"";
        if (t[1] == "up") return "\"" + esc(utils::toUpperCase(unhex(t[2]))) + "\"";
        if (t[1] == "frag") {
            std::ostringstream o;
            try {
                o << std::setprecision(17);
                auto m = utils::extractDateTimeUnitFragments(unhex(t[2]));
                o << "{";
                bool first = true;
                for (auto& kv : m) { o << (first ? "" : ",") << "\"" << kv.first << "\":" << double(kv.second); first = false; }
                o << "}";
            } catch (std::out_of_range& e) { return "{\"oor\":1}"; }
            return o.str();
        }
    }
    throw std::logic_error("driver: bad request " + c);
}

int main() {
    std::ios::sync_with_stdio(false);
    // the library reports on cerr; keep it out of the way
    std::ostringstream sink;
    if (!getenv("DRV_STDERR")) std::cerr.rdbuf(nullptr);
    std::string line;
    while (std::getline(std::cin, line)) {
        std::string out;
        try { out = handle(line); }
        catch (std::logic_error& e) {
            out = std::string("{\"exc\":\"") + esc(e.what()) + "\",\"driver\":" + (strncmp(e.what(), "driver:", 7) ? "0" : "1") + "}";
        }
        catch (std::exception& e) { out = "{\"exc\":\"" + esc(e.what()) + "\",\"driver\":0}"; }
        catch (...) { out = "{\"exc\":\"non-standard exception\",\"driver\":0}"; }
        out += "\n";
        fwrite(out.data(), 1, out.size(), stdout);
        fflush(stdout);
        std::cerr.clear();
    }
    return 0;
}
