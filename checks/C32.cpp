// C32: log records are whole, in order, at the chosen severity, and follow rotation.
#include "ref.hpp"
#include <fstream>
#include <map>
using namespace ref;
using cybozu::severity; using cybozu::logger;
static const char* NAME[] = {"error", "warning", "info", "debug"}; static const char* TAG[] = {"ERROR", "WARN", "INFO", "DEBUG"};
static void rec(int sev, const string& s) {
    switch( sev ) { case 0: logger::error() << s; break; case 1: logger::warning() << s; break; case 2: logger::info() << s; break; default: logger::debug() << s; }
}
static string slurp(const string& p) { std::ifstream f(p); return string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
struct line { int sev; string text; };
// splits a log file; every line must be a whole record
static std::vector<line> parse(const string& body, const string& what) {
    std::vector<line> r; std::size_t at = 0;
    while( at < body.size() ) {
        std::size_t e = body.find('\n', at); if( e == string::npos ) mc::fail("%s: the log ends with part of a record: \"%s\"", what.c_str(), quote(body.substr(at), 200).c_str());
        string l = body.substr(at, e - at); at = e + 1;
        std::tm tm = {}; char lev[8] = ""; int n = 0, Y, M, D, h, m, s;
        if( sscanf(l.c_str(), "%4d-%2d-%2d %2d:%2d:%2d %7[A-Z] %n", &Y, &M, &D, &h, &m, &s, lev, &n) != 7 || n == 0 ) mc::fail("%s: a line of the log is no record: \"%s\"", what.c_str(), quote(l, 200).c_str());
        tm.tm_year = Y - 1900; tm.tm_mon = M - 1; tm.tm_mday = D; tm.tm_hour = h; tm.tm_min = m; tm.tm_sec = s; long t = timegm(&tm);
        if( t > mc::now_sec() || t < 1700000000L ) mc::fail("%s: wrong time in \"%s\"", what.c_str(), quote(l, 200).c_str());
        int v = 0; while( v < 4 && strcmp(lev, TAG[v]) ) ++v; if( v == 4 ) mc::fail("%s: unknown severity in \"%s\"", what.c_str(), quote(l, 200).c_str());
        r.push_back({v, l.substr(n)});
    }
    return r;
}
static std::vector<line> own(const std::vector<line>& v) { std::vector<line> r; for( auto& l: v ) if( l.text.compare(0, 4, "rec ") == 0 ) r.push_back(l); return r; }
static string names(const std::vector<line>& v) { string s; for( auto& l: v ) s += string(s.empty() ? "" : ", ") + TAG[l.sev] + " " + l.text; return "[" + s + "]"; }
static int with(const std::vector<line>& v, const string& t) { int n = 0; for( auto& l: v ) n += l.text.find(t) != string::npos; return n; }

// ---- histories: verbosity changes, signals, rotations and records
enum op { V0, V1, V2, V3, V1N, REC, HUP, ROTATE, USR1, OPS };
static const char* OPN[] = {"verbosity error", "verbosity warning", "verbosity info", "verbosity debug", "verbosity warning noreply", "records", "SIGHUP", "file moved and SIGHUP", "SIGUSR1"};
static mc::chunked histories(int depth) {
    mc::chunked c; c.name = "histories"; c.count = power(OPS, depth) * 4; c.chunk = std::max<u64>(1, c.count / 200); c.arena = false;
    c.body = [=](u64 from, u64 to) {
        string path = mc::scratch() + "/log32." + std::to_string(::syscall(SYS_getpid)), old = path + ".1"; ::unlink(path.c_str());
        logger::instance().open(path); start_server(base_config(1, 2, "gc_interval = 100000\n")); h::client cl(PORT);
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); int thr = i % 4; logger::set_threshold((severity)thr); if( ::truncate(path.c_str(), 0) ) mc::fail("the log file is gone");
            std::vector<std::vector<line>> want(1); std::vector<std::vector<line>> got; string tr = string("threshold ") + NAME[thr]; int n = 0;
            auto collect = [&](const string& p) { got.push_back(own(parse(slurp(p), tr))); if( names(got.back()) != names(want[got.size() - 1]) ) mc::fail("after %s: the log file contains %s, not %s", tr.c_str(), names(got.back()).c_str(), names(want[got.size() - 1]).c_str()); };
            for( int o: digits(i / 4, OPS, depth) ) {
                tr += string(", ") + OPN[o];
                if( o <= V3 ) { if( cl.cmd(string("verbosity ") + NAME[o] + "\r\n") != "OK\r\n" ) mc::fail("after %s: no OK", tr.c_str()); thr = o; }
                if( o == V1N ) { cl.send("verbosity warning noreply\r\n"); mc::wait_idle(); thr = 1; }
                if( o == REC ) for( int s = 0; s < 4; ++s ) { string t = "rec " + std::to_string(n++) + (s == 2 ? string(3000, 'x') : string()); rec(s, t); if( s <= thr ) want.back().push_back({s, t}); }
                if( o == HUP || o == ROTATE ) {
                    if( o == ROTATE ) { collect(path); if( ::rename(path.c_str(), old.c_str()) ) mc::fail("rename"); rec(0, "rec " + std::to_string(n++)); want.back().push_back({0, "rec " + std::to_string(n - 1)}); got.pop_back(); }
                    std::size_t before = o == HUP ? with(parse(slurp(path), tr), "SIGHUP") : 0;
                    mc::raise_signal(SIGHUP); mc::sleep_ms(100);
                    if( o == ROTATE ) { collect(old); want.emplace_back(); }
                    std::size_t now = with(parse(slurp(path), tr), "SIGHUP"); if( now != before + (thr >= 2) ) mc::fail("after %s: %zu records of SIGHUP, expected %zu", tr.c_str(), now, before + (thr >= 2));
                }
                if( o == USR1 ) { std::size_t before = with(parse(slurp(path), tr), " clients, "); mc::raise_signal(SIGUSR1); mc::sleep_ms(100); std::size_t now = with(parse(slurp(path), tr), " clients, "); if( now != before + (thr >= 2) ) mc::fail("after %s: the status was written %zu times, expected %d", tr.c_str(), now - before, thr >= 2); }
                mc::count_transition();
            }
            if( cl.cmd("version\r\n").compare(0, 7, "VERSION") ) mc::fail("after %s: clients are not served", tr.c_str());
            collect(path); mc::visit_state(mc::hash_str(tr));
        }
        stop_server(); logger::instance().close(); ::unlink(path.c_str()); ::unlink(old.c_str());
    };
    return c;
}
// ---- several threads write while the file is moved away and reopened
static mc::scenario rotation(const string& name, int sb, int fb, int threads, int records, std::size_t chunk, int mode) {
    mc::scenario s; s.name = name; s.sched_bound = sb; s.fault_bound = fb; s.races = true;
    s.body = [=] {
        string path = mc::scratch() + "/rot32." + std::to_string(::syscall(SYS_getpid)), old = path + ".1"; ::unlink(path.c_str()); ::unlink(old.c_str());
        logger::instance().open(path); start_server(base_config(1, 2, "gc_interval = 100000\n")); logger::set_threshold(severity::info); h::client cl(PORT); mc::sleep_ms(1500);
        mc::set_file_points(true); mc::set_file_chunk(chunk); mc::faults f; f.file_eintr = fb > 0; mc::set_faults(f);
        mc::explore_schedules(true);
        for( int t = 0; t < threads; ++t ) mc::spawn("writer", [=]{ for( int k = 0; k < records; ++k ) rec(t % 3, "rec " + std::to_string(t) + "." + std::to_string(k)); });
        if( mode & 1 ) { ::rename(path.c_str(), old.c_str()); mc::raise_signal(SIGHUP); }
        if( mode & 2 ) mc::raise_signal(SIGUSR1);
        if( mode & 4 ) cl.send("verbosity error\r\n");
        mc::wait_idle_for(200);
        mc::explore_schedules(false); mc::set_file_chunk(0); mc::set_faults(mc::faults()); mc::set_file_points(false);
        string ofile = slurp(old), nfile = slurp(path);
        if( mode & 1 ) rec(0, "rec last");
        auto a = parse(ofile, name), b = parse(nfile, name), n2 = parse(slurp(path), name); if( mode & 1 ) { if( n2.empty() || n2.back().text != "rec last" ) mc::fail("a record written after SIGHUP was handled is not in the new file but %s", names(n2).c_str()); if( with(a, "got SIGHUP") || (with(b, "got SIGHUP") != 1 && ! (mode & 4)) ) mc::fail("the record of SIGHUP is not in the new file"); }
        a.insert(a.end(), b.begin(), b.end()); a = own(a); std::map<string, int> count; std::vector<int> next(threads, 0);
        for( auto& l: a ) { int t = 0, k = 0; sscanf(l.text.c_str(), "rec %d.%d", &t, &k); if( l.sev != t % 3 ) mc::fail("wrong severity in \"%s\"", l.text.c_str()); if( k < next[t] || (k != next[t] && ! (mode & 4)) ) mc::fail("the records of thread %d are not complete and in order: %s", t, names(a).c_str()); next[t] = k + 1; }
        for( int t = 0; t < threads; ++t ) if( next[t] != records && ! ((mode & 4) && t % 3) ) mc::fail("records of thread %d are missing: %s", t, names(a).c_str());
        if( (mode & 4) && cl.take() != "OK\r\n" ) mc::fail("no reply to verbosity");
        logger::set_threshold(severity::error); mc::visit_state(mc::hash_str(names(a)));
        stop_server(); logger::instance().close(); ::unlink(path.c_str()); ::unlink(old.c_str());
    };
    return s;
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C32"; bool t = mc::thorough();
    c.rule = "all histories up to the stated depth of verbosity commands, records of every severity (short and long), SIGHUP with and without the file having been moved away, and SIGUSR1, from every initial threshold: each log file must contain exactly the records due, whole, in order and with the right time and severity; and all schedules within the bound of several threads writing records while the server handles SIGHUP, SIGUSR1 or verbosity, with writes split into pieces and interrupted";
    c.sequences.push_back(histories(t ? 5 : 4));
    c.scenarios.push_back(rotation("two-writers", 2, 0, 2, 2, 0, 0)); c.scenarios.push_back(rotation("split-writes", 2, 1, 2, 1, 10, 0));
    c.scenarios.push_back(rotation("rotation", 2, 0, 1, 2, 0, 1)); c.scenarios.push_back(rotation("rotation-two-writers", 2, 0, 2, 1, 0, 1)); c.scenarios.push_back(rotation("rotation-split", 1, 1, 2, 1, 25, 1));
    c.scenarios.push_back(rotation("status", 2, 0, 2, 1, 0, 2)); c.scenarios.push_back(rotation("rotation-and-status", 1, 0, 1, 2, 0, 3)); c.scenarios.push_back(rotation("verbosity", 2, 0, 2, 2, 0, 4)); c.scenarios.push_back(rotation("rotation-and-verbosity", 1, 0, 2, 2, 0, 5));
    return mc::main_(argc, argv, c);
}
