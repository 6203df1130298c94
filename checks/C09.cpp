// C09: expiry is exact.
// Time advances in units of 5 s.  The server's clock is refreshed about once
// a second, so an object with expiry 8 is surely alive after one unit and
// surely expired after two; expiry 3 is over after one.
#include "lin.hpp"
using namespace ref;
static const long ABS8 = -1008, ABS3 = -1003;
static cmd U(int conn, bool bin = false) { cmd c; c.kind = 'U'; c.conn = conn; c.bin = bin; return c; }

// every command (first on an expired, or not yet expired, or touched object)
static std::vector<cmd> every() {
    std::vector<cmd> v = {T('s', "a", "1"), T('s', "a", "1", 0, 8), T('a', "a", "2"), T('a', "a", "2", 1, 8), T('r', "a", "3"), T('r', "a", "3", 0, 8), T('A', "a", "4"), T('P', "a", "5"), T('c', "a", "6"), cas(CAS_OLD, T('c', "a", "6")), num('+', "a", 1), num('-', "a", 1), T('t', "a", "", 0, 0), T('t', "a", "", 0, 8), T('t', "a", "", 0, 3), T('t', "a", "", 0, ABS8), T('d', "a"), T('g', "a"), T('G', "a"), T('l', "a"), T('u', "a"), U(0)};
    std::vector<cmd> b = {B('s', "a", "1"), B('s', "a", "1", 0, 8), B('s', "a", "1", 0, ABS8), B('a', "a", "2"), B('r', "a", "3"), B('A', "a", "4"), B('P', "a", "5"), cas(CAS_CURRENT, B('s', "a", "6")), cas(CAS_OLD, B('s', "a", "6")), num('+', "a", 1, true), num('-', "a", 1, true, 7, 8), num('+', "a", 1, true, 7, 0), num('+', "a", 1, true, 7, 3), B('t', "a", "", 0, 8), B('t', "a", "", 0, 0), B('d', "a"), cas(CAS_OLD, B('d', "a")), B('g', "a"), withk(B('g', "a")), B('T', "a", "", 0, 8), B('T', "a", "", 0, 0), withk(B('T', "a", "", 0, 3)), B('L', "a", "", 0, -1), B('L', "a", "", 0, 8), withk(B('L', "a", "", 0, 0)), B('R', "a", "8"), B('R', "a", "8", 0, 8), B('u', "a"), B('l', "a")};
    for( auto& x: b ) { x.conn = 1; v.push_back(x); }
    std::size_t n = b.size();
    for( std::size_t i = 0; i < n; ++i ) if( i % 2 == 0 ) { cmd x = b[i]; if( x.kind == 't' ) continue; v.push_back(on(1, quiet(x))); }
    return v;
}
static mc::chunked run(space s) { return explore(s); }
// touching, storing or reading an expired object while it is being collected
static mc::scenario racing(const string& name, std::vector<cmd> pre, unsigned wait, std::vector<std::vector<cmd>> progs, int bound, bool two) {
    mc::scenario s; s.name = name; s.sched_bound = bound; s.weight = two ? 2 : 1;
    s.body = [=] {
        start_server(base_config(2, 1, "gc_interval = 1\n")); driver d; d.prefix = "x";
        d.get(0); d.get(1);
        for( auto c: pre ) { d.raw(on(50, c)); d.flush_all(); }
        mc::sleep_ms(wait); d.st.tick(mc::now_sec());
        threads th; th.push_back(progs[mc::choose(progs.size(), "first program")]);
        if( two ) th.push_back(progs[mc::choose(progs.size(), "second program")]);
        for( std::size_t i = 0; i < th.size(); ++i ) for( auto& c: th[i] ) c.conn = i;
        race(d, th, {"a", "b"}, []{ mc::advance_ms(2500); });
        stop_server();
    };
    return s;
}
// thirty days, absolute times, and the far future
static void long_times(bool gc) {
    start_server(base_config(2, 5, gc ? "gc_interval = 1\n" : "gc_interval = 100000000\n"));
    h::client c(PORT, 0); bclient b(PORT, 1);
    long now = mc::now_sec();
    auto alive = [&](const string& k) { return c.val(k) != "<none>"; };
    auto want = [&](const string& k, bool a, const char* when) { if( alive(k) != a ) mc::fail("%s %s should be %s %s", gc ? "(collecting)" : "", k.c_str(), a ? "alive" : "expired", when); };
    c.set("month", "1", 0, 2592000); c.set("past", "1", 0, 2592001); c.set("past2", "1", 0, now - 5); c.set("abs", "1", 0, now + 2592000 + 100000); c.set("max", "1", 0, 4294967295L); c.set("never", "1", 0, 0);
    b.call(bSet, "bmonth", bset_extras(0, 2592000), "1"); b.call(bSet, "bpast", bset_extras(0, 2592001), "1"); b.call(bSet, "babs", bset_extras(0, now + 2592000 + 100000), "1"); b.call(bSet, "bmax", bset_extras(0, 0xfffffffe), "1");
    c.set("tmonth", "1"); c.cmd("touch tmonth 2592000\r\n"); c.set("tpast", "1"); c.cmd("touch tpast 2592001\r\n"); c.set("tclear", "1", 0, 5); c.cmd("touch tclear 0\r\n");
    for( auto k: {"past", "past2", "bpast", "tpast"} ) want(k, false, "at once");
    auto all = [&](bool month, bool abs, bool max, const char* when) {
        for( auto k: {"month", "bmonth", "tmonth"} ) want(k, month, when);
        for( auto k: {"abs", "babs"} ) want(k, abs, when);
        for( auto k: {"max", "bmax"} ) want(k, max, when);
        for( auto k: {"never", "tclear"} ) want(k, true, when);
    };
    mc::sleep_ms(10000); all(true, true, true, "after 10 s");
    mc::set_time(now + 2592000 - 10); mc::sleep_ms(5000); all(true, true, true, "just before thirty days");
    mc::set_time(now + 2592000 + 5); mc::sleep_ms(5000); all(false, true, true, "after thirty days");
    mc::set_time(now + 2592000 + 100000 - 10); mc::sleep_ms(5000); all(false, true, true, "before the absolute time");
    mc::set_time(now + 2592000 + 100000 + 5); mc::sleep_ms(5000); all(false, false, true, "after the absolute time");
    mc::set_time(4294967295L - 10); mc::sleep_ms(5000); all(false, false, true, "before 2^32-1");
    mc::set_time(4294967295L + 5); mc::sleep_ms(5000); all(false, false, false, "after 2^32-1");
    stop_server();
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C09"; bool t = mc::thorough();
    c.rule = "all command histories over storing, touching, locking, reading and letting 5 s pass, with expiry times below and above, with and without collection, compared with a reference model; every command followed by every command on an expired object; thirty-day and absolute times; all schedules within the bound of commands against the collection of an expired object";
    const string nogc = base_config(2, 509, "gc_interval = 100000\n"), gc = base_config(2, 509, "gc_interval = 1\n");
    for( int g = 0; g < 2; ++g ) {
        space s; s.name = g ? "histories-collecting" : "histories"; s.cfg = g ? gc : nogc; s.depth = t ? 6 : 4; s.keys = {"a"};
        s.alphabet = {wait_ms(5000), T('s', "a", "1", 1, 8), T('s', "a", "1", 2, ABS3), T('t', "a", "", 0, 8), T('t', "a", "", 0, 0), T('g', "a"), T('a', "a", "3", 3), T('l', "a"), T('u', "a"), on(1, B('T', "a", "", 0, 8)), on(1, num('+', "a", 1, true, 5, 8)), on(1, B('d', "a"))};
        c.sequences.push_back(run(s));
        // values which move between memory and files keep their time
        space f; f.name = g ? "files-collecting" : "files"; f.cfg = s.cfg + "heap_data_limit = 4096\n"; f.depth = t ? 5 : 4; f.keys = {"a"}; f.pre = {T('s', "a", "5", 1, 8)}; string L(4200, 'L');
        f.alphabet = {wait_ms(5000), T('A', "a", L), T('P', "a", L), on(1, B('A', "a", L)), on(1, B('P', "a", "p")), T('s', "a", L, 0, 8), T('c', "a", L, 3, ABS3), on(1, B('R', "a", L)), on(1, B('L', "a", "", 0, -1)), T('t', "a", "", 0, 0), T('t', "a", "", 0, 8), on(1, B('T', "a", "", 0, 8)), T('r', "a", "1", 2, 8), T('u', "a"), on(1, num('+', "a", 1, true, 5, 8))};
        c.sequences.push_back(run(f));
        // the object has expired (alive / expired / never) and is used twice
        for( int p = 0; p < 3; ++p ) {
            space e; e.name = string(p == 0 ? "expired" : p == 1 ? "alive" : "expired-while-locked") + (g ? "-collected" : ""); e.cfg = s.cfg; e.depth = t ? 3 : 2; e.keys = {"a"};
            e.alphabet = every();
            if( p == 0 ) e.pre = {T('s', "a", "5", 1, 3), on(1, B('g', "a")), wait_ms(5000)};
            if( p == 1 ) e.pre = {T('s', "a", "5", 1, 8), on(1, B('g', "a")), wait_ms(5000)};
            if( p == 2 ) e.pre = {T('s', "a", "5", 1, 3), on(1, B('L', "a", "", 0, -1)), wait_ms(5000)};
            c.sequences.push_back(run(e));
        }
        // one command, one unit of time, another command
        space m; m.name = g ? "then-time-collected" : "then-time"; m.cfg = s.cfg; m.depth = 3; m.keys = {"a"}; m.pre = {T('s', "a", "5", 1, 8)};
        m.alphabet = every(); m.alphabet.push_back(wait_ms(5000)); m.alphabet.push_back(wait_ms(10000));
        // only sequences with the wait in the middle
        auto M = std::make_shared<space>(m); u64 n = m.alphabet.size(), e = n - 2;
        mc::chunked inner = explore(m);
        mc::chunked ch = inner; ch.count = e * 2 * e; ch.chunk = 100;
        auto body = inner.body;
        ch.body = [M, e](u64 from, u64 to) {
            start_server(M->cfg); driver d; d.get(0); d.get(1);
            for( u64 i = from; i < to; ++i ) {
                mc::progress(i); d.next_case("k" + std::to_string(i) + "_");
                std::vector<cmd> seq = M->pre; seq.push_back(M->alphabet[i % e]); seq.push_back(M->alphabet[e + i / e % 2]); seq.push_back(M->alphabet[i / e / 2]);
                for( auto& x: seq ) { if( ! specified(d, x) ) break; d.run(x); }
                d.run(on(9, T('G', "a"))); d.raw(U(0)); d.raw(U(1, true)); d.flush_all(); d.st.m.clear();
            }
            stop_server();
        };
        c.sequences.push_back(ch);
    }
    for( int g = 0; g < 2; ++g ) { mc::chunked l; l.name = g ? "long-times-collecting" : "long-times"; l.count = 1; l.chunk = 1; l.arena = false; l.body = [g](u64, u64) { mc::progress(0); long_times(g); }; c.sequences.push_back(l); }
    std::vector<std::vector<cmd>> P = {{T('s', "a", "9", 9)}, {T('a', "a", "8", 8)}, {T('t', "a", "", 0, 100)}, {B('T', "a", "", 0, 100)}, {num('+', "a", 1)}, {num('+', "a", 1, true, 7, 0)}, {T('A', "a", "7")}, {T('d', "a")}, {T('G', "a")}, {B('L', "a", "", 0, -1), B('R', "a", "6")}, {T('c', "a", "4")}, {T('l', "a")}};
    c.scenarios.push_back(racing("expired-vs-collection", {T('s', "b", "0", 3), T('s', "a", "5", 1, 3)}, 5000, P, t ? 2 : 2, false));
    c.scenarios.push_back(racing("expired-vs-collection-two", {T('s', "a", "5", 1, 3)}, 5000, P, 1, true));
    c.scenarios.push_back(racing("alive-vs-collection", {T('s', "a", "5", 1, 100), T('s', "b", "5", 1, 3)}, 5000, P, 2, false));
    return mc::main_(argc, argv, c);
}
