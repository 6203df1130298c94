// C13: a replica applies the stream faithfully and serves it once promoted.
#include "repl.hpp"
using namespace ref;
static const char* VIP = "10.9.8.7";
static string cfg(const string& extra = "") { return base_config(2, 5, string("virtual_ip = ") + VIP + "\n" + extra); }
static string setq(const string& k, const string& v, u32 f = 0, u32 e = 0) { return bin(bSetQ, k, bset_extras(f, e), v); }
static string touch(const string& k, u32 e) { return bin(bTouch, k, be(e, 4)); }
static string delq(const string& k) { return bin(bDeleteQ, k); }
static rmap applied(const string& stream) { replica r; std::size_t at = 0; rop o; while( parse_repl(stream, at, o) ) r.apply(o); return r.m; }

// the master as seen by the server under test
struct master {
    mc::client c;
    bool up(unsigned ms = 20000) { return mc::accept_connect(c, REPL, ms); }
};
static u32 T0 = 1700000000;
static void begin() { T0 = mc::now_sec(); mc::set_local_ip(VIP, false); mc::set_remote_listen(REPL, true); }
static void promote() { mc::set_local_ip(VIP, true); }
static void wait_promoted() { mc::block_until([]{ return mc::listening(REPL); }, "promotion to master", 30000); }
// the content must be exactly `want` (for the keys given, over time)
static void content(const rmap& want0, const std::vector<string>& keys, const string& what, bool over_time = true) {
    h::client c(PORT, 1); rmap want = want0;
    std::vector<long> when = {0}; if( over_time ) for( auto& p: want ) if( p.second.exp > mc::now_sec() ) { when.push_back(p.second.exp - mc::now_sec() - 2); when.push_back(p.second.exp - mc::now_sec() + 4); }
    std::sort(when.begin(), when.end()); long t0 = mc::now_sec();
    for( long w: when ) {
        if( w > mc::now_sec() - t0 ) { mc::set_time(t0 + w); mc::sleep_ms(1); }
        bool unsure = false; for( auto& p: want ) if( p.second.exp && labs((long)p.second.exp - mc::now_sec()) < 2 ) unsure = true;
        if( unsure ) continue;
        if( w && over_time ) mc::sleep_ms(1300), t0 -= 0;
        for( auto& k: keys ) {
            auto it = want.find(k); bool alive = it != want.end() && (it->second.exp == 0 || it->second.exp > mc::now_sec());
            string g = c.get(k), e = "END\r\n";
            if( alive ) e = "VALUE " + k + " " + std::to_string(it->second.flags) + " " + std::to_string(it->second.val.size()) + "\r\n" + it->second.val + "\r\nEND\r\n";
            if( g != e ) mc::fail("%s: the promoted replica answers \"%s\" for %s where \"%s\" was replicated (expiry time %u, now %lld)", what.c_str(), quote(g, 100).c_str(), k.c_str(), quote(e, 100).c_str(), it == want.end() ? 0 : it->second.exp, (long long)mc::now_sec());
        }
    }
    mc::visit_state(mc::hash_str(show(want))); mc::count_transition();
}
static std::vector<string> ops() {
    const std::vector<string> o = {setq("a", "1", 7), setq("a", "1", 3, T0 + 600), setq("b", "x", 5), setq("a", "", 8, T0 + 500), setq("a", string(5000, 'L'), 9, T0 + 300), setq("a", "22", 0, T0 + 1000), setq("a", string(4096, 'm')), touch("a", T0 + 700), touch("a", 0), delq("a"), setq("b", "x", 0xffffffff, T0 + 400), setq("b", "", 3), touch("b", T0 + 900), delq("b"), setq("c", "old", 1, T0 - 100), setq("b", string(70000, 'z'), 4)};
    return o;
}
// every sequence of replication commands, delivered at once or cut in the middle
static mc::chunked sequences(const string& name, int depth) {
    mc::chunked c; c.name = name; c.count = power(ops().size(), depth) * 2; c.chunk = 1; c.arena = false;
    c.body = [=](u64 from, u64 to) {
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); begin(); string s; std::vector<string> o = ops(); for( int k: digits(i / 2, o.size(), depth) ) s += o[k];
            start_server(cfg(), true); master m; if( ! m.up() ) mc::fail("the server does not connect to the master");
            if( i % 2 ) { m.c.send(s.substr(0, s.size() / 2 + 1)); mc::wait_idle(); m.c.send(s.substr(s.size() / 2 + 1)); } else m.c.send(s);
            mc::wait_idle(); promote(); wait_promoted();
            content(applied(s), {"a", "b", "c"}, "sequence " + std::to_string(i));
            stop_server();
        }
    };
    return c;
}
static string line() {
    const string s = setq("a", "1", 7) + setq("bb", "22", 8, T0 + 500) + touch("a", T0 + 700) + setq("ccc", "", 9) + delq("bb") + setq("a", "4444", 1);
    return s;
}
static const std::vector<string> KEYS = {"a", "bb", "ccc"};
// every cut into three segments
static mc::chunked cuts(const string& name) {
    static u64 n = line().size(); mc::chunked c; c.name = name; c.count = n * (n + 1) / 2; c.chunk = 1; c.arena = false;
    c.body = [=](u64 from, u64 to) {
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); u64 a = 0, r = i; while( r >= n - a ) { r -= n - a; ++a; } u64 b = a + r;
            begin(); start_server(cfg(), true); master m; if( ! m.up() ) mc::fail("the server does not connect to the master");
            for( auto& x: {line().substr(0, a), line().substr(a, b - a), line().substr(b)} ) { m.c.send(x); mc::wait_idle(); }
            promote(); wait_promoted(); content(applied(line()), KEYS, "cut at " + std::to_string(a) + " and " + std::to_string(b), false);
            stop_server();
        }
    };
    return c;
}
// The link ends at every position of the stream, in every way, at various
// moments; then this node is promoted, or the master comes back.
static const int WAYS = 4, AFTER = 3, PHASE = 12;
static void lost(u64 i) {
    u64 p = i % (line().size() + 1); i /= line().size() + 1; int way = i % WAYS; i /= WAYS; int after = i % AFTER; i /= AFTER; int phase = i % PHASE; bool early = phase & 1;
    mc::note("link ends after %llu bytes, way %d, then %d, phase %d", (unsigned long long)p, way, after, phase);
    begin(); start_server(cfg(), true); master m; if( ! m.up() ) mc::fail("the server does not connect to the master");
    m.c.send(line().substr(0, p)); mc::sleep_ms(100 + 97 * phase);
    if( after == 1 && early ) promote();
    switch( way ) { case 0: m.c.close(); break; case 1: m.c.reset(); break; case 2: m.c.shutdown(); break; case 3: m.c.reset(ETIMEDOUT); break; }
    if( after == 0 || after == 1 ) {
        if( after == 0 ) mc::sleep_ms(1 + 383 * phase);
        promote(); wait_promoted(); content(applied(line().substr(0, p)), KEYS, "promoted after the master was lost", false);
    } else {
        // the master returns, the replica starts over
        master n; if( ! n.up(30000) ) mc::fail("the replica does not reconnect");
        string s = setq("bb", "new", 5) + setq("dd", "9"); n.c.send(s); mc::sleep_ms(100 + 97 * phase);
        promote(); wait_promoted(); content(applied(s), {"a", "bb", "ccc", "dd"}, "promoted after resynchronisation", false);
    }
    stop_server();
}
// Schedules: the link ends while the replica is at work.
static mc::scenario ending(const string& name, int bound, bool again) {
    mc::scenario s; s.name = name; s.sched_bound = bound; s.fault_bound = 1;
    s.body = [=] {
        begin(); int way = mc::choose(WAYS, "way"), phase = mc::choose(PHASE, "phase");
        start_server(cfg(), true); master m; if( ! m.up() ) mc::fail("the server does not connect to the master");
        m.c.send(line()); mc::sleep_ms(100); m.c.take();
        mc::faults f; f.send_error = true; f.recv_error = true; f.only = m.c.s; mc::set_faults(f);
        mc::explore_schedules(true);
        mc::sleep_ms(phase * 100);
        m.c.send(setq("dd", "9"));
        switch( way ) { case 0: m.c.close(); break; case 1: m.c.reset(); break; case 2: m.c.shutdown(); break; case 3: m.c.reset(ETIMEDOUT); break; }
        mc::sleep_ms(2500);
        mc::explore_schedules(false); mc::set_faults(mc::faults{});
        if( again ) { master n; if( ! n.up(30000) ) mc::fail("the replica does not reconnect"); string x = setq("bb", "new", 5); n.c.send(x); mc::sleep_ms(3000); promote(); wait_promoted(); content(applied(x), {"a", "bb", "ccc", "dd"}, "after resynchronisation", false); }
        else { promote(); wait_promoted(); rmap w = applied(line()); h::client c(PORT, 1); string d = c.val("dd"); if( d != "<none>" && d != "9" ) mc::fail("wrong value %s", d.c_str()); content(w, KEYS, "promoted", false); }
        stop_server();
    };
    return s;
}
// The master cannot be reached at first, or refuses.
static void unreachable(u64 i) {
    mc::set_local_ip(VIP, false); mc::set_remote_listen(REPL, false); bool prom = i % 2; int t = i / 2 * 700;
    start_server(cfg(), true); mc::sleep_ms(t);
    if( prom ) { promote(); wait_promoted(); h::client c(PORT, 1); if( c.set("k", "v") != "STORED\r\n" || c.val("k") != "v" ) mc::fail("the promoted server does not serve"); }
    else { mc::set_remote_listen(REPL, true); master m; if( ! m.up(30000) ) mc::fail("the server does not connect to the master"); m.c.send(line()); mc::sleep_ms(500); promote(); wait_promoted(); content(applied(line()), KEYS, "promoted", false); }
    stop_server();
}
// Two servers are not needed: what a master sends (C12) is fed back here.
static void volume(u64 i) {
    // many objects in one go, in segments of different sizes
    begin();  start_server(cfg("buckets = 11\n"), true); master m; if( ! m.up() ) mc::fail("the server does not connect to the master");
    string s; std::vector<string> keys; for( int k = 0; k < 300; ++k ) { keys.push_back("key" + std::to_string(k)); s += setq(keys.back(), string(k * 37 % 5000 + 1, 'a' + k % 26), k); if( k % 7 == 3 ) s += delq(keys[k - 2]); if( k % 5 == 0 ) s += touch(keys[k / 2], T0 + 100000 + k); }
    static const std::size_t seg[] = {1000000, 65536, 4096, 1460, 333, 97};
    for( std::size_t p = 0; p < s.size(); p += seg[i] ) { m.c.send(s.substr(p, seg[i])); if( i % 2 ) mc::wait_idle(); }
    mc::wait_idle(); promote(); wait_promoted(); content(applied(s), keys, "volume", false);
    stop_server();
}
template<typename F> static mc::chunked cases(const string& name, u64 n, F f, u64 chunk = 1, bool arena = true) { mc::chunked c; c.name = name; c.count = n; c.chunk = chunk; c.arena = arena; c.body = [f](u64 from, u64 to) { for( u64 i = from; i < to; ++i ) { mc::progress(i); f(i); } }; return c; }
int main(int argc, char** argv) {
    mc::check c; c.property = "C13"; bool t = mc::thorough();
    c.rule = "all sequences of replication commands up to the stated depth (flags, expiry, empty and file-backed values), all cuts of a stream into three segments, the link ending at every byte in every way followed by promotion or resynchronisation, and all schedules and fault placements within the bounds of the link ending while the replica works";
    c.sequences.push_back(sequences("sequences", t ? 4 : 3));
    c.sequences.push_back(cuts("cuts"));
    c.sequences.push_back(cases("lost", (line().size() + 1) * WAYS * AFTER * PHASE, lost));
    c.sequences.push_back(cases("unreachable", 40, unreachable));
    c.sequences.push_back(cases("volume", 6, volume));
    c.scenarios.push_back(ending("ending", 1, false));
    c.scenarios.push_back(ending("ending-resync", 1, true));
    return mc::main_(argc, argv, c);
}
