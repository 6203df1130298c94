// C12: the stream sent to replicas reproduces the master's content.
#include "repl.hpp"
using namespace ref;
static const char* CFG = "slave_timeout = 1000000\n";
static cmd F(long delay = 0, bool bin = false) { cmd c; c.kind = 'f'; c.exp = delay; c.bin = bin; return c; }
static cmd U(int conn, bool bin = false) { cmd c; c.kind = 'U'; c.conn = conn; c.bin = bin; return c; }
static cmd J() { cmd c; c.kind = 'J'; return c; }   // another replica joins

static std::vector<cmd> modifications() {
    return {T('s', "a", "1", 2), T('s', "a", "22", 3, 500), T('s', "b", "x", 4), quiet(T('a', "a", "3", 5)), T('r', "a", "4", 6, 900), T('A', "a", "5"), T('P', "a", "6"), T('c', "a", "77", 7), num('+', "a", 3), quiet(num('-', "a", 1)), T('t', "a", "", 0, 3000), T('t', "a", "", 0, 5000000000L), quiet(T('s', "b", "y", 1, 4294967295L)), T('d', "a"), T('l', "a"), T('u', "a"),
        on(1, B('s', "a", "81", 8, 700)), on(1, quiet(B('a', "a", "9", 9))), on(1, quiet(B('r', "a", "10", 10, 800))), on(1, quiet(B('A', "a", "11"))), on(1, B('P', "a", "12")), on(1, num('+', "a", 5, true, 100, 600)), on(1, quiet(num('-', "b", 5, true, 50, 0))), on(1, B('t', "a", "", 0, 4000)), on(1, B('T', "a", "", 0, 5000)), on(1, quiet(B('d', "a"))), on(1, B('L', "a", "", 0, -1)), on(1, B('R', "a", "13", 13, 400)), on(1, quiet(cas(CAS_CURRENT, B('s', "a", "14", 14))))};
}
// one replica that is there from the start, and one that joins where 'J'
// occurs in the history
static mc::chunked histories(const string& name, const string& cfg, std::vector<cmd> A, int depth, bool joins) {
    mc::chunked c; c.name = name; c.count = power(A.size(), depth) * (joins ? depth + 1 : 1); c.chunk = std::max<u64>(40, c.count / 96); c.arena = false;
    c.body = [=](u64 from, u64 to) {
        start_server(cfg); driver d; d.get(0); d.get(1); replica r; r.join(); mc::sleep_ms(3000);
        u64 n = power(A.size(), depth);
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); d.next_case("k" + std::to_string(i) + "_");
            replica late; late.id = 1; int at = joins ? (int)(i / n) : -1, pos = 0;
            auto join = [&] { d.flush_all(); d.trace += "; another replica joins"; late.join(); };
            for( int k: digits(i % n, A.size(), depth) ) {
                if( pos++ == at ) join();
                const cmd& x = A[k]; if( ! specified(d, x) ) break;
                d.run(x); if( x.kind == 'f' ) d.run(wait_ms(4000));
            }
            if( at >= pos ) join();
            d.flush_all();
            if( joins ) { mc::sleep_ms(2500); d.st.tick(mc::now_sec()); }
            compare(d.st, r.content(), d.prefix, d.trace);
            if( late.c.connected() ) { compare(d.st, late.content(), d.prefix, d.trace + " (late replica)"); late.c.close(); mc::sleep_ms(1200); }
            for( cmd x: {U(0), U(1, true)} ) d.raw(x);
            d.flush_all(); d.raw(on(0, T('d', "a"))); d.raw(on(0, T('d', "b"))); d.flush_all();
            if( ! d.st.m.empty() ) d.st.m.clear();
            r.m.clear();
        }
        stop_server();
    };
    return c;
}
// expiry, flushes and evictions reach the replica, too
static mc::chunked collected(const string& name, int depth) {
    static const std::vector<cmd> A = {T('s', "a", "1", 1, 8), T('s', "b", "2", 2), T('t', "a", "", 0, 3000), T('t', "b", "", 0, 3), T('A', "a", "3"), F(), F(9), on(1, B('T', "b", "", 0, 8)), wait_ms(5000), wait_ms(10000)};
    mc::chunked c; c.name = name; c.count = power(A.size(), depth) * 2; c.chunk = 100; c.arena = false;
    c.body = [=](u64 from, u64 to) {
        start_server(base_config(2, 11, string(CFG) + "gc_interval = 1\n")); driver d; d.get(0); d.get(1); replica r; r.join(); mc::sleep_ms(3000);
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); d.next_case("k" + std::to_string(i) + "_");
            replica late; late.id = 1; bool fresh = false; std::vector<long> due; if( i % 2 ) late.join();
            for( int k: digits(i / 2, A.size(), depth) ) {
                const cmd& x = A[k]; if( fresh && x.kind == 's' ) break;
                d.run(x); if( x.kind == 'f' ) due.push_back(mc::now_sec() + x.exp); if( x.kind == 'f' && x.exp == 0 ) fresh = true; if( x.kind == 'z' ) fresh = false;
            }
            d.run(wait_ms(4000));
            // leave room for the difference between the clocks
            auto close = [&] { for( auto& p: d.st.m ) if( p.second.exp && p.second.exp - d.st.now <= 3 ) return true; for( long t: due ) if( t <= d.st.now && t + 4 > d.st.now ) return true; return false; };
            while( close() ) d.run(wait_ms(3000));
            compare(d.st, r.content(), d.prefix, d.trace);
            if( late.c.connected() ) { compare(d.st, late.content(), d.prefix, d.trace + " (late replica)"); late.c.close(); }
            while( ! d.st.flushes.empty() ) d.run(wait_ms(6000));
            d.raw(F()); d.run(wait_ms(4000)); r.m.clear();
        }
        stop_server();
    };
    return c;
}
static void evicted(u64 i) {
    int late = i % 2, locked = i / 2 % 2, n = 1 + i / 4 % 6, replicas = 1 + i / 24 % 2;
    start_server(base_config(2, 5, string(CFG) + "memory_limit = 45000\nheap_data_limit = 1M\ngc_interval = 1\n"));
    h::client c(PORT), lk(PORT, 1); std::vector<replica> r(3); r[0].join(); r[1].id = 1; r[2].id = 2; if( replicas == 2 ) r[1].join();
    std::vector<string> keys;
    for( int k = 0; k < 4; ++k ) { keys.push_back("cold" + std::to_string(k)); c.set(keys.back(), string(10000, 'a' + k)); }
    if( locked ) lk.cmd("lock cold1\r\n");
    mc::sleep_ms(20000);
    for( int k = 0; k < n; ++k ) { keys.push_back("new" + std::to_string(k)); c.set(keys.back(), string(10000, 'm' + k)); if( k == n / 2 && late ) r[2].join(); }
    mc::sleep_ms(40000);
    for( auto& x: r ) if( x.c.connected() ) compare_live(c, keys, x, "after eviction");
    stop_server();
}
// concurrent updates; replicas join before, with, or a moment after them
static const threads& P() {
    static const threads p = {{T('A', "a", "1")}, {T('s', "a", "99", 9)}, {T('d', "a")}, {num('+', "a", 3)}, {T('P', "a", "2"), T('A', "b", "3")}, {T('d', "a"), T('a', "a", "4", 4)}, {B('R', "a", "1")}, {quiet(B('A', "a", "5")), quiet(B('d', "b"))}, {T('l', "a"), T('A', "a", "6"), T('u', "a")}, {B('t', "a", "", 0, 700)}, {quiet(B('s', "c", "7", 7, 100))}};
    return p;
}
enum when { BEFORE, WITH, BETWEEN, COPYING, NONE };
static mc::scenario updates(const string& name, int bound, int workers, int buckets, int n, when w, bool flush = false) {
    mc::scenario s; s.name = name; s.sched_bound = bound; s.weight = 2;
    s.body = [=] {
        start_server(base_config(workers, buckets, string(CFG) + "gc_interval = 1\n")); h::client o(PORT, 50);
        threads t; std::vector<string> txt; int lo = 0; for( int k = 0; k < n; ++k ) { lo += mc::choose(P().size() - lo, "program"); t.push_back(P()[lo]); }
        driver d; d.prefix = ""; for( auto x: {T('s', "a", "5", 1), T('s', "b", "6", 2)} ) { d.raw(on(50, x)); d.flush_all(); }
        for( std::size_t i = 0; i < t.size(); ++i ) for( auto& c: t[i] ) c.conn = i;
        for( std::size_t i = 0; i < t.size(); ++i ) d.get(i);
        std::vector<replica> r(2); r[1].id = 1; r[0].keep_log = true;
        if( w == BEFORE ) r[0].join();
        mc::sleep_ms(5000); d.st.tick(mc::now_sec());
        if( w == COPYING ) { r[0].join(); mc::wait_idle(); }
        freeze(d, t); std::vector<string> out; for( auto& x: t ) out.push_back(bytes_of(d, x));
        mc::note("racing: %s", show(t).c_str());
        mc::explore_schedules(true);
        if( flush ) { o.send("flush_all\r\n"); }
        if( w == COPYING || flush ) mc::advance_ms(2500);
        if( w == WITH ) r[0].join();
        for( std::size_t i = 0; i < t.size(); ++i ) { if( w == BETWEEN && i == 1 ) { mc::yield(); r[1].join(); mc::yield(); } d.cons[i].c->send(out[i]); }
        if( w == WITH ) r[1].join();
        mc::wait_idle_for(6000);
        mc::explore_schedules(false);
        o.take(); for( auto& x: r ) if( x.c.connected() ) compare_live(o, {"a", "b", "c"}, x, show(t));
        // appends by one connection to one key show up in order
        stop_server();
    };
    return s;
}
// every intermediate value of one key appears, in order
static mc::scenario ordered(const string& name, int bound, int n) {
    mc::scenario s; s.name = name; s.sched_bound = bound;
    s.body = [=] {
        start_server(base_config(n, 1, CFG)); h::client o(PORT, 50); o.set("a", "");
        std::vector<std::unique_ptr<h::client>> c; for( int i = 0; i < n; ++i ) c.emplace_back(new h::client(PORT, i));
        replica r; r.keep_log = true; r.join(); mc::sleep_ms(4000); r.pull(); r.log.clear();
        mc::explore_schedules(true);
        for( int i = 0; i < n; ++i ) c[i]->send("append a 0 0 1\r\n" + string(1, '0' + 2 * i) + "\r\nappend a 0 0 1\r\n" + string(1, '1' + 2 * i) + "\r\n");
        mc::wait_idle_for(3000);
        mc::explore_schedules(false);
        r.content(); string last, seen;
        for( auto& x: r.log ) { if( x.op != bSetQ || x.key != "a" || x.val.size() != last.size() + 1 || x.val.compare(0, last.size(), last) != 0 ) mc::fail("update \"%s\" follows \"%s\" in the stream", quote(x.val).c_str(), quote(last).c_str()); last = x.val; }
        if( last.size() != (std::size_t)2 * n ) mc::fail("%zu updates were sent, %d were made", last.size(), 2 * n);
        compare_live(o, {"a"}, r, "appends");
        stop_server();
    };
    return s;
}
// one replica goes away while updates are sent to another
static mc::scenario leaving(const string& name, int bound) {
    mc::scenario s; s.name = name; s.sched_bound = bound;
    s.body = [=] {
        start_server(base_config(2, 2, string(CFG) + "gc_interval = 1\n")); h::client o(PORT, 50), a(PORT, 0), b(PORT, 1); o.set("a", "5"); o.set("b", "6");
        replica r, g; g.id = 1; int how = mc::choose(3, "how"), early = mc::choose(2, "before its copy"); if( ! early ) g.join(); r.join(); mc::sleep_ms(4000); if( early ) g.join();
        mc::explore_schedules(true);
        a.send("append a 0 0 1\r\n1\r\nset c 3 0 1\r\n3\r\n");
        if( how == 0 ) g.c.reset(); else if( how == 1 ) g.c.close(); else g.c.shutdown();
        b.send("delete b\r\nprepend a 0 0 1\r\n2\r\n");
        mc::wait_idle_for(6000);
        mc::explore_schedules(false);
        if( a.take() != "STORED\r\nSTORED\r\n" || b.take() != "DELETED\r\nSTORED\r\n" ) mc::fail("a client was not served correctly");
        compare_live(o, {"a", "b", "c"}, r, "after another replica left");
        replica n; n.id = 2; n.join(); mc::sleep_ms(4000); compare_live(o, {"a", "b", "c"}, n, "replica that joined after another one left");
        stop_server();
    };
    return s;
}
// A worker is held up by a client that does not read, a replica joins and gets
// its copy meanwhile, then the worker carries out the rest of the requests.
static void held_up(u64 i) {
    int prog = i % P().size(), early = i / P().size() % 2, others = i / P().size() / 2 % 2, big = i / P().size() / 4 % 2;
    start_server(base_config(2, 3, string(CFG) + "gc_interval = 1\n")); h::client o(PORT, 50);
    driver d; d.prefix = ""; for( auto x: {T('s', "a", "5", 1), T('s', "b", "6", 2), T('s', "v", string(big ? 900000 : 40000, 'v'), 2)} ) { d.raw(on(50, x)); d.flush_all(); }
    replica first, r; r.id = 1; if( early ) first.join(); mc::sleep_ms(5000); d.st.tick(mc::now_sec());
    auto& slow = *d.get(0).c; slow.set_window(1000); slow.set_autoread(false);
    string out; for( int k = 0; k < (big ? 2 : 40); ++k ) out += "get v\r\n";
    threads t(1, P()[prog]); freeze(d, t); out += bytes_of(d, t[0]);
    slow.send(out); mc::sleep_ms(1500);
    r.join(); mc::sleep_ms(3000);
    if( others ) { for( const char* k: {"a", "b", "c"} ) o.set(k, "9"); mc::sleep_ms(2500); }
    slow.set_window(1 << 24); slow.set_autoread(true); mc::sleep_ms(8000);
    for( auto x: {&first, &r} ) if( x->c.connected() ) compare_live(o, {"a", "b", "c", "v"}, *x, show(t) + " by a worker held up while a replica joined");
    stop_server();
}
// the first copy is slowed down on request; things happen while it goes on
static mc::chunked slow_copy() {
    static const unsigned delay[] = {500, 3000, 10000, 150000}; static const int NB = 20, NP = 12, NT = 10;
    mc::chunked c; c.name = "slow-copy"; c.count = 4 * NP * NT * 2; c.chunk = 1; c.arena = false;
    c.body = [](u64 from, u64 to) {
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); unsigned us = delay[i % 4], prog = i / 4 % NP, at = i / 4 / NP % NT; bool other = i / 4 / NP / NT;
            start_server(base_config(2, NB, string(CFG) + "gc_interval = 1000000\ninitial_repl_sleep_delay_usec = " + std::to_string(us) + "\n"));
            client o(PORT, 0), a(PORT, 1); std::vector<string> keys; for( int k = 0; k < 200; ++k ) { keys.push_back("k" + std::to_string(k)); o.send("set " + keys.back() + " " + std::to_string(k) + " 0 1 noreply\r\n5\r\n"); } o.get("k0"); keys.push_back("new");
            replica first, r, late; first.id = 0; r.id = 1; late.id = 2; if( other ) { first.join(); mc::sleep_ms(20000); first.pull(); }
            unsigned total = us * NB / 1000; r.join(); long t0 = -1, t1 = -1; const unsigned step = std::max(1u, total / NT); bool done = false;
            string what = "copying with " + std::to_string(us) + " us per bucket, program " + std::to_string(prog) + " at " + std::to_string(at) + "/10";
            auto act = [&] {
                long s = mc::now_ms(); done = true; string e;
                switch( prog ) {
                case 0: break;
                case 1: for( int k = 0; k < 200; k += 7 ) { o.set("k" + std::to_string(k), "x"); } break;
                case 2: o.set("new", "n"); break;
                case 3: for( int k = 0; k < 200; k += 9 ) o.cmd("delete k" + std::to_string(k) + "\r\n"); break;
                case 4: for( int k = 0; k < 200; k += 11 ) o.cmd("incr k" + std::to_string(k) + " 3\r\n"); break;
                case 5: for( int k = 0; k < 200; k += 13 ) o.cmd("append k" + std::to_string(k) + " 0 0 1\r\ny\r\n"); break;
                case 6: for( int k = 0; k < 200; k += 17 ) o.cmd("touch k" + std::to_string(k) + " 500\r\n"); break;
                case 7: o.cmd("flush_all\r\n"); break;
                case 8: late.join(); break;
                case 9: if( other ) first.c.reset(); break;
                case 10: r.c.reset(); break;
                case 11: o.cmd("lock k5\r\n"); o.set("k5", "z"); a.cmd("append k6 0 0 1\r\ny\r\n"); o.cmd("unlock k5\r\n"); break;
                }
                if( mc::now_ms() - s > 200 ) mc::fail("%s: commands took %ld ms", what.c_str(), mc::now_ms() - s);
            };
            for( unsigned k = 0, tail = 0; tail < 6 || ! done; ++k ) {
                if( k > 40000 ) mc::fail("%s: the copy does not take place", what.c_str());
                mc::sleep_ms(t0 < 0 ? 1 : step); if( prog == 10 && done ) { ++tail; mc::sleep_ms(1000); continue; }
                std::size_t n = r.m.size(); r.pull();
                if( t0 < 0 ) { if( r.m.size() > 5 ) t0 = mc::now_ms(); else continue; }
                if( r.m.size() != n ) t1 = mc::now_ms(), tail = 0; else ++tail;
                if( ! done && mc::now_ms() - t0 >= long(at * step) ) act(), tail = 0;
            }
            if( prog == 0 ) { // the promised pace: a sleep of at least 10 ms, at most the sum
                long took = t1 - t0, least = long(total) * 17 / 20 - 20, most = long(total) + 2 * step + 20; if( took < least || took > most ) mc::fail("%s: the copy took %ld ms", what.c_str(), took); }
            mc::sleep_ms(8000 + 2 * total); if( prog == 7 ) mc::sleep_ms(4000);
            for( auto x: {&first, &r, &late} ) if( x->c.connected() && ! (x == &r && prog == 10) && ! (x == &first && prog == 9) ) compare_live(o, keys, *x, what + ", replica " + std::to_string(x->id));
            mc::visit_state(i); mc::count_transition(); stop_server();
        }
    };
    return c;
}
// a flush takes long because a copy goes on meanwhile; another replica joins and
// objects are stored while the flush is at work
static mc::chunked slow_flush() {
    static const int NB = 20, NT = 12, NS = 4;
    mc::chunked c; c.name = "slow-flush"; c.count = NT * NS * 3 * 2; c.chunk = 1; c.arena = false;
    c.body = [](u64 from, u64 to) {
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); int at = i % NT, after = i / NT % NS, how = i / NT / NS % 3; bool other = i / NT / NS / 3;
            start_server(base_config(2, NB, string(CFG) + "gc_interval = 1000000\ninitial_repl_sleep_delay_usec = 150000\n"));
            client o(PORT, 0); std::vector<string> keys; for( int k = 0; k < 120; ++k ) { keys.push_back("k" + std::to_string(k)); o.send("set " + keys.back() + " " + std::to_string(k) + " 0 1 noreply\r\n5\r\n"); } o.get("k0");
            replica first, r, late; first.id = 0; r.id = 1; late.id = 2; if( other ) { first.join(); mc::sleep_ms(20000); first.pull(); }
            string what = "a flush while copying, another replica joins " + std::to_string(at * 300) + " ms later, updates " + std::to_string(after * 400) + " ms after that";
            r.join(); o.cmd("flush_all\r\n"); mc::sleep_ms(1 + at * 300); late.join(); mc::sleep_ms(after * 400);
            for( int k = 0; k < 120; ++k ) {
                string n = keys[k]; if( how == 0 ) o.set(n, "x"); else if( how == 1 ) { o.cmd("append " + n + " 0 0 1\r\ny\r\n"); o.cmd("touch " + n + " 1000\r\n"); } else { o.cmd("add " + n + " 7 900 1\r\nz\r\n"); o.cmd("incr " + n + " 3\r\n"); } }
            mc::sleep_ms(16000);
            for( auto x: {&first, &r, &late} ) if( x->c.connected() ) compare_live(o, keys, *x, what + ", replica " + std::to_string(x->id));
            mc::visit_state(i); mc::count_transition(); stop_server();
        }
    };
    return c;
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C12"; bool t = mc::thorough();
    c.rule = "all histories of modifications (every text and binary command that modifies, with flags, expiry and locks) up to the stated depth with a replica connected throughout and another joining at every position; expiry, flush and eviction histories; and updates racing with each other, with a joining replica, with its initial copy, with flush and with a leaving replica under all schedules within the bound";
    std::vector<cmd> m = modifications();
    c.sequences.push_back(histories("stream", base_config(2, 509, string(CFG) + "gc_interval = 100000\n"), m, t ? 4 : 3, false));
    c.sequences.push_back(histories("joining", base_config(2, 3, string(CFG) + "gc_interval = 1\n"), m, t ? 3 : 2, true));
    { std::vector<cmd> B1 = m; B1.push_back(F()); B1.push_back(F(0, true)); B1.push_back(wait_ms(3000)); c.sequences.push_back(histories("collecting", base_config(2, 3, string(CFG) + "gc_interval = 1\n"), B1, t ? 3 : 2, true)); }
    c.sequences.push_back(slow_copy()); c.sequences.push_back(slow_flush()); c.sequences.push_back(collected("expiry-and-flush", t ? 5 : 3));
    mc::chunked e; e.name = "eviction"; e.count = 48; e.chunk = 1; e.arena = false; e.body = [](u64 from, u64 to) { for( u64 i = from; i < to; ++i ) { mc::progress(i); evicted(i); } };
    c.sequences.push_back(e);
    { std::vector<cmd> q; for( cmd x: m ) for( int k = 0; k < 2; ++k ) { x.quiet = k; if( ! x.quiet || ! strchr("lu", x.kind) ) q.push_back(x); } for( const char* k: {"a", "b"} ) for( int j = 0; j < 4; ++j ) { cmd x = on(1, num(j % 2 ? '-' : '+', k, 4, true, 70 + j, j % 2 ? 0 : 500)); x.quiet = j / 2; q.push_back(x); }
      c.sequences.push_back(histories("quiet-and-loud", base_config(2, 509, string(CFG) + "gc_interval = 100000\n"), q, t ? 3 : 2, false)); }
    mc::chunked hu; hu.name = "held-up"; hu.count = P().size() * 8; hu.chunk = 1; hu.arena = false; hu.body = [](u64 from, u64 to) { for( u64 i = from; i < to; ++i ) { mc::progress(i); held_up(i); } };
    c.sequences.push_back(hu);
    c.scenarios.push_back(updates("pairs", 1, 2, 2, 2, BEFORE));
    c.scenarios.push_back(updates("joining-with", 1, 2, 2, 2, WITH));
    c.scenarios.push_back(updates("joining-between", 1, 2, 2, 2, BETWEEN));
    c.scenarios.push_back(updates("joining-flushing", 1, 2, 1, 1, WITH, true));
    c.scenarios.push_back(updates("copying", 1, 2, 1, 2, COPYING));
    c.scenarios.push_back(updates("one-update-joining", 2, 1, 1, 1, WITH));
    c.scenarios.push_back(updates("one-update-copying", 2, 1, 1, 1, COPYING));
    c.scenarios.push_back(updates("flushing", 1, 2, 1, 1, BEFORE, true));
    c.scenarios.push_back(ordered("order-2", 2, 2));
    c.scenarios.push_back(ordered("order-3", 1, 3));
    c.scenarios.push_back(leaving("leaving", 1));
    return mc::main_(argc, argv, c);
}
