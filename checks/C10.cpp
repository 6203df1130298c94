// C10: flush_all takes effect exactly at its time and is never lost.
#include "lin.hpp"
using namespace ref;
static cmd F(long delay = 0, bool bin = false) { cmd c; c.kind = 'f'; c.exp = delay; c.bin = bin; return c; }
static cmd F0(bool bin = false) { cmd c = F(0, bin); c.initial = 1; return c; }   // "0" spelled out
static cmd U(int conn, bool bin = false) { cmd c; c.kind = 'U'; c.conn = conn; c.bin = bin; return c; }
static bool stores(const cmd& c) { return strchr("sarAPc+-tuUlLRT", c.kind) != nullptr; }

// Time advances in units of 6 s.  After a flush that is due, whether objects
// stored before the flush has been carried out survive is not specified, so
// such sequences end there.
static mc::chunked histories(const string& name, const string& cfg, std::vector<cmd> A, int depth) {
    mc::chunked c; c.name = name; c.count = power(A.size(), depth); c.chunk = 60; c.arena = false;
    c.body = [=](u64 from, u64 to) {
        start_server(cfg); driver d; d.get(0); d.get(1);
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); d.next_case("k" + std::to_string(i) + "_");
            d.run(T('s', "a", "5", 1)); d.run(T('s', "b", "6", 2, 1000)); d.run(on(0, T('s', "l", "7", 3))); d.run(on(0, T('l', "l")));
            bool fresh = false;    // a flush was issued and may not have been executed
            for( int k: digits(i, A.size(), depth) ) {
                const cmd& x = A[k];
                if( fresh && stores(x) ) break;
                d.run(x);
                if( x.kind == 'f' && x.exp == 0 ) fresh = true;
                if( x.kind == 'z' ) fresh = false;
            }
            auto look = [&] { for( auto k: {"a", "b", "l"} ) d.run(on(9, T('G', k))); d.flush_all(); };
            look(); d.run(wait_ms(6000)); look();
            // new objects are accepted and stay
            if( d.st.flushes.empty() ) { d.run(on(1, T('s', "n", "1"))); d.run(wait_ms(3000)); d.run(on(9, T('G', "n"))); }
            while( ! d.st.flushes.empty() ) d.run(wait_ms(6000));
            look();
            d.raw(U(0)); d.raw(U(1, true)); d.flush_all(); d.st.m.clear();
        }
        stop_server();
    };
    return c;
}
static string val(h::client& c, const string& k) { return c.val(k); }
// A flush while the collection for an earlier one (or a regular one) runs.
static mc::scenario racing(const string& name, int bound, const string& prog, int first) {
    mc::scenario s; s.name = name; s.sched_bound = bound;
    s.body = [=] {
        start_server(base_config(2, 2, "gc_interval = 1\n"));
        h::client c0(PORT, 0), c1(PORT, 1), obs(PORT, 9);
        for( auto k: {"a", "b", "c", "d"} ) c0.set(k, "old");
        h::client lk(PORT, 2); lk.set("l", "locked"); lk.cmd("lock l\r\n");
        mc::sleep_ms(5000);
        string key(1, "aecf"[mc::choose(4, "second object")]); // in different buckets
        mc::explore_schedules(true);
        if( first == 1 ) c1.send("flush_all\r\n");
        if( first == 2 ) c1.send("flush_all 30\r\n");
        if( first == 3 ) { c1.send("flush_all\r\n"); mc::block_until([&]{ return c1.avail() >= 4; }, "reply", 900); }
        mc::advance_ms(2500);
        if( first >= 0 ) mc::yield();
        c0.send("set " + key + " 0 0 3\r\nnew\r\n" + prog);
        mc::wait_idle_for(6000);
        mc::explore_schedules(false);
        string got = c0.take(); c1.take();
        mc::note("c0 <- %s", quote(got).c_str());
        if( got.compare(0, 8, "STORED\r\n") != 0 ) mc::fail("set answered %s", quote(got).c_str());
        for( auto k: {"a", "b", "c", "d", "e", "f"} ) if( val(obs, k) != "<none>" ) mc::fail("%s was stored before flush_all was acknowledged and is still there 6 s later", k);
        if( val(obs, "l") != "locked" ) mc::fail("flush_all removed a locked object");
        c0.set("a", "x"); c1.set("e", "y"); lk.cmd("unlock l\r\n");
        mc::sleep_ms(first == 2 ? 4000 : 12000);
        if( val(obs, "a") != "x" || val(obs, "e") != "y" || val(obs, "l") != "locked" ) mc::fail("an object stored after flush_all was carried out disappeared");
        if( prog.find("30") != string::npos || first == 2 ) {
            mc::sleep_ms(40000);
            for( auto k: {"a", "e", "l"} ) if( val(obs, k) != "<none>" ) mc::fail("%s: the delayed flush_all was lost", k);
        }
        stop_server();
    };
    return s;
}
// A delayed flush: nothing is removed before, whatever runs.
static mc::scenario early(const string& name, int bound) {
    mc::scenario s; s.name = name; s.sched_bound = bound;
    s.body = [=] {
        start_server(base_config(2, 2, "gc_interval = 1\n"));
        h::client c0(PORT, 0), c1(PORT, 1), obs(PORT, 9);
        for( auto k: {"a", "b"} ) c0.set(k, "old");
        mc::sleep_ms(5000);
        mc::explore_schedules(true);
        mc::advance_ms(2500);
        c0.send("flush_all 20 noreply\r\nset a 0 0 3\r\nnew\r\n"); c1.send(mc::choose(2, "other") ? "append b 0 0 1\r\n1\r\nflush_all 15\r\n" : "get b\r\nset c 0 0 1\r\n1\r\n");
        mc::wait_idle_for(100);
        mc::explore_schedules(false);
        string r = c0.take(); if( r != "STORED\r\n" ) mc::fail("unexpected reply %s", quote(r).c_str());
        mc::sleep_ms(8000);
        if( val(obs, "a") != "new" || val(obs, "b").compare(0, 3, "old") != 0 ) mc::fail("an object disappeared before the delayed flush_all was due");
        mc::sleep_ms(20000);
        if( val(obs, "a") != "<none>" || val(obs, "b") != "<none>" || val(obs, "c") != "<none>" ) mc::fail("the delayed flush_all had no effect");
        c0.set("a", "x"); mc::sleep_ms(5000); if( val(obs, "a") != "x" ) mc::fail("an object stored after flush_all disappeared");
        stop_server();
    };
    return s;
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C10"; bool t = mc::thorough();
    c.rule = "all histories up to the stated depth of stores, immediate, relative and absolute flushes (text, binary, quiet), locks and passing time against a reference model; all schedules within the bound of flushes against a running flush or regular collection and concurrent stores";
    std::vector<cmd> A = {T('s', "a", "8", 8), F(), F(9), on(1, F(-1009, true)), on(1, quiet(F(0, true))), wait_ms(6000), T('g', "a"), on(1, T('a', "b", "9")), T('u', "l"), T('d', "a")};
    c.sequences.push_back(histories("histories", base_config(2, 11, "gc_interval = 100000\n"), A, t ? 5 : 4));
    c.sequences.push_back(histories("histories-collecting", base_config(2, 2, "gc_interval = 1\n"), A, t ? 5 : 4));
    c.sequences.push_back(histories("several-flushes", base_config(2, 11, "gc_interval = 100000\n"), {F(9), F(15), quiet(F(21)), on(1, F(15, true)), on(1, quiet(F(9, true))), F(), wait_ms(6000), T('s', "a", "8", 8)}, t ? 5 : 4));
    c.sequences.push_back(histories("zero-delays", base_config(2, 11, "gc_interval = 100000\n"), {F0(), quiet(F0()), on(1, F0(true)), on(1, quiet(F0(true))), F(9), on(1, F(15, true)), on(1, F(0, true)), wait_ms(6000), T('s', "a", "8", 8)}, t ? 5 : 4));
    // objects that also expire, before, with and after a flush that is due, pending or done
    for( int g = 0; g < 2; ++g ) c.sequences.push_back(histories(g ? "expiring-collecting" : "expiring", base_config(2, 11, g ? "gc_interval = 1\n" : "gc_interval = 100000\n"),
        {wait_ms(6000), T('s', "a", "8", 8, 3), T('s', "a", "9", 8, 8), T('t', "b", "", 0, 8), on(1, B('t', "a", "", 0, 0)), on(1, B('t', "l", "", 0, 3)), F(), F(9), on(1, F(21, true)), T('u', "l")}, t ? 5 : 4));
    c.scenarios.push_back(racing("flush-during-collection", 2, "flush_all\r\n", 0));
    c.scenarios.push_back(racing("flush-during-flush", 2, "flush_all\r\n", 1));
    c.scenarios.push_back(racing("flush-during-carrying-out", 2, "flush_all\r\n", 3));
    c.scenarios.push_back(racing("flush-then-delayed", t ? 2 : 1, "flush_all\r\nflush_all 30\r\n", 0));
    c.scenarios.push_back(racing("flush-against-delayed", t ? 2 : 1, "flush_all\r\n", 2));
    c.scenarios.push_back(racing("flush-twice", t ? 2 : 1, "flush_all noreply\r\nflush_all\r\nget a\r\n", 1));
    c.scenarios.push_back(early("delayed-not-early", 2));
    return mc::main_(argc, argv, c);
}
