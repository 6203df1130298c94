// C07: locks are mutually exclusive and protect the object.
#include "lin.hpp"
using namespace ref;
static cmd U(int conn, bool bin = false) { cmd c; c.kind = 'U'; c.conn = conn; c.bin = bin; return c; }
static cmd flush() { cmd c; c.kind = 'f'; return c; }

// time passes, the collector runs: a locked object outlives expiry and flush
static mc::chunked over_time(const string& name, int depth) {
    static const std::vector<cmd> A = {
        T('s', "a", "5", 1, 2), T('l', "a"), T('u', "a"), T('U', ""), T('d', "a"), T('t', "a", "", 0, 2), T('g', "a"), on(1, B('L', "a", "", 0, -1)), on(1, B('u', "a")), on(1, B('R', "a", "6", 2, 2)), on(1, quiet(B('s', "a", "7", 3))), wait_ms(4000), flush()};
    mc::chunked c; c.name = name; c.count = power(A.size(), depth); c.chunk = 60; c.arena = false;
    c.body = [=](u64 from, u64 to) {
        start_server(base_config(2, 11, "gc_interval = 1\n")); driver d; d.get(0); d.get(1);
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); d.next_case("k" + std::to_string(i) + "_");
            for( int k: digits(i, A.size(), depth) ) { cmd x = A[k]; if( ! specified(d, x) ) break; d.run(x); if( x.kind == 'f' ) { d.run(wait_ms(4000)); } }
            d.run(wait_ms(4000));
            cmd g = T('G', "a"); g.conn = 9; d.run(g); d.flush_all();
            // whoever does not hold the lock is refused
            cmd x = T('A', "a", "z"); x.conn = 9; d.run(x); x = T('l', "a"); x.conn = 9; d.run(x); x = U(9); d.run(x); d.flush_all();
            d.raw(U(0)); d.raw(U(1, true)); d.flush_all(); d.st.m.clear();
        }
        stop_server();
    };
    return c;
}
static mc::scenario contend(const string& name, threads th, int bound, int workers, std::vector<cmd> pre = {}, bool gc = false) {
    mc::scenario s; s.name = name; s.sched_bound = bound; s.weight = th.size() > 2 ? 3 : 1;
    s.body = [=] {
        start_server(base_config(workers, 1, gc ? "gc_interval = 1\n" : "")); driver d; d.prefix = "x"; std::vector<cmd> p = pre; if( p.empty() ) p.push_back(on(50, T('s', "a", "5", 7)));
        for( auto c: p ) { d.raw(c); d.flush_all(); }
        threads t = th; for( std::size_t i = 0; i < t.size(); ++i ) for( auto& c: t[i] ) c.conn = i;
        for( std::size_t i = 0; i < t.size(); ++i ) d.get(i);
        if( gc ) { mc::sleep_ms(5000); d.st.tick(mc::now_sec()); }
        race(d, t, {"a", "b"}, gc ? std::function<void()>([]{ mc::advance_ms(2500); }) : nullptr);
        stop_server();
    };
    return s;
}
// all pairs of a locking program and a competitor
static mc::scenario pairs(const string& name, int bound) {
    mc::scenario s; s.name = name; s.sched_bound = bound; s.weight = 4;
    s.body = [=] {
        static const threads P = {{T('l', "a"), T('A', "a", "1")}, {T('l', "a"), T('u', "a")}, {T('l', "a"), T('d', "a")}, {T('l', "a"), U(0)}, {B('L', "a", "", 0, -1), B('R', "a", "66", 3)}, {B('L', "a", "", 0, -1), B('d', "a")}, {quiet(B('l', "a")), quiet(B('u', "a"))}};
        static const threads Q = {{T('l', "a")}, {B('L', "a", "", 0, -1)}, {T('s', "a", "9", 9)}, {T('d', "a")}, {T('u', "a")}, {U(1)}, {T('g', "a")}, {B('R', "a", "99", 9)}, {num('+', "a", 1)}, {B('u', "a")}, {flush()}};
        start_server(base_config(2, 1)); driver d; d.prefix = "x"; d.raw(on(50, T('s', "a", "5", 7))); d.flush_all();
        threads t; t.push_back(P[mc::choose(P.size(), "locker")]); t.push_back(Q[mc::choose(Q.size() - 1, "competitor")]);
        for( std::size_t i = 0; i < t.size(); ++i ) for( auto& c: t[i] ) c.conn = i;
        d.get(0); d.get(1);
        race(d, t, {"a"});
        stop_server();
    };
    return s;
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C07"; bool t = mc::thorough();
    c.rule = "all lock/modification histories of two (and a third observing) connections up to the stated depth, text and binary mixed, with expiry, flush and collection; and lock/unlock programs competing with other commands under all schedules within the preemption bound, compared with a reference model in every interleaving";
    {
        space s; s.name = "two-owners"; s.cfg = base_config(2, 509); s.depth = t ? 5 : 4; s.keys = {"a"}; s.pre = {T('s', "a", "5", 1)};
        s.alphabet = {T('l', "a"), T('u', "a"), T('U', ""), T('s', "a", "1", 2), T('d', "a"), T('A', "a", "2"), num('+', "a", 3), T('c', "a", "44"), T('g', "a"), on(1, B('L', "a", "", 0, -1)), on(1, B('l', "a")), on(1, quiet(B('u', "a"))), on(1, B('R', "a", "6", 4)), on(1, cas(CAS_BOGUS, B('R', "a", "7"))), on(1, U(1, true)), on(1, B('s', "a", "8", 5)), on(1, quiet(B('d', "a"))), on(1, quiet(B('P', "a", "9")))};
        c.sequences.push_back(explore(s));
    }
    {
        space s; s.name = "two-objects"; s.cfg = base_config(2, 1); s.depth = t ? 6 : 4; s.keys = {"a", "b"}; s.pre = {T('s', "a", "5", 1), T('s', "b", "6", 2)};
        s.alphabet = {T('l', "a"), T('l', "b"), T('u', "a"), T('u', "b"), T('U', ""), T('d', "a"), on(1, T('l', "a")), on(1, T('l', "b")), on(1, T('U', "")), on(1, T('s', "a", "1")), on(1, T('A', "b", "2"))};
        c.sequences.push_back(explore(s));
    }
    {
        // every modification against somebody else's lock, every command of the holder
        space s; s.name = "every-command"; s.cfg = base_config(2, 509); s.depth = t ? 3 : 2; s.keys = {"a"}; s.pre = {T('s', "a", "5", 1), on(0, T('l', "a"))};
        std::vector<cmd> m = {T('s', "a", "1"), T('a', "a", "1"), T('r', "a", "1"), T('A', "a", "1"), T('P', "a", "1"), T('c', "a", "1"), cas(CAS_BOGUS, T('c', "a", "1")), num('+', "a", 1), num('-', "a", 1), T('d', "a"), T('l', "a"), T('u', "a"), T('g', "a"), T('G', "a")};
        std::vector<cmd> b = {B('s', "a", "1"), B('a', "a", "1"), B('r', "a", "1"), B('A', "a", "1"), B('P', "a", "1"), cas(CAS_CURRENT, B('s', "a", "1")), cas(CAS_BOGUS, B('s', "a", "2")), num('+', "a", 1, true), num('-', "a", 1, true, 7, 0), B('d', "a"), cas(CAS_CURRENT, B('d', "a")), B('l', "a"), B('u', "a"), B('g', "a"), withk(B('g', "a")), B('L', "a", "", 0, -1), B('L', "a", "", 0, 100), withk(B('L', "a", "", 0, -1)), B('R', "a", "1"), cas(CAS_CURRENT, B('R', "a", "1"))};
        for( auto& x: m ) { s.alphabet.push_back(on(0, x)); s.alphabet.push_back(on(1, x)); }
        for( auto& x: m ) if( x.kind != 'g' && x.kind != 'G' && x.kind != 'l' && x.kind != 'u' ) s.alphabet.push_back(on(1, quiet(x)));
        for( auto& x: b ) { s.alphabet.push_back(on(2, x)); if( ! x.withkey || true ) s.alphabet.push_back(on(2, quiet(x))); }
        c.sequences.push_back(explore(s));
        s.name = "every-command-binary-holder"; s.pre = {B('s', "a", "5", 1), on(2, B('L', "a", "", 0, -1))};
        c.sequences.push_back(explore(s));
    }
    c.sequences.push_back(over_time("over-time", t ? 4 : 3));
    c.scenarios.push_back(pairs("pairs", 1));
    cmd l = T('l', "a"), u = T('u', "a");
    c.scenarios.push_back(contend("two-lockers", {{l, T('A', "a", "1"), u}, {l, T('A', "a", "2"), u}}, 2, 2));
    c.scenarios.push_back(contend("three-lockers", {{l}, {l}, {B('L', "a", "", 0, -1)}}, t ? 2 : 1, 3));
    c.scenarios.push_back(contend("unlock-vs-lock", {{u, l}, {l}}, 2, 2, {on(50, T('s', "a", "5", 7)), on(0, l)}));
    c.scenarios.push_back(contend("unlock-all-vs-lock", {{U(0)}, {l}, {T('l', "b")}}, t ? 2 : 1, 3, {on(50, T('s', "a", "5", 7)), on(50, T('s', "b", "6", 7)), on(0, l), on(0, T('l', "b"))}));
    c.scenarios.push_back(contend("opposite-order", {{l, T('l', "b"), u, T('u', "b")}, {T('l', "b"), l, T('u', "b"), u}}, 2, 2, {on(50, T('s', "a", "5", 7)), on(50, T('s', "b", "6", 7))}));
    c.scenarios.push_back(contend("replace-and-unlock", {{B('R', "a", "66", 2)}, {B('L', "a", "", 0, -1), B('R', "a", "77", 3)}}, 2, 2, {on(50, T('s', "a", "5", 7)), on(0, B('L', "a", "", 0, -1))}));
    c.scenarios.push_back(contend("delete-vs-lock", {{T('d', "a"), T('s', "a", "1")}, {l, T('A', "a", "2")}}, 2, 2));
    c.scenarios.push_back(contend("held-while-collecting", {{T('A', "a", "1"), u}, {l, T('A', "a", "2")}}, 1, 2, {on(50, T('s', "a", "5", 7, 1)), on(0, l)}, true));
    return mc::main_(argc, argv, c);
}
