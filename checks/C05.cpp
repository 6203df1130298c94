// C05: concurrent commands on a key are linearizable.
#include "lin.hpp"
using namespace ref;

static const std::vector<cmd>& alpha() {
    static const std::vector<cmd> a = {
        T('s', "k", "11", 1), T('a', "k", "22", 2), T('r', "k", "33", 3), T('A', "k", "4"), T('P', "k", "6"), num('+', "k", 5), num('-', "k", 3), T('d', "k"), T('c', "k", "77", 4), T('g', "k"), T('G', "k"),
        T('t', "k", "", 0, 1000), T('l', "k"), num('+', "k", 5, true, 100, 0), quiet(B('s', "k", "88", 8)), cas(CAS_CURRENT, B('d', "k")), B('T', "k", "", 0, 500), B('L', "k", "", 0, -1), cas(CAS_CURRENT, B('A', "k", "1")), quiet(cas(CAS_CURRENT, B('r', "k", "44", 9))), quiet(B('d', "k"))};
    return a;
}
static std::vector<cmd> pre(int i) {
    switch( i ) { case 0: return {T('s', "k", "55", 7)}; case 1: return {}; case 2: return {T('s', "k", "55", 7), T('l', "k")}; }
    return {};
}
static void prepare(driver& d, const std::vector<cmd>& p) { for( auto c: p ) { c.conn = 5; d.raw(c); } d.flush_all(); }
static string cfg(const string& x = "") { return base_config(2, 2, x); }

// every pair of commands on one key
static mc::scenario pairs(const string& name, int init, std::vector<int> sel, int bound, bool gc) {
    mc::scenario s; s.name = name; s.sched_bound = bound;
    s.body = [=] {
        std::vector<cmd> A; if( sel.empty() ) A = alpha(); else for( int i: sel ) A.push_back(alpha()[i]);
        start_server(cfg(gc ? "gc_interval = 1\n" : ""));
        driver d; d.prefix = "x"; prepare(d, pre(init));
        int a = mc::choose(A.size(), "first command"), b = mc::choose(A.size(), "second command");
        d.get(0); d.get(1); if( gc ) { mc::sleep_ms(5000); d.st.tick(mc::now_sec()); }
        race(d, {{on(0, A[a])}, {on(1, A[b])}}, {"k"}, gc ? std::function<void()>([]{ mc::advance_ms(2500); }) : nullptr);
        stop_server();
    };
    return s;
}
// two keys sharing a bucket: chains change under a traversal
static mc::scenario chains(const string& name, int bound, bool gc) {
    mc::scenario s; s.name = name; s.sched_bound = bound;
    s.body = [=] {
        auto ops = [](const char* k) { return std::vector<cmd>{T('s', k, "1"), T('d', k), T('A', k, "2"), T('g', k), num('+', k, 1)}; };
        start_server(base_config(2, 1, gc ? "gc_interval = 1\n" : ""));
        driver d; d.prefix = "x";
        int present = mc::choose(4, "present"); std::vector<cmd> p; if( present & 1 ) p.push_back(T('s', "a", "7")); p.push_back(T('s', "m", "8")); if( present & 2 ) p.push_back(T('s', "b", "9"));
        if( gc ) p.push_back(T('s', "e", "dead", 0, 1));
        prepare(d, p);
        auto A = ops("a"), B2 = ops("b"); int a = mc::choose(A.size(), "first command"), b = mc::choose(B2.size(), "second command");
        d.get(0); d.get(1); if( gc ) { mc::sleep_ms(5000); d.st.tick(mc::now_sec()); }
        race(d, {{on(0, A[a])}, {on(1, B2[b])}}, {"a", "m", "b", "e"}, gc ? std::function<void()>([]{ mc::advance_ms(2500); }) : nullptr);
        stop_server();
    };
    return s;
}
// read-modify-write sequences of two and three connections
static mc::scenario sequences(const string& name, int which, int bound, int workers) {
    mc::scenario s; s.name = name; s.sched_bound = bound;
    s.body = [=] {
        start_server(base_config(workers, 1));
        driver d; d.prefix = "x"; prepare(d, pre(0));
        static const std::vector<threads> P = {
            {{num('+', "k", 1), num('+', "k", 2)}, {num('+', "k", 10), num('+', "k", 20)}},
            {{num('+', "k", 1)}, {num('+', "k", 10)}, {num('+', "k", 100)}},
            {{T('A', "k", "a"), T('A', "k", "b")}, {T('P', "k", "c"), T('d', "k")}},
            {{T('d', "k"), T('a', "k", "1")}, {T('d', "k"), T('a', "k", "2")}},
            {{T('a', "n", "1"), T('g', "n")}, {T('a', "n", "2"), T('g', "n")}},
            {{T('c', "k", "1"), T('G', "k")}, {T('c', "k", "2"), T('G', "k")}, {T('c', "k", "3")}},
            {{T('s', "k", "1"), T('d', "k")}, {T('A', "k", "2"), T('g', "k")}},
            {{cas(CAS_CURRENT, num('+', "k", 1, true)), cas(CAS_CURRENT, num('+', "k", 2, true))}, {cas(CAS_CURRENT, num('-', "k", 1, true)), B('g', "k", "", 0, -1)}},
            {{num('+', "n", 1, true, 10, 0)}, {num('+', "n", 2, true, 20, 0)}, {num('-', "n", 3, true, 30, 0)}},
            {{T('s', "k", string(5000, 'a'))}, {T('g', "k"), T('g', "k")}, {T('A', "k", string(5000, 'b'))}},
            {{T('l', "k"), T('s', "k", "1"), T('u', "k")}, {T('l', "k"), T('s', "k", "2"), T('u', "k")}},
            {{quiet(T('s', "k", "1")), quiet(T('s', "k", "2"))}, {T('g', "k"), T('g', "k")}},
        };
        threads th = P[which]; for( std::size_t i = 0; i < th.size(); ++i ) for( auto& c: th[i] ) c.conn = i;
        for( std::size_t i = 0; i < th.size(); ++i ) d.get(i);
        race(d, th, {"k", "n"});
        stop_server();
    };
    return s;
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C05";
    c.rule = "every pair of commands from a 21-command alphabet on one key (present, absent, locked), pairs on two keys of one bucket, with and without a simultaneous collection, and longer read-modify-write programs of two and three connections, under every schedule within the preemption bound; the replies and the final content must be explained by some interleaving executed by the reference model";
    bool t = mc::thorough();
    c.scenarios.push_back(pairs("pairs-present", 0, {}, 1, false));
    c.scenarios.push_back(pairs("pairs-absent", 1, t ? std::vector<int>() : std::vector<int>{0, 1, 2, 3, 5, 7, 8, 9, 13, 14}, 1, false));
    c.scenarios.push_back(pairs("pairs-locked", 2, t ? std::vector<int>() : std::vector<int>{0, 3, 5, 7, 9, 12, 17}, 1, false));
    c.scenarios.push_back(pairs("pairs-collecting", 0, t ? std::vector<int>() : std::vector<int>{0, 3, 5, 7, 9}, 1, true));
    c.scenarios.push_back(chains("bucket", 1, false)); c.scenarios.push_back(chains("bucket-collecting", 1, true));
    // programs with several commands per connection: bound 2 where it is affordable on every change
    for( int i = 0; i < 12; ++i ) c.scenarios.push_back(sequences("program-" + std::to_string(i), i, t || (i != 1 && i != 5 && i != 8 && i != 9) ? 2 : 1, i == 1 || i == 5 || i == 8 ? 3 : 2));
    for( auto& s: c.scenarios ) if( s.name == "pairs-present" ) s.weight = 3;
    return mc::main_(argc, argv, c);
}
