// C06: a compare-and-swap never overwrites an update it did not see.
#include "lin.hpp"
using namespace ref;

static const std::vector<cmd>& mods() {
    static const std::vector<cmd> a = {
        T('s', "a", "5", 7), T('s', "a", "6"), T('a', "a", "5", 7), T('r', "a", "5", 7), T('A', "a", ""), T('A', "a", "1"), T('P', "a", "1"), num('+', "a", 0), num('+', "a", 1), num('-', "a", 1), T('d', "a"), T('t', "a", "", 0, 100), on(1, B('t', "a", "", 0, 0)),
        T('c', "a", "5", 7), cas(CAS_BOGUS, T('c', "a", "9")), T('l', "a"), T('u', "a"), on(1, B('s', "a", "5", 7)), on(1, quiet(B('r', "a", "5", 7))), on(1, quiet(B('d', "a"))), on(1, num('+', "a", 2, true, 5, 0)), on(1, B('L', "a", "", 0, -1)),
        on(1, B('R', "a", "5", 7)), on(1, cas(CAS_CURRENT, B('A', "a", "2"))), on(1, B('T', "a", "", 0, 50)), on(1, B('U', "")), wait_ms(4000)};
    return a;
}
// values which move between memory and files
static const std::vector<cmd>& fmods() {
    static const string L(4200, 'L'), M(3000, 'M');
    static const std::vector<cmd> a = {
        T('s', "a", L, 7), T('s', "a", "6"), T('r', "a", L, 7), T('A', "a", ""), T('A', "a", "1"), T('A', "a", M), T('P', "a", ""), T('P', "a", "1"), T('P', "a", M), num('+', "a", 1), T('d', "a"), T('t', "a", "", 0, 0), T('c', "a", L, 7), on(1, quiet(B('s', "a", L, 7))),
        on(1, quiet(B('A', "a", "2"))), on(1, quiet(B('P', "a", "2"))), on(1, cas(CAS_CURRENT, B('P', "a", "2"))), on(1, B('R', "a", L, 7)), on(1, B('L', "a", "", 0, -1)), T('l', "a")};
    return a;
}
static const std::vector<cmd>& conds() {
    static const std::vector<cmd> a = {
        on(2, T('c', "a", "77", 1)), on(2, quiet(T('c', "a", "77", 1))), on(3, B('s', "a", "88", 2)), on(3, B('a', "a", "88", 2)), on(3, B('r', "a", "88", 2)), on(3, B('A', "a", "8")), on(3, B('P', "a", "8")), on(3, num('+', "a", 100, true)), on(3, num('-', "a", 1, true, 3, 0)), on(3, B('d', "a")),
        on(3, quiet(B('s', "a", "88", 2))), on(3, quiet(B('d', "a"))), on(3, quiet(B('a', "a", "88", 2))), on(3, quiet(B('r', "a", "88", 2))), on(3, quiet(B('A', "a", "8"))), on(3, quiet(B('P', "a", "8"))), on(3, quiet(num('+', "a", 100, true))), on(3, quiet(num('-', "a", 1, true, 3, 0))),
        on(1, B('R', "a", "88", 2)), on(1, quiet(B('R', "a", "88", 2)))};   // the last two need the lock
    return a;
}
// read the identifier, modify in every way, then use it
static mc::chunked histories(const string& name, int depth, bool wait, bool withexp, bool files = false) {
    mc::chunked c; c.name = name; std::vector<cmd> M = files ? fmods() : mods(); if( ! wait && ! files ) M.pop_back();
    u64 nm = M.size(), nc = conds().size(); c.count = power(nm, depth) * nc; c.chunk = std::max<u64>(1, std::min<u64>(400, c.count / 64)); c.arena = false;
    c.body = [=](u64 from, u64 to) {
        start_server(base_config(2, 509, withexp ? "gc_interval = 1\n" : files ? "heap_data_limit = 4096\n" : "")); driver d; d.get(0); d.get(1); d.get(2); d.get(3);
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); d.next_case("k" + std::to_string(i) + "_");
            cmd f = conds()[i % nc];
            cmd init = T('s', "a", files ? string(4300, 'f') : "5", 7, withexp ? 2 : 0); init.conn = 2; d.run(init);
            cmd g = T('G', "a"); g.conn = 2; d.run(g); d.flush_all();
            obj* o = d.st.find(d.K("a")); if( ! o ) mc::fail("harness: the object vanished"); u64 ver = o->ver; u64 id = d.ids.at({d.K("a"), ver});
            for( int k: digits(i / nc, nm, depth) ) if( specified(d, M[k]) ) d.run(M[k]);
            f.cas = CAS_FIXED; f.fid = id; f.fver = ver; d.run(f); d.flush_all();
            if( f.bin && f.quiet ) { cmd n = B('n', ""); n.conn = f.conn; d.run(n); }
            cmd v = T('G', "a"); v.conn = 2; d.run(v); d.flush_all();
            for( int cn: {0, 1} ) { cmd x; x.kind = 'U'; x.conn = cn; x.bin = cn == 1; d.raw(x); }
            d.flush_all(); d.st.m.clear();
        }
        stop_server();
    };
    return c;
}
// identifiers nobody was given: zero, extremes, every single-bit neighbour
static mc::chunked forged(const string& name) {
    mc::chunked c; c.name = name; static const u64 IDS = 64 + 10, STATES = 5; u64 nc = conds().size(); c.count = IDS * STATES * nc; c.chunk = 60; c.arena = false;
    c.body = [=](u64 from, u64 to) {
        start_server(base_config(2, 509)); driver d; for( int i = 0; i < 5; ++i ) d.get(i);
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); d.next_case("k" + std::to_string(i) + "_"); cmd f = conds()[i % nc]; u64 w = i / nc % IDS, st = i / nc / IDS;
            d.run(on(4, T('s', "b", "6", 7))); d.run(on(4, T('G', "b")));
            d.run(on(4, T('s', "a", "5", 7))); d.run(on(4, T('s', "a", "4", 7))); d.run(on(4, T('G', "a"))); d.flush_all();
            u64 id = d.ids.at({d.K("a"), d.st.find(d.K("a"))->ver}), other = d.ids.at({d.K("b"), d.st.find(d.K("b"))->ver});
            if( st == 1 ) d.run(on(f.conn, f.bin ? B('l', "a") : T('l', "a"))); if( st == 2 ) d.run(on(4, T('l', "a"))); if( st == 3 ) d.run(on(4, T('d', "a"))); if( st == 4 ) { d.run(on(4, T('d', "a"))); d.run(on(4, T('s', "a", "4", 7))); d.run(on(4, T('G', "a"))); d.flush_all(); }
            const u64 rest[10] = {0, 1, ~0ull, 1ull << 63, id + 1, id - 1, id * 2, id << 32, id + (1ull << 32), other};
            u64 v = w < 64 ? id ^ (1ull << w) : rest[w - 64]; obj* o = d.st.find(d.K("a")); bool now = false; if( o && st == 4 ) now = v == d.ids.at({d.K("a"), o->ver});
            if( (v == 0 && f.bin) || now ) { d.raw(T('U', "")); d.st.m.clear(); continue; }     // 0 means no condition in the binary protocol
            f.cas = CAS_FIXED; f.fid = v; f.fver = ~0ull; if( specified(d, f) ) d.run(f); d.flush_all();
            if( f.bin && f.quiet ) { cmd n = B('n', ""); n.conn = f.conn; d.run(n); }
            d.run(on(4, T('G', "a"))); for( int cn = 0; cn < 5; ++cn ) { cmd x; x.kind = 'U'; x.conn = cn; x.bin = cn == 1 || cn == 3; d.raw(x); }
            d.flush_all(); d.st.m.clear();
        }
        stop_server();
    };
    return c;
}
// competing conditional updates that carry the same identifier
static mc::scenario compete(const string& name, threads th, int bound, int workers, string init = "5") {
    mc::scenario s; s.name = name; s.sched_bound = bound; s.weight = th.size();
    s.body = [=] {
        start_server(base_config(workers, 1)); driver d; d.prefix = "x";
        if( ! init.empty() ) { cmd p = T('s', "a", init, 7); p.conn = 50; d.raw(p); d.flush_all(); }
        threads t = th; for( std::size_t i = 0; i < t.size(); ++i ) for( auto& c: t[i] ) c.conn = i;
        for( std::size_t i = 0; i < t.size(); ++i ) d.get(i);
        race(d, t, {"a"});
        stop_server();
    };
    return s;
}
// every pair of a conditional update with any other modification
static mc::scenario pairs(const string& name, int bound, bool both) {
    mc::scenario s; s.name = name; s.sched_bound = bound; s.weight = 4;
    s.body = [=] {
        std::vector<cmd> C = conds(); C.resize(C.size() - 2); std::vector<cmd> M = both ? C : mods(); if( ! both ) { M.pop_back(); std::vector<cmd> N; for( auto& m: M ) if( m.kind != 'U' && m.kind != 'u' && m.kind != 'R' && m.kind != 't' && m.kind != 'T' ) N.push_back(m); M = N; }
        start_server(base_config(2, 1)); driver d; d.prefix = "x"; cmd p = T('s', "a", "5", 7); p.conn = 50; d.raw(p); d.flush_all();
        cmd a = C[mc::choose(C.size(), "conditional update")], b = M[mc::choose(M.size(), "competitor")]; if( both ) b.cas = CAS_CURRENT; a.cas = CAS_CURRENT;
        a.conn = 0; b.conn = 1; d.get(0); d.get(1);
        race(d, {{a}, {b}}, {"a"});
        stop_server();
    };
    return s;
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C06"; bool t = mc::thorough();
    c.rule = "read an object's identifier, apply every sequence of the listed modifications by two connections, then use the identifier in every conditional command; plus every pair of conditional updates with the same identifier, and of a conditional update with another command, under all schedules within the preemption bound. Identifiers must be in one-to-one relation with object versions of the reference model";
    c.sequences.push_back(histories("histories", t ? 4 : 3, false, false));
    c.sequences.push_back(histories("histories-short", 1, false, false));
    c.sequences.push_back(histories("histories-expiring", t ? 3 : 2, true, true));
    c.sequences.push_back(histories("histories-files", t ? 3 : 2, false, false, true));
    c.sequences.push_back(forged("forged"));
    c.scenarios.push_back(pairs("pairs-conditional", 1, true)); c.scenarios.push_back(pairs("pairs-mixed", 1, false));
    cmd tc = T('c', "a", "1"), tc2 = T('c', "a", "2"), tc3 = T('c', "a", "3"); auto cc = [](cmd x) { return cas(CAS_CURRENT, x); };
    c.scenarios.push_back(compete("three-text-cas", {{tc}, {tc2}, {tc3}}, t ? 2 : 1, 3));
    c.scenarios.push_back(compete("cas-then-cas", {{tc, tc}, {tc2, tc2}}, 2, 2));
    c.scenarios.push_back(compete("aba", {{T('d', "a"), T('s', "a", "5", 7)}, {tc}}, 2, 2));
    c.scenarios.push_back(compete("aba-set", {{T('s', "a", "6"), T('s', "a", "5", 7)}, {cc(B('s', "a", "9"))}}, 2, 2));
    c.scenarios.push_back(compete("incr-cas", {{cc(num('+', "a", 1, true)), cc(num('+', "a", 2, true))}, {cc(num('-', "a", 1, true)), num('+', "a", 4, true)}}, 2, 2));
    c.scenarios.push_back(compete("gets-during", {{T('G', "a"), T('G', "a")}, {T('s', "a", "66"), tc2}}, 2, 2));
    c.scenarios.push_back(compete("create-race", {{T('a', "a", "1"), T('G', "a")}, {T('a', "a", "2"), T('G', "a")}}, 2, 2, ""));
    c.scenarios.push_back(compete("delete-cas", {{cc(B('d', "a"))}, {cc(B('d', "a"))}, {T('s', "a", "5", 7)}}, 1, 3));
    return mc::main_(argc, argv, c);
}
