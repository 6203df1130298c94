// C23: counters never over-grant and always return what a gone client held.
#include "cref.hpp"
#include "ends.hpp"
using namespace cref;
static string cfg(int workers, const string& x = "") { return h::base_config(workers, 2, "counter.enable = true\ncounter.buckets = 1\n" + x); }
static void up(const string& c) { h::start_server(c); mc::block_until([]{ return mc::listening(CNT); }, "counter port"); }
static cresp one(cclient& c) { string s = c.take(); cresp r; if( ! parse_c(s, r) || ! s.empty() ) mc::fail("expected one complete response on n%d", c.id); mc::note("n%d <= %s", c.id, show(r).c_str()); return r; }
static std::vector<cresp> all(cclient& c) { string s = c.take(); std::vector<cresp> v; cresp r; while( parse_c(s, r) ) { mc::note("n%d <= %s", c.id, show(r).c_str()); v.push_back(r); } if( ! s.empty() ) mc::fail("partial response"); return v; }
// final bookkeeping: the consumption of every counter is what the open connections hold, and capacity is exact
static void settle(model& m, std::map<int, cclient*> live, std::vector<string> names) {
    cclient obs(9);
    for( auto& n: names ) {
        cresp r = obs.getc(n); u64 t = m.total.count(n) ? m.total[n] : 0;
        if( ! (r.status == sNotFound && t == 0) && (r.status != 0 || r.body != be(t, 4)) ) mc::fail("consumption of %s is %s, but the open connections hold %llu", n.c_str(), show(r).c_str(), (unsigned long long)t);
        u32 room = std::min<u64>(3, 0xffffffffu - t), M = t + room;
        if( room && obs.acquire(n, room, M).status != sOK ) mc::fail("%s: an acquire within the maximum was refused", n.c_str());
        if( M && obs.acquire(n, 1, M).status != sNotAvailable ) mc::fail("%s: an acquire beyond the maximum was granted", n.c_str());
        if( obs.release(n, room).status != sOK ) mc::fail("%s: release failed", n.c_str());
        for( auto& l: live ) { u64 x = m.held[l.first][n];
            if( x < 0xffffffffu && l.second->release(n, x + 1).status != sNotAcquired ) mc::fail("n%d released more of %s than it held (%llu)", l.first, n.c_str(), (unsigned long long)x);
            if( l.second->release(n, x).status != sOK ) mc::fail("n%d cannot release the %llu of %s it holds", l.first, (unsigned long long)x, n.c_str()); }
        r = obs.getc(n); if( r.status != 0 || r.body != be(0, 4) ) mc::fail("%s is not free after everything was released: %s", n.c_str(), show(r).c_str());
    }
    for( auto& d: obs.dump() ) if( d.second.cur != 0 ) mc::fail("%s still consumed", d.first.c_str());
}
// concurrent programs
static mc::scenario programs(const string& name, int bound, int workers, bool collecting) {
    mc::scenario s; s.name = name; s.sched_bound = bound; s.weight = 3;
    s.body = [=] {
        static const std::vector<std::pair<cthreads, cthreads>> P = {   // before (sequential), racing
            {{}, {{A(0, "a", 1, 1)}, {A(1, "a", 1, 1)}}},
            {{}, {{A(0, "a", 2, 3), R(0, "a", 1)}, {A(1, "a", 2, 3), A(1, "a", 1, 3)}}},
            {{}, {{A(0, "a", 1, 2)}, {A(1, "a", 1, 2)}, {A(2, "a", 1, 2)}}},
            {{{A(0, "a", 2, 3), A(1, "a", 1, 3)}}, {{R(0, "a", 2), A(0, "a", 1, 3)}, {A(1, "a", 1, 3), A(1, "a", 2, 4)}}},
            {{{A(0, "a", 2, 2)}}, {{R(0, "a", 1)}, {A(1, "a", 1, 2), G(1, "a")}, {A(2, "a", 1, 2)}}},
            {{{A(0, "a", 3, 3), A(1, "b", 1, 1)}}, {{R(0, "a", 3), R(0, "a", 1)}, {R(1, "b", 1), A(1, "a", 3, 3)}}},
            {{{A(0, "b", 1, 1)}}, {{A(0, "a", 1, 1), R(0, "b", 1)}, {A(1, "c", 1, 1), A(1, "b", 1, 1)}, {A(2, "a", 1, 1)}}},
            {{{A(0, "a", 0xfffffffe, 0xffffffff)}}, {{A(0, "a", 1, 0xffffffff), R(0, "a", 1)}, {A(1, "a", 2, 0xffffffff), A(1, "a", 1, 0xffffffff)}}},
            {{{A(0, "a", 1, 5), A(1, "a", 1, 5)}}, {{R(0, "a", 1)}, {R(1, "a", 1)}}},
            {{{A(0, "a", 1, 5), R(0, "a", 1), A(1, "z", 1, 1), R(1, "z", 1)}}, {{A(0, "a", 1, 1), G(0, "z")}, {A(1, "a", 1, 1), A(1, "z", 1, 1)}}},
        };
        up(cfg(workers, collecting ? "counter.stat_interval = 10\n" : ""));
        int w = mc::choose(P.size(), "program"); auto th = P[w].second;
        std::map<int, std::unique_ptr<cclient>> cl; for( std::size_t i = 0; i < th.size(); ++i ) cl[i].reset(new cclient(i));
        model m; for( auto& t: P[w].first ) for( auto& o: t ) { auto e = expected(m, o, ""); u32 q = cl[o.conn]->seq++; cresp r = cl[o.conn]->call(o.show(), bytes(o, "", q), q, opcode(o.kind)); if( ! agrees(e, r) ) mc::fail("%s answered %s", o.show().c_str(), show(r).c_str()); }
        if( collecting ) { long now = mc::now_sec(); mc::sleep_ms((10 - now % 10) * 1000 + 8200); mc::wait_idle(); }
        mc::note("racing: %s", show(th).c_str());
        std::vector<string> out; for( auto& t: th ) { string b; u32 q = 500; for( auto& o: t ) b += bytes(o, "", q++); out.push_back(b); }
        mc::explore_schedules(true);
        if( collecting ) mc::advance_ms(2500);
        for( std::size_t i = 0; i < th.size(); ++i ) cl[i]->send(out[i]);
        mc::wait_idle_for(100);
        mc::explore_schedules(false);
        std::vector<std::vector<cresp>> got;
        for( std::size_t i = 0; i < th.size(); ++i ) { got.push_back(all(*cl[i])); if( got[i].size() != th[i].size() ) mc::fail("n%zu got %zu of %zu responses", i, got[i].size(), th[i].size()); for( std::size_t k = 0; k < th[i].size(); ++k ) if( got[i][k].opaque != 500 + k || got[i][k].op != opcode(th[i][k].kind) ) mc::fail("n%zu: misplaced response %s", i, show(got[i][k]).c_str()); }
        // collection may drop counters nobody holds: get of such a counter may then say "not found"
        auto final = [&](model& x) { cclient o(8); for( auto& t: x.total ) { cresp r = o.getc(t.first); if( ! (r.status == 0 && r.body == be(t.second, 4)) && ! (collecting && t.second == 0 && r.status == sNotFound) ) return false; } m = x; mc::visit_state(x.hash()); return true; };
        bool ok;
        if( collecting ) { // judge zero counters leniently
            for( std::size_t i = 0; i < th.size(); ++i ) for( std::size_t k = 0; k < th[i].size(); ++k ) if( th[i][k].kind == 'g' && got[i][k].status == sNotFound ) { got[i][k].status = 0; got[i][k].body = be(0, 4); }
        }
        ok = explained(m, th, got, final);
        if( ! ok ) { string g; for( std::size_t i = 0; i < got.size(); ++i ) for( auto& r: got[i] ) g += " n" + std::to_string(i) + "{" + show(r) + "}"; mc::fail("no order of %s explains the responses and the final consumption:%s", show(th).c_str(), g.c_str()); }
        std::map<int, cclient*> live; for( auto& c: cl ) live[c.first] = c.second.get();
        settle(m, live, {"a", "b", "c", "z"});
        h::stop_server();
    };
    return s;
}
static const int N_CENDS = 8;
static const char* cend_name(int w) { static const char* n[] = {"half-close", "close", "reset", "network timeout", "request then close", "request then reset", "half a request then reset", "garbage then close"}; return n[w]; }
static void cend(cclient& c, int w) {
    mc::note("n%d ends: %s", c.id, cend_name(w));
    string g = cget("nosuch", 1), rq = g + g;
    switch( w ) { case 0: c.shutdown(); break; case 1: c.close(); break; case 2: c.reset(); break; case 3: c.reset(ETIMEDOUT); break;
    case 4: c.send(rq); c.close(); break; case 5: c.send(rq); mc::yield(); c.reset(); break; case 6: c.send(rq.substr(0, 30)); mc::yield(); c.reset(); break; case 7: c.send("garbage garbage"); c.close(); break; }
}
// A holder ends in every way with requests in flight, others compete and the descriptor is reused.
static mc::scenario takeover(const string& name, int bound, int workers, std::vector<int> ways, bool collecting) {
    mc::scenario s; s.name = name; s.sched_bound = bound; s.weight = 4;
    s.body = [=] {
        up(cfg(workers, collecting ? "counter.stat_interval = 10\n" : ""));
        int w = ways[mc::choose(ways.size(), "ending")], inflight = mc::choose(4, "request in flight");
        cclient hh(0), o(1), bystander(4); model m;
        auto ok = [&](int st, cresp r, const char* what) { if( r.status != st ) mc::fail("%s answered %s", what, show(r).c_str()); };
        ok(0, hh.acquire("a", 2, 3), "acquire"); ok(0, hh.acquire("b", 1, 1), "acquire"); ok(0, bystander.acquire("a", 1, 3), "acquire"); ok(0, bystander.acquire("c", 1, 3), "acquire"); ok(sNotAvailable, o.acquire("a", 1, 3), "acquire");
        m.held[4]["a"] = 1; m.held[4]["c"] = 1; m.total["a"] = 1; m.total["c"] = 1;
        if( collecting ) { long now = mc::now_sec(); mc::sleep_ms((10 - now % 10) * 1000 + 8200); mc::wait_idle(); }
        int hfd = hh.server_fd();
        mc::explore_schedules(true);
        if( collecting ) mc::advance_ms(2500);
        switch( inflight ) { case 1: hh.send(cacq("c", 1, 3, 70)); break; case 2: hh.send(crel("a", 1, 71) + cacq("b", 2, 9, 72) + cacq("d", 5, 5, 73)); break; case 3: hh.send(crel("b", 1, 74) + crel("a", 2, 75)); break; }
        cend(hh, w);
        o.send(cacq("a", 2, 3, 80));
        cclient n(2); n.send(cacq("b", 1, 1, 81) + crel("a", 1, 82));
        mc::wait_idle_for(100);
        cresp ro = one(o); auto rn = all(n);
        mc::wait_idle_for(4500);
        mc::explore_schedules(false);
        mc::note("descriptor %d was %d", n.server_fd(), hfd);
        if( rn.size() != 2 ) mc::fail("n2 got %zu responses", rn.size());
        if( ro.status == 0 ) { m.held[1]["a"] = 2; m.total["a"] += 2; } else if( ro.status != sNotAvailable ) mc::fail("acquire answered %s", show(ro).c_str());
        if( rn[0].status == 0 ) { m.held[2]["b"] = 1; m.total["b"] += 1; } else if( rn[0].status != sNotAvailable ) mc::fail("acquire answered %s", show(rn[0]).c_str());
        if( rn[1].status != sNotAcquired ) mc::fail("a new connection released what another one held: %s", show(rn[1]).c_str());
        m.total["d"]; m.total["b"];
        mc::visit_state(m.hash());
        settle(m, {{1, &o}, {2, &n}, {4, &bystander}}, {"a", "b", "c", "d"});
        h::stop_server();
    };
    return s;
}
// Unrelated connections come and go; the holder keeps what it has.
static mc::scenario innocent(const string& name, int bound) {
    mc::scenario s; s.name = name; s.sched_bound = bound; s.weight = 2;
    s.body = [=] {
        up(cfg(2)); cclient x(0), hh(1); model m; int w = mc::choose(N_CENDS, "ending");
        x.acquire("a", 1, 9); x.acquire("c", 1, 9); hh.acquire("a", 3, 9); m.held[1]["a"] = 3; m.total["a"] = 3; m.total["c"] = 0;
        mc::explore_schedules(true);
        x.send(cacq("a", 1, 9, 7)); cend(x, w); cclient n(2); n.send(crel("a", 1, 1) + cacq("a", 6, 9, 2)); hh.send(cacq("c", 8, 8, 3));
        mc::wait_idle_for(100); auto rn = all(n); cresp rh = one(hh); mc::wait_idle_for(4500);
        mc::explore_schedules(false);
        if( rn.size() != 2 || rn[0].status != sNotAcquired ) mc::fail("unexpected responses on n2");
        if( rn[1].status == 0 ) { m.held[2]["a"] = 6; m.total["a"] += 6; }
        if( rh.status == 0 ) { m.held[1]["c"] = 8; m.total["c"] += 8; }
        settle(m, {{1, &hh}, {2, &n}}, {"a", "c"});
        h::stop_server();
    };
    return s;
}
// Sends and receives fail on the holder, also with data held back.
static mc::scenario faulty(const string& name, int bound, bool backlog) {
    mc::scenario s; s.name = name; s.sched_bound = bound; s.fault_bound = 1;
    s.body = [=] {
        up(cfg(2)); cclient hh(0), by(1); model m; hh.acquire("a", 2, 9); by.acquire("a", 1, 9); m.held[1]["a"] = 1; m.total["a"] = 1; m.total["b"];
        mc::explore_schedules(bound > 0);
        mc::faults f; f.send_error = f.recv_error = f.short_send = f.short_recv = true; f.only = hh.s; mc::set_faults(f);
        if( backlog ) hh.set_window(10);
        string rq; for( u32 k = 0; k < 3; ++k ) rq += cacq("a", 1, 9, 100 + k) + cacq("b", 2, 9, 200 + k);
        hh.send(rq); mc::wait_idle_for(50); string got = hh.take();
        if( backlog ) { hh.set_window(1 << 20); mc::wait_idle_for(50); got += hh.take(); }
        hh.send(crel("b", 1, 300)); mc::wait_idle_for(50);
        got += hh.take(); bool dead = hh.server_closed();
        mc::set_faults(mc::faults{}); mc::wait_idle_for(4500);
        mc::explore_schedules(false);
        if( ! dead ) { got += hh.take(); cresp r; int k = 0; while( parse_c(got, r) ) { ++k; if( r.status != 0 ) mc::fail("unexpected %s", show(r).c_str()); } if( k != 7 || ! got.empty() ) mc::fail("%d of 7 responses arrived", k); m.held[0]["a"] = 5; m.held[0]["b"] = 5; m.total["a"] += 5; m.total["b"] += 5; }
        std::map<int, cclient*> live = {{1, &by}}; if( ! dead ) live[0] = &hh;
        settle(m, live, {"a", "b"}); h::stop_server();
    };
    return s;
}
// Histories of connecting, acquiring and ending.
static mc::chunked histories(const string& name, std::vector<cop> al, int depth, std::vector<int> ways, int interval) {
    for( int c = 0; c < 3; ++c ) for( int w: ways ) al.push_back(K('E', c, w));
    u64 n = 1; for( int k = 0; k < depth; ++k ) n *= al.size();
    mc::chunked c; c.name = name; c.count = n; c.chunk = std::max<u64>(20, n / 400); c.arena = false;
    c.body = [=](u64 from, u64 to) {
        up(cfg(2, interval ? "counter.stat_interval = " + std::to_string(interval) + "\n" : "")); std::map<int, std::unique_ptr<cclient>> cl; cclient obs(9); model m;
        auto con = [&](int i) -> cclient& { if( ! cl[i] ) cl[i].reset(new cclient(i)); return *cl[i]; };
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); string prefix = "k" + std::to_string(i) + "_", trace; m = model{}; u64 x = i; bool waited = interval > 0;
            // housekeeping may drop a counter that nobody holds anything of
            auto dropped = [&](model& y, const string& n, const cresp& r) { return waited && r.status == sNotFound && y.total[n] == 0; };
            for( int k = 0; k < 3; ++k ) con(k);
            for( int k = 0; k < depth; ++k ) {
                const cop& o = al[x % al.size()]; x /= al.size(); trace += o.show() + "; ";
                if( o.kind == 'z' ) { mc::sleep_ms(o.r * interval * 1000 + 2500); mc::visit_state(m.hash() + 1); continue; }
                if( o.kind == 'E' ) { cclient& c = con(o.conn); cend(c, o.r); bool closes = o.r == 2 || o.r == 3 || o.r == 5 || o.r == 6; if( closes ) mc::sleep_ms(4500); else { mc::wait_idle(); } m.gone(o.conn); if( ! closes ) { /* the server keeps the half-open connection */ c.reset(); } cl[o.conn].reset(); con(o.conn); }
                else { auto e = expected(m, o, prefix); cclient& c = con(o.conn); u32 q = c.seq++; cresp r = c.call(o.show(), bytes(o, prefix, q), q, opcode(o.kind)); if( ! agrees(e, r) && ! dropped(m, prefix + o.name, r) ) mc::fail("%s answered %s, expected status %02x value %s; after %s", o.show().c_str(), show(r).c_str(), e.first, quote(e.second).c_str(), trace.c_str()); }
                mc::visit_state(m.hash()); mc::count_transition();
            }
            for( auto nm: {"a", "b"} ) { auto e = m.get(prefix + nm); cresp r = obs.getc(prefix + nm); if( ! agrees(e, r) && ! dropped(m, prefix + nm, r) ) mc::fail("final consumption of %s is %s, expected status %02x %s; after %s", nm, show(r).c_str(), e.first, quote(e.second).c_str(), trace.c_str()); }
            for( auto& p: m.held ) for( auto& q: p.second ) if( q.second ) { cresp r = con(p.first).release(q.first, q.second); if( r.status != 0 ) mc::fail("the holder cannot release %llu of %s: %s; after %s", (unsigned long long)q.second, q.first.c_str(), show(r).c_str(), trace.c_str()); }
        }
        h::stop_server();
    };
    return c;
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C23"; bool t = mc::thorough();
    c.rule = "acquire/release programs of two and three connections, and a holder ending in eight ways with requests in flight while others compete and its descriptor is reused, under all schedules within the preemption bound; single send/receive faults on the holder; histories of acquiring, releasing and ending; afterwards the consumption must equal what the open connections were granted";
    std::vector<int> ways; for( int i = 0; i < N_CENDS; ++i ) ways.push_back(i);
    c.scenarios.push_back(programs("programs", t ? 3 : 2, 2, false)); c.scenarios.push_back(programs("programs-collecting", 1, 2, true));
    c.scenarios.push_back(takeover("takeover", 1, 2, ways, false)); c.scenarios.push_back(takeover("takeover-one-worker", 1, 1, ways, false)); c.scenarios.push_back(takeover("takeover-collecting", 1, 2, {0, 1, 2, 5}, true));
    c.scenarios.push_back(innocent("innocent", 1)); c.scenarios.push_back(faulty("faulty", 1, false)); c.scenarios.push_back(faulty("faulty-backlog", 1, true));
    std::vector<cop> al = {A(0, "a", 1, 3), A(0, "b", 2, 2), A(1, "a", 2, 3), A(1, "b", 1, 2), A(2, "a", 1, 2), R(0, "a", 1), R(1, "a", 1), R(2, "a", 1), G(2, "b")};
    c.sequences.push_back(histories("histories", al, t ? 5 : 4, {1, 2}, 0));
    c.sequences.push_back(histories("histories-all-endings", al, t ? 4 : 3, ways, 0));
    std::vector<cop> hk = {A(0, "a", 1, 3), A(0, "b", 2, 2), A(1, "a", 2, 3), A(1, "b", 1, 2), R(0, "a", 1), R(0, "b", 2), R(1, "a", 2), R(1, "b", 1), K('z', 0, 1), K('z', 0, 3)};
    c.sequences.push_back(histories("histories-housekeeping", hk, t ? 6 : 5, {2}, 10));
    return mc::main_(argc, argv, c);
}
