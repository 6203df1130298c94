// C24: counter housekeeping drops only unused counters and keeps peaks right.
#include "cref.hpp"
using namespace cref;
static const int P = 40;   // statistics period; everything is observed at least 4 s away from its boundaries
static void up(const string& x = "") { h::start_server(h::base_config(2, 2, "counter.enable = true\ncounter.buckets = 2\n" + x)); mc::block_until([]{ return mc::listening(CNT); }, "counter port"); }
struct hist {
    struct ctr { u64 cur = 0; std::map<long, u64> peak; long last = 0; };   // peak per period, last period in which the counter was used
    std::map<string, ctr> m; std::map<int, std::map<string, u64>> held;
    static long period() { return mc::now_sec() / P; }
    void settle(ctr& c) { long p = period(); if( ! c.peak.count(p) ) { c.peak[p] = c.cur; if( ! c.peak.count(p - 1) ) c.peak[p - 1] = c.cur; } }
    void settle_all() { for( auto& p: m ) settle(p.second); }
    bool may_be_gone(const string& n) { auto it = m.find(n); return it == m.end() || (it->second.cur == 0 && it->second.last < period()); }
    // a counter collected and created again starts anew
    void change(const string& n, long d) { ctr& c = m[n]; settle(c); c.cur += d; c.last = period(); u64& p = c.peak[period()]; p = std::max(p, c.cur); }
};
static void look(cclient& c, hist& m, const string& prefix, const string& trace, bool swept) {
    m.settle_all(); auto rows = c.dump(); long p = hist::period();
    for( auto& r: rows ) {
        if( r.first.compare(0, prefix.size(), prefix) ) { if( swept && r.second.cur == 0 ) mc::fail("unused counter %s of an earlier period survives", r.first.c_str()); continue; }
        auto it = m.m.find(r.first); if( it == m.m.end() ) mc::fail("unknown counter %s is listed", r.first.c_str());
        auto& x = it->second; u64 lo = x.peak[p], hi = std::max(lo, x.peak[p - 1]);
        if( swept && m.may_be_gone(r.first) ) mc::fail("counter %s was not used for two periods, but is still listed; after %s", r.first.c_str(), trace.c_str());
        if( r.second.cur != x.cur ) mc::fail("consumption of %s is %u, expected %llu; after %s", r.first.c_str(), r.second.cur, (unsigned long long)x.cur, trace.c_str());
        if( r.second.peak < lo || r.second.peak > hi ) mc::fail("peak of %s is %u, but the maximum within this period is %llu and within the last two %llu; after %s", r.first.c_str(), r.second.peak, (unsigned long long)lo, (unsigned long long)hi, trace.c_str());
    }
    for( auto& x: m.m ) if( ! rows.count(x.first) && ! m.may_be_gone(x.first) ) mc::fail("counter %s (consumption %llu, used in this period: %d) is not listed; after %s", x.first.c_str(), (unsigned long long)x.second.cur, x.second.last == p, trace.c_str());
}
static void align(int at) { long t = mc::now_sec() % P; mc::sleep_ms(((P - t) % P + at + (t == at ? P : 0)) * 1000); }
static mc::chunked histories(const string& name, std::vector<cop> al, int depth) {
    u64 n = 1; for( int k = 0; k < depth; ++k ) n *= al.size();
    mc::chunked c; c.name = name; c.count = n; c.chunk = std::max<u64>(20, n / 400); c.arena = false;
    c.body = [=](u64 from, u64 to) {
        up("counter.stat_interval = " + std::to_string(P) + "\n"); std::map<int, std::unique_ptr<cclient>> cl; cclient obs(9);
        auto con = [&](int i) -> cclient& { if( ! cl[i] ) cl[i].reset(new cclient(i)); return *cl[i]; };
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); string prefix = "k" + std::to_string(i) + "_", trace; hist m; u64 x = i;
            align(6); u64 st = 1;
            for( int k = 0; k < depth; ++k ) {
                const cop& o = al[x % al.size()]; x /= al.size(); trace += o.show() + "; "; string nm = prefix + o.name;
                if( o.kind == 'z' ) { mc::sleep_ms(o.r * P * 1000); m.settle_all(); trace += "(" + std::to_string(o.r) + " periods pass) "; }
                else if( o.kind == 'X' ) { cclient& c = con(o.conn); c.reset(); mc::sleep_ms(4500); for( auto& h: m.held[o.conn] ) if( h.second ) m.change(h.first, -(long)h.second); m.held.erase(o.conn); cl[o.conn].reset(); }
                else if( o.kind == 'a' ) { m.settle_all(); cresp r = con(o.conn).acquire(nm, o.r, o.m); bool ok = m.m.count(nm) ? m.m[nm].cur + o.r <= o.m : true; if( r.status != (ok ? sOK : sNotAvailable) ) mc::fail("%s answered %s; after %s", o.show().c_str(), show(r).c_str(), trace.c_str()); if( ok ) { m.change(nm, o.r); m.held[o.conn][nm] += o.r; } }
                else if( o.kind == 'r' ) { m.settle_all(); cresp r = con(o.conn).release(nm, o.r); u64& hd = m.held[o.conn][nm]; int want = ! m.m.count(nm) ? sNotFound : o.r > hd ? sNotAcquired : sOK; if( r.status != want && ! (r.status == sNotFound && m.may_be_gone(nm)) ) mc::fail("%s answered %s; after %s", o.show().c_str(), show(r).c_str(), trace.c_str()); if( want == sOK ) { hd -= o.r; m.change(nm, -(long)o.r); } }
                look(obs, m, prefix, trace, false);
                for( auto& q: m.m ) { st = mc::mix(st, q.second.cur * 64 + q.second.peak[hist::period()] * 8 + q.second.peak[hist::period() - 1]); st = mc::mix(st, hist::period() - q.second.last); } mc::visit_state(st); mc::count_transition();
            }
            if( i % 8 == 0 ) {   // whatever nobody holds is gone two periods later; the rest stays
                mc::sleep_ms(2 * P * 1000); look(obs, m, prefix, trace + "(two periods pass)", true);
                if( i % 16 == 0 ) { mc::sleep_ms(3 * P * 1000); look(obs, m, prefix, trace + "(five periods pass)", true); }
            }
            for( auto& p: m.held ) for( auto& q: p.second ) if( q.second ) { cresp r = con(p.first).release(q.first, q.second); if( r.status != 0 ) mc::fail("the holder cannot release %llu of %s: %s; after %s", (unsigned long long)q.second, q.first.c_str(), show(r).c_str(), trace.c_str()); }
        }
        h::stop_server();
    };
    return c;
}
// Collection races with requests on a counter nobody holds (due to be dropped), one in use, and their neighbours.
static mc::scenario racing(const string& name, int bound, int workers) {
    mc::scenario s; s.name = name; s.sched_bound = bound;
    s.body = [=] {
        h::start_server(h::base_config(workers, 2, "counter.enable = true\ncounter.buckets = 1\ncounter.stat_interval = 10\n")); mc::block_until([]{ return mc::listening(CNT); }, "counter port");
        cclient a(0), b(1), obs(9);
        int order = mc::choose(3, "chain order");
        auto mk = [&](const char* n) { if( a.acquire(n, 2, 9).status || a.release(n, 2).status ) mc::fail("setup"); };
        if( order == 0 ) { mk("z"); mk("y"); b.acquire("u", 3, 9); } else if( order == 1 ) { b.acquire("u", 3, 9); mk("z"); mk("y"); } else { mk("y"); b.acquire("u", 3, 9); mk("z"); }
        static const std::vector<std::pair<std::vector<cop>, std::vector<cop>>> PR = {
            {{A(0, "z", 1, 1)}, {A(1, "z", 1, 1)}}, {{A(0, "z", 4, 9), R(0, "z", 1)}, {G(1, "z")}}, {{A(0, "z", 4, 9)}, {R(1, "u", 1)}}, {{A(0, "n", 4, 9)}, {A(1, "u", 1, 9), G(1, "y")}}, {{A(0, "z", 1, 9), R(0, "z", 1)}, {R(1, "u", 3)}}, {{A(0, "u", 1, 9)}, {K('X', 1)}}, {{A(0, "z", 1, 9), A(0, "y", 1, 9)}, {K('X', 1)}}};
        auto& pr = PR[mc::choose(PR.size(), "requests")];
        long now = mc::now_sec(); mc::sleep_ms((10 - now % 10) * 1000 + 8200); mc::wait_idle();
        mc::explore_schedules(true); mc::advance_ms(2500);
        auto go = [&](cclient& c, const std::vector<cop>& v) { string s; for( auto& o: v ) { if( o.kind == 'X' ) c.reset(); else s += bytes(o, "", c.seq++); } if( ! s.empty() ) c.send(s); };
        go(a, pr.first); go(b, pr.second);
        mc::wait_idle_for(100); mc::explore_schedules(false);
        std::map<string, u64> cur = {{"u", 3}}; u64 heldb = 3; std::map<string, u64> helda;
        auto take = [&](cclient& c, const std::vector<cop>& v, int id) {
            if( v[0].kind == 'X' ) { cur["u"] -= heldb; heldb = 0; return; }
            string s = c.take(); for( auto& o: v ) {
                cresp r; if( ! parse_c(s, r) ) mc::fail("no response to %s", o.show().c_str()); mc::note("%s: %s", o.show().c_str(), show(r).c_str());
                if( o.kind == 'a' ) { if( r.status == 0 ) { cur[o.name] += o.r; if( id == 0 ) helda[o.name] += o.r; else if( o.name == "u" ) heldb += o.r; if( cur[o.name] > o.m ) mc::fail("%s over-granted", o.name.c_str()); } else if( ! (o.name == "z" && o.m == 1 && r.status == sNotAvailable) ) mc::fail("%s answered %s", o.show().c_str(), show(r).c_str()); }
                if( o.kind == 'r' ) { if( r.status ) mc::fail("%s answered %s", o.show().c_str(), show(r).c_str()); cur[o.name] -= o.r; if( id == 0 ) helda[o.name] -= o.r; else heldb -= o.r; }
                if( o.kind == 'g' && r.status != 0 && r.status != sNotFound ) mc::fail("%s answered %s", o.show().c_str(), show(r).c_str());
            }
        };
        take(a, pr.first, 0); take(b, pr.second, 1);
        if( pr.first[0].m == 1 && cur["z"] != 1 ) mc::fail("exactly one of two competing acquires must succeed, %llu did", (unsigned long long)cur["z"]);
        mc::sleep_ms(4000);
        auto rows = obs.dump();
        for( auto& c: cur ) { auto it = rows.find(c.first); if( it == rows.end() ? c.second != 0 : it->second.cur != c.second ) mc::fail("consumption of %s is %s, expected %llu", c.first.c_str(), it == rows.end() ? "gone" : std::to_string(it->second.cur).c_str(), (unsigned long long)c.second); }
        for( auto& r: rows ) if( ! cur.count(r.first) && r.second.cur ) mc::fail("unexpected consumption of %s", r.first.c_str());
        mc::sleep_ms(20000); rows = obs.dump(); u64 st = 7;
        for( auto& c: cur ) { bool listed = rows.count(c.first); if( listed != (c.second != 0) ) mc::fail("%s with consumption %llu is %slisted two periods later", c.first.c_str(), (unsigned long long)c.second, listed ? "" : "not "); st = mc::mix(st, c.second); }
        if( rows.count("y") && ! cur["y"] ) mc::fail("y is still listed");
        for( auto& q: helda ) if( q.second && a.release(q.first, q.second).status ) mc::fail("cannot release %s", q.first.c_str());
        if( heldb && b.release("u", heldb).status ) mc::fail("cannot release u");
        for( auto& r: obs.dump() ) if( r.second.cur && ! (r.first == "z" && pr.first[0].m == 1) ) mc::fail("%s is still consumed", r.first.c_str());
        mc::visit_state(st); h::stop_server();
    };
    return s;
}
// A counter used in the first second of a period, while the collection of that period runs, stays until the period is over.
static mc::scenario boundary(const string& name, int bound, int workers) {
    mc::scenario s; s.name = name; s.sched_bound = bound;
    s.body = [=] {
        h::start_server(h::base_config(workers, 2, "counter.enable = true\ncounter.buckets = 1\ncounter.stat_interval = 10\n")); mc::block_until([]{ return mc::listening(CNT); }, "counter port");
        cclient a(0); client obs(PORT, 9); int old = mc::choose(2, "counter known before"); mc::sleep_ms((10 - mc::now_sec() % 10) * 1000 + 5000); if( old && (a.acquire("z", 1, 9).status || a.release("z", 1).status) ) mc::fail("setup");
        mc::sleep_ms(3200); mc::wait_idle(); long T = (mc::now_sec() / 10 + 1) * 10; mc::explore_schedules(true); mc::advance_ms(2500);
        obs.put("stats\r\n"); string s = obs.recv_until("END\r\n"); std::size_t p = s.find("STAT time "); if( p == string::npos ) mc::fail("no time"); long now = atol(s.c_str() + p + 10);
        a.send(bytes(A(0, "z", 4, 9), "", 1) + bytes(R(0, "z", 4), "", 2)); a.recv(28, 5000); mc::explore_schedules(false); mc::sleep_ms(3000); auto rows = a.dump();
        if( now >= T && (! rows.count("z") || rows["z"].peak < 4) ) mc::fail("a counter used %ld s after the start of the period (the server's clock said) is %s in the same period", now - T, rows.count("z") ? "listed with a smaller peak" : "gone");
        if( rows.count("z") && (rows["z"].cur || rows["z"].peak > 4) ) mc::fail("consumption %u, peak %u", rows["z"].cur, rows["z"].peak);
        mc::visit_state((now - T + 20) * 4 + rows.count("z") * 2 + old); h::stop_server();
    };
    return s;
}
// Chains: several counters in one bucket, every subset in use.
static void chain(u64 i) {
    int n = 5; u64 used = i % 32, again = i / 32 % 32;   // held; used again in the next period
    h::start_server(h::base_config(1, 2, "counter.enable = true\ncounter.buckets = 1\ncounter.stat_interval = " + std::to_string(P) + "\n")); mc::block_until([]{ return mc::listening(CNT); }, "counter port"); cclient c(0);
    align(6); for( int k = 0; k < n; ++k ) { string nm = "c" + std::to_string(k); c.acquire(nm, 2 + k, 100); if( ! (used >> k & 1) ) c.release(nm, 2 + k); }
    mc::sleep_ms(P * 1000); for( int k = 0; k < n; ++k ) if( again >> k & 1 ) { string nm = "c" + std::to_string(k); if( c.acquire(nm, 1, 100).status || c.release(nm, 1).status ) mc::fail("acquire"); }
    mc::sleep_ms(10000);
    auto rows = c.dump(); for( int k = 0; k < n; ++k ) { string nm = "c" + std::to_string(k); bool u = used >> k & 1, a = again >> k & 1; if( (u || a) != (bool)rows.count(nm) ) mc::fail("%s (held %d, used again %d) is %slisted", nm.c_str(), u, a, rows.count(nm) ? "" : "not "); if( u && rows[nm].cur != 2u + k ) mc::fail("consumption of %s is %u", nm.c_str(), rows[nm].cur); if( a && (rows[nm].peak < (u ? 3u + k : 1u) || rows[nm].peak > std::max(u ? 3u + k : 1u, 2u + k)) ) mc::fail("peak of %s is %u", nm.c_str(), rows[nm].peak); }
    mc::sleep_ms(2 * P * 1000); rows = c.dump(); for( int k = 0; k < n; ++k ) { string nm = "c" + std::to_string(k); bool u = used >> k & 1; if( u != (bool)rows.count(nm) ) mc::fail("%s (held %d) is %slisted two periods later", nm.c_str(), u, rows.count(nm) ? "" : "not "); if( u && (rows[nm].cur != 2u + k || rows[nm].peak != 2u + k) ) mc::fail("%s is wrong two periods later: %u peak %u", nm.c_str(), rows[nm].cur, rows[nm].peak); }
    mc::visit_state(i); h::stop_server();
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C24"; bool t = mc::thorough();
    c.rule = "all histories of acquiring, releasing, losing connections and passing statistics periods up to the stated depth, with consumption, listing and peak compared after every step with a reference model; every subset of a five-counter chain in use; collections racing with requests on counters due to be dropped under all schedules within the preemption bound";
    std::vector<cop> al = {A(0, "a", 2, 9), A(0, "a", 3, 9), A(1, "a", 4, 9), A(1, "a", 9, 9), R(0, "a", 1), R(0, "a", 2), R(1, "a", 4), K('X', 1), K('z', 0, 1), K('z', 0, 2), A(0, "b", 1, 1), R(0, "b", 1)};
    c.sequences.push_back(histories("histories", al, t ? 5 : 4));
    std::vector<cop> small = {A(0, "a", 2, 9), A(1, "a", 3, 9), R(0, "a", 2), R(1, "a", 3), K('z', 0, 1), K('z', 0, 2)};
    c.sequences.push_back(histories("deep", small, t ? 7 : 6));
    mc::chunked n; n.name = "chains"; n.count = 1024; n.chunk = 1; n.body = [](u64 from, u64 to) { for( u64 i = from; i < to; ++i ) { mc::progress(i); chain(i); } };
    c.sequences.push_back(n);
    c.scenarios.push_back(racing("collecting", t ? 3 : 2, 2));
    c.scenarios.push_back(boundary("boundary", 2, 2));
    return mc::main_(argc, argv, c);
}
