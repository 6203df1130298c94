// C25: connection and replica limits are enforced and capacity is given back.
#include "ends.hpp"
#include "cref.hpp"
#include "repl.hpp"
#include <deque>
using namespace ref;
enum kind { MEMCACHE, COUNTER, REPLICA };
static const char* kname(kind k) { return k == MEMCACHE ? "client" : k == COUNTER ? "counter client" : "replica"; }
static int port_of(kind k) { return k == MEMCACHE ? PORT : k == COUNTER ? CNT : REPL; }
// one end of a connection of either kind
struct peer {
    std::unique_ptr<h::client> c; bool half = false;
    explicit peer(kind k) { c.reset(new h::client); c->connect(port_of(k)); }
};
static bool served(kind k, h::client& c) {   // does the server answer?
    mc::wait_idle(); if( c.server_closed() ) { if( ! c.take().empty() ) mc::fail("a refused connection received data"); return false; }
    if( k == MEMCACHE ) { c.send("version\r\n"); mc::wait_idle(); string s = c.take(); if( s.compare(0, 8, "VERSION ") ) { if( s.empty() && c.server_closed() ) return false; mc::fail("a connection within the limit is not served: \"%s\"", quote(s).c_str()); } return true; }
    if( k == COUNTER ) { c.send(cref::creq(cref::cNoop, "", 5)); mc::wait_idle(); string s = c.take(); cref::cresp r; if( ! cref::parse_c(s, r) || r.opaque != 5 ) { if( s.empty() && c.server_closed() ) return false; mc::fail("a counter connection within the limit is not served"); } return true; }
    return true;
}
static void must(kind k, peer& p, bool want, int open, int limit, const string& trace) {
    bool got = served(k, *p.c); if( got == want ) return;
    if( want ) mc::fail("a %s was refused although only %d of %d are open   after:%s", kname(k), open, limit, trace.c_str());
    mc::fail("a %s was accepted although %d are open and the limit is %d   after:%s", kname(k), open, limit, trace.c_str());
}
static const int CW = 7;   // ways a counter connection or a replica ends
static const char* cw_name(int w) { static const char* n[] = {"reset", "network timeout", "half a request then reset", "request then reset", "close with unread replies", "bad request then reset", "half-close then reset"}; return n[w]; }
static void end_other(kind k, h::client& c, int w) {
    switch( w ) {
    case 0: c.reset(); break; case 1: c.reset(ETIMEDOUT); break;
    case 2: c.send(k == COUNTER ? cref::cacq("r", 1, 5, 1).substr(0, 17) : string(1, '\0')); mc::yield(); c.reset(); break;
    case 3: c.send(k == COUNTER ? cref::cacq("r", 1, 5, 1) : string(300, '\0')); mc::yield(); c.reset(); break;
    case 4: if( k == COUNTER ) { c.send(cref::creq(cref::cNoop, "", 9)); mc::wait_idle(); } c.close(); if( k != REPLICA ) { mc::wait_idle(); c.reset(); } break;
    case 5: c.send(k == COUNTER ? string(12, '\0') : string("xx")); mc::wait_idle(); c.reset(); break;
    case 6: c.shutdown(); mc::wait_idle(); c.reset(); break;
    }
}
static string conf(kind k, int limit, int workers = 1) {
    string x; if( k == MEMCACHE ) x = "max_connections = " + std::to_string(limit) + "\n"; if( k == COUNTER ) x = "counter.enable = true\ncounter.buckets = 7\ncounter.max_connections = " + std::to_string(limit) + "\n"; if( k == REPLICA ) x = "slave_timeout = 1000000\nrepl_buffer_size = 1\n";
    return base_config(workers, 7, x + "gc_interval = 100000000\n");
}
static int ways(kind k) { return k == MEMCACHE ? 8 : k == COUNTER ? CW : 4; }
static const int RW[4] = {0, 1, 4, 6};
static const int MW[8] = {0, 1, 2, 5, 6, 7, 8, 9};
static string way(kind k, int w) { return k == MEMCACHE ? end_name(MW[w]) : cw_name(k == REPLICA ? RW[w] : w); }
static void finish(kind k, h::client& c, int w) { if( k == MEMCACHE ) { end_connection(c, MW[w]); mc::wait_idle(); if( MW[w] == 7 ) c.reset(); } else end_other(k, c, k == REPLICA ? RW[w] : w); }
// every history: connect, or end the oldest or newest connection in some way
static mc::chunked histories(const string& name, kind k, int limit, int depth, int start) {
    int n = 1 + 2 * ways(k); mc::chunked c; c.name = name; c.count = power(n, depth); c.chunk = std::max<u64>(1, std::min<u64>(300, c.count / 64 + 1)); c.arena = false;
    c.body = [=](u64 from, u64 to) {
        mc::set_step_limit(400000000); start_server(conf(k, limit)); mc::sleep_ms(3000);
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); std::deque<peer> o; string t; auto settle = [&]{ if( k == REPLICA ) mc::sleep_ms(2400); else mc::wait_idle(); };
            auto connect = [&]{ o.emplace_back(k); int open = o.size() - 1; must(k, o.back(), open < limit, open, limit, t); t += " connect"; if( open >= limit ) o.pop_back(); };
            for( int j = 0; j < start; ++j ) connect();
            for( int a: digits(i, n, depth) ) {
                if( a == 0 ) { connect(); continue; }
                if( o.empty() ) continue; int w = (a - 1) % ways(k); bool newest = a - 1 >= ways(k);
                if( newest ) { finish(k, *o.back().c, w); settle(); o.pop_back(); } else { finish(k, *o.front().c, w); settle(); o.pop_front(); } t += string(newest ? " newest: " : " oldest: ") + way(k, w);
                for( auto& p: o ) if( p.c->server_closed() ) mc::fail("ending one %s closed another   after:%s", kname(k), t.c_str());
            }
            if( k == MEMCACHE && ! o.empty() ) { h::client& c = *o.front().c; c.send("stats\r\n"); mc::wait_idle(); string s = c.take(); if( s.find("STAT curr_connections " + std::to_string(o.size()) + "\r\n") == string::npos ) mc::fail("%zu connections are open, the statistics say otherwise   after:%s", o.size(), t.c_str()); }
            mc::visit_state(mc::mix(limit, mc::hash_str(t))); mc::count_transition(depth);
            // everything ends; the full capacity is there again
            while( ! o.empty() ) { o.front().c->reset(); o.pop_front(); } settle(); t += " all ended";
            if( i % 5 == 0 || k == REPLICA ) { for( int j = 0; j <= limit; ++j ) connect(); while( ! o.empty() ) { o.front().c->reset(); o.pop_front(); } settle(); }
        }
        stop_server();
    };
    return c;
}
// many connections at once, ends and connects racing
static mc::scenario racing(const string& name, kind k, int limit, int sb, int enders, int comers, int faults = 0) {
    mc::scenario s; s.name = name; s.sched_bound = sb; s.fault_bound = faults;
    s.body = [=] {
        start_server(conf(k, limit, 2)); mc::sleep_ms(2500); std::vector<peer> o, n; for( int j = 0; j < limit; ++j ) { o.emplace_back(k); must(k, o.back(), true, j, limit, ""); }
        std::vector<int> w; for( int e = 0; e < enders; ++e ) { w.push_back(mc::choose(k == MEMCACHE ? 5 : 3, "way")); if( e && w[e] < w[e - 1] ) mc::stop_ok(); } static const int some[5] = {0, 1, 5, 8, 9};
        mc::wait_idle(); if( faults ) { mc::faults f; f.recv_error = f.send_error = true; mc::set_faults(f); }
        mc::explore_schedules(true); for( int e = 0; e < enders; ++e ) { if( k == MEMCACHE ) end_connection(*o[e].c, some[w[e]]); else { if( w[e] == 1 ) o[e].c->send(k == COUNTER ? cref::cacq("r", 1, 5, 1) : string(1, '\0')); o[e].c->reset(w[e] == 2 ? ETIMEDOUT : ECONNRESET); } }
        for( int c = 0; c < comers; ++c ) n.emplace_back(k); if( faults ) for( auto& p: o ) if( ! p.c->server_closed() && k == MEMCACHE ) p.c->send("get x\r\n"); mc::wait_idle(); mc::explore_schedules(false); mc::set_faults(mc::faults{}); if( k == REPLICA ) mc::sleep_ms(2500); else mc::sleep_ms(100);
        int open = 0, up = 0; if( ! faults ) for( std::size_t e = enders; e < o.size(); ++e ) if( o[e].c->server_closed() ) mc::fail("a surviving %s was closed", kname(k)); for( auto& p: n ) p.c->take();
        for( auto& p: o ) { p.c->take(); if( ! p.c->server_closed() && &p - &o[0] >= enders ) ++open; } for( auto& p: n ) if( ! p.c->server_closed() && served(k, *p.c) ) { ++open; ++up; }
        if( open > limit ) mc::fail("%d of %d %ss are open", open, limit, kname(k));
        string t = " the race left " + std::to_string(open) + " open"; std::vector<peer> x; for( ; open <= limit; ++open ) { x.emplace_back(k); must(k, x.back(), open < limit, open, limit, t); }
        mc::visit_state(mc::mix(mc::mix(up, w[0]), open)); for( auto* v: {&o, &n, &x} ) for( auto& p: *v ) p.c->reset(); mc::sleep_ms(k == REPLICA ? 2500 : 100); std::vector<peer> y; for( int j = 0; j <= limit; ++j ) { y.emplace_back(k); must(k, y.back(), j < limit, j, limit, t + ", all ended"); } stop_server();
    };
    return s;
}
// without a limit nobody is refused
static mc::scenario unlimited(kind k) {
    mc::scenario s; s.name = string("unlimited-") + (k == MEMCACHE ? "clients" : "counter"); s.sched_bound = 0;
    s.body = [=] { start_server(conf(k, 0)); std::vector<peer> o; for( int j = 0; j < 60; ++j ) { o.emplace_back(k); must(k, o.back(), true, j, 0, ""); } for( auto& p: o ) if( ! served(k, *p.c) ) mc::fail("a connection was closed"); stop_server(); };
    return s;
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C25"; bool t = mc::thorough();
    c.rule = "all histories of the stated depth of connecting and ending the oldest or newest connection in 7-8 ways, limits 1..3 for clients and counter clients, five for replicas (histories start with 0, 3, 4 or 5 replicas); who is served is compared with the number open; the full capacity is checked again after everything ended; ends and connects race under every schedule within the bound, also with failing receives and sends";
    c.assumptions = {"a half-closed connection still counts as open until the server learns of its end", "a departed replica's place is free after the next second tick"};
    c.sequences.push_back(histories("clients-1", MEMCACHE, 1, t ? 4 : 3, 0)); c.sequences.push_back(histories("clients-2", MEMCACHE, 2, t ? 5 : 4, 0)); c.sequences.push_back(histories("clients-3-full", MEMCACHE, 3, t ? 4 : 3, 3));
    c.sequences.push_back(histories("counter-1", COUNTER, 1, t ? 4 : 3, 0)); c.sequences.push_back(histories("counter-2", COUNTER, 2, t ? 5 : 4, 0)); c.sequences.push_back(histories("counter-3-full", COUNTER, 3, t ? 4 : 3, 3));
    for( int st: {0, 3, 4, 5} ) c.sequences.push_back(histories("replicas-" + std::to_string(st), REPLICA, 5, t ? 4 : 3, st));
    auto& S = c.scenarios; S.push_back(racing("racing-clients", MEMCACHE, 2, 2, 2, 2)); S.push_back(racing("racing-comers", MEMCACHE, 2, 1, 1, 3)); S.push_back(racing("racing-counter", COUNTER, 2, 2, 2, 2)); S.push_back(racing("racing-replicas", REPLICA, 5, 1, 2, 2)); S.push_back(racing("racing-failing", MEMCACHE, 2, 0, 1, 1, 2)); S.push_back(unlimited(MEMCACHE)); S.push_back(unlimited(COUNTER));
    return mc::main_(argc, argv, c);
}
