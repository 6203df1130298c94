// C27: silent replicas are dropped, live ones are kept; a replica keeps
// sending heartbeats whatever the master sends.
#include "repl.hpp"
using namespace ref;
static const char* VIP = "10.9.8.7";
static const long SLACK = 2400;   // the server looks at its connections every 1.1 s and counts whole seconds
struct rep { std::unique_ptr<replica> r; long last = 0; bool gone = false; string name; };
enum { H_OLD, H_NEW, H_ALL, SHORT, HALF, ALMOST, JUST, OVER, JOIN, SET, STALL, N_EV };
static const char* ev_name[] = {"the first replica sends", "the last replica sends", "all send", "0.3 s", "half the timeout", "almost the timeout", "the timeout", "longer", "join", "set", "the server is held up"};
struct world {
    std::vector<rep> v; long T; string trace; h::client* c; int n = 0;
    void look() {
        mc::wait_idle();
        for( auto& x: v ) {
            if( x.gone ) continue; long silent = mc::now_ms() - x.last; bool closed = x.r->c.server_closed();
            if( closed && silent <= T * 1000 ) mc::fail("replica %s was dropped %ld ms after its last heartbeat, the timeout is %ld s   after:%s", x.name.c_str(), silent, T, trace.c_str());
            if( ! closed && silent > T * 1000 + SLACK ) mc::fail("replica %s is still connected %ld ms after its last heartbeat, the timeout is %ld s   after:%s", x.name.c_str(), silent, T, trace.c_str());
            if( closed ) { x.gone = true; if( ! x.r->c.fd_released() ) { mc::sleep_ms(2500); if( ! x.r->c.fd_released() ) mc::fail("the descriptor of a dropped replica is kept   after:%s", trace.c_str()); } } else if( true ) x.r->pull();
        }
        mc::visit_state(mc::hash_str(trace)); mc::count_transition();
    }
    void join(int window = -1) { v.emplace_back(); rep& x = v.back(); x.name = string(1, 'A' + n++); x.r.reset(new replica); x.r->join(REPL, false); if( window >= 0 ) x.r->c.set_window(window); x.last = mc::now_ms(); mc::wait_idle(); int live = 0; for( auto& y: v ) if( ! y.gone && ! y.r->c.server_closed() ) ++live; if( x.r->c.server_closed() && live < 4 ) mc::fail("a replica is refused although only %d are connected   after:%s", live, trace.c_str()); if( x.r->c.server_closed() ) x.gone = true; }
    void beat(rep& x) { if( ! x.gone && ! x.r->c.server_closed() ) { x.r->heartbeat(); x.last = mc::now_ms(); } }
    // time passes in steps, so that a drop is seen when it happens
    void pass(long ms) { while( ms > 0 ) { long d = std::min(ms, 500L); mc::sleep_ms(d); ms -= d; look(); } }
    void event(int e) {
        trace += string(" / ") + ev_name[e];
        switch( e ) {
        case H_OLD: for( auto& x: v ) if( ! x.gone ) { beat(x); break; } break;
        case H_NEW: for( auto it = v.rbegin(); it != v.rend(); ++it ) if( ! it->gone ) { beat(*it); break; } break;
        case H_ALL: for( auto& x: v ) beat(x); break;
        case SHORT: pass(300); break; case HALF: pass(T * 500); break; case ALMOST: pass(T * 1000 - 50); break; case JUST: pass(T * 1000); break; case OVER: pass(T * 1000 + SLACK + 200); break;
        case JOIN: join(); break;
        case SET: if( c->set("k", std::to_string(++n)) != "STORED\r\n" ) mc::fail("set fails"); break;
        case STALL: for( auto& x: v ) beat(x); mc::advance_ms(3 * T * 1000); for( auto& x: v ) if( ! x.gone ) x.last = mc::now_ms(); break;   // heartbeats were sent meanwhile but the server did not run
        }
        look();
    }
};
static string conf(long T, int workers = 1) { return base_config(workers, 5, "slave_timeout = " + std::to_string(T) + "\nrepl_buffer_size = 1\ngc_interval = 1\n"); }
static mc::chunked histories(const string& name, long T, std::vector<int> ev, int depth, int start, int window) {
    mc::chunked c; c.name = name; int n = ev.size(); c.count = power(n, depth); c.chunk = std::max<u64>(1, std::min<u64>(100, c.count / 64 + 1)); c.arena = false;
    c.body = [=](u64 from, u64 to) {
        mc::set_step_limit(400000000); start_server(conf(T)); h::client cl(PORT, 1); mc::sleep_ms(3000);
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); world w; w.T = T; w.c = &cl; mc::sleep_ms(137 * (i % 8)); for( int j = 0; j < start; ++j ) w.join(window); for( int k: digits(i, n, depth) ) w.event(ev[k]);
            // all silent from now on: everything goes, and the places are free again
            w.trace += " / silence"; w.pass(T * 1000 + SLACK + 200); for( auto& x: w.v ) if( ! x.gone ) mc::fail("not dropped");
            if( cl.set("k", "end") != "STORED\r\n" ) mc::fail("set fails");
        }
        stop_server();
    };
    return c;
}
// a replica that sends at a fixed pace below the timeout stays for ever
static mc::chunked pace(const string& name) {
    static const long TS[] = {1, 2, 3, 5, 10}; static const int P[] = {40, 55, 70, 85, 100};   // percent of the timeout
    mc::chunked c; c.name = name; c.count = 5 * 5 * 10 * 3; c.chunk = 1; c.arena = false;
    c.body = [=](u64 from, u64 to) {
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); mc::set_step_limit(50000000); long T = TS[i % 5]; long p = T * 10 * P[i / 5 % 5]; int phase = i / 25 % 10, reading = i / 250; start_server(conf(T)); h::client cl(PORT, 1); mc::sleep_ms(2000 + phase * 110); world w; w.T = T; w.c = &cl;
            w.trace = " heartbeats every " + std::to_string(p) + " ms"; w.join(reading == 2 ? 0 : -1);
            for( int k = 0; k < 25; ++k ) { w.beat(w.v[0]); if( reading == 1 ) cl.set("k" + std::to_string(k % 3), string(k, 'x')); long left = p; while( left > 0 ) { long d = std::min(left, 950L); mc::sleep_ms(d); left -= d; w.look(); if( w.v[0].gone ) mc::fail("dropped"); } }
            stop_server();
        }
    };
    return c;
}
// heartbeats around the moment of the decision, with the collection and other connections, under all schedules
static mc::scenario racing(const string& name, int sb) {
    mc::scenario s; s.name = name; s.sched_bound = sb;
    s.body = [=] {
        start_server(conf(5)); h::client cl(PORT, 1); mc::sleep_ms(2500); world w; w.T = 5; w.c = &cl; w.join(); w.join(); mc::wait_idle(); w.beat(w.v[0]); w.beat(w.v[1]); mc::sleep_ms(3950); int k = mc::choose(4, "moment"); for( int i = 0; i < 2; ++i ) { if( mc::choose(2, i ? "second" : "first") ) w.beat(w.v[i]); }
        mc::explore_schedules(true); if( k & 1 ) cl.send("set k 0 0 1\r\nx\r\n"); mc::advance_ms(1049); mc::wait_idle(); if( k & 2 ) w.beat(w.v[1]); mc::advance_ms(3000); mc::wait_idle(); mc::explore_schedules(false); mc::sleep_ms(10); cl.take();
        for( int i = 0; i < 3; ++i ) { long silent[2] = {mc::now_ms() - w.v[0].last, mc::now_ms() - w.v[1].last}; for( int j = 0; j < 2; ++j ) { bool closed = w.v[j].r->c.server_closed(); if( closed && silent[j] <= 5000 ) mc::fail("replica %d was dropped %ld ms after its last heartbeat", j, silent[j]); if( closed ) w.v[j].gone = true; else if( silent[j] > 5000 + SLACK + 3000 ) mc::fail("replica %d is kept", j); } mc::sleep_ms(1200); }
        mc::visit_state(mc::mix(w.v[0].gone, w.v[1].gone)); stop_server();
    };
    return s;
}
// ---- the other side
struct listener {   // what the master sees
    mc::client m; long last = 0, T; string trace;
    void check() { string s = m.take(); for( char ch: s ) if( ch ) mc::fail("a replica sends something else than heartbeats"); if( ! s.empty() ) last = mc::now_ms(); else if( mc::now_ms() - last > T ) mc::fail("no heartbeat for %ld ms   %s", mc::now_ms() - last, trace.c_str()); mc::count_transition(); }
    void start() { T = 5000; mc::set_local_ip(VIP, false); mc::set_remote_listen(REPL, true); start_server(base_config(1, 5, string("virtual_ip = ") + VIP + "\n"), true); if( ! mc::accept_connect(m, REPL, 20000) ) mc::fail("the server does not connect to the master"); last = mc::now_ms(); m.set_autoread(false); }
};
static string setq(const string& k, const string& v) { return bin(bSetQ, k, bset_extras(0, 0), v); }
// stream that never ends: every receive finds more
static mc::chunked stream(const string& name) {
    static const int MS[] = {4, 20, 60}; static const std::size_t SZ[] = {0, 100, 5000, 700000};
    mc::chunked c; c.name = name; c.count = 3 * 4 * 3; c.chunk = 1; c.arena = false;
    c.body = [=](u64 from, u64 to) {
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); mc::set_step_limit(50000000); listener l; l.start(); int ms = MS[i % 3]; std::size_t sz = SZ[i / 3 % 4]; int cut = i / 12; l.trace = "while a stream of " + std::to_string(sz) + " byte values arrives, one every " + std::to_string(ms) + " ms";
            long t0 = mc::now_ms(); int n = 0; string carry; long worst = 0;
            auto src = [&]() -> string { if( mc::now_ms() - t0 > 13000 ) { string x; x.swap(carry); return x; } string s = carry + setq("k" + std::to_string(n++ % 7), string(sz, 'v')); std::size_t keep = cut == 0 ? 0 : cut == 1 ? s.size() / 2 : 23; carry = s.substr(s.size() - keep); s.resize(s.size() - keep); long q = mc::now_ms() - l.last; if( q > worst ) worst = q; if( ! l.m.avail() ) { if( q > l.T ) mc::fail("no heartbeat for %ld ms   %s", q, l.trace.c_str()); } else l.last = mc::now_ms(), l.m.take(); return s; };
            l.m.set_source(src, ms); l.m.send(setq("first", "x")); for( int k = 0; k < 40; ++k ) { mc::sleep_ms(500); l.check(); } if( n < 13000 / ms / 4 ) mc::fail("the stream was not consumed: %d", n); l.m.set_source(nullptr, 0); mc::visit_state(mc::mix(i, worst));
            mc::set_local_ip(VIP, true); mc::block_until([]{ return mc::listening(REPL); }, "promotion to master", 30000); h::client c2(PORT, 1); if( c2.get("first") != "VALUE first 0 1\r\nx\r\nEND\r\n" ) mc::fail("the stream was not applied"); stop_server();
        }
    };
    return c;
}
// every history of short waits, data and a master that stops and resumes reading
static mc::chunked slave_histories(const string& name, int depth) {
    static const char* en[] = {"0.4 s", "1.1 s", "3 s", "12 s", "data", "part of a command", "master stops reading", "master reads"};
    mc::chunked c; c.name = name; c.count = power(8, depth); c.chunk = std::max<u64>(1, c.count / 64); c.arena = false;
    c.body = [=](u64 from, u64 to) {
        mc::set_step_limit(400000000); listener l; l.start(); int n = 0;
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); bool open = true; l.trace = "after:"; string rest;
            auto step = [&](int e) {
                l.trace += string(" / ") + en[e]; auto pass = [&](long ms) { while( ms > 0 ) { mc::sleep_ms(std::min(ms, 400L)); ms -= 400; if( open ) l.check(); } };
                switch( e ) { case 0: pass(400); break; case 1: pass(1100); break; case 2: pass(3000); break; case 3: pass(12000); break;
                case 4: l.m.send(rest + setq("k" + std::to_string(n++ % 5), "v")); rest = ""; mc::wait_idle(); break; case 5: if( rest.empty() ) { string s = setq("p", string(30, 'p')); l.m.send(s.substr(0, 30)); rest = s.substr(30); } break;
                case 6: open = false; l.m.take(); l.m.set_window(0); break; case 7: open = true; l.m.set_window(1 << 30); l.last = mc::now_ms(); break; }
                if( open ) l.check(); if( l.m.server_closed() ) mc::fail("the replica dropped the connection   %s", l.trace.c_str()); };
            for( int k: digits(i, 8, depth) ) step(k); step(7); step(2); if( ! rest.empty() ) step(4); step(3); mc::visit_state(mc::hash_str(l.trace));
        }
        stop_server();
    };
    return c;
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C27"; bool t = mc::thorough(); int x = t ? 1 : 0;
    c.rule = "master side: all histories of the stated depth over {heartbeats of the first, the last, all replicas, waits below, at and above the timeout, a join, a write, a held-up server} for several timeouts: a replica is connected as long as it was silent for at most the timeout and dropped 2.4 s later at the latest; fixed paces at many phases; decisions under all schedules within the bound. Replica side: endless streams and all histories of waits, data and a master that stops reading: heartbeats at most 5 s apart";
    c.assumptions = {"the master is given 2.4 s to notice a timeout (1.1 s between looks, whole seconds)", "the default timeout is 10 s; heartbeats are required every 5 s"};
    auto& Q = c.sequences; auto& S = c.scenarios;
    Q.push_back(histories("two-replicas", 5, {H_OLD, H_NEW, H_ALL, HALF, ALMOST, JUST, OVER}, 5 + x, 2, -1)); Q.push_back(histories("joining", 3, {H_OLD, H_ALL, SHORT, HALF, ALMOST, JOIN, SET, STALL}, 5 + x, 1, -1)); Q.push_back(histories("not-reading", 5, {H_OLD, H_NEW, HALF, ALMOST, OVER, SET}, 5 + x, 2, 0));
    Q.push_back(histories("short-timeout", 1, {H_OLD, H_ALL, SHORT, ALMOST, JUST, JOIN, STALL}, 5 + x, 1, -1)); Q.push_back(histories("default-timeout", 10, {H_OLD, H_ALL, SHORT, HALF, ALMOST, JOIN}, 4 + x, 2, -1)); Q.push_back(pace("pace")); Q.push_back(stream("stream")); Q.push_back(slave_histories("replica", 4 + x)); 
    S.push_back(racing("racing", 2));
    return mc::main_(argc, argv, c);
}
