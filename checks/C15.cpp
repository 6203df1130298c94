// C15: every request is eventually answered: no deadlock, no lost wakeup.
#include "cref.hpp"
#include "repl.hpp"
using namespace h;
typedef std::uint64_t u64;
static const unsigned BOUND = 30000;      // virtual ms within which every reply must come
static string key(int i) { return string(1, 'a' + i); }
// waits for the replies to n text requests whose first lines are any of `ok`
static void answered(client& c, const string& want, const char* what) {
    string got = c.recv(want.size(), BOUND);
    if( got != want ) mc::fail("%s: connection %d received \"%s\" instead of \"%s\"", what, c.id, quote(got).c_str(), quote(want).c_str());
}
static void alive(std::vector<std::unique_ptr<client>>& cs) {
    for( auto& c: cs ) c->send("get zz\r\n");
    for( auto& c: cs ) answered(*c, "END\r\n", "afterwards");
}
// Requests arrive while the server is starting.
static mc::scenario startup(const string& name, int sb, int workers, int conns) {
    mc::scenario s; s.name = name; s.sched_bound = sb;
    s.body = [=] {
        mc::explore_schedules(true);
        start_server(base_config(workers, 2));
        std::vector<std::unique_ptr<client>> c; for( int i = 0; i < conns; ++i ) { c.emplace_back(new client(PORT, i)); c[i]->send("get a\r\n"); }
        for( auto& x: c ) answered(*x, "END\r\n", "at start");
        mc::explore_schedules(false); alive(c); mc::visit_state(workers * 8 + conns); stop_server();
    };
    return s;
}
// More connections than workers, requests in several segments.
static mc::scenario many(const string& name, int sb, int workers, int conns, int program, bool gc) {
    mc::scenario s; s.name = name; s.sched_bound = sb;
    s.body = [=] {
        start_server(base_config(workers, 1, gc ? "gc_interval = 1\n" : "gc_interval = 1000\n"));
        std::vector<std::unique_ptr<client>> c; for( int i = 0; i < conns; ++i ) c.emplace_back(new client(PORT, i));
        c[0]->set("k", "5"); mc::wait_idle(); if( gc ) mc::sleep_ms(5000);
        static const std::vector<std::vector<std::pair<string, string>>> P = {      // request, reply; round robin over the connections
            {{"get zz\r\n", "END\r\n"}, {"set q 0 0 1\r\n1\r\n", "STORED\r\n"}},
            {{"delete zz\r\n", "NOT_FOUND\r\n"}, {"get zz\r\nget zz\r\n", "END\r\nEND\r\n"}, {"keys zz\r\n", "END\r\n"}},
            {{"touch k 5000\r\n", "TOUCHED\r\n"}, {"set r 0 0 1 noreply\r\n1\r\nget zz\r\n", "END\r\n"}},
            {{"bogus\r\n", "ERROR\r\n"}, {"version\r\n", ""}},
        };
        auto& p = P[program]; string v; if( program == 3 ) { c[0]->send("version\r\n"); mc::wait_idle(); v = c[0]->take(); }
        mc::explore_schedules(true); if( gc ) mc::advance_ms(2500);
        for( std::size_t r = 0; r < p.size(); ++r ) for( int i = 0; i < conns; ++i ) c[i]->send(p[(r + i) % p.size()].first);
        for( std::size_t r = 0; r < p.size(); ++r ) for( int i = 0; i < conns; ++i ) { const string& w = p[(r + i) % p.size()].second; answered(*c[i], w.empty() ? v : w, "in time"); }
        mc::explore_schedules(false); alive(c); mc::visit_state(program * 100 + conns * 10 + workers); stop_server();
    };
    return s;
}
// A request arrives in pieces at every moment of the processing of the others.
static mc::scenario pieces(const string& name, int sb, int workers) {
    mc::scenario s; s.name = name; s.sched_bound = sb;
    s.body = [=] {
        start_server(base_config(workers, 1, "gc_interval = 1000\n")); std::vector<std::unique_ptr<client>> c; for( int i = 0; i < 2; ++i ) c.emplace_back(new client(PORT, i)); mc::wait_idle();
        int w = mc::choose(3, "pieces"); static const char* A[3][3] = {{"get z", "z\r\nget", " zz\r\n"}, {"get zz\r\n", "get zz\r", "\n"}, {"set q 0 0 4\r\n", "ab", "cd\r\n"}};
        mc::explore_schedules(true);
        for( int k = 0; k < 3; ++k ) { c[0]->send(A[w][k]); mc::yield(); if( k == 1 ) c[1]->send("get zz\r\n"); }
        answered(*c[0], w == 2 ? "STORED\r\n" : "END\r\nEND\r\n", "pieces"); answered(*c[1], "END\r\n", "another connection");
        mc::explore_schedules(false); alive(c); mc::visit_state(w); stop_server();
    };
    return s;
}
// Clients that read slowly (but do read), writers to the same keys, a listing and a collection.
static mc::scenario slow_readers(const string& name, int sb, int workers, bool gc, bool replica) {
    mc::scenario s; s.name = name; s.sched_bound = sb;
    s.body = [=] {
        start_server(base_config(workers, 1, string(gc ? "gc_interval = 1\n" : "gc_interval = 1000\n") + "repl_buffer_size = 1\nslave_timeout = 1000000\n"));
        std::vector<std::unique_ptr<client>> c; for( int i = 0; i < 4; ++i ) c.emplace_back(new client(PORT, i));
        string v(600, 'v'); c[0]->set("a", v); c[0]->set("b", v); ref::replica r; if( replica ) { r.join(); mc::sleep_ms(3000); r.pull(); r.c.set_window(300); }
        if( gc ) { c[0]->set("e", "dead", 0, 1); mc::sleep_ms(5000); } else mc::wait_idle();
        int prog = mc::choose(3, "program"); string va = "VALUE a 0 600\r\n" + v + "\r\n", vb = "VALUE b 0 600\r\n" + v + "\r\n";
        static const char* W[] = {"set b 0 0 1\r\nw\r\n", "delete a\r\n", "flush_all 100\r\n"}; static const char* WR[] = {"STORED\r\n", "DELETED\r\n", "OK\r\n"};
        c[0]->set_window(100); c[1]->set_window(200);
        mc::explore_schedules(true); if( gc ) mc::advance_ms(2500);
        c[0]->send("get a b\r\n"); c[1]->send("get b\r\nget a\r\n"); c[2]->send(W[prog]); c[3]->send("get nokey\r\nkeys zz\r\n");
        // everybody keeps reading
        int quiet = 0; string got[4], rep;
        for( int k = 0; k < 400 && quiet < 3; ++k ) {
            mc::sleep_ms(50); bool any = false;
            for( int i = 0; i < 4; ++i ) if( c[i]->avail() ) { got[i] += c[i]->take(); any = true; }
            if( replica && r.c.avail() ) { rep += r.c.recv(r.c.avail()); any = true; }
            quiet = any ? 0 : quiet + 1;
        }
        mc::explore_schedules(false);
        if( got[2] != WR[prog] ) mc::fail("the writer received \"%s\" after 20 s", quote(got[2]).c_str());
        if( got[3] != "END\r\nEND\r\n" ) mc::fail("connection 3 received \"%s\"", quote(got[3]).c_str());
        auto end = [](const string& s) { return s.size() >= 5 && s.compare(s.size() - 5, 5, "END\r\n") == 0; };
        if( ! end(got[0]) || ! end(got[1]) || (prog != 1 && got[0].compare(0, va.size(), va)) || (prog != 0 && got[1].compare(0, vb.size(), vb)) ) mc::fail("a slow reader received \"%s\" / \"%s\"", quote(got[0], 2000).c_str(), quote(got[1], 2000).c_str());
        alive(c); mc::visit_state(prog); stop_server();
    };
    return s;
}
// Replicas that read, with a full replication buffer in between: nobody stays blocked.
static mc::scenario full_buffer(const string& name, int sb, int workers, int conns) {
    mc::scenario s; s.name = name; s.sched_bound = sb;
    s.body = [=] {
        start_server(base_config(workers, 3, "repl_buffer_size = 1\nslave_timeout = 1000000\nmax_data_size = 4M\ngc_interval = 1000\n"));
        std::vector<std::unique_ptr<client>> c; for( int i = 0; i < conns; ++i ) c.emplace_back(new client(PORT, i));
        ref::replica r; r.join(); mc::sleep_ms(3000); r.pull(); r.c.set_window(1000); string v(500000, 'v');
        mc::explore_schedules(true);
        for( int i = 0; i < conns; ++i ) c[i]->send("set " + key(i) + " 0 0 500000\r\n" + v + "\r\nset x" + key(i) + " 0 0 500000\r\n" + v + "\r\n");
        mc::wait_idle_for(10); string rep = r.c.take(); r.c.set_window(300000);
        for( int k = 0; k < 60; ++k ) { mc::sleep_ms(20); if( r.c.avail() ) rep += r.c.take(); else if( k > 30 ) break; }
        for( auto& x: c ) answered(*x, "STORED\r\nSTORED\r\n", "with a replica that reads");
        mc::explore_schedules(false); r.c.set_window(1 << 30); alive(c); mc::visit_state(conns); stop_server();
    };
    return s;
}
// A replica that stalls for good is dropped after the timeout; everything blocked on it continues.
static mc::scenario stalled_replica(const string& name, int sb, int workers, bool reset) {
    mc::scenario s; s.name = name; s.sched_bound = sb;
    s.body = [=] {
        start_server(base_config(workers, 3, "repl_buffer_size = 1\nslave_timeout = 6\nmax_data_size = 4M\ngc_interval = 1000\n"));
        std::vector<std::unique_ptr<client>> c; for( int i = 0; i < 3; ++i ) c.emplace_back(new client(PORT, i));
        ref::replica r; r.join(); mc::sleep_ms(3000); r.pull(); r.c.set_window(1000); string v(800000, 'v'); r.heartbeat(); mc::wait_idle();
        mc::explore_schedules(true);
        for( int i = 0; i < 3; ++i ) c[i]->send("set " + key(i) + " 0 0 800000\r\n" + v + "\r\n");
        if( reset ) r.c.reset();
        for( auto& x: c ) answered(*x, "STORED\r\n", "after the replica is gone");
        mc::explore_schedules(false); alive(c); mc::visit_state(workers); stop_server();
    };
    return s;
}
// Memcache and counter connections share the workers.
static mc::scenario mixed(const string& name, int sb, int workers) {
    mc::scenario s; s.name = name; s.sched_bound = sb;
    s.body = [=] {
        start_server(base_config(workers, 1, "counter.enable = true\ncounter.buckets = 1\ncounter.stat_interval = 10\ngc_interval = 1\n")); mc::block_until([]{ return mc::listening(CNT); }, "counter port");
        std::vector<std::unique_ptr<client>> c; for( int i = 0; i < 2; ++i ) c.emplace_back(new client(PORT, i)); cref::cclient a(5), b(6); a.acquire("x", 1, 9); long now = mc::now_sec(); mc::sleep_ms((10 - now % 10) * 1000 + 8200); mc::wait_idle();
        mc::explore_schedules(true); mc::advance_ms(2500);
        c[0]->send("get zz\r\n"); a.send(cref::cacq("x", 1, 9, 1)); c[1]->send("keys zz\r\n"); b.send(cref::creq(cref::cDump, "", 2)); a.send(cref::cget("x", 3));
        answered(*c[0], "END\r\n", "text"); answered(*c[1], "END\r\n", "text"); a.recv(16 + 16, BOUND); cref::cresp r; do r = b.response(BOUND); while( ! r.body.empty() );
        mc::explore_schedules(false); alive(c); if( a.getc("x").status ) mc::fail("counter"); mc::visit_state(workers); stop_server();
    };
    return s;
}
// Connections come and go between the requests of others, descriptors are reused.
static mc::scenario churn(const string& name, int sb, int workers, bool gc) {
    mc::scenario s; s.name = name; s.sched_bound = sb;
    s.body = [=] {
        start_server(base_config(workers, 2, gc ? "gc_interval = 1\n" : "gc_interval = 1000\n")); std::vector<std::unique_ptr<client>> c; for( int i = 0; i < 2; ++i ) c.emplace_back(new client(PORT, i)); client x(PORT, 7); mc::wait_idle();
        int end = mc::choose(4, "ending"); if( gc ) mc::sleep_ms(5000);
        mc::explore_schedules(true); if( gc ) mc::advance_ms(2500);
        c[0]->send("get zz\r\n"); if( end == 0 ) x.send("quit\r\n"); if( end == 1 ) x.reset(); if( end == 2 ) x.close(); if( end == 3 ) { x.send("get zz\r\n"); x.reset(); }
        c.emplace_back(new client(PORT, 3)); c[2]->send("get zz\r\n"); c[1]->send("get zz\r\n");
        for( auto& y: c ) answered(*y, "END\r\n", "churn");
        mc::explore_schedules(false); alive(c); mc::visit_state(end); stop_server();
    };
    return s;
}
// A connection that holds something is reset while others read slowly.  All
// times at which the readers start and resume, relative to the reset.
static mc::chunked reset_holder() {
    static const int NX = 8, NY = 8;
    mc::chunked c; c.name = "reset-holder"; c.count = NX * NY * 3 * 2 * 3; c.chunk = 1; c.arena = false;
    c.body = [](u64 from, u64 to) {
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); int x = i % NX * 300, y = i / NX % NY * 300, kind = i / NX / NY % 3, buckets = i / NX / NY / 3 % 2 ? 5 : 1, workers = 2 + i / NX / NY / 6;
            string cfg = "gc_interval = 1000\n"; if( kind == 2 ) cfg += "counter.enable = true\ncounter.buckets = " + std::to_string(buckets) + "\n";
            start_server(base_config(workers, buckets, cfg)); client o(PORT, 9); std::unique_ptr<client> hold, keep; string big(900000, 'v'), want, req, creq, cwant;
            o.set("v", big); o.set("k", "1"); o.set("k0", "1"); o.set("f", "1");
            req = "get"; for( int n = 0; n < 8; ++n ) { req += " v"; want += "VALUE v 0 900000\r\n" + big + "\r\n"; } req += "\r\n"; want += "END\r\n";
            if( kind == 2 ) {
                keep.reset(new client(CNT, 8)); for( int n = 0; n < 200; ++n ) keep->send(cref::cacq(string(200, 'n') + std::to_string(n), 1, 9, n));
                hold.reset(new client(CNT, 0)); for( int n = 0; n < 10; ++n ) hold->send(cref::cacq("x" + std::to_string(n), 1, 9, n));
                mc::wait_idle(); hold->take(); keep->take(); req = cref::creq(cref::cDump, "", 7); keep->send(req); mc::wait_idle(); want = keep->take(); string r1 = req, w1 = want; if( w1.size() < 40000 ) mc::fail("dump of %zu bytes", w1.size());
                for( int n = 1; n < 60; ++n ) { req += r1; }
            } else {
                hold.reset(new client(PORT, 0)); for( const char* k: {"k", "k0", "f", "v"} ) if( kind == 0 || *k != 'v' ) hold->cmd(string("lock ") + k + "\r\n");
            }
            client b(kind == 2 ? CNT : PORT, 1), d(kind == 2 ? CNT : PORT, 2); for( auto* p: {&b, &d} ) { p->set_window(1000); p->set_autoread(false); }
            mc::sleep_ms(5000); string what = "a connection holding " + string(kind == 2 ? "counters" : "locks") + " is reset, a slow reader starts " + std::to_string(x) + " ms later, another resumes " + std::to_string(y) + " ms after that";
            d.send(req); mc::sleep_ms(1500); hold->reset(); mc::sleep_ms(1 + x); b.send(req); mc::sleep_ms(1 + y);
            for( auto* p: {&d, &b} ) { p->set_window(1 << 24); std::size_t n = kind == 2 ? 0 : want.size(); if( n ) { string g = p->recv(n, BOUND); if( g != want ) mc::fail("%s: %zu bytes of %zu received", what.c_str(), g.size(), n); } else { p->send(cref::cget("none", 0x55667788)); string g; for( unsigned w = 0; w < BOUND / 10 && g.find("\x55\x66\x77\x88") == string::npos; ++w ) { g = g.substr(g.size() - std::min<std::size_t>(g.size(), 11)) + p->take(); mc::sleep_ms(10); } if( g.find("\x55\x66\x77\x88") == string::npos ) mc::fail("%s: a reader is not served", what.c_str()); } mc::sleep_ms(3000); }
            o.send("get zz\r\n"); answered(o, "END\r\n", what.c_str());
            if( keep ) { keep->send(cref::cget("none", 5)); if( keep->recv(12, BOUND).size() < 12 ) mc::fail("%s: a counter connection is not served", what.c_str()); }
            mc::visit_state(i); mc::count_transition(); stop_server();
        }
    };
    return c;
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C15"; bool t = mc::thorough();
    c.rule = "connections outnumbering workers, requests in pieces, slow readers, full replication buffers, stalled replicas, counter connections, churn, collections and server start, under all schedules within the preemption bound; connections holding locks or counters that are reset, at every one of the stated times relative to slow readers; every request must be answered within 30 virtual seconds and no thread may block or spin for ever";
    c.sequences.push_back(reset_holder());
    c.scenarios.push_back(startup("startup", 2, 1, 2)); c.scenarios.push_back(startup("startup-two-workers", t ? 2 : 1, 2, 3));
    c.scenarios.push_back(many("one-worker", 2, 1, 3, 0, false)); c.scenarios.push_back(many("two-workers", 2, 2, 3, 1, false)); c.scenarios.push_back(many("five-connections", 1, 2, 5, 2, false)); c.scenarios.push_back(many("errors", 1, 1, 3, 3, false)); c.scenarios.push_back(many("collecting", t ? 2 : 1, 2, 3, 0, true));
    c.scenarios.push_back(pieces("pieces", t ? 3 : 2, 2)); c.scenarios.push_back(pieces("pieces-one-worker", 2, 1));
    c.scenarios.push_back(slow_readers("slow-readers", 1, 4, false, false)); c.scenarios.push_back(slow_readers("slow-readers-collecting", 1, 4, true, false)); c.scenarios.push_back(slow_readers("slow-readers-replica", 1, 3, false, true)); c.scenarios.push_back(slow_readers("slow-readers-one-worker", 1, 1, false, true));
    c.scenarios.push_back(full_buffer("full-buffer", 1, 2, 3)); c.scenarios.push_back(full_buffer("full-buffer-one-worker", 1, 1, 2));
    c.scenarios.push_back(stalled_replica("stalled-replica", 1, 2, false)); c.scenarios.push_back(stalled_replica("lost-replica", 1, 2, true));
    c.scenarios.push_back(mixed("counters", 1, 2)); c.scenarios.push_back(churn("churn", t ? 2 : 1, 1, false)); c.scenarios.push_back(churn("churn-collecting", 1, 2, true));
    return mc::main_(argc, argv, c);
}
