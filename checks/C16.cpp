// C16: shutdown always completes cleanly.
#include "cref.hpp"
#include "repl.hpp"
#include <cerrno>
using namespace h;
static const char* VIP = "10.9.8.7";
static const int SIGS[] = {SIGTERM, SIGINT, SIGQUIT};
static void killer(int sig = SIGTERM) { mc::spawn("killer", [=]{ mc::note("signal %d", sig); mc::raise_signal(sig); }); }
static void ended(unsigned ms = 20000) {
    mc::block_until([]{ return srv().done; }, "termination after the signal", ms);
    if( srv().code != 0 && srv().code != -1 ) mc::fail_kind("exit", "exit status %d after the signal", srv().code);
    mc::join_all();
}
typedef std::vector<std::unique_ptr<client>> clients;
static clients conns(int n) { clients c; for( int i = 0; i < n; ++i ) c.emplace_back(new client(PORT, i)); return c; }
static mc::scenario sc(const string& name, int sb, std::function<void()> body, double w = 1) { mc::scenario s; s.name = name; s.sched_bound = sb; s.weight = w; s.body = body; return s; }
// ordinary requests
static mc::scenario busy(const string& name, int sb, int workers, int program, bool gc) {
    return sc(name, sb, [=] {
        static const std::vector<std::vector<string>> P = {
            {"get a\r\n", "set a 0 0 1\r\nx\r\nget a\r\n"}, {"delete a\r\n", "keys\r\n", "flush_all\r\n"}, {"set b 0 0 10\r\nabc", "get a\r\nget", "quit\r\n"},
            {bin(bLock, "a") + bin(bGet, "a"), bin(bUnlockAll, ""), bin(bQuit, "")}, {"incr a 1\r\n", "stats\r\n", "touch a 0\r\n", "append a 0 0 1\r\nx\r\n"}};
        start_server(base_config(workers, 1, gc ? "gc_interval = 1\n" : "gc_interval = 1000\n")); auto& p = P[program]; clients c = conns(p.size());
        c[0]->set("a", "5"); int sig = SIGS[program % 3]; mc::wait_idle(); if( gc ) mc::sleep_ms(5000);
        mc::explore_schedules(true); if( gc ) mc::advance_ms(2500);
        for( std::size_t i = 0; i < p.size(); ++i ) c[i]->send(p[i]);
        killer(sig); ended(); mc::visit_state(program);
    });
}
// writers blocked by a peer that does not read, others waiting for the bucket
static mc::scenario blocked(const string& name, int sb, int workers, int nread, bool gc, bool idle_first) {
    return sc(name, sb, [=] {
        start_server(base_config(workers, 1, gc ? "gc_interval = 1\n" : "gc_interval = 1000\n")); clients c = conns(4); c[0]->set("a", string(700, 'v')); mc::wait_idle(); if( gc ) mc::sleep_ms(5000);
        for( int i = 0; i < nread; ++i ) c[i]->set_window(100);
        if( ! idle_first ) mc::explore_schedules(true);
        if( gc ) mc::advance_ms(2500);
        for( int i = 0; i < nread; ++i ) c[i]->send("get a\r\nget a a a\r\nget a\r\n");
        for( int i = nread; i < 4; ++i ) c[i]->send("set a 0 0 1\r\nx\r\n");
        if( idle_first ) { mc::sleep_ms(50); mc::explore_schedules(true); }
        killer(); ended(); mc::visit_state(nread);
    });
}
// one-sided endings at the same time
static mc::scenario leaving(const string& name, int sb, int workers) {
    return sc(name, sb, [=] {
        start_server(base_config(workers, 1, "gc_interval = 1000\n")); clients c = conns(3); c[0]->set("a", string(700, 'v')); int w = mc::choose(4, "ending"); c[1]->set_window(100); mc::wait_idle();
        mc::explore_schedules(true); c[1]->send("get a a\r\n"); c[2]->send("get a\r\n");
        killer();
        if( w == 0 ) c[2]->reset(); if( w == 1 ) c[1]->reset(); if( w == 2 ) c[1]->close(); if( w == 3 ) c[2]->send("quit\r\n");
        ended(); mc::visit_state(w);
    });
}
// replicas: joining, being brought up to date, not reading, leaving
static mc::scenario replica(const string& name, int sb, int workers, int phase) {
    return sc(name, sb, [=] {
        start_server(base_config(workers, 2, "gc_interval = 1\nrepl_buffer_size = 1\nslave_timeout = 1000\nmax_data_size = 4M\n")); clients c = conns(2); string big(900000, 'v');
        c[0]->set("a", phase == 1 ? big : "1"); c[0]->set("b", phase == 1 ? big : "2"); if( phase == 1 ) c[0]->set("c", big); ref::replica r; r.c.connect(REPL); r.c.set_autoread(false); r.heartbeat();
        if( phase == 0 ) { mc::wait_idle(); mc::explore_schedules(true); mc::advance_ms(2500); }     // the first transfer starts and proceeds
        if( phase == 1 ) { r.c.set_window(1000); mc::sleep_ms(5000); mc::explore_schedules(true); }                     // the collector waits for the replica
        if( phase == 2 ) { mc::sleep_ms(5000); r.c.set_window(1000); mc::wait_idle(); mc::explore_schedules(true); c[0]->send("set x 0 0 900000\r\n" + big + "\r\nset y 0 0 900000\r\n" + big + "\r\nset z 0 0 1\r\nz\r\n"); c[1]->send("set y 0 0 1\r\ny\r\nget y\r\n"); }
        if( phase == 3 ) { mc::sleep_ms(5000); mc::wait_idle(); mc::explore_schedules(true); c[0]->send("set x 0 0 1\r\nx\r\n"); r.c.reset(); }
        killer(); ended(); mc::visit_state(phase);
    });
}
static mc::scenario counters(const string& name, int sb) {
    return sc(name, sb, [=] {
        start_server(base_config(2, 1, "counter.enable = true\ncounter.buckets = 1\ncounter.stat_interval = 10\ngc_interval = 1000\n")); mc::block_until([]{ return mc::listening(CNT); }, "counter port");
        cref::cclient a(5), b(6); a.acquire("x", 1, 9); a.acquire("y", 1, 9); b.acquire("y", 1, 9); int w = mc::choose(3, "what"); long now = mc::now_sec(); mc::sleep_ms((10 - now % 10) * 1000 + 8200); mc::wait_idle();
        mc::explore_schedules(true); mc::advance_ms(2500); if( w == 0 ) { a.send(cref::cacq("x", 1, 9, 1)); b.send(cref::creq(cref::cDump, "", 2)); }
        if( w == 1 ) { a.reset(); b.send(cref::cacq("x", 1, 9, 1)); } if( w == 2 ) { b.set_window(10); b.send(cref::creq(cref::cDump, "", 2)); a.send(cref::cacq("y", 1, 9, 1)); }
        killer(); ended(); mc::visit_state(w);
    });
}
// during start up and in replica mode
static mc::scenario startup(const string& name, int sb) {
    return sc(name, sb, [=] {
        int w = mc::choose(3, "signal"); mc::explore_schedules(true);
        start_server(base_config(2, 2, "counter.enable = true\ncounter.buckets = 2\n")); client c(PORT, 0); c.send("get a\r\n"); killer(SIGS[w]); ended(); mc::visit_state(w);
    });
}
static mc::scenario slave(const string& name, int sb, int phase) {
    return sc(name, sb, [=] {
        mc::set_local_ip(VIP, false); mc::set_remote_listen(REPL, phase != 0);
        start_server(base_config(2, 2, string("virtual_ip = ") + VIP + "\ncounter.enable = true\ncounter.buckets = 2\n"));
        mc::client m; int w = mc::choose(3, "signal");
        if( phase == 0 ) { int t = mc::choose(8, "moment"); mc::sleep_ms(t * 700 + 100); mc::explore_schedules(true); killer(SIGS[w]); ended(); mc::visit_state(t); return; }   // no master to connect to
        if( ! mc::accept_connect(m, REPL, 10000) ) mc::fail("no connection to the master");
        string s; for( int i = 0; i < 3; ++i ) s += bin(bSetQ, string(1, 'a' + i), bset_extras(1, 0), string(50, 'v'));
        if( phase == 1 ) { mc::sleep_ms(2000); mc::explore_schedules(true); m.send(s); killer(SIGS[w]); }                                    // receiving
        if( phase == 2 ) { m.send(s.substr(0, 100)); mc::sleep_ms(1500); mc::explore_schedules(true); m.send(s.substr(100, 30)); killer(SIGS[w]); }      // in the middle of a command
        if( phase == 3 ) { m.send(s); mc::sleep_ms(1500); mc::set_remote_listen(REPL, false); m.close(); int t = mc::choose(8, "moment"); mc::sleep_ms(t * 800 + 50); mc::explore_schedules(true); killer(SIGS[w]); }   // the master is gone
        if( phase == 4 ) { m.send(s); mc::sleep_ms(1500); m.reset(); mc::explore_schedules(true); mc::set_local_ip(VIP, true); killer(SIGS[w]); }        // being promoted
        if( phase == 5 ) { m.set_window(2); m.send(s); mc::sleep_ms(6000); mc::explore_schedules(true); m.send(s); killer(SIGS[w]); }                // the master does not read the heartbeats
        ended(); mc::visit_state(phase);
    });
}
// several signals
static mc::scenario twice(const string& name, int sb) {
    return sc(name, sb, [=] {
        start_server(base_config(2, 1, "gc_interval = 1000\n")); clients c = conns(2); int w = mc::choose(4, "other signal"); mc::wait_idle(); static const int O[] = {SIGTERM, SIGUSR1, SIGHUP, SIGINT};
        mc::explore_schedules(true); c[0]->send("set a 0 0 1\r\nx\r\n"); mc::spawn("killer", [=]{ mc::raise_signal(O[w]); mc::raise_signal(SIGTERM); }); c[1]->send("get a\r\n"); ended(); mc::visit_state(w);
    });
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C16"; bool t = mc::thorough();
    c.rule = "a thread raises the termination signal at every scheduling point of scenarios with requests, blocked writers, collections, transfers to replicas, counters, endings, start up and replica mode; afterwards every schedule within the bound must lead to a successful exit within 20 virtual seconds";
    auto& S = c.scenarios; int two = 2;
    for( int p = 0; p < 5; ++p ) S.push_back(busy("busy-" + std::to_string(p), two, 1, p, false));
    for( int p = 0; p < 5; ++p ) S.push_back(busy("busy-two-workers-" + std::to_string(p), t ? 2 : 1, 2, p, false));
    S.push_back(busy("busy-collecting-0", t ? 2 : 1, 2, 0, true)); S.push_back(busy("busy-collecting-1", t ? 2 : 1, 2, 1, true));
    S.push_back(blocked("blocked-now", 1, 2, 1, false, false)); S.push_back(blocked("blocked-long", 2, 2, 1, false, true)); S.push_back(blocked("blocked-all-workers", 1, 2, 3, false, true)); S.push_back(blocked("blocked-many-workers", 1, 4, 2, false, false)); S.push_back(blocked("blocked-collecting", 1, 3, 1, true, false));
    S.push_back(leaving("leaving", 1, 2)); S.push_back(leaving("leaving-one-worker", t ? 2 : 1, 1));
    S.push_back(replica("replica-first-transfer", 2, 1, 0)); S.push_back(replica("replica-transfer-blocked", 2, 1, 1)); S.push_back(replica("replica-updates-blocked", 1, 2, 2)); S.push_back(replica("replica-lost", 2, 1, 3));
    S.push_back(counters("counters", 1)); S.push_back(startup("startup", t ? 2 : 1));
    for( int p = 0; p < 6; ++p ) S.push_back(slave("replica-mode-" + std::to_string(p), 2, p));
    S.push_back(twice("several-signals", t ? 2 : 1));
    return mc::main_(argc, argv, c);
}
