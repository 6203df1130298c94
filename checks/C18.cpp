// C18: threads share data only under synchronisation.  Every execution is
// watched by the happens-before monitor of the runtime.
#include "cref.hpp"
#include "repl.hpp"
#include "ends.hpp"
#include <cybozu/logger.hpp>
typedef std::uint64_t u64;
using namespace h;
static const char* VIP = "10.9.8.7";
static mc::scenario sc(const string& name, int sb, std::function<void()> body, double w = 1) { mc::scenario s; s.name = name; s.sched_bound = sb; s.weight = w; s.body = body; s.races = true; return s; }
static const string BIGV(5000, 'w');
static std::vector<string> commands() {
    std::vector<string> v = {"get k l\r\n", "gets k\r\n", "set k 0 0 1\r\nx\r\n", "set k 0 0 5000\r\n" + BIGV + "\r\n", "add m 0 0 1\r\nx\r\n", "replace k 0 0 1\r\ny\r\n", "append k 0 0 2\r\nab\r\n", "prepend k 0 0 2\r\nab\r\n", "cas k 0 0 1 1\r\nz\r\n",
        "incr l 1\r\n", "decr l 1 noreply\r\nget l\r\n", "touch k 100\r\n", "delete k\r\n", "lock k\r\nunlock k\r\n", "lock l\r\nset l 0 0 1\r\n3\r\nunlock_all\r\n", "flush_all\r\n", "flush_all 20\r\n", "stats\r\n", "stats items\r\n", "stats sizes\r\n", "stats settings\r\n", "stats ops\r\n", "keys\r\n", "keys k\r\n", "version\r\n", "verbosity 1\r\n", "bogus\r\n", "slabs x\r\n", "quit\r\n"};
    auto q = [](int op, string e, string k, string d, u64 cas = 0) { return bin(op, k, e, d, cas); };
    v.push_back(q(bGet, "", "k", "") + q(bGetQ, "", "l", "")); v.push_back(q(bGaT, be(100, 4), "k", "")); v.push_back(q(bLaG, "", "k", "") + q(bUnlock, "", "k", "")); v.push_back(q(bSet, be(0, 4) + be(0, 4), "k", "v")); v.push_back(q(bSetQ, be(0, 4) + be(9, 4), "k", "v", 1));
    v.push_back(q(bLock, "", "k", "") + q(bRaU, be(0, 4) + be(0, 4), "k", "u")); v.push_back(q(bIncr, be(1, 8) + be(5, 8) + be(0, 4), "l", "")); v.push_back(q(bDelete, "", "k", "")); v.push_back(q(bAppend, "", "k", "z")); v.push_back(q(bFlush, "", "", "")); v.push_back(q(bStat, "", "items", "")); v.push_back(q(bNoop, "", "", "")); v.push_back(q(bTouch, be(50, 4), "k", "")); v.push_back(q(bKeys, "", "", "")); v.push_back(q(bQuit, "", "", ""));
    return v;
}
// every pair of commands, with or without a collection or replicas
static mc::scenario pairs(const string& name, int sb, bool gc, int replicas, std::size_t stride, const string& extra = "", bool own = true) {
    return sc(name, sb, [=] {
        static const std::vector<string> C = commands();
        start_server(base_config(2, 1, (gc || replicas ? "gc_interval = 1\nslave_timeout = 1000\n" : "gc_interval = 1000\n") + extra)); client a(PORT, 0), b(PORT, 1); a.set("k", "v"); a.set("l", "5"); a.set("gone", "1", 0, 2); std::vector<std::unique_ptr<ref::replica>> r; for( int i = 0; i < replicas; ++i ) { r.emplace_back(new ref::replica); r.back()->join(); }
        std::size_t i = mc::choose((C.size() + stride - 1) / stride, "first") * stride, j = mc::choose(C.size() - i, "second") + i; if( stride > 1 && (j - i) % stride > 1 ) mc::stop_ok();
        if( gc || replicas ) mc::sleep_ms(5000); mc::wait_idle(); for( auto& x: r ) { x->heartbeat(); x->pull(); } mc::wait_idle();
        mc::explore_schedules(true); if( gc ) mc::advance_ms(2500);
        a.send(C[i]); b.send(C[j]); mc::wait_idle();
        mc::explore_schedules(false); for( auto& x: r ) x->pull(); mc::sleep_ms(2500); mc::visit_state(i * 100 + j); stop_server();
    }, 3);
}
// a connection whose requests arrive in pieces moves from worker to worker
static mc::scenario pieces(const string& name, int sb, bool cnt) {
    return sc(name, sb, [=] {
        start_server(base_config(2, 1, "gc_interval = 1000\ncounter.enable = true\ncounter.buckets = 1\n")); client a(cnt ? CNT : PORT, 0); mc::wait_idle();
        string all = cnt ? cref::cacq("s", 1, 9, 2) + cref::cacq("t", 1, 9, 2) + cref::crel("s", 1, 3) : bin(bLock, "k") + "set k 0 0 5\r\nabcde\r\nget k\r\nlock k\r\nunlock k\r\n"; if( ! cnt ) { all = "set k 0 0 5\r\nabcde\r\nlock k\r\nget k\r\nunlock k\r\n"; }
        std::size_t cut = mc::choose(all.size() - 1, "cut") + 1; mc::explore_schedules(true);
        a.send(all.substr(0, cut)); mc::block_until([&]{ return a.consumed(); }, "reading", 5000); a.send(all.substr(cut)); mc::wait_idle();
        mc::explore_schedules(false); string r = a.take(); if( cnt ? r.size() != 44 : r != "STORED\r\nOK\r\nVALUE k 0 5\r\nabcde\r\nEND\r\nOK\r\n" ) mc::fail("wrong replies: \"%s\"", quote(r).c_str()); mc::visit_state(cut); stop_server();
    });
}
// messages are logged by several threads while the log is reopened
static mc::scenario logging(const string& name, int sb) {
    return sc(name, sb, [=] {
        string path = mc::scratch() + "/log"; cybozu::logger::instance().open(path); start_server(base_config(2, 1, "gc_interval = 1\n")); client a(PORT, 0), b(PORT, 1); a.set("k", "v"); ref::replica r; r.join(); mc::sleep_ms(5000); mc::wait_idle(); int w = mc::choose(2, "signals") + 1; cybozu::logger::set_threshold(cybozu::severity::debug);
        ref::replica r2; r2.join(); mc::wait_idle(); mc::explore_schedules(true); mc::advance_ms(2500); if( w == 2 ) r.c.reset(); a.send("set k 0 0 1\r\nx\r\n"); mc::sleep_ms(20); b.send("set l 0 0 1\r\ny\r\n"); for( int i = 0; i < w; ++i ) mc::raise_signal(SIGHUP); mc::wait_idle();
        mc::explore_schedules(false); mc::sleep_ms(1500); mc::visit_state(w); stop_server(); cybozu::logger::instance().close();
    });
}
// connections end in every way while others are served
static mc::scenario ending(const string& name, int sb, bool gc, bool replica) {
    return sc(name, sb, [=] {
        start_server(base_config(2, 1, gc ? "gc_interval = 1\n" : "gc_interval = 1000\n")); client a(PORT, 0), b(PORT, 1); string v(500, 'v'); a.set("k", v); ref::replica r; if( replica ) r.join(); mc::wait_idle();
        int w = mc::choose(replica ? 3 : 10, "ending"), st = mc::choose(4, "state"); if( gc || replica ) mc::sleep_ms(5000);
        if( st == 2 ) b.send(bin(bLock, "k")); if( st == 3 ) b.set_window(60); mc::wait_idle();
        mc::explore_schedules(true); if( gc ) mc::advance_ms(2500);
        if( st == 1 ) b.send("get k\r\nset l 0 0 1\r\nx\r\n"); if( st == 3 ) b.send("get k\r\nget k\r\nget k\r\n");
        a.send("set k 0 0 1\r\nx\r\nget k\r\nkeys\r\n");
        if( replica ) { if( w == 0 ) r.c.reset(); if( w == 1 ) r.c.close(); if( w == 2 ) r.heartbeat(); } else end_connection(b, w);
        mc::yield(); client d(PORT, 2); d.send("get l\r\n"); mc::sleep_ms(3000);
        mc::explore_schedules(false); b.reset(); mc::sleep_ms(4000); mc::visit_state(w * 4 + st); stop_server();
    });
}
// more room needed than there is
static mc::scenario evicting(const string& name, int sb) {
    return sc(name, sb, [=] {
        start_server(base_config(2, 1, "gc_interval = 1000\nmemory_limit = 3000\n")); client a(PORT, 0), b(PORT, 1); for( int i = 0; i < 8; ++i ) a.set("k" + std::to_string(i), string(400, 'x')); int j = mc::choose(5, "request"); static const char* Q[] = {"get k0 k1\r\n", "set k9 0 0 1\r\nx\r\n", "delete k1\r\n", "keys\r\n", "stats\r\n"}; mc::wait_idle();
        mc::explore_schedules(true); mc::advance_ms(1500); a.send(Q[j]); b.send("set k3 0 0 3\r\nabc\r\nget k3\r\n"); mc::sleep_ms(1500); mc::explore_schedules(false); mc::sleep_ms(2000); mc::visit_state(j); stop_server();
    });
}
// the counter service
static mc::scenario counter(const string& name, int sb, bool gc) {
    return sc(name, sb, [=] {
        start_server(base_config(2, 1, "gc_interval = 1000\ncounter.enable = true\ncounter.buckets = 1\ncounter.stat_interval = 10\n"));
        cref::cclient a(0), b(1), c(2); a.acquire("s", 1, 9); b.acquire("s", 2, 9); c.acquire("t", 1, 9); c.close(); mc::wait_idle();
        std::vector<string> Q = {cref::cget("s", 1), cref::cacq("s", 1, 9, 2), cref::crel("s", 1, 3), cref::cget("t", 4) + cref::cacq("t", 1, 9, 2), cref::creq(0, "", 5), cref::creq(0x10, "", 6), cref::creq(0x11, "", 7)};
        std::size_t i = mc::choose(Q.size(), "first"), j = mc::choose(Q.size() + 3, "second"); if( gc ) mc::sleep_ms(9000);
        mc::explore_schedules(true); if( gc ) mc::advance_ms(2500);
        a.send(Q[i]); if( j < Q.size() ) b.send(Q[j]); else if( j == Q.size() ) b.reset(); else if( j == Q.size() + 1 ) b.shutdown(); else b.close();
        mc::wait_idle(); cref::cclient d(3); d.send(Q[0]); mc::wait_idle();
        mc::explore_schedules(false); mc::sleep_ms(12000); mc::visit_state(i * 16 + j); stop_server();
    });
}
// joining and leaving replicas during the first transfer, with updates
static mc::scenario joining(const string& name, int sb, int which) {
    return sc(name, sb, [=] {
        start_server(base_config(2, 2, "gc_interval = 1\nslave_timeout = 5\nrepl_buffer_size = 1\nmax_data_size = 4M\n")); client a(PORT, 0), b(PORT, 1); string big(900000, 'v'); a.set("a", which == 2 ? big : "1"); a.set("b", which == 2 ? big : "2"); mc::sleep_ms(3000); ref::replica r, q; q.join(); mc::sleep_ms(3000); q.heartbeat(); mc::wait_idle();
        int w = mc::choose(4, "event"); if( which == 0 ) mc::explore_schedules(true);
        r.join(); if( which == 2 ) r.c.set_window(500000); if( which ) { mc::wait_idle(); mc::explore_schedules(true); mc::advance_ms(2500); }
        a.send("set a 0 0 1\r\n9\r\ntouch b 50\r\n"); b.send("delete b\r\nkeys\r\nflush_all\r\n");
        if( w == 1 ) r.c.reset(); if( w == 2 ) q.c.reset(); if( w == 3 ) { r.c.close(); q.c.shutdown(); }
        mc::sleep_ms(1500); if( which == 2 ) r.c.set_window(1 << 24); mc::sleep_ms(4000); mc::explore_schedules(false); mc::sleep_ms(5000); mc::visit_state(w); stop_server();
    });
}
// a server in replica mode receives, is promoted and serves
static mc::scenario roles(const string& name, int sb) {
    return sc(name, sb, [=] {
        mc::set_local_ip(VIP, false); mc::set_remote_listen(REPL, true); start_server(base_config(2, 1, "gc_interval = 1\nvirtual_ip = " + string(VIP) + "\n")); client m; if( ! mc::accept_connect(m, REPL, 20000) ) mc::fail("the replica does not connect"); m.set_autoread(true);
        m.send(bin(bSetQ, "a", be(0, 4) + be(0, 4), "12") + bin(bSetQ, "b", be(0, 4) + be(0, 4), "34") + bin(bTouch, "a", be(0, 4)) + bin(bDeleteQ, "b")); mc::sleep_ms(2500);
        mc::set_local_ip(VIP, true); mc::explore_schedules(true); for( int i = 0; i < 30 && ! mc::listening(REPL); ++i ) mc::sleep_ms(500);
        client a(PORT, 0), b(PORT, 1); a.send("get a\r\nset a 0 0 1\r\n1\r\n"); b.send("keys\r\nget a\r\n"); mc::sleep_ms(1500); mc::explore_schedules(false);
        string g = a.recv_until("END\r\n"); if( g != "VALUE a 0 2\r\n12\r\nEND\r\n" ) mc::fail("wrong value after promotion: \"%s\"", quote(g).c_str()); mc::visit_state(1); stop_server();
    });
}
// shutdown in the middle of everything
static mc::scenario stopping(const string& name, int sb) {
    return sc(name, sb, [=] {
        start_server(base_config(2, 1, "gc_interval = 1\ncounter.enable = true\ncounter.buckets = 1\n")); client a(PORT, 0), b(PORT, 1); cref::cclient c(2); a.set("k", string(300, 'v')); ref::replica r; r.join(); int w = mc::choose(3, "state"); mc::sleep_ms(5000); mc::wait_idle();
        mc::explore_schedules(true); if( w ) mc::advance_ms(2500); if( w == 2 ) { b.set_window(50); b.send("get k k k\r\n"); }
        a.send("set k 0 0 1\r\nx\r\ndelete k\r\n"); c.send(cref::cacq("s", 1, 2, 1)); mc::spawn("killer", []{ mc::raise_signal(SIGTERM); });
        mc::block_until([]{ return srv().done; }, "termination", 20000); mc::join_all(); mc::visit_state(w);
    });
}
int main(int argc, char** argv) {
    bool t = mc::thorough();
    mc::check c; c.property = "C18"; c.rule = "every pair of conflicting accesses by different threads is ordered by happens-before"; 
    c.assumptions.push_back("two workers, one or two buckets, the real event loop, workers and collector; every plain access of the compiled repository code is reported to a vector-clock monitor");
    auto& S = c.scenarios;
    S.push_back(pairs("pairs", t ? 1 : 0, false, 0, 1)); S.push_back(pairs("pairs-collecting", t ? 1 : 0, true, 0, 1)); S.push_back(pairs("pairs-replica", t ? 1 : 0, false, 1, 1)); S.push_back(pairs("pairs-deep", 1, false, 0, t ? 2 : 5)); S.push_back(pairs("pairs-deep-collecting", 1, true, 1, t ? 3 : 7));
    S.push_back(pieces("pieces", 1, false)); S.push_back(pieces("pieces-counter", 1, true)); S.push_back(logging("logging", t ? 2 : 1)); S.push_back(ending("ending", 1, false, false)); S.push_back(ending("ending-collecting", 1, true, false)); S.push_back(ending("ending-replica", 1, true, true)); S.push_back(evicting("evicting", 1));
    S.push_back(counter("counter", 1, false)); S.push_back(counter("counter-collecting", 1, true));
    S.push_back(joining("replica-joining", 1, 0)); S.push_back(joining("replica-first-transfer", 1, 1)); S.push_back(joining("replica-blocked", 1, 2)); S.push_back(roles("promotion", 1)); S.push_back(stopping("stopping", 1));
    return mc::main_(argc, argv, c);
}
