// C17: closed connections are reclaimed once, after their last use.
// The runtime watches every memory access and descriptor operation; the
// checks here add that everything is given back in the end.
#include "cref.hpp"
#include "ends.hpp"
#include "repl.hpp"
#include <cerrno>
using namespace h; typedef std::uint64_t u64;
typedef std::unique_ptr<client> cptr;
static int statn(client& o, const string& name) {
    o.put("stats\r\n"); string s = o.recv_until("END\r\n"); o.take(); std::size_t p = s.find("STAT " + name + " "); if( p == string::npos ) mc::fail("no %s in the statistics", name.c_str());
    return atoi(s.c_str() + p + name.size() + 6);
}
// waits until only `fds` descriptors are open and the server counts `conns` connections
static void settled(client& o, int fds, int conns, const char* what, unsigned ms = 20000) {
    for( unsigned t = 0; mc::open_vfds() != fds; t += 500 ) { if( t > ms ) mc::fail("%s: %d descriptors are open after %u ms, %d expected", what, mc::open_vfds(), ms, fds); mc::sleep_ms(500); }
    int n = 0; for( unsigned t = 0; (n = statn(o, "curr_connections")) != conns; t += 500 ) { if( t > ms ) mc::fail("%s: the server counts %d connections after %u ms, %d expected", what, n, ms, conns); mc::sleep_ms(500); }
}
// the last word of the peer for endings which leave the descriptor open
static void final_reset(client& c, int w) { if( ! end_closes(w) ) { mc::sleep_ms(20); c.reset(); } }
// a memcache connection ends in way w in state st, another one takes its place
enum { IDLE, PARTIAL, BUSY, BLOCKED, LOCKED, PENDING, N_STATES };
static mc::scenario conn(const string& name, int sb, int workers, std::vector<int> states, std::vector<int> ends, bool gc = false, bool quiet_first = false, int ticks = 0) {
    mc::scenario s; s.name = name; s.sched_bound = sb; s.weight = ends.size();
    s.body = [=] {
        start_server(base_config(workers, 1, gc ? "gc_interval = 1\n" : "gc_interval = 1000\n")); client o(PORT, 90), a(PORT, 0); string v(500, 'v'); o.set("k", v); o.set("l", "5"); client b(PORT, 1); mc::wait_idle(); int fds = mc::open_vfds();
        int st = states[mc::choose(states.size(), "state")], w = ends[mc::choose(ends.size(), "ending")];
        if( st == LOCKED || st == PENDING ) { a.send(bin(bLock, "k") + bin(bLockQ, "l")); a.recv(24); if( st == PENDING ) a.set_window(60); }
        if( gc ) mc::sleep_ms(5000); else mc::wait_idle();
        if( ! quiet_first ) mc::explore_schedules(true);
        if( gc ) mc::advance_ms(2500);
        if( st == BLOCKED ) a.set_window(60);
        if( st == PARTIAL ) a.send("set k 0 0 5\r\nab"); if( st == BUSY ) a.send("get k\r\nget l\r\nincr l 1\r\n"); if( st == BLOCKED || st == PENDING ) a.send("get k\r\nget k l\r\n"); if( st == LOCKED ) a.send("get k\r\n");
        if( quiet_first ) { mc::wait_idle(); mc::explore_schedules(true); }
        end_connection(a, w); for( int k = 0; k < ticks; ++k ) { mc::advance_ms(1500); mc::yield(); }
        b.send("get l\r\n"); client d(PORT, 2); d.send("get l\r\nget nokey\r\n");
        b.recv_until("END\r\n"); string r = d.recv_until("END\r\n") + d.recv_until("END\r\n");
        if( r.compare(0, 10, "VALUE l 0 ") || d.avail() ) mc::fail("a new connection received \"%s\"", quote(r + d.take()).c_str());
        if( (st == PARTIAL && w < 3) || ((st == BLOCKED || st == PENDING) && (w < 3 || w == 7)) ) { mc::sleep_ms(20); a.reset(); }
        final_reset(a, w); mc::explore_schedules(false);
        settled(o, fds, 3, end_name(w)); for( int k = 0; o.cmd("set k 0 0 1\r\nx\r\n") != "STORED\r\n"; ++k ) { if( k == 10 ) mc::fail("the lock outlived its connection"); mc::sleep_ms(1000); }
        b.reset(); d.reset(); settled(o, fds - 2, 1, "at the end"); mc::visit_state(st * 16 + w); stop_server();
    };
    return s;
}
// a connection ends while a worker that serves it waits for the bucket which another one holds
static mc::scenario waiting(const string& name, int sb, int workers, bool replica) {
    mc::scenario s; s.name = name; s.sched_bound = sb;
    s.body = [=] {
        start_server(base_config(workers, 1, "gc_interval = 1000\nslave_timeout = 100\n")); client o(PORT, 90), a(PORT, 0), b(PORT, 1), x(PORT, 2); o.set("k", string(500, 'v')); mc::wait_idle(); int fds = mc::open_vfds(); ref::replica r; if( replica ) { r.join(); mc::sleep_ms(4000); }
        int p = mc::choose(4, "request"), w = mc::choose(4, "ending"); static const int W[] = {5, 6, 8, 9}; static const char* Q[] = {"get k\r\n", "set k 0 0 1\r\nx\r\nget l\r\n", "delete k\r\nset m 0 0 2\r\nab\r\n", "keys\r\nquit\r\n"};
        b.set_window(519); b.send("get k\r\nget k l\r\n"); mc::wait_idle(); /* sends the second value with the bucket locked */ mc::explore_schedules(true);
        a.send(Q[p]); if( replica ) { mc::sleep_ms(1); r.c.reset(); } else { mc::sleep_ms(1); end_connection(a, W[w]); }
        x.send("get zz\r\n"); for( int k = 0; k < 3; ++k ) { mc::sleep_ms(1700); client d(PORT, 3 + k); d.reset(); }
        b.set_window(1 << 20); x.recv_until("END\r\n"); b.recv_until("END\r\n"); b.recv_until("END\r\n"); mc::explore_schedules(false);
        { bool gone = ! replica || p == 3; settled(o, gone ? fds - 1 : fds, gone ? 3 : 4, replica ? "replica" : end_name(W[w])); } mc::visit_state(p * 4 + w); stop_server();
    };
    return s;
}
// several connections end at once
static mc::scenario together(const string& name, int sb, int workers) {
    mc::scenario s; s.name = name; s.sched_bound = sb;
    s.body = [=] {
        start_server(base_config(workers, 1, "gc_interval = 1000\n")); client o(PORT, 90); o.set("k", string(500, 'v')); mc::wait_idle(); int fds = mc::open_vfds(); client a(PORT, 0), b(PORT, 1), c(PORT, 2); mc::wait_idle();
        int wa = mc::choose(4, "a"), wb = mc::choose(4, "b"); static const int W[] = {0, 5, 8, 2}; a.set_window(50);
        mc::explore_schedules(true); a.send("get k\r\n"); b.send("get k\r\n"); end_connection(a, W[wa]); end_connection(b, W[wb]); c.send("get k\r\n"); mc::yield(); c.reset();
        if( W[wa] < 3 ) { mc::sleep_ms(20); a.reset(); }
        mc::explore_schedules(false); settled(o, fds, 1, "three endings"); mc::visit_state(wa * 4 + wb); stop_server();
    };
    return s;
}
static mc::scenario counter(const string& name, int sb, int workers, bool gc) {
    mc::scenario s; s.name = name; s.sched_bound = sb;
    s.body = [=] {
        start_server(base_config(workers, 1, "counter.enable = true\ncounter.buckets = 1\ncounter.stat_interval = 10\ngc_interval = 1000\n")); mc::block_until([]{ return mc::listening(CNT); }, "counter port");
        client o(PORT, 90); cref::cclient a(5), b(6); b.acquire("y", 1, 9); mc::wait_idle(); int fds = mc::open_vfds(); int st = mc::choose(4, "state"), w = mc::choose(4, "ending"); static const int W[] = {3, 4, 5, 6};
        a.acquire("x", 2, 9); a.acquire("y", 2, 9); if( st == 1 ) a.set_window(5); long now = mc::now_sec(); if( gc ) mc::sleep_ms((10 - now % 10) * 1000 + 8200); mc::wait_idle();
        mc::explore_schedules(true); if( gc ) mc::advance_ms(2500);
        if( st == 0 ) a.send(cref::cacq("x", 3, 9, 3)); if( st == 1 ) a.send(cref::creq(cref::cDump, "", 1)); if( st == 2 ) a.send(cref::crel("x", 1, 1)); if( st == 3 ) a.send(cref::cacq("x", 3, 9, 3).substr(0, 15));
        end_connection(*(client*)&a, W[w]); b.send(cref::cget("y", 4)); cref::cclient d(7); if( W[w] < 5 ) { mc::sleep_ms(20); a.reset(); }
        b.response(); d.acquire("z", 1, 1);
        mc::explore_schedules(false); settled(o, fds, 1, end_name(W[w]));
        mc::sleep_ms(4000); auto g = b.getc("y"); if( g.status || rd(g.body, 0, 4) != 1 ) mc::fail("the consumption of y is not the remaining connection's"); mc::visit_state(st * 16 + w); stop_server();
    };
    return s;
}
// a replica link ends; phase: how far it got
static mc::scenario link(const string& name, int sb, int workers, int phase, std::vector<int> ends, int program = 0) {
    mc::scenario s; s.name = name; s.sched_bound = sb; s.weight = ends.size();
    s.body = [=] {
        start_server(base_config(workers, 2, "gc_interval = 1\nrepl_buffer_size = 1\nslave_timeout = 6\nmax_data_size = 4M\n")); string big(900000, 'v');
        client o(PORT, 90), a(PORT, 0); o.set("a", phase == 2 || phase == 4 ? big : "1"); o.set("b", phase == 2 || phase == 4 ? big : "2"); if( phase == 2 || phase == 4 ) o.set("c", big); mc::sleep_ms(3000); mc::wait_idle(); int fds = mc::open_vfds();
        int w = ends[mc::choose(ends.size(), "ending")]; ref::replica r, r2;
        if( phase == 0 ) { mc::explore_schedules(true); r.join(); }                                                 // as it joins
        if( phase == 1 ) { r.join(); mc::wait_idle(); mc::explore_schedules(true); mc::advance_ms(2500); }          // as the first transfer starts
        if( phase == 2 ) { r.join(); r.c.set_window(1000); mc::sleep_ms(2800); mc::explore_schedules(true); }       // while the collector waits for it
        if( phase == 3 ) { r.join(); mc::sleep_ms(5000); r.heartbeat(); mc::wait_idle(); mc::explore_schedules(true); }   // in steady state
        if( phase == 4 ) { r.join(); mc::sleep_ms(5000); r.heartbeat(); r.c.set_window(1000); mc::wait_idle(); a.send("set x 0 0 900000\r\n" + big + "\r\n"); mc::wait_idle(); mc::explore_schedules(true); a.send("set y 0 0 900000\r\n" + big + "\r\n"); }   // with a full buffer
        if( phase == 5 ) { r.join(); r2.join(); mc::sleep_ms(5000); r.heartbeat(); r2.heartbeat(); mc::wait_idle(); mc::explore_schedules(true); mc::advance_ms(2500); }   // two of them, and a collection
        switch( w ) { case 0: r.c.reset(); break; case 1: r.c.close(); break; case 2: r.c.shutdown(); break; case 3: r.c.reset(ETIMEDOUT); break; case 4: break; /* silence */ case 5: r.heartbeat(); r.c.reset(); break; }
        if( phase != 4 ) a.send(program ? "delete a\r\nflush_all\r\n" : "set a 0 0 1\r\n3\r\n");
        a.recv_until("\r\n", 30000); ref::replica r3; if( phase != 5 ) r3.join();
        if( w == 1 || w == 2 ) { mc::sleep_ms(20); r.c.reset(); }
        if( w == 4 ) { for( int k = 0; k < 10; ++k ) { mc::sleep_ms(1000); if( phase != 5 ) r3.heartbeat(); } }
        mc::explore_schedules(false); if( w == 4 && phase == 5 ) r2.c.reset();
        for( int k = 0; k < 6; ++k ) { if( phase != 5 ) r3.heartbeat(); else if( w != 4 ) r2.heartbeat(); mc::sleep_ms(1000); }
        int left = phase == 5 && w == 4 ? 0 : 1;
        if( mc::open_vfds() != fds + left ) mc::fail("%d descriptors are open instead of %d after the replica link ended", mc::open_vfds(), fds + left);
        if( a.avail() ) a.take(); if( o.set("z", "1") != "STORED\r\n" ) mc::fail("set");
        if( left ) { ref::replica& q = phase == 5 ? r2 : r3; mc::sleep_ms(1000); q.pull(); if( ! q.m.count("z") ) mc::fail("the other replica misses an update"); q.c.reset(); }
        mc::sleep_ms(6000); if( mc::open_vfds() != fds ) mc::fail("%d descriptors are open instead of %d at the end", mc::open_vfds(), fds);
        mc::visit_state(phase * 16 + w); stop_server();
    };
    return s;
}
// more replicas join than are handled at once; they leave before their first transfer
static mc::scenario crowd(const string& name, int sb) {
    mc::scenario s; s.name = name; s.sched_bound = sb;
    s.body = [=] {
        start_server(base_config(2, 2, "gc_interval = 30\nslave_timeout = 20\n")); client o(PORT, 90); for( auto k: {"a", "b", "c"} ) o.set(k, string(300, 'v')); mc::sleep_ms(35000); int fds = mc::open_vfds(), w = mc::choose(4, "ending"), n = 3 + mc::choose(3, "replicas");
        { std::vector<std::unique_ptr<ref::replica>> v; for( int i = 0; i < n; ++i ) { v.emplace_back(new ref::replica); if( i == n - 1 ) mc::explore_schedules(true); v.back()->join(); mc::sleep_ms(2500); }
          for( int i = n; i-- > 0; ) { if( w == 3 && i == n - 1 ) continue; if( w == 2 ) v[i]->c.shutdown(); else if( w == 1 ) v[i]->c.close(); else v[i]->c.reset(); }
          o.set("d", "1"); mc::explore_schedules(false); for( int k = 0; k < 5; ++k ) { if( w == 3 ) v[n - 1]->heartbeat(); mc::sleep_ms(1000); }
          for( int i = 0; i < n; ++i ) if( w == 1 || w == 2 ) v[i]->c.reset();
          // they are all gone; others take their place, and get everything
          ref::replica x; if( w != 3 ) x.join(); for( int k = 0; k < 50; ++k ) { if( w == 3 ) v[n - 1]->heartbeat(); else x.heartbeat(); mc::sleep_ms(1000); }
          ref::replica& r = w == 3 ? *v[n - 1] : x; o.set("e", "1"); mc::sleep_ms(500); r.pull(); for( auto k: {"a", "b", "c", "d", "e"} ) if( ! r.m.count(k) ) mc::fail("the replica which stays misses %s", k);
          if( mc::open_vfds() != fds + 1 ) mc::fail("%d descriptors are open instead of %d", mc::open_vfds(), fds + 1); r.c.reset(); }
        settled(o, fds, 1, "at the end"); mc::visit_state(w * 8 + n); stop_server();
    };
    return s;
}
// a server in replica mode loses its master again and again
static const char* VIP = "10.9.8.7";
static mc::scenario slave(const string& name, int sb) {
    mc::scenario s; s.name = name; s.sched_bound = sb;
    s.body = [=] {
        mc::set_local_ip(VIP, false); mc::set_remote_listen(REPL, true); start_server(base_config(2, 2, string("virtual_ip = ") + VIP + "\ncounter.enable = true\ncounter.buckets = 2\n")); int base = -1;
        for( int k = 0; k < 3; ++k ) {
            mc::client m; if( ! mc::accept_connect(m, REPL, 20000) ) mc::fail("the replica does not connect again"); mc::sleep_ms(1500);
            if( base == -1 ) base = mc::open_vfds(); else if( mc::open_vfds() != base ) mc::fail("connection %d to the master: %d open descriptors instead of %d", k, mc::open_vfds(), base);
            int w = mc::choose(3, "ending"); if( k == 1 ) mc::explore_schedules(true);
            m.send(bin(bSetQ, "a", bset_extras(1, 0), "v"));
            if( w == 0 ) m.reset(); if( w == 1 ) m.close(); if( w == 2 ) m.shutdown();
            mc::sleep_ms(1500); mc::explore_schedules(false);
            if( w == 2 ) m.reset();
            mc::visit_state(k * 4 + w);
        }
        mc::client m; if( ! mc::accept_connect(m, REPL, 20000) ) mc::fail("the replica does not connect again"); mc::sleep_ms(1500);
        if( mc::open_vfds() != base ) mc::fail("%d open descriptors instead of %d", mc::open_vfds(), base);
        mc::set_local_ip(VIP, true); mc::block_until([]{ return mc::listening(REPL); }, "promotion", 30000); { client c(PORT, 1); c.get("a"); } stop_server();
    };
    return s;
}
// histories of comings and goings; the same history is repeated and must not accumulate anything
static mc::chunked cycles(const string& name, int depth) {
    mc::chunked c; c.name = name; const u64 N = 12; c.count = ref::power(N, depth); c.chunk = 1;
    c.body = [=](u64 from, u64 to) {
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); start_server(base_config(2, 2, "gc_interval = 1\nrepl_buffer_size = 1\nslave_timeout = 3\ncounter.enable = true\ncounter.buckets = 2\ncounter.stat_interval = 10\nheap_data_limit = 4096\n")); mc::block_until([]{ return mc::listening(CNT); }, "counter port");
            client o(PORT, 90); o.set("k", string(300, 'v')); mc::sleep_ms(3000); int fds = mc::open_vfds(), files = mc::open_tmpfiles(); std::size_t blocks[6] = {};
            for( int round = 0; round < 6; ++round ) {
                std::vector<std::unique_ptr<mc::client>> keep;
                for( int op: ref::digits(i, N, depth) ) {
                    cptr a(new client(op == 9 ? REPL : op == 10 ? CNT : PORT, 1)); mc::note("cycle op %d", op);
                    switch( op ) {
                    case 0: a->get("k"); a->send("quit\r\n"); break;
                    case 1: a->set_window(20); a->send("get k\r\n"); mc::wait_idle(); a->reset(); break;
                    case 2: a->send("set big 0 0 9000\r\n" + string(9000, 'x') + "\r\n"); a->line(); a->reset(); break;
                    case 3: a->send(bin(bLock, "k")); a->recv(24); a->send(bin(bQuit, "")); break;
                    case 4: a->send("set h 0 0 10\r\nhalf"); a->shutdown(); mc::wait_idle(); a->reset(); break;
                    case 5: a->send("delete big\r\nset e 0 1 1\r\nx\r\n"); a->line(); a->line(); a->close(); mc::sleep_ms(50); a->reset(); break;
                    case 6: a->send("keys\r\n"); mc::wait_idle(); a->reset(ETIMEDOUT); break;
                    case 7: a->send("set n 0 0 1\r\n1\r\nincr n 1\r\ntouch n 1\r\n"); mc::wait_idle(); a->send("quit\r\n"); break;
                    case 8: mc::sleep_ms(1200); a->reset(); break;
                    case 9: mc::sleep_ms(3500); a->take(); break;                        // silent: dropped by the server
                    case 10: a->send(cref::cacq("x", 1, 9, 1)); a->recv(16); a->reset(); break;
                    case 11: a->send("flush_all\r\n"); a->line(); a->reset(); mc::sleep_ms(2500); o.set("k", string(300, 'v')); break;
                    }
                    keep.emplace_back(std::move(a));
                }
                mc::sleep_ms(7000); settled(o, fds, 1, "after a cycle", 5000);
                o.set("k", string(300, 'v')); o.cmd("delete big\r\n"); o.cmd("delete n\r\n"); o.cmd("delete e\r\n"); mc::sleep_ms(21000 - mc::now_ms() % 20000); mc::sleep_ms(8000);
                if( mc::open_vfds() != fds || mc::open_tmpfiles() != files ) mc::fail("%d descriptors and %d files are open instead of %d and %d", mc::open_vfds(), mc::open_tmpfiles(), fds, files);
                keep.clear(); std::size_t n = 0; mc::heap_walk([&](const void*, std::size_t, bool live) { n += live; }); blocks[round] = n; if( getenv("HIST") ) { std::map<std::size_t,int> hh; mc::heap_walk([&](const void*, std::size_t z, bool live) { if( live ) ++hh[z]; }); for( auto& q: hh ) fprintf(stderr, "%d: %zu x%d\n", round, q.first, q.second); }
            }
            if( blocks[5] >= blocks[1] + 4 ) mc::fail("memory is not given back: %zu blocks are in use after 2 rounds, %zu %zu %zu and %zu after the following ones", blocks[1], blocks[2], blocks[3], blocks[4], blocks[5]);
            mc::visit_state(mc::mix(i, blocks[5])); stop_server();
        }
    };
    return c;
}
// peers which end without a reset: the kernel's keepalive probes tell the server, which must then clean up
static mc::chunked silent(const string& name) {
    mc::chunked c; c.name = name; c.count = 3 * 3 * 4 * 2; c.chunk = 1;
    c.body = [=](u64 from, u64 to) {
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); int kind = i % 3, end = i / 3 % 3, st = i / 9 % 4; bool live = i / 36;     // live: another client of the same kind stays silent, but is there
            mc::set_keepalive(true); start_server(base_config(2, 2, "gc_interval = 600\nslave_timeout = 100000\ncounter.enable = true\ncounter.buckets = 2\ncounter.stat_interval = 600\n")); mc::block_until([]{ return mc::listening(CNT); }, "counter port");
            client o(PORT, 90); cref::cclient oc(91); string big(3000, 'v'); o.set("k", big); o.set("l", "5"); mc::sleep_ms(3000);
            int port = kind == 0 ? PORT : kind == 1 ? CNT : REPL; mc::client other; if( live ) { other.connect(port); mc::sleep_ms(3000); }
            mc::wait_idle(); int fds = mc::open_vfds();
            { client a(port, 1); mc::sleep_ms(3000);
              if( kind == 0 ) { if( st == 1 ) { a.send(bin(bLock, "k")); a.recv(24); } if( st == 2 ) { a.send("set k 0 0 10\r\nab"); mc::wait_idle(); } if( st == 3 ) { a.send("lock k\r\n"); a.line(); a.send("set l 0 0 10\r\nab"); mc::wait_idle(); } }
              if( kind == 1 ) { if( st & 1 ) { a.send(cref::cacq("x", 2, 3, 1)); a.recv(12); } if( st & 2 ) { a.send(cref::cacq("x", 2, 3, 1).substr(0, 15)); mc::wait_idle(); } }
              if( kind == 2 ) { if( st & 1 ) { a.send(string(24, '\x81').substr(0, 7)); mc::wait_idle(); } if( st & 2 ) { o.set("l", "6"); mc::wait_idle(); } a.take(); }
              if( end == 2 ) { a.shutdown(); mc::sleep_ms(5000); } if( end == 0 ) a.close(); else a.vanish();
              // a live client which says nothing is not affected by the probes; 20 minutes are enough for them
              for( unsigned t = 0; mc::open_vfds() != fds; t += 10000 ) { if( t > 1200000 ) mc::fail("%d descriptors are open instead of %d, 20 minutes after a %s connection ended", mc::open_vfds(), fds, kind == 0 ? "memcache" : kind == 1 ? "counter" : "replica"); mc::sleep_ms(10000); }
              if( ! a.fd_released() ) mc::fail("another connection was closed"); }
            settled(o, fds, live && kind == 0 ? 2 : 1, "silent");
            if( o.cmd("set k 0 0 1\r\nx\r\n") != "STORED\r\n" || o.cmd("set l 0 0 1\r\nx\r\n") != "STORED\r\n" ) mc::fail("the lock outlived its connection");
            { auto g = oc.getc("x"); u64 used = ! g.status ? rd(g.body, 0, 4) : 0; if( used ) mc::fail("%u resources outlived their connection", (unsigned)used); }
            if( live ) { if( other.server_closed() ) mc::fail("a silent connection whose peer is there was closed"); if( kind == 0 ) { other.send("get k\r\n"); other.recv_until("END\r\n"); } if( kind == 1 ) { other.send(cref::cget("x", 1)); other.recv(12); } if( kind == 2 ) { other.take(); o.set("z", "1"); mc::sleep_ms(500); if( other.take().find('z') == string::npos ) mc::fail("the replica link is dead"); } }
            mc::visit_state(i); stop_server();
        }
    };
    return c;
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C17"; bool t = mc::thorough();
    c.rule = "every way to end a connection, counter connection or replica link in every state of it, under all schedules within the preemption bound with accesses to released memory and descriptors monitored; afterwards descriptors and connection counts return to their initial values. Histories of connections coming and going, repeated, must not accumulate memory";
    std::vector<int> all, few = {0, 2, 5, 6, 8}, rst = {0, 5}; for( int i = 0; i < N_ENDS; ++i ) all.push_back(i);
    auto& S = c.scenarios;
    S.push_back(conn("idle", 1, 2, {IDLE, PARTIAL}, all)); S.push_back(conn("busy", 1, 2, {BUSY, LOCKED}, few)); S.push_back(conn("blocked", 1, 2, {BLOCKED, PENDING}, few)); S.push_back(conn("blocked-long", 2, 2, {BLOCKED}, {5, 9}, false, true)); S.push_back(conn("blocked-one-worker", 1, 1, {BLOCKED, PENDING}, {5, 6}));
    S.push_back(conn("busy-collecting", 1, 2, {BUSY, BLOCKED}, rst, true)); S.push_back(conn("deep", 2, 1, {BUSY}, rst)); S.push_back(conn("ticking", 1, 2, {BUSY, BLOCKED}, {0, 5, 8}, false, false, 3)); S.push_back(conn("ticking-one-worker", t ? 2 : 1, 1, {BUSY, LOCKED}, {5}, false, false, 3));
    S.push_back(waiting("waiting", 1, 3, false)); S.push_back(waiting("waiting-replica", 1, 3, true)); S.push_back(together("together", 1, 2));
    S.push_back(counter("counter", 1, 2, false)); S.push_back(counter("counter-collecting", 1, 2, true));
    std::vector<int> le = {0, 1, 2, 3, 5}, le2 = {0, 1}, sil = {4, 0};
    S.push_back(link("replica-joining", 1, 2, 0, le)); S.push_back(link("replica-first-transfer", 1, 2, 1, le)); S.push_back(link("replica-transfer-blocked", t ? 2 : 1, 2, 2, {0, 1, 3, 4})); S.push_back(link("replica-steady", 1, 2, 3, le, 1)); S.push_back(link("replica-full", 1, 2, 4, {0, 3, 4})); S.push_back(link("replica-two", 1, 2, 5, sil));
    S.push_back(link("replica-joining-deep", 2, 1, 0, {0})); S.push_back(link("replica-first-transfer-deep", 2, 1, 1, {0}));
    S.push_back(crowd("replicas-many", 1)); S.push_back(slave("replica-mode", 1));
    c.sequences.push_back(silent("silent-ends")); c.sequences.push_back(cycles("cycles", t ? 3 : 2));
    return mc::main_(argc, argv, c);
}
