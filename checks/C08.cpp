// C08: a connection's locks end with the connection, and only then.
#include "lin.hpp"
#include "ends.hpp"
using namespace ref;

static string T1(client& c, const string& cmd) { string r = c.cmd(cmd); return r; }
static bool free_now(client& c, const string& key) {
    string r = T1(c, "lock " + key + "\r\n");
    if( r == "OK\r\n" ) { if( T1(c, "unlock " + key + "\r\n") != "OK\r\n" ) mc::fail("the holder cannot unlock %s", key.c_str()); return true; }
    if( r != "LOCKED\r\n" ) mc::fail("lock %s answered \"%s\"", key.c_str(), quote(r).c_str());
    return false;
}
static void must(const string& got, const string& want, const char* what) { if( got != want ) mc::fail("%s: got \"%s\", expected \"%s\"", what, quote(got).c_str(), quote(want).c_str()); }
static void refused(client& n, const string& key, const char* who) {
    must(T1(n, "lock " + key + "\r\n"), "LOCKED\r\n", who);
    string r = T1(n, "unlock " + key + "\r\n"); if( r.find("ERROR") == string::npos ) mc::fail("%s: unlock of a lock held by another connection answered \"%s\"", who, quote(r).c_str());
    must(n.set(key, "x"), "LOCKED\r\n", who);
    must(T1(n, "delete " + key + "\r\n"), "LOCKED\r\n", who);
}
static void acquire(client& c, const string& key, bool bin) {
    if( ! bin ) { must(T1(c, "lock " + key + "\r\n"), "OK\r\n", "lock"); return; }
    c.send(h::bin(bLaG, key)); mc::wait_idle(); string r = c.take(); bresp b; if( ! parse_bin(r, b) || b.status != 0 ) mc::fail("LaG failed");
}

// The holder of a, b (and c, requested last) ends in every way while another
// connection takes over and a third one reuses the descriptor.
static mc::scenario takeover(const string& name, int bound, int workers, std::vector<int> ways, bool gc) {
    mc::scenario s; s.name = name; s.sched_bound = bound; s.weight = 3;
    s.body = [=] {
        start_server(base_config(workers, 1, gc ? "gc_interval = 1\n" : "gc_interval = 1000\n"));
        client o(PORT, 1), obs(PORT, 9);
        for( auto k: {"a", "b", "c"} ) obs.set(k, "1");
        client hh(PORT, 0); acquire(hh, "a", false); acquire(hh, "b", true); mc::wait_idle();
        int w = ways[mc::choose(ways.size(), "ending")];
        int inflight = mc::choose(3, "request in flight");
        if( gc ) mc::sleep_ms(5000);
        must(T1(o, "lock a\r\n"), "LOCKED\r\n", "the holder is still connected");
        int hfd = hh.server_fd();
        mc::explore_schedules(true);
        if( gc ) mc::advance_ms(2500);
        if( inflight == 1 ) hh.send("lock c\r\n");
        if( inflight == 2 ) hh.send("unlock_all\r\nlock c\r\nlock b\r\nset c 0 0 1\r\n2\r\n");
        end_connection(hh, w);
        o.send("lock a\r\n");
        client n(PORT, 2);               // may reuse the descriptor
        n.send("lock b\r\nunlock a\r\n");
        mc::wait_idle_for(100);
        string ro = o.take(), rn = n.take();
        mc::note("o: %s n: %s (fd %d was %d)", quote(ro).c_str(), quote(rn).c_str(), n.server_fd(), hfd);
        mc::wait_idle_for(4500);         // everything about the holder is gone
        mc::explore_schedules(false);
        bool ohas = ro == "OK\r\n", nhas = rn.compare(0, 4, "OK\r\n") == 0;
        if( ! ohas && ro != "LOCKED\r\n" ) mc::fail("lock a answered \"%s\"", quote(ro).c_str());
        if( ! nhas && rn.compare(0, 8, "LOCKED\r\n") != 0 ) mc::fail("lock b answered \"%s\"", quote(rn).c_str());
        if( rn.substr(nhas ? 4 : 8).find("ERROR") == string::npos ) mc::fail("a new connection released the lock of another one: unlock answered \"%s\"", quote(rn).c_str());
        client m(PORT, 3);
        if( ohas ) { refused(obs, "a", "observer"); refused(m, "a", "new connection"); refused(n, "a", "second new connection"); must(o.set("a", "3"), "STORED\r\n", "set by the holder"); must(T1(o, "unlock a\r\n"), "OK\r\n", "unlock by the holder"); }
        if( nhas ) { refused(obs, "b", "observer"); refused(m, "b", "new connection"); must(T1(n, "unlock b\r\n"), "OK\r\n", "unlock by the holder"); }
        for( auto k: {"a", "b", "c"} ) if( ! free_now(obs, k) ) mc::fail("%s is still locked 4 s after its holder ended (%s)", k, end_name(w));
        if( ! free_now(m, "a") ) mc::fail("a is still locked");
        stop_server();
    };
    return s;
}
// Other connections come and go in every way; the lock stays.
static mc::scenario innocent(const string& name, int bound, int workers) {
    mc::scenario s; s.name = name; s.sched_bound = bound; s.weight = 3;
    s.body = [=] {
        start_server(base_config(workers, 1, "gc_interval = 1000\n"));
        client obs(PORT, 9); obs.set("a", "1"); obs.set("b", "1"); obs.set("c", "1");
        client x(PORT, 0); acquire(x, "c", false);
        client hh(PORT, 1); acquire(hh, "a", mc::choose(2, "protocol"));
        int w = mc::choose(N_ENDS, "ending");
        mc::explore_schedules(true);
        x.send("lock a\r\n");
        end_connection(x, w);
        client n(PORT, 2); n.send("unlock a\r\nlock a\r\n");
        hh.send("lock b\r\n");
        mc::wait_idle_for(100);
        string rn = n.take(), rh = hh.take();
        mc::wait_idle_for(4500);
        mc::explore_schedules(false);
        if( rn.find("ERROR") == string::npos || rn.find("LOCKED\r\n") == string::npos || rn.find("OK\r\n") == 0 || rn.find("\nOK\r\n") != string::npos ) mc::fail("a new connection got the lock of a living holder: \"%s\"", quote(rn).c_str());
        must(rh, "OK\r\n", "lock b");
        refused(obs, "a", "observer"); refused(n, "a", "new connection"); refused(obs, "b", "observer");
        client n2(PORT, 3); refused(n2, "a", "another new connection");
        if( ! free_now(obs, "c") ) mc::fail("c is still locked after its holder ended (%s)", end_name(w));
        must(T1(hh, "unlock a\r\n"), "OK\r\n", "unlock by the holder"); must(T1(hh, "unlock b\r\n"), "OK\r\n", "unlock by the holder");
        if( ! free_now(n2, "a") || ! free_now(n2, "b") ) mc::fail("still locked");
        stop_server();
    };
    return s;
}
// The server fails to send to the holder.
static mc::scenario send_fails(const string& name, int bound, bool backlog) {
    mc::scenario s; s.name = name; s.sched_bound = bound; s.fault_bound = 1; s.weight = 1;
    s.body = [=] {
        start_server(base_config(2, 1, "gc_interval = 1000\n"));
        client obs(PORT, 9); obs.set("a", "1"); obs.set("b", string(3000, 'v'));
        client hh(PORT, 0); acquire(hh, "a", false);
        mc::explore_schedules(bound > 0);
        mc::faults f; f.send_error = true; f.recv_error = true; f.only = hh.s; mc::set_faults(f);
        if( backlog ) hh.set_window(100);
        hh.send("get b\r\nget a\r\n"); mc::wait_idle();
        if( backlog ) { hh.take(); hh.set_window(1 << 20); mc::wait_idle(); }
        hh.send("get a\r\n"); mc::wait_idle();
        bool dead = hh.server_closed();
        mc::set_faults(mc::faults{});
        mc::wait_idle_for(4500);
        mc::explore_schedules(false);
        client n(PORT, 2);
        if( dead ) { if( ! free_now(n, "a") ) mc::fail("the lock of a connection the server had to drop is still held"); }
        else { hh.take(); hh.set_window(1 << 20); refused(n, "a", "new connection"); mc::wait_idle(); hh.take(); must(T1(hh, "unlock a\r\n").find("OK\r\n") == string::npos ? "no" : "OK", "OK", "unlock by the holder"); }
        stop_server();
    };
    return s;
}
// Histories: connections lock, end, and are replaced.
static mc::chunked histories(const string& name, const string& cfg, int depth, std::vector<int> ways) {
    std::vector<cmd> A = {T('l', "a"), B('L', "b", "", 0, -1), T('u', "a"), on(1, T('l', "a")), on(1, B('L', "b", "", 0, -1)), on(1, T('s', "a", "2")), on(2, T('l', "b")), on(2, quiet(B('d', "a")))};
    for( int c = 0; c < 3; ++c ) for( int w: ways ) { cmd x; x.kind = 'E'; x.conn = c; x.delta = w; A.push_back(x); }
    mc::chunked c; c.name = name; c.count = power(A.size(), depth); c.chunk = 40; c.arena = false;
    c.body = [=](u64 from, u64 to) {
        start_server(cfg); driver d;
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); d.next_case("k" + std::to_string(i) + "_");
            for( int k = 0; k < 3; ++k ) d.get(k);
            d.run(T('s', "a", "1")); d.run(T('s', "b", "1"));
            for( int k: digits(i, A.size(), depth) ) {
                const cmd& x = A[k];
                if( x.kind == 'E' ) {
                    d.flush_all(); d.trace += "; connection " + std::to_string(x.conn) + " ends by " + end_name(x.delta);
                    end_connection(*d.get(x.conn).c, x.delta); mc::sleep_ms(end_closes(x.delta) ? 4500 : 1000);
                    if( end_closes(x.delta) && ! d.cons[x.conn].c->fd_released() ) mc::fail("the descriptor of the ended connection is still open");
                    if( ! end_closes(x.delta) ) { d.cons[x.conn].c->reset(); mc::sleep_ms(4500); }
                    d.cons.erase(x.conn); d.st.tick(mc::now_sec()); d.st.unlock_all(x.conn); d.get(x.conn); // usually reuses the descriptor
                } else d.run(x);
            }
            for( int k = 0; k < 3; ++k ) for( auto key: {"a", "b"} ) { cmd x = T('u', key); x.conn = k; d.run(x); }
            for( auto key: {"a", "b"} ) { cmd x = T('l', key); x.conn = 9; d.run(x); x = T('u', key); x.conn = 9; d.run(x); }
            d.flush_all(); d.st.m.clear();
        }
        stop_server();
    };
    return c;
}
// Whatever the holder and another connection did with the locked object, the lock ends with its holder.
static mc::chunked used(const string& name, int depth, std::vector<int> ways) {
    std::vector<cmd> b = {T('s', "a", "2"), T('a', "a", "2"), T('r', "a", "3"), T('A', "a", "4"), T('P', "a", "5"), T('c', "a", "6"), cas(CAS_OLD, T('c', "a", "6")), num('+', "a", 1), num('-', "a", 1), T('t', "a", "", 0, 0), T('d', "a"), T('g', "a"), T('l', "a"), T('u', "a")}, A;
    for( auto x: {B('s', "a", "1"), cas(CAS_OLD, B('s', "a", "6")), cas(CAS_CURRENT, B('s', "a", "6")), B('a', "a", "2"), cas(CAS_OLD, B('r', "a", "3")), cas(CAS_OLD, B('A', "a", "4")), B('P', "a", "5"), num('+', "a", 1, true), cas(CAS_OLD, num('-', "a", 1, true, 7, 0)), B('T', "a", "", 0, 0), B('d', "a"), cas(CAS_OLD, B('d', "a")), cas(CAS_CURRENT, B('d', "a")), B('L', "a", "", 0, -1), B('g', "a"), B('R', "a", "8"), cas(CAS_OLD, B('R', "a", "8")), cas(CAS_CURRENT, B('R', "a", "8")), B('u', "a"), B('l', "a")} ) { b.push_back(x); if( x.kind != 'g' && x.kind != 'T' ) b.push_back(quiet(x)); }
    cmd ua; ua.kind = 'U'; b.push_back(ua); ua.bin = true; b.push_back(ua); cmd w3 = wait_ms(5000); b.push_back(w3);
    for( auto& x: b ) { A.push_back(x); if( x.kind != w3.kind ) A.push_back(on(1, x)); }
    mc::chunked c; c.name = name; c.count = power(A.size(), depth) * ways.size(); c.chunk = 40; c.arena = false;
    c.body = [=](u64 from, u64 to) {
        start_server(base_config(2, 5, "gc_interval = 1000\n")); driver d;
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); d.next_case("k" + std::to_string(i) + "_"); for( int k = 0; k < 2; ++k ) d.get(k);
            d.run(T('s', "a", "1")); d.run(T('s', "b", "1")); d.run(i & 1 ? B('L', "a", "", 0, -1) : T('l', "a")); d.run(T('l', "b")); bool ok = true;
            for( int k: digits(i / ways.size(), A.size(), depth) ) { if( ! specified(d, A[k]) ) { ok = false; break; } d.run(A[k]); }
            if( ok ) for( auto key: {"a", "b"} ) { d.run(on(9, T('l', key))); d.run(on(9, T('u', key))); }
            d.flush_all(); int w = ways[i % ways.size()]; d.trace += string("; the holder ends by ") + end_name(w); end_connection(*d.get(0).c, w); mc::sleep_ms(4500); d.cons.erase(0); d.st.tick(mc::now_sec()); d.st.unlock_all(0); d.get(0);
            if( ok ) for( auto key: {"a", "b"} ) for( int q: {1, 0, 9} ) { d.run(on(q, T('l', key))); d.run(on(q, T('u', key))); }
            cmd x; x.kind = 'U'; d.run(on(1, x)); d.run(T('d', "a")); d.run(T('d', "b")); d.flush_all(); d.st.m.clear();
        }
        stop_server();
    };
    return c;
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C08"; bool t = mc::thorough();
    c.rule = "a lock holder ends in each of ten ways with requests in flight while others compete for its locks and a new connection reuses its descriptor, under all schedules within the preemption bound; histories of locking, ending and reconnecting compared with a reference model; single send and receive faults on the holder";
    std::vector<int> all; for( int i = 0; i < N_ENDS; ++i ) all.push_back(i);
    c.scenarios.push_back(takeover("takeover", 1, 2, all, false));
    c.scenarios.push_back(takeover("takeover-collecting", t ? 1 : 0, 2, {0, 3, 5}, true));
    c.scenarios.push_back(takeover("takeover-one-worker", 1, 1, {0, 1, 4, 5, 8}, false));
    c.scenarios.push_back(innocent("innocent", 1, 2));
    c.scenarios.push_back(send_fails("send-fails", 0, false));
    c.scenarios.push_back(send_fails("send-fails-backlog", 1, true));
    c.sequences.push_back(histories("histories", base_config(2, 5, "gc_interval = 1000\n"), t ? 4 : 3, {0, 5}));
    c.sequences.push_back(histories("histories-all-endings", base_config(2, 1, "gc_interval = 1\n"), t ? 3 : 2, all));
    c.sequences.push_back(used("used", t ? 3 : 2, {0, 5}));
    return mc::main_(argc, argv, c);
}
