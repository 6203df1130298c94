// C28: a failing connection never harms other connections or the server.
#include "repl.hpp"
#include "cref.hpp"
#include "ends.hpp"
#include <cerrno>
using namespace ref;
static string big(std::size_t n) { return string(n, 'B'); }
// replies in a comparable form: text as is, binary and counter without CAS ids
struct conv {
    string name; int port; std::vector<std::pair<string, string>> rounds; h::client c; string got, want; int type = 0; bool up = false; std::size_t window = 0; long since = 0;
    string normal(const string& raw) const {
        if( type == 0 ) return raw; string s = raw, o; char b[60];
        if( type == 1 ) for(;;) { h::bresp r; if( s.size() < 24 || ! parse_bin(s, r) ) break; snprintf(b, sizeof b, "[%02x %x %u ", r.op, r.status, r.opaque); o += b + r.key + " " + (r.status ? "" : r.value) + "]"; }
        if( type == 2 ) for(;;) { cref::cresp r; if( s.size() < 12 || ! cref::parse_c(s, r) ) break; snprintf(b, sizeof b, "[%02x %x %u ", r.op, r.status, r.opaque); o += b + (r.status ? string() : h::quote(r.body)) + "]"; }
        return o;
    }
};
static string bw(int op, int st, u32 opaque, const string& key = "", const string& val = "") { char b[60]; snprintf(b, sizeof b, "[%02x %x %u ", op, st, opaque); return b + key + " " + val + "]"; }
static string q(int op, const string& key, u32 opaque, const string& ex = "", const string& val = "") { return bin(op, key, ex, val, 0, opaque); }
static string cw(int op, int st, u32 opaque, const string& body = "") { char b[60]; snprintf(b, sizeof b, "[%02x %x %u ", op, st, opaque); return b + h::quote(body) + "]"; }
struct world {
    std::vector<std::unique_ptr<conv>> v; std::vector<std::unique_ptr<replica>> reps; string trace;
    conv& add(const string& name, int port, int type) { v.emplace_back(new conv); conv& x = *v.back(); x.name = name; x.port = port; x.type = type; return x; }
    void text(const string& name, const string& k, std::size_t n, std::size_t window) {
        conv& x = add(name, PORT, 0); x.window = window; string d = big(n), L = std::to_string(n);
        x.rounds = {{"set " + k + " 1 0 " + L + "\r\n" + d + "\r\nget " + k + "\r\n", "STORED\r\nVALUE " + k + " 1 " + L + "\r\n" + d + "\r\nEND\r\n"},
                    {"lock " + k + "\r\nappend " + k + " 0 0 1\r\nz\r\n", "OK\r\nSTORED\r\n"},
                    {"get " + k + "\r\nget none\r\n", "VALUE " + k + " 1 " + std::to_string(n + 1) + "\r\n" + d + "z\r\nEND\r\nEND\r\n"}};
    }
    void binary(const string& name, const string& k) {
        conv& x = add(name, PORT, 1);
        x.rounds = {{q(bSet, k, 1, bset_extras(2, 0), "10") + q(bGetK, k, 2), bw(bSet, 0, 1) + bw(bGetK, 0, 2, k, "10")}, {q(bLock, k, 3) + q(bIncrQ, k, 4, be(5, 8) + be(0, 8) + be(0, 4)) + q(bNoop, "", 5), bw(bLock, 0, 3) + bw(bNoop, 0, 5)}, {q(bGet, k, 6) + q(bGetQ, "none", 7) + q(bVersion, "", 8), bw(bGet, 0, 6, "", "15")}};
    }
    void counter(const string& name, const string& r) {
        conv& x = add(name, CNT, 2); using namespace cref;
        x.rounds = {{cacq(r, 3, 10, 1) + cget(r, 2), cw(cAcquire, 0, 1, be(3, 4)) + cw(cGet, 0, 2, be(3, 4))}, {crel(r, 1, 3) + cacq(r, 9, 10, 4), cw(cRelease, 0, 3) + cw(cAcquire, sNotAvailable, 4)}, {cget(r, 5), cw(cGet, 0, 5, be(2, 4))}};
    }
    void connect(conv& x) { x.c.connect(x.port); x.c.set_autoread(false); if( x.window ) x.c.set_window(x.window); x.up = true; }
    void pull(conv& x) { for( int i = 0; i < 400; ++i ) { string s = x.c.take(); x.got += s; if( ! x.window || s.empty() ) break; mc::wait_idle(); } }
    void check(conv& x, bool whole) {
        string g = x.normal(x.got); bool hit = x.c.faulted();
        string w = x.want; if( hit ) { if( w.compare(0, g.size(), g) && g.compare(0, w.size(), w) ) mc::fail("%s got \"%s\" before its failure, expected a part of \"%s\"", x.name.c_str(), quote(g, 200).c_str(), quote(w, 200).c_str()); return; }
        if( x.c.server_closed() ) mc::fail("%s was closed although it did not fail", x.name.c_str());
        if( whole && g.compare(0, w.size(), w) ) mc::fail("%s got \"%s\", expected \"%s\"", x.name.c_str(), quote(g, 200).c_str(), quote(w, 200).c_str());
        if( whole && x.type != 1 && g != w ) mc::fail("%s got \"%s\", expected \"%s\"", x.name.c_str(), quote(g, 200).c_str(), quote(w, 200).c_str());
    }
    void round(std::size_t n) { for( auto& x: v ) if( n < x->rounds.size() ) { x->want += x->rounds[n].second; if( ! x->c.faulted() ) x->c.send(x->rounds[n].first); } mc::wait_idle(); for( int i = 0; i < 3; ++i ) for( auto& x: v ) pull(*x); for( auto& x: v ) check(*x, true); drain(); }
    void drain() { for( auto& r: reps ) if( ! r->c.faulted() ) for( int i = 0; i < 100; ++i ) { std::size_t had = r->buf.size(); r->pull(); mc::wait_idle(); if( ! r->c.avail() && r->buf.size() == had ) break; } }
    void after() {
        mc::set_faults(mc::faults()); mc::sleep_ms(4000); for( auto& x: v ) { pull(*x); check(*x, true); }
        // what failed is gone entirely, what did not fail is still there
        int open = 0, copen = 0; std::map<string, u32> held; for( auto& x: v ) { bool hit = x->c.faulted(); if( hit && ! x->c.fd_released() ) mc::fail("the descriptor of failed %s is not released", x->name.c_str()); if( ! hit && x->c.fd_released() ) mc::fail("%s was closed although it did not fail", x->name.c_str()); if( ! hit ) { ++(x->port == PORT ? open : copen); } }
        for( auto& r: reps ) if( r->c.faulted() && ! r->c.fd_released() ) mc::fail("the descriptor of a failed replica is not released"); else if( ! r->c.faulted() && r->c.server_closed() ) mc::fail("a replica was closed although it did not fail");
        h::client n(PORT, 9); n.send("stats\r\n"); string s = n.recv_until("END\r\n"); string cc = "STAT curr_connections " + std::to_string(open + 1) + "\r\n"; if( s.find(cc) == string::npos ) { std::size_t at = s.find("STAT curr_conn"); mc::fail("%d clients are connected but the server says %s", open + 1, s.substr(at, s.find("\r\n", at) - at).c_str()); }
        for( auto& x: v ) if( x->port == PORT ) {
            string k = "k" + x->name; string l = n.cmd("lock " + k + "\r\n"); bool exists = n.get(k) != "END\r\n";
            if( ! x->c.faulted() && x->rounds.size() > 1 && l != "LOCKED\r\n" ) mc::fail("%s holds a lock but another client gets \"%s\"", x->name.c_str(), l.c_str()); if( x->c.faulted() && l == "LOCKED\r\n" ) mc::fail("the lock of failed %s is kept", x->name.c_str()); if( x->c.faulted() && exists && l != "OK\r\n" ) mc::fail("after the failure of %s: \"%s\"", x->name.c_str(), l.c_str()); }
        cref::cclient cn(9); for( auto& x: v ) if( x->port == CNT ) { cref::cresp r = cn.getc("k" + x->name); u32 want = x->c.faulted() ? 0 : 2, have = r.status == cref::sNotFound ? 0 : rd(r.body, 0, 4); if( have != want ) mc::fail("the resources of %s are %u instead of %u", x->name.c_str(), have, want); }
        std::vector<string> keys; for( auto& x: v ) if( x->port == PORT ) keys.push_back("k" + x->name); mc::wait_idle();
        replica late; late.join(); mc::sleep_ms(4000); drain(); for( auto& r: reps ) if( ! r->c.faulted() ) compare_live(n, keys, *r, "replica"); compare_live(n, keys, late, "a new replica");
        // the survivors go on
        for( auto& x: v ) if( ! x->c.faulted() ) { x->got = x->want = ""; if( x->type == 0 ) { x->c.send("version\r\n"); mc::wait_idle(); pull(*x); if( x->got.compare(0, 8, "VERSION ") ) mc::fail("%s is not served any more", x->name.c_str()); } if( x->type == 1 ) { x->c.send(q(bNoop, "", 77)); mc::wait_idle(); pull(*x); if( x->normal(x->got) != bw(bNoop, 0, 77) ) mc::fail("%s is not served any more", x->name.c_str()); } if( x->type == 2 ) { x->c.send(cref::creq(cref::cNoop, "", 77)); mc::wait_idle(); pull(*x); if( x->normal(x->got) != cw(cref::cNoop, 0, 77) ) mc::fail("%s is not served any more", x->name.c_str()); } }
        string t; for( auto& x: v ) t += x->c.faulted() ? "x" : "."; for( auto& r: reps ) t += r->c.faulted() ? "X" : ","; mc::visit_state(mc::hash_str(t)); mc::count_transition(v.size());
    }
};
static std::vector<int> RE = {EINTR, ECONNRESET, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, ENETDOWN, ECONNREFUSED, ECONNABORTED, EPIPE, ENOTCONN, EPROTO, EIO, ENOMEM, ENOBUFS};
static std::vector<int> SE = {EINTR, EPIPE, ECONNRESET, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, ENETDOWN, ECONNABORTED, ENOTCONN, EPROTO, EACCES, EIO, ENOMEM, ENOBUFS};
static std::vector<int> AE = {EINTR, ECONNABORTED, EPROTO, ENETDOWN, ENOPROTOOPT, EHOSTDOWN, ENONET, EHOSTUNREACH, EOPNOTSUPP, ENETUNREACH, EPERM, ETIMEDOUT, EMFILE, ENFILE, ENOBUFS, ENOMEM};
enum { RECV = 1, SEND = 2, ACC = 4, WAIT = 8, SHORT = 16 };
static mc::faults errors(int what, bool all) {
    mc::faults f; f.recv_error = what & RECV; f.send_error = what & SEND; f.short_send = f.short_recv = what & SHORT; f.wait_eintr = what & WAIT; if( all ) { f.recv_errnos = RE; f.send_errnos = SE; } else { f.recv_errnos = {ECONNRESET}; f.send_errnos = {EPIPE}; } if( what & ACC ) f.accept_errnos = all ? AE : std::vector<int>{EINTR, EPROTO, EMFILE}; return f;
}
static mc::scenario mixed(const string& name, int what, bool all, int fb, int sb, int workers, bool large) {
    mc::scenario s; s.name = name; s.sched_bound = sb; s.fault_bound = fb; s.weight = sb ? 6 : what & SHORT ? 3 : 1;
    s.body = [=] {
        mc::set_step_limit(50000000); start_server(base_config(workers, 5, "gc_interval = 1\ncounter.enable = true\ncounter.buckets = 3\nslave_timeout = 1000\nrepl_buffer_size = 1\n")); mc::sleep_ms(2500); world w;
        w.text("A", "kA", large ? 20000 : 10, large ? 3000 : 0); w.binary("B", "kB"); w.counter("C", "kC"); if( ! sb ) { w.text("D", "kD", 5, 0); w.counter("E", "kE"); }
        mc::set_faults(errors(what, all)); if( sb ) mc::explore_schedules(true);
        auto join = [&]{ w.reps.emplace_back(new replica); w.reps.back()->join(); if( large && w.reps.size() == 1 ) w.reps[0]->c.set_window(3000); };
        if( ! sb ) join(); for( auto& x: w.v ) w.connect(*x); mc::wait_idle(); w.round(0); if( ! sb ) { join(); mc::advance_ms(2500); mc::wait_idle(); } w.round(1); if( ! sb ) for( auto& r: w.reps ) if( ! r->c.faulted() ) r->heartbeat(); w.round(2); mc::explore_schedules(false);
        w.after(); stop_server();
    };
    return s;
}
// every descriptor is in use while more connections arrive
static mc::chunked descriptors() {
    mc::chunked c; c.name = "descriptors"; c.count = 3 * 3 * 5 * 3 * 2; c.chunk = 1; c.arena = false;
    c.body = [](u64 from, u64 to) { for( u64 i = from; i < to; ++i ) {
        mc::progress(i); u64 n = i; auto d = [&](int k) { int r = n % k; n /= k; return r; }; int room = d(3), kind = d(3), act = d(5), end = d(3), workers = 1 + d(2); mc::set_step_limit(50000000);
        start_server(base_config(workers, 5, "gc_interval = 1\ncounter.enable = true\ncounter.buckets = 3\nslave_timeout = 1000\nheap_data_limit = 4096\n")); mc::sleep_ms(2500);
        h::client t(PORT); cref::cclient k(1); replica r; r.join(); t.set("k", string(6000, 'k')); k.acquire("n", 2, 5); mc::sleep_ms(act == 4 ? 6000 : 2500); r.pull(); if( r.m["k"].val != string(6000, 'k') ) mc::fail("the replica has not got the object");
        mc::set_fd_limit(mc::open_vfds() + room);
        std::vector<std::unique_ptr<mc::client>> v; string req = kind == 0 ? "version\r\n" : kind == 1 ? cref::creq(cref::cNoop, "", 1) : string(1, '\0'); static const int P[] = {PORT, CNT, REPL};
        auto served = [&](mc::client& x) { return kind == 2 ? x.server_fd() >= 0 : x.avail() > 0; };
        for( int j = 0; j < 3; ++j ) { v.emplace_back(new mc::client); v[j]->connect(P[kind]); if( kind != 2 ) v[j]->set_autoread(false); else v[j]->set_autoread(true); v[j]->send(req); }
        mc::sleep_ms(500); for( int j = 0; j < 3; ++j ) { if( v[j]->server_closed() ) mc::fail("connection %d was closed", j); if( served(*v[j]) != (j < room) ) mc::fail("connection %d of 3 is %s with descriptors for %d", j, j < room ? "not served" : "served", room); }
        string val = string(6000, 'k');
        if( act >= 1 ) mc::sleep_ms(4000); if( act == 2 ) { if( t.cmd("flush_all\r\n") != "OK\r\n" ) mc::fail("flush_all"); mc::sleep_ms(4000); if( t.get("k") != "END\r\n" ) mc::fail("flushed object is there"); t.set("k", val); }
        if( act == 3 ) { val = "v2"; t.set("k", val); }
        if( t.val("k") != val ) mc::fail("an earlier client is not served"); if( k.acquire("n", 1, 5).status != cref::sOK || rd(k.getc("n").body, 0, 4) != 3 ) mc::fail("an earlier counter client is not served");
        if( act ) { mc::sleep_ms(1000); r.pull(); if( r.c.server_closed() || r.m["k"].val != val ) mc::fail("an earlier replica is not kept up to date"); }
        if( end == 0 ) mc::set_fd_limit(0);
        else { if( end == 1 ) r.c.close(); else r.c.reset(ECONNRESET); mc::sleep_ms(6000); int w = 0; for( auto& x: v ) w += served(*x); if( w != std::min(3, room + 1) ) mc::fail("a replica has gone but %d connections are served, %d before", w, room); }
        while( true ) { int w = 0; for( auto& x: v ) w += ! served(*x); if( ! w ) break; int open = mc::open_vfds(); mc::set_fd_limit(end == 0 ? 0 : open + 1); mc::sleep_ms(3000); int w2 = 0; for( auto& x: v ) w2 += ! served(*x); if( w2 >= w ) mc::fail("a descriptor is free but a waiting connection is not accepted"); }
        mc::set_fd_limit(0); for( auto& x: v ) if( x->server_closed() ) mc::fail("a connection was closed"); if( t.val("k") != val ) mc::fail("an earlier client is not served in the end");
        mc::visit_state(mc::hash_str("fd" + std::to_string(i))); mc::count_transition(6); stop_server();
    } };
    return c;
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C28"; bool t = mc::thorough(); int x = t ? 1 : 0;
    c.rule = "clients of both protocols, counter clients and replicas hold a fixed dialog while an error is injected at every single recv, send, accept or epoll_wait call (every errno the call can report; all pairs, and triples when thorough, of representative errors; also with short reads and writes, and under all schedules within the bound): every connection that was not hit gets exactly its replies, stays open and keeps its locks and resources; what was hit is released entirely; a new client and a new replica see the right content";
    c.assumptions = {"an error ends the connection it is reported on, except EINTR; EMFILE, ENFILE, ENOBUFS and ENOMEM of accept leave the connection waiting"};
    auto& S = c.scenarios;
    S.push_back(mixed("receive", RECV, true, 1, 0, 2, false)); S.push_back(mixed("send", SEND, true, 1, 0, 2, false)); S.push_back(mixed("accept", ACC, true, 1, 0, 2, false)); S.push_back(mixed("wait", WAIT, true, 1 + x, 0, 2, false)); S.push_back(mixed("large", RECV | SEND, true, 1, 0, 3, true));
    S.push_back(mixed("pairs", RECV | SEND | ACC, false, 2 + x, 0, 2, false)); S.push_back(mixed("pairs-large", RECV | SEND, false, 2, 0, 3, true)); S.push_back(mixed("accept-pairs", ACC, false, 3, 0, 2, false)); S.push_back(mixed("schedules", RECV | SEND, false, 1, 1 + x, 2, false));
    S.push_back(mixed("short-and-error", RECV | SEND | SHORT, false, 2, 0, 2, false));
    c.sequences = {descriptors()};
    return mc::main_(argc, argv, c);
}
