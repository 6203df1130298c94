// C33: what one connection can make the server hold in memory is bounded.
#include "cref.hpp"
#include "ref.hpp"
#include "repl.hpp"
using namespace ref;
static const std::size_t MiB = 1 << 20;
static string sz(std::size_t n) { char b[40]; snprintf(b, sizeof b, "%.1f MiB", n / 1048576.0); return b; }
static std::size_t g_base = 0;
static void begin(const string& cfg) { mc::set_step_limit(200000000); mc::watch_heap(true); start_server(cfg); mc::sleep_ms(4000); g_base = mc::heap_now(); mc::heap_peak(true); }
static void peak(std::size_t allowed, const string& what) { std::size_t p = mc::heap_peak(); if( p > g_base + allowed ) mc::fail("%s: the server holds %s more than when idle (allowed: %s)", what.c_str(), sz(p - g_base).c_str(), sz(allowed).c_str()); }
static void settled(std::size_t allowed, const string& what) { mc::sleep_ms(3000); std::size_t p = mc::heap_now(); if( p > g_base + allowed ) mc::fail("%s: the server keeps %s (allowed: %s)", what.c_str(), sz(p - g_base).c_str(), sz(allowed).c_str()); }
static void served(const string& what) { h::client o(PORT, 80); o.set("other", "1"); if( o.val("other") != "1" ) mc::fail("%s: others are not served", what.c_str()); o.send("quit\r\n"); mc::wait_idle(); }

// ---- requests that never become complete
static const char* kind_names[] = {"a line without an end", "a line of CRs", "set with 95 MiB of data", "set with 31 MiB of data", "a binary Set of 95 MiB", "a binary Get of 4 GiB", "a binary request of unknown type and 40 MiB", "binary SetQ of 31 MiB", "append with 4 GiB of data", "a counter Acquire of 95 MiB", "a counter request of 4 GiB", "a counter request of unknown type and 31 MiB"};
static const int KINDS = 12; static bool counter(int k) { return k >= 9; }
static string head(int k) {
    switch( k ) {
    case 0: return "get "; case 1: return ""; case 2: return "set k 0 0 100000000\r\n"; case 3: return "set k 0 0 32505856\r\n";
    case 4: return be(0x80, 1) + be(bSet, 1) + be(1, 2) + be(8, 1) + be(0, 3) + be(100000000, 4) + be(0, 12) + be(0, 8) + "k";
    case 5: return be(0x80, 1) + be(bGet, 1) + be(1, 2) + be(0, 1) + be(0, 3) + be(0xffffffff, 4) + be(0, 12) + "k";
    case 6: return be(0x80, 1) + be(0x7e, 1) + be(0, 2) + be(0, 1) + be(0, 3) + be(40 << 20, 4) + be(0, 12);
    case 7: return be(0x80, 1) + be(bSetQ, 1) + be(1, 2) + be(8, 1) + be(0, 3) + be(31 << 20, 4) + be(0, 12) + be(0, 8) + "k";
    case 8: return "append k 0 0 4294967295\r\n";
    case 9: return be(0x90, 1) + be(3, 1) + be(0, 2) + be(100000000, 4) + be(0, 4) + be(1, 4) + be(9, 4) + be(60000, 2);
    case 10: return be(0x90, 1) + be(1, 1) + be(0, 2) + be(0xffffffff, 4) + be(0, 4);
    default: return be(0x90, 1) + be(0x60, 1) + be(0, 2) + be(31 << 20, 4) + be(0, 4);
    }
}
static const std::size_t SEG[] = {900 * 1024, 2 * MiB, 5 * MiB};
static const char* lead_names[] = {"nothing", "a complete request", "a lock or a counter held"};
static const char* end_names[] = {"it goes on", "the client resets after 20 MiB", "the client closes after 29 MiB"};
static string dincomplete(u64 i) { char b[300]; snprintf(b, sizeof b, "%s in segments of %s after %s; %s%s", kind_names[i % KINDS], sz(SEG[i / KINDS % 3]).c_str(), lead_names[i / KINDS / 3 % 3], end_names[i / KINDS / 9 % 3], i / KINDS / 27 ? "; secure erase" : ""); return b; }
static mc::chunked incomplete() {
    mc::chunked c; c.name = "incomplete"; c.count = KINDS * 27 * 2; c.chunk = 1; c.arena = false; c.describe = dincomplete;
    c.body = [](u64 from, u64 to) { for( u64 i = from; i < to; ++i ) {
        mc::progress(i); int k = i % KINDS, lead = i / KINDS / 3 % 3, end = i / KINDS / 9 % 3; std::size_t seg = SEG[i / KINDS % 3]; string what = dincomplete(i);
        begin(base_config(2, 2, string("gc_interval = 1\nheap_data_limit = 4096\ncounter.enable = true\ncounter.buckets = 2\n") + (i / KINDS / 27 ? "secure_erase = true\n" : "")));
        {
            std::unique_ptr<mc::client> a(new mc::client(counter(k) ? CNT : PORT)); bclient o(PORT, 1); mc::client n(CNT); o.call(bSet, "held", bset_extras(0, 0), "1");
            string s; if( lead == 1 ) s = counter(k) ? cref::creq(cref::cNoop, "", 7) : "version\r\n"; if( lead == 2 ) s = counter(k) ? cref::cacq("held", 5, 9, 7) : "lock held\r\n";
            std::size_t total = end == 1 ? 20 * MiB : end == 2 ? 29 * MiB : (k == 3 || k == 7 || k == 11) ? 31 * MiB - 1000 : 160 * MiB, sent = 0; s += head(k); string fill(seg, k == 1 ? '\r' : k == 5 || k == 10 ? '\x80' : 'a');
            while( sent < total && ! a->server_closed() ) { if( sent ) s.clear(); s.append(fill, 0, std::min(seg - std::min(seg, s.size()), total - sent)); a->send(s); sent += s.size(); if( ! mc::wait_idle_for(5) ) {} a->take(); peak(96 * MiB, what); mc::count_transition(); }
            bool closed = a->server_closed(); if( end == 0 && ! closed && (k == 0 || k == 1) ) mc::fail("%s: %s have been accepted", what.c_str(), sz(sent).c_str());
            served(what);
            if( end == 1 && ! closed ) a->reset(); if( end == 2 && ! closed ) a->close(); a->take(); mc::sleep_ms(300); if( ! closed && end == 0 ) a->reset(); mc::sleep_ms(1500);
            settled(3 * MiB, what + " (ended)");
            if( lead == 2 ) { if( counter(k) ) { n.send(cref::cget("held", 1)); string r = n.recv(16); if( rd(r, 2, 1) != 0 || rd(r, 12, 4) != 0 ) mc::fail("%s: the counter is not released: %s", what.c_str(), quote(r).c_str()); } else if( o.call(bLock, "held").status != 0 ) mc::fail("%s: the lock remains", what.c_str()); }
        }
        served(what); mc::visit_state(mc::hash_str(what)); stop_server();
    } };
    return c;
}
// ---- large requests that do become complete: the memory is given back at once
static const char* big_names[] = {"set", "set of too large data", "binary Set", "binary SetQ", "append", "get of many keys", "a long line of garbage", "counter Acquire"};
static string dlarge(u64 i) { char b[200]; snprintf(b, sizeof b, "%s of %d MiB on %d connection(s) in segments of %s%s", big_names[i % 8], i / 8 % 2 ? 12 : 28, i / 16 % 2 ? 3 : 1, sz(SEG[i / 32 % 3]).c_str(), i / 96 ? ", values on disk" : ""); return b; }
static mc::chunked large() {
    mc::chunked c; c.name = "large"; c.count = 8 * 2 * 2 * 3 * 2; c.chunk = 1; c.arena = false; c.describe = dlarge;
    c.body = [](u64 from, u64 to) { for( u64 i = from; i < to; ++i ) {
        mc::progress(i); int k = i % 8, conns = i / 16 % 2 ? 3 : 1; std::size_t n = (i / 8 % 2 ? 12 : 28) * MiB, seg = SEG[i / 32 % 3]; bool files = i / 96; string what = dlarge(i);
        begin(base_config(2, 2, string("gc_interval = 1\nmax_data_size = ") + (k == 1 ? "1M" : "60M") + "\nheap_data_limit = " + (files ? "4096" : "60M") + "\ncounter.enable = true\ncounter.buckets = 2\n"));
        {
            std::vector<std::unique_ptr<mc::client>> cs; for( int j = 0; j < conns; ++j ) cs.emplace_back(new mc::client(k == 7 ? CNT : PORT)); h::client o(PORT, 9); o.set("app", "x");
            for( int round = 0; round < 2; ++round ) for( int j = 0; j < conns; ++j ) {
                string key = "k" + std::to_string(j), s, v(n, 'v'), want; mc::client& a = *cs[j];
                switch( k ) {
                case 0: s = "set " + key + " 0 0 " + std::to_string(n) + "\r\n" + v + "\r\n"; want = "STORED\r\n"; break;
                case 1: s = "set " + key + " 0 0 " + std::to_string(n) + "\r\n" + v + "\r\nversion\r\n"; break;
                case 2: s = bin(bSet, key, bset_extras(0, 0), v); break;
                case 3: s = bin(bSetQ, key, bset_extras(0, 0), v) + bin(bNoop, ""); break;
                case 4: o.set("app", "x"); s = "append app 0 0 " + std::to_string(n) + "\r\n" + v + "\r\n"; want = "STORED\r\n"; break;
                case 5: s = "get"; while( s.size() < n / 8 ) s += " " + string(200, 'q'); s += "\r\n"; want = "END\r\n"; break;
                case 6: s = string(n, 'g') + "\r\n"; break;
                case 7: s = be(0x90, 1) + be(3, 1) + be(0, 2) + be(n, 4) + be(0, 4) + be(1, 4) + be(9, 4) + be(60000, 2) + string(n - 10, 'n'); break;
                }
                for( std::size_t p = 0; p < s.size() && ! a.server_closed(); p += seg ) { a.send(s.substr(p, seg)); mc::wait_idle_for(5); peak(3 * 30 * MiB + 130 * MiB, what); }
                mc::wait_idle_for(50); string r = a.take(); if( r.empty() && ! a.server_closed() ) mc::fail("%s: no reply", what.c_str()); if( ! want.empty() && r.compare(0, want.size(), want) ) mc::fail("%s: the reply is %s", what.c_str(), quote(r, 80).c_str());
                if( k == 2 && rd(r, 6, 2) != 0 ) mc::fail("%s: the reply is %s", what.c_str(), quote(r, 80).c_str());
            }
            for( int j = 0; j < conns; ++j ) o.cmd("delete k" + std::to_string(j) + "\r\n"); o.cmd("delete app\r\n");
            settled(3 * MiB, what + " (values deleted again, connections still open)");
        }
        served(what); mc::visit_state(mc::hash_str(what)); stop_server();
    } };
    return c;
}
// ---- replies nobody reads
static const char* unread_names[] = {"get", "gets of one line", "binary Get", "binary GetQ", "gat-like touch and get", "keys", "stats", "counter Dump"};
static string dunread(u64 i) { char b[200]; snprintf(b, sizeof b, "unread replies to %s, window %d, %d connection(s), %d worker(s)%s", unread_names[i % 8], i / 8 % 2 ? 100000 : 0, i / 16 % 2 ? 4 : 1, i / 32 % 2 ? 2 : 3, i / 64 ? ", then reset" : ", then read"); return b; }
static mc::chunked unread() {
    mc::chunked c; c.name = "unread"; c.count = 128; c.chunk = 1; c.arena = false; c.describe = dunread;
    c.body = [](u64 from, u64 to) { for( u64 i = from; i < to; ++i ) {
        mc::progress(i); int k = i % 8, conns = i / 16 % 2 ? 4 : 1, workers = i / 32 % 2 ? 2 : 3; string what = dunread(i); bool rst = i / 64;
        begin(base_config(workers, 2, "gc_interval = 1\nmax_data_size = 2M\nheap_data_limit = 4096\ncounter.enable = true\ncounter.buckets = 2\n"));
        {
            h::client o(PORT, 9); string v(MiB, 'v'); o.set("k", v); mc::client n(CNT); if( k == 5 ) for( int j = 0; j < 400; ++j ) { string key = std::to_string(j) + string(245, 'x'); o.set(key, ""); } if( k == 7 ) for( int j = 0; j < 200; ++j ) { n.send(cref::cacq(std::to_string(j) + string(240, 'n'), 1, 9, 1)); n.recv(16); }
            mc::sleep_ms(3000); g_base = mc::heap_now(); mc::heap_peak(true);
            std::vector<std::unique_ptr<mc::client>> cs; for( int j = 0; j < conns; ++j ) { cs.emplace_back(new mc::client(k == 7 ? CNT : PORT)); cs.back()->set_window(i / 8 % 2 ? 100000 : 0); }
            const int N = k >= 5 ? 150 : 40; string s; for( int j = 0; j < N; ++j ) s += k == 0 ? "get k\r\n" : k == 1 ? (j ? " k" : "gets k") : k == 2 ? bin(bGet, "k") : k == 3 ? bin(bGetQ, "k") : k == 4 ? bin(bGaT, "k", be(0, 4)) : k == 5 ? "keys\r\n" : k == 6 ? "stats\r\n" : cref::creq(cref::cDump, "", 1); if( k == 1 ) s += "\r\n";
            for( auto& a: cs ) a->send(s); mc::sleep_ms(3000);
            peak(conns * 4 * MiB, what); mc::count_transition(N);
            if( rst ) for( auto& a: cs ) a->reset(105 + 5); // ETIMEDOUT
            else { std::vector<std::size_t> got(conns); for( int r = 0; r < 100000; ++r ) { bool any = false; for( int j = 0; j < conns; ++j ) { string t = cs[j]->take(); got[j] += t.size(); any |= ! t.empty(); cs[j]->set_window(3 * MiB); } mc::sleep_ms(20); peak(conns * 4 * MiB, what + " (reading again)"); if( ! any && r > 5 ) break; } for( int j = 0; j < conns; ++j ) if( k < 5 && got[j] < N * MiB ) mc::fail("%s: only %s of replies arrived", what.c_str(), sz(got[j]).c_str()); for( int j = 1; j < conns; ++j ) if( k != 6 && got[j] != got[0] ) mc::fail("%s: %zu and %zu bytes of replies", what.c_str(), got[0], got[j]); }
            settled(MiB, what + " (ended)"); served(what);
        }
        mc::visit_state(mc::hash_str(what)); stop_server();
    } };
    return c;
}
// ---- a replica that reads slowly or not at all
static string dreplica(u64 i) { char b[200]; snprintf(b, sizeof b, "a replica with window %d, buffer of %d MiB, %s%s", (int)(i % 2 ? 50000 : 0), (int)(i / 2 % 2 ? 4 : 1), i / 4 % 3 == 0 ? "values written afterwards" : i / 4 % 3 == 1 ? "values written before" : "one value written again and again", i / 12 % 2 ? ", alive" : ", silent"); return b; }
static mc::chunked replica_unread() {
    mc::chunked c; c.name = "replica"; c.count = 24; c.chunk = 1; c.arena = false; c.describe = dreplica;
    c.body = [](u64 from, u64 to) { for( u64 i = from; i < to; ++i ) {
        mc::progress(i); std::size_t buf = i / 2 % 2 ? 4 : 1; int mode = i / 4 % 3; bool alive = i / 12 % 2; string what = dreplica(i);
        begin(base_config(3, 2, "gc_interval = 1\nmax_data_size = 2M\nheap_data_limit = 4096\nslave_timeout = 8\nrepl_buffer_size = " + std::to_string(buf) + "\n"));
        {
            h::client o(PORT, 9); string v(MiB, 'v'); auto write = [&](bool wait) { for( int j = 0; j < 30; ++j ) { o.put("set " + (mode == 2 ? string("k") : "k" + std::to_string(j)) + " 0 0 " + std::to_string(v.size()) + "\r\n" + v + "\r\n"); if( wait ) { if( o.line() != "STORED\r\n" ) mc::fail("no reply"); } } };
            if( mode == 1 ) write(true); mc::sleep_ms(3000); g_base = mc::heap_now(); mc::heap_peak(true);
            std::unique_ptr<mc::client> r(new mc::client(REPL)); r->set_window(i % 2 ? 50000 : 0); mc::sleep_ms(2500); if( mode != 1 ) write(false);
            for( int t = 0; t < 6; ++t ) { if( alive ) r->send(string(1, '\0')); mc::sleep_ms(1000); } peak((buf + 3 + 36) * MiB, what); // the client's own 30 MiB of requests may be read
            mc::count_transition(30); if( alive ) { r->set_window(200 * MiB); for( int t = 0; t < 5; ++t ) { r->send(string(1, '\0')); mc::sleep_ms(1000); r->take(); } r->reset(); }
            mc::sleep_ms(15000); o.take(); settled(MiB, what + " (replica gone)"); served(what);
        }
        mc::visit_state(mc::hash_str(what)); stop_server();
    } };
    return c;
}
// ---- connections that do nothing
static mc::chunked idle() {
    mc::chunked c; c.name = "idle"; c.count = 12; c.chunk = 1; c.arena = false;
    c.body = [](u64 from, u64 to) { for( u64 i = from; i < to; ++i ) {
        mc::progress(i); int n = 20 << i % 3; int kind = i / 3; begin(base_config(2, 2, "gc_interval = 1\ncounter.enable = true\ncounter.buckets = 2\n")); char w[100]; snprintf(w, sizeof w, "%d connections that %s", n, kind == 0 ? "send nothing" : kind == 1 ? "have sent a request" : kind == 2 ? "have sent half a request" : "use counters"); string what = w;
        { std::vector<std::unique_ptr<mc::client>> cs; for( int j = 0; j < n; ++j ) { cs.emplace_back(new mc::client(kind == 3 ? CNT : PORT)); if( kind == 1 ) cs.back()->send("version\r\n"); if( kind == 2 ) cs.back()->send("set k 0 0 1000\r\nabc"); if( kind == 3 ) cs.back()->send(cref::cacq("c", 1, 1000, 1)); mc::wait_idle(); } settled(n * 64 * 1024, what); peak(n * 64 * 1024 + 2 * MiB + MiB, what); served(what); }
        mc::sleep_ms(3000); mc::visit_state(mc::hash_str(what)); mc::count_transition(n); stop_server();
    } };
    return c;
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C33"; bool t = mc::thorough(); (void)t;
    c.rule = "every kind of request that never becomes complete, cut into segments of several sizes, after every kind of earlier use of the connection, going on for ever or ending; every kind of large request; every kind of reply left unread by several connections; replicas that do not read; many idle connections. After every segment the heap the server's threads hold (all blocks of 256 bytes and more) is compared with what it held when idle, and again when the load has ended";
    c.sequences = {incomplete(), large(), unread(), replica_unread(), idle()};
    return mc::main_(argc, argv, c);
}
