// C14: output is delivered intact and in order under any backpressure.
#include "repl.hpp"
#include "cref.hpp"
using namespace h;
typedef std::uint64_t u64; typedef std::uint32_t u32;
static string big(std::size_t n, int seed) { string s(n, 0); u64 x = seed * 7919 + 1; for( auto& c: s ) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; c = 'a' + (x >> 59) % 26; } return s; }
struct plan { int port; std::vector<string> req; };     // each request is answered the same way however often it is sent
static const int N_PIPES = 9;
static string cfg(int workers, const string& x = "") { return base_config(workers, 3, "max_data_size = 4M\ncounter.enable = true\ncounter.buckets = 3\n" + x); }
static void prepare() {
    mc::block_until([]{ return mc::listening(CNT); }, "counter port");
    client c(PORT, 50); c.set("e", ""); c.set("a", "x", 3); c.set("b", string(100, 'b')); c.set("k", big(3000, 1)); c.set("l", big(20000, 2)); c.set("n", "5"); c.set("s", "z");
    cref::cclient n(51); for( int i = 0; i < 5; ++i ) n.acquire("ctr" + string(i * 13, 'n') + std::to_string(i), i + 1, 100);
    mc::wait_idle();
}
static plan pipeline(int i) {
    plan p; p.port = PORT; auto& r = p.req;
    switch( i ) {
    case 0: r = {"get a b e\r\n", "get nokey\r\n", "set s 0 0 3\r\nabc\r\n", "bogus\r\n", "gets e\r\n", "version\r\n"}; break;
    case 1: r = {"get k\r\n", "get a k b nokey k\r\n", "delete nokey\r\n"}; break;
    case 2: r = {"keys\r\n", "touch n 0\r\n", "set s 0 0 1 noreply\r\nz\r\n", "get s\r\n"}; break;
    case 3: r = {bin(bGet, "a", "", "", 0, 1), bin(bGetK, "b", "", "", 0, 2), bin(bGetQ, "nokey", "", "", 0, 3), bin(bNoop, "", "", "", 0, 4), bin(bGet, "nokey", "", "", 0, 5), bin(bGetKQ, "e", "", "", 0, 6), bin(bTouch, "n", be(0, 4), "", 0, 7)}; break;
    case 4: r = {bin(bGetK, "k", "", "", 0, 1), bin(bVersion, "", "", "", 0, 2), bin(bGet, "k", "", "", 0, 3), bin(0x66, "k", "", "", 0, 4)}; break;
    case 5: r = {bin(bKeys, "", "", "", 0, 1), bin(bGaT, "a", be(0, 4), "", 0, 2), bin(bStat, "settings", "", "", 0, 3)}; break;
    case 6: p.port = CNT; { u32 o = 1; string q = "ctr0"; r = {cref::creq(cref::cDump, "", 1), cref::cget(q, 2), cref::creq(0x55, "", 3), cref::cacq(q, 1000, 2000 - 1 + o * 0, 4)}; r[3] = cref::cacq(q, 500, 500, 4); } break;
    case 7: p.port = CNT; r = {cref::creq(cref::cNoop, "", 1), cref::creq(cref::cDump, "", 2), cref::crel("nosuch", 1, 3), cref::creq(cref::cDump, "", 4)}; break;
    case 8: r = {"get l\r\n", "get a l\r\n", "get k l k\r\n"}; break;
    }
    return p;
}
static string expected(plan& p) {
    client c(p.port, 60); string e;
    for( auto& q: p.req ) { c.send(q); mc::wait_idle(); e += c.take(); }
    return e;
}
static string join(const plan& p) { string s; for( auto& q: p.req ) s += q; return s; }
static void differ(const string& got, const string& want, const string& what) {
    if( got == want ) return;
    std::size_t k = 0; while( k < got.size() && k < want.size() && got[k] == want[k] ) ++k;
    mc::fail("%s: received %zu of %zu bytes, first difference at %zu: \"%s\" instead of \"%s\"", what.c_str(), got.size(), want.size(), k, quote(got.substr(k), 60).c_str(), quote(want.substr(k), 60).c_str());
}
static string read_exactly(client& c, std::size_t total, std::size_t step, const std::vector<string>& late = {}) {
    string got; std::size_t at = 0;
    while( got.size() < total ) {
        got += c.recv(at < late.size() ? std::min(step, std::max<std::size_t>(1, c.avail())) : std::min(step, total - got.size()));
        if( at < late.size() ) c.send(late[at++]);      // requests keep coming while output is held back
    }
    for( ; at < late.size(); ++at ) c.send(late[at]);
    return got;
}
// Every window and reading step.
static mc::chunked windows(const string& name, std::vector<int> pipes, std::vector<std::size_t> wins, std::vector<std::size_t> steps, int workers) {
    u64 n = pipes.size() * wins.size() * steps.size() * 4;
    mc::chunked c; c.name = name; c.count = n; c.chunk = std::max<u64>(8, n / 200); c.arena = false;
    c.body = [=](u64 from, u64 to) {
        mc::set_step_limit(50000000); start_server(cfg(workers)); prepare(); std::map<int, string> want;
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); u64 x = i; int mode = x % 4; x /= 4; std::size_t step = steps[x % steps.size()]; x /= steps.size(); std::size_t win = wins[x % wins.size()]; x /= wins.size(); int pi = pipes[x];
            plan p = pipeline(pi); if( ! want.count(pi) ) want[pi] = expected(p);
            string w = want[pi], what = "pipeline " + std::to_string(pi) + " window " + std::to_string(win) + " step " + std::to_string(step) + " mode " + std::to_string(mode);
            client c(p.port, 1); mc::wait_idle(); c.set_window(win); string got;
            if( mode == 0 ) { c.send(join(p)); mc::wait_idle(); got = read_exactly(c, w.size(), step); }
            else if( mode == 1 ) { c.send(join(p)); c.shutdown(); mc::wait_idle(); got = read_exactly(c, w.size(), step); }     // half-closed while replies are outstanding
            else if( mode == 2 ) { auto late = p.req; string first = late[0]; late.erase(late.begin()); c.send(first); mc::wait_idle(); got = read_exactly(c, w.size(), step, late); }
            else {      // quit after the requests: everything before it is still delivered
                if( p.port == CNT ) { c.send(join(p)); mc::sleep_ms(1000); got = read_exactly(c, w.size(), step); }
                else {
                    bool b = (unsigned char)p.req[0][0] == 0x80; string extra;
                    if( b && win % 2 ) { c.send(join(p) + bin(bQuit, "", "", "", 0, 99)); extra = string("\x81\x07", 2) + string(10, '\0') + be(99, 4) + string(8, '\0'); }
                    else c.send(join(p) + (b ? bin(bQuitQ, "") : "quit\r\n"));
                    mc::wait_idle(); w += extra; got = read_exactly(c, w.size(), step); mc::wait_idle_for(100);
                    if( ! c.server_closed() ) mc::fail("%s: the connection stays open after quit", what.c_str());
                }
            }
            mc::wait_idle_for(50); got += c.take(); differ(got, w, what);
            if( c.unflushed() && mode != 3 ) mc::fail("%s: output stays in a corked socket", what.c_str());
            mc::visit_state(mc::hash_str(what)); mc::count_transition(w.size() / std::min(win, step)); c.reset(); if( i % 8 == 7 ) mc::sleep_ms(3000);
        }
        stop_server();
    };
    return c;
}
// Schedules: workers produce, the event loop and other workers flush, the client reads.
static mc::scenario racing(const string& name, int sb, int fb, int workers, std::vector<int> pipes, std::vector<std::size_t> wins) {
    mc::scenario s; s.name = name; s.sched_bound = sb; s.fault_bound = fb;
    s.body = [=] {
        start_server(cfg(workers)); prepare();
        int pi = pipes[mc::choose(pipes.size(), "pipeline")]; std::size_t win = wins[mc::choose(wins.size(), "window")];
        plan p = pipeline(pi); string w = expected(p); client c(p.port, 1), other(PORT, 2); mc::wait_idle();
        if( win ) c.set_window(win);
        mc::explore_schedules(true);
        if( fb ) { mc::faults f; f.short_send = true; f.only = c.s; mc::set_faults(f); }
        c.send(join(p)); string got, extra; int rounds = 0;
        if( win ) { std::size_t step = (win + 1) / 2; bool second = false;
            while( got.size() < w.size() ) { got += c.recv(std::min(step, w.size() - got.size())); if( ++rounds == 6 ) { step = w.size(); c.set_window(1 << 20); } if( ! second ) { second = true; other.send("get a\r\n"); } } }
        else { other.send("get a\r\n"); got = c.recv(w.size()); }
        mc::wait_idle_for(100); mc::set_faults(mc::faults{}); mc::explore_schedules(false);
        got += c.take(); differ(got, w, "pipeline " + std::to_string(pi)); if( c.unflushed() ) mc::fail("output stays in a corked socket");
        if( other.take() != "VALUE a 3 1\r\nx\r\nEND\r\n" ) mc::fail("another connection is not served");
        c.send(p.req[0]); mc::wait_idle(); if( c.take().empty() ) mc::fail("the connection is dead afterwards");
        mc::visit_state(mc::hash_str(got)); stop_server();
    };
    return s;
}
// ---------------------------------------------------------------- replicas
// Several connections write through one replica link that accepts little.
static mc::scenario replica_races(const string& name, int sb, int fb, int workers, int clients, std::vector<std::size_t> sizes, std::vector<std::size_t> wins, bool two) {
    mc::scenario s; s.name = name; s.sched_bound = sb; s.fault_bound = fb;
    s.body = [=] {
        start_server(base_config(workers, 3, "repl_buffer_size = 1\nslave_timeout = 1000000\nmax_data_size = 4M\ngc_interval = 1000\n"));
        std::vector<std::unique_ptr<client>> c; for( int i = 0; i < clients; ++i ) c.emplace_back(new client(PORT, i));
        std::size_t size = sizes[mc::choose(sizes.size(), "size")], win = wins[mc::choose(wins.size(), "window")];
        ref::replica r, q; r.join(); q.id = 1; if( two ) q.join(); mc::sleep_ms(3000); r.keep_log = true; r.pull(); if( two ) q.pull();
        r.c.set_window(win);
        mc::explore_schedules(true);
        if( fb ) { mc::faults f; f.short_send = true; f.only = r.c.s; mc::set_faults(f); }
        std::vector<string> keys; std::map<string, std::vector<string>> order;
        for( int i = 0; i < clients; ++i ) {
            string k = "k" + std::to_string(i), v = big(size, i); keys.push_back(k); order[k] = {v};
            string rq = "set " + k + " " + std::to_string(i) + " 0 " + std::to_string(size) + "\r\n" + v + "\r\n";
            if( i % 2 ) { rq += "append " + k + " 0 0 1\r\n+\r\n"; order[k].push_back(v + "+"); } else rq += "touch " + k + " 3000\r\n";
            c[i]->send(rq);
        }
        std::size_t step = std::max<std::size_t>(1, win / 2); string raw;
        for( int k = 0; k < 4; ++k ) { mc::wait_idle_for(20); if( r.c.avail() ) raw += r.c.recv(std::min(step, r.c.avail())); }
        r.c.set_window(1 << 30); mc::wait_idle_for(100); mc::set_faults(mc::faults{}); mc::explore_schedules(false);
        // what was read in pieces belongs in front
        r.buf = raw; r.pull(); if( two ) q.pull();
        for( int i = 0; i < clients; ++i ) { string t = c[i]->take(); string want = string("STORED\r\n") + (i % 2 ? "STORED\r\n" : "TOUCHED\r\n"); if( t != want ) mc::fail("connection %d received \"%s\"", i, quote(t).c_str()); }
        mc::sleep_ms(500);
        client o(PORT, 9); ref::compare_live(o, keys, r, "replica"); if( two ) ref::compare_live(o, keys, q, "second replica");
        // per key, versions appear in order and whole
        std::map<string, std::size_t> at; for( auto& l: r.log ) if( l.op == bSetQ ) { auto& v = order[l.key]; std::size_t p = at[l.key]++; if( p >= v.size() || v[p] != l.val ) mc::fail("version %zu of %s is damaged or out of order", p, l.key.c_str()); }
        for( auto& v: order ) if( at[v.first] != v.second.size() ) mc::fail("%s: %zu of %zu versions were sent", v.first.c_str(), at[v.first], v.second.size());
        stop_server();
    };
    return s;
}
// Sizes around the buffer unit (1 MiB), every window of a few and every combination of three values.
static void repl_sizes(u64 i) {
    const std::size_t M = 1 << 20; static const std::size_t SZ[] = {10, 1000, M / 2, M - 40, M - 35, M - 34, M - 33, M - 1, M, M + 1, M + 40, 2 * M - 68, 2 * M, 3 * M + 5}; const int NS = sizeof SZ / sizeof *SZ;
    static const std::size_t WIN[] = {1, 100, M / 2, M - 1, M, M + 1}; static const std::size_t STEP[] = {M / 3, M, 3 * M};
    int a = i % NS; i /= NS; int b = i % NS; i /= NS; int w = i % 6; i /= 6; int st = i % 3; i /= 3; int bufs = 1 + i % 2;
    start_server(base_config(2, 3, "repl_buffer_size = " + std::to_string(bufs) + "\nslave_timeout = 1000000\nmax_data_size = 4M\ngc_interval = 1000\n"));
    client x(PORT, 0), y(PORT, 1), z(PORT, 2); ref::replica r; r.join(); mc::sleep_ms(3000); r.pull(); r.c.set_window(WIN[w]);
    auto put = [&](client& c, const string& k, std::size_t n) { c.send("set " + k + " 0 0 " + std::to_string(n) + "\r\n" + big(n, n) + "\r\n"); mc::wait_idle(); };
    put(x, "x", SZ[a]); put(y, "y", SZ[b]); put(z, "z", 777); string raw;
    for( int k = 0; k < 200 && r.c.avail(); ++k ) { raw += r.c.recv(std::min(STEP[st], r.c.avail())); mc::wait_idle(); if( k == 2 ) r.c.set_window(M / 2 + 7); }
    r.c.set_window(1 << 30); mc::wait_idle_for(50); r.buf = raw; mc::note("raw %zu avail %zu", raw.size(), r.c.avail());
    if( x.take() != "STORED\r\n" || y.take() != "STORED\r\n" || z.take() != "STORED\r\n" ) mc::fail("a connection stays blocked although the replica reads");
    client o(PORT, 9); ref::compare_live(o, {"x", "y", "z"}, r, "replica"); stop_server();
}
// The held back data ends just before, at or after the end of a buffer when the next command comes.
static void repl_boundaries(u64 i) {
    const long M = 1 << 20; static const long D[] = {0, 1, 2, 29, 33, 34, 35, 64, 100, 1000}, W[] = {1, 100}, E[] = {-1, 0, 1};
    long d = D[i % 10]; i /= 10; long win = W[i % 2]; i /= 2; long e = E[i % 3]; i /= 3; int far = i % 3; i /= 3; int bufs = 1 + i % 2;
    start_server(base_config(2, 3, "repl_buffer_size = " + std::to_string(bufs) + "\nslave_timeout = 1000000\nmax_data_size = 8M\ngc_interval = 1000\n"));
    client x(PORT, 0), y(PORT, 1), z(PORT, 2); ref::replica r; r.join(); mc::sleep_ms(3000); r.pull(); r.c.set_window(win);
    auto put = [&](client& c, const string& k, long total) { long n = std::max(0L, total - 33); c.send("set " + k + " 0 0 " + std::to_string(n) + "\r\n" + big(n, n) + "\r\n"); mc::wait_idle(); };
    put(x, "x", M - d + win); put(y, "y", far * M + d + e); put(z, "z", 777); string raw;
    for( int k = 0; k < 200 && r.c.avail(); ++k ) { raw += r.c.recv(r.c.avail()); mc::wait_idle(); if( k == 1 ) r.c.set_window(M / 2 + 7); mc::wait_idle(); }
    r.c.set_window(1 << 30); mc::wait_idle_for(50); r.buf = raw;
    if( x.take() != "STORED\r\n" || y.take() != "STORED\r\n" || z.take() != "STORED\r\n" ) mc::fail("a connection stays blocked although the replica reads");
    client o(PORT, 9); ref::compare_live(o, {"x", "y", "z"}, r, "replica"); stop_server();
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C14"; bool t = mc::thorough();
    c.rule = "request pipelines (text, binary, counter) against every receive window and reading step of a grid, with half-closes, late requests and quit; replies and replication streams racing with flushing workers, readers and short or refused writes under all schedules within the bounds; replication values around the buffer unit; oracle: the bytes delivered equal the concatenation of the individual replies, the stream reproduces the master";
    std::vector<std::size_t> w1; for( std::size_t i = 1; i <= (t ? 130 : 64); ++i ) w1.push_back(i); for( std::size_t x: {127, 128, 250, 511, 1000} ) w1.push_back(x);
    c.sequences.push_back(windows("small-replies", {0, 2, 3, 5, 6, 7}, w1, {1, 2, 5, 17, 100000}, 2));
    c.sequences.push_back(windows("small-replies-one-worker", {0, 3, 6}, w1, {3, 100000}, 1));
    std::vector<std::size_t> w2 = {1, 100, 1023, 1499, 2999, 3000, 3001, 3026, 3027, 3033, 3034, 5000, 6000, 9000}; if( t ) for( std::size_t i = 2900; i < 3100; ++i ) w2.push_back(i);
    c.sequences.push_back(windows("large-replies", {1, 4, 8}, w2, {500, 1000, 2999, 10000, 1000000}, 2));
    mc::chunked n; n.name = "replica-sizes"; n.count = 14 * 14 * 6 * 3 * 2; n.chunk = 1; n.arena = false; n.body = [t](u64 from, u64 to) { for( u64 i = from; i < to; ++i ) { mc::progress(i); repl_sizes(i); } };
    if( ! t ) n.count = 14 * 14 * 6 * 1;
    c.sequences.push_back(n);
    mc::chunked b; b.name = "replica-boundaries"; b.count = 360; b.chunk = 1; b.arena = false; b.body = [](u64 from, u64 to) { for( u64 i = from; i < to; ++i ) { mc::progress(i); repl_boundaries(i); } };
    c.sequences.push_back(b);
    c.scenarios.push_back(racing("races", t ? 3 : 2, 0, 2, {0, 1, 6}, {10, 70}));
    c.scenarios.push_back(racing("races-short-writes", 1, t ? 2 : 1, 2, {0, 3, 7}, {0, 45}));
    c.scenarios.push_back(racing("short-writes", 0, t ? 3 : 2, 2, {0, 1, 3, 6}, {0, 45}));
    c.scenarios.push_back(replica_races("replica", 1, 0, 3, 3, {300, 5000}, {1, 1000}, false));
    c.scenarios.push_back(replica_races("replica-full", 1, 0, 3, 3, {600000}, {1000, 700000}, false));
    c.scenarios.push_back(replica_races("replica-short-writes", t ? 1 : 0, 2, 2, 2, {20, 600000}, {50, 1 << 20}, true));
    c.scenarios.push_back(replica_races("replica-one-worker", 1, 0, 1, 2, {20, 600000}, {50, 1 << 19}, true));
    return mc::main_(argc, argv, c);
}
