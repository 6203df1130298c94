// C03: replies do not depend on how the byte stream is cut.
#include "ref.hpp"
#include "cref.hpp"
using namespace ref;

static string cfg() { return base_config(2, 509, "max_data_size = 16M\n"); }
static std::vector<cmd> text_pipeline() {
    return {T('s', "a", "12\r\nset q 0 0 1\r\nx", 7), T('g', "a"), quiet(T('s', "b", "41")), num('+', "b", 1), T('A', "b", "\r\n"), T('G', "b"), T('l', "a"), T('u', "a"), quiet(T('d', "a")), T('g', "a"), T('P', "b", "END\r\n"),
            [] { cmd x = T('g', "b"); x.key2 = "a"; return x; }(), T('d', "b"), T('n', "")};
}
static std::vector<cmd> bin_pipeline() {
    return {B('s', "a", "1\x80\r\n", 5), quiet(B('s', "b", "99")), withk(quiet(B('g', "b", "", 0, -1))), quiet(B('g', "zz", "", 0, -1)), num('+', "b", 1, true), B('L', "a", "", 0, -1), B('R', "a", "\x80\x01\x02", 9), quiet(B('d', "a")), B('d', "b"), B('n', "")};
}
static std::vector<cmd> small_text() { return {T('s', "a", "\r\n1", 3), quiet(num('+', "a", 1)), T('g', "a"), quiet(T('d', "a")), T('g', "a")}; }
static std::vector<cmd> small_bin() { return {quiet(B('s', "a", "7")), withk(quiet(B('g', "a", "", 0, -1))), B('d', "a")}; }

struct pipeline { string bytes; std::vector<std::size_t> end, nexp; std::vector<store> snap; std::vector<expect> exp; };
static pipeline build(driver& d, const std::vector<cmd>& cs) {
    pipeline p; d.capture = true; d.captured.clear();
    p.snap.push_back(d.st); p.end.push_back(0); p.nexp.push_back(0);
    for( auto& c: cs ) { d.raw(c); p.end.push_back(d.captured.size()); p.nexp.push_back(d.cons[0].q.size()); p.snap.push_back(d.st); }
    d.capture = false; p.bytes = d.captured; p.exp.swap(d.cons[0].q);
    return p;
}
static string fixed_prefix(u64 i) { char b[16]; snprintf(b, sizeof b, "k%07llu", (unsigned long long)i); return b; }

// all cuts into three (two when equal) segments
static mc::chunked cuts(const string& name, std::vector<cmd> cs, bool bin) {
    std::size_t L = 0;
    auto S = std::make_shared<std::vector<cmd>>(cs);
    // measure
    {
        // without a server: the driver only needs the byte string
        driver d; d.prefix = fixed_prefix(0); d.capture = true;
        d.offline = true; for( auto& c: cs ) d.raw(c); L = d.captured.size();
    }
    mc::chunked c; c.name = name; c.count = L * (L + 1) / 2; c.chunk = 1000; c.arena = false;
    c.body = [S, L, bin](u64 from, u64 to) {
        start_server(cfg());
        driver d; d.get(0); 
        for( u64 n = from; n < to; ++n ) {
            mc::progress(n);
            // n -> (i, j), 1 <= i <= j <= L
            u64 i = 1, r = n; while( r >= L - i + 1 ) { r -= L - i + 1; ++i; } u64 j = i + r;
            d.next_case(fixed_prefix(n));
            d.trace = "pipeline cut at " + std::to_string(i) + " and " + std::to_string(j);
            pipeline p = build(d, *S);
            MC_REQUIRE(p.bytes.size() == L, "harness: pipeline length varies");
            std::size_t cut[3] = {(std::size_t)i, (std::size_t)j, L}, pos = 0, done = 0;
            for( int k = 0; k < 3; ++k ) {
                if( cut[k] == pos ) continue;
                d.cons[0].c->send(p.bytes.substr(pos, cut[k] - pos)); pos = cut[k];
                std::size_t m = 0; while( m + 1 < p.end.size() && p.end[m + 1] <= pos ) ++m;
                d.st = p.snap[m];
                d.cons[0].q.assign(p.exp.begin() + done, p.exp.begin() + p.nexp[m]); done = p.nexp[m];
                d.flush(0);
                if( i == j || k == 0 ) for( const char* key: {"a", "b"} ) { cmd x = bin ? B('g', key, "", 0, -1) : T('G', key); x.conn = 9; d.raw(x); d.flush(9); }
                mc::count_transition();
            }
            mc::visit_state(mc::mix(mc::hash_str("cut"), i * 100000 + j));
            { cmd x; x.kind = 'U'; x.bin = bin; d.raw(x); d.flush(0); }
            d.st.m.clear();
        }
        stop_server();
    };
    return c;
}

// big values: cut at interesting offsets only
static mc::chunked big_cuts(bool bin) {
    static const std::size_t sizes[] = {3000000, 3300000, 6000000};
    mc::chunked c; c.name = bin ? "large-binary" : "large-text"; const u64 N = 16; c.count = 3 * N * N; c.chunk = 8; c.arena = false;
    c.body = [bin, N](u64 from, u64 to) {
        start_server(cfg());
        driver d; d.st.max_data = 16 << 20; d.get(0);
        for( u64 n = from; n < to; ++n ) {
            mc::progress(n);
            std::size_t size = sizes[n / (N * N)]; u64 a = n / N % N, b = n % N;
            d.next_case(fixed_prefix(n)); d.trace = "large value";
            string v(size, 'v'); for( std::size_t k = 0; k < size; k += 997 ) v[k] = '\r', v[k + 1] = '\n';
            std::vector<cmd> cs = {bin ? B('s', "a", v, 5) : T('s', "a", v, 5), bin ? B('g', "a", "", 0, -1) : T('G', "a"), bin ? B('d', "a") : T('d', "a")};
            pipeline p = build(d, cs);
            std::size_t L = p.bytes.size(), h = p.end[1] - size;
            std::size_t pts[16] = {1, 10, h - 3, h - 2, h - 1, h, h + 1, (2 << 20) - 1, 2 << 20, (2 << 20) + 1, p.end[1] - 2, p.end[1] - 1, p.end[1], p.end[1] + 1, L - 1, L};
            if( a > b ) continue;
            std::size_t cut[3] = {pts[a], pts[b], L}, pos = 0; 
            for( auto k: cut ) if( k > pos ) { d.cons[0].c->send(p.bytes.substr(pos, k - pos)); pos = k; mc::wait_idle(); mc::count_transition(); }
            d.cons[0].q = p.exp; d.flush(0); mc::visit_state(n);
            d.st.m.clear(); d.ids.clear(); d.seen.clear();
        }
        stop_server();
    };
    return c;
}

// requests just within the size limit, with others behind them in the same segment
static mc::chunked limit_cuts() {
    static const std::size_t gaps[] = {0, 1, 9000, 1 << 20}, extras[] = {0, 11 * 4000, 11 * 250000}; static const u64 NC = 8;
    mc::chunked c; c.name = "size-limit"; c.count = 2 * 4 * 3 * NC; c.chunk = 4; c.arena = false;
    c.body = [](u64 from, u64 to) {
        mc::set_step_limit(500000000); start_server(base_config(1, 2, "max_data_size = 40M\ngc_interval = 100000\n"));
        for( u64 n = from; n < to; ++n ) {
            mc::progress(n); client cl(PORT, 0);
            bool b = n % 2; std::size_t L = (30u << 20) - gaps[n / 2 % 4], ex = extras[n / 8 % 3], j = n / 24; string q;
            if( b ) { q = bin(bSet, "k", bset_extras(1, 0), "v"); std::size_t body = L - 24; for( int i = 0; i < 4; ++i ) q[8 + i] = char(body >> (24 - 8 * i)); q.resize(L, 'v'); }
            else { string h = "set k 1 0 " + std::to_string(L - 23) + "\r\n"; if( h.size() + L - 23 + 2 > L ) h = "set k 1 0 " + std::to_string(L - 20 - 2) + "\r\n"; std::size_t v = atol(h.c_str() + 10); q = h + string(v, 'v') + "\r\n"; if( q.size() > (30u << 20) ) mc::fail("harness: length"); }
            std::size_t one = q.size(); string all = q; for( std::size_t i = 0; i < ex; i += 11 ) all += "get nokey\r\n";
            std::size_t pts[NC] = {all.size(), one - 1, one, one + 1, one - 5000, (one + all.size()) / 2, 2 << 20, 1000}; std::size_t k = std::min(pts[j], all.size());
            cl.set_autoread(false); cl.send(all.substr(0, k)); mc::wait_idle(); string got = cl.take(); if( k < all.size() ) { cl.send(all.substr(k)); mc::wait_idle(); got += cl.take(); }
            std::size_t first = b ? 24 : 8, want = first + ex / 11 * 5;
            if( got.size() != want || (b ? got[7] != 0 || got[6] != 0 : got.compare(0, 8, "STORED\r\n") != 0) || cl.server_closed() ) mc::fail("a %s request of %zu bytes with %zu requests behind it, cut at %zu: %zu bytes of replies instead of %zu, \"%s\"%s", b ? "binary" : "text", one, ex / 11, k, got.size(), want, quote(got, 60).c_str(), cl.server_closed() ? ", and the connection is closed" : "");
            for( std::size_t i = first; i < got.size(); i += 5 ) if( got.compare(i, 5, "END\r\n") ) mc::fail("wrong reply in a pipeline behind a request of %zu bytes", one);
            mc::visit_state(mc::mix(31, n)); mc::count_transition(); cl.send("quit\r\n"); mc::wait_idle();
        }
        stop_server();
    };
    return c;
}

// reads of many keys: command lines of every size class
static mc::chunked long_lines() {
    static const std::size_t lens[] = {255, 256, 257, 1023, 1024, 1025, 2047, 2048, 2049, 2050, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385, 32768, 65535, 65536, 65537, 100000, 262145, 1048575, 1048576, 1048577, 2097151, 2097152, 2097153, 2500000, 3300000};
    const u64 NL = sizeof lens / sizeof lens[0], NC = 8;
    mc::chunked c; c.name = "long-lines"; c.count = NL * NC; c.chunk = 8; c.arena = false;
    c.body = [=](u64 from, u64 to) {
        start_server(cfg()); client cl(PORT, 0); cl.send("set hit 7 0 3\r\nabc\r\n"); cl.recv_until("STORED\r\n");
        for( u64 n = from; n < to; ++n ) {
            mc::progress(n);
            std::size_t L = lens[n / NC];
            string line = n % 2 ? "gets hit" : "get hit"; string id;
            if( n % 2 ) { cl.send("gets hit\r\n"); mc::wait_idle(); string r = cl.take(); std::size_t a = r.find(" 3 ") + 3; id = " " + r.substr(a, r.find("\r\n") - a); }
            while( line.size() + 2 + 4 < L ) { std::size_t k = std::min<std::size_t>(200, L - 2 - 4 - line.size()); if( k == 1 ) break; line += " " + string(k - 1, 'm'); }
            line += " hit\r\n";
            string all = line + "get hit\r\n", got; std::size_t pts[8] = {1, line.size() - 3, line.size() - 2, line.size() - 1, line.size(), line.size() + 1, line.size() / 2, all.size()};
            std::size_t k = pts[n % NC];
            cl.send(all.substr(0, k)); mc::wait_idle(); got = cl.take();
            string v = "VALUE hit 7 3" + id + "\r\nabc\r\n", e = v + v + "END\r\n", f = "VALUE hit 7 3\r\nabc\r\nEND\r\n";
            MC_REQUIRE(got == (k == all.size() ? e + f : k >= line.size() ? e : string()), "command line of %zu bytes cut at %zu: got \"%s\"", line.size(), k, quote(got, 200).c_str());
            if( k < all.size() ) { cl.send(all.substr(k)); mc::wait_idle(); got += cl.take(); }
            MC_REQUIRE(got == e + f, "command line of %zu bytes cut at %zu: got \"%s\"", line.size(), k, quote(got, 200).c_str());
            mc::visit_state(mc::mix(9, n)); mc::count_transition();
        }
        stop_server();
    };
    return c;
}

static mc::chunked counter_cuts() {
    using namespace cref;
    auto make = [](const string& px) { return cacq(px, 3, 5, 1) + creq(cNoop, "", 2) + cget(px, 3) + cacq(px, 3, 5, 4) + crel(px, 2, 5) + crel(px, 2, 6) + crel(px, 1, 7) + cget(px, 8); };
    auto expected = [](const string&) {
        auto r = [](int op, int st, const string& body, u32 o) { return be(0x91, 1) + be(op, 1) + be(st, 1) + be(0, 1) + be(body.size(), 4) + be(o, 4) + body; };
        return std::vector<string>{r(cAcquire, 0, be(3, 4), 1), r(cNoop, 0, "", 2), r(cGet, 0, be(3, 4), 3), r(cAcquire, sNotAvailable, "Resource not available", 4), r(cRelease, 0, "", 5), r(cRelease, sNotAcquired, "Not acquired", 6), r(cRelease, 0, "", 7), r(cGet, 0, be(0, 4), 8)};
    };
    std::size_t L = make(fixed_prefix(0)).size();
    mc::chunked c; c.name = "counter"; c.count = L * (L + 1) / 2; c.chunk = 1000; c.arena = false;
    c.body = [=](u64 from, u64 to) {
        start_server(cfg() + "counter.enable = true\ncounter.buckets = 101\n");
        mc::block_until([]{ return mc::listening(CNT); }, "counter listener", 30000);
        cclient cl(0);
        for( u64 n = from; n < to; ++n ) {
            mc::progress(n);
            u64 i = 1, r = n; while( r >= L - i + 1 ) { r -= L - i + 1; ++i; } u64 j = i + r;
            string px = fixed_prefix(n), b = make(px); auto e = expected(px); string all; for( auto& x: e ) all += x;
            std::size_t pos = 0; string got;
            for( u64 k: {i, j, (u64)L} ) if( k > pos ) { cl.send(b.substr(pos, k - pos)); pos = k; mc::wait_idle(); got += cl.take(); mc::count_transition(); MC_REQUIRE(all.compare(0, got.size(), got) == 0, "counter pipeline cut at %d,%d: wrong replies \"%s\"", (int)i, (int)j, quote(got, 600).c_str()); }
            MC_REQUIRE(got == all, "counter pipeline cut at %d,%d: replies missing: got \"%s\"", (int)i, (int)j, quote(got, 600).c_str());
            mc::visit_state(mc::mix(5, n));
        }
        stop_server();
    };
    return c;
}

// segments arriving while earlier ones are being processed
static mc::scenario racing(const string& name, std::vector<cmd> cs, int workers, bool competitor, int segs, int bound) {
    mc::scenario s; s.name = name; s.sched_bound = bound;
    s.body = [=] {
        start_server(base_config(workers, 2));
        driver d; d.prefix = "k"; d.get(0); client o; if( competitor ) o = client(PORT, 5);
        mc::wait_idle();
        pipeline p = build(d, cs); std::size_t L = p.bytes.size();
        // cut inside and exactly between requests
        std::vector<std::size_t> pts = {1}; for( auto e: p.end ) if( e > 0 && e < L ) { pts.push_back(e); if( e + 2 < L ) pts.push_back(e + 2); }
        std::size_t a = pts[mc::choose(pts.size(), "first cut")], b = segs > 2 ? std::min(L, a + 1 + 5 * mc::choose(3, "second segment")) : L;
        mc::explore_schedules(true);
        if( competitor ) o.send("get zz\r\n");
        d.cons[0].c->send(p.bytes.substr(0, a));
        d.cons[0].c->send(p.bytes.substr(a, b - a));
        if( b < L ) d.cons[0].c->send(p.bytes.substr(b));
        if( competitor ) { string r = o.recv(5); MC_REQUIRE(r == "END\r\n", "other connection got \"%s\"", quote(r).c_str()); }
        mc::wait_idle_for(3000);
        mc::explore_schedules(false);
        d.trace = "segments [" + std::to_string(a) + "," + std::to_string(b) + "]";
        d.cons[0].q = p.exp; d.flush(0);
        stop_server();
    };
    return s;
}

int main(int argc, char** argv) {
    mc::check c; c.property = "C03";
    c.rule = "every way to cut the pipelines into up to three segments (with the effect of each prefix observed by a second connection), interesting cuts of multi-megabyte requests, and every schedule up to the preemption bound in which later segments arrive while earlier ones are processed";
    c.sequences.push_back(cuts("text", mc::thorough() ? text_pipeline() : std::vector<cmd>(text_pipeline()), false));
    c.sequences.push_back(cuts("binary", bin_pipeline(), true));
    c.sequences.push_back(counter_cuts());
    c.sequences.push_back(long_lines());
    c.sequences.push_back(big_cuts(false)); c.sequences.push_back(limit_cuts()); c.sequences.push_back(big_cuts(true));
    c.scenarios.push_back(racing("racing-text", small_text(), 1, false, 2, 2));
    c.scenarios.push_back(racing("racing-text-3", small_text(), 2, false, 3, 1));
    c.scenarios.push_back(racing("racing-binary", small_bin(), 2, false, 2, 2));
    c.scenarios.push_back(racing("racing-competitor", small_bin(), 1, true, 2, 1));
    return mc::main_(argc, argv, c);
}
