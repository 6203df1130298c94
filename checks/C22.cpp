// C22: counter requests behave as documented after every history.
#include "cref.hpp"
using namespace cref;
static string cfg() { return h::base_config(2, 2, "counter.enable = true\ncounter.buckets = 3\n"); }
static std::vector<cop> alphabet() {
    const u32 M = 0xffffffffu, H = 0x80000000u;
    return {A(0, "a", 1, 2), A(0, "a", 2, 3), A(0, "a", M, M), A(0, "a", H, M), A(1, "a", 1, 3), A(1, "a", 2, M), A(1, "a", H, H), A(1, "a", M, M), A(0, "b", 1, 1), A(0, "a", 3, 2), A(0, "a", 0, 5), A(1, "", 1, 2),
        R(0, "a", 1), R(0, "a", 2), R(0, "a", M), R(1, "a", 1), R(1, "a", H), R(0, "b", 1), R(0, "a", 0), R(1, "a", 0), R(1, "", 1), G(0, "a"), K('d', 1), K('x', 0), K('X', 1)};
}
static mc::chunked histories(const string& name, std::vector<cop> al, int depth) {
    u64 n = 1; for( int k = 0; k < depth; ++k ) n *= al.size();
    mc::chunked c; c.name = name; c.count = n; c.chunk = std::max<u64>(20, n / 400); c.arena = false;
    c.body = [=](u64 from, u64 to) {
        h::start_server(cfg()); mc::block_until([]{ return mc::listening(CNT); }, "counter port"); std::map<int, std::unique_ptr<cclient>> cl; cclient obs(9); model m;
        auto con = [&](int i) -> cclient& { if( ! cl[i] ) cl[i].reset(new cclient(i)); return *cl[i]; };
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); string prefix = "k" + std::to_string(i) + "_", trace; m = model{};
            u64 x = i;
            auto look = [&](cclient& c) { auto d = c.dump(); std::size_t k = 0; for( auto& r: d ) if( r.first.compare(0, prefix.size(), prefix) == 0 ) { ++k; if( ! m.total.count(r.first) ) mc::fail("counter %s was never acquired, but is listed", r.first.c_str()); if( r.second.cur != m.total[r.first] || r.second.peak != m.peak[r.first] ) mc::fail("dump reports %u peak %u for %s, expected %llu peak %llu; after %s", r.second.cur, r.second.peak, r.first.c_str(), (unsigned long long)m.total[r.first], (unsigned long long)m.peak[r.first], trace.c_str()); } if( k != m.total.size() ) mc::fail("dump lists %zu of %zu counters; after %s", k, m.total.size(), trace.c_str()); };
            for( int k = 0; k < depth; ++k ) {
                const cop& o = al[x % al.size()]; x /= al.size(); trace += o.show() + "; ";
                if( o.kind == 'd' ) look(con(o.conn));
                else if( o.kind == 'x' || o.kind == 'X' ) { cclient& c = con(o.conn); if( o.kind == 'x' ) { c.close(); mc::wait_idle(); } else { c.reset(); mc::sleep_ms(5000); } m.gone(o.conn); cl[o.conn].reset(); }
                else { auto e = expected(m, o, prefix); cclient& c = con(o.conn); u32 q = c.seq++; cresp r = c.call(o.show(), bytes(o, prefix, q), q, opcode(o.kind)); if( ! agrees(e, r) ) mc::fail("%s answered %s, expected status %02x value %s; after %s", o.show().c_str(), show(r).c_str(), e.first, quote(e.second).c_str(), trace.c_str()); if( r.status != 0 && r.body.empty() ) mc::fail("error response without message"); }
                mc::visit_state(m.hash()); mc::count_transition();
            }
            for( auto nm: {"a", "b"} ) { auto e = m.get(prefix + nm); cresp r = obs.getc(prefix + nm); if( ! agrees(e, r) ) mc::fail("final consumption of %s is %s, expected status %02x %s; after %s", nm, show(r).c_str(), e.first, quote(e.second).c_str(), trace.c_str()); }
            if( i % 16 == 0 ) look(obs);
            // give everything back
            for( auto& p: m.held ) for( auto& q: p.second ) if( q.second ) { cresp r = con(p.first).release(q.first, q.second); if( r.status != 0 ) mc::fail("the holder cannot release %llu of %s: %s; after %s", (unsigned long long)q.second, q.first.c_str(), show(r).c_str(), trace.c_str()); }
        }
        h::stop_server();
    };
    return c;
}
// names of every kind, pipelines, and independence from the memcache keys
static void names(u64 i) {
    h::start_server(cfg()); mc::block_until([]{ return mc::listening(CNT); }, "counter port"); cclient c(1), d(2); h::client mcl(PORT, 3);
    static const std::size_t LEN[] = {1, 2, 249, 250, 251, 255, 256, 1000, 32767, 32768, 65534, 65535};
    string n(LEN[i % 12], 'n'); if( i / 12 % 3 == 1 ) n[0] = '\0'; if( i / 12 % 3 == 2 ) n[n.size() - 1] = (char)0xff;
    string near = n; near[near.size() - 1] ^= 1;
    auto st = [&](const cresp& r, int s, const char* what) { if( r.status != s ) mc::fail("%s answered %s", what, show(r).c_str()); };
    st(c.getc(n), sNotFound, "get before acquire"); st(c.release(n, 0), sNotFound, "release before acquire");
    st(c.acquire(n, 3, 5), sOK, "acquire"); st(d.acquire(n, 3, 5), sNotAvailable, "acquire beyond"); st(d.acquire(n, 2, 5), sOK, "acquire rest"); st(d.acquire(n, 1, 5), sNotAvailable, "acquire when full"); st(d.acquire(n, 1, 6), sOK, "acquire with a larger maximum"); st(d.acquire(n, 1, 4), sNotAvailable, "acquire with a smaller maximum");
    st(c.getc(near), sNotFound, "another name"); if( n.size() < 65535 ) st(c.getc(n + "x"), sNotFound, "longer name"); if( n.size() > 1 ) st(c.getc(n.substr(0, n.size() - 1)), sNotFound, "shorter name");
    cresp g = d.getc(n); if( g.status != 0 || g.body != be(6, 4) ) mc::fail("consumption is %s", show(g).c_str());
    if( n.size() <= 250 && i / 12 % 3 == 0 ) { if( mcl.val(n) != "<none>" || mcl.set(n, "v") != "STORED\r\n" || c.getc(n).body != be(6, 4) ) mc::fail("counter and memcache names interfere"); }
    auto rows = c.dump(); if( rows.size() != 1 || rows.begin()->first != n || rows.begin()->second.cur != 6 || rows.begin()->second.peak != 6 ) mc::fail("dump is wrong");
    st(c.release(n, 4), sNotAcquired, "release of more than held"); st(c.release(n, 3), sOK, "release"); st(c.release(n, 1), sNotAcquired, "release again"); st(c.release(n, 0), sOK, "release of nothing");
    // a pipeline is answered in order
    string p; std::vector<int> want; u32 o = 1000;
    for( int k = 0; k < 6; ++k ) { p += cacq(n, 1, 6, o++) + cget(n, o) + crel(n, 1, o + 1) + creq(cNoop, "", o + 2) + creq(0x55, "xyz", o + 3); o += 4; }
    c.send(p); string r = c.recv(6 * (16 + 16 + 12 + 12 + 12 + string("Unknown command").size()));
    cresp x; o = 1000; while( ! r.empty() ) { if( ! parse_c(r, x) ) mc::fail("bad pipeline response"); if( x.opaque != o++ ) mc::fail("misordered: %s", show(x).c_str()); int want = x.op == 0x55 ? sUnknown : sOK; if( x.status != want ) mc::fail("pipeline: %s", show(x).c_str()); }
    mc::visit_state(i); h::stop_server();
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C22"; bool t = mc::thorough();
    c.rule = "all histories of counter requests (extreme 32-bit amounts, zero, invalid, two connections, closing and resetting connections) up to the stated depth compared with a reference model; and all name lengths around the limits";
    c.sequences.push_back(histories("histories", alphabet(), t ? 4 : 3));
    {
        const u32 M = 0xffffffffu;
        std::vector<cop> s = {A(0, "a", 1, 2), A(1, "a", 1, 2), A(0, "a", M, M), A(1, "a", M - 1, M), R(0, "a", 1), R(1, "a", 1), R(0, "a", M), K('x', 0), K('X', 1), G(1, "a")};
        c.sequences.push_back(histories("deep", s, t ? 6 : 4));
    }
    mc::chunked n; n.name = "names"; n.count = 36; n.chunk = 1; n.body = [](u64 from, u64 to) { for( u64 i = from; i < to; ++i ) { mc::progress(i); names(i); } };
    c.sequences.push_back(n);
    return mc::main_(argc, argv, c);
}
