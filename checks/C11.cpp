// C11: objects are evicted only under memory pressure, and then it works.
#include "lin.hpp"
using namespace ref;
static cmd U(int conn, bool bin = false) { cmd c; c.kind = 'U'; c.conn = conn; c.bin = bin; return c; }
static const string V(10000, 'v');

static unsigned long long stat(h::client& c, const string& name) {
    c.put("stats\r\n"); string r = c.values(); string t = "STAT " + name + " "; std::size_t p = r.find(t);
    if( p == string::npos ) mc::fail("stats does not report %s", name.c_str());
    return strtoull(r.c_str() + p + t.size(), nullptr, 10);
}
static const char* use_names[] = {"get", "gets", "append", "replace", "touch+get", "binary Get", "binary Append", "binary GaT", "touch", "prepend", "cas", "binary Touch", "binary Prepend", "binary ReplaceQ", "binary GetKQ", "set", "incr", "decr", "binary Incr", "binary Decr", "append of nothing", "mg"};
static string use(int kind) { return use_names[kind]; }
static const int USES = 21; static bool numeric(int kind) { return kind >= 16 && kind <= 19; }
struct hot {
    h::client& c; bclient& b; std::map<string, string> val; unsigned op = 1;
    void gone(const string& k, int kind) { mc::fail("the recently used object %s was evicted (%s)", k.c_str(), use(kind).c_str()); }
    void touch(const string& k, int kind) {
        switch( kind ) {
        case 0: case 1: case 4: {
            if( kind == 4 ) c.cmd("touch " + k + " 100000\r\n");
            c.put((kind == 1 ? "gets " : "get ") + k + "\r\n"); string r = c.values(); if( r.find(val[k]) == string::npos ) mc::fail("the recently used object %s was evicted (%s)", k.c_str(), use(kind).c_str()); break; }
        case 2: val[k] += "x"; if( c.cmd("append " + k + " 0 0 1\r\nx\r\n") != "STORED\r\n" ) mc::fail("the recently used object %s was evicted (%s)", k.c_str(), use(kind).c_str()); break;
        case 3: if( c.set(k, val[k], 0, 0, "replace") != "STORED\r\n" ) mc::fail("the recently used object %s was evicted (%s)", k.c_str(), use(kind).c_str()); break;
        case 5: { bresp r = b.call(bGet, k); if( r.status != 0 || r.value != val[k] ) mc::fail("the recently used object %s was evicted (%s)", k.c_str(), use(kind).c_str()); break; }
        case 6: { bresp r = b.call(bAppend, k, "", "y"); if( r.status != 0 ) mc::fail("the recently used object %s was evicted (%s)", k.c_str(), use(kind).c_str()); val[k] += "y"; break; }
        case 8: if( c.cmd("touch " + k + " 100000\r\n") != "TOUCHED\r\n" ) gone(k, kind); break;
        case 9: val[k] = "x" + val[k]; if( c.cmd("prepend " + k + " 0 0 1\r\nx\r\n") != "STORED\r\n" ) gone(k, kind); break;
        case 10: { c.put("gets " + k + "\r\n"); string r = c.values(); std::size_t e = r.find("\r\n"), q = r.rfind(' ', e); if( e == string::npos || r.find(val[k]) == string::npos ) gone(k, kind); val[k][0] ^= 1; c.put("cas " + k + " 0 0 " + std::to_string(val[k].size()) + " " + r.substr(q + 1, e - q - 1) + "\r\n" + val[k] + "\r\n"); if( c.line() != "STORED\r\n" ) gone(k, kind); break; }
        case 11: if( b.call(bTouch, k, be(100000, 4)).status != 0 ) gone(k, kind); break;
        case 12: if( b.call(bPrepend, k, "", "y").status != 0 ) gone(k, kind); val[k] = "y" + val[k]; break;
        case 13: val[k][1] ^= 1; b.bput(bReplaceQ, k, bset_extras(0, 0), val[k]); if( b.call(bNoop, "").op != bNoop ) gone(k, kind); break;
        case 14: { b.bput(bGetKQ, k); bresp r = b.call(bNoop, ""); if( r.op != bGetKQ || r.value != val[k] ) gone(k, kind); b.response(); break; }
        case 15: if( c.set(k, val[k], 0, 0, "set") != "STORED\r\n" ) gone(k, kind); break;
        case 16: case 17: if( c.cmd(string(kind == 16 ? "incr " : "decr ") + k + " 0\r\n") != "1000\r\n" ) gone(k, kind); break;
        case 18: case 19: { bresp r = b.call(kind == 18 ? bIncr : bDecr, k, be(0, 8) + be(0, 8) + be(0xffffffff, 4)); if( r.status != 0 || r.value != be(1000, 8) ) gone(k, kind); break; }
        case 20: if( c.cmd("append " + k + " 0 0 0\r\n\r\n") != "STORED\r\n" ) gone(k, kind); break;
        case 7: { bresp r = b.call(bGaT, k, be(100000, 4)); if( r.status != 0 || r.value != val[k] ) mc::fail("the recently used object %s was evicted (%s)", k.c_str(), use(kind).c_str()); break; }
        }
    }
};
// One case: some cold objects grow old, hot ones stay in use, then new
// objects push the memory over the limit (four large objects fit).
static const std::vector<unsigned> AGE = {12000, 40000, 130000};
static const u64 CASES = 2 * 3 * 3 * 2 * USES * 4 * 2;
struct setup { int gci, cold, locked, hots, kind, fresh, slow; unsigned age; };
static setup decode(u64 i) {
    setup s; s.gci = i % 2; i /= 2; s.age = AGE[i % 3]; i /= 3; s.locked = i % 3; i /= 3; s.hots = i % 2; i /= 2; s.kind = i % USES; i /= USES; s.fresh = 1 + i % 4; i /= 4; s.slow = i % 2;
    s.cold = numeric(s.kind) ? 4 : 4 - s.hots; return s;
}
static string describe(u64 i) { setup s = decode(i); char b[300]; snprintf(b, sizeof b, "gc_interval %d, %d cold objects aged %u ms, locked: %s, %d used object(s) (%s every %s), %d new objects", s.gci ? 10 : 1, s.cold, s.age, s.locked == 0 ? "none" : s.locked == 1 ? "a cold one" : "the first new one", s.hots, use(s.kind).c_str(), s.slow ? "4 s" : "0.5 s", s.fresh); return b; }
static void pressure(u64 i) {
    setup s = decode(i); mc::note("%s", describe(i).c_str());
    // Ages are counted in collections, and above the limit one runs about
    // every second: with four seconds between uses, require that the unused
    // objects are clearly older and that evicting them frees enough.
    if( s.slow && s.hots && (s.age < (s.gci ? 100000U : 20000U) || s.fresh > s.cold - (s.locked == 1 ? 1 : 0)) ) return;
    start_server(base_config(2, 5, "memory_limit = 45000\nheap_data_limit = 1M\ngc_interval = " + string(s.gci ? "10\n" : "1\n")));
    h::client c(PORT, 0), o(PORT, 2); bclient b(PORT, 1); hot ht{c, b, {}, 1};
    h::client lk(PORT, 3);
    for( int k = 0; k < s.cold; ++k ) o.set("cold" + std::to_string(k), V);
    for( int k = 0; k < s.hots; ++k ) { string n = "hot" + std::to_string(k); ht.val[n] = numeric(s.kind) ? string("1000") : V; o.set(n, ht.val[n]); }
    if( s.locked == 1 ) lk.cmd("lock cold0\r\n");
    unsigned step = s.slow ? 4000 : 500;
    if( s.hots == 0 ) step = 4000;
    auto pass = [&](unsigned ms) { for( unsigned t = 0; t < ms; t += step ) { for( auto& h: ht.val ) ht.touch(h.first, s.kind); mc::sleep_ms(step); } };
    pass(s.age);
    if( stat(o, "evictions") != 0 ) mc::fail("objects were evicted although the limit was never exceeded");
    for( int k = 0; k < s.fresh; ++k ) { string n = "new" + std::to_string(k); o.set(n, V); if( k == 0 && s.locked == 2 ) lk.cmd("lock new0\r\n"); }
    pass(30000);
    // now the limit must be respected again, the used and locked objects kept
    auto alive = [&](const string& k) { return o.val(k) != "<none>"; };
    if( stat(o, "bytes") > 45000 ) mc::fail("memory use is still %llu (limit 45000) 30 s after the limit was exceeded", stat(o, "bytes"));
    if( stat(o, "evictions") == 0 ) mc::fail("nothing was evicted");
    std::set<string> left;
    for( int k = 0; k < s.cold; ++k ) if( alive("cold" + std::to_string(k)) ) left.insert("cold" + std::to_string(k));
    for( int k = 0; k < s.fresh; ++k ) if( alive("new" + std::to_string(k)) ) left.insert("new" + std::to_string(k));
    for( auto& h: ht.val ) { ht.touch(h.first, 5); if( ! numeric(s.kind) ) left.insert(h.first); }
    if( left.size() > 4 ) mc::fail("%zu large objects remain", left.size());
    if( s.locked == 1 && ! left.count("cold0") ) mc::fail("a locked object was evicted");
    if( s.locked == 2 && ! left.count("new0") ) mc::fail("a locked object was evicted");
    // and nothing more is evicted below the limit
    unsigned long long ev = stat(o, "evictions");
    pass(20000); mc::sleep_ms(40000);
    for( auto& n: left ) if( ! alive(n) ) mc::fail("%s was evicted although memory use is below the limit", n.c_str());
    if( stat(o, "evictions") != ev ) mc::fail("evictions continue below the limit");
    mc::visit_state(mc::mix(i, left.size()));
    stop_server();
}
// An object locked for very long must not keep others in memory.
static void long_lock(u64 i) {
    int gci = i % 2 ? 1800 : 600; int hours = 1 + i / 2 % 3; bool under = i / 6;
    mc::note("gc_interval %d, lock held for %d h", gci, hours * 2);
    start_server(base_config(2, 5, "memory_limit = 45000\nheap_data_limit = 1M\ngc_interval = " + std::to_string(gci) + "\n"));
    h::client o(PORT, 2), lk(PORT, 3);
    o.set("locked", V); lk.cmd("lock locked\r\n"); if( under ) o.set("old", V);
    mc::set_step_limit(100000000);
    for( int k = 0; k < hours * 8; ++k ) { mc::set_time(mc::now_sec() + 890); mc::sleep_ms(10000); }
    for( int k = 0; k < 6; ++k ) o.set("new" + std::to_string(k), V);
    mc::set_time(mc::now_sec() + gci + 10); mc::sleep_ms(60000);
    if( stat(o, "bytes") > 45000 ) mc::fail("memory use stays at %llu (limit 45000): an object locked for %d h keeps the others from being evicted", stat(o, "bytes"), hours * 2);
    if( o.val("locked") == "<none>" ) mc::fail("a locked object was evicted");
    mc::visit_state(i);
    stop_server();
}
// Locking or using an object while the evicting collection runs.
static mc::scenario racing(const string& name, int bound) {
    mc::scenario s; s.name = name; s.sched_bound = bound;
    s.body = [=] {
        start_server(base_config(2, 2, "memory_limit = 45000\nheap_data_limit = 1M\ngc_interval = 3\n"));
        h::client o(PORT, 0), lk(PORT, 1); bclient b(PORT, 2);
        for( int k = 0; k < 4; ++k ) o.set("k" + std::to_string(k), V);
        int kind = mc::choose(5, "use");
        mc::sleep_ms(9000);
        o.set("k4", V); o.set("k5", V);
        mc::sleep_ms(2500);                 // accounted now: over the limit
        mc::explore_schedules(true);
        mc::advance_ms(3000);
        static const string cmds[] = {"lock k0\r\n", "lock k1\r\nget k1\r\n", "set k0 0 0 3\r\nnew\r\n", "append k2 0 0 1\r\nx\r\nlock k2\r\n", "lock k3\r\nset k3 0 0 1\r\n1\r\nunlock k3\r\n"};
        lk.send(cmds[kind]);
        mc::wait_idle_for(100);
        mc::explore_schedules(false);
        string r = lk.take();
        mc::note("reply %s", quote(r, 60).c_str());
        mc::sleep_ms(15000);
        static const char* key[] = {"k0", "k1", "k0", "k2", "k3"};
        bool locked = kind == 3 ? r.find("\r\nOK\r\n") != string::npos : kind == 4 || kind == 2 ? false : r.compare(0, 4, "OK\r\n") == 0;
        if( locked ) {
            if( o.val(key[kind]) == "<none>" ) mc::fail("the locked object %s was evicted", key[kind]);
            if( kind == 1 && r.find(V) == string::npos ) mc::fail("the object just locked is gone");
            lk.cmd(string("unlock ") + key[kind] + "\r\n");
        }
        if( stat(o, "bytes") > 45000 ) mc::fail("memory use is still above the limit");
        stop_server();
    };
    return s;
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C11"; bool t = mc::thorough();
    c.rule = "all command histories up to the stated depth below the limit (nothing may disappear), every combination of ageing, locking, using and adding objects around the limit (the limit is respected again, used and locked objects survive, nothing is evicted afterwards), and all schedules within the bound of commands against the evicting collection";
    {
        space s; s.name = "below-limit"; s.cfg = base_config(2, 5, "memory_limit = 64000\nheap_data_limit = 1M\ngc_interval = 1\n"); s.depth = t ? 6 : 4; s.keys = {"a", "b", "c"};
        s.pre = {T('s', "c", V, 1)}; s.chunk = 40;
        // every case deletes what it stored, so memory stays below the limit
        s.alphabet = {T('s', "a", V, 1), T('s', "b", V, 2), T('A', "c", string(500, 'x')), T('g', "c"), wait_ms(7000), T('l', "c"), on(1, B('s', "a", V, 3)), T('d', "b"), T('d', "c")};
        auto S = std::make_shared<space>(s); mc::chunked ch = explore(s);
        ch.body = [S](u64 from, u64 to) {
            start_server(S->cfg); driver d; d.get(0); d.get(1);
            for( u64 i = from; i < to; ++i ) {
                mc::progress(i); d.next_case("k" + std::to_string(i) + "_");
                for( auto& x: S->pre ) d.run(x);
                for( int k: digits(i, S->alphabet.size(), S->depth) ) d.run(S->alphabet[k]);
                d.run(wait_ms(10000));
                for( auto k: S->keys ) d.run(on(9, T('G', k)));
                d.raw(U(0)); d.flush_all(); for( auto k: S->keys ) d.run(T('d', k)); d.flush_all();
            }
            stop_server();
        };
        c.sequences.push_back(ch);
    }
    mc::chunked p; p.name = "pressure"; p.count = CASES; p.chunk = 1; p.arena = false; p.body = [](u64 from, u64 to) { for( u64 i = from; i < to; ++i ) { mc::progress(i); pressure(i); } };
    c.sequences.push_back(p);
    mc::chunked l; l.name = "long-lock"; l.count = 12; l.chunk = 1; l.arena = false; l.body = [](u64 from, u64 to) { for( u64 i = from; i < to; ++i ) { mc::progress(i); long_lock(i); } };
    c.sequences.push_back(l);
    c.scenarios.push_back(racing("evicting", 2));
    return mc::main_(argc, argv, c);
}
