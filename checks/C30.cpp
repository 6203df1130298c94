// C30: statistics tell the truth.
#include "repl.hpp"
#include "cref.hpp"
#include "ends.hpp"
using namespace ref;
typedef std::map<string, string> figs;
static std::map<int, string> BN() {
    std::map<int, string> n; static const char* a[] = {"Get", "Set", "Add", "Replace", "Delete", "Increment", "Decrement", "Quit", "Flush", "GetQ", "Noop", "Version", "GetK", "GetKQ", "Append", "Prepend", "Stat", "SetQ", "AddQ", "ReplaceQ", "DeleteQ", "IncrementQ", "DecrementQ", "QuitQ", "FlushQ", "AppendQ", "PrependQ"};
    for( int i = 0; i < 27; ++i ) n[i] = a[i];
    n[bTouch] = "Touch"; n[bGaT] = "GaT"; n[bGaTQ] = "GaTQ"; n[bGaTK] = "GaTK"; n[bGaTKQ] = "GaTKQ"; static const char* l[] = {"Lock", "LockQ", "Unlock", "UnlockQ", "UnlockAll", "UnlockAllQ", "LaG", "LaGQ", "LaGK", "LaGKQ", "RaU", "RaUQ"}; for( int i = 0; i < 12; ++i ) n[bLock + i] = l[i]; n[bKeys] = "Keys"; return n;
}
static const std::map<int, string>& binname() { static auto m = BN(); return m; }
static string opname(const string& bytes) { if( (unsigned char)bytes[0] == 0x80 ) return "binary:" + binname().at((unsigned char)bytes[1]); return "text:" + bytes.substr(0, bytes.find_first_of(" \r")); }

// ---- reading the figures in both protocols
static figs text_stats(h::client& c, const string& arg = "") {
    c.send(arg.empty() ? "stats\r\n" : "stats " + arg + "\r\n"); string s = c.recv_until("END\r\n"); figs f; std::size_t p = 0;
    for(;;) { std::size_t e = s.find("\r\n", p); string l = s.substr(p, e - p); p = e + 2; if( l == "END" ) break; if( l.compare(0, 5, "STAT ") ) mc::fail("bad line in stats: \"%s\"", quote(l).c_str()); std::size_t sp = l.find(' ', 5); if( sp == string::npos ) mc::fail("bad line in stats: \"%s\"", quote(l).c_str()); string n = l.substr(5, sp - 5); if( f.count(n) ) mc::fail("stats reports %s twice", n.c_str()); f[n] = l.substr(sp + 1); }
    return f;
}
static figs bin_stats(bclient& b, const string& arg = "") {
    b.send(bin(bStat, arg, "", "", 0, 77)); figs f;
    for(;;) { bresp r = b.response(); if( r.op != bStat || r.opaque != 77 || r.status != 0 ) mc::fail("bad Stat response: %s", show(r).c_str()); if( r.key.empty() ) return f; if( f.count(r.key) ) mc::fail("Stat reports %s twice", r.key.c_str()); f[r.key] = r.value; }
}
static u64 num(const figs& f, const string& n) { auto it = f.find(n); if( it == f.end() ) mc::fail("%s is not reported", n.c_str()); const string& v = it->second; if( v.empty() || v.find_first_not_of("0123456789") != string::npos || v.size() > 15 ) mc::fail("%s is reported as \"%s\"", n.c_str(), v.c_str()); return strtoull(v.c_str(), nullptr, 10); }
static void is(const figs& f, const string& n, u64 want, const string& after) { u64 v = num(f, n); if( v != want ) mc::fail("%s is reported as %llu, but it is %llu; after %s", n.c_str(), (unsigned long long)v, (unsigned long long)want, after.c_str()); }
static void same(const figs& a, const figs& b, const std::set<string>& differ, const string& what) {
    for( auto& p: a ) { auto it = b.find(p.first); if( it == b.end() ) mc::fail("%s: %s is not reported by both protocols", what.c_str(), p.first.c_str()); if( ! differ.count(p.first) && it->second != p.second ) mc::fail("%s: %s is %s in the text and %s in the binary protocol", what.c_str(), p.first.c_str(), p.second.c_str(), it->second.c_str()); }
    if( a.size() != b.size() ) mc::fail("%s: the text protocol reports %zu figures, the binary protocol %zu", what.c_str(), a.size(), b.size());
}

// ---- what clients did
struct account {
    std::map<string, u64> n; u64 hits = 0, misses = 0, slack = 0, chit = 0, cmiss = 0, cbad = 0, made = 0; bool items = true; u64 cases = 0;
    std::unique_ptr<h::client> t; std::unique_ptr<bclient> b;
    void reset() { *this = account(); }
    void before(driver& d, const cmd& c) {
        auto& st = d.st; string k = d.K(c.key); bool bn = c.bin;
        if( c.kind == 'g' || c.kind == 'T' || c.kind == 'L' || c.kind == 'G' ) { if( c.kind == 'L' && st.find(k) && st.find(k)->owner != -1 ) ++slack; else ++(st.find(k) ? hits : misses); if( ! c.key2.empty() ) ++(st.find(d.K(c.key2)) ? hits : misses); }
        bool was = st.find(k) != nullptr;
        if( c.kind == 's' || c.kind == 'a' || c.kind == 'r' || c.kind == 'c' ) {
            auto a = c.kind == 'c' ? d.casarg(cas(c.cas == CAS_NONE ? CAS_CURRENT : c.cas, c), k) : bn ? d.casarg(c, k) : std::make_pair(u64(0), u64(0));
            store copy = st; res r = copy.put(c.kind == 'c' ? 's' : c.kind, c.conn, k, c.val, c.flags, c.exp, a.second);
            if( a.second ) { if( r == OK ) ++chit; if( r == NOTFOUND ) ++cmiss; if( r == EXISTS ) ++cbad; }
            if( r == OK && ! was ) ++made;
        }
        if( (c.kind == '+' || c.kind == '-') && bn && c.exp >= 0 && ! was ) ++made;
    }
    void sent(const string& bytes) { ++n[opname(bytes)]; }
    void check(u64 conns, const string& after, bool both) {
        ++n["text:stats"]; figs f = text_stats(*t);
        auto look = [&](const figs& f) { if( slack ) { u64 a = ::num(f, "get_hits"), b = ::num(f, "get_misses"); if( a + b >= hits + misses && a + b <= hits + misses + slack && a >= hits && b >= misses ) { hits = a; misses = b; slack = 0; } } is(f, "get_hits", hits, after); is(f, "get_misses", misses, after); is(f, "cas_hits", chit, after); is(f, "cas_misses", cmiss, after); is(f, "cas_badval", cbad, after); if( items ) is(f, "total_items", made, after); is(f, "curr_connections", conns, after); is(f, "total_connections", conns, after); };
        look(f); ++n["text:stats"]; f = text_stats(*t, "ops"); ops(f, after);
        if( both ) { ++n["binary:Stat"]; figs g = bin_stats(*b); look(g); ++n["binary:Stat"]; g = bin_stats(*b, "ops"); ops(g, after); }
    }
    void ops(const figs& f, const string& after) {
        u64 total = 0, mine = 0; for( auto& p: f ) total += num(f, p.first); for( auto& p: n ) { is(f, p.first, p.second, after); mine += p.second; }
        if( total != mine ) for( auto& p: f ) if( ! n.count(p.first) && num(f, p.first) ) mc::fail("%s is reported as %s, but it was never sent; after %s", p.first.c_str(), p.second.c_str(), after.c_str());
        if( f.size() != 22 + 45 ) mc::fail("stats ops reports %zu commands", f.size());
    }
};
static account ac;
static mc::chunked counted(space s, bool items = true) {
    s.init = [items](driver& d) { ac.reset(); ac.items = items; ac.t.reset(new h::client(PORT, 80)); ac.b.reset(new bclient(PORT, 81)); d.on_cmd = [&d](const cmd& c) { ac.before(d, c); }; d.on_bytes = [](const string& b) { ac.sent(b); }; };
    s.at_end = [](driver& d) { u64 open = 2; for( auto& p: d.cons ) if( p.second.c ) ++open; ac.check(open, d.trace, ac.cases++ % 16 == 0); };
    return explore(s);
}

// ---- commands outside the model, rejected ones, statistics commands themselves
struct odd { string bytes, name; bool ends; };
static std::vector<odd> odds() {
    std::vector<odd> v; auto t = [&](const string& b, const string& n, bool e = false) { v.push_back({b + "\r\n", n, e}); }; auto b = [&](int op, const string& key = "", const string& ex = "", const string& val = "", bool e = false) { v.push_back({bin(op, key, ex, val), "binary:" + binname().at(op), e}); };
    t("slabs", "text:slabs"); t("stats", "text:stats"); t("stats items", "text:stats"); t("stats sizes", "text:stats"); t("stats ops", "text:stats"); t("stats settings", "text:stats"); t("version", "text:version"); t("verbosity error", "text:verbosity"); t("verbosity error noreply", "text:verbosity"); t("keys", "text:keys"); t("keys a", "text:keys"); t("flush_all 1000000", "text:flush_all"); t("flush_all 1000000 noreply", "text:flush_all"); t("quit", "text:quit", true); t("unlock_all", "text:unlock_all"); t("touch nokey 10", "text:touch"); t("delete nokey noreply", "text:delete");
    t("foo", ""); t("set a b c", ""); t("get", ""); t("stats nosuch", ""); t("incr k x", "");
    b(bNoop); b(bVersion); b(bStat); b(bStat, "items"); b(bStat, "sizes"); b(bStat, "ops"); b(bStat, "settings"); b(bKeys); b(bKeys, "a"); b(bFlush, "", be(1000000, 4)); b(bFlushQ, "", be(1000000, 4)); b(bQuit, "", "", "", true); b(bQuitQ, "", "", "", true); b(bUnlockAll); b(bUnlockAllQ); b(bTouch, "nokey", be(5, 4)); b(bDeleteQ, "nokey"); b(bAppendQ, "nokey", "", "x");
    v.push_back({bin(0x7f, "k"), "", false}); v.push_back({bin(0x51, "k"), "", false}); v.push_back({bin(bGet, ""), "", false}); v.push_back({bin(bSet, "k", be(0, 4), "v"), "", false});
    return v;
}
static mc::chunked others(int depth) {
    static std::vector<odd> O; O = odds(); mc::chunked c; c.name = "others"; c.count = power(O.size(), depth); c.chunk = std::max<u64>(1, c.count / 16); c.arena = false;
    c.body = [depth](u64 from, u64 to) {
        start_server(base_config(2, 5)); account a; a.t.reset(new h::client(PORT, 80)); a.b.reset(new bclient(PORT, 81)); std::map<string, u64> n; u64 conns = 2; u64 total = 2; string tr;
        std::unique_ptr<h::client> cl[2];
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); tr.clear();
            for( int k: digits(i, O.size(), depth) ) {
                const odd& o = O[k]; auto& x = cl[(unsigned char)o.bytes[0] == 0x80]; tr += (o.name.empty() ? "rejected " + quote(o.bytes, 30) : o.name) + "; ";
                if( ! x ) { x.reset(new h::client(PORT, k)); ++conns; ++total; }
                x->send(o.bytes); mc::wait_idle(); string r = x->take(); if( ! o.name.empty() ) ++a.n[o.name]; mc::count_transition();
                if( o.ends ) { if( ! x->server_closed() ) mc::fail("%s did not end the connection", o.name.c_str()); x.reset(); --conns; }
                else if( o.name.empty() && x->server_closed() ) { x.reset(); --conns; }
            }
            mc::wait_idle(); mc::visit_state(i);
            ++a.n["text:stats"]; figs f = text_stats(*a.t, "ops"); a.ops(f, tr); ++a.n["text:stats"]; f = text_stats(*a.t); is(f, "curr_connections", conns, tr); is(f, "total_connections", total, tr);
            if( i % 16 == 0 ) { ++a.n["binary:Stat"]; a.ops(bin_stats(*a.b, "ops"), tr); for( string w: {"", "items", "sizes", "settings", "ops"} ) { ++a.n["text:stats"]; ++a.n["binary:Stat"]; figs x = text_stats(*a.t, w), y = bin_stats(*a.b, w); same(x, y, {"rusage_user", "rusage_system", "text:stats", "binary:Stat"}, "stats " + w); } }
        }
        stop_server();
    };
    c.describe = [](u64 i) { char b[60]; snprintf(b, sizeof b, "sequence %llu", (unsigned long long)i); return string(b); };
    return c;
}

// ---- figures of a collection
struct item { std::size_t size, heap; long exp = 0; bool locked = false; int lo = 0, hi = 0; };
struct content {
    std::map<string, item> m; u64 over = 0; std::size_t heap_limit = 0; int buckets = 1;
    void check(const figs& g, const figs& it, const figs& sz, const string& after) {
        is(g, "curr_items", m.size(), after); is(it, "items:1:number", m.size(), after);
        static const u64 L[] = {1024, 4096, 16384, 65536, 262144, 1048576, 4194304}; std::vector<u64> n(8); u64 largest = 0, bytes = 0; int lo = 0, hi = 0;
        for( auto& p: m ) { int k = 0; while( k < 7 && p.second.size >= L[k] ) ++k; ++n[k]; largest = std::max<u64>(largest, p.second.size); bytes += over + p.first.size() + (p.second.size <= heap_limit ? p.second.size : 0); if( ! p.second.locked ) { lo = std::max(lo, p.second.lo); hi = std::max(hi, p.second.hi); } }
        for( int k = 0; k < 7; ++k ) is(sz, std::to_string(L[k]), n[k], after); is(sz, "huge", n[7], after);
        is(it, "items:1:largest", largest, after); is(g, "bytes", bytes, after);
        u64 age = num(it, "items:1:age"); if( age < (u64)lo || age > (u64)hi ) mc::fail("items:1:age is %llu, but the oldest object was not used for %d to %d collections; after %s", (unsigned long long)age, lo, hi, after.c_str());
        u64 c = num(it, "items:1:conflicts"), cl = buckets == 1 ? m.size() > 1 : m.size() > (u64)buckets, ch = buckets == 1 ? cl : std::min<u64>(buckets, m.size() / 2); if( c < cl || c > ch ) mc::fail("items:1:conflicts is %llu with %zu objects in %d buckets; after %s", (unsigned long long)c, m.size(), buckets, after.c_str());
    }
    u64 hash() const { u64 x = 3; for( auto& p: m ) { x = mc::mix(x, mc::hash_str(p.first)); x = mc::mix(x, p.second.size * 2 + p.second.locked); x = mc::mix(x, p.second.lo * 8 + (p.second.exp != 0)); } return x; }
};
struct watcher {
    h::client c; bclient b; u64 gcs; watcher(): c(PORT, 70), b(PORT, 71) { gcs = num(text_stats(c), "gc_count"); }
    void check(content& ct, const figs& g, const string& tr) { figs it = text_stats(c, "items"), sz = text_stats(c, "sizes"); ct.check(g, it, sz, tr); same(it, bin_stats(b, "items"), {}, "stats items"); same(sz, bin_stats(b, "sizes"), {}, "stats sizes"); same(g, bin_stats(b), {"rusage_user", "rusage_system", "time"}, "stats"); }
    // wait until the next collection is over
    figs next(unsigned ms = 20000) { for( unsigned t = 0; t < ms; t += 500 ) { figs f = text_stats(c); u64 n = num(f, "gc_count"); if( n < gcs ) mc::fail("gc_count went back from %llu to %llu", (unsigned long long)gcs, (unsigned long long)n); if( n > gcs + 1 ) mc::fail("two collections within half a second"); if( n == gcs + 1 ) { gcs = n; return f; } mc::sleep_ms(500); } mc::fail("no collection within %u ms", ms); return figs(); }
};
enum rk { SET, APP, TOUCH, DEL, LOCK, UNLOCK, FLUSH, INCR, GET, NONE };
struct cop30 { rk k; string key; std::size_t n; long exp; string name() const { static const char* s[] = {"set", "append", "touch", "delete", "lock", "unlock_all", "flush_all", "Increment", "get", "nothing"}; return s[k] + (" " + key) + (n ? " " + std::to_string(n) + " bytes" : "") + (exp ? " for " + std::to_string(exp) + " s" : ""); } };
static const std::vector<cop30> RO = {{SET, "a", 100, 0}, {SET, "a", 1024, 0}, {SET, "bb", 5000, 0}, {SET, "ccc", 20000, 0}, {SET, "a", 1023, 4}, {SET, "bb", 0, 4}, {TOUCH, "a", 0, 4}, {TOUCH, "bb", 0, 0}, {APP, "a", 924, 0}, {DEL, "a", 0, 0}, {DEL, "bb", 0, 0}, {LOCK, "a", 0, 0}, {UNLOCK, "", 0, 0}, {FLUSH, "", 0, 0}, {INCR, "n", 0, 0}, {GET, "a", 0, 0}, {NONE, "", 0, 0}};
static mc::chunked collections(int depth, int per_round) {
    mc::chunked c; c.name = per_round == 1 ? "collections" : "collections-2"; c.count = power(RO.size(), depth * per_round); c.chunk = std::max<u64>(1, c.count / 400); c.arena = false;
    c.body = [=](u64 from, u64 to) {
        start_server(base_config(1, 1, "heap_data_limit = 4096\ngc_interval = 10\n")); watcher w; h::client a(PORT, 0), lk(PORT, 1); bclient b(PORT, 2); content ct; ct.heap_limit = 4096;
        a.set("a", string(100, 'x')); figs f = w.next(); w.next(); f = w.next(); ct.over = num(f, "bytes") - 101; u64 evicted = num(f, "evictions"); if( evicted ) mc::fail("evictions without pressure"); a.cmd("delete a\r\n"); w.next();
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); string tr; auto dg = digits(i, RO.size(), depth * per_round);
            for( int r = 0; r < depth; ++r ) {
                bool flush = false;
                for( int q = 0; q < per_round; ++q ) {
                    const cop30& o = RO[dg[r * per_round + q]]; auto it = ct.m.find(o.key); bool has = it != ct.m.end(), locked = has && it->second.locked; if( flush ) continue; if( has && ! locked && it->second.exp && it->second.exp <= mc::now_sec() + 2 ) continue;
                    tr += o.name() + "; ";
                    switch( o.k ) {
                    case SET: { string rp = a.set(o.key, string(o.n, 'x'), 0, o.exp); if( locked ) break; if( rp != "STORED\r\n" ) mc::fail("set: %s", rp.c_str()); item x; x.size = o.n; if( o.exp ) x.exp = mc::now_sec() + o.exp; ct.m[o.key] = x; break; }
                    case APP: a.cmd("append " + o.key + " 0 0 " + std::to_string(o.n) + "\r\n" + string(o.n, 'y') + "\r\n"); if( has && ! locked ) { it->second.size += o.n; it->second.lo = it->second.hi = 0; } break;
                    case TOUCH: if( locked ) break; a.cmd("touch " + o.key + " " + std::to_string(o.exp) + "\r\n"); if( has ) { it->second.exp = o.exp ? mc::now_sec() + o.exp : 0; it->second.lo = 0; } break;
                    case DEL: a.cmd("delete " + o.key + "\r\n"); if( has && ! locked ) ct.m.erase(it); break;
                    case LOCK: lk.cmd("lock " + o.key + "\r\n"); if( has ) { it->second.locked = true; it->second.lo = 0; } break;
                    case UNLOCK: lk.cmd("unlock_all\r\n"); for( auto& p: ct.m ) if( p.second.locked ) { p.second.locked = false; p.second.lo = 0; } break;
                    case FLUSH: a.cmd("flush_all\r\n"); flush = true; break;
                    case INCR: b.call(bIncr, o.key, be(0, 8) + be(5, 8) + be(0, 4)); if( has ) it->second.lo = it->second.hi = 0; else { item x; x.size = 1; x.lo = x.hi = 0; ct.m[o.key] = x; } break;
                    case GET: a.get(o.key); if( has ) it->second.lo = it->second.hi = 0; break;
                    case NONE: break;
                    }
                    mc::count_transition();
                }
                figs g = w.next(); u64 gone = 0; tr += "(collection) ";
                for( auto it = ct.m.begin(); it != ct.m.end(); ) { bool dead = ! it->second.locked && (flush || (it->second.exp && it->second.exp <= mc::now_sec())); if( dead ) { if( ! flush ) ++gone; it = ct.m.erase(it); } else { ++it->second.lo; ++it->second.hi; ++it; } }
                figs itm = text_stats(w.c, "items"); w.check(ct, g, tr); is(g, "last_expirations", gone, tr); is(g, "last_evictions", 0, tr); is(g, "evictions", 0, tr); is(itm, "items:1:evicted", 0, tr); if( num(g, "total_gc_elapsed") < num(g, "last_gc_elapsed") ) mc::fail("total_gc_elapsed is below last_gc_elapsed"); mc::visit_state(ct.hash());
            }
            lk.cmd("unlock_all\r\n"); for( auto& p: ct.m ) a.cmd("delete " + p.first + "\r\n"); for( auto k: {"a", "bb", "ccc", "n"} ) a.cmd(string("delete ") + k + "\r\n"); ct.m.clear(); if( i % 64 == 0 ) w.check(ct, w.next(), tr + "everything deleted; ");
        }
        stop_server();
    };
    c.describe = [](u64 i) { char b[60]; snprintf(b, sizeof b, "history %llu", (unsigned long long)i); return string(b); };
    return c;
}
// objects of every size class, one or two at a time, three places for the heap limit
static std::vector<std::size_t> SIZES() { std::vector<std::size_t> v = {0, 1}; for( std::size_t k: {1024u, 4096u, 16384u, 65536u, 262144u, 1048576u, 4194304u} ) for( int d: {-1, 0, 1} ) v.push_back(k + d); return v; }
static const std::size_t HEAP[] = {4096, 16384, 5u << 20};
static mc::chunked classes() {
    static auto V = SIZES(); mc::chunked c; c.name = "size-classes"; c.count = V.size() * (V.size() + 1) * 3; c.chunk = 12; c.arena = false;
    c.body = [](u64 from, u64 to) {
        for( u64 i = from; i < to; ) {
            std::size_t hl = HEAP[i / (V.size() * (V.size() + 1))]; u64 end = std::min<u64>(to, (i / (V.size() * (V.size() + 1)) + 1) * V.size() * (V.size() + 1));
            start_server(base_config(1, 1, "heap_data_limit = " + std::to_string(hl) + "\nmax_data_size = 6M\ngc_interval = 10\n")); { watcher w; h::client a(PORT, 0); content ct; ct.heap_limit = hl; a.set("a", "x"); w.next(); figs f = w.next(); ct.over = num(f, "bytes") - 2;
            for( ; i < end; ++i ) {
                mc::progress(i); u64 j = i % (V.size() * (V.size() + 1)); std::size_t s1 = V[j % V.size()], q = j / V.size(); if( q < V.size() && q > j % V.size() ) continue; string tr = std::to_string(s1) + " bytes"; ct.m.clear(); a.cmd("delete a\r\n"); a.cmd("delete key2\r\n");
                item x; x.size = s1; if( a.set("a", string(s1, 'x')) != "STORED\r\n" ) mc::fail("not stored"); ct.m["a"] = x; if( q < V.size() ) { x.size = V[q]; a.set("key2", string(V[q], 'x')); ct.m["key2"] = x; tr += " and " + std::to_string(V[q]); }
                figs g = w.next(); for( auto& p: ct.m ) p.second.lo = p.second.hi = 1; w.check(ct, g, tr); mc::visit_state(i); mc::count_transition();
            } }
            stop_server(); return;
        }
    };
    c.chunk = V.size(); c.describe = [](u64 i) { char b[60]; snprintf(b, sizeof b, "sizes case %llu", (unsigned long long)i); return string(b); };
    return c;
}
// Evictions: every collection's figures against what really vanished.
static void evictions(u64 i) {
    int n = 4 + i % 4; i /= 4; int locked = i % 3; i /= 3; int exp = i % 3; i /= 3; int more = i % 3; i /= 3; bool small = i % 2; std::size_t sz = small ? 3000 : 10000;
    start_server(base_config(1, 3, "memory_limit = " + string(small ? "12000" : "45000") + "\nheap_data_limit = 1M\ngc_interval = 1\n")); h::client a(PORT, 0), lk(PORT, 1), w(PORT, 2); std::map<string, long> m; u64 gcs = 0, total = 0; string tr; std::set<string> lost;
    char b[160]; snprintf(b, sizeof b, "%d objects of %zu bytes, %d locked, %d expiring, then %d more", n, sz, locked, exp, more); tr = b;
    auto put = [&](const string& k, long e) { a.set(k, string(sz, 'x'), 0, e); m[k] = e ? mc::now_sec() + e : 0; };
    for( int k = 0; k < n; ++k ) { string s = "k" + std::to_string(k); put(s, k < exp ? 7 + 6 * k : 0); if( k >= n - locked ) lk.cmd("lock " + s + "\r\n"); }
    gcs = num(text_stats(w), "gc_count"); bool known = true; u64 lastexp = 0; (void)lastexp;
    for( int t = 0; t < 300; ++t ) {
        if( t == 120 ) for( int k = 0; k < more; ++k ) put("m" + std::to_string(k), 0);
        figs f = text_stats(w); u64 g = num(f, "gc_count"); if( g != gcs ) {
            known = g == gcs + 1; gcs = g; w.send("keys\r\n"); string r = w.recv_until("END\r\n"); std::map<string, long> left; u64 ev = 0, ex = 0; for( auto& p: m ) if( r.find("VALUE " + p.first + "\r\n") != string::npos ) left.insert(p); else if( p.second && p.second <= mc::now_sec() ) ++ex; else ++ev;
            // an object due to expire may be counted as either, or hidden before its removal
            bool due = false; for( auto& p: m ) if( p.second && p.second <= mc::now_sec() + 3 && p.second >= mc::now_sec() - 3 ) due = true;
            if( num(f, "evictions") < total ) mc::fail("evictions decreased; %s", tr.c_str());
            if( ! due && known ) { is(f, "last_evictions", ev, tr); is(f, "evictions", total + ev, tr); is(text_stats(w, "items"), "items:1:evicted", total + ev, tr); is(f, "curr_items", left.size(), tr); if( ! ex ) is(f, "last_expirations", 0, tr); }
            total = num(f, "evictions"); m = left; u64 st = mc::mix(total, m.size()); mc::visit_state(mc::mix(st, i)); mc::count_transition();
        }
        mc::sleep_ms(300);
    }
    stop_server();
}
// Connections end in every way, in every order.
static mc::scenario connections(const string& name, int bound, int workers, bool counter) {
    mc::scenario s; s.name = name; s.sched_bound = bound;
    s.body = [=] {
        stats_points() = true; start_server(base_config(workers, 2, "counter.enable = true\ncounter.buckets = 1\n")); stats_points() = false; mc::block_until([]{ return mc::listening(CNT); }, "counter port");
        int p = counter ? CNT : PORT; std::unique_ptr<replica> rp; if( ! counter && mc::choose(2, "a replica") ) { rp.reset(new replica); rp->join(); mc::sleep_ms(4000); } h::client a(p, 0), b(p, 1), c; mc::wait_idle(); int w1 = mc::choose(counter ? 5 : N_ENDS, "first end"), w2 = mc::choose(counter ? 5 : w1 + 1, "second end"); if( counter ) { static const int W[] = {3, 4, 5, 6, 7}; w1 = W[w1]; w2 = W[w2]; }
        auto go = [&](h::client& x, int w) { if( counter && w == 7 ) { x.send(cref::cacq("r", 1, 9, 1)); x.close(); } else end_connection(x, w); };
        if( rp ) { a.set("k", "v"); b.set("k2", "v"); mc::wait_idle(); } mc::explore_schedules(true); go(a, w1); c.connect(p); go(b, w2); mc::wait_idle_for(100); mc::explore_schedules(false); mc::sleep_ms(5000);
        int open = 1 + ! a.fd_released() + ! b.fd_released();
        if( counter ) { cref::cclient o(9); auto f = o.stats(); is(f, "curr_connections", open + 1, end_name(w1)); is(f, "total_connections", 4, end_name(w1)); h::client n(PORT, 8); is(text_stats(n), "curr_connections", 1, "counter connections"); is(text_stats(n), "total_connections", 1, "counter connections"); }
        else { h::client o(PORT, 9); figs f = text_stats(o); string t = string(end_name(w1)) + " and " + end_name(w2); is(f, "curr_connections", open + 1, t); is(f, "total_connections", 4, t); cref::cclient n(8); is(n.stats(), "curr_connections", 1, t); }
        mc::visit_state(w1 * 10 + w2); stop_server();
    };
    return s;
}
// Several clients at once: no count is lost.
static mc::scenario concurrent(const string& name, int bound) {
    mc::scenario s; s.name = name; s.sched_bound = bound;
    s.body = [=] {
        stats_points() = true; start_server(base_config(2, 2)); stats_points() = false; h::client a(PORT, 0), o(PORT, 2); bclient b(PORT, 1); o.set("k", "v"); u64 id = o.casid("k"); mc::wait_idle();
        struct act { string bytes; u64 hit, miss, ch, cm, cb, made; string op; };
        auto T = [](const string& s) { return s + "\r\n"; }; string ids = std::to_string(id);
        std::vector<act> A = {{T("get k"), 1, 0, 0, 0, 0, 0, "text:get"}, {T("get x"), 0, 1, 0, 0, 0, 0, "text:get"}, {T("cas k 0 0 1 " + ids) + T("w"), 0, 0, 1, 0, 0, 0, "text:cas"}, {T("cas k 0 0 1 99999999") + T("w"), 0, 0, 0, 0, 1, 0, "text:cas"}, {T("cas x 0 0 1 1") + T("w"), 0, 0, 0, 1, 0, 0, "text:cas"}, {T("set n1 0 0 1") + T("w"), 0, 0, 0, 0, 0, 1, "text:set"}};
        std::vector<act> B = {{bin(bGet, "k"), 1, 0, 0, 0, 0, 0, "binary:Get"}, {bin(bGet, "x"), 0, 1, 0, 0, 0, 0, "binary:Get"}, {bin(bSet, "k", bset_extras(0, 0), "z", id), 0, 0, 1, 0, 0, 0, "binary:Set"}, {bin(bSet, "k", bset_extras(0, 0), "z", 99999999), 0, 0, 0, 0, 1, 0, "binary:Set"}, {bin(bSet, "x", bset_extras(0, 0), "z", 1), 0, 0, 0, 1, 0, 0, "binary:Set"}, {bin(bSet, "n2", bset_extras(0, 0), "z"), 0, 0, 0, 0, 0, 1, "binary:Set"}};
        bool same = mc::choose(2, "protocol"); int i = mc::choose(A.size(), "action"); act x = A[i], y = same ? A[i] : B[i]; if( same && i == 5 ) y = {T("set n2 0 0 1") + T("w"), 0, 0, 0, 0, 0, 1, "text:set"}; mc::note("%s | %s", quote(x.bytes).c_str(), quote(y.bytes).c_str());
        mc::explore_schedules(true); a.send(x.bytes); (same ? (h::client&)o : b).send(y.bytes); mc::wait_idle_for(100); mc::explore_schedules(false); mc::wait_idle(); a.take(); o.take(); b.take();
        figs f = text_stats(o); string tr = quote(x.bytes) + " and " + quote(y.bytes); u64 ch = x.ch + y.ch, cb = x.cb + y.cb; if( ch == 2 ) ch = cb = 1;
        is(f, "get_hits", 1 + x.hit + y.hit, tr); is(f, "get_misses", x.miss + y.miss, tr); is(f, "cas_hits", ch, tr); is(f, "cas_badval", cb, tr); is(f, "cas_misses", x.cm + y.cm, tr); is(f, "total_items", 1 + x.made + y.made, tr);
        f = text_stats(o, "ops"); std::map<string, u64> n = {{"text:set", 1}, {"text:gets", 1}}; ++n[x.op]; ++n[y.op]; for( auto& p: n ) is(f, p.first, p.second, tr); mc::visit_state(i * 2 + same); stop_server();
    };
    return s;
}
// Commands race with a collection: the next one finds the right figures.
static mc::scenario racing(const string& name, int bound) {
    mc::scenario s; s.name = name; s.sched_bound = bound;
    s.body = [=] {
        stats_points() = true; start_server(base_config(2, 1, "heap_data_limit = 4096\ngc_interval = 1\n")); stats_points() = false; h::client a(PORT, 0), o(PORT, 2); std::map<string, std::size_t> m = {{"x", 1000}, {"y", 2000}, {"z", 5000}}; for( auto& p: m ) o.set(p.first, string(p.second, 'q'), 0, p.first == "y" && mc::choose(2, "y expires") ? 3 : 0); bool ye = false; { o.get("y"); }
        static const char* act[] = {"set", "new", "delete", "append", "flush_all", "lock"}; int i = mc::choose(6, "action"); mc::sleep_ms(5000); ye = o.get("y") == "END\r\n"; if( ye ) m.erase("y"); mc::wait_idle(); u64 g0 = num(text_stats(o), "gc_count");
        mc::explore_schedules(true); mc::advance_ms(2500);
        switch( i ) { case 0: a.send("set x 0 0 3\r\nabc\r\n"); m["x"] = 3; break; case 1: a.send("set new 0 0 3\r\nabc\r\n"); m["new"] = 3; break; case 2: a.send("delete z\r\n"); m.erase("z"); break; case 3: a.send("append x 0 0 3096\r\n" + string(3096, 'b') + "\r\n"); m["x"] += 3096; break; case 4: a.send("flush_all\r\n"); m.clear(); break; case 5: a.send("lock z\r\n"); break; }
        mc::wait_idle_for(100); mc::explore_schedules(false); mc::sleep_ms(6000); string tr = act[i]; figs f = text_stats(o), sz = text_stats(o, "sizes"), it = text_stats(o, "items"); if( num(f, "gc_count") <= g0 ) mc::fail("no collection"); is(f, "curr_items", m.size(), tr); is(f, "evictions", 0, tr); is(f, "last_evictions", 0, tr); is(f, "last_expirations", 0, tr);
        u64 n[3] = {0, 0, 0}, largest = 0; for( auto& p: m ) { ++n[p.second < 1024 ? 0 : p.second < 4096 ? 1 : 2]; largest = std::max<u64>(largest, p.second); } is(sz, "1024", n[0], tr); is(sz, "4096", n[1], tr); is(sz, "16384", n[2], tr); is(it, "items:1:largest", largest, tr); is(it, "items:1:conflicts", m.size() > 1, tr); is(f, "total_items", 3 + (i == 1), tr); mc::visit_state(i * 2 + ye); stop_server();
    };
    return s;
}
// Replicas are counted while connected; the status dump of SIGUSR1 agrees with the statistics.
static void slaves(u64 i) {
    string path = mc::scratch() + "/log30." + std::to_string(::syscall(SYS_getpid)); cybozu::logger::instance().open(path);
    start_server(base_config(1, 2, "gc_interval = 1\ncounter.enable = true\ncounter.buckets = 1\n")); mc::block_until([]{ return mc::listening(CNT); }, "counter port"); h::client o(PORT, 1); cref::cclient cc(2); std::map<int, std::unique_ptr<replica>> r; string tr; u64 ops = 0, cops = 0;
    for( int k = 0; k < 4; ++k ) {
        int w = i % 4; i /= 4; if( w < 3 ) { if( r.count(w) ) { r[w]->c.reset(); r.erase(w); tr += "replica " + std::to_string(w) + " leaves; "; } else { r[w].reset(new replica); r[w]->join(); tr += "replica " + std::to_string(w) + " joins; "; } }
        else { o.set("k" + std::to_string(k), "v"); ++ops; cc.acquire("c" + std::to_string(k), 1, 9); ++cops; tr += "set, acquire; "; }
        mc::sleep_ms(4000); figs f = text_stats(o); ++ops; is(f, "slaves", r.size(), tr); for( auto& p: r ) { p.second->heartbeat(); p.second->pull(); } mc::count_transition();
    }
    mc::sleep_ms(4000); for( auto& p: r ) p.second->heartbeat(); mc::wait_idle(); figs f = text_stats(o); ++ops; auto cf = cc.stats(); ++cops;
    cybozu::logger::set_threshold(cybozu::severity::info); mc::raise_signal(SIGUSR1); mc::sleep_ms(100); cybozu::logger::set_threshold(cybozu::severity::error); std::ifstream in(path); string log((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    auto want = [&](const string& s) { if( log.find(s) == string::npos ) mc::fail("SIGUSR1 did not log \"%s\" but \"%s\"; after %s", s.c_str(), quote(log, 300).c_str(), tr.c_str()); };
    want(std::to_string(r.size()) + " slaves, " + f["curr_items"] + " objects, " + f["curr_connections"] + " clients, " + std::to_string(ops) + " total ops"); want(cf["objects"] + " objects, " + cf["curr_connections"] + " clients, " + std::to_string(cops) + " total ops");
    mc::visit_state(mc::hash_str(tr)); stop_server(); cybozu::logger::instance().close(); ::unlink(path.c_str());
}
// ---- the counter service
static mc::chunked counters(int depth) {
    mc::chunked c; static const char* K[] = {"acquire a 2/9", "acquire a 9/9", "acquire bb 1/1", "release a 1", "release a 7", "release none 1", "get a", "get none", "dump", "noop", "unknown", "bad acquire", "period passes", "reset", "acquire bb by another"}; c.name = "counters"; int N = 15; c.count = power(N, depth); c.chunk = std::max<u64>(1, c.count / 200); c.arena = false;
    c.body = [=](u64 from, u64 to) {
        using namespace cref; const int P = 100; h::start_server(base_config(1, 1, "counter.enable = true\ncounter.buckets = 1\ncounter.stat_interval = 100\n")); mc::block_until([]{ return mc::listening(CNT); }, "counter port"); std::unique_ptr<cclient> a(new cclient(0)), b(new cclient(1)); cclient o(2); std::map<string, u64> n; u64 total = 3, made = 0, over = 0; model md;
        auto align = [&](int periods) { long t = mc::now_sec() % P; mc::sleep_ms((P - t + 5) * 1000 + (periods - 1) * P * 1000); };
        a->acquire("x", 1, 1); a->release("x", 1); ++n["acquire"]; ++n["release"]; ++made; over = 0;
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); string tr, pf = "k" + std::to_string(i) + "_"; u64 x = i; md = model(); align(2); std::set<string> live; u64 longest = 0; (void)longest;
            bool passed = true;
            for( int k = 0; k < depth; ++k ) {
                int w = x % N; x /= N; tr += string(K[w]) + "; "; auto acq = [&](cclient& c, int id, const string& nm, u32 r, u32 m) { cresp q = c.acquire(pf + nm, r, m); ++n["acquire"]; bool had = live.count(nm); auto e = md.acquire(id, nm, r, m); if( q.status != e.first ) mc::fail("acquire answered %d; after %s", q.status, tr.c_str()); if( e.first == sOK && ! had ) { ++made; live.insert(nm); } };
                switch( w ) {
                case 0: acq(*a, 0, "a", 2, 9); break; case 1: acq(*a, 0, "a", 9, 9); break; case 2: acq(*a, 0, "bb", 1, 1); break; case 14: acq(*b, 1, "bb", 1, 1); break;
                case 3: a->release(pf + "a", 1); md.release(0, "a", 1); ++n["release"]; break; case 4: a->release(pf + "a", 7); md.release(0, "a", 7); ++n["release"]; break; case 5: a->release(pf + "none", 1); ++n["release"]; break;
                case 6: b->getc(pf + "a"); ++n["get"]; break; case 7: b->getc(pf + "none"); ++n["get"]; break; case 8: b->dump(); ++n["dump"]; break; case 9: b->send(creq(cNoop, "", 5)); b->response(); ++n["noop"]; break;
                case 10: b->send(creq(0x55, "", 5)); b->response(); break; case 11: a->send(cacq("", 1, 1, 6)); a->response(); break;
                case 12: { align(2); for( auto it = live.begin(); it != live.end(); ) if( md.total[*it] == 0 ) { md.total.erase(*it); it = live.erase(it); } else ++it;
                    auto f = o.stats(); ++n["stats"]; tr += "(collection) "; is(f, "objects", live.size(), tr); is(f, "conflicts", live.size() > 1, tr); u64 bytes = num(f, "used_memory"), keys = 0; for( auto& l: live ) keys += pf.size() + l.size(); if( live.empty() ? bytes != 0 : bytes < keys || (bytes - keys) % live.size() || (over && (bytes - keys) / live.size() != over) ) mc::fail("used_memory is %llu for %zu counters; after %s", (unsigned long long)bytes, live.size(), tr.c_str()); if( ! live.empty() ) over = (bytes - keys) / live.size(); break; }
                case 13: a->reset(); mc::sleep_ms(4500); mc::wait_idle(); md.gone(0); a.reset(new cclient(0)); ++total; mc::wait_idle(); break;
                }
                mc::visit_state(md.hash()); mc::count_transition();
            }
            (void)passed; auto f = o.stats(); ++n["stats"]; is(f, "total_objects", made, tr); is(f, "total_connections", total, tr); is(f, "curr_connections", 3, tr); for( auto w: {"noop", "get", "acquire", "release", "stats", "dump"} ) is(f, string("command:") + w, n[w], tr);
            for( int id: {0, 1} ) for( auto& h: md.held[id] ) if( h.second ) { (id ? b : a)->release(pf + h.first, h.second); ++n["release"]; }
        }
        h::stop_server();
    };
    c.describe = [](u64 i) { char b[60]; snprintf(b, sizeof b, "sequence %llu", (unsigned long long)i); return string(b); };
    return c;
}
static mc::chunked each(const string& n, u64 count, void (*f)(u64)) { mc::chunked c; c.name = n; c.count = count; c.chunk = 1; c.arena = false; c.body = [f](u64 from, u64 to) { for( u64 i = from; i < to; ++i ) { mc::progress(i); f(i); } }; c.describe = [](u64 i) { char b[60]; snprintf(b, sizeof b, "case %llu", (unsigned long long)i); return string(b); }; return c; }

int main(int argc, char** argv) {
    bool t = mc::thorough(); mc::check c; c.property = "C30"; auto& S = c.sequences; string cfg = base_config(2, 509);
    c.rule = "all sequences of the listed commands in both protocols with every statistics command after each, compared with a count of what was sent and a reference model (hits, misses, CAS outcomes, items created, connections, per-command counts); all histories of content changes with the figures of every collection compared with the content (number, size classes, memory, largest, age, conflicts, expirations, evictions); connections ending in all ways, concurrent commands and commands during a collection under all schedules within the bound";
    { space s; s.name = "text"; s.cfg = cfg; s.depth = t ? 4 : 3; s.keys = {"a"}; auto two = [](cmd x, const string& k2) { x.key2 = k2; return x; };
      s.alphabet = {T('s', "a", "1"), T('a', "a", "5"), T('r', "a", "6"), T('A', "a", "1"), T('P', "a", "1"), T('g', "a"), T('G', "a"), two(T('g', "a"), "b"), two(T('g', "b"), "a"), T('s', "b", "2"), T('d', "a"), ref::num('+', "a", 1), ref::num('-', "a", 1), T('t', "a", "", 0, 100), cas(CAS_CURRENT, T('c', "a", "7")), cas(CAS_BOGUS, T('c', "a", "8")), cas(CAS_OLD, T('c', "a", "9")), quiet(cas(CAS_CURRENT, T('c', "a", "7"))), quiet(cas(CAS_BOGUS, T('c', "a", "8"))), quiet(T('s', "a", "4")), T('l', "a"), T('u', "a"), T('U', ""), on(1, T('s', "a", "3")), on(1, T('l', "a")), on(1, cas(CAS_CURRENT, T('c', "a", "3"))), T('n', "")};
      S.push_back(counted(s)); }
    { space s; s.name = "binary"; s.cfg = cfg; s.depth = 2; s.keys = {"a"}; s.binfinal = true; auto& A = s.alphabet; s.pre = {};
      for( int q = 0; q < 2; ++q ) { auto Q = [q](cmd x) { return q ? quiet(x) : x; };
        for( auto m: {CAS_NONE, CAS_CURRENT, CAS_BOGUS} ) { A.push_back(Q(cas(m, B('s', "a", "1")))); A.push_back(Q(cas(m, B('r', "a", "2")))); } A.push_back(Q(B('a', "a", "3"))); A.push_back(Q(B('g', "a"))); A.push_back(Q(withk(B('g', "a")))); { cmd x = B('T', "a"); x.exp = 1000; A.push_back(Q(x)); A.push_back(Q(withk(x))); }
        A.push_back(Q(B('d', "a"))); A.push_back(Q(B('A', "a", "1"))); A.push_back(Q(B('P', "a", "1"))); A.push_back(Q(ref::num('+', "a", 1, true, 5, 0))); A.push_back(Q(ref::num('-', "a", 1, true, 5, 0))); A.push_back(Q(ref::num('+', "a", 1, true, 5, -1))); A.push_back(Q(B('l', "a"))); A.push_back(Q(B('u', "a"))); { cmd x; x.kind = 'U'; x.bin = true; A.push_back(Q(x)); } A.push_back(Q(on(1, B('s', "a", "9")))); A.push_back(Q(on(1, B('g', "a")))); }
      A.push_back(B('t', "a", "", 0, 100)); { cmd x; x.kind = 'n'; x.bin = true; A.push_back(x); }
      s.depth = 3; S.push_back(counted(s));
      // lock and get, replace and unlock: the object is never locked already
      space l; l.name = "binary-locks"; l.cfg = cfg; l.keys = {"a"}; l.binfinal = true; l.depth = t ? 4 : 3; cmd ua; ua.kind = 'U'; ua.bin = true;
      for( int q = 0; q < 2; ++q ) for( int k = 0; k < 2; ++k ) { cmd x = B('L', "a"); x.quiet = q; x.withkey = k; l.alphabet.push_back(x); } l.alphabet.push_back(B('R', "a", "r")); l.alphabet.push_back(quiet(B('R', "a", "rr"))); l.alphabet.push_back(B('s', "a", "1")); l.alphabet.push_back(B('d', "a")); l.alphabet.push_back(ua); l.alphabet.push_back(B('g', "a")); l.alphabet.push_back(on(1, B('g', "a")));
      S.push_back(counted(l)); }
    { space s; s.name = "expiring"; s.cfg = cfg; s.depth = 3; s.keys = {"a"}; s.alphabet = {T('s', "a", "1", 0, 8), T('s', "a", "1", 0, 3), T('s', "a", "2"), T('g', "a"), B('g', "a"), cas(CAS_CURRENT, T('c', "a", "7", 0, 8)), cas(CAS_OLD, T('c', "a", "7")), cas(CAS_CURRENT, B('s', "a", "4")), cas(CAS_BOGUS, B('s', "a", "4")), cas(CAS_CURRENT, B('r', "a", "4")), T('t', "a", "", 0, 3), wait_ms(5000)}; for( auto& x: s.alphabet ) if( x.bin ) x.conn = 1; s.depth = t ? 4 : 3; s.chunk = 60; S.push_back(counted(s, false)); }
    S.push_back(others(2)); S.push_back(collections(t ? 4 : 3, 1)); if( t ) S.push_back(collections(2, 2)); S.push_back(classes()); S.push_back(each("evictions", 4 * 3 * 3 * 3 * 2, evictions)); S.push_back(each("replicas", 256, slaves)); S.push_back(counters(t ? 4 : 3));
    c.scenarios.push_back(connections("connections", 1, 2, false)); c.scenarios.push_back(connections("connections-counter", 1, 2, true)); c.scenarios.push_back(concurrent("concurrent", 2)); c.scenarios.push_back(racing("racing", 2));
    c.kinds = {"fail"}; c.assumptions = {"A lock-and-get of an object that is locked already may count as a hit or not; CAS figures count Set, Add and Replace.", "Object figures are those of the last collection, as documented in the code."};
    return mc::main_(argc, argv, c);
}
