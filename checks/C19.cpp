// C19: listings and collections visit every object exactly once.
#include "lin.hpp"
using namespace ref;
// the keys of a reply to "keys", in order
static std::vector<string> text_keys(client& c, const string& prefix) {
    c.put("keys" + (prefix.empty() ? "" : " " + prefix) + "\r\n"); string s = c.recv_until("END\r\n"); std::vector<string> v; std::size_t at = 0;
    while( s.compare(at, 5, "END\r\n") ) { std::size_t e = s.find("\r\n", at); if( e == string::npos || s.compare(at, 6, "VALUE ") ) mc::fail("malformed listing: \"%s\"", quote(s, 300).c_str()); v.push_back(s.substr(at + 6, e - at - 6)); at = e + 2; }
    return v;
}
static std::vector<string> parse_keys(const string& all0, u32 opaque, bool& done) {
    std::vector<string> v; string all = all0; bresp r; done = false;
    while( ! all.empty() && parse_bin(all, r) ) {
        if( done || r.op != bKeys || r.status != 0 || r.opaque != opaque ) mc::fail("bad reply in a listing: %s", show(r).c_str());
        if( r.key.empty() ) { done = true; continue; }
        if( ! r.value.empty() ) mc::fail("value in a listing: %s", show(r).c_str()); v.push_back(r.key);
    }
    if( done && ! all.empty() ) mc::fail("extra output after a listing");
    return v;
}
static std::vector<string> bin_keys(client& c, const string& prefix) { c.send(bin(bKeys, prefix, "", "", 0, 77)); mc::wait_idle(); bool done; auto v = parse_keys(c.take(), 77, done); if( ! done ) mc::fail("no end of the listing"); return v; }
static string show(std::vector<string> v) { string s; for( auto& x: v ) s += " " + x; return s; }
static void same(std::vector<string> got, std::vector<string> want, const string& what) {
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
    if( got != want ) mc::fail("%s lists%s where%s are present", what.c_str(), show(got).c_str(), show(want).c_str());
}
static std::vector<string> with_prefix(const std::vector<string>& v, const string& p) { std::vector<string> r; for( auto& x: v ) if( x.compare(0, p.size(), p) == 0 ) r.push_back(x); return r; }
static const std::vector<string> PFX = {"", "a", "ab", "abc", "abcd", "b", "zz"};
static void listed(client& t, client& b, const std::vector<string>& present, const string& what, std::size_t n = 99) { for( std::size_t i = 0; i < PFX.size() && i < n; ++i ) { same(text_keys(t, PFX[i]), with_prefix(present, PFX[i]), what + ": keys " + PFX[i]); same(bin_keys(b, PFX[i]), with_prefix(present, PFX[i]), what + ": binary keys " + PFX[i]); } }
static const std::vector<string> U = {"a", "ab", "abc", "abcd", "b", "ba"};
// every sequence of insertions and removals, then every listing
static mc::chunked layouts(const string& name, int buckets, int nkeys, int depth) {
    mc::chunked c; c.name = name; c.count = power(2 * nkeys, depth); c.chunk = std::max<u64>(1, std::min<u64>(500, c.count / 48 + 1)); c.arena = false;
    c.body = [=](u64 from, u64 to) {
        start_server(base_config(1, buckets, "gc_interval = 100000\n")); client t(PORT, 0), b(PORT, 1);
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); std::set<string> m;
            for( int d: digits(i, 2 * nkeys, depth) ) {
                const string& k = U[d / 2]; string r;
                if( d % 2 ) { r = t.cmd("delete " + k + "\r\n"); if( r != (m.erase(k) ? "DELETED\r\n" : "NOT_FOUND\r\n") ) mc::fail("delete %s answered %s", k.c_str(), quote(r).c_str()); }
                else { r = t.set(k, k); if( r != "STORED\r\n" ) mc::fail("set answered %s", quote(r).c_str()); m.insert(k); }
            }
            std::vector<string> p(m.begin(), m.end()); same(text_keys(t, ""), p, "keys"); same(bin_keys(b, PFX[1 + i % 6]), with_prefix(p, PFX[1 + i % 6]), "binary keys " + PFX[1 + i % 6]); if( i % 7 == 0 ) listed(t, b, p, "listing");
            for( int k = 0; k < nkeys; ++k ) { string g = t.get(U[k]); if( g != (m.count(U[k]) ? "VALUE " + U[k] + " 0 " + std::to_string(U[k].size()) + "\r\n" + U[k] + "\r\nEND\r\n" : "END\r\n") ) mc::fail("get %s answered \"%s\"", U[k].c_str(), quote(g).c_str()); }
            for( auto& k: m ) t.cmd("delete " + k + "\r\n"); same(text_keys(t, ""), {}, "keys after removing everything");
            u64 hsh = 0; for( auto& k: m ) hsh = mc::mix(hsh, mc::hash_str(k)); mc::visit_state(hsh); mc::count_transition(depth);
        }
        stop_server();
    };
    return c;
}
static u64 stat_of(client& t, const string& n) { t.put("stats\r\n"); string s = t.recv_until("END\r\n"); std::size_t p = s.find("STAT " + n + " "); if( p == string::npos ) mc::fail("no %s", n.c_str()); return strtoull(s.c_str() + p + 6 + n.size(), nullptr, 10); }
// a collection over every assignment of states to the objects of a chain:
// absent, live, due, due but locked, live and locked; then a delayed flush
static mc::chunked collections(const string& name, int buckets, int n) {
    mc::chunked c; c.name = name; c.count = power(5, n); c.chunk = std::max<u64>(1, std::min<u64>(100, c.count / 24 + 1)); c.arena = false;
    c.body = [=](u64 from, u64 to) {
        mc::set_step_limit(50000000);
        start_server(base_config(1, buckets, "gc_interval = 1\n")); client t(PORT, 0), b(PORT, 1), l(PORT, 2); auto Kn = [](int i) { return "k" + std::to_string(i); };
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); auto d = digits(i, 5, n); std::vector<string> after, live, locked; int due = 0;
            for( int k = 0; k < n; ++k ) if( d[k] ) t.set(Kn(k), "v", 0, d[k] == 2 || d[k] == 3 ? 2 : 0);
            for( int k = 0; k < n; ++k ) { if( d[k] >= 3 ) { if( l.cmd("lock " + Kn(k) + "\r\n") != "OK\r\n" ) mc::fail("lock"); locked.push_back(Kn(k)); } if( d[k] == 1 || d[k] >= 3 ) after.push_back(Kn(k)); if( d[k] == 2 ) ++due; }
            u64 g0 = stat_of(t, "gc_count"); mc::sleep_ms(4500); if( stat_of(t, "gc_count") == g0 ) mc::sleep_ms(3000);
            same(text_keys(t, ""), after, "after a collection, keys"); same(bin_keys(b, ""), after, "after a collection, binary keys");
            mc::sleep_ms(3500); // another one: statistics of the survivors only
            u64 ci = stat_of(t, "curr_items"); if( ci != after.size() ) mc::fail("curr_items %llu after a collection with %zu survivors", (unsigned long long)ci, after.size());
            (void)due; for( int k = 0; k < n; ++k ) { bool want = d[k] == 1 || d[k] >= 3; string g = t.get(Kn(k)); if( (g != "END\r\n") != want ) mc::fail("after a collection, get %s answers \"%s\"", Kn(k).c_str(), quote(g).c_str()); }
            if( t.cmd("flush_all\r\n") != "OK\r\n" ) mc::fail("flush"); mc::sleep_ms(3500); same(text_keys(t, ""), locked, "after a flush, keys");
            if( l.cmd("unlock_all\r\n") != "OK\r\n" ) mc::fail("unlock_all"); for( auto& k: locked ) t.cmd("delete " + k + "\r\n"); same(text_keys(t, ""), {}, "keys after removing everything");
            mc::visit_state(mc::mix(buckets, i)); mc::count_transition(2);
        }
        stop_server();
    };
    return c;
}
// listings of objects that are due but not collected yet
static mc::chunked uncollected(const string& name, int buckets, int n) {
    mc::chunked c; c.name = name; c.count = power(5, n); c.chunk = std::max<u64>(1, std::min<u64>(100, c.count / 24 + 1)); c.arena = false;
    c.body = [=](u64 from, u64 to) {
        mc::set_step_limit(50000000);
        start_server(base_config(1, buckets, "gc_interval = 100000000\n")); client t(PORT, 0), b(PORT, 1), l(PORT, 2); mc::sleep_ms(5000); u64 g0 = stat_of(t, "gc_count");
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); auto d = digits(i, 5, n); std::vector<string> before, after;
            for( int k = 0; k < n; ++k ) {
                if( d[k] == 0 ) continue; before.push_back(U[k]);
                t.set(U[k], "v", 0, d[k] == 2 || d[k] == 3 ? 3 : 0); if( d[k] == 4 ) t.cmd("touch " + U[k] + " 3\r\n");
                if( d[k] == 3 && l.cmd("lock " + U[k] + "\r\n") != "OK\r\n" ) mc::fail("lock"); if( d[k] == 1 || d[k] == 3 ) after.push_back(U[k]);
            }
            listed(t, b, before, "before the expiry", 2); mc::sleep_ms(7000); listed(t, b, after, "after the expiry"); l.cmd("unlock_all\r\n");
            for( int k = 0; k < n; ++k ) if( d[k] ) { t.cmd("delete " + U[k] + "\r\n"); t.set(U[k], "v"); t.cmd("delete " + U[k] + "\r\n"); } // an expired object is replaced, then removed
            mc::visit_state(mc::mix(buckets, i)); mc::count_transition(2);
        }
        if( stat_of(t, "gc_count") != g0 ) mc::fail("a collection ran; the case is void"); stop_server();
    };
    return c;
}
// objects of every kind, under keys of every length
static mc::chunked kinds(const string& name) {
    mc::chunked c; c.name = name; static const int K = 12; c.count = 250 * K; c.chunk = 100; c.arena = false;
    c.body = [=](u64 from, u64 to) {
        start_server(base_config(1, 2, "heap_data_limit = 4096\ngc_interval = 100000000\n")); client t(PORT, 0), b(PORT, 1), l(PORT, 2);
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); int k = i % K; string key = "ab" + string(250, 'x'); key.resize(1 + i / K); string ok = k < 10 || k == 11 ? "STORED\r\n" : "", r, other = i % 2 ? "b" : "ab";
            if( key != other ) t.set(other, "o");
            auto bset = [&](int op, const string& extras, const string& v) { b.send(bin(op, key, extras, v)); mc::wait_idle(); bresp x; string s = b.take(); if( ! parse_bin(s, x) || x.status ) mc::fail("setup: %s", show(x).c_str()); return ok; };
            switch( k ) {
            case 0: r = t.set(key, ""); break;
            case 1: r = t.set(key, string(5000, 'f')); break;
            case 2: r = t.set(key, "v", 4294967295u, 1000); break;
            case 3: r = bset(bSet, bset_extras(1, 1000), string(1, 0)); break;
            case 4: r = bset(bIncr, be(1, 8) + be(7, 8) + be(0, 4), ""); break;
            case 5: t.set(key, ""); r = t.cmd("append " + key + " 0 0 1\r\nx\r\n"); break;
            case 6: t.set(key, "x"); r = t.cmd("prepend " + key + " 0 0 4200\r\n" + string(4200, 'p') + "\r\n"); break;
            case 7: t.set(key, string(5000, 'f')); r = t.set(key, ""); break;
            case 8: t.set(key, "v"); b.send(bin(bLaG, key) + bin(bRaU, key, bset_extras(0, 0), "y")); mc::wait_idle(); { string s = b.take(); bresp x; while( parse_bin(s, x) ) if( x.status ) mc::fail("setup: %s", show(x).c_str()); } r = ok; break;
            case 9: t.set(key, "v", 0, 1000); r = t.cmd("touch " + key + " 0\r\n") == "TOUCHED\r\n" ? ok : "no"; break;
            case 10: t.set(key, "v"); r = t.cmd("delete " + key + "\r\n") == "DELETED\r\n" ? ok : "no"; break;
            case 11: t.set(key, "\r\nEND\r\n"); r = l.cmd("lock " + key + "\r\n") == "OK\r\n" ? ok : "no"; break;
            }
            if( r != ok ) mc::fail("setup of kind %d: %s", k, quote(r, 60).c_str());
            std::vector<string> p; if( k != 10 ) p.push_back(key); if( key != other ) p.push_back(other);
            listed(t, b, p, "objects of kind " + std::to_string(k)); string half = key.substr(0, key.size() / 2 + 1), mine = key; same(text_keys(t, half), with_prefix(p, half), "keys " + half); same(bin_keys(b, mine), with_prefix(p, mine), "binary keys " + mine); if( key.size() < 250 ) same(bin_keys(b, mine + "x"), with_prefix(p, mine + "x"), "binary keys beyond a key");
            l.cmd("unlock_all\r\n"); t.cmd("delete " + key + "\r\n"); t.cmd("delete " + other + "\r\n"); same(text_keys(t, ""), {}, "keys after removing everything"); mc::visit_state(mc::mix(k, key.size())); mc::count_transition(3);
        }
        stop_server();
    };
    return c;
}
// many table sizes and populations
static mc::chunked sizes(const string& name, int maxb) {
    mc::chunked c; c.name = name; c.count = maxb; c.chunk = 1; c.arena = false;
    c.body = [=](u64 from, u64 to) {
        mc::set_step_limit(50000000);
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); int buckets = i + 1; start_server(base_config(1, buckets, "gc_interval = 1\n")); client t(PORT, 0), b(PORT, 1); std::vector<string> p, q; int n = 2 * buckets + 3;
            for( int k = 0; k < n; ++k ) { p.push_back("key" + std::to_string(k)); t.set(p.back(), "v", 0, k % 3 == 1 ? 3 : 0); if( k % 3 != 1 ) q.push_back(p.back()); }
            same(text_keys(t, ""), p, "keys"); same(bin_keys(b, "key1"), with_prefix(p, "key1"), "binary keys"); mc::sleep_ms(8000);
            same(text_keys(t, ""), q, "after a collection, keys"); u64 ci = stat_of(t, "curr_items"); if( ci != q.size() ) mc::fail("curr_items %llu instead of %zu", (unsigned long long)ci, q.size());
            t.cmd("flush_all\r\n"); mc::sleep_ms(4000); same(text_keys(t, ""), {}, "after a flush, keys"); mc::visit_state(buckets); mc::count_transition(3); stop_server();
        }
    };
    return c;
}
// listing while others update: what stays is listed exactly once
static mc::scenario racing(const string& name, int sb, int buckets, bool gc, bool slow, int updates) {
    mc::scenario s; s.name = name; s.sched_bound = sb;
    s.body = [=] {
        start_server(base_config(2, buckets, gc ? "gc_interval = 1\n" : "gc_interval = 1000\n")); client t(PORT, 0), b(PORT, 1); std::vector<string> stable = {"s1", "s2", "s3", "s4"};
        int pos = mc::choose(3, "position"), up = mc::choose(updates, "update"); bool binary = mc::choose(2, "protocol");
        auto extra = [&]{ t.set("x", "1"); if( gc ) t.set("dead", "1", 0, 2); };
        for( int i = 0; i < 4; ++i ) { if( pos * 2 == i ) extra(); t.set(stable[i], "1"); } if( pos == 2 ) extra();
        static const char* P[] = {"delete x\r\n", "set y 0 0 1\r\nz\r\n", "delete x\r\nset x 0 0 1\r\n2\r\n", "set s2 0 0 2\r\n55\r\n", "delete x\r\nset y 0 0 1\r\nz\r\ndelete y\r\n", "append s3 0 0 5000\r\n", "flush_all 100\r\nincr s1 1\r\n"};
        string prog = P[up]; if( up == 5 ) prog += string(5000, 'q') + "\r\n";
        mc::wait_idle(); if( gc ) mc::sleep_ms(5000); if( slow ) { t.set_window(30); }
        mc::explore_schedules(true); if( gc ) mc::advance_ms(2500);
        if( binary ) t.send(bin(bKeys, "", "", "", 0, 77)); else t.send("keys\r\n"); b.send(prog);
        if( slow ) { mc::sleep_ms(10); t.set_window(1 << 20); mc::sleep_ms(300); }
        mc::wait_idle(); mc::explore_schedules(false);
        std::vector<string> got; bool done = false; string all = t.take();
        if( binary ) { got = parse_keys(all, 77, done); if( ! done ) mc::fail("no end of the listing"); }
        else { std::size_t at = 0; while( all.compare(at, 5, "END\r\n") ) { std::size_t e = all.find("\r\n", at); if( e == string::npos || all.compare(at, 6, "VALUE ") ) mc::fail("malformed listing: \"%s\"", quote(all, 300).c_str()); got.push_back(all.substr(at + 6, e - at - 6)); at = e + 2; } if( at + 5 != all.size() ) mc::fail("extra output after a listing"); }
        std::map<string, int> n; for( auto& k: got ) ++n[k];
        for( auto& k: stable ) if( n[k] != 1 ) mc::fail("key %s, present all the time, was listed %d times:%s", k.c_str(), n[k], show(got).c_str());
        for( auto& p: n ) { bool known = p.first == "x" || (p.first == "y" && (up == 1 || up == 4)) || p.first[0] == 's'; if( p.second && ! known ) mc::fail("absent key %s was listed", p.first.c_str()); if( p.second > 2 || (p.second == 2 && up != 2) ) mc::fail("key %s was listed %d times", p.first.c_str(), p.second); }
        if( up >= 3 && n["x"] != 1 && up != 4 ) mc::fail("key x was listed %d times", n["x"]);
        b.take(); client o(PORT, 9); for( auto& k: stable ) if( o.get(k) == "END\r\n" ) mc::fail("key %s is lost", k.c_str());
        if( gc ) { mc::sleep_ms(4000); auto v = text_keys(o, ""); if( std::count(v.begin(), v.end(), "dead") ) mc::fail("the expired object is listed"); }
        u64 hs = up; for( auto& k: got ) hs = mc::mix(hs, mc::hash_str(k)); mc::visit_state(hs); stop_server();
    };
    return s;
}
// a collection against updates: nothing due survives, nothing else is lost
static mc::scenario collecting(const string& name, int sb, int workers, int order) {
    mc::scenario s; s.name = name; s.sched_bound = sb;
    s.body = [=] {
        start_server(base_config(workers, 1, "gc_interval = 1\n")); client t(PORT, 0), b(PORT, 1); std::vector<string> o = {"dead1", "s1", "dead2", "x", "s2", "dead3"}; if( order ) std::reverse(o.begin(), o.end()); for( auto& k: o ) t.set(k, "1", 0, k[0] == 'd' ? 2 : 0);
        static const char* P[] = {"delete x\r\n", "set y 0 0 1\r\nz\r\n", "delete s1x\r\ndelete x\r\nset x 0 0 1\r\n2\r\n", "set dead2 0 0 2\r\n55\r\n", "touch s2 1000\r\nappend s1 0 0 1\r\n1\r\n", "get dead1 dead2 dead3\r\n", "add dead3 0 0 1\r\n7\r\n", "keys\r\n"}; int p = mc::choose(8, "first"), q = mc::choose(8, "second"); if( p > q ) mc::stop_ok();
        mc::sleep_ms(4000); u64 g = stat_of(b, "gc_count"); (void)g; mc::wait_idle(); mc::explore_schedules(true); mc::advance_ms(2500); t.send(P[p]); b.send(P[q]); mc::wait_idle(); mc::explore_schedules(false); mc::sleep_ms(6000); t.take(); b.take();
        client c(PORT, 9); std::vector<string> want = {"s1", "s2"}; auto has = [&](int i) { return p == i || q == i; };
        if( ! has(0) || (has(2) && c.get("x") != "END\r\n") ) want.push_back("x"); if( has(1) ) want.push_back("y"); if( has(3) ) want.push_back("dead2"); if( has(6) ) want.push_back("dead3");
        same(text_keys(c, ""), want, "after the collection, keys"); mc::sleep_ms(3500); u64 ci = stat_of(c, "curr_items"); if( ci != want.size() ) mc::fail("curr_items %llu instead of %zu", (unsigned long long)ci, want.size());
        for( auto& k: want ) if( c.get(k) == "END\r\n" ) mc::fail("%s is lost", k.c_str()); mc::visit_state(p * 8 + q); stop_server();
    };
    return s;
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C19"; bool t = mc::thorough();
    c.rule = "after every sequence of insertions and removals of the stated length the listings (both protocols, all prefixes) equal the model; collections over every assignment of {absent, live, due, due and locked, locked} to a chain keep exactly the right objects; table sizes 1..N; listings and collections race with updates under every schedule within the bound";
    c.sequences.push_back(layouts("chain", 1, 4, t ? 6 : 5)); c.sequences.push_back(layouts("table", 3, 6, t ? 5 : 4)); c.sequences.push_back(collections("collect-chain", 1, t ? 5 : 4)); c.sequences.push_back(collections("collect-table", 2, t ? 5 : 4)); c.sequences.push_back(uncollected("uncollected", 1, t ? 5 : 4)); c.sequences.push_back(uncollected("uncollected-table", 3, 3)); c.sequences.push_back(sizes("sizes", t ? 300 : 60)); c.sequences.push_back(kinds("kinds"));
    auto& S = c.scenarios;
    S.push_back(racing("racing", 1, 1, false, false, 7)); S.push_back(racing("racing-table", 1, 3, false, false, 7)); S.push_back(racing("racing-slow", 1, 1, false, true, 7)); S.push_back(racing("racing-slow-table", 1, 3, false, true, 5)); S.push_back(racing("racing-collecting", 1, 1, true, false, 6)); S.push_back(racing("racing-deep", 2, 1, false, false, t ? 5 : 1));
    S.push_back(collecting("collecting", 1, 2, 0)); S.push_back(collecting("collecting-reversed", 1, 2, 1));
    return mc::main_(argc, argv, c);
}
