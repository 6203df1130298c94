// C04: malformed input is answered with an error and harms nobody.
#include "ref.hpp"
#include "cref.hpp"
using namespace ref;

// ---------------------------------------------------------------- text
typedef std::vector<string> toks;
// classification of a request line by an independent reading of the protocol
enum verdict { ERR, STORAGE, LINE, VALUES, STATS, QUIT, UNSPEC };
static bool number(const string& t, long double max) { if( t.empty() ) return false; long double v = 0; for( char c: t ) { if( c < '0' || c > '9' ) return false; v = v * 10 + (c - '0'); } return v <= max; }
struct judged { verdict v = ERR; bool noreply = false; u64 nbytes = 0; };
static judged judge(const toks& t) {
    judged j; if( t.empty() ) return j;
    const string& c = t[0]; std::size_t n = t.size();
    auto tail = [&](std::size_t from) { if( n == from ) return true; if( n == from + 1 && t[from] == "noreply" ) { j.noreply = true; return true; } return false; };
    const long double U32 = 4294967295.0L, U64 = 18446744073709551615.0L, S64 = 9223372036854775807.0L;
    if( c == "set" || c == "add" || c == "replace" || c == "append" || c == "prepend" || c == "cas" ) {
        bool cas = c == "cas"; std::size_t need = cas ? 6 : 5;
        if( n < need || ! number(t[2], U32) || ! number(t[3], S64) || ! number(t[4], U32) || (cas && ! number(t[5], U64)) || ! tail(need) ) return j;
        j.v = STORAGE; j.nbytes = strtoull(t[4].c_str(), nullptr, 10); return j;
    }
    if( c == "get" || c == "gets" ) { if( n >= 2 ) j.v = VALUES; return j; }
    if( c == "keys" ) { j.v = n <= 2 ? VALUES : UNSPEC; return j; }
    if( c == "delete" ) { if( n >= 2 && tail(2) ) j.v = LINE; return j; }
    if( c == "incr" || c == "decr" ) { if( n >= 3 && number(t[2], U64) && tail(3) ) j.v = LINE; return j; }
    if( c == "touch" ) { if( n >= 3 && number(t[2], S64) && tail(3) ) j.v = LINE; return j; }
    if( c == "lock" || c == "unlock" ) { if( n == 2 ) j.v = LINE; return j; }
    if( c == "unlock_all" || c == "slabs" || c == "version" ) { j.v = n == 1 ? LINE : UNSPEC; return j; }
    if( c == "quit" ) { j.v = n == 1 ? QUIT : UNSPEC; return j; }
    if( c == "stats" ) { if( n == 1 || t[1] == "items" || t[1] == "sizes" || t[1] == "ops" || t[1] == "settings" ) j.v = n <= 2 ? STATS : UNSPEC; return j; }
    if( c == "flush_all" ) {
        std::size_t i = 1; if( i < n && number(t[i], S64) ) ++i;
        if( tail(i) ) j.v = LINE; return j;
    }
    if( c == "verbosity" ) { if( n >= 2 && tail(2) ) j.v = (t[1] == "error" || t[1] == "warning" || t[1] == "info" || t[1] == "debug") ? LINE : UNSPEC; return j; }
    return j;
}
struct tline { toks t; int spacing; };   // spacing: 0 normal, 1 doubled, 2 leading, 3 trailing
static std::vector<tline>& lines() {
    static std::vector<tline> v; if( ! v.empty() ) return v;
    string k250(250, 'K'), k251(251, 'K'), k300(300, 'K');
    toks keys = {"k", "0", "noreply", k250, k251, k300}, nums = {"0", "1", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-1", "x", "1x", "0x1", "1.5", "+"},
        tails = {"", "noreply", "noreplyx", "norepl", "NOREPLY", "x", "0", "noreply noreply", "noreply x"};
    auto add = [&](toks t) { for( auto it = t.begin(); it != t.end(); ) if( it->empty() ) it = t.erase(it); else ++it;
        toks u; for( auto& x: t ) { std::size_t p = 0, q; while( (q = x.find(' ', p)) != string::npos ) { u.push_back(x.substr(p, q - p)); p = q + 1; } u.push_back(x.substr(p)); } for( int s = 0; s < 4; ++s ) v.push_back({u, s}); };
    for( string c: {"set", "add", "replace", "append", "prepend", "cas"} ) {
        string id = c == "cas" ? "1" : "";
        for( auto& k: keys ) { add({c, k, "0", "0", "3", id}); add({c, k, "0", "0", "3", id, "noreply"}); add({c, k}); add({c, k, "0"}); add({c, k, "0", "0"}); }
        for( auto& a: nums ) { add({c, "k", a, "0", "3", id}); add({c, "k", "0", a, "3", id}); for( auto& b: nums ) { add({c, "k", a, b, "3", id}); } }
        for( auto& a: nums ) if( ! number(a, 4294967295.0L) || a == "0" || a == "1" ) add({c, "k", "0", "0", a, id});
        for( auto& t: tails ) { add({c, "k", "0", "0", "3", id, t}); add({c, "k", "x", "0", "3", id, t}); add({c, "k", "0", "0", t}); }
        add({c});
        if( c == "cas" ) for( auto& a: nums ) for( auto& t: tails ) add({c, "k", "0", "0", "3", a, t});
    }
    for( string c: {"get", "gets", "delete", "incr", "decr", "touch", "lock", "unlock", "unlock_all", "slabs", "version", "stats", "keys", "verbosity", "flush_all"} ) {
        add({c});
        for( auto& k: keys ) for( auto& t: tails ) { if( c == "flush_all" && (k == "0" || k == "noreply") ) continue; add({c, k, t}); }
        if( c == "incr" || c == "decr" || c == "touch" ) for( auto& a: nums ) for( auto& t: tails ) add({c, "k", a, t});
        if( c == "flush_all" ) for( auto& a: nums ) { bool ok = number(a, 9223372036854775807.0L); if( ok ) continue; for( auto& t: tails ) add({c, a, t}); }
        if( c == "stats" ) for( string a: {"items", "sizes", "ops", "settings", "op", "opss", "Items", "setting", "itemx", "settingz"} ) add({c, a});
        if( c == "verbosity" ) for( string a: {"error", "warning", "info", "debug"} ) for( auto& t: tails ) add({c, a, t});
    }
    // not commands at all: truncated, extended and altered verbs
    for( string c: {"set", "add", "replace", "append", "prepend", "cas", "get", "gets", "delete", "incr", "decr", "touch", "lock", "unlock", "unlock_all", "slabs", "version", "stats", "keys", "verbosity", "flush_all", "quit"} ) {
        std::set<string> bad; bad.insert(c.substr(0, c.size() - 1)); bad.insert(c + "x"); bad.insert(c.substr(1));
        for( std::size_t i = 0; i < c.size(); ++i ) { string u = c; u[i] ^= 0x20; bad.insert(u); u = c; u[i] ^= 1; bad.insert(u); u = c; u[i] = 0; bad.insert(u); u = c; u[i] = '\t'; bad.insert(u); }
        for( auto& b: bad ) { if( b.empty() || b[0] == '\n' || b == "get" || b == "lock" || b == "gets" || b[0] == ' ' ) continue; add({b, "k", "0", "0", "3"}); add({b}); add({b, "k"}); add({b, "k", "1"}); }
    }
    return v;
}
static string spaced(const tline& l, const string& kmap) {
    string s; if( l.spacing == 2 ) s = "  ";
    for( std::size_t i = 0; i < l.t.size(); ++i ) { if( i ) s += l.spacing == 1 ? "   " : " "; s += l.t[i] == "k" && i == 1 ? kmap : l.t[i]; }
    if( l.spacing == 3 ) s += "  ";
    return s;
}
static const char* const SENT_REPLY = "VALUE s 9 4\r\nsafe\r\nEND\r\n";
struct tworld { client c, o; };
// checks that the world is intact: sentinel objects readable from both connections
static void intact(tworld& w, const string& what) {
    w.o.send("get s\r\n"); mc::wait_idle(); string r = w.o.take();
    MC_REQUIRE(r == SENT_REPLY, "another connection got \"%s\" after %s", quote(r).c_str(), what.c_str());
}
static mc::chunked text_lines() {
    mc::chunked c; c.name = "text-lines"; c.count = lines().size() * 3; c.chunk = 400; c.arena = false;
    c.body = [](u64 from, u64 to) {
        start_server(base_config(2, 101, "log.threshold = error\nmax_data_size = 10000\n"));
        tworld w; w.c = client(PORT, 0); w.o = client(PORT, 1); w.o.cmd("set s 9 0 4\r\nsafe\r\n");
        for( u64 n = from; n < to; ++n ) {
            mc::progress(n); mc::count_transition();
            const tline& l = lines()[n / 3]; int mode = n % 3;    // 0: existing object, 1: absent, 2: bare LF
            w.o.cmd("set k 3 0 2\r\n55\r\n");
            string before = w.o.get("k", "gets");
            string kmap = mode == 1 ? "kk" : "k", line = spaced(l, kmap);
            toks t = l.t; if( t.size() > 1 && t[1] == "k" ) t[1] = kmap;
            judged j = judge(t); string what = "\"" + quote(line, 120) + (mode == 2 ? "\\n\"" : "\\r\\n\"");
            if( mode == 2 ) { if( j.v == STORAGE || j.v == QUIT ) continue; j.v = ERR; }
            mc::visit_state(mc::mix(mc::hash_str(line), j.v * 4 + mode));
            string send = line + (mode == 2 ? "\n" : "\r\n");
            bool too_long_key = j.v == STORAGE && t[1].size() > 250 && (t[0] == "set" || t[0] == "add" || t[0] == "replace");
            if( j.v == STORAGE ) { if( j.nbytes > 10000 ) continue; send += string("vvv").substr(0, j.nbytes) + "\r\n"; if( j.nbytes > 3 ) continue; }
            if( j.v == QUIT || (j.v == LINE && t[0] == "flush_all") ) continue;   // flushes: see C10
            w.c.send(send); mc::wait_idle(); string got = w.c.take();
            w.c.send("get s\r\n"); mc::wait_idle(); string sent = w.c.take();
            if( sent != SENT_REPLY ) mc::fail("after %s (reply \"%s\") the next request on the connection got \"%s\"", what.c_str(), quote(got).c_str(), quote(sent).c_str());
            bool one = ! got.empty() && got.size() >= 2 && got.find("\r\n") == got.size() - 2, iserr = one && got.find("ERROR") != string::npos;
            if( j.v == ERR || too_long_key ) {
                if( ! iserr ) mc::fail("malformed request %s was answered with \"%s\"", what.c_str(), quote(got).c_str());
                w.o.put("gets k\r\n"); string after = w.o.values();
                MC_REQUIRE(before == after, "malformed request %s changed the object: \"%s\" -> \"%s\"", what.c_str(), quote(before).c_str(), quote(after).c_str());
                string kk = w.o.get("kk"); MC_REQUIRE(kk == "END\r\n", "malformed request %s created an object", what.c_str());
            } else if( j.v != UNSPEC ) {
                if( j.noreply ) { if( ! got.empty() ) mc::fail("noreply request %s was answered with \"%s\"", what.c_str(), quote(got).c_str()); }
                else if( j.v == VALUES ) { if( got.size() < 5 || got.substr(got.size() - 5) != "END\r\n" ) mc::fail("request %s was answered with \"%s\"", what.c_str(), quote(got).c_str()); }
                else if( j.v == STATS ) { if( got.size() < 5 || got.substr(0, 5) != "STAT " || got.substr(got.size() - 5) != "END\r\n" ) mc::fail("request %s was answered with \"%s\"", what.c_str(), quote(got).c_str()); }
                else if( ! one || got == "ERROR\r\n" ) mc::fail("well-formed request %s was answered with \"%s\"", what.c_str(), quote(got).c_str());
            }
            w.c.send("unlock_all\r\n"); mc::wait_idle(); w.c.take();
            w.o.cmd("delete kk\r\n"); w.o.cmd("delete k\r\n"); 
            for( auto& kx: {string(250, 'K'), string("0"), string("noreply")} ) w.o.cmd("delete " + kx + "\r\n");
            intact(w, what);
        }
        stop_server();
    };
    return c;
}
// data blocks with wrong terminators, every short garbage string
static mc::chunked garbage() {
    // all byte strings of length <= 4 over an alphabet of separators and letters, terminated by CRLF
    static const string A = string("\0 \r\n\tg\x7f\xff\x81", 9); static const string verbs[] = {"", "get ", "set k 0 0 2\r\n", "incr ", "lock", "stats ", "\xff", "touch k "};
    const u64 N = A.size(), M = N * N * N * N;
    mc::chunked c; c.name = "garbage"; c.count = M * 8; c.chunk = 2000; c.arena = false;
    c.body = [=](u64 from, u64 to) {
        start_server(base_config(2, 101)); tworld w; w.c = client(PORT, 0); w.o = client(PORT, 1); w.o.cmd("set s 9 0 4\r\nsafe\r\n");
        for( u64 n = from; n < to; ++n ) {
            mc::progress(n); mc::count_transition();
            string g; u64 r = n % M; for( int i = 0; i < 4; ++i ) { g += A[r % N]; r /= N; }
            string b = verbs[n / M] + g + "\r\n";
            mc::visit_state(mc::hash_str(b));
            w.c.send(b); mc::wait_idle(); string got = w.c.take();
            // whatever it was: the connection serves the next request (a storage
            // command waiting for more data ends with at most one more line)
            w.c.send("\r\n"); mc::wait_idle(); w.c.take(); w.c.send("get s\r\n"); mc::wait_idle(); string sent = w.c.take();
            if( sent != SENT_REPLY ) mc::fail("after garbage \"%s\" (reply \"%s\") the next request got \"%s\"", quote(b).c_str(), quote(got).c_str(), quote(sent).c_str());
            // every reply line is well-formed
            MC_REQUIRE(got.empty() || got.substr(got.size() - 2) == "\r\n", "reply to garbage \"%s\" is not terminated: \"%s\"", quote(b).c_str(), quote(got).c_str());
            if( n / M == 2 ) { // set k 0 0 2 with 6 bytes of data + CRLF: correct only if g[2..3] is CRLF
                bool good = g[2] == '\r' && g[3] == '\n'; bool stored = got.compare(0, 8, "STORED\r\n") == 0;
                if( good != stored ) mc::fail("data block \"%s\" was answered with \"%s\"", quote(g + "\r\n").c_str(), quote(got).c_str());
                string v = w.o.val("k"); if( good ? v != g.substr(0, 2) : v != "<none>" ) mc::fail("data block \"%s\" left value \"%s\"", quote(g).c_str(), quote(v).c_str());
                if( good ) w.o.cmd("delete k\r\n");
            }
            if( n % 16 == 0 ) intact(w, "garbage");
        }
        stop_server();
    };
    return c;
}
// -------------------------------------------------------------- binary
struct bspec { int op; int extras_a, extras_b; bool key, nokey, value, novalue; };  // novalue: must not have one
static const bspec SPEC[] = {
    {bGet, 0, 4, 1, 0, 0, 1}, {bGetQ, 0, 4, 1, 0, 0, 1}, {bGetK, 0, 4, 1, 0, 0, 1}, {bGetKQ, 0, 4, 1, 0, 0, 1}, {bGaT, 4, 4, 1, 0, 0, 1}, {bGaTQ, 4, 4, 1, 0, 0, 1}, {bGaTK, 4, 4, 1, 0, 0, 1}, {bGaTKQ, 4, 4, 1, 0, 0, 1},
    {bLaG, 0, 4, 1, 0, 0, 1}, {bLaGQ, 0, 4, 1, 0, 0, 1}, {bLaGK, 0, 4, 1, 0, 0, 1}, {bLaGKQ, 0, 4, 1, 0, 0, 1},
    {bSet, 8, 8, 1, 0, 1, 0}, {bSetQ, 8, 8, 1, 0, 1, 0}, {bAdd, 8, 8, 1, 0, 1, 0}, {bAddQ, 8, 8, 1, 0, 1, 0}, {bReplace, 8, 8, 1, 0, 1, 0}, {bReplaceQ, 8, 8, 1, 0, 1, 0}, {bRaU, 8, 8, 1, 0, 1, 0}, {bRaUQ, 8, 8, 1, 0, 1, 0},
    {bDelete, 0, 0, 1, 0, 0, 1}, {bDeleteQ, 0, 0, 1, 0, 0, 1}, {bIncr, 20, 20, 1, 0, 0, 1}, {bIncrQ, 20, 20, 1, 0, 0, 1}, {bDecr, 20, 20, 1, 0, 0, 1}, {bDecrQ, 20, 20, 1, 0, 0, 1}, {bTouch, 4, 4, 1, 0, 0, 1},
    {bFlush, 0, 4, 0, 1, 0, 1}, {bFlushQ, 0, 4, 0, 1, 0, 1}, {bAppend, 0, 0, 1, 0, 1, 0}, {bAppendQ, 0, 0, 1, 0, 1, 0}, {bPrepend, 0, 0, 1, 0, 1, 0}, {bPrependQ, 0, 0, 1, 0, 1, 0},
    {bLock, 0, 0, 1, 0, 0, 1}, {bLockQ, 0, 0, 1, 0, 0, 1}, {bUnlock, 0, 0, 1, 0, 0, 1}, {bUnlockQ, 0, 0, 1, 0, 0, 1}, {bStat, 0, 0, 0, 0, 0, 1}, {bKeys, 0, 0, 0, 0, 0, 1},
};
static const int EX[] = {0, 1, 3, 4, 5, 7, 8, 9, 19, 20, 21, 255}; static const int KL[] = {0, 1, 2, 8, 250, 251, 300, 65535}; static const int DL[] = {0, 1, 2, 300};
static mc::chunked bin_headers() {
    // opcode x extras length x key length x data length x (consistent, total too small, total one too small)
    const u64 nE = 12, nK = 8, nD = 4, nT = 3;
    mc::chunked c; c.name = "binary-headers"; c.count = 256 * nE * nK * nD * nT; c.chunk = 1000; c.arena = false;
    c.body = [=](u64 from, u64 to) {
        start_server(base_config(2, 101)); tworld w; bclient cl(PORT, 0); w.o = client(PORT, 1); w.o.cmd("set s 9 0 4\r\nsafe\r\n");
        u32 opq = 77;
        for( u64 n = from; n < to; ++n ) {
            u64 r = n; int T = r % nT; r /= nT; int D = DL[r % nD]; r /= nD; int K = KL[r % nK]; r /= nK; int E = EX[r % nE]; r /= nE; int op = r;
            mc::progress(n); mc::count_transition();
            if( T && K + E == 0 ) continue;
            string body(E, '\0'); string key = K >= 8 ? "settings" : "kkkkkkk"; key.resize(K, 'k'); body += key; body += string(D, 'v');
            std::uint32_t total = T == 0 ? E + K + D : T == 1 ? 0 : K + E - 1;
            if( T ) body.resize(total);
            const bspec* sp = nullptr; for( auto& x: SPEC ) if( x.op == op ) sp = &x;
            bool special = op == bQuit || op == bQuitQ || op == bVersion || op == bNoop || op == bUnlockAll || op == bUnlockAllQ;
            if( special ) { if( T == 0 && E == 0 && K == 0 && D == 0 && op != bQuit && op != bQuitQ ) {} else continue; }
            bool valid = sp && T == 0 && (E == sp->extras_a || E == sp->extras_b) && K <= 250 && ! (sp->key && K == 0) && ! (sp->nokey && K) && ! (sp->value && D == 0) && ! (sp->novalue && D);
            // Get with an expiry time is a yrmcds extension; a GaT without one is not specified
            bool unspec = (T == 0 && E == 0 && (op == bGaT || op == bGaTQ || op == bGaTK || op == bGaTKQ) && K && K <= 250 && D == 0);
            if( unspec || (valid && (op == bFlush || op == bFlushQ)) ) continue;
            mc::visit_state(mc::mix(n, valid));
            u32 o = ++opq; w.o.cmd("set k 3 0 2\r\n55\r\n");
            string before = w.o.get("k", "gets");
            string rq = be(0x80, 1) + be(op, 1) + be(K, 2) + be(E, 1) + be(0, 3) + be(total, 4) + be(o, 4) + be(0, 8) + body;
            string what = "binary request op " + std::to_string(op) + " extras " + std::to_string(E) + " key " + std::to_string(K) + " data " + std::to_string(D) + " total " + std::to_string(total);
            cl.send(rq); mc::wait_idle(); string got = cl.take();
            u32 so = ++opq; cl.send(bin(bGet, "s", "", "", 0, so)); mc::wait_idle(); string sent = cl.take(); bresp sr;
            if( ! parse_bin(sent, sr) || ! sent.empty() || sr.opaque != so || sr.status != 0 || sr.value != "safe" ) mc::fail("after %s the next request got \"%s\"", what.c_str(), quote(sent).c_str());
            if( ! valid && ! special ) {
                bresp x; if( ! parse_bin(got, x) || ! got.empty() ) mc::fail("%s was answered with \"%s\"", what.c_str(), quote(got).c_str());
                if( x.status == 0 || x.opaque != o || x.op != op ) mc::fail("invalid %s was answered with %s", what.c_str(), show(x).c_str());
                if( ! sp && T == 0 && K <= 250 && x.status != 0x81 ) mc::fail("unknown opcode was answered with %s", show(x).c_str());
                w.o.put("gets k\r\n"); string after = w.o.values();
                MC_REQUIRE(before == after, "invalid %s changed the object: \"%s\" -> \"%s\"", what.c_str(), quote(before).c_str(), quote(after).c_str());
            } else {
                while( ! got.empty() ) { bresp x; if( ! parse_bin(got, x) ) mc::fail("%s was answered with \"%s\"", what.c_str(), quote(got).c_str()); if( x.opaque != o || x.op != op || x.status == 4 || x.status == 0x81 ) mc::fail("valid %s was answered with %s", what.c_str(), show(x).c_str()); }
                cl.send(bin(bUnlockAll, "", "", "", 0, 1)); mc::wait_idle(); cl.take();
                if( K ) w.o.cmd("delete " + key + "\r\n");
            }
            w.o.cmd("delete k\r\n");
            if( n % 8 == 0 ) intact(w, what);
        }
        stop_server();
    };
    return c;
}
// ------------------------------------------------------------- counter
static mc::chunked counter_headers() {
    static const int ops[] = {0, 1, 2, 3, 4, 5, 0x0f, 0x10, 0x11, 0x12, 0x13, 0x20, 0x7f, 0x80, 0xff}; static const int NL[] = {0, 1, 2, 100, 65535}; static const int XB[] = {-65536, -10, -2, -1, 0, 1, 5}; static const u32 RS[] = {0, 1, 2, 0xffffffffu}; static const int MG[] = {0x90, 0x91, 0x00, 0x80, 'g'};
    const u64 total = 15 * 5 * 7 * 16 * 5;
    mc::chunked c; c.name = "counter-headers"; c.count = total; c.chunk = 500; c.arena = false;
    c.body = [=](u64 from, u64 to) {
        using namespace cref;
        start_server(base_config(2, 101) + "counter.enable = true\ncounter.buckets = 11\n"); mc::block_until([]{ return mc::listening(CNT); }, "counter listener", 30000);
        cclient cl(0), ob(1); MC_REQUIRE(ob.acquire("safe", 3, 5).status == 0, "harness"); u32 o = 1000;
        for( u64 n = from; n < to; ++n ) {
            mc::progress(n); mc::count_transition();
            u64 r = n; int mg = MG[r % 5]; r /= 5; u32 rs = RS[r % 4]; r /= 4; u32 mx = RS[r % 4]; r /= 4; int xb = XB[r % 7]; r /= 7; int nl = NL[r % 5]; r /= 5; int op = ops[r];
            string fixed = op == cAcquire ? be(rs, 4) + be(mx, 4) : op == cRelease ? be(rs, 4) : "";
            string body = fixed + be(nl, 2) + string(nl, 'z');
            if( xb < 0 ) { long l = (long)body.size() + xb; body.resize(l < 0 ? 0 : l); } else body += string(xb, 'y');
            bool known = op <= 3 || op == 0x10 || op == 0x11, nobody = op == 0 || op == 0x10 || op == 0x11;
            std::size_t need = fixed.size() + 2 + nl;
            bool fits = body.size() >= need, invalid = mg != 0x90 || (known && ! nobody && (! fits || nl == 0 || (op == cAcquire && (rs == 0 || mx < rs))));
            mc::visit_state(mc::mix(n, invalid));
            u32 oq = ++o; string rq = be(mg, 1) + be(op, 1) + be(0, 2) + be(body.size(), 4) + be(oq, 4) + body;
            string what = "counter request magic " + std::to_string(mg) + " op " + std::to_string(op) + " name length " + std::to_string(nl) + " body " + std::to_string(body.size()) + " resources " + std::to_string(rs) + " maximum " + std::to_string(mx);
            cl.send(rq); mc::wait_idle(); string got = cl.take();
            u32 so = ++o; cl.send(cget("safe", so)); mc::wait_idle(); string s = cl.take(); cresp sr;
            if( ! parse_c(s, sr) || ! s.empty() || sr.opaque != so || sr.status != 0 || sr.body != be(3, 4) ) mc::fail("after %s the next request got \"%s\"", what.c_str(), quote(s).c_str());
            cresp x; string rest = got; if( ! parse_c(rest, x) ) mc::fail("%s was answered with \"%s\"", what.c_str(), quote(got).c_str());
            if( x.opaque != oq || x.op != op ) mc::fail("the reply to %s does not echo opcode and opaque: %s", what.c_str(), show(x).c_str());
            if( invalid || ! known ) {
                if( ! rest.empty() || x.status == 0 ) mc::fail("invalid %s was answered with %s", what.c_str(), show(x).c_str());
                if( mg == 0x90 && ! known && x.status != sUnknown ) mc::fail("unknown %s was answered with %s", what.c_str(), show(x).c_str());
                if( mg == 0x90 && known && x.status != sInvalid ) mc::fail("invalid %s was answered with %s", what.c_str(), show(x).c_str());
                if( n % 7 == 0 ) { auto d = ob.dump(); for( auto& p: d ) if( p.first != "safe" && p.second.cur ) mc::fail("%s left counter %s at %u", what.c_str(), quote(p.first, 20).c_str(), p.second.cur); }
            } else {
                if( x.status == sInvalid || x.status == sUnknown ) mc::fail("valid %s was answered with %s", what.c_str(), show(x).c_str());
                if( op == cAcquire && x.status == 0 && rs ) { cresp y = cl.release(string(nl, 'z'), rs); MC_REQUIRE(y.status == 0, "cannot release after %s: %s", what.c_str(), show(y).c_str()); }
            }
        }
        stop_server();
    };
    return c;
}
// ----------------------------------------------------- oversized requests
static mc::chunked oversized() {
    mc::chunked c; c.name = "oversized"; c.count = 8; c.chunk = 1; c.arena = false;
    c.body = [](u64 from, u64 to) {
        start_server(base_config(2, 101) + "counter.enable = true\ncounter.buckets = 11\n"); mc::block_until([]{ return mc::listening(CNT); }, "counter listener", 30000);
        client o(PORT, 1); o.cmd("set s 9 0 4\r\nsafe\r\n");
        for( u64 n = from; n < to; ++n ) {
            mc::progress(n); mc::count_transition(); mc::visit_state(n);
            client c(n == 6 || n == 7 ? CNT : PORT, 0); string head; std::size_t fill = 31u << 20;
            switch( n ) {
            case 0: break;                                                    // a line that never ends
            case 1: head = "set big 0 0 4294967295\r\n"; break;
            case 2: head = "set big 0 0 40000000\r\n"; break;
            case 3: head = be(0x80, 1) + be(bSet, 1) + be(3, 2) + be(8, 1) + be(0, 3) + be(0xffffffffu, 4) + be(0, 12) + string(8, 0) + "big"; break;
            case 4: head = be(0x80, 1) + be(bGet, 1) + be(65535, 2) + be(255, 1) + be(0, 3) + be(40000000, 4) + be(0, 12); break;
            case 5: head = be(0x80, 1) + be(0xee, 1) + be(0, 2) + be(0, 1) + be(0, 3) + be(0x80000000u, 4) + be(0, 12); break;
            case 6: head = be(0x90, 1) + be(2, 1) + be(0, 2) + be(0xffffffffu, 4) + be(0, 4); break;
            case 7: head = be(0x90, 1) + be(0xee, 1) + be(0, 2) + be(40000000, 4) + be(0, 4); break;
            }
            c.send(head); string blk(1 << 20, 'a');
            for( std::size_t k = 0; k < fill && ! c.server_closed(); k += blk.size() ) { c.send(blk); mc::wait_idle(); }
            MC_REQUIRE(c.server_closed(), "oversized request %d: the connection is not closed after %zu bytes", (int)n, fill);
            string r = o.get("s big"); MC_REQUIRE(r == SENT_REPLY, "another connection got \"%s\"", quote(r).c_str());
        }
        stop_server();
    };
    return c;
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C04";
    c.rule = "all request lines formed from the listed verbs, operand values, tails, spacings and terminators; all short garbage strings; all 256 binary opcodes with the listed extras, key, data and total lengths; counter requests likewise; requests above the size limit. Oracle: an independent reading of the protocol documents";
    c.sequences.push_back(text_lines()); c.sequences.push_back(garbage()); c.sequences.push_back(bin_headers()); c.sequences.push_back(counter_headers()); c.sequences.push_back(oversized());
    return mc::main_(argc, argv, c);
}
