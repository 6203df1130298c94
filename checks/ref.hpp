// A deliberately boring reference model of the memcache service (text and
// binary protocol, locks, expiry), and drivers comparing the real server
// with it, reply by reply.
#ifndef REF_HPP
#define REF_HPP
#include "../mc/harness.hpp"
#include <memory>

namespace ref {
using namespace h;
typedef std::uint64_t u64;
typedef std::uint32_t u32;

struct obj { string val; u32 flags = 0; long exp = 0; u64 ver = 0; int owner = -1; };

enum res { OK, NOTFOUND, EXISTS, NOTSTORED, LOCKED, NOTLOCKED, NONNUM, TOOLARGE, CREATED };

struct store {
    std::map<string, obj> m;
    u64 ver = 0;                   // every modification takes a new version
    std::size_t max_data = 1 << 20;
    std::size_t max_num = 4096;    // numbers live in memory only
    long now = 0;

    std::vector<long> flushes;     // pending delayed flushes
    void tick(long t) {
        now = t;
        for( std::size_t i = 0; i < flushes.size(); ) if( flushes[i] <= now ) { flush(); flushes.erase(flushes.begin() + i); } else ++i;
        for( auto it = m.begin(); it != m.end(); )
            if( it->second.owner == -1 && it->second.exp != 0 && it->second.exp <= now ) it = m.erase(it); else ++it;
    }
    long abs_exp(long e) const { return e == 0 ? 0 : e > 2592000 ? e : now + e; }
    obj* find(const string& k) { auto it = m.find(k); return it == m.end() ? nullptr : &it->second; }
    bool other(obj* o, int c) const { return o->owner != -1 && o->owner != c; }

    // cas: 0 = none, otherwise the version that must match (~0 = no version)
    res put(char kind, int c, const string& k, const string& v, u32 f, long e, u64 cas) {
        if( v.size() > max_data ) return TOOLARGE;
        obj* o = find(k);
        if( ! o ) {
            if( kind == 'r' || cas ) return NOTFOUND;
            obj n; n.val = v; n.flags = f; n.exp = abs_exp(e); n.ver = ++ver; m[k] = n; reap(k); return OK;
        }
        if( other(o, c) ) return LOCKED;
        if( kind == 'a' ) return NOTSTORED;
        if( cas && cas != o->ver ) return EXISTS;
        o->val = v; o->flags = f; o->exp = abs_exp(e); o->ver = ++ver; reap(k); return OK;
    }
    void reap(const string& k) { obj* o = find(k); if( o && o->owner == -1 && o->exp && o->exp <= now ) m.erase(k); }
    res concat(bool front, int c, const string& k, const string& v, u64 cas) {
        obj* o = find(k); if( ! o ) return NOTFOUND;
        if( other(o, c) ) return LOCKED;
        if( cas && cas != o->ver ) return EXISTS;
        if( o->val.size() + v.size() > max_data && ! v.empty() ) return TOOLARGE;
        o->val = front ? v + o->val : o->val + v; o->ver = ++ver; return OK;
    }
    // Leading blanks and trailing garbage are tolerated (the unit tests of the
    // repository pin this down); signs are not used by any check.
    static bool number(const string& s, u64& n) {
        std::size_t i = 0; while( i < s.size() && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13)) ) ++i;
        if( i == s.size() || s[i] < '0' || s[i] > '9' ) return false;
        n = 0;
        for( ; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i ) {
            u64 d = s[i] - '0';
            if( n > (~0ULL - d) / 10 ) return false;
            n = n * 10 + d;
        }
        return true;
    }
    res arith(bool inc, int c, const string& k, u64 d, u64 cas, bool create, u64 initial, long e, u64& out) {
        obj* o = find(k);
        if( ! o ) {
            if( ! create ) return NOTFOUND;
            obj n; n.val = std::to_string(initial); n.exp = abs_exp(e); n.ver = ++ver; m[k] = n; reap(k); out = initial; return CREATED;
        }
        if( other(o, c) ) return LOCKED;
        if( cas && cas != o->ver ) return EXISTS;
        u64 n; if( o->val.size() > max_num || ! number(o->val, n) ) return NONNUM;
        n = inc ? n + d : n < d ? 0 : n - d;
        o->val = std::to_string(n); o->ver = ++ver; out = n; return OK;
    }
    res touch(int, const string& k, long e) {
        obj* o = find(k); if( ! o ) return NOTFOUND;
        o->exp = abs_exp(e); reap(k); return OK;
    }
    res del(int c, const string& k, u64 cas) {
        obj* o = find(k); if( ! o ) return NOTFOUND;
        if( other(o, c) ) return LOCKED;
        if( cas && cas != o->ver ) return EXISTS;
        m.erase(k); return OK;
    }
    res lock(int c, const string& k) {
        obj* o = find(k); if( ! o ) return NOTFOUND;
        if( o->owner != -1 ) return LOCKED;
        o->owner = c; return OK;
    }
    res unlock(int c, const string& k) {
        obj* o = find(k); if( ! o ) return NOTFOUND;
        if( o->owner != c ) return NOTLOCKED;
        o->owner = -1; reap(k); return OK;
    }
    void unlock_all(int c) { std::vector<string> ks; for( auto& p: m ) if( p.second.owner == c ) { p.second.owner = -1; ks.push_back(p.first); } for( auto& k: ks ) reap(k); }
    void flush() { for( auto it = m.begin(); it != m.end(); ) if( it->second.owner == -1 ) it = m.erase(it); else ++it; }
    u64 hash() const {
        u64 x = 7;
        // versions only matter relative to each other
        std::map<u64, int> rank; for( auto& p: m ) rank[p.second.ver] = 0; int n = 0; for( auto& r: rank ) r.second = n++;
        for( auto& p: m ) {
            x = mc::mix(x, mc::hash_str(p.first)); x = mc::mix(x, mc::hash_str(p.second.val));
            x = mc::mix(x, p.second.flags); x = mc::mix(x, p.second.exp ? p.second.exp - now + 10 : 0); x = mc::mix(x, p.second.owner + 2); x = mc::mix(x, rank[p.second.ver]);
        }
        return x;
    }
};

// ------------------------------------------------------------- commands
enum casmode { CAS_NONE, CAS_CURRENT, CAS_BOGUS, CAS_OLD, CAS_FIXED };
struct cmd {
    // kinds: s a r (set add replace) A P (append prepend) c (text cas)
    //        g G (get gets) + - (incr decr) t touch d delete l u U locks
    //        L lock-and-get, R replace-and-unlock, T get-and-touch, n noop
    //        z = let time pass (val: milliseconds in delta), f flush_all (initial: give a delay of 0 explicitly), Q quit(reconnect)
    char kind = 'g';
    int conn = 0;
    bool bin = false, quiet = false, withkey = false;
    string key, val, key2;
    u32 flags = 0; long exp = 0;      // exp -1: no expiry field
    u64 delta = 0, initial = 0;
    casmode cas = CAS_NONE;
    u64 fid = 0, fver = 0;            // CAS_FIXED: identifier and the model version it stands for
    u32 fop = 0;                      // fixed opaque
    string name() const {
        string s = (bin ? "B" : "T"); s += std::to_string(conn); s += ":"; s += kind; if( quiet ) s += 'q'; if( withkey ) s += 'k';
        s += " " + key; if( ! key2.empty() ) s += "," + key2;
        if( val.size() > 20 ) s += " <" + std::to_string(val.size()) + " bytes>"; else if( ! val.empty() ) s += " " + quote(val);
        if( flags ) s += " f" + std::to_string(flags);
        if( exp ) s += " e" + std::to_string(exp);
        if( delta ) s += " d" + std::to_string(delta); if( initial ) s += " i" + std::to_string(initial);
        if( cas ) s += cas == CAS_CURRENT ? " cas=current" : cas == CAS_OLD ? " cas=old" : cas == CAS_FIXED ? " cas=fixed" : " cas=bogus";
        return s;
    }
};
inline cmd T(char kind, const string& key, const string& val = "", u32 flags = 0, long exp = 0) { cmd c; c.kind = kind; c.key = key; c.val = val; c.flags = flags; c.exp = exp; return c; }
inline cmd B(char kind, const string& key, const string& val = "", u32 flags = 0, long exp = 0) { cmd c = T(kind, key, val, flags, exp); c.bin = true; return c; }
inline cmd on(int conn, cmd c) { c.conn = conn; return c; }
inline cmd quiet(cmd c) { c.quiet = true; return c; }
inline cmd withk(cmd c) { c.withkey = true; return c; }
inline cmd cas(casmode m, cmd c) { c.cas = m; return c; }
inline cmd num(char kind, const string& key, u64 d, bool bin = false, u64 initial = 0, long exp = -1) { cmd c; c.kind = kind; c.key = key; c.delta = d; c.bin = bin; c.initial = initial; c.exp = exp; return c; }
inline cmd wait_ms(unsigned ms) { cmd c; c.kind = 'z'; c.delta = ms; return c; }

// ----------------------------------------------------- expected replies
struct expect {                    // one reply
    bool bin = false, optional = false, any_status = false;
    // text: literal pieces; "\1<ver> <key>\1" stands for a CAS identifier
    string text;
    bool error_line = false;       // any line containing ERROR
    u32 opaque = 0; int op = 0; std::vector<int> status; string value, key; bool has_flags = false; u32 flags = 0; u64 ver = 0; bool check_value = false, check_key = false;
};

class driver {
public:
    store st;
    string prefix;                 // every key gets this prefix (fresh keys)
    struct con { bool bin; std::unique_ptr<bclient> c; std::vector<expect> q; string log; };
    std::map<int, con> cons;
    std::map<std::pair<string, u64>, u64> ids;   // (key, version) -> CAS id
    std::map<string, std::map<u64, u64>> seen;   // key -> CAS id -> version
    u32 opaque = 1;
    std::function<void(const string&)> oops;
    string trace;
    int ports = PORT;
    bool strict_old = true;

    con& get(int i) {
        auto& x = cons[i];
        if( ! x.c && ! offline ) { x.c.reset(new bclient(ports, i)); }
        return x;
    }
    bool soft = false;             // mismatches throw instead of failing
    struct mismatch { string m; };
    void die(const string& m) {
        if( soft ) throw mismatch{m};
        mc::fail("%s   after: %s", m.c_str(), trace.c_str());
    }
    // "#250" stands for a key of exactly 250 bytes (prefix included)
    string K(const string& k) const {
        string r = prefix + k;
        if( ! k.empty() && k[0] == '#' ) { std::size_t n = std::stoul(k.substr(1)); if( r.size() < n ) r += string(n - r.size(), '#'); }
        return r;
    }
    string unK(const string& k) const { string r = k.substr(prefix.size()); if( ! r.empty() && r[0] == '#' ) r = r.substr(0, r.find('#', 1)); return r; }

    void learn(const string& k, u64 ver, u64 id) {
        if( id == 0 ) die("CAS identifier of " + k + " is zero");
        auto p = std::make_pair(k, ver);
        auto it = ids.find(p);
        if( it == ids.end() ) {
            auto& s = seen[k];
            if( s.count(id) && s[id] != ver ) die("CAS identifier " + std::to_string(id) + " of key " + k + " was already used for a different version of the object");
            ids[p] = id; s[id] = ver;
        } else if( it->second != id ) die("CAS identifier of unmodified object " + k + " changed from " + std::to_string(it->second) + " to " + std::to_string(id));
    }
    // current id of key k (asks the server when unknown)
    u64 current(int conn, const string& k) {
        obj* o = st.find(k);
        if( ! o ) return 0x7fff1234567ULL;
        auto it = ids.find({k, o->ver});
        if( it != ids.end() ) return it->second;
        cmd c = cons[conn].bin ? B('g', unK(k)) : T('G', unK(k));
        c.conn = conn; raw(c); flush(conn);
        it = ids.find({k, o->ver});
        if( it == ids.end() ) die("CAS identifier of " + k + " not learnt");
        return it->second;
    }
    // wire id and model version for a CAS mode
    std::pair<u64, u64> casarg(const cmd& c, const string& k) {
        if( c.cas == CAS_NONE ) return {0, 0};
        if( c.cas == CAS_FIXED ) return {c.fid, c.fver};
        if( c.cas == CAS_BOGUS ) return {0x6fff1234567ULL, ~0ULL};
        if( c.cas == CAS_CURRENT ) { u64 id = current(c.conn, k); obj* o = st.find(k); return {id, o ? o->ver : ~0ULL}; }
        // an identifier seen for an earlier version (or incarnation)
        auto it = seen.find(k); obj* o = st.find(k);
        if( it != seen.end() ) for( auto& p: it->second ) if( ! o || p.second != o->ver ) return {p.first, p.second};
        return {0x6fff1234567ULL, ~0ULL};
    }

    void run(const cmd& c) {
        trace += (trace.empty() ? "" : "; ") + c.name();
        raw(c);
        mc::visit_state(st.hash()); mc::count_transition();
    }
    // expiry times <= -1000 stand for the absolute time now + (-1000 - exp)
    void raw(const cmd& c0) {
        cmd c = c0; if( c.exp <= -1000 ) c.exp = mc::now_sec() + (-1000 - c.exp);
        if( c.kind == 'z' ) { flush_all(); mc::sleep_ms(c.delta); st.tick(mc::now_sec()); return; }
        flush_others(c.conn);
        if( ! offline ) st.tick(mc::now_sec());
        con& x = get(c.conn); x.bin = c.bin;
        if( on_cmd ) on_cmd(c);
        if( c.bin ) binary(x, c); else text(x, c);
    }
    // capture mode: collect the bytes instead of sending them
    bool capture = false, offline = false; string captured;
    std::function<void(const cmd&)> on_cmd;          // before a command changes the model
    std::function<void(const string&)> on_bytes;     // what is sent for it
    void emit(con& x, const string& bytes) { if( on_bytes ) on_bytes(bytes); if( capture ) captured += bytes; else x.c->send(bytes); }
    void flush_others(int i) { if( capture ) return; for( auto& p: cons ) if( p.first != i ) flush(p.first); }
    void flush_all() { for( auto& p: cons ) flush(p.first); }

    // ------------------------------------------------------------- text
    void text(con& x, const cmd& c) {
        string k = K(c.key), w, e; bool nr = c.quiet; string tail = nr ? " noreply\r\n" : "\r\n";
        expect ex; res r; u64 out = 0;
        auto stored = [&](res q) { return q == OK ? "STORED\r\n" : q == LOCKED ? "LOCKED\r\n" : q == EXISTS ? "EXISTS\r\n" : q == NOTFOUND ? "NOT_FOUND\r\n" : "NOT_STORED\r\n"; };
        switch( c.kind ) {
        case 's': case 'a': case 'r':
            w = string(c.kind == 's' ? "set " : c.kind == 'a' ? "add " : "replace ") + k + " " + std::to_string(c.flags) + " " + std::to_string(c.exp) + " " + std::to_string(c.val.size()) + tail + c.val + "\r\n";
            r = st.put(c.kind, c.conn, k, c.val, c.flags, c.exp, 0);
            if( r == TOOLARGE ) { ex.error_line = true; nr = false; } else e = stored(r == NOTFOUND ? NOTSTORED : r);
            break;
        case 'c': {
            auto a = casarg(cas(c.cas == CAS_NONE ? CAS_CURRENT : c.cas, c), k);
            w = "cas " + k + " " + std::to_string(c.flags) + " " + std::to_string(c.exp) + " " + std::to_string(c.val.size()) + " " + std::to_string(a.first) + tail + c.val + "\r\n";
            r = st.put('s', c.conn, k, c.val, c.flags, c.exp, a.second);
            if( r == TOOLARGE ) { ex.error_line = true; nr = false; } else e = stored(r); break; }
        case 'A': case 'P':
            w = string(c.kind == 'A' ? "append " : "prepend ") + k + " " + std::to_string(c.flags) + " " + std::to_string(c.exp) + " " + std::to_string(c.val.size()) + tail + c.val + "\r\n";
            r = st.concat(c.kind == 'P', c.conn, k, c.val, 0); if( r == TOOLARGE ) { ex.error_line = true; nr = false; } else e = stored(r == NOTFOUND ? NOTSTORED : r); break;
        case '+': case '-':
            w = string(c.kind == '+' ? "incr " : "decr ") + k + " " + std::to_string(c.delta) + tail;
            r = st.arith(c.kind == '+', c.conn, k, c.delta, 0, false, 0, 0, out);
            if( r == NONNUM ) ex.error_line = true; else e = r == OK ? std::to_string(out) + "\r\n" : stored(r); break;
        case 't':
            w = "touch " + k + " " + std::to_string(c.exp) + tail;
            e = st.touch(c.conn, k, c.exp) == OK ? "TOUCHED\r\n" : "NOT_FOUND\r\n"; break;
        case 'd':
            w = "delete " + k + tail;
            r = st.del(c.conn, k, 0); e = r == OK ? "DELETED\r\n" : stored(r); break;
        case 'l': w = "lock " + k + "\r\n"; r = st.lock(c.conn, k); e = r == OK ? "OK\r\n" : stored(r); nr = false; break;
        case 'u': w = "unlock " + k + "\r\n"; r = st.unlock(c.conn, k); if( r == OK ) e = "OK\r\n"; else ex.error_line = true; nr = false; break;
        case 'U': w = "unlock_all\r\n"; st.unlock_all(c.conn); e = "OK\r\n"; nr = false; break;
        case 'g': case 'G': {
            w = string(c.kind == 'g' ? "get " : "gets ") + k; if( ! c.key2.empty() ) w += " " + K(c.key2); w += "\r\n"; nr = false;
            for( const string& kk: {k, c.key2.empty() ? string() : K(c.key2)} ) {
                if( kk.empty() ) continue;
                obj* o = st.find(kk); if( ! o ) continue;
                e += "VALUE " + kk + " " + std::to_string(o->flags) + " " + std::to_string(o->val.size());
                if( c.kind == 'G' ) e += " \1" + std::to_string(o->ver) + " " + kk + "\1";
                e += "\r\n" + o->val + "\r\n";
            }
            e += "END\r\n"; break; }
        case 'f': w = "flush_all" + (c.exp || c.initial ? " " + std::to_string(c.exp) : string()) + tail; if( c.exp ) st.flushes.push_back(st.abs_exp(c.exp)); else st.flush(); e = "OK\r\n"; break;
        case 'n': w = "slabs\r\n"; e = "OK\r\n"; nr = false; break;
        default: mc::fail("harness: bad text command %c", c.kind);
        }
        if( ! offline ) mc::note("c%d -> %s", c.conn, quote(w, 100).c_str());
        x.log += w;
        emit(x, w);
        if( ! nr ) { ex.text = e; x.q.push_back(ex); }

    }

    // ----------------------------------------------------------- binary
    void binary(con& x, const cmd& c) {
        string k = K(c.key), extras, v, wk = k; int op = -1; expect ex; ex.bin = true; res r = OK; u64 out = 0; bool q = c.quiet, reply_value = false, miss_silent = false;
        auto a = casarg(c, k);
        u32 e32 = c.exp < 0 ? 0xffffffffu : (u32)c.exp;
        obj* o = nullptr;
        switch( c.kind ) {
        case 's': case 'a': case 'r':
            op = c.kind == 's' ? (q ? bSetQ : bSet) : c.kind == 'a' ? (q ? bAddQ : bAdd) : (q ? bReplaceQ : bReplace);
            extras = bset_extras(c.flags, e32); v = c.val;
            r = st.put(c.kind, c.conn, k, v, c.flags, c.exp, a.second); if( r == NOTSTORED ) r = EXISTS;
            break;
        case 'A': case 'P': op = c.kind == 'A' ? (q ? bAppendQ : bAppend) : (q ? bPrependQ : bPrepend); v = c.val; r = st.concat(c.kind == 'P', c.conn, k, v, a.second); if( r == NOTFOUND ) ex.status = {1, 5}; break;
        case '+': case '-':
            op = c.kind == '+' ? (q ? bIncrQ : bIncr) : (q ? bDecrQ : bDecr);
            extras = be(c.delta, 8) + be(c.initial, 8) + be(e32, 4);
            r = st.arith(c.kind == '+', c.conn, k, c.delta, a.second, c.exp >= 0, c.initial, c.exp, out);
            if( r == OK || r == CREATED ) { r = OK; ex.check_value = true; ex.value = be(out, 8); }
            break;
        case 't': op = bTouch; extras = be(e32, 4); r = st.touch(c.conn, k, c.exp); q = false; break;
        case 'd': op = q ? bDeleteQ : bDelete; r = st.del(c.conn, k, a.second); if( r == NOTFOUND && q ) ex.optional = true; break;
        case 'l': op = q ? bLockQ : bLock; r = st.lock(c.conn, k); break;
        case 'u': op = q ? bUnlockQ : bUnlock; r = st.unlock(c.conn, k); break;
        case 'U': op = q ? bUnlockAllQ : bUnlockAll; wk = ""; st.unlock_all(c.conn); break;
        case 'n': op = bNoop; wk = ""; q = false; break;
        case 'f': op = q ? bFlushQ : bFlush; wk = ""; if( c.exp || c.initial ) extras = be(e32, 4); if( c.exp ) { st.flushes.push_back(st.abs_exp(c.exp)); } else st.flush(); break;
        case 'R': op = q ? bRaUQ : bRaU; extras = bset_extras(c.flags, e32); v = c.val;
            o = st.find(k);
            if( v.size() > st.max_data ) r = TOOLARGE; else if( ! o ) r = NOTFOUND; else if( o->owner != c.conn ) r = NOTLOCKED;
            else if( a.second && a.second != o->ver ) r = EXISTS;
            else { r = st.put('s', c.conn, k, v, c.flags, c.exp, 0); o = st.find(k); if( o ) { ex.ver = o->ver; o->owner = -1; st.reap(k); } }
            break;
        case 'g': case 'T': case 'L':
            if( c.kind == 'g' ) op = c.withkey ? (q ? bGetKQ : bGetK) : (q ? bGetQ : bGet);
            if( c.kind == 'T' ) op = c.withkey ? (q ? bGaTKQ : bGaTK) : (q ? bGaTQ : bGaT);
            if( c.kind == 'L' ) op = c.withkey ? (q ? bLaGKQ : bLaGK) : (q ? bLaGQ : bLaG);
            if( c.exp >= 0 && c.kind != 'g' ) extras = be(e32, 4);
            miss_silent = q && c.kind != 'L';
            reply_value = true; q = false;
            o = st.find(k);
            if( ! o ) r = NOTFOUND;
            else if( c.kind == 'L' && o->owner != -1 ) r = LOCKED;
            else {
                if( c.kind == 'L' ) o->owner = c.conn;
                ex.value = o->val; ex.check_value = true; ex.has_flags = true; ex.flags = o->flags; ex.ver = o->ver; ex.check_key = true; ex.key = c.withkey ? k : "";
                if( c.exp >= 0 && c.kind != 'g' ) st.touch(c.conn, k, c.exp);
            }
            break;
        default: mc::fail("harness: bad binary command %c", c.kind);
        }
        ex.op = op; ex.opaque = c.fop ? c.fop : opaque++;
        if( ! offline ) mc::note("c%d => op %02x key %s val %s cas %llu", c.conn, op, wk.c_str(), quote(v, 40).c_str(), (unsigned long long)a.first);
        emit(x, bin(op, wk, extras, v, a.first, ex.opaque));
        static const int code[] = {0, 1, 2, 5, 0x10, 0x11, 6, 3, 0};
        if( ex.status.empty() ) ex.status = {code[r]};
        if( r == OK ) { obj* n = st.find(k); if( n && ! ex.ver && (c.kind != 'l' && c.kind != 'u' && c.kind != 'U' && c.kind != 'n' && c.kind != 'f') ) ex.ver = n->ver; }
        if( r == OK && q ) return;
        if( reply_value && r == NOTFOUND && miss_silent ) return;
        expect_key[ex.opaque] = k;
        x.q.push_back(ex);
    }
    std::map<u32, string> expect_key;

    // compare everything outstanding on a connection
    void flush(int i) {
        auto it = cons.find(i); if( it == cons.end() || ! it->second.c ) return;
        con& x = it->second;
        mc::wait_idle();
        string got = x.c->take();
        mc::note("c%d <- %s", i, quote(got, 200).c_str());
        match(x, got);
    }
    void match(con& x, string got) {
        std::size_t n = 0;
        string whole = got;
        for( auto& e: x.q ) {
            ++n;
            if( e.bin ) {
                if( e.optional && (got.empty() || (unsigned char)got[0] != 0x81) ) continue;
                bresp r; string save = got;
                if( got.empty() || ! parse_bin(got, r) ) die("reply " + std::to_string(n) + " missing (opcode " + std::to_string(e.op) + "); received \"" + quote(whole, 300) + "\"");
                if( e.optional && r.opaque != e.opaque ) { got = save; continue; }
                if( r.opaque != e.opaque ) die("unexpected or misordered reply: " + show(r) + " where opaque " + std::to_string(e.opaque) + " was expected");
                if( r.op != e.op ) die("reply does not echo the opcode: " + show(r));
                bool ok = false; string want; for( int s: e.status ) { if( r.status == s ) ok = true; want += std::to_string(s) + " "; }
                if( ! ok ) die("status " + std::to_string(r.status) + " where " + want + "was expected: " + show(r));
                if( r.status == 0 ) {
                    if( e.check_value && r.value != e.value ) die("wrong value: " + show(r) + " expected " + quote(e.value, 60));
                    if( ! e.check_value && ! r.value.empty() && e.op != bVersion ) die("unexpected value: " + show(r));
                    if( e.has_flags && (r.extras.size() != 4 || rd(r.extras, 0, 4) != e.flags) ) die("wrong flags: " + show(r) + " extras \"" + quote(r.extras) + "\" expected " + std::to_string(e.flags));
                    if( e.check_key && r.key != e.key ) die("wrong key: " + show(r));
                    if( e.ver ) learn(expect_key[e.opaque], e.ver, r.cas);
                }
            } else {
                if( e.error_line ) {
                    std::size_t p = got.find("\r\n");
                    if( e.optional && (p == string::npos || got.substr(0, p).find("ERROR") == string::npos) ) continue;
                    if( p == string::npos || got.substr(0, p).find("ERROR") == string::npos ) die("an error line was expected, received \"" + quote(got, 200) + "\"");
                    got.erase(0, p + 2); continue;
                }
                // literal match with CAS placeholders
                std::size_t gp = 0, p = 0;
                while( p < e.text.size() ) {
                    if( e.text[p] == '\1' ) {
                        std::size_t q = e.text.find('\1', p + 1); string body = e.text.substr(p + 1, q - p - 1);
                        u64 ver = strtoull(body.c_str(), nullptr, 10); string kk = body.substr(body.find(' ') + 1);
                        std::size_t s = gp; while( gp < got.size() && got[gp] >= '0' && got[gp] <= '9' ) ++gp;
                        if( s == gp ) die("CAS identifier missing in \"" + quote(got, 200) + "\"");
                        learn(kk, ver, strtoull(got.substr(s, gp - s).c_str(), nullptr, 10));
                        p = q + 1;
                    } else {
                        if( gp >= got.size() || got[gp] != e.text[p] ) die("reply " + std::to_string(n) + " differs: expected \"" + quote(e.text, 200) + "\", received \"" + quote(got, 200) + "\"");
                        ++gp; ++p;
                    }
                }
                got.erase(0, gp);
            }
        }
        x.q.clear();
        if( ! got.empty() ) die("unexpected extra output \"" + quote(got, 200) + "\"");
    }
    // check the whole store through connection `i`
    void final_check(int i, std::initializer_list<const char*> keys, bool bin = false) {
        for( auto k: keys ) { cmd c = bin ? B('g', k) : T('G', k); c.conn = i; raw(c); }
        flush_all();
    }
    // forget a finished case: new keys from now on
    void next_case(const string& pfx) {
        prefix = pfx; trace.clear(); expect_key.clear();
    }
};

// Is the command meaningful / specified in this model state? (touching an
// object locked by somebody else is not specified)
inline bool specified(driver& d, const cmd& c) {
    d.st.tick(mc::now_sec());
    obj* o = d.st.find(d.K(c.key));
    if( o && (c.kind == 't' || c.kind == 'T') && d.st.other(o, c.conn) ) return false;
    return true;
}

// Enumerate all sequences of length `depth` over `alphabet` (base-n digits).
inline std::vector<int> digits(u64 i, int n, int depth) { std::vector<int> d(depth); for( int k = 0; k < depth; ++k ) { d[k] = i % n; i /= n; } return d; }
inline u64 power(u64 n, int d) { u64 r = 1; while( d-- ) r *= n; return r; }

struct space {
    string name, cfg;
    std::vector<cmd> pre;          // executed before every sequence
    std::vector<cmd> alphabet;
    int depth = 3;
    std::vector<const char*> keys; // checked at the end
    bool binfinal = false;
    bool clean_locks = true;
    u64 chunk = 0;
    std::size_t max_data = 1 << 20;
    std::function<void(driver&)> init;     // once per server
    std::function<void(driver&)> at_end;   // after a sequence, before the final read
    std::function<void(driver&)> emptied;  // called after every key was deleted again
};
inline string describe_seq(const space& s, u64 i) { string r; for( auto& c: s.pre ) r += c.name() + "; "; for( int d: digits(i, s.alphabet.size(), s.depth) ) r += s.alphabet[d].name() + "; "; return r; }

// Build a sequential exploration of a space.
inline mc::chunked explore(const space& sp) {
    auto S = std::make_shared<space>(sp);
    mc::chunked c;
    c.name = S->name; c.count = power(S->alphabet.size(), S->depth); c.chunk = S->chunk ? S->chunk : std::max<u64>(1, std::min<u64>(400, c.count / 64 + 1));
    c.arena = false;
    c.body = [S](u64 from, u64 to) {
        start_server(S->cfg);
        driver d; d.st.max_data = S->max_data; if( S->init ) S->init(d);
        std::set<int> conns; for( auto& x: S->alphabet ) if( x.kind != 'z' ) conns.insert(x.conn);
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i);
            d.next_case("k" + std::to_string(i) + "_");
            bool skip = false;
            for( auto& x: S->pre ) d.run(x);
            for( int k: digits(i, S->alphabet.size(), S->depth) ) {
                const cmd& x = S->alphabet[k];
                if( ! specified(d, x) ) { skip = true; break; }
                d.run(x);
            }
            (void)skip;
            if( S->at_end ) { d.flush_all(); S->at_end(d); }
            int fc = S->binfinal ? 90 : 91; // observer connections
            for( auto k: S->keys ) { cmd x = S->binfinal ? B('g', k) : T('G', k); x.conn = fc; d.raw(x); }
            d.flush_all();
            if( S->clean_locks ) for( int cn: conns ) { bool b = d.cons.count(cn) ? d.cons[cn].bin : false; cmd x; x.kind = 'U'; x.conn = cn; x.bin = b; d.raw(x); }
            d.flush_all();
            if( S->emptied ) { for( auto k: S->keys ) { cmd x = S->binfinal ? B('d', k) : T('d', k); x.conn = fc; d.raw(x); } d.flush_all(); S->emptied(d); }
            d.st.m.clear();
        }
        stop_server();
    };
    return c;
}
} // namespace ref
#endif
