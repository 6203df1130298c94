// Helpers shared by the check programs: start the real server inside the
// virtual world, and speak its protocols from virtual clients.
#ifndef HARNESS_HPP
#define HARNESS_HPP

#include "mcrt.hpp"

#include <src/config.hpp>
#include <src/global.hpp>
#include <src/server.hpp>
#include <src/memcache/stats.hpp>
#include <src/counter/stats.hpp>
#include <cybozu/logger.hpp>

#include <algorithm>
#include <csignal>
#include <sys/syscall.h>
#include <unistd.h>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace h {

using std::string;

// ------------------------------------------------------------ the server
struct server_state {
    bool running = false, done = false;
    int code = -2;
};
inline server_state& srv() { static server_state s; return s; }

inline void load_config(string text) {
    for( std::size_t p; (p = text.find("@SCRATCH@")) != string::npos; ) text.replace(p, 9, mc::scratch());
    static int n = 0;
    string path = mc::scratch() + "/conf." + std::to_string(::syscall(SYS_getpid)) + "." + std::to_string(n++);
    { std::ofstream o(path); o << text; }
    yrmcds::g_config.load(path);
    ::unlink(path.c_str());
}

template<typename T> inline void ignore_atomic(T& a) { mc::ignore_atomics(&a, sizeof a); }

// Statistics counters carry no synchronisation and are not part of any
// schedule-dependent property: accesses to them are not scheduling points.
// The time of the last flush is part of the protocol; it keeps its points.
// (Written so that the harness compiles whatever the members are called.)
typedef std::vector<std::pair<const char*, const char*>> ranges;
template<typename S> inline auto keep_atomic(S& s, ranges& r, int) -> decltype((void)s.flush_time) { r.push_back({(const char*)&s.flush_time, (const char*)(&s.flush_time + 1)}); }
template<typename S> inline void keep_atomic(S&, ranges&, long) {}
inline bool& stats_points() { static bool b = false; return b; }   // true: they are, after all
inline void ignore_stats() {
    if( stats_points() ) { mc::ignore_atomics(&yrmcds::g_current_time, sizeof yrmcds::g_current_time); return; }
    auto& g = yrmcds::memcache::g_stats;
    const char* b = (const char*)&g; const char* e = b + sizeof g;
    std::vector<std::pair<const char*, const char*>> keep;
    keep_atomic(g, keep, 0);
    std::sort(keep.begin(), keep.end());
    for( auto& k: keep ) { if( k.first > b ) mc::ignore_atomics(b, k.first - b); b = k.second; }
    mc::ignore_atomics(b, e - b);
    mc::ignore_atomics(&yrmcds::counter::g_stats, sizeof yrmcds::counter::g_stats);
    mc::ignore_atomics(&yrmcds::g_current_time, sizeof yrmcds::g_current_time);
}

// Common defaults: small table, few workers.
inline string base_config(int workers = 2, int buckets = 2, const string& extra = "") {
    return "workers = " + std::to_string(workers) + "\nbuckets = " + std::to_string(buckets) +
        "\ntemp_dir = @SCRATCH@\nlog.threshold = error\n" + extra;
}

const int PORT = 11211, REPL = 11213, CNT = 11215;

inline void start_server(const string& cfg, bool wait_listen = true, bool keep_time = false) {
    load_config(cfg);
    cybozu::logger::set_threshold(yrmcds::g_config.threshold());
    if( ! keep_time )
        yrmcds::g_current_time.store(mc::now_sec());
    ignore_stats();
    srv() = server_state{};
    srv().running = true;
    mc::spawn("server", []{
        try {
            int c = mc::run_catching_exit([]{ yrmcds::server s; s.serve(); });
            srv().code = c;
        } catch( const std::exception& e ) {
            mc::fail_kind("exit", "the server terminated with an exception: %s", e.what());
        }
        srv().done = true;
        srv().running = false;
    });
    if( wait_listen )
        mc::block_until([]{ return mc::listening(PORT); }, "server start", 30000);
}

// SIGTERM and wait for the process to finish.
inline void stop_server(unsigned timeout_ms = 30000) {
    mc::raise_signal(SIGTERM);
    mc::block_until([]{ return srv().done; }, "clean shutdown after SIGTERM", timeout_ms);
    if( srv().code != 0 && srv().code != -1 )
        mc::fail_kind("exit", "server exit status %d after SIGTERM", srv().code);
}

inline string quote(const string& s, std::size_t max = 160) {
    string o; char b[8];
    for( unsigned char c: s ) {
        if( o.size() > max ) { o += "..."; break; }
        if( c == '\r' ) o += "\\r"; else if( c == '\n' ) o += "\\n";
        else if( c < 32 || c > 126 ) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += (char)c;
    }
    return o;
}

// --------------------------------------------------------- text protocol
// Length of the first complete text reply to command `verb` in b, or 0.
inline std::size_t line_end(const string& b, std::size_t from = 0) {
    std::size_t p = b.find("\r\n", from);
    return p == string::npos ? 0 : p + 2;
}

struct client: mc::client {
    int id = 0;
    client() = default;
    explicit client(int port, int id_ = 0): mc::client(port), id(id_) {}
    void put(const string& s) { mc::note("c%d -> %s", id, quote(s).c_str()); send(s); }
    string line(unsigned timeout = 10000) {
        string r = recv_until("\r\n", timeout);
        mc::note("c%d <- %s", id, quote(r).c_str());
        return r;
    }
    string cmd(const string& s, unsigned timeout = 10000) { put(s); return line(timeout); }
    string set(const string& k, const string& v, unsigned flags = 0, long exp = 0, const char* verb = "set") {
        return cmd(string(verb) + " " + k + " " + std::to_string(flags) + " " + std::to_string(exp) + " " + std::to_string(v.size()) + "\r\n" + v + "\r\n");
    }
    // reads a retrieval reply completely ("...END\r\n")
    string values(unsigned timeout = 10000) {
        string all;
        for(;;) {
            string l = recv_until("\r\n", timeout);
            all += l;
            if( l.compare(0, 6, "VALUE ") == 0 ) {
                // VALUE key flags len [cas]   (keys command: VALUE key)
                int sp = 0; std::size_t p = 0, len = 0; bool has = false;
                while( p < l.size() ) { if( l[p] == ' ' ) { ++sp; if( sp == 3 ) { len = strtoul(l.c_str() + p + 1, nullptr, 10); has = true; } } ++p; }
                if( has ) { string d = recv(len + 2, timeout); all += d; }
            } else if( l == "END\r\n" ) break;
            else if( l.compare(0, 5, "STAT ") != 0 ) break;
        }
        mc::note("c%d <- %s", id, quote(all).c_str());
        return all;
    }
    string get(const string& k, const char* verb = "get") { put(string(verb) + " " + k + "\r\n"); return values(); }
    // value of k or "<none>"
    string val(const string& k) {
        string r = get(k);
        if( r == "END\r\n" ) return "<none>";
        std::size_t e = r.find("\r\n");
        if( r.size() < e + 2 + 7 ) mc::fail("malformed reply to get: \"%s\"", quote(r).c_str());
        return r.substr(e + 2, r.size() - (e + 2) - 7);
    }
    unsigned long long casid(const string& k) {
        string r = get(k, "gets");
        if( r == "END\r\n" ) return 0;
        std::size_t e = r.find("\r\n"); std::size_t sp = r.rfind(' ', e);
        return strtoull(r.c_str() + sp + 1, nullptr, 10);
    }
};

// ------------------------------------------------------- binary protocol
inline string be(std::uint64_t v, int n) { string s; for( int i = n - 1; i >= 0; --i ) s += (char)(v >> (8 * i)); return s; }
inline std::uint64_t rd(const string& s, std::size_t off, int n) { std::uint64_t v = 0; for( int i = 0; i < n; ++i ) v = v << 8 | (unsigned char)s[off + i]; return v; }

enum bop { bGet = 0, bSet, bAdd, bReplace, bDelete, bIncr, bDecr, bQuit, bFlush, bGetQ, bNoop, bVersion, bGetK, bGetKQ, bAppend, bPrepend, bStat,
           bSetQ = 0x11, bAddQ, bReplaceQ, bDeleteQ, bIncrQ, bDecrQ, bQuitQ, bFlushQ, bAppendQ, bPrependQ, bTouch = 0x1c, bGaT, bGaTQ, bGaTK = 0x23, bGaTKQ,
           bLock = 0x40, bLockQ, bUnlock, bUnlockQ, bUnlockAll, bUnlockAllQ, bLaG, bLaGQ, bLaGK, bLaGKQ, bRaU, bRaUQ, bKeys = 0x50 };

inline string bin(int op, const string& key, const string& extras = "", const string& val = "", std::uint64_t cas = 0, std::uint32_t opaque = 0) {
    return be(0x80, 1) + be(op, 1) + be(key.size(), 2) + be(extras.size(), 1) + be(0, 3) +
        be(extras.size() + key.size() + val.size(), 4) + be(opaque, 4) + be(cas, 8) + extras + key + val;
}
inline string bset_extras(std::uint32_t flags, std::uint32_t exp) { return be(flags, 4) + be(exp, 4); }

struct bresp { int op = -1, status = -1; std::uint32_t opaque = 0; std::uint64_t cas = 0; string extras, key, value; };

inline string show(const bresp& r) {
    char b[200]; snprintf(b, sizeof b, "op=%02x status=%x opaque=%u cas=%llu extras=%zu", r.op, r.status, r.opaque, (unsigned long long)r.cas, r.extras.size());
    return string(b) + " key=" + quote(r.key) + " value=" + quote(r.value);
}
// Parse one response from the front of s; false when incomplete.
inline bool parse_bin(string& s, bresp& r) {
    if( s.size() < 24 ) return false;
    if( (unsigned char)s[0] != 0x81 ) mc::fail("binary response does not start with 0x81: \"%s\"", quote(s).c_str());
    std::size_t kl = rd(s, 2, 2), el = rd(s, 4, 1), tl = rd(s, 8, 4);
    if( kl + el > tl ) mc::fail("binary response with inconsistent lengths: \"%s\"", quote(s).c_str());
    if( s.size() < 24 + tl ) return false;
    r.op = rd(s, 1, 1); r.status = rd(s, 6, 2); r.opaque = rd(s, 12, 4); r.cas = rd(s, 16, 8);
    r.extras = s.substr(24, el); r.key = s.substr(24 + el, kl); r.value = s.substr(24 + el + kl, tl - el - kl);
    s.erase(0, 24 + tl);
    return true;
}
struct bclient: client {
    bclient() = default;
    explicit bclient(int port, int id_ = 0): client(port, id_) {}
    bresp response(unsigned timeout = 10000) {
        string hd = recv(24, timeout);
        std::size_t tl = rd(hd, 8, 4);
        string all = hd; if( tl ) all += recv(tl, timeout);
        bresp r; parse_bin(all, r);
        mc::note("c%d <= %s", id, show(r).c_str());
        return r;
    }
    void bput(int op, const string& key, const string& extras = "", const string& val = "", std::uint64_t cas = 0, std::uint32_t opaque = 0) {
        mc::note("c%d => op %02x key %s val %s cas %llu", id, op, quote(key).c_str(), quote(val).c_str(), (unsigned long long)cas);
        send(bin(op, key, extras, val, cas, opaque));
    }
    bresp call(int op, const string& key, const string& extras = "", const string& val = "", std::uint64_t cas = 0, std::uint32_t opaque = 0) {
        bput(op, key, extras, val, cas, opaque);
        return response();
    }
};

} // namespace h
#endif
