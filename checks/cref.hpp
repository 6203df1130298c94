// Counter protocol client and reference model.
#ifndef CREF_HPP
#define CREF_HPP
#include "../mc/harness.hpp"
namespace cref {
using namespace h;
typedef std::uint32_t u32; typedef std::uint64_t u64;
enum { cNoop = 0, cGet = 1, cAcquire = 2, cRelease = 3, cStats = 0x10, cDump = 0x11 };
enum { sOK = 0, sNotFound = 1, sInvalid = 4, sNotAvailable = 0x21, sNotAcquired = 0x22, sUnknown = 0x81 };
inline string creq(int op, const string& body, u32 opaque) { return be(0x90, 1) + be(op, 1) + be(0, 2) + be(body.size(), 4) + be(opaque, 4) + body; }
inline string cname(const string& n) { return be(n.size(), 2) + n; }
inline string cget(const string& n, u32 o) { return creq(cGet, cname(n), o); }
inline string cacq(const string& n, u32 r, u32 m, u32 o) { return creq(cAcquire, be(r, 4) + be(m, 4) + cname(n), o); }
inline string crel(const string& n, u32 r, u32 o) { return creq(cRelease, be(r, 4) + cname(n), o); }
struct cresp { int op = -1, status = -1; u32 opaque = 0; string body; };
inline string show(const cresp& r) { char b[100]; snprintf(b, sizeof b, "op=%02x status=%02x opaque=%u", r.op, r.status, r.opaque); return string(b) + " body=" + quote(r.body); }
inline bool parse_c(string& s, cresp& r) {
    if( s.size() < 12 ) return false;
    if( (unsigned char)s[0] != 0x91 ) mc::fail("counter response does not start with 0x91: \"%s\"", quote(s).c_str());
    std::size_t l = rd(s, 4, 4);
    if( s.size() < 12 + l ) return false;
    r.op = rd(s, 1, 1); r.status = rd(s, 2, 1); r.opaque = rd(s, 8, 4); r.body = s.substr(12, l);
    s.erase(0, 12 + l); return true;
}
struct cclient: client {
    u32 seq = 1;
    cclient() = default;
    explicit cclient(int id_): client(CNT, id_) {}
    cresp response(unsigned timeout = 10000) {
        string hd = recv(12, timeout); std::size_t l = rd(hd, 4, 4); string all = hd; if( l ) all += recv(l, timeout);
        cresp r; parse_c(all, r); mc::note("n%d <= %s", id, show(r).c_str()); return r;
    }
    cresp call(const string& what, const string& bytes, u32 o, int op) {
        mc::note("n%d => %s", id, what.c_str()); send(bytes); cresp r = response();
        if( r.opaque != o || r.op != op ) mc::fail("counter response does not echo opcode/opaque: %s", show(r).c_str());
        return r;
    }
    cresp acquire(const string& n, u32 r, u32 m) { u32 o = seq++; return call("acquire " + n + " " + std::to_string(r) + "/" + std::to_string(m), cacq(n, r, m, o), o, cAcquire); }
    cresp release(const string& n, u32 r) { u32 o = seq++; return call("release " + n + " " + std::to_string(r), crel(n, r, o), o, cRelease); }
    cresp getc(const string& n) { u32 o = seq++; return call("get " + n, cget(n, o), o, cGet); }
    struct drow { u32 cur, peak; };
    std::map<string, drow> dump() {
        u32 o = seq++; mc::note("n%d => dump", id); send(creq(cDump, "", o)); std::map<string, drow> m;
        for(;;) {
            cresp r = response();
            if( r.op != cDump || r.opaque != o || r.status != 0 ) mc::fail("bad dump response: %s", show(r).c_str());
            if( r.body.empty() ) return m;
            if( r.body.size() < 10 || rd(r.body, 8, 2) + 10 != r.body.size() ) mc::fail("malformed dump row: %s", show(r).c_str());
            string n = r.body.substr(10); if( m.count(n) ) mc::fail("counter %s dumped twice", n.c_str());
            m[n] = {(u32)rd(r.body, 0, 4), (u32)rd(r.body, 4, 4)};
        }
    }
    std::map<string, string> stats() {
        u32 o = seq++; cresp r = call("stats", creq(cStats, "", o), o, cStats); std::map<string, string> m; std::size_t p = 0;
        while( p + 4 <= r.body.size() ) { std::size_t a = rd(r.body, p, 2), b = rd(r.body, p + 2, 2); m[r.body.substr(p + 4, a)] = r.body.substr(p + 4 + a, b); p += 4 + a + b; }
        if( p != r.body.size() ) mc::fail("malformed counter stats");
        return m;
    }
};
// model of the counter service
struct model {
    std::map<string, u64> peak;    // highest consumption so far
    std::map<string, u64> total; std::map<int, std::map<string, u64>> held;
    // expected (status, body) of each request
    std::pair<int, string> acquire(int c, const string& n, u32 r, u32 m) {
        if( n.empty() || r == 0 || m < r ) return {sInvalid, ""};
        if( total.count(n) && total[n] + r > m ) return {sNotAvailable, ""};
        total[n] += r; held[c][n] += r; peak[n] = std::max(peak[n], total[n]); return {sOK, be(r, 4)};
    }
    std::pair<int, string> release(int c, const string& n, u32 r) {
        if( n.empty() ) return {sInvalid, ""};
        if( ! total.count(n) ) return {sNotFound, ""};
        if( r > held[c][n] ) return {sNotAcquired, ""};
        total[n] -= r; held[c][n] -= r; return {sOK, ""};
    }
    std::pair<int, string> get(const string& n) { if( n.empty() ) return {sInvalid, ""}; if( ! total.count(n) ) return {sNotFound, ""}; return {sOK, be(total[n], 4)}; }
    void gone(int c) { for( auto& p: held[c] ) total[p.first] -= p.second; held.erase(c); }
    u64 hash() const { u64 x = 3; for( auto& p: total ) { x = mc::mix(x, mc::hash_str(p.first)); x = mc::mix(x, p.second); } for( auto& h: held ) for( auto& p: h.second ) if( p.second ) { x = mc::mix(x, h.first); x = mc::mix(x, mc::hash_str(p.first)); x = mc::mix(x, p.second); } return x; }
};
// One request of a history.
struct cop {
    char kind = 'g'; int conn = 0; string name; u32 r = 0, m = 0;   // a r g d n (acquire release get dump noop), x X (close, reset), z wait
    string show() const { char b[120]; snprintf(b, sizeof b, "n%d:%c %s %u/%u", conn, kind, name.c_str(), r, m); return b; }
};
inline cop A(int c, const string& n, u32 r, u32 m) { cop o; o.kind = 'a'; o.conn = c; o.name = n; o.r = r; o.m = m; return o; }
inline cop R(int c, const string& n, u32 r) { cop o; o.kind = 'r'; o.conn = c; o.name = n; o.r = r; return o; }
inline cop G(int c, const string& n) { cop o; o.conn = c; o.name = n; return o; }
inline cop K(char kind, int c = 0, u32 r = 0) { cop o; o.kind = kind; o.conn = c; o.r = r; return o; }
inline string bytes(const cop& o, const string& prefix, u32 opaque) {
    string n = o.name.empty() ? "" : prefix + o.name;
    switch( o.kind ) { case 'a': return cacq(n, o.r, o.m, opaque); case 'r': return crel(n, o.r, opaque); case 'g': return cget(n, opaque); case 'n': return creq(cNoop, "", opaque); }
    return "";
}
inline int opcode(char k) { return k == 'a' ? cAcquire : k == 'r' ? cRelease : k == 'g' ? cGet : cNoop; }
inline std::pair<int, string> expected(model& m, const cop& o, const string& prefix) {
    string n = o.name.empty() ? "" : prefix + o.name;
    switch( o.kind ) { case 'a': return m.acquire(o.conn, n, o.r, o.m); case 'r': return m.release(o.conn, n, o.r); case 'g': return m.get(n); }
    return {sOK, ""};
}
inline bool agrees(const std::pair<int, string>& e, const cresp& r) { return e.first == -1 || (r.status == e.first && (r.status != 0 || r.body == e.second)); }
// Does some interleaving of the model explain the responses?
typedef std::vector<std::vector<cop>> cthreads;
inline string show(const cthreads& t) { string s; for( auto& x: t ) { s += s.empty() ? "" : " || "; for( auto& o: x ) s += o.show() + "; "; } return s; }
inline bool explained(const model& m0, const cthreads& th, const std::vector<std::vector<cresp>>& got, const std::function<bool(model&)>& after) {
    std::vector<std::size_t> pos(th.size(), 0);
    std::function<bool(model&)> rec = [&](model& m) {
        bool end = true;
        for( std::size_t i = 0; i < th.size(); ++i ) if( pos[i] < th[i].size() ) {
            end = false; model n = m; auto e = expected(n, th[i][pos[i]], "");
            if( ! agrees(e, got[i][pos[i]]) ) continue;
            ++pos[i]; bool ok = rec(n); --pos[i]; if( ok ) return true;
        }
        return end && after(m);
    };
    model m = m0; return rec(m);
}
} // namespace cref
#endif
