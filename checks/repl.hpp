// The far end of a replication link: parses the stream strictly and applies
// it to a map, the way the documentation describes.
#ifndef REPL_HPP
#define REPL_HPP
#include "lin.hpp"
namespace ref {
struct robj { string val; u32 flags = 0; u32 exp = 0; bool operator==(const robj& o) const { return val == o.val && flags == o.flags && exp == o.exp; } };
typedef std::map<string, robj> rmap;
struct rop { int op; string key, val; u32 flags, exp; };
// Parses one replication command from the front of b; false when incomplete.
inline bool parse_repl(const string& b, std::size_t& at, rop& r) {
    if( b.size() - at < 24 ) return false;
    if( (unsigned char)b[at] != 0x80 ) mc::fail("the replication stream is damaged: \"%s\"", quote(b.substr(at), 80).c_str());
    r.op = (unsigned char)b[at + 1]; std::size_t kl = rd(b, at + 2, 2), el = (unsigned char)b[at + 4], tl = rd(b, at + 8, 4);
    std::size_t want = r.op == bSetQ ? 8 : r.op == bTouch ? 4 : 0;
    if( (r.op != bSetQ && r.op != bTouch && r.op != bDeleteQ) || el != want || kl == 0 || kl + el > tl || (r.op != bSetQ && tl != kl + el) )
        mc::fail("malformed replication command: \"%s\"", quote(b.substr(at), 80).c_str());
    if( b.size() - at < 24 + tl ) return false;
    r.flags = r.op == bSetQ ? rd(b, at + 24, 4) : 0; r.exp = r.op == bSetQ ? rd(b, at + 28, 4) : r.op == bTouch ? rd(b, at + 24, 4) : 0;
    r.key = b.substr(at + 24 + el, kl); r.val = b.substr(at + 24 + el + kl, tl - el - kl);
    at += 24 + tl; return true;
}
struct replica {
    mc::client c; string buf; rmap m; std::vector<rop> log; int id = 0; bool keep_log = false;
    void join(int port = REPL, bool heartbeat = true) { c.connect(port); c.set_autoread(false); if( heartbeat ) c.send(string(1, '\0')); }
    void apply(const rop& r) {
        if( keep_log ) log.push_back(r);
        if( r.op == bSetQ ) { robj o; o.val = r.val; o.flags = r.flags; o.exp = r.exp; m[r.key] = o; }
        else if( r.op == bTouch ) { auto it = m.find(r.key); if( it != m.end() ) it->second.exp = r.exp; }
        else m.erase(r.key);
    }
    // apply everything received so far
    void pull() {
        string n = c.take(); if( n.empty() && buf.empty() ) return;
        if( ! n.empty() ) mc::note("replica%d <- %s", id, quote(n, 300).c_str());
        buf += n; std::size_t at = 0; rop r;
        while( parse_repl(buf, at, r) ) apply(r);
        buf.erase(0, at);
    }
    // live content at the moment; nothing may be cut off in the middle
    rmap content() {
        pull();
        if( ! buf.empty() ) mc::fail("the replication stream stops in the middle of a command: \"%s\"", quote(buf, 80).c_str());
        rmap r; for( auto& p: m ) if( p.second.exp == 0 || p.second.exp > mc::now_sec() ) r.insert(p); return r;
    }
    void heartbeat() { c.send(string(1, '\0')); }
};
inline string show(const rmap& m) { string s; for( auto& p: m ) s += p.first + "=\"" + quote(p.second.val, 40) + "\"/" + std::to_string(p.second.flags) + "/" + std::to_string(p.second.exp) + " "; return s; }
// Master content according to the model; the server's clock may be up to
// three seconds behind, so expiry times are compared with that tolerance.
inline void compare(const store& st, const rmap& got, const string& prefix, const string& what) {
    std::size_t n = 0;
    for( auto& p: st.m ) {
        if( p.first.compare(0, prefix.size(), prefix) != 0 ) continue;
        ++n; auto it = got.find(p.first);
        if( it == got.end() ) mc::fail("%s: the replica lacks %s, it has %s", what.c_str(), p.first.c_str(), show(got).c_str());
        const robj& r = it->second; long d = std::min(p.second.exp, 0xfffffffeL) - (long)r.exp;   // the protocol has 32 bits; the last value is special
        if( r.val != p.second.val || r.flags != p.second.flags ) mc::fail("%s: the replica has \"%s\" flags %u for %s, the master \"%s\" flags %u", what.c_str(), quote(r.val, 60).c_str(), r.flags, p.first.c_str(), quote(p.second.val, 60).c_str(), p.second.flags);
        if( (p.second.exp == 0) != (r.exp == 0) || (p.second.exp && (d < -1 || d > 3)) ) mc::fail("%s: the replica has expiry time %u for %s, the master %ld", what.c_str(), r.exp, p.first.c_str(), p.second.exp);
    }
    for( auto& p: got ) if( p.first.compare(0, prefix.size(), prefix) == 0 && ! st.m.count(p.first) ) mc::fail("%s: the replica has %s (\"%s\") which the master has not", what.c_str(), p.first.c_str(), quote(p.second.val, 60).c_str());
    mc::visit_state(mc::mix(st.hash(), n));
}
// Master content as a client sees it (keys given), for use after races.
inline void compare_live(h::client& c, const std::vector<string>& keys, replica& r, const string& what) {
    rmap got = r.content();
    for( auto& k: keys ) {
        string g = c.get(k); auto it = got.find(k);
        if( g == "END\r\n" ) { if( it != got.end() ) mc::fail("%s: the replica has %s (\"%s\") which the master has not", what.c_str(), k.c_str(), quote(it->second.val, 60).c_str()); continue; }
        if( it == got.end() ) mc::fail("%s: the replica lacks %s, the master answers \"%s\"", what.c_str(), k.c_str(), quote(g, 80).c_str());
        string want = "VALUE " + k + " " + std::to_string(it->second.flags) + " " + std::to_string(it->second.val.size()) + "\r\n" + it->second.val + "\r\nEND\r\n";
        if( g != want ) mc::fail("%s: the replica holds \"%s\" (flags %u) for %s, the master answers \"%s\"", what.c_str(), quote(it->second.val, 80).c_str(), it->second.flags, k.c_str(), quote(g, 120).c_str());
    }
    mc::visit_state(mc::hash_str(show(got)));
}
} // namespace ref
#endif
