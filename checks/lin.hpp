// Linearizability oracle: concurrent commands are compared with every
// interleaving of the commands executed by the reference model.
#ifndef LIN_HPP
#define LIN_HPP
#include "ref.hpp"
namespace ref {
typedef std::vector<std::vector<cmd>> threads;

inline string show(const threads& th) { string s; for( auto& t: th ) { if( ! s.empty() ) s += " || "; string p; for( auto& c: t ) p += (p.empty() ? "" : "; ") + c.name(); s += p; } return s; }
// identifiers are resolved before the race starts
inline void freeze(driver& d, threads& th) {
    u32 op = 5000;
    for( auto& t: th ) for( auto& c: t ) {
        c.fop = op++;
        if( c.kind == 'c' && c.cas == CAS_NONE ) c.cas = CAS_CURRENT;
        if( c.cas == CAS_NONE ) continue;
        cmd x = c; if( x.cas == CAS_CURRENT ) x.conn = 77;  // resolved by a bystander
        auto a = d.casarg(x, d.K(c.key)); c.fid = a.first; c.fver = a.second; c.cas = CAS_FIXED;
    }
}
// the part of a driver that the model needs
inline driver fork(const driver& d) {
    driver e; e.st = d.st; e.prefix = d.prefix; e.ids = d.ids; e.seen = d.seen; e.opaque = d.opaque; e.offline = true; e.capture = true; e.soft = true; return e;
}
inline string bytes_of(const driver& d, const std::vector<cmd>& t) { driver e = fork(d); for( auto& c: t ) e.raw(c); return e.captured; }

struct race_result { std::map<int, string> got; };
// Does some interleaving explain what every connection (and afterwards the
// observers) received?
inline bool explained(driver& d, const threads& th, const std::vector<cmd>& after, const race_result& r, string& why, bool real_time_after = true) {
    (void)real_time_after;
    std::vector<std::size_t> pos(th.size(), 0); bool ok = false; string last; int tried = 0;
    std::function<void(driver&)> rec = [&](driver& e) {
        if( ok ) return;
        bool end = true;
        for( std::size_t i = 0; i < th.size() && ! ok; ++i ) if( pos[i] < th[i].size() ) {
            end = false; driver n = fork(e); for( auto& p: e.cons ) { n.cons[p.first].q = p.second.q; n.cons[p.first].bin = p.second.bin; } n.expect_key = e.expect_key;
            n.raw(th[i][pos[i]]); ++pos[i]; rec(n); --pos[i];
        }
        if( ! end ) return;
        driver n = fork(e); for( auto& p: e.cons ) n.cons[p.first].q = p.second.q; n.expect_key = e.expect_key;
        ++tried;
        try {
            for( auto& c: after ) n.raw(c);
            for( auto& p: r.got ) n.match(n.cons[p.first], p.second);
            ok = true; mc::visit_state(n.st.hash());
        } catch( const driver::mismatch& m ) { last = m.m; }
    };
    driver e = fork(d); rec(e);
    if( ! ok ) {
        why = "no order of the commands explains the replies:"; for( auto& p: r.got ) why += " c" + std::to_string(p.first) + "=\"" + quote(p.second, 200) + "\"";
        why += " (tried " + std::to_string(tried) + " orders; last mismatch: " + last + ")";
    }
    return ok;
}
// Runs the threads against each other on their connections and checks the
// outcome.  `kick` is executed just before the requests are sent.
inline void race(driver& d, threads th, const std::vector<const char*>& keys, const std::function<void()>& kick = nullptr, bool binafter = false, unsigned settle = 3000) {
    freeze(d, th); d.flush_all(); d.st.tick(mc::now_sec());
    for( auto& t: th ) for( auto& c: t ) { d.get(c.conn).bin = c.bin; }
    d.get(90); d.cons[90].bin = binafter; mc::wait_idle();
    std::vector<string> out; for( auto& t: th ) out.push_back(bytes_of(d, t));
    mc::note("racing: %s", show(th).c_str());
    mc::explore_schedules(true);
    if( kick ) kick();
    for( std::size_t i = 0; i < th.size(); ++i ) if( ! th[i].empty() ) d.cons[th[i][0].conn].c->send(out[i]);
    mc::wait_idle_for(settle);
    mc::explore_schedules(false);
    std::vector<cmd> after; for( auto k: keys ) { cmd c = binafter ? B('g', k, "", 0, -1) : T('G', k); c.conn = 90; c.fop = 9000 + after.size(); after.push_back(c); }
    race_result r;
    for( auto& t: th ) if( ! t.empty() ) { int c = t[0].conn; r.got[c] = d.cons[c].c->take(); mc::note("c%d <- %s", c, quote(r.got[c], 300).c_str()); }
    d.cons[90].c->send(bytes_of(d, after)); mc::wait_idle(); r.got[90] = d.cons[90].c->take(); mc::note("observer <- %s", quote(r.got[90], 300).c_str());
    string why; if( ! explained(d, th, after, r, why) ) mc::fail("%s: %s", show(th).c_str(), why.c_str());
}
} // namespace ref
#endif
