// C31: the server listens exactly where the configuration says.
#include "cref.hpp"
#include "repl.hpp"
using namespace ref;
typedef std::pair<string, int> laddr; typedef std::vector<laddr> laddrs;
static const char* ADDR[] = {"127.0.0.1", "10.0.0.5", "::1", "fd00::5"};       // of this node
static const char* VIPS[] = {"10.9.8.7", "fd00::7", "127.0.0.2"};
static string show(const laddrs& l) { string s; for( auto& x: l ) s += (s.empty() ? "" : ", ") + x.first + " port " + std::to_string(x.second); return s.empty() ? "nothing" : s; }
static bool six(const string& a) { return a.find(':') != string::npos; }
struct setting {
    std::vector<string> bind; string vip; bool counter, v6, slave, ports, missing; int p, r, c;
    string text() const { string s = "virtual_ip " + vip + ", bind_ip"; for( auto& b: bind ) s += " " + b; return s + (counter ? ", counter" : "") + (v6 ? "" : ", no IPv6") + (slave ? ", replica first" : ""); }
};
static laddrs expected(const setting& s, bool master) {
    laddrs r; std::vector<string> a;
    if( s.bind.empty() ) a.push_back(s.v6 ? "::" : "0.0.0.0"); else { a = s.bind; a.push_back(s.vip); }
    for( auto& x: a ) { r.push_back({x, s.p}); if( master ) { r.push_back({x, s.r}); if( s.counter ) r.push_back({x, s.c}); } }
    std::sort(r.begin(), r.end()); return r;
}
static void listens(const setting& s, bool master, const char* when) {
    laddrs want = expected(s, master), got = mc::listeners();
    if( got != want ) mc::fail("%s: %s the server listens on %s, not on %s", s.text().c_str(), when, show(got).c_str(), show(want).c_str());
}
// every address the node has is served, or refused, as it should be
static void serves(const setting& s, bool master, const char* when) {
    std::vector<string> all = s.bind; if( s.bind.empty() ) for( auto a: ADDR ) if( s.v6 || ! six(a) ) all.push_back(a);
    if( master ) all.push_back(s.vip);
    for( auto& a: all ) {
        h::client c; c.connect(s.p, a.c_str());
        if( ! master ) { mc::sleep_ms(50); if( ! c.server_closed() ) mc::fail("%s: %s a client of %s is not turned away", s.text().c_str(), when, a.c_str()); continue; }
        if( c.set("k", a) != "STORED\r\n" || c.val("k") != a ) mc::fail("%s: %s a client of %s is not served", s.text().c_str(), when, a.c_str());
        replica r; r.c.connect(s.r, a.c_str()); r.c.set_autoread(false); mc::sleep_ms(30); if( r.c.server_closed() ) mc::fail("%s: %s a replica that connects to %s is turned away", s.text().c_str(), when, a.c_str());
        c.set("k", "to replicas"); mc::sleep_ms(30); for( int w = 0; w < 40 && r.content().count("k") != 1; ++w ) mc::sleep_ms(1000); if( r.content().count("k") != 1 ) mc::fail("%s: %s a replica that connected to %s receives no updates", s.text().c_str(), when, a.c_str());
        r.c.reset(); mc::sleep_ms(2500);
        if( s.counter ) { h::client n; n.connect(s.c, a.c_str()); n.send(cref::creq(cref::cNoop, "", 5)); mc::wait_idle(); string b = n.take(); cref::cresp x; if( ! cref::parse_c(b, x) || x.opaque != 5 ) mc::fail("%s: %s a counter client of %s is not served", s.text().c_str(), when, a.c_str()); }
    }
}
static const u64 N = 16 * 3 * 2 * 2 * 2 * 2 * 2;
static setting nth(u64 i) {
    setting s; int b = i % 16; i /= 16; for( int k = 0; k < 4; ++k ) if( b >> k & 1 ) s.bind.push_back(ADDR[k]);
    s.vip = VIPS[i % 3]; i /= 3; s.counter = i % 2; i /= 2; s.v6 = i % 2; i /= 2; s.slave = i % 2; i /= 2; s.ports = i % 2; i /= 2; s.missing = i % 2;
    s.p = s.ports ? 1234 : 11211; s.r = s.ports ? 2345 : 11213; s.c = s.ports ? 3456 : 11215; return s;
}
static void one(u64 i) {
    setting s = nth(i);
    bool bad = s.missing && ! s.bind.empty();       // one of the addresses is not ours
    if( s.missing && s.bind.empty() ) return;
    if( ! s.v6 ) { if( six(s.vip) ) return; for( auto& b: s.bind ) if( six(b) ) bad = true; }
    mc::set_ipv6(s.v6); for( auto a: {"10.0.0.5", "fd00::5", "::1"} ) mc::set_local_ip(a, s.v6 || ! six(a));
    if( s.missing ) { if( s.bind.back() == "127.0.0.1" || s.bind.back() == "::1" ) return; mc::set_local_ip(s.bind.back().c_str(), false); }
    mc::set_local_ip(s.vip.c_str(), ! s.slave); if( s.slave ) mc::set_remote_listen(s.r, true);
    string cfg = "workers = 1\nbuckets = 3\ntemp_dir = @SCRATCH@\nlog.threshold = error\ngc_interval = 1\nvirtual_ip = " + s.vip + "\n", ips; for( auto& b: s.bind ) ips += " " + b;
    if( ! s.bind.empty() ) cfg += "bind_ip =" + ips + "\n";
    if( s.ports ) cfg += "port = 1234\nrepl_port = 2345\ncounter.port = 3456\n"; if( s.counter ) cfg += "counter.enable = true\ncounter.buckets = 3\n";
    load_config(cfg); cybozu::logger::set_threshold(cybozu::severity::error); yrmcds::g_current_time.store(mc::now_sec()); ignore_stats();
    static bool done, failed; static int code; done = failed = false; code = -1;
    mc::spawn("server", [] { try { code = mc::run_catching_exit([] { yrmcds::server v; v.serve(); }); } catch( const std::exception& e ) { mc::note("refuses to start: %s", e.what()); failed = true; } done = true; });
    mc::sleep_ms(3000);
    if( bad ) {
        if( ! done || ! failed ) mc::fail("%s: an address cannot be listened on, but the server does not stop with an error", s.text().c_str());
        mc::visit_state(mc::hash_str(s.text())); return;
    }
    if( done ) mc::fail("%s: the server does not start", s.text().c_str());
    if( s.slave ) {
        mc::client m; if( ! mc::accept_connect(m, s.r, 10000) ) mc::fail("%s: no connection to the master", s.text().c_str());
        listens(s, false, "as a replica"); serves(s, false, "as a replica");
        mc::set_local_ip(s.vip.c_str(), true); m.close(); mc::sleep_ms(12000);
    }
    const char* when = s.slave ? "after promotion" : "as the master";
    listens(s, true, when); serves(s, true, when); listens(s, true, when);
    mc::raise_signal(SIGTERM); mc::block_until([]{ return done; }, "clean shutdown after SIGTERM", 30000); if( failed || code > 0 ) mc::fail("%s: exit status %d", s.text().c_str(), code);
    mc::visit_state(mc::hash_str(s.text())); mc::visit_state(mc::hash_str(show(expected(s, true)))); mc::count_transition();
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C31";
    c.rule = "every combination of bind_ip (all subsets of four addresses, IPv4 and IPv6), virtual_ip (three), default and other ports, counter on and off, a kernel with and without IPv6, starting as master or as a replica that is promoted, and all addresses present or the last one missing: the set of addresses and ports listened on is compared with the documentation in every role, and a client, a replica and a counter client of every address are served (or turned away by a replica); a server that cannot listen on an address stops with an error";
    mc::chunked q; q.name = "addresses"; q.count = N; q.chunk = 1; q.arena = false; q.body = [](u64 from, u64 to) { for( u64 i = from; i < to; ++i ) { mc::progress(i); one(i); } };
    q.describe = [](u64 i) -> string { return nth(i).text(); };
    c.sequences.push_back(q);
    return mc::main_(argc, argv, c);
}
