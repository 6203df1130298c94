// C26: role changes follow the virtual address.
#include "repl.hpp"
using namespace ref;
static const char* VIP = "10.9.8.7";
enum { GAIN, LOSE, RESET, CLOSE, REFUSE, ACCEPT, DATA, TICK, LONG, N_EV };
static const char* ev_name[] = {"address gained", "address lost", "master connection reset", "master connection closed", "master refuses", "master accepts", "data", "1.3 s", "9 s"};
// The surroundings of one server and what may be observed of it.
struct world {
    bool vip = false, accepting = true, mastered = false, exited = false, counter = false; long vip_ms = 0, acc_ms = 0; bool promotable = false; string trace;
    std::unique_ptr<mc::client> m; rmap expected; int n = 0; int next = 0;
    static world*& me() { static world* w; return w; }
    [[noreturn]] void die(const string& s) { mc::fail("%s   after:%s", s.c_str(), trace.c_str()); abort(); }
    void start(bool v, bool acc, bool cnt) {
        me() = this; vip = v; accepting = acc; counter = cnt; promotable = v; mc::set_local_ip(VIP, v); mc::set_remote_listen(REPL, acc); vip_ms = acc_ms = mc::now_ms();
        mc::on_exit_call([](int code, bool) { world& w = *me(); if( srv().done ) return;
            if( w.vip && ! w.stopping ) w.die("the server terminated itself (" + std::to_string(code) + ") although it owns the address"); if( ! w.mastered && ! w.promotable ) w.die("a replica terminated itself"); if( w.stopping ) return;
            mc::visit_state(mc::hash_str(w.trace)); mc::stop_ok(); });
        trace = string(" start ") + (v ? "with" : "without") + " the address" + (acc ? "" : ", master refusing"); start_server(base_config(1, 5, string("virtual_ip = ") + VIP + "\ngc_interval = 1\n" + (cnt ? "counter.enable = true\ncounter.buckets = 3\n" : "")), true); look();
    }
    bool stopping = false;
    long held() { return mc::now_ms() - vip_ms; }
    void adopt() {   // connections from the server
        mc::client c; while( mc::connect_pending(REPL) && mc::accept_connect(c, REPL, 1) ) { if( mastered ) die("a master connects to the replication port"); if( m && ! m->server_closed() && ! ended ) die("a second connection to the master while the first is up"); if( ended && mc::now_ms() - end_ms < 2000 ) die("the replica did not wait for the address before it started over"); m.reset(new mc::client(c)); ended = false; expected.clear(); ++n; trace += " (connected)"; }
    }
    bool ended = false;
    void look() {
        mc::wait_idle(); adopt(); bool l = mc::listening(REPL); if( counter && l != mc::listening(CNT) ) die("only one of the replication and counter ports is open");
        if( l && ! promotable ) die("the server became master without owning the address"); if( mastered && ! l ) die("a master closed its replication port"); 
        h::client p(PORT, 50); p.send("version\r\n"); mc::wait_idle(); string s = p.take(); l = mc::listening(REPL);
        if( ! s.empty() && ! l ) die("a server that is not master answers a client"); if( l && vip && s.compare(0, 7, "VERSION") ) die("the master does not serve clients");
        bool first = l && ! mastered; if( l ) mastered = true; 
        if( first && vip ) { p.send("keys\r\n"); mc::wait_idle(); string k = p.take(), want; std::set<string> got; std::size_t at = 0; while( k.compare(at, 6, "VALUE ") == 0 ) { std::size_t e = k.find("\r\n", at); got.insert(k.substr(at + 6, e - at - 6)); at = e + 2; } std::set<string> w; for( auto& x: expected ) w.insert(x.first); if( got != w ) { string a, b; for( auto& x: got ) a += x + " "; for( auto& x: w ) b += x + " "; die("the promoted server holds {" + a + "} instead of {" + b + "}"); } }
        p.reset(); mc::wait_idle();
        if( vip && held() >= 8000 && ! mastered ) die("the server does not become master");
        if( ! vip && mastered && held() >= 5500 ) die("a master without the address keeps running");
        if( ! vip && ! mastered && held() >= 8500 && accepting && mc::now_ms() - acc_ms >= 8500 && mc::now_ms() - end_ms >= 8500 && (! m || ended || m->server_closed()) ) die("the replica does not connect to the master");
        if( m && ! ended && ! mastered && ! promotable && m->server_closed() ) die("the replica dropped the connection to a working master");
    }
    long end_ms = 0;
    void event(int e) {
        trace += string(" / ") + ev_name[e]; bool live = m && ! ended && ! m->server_closed() && ! mastered;
        switch( e ) {
        case GAIN: if( ! vip ) { vip = true; vip_ms = mc::now_ms(); mc::set_local_ip(VIP, true); promotable = true; } else mc::stop_ok(); break;
        case LOSE: if( vip ) { vip = false; vip_ms = mc::now_ms(); mc::set_local_ip(VIP, false); } else mc::stop_ok(); break;
        case RESET: case CLOSE: if( ! live ) mc::stop_ok(); if( e == RESET ) m->reset(); else m->close(); ended = true; end_ms = mc::now_ms(); break;
        case REFUSE: if( ! accepting ) mc::stop_ok(); accepting = false; acc_ms = mc::now_ms(); mc::set_remote_listen(REPL, false); break;
        case ACCEPT: if( accepting ) mc::stop_ok(); accepting = true; acc_ms = mc::now_ms(); mc::set_remote_listen(REPL, true); break;
        case DATA: if( ! live ) mc::stop_ok(); { string k = "k" + std::to_string(next++); m->send(bin(bSetQ, k, bset_extras(0, 0), "v")); expected[k].val = "v"; } break;
        case TICK: mc::sleep_ms(1300); break;
        case LONG: mc::sleep_ms(9000); break;
        }
        look(); if( ! vip && ! mastered && held() > 6500 && ! mc::listening(REPL) ) promotable = false;   // the address was not found in time
    }
    void stop() { stopping = true; mc::visit_state(mc::hash_str(trace)); stop_server(); }
};
static mc::scenario histories(const string& name, bool vip, bool acc, bool cnt, std::vector<int> prefix, int depth) {
    mc::scenario s; s.name = name; s.sched_bound = 0;
    s.body = [=] {
        mc::set_step_limit(50000000); world w; w.start(vip, acc, cnt); for( int e: prefix ) w.event(e); int last = -1; for( int i = 0; i < depth; ++i ) { int e = mc::choose(N_EV, "event"); if( e == LONG && last == TICK ) mc::stop_ok(); last = e; w.event(e); }
        // whatever happened: with the address the server ends up as master
        if( ! w.vip && ! w.mastered ) { w.event(GAIN); w.event(LONG); if( ! w.mastered ) w.die("the server does not become master"); } w.stop();
    };
    return s;
}
// the address arrives while the connection ends, under all schedules
static mc::scenario racing(const string& name, int sb, bool counter) {
    mc::scenario s; s.name = name; s.sched_bound = sb;
    s.body = [=] {
        world w; w.start(false, true, counter); w.event(DATA); int a = mc::choose(3, "end"), b = mc::choose(3, "address"), d = mc::choose(2, "phase"); if( d ) mc::sleep_ms(900); mc::explore_schedules(true);
        if( b == 0 ) { w.promotable = w.vip = true; mc::set_local_ip(VIP, true); w.vip_ms = mc::now_ms(); } if( a == 0 ) w.m->reset(); else if( a == 1 ) w.m->close(); if( a < 2 ) { w.ended = true; w.end_ms = mc::now_ms(); }
        if( b ) { mc::sleep_ms(b == 1 ? 1 : 2600); w.promotable = w.vip = true; mc::set_local_ip(VIP, true); w.vip_ms = mc::now_ms(); } mc::sleep_ms(2500); mc::explore_schedules(false); w.look(); mc::sleep_ms(6000); w.look(); if( ! w.mastered ) w.die("the server does not become master"); w.stop();
    };
    return s;
}
// clients at the moment of promotion are answered or closed, never wrongly
static mc::scenario arriving(const string& name, int sb) {
    mc::scenario s; s.name = name; s.sched_bound = sb;
    s.body = [=] {
        world w; w.start(false, true, false); w.event(DATA); h::client a(PORT, 1); a.send("get k0\r\n"); mc::wait_idle(); if( a.avail() ) w.die("a replica answers"); mc::explore_schedules(true); w.promotable = w.vip = true; mc::set_local_ip(VIP, true); w.vip_ms = mc::now_ms(); h::client b(PORT, 2); b.send("get k0\r\n"); mc::advance_ms(1500); h::client c(PORT, 3); c.send("get k0\r\n"); mc::sleep_ms(50); mc::explore_schedules(false); mc::sleep_ms(2500);
        for( auto* x: {&a, &b, &c} ) { string r = x->take(); if( ! (r.empty() && x->server_closed()) && r != "VALUE k0 0 1\r\nv\r\nEND\r\n" ) w.die("a client arriving during the promotion got \"" + quote(r) + "\""); mc::visit_state(r.size()); } w.look(); if( ! w.mastered ) w.die("no promotion"); w.stop();
    };
    return s;
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C26"; bool t = mc::thorough(); int x = t ? 1 : 0;
    c.rule = "all histories of the stated depth over {address gained, lost, master connection reset, closed, master refuses, accepts, data, short and long waits} from several starting points on the real server with a scripted environment; after every event: role (ports open, clients served), data at promotion, reconnection and self-termination are compared with the documented rules; promotion races with the end of the connection and arriving clients under all schedules within the bound";
    c.assumptions = {"promotion is due 8 s after the address was gained, termination 5.5 s after it was lost with gc_interval 1, reconnection 8.5 s, and not earlier than 2 s, after the connection ended"};
    auto& S = c.scenarios;
    S.push_back(histories("replica-with-data", false, true, false, {DATA}, 5 + x)); S.push_back(histories("replica-lost-master", false, true, false, {DATA, RESET}, 5 + x)); S.push_back(histories("replica-reconnected", false, true, false, {DATA, CLOSE, LONG}, 5 + x));
    S.push_back(histories("replica-refused", false, false, false, {}, 5 + x)); S.push_back(histories("master", true, true, false, {}, 5 + x)); S.push_back(histories("counter", false, true, true, {DATA}, 4 + x)); S.push_back(histories("counter-master", true, false, true, {}, 4 + x));
    S.push_back(racing("racing", 2, false)); S.push_back(racing("racing-counter", 2, true)); S.push_back(arriving("arriving", 2));
    return mc::main_(argc, argv, c);
}
