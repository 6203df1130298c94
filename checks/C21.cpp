// C21: with secure erase, released object memory never contains a value.
#include "repl.hpp"
using namespace ref;
static thread_local bool tl_script = false;
static bool g_armed = false; static std::vector<string> g_secrets; static string g_found; static u64 g_blocks = 0;
// Called with every block the program releases.  Blocks of more than 64 KiB
// are transport buffers; the script's own strings are not the server's.
static void watch() {
    tl_script = true; g_secrets = {"SeCrEt!!", "HiDdEn**", "73910284655", "73910284656", "73910284654", "73910284660"};
    mc::on_free([](const void* p, std::size_t n) {
        if( tl_script || ! g_armed || n > 65536 || n < 8 ) return; ++g_blocks;
        for( auto& s: g_secrets ) if( const char* q = (const char*)memmem(p, n, s.data(), s.size()) ) { if( g_found.empty() ) g_found = "a released block of " + std::to_string(n) + " bytes contains \"" + quote(string(q, std::min<std::size_t>(n - (q - (const char*)p), 40))) + "\" at offset " + std::to_string(q - (const char*)p); return; }
    });
}
static void verdict(const string& trace) { if( ! g_found.empty() ) mc::fail("%s   after: %s", g_found.c_str(), trace.c_str()); }
static string sec(std::size_t n) { string s; while( s.size() < n ) s += "SeCrEt!!"; s.resize(n); return s; }
static string hid(std::size_t n) { string s; while( s.size() < n ) s += "HiDdEn**"; s.resize(n); return s; }
static string conf(int workers, const string& x = "") { return base_config(workers, 7, "secure_erase = true\nheap_data_limit = 4096\n" + x); }
static void step(driver& d, const cmd& c) {
    // values in files are read through temporary buffers, which is not the subject here
    obj* o = d.st.find(d.K(c.key)); g_armed = ! o || o->val.size() <= 4096; d.run(c); d.flush_all(); g_armed = true; 
}
static const int ENDS = 6;
static const char* end_names[] = {"delete", "replace", "expire", "flush", "nothing (stop)", "delete (binary)"};
static void ending(driver& d, int e) {
    obj* o = d.st.find(d.K("a")); bool file = o && o->val.size() > 4096; g_armed = ! file;
    switch( e ) {
    case 0: d.run(T('d', "a")); break;
    case 1: d.run(T('s', "a", "x")); break;
    case 2: d.run(T('t', "a", "", 0, 2)); d.flush_all(); mc::sleep_ms(7500); break;
    case 3: { cmd f; f.kind = 'f'; d.run(f); d.flush_all(); mc::sleep_ms(4500); break; }
    case 5: d.run(on(5, B('d', "a"))); break;
    }
    d.flush_all(); g_armed = true;
}
static mc::chunked removal(const string& name, std::vector<cmd> A, int depth) {
    mc::chunked c; c.name = name; c.count = power(A.size(), depth) * ENDS; c.chunk = std::max<u64>(1, std::min<u64>(400, c.count / 48 + 1)); c.arena = true;
    c.body = [=](u64 from, u64 to) {
        mc::set_step_limit(100000000); watch(); start_server(conf(1, "gc_interval = 1\n")); driver d; g_armed = true; u64 b0 = 0;
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); d.next_case("k" + std::to_string(i) + "_"); bool skip = false; string t;
            for( int k: digits(i / ENDS, A.size(), depth) ) { if( ! specified(d, A[k]) ) { skip = true; break; } step(d, A[k]); verdict(d.trace); }
            (void)skip; ending(d, i % ENDS); verdict(d.trace + "; " + end_names[i % ENDS]); for( int cn: {0, 1} ) if( d.cons.count(cn) ) { cmd x; x.kind = 'U'; x.conn = cn; x.bin = d.cons[cn].bin; d.raw(x); } d.flush_all(); d.st.m.clear(); mc::count_transition(depth + 1);
        }
        g_armed = true; b0 = g_blocks; stop_server(); verdict("the server stopped"); (void)b0; if( g_blocks == 0 ) mc::fail("no block was inspected");
    };
    return c;
}
// the same values arriving by replication
static mc::chunked on_replica(const string& name) {
    // stream: commands on key "a", encoded; then end
    static const int N = 9; mc::chunked c; c.name = name; c.count = power(N, 3); c.chunk = 1; c.arena = true;
    c.body = [=](u64 from, u64 to) {
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); watch(); mc::set_local_ip("10.9.8.7", false); mc::set_remote_listen(REPL, true); start_server(conf(1, "gc_interval = 1\nvirtual_ip = 10.9.8.7\n")); client m; if( ! mc::accept_connect(m, REPL, 5000) ) mc::fail("no connection"); g_armed = true; string t;
            auto put = [&](const string& v) { return bin(bSetQ, "a", bset_extras(0, 0), v); };
            for( int k: digits(i, N, 3) ) {
                string s; switch( k ) { case 0: s = put(sec(16)); break; case 1: s = put(sec(100)); break; case 2: s = put(hid(4096)); break; case 3: s = put("73910284655"); break; case 4: s = put(""); break; case 5: s = put(sec(5000)); break; case 6: s = bin(bDeleteQ, "a"); break; case 7: s = bin(bTouch, "a", be(0, 4)); break; case 8: s = put(hid(15)) + put("y"); break; }
                m.send(s); mc::wait_idle(); t += std::to_string(k) + " "; verdict("replication commands " + t);
            }
            mc::sleep_ms(1500); stop_server(); verdict("replication commands " + t + " and the stop"); mc::visit_state(i); mc::count_transition(3);
        }
    };
    return c;
}
// memory pressure: evicted values
static mc::chunked evicted(const string& name) {
    mc::chunked c; c.name = name; c.count = 6; c.chunk = 1; c.arena = true;
    c.body = [=](u64 from, u64 to) {
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); watch(); mc::set_step_limit(100000000); start_server(conf(1, "gc_interval = 1\nmemory_limit = 200000\nmax_data_size = 4096\n")); client t(PORT, 0); g_armed = true; static const std::size_t Z[] = {16, 100, 1000, 2000, 4000, 4096};
            for( int k = 0; k < 400; ++k ) t.set("k" + std::to_string(k), k % 2 ? sec(Z[i]) : hid(Z[i])); for( int k = 0; k < 5; ++k ) mc::sleep_ms(2300); 
            t.put("stats\r\n"); string s = t.recv_until("END\r\n"); std::size_t p = s.find("STAT evictions "); bool any = p != string::npos && atoi(s.c_str() + p + 15) > 0; if( Z[i] >= 1000 && ! any ) mc::fail("nothing was evicted: the case is void");
            verdict("eviction"); stop_server(); verdict("stop"); mc::visit_state(i); mc::count_transition(400);
        }
    };
    return c;
}
static mc::scenario racing(const string& name, int sb, bool gc) {
    mc::scenario s; s.name = name; s.sched_bound = sb; s.arena = true;
    s.body = [=] {
        watch(); start_server(conf(2, gc ? "gc_interval = 1\n" : "gc_interval = 100000\n")); client a(PORT, 0), b(PORT, 1); a.set("k", sec(100), 0, gc ? 2 : 0); if( gc ) mc::sleep_ms(4000); mc::wait_idle();
        static const char* P[] = {"delete k\r\n", "append k 0 0 8\r\nHiDdEn**\r\n", "prepend k 0 0 16\r\nHiDdEn**HiDdEn**\r\n", "set k 0 0 1\r\nx\r\n", "get k\r\n", "add k 0 0 16\r\nHiDdEn**HiDdEn**\r\n"};
        int p = mc::choose(6, "a"), q = mc::choose(6, "b"); if( p > q ) mc::stop_ok(); g_armed = true; mc::explore_schedules(true); if( gc ) mc::advance_ms(2500); a.send(P[p]); b.send(P[q]); mc::wait_idle(); mc::explore_schedules(false); mc::sleep_ms(4000); verdict(string(P[p]) + "and " + P[q]); a.take(); a.cmd("delete k\r\n"); mc::wait_idle(); verdict("delete"); mc::visit_state(p * 6 + q); stop_server(); verdict("stop");
    };
    return s;
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C21"; bool t = mc::thorough();
    c.rule = "secure_erase on: all sequences of the stated depth over commands that store, grow, shrink and replace values (sizes up to and across the file threshold), each followed by delete, replacement, expiry, flush or server stop; every heap block a server thread releases is searched for the secrets; also for values received by a replica, evicted values, and races with a collection";
    c.assumptions = {"blocks of more than 64 KiB are transport buffers and not inspected", "values in temporary files, and buffers used to read them, are not the subject (documented)"};
    std::vector<cmd> A; for( std::size_t n: {16, 100, 4096, 4097} ) A.push_back(T('s', "a", sec(n))); A.push_back(T('s', "a", "73910284655")); A.push_back(T('s', "a", "")); A.push_back(T('a', "a", hid(40))); A.push_back(T('r', "a", hid(30)));
    for( std::size_t n: {1, 24, 4000} ) { A.push_back(T('A', "a", hid(n))); A.push_back(T('P', "a", hid(n))); } A.push_back(num('+', "a", 1)); A.push_back(num('-', "a", 1)); A.push_back(num('-', "a", 73910284600ull)); A.push_back(T('g', "a")); A.push_back(T('d', "a")); A.push_back(cas(CAS_CURRENT, T('c', "a", hid(64)))); A.push_back(T('t', "a", "", 0, 500)); A.push_back(quiet(T('P', "a", hid(16)))); 
    c.sequences.push_back(removal("text", A, 3));
    std::vector<cmd> B_; for( std::size_t n: {16, 100, 4096} ) B_.push_back(B('s', "a", sec(n))); for( std::size_t n: {8, 4000} ) { B_.push_back(B('A', "a", hid(n))); B_.push_back(B('P', "a", hid(n))); } B_.push_back(num('+', "a", 5, true, 73910284655ull, 0)); B_.push_back(num('-', "a", 1, true, 73910284655ull, 0)); B_.push_back(B('g', "a")); B_.push_back(B('d', "a")); B_.push_back(B('L', "a", "", 0, -1)); B_.push_back(B('R', "a", hid(50))); B_.push_back(B('R', "a", "r")); B_.push_back(quiet(B('R', "a", sec(20)))); B_.push_back(B('a', "a", sec(33))); B_.push_back(quiet(B('A', "a", hid(31)))); B_.push_back(B('T', "a", "", 0, 500)); B_.push_back(cas(CAS_CURRENT, B('s', "a", hid(12) + "....")));
    c.sequences.push_back(removal("binary", B_, 3)); if( t ) { c.sequences.push_back(removal("text-deep", A, 4)); c.sequences.push_back(removal("binary-deep", B_, 4)); }
    c.sequences.push_back(on_replica("on-replica")); c.sequences.push_back(evicted("evicted"));
    c.scenarios.push_back(racing("racing", 1, false)); c.scenarios.push_back(racing("racing-collecting", 1, true));
    return mc::main_(argc, argv, c);
}
