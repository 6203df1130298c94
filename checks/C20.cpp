// C20: values behave the same in memory and in files, and files go away.
#include "repl.hpp"
using namespace ref;
static string pat(std::size_t n, char c) { string s(n, c); for( std::size_t i = 0; i < n; i += 61 ) s[i] = '0' + i / 61 % 10; if( n ) { s[0] = 'x'; s[n - 1] = '.'; } return s; }
static int files(driver& d) { int n = 0; for( auto& p: d.st.m ) if( p.second.val.size() > 4096 ) ++n; return n; }
static void released(driver& d) {   // values in memory need no file; removed values have none
    int n = mc::open_tmpfiles(), live = (int)d.st.m.size(); if( n < 0 || n > live ) mc::fail("%d files are open for %d objects   after: %s", n, live, d.trace.c_str());
    (void)files;
}
static string conf(const string& x = "") { return base_config(1, 31, "heap_data_limit = 4096\nmax_data_size = 9000\ngc_interval = 100000000\n" + x); }
// every sequence, then everything is deleted: no file remains
static space finish(space s) {
    s.max_data = 9000;
    s.at_end = released; s.emptied = released;
    return s;
}
static mc::chunked vanish(const string& name, std::vector<cmd> A, int depth) {
    mc::chunked c; c.name = name; c.count = power(A.size(), depth) * 4; c.chunk = std::max<u64>(1, c.count / 64 + 1); c.arena = false;
    c.body = [=](u64 from, u64 to) {
        mc::set_step_limit(50000000);
        start_server(base_config(1, 31, "heap_data_limit = 4096\nmax_data_size = 9000\ngc_interval = 1\n")); driver d; d.st.max_data = 9000;
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); d.next_case("k" + std::to_string(i) + "_"); for( int k: digits(i / 4, A.size(), depth) ) d.run(A[k]); d.flush_all(); released(d);
            switch( i % 4 ) {
            case 0: d.run(T('d', "a")); d.flush_all(); break;
            case 1: d.run(T('t', "a", "", 0, 2)); d.flush_all(); mc::sleep_ms(7500); break;
            case 2: { cmd f; f.kind = 'f'; d.run(f); d.flush_all(); mc::sleep_ms(4500); break; }
            case 3: d.run(T('s', "a", "small")); break;
            }
            d.flush_all(); if( mc::open_tmpfiles() != 0 ) mc::fail("%d files are still open although no value needs one   after: %s", mc::open_tmpfiles(), d.trace.c_str());
            if( i % 4 == 3 ) d.run(T('d', "a")); d.raw(T('g', "a")); d.flush_all(); d.st.m.clear();
        }
        stop_server();
    };
    return c;
}
// the same sequences as seen by a replica, attached before or afterwards
static mc::chunked replicated(const string& name, std::vector<cmd> A, int depth) {
    mc::chunked c; c.name = name; c.count = power(A.size(), depth) * 2; c.chunk = 1; c.arena = false;
    c.body = [=](u64 from, u64 to) {
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); start_server(base_config(1, 31, "heap_data_limit = 4096\nmax_data_size = 9000\ngc_interval = 1\n")); driver d; d.st.max_data = 9000; replica r; bool late = i % 2;
            if( ! late ) { r.join(); mc::sleep_ms(3000); }
            for( int k: digits(i / 2, A.size(), depth) ) d.run(A[k]); d.flush_all(); if( late ) { r.join(); mc::sleep_ms(4000); }
            mc::sleep_ms(500); compare(d.st, r.content(), "", d.trace); stop_server();
        }
    };
    return c;
}
// values in files through many collections (their pages are flushed when old)
static mc::chunked aging(const string& name) {
    static const std::vector<std::size_t> N = {1, 4095, 4096, 4097, 6000, 8999, 9000};
    mc::chunked c; c.name = name; c.count = N.size() * 14; c.chunk = 1; c.arena = false;
    c.body = [=](u64 from, u64 to) {
        for( u64 i = from; i < to; ++i ) {
            mc::progress(i); start_server(base_config(1, 1, "heap_data_limit = 4096\nmax_data_size = 9000\ngc_interval = 1\n")); driver d; d.st.max_data = 9000; std::size_t n = N[i / 14]; int gcs = i % 14;
            d.run(T('s', "a", pat(n, 'q'), 7)); d.run(T('s', "b", pat(9001 - n, 'r'), 8)); d.flush_all(); for( int g = 0; g < gcs; ++g ) mc::sleep_ms(2300);
            released(d); if( mc::open_vfds() < 0 ) mc::fail("?"); d.run(T('g', "a")); d.run(T('A', "b", "+")); d.run(T('P', "a", "-")); d.run(T('g', "b")); d.flush_all(); mc::sleep_ms(5000); d.run(T('g', "a")); d.flush_all();
            d.run(T('d', "a")); d.run(T('d', "b")); d.flush_all(); mc::sleep_ms(3000); if( mc::open_tmpfiles() ) mc::fail("%d files are open in an empty server   after: %s", mc::open_tmpfiles(), d.trace.c_str()); stop_server();
        }
    };
    return c;
}
// file transfers split by the kernel: n bytes at most per call
static mc::chunked split(mc::chunked c, const string& name, std::size_t n) {
    c.name = name; auto b = c.body; c.body = [=](u64 from, u64 to) { mc::set_file_chunk(n); b(from, to); }; return c;
}
// readers and writers of a value that moves between memory and file
static mc::scenario racing(const string& name, int sb, bool gc) {
    mc::scenario s; s.name = name; s.sched_bound = sb;
    s.body = [=] {
        start_server(base_config(2, 1, "heap_data_limit = 4096\nmax_data_size = 9000\ngc_interval = " + string(gc ? "1\n" : "100000\n"))); client a(PORT, 0), b(PORT, 1), o(PORT, 2);
        int from = mc::choose(2, "stored"), to = mc::choose(4, "change"), rd_ = mc::choose(3, "reader"); string v0 = pat(from ? 5000 : 3000, 'a'), v1 = to == 0 ? pat(5000, 'b') : to == 1 ? pat(100, 'b') : to == 2 ? v0 + pat(3000, 'c') : pat(3000, 'c') + v0;
        o.set("k", v0, 3); auto block = [](const string& v) { return "VALUE k 3 " + std::to_string(v.size()) + "\r\n" + v + "\r\nEND\r\n"; }; if( gc ) for( int i = 0; i < 11; ++i ) mc::sleep_ms(2300);
        string w = string(to < 2 ? "set" : to == 2 ? "append" : "prepend") + " k 3 0 " + std::to_string(to < 2 ? v1.size() : 3000) + "\r\n" + (to < 2 ? v1 : pat(3000, 'c')) + "\r\n";
        string r = rd_ == 0 ? "get k\r\n" : rd_ == 1 ? "get k\r\nget k\r\n" : "delete k\r\n"; mc::wait_idle(); mc::explore_schedules(true); if( gc ) mc::advance_ms(2500); a.send(w); b.send(r); mc::wait_idle(); mc::explore_schedules(false); mc::sleep_ms(3000);
        string ra = a.take(), rb = b.take(), fin = o.get("k");
        if( rd_ == 2 ) { if( rb != "DELETED\r\n" ) mc::fail("delete answered %s", quote(rb, 80).c_str()); if( ra == "STORED\r\n" ? fin != block(v1) && fin != "END\r\n" : fin != "END\r\n" || ra != "NOT_STORED\r\n" || to < 2 ) mc::fail("after %s the value is \"%s\"", quote(ra).c_str(), quote(fin, 80).c_str()); }
        else { if( ra != "STORED\r\n" || fin != block(v1) ) mc::fail("the update answered %s and left \"%s\"", quote(ra).c_str(), quote(fin, 80).c_str()); if( rd_ == 0 ? rb != block(v0) && rb != block(v1) : rb != block(v0) + block(v0) && rb != block(v0) + block(v1) && rb != block(v1) + block(v1) ) mc::fail("a concurrent get answered \"%s\"", quote(rb, 200).c_str()); }
        o.cmd("delete k\r\n"); mc::sleep_ms(3000); if( mc::open_tmpfiles() ) mc::fail("%d files are open in an empty server", mc::open_tmpfiles()); mc::visit_state(mc::mix(mc::hash_str(ra + rb), to)); stop_server();
    };
    return s;
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C20"; bool t = mc::thorough();
    c.rule = "all sequences of the stated depth over stores, appends, prepends, reads, arithmetic and lock commands with sizes at the file threshold (4096) and the size limit (9000) +-1, replies compared with a model that knows no files; open value files counted after every sequence and after deletion, expiry, flush and shrinking; the same compared with a replica's content; values aged by 0..13 collections; reads and writes of value files split after 100, 4096, 4097 and 8192 bytes; races of readers and writers across the threshold";
    std::vector<cmd> A;
    for( std::size_t n: {std::size_t(0), std::size_t(1), std::size_t(4095), std::size_t(4096), std::size_t(4097), std::size_t(9000), std::size_t(9001)} ) A.push_back(T('s', "a", pat(n, 'a' + n % 26), n % 100));
    for( std::size_t n: {std::size_t(1), std::size_t(2), std::size_t(4095), std::size_t(4096), std::size_t(4905), std::size_t(9000), std::size_t(9001)} ) { A.push_back(T('A', "a", pat(n, 'A' + n % 26))); A.push_back(T('P', "a", pat(n, 'B' + n % 25))); }
    { // values of the same size that differ in one byte only, or not at all
        string v = pat(4097, 'a' + 4097 % 26), w = pat(9000, 'a' + 9000 % 26), x = w; v[4090] = '#'; w[8500] = '#'; x[10] = '#';
        A.push_back(T('s', "a", v, 4097 % 100)); A.push_back(T('s', "a", w, 9000 % 100)); A.push_back(T('s', "a", x, 9000 % 100)); A.push_back(T('s', "a", pat(9000, 'a' + 9000 % 26), 5)); }
    std::vector<cmd> W = A;
    for( auto& x: std::vector<cmd>{T('s', "a", "41"), T('G', "a"), T('d', "a"), T('A', "a", ""), T('P', "a", ""), num('+', "a", 1), num('-', "a", 1), T('r', "a", pat(4097, 'R')), T('a', "a", pat(4097, 'D')), cas(CAS_CURRENT, T('c', "a", pat(5000, 'C'))), cas(CAS_CURRENT, T('c', "a", pat(9001, 'C'))), cas(CAS_CURRENT, T('c', "a", "c")), T('t', "a", "", 0, 500), T('r', "a", pat(9001, 'R')), quiet(T('A', "a", pat(4096, 'N'))), quiet(T('P', "a", pat(9000, 'N'))), quiet(T('s', "a", pat(9001, 'N'))), T('l', "a"), on(1, T('A', "a", "L")), on(1, T('s', "a", pat(5000, 'L')))} ) A.push_back(x);
    space s; s.name = "text"; s.cfg = conf(); s.depth = 3; s.keys = {"a"}; s.alphabet = A; c.sequences.push_back(explore(finish(s)));
    if( t ) { s.name = "text-deep"; s.depth = 4; c.sequences.push_back(explore(finish(s))); }
    std::vector<cmd> Bn;
    for( std::size_t n: {std::size_t(1), std::size_t(4096), std::size_t(4097), std::size_t(9000), std::size_t(9001)} ) Bn.push_back(B('s', "a", pat(n, 'a' + n % 26), n % 100));
    for( std::size_t n: {std::size_t(1), std::size_t(4096), std::size_t(4905), std::size_t(9001)} ) { Bn.push_back(B('A', "a", pat(n, 'A' + n % 26))); Bn.push_back(quiet(B('A', "a", pat(n, 'E' + n % 20)))); Bn.push_back(B('P', "a", pat(n, 'B' + n % 25))); Bn.push_back(quiet(B('P', "a", pat(n, 'F' + n % 20)))); }
    for( auto& x: std::vector<cmd>{B('g', "a"), withk(B('g', "a")), quiet(B('g', "a")), quiet(withk(B('g', "a"))), B('d', "a"), B('L', "a", "", 0, -1), withk(B('L', "a", "", 0, -1)), B('R', "a", pat(5000, 'u')), B('R', "a", "u"), B('R', "a", pat(9001, 'u')), quiet(B('R', "a", pat(4097, 'U'))), B('T', "a", "", 0, 300), num('+', "a", 1, true, 7, 0), num('-', "a", 1, true), cas(CAS_CURRENT, B('s', "a", pat(4097, 'c'))), cas(CAS_OLD, B('s', "a", pat(4097, 'o'))), cas(CAS_CURRENT, B('A', "a", pat(4096, 'y'))), cas(CAS_OLD, B('P', "a", pat(4096, 'z'))), quiet(B('r', "a", pat(9001, 'q'))), B('a', "a", pat(9001, 'q')), on(1, B('P', "a", "l"))} ) Bn.push_back(x);
    { space z = s; z.depth = 2; for( std::size_t n: {std::size_t(100), std::size_t(4096), std::size_t(4097), std::size_t(8192)} ) c.sequences.push_back(split(explore(finish(z)), "split-" + std::to_string(n), n)); }
    s.name = "binary"; s.depth = 3; s.alphabet = Bn; s.binfinal = true; c.sequences.push_back(explore(finish(s)));
    if( t ) { s.name = "binary-deep"; s.depth = 4; c.sequences.push_back(explore(finish(s))); }
    std::vector<cmd> V; for( auto& x: W ) V.push_back(x); V.push_back(T('d', "a"));
    c.sequences.push_back(vanish("vanish", V, t ? 3 : 2)); c.sequences.push_back(replicated("replicated", V, t ? 3 : 2)); c.sequences.push_back(aging("aging"));
    c.scenarios.push_back(racing("racing", 1, false)); c.scenarios.push_back(racing("racing-collecting", 1, true));
    return mc::main_(argc, argv, c);
}
