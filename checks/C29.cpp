// C29: configuration files are read as documented or rejected.
#include "ref.hpp"
#include "../mc/harness.hpp"
#include <fstream>
#include <sys/stat.h>
#include <arpa/inet.h>
using namespace ref;
typedef std::map<string, string> settings;   // effective value of every option as text
static const char* OPT[] = {"user", "group", "virtual_ip", "port", "repl_port", "bind_ip", "max_connections", "temp_dir", "log.threshold", "log.file", "buckets", "max_data_size", "heap_data_limit", "repl_buffer_size", "initial_repl_sleep_delay_usec", "secure_erase", "lock_memory", "memory_limit", "workers", "gc_interval", "slave_timeout", "counter.enable", "counter.port", "counter.max_connections", "counter.buckets", "counter.stat_interval"};
static const int N_OPT = 26;
static settings defaults() {
    return {{"user", ""}, {"group", ""}, {"virtual_ip", "127.0.0.1"}, {"port", "11211"}, {"repl_port", "11213"}, {"bind_ip", ""}, {"max_connections", "0"}, {"temp_dir", "/var/tmp"}, {"log.threshold", "info"}, {"log.file", ""}, {"buckets", "1000000"}, {"max_data_size", "1048576"}, {"heap_data_limit", "262144"}, {"repl_buffer_size", "30"}, {"initial_repl_sleep_delay_usec", "0"}, {"secure_erase", "false"}, {"lock_memory", "false"}, {"memory_limit", "1073741824"}, {"workers", "8"}, {"gc_interval", "10"}, {"slave_timeout", "10"}, {"counter.enable", "false"}, {"counter.port", "11215"}, {"counter.max_connections", "0"}, {"counter.buckets", "1000000"}, {"counter.stat_interval", "86400"}};
}
static settings effective(const yrmcds::config& c) {
    settings s; auto n = [](unsigned long long v) { return std::to_string(v); }; auto b = [](bool v) { return string(v ? "true" : "false"); };
    s["user"] = c.user(); s["group"] = c.group(); s["virtual_ip"] = c.vip().str(); s["port"] = n(c.port()); s["repl_port"] = n(c.repl_port()); string ips; for( auto& a: c.bind_ip() ) ips += (ips.empty() ? "" : " ") + a.str(); s["bind_ip"] = ips;
    s["max_connections"] = n(c.max_connections()); s["temp_dir"] = c.tempdir(); s["log.threshold"] = c.threshold() == cybozu::severity::error ? "error" : c.threshold() == cybozu::severity::warning ? "warning" : c.threshold() == cybozu::severity::info ? "info" : "debug"; s["log.file"] = c.logfile();
    s["buckets"] = n(c.buckets()); s["max_data_size"] = n(c.max_data_size()); s["heap_data_limit"] = n(c.heap_data_limit()); s["repl_buffer_size"] = n(c.repl_bufsize()); s["initial_repl_sleep_delay_usec"] = n(c.initial_repl_sleep_delay_usec()); s["secure_erase"] = b(c.secure_erase()); s["lock_memory"] = b(c.lock_memory()); s["memory_limit"] = n(c.memory_limit());
    s["workers"] = n(c.workers()); s["gc_interval"] = n(c.gc_interval()); s["slave_timeout"] = n(c.slave_timeout()); auto& k = c.counter(); s["counter.enable"] = b(k.enable()); s["counter.port"] = n(k.port()); s["counter.max_connections"] = n(k.max_connections()); s["counter.buckets"] = n(k.buckets()); s["counter.stat_interval"] = n(k.stat_interval());
    return s;
}
// ---- the documented meaning of a value
enum verdict { MUST, REJECT, EITHER };   // EITHER: the given value or an error
struct meaning { verdict v; string val; };
static string DIR() { return mc::scratch() + "/dir"; }
typedef unsigned __int128 u128;
// digits only -> exact value
static bool digits_only(const string& s, u128& v) { v = 0; if( s.empty() || s.size() > 30 ) return false; for( char c: s ) { if( c < '0' || c > '9' ) return false; v = v * 10 + (c - '0'); } return true; }
static meaning number(string s, u128 min, u128 max, u128 sure, u128 unit = 1) {
    verdict ok = MUST; std::size_t a = s.find_first_not_of(" \t\r\f\v\n"), b = s.find_last_not_of(" \t\r\f\v\n"); if( a == string::npos ) return {REJECT, ""}; if( a || b + 1 != s.size() ) { ok = EITHER; s = s.substr(a, b + 1 - a); }
    if( s[0] == '+' ) { ok = EITHER; s.erase(0, 1); } if( s.size() > 1 && s[0] == '0' ) ok = EITHER;
    bool neg = ! s.empty() && s[0] == '-'; if( neg ) s.erase(0, 1); u128 v; if( ! digits_only(s, v) ) return {REJECT, ""}; if( neg && v ) return {REJECT, ""}; if( neg ) ok = EITHER;
    if( v > sure ) ok = EITHER; v *= unit; if( v < min || v > max || v > (u128)~0ULL ) return {REJECT, ""};
    string t; do t.insert(t.begin(), '0' + (int)(v % 10)); while( v /= 10 ); return {ok, t};
}
// other numeric notations of inet_aton: unspecified
static bool odd_ip(const string& s) { in_addr a; return s.find_first_of(" \t") == string::npos && inet_aton(s.c_str(), &a); }
static meaning interpret(const string& o, const string& s) {
    const u128 I = 2147483647, U = 4294967295ULL, Q = ~0ULL;
    if( o == "user" || o == "group" ) return {MUST, s};
    if( o == "port" || o == "repl_port" || o == "counter.port" ) return number(s, 1, 65535, I);
    if( o == "max_connections" || o == "counter.max_connections" ) return number(s, 0, U, I);
    if( o == "buckets" || o == "counter.buckets" || o == "gc_interval" || o == "slave_timeout" ) return number(s, 1, U, I);
    if( o == "repl_buffer_size" ) return number(s, 1, 65536, 65536);
    if( o == "workers" ) return number(s, 1, 64, 64);
    if( o == "counter.stat_interval" ) return number(s, 10, U, I);
    if( o == "initial_repl_sleep_delay_usec" ) return number(s, 0, Q, Q);
    if( o == "secure_erase" || o == "lock_memory" || o == "counter.enable" ) return s == "true" || s == "false" ? meaning{MUST, s} : meaning{REJECT, ""};
    if( o == "log.threshold" ) return s == "error" || s == "warning" || s == "info" || s == "debug" ? meaning{MUST, s} : meaning{REJECT, ""};
    if( o == "log.file" ) return ! s.empty() && s[0] == '/' ? meaning{MUST, s} : meaning{REJECT, ""};
    if( o == "temp_dir" ) { struct stat st; return s == DIR() ? meaning{MUST, s} : ! s.empty() && ! ::stat(s.c_str(), &st) && S_ISDIR(st.st_mode) ? meaning{EITHER, s} : meaning{REJECT, ""}; }
    if( o == "max_data_size" || o == "memory_limit" || o == "heap_data_limit" ) { string t = s; int shift = 0; if( ! t.empty() ) switch( t.back() ) { case 'k': case 'K': shift = 10; break; case 'm': case 'M': shift = 20; break; case 'g': case 'G': shift = 30; break; } if( shift ) t.pop_back(); meaning m = number(t, o == "heap_data_limit" ? 4096 : 1, Q, I, (u128)1 << shift); return m; }
    static const std::set<string> ip = {"127.0.0.1", "10.1.2.3", "255.255.255.255", "0.0.0.0", "::1", "fe80::1", "2001:db8::a:b", "::"};
    if( o == "virtual_ip" && ! ip.count(s) && odd_ip(s) ) return {EITHER, "*"}; if( o == "virtual_ip" ) return ip.count(s) ? meaning{MUST, s} : meaning{REJECT, ""};
    if( o == "bind_ip" ) { string r, w; bool odd = false; for( std::size_t i = 0; i <= s.size(); ++i ) if( i == s.size() || s[i] == ' ' ) { if( ! w.empty() ) { if( ! ip.count(w) && odd_ip(w) ) odd = true; else if( ! ip.count(w) ) return {REJECT, ""}; r += (r.empty() ? "" : " ") + w; } w = ""; } else w += s[i]; return odd ? meaning{EITHER, "*"} : meaning{MUST, r}; }
    abort();
}
// ---- the documented syntax
static const char WS[] = " \t\r\f\v\n";
static string trim(const string& s) { std::size_t a = s.find_first_not_of(WS); if( a == string::npos ) return ""; return s.substr(a, s.find_last_not_of(WS) + 1 - a); }
static bool expected(const string& file, settings& out, bool& unsure, string& why) {   // false: must be rejected
    out = defaults(); unsure = false; std::map<string, string> last; bool bad = false; std::size_t at = 0;
    while( at < file.size() ) {
        std::size_t e = file.find('\n', at); string l = trim(file.substr(at, e == string::npos ? e : e - at)); at = e == string::npos ? file.size() : e + 1;
        if( l.empty() || l[0] == '#' ) continue; std::size_t q = l.find('='); if( q == string::npos ) { bad = true; why = "line without ="; continue; }
        string v = trim(l.substr(q + 1)); if( v.size() >= 2 && v[0] == '"' && v.back() == '"' ) v = v.substr(1, v.size() - 2); last[trim(l.substr(0, q))] = v;
    }
    if( bad ) return false; bool must_reject = false;
    for( auto& p: last ) { if( ! out.count(p.first) ) continue; meaning m = interpret(p.first, p.second); if( m.v == REJECT ) { must_reject = true; why = p.first + " = \"" + p.second + "\""; } else { if( m.v == EITHER ) unsure = true; out[p.first] = m.val; } }
    return ! must_reject;
}
static void judge(const string& file, const string& path) {
    { std::ofstream f(path, std::ios::binary | std::ios::trunc); f << file; }
    settings want; bool unsure; string why; bool ok = expected(file, want, unsure, why), loaded = false; string error; yrmcds::config c;
    try { c.load(path); loaded = true; } catch( const std::exception& e ) { error = e.what(); }
    if( loaded && ! ok ) mc::fail("the file \"%s\" was accepted although it is invalid (%s)", quote(file, 200).c_str(), why.c_str());
    if( ! loaded && ok && ! unsure ) mc::fail("the file \"%s\" was rejected: %s", quote(file, 200).c_str(), error.c_str());
    if( loaded ) { settings got = effective(c); for( auto& p: want ) if( p.second != "*" && got[p.first] != p.second ) mc::fail("the file \"%s\" sets %s to \"%s\" instead of \"%s\"", quote(file, 200).c_str(), p.first.c_str(), got[p.first].c_str(), p.second.c_str()); string all; for( auto& p: got ) all += p.second + ";"; mc::visit_state(mc::hash_str(all)); }
    mc::count_transition();
}
static string own(u64 i) { return mc::scratch() + "/c" + std::to_string(i); }
static std::vector<string> values() {
    std::vector<string> v = {"", "0", "1", "2", "9", "10", "11", "63", "64", "65", "100", "4095", "4096", "4097", "9999", "10000", "65534", "65535", "65536", "65537", "100000", "2147483646", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "4294978507", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999999", "-0", "-1", "-2", "-65536", "-2147483648", "-2147483649", "-9223372036854775809", "+1", "+64", "007", "0000000000000000064", "0x10", "1e3", "1.5", "64.0", "1 2", "12a", "a12", "a", "1,000", "12#", "12 # workers", "- 1", "--1", "+-1", "1_000",
        "true", "false", "True", "FALSE", "yes", "no", "on", "off", "tru", "truee", "true false", "error", "warning", "info", "debug", "Error", "warn", "fatal", "infodebug", "info debug",
        "k", "K", "M", "G", "0k", "0M", "1k", "1K", "3k", "4k", "5K", "16K", "1m", "1M", "10M", "1g", "1G", "2147483647k", "2147483647M", "2147483647G", "2147483648G", "4294967296k", "17179869184G", "18014398509481985k", "1KK", "1kB", "1MB", "1 M", "1T", "M1", "1Mx", "1.5M", "-1M", "+1M", "10M # limit", "1M 2M", "4k0",
        "127.0.0.1", "10.1.2.3", "0.0.0.0", "255.255.255.255", "256.0.0.1", "1.2.3.4.5", "1.2.3.x", "::1", "::", "fe80::1", "2001:db8::a:b", ":::", "12345::1", "localhost", "127.0.0.1 10.1.2.3", "127.0.0.1  ::1", "10.1.2.3 x", "127.0.0.1,10.1.2.3", "127.0.0.1:80", "127.0.0.1/8", "[::1]",
        "/", "/var/log/x", "/a b", "var/log", "./x", "nobody", "no body", "#x", "a=b", "=", "==", "a\"b", "\"", "x\"", "\"x", "'1'", "1;", "1\t2"};
    v.push_back(DIR()); v.push_back(DIR() + "/none"); v.push_back(mc::scratch() + "/file"); return v;
}
static const int N_FORM = 12;
static string form(int f, const string& k, const string& v) {
    switch( f ) { case 0: return k + " = " + v + "\n"; case 1: return k + "=" + v; case 2: return k + "\t=\t" + v + "\t\r\n"; case 3: return k + " = \"" + v + "\"\n"; case 4: return "  \t" + k + "=\"" + v + "\"  \n\n# end"; case 5: return "# " + k + " = " + v + "\n"; case 6: return k + " = \" " + v + "\"\n"; case 7: return k + " = " + v + " \"\n"; case 8: return k + " " + v + "\n"; case 9: return "\v\f" + k + "\v=\f" + v + "\n \t\n"; case 10: return k + "x = " + v + "\n" + k + " = " + v + "\n"; default: return "#\n#=\n\n" + k + "   =   \"" + v + "\"\n #" + k + " = 1\n"; }
}
static void prepare() { ::mkdir(DIR().c_str(), 0755); std::ofstream f(mc::scratch() + "/file"); }
static mc::chunked every_value(const string& name) {
    mc::chunked c; c.name = name; c.count = (u64)N_OPT * N_FORM * values().size(); c.chunk = 500; c.arena = false;
    c.body = [](u64 from, u64 to) { prepare(); cybozu::logger::set_threshold(cybozu::severity::error); auto V = values(); for( u64 i = from; i < to; ++i ) { mc::progress(i); judge(form(i % N_FORM, OPT[i / N_FORM % N_OPT], V[i / N_FORM / N_OPT]), own(from)); } };
    return c;
}
// every sequence of tokens
static mc::chunked syntax(const string& name, int depth, std::vector<string> tok) {
    mc::chunked c; c.name = name; u64 n = tok.size(); c.count = power(n, depth); c.chunk = std::max<u64>(1, std::min<u64>(20000, c.count / 64 + 1)); c.arena = false;
    c.body = [=](u64 from, u64 to) { prepare(); cybozu::logger::set_threshold(cybozu::severity::error); for( u64 i = from; i < to; ++i ) { mc::progress(i); string f; for( int k: digits(i, n, depth) ) f += tok[k]; judge(f, own(from)); } };
    return c;
}
// every pair of settings: options do not influence each other, the last one counts
static std::vector<std::pair<int, string>> few() {
    std::vector<std::pair<int, string>> r; for( int o = 0; o < N_OPT; ++o ) { string k = OPT[o]; std::vector<string> v; if( k == "user" || k == "group" ) v = {"u", "nobody"}; else if( k == "virtual_ip" ) v = {"10.1.2.3", "x"}; else if( k == "bind_ip" ) v = {"10.1.2.3 ::1", "", "10.1.2.3,x"}; else if( k == "temp_dir" ) v = {DIR(), "/nonexistent"}; else if( k == "log.threshold" ) v = {"error", "debug", "x"}; else if( k == "log.file" ) v = {"/a", "a"}; else if( k == "secure_erase" || k == "lock_memory" || k == "counter.enable" ) v = {"true", "false", "1"}; else if( k == "max_data_size" || k == "heap_data_limit" || k == "memory_limit" ) v = {"5000", "8K", "3M", "0"}; else v = {"12", "13", "64", "-1"}; for( auto& x: v ) r.push_back({o, x}); }
    return r;
}
static mc::chunked pairs(const string& name, int depth) {
    mc::chunked c; c.name = name; u64 n = few().size(); c.count = power(n, depth); c.chunk = std::min<u64>(5000, c.count / 64 + 1); c.arena = false;
    c.body = [=](u64 from, u64 to) { prepare(); cybozu::logger::set_threshold(cybozu::severity::error); auto F = few(); for( u64 i = from; i < to; ++i ) { mc::progress(i); string f; for( int k: digits(i, n, depth) ) f += string(OPT[F[k].first]) + " = " + F[k].second + "\n"; judge(f, own(from)); } };
    return c;
}
// files that cannot be read
static mc::chunked unreadable(const string& name) {
    mc::chunked c; c.name = name; c.count = 4; c.chunk = 1; c.arena = false;
    c.body = [](u64 from, u64) { prepare(); mc::progress(from); string p = from == 0 ? mc::scratch() + "/missing" : from == 1 ? DIR() : from == 2 ? mc::scratch() + "/file/x" : string(); bool ok = false; yrmcds::config c; try { c.load(p); ok = true; } catch( const std::exception& ) {} if( ok ) mc::fail("\"%s\" was accepted as a configuration file", p.c_str()); mc::visit_state(from); };
    return c;
}
// what the server does with the settings
static mc::chunked used(const string& name) {
    mc::chunked c; c.name = name; c.count = 3 * 3 * 4 * 2 * 2; c.chunk = 1; c.arena = false;
    c.body = [](u64 i, u64) {
        mc::progress(i); static const int P[] = {11211, 1, 65535}; static const int R[] = {11213, 40000, 1024}; static const int K[] = {0, 11215, 2, 60000}; int p = P[i % 3], r = R[i / 3 % 3], k = K[i / 9 % 4], lim = i / 36 % 2, kl = i / 72; 
        string cfg = "port = " + std::to_string(p) + "\nrepl_port = " + std::to_string(r) + "\n" + (k ? "counter.enable = true\ncounter.port = " + std::to_string(k) + "\ncounter.buckets = 3\n" : "counter.port = 7\n") + "buckets = 5\nworkers = 2\nlog.threshold = error\n"; if( lim ) cfg += "max_connections = 1\n"; if( kl ) cfg += "counter.max_connections = 1\n";
        start_server(cfg, false); mc::sleep_ms(3000); std::set<int> want = {p, r}; if( k ) want.insert(k); for( int x: {1, 2, 7, 1024, 11211, 11213, 11215, 40000, 60000, 65535} ) if( mc::listening(x) != (bool)want.count(x) ) mc::fail("port %d is %s with \"%s\"", x, mc::listening(x) ? "open" : "closed", quote(cfg).c_str());
        { client a(p, 0), b(p, 1); mc::wait_idle(); if( a.server_closed() || b.server_closed() != (bool)lim ) mc::fail("max_connections is not applied"); a.set("k", "v"); } if( k ) { mc::client a, b; a.connect(k); b.connect(k); mc::wait_idle(); if( a.server_closed() || b.server_closed() != (bool)kl ) mc::fail("counter.max_connections is not applied"); }
        mc::visit_state(i); mc::count_transition(); stop_server();
    };
    return c;
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C29"; bool t = mc::thorough(); int x = t ? 1 : 0;
    c.rule = "every documented option with every value of a boundary alphabet (numbers around all limits, units, names, addresses, paths, garbage) in 12 notations, all token sequences of the stated length over the syntax alphabet, all pairs (triples when thorough) of settings, unreadable files; the effective value of all 26 options is compared with an independent reading of the documentation, in exact arithmetic; the server is started with combinations of ports and limits";
    c.assumptions = {"numbers with a leading + or 0, padded inside quotes, or byte counts above 2^31 before the unit may be read exactly or rejected", "the last of several settings of one option counts"};
    auto& Q = c.sequences; std::vector<string> A = {"port", "=", "7", " ", "\t", "#", "\"", "\n", "\r"}; std::vector<string> B = {"workers", " = ", "9", "-", "k", "\"", "\n", "0", "#"};
    Q.push_back(every_value("values")); Q.push_back(syntax("syntax", 6 + x, A)); Q.push_back(syntax("syntax-short", 4, A)); Q.push_back(syntax("numbers", 5 + x, B)); for( const char* o: {"memory_limit = ", "initial_repl_sleep_delay_usec = ", "bind_ip = "} ) { std::vector<string> C = {"1", "0", "-", "M", "k", " ", ".", "x", "127.0.0.1", "\""}; std::vector<string> D; for( auto& s: C ) D.push_back(s); mc::chunked m = syntax(string("value-") + string(o).substr(0, 7), 4 + x, D); auto body = m.body; u64 n = D.size(), depth = 4 + x; string key = o; m.body = [=](u64 from, u64 to) { prepare(); cybozu::logger::set_threshold(cybozu::severity::error); for( u64 i = from; i < to; ++i ) { mc::progress(i); string f = key; for( int k: digits(i, n, depth) ) f += D[k]; judge(f, own(from)); } }; Q.push_back(m); }
    Q.push_back(pairs("pairs", 2 + x)); Q.push_back(unreadable("unreadable")); Q.push_back(used("used"));
    return mc::main_(argc, argv, c);
}
