// C34: starting the program: arguments, privileges, memory locking, logging, the hash key.
// main() of the repository runs as the server's thread; credentials, the user
// database, mlockall and the dumpable flag are stand-ins.
#include "ref.hpp"
#include <cybozu/hash_map.hpp>
#include <cerrno>
#include <fcntl.h>
#include <fstream>
#include <grp.h>
#include <iostream>
#include <sys/stat.h>
#include <pwd.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <stdarg.h>
using namespace ref;
int yrmcdsd_main(int, char**);
static struct { uid_t r = 0, e = 0, s = 0; gid_t rg = 0, eg = 0, sg = 0; bool setuid_fails = false, setgid_fails = false, mlock_fails = false, prctl_fails = false; int locked = 0; } P;
static passwd g_pw = {(char*)"svc", (char*)"x", 1001, 1002, (char*)"", (char*)"/", (char*)"/bin/sh"}; static char* g_mem[] = {nullptr}; static group g_gr = {(char*)"grp", (char*)"x", 2002, g_mem};
extern "C" {
uid_t getuid() noexcept { return P.r; }
uid_t geteuid() noexcept { return P.e; }
gid_t getgid() noexcept { return P.rg; }
gid_t getegid() noexcept { return P.eg; }
int setresgid(gid_t r, gid_t e, gid_t s) noexcept {
    auto ok = [](gid_t g) { return g == (gid_t)-1 || P.e == 0 || g == P.rg || g == P.eg || g == P.sg; };
    if( P.setgid_fails || ! ok(r) || ! ok(e) || ! ok(s) ) { errno = EPERM; return -1; }
    if( r != (gid_t)-1 ) P.rg = r; if( e != (gid_t)-1 ) P.eg = e; if( s != (gid_t)-1 ) P.sg = s; return 0;
}
int setresuid(uid_t r, uid_t e, uid_t s) noexcept {
    auto ok = [](uid_t g) { return g == (uid_t)-1 || P.e == 0 || g == P.r || g == P.e || g == P.s; };
    if( P.setuid_fails || ! ok(r) || ! ok(e) || ! ok(s) ) { errno = P.setuid_fails ? EAGAIN : EPERM; return -1; }
    if( r != (uid_t)-1 ) P.r = r; if( e != (uid_t)-1 ) P.e = e; if( s != (uid_t)-1 ) P.s = s; return 0;
}
int setgid(gid_t g) noexcept { return P.e == 0 ? setresgid(g, g, g) : setresgid(-1, g, -1); }
int setuid(uid_t u) noexcept { return P.e == 0 ? setresuid(u, u, u) : setresuid(-1, u, -1); }
int setegid(gid_t g) noexcept { return setresgid(-1, g, -1); }
int seteuid(uid_t u) noexcept { return setresuid(-1, u, -1); }
int setregid(gid_t r, gid_t e) noexcept { return setresgid(r, e, e); }
int setreuid(uid_t r, uid_t e) noexcept { return setresuid(r, e, e); }
int setgroups(size_t, const gid_t*) noexcept { if( P.e != 0 ) { errno = EPERM; return -1; } return 0; }
int initgroups(const char*, gid_t) { return setgroups(0, nullptr); }
passwd* getpwnam(const char* n) { if( strcmp(n, "svc") == 0 ) return &g_pw; errno = 0; return nullptr; }
group* getgrnam(const char* n) { if( strcmp(n, "grp") == 0 ) return &g_gr; errno = 0; return nullptr; }
int getpwnam_r(const char* n, passwd* p, char*, size_t, passwd** r) { *r = nullptr; if( strcmp(n, "svc") == 0 ) { *p = g_pw; *r = p; } return 0; }
int getgrnam_r(const char* n, group* p, char*, size_t, group** r) { *r = nullptr; if( strcmp(n, "grp") == 0 ) { *p = g_gr; *r = p; } return 0; }
passwd* getpwuid(uid_t u) { return u == 1001 ? &g_pw : nullptr; }
int mlockall(int f) noexcept { if( P.mlock_fails ) { errno = ENOMEM; return -1; } P.locked |= f; return 0; }
int munlockall() noexcept { P.locked = 0; return 0; }
int prctl(int op, ...) noexcept { va_list a; va_start(a, op); long v = va_arg(a, long); va_end(a); if( op == PR_SET_DUMPABLE ) { if( P.prctl_fails ) { errno = EINVAL; return -1; } return 0; } return ::syscall(SYS_prctl, op, v, 0, 0, 0); }
}
static string g_dir, g_out; static int g_status; static bool g_done;
static string slurp(const string& p) { std::ifstream f(p); return string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
static void put(const string& p, const string& s) { std::ofstream f(p); f << s; }
static const int FRESH = 12399;
static void prepare() {
    g_dir = mc::scratch() + "/start." + std::to_string(::syscall(SYS_getpid)); ::mkdir(g_dir.c_str(), 0700); if( ::chdir(g_dir.c_str()) ) mc::fail("chdir");
    int fd = (int)::syscall(SYS_open, "out", O_RDWR | O_CREAT | O_TRUNC, 0600); ::syscall(SYS_dup2, fd, 1); ::syscall(SYS_close, fd);
    fd = (int)::syscall(SYS_open, "err", O_RDWR | O_CREAT | O_TRUNC, 0600); ::syscall(SYS_dup2, fd, 2); ::syscall(SYS_close, fd);
}
static string output() { fflush(stdout); std::cout.flush(); return slurp("out"); }
static void finished() { ::chdir("/"); for( auto f: {"out", "err", "conf", "c34-default.conf", "log", "other"} ) ::unlink((g_dir + "/" + f).c_str()); ::rmdir(g_dir.c_str()); }
static void begin(std::vector<string> args) {
    g_done = false; mc::allow_exit(true); ignore_stats(); srv() = server_state{}; srv().running = true;
    mc::spawn("server", [args]() mutable {
        std::vector<char*> v; static char name[] = "yrmcdsd"; v.push_back(name); for( auto& a: args ) v.push_back(&a[0]); v.push_back(nullptr); int st = -1;
        int c = mc::run_catching_exit([&]{ st = yrmcdsd_main((int)v.size() - 1, v.data()); }); g_status = c == -1 ? st : c; srv().done = true; srv().running = false; g_done = true;
    });
}
static void serves(int port, const string& what) {
    mc::block_until([&]{ return g_done || mc::listening(port); }, "start", 30000); if( g_done ) mc::fail("%s: the program ended with status %d instead of serving on port %d", what.c_str(), g_status, port);
    mc::sleep_ms(1500); if( g_done ) mc::fail("%s: the program ended with status %d", what.c_str(), g_status);
    { h::client c(port); c.set("k", "v"); if( c.val("k") != "v" ) mc::fail("%s: does not serve", what.c_str()); }
}
static void stops(const string& what) { mc::raise_signal(SIGTERM); mc::block_until([]{ return g_done; }, "end after SIGTERM", 30000); if( g_status != 0 ) mc::fail("%s: exit status %d after SIGTERM", what.c_str(), g_status); }
static void refuses(const string& what) {
    mc::block_until([&]{ return g_done || ! mc::listeners().empty(); }, "end", 30000); if( ! mc::listeners().empty() && ! g_done ) mc::fail("%s: the program serves", what.c_str());
    if( g_status == 0 ) mc::fail("%s: the program ends with status 0", what.c_str());
}
// ---- arguments
static const std::vector<std::vector<string>> ARGS = {{}, {"-h"}, {"-v"}, {"-f", "conf"}, {"-f"}, {"-f", "missing"}, {"-v", "-f", "conf"}, {"-f", "conf", "-v"}, {"-f", "conf", "-h"}, {"-h", "-v"}, {"-f", "missing", "-h"}, {"-f", "other"}, {"-v", "-f"}};
static string show(const std::vector<string>& a) { string s = "yrmcdsd"; for( auto& x: a ) s += " " + x; return s; }
static string conf(int port, const string& x = "") { return "workers = 2\nbuckets = 3\ntemp_dir = " + g_dir + "\nport = " + std::to_string(port) + "\n" + x; }
static mc::chunked arguments() {
    mc::chunked c; c.name = "arguments"; c.count = ARGS.size() * 5 * 2; c.chunk = 1; c.arena = false;
    c.body = [](u64 from, u64 to) { for( u64 i = from; i < to; ++i ) {
        mc::progress(i); prepare(); auto& a = ARGS[i % ARGS.size()]; int def = i / ARGS.size() % 5; P = {}; if( i / ARGS.size() / 5 ) P.r = P.e = P.s = 500;
        put("conf", conf(12301)); put("other", conf(12302, "workers = 0\n")); if( def ) put("c34-default.conf", conf(12303, def == 2 ? "workers = many\n" : def == 3 ? "workers = 0\n" : def == 4 ? "no equals sign\n" : ""));
        string what = show(a) + (def == 0 ? ", no default configuration" : def == 1 ? ", default configuration" : ", malformed default configuration"); begin(a);
        bool h = std::find(a.begin(), a.end(), "-h") != a.end(), v = std::find(a.begin(), a.end(), "-v") != a.end(); auto f = std::find(a.begin(), a.end(), "-f");
        if( h || v ) {
            mc::block_until([&]{ return g_done || ! mc::listeners().empty(); }, "end", 30000); if( ! g_done ) mc::fail("%s: the program serves", what.c_str()); if( g_status != 0 ) mc::fail("%s: status %d", what.c_str(), g_status);
            string o = output(); if( h ? o.find("-f") == string::npos : o.find(yrmcds::VERSION) == string::npos ) mc::fail("%s: the output is \"%s\"", what.c_str(), quote(o, 100).c_str());
        } else if( f != a.end() ) {
            if( f + 1 == a.end() || *(f + 1) != "conf" ) refuses(what);
            else { serves(12301, what); for( auto& l: mc::listeners() ) if( l.second == 12303 || l.second == 11211 ) mc::fail("%s: listens on port %d", what.c_str(), l.second); stops(what); }
        } else if( def >= 2 ) refuses(what);
        else if( def ) { serves(12303, what); stops(what); }
        else { mc::block_until([&]{ return g_done || mc::listening(11211); }, "start", 30000); if( g_done ) mc::fail("%s: the program ended with status %d", what.c_str(), g_status); } // a million buckets: not any further
        mc::visit_state(mc::hash_str(what)); mc::count_transition(); finished();
    } };
    return c;
}
// ---- configuration that only matters at the start
static mc::chunked starting() {
    mc::chunked c; c.name = "starting"; c.count = 2 * 3 * 3 * 2 * 2 * 3 * 3 * 4 * 2; c.chunk = 1; c.arena = false;
    c.body = [](u64 from, u64 to) { for( u64 i = from; i < to; ++i ) {
        mc::progress(i); prepare(); u64 n = i; auto d = [&](int k) { int r = n % k; n /= k; return r; };
        int root = 1 - d(2), user = d(3), group = d(3), ufail = d(2), gfail = d(2), lock = d(3), log = d(3), thr = d(4), pfail = d(2); static const char* T[] = {"error", "warning", "info", "debug"};
        P = {}; if( ! root ) { P.r = P.e = P.s = 500; P.rg = P.eg = P.sg = 500; } P.setuid_fails = ufail; P.setgid_fails = gfail; P.mlock_fails = lock == 2; P.prctl_fails = pfail;
        string x = string("log.threshold = ") + T[thr] + "\n"; if( user ) x += user == 1 ? "user = svc\n" : "user = nobody-here\n"; if( group ) x += group == 1 ? "group = grp\n" : "group = no-such-group\n"; if( lock ) x += "lock_memory = true\n"; if( log ) x += log == 1 ? "log.file = " + g_dir + "/log\n" : "log.file = " + g_dir + "/missing/log\n"; if( i % 7 == 0 ) x += "secure_erase = true\n";
        put("conf", conf(FRESH, x)); string what = (root ? "as root: " : "as user 500: ") + x + (ufail ? "(setuid fails) " : "") + (gfail ? "(setgid fails) " : "") + (lock == 2 ? "(mlockall fails) " : "") + (pfail ? "(prctl fails)" : ""); for( auto& ch: what ) if( ch == '\n' ) ch = ';';
        u64 h0 = cybozu::hash_key("some key", 8).hash(); begin({"-f", "conf"});
        bool bad = lock == 2 || log == 2 || (root && (group == 2 || user == 2 || (group == 1 && gfail) || (user == 1 && ufail)));
        if( bad ) { refuses(what); if( ! mc::listeners().empty() ) mc::fail("%s: a port is open although the program cannot start", what.c_str()); }
        else {
            // the rights must be gone before the first port opens
            mc::block_until([&]{ return g_done || ! mc::listeners().empty(); }, "start", 30000);
            if( root && user && (P.r != 1001 || P.e != 1001 || P.s != 1001) ) mc::fail("%s: serves with user ids %d %d %d", what.c_str(), P.r, P.e, P.s);
            if( root && ! user && P.e != 0 ) mc::fail("%s: serves with user id %d", what.c_str(), P.e);
            if( root && group && (P.rg != 2002 || P.eg != 2002 || P.sg != 2002) ) mc::fail("%s: serves with group ids %d %d %d", what.c_str(), P.rg, P.eg, P.sg);
            if( ! root && (P.r != 500 || P.e != 500 || P.eg != 500) ) mc::fail("%s: serves with user id %d", what.c_str(), P.e);
            if( lock ? (P.locked & (MCL_CURRENT | MCL_FUTURE)) != (MCL_CURRENT | MCL_FUTURE) : P.locked != 0 ) mc::fail("%s: memory locked: %d", what.c_str(), P.locked);
            serves(FRESH, what);
            u64 h = cybozu::hash_key("some key", 8).hash(); if( h == h0 ) mc::fail("%s: the hash function was not given a key", what.c_str());
            string mark = mc::scratch() + "/hash." + std::to_string(h); int fd = (int)::syscall(SYS_open, mark.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0600); if( fd < 0 && errno == EEXIST ) mc::fail("%s: two starts of the program use the same hash key", what.c_str()); if( fd >= 0 ) ::syscall(SYS_close, fd);
            if( log ) { string l = slurp("log"); if( l.find(" WARN ") != string::npos && thr < 1 ) mc::fail("%s: the log contains a warning: %s", what.c_str(), quote(l, 200).c_str()); if( (l.find(" INFO ") != string::npos) > (thr >= 2) ) mc::fail("%s: the log contains %s", what.c_str(), quote(l, 200).c_str());
                cybozu::logger::error() << "probe error"; cybozu::logger::warning() << "probe warning"; cybozu::logger::info() << "probe info"; cybozu::logger::debug() << "probe debug"; l = slurp("log");
                for( int t = 0; t < 4; ++t ) if( (l.find(string("probe ") + T[t]) != string::npos) != (t <= thr) ) mc::fail("%s: a record of severity %s is %s the log file", what.c_str(), T[t], t <= thr ? "not in" : "in"); }
            else if( ::access("log", F_OK) == 0 ) mc::fail("%s: a log file appeared", what.c_str());
            stops(what);
        }
        mc::visit_state(mc::hash_str(what)); mc::count_transition(); finished();
    } };
    return c;
}
int main(int argc, char** argv) {
    mc::check c; c.property = "C34";
    c.rule = "main() of the repository run with every listed argument list and default configuration, and with every combination of user, group, lock_memory, log file and threshold, as root or not, with setuid, setgid, mlockall, prctl failing or not (stand-ins for these calls); exit status, what is listened on, the process's rights at the moment the first port opens, locked memory, the log file and the hash key are compared with the documentation";
    c.sequences = {arguments(), starting()};
    return mc::main_(argc, argv, c);
}
