// mcrt: a controlled scheduler plus a virtual operating system for
// exploring every bounded execution of the *real* yrmcds code.
//
// The repository sources are compiled with clang's -fsanitize=thread
// instrumentation but linked against this runtime instead of TSan's.
// Every atomic operation, lock operation, system call and (for the race
// and use-after-free monitors) plain memory access of the code under test
// is therefore reported to, or performed by, this runtime.
#ifndef MCRT_HPP
#define MCRT_HPP

#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {

// ---------------------------------------------------------------- results
// Report a violation of the property under check and end the execution.
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf,1,2)));
// As above, but tagged with the monitor that saw it ("race", "uaf", "fd",
// "deadlock", "exit", ...), so a check can select what it listens to.
[[noreturn]] void fail_kind(const char* kind, const char* fmt, ...)
    __attribute__((format(printf,2,3)));
// End the execution early without judging it (state already covered).
[[noreturn]] void stop_ok();

#define MC_REQUIRE(c, ...) do { if(!(c)) ::mc::fail(__VA_ARGS__); } while(0)

// Append to the human readable trace that is stored on violations.
void note(const char* fmt, ...) __attribute__((format(printf,1,2)));

// --------------------------------------------------------------- choices
enum cost_kind { FREE = 0, SCHED = 1, FAULT = 2 };
// A nondeterministic choice in [0,n); every alternative is explored,
// subject to the bound for its cost kind (alternative 0 is the default).
int choose(int n, const char* label, cost_kind k = FREE);
// Enable / disable exploration of scheduling alternatives.
void explore_schedules(bool on);
// Enable / disable exploration of socket level faults (short writes, ...).
struct vsock;
struct faults {
    bool short_send = false;   // send/writev accept only part of the data
    bool send_error = false;   // send/writev fails with EPIPE
    bool recv_error = false;   // recv fails with an error
    bool short_recv = false;   // recv returns a single byte
    bool file_eintr = false;   // write to a file is interrupted (set_file_points)
    bool wait_eintr = false;   // epoll_wait is interrupted
    // errors to choose from (defaults when empty); EINTR leaves the connection alone
    std::vector<int> recv_errnos, send_errnos;
    // errors of accept; EMFILE, ENFILE, ENOBUFS, ENOMEM and EINTR keep the connection waiting
    std::vector<int> accept_errnos;
    vsock* only = nullptr;     // restrict faults to one connection
};
void set_faults(const faults& f);

// --------------------------------------------------------------- threads
void spawn(const char* name, std::function<void()> fn);
void join_all();             // wait for all threads made with spawn()
void sleep_ms(unsigned ms);  // virtual time, blocks
void advance_ms(unsigned ms);// moves virtual time forward, does not block
void set_time(std::int64_t unix_sec);
std::int64_t now_sec();
std::int64_t now_ms();
void wait_idle();            // until no other thread can take a step
bool wait_idle_for(unsigned max_ms); // likewise, letting time pass
void yield();                // an explicit scheduling point
void block_until(const std::function<bool()>& f, const char* what,
                 unsigned timeout_ms = 0); // harness-level condition

// --------------------------------------------------------------- network
struct vsock;
class client {
public:
    client() = default;
    explicit client(int port) { connect(port); }
    void connect(int port, const char* to = nullptr);   // `to`: address, any if not given          // waits for the listener
    bool connected() const { return s != nullptr; }
    void send(const std::string& data);
    // Take everything received so far without waiting.
    std::string take();
    // Wait until at least n bytes arrived; take exactly n bytes.
    std::string recv(std::size_t n, unsigned timeout_ms = 10000);
    // Wait until the received data ends with / contains `t`.
    std::string recv_until(const std::string& t, unsigned timeout_ms = 10000);
    // Wait until the server closed the connection; returns remaining data.
    std::string recv_eof(unsigned timeout_ms = 10000);
    std::size_t avail() const;
    bool server_closed() const;      // server shut down or closed its end
    bool fd_released() const;        // server closed the descriptor
    bool consumed() const;           // the server has read everything sent so far
    bool unflushed() const;          // data written after the last push
    void shutdown();                 // FIN
    void close();                    // FIN, later data is answered by RST
    void reset(int err = 104);       // RST (ECONNRESET), or another error
    void vanish();                   // no answer any more, not even to probes (set_keepalive)
    void set_window(std::size_t n);  // receive window: unread bytes allowed
    // an endless stream: called at every recv of the server on this connection,
    // which then takes ms of virtual time
    bool faulted() const;           // an injected error ended it
    void set_source(std::function<std::string()> f, unsigned ms);
    void set_autoread(bool);         // client consumes data immediately
    const std::string& history() const; // every byte ever accepted for us
    int server_fd() const;
    vsock* s = nullptr;
};

bool listening(int port);
// Listener on the "other side": the code under test connects to us.
// accept_connect() returns false if nobody connected in time.
void set_remote_listen(int port, bool accept);
bool accept_connect(client& c, int port, unsigned timeout_ms);
bool connect_pending(int port);

std::vector<std::pair<std::string, int>> listeners();   // addresses and ports listened on
void set_ipv6(bool on);
void set_local_ip(const char* ip, bool present);  // for getifaddrs
void raise_signal(int signo);
int  open_vfds();                    // number of open virtual descriptors
void set_keepalive(bool on);              // connections of closed or vanished peers end by keepalive probes
void set_fd_limit(int n);              // descriptors the server may have (0: any number)
void set_file_chunk(std::size_t n);   // reads and writes of value files transfer at most n bytes per call (0: no limit)
void set_file_points(bool on);   // writes to files are scheduling points
int  open_tmpfiles();                // number of open temporary files
void set_accept_errno(int e);        // next accept4 fails with e

// ------------------------------------------------------------ monitoring
void ignore_atomics(const void* p, std::size_t n);  // statistics counters
void watch_races(bool on);
void ignore_races(const void* p, std::size_t n);
// Call f when the server process terminates by itself (quick_exit/exit).
void on_exit_call(std::function<void(int code, bool quick)> f);
struct exit_longjmp_frame; // see run_server()
// Runs fn; returns the code if fn ended with exit()/quick_exit(), -1 if it
// returned.
void allow_exit(bool on);   // exit() in a thread of run_catching_exit() ends it like quick_exit()
int run_catching_exit(const std::function<void()>& fn);
// Heap observation: called with every block released by the program.
void on_free(std::function<void(const void* p, std::size_t n)> f);
// Every live or released byte of the heap allocated since the execution
// started: f(ptr, size, live)
void heap_walk(const std::function<void(const void*, std::size_t, bool)>& f);
// Bytes of heap blocks (256 bytes and more) the server's threads hold, and the
// largest value since the watch began or the last restart (no arena).
void watch_heap(bool on);
std::size_t heap_now();
std::size_t heap_peak(bool restart = false);
void set_step_limit(std::uint64_t n);
std::uint64_t steps();
void verbose(bool on);
// A number that goes into the state signature (harness-side state).
void observe(std::uint64_t v);
// scratch directory for this run
const std::string& scratch();

// ------------------------------------------------------------- exploring
struct scenario {
    std::string name;
    std::function<void()> body;   // runs as virtual thread "script"
    int sched_bound = 1;
    int fault_bound = 0;
    double weight = 1.0;          // share of the time budget
    bool arena = true;            // quarantine freed memory
    bool races = false;           // happens-before race detection
};

struct chunked {                  // sequential enumeration
    std::string name;
    std::uint64_t count;          // number of cases
    std::uint64_t chunk;          // cases per child process
    // Runs as virtual thread; must call progress(i) before each case.
    std::function<void(std::uint64_t from, std::uint64_t to)> body;
    bool arena = true;
    std::string (*describe)(std::uint64_t) = nullptr;
};
void progress(std::uint64_t i);
// Abstract-state accounting for sequential explorations (merged by hash).
void visit_state(std::uint64_t h);
void count_transition(std::uint64_t n = 1);

struct check {
    std::string property;
    std::string statement_note;
    std::function<void()> setup;  // before forking (load configuration)
    std::vector<scenario> scenarios;
    std::vector<chunked> sequences;
    // which monitor kinds this check reports besides plain fail()
    std::vector<std::string> kinds;
    std::vector<std::string> assumptions;
    std::string rule;
};
// Entry point used by every check program.
int main_(int argc, char** argv, check& c);
bool thorough();

std::uint64_t hash_bytes(const void* p, std::size_t n, std::uint64_t h = 0xcbf29ce484222325ULL);
inline std::uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }
inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
    std::uint64_t x = a * 0x9E3779B97F4A7C15ULL ^ (b + 0x7F4A7C15ULL + (a << 6) + (a >> 2));
    x ^= x >> 32; x *= 0xD6E8FEB86659FD93ULL; x ^= x >> 29;
    return x;
}

} // namespace mc
#endif
