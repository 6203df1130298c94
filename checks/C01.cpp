// C01: text protocol commands behave as documented after every history.
#include "ref.hpp"
using namespace ref;
int main(int argc, char** argv) {
    mc::check c; c.property = "C01";
    c.rule = "all text command sequences of the listed alphabets and depths, from one or two connections, executed on the real server and compared reply by reply (and by a final read) with a reference model; CAS identifiers checked for a one-to-one relation to object versions";
    string cfg = base_config(2, 509);
    u64 big = ~0ULL;
    {
        space s; s.name = "one-key"; s.cfg = cfg; s.depth = 3; s.keys = {"a"};
        auto& A = s.alphabet;
        for( string v: {"7", "xy"} ) { A.push_back(T('s', "a", v, 5)); }
        A.push_back(T('s', "a", "", 0xffffffffu));
        A.push_back(T('a', "a", "18446744073709551615")); A.push_back(T('r', "a", "0", 9)); A.push_back(T('A', "a", "3", 1)); A.push_back(T('P', "a", "2"));
        A.push_back(cas(CAS_CURRENT, T('c', "a", "11", 3))); A.push_back(cas(CAS_BOGUS, T('c', "a", "22")));  A.push_back(cas(CAS_OLD, T('c', "a", "33")));
        A.push_back(T('g', "a")); A.push_back(T('G', "a")); A.push_back(num('+', "a", 3)); A.push_back(num('-', "a", 8)); A.push_back(num('+', "a", big)); A.push_back(num('-', "a", big));
        A.push_back(T('d', "a")); A.push_back(T('t', "a", "", 0, 100)); A.push_back(T('l', "a")); A.push_back(T('u', "a")); A.push_back(T('U', ""));
        A.push_back(on(1, T('s', "a", "9"))); A.push_back(on(1, T('d', "a"))); A.push_back(on(1, T('l', "a"))); A.push_back(on(1, T('u', "a"))); A.push_back(on(1, num('+', "a", 1)));
        A.push_back(on(1, T('A', "a", "z"))); A.push_back(on(1, T('P', "a", "z"))); A.push_back(on(1, T('r', "a", "z"))); A.push_back(on(1, T('a', "a", "z"))); A.push_back(on(1, T('c', "a", "z"))); A.push_back(on(1, num('-', "a", 1)));
        A.push_back(quiet(T('s', "a", "q"))); A.push_back(quiet(T('a', "a", "4"))); A.push_back(quiet(T('r', "a", "5"))); A.push_back(quiet(T('A', "a", "6"))); A.push_back(quiet(T('P', "a", "1"))); A.push_back(quiet(T('c', "a", "8"))); A.push_back(quiet(cas(CAS_BOGUS, T('c', "a", "18"))));
        A.push_back(quiet(num('+', "a", 2))); A.push_back(quiet(num('-', "a", 2))); A.push_back(quiet(T('d', "a"))); A.push_back(quiet(T('t', "a", "", 0, 0)));
        c.sequences.push_back(explore(s));
        // noreply commands refused because of somebody else's lock
        s.name = "one-key-locked"; s.pre = {T('s', "a", "5", 1), T('l', "a")};
        for( auto& x: std::vector<cmd>(A) ) if( x.quiet ) A.push_back(on(1, x));
        c.sequences.push_back(explore(s));
        s.pre.clear();
        if( mc::thorough() ) { s.name = "one-key-deep"; s.depth = 4; c.sequences.push_back(explore(s)); }
    }
    {
        // two keys in one chain, multi-key reads, locks on both
        space s; s.name = "two-keys"; s.cfg = base_config(2, 1); s.depth = mc::thorough() ? 5 : 4; s.keys = {"a", "b"};
        auto& A = s.alphabet;
        auto two = [](cmd x, const string& k2) { x.key2 = k2; return x; };
        A = {T('s', "a", "1", 1), T('s', "b", "22", 2), T('d', "a"), T('d', "b"), two(T('g', "a"), "b"), two(T('G', "b"), "a"), two(T('g', "a"), "a"), T('A', "b", "7"), num('+', "a", 10),
             T('l', "a"), T('l', "b"), T('u', "a"), T('U', ""), on(1, T('s', "a", "Z")), on(1, T('l', "b")), on(1, T('U', ""))};
        c.sequences.push_back(explore(s));
    }
    {
        // numbers around the limits and non-numbers
        space s; s.name = "numbers"; s.cfg = cfg; s.depth = 2; s.keys = {"a"};
        std::vector<string> vals = {"0", "1", "9", "10", "99", "100", "00", "007", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
            "18446744073709551614", "18446744073709551615", "18446744073709551616", "99999999999999999999", "184467440737095516150", "x", "", "a1", "0x10", "1e3", "00000000000000000000000000000001", string(300, '9'), string(30, '0') + "5", string("\0", 1), "/", ":"};
        for( auto& v: vals ) s.alphabet.push_back(T('s', "a", v, 3));
        for( u64 d: {u64(0), u64(1), u64(9), u64(90), u64(4294967295ULL), u64(4294967296ULL), u64(1) << 63, ~u64(0) - 1, ~u64(0)} ) { s.alphabet.push_back(num('+', "a", d)); s.alphabet.push_back(num('-', "a", d)); s.alphabet.push_back(quiet(num('+', "a", d))); s.alphabet.push_back(quiet(num('-', "a", d))); }
        s.alphabet.push_back(T('A', "a", "1")); s.alphabet.push_back(T('P', "a", "9"));
        s.depth = 3;
        c.sequences.push_back(explore(s));
    }
    {
        // keys of every length class and bytes that need care
        space s; s.name = "keys-and-values"; s.cfg = cfg; s.depth = 2;
        std::vector<string> ks; for( int n: {1, 2, 15, 16, 31, 32, 33, 100, 230} ) ks.push_back(string(n, 'k'));
        ks.push_back("\x80\xff\xfe"); ks.push_back("noreply"); ks.push_back("0"); ks.push_back("get");
        std::vector<string> vs = {string("\r\n"), string("END\r\n"), string("\0\0\0", 3), string("\x80\x81"), string("VALUE x 0 1\r\n"), string(255, 'v'), string(256, 'w'), string(257, '\r'), string(1000, '\n'), string(2047, 'a'), string(2048, 'b'), string(2049, 'c')};
        for( auto& k: ks ) { s.alphabet.push_back(T('s', k, "v" + k.substr(0, 5), 77)); s.alphabet.push_back(T('g', k)); s.alphabet.push_back(T('d', k)); s.alphabet.push_back(T('A', k, "\r\n")); }
        for( auto& v: vs ) { s.alphabet.push_back(T('s', "k", v, 1u << 31)); s.alphabet.push_back(T('P', "k", v)); s.alphabet.push_back(T('A', "k", v)); s.alphabet.push_back(cas(CAS_CURRENT, T('c', "k", v))); }
        s.keys = {"k"};
        c.sequences.push_back(explore(s));
    }
    {
        // every command with keys around the longest one allowed
        space s; s.name = "long-keys"; s.cfg = cfg; s.depth = 2; s.keys = {"#250"};
        for( string k: {"#249", "#250"} ) {
            auto& A = s.alphabet;
            A.push_back(T('s', k, "7", 5)); A.push_back(T('a', k, "8")); A.push_back(T('r', k, "9")); A.push_back(T('A', k, "1")); A.push_back(T('P', k, "2")); A.push_back(T('c', k, "3")); A.push_back(num('+', k, 3)); A.push_back(num('-', k, 1));
            A.push_back(T('t', k, "", 0, 50)); A.push_back(T('d', k)); A.push_back(T('l', k)); A.push_back(T('u', k)); A.push_back(T('g', k)); A.push_back(T('G', k));
            A.push_back(quiet(T('s', k, "4"))); A.push_back(quiet(T('d', k))); A.push_back(on(1, T('s', k, "5")));
        }
        cmd m = T('g', "#250"); m.key2 = "#249"; s.alphabet.push_back(m);
        c.sequences.push_back(explore(s));
    }
    return mc::main_(argc, argv, c);
}
