// C02: binary protocol commands and their quiet variants.
#include "ref.hpp"
using namespace ref;
int main(int argc, char** argv) {
    mc::check c; c.property = "C02";
    c.rule = "all binary command sequences of the listed alphabets and depths, from one or two connections, executed on the real server; every response (status, opcode, opaque, value, key, flags, CAS) and a final read compared with a reference model";
    string cfg = base_config(2, 509);
    auto cur = [](cmd x) { return cas(CAS_CURRENT, x); }; auto bog = [](cmd x) { return cas(CAS_BOGUS, x); }; auto old = [](cmd x) { return cas(CAS_OLD, x); };
    std::vector<cmd> loud = {
        B('s', "a", "7", 5), B('s', "a", "xy", 0xffffffffu), cur(B('s', "a", "8")), bog(B('s', "a", "9")), old(B('s', "a", "10")),
        B('a', "a", "11", 2), bog(B('a', "a", "11")), B('r', "a", "12", 3), cur(B('r', "a", "13")), old(B('r', "a", "13")),
        B('A', "a", "1"), cur(B('A', "a", "2")), bog(B('A', "a", "3")), B('P', "a", "4"), cur(B('P', "a", "5")), bog(B('P', "a", "6")),
        num('+', "a", 3, true), num('+', "a", ~0ULL, true, 44, 0), cas(CAS_CURRENT, num('+', "a", 1, true)), bog(num('+', "a", 1, true)),
        num('-', "a", 9, true), num('-', "a", 1, true, 55, 100), cur(num('-', "a", 1, true)), bog(num('-', "a", 1, true)),
        B('d', "a"), cur(B('d', "a")), bog(B('d', "a")), old(B('d', "a")),
        B('g', "a", "", 0, -1), withk(B('g', "a", "", 0, -1)), B('T', "a", "", 0, 100), withk(B('T', "a", "", 0, 0)), B('t', "a", "", 0, 50),
        B('l', "a"), B('u', "a"), B('U', ""), B('L', "a", "", 0, -1), withk(B('L', "a", "", 0, 60)), B('R', "a", "14", 4), cur(B('R', "a", "15")), bog(B('R', "a", "16")), B('n', ""),
    };
    std::vector<cmd> all = loud;
    for( auto x: loud ) if( x.kind != 'n' && x.kind != 't' ) all.push_back(quiet(x));
    auto other = [](const std::vector<cmd>& v) { std::vector<cmd> r; for( auto x: v ) r.push_back(on(1, x)); return r; };
    {
        space s; s.name = "one-key"; s.cfg = cfg; s.depth = 3; s.keys = {"a"}; s.binfinal = true;
        s.alphabet = loud;
        c.sequences.push_back(explore(s));
        s.alphabet = all;
        if( mc::thorough() ) { s.name = "one-key-quiet"; c.sequences.push_back(explore(s)); s.alphabet = loud; s.depth = 4; s.name = "one-key-deep"; c.sequences.push_back(explore(s)); }
        else { s.name = "one-key-quiet"; c.sequences.push_back(explore(s)); }
    }
    {
        // every command of a second connection around a lock
        space s; s.name = "locked-by-other"; s.cfg = cfg; s.depth = 2; s.keys = {"a"}; s.binfinal = true;
        s.pre = {B('s', "a", "33", 9), B('l', "a")};
        s.alphabet = all; for( auto& x: other(all) ) s.alphabet.push_back(x);
        c.sequences.push_back(explore(s));
        if( mc::thorough() ) { s.depth = 3; s.name = "locked-by-other-deep"; s.alphabet = loud; for( auto& x: other(loud) ) s.alphabet.push_back(x); c.sequences.push_back(explore(s)); }
    }
    {
        // pipelined quiet commands on two keys in one chain
        space s; s.name = "two-keys"; s.cfg = base_config(2, 1); s.depth = 4; s.keys = {"a", "b"}; s.binfinal = true;
        s.alphabet = {quiet(B('s', "a", "1", 1)), quiet(B('s', "b", "2", 2)), quiet(B('g', "a", "", 0, -1)), withk(quiet(B('g', "b", "", 0, -1))), quiet(B('d', "a")), quiet(B('a', "b", "5")), quiet(B('A', "a", "6")), quiet(num('+', "b", 3, true, 7, 0)),
            B('n', ""), quiet(B('l', "a")), quiet(B('L', "b", "", 0, -1)), quiet(B('U', "")), on(1, quiet(B('s', "a", "z"))), on(1, B('l', "b"))};
        if( mc::thorough() ) s.depth = 5;
        c.sequences.push_back(explore(s));
    }
    {
        // operand values
        space s; s.name = "numbers"; s.cfg = cfg; s.depth = 2; s.keys = {"a"}; s.binfinal = true;
        for( string v: {"0", "1", "10", "99", "4294967295", "9223372036854775808", "18446744073709551615", "18446744073709551616", "x", "1x"} ) s.alphabet.push_back(B('s', "a", v, 3));
        for( u64 d: {u64(0), u64(1), u64(255), u64(256), u64(1) << 32, u64(1) << 63, ~u64(0)} ) for( u64 i: {u64(0), u64(1) << 31, u64(1) << 63, ~u64(0)} ) for( long e: {-1L, 0L, 100L} ) { s.alphabet.push_back(num('+', "a", d, true, i, e)); s.alphabet.push_back(num('-', "a", d, true, i, e)); }
        c.sequences.push_back(explore(s));
    }
    for( string k: {"#249", "#250"} ) {
        // every command with a key around the longest one allowed
        space s; s.name = "long-key" + k; s.cfg = cfg; s.depth = 2; s.keys = {k == "#249" ? "#249" : "#250"}; s.binfinal = true;
        s.alphabet = all; for( auto& x: s.alphabet ) if( x.kind != 'U' && x.kind != 'n' ) x.key = k;
        c.sequences.push_back(explore(s));
    }
    for( int p = 0; p < 2; ++p ) {
        // the object has expired and was not collected: as if it did not exist
        space s; s.name = p ? "expired-while-locked" : "expired"; s.cfg = base_config(2, 509, "gc_interval = 100000\n"); s.depth = 2; s.keys = {"a"}; s.binfinal = true;
        s.pre = {B('s', "a", "33", 9, 3), p ? B('l', "a") : B('g', "a", "", 0, -1), wait_ms(5000)};
        s.alphabet = all; if( p ) for( auto& x: other(loud) ) s.alphabet.push_back(x);
        c.sequences.push_back(explore(s));
    }
    return mc::main_(argc, argv, c);
}
