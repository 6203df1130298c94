// The ways in which a connection can end.
#ifndef ENDS_HPP
#define ENDS_HPP
#include "../mc/harness.hpp"
#include <cerrno>
namespace h {
const int N_ENDS = 10;
inline const char* end_name(int w) { static const char* n[] = {"text quit", "binary Quit", "binary QuitQ", "half-close", "close", "reset", "network timeout", "request then close", "request then reset", "half a request then reset"}; return n[w]; }
inline void end_connection(client& c, int w) {
    mc::note("c%d ends: %s", c.id, end_name(w));
    switch( w ) {
    case 0: c.send("quit\r\n"); break;
    case 1: c.send(bin(bQuit, "")); break;
    case 2: c.send(bin(bQuitQ, "")); break;
    case 3: c.shutdown(); break;
    case 4: c.close(); break;
    case 5: c.reset(); break;
    case 6: c.reset(ETIMEDOUT); break;
    case 7: c.send("get nosuchkey\r\nget nosuchkey\r\n"); c.close(); break;
    case 8: c.send("get nosuchkey\r\nget nosuchkey\r\n"); mc::yield(); c.reset(); break;
    case 9: c.send("set zz 0 0 10\r\nabc"); mc::yield(); c.reset(); break;
    }
}
// does the server drop the descriptor by itself after this ending?
inline bool end_closes(int w) { return w != 3 && w != 4; }
}
#endif
