// Simulated TCP: a listening socket, its connections and the clients at their other end.
#pragma once
#include "sim.h"
#include <stdint.h>
#include <memory>
namespace simnet {
struct Conn {
    int id; std::string in, out;                                  // bytes not yet read by the server / by the client
    size_t window = 65536;                                        // of the client and the buffers on the way
    bool finIn = false, rstIn = false, rstSeen = false;           // what the client did: shutdown of its sending side, reset
    bool gone = false; bool accepted = false, srvClosed = false, srvShut = false, rstOut = false; uint64_t read = 0, written = 0, lost = 0; int64_t closedAt = 0;
    // of the client
    bool eof() const { return (srvClosed || srvShut) && out.empty(); }
};
struct Sock { bool listening = false, bound = false, nonblock = false; int port = 0; unsigned backlog = 0; std::shared_ptr<Conn> c; int64_t rcvto = 0, sndto = 0; };
extern std::map<int, Sock> fds; extern std::vector<std::shared_ptr<Conn>> waiting; extern uint32_t fault_den, eintr_den, short_den; extern uint64_t failed; extern int accepted_total;
extern std::function<void(const char *)> on_kill;
std::shared_ptr<Conn> connect(int port);                          // null: nobody listens or the backlog is full
void client_send(Conn &c, const std::string &s); std::string client_read(Conn &c, size_t max); void client_shutdown(Conn &c); void client_close(Conn &c); void client_reset(Conn &c);
int conn_fds();                                                   // descriptors of connections that are open
void clear();
}
