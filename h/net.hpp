// Small blocking HTTP client over real loopback sockets, and an address of this process's own.
#pragma once
#include "onionh.hpp"
namespace net {
std::string own_addr();                            // 127.x.y.z, different in every process where the system allows it
int free_port(const std::string &addr);            // a port nobody listens at now (never one in the ephemeral range)
int dial(const std::string &addr, int port, int timeout_ms = 10000, const std::string &from = "");       // connected socket, or -errno; from: the address it comes from
std::string own_end(int fd);                       // "address port" of this end of a connection
int listen_at(const std::string &addr, int port);  // a listening socket of the harness, or -1
bool send_all(int fd, const std::string &d);
struct Got { oh::Reply r; std::string raw; bool eof = false, timeout = false; };
// Reads one reply. rest keeps what follows it for the next call.
Got read_reply(int fd, std::string &rest, bool head, int timeout_ms = 20000);
bool wait_eof(int fd, int timeout_ms);             // true when the peer closed within the time
double now();
int threads();                                     // threads of this process
}
