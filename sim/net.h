// Simulated TCP/IPv4 and resolver: harness interface.
#ifndef VERIF_NET_H
#define VERIF_NET_H
#include "sim.h"
namespace sim { namespace net {
int open_fds();                         // descriptors the process holds now
int open_socks();                       // socket objects alive (incl. refs by blocked calls)
int addr_lists();                       // results of getaddrinfo not yet given back
uint64_t ebadf_uses();                  // socket calls on closed descriptors
void host(const std::string &name, const std::vector<std::string> &ips);   // resolver table
void unhost(const std::string &name);
uint64_t lookups(const std::string &name);    // resolver queries made for a name
void lookup_delay(int64_t ns);
void ip_up(const std::string &ip);      // reachable address (127.0.0.1 always is)
void buffer_limit(size_t bytes);        // socket buffer for new connections
void latency(bool random);              // random segment delays on/off
void fd_limit(int n);                   // open descriptors the process may have
void partition(bool on);                // no segment is delivered while on
// exempt the calling thread from I/O faults (it plays the outside world)
struct Outside { Outside(); ~Outside(); };
// raw helpers for outside peers (no library code involved)
int raw_listen(int port, int backlog = 128);   // fd
int raw_accept(int fd);                         // fd, -1 on error
int raw_connect(int port, const char *ip = "127.0.0.1");   // fd or -1
bool raw_send(int fd, const std::string &s);
std::string raw_recv(int fd, size_t max);       // up to max bytes; empty on EOF/error
std::string raw_recv_n(int fd, size_t n);       // exactly n, shorter on EOF/error
std::string raw_recv_all(int fd);               // until EOF/error
void raw_close(int fd);
void raw_reset(int fd);                         // close with RST
void raw_half_close(int fd);
uint64_t conns_established();
uint64_t resets();                              // resets that reached an endpoint so far
uint64_t lib_sent();                            // bytes the system accepted from / gave to the code under test
uint64_t lib_recvd();
void refuse(const std::string &ip, int err);    // connecting to this address fails
std::vector<std::string> tried();               // ip:port of the connection attempts of the code under test
} }
#endif
