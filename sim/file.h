// Simulated file system below /sim/: harness interface.
#ifndef VERIF_FILE_H
#define VERIF_FILE_H
#include "sim.h"
namespace sim { namespace fs {
void put(const std::string &path, const std::string &content);
std::string get(const std::string &path);         // what is on the disk now
void link(const std::string &from, const std::string &to);  // a second name
bool exists(const std::string &path);
void remove(const std::string &path);
std::vector<std::string> list();
void quota(int64_t bytes);                        // space left on the disk; <0: unlimited
int open_fds();                                   // descriptors of simulated files the process holds
int mappings();                                   // live mappings of simulated files
size_t mapped_bytes();
uint64_t failed();                                // system calls made to fail so far (EINTR excluded)
bool crashed();                                    // the process died at a system call; nothing it does since reaches the disk
void restart();                                   // ... a new process
int open(const std::string &path);                // a descriptor opened by the harness (no faults)
} }
#endif
