// A stand-in for a Redis server, in a process of its own, that knows hashes and strings.
#pragma once
#include <string>
#include <vector>
namespace fakeredis {
int start();                                            // its port on 127.0.0.1; it ends with this process
void flush();
std::string ask(const std::vector<std::string> &args);  // the raw reply, by a connection of the harness
// DROP closes every other connection; FAIL n answers the next n commands of others with an error
}
