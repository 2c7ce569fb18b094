// Running one of the repository's code generators in a child process, compiling what it
// wrote and loading it.
#pragma once
#include "onionh.hpp"
namespace gc {
// runs f in a child; its exit status (negative: died of a signal), what it printed in *out
int child(const std::function<int()> &f, std::string *out);
// compiles C sources to a shared object; "" or what the compiler said
std::string compile(const std::vector<std::string> &src, const std::string &so, const std::vector<std::string> &flags = {});
}
