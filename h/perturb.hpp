#pragma once
#include <atomic>
#include <stdint.h>
namespace perturb {
extern std::atomic<int> level;          // 0 none, 1 some, 2 many pauses
extern std::atomic<unsigned> seed;
void point();
void opened(int fd);            // a descriptor the harness was given: all before its last close came before
}
