#pragma once
#include <string>
#include <vector>
namespace tmpwatch {
extern std::vector<std::string> names;   // created since last reset
extern int fail_at, calls;               // mkstemp call number that fails, -1 none
std::string left();                      // a recorded file that still exists (and removes them all), or ""
}
