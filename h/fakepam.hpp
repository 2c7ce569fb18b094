#pragma once
#include <security/pam_appl.h>
#include <map>
#include <set>
#include <string>
#include <vector>
namespace fakepam {
struct Try { std::string service, user, password; };
struct State {
  std::map<std::string, std::string> users;
  std::set<std::string> locked;
  std::string service;
  bool fail_start = false, record = true;
  std::vector<Try> tries;
  int starts = 0, open = 0;
};
extern State st;
}
