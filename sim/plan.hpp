#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "gen.hpp"
#include "ref.hpp"
#include "world.hpp"

namespace sim {
using json = nlohmann::json;

// One step of the schedule: some bytes arriving (or, for MPX, one segment of the signal), possibly
// with an alternative (b2) used by the second run of two-run properties.
struct Item {
  std::string b, b2;
  int64_t dt{};  // clock change before these bytes arrive, ns (may be negative)
  int tag{};
};

// A complete description of one simulated execution (or pair of executions). A replay file is the
// JSON form of this.
struct Plan {
  std::string prop;
  uint64_t seed{};
  std::string kind;  // which oracle of the property
  std::vector<std::string> argv, argv2;
  std::string tz{"UTC"}, tz2{"UTC"};
  int64_t t0{1700000000ll * 1000000000ll};
  std::string deliver{"whole"}, deliver2{"whole"};
  uint64_t dseed{}, dseed2{};
  std::vector<Item> items;
  std::map<std::string, std::string> files;
  FileFault ff;
  std::map<std::string, int64_t> n;  // numeric parameters
  int64_t num(const char* k, int64_t d = 0) const {
    auto i = n.find(k);
    return i == n.end() ? d : i->second;
  }
};
json to_json(const Plan&);
Plan plan_from_json(const json&);
std::string esc(const std::string&);
std::string unesc(const std::string&);

struct Stats {
  std::map<std::string, uint64_t> c;      // counters
  std::set<uint64_t> states;
  double sim_s{};
  uint64_t execs{};
  bool nontrivial{};
  uint64_t hash{1469598103934665603ull};  // over everything observed
};

struct Verdict {
  bool bad{};
  std::string cls, msg;
};
inline Verdict ok() {
  return {};
}
inline Verdict bad(const std::string& cls, const std::string& msg) {
  return {true, cls, msg};
}

std::string input_of(const Plan& p, bool second = false);
// chunk schedule for an input made of the plan's items
std::vector<Chunk> chunks_of(const Plan& p, const std::string& input, bool second, const std::string& mode, uint64_t seed);
Exec exec_of(const Plan& p, const std::string& input, bool second = false);
Result run(Exec& e, const Plan& p, Stats& st);

std::vector<std::string> lines_of(const std::string& s, bool* complete = nullptr);
std::string clip(const std::string& s, size_t n = 300);

struct Prop {
  const char* id;
  Plan (*make)(uint64_t seed);
  Verdict (*check)(const Plan&, Stats&);
};
const std::vector<Prop>& props();
const Prop* find_prop(const std::string& id);

std::string scratch_dir();  // per-process scratch directory for files of a plan
void put_files(const Plan& p, const std::string& dir);

}  // namespace sim
