// Simulation driver: run a range of seeds for one property, minimise and record failures, replay.
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>

#include "common.hpp"

namespace sim {

extern const std::vector<Prop> kModelProps, kIoProps, kBitsProps, kMpxProps;
const std::vector<Prop>& props() {
  static const std::vector<Prop> all = [] {
    std::vector<Prop> v;
    for (auto* s : {&kModelProps, &kIoProps, &kBitsProps, &kMpxProps}) v.insert(v.end(), s->begin(), s->end());
    return v;
  }();
  return all;
}
const Prop* find_prop(const std::string& id) {
  for (auto& p : props())
    if (id == p.id) return &p;
  return nullptr;
}

static double now_s() {  // harness time only: batch budget and throughput report
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
}

static int g_out_fd = 200;
static void say(const std::string& s) {
  std::string t = s + "\n";
  size_t at = 0;
  while (at < t.size()) {
    ssize_t k = syscall(SYS_write, g_out_fd, t.data() + at, t.size() - at);
    if (k <= 0) return;
    at += size_t(k);
  }
}

// Smallest schedule that still fails in the same way
static Plan minimise(const Prop& prop, Plan p, const std::string& cls, double budget) {
  double end = now_s() + budget;
  auto fails = [&](const Plan& q) {
    Stats st;
    Verdict v = prop.check(q, st);
    return v.bad && v.cls == cls;
  };
  auto shrink_items = [&] {
    size_t n = 2;
    while (p.items.size() >= 2 && now_s() < end) {
      size_t len = (p.items.size() + n - 1) / n;
      bool some = false;
      for (size_t at = 0; at < p.items.size() && now_s() < end; at += len) {
        Plan q = p;
        q.items.erase(q.items.begin() + long(at), q.items.begin() + long(std::min(at + len, q.items.size())));
        if (!q.items.empty() && fails(q)) {
          p = q;
          some = true;
          n = n > 2 ? n - 1 : 2;
          break;
        }
      }
      if (!some) {
        if (len == 1) break;
        n = std::min(n * 2, p.items.size());
      }
    }
  };
  shrink_items();
  auto attempt = [&](auto f) {
    if (now_s() > end) return;
    Plan q = p;
    f(q);
    if (fails(q)) p = q;
  };
  for (const char* d : {"whole", "item"}) {
    if (p.deliver == d) break;
    std::string before = p.deliver;
    attempt([&](Plan& q) { q.deliver = d; });
    if (p.deliver != before) break;
  }
  attempt([](Plan& q) {
    for (auto& i : q.items) i.dt = 0;
  });
  for (const char* o : {"-p", "-R", "-E", "-u", "-s", "--no-fec"})
    attempt([&](Plan& q) {
      q.argv.erase(std::remove(q.argv.begin(), q.argv.end(), o), q.argv.end());
      q.argv2.erase(std::remove(q.argv2.begin(), q.argv2.end(), o), q.argv2.end());
    });
  if (!p.n.count("tzoff")) attempt([](Plan& q) { q.tz = "UTC"; });
  attempt([](Plan& q) { q.ff = FileFault(); });
  {
    auto files = p.files;
    for (auto& f : files) attempt([&](Plan& q) { q.files.erase(f.first); });
  }
  shrink_items();
  return p;
}

static int cmd_run(int argc, char** argv) {
  // run PROP seed worker workers count seconds outdir
  if (argc < 7) return 2;
  const Prop* prop = find_prop(argv[0]);
  if (!prop) {
    say("{\"error\":\"no such property\"}");
    return 2;
  }
  uint64_t seed = strtoull(argv[1], nullptr, 10);
  uint64_t worker = strtoull(argv[2], nullptr, 10), workers = strtoull(argv[3], nullptr, 10), count = strtoull(argv[4], nullptr, 10);
  double secs = atof(argv[5]);
  std::string dir = argv[6];
  double t0 = now_s();
  double stop_at = 0;  // a little after the first violation, unless some are known
  Stats total;
  uint64_t runs = 0, nontrivial = 0, gates = 0, unstable = 0;
  std::set<uint64_t> distinct;
  json samples = json::array();
  json found = json::array();
  std::set<std::string> classes;
  for (uint64_t k = worker; k < count; k += workers) {
    if (now_s() - t0 > secs) break;
    if (stop_at > 0 && now_s() > stop_at) break;
    uint64_t s = seed * 1000003ull + k;
    Plan p = prop->make(s);
    Stats st;
    Verdict v = prop->check(p, st);
    runs++;
    for (auto& x : p.n)
      if (x.first.compare(0, 6, "fault_") == 0) total.c[x.first] += uint64_t(x.second);
    for (auto& x : st.c) total.c[x.first] += x.second;
    total.states.insert(st.states.begin(), st.states.end());
    total.execs += st.execs;
    total.sim_s += st.sim_s;
    total.hash = total.hash * 1099511628211ull ^ st.hash;
    if (st.nontrivial && distinct.insert(st.hash).second) nontrivial++;
    if (k % 97 == 0 || v.bad) {  // determinism gate: the same plan again
      Stats st2;
      Verdict v2 = prop->check(prop->make(s), st2);
      gates++;
      if (st2.hash != st.hash || v2.bad != v.bad || v2.cls != v.cls) {
        // The simulator decides everything the program can see, so that a run that does not repeat
        // is the program depending on something it must not depend on (C14 names it).
        unstable++;
        if (!v.bad) v = v2;
        if (!v.bad && std::string(prop->id) == "C14")
          v = bad("unstable", "two runs with identical input, schedule, clock and memory contents differ");
      }
    }
    if (samples.size() < 2 && st.nontrivial) {
      json j;
      j["seed"] = s;
      j["kind"] = p.kind;
      j["argv"] = p.argv;
      j["deliver"] = p.deliver;
      j["items"] = p.items.size();
      json first = json::array();
      for (size_t i = 0; i < p.items.size() && i < 5; i++) first.push_back(clip(esc(p.items[i].b), 120));
      j["first_items"] = first;
      samples.push_back(j);
    }
    if (v.bad) {
      if (classes.size() >= 3 || !classes.insert(v.cls).second) continue;
      Plan m = minimise(*prop, p, v.cls, 20);
      Stats s2;
      Verdict mv = prop->check(m, s2);
      json j = to_json(m);
      j["violation_class"] = mv.cls;
      j["violation"] = mv.msg;
      j["hash"] = s2.hash;
      std::string path = dir + "/" + std::string(prop->id) + "-" + std::to_string(s) + ".json";
      std::ofstream(path) << j.dump(1, ' ', false, json::error_handler_t::replace) << "\n";
      json f;
      f["seed"] = s;
      f["class"] = mv.cls;
      f["msg"] = mv.msg;
      f["path"] = path;
      f["items"] = m.items.size();
      f["items_before"] = p.items.size();
      found.push_back(f);
      if (classes.size() >= 2) break;
      if (!getenv("SIM_GO_ON")) stop_at = now_s() + 3;
    }
  }
  json out;
  out["runs"] = runs;
  out["execs"] = total.execs;
  out["nontrivial"] = nontrivial;
  out["gates"] = gates;
  out["unstable"] = unstable;
  out["sim_s"] = total.sim_s;
  out["wall"] = now_s() - t0;
  out["counters"] = total.c;
  out["states"] = total.states.size();
  out["state_list"] = total.states;
  out["samples"] = samples;
  out["found"] = found;
  out["hash"] = total.hash;
  say(out.dump(-1, ' ', false, json::error_handler_t::replace));
  return 0;
}

static int cmd_replay(const char* file) {
  std::ifstream f(file);
  std::stringstream ss;
  ss << f.rdbuf();
  json j = json::parse(ss.str());
  Plan p = plan_from_json(j);
  const Prop* prop = find_prop(p.prop);
  if (!prop) return 2;
  Stats st;
  Verdict v = prop->check(p, st);
  json o;
  o["bad"] = v.bad;
  o["class"] = v.cls;
  o["msg"] = v.msg;
  o["hash"] = st.hash;
  say(o.dump(-1, ' ', false, json::error_handler_t::replace));
  return v.bad ? 1 : 0;
}

}  // namespace sim

int main(int argc, char** argv) {
  using namespace sim;
  if (argc < 2) return 2;
  // same addresses in every run, where the system lets us
  if (!getenv("SIM_NO_REEXEC") && personality(0xffffffff) != -1 && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE) &&
      personality(unsigned(personality(0xffffffff)) | ADDR_NO_RANDOMIZE) != -1) {
    setenv("SIM_NO_REEXEC", "1", 1);
    execv("/proc/self/exe", argv);
  }
  world_init();
  warm_up();
  std::string cmd = argv[1];
  if (cmd == "run") return cmd_run(argc - 2, argv + 2);
  if (cmd == "replay" && argc > 2) return cmd_replay(argv[2]);
  if (cmd == "input" && argc > 2) {  // the bytes a replay file puts on stdin
    std::ifstream f(argv[2]);
    std::stringstream ss;
    ss << f.rdbuf();
    std::string in = full_input(plan_from_json(json::parse(ss.str())));
    size_t at = 0;
    while (at < in.size()) {
      ssize_t k = syscall(SYS_write, g_out_fd, in.data() + at, in.size() - at);
      if (k <= 0) break;
      at += size_t(k);
    }
    return 0;
  }
  if (cmd == "show" && argc > 3) {
    const Prop* p = find_prop(argv[2]);
    if (!p) return 2;
    say(to_json(p->make(strtoull(argv[3], nullptr, 10))).dump(1, ' ', false, json::error_handler_t::replace));
    return 0;
  }
  if (cmd == "out" && argc > 2) {  // print what the program prints for a replay file
    std::ifstream f(argv[2]);
    std::stringstream ss;
    ss << f.rdbuf();
    Plan p = plan_from_json(json::parse(ss.str()));
    Stats st;
    Exec e = exec_of(p, full_input(p));
    Result r = run(e, p, st);
    say(r.what() + "\n" + r.out + "--- stderr\n" + r.err);
    return 0;
  }
  return 2;
}
