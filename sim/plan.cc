#include "plan.hpp"

#include <dirent.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cstdio>
#include <cstring>

namespace sim {

std::string esc(const std::string& s) {
  static const char* D = "0123456789abcdef";
  std::string o;
  for (unsigned char c : s) {
    if (c == '\\')
      o += "\\\\";
    else if (c == '\n')
      o += "\\n";
    else if (c < 0x20 || c >= 0x7F) {
      o += "\\x";
      o += D[c >> 4];
      o += D[c & 15];
    } else
      o += char(c);
  }
  return o;
}
std::string unesc(const std::string& s) {
  std::string o;
  auto h = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\\') {
      o += s[i];
    } else if (s[i + 1] == 'n') {
      o += '\n';
      i++;
    } else if (s[i + 1] == '\\') {
      o += '\\';
      i++;
    } else {
      o += char(h(s[i + 2]) << 4 | h(s[i + 3]));
      i += 3;
    }
  }
  return o;
}

json to_json(const Plan& p) {
  json j;
  j["prop"] = p.prop;
  j["seed"] = p.seed;
  j["kind"] = p.kind;
  j["argv"] = p.argv;
  j["argv2"] = p.argv2;
  j["tz"] = p.tz;
  j["tz2"] = p.tz2;
  j["t0"] = p.t0;
  j["deliver"] = p.deliver;
  j["deliver2"] = p.deliver2;
  j["dseed"] = p.dseed;
  j["dseed2"] = p.dseed2;
  j["items"] = json::array();
  for (auto& i : p.items) {
    json x = json::array({esc(i.b)});
    if (!i.b2.empty() || i.dt || i.tag) {
      x.push_back(i.dt);
      x.push_back(i.tag);
      x.push_back(esc(i.b2));
    }
    j["items"].push_back(x);
  }
  for (auto& f : p.files) j["files"][esc(f.first)] = esc(f.second);
  j["ff"] = {p.ff.max_read, p.ff.eio_after, p.ff.eintr_every};
  j["n"] = p.n;
  return j;
}

Plan plan_from_json(const json& j) {
  Plan p;
  p.prop = j.at("prop");
  p.seed = j.at("seed");
  p.kind = j.at("kind");
  p.argv = j.at("argv").get<std::vector<std::string>>();
  p.argv2 = j.at("argv2").get<std::vector<std::string>>();
  p.tz = j.at("tz");
  p.tz2 = j.at("tz2");
  p.t0 = j.at("t0");
  p.deliver = j.at("deliver");
  p.deliver2 = j.at("deliver2");
  p.dseed = j.at("dseed");
  p.dseed2 = j.at("dseed2");
  for (auto& x : j.at("items")) {
    Item i;
    i.b = unesc(x[0]);
    if (x.size() > 1) {
      i.dt = x[1];
      i.tag = x[2];
      i.b2 = unesc(x[3]);
    }
    p.items.push_back(i);
  }
  if (j.contains("files"))
    for (auto& f : j["files"].items()) p.files[unesc(f.key())] = unesc(f.value());
  p.ff.max_read = j["ff"][0];
  p.ff.eio_after = j["ff"][1];
  p.ff.eintr_every = j["ff"][2];
  p.n = j.at("n").get<std::map<std::string, int64_t>>();
  return p;
}

std::string input_of(const Plan& p, bool second) {
  std::string s;
  for (auto& i : p.items) s += second && !i.b2.empty() ? i.b2 : i.b;
  return s;
}

std::vector<Chunk> chunks_of(const Plan& p, const std::string& input, bool second, const std::string& mode, uint64_t seed) {
  std::vector<Chunk> c;
  gen::Rng r(seed);
  bool eintr = mode.find("+eintr") != std::string::npos;
  std::string m = mode.substr(0, mode.find('+'));
  // item boundaries with the clock from there on
  std::vector<std::pair<size_t, int64_t>> at;
  {
    size_t o = 0;
    int64_t t = p.t0;
    for (auto& i : p.items) {
      t += i.dt;
      size_t n = second && !i.b2.empty() ? i.b2.size() : i.b.size();
      if (at.empty() || i.dt || m == "item") at.push_back({o, t});
      o += n;
    }
    if (at.empty()) at.push_back({0, p.t0});
    if (o != input.size() && m == "item" && p.items.size()) {
      // the input is not the concatenation of the items (MPX): no item boundaries
      at.clear();
      at.push_back({0, p.t0});
    }
  }
  for (size_t k = 0; k < at.size(); k++) {
    size_t b = at[k].first, e = k + 1 < at.size() ? at[k + 1].first : input.size();
    if (b >= input.size()) break;
    e = std::min(e, input.size());
    while (b < e) {
      size_t n = e - b;
      if (m == "byte")
        n = 1;
      else if (m == "small")
        n = 1 + r.below(7);
      else if (m == "rand")
        n = r.p(0.2) ? 1 + r.below(3) : 1 + r.below(r.p(0.5) ? 200 : 6000);
      else if (m == "page")
        n = 4096;
      n = std::min(n, e - b);
      Chunk x{uint32_t(n), at[k].second, kNone};
      if (eintr && r.p(0.1)) x.fault = kEintr;
      c.push_back(x);
      b += n;
    }
  }
  return c;
}

Exec exec_of(const Plan& p, const std::string& input, bool second) {
  Exec e;
  e.argv = second ? p.argv2 : p.argv;
  e.input = input;
  const std::string& mode = second ? p.deliver2 : p.deliver;
  e.chunks = chunks_of(p, input, second, mode, second ? p.dseed2 : p.dseed);
  e.stdin_file = mode.find("+file") != std::string::npos;
  e.t0_ns = p.t0;
  e.tz = second ? p.tz2 : p.tz;
  e.file_fault = p.ff;
  e.perturb = int(p.seed % 255);  // fresh memory is never conveniently zero
  return e;
}

static std::string g_dir;
std::string scratch_dir() {
  if (g_dir.empty()) {
    const char* base = getenv("SIM_SCRATCH");
    std::string t = std::string(base ? base : "/tmp") + "/redsea-sim-XXXXXX";
    if (!mkdtemp(&t[0])) {
      perror("mkdtemp");
      exit(3);
    }
    g_dir = t;
    atexit([] {
      // remove our own scratch directory (two levels, regular files only)
      std::string d = g_dir;
      if (d.find("redsea-sim-") == std::string::npos) return;
      auto clear = [](const std::string& dir, auto&& self) -> void {
        if (DIR* D = opendir(dir.c_str())) {
          while (dirent* x = readdir(D)) {
            std::string n = x->d_name;
            if (n == "." || n == "..") continue;
            std::string q = dir + "/" + n;
            struct stat st;
            if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
              self(q, self);
            else
              unlink(q.c_str());
          }
          closedir(D);
        }
        rmdir(dir.c_str());
      };
      clear(d, clear);
    });
  }
  return g_dir;
}

void put_files(const Plan& p, const std::string& dir) {
  // start from an empty directory: remove what the previous plan left
  static std::set<std::string> left;
  for (auto& f : left) unlink((dir + "/" + f).c_str());
  left.clear();
  for (auto& f : p.files) {
    std::string path = dir + "/" + f.first;
    size_t s = f.first.find('/');
    if (s != std::string::npos) mkdir((dir + "/" + f.first.substr(0, s)).c_str(), 0700);
    FILE* o = fopen(path.c_str(), "w");
    if (!o) {
      perror("fopen");
      exit(3);
    }
    fwrite(f.second.data(), 1, f.second.size(), o);
    fclose(o);
    left.insert(f.first);
  }
}

Result run(Exec& e, const Plan& p, Stats& st) {
  std::string d = scratch_dir();
  static std::string have;
  std::string key = p.prop + "/" + std::to_string(p.seed) + "/" + std::to_string(p.files.size());
  (void)key;
  put_files(p, d);
  e.cwd = d;
  Result r = run_main(e);
  st.execs++;
  st.hash = st.hash * 1099511628211ull ^ hash_result(r);
  auto& c = st.c;
  c["reads"] += r.reads;
  if (r.shorts) c["short_read_or_write"] += r.shorts;
  if (r.eintrs) c["eintr"] += r.eintrs;
  if (r.eios) c["eio_stdin"] += r.eios;
  if (r.file_eios) c["eio_file"] += r.file_eios;
  if (r.file_shorts) c["short_file_read"] += r.file_shorts;
  if (r.file_eintrs) c["eintr_file"] += r.file_eintrs;
  if (r.write_faults) c["write_fault"] += r.write_faults;
  if (r.clock_back) c["clock_set_back"] += r.clock_back;
  if (r.kind == Result::kKilled) c["process_killed"]++;
  return r;
}

std::vector<std::string> lines_of(const std::string& s, bool* complete) {
  std::vector<std::string> r;
  size_t b = 0;
  while (b < s.size()) {
    size_t q = s.find('\n', b);
    if (q == std::string::npos) {
      r.push_back(s.substr(b));
      if (complete) *complete = false;
      return r;
    }
    r.push_back(s.substr(b, q - b));
    b = q + 1;
  }
  if (complete) *complete = true;
  return r;
}

std::string clip(const std::string& s, size_t n) {
  return s.size() <= n ? s : s.substr(0, n) + "...";
}

}  // namespace sim
