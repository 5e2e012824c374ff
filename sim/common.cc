#include "common.hpp"

#include <cmath>

namespace sim {

void normalise(json& j) {
  for (const char* k : {"debug", "rx_time", "channel", "callsign", "callsign_uncertain"}) j.erase(k);
}

static bool same_at(const json& e, const json& a, const std::string& key) {
  if (e.is_string() && key == "description" && e == "*") return a.is_string();
  if (key == "num_names" && e == "*") return a.is_number();
  if ((key == "lat" || key == "lon") && e.is_number() && a.is_number())
    return std::fabs(e.get<double>() - a.get<double>()) < 3e-5;
  if (e.is_object()) {
    if (!a.is_object() || e.size() != a.size()) return false;
    for (auto& x : e.items()) {
      auto it = a.find(x.key());
      if (it == a.end() || !same_at(x.value(), *it, x.key())) return false;
    }
    return true;
  }
  if (e.is_array()) {
    if (!a.is_array() || e.size() != a.size()) return false;
    for (size_t i = 0; i < e.size(); i++)
      if (!same_at(e[i], a[i], key)) return false;
    return true;
  }
  return e == a;
}
bool same(const json& e, const json& a) {
  return same_at(e, a, "");
}

json project(const json& j, const std::vector<std::string>& paths) {
  json r = json::object();
  for (auto& p : paths) {
    if (p == "*") return j;
    const json* s = &j;
    json* d = &r;
    size_t b = 0;
    while (true) {
      size_t q = p.find('.', b);
      std::string k = p.substr(b, q == std::string::npos ? q : q - b);
      if (!s->is_object()) break;
      auto it = s->find(k);
      if (it == s->end()) break;
      if (q == std::string::npos) {
        (*d)[k] = *it;
        break;
      }
      // only create the intermediate object if something below exists
      {
        const json* t = &*it;
        size_t bb = q + 1;
        bool found = true;
        while (found) {
          size_t qq = p.find('.', bb);
          std::string kk = p.substr(bb, qq == std::string::npos ? qq : qq - bb);
          if (!t->is_object() || !t->contains(kk)) found = false;
          else t = &(*t)[kk];
          if (qq == std::string::npos) break;
          bb = qq + 1;
        }
        if (!found) break;
      }
      d = &(*d)[k];
      s = &*it;
      b = q + 1;
    }
  }
  return r;
}

void drop_path(json& j, const std::string& p) {
  size_t q = p.find('.');
  if (!j.is_object()) return;
  if (q == std::string::npos) {
    j.erase(p);
    return;
  }
  auto it = j.find(p.substr(0, q));
  if (it != j.end()) drop_path(*it, p.substr(q + 1));
}

std::vector<ref::Grp> groups_of(const ref::Opt& o, const std::string& input) {
  if (o.input == "hex") return ref::read_hex(input);
  if (o.input == "tef") return ref::read_tef(input);
  return ref::read_bits(input, o.fec);
}

ModelOut model_of(const Plan& p, const std::string& input, Stats& st, bool second) {
  ModelOut m;
  m.w = ref::make_world(second ? p.argv2 : p.argv, p.files);
  m.groups = groups_of(m.w.opt, input);
  m.lines = ref::run_groups(m.w, m.groups, &st.c);
  st.sim_s += double(m.groups.size()) * 104 / 1187.5;
  st.c["groups"] += m.groups.size();
  return m;
}

static uint64_t shape(const json& j, int depth = 0) {
  uint64_t h = 1099511628211ull;
  if (j.is_object())
    for (auto& x : j.items()) {
      h = h * 31 + fnv(x.key());
      if (depth < 2) h = h * 31 + shape(x.value(), depth + 1);
    }
  return h;
}

Verdict compare_model(const ModelOut& m, const std::string& text, const std::vector<std::string>& paths, Stats& st,
                      const std::vector<std::string>& drop) {
  bool complete = true;
  auto act = lines_of(text, &complete);
  if (!complete) return bad("format", "output ends in an incomplete line: " + clip(act.back()));
  size_t nb = m.w.banner.size();
  auto where = [&](size_t i) {
    std::string s = "line " + std::to_string(i + 1);
    if (i >= nb && i - nb < m.lines.size()) s += " (group " + std::to_string(m.lines[i - nb].grp) + ": " + m.groups[m.lines[i - nb].grp].hex() + ")";
    return s;
  };
  uint64_t prev = 0;
  size_t n = std::min(act.size(), m.lines.size() + nb);
  for (size_t i = 0; i < n; i++) {
    if (i >= nb && m.w.opt.hexout) {
      const std::string& e = m.lines[i - nb].hex;
      if (act[i] != e && act[i].substr(0, e.size() + 1) != e + " ")
        return bad("hex", where(i) + ": expected \"" + e + "\" got \"" + clip(act[i]) + "\"");
      uint64_t mask = 0;
      for (int k = 0; k < 4; k++) mask = mask * 2 + m.groups[m.lines[i - nb].grp].b[k].got;
      st.states.insert(fnv("hex") + mask * 131 + m.groups[m.lines[i - nb].grp].number() * 7 + prev * 1009);
      prev = mask;
      st.nontrivial = true;
      continue;
    }
    json a;
    try {
      a = json::parse(act[i]);
    } catch (std::exception& x) {
      return bad("json", where(i) + " is not valid JSON: " + clip(act[i]));
    }
    json e = i < nb ? m.w.banner[i] : m.lines[i - nb].j;
    normalise(a);
    normalise(e);
    for (auto& d : drop) {
      drop_path(a, d);
      drop_path(e, d);
    }
    if (i >= nb) {
      uint64_t h = shape(a);
      uint64_t mask = 0;
      const ref::Grp& g = m.groups[m.lines[i - nb].grp];
      for (int k = 0; k < 4; k++) mask = mask * 2 + g.b[k].got;
      st.states.insert(h * 31 + mask * 7 + prev);
      prev = h % 1000003;
    }
    json pe = project(e, paths), pa = project(a, paths);
    if (!pe.empty()) st.nontrivial = true;
    if (!same(pe, pa)) {
      // class: first differing key
      std::string key = "?";
      for (auto& x : pe.items())
        if (!pa.contains(x.key()) || !same(json{{x.key(), x.value()}}, json{{x.key(), pa[x.key()]}})) {
          key = x.key();
          break;
        }
      if (key == "?")
        for (auto& x : pa.items())
          if (!pe.contains(x.key())) {
            key = "+" + x.key();
            break;
          }
      return bad("field:" + key, where(i) + ": expected " + clip(pe.dump(), 600) + " got " + clip(pa.dump(-1, ' ', false, json::error_handler_t::replace), 600));
    }
  }
  if (act.size() != m.lines.size() + nb)
    return bad("lines", "expected " + std::to_string(m.lines.size() + nb) + " lines, got " + std::to_string(act.size()) +
                            (act.size() > n ? "; first extra line: " + clip(act[n]) : "; first missing: " + where(n)));
  return ok();
}

Verdict not_clean(const Result& r, const char* what) {
  return bad("exit", std::string(what) + ": " + r.what() + "; stderr: " + clip(r.err, 500));
}

Verdict check_model(const Plan& p, Stats& st, const std::vector<std::string>& paths) {
  std::string in = input_of(p);
  Exec e = exec_of(p, in);
  Result r = run(e, p, st);
  if (!r.clean()) return not_clean(r);
  ModelOut m = model_of(p, in, st);
  return compare_model(m, m.w.opt.feed ? r.err : r.out, paths, st);
}

Verdict diff_text(const std::string& cls, const std::string& a, const std::string& b, const std::string& na, const std::string& nb) {
  if (a == b) return ok();
  auto la = lines_of(a), lb = lines_of(b);
  size_t i = 0;
  while (i < la.size() && i < lb.size() && la[i] == lb[i]) i++;
  return bad(cls, "line " + std::to_string(i + 1) + " differs: " + na + ": " + (i < la.size() ? clip(la[i], 500) : "(none)") + " | " + nb +
                      ": " + (i < lb.size() ? clip(lb[i], 500) : "(none)"));
}

// ------------------------------------------------------------------
Plan base_plan(const char* id, uint64_t seed) {
  Plan p;
  p.prop = id;
  p.seed = seed;
  return p;
}

std::string pick_fmt(Rng& r, double hex, double tef) {
  double x = r.unit();
  return x < hex ? "hex" : x < hex + tef ? "tef" : "bits";
}

void add_groups(Plan& p, Rng& r, const std::vector<G>& gs, const std::string& fmt, double corr) {
  bool style = r.p(0.3);
  for (auto& g : gs) {
    Item i;
    if (fmt == "hex") {
      i.b = style ? gen::hex_line_style(g, r) : gen::hex_line(g);
    } else {
      if (g.stream) continue;
      if (fmt == "tef")
        i.b = gen::tef_lines(g, r);
      else
        i.b = gen::bits_faulty(g, r, corr);
    }
    i.tag = g.stream;
    p.items.push_back(i);
  }
}

void pick_delivery(Plan& p, Rng& r) {
  static const std::vector<std::string> modes = {"whole", "whole", "item", "rand", "page", "small"};
  p.deliver = r.pick(modes);
  p.dseed = r.next() >> 16;
  if (p.deliver == "item" && r.p(0.5))
    for (auto& i : p.items) i.dt = 87578947;
}

void pick_display_opts(Plan& p, Rng& r, double each) {
  for (const char* o : {"-p", "-R", "-E", "-u", "-s"})
    if (r.p(each) && (std::string(o) != "-s" || ref::parse_opts(p.argv).input == "hex")) p.argv.push_back(o);
}

void to_bits_noise(Rng& r, std::string& s, int n) {
  for (int i = 0; i < n; i++) s += char('0' + r.below(2));
}

void add_loc(Plan& p, Rng& r, int damage, int base) {
  std::map<std::string, uint64_t> st;
  int n = r.p(0.8) ? 1 : 2;
  for (int i = 0; i < n; i++) {
    std::string d = "loc" + std::to_string(i);
    auto f = gen::location_files(r, d, i == 0 ? 1 : r.range(1, 3), damage, st, base);
    p.files.insert(f.begin(), f.end());
    p.argv.push_back("-l");
    p.argv.push_back(d);
  }
  if (r.p(0.6)) p.files["service_key_table.csv"] = gen::key_file(r, damage > 1 ? r.range(0, 2) : 0);
  count_faults(p, st);
}

// ------------------------------------------------------------------ MPX
bool is_mpx(const Plan& p) {
  return p.n.count("rate") > 0;
}
void mpx_params(Plan& p, Rng& r, double rate, int channels) {
  p.n["rate"] = int64_t(rate);
  p.n["channels"] = channels;
  p.n["mseed"] = int64_t(r.next() >> 20);
  p.n["phase"] = r.range(0, 75000);
  p.n["bitphase"] = r.range(0, 999);
}
void add_mpx(Plan& p, Rng& r, const std::vector<G>& gs, int channel, bool streams) {
  (void)r;
  std::vector<std::string> wait[4];
  size_t at[4] = {};
  auto text = [](const G& g) {
    char b[64];
    snprintf(b, sizeof b, " %04X %04X %04X%s %04X", g.w[0], g.w[1], g.w[2], g.cp ? "'" : "", g.w[3]);
    return std::string(b);
  };
  if (streams)
    for (auto& g : gs)
      if (g.stream) wait[g.stream].push_back(text(g));
  for (auto& g : gs) {
    if (g.stream) continue;
    Item i;
    i.b = "G" + text(g);
    if (streams)
      for (int s = 1; s < 4; s++) {
        i.b += " /";
        if (at[s] < wait[s].size()) i.b += wait[s][at[s]++];
        else i.b += " -";
      }
    i.tag = channel;
    p.items.push_back(i);
  }
}
std::vector<mpx::Signal> mpx_signals(const Plan& p, bool second) {
  std::vector<mpx::Signal> r;
  int n = int(p.num("channels", 1));
  for (int c = 0; c < n; c++) {
    mpx::Spec sp;
    sp.rate = double(p.num("rate"));
    sp.seed = uint64_t(p.num("mseed")) * 64 + uint64_t(c);
    sp.phase = double(p.num("phase")) * 1e-3 + c;
    sp.bit_phase = double(p.num("bitphase")) * 1e-3;
    std::vector<std::string> it;
    for (auto& i : p.items)
      if (i.tag == c) {
        const std::string& s = second && !i.b2.empty() ? i.b2 : i.b;
        if (s != "_") it.push_back(s);
      }
    r.push_back(mpx::render(sp, it));
  }
  return r;
}
std::string mpx_bytes(const Plan& p, const std::vector<mpx::Signal>& sig) {
  size_t n = 0;
  for (auto& s : sig) n = std::max(n, s.s.size());
  if (p.n.count("frames")) n = size_t(p.num("frames"));
  std::vector<std::vector<int16_t>> ch;
  for (auto& s : sig) {
    ch.push_back(s.s);
    ch.back().resize(n);
  }
  std::string b = sig.size() == 1 ? mpx::bytes_of(ch[0]) : mpx::interleave(ch);
  if (p.num("trail") > 0) b += std::string(size_t(p.num("trail")), char(0x11));
  if (p.num("trail") < 0) b.resize(b.size() - std::min(b.size(), size_t(-p.num("trail"))));
  return b;
}
std::string full_input(const Plan& p, bool second) {
  return is_mpx(p) ? mpx_bytes(p, mpx_signals(p, second)) : input_of(p, second);
}
std::string hex_of(const mpx::Sent& s) {
  char b[64];
  snprintf(b, sizeof b, "%04X %04X %04X %04X", s.w[0], s.w[1], s.w[2], s.w[3]);
  return (s.stream ? "#S" + std::to_string(s.stream) + " " : std::string()) + b;
}

void count_faults(Plan& p, const std::map<std::string, uint64_t>& st) {
  for (auto& x : st) p.n["fault_" + x.first] += int64_t(x.second);
}

}  // namespace sim
