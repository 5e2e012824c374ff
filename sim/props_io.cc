// Properties about the program as a process: input delivery, output timing, end of input, clocks,
// options, echo, robustness. The input may be hex, TEF6686, bits or MPX.
#include <time.h>

#include <cmath>

#include <sndfile.h>

#include "common.hpp"

namespace sim {
using namespace gen;

namespace {

Mix everything() {
  Mix m;
  for (int s = 0; s < NSVC; s++) m.w[size_t(s)] = 1;
  m.w[PS_A] = 3;
  m.w[RT_A] = 3;
  m.w[ODA_ANN] = 2;
  m.w[RANDOM] = 0.4;
  m.charset = 1;
  return m;
}

std::string rate_arg(const Plan& p) {
  return std::to_string(p.num("rate"));
}

// A simulated session of any input format. Fills argv with the input options.
struct SessOpt {
  double hex{0.4}, tef{0.2}, bits{0.25};  // rest: MPX
  int min_groups{20}, max_groups{150};
  int mpx_min{12}, mpx_max{40};
  int level{3};      // fault level
  bool streams{};    // -s where allowed
  int channels{1};
  bool clean_mpx{};
};
std::string session(Plan& p, Rng& r, const SessOpt& o) {
  double x = r.unit();
  std::string fmt = x < o.hex ? "hex" : x < o.hex + o.tef ? "tef" : x < o.hex + o.tef + o.bits ? "bits" : "mpx";
  std::map<std::string, uint64_t> st;
  Mix m = everything();
  if (r.p(0.5))
    for (auto& w : m.w)
      if (r.p(0.6)) w = 0;
  m.w[PS_A] += 0.5;
  m.burst = r.range(1, 8);
  if (r.p(0.2)) m.stations = 2, m.retune = 0.03;
  if (fmt != "mpx") {
    m.groups = r.range(o.min_groups, o.max_groups);
    auto g = transmit(r, m);
    channel(r, g, random_faults(r, r.range(0, o.level)), st);
    p.argv = {"-i", fmt};
    if (fmt == "hex" && o.streams) p.argv.push_back("-s");
    if (fmt == "bits" && r.p(0.2)) {
      Item i;
      to_bits_noise(r, i.b, r.range(1, 200));
      p.items.push_back(i);
      st["noise"]++;
    }
    add_groups(p, r, g, fmt, r.p(0.5) ? 0.05 : 0);
    if (fmt == "bits" && r.p(0.3))
      for (auto& i : p.items)
        if (r.p(0.02) && i.b.size() > 3) {
          i.b.erase(r.below(uint32_t(i.b.size())), 1);
          st["bit_slip"]++;
        }
  } else {
    double rate = o.streams ? r.pick(std::vector<double>{171000, 192000, 250000})
                            : r.pick(std::vector<double>{171000, 171000, 128000, 192000, 228000, 240000});
    mpx_params(p, r, rate, o.channels);
    p.argv = {"-r", std::to_string(int(rate))};
    if (r.p(0.3)) p.argv.insert(p.argv.begin(), {"-i", "mpx"});
    if (o.streams) p.argv.push_back("-s");
    if (o.channels > 1) {
      p.argv.push_back("-c");
      p.argv.push_back(std::to_string(o.channels));
    }
    for (int c = 0; c < o.channels; c++) {
      m.groups = r.range(o.mpx_min, o.mpx_max);
      auto g = transmit(r, m);
      auto seg = [&](const char* f, double v) {
        char b[40];
        snprintf(b, sizeof b, f, v);
        Item i;
        i.b = b;
        i.tag = c;
        p.items.push_back(i);
      };
      seg("V %.4f", 0.01 + 0.1 * r.unit());
      size_t at = p.items.size();
      add_mpx(p, r, g, c, o.streams);
      if (!o.clean_mpx && o.level > 0) {
        if (r.p(0.5)) seg("S %.4f", 0.01 * r.unit());
        std::vector<Item> out(p.items.begin(), p.items.begin() + long(at));
        for (size_t i = at; i < p.items.size(); i++) {
          out.push_back(p.items[i]);
          if (r.p(0.05)) {
            Item d;
            d.tag = c;
            char b[40];
            snprintf(b, sizeof b, "%c %d", "ZQX"[r.below(3)], r.range(5, 600));
            d.b = b;
            out.push_back(d);
            st["signal_dropout"]++;
          }
          if (r.p(0.05)) {
            Item d;
            d.tag = c;
            char b[40];
            snprintf(b, sizeof b, "S %.4f", r.p(0.3) ? 0.2 * r.unit() : 0.02 * r.unit());
            d.b = b;
            out.push_back(d);
            st["noise_level_change"]++;
          }
        }
        p.items = out;
      }
      seg("Z %.0f", r.range(0, 60));
    }
    if (r.p(0.3)) p.n["trail"] = r.range(-3, 3);
  }
  count_faults(p, st);
  return fmt;
}

std::vector<std::string> hex_or_json(Rng& r) {
  if (r.p(0.3)) return {"-x"};
  return {};
}
void push(std::vector<std::string>& a, const std::vector<std::string>& b) {
  a.insert(a.end(), b.begin(), b.end());
}

bool hex_line_ok(const std::string& l) {
  size_t p = 0;
  if (l.size() > 4 && l[0] == '#') {
    if (l[1] != 'S' || l[2] < '1' || l[2] > '3' || l[3] != ' ') return false;
    p = 4;
  }
  for (int b = 0; b < 4; b++) {
    if (b) {
      if (p >= l.size() || l[p] != ' ') return false;
      p++;
    }
    if (p + 4 > l.size()) return false;
    std::string w = l.substr(p, 4);
    if (w != "----" && w.find_first_not_of("0123456789ABCDEF") != std::string::npos) return false;
    p += 4;
  }
  return p == l.size() || l[p] == ' ';
}

// every line whole and well-formed
Verdict lines_ok(const std::string& text, const ref::Opt& o, Stats& st, bool skip_warnings) {
  bool complete = true;
  auto ls = lines_of(text, &complete);
  if (!complete) return bad("line", "output does not end with a complete line: " + clip(ls.back()));
  for (auto& l : ls) {
    if (skip_warnings && (l.compare(0, 8, "warning:") == 0 || l.compare(0, 6, "error:") == 0)) continue;
    if (o.hexout && hex_line_ok(l)) {
      st.nontrivial = true;
      continue;
    }
    json j;
    try {
      j = json::parse(l);
    } catch (std::exception&) {
      return bad("line", "line is not valid JSON: " + esc(clip(l)));
    }
    if (!j.is_object()) return bad("line", "line is not a JSON object: " + esc(clip(l)));
    if (o.hexout && !j.contains("location_table_info")) return bad("line", "not a hex line: " + esc(clip(l)));
    st.nontrivial = true;
    uint64_t h = 7;
    for (auto& x : j.items()) h = h * 31 + fnv(x.key());
    st.states.insert(h);
  }
  return ok();
}

// ---------------------------------------------------------------- C01
std::string le(uint32_t v, int n) {
  std::string s;
  for (int i = 0; i < n; i++) s += char(v >> (8 * i) & 255);
  return s;
}
std::string wav(const std::string& data, int ch, int rate) {
  return "RIFF" + le(uint32_t(36 + data.size()), 4) + "WAVEfmt " + le(16, 4) + le(1, 2) + le(uint32_t(ch), 2) + le(uint32_t(rate), 4) +
         le(uint32_t(rate * ch * 2), 4) + le(uint32_t(ch * 2), 2) + le(16, 2) + "data" + le(uint32_t(data.size()), 4) + data;
}

// a world of one of the other properties, with more options and faults
Plan make_c01_world(uint64_t seed, Rng& r) {
  static const char* ids[] = {"C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C09", "C10", "C11",
                              "C12", "C13", "C18", "C20", "C24", "C24", "C26", "C27", "C28"};
  std::string id = ids[r.below(20)];
  Plan p = find_prop(id)->make(r.next());
  p.prop = "C01";
  p.seed = seed;
  p.kind = "world" + id;
  bool loc = has_arg(p.argv, "-l");
  if (!loc && r.p(0.3)) add_loc(p, r, r.range(0, 6));
  for (const char* a : {"-x", "-p", "-R", "-E", "-u", "-e"})
    if (!has_arg(p.argv, a) && r.p(0.12)) p.argv.push_back(a);
  if (r.p(0.2)) p.deliver += "+eintr";
  if (r.p(0.3)) {
    p.n["end"] = int64_t(r.below(1000001));
    p.n["endkind"] = r.below(2);
  }
  if (r.p(0.1)) p.n["perturb"] = r.below(256);
  return p;
}

Plan make_c01(uint64_t seed) {
  Rng r(seed);
  if (r.p(0.5)) return make_c01_world(seed, r);
  Plan p = base_plan("C01", seed);
  SessOpt o;
  o.hex = 0.4;
  o.tef = 0.15;
  o.bits = 0.2;
  o.max_groups = 200;
  o.mpx_max = 20;
  o.streams = r.p(0.3);
  o.channels = r.p(0.2) ? r.range(2, 5) : 1;
  std::string fmt = session(p, r, o);
  std::map<std::string, uint64_t> st;
  p.kind = fmt;
  if (fmt == "mpx") {
    if (r.p(0.4)) {  // as a sound file, maybe damaged
      p.kind = r.p(0.7) ? "wav" : "wavstdin";
      p.n["damage"] = r.p(0.6) ? r.range(0, 40) : 0;
      p.n["dseed"] = int64_t(r.next() >> 30);
      if (r.p(0.2)) p.n["wavch"] = r.pick(std::vector<int>{0, 2, 3, 7, 32, 64, 1025, 65535});
      if (r.p(0.2)) p.n["wavrate"] = r.pick(std::vector<int>{0, 1, 8000, 44100, 127999, 128000, 171000, 192000, 2000000, 39999999, 40000001, -1});
      for (size_t i = 0; i < p.argv.size();) {
        if (p.argv[i] == "-r" || p.argv[i] == "-i" || p.argv[i] == "-c")
          p.argv.erase(p.argv.begin() + long(i), p.argv.begin() + long(i) + 2);
        else
          i++;
      }
      p.argv.push_back("-f");
      p.argv.push_back(p.kind == "wav" ? "mpx.wav" : "-");
    } else if (r.p(0.2)) {
      p.kind = "mpxnoise";  // arbitrary bytes as samples
      for (auto& i : p.items) i.b = r.p(0.5) ? "X 300" : "Q 200";
    }
  } else {
    // bytes are damaged in transit
    double rate = r.pick(std::vector<double>{0, 0, 0.001, 0.01, 0.1});
    for (auto& i : p.items) {
      for (size_t k = 0; k < i.b.size(); k++)
        if (r.p(rate)) {
          st["byte_damaged"]++;
          switch (r.below(5)) {
            case 0: i.b[k] = char(r.below(256)); break;
            case 1: i.b.erase(k, 1 + r.below(5)); break;
            case 2: i.b.insert(k, 1 + r.below(5), char(r.below(256))); break;
            case 3: i.b[k] = "0123456789ABCDEF -#SPR\n\r\t"[r.below(25)]; break;
            default: i.b[k] = char(i.b[k] ^ 1 << r.below(8));
          }
        }
      if (r.p(0.002)) i.b += std::string(r.below(20000), "0A \n#"[r.below(5)]);
    }
  }
  if (r.p(0.3)) p.argv.push_back("-x");
  for (const char* a : {"-p", "-R", "-E", "-u"})
    if (r.p(0.3)) p.argv.push_back(a);
  if (r.p(0.2)) p.argv.push_back("--no-fec");
  if (r.p(0.2) && fmt == "hex" && !has_arg(p.argv, "-s")) p.argv.push_back("-s");
  if (r.p(0.2)) {
    p.argv.push_back("-t");
    p.argv.push_back(r.pick(std::vector<std::string>{"%c", "%Y-%m-%d %H:%M:%S.%f", "", "%", "%%f", "%f%f", std::string(200, 'x'), "%A %B %d %Y %H %M %S %Z %z %c %c",
                                                     "\"\\", "%s"}));
  }
  if (r.p(0.25) && p.kind != "wav" && p.kind != "wavstdin") p.argv.push_back("-e");
  if (r.p(0.25)) {
    add_loc(p, r, r.range(0, 6));
    if (r.p(0.3)) p.ff.max_read = 1 + r.below(30);
    if (r.p(0.2)) p.ff.eio_after = r.below(2000);
    if (r.p(0.2)) p.ff.eintr_every = 2 + r.below(6);
  }
  pick_delivery(p, r);
  if (r.p(0.3)) p.deliver += "+eintr";
  if (r.p(0.15)) p.deliver += "+file";
  p.tz = r.pick(std::vector<std::string>{"UTC", "EET-2EEST,M3.5.0/3,M10.5.0/4", ":/nonexistent", "<+14>-14"});
  if (r.p(0.4)) {
    p.n["end"] = int64_t(r.below(1000001));  // input ends here (millionths)
    p.n["endkind"] = r.below(2);             // end of file or read error
  }
  if (r.p(0.1)) p.n["perturb"] = r.below(256);
  if (r.p(0.05)) p.n["wfail"] = r.below(5000);
  count_faults(p, st);
  return p;
}

Verdict check_c01(const Plan& p, Stats& st) {
  std::string in = full_input(p);
  Plan q = p;
  bool isfile = p.kind == "wav" || p.kind == "wavstdin";
  if (isfile) {
    std::string w = wav(in, int(p.num("wavch", p.num("channels", 1))), int(p.num("wavrate", p.num("rate"))));
    Rng r{uint64_t(p.num("dseed"))};
    for (int i = 0; i < p.num("damage"); i++) {
      size_t k = r.p(0.7) ? r.below(64) : r.below(uint32_t(w.size()));
      if (r.p(0.8))
        w[k] = char(r.below(256));
      else
        w.erase(k, r.below(8));
    }
    if (p.n.count("end") && p.kind == "wav") w.resize(size_t(double(w.size()) * double(p.num("end")) / 1e6));
    if (p.kind == "wav") {
      q.files["mpx.wav"] = w;
      in.clear();
      q.items.clear();
    } else {
      in = w;
      q.items.clear();
    }
  }
  Exec e = exec_of(q, in);
  if (p.n.count("end") && p.kind != "wav") {
    size_t cut = size_t(double(in.size()) * double(p.num("end")) / 1e6);
    size_t acc = 0, k = 0;
    while (k < e.chunks.size() && acc + e.chunks[k].len <= cut) acc += e.chunks[k++].len;
    if (k < e.chunks.size()) {
      e.chunks[k].len = uint32_t(cut - acc);
      e.chunks.resize(k + 1);
    }
    if (p.num("endkind")) {
      Chunk c;
      c.fault = kEio;
      c.t_ns = e.chunks.empty() ? p.t0 : e.chunks.back().t_ns;
      e.chunks.push_back(c);
    }
  }
  if (p.n.count("perturb")) e.perturb = int(p.num("perturb"));
  if (p.n.count("wfail")) e.write_fail_after = p.num("wfail");
  e.need_log = false;
  // libsndfile skips a damaged chunk of up to 4 GB by reading 16 KB at a time
  if (p.kind == "wavstdin") e.max_asks_after_eof = 1000000;
  Result res = run(e, q, st);
  st.sim_s += is_mpx(p) ? double(in.size()) / 2 / double(p.num("rate")) : double(p.items.size()) * 0.0876;
  st.c["input_" + p.kind]++;
  bool refused = isfile && res.kind == Result::kExit && res.code == 1 && (res.err.find("error:") != std::string::npos || !res.out.empty());
  if (refused) {
    st.c["sound_file_refused"]++;
    return ok();
  }
  if (p.n.count("wfail")) {  // nobody is promised output then; it must still end in an orderly way
    if (res.kind != Result::kExit) return not_clean(res);
    return ok();
  }
  if (isfile && !res.clean() && res.kind == Result::kExit && res.code == 1) return ok();
  if (!res.clean()) {
    // "nothing to read at all" on raw MPX prints the usage and fails: a usage error, not a crash
    if (is_mpx(p) && res.kind == Result::kExit && res.code == 1 && res.out.find("radio_command | redsea") != std::string::npos) return ok();
    return not_clean(res);
  }
  if (res.overflow) return bad("overflow", "unbounded output");
  auto o = ref::parse_opts(p.argv);
  if (o.feed) return lines_ok(res.err, o, st, true);
  return lines_ok(res.out, o, st, false);
}

// ---------------------------------------------------------------- C14
Plan make_c14(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C14", seed);
  SessOpt o;
  o.streams = r.p(0.3);
  o.channels = r.p(0.15) ? 2 : 1;
  std::string fmt = session(p, r, o);
  p.kind = fmt;
  push(p.argv, hex_or_json(r));
  pick_display_opts(p, r, fmt == "mpx" ? 0 : 0.2);
  if (r.p(0.15)) p.argv.push_back("-e");
  if (r.p(0.2)) add_loc(p, r, r.range(0, 4));
  if (fmt != "mpx" && r.p(0.3))
    for (auto& i : p.items)
      if (r.p(0.05) && !i.b.empty()) i.b[r.below(uint32_t(i.b.size()))] = char(r.below(256));
  if (fmt != "mpx" && r.p(0.2) && !p.items.empty() && !p.items.back().b.empty()) p.items.back().b.pop_back();
  p.argv2 = p.argv;
  p.deliver = r.p(0.7) ? "whole" : "page";
  p.deliver2 = r.pick(std::vector<std::string>{"byte", "small", "rand", "rand", "page", "item", "whole"});
  if (fmt == "mpx" && p.deliver2 == "byte") p.deliver2 = "small";
  if (r.p(0.6)) p.deliver2 += "+eintr";
  if (r.p(0.3)) p.deliver2 += "+file";
  p.dseed2 = r.next() >> 16;
  p.tz2 = r.pick(std::vector<std::string>{"EET-2EEST,M3.5.0/3,M10.5.0/4", "PST8PDT,M3.2.0,M11.1.0", "<+14>-14", "<+0545>-5:45", ":/nonexistent", "UTC"});
  p.n["t2"] = int64_t(r.below(4000000000u));
  p.n["perturb1"] = r.p(0.5) ? 0 : -1;
  p.n["perturb2"] = 1 + r.below(255);
  if (r.p(0.5)) p.n["jitter"] = 1;
  return p;
}
Verdict check_c14(const Plan& p, Stats& st) {
  std::string in = full_input(p);
  Exec e1 = exec_of(p, in), e2 = exec_of(p, in, true);
  e1.perturb = int(p.num("perturb1", -1));
  e2.perturb = int(p.num("perturb2", -1));
  e2.env = {"LC_ALL=tr_TR.UTF-8", "LANG=de_DE", "POSIXLY_CORRECT=", "COLUMNS=20", "HOME=/nonexistent"};
  // another time, another clock speed, clock set back and forth between deliveries
  int64_t d = (p.num("t2") - p.t0 / 1000000000) * 1000000000;
  Rng r{p.dseed2 + 5};
  e2.t0_ns += d;
  for (auto& c : e2.chunks) {
    if (p.num("jitter")) d += int64_t(r.range(-2000000, 3000000)) * 1000;
    c.t_ns = std::max<int64_t>(0, c.t_ns + d);
  }
  e1.need_log = e2.need_log = false;
  Result r1 = run(e1, p, st), r2 = run(e2, p, st);
  st.sim_s += is_mpx(p) ? double(in.size()) / double(p.num("rate")) : double(p.items.size()) * 0.175;
  st.c["input_" + p.kind]++;
  st.nontrivial = !r1.out.empty() || !r1.err.empty();
  st.states.insert(fnv(p.kind + p.deliver + p.deliver2 + std::to_string(r1.out.size() / 256)));
  if (!r1.clean()) return not_clean(r1);
  if (!r2.clean()) return not_clean(r2);
  Verdict v = diff_text("stdout", r1.out, r2.out, "delivered " + p.deliver, "delivered " + p.deliver2);
  if (v.bad) return v;
  return diff_text("stderr", r1.err, r2.err, "delivered " + p.deliver, "delivered " + p.deliver2);
}

// ---------------------------------------------------------------- C15
Plan make_c15(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C15", seed);
  SessOpt o;
  o.hex = 0.35;
  o.tef = 0.2;
  o.bits = 0.25;
  o.max_groups = 80;
  o.streams = r.p(0.3);
  o.channels = r.p(0.2) ? 2 : 1;
  o.clean_mpx = r.p(0.5);
  std::string fmt = session(p, r, o);
  p.kind = fmt;
  if (fmt == "mpx" || r.p(0.3)) p.argv.push_back("-x");
  if (fmt != "mpx") pick_display_opts(p, r, 0.1);
  if (r.p(0.25)) p.argv.push_back("-e");
  p.deliver = r.pick(std::vector<std::string>{"item", "item", "small", "rand", "byte"});
  if (fmt == "mpx") p.deliver = r.pick(std::vector<std::string>{"rand", "page", "whole"});
  p.dseed = r.next() >> 16;
  if (fmt == "mpx") {
    p.n.erase("trail");
    p.n["cuts"] = int64_t(r.next() >> 30);
  }
  return p;
}

// without the lines the end of input adds: those of partly received groups (block 4 missing)
std::string without_partial(const std::string& out) {
  auto ls = lines_of(out);
  while (!ls.empty() && ls.back().size() >= 4 && ls.back().compare(ls.back().size() - 4, 4, "----") == 0) ls.pop_back();
  std::string s;
  for (auto& l : ls) s += l + "\n";
  return s;
}

Verdict check_c15(const Plan& p, Stats& st) {
  auto o = ref::parse_opts(p.argv);
  if (!is_mpx(p)) {
    std::string in = input_of(p);
    Exec e = exec_of(p, in);
    Result res = run(e, p, st);
    if (!res.clean()) return not_clean(res);
    ModelOut m = model_of(p, in, st);
    const std::string& text = o.feed ? res.err : res.out;
    // end of the k-th line
    std::vector<size_t> end{0};
    for (size_t i = 0; i < text.size(); i++)
      if (text[i] == '\n') end.push_back(i + 1);
    size_t nb = m.w.banner.size();
    size_t li = 0;  // lines due so far
    for (auto& ev : res.events) {
      while (li < m.lines.size() && m.groups[m.lines[li].grp].off <= ev.in_off && !m.groups[m.lines[li].grp].at_eof) li++;
      size_t due = nb + li;
      size_t have = o.feed ? ev.err_len : ev.out_len;
      if (due >= end.size()) return bad("lines", "a line is missing altogether");
      if (have < end[due])
        return bad("late", "the program waits for input after byte " + std::to_string(ev.in_off) + " but line " + std::to_string(due) +
                               " is not out yet: " + clip(lines_of(text)[due - 1]));
      bool boundary = false;
      for (size_t k = due; k < end.size() && end[k] <= have; k++) boundary |= end[k] == have;
      if (!boundary) return bad("torn", "part of a line is out while the program waits for input after byte " + std::to_string(ev.in_off));
      if (li) st.nontrivial = true;
      st.states.insert(ev.in_off % 4096 * 131 + due % 64);
    }
    return ok();
  }
  // MPX: what is out when the program asks for the samples after the k-th chunk is what a run
  // ending exactly there prints, except for the partial group added at the end of input.
  auto sig = mpx_signals(p);
  std::string in = mpx_bytes(p, sig);
  const size_t ch = size_t(o.channels), chunk = (8192 / ch) * ch * 2;
  in.resize(in.size() / chunk * chunk);
  if (in.size() < 2 * chunk) return ok();
  Exec e = exec_of(p, in);
  Result full = run(e, p, st);
  st.sim_s += double(in.size()) / double(2 * ch) / double(p.num("rate"));
  if (!full.clean()) return not_clean(full);
  const std::string& text = o.feed ? full.err : full.out;
  Rng r{uint64_t(p.num("cuts"))};
  size_t chunks = in.size() / chunk;
  for (int k = 0; k < 3; k++) {
    size_t c = k == 0 ? chunks : 1 + r.below(uint32_t(chunks));
    Plan q = p;
    q.items.clear();
    Exec e2 = exec_of(q, in.substr(0, c * chunk));
    e2.need_log = false;
    Result part = c == chunks ? full : run(e2, p, st);
    if (!part.clean()) return not_clean(part);
    std::string need = without_partial(o.feed ? part.err : part.out);
    for (auto& ev : full.events)
      if (ev.in_off == c * chunk) {
        size_t have = o.feed ? ev.err_len : ev.out_len;
        if (have < need.size() || text.compare(0, need.size(), need) != 0)
          return bad("late", "after " + std::to_string(c) + " chunks of samples " + std::to_string(have) + " bytes are out instead of " +
                                 std::to_string(need.size()));
        if (have && text[have - 1] != '\n') return bad("torn", "part of a line is out while the program waits for samples");
        if (!need.empty()) st.nontrivial = true;
        st.states.insert(c * 131 + need.size() % 997);
        break;
      }
  }
  // and no group takes longer than one chunk and the filters' delay
  if (p.items.size() && ch == 1) {
    auto ls = lines_of(text);
    std::map<std::string, int> count;
    for (auto& s : sig[0].sent) count[hex_of(s)]++;
    std::vector<size_t> end{0};
    for (size_t i = 0; i < text.size(); i++)
      if (text[i] == '\n') end.push_back(i + 1);
    for (size_t i = 0; i < ls.size(); i++) {
      if (count[ls[i]] != 1) continue;
      for (auto& s : sig[0].sent)
        if (hex_of(s) == ls[i]) {
          size_t limit = size_t((s.t1 + 0.06) * double(p.num("rate"))) * 2 + chunk;
          for (auto& ev : full.events)
            if (ev.kind == 0 && ev.in_off > limit) {
              if ((o.feed ? ev.err_len : ev.out_len) < end[i + 1])
                return bad("late", "group " + ls[i] + " ended at " + std::to_string(s.t1) + " s but is not out after " +
                                       std::to_string(double(ev.in_off) / 2 / double(p.num("rate"))) + " s");
              break;
            }
          st.c["latency_checked"]++;
        }
    }
  }
  return ok();
}

// ---------------------------------------------------------------- C16
Plan make_c16(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C16", seed);
  SessOpt o;
  o.hex = 0.25;
  o.tef = 0.2;
  o.bits = 0.35;
  o.max_groups = 60;
  o.streams = r.p(0.5);
  o.clean_mpx = true;
  o.mpx_min = 14;
  o.mpx_max = 24;
  std::string fmt = session(p, r, o);
  p.kind = r.pick(std::vector<std::string>{"cut", "cut", "eio", "killread", "killwrite"});
  if (fmt == "mpx") {
    if (p.kind == "killwrite") p.kind = "cut";
    p.argv.push_back("-x");
    p.n.erase("trail");
  } else {
    if (r.p(0.4)) p.argv.push_back("-x");
    pick_display_opts(p, r, 0.15);
  }
  p.n["at"] = r.below(1000001);
  p.n["partial"] = r.below(200);
  p.deliver = r.pick(std::vector<std::string>{"item", "small", "rand", "byte", "whole"});
  if (fmt == "mpx") p.deliver = r.pick(std::vector<std::string>{"rand", "page", "whole"});
  p.dseed = r.next() >> 16;
  return p;
}
void cut_at(Exec& e, size_t cut, uint8_t fault) {
  size_t acc = 0, k = 0;
  while (k < e.chunks.size() && acc + e.chunks[k].len <= cut) acc += e.chunks[k++].len;
  if (k < e.chunks.size()) {
    e.chunks[k].len = uint32_t(cut - acc);
    e.chunks.resize(k + (cut > acc));
  }
  if (fault) {
    Chunk c;
    c.fault = fault;
    c.len = 1;
    c.t_ns = e.chunks.empty() ? e.t0_ns : e.chunks.back().t_ns;
    e.chunks.push_back(c);
  }
}
Verdict check_c16_mpx(const Plan& p, Stats& st) {
  auto sig = mpx_signals(p);
  std::string in = mpx_bytes(p, sig);
  if (in.size() < 1000) return ok();
  double rate = double(p.num("rate"));
  size_t cut = size_t(double(in.size()) * double(p.num("at")) / 1e6);
  Exec ef = exec_of(p, in);
  Result full = run(ef, p, st);
  if (!full.clean()) return not_clean(full);
  Exec e = exec_of(p, in);
  cut_at(e, cut, p.kind == "cut" ? kNone : p.kind == "eio" ? kEio : kKill);
  Result res = run(e, p, st);
  st.sim_s += double(in.size() + cut) / 2 / rate;
  st.nontrivial = true;
  st.c["input_mpx"]++;
  st.states.insert(fnv(p.kind) + cut % 16384 / 64);
  const size_t chunk = 16384;
  // lines that must be there: those out in the full run when it asks for what follows the last whole chunk
  size_t need = 0;
  for (auto& ev : full.events)
    if (ev.in_off <= cut / chunk * chunk) need = std::max<size_t>(need, ev.out_len);
  if (p.kind == "killread") {
    if (res.kind != Result::kKilled && !res.clean()) return not_clean(res);
    if (res.kind == Result::kKilled && full.out.compare(0, res.out.size(), res.out) != 0)
      return bad("prefix", "output at the kill is not a prefix of the uninterrupted output");
    if (res.out.size() < need) return bad("lost", "lines of complete groups are missing when killed");
    return ok();
  }
  if (!res.clean()) {
    if (cut == 0 && res.kind == Result::kExit) return ok();
    return not_clean(res);
  }
  if (res.out.compare(0, need, full.out, 0, need) != 0) return bad("prefix", "lines of complete groups are missing or different");
  // per stream: complete groups are a prefix of the stream's lines, then at most one partial group
  auto fl = lines_of(full.out), rl = lines_of(res.out);
  double t_cut = double(cut / 2) / rate;
  for (int s = 0; s < 4; s++) {
    auto of = [&](const std::vector<std::string>& v) {
      std::vector<std::string> o;
      for (auto& l : v)
        if ((l.size() > 4 && l[0] == '#' ? l[2] - '0' : 0) == s) o.push_back(s ? l.substr(4) : l);
      return o;
    };
    auto F = of(fl), R = of(rl);
    size_t i = 0;
    while (i < R.size() && i < F.size() && R[i] == F[i]) i++;
    if (i + 1 < R.size()) return bad("prefix", "stream " + std::to_string(s) + ": more than one line differs from the uninterrupted output; first: " + R[i]);
    if (i < R.size()) {
      // the partial group: its received blocks are those of the group being received
      if (i >= F.size()) return bad("extra", "stream " + std::to_string(s) + ": line the uninterrupted run does not have: " + R[i]);
      // (a data stream with pauses can have junk blocks from noise there)
      size_t on0 = 0, on_s = 0;
      for (auto& g : sig[0].sent) on0 += g.stream == 0, on_s += g.stream == s;
      for (size_t b = 0; b < 4 && on0 == on_s; b++) {
        std::string x = R[i].substr(5 * b, 4), y = F[i].substr(5 * b, 4);
        if (x != "----" && x != y) return bad("partial", "partial group " + R[i] + " is not part of " + F[i]);
      }
      st.c["partial_group"]++;
    }
    // blocks sent well before the end must be there, once locked
    for (auto& g : sig[0].sent) {
      if (g.stream != s || !(g.t0 < t_cut) || g.t1 < t_cut - 0.02) continue;
      double per = 26.0 / 1187.5;
      std::string want = hex_of(g);
      if (s) want = want.substr(4);
      // only judge a group the uninterrupted run received completely
      bool received = false;
      size_t idx = 0;
      for (size_t k = 0; k < F.size(); k++)
        if (F[k] == want) received = true, idx = k;
      int times = 0;
      for (auto& h : sig[0].sent) times += h.stream == s && hex_of(h) == hex_of(g);
      if (!received || idx < 4 || times != 1) continue;  // a repeated group cannot be told apart
      int blocks = 0;
      while (blocks < 4 && g.t0 + per * (blocks + 1) + 0.02 <= t_cut) blocks++;
      if (blocks == 0) continue;
      std::string w2 = want.substr(0, size_t(5 * blocks - 1));
      bool found = false;
      for (auto& l : R) found |= l.compare(0, w2.size(), w2) == 0;
      if (!found) return bad("partial", "stream " + std::to_string(s) + ": the first " + std::to_string(blocks) + " blocks of " + want + " arrived but are not printed");
      st.c["partial_due"]++;
    }
  }
  return ok();
}
Verdict check_c16(const Plan& p, Stats& st) {
  if (is_mpx(p)) return check_c16_mpx(p, st);
  std::string in = input_of(p);
  Exec ef = exec_of(p, in);
  Result full = run(ef, p, st);
  if (!full.clean()) return not_clean(full);
  ModelOut mf = model_of(p, in, st);
  std::vector<size_t> end{0};
  for (size_t i = 0; i < full.out.size(); i++)
    if (full.out[i] == '\n') end.push_back(i + 1);
  size_t cut = size_t(double(in.size()) * double(p.num("at")) / 1e6);
  size_t due = 0;
  for (auto& l : mf.lines)
    if (mf.groups[l.grp].off <= cut && !mf.groups[l.grp].at_eof) due++;
  if (due >= end.size()) return bad("lines", "the uninterrupted run lacks lines");
  Exec e = exec_of(p, in);
  if (p.kind == "killwrite") {
    e.kill_at_write = int64_t(double(full.writes) * double(p.num("at")) / 1e6);
    e.kill_partial = uint32_t(p.num("partial"));
    Result res = run(e, p, st);
    if (res.kind != Result::kKilled && !res.clean()) return not_clean(res);
    st.nontrivial = res.kind == Result::kKilled;
    if (full.out.compare(0, res.out.size(), res.out) != 0) return bad("prefix", "output at the kill is not a prefix of the uninterrupted output");
    // everything complete before the last request for input is there
    size_t off = 0;
    for (auto& ev : res.events) off = ev.in_off;
    (void)off;
    size_t d = 0;
    if (!res.events.empty()) {
      size_t seen = res.events.size() >= 1 ? res.events.back().in_off : 0;
      // in_off at the last request: everything before it has been processed
      for (auto& l : mf.lines)
        if (mf.groups[l.grp].off <= seen && !mf.groups[l.grp].at_eof) d++;
    }
    if (res.out.size() < end[d]) return bad("lost", "lines of complete groups are missing when killed while writing");
    return ok();
  }
  cut_at(e, cut, p.kind == "cut" ? kNone : p.kind == "eio" ? kEio : kKill);
  Result res = run(e, p, st);
  st.nontrivial = due > 0;
  st.states.insert(fnv(p.kind + p.argv[1]) + cut % 1040);
  if (p.kind == "killread") {
    if (res.kind != Result::kKilled) return bad("kill", "did not read up to the kill point: " + res.what());
    if (full.out.compare(0, res.out.size(), res.out) != 0) return bad("prefix", "output at the kill is not a prefix of the uninterrupted output");
    if (res.out.size() < end[due]) return bad("lost", std::to_string(due) + " lines were due, some are missing when killed");
    return ok();
  }
  if (!res.clean()) return not_clean(res);
  if (res.out.compare(0, end[due], full.out, 0, end[due]) != 0)
    return bad("prefix", "the lines of groups completed before the end differ from the uninterrupted run");
  ModelOut mt = model_of(p, in.substr(0, cut), st);
  return compare_model(mt, res.out, {"*"}, st);
}

// ---------------------------------------------------------------- C17
const char* kTsFmt = "%Y-%m-%d %H:%M:%S.%f";
// other formats; the expected text comes from the C library, given the broken-down time
const std::vector<std::string> kTsFormats = {
    kTsFmt, "%u", "%w", "x", "%H", "%T", "%F %T.%f", "%f", "%S.%f s", "%d.%m.%Y klo %H:%M:%S,%f", "%A, %d. %B %Y %H:%M:%S.%f", "%j/%y %I:%M:%S %p",
    "\"%H\\%M\"", "%c", "%e %b %k:%R", "100%% %H:%M", "\u00e4\u00e4 %R", "%f%H.", "%z %D", "--------- %Y-%m-%d --------- %H:%M:%S.%f --------- %a --", "%f/100 past %X on %x",
    "The group was received on %A, the %e of %B in the year %Y, at %H hours, %M minutes and %S.%f seconds (%z)",
    std::string(180, '-') + "%T" + std::string(900, '.'),
};
std::string ts_text(const std::string& fmt, int64_t hund, int off_s) {
  std::string f = fmt;
  size_t at = f.find("%f");
  int64_t sec = hund / 100;
  if (at != std::string::npos) {
    char b[8];
    snprintf(b, sizeof b, "%02d", int(hund % 100));
    f.replace(at, 2, b);
  }
  time_t lt = time_t(sec + off_s);
  struct tm t {};
  gmtime_r(&lt, &t);
  t.tm_gmtoff = off_s;
  char out[4000];
  out[strftime(out, sizeof out, f.c_str(), &t)] = 0;
  return out;
}
// hundredths since the epoch in local time with a fixed offset
int64_t parse_ts(const std::string& s, int off_s) {
  struct tm t {};
  int hund;
  if (sscanf(s.c_str(), "%d-%d-%d %d:%d:%d.%2d", &t.tm_year, &t.tm_mon, &t.tm_mday, &t.tm_hour, &t.tm_min, &t.tm_sec, &hund) != 7) return -1;
  if (s.size() != 22) return -1;
  t.tm_year -= 1900;
  t.tm_mon--;
  return (int64_t(timegm(&t)) - off_s) * 100 + hund;
}
Plan make_c17(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C17", seed);
  SessOpt o;
  o.hex = 0.25;
  o.tef = 0.2;
  o.bits = 0.25;
  o.max_groups = 80;
  o.level = 1;
  o.streams = r.p(0.3);
  o.channels = r.p(0.25) ? 2 : 1;
  o.clean_mpx = true;
  std::string fmt = session(p, r, o);
  p.kind = fmt;
  if (r.p(0.4)) p.argv.push_back("-x");
  p.argv.push_back("-t");
  if (fmt != "mpx" && r.p(0.25)) p.n["fmt"] = 1 + r.below(uint32_t(kTsFormats.size() - 1));
  p.argv.push_back(kTsFormats[size_t(p.n.count("fmt") ? p.num("fmt") : 0)]);
  int z = int(r.below(4));
  p.tz = std::vector<std::string>{"UTC", "XXX-3", "YYY7:30", "<+1345>-13:45"}[size_t(z)];
  p.n["tzoff"] = std::vector<int>{0, 3 * 3600, -27000, 13 * 3600 + 45 * 60}[size_t(z)];
  p.t0 = (1000000000ll + int64_t(r.below(900000000u))) * 1000000000ll + int64_t(r.below(1000000000u));
  if (r.p(0.15)) p.t0 = p.t0 / 86400000000000ll * 86400000000000ll - 300000000ll;  // around midnight
  p.n["pace"] = r.below(4);  // 0 real time, 1 faster, 2 stalls, 3 clock steps
  if (fmt == "mpx") {
    p.n.erase("trail");
    p.deliver = r.pick(std::vector<std::string>{"rand", "page"});
    p.n["tseed"] = int64_t(r.next() >> 30);
  } else {
    p.deliver = r.pick(std::vector<std::string>{"item", "rand", "byte"});
    for (auto& i : p.items) {
      int64_t d = 87578947;
      switch (p.num("pace")) {
        case 1: d = r.range(0, 5) * 1000000; break;
        case 2: d = r.p(0.1) ? int64_t(r.range(1, 4000)) * 1000000000ll : 87578947; break;
        case 3: d = r.p(0.2) ? int64_t(r.range(-10000, 10000)) * 1000000ll : 87578947; break;
        default: d = int64_t(r.range(60, 120)) * 1000000 + r.range(0, 999999);
      }
      i.dt = d;
    }
    if (r.p(0.2)) {  // several groups in one delivery
      for (auto& i : p.items)
        if (r.p(0.5)) i.dt = 0;
    }
  }
  p.dseed = r.next() >> 16;
  return p;
}
Verdict check_c17(const Plan& p, Stats& st) {
  auto o = ref::parse_opts(p.argv);
  int tzoff = int(p.num("tzoff"));
  auto stamp_of = [&](const std::string& l, int* chan, bool* empty) -> std::string {
    *chan = 0;
    *empty = false;
    if (o.hexout) {
      size_t b = l[0] == '#' ? 24 : 20;
      return l.size() > b ? l.substr(b) : "";
    }
    json j = json::parse(l, nullptr, false);
    // (a line whose text cannot be represented as UTF-8 is printed without any field)
    if (j.is_object()) j.erase("debug");
    if (j.is_object() && j.empty()) *empty = true;
    if (!j.is_object() || !j.contains("rx_time") || !j["rx_time"].is_string()) return "";
    if (j.contains("channel") && j["channel"].is_number()) *chan = j["channel"];
    return j["rx_time"];
  };
  auto monotonic = [&](const std::string& text) -> Verdict {
    std::map<int, int64_t> last;
    for (auto& l : lines_of(text)) {
      int c;
      bool empty;
      std::string s = stamp_of(l, &c, &empty);
      if (empty) continue;
      int64_t t = parse_ts(s, tzoff);
      if (t < 0) return bad("format", "no timestamp in the requested format: " + clip(l));
      if (last.count(c) && t < last[c] && !(o.hexout && o.channels > 1))
        return bad("monotonic", "timestamp goes back: " + s + " in " + clip(l));
      last[c] = t;
    }
    return ok();
  };
  if (!is_mpx(p)) {
    std::string in = input_of(p);
    Exec e = exec_of(p, in);
    Result res = run(e, p, st);
    if (!res.clean()) return not_clean(res);
    bool std_fmt = !p.n.count("fmt");
    Verdict v = std_fmt ? monotonic(res.out) : ok();
    if (v.bad) return v;
    ModelOut m = model_of(p, in, st);
    auto ls = lines_of(res.out);
    if (ls.size() != m.lines.size()) return bad("lines", "expected " + std::to_string(m.lines.size()) + " lines, got " + std::to_string(ls.size()));
    // wall clock when each group's last byte was handed over; every group of the channel, printed or not
    int64_t mx = 0;
    std::vector<int64_t> tg;
    size_t ci = 0, acc = 0;
    for (auto& g : m.groups) {
      while (ci < e.chunks.size() && acc + e.chunks[ci].len < std::max<size_t>(g.off, 1)) acc += e.chunks[ci++].len;
      int64_t t = e.chunks.empty() ? p.t0 : e.chunks[std::min(ci, e.chunks.size() - 1)].t_ns;
      mx = std::max(mx, t);
      tg.push_back(mx);
    }
    for (size_t i = 0; i < ls.size(); i++) {
      int c;
      bool empty;
      std::string s = stamp_of(ls[i], &c, &empty);
      if (empty) continue;
      int64_t want = tg[m.lines[i].grp] / 10000000;
      st.nontrivial = true;
      if (!std_fmt) {
        const std::string& f = kTsFormats[size_t(p.num("fmt"))];
        std::string w = ts_text(f, want, tzoff);
        st.c["other_formats"]++;
        if (s != w) return bad("format", "line " + std::to_string(i + 1) + " is stamped '" + s + "', in the format '" + f + "' it would be '" + w + "'");
        continue;
      }
      int64_t t = parse_ts(s, tzoff);
      if (t != want)
        return bad("time", "line " + std::to_string(i + 1) + " is stamped " + s + ", which is " + std::to_string((t - want) * 10) +
                               " ms off the arrival of its last byte");
      st.nontrivial = true;
      st.states.insert(fnv(p.kind + p.deliver) + uint64_t(want % 100) + uint64_t(p.num("pace")) * 1000);
    }
    return ok();
  }
  auto sig = mpx_signals(p);
  std::string in = mpx_bytes(p, sig);
  double rate = double(p.num("rate"));
  const size_t ch = size_t(o.channels), chunk = (8192 / ch) * ch * 2;
  Exec e = exec_of(p, in);
  {
    Rng r{uint64_t(p.num("tseed"))};
    int64_t t = p.t0, skew = 0;
    size_t acc = 0;
    for (auto& c : e.chunks) {
      acc += c.len;
      double sigt = double(acc) / double(2 * ch) / rate;
      switch (p.num("pace")) {
        case 1: t = p.t0 + int64_t(sigt * 1e9 * 0.02); break;
        case 2:
          if (r.p(0.02)) skew += int64_t(r.range(100, 5000)) * 1000000;
          t = p.t0 + int64_t(sigt * 1e9) + skew;
          break;
        case 3:
          if (r.p(0.05)) skew += int64_t(r.range(-3000, 3000)) * 1000000;
          t = p.t0 + int64_t(sigt * 1e9) + skew;
          break;
        default: t = p.t0 + int64_t(sigt * 1e9);
      }
      c.t_ns = t;
    }
  }
  Result res = run(e, p, st);
  st.sim_s += double(in.size()) / double(2 * ch) / rate;
  if (!res.clean()) return not_clean(res);
  Verdict v = monotonic(res.out);
  if (v.bad) return v;
  st.c["input_mpx"]++;
  if (!o.hexout || ch > 1) {
    st.nontrivial = !res.out.empty();
    return ok();
  }
  // hex output, one channel: the group is known, so its stamp can be checked
  std::map<std::string, int> count;
  for (auto& s : sig[0].sent) count[hex_of(s)]++;
  int64_t mx = 0;
  for (auto& l : lines_of(res.out)) {
    size_t b = l[0] == '#' ? 24 : 20;
    std::string h = l.substr(0, b - 1);
    int64_t t = parse_ts(l.substr(b), tzoff);
    if (count[h] != 1) {
      mx = std::max(mx, t * 10000000);
      continue;
    }
    for (auto& s : sig[0].sent)
      if (hex_of(s) == h) {
        const double kDelay = 0.004;
        double te = s.t1 + kDelay;  // when its last bit leaves the demodulator
        size_t frames = size_t(te * rate);
        // near a chunk boundary either chunk is right
        int64_t lo = INT64_MAX, hi = INT64_MIN;
        for (int d = -1; d <= 1; d++) {
          double x = te + d * 0.006;
          if (x < 0) x = 0;
          size_t c = size_t(x * rate) * 2 / chunk;
          size_t cend = std::min((c + 1) * chunk, in.size());
          size_t acc = 0, k = 0;
          while (k + 1 < e.chunks.size() && acc + e.chunks[k].len < cend) acc += e.chunks[k++].len;
          int64_t tr = e.chunks[k].t_ns;
          double after = std::max(0.0, double(cend / 2) / rate - x);
          int64_t w = tr - int64_t(after * 1e9);
          lo = std::min(lo, w);
          hi = std::max(hi, w);
          // after the clock was set back, a group too damaged to be printed may have raised the floor
          for (size_t q = 0; q < k; q++)
            if (e.chunks[q].t_ns > tr) hi = std::max(hi, e.chunks[q].t_ns);
        }
        (void)frames;
        lo = std::max(lo - 15000000, mx - 10000000);
        hi = std::max(hi + 15000000, mx + 10000000);
        if (t * 10000000 < lo - 10000000 || t * 10000000 > hi)
          return bad("time", "group " + h + " is stamped " + l.substr(b) + ", expected between " + std::to_string(lo) + " and " + std::to_string(hi) + " ns, got " +
                                 std::to_string(t * 10000000));
        st.nontrivial = true;
        st.c["stamps_checked"]++;
      }
    mx = std::max(mx, t * 10000000);
  }
  return ok();
}

// ---------------------------------------------------------------- C19
Plan make_c19(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C19", seed);
  SessOpt o;
  o.hex = 0.3;
  o.tef = 0.15;
  o.bits = 0.4;
  o.level = r.range(0, 3);
  o.streams = r.p(0.4);
  session(p, r, o);
  p.kind = r.p(0.5) ? "again" : "json";
  for (const char* a : {"-p", "-R", "-u"})
    if (r.p(0.2)) p.argv.push_back(a);
  pick_delivery(p, r);
  return p;
}
Verdict check_c19(const Plan& p, Stats& st) {
  std::string in = full_input(p);
  Plan q = p;
  q.argv.push_back("-x");
  Exec e1 = exec_of(q, in);
  Result rec = run(e1, p, st);
  if (!rec.clean()) return not_clean(rec);
  st.sim_s += is_mpx(p) ? double(in.size()) / 2 / double(p.num("rate")) : double(p.items.size()) * 0.0876;
  auto o = ref::parse_opts(p.argv);
  for (auto& l : lines_of(rec.out))
    if (!hex_line_ok(l)) return bad("form", "not a hex line: " + clip(l));
  if (!is_mpx(p)) {
    // the record is exactly the non-empty groups received
    ModelOut m = model_of(q, in, st);
    Verdict v = compare_model(m, rec.out, {"*"}, st);
    if (v.bad) return v;
  }
  Plan b = p;
  b.items.clear();
  b.argv = {"-i", "hex"};
  for (auto& a : p.argv)
    if (a == "-p" || a == "-R" || a == "-u" || a == "-s") b.argv.push_back(a);
  if (p.kind == "again") {
    b.argv.push_back("-x");
    Exec e2 = exec_of(b, rec.out);
    Result again = run(e2, p, st);
    if (!again.clean()) return not_clean(again);
    st.nontrivial = !rec.out.empty();
    return diff_text("again", rec.out, again.out, "recorded", "recorded again");
  }
  // precondition: the record preserves type and PI of every group
  if (!is_mpx(p)) {
    auto g1 = groups_of(o, in);
    auto g2 = ref::read_hex(rec.out);
    if (g1.size() != g2.size()) return ok();  // empty groups
    for (size_t i = 0; i < g1.size(); i++)
      if (g1[i].has_type() != g2[i].has_type() || g1[i].has_pi() != g2[i].has_pi() || (g1[i].has_pi() && g1[i].pi() != g2[i].pi())) {
        st.c["record_not_equivalent"]++;
        return ok();
      }
  } else {
    // on MPX only when every recorded group is complete
    for (auto& l : lines_of(rec.out))
      if (l.find("----") != std::string::npos) return ok();
    // version B groups are only preserved if they carry the PI in block 3
    for (auto& g : ref::read_hex(rec.out))
      if (!g.stream && g.vb() && g.b[0].got && g.b[2].d != g.b[0].d) return ok();
  }
  Exec e3 = exec_of(p, in), e4 = exec_of(b, rec.out);
  Result direct = run(e3, p, st), via = run(e4, p, st);
  if (!direct.clean()) return not_clean(direct);
  if (!via.clean()) return not_clean(via);
  st.nontrivial = !direct.out.empty();
  st.c["json_compared"]++;
  return diff_text("json", direct.out, via.out, "direct", "from the hex record");
}

// ---------------------------------------------------------------- C23
Plan make_c23(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C23", seed);
  SessOpt o;
  o.streams = r.p(0.3);
  o.channels = r.p(0.2) ? 2 : 1;
  o.max_groups = 100;
  std::string fmt = session(p, r, o);
  p.kind = fmt;
  if (r.p(0.4)) p.argv.push_back("-x");
  if (fmt != "mpx") {
    pick_display_opts(p, r, 0.15);
    for (auto& i : p.items) {
      if (r.p(0.1)) i.b += r.pick(std::vector<std::string>{"\n", "# comment\n", "\r\n", "\x01\xff\n", "   \n", "0000000000000000000000000000\n"});
      if (r.p(0.02) && fmt == "bits") i.b += std::string(1, char(r.below(256)));
    }
    if (r.p(0.3) && !p.items.empty() && !p.items.back().b.empty()) p.items.back().b.pop_back();
    if (r.p(0.05)) p.items.clear();
  } else if (r.p(0.3)) {
    Item i;
    i.b = r.p(0.5) ? "X 150" : "Q 90";  // full scale and zero samples
    p.items.push_back(i);
  }
  p.argv2 = p.argv;
  p.argv2.push_back("-e");
  pick_delivery(p, r);
  p.deliver2 = r.pick(std::vector<std::string>{"whole", "rand", "small", "page"});
  p.dseed2 = r.next() >> 16;
  p.n["wmax"] = r.p(0.3) ? r.range(1, 5000) : 0;
  p.n["weintr"] = r.p(0.2) ? r.range(2, 9) : 0;
  if (r.p(0.2)) add_loc(p, r, 0);
  p.argv2 = p.argv;
  p.argv2.push_back("-e");
  return p;
}
Verdict check_c23(const Plan& p, Stats& st) {
  std::string in = full_input(p);
  Exec e1 = exec_of(p, in), e2 = exec_of(p, in, true);
  e1.need_log = e2.need_log = false;
  e2.write_max = uint32_t(p.num("wmax"));
  e2.write_eintr_every = uint32_t(p.num("weintr"));
  Result a = run(e1, p, st), b = run(e2, p, st);
  st.sim_s += is_mpx(p) ? double(in.size()) / double(p.num("rate")) : double(p.items.size()) * 0.175;
  st.c["input_" + p.kind]++;
  if (is_mpx(p) && in.empty()) return ok();
  if (!a.clean()) return not_clean(a);
  if (!b.clean()) return not_clean(b);
  st.nontrivial = !in.empty();
  st.states.insert(fnv(p.kind) + in.size() % 4096);
  Verdict v = diff_text("groups", a.out, b.err, "stdout without feed-through", "stderr with feed-through");
  if (v.bad) return v;
  if (is_mpx(p)) {
    size_t n = in.size() / 2;
    if (b.out.size() / 2 != n || b.out.size() % 2)
      return bad("echo", std::to_string(n) + " samples in, " + std::to_string(b.out.size()) + " bytes out");
    for (size_t i = 0; i < n; i++) {
      int x = int16_t(uint16_t(uint8_t(in[2 * i])) | uint16_t(uint8_t(in[2 * i + 1])) << 8);
      int y = int16_t(uint16_t(uint8_t(b.out[2 * i])) | uint16_t(uint8_t(b.out[2 * i + 1])) << 8);
      if (x - y > 1 || y - x > 1)
        return bad("echo", "sample " + std::to_string(i) + " is " + std::to_string(x) + ", echoed as " + std::to_string(y));
    }
    return ok();
  }
  std::string want = in;
  if (p.argv[1] != "bits" && !want.empty() && want.back() != '\n') want += '\n';
  if (b.out != want) {
    size_t i = 0;
    while (i < want.size() && i < b.out.size() && want[i] == b.out[i]) i++;
    return bad("echo", "echo differs from the input at byte " + std::to_string(i) + ": expected \"" + esc(want.substr(i, 40)) + "\" got \"" +
                           esc(b.out.substr(std::min(i, b.out.size()), 40)) + "\"");
  }
  return ok();
}

// ---------------------------------------------------------------- C25
Plan make_c25(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C25", seed);
  SessOpt o;
  o.hex = 0.55;
  o.tef = 0.1;
  o.bits = 0.25;
  o.max_groups = 250;
  o.mpx_max = 25;
  std::string fmt = session(p, r, o);
  p.kind = fmt;
  if (r.p(0.2)) add_loc(p, r, 0);
  // a set of options common to both runs and a different one added in the second
  std::vector<std::string> all = {"-p", "-R", "-E", "-t", "-u", "-s"};
  std::vector<std::string> base, extra;
  double pe = r.p(0.6) ? 0.2 : 0.6;
  for (auto& a : all) {
    if (a == "-s" && fmt != "hex" && !(fmt == "mpx" && p.num("rate") >= 171000)) continue;
    if (r.p(0.15)) base.push_back(a);
    else if (r.p(pe)) extra.push_back(a);
  }
  if (fmt == "mpx") base.clear();
  if (extra.empty()) {
    extra.push_back("-p");
    base.erase(std::remove(base.begin(), base.end(), "-p"), base.end());
  }
  auto put = [&](std::vector<std::string>& v, const std::string& a) {
    v.push_back(a);
    if (a == "-t") v.push_back("%Y-%m-%d %H:%M:%S.%f");
  };
  for (auto& a : base) put(p.argv, a);
  p.argv2 = p.argv;
  for (auto& a : extra) put(p.argv2, a);
  return p;
}
Verdict check_c25(const Plan& p, Stats& st) {
  std::string in = full_input(p);
  Exec e1 = exec_of(p, in), e2 = exec_of(p, in, true);
  e1.need_log = e2.need_log = false;
  Result a = run(e1, p, st), b = run(e2, p, st);
  st.sim_s += is_mpx(p) ? double(in.size()) / double(p.num("rate")) : double(p.items.size()) * 0.175;
  if (is_mpx(p) && in.empty()) return ok();
  if (!a.clean()) return not_clean(a);
  if (!b.clean()) return not_clean(b);
  auto oa = ref::parse_opts(p.argv), ob = ref::parse_opts(p.argv2);
  auto la = lines_of(a.out), lb = lines_of(b.out);
  if (is_mpx(p) && ob.streams && !oa.streams) {
    // data streams are additional lines here
    std::vector<std::string> k;
    for (auto& l : lb) {
      json j = json::parse(l, nullptr, false);
      if (j.is_object() && j.contains("stream") && j["stream"] != 0) {
        st.c["stream_lines"]++;
        continue;
      }
      k.push_back(l);
    }
    lb = k;
  }
  if (la.size() != lb.size())
    return bad("lines", std::to_string(la.size()) + " lines without the options, " + std::to_string(lb.size()) + " with");
  for (size_t i = 0; i < la.size(); i++) {
    json x = json::parse(la[i], nullptr, false), y = json::parse(lb[i], nullptr, false);
    if (!x.is_object() || !y.is_object()) return bad("json", "not a JSON object: " + clip(la[i]) + " / " + clip(lb[i]));
    bool blank_x = x.size() == 1 && x.contains("debug"), blank_y = y.size() == 1 && y.contains("debug");
    x.erase("debug");
    y.erase("debug");
    if (blank_x && blank_y) continue;
    if (blank_y && ob.partial && !oa.partial) continue;  // the partial text itself cannot be represented
    auto own = [&](json& j, const ref::Opt& o, const ref::Opt& other) {
      if (o.raw && !other.raw) {
        if (!j.empty() && !j.contains("raw_data") && !j.contains("location_table_info")) return false;
        j.erase("raw_data");
      }
      if (o.bler && !other.bler) {
        if (!j.empty() && !j.contains("bler") && !j.contains("location_table_info")) return false;
        j.erase("bler");
      }
      if (o.ts && !other.ts) {
        if (!j.empty() && !j.contains("rx_time") && !j.contains("location_table_info")) return false;
        j.erase("rx_time");
      }
      if (o.streams && !other.streams) j.erase("stream");
      if (o.partial && !other.partial)
        for (const char* k : {"partial_ps", "partial_radiotext", "rt_ab", "partial_alt_frequencies", "partial_long_ps"}) j.erase(k);
      return true;
    };
    if (!own(y, ob, oa)) return bad("own", "line " + std::to_string(i + 1) + " lacks a field the options ask for: " + clip(lb[i]));
    if (ob.rbds != oa.rbds)
      for (json* j : {&x, &y}) {
        j->erase("callsign");
        j->erase("callsign_uncertain");
        auto word = [](json& v) { v = v.is_string(); };
        if (j->contains("prog_type")) word((*j)["prog_type"]);
        if (j->contains("other_network") && (*j)["other_network"].is_object() && (*j)["other_network"].contains("prog_type"))
          word((*j)["other_network"]["prog_type"]);
      }
    if (x != y) {
      return bad("field", "line " + std::to_string(i + 1) + ": without " + clip(la[i], 400) + " with " + clip(lb[i], 400));
    }
    st.nontrivial = true;
    uint64_t h = fnv(p.kind);
    for (auto& k : y.items()) h = h * 31 + fnv(k.key());
    st.states.insert(h);
  }
  return ok();
}

// ---------------------------------------------------------------- C91
// Options are items with tag 9000 + place in the second command line; b holds the plain spelling of
// the option for the first command line, b2 another spelling (words separated by 0x1F).
std::vector<std::string> words(const std::string& s) {
  std::vector<std::string> v(1);
  for (char c : s)
    if (c == 0x1F)
      v.emplace_back();
    else
      v.back() += c;
  return v;
}
enum class Line { kAccept, kReject, kInfo, kQuiet };  // kQuiet: must not start, exit status not judged
Line judge_line(const std::vector<std::vector<std::string>>& opts) {
  std::string in = "mpx";
  bool feed = false, streams = false, info = false, quiet = false, extra = false;
  long channels = 1;
  double rate = 171000;
  for (auto& w : opts) {
    const std::string &o = w[0], a = w.size() > 1 ? w[1] : "";
    if (o == "-b") in = "bits";
    else if (o == "-h") in = "hex";
    else if (o == "-f") in = "snd";
    else if (o == "-i") {
      if (a != "hex" && a != "bits" && a != "tef" && a != "mpx") return Line::kReject;
      in = a;
    } else if (o == "-o") {
      if (a != "hex" && a != "json") return Line::kReject;
    } else if (o == "-e") feed = true;
    else if (o == "-s") streams = true;
    else if (o == "-c") {
      double v = std::strtod(a.c_str(), nullptr);
      if (!(v >= 1 && v <= 32)) return Line::kReject;
      channels = long(v);
    } else if (o == "-r") {
      double v = std::strtod(a.c_str(), nullptr);
      char z = a.size() > 1 ? a.back() : '0';
      if (z == 'k' || z == 'K') v *= 1e3;
      if (z == 'm' || z == 'M') v *= 1e6;
      if (!(v >= 128000 && v <= 40000000)) return Line::kReject;
      rate = v;
    } else if (o == "-v" || o == "--help") info = true;
    else if (o == "-Z" || o == "--nosuch" || (o == "-t" && w.size() < 2) || (o == "-l" && w.size() < 2)) quiet = true;
    else if (o[0] != '-' || o == "-") extra = true;
  }
  if (feed && in == "snd") return Line::kReject;
  if (channels > 1 && in != "mpx" && in != "snd") return Line::kReject;
  if (streams && (in == "bits" || in == "tef")) return Line::kReject;
  if (extra) return Line::kReject;
  if (streams && in == "mpx" && rate < 171000 && !quiet && !info) return Line::kReject;
  if (quiet) return Line::kQuiet;
  if (info) return Line::kInfo;
  return Line::kAccept;
}

Plan make_c91(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C91", seed);
  SessOpt so;
  so.hex = 0.5;
  so.tef = 0.17;
  so.bits = 0.3;
  so.min_groups = 4;
  so.max_groups = 40;
  so.mpx_min = 6;
  so.mpx_max = 10;
  so.channels = r.p(0.3) ? 2 : 1;
  std::string fmt = session(p, r, so);
  p.kind = fmt;
  std::vector<std::vector<std::string>> o;
  if (fmt != "mpx" || r.p(0.3)) o.push_back({"-i", fmt});
  if (fmt == "mpx") {
    o.push_back({"-r", std::to_string(p.num("rate"))});
    if (so.channels > 1) o.push_back({"-c", std::to_string(so.channels)});
  }
  p.argv.clear();
  for (const char* f : {"-p", "-R", "-E", "-u", "--no-fec"})
    if (r.p(0.2)) o.push_back({f});
  if (r.p(0.2)) o.push_back({"-e"});
  if (r.p(0.2) && (fmt == "hex" || (fmt == "mpx" && p.num("rate") >= 171000))) o.push_back({"-s"});
  if (r.p(0.2)) o.push_back({"-t", r.pick(std::vector<std::string>{"%c", "%Y-%m-%d %H:%M:%S.%f", "-", "", "x y"})});
  if (r.p(0.3)) o.push_back({"-o", r.p(0.5) ? "hex" : "json"});
  auto at = [&](std::vector<std::string> w) { o.insert(o.begin() + long(r.below(uint32_t(o.size() + 1))), w); };
  // options that are overridden later, or that have no effect but must be valid
  if (r.p(0.15) && fmt != "mpx") o.insert(o.begin(), {"-f", "nosuch.wav"});
  if (r.p(0.15)) o.insert(o.begin(), {"-i", r.pick(std::vector<std::string>{"hex", "bits", "tef", "mpx"})}), o.insert(o.begin() + 1 + long(r.below(uint32_t(o.size()))), {"-i", fmt});
  if (r.p(0.15) && fmt != "mpx") at({"-r", r.pick(std::vector<std::string>{"128000", "128k", "171k", "40M", "40000000", "2.5m", "192000.5", "1.71e5", "0.2M", "250K"})});
  if (r.p(0.15) && fmt != "mpx") at({"-c", "1"});
  if (r.p(0.1)) o.insert(o.begin(), {"-c", std::to_string(r.range(1, 32))}), o.push_back({"-c", std::to_string(fmt == "mpx" ? so.channels : 1)});
  // mistakes
  bool no_arg = false;
  if (r.p(0.5)) {
    int k = 1 + int(r.p(0.2));
    while (k--) switch (r.below(9)) {
        case 0: at({"-i", r.pick(std::vector<std::string>{"", "HEX", "hexx", "bit", "wav", "flac", "tef6686", "mpx ", "-", "json"})}); break;
        case 1: at({"-o", r.pick(std::vector<std::string>{"", "JSON", "hexx", "bits", "xml", "j"})}); break;
        case 2: at({"-c", r.pick(std::vector<std::string>{"0", "33", "64", "100", "-1", "-2", "abc", "", "4294967296", "4294967297", "4294967298", "8589934593", "18446744073709551616",
                                                          "18446744073709551617", "99999999999999999999", "65537", "256", "257", "1000000"})}); break;
        case 3: at({"-r", r.pick(std::vector<std::string>{"0", "1", "127999", "127.9k", "127999.9", "100k", "171", "k", "M", "", "abc", "-171000", "-171k", "40000100", "40.1M", "41M", "1e9", "1e39", "1e400", "1e-50",
                                                          "nan", "inf", "-inf", "-nan", "0.1M", "1000k0", "4294967296000", "96000", "48k"})}); break;
        case 4: at({r.pick(std::vector<std::string>{"-e", "-s", "-e", "-s"})}); break;
        case 5: at({"-c", std::to_string(r.range(2, 32))}); break;
        case 6: at({r.pick(std::vector<std::string>{"foo", "file.wav", "-", "hex", "171000"})}); break;
        case 7: at({r.pick(std::vector<std::string>{"-v", "--help", "-Z", "--nosuch"})}); break;
        default: r.p(0.6) ? at({"-f", "nosuch.wav"}) : void(no_arg = true); break;
      }
  }
  if (no_arg) o.push_back({r.p(0.5) ? "-t" : "-l"});  // its argument is missing
  // the second command line: another order (where order has no meaning) and other spellings
  static const std::map<std::string, std::string> cls = {{"-b", "i"}, {"-h", "i"}, {"-f", "i"}, {"-i", "i"}, {"-o", "o"}, {"-x", "o"}};
  std::vector<size_t> ord(o.size());
  for (size_t i = 0; i < ord.size(); i++) ord[i] = i;
  auto same_class = [&](size_t a, size_t b) {
    auto c = [&](size_t i) {
      auto it = cls.find(o[i][0]);
      return it == cls.end() ? o[i][0] : it->second;
    };
    return c(a) == c(b);
  };
  for (int k = 0; k < 40 && ord.size() > 1; k++) {
    size_t i = r.below(uint32_t(ord.size() - 1));
    if (no_arg && i + 2 == ord.size()) continue;
    if (!same_class(ord[i], ord[i + 1])) std::swap(ord[i], ord[i + 1]);
  }
  static const std::map<std::string, std::string> lng = {{"-b", "--input-bits"}, {"-c", "--channels"}, {"-e", "--feed-through"}, {"-E", "--bler"}, {"-f", "--file"},
      {"-h", "--input-hex"}, {"-i", "--input"}, {"-l", "--loctable"}, {"-o", "--output"}, {"-p", "--show-partial"}, {"-r", "--samplerate"}, {"-R", "--show-raw"},
      {"-t", "--timestamp"}, {"-u", "--rbds"}, {"-s", "--streams"}, {"-v", "--version"}, {"-x", "--output-hex"}};
  std::vector<size_t> place(o.size());
  for (size_t i = 0; i < ord.size(); i++) place[ord[i]] = i;
  std::vector<Item> head;
  for (size_t i = 0; i < o.size(); i++) {
    Item it;
    auto w = o[i];
    it.b = w.size() > 1 ? w[0] + "\x1F" + w[1] : w[0];
    std::string alt = it.b;
    auto l = lng.find(w[0]);
    if (w.size() == 2 && w[0] == "-i" && (w[1] == "hex" || w[1] == "bits") && r.p(0.4))
      alt = w[1] == "hex" ? (r.p(0.5) ? "-h" : "--input-hex") : (r.p(0.5) ? "-b" : "--input-bits");
    else if (w.size() == 2 && w[0] == "-o" && w[1] == "hex" && r.p(0.4))
      alt = r.p(0.5) ? "-x" : "--output-hex";
    else if (l != lng.end() && r.p(0.5))
      alt = w.size() == 1 ? l->second : l->second + (r.p(0.5) ? "=" : "\x1F") + w[1];
    else if (w.size() == 2 && !w[1].empty() && r.p(0.4))
      alt = w[0] + w[1];
    if (w[0] == "-r" && w.size() == 2 && r.p(0.3) && w[1].size() == 6 && w[1].substr(3) == "000") {
      size_t q = alt.rfind("000");
      if (q + 3 == alt.size()) alt = alt.substr(0, q) + (r.p(0.5) ? "k" : "K");
    }
    it.b2 = alt;
    it.tag = 9000 + int(place[i]) * 2 + int(r.p(0.5));  // odd: may be joined to the option before
    head.push_back(it);
  }
  p.items.insert(p.items.begin(), head.begin(), head.end());
  return p;
}
Verdict check_c91(const Plan& p, Stats& st) {
  Plan q = p;
  q.items.clear();
  std::vector<Item> opt;
  for (auto& i : p.items) (i.tag >= 9000 ? opt : q.items).push_back(i);
  std::vector<std::vector<std::string>> list;
  q.argv.clear();
  for (auto& i : opt) {
    list.push_back(words(i.b));
    for (auto& w : list.back()) q.argv.push_back(w);
  }
  std::stable_sort(opt.begin(), opt.end(), [](const Item& a, const Item& b) { return a.tag / 2 < b.tag / 2; });
  q.argv2.clear();
  bool cluster = false;
  for (auto& i : opt) {
    bool flag = i.b2.size() == 2 && i.b2[0] == '-' && std::strchr("beEhpRusx", i.b2[1]);
    bool joins = i.b2.size() > 1 && i.b2[0] == '-' && std::strchr("beEhpRusxciort", i.b2[1]);
    auto w = words(i.b2);
    if (cluster && joins && i.tag % 2) {
      q.argv2.back() += w[0].substr(1);
      w.erase(w.begin());
    }
    q.argv2.insert(q.argv2.end(), w.begin(), w.end());
    cluster = flag;
  }
  for (auto& i : opt)  // (an option without its argument takes what follows for it)
    if ((i.b == "-t" || i.b == "-l") && (&i != &opt.back() || list.back()[0] != i.b)) return ok();
  Line want = judge_line(list);
  std::string in = full_input(q);
  std::string shown;
  for (auto& a : q.argv) shown += " '" + a + "'";
  std::string shown2;
  for (auto& a : q.argv2) shown2 += " '" + a + "'";
  if (want == Line::kAccept) {
    // (bytes that cannot be decoded are no matter here, but something must be there to be read)
    if (in.empty()) return ok();
    for (auto& w : list)
      if (w[0] == "-f") {
        std::string last;
        for (auto& x : list)
          if (x[0] == "-f" || x[0] == "-i" || x[0] == "-b" || x[0] == "-h") last = x[0];
        if (last == "-f") return ok();  // the file does not exist: a failure of another kind
      }
  }
  st.sim_s += is_mpx(q) ? double(in.size()) / 2 / double(p.num("rate")) : double(q.items.size()) * 0.0876;
  Result res[2];
  for (int k = 0; k < 2; k++) {
    Exec e = exec_of(q, in, k == 1);
    res[k] = run(e, q, st);
    const Result& x = res[k];
    const std::string& cmd = k ? shown2 : shown;
    if (x.kind != Result::kExit) return bad("end", "redsea" + cmd + ": " + x.what());
    if (want == Line::kAccept) {
      if (x.code != 0) return bad("rejected", "redsea" + cmd + " is valid but failed: " + clip(x.err.empty() ? x.out : x.err));
      if (!x.reads) return bad("rejected", "redsea" + cmd + " is valid but the input was not read");
      st.c["accepted"]++;
      continue;
    }
    if (x.reads) return bad("accepted", "redsea" + cmd + " must not start, but read its input");
    if (want == Line::kReject) {
      if (x.code == 0) return bad("accepted", "redsea" + cmd + " must be rejected, but exited with 0");
      if (x.out.empty() && x.err.empty()) return bad("silent", "redsea" + cmd + " was rejected without a word");
      st.c["rejected"]++;
    }
    if (want == Line::kInfo) {
      if (x.code != 0) return bad("info", "redsea" + cmd + " exited with " + std::to_string(x.code));
      if (x.out.empty()) return bad("info", "redsea" + cmd + " printed nothing");
    }
  }
  st.nontrivial = true;
  uint64_t h = uint64_t(want);
  for (auto& w : list) h = h * 31 + fnv(w[0] + (want == Line::kReject && w.size() > 1 ? w[1] : ""));
  st.states.insert(h);
  if (res[0].code != res[1].code) return bad("same", "redsea" + shown + " exited with " + std::to_string(res[0].code) + ", redsea" + shown2 + " with " + std::to_string(res[1].code));
  if (want != Line::kAccept) return ok();
  Verdict v = diff_text("same", res[0].out, res[1].out, "redsea" + shown, "redsea" + shown2);
  if (!v.bad) v = diff_text("same", res[0].err, res[1].err, "redsea" + shown, "redsea" + shown2);
  return v;
}

// ---------------------------------------------------------------- C29
struct Mem {
  std::string s;
  sf_count_t at{};
};
std::string sound_file(const std::string& pcm, int ch, int rate, int format) {
  Mem m;
  SF_VIRTUAL_IO io{};
  io.get_filelen = [](void* u) { return sf_count_t(static_cast<Mem*>(u)->s.size()); };
  io.seek = [](sf_count_t o, int w, void* u) {
    auto* q = static_cast<Mem*>(u);
    q->at = w == SEEK_SET ? o : w == SEEK_CUR ? q->at + o : sf_count_t(q->s.size()) + o;
    return q->at;
  };
  io.read = [](void* b, sf_count_t n, void* u) {
    auto* q = static_cast<Mem*>(u);
    sf_count_t k = std::max<sf_count_t>(0, std::min<sf_count_t>(n, sf_count_t(q->s.size()) - q->at));
    memcpy(b, q->s.data() + q->at, size_t(k));
    q->at += k;
    return k;
  };
  io.write = [](const void* b, sf_count_t n, void* u) {
    auto* q = static_cast<Mem*>(u);
    if (q->s.size() < size_t(q->at + n)) q->s.resize(size_t(q->at + n));
    memcpy(&q->s[size_t(q->at)], b, size_t(n));
    q->at += n;
    return n;
  };
  io.tell = [](void* u) { return static_cast<Mem*>(u)->at; };
  SF_INFO fi{};
  fi.channels = ch;
  fi.samplerate = rate;
  fi.format = format;
  SNDFILE* f = sf_open_virtual(&io, SFM_WRITE, &fi, &m);
  if (!f) return "";
  const short* d = reinterpret_cast<const short*>(pcm.data());
  size_t n = pcm.size() / 2 / size_t(ch) * size_t(ch);
  int sub = format & SF_FORMAT_SUBMASK;
  if (sub == SF_FORMAT_FLOAT || sub == SF_FORMAT_DOUBLE) {
    std::vector<float> v(d, d + n);
    for (auto& x : v) x /= 32768.f;
    sf_write_float(f, v.data(), sf_count_t(n));
  } else {
    sf_write_short(f, d, sf_count_t(n));
  }
  sf_close(f);
  return m.s;
}
const std::vector<int> kSoundFormats = {
    SF_FORMAT_WAV | SF_FORMAT_PCM_16, SF_FORMAT_WAV | SF_FORMAT_PCM_24, SF_FORMAT_WAV | SF_FORMAT_PCM_32, SF_FORMAT_WAV | SF_FORMAT_FLOAT,
    SF_FORMAT_WAV | SF_FORMAT_DOUBLE, SF_FORMAT_WAVEX | SF_FORMAT_PCM_16, SF_FORMAT_WAV | SF_FORMAT_PCM_16 | SF_ENDIAN_BIG, SF_FORMAT_AIFF | SF_FORMAT_PCM_16,
    SF_FORMAT_AIFF | SF_FORMAT_PCM_24, SF_FORMAT_AU | SF_FORMAT_PCM_16, SF_FORMAT_AU | SF_FORMAT_FLOAT, SF_FORMAT_W64 | SF_FORMAT_PCM_16, SF_FORMAT_RF64 | SF_FORMAT_PCM_16,
    SF_FORMAT_CAF | SF_FORMAT_PCM_16, SF_FORMAT_CAF | SF_FORMAT_FLOAT, SF_FORMAT_FLAC | SF_FORMAT_PCM_16, SF_FORMAT_FLAC | SF_FORMAT_PCM_24};

Plan make_c29(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C29", seed);
  SessOpt o;
  o.hex = o.tef = o.bits = 0;
  o.mpx_min = 5;
  o.mpx_max = 14;
  o.channels = r.p(0.6) ? 1 : r.range(2, 4);
  o.streams = r.p(0.15);
  session(p, r, o);
  p.n.erase("trail");
  p.kind = "file";
  p.n["fmt"] = int(r.below(uint32_t(kSoundFormats.size())));
  if (r.p(0.2)) p.argv.push_back("-x");
  for (const char* f : {"-p", "-R", "-E", "-u"})
    if (r.p(0.1)) p.argv.push_back(f);
  p.n["how"] = int(r.below(4));  // 0, 1: by name; 2: stdin is a file; 3: stdin is a pipe
  if (r.p(0.4)) p.ff.max_read = uint32_t(r.range(1, 5000));
  if (r.p(0.3)) p.ff.eintr_every = uint32_t(r.range(2, 50));
  if (r.p(0.3)) p.n["ignored_r"] = r.pick(std::vector<int>{128000, 171000, 192000, 228000, 2000000});
  if (r.p(0.3)) p.n["ignored_c"] = r.range(1, 8);
  if (r.p(0.1)) p.n["filerate"] = r.pick(std::vector<int>{1, 8000, 44100, 96000, 127999, 40000001, 50000000});
  if (r.p(0.05)) p.n["broken"] = int(r.below(4));
  p.deliver2 = r.pick(std::vector<std::string>{"whole", "rand", "page"});
  p.dseed2 = r.next() >> 16;
  return p;
}
Verdict check_c29(const Plan& p, Stats& st) {
  auto sig = mpx_signals(p);
  std::string in = mpx_bytes(p, sig);
  const int ch = int(p.num("channels", 1));
  in.resize(in.size() / size_t(2 * ch) * size_t(2 * ch));
  if (in.empty()) return ok();
  int rate = int(p.num("rate"));
  int fmt = kSoundFormats[size_t(p.num("fmt")) % kSoundFormats.size()];
  bool streams = has_arg(p.argv, "-s");
  int frate = int(p.num("filerate", rate));
  // FLAC and others have limits of their own
  if (frate != rate || frate > 600000) fmt = SF_FORMAT_WAV | SF_FORMAT_PCM_16;
  std::string file = sound_file(in, ch, frate, fmt);
  if (file.empty()) {
    st.c["format_unavailable"]++;
    return ok();
  }
  int how = int(p.num("how"));
  // only some containers can be read from a pipe
  int major = fmt & SF_FORMAT_TYPEMASK;
  if (how == 3 && major != SF_FORMAT_WAV && major != SF_FORMAT_AU && major != SF_FORMAT_WAVEX) how = 2;
  bool broken = p.n.count("broken");
  std::string name = "mpx.snd";
  if (broken) switch (p.num("broken")) {
      case 0: file = ""; break;
      case 1: file = "this is not a sound file\n"; break;
      case 2: file.resize(11); break;
      default: name = "nosuch.snd", how = 0; break;
    }
  Plan q = p;
  q.argv2.clear();
  for (size_t i = 0; i < p.argv.size(); i++) {
    if (p.argv[i] == "-r" || p.argv[i] == "-c" || p.argv[i] == "-i") {
      i++;
      continue;
    }
    q.argv2.push_back(p.argv[i]);
  }
  q.argv2.push_back("-f");
  q.argv2.push_back(how >= 2 ? "-" : name);
  if (p.n.count("ignored_r")) push(q.argv2, {"-r", std::to_string(p.num("ignored_r"))});
  if (p.n.count("ignored_c")) push(q.argv2, {"-c", std::to_string(p.num("ignored_c"))});
  if (how < 2) q.files["mpx.snd"] = file;
  Plan q2 = q;
  q2.items.clear();
  Item whole;
  whole.b = how >= 2 ? file : "";
  q2.items.push_back(whole);
  Exec e2 = exec_of(q2, whole.b, true);
  e2.stdin_file = how == 2;
  if (how == 2) e2.chunks.push_back({1u << 30, p.t0, kNone});  // it may seek and read again
  e2.max_asks_after_eof = 1000000;
  Result b = run(e2, q2, st);
  if (b.kind != Result::kExit) return bad("end", b.what());
  st.c["format_" + std::to_string(fmt)]++;
  st.states.insert(uint64_t(fmt) * 8 + uint64_t(how) + uint64_t(ch) * 1000003 + uint64_t(frate) * 7919);
  bool refuse = broken || frate < 128000 || frate > 40000000 || (streams && frate < 171000);
  if (refuse) {
    st.nontrivial = true;
    st.c["refused"]++;
    if (b.code == 0) return bad("accepted", "a file that cannot be used (" + std::to_string(frate) + " Hz" + (broken ? ", broken" : "") + ") was accepted");
    if (b.out.empty() && b.err.empty()) return bad("silent", "a file was refused without a word");
    for (auto& l : lines_of(b.out))
      if (!l.empty() && (l[0] == '{' || hex_line_ok(l))) return bad("accepted", "groups were printed from a file that cannot be used: " + clip(l));
    return ok();
  }
  if (!b.clean()) return bad("refused", "a sound file with " + std::to_string(ch) + " channels at " + std::to_string(frate) + " Hz was refused: " + clip(b.err));
  Plan q1 = q;
  q1.files.clear();
  q1.ff = FileFault{};
  Exec e1 = exec_of(q1, in);
  e1.need_log = false;
  Result a = run(e1, q1, st);
  if (!a.clean()) return not_clean(a);
  st.sim_s += double(in.size()) / double(2 * ch) / rate * 2;
  st.nontrivial = !a.out.empty();
  return diff_text("file", a.out, b.out, "raw samples", "sound file");
}

// ---------------------------------------------------------------- C30
Plan make_c30(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C30", seed);
  SessOpt o;
  o.hex = 0.7;
  o.tef = 0.1;
  o.bits = 0.192;
  o.min_groups = 10;
  o.max_groups = r.p(0.8) ? 60 : 250;
  o.mpx_min = 100;
  o.mpx_max = 150;
  o.level = r.range(0, 3);
  std::string fmt = session(p, r, o);
  p.kind = fmt;
  if (fmt == "mpx") {  // the receiver is reset again and again while there is no carrier
    p.kind = "mpx, long loss of carrier";
    Item i;
    i.b = (r.p(0.5) ? "Q " : "Z ") + std::to_string(r.range(60000, 110000));
    p.items.push_back(i);
  }
  if (r.p(0.15) && fmt != "mpx") add_loc(p, r, 0);
  if (r.p(0.2)) p.argv.push_back("-x");
  for (const char* f : {"-p", "-R", "-E", "-u"})
    if (r.p(0.15)) p.argv.push_back(f);
  if (r.p(0.15)) push(p.argv, {"-t", "%c"});
  if (r.p(0.15)) p.argv.push_back("-e");
  if (r.p(0.15) && fmt == "hex") p.argv.push_back("-s");
  p.n["cycles"] = o.max_groups > 60 ? 32 : 96;
  return p;
}
Verdict check_c30(const Plan& p, Stats& st) {
  auto range = [](const std::vector<Event>& v, size_t a, size_t b, bool top) {
    Event r = v[a];
    for (size_t i = a; i < b; i++) {
      r.live_n = top ? std::max(r.live_n, v[i].live_n) : std::min(r.live_n, v[i].live_n);
      r.live_bytes = top ? std::max(r.live_bytes, v[i].live_bytes) : std::min(r.live_bytes, v[i].live_bytes);
    }
    return r;
  };
  auto judge = [&](const std::vector<Event>& v, uint32_t tol_n, uint64_t tol_b, const char* what) -> Verdict {
    size_t n = v.size();
    Event a = range(v, n / 4, n / 2, true), b = range(v, n - n / 4, n, false);
    st.nontrivial = true;
    st.states.insert(a.live_n * 31 + a.live_bytes);
    if (b.live_n > a.live_n + tol_n)
      return bad("growth", "memory grows: at least " + std::to_string(b.live_n - a.live_n) + " more allocations in use in the last quarter of " + std::to_string(n) + " " + what + " than in the second");
    if (b.live_bytes > a.live_bytes + tol_b)
      return bad("growth", "memory grows: at least " + std::to_string(b.live_bytes - a.live_bytes) + " more bytes in use in the last quarter of " + std::to_string(n) + " " + what + " than in the second");
    return ok();
  };
  if (is_mpx(p)) {
    std::string in = full_input(p);
    Exec e = exec_of(p, in);
    e.chunks.assign(1, Chunk{uint32_t(in.size()), p.t0, kNone});
    Result r = run(e, p, st);
    if (!r.clean()) return not_clean(r);
    st.sim_s += double(in.size()) / 2 / double(p.num("rate"));
    std::vector<Event> v;
    for (auto& x : r.events)
      if (x.kind == 0) v.push_back(x);
    // Resets follow each other every five seconds once the carrier has been gone for ten. Anything that
    // is needed just once may be allocated late, but only a leak goes up in each part of that time.
    size_t dead_ms = 0;
    if (!p.items.empty() && p.items.back().b.size() > 2) dead_ms = size_t(atol(p.items.back().b.c_str() + 2));
    if (dead_ms < 55000) return ok();
    size_t n = v.size(), from = size_t(double(n) * (1 - (double(dead_ms) / 1000 - 13) / (double(in.size()) / 2 / double(p.num("rate"))))), parts = (dead_ms - 13000) / 7000;
    st.nontrivial = true;
    st.c["long_loss_of_carrier"]++;
    bool up_n = true, up_b = true;
    Event first = v[from], last = first;
    for (size_t i = 0; i < parts; i++) {
      Event m = range(v, from + (n - from) * i / parts, from + (n - from) * (i + 1) / parts, false);
      st.states.insert(m.live_n * 31 + m.live_bytes);
      if (i) up_n &= m.live_n > last.live_n, up_b &= m.live_bytes > last.live_bytes;
      else first = m;
      last = m;
    }
    if (up_n || up_b)
      return bad("growth", "memory grows steadily while there is no carrier: " + std::to_string(int64_t(last.live_n) - int64_t(first.live_n)) + " more allocations and " + std::to_string(int64_t(last.live_bytes) - int64_t(first.live_bytes)) + " more bytes in use after " + std::to_string(dead_ms / 1000) + " s");
    return ok();
  }
  std::string one = input_of(p), in;
  if (one.empty()) return ok();
  size_t k = size_t(p.num("cycles"));
  for (size_t i = 0; i < k; i++) in += one;
  Exec e = exec_of(p, in);
  e.chunks.clear();
  for (size_t i = 0; i < k; i++) e.chunks.push_back({uint32_t(one.size()), p.t0 + int64_t(i) * 5000000000, kNone});
  Result r = run(e, p, st);
  if (!r.clean()) return not_clean(r);
  st.sim_s += double(p.items.size()) * 0.0876 * double(k);
  std::vector<Event> v;  // at the end of each cycle
  for (auto& x : r.events)
    if (x.kind == 0 && x.in_off && x.in_off % one.size() == 0 && (v.empty() || v.back().in_off != x.in_off)) v.push_back(x);
  if (v.size() < k - 1) return ok();
  return judge(v, 0, 0, "repetitions");
}

}  // namespace

extern const std::vector<Prop> kIoProps;
const std::vector<Prop> kIoProps = {
    {"C01", make_c01, check_c01}, {"C14", make_c14, check_c14}, {"C15", make_c15, check_c15}, {"C16", make_c16, check_c16},
    {"C17", make_c17, check_c17}, {"C19", make_c19, check_c19}, {"C23", make_c23, check_c23}, {"C25", make_c25, check_c25}, {"C91", make_c91, check_c91}, {"C29", make_c29, check_c29}, {"C30", make_c30, check_c30},
};

}  // namespace sim
