// Properties about the demodulator: simulated FM multiplex signals.
#include <cmath>

#include "common.hpp"

namespace sim {
using namespace gen;

namespace {

Item seg(int tag, const char* f, double v) {
  char b[48];
  snprintf(b, sizeof b, f, v);
  Item i;
  i.b = b;
  i.tag = tag;
  return i;
}

Mix station(Rng& r) {
  Mix m;
  for (int s = 0; s < NSVC; s++)
    if (r.p(0.5)) m.w[size_t(s)] = 1;
  m.w[PS_A] = 2;
  m.w[RT_A] = 2;
  m.burst = r.range(1, 8);
  return m;
}

// ---------------------------------------------------------------- C21
Plan make_c21(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C21", seed);
  int n = r.p(0.5) ? 2 : r.range(2, 6);
  bool streams = r.p(0.2);
  double rate = streams ? r.pick(std::vector<double>{171000, 192000}) : r.pick(std::vector<double>{171000, 171000, 128000, 192000});
  mpx_params(p, r, rate, n);
  p.kind = r.pick(std::vector<std::string>{"replace", "replace", "alone", "alone", "permute", "wav"});
  p.argv = {"-r", std::to_string(int(rate)), "-c", std::to_string(n)};
  if (p.kind == "alone") streams = false;  // data streams interleave by chunk
  if (streams) p.argv.push_back("-s");
  for (const char* a : {"-p", "-R", "-E", "-u"})
    if (r.p(0.3)) p.argv.push_back(a);
  p.n["chan"] = r.below(uint32_t(n));
  double secs = 0.8 + 2.5 * r.unit();
  bool longrun = r.p(0.12) && n == 2 && p.kind != "alone";  // long enough for the loss-of-carrier reset
  if (longrun) secs = 12 + 4 * r.unit();
  p.n["frames"] = int64_t(secs * rate) + r.below(100);
  std::map<std::string, uint64_t> st;
  uint16_t same_pi = 0;
  for (int c = 0; c < n; c++) {
    bool judged = c == p.num("chan");
    size_t at = p.items.size();
    int what = judged ? 0 : int(r.below(6));
    if (what <= 3) {
      Mix m = station(r);
      m.groups = int(secs / 0.0876) + 2;
      if (longrun && r.p(judged ? 0.15 : 0.7)) m.groups = r.range(10, 30);
      auto g = transmit(r, m);
      if (r.p(0.3) && same_pi)
        for (auto& x : g) x.w[0] = same_pi;
      else if (!g.empty())
        same_pi = g[0].w[0];
      p.items.push_back(seg(c, "V %.4f", 0.01 + 0.1 * r.unit()));
      if (r.p(0.4)) p.items.push_back(seg(c, "S %.5f", 0.01 * r.unit()));
      if (r.p(0.3)) p.items.push_back(seg(c, "Z %.0f", r.range(1, 400)));
      add_mpx(p, r, g, c, streams);
      if (r.p(0.4)) {
        size_t k = at + r.below(uint32_t(p.items.size() - at + 1));
        p.items.insert(p.items.begin() + long(k), seg(c, "Z %.0f", r.range(20, 500)));
        st["signal_dropout"]++;
      }
    } else {
      p.items.push_back(seg(c, what == 4 ? "X %.0f" : "Q %.0f", secs * 1000));
      st[what == 4 ? "channel_noise" : "channel_silence"]++;
    }
    if (!judged && p.kind == "replace") {
      // what the channel carries instead in the second run
      std::vector<Item> alt;
      int w2 = int(r.below(4));
      if (w2 == 0 || w2 == 1) {
        Mix m = station(r);
        m.groups = int(secs / 0.0876) + 2;
        auto g = transmit(r, m);
        Plan q;
        add_mpx(q, r, g, c, streams);
        alt = q.items;
        if (r.p(0.5)) alt.insert(alt.begin(), seg(c, "Z %.0f", r.range(1, 400)));
        st["channel_other_station"]++;
      } else {
        alt.push_back(seg(c, w2 == 2 ? "X %.0f" : "Q %.0f", secs * 1000));
        st[w2 == 2 ? "channel_noise" : "channel_silence"]++;
      }
      for (size_t i = at; i < p.items.size(); i++) p.items[i].b2 = "_";
      for (auto& a : alt) {
        Item i;
        i.b = "_";
        i.b2 = a.b;
        i.tag = c;
        p.items.push_back(i);
      }
    }
  }
  if (r.p(0.4)) p.n["trail"] = r.range(-2 * n - 1, 2 * n + 1);
  p.deliver = r.pick(std::vector<std::string>{"whole", "rand", "page"});
  p.deliver2 = r.pick(std::vector<std::string>{"whole", "rand", "page"});
  p.dseed = r.next() >> 16;
  p.dseed2 = r.next() >> 16;
  count_faults(p, st);
  return p;
}

std::vector<std::string> of_channel(const std::string& out, int c, bool strip, Verdict* v) {
  std::vector<std::string> r;
  for (auto& l : lines_of(out)) {
    json j = json::parse(l, nullptr, false);
    if (!j.is_object()) {
      *v = bad("json", "not a JSON object: " + clip(l));
      return r;
    }
    if (j.size() == 1 && j.contains("debug")) continue;  // text that is not valid UTF-8: a line without any field
    if (!j.contains("channel")) {
      *v = bad("channel", "a line has no channel number: " + clip(l));
      return r;
    }
    if (j["channel"] != c) continue;
    if (strip) j.erase("channel");
    r.push_back(j.dump());
  }
  return r;
}

Verdict same_lines(const std::vector<std::string>& a, const std::vector<std::string>& b, const std::string& how) {
  for (size_t i = 0; i < a.size() || i < b.size(); i++) {
    std::string x = i < a.size() ? a[i] : "(nothing)", y = i < b.size() ? b[i] : "(nothing)";
    if (x != y) return bad("lines", how + ": line " + std::to_string(i + 1) + " of the channel is " + clip(x) + " / " + clip(y));
  }
  return ok();
}

Verdict check_c21(const Plan& p, Stats& st) {
  int n = int(p.num("channels")), c = int(p.num("chan"));
  double rate = double(p.num("rate"));
  auto sig = mpx_signals(p);
  std::string in = mpx_bytes(p, sig);
  Exec e = exec_of(p, in);
  e.need_log = false;
  Result a = run(e, p, st);
  if (!a.clean()) return not_clean(a);
  st.sim_s += double(p.num("frames")) / rate * 2;
  Verdict v;
  Plan q = p;
  q.items.clear();
  st.c["channels_" + std::to_string(n)]++;
  st.c["kind_" + p.kind]++;
  auto note = [&](const std::vector<std::string>& la) {
    st.nontrivial = !la.empty();
    for (auto& l : la) st.states.insert(fnv(l) % 100003);
  };
  if (p.kind == "replace") {
    std::string in2 = mpx_bytes(p, mpx_signals(p, true));
    q.argv2 = p.argv;
    Exec e2 = exec_of(q, in2, true);
    e2.need_log = false;
    Result b = run(e2, p, st);
    if (!b.clean()) return not_clean(b);
    auto la = of_channel(a.out, c, false, &v), lb = of_channel(b.out, c, false, &v);
    if (v.bad) return v;
    note(la);
    return same_lines(la, lb, "with other channels / with different other channels");
  }
  if (p.kind == "permute") {
    auto sg = sig;
    std::rotate(sg.begin(), sg.begin() + 1, sg.end());
    q.argv2 = p.argv;
    Exec e2 = exec_of(q, mpx_bytes(p, sg), true);
    e2.need_log = false;
    Result b = run(e2, p, st);
    if (!b.clean()) return not_clean(b);
    for (int k = 0; k < n; k++) {
      if (p.num("trail") && (k == 0 || k == n - 1)) continue;
      auto la = of_channel(a.out, k, true, &v), lb = of_channel(b.out, (k + n - 1) % n, true, &v);
      if (v.bad) return v;
      note(la);
      v = same_lines(la, lb, "as channel " + std::to_string(k) + " / as channel " + std::to_string((k + n - 1) % n));
      if (v.bad) return v;
    }
    return ok();
  }
  if (p.kind == "wav") {  // the same samples as a sound file
    std::string w = in;
    w.resize(w.size() / size_t(2 * n) * size_t(2 * n));
    auto le = [](uint32_t x, int k) {
      std::string s;
      for (int i = 0; i < k; i++) s += char(x >> (8 * i) & 255);
      return s;
    };
    q.files["mpx.wav"] = "RIFF" + le(uint32_t(36 + w.size()), 4) + "WAVEfmt " + le(16, 4) + le(1, 2) + le(uint32_t(n), 2) + le(uint32_t(rate), 4) +
                         le(uint32_t(rate) * uint32_t(2 * n), 4) + le(uint32_t(2 * n), 2) + le(16, 2) + "data" + le(uint32_t(w.size()), 4) + w;
    q.argv = {"-f", "mpx.wav"};
    for (auto& x : p.argv)
      if (x == "-s" || x == "-p" || x == "-R" || x == "-E" || x == "-u") q.argv.push_back(x);
    Exec e2 = exec_of(q, "");
    e2.need_log = false;
    Result b = run(e2, q, st);
    if (!b.clean()) return not_clean(b);
    for (int k = 0; k < n; k++) {
      auto la = of_channel(a.out, k, false, &v), lb = of_channel(b.out, k, false, &v);
      if (v.bad) return v;
      note(la);
      v = same_lines(la, lb, "raw samples / sound file");
      if (v.bad) return v;
    }
    return ok();
  }
  // alone: too short for the loss-of-carrier reset, so the chunk length does not matter either
  std::vector<mpx::Signal> one{sig[size_t(c)]};
  one[0].s.resize(size_t(p.num("frames")));
  std::string in1 = mpx::bytes_of(one[0].s);
  // a last incomplete frame belongs to no channel
  if (p.num("trail") < 0) {
    size_t f = (in.size() / 2) / size_t(n);
    in1.resize(f * 2);
  } else if (p.num("trail") >= 2 * n) {
    in1 += in.substr(size_t(p.num("frames")) * size_t(2 * n) + size_t(2 * c), 2);
  }
  q.argv.clear();
  for (size_t i = 0; i < p.argv.size(); i++) {
    if (p.argv[i] == "-c") {
      i++;
      continue;
    }
    q.argv.push_back(p.argv[i]);
  }
  Exec e2 = exec_of(q, in1);
  e2.need_log = false;
  Result b = run(e2, p, st);
  if (!b.clean()) return not_clean(b);
  auto la = of_channel(a.out, c, true, &v);
  if (v.bad) return v;
  note(la);
  std::vector<std::string> lb;
  for (auto& l : lines_of(b.out)) {
    json j = json::parse(l, nullptr, false);
    if (!j.is_object()) return bad("json", "not a JSON object: " + clip(l));
    if (j.contains("channel")) return bad("channel", "channel number in single-channel input: " + clip(l));
    if (j.size() == 1 && j.contains("debug")) continue;
    lb.push_back(j.dump());
  }
  return same_lines(la, lb, "among other channels / alone");
}

// ---------------------------------------------------------------- C22
// Distinct groups, so that every line of output can be attributed
std::vector<G> numbered(Rng& r, int n, uint16_t pi, bool streams) {
  std::vector<G> v;
  for (int i = 0; i < n; i++) {
    G g{};
    g.w[0] = pi;
    g.w[1] = uint16_t(r.below(65536) & 0xF7FF);  // version A
    g.w[2] = uint16_t(r.below(65536));
    g.w[3] = uint16_t((r.below(256) << 8) | (i & 255));
    v.push_back(g);
    if (streams)
      for (int s = 1; s < 4; s++) {
        G h{};
        h.stream = s;
        for (auto& w : h.w) w = uint16_t(r.below(65536));
        h.w[3] = uint16_t((h.w[3] & 0xFF00) | (i & 255));
        v.push_back(h);
      }
  }
  return v;
}

Plan make_c22(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C22", seed);
  p.kind = r.pick(std::vector<std::string>{"steady", "steady", "streams", "disturb", "disturb", "disturb", "slow", "long", "stuck"});
  bool streams = p.kind == "streams" || (p.kind == "disturb" && r.p(0.15));
  double rate = r.p(0.4) ? 171000 : r.pick(std::vector<double>{128000, 132300, 150000, 176400, 192000, 200000, 228000, 240000, 250000, 256000, 384000});
  if (streams && rate < 171000) rate = 176400;
  if (p.kind == "long") rate = 171000;
  if (r.p(0.03) && p.kind == "steady") rate = r.pick(std::vector<double>{500000, 1000000, 2400000});
  mpx_params(p, r, rate, 1);
  p.argv = {"-x", "-r", std::to_string(int(rate))};
  if (streams) p.argv.push_back("-s");
  std::map<std::string, uint64_t> st;
  auto& it = p.items;
  // usable: noise well below the subcarrier, offsets of ordinary receivers and sound cards
  double level = r.p(0.2) ? 0.002 : 0.01 * std::pow(10, 1.5 * r.unit());
  if (streams) level = std::min(level, 0.1);
  it.push_back(seg(0, "V %.5f", level));
  if (r.p(0.5)) it.push_back(seg(0, "S %.6f", 0.2 * level * r.unit()));
  if (r.p(0.5) && level < 0.3) it.push_back(seg(0, "A %.3f", std::min(0.5, 8 * level) * r.unit()));
  if (r.p(0.3)) it.push_back(seg(0, "D %.4f", std::min(0.05, level) * (2 * r.unit() - 1)));
  if (r.p(0.4)) it.push_back(seg(0, "F %.2f", 4 * (2 * r.unit() - 1)));
  if (r.p(0.4)) it.push_back(seg(0, "C %.1f", 100 * (2 * r.unit() - 1)));
  if (r.p(0.3)) it.push_back(seg(0, r.p(0.5) ? "Z %.0f" : "Q %.0f", r.range(1, 800)));
  uint16_t pi = uint16_t(1 + r.below(65535));
  int base = rate < 160000 ? 55 : 42;
  if (rate > 400000) base = 25;
  auto send = [&](int n) {
    add_mpx(p, r, numbered(r, n, pi, streams), 0, streams);
  };
  if (p.kind == "steady" || p.kind == "streams") {
    send(base);
    return p;
  }
  if (p.kind == "long") {  // carrier gone for longer than the reset time
    send(r.range(0, 25));
    double ms = r.range(9000, 16000);
    int w = int(r.below(3));
    it.push_back(seg(0, w == 0 ? "Z %.0f" : w == 1 ? "Q %.0f" : "X %.0f", ms));
    st["carrier_lost_long"]++;
    if (r.p(0.5)) pi = uint16_t(1 + r.below(65535));
    it.push_back(seg(0, "M %.0f", 0));
    send(base);
    count_faults(p, st);
    return p;
  }
  if (p.kind == "stuck") {
    // no noise, only audio: the symbol clock runs wild until the loss-of-carrier reset
    it = {seg(0, "V %.5f", 0.07 + 0.3 * r.unit()), seg(0, "A %.3f", 0.1 + 0.4 * r.unit())};
    send(r.range(20, 42));
    it.push_back(seg(0, "Z %.0f", r.range(800, 1500)));
    st["signal_dropout"]++;
    it.push_back(seg(0, "M %.0f", 0));
    send(base);
    count_faults(p, st);
    return p;
  }
  int rounds = p.kind == "slow" ? 1 : r.range(1, 2);
  for (int k = 0; k < rounds; k++) {
    send(k || p.kind == "slow" ? base : r.range(0, 30));
    switch (p.kind == "slow" ? 5 : int(r.below(7))) {
      case 0:
        it.push_back(seg(0, "Z %.0f", r.range(1, 1500)));
        st["signal_dropout"]++;
        break;
      case 1:
        it.push_back(seg(0, "Q %.0f", r.range(1, 1500)));
        st["digital_silence"]++;
        break;
      case 2:
        it.push_back(seg(0, "X %.0f", r.range(1, 1500)));
        st["loud_noise"]++;
        break;
      case 3:
        it.push_back(seg(0, "V %.5f", level * std::pow(10, r.unit() * 1.6 - 0.8)));
        st["level_step"]++;
        break;
      case 4:
        it.push_back(seg(0, "J %.4f", 6.2832 * r.unit()));
        st["phase_jump"]++;
        break;
      case 5:
        it.push_back(seg(0, "F %.2f", 4 * (2 * r.unit() - 1)));
        it.push_back(seg(0, "C %.1f", 100 * (2 * r.unit() - 1)));
        st["oscillator_step"]++;
        break;
      default: {
        std::string b = "B ";
        to_bits_noise(r, b, r.range(1, 600));
        Item i;
        i.b = b;
        it.push_back(i);
        st["garbage_bits"]++;
        if (r.p(0.5)) pi = uint16_t(1 + r.below(65535));
      }
    }
    it.push_back(seg(0, "M %.0f", 0));
    send(base);
  }
  count_faults(p, st);
  return p;
}

// What happened before a phase of undisturbed transmission
enum Before { kStart, kQuiet, kLoud, kStep, kGarbage, kBefores };
const char* kBeforeName[] = {"start", "quiet", "noise", "step", "garbage"};

// Groups that may be lost before reception must be perfect again, ordinarily. Where the
// demodulator may lock on to nothing (no signal at all, full-scale noise), it may also take until
// the loss-of-carrier reset, 10 s later.
// The reset watches the main subcarrier only, so that data streams are not judged then.
size_t lag_bound(Before b, double rate, int stream) {
  size_t lo = rate < 160000 ? 10 : 0;
  switch (b) {
    case kStart: return 20 + lo;
    case kStep: return 60 + lo;
    case kGarbage: return 60 + lo;
    default: return stream ? SIZE_MAX : 250;
  }
}

struct Phase {
  Before before;
  std::vector<const mpx::Sent*> g;
};
std::vector<Phase> phases(const Plan& p, const mpx::Signal& sig, int stream) {
  std::vector<Phase> v;
  size_t prev = SIZE_MAX;
  for (auto& g : sig.sent) {
    if (g.stream != stream) continue;
    bool cont = prev != SIZE_MAX;
    Before b = kStart;
    for (size_t k = prev + 1; k < g.item; k++) {
      char c = p.items[k].b[0];
      if (c == 'G') {
        if (stream == 0) continue;
        cont = false;
        continue;
      }
      // options before anything was sent are how the signal is from the start
      bool setting = c == 'V' || c == 'S' || c == 'A' || c == 'D' || c == 'F' || c == 'C';
      if (setting && prev == SIZE_MAX) continue;
      cont = false;
      if (c == 'Z' || c == 'Q') b = kQuiet;
      else if (c == 'X') b = b == kQuiet ? kQuiet : kLoud;
      else if (c == 'B') b = b == kStart ? kGarbage : b;
      else b = b == kStart ? kStep : b;
    }
    if (!cont || v.empty()) v.push_back({b, {}});
    v.back().g.push_back(&g);
    prev = g.item;
  }
  return v;
}

struct Recep {
  size_t lag;       // groups sent until nothing is missing any more
  std::string why;  // extra lines after that
};
Recep reception(const Phase& ph, const std::vector<std::string>& got, size_t& from, bool final) {
  Recep r{0, ""};
  std::vector<size_t> pos(ph.g.size(), SIZE_MAX);
  size_t at = from;
  for (size_t i = 0; i < ph.g.size(); i++) {
    std::string h = hex_of(*ph.g[i]);
    size_t j = at;
    while (j < got.size() && got[j] != h) j++;
    if (j == got.size()) {
      // the very last group may still be in the filters when the input ends
      if (!(final && i + 1 == ph.g.size())) r.lag = i + 1;
    } else {
      pos[i] = j;
      at = j + 1;
    }
  }
  from = at;
  for (size_t i = r.lag + 1; i < pos.size(); i++)
    if (pos[i] != SIZE_MAX && pos[i] != pos[i - 1] + 1) {
      r.why = "line \"" + got[pos[i - 1] + 1] + "\" printed between two groups that were sent back to back";
      break;
    }
  return r;
}

// wrap: the counters overflow at the end of the first phase
Verdict watch(const Plan& p, Stats& st, bool wrap) {
  double rate = double(p.num("rate"));
  int nstream = has_arg(p.argv, "-s") ? 4 : 1;
  Plan q = p;
  for (int round = 0; round < 2; round++) {
    auto sig = mpx_signals(q);
    std::string in = mpx_bytes(q, sig);
    if (in.size() < 1000) return ok();
    Exec e = exec_of(q, in);
    e.need_log = false;
    if (wrap) {
      auto ph = phases(q, sig[0], 0);
      if (ph.empty()) return ok();
      double t = ph[0].g.back()->t1 + double(p.num("wrap_ms")) / 1e3;
      e.first_sample = uint32_t(-int64_t(t * 171000));
      e.first_bit = uint32_t(-int64_t(t * 1187.5));
    }
    Result res = run(e, q, st);
    st.sim_s += sig[0].seconds;
    if (!res.clean()) return not_clean(res);
    auto ls = lines_of(res.out);
    if (!round) st.c["kind_" + p.kind]++;
    bool again = false;
    for (int s = 0; s < nstream; s++) {
      auto ph = phases(q, sig[0], s);
      std::vector<std::string> got;
      for (auto& l : ls)
        if ((l[0] == '#' ? l[2] - '0' : 0) == s) got.push_back(l);
      size_t from = 0;
      for (size_t k = 0; k < ph.size(); k++) {
        bool final = k + 1 == ph.size();
        auto r = reception(ph[k], got, from, final);
        size_t len = ph[k].g.size();
        size_t bound = lag_bound(ph[k].before, rate, s);
        if (getenv("LAGDBG") && len > 20)
          fprintf(stderr, "LAG %s %s %d %zu %zu %d %llu\n", kBeforeName[ph[k].before], rate < 160000 ? "lo" : "hi", s > 0, r.lag, len, round,
                  (unsigned long long)p.seed);
        if (r.lag > bound)
          return bad("lag", "stream " + std::to_string(s) + ", after " + kBeforeName[ph[k].before] + ": group " + std::to_string(r.lag) +
                                " of an undisturbed transmission (" + hex_of(*ph[k].g[r.lag - 1]) + ") is not received");
        if (!r.why.empty()) return bad("extra", "stream " + std::to_string(s) + ": " + r.why);
        if (len > r.lag + 5) {
          st.nontrivial = true;
          st.c[std::string("locked_after_") + kBeforeName[ph[k].before]]++;
          st.states.insert(fnv(kBeforeName[ph[k].before]) + r.lag * 17 + uint64_t(rate) + uint64_t(s) * 7919);
        } else if (final && bound > len && bound != SIZE_MAX && len > 20) {
          again = true;  // not recovered when the signal ends: let it go on
        }
      }
    }
    if (!again || round) return ok();
    st.c["recovery_watched_longer"]++;
    Rng r{p.seed + 99};
    add_mpx(q, r, numbered(r, 290, uint16_t(1 + r.below(65535)), nstream > 1), 0, nstream > 1);
  }
  return ok();
}
Verdict check_c22(const Plan& p, Stats& st) {
  return watch(p, st, false);
}

// ---------------------------------------------------------------- C94
Plan make_c94(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C94", seed);
  std::map<std::string, uint64_t> st;
  if (r.p(0.995)) {  // bits: nothing may change at all
    p.kind = "bits";
    p.argv = {"-i", "bits"};
    for (const char* o : {"-p", "-R", "-E", "-u", "-x", "--no-fec"})
      if (r.p(0.15)) p.argv.push_back(o);
    Mix m = mix_of({{PS_A, 2}, {RT_A, 2}, {SLOW_A, 0.5}, {RANDOM, 0.3}, {EON, 1}});
    m.groups = r.range(10, 120);
    auto g = transmit(r, m);
    channel(r, g, random_faults(r, r.range(0, 3)), st);
    Item n;
    to_bits_noise(r, n.b, r.range(0, 300));
    p.items.push_back(n);
    add_groups(p, r, g, "bits", 0.05);
    // synchronisation is what the counter is for: lose it often
    for (size_t i = 0; i < p.items.size(); i++) {
      auto& b = p.items[i].b;
      if (b.size() > 5 && r.p(0.08)) {
        if (r.p(0.5))
          b.erase(r.below(uint32_t(b.size())), 1 + r.below(3));
        else
          b.insert(r.below(uint32_t(b.size())), std::string(1 + r.below(30), char('0' + r.below(2))));
        st["bit_slip"]++;
      } else if (r.p(0.03)) {
        b.clear();
        to_bits_noise(r, b, r.range(50, 3000));
        st["noise"]++;
      }
    }
    size_t total = 0;
    for (auto& i : p.items) total += i.b.size();
    p.n["wrap_bit"] = r.below(uint32_t(total + 1));
    if (r.p(0.2)) p.n["wrap_bit"] = int64_t(r.next() >> 32);  // anywhere else
    st["bit_counter_wrap"]++;
    pick_delivery(p, r);
    count_faults(p, st);
    return p;
  }
  p.kind = "mpx";
  bool streams = r.p(0.2);
  double rate = r.p(0.6) ? 171000 : r.pick(std::vector<double>{176400, 192000, 228000, 240000});
  mpx_params(p, r, rate, 1);
  p.argv = {"-x", "-r", std::to_string(int(rate))};
  if (streams) p.argv.push_back("-s");
  double level = 0.02 + 0.05 * r.unit();
  p.items.push_back(seg(0, "V %.5f", level));
  if (r.p(0.5)) p.items.push_back(seg(0, "S %.6f", 0.1 * level * r.unit()));
  uint16_t pi = uint16_t(1 + r.below(65535));
  add_mpx(p, r, numbered(r, r.range(15, 25), pi, streams), 0, streams);
  p.items.push_back(seg(0, "M %.0f", 0));
  add_mpx(p, r, numbered(r, 70, pi, streams), 0, streams);
  p.n["wrap_ms"] = r.range(0, 90);
  st["sample_counter_wrap"]++;
  count_faults(p, st);
  return p;
}
Verdict check_c94(const Plan& p, Stats& st) {
  if (p.kind == "mpx") return watch(p, st, true);
  std::string in = input_of(p);
  Exec e1 = exec_of(p, in), e2 = exec_of(p, in);
  e2.first_bit = uint32_t(-p.num("wrap_bit"));
  Result a = run(e1, p, st), b = run(e2, p, st);
  if (!a.clean()) return not_clean(a);
  if (!b.clean()) return not_clean(b);
  st.sim_s += double(in.size()) / 1187.5;
  st.nontrivial = !a.out.empty();
  st.states.insert(uint64_t(p.num("wrap_bit") % 104) + 104 * (lines_of(a.out).size() % 16));
  return diff_text("wrap", a.out, b.out, "counter starts at 0", "counter overflows");
}

}  // namespace

extern const std::vector<Prop> kMpxProps;
const std::vector<Prop> kMpxProps = {{"C21", make_c21, check_c21}, {"C22", make_c22, check_c22}, {"C94", make_c94, check_c94}};

}  // namespace sim
