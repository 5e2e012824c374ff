// Properties decided by comparing the real program with the reference model over simulated
// transmissions received through a faulty channel, plus model-free two-run relations.
#include "common.hpp"

namespace sim {
using namespace gen;

namespace {

struct Made {
  std::vector<G> g;
  std::string fmt;
};

// The usual frame: transmit, disturb, render
Made usual(Plan& p, Rng& r, Mix m, double hex = 0.6, double tef = 0.15, int maxlevel = 3) {
  Made x;
  m.groups = r.p(0.7) ? r.range(40, 160) : r.range(160, 420);
  if (r.p(0.08)) m.crowd = true, m.groups = r.range(200, 700);
  if (r.p(0.004)) m.groups = r.range(1000, 6000);
  m.charset = r.p(0.3) ? 0 : r.p(0.7) ? 1 : 2;
  m.burst = r.range(1, r.p(0.3) ? 20 : 8);
  if (r.p(0.2)) m.random_bits = 0.02;
  if (r.p(0.3)) m.skip = r.p(0.5) ? 0.02 : 0.1;
  if (r.p(0.2)) m.change = 0.5;
  if (r.p(0.15)) m.midchange = 0.1;
  if (m.stations == 1 && r.p(0.2)) m.stations = 2, m.retune = 0.02;
  if (r.p(0.3)) m.w[RANDOM] += 0.5;
  x.g = transmit(r, m);
  std::map<std::string, uint64_t> st;
  FaultMix f = random_faults(r, r.range(0, maxlevel));
  // a clean start most of the time, so that the station is confirmed early
  if (r.p(0.8)) {
    std::vector<G> head(x.g.begin(), x.g.begin() + std::min<long>(6, long(x.g.size())));
    std::vector<G> tail(x.g.begin() + long(head.size()), x.g.end());
    channel(r, tail, f, st);
    head.insert(head.end(), tail.begin(), tail.end());
    x.g = head;
  } else {
    channel(r, x.g, f, st);
  }
  x.fmt = pick_fmt(r, hex, tef);
  p.argv = {"-i", x.fmt};
  if (x.fmt == "bits" && r.p(0.15)) p.argv.push_back("--no-fec");
  add_groups(p, r, x.g, x.fmt, r.p(0.5) ? 0.03 : 0.0);
  pick_display_opts(p, r, 0.12);
  pick_delivery(p, r);
  count_faults(p, st);
  return x;
}

// ---------------------------------------------------------------- C04
Mix all_services() {
  Mix m;
  for (int s = 0; s < NSVC; s++) m.w[size_t(s)] = 1;
  m.w[PS_A] = 3;
  m.w[RT_A] = 3;
  m.w[ODA_ANN] = 2;
  m.w[RANDOM] = 0.3;
  return m;
}

Plan make_c04(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C04", seed);
  int k = int(r.below(4));
  if (k == 0) {
    // isolated wrong PIs against the same transmission with the right PI
    p.kind = "glitch";
    Mix m = all_services();
    m.groups = r.range(30, 250);
    m.w[RFT] = m.w[CGRP] = 0.5;
    auto g = transmit(r, m);
    FaultMix f;
    f.glitch = 0.1;
    f.blk[1] = f.blk[2] = f.blk[3] = r.p(0.5) ? 0.05 : 0;
    f.blk[0] = r.p(0.5) ? 0.05 : 0;
    std::map<std::string, uint64_t> st;
    std::vector<G> head(g.begin(), g.begin() + 8), tail(g.begin() + 8, g.end());
    channel(r, tail, f, st);
    head.insert(head.end(), tail.begin(), tail.end());
    for (auto& x : head) {
      Item i;
      i.b = hex_line(x);
      if (x.glitch) {
        G y = x;
        y.w[0] = x.right_pi;
        i.b2 = hex_line(y);
      }
      p.items.push_back(i);
    }
    p.argv = {"-i", "hex"};
    if (r.p(0.3)) p.argv.push_back("-p");
    p.argv2 = p.argv;
    count_faults(p, st);
    return p;
  }
  p.kind = k == 1 ? "model" : "suffix";
  Mix m = all_services();
  m.stations = r.range(2, 4);
  m.retune = r.p(0.5) ? 0.02 : 0.08;
  if (r.p(0.5)) {  // concentrate on a few services so that texts are in flight at the change
    for (auto& w : m.w)
      if (r.p(0.7)) w = 0;
    m.w[PS_A] += 0.2;
  }
  m.burst = r.range(1, 6);
  m.groups = r.range(40, 300);
  auto g = transmit(r, m);
  std::map<std::string, uint64_t> st;
  FaultMix f = random_faults(r, r.range(0, 3));
  f.b1_runs = r.p(0.5) ? 0.03 : 0;
  f.glitch = r.p(0.5) ? 0.05 : 0;
  channel(r, g, f, st);
  st["station_change"] = 1;
  std::string fmt = p.kind == "suffix" ? "hex" : pick_fmt(r, 0.5, 0.2);
  p.argv = {"-i", fmt};
  if (p.kind == "suffix" && r.p(0.4)) {
    add_loc(p, r, 0);
  }
  add_groups(p, r, g, fmt, 0.02);
  for (const char* o : {"-p", "-R", "-s", "-u"})
    if (r.p(0.15) && (fmt == "hex" || std::string(o) != "-s")) p.argv.push_back(o);
  p.argv2 = p.argv;
  if (p.kind == "model") pick_delivery(p, r);
  count_faults(p, st);
  return p;
}

Verdict check_c04(const Plan& p, Stats& st) {
  if (p.kind == "model") return check_model(p, st, {"pi"});
  std::string in = input_of(p);
  if (p.kind == "glitch") {
    // precondition: one station, confirmed, wrong PIs isolated
    auto a = ref::read_hex(in), b = ref::read_hex(input_of(p, true));
    if (a.size() != b.size()) return ok();
    std::vector<int> seq;  // 1 = wrong
    uint16_t pi = 0;
    for (size_t i = 0; i < a.size(); i++) {
      if (!b[i].has_pi()) continue;
      if (!pi) pi = b[i].pi();
      if (b[i].pi() != pi) return ok();
      seq.push_back(a[i].pi() != pi);
    }
    if (seq.size() < 4 || seq[0] || seq[1] || seq[2] || seq[3]) return ok();
    for (size_t i = 1; i < seq.size(); i++)
      if (seq[i] && (seq[i - 1] || (i + 1 < seq.size() && seq[i + 1]))) return ok();
    Exec e1 = exec_of(p, in), e2 = exec_of(p, input_of(p, true), true);
    Result r1 = run(e1, p, st), r2 = run(e2, p, st);
    if (!r1.clean()) return not_clean(r1);
    if (!r2.clean()) return not_clean(r2);
    // raw data of the affected group itself differs by construction
    st.nontrivial = true;
    st.sim_s += double(a.size()) * 0.0876;
    return diff_text("glitch", r1.out, r2.out, "with isolated wrong PI", "with right PI");
  }
  // suffix: find the last confirmed change of station
  auto w = ref::make_world(p.argv, p.files);
  auto gs = ref::read_hex(in);
  if (gs.size() != p.items.size()) return ok();
  ref::Channel ch(&w);
  long last = -1;
  uint64_t before = 0;
  for (size_t i = 0; i < gs.size(); i++) {
    ref::OutLine l;
    ch.process(gs[i], &l);
    if (ch.confirms != before) {
      before = ch.confirms;
      last = long(i);
    }
  }
  if (before < 2) return ok();
  // first of the three groups that confirmed it
  long s = last;
  int need = 3;
  for (; s >= 0; s--)
    if (gs[size_t(s)].has_pi() && --need == 0) break;
  if (s <= 0) return ok();
  Plan q = p;
  q.items.assign(p.items.begin() + s, p.items.end());
  Exec e1 = exec_of(p, in);
  std::string in2 = input_of(q);
  Exec e2 = exec_of(q, in2);
  Result r1 = run(e1, p, st), r2 = run(e2, p, st);
  if (!r1.clean()) return not_clean(r1);
  if (!r2.clean()) return not_clean(r2);
  st.nontrivial = true;
  st.sim_s += double(gs.size() + q.items.size()) * 0.0876;
  auto l1 = lines_of(r1.out), l2 = lines_of(r2.out);
  size_t nb = w.banner.size();
  if (l2.size() < nb || l1.size() < l2.size()) return bad("suffix", "fewer lines than when tuned directly to the new station");
  std::string a, b;
  for (size_t i = nb; i < l2.size(); i++) {
    a += l1[l1.size() - l2.size() + i] + "\n";
    b += l2[i] + "\n";
  }
  return diff_text("suffix", a, b, "after the old station", "tuned directly");
}

// ---------------------------------------------------------------- model comparisons
Plan make_c05(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C05", seed);
  Mix m = mix_of({{PS_A, 3}, {PS_B, 1}, {LPS, 2}, {PTYN, 2}, {EON, 2}, {TMC_TUNE, 1.5}, {ODA_ANN, 1}, {TDC_A, 1}});
  if (r.p(0.5))  // one kind of text only
    m = mix_of({{r.pick(std::vector<int>{PS_A, PS_B, LPS, PTYN, TDC_A, EON}), 5}, {SLOW_A, 0.2}});
  usual(p, r, m);
  return p;
}
Verdict check_c05(const Plan& p, Stats& st) {
  return check_model(p, st, {"ps", "long_ps", "pty_name", "other_network.ps", "tmc.service_provider", "transparent_data.full_text",
                             "transparent_data.full_raw", "partial_ps", "partial_long_ps"});
}

Plan make_c06(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C06", seed);
  Mix m = mix_of({{RT_A, 5}, {PS_A, 0.3}});
  m.change = 0.3;
  usual(p, r, m);
  if (r.p(0.4) && !has_arg(p.argv, "-p")) p.argv.push_back("-p");
  return p;
}
Verdict check_c06(const Plan& p, Stats& st) {
  return check_model(p, st, {"radiotext", "partial_radiotext", "rt_ab"});
}

Plan make_c07(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C07", seed);
  Mix m = mix_of({{RT_A, 5}, {RTPLUS, 2}, {ODA_ANN, 1}, {ERT, 4}, {ERTPLUS, 2}});
  if (r.p(0.3)) m = mix_of({{RT_A, 6}, {RTPLUS, 2}, {ODA_ANN, 0.8}});
  if (r.p(0.3)) m = mix_of({{ERT, 6}, {ERTPLUS, 2}, {ODA_ANN, 0.8}});
  m.ann_text = r.p(0.9);
  usual(p, r, m);
  return p;
}
Verdict check_c07(const Plan& p, Stats& st) {
  return check_model(p, st, {"radiotext_plus", "ert_plus"});
}

Plan make_c08(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C08", seed);
  Mix m = mix_of({{PS_A, 4}, {EON, 1.5}, {TMC_TUNE, 0.7}, {ODA_ANN, 0.3}, {PS_B, 0.2}});
  if (r.p(0.5)) m = mix_of({{PS_A, 4}});
  usual(p, r, m);
  return p;
}
Verdict check_c08(const Plan& p, Stats& st) {
  return check_model(p, st, {"alt_frequencies_a", "alt_frequencies_b", "partial_alt_frequencies", "other_network.alt_frequencies",
                             "tmc.other_network.frequencies_khz"});
}

Plan make_c09(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C09", seed);
  Mix m = mix_of({{TMC, 6}, {ODA_ANN, 0.7}, {TMC_TUNE, 0.3}, {PS_A, 0.2}});
  m.tmc_enc = r.p(0.4);
  if (m.tmc_enc && r.p(0.7)) p.files["service_key_table.csv"] = key_file(r, 0);
  usual(p, r, m);
  if (r.p(0.1)) add_loc(p, r, 0);
  return p;
}
Verdict check_c09(const Plan& p, Stats& st) {
  return check_model(p, st, {"tmc"});
}

// A file of more than 256 segments, up to the longest there can be
Plan big_file(Plan& p, Rng& r) {
  Mix m = mix_of({{PS_A, 1}});
  m.groups = 6;
  auto g = transmit(r, m);
  unsigned size = unsigned(1280 * std::pow(128.0, r.unit()));
  if (r.p(0.2)) size = r.pick(std::vector<unsigned>{163840, 163839, 163836, 163835, 163841, 65536, 65535, 81920, 40960, 131072, 262143});
  unsigned pipe = r.below(16), toggle = r.below(2), segs = std::min(32768u, (size + 4) / 5);
  uint64_t key = r.next();
  G info;
  info.stream = r.range(1, 3);
  info.w[0] = uint16_t(0x8000 | pipe);
  info.w[1] = 0xFF7F;
  info.w[2] = uint16_t(r.below(2) << 11 | r.below(8) << 8 | r.below(64) << 2 | size >> 16);
  info.w[3] = uint16_t(size);
  g.push_back(info);
  auto seg = [&](unsigned i) {
    G x;
    x.stream = r.range(1, 3);
    uint64_t v = Rng(key + i).next();
    x.w[0] = uint16_t((0x20 | pipe) << 8 | toggle << 7 | i >> 8);
    x.w[1] = uint16_t((i & 255) << 8 | (v & 255));
    x.w[2] = uint16_t(v >> 8);
    x.w[3] = uint16_t(v >> 24);
    return x;
  };
  bool down = r.p(0.3);
  unsigned missing = r.p(0.5) ? r.below(segs) : segs - 1 - r.below(std::min(segs, 6u));
  for (unsigned k = 0; k < segs; k++) {
    unsigned i = down ? segs - 1 - k : k;
    if (i != missing) g.push_back(seg(i));
    if (r.p(0.01)) g.push_back(seg(r.below(segs)));
  }
  if (r.p(0.3)) g.push_back(info);
  g.push_back(seg(missing));
  for (int k = 0; k < 5; k++) g.push_back(seg(r.below(segs)));
  p.argv = {"-i", "hex"};
  add_groups(p, r, g, "hex", 0);
  pick_delivery(p, r);
  return p;
}

Plan make_c10(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C10", seed);
  if (r.p(0.003)) return big_file(p, r);
  Mix m = mix_of({{RFT, 6}, {CGRP, 0.1}, {PS_A, 0.3}});
  usual(p, r, m, 1.0, 0);
  return p;
}
Verdict check_c10(const Plan& p, Stats& st) {
  return check_model(p, st, {"rft"});
}

Plan make_c11(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C11", seed);
  Mix m = all_services();
  m.w[RFT] = 5;
  m.w[CGRP] = 6;
  usual(p, r, m, 1.0, 0);
  p.kind = r.p(0.5) ? "model" : "without";
  if (p.kind == "without") {
    // random words on the data streams, including ones that look like main-stream groups
    for (auto& i : p.items)
      if (i.tag && r.p(0.3)) {
        size_t k = r.below(uint32_t(p.items.size()));
        if (!p.items[k].tag && p.items[k].b.size() >= 20) i.b = "#S" + std::to_string(i.tag) + " " + p.items[k].b;
      }
    p.argv.erase(std::remove(p.argv.begin(), p.argv.end(), "-E"), p.argv.end());
    p.argv2 = p.argv;
  }
  return p;
}
Verdict check_c11(const Plan& p, Stats& st) {
  if (p.kind == "model") return check_model(p, st, {"group", "stream", "rft", "open_data_app"});
  std::string a = input_of(p), b;
  bool any = false;
  for (auto& i : p.items)
    if (i.tag)
      any = true;
    else
      b += i.b;
  Plan q = p;
  q.items.clear();
  Exec e1 = exec_of(p, a);
  Exec e2 = exec_of(q, b, true);
  Result r1 = run(e1, p, st), r2 = run(e2, p, st);
  if (!r1.clean()) return not_clean(r1);
  if (!r2.clean()) return not_clean(r2);
  st.nontrivial = any;
  st.sim_s += double(p.items.size()) * 0.0876;
  std::string main;
  for (auto& l : lines_of(r1.out)) {
    json j;
    try {
      j = json::parse(l);
    } catch (...) {
      return bad("json", "not JSON: " + clip(l));
    }
    if (j.is_object() && j.contains("group") && j["group"] == "C") {
      if (has_arg(p.argv, "-s") && (!j.contains("stream") || j["stream"] == 0)) return bad("stream", "C group without stream number: " + clip(l));
      st.c["stream_groups"]++;
      continue;
    }
    main += l + "\n";
  }
  return diff_text("without", main, r2.out, "with data streams", "without");
}

Plan make_c12(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C12", seed);
  Mix m = mix_of({{ODA_ANN, 2}, {ODA_RAW, 2}, {ERT, 2}, {DAB, 1}, {RTPLUS, 1}, {ERTPLUS, 0.5}, {TMC, 1}, {TMC_TUNE, 0.3}, {TDC_A, 0.5}, {IH_A, 0.3},
                  {RT_A, 0.5}, {LPS, 0.3}, {PS_A, 0.3}, {TDC_B, 0.3}, {IH_B, 0.3}, {CGRP, 0.2}});
  if (r.p(0.3)) m = mix_of({{ODA_ANN, 0.6}, {ERT, 5}});
  usual(p, r, m);
  return p;
}
Verdict check_c12(const Plan& p, Stats& st) {
  return check_model(p, st, {"open_data_app", "enhanced_radiotext", "dab", "unknown_oda", "radiotext_plus.item_running", "radiotext_plus.item_toggle",
                             "ert_plus.item_running", "ert_plus.item_toggle", "tmc.system_info", "tmc.other_network", "tmc.message.event_codes",
                             "in_house_data", "transparent_data.address", "long_ps"});
}

// ---------------------------------------------------------------- C13
Plan make_c13(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C13", seed);
  Mix m = all_services();
  if (r.p(0.5)) {
    for (auto& w : m.w)
      if (r.p(0.7)) w = 0;
    m.w[PS_A] += 0.3;
    m.w[ODA_ANN] += 0.3;
  }
  if (r.p(0.5)) {
    p.kind = "model";
    usual(p, r, m);
    return p;
  }
  p.kind = "swap";
  m.groups = r.range(30, 200);
  m.burst = r.range(1, 6);
  auto g = transmit(r, m);
  std::map<std::string, uint64_t> st;
  FaultMix f;
  for (auto& b : f.blk) b = r.p(0.7) ? 0.15 * r.unit() : 0;
  std::vector<G> head(g.begin(), g.begin() + 5), tail(g.begin() + 5, g.end());
  channel(r, tail, f, st);
  head.insert(head.end(), tail.begin(), tail.end());
  std::string fmt = pick_fmt(r, 0.3, 0.35);
  p.argv = {"-i", fmt};
  if (r.p(0.3)) p.argv.push_back("-p");
  if (r.p(0.3)) p.argv.push_back("-E");
  if (r.p(0.2)) p.argv.push_back("-R");
  p.argv2 = p.argv;
  bool noutput_hex = r.p(0.15);
  if (noutput_hex) {
    p.argv.push_back("-x");
    p.argv2.push_back("-x");
  }
  for (auto& x : head) {
    bool lossy = !(x.got[0] && x.got[1] && x.got[2] && x.got[3]);
    Item i;
    if (fmt == "hex") {
      auto ruin = [&](std::string l) {
        // every lost block: some digits, at least one of them unreadable
        size_t at = x.stream ? 4 : 0;
        for (int k = 0; k < 4; k++) {
          if (!x.got[k]) {
            std::string b;
            do {
              b.clear();
              for (int c = 0; c < 4; c++) b += r.p(0.4) ? "-?xG._z*"[r.below(8)] : "0123456789ABCDEFabcdef"[r.below(22)];
            } while (b.find_first_not_of("0123456789ABCDEFabcdef") == std::string::npos);
            l.replace(at + size_t(5 * k), 4, b);
          }
        }
        return l;
      };
      i.b = ruin(hex_line(x));
      if (lossy) i.b2 = ruin(hex_line(x));
    } else {
      if (x.stream) continue;
      G y = x;
      for (int k = 0; k < 4; k++)
        if (!x.got[k]) y.w[k] = r.u16();
      if (fmt == "tef") {
        i.b = tef_lines(x, r);
        if (lossy) i.b2 = tef_lines(y, r);
      } else {
        Rng r2(r.next());
        i.b = bits_faulty(x, r, 0);
        if (lossy) i.b2 = bits_faulty(y, r2, 0);
      }
    }
    p.items.push_back(i);
  }
  count_faults(p, st);
  return p;
}
Verdict check_c13(const Plan& p, Stats& st) {
  if (p.kind == "model") return check_model(p, st, {"*"});
  std::string a = input_of(p), b = input_of(p, true);
  auto o = ref::parse_opts(p.argv);
  auto ga = groups_of(o, a), gb = groups_of(o, b);
  // the two transmissions must be indistinguishable up to the blocks that were not received
  if (ga.size() != gb.size()) return ok();
  bool lossy = false;
  for (size_t i = 0; i < ga.size(); i++)
    for (int k = 0; k < 4; k++) {
      if (ga[i].b[k].got != gb[i].b[k].got || ga[i].b[k].d != gb[i].b[k].d || ga[i].b[k].err != gb[i].b[k].err || ga[i].cprime != gb[i].cprime)
        return ok();
      lossy |= !ga[i].b[k].got;
    }
  Exec e1 = exec_of(p, a), e2 = exec_of(p, b, true);
  Result r1 = run(e1, p, st), r2 = run(e2, p, st);
  if (!r1.clean()) return not_clean(r1);
  if (!r2.clean()) return not_clean(r2);
  st.nontrivial = lossy && a != b;
  st.sim_s += double(ga.size()) * 0.0876;
  return diff_text("swap", r1.out, r2.out, "lost blocks v1", "lost blocks v2");
}

// ---------------------------------------------------------------- C18
Plan make_c18(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C18", seed);
  Mix m = mix_of({{PS_A, 2}, {PS_B, 1}, {RT_A, 2}, {IH_A, 1}, {RFT, r.p(0.3) ? 1.0 : 0.0}});
  usual(p, r, m, 0.5, 0.1);
  if (!has_arg(p.argv, "-E")) p.argv.push_back("-E");
  // regimes: error-free stretches between lossy ones
  if (r.p(0.5)) {
    size_t at = 0;
    while (at < p.items.size()) {
      size_t n = 5 + r.below(40);
      bool lossy = r.p(0.5);
      for (size_t i = at; i < std::min(p.items.size(), at + n); i++)
        if (lossy && p.argv[1] == "hex" && p.items[i].b.size() >= 20) {
          size_t o = p.items[i].b[0] == '#' ? 4 : 0;
          for (size_t k = 0; k < 4; k++)
            if (r.p(0.5) && o + 5 * k + 4 <= p.items[i].b.size()) p.items[i].b.replace(o + 5 * k, 4, "----");
        }
      at += n;
    }
  }
  return p;
}
Verdict check_c18(const Plan& p, Stats& st) {
  return check_model(p, st, {"bler"});
}

// ---------------------------------------------------------------- C20
const std::vector<std::string>& zones() {
  static const std::vector<std::string> z = {"UTC",
                                             "EET-2EEST,M3.5.0/3,M10.5.0/4",
                                             "PST8PDT,M3.2.0,M11.1.0",
                                             "NZST-12NZDT,M9.5.0,M4.1.0/3",
                                             "<+0545>-5:45",
                                             "<-12>12",
                                             "<+14>-14",
                                             "LHST-10:30LHDT-11,M10.1.0,M4.1.0",
                                             "America/New_York",
                                             "Europe/Helsinki",
                                             "Asia/Kolkata",
                                             "Australia/Lord_Howe",
                                             "Pacific/Apia",
                                             ":/nonexistent",
                                             ""};
  return z;
}
Plan make_c20(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C20", seed);
  Mix m = mix_of({{CLOCK, 6}, {PS_A, 0.4}});
  usual(p, r, m);
  p.tz = r.pick(zones());
  // near daylight-saving transitions, years 1970..2100, and before the epoch
  p.t0 = int64_t(r.below(4102444800u)) * 1000000000ll;
  if (r.p(0.5)) p.t0 = (1711846800ll + r.range(-7200, 7200)) * 1000000000ll;
  return p;
}
Verdict check_c20(const Plan& p, Stats& st) {
  return check_model(p, st, {"clock_time"});
}

// ---------------------------------------------------------------- C24
Plan make_c24(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C24", seed);
  Mix m = mix_of({{TMC, 6}, {ODA_ANN, 0.8}, {PS_A, 0.1}});
  m.tmc_loc = true;
  m.tmc_enc = r.p(0.3);
  m.loc_base = r.p(0.6) ? 0 : r.pick(std::vector<int>{230, 32750, 32767, 65490, 65505, 40000});
  usual(p, r, m, 0.9, 0.05, 1);
  add_loc(p, r, r.p(0.3) ? 0 : r.range(1, 6), m.loc_base);
  int k = int(r.below(10));
  if (k == 0) p.ff.max_read = 1 + r.below(50);
  if (k == 1) p.ff.eintr_every = 2 + r.below(5);
  if (k == 2) p.ff.eio_after = r.below(3000);
  if (k == 3) {  // a file is a directory or does not exist at all
    p.argv.push_back("-l");
    p.argv.push_back("no_such_directory");
  }
  return p;
}
Verdict check_c24(const Plan& p, Stats& st) {
  std::string in = input_of(p);
  Exec e = exec_of(p, in);
  Result r = run(e, p, st);
  if (!r.clean()) return not_clean(r);
  ModelOut m = model_of(p, in, st);
  std::vector<std::string> drop;
  if (p.ff.eio_after >= 0 || m.w.open_enc) {
    // tables are only partly readable: nothing but the location details may suffer
    drop = {"tmc.message.coordinates", "tmc.message.span_from", "tmc.message.span_to", "tmc.message.road_number", "tmc.message.road_name",
            "tmc.message.location", "location_table_info"};
  }
  return compare_model(m, r.out, {"tmc", "location_table_info"}, st, drop);
}

// ---------------------------------------------------------------- C26
std::string garbage(Rng& r, bool tef) {
  static const std::vector<std::string> fixed = {"",  "\r", "#", "# comment", "hello", "1234", "1234 5678", "----", "-", "%", "?", "\t", "123456789012345",
                                                 "AAAA BBBB CCCC", "0000", "S123", "T20230", "M89500", "Ss7.5,1,2", "\x80\xff", "#S1 1234 5678 9", "I0000"};
  if (r.p(0.6)) return r.pick(fixed);
  std::string s;
  int n = int(r.below(15));
  for (int i = 0; i < n; i++) {
    char c;
    do c = char(r.below(256));
    while (c == '\n' || (tef && i == 0 && (c == 'P' || c == 'R')));
    s += c;
  }
  return s;
}
Plan make_c26(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C26", seed);
  p.kind = r.p(0.6) ? "model" : "remove";
  Mix m = mix_of({{PS_A, 3}, {RT_A, 3}, {PS_B, 1}, {IH_A, 1}, {SLOW_A, 1}, {RFT, 0.5}, {CGRP, 0.5}, {RANDOM, 1}});
  m.groups = r.range(20, 150);
  auto g = transmit(r, m);
  std::map<std::string, uint64_t> st;
  channel(r, g, random_faults(r, r.range(0, 2)), st);
  bool tef = r.p(0.5);
  p.argv = {"-i", tef ? "tef" : "hex"};
  if (r.p(0.5)) p.argv.push_back("-x");
  else if (r.p(0.5)) p.argv.push_back("-R");
  double rate = r.p(0.5) ? 0.1 : 0.5;
  for (auto& x : g) {
    if (tef && x.stream) continue;
    std::string b = tef ? tef_lines(x, r) : hex_line_style(x, r);
    // split TEF lines so that garbage can fall between them
    std::vector<std::string> ls;
    size_t at = 0;
    while (at < b.size()) {
      size_t q = b.find('\n', at);
      ls.push_back(b.substr(at, q - at + 1));
      at = q + 1;
    }
    for (auto& l : ls) {
      if (r.p(rate)) {
        Item i;
        i.b = garbage(r, tef) + "\n";
        i.tag = 9;
        p.items.push_back(i);
        st["garbage_line"]++;
      }
      Item i;
      i.b = l;
      if (p.kind == "model" && r.p(0.15)) {  // damage the line itself
        st["line_damaged"]++;
        int k = int(r.below(5));
        size_t n = i.b.size() - 1;
        if (k == 0)
          i.b = i.b.substr(0, r.below(uint32_t(n + 1))) + "\n";
        else if (k == 1)
          i.b[r.below(uint32_t(n))] = "-xG zR+ "[r.below(8)];
        else if (k == 2)
          i.b.erase(r.below(uint32_t(n)), 1 + r.below(3)), i.b = i.b.substr(0, i.b.find('\n')) + "\n";
        else if (k == 3)
          i.b.insert(r.below(uint32_t(n)), std::string(1 + r.below(3), " 0-x"[r.below(4)]));
        else
          i.b = i.b.substr(0, n) + i.b;  // lines run together
      }
      p.items.push_back(i);
    }
  }
  if (r.p(0.2) && !p.items.empty() && !p.items.back().b.empty()) p.items.back().b.pop_back();  // no newline at the end
  pick_delivery(p, r);
  p.argv2 = p.argv;
  count_faults(p, st);
  return p;
}
Verdict check_c26(const Plan& p, Stats& st) {
  if (p.kind == "model") {
    std::vector<std::string> all{"*"};
    return check_model(p, st, has_arg(p.argv, "-R") ? std::vector<std::string>{"raw_data", "pi", "group", "stream"} : all);
  }
  std::string a = input_of(p), b;
  for (auto& i : p.items)
    if (i.tag != 9) b += i.b;
  Plan q = p;
  q.items.clear();
  Exec e1 = exec_of(p, a), e2 = exec_of(q, b, true);
  Result r1 = run(e1, p, st), r2 = run(e2, p, st);
  if (!r1.clean()) return not_clean(r1);
  if (!r2.clean()) return not_clean(r2);
  st.nontrivial = a != b;
  st.sim_s += double(p.items.size()) * 0.0876;
  return diff_text("remove", r1.out, r2.out, "with garbage lines", "without");
}

// ---------------------------------------------------------------- C27, C28
Plan make_c27(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C27", seed);
  Mix m = mix_of({{EON, 6}, {PS_A, 0.3}});
  if (r.p(0.2)) m.crowd = true;
  usual(p, r, m);
  return p;
}
Verdict check_c27(const Plan& p, Stats& st) {
  return check_model(p, st, {"other_network"});
}
Plan make_c28(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C28", seed);
  Mix m = mix_of({{PS_A, 1}, {PS_B, 1}, {SLOW_A, 3}, {SLOW_B, 1}, {IH_A, 1}, {IH_B, 1}, {TDC_A, 1}, {TDC_B, 1}, {DI_B, 1}, {RANDOM, 2}, {EON, 0.3}});
  usual(p, r, m);
  return p;
}
Verdict check_c28(const Plan& p, Stats& st) {
  return check_model(p, st, {"pi", "group", "tp", "prog_type", "ta", "is_music", "di", "prog_item_number", "prog_item_started", "has_linkage", "country",
                             "language", "tmc_id", "slc_broadcaster_bits", "ews", "in_house_data", "transparent_data.address", "transparent_data.raw",
                             "transparent_data.as_text"});
}

// ---------------------------------------------------------------- C90
// NRSC-4-B annex D: call letters from the PI code. Second value: the standard leaves it open.
std::pair<std::string, bool> call_letters(unsigned pi) {
  static const std::map<unsigned, const char*> three = {
      {0x9950, "KEX"}, {0x9951, "KFH"}, {0x9952, "KFI"}, {0x9953, "KGA"}, {0x9954, "KGO"}, {0x9955, "KGU"}, {0x9956, "KGW"}, {0x9957, "KGY"},
      {0x9958, "KID"}, {0x9959, "KIT"}, {0x995A, "KJR"}, {0x995B, "KLO"}, {0x995C, "KLZ"}, {0x995D, "KMA"}, {0x995E, "KMJ"}, {0x995F, "KNX"},
      {0x9960, "KOA"}, {0x9964, "KQV"}, {0x9965, "KSL"}, {0x9966, "KUJ"}, {0x9967, "KVI"}, {0x9968, "KWG"}, {0x996B, "KYW"}, {0x996D, "WBZ"},
      {0x996E, "WDZ"}, {0x996F, "WEW"}, {0x9971, "WGL"}, {0x9972, "WGN"}, {0x9973, "WGR"}, {0x9975, "WHA"}, {0x9976, "WHB"}, {0x9977, "WHK"},
      {0x9978, "WHO"}, {0x997A, "WIP"}, {0x997B, "WJR"}, {0x997C, "WKY"}, {0x997D, "WLS"}, {0x997E, "WLW"}, {0x9981, "WOC"}, {0x9983, "WOL"},
      {0x9984, "WOR"}, {0x9988, "WWJ"}, {0x9989, "WWL"}, {0x9990, "KDB"}, {0x9991, "KGB"}, {0x9992, "KOY"}, {0x9993, "KPQ"}, {0x9994, "KSD"},
      {0x9995, "KUT"}, {0x9996, "KXL"}, {0x9997, "KXO"}, {0x9999, "WBT"}, {0x999A, "WGH"}, {0x999B, "WGY"}, {0x999C, "WHP"}, {0x999D, "WIL"},
      {0x999E, "WMC"}, {0x999F, "WMT"}, {0x99A0, "WOI"}, {0x99A1, "WOW"}, {0x99A2, "WRR"}, {0x99A3, "WSB"}, {0x99A4, "WSM"}, {0x99A5, "KBW"},
      {0x99A6, "KCY"}, {0x99A7, "KDF"}, {0x99AA, "KHQ"}, {0x99AB, "KOB"}, {0x99B3, "WIS"}, {0x99B4, "WJW"}, {0x99B5, "WJZ"}, {0x99B9, "WRC"}};
  static const std::map<unsigned, const char*> linked = {
      {1, "NPR-1"}, {2, "CBC English - Radio One"}, {3, "CBC English - Radio Two"}, {4, "CBC French => Radio-Canada - Première Chaîne"},
      {5, "CBC French => Radio-Canada - Espace Musique"}, {6, "CBC"}, {7, "CBC"}, {8, "CBC"}, {9, "CBC"},
      {10, "NPR-2"}, {11, "NPR-3"}, {12, "NPR-4"}, {13, "NPR-5"}, {14, "NPR-6"}};
  if (pi >> 12 == 0xB) {  // nationally linked; the second digit is the coverage area
    auto it = linked.find(pi & 0xFF);
    return {it == linked.end() ? "" : it->second, false};
  }
  unsigned n = pi;
  bool open = false;
  if (pi >= 0xAFA0 && pi <= 0xAFA9)
    n = (pi & 15) * 0x1000;
  else if (pi >> 8 == 0xAF)
    n = (pi & 255) * 0x100, open = n >= 0xA000;
  else if (pi >> 12 == 0xA)
    n = (pi >> 8 & 15) * 0x1000 + (pi & 255), open = n >= 0xA000;
  if (open) return {"", true};
  auto it = three.find(n);
  if (it != three.end()) return {it->second, false};
  if (n < 4096 || n > 39247) return {"", false};
  n -= 4096;
  std::string s = n < 17576 ? "K" : "W";
  n %= 17576;
  for (int d : {676, 26, 1}) s += char('A' + n / unsigned(d) % 26);
  return {s, false};
}

Plan make_c90(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C90", seed);
  std::map<std::string, uint64_t> st;
  std::vector<G> all;
  int n = r.range(2, 40);
  for (int k = 0; k < n; k++) {
    unsigned pi = r.u16();
    switch (r.below(8)) {
      case 0: pi = 0x9950 + r.below(0x100); break;
      case 1: pi = 0xA000 | (pi & 0xFFF); break;
      case 2: pi = 0xAF00 | (pi & 0xFF); break;
      case 3: pi = unsigned(r.pick(std::vector<int>{0x0FFF, 0x1000, 0x1FFF, 0x2000, 0x54A7, 0x54A8, 0x54A6, 0x54A9, 0x994F, 0x9950, 0x9EFF, 0x9F00, 0xAFA0, 0xAFA9, 0xAFAA, 0xAEFF, 0xAF00, 0xAFFF, 0xB000, 0xC001})); break;
      case 4: pi = r.pick(std::vector<unsigned>{0xB000, 0xD000, 0xE000}) | r.below(16) << 8 | r.below(20); break;
      default: break;
    }
    Mix m = mix_of({{PS_A, 2}, {RT_A, 1}, {SLOW_A, 0.5}, {RANDOM, 0.3}});
    m.groups = r.range(3, 12);
    auto g = transmit(r, m);
    for (auto& x : g) x.w[0] = uint16_t(pi);
    FaultMix f = random_faults(r, r.range(0, 2));
    f.glitch = r.p(0.3) ? 0.1 : 0;
    f.b1_runs = r.p(0.3) ? 0.05 : 0;
    channel(r, g, f, st);
    st["station_change"]++;
    all.insert(all.end(), g.begin(), g.end());
  }
  std::string fmt = pick_fmt(r, 0.7, 0.15);
  p.argv = {"-i", fmt};
  if (r.p(0.93)) p.argv.push_back("-u");
  for (const char* o : {"-p", "-R", "-E"})
    if (r.p(0.1)) p.argv.push_back(o);
  add_groups(p, r, all, fmt, 0.02);
  pick_delivery(p, r);
  count_faults(p, st);
  return p;
}
Verdict check_c90(const Plan& p, Stats& st) {
  std::string in = input_of(p);
  Exec e = exec_of(p, in);
  Result r = run(e, p, st);
  if (!r.clean()) return not_clean(r);
  ModelOut m = model_of(p, in, st);
  Verdict v = compare_model(m, r.out, {"pi"}, st);
  if (v.bad) return v;
  st.states.clear();
  bool rbds = has_arg(p.argv, "-u");
  for (auto& l : lines_of(r.out)) {
    json j = json::parse(l, nullptr, false);
    if (!j.is_object()) continue;
    bool sure = j.contains("callsign"), unsure = j.contains("callsign_uncertain");
    if (!rbds || !j.contains("pi")) {
      if (sure || unsure) return bad("callsign", "a call sign without " + std::string(rbds ? "PI: " : "-u: ") + clip(l, 300));
      continue;
    }
    unsigned pi = unsigned(std::strtoul(j["pi"].get<std::string>().c_str(), nullptr, 16));
    auto c = call_letters(pi);
    if (c.second) continue;
    bool u = pi >> 12 == 1;
    st.states.insert(pi);
    if (c.first.empty() ? sure || unsure : u ? sure || !unsure || j["callsign_uncertain"] != c.first : unsure || !sure || j["callsign"] != c.first)
      return bad("callsign", "expected " + (c.first.empty() ? "no call sign" : c.first + (u ? " (uncertain)" : "")) + ": " + clip(l, 300));
  }
  return ok();
}

}  // namespace

extern const std::vector<Prop> kModelProps;
const std::vector<Prop> kModelProps = {
    {"C04", make_c04, check_c04}, {"C05", make_c05, check_c05}, {"C06", make_c06, check_c06}, {"C07", make_c07, check_c07},
    {"C08", make_c08, check_c08}, {"C09", make_c09, check_c09}, {"C10", make_c10, check_c10}, {"C11", make_c11, check_c11},
    {"C12", make_c12, check_c12}, {"C13", make_c13, check_c13}, {"C18", make_c18, check_c18}, {"C20", make_c20, check_c20},
    {"C24", make_c24, check_c24}, {"C26", make_c26, check_c26}, {"C27", make_c27, check_c27}, {"C28", make_c28, check_c28},
    {"C90", make_c90, check_c90},
};

}  // namespace sim
