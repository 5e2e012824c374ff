// Block error control and block synchronisation: bit streams through a bit-level fault channel,
// hex output compared with the reference synchroniser, plus bounded recovery on a clean tail.
#include "common.hpp"

namespace sim {
using namespace gen;

namespace {

const uint32_t kOffWords[5] = {ref::kOffA, ref::kOffB, ref::kOffC, ref::kOffCp, ref::kOffD};

uint32_t code_word(uint16_t d, int off) {
  return uint32_t(d) << 10 | (ref::checkword(d) ^ kOffWords[off]);
}
std::string word_bits(uint32_t v, int n = 26) {
  std::string s;
  for (int k = n - 1; k >= 0; k--) s += char('0' + (v >> k & 1));
  return s;
}
std::string noise_bits(Rng& r, int n) {
  std::string s;
  for (int i = 0; i < n; i++) s += char('0' + r.below(2));
  return s;
}
G random_group(Rng& r, uint16_t pi) {
  G g;
  g.w[0] = pi;
  for (int k = 1; k < 4; k++) g.w[k] = r.u16();
  g.cp = (g.w[1] & 0x0800) && r.p(0.9);
  if (g.cp && r.p(0.8)) g.w[2] = pi;
  return g;
}
// characters that are not bits are ignored wherever they appear
std::string sprinkle(Rng& r, const std::string& s, double p) {
  if (p <= 0) return s;
  std::string o;
  for (char c : s) {
    if (r.p(p)) o += "\n\r \t,x2-_"[r.below(9)];
    if (r.p(p * 0.05)) o += '\0';
    if (r.p(p * 0.05)) o += char(0x80 + r.below(128));
    o += c;
  }
  return o;
}

// ---------------------------------------------------------------- C02
// One error pattern for a block sent with offset index off (0..4)
uint32_t error_pattern(Rng& r, uint32_t word, int off, std::map<std::string, uint64_t>& st) {
  uint32_t e = 0;
  switch (r.below(12)) {
    case 0: e = 1u << r.below(26); st["bit1"]++; break;
    case 1: e = 3u << r.below(25); st["bits2adjacent"]++; break;
    case 2: {
      uint32_t a = r.below(26), b = (a + 2 + r.below(23)) % 26;
      e = 1u << a | 1u << b;
      st["bits2apart"]++;
      break;
    }
    case 3: e = (5u + 2 * r.below(2)) << r.below(24); st["burst3"]++; break;
    case 4: e = (9u + 2 * r.below(4)) << r.below(23); st["burst4"]++; break;
    case 5: e = (17u + 2 * r.below(8)) << r.below(22); st["burst5"]++; break;
    case 6: e = uint32_t(r.next()) & 0x3FFFFFF; st["random_word"]++; break;
    case 7: {  // perfect block of another position
      int o = int((uint32_t(off) + 1 + r.below(4)) % 5);
      e = kOffWords[off] ^ kOffWords[o];
      st["wrong_offset"]++;
      break;
    }
    case 8: {  // correctable for another position only
      int o = int((uint32_t(off) + 1 + r.below(4)) % 5);
      e = kOffWords[off] ^ kOffWords[o] ^ (r.p(0.5) ? 1u << r.below(26) : 3u << r.below(25));
      st["wrong_offset_1bit"]++;
      break;
    }
    case 9: {  // a different code word with one or two bits wrong
      uint32_t w = code_word(r.u16(), off);
      e = w ^ word ^ (r.p(0.5) ? 1u << r.below(26) : 3u << r.below(25));
      st["other_word_1bit"]++;
      break;
    }
    case 10: e = 1u | 1u << 25; st["ends"]++; break;
    default: {  // only the check word hit
      e = r.below(1023) + 1;
      st["checkword"]++;
    }
  }
  return e & 0x3FFFFFF;
}

Plan make_c02(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C02", seed);
  p.kind = "hex";
  p.argv = {"-i", "bits", "-x"};
  if (r.p(0.3)) p.argv.push_back("--no-fec");
  uint16_t pi = r.u16();
  double sp = r.p(0.2) ? 0.05 : 0;
  for (int i = 0; i < 4; i++) {
    Item it;
    it.b = sprinkle(r, bits_of(random_group(r, pi)), sp);
    p.items.push_back(it);
  }
  std::map<std::string, uint64_t> st;
  double rate = r.p(0.3) ? 0.1 : r.p(0.8) ? 0.5 : 0.75;
  int n = r.range(40, 200);
  for (int i = 0; i < n; i++) {
    G g = random_group(r, pi);
    std::string s;
    for (int k = 0; k < 4; k++) {
      int off = k == 3 ? 4 : k == 2 && g.cp ? 3 : k;
      uint32_t w = code_word(g.w[k], off);
      if (r.p(rate)) w ^= error_pattern(r, w, off, st);
      s += word_bits(w);
    }
    Item it;
    it.b = sprinkle(r, s, sp);
    p.items.push_back(it);
  }
  pick_delivery(p, r);
  count_faults(p, st);
  return p;
}
Verdict check_c02(const Plan& p, Stats& st) {
  std::string in = input_of(p);
  Exec e = exec_of(p, in);
  Result res = run(e, p, st);
  if (!res.clean()) return not_clean(res);
  ModelOut m = model_of(p, in, st);
  ref::BlockSync bs;
  ref::read_bits(in, m.w.opt.fec, &bs);
  st.c["blocks_clean"] += bs.clean;
  st.c["blocks_corrected"] += bs.corrected;
  st.c["blocks_rejected"] += bs.rejected;
  Verdict v = compare_model(m, res.out, {"*"}, st);
  st.nontrivial = bs.corrected + bs.rejected > 0;
  return v;
}

// ---------------------------------------------------------------- C03
Plan make_c03(uint64_t seed) {
  Rng r(seed);
  Plan p = base_plan("C03", seed);
  p.kind = r.p(0.5) ? "live" : "model";
  p.argv = {"-i", "bits", "-x"};
  if (r.p(0.3)) p.argv.push_back("--no-fec");
  std::map<std::string, uint64_t> st;
  uint16_t pi = r.u16();
  auto add = [&](const std::string& s, int tag = 0) {
    Item it;
    it.b = s;
    it.tag = tag;
    p.items.push_back(it);
  };
  auto groups = [&](int n, double berr) {
    for (int i = 0; i < n; i++) {
      G g = random_group(r, pi);
      std::string s;
      for (int k = 0; k < 4; k++) {
        int off = k == 3 ? 4 : k == 2 && g.cp ? 3 : k;
        uint32_t w = code_word(g.w[k], off);
        if (r.p(berr)) {
          uint32_t e = uint32_t(r.next()) & 0x3FFFFFF;
          w ^= e;
          st["block_error"]++;
        }
        s += word_bits(w);
      }
      add(s);
    }
  };
  int segs = r.range(2, 9);
  for (int sgm = 0; sgm < segs; sgm++) {
    switch (r.below(11)) {
      case 0: {
        int n = r.p(0.5) ? r.range(1, 60) : r.range(60, 3000);
        while (n > 0) {
          int k = std::min(n, 104);
          add(noise_bits(r, k));
          n -= k;
        }
        st["noise"]++;
        break;
      }
      case 1: groups(r.range(1, 30), 0); break;
      case 2: groups(r.range(5, 40), r.pick(std::vector<double>{0.3, 0.6, 0.8, 0.84, 0.87, 0.9, 0.95})); break;
      case 3: {  // bit slip
        groups(r.range(1, 15), 0);
        if (!p.items.empty()) {
          std::string& b = p.items.back().b;
          int k = r.range(1, 3);
          if (r.p(0.5) && int(b.size()) > k)
            b.erase(r.below(uint32_t(b.size() - size_t(k))), size_t(k));
          else
            b.insert(r.below(uint32_t(b.size())), noise_bits(r, k));
          st["bit_slip"]++;
        }
        groups(r.range(1, 25), 0);
        break;
      }
      case 4: {  // another station, other alignment
        pi = r.u16();
        add(noise_bits(r, r.range(0, 110)));
        groups(r.range(3, 30), 0.05);
        st["station_change"]++;
        break;
      }
      case 5: {  // isolated sync words at chosen distances and orders
        int n = r.range(2, 12), off = int(r.below(4));
        for (int i = 0; i < n; i++) {
          int o = off == 3 ? 4 : off == 2 && r.p(0.3) ? 3 : off;
          add(word_bits(code_word(r.u16(), o)));
          int d = r.p(0.6) ? r.range(1, 3) : r.range(1, 9);  // blocks to the next one
          std::string fill;
          for (int k = 1; k < d; k++) {
            uint32_t w;
            do w = uint32_t(r.next()) & 0x3FFFFFF;
            while (ref::offset_of(w) >= 0);
            fill += word_bits(w);
          }
          if (r.p(0.15)) fill += noise_bits(r, r.range(1, 30));  // breaks the rhythm
          if (!fill.empty()) add(fill);
          off = r.p(0.8) ? (off + d) % 4 : int(r.below(4));
        }
        st["sparse_sync"]++;
        break;
      }
      case 6: {  // constant bits
        add(std::string(size_t(r.range(26, 600)), r.p(0.5) ? '0' : '1'));
        st["stuck_bits"]++;
        break;
      }
      case 7: {  // inverted polarity
        size_t at = p.items.size();
        groups(r.range(3, 15), 0);
        for (; at < p.items.size(); at++)
          for (auto& c : p.items[at].b) c = c == '0' ? '1' : '0';
        st["inverted"]++;
        break;
      }
      case 8: {  // exactly k bad blocks in a window, around the threshold of 42 of 50
        int k = r.range(38, 46);
        std::vector<int> badblk(50, 0);
        for (int i = 0; i < k; i++) badblk[size_t(i)] = 1;
        for (size_t i = 49; i > 0; i--) std::swap(badblk[i], badblk[r.below(uint32_t(i + 1))]);
        groups(13, 0);
        size_t q = 0;
        for (int rep = 0; rep < 2; rep++)
          for (int i = 0; i < 13; i++) {
            G g = random_group(r, pi);
            std::string s;
            for (int b = 0; b < 4; b++) {
              int off = b == 3 ? 4 : b == 2 && g.cp ? 3 : b;
              uint32_t w = code_word(g.w[b], off);
              if (badblk[q++ % 50]) w ^= r.p(0.5) ? 1u << r.below(26) : uint32_t(r.next()) & 0x3FFFFFF;
              s += word_bits(w);
            }
            add(s);
          }
        st["threshold"]++;
        groups(r.range(2, 10), 0);
        break;
      }
      case 9: {  // two stations alternating in the middle of groups
        for (int i = 0; i < 10; i++) {
          std::string s = bits_of(random_group(r, pi)), t = bits_of(random_group(r, uint16_t(~pi)));
          size_t c = r.below(104);
          add(s.substr(0, c) + t.substr(r.below(104)));
        }
        st["interleaved"]++;
        break;
      }
      default: {  // many short gaps
        for (int i = 0; i < 8; i++) {
          groups(r.range(1, 3), 0);
          add(noise_bits(r, r.range(1, 25)));
        }
        st["gaps"]++;
      }
    }
  }
  if (p.kind == "live") {
    // clean channel from here on
    pi = r.u16();
    for (int i = 0; i < 60; i++) add(bits_of(random_group(r, pi)), 7);
  } else if (r.p(0.5)) {
    for (auto& i : p.items) i.b = sprinkle(r, i.b, 0.01);
  }
  pick_delivery(p, r);
  count_faults(p, st);
  return p;
}
Verdict check_c03(const Plan& p, Stats& st) {
  std::string in = input_of(p);
  Exec e = exec_of(p, in);
  Result res = run(e, p, st);
  if (!res.clean()) return not_clean(res);
  ModelOut m = model_of(p, in, st);
  ref::BlockSync bs;
  ref::read_bits(in, m.w.opt.fec, &bs);
  st.c["locks"] += bs.locks;
  st.c["sync_losses"] += bs.losses;
  st.states.insert(fnv("sync") + bs.locks * 1000003 + bs.losses * 131 + bs.corrected * 7 + bs.rejected);
  Verdict v = compare_model(m, res.out, {"*"}, st);
  st.nontrivial = bs.locks > 0;
  if (v.bad) return v;
  if (p.kind == "live") {
    // bounded recovery, independent of the model: the second half of the clean tail is complete
    std::vector<std::string> want;
    for (auto& i : p.items)
      if (i.tag == 7) {
        if (i.b.size() != 104) return ok();
        std::string s;
        for (int k = 0; k < 4; k++) {
          uint32_t w = 0;
          for (size_t q = 0; q < 16; q++) w = w << 1 | uint32_t(i.b[size_t(26 * k) + q] - '0');
          char t[8];
          snprintf(t, sizeof t, k ? " %04X" : "%04X", w);
          s += t;
        }
        want.push_back(s);
      }
    if (want.size() < 60) return ok();
    auto got = lines_of(res.out);
    const size_t kNeed = 30;
    if (got.size() < kNeed) return bad("live", "only " + std::to_string(got.size()) + " groups");
    for (size_t i = 0; i < kNeed; i++)
      if (got[got.size() - kNeed + i] != want[want.size() - kNeed + i])
        return bad("live", "not resynchronised 30 groups after the channel became clean: expected " + want[want.size() - kNeed + i] + " got " +
                               clip(got[got.size() - kNeed + i]));
    st.c["recovered"]++;
  }
  return ok();
}

}  // namespace

extern const std::vector<Prop> kBitsProps;
const std::vector<Prop> kBitsProps = {{"C02", make_c02, check_c02}, {"C03", make_c03, check_c03}};

}  // namespace sim
