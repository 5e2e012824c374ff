#include "mpx.hpp"

#include <cmath>
#include <cstdlib>
#include <sstream>

namespace mpx {
namespace {

constexpr double kPi = 3.14159265358979323846;
constexpr double kBitRate = 1187.5;
constexpr double kFreq[4] = {57000, 66500, 71250, 76000};
constexpr int kSpan = 3;     // pulse reaches +-3 bits
constexpr int kRes = 256;    // table points per bit

// Spectrum of one half-bit impulse: cos(pi f td / 4) up to 2/td (EN 50067, 1.7). The biphase
// symbol is +impulse, -impulse half a bit later.
const std::vector<float>& pulse() {
  static const std::vector<float> t = [] {
    int n = 2 * kSpan * kRes + 1;
    std::vector<double> h(size_t(n + kRes));
    auto imp = [](double x) {  // x in bits; integral of cos(pi f/4) cos(2 pi f x) df, f in 0..2
      double s = 0;
      const int K = 200;
      for (int i = 0; i < K; i++) {
        double f = (i + 0.5) * 2.0 / K;
        s += std::cos(kPi * f / 4) * std::cos(2 * kPi * f * x);
      }
      return s * 2.0 / K;
    };
    std::vector<float> r(static_cast<size_t>(n));
    double peak = 0;
    for (int i = 0; i < n; i++) {
      double x = double(i - kSpan * kRes) / kRes;
      double v = imp(x + 0.25) - imp(x - 0.25);
      double taper = std::fabs(x) > kSpan - 0.5 ? 0.5 * (1 + std::cos(kPi * (std::fabs(x) - (kSpan - 0.5)) / 0.5)) : 1;
      r[size_t(i)] = float(v * taper);
      peak = std::max(peak, std::fabs(v));
    }
    for (auto& v : r) v = float(v / peak);
    return r;
  }();
  return t;
}

struct Bit {
  float a;  // +1/-1 after differential coding
};

void add_block(std::vector<int>& b, uint16_t d, uint32_t off) {
  uint32_t v = uint32_t(d) << 10 | (ref::checkword(d) ^ off);
  for (int k = 25; k >= 0; k--) b.push_back(v >> k & 1);
}

}  // namespace

Signal render(const Spec& sp, const std::vector<std::string>& items) {
  Signal out;
  gen::Rng r(sp.seed);
  const auto& pl = pulse();
  // the last 2*kSpan+1 bits around the current position, per stream
  struct Line {
    std::vector<std::pair<double, float>> bits;  // centre (in bit periods of the transmitter), amplitude
    size_t first{};
    int prev{};
  } line[4];
  double level = 0.03, sigma = 0.0, audio = 0.0, dc = 0.0, foff = 0.0, ppm = 0.0;
  double jump = 0;
  double bitpos = sp.bit_phase;  // transmitter time in bit periods
  double carrier = sp.phase;     // phase of the 19 kHz reference; subcarriers are locked multiples
  double frac = 0;               // samples owed
  struct Tone {
    double c{1}, s{0}, dc, ds;
    void step() {
      double x = c * dc - s * ds;
      s = c * ds + s * dc;
      c = x;
    }
    void norm() {
      double k = 1.5 - 0.5 * (c * c + s * s);
      c *= k;
      s *= k;
    }
  };
  Tone aud[6];
  for (auto& t : aud) {
    double w = 2 * kPi * (50 + 14000 * r.unit()) / sp.rate;
    t.dc = std::cos(w);
    t.ds = std::sin(w);
  }
  uint64_t n = 0;

  auto emit = [&](double bits, int mode) {  // mode 0 normal, 1 no RDS, 2 zero, 3 loud noise
    double rate_bits = kBitRate * (1 + ppm * 1e-6) / sp.rate;  // bits per sample
    double samples = bits / rate_bits + frac;
    long cnt = long(std::floor(samples));
    frac = samples - double(cnt);
    for (long i = 0; i < cnt; i++) {
      double v = dc;
      if (mode == 2) {
        out.s.push_back(0);
      } else {
        if (mode == 0) {
          for (int s = 0; s < 4; s++) {
            Line& l = line[s];
            if (l.bits.empty()) continue;
            while (l.first < l.bits.size() && l.bits[l.first].first < bitpos - kSpan) l.first++;
            float acc = 0;
            for (size_t k = l.first; k < l.bits.size() && l.bits[k].first < bitpos + kSpan; k++) {
              int x = int((bitpos - l.bits[k].first) * kRes + kSpan * kRes + 0.5);
              if (x >= 0 && x < int(pl.size())) acc += l.bits[k].second * pl[size_t(x)];
            }
            if (acc != 0) v += level * acc * std::sin(carrier * (kFreq[s] / 19000.0));
          }
        }
        if (sigma > 0) {  // sum of four uniform variables
          uint64_t x = r.next();
          v += sigma * (double((x & 0xFFFF) + (x >> 16 & 0xFFFF) + (x >> 32 & 0xFFFF) + (x >> 48)) / 65536 - 2) * 1.7320508;
        }
        if (audio > 0) {
          double mono = 0, side = 0;
          for (int k = 0; k < 6; k++) {
            aud[k].step();
            (k & 1 ? side : mono) += aud[k].s;
          }
          if ((n & 1023) == 0)
            for (auto& t : aud) t.norm();
          double sc = std::sin(carrier), cc = std::cos(carrier);
          v += audio * ((mono + side * 2 * sc * cc) / 6 + 0.1 * sc);
        }
        if (mode == 3) v = 1.8 * (r.unit() - 0.5);
        double q = std::floor(v * 32768 + 0.5);
        out.s.push_back(int16_t(q > 32767 ? 32767 : q < -32768 ? -32768 : q));
      }
      bitpos += rate_bits;
      carrier += 2 * kPi * (19000.0 + foff / 3) / sp.rate;
      // a common period of all subcarriers: 19 kHz x 12
      if (carrier > 24 * kPi) carrier -= 24 * kPi;
      n++;
    }
  };

  // bits are placed ahead of the segment that carries them, so that pulses overlap neighbours
  struct Seg {
    double bits;
    int mode;
  };
  // first pass: expand the items
  std::vector<std::vector<int>> data(4);
  struct Op {
    char c;
    double v;
    size_t nbits;
    std::vector<int> b[4];
  };
  std::vector<Op> ops;
  for (size_t it = 0; it < items.size(); it++) {
    std::istringstream ss(items[it]);
    std::string c;
    ss >> c;
    if (c.empty()) continue;
    Op o{};
    o.c = c[0];
    if (c == "G") {
      int s = 0, k = 0;
      uint16_t w[4] = {};
      bool cp = false, idle = false;
      auto fin = [&] {
        if (k == 4 && !idle && s < 4) {
          add_block(o.b[s], w[0], ref::kOffA);
          add_block(o.b[s], w[1], ref::kOffB);
          add_block(o.b[s], w[2], cp ? ref::kOffCp : ref::kOffC);
          add_block(o.b[s], w[3], ref::kOffD);
          Sent x{};
          x.stream = s;
          for (int q = 0; q < 4; q++) x.w[q] = w[q];
          x.cp = cp;
          x.item = it;
          x.t0 = -1;
          out.sent.push_back(x);
        }
        s++;
        k = 0;
        cp = idle = false;
      };
      std::string t;
      while (ss >> t) {
        if (t == "/") {
          fin();
          continue;
        }
        if (t == "-") {
          idle = true;
          continue;
        }
        if (t.back() == '\'') {
          cp = true;
          t.pop_back();
        }
        if (k < 4) w[k++] = uint16_t(strtoul(t.c_str(), nullptr, 16));
      }
      fin();
      o.nbits = 104;
    } else if (c == "B") {
      std::string t;
      ss >> t;
      for (char x : t) o.b[0].push_back(x == '1');
      o.nbits = o.b[0].size();
    } else {
      ss >> o.v;
    }
    ops.push_back(o);
  }
  // second pass: place bits in time. Positions are in bit periods; ms segments convert at the
  // nominal rate.
  {
    double pos = sp.bit_phase;
    size_t gi = 0;
    (void)gi;
    size_t si = 0;
    for (auto& o : ops) {
      if (o.c == 'G' || o.c == 'B') {
        for (int s = 0; s < 4; s++)
          for (size_t k = 0; k < o.b[s].size(); k++) {
            int d = o.b[s][k] ^ line[s].prev;
            line[s].prev = d;
            line[s].bits.push_back({pos + double(k) + 0.5, d ? 1.f : -1.f});
          }
        if (o.c == 'G') {
          for (int s = 0; s < 4; s++)
            if (!o.b[s].empty()) {
              out.sent[si].t0 = pos;
              out.sent[si].t1 = pos + 104;
              si++;
            }
        }
        pos += double(o.nbits);
      } else if (o.c == 'Z' || o.c == 'Q' || o.c == 'X') {
        pos += o.v * 1e-3 * kBitRate;
      }
    }
  }
  std::vector<std::pair<double, double>> clock;  // (bit position, seconds)
  clock.push_back({bitpos, 0});
  for (auto& o : ops) {
    switch (o.c) {
      case 'G':
      case 'B': emit(double(o.nbits), 0); break;
      case 'Z': emit(o.v * 1e-3 * kBitRate, 1); break;
      case 'Q': emit(o.v * 1e-3 * kBitRate, 2); break;
      case 'X': emit(o.v * 1e-3 * kBitRate, 3); break;
      case 'V': level = o.v; break;
      case 'S': sigma = o.v; break;
      case 'A': audio = o.v; break;
      case 'D': dc = o.v; break;
      case 'F': foff = o.v; break;
      case 'C': ppm = o.v; break;
      case 'J': jump = o.v; carrier += jump; break;
      default: break;
    }
    clock.push_back({bitpos, double(n) / sp.rate});
  }
  size_t c = 0;
  auto when = [&](double b) {
    while (c + 1 < clock.size() && clock[c + 1].first < b) c++;
    if (c + 1 >= clock.size()) return clock.back().second;
    double x0 = clock[c].first, x1 = clock[c + 1].first;
    return x1 > x0 ? clock[c].second + (clock[c + 1].second - clock[c].second) * (b - x0) / (x1 - x0) : clock[c + 1].second;
  };
  for (auto& x : out.sent) {
    c = 0;
    x.t0 = when(x.t0);
    x.t1 = when(x.t1);
  }
  out.seconds = double(n) / sp.rate;
  return out;
}

std::string bytes_of(const std::vector<int16_t>& s) {
  std::string o(s.size() * 2, '\0');
  for (size_t i = 0; i < s.size(); i++) {
    o[2 * i] = char(uint16_t(s[i]) & 255);
    o[2 * i + 1] = char(uint16_t(s[i]) >> 8);
  }
  return o;
}
std::string interleave(const std::vector<std::vector<int16_t>>& ch) {
  size_t n = SIZE_MAX;
  for (auto& c : ch) n = std::min(n, c.size());
  std::vector<int16_t> v;
  v.reserve(n * ch.size());
  for (size_t i = 0; i < n; i++)
    for (auto& c : ch) v.push_back(c[i]);
  return bytes_of(v);
}

}  // namespace mpx
