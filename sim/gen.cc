#include "gen.hpp"

#include <algorithm>
#include <cmath>
#include <deque>

#include "ref.hpp"

namespace gen {

double Rng::gauss() {
  double u = unit(), v = unit();
  if (u < 1e-300) u = 1e-300;
  return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
}

Mix mix_of(std::initializer_list<std::pair<int, double>> l) {
  Mix m;
  for (auto& x : l) m.w[x.first] = x.second;
  return m;
}

namespace {

using Bytes = std::vector<uint8_t>;

uint8_t rds_char(Rng& r, int cs) {
  if (cs == 0 || r.p(cs == 1 ? 0.9 : 0.5)) {
    if (r.p(0.2)) return 0x20;
    return uint8_t(r.range(0x21, 0x7E));
  }
  if (cs == 2 && r.p(0.1)) return uint8_t(r.below(0x20));
  return uint8_t(r.range(0x80, 0xFF));
}
Bytes rds_text(Rng& r, size_t n, int cs) {
  Bytes b(n);
  for (auto& c : b) c = rds_char(r, cs);
  if (r.p(0.25))  // trailing spaces
    for (size_t i = n - r.below(uint32_t(n / 2 + 1)); i < n; i++) b[i] = 0x20;
  return b;
}
void put_cp(Bytes& b, uint32_t u) {
  if (u < 0x80) {
    b.push_back(uint8_t(u));
  } else if (u < 0x800) {
    b.push_back(uint8_t(0xC0 | u >> 6));
    b.push_back(uint8_t(0x80 | (u & 63)));
  } else if (u < 0x10000) {
    b.push_back(uint8_t(0xE0 | u >> 12));
    b.push_back(uint8_t(0x80 | (u >> 6 & 63)));
    b.push_back(uint8_t(0x80 | (u & 63)));
  } else {
    b.push_back(uint8_t(0xF0 | u >> 18));
    b.push_back(uint8_t(0x80 | (u >> 12 & 63)));
    b.push_back(uint8_t(0x80 | (u >> 6 & 63)));
    b.push_back(uint8_t(0x80 | (u & 63)));
  }
}
Bytes utf8_text(Rng& r, size_t maxbytes, int cs) {
  Bytes b;
  size_t want = 1 + r.below(uint32_t(maxbytes));
  while (b.size() < want) {
    Bytes c;
    if (cs == 2 && r.p(0.03))
      c.push_back(uint8_t(r.range(0x80, 0xFF)));  // broken sequence
    else if (cs == 0 || r.p(0.7))
      c.push_back(uint8_t(r.p(0.15) ? 0x20 : r.range(0x21, 0x7E)));
    else if (r.p(0.6))
      put_cp(c, uint32_t(r.range(0xA1, 0x7FF)));
    else if (r.p(0.7))
      put_cp(c, uint32_t(r.range(0x800, 0xD7FF)));
    else
      put_cp(c, uint32_t(r.range(0x10000, 0x1FFFF)));
    if (b.size() + c.size() > maxbytes) break;
    b.insert(b.end(), c.begin(), c.end());
  }
  if (b.empty()) b.push_back('x');
  return b;
}

// A text sent in segments of `seg` bytes
struct Seg {
  size_t seg{2}, full{8};
  Bytes t;
  size_t at{};   // next segment
  size_t n{};    // number of segments sent per cycle
  bool ab{};
  void start(Bytes b, size_t segs) {
    t = std::move(b);
    t.resize(full + 4, 0x20);
    n = segs;
    at = 0;
  }
  // returns segment number to send and advances
  size_t next(Rng& r, const Mix& m, bool* wrapped) {
    if (r.p(m.restart * 0.3)) at = 0;
    if (r.p(m.skip)) at = r.below(uint32_t(n));
    size_t k = at;
    at = (at + 1) % n;
    *wrapped = at == 0;
    return k;
  }
};

struct TmcTx {
  std::vector<std::array<uint16_t, 3>> parts;  // x y z
  size_t at{};
  int rep{1}, done{};
};

struct RftTx {
  Bytes f;
  bool toggle{};
  bool announced{};
  std::vector<uint32_t> order;
  size_t at{};
};

struct Tx {
  Rng& r;
  const Mix& m;
  uint16_t pi;
  int pty;
  bool tp;
  Seg ps, rt, rtb, ptyn, lps, tdc, ert, tmcps;
  bool rt_is_b{};
  std::vector<uint8_t> afc;
  size_t afp{};
  // EON
  struct On {
    uint16_t pi;
    Seg ps;
    std::vector<uint8_t> afc;
    size_t afp{};
    bool tp;
  };
  std::vector<On> on;
  // ODA
  std::map<uint16_t, int> oda;  // aid -> group type (number<<1|B)
  bool ert_utf8{true};
  int ann_rep{};
  bool plus_toggle{}, plus_run{true}, eplus_toggle{}, eplus_run{true};
  // TMC
  bool enc{};
  int encid{1}, ltn{1}, sid{1};
  std::deque<TmcTx> q;
  unsigned ci{1};
  std::vector<std::pair<int, RftTx>> rft;
  std::vector<G> pend;  // groups to send before anything else

  Tx(Rng& rr, const Mix& mm) : r(rr), m(mm) {
    do {
      pi = r.u16();
    } while (pi == 0);
    if (r.p(0.1)) pi = r.pick(std::vector<uint16_t>{0x0001, 0x1000, 0xFFFF, 0x6201, 0x4000, 0xA1B0, 0x0100});
    pty = int(r.below(32));
    tp = r.p(0.5);
    ps.seg = 2, ps.full = 8;
    rt.seg = 4, rt.full = 64;
    rtb.seg = 2, rtb.full = 32;
    ptyn.seg = 4, ptyn.full = 8;
    lps.seg = 4, lps.full = 32;
    tdc.seg = 4, tdc.full = 128;
    ert.seg = 4, ert.full = 128;
    tmcps.seg = 4, tmcps.full = 8;
    new_ps();
    new_rt(false);
    new_ptyn();
    new_lps();
    new_tdc();
    new_ert();
    tmcps.start(rds_text(r, 8, m.charset), 2);
    new_af();
    int k = m.crowd ? r.range(4, 40) : r.range(1, 3);
    for (int i = 0; i < k; i++) {
      On o;
      o.pi = r.u16();
      if (i && r.p(0.3)) o.pi = uint16_t(on[0].pi ^ (1u << r.below(16)));
      o.ps.seg = 2, o.ps.full = 8;
      o.ps.start(rds_text(r, 8, m.charset), 4);
      o.afc = af_codes(false);
      o.tp = r.p(0.5);
      on.push_back(o);
    }
    ert_utf8 = r.p(0.6);
    assign();
    ltn = r.p(0.6) ? 1 : r.range(1, 63);
    encid = r.range(0, 5);
    enc = m.tmc_enc && r.p(0.5);
    int np = m.crowd ? r.range(4, 16) : r.range(1, 3);
    for (int i = 0; i < np; i++) {
      rft.push_back({int(r.below(16)), RftTx()});
      new_file(rft.back().second);
    }
  }
  void assign() {
    static const std::vector<int> free_types = {11 << 1,     12 << 1,     13 << 1,     5 << 1,      6 << 1,      7 << 1,
                                                9 << 1,      3 << 1 | 1,  4 << 1 | 1,  6 << 1 | 1,  7 << 1 | 1,  8 << 1 | 1,
                                                9 << 1 | 1,  10 << 1 | 1, 11 << 1 | 1, 12 << 1 | 1, 13 << 1 | 1, 5 << 1 | 1,
                                                8 << 1,      15 << 1};
    static const std::vector<uint16_t> others = {0x0093, 0x0BCB, 0x1DC2, 0xABCF, 0xCD9E, 0x4AA1, 0x7373, 0x6A7A};
    oda.clear();
    std::vector<int> t = free_types;
    auto take = [&] {
      size_t i = r.below(uint32_t(t.size()));
      int v = t[i];
      if (!r.p(0.1)) t.erase(t.begin() + long(i));
      return v;
    };
    oda[0x4BD7] = take();
    oda[0x4BD8] = take();
    oda[0x6552] = take();
    oda[0x0093] = take();
    oda[r.p(0.5) ? 0xCD46 : 0xCD47] = r.p(0.8) ? 8 << 1 : take();
    oda[r.p(0.3) ? r.u16() : r.pick(others)] = take();
    if (r.p(0.2)) oda[r.u16()] = r.pick(std::vector<int>{0, 1, 2, 4, 6, 8, 20, 28, 29, 31});  // not allowed
  }
  uint16_t b2(int n, bool B, unsigned low) const {
    return uint16_t(n << 12 | (B ? 0x800 : 0) | (tp ? 0x400 : 0) | pty << 5 | (low & 31));
  }
  G grp(int n, bool B, unsigned low, uint16_t w3, uint16_t w4) {
    G g;
    g.w[0] = pi;
    g.w[1] = b2(n, B, low);
    g.w[2] = B ? pi : w3;
    g.w[3] = w4;
    g.cp = B;
    return g;
  }
  static uint16_t pair(const Bytes& t, size_t p) {
    return uint16_t(t[p] << 8 | t[p + 1]);
  }
  void new_ps() {
    ps.start(rds_text(r, 8, m.charset), 4);
  }
  void new_rt(bool toggle) {
    if (toggle) rt.ab = rtb.ab = !rt.ab;
    if (r.p(0.1)) rt_is_b = !rt_is_b;
    Seg& s = rt_is_b ? rtb : rt;
    bool abv = rt.ab;
    size_t len = 1 + r.below(uint32_t(s.full));
    if (r.p(0.5)) len = 1 + r.below(uint32_t(s.full / 4));
    Bytes t = rds_text(r, len, m.charset);
    for (auto& c : t)
      if (c == 0x0D && r.p(0.8)) c = 0x20;
    int style = int(r.below(4));
    size_t segs = s.full / s.seg;
    if (style == 0 && len < s.full) {  // terminated
      t.push_back(0x0D);
      segs = (t.size() + s.seg - 1) / s.seg;
    } else if (style == 1) {  // padded to full length
    } else if (style == 2) {  // unterminated short
      segs = (t.size() + s.seg - 1) / s.seg;
    } else if (len < s.full) {  // terminated, but the rest is still sent
      t.push_back(0x0D);
    }
    // changes sharing a prefix with the old text are interesting
    if (!s.t.empty() && r.p(0.3)) {
      size_t keep = r.below(uint32_t(std::min(t.size(), s.t.size())));
      std::copy(s.t.begin(), s.t.begin() + long(keep), t.begin());
    }
    s.start(t, segs ? segs : 1);
    rt.ab = rtb.ab = abv;
  }
  void new_ptyn() {
    ptyn.start(rds_text(r, 8, m.charset), 2);
    if (r.p(0.5)) ptyn.ab = !ptyn.ab;
  }
  void new_lps() {
    Bytes t = utf8_text(r, 32, m.charset);
    size_t segs = 8;
    if (t.size() < 32 && r.p(0.7)) {
      t.push_back(0x0D);
      segs = (t.size() + 3) / 4;
    }
    lps.start(t, segs);
  }
  void new_tdc() {
    Bytes t = rds_text(r, 1 + r.below(r.p(0.7) ? 16 : 127), m.charset);
    size_t segs = 32;
    if (r.p(0.8) && t.size() < 128) {
      t.push_back(0x0D);
      segs = (t.size() + 3) / 4;
    }
    tdc.start(t, segs);
  }
  void new_ert() {
    Bytes t;
    size_t segs = 32;
    if (ert_utf8) {
      t = utf8_text(r, r.p(0.7) ? 24 : 127, m.charset);
      if (t.size() < 128 && r.p(0.9)) {
        t.push_back(0x0D);
        segs = (t.size() + 3) / 4;
      }
    } else {
      int n = 1 + int(r.below(r.p(0.7) ? 10 : 63));
      for (int i = 0; i < n; i++) {
        unsigned u = unsigned(r.range(0x21, 0x7E));
        if (r.p(0.2)) u = unsigned(r.range(0xA0, 0xD7FF));
        if (m.charset == 2 && r.p(0.01)) u = unsigned(r.range(0xD800, 0xDFFF));
        t.push_back(uint8_t(u >> 8));
        t.push_back(uint8_t(u));
      }
      if (n < 64) {
        t.push_back(0);
        t.push_back(0x0D);
        segs = (t.size() + 3) / 4;
      }
    }
    ert.start(t, segs);
  }
  int fm() {
    return r.range(1, 204);
  }
  std::vector<uint8_t> af_codes(bool own) {
    std::vector<uint8_t> c;
    int style = int(r.below(10));
    if (style < 4 || !own) {
      int n = r.p(0.1) ? r.range(0, 25) : r.range(1, 6);
      bool lf = r.p(0.2);
      c.push_back(uint8_t(224 + n));
      for (int i = 0; i < n; i++) {
        if (lf && r.p(0.4)) {
          if (c.size() % 2 && r.p(0.5)) c.push_back(205);
          c.push_back(250);
          c.push_back(uint8_t(r.range(1, 135)));
        } else {
          c.push_back(uint8_t(fm()));
        }
      }
      if (r.p(0.1)) c.push_back(uint8_t(fm()));  // one too many
    } else if (style < 9) {
      int n = r.range(1, r.p(0.1) ? 12 : 4);
      int tuned = fm();
      c.push_back(uint8_t(224 + 2 * n + 1));
      c.push_back(uint8_t(tuned));
      std::vector<int> used;
      for (int i = 0; i < n; i++) {
        int f = fm();
        if (!used.empty() && r.p(0.1)) f = used[r.below(uint32_t(used.size()))];
        used.push_back(f);
        bool asc = r.p(0.6);
        int a = std::min(f, tuned), b = std::max(f, tuned);
        if (!asc) std::swap(a, b);
        c.push_back(uint8_t(a));
        c.push_back(uint8_t(b));
      }
    } else {
      int n = r.range(2, 10);
      for (int i = 0; i < n; i++)
        c.push_back(uint8_t(r.p(0.5) ? r.below(256) : r.pick(std::vector<int>{0, 1, 204, 205, 206, 223, 224, 225, 226, 227, 249, 250, 251, 255, 135, 136, 15, 16})));
    }
    if (r.p(0.05) && !c.empty()) c[r.below(uint32_t(c.size()))] = uint8_t(r.below(256));
    if (c.size() % 2) c.push_back(205);
    return c;
  }
  void new_af() {
    afc = af_codes(true);
    afp = 0;
  }
  uint16_t next_af() {
    uint16_t v = uint16_t(afc[afp] << 8 | afc[afp + 1]);
    afp += 2;
    if (afp + 1 >= afc.size()) {
      afp = 0;
      if (r.p(0.4)) new_af();
    }
    return v;
  }
  void new_file(RftTx& t) {
    int n = r.p(0.1) ? r.range(1, 400) : r.range(1, 45);
    if (r.p(0.2)) n = 5 * r.range(1, 6);
    t.f.resize(size_t(n));
    for (auto& b : t.f) b = uint8_t(r.next());
    t.toggle = r.p(0.8) ? !t.toggle : t.toggle;
    t.announced = r.p(0.1);
    reorder(t);
  }
  void reorder(RftTx& t) {
    t.order.clear();
    size_t k = (t.f.size() + 4) / 5;
    for (uint32_t i = 0; i < k; i++) t.order.push_back(i);
    if (r.p(0.3))
      for (size_t i = k; i > 1; i--) std::swap(t.order[i - 1], t.order[r.below(uint32_t(i))]);
    t.at = 0;
  }
  // ---- TMC
  void new_tmc() {
    static const std::vector<int> ev_any = {101, 102, 108, 115, 1, 2, 201, 401, 402, 500, 601, 701, 702, 703, 840, 1001, 1101, 1110, 1301,
                                            1601, 1801, 1805, 2033, 2047, 802, 804, 1702, 1703, 1974, 118, 124, 303, 213, 1332, 12, 70, 91};
    auto event = [&] { return r.p(0.6) ? r.pick(ev_any) : int(r.below(2048)); };
    auto loc = [&] { return uint16_t(m.tmc_loc && r.p(0.85) ? m.loc_base + r.range(1, 30) : r.u16()); };
    TmcTx t;
    t.rep = r.range(1, 3);
    unsigned dir = r.below(2), ext = r.p(0.6) ? r.below(4) : r.below(8);
    if (r.p(0.35)) {
      t.parts.push_back({uint16_t(8 | r.below(8)), uint16_t(r.below(2) << 15 | dir << 14 | ext << 11 | unsigned(event())), loc()});
    } else {
      ci = ci % 6 + 1;
      if (r.p(0.1)) ci = 1 + r.below(7);
      int groups = r.range(2, 5);
      std::vector<bool> fb;
      auto put = [&](unsigned v, int n) {
        for (int i = n - 1; i >= 0; i--) fb.push_back(v >> i & 1);
      };
      static const int size[16] = {3, 3, 5, 5, 5, 8, 8, 8, 8, 11, 16, 16, 16, 16, 0, 0};
      size_t cap = size_t(groups - 1) * 28;
      while (true) {
        int l = int(r.below(16));
        if (r.p(0.3)) l = r.pick(std::vector<int>{4, 5, 9, 6});
        if (fb.size() + 4 + size_t(size[l]) > cap) {
          if (r.p(0.5)) break;
          if (fb.size() + 12 > cap) break;
          continue;
        }
        unsigned d = uint32_t(r.next()) & ((1u << size[l]) - 1);
        if (l == 9) d = unsigned(event());
        if (l == 5 && r.p(0.1)) d = r.below(4);
        put(unsigned(l), 4);
        put(d, size[l]);
        if (l == 0 && d == 0) break;
      }
      fb.resize(cap);
      t.parts.push_back({uint16_t(ci), uint16_t(0x8000 | dir << 14 | ext << 11 | unsigned(event())), loc()});
      for (int k = 0; k < groups - 1; k++) {
        unsigned v = 0;
        for (int i = 0; i < 28; i++) v = v << 1 | unsigned(fb[size_t(k * 28 + i)]);
        int gsi = groups - 2 - k;
        t.parts.push_back({uint16_t(ci), uint16_t((k == 0 ? 0x4000 : 0) | gsi << 12 | (v >> 16)), uint16_t(v)});
      }
    }
    q.push_back(t);
  }
  G tmc_group(uint16_t x, uint16_t y, uint16_t z) {
    int t = 8 << 1;
    for (auto& o : oda)
      if (o.first == 0xCD46 || o.first == 0xCD47) t = o.second;
    if (t & 1 || t == 15 << 1 || r.p(0.02)) t = 8 << 1;
    return grp(t >> 1, t & 1, x, y, z);
  }
  G announce(uint16_t aid, int type) {
    uint16_t msg = r.u16();
    if (aid == 0x6552) {
      msg = uint16_t((msg & ~1u) | (ert_utf8 ? 1 : 0));
    } else if (aid == 0xCD46 || aid == 0xCD47) {
      int v = r.p(0.6) ? 0 : r.range(1, 3);
      if (v == 0)
        msg = uint16_t((enc ? 0 : ltn) << 6 | (r.u16() & 0x3F));
      else if (v == 1)
        msg = uint16_t(1 << 14 | r.below(4) << 12 | unsigned(sid) << 6 | r.below(64));
      else
        msg = uint16_t(v << 14 | (r.u16() & 0x3FFF));
    }
    return grp(3, false, unsigned(type), msg, aid);
  }
  uint16_t aid_of(uint16_t a) {
    return a;
  }
  G carried(uint16_t aid, unsigned low, uint16_t w3, uint16_t w4) {
    int t = oda.count(aid) ? oda[aid] : 11 << 1;
    if (r.p(0.02)) t = int(r.below(32));
    return grp(t >> 1, t & 1, low, w3, w4);
  }
  G next(int svc);
};

static bool is_text_app(uint16_t a) {
  return a == 0x4BD7 || a == 0x4BD8 || a == 0x6552;
}

G Tx::next(int svc) {
  bool wrap = false;
  auto maybe = [&](Seg& s, auto fn) {
    if (wrap ? r.p(m.change) : r.p(m.midchange)) {
      bool mid = !wrap;
      size_t at = s.at;
      fn();
      if (mid && r.p(0.7) && s.n) s.at = at % s.n;
    }
  };
  switch (svc) {
    case PS_A:
    case PS_B: {
      size_t k = ps.next(r, m, &wrap);
      unsigned low = unsigned(k) | (r.below(8) << 2);
      G g = grp(0, svc == PS_B, low, svc == PS_B ? 0 : next_af(), pair(ps.t, 2 * k));
      maybe(ps, [&] { new_ps(); });
      return g;
    }
    case SLOW_A:
    case SLOW_B: {
      uint16_t pin = r.p(0.3) ? 0 : r.p(0.7) ? uint16_t(r.range(0, 31) << 11 | r.range(0, 25) << 6 | r.range(0, 61)) : r.u16();
      return grp(1, svc == SLOW_B, r.below(32), r.u16(), pin);
    }
    case RT_A:
    case RT_B: {
      Seg& s = rt_is_b ? rtb : rt;
      bool B = rt_is_b;
      size_t k = s.next(r, m, &wrap);
      unsigned low = unsigned(k) | (rt.ab ? 16 : 0);
      G g = B ? grp(2, true, low, 0, pair(s.t, 2 * k)) : grp(2, false, low, pair(s.t, 4 * k), pair(s.t, 4 * k + 2));
      maybe(s, [&] { new_rt(r.p(0.7)); });
      return g;
    }
    case ODA_ANN: {
      if (r.p(0.03)) assign();
      if (r.p(0.02)) ert_utf8 = !ert_utf8, new_ert();
      if (r.p(0.03) && m.tmc_enc) enc = !enc;
      if (r.p(0.03)) ltn = r.p(0.5) ? 1 : r.range(1, 63);
      auto it = oda.begin();
      std::advance(it, r.below(uint32_t(oda.size())));
      if (r.p(0.02)) return announce(r.u16(), int(r.below(32)));
      for (int tries = 0; m.ann_text && tries < 6 && !is_text_app(it->first); tries++) {
        it = oda.begin();
        std::advance(it, r.below(uint32_t(oda.size())));
      }
      return announce(it->first, it->second);
    }
    case CLOCK: {
      int mode = int(r.below(8));
      unsigned mjd = unsigned(r.range(15079, 88068));
      if (mode == 0) mjd = r.below(1u << 17);
      if (mode == 1) mjd = r.pick(std::vector<unsigned>{15078, 15079, 15080, 15020, 40587, 40586, 51544, 60310, 60368, 60369, 73050, 88127, 88128, 88129, 131071, 0});
      unsigned h = mode == 2 ? r.below(32) : r.below(24), mi = mode == 3 ? r.below(64) : r.below(60);
      if (r.p(0.15)) h = r.pick(std::vector<unsigned>{0, 23, 22, 1}), mi = r.pick(std::vector<unsigned>{0, 59, 29, 30});
      unsigned off = r.p(0.7) ? r.below(29) : r.below(32), sg = r.below(2);
      return grp(4, false, (mjd >> 15) | (r.below(8) << 2), uint16_t(mjd << 1 | h >> 4), uint16_t(h << 12 | mi << 6 | sg << 5 | off));
    }
    case TDC_A: {
      size_t k = tdc.next(r, m, &wrap);
      G g = grp(5, false, unsigned(k), pair(tdc.t, 4 * k), pair(tdc.t, 4 * k + 2));
      maybe(tdc, [&] { new_tdc(); });
      return g;
    }
    case TDC_B: return grp(5, true, r.below(32), 0, r.u16());
    case IH_A: return grp(6, false, r.below(32), r.u16(), r.u16());
    case IH_B: return grp(6, true, r.below(32), 0, r.u16());
    case TMC: {
      if (enc && r.p(0.15)) {
        if (r.p(0.3)) encid = r.range(0, 5);
        return tmc_group(0, uint16_t(r.below(8) << 13 | unsigned(sid) << 5 | unsigned(encid)), uint16_t(ltn << 10 | r.below(1024)));
      }
      if (q.empty() || (q.size() < 2 && r.p(0.1))) new_tmc();
      if (q.size() > 1 && r.p(0.3)) std::swap(q[0], q[1]);
      TmcTx& t = q.front();
      auto p = t.parts[t.at];
      if (++t.done >= t.rep || r.p(0.3)) {
        t.done = 0;
        if (++t.at >= t.parts.size()) {
          TmcTx copy = t;
          q.pop_front();
          if (r.p(0.2)) {
            copy.at = 0;
            q.push_back(copy);
          }
        }
      }
      return tmc_group(p[0], p[1], p[2]);
    }
    case TMC_TUNE: {
      int v = r.pick(std::vector<int>{4, 5, 4, 5, 6, 8, 9, 0, 7});
      if (v == 4 || v == 5) {
        size_t k = tmcps.next(r, m, &wrap);
        G g = tmc_group(uint16_t(16 | (4 + k)), pair(tmcps.t, 4 * k), pair(tmcps.t, 4 * k + 2));
        maybe(tmcps, [&] { tmcps.start(rds_text(r, 8, m.charset), 2); });
        return g;
      }
      if (v == 6) return tmc_group(16 | 6, r.p(0.3) ? uint16_t(r.range(224, 250) << 8 | fm()) : uint16_t(fm() << 8 | fm()), r.u16());
      uint16_t y = r.u16(), z = r.p(0.3) ? y : r.p(0.3) ? 0 : r.u16();
      return tmc_group(uint16_t(16 | v), y, z);
    }
    case PTYN: {
      size_t k = ptyn.next(r, m, &wrap);
      G g = grp(10, false, unsigned(k) | (ptyn.ab ? 16 : 0) | (r.below(8) << 1), pair(ptyn.t, 4 * k), pair(ptyn.t, 4 * k + 2));
      maybe(ptyn, [&] { new_ptyn(); });
      return g;
    }
    case EON: {
      On& o = on[r.below(uint32_t(on.size()))];
      if (r.p(0.1)) return grp(14, true, (o.tp ? 16 : 0) | r.below(16), 0, o.pi);
      int what = int(r.below(10));
      unsigned v;
      uint16_t c = r.u16();
      if (what < 5) {
        v = unsigned(o.ps.next(r, m, &wrap));
        c = pair(o.ps.t, 2 * v);
        maybe(o.ps, [&] { o.ps.start(rds_text(r, 8, m.charset), 4); });
      } else if (what < 8) {
        v = 4;
        c = uint16_t(o.afc[o.afp] << 8 | o.afc[o.afp + 1]);
        o.afp += 2;
        if (o.afp + 1 >= o.afc.size()) {
          o.afp = 0;
          if (r.p(0.4)) o.afc = af_codes(false);
        }
      } else {
        v = 5 + r.below(11);
        if (r.p(0.1)) c = 0;
      }
      return grp(14, false, v | (o.tp ? 16 : 0), c, o.pi);
    }
    case LPS: {
      size_t k = lps.next(r, m, &wrap);
      G g = grp(15, false, unsigned(k) | (r.below(4) << 3), pair(lps.t, 4 * k), pair(lps.t, 4 * k + 2));
      maybe(lps, [&] { new_lps(); });
      return g;
    }
    case DI_B: {
      uint16_t x = uint16_t(r.below(32));
      G g = grp(15, true, x, 0, 0);
      g.w[3] = g.w[1];
      return g;
    }
    case RTPLUS:
    case ERTPLUS: {
      bool e = svc == ERTPLUS;
      bool& tg = e ? eplus_toggle : plus_toggle;
      bool& rn = e ? eplus_run : plus_run;
      if (r.p(0.06)) tg = !tg;
      if (r.p(0.03)) rn = !rn;
      const Seg& txt = e ? ert : rt_is_b ? rtb : rt;
      size_t len = 0;
      while (len < txt.full && txt.t[len] != 0x0D) len++;
      if (e && !ert_utf8) len /= 2;
      auto pos = [&] { return r.p(0.85) ? r.below(uint32_t(len + 1)) & 63 : r.below(64); };
      unsigned c1 = r.p(0.9) ? r.below(64) : 0, s1 = pos(), l1 = r.p(0.8) ? r.below(uint32_t(len > s1 ? len - s1 + 1 : 4)) & 63 : r.below(64);
      unsigned c2 = r.p(0.9) ? r.below(64) : 0, s2 = pos(), l2 = r.p(0.8) ? r.below(uint32_t(len > s2 ? len - s2 + 1 : 4)) & 31 : r.below(32);
      unsigned low = (tg ? 16u : 0u) | (rn ? 8u : 0u) | (c1 >> 3);
      uint16_t w3 = uint16_t((c1 & 7) << 13 | s1 << 7 | l1 << 1 | c2 >> 5);
      uint16_t w4 = uint16_t((c2 & 31) << 11 | s2 << 5 | l2);
      return carried(e ? 0x4BD8 : 0x4BD7, low, w3, w4);
    }
    case ERT: {
      size_t k = ert.next(r, m, &wrap);
      G g = carried(0x6552, unsigned(k), pair(ert.t, 4 * k), pair(ert.t, 4 * k + 2));
      maybe(ert, [&] { new_ert(); });
      return g;
    }
    case DAB: {
      static const std::vector<unsigned> f = {174928, 176640, 178352, 180064, 181936, 183648, 185360, 187072, 188928, 190640, 192352, 194064, 195936, 197648, 199360, 201072, 202928, 204640, 206352, 208064, 209936, 211648, 213360, 215072, 216928, 218640, 220352, 222064, 223936, 225648, 227360, 229072, 230784, 232496, 234208, 235776, 237488, 239200, 1452960, 1454672, 1456384, 1458096, 1459808, 1461520, 1463232, 1464944, 1466656, 1468368, 1470080, 1471792, 1473504, 1475216, 1476928, 1478640, 1480352, 1482064, 1483776, 1485488, 1487200, 1488912, 1490624};
      unsigned k = r.p(0.7) ? r.pick(f) / 16 : r.below(1u << 18);
      return carried(0x0093, (r.p(0.2) ? 16 : 0) | r.below(4) << 2 | (k >> 16), uint16_t(k), r.u16());
    }
    case ODA_RAW: {
      if (r.p(0.5)) {
        auto it = oda.begin();
        std::advance(it, r.below(uint32_t(oda.size())));
        return grp(it->second >> 1, it->second & 1, r.below(32), r.u16(), r.u16());
      }
      static const std::vector<int> t = {3 << 1 | 1, 4 << 1 | 1, 7 << 1, 7 << 1 | 1, 8 << 1, 8 << 1 | 1, 9 << 1, 9 << 1 | 1, 10 << 1 | 1, 22, 23, 24, 25, 26, 27};
      int x = r.pick(t);
      return grp(x >> 1, x & 1, r.below(32), r.u16(), r.u16());
    }
    case RFT: {
      auto& pr = rft[r.below(uint32_t(rft.size()))];
      RftTx& t = pr.second;
      int p = pr.first;
      G g;
      g.stream = r.range(1, 3);
      if (!t.announced || r.p(0.05)) {
        unsigned size = unsigned(t.f.size());
        g.w[0] = uint16_t(0x8000 | unsigned(p));
        g.w[1] = r.p(0.6) ? 0xFF7F : r.p(0.5) ? 0xFF80 : r.u16();
        g.w[2] = uint16_t(r.below(2) << 11 | r.below(8) << 8 | r.below(64) << 2 | size >> 16);
        g.w[3] = uint16_t(size);
        if (t.announced && r.p(0.3)) {  // CRC info
          g.w[2] = uint16_t(1 << 12 | r.below(8) << 9 | r.below(512));
          g.w[3] = r.u16();
        } else {
          t.announced = true;
        }
        return g;
      }
      uint32_t s = t.order[t.at];
      if (r.p(0.02)) s += r.below(4);
      uint8_t d[5];
      for (size_t i = 0; i < 5; i++) d[i] = s * 5 + i < t.f.size() ? t.f[s * 5 + i] : uint8_t(r.p(0.5) ? 0 : r.next());
      g.w[0] = uint16_t((0x20 | p) << 8 | (t.toggle ? 0x80 : 0) | (s >> 8 & 0x7F));
      g.w[1] = uint16_t((s & 255) << 8 | d[0]);
      g.w[2] = uint16_t(d[1] << 8 | d[2]);
      g.w[3] = uint16_t(d[3] << 8 | d[4]);
      if (++t.at >= t.order.size()) {
        if (r.p(0.5))
          new_file(t);
        else
          reorder(t);
      } else if (r.p(0.01)) {
        new_file(t);
      }
      return g;
    }
    case CGRP: {
      G g;
      g.stream = r.range(1, 3);
      for (auto& w : g.w) w = r.u16();
      int k = int(r.below(4));
      if (k == 0) g.w[0] = uint16_t(1 << 14 | r.below(64) << 8 | r.below(256));
      if (k == 1) g.w[0] = uint16_t(0x8000 | r.below(64));
      if (k == 2) g.w[0] = uint16_t(0x8000 | r.below(0x4000));
      return g;
    }
    default: {
      G g;
      int n = int(r.below(16));
      bool B = r.p(0.3);
      g = grp(n, B, r.below(32), r.u16(), r.u16());
      g.w[1] = uint16_t((g.w[1] & 0xF81F) | (r.u16() & 0x7E0));
      if (r.p(0.1)) {
        g.stream = r.range(1, 3);
        g.w[0] = r.u16();
        g.cp = false;
      }
      return g;
    }
  }
}

}  // namespace

std::vector<G> transmit(Rng& r, const Mix& m) {
  std::vector<G> out;
  std::vector<std::unique_ptr<Tx>> tx;
  for (int i = 0; i < std::max(1, m.stations); i++) {
    tx.emplace_back(new Tx(r, m));
    if (i && r.p(0.3)) tx[size_t(i)]->pi = uint16_t(tx[0]->pi ^ (1u << r.below(16)));
    if (tx.back()->pi == 0) tx.back()->pi = 0x1234;
  }
  double total = 0;
  for (double w : m.w) total += w;
  size_t cur = 0;
  int left = 0, svc = 0;
  while (int(out.size()) < m.groups) {
    if (m.retune > 0 && tx.size() > 1 && r.p(m.retune)) cur = r.below(uint32_t(tx.size()));
    if (left <= 0) {
      double x = r.unit() * total;
      svc = 0;
      while (svc < NSVC - 1 && (x -= m.w[size_t(svc)]) >= 0) svc++;
      left = 1 + int(r.below(uint32_t(2 * m.burst)));
    }
    left--;
    G g = tx[cur]->next(svc);
    g.svc = svc;
    g.station = int(cur);
    if (m.random_bits > 0 && r.p(m.random_bits)) g.w[g.stream ? r.below(4) : 1 + r.below(3)] ^= uint16_t(1u << r.below(16));
    if (g.cp && !g.stream) g.w[2] = g.w[2];
    g.right_pi = g.w[0];
    out.push_back(g);
  }
  return out;
}

FaultMix random_faults(Rng& r, int level) {
  FaultMix f;
  if (level <= 0) return f;
  double base = level == 1 ? 0.01 : level == 2 ? 0.05 : 0.15;
  for (auto& b : f.blk)
    if (r.p(0.7)) b = base * r.unit() * 2;
  if (r.p(0.4)) f.drop = base * r.unit();
  if (r.p(0.4)) f.burst = base * 0.2 * r.unit();
  f.burst_len = r.range(1, 20);
  if (r.p(0.3)) f.dup = base * r.unit() * 2;
  if (r.p(0.3)) f.swap = base * r.unit();
  if (r.p(0.3)) f.glitch = base * r.unit();
  if (r.p(0.2)) f.empty = base * r.unit();
  if (r.p(0.2)) f.b1_runs = base * r.unit();
  return f;
}

void channel(Rng& r, std::vector<G>& in, const FaultMix& f, std::map<std::string, uint64_t>& st) {
  std::vector<G> out;
  int burst = 0, nopi = 0;
  int since_glitch = 9;
  for (size_t i = 0; i < in.size(); i++) {
    G g = in[i];
    if (burst == 0 && r.p(f.burst)) {
      burst = 1 + int(r.below(uint32_t(f.burst_len)));
      st["burst_loss"]++;
    }
    if (burst > 0) {
      burst--;
      if (r.p(0.7)) continue;
      for (auto& b : g.got) b = false;
    }
    if (r.p(f.drop)) {
      st["group_dropped"]++;
      continue;
    }
    if (nopi == 0 && r.p(f.b1_runs)) nopi = r.range(1, 5);
    if (nopi > 0 && !g.stream) {
      nopi--;
      g.got[0] = false;
      st["pi_lost_run"]++;
    }
    for (int k = 0; k < 4; k++)
      if (r.p(f.blk[k])) {
        g.got[k] = false;
        st["block_lost"]++;
      }
    if (r.p(f.empty)) {
      for (auto& b : g.got) b = false;
      st["group_lost"]++;
    }
    since_glitch++;
    if (!g.stream && since_glitch > 4 && g.got[0] && r.p(f.glitch)) {
      g.glitch = true;
      g.w[0] = r.p(0.5) ? r.u16() : uint16_t(g.w[0] ^ (1u << r.below(16)));
      if (g.cp) g.w[2] = g.w[2];
      since_glitch = 0;
      st["pi_glitch"]++;
    }
    out.push_back(g);
    if (r.p(f.dup)) {
      out.push_back(g);
      st["group_duplicated"]++;
    }
    if (out.size() >= 2 && r.p(f.swap)) {
      std::swap(out[out.size() - 1], out[out.size() - 2]);
      st["group_reordered"]++;
    }
  }
  in = out;
}

std::string hex_line(const G& g) {
  static const char* D = "0123456789ABCDEF";
  std::string s;
  if (g.stream) s = "#S" + std::to_string(g.stream) + " ";
  for (int i = 0; i < 4; i++) {
    if (i) s += ' ';
    if (g.got[i])
      for (int k = 12; k >= 0; k -= 4) s += D[g.w[i] >> k & 15];
    else
      s += "----";
  }
  return s + "\n";
}

std::string hex_line_style(const G& g, Rng& r) {
  std::string s = hex_line(g);
  s.pop_back();
  size_t from = g.stream ? 4 : 0;
  if (r.p(0.15))
    for (size_t i = from; i < s.size(); i++)
      if (r.p(0.5) && s[i] >= 'A' && s[i] <= 'F') s[i] = char(s[i] + 32);
  if (r.p(0.1)) {  // no spaces
    std::string t = s.substr(0, from);
    for (size_t i = from; i < s.size(); i++)
      if (s[i] != ' ') t += s[i];
    if (!g.stream || t.size() >= 20) s = t;
  }
  if (r.p(0.15)) s += r.pick(std::vector<std::string>{" @2020/01/01 12:00:00.00", "\r", " ", " 0000", "\t;comment"});
  return s + "\n";
}

std::string tef_lines(const G& g, Rng& r) {
  char b[64];
  std::string s;
  unsigned err = 0;
  for (int i = 1; i < 4; i++)
    if (!g.got[i]) err |= (1 + r.below(3)) << (2 * (3 - i));
  if (r.p(0.3)) err |= r.below(4) << 6;  // bits of the PI block
  if (g.got[0]) {
    snprintf(b, sizeof b, "P%04X\n", g.w[0]);
    s += b;
  }
  snprintf(b, sizeof b, "R%04X%04X%04X%02X\n", g.w[1], g.w[2], g.w[3], err);
  return s + b;
}

static uint32_t block26(const G& g, int i) {
  static const uint32_t off[4] = {ref::kOffA, ref::kOffB, ref::kOffC, ref::kOffD};
  uint32_t o = i == 2 && g.cp ? ref::kOffCp : off[i];
  return uint32_t(g.w[i]) << 10 | (ref::checkword(g.w[i]) ^ o);
}
static void put26(std::string& s, uint32_t v) {
  for (int k = 25; k >= 0; k--) s += char('0' + (v >> k & 1));
}

std::string bits_of(const G& g) {
  std::string s;
  for (int i = 0; i < 4; i++) put26(s, block26(g, i));
  return s;
}

std::string bits_faulty(const G& g, Rng& r, double corr) {
  std::string s;
  for (int i = 0; i < 4; i++) {
    uint32_t v = block26(g, i);
    int off = i == 3 ? 4 : i == 2 && g.cp ? 3 : i;
    if (!g.got[i]) {
      uint32_t w;
      do {
        int kind = int(r.below(3));
        uint32_t e = uint32_t(r.next()) & 0x3FFFFFF;
        if (kind == 0) {  // two distant bits or a few
          e = 0;
          int k = r.range(2, 4);
          for (int j = 0; j < k; j++) e |= 1u << r.below(26);
        } else if (kind == 1) {  // short burst
          e = (r.below(1u << 6) | 1u | 1u << 2) << r.below(19);
        }
        w = (v ^ e) & 0x3FFFFFF;
      } while (ref::offset_of(w) == off || (i == 2 && ref::offset_of(w) == 3) || ref::correctable(w, off, nullptr) ||
               (i == 2 && ref::correctable(w, 2, nullptr)));
      v = w;
    } else if (r.p(corr)) {
      v ^= r.p(0.5) ? 1u << r.below(26) : 3u << r.below(25);
    }
    put26(s, v);
  }
  return s;
}

// ------------------------------------------------------------------ files
static std::string rnd_name(Rng& r, bool latin1, bool allow_hi) {
  std::string s;
  int n = r.range(1, 10);
  for (int i = 0; i < n; i++) {
    if (allow_hi && r.p(0.15)) {
      unsigned c = unsigned(r.range(0xC0, 0xFF));
      if (latin1) {
        s += char(c);
      } else {
        s += char(0xC0 | c >> 6);
        s += char(0x80 | (c & 63));
      }
    } else {
      s += char(r.p(0.1) ? ' ' : r.range('A', 'Z'));
    }
  }
  return s;
}

// the columns of a table in another order, the rows in another order
static void rearrange(Rng& r, std::string& c, const std::string& nl, bool columns, bool rows) {
  std::vector<std::vector<std::string>> t;
  size_t p = 0;
  while (p < c.size()) {
    size_t e = c.find(nl, p);
    std::string l = c.substr(p, e - p);
    p = e + nl.size();
    t.emplace_back();
    size_t q = 0;
    while (true) {
      size_t k = l.find(';', q);
      t.back().push_back(l.substr(q, k == std::string::npos ? k : k - q));
      if (k == std::string::npos) break;
      q = k + 1;
    }
  }
  if (t.empty()) return;
  std::vector<size_t> order(t[0].size());
  for (size_t i = 0; i < order.size(); i++) order[i] = i;
  if (columns)
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(uint32_t(i))]);
  if (rows)
    for (size_t i = t.size(); i > 2; i--) std::swap(t[i - 1], t[1 + r.below(uint32_t(i - 1))]);
  c.clear();
  for (auto& l : t) {
    for (size_t i = 0; i < order.size(); i++) c += (i ? ";" : "") + (order[i] < l.size() ? l[order[i]] : std::string());
    c += nl;
  }
}

std::map<std::string, std::string> location_files(Rng& r, const std::string& d, int ltn, int damage,
                                                  std::map<std::string, uint64_t>& st, int base) {
  std::map<std::string, std::string> f;
  const int nbase = r.p(0.7) ? 0 : r.pick(std::vector<int>{200, 32760, 65530, 100000});
  bool latin1 = r.p(0.5);
  std::string nl = r.p(0.3) ? "\r\n" : "\n";
  std::string enc = latin1 ? "ISO 8859-1" : "UTF-8";
  if (latin1 && r.p(0.3)) enc = "ISO 8859-1 (Latin 1)";
  auto I = [](int x) { return std::to_string(x); };
  f["README.DAT"] = "CID;TABCD;DCOMMENT;VERSION;CHARACTERSET" + nl + "25;" + I(ltn) + ";x;1;" + enc + nl;
  f["LOCATIONDATASETS.DAT"] = "CID;TABCD;DCOMMENT" + nl + "25;" + I(ltn) + ";test" + nl;
  int nn = r.range(3, 25);
  std::string names = "CID;LID;NID;NAME;NCOMMENT" + nl;
  for (int i = 1; i <= nn; i++) names += "25;1;" + I(nbase + i) + ";" + rnd_name(r, latin1, true) + ";" + nl;
  f["NAMES.DAT"] = names;
  auto nid = [&] { return r.p(0.15) ? std::string() : I(nbase + r.range(1, nn + 1)); };
  std::string roads = "CID;TABCD;LCD;CLASS;TCD;STCD;ROADNUMBER;RNID;N1ID;N2ID" + nl;
  for (int i = 0; i < 6; i++)
    roads += "25;" + I(ltn) + ";" + I(100 + i) + ";L;1;1;" + (r.p(0.2) ? "" : rnd_name(r, latin1, r.p(0.2))) + ";" + nid() + ";;" + nl;
  f["ROADS.DAT"] = roads;
  std::string segs = "CID;TABCD;LCD;CLASS;ROA_LCD" + nl;
  for (int i = 0; i < 4; i++) segs += "25;" + I(ltn) + ";" + I(200 + i) + ";L;" + I(100 + r.range(0, 6)) + nl;
  f["SEGMENTS.DAT"] = segs;
  int np = r.range(2, 30);
  std::string pts = "CID;TABCD;LCD;CLASS;N1ID;RNID;ROA_LCD;SEG_LCD;XCOORD;YCOORD" + nl;
  std::string offs = "CID;TABCD;LCD;NEG_OFF_LCD;POS_OFF_LCD" + nl;
  for (int i = 1; i <= np; i++) {
    char x[64];
    snprintf(x, sizeof x, "%+08d;%+08d", r.range(-17999999, 17999999), r.range(-8999999, 8999999));
    bool viaseg = r.p(0.4);
    pts += "25;" + I(ltn) + ";" + I(base + i) + ";P;" + nid() + ";" + nid() + ";" + (viaseg ? "" : I(100 + r.range(0, 6))) + ";" +
           (viaseg ? I(200 + r.range(0, 4)) : "") + ";" + (r.p(0.05) ? std::string(";") : std::string(x)) + nl;
    if (r.p(0.9))
      offs += "25;" + I(ltn) + ";" + I(base + i) + ";" + I(r.p(0.1) ? std::min(65535, base + r.range(0, 40)) : i == 1 ? 0 : base + i - 1) + ";" +
              I(std::min(65535, r.p(0.1) ? base + r.range(0, 40) : base + i + 1)) + nl;
  }
  f["POINTS.DAT"] = pts;
  f["POFFSETS.DAT"] = offs;
  if (r.p(0.3)) f["ADMINISTRATIVEAREA.DAT"] = "CID;TABCD;LCD;CLASS;TCD;STCD;NID;POL_LCD" + nl + "25;" + I(ltn) + ";300;A;1;1;" + nid() + ";" + nl;
  for (const char* n : {"NAMES.DAT", "ROADS.DAT", "SEGMENTS.DAT", "POINTS.DAT", "POFFSETS.DAT", "LOCATIONDATASETS.DAT"}) {
    bool c = r.p(0.15), w = r.p(0.15);
    if (c) st["columns_reordered"]++;
    if (w) st["rows_reordered"]++;
    if (c || w) rearrange(r, f[n], nl, c, w);
  }
  // damage
  static const std::vector<std::string> all = {"README.DAT", "LOCATIONDATASETS.DAT", "NAMES.DAT", "ROADS.DAT", "SEGMENTS.DAT", "POINTS.DAT", "POFFSETS.DAT"};
  for (int k = 0; k < damage; k++) {
    std::string name = all[2 + r.below(5)];
    if (r.p(0.1)) name = all[r.below(7)];
    std::string& c = f[name];
    if (c.empty()) continue;
    switch (r.below(8)) {
      case 0:
        if (r.p(0.3)) {
          c.clear();
          st["file_emptied"]++;
          break;
        }
        // fall through
      case 1: {  // torn file: cut at a random place
        if (r.p(0.5)) {
          c.resize(r.below(uint32_t(c.size() + 1)));
          st["file_torn"]++;
          break;
        }
      }
        // fall through
      case 2: {  // digits replaced by letters in one spot after the header
        size_t h = c.find('\n');
        if (h == std::string::npos || h + 2 >= c.size()) break;
        size_t at = h + 1 + r.below(uint32_t(c.size() - h - 1));
        if (c[at] != '\n' && c[at] != '\r') c[at] = char(r.pick(std::vector<int>{'x', ';', ' ', '-', '9', 0x7F}));
        st["file_byte_damaged"]++;
        break;
      }
      case 3: {  // a line loses its tail
        size_t at = r.below(uint32_t(c.size()));
        size_t e = c.find('\n', at);
        if (e == std::string::npos || c.find('\n') > at) break;
        c.erase(at, e - at);
        st["row_truncated"]++;
        break;
      }
      case 4: {  // invalid text in names
        if (name != "NAMES.DAT" && name != "ROADS.DAT") break;
        size_t h = c.find('\n');
        if (h == std::string::npos || h + 2 >= c.size()) break;
        size_t at = h + 1 + r.below(uint32_t(c.size() - h - 1));
        if (c[at] >= 'A' && c[at] <= 'Z') c[at] = char(latin1 ? 0xE4 : 0xFF);
        st["row_bad_encoding"]++;
        break;
      }
      case 5: {  // blank line / garbage line
        size_t h = c.find('\n', r.below(uint32_t(c.size())));
        if (h == std::string::npos) break;
        c.insert(h + 1, r.pick(std::vector<std::string>{"\n", ";;;;\n", "garbage\n", "99999999999;1;99999999999;2;3;4;5;6;7;8\n", ";\n"}));
        st["garbage_row"]++;
        break;
      }
      case 6:
        if (r.p(0.3)) {
          f.erase(name);
          st["file_missing"]++;
        }
        break;
      case 7:
        if (name == "README.DAT") {
          c = "CID;TABCD;DCOMMENT;VERSION;CHARACTERSET\n25;1;x;1;" + r.pick(std::vector<std::string>{"KLINGON-9", "", "NO-SUCH-CHARSET"}) + "\n";
          st["unknown_encoding"]++;
        }
        break;
    }
  }
  std::map<std::string, std::string> o;
  for (auto& x : f) o[d + "/" + x.first] = x.second;
  return o;
}

std::string key_file(Rng& r, int damage) {
  std::string s;
  int n = r.range(0, 6);
  for (int i = 0; i < n; i++)
    s += std::to_string(i) + "," + std::to_string(r.below(256)) + "," + std::to_string(r.below(9)) + "," + std::to_string(r.below(16)) + "\n";
  for (int k = 0; k < damage; k++) {
    if (s.empty()) break;
    size_t at = r.below(uint32_t(s.size()));
    switch (r.below(4)) {
      case 0: s.resize(at); break;
      case 1: s.insert(at, r.pick(std::vector<std::string>{"\n", "x", ",", "abc,def,ghi,jkl\n"})); break;
      case 2:
        if (s[at] == ',') s[at] = ';';
        break;
      case 3: s.insert(0, "# comment\n"); break;
    }
  }
  return s;
}

}  // namespace gen
