#include "ref.hpp"

namespace ref {

static const uint32_t kOffWord[5] = {kOffA, kOffB, kOffC, kOffCp, kOffD};
static const int kBlkOf[5] = {0, 1, 2, 2, 3};

static uint32_t mod_g(uint32_t v) {  // remainder modulo x^10+x^8+x^7+x^5+x^4+x^3+1
  for (int i = 25; i >= 10; i--)
    if (v >> i & 1) v ^= 0x5B9u << (i - 10);
  return v & 0x3FF;
}
uint32_t checkword(uint16_t d) {
  return mod_g(uint32_t(d) << 10);
}
uint32_t syndrome26(uint32_t v) {
  return mod_g(v & 0x3FFFFFF);
}
int offset_of(uint32_t v) {
  static const std::vector<int8_t> tab = [] {
    std::vector<int8_t> t(1024, -1);
    for (int i = 0; i < 5; i++) t[kOffWord[i]] = i;
    return t;
  }();
  return tab[syndrome26(v)];
}
bool correctable(uint32_t v, int off, uint32_t* fixed) {
  static const std::vector<uint32_t> tab = [] {
    std::vector<uint32_t> t(1024, 0);
    for (int i = 0; i < 26; i++) t[mod_g(1u << i)] = 1u << i;
    for (int i = 0; i < 25; i++) t[mod_g(3u << i)] = 3u << i;
    return t;
  }();
  uint32_t e = tab[syndrome26(v) ^ kOffWord[off]];
  if (!e) return false;
  if (fixed) *fixed = v ^ e;
  return true;
}

std::string Grp::hex() const {
  static const char* D = "0123456789ABCDEF";
  std::string s;
  if (stream) s = "#S" + std::to_string(stream) + " ";
  for (int i = 0; i < 4; i++) {
    if (i) s += ' ';
    if (b[i].got)
      for (int k = 12; k >= 0; k -= 4) s += D[b[i].d >> k & 15];
    else
      s += "----";
  }
  return s;
}

static int hexval(unsigned char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1;
}

// calls f(line, end_offset, had_newline) like getline would see them
template <class F>
static void lines(const std::string& in, F f) {
  size_t p = 0;
  while (true) {
    size_t q = in.find('\n', p);
    if (q == std::string::npos) {
      f(in.substr(p), in.size(), false);
      return;
    }
    f(in.substr(p, q - p), q + 1, true);
    p = q + 1;
  }
}

std::vector<Grp> read_hex(const std::string& in) {
  std::vector<Grp> r;
  lines(in, [&](std::string l, size_t end, bool nl) {
    if (l.size() < 16) return;
    Grp g;
    g.nooff = true;
    g.off = end;
    g.at_eof = !nl;
    size_t p = 0;
    if (l.size() >= 20 && l[0] == '#' && l[1] == 'S' && l[2] >= '1' && l[2] <= '3' && l[3] == ' ') {
      g.stream = l[2] - '0';
      p = 4;
    }
    for (auto& b : g.b) {
      int n = 0;
      bool ok = true;
      uint32_t v = 0;
      while (n < 4 && p < l.size()) {
        char c = l[p++];
        if (c == ' ') continue;
        int h = hexval(c);
        if (h < 0)
          ok = false;
        else
          v = v << 4 | h;
        n++;
      }
      if (ok && n == 4) {
        b.got = true;
        b.d = v;
      }
    }
    r.push_back(g);
  });
  return r;
}

static bool hex_at(const std::string& l, size_t p, int n, unsigned* out) {
  if (l.size() < p + n) return false;
  unsigned v = 0;
  for (int i = 0; i < n; i++) {
    int h = hexval(l[p + i]);
    if (h < 0) return false;
    v = v << 4 | h;
  }
  *out = v;
  return true;
}

std::vector<Grp> read_tef(const std::string& in) {
  std::vector<Grp> r;
  Grp g;
  g.nooff = true;
  bool open = false;
  lines(in, [&](std::string l, size_t end, bool nl) {
    unsigned v;
    if (!l.empty() && l[0] == 'P') {
      if (hex_at(l, 1, 4, &v)) {
        g.b[0].got = true;
        g.b[0].d = v;
      }
    } else if (!l.empty() && l[0] == 'R' && l.size() >= 15) {
      unsigned err;
      if (hex_at(l, 13, 2, &err)) {
        for (int i = 0; i < 3; i++)
          if ((err >> (4 - 2 * i) & 3) == 0 && hex_at(l, 1 + 4 * i, 4, &v)) {
            g.b[1 + i].got = true;
            g.b[1 + i].d = v;
          }
      }
      g.off = end;
      g.at_eof = !nl;
      r.push_back(g);
      g = Grp();
      g.nooff = true;
      open = !nl;  // the reader noticed the end of input inside this line
    }
    if (!nl && !open) {
      g.off = end;
      g.at_eof = true;
      r.push_back(g);
    }
  });
  return r;
}

bool BlockSync::push(int bit, Grp* out) {
  reg = ((reg << 1) | (bit & 1)) & 0x3FFFFFF;
  n++;
  if (locked && n < next_at) return false;
  int off = offset_of(reg);
  if (!locked) {
    if (off < 0) return false;
    pulses.push_back({off, n});
    if (pulses.size() > 4) pulses.pop_front();
    auto follows = [](const Pulse& a, const Pulse& b) {  // b follows a
      uint64_t d = b.pos - a.pos;
      return d % 26 == 0 && d / 26 <= 6 && (kBlkOf[a.off] + d / 26) % 4 == uint64_t(kBlkOf[b.off]);
    };
    bool found = false;
    size_t m = pulses.size();
    for (size_t i = 0; i + 2 < m; i++)
      for (size_t j = i + 1; j + 1 < m; j++)
        if (follows(pulses[j], pulses[m - 1]) && follows(pulses[i], pulses[j])) found = true;
    if (!found) return false;
    locked = true;
    locks++;
    expect = off;
    cur = Grp();
  }
  if (expect == 2 && off == 3) expect = 3;
  bool err = off != expect;
  win.push_back(err);
  if (win.size() > 50) win.pop_front();
  int sum = 0;
  for (int e : win) sum += e;
  if (sum > 42) {
    locked = false;
    losses++;
    win.clear();
    return false;
  }
  next_at = n + 26;
  blocks++;
  uint32_t w = reg;
  bool ok = !err;
  if (err && fec && correctable(reg, expect, &w)) {
    ok = true;
    corrected++;
  } else if (err) {
    rejected++;
  } else {
    clean++;
  }
  if (ok) {
    Blk& b = cur.b[kBlkOf[expect]];
    b.got = true;
    b.err = err;
    b.d = w >> 10;
    if (expect == 3) cur.cprime = true;
  }
  expect = expect == 4 ? 0 : expect == 3 ? 4 : expect == 2 ? 4 : expect + 1;
  if (expect == 0) {
    *out = cur;
    cur = Grp();
    return true;
  }
  return false;
}

std::vector<Grp> read_bits(const std::string& in, bool fec, BlockSync* stats) {
  std::vector<Grp> r;
  BlockSync s;
  s.fec = fec;
  for (size_t i = 0; i < in.size(); i++) {
    if (in[i] != '0' && in[i] != '1') continue;
    Grp g;
    if (s.push(in[i] == '1', &g)) {
      g.off = i + 1;
      r.push_back(g);
    }
  }
  if (!s.cur.empty()) {
    Grp g = s.cur;
    g.off = in.size();
    g.at_eof = true;
    r.push_back(g);
  }
  if (stats) *stats = s;
  return r;
}

Opt parse_opts(const std::vector<std::string>& a) {
  Opt o;
  o.input = "mpx";
  for (size_t i = 0; i < a.size(); i++) {
    const std::string& s = a[i];
    auto next = [&] { return i + 1 < a.size() ? a[++i] : std::string(); };
    if (s == "-i" || s == "--input") o.input = next();
    else if (s == "-h" || s == "--input-hex") o.input = "hex";
    else if (s == "-b" || s == "--input-bits") o.input = "bits";
    else if (s == "-f" || s == "--file") { o.input = "mpx"; next(); }
    else if (s == "-o" || s == "--output") o.hexout = next() == "hex";
    else if (s == "-x" || s == "--output-hex") o.hexout = true;
    else if (s == "-u" || s == "--rbds") o.rbds = true;
    else if (s == "-p" || s == "--show-partial") o.partial = true;
    else if (s == "-R" || s == "--show-raw") o.raw = true;
    else if (s == "-E" || s == "--bler") o.bler = true;
    else if (s == "-s" || s == "--streams") o.streams = true;
    else if (s == "-e" || s == "--feed-through") o.feed = true;
    else if (s == "-t" || s == "--timestamp") { o.ts = true; o.tfmt = next(); }
    else if (s == "-l" || s == "--loctable") o.loc.push_back(next());
    else if (s == "-c" || s == "--channels") o.channels = std::stoi(next());
    else if (s == "-r" || s == "--samplerate") next();
    else if (s == "--no-fec") o.fec = false;
  }
  return o;
}

}  // namespace ref
