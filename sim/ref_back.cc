#include "ref.hpp"

#include <cmath>
#include <cstring>

#include "ref_tables.hpp"

namespace ref {

static unsigned bits(uint16_t w, int at, int n) {
  return (w >> at) & ((1u << n) - 1);
}
static unsigned bits2(uint16_t hi, uint16_t lo, int at, int n) {
  return ((uint32_t(hi) << 16 | lo) >> at) & ((1u << n) - 1);
}
static std::string hexs(unsigned v, int w) {
  char b[16];
  snprintf(b, sizeof b, "%0*X", w, v);
  return b;
}
static std::string hm(int h, int m) {
  char b[32];
  snprintf(b, sizeof b, "%02d:%02d", h, m);
  return b;
}
static std::string rtrim(std::string s) {
  while (!s.empty() && s.back() == ' ') s.pop_back();
  return s;
}
std::string app_name(uint16_t aid) {
  auto it = kApps.find(aid);
  return it == kApps.end() ? "(Unknown)" : it->second;
}
std::string country(int cc, int ecc) {
  auto it = kCountry.find(ecc);
  if (it == kCountry.end() || cc < 1 || cc > 15) return "--";
  return it->second[cc - 1];
}
std::string utf8_of_rds(const std::vector<uint8_t>& b) {
  std::string s;
  for (auto c : b) s += kG0[c];
  return s;
}
std::string base64(const std::string& in) {
  static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string o;
  uint32_t acc = 0;
  int nb = 0;
  for (unsigned char c : in) {
    acc = acc << 8 | c;
    nb += 8;
    while (nb >= 6) {
      nb -= 6;
      o += T[acc >> nb & 63];
    }
  }
  if (nb) o += T[acc << (6 - nb) & 63];
  while (o.size() % 4) o += '=';
  return o;
}

// ------------------------------------------------------------------ text
size_t Txt::expected() const {
  if (enc == UCS2) {
    for (size_t i = 0; i + 1 < data.size(); i += 2)
      if (data[i] == 0 && data[i + 1] == 0x0D) return i + 2;
    return data.size();
  }
  for (size_t i = 0; i < data.size(); i++)
    if (data[i] == 0x0D) return i + 1;
  return data.size();
}
bool Txt::has_term() const {
  for (auto c : data)
    if (c == 0x0D) return true;
  return false;
}
std::vector<uint8_t> Txt::bytes() const {
  size_t n = expected();
  std::vector<uint8_t> r(n);
  if (enc == UCS2) {
    for (size_t i = 0; i + 1 < n; i += 2) {
      unsigned u = data[i] << 8 | data[i + 1];
      if (L < i + 2 || u == 0x0D || u == 0) u = 0x20;
      r[i] = u >> 8;
      r[i + 1] = u & 255;
    }
    return r;
  }
  for (size_t i = 0; i < n; i++)
    r[i] = (i < L && data[i] != 0x0D && data[i] != 0) ? data[i] : 0x20;
  return r;
}
bool Txt::str(std::string* out) const {
  auto b = bytes();
  out->clear();
  if (enc == Basic) {
    *out = utf8_of_rds(b);
  } else if (enc == UTF8) {
    out->assign(b.begin(), b.end());
  } else {
    for (size_t i = 0; i + 1 < b.size(); i += 2) {
      unsigned u = b[i] << 8 | b[i + 1];
      if (u >= 0xD800 && u < 0xE000) return false;
      if (u < 0x80) {
        *out += char(u);
      } else if (u < 0x800) {
        *out += char(0xC0 | u >> 6);
        *out += char(0x80 | (u & 63));
      } else {
        *out += char(0xE0 | u >> 12);
        *out += char(0x80 | (u >> 6 & 63));
        *out += char(0x80 | (u & 63));
      }
    }
  }
  return true;
}
void Txt::set(size_t pos, uint8_t byte) {
  if (pos >= data.size()) return;
  // the beginning of a changed text was missed
  if (pos && pos < L && data[pos] != byte) L = 0;
  data[pos] = byte;
  if (pos == 0)
    L = 1;
  else if (pos == prev + 1 && L == pos)
    L = pos + 1;
  if (complete()) {
    std::string s;
    if (!str(&s)) {
      clear();
      return;
    }
    last = s;
  }
  prev = pos;
}
std::string Txt::sub(size_t start, size_t len) const {
  std::vector<std::string> ch;
  for (size_t i = 0; i < last.size();) {
    size_t j = i + 1;
    while (j < last.size() && (uint8_t(last[j]) & 0xC0) == 0x80) j++;
    ch.push_back(last.substr(i, j - i));
    i = j;
  }
  if (start + len > ch.size()) return "";
  std::string r;
  for (size_t i = start; i < start + len; i++) r += ch[i];
  return r;
}

// ------------------------------------------------------------------ AF
void Af::insert(int c) {
  bool lf = lfmf;
  lfmf = false;
  bool valid = lf ? (c >= 1 && c <= 135) : (c >= 1 && c <= 204);
  int khz = lf ? (c <= 15 ? 144 + 9 * c : 522 + 9 * (c - 15)) : 87500 + 100 * c;
  if (valid && want > 0) {
    if (have < want)
      f[have++] = khz;
    else
      clear();
  } else if (c == 205 || c == 224) {
  } else if (c >= 225 && c <= 249) {
    want = c - 224;
    have = 0;
  } else if (c == 250) {
    lfmf = true;
  } else {
    clear();
  }
}
bool Af::method_b() const {
  if (want % 2 != 1 || have < 3) return false;
  for (size_t i = 1; i < have; i += 2)
    if (f[i] != f[0] && f[i + 1] != f[0]) return false;
  return true;
}

// ------------------------------------------------------------------ files
static std::vector<std::string> file_lines(const Files& fs, const std::string& name) {
  std::vector<std::string> r;
  auto it = fs.find(name);
  if (it == fs.end()) return r;
  const std::string& s = it->second;
  size_t p = 0;
  while (p < s.size()) {
    size_t q = s.find('\n', p);
    if (q == std::string::npos) q = s.size();
    r.push_back(s.substr(p, q - p));
    p = q + 1;
  }
  return r;
}
static std::vector<std::string> split(std::string l, char d) {
  size_t cr = l.find('\r');
  if (cr != std::string::npos) l.resize(cr);
  std::vector<std::string> r;
  if (l.empty()) return r;
  size_t p = 0;
  while (true) {
    size_t q = l.find(d, p);
    if (q == std::string::npos) {
      r.push_back(l.substr(p));
      return r;
    }
    r.push_back(l.substr(p, q - p));
    p = q + 1;
  }
}
struct Bad {};
struct Table {
  std::map<std::string, size_t> col;
  std::vector<std::vector<std::string>> rows;
  Table(const Files& fs, const std::string& name) {
    auto l = file_lines(fs, name);
    for (size_t i = 0; i < l.size(); i++) {
      auto f = split(l[i], ';');
      if (i == 0)
        for (size_t k = 0; k < f.size(); k++) col[f[k]] = k;
      else
        rows.push_back(f);
    }
  }
  const std::string& s(const std::vector<std::string>& r, const char* c) const {
    auto it = col.find(c);
    if (it == col.end() || it->second >= r.size()) throw Bad();
    return r[it->second];
  }
  int i(const std::vector<std::string>& r, const char* c) const {
    return to_int(s(r, c));
  }
  static int to_int(const std::string& v) {
    errno = 0;
    char* e;
    long x = strtol(v.c_str(), &e, 10);
    if (e == v.c_str() || errno || x > INT32_MAX || x < INT32_MIN) throw Bad();
    return x;
  }
};
static bool valid_utf8(const std::string& s) {
  try {
    json(s).dump();
    return true;
  } catch (...) {
    return false;
  }
}
// only the encodings the generator uses
static std::string conv(const std::string& s, const std::string& enc) {
  if (enc == "ISO-8859-1") {
    std::string o;
    for (unsigned char c : s)
      if (c < 0x80)
        o += char(c);
      else {
        o += char(0xC0 | c >> 6);
        o += char(0x80 | (c & 63));
      }
    return o;
  }
  if (!valid_utf8(s)) throw Bad();
  return s;
}

static LocDb load_loc(const Files& fs, const std::string& d) {
  LocDb db;
  std::string enc = "UTF-8";
  for (auto& l : file_lines(fs, d + "/README.DAT")) {
    auto f = split(l, ';');
    if (f.size() > 4) enc = f[4];
  }
  if (enc.size() >= 10 && enc.compare(0, 3, "ISO") == 0 && enc.compare(4, 6, "8859-1") == 0 &&
      (enc.size() == 10 || !(isalnum(uint8_t(enc[10])) || enc[10] == '_')))
    enc = "ISO-8859-1";
  // a damaged encoding name may happen to be one the host knows: what it does then is left open
  db.open_enc = enc != "ISO-8859-1" && enc != "UTF-8" && enc != "KLINGON-9" && enc != "NO-SUCH-CHARSET";
  {
    Table t(fs, d + "/NAMES.DAT");
    for (auto& r : t.rows) try {
        int id = t.i(r, "NID");
        auto raw = t.s(r, "NAME");
        try {
          db.names[id] = conv(raw, enc);
        } catch (Bad&) {
          // whether such a row counts as a name is left open
          if (!db.names.count(id)) db.open_names = true;
        }
      } catch (Bad&) {
      }
  }
  {
    Table t(fs, d + "/ROADS.DAT");
    for (auto& r : t.rows) try {
        uint16_t lcd = t.i(r, "LCD");
        auto num = conv(t.s(r, "ROADNUMBER"), enc);
        int rn = 0;
        if (!t.s(r, "RNID").empty()) rn = t.i(r, "RNID");
        std::string nm;
        if (db.names.count(rn)) nm = db.names[rn];
        db.roads[lcd] = {num, nm};
      } catch (Bad&) {
      }
  }
  {
    Table t(fs, d + "/SEGMENTS.DAT");
    for (auto& r : t.rows) try {
        uint16_t lcd = t.i(r, "LCD");
        uint16_t roa = t.i(r, "ROA_LCD");
        db.segs[lcd] = roa;
      } catch (Bad&) {
      }
  }
  {
    Table t(fs, d + "/POINTS.DAT");
    for (auto& r : t.rows) try {
        uint16_t ltn = t.i(r, "TABCD");
        uint16_t lcd = t.i(r, "LCD");
        LocPoint p;
        int n = 0;
        if (!t.s(r, "N1ID").empty()) n = t.i(r, "N1ID");
        if (db.names.count(n)) p.name1 = db.names[n];
        if (!t.s(r, "XCOORD").empty()) p.lon = float(t.i(r, "XCOORD")) * 1e-5f;
        if (!t.s(r, "YCOORD").empty()) p.lat = float(t.i(r, "YCOORD")) * 1e-5f;
        if (!t.s(r, "ROA_LCD").empty()) p.roa = t.i(r, "ROA_LCD");
        if (!t.s(r, "SEG_LCD").empty()) p.seg = t.i(r, "SEG_LCD");
        int rn = 0;
        if (!t.s(r, "RNID").empty()) rn = t.i(r, "RNID");
        if (db.names.count(rn)) p.road_name = db.names[rn];
        if (p.roa == 0 && db.segs.count(p.seg)) p.roa = db.segs[p.seg];
        db.ltn = ltn;
        db.points[lcd] = p;
      } catch (Bad&) {
      }
  }
  {
    Table t(fs, d + "/POFFSETS.DAT");
    for (auto& r : t.rows) try {
        uint16_t lcd = t.i(r, "LCD");
        uint16_t ng = t.i(r, "NEG_OFF_LCD");
        uint16_t ps = t.i(r, "POS_OFF_LCD");
        if (db.points.count(lcd)) {
          db.points[lcd].neg = ng;
          db.points[lcd].pos = ps;
        }
      } catch (Bad&) {
      }
  }
  return db;
}

World make_world(const std::vector<std::string>& argv, const Files& fs) {
  World w;
  w.opt = parse_opts(argv);
  for (auto& d : w.opt.loc) {
    uint16_t ltn = 0;
    Table t(fs, d + "/LOCATIONDATASETS.DAT");
    for (auto& r : t.rows) try {
        ltn = t.i(r, "TABCD");
      } catch (Bad&) {
      }
    LocDb db = load_loc(fs, d);
    json b;
    b["location_table_info"] = {{"ltn", db.ltn},
                                {"num_points", db.points.size()},
                                {"num_roads", db.roads.size()},
                                {"num_names", db.open_names ? json("*") : json(db.names.size())}};
    w.banner.push_back(b);
    w.open_enc |= db.open_enc;
    w.loc[ltn] = db;
  }
  for (auto& l : file_lines(fs, "service_key_table.csv")) {
    auto f = split(l, ',');
    if (f.size() < 4) continue;
    try {
      uint16_t id = Table::to_int(f[0]);
      Key k;
      k.xorval = Table::to_int(f[1]);
      k.xorstart = Table::to_int(f[2]);
      k.nrot = Table::to_int(f[3]);
      if (k.xorstart > 15) continue;  // not a start position within a location code
      w.keys.insert({id, k});
    } catch (Bad&) {
    }
  }
  return w;
}

// ------------------------------------------------------------------ TMC events
struct Ev {
  std::string desc, descq;
  int qtype{0};
  bool both{};
  int urg{};  // 0 none 1 U 2 X
  int cls{};
  int qsize() const {
    return qtype <= 5 ? 5 : 8;
  }
};
static const std::map<int, Ev>& events() {
  static const std::map<int, Ev> m = [] {
    std::map<int, Ev> r;
    for (size_t i = 1; i < std::size(kEvents); i++) {
      auto f = split(kEvents[i], ';');
      if (f.size() < 9 || f[8].empty()) continue;
      Ev e;
      e.desc = f[1];
      e.descq = f[2];
      if (!f[4].empty()) {
        int q = atoi(f[4].c_str());
        if (q >= 0 && q <= 12) e.qtype = q;
      }
      e.both = f[6] == "2";
      e.urg = f[7] == "U" ? 1 : f[7] == "X" ? 2 : 0;
      e.cls = atoi(f[8].c_str());
      r[atoi(f[0].c_str())] = e;
    }
    return r;
  }();
  return m;
}
static const std::map<int, std::string>& suppl() {
  static const std::map<int, std::string> m = [] {
    std::map<int, std::string> r;
    for (auto& s : kSuppl) {
      auto f = split(s, ';');
      if (f.size() >= 2) r.insert({atoi(f[0].c_str()), f[1]});
    }
    return r;
  }();
  return m;
}
static std::string freq_str(int code, bool lf) {
  char b[32];
  if (lf) {
    if (code < 1 || code > 135) return "N/A";
    snprintf(b, sizeof b, "%d kHz", code <= 15 ? 144 + 9 * code : 522 + 9 * (code - 15));
  } else {
    if (code < 1 || code > 204) return "N/A";
    snprintf(b, sizeof b, "%d.%d MHz", (875 + code) / 10, (875 + code) % 10);
  }
  return b;
}
static std::string quantified(const Ev& e, int q) {
  std::string t;
  auto N = [](int x) { return std::to_string(x); };
  if (e.qsize() == 5 && q == 0) q = 32;
  switch (e.qtype) {
    case 0: t = N(q > 28 ? q + (q - 28) : q); break;
    case 1: t = N(q <= 4 ? q : q <= 14 ? (q - 4) * 10 : (q - 12) * 50); break;
    case 2: t = "less than " + N(q * 10) + " metres"; break;
    case 3: t = N(q == 32 ? 0 : q * 5) + " %"; break;
    case 4: t = "of up to " + N(q * 5) + " km/h"; break;
    case 5:
      t = q <= 10   ? "of up to " + N(q * 5) + " minutes"
          : q <= 22 ? "of up to " + N(q - 10) + " hours"
                    : "of up to " + N((q - 20) * 6) + " hours";
      break;
    case 6: t = N(q - 51) + " degrees Celsius"; break;
    case 7: {
      if (q == 0) return "\x01";  // unspecified by the standard
      int m = (q - 1) * 10;
      t = hm(m / 60, m % 60);
      break;
    }
    case 8:
    case 9: {
      int d = q <= 100 ? q : 100 + (q - 100) * 5;
      t = N(d / 10) + "." + N(d % 10) + (e.qtype == 8 ? " tonnes" : " metres");
      break;
    }
    case 10: t = "of up to " + N(q) + " millimetres"; break;
    case 11: t = freq_str(q, false); break;
    case 12: t = freq_str(q, true); break;
  }
  std::string s = e.descq;
  size_t p = 0;
  while ((p = s.find("(Q)", p)) != std::string::npos) {
    s.replace(p, 3, t);
    p += t.size();
  }
  return s;
}
static std::string time_str(int v) {
  char b[64];
  if (v <= 95) return hm(v / 4, 15 * (v % 4));
  if (v <= 200) {
    int d = (v - 96) / 24, h = (v - 96) % 24;
    if (d == 0)
      snprintf(b, sizeof b, "at %02d:00", h);
    else if (d == 1)
      snprintf(b, sizeof b, "after 1 day at %02d:00", h);
    else
      snprintf(b, sizeof b, "after %d days at %02d:00", d, h);
    return b;
  }
  if (v <= 231) {
    snprintf(b, sizeof b, "day %d of the month", v - 200);
    return b;
  }
  static const char* M[] = {"January", "February", "March",     "April",   "May",      "June",
                            "July",    "August",   "September", "October", "November", "December"};
  int m = (v - 232) / 2;
  if (m >= 12) return "";
  return std::string((v - 232) % 2 ? "end of " : "mid-") + M[m];
}
static std::vector<std::string> scope(int m) {
  std::vector<std::string> r;
  if (m & 8) r.push_back("inter-road");
  if (m & 4) r.push_back("national");
  if (m & 2) r.push_back("regional");
  if (m & 1) r.push_back("urban");
  return r;
}

// ------------------------------------------------------------------ station
static std::string pty_name(const Opt& o, int p) {
  return o.rbds ? kPtyRbds[p] : kPty[p];
}
static bool pin_into(uint16_t pin, json& j) {
  int day = pin >> 11, h = pin >> 6 & 31, m = pin & 63;
  if (day < 1 || h > 24 || m > 59) return false;
  j["prog_item_number"] = pin;
  j["prog_item_started"]["day"] = day;
  j["prog_item_started"]["time"] = hm(h, m);
  return true;
}

json Station::decode(const Grp& g, bool* printed) {
  json j = json::object();
  *printed = false;
  if (!known) return j;
  const Opt& o = w->opt;
  if (o.streams) j["stream"] = g.stream;
  if (!g.is_c()) {
    if (g.has_pi())
      last_had_pi = true;
    else if (last_had_pi)
      last_had_pi = false;
    else
      return j;
    if (g.empty()) return j;
    j["pi"] = "0x" + hexs(pi, 4);
  }
  *printed = true;
  if (o.raw) {
    Grp h = g;
    h.stream = 0;
    j["raw_data"] = h.hex();
  }
  if (g.is_c()) {
    j["group"] = "C";
    tc(g, j);
    return j;
  }
  if (g.b[1].got) {
    if (g.has_type()) j["group"] = std::to_string(g.number()) + (g.vb() ? "B" : "A");
    j["tp"] = bool(g.b[1].d >> 10 & 1);
    j["prog_type"] = pty_name(o, bits(g.b[1].d, 5, 5));
  }
  if (!g.has_type()) return j;
  int n = g.number();
  bool B = g.vb();
  if (n == 0)
    t0(g, j);
  else if (n == 1)
    t1(g, j);
  else if (n == 2)
    t2(g, j);
  else if (n == 3 && !B)
    t3a(g, j);
  else if (n == 4 && !B)
    t4a(g, j);
  else if (n == 10 && !B)
    t10a(g, j);
  else if (n == 14)
    t14(g, j);
  else if (n == 15 && B)
    t15b(g, j);
  else if (oda.count(n << 1 | B))
    toda(g, j);
  else if (n == 5)
    t5(g, j);
  else if (n == 6)
    t6(g, j);
  else if (n == 7 && !B) {
  } else if (n == 8 && !B) {
    if (g.b[2].got && g.b[3].got) tmc_user(bits(g.b[1].d, 0, 5), g.b[2].d, g.b[3].d, j);
  } else if (n == 9 && !B) {
  } else if (n == 15)
    t15a(g, j);
  else
    toda(g, j);
  return j;
}

void Station::t0(const Grp& g, json& j) {
  uint16_t b2 = g.b[1].d;
  int seg = b2 & 3;
  j["di"][kDi[seg]] = bool(b2 & 4);
  j["ta"] = bool(b2 & 16);
  j["is_music"] = bool(b2 & 8);
  if (!g.b[2].got) {
    if (af.method_b()) af.clear();
    return;
  }
  if (!g.vb()) {
    af.insert(g.b[2].d >> 8);
    af.insert(g.b[2].d & 255);
    if (af.complete()) {
      if (af.method_b()) {
        std::vector<int> same, reg;
        for (size_t i = 1; i + 1 < af.have + 1 && i < af.have; i += 2) {
          int a = af.f[i], b = af.f[i + 1];
          int other = a == af.f[0] ? b : a;
          (a < b ? same : reg).push_back(other);
        }
        auto uniq = [](std::vector<int> v) {
          std::sort(v.begin(), v.end());
          return size_t(std::unique(v.begin(), v.end()) - v.begin());
        };
        if (uniq(same) + uniq(reg) == af.have / 2) {
          auto& x = j["alt_frequencies_b"];
          x["tuned_frequency"] = af.f[0];
          if (!same.empty()) x["same_programme"] = same;
          if (!reg.empty()) x["regional_variants"] = reg;
          cover("af_b");
        } else {
          cover("af_b_dup");
        }
      } else {
        for (size_t i = 0; i < af.have; i++) j["alt_frequencies_a"].push_back(af.f[i]);
        cover("af_a");
      }
      af.clear();
    } else if (w->opt.partial) {
      for (size_t i = 0; i < af.have; i++) j["partial_alt_frequencies"].push_back(af.f[i]);
    }
  }
  if (!g.b[3].got) return;
  ps.set2(seg * 2, g.b[3].d);
  if (ps.complete()) {
    j["ps"] = ps.last;
    cover("ps");
  } else if (w->opt.partial) {
    std::string s;
    ps.str(&s);
    j["partial_ps"] = s;
  }
}

void Station::t1(const Grp& g, json& j) {
  if (!g.b[2].got || !g.b[3].got) return;
  if (g.b[3].d) pin_into(g.b[3].d, j);
  if (g.vb()) return;
  uint16_t c = g.b[2].d;
  j["has_linkage"] = bool(c >> 15);
  switch (c >> 12 & 7) {
    case 0:
      if (c & 255) j["country"] = country(pi >> 12, c & 255);
      break;
    case 1: j["tmc_id"] = c & 0xFFF; break;
    case 3: j["language"] = (c & 255) < kLang.size() ? kLang[c & 255] : ""; break;
    case 6: j["slc_broadcaster_bits"] = "0x" + hexs(c & 0x7FF, 3); break;
    case 7: j["ews"] = c & 0xFFF; break;
    default: break;
  }
}

void Station::t2(const Grp& g, json& j) {
  if (!g.b[2].got || !g.b[3].got) return;
  bool B = g.vb();
  size_t pos = (g.b[1].d & 15) * (B ? 2 : 4);
  int ab = g.b[1].d >> 4 & 1;
  bool changed = ab != rt_ab;
  rt_ab = ab;
  if (w->opt.partial) j["rt_ab"] = ab ? "B" : "A";
  bool cand = pos == 0 && rt.L > 1 && !rt.complete() && !rt.has_term();
  std::string m;
  if (cand) {
    rt.str(&m);
    m = rtrim(m);
    if (m != rt_prev) cand = false;
    rt_prev = m;
  }
  if (changed) rt.clear();
  rt.data.resize(B ? 32 : 64, 0x20);
  if (!B) {
    rt.set2(pos, g.b[2].d);
    rt.set2(pos + 2, g.b[3].d);
  } else {
    rt.set2(pos, g.b[3].d);
  }
  if (rt.complete()) {
    j["radiotext"] = rtrim(rt.last);
    cover("rt");
  } else if (cand) {
    j["radiotext"] = m;
    cover("rt_repeat");
  } else if (w->opt.partial) {
    std::string s;
    rt.str(&s);
    if (!rtrim(s).empty()) j["partial_radiotext"] = s;
  }
}

void Station::t3a(const Grp& g, json& j) {
  if (!g.b[2].got || !g.b[3].got) return;
  int t = g.b[1].d & 31;
  uint16_t msg = g.b[2].d, aid = g.b[3].d;
  oda[t] = aid;
  j["open_data_app"]["oda_group"] = std::to_string(t >> 1) + (t & 1 ? "B" : "A");
  j["open_data_app"]["app_name"] = app_name(aid);
  switch (aid) {
    case 0x0093:
    case 0x4BD7:
    case 0x4BD8: break;
    case 0x6552:
      ert.data.resize(128, 0x20);
      ert.enc = msg & 1 ? Txt::UTF8 : Txt::UCS2;
      break;
    case 0xCD46:
    case 0xCD47: tmc_system(msg, j); break;
    default: j["open_data_app"]["message"] = msg;
  }
}

void Station::t4a(const Grp& g, json& j) {
  if (!g.b[2].got || !g.b[3].got) return;
  long mjd = bits2(g.b[1].d, g.b[2].d, 1, 17);
  int h = bits2(g.b[2].d, g.b[3].d, 12, 5), mi = bits(g.b[3].d, 6, 6);
  int off = (g.b[3].d & 31) * ((g.b[3].d & 32) ? -1 : 1);  // half hours
  if (mjd < 15079 || h > 23 || mi > 59 || std::abs(off) / 2 > 14) return;
  long min = (mjd - 40587) * 1440 + h * 60 + mi + off * 30;
  long day = min / 1440, rest = min % 1440;
  if (rest < 0) {
    rest += 1440;
    day--;
  }
  // civil from days since 1970-01-01
  long z = day + 719468;
  long era = (z >= 0 ? z : z - 146096) / 146097;
  unsigned doe = z - era * 146097;
  unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  long y = yoe + era * 400;
  unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  unsigned mp = (5 * doy + 2) / 153;
  unsigned d = doy - (153 * mp + 2) / 5 + 1;
  unsigned mo = mp < 10 ? mp + 3 : mp - 9;
  if (mo <= 2) y++;
  char b[64];
  int n = snprintf(b, sizeof b, "%04ld-%02u-%02uT%02ld:%02ld:00", y, mo, d, rest / 60, rest % 60);
  if (off == 0)
    snprintf(b + n, sizeof b - n, "Z");
  else
    snprintf(b + n, sizeof b - n, "%c%02d:%02d", off > 0 ? '+' : '-', std::abs(off) / 2,
             std::abs(off) % 2 * 30);
  j["clock_time"] = b;
  cover("clock");
}

void Station::t5(const Grp& g, json& j) {
  int a = g.b[1].d & 31;
  auto& t = j["transparent_data"];
  t["address"] = a;
  std::vector<uint8_t> d;
  if (!g.vb()) {
    if (!g.b[2].got || !g.b[3].got) return;
    d = {uint8_t(g.b[2].d >> 8), uint8_t(g.b[2].d), uint8_t(g.b[3].d >> 8), uint8_t(g.b[3].d)};
    tdc.set2(a * 4, g.b[2].d);
    tdc.set2(a * 4 + 2, g.b[3].d);
    if (tdc.complete()) {
      std::string s, raw;
      tdc.str(&s);
      t["full_text"] = s;
      for (auto b : tdc.bytes()) raw += (raw.empty() ? "" : " ") + hexs(b, 2);
      t["full_raw"] = raw;
      cover("tdc");
    }
  } else {
    if (!g.b[3].got) return;
    d = {uint8_t(g.b[3].d >> 8), uint8_t(g.b[3].d)};
  }
  std::string raw;
  for (auto b : d) raw += (raw.empty() ? "" : " ") + hexs(b, 2);
  t["raw"] = raw;
  Txt x(d.size());
  for (size_t i = 0; i < d.size(); i++) x.set(i, d[i]);
  std::string s;
  x.str(&s);
  t["as_text"] = s;
}

void Station::t6(const Grp& g, json& j) {
  auto& a = j["in_house_data"];
  a.push_back(g.b[1].d & 31);
  if (!g.vb()) {
    if (g.b[2].got) {
      a.push_back(g.b[2].d);
      if (g.b[3].got) a.push_back(g.b[3].d);
    }
  } else if (g.b[3].got) {
    a.push_back(g.b[3].d);
  }
}

void Station::t10a(const Grp& g, json& j) {
  if (!g.b[2].got || !g.b[3].got) return;
  int ab = g.b[1].d >> 4 & 1;
  if (ab != ptyn_ab) ptyn.clear();
  ptyn_ab = ab;
  int p = (g.b[1].d & 1) * 4;
  ptyn.set2(p, g.b[2].d);
  ptyn.set2(p + 2, g.b[3].d);
  if (ptyn.complete()) {
    j["pty_name"] = ptyn.last;
    cover("ptyn");
  }
}

void Station::t14(const Grp& g, json& j) {
  if (!g.b[3].got) return;
  uint16_t on = g.b[3].d, b2 = g.b[1].d;
  auto& n = j["other_network"];
  n["pi"] = "0x" + hexs(on, 4);
  n["tp"] = bool(b2 & 16);
  if (g.vb()) {
    n["ta"] = bool(b2 & 8);
    return;
  }
  if (!g.b[2].got) return;
  uint16_t c = g.b[2].d;
  int v = b2 & 15;
  if (v <= 3) {
    auto& t = eon_ps.emplace(on, Txt(8)).first->second;
    t.set2(2 * v, c);
    if (t.complete()) {
      n["ps"] = t.last;
      cover("eon_ps");
    }
  } else if (v == 4) {
    auto& a = eon_af[on];
    a.insert(c >> 8);
    a.insert(c & 255);
    if (a.complete()) {
      for (size_t i = 0; i < a.have; i++) n["alt_frequencies"].push_back(a.f[i]);
      a.clear();
      cover("eon_af");
    }
  } else if (v <= 9) {
    int f = c & 255;
    if (f >= 1 && f <= 204) n["kilohertz"] = 87500 + 100 * f;
  } else if (v == 12) {
    bool l = c >> 15;
    n["has_linkage"] = l;
    if (l && (c & 0xFFF)) n["linkage_set"] = c & 0xFFF;
  } else if (v == 13) {
    n["prog_type"] = pty_name(w->opt, c >> 11);
    n["ta"] = bool(c & 1);
  } else if (v == 14) {
    if (c) pin_into(c, n);
  } else if (v == 15) {
    n["broadcaster_data"] = hexs(c, 4);
  }
}

void Station::t15a(const Grp& g, json& j) {
  int p = (g.b[1].d & 7) * 4;
  bool any = false;
  if (g.b[2].got) {
    lps.set2(p, g.b[2].d);
    any = true;
  }
  if (g.b[3].got) {
    lps.set2(p + 2, g.b[3].d);
    any = true;
  }
  if (any && lps.complete()) {
    j["long_ps"] = rtrim(lps.last);
    cover("long_ps");
  } else if (w->opt.partial) {
    std::string s;
    lps.str(&s);
    j["partial_long_ps"] = s;
  }
}

void Station::t15b(const Grp& g, json& j) {
  uint16_t b2 = g.b[1].d;
  j["di"][kDi[b2 & 3]] = bool(b2 & 4);
  j["ta"] = bool(b2 & 16);
  j["is_music"] = bool(b2 & 8);
}

void Station::toda(const Grp& g, json& j) {
  auto it = oda.find(g.number() << 1 | int(g.vb()));
  std::string raw = hexs(g.b[1].d & 31, 2) + " " + (g.b[2].got ? hexs(g.b[2].d, 4) : "----") + " " +
                    (g.b[3].got ? hexs(g.b[3].d, 4) : "----");
  if (it == oda.end()) {
    j["unknown_oda"]["raw_data"] = raw;
    return;
  }
  switch (it->second) {
    case 0x0093: {
      if (g.b[1].d & 16) return;
      static const char* M[] = {"unspecified", "I", "II or III", "IV"};
      auto& d = j["dab"];
      d["mode"] = M[g.b[1].d >> 2 & 3];
      if (!g.b[2].got) return;
      unsigned f = 16 * bits2(g.b[1].d, g.b[2].d, 0, 18);
      d["kilohertz"] = f;
      if (kDab.count(f)) d["channel"] = kDab.at(f);
      if (g.b[3].got) d["ensemble_id"] = "0x" + hexs(g.b[3].d, 4);
      cover("dab");
      break;
    }
    case 0x4BD7: rtplus(g, rt, rtp, j["radiotext_plus"]); break;
    case 0x4BD8: rtplus(g, ert, ertp, j["ert_plus"]); break;
    case 0x6552: {
      size_t p = (g.b[1].d & 31) * 4;
      if (g.b[2].got) ert.set2(p, g.b[2].d);
      if (g.b[3].got) ert.set2(p + 2, g.b[3].d);
      if (ert.complete()) {
        j["enhanced_radiotext"] = rtrim(ert.last);
        cover("ert");
      }
      break;
    }
    case 0xCD46:
    case 0xCD47:
      if (g.b[2].got && g.b[3].got) tmc_user(bits(g.b[1].d, 0, 5), g.b[2].d, g.b[3].d, j);
      break;
    default:
      j["unknown_oda"]["app_id"] = hexs(it->second, 4);
      j["unknown_oda"]["app_name"] = app_name(it->second);
      j["unknown_oda"]["raw_data"] = raw;
  }
}

void Station::rtplus(const Grp& g, Txt& t, Plus& p, json& j) {
  bool tog = g.b[1].d & 16, run = g.b[1].d & 8;
  if (tog != p.toggle || run != p.running) {
    t.clear();
    p.toggle = tog;
    p.running = run;
  }
  j["item_running"] = run;
  j["item_toggle"] = tog ? 1 : 0;
  auto tag = [&](unsigned ct, unsigned st, unsigned len) {
    std::string s = t.sub(st, len);
    if (!s.empty() && ct) {
      json x;
      x["content-type"] = kRtPlus[ct];
      x["data"] = rtrim(s);
      j["tags"].push_back(x);
      cover("rtplus_tag");
    }
  };
  if (!g.b[2].got) return;
  uint16_t b2 = g.b[1].d, b3 = g.b[2].d, b4 = g.b[3].d;
  tag(bits2(b2, b3, 13, 6), bits(b3, 7, 6), bits(b3, 1, 6) + 1);
  if (g.b[3].got) tag(bits2(b3, b4, 11, 6), bits(b4, 5, 6), bits(b4, 0, 5) + 1);
}

// ------------------------------------------------------------------ RDS2
void Station::tc(const Grp& g, json& j) {
  for (auto& b : g.b)
    if (!b.got) return;
  uint16_t b1 = g.b[0].d, b2 = g.b[1].d, b3 = g.b[2].d, b4 = g.b[3].d;
  int fid = b1 >> 14, fn = b1 >> 8 & 63;
  auto lo = [](uint16_t x) { return int(x & 255); };
  auto hi = [](uint16_t x) { return int(x >> 8); };
  if (fid == 0 && fn == 0) return;
  if (fid == 0 && (fn & 0x30) == 0x20) {
    int p = fn & 15, tog = b1 >> 7 & 1;
    unsigned seg = bits2(b1, b2, 8, 15);
    if (pipe.count(p)) j["open_data_app"]["app_name"] = app_name(pipe[p]);
    auto& d = j["rft"]["data"];
    d["pipe"] = p;
    d["toggle"] = tog;
    d["byte_address"] = seg * 5;
    d["segment_data"] = {lo(b2), hi(b3), lo(b3), hi(b4), lo(b4)};
    Rft& r = rft[p];
    if (tog != r.toggle) r.seg.clear();
    r.toggle = tog;
    r.seg[seg] = {uint8_t(lo(b2)), uint8_t(hi(b3)), uint8_t(lo(b3)), uint8_t(hi(b4)), uint8_t(lo(b4))};
    unsigned need = (r.size + 4) / 5;
    if (r.size) {
      // complete when the first `need` addresses are all present
      auto e = r.seg.lower_bound(need);
      if (size_t(std::distance(r.seg.begin(), e)) == need) {
        std::string f;
        for (auto i = r.seg.begin(); i != e; ++i) f.append(i->second.begin(), i->second.end());
        f.resize(r.size);
        d["file_contents"] = base64(f);
        r.seg.clear();
        cover("rft_file");
      }
    }
    return;
  }
  if (fid == 1) {
    j["open_data_app"]["channel"] = fn;
    j["open_data_app"]["app_data"] = {lo(b1), hi(b2), lo(b2), hi(b3), lo(b3), hi(b4), lo(b4)};
    return;
  }
  if (fid == 2 && fn == 0) {
    if (b1 >> 6 & 3) return;
    int ch = b1 & 63;
    auto& a = j["open_data_app"];
    a["channel"] = ch;
    a["oda_aid"] = b2;
    a["app_name"] = app_name(b2);
    pipe[ch] = b2;
    if (ch >= 16) {
      a["app_data"] = {hi(b3), lo(b3), hi(b4), lo(b4)};
      return;
    }
    int v = b3 >> 12;
    if (v == 0) {
      unsigned size = bits2(b3, b4, 0, 18);
      if (size <= (1u << 15) * 5) rft[ch].size = size;
      auto& f = j["rft"]["file_info"];
      f["version"] = b3 >> 8 & 7;
      f["id"] = b3 >> 2 & 63;
      f["size"] = size;
      f["has_crc"] = bool(b3 >> 11 & 1);
    } else if (v == 1) {
      int mode = b3 >> 9 & 7;
      if (mode == 0) {
        j["rft"]["crc_info"]["file_crc16"] = b4;
      } else if (mode != 6) {
        auto& c = j["rft"]["crc_info"];
        c["chunk_crc16"] = b4;
        c["chunk_address"] = b3 & 511;
        c["crc_mode"] = mode;
      }
    } else {
      a[v >= 8 ? "non_file_oda_data" : "file_oda_data"] = hexs(bits2(b3, b4, 0, 28), 7);
    }
    return;
  }
  j["open_data_app"]["data"] = {hi(b2), lo(b2), hi(b3), lo(b3), hi(b4), lo(b4)};
}

// ------------------------------------------------------------------ TMC
void Station::tmc_system(uint16_t m, json& j) {
  int v = m >> 14;
  auto info = [&]() -> json& { return j["tmc"]["system_info"]; };
  if (v == 0) {
    int l = m >> 6 & 63;
    bool enc = l == 0;
    if (enc != tmc_enc) {
      msg = TmcMsg();
      msg.enc = msg.was_enc = enc;
    }
    tmc_init = true;
    tmc_enc = enc;
    info()["is_encrypted"] = enc;
    if (!enc) {
      ltn = l;
      info()["location_table"] = l;
    }
    info()["is_on_alt_freqs"] = bool(m & 32);
    for (auto& s : scope(m & 15)) info()["scope"].push_back(s);
  } else if (v == 1) {
    info()["service_id"] = m >> 6 & 63;
    static const int gap[] = {3, 5, 8, 11};
    info()["gap"] = gap[m >> 12 & 3];
    ltcc = m & 15;
    if (ltcc) info()["ltcc"] = ltcc;
  } else if (v == 2) {
    int e = m & 255;
    if (e) {
      info()["ltecc"] = e;
      if (ltcc) info()["country"] = country(ltcc, e);
    }
  }
}

void Station::tmc_user(uint16_t x, uint16_t y, uint16_t z, json& j) {
  if (!tmc_init) return;
  auto key = [&]() -> const Key* {
    auto it = w->keys.find(encid);
    return it == w->keys.end() ? nullptr : &it->second;
  };
  auto plain = [&](uint16_t e, const Key& k) -> uint16_t {
    uint16_t v = e ^ uint16_t(uint32_t(k.xorval) << k.xorstart);
    int r = k.nrot & 15;
    return r ? uint16_t(v << r | v >> (16 - r)) : v;
  };
  if (x == 0) {
    encid = y & 31;
    ltn = z >> 10;
    has_encid = true;
    j["tmc"]["system_info"]["service_id"] = y >> 5 & 63;
    j["tmc"]["system_info"]["encryption_id"] = encid;
    j["tmc"]["system_info"]["location_table"] = ltn;
    return;
  }
  if (x & 16) {
    int v = x & 15;
    if (v == 4 || v == 5) {
      size_t p = 4 * (v - 4);
      tmc_ps.set2(p, y);
      tmc_ps.set2(p + 2, z);
      if (tmc_ps.complete()) {
        j["tmc"]["service_provider"] = tmc_ps.last;
        cover("tmc_ps");
      }
    } else if (v == 6) {
      Af a;
      a.insert(y >> 8);
      a.insert(y & 255);
      j["tmc"]["other_network"]["pi"] = "0x" + hexs(z, 4);
      for (size_t i = 0; i < a.have; i++) j["tmc"]["other_network"]["frequencies_khz"].push_back(a.f[i]);
    } else if (v == 8) {
      if (y == 0 || z == 0 || y == z)
        j["tmc"]["other_network"]["pi"] = "0x" + hexs(y, 4);
      else
        j["tmc"]["other_network"]["pi_codes"] = {"0x" + hexs(y, 4), "0x" + hexs(z, 4)};
    } else if (v == 9) {
      auto& o = j["tmc"]["other_network"];
      o["pi"] = "0x" + hexs(z, 4);
      o["service_id"] = y & 63;
      o["location_table"] = y >> 10;
      for (auto& s : scope(y >> 6 & 15)) o["scope"].push_back(s);
    }
    return;
  }
  if (tmc_enc && !has_encid) return;
  if (x & 8) {
    json m = tmc_json(msg, true, y, z, tmc_enc, tmc_enc);
    if (tmc_enc) {
      m["encrypted_location"] = z;
      if (key()) m["location"] = plain(z, *key());
    } else {
      m["location"] = z;
    }
    tmc_locate(m);
    j["tmc"]["message"] = m;
    cover("tmc_single");
    return;
  }
  unsigned ci = x & 7;
  if (ci != msg.ci) {
    msg = TmcMsg();
    msg.enc = msg.was_enc = tmc_enc;
  }
  msg.ci = ci;
  bool first = y >> 15, last = false;
  int idx = 0;
  if (first) {
    if (msg.part[0].got && (msg.part[0].y != y || msg.part[0].z != z))
      for (auto& p : msg.part) p.got = false;
  } else {
    int gsi = y >> 12 & 3;
    idx = (y >> 14 & 1) ? 1 : 4 - gsi;
    last = gsi == 0;
  }
  msg.part[idx] = {true, y, z};
  if (!last) return;
  TmcMsg done = msg;
  bool enc = msg.enc;
  msg = TmcMsg();
  msg.enc = msg.was_enc = done.part[0].got ? tmc_enc : enc;
  if (!done.part[0].got) return;
  json m = tmc_json(done, false, 0, 0, enc, enc);
  uint16_t loc = done.part[0].z;
  if (enc) {
    m["encrypted_location"] = loc;
    if (tmc_enc && key()) m["location"] = plain(loc, *key());
  } else {
    m["location"] = loc;
  }
  tmc_locate(m);
  j["tmc"]["message"] = m;
  cover("tmc_multi");
}

json Station::tmc_json(const TmcMsg& M, bool single, uint16_t y, uint16_t, bool, bool) {
  json m;
  uint16_t fy = single ? y : M.part[0].y;
  int extent = fy >> 11 & 7;
  bool neg = fy >> 14 & 1;
  std::vector<int> ev{fy & 0x7FF}, sup, div;
  std::map<size_t, int> q;
  auto find = [&](int c) -> const Ev* {
    auto it = events().find(c);
    return it == events().end() ? nullptr : &it->second;
  };
  const Ev* e0 = find(ev[0]);
  bool both = e0 && e0->both;
  int urg = e0 ? e0->urg : 0;
  int starts = -1, until = -1, speed = -1;
  if (!single && M.part[1].got) {
    // groups that belong to the message: the second one, then those its sequence indicator announces
    std::vector<bool> fb;
    auto add = [&](uint16_t yy, uint16_t zz) {
      for (int i = 11; i >= 0; i--) fb.push_back(yy >> i & 1);
      for (int i = 15; i >= 0; i--) fb.push_back(zz >> i & 1);
    };
    add(M.part[1].y, M.part[1].z);
    int follow = M.part[1].y >> 12 & 3;
    for (int i = 5 - follow; i < 5; i++) {
      if (i < 2) continue;
      if (!M.part[i].got) break;
      add(M.part[i].y, M.part[i].z);
    }
    static const int size[16] = {3, 3, 5, 5, 5, 8, 8, 8, 8, 11, 16, 16, 16, 16, 0, 0};
    size_t at = 0;
    auto take = [&](int n) {
      int v = 0;
      while (n--) v = v << 1 | int(fb[at++]);
      return v;
    };
    while (fb.size() - at > 4) {
      int l = take(4);
      if (fb.size() - at < size_t(size[l])) break;
      int d = take(size[l]);
      if (l == 0 && d == 0) break;
      switch (l) {
        case 1:
          if (d == 0) urg = (urg + 1) % 3;
          if (d == 1) urg = (urg + 2) % 3;
          if (d == 2) both = !both;
          if (d == 6) extent += 8;
          if (d == 7) extent += 16;
          break;
        case 3: speed = d * 5; break;
        case 4:
        case 5: {
          const Ev* e = find(ev.back());
          if (!q.count(ev.size() - 1) && e && !e->descq.empty() && e->qsize() == (l == 4 ? 5 : 8))
            q[ev.size() - 1] = d;
          break;
        }
        case 6: sup.push_back(d); break;
        case 7: starts = d; break;
        case 8: until = d; break;
        case 9: ev.push_back(d); break;
        case 10: div.push_back(d); break;
        default: break;
      }
    }
    cover(follow == 0 ? "tmc_2grp" : follow == 1 ? "tmc_3grp" : follow == 2 ? "tmc_4grp" : "tmc_5grp");
  }
  m["event_codes"] = ev;
  if (!sup.empty()) m["supplementary_codes"] = sup;
  std::string d;
  bool unspec = false;
  auto sentence = [&](std::string s) {
    if (s == "\x01") unspec = true;
    if (!s.empty()) s[0] = toupper(s[0]);
    d += (d.empty() ? "" : ". ") + s;
  };
  bool any = false;
  for (size_t i = 0; i < ev.size(); i++)
    if (auto* e = find(ev[i])) {
      sentence(q.count(i) ? quantified(*e, q[i]) : e->desc);
      any = true;
    }
  if (e0) m["update_class"] = e0->cls;
  for (int s : sup)
    if (suppl().count(s)) {
      sentence(suppl().at(s));
      any = true;
    }
  if (any) m["description"] = unspec ? json("*") : json(d + ".");
  if (!div.empty()) m["diversion_route"] = div;
  if (speed >= 0) m["speed_limit"] = std::to_string(speed) + " km/h";
  m["direction"] = both ? "both" : "single";
  m["extent"] = (neg ? "-" : "+") + std::to_string(extent);
  if (starts >= 0) m["starts"] = time_str(starts);
  if (until >= 0) m["until"] = time_str(until);
  m["urgency"] = urg == 0 ? "none" : urg == 1 ? "U" : "X";
  return m;
}

void Station::tmc_locate(json& m) {
  auto it = w->loc.find(ltn);
  if (it == w->loc.end() || !m.contains("location")) return;
  const LocDb& db = it->second;
  if (db.ltn != ltn || ltn == 0) return;
  uint16_t lcd = m["location"];
  int ext = std::stoi(m["extent"].get<std::string>());
  // "-0" counts as the positive direction
  if (!db.points.count(lcd)) return;
  std::vector<const LocPoint*> pts;
  uint16_t at = lcd;
  for (int left = std::abs(ext) + 1; left > 0 && db.points.count(at); left--) {
    pts.push_back(&db.points.at(at));
    at = ext >= 0 ? pts.back()->pos : pts.back()->neg;
  }
  for (auto* p : pts) m["coordinates"].push_back({{"lat", double(p->lat)}, {"lon", double(p->lon)}});
  if (pts.size() > 1 && !pts.front()->name1.empty() && !pts.back()->name1.empty()) {
    m["span_from"] = pts.front()->name1;
    m["span_to"] = pts.back()->name1;
  }
  auto r = db.roads.find(pts[0]->roa);
  if (r != db.roads.end()) {
    if (!r->second.first.empty()) m["road_number"] = r->second.first;
    if (!r->second.second.empty())
      m["road_name"] = r->second.second;
    else if (!pts[0]->road_name.empty())
      m["road_name"] = pts[0]->road_name;
  }
  cover("tmc_located");
  if (pts.size() > 1) cover("tmc_span");
}

// ------------------------------------------------------------------ channel
Channel::Channel(const World* world) : w(world) {
  st.w = world;
}

bool Channel::process(const Grp& g, OutLine* out) {
  int e = 0;
  for (auto& b : g.b) e += !b.got || b.err;
  errs.push_back(e);
  if (errs.size() > 12) errs.pop_front();
  if (g.has_pi()) {
    uint16_t pi = g.pi();
    if (hasprev && p1 == p2 && pi == p1) {
      if (pi != conf) {
        Station s;
        s.w = w;
        s.pi = pi;
        s.known = true;
        st = s;
        confirms++;
        if (cov) (*cov)["pi_confirmed"]++;
      }
      conf = pi;
    }
    if (hasprev && pi != conf && p1 != conf && pi != p1) {
      conf = p1 = p2 = 0;
      hasprev = false;
    } else {
      hasprev = true;
    }
    p2 = p1;
    p1 = pi;
  }
  st.covp = cov;
  if (w->opt.hexout) {
    if (g.empty()) return false;
    out->hex = g.hex();
    return true;
  }
  bool printed = false;
  out->j = st.decode(g, &printed);
  if (!printed) return false;
  if (w->opt.bler) {
    int k = 0;
    for (int x : errs) k += x;
    out->j["bler"] = (200 * k + 48) / 96;  // round half up of 100*k/48
  }
  try {
    out->j.dump();
  } catch (...) {
    out->j = json::object();  // text that is not valid UTF-8 is not printed
  }
  return true;
}

std::vector<OutLine> run_groups(const World& w, const std::vector<Grp>& gs,
                                std::map<std::string, uint64_t>* cov) {
  std::vector<OutLine> r;
  Channel c(&w);
  c.cov = cov;
  for (size_t i = 0; i < gs.size(); i++) {
    OutLine l;
    l.grp = i;
    if (c.process(gs[i], &l)) r.push_back(l);
  }
  return r;
}

}  // namespace ref
