// Executable reference model of what redsea has to print, written from the property texts and the
// RDS standards it implements. Shares no code with /repo.
#pragma once
#include <cstdint>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include <nlohmann/json.hpp>

namespace ref {
using json = nlohmann::json;

struct Blk {
  bool got{};
  bool err{};  // had errors before correction
  uint16_t d{};
};
struct Grp {
  Blk b[4];
  bool cprime{};  // block 3 arrived with offset word C'
  bool nooff{};   // source format carries no offset words
  int stream{};
  size_t off{};   // number of input bytes that complete it
  bool at_eof{};  // only processed because the input ended
  bool empty() const {
    return !(b[0].got || b[1].got || b[2].got || b[3].got);
  }
  bool is_c() const {
    return stream != 0;
  }
  bool has_type() const {
    if (stream) return true;
    if (!b[1].got) return false;
    bool B = b[1].d & 0x0800;
    return !B || nooff || (b[2].got && cprime);
  }
  int number() const {
    return b[1].d >> 12;
  }
  bool vb() const {
    return b[1].d & 0x0800;
  }
  bool has_pi() const {
    return !stream && (b[0].got || (b[2].got && cprime));
  }
  uint16_t pi() const {
    return b[0].got ? b[0].d : b[2].d;
  }
  std::string hex() const;  // as in hex output, without newline
};

struct Opt {
  bool hexout{}, rbds{}, partial{}, raw{}, bler{}, streams{}, ts{}, feed{};
  bool fec{true};
  int channels{1};
  std::string tfmt, input;
  std::vector<std::string> loc;
};
Opt parse_opts(const std::vector<std::string>& argv);

// ---- front ends: bytes -> groups
std::vector<Grp> read_hex(const std::string& in);
std::vector<Grp> read_tef(const std::string& in);

constexpr uint32_t kOffA = 0xFC, kOffB = 0x198, kOffC = 0x168, kOffCp = 0x350, kOffD = 0x1B4;
uint32_t checkword(uint16_t data);
uint32_t syndrome26(uint32_t v);
// offset index 0..4 = A B C C' D, -1 = none
int offset_of(uint32_t v26);
// correctable for the given offset index? returns true and corrected 26-bit word
bool correctable(uint32_t v26, int off, uint32_t* fixed);

struct BlockSync {
  bool fec{true};
  uint32_t reg{};
  uint64_t n{};
  bool locked{};
  uint64_t next_at{};
  int expect{};
  struct Pulse {
    int off{-1};
    uint64_t pos{};
  };
  std::deque<Pulse> pulses;
  std::deque<int> win;
  Grp cur;
  // statistics
  uint64_t locks{}, losses{}, blocks{}, corrected{}, rejected{}, clean{};
  // returns true if a group is ready in `out`
  bool push(int bit, Grp* out);
};
std::vector<Grp> read_bits(const std::string& in, bool fec, BlockSync* stats = nullptr);

// ---- back end
struct Txt {
  enum Enc { Basic, UCS2, UTF8 } enc{Basic};
  std::vector<uint8_t> data;
  size_t L{}, prev{};
  std::string last;
  explicit Txt(size_t n = 8, Enc e = Basic) : enc(e), data(n) {}
  void set(size_t pos, uint8_t byte);
  void set2(size_t pos, uint16_t w) {
    set(pos, w >> 8);
    set(pos + 1, w & 255);
  }
  size_t expected() const;
  bool complete() const {
    return L >= expected();
  }
  bool has_term() const;
  std::vector<uint8_t> bytes() const;
  bool str(std::string* out) const;  // false: not representable
  std::string sub(size_t start, size_t len) const;
  void clear() {
    L = 0;
    last.clear();
  }
};

struct Af {
  int f[26]{};
  size_t want{}, have{};
  bool lfmf{};
  void insert(int code);
  bool method_b() const;
  bool complete() const {
    return want == have && have > 0;
  }
  void clear() {
    want = have = 0;
  }
};

struct LocPoint {
  std::string name1, road_name;
  uint16_t roa{}, seg{}, neg{}, pos{};
  float lon{}, lat{};
};
struct LocDb {
  uint16_t ltn{};
  std::map<uint16_t, LocPoint> points;
  std::map<uint16_t, std::pair<std::string, std::string>> roads;  // number, name
  std::map<int, std::string> names;
  bool open_names{}, open_enc{};
  std::map<uint16_t, uint16_t> segs;
};
struct Key {
  uint8_t xorval{}, xorstart{}, nrot{};
};
using Files = std::map<std::string, std::string>;  // relative path -> content

struct World {  // what the decoder can see besides its input
  Opt opt;
  std::map<uint16_t, LocDb> loc;
  std::map<uint16_t, Key> keys;
  bool open_enc{};  // a location table is in an encoding the model does not know
  std::vector<json> banner;  // location_table_info lines printed at start
};
World make_world(const std::vector<std::string>& argv, const Files& files);

struct TmcMsg {
  bool enc{}, was_enc{};
  struct Part {
    bool got{};
    uint16_t y{}, z{};
  } part[5];
  unsigned ci{};
};

struct Station {
  const World* w{};
  uint16_t pi{};
  bool known{};
  bool last_had_pi{};
  Txt ps{8}, lps{32, Txt::UTF8}, rt{64}, ert{64}, ptyn{8}, tdc{128};
  int rt_ab{}, ptyn_ab{};
  std::string rt_prev;
  struct Plus {
    bool toggle{}, running{};
  } rtp, ertp;
  Af af;
  std::map<int, uint16_t> oda;   // (number<<1|B) -> aid
  std::map<int, uint16_t> pipe;  // pipe -> aid
  std::map<uint16_t, Txt> eon_ps;
  std::map<uint16_t, Af> eon_af;
  // TMC
  bool tmc_init{}, tmc_enc{}, has_encid{};
  uint16_t ltn{}, encid{}, ltcc{};
  TmcMsg msg;
  Txt tmc_ps{8};
  struct Rft {
    uint32_t size{};
    int toggle{};
    std::map<uint32_t, std::vector<uint8_t>> seg;
  } rft[16];

  json decode(const Grp& g, bool* printed);
  // statistics: completions reached
  std::map<std::string, uint64_t> cov;
  std::map<std::string, uint64_t>* covp{};

 private:
  void cover(const char* k) {
    if (covp) (*covp)[k]++;
  }
  void t0(const Grp&, json&);
  void t1(const Grp&, json&);
  void t2(const Grp&, json&);
  void t3a(const Grp&, json&);
  void t4a(const Grp&, json&);
  void t5(const Grp&, json&);
  void t6(const Grp&, json&);
  void t10a(const Grp&, json&);
  void t14(const Grp&, json&);
  void t15a(const Grp&, json&);
  void t15b(const Grp&, json&);
  void toda(const Grp&, json&);
  void tc(const Grp&, json&);
  void rtplus(const Grp&, Txt&, Plus&, json&);
  void tmc_system(uint16_t m, json&);
  void tmc_user(uint16_t x, uint16_t y, uint16_t z, json&);
  void tmc_locate(json& m);
  json tmc_json(const TmcMsg& m, bool single, uint16_t y, uint16_t z, bool enc, bool was);
};

struct OutLine {
  json j;           // JSON output (without "debug", rx_time, callsign)
  std::string hex;  // hex output
  size_t grp;       // index of the group that caused it
};

struct Channel {
  const World* w{};
  uint16_t conf{}, p1{}, p2{};
  bool hasprev{};
  std::deque<int> errs;
  Station st;
  std::map<std::string, uint64_t>* cov{};
  uint64_t confirms{};
  explicit Channel(const World* world);
  // returns true if a line is printed
  bool process(const Grp& g, OutLine* out);
};

std::vector<OutLine> run_groups(const World& w, const std::vector<Grp>& gs,
                                std::map<std::string, uint64_t>* cov = nullptr);

std::string base64(const std::string& s);
std::string utf8_of_rds(const std::vector<uint8_t>& b);
std::string app_name(uint16_t aid);
std::string country(int cc, int ecc);

}  // namespace ref
