// Simulated transmitters and the simulated radio channel between them and the receiver.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace gen {

struct Rng {
  uint64_t s;
  // The seed is scrambled first: next() adds a constant to the state, so that states of neighbouring
  // seeds must not lie a multiple of it apart.
  explicit Rng(uint64_t seed) : s((seed ^ 0x6A09E667F3BCC909ull) * 0xD1342543DE82EF95ull) {
    s = next() ^ seed << 32;
    s = next();
  }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint32_t below(uint32_t n) {
    return n ? uint32_t((next() >> 32) * n >> 32) : 0;
  }
  int range(int a, int b) {  // inclusive
    return a + int(below(uint32_t(b - a + 1)));
  }
  double unit() {
    return double(next() >> 11) / 9007199254740992.0;
  }
  bool p(double x) {
    return unit() < x;
  }
  double gauss();
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[below(uint32_t(v.size()))];
  }
  uint16_t u16() {
    return uint16_t(next() >> 40);
  }
};

struct G {
  uint16_t w[4]{};
  bool got[4]{true, true, true, true};
  int stream{};
  bool cp{};      // block 3 is sent with offset C'
  int svc{-1};    // service that sent it
  bool drop{};    // never arrives at all
  bool glitch{};  // block 1 replaced by a wrong PI
  uint16_t right_pi{};
  int station{};
};

enum Svc {
  PS_A, PS_B, SLOW_A, SLOW_B, RT_A, RT_B, ODA_ANN, CLOCK, TDC_A, TDC_B, IH_A, IH_B, TMC, TMC_TUNE, PTYN, EON, LPS, DI_B,
  RTPLUS, ERT, ERTPLUS, DAB, ODA_RAW, RFT, CGRP, RANDOM, NSVC
};

struct Mix {
  std::vector<double> w = std::vector<double>(NSVC, 0.0);
  double random_bits{0.0};   // flip random bits of structured groups (still "received")
  int groups{120};
  int stations{1};
  double retune{0.0};        // per group: switch to another transmitter
  int burst{5};              // mean consecutive groups of a service
  bool tmc_enc{};            // encrypted services may appear
  bool tmc_loc{};            // locations from the generated location table
  bool ann_text{};           // announcements are mostly of RT+, eRT and eRT+
  bool crowd{};              // many other networks and file pipes
  int loc_base{};            // location codes start here
  int charset{1};            // 0 ascii, 1 mostly ascii, 2 anything
  double change{0.08};       // text changes per cycle
  double midchange{0.02};    // text changes in the middle of a cycle
  double restart{0.05};      // transmission of a text restarts from its beginning
  double skip{0.0};          // sender skips to a random segment
};
Mix mix_of(std::initializer_list<std::pair<int, double>> l);

struct FaultMix {
  double blk[4]{0, 0, 0, 0};  // loss per block
  double drop{0};             // whole group vanishes
  double burst{0};            // start of a burst of lost groups
  int burst_len{6};
  double dup{0}, swap{0};
  double glitch{0};           // isolated wrong PI
  double empty{0};            // all blocks lost but the line is there
  double b1_runs{0};          // start of a run of groups without PI
};
FaultMix random_faults(Rng& r, int level);  // 0 none .. 3 heavy

std::vector<G> transmit(Rng& r, const Mix& m);
void channel(Rng& r, std::vector<G>& g, const FaultMix& f, std::map<std::string, uint64_t>& st);

std::string hex_line(const G& g);                // with newline
std::string hex_line_style(const G& g, Rng& r);  // spacing, case, missing-block markers, trailing stuff
std::string tef_lines(const G& g, Rng& r);
std::string bits_of(const G& g);  // clean 104 bits
// bits with lost blocks rendered as uncorrectable errors and others with correctable errors
std::string bits_faulty(const G& g, Rng& r, double correctable);

// TMC Exchange location table with damage
std::map<std::string, std::string> location_files(Rng& r, const std::string& dir, int ltn, int damage,
                                                  std::map<std::string, uint64_t>& st, int base = 0);
std::string key_file(Rng& r, int damage);

}  // namespace gen
