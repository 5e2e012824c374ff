// Simulated FM multiplex: RDS subcarriers, audio, noise and fading as raw 16-bit samples.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

#include "gen.hpp"
#include "ref.hpp"

namespace mpx {

// A signal is a list of segments, each one line of text:
//   "G 6204 0408 1234 5678"          one group (104 bits) on the main subcarrier
//   "G w w w w / w w w w / / w ..."  groups on the main and data-stream subcarriers in parallel
//                                    ("'" after the third word: offset C'; "-" = that subcarrier idle)
//   "B 010101"                       these bits on the main subcarrier
//   "Z 250"                          no RDS for that many ms (noise and audio go on)
//   "Q 250"                          digital silence (all samples zero)
//   "X 250"                          full-scale noise bursts
//   "V 0.03"  RDS level     "S 0.002" noise sigma    "A 0.2" audio level    "D 0.01" DC offset
//   "F 1.5"   carrier offset in Hz   "C 20" clock offset in ppm   "J 1.57" carrier phase jump
struct Spec {
  double rate{171000};
  uint64_t seed{};
  double phase{};      // initial carrier phase
  double bit_phase{};  // initial position within a bit (0..1)
};
struct Sent {
  int stream;
  uint16_t w[4];
  bool cp;
  double t0, t1;  // signal time of its first and last bit, s
  size_t item;
};
struct Signal {
  std::vector<int16_t> s;
  std::vector<Sent> sent;
  double seconds{};
};
Signal render(const Spec& sp, const std::vector<std::string>& items);
std::string interleave(const std::vector<std::vector<int16_t>>& ch);
std::string bytes_of(const std::vector<int16_t>& s);

}  // namespace mpx
