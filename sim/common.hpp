#pragma once
#include "mpx.hpp"
#include "plan.hpp"

namespace sim {
using gen::FaultMix;
using gen::G;
using gen::Mix;
using gen::Rng;

inline bool has_arg(const std::vector<std::string>& a, const char* s) {
  for (auto& x : a)
    if (x == s) return true;
  return false;
}

// Removes what a comparison must not depend on
void normalise(json& j);
// Equality with the tolerances the properties grant
bool same(const json& exp, const json& act);
// Keeps only the given paths ("a" or "a.b" or "a.b.c"); "*" keeps everything
json project(const json& j, const std::vector<std::string>& paths);
void drop_path(json& j, const std::string& path);

std::vector<ref::Grp> groups_of(const ref::Opt& o, const std::string& input);

struct ModelOut {
  ref::World w;
  std::vector<ref::Grp> groups;
  std::vector<ref::OutLine> lines;
};
ModelOut model_of(const Plan& p, const std::string& input, Stats& st, bool second = false);

// Compares the program's output text with the model's, projected
Verdict compare_model(const ModelOut& m, const std::string& text, const std::vector<std::string>& paths, Stats& st,
                      const std::vector<std::string>& drop = {});
// run + compare
Verdict check_model(const Plan& p, Stats& st, const std::vector<std::string>& paths);

Verdict not_clean(const Result& r, const char* what = "run");
Verdict diff_text(const std::string& cls, const std::string& a, const std::string& b, const std::string& na, const std::string& nb);

// ---- plan construction
Plan base_plan(const char* id, uint64_t seed);
// fmt: hex, tef, bits. Appends items.
void add_groups(Plan& p, Rng& r, const std::vector<G>& g, const std::string& fmt, double correctable);
std::string pick_fmt(Rng& r, double hex = 0.6, double tef = 0.15);
void pick_delivery(Plan& p, Rng& r);
void pick_display_opts(Plan& p, Rng& r, double each);
void add_loc(Plan& p, Rng& r, int damage, int base = 0);
void add_confirmation(Plan& p, Rng& r, std::vector<G>& g);  // three clean groups first
void to_bits_noise(Rng& r, std::string& s, int n);

// ---- MPX plans: items are segments (see mpx.hpp), tag = PCM channel
bool is_mpx(const Plan& p);
void mpx_params(Plan& p, Rng& r, double rate, int channels);
void add_mpx(Plan& p, Rng& r, const std::vector<G>& g, int channel, bool streams);
std::vector<mpx::Signal> mpx_signals(const Plan& p, bool second = false);
std::string mpx_bytes(const Plan& p, const std::vector<mpx::Signal>& s);
// what arrives on stdin, for any kind of plan
std::string full_input(const Plan& p, bool second = false);
std::string hex_of(const mpx::Sent& s);  // as printed in hex output

// fault counters of plan construction are kept in p.n with this prefix and added to the statistics
void count_faults(Plan& p, const std::map<std::string, uint64_t>& st);

}  // namespace sim
