// Included in front of every file of redsea in the simulator: the values of the simulation hooks.
#pragma once
#include <cstdint>
namespace sim_hooks {
extern std::uint32_t first_bit, first_sample;
struct Value {
  std::uint32_t v;
  template <class T>
  constexpr operator T() const {
    return static_cast<T>(v);
  }
};
}  // namespace sim_hooks
#define REDSEA_SIM_FIRST_BIT \
  sim_hooks::Value {         \
    sim_hooks::first_bit     \
  }
#define REDSEA_SIM_FIRST_SAMPLE \
  sim_hooks::Value {            \
    sim_hooks::first_sample     \
  }
