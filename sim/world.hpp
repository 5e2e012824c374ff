// The simulated world around redsea's main(): its stdin, stdout, stderr, clock,
// files and process lifetime. Everything here is driven by an Exec description;
// nothing reads a real clock or a random source.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace sim {

enum ReadFault : uint8_t { kNone = 0, kEintr = 1, kEio = 2, kKill = 3 };

// One delivery of input bytes. t_ns is the wall clock the program sees from the moment this chunk
// is handed over. A fault happens instead of/before the delivery.
struct Chunk {
  uint32_t len{};
  int64_t t_ns{};
  uint8_t fault{kNone};
};

struct FileFault {        // applied to reads from regular files (fd > 2), by open order
  uint32_t max_read{0};   // 0 = no limit (short reads)
  int64_t eio_after{-1};  // bytes after which reads fail with EIO
  uint32_t eintr_every{0};
};

struct Exec {
  std::vector<std::string> argv;  // without argv[0]
  std::string input;
  std::vector<Chunk> chunks;  // sum(len) may be < input.size(): rest never arrives
  int64_t t0_ns{};            // wall clock before the first delivery
  std::string tz{"UTC"};
  std::string cwd;  // directory to run in ("" = unchanged)
  FileFault file_fault;
  int64_t write_fail_after{-1};  // stdout device fails (EIO) after this many bytes
  uint32_t write_max{0};         // direct write(1): short writes of at most this many bytes
  uint32_t write_eintr_every{0};
  int64_t kill_at_write{-1};  // process dies at the n-th write call on stdout/stderr device
  uint32_t kill_partial{0};   // ... after this many bytes of it reached the device
  int cpu_limit_s{40};
  uint32_t max_asks_after_eof = 2000;  // more than this is taken for an endless loop
  bool need_log{true};
  int perturb{-1};    // byte that fresh heap and stack memory is filled with
  std::vector<std::string> env;  // extra NAME=value settings
  uint32_t first_bit{}, first_sample{};  // simulation hooks: where the counters start
  bool stdin_file{};  // stdin is a regular (seekable) file instead of a pipe
};

struct Event {
  uint32_t in_off;   // input bytes delivered when the program asked for more
  uint32_t out_len;  // bytes on stdout device at that moment
  uint32_t err_len;
  uint32_t kind;  // 0 read request, 1 eof returned
  uint32_t live_n;  // allocations alive
  uint64_t live_bytes;
};

struct Result {
  enum Kind { kExit, kSignal, kHang, kKilled, kCpu, kOther } kind{kOther};
  int code{};
  std::string out, err;
  std::vector<Event> events;
  uint64_t reads{}, writes{}, now_calls{}, eintrs{}, eios{}, shorts{}, file_reads{}, file_eios{}, file_shorts{},
      file_eintrs{}, write_faults{}, clock_back{};
  bool overflow{};
  std::string what() const;
  bool clean() const {
    return kind == kExit && code == 0;
  }
};

void world_init();
Result run_main(const Exec& e);
// Run main() in this very process (used once to warm caches)
void warm_up();

uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull);
uint64_t hash_result(const Result& r);

}  // namespace sim
