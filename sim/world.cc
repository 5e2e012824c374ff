#include "world.hpp"

#include <errno.h>
#include <fcntl.h>
#include <getopt.h>
#include <malloc.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <chrono>
#include <ext/stdio_sync_filebuf.h>
#include <iostream>

int redsea_main(int argc, char** argv);

namespace sim_hooks {
uint32_t first_bit, first_sample;
}

namespace sim {

namespace {

constexpr size_t kOutCap = 48u << 20, kErrCap = 48u << 20, kEvCap = 1u << 20;

struct Shared {
  uint64_t out_len, err_len, n_ev;
  uint64_t reads, writes, now_calls, eintrs, eios, shorts, file_reads, file_eios, file_shorts, file_eintrs,
      write_faults, clock_back;
  uint32_t done, overflow, hang, killed;
  int code;
};

Shared* g_sh;
char* g_out;
char* g_err;
Event* g_ev;

// child-side state
bool g_active = false;
const Exec* g_x;
size_t g_chunk, g_chunk_pos;
uint64_t g_in_off;
int64_t g_now;
uint32_t g_asks_after_eof;
uint64_t g_write_calls, g_eintr_ctr;
FILE* g_files[3];
int g_stdin_fd = -1;
uint64_t g_file_pos[1024];
uint64_t g_file_ctr;
int64_t g_live_n, g_live_bytes;  // allocations made and not yet freed while the program runs

[[noreturn]] void child_exit(int c) {
  _exit(c);
}

void log_event(uint32_t kind) {
  if (!g_x->need_log)
    return;
  if (g_sh->n_ev >= kEvCap) {
    g_sh->overflow = 1;
    return;
  }
  Event& e = g_ev[g_sh->n_ev++];
  e.in_off = static_cast<uint32_t>(g_in_off);
  e.out_len = static_cast<uint32_t>(g_sh->out_len);
  e.err_len = static_cast<uint32_t>(g_sh->err_len);
  e.kind = kind;
  e.live_n = static_cast<uint32_t>(g_live_n);
  e.live_bytes = static_cast<uint64_t>(g_live_bytes);
}

// The program asks for up to n bytes of input. stdio: called through the FILE cookie; direct: via
// read(2) on fd 0.
ssize_t sim_read(char* buf, size_t n, bool direct) {
  g_sh->reads++;
  log_event(0);
  for (;;) {
    if (g_chunk >= g_x->chunks.size()) {
      log_event(1);
      if (++g_asks_after_eof > g_x->max_asks_after_eof) {
        g_sh->hang = 1;
        child_exit(97);
      }
      return 0;
    }
    const Chunk& c = g_x->chunks[g_chunk];
    if (g_chunk_pos == 0) {
      if (c.fault == kKill) {
        g_sh->killed = 1;
        child_exit(98);
      }
      if (c.fault == kEio) {
        g_sh->eios++;
        if (++g_asks_after_eof > g_x->max_asks_after_eof) {
          g_sh->hang = 1;
          child_exit(97);
        }
        errno = EIO;
        return -1;
      }
      if (c.fault == kEintr && direct && g_eintr_ctr != g_chunk + 1) {
        g_eintr_ctr = g_chunk + 1;
        g_sh->eintrs++;
        errno = EINTR;
        return -1;
      }
      if (c.t_ns < g_now)
        g_sh->clock_back++;
      g_now = c.t_ns;
    }
    size_t left = c.len - g_chunk_pos;
    if (g_stdin_fd < 0 && g_in_off + left > g_x->input.size())
      left = g_x->input.size() - g_in_off;
    if (left == 0) {
      g_chunk++;
      g_chunk_pos = 0;
      continue;
    }
    size_t k = left < n ? left : n;
    if (k < n)
      g_sh->shorts++;
    if (g_stdin_fd >= 0) {
      ssize_t got = syscall(SYS_read, 0, buf, k);
      if (got <= 0)
        return got;
      k = static_cast<size_t>(got);
    } else {
      memcpy(buf, g_x->input.data() + g_in_off, k);
    }
    g_in_off += k;
    g_chunk_pos += k;
    if (g_chunk_pos >= c.len) {
      g_chunk++;
      g_chunk_pos = 0;
    }
    return static_cast<ssize_t>(k);
  }
}

void put(int which, const char* b, size_t n) {
  char* dst = which == 1 ? g_out : g_err;
  uint64_t& len = which == 1 ? g_sh->out_len : g_sh->err_len;
  size_t cap = which == 1 ? kOutCap : kErrCap;
  if (len + n > cap) {
    g_sh->overflow = 1;
    n = cap - len;
  }
  memcpy(dst + len, b, n);
  len += n;
}

ssize_t sim_write(int which, const char* b, size_t n, bool direct) {
  g_sh->writes++;
  g_write_calls++;
  if (g_x->kill_at_write >= 0 && g_write_calls == static_cast<uint64_t>(g_x->kill_at_write) + 1) {
    put(which, b, n < g_x->kill_partial ? n : g_x->kill_partial);
    g_sh->killed = 1;
    child_exit(98);
  }
  if (which == 1 && g_x->write_fail_after >= 0 &&
      static_cast<int64_t>(g_sh->out_len + n) > g_x->write_fail_after) {
    g_sh->write_faults++;
    errno = EIO;
    return -1;
  }
  if (direct && n > 0) {
    if (g_x->write_eintr_every && g_write_calls % g_x->write_eintr_every == 0) {
      g_sh->eintrs++;
      errno = EINTR;
      return -1;
    }
    if (g_x->write_max && n > g_x->write_max) {
      n = g_x->write_max;
      g_sh->shorts++;
    }
  }
  put(which, b, n);
  return static_cast<ssize_t>(n);
}

ssize_t ck_read(void*, char* b, size_t n) {
  return sim_read(b, n, false);
}
ssize_t ck_write1(void*, const char* b, size_t n) {
  ssize_t r = sim_write(1, b, n, false);
  return r < 0 ? 0 : r;
}
ssize_t ck_write2(void*, const char* b, size_t n) {
  ssize_t r = sim_write(2, b, n, false);
  return r < 0 ? 0 : r;
}

__attribute__((noinline)) void dirty_stack(int byte) {
  volatile char junk[192 * 1024];
  memset(const_cast<char*>(junk), byte, sizeof junk);
  asm volatile("" ::"r"(junk) : "memory");
}

int child_main(const Exec& e) {
  g_x = &e;
  g_chunk = g_chunk_pos = 0;
  g_in_off = 0;
  g_now = e.t0_ns;
  sim_hooks::first_bit = e.first_bit;
  sim_hooks::first_sample = e.first_sample;
  g_live_n = g_live_bytes = 1 << 30;
  g_asks_after_eof = 0;
  g_write_calls = g_eintr_ctr = g_file_ctr = 0;
  memset(g_file_pos, 0, sizeof g_file_pos);

  for (auto& v : e.env) {
    size_t q = v.find('=');
    setenv(v.substr(0, q).c_str(), v.c_str() + q + 1, 1);
  }
  setenv("TZ", e.tz.c_str(), 1);
  tzset();
  if (!e.cwd.empty() && chdir(e.cwd.c_str()) != 0)
    child_exit(96);

  if (e.stdin_file) {
    int fd = static_cast<int>(syscall(SYS_memfd_create, "stdin", 0));
    size_t at = 0;
    while (fd >= 0 && at < e.input.size()) {
      ssize_t k = syscall(SYS_write, fd, e.input.data() + at, e.input.size() - at);
      if (k <= 0)
        child_exit(96);
      at += static_cast<size_t>(k);
    }
    if (fd < 0 || lseek(fd, 0, SEEK_SET) != 0 || dup2(fd, 0) != 0)
      child_exit(96);
    syscall(SYS_close, fd);
    g_stdin_fd = 0;
  }

  cookie_io_functions_t fr{}, fw1{}, fw2{};
  fr.read = ck_read;
  fw1.write = ck_write1;
  fw2.write = ck_write2;
  FILE* in = fopencookie(nullptr, "r", fr);
  FILE* out = fopencookie(nullptr, "w", fw1);
  FILE* err = fopencookie(nullptr, "w", fw2);
  static char obuf[4096], ibuf[4096];
  setvbuf(in, ibuf, _IOFBF, sizeof ibuf);
  setvbuf(out, obuf, _IOFBF, sizeof obuf);
  setvbuf(err, nullptr, _IONBF, 0);
  stdin = in;
  stdout = out;
  stderr = err;
  g_files[0] = in;
  g_files[1] = out;
  g_files[2] = err;
  // The very buffer class std::cin and std::cout use by default (synchronised with stdio). Never
  // freed: the process may still touch the streams while it exits.
  using Buf = __gnu_cxx::stdio_sync_filebuf<char>;
  auto *bin = new Buf(in), *bout = new Buf(out), *berr = new Buf(err);
  std::cin.rdbuf(bin);
  std::cout.rdbuf(bout);
  std::cerr.rdbuf(berr);
  std::clog.rdbuf(berr);
  std::cin.clear();
  std::cout.clear();
  std::cerr.clear();

  std::vector<std::string> store{"redsea"};
  for (auto& a : e.argv) store.push_back(a);
  std::vector<char*> av;
  for (auto& s : store) av.push_back(&s[0]);
  av.push_back(nullptr);
  optind = 0;
  errno = 0;
  if (e.perturb >= 0) {
    mallopt(M_PERTURB, e.perturb);
    dirty_stack(e.perturb);
  }
  g_active = true;
  int rc = redsea_main(static_cast<int>(store.size()), av.data());
  std::cout.flush();
  fflush(out);
  fflush(err);
  return rc;
}

}  // namespace

void world_init() {
  size_t total = 4096 + sizeof(Event) * kEvCap + kOutCap + kErrCap;
  char* m = static_cast<char*>(
      mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (m == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  g_sh = reinterpret_cast<Shared*>(m);
  g_ev = reinterpret_cast<Event*>(m + 4096);
  g_out = m + 4096 + sizeof(Event) * kEvCap;
  g_err = g_out + kOutCap;
  // fd 0 and 1 look like pipes to fstat(); no byte ever travels through them.
  int p[2], q[2];
  if (pipe(p) || pipe(q))
    exit(3);
  // keep the harness's own stdout on a high descriptor
  dup2(1, 200);
  dup2(p[0], 0);
  dup2(q[1], 1);
}

Result run_main(const Exec& e) {
  memset(g_sh, 0, sizeof *g_sh);
  Result r;
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(3);
  }
  if (pid == 0) {
    struct itimerval tv {};
    tv.it_value.tv_sec = e.cpu_limit_s;
    signal(SIGPROF, SIG_DFL);
    setitimer(ITIMER_PROF, &tv, nullptr);
    struct rlimit rl {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    int code = 95;
    code = child_main(e);
    g_sh->code = code;
    g_sh->done = 1;
    child_exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (WIFSIGNALED(st)) {
    r.kind = WTERMSIG(st) == SIGPROF ? Result::kCpu : Result::kSignal;
    r.code = WTERMSIG(st);
  } else if (g_sh->done) {
    r.kind = Result::kExit;
    r.code = g_sh->code;
  } else if (g_sh->hang) {
    r.kind = Result::kHang;
  } else if (g_sh->killed) {
    r.kind = Result::kKilled;
  } else {
    r.kind = Result::kOther;  // exit() called by the program or a sanitizer
    r.code = WEXITSTATUS(st);
  }
  r.out.assign(g_out, g_sh->out_len);
  r.err.assign(g_err, g_sh->err_len);
  r.events.assign(g_ev, g_ev + g_sh->n_ev);
  r.reads = g_sh->reads;
  r.writes = g_sh->writes;
  r.now_calls = g_sh->now_calls;
  r.eintrs = g_sh->eintrs;
  r.eios = g_sh->eios;
  r.shorts = g_sh->shorts;
  r.file_reads = g_sh->file_reads;
  r.file_eios = g_sh->file_eios;
  r.file_shorts = g_sh->file_shorts;
  r.file_eintrs = g_sh->file_eintrs;
  r.write_faults = g_sh->write_faults;
  r.clock_back = g_sh->clock_back;
  r.overflow = g_sh->overflow;
  return r;
}

std::string Result::what() const {
  switch (kind) {
    case kExit:   return "exit " + std::to_string(code);
    case kSignal: return std::string("killed by signal ") + std::to_string(code) + " (" + strsignal(code) + ")";
    case kHang:   return "keeps asking for input after the end of input";
    case kKilled: return "killed by the simulator";
    case kCpu:    return "does not terminate (CPU limit)";
    default:      return "terminated abnormally with status " + std::to_string(code);
  }
}

void warm_up() {
  Exec e;
  e.argv = {"-i", "hex"};
  for (int i = 0; i < 4; i++) e.input += "6204 3540 0066 CD46\n";
  e.chunks.push_back({static_cast<uint32_t>(e.input.size()), 0, kNone});
  FILE *si = stdin, *so = stdout, *se = stderr;
  auto *ci = std::cin.rdbuf(), *co = std::cout.rdbuf(), *ce = std::cerr.rdbuf(), *cl = std::clog.rdbuf();
  child_main(e);
  g_active = false;
  stdin = si;
  stdout = so;
  stderr = se;
  std::cin.rdbuf(ci);
  std::cout.rdbuf(co);
  std::cerr.rdbuf(ce);
  std::clog.rdbuf(cl);
  std::cin.clear();
}

uint64_t fnv(const std::string& s, uint64_t h) {
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return h;
}

uint64_t hash_result(const Result& r) {
  uint64_t h = fnv(r.out);
  h = fnv("|" + r.err, h);
  h = fnv("|" + std::to_string(r.kind) + "," + std::to_string(r.code), h);
  for (auto& e : r.events) {
    h ^= (static_cast<uint64_t>(e.in_off) << 32) ^ e.out_len ^ (static_cast<uint64_t>(e.err_len) << 20) ^ e.kind;
    h *= 1099511628211ull;
  }
  return h;
}

}  // namespace sim

// ---------------------------------------------------------------- link-level seams

#ifndef SIM_ASAN
// Counting allocations, for the property that memory does not grow
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);

static inline void* counted(void* p) {
  if (p && sim::g_active) {
    sim::g_live_n++;
    sim::g_live_bytes += static_cast<int64_t>(malloc_usable_size(p));
  }
  return p;
}
static inline void uncount(void* p) {
  if (p && sim::g_active) {
    sim::g_live_n--;
    sim::g_live_bytes -= static_cast<int64_t>(malloc_usable_size(p));
  }
}
void* malloc(size_t n) {
  return counted(__libc_malloc(n));
}
void* calloc(size_t a, size_t b) {
  return counted(__libc_calloc(a, b));
}
void* realloc(void* p, size_t n) {
  if (!sim::g_active) return __libc_realloc(p, n);
  int64_t before = p ? static_cast<int64_t>(malloc_usable_size(p)) : 0;
  void* q = __libc_realloc(p, n);
  if (q) {
    sim::g_live_bytes += static_cast<int64_t>(malloc_usable_size(q)) - before;
    if (!p) sim::g_live_n++;
  } else if (n == 0 && p) {
    sim::g_live_n--;
    sim::g_live_bytes -= before;
  }
  return q;
}
void* memalign(size_t a, size_t n) {
  return counted(__libc_memalign(a, n));
}
void* aligned_alloc(size_t a, size_t n) {
  return counted(__libc_memalign(a, n));
}
int posix_memalign(void** r, size_t a, size_t n) {
  void* p = counted(__libc_memalign(a, n));
  if (!p) return ENOMEM;
  *r = p;
  return 0;
}
void free(void* p) {
  uncount(p);
  __libc_free(p);
}
}
#endif

extern "C" {

ssize_t read(int fd, void* buf, size_t n) {
  using namespace sim;
  if (g_active) {
    if (fd == 0)
      return sim_read(static_cast<char*>(buf), n, true);
    if (fd > 2 && fd < 1024) {
      const FileFault& f = g_x->file_fault;
      g_sh->file_reads++;
      g_file_ctr++;
      if (f.eintr_every && g_file_ctr % f.eintr_every == 0) {
        g_sh->file_eintrs++;
        errno = EINTR;
        return -1;
      }
      if (f.eio_after >= 0 && static_cast<int64_t>(g_file_pos[fd]) >= f.eio_after) {
        g_sh->file_eios++;
        errno = EIO;
        return -1;
      }
      size_t k = n;
      if (f.max_read && k > f.max_read) {
        k = f.max_read;
        g_sh->file_shorts++;
      }
      if (f.eio_after >= 0 && static_cast<int64_t>(g_file_pos[fd] + k) > f.eio_after)
        k = static_cast<size_t>(f.eio_after) - g_file_pos[fd];
      ssize_t r = syscall(SYS_read, fd, buf, k);
      if (r > 0)
        g_file_pos[fd] += static_cast<uint64_t>(r);
      return r;
    }
  }
  return syscall(SYS_read, fd, buf, n);
}

ssize_t write(int fd, const void* buf, size_t n) {
  using namespace sim;
  if (g_active && (fd == 1 || fd == 2))
    return sim_write(fd, static_cast<const char*>(buf), n, true);
  return syscall(SYS_write, fd, buf, n);
}

int fileno(FILE* f) noexcept {
  using namespace sim;
  if (g_active)
    for (int i = 0; i < 3; i++)
      if (f == g_files[i])
        return i;
  return fileno_unlocked(f);
}

int close(int fd) {
  using namespace sim;
  if (g_active && fd >= 0 && fd <= 2)
    return 0;
  if (g_active && fd > 2 && fd < 1024)
    g_file_pos[fd] = 0;
  return static_cast<int>(syscall(SYS_close, fd));
}

time_t time(time_t* t) noexcept {
  time_t v;
  if (sim::g_active)
    v = static_cast<time_t>(sim::g_now / 1000000000);
  else {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    v = ts.tv_sec;
  }
  if (t)
    *t = v;
  return v;
}

int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if (sim::g_active) {
    ts->tv_sec = sim::g_now / 1000000000;
    ts->tv_nsec = sim::g_now % 1000000000;
    return 0;
  }
  return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}

int gettimeofday(struct timeval* tv, void*) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}

}  // extern "C"

namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  if (sim::g_active) {
    sim::g_sh->now_calls++;
    return time_point(duration(sim::g_now));
  }
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
  return time_point(duration(static_cast<int64_t>(ts.tv_sec) * 1000000000 + ts.tv_nsec));
}
steady_clock::time_point steady_clock::now() noexcept {
  if (sim::g_active)
    return time_point(duration(sim::g_now));
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return time_point(duration(static_cast<int64_t>(ts.tv_sec) * 1000000000 + ts.tv_nsec));
}
}  // namespace _V2
}  // namespace chrono
}  // namespace std
