// Native implementation of the contract intrinsics: replays a verifier counterexample on the real code, or searches for a
// failing input with the contracts as oracle.  exit 42: contract violated, 77: input does not meet the preconditions.
#include <csetjmp>
#include <ctime>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <random>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#include "vc.h"

namespace {
std::map<std::string, std::string> g_in;       // "any name k" / "buf name k" / "uf name in"
std::map<std::string, int> g_count;
std::string g_log;
bool g_fuzz = false;
bool g_replaying = true;
std::mt19937_64 g_rng;
std::jmp_buf g_jmp;
std::vector<std::string> g_notes;
std::vector<uint64_t> g_recent;

std::string hex(const uint8_t* p, size_t n) {
  static const char* d = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < n; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
  return s;
}
void unhex(const std::string& s, uint8_t* p, size_t n) {
  for (size_t i = 0; i < n; i++) p[i] = 2 * i + 1 < s.size() ? static_cast<uint8_t>(strtoul(s.substr(2 * i, 2).c_str(), nullptr, 16)) : 0;
}
[[noreturn]] void finish(int code) {
  if (g_fuzz && code == 77) std::longjmp(g_jmp, 1);
  fflush(stdout);
  _exit(code);
}
uint64_t word() {
  uint64_t r = g_rng();
  switch (r % 16) {
    case 0: return 0;
    case 1: return 1;
    case 2: case 3: case 4: return (r >> 8) % 8;
    case 5: case 6: return (r >> 8) % 70;
    case 7: case 8: return (r >> 8) % 1100;
    case 9: return (r >> 8) % 70000;
    case 10: return uint64_t(1) << ((r >> 8) % 64);
    case 11: return (uint64_t(1) << ((r >> 8) % 64)) - 1;
    case 12: return ~uint64_t{0} - (r >> 8) % 70;
    case 13: return (uint64_t{1} << 63) - 3 + (r >> 8) % 6;
    case 14: return g_recent.empty() ? r : g_recent[(r >> 8) % g_recent.size()] - 2 + (r >> 20) % 5;
    default: return r;
  }
}
void randfill(uint8_t* p, size_t n) {
  if (n <= 8) { uint64_t w = word(); g_recent.push_back(w); std::memcpy(p, &w, n); return; }
  uint64_t k = g_rng() % 8;
  std::memset(p, 0, n);
  if (k < 4) { uint64_t w = word(); g_recent.push_back(w); std::memcpy(p, &w, 8); if (k == 3) { p[n - 1] = uint8_t(g_rng()); } }
  else if (k == 4) { std::memset(p, 0xff, n); uint64_t w = word(); std::memcpy(p, &w, 8); }
  else if (k == 5) { p[n - 1] = 0x80; if (g_rng() % 2) p[0] = uint8_t(g_rng() % 3); }
  else for (size_t i = 0; i < n; i++) p[i] = uint8_t(g_rng());
}
}

extern "C" {
void __vc_any(void* p, uint64_t n, const char* name) {
  std::string key = std::string("any ") + name + " " + std::to_string(g_count[std::string("a") + name]++);
  if (g_fuzz) randfill(static_cast<uint8_t*>(p), n);
  else {
    auto it = g_in.find(key);
    if (it == g_in.end()) std::memset(p, 0, n); else unhex(it->second, static_cast<uint8_t*>(p), n);
  }
  g_log += key + " " + hex(static_cast<uint8_t*>(p), n) + "\n";
}
void* __vc_buffer(uint64_t size, uint64_t align, const char* name) {
  std::string key = std::string("buf ") + name + " " + std::to_string(g_count[std::string("a") + name]++);
  if (size > (uint64_t{1} << 24)) { printf("input too large to replay (%s: %llu bytes)\n", name, (unsigned long long)size); finish(77); }
  uint8_t* b = align > 16 ? static_cast<uint8_t*>(::operator new(size, std::align_val_t(align))) : static_cast<uint8_t*>(::operator new(size));
  if (g_fuzz) {
    uint64_t m = g_rng() % 4;
    for (uint64_t i = 0; i < size; i++) b[i] = m == 0 ? 0 : m == 1 ? uint8_t(0x5b + g_rng() % 16) : uint8_t(g_rng());
  } else {
    auto it = g_in.find(key);
    if (it == g_in.end()) std::memset(b, 0, size); else unhex(it->second, b, size);
  }
  g_log += key + " " + hex(b, size) + "\n";
  return b;
}
void __vc_havoc(void* p, uint64_t n, const char* name) {
  std::string key = std::string("buf ") + name + " " + std::to_string(g_count[std::string("a") + name]++);
  uint8_t* b = static_cast<uint8_t*>(p);
  if (g_fuzz) {
    std::memset(b, 0, n);
    uint64_t from = n > 1024 ? n - 1024 : 0;
    for (uint64_t i = from; i + 32 <= n; i += 32) randfill(b + i, 32);
    if (n < 32) randfill(b, n);
    if (from) for (int i = 0; i < 8; i++) randfill(b + (g_rng() % (n / 32)) * 32, 32);
  } else {
    auto it = g_in.find(key);
    if (it == g_in.end()) std::memset(b, 0, n); else unhex(it->second, b, n);
  }
  g_log += key + " " + hex(b, n) + "\n";
}
void* __vc_const_buffer(uint64_t size, uint64_t align, const char* name) { return __vc_buffer(size, align, name); }
void __vc_assume(bool c) { if (!c) finish(77); }
void __vc_assert(bool c, const char* label) {
  if (!c) {
    printf("CONTRACT VIOLATED: %s\n", label);
    if (g_fuzz) printf("INPUT\n%sENDINPUT\n", g_log.c_str());
    finish(42);
  }
}
void __vc_lemma(bool c, const char* label) { __vc_assert(c, label); }
void __vc_cover(const char*) {}
void __vc_uf(const char* name, void* out, uint64_t outlen, const void* in, uint64_t inlen);
void __vc_ufseq(const char*, void* out, uint64_t outlen, const void* in, uint64_t inlen) {
  uint64_t h = 0xcbf29ce484222325ull;
  for (uint64_t i = 0; i < inlen; i++) h = (h ^ static_cast<const uint8_t*>(in)[i]) * 0x100000001b3ull;
  h ^= inlen * 0x9e3779b97f4a7c15ull;
  uint8_t* o = static_cast<uint8_t*>(out);
  for (uint64_t i = 0; i < outlen; i++) { h = h * 6364136223846793005ull + 1442695040888963407ull; o[i] = uint8_t(h >> 56); }
}
void __vc_uf(const char* name, void* out, uint64_t outlen, const void* in, uint64_t inlen) {
  std::string key = std::string("uf ") + name + " " + hex(static_cast<const uint8_t*>(in), inlen);
  auto it = g_in.find(key);
  if (it != g_in.end()) { unhex(it->second, static_cast<uint8_t*>(out), outlen); return; }
  if (std::string(name) == "exp256") {
    using u = unsigned _BitInt(256);
    u b, e, r = 1;
    std::memcpy(&b, in, 32);
    std::memcpy(&e, static_cast<const uint8_t*>(in) + 32, 32);
    for (int i = 0; i < 256; i++) { if ((e >> i) & 1) r *= b; b *= b; }
    std::memcpy(out, &r, 32);
    return;
  }
  __vc_ufseq(name, out, outlen, in, inlen);
}
void __vc_guard(const void*, uint64_t, const uint8_t*, const char*) {}
void __vc_unguard(void) {}
void __vc_use_eq(uint64_t) {}
void __vc_inv(bool) {}
bool __vc_bounded(void) { return false; }
void __vc_fact(bool) {}
void* __vc_heap(uint64_t) { return nullptr; }
bool __vc_same_object(const void*, const void*) { return true; }
uint64_t __vc_object_size(const void*) { return ~uint64_t{0} >> 1; }
uint64_t __vc_alive(const void*) { return 1; }
bool __vc_symbolic(void) { return false; }
int64_t __vc_memory_fee(uint64_t a, uint64_t b) {
  auto c = [](uint64_t x) { int64_t w = int64_t((x + 31) / 32); return w * w / 512 + 3 * w; };
  return a > b ? c(a) - c(b) : 0;
}
uint8_t __vc_peek(bool c, const void* p, uint64_t i) { return c ? static_cast<const uint8_t*>(p)[i] : 0; }
uint8_t __vc_peek_checked(bool c, const void* p, uint64_t i) { return __vc_peek(c, p, i); }
void __vc_readable(const void* p, uint64_t n) { if (n) { volatile uint8_t x = static_cast<const uint8_t*>(p)[0]; x = static_cast<const uint8_t*>(p)[n - 1]; (void)x; } }
void __vc_forget(void*) {}
void __vc_reserve(void*, uint64_t) {}
bool __vc_split(bool c) { return c; }
uint64_t __vc_concretize(uint64_t v, uint64_t) { return v; }
}

#include <csignal>
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void dump_input() {
  if (g_fuzz) { fputs("INPUT\n", stdout); fputs(g_log.c_str(), stdout); fputs("ENDINPUT\n", stdout); fflush(stdout); }
}
static void on_signal(int s) { printf("CRASH: signal %d (failed assertion or trap)\n", s); dump_input(); _exit(43); }
struct Harness { const char* name; void (*fn)(); };
extern Harness g_harnesses[];

int main(int argc, char** argv) {
  if (argc < 3) return 2;
  std::string mode = argv[1], name = argv[2];
  void (*fn)() = nullptr;
  for (Harness* h = g_harnesses; h->name; h++) if (name == h->name) fn = h->fn;
  if (!fn) { printf("no such contract\n"); return 2; }
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(dump_input);
  for (int sg : {SIGILL, SIGTRAP, SIGABRT}) signal(sg, on_signal);
  if (mode == "replay") {
    FILE* f = fopen(argv[3], "r");
    if (!f) return 2;
    char* line = nullptr;
    size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
      std::string s = line;
      while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) s.pop_back();
      if (s.rfind("any ", 0) == 0 || s.rfind("buf ", 0) == 0 || s.rfind("uf ", 0) == 0) {
        auto k = s.rfind(' ');
        // empty buffers have no hex field
        std::string key = s.substr(0, k), val = s.substr(k + 1);
        int spaces = 0;
        for (char c : s) spaces += c == ' ';
        if (spaces == 2) { key = s; val = ""; }
        g_in[key] = val;
      }
    }
    fn();
    printf("contract held on this input\n");
    fflush(stdout);
    _exit(0);
  }
  g_fuzz = true;
  uint64_t seed = strtoull(argv[3], nullptr, 10);
  double secs = atof(argv[4]);
  g_rng.seed(seed);
  time_t t0 = time(nullptr);
  volatile uint64_t runs = 0, ok = 0;
  while (difftime(time(nullptr), t0) < secs) {
    // batches in child processes bound the memory of abandoned runs
    fflush(stdout);
    pid_t pid = fork();
    if (pid > 0) {
      int ws = 0;
      waitpid(pid, &ws, 0);
      if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0) { seed += 7919; continue; }
      _exit(WIFEXITED(ws) ? WEXITSTATUS(ws) : 43);
    }
    break;
  }
  while (runs < 4000 && difftime(time(nullptr), t0) < secs) {
    runs = runs + 1;
    g_log.clear();
    g_count.clear();
    g_recent.clear();
    g_rng.seed(seed * 1000003 + runs);
    if (setjmp(g_jmp) == 0) { fn(); ok = ok + 1; }
  }
  if (getenv("VC_VERBOSE")) printf("fuzz: %llu runs, %llu within the preconditions, no violation\n", (unsigned long long)runs, (unsigned long long)ok);
  fflush(stdout);
  _exit(0);
}
