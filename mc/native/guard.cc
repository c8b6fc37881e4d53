// A CPU allocator for torch and k2 that makes memory errors visible: every
// block lies against an inaccessible page, fresh memory holds junk and freed
// memory becomes inaccessible.
//   mode 0: the normal allocator
//   mode 1: the inaccessible page follows the block, junk A
//   mode 2: the inaccessible page precedes the block, junk B
#include <c10/core/Allocator.h>
#include <c10/core/CPUAllocator.h>
#include <c10/util/Exception.h>
#include <sys/mman.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <atomic>
#include <mutex>
#include <unordered_map>

namespace {
struct Block { char *base; size_t len; size_t n; int mode; };
std::mutex mu;
std::unordered_map<void *, Block> *blocks;
std::atomic<int> mode{0};
std::atomic<long> total{0};
const size_t P = 4096;
const unsigned char kCanary = 0xC3;

void Free(void *p) {
  if (!p) return;
  Block b;
  {
    std::lock_guard<std::mutex> g(mu);
    auto it = blocks->find(p);
    if (it == blocks->end()) {
      fprintf(stderr, "guard: freed a block that is not allocated\n");
      abort();
    }
    b = it->second;
    blocks->erase(it);
  }
  if (b.mode == 0) {
    free(p);
    return;
  }
  // the bytes around the block that share its pages
  char *lo = b.mode == 1 ? b.base : b.base + P;
  char *hi = b.mode == 1 ? b.base + b.len - P : b.base + b.len;
  for (char *c = lo; c < hi; ++c) {
    if (c == static_cast<char *>(p)) {
      c += b.n;
      if (c >= hi) break;
    }
    if (static_cast<unsigned char>(*c) != kCanary) {
      fprintf(stderr, "guard: written outside a block of %zu bytes, at %ld\n",
              b.n, static_cast<long>(c - static_cast<char *>(p)));
      abort();
    }
  }
  munmap(b.base, b.len);
}

void *Get(size_t n) {
  if (n == 0) return nullptr;
  Block b;
  b.n = n;
  b.mode = mode;
  void *p;
  ++total;
  if (b.mode == 0) {
    if (posix_memalign(&p, 64, n)) p = nullptr;
    TORCH_CHECK(p, "out of memory");
  } else {
    size_t data = (n + P - 1) / P * P;
    b.len = data + P;
    void *m = mmap(nullptr, b.len, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    TORCH_CHECK(m != MAP_FAILED, "out of memory");
    b.base = static_cast<char *>(m);
    if (b.mode == 1) {
      mprotect(b.base + data, P, PROT_NONE);
      p = b.base + data - n;
      memset(b.base, kCanary, data - n);
      memset(p, 0xA5, n);
    } else {
      mprotect(b.base, P, PROT_NONE);
      p = b.base + P;
      memset(p, 0x5C, n);
      memset(static_cast<char *>(p) + n, kCanary, data - n);
    }
  }
  std::lock_guard<std::mutex> g(mu);
  (*blocks)[p] = b;
  return p;
}

struct Guard final : c10::Allocator {
#ifdef GUARD_CONST
  c10::DataPtr allocate(size_t n) const override {
#else
  c10::DataPtr allocate(size_t n) override {
#endif
    void *p = Get(n);
    return {p, p, &Free, c10::Device(c10::DeviceType::CPU)};
  }
  c10::DeleterFnPtr raw_deleter() const override { return &Free; }
  void copy_data(void *dst, const void *src, size_t n) const {
    memcpy(dst, src, n);
  }
};
Guard *guard;
}  // namespace

extern "C" void guard_install() {
  if (guard) return;
  blocks = new std::unordered_map<void *, Block>();
  guard = new Guard();
  c10::SetAllocator(c10::DeviceType::CPU, guard, 100);
}
extern "C" void guard_mode(int m) { mode = m; }
extern "C" long guard_live() {
  std::lock_guard<std::mutex> g(mu);
  return blocks->size();
}
extern "C" long guard_total() { return total; }
