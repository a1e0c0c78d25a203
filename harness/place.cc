// Preloaded allocator that decides where objects lie.  PLACE="mask,fill": objects of one size class
// are handed out of runs of 256 slots in the order i xor mask, so every mask orders the
// addresses of the same allocations differently; new and freed memory is filled with the byte fill.
// Nothing is reused.  The region lies at a fixed address, so a placement is the same in every run.
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <unistd.h>

namespace {

const std::size_t kReserve = std::size_t{1} << 36;
const int kRun = 256;

char* base = nullptr;
std::size_t used = 0;
unsigned mask = 0;
int fill = 0;

struct Class {
  char* run = nullptr;
  int next = kRun;
} classes[64];

struct Header {
  std::size_t size;
  std::size_t pad;
};

void init() {
  base = static_cast<char*>(mmap(reinterpret_cast<void*>(0x200000000000), kReserve, PROT_READ | PROT_WRITE,
                                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (base == MAP_FAILED) _exit(97);
  if (const char* s = getenv("PLACE")) {
    char* end;
    mask = strtoul(s, &end, 10) % kRun;
    if (*end == ',') fill = strtol(end + 1, nullptr, 10);
  }
}

char* carve(std::size_t n) {
  if (!base) init();
  if (used + n > kReserve) _exit(98);
  char* res = base + used;
  used += n;
  return res;
}

void* take(std::size_t n, std::size_t align, bool zero) {
  std::size_t total = ((n ? n : 1) + sizeof(Header) + 15) & ~std::size_t{15};
  char* p;
  if (align <= 16 && total <= 1024) {
    Class& c = classes[total / 16 - 1];
    if (c.next == kRun) {
      c.run = carve(total * kRun);
      c.next = 0;
    }
    p = c.run + total * (c.next++ ^ mask);
  } else {
    if (align < 16) align = 16;
    char* raw = carve((total + 2 * align + 15) & ~std::size_t{15});
    std::uintptr_t x = reinterpret_cast<std::uintptr_t>(raw) + sizeof(Header);
    x = (x + align - 1) & ~(align - 1);
    p = reinterpret_cast<char*>(x) - sizeof(Header);
  }
  reinterpret_cast<Header*>(p)->size = n;
  p += sizeof(Header);
  std::memset(p, zero ? 0 : fill, n);
  return p;
}

}  // namespace

extern "C" {

void* malloc(std::size_t n) { return take(n, 16, false); }
void* calloc(std::size_t n, std::size_t m) {
  if (m && n > SIZE_MAX / m) return nullptr;
  return take(n * m, 16, true);
}
void free(void* p) {
  if (p) std::memset(p, fill ^ 0x5a, (static_cast<Header*>(p) - 1)->size);
}
void* realloc(void* p, std::size_t n) {
  void* q = take(n, 16, false);
  if (p) {
    std::size_t old = (static_cast<Header*>(p) - 1)->size;
    std::memcpy(q, p, old < n ? old : n);
    free(p);
  }
  return q;
}
void* memalign(std::size_t a, std::size_t n) { return take(n, a, false); }
void* aligned_alloc(std::size_t a, std::size_t n) { return take(n, a, false); }
int posix_memalign(void** out, std::size_t a, std::size_t n) {
  *out = take(n, a, false);
  return 0;
}
void* valloc(std::size_t n) { return take(n, 4096, false); }
std::size_t malloc_usable_size(void* p) { return p ? (static_cast<Header*>(p) - 1)->size : 0; }
}
