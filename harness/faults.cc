// LD_PRELOAD library: fails the chosen output calls of the C library.
// FAULT_CALL: fopen | write | flush | close;  FAULT_AT: which one fails (1, 2, ...), 0: none
// FAULT_STICKY: all the later ones fail too;  FAULT_ERRNO;  FAULT_LOG: file for the call counts
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>

namespace {

enum { kOpen, kWrite, kFlush, kClose, kNum };
const char* const kNames[] = {"fopen", "write", "flush", "close"};
long counts[kNum];
int target = -2;
long at = 0;
bool sticky = false;
int error_number = 0;

void setup() {
  if (target != -2) return;
  target = -1;
  const char* call = std::getenv("FAULT_CALL");
  for (int i = 0; call && i < kNum; ++i)
    if (!std::strcmp(call, kNames[i])) target = i;
  if (const char* s = std::getenv("FAULT_AT")) at = std::atol(s);
  sticky = std::getenv("FAULT_STICKY") != nullptr;
  error_number = std::getenv("FAULT_ERRNO") ? std::atoi(std::getenv("FAULT_ERRNO")) : EIO;
}

// Only streams the program writes its results to.
bool watched(FILE* f) {
  setup();
  if (f == stderr || f == stdin) return false;
  int fd = fileno(f);
  return fd >= 0 && (fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY;
}

bool fails(int kind) {
  setup();
  long n = ++counts[kind];
  return kind == target && at && (n == at || (sticky && n > at));
}

int mark(FILE* f) {
  f->_flags |= 0x20;  // _IO_ERR_SEEN
  errno = error_number;
  return EOF;
}

template <class F>
F real(const char* name, F) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

struct Log {
  ~Log() {
    if (const char* path = std::getenv("FAULT_LOG")) {
      int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
      char b[200];
      int n = std::snprintf(b, sizeof b, "%ld %ld %ld %ld\n", counts[0], counts[1], counts[2], counts[3]);
      if (fd >= 0 && ::write(fd, b, n) == n) ::close(fd);
    }
  }
} log_at_exit;

FILE* open_stream(const char* name, const char* path, const char* mode) {
  if (std::strpbrk(mode, "wa+") && std::strncmp(path, "/dev/", 5) && fails(kOpen)) {
    errno = error_number;
    return nullptr;
  }
  return real(name, static_cast<FILE* (*)(const char*, const char*)>(nullptr))(path, mode);
}

}  // namespace

extern "C" {

FILE* fopen(const char* path, const char* mode) { return open_stream("fopen", path, mode); }
FILE* fopen64(const char* path, const char* mode) { return open_stream("fopen64", path, mode); }

int fputs(const char* s, FILE* f) {
  if (watched(f) && fails(kWrite)) return mark(f);
  return real("fputs", static_cast<int (*)(const char*, FILE*)>(nullptr))(s, f);
}
int fputc(int c, FILE* f) {
  if (watched(f) && fails(kWrite)) return mark(f);
  return real("fputc", static_cast<int (*)(int, FILE*)>(nullptr))(c, f);
}
int putc(int c, FILE* f) { return fputc(c, f); }
int _IO_putc(int c, FILE* f) { return fputc(c, f); }
size_t fwrite(const void* p, size_t size, size_t n, FILE* f) {
  if (watched(f) && fails(kWrite)) {
    mark(f);
    return 0;
  }
  return real("fwrite", static_cast<size_t (*)(const void*, size_t, size_t, FILE*)>(nullptr))(p, size, n, f);
}
int vfprintf(FILE* f, const char* fmt, va_list ap) {
  if (watched(f) && fails(kWrite)) return mark(f);
  return real("vfprintf", static_cast<int (*)(FILE*, const char*, va_list)>(nullptr))(f, fmt, ap);
}
int fprintf(FILE* f, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int r = vfprintf(f, fmt, ap);
  va_end(ap);
  return r;
}
int __fprintf_chk(FILE* f, int, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int r = vfprintf(f, fmt, ap);
  va_end(ap);
  return r;
}
int fflush(FILE* f) {
  if (f && watched(f) && fails(kFlush)) return mark(f);
  return real("fflush", static_cast<int (*)(FILE*)>(nullptr))(f);
}
int fclose(FILE* f) {
  bool bad = watched(f) && fails(kClose);
  int r = real("fclose", static_cast<int (*)(FILE*)>(nullptr))(f);
  if (!bad) return r;
  errno = error_number;
  return EOF;
}

}  // extern "C"
