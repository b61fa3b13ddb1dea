// Preloaded fault injector: while armed, the k-th (or every from the k-th on)
// thread start fails with EAGAIN, or the k-th allocation made by the extension
// modules fails. Every injected fault is counted.
#include <atomic>
#include <cerrno>
#include <cstddef>
#include <cstdlib>
#include <dlfcn.h>
#include <new>
#include <pthread.h>

extern "C" {
void *__libc_malloc(size_t);
void *__libc_realloc(void *, size_t);
void *__libc_calloc(size_t, size_t);

// 0 off, 1 threads, 2 memory
std::atomic<int> vf_kind{0};
std::atomic<int> vf_sticky{0};
// > 0 while code behind the binding layer runs
std::atomic<int> vf_depth{0};
void vf_scope(int d) { vf_depth += d; }
std::atomic<long> vf_at{0}, vf_seen{0}, vf_hit{0};
// address ranges of the extension modules
unsigned long vf_lo[8], vf_hi[8];

void vf_arm(int kind, long at, int sticky) {
  vf_seen = 0;
  vf_hit = 0;
  vf_at = at;
  vf_sticky = sticky;
  vf_kind = kind;
}
void vf_disarm(void) { vf_kind = 0; }
long vf_requests(void) { return vf_seen; }
long vf_injected(void) { return vf_hit; }
void vf_range(int i, unsigned long lo, unsigned long hi) {
  vf_lo[i] = lo;
  vf_hi[i] = hi;
}
}

static inline bool fail_now(int kind) {
  if (vf_kind.load(std::memory_order_relaxed) != kind || vf_depth.load() <= 0)
    return false;
  long n = vf_seen.fetch_add(1) + 1, at = vf_at;
  bool f = at > 0 && (vf_sticky ? n >= at : n == at);
  if (f)
    vf_hit.fetch_add(1);
  return f;
}
static inline bool ours(void *ret) {
  unsigned long a = (unsigned long)ret;
  for (int i = 0; i < 8; i++)
    if (a >= vf_lo[i] && a < vf_hi[i])
      return true;
  return false;
}
#define ARMED (vf_kind.load(std::memory_order_relaxed) == 2)

extern "C" {
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
  using F = int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  static F real = (F)dlsym(RTLD_NEXT, "pthread_create");
  if (fail_now(1))
    return EAGAIN;
  return real(t, a, f, x);
}
void *malloc(size_t n) {
  if (ARMED && ours(__builtin_return_address(0)) && fail_now(2)) {
    errno = ENOMEM;
    return nullptr;
  }
  return __libc_malloc(n);
}
void *realloc(void *p, size_t n) {
  if (ARMED && ours(__builtin_return_address(0)) && fail_now(2)) {
    errno = ENOMEM;
    return nullptr;
  }
  return __libc_realloc(p, n);
}
void *calloc(size_t m, size_t n) {
  if (ARMED && ours(__builtin_return_address(0)) && fail_now(2)) {
    errno = ENOMEM;
    return nullptr;
  }
  return __libc_calloc(m, n);
}
}
static void *make(size_t n) {
  if (ARMED && fail_now(2))
    return nullptr;
  return __libc_malloc(n ? n : 1);
}
void *operator new(size_t n) {
  if (void *p = make(n))
    return p;
  throw std::bad_alloc();
}
void *operator new[](size_t n) {
  if (void *p = make(n))
    return p;
  throw std::bad_alloc();
}
void *operator new(size_t n, const std::nothrow_t &) noexcept { return make(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return make(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, size_t) noexcept { std::free(p); }
void operator delete[](void *p, size_t) noexcept { std::free(p); }
