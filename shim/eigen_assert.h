// Included before every source of the sanitized build. Eigen's assertions stay on
// as bounds checks; two that guard nothing a release build could trip over
// (a reduction of an empty sparse matrix, a repeated coordinate in a sparse row)
// are let through, as the release build does.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
namespace nbshim {
inline void eigen_failed(const char *what, const char *file, int line) {
  if (std::strstr(what, "you are using a non initialized matrix") ||
      std::strstr(what, "Invalid ordered insertion"))
    return;
  std::fprintf(stderr, "%s:%d: Assertion `%s' failed.\n", file, line, what);
  std::fflush(stderr);
  std::abort();
}
} // namespace nbshim
#define eigen_assert(x)                                                        \
  do {                                                                         \
    if (!(x))                                                                  \
      ::nbshim::eigen_failed(#x, __FILE__, __LINE__);                          \
  } while (false)
