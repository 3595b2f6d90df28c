// Only for the work meter: memory functions that count the bytes they touch,
// so that copying, comparing and clearing are part of the work observed even
// though the C library is not instrumented.  8 bytes count as one unit.
#include <cstddef>
#include <cstdint>
extern "C" uint64_t verif_work_counter;
extern "C" {
__attribute__((no_builtin)) void* memcpy(void* d, const void* s, size_t n) {
  verif_work_counter += n / 8;
  void* r = d;
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
__attribute__((no_builtin)) void* memmove(void* d, const void* s, size_t n) {
  char* dd = (char*)d;
  const char* ss = (const char*)s;
  if (dd <= ss || dd >= ss + n) return memcpy(d, s, n);
  verif_work_counter += n / 8;
  dd += n - 1;
  ss += n - 1;
  __asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
  return d;
}
__attribute__((no_builtin)) void* memset(void* d, int c, size_t n) {
  verif_work_counter += n / 8;
  void* r = d;
  __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}
__attribute__((no_builtin)) int memcmp(const void* a, const void* b, size_t n) {
  const unsigned char* x = (const unsigned char*)a;
  const unsigned char* y = (const unsigned char*)b;
  size_t i = 0;
  while (i < n && x[i] == y[i]) ++i;
  verif_work_counter += i / 8;
  return i == n ? 0 : x[i] < y[i] ? -1 : 1;
}
}
