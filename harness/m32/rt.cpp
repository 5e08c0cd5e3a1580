// The run time of the 32-bit programs: system calls, a heap which looks for
// misuse, and a printf of %s, %d and %u.
#include <new>
#include <stdarg.h>
static int call3(int n, int a, const void *b, int c)
{
   int r;
   __asm__ volatile("int $0x80" : "=a"(r) : "0"(n), "b"(a), "c"(b), "d"(c) : "memory");
   return r;
}
static char buf[1 << 16]; static unsigned fill;
static void flush() { unsigned n = 0; while (n < fill) { int k = call3(4, 1, buf + n, fill - n); if (k <= 0) break; n += k; } fill = 0; }
static void put(char c) { if (fill == sizeof(buf)) flush(); buf[fill++] = c; }
static void text(const char *s) { while (*s) put(*s++); }
extern "C" void leave(int rc) { flush(); for (;;) call3(1, rc, 0, 0); }
static void die(const char *s) { text(s); put('\n'); leave(3); }
extern "C" int printf(const char *f, ...)
{
   va_list a;
   va_start(a, f);
   for (; *f; ++f)
   {
      if (*f != '%') { put(*f); continue; }
      ++f;
      if (*f == 's') { text(va_arg(a, const char *)); continue; }
      unsigned u = va_arg(a, unsigned);
      if (*f == 'd' && (int)u < 0) { put('-'); u = 0u - u; }
      char d[12]; int n = 0;
      do d[n++] = (char)('0' + u % 10); while (u /= 10);
      while (n) put(d[--n]);
   }
   va_end(a);
   return 0;
}
extern "C" void *memcpy(void *d, const void *s, std::size_t n) { char *x = (char *)d; const char *y = (const char *)s; while (n--) { *x++ = *y++; __asm__ volatile("" ::: "memory"); } return d; }
extern "C" void *memmove(void *d, const void *s, std::size_t n)
{
   char *x = (char *)d; const char *y = (const char *)s;
   if (x < y) while (n--) { *x++ = *y++; __asm__ volatile("" ::: "memory"); }
   else while (n--) { x[n] = y[n]; __asm__ volatile("" ::: "memory"); }
   return d;
}
extern "C" void *memset(void *d, int c, std::size_t n) { char *x = (char *)d; while (n--) { *x++ = (char)c; __asm__ volatile("" ::: "memory"); } return d; }
extern "C" int memcmp(const void *a, const void *b, std::size_t n)
{
   const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
   for (; n--; ++x, ++y) if (*x != *y) return *x < *y ? -1 : 1;
   return 0;
}
extern "C" int __popcountsi2(unsigned x) { int n = 0; for (; x; x &= x - 1) ++n; return n; }
extern "C" int __popcountdi2(unsigned long long x) { return __popcountsi2((unsigned)x) + __popcountsi2((unsigned)(x >> 32)); }
extern "C" unsigned long long __udivmod(unsigned long long a, unsigned long long b, unsigned long long *r)
{
   unsigned long long q = 0, m = 0;
   for (int i = 63; i >= 0; --i) { m = m << 1 | (a >> i & 1); if (m >= b) { m -= b; q |= 1ull << i; } }
   *r = m;
   return q;
}
extern "C" unsigned long long __udivdi3(unsigned long long a, unsigned long long b) { unsigned long long r; return __udivmod(a, b, &r); }
extern "C" unsigned long long __umoddi3(unsigned long long a, unsigned long long b) { unsigned long long r; __udivmod(a, b, &r); return r; }
extern "C" long long __divdi3(long long a, long long b) { unsigned long long r, q = __udivmod(a < 0 ? -a : a, b < 0 ? -b : b, &r); return (a < 0) != (b < 0) ? -(long long)q : (long long)q; }
extern "C" long long __moddi3(long long a, long long b) { unsigned long long r; __udivmod(a < 0 ? -a : a, b < 0 ? -b : b, &r); return a < 0 ? -(long long)r : (long long)r; }
extern "C" unsigned long long __udivmoddi4(unsigned long long a, unsigned long long b, unsigned long long *r) { return __udivmod(a, b, r); }
extern "C" long long __divmoddi4(long long a, long long b, long long *r) { *r = __moddi3(a, b); return __divdi3(a, b); }
extern "C" unsigned strlen(const char *s) { unsigned n = 0; while (s[n]) { ++n; __asm__ volatile("" ::: "memory"); } return n; }
extern "C" void abort() { die("abort"); }
extern "C" void __assert_fail(const char *what, const char *, unsigned, const char *) { text(what); die(": assertion"); }

// Blocks are never used again: [size, tag] bytes [guard]
enum { LIVE = 0x4c495645, DEAD = 0x44454144, GUARD = 16, HEAP = 200 << 20 };
static char heap[HEAP] __attribute__((aligned(16)));
static unsigned used, live;
struct Head { unsigned size, tag, how, pad; };
static void *get(std::size_t n, unsigned how)
{
   unsigned all = (unsigned)((sizeof(Head) + n + GUARD + 15) & ~15u);
   if (n > HEAP || all > HEAP - used) die("heap: too much memory asked for");
   Head *h = (Head *)(heap + used);
   used += all; ++live;
   h->size = (unsigned)n; h->tag = LIVE; h->how = how;
   memset(h + 1, 0xcd, n);
   memset((char *)(h + 1) + n, 0xfb, all - sizeof(Head) - n);
   return h + 1;
}
static void put_back(void *p, unsigned how)
{
   if (!p) return;
   if ((char *)p < heap + sizeof(Head) || (char *)p >= heap + used || ((std::size_t)p & 15)) die("heap: delete of something else");
   Head *h = (Head *)p - 1;
   if (h->tag == DEAD) die("heap: second delete");
   if (h->tag != LIVE) die("heap: delete of something else");
   if (h->how != how) die("heap: delete and delete[] mixed up");
   for (char *g = (char *)p + h->size; g != (char *)p + h->size + GUARD; ++g) if (*g != (char)0xfb) die("heap: written behind a block");
   h->tag = DEAD; --live;
   memset(p, 0xdd, h->size);
}
#if __cplusplus >= 201103L
#define DELETE noexcept
#else
#define DELETE throw()
#endif
void *operator new(std::size_t n) { return get(n, 1); }
void *operator new[](std::size_t n) { return get(n, 2); }
void operator delete(void *p) DELETE { put_back(p, 1); }
void operator delete[](void *p) DELETE { put_back(p, 2); }
void operator delete(void *p, std::size_t) DELETE { put_back(p, 1); }
void operator delete[](void *p, std::size_t) DELETE { put_back(p, 2); }
extern "C" { void *__dso_handle = 0; int __cxa_atexit(void (*)(void *), void *, void *) { return 0; } int atexit(void (*)()) { return 0; } void __cxa_pure_virtual() { die("pure virtual"); } }
int program();
typedef void (*Init)();
extern "C" { extern Init __init_array_start[], __init_array_end[]; }
extern "C" __attribute__((used)) void begin()
{
   for (Init *i = __init_array_start; i != __init_array_end; ++i) (*i)();
   int rc = program();
   for (unsigned at = 0; at < used;)       // blocks written to after their end
   {
      Head *h = (Head *)(heap + at);
      if (h->tag == DEAD) for (unsigned i = 0; i < h->size; ++i) if (((unsigned char *)(h + 1))[i] != 0xdd) die("heap: written to after delete");
      at += (unsigned)((sizeof(Head) + h->size + GUARD + 15) & ~15u);
   }
   if (live) die("heap: blocks never given back");
   leave(rc);
}
__asm__(".globl _start\n_start:\n xor %ebp,%ebp\n and $-16,%esp\n call begin\n hlt\n");
