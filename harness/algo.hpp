// Ranges which know their ends, and iterators of the several categories which
// refuse to leave them, for the checks of the algorithms.
#ifndef ALGO_HPP
#define ALGO_HPP
#include <limits.h>
#include <math.h>
#include "elems.hpp"
#include "ttl/types.hpp"
#include "ttl/utility.hpp"
#include "ttl/functional.hpp"
#include "ttl/algorithm.hpp"
#include "ttl/numeric.hpp"
#include <string>

using pbt::Src;

// An element with a key, which decides about == and <, and an identity.
struct Tag
{
   int k, t;
   Tag(int key = 0, int id = -1): k(key), t(id) {}
   bool operator==(const Tag &o) const { return k == o.k; }
   bool operator!=(const Tag &o) const { return k != o.k; }
   bool operator<(const Tag &o) const { return k < o.k; }
   bool operator>(const Tag &o) const { return k > o.k; }
   bool same(const Tag &o) const { return k == o.k && t == o.t; }
};
// A value of another type to look for.
struct Pat
{
   int k;
   Pat(int key = 0): k(key) {}
};
inline bool operator==(const Tag &a, const Pat &b) { return a.k == b.k; }
inline bool operator==(const Pat &a, const Tag &b) { return a.k == b.k; }
inline bool operator!=(const Tag &a, const Pat &b) { return a.k != b.k; }
inline bool operator!=(const Pat &a, const Tag &b) { return a.k != b.k; }
inline bool operator<(const Tag &a, const Pat &b) { return a.k < b.k; }
inline bool operator<(const Pat &a, const Tag &b) { return a.k < b.k; }
typedef std::vector<Tag> Tags;
inline std::string show(const Tags &v) { Ints x; for (size_t i = 0; i < v.size(); ++i) x.push_back(v[i].k); return show(x); }

enum { INPUT, FORWARD, BIDIR, RANDOM };

template<typename T>
struct Range
{
   T *lo, *hi;
   const char *name;
   unsigned gen;      // single pass: which step the range is at
   Range(T *l, T *h, const char *n): lo(l), hi(h), name(n), gen(0) {}
};

template<typename T, int CAT> struct It;
template<typename T> struct ItBase
{
   T *p; Range<T> *r; unsigned gen;
   ItBase(T *q, Range<T> *x): p(q), r(x), gen(x ? x->gen : 0) {}
   T &get() const { CHECK(p >= r->lo && p < r->hi, "position %zd of %s is accessed, which has %zd", (ssize_t)(p - r->lo), r->name, (ssize_t)(r->hi - r->lo)); return *p; }
   void move(ptrdiff_t n) { p += n; CHECK(p >= r->lo && p <= r->hi, "an iterator is moved to position %zd of %s, which has %zd", (ssize_t)(p - r->lo), r->name, (ssize_t)(r->hi - r->lo)); }
};
// single pass: the copies of an iterator which was advanced are of no use
template<typename T> struct It<T,INPUT>: ItBase<T>
{
   typedef T value_type;
   It(T *q, Range<T> *x): ItBase<T>(q, x) {}
   void valid() const { CHECK(this->gen == this->r->gen, "%s is single pass, and an old position of it is used again", this->r->name); }
   struct Old { T v; const T &operator*() const { return v; } };
   T &operator*() const { valid(); return this->get(); }
   T *operator->() const { valid(); return &this->get(); }
   It &operator++() { valid(); this->get(); this->move(1); this->gen = ++this->r->gen; return *this; }
   Old operator++(int) { Old o = { this->get() }; ++*this; return o; }
   // the end may be compared with any position
   bool operator==(const It &o) const { return this->p == o.p; }
   bool operator!=(const It &o) const { return this->p != o.p; }
};
template<typename T> struct It<T,FORWARD>: ItBase<T>
{
   typedef T value_type;
   It(T *q, Range<T> *x): ItBase<T>(q, x) {}
   T &operator*() const { return this->get(); }
   T *operator->() const { return &this->get(); }
   It &operator++() { this->move(1); return *this; }
   It operator++(int) { It o(*this); this->move(1); return o; }
   bool operator==(const It &o) const { return this->p == o.p; }
   bool operator!=(const It &o) const { return this->p != o.p; }
};
template<typename T> struct It<T,BIDIR>: ItBase<T>
{
   typedef T value_type;
   It(T *q, Range<T> *x): ItBase<T>(q, x) {}
   T &operator*() const { return this->get(); }
   T *operator->() const { return &this->get(); }
   It &operator++() { this->move(1); return *this; }
   It operator++(int) { It o(*this); this->move(1); return o; }
   It &operator--() { this->move(-1); return *this; }
   It operator--(int) { It o(*this); this->move(-1); return o; }
   bool operator==(const It &o) const { return this->p == o.p; }
   bool operator!=(const It &o) const { return this->p != o.p; }
};
template<typename T> struct It<T,RANDOM>: ItBase<T>
{
   typedef T value_type;
   typedef ptrdiff_t difference_type;
   It(T *q, Range<T> *x): ItBase<T>(q, x) {}
   T &operator*() const { return this->get(); }
   T *operator->() const { return &this->get(); }
   It &operator++() { this->move(1); return *this; }
   It operator++(int) { It o(*this); this->move(1); return o; }
   It &operator--() { this->move(-1); return *this; }
   It operator--(int) { It o(*this); this->move(-1); return o; }
   It &operator+=(ptrdiff_t n) { this->move(n); return *this; }
   It &operator-=(ptrdiff_t n) { this->move(-n); return *this; }
   It operator+(ptrdiff_t n) const { It o(*this); o.move(n); return o; }
   It operator-(ptrdiff_t n) const { It o(*this); o.move(-n); return o; }
   ptrdiff_t operator-(const It &o) const { return this->p - o.p; }
   T &operator[](ptrdiff_t n) const { It o(*this); o.move(n); return *o; }
   bool operator==(const It &o) const { return this->p == o.p; }
   bool operator!=(const It &o) const { return this->p != o.p; }
   bool operator<(const It &o) const { return this->p < o.p; }
   bool operator>(const It &o) const { return this->p > o.p; }
   bool operator<=(const It &o) const { return this->p <= o.p; }
   bool operator>=(const It &o) const { return this->p >= o.p; }
};

// a heap block of exactly the given elements
template<typename T> struct Buf
{
   T *mem; size_t n;
   Buf(const std::vector<T> &x): mem((T *)malloc(x.size() * sizeof(T))), n(x.size()) { for (size_t i = 0; i < n; ++i) ::new(mem + i) T(x[i]); }
   ~Buf() { for (size_t i = 0; i < n; ++i) mem[i].~T(); free(mem); }
   T *lo() { return mem; }
   T *hi() { return mem + n; }
   std::vector<T> now() const { return std::vector<T>(mem, mem + n); }
private:
   Buf(const Buf &); void operator=(const Buf &);
};

// iterators over a buffer: the checked ones of the wanted category, or pointers
template<typename T, bool CHECKED> struct Over
{
   Range<T> r;
   Over(T *lo, T *hi, const char *name): r(lo, hi, name) {}
   template<int CAT> It<T,CAT> at(size_t p) { return It<T,CAT>(r.lo + p, &r); }
   template<int CAT> It<T,CAT> begin() { return at<CAT>(0); }
   template<int CAT> It<T,CAT> end() { return at<CAT>(r.hi - r.lo); }
   template<typename I> size_t pos(const I &i) const { CHECK(i.r == &r, "the returned iterator is not one of %s", r.name); return i.p - r.lo; }
};
template<typename T> struct Over<T, false>
{
   T *lo, *hi;
   Over(T *l, T *h, const char *): lo(l), hi(h) {}
   template<int CAT> T *at(size_t p) { return lo + p; }
   template<int CAT> T *begin() { return lo; }
   template<int CAT> T *end() { return hi; }
   size_t pos(const T *i) const { return i - lo; }
};

template<typename T> inline typename std::enable_if<std::is_arithmetic<T>::value, int>::type key_of(T x) { return (int)x; }
inline int key_of(const Tag &x) { return x.k; }
template<typename T> inline typename std::enable_if<std::is_arithmetic<T>::value, bool>::type same(T a, T b) { return !memcmp(&a, &b, sizeof a); }
inline bool same(const Tag &a, const Tag &b) { return a.same(b); }
inline void put(std::vector<int> &v, int k) { v.push_back(k); }
inline void put(std::vector<signed char> &v, int k) { v.push_back((signed char)(k % 2 ? k : -k)); }
// two values which are equal and not the same
template<typename T> inline typename std::enable_if<std::is_integral<T>::value>::type put(std::vector<T> &v, int k) { v.push_back((T)k); }
inline void put(std::vector<float> &v, int k) { v.push_back(k || v.size() % 2 ? k : -0.0f); }
inline void put(std::vector<double> &v, int k) { v.push_back(k || v.size() % 2 ? k : -0.0); }
template<typename T> inline std::string show_keys(const std::vector<T> &v) { Ints x; for (size_t i = 0; i < v.size(); ++i) x.push_back(key_of(v[i])); return show(x); }
template<typename T> inline typename std::enable_if<std::is_arithmetic<T>::value, std::string>::type show(const std::vector<T> &v) { return show_keys(v); }
inline void put(std::vector<Tag> &v, int k) { v.push_back(Tag(k, (int)v.size())); }

template<typename T> std::vector<T> some(Src &s, unsigned universe)
{
   std::vector<T> v;
   static const unsigned most[] = { 3, 8, 8, 40 };
   if (s.below(64) == 1)
   {
      // a long one, which may repeat itself
      const unsigned n = 60 + s.below(s.below(8) == 1 ? 1000 : 250), period = s.coin() ? 1 + s.below(40) : 0;
      Lcg g(s);
      for (unsigned i = 0; i < n; ++i) put(v, period && i >= period && g.below(50) ? key_of(v[i - period]) : (int)g.below(universe));
      CNT("long range");
      return v;
   }
   for (unsigned n = s.below(most[s.below(4)] + 1); n--;) put(v, (int)s.below(universe));
   return v;
}
// numbers of a type: small ones of both signs, its limits and what is next to them, and ones which
// differ above 8, 16, 31 and 32 bits only
template<typename T> T number(Src &s)
{
   const int small = (int)s.below(7) - 3;
   if (std::is_floating_point<T>::value)
   {
      static const double d[] = { 0.0, -0.0, 1e-310, -1e-310, 1e38, -1e38, 0.1, 0.1f, 1.0 / 3, 16777216, 16777217, 9007199254740992.0, HUGE_VAL, -HUGE_VAL, 1 + 1e-16, 1 + 1e-15 };
      return s.coin() ? (T)small : (T)d[s.below(16)];
   }
   const uint64_t top = sizeof(T) < 8 ? (1ull << (8 * sizeof(T) % 64)) - 1 : (uint64_t)-1;
   switch (s.below(8))
   {
   case 0: return (T)(top + small);              // -1 or the largest
   case 1: return (T)(top / 2 + small);          // largest and smallest of the signed ones
   case 2: return (T)((256ll << 8 * s.below(4)) + small);
   case 3: return (T)((1ll << 31) + small);
   case 4: return (T)-((1ll << 31) + small);
   default: return (T)small;
   }
}
// how often predicates and functions were called
struct Calls { size_t n; Calls(): n(0) {} };
template<typename T> struct Unary
{
   Calls *c; int m, r;
   bool operator()(const T &a) const { ++c->n; return ((key_of(a) % m) + m) % m == r; }
};
// not symmetric, so that the order of the arguments shows
template<typename T> struct Binary
{
   Calls *c; int kind;
   bool operator()(const T &a, const T &b) const { ++c->n; int x = key_of(a), y = key_of(b); return kind == 0 ? x == y : kind == 1 ? x < y : kind == 2 ? x == y + 1 : x >= y; }
};

// f with the count m as some integer type, and for all but 0 as a number of a wider type which
// differs from it above its low 32 bits; huge ones only where they are sensible
template<typename F> size_t with_count(pbt::Src &s, int m, bool huge, int &is, F f)
{
   is = m;
   const unsigned u = m < 0 ? 0 : (unsigned)m;
   switch (s.below(13))
   {
   case 0: return f((long long)m);
   case 1: return f((short)m);
   case 2: if (m >= 0 && m < 256) return f((unsigned char)m); break;
   case 3: if (m < 128) return f((signed char)m); break;
   case 4: is = (int)u; return f(u);
   case 5: is = (int)u; return f((size_t)u);
   case 6: is = -1; return f(-0x100000000ll + m);
   case 7: is = -1; return f((long)-0x7fffffffffffffffl + m);
   case 8: if (huge) { is = INT_MAX; return f(0x100000000ull + u); } break;
   case 9: if (huge) { is = INT_MAX; return f((size_t)0 - 1 - u); } break;
   case 10: if (huge) { is = INT_MAX; return f(0x80000000u + u); } break;
   case 11: if (huge) { is = INT_MAX; return f(0x7fffffff00000000ll + u); } break;
   }
   return f(m);
}
#endif
