// Element types of the generated cases.
#ifndef ELEMS_HPP
#define ELEMS_HPP
#include "pbt.hpp"

// A value which is wiped out when it is destroyed, so that a use after the end
// of its life yields a value no case ever stores.
enum { DEAD_VALUE = -0x5EADBEEF, RAW_VALUE = (int)0xA5A5A5A5u };

struct Val
{
   int v;
   Val(): v(0) {}
   Val(int x): v(x) {}
   Val(const Val &o): v(o.v) {}
   Val &operator=(const Val &o) { v = o.v; return *this; }
   ~Val() { *(volatile int *)&v = DEAD_VALUE; }
   bool operator==(const Val &o) const { return v == o.v; }
   bool operator!=(const Val &o) const { return v != o.v; }
   bool operator<(const Val &o) const { return v < o.v; }
   bool operator>(const Val &o) const { return v > o.v; }
};

// An element larger than a pointer, with redundancy: torn or shifted copies show.
struct Big
{
   int v;
   char pad[3];
   long long w;
   short t[5];
   void put(int x) { v = x; pad[0] = pad[1] = pad[2] = (char)x; w = ~(long long)x; for (int i = 0; i < 5; ++i) t[i] = (short)(x + i); }
   Big() { put(0); }
   Big(int x) { put(x); }
   Big(const Big &o) { put(o.get()); }
   Big &operator=(const Big &o) { put(o.get()); return *this; }
   ~Big() { *(volatile int *)&v = DEAD_VALUE; *(volatile long long *)&w = 0; }
   int get() const
   {
      bool ok = pad[0] == (char)v && pad[1] == (char)v && pad[2] == (char)v && w == ~(long long)v;
      for (int i = 0; i < 5; ++i) ok = ok && t[i] == (short)(v + i);
      return ok ? v : DEAD_VALUE;
   }
   bool operator==(const Big &o) const { return get() == o.get(); }
   bool operator!=(const Big &o) const { return get() != o.get(); }
   bool operator<(const Big &o) const { return get() < o.get(); }
   bool operator>(const Big &o) const { return get() > o.get(); }
};

// A small element of an odd size.
struct Odd
{
   unsigned char b[3];
   void put(int x) { b[0] = (unsigned char)x; b[1] = (unsigned char)(x >> 8); b[2] = (unsigned char)(x >> 16); }
   int get() const
   {
      int x = b[0] | b[1] << 8 | b[2] << 16;
      return x & 0x800000 ? x - 0x1000000 : x;
   }
   Odd() { put(0); }
   Odd(int x) { put(x); }
   bool operator==(const Odd &o) const { return get() == o.get(); }
   bool operator!=(const Odd &o) const { return get() != o.get(); }
   bool operator<(const Odd &o) const { return get() < o.get(); }
   bool operator>(const Odd &o) const { return get() > o.get(); }
};

// Two of them are equal if their halves are: not what a comparison of bytes says
struct Half
{
   int v; char pad;
   Half(): v(0), pad((char)++noise()) {}
   Half(int x): v(x), pad((char)++noise()) {}
   Half(const Half &o): v(o.v), pad((char)++noise()) {}
   Half &operator=(const Half &o) { v = o.v; return *this; }
   ~Half() { *(volatile int *)&v = DEAD_VALUE; }
   static int &noise() { static int n; return n; }
   bool operator==(const Half &o) const { return v / 2 == o.v / 2; }
   bool operator!=(const Half &o) const { return v / 2 != o.v / 2; }
   bool operator>(const Half &o) const { return v / 2 > o.v / 2; }
   bool operator<(const Half &o) const { return v / 2 < o.v / 2; }
};
template<class T> struct Coarse { enum { by = 1 }; };
template<> struct Coarse<Half> { enum { by = 2 }; };
template<class T> inline bool same(int a, int b) { return a / Coarse<T>::by == b / Coarse<T>::by; }
template<class T> inline bool below(int a, int b) { return a / Coarse<T>::by < b / Coarse<T>::by; }

// A type whose life is tracked: every construction, use and destruction of an
// object is checked against the set of the live ones.
struct Registry
{
   // open addressing on addresses
   const void **tab; size_t cap, used, live;
   uint64_t made, ended;
   void reset()
   {
      if (tab) memset((void *)tab, 0, cap * sizeof *tab);
      used = live = 0; made = ended = 0;
   }
   void grow()
   {
      const void **o = tab; size_t oc = cap;
      cap = 1024;
      while (cap < (live + 1) * 4) cap *= 2;
      tab = (const void **)calloc(cap, sizeof *tab);
      used = live;
      for (size_t i = 0; i < oc; ++i)
         if ((uintptr_t)o[i] > 1)
         {
            size_t h = slot(o[i]);
            while (tab[h]) h = (h + 1) & (cap - 1);
            tab[h] = o[i];
         }
      free((void *)o);
   }
   size_t slot(const void *p) const { return pbt::mem_hash((void *)p, cap); }
   bool has(const void *p) const
   {
      if (!cap) return false;
      for (size_t h = slot(p); tab[h]; h = (h + 1) & (cap - 1))
         if (tab[h] == p) return true;
      return false;
   }
   void add(const void *p)
   {
      if ((used + 1) * 2 > cap) grow();
      size_t h = slot(p);
      while ((uintptr_t)tab[h] > 1) h = (h + 1) & (cap - 1);
      if (!tab[h]) ++used;
      tab[h] = p; ++live;
   }
   void del(const void *p)
   {
      size_t h = slot(p);
      while (tab[h] != p) h = (h + 1) & (cap - 1);
      tab[h] = (const void *)1; --live;
   }
};
inline Registry &REG() { static Registry r; return r; }

struct Tr
{
   int v;
   void born()
   {
      CHECK(!REG().has(this), "lifetime: an element is constructed over a live one (value %d)", v);
      REG().add(this); ++REG().made;
   }
   void alive(const char *what) const { CHECK(REG().has(this), "lifetime: %s an object which is not alive", what); }
   Tr() { born(); v = 0; }
   Tr(int x) { born(); v = x; }
   Tr(const Tr &o) { o.alive("copy construction from"); born(); v = o.v; }
   Tr &operator=(const Tr &o)
   {
      o.alive("assignment from"); alive("assignment to");
      v = o.v;
      return *this;
   }
   ~Tr()
   {
      alive("destruction of");
      REG().del(this); ++REG().ended;
      *(volatile int *)&v = DEAD_VALUE;
   }
   int get() const { alive("reading"); return v; }
   bool operator==(const Tr &o) const { return get() == o.get(); }
   bool operator!=(const Tr &o) const { return get() != o.get(); }
   bool operator<(const Tr &o) const { return get() < o.get(); }
   bool operator>(const Tr &o) const { return get() > o.get(); }
};

inline int val(int x) { return x; }
inline int val(const Val &x) { return x.v; }
inline int val(const Big &x) { return x.get(); }
inline int val(const Odd &x) { return x.get(); }
inline int val(const Half &x) { return x.v; }
inline int val(const Tr &x) { return x.get(); }

template<typename T> struct Name { static const char *s() { return "?"; } };
template<> struct Name<int> { static const char *s() { return "int"; } };
template<> struct Name<Val> { static const char *s() { return "Val"; } };
template<> struct Name<Big> { static const char *s() { return "Big"; } };
template<> struct Name<Odd> { static const char *s() { return "Odd"; } };
template<> struct Name<Half> { static const char *s() { return "Half"; } };
template<> struct Name<Tr> { static const char *s() { return "Tr"; } };

// Orders of the keys.  All of them agree with ==: equivalent keys are equal.
template<typename K> struct ByLess { bool operator()(const K &a, const K &b) const { return a < b; } };
template<typename K> struct ByGreater { bool operator()(const K &a, const K &b) const { return b < a; } };
// even keys first, descending among the odd ones
template<typename K> struct ByParity
{
   bool operator()(const K &a, const K &b) const
   {
      int x = val(a), y = val(b);
      if ((x & 1) != (y & 1)) return (x & 1) < (y & 1);
      return x & 1 ? y < x : x < y;
   }
};

// the order of Half
template<typename K> struct HalfLess { bool operator()(const K &a, const K &b) const { return val(a) / 2 < val(b) / 2; } };
template<typename K> struct HalfGreater { bool operator()(const K &a, const K &b) const { return val(a) / 2 > val(b) / 2; } };

typedef std::vector<int> Ints;

// Now and then a case begins with a container of hundreds of elements, rarely
// with more than 2^16 of them; 0 otherwise.
inline size_t bulk_size(pbt::Src &s)
{
   const uint32_t x = s.below(pbt::G().thorough ? 32768 : 8192);
   if (x == 1) { CNT("case with more than 65536 elements"); return 65500 + s.below(400); }
   if (x > 1 && x <= 64) { CNT("case with hundreds of elements"); return s.below(4) ? 60 + s.below(500) : 240 + s.below(40); }
   return 0;
}
// pseudo-random numbers which cost the source one choice
struct Lcg
{
   uint64_t x;
   Lcg(pbt::Src &s): x(s.below(1u << 20)) {}
   uint32_t below(uint32_t n) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)(((x >> 32) * (uint64_t)n) >> 32); }
};
// the i-th key of a bulk of n: all different, up, down or scattered
struct BulkKeys
{
   size_t n; unsigned how; 
   BulkKeys(pbt::Src &s, size_t n_): n(n_), how(s.below(4)) {}
   int operator()(size_t i) const
   {
      switch (how)
      {
      case 0: return (int)(2 * i);
      case 1: return (int)(2 * (n - i));
      case 2: return (int)(2 * ((i * 1000003ull) % (n | 1)));              // scattered, may repeat
      default: return i & 1 ? (int)(2 * (n - i / 2)) : (int)i;               // from both ends
      }
   }
};

inline std::string show(const Ints &v)
{
   std::string s = "[";
   char b[32];
   for (size_t i = 0; i < v.size() && i < 40; ++i)
   {
      snprintf(b, sizeof b, "%s%d", i ? " " : "", v[i]);
      s += b;
   }
   if (v.size() > 40) s += " ...";
   snprintf(b, sizeof b, "]/%zu", v.size());
   return s + b;
}

// What the shared histories look at besides the results: WATCH_LIFE, that
// exactly the elements shown are alive; WATCH_MEM, the calls of operator new
// and the number of blocks the library holds; WATCH_ITER, iterators which are
// held on to.
#ifndef WATCH
#define WATCH 0
#endif
enum { WATCH_LIFE = 1, WATCH_MEM = 2, WATCH_ITER = 4 };
enum { ANY = 1 << 30 };
// A comparison with the model.  Where the histories serve to watch something
// else, a difference is not this property's: the case ends without a verdict.
#if WATCH
#define MODEL(cond, ...) do { if (!(cond)) pbt::abandon(); } while (0)
#else
#define MODEL CHECK
#endif
// the identity of elements is C18's, and part of the behaviour of the lists
#if WATCH && !(WATCH & 4)
#define SAME_OBJECT MODEL
#else
#define SAME_OBJECT CHECK
#endif
// the kept nodes are C10's and C17's
#if WATCH && !(WATCH & 2)
#define ACCOUNT MODEL
#else
#define ACCOUNT CHECK
#endif
struct Watch
{
   uint64_t allocs;
   char bad[200];
   Watch(): allocs(0) { bad[0] = 0; }
   void begin() { if (WATCH & WATCH_MEM) allocs = pbt::M().lib_allocs; }
   // objects: what should be alive; blocks: how many of them the library may
   // hold; limit: how many calls of new the operation may have made.  The
   // numbers count once the model is known to agree (verdict).
   void end(const char *what, size_t objects, size_t least, size_t most, size_t limit)
   {
      if (bad[0]) return;
      if (WATCH & WATCH_LIFE)
      {
         if (REG().live != objects)
            snprintf(bad, sizeof bad, "after %s: %zu elements are alive instead of %zu", what, REG().live, objects);
         else if (pbt::M().kind_mismatch)
            snprintf(bad, sizeof bad, "after %s: memory was given back by the wrong kind of delete", what);
      }
      if (WATCH & WATCH_MEM)
      {
         const size_t held = pbt::M().lib_live, made = pbt::M().lib_allocs - allocs;
         if (held < least || held > most)
            snprintf(bad, sizeof bad, "after %s: %zu blocks are held instead of %zu%s", what, held, most, least == most ? "" : " at most");
         else if (made > limit)
            snprintf(bad, sizeof bad, "%s allocated %zu blocks, at most %zu are needed", what, made, limit);
      }
   }
   void verdict() { CHECK(!bad[0], "%s", bad); }
   void finish()
   {
      if (WATCH & (WATCH_LIFE | WATCH_MEM))
      {
         CHECK(REG().live == 0, "%zu elements are alive after the destruction of the containers", REG().live);
         CHECK(pbt::M().lib_live == 0, "%zu blocks are held after the destruction of the containers", (size_t)pbt::M().lib_live);
         CHECK(pbt::M().kind_mismatch == 0, "memory was given back by the wrong kind of delete");
      }
   }
};

#endif
