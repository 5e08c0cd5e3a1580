// Property-based testing engine for the TTL checks.
//
// A property is a function  void pbt_property(pbt::Src &)  which draws every
// random decision from the choice source.  The engine runs it over many
// generated choice sequences in forked workers, treats a failed CHECK, a
// sanitizer report, a crash and a runaway loop as a violation, shrinks the
// choice sequence, replays the minimal one three times and writes it as the
// replay file.
//
// Built with -DPBT_LIBFUZZER, the same property is a libFuzzer target.
#ifndef PBT_HPP
#define PBT_HPP

#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <setjmp.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <new>
#include <vector>
#include <string>
#include <algorithm>

namespace pbt
{
   // ---------------------------------------------------------------- shared
   enum { MAX_CHOICES = 1 << 16, MAX_TRACE = 1 << 16, MAX_MSG = 2048,
          MAX_CNT = 512, NAME_LEN = 56, MAX_SPANS = 1 << 14 };
   enum { RUN_OK = 0, RUN_FAIL = 1, RUN_CRASH = 2, RUN_HANG = 3 };

   struct Shm
   {
      volatile uint64_t case_index;   // case being run
      volatile uint64_t cases_done;
      volatile uint64_t steps;        // operations applied to the code under test
      volatile uint64_t nontrivial;
      volatile uint64_t discarded;
      volatile int outcome;           // of the last child
      double slowest;                 // CPU seconds of one case
      uint32_t nchoices;
      uint32_t nspans;
      uint32_t choices[MAX_CHOICES];
      uint32_t span_b[MAX_SPANS], span_e[MAX_SPANS];
      uint32_t trace_len;
      char trace[MAX_TRACE];
      char msg[MAX_MSG];
      uint32_t ncnt;
      char cnt_name[MAX_CNT][NAME_LEN];
      volatile uint64_t cnt[MAX_CNT];
      uint64_t nhash;
      uint64_t maxhash;
      // hashes follow
      uint64_t *hashes() { return (uint64_t *)(this + 1); }
   };

   struct Globals
   {
      Shm *shm;
      bool tracing;
      bool thorough;
      bool quiet_fail;
      bool fuzzing;
      const char *prop;
   };
   inline Globals &G() { static Globals g; return g; }

   // ---------------------------------------------------------------- memory
   // operator new/delete are replaced: blocks allocated while a library call
   // is running (LibScope) are recorded, so that the checks can observe how
   // many blocks the library holds and which kind of new it used.
   struct Block { void *p; size_t size; unsigned char array; };
   struct Mem
   {
      int in_lib;
      uint64_t lib_allocs, lib_frees;    // calls made from inside the library
      uint64_t lib_live;                 // live blocks allocated by the library
      uint64_t lib_live_bytes;
      uint64_t kind_mismatch;
      Block *tab; size_t cap, used;      // open addressing, tombstones as p == 1
   };
   #ifdef PBT_THREADS
   inline Mem &M() { static thread_local Mem m; return m; }   // the harness has operator new and delete of its own
#else
   inline Mem &M() { static Mem m; return m; }
#endif
   void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));

   inline size_t mem_hash(void *p, size_t cap)
   {
      uint64_t x = (uint64_t)(uintptr_t)p;
      x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 29;
      return (size_t)x & (cap - 1);
   }
   inline void mem_insert(Mem &m, void *p, size_t size, bool array)
   {
      if ((m.used + 1) * 2 > m.cap)
      {
         size_t oc = m.cap, nc = m.cap ? m.cap : 1024;
         size_t live = 0;
         for (size_t i = 0; i < oc; ++i)
            if ((uintptr_t)m.tab[i].p > 1) ++live;
         while ((live + 1) * 4 > nc) nc *= 2;
         Block *nt = (Block *)calloc(nc, sizeof(Block));
         for (size_t i = 0; i < oc; ++i)
            if ((uintptr_t)m.tab[i].p > 1)
            {
               size_t h = mem_hash(m.tab[i].p, nc);
               while (nt[h].p) h = (h + 1) & (nc - 1);
               nt[h] = m.tab[i];
            }
         free(m.tab);
         m.tab = nt; m.cap = nc; m.used = live;
      }
      size_t h = mem_hash(p, m.cap);
      while ((uintptr_t)m.tab[h].p > 1) h = (h + 1) & (m.cap - 1);
      if (!m.tab[h].p) ++m.used;
      m.tab[h].p = p; m.tab[h].size = size; m.tab[h].array = array;
   }
   inline Block *mem_find(Mem &m, void *p)
   {
      if (!m.cap) return 0;
      for (size_t h = mem_hash(p, m.cap); m.tab[h].p; h = (h + 1) & (m.cap - 1))
         if (m.tab[h].p == p) return &m.tab[h];
      return 0;
   }
   inline void *mem_new(size_t n, bool array)
   {
      Mem &m = M();
      void *p;
      if (m.in_lib)
      {
         if (m.lib_live_bytes + n > (256u << 20))
         {
            m.in_lib = 0;
            fail("runaway allocation: the library holds more than 256 MiB");
         }
         p = malloc(n ? n : 1);
         memset(p, 0xA5, n);
         ++m.lib_allocs; ++m.lib_live; m.lib_live_bytes += n;
         mem_insert(m, p, n, array);
      }
      else
         p = malloc(n ? n : 1);
      if (!p) abort();
      return p;
   }
   inline void mem_delete(void *p, bool array)
   {
      if (!p) return;
      Mem &m = M();
      Block *b = m.lib_live ? mem_find(m, p) : 0;
      if (b)
      {
         if ((bool)b->array != array) ++m.kind_mismatch;
         --m.lib_live; m.lib_live_bytes -= b->size;
         b->p = (void *)1;
      }
      if (m.in_lib) ++m.lib_frees;
      free(p);
   }
   inline void mem_case_reset()
   {
      Mem &m = M();
      if (m.lib_live)
         for (size_t i = 0; i < m.cap; ++i)
            if ((uintptr_t)m.tab[i].p > 1) m.tab[i].p = (void *)1; // leaked by the case
      m.in_lib = 0; m.lib_allocs = m.lib_frees = m.lib_live = m.lib_live_bytes = m.kind_mismatch = 0;
   }
   struct LibScope
   {
      LibScope() { ++M().in_lib; }
      ~LibScope() { --M().in_lib; }
   };
   // code of the harness running inside a library call (functors, elements)
   struct UserScope
   {
      int saved;
      UserScope(): saved(M().in_lib) { M().in_lib = 0; }
      ~UserScope() { M().in_lib = saved; }
   };

   // ---------------------------------------------------------------- output
   inline void fail(const char *fmt, ...)
   {
      M().in_lib = 0;
      Shm *s = G().shm;
      va_list ap;
      va_start(ap, fmt);
      vsnprintf(s->msg, MAX_MSG, fmt, ap);
      va_end(ap);
      s->outcome = RUN_FAIL;
      if (G().fuzzing)
      {
         fprintf(stderr, "PBT-FAIL: %s\n", s->msg);
         abort();
      }
      _exit(77);
   }
   // the case left the domain of the property: end it without a verdict
   inline jmp_buf &out_of_case() { static jmp_buf b; return b; }
   inline void abandon() __attribute__((noreturn));
   inline void abandon()
   {
      M().in_lib = 0;
      ++G().shm->discarded;
      longjmp(out_of_case(), 1);
   }
   inline void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
   inline void trace(const char *fmt, ...)
   {
      if (!G().tracing) return;
      UserScope u;
      Shm *s = G().shm;
      va_list ap;
      va_start(ap, fmt);
      if (s->trace_len < MAX_TRACE - 1)
      {
         int n = vsnprintf(s->trace + s->trace_len, MAX_TRACE - s->trace_len, fmt, ap);
         if (n > 0) s->trace_len += n;
         if (s->trace_len > MAX_TRACE - 1) s->trace_len = MAX_TRACE - 1;
      }
      va_end(ap);
   }
   inline int counter(const char *name)
   {
      Shm *s = G().shm;
      for (uint32_t i = 0; i < s->ncnt; ++i)
         if (!strncmp(s->cnt_name[i], name, NAME_LEN - 1)) return i;
      if (s->ncnt == MAX_CNT) return MAX_CNT - 1;
      strncpy(s->cnt_name[s->ncnt], name, NAME_LEN - 1);
      return s->ncnt++;
   }

#define TR(...) do { if (pbt::G().tracing) pbt::trace(__VA_ARGS__); } while (0)
#define CNT(name) ((void)++pbt::G().shm->cnt[([]{ pbt::UserScope u_; static int id_ = pbt::counter(name); return id_; }())])
#define CNT_IF(cond, name) do { if (cond) CNT(name); } while (0)
#define CHECK(cond, ...) do { if (!(cond)) pbt::fail(__VA_ARGS__); } while (0)
#define STEP() (++pbt::G().shm->steps)
   // evaluate an expression as a library call
#define LIB(...) ([&]() -> decltype(auto) { pbt::LibScope lib_; return __VA_ARGS__; }())

   // ---------------------------------------------------------------- choices
   inline uint64_t mix(uint64_t x)
   {
      x += 0x9e3779b97f4a7c15ull;
      x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
      x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
      return x ^ (x >> 31);
   }

   class Src
   {
   public:
      enum Mode { RANDOM, REPLAY, BYTES };
      Src(Mode m): ordinal(0), mode_(m), state_(0), in_(0), nin_(0), pos_(0), bytes_(0), nbytes_(0), nontrivial_(false), fixed_(0), has_fixed_(false)
      {
         Shm *s = G().shm;
         s->nchoices = 0; s->nspans = 0; s->trace_len = 0; s->trace[0] = 0; s->msg[0] = 0;
      }
      static Src random(uint64_t seed) { Src s(RANDOM); s.state_ = mix(seed); return s; }
      static Src replay(const uint32_t *c, size_t n) { Src s(REPLAY); s.in_ = c; s.nin_ = n; return s; }
      static Src bytes(const uint8_t *b, size_t n) { Src s(BYTES); s.bytes_ = b; s.nbytes_ = n; return s; }

      // the number of a generated case, for choices which are to come all in turn
      uint64_t ordinal;
      uint32_t in_turn(uint64_t v, uint32_t n) { fixed_ = v % n; has_fixed_ = true; return below(n); }
      // uniform in [0, n)
      uint32_t below(uint32_t n)
      {
         uint32_t v = 0;
         const bool fixed = has_fixed_;
         has_fixed_ = false;
         switch (mode_)
         {
         case RANDOM:
            if (fixed) { v = fixed_; break; }
            state_ = state_ * 6364136223846793005ull + 1442695040888963407ull;
            v = (uint32_t)(((mix(state_) >> 32) * (uint64_t)n) >> 32);
            break;
         case REPLAY:
            v = pos_ < nin_ ? in_[pos_] : 0;
            if (v >= n) v = n ? v % n : 0;
            break;
         case BYTES:
            if (n > 1)
            {
               uint64_t acc = 0;
               for (uint64_t r = 1; r < n && pos_ < nbytes_; r <<= 8)
                  acc = acc << 8 | bytes_[pos_++];
               v = (uint32_t)(acc % n);
            }
            break;
         }
         if (mode_ != BYTES) ++pos_;
         Shm *s = G().shm;
         if (s->nchoices < MAX_CHOICES) s->choices[s->nchoices++] = v;
         return v;
      }
      bool coin() { return below(2); }
      // true about p times in 256; shrinks to false
      bool chance(unsigned p) { return below(256) >= 256 - p; }
      int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }
      bool exhausted() const
      {
         return mode_ == REPLAY ? pos_ >= nin_ : mode_ == BYTES ? pos_ >= nbytes_ : false;
      }
      // loop control: true about n/(n+1) of the time; an exhausted source stops.
      // begins a span which ends at the next more()/end_span()
      bool more(unsigned n)
      {
         end_span();
         if (exhausted()) return false;
         Shm *s = G().shm;
         if (s->nchoices > MAX_CHOICES - 4096) return false;
         cur_b_ = s->nchoices; open_ = true;
         if (below(n + 1) == 0)
         {
            open_ = false;
            return false;
         }
         return true;
      }
      void end_span()
      {
         Shm *s = G().shm;
         if (open_ && s->nspans < MAX_SPANS)
         {
            s->span_b[s->nspans] = cur_b_;
            s->span_e[s->nspans] = s->nchoices;
            ++s->nspans;
         }
         open_ = false;
      }
      // weighted pick: index i with probability w[i]/sum
      template<size_t K> unsigned weighted(const unsigned (&w)[K])
      {
         unsigned sum = 0;
         for (size_t i = 0; i < K; ++i) sum += w[i];
         unsigned r = below(sum), i = 0;
         while (r >= w[i]) r -= w[i], ++i;
         return i;
      }
      void nontrivial() { nontrivial_ = true; }
      bool is_nontrivial() const { return nontrivial_; }
      // the generated case fell outside of the property's domain
      void discard() { ++G().shm->discarded; }
   private:
      Mode mode_;
      uint64_t state_;
      const uint32_t *in_; size_t nin_, pos_;
      const uint8_t *bytes_; size_t nbytes_;
      bool nontrivial_;
      uint32_t fixed_; bool has_fixed_;
      bool open_ = false;
      uint32_t cur_b_ = 0;
   };
}

// supplied by the harness
void pbt_property(pbt::Src &);
extern const char *const pbt_name;          // property id
extern const char *const pbt_rule;          // how cases are made, what is non-trivial
extern const unsigned pbt_quick_cases, pbt_thorough_cases;
// called at the start of every case to reset state of the harness
void pbt_reset();
// prints "probe ID present" for every accepted finding which is there
void pbt_probe() __attribute__((weak));

#endif
