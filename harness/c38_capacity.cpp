// C38: sizes, counts and positions beyond 32 bits, and the stack which long containers need.
//
// Huge containers are made of elements which never touch their memory: what they
// are known by is their address. An element counts itself and adds its address when it is
// made and takes both back when it ends, so that the number and the sum of the live
// ones say whether exactly the places [begin, end) have been filled. The memory is only reserved.
// Long ranges are computed. Counts given to lists are cut off after some elements.
#include "adapters.hpp"
#include "ttl/numeric.hpp"
#include <ucontext.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <set>
using namespace pbt;
#include "long.hpp"
#include "medium.hpp"

static const uint64_t K31 = 1ull << 31, K32 = 1ull << 32;

// ------------------------------------------------------------- on a stack of its own
static ucontext_t main_ctx, side_ctx;
static void (*side_fn)(void *); static void *side_arg;
static void side_main() { side_fn(side_arg); }
template<class F> void on_stack(size_t size, F f)
{
   // below it is nothing which can be touched
   const size_t guard = 1 << 20;
   char *m = (char *)mmap(0, size + guard, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   if (m == MAP_FAILED) { CNT("no memory for a stack"); return; }
   mprotect(m, guard, PROT_NONE);
   getcontext(&side_ctx);
   side_ctx.uc_stack.ss_sp = m + guard; side_ctx.uc_stack.ss_size = size; side_ctx.uc_link = &main_ctx;
   struct Call { static void call(void *p) { (*(F *)p)(); } };
   side_fn = &Call::call; side_arg = &f;
   makecontext(&side_ctx, side_main, 0);
   swapcontext(&main_ctx, &side_ctx);
   munmap(m, size + guard);
}

// ------------------------------------------------------------- elements without contents
static uint64_t made, sum;      // alive, and the sum of their addresses
template<size_t Size> struct Ghost
{
   char pad[Size];
   void in() { ++made; sum += (uint64_t)this; }
   Ghost() { in(); }
   Ghost(const Ghost &) { in(); }
   ~Ghost() { --made; sum -= (uint64_t)this; }
   Ghost &operator=(const Ghost &) { return *this; }
   bool operator==(const Ghost &) const { return true; }
   bool operator<(const Ghost &) const { return false; }
};
typedef Ghost<1> Mote;
typedef Ghost<1u << 20> Fat;

static bool room(size_t n)
{
   void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
   if (p == MAP_FAILED) { CNT("memory of this size cannot be reserved"); return false; }
   munmap(p, n);
   return true;
}
static uint64_t around(Src &s, bool fat)
{
   // fat: a million bytes each
   const uint64_t k = fat ? (s.below(2) ? 4096 : 2048) : s.below(8) == 1 ? K32 : K31;
   return k + s.below(40) - (s.below(4) == 1 ? 20 : 0);
}
template<class C> struct IsFixed { enum { v = 0 }; };
template<class T, unsigned N> struct IsFixed<ttl::fixed_vector<T,N> > { enum { v = 1 }; };

// no two elements lie at one address, so the elements given to a container must not be
// counted: one which was there before
template<class C, class T> struct Huge
{
   Src &s; C &c; const T &x; uint64_t n;
   Huge(Src &src, C &k, const T &e, uint64_t size): s(src), c(k), x(e), n(size) {}
   void same(const char *what)
   {
      const C &k = c;
      CHECK(k.size() == n, "%s: size() is %zu, not %llu", what, (size_t)k.size(), (unsigned long long)n);
      CHECK((uint64_t)(k.end() - k.begin()) == n && (uint64_t)(k.cend() - k.cbegin()) == n && (uint64_t)(c.end() - c.begin()) == n, "%s: begin() and end() are not %llu elements apart", what, (unsigned long long)n);
      CHECK(k.empty() == (n == 0), "%s: empty()", what);
      CHECK(k.capacity() >= n && k.max_size() >= n, "%s: capacity() is %zu with %llu elements", what, (size_t)k.capacity(), (unsigned long long)n);
      const uint64_t b = (uint64_t)k.data();
      const uint64_t pairs = n & 1 ? ((n - 1) / 2) * n : (n / 2) * (n - 1);
      CHECK(made == n, "%s: %llu elements are alive, not %llu", what, (unsigned long long)made, (unsigned long long)n);
      CHECK(sum == n * b + pairs * sizeof(T), "%s: the elements which are alive are not those from begin() to end()", what);
      if (n)
      {
         const uint64_t i = s.below(2) ? n - 1 - s.below(30 < n ? 30 : (uint32_t)n) : (((uint64_t)s.below(0xffffffffu) << 16) + s.below(65536)) % n;
         CHECK((uint64_t)&c[i] == b + i * sizeof(T) && (uint64_t)&k[i] == b + i * sizeof(T) && (uint64_t)&c.at(i) == b + i * sizeof(T) && (uint64_t)&k.at(i) == b + i * sizeof(T), "%s: element %llu is not at its place", what, (unsigned long long)i);
         CHECK(&c.back() == &c[n - 1] && &k.back() == &k[n - 1] && &c.front() == c.begin(), "%s: front() and back()", what);
      }
   }
   void step(unsigned kind, uint64_t most)
   {
      STEP();
      const uint64_t off = s.below(20), near = n > off ? n - off : n, k = s.below(6);
      switch (kind)
      {
      case 0: TR("push_back\n"); if (n < most) ++n, c.push_back(x); break;
      case 1: TR("pop_back\n"); if (n) --n, c.pop_back(); break;
      case 2:
         if (n + k > most) break;
         TR("insert %llu at %llu\n", (unsigned long long)k, (unsigned long long)near);
         { const typename C::iterator i = c.insert(c.begin() + near, (size_t)k, x); n += k; CHECK((uint64_t)(i - c.begin()) == near, "insert returns another place"); }
         break;
      case 3:
         if (n + 1 > most) break;
         TR("insert one at %llu\n", (unsigned long long)near);
         { const typename C::iterator i = c.insert(c.begin() + near, x); ++n; CHECK((uint64_t)(i - c.begin()) == near, "insert returns another place"); }
         break;
      case 4:
      {
         if (n + k > most) break;
         static T *more = (T *)mmap(0, 8 * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
         TR("insert a range of %llu at %llu\n", (unsigned long long)k, (unsigned long long)near);
         const typename C::iterator i = c.insert(c.begin() + near, (const T *)more, (const T *)more + k); n += k; CHECK((uint64_t)(i - c.begin()) == near, "insert returns another place");
         break;
      }
      case 5:
      {
         const uint64_t e = near + k > n ? n : near + k;
         TR("erase %llu to %llu\n", (unsigned long long)near, (unsigned long long)e);
         const typename C::iterator i = c.erase(c.begin() + near, c.begin() + e); n -= e - near; CHECK((uint64_t)(i - c.begin()) == near, "erase returns another place");
         break;
      }
      case 6: if (near < n) { TR("erase at %llu\n", (unsigned long long)near); c.erase(c.begin() + near); --n; } break;
      case 7: TR("resize to %llu\n", (unsigned long long)near); if (s.below(2)) c.resize(near); else c.resize(near, x); n = near; break;
      case 8: if (n + k <= most) { TR("resize to %llu\n", (unsigned long long)(n + k)); if (s.below(2)) c.resize(n + k); else c.resize(n + k, x); n += k; } break;
      default:
      {
         // the whole middle: what is left is some at the ends
         const uint64_t from = s.below(5), to = near;
         if (from > to || s.below(2)) break;
         TR("erase %llu to %llu\n", (unsigned long long)from, (unsigned long long)to);
         const typename C::iterator i = c.erase(c.begin() + from, c.begin() + to); n -= to - from; CHECK((uint64_t)(i - c.begin()) == from, "erase returns another place");
         break;
      }
      }
      same("after it");
   }
   void steps(uint64_t most)
   {
      same("at first");
      for (unsigned k = 2 + s.below(5); k--; ) step(s.below(10), most);
      TR("clear\n");
      c.clear(); n = 0;
      same("clear");
   }
};
static void start() { made = sum = 0; }
template<class T> void vector_of(Src &s, bool fat)
{
   typedef ttl::vector<T> C;
   const uint64_t n = around(s, fat), more = n + 200;
   if (!room(more * sizeof(T) * (fat ? 3 : 1))) return;
   // one which nobody counts
   T *const x = (T *)mmap(0, sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   uint64_t most = more;
   start();
   C *c;
   STEP();
   switch (s.below(7))
   {
   case 0: TR("vector(%llu)\n", (unsigned long long)n); c = new C(n); most = n; break;
   case 1: TR("vector(%llu, x)\n", (unsigned long long)n); c = new C(n, *x); most = n; break;
   case 2: TR("reserve %llu, resize to %llu\n", (unsigned long long)more, (unsigned long long)n); c = new C; c->reserve(more); CHECK(c->capacity() >= more, "reserve"); c->resize(n); break;
   case 3: TR("reserve %llu, resize to %llu with x\n", (unsigned long long)more, (unsigned long long)n); c = new C; c->reserve(more); c->resize(n, *x); break;
   case 4: TR("reserve %llu, assign %llu times x\n", (unsigned long long)more, (unsigned long long)n); c = new C; c->reserve(more); c->assign((size_t)n, *x); break;
   case 5: TR("reserve %llu, insert %llu times x\n", (unsigned long long)more, (unsigned long long)n); c = new C; c->reserve(more); c->insert(c->begin(), (size_t)n, *x); break;
   default:
      TR("reserve %llu, insert a range of %llu\n", (unsigned long long)more, (unsigned long long)n);
      { T *from = (T *)mmap(0, n * sizeof(T), PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); c = new C; c->reserve(more); c->insert(c->end(), (const T *)from, (const T *)from + n); munmap(from, n * sizeof(T)); break; }
   }
   if (fat) most = more + 100;       // memory may grow, and everything move
   Huge<C,T>(s, *c, *x, n).steps(most);
   munmap(x, sizeof(T));
   delete c;
   CHECK(made == 0 && sum == 0, "%llu elements outlive their vector", (unsigned long long)made);
   s.nontrivial();
   if (fat) CNT("vector of more than 2^31 bytes"); else { CNT("vector of about 2^31 or 2^32 elements"); CNT_IF(n > K32, "vector of more than 2^32 elements"); }
}
template<class T, unsigned N> void fixed_of(Src &s, uint64_t n)
{
   typedef ttl::fixed_vector<T,N> C;
   if (n > N) n = N - s.below(30);
   void *m = mmap(0, sizeof(C), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   T *const x = (T *)mmap(0, sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   if (m == MAP_FAILED) { CNT("memory of this size cannot be reserved"); return; }
   start();
   C *c;
   STEP();
   const bool ranges = s.below(3) == 1;
   T *const from = ranges ? (T *)mmap(0, n * sizeof(T), PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) : 0;
   if (ranges && (void *)from == MAP_FAILED) { CNT("memory of this size cannot be reserved"); munmap(m, sizeof(C)); return; }
   const T *const cf = from;
   if (ranges)
      switch (s.below(3))
      {
      case 0: TR("fixed_vector of a range of %llu\n", (unsigned long long)n); c = new(m) C(cf, cf + n); break;
      case 1: TR("assign a range of %llu\n", (unsigned long long)n); c = new(m) C; c->assign(cf, cf + n); break;
      default: TR("insert a range of %llu\n", (unsigned long long)n); c = new(m) C; c->insert(c->begin(), cf, cf + n); break;
      }
   else switch (s.below(6))
   {
   case 0: TR("fixed_vector(%llu)\n", (unsigned long long)n); c = new(m) C(n); break;
   case 1: TR("fixed_vector(%llu, x)\n", (unsigned long long)n); c = new(m) C(n, *x); break;
   case 2: TR("resize to %llu\n", (unsigned long long)n); c = new(m) C; c->resize(n); break;
   case 3: TR("resize to %llu with x\n", (unsigned long long)n); c = new(m) C; c->resize(n, *x); break;
   case 4: TR("assign %llu times x\n", (unsigned long long)n); c = new(m) C; c->assign((size_t)n, *x); break;
   default: TR("insert %llu times x\n", (unsigned long long)n); c = new(m) C; c->insert(c->begin(), (size_t)n, *x); break;
   }
   CHECK(c->capacity() == N && c->max_size() == N && c->full() == (n == N), "capacity() or full()");
   Huge<C,T>(s, *c, *x, n).steps(N);
   munmap(x, sizeof(T));
   if (ranges) munmap(from, n * sizeof(T));
   c->~C();
   CHECK(made == 0 && sum == 0, "%llu elements outlive their vector", (unsigned long long)made);
   munmap(m, sizeof(C));
   s.nontrivial();
   if (sizeof(T) > 1) CNT("fixed_vector of more than 2^31 bytes"); else CNT("fixed_vector of more than 2^31 elements");
}

// ------------------------------------------------------------- counts of lists
// copies of it end the operation after so many
static jmp_buf enough;
static unsigned copies;
enum { ENOUGH = 300 };
struct Quit
{
   int v;
   Quit(): v(0) { one(); }
   Quit(int x): v(x) {}
   Quit(const Quit &o): v(o.v) { one(); }
   static void one() { if (++copies == ENOUGH) longjmp(enough, 1); }
   bool operator==(const Quit &o) const { return v == o.v; }
};
template<class F> void many(const char *what, uint64_t n, F f)
{
   STEP();
   TR("%s with the count %llu\n", what, (unsigned long long)n);
   copies = 0;
   if (!setjmp(enough))
   {
      f();
      CHECK(0, "%s with the count %llu made %u elements only", what, (unsigned long long)n, copies);
   }
}
static void counted(Src &s)
{
   static const uint64_t b[] = { K31, K32, K32 + K31, 1ull << 33, 1ull << 40, 1ull << 16, 3ull << 32, 1ull << 48 };
   const unsigned w = s.below(17);
   const uint64_t n0 = b[s.below(8)] + s.below(300);
   const size_t n = n0;
   static Quit *x = new Quit(1);
   // objects which are left as they are when the operation ends
   static ttl::list<Quit> *l; static ttl::forward_list<Quit> *f; static ttl::backward_list<Quit> *k; static ttl::lazy_queue<Quit> *q; static ttl::vector<Quit> *v;
   l = new ttl::list<Quit>; f = new ttl::forward_list<Quit>; k = new ttl::backward_list<Quit>; q = new ttl::lazy_queue<Quit>; v = new ttl::vector<Quit>;
   if (s.below(2)) { copies = 0; l->push_back(*x); f->push_front(*x); k->push_back(*x); q->push_back(*x); }
   const uint64_t small = n < 1ull << 33 ? n : K32 + n % 1000;     // of vectors, which reserve memory
   if (w >= 13 && !room(small * sizeof(Quit))) return;
   switch (w)
   {
   case 0: many("list(n, x)", n, [=] { new ttl::list<Quit>(n, *x); }); break;
   case 1: many("list::insert", n, [=] { l->insert(l->begin(), n, *x); }); break;
   case 2: many("list::assign", n, [=] { l->assign(n, *x); }); break;
   case 3: many("list::resize", n, [=] { l->resize(n); }); break;
   case 4: many("list::resize", n, [=] { l->resize(n, *x); }); break;
   case 5: many("forward_list(n, x)", n, [=] { new ttl::forward_list<Quit>(n, *x); }); break;
   case 6: many("forward_list::insert_after", n, [=] { f->insert_after(f->before_begin(), n, *x); }); break;
   case 7: many("forward_list::assign", n, [=] { f->assign(n, *x); }); break;
   case 8: many("backward_list(n, x)", n, [=] { new ttl::backward_list<Quit>(n, *x); }); break;
   case 9: many("backward_list::insert_after", n, [=] { k->insert_after(k->before_begin(), n, *x); }); break;
   case 10: many("backward_list::assign", n, [=] { k->assign(n, *x); }); break;
   case 11: many("lazy_queue(n, x)", n, [=] { new ttl::lazy_queue<Quit>(n, *x); }); break;
   case 12: many("lazy_queue::insert_after", n, [=] { q->insert_after(q->before_begin(), n, *x); }); break;
   case 13: many("vector(n, x)", small, [=] { new ttl::vector<Quit>((size_t)small, *x); }); break;
   case 14: many("vector::insert", small, [=] { v->insert(v->begin(), (size_t)small, *x); }); break;
   case 15: many("vector::assign", small, [=] { v->assign((size_t)small, *x); }); break;
   default: many("vector::resize", small, [=] { v->resize((size_t)small); }); break;
   }
   s.nontrivial();
   CNT("counts beyond 32 bits");
}

// ------------------------------------------------------------- memory for large elements
// vectors of few elements of some bytes each, with room for many
static void reserved(Src &s)
{
   STEP();
   const uint64_t n = (s.below(2) ? 1ull << 29 : 1ull << 30) + s.below(64);
   if (!room(n * 8)) return;
   ttl::vector<uint64_t> *v = new ttl::vector<uint64_t>;
   for (unsigned i = s.below(4); i--; ) v->push_back(i);
   const uint64_t had = v->size();
   TR("reserve room for %llu elements of 8 bytes\n", (unsigned long long)n);
   v->reserve(n);
   CHECK(v->capacity() >= n && v->size() == had, "reserve of %llu elements: capacity() is %zu", (unsigned long long)n, (size_t)v->capacity());
   // every place up to there can be written
   uint64_t *p = v->data();
   p[n - 1] = 5; p[n / 2] = 6; p[n - 1] += p[n / 2];
   CHECK(p[n - 1] == 11, "memory");
   v->push_back(7);
   CHECK(v->data() == p && v->back() == 7 && v->size() == had + 1, "push_back with room");
   delete v;
   s.nontrivial();
   CNT("reserve of more than 2^31 bytes");
}

// ------------------------------------------------------------- bitsets
// only one at a time, as they do take memory
struct Alone { int fd; Alone(): fd(open("/proc/self/exe", O_RDONLY)) { if (fd >= 0) while (flock(fd, LOCK_EX) && errno == EINTR) ; } ~Alone() { if (fd >= 0) close(fd); } };
template<size_t N> struct BigBits
{
   typedef ttl::bitset<N> B;
   typedef std::set<uint64_t> M;
   Src &s;
   BigBits(Src &x): s(x) {}
   uint64_t pos()
   {
      switch (s.below(4))
      {
      case 0: return s.below(130);
      case 1: return N - 1 - s.below(70);
      case 2: return (K31 - 70 + s.below(140)) % N;
      default: return (K32 - 70 + s.below(140)) % N;
      }
   }
   void same(const B &b, const M &m, const char *what)
   {
      CHECK(b.size() == N && b.capacity() >= N, "%s: size()", what);
      CHECK(b.count() == m.size(), "%s: count() is %zu, not %zu", what, (size_t)b.count(), m.size());
      CHECK(b.any() == !m.empty() && b.none() == m.empty() && !b.all(), "%s: any(), none() or all()", what);
      for (M::const_iterator i = m.begin(); i != m.end(); ++i)
         CHECK(b.test(*i) && b[*i], "%s: bit %llu is not set", what, (unsigned long long)*i);
   }
   void run()
   {
      Alone lock;
      B *const a = (B *)mmap(0, sizeof(B), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      B *const c = (B *)mmap(0, sizeof(B), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (a == MAP_FAILED || c == MAP_FAILED) { CNT("memory of this size cannot be reserved"); return; }
      // all zero: nothing is touched until it is written
      M m;
      for (unsigned k = 1 + s.below(6); k--; )
      {
         STEP();
         const uint64_t p = pos();
         switch (s.below(5))
         {
         case 0: TR("set %llu\n", (unsigned long long)p); a->set(p); m.insert(p); break;
         case 1: TR("set %llu to 1\n", (unsigned long long)p); a->set(p, true); m.insert(p); break;
         case 2: TR("[%llu] = 1\n", (unsigned long long)p); (*a)[p] = true; m.insert(p); break;
         case 3: TR("flip %llu\n", (unsigned long long)p); a->flip(p); if (!m.erase(p)) m.insert(p); break;
         default: TR("reset %llu\n", (unsigned long long)p); a->reset(p); m.erase(p); break;
         }
      }
      same(*a, m, "bits");
      switch (s.below(6))
      {
      case 0: case 1:
      {
         const uint64_t d = s.below(3) == 1 ? pos() : s.below(70);
         const bool left = s.coin();
         TR("%s %llu\n", left ? "<<" : ">>", (unsigned long long)d);
         STEP();
         on_stack(4 * sizeof(B) + (1 << 20), [&] { if (left) new(c) B(*a << d); else new(c) B(*a >> d); });
         M w;
         for (M::const_iterator i = m.begin(); i != m.end(); ++i)
            if (left) { if (*i + d < N) w.insert(*i + d); } else if (*i >= d) w.insert(*i - d);
         same(*c, w, left ? "<<" : ">>");
         CNT("shift of a large bitset");
         break;
      }
      case 2:
      {
         TR("copy, == and !=\n");
         STEP();
         new(c) B(*a);
         same(*c, m, "copy");
         CHECK(*a == *c && !(*a != *c), "== of a copy");
         const uint64_t p = pos();
         c->flip(p);
         CHECK(!(*a == *c) && *a != *c, "== though bit %llu differs", (unsigned long long)p);
         break;
      }
      case 3:
      {
         TR("|=, ^= and &=\n");
         STEP();
         M o, w;
         for (unsigned k = 1 + s.below(4); k--; ) { const uint64_t p = pos(); c->set(p); o.insert(p); }
         w = m; w.insert(o.begin(), o.end());
         *a |= *c; same(*a, w, "|=");
         *a &= *c; same(*a, o, "&=");
         *a ^= *c; same(*a, M(), "^=");
         break;
      }
      case 4:
      {
         TR("set(), flip() and reset()\n");
         STEP();
         a->set();
         CHECK(a->count() == N && a->all() && a->any() && !a->none() && a->test(N - 1) && a->test(0), "set()");
         const uint64_t p = pos();
         a->reset(p);
         CHECK(a->count() == N - 1 && !a->all() && !a->test(p), "reset of bit %llu", (unsigned long long)p);
         a->flip();
         CHECK(a->count() == 1 && a->test(p) && a->any(), "flip()");
         a->reset();
         CHECK(a->count() == 0 && a->none(), "reset()");
         break;
      }
      default:
      {
         TR("from and to a small one\n");
         STEP();
         const ttl::bitset<70> t(*a);
         for (unsigned i = 0; i < 70; ++i) CHECK(t.test(i) == (m.count(i) != 0), "bitset<70> of a large one");
         *a = t;
         M w; for (M::const_iterator i = m.begin(); i != m.end() && *i < 70; ++i) w.insert(*i);
         same(*a, w, "assignment of a bitset<70>");
         break;
      }
      }
      munmap((void *)a, sizeof(B)); munmap((void *)c, sizeof(B));
      s.nontrivial();
      CNT("bitset of more than 2^31 bits"); CNT_IF(N > K32, "bitset of more than 2^32 bits");
   }
};

// ------------------------------------------------------------- ranges
// what is at a place: 1 at p and at q, and 0 elsewhere; or 0 below p and 1 from there; or the
// other way; or 0 and 1 in turn, but for p - 1 and p
enum Kind { MARKS, UP, DOWN, TURNS };
static uint64_t P, Q;
template<Kind K> int value(uint64_t i)
{
   switch (K)
   {
   case MARKS: return (i == P) | (i == Q);
   case UP: return i >= P;
   case DOWN: return i < P;
   default: return (i & 1) ^ (i >= P);
   }
}
template<Kind K> struct At
{
   typedef int value_type; typedef ptrdiff_t difference_type;
   uint64_t i;
   int operator*() const { return value<K>(i); }
   At &operator++() { ++i; return *this; }
   At &operator--() { --i; return *this; }
   At operator++(int) { At t = *this; ++i; return t; }
   At &operator+=(ptrdiff_t d) { i += d; return *this; }
   At operator+(ptrdiff_t d) const { At t = { i + d }; return t; }
   ptrdiff_t operator-(const At &o) const { return i - o.i; }
   bool operator==(const At &o) const { return i == o.i; }
   bool operator!=(const At &o) const { return i != o.i; }
};
typedef At<MARKS> Seq;
typedef At<UP> Up;
typedef At<DOWN> Down;
typedef At<TURNS> Turns;
// counts what is written, by value, and the sum of the places of ones
static uint64_t writes, ones, places;
struct Put
{
   uint64_t i;
   const Put &operator=(int v) const { ++writes; if (v) ++ones, places += i; return *this; }
   const Put &operator=(const Put &o) const { return *this = value<MARKS>(o.i); }
   operator int() const { return value<MARKS>(i); }
   Put(uint64_t x): i(x) {}
   Put(const Put &o): i(o.i) {}
};
struct Out
{
   typedef int value_type; typedef ptrdiff_t difference_type;
   uint64_t i;
   Put operator*() const { return Put(i); }
   Out &operator++() { ++i; return *this; }
   Out &operator--() { --i; return *this; }
   Out operator++(int) { Out t = *this; ++i; return t; }
   bool operator==(const Out &o) const { return i == o.i; }
   bool operator!=(const Out &o) const { return i != o.i; }
};
// elements which are really written, in turn to some cells
struct Cell { int v; Cell &operator=(const Cell &) { ++writes; return *this; } Cell &operator=(int) { ++writes; return *this; } Cell(const Cell &o): v(o.v) {} Cell(): v(0) {} };
static Cell cells[256];
struct In
{
   uint64_t i;
   Cell &operator*() const { return cells[i & 255]; }
   In &operator++() { ++i; return *this; }
   In &operator--() { --i; return *this; }
   bool operator==(const In &o) const { return i == o.i; }
   bool operator!=(const In &o) const { return i != o.i; }
};
// removes the elements which are one; reading happens in order
struct Keep
{
   uint64_t i;
   struct Ref
   {
      uint64_t i;
      Ref &operator=(Ref &&o) { ++writes; places += i; return *this; }
      bool operator==(int v) const { return value<MARKS>(i) == v; }
   };
   mutable Ref r;
   Keep(uint64_t x): i(x) {}
   Keep(const Keep &o): i(o.i) {}
   Keep &operator=(const Keep &o) { i = o.i; return *this; }
   Ref &operator*() const { r.i = i; return r; }
   Keep &operator++() { ++i; return *this; }
   bool operator==(const Keep &o) const { return i == o.i; }
   bool operator!=(const Keep &o) const { return i != o.i; }
};
struct IsOne { bool operator()(int v) const { return v == 1; } bool operator()(const Keep::Ref &r) const { return r == 1; } };
struct Eq { bool operator()(int a, int b) const { return a == b; } };
struct Less { bool operator()(int a, int b) const { return a < b; } };
struct Counting { uint64_t n; void operator()(int v) { ++n; (void)v; } };
static uint64_t gen;
struct Gen { int operator()() const { return gen++ == P; } };
struct Not { int operator()(int v) const { return !v; } };
struct Both { int operator()(int a, int b) const { return a & b; } };

#define IS(what, got, want) do { const uint64_t g_ = (got), w_ = (want); CHECK(g_ == w_, "%s: %llu, not %llu, in a range of %llu elements", what, (unsigned long long)g_, (unsigned long long)w_, (unsigned long long)n); } while (0)
static void linear(Src &s, const unsigned w, bool beyond)
{
   const uint64_t n = (beyond ? K32 : K31) + 40 + s.below(60);
   Q = n - 1 - s.below(30); P = s.below(4) ? Q - 1 - s.below(8) : s.below(200);
   const Seq b = { 0 }, e = { n };
   const Out ob = { 0 };
   writes = ones = places = gen = 0;
   STEP();
   TR("algorithm %u, range of %llu, marks at %llu and %llu\n", w, (unsigned long long)n, (unsigned long long)P, (unsigned long long)Q);
   switch (w)
   {
   case 0: IS("count", ttl::count(b, e, 0), n - 2); break;
   case 1: IS("count_if", ttl::count_if(b, e, Not()), n - 2); break;
   case 2: IS("find", ttl::find(b, e, 1).i, P); break;
   case 3: IS("find_if", ttl::find_if(b, e, IsOne()).i, P); break;
   case 4: IS("find_if_not", ttl::find_if_not(b, e, Not()).i, P); break;
   case 5: P = Q = n; IS("find of what is not there", ttl::find(b, e, 1).i, n); break;
   case 6: P = Q; CHECK(!ttl::all_of(b, e, Not()), "all_of"); break;
   case 7: P = Q; CHECK(ttl::any_of(b, e, IsOne()), "any_of"); break;
   case 8: P = Q; CHECK(!ttl::none_of(b, e, IsOne()), "none_of"); break;
   case 9: { const Turns b = { 0 }, e = { n }; if (P < 1) P = 1; IS("adjacent_find", ttl::adjacent_find(b, e).i, P - 1); break; }
   case 10: { const Turns b = { 0 }, e = { n }; if (P < 1) P = 1; IS("adjacent_find", ttl::adjacent_find(b, e, Eq()).i, P - 1); break; }
   case 11: { const Up b = { 0 }, e = { n }; const Up o = { 0 }; CHECK(s.coin() ? ttl::equal(b, e, o) : ttl::equal(b, e, o, e), "equal"); break; }
   case 12: { const Up b = { 0 }, e = { n }; P = n - 5; const Up o = { 1 }, f = { n + 1 }; CHECK(!(s.coin() ? ttl::equal(b, e, o, Eq()) : ttl::equal(b, e, o, f)), "equal of different ranges"); break; }
   case 13: { const Up b = { 0 }, e = { n }; P = n - 5; const Up o = { 1 }, f = { n + 1 }; if (s.coin()) IS("mismatch", ttl::mismatch(b, e, o).first.i, P - 1); else IS("mismatch", ttl::mismatch(b, e, o, f).second.i, P); break; }
   case 14: { const Up b = { 0 }, e = { n }; P = n - 5; const Up o = { 1 }, f = { n + 1 }; if (s.coin()) IS("mismatch", ttl::mismatch(b, e, o, Eq()).first.i, P - 1); else IS("mismatch", ttl::mismatch(b, e, o, f, Eq()).second.i, P); break; }
   case 15: { Counting c = { 0 }; IS("for_each", ttl::for_each(b, e, c).n, n); break; }
   case 16: { P = Q - 1; static const int pat[2] = { 1, 1 }; IS("search", ttl::search(b, e, pat, pat + 2).i, P); break; }
   case 17: { P = Q - 1; static const int pat[2] = { 1, 1 }; IS("search", ttl::search(b, e, pat, pat + 2, Eq()).i, P); break; }
   case 18: { const Up b = { 0 }, e = { n }; P = 3 + s.below(30); const uint64_t more = s.below(2); IS("search_n", ttl::search_n(b, e, n - P + more, 1).i, more ? n : P); break; }
   case 19: { const Up b = { 0 }, e = { n }; P = 3 + s.below(30); const uint64_t more = s.below(2); IS("search_n", ttl::search_n(b, e, (long long)(n - P + more), 1, Eq()).i, more ? n : P); break; }
   case 20: { const Out f = { n }; ttl::fill(ob, f, 1); IS("fill", writes, n); break; }
   case 21: IS("fill_n", ttl::fill_n(ob, n, 1).i, n); IS("fill_n", writes, n); break;
   case 22: IS("fill_n", ttl::fill_n(ob, (long)n, 1).i, n); IS("fill_n", writes, n); break;
   case 23: IS("copy", ttl::copy(b, e, ob).i, n); IS("copy", writes, n); IS("copy", places, P + Q); break;
   case 24: IS("copy_if", ttl::copy_if(b, e, ob, Not()).i, n - 2); IS("copy_if", writes, n - 2); break;
   case 25: IS("copy_n", ttl::copy_n(b, n, ob).i, n); IS("copy_n", writes, n); IS("copy_n", places, P + Q); break;
   case 26: { const Out f = { n + 7 }; IS("copy_backward", ttl::copy_backward(b, e, f).i, 7); IS("copy_backward", writes, n); IS("copy_backward", places, P + Q + 14); break; }
   case 27: { const Out f = { n }; ttl::generate(ob, f, Gen()); IS("generate", writes, n); IS("generate", places, P); break; }
   case 28: IS("generate_n", ttl::generate_n(ob, n, Gen()).i, n); IS("generate_n", places, P); break;
   case 29: { const Out f = { n }; ttl::replace(ob, f, 1, 5); IS("replace", writes, 2); IS("replace", places, P + Q); break; }
   case 30: { const Out f = { n }; ttl::replace_if(ob, f, Not(), 5); IS("replace_if", writes, n - 2); break; }
   case 31: IS("replace_copy", ttl::replace_copy(b, e, ob, 1, 0).i, n); IS("replace_copy", ones, 0); break;
   case 32: IS("replace_copy_if", ttl::replace_copy_if(b, e, ob, IsOne(), 0).i, n); IS("replace_copy_if", ones, 0); break;
   case 33: IS("remove_copy", ttl::remove_copy(b, e, ob, 1).i, n - 2); IS("remove_copy", writes, n - 2); break;
   case 34: IS("remove_copy_if", ttl::remove_copy_if(b, e, ob, Not()).i, 2); break;
   case 35: IS("transform", ttl::transform(b, e, ob, Not()).i, n); IS("transform", ones, n - 2); break;
   case 36: { const Seq o = { 0 }; IS("transform of two", ttl::transform(b, e, o, ob, Both()).i, n); IS("transform of two", places, P + Q); break; }
   case 37: IS("reverse_copy", ttl::reverse_copy(b, e, ob).i, n); IS("reverse_copy", places, 2 * (n - 1) - P - Q); break;
   case 38: { const In x = { 0 }, y = { n }; ttl::reverse(x, y); IS("reverse", writes, n & ~1ull); break; }
   case 39: { const In x = { 0 }, y = { n }, z = { 17 }; IS("swap_ranges", ttl::swap_ranges(x, y, z).i, n + 17); IS("swap_ranges", writes, 2 * n); break; }
   case 40: { const Down b = { 0 }, e = { n }; IS("is_sorted_until", ttl::is_sorted_until(b, e).i, P ? P : n); break; }
   case 41: { if (s.coin()) { P = 5; const Down d = { 3 }, e = { n }; CHECK(!ttl::is_sorted(d, e), "is_sorted"); } P = Q; const Up b = { 0 }, e = { n }; CHECK(ttl::is_sorted(b, e), "is_sorted of a sorted range"); break; }
   case 42: { const Up b = { 0 }, e = { n }; P = n - 9; const int few[3] = { 0, 1, 1 }; IS("merge", ttl::merge(b, e, few, few + 3, ob).i, n + 3); IS("merge", ones, 11); break; }
   case 43: IS("max_element", ttl::max_element(b, e).i, P); break;
   case 44: { const Keep x(0), y(n); if (s.below(2)) IS("remove", ttl::remove(x, y, 1).i, n - 2); else IS("remove_if", ttl::remove_if(x, y, IsOne()).i, n - 2); IS("remove", writes, n - P - 2); break; }
   default: { const Down b = { 0 }, e = { n }; P = Q; IS("min_element", ttl::min_element(b, e).i, P); IS("accumulate", ttl::accumulate(b, e, (uint64_t)0), P); break; }
   }
   s.nontrivial();
   CNT("algorithms over more than 2^31 elements"); CNT_IF(n > K32, "algorithms over more than 2^32 elements");
}
// what needs a logarithm of steps only
static void distant(Src &s)
{
   STEP();
   const unsigned bits = 1 + s.below(61);
   const uint64_t n = (((uint64_t)s.below(0xffffffffu) << 32 | s.below(0xffffffffu)) >> (64 - bits)) + 1;
   P = s.below(3) ? (((uint64_t)s.below(0xffffffffu) << 32 | s.below(0xffffffffu)) % (n + 1)) : n - s.below(n < 40 ? (uint32_t)n + 1 : 40);
   TR("bounds and distances in %llu elements, the ones begin at %llu\n", (unsigned long long)n, (unsigned long long)P);
   const Up b = { 0 }, e = { n };
   IS("lower_bound", ttl::lower_bound(b, e, 1).i, P); IS("lower_bound", ttl::lower_bound(b, e, 1, Less()).i, P);
   IS("lower_bound", ttl::lower_bound(b, e, 0).i, P ? 0 : n ? 0 : n);
   IS("upper_bound", ttl::upper_bound(b, e, 0).i, P); IS("upper_bound", ttl::upper_bound(b, e, 0, Less()).i, P); IS("upper_bound", ttl::upper_bound(b, e, 1).i, n);
   IS("equal_range", ttl::equal_range(b, e, 1).first.i, P); IS("equal_range", ttl::equal_range(b, e, 0, Less()).second.i, P);
   CHECK(ttl::binary_search(b, e, 1) == (P < n) && ttl::binary_search(b, e, 0, Less()) == (P > 0), "binary_search");
   IS("distance", ttl::distance(b, e), n); IS("distance", ttl::distance(e, b), 0 - n);
   Up i = b;
   ttl::advance(i, (ptrdiff_t)n);
   IS("advance", i.i, n);
   ttl::advance(i, -(long long)P);
   IS("advance", i.i, n - P);
   if (n > K31) s.nontrivial();
   CNT("bounds, distance and advance"); CNT_IF(n > K32, "bounds, distance and advance beyond 2^32");
}

const char *const pbt_name = "C38";
const char *const pbt_rule =
   "containers of about 2^31 and 2^32 elements which leave their memory alone and are known by their addresses (vector, fixed_vector; of a million bytes each, too), followed by short histories near the end; counts of up to "
   "2^48 given to lists and vectors, cut off after 300 elements; bitsets of more than 2^31 and 2^32 bits; algorithms over computed ranges of more than 2^31 and 2^32 elements, bounds and distances up to 2^61; and histories of containers of up to 140000 elements, compared element by element, and of "
   "containers of 24000 elements on a stack of 64 KiB. Non-trivial: all of them but bounds in shorter ranges";
const unsigned pbt_quick_cases = 8000, pbt_thorough_cases = 120000;
void pbt_reset() { REG().reset(); }
void pbt_property(Src &s)
{
   const unsigned k = s.below(100);
   // one in 61, of each kind in turn
   if (s.in_turn(s.ordinal % 61 == 0, 64) == 1)
   {
      enum { LINEAR = 46, KINDS = LINEAR + 16 };
      const unsigned kind = s.in_turn(s.ordinal / 61, KINDS);
      switch (kind)
      {
      default: linear(s, kind, s.in_turn(s.ordinal / 61 / KINDS, 2)); break;
      case LINEAR: case LINEAR + 1: case LINEAR + 2: case LINEAR + 3: case LINEAR + 4: case LINEAR + 5: case LINEAR + 6: vector_of<Mote>(s, false); break;
      case LINEAR + 7: case LINEAR + 8: case LINEAR + 9: case LINEAR + 10: case LINEAR + 11: fixed_of<Mote, 4294967290u>(s, around(s, false)); break;
      case LINEAR + 12: case LINEAR + 13: BigBits<4294967296ul + 70>(s).run(); break;
      case LINEAR + 14: case LINEAR + 15: BigBits<2147483648ul + 70>(s).run(); break;
      }
   }
   else if (k < 20) on_stack(64 << 10, [&] { Timed(s, false).run(); });
   else if (k < 32) vector_of<Fat>(s, true);
   else if (k < 40) fixed_of<Fat, 4500>(s, around(s, true));
   else if (k < 44) reserved(s);
   else if (k < 54) Medium(s).run();
   else if (k < 70) counted(s);
   else distant(s);
}
#define PBT_CPU_LIMIT 80
#include "pbt_main.hpp"
