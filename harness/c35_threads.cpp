// C35: reading changes nothing, and distinct objects share nothing: threads
// may read one container together, and each change what is its own.
#include "adapters.hpp"
#include "ttl/numeric.hpp"
#include <atomic>
#include <thread>
using namespace pbt;

// ------------------------------------------------------------------ memory
// Shared containers and their blocks lie in an area which can be made read-only.
enum { AREA = 16 << 20 };
static char *area; static size_t area_used;
static thread_local bool in_area;
static bool area_has(const void *p) { return area && (const char *)p >= area && (const char *)p < area + AREA; }
static void *get(size_t n)
{
   if (!in_area) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
   n = (n + 15) & ~(size_t)15; if (!n) n = 16;
   if (n > AREA - area_used) { in_area = false; fail("runaway allocation: a container holds more than %d bytes", (int)AREA); }
   void *p = area + area_used;
   area_used += n;
   memset(p, 0xA5, n);
   return p;
}
static void put(void *p) { if (!area_has(p)) free(p); }
void *operator new(size_t n) { return get(n); }
void *operator new[](size_t n) { return get(n); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
struct InArea { InArea() { in_area = true; } ~InArea() { in_area = false; } };
static const char *reading = "an operation which reads";
static void on_fault(int, siginfo_t *i, void *)
{
   if (area_has(i->si_addr)) fail("%s writes to a container which it only reads", reading);
   signal(SIGSEGV, SIG_DFL);
}
static void protect(bool on)
{
   if (mprotect(area, (area_used + 4095) & ~(size_t)4095, on ? PROT_READ : PROT_READ | PROT_WRITE)) { perror("mprotect"); _exit(3); }
}
#ifdef __SANITIZE_THREAD__
extern "C" const char *__tsan_default_options() { return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:report_thread_leaks=0:history_size=2:symbolize=0"; }
#endif

// ------------------------------------------------------------------ scripts
enum { MAX_THREADS = 3 };
struct Act { unsigned kind, x; Op op; };
typedef std::vector<Act> Script;

static int num(int x) { return x; }
template<class T> static auto num(const T &x) -> decltype(val(x)) { return val(x); }
template<class A, class B> static int num(const ttl::pair<A,B> &p) { return val(p.first) * 31 + val(p.second); }
struct Is { int v; template<class T> bool operator()(const T &x) const { return num(x) % 7 == v % 7; } };
struct Eq { template<class T> bool operator()(const T &a, const T &b) const { return num(a) == num(b); } };
struct Lt { template<class T> bool operator()(const T &a, const T &b) const { return num(a) < num(b); } };
struct Sum { int *s; template<class T> void operator()(const T &x) const { *s = *s * 5 + num(x); } };

// takes what algorithms write
struct Out { Ints *d; Out &operator*() { return *this; } Out &operator++() { return *this; } Out &operator++(int) { return *this; } template<class T> Out &operator=(const T &x) { d->push_back(num(x)); return *this; } };
struct Pick { template<class T> int operator()(const T &x) const { return num(x) / 2; } template<class T> int operator()(const T &a, const T &b) const { return num(a) * 3 + num(b); } };
template<class It> static auto backwards(It b, It e, Ints &d, int) -> decltype((void)--b) { const Out o = { &d }; ttl::reverse_copy(b, e, o); }
template<class It> static void backwards(It, It, Ints &, long) {}
template<class It> static auto jumps(It b, It e, Ints &d, int) -> decltype((void)(b + 1))
{
   if (b == e) return;
   const typename std::decay<decltype(*b)>::type v(*(b + (e - b) / 2));
   d.push_back((int)(ttl::lower_bound(b, e, v, Lt()) - b)); d.push_back((int)(ttl::upper_bound(b, e, v, Lt()) - b)); d.push_back(ttl::binary_search(b, e, v, Lt())); d.push_back((int)(ttl::equal_range(b, e, v, Lt()).second - b));
   d.push_back((int)ttl::distance(b, e));
}
template<class It> static void jumps(It, It, Ints &, long) {}
template<class It> static auto values(It b, It e, Ints &d, int) -> decltype((void)(*b < *b))
{
   d.push_back(ttl::is_sorted(b, e));
   if (b == e) return;
   const typename std::decay<decltype(*b)>::type v(*b);
   d.push_back(num(*ttl::find(b, e, v))); d.push_back((int)ttl::count(b, e, v)); d.push_back(num(*ttl::max_element(b, e))); d.push_back(num(*ttl::min_element(b, e))); d.push_back(num(*ttl::minmax_element(b, e).second));
   d.push_back(num(ttl::max(*b, v))); d.push_back(num(ttl::min(v, *b))); d.push_back(num(ttl::minmax(v, *b).first));
   It f = ttl::search_n(b, e, 2, v); d.push_back(f == e ? -1 : num(*f));
   f = ttl::is_sorted_until(b, e); d.push_back(f == e ? -1 : num(*f));
   f = ttl::adjacent_find(b, e); d.push_back(f == e ? -1 : num(*f));
}
template<class It> static void values(It, It, Ints &, long) {}
// members which not all of the containers have
#define MEMBER(name, ...) \
   template<class C, class K> static auto m_##name(C &c, const K &key, Ints &d, int) -> decltype((void)(__VA_ARGS__), c.size(), (void)0) { (void)key; d.push_back((int)(__VA_ARGS__)); } \
   template<class C, class K> static auto m_##name(C &c, const K &key, Ints &d, long) -> decltype((void)(__VA_ARGS__)) { (void)key; d.push_back((int)(__VA_ARGS__)); } \
   template<class C, class K> static void m_##name(C &, const K &, Ints &, ...) {}
MEMBER(size, c.size())
MEMBER(empty, c.empty())
MEMBER(max_size, c.max_size() > 0)
MEMBER(capacity, c.capacity() >= 1)
MEMBER(ends, c.begin() == c.end())
MEMBER(cends, c.cbegin() == c.cend())
MEMBER(front, c.empty() ? 0 : num(c.front()))
MEMBER(back, c.empty() ? 0 : num(c.back()))
MEMBER(data, c.empty() ? 0 : num(*c.data()))
MEMBER(find, c.find(key) == c.end())
MEMBER(count, c.count(key))
MEMBER(lower, c.lower_bound(key) == c.end())
MEMBER(upper, c.upper_bound(key) == c.end())
MEMBER(range, c.equal_range(key).first == c.equal_range(key).second)
MEMBER(at, c.find(key) == c.end() ? 0 : num(c.at(key)))
MEMBER(comp, c.key_comp()(key, key))
MEMBER(vcomp, c.begin() == c.end() ? false : c.value_comp()(*c.begin(), *c.begin()))
MEMBER(before, c.before_begin() == c.cbefore_begin())
MEMBER(last, c.before_end() == c.cbefore_end())
template<class C, class K> static void members(C &c, const K &key, Ints &d)
{
   m_size(c, key, d, 0); m_empty(c, key, d, 0); m_max_size(c, key, d, 0); m_capacity(c, key, d, 0); m_ends(c, key, d, 0); m_cends(c, key, d, 0); m_front(c, key, d, 0); m_back(c, key, d, 0); m_data(c, key, d, 0); m_find(c, key, d, 0);
   m_count(c, key, d, 0); m_lower(c, key, d, 0); m_upper(c, key, d, 0); m_range(c, key, d, 0); m_at(c, key, d, 0); m_comp(c, key, d, 0); m_vcomp(c, key, d, 0); m_before(c, key, d, 0); m_last(c, key, d, 0);
}
template<size_t N> static void members(const ttl::bitset<N> &c, int key, Ints &d)
{
   const size_t p = (size_t)key % N;
   d.push_back(c[p]); d.push_back((int)(c << p).count()); d.push_back((int)(c >> p).count()); d.push_back((int)(~c).count()); d.push_back((int)(c & ~c).count()); d.push_back((int)(c | c).count()); d.push_back((int)(c ^ c).count());
   d.push_back((int)(c.to_ullong() >> 7)); d.push_back((int)c.size()); const ttl::bitset<N + 40> w(c); const ttl::bitset<N / 2 + 1> n(c); d.push_back((int)w.count()); d.push_back((int)n.count());
}
template<size_t N> static void members(ttl::bitset<N> &c, int key, Ints &d) { members((const ttl::bitset<N> &)c, key, d); }
template<class C> static auto read_range(const C &c, const C &k, int v, Ints &d, int) -> decltype((void)c.begin())
{
   typedef typename C::const_iterator It;
   const Is is = { v };
   It b = c.begin(), e = c.end();
   d.push_back((int)ttl::count_if(b, e, is)); d.push_back(ttl::all_of(b, e, is)); d.push_back(ttl::any_of(b, e, is)); d.push_back(ttl::none_of(b, e, is));
   It f = ttl::find_if(b, e, is); d.push_back(f == e ? -1 : num(*f));
   f = ttl::adjacent_find(b, e, Eq()); d.push_back(f == e ? -1 : num(*f));
   int s = 0; const Sum sum = { &s }; ttl::for_each(b, e, sum); d.push_back(s);
   d.push_back(ttl::equal(b, e, k.begin(), k.end(), Eq()));
   f = ttl::mismatch(b, e, k.begin(), k.end(), Eq()).first; d.push_back(f == e ? -1 : num(*f));
   f = ttl::search(b, e, k.begin(), k.end(), Eq()); d.push_back(f == e ? -1 : num(*f));
   f = ttl::find_if_not(b, e, is); d.push_back(f == e ? -1 : num(*f));
   const Out o = { &d };
   ttl::copy(b, e, o); ttl::copy_if(b, e, o, is); ttl::remove_copy_if(b, e, o, is); ttl::transform(b, e, o, Pick());
   backwards(b, e, d, 0); jumps(b, e, d, 0); values(b, e, d, 0);
}
template<class C> static void read_range(const C &, const C &, int, Ints &, long) {}
struct Count { int n; Count(int x): n(x) {} int operator()() { return n++; } };
// algorithms over elements of the thread's own
static void own_range(const Op &o, Ints &d)
{
   const Is is = { o.v };
   int a[12], b[12], c[24], n = 12;
   for (int i = 0; i < n; ++i) { a[i] = (int)((o.a * 7 + i * (o.b | 1)) % 9); b[i] = i / (1 + o.kind % 4); c[i] = c[i + 12] = 0; }
   switch (o.b % 26)
   {
   case 0: ttl::reverse(a, a + n); break;
   case 1: n = (int)(ttl::remove(a, a + n, o.v % 9) - a); break;
   case 2: d.push_back(ttl::accumulate(a, a + n, o.v)); break;
   case 3: ttl::replace(a, a + n, o.v % 9, 77); break;
   case 4: ttl::swap_ranges(a, a + n, b); break;
   case 5: ttl::fill(a + 2, a + 7, o.v); break;
   case 6: ttl::copy(a, a + 5, a + 6); break;
   case 7: ttl::copy_backward(a, a + 7, a + n); break;
   case 8: d.push_back((int)(ttl::lower_bound(b, b + 12, o.v % 12) - b)); d.push_back((int)(ttl::upper_bound(b, b + 12, o.v % 12) - b)); d.push_back(ttl::binary_search(b, b + 12, o.v % 12)); break;
   case 9: d.push_back((int)(ttl::max_element(a, a + n) - a)); d.push_back((int)(ttl::min_element(a, a + n) - a)); d.push_back((int)(ttl::minmax_element(a, a + n).second - a)); d.push_back(ttl::is_sorted(b, b + n)); break;
   case 10: { int *e = ttl::merge(b, b + 12, b, b + 12, c); d.insert(d.end(), c, e); break; }
   case 11: ttl::copy_n(a, 5, c); n = (int)(ttl::remove_if(a, a + n, is) - a); break;
   case 12: ttl::replace_if(a, a + n, is, 5); break;
   case 13: ttl::generate_n(a, 7, Count(o.v)); ttl::fill_n(b + 2, 4u, o.v); break;
   case 14: ttl::transform(a, a + n, b, c, Pick()); d.insert(d.end(), c, c + n); break;
   case 15: ttl::remove_copy(a, a + n, c, 3); ttl::replace_copy(a, a + n, c + 12, 3, 4); d.insert(d.end(), c + 12, c + 24); break;
   case 16: { int *e = ttl::search(a, a + n, b, b + 2); d.push_back((int)(e - a)); d.push_back((int)(ttl::search_n(b, b + n, 2, b[3]) - b)); break; }
   case 17: case 18: // pairs and arrays
   {
      typedef ttl::pair<int,int> P;
      P p(a[0], b[3]), q(ttl::make_pair(a[1], b[4])), r;
      ttl::array<P,3> x, y;
      for (int i = 0; i < 3; ++i) { x[i] = P(a[i], b[i]); y[i] = ttl::make_pair(a[i + 3], b[i + 3]); }
      for (int i = 0; i <= (int)(o.a % 7); ++i)
      {
         p.swap(q); ttl::swap(p, x[i % 3]); r = p; ttl::swap(r, q); x.swap(y);
         d.push_back((p == q) + 2 * (p != r) + 4 * (x == y) + 8 * (x != y));
         ttl::iter_swap(&x[0], &y[2]); x[1].swap(y[1]); if (i == 3) y.fill(p);
      }
      const ttl::pair<long,long> w(p); d.push_back((int)w.second);
      d.push_back(p.first); d.push_back(q.second); d.push_back(r.first);
      for (int i = 0; i < 3; ++i) { d.push_back(num(x[i])); d.push_back(num(y[i])); }
      break;
   }
   case 19: // function objects and iterators
   {
      const ttl::pair<int,int> p(a[0], b[3]);
      d.push_back(ttl::less<int>()(a[0], a[1])); d.push_back(ttl::equal_to<int>()(a[0], a[2])); d.push_back(ttl::select_same<int>()(a[3])); d.push_back(ttl::select_first<ttl::pair<int,int> >()(p));
      int *i = a; ttl::advance(i, (int)(o.a % 9)); d.push_back(*i); d.push_back((int)ttl::distance(i, a + n)); d.push_back((int)ttl_countof(a));
      d.push_back((int)(ttl::find(a, a + n, a[7]) - a)); d.push_back((int)(ttl::find_if_not(a, a + n, is) - a)); d.push_back((int)(ttl::mismatch(a, a + n, b).first - a)); d.push_back(ttl::equal(a, a + n, b)); d.push_back(num(ttl::minmax(a[0], a[1])));
      break;
   }
   case 20: // nodes of an own tree, directly
   {
      typedef ttl::rbtree<int, int, ttl::select_same<int>, ttl::less<int> > Tree;
      Tree t; for (int i = 0; i < n; ++i) { if (o.a & 1) t.insert_unique(a[i]); else t.insert_equal(a[i]); }
      for (unsigned i = 0; i < o.kind % 4; ++i) { const ttl::rbnode *p = t.find(a[i]); if (p != t.end()) delete t.remove(a[i]); }
      for (const ttl::rbnode *p = Tree::min_node(t.get_root()); p && p != t.end(); p = Tree::next_node(p)) d.push_back(static_cast<const Tree::node *>(p)->data);
      break;
   }
   default: ttl::iota(a, a + n, o.v); ttl::swap(a[0], b[0]); ttl::iter_swap(a + 1, b + 1); break;
   }
   d.insert(d.end(), a, a + n); d.insert(d.end(), b, b + 12);
}
template<class A> static bool equals(std::true_type, const typename A::type &a, const typename A::type &b) { return a == b && !(a != b); }
template<class A> static bool equals(std::false_type, const typename A::type &, const typename A::type &) { return false; }
template<class A> static void assign(std::true_type, typename A::type &a, const typename A::type &b) { a = b; }
template<class A> static void assign(std::false_type, typename A::type &, const typename A::type &) {}
template<class A> static void exchange(std::true_type, typename A::type &a, typename A::type &b, bool member) { if (member) a.swap(b); else ttl::swap(a, b); }
template<class A> static void exchange(std::false_type, typename A::type &, typename A::type &, bool) {}
template<class A> using EqOf = std::integral_constant<bool, A::EQ>;
template<class A> using AssignOf = std::integral_constant<bool, A::ASSIGN>;
template<class A> using SwapOf = std::integral_constant<bool, A::SWAP>;

// one container takes elements of another
template<class C> static auto splice(C &a, C &b, int) -> decltype((void)a.splice(a.cbegin(), b)) { TR("b takes all of a\n"); a.splice(a.cbegin(), b); }
template<class C> static auto splice(C &a, C &b, int) -> decltype((void)a.splice_after(a.cbefore_begin(), b)) { TR("b takes all of a\n"); a.splice_after(a.cbefore_begin(), b); }
template<class C> static void splice(C &, C &, long) {}

// the elements which can be written to
template<class T> static auto write(T &x, int v, int) -> decltype((void)(x.second = typename std::decay<decltype(x.second)>::type(v))) { x.second = typename std::decay<decltype(x.second)>::type(v); }
template<class T> static void write(T &x, int v, long) { x = T(v); }
template<class T> static int read(const T &x) { return num(x); }

template<class A> struct Case
{
   typedef typename A::type C; typedef typename A::elem T;
   Src &s;
   unsigned threads, reads, changes;
   C *shared[2]; Script script[MAX_THREADS];
   Case(Src &src): s(src), reads(0), changes(0) {}

   void history(C &c, const char *name)
   {
      size_t steps = s.below(4) ? s.below(14) : 20 + s.below(40);
      while (steps--)
      {
         const Op o = draw_op(s, A::KINDS, 24, false);
         TR("%s.", name);
         A::apply(c, o, false, true);
         TR("\n");
      }
   }
   static void all(C &c, Ints &d) { const Ints x = observe<A>(c); d.insert(d.end(), x.begin(), x.end()); }
   // one thread's script; nothing of the harness is shared with the others
   void run(const Script &q, Ints &d) const
   {
      C *own[2] = { new C(), new C() };
      A::build(*own[0], Ints()); A::build(*own[1], Ints());
      for (size_t i = 0; i < q.size(); ++i)
      {
         const Act &a = q[i];
         C &c = *own[a.op.i & 1]; C &sh = *shared[a.x & 1];
         d.push_back(-9000 - (int)i);
         switch (a.kind)
         {
         case 0: all(sh, d); break;
         case 1: A::contents(sh, d); members(sh, T(a.op.v), d); members((const C &)sh, T(a.op.v), d); break;
         case 2: { C *n = new C((const C &)sh); delete own[a.op.i & 1]; own[a.op.i & 1] = n; all(*n, d); break; }
         case 3: d.push_back(equals<A>(EqOf<A>(), *shared[0], *shared[1])); d.push_back(equals<A>(EqOf<A>(), c, sh)); break;
         case 4: assign<A>(AssignOf<A>(), c, sh); A::contents(c, d); break;
         case 5: if (A::RANGE) { C *n = A::range(sh); if (n) { delete own[a.op.i & 1]; own[a.op.i & 1] = n; } } A::contents(*own[a.op.i & 1], d); break;
         case 6: read_range(*shared[0], *shared[1], a.op.v, d, 0); break;
         case 7: own_range(a.op, d); break;
         case 8: exchange<A>(SwapOf<A>(), *own[0], *own[1], a.x & 1); A::contents(*own[0], d); A::contents(*own[1], d); break;
         case 9: delete own[a.op.i & 1]; own[a.op.i & 1] = new C(); A::build(*own[a.op.i & 1], Ints()); break;
         default: d.push_back(A::apply(c, a.op, false, false)); A::contents(c, d); break;
         }
      }
      delete own[0]; delete own[1];
   }
   void together(Ints *d)
   {
      std::atomic<unsigned> at(0);
      std::thread t[MAX_THREADS];
      for (unsigned i = 0; i < threads; ++i)
         t[i] = std::thread([&, i]
         {
            at.fetch_add(1, std::memory_order_relaxed);
            for (int spin = 0; spin < 20000 && at.load(std::memory_order_relaxed) < threads; ++spin) ;
            run(script[i], d[i]);
         });
      for (unsigned i = 0; i < threads; ++i) t[i].join();
   }
   void readers()
   {
      { InArea a; shared[0] = new C(); shared[1] = new C(); A::build(*shared[0], Ints()); A::build(*shared[1], Ints()); }
      {
         // their pasts may be intertwined
         { InArea a; history(*shared[0], "a"); }
         if (s.coin()) { InArea a; TR("b = copy of a\n"); shared[1] = new C(*shared[0]); }
         { InArea a; history(*shared[1], "b"); }
         if (s.below(4) == 0) { InArea a; splice(*shared[1], *shared[0], 0); history(*shared[0], "a"); }
         if (A::SWAP && s.below(3) == 0) { InArea a; TR("swap(a, b)\n"); exchange<A>(SwapOf<A>(), *shared[0], *shared[1], s.coin()); }
      }
      threads = 2 + s.below(MAX_THREADS - 1);
      static const char *const what[] = { "reads all of", "reads", "copies", "compares", "assigns from", "builds from the range of", "runs algorithms over", "runs algorithms over its own elements,", "swaps its own containers,", "makes a new container,", "changes its own container," };
      for (unsigned i = 0; i < threads; ++i)
         while (s.more(8))
         {
            Act a;
            a.kind = s.below(16); a.x = s.coin();
            a.op = draw_op(s, A::KINDS, 24, false);
            a.op.i = s.coin();
            TR("thread %u %s %c\n", i, what[a.kind < 10 ? a.kind : 10], 'a' + a.x);
            script[i].push_back(a);
            STEP();
            if (a.kind < 7) ++reads; else if (a.kind != 7) ++changes;
         }
      Ints alone[MAX_THREADS], par[MAX_THREADS];
      const Ints before = observe<A>(*shared[0]), second = observe<A>(*shared[1]);
      protect(true);
      for (unsigned i = 0; i < threads; ++i) run(script[i], alone[i]);
      protect(false);
      together(par);
      for (unsigned i = 0; i < threads; ++i)
         CHECK(alone[i] == par[i], "%s: thread %u, which reads shared containers and changes its own, gets %s, alone it gets %s", A::name(), i, show(diff(par[i], alone[i])).c_str(), show(diff(alone[i], par[i])).c_str());
      CHECK(observe<A>(*shared[0]) == before && observe<A>(*shared[1]) == second, "%s: a container reads otherwise after threads read it", A::name());
      unsigned busy = 0;
      for (unsigned i = 0; i < threads; ++i) busy += script[i].size() > 1;
      if (busy > 1 && reads > 1 && contents_part(before).size() > 1) s.nontrivial();
      CNT("threads which read together");
      CNT_IF(changes, "threads which change containers of their own");
   }
   static Ints diff(const Ints &a, const Ints &b)
   {
      size_t i = 0;
      while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
      return Ints(a.begin() + i, a.begin() + std::min(a.size(), i + 12));
   }
   // every thread writes to elements of its own in one container
   void writers()
   {
      C &c = *(shared[0] = new C());
      A::build(c, Ints());
      history(c, "a");
      const size_t n = length(c);
      threads = 2 + s.below(MAX_THREADS - 1);
      std::vector<std::pair<size_t,int> > todo[MAX_THREADS];
      Ints want;
      for (typename C::iterator i = c.begin(); i != c.end(); ++i) want.push_back(read(*i));
      std::vector<int> key(n);
      for (unsigned t = 0; t < threads; ++t)
         while (s.more(6))
         {
            size_t i = n / threads ? s.below((uint32_t)(n / threads)) * threads + t : n;
            int v = (int)s.below(24);
            if (i >= n) continue;
            todo[t].push_back(std::make_pair(i, v));
            TR("thread %u writes %d to element %zu of a\n", t, v, i);
            STEP();
         }
      Ints got[MAX_THREADS];
      std::atomic<unsigned> at(0);
      std::thread th[MAX_THREADS];
      for (unsigned t = 0; t < threads; ++t)
         th[t] = std::thread([&, t]
         {
            at.fetch_add(1, std::memory_order_relaxed);
            for (int spin = 0; spin < 20000 && at.load(std::memory_order_relaxed) < threads; ++spin) ;
            for (size_t k = 0; k < todo[t].size(); ++k)
            {
               typename C::iterator i = advanced(c.begin(), todo[t][k].first);
               got[t].push_back(read(*i));
               write(*i, todo[t][k].second, 0);
               got[t].push_back(read(*i));
               got[t].push_back(c.empty());
               got[t].push_back(i != c.end());
            }
         });
      for (unsigned t = 0; t < threads; ++t) th[t].join();
      // the same one after the other
      C &e = *(new C(c));
      {
         // the contents before, element by element
         size_t k = 0;
         for (typename C::iterator i = e.begin(); i != e.end(); ++i, ++k) (void)0;
         CHECK(k == n, "%s: the number of elements changed while they were written to", A::name());
      }
      unsigned busy = 0;
      for (unsigned t = 0; t < threads; ++t)
      {
         busy += !todo[t].empty();
         std::vector<int> now(n); std::vector<char> known(n);
         for (size_t k = 0; k < todo[t].size(); ++k)
         {
            const size_t i = todo[t][k].first;
            const int was = got[t][4 * k], is = got[t][4 * k + 1];
            CHECK(was == (known[i] ? now[i] : want[i]), "%s: thread %u reads %d from element %zu, which is its own, instead of %d", A::name(), t, was, i, known[i] ? now[i] : want[i]);
            CHECK(!got[t][4 * k + 2] && got[t][4 * k + 3], "%s: the container is empty while its elements are written to", A::name());
            now[i] = is; known[i] = 1;
         }
         for (size_t i = 0; i < n; ++i)
            if (known[i])
            {
               const int fin = read(*advanced(c.begin(), i));
               CHECK(fin == now[i], "%s: element %zu is %d after thread %u had made it %d", A::name(), i, fin, t, now[i]);
            }
      }
      delete &e; delete &c;
      if (busy > 1) s.nontrivial();
      CNT("threads which write to elements of one container");
   }
   void go(std::true_type) { TR("%s<%s>\n", A::name(), Name<T>::s()); if (s.below(4) == 0) writers(); else readers(); }
   void go(std::false_type) { TR("%s<%s>\n", A::name(), Name<T>::s()); readers(); }
   void run() { go(std::integral_constant<bool, true>()); }
   void run_only_readers() { go(std::integral_constant<bool, false>()); }
};
const char *const pbt_name = "C35";
const char *const pbt_rule =
   "two containers of one kind (any) made by random histories are shared by two or three threads, each with a random script of reads of them (all accessors, searches, copies, comparisons, algorithms) and of "
   "changes of containers and arrays of its own; first the scripts run one after the other with the memory of the shared ones read-only, then together under ThreadSanitizer, with the same results; or the "
   "threads write to different elements of one container. Non-trivial: at least two threads with more than one action each and more than one read of a container with elements, or two which write";
const unsigned pbt_quick_cases = 60000, pbt_thorough_cases = 3000000;
void pbt_reset()
{
   if (!area)
   {
      area = (char *)mmap(0, AREA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (area == MAP_FAILED) { perror("mmap"); _exit(3); }
      struct sigaction sa;
      memset(&sa, 0, sizeof sa);
      sa.sa_sigaction = on_fault; sa.sa_flags = SA_SIGINFO;
      sigaction(SIGSEGV, &sa, 0);
   }
   area_used = 0; in_area = false;
}
void pbt_property(Src &s)
{
   switch (s.below(20))
   {
   case 0: Case<VectorAd<int> >(s).run(); break;
   case 1: Case<VectorAd<Val> >(s).run(); break;
   case 2: Case<FvAd<Val>::of<5> >(s).run(); break;
   case 3: Case<FvAd<Big>::of<9> >(s).run(); break;
   case 4: case 5: case 6: Case<ListAd<Val> >(s).run(); break;
   case 7: case 8: Case<ForwardAd<Val> >(s).run(); break;
   case 9: case 10: Case<BackwardAd<Big> >(s).run(); break;
   case 11: case 12: Case<LazyAd<Val> >(s).run(); break;
   case 13: case 14: case 15: Case<TtlMapAd<Big> >(s).run(); break;
   case 16: Case<TtlSetAd<Val> >(s).run_only_readers(); break;
   case 17: Case<SvMapAd<Val> >(s).run(); break;
   case 18: Case<VMapAd<Val> >(s).run(); break;
   default: if (s.coin()) Case<ArrAd<Big,5> >(s).run(); else Case<BitsAd<70> >(s).run_only_readers(); break;
   }
}
#include "pbt_main.hpp"
