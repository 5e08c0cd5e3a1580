// The driver part of the engine: included once, at the end of every harness.
#ifndef PBT_MAIN_HPP
#define PBT_MAIN_HPP
#include "pbt.hpp"

#ifndef PBT_THREADS
void *operator new(size_t n) { return pbt::mem_new(n, false); }
void *operator new[](size_t n) { return pbt::mem_new(n, true); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return pbt::mem_new(n, false); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return pbt::mem_new(n, true); }
void operator delete(void *p, const std::nothrow_t &) noexcept { pbt::mem_delete(p, false); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { pbt::mem_delete(p, true); }
void operator delete(void *p) noexcept { pbt::mem_delete(p, false); }
void operator delete[](void *p) noexcept { pbt::mem_delete(p, true); }
void operator delete(void *p, size_t) noexcept { pbt::mem_delete(p, false); }
void operator delete[](void *p, size_t) noexcept { pbt::mem_delete(p, true); }
#endif

#if defined(__SANITIZE_ADDRESS__) || defined(PBT_LIBFUZZER)
extern "C" const char *__asan_default_options()
{
   return "detect_leaks=0:exitcode=99:quarantine_size_mb=8:malloc_context_size=2:"
          "detect_stack_use_after_return=0:symbolize=0:allocator_may_return_null=0";
}
#endif

namespace pbt
{
   inline void run_case(Src &src)
   {
      mem_case_reset();
      pbt_reset();
      if (!setjmp(out_of_case()))
         pbt_property(src);
      src.end_span();
   }
}

#ifdef PBT_LIBFUZZER
static void pbt_fuzz_stats()
{
   fprintf(stderr, "PBT-FUZZ cases=%llu nontrivial=%llu steps=%llu\n",
           (unsigned long long)pbt::G().shm->cases_done,
           (unsigned long long)pbt::G().shm->nontrivial,
           (unsigned long long)pbt::G().shm->steps);
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
   using namespace pbt;
   if (!G().shm)
   {
      G().shm = (Shm *)calloc(1, sizeof(Shm));
      G().fuzzing = true;
      G().thorough = true;
      atexit(pbt_fuzz_stats);
   }
   Src src = Src::bytes(data, size);
   run_case(src);
   ++G().shm->cases_done;
   if (src.is_nontrivial()) ++G().shm->nontrivial;
   return 0;
}
#else

namespace pbt
{
   typedef std::vector<uint32_t> Choices;

   static uint64_t hash_choices(const uint32_t *c, size_t n)
   {
      uint64_t h = 0x1234567 + n;
      for (size_t i = 0; i < n; ++i) h = mix(h ^ c[i]);
      return h ? h : 1;
   }

   static Shm *new_shm(uint64_t maxhash)
   {
      size_t n = sizeof(Shm) + maxhash * sizeof(uint64_t);
      void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      if (p == MAP_FAILED) { perror("mmap"); exit(3); }
      Shm *s = (Shm *)p;
      s->maxhash = maxhash;
      return s;
   }

#ifndef PBT_CPU_LIMIT
#define PBT_CPU_LIMIT 40
#endif
   static unsigned case_cpu_limit = PBT_CPU_LIMIT; // seconds of CPU time for one case

   static void on_hang(int)
   {
      Shm *s = G().shm;
      s->outcome = RUN_HANG;
      strcpy(s->msg, "no end: one case used up its CPU time limit");
      _exit(78);
   }
   static void arm()
   {
      struct itimerval it;
      memset(&it, 0, sizeof it);
      it.it_value.tv_sec = case_cpu_limit;
      setitimer(ITIMER_VIRTUAL, &it, 0);
   }
   static void child_setup(const char *log)
   {
      signal(SIGVTALRM, on_hang);
      int fd = open(log, O_CREAT | O_TRUNC | O_WRONLY, 0644);
      if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
   }
   // the sanitizer's summary of a crashed child
   static void crash_message(Shm *s, int status, const char *log)
   {
      char head[256] = "", where[1024] = "";
      FILE *f = fopen(log, "r");
      if (f)
      {
         char line[2048];
         while (fgets(line, sizeof line, f))
            if (strstr(line, "ERROR: AddressSanitizer") || strstr(line, "runtime error:") || strstr(line, "ThreadSanitizer"))
            {
               char *e = strstr(line, "AddressSanitizer");
               if (!e) e = strstr(line, "ThreadSanitizer");
               snprintf(where, sizeof where, "%.1000s", e ? e : line);
               // addresses differ from run to run
               char *on = strstr(where, " on ");
               if (on) *on = 0;
               where[strcspn(where, "\n")] = 0;
               break;
            }
         fclose(f);
      }
      if (WIFSIGNALED(status)) snprintf(head, sizeof head, "crash: signal %d", WTERMSIG(status));
      else snprintf(head, sizeof head, "crash: exit status %d", WEXITSTATUS(status));
      snprintf(s->msg, MAX_MSG, "%s%s%s", head, where[0] ? ", " : "", where);
      s->outcome = RUN_CRASH;
   }

   // run one choice sequence in a child; its recorded choices, spans, message
   // and trace are left in sh
   static int run_one(Shm *sh, const uint32_t *c, size_t n, bool tracing, const char *log)
   {
      sh->outcome = RUN_OK;
      sh->msg[0] = 0;
      pid_t pid = fork();
      if (pid < 0) { perror("fork"); exit(3); }
      if (pid == 0)
      {
         G().shm = sh;
         G().tracing = tracing;
         child_setup(log);
         arm();
         std::vector<uint32_t> copy(c, c + n);
         Src src = Src::replay(copy.data(), copy.size());
         run_case(src);
         _exit(0);
      }
      int st = 0;
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return sh->outcome = RUN_OK;
      if (sh->outcome == RUN_OK) crash_message(sh, st, log);
      return sh->outcome;
   }

   struct Failure
   {
      uint64_t index;
      uint64_t first;          // first case of the child process that failed
      int outcome;
      std::string msg;
      Choices choices;
   };

   static double now()
   {
      struct timespec t;
      clock_gettime(CLOCK_MONOTONIC, &t);
      return t.tv_sec + t.tv_nsec * 1e-9;
   }

   static Choices shrink(Shm *sh, Choices best, const char *log, unsigned budget)
   {
      const double deadline = now() + 60; // only how small the replay gets
      unsigned tries = 0;
      std::vector<std::pair<uint32_t,uint32_t> > spans;
      auto attempt = [&](const Choices &c) -> bool {
         if (tries >= budget || now() > deadline) return false;
         ++tries;
         if (run_one(sh, c.data(), c.size(), false, log) == RUN_OK) return false;
         Choices got(sh->choices, sh->choices + sh->nchoices);
         // a crash in the child may have come before all of c was used
         if (got.size() > c.size()) got = c;
         if (got.size() > best.size()) return false;
         if (got.size() == best.size() && !std::lexicographical_compare(got.begin(), got.end(), best.begin(), best.end()))
            return false;
         best = got;
         spans.clear();
         for (uint32_t i = 0; i < sh->nspans; ++i)
            spans.push_back(std::make_pair(sh->span_b[i], sh->span_e[i]));
         return true;
      };
      // get the spans of the initial sequence
      if (run_one(sh, best.data(), best.size(), false, log) != RUN_OK)
      {
         Choices got(sh->choices, sh->choices + sh->nchoices);
         if (got.size() <= best.size()) best = got;
         for (uint32_t i = 0; i < sh->nspans; ++i)
            spans.push_back(std::make_pair(sh->span_b[i], sh->span_e[i]));
      }
      const unsigned full_limit = case_cpu_limit;
      case_cpu_limit = 2;
      bool progress = true;
      while (progress && tries < budget && now() < deadline)
      {
         progress = false;
         // whole operations, in chunks
         for (size_t chunk = std::max<size_t>(1, spans.size() / 2); chunk; chunk /= 2)
         {
            for (size_t e = spans.size(); e > 0;)
            {
               if (e > spans.size()) { e = spans.size(); if (!e) break; }
               size_t b = e > chunk ? e - chunk : 0;
               Choices c(best.begin(), best.begin() + std::min<size_t>(spans[b].first, best.size()));
               if (spans[e - 1].second <= best.size())
                  c.insert(c.end(), best.begin() + spans[e - 1].second, best.end());
               if (c.size() < best.size() && attempt(c)) progress = true;
               e = b;
               if (tries >= budget) break;
            }
            if (tries >= budget) break;
         }
         // runs of raw choices
         for (size_t len = 8; len; len /= 2)
            for (size_t i = best.size(); i-- > 0;)
            {
               if (i + len > best.size()) continue;
               Choices c(best);
               c.erase(c.begin() + i, c.begin() + i + len);
               if (attempt(c)) { progress = true; if (i > best.size()) i = best.size(); }
               if (tries >= budget) break;
            }
         // smaller values
         for (size_t i = 0; i < best.size() && tries < budget; ++i)
         {
            if (!best[i]) continue;
            Choices c(best);
            c[i] = 0;
            if (attempt(c)) { progress = true; continue; }
            uint32_t lo = 0, hi = best[i];
            while (i < best.size() && hi - lo > 1 && tries < budget)
            {
               uint32_t mid = lo + (hi - lo) / 2;
               c = best; c[i] = mid;
               if (attempt(c)) { progress = true; if (i >= best.size()) break; hi = best[i]; }
               else lo = mid;
            }
         }
      }
      case_cpu_limit = full_limit;
      return best;
   }

   static void json_str(FILE *f, const char *s, size_t n)
   {
      fputc('"', f);
      for (size_t i = 0; i < n && s[i]; ++i)
      {
         unsigned char c = s[i];
         if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
         else if (c == '\n') fputs("\\n", f);
         else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
         else fputc(c, f);
      }
      fputc('"', f);
   }

   static bool read_replay(const char *path, Choices &c, uint64_t &seed, uint64_t &first, uint64_t &last, uint64_t &stride, bool &range)
   {
      FILE *f = fopen(path, "r");
      if (!f) return false;
      char word[64];
      bool have = false;
      range = false;
      while (fscanf(f, "%63s", word) == 1)
      {
         if (!strcmp(word, "choices:"))
         {
            unsigned long n;
            if (fscanf(f, "%lu", &n) != 1) break;
            unsigned v;
            while (n-- && fscanf(f, "%u", &v) == 1) c.push_back(v);
            have = true;
            break;
         }
         if (!strcmp(word, "range:"))
         {
            unsigned long long a, b, d, e;
            if (fscanf(f, "%llu %llu %llu %llu", &a, &b, &d, &e) == 4)
               seed = a, first = b, last = d, stride = e, range = have = true;
            break;
         }
         int ch;
         while ((ch = fgetc(f)) != EOF && ch != '\n') ;
      }
      fclose(f);
      return have;
   }

   static double cpu_now()
   {
      struct timespec t;
      clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
      return t.tv_sec + t.tv_nsec * 1e-9;
   }
   static int run_range(Shm *sh, uint64_t seed, uint64_t first, uint64_t last, uint64_t stride, bool record, const char *log)
   {
      sh->outcome = RUN_OK;
      pid_t pid = fork();
      if (pid < 0) { perror("fork"); exit(3); }
      if (pid == 0)
      {
         G().shm = sh;
         G().tracing = false;
         child_setup(log);
         double cpu = cpu_now();
         for (uint64_t i = first; i <= last; i += stride)
         {
            sh->case_index = i;
            arm();
            Src src = Src::random(mix(seed * 0x10001 + 77) ^ mix(i));
            src.ordinal = i;
            run_case(src);
            if (record)
            {
               const double t = cpu_now();
               sh->slowest = std::max(sh->slowest, t - cpu);
               cpu = t;
               ++sh->cases_done;
               if (src.is_nontrivial())
               {
                  ++sh->nontrivial;
                  if (sh->nhash < sh->maxhash)
                     sh->hashes()[sh->nhash++] = hash_choices(sh->choices, sh->nchoices);
               }
            }
         }
         _exit(0);
      }
      int st = 0;
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return RUN_OK;
      if (sh->outcome == RUN_OK) crash_message(sh, st, log);
      return sh->outcome;
   }

   static void usage()
   {
      fprintf(stderr, "usage: harness --out STATS.json --replay-out FILE --tmp DIR [--seed N] [--cases N] [--jobs N] [--thorough]\n"
              "       harness --replay FILE | --bytes FILE\n");
      exit(3);
   }
}

int main(int argc, char **argv)
{
   using namespace pbt;
   uint64_t seed = 1, cases = 0;
   unsigned jobs = 8;
   const char *out = 0, *replay_out = 0, *replay_in = 0, *tmp = "/tmp", *bytes_in = 0;
   for (int i = 1; i < argc; ++i)
   {
      std::string a = argv[i];
      if (a == "--seed" && i + 1 < argc) seed = strtoull(argv[++i], 0, 10);
      else if (a == "--cases" && i + 1 < argc) cases = strtoull(argv[++i], 0, 10);
      else if (a == "--jobs" && i + 1 < argc) jobs = atoi(argv[++i]);
      else if (a == "--out" && i + 1 < argc) out = argv[++i];
      else if (a == "--replay-out" && i + 1 < argc) replay_out = argv[++i];
      else if (a == "--replay" && i + 1 < argc) replay_in = argv[++i];
      else if (a == "--bytes" && i + 1 < argc) bytes_in = argv[++i];
      else if (a == "--tmp" && i + 1 < argc) tmp = argv[++i];
      else if (a == "--thorough") G().thorough = true;
      else if (a == "--probe")
      {
         G().shm = new_shm(0);
         if (pbt_probe) pbt_probe();
         return 0;
      }
      else usage();
   }
   G().prop = pbt_name;
   setvbuf(stdout, 0, _IOLBF, 0);
   std::string log0 = std::string(tmp) + "/" + pbt_name + ".log";

   if (replay_in)
   {
      Choices c; uint64_t s = 0, first = 0, last = 0, stride = 1; bool range = false;
      if (!read_replay(replay_in, c, s, first, last, stride, range)) { fprintf(stderr, "cannot read %s\n", replay_in); return 3; }
      Shm *sh = new_shm(0);
      int r = range ? run_range(sh, s, first, last, stride, false, log0.c_str())
                    : run_one(sh, c.data(), c.size(), true, log0.c_str());
      printf("%s", sh->trace);
      if (r != RUN_OK) { printf("FAILS: %s\n", sh->msg); return 1; }
      printf("passes\n");
      return 0;
   }

   Failure f;
   bool failed = false;
   std::vector<Shm *> sh;
   uint64_t done = 0, nontrivial = 0, steps = 0, discarded = 0, distinct = 0;
   double t0 = now();

   if (!cases) cases = G().thorough ? pbt_thorough_cases : pbt_quick_cases;
   const uint64_t batch = 4000;

   if (bytes_in)
   {
      FILE *bf = fopen(bytes_in, "rb");
      if (!bf) { perror(bytes_in); return 3; }
      std::vector<uint8_t> b;
      int ch;
      while ((ch = fgetc(bf)) != EOF) b.push_back((uint8_t)ch);
      fclose(bf);
      G().thorough = true;
      Shm *s = new_shm(0);
      s->outcome = RUN_OK;
      pid_t pid = fork();
      if (!pid)
      {
         G().shm = s;
         child_setup(log0.c_str());
         arm();
         Src src = Src::bytes(b.data(), b.size());
         run_case(src);
         _exit(0);
      }
      int st;
      waitpid(pid, &st, 0);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { printf("passes\n"); return 0; }
      if (s->outcome == RUN_OK) crash_message(s, st, log0.c_str());
      failed = true;
      f.index = f.first = 0; f.outcome = s->outcome; f.msg = s->msg;
      f.choices.assign(s->choices, s->choices + s->nchoices);
      sh.push_back(s);
      cases = 0;
   }
   else
   {
      std::vector<pid_t> pids;
      for (unsigned w = 0; w < jobs; ++w) sh.push_back(new_shm(cases / jobs + 2));
      for (unsigned w = 0; w < jobs; ++w)
      {
         pid_t pid = fork();
         if (pid < 0) { perror("fork"); return 3; }
         if (pid == 0)
         {
            char log[512];
            snprintf(log, sizeof log, "%s/%s.%u.log", tmp, pbt_name, w);
            // worker: runs its share in child processes, one batch each
            for (uint64_t first = w; first < cases; first += batch * jobs)
            {
               uint64_t last = std::min<uint64_t>(first + (batch - 1) * jobs, cases - 1);
               last = first + (last - first) / jobs * jobs;
               if (run_range(sh[w], seed, first, last, jobs, true, log) != RUN_OK)
               {
                  sh[w]->discarded |= 1ull << 63; // flag: failed
                  // remember where the process began, in the hash area's spare word
                  sh[w]->maxhash = first;
                  _exit(1);
               }
            }
            _exit(0);
         }
         pids.push_back(pid);
      }
      for (unsigned w = 0; w < jobs; ++w)
      {
         int st;
         while (waitpid(pids[w], &st, 0) < 0 && errno == EINTR) ;
         if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
         if (!(WIFEXITED(st) && WEXITSTATUS(st) == 1 && (sh[w]->discarded >> 63)))
         {
            fprintf(stderr, "worker %u ended abnormally (status %x)\n", w, st);
            return 3;
         }
         sh[w]->discarded &= ~(1ull << 63);
         if (!failed || sh[w]->case_index < f.index)
         {
            failed = true;
            f.index = sh[w]->case_index; f.first = sh[w]->maxhash;
            f.outcome = sh[w]->outcome; f.msg = sh[w]->msg;
            f.choices.assign(sh[w]->choices, sh[w]->choices + sh[w]->nchoices);
         }
      }
      std::vector<uint64_t> hs;
      for (unsigned w = 0; w < jobs; ++w)
      {
         done += sh[w]->cases_done; nontrivial += sh[w]->nontrivial;
         steps += sh[w]->steps; discarded += sh[w]->discarded;
         hs.insert(hs.end(), sh[w]->hashes(), sh[w]->hashes() + sh[w]->nhash);
      }
      std::sort(hs.begin(), hs.end());
      distinct = std::unique(hs.begin(), hs.end()) - hs.begin();
   }
   double t1 = now();

   int rc = 0;
   Shm *one = new_shm(0);
   std::string verdict = "ok";
   if (failed)
   {
      rc = 1;
      case_cpu_limit = PBT_CPU_LIMIT / 5;
      printf("case %llu failed: %s\n", (unsigned long long)f.index, f.msg.c_str());
      bool single = true;
      for (int i = 0; i < 3 && single; ++i)
         single = run_one(one, f.choices.data(), f.choices.size(), false, log0.c_str()) != RUN_OK;
      FILE *rf = replay_out ? fopen(replay_out, "w") : 0;
      if (single)
      {
         if (f.outcome == RUN_HANG) case_cpu_limit = 2;
         Choices small = shrink(one, f.choices, log0.c_str(), f.outcome == RUN_HANG ? 40 : 3000);
         if (f.outcome == RUN_HANG) case_cpu_limit = PBT_CPU_LIMIT / 5;
         int again = 0;
         for (int i = 0; i < 3; ++i)
            again += run_one(one, small.data(), small.size(), true, log0.c_str()) != RUN_OK;
         if (again != 3)
         {
            small = f.choices;
            run_one(one, small.data(), small.size(), true, log0.c_str());
         }
         printf("minimal case:\n%s=> %s\n", one->trace, one->msg);
         if (rf)
         {
            fprintf(rf, "property: %s\nseed: %llu case: %llu\nmessage: %s\n", pbt_name, (unsigned long long)seed,
                    (unsigned long long)f.index, one->msg);
            for (char *p = strtok(one->trace, "\n"); p; p = strtok(0, "\n")) fprintf(rf, "trace: %s\n", p);
            fprintf(rf, "choices: %zu\n", small.size());
            for (size_t i = 0; i < small.size(); ++i) fprintf(rf, "%u%c", small[i], i % 20 == 19 ? '\n' : ' ');
            fprintf(rf, "\n");
         }
         f.msg = one->msg;
      }
      else
      {
         int again = 0;
         for (int i = 0; i < 3; ++i)
            again += run_range(one, seed, f.first, f.index, jobs, false, log0.c_str()) != RUN_OK;
         if (again == 3 && rf)
            fprintf(rf, "property: %s\nmessage: %s\nrange: %llu %llu %llu %llu\n", pbt_name, f.msg.c_str(),
                    (unsigned long long)seed, (unsigned long long)f.first, (unsigned long long)f.index, (unsigned long long)jobs);
         if (again != 3)
         {
            printf("not reproducible: %d of 3 replays failed\n", again);
            rc = 4; // an error of the check
         }
      }
      if (rf) fclose(rf);
      verdict = f.msg;
   }

   if (out)
   {
      FILE *o = fopen(out, "w");
      if (!o) { perror(out); return 3; }
      fprintf(o, "{\"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"operations\": %llu, \"discarded\": %llu,\n",
              (unsigned long long)done, (unsigned long long)nontrivial, (unsigned long long)distinct,
              (unsigned long long)steps, (unsigned long long)discarded);
      fprintf(o, " \"seconds\": %.2f, \"rule\": ", t1 - t0);
      json_str(o, pbt_rule, strlen(pbt_rule));
      fprintf(o, ",\n \"verdict\": ");
      json_str(o, verdict.c_str(), verdict.size());
      // merged counters
      fprintf(o, ",\n \"classes\": {");
      std::vector<std::pair<std::string, uint64_t> > all;
      for (size_t w = 0; w < sh.size(); ++w)
         for (uint32_t i = 0; i < sh[w]->ncnt; ++i)
         {
            size_t k = 0;
            while (k < all.size() && all[k].first != sh[w]->cnt_name[i]) ++k;
            if (k == all.size()) all.push_back(std::make_pair(std::string(sh[w]->cnt_name[i]), (uint64_t)0));
            all[k].second += sh[w]->cnt[i];
         }
      std::sort(all.begin(), all.end());
      for (size_t i = 0; i < all.size(); ++i)
      {
         fprintf(o, "%s", i ? ", " : "");
         json_str(o, all[i].first.c_str(), all[i].first.size());
         fprintf(o, ": %llu", (unsigned long long)all[i].second);
      }
      fprintf(o, "},\n \"samples\": [");
      // a few cases of this run, written out (short ones, re-run with a trace)
      int printed = 0;
      if (!failed)
         for (uint64_t i = 0; i < cases && i < 400 && printed < 4; ++i)
         {
            one->outcome = RUN_OK;
            pid_t pid = fork();
            if (pid == 0)
            {
               G().shm = one; G().tracing = true;
               child_setup(log0.c_str());
               arm();
               Src src = Src::random(mix(seed * 0x10001 + 77) ^ mix(i));
               src.ordinal = i;
               run_case(src);
               _exit(src.is_nontrivial() ? 0 : 5);
            }
            int st;
            waitpid(pid, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && one->trace_len < 1500)
            {
               fprintf(o, "%s\n  ", printed++ ? "," : "");
               json_str(o, one->trace, one->trace_len);
            }
         }
      else
      {
         json_str(o, f.msg.c_str(), f.msg.size());
      }
      fprintf(o, "]}\n");
      fclose(o);
   }
   double slowest = 0;
   for (size_t w = 0; w < sh.size(); ++w) slowest = std::max(slowest, sh[w]->slowest);
   printf("slowest case: %.2f s\n", slowest);
   printf("%s: %llu cases, %llu distinct non-trivial, %llu operations, %.1f s: %s\n", pbt_name, (unsigned long long)done,
          (unsigned long long)distinct, (unsigned long long)steps, t1 - t0, rc ? "FAILED" : "held");
   return rc;
}
#endif // PBT_LIBFUZZER
#endif
