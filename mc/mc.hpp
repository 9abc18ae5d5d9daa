// Stateless explicit-choice model checker for sequential harnesses.
//
// A harness is a nondeterministic program `void program(mc::MC&)` that drives the real code under
// test and asks mc.choose(n) wherever the environment (operation, argument, configuration) is free.
// The engine executes the program once per complete choice sequence, in depth-first order, i.e. it
// enumerates the whole bounded space; nothing is sampled.  Work is split over forked workers by
// choice-sequence prefix; the parent merges the counts, confirms a violation by re-executing the
// recorded choice sequence alone, and writes the trace.
#pragma once
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Violation {
  std::string key, msg;
};
struct ProbeStop {};
struct Diverged {};   // a harness asked for a different number of alternatives on re-execution

inline std::string fmt(const char* f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

constexpr int kMaxChoices = 4000;
constexpr int kPool = 2048;
struct Pool {            // choice-sequence prefixes that busy workers hand to idle ones
  volatile int lock, next, idle, n, stop;
  volatile short len[kPool];
  volatile short c[kPool][kMaxChoices];
  void acquire() { while (__sync_lock_test_and_set(&lock, 1)) usleep(5); }
  void release() { __sync_lock_release(&lock); }
};
struct Shared {          // one per worker, visible to the parent even after a crash
  volatile int n;        // choices of the running execution
  volatile short c[kMaxChoices];
  volatile uint64_t execs, steps;
  volatile int hang;
  volatile int done;
};

class MC {
 public:
  bool verbose = false;                 // replaying: record the notes
  bool thorough = false;
  std::vector<std::string> notes;
  std::map<std::string, uint64_t> known_hits;
  std::set<std::string> known;
  std::map<std::string, uint64_t> counters;

  // --- choice points
  int choose(int n, const char* tag = "") {
    if (n <= 0) throw std::logic_error("choose(0)");
    int v = 0;
    if (pos_ < seq_.size()) {
      if (pos_ < width_.size() && width_[pos_] != n && width_[pos_] != 0) throw Diverged();
      v = seq_[pos_];
      if (v >= n) throw Diverged();
      if (pos_ < width_.size()) width_[pos_] = n;
      else width_.push_back(n);
    } else {
      if (probe_depth_ >= 0 && (int)pos_ >= probe_depth_) throw ProbeStop();
      seq_.push_back(0);
      width_.push_back(n);
    }
    pos_++;
    if (sh_ && pos_ <= kMaxChoices) {
      sh_->c[pos_ - 1] = (short)v;
      sh_->n = (int)pos_;
    }
    if (verbose && tag[0]) notes.push_back(fmt("choice %s = %d of %d", tag, v, n));
    return v;
  }
  bool flag(const char* tag = "") { return choose(2, tag) == 1; }

  // --- bookkeeping
  void step(uint64_t k = 1) {
    steps += k;
    if (sh_) sh_->steps = steps;
  }
  void state(uint64_t h) { states_.insert(h); }
  void count(const std::string& k, uint64_t n = 1) { counters[k] += n; }
  void validated() { traces++; }
  void note(const std::string& s) {
    if (verbose) notes.push_back(s);
  }
  // Report a broken property.  `key` names the specific failing situation (known findings match it).
  void fail(const std::string& key, const std::string& msg) {
    if (known.count(key)) {
      known_hits[key]++;
      return;
    }
    throw Violation{key, msg};
  }
  void check(bool ok, const std::string& key, const std::string& msg) {
    if (!ok) fail(key, msg);
  }

  uint64_t execs = 0, steps = 0, traces = 0;
  std::unordered_set<uint64_t> states_;
  std::vector<short> seq_;
  std::vector<int> width_;
  size_t pos_ = 0;
  int probe_depth_ = -1;
  Shared* sh_ = nullptr;

  void restart() { pos_ = 0; if (sh_) sh_->n = 0; }
  // advance to the next choice sequence below the first `floor` choices; false when exhausted
  bool next(size_t floor) {
    seq_.resize(std::min(seq_.size(), pos_));
    width_.resize(seq_.size());
    while (seq_.size() > floor) {
      if (seq_.back() + 1 < width_.back()) {
        seq_.back()++;
        return true;
      }
      seq_.pop_back();
      width_.pop_back();
    }
    return false;
  }
};

struct Options {
  std::function<void(MC&)> program;
  int split_depth = 2;        // prefix length used to distribute the work
  bool dynamic = false;       // busy workers hand parts of their subtree to idle ones
  double exec_cpu_limit = 40; // CPU seconds one execution may take before it counts as a hang
  std::string what;           // one line: what one execution is
  std::string bounds;         // the bounds of the exploration, for the evidence
};

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
inline uint64_t hash_mix(uint64_t h, uint64_t v) { return fnv(&v, sizeof v, h); }
inline uint64_t hash_d(uint64_t h, double d) {
  long long q = std::isfinite(d) ? (long long)llround(std::max(-4e9, std::min(4e9, d)) * 1e8) : 0x7fffLL;
  return hash_mix(h, (uint64_t)q);
}

inline std::string one_line(std::string s) { for (auto& c : s) if (c == 10) c = 32; return s; }
inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32) o += ' ';
    else o += c;
  }
  return o;
}

struct Runner {
  Options opt;
  std::string out_dir, replay_out;
  std::set<std::string> known;
  bool thorough = false;
  int workers = 8;

  static Shared*& cur() { static Shared* s = nullptr; return s; }
  static void on_prof(int) {
    if (cur()) cur()->hang = 1;
    _exit(77);
  }
  static void arm(double s) {
    itimerval tv{};
    tv.it_value.tv_sec = (long)s;
    tv.it_value.tv_usec = (long)((s - (long)s) * 1e6);
    setitimer(ITIMER_PROF, &tv, nullptr);
  }
  // one execution; returns true if ok, fills v otherwise
  bool run_one(MC& m, Violation& v) {
    m.restart();
    arm(opt.exec_cpu_limit);
    bool ok = true;
    try {
      opt.program(m);
    } catch (Violation& x) {
      v = x;
      ok = false;
    } catch (ProbeStop&) {
      throw;
    } catch (Diverged&) {
      throw;
    } catch (std::exception& e) {
      v = Violation{"exception", std::string("unexpected exception: ") + e.what()};
      ok = false;
    }
    arm(0);
    m.execs++;
    if (m.sh_) m.sh_->execs = m.execs;
    return ok;
  }

  static std::string seq_str(const std::vector<short>& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); i++) o += (i ? "," : "") + std::to_string(s[i]);
    return o;
  }
  static std::vector<short> parse_seq(const std::string& s) {
    std::vector<short> r;
    std::stringstream ss(s);
    std::string t;
    while (std::getline(ss, t, ',')) if (!t.empty()) r.push_back((short)atoi(t.c_str()));
    return r;
  }

  struct Child { pid_t pid; Shared* sh; uint64_t last = 0; double last_t = 0; };
  static double now() {
    timeval tv;
    gettimeofday(&tv, nullptr);
    return tv.tv_sec + tv.tv_usec * 1e-6;
  }
  static Shared* new_shared() {
    return (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }

  // Re-execute one choice sequence in a child; returns 0 ok, 1 violation; fills text with the trace
  int replay(const std::vector<short>& seq, std::string& key, std::string& msg, std::string& trace) {
    std::string f = out_dir + "/replay_result.txt";
    ::unlink(f.c_str());
    Shared* sh = new_shared();
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      signal(SIGPROF, on_prof);
      cur() = sh;
      MC m;
      m.sh_ = sh;
      m.verbose = true;
      m.thorough = thorough;
      m.known = known;
      m.seq_ = seq;
      FILE* tf = fopen((f + ".notes").c_str(), "w");
      Violation v;
      bool ok = true;
      try { ok = run_one(m, v); } catch (Diverged&) {
        v = Violation{"diverged", "replay diverged: the harness or the code under test is not deterministic"};
        ok = false;
      }
      for (auto& n : m.notes) fprintf(tf, "%s\n", n.c_str());
      fclose(tf);
      FILE* r = fopen(f.c_str(), "w");
      fprintf(r, "%d\n%s\n%s\n", ok ? 0 : 1, v.key.c_str(), v.msg.c_str());
      fclose(r);
      _exit(0);
    }
    int st = 0;
    double t0 = now();
    bool killed = false;
    while (waitpid(pid, &st, WNOHANG) == 0) {
      usleep(2000);
      if (now() - t0 > 150) { kill(pid, SIGKILL); waitpid(pid, &st, 0); killed = true; break; }
    }
    int res = 1;
    if (killed || (WIFEXITED(st) && WEXITSTATUS(st) == 77)) {
      key = "hang";
      msg = "the operation sequence does not terminate";
    } else if (WIFSIGNALED(st)) {
      key = fmt("crash-signal-%d", WTERMSIG(st));
      msg = fmt("the library crashed with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    } else {
      std::ifstream r(f);
      std::string l;
      std::getline(r, l);
      if (l.empty()) { key = "abnormal-exit"; msg = "the library ended the process"; }
      else {
        res = atoi(l.c_str());
        std::getline(r, key);
        std::string rest;
        msg = "";
        while (std::getline(r, rest)) msg += (msg.empty() ? "" : "\n") + rest;
      }
    }
    std::ifstream nf(f + ".notes");
    std::stringstream ns;
    ns << nf.rdbuf();
    trace = ns.str();
    munmap(sh, sizeof(Shared));
    return res;
  }

  struct Task {                                    // what one worker explored, in order
    std::vector<short> prefix;
    std::vector<std::pair<uint64_t, size_t>> floors;   // after so many executions the rest above this depth was handed on
  };
  static std::vector<Task> read_history(const std::string& file) {
    std::vector<Task> r;
    std::ifstream f(file);
    std::string l;
    while (std::getline(f, l)) {
      if (l[0] == 'T') r.push_back({parse_seq(l.substr(2)), {}});
      else if (l[0] == 'F' && !r.empty()) {
        unsigned long long a, b;
        if (sscanf(l.c_str() + 2, "%llu %llu", &a, &b) == 2) r.back().floors.push_back({a, (size_t)b});
      }
    }
    return r;
  }
  bool rerun_history(const std::vector<Task>& hist, std::string& key, std::string& msg, std::vector<short>& seq) {
    std::string f = out_dir + "/history_result.txt";
    ::unlink(f.c_str());
    Shared* sh = new_shared();
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      signal(SIGPROF, on_prof);
      cur() = sh;
      MC m;
      m.sh_ = sh;
      m.thorough = thorough;
      m.known = known;
      Violation v;
      bool bad = false;
      for (auto& t : hist) {
        m.seq_ = t.prefix;
        m.width_.assign(m.seq_.size(), 0);
        size_t floor = m.seq_.size(), nf = 0;
        for (uint64_t n = 1;; n++) {
          bool ok;
          try { ok = run_one(m, v); } catch (Diverged&) { v = Violation{"diverged", "re-execution diverged"}; ok = false; }
          if (!ok) { bad = true; break; }
          while (nf < t.floors.size() && t.floors[nf].first == n) floor = t.floors[nf++].second;
          if (!m.next(floor)) break;
        }
        if (bad) break;
      }
      if (bad) {
        FILE* r = fopen(f.c_str(), "w");
        fprintf(r, "%s\n%s\n", v.key.c_str(), v.msg.c_str());
        fclose(r);
      }
      sh->done = 1;
      _exit(0);
    }
    int st = 0;
    double t0 = now();
    while (waitpid(pid, &st, WNOHANG) == 0) {
      usleep(5000);
      if (now() - t0 > 400) { kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
    }
    for (int i = 0; i < sh->n && i < kMaxChoices; i++) seq.push_back((short)sh->c[i]);
    if (!sh->done) {
      key = sh->hang ? "hang" : "crash";
      msg = sh->hang ? "the operation sequence does not terminate" : fmt("the library crashed (status %d)", st);
      return WIFSIGNALED(st) ? WTERMSIG(st) != SIGKILL : true;
    }
    std::ifstream r(f);
    if (!r) return false;
    std::getline(r, key);
    std::getline(r, msg);
    return true;
  }

  int main(int argc, char** argv) {
    std::string replay_seq;
    bool do_replay = false;
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      if (a == "--out") out_dir = argv[++i];
      else if (a == "--thorough") thorough = true;
      else if (a == "--workers") workers = atoi(argv[++i]);
      else if (a == "--known") known.insert(argv[++i]);
      else if (a == "--seq") { replay_seq = argv[++i]; do_replay = true; }
    }
    mallopt(M_PERTURB, 0x80);   // uninitialised heap reads see 0x7f bytes (1.4e306), never lucky zeros
    static struct NullBuf : std::streambuf { int overflow(int c) override { return c; } } nb;
    std::cout.rdbuf(&nb);
    std::cerr.rdbuf(&nb);
    if (do_replay) {
      std::string k, m, t;
      int r = replay(parse_seq(replay_seq), k, m, t);
      printf("%s%s\nresult: %s %s\n%s\n", t.c_str(), "", r ? "VIOLATED" : "held", k.c_str(), m.c_str());
      return r;
    }
    // ---- collect prefixes
    std::vector<std::vector<short>> tasks;
    {
      // runs in a child so that a crash in a prefix is attributed like any other
      Shared* sh = new_shared();
      std::string tf = out_dir + "/tasks.bin";
      fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        signal(SIGPROF, on_prof);
        cur() = sh;
        MC m;
        m.sh_ = sh;
        m.thorough = thorough;
        m.known = known;
        m.probe_depth_ = opt.split_depth;
        FILE* f = fopen(tf.c_str(), "w");
        for (;;) {
          Violation v;
          try { run_one(m, v); } catch (ProbeStop&) { arm(0); } catch (Diverged&) { _exit(78); }
          std::vector<short> s(m.seq_.begin(), m.seq_.begin() + m.pos_);
          fprintf(f, "%s\n", seq_str(s).c_str());
          if (!m.next(0)) break;
        }
        fclose(f);
        sh->done = 1;
        _exit(0);
      }
      int st;
      waitpid(pid, &st, 0);
      if (!sh->done) {
        // crash/hang in a prefix: make it the single task so the workers find and report it
        std::vector<short> s;
        for (int i = 0; i < sh->n && i < kMaxChoices; i++) s.push_back((short)sh->c[i]);
        tasks.push_back(s);
        workers = 1;
      } else {
        std::ifstream f(tf);
        std::string l;
        while (std::getline(f, l)) tasks.push_back(parse_seq(l));
      }
    }
    int nw = std::max(1, std::min(workers, (int)tasks.size()));
    std::vector<Child> ch;
    // dynamic distribution through a shared counter
    auto* pool = (Pool*)mmap(nullptr, sizeof(Pool), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (opt.dynamic) nw = std::max(1, workers);
    for (int w = 0; w < nw; w++) {
      Shared* sh = new_shared();
      fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        signal(SIGPROF, on_prof);
        cur() = sh;
        MC m;
        m.sh_ = sh;
        m.thorough = thorough;
        m.known = known;
        Violation v;
        bool bad = false;
        std::vector<short> badseq;
        std::vector<std::string> samples;
        std::string base = out_dir + "/w" + std::to_string(w);
        FILE* hist = fopen((base + ".hist").c_str(), "w");
        for (;;) {
          if (pool->stop) break;
          int ti = __sync_fetch_and_add((int*)&pool->next, 1);
          if (ti < (int)tasks.size()) {
            m.seq_ = tasks[ti];
          } else {
            // wait for somebody to hand on a part of its work, or for everybody to be done
            bool got = false;
            if (opt.dynamic) {
              __sync_fetch_and_add((int*)&pool->idle, 1);
              while (!pool->stop) {
                if (pool->n > 0 || pool->idle == nw) {
                  pool->acquire();
                  bool over = pool->n == 0 && pool->idle == nw;
                  if (pool->n > 0) {
                    int k = pool->n - 1;
                    pool->n = k;
                    m.seq_.clear();
                    for (int i = 0; i < pool->len[k]; i++) m.seq_.push_back((short)pool->c[k][i]);
                    __sync_fetch_and_sub((int*)&pool->idle, 1);
                    got = true;
                  }
                  pool->release();
                  if (got || over) break;
                }
                usleep(200);
              }
            }
            if (!got) break;
          }
          fprintf(hist, "T %s\n", seq_str(m.seq_).c_str());
          fflush(hist);
          m.width_.assign(m.seq_.size(), 0);
          size_t floor = m.seq_.size();
          for (uint64_t n = 1;; n++) {
            bool ok;
            try { ok = run_one(m, v); } catch (Diverged&) {
              v = Violation{"diverged", "re-execution diverged"};
              ok = false;
            }
            if (ok && getenv("MC_TWICE")) {              // debugging aid: every execution must repeat exactly
              std::vector<short> s1(m.seq_.begin(), m.seq_.begin() + m.pos_);
              std::vector<int> w1(m.width_.begin(), m.width_.begin() + m.pos_);
              m.seq_ = s1;
              m.width_ = w1;
              bool same = true;
              try { run_one(m, v); same = m.pos_ == s1.size(); } catch (Diverged&) { same = false; }
              if (!same) {
                FILE* o = fopen((std::string(getenv("MC_TWICE")) + "/twice.txt").c_str(), "a");
                fprintf(o, "worker %d execution %d of its task: choice %d of [%s], widths then %d\n", w, (int)n, (int)m.pos_, seq_str(s1).c_str(), m.pos_ < w1.size() ? w1[m.pos_] : -1);
                fclose(o);
                m.seq_ = s1;
                m.width_ = w1;
                m.pos_ = s1.size();
              }
            }
            if (!ok) {
              bad = true;
              badseq.assign(m.seq_.begin(), m.seq_.begin() + m.pos_);
              break;
            }
            if ((int)samples.size() < 2 && m.execs % 97 == 1)
              samples.push_back(seq_str(std::vector<short>(m.seq_.begin(), m.seq_.begin() + m.pos_)));
            if (pool->stop) break;
            if (opt.dynamic && pool->idle > 0 && pool->n < pool->idle) {
              size_t l = floor;
              while (l < m.pos_ && l < m.seq_.size() && m.seq_[l] + 1 >= m.width_[l]) l++;
              if (l < m.pos_ && l < m.seq_.size()) {
                pool->acquire();
                int cnt = m.width_[l] - m.seq_[l] - 1;
                if (pool->n + cnt <= kPool) {
                  for (int d = cnt; d >= 1; d--) {
                    int k = pool->n;
                    for (size_t i = 0; i < l; i++) pool->c[k][i] = m.seq_[i];
                    pool->c[k][l] = (short)(m.seq_[l] + d);
                    pool->len[k] = (short)(l + 1);
                    pool->n = k + 1;
                  }
                  floor = l + 1;
                  fprintf(hist, "F %llu %llu\n", (unsigned long long)n, (unsigned long long)floor);
                  fflush(hist);
                }
                pool->release();
              }
            }
            if (!m.next(floor)) break;
          }
          if (bad) { pool->stop = 1; break; }
        }
        fclose(hist);
        FILE* r = fopen((base + ".txt").c_str(), "w");
        fprintf(r, "execs %llu\nsteps %llu\ntraces %llu\n", (unsigned long long)m.execs, (unsigned long long)m.steps,
                (unsigned long long)m.traces);
        for (auto& k : m.known_hits) fprintf(r, "known %llu %s\n", (unsigned long long)k.second, k.first.c_str());
        for (auto& k : m.counters) fprintf(r, "counter %llu %s\n", (unsigned long long)k.second, k.first.c_str());
        for (auto& s : samples) fprintf(r, "sample %s\n", s.c_str());
        if (bad) fprintf(r, "bad %s\n", seq_str(badseq).c_str());
        if (bad) fprintf(r, "badmsg %s: %s\n", v.key.c_str(), one_line(v.msg.substr(0, 600)).c_str());
        fclose(r);
        FILE* s = fopen((base + ".states").c_str(), "wb");
        for (uint64_t h : m.states_) fwrite(&h, 8, 1, s);
        fclose(s);
        sh->done = 1;
        _exit(0);
      }
      ch.push_back({pid, sh, 0, now()});
    }
    // ---- supervise
    std::vector<std::vector<short>> bad;
    std::vector<int> bad_worker;
    std::string bad_msg;
    int alive = nw;
    std::vector<bool> gone(nw, false);
    while (alive > 0) {
      usleep(20000);
      for (int w = 0; w < nw; w++) {
        if (gone[w]) continue;
        int st;
        pid_t p = waitpid(ch[w].pid, &st, WNOHANG);
        Shared* sh = ch[w].sh;
        bool stuck = false;
        if (p == 0) {
          uint64_t prog = 1 + sh->execs * 1000003u + sh->steps * 31 + sh->n;
          if (prog != ch[w].last) { ch[w].last = prog; ch[w].last_t = now(); continue; }
          else if (now() - ch[w].last_t > 200) { kill(ch[w].pid, SIGKILL); waitpid(ch[w].pid, &st, 0); stuck = true; }
          else continue;
        }
        gone[w] = true;
        alive--;
        if (!sh->done || stuck) {
          std::vector<short> s;
          for (int i = 0; i < sh->n && i < kMaxChoices; i++) s.push_back((short)sh->c[i]);
          bad.push_back(s);
          bad_worker.push_back(w);
          bad_msg = stuck ? "worker stuck" : fmt("worker ended by signal %d, exit code %d", WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : 0);
          pool->stop = 1;
        }
      }
    }
    // ---- merge
    uint64_t execs = 0, steps = 0, traces = 0;
    std::map<std::string, uint64_t> kh, counters;
    std::vector<std::string> samples;
    std::vector<uint64_t> states;
    for (int w = 0; w < nw; w++) {
      std::string base = out_dir + "/w" + std::to_string(w);
      std::ifstream r(base + ".txt");
      std::string l;
      while (std::getline(r, l)) {
        std::stringstream ss(l);
        std::string k;
        ss >> k;
        uint64_t n;
        if (k == "execs") { ss >> n; execs += n; }
        else if (k == "steps") { ss >> n; steps += n; }
        else if (k == "traces") { ss >> n; traces += n; }
        else if (k == "known") { ss >> n; std::string x; std::getline(ss, x); kh[x.substr(1)] += n; }
        else if (k == "counter") { ss >> n; std::string x; std::getline(ss, x); counters[x.substr(1)] += n; }
        else if (k == "sample") { std::string x; ss >> x; if (samples.size() < 4) samples.push_back(x); }
        else if (k == "badmsg") { std::getline(ss, bad_msg); }
        else if (k == "bad") { std::string x; ss >> x; bad.push_back(parse_seq(x)); bad_worker.push_back(w); }
      }
      FILE* s = fopen((base + ".states").c_str(), "rb");
      if (s) {
        uint64_t h;
        while (fread(&h, 8, 1, s) == 1) states.push_back(h);
        fclose(s);
      }
    }
    std::sort(states.begin(), states.end());
    states.erase(std::unique(states.begin(), states.end()), states.end());
    std::sort(bad.begin(), bad.end(), [](auto& a, auto& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; });
    std::string vkey, vmsg, vtrace, vseq;
    bool viol = false, unconfirmed = false;
    for (auto& s : bad) {
      std::string k, m, t;
      int r1 = replay(s, k, m, t);
      if (r1 == 1 && known.count(k)) { kh[k]++; continue; }
      if (r1 == 1) { viol = true; vkey = k; vmsg = m; vtrace = t; vseq = seq_str(s); break; }
      unconfirmed = true;
      vseq = seq_str(s);
    }
    // A failure that a fresh process does not show alone may need what earlier executions of the same
    // process left behind (state shared between filter instances): re-run that worker's whole history.
    if (!viol && unconfirmed) {
      for (int w : bad_worker) {
        std::vector<Task> hist = read_history(out_dir + "/w" + std::to_string(w) + ".hist");
        std::string k, mm;
        std::vector<short> s;
        if (rerun_history(hist, k, mm, s)) {
          if (known.count(k)) continue;
          viol = true;
          vkey = k;
          vmsg = mm + " (only after the preceding executions in the same process: state leaks between instances)";
          vseq = seq_str(s);
          vtrace = fmt("re-executed the history of worker %d: %d subtrees", w, (int)hist.size());
          break;
        }
      }
    }
    std::vector<std::string> sample_txt;
    for (auto& s : samples) {
      std::string k, m, t;
      replay(parse_seq(s), k, m, t);
      if (t.size() > 1500) t = t.substr(0, 1500) + "...";
      sample_txt.push_back("choices [" + s + "]: " + t);
    }
    // ---- result
    std::ofstream j(out_dir + "/result.json");
    j << "{\n\"execs\": " << execs << ", \"steps\": " << steps << ", \"traces\": " << traces
      << ", \"states\": " << states.size() << ", \"tasks\": " << tasks.size() << ",\n\"what\": \"" << jesc(opt.what)
      << "\", \"bounds\": \"" << jesc(opt.bounds) << "\",\n\"counters\": {";
    bool first = true;
    for (auto& c : counters) { j << (first ? "" : ", ") << '"' << jesc(c.first) << "\": " << c.second; first = false; }
    j << "},\n\"known\": {";
    first = true;
    for (auto& c : kh) { j << (first ? "" : ", ") << '"' << jesc(c.first) << "\": " << c.second; first = false; }
    j << "},\n\"samples\": [";
    first = true;
    for (auto& s : sample_txt) { j << (first ? "" : ",\n") << '"' << jesc(s) << '"'; first = false; }
    j << "],\n\"violation\": " << (viol ? "true" : "false") << ", \"bad_msg\": \"" << jesc(bad_msg) << "\", \"unconfirmed\": " << (unconfirmed && !viol ? "true" : "false")
      << ", \"key\": \"" << jesc(vkey) << "\", \"msg\": \"" << jesc(vmsg) << "\", \"seq\": \"" << vseq << "\", \"trace\": \""
      << jesc(vtrace) << "\"\n}\n";
    j.close();
    return viol ? 1 : 0;
  }
};

}  // namespace mc

#define MC_MAIN(OPTS)                        \
  int main(int argc, char** argv) {          \
    mc::Runner r;                            \
    r.opt = OPTS();                          \
    return r.main(argc, argv);               \
  }
