// Exhaustive campaigns: a stage is a finite, indexed space of cases; every index is executed, in forked
// worker processes.  A case that crashes, aborts or hangs is a violation of the case; every violation is
// replayed in a fresh process before it is reported.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace verif {

inline uint64_t mix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 12) + (h >> 4);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 33);
}
inline uint64_t mix(uint64_t h, const std::string &s)
{
  for (char c : s)
    h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ull;
  return mix(h, s.size());
}
inline uint64_t mix(uint64_t h, double d)
{
  uint64_t u;
  if (d == 0)
    d = 0;
  std::memcpy(&u, &d, 8);
  return mix(h, u);
}

struct CaseCtx {
  std::string                     stage;
  uint64_t                        idx     = 0;
  bool                            verbose = false;
  bool                            taint   = false; ///< the process must not be reused after this case
  uint64_t                        digest  = 1469598103934665603ull;
  std::string                     dir; ///< scratch directory of this worker (also the cwd)
  std::map<std::string, long>    &counters;
  std::unordered_set<uint64_t>   &states;
  std::unordered_set<uint64_t>   &outcomes;
  std::vector<std::pair<std::string, std::string>> violations; // key, message

  explicit CaseCtx(std::map<std::string, long> &c, std::unordered_set<uint64_t> &s, std::unordered_set<uint64_t> &o)
      : counters(c), states(s), outcomes(o) {}

  /// key: short and stable identification of what fails (used for known findings)
  void fail(const std::string &key, const std::string &msg)
  {
    if (violations.size() < 20)
      violations.emplace_back(key, msg);
    if (verbose)
      std::cerr << "  FAIL [" << key << "] " << msg << "\n";
  }
  template <typename F>
  void require(bool ok, const std::string &key, F &&msg)
  {
    if (!ok)
      fail(key, msg());
  }
  void count(const std::string &n, long k = 1) { counters[n] += k; }
  void state(uint64_t h) { states.insert(h); }
  void outcome(uint64_t h) { outcomes.insert(h); }
  template <typename T>
  void observe(const T &t) { digest = mix(digest, t); }
};

struct Found {
  std::string stage;
  uint64_t    idx;
  std::string key, msg;
  bool        reproduced = false;
};

class Campaign {
public:
  using Describe = std::function<std::string(uint64_t)>;
  using Body     = std::function<void(CaseCtx &, uint64_t)>;

  std::string property, tier = "quick", technique, rule, level = "model_checking";
  std::vector<std::string> assumptions;
  int         seed = 1, jobs = 8;
  double      deadline = 780;      // seconds for all stages of a run
  uint64_t    maxKeys       = 8;
  uint64_t    maxViolations = 60;  // unlisted ones stop a stage
  double      caseTimeout = 60, retryTimeout = 240;
  bool        thorough() const { return tier == "thorough"; }

  Campaign(std::string prop, int argc, char **argv)
      : property(std::move(prop)), t0(now())
  {
    if (const char *t = getenv("VERIF_TIER"))
      tier = t;
    if (const char *m = getenv("VERIF_MAXVIOLATIONS")) // for development
      maxViolations = maxKeys = std::strtoul(m, nullptr, 10);
    if (const char *s = getenv("VERIF_SEED"))
      seed = atoi(s);
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto        next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
      if (a == "--tier")
        tier = next();
      else if (a == "--jobs")
        jobs = stoi(next());
      else if (a == "--case") { // stage:idx
        auto s    = next();
        auto p    = s.rfind(':');
        onlyStage = s.substr(0, p);
        onlyIdx   = std::stoull(s.substr(p + 1));
        single    = true;
      } else if (a == "--stage")
        onlyStage = next();
      else if (a == "--evidence")
        evidenceFile = next();
      else if (a == "--replays")
        replayDir = next();
      else if (a == "--known")
        knownFile = next();
      else if (a == "--deadline")
        deadline = stod(next());
      else if (a == "--list")
        listOnly = true;
      else if (a == "--dump")
        dumpAll = true;
      else if (a == "--lib")
        lib = next();
      else {
        std::cerr << "unknown option " << a << "\n";
        exit(2);
      }
    }
    if (thorough())
      deadline = std::max(deadline, 3.0 * 3600);
    signal(SIGPIPE, SIG_IGN);
    std::ifstream                      k(knownFile);
    std::string                        line;
    while (std::getline(k, line)) {
      std::string tag = "finding: property=" + property + " key=[";
      if (line.rfind(tag, 0) == 0) {
        auto e = line.find("] ", tag.size());
        if (e != std::string::npos)
          known[line.substr(tag.size(), e - tag.size())] = line.substr(e + 2);
      }
    }
    const char *bases[] = {getenv("VERIF_SCRATCH"), "/dev/shm", "/tmp"};
    for (auto b : bases) {
      if (!b)
        continue;
      std::string t = std::string(b) + "/verif-XXXXXX";
      if (mkdtemp(t.data())) {
        scratch = t;
        break;
      }
    }
    if (scratch.empty()) {
      std::cerr << "no scratch directory\n";
      exit(2);
    }
    owner = getpid();
  }
  ~Campaign()
  {
    if (getpid() == owner && !scratch.empty()) {
      std::error_code ec;
      std::filesystem::remove_all(scratch, ec);
    }
  }
  std::string lib; ///< path of the rank library
  std::string scratchDir() const { return scratch; }

  /// runs every case of [0,n)
  void stage(const std::string &name, uint64_t n, Describe describe, Body body)
  {
    if (!onlyStage.empty() && onlyStage != name)
      return;
    if (listOnly) {
      std::cout << name << ": " << n << " cases\n";
      if (dumpAll)
        for (uint64_t i = 0; i < n; ++i)
          std::cout << i << " " << describe(i) << "\n";
      return;
    }
    if (single) {
      runSingle(name, describe, body);
      return;
    }
    double s0 = now();
    StageInfo info;
    info.name = name;
    info.n    = n;
    std::vector<Found> found = runPool(name, n, body, info);
    // replay before report
    std::map<std::string, int> perKey;
    for (auto &f : found) {
      if (++perKey[f.key] > 3)
        continue;
      for (int k = 0; k < 2 && !f.reproduced; ++k)
        f.reproduced = reproduce(name, f, body);
      if (!f.reproduced) {
        std::cout << "UNREPRODUCED stage=" << name << " case=" << f.idx << " key=" << f.key << " " << f.msg << std::endl;
        unreproduced++;
        continue;
      }
      f.msg += "\n  case: " + describe(f.idx);
      all.push_back(f);
    }
    // samples written out
    for (uint64_t k : {uint64_t(0), n / 3, n - 1})
      if (k < n && samples.size() < 24)
        samples.insert(name + "#" + std::to_string(k) + ": " + describe(k));
    // determinism: a few cases are run twice and must be observed to be the same
    for (uint64_t k : {uint64_t(0), n / 2})
      if (k < n && found.empty())
        checkDeterminism(name, k, body);
    info.wall = now() - s0;
    stages.push_back(info);
    std::cout << "stage " << name << ": " << info.done << "/" << n << " cases, " << info.wall << " s, " << found.size() << " violations" << std::endl;
  }

  int finish()
  {
    if (listOnly || single)
      return singleRc;
    std::set<std::string> saidKnown;
    int                   nviol = 0;
    std::set<std::string> saidKeys;
    for (auto &f : all) {
      auto it = known.find(f.key);
      if (it != known.end()) {
        if (saidKnown.insert(f.key).second)
          std::cout << "KNOWN-FINDING: property=" << property << " " << it->second << std::endl;
        continue;
      }
      ++nviol;
      if (!saidKeys.insert(f.key).second || saidKeys.size() > maxKeys)
        continue;
      std::string path = writeReplay(f, saidKeys.size());
      std::cout << "VIOLATION property=" << property << " replay=" << path << "\n  [" << f.key << "] " << f.msg << std::endl;
    }
    writeEvidence(nviol);
    if (nviol)
      return 1;
    if (unreproduced > 0)
      std::cout << "note: " << unreproduced << " observations did not reproduce and are not reported" << std::endl;
    return 0;
  }

private:
  struct StageInfo {
    std::string name;
    uint64_t    n = 0, done = 0;
    double      wall = 0;
  };
  struct Slot {
    std::atomic<uint64_t> current; // idx+1, 0 = none
    std::atomic<double>   since;
  };
  struct Shared {
    std::atomic<uint64_t> next;
    std::atomic<uint64_t> done;
    std::atomic<uint64_t> violations;
    std::atomic<int>      stop;
    Slot                  slots[64];
  };

  static double now()
  {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
  }
  static std::string esc(const std::string &s)
  {
    std::string o;
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') {
        o += '\\';
        o += c;
      } else if (c == '\n')
        o += "\\n";
      else if (c < 32 || c > 126) {
        char b[8];
        snprintf(b, 8, "\\u%04x", c);
        o += b;
      } else
        o += c;
    }
    return o;
  }

  /// In a worker process: runs cases until there are none left or the process is tainted. Never returns.
  [[noreturn]] void worker(int w, const std::string &name, uint64_t n, const Body &body, Shared *sh, int64_t fixed)
  {
    std::map<std::string, long>  counters;
    std::unordered_set<uint64_t> states, outcomes;
    std::string                  dir = scratch + "/w" + std::to_string(w) + "-" + std::to_string(getpid());
    std::filesystem::create_directories(dir);
    if (chdir(dir.c_str()) != 0)
      _exit(90);
    std::string errf = scratch + "/err" + std::to_string(w);
    int         fd   = open(errf.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
    if (!getenv("VERIF_STDERR"))
      dup2(fd, 2);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    int   vf   = open((scratch + "/violations").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600);
    auto &slot = sh->slots[w];
    while (true) {
      uint64_t i;
      if (fixed >= 0)
        i = static_cast<uint64_t>(fixed);
      else {
        if (sh->stop.load())
          break;
        i = sh->next.fetch_add(1);
        if (i >= n)
          break;
      }
      slot.since.store(now());
      slot.current.store(i + 1);
      if (ftruncate(fd, 0) != 0) {
      }
      CaseCtx ctx(counters, states, outcomes);
      ctx.stage = name;
      ctx.idx   = i;
      ctx.dir   = dir;
      try {
        body(ctx, i);
      } catch (const std::exception &e) {
        ctx.fail("exception", std::string("unexpected exception: ") + e.what());
        ctx.taint = true;
      }
      outcomes.insert(ctx.digest);
      for (auto &[k, m] : ctx.violations) {
        std::string l = std::to_string(i) + "\t" + enc(k) + "\t" + enc(m) + "\n";
        if (write(vf, l.data(), l.size()) < 0)
          _exit(91);
        if (!known.count(k))
          sh->violations.fetch_add(1);
      }
      slot.current.store(0);
      sh->done.fetch_add(1);
      if (fixed >= 0 || ctx.taint)
        break;
    }
    {
      std::ofstream o(scratch + "/stats-" + std::to_string(w) + "-" + std::to_string(getpid()), std::ios::binary);
      o << counters.size() << "\n";
      for (auto &[k, v] : counters)
        o << k << "\t" << v << "\n";
      o << states.size() << " " << outcomes.size() << "\n";
      for (auto h : states)
        o.write(reinterpret_cast<const char *>(&h), 8);
      for (auto h : outcomes)
        o.write(reinterpret_cast<const char *>(&h), 8);
    }
    _exit(0);
  }
  static std::string enc(const std::string &s)
  {
    std::string o;
    for (char c : s)
      o += c == '\n' ? std::string("\\n") : c == '\t' ? std::string("  ") : std::string(1, c);
    return o;
  }
  static std::string dec(const std::string &s)
  {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i)
      if (s[i] == '\\' && i + 1 < s.size() && s[i + 1] == 'n') {
        o += "\n";
        ++i;
      } else
        o += s[i];
    return o;
  }
  void collect(const std::string &pat)
  {
    for (auto &e : std::filesystem::directory_iterator(scratch)) {
      auto fn = e.path().filename().string();
      if (fn.rfind(pat, 0) != 0)
        continue;
      std::ifstream in(e.path(), std::ios::binary);
      size_t        nc = 0;
      std::string   l;
      std::getline(in, l);
      nc = l.empty() ? 0 : std::stoul(l);
      for (size_t i = 0; i < nc; ++i) {
        std::getline(in, l);
        auto t = l.find('\t');
        counters[l.substr(0, t)] += std::stol(l.substr(t + 1));
      }
      std::getline(in, l);
      size_t             ns = 0, no = 0;
      std::istringstream is(l);
      is >> ns >> no;
      uint64_t h;
      for (size_t i = 0; i < ns && in.read(reinterpret_cast<char *>(&h), 8); ++i)
        states.insert(h);
      for (size_t i = 0; i < no && in.read(reinterpret_cast<char *>(&h), 8); ++i)
        outcomes.insert(h);
      in.close();
      std::error_code ec;
      std::filesystem::remove(e.path(), ec);
    }
  }
  std::string crashMessage(int w, int status)
  {
    std::ostringstream os;
    if (WIFSIGNALED(status))
      os << "process died with signal " << WTERMSIG(status) << " (" << strsignal(WTERMSIG(status)) << ")";
    else
      os << "process exited with status " << WEXITSTATUS(status);
    std::ifstream      in(scratch + "/err" + std::to_string(w));
    std::ostringstream t;
    t << in.rdbuf();
    std::string s = t.str();
    if (s.size() > 1200)
      s = s.substr(0, 1200);
    os << "; stderr: " << s;
    return os.str();
  }
  /// a stable key for a crash
  std::string crashKey(const std::string &msg)
  {
    auto x = msg.find("Expression: ");
    if (x != std::string::npos)
      return "assertion " + msg.substr(x + 12, std::min<size_t>(msg.find('\n', x) - x - 12, 100));
    auto p = msg.find("Assertion:");
    if (p == std::string::npos)
      p = msg.find("ssertion");
    if (p != std::string::npos) {
      auto e = msg.find('\n', p);
      return "assertion " + msg.substr(p, std::min<size_t>(e == std::string::npos ? 80 : e - p, 80));
    }
    return msg.substr(0, msg.find(';'));
  }
  Shared *newShared()
  {
    void *m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED)
      throw std::runtime_error("mmap");
    return new (m) Shared{};
  }
  void cleanWorkerDirs()
  {
    for (auto &e : std::filesystem::directory_iterator(scratch)) {
      auto            fn = e.path().filename().string();
      std::error_code ec;
      if (fn[0] == 'w' && e.is_directory())
        std::filesystem::remove_all(e.path(), ec);
    }
  }

  std::vector<Found> runPool(const std::string &name, uint64_t n, const Body &body, StageInfo &info)
  {
    std::filesystem::remove(scratch + "/violations");
    Shared            *sh = newShared();
    std::vector<Found> found;
    std::map<pid_t, int> pids;
    std::vector<uint64_t> hung;
    std::cout.flush();
    std::cerr.flush();
    auto spawn = [&](int w) {
      pid_t p = fork();
      if (p == 0)
        worker(w, name, n, body, sh, -1);
      pids[p] = w;
    };
    int nj = static_cast<int>(std::min<uint64_t>(jobs, n));
    for (int w = 0; w < nj; ++w)
      spawn(w);
    while (!pids.empty()) {
      int   status;
      pid_t p = waitpid(-1, &status, WNOHANG);
      if (p > 0 && pids.count(p)) {
        int w = pids[p];
        pids.erase(p);
        uint64_t c = sh->slots[w].current.exchange(0);
        if (c != 0) {
          sh->done.fetch_add(1);
          bool wasHung = !hung.empty() && hung.back() == c - 1;
          if (!wasHung) {
            auto m = crashMessage(w, status);
            found.push_back({name, c - 1, crashKey(m), m});
            if (!known.count(found.back().key))
              sh->violations.fetch_add(1);
          }
        }
        if (sh->next.load() < n && !sh->stop.load())
          spawn(w);
        continue;
      }
      if (p < 0)
        break;
      double t = now();
      if (t - t0 > deadline || sh->violations.load() > maxViolations)
        sh->stop.store(1);
      for (auto &[pid, w] : pids) {
        uint64_t c = sh->slots[w].current.load();
        if (c != 0 && t - sh->slots[w].since.load() > caseTimeout) {
          hung.push_back(c - 1);
          kill(pid, SIGKILL);
          int st;
          waitpid(pid, &st, 0);
          sh->slots[w].current.store(0);
          int ww = w;
          pids.erase(pid);
          if (hung.size() < 5)
            spawn(ww);
          else
            sh->stop.store(1);
          break;
        }
      }
      usleep(pids.size() ? 2000 : 0);
    }
    for (auto h : hung) { // alone, with a longer limit
      int  st  = 0;
      bool hang = runAlone(name, h, body, retryTimeout, st);
      if (hang)
        found.push_back({name, h, "hang", "the execution does not terminate"});
      if (found.size() > 2)
        break;
    }
    std::ifstream in(scratch + "/violations");
    std::string   l;
    while (std::getline(in, l)) {
      auto a = l.find('\t'), b = l.find('\t', a + 1);
      found.push_back({name, std::stoull(l.substr(0, a)), dec(l.substr(a + 1, b - a - 1)), dec(l.substr(b + 1))});
    }
    {
      std::map<std::string, int> seen; // a few instances of known findings suffice
      found.erase(std::remove_if(found.begin(), found.end(), [&](auto &f) { return known.count(f.key) && ++seen[f.key] > 3; }), found.end());
    }
    std::stable_sort(found.begin(), found.end(), [](auto &x, auto &y) { return x.idx < y.idx; });
    collect("stats-");
    info.done = sh->done.load();
    totalDone += info.done;
    if (info.done < n)
      exhaustive = false;
    cleanWorkerDirs();
    munmap(sh, sizeof(Shared));
    return found;
  }
  /// returns true if it had to be killed
  bool runAlone(const std::string &name, uint64_t i, const Body &body, double limit, int &status, int w = 60)
  {
    Shared *sh = newShared();
    std::cout.flush();
    pid_t p = fork();
    if (p == 0)
      worker(w, name, i + 1, body, sh, static_cast<int64_t>(i));
    double s = now();
    bool   killed = false;
    while (true) {
      pid_t r = waitpid(p, &status, WNOHANG);
      if (r == p)
        break;
      if (now() - s > limit) {
        kill(p, SIGKILL);
        waitpid(p, &status, 0);
        killed = true;
        break;
      }
      usleep(1000);
    }
    munmap(sh, sizeof(Shared));
    return killed;
  }
  bool reproduce(const std::string &name, const Found &f, const Body &body)
  {
    if (f.key == "hang")
      return true; // has just been run alone
    std::filesystem::remove(scratch + "/violations");
    int  st     = 0;
    bool killed = runAlone(name, f.idx, body, retryTimeout, st, 61);
    bool ok     = false;
    if (!killed && !(WIFEXITED(st) && WEXITSTATUS(st) == 0))
      ok = crashKey(crashMessage(61, st)) == f.key;
    std::ifstream in(scratch + "/violations");
    std::string   l;
    while (std::getline(in, l)) {
      auto a = l.find('\t'), b = l.find('\t', a + 1);
      if (dec(l.substr(a + 1, b - a - 1)) == f.key)
        ok = true;
    }
    discardStats();
    return ok;
  }
  void discardStats()
  {
    for (auto &e : std::filesystem::directory_iterator(scratch))
      if (e.path().filename().string().rfind("stats-", 0) == 0) {
        std::error_code ec;
        std::filesystem::remove(e.path(), ec);
      }
    cleanWorkerDirs();
  }
  void checkDeterminism(const std::string &name, uint64_t i, const Body &body)
  {
    std::set<uint64_t> seen;
    for (int k = 0; k < 2; ++k) {
      int st = 0;
      discardStats();
      if (runAlone(name, i, body, retryTimeout, st, 62))
        return;
      std::map<std::string, long>  c0;
      std::unordered_set<uint64_t> s0, o0;
      std::swap(c0, counters);
      std::swap(s0, states);
      std::swap(o0, outcomes);
      collect("stats-");
      std::swap(c0, counters);
      std::swap(s0, states);
      std::swap(o0, outcomes);
      uint64_t h = 7;
      for (auto x : o0)
        h ^= x;
      seen.insert(h);
      cleanWorkerDirs();
    }
    determinismChecked++;
    if (seen.size() != 1) {
      std::cout << "NONDETERMINISTIC stage=" << name << " case=" << i << std::endl;
      nondet++;
    }
  }
  void runSingle(const std::string &name, const Describe &describe, const Body &body)
  {
    if (name != onlyStage)
      return;
    std::map<std::string, long>  c;
    std::unordered_set<uint64_t> s, o;
    CaseCtx                      ctx(c, s, o);
    ctx.stage   = name;
    ctx.idx     = onlyIdx;
    ctx.verbose = true;
    ctx.dir     = scratch;
    std::string cwd = std::filesystem::current_path();
    if (chdir(scratch.c_str()) != 0)
      exit(2);
    std::cerr << "case " << name << ":" << onlyIdx << " " << describe(onlyIdx) << "\n";
    body(ctx, onlyIdx);
    if (chdir(cwd.c_str()) != 0)
      exit(2);
    std::cerr << (ctx.violations.empty() ? "case holds\n" : "case violates the property\n");
    if (!ctx.violations.empty()) {
      singleRc = 1;
      std::cout << "VIOLATION property=" << property << " replay=" << name << ":" << onlyIdx << std::endl;
    }
    for (auto &[k, v] : c)
      std::cerr << "  " << k << " = " << v << "\n";
  }
  std::string writeReplay(const Found &f, size_t k)
  {
    std::string dir = replayDir.empty() ? std::string("/tmp") : replayDir;
    std::error_code ec;
    std::filesystem::create_directories(dir, ec);
    std::string   path = dir + "/" + property + "-" + std::to_string(k) + ".json";
    std::ofstream o(path);
    o << "{\"property\": \"" << property << "\", \"stage\": \"" << esc(f.stage) << "\", \"case\": " << f.idx << ", \"key\": \"" << esc(f.key)
      << "\", \"message\": \"" << esc(f.msg) << "\", \"replay\": \"python3 /verif/check.py " << property << " --tier " << tier << " --replay " << path << "\", \"tier\": \"" << tier << "\"}\n";
    return path;
  }
  long c(const std::string &n) const
  {
    auto it = counters.find(n);
    return it == counters.end() ? 0 : it->second;
  }
  void writeEvidence(int nviol)
  {
    if (evidenceFile.empty())
      return;
    std::ofstream o(evidenceFile);
    o << "{\n \"property\": \"" << property << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"" << level << "\",\n \"coverage\": {\n";
    o << "  \"evaluations\": " << totalDone << ",\n";
    o << "  \"distinct_nontrivial\": " << outcomes.size() << ",\n";
    o << "  \"rule\": \"" << esc(rule) << "\",\n";
    o << "  \"states\": " << states.size() << ",\n";
    o << "  \"transitions\": " << c("transitions") << ",\n";
    o << "  \"traces_validated_against_impl\": " << (c("executions") ? c("executions") : static_cast<long>(totalDone)) << ",\n";
    o << "  \"exhaustive\": " << (exhaustive ? "true" : "false") << ",\n";
    o << "  \"determinism_double_runs\": " << determinismChecked << ",\n  \"determinism_mismatches\": " << nondet << ",\n";
    o << "  \"unreproduced_observations\": " << unreproduced << ",\n";
    o << "  \"stages\": [";
    for (size_t i = 0; i < stages.size(); ++i)
      o << (i ? ", " : "") << "{\"name\": \"" << stages[i].name << "\", \"cases\": " << stages[i].n << ", \"executed\": " << stages[i].done << ", \"wall_s\": " << stages[i].wall << "}";
    o << "],\n  \"counters\": {";
    bool first = true;
    for (auto &[k, v] : counters) {
      o << (first ? "" : ", ") << "\"" << esc(k) << "\": " << v;
      first = false;
    }
    o << "},\n  \"samples\": [";
    first = true;
    for (auto &s : samples) {
      o << (first ? "" : ", ") << "\"" << esc(s.substr(0, 1500)) << "\"";
      first = false;
    }
    o << "]\n },\n \"assumptions\": [";
    for (size_t i = 0; i < assumptions.size(); ++i)
      o << (i ? ", " : "") << "\"" << esc(assumptions[i]) << "\"";
    o << "],\n \"wall_s\": " << now() - t0 << ",\n \"violations\": " << nviol << "\n}\n";
  }

  double      t0;
  pid_t       owner = 0;
  std::string scratch, onlyStage, evidenceFile, replayDir, knownFile;
  std::map<std::string, std::string> known; ///< known findings by key
  uint64_t    onlyIdx = 0;
  bool        single = false, listOnly = false, dumpAll = false, exhaustive = true;
  int         singleRc = 0, determinismChecked = 0, nondet = 0, unreproduced = 0;
  uint64_t    totalDone = 0;
  std::vector<StageInfo>       stages;
  std::vector<Found>           all;
  std::map<std::string, long>  counters;
  std::unordered_set<uint64_t> states, outcomes;
  std::set<std::string>        samples;
};

/// mixed-radix decoding of a case index: the first digit varies fastest
class Digits {
public:
  explicit Digits(uint64_t i)
      : v(i) {}
  uint64_t operator()(uint64_t base)
  {
    uint64_t d = v % base;
    v /= base;
    return d;
  }
  template <typename T>
  const T &pick(const std::vector<T> &o) { return o[(*this)(o.size())]; }
  uint64_t rest() const { return v; }

private:
  uint64_t v;
};

} // namespace verif
