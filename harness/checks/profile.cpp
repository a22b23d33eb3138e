// C25: profiling files
#include "../src/exports.hpp"
#include "../src/session.hpp"
#include <chrono>
#include <thread>
using namespace verif;

namespace {
using VI = std::vector<int>;
using VD = std::vector<double>;
const char *MODES[] = {"off", "fundamental", "api", "all"};
const char *NAMES[] = {"a", "b", "c", "", "advance", "two words ", "x:y", "x:z", "E1:2", "\xc3\xa9", "_GLOBAL", "line\nbreak"};
/// script tokens: 0-9,A,B section NAMES[...] starts; 'x' stops the last; 'v' vertex; 'w' write; 'r' read; 'I' initialize; '>' advance; 's' sleep;
/// 'F' finalize; 'D' the object is destroyed
struct Case {
  int         mode = 1, flush = 50, ranks = 1;
  bool        sync = false, configured = true, tool = false, allSteps = true;
  std::string dir = ".", script[2];
  int         runs = 1; ///< participants created one after the other in the same process
  std::string participant = "A";
};
std::string describe(const Case &k)
{
  std::ostringstream o;
  o << MODES[k.mode] << " flush " << k.flush << " ranks " << k.ranks << (k.sync ? " synchronize" : "") << " directory " << k.dir << " runs " << k.runs << " calls " << k.script[0] << (k.ranks > 1 ? " / " + k.script[1] : "");
  return o.str();
}
std::string xml(const Case &k)
{
  std::ostringstream o;
  o << "<precice-configuration><log enabled=\"false\"/>";
  if (k.configured)
    o << "<profiling mode=\"" << MODES[k.mode] << "\" flush-every=\"" << k.flush << "\" directory=\"" << k.dir << "\" synchronize=\"" << (k.sync ? "yes" : "no") << "\"/>";
  o << "<data:scalar name=\"D\"/><data:scalar name=\"E\"/>";
  for (const char *n : {"MA", "MB"})
    o << "<mesh name=\"" << n << "\" dimensions=\"2\"><use-data name=\"E\"/><use-data name=\"D\"/></mesh>";
  o << "<participant name=\"A\"><provide-mesh name=\"MA\"/><write-data name=\"D\" mesh=\"MA\"/><read-data name=\"E\" mesh=\"MA\"/></participant>"
    << "<participant name=\"B\"><provide-mesh name=\"MB\"/><receive-mesh name=\"MA\" from=\"A\"/><mapping:nearest-neighbor direction=\"read\" from=\"MA\" to=\"MB\" constraint=\"consistent\"/><mapping:nearest-neighbor direction=\"write\" from=\"MB\" to=\"MA\" constraint=\"conservative\"/>"
    << "<read-data name=\"D\" mesh=\"MB\"/><write-data name=\"E\" mesh=\"MB\"/></participant>"
    << "<m2n:sockets acceptor=\"A\" connector=\"B\"/><coupling-scheme:parallel-explicit><participants first=\"A\" second=\"B\"/><max-time-windows value=\"20\"/><time-window-size value=\"1\"/>"
    << "<exchange data=\"D\" mesh=\"MA\" from=\"A\" to=\"B\"/><exchange data=\"E\" mesh=\"MA\" from=\"B\" to=\"A\"/></coupling-scheme:parallel-explicit></precice-configuration>";
  return o.str();
}
struct Rec {
  char        type; ///< B E D
  std::string name;
  long        t     = 0;
  std::string key; ///< of D
  long        value = 0;
  bool        operator==(const Rec &o) const { return type == o.type && name == o.name && key == o.key; }
};
struct File {
  std::string      error, header;
  std::vector<Rec> recs;
};
/// reads a file by its description (tools/profiling): names are declared before they are used, events are nested, times do not decrease
File parse(const std::string &s, bool complete)
{
  File                       f;
  std::map<int, std::string> names;
  std::vector<std::string>   stack;
  std::set<std::string>      known;
  size_t                     p = 0;
  int                        line = 0;
  long                       last = 0;
  auto                       bad  = [&](const std::string &m) {
    if (f.error.empty())
      f.error = "line " + std::to_string(line) + " " + m;
  };
  if (!s.empty() && s.back() != '\n')
    bad("the file ends within a line");
  while (p < s.size()) {
    auto e = s.find('\n', p);
    if (e == std::string::npos)
      break;
    std::string l = s.substr(p, e - p);
    p             = e + 1;
    if (++line == 1) {
      f.header = l;
      continue;
    }
    if (l.size() < 3 || !strchr("NBED", l[0])) {
      bad("is no record: " + l);
      return f;
    }
    VI                       ints;
    std::vector<std::string> parts;
    std::string              rest = l.substr(1);
    auto                     c    = rest.find(':');
    if (c == std::string::npos) {
      bad("is no record: " + l);
      return f;
    }
    int id = std::atoi(rest.c_str());
    if (l[0] == 'N') {
      if (names.count(id))
        bad("declares " + std::to_string(id) + " again");
      names[id] = rest.substr(c + 1);
      if (!known.insert(names[id]).second)
        bad("declares the name \"" + names[id] + "\" again");
      continue;
    }
    if (!names.count(id)) {
      bad("uses an event that is not declared: " + l);
      continue;
    }
    Rec   r;
    char *end;
    r.type = l[0];
    r.name = names[id];
    r.t    = std::strtol(rest.c_str() + c + 1, &end, 10);
    if (r.t < last)
      bad("the time decreases: " + l);
    last = r.t;
    if (r.type == 'D') {
      int did = *end == ':' ? std::strtol(end + 1, &end, 10) : -1;
      if (!names.count(did) || *end != ':')
        bad("data record " + l);
      else {
        r.key   = names[did];
        r.value = std::strtol(end + 1, &end, 10);
      }
    }
    if (*end)
      bad("is no record: " + l);
    if (r.type == 'B')
      stack.push_back(r.name);
    else if (stack.empty() || stack.back() != r.name)
      bad(std::string(r.type == 'E' ? "end" : "data") + " of event " + r.name + " inside of " + (stack.empty() ? "nothing" : stack.back()));
    else if (r.type == 'E')
      stack.pop_back();
    f.recs.push_back(r);
  }
  ++line;
  if (complete && !stack.empty())
    bad("event " + stack.back() + " does not end");
  if (!f.recs.empty() && (f.recs[0].type != 'B' || f.recs[0].name != "_GLOBAL"))
    bad("the first event is not _GLOBAL");
  if (complete && (f.recs.empty() || f.recs.back().type != 'E' || f.recs.back().name != "_GLOBAL"))
    bad("the last event is not the end of _GLOBAL");
  return f;
}
std::string show(const std::vector<Rec> &r)
{
  std::string o;
  for (auto &x : r)
    o += std::string(1, x.type) + "(" + x.name + ") ";
  return o;
}
struct Tok {
  char             c;
  std::vector<Rec> visible; ///< what a user sees: own sections, steering calls and, in detailed modes, calls for meshes and data
};
const char *API[] = {"setMeshVertex.MA", "writeData.MA_D", "readData.MA_E"};
int         sectionOf(char c) { return c >= '0' && c <= '9' ? c - '0' : c == 'A' || c == 'B' ? 10 + c - 'A' : -1; }
std::vector<Tok> model(const std::string &script, int mode)
{
  std::vector<Tok>         m;
  std::vector<std::string> open;
  for (char c : script) {
    Tok  t{c, {}};
    auto ev = [&](const std::string &n) {
      t.visible.push_back({'B', n});
      t.visible.push_back({'E', n});
    };
    if (sectionOf(c) >= 0) {
      open.push_back(NAMES[sectionOf(c)]);
      t.visible.push_back({'B', open.back()});
    } else if (c == 'x') {
      t.visible.push_back({'E', open.back()});
      open.pop_back();
    } else if (c == 'I')
      ev("initialize");
    else if (c == '>')
      ev("advance");
    else if (c == 'v' || c == 'w' || c == 'r') {
      if (mode >= 2)
        ev(API[c == 'v' ? 0 : c == 'w' ? 1 : 2]);
    } else if (c == 'F' || c == 'D') {
      while (!open.empty()) {
        t.visible.push_back({'E', open.back()});
        open.pop_back();
      }
      if (!(c == 'D' && !m.empty() && m.back().c == 'F'))
        ev("finalize");
    }
    m.push_back(t);
  }
  return m;
}
std::vector<Rec> visible(const std::vector<Rec> &all, const std::set<std::string> &names, bool complete)
{
  std::vector<Rec> r;
  for (auto &x : all)
    if (x.type != 'D' && names.count(x.name) && !(x.name == "_GLOBAL" && (&x == &all.front() || (complete && &x == &all.back()))))
      r.push_back(x);
  return r;
}
std::set<std::string> userNames(const std::string &script)
{
  std::set<std::string> n = {"initialize", "advance", "finalize"};
  for (auto a : API)
    n.insert(a);
  for (char c : script)
    if (sectionOf(c) >= 0)
      n.insert(NAMES[sectionOf(c)]);
  return n;
}
bool subsequence(const std::vector<Rec> &a, const std::vector<Rec> &b)
{
  size_t i = 0;
  for (auto &x : b)
    if (i < a.size() && a[i] == x)
      ++i;
  return i == a.size();
}
long usNow()
{
  return std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
}
/// what precice-profiling makes of a file
std::map<std::string, int> merged(const File &f)
{
  std::map<std::string, int> r;
  std::vector<std::string>   stack;
  for (auto &x : f.recs) {
    if (x.type == 'B') {
      if (x.name != "_GLOBAL")
        stack.push_back(x.name);
      std::string full;
      if (x.name == "_GLOBAL")
        full = "_GLOBAL";
      else
        for (auto &n : stack)
          full += (full.empty() ? "" : "/") + n;
      r[full]++;
    } else if (x.type == 'E' && !stack.empty())
      stack.pop_back();
  }
  return r;
}
} // namespace

int main(int argc, char **argv)
{
  Campaign c("C25", argc, argv);
  c.rule      = "a case is a sequence of calls with a configuration of the profiling; distinct by the records of all files";
  c.technique = "explicit-state model of the recorded events; every sequence of calls up to the stated depth is executed on the implementation with every configuration; the files are compared with the model after every call (every point at which the process may die)";
  Sched sched;
  RankLibs::get().load(c.lib, c.scratchDir(), 4, &sched);
  bool big = c.thorough();

  struct Result {
    std::vector<std::vector<File>>                     final_; ///< [rank][run]
    std::vector<std::vector<std::vector<std::string>>> snaps;  ///< [rank][run][token]
    std::vector<File>                                  partner;
    std::string                                        path0;
    bool                                               ok = true;
  };
  auto execute = [&](CaseCtx &ctx, uint64_t i, const Case &k, const std::string &crashDir, int crashAt) {
    std::error_code ec;
    for (auto &e : std::filesystem::directory_iterator(ctx.dir))
      if (e.path().filename() != "crash")
        std::filesystem::remove_all(e.path(), ec);
    writeFile(ctx.dir + "/c.xml", xml(k));
    Result      res;
    std::string base = (k.dir == "." ? ctx.dir : k.dir[0] == '/' ? k.dir : ctx.dir + "/" + k.dir) + "/precice-profiling";
    auto        path = [&](int r) { return base + "/A-" + std::to_string(r) + "-" + std::to_string(k.ranks) + ".txt"; };
    res.path0        = path(0);
    res.final_.resize(k.ranks);
    res.snaps.resize(k.ranks);
    Session s(sched);
    s.run(k.ranks + 1, [&](int slot, Api &a) {
      if (slot == k.ranks) {
        for (int run = 0; run < k.runs; ++run) {
          // the partner follows A's script
          std::string sc = k.script[0];
          auto        I  = sc.find('I');
          a.create("B", ctx.dir + "/c.xml", 0, 1);
          if (I != std::string::npos) {
            auto ids = a.setMeshVertices("MB", {0, 0, 1, 0}, 2);
            a.initialize();
            for (char x : sc)
              if (x == '>')
                a.advance(1);
            a.finalize();
          }
          a.destroy();
          std::string f = base + "/B-0-1.txt";
          if (k.mode)
            res.partner.push_back(parse(slurp(f), true));
          else
            ctx.require(!fileExists(f), "off", [&] { return "mode off writes " + f; });
        }
        return;
      }
      for (int run = 0; run < k.runs; ++run) {
        const std::string       &sc = k.script[slot];
        std::vector<std::string> snap;
        long                     before = usNow();
        a.create("A", ctx.dir + "/c.xml", slot, k.ranks);
        long after = usNow();
        auto look  = [&](int tok) {
          std::string f = path(slot);
          if (!k.mode) {
            ctx.require(!fileExists(f), "off", [&] { return "mode off writes " + f; });
            return;
          }
          snap.push_back(slurp(f));
          if (tok == crashAt && slot == 0 && !crashDir.empty()) {
            std::filesystem::remove_all(crashDir);
            std::filesystem::copy(base, crashDir, std::filesystem::copy_options::recursive);
          }
        };
        if (k.mode) {
          auto h = slurp(path(slot));
          h      = h.substr(0, h.find('\n'));
          auto has = [&](const std::string &x) {
            ctx.require(h.find(x) != std::string::npos, "header", [&] { return "the header lacks " + x + ": " + h; });
          };
          has("\"name\":\"A\"");
          has("\"rank\":" + std::to_string(slot) + ",");
          has("\"size\":" + std::to_string(k.ranks) + ",");
          has(std::string("\"mode\":\"") + MODES[k.mode] + "\"");
          auto u = h.find("\"unix_us\":\"");
          long t = u == std::string::npos ? 0 : std::atol(h.c_str() + u + 11);
          ctx.require(t >= before && t <= after, "header", [&] { return "unix_us " + std::to_string(t) + " is not between " + std::to_string(before) + " and " + std::to_string(after); });
        }
        VI  ids;
        int n = 0, tok = 0;
        for (char x : sc) {
          if (sectionOf(x) >= 0)
            a.startProfilingSection(NAMES[sectionOf(x)]);
          else if (x == 'x')
            a.stopLastProfilingSection();
          else if (x == 'v') {
            ids.push_back(a.setMeshVertex("MA", {1.0 * n, 0.5 * slot}));
            ++n;
          } else if (x == 'w')
            a.writeData("MA", "D", ids, VD(n, 1.5));
          else if (x == 'r')
            a.readData("MA", "E", ids, 0, n);
          else if (x == 'I')
            a.initialize();
          else if (x == '>')
            a.advance(1);
          else if (x == 's')
            std::this_thread::sleep_for(std::chrono::milliseconds(2));
          else if (x == 'F')
            a.finalize();
          else if (x == 'D')
            a.destroy();
          look(tok++);
        }
        if (a.exists())
          a.destroy();
        if (k.mode) {
          auto f = parse(slurp(path(slot)), true);
          res.final_[slot].push_back(f);
          res.snaps[slot].push_back(snap);
          long span = usNow() - before;
          if (!f.recs.empty())
            ctx.require(f.recs.back().t <= span + 1000 && f.recs[0].t >= 0, "time", [&] { return "the run took " + std::to_string(span) + " us, the file says " + std::to_string(f.recs.back().t); });
        }
      }
    },
          policy(i));
    res.ok = s.clean(ctx, describe(k));
    return res;
  };
  auto checkFiles = [&](CaseCtx &ctx, const Case &k, const Result &res) {
    if (!k.mode)
      return;
    for (auto &f : res.partner)
      ctx.require(f.error.empty(), "format", [&] { return "file of B: " + f.error; });
    for (int r = 0; r < k.ranks; ++r) {
      auto names = userNames(k.script[r]);
      bool ends  = k.script[r].find_first_of("FD") != std::string::npos;
      auto m     = model(k.script[r] + (ends ? "" : "D"), k.mode);
      for (int run = 0; run < k.runs; ++run) {
        auto &f  = res.final_[r][run];
        auto  id = [&] { return "rank " + std::to_string(r) + " run " + std::to_string(run) + " of " + describe(k) + ": "; };
        ctx.require(f.error.empty(), "format", [&] { return id() + f.error; });
        if (!f.error.empty())
          return;
        std::vector<Rec> want;
        for (auto &t : m)
          want.insert(want.end(), t.visible.begin(), t.visible.end());
        auto got = visible(f.recs, names, true);
        ctx.require(got == want, "events", [&] { return id() + "recorded " + show(got) + " expected " + show(want); });
        // sizes of the provided meshes
        if (k.script[r].find('I') != std::string::npos) {
          long n = 0, found = -1;
          for (char x : k.script[r].substr(0, k.script[r].find('I')))
            n += x == 'v';
          for (auto &x : f.recs)
            if (x.type == 'D' && x.name == "initialize" && x.key == "meshSizeMA")
              found = x.value;
          ctx.require(found == n, "data", [&] { return id() + "meshSizeMA is " + std::to_string(found) + " expected " + std::to_string(n); });
        }
        // durations
        {
          size_t j = 0;
          for (size_t t = 0; t < m.size() && got == want; ++t) {
            if (m[t].c == 's' && j > 0) {
              // the events around the sleep
              std::vector<Rec> at = got;
              long             d  = (j < at.size() ? at[j].t : f.recs.back().t) - at[j - 1].t;
              ctx.require(d >= 2000 && d < 60000000, "time", [&] { return id() + "2 ms are recorded as " + std::to_string(d) + " us"; });
            }
            j += m[t].visible.size();
          }
        }
        // after every call
        auto       &snap = res.snaps[r][run];
        std::string fin  = r == 0 && run + 1 == k.runs ? slurp(res.path0) : "";
        size_t      seen = 0;
        for (size_t t = 0; t < snap.size(); ++t) {
          auto p = parse(snap[t], false);
          ctx.require(p.error.empty(), "prefix", [&] { return id() + "after call " + std::to_string(t) + ": " + p.error; });
          if (!fin.empty())
            ctx.require(fin.compare(0, snap[t].size(), snap[t]) == 0, "prefix", [&] { return id() + "what is in the file after call " + std::to_string(t) + " is not the beginning of the final file"; });
          seen += m[t].visible.size();
          bool over = false;
          for (size_t q = 0; q <= t; ++q)
            over = over || m[q].c == 'F' || m[q].c == 'D';
          if (k.flush == 0 && !over)
            ctx.require(p.recs.empty(), "flush", [&] { return id() + "there are records in the file after call " + std::to_string(t) + " though they are kept until the end"; });
          if (k.flush == 1 || over) {
            auto v = visible(p.recs, names, over);
            ctx.require(v.size() == seen || (v.size() == seen && v == std::vector<Rec>(want.begin(), want.begin() + seen)), "flush",
                        [&] { return id() + "after call " + std::to_string(t) + " the file shows " + show(v) + " of " + show(std::vector<Rec>(want.begin(), want.begin() + seen)); });
          }
          ctx.state(mix(mix(1, snap[t].size()), static_cast<uint64_t>(p.recs.size())));
        }
        for (auto &x : f.recs) {
          ctx.observe(x.name);
          ctx.observe(static_cast<uint64_t>(x.type));
        }
        ctx.outcome(ctx.digest);
      }
    }
    ctx.count("files", k.ranks * k.runs);
  };
  /// one sequence of calls with all modes and flush intervals
  auto runAll = [&](CaseCtx &ctx, uint64_t i, Case k, bool allFlush) {
    std::vector<std::vector<std::vector<Rec>>> byMode(4);
    for (int mode = 0; mode < 4; ++mode) {
      std::vector<std::vector<Rec>>   first;
      std::vector<std::vector<std::string>> every; // contents after every call, flush 1
      for (int flush : allFlush ? std::vector<int>{1, 0, 2, 3, 7, 50} : std::vector<int>{1, k.flush}) {
        Case q  = k;
        q.mode  = mode;
        q.flush = flush;
        auto res = execute(ctx, i, q, "", -1);
        if (!res.ok)
          return;
        checkFiles(ctx, q, res);
        if (mode == 0)
          break;
        if (!ctx.violations.empty())
          return;
        std::vector<std::vector<Rec>> recs;
        for (auto &r : res.final_)
          recs.push_back(r[0].recs);
        if (first.empty()) {
          first = recs;
          every.clear();
          for (auto &r : res.snaps)
            every.push_back(r[0]);
        }
        ctx.require(recs == first, "flush", [&] { return describe(q) + ": the records depend on flush-every: " + show(recs[0]) + " or " + show(first[0]); });
        if (flush >= 2)
          for (int r = 0; r < q.ranks; ++r)
            for (size_t t = 0; t < res.snaps[r][0].size(); ++t) {
              auto now = parse(every[r][t], false).recs;
              if (now.empty() || now.back().type == 'B')
                continue; // a flush is not started by the begin of an event
              long a = now.size(), b = parse(res.snaps[r][0][t], false).recs.size();
              ctx.require(a - b <= flush, "flush", [&] { return describe(q) + ": after call " + std::to_string(t) + " of rank " + std::to_string(r) + " " + std::to_string(a - b) + " records are kept in memory"; });
            }
      }
      byMode[mode] = first;
    }
    for (int r = 0; r < k.ranks; ++r) {
      auto api = byMode[2][r];
      auto isApi = [&](const Rec &x) {
        for (auto a : API)
          if (x.name == a)
            return true;
        return false;
      };
      api.erase(std::remove_if(api.begin(), api.end(), isApi), api.end());
      ctx.require(api == byMode[1][r], "modes", [&] { return describe(k) + ": mode api without the calls for meshes and data records " + show(api) + " but mode fundamental " + show(byMode[1][r]); });
      ctx.require(subsequence(byMode[2][r], byMode[3][r]), "modes", [&] { return describe(k) + ": mode all lacks events of mode api: " + show(byMode[3][r]) + " and " + show(byMode[2][r]); });
    }
  };

  // words of sections and other calls that leave no section open (unless open)
  auto words = [](const std::string &alphabet, int depth, bool open) {
    std::vector<std::string> r, level{""};
    for (int d = 0; d <= depth; ++d) {
      std::vector<std::string> next;
      for (auto &w : level) {
        int n = 0;
        for (char x : w)
          n += sectionOf(x) >= 0 ? 1 : x == 'x' ? -1 : 0;
        if (n == 0 || open)
          r.push_back(w);
        for (char x : alphabet)
          if (x != 'x' || n > 0)
            next.push_back(w + x);
      }
      level = next;
    }
    return r;
  };
  auto stage = [&](const char *name, uint64_t n, auto make, bool allFlush) {
    c.stage(name, n, [=](uint64_t i) { return describe(make(i)); }, [=](CaseCtx &ctx, uint64_t i) { runAll(ctx, i, make(i), allFlush); });
  };
  // sections: every sequence of sections and other calls in one phase of the run
  {
    std::vector<std::string> scripts;
    int                      d = big ? 5 : 4;
    for (auto &w : words("01xv", d, false))
      scripts.push_back("v" + w + "I>F");
    for (auto &w : words("01xwr", d, false))
      scripts.push_back("vI" + w + ">>F");
    for (auto &w : words("01xw", d, true))
      scripts.push_back("vI>" + w + "F");
    for (auto &w : words("01xr", d - 1, true))
      scripts.push_back("vI>" + w + "D");
    for (auto &w : words("01xv", d - 1, true)) {
      scripts.push_back("v" + w + "F");
      scripts.push_back(w + "D");
    }
    stage("sections", scripts.size(), [=](uint64_t i) {
      Case k;
      k.script[0] = scripts[i];
      return k;
    },
          true);
  }
  // names: unusual names of sections, alone, nested and in sequence
  {
    std::vector<std::string> scripts;
    for (char a : std::string("0123456789A"))
      for (char b : std::string("0123456789A")) {
        std::string A(1, a), B(1, b);
        scripts.push_back("v" + A + B + "xxI" + A + "x>" + B + A + "xxF");
        scripts.push_back("vI" + A + "x" + B + "x>" + B + "F");
      }
    stage("names", scripts.size(), [=](uint64_t i) {
      Case k;
      k.script[0] = scripts[i];
      k.flush     = 0;
      return k;
    },
          false);
  }
  // line break: a name that does not fit into a line
  {
    Case k;
    k.script[0] = "vBxI>F";
    c.stage("linebreak", 1, [=](uint64_t) { return describe(k); }, [=](CaseCtx &ctx, uint64_t i) {
      runAll(ctx, i, k, false);
      for (auto &v : ctx.violations)
        if (v.first == "format" || v.first == "prefix" || v.first == "events")
          v.first = "line break in a section name";
    });
  }
  // ranks: both ranks of a participant with their own sections, with and without synchronization, directories, several runs
  {
    std::vector<std::string> pre = {"", "0x", "01xx"}, mid = {"", "w", "1x", "0wx", "10xrx"}, fin = {"", "0", "01"};
    std::vector<Case>        all;
    for (size_t a = 0; a < pre.size() * mid.size() * fin.size(); ++a)
      for (size_t b = 0; b < pre.size() * mid.size() * fin.size(); ++b) {
        if (!big && (a * 7 + b) % 5)
          continue;
        Case k;
        k.ranks    = 2;
        auto build = [&](size_t x, int verts) {
          Digits d(x);
          auto   p = pre[d(pre.size())], q = mid[d(mid.size())], f = fin[d(fin.size())];
          return std::string(verts, 'v') + p + "I" + q + ">" + q + ">" + f + "F";
        };
        k.script[0] = build(a, 1);
        k.script[1] = build(b, 2);
        k.sync      = (a + b) % 2;
        k.flush     = 3;
        all.push_back(k);
      }
    stage("ranks", all.size(), [=](uint64_t i) { return all[i]; }, false);
  }
  {
    std::vector<Case> all;
    for (int runs : {1, 2, 3})
      for (std::string dir : {".", "out", "out/deep/er", "./x"})
        for (bool sync : {false, true})
          for (int ranks : {1, 2})
            for (std::string sc : {"v0xI0wsx>rsF", "v0sF", "vIsD", "v0D", "vI>0s1D"}) {
              if (ranks == 2 && sc.find('I') == std::string::npos)
                continue;
              Case k;
              k.runs = runs;
              k.dir = dir;
              k.sync = sync;
              k.ranks = ranks;
              k.script[0] = k.script[1] = sc;
              k.flush = 50;
              all.push_back(k);
            }
    stage("runs", all.size(), [=](uint64_t i) { return all[i]; }, false);
  }
  // tool: the program dies after a call; precice-profiling reads what is there
  {
    std::vector<Case> all;
    std::vector<int>  at;
    for (std::string sc : {"v0xI0wx>1r0xx>6x7xF", "v0vxI>01w", "v", "v01"})
      for (int mode : {1, 3})
        for (int flush : {1, 3})
          for (int ranks : {1, 2})
            for (size_t t = 0; t < sc.size(); ++t) {
              if (ranks == 2 && sc.find('I') == std::string::npos)
                continue;
              if (!big && (mode == 1) != (flush == 1))
                continue;
              Case k;
              k.mode = mode;
              k.flush = flush;
              k.ranks = ranks;
              k.script[0] = k.script[1] = sc;
              all.push_back(k);
              at.push_back(static_cast<int>(t));
            }
    c.stage("tool", all.size(), [=](uint64_t i) { return describe(all[i]) + " dies after call " + std::to_string(at[i]); }, [=](CaseCtx &ctx, uint64_t i) {
      std::string crash = ctx.dir + "/crash", db = ctx.dir + "/out.db", txt = ctx.dir + "/out.txt";
      auto        res   = execute(ctx, i, all[i], crash, at[i]);
      if (!res.ok)
        return;
      checkFiles(ctx, all[i], res);
      std::string cmd = std::string("python3 '") + PROFILING_TOOL + "' merge -n -o '" + db + "' '" + crash + "' > '" + ctx.dir + "/tool.log' 2>&1 && python3 '" + PROFILING_DUMP + "' '" + db + "' > '" + txt + "' 2>> '" + ctx.dir + "/tool.log'";
      int         rc  = std::system(cmd.c_str());
      ctx.require(rc == 0, "tool", [&] { return "precice-profiling fails: " + slurp(ctx.dir + "/tool.log").substr(250); });
      if (rc)
        return;
      std::map<std::string, int> got, want;
      std::istringstream         in(slurp(txt));
      std::string                line;
      while (std::getline(in, line)) { // count TAB minimal duration TAB participant TAB rank TAB event
        auto t1 = line.find('\t'), t2 = line.find('\t', t1 + 1);
        got[line.substr(t2 + 1)] = std::atoi(line.c_str());
        ctx.require(std::atol(line.c_str() + t1 + 1) >= 0, "tool", [&] { return "negative duration: " + line; });
      }
      for (auto &e : std::filesystem::directory_iterator(crash)) {
        auto n = e.path().filename().string();
        auto f = parse(slurp(e.path().string()), false);
        for (auto &[name, num] : merged(f))
          want[n.substr(0, 1) + "\t" + n.substr(2, 1) + "\t" + name] = num;
      }
      auto diff = [&] {
        std::string o;
        for (auto &[n, v] : want)
          if (!got.count(n) || got[n] != v)
            o += " missing " + n + "*" + std::to_string(v);
        for (auto &[n, v] : got)
          if (!want.count(n))
            o += " extra " + n;
        return o;
      };
      ctx.require(got == want, "tool", [&] { return "precice-profiling reports other events:" + diff(); });
      ctx.observe(static_cast<uint64_t>(want.size()));
      std::error_code ec;
      std::filesystem::remove_all(crash, ec);
    });
  }
  return c.finish();
}
