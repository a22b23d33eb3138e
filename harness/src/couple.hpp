// Coupled-execution scenarios: XML generation, the reference model of the coupling, the solver driver
// (documented adapter loop) run against the real library, and the comparison of every observation.
#pragma once
#include "campaign.hpp"
#include "qnref.hpp"
#include "sched.hpp"
#include "wave.hpp"
#include <array>
#include <cmath>
#include <limits>
#include <optional>

namespace verif {

enum class Scheme { SE,
                    PE,
                    SI,
                    PI,
                    Multi };
inline bool        isImplicit(Scheme s) { return s == Scheme::SI || s == Scheme::PI || s == Scheme::Multi; }
inline bool        isSerial(Scheme s) { return s == Scheme::SE || s == Scheme::SI; }
inline const char *schemeTag(Scheme s)
{
  switch (s) {
  case Scheme::SE:
    return "serial-explicit";
  case Scheme::PE:
    return "parallel-explicit";
  case Scheme::SI:
    return "serial-implicit";
  case Scheme::PI:
    return "parallel-implicit";
  default:
    return "multi";
  }
}

struct Exchange {
  int  from = 0, to = 1;
  bool init     = false;
  bool substeps = true;
  int  degree   = 1;
  int  dims     = 1;    // 1 scalar, 2/3 vector
  char mode     = 'r';  // 'r': receiver maps (read-consistent); 'w': sender maps (write-conservative)
  int  sub      = 0;    // composition: the coupling scheme it belongs to
  int  data     = -1;   // shares the data of this earlier exchange (same sender, mode 'r')
  double lower[3] = {-1e300, -1e300, -1e300}, upper[3] = {1e300, 1e300, 1e300}; // bounds of the components
};
/// one coupling scheme of a composition
struct Sub {
  Scheme           scheme = Scheme::PE;
  int              first = 0, second = 1;
  std::vector<int> parts; // multi
  int              controller = -1;
  double           size       = -1; // window size if the schemes have different ones
};
struct Measure {
  char   type = 'a'; // a absolute, r relative, q residual-relative, o absolute-or-relative
  int    ex   = 0;
  double limit = 1e-3, rel = 1e-3;
  bool   suffices = false, strict = false;
};
struct Accel {
  char             type  = 'n'; // n none, c constant, a aitken, q IQN-ILS, x: verbatim XML (values not predicted)
  double           omega = 0.5;
  std::vector<int> data; // exchanges
  std::string      xml;
  QNConfig         qn;
  char             pre = 0; // preconditioner: 0 default, c, v, r, s
  bool             threshold = true;
  int              freeze = -1;
  std::vector<double> scaling; // of data
  bool             explicitDefaults = true; // qn: write down all parameters
};

struct Scenario {
  Scheme                scheme = Scheme::PE;
  int                   nParts = 2;
  std::vector<int>      ranks{1, 1};
  int                   controller = -1; // multi only
  int                   second     = 1;  // for two participants: which one is the second
  int                   acceptor   = 0;  // m2n: participant which accepts
  bool                  firstMethod = false;
  double                size        = 1.0;
  int                   maxWindows  = -1;
  double                maxTime     = -1;
  std::vector<Exchange> ex;
  std::vector<Sub>      subs; // composition; all of the same window size, at most one implicit
  std::vector<Measure>  measures;
  int                   minIt = 1, maxIt = 2;
  Accel                 accel;
  int                   V = 2; // vertices per mesh
  std::string           m2nExtra;
  bool                  predictValues = true;
  bool                  checkLogs     = false;
  int                   xdim          = 2;
  bool                  emptyRanks    = false; // all vertices on the last rank
  std::string           tag;                   // feature of the scenario; part of the key of a violation
  bool                  onlyTag = false;       // the tag is the whole key
  bool                  wait    = false;       // wait-in-finalize
  int                   implicitEnd = 0;       // bit p: participant p is destroyed without finalize()
  bool                  connectivity = false;  // the own vertices of a rank form a chain of edges (2D) or a strip of triangles (3D)
  std::function<std::string(int p)> extra = [](int) { return std::string(); }; // XML inside of the participant

  /// fractions of the window; the last step always goes to the end of the window
  std::function<std::vector<double>(int p, int w, int k)> plan = [](int, int, int) { return std::vector<double>{1.0}; };
  /// value written by the solver for data e in window w, iteration k, step s at vertex v component c
  std::function<double(int e, int w, int k, int s, int v, int c, const Vec &read)> value =
      [](int e, int w, int k, int s, int v, int c, const Vec &) { return (e + 1) * 1000.0 + w * 100 + k * 10 + s + v * 0.125 + c * 0.03125; };
  std::function<double(int e, int v, int c)> initial =
      [](int e, int v, int c) { return -(e + 1) * 7.0 - v * 0.125 - c * 0.03125; };
  /// first-participant method: size of window w
  std::function<double(int w)> firstSize = [](int) { return 1.0; };

  static std::string pname(int p) { return std::string(1, static_cast<char>('A' + p)); }
  static std::string dname(int e) { return "D" + std::to_string(e); }
  int                dataOf(int e) const { return ex[e].data < 0 ? e : ex[e].data; }
  std::string        dn(int e) const { return dname(dataOf(e)); }
  bool               owns(int e) const { return ex[e].data < 0; }
  bool               implicitPart(int p) const
  {
    if (subs.empty())
      return isImplicit(scheme);
    for (auto &s : subs)
      if (isImplicit(s.scheme)) {
        if (s.scheme == Scheme::Multi) {
          if (std::count(s.parts.begin(), s.parts.end(), p))
            return true;
        } else if (s.first == p || s.second == p)
          return true;
      }
    return false;
  }
  std::array<double, 3> position(int v) const
  {
    if (connectivity) // edges and triangles of different sizes
      return {v + 0.25 * v * v, xdim == 3 ? 0.5 * v * v : 0.0, 0.0};
    return {double(v), 0.0, 0.0};
  }
  /// length or area associated to the vertices a rank of participant p owns
  Vec areas(int p) const
  {
    Vec area(V, 0.0);
    for (int r = 0; r < ranks[p]; ++r) {
      std::vector<int> mine;
      for (int v = 0; v < V; ++v)
        if (owner(p, v) == r)
          mine.push_back(v);
      for (size_t i = xdim - 1; i < mine.size(); ++i) {
        auto a = position(mine[i - 1]), b = position(mine[i]);
        if (xdim == 2) {
          double l = std::hypot(a[0] - b[0], a[1] - b[1]);
          area[mine[i - 1]] += l / 2, area[mine[i]] += l / 2;
        } else {
          auto   c = position(mine[i - 2]);
          double f = std::fabs((a[0] - c[0]) * (b[1] - c[1]) - (b[0] - c[0]) * (a[1] - c[1])) / 2;
          for (int q : {mine[i - 2], mine[i - 1], mine[i]})
            area[q] += f / 3;
        }
      }
    }
    return area;
  }
  static std::string mname(int p) { return "M" + pname(p); }
  int                exMesh(int e) const { return ex[e].mode == 'r' ? ex[e].from : ex[e].to; }
  bool               isSecond(int p) const { return scheme == Scheme::Multi ? p == controller : p == second; }
  int                owner(int p, int v) const
  {
    if (emptyRanks)
      return ranks[p] - 1;
    return (v + p) % ranks[p];
  }

  static std::string boundsOf(const Exchange &e)
  {
    std::ostringstream o;
    for (int c = 0; c < 3; ++c)
      for (int side = 0; side < 2; ++side) {
        double b = side ? e.upper[c] : e.lower[c];
        if (std::fabs(b) < 1e299)
          o << (side ? " upper-bound" : " lower-bound") << (e.dims == 1 ? "" : c == 0 ? "-x" : c == 1 ? "-y" : "-z") << "=\"" << b << "\"";
      }
    return o.str();
  }
  std::string xml() const
  {
    std::ostringstream o;
    o.precision(17);
    o << "<?xml version=\"1.0\"?>\n<precice-configuration" << (wait ? " wait-in-finalize=\"true\"" : "") << ">\n<log enabled=\"false\"/>\n<profiling mode=\"off\"/>\n";
    for (size_t e = 0; e < ex.size(); ++e)
      if (owns(e))
        o << "<data:" << (ex[e].dims == 1 ? "scalar" : "vector") << " name=\"" << dname(e) << "\" waveform-degree=\"" << ex[e].degree << "\"" << boundsOf(ex[e]) << "/>\n";
    for (int p = 0; p < nParts; ++p) {
      o << "<mesh name=\"" << mname(p) << "\" dimensions=\"" << xdim << "\">";
      for (size_t e = 0; e < ex.size(); ++e)
        if ((ex[e].from == p && owns(e)) || ex[e].to == p)
          o << "<use-data name=\"" << dn(e) << "\"/>";
      o << "</mesh>\n";
    }
    for (int p = 0; p < nParts; ++p) {
      o << "<participant name=\"" << pname(p) << "\">\n<provide-mesh name=\"" << mname(p) << "\"/>\n";
      std::set<int> recv, rmaps, wmaps;
      for (size_t e = 0; e < ex.size(); ++e) {
        if (ex[e].to == p && ex[e].mode == 'r') {
          recv.insert(ex[e].from);
          rmaps.insert(ex[e].from);
        }
        if (ex[e].from == p && ex[e].mode == 'w') {
          recv.insert(ex[e].to);
          wmaps.insert(ex[e].to);
        }
      }
      for (int q : recv)
        o << "<receive-mesh name=\"" << mname(q) << "\" from=\"" << pname(q) << "\"/>\n";
      for (int q : rmaps)
        o << "<mapping:nearest-neighbor direction=\"read\" from=\"" << mname(q) << "\" to=\"" << mname(p) << "\" constraint=\"consistent\"/>\n";
      for (int q : wmaps)
        o << "<mapping:nearest-neighbor direction=\"write\" from=\"" << mname(p) << "\" to=\"" << mname(q) << "\" constraint=\"conservative\"/>\n";
      for (size_t e = 0; e < ex.size(); ++e) {
        if (ex[e].from == p && owns(e))
          o << "<write-data name=\"" << dn(e) << "\" mesh=\"" << mname(p) << "\"/>\n";
        if (ex[e].to == p)
          o << "<read-data name=\"" << dn(e) << "\" mesh=\"" << mname(p) << "\"/>\n";
      }
      o << extra(p) << "</participant>\n";
    }
    std::set<std::pair<int, int>> pairs;
    for (auto &e : ex)
      pairs.insert({std::min(e.from, e.to), std::max(e.from, e.to)});
    if (subs.empty() && scheme == Scheme::Multi)
      for (int p = 0; p < nParts; ++p)
        if (p != controller)
          pairs.insert({std::min(p, controller), std::max(p, controller)});
    for (auto [a, b] : pairs)
      o << "<m2n:sockets acceptor=\"" << pname(acceptor ? b : a) << "\" connector=\"" << pname(acceptor ? a : b) << "\" " << m2nExtra << "/>\n";
    std::vector<Sub> schemes = subs;
    if (schemes.empty()) {
      Sub b{scheme, 1 - second, second, {}, controller, -1};
      for (int p = 0; p < nParts; ++p)
        b.parts.push_back(p);
      schemes = {b};
    }
    for (size_t si = 0; si < schemes.size(); ++si) {
    auto &sb = schemes[si];
    o << "<coupling-scheme:" << schemeTag(sb.scheme) << ">\n";
    if (sb.scheme == Scheme::Multi) {
      for (int p : sb.parts)
        o << "<participant name=\"" << pname(p) << "\"" << (p == sb.controller ? " control=\"yes\"" : "") << "/>\n";
    } else
      o << "<participants first=\"" << pname(sb.first) << "\" second=\"" << pname(sb.second) << "\"/>\n";
    if (maxTime > 0)
      o << "<max-time value=\"" << maxTime << "\"/>\n";
    if (maxWindows > 0)
      o << "<max-time-windows value=\"" << maxWindows << "\"/>\n";
    if (firstMethod)
      o << "<time-window-size method=\"first-participant\"/>\n";
    else
      o << "<time-window-size value=\"" << (sb.size > 0 ? sb.size : size) << "\"/>\n";
    for (size_t e = 0; e < ex.size(); ++e)
      if (subs.empty() || ex[e].sub == static_cast<int>(si))
        o << "<exchange data=\"" << dn(e) << "\" mesh=\"" << mname(exMesh(e)) << "\" from=\"" << pname(ex[e].from) << "\" to=\"" << pname(ex[e].to)
        << "\" initialize=\"" << (ex[e].init ? "yes" : "no") << "\" substeps=\"" << (ex[e].substeps ? "yes" : "no") << "\"/>\n";
    if (isImplicit(sb.scheme)) {
      if (maxIt > 0)
        o << "<max-iterations value=\"" << maxIt << "\"/>\n";
      if (minIt > 1)
        o << "<min-iterations value=\"" << minIt << "\"/>\n";
      for (auto &m : measures) {
        std::string a = " data=\"" + dn(m.ex) + "\" mesh=\"" + mname(exMesh(m.ex)) + "\" suffices=\"" + (m.suffices ? "yes" : "no") + "\" strict=\"" + (m.strict ? "yes" : "no") + "\"";
        switch (m.type) {
        case 'a':
          o << "<absolute-convergence-measure limit=\"" << m.limit << "\"" << a << "/>\n";
          break;
        case 'r':
          o << "<relative-convergence-measure limit=\"" << m.limit << "\"" << a << "/>\n";
          break;
        case 'q':
          o << "<residual-relative-convergence-measure limit=\"" << m.limit << "\"" << a << "/>\n";
          break;
        default:
          o << "<absolute-or-relative-convergence-measure abs-limit=\"" << m.limit << "\" rel-limit=\"" << m.rel << "\"" << a << "/>\n";
        }
      }
      auto accData = [&] {
        std::string s;
        for (size_t i = 0; i < accel.data.size(); ++i) {
          int e = accel.data[i];
          s += "<data name=\"" + dn(e) + "\" mesh=\"" + mname(exMesh(e)) + "\"" + (accel.scaling.empty() ? "" : " scaling=\"" + std::to_string(accel.scaling[i]) + "\"") + "/>";
        }
        if (accel.pre) {
          s += std::string("<preconditioner type=\"") + (accel.pre == 'c' ? "constant" : accel.pre == 'v' ? "value" : accel.pre == 'r' ? "residual" : "residual-sum") + "\" freeze-after=\"" + std::to_string(accel.freeze) + "\"";
          if (accel.pre == 's' && accel.type == 'q')
            s += std::string(" update-on-threshold=\"") + (accel.threshold ? "true" : "false") + "\"";
          s += "/>";
        }
        return s;
      };
      if (accel.type == 'c')
        o << "<acceleration:constant><relaxation value=\"" << accel.omega << "\"/></acceleration:constant>\n";
      else if (accel.type == 'a')
        o << "<acceleration:aitken>" << accData() << "<initial-relaxation value=\"" << accel.omega << "\"/></acceleration:aitken>\n";
      else if (accel.type == 'q') {
        auto &q = accel.qn;
        o << "<acceleration:IQN-ILS";
        if (!q.reduced)
          o << " reduced-time-grid=\"false\"";
        if (q.bound != 'i')
          o << " on-bound-violation=\"" << (q.bound == 'c' ? "clamp" : q.bound == 'd' ? "discard" : "scale") << "\"";
        o << ">" << accData();
        if (accel.explicitDefaults)
          o << "<initial-relaxation value=\"" << q.omega << "\" enforce=\"" << (q.enforce ? "true" : "false") << "\"/><max-used-iterations value=\"" << q.maxUsed << "\"/><time-windows-reused value=\"" << q.reused << "\"/><filter type=\""
            << (q.filter == 1 ? "QR1" : q.filter == -1 ? "QR1-absolute" : q.filter == 2 ? "QR2" : "QR3") << "\" limit=\"" << q.limit << "\"/>";
        o << "</acceleration:IQN-ILS>\n";
      } else if (accel.type == 'x')
        o << accel.xml << "\n";
    }
    o << "</coupling-scheme:" << schemeTag(sb.scheme) << ">\n";
    }
    o << "</precice-configuration>\n";
    return o.str();
  }
};

/// One observation made by a solver
struct Obs {
  std::string what;
  double      x = 0; // scalar observation
  Vec         v;     // field (all vertices, global order) or empty
  bool        isField = false;
};

struct Expectation {
  std::vector<std::vector<Obs>> part; // per participant
  std::string                   error; // non-empty: the run must fail with precice::Error (strict measure)
  std::vector<std::vector<double>> iterLog, convLog, qnLog; // rows
  long windows = 0, iterations = 0, exchanges = 0;
  std::vector<uint64_t> states;
  bool close = false;     ///< a decision of the acceleration depends on rounding
  bool stagnates = false; ///< Aitken: residuals of two iterations are the same
  long columns = 0, removed = 0, violated = 0; ///< quasi-Newton
};

/// The reference model: what the documented coupling semantics prescribe
class Model {
public:
  const Scenario &sc;
  explicit Model(const Scenario &s)
      : sc(s) {}
  /// called with the index of each predicted value, the waveform and the time it is read at
  std::function<void(int p, size_t at, const Wave &w, double t)> onRead;

  Expectation run()
  {
    if (!sc.subs.empty())
      return runComposite();
    Expectation out;
    x = &out;
    int N = sc.nParts, E = static_cast<int>(sc.ex.size());
    out.part.resize(N);
    S.resize(E);
    R.resize(E);
    for (int e = 0; e < E; ++e) {
      S[e].degree = R[e].degree = sc.ex[e].degree;
      Vec z(sc.V * dimsOf(e), 0.0), in = z;
      if (sc.ex[e].init)
        for (int v = 0; v < sc.V; ++v)
          for (int c = 0; c < dimsOf(e); ++c)
            in[v * dimsOf(e) + c] = sc.initial(sc.dataOf(e), v, c);
      S[e].s = {{0.0, in}};
      R[e].s = {{0.0, in}};
    }
    for (int p = 0; p < N; ++p) {
      bool need = false;
      for (auto &e : sc.ex)
        need = need || (e.from == p && e.init);
      obs(p, "requiresInitialData", need);
    }
    // the iterate before the first one; for received data it is zero, also if there is initial data (a unit
    // test of the repository asserts this)
    prevS = S;
    prevR = R;
    for (auto &r : prevR)
      for (auto &smp : r.s)
        std::fill(smp.second.begin(), smp.second.end(), 0.0);
    double ws    = 0;
    int    w     = 1;
    long   total = 0;
    bool   imp   = isImplicit(sc.scheme);
    for (int p = 0; p < N; ++p) {
      obs(p, "ongoing", 1);
      obs(p, "timeWindowComplete", 0);
    }
    if (imp)
      for (int p = 0; p < N; ++p)
        obs(p, "writeCheckpoint", 1);
    else
      for (int p = 0; p < N; ++p)
        obs(p, "writeCheckpoint", 0);
    while (true) {
      double len = sc.firstMethod ? sc.firstSize(w) : sc.size;
      double end = ws + len;
      if (sc.maxTime > 0 && (end > sc.maxTime || teq(end, sc.maxTime)))
        end = sc.maxTime;
      newSeries();
      for (int k = 1;; ++k) {
        ++total;
        out.iterations++;
        bool ongoingIfConverged = !((sc.maxWindows > 0 && w >= sc.maxWindows) || (sc.maxTime > 0 && teq(end, sc.maxTime)));
        if (k > 1)
          for (int e = 0; e < E; ++e)
            S[e].keepFirst();
        std::vector<int> firsts, seconds;
        for (int p = 0; p < N; ++p)
          (sc.isSecond(p) ? seconds : firsts).push_back(p);
        for (int p : firsts)
          steps(p, w, k, ws, end);
        if (isSerial(sc.scheme))
          transferInto(seconds, end);
        for (int p : seconds)
          steps(p, w, k, ws, end);
        if (!isSerial(sc.scheme))
          transferInto(seconds, end);
        bool converged = true;
        if (imp) {
          std::vector<double> row{double(w), double(k)};
          converged = measure(k, row);
          out.convLog.push_back(row);
          if (!x->error.empty())
            return out;
          if (k == sc.maxIt)
            converged = true;
          if (!converged)
            accelerate(ws, end);
          else
            acceptWindow(ws);
        }
        for (int p : firsts)
          transferInto({p}, end);
        if (converged) {
          if (imp) {
            double conv = k >= sc.minIt && (sc.maxIt < 0 || k < sc.maxIt);
            out.iterLog.push_back({double(w), double(total), double(k), conv});
            if (sc.accel.type == 'q')
              out.qnLog.push_back({double(qn.V.size()), double(qn.deleted), double(qn.dropped)});
          }
          for (int e = 0; e < E; ++e) {
            S[e].keepLast();
            R[e].keepLast();
          }
        }
        prevS = S;
        prevR = R;
        uint64_t h = mix(mix(mix(7, uint64_t(w)), uint64_t(k)), end);
        for (int e = 0; e < E; ++e)
          for (auto *wv : {&S[e], &R[e]})
            for (auto &sm : wv->s) {
              h = mix(h, sm.first);
              for (double d : sm.second)
                h = mix(h, d);
            }
        h = mix(h, uint64_t(sc.scheme) * 8 + converged);
        out.states.push_back(h);
        bool on = converged ? ongoingIfConverged : true;
        for (int p = 0; p < N; ++p) {
          obs(p, "readCheckpoint", imp && !converged);
          obs(p, "timeWindowComplete", converged);
          obs(p, "ongoing", on);
          obs(p, "writeCheckpoint", imp && converged && on);
        }
        if (converged) {
          if (!on) {
            for (int p = 0; p < N; ++p) {
              obs(p, "maxdt", 0);
              readsAt(p, end, 0.0, "end");
            }
            out.windows = w;
            return out;
          }
          ws = end;
          ++w;
          break;
        }
      }
    }
  }
  int dimsOf(int e) const { return sc.ex[e].dims == 1 ? 1 : sc.xdim; }

  /// Several schemes of the same window size: in each window the participants run in the order of the serial
  /// schemes; what a first participant sends reaches the second before its window, everything else when the
  /// window is complete; explicit schemes wait while the implicit one iterates.
  Expectation runComposite()
  {
    Expectation out;
    x = &out;
    int N = sc.nParts, E = static_cast<int>(sc.ex.size());
    out.part.resize(N);
    S.resize(E);
    R.resize(E);
    for (int e = 0; e < E; ++e) {
      S[e].degree = R[e].degree = sc.ex[e].degree;
      Vec z(sc.V * dimsOf(e), 0.0), in = z;
      if (sc.ex[e].init)
        for (int v = 0; v < sc.V; ++v)
          for (int c = 0; c < dimsOf(e); ++c)
            in[v * dimsOf(e) + c] = sc.initial(sc.dataOf(e), v, c);
      S[e].s = R[e].s = {{0.0, in}};
    }
    int imp = -1;
    for (size_t i = 0; i < sc.subs.size(); ++i)
      if (isImplicit(sc.subs[i].scheme))
        imp = static_cast<int>(i);
    for (int p = 0; p < N; ++p) {
      bool need = false;
      for (auto &e : sc.ex)
        need = need || (e.from == p && e.init);
      obs(p, "requiresInitialData", need);
      obs(p, "ongoing", 1);
      obs(p, "timeWindowComplete", 0);
      obs(p, "writeCheckpoint", sc.implicitPart(p));
    }
    // groups in topological order
    std::vector<int> group(N);
    int              G = 0, impGroup = -1;
    for (int p = 0; p < N; ++p)
      if (sc.implicitPart(p)) {
        if (impGroup < 0)
          impGroup = G++;
        group[p] = impGroup;
      } else
        group[p] = G++;
    std::vector<int> order;
    std::set<int>    placed;
    while (static_cast<int>(order.size()) < G) {
      bool any = false;
      for (int g = 0; g < G; ++g) {
        if (placed.count(g))
          continue;
        bool free = true;
        for (auto &s : sc.subs)
          if (s.scheme == Scheme::SE && group[s.second] == g && !placed.count(group[s.first]) && group[s.first] != g)
            free = false;
        if (free) {
          order.push_back(g);
          placed.insert(g);
          any = true;
        }
      }
      if (!any)
        throw std::runtime_error("cyclic serial composition");
    }
    auto move = [&](int e, double end) {
      x->exchanges++;
      if (sc.ex[e].substeps)
        R[e].s = S[e].s;
      else
        R[e].put(end, S[e].back());
    };
    double ws = 0;
    for (int w = 1;; ++w) {
      double end = ws + sc.size;
      if (sc.maxTime > 0 && (end > sc.maxTime || teq(end, sc.maxTime)))
        end = sc.maxTime;
      bool on = !((sc.maxWindows > 0 && w >= sc.maxWindows) || (sc.maxTime > 0 && teq(end, sc.maxTime)));
      for (int g : order) {
        for (int e = 0; e < E; ++e) {
          auto &s = sc.subs[sc.ex[e].sub];
          if (s.scheme == Scheme::SE && group[sc.ex[e].to] == g && sc.ex[e].to == s.second)
            move(e, end);
        }
        if (g != impGroup) {
          for (int p = 0; p < N; ++p)
            if (group[p] == g)
              steps(p, w, 1, ws, end);
          continue;
        }
        auto            &s = sc.subs[imp];
        std::vector<int> firsts, seconds;
        for (int p = 0; p < N; ++p)
          if (group[p] == g)
            ((s.scheme == Scheme::Multi ? p == s.controller : p == s.second) ? seconds : firsts).push_back(p);
        auto into = [&](const std::vector<int> &ps) {
          for (int e = 0; e < E; ++e)
            if (sc.ex[e].sub == imp && std::count(ps.begin(), ps.end(), sc.ex[e].to))
              move(e, end);
        };
        for (int k = 1; k <= sc.maxIt; ++k) {
          out.iterations++;
          if (k > 1)
            for (int e = 0; e < E; ++e)
              if (group[sc.ex[e].from] == g)
                S[e].keepFirst();
          for (int p : firsts)
            steps(p, w, k, ws, end);
          if (isSerial(s.scheme))
            into(seconds);
          for (int p : seconds)
            steps(p, w, k, ws, end);
          if (!isSerial(s.scheme))
            into(seconds);
          into(firsts);
          if (k < sc.maxIt)
            for (int p = 0; p < N; ++p)
              if (group[p] == g) {
                obs(p, "readCheckpoint", 1);
                obs(p, "timeWindowComplete", 0);
                obs(p, "ongoing", 1);
                obs(p, "writeCheckpoint", 0);
              }
        }
      }
      for (int e = 0; e < E; ++e) {
        auto &s = sc.subs[sc.ex[e].sub];
        if (isImplicit(s.scheme))
          continue;
        if (s.scheme == Scheme::PE || sc.ex[e].to == s.first)
          move(e, end);
      }
      for (int e = 0; e < E; ++e) {
        S[e].keepLast();
        R[e].keepLast();
      }
      uint64_t h = mix(mix(11, uint64_t(w)), end);
      for (int e = 0; e < E; ++e)
        for (auto *wv : {&S[e], &R[e]})
          for (auto &sm : wv->s)
            for (double d : sm.second)
              h = mix(h, d);
      out.states.push_back(h);
      for (int p = 0; p < N; ++p) {
        obs(p, "readCheckpoint", 0);
        obs(p, "timeWindowComplete", 1);
        obs(p, "ongoing", on);
        obs(p, "writeCheckpoint", on && sc.implicitPart(p));
        if (!on) {
          obs(p, "maxdt", 0);
          readsAt(p, end, 0.0, "end");
        }
      }
      if (!on) {
        out.windows = w;
        return out;
      }
      ws = end;
    }
  }

private:
  Expectation      *x = nullptr;
  std::vector<Wave> S, R, prevS, prevR;
  std::vector<Vec>  firstResidual;
  std::vector<bool> haveFirst;
  double            aitken   = 0;
  int               aitkenIt = 0;

  void obs(int p, const std::string &what, double v) { x->part[p].push_back({what, v, {}, false}); }
  void readsAt(int p, double t, double rel, const std::string &what)
  {
    if (!sc.predictValues)
      return;
    for (size_t e = 0; e < sc.ex.size(); ++e)
      if (sc.ex[e].to == p)
{
        x->part[p].push_back({"read " + sc.dn(e) + " " + what, 0, R[e].at(t + rel), true});
        if (onRead)
          onRead(p, x->part[p].size() - 1, R[e], t + rel);
      }
  }
  void steps(int p, int w, int k, double ws, double end)
  {
    bool   dictates = sc.firstMethod && !sc.isSecond(p);
    double t        = ws;
    auto   plan     = dictates ? std::vector<double>{1.0} : sc.plan(p, w, k);
    double unit     = sc.firstMethod ? sc.firstSize(w) : sc.size;
    for (size_t s = 0; s < plan.size(); ++s) {
      double maxdt = dictates ? (sc.maxTime > 0 ? sc.maxTime - t : std::numeric_limits<double>::max()) : end - t;
      double dt    = dictates ? end - t : maxdt;
      if (!dictates && s + 1 < plan.size())
        dt = std::min(plan[s] * unit, maxdt);
      bool last = dictates || teq(dt, maxdt) || std::fabs(dt - maxdt) < 1e-14;
      if (s > 0) {
        obs(p, "readCheckpoint", 0);
        obs(p, "timeWindowComplete", 0);
        obs(p, "ongoing", 1);
        obs(p, "writeCheckpoint", 0);
      }
      obs(p, "maxdt", maxdt);
      readsAt(p, t, 0, "begin");
      readsAt(p, t, dt / 2, "mid");
      readsAt(p, t, dt, "stepend");
      if (!dictates)
        readsAt(p, t, maxdt, "windowend");
      Vec r;
      if (sc.predictValues)
        for (size_t e = 0; e < sc.ex.size(); ++e)
          if (sc.ex[e].to == p) {
            Vec v = R[e].at(t + dt);
            r.insert(r.end(), v.begin(), v.end());
          }
      t = last ? end : t + dt;
      bool sub = false; // a step inside the window is kept if any sent data exchanges substeps
      for (auto &e : sc.ex)
        sub = sub || (e.from == p && e.substeps);
      for (size_t e = 0; e < sc.ex.size(); ++e)
        if (sc.ex[e].from == p && (last || sub)) {
          int d = dimsOf(e);
          int b = sc.dataOf(e);
          Vec v(sc.V * d);
          for (int i = 0; i < sc.V; ++i)
            for (int c = 0; c < d; ++c)
              v[i * d + c] = sc.value(b, w, k, s, i, c, r);
          S[e].put(t, v);
        }
      if (last)
        break;
    }
  }
  void transferInto(const std::vector<int> &ps, double end)
  {
    for (size_t e = 0; e < sc.ex.size(); ++e)
      for (int p : ps)
        if (sc.ex[e].to == p) {
          x->exchanges++;
          if (sc.ex[e].substeps)
            R[e].s = S[e].s;
          else
            R[e].put(end, S[e].back());
        }
  }
  void newSeries()
  {
    firstResidual.assign(sc.measures.size(), {});
    haveFirst.assign(sc.measures.size(), false);
    firstNorm.assign(sc.measures.size(), 0);
  }
  std::vector<double> firstNorm;
  static double       norm(const Vec &v)
  {
    double s = 0;
    for (double d : v)
      s += d * d;
    return std::sqrt(s);
  }
  int  ctrl() const { return sc.scheme == Scheme::Multi ? sc.controller : sc.second; }
  bool measure(int k, std::vector<double> &row)
  {
    if (sc.measures.empty())
      return false;
    bool all = true, suff = false, strict = false;
    for (size_t m = 0; m < sc.measures.size(); ++m) {
      auto       &M   = sc.measures[m];
      bool        snd = sc.ex[M.ex].from == ctrl();
      const Vec  &nw  = (snd ? S : R)[M.ex].back();
      const Vec  &old = (snd ? prevS : prevR)[M.ex].back();
      Vec         d   = nw;
      for (size_t i = 0; i < d.size(); ++i)
        d[i] -= old[i];
      double diff = norm(d), nrm = norm(nw), logged = diff;
      bool   c    = false;
      switch (M.type) {
      case 'a':
        c = diff <= M.limit;
        break;
      case 'r':
        c      = diff <= M.limit * nrm;
        logged = nrm == 0 ? std::numeric_limits<double>::infinity() : diff / nrm;
        break;
      case 'q':
        if (!haveFirst[m]) {
          haveFirst[m] = true;
          firstNorm[m] = diff;
        }
        c      = diff < M.limit * firstNorm[m];
        logged = firstNorm[m] == 0 ? std::numeric_limits<double>::infinity() : diff / firstNorm[m];
        break;
      default:
        c      = diff <= M.limit || diff <= M.rel * nrm;
        logged = std::numeric_limits<double>::quiet_NaN(); // not specified which one is logged
      }
      row.push_back(logged);
      if (!c) {
        all = false;
        if (M.strict) {
          strict = true;
          if (sc.maxIt > 0 && k >= sc.maxIt)
            x->error = "strict";
        }
      } else if (M.suffices)
        suff = true;
    }
    return k >= sc.minIt && (all || (suff && !strict));
  }
  void relax(double om, double ws)
  {
    for (size_t e = 0; e < sc.ex.size(); ++e) {
      bool snd = sc.ex[e].from == ctrl(), rcv = sc.ex[e].to == ctrl();
      if (!snd && (!rcv || isSerial(sc.scheme)))
        continue;
      Wave &W = snd ? S[e] : R[e];
      Wave &P = snd ? prevS[e] : prevR[e];
      for (auto &smp : W.s)
        if (smp.first > ws + 1e-13) {
          Vec o = P.at(smp.first);
          for (size_t i = 0; i < o.size(); ++i)
            smp.second[i] = om * smp.second[i] + (1 - om) * o[i];
        }
    }
  }
  Wave &accWave(int e, bool prev) { return sc.ex[e].from == ctrl() ? (prev ? prevS : S)[e] : (prev ? prevR : R)[e]; }
  std::vector<int> accelerated() const
  {
    std::vector<int> l;
    for (size_t e = 0; e < sc.ex.size(); ++e)
      if (sc.ex[e].from == ctrl() || (sc.ex[e].to == ctrl() && !isSerial(sc.scheme)))
        l.push_back(static_cast<int>(e));
    return l;
  }
  void initPrecond(Precond &p)
  {
    p.type      = sc.accel.pre ? sc.accel.pre : 's';
    p.threshold = sc.accel.threshold;
    p.freeze    = sc.accel.freeze;
    p.factors.clear();
    for (size_t i = 0; i < sc.accel.data.size(); ++i)
      p.factors.push_back(sc.accel.scaling.empty() ? 1 : sc.accel.scaling[i]);
    p.init(sc.accel.data.size());
  }
  Precond aitkenPre;
  void    acceptWindow(double ws)
  {
    if (sc.accel.type == 'a') {
      aitkenIt = 0;
      if (sc.accel.data.size() > 1) {
        if (aitkenPre.w.empty())
          initPrecond(aitkenPre);
        if (aitkenValues.empty()) // accepted in the first iteration
          for (int e : sc.accel.data)
            aitkenValues.push_back(LV(sc.V * dimsOf(e), 0));
        aitkenPre.update(true, aitkenValues, aitkenValues);
      }
    } else if (sc.accel.type == 'q') {
      gather(ws);
      qn.differences(flat(qPrimaryRes), qAll);
      x->close = x->close || qn.close;
      qn.converged();
      qn.pre.update(true, qPrimary, qPrimaryRes);
    }
  }
  // quasi-Newton
  QNRef                       qn;
  std::map<int, Vec>          grid, pgrid;
  std::vector<LV>             qPrimary, qPrimaryRes;
  LV                          qAll;
  static LV                   flat(const std::vector<LV> &v)
  {
    LV r;
    for (auto &x : v)
      r.insert(r.end(), x.begin(), x.end());
    return r;
  }
  void moveGrid(std::map<int, Vec> &g)
  {
    for (auto &[e, t] : g) {
      auto &w = accWave(e, false).s;
      if (t.size() == 1) {
        t[0] = w.back().first;
        continue;
      }
      double lo = t.front(), hi = t.back(), nlo = w.front().first, nhi = w.back().first;
      for (auto &x : t)
        x = (x - lo) / (hi - lo) * (nhi - nlo) + nlo;
    }
  }
  void gather(double ws)
  {
    if (qn.firstWin && qn.firstIt) {
      if (qn.pre.w.empty()) {
        qn.cfg = sc.accel.qn;
        initPrecond(qn.pre);
      }
      grid.clear(), pgrid.clear();
      for (int e : accelerated())
        for (auto &smp : accWave(e, false).s)
          grid[e].push_back(smp.first);
      for (int e : sc.accel.data) {
        pgrid[e] = grid[e];
        if (qn.cfg.reduced)
          pgrid[e] = {grid[e].back()};
      }
    }
    if (qn.firstIt)
      moveGrid(grid), moveGrid(pgrid);
    auto after = [&](double t) { return t > ws + 1e-13; };
    qAll.clear(), qPrimary.clear(), qPrimaryRes.clear();
    for (auto &[e, ts] : grid)
      for (double t : ts)
        if (after(t))
          for (double d : accWave(e, false).at(t))
            qAll.push_back(d);
    for (int e : sc.accel.data) {
      qPrimary.emplace_back(), qPrimaryRes.emplace_back();
      for (double t : pgrid[e])
        if (after(t)) {
          Vec a = accWave(e, false).at(t), b = accWave(e, true).at(t);
          for (size_t i = 0; i < a.size(); ++i)
            qPrimary.back().push_back(a[i]), qPrimaryRes.back().push_back(LD(a[i]) - b[i]);
        }
    }
  }
  void quasiNewton(double ws)
  {
    gather(ws);
    LV res = flat(qPrimaryRes);
    qn.differences(res, qAll);
    if (qn.relaxes()) {
      qn.oldRes  = res;
      qn.oldX    = qAll;
      qn.firstIt = false;
      relax(qn.cfg.omega, ws);
      return;
    }
    qn.restore();
    qn.pre.update(false, qPrimary, qPrimaryRes);
    LV w;
    for (size_t i = 0; i < qPrimary.size(); ++i)
      w.insert(w.end(), qPrimary[i].size(), qn.pre.w[i]);
    if (qn.firstIt)
      qn.deleted = qn.dropped = 0;
    LV up = qn.step(w, res);
    LV x  = qAll;
    for (size_t i = 0; i < up.size(); ++i)
      x[i] += up[i];
    bounds(x, up, ws);
    qn.afterStep();
    size_t at = 0;
    for (auto &[e, ts] : grid) {
      auto &W = accWave(e, false);
      while (W.s.size() > 1 && W.s.back().first > ws + 1e-13)
        W.s.pop_back();
      for (double t : ts)
        if (t > ws + 1e-13) {
          Vec v(sc.V * dimsOf(e));
          for (auto &d : v)
            d = static_cast<double>(x[at++]);
          W.put(t, v);
        }
    }
    x_->close = x_->close || qn.close || qn.pre.close;
    x_->columns = std::max(x_->columns, qn.maxCols);
    x_->removed += qn.deleted + qn.dropped;
  }
  /// bounds of data after a quasi-Newton step
  void bounds(LV &x, const LV &up, double ws)
  {
    char how = qn.cfg.bound;
    if (how == 'i' || up.empty())
      return;
    size_t at = 0;
    LD     worst = 0;
    bool   any = false;
    for (auto &[e, ts] : grid)
      for (double t : ts)
        if (t > ws + 1e-13)
          for (int i = 0; i < sc.V * dimsOf(e); ++i, ++at) {
            LD lo = sc.ex[e].lower[i % dimsOf(e)], hi = sc.ex[e].upper[i % dimsOf(e)];
            if (std::fabs(x[at] - lo) < 1e-9L * std::max<LD>(1, std::fabs(lo)) || std::fabs(x[at] - hi) < 1e-9L * std::max<LD>(1, std::fabs(hi)))
              x_->close = true;
            if (x[at] >= lo && x[at] <= hi)
              continue;
            any = true;
            LD over = x[at] < lo ? lo - x[at] : x[at] - hi;
            if (how == 'c')
              x[at] = x[at] < lo ? lo : hi;
            else if (std::fabs(up[at]) > 0)
              worst = std::max(worst, over / std::fabs(up[at]));
          }
    worst = std::min<LD>(worst, 1); // the results of the solver may violate the bounds already
    if (!any)
      return;
    ++x_->violated;
    if (how == 'd')
      for (size_t i = 0; i < x.size(); ++i)
        x[i] -= up[i];
    else if (how == 's')
      for (size_t i = 0; i < x.size(); ++i)
        x[i] -= up[i] * worst;
  }
  void accelerate(double ws, double end)
  {
    x_ = x;
    if (sc.accel.type == 'c')
      relax(sc.accel.omega, ws);
    else if (sc.accel.type == 'q')
      quasiNewton(ws);
    else if (sc.accel.type == 'a') {
      std::vector<LV> res;
      aitkenValues.clear();
      for (int e : sc.accel.data) {
        Vec a = accWave(e, false).at(end), b = accWave(e, true).at(end);
        res.emplace_back();
        aitkenValues.emplace_back(a.begin(), a.end());
        for (size_t i = 0; i < a.size(); ++i)
          res.back().push_back(LD(a[i]) - b[i]);
      }
      bool many = res.size() > 1;
      if (many) {
        if (aitkenPre.w.empty())
          initPrecond(aitkenPre);
        aitkenPre.update(false, aitkenValues, res);
        x->close = x->close || aitkenPre.close;
      }
      if (aitkenIt == 0)
        aitken = (firstAitken ? sc.accel.omega : (aitken < 0 ? -1 : 1) * std::min(sc.accel.omega, std::fabs(aitken)));
      else {
        LD nom = 0, den = 0, old = 0;
        for (size_t d = 0; d < res.size(); ++d)
          for (size_t i = 0; i < res[d].size(); ++i) {
            LD w  = many ? aitkenPre.w[d] : 1;
            LD dl = (res[d][i] - aitkenOld[d][i]) * w;
            nom += aitkenOld[d][i] * w * dl;
            den += dl * dl;
            old += aitkenOld[d][i] * w * aitkenOld[d][i] * w;
          }
        if (den < 1e-16L * old && den != 0)
          x->close = true;
        if (den == 0)
          x->stagnates = true;
        else
          aitken = static_cast<double>(-aitken * nom / den);
        if (std::fabs(aitken) > 1e6)
          x->close = true;
      }
      firstAitken = false;
      aitkenOld   = res;
      ++aitkenIt;
      relax(aitken, ws);
    }
  }
  std::vector<LV> aitkenOld, aitkenValues;
  Expectation    *x_ = nullptr;
  bool firstAitken = true;
};

/// What the ranks observed
struct Observed {
  std::vector<Obs> obs; // field observations: only the vertices owned by the rank, in order
  std::string      error;
  bool             completed = false;
  long             ending = 0, ended = 0; // positions of the call and the return of finalize() in the order of events
};

class CoupleRunner {
public:
  CoupleRunner(const Scenario &s, Sched &sch, const std::string &dir)
      : sc(s), sched(sch), dir(dir) {}
  std::vector<Observed> result; // per fiber
  std::vector<std::pair<int, int>> who;
  Outcome               out;
  std::string           configFile;
  bool                  keepDestroy = true;
  bool                  exitOnError = false; ///< a rank which gets an error ends its process

  void run(const Policy &pol)
  {
    configFile = dir + "/config.xml";
    std::ofstream(configFile) << sc.xml();
    std::vector<std::function<void()>> mains;
    for (int p = 0; p < sc.nParts; ++p)
      for (int r = 0; r < sc.ranks[p]; ++r)
        who.emplace_back(p, r);
    result.resize(who.size());
    for (size_t i = 0; i < who.size(); ++i)
      mains.push_back([this, i] { solver(static_cast<int>(i)); });
    out = sched.run(std::move(mains), pol);
  }

private:
  const Scenario &sc;
  Sched          &sched;
  std::string     dir;
  long            events = 0; // one fiber runs at a time

  void solver(int slot)
  {
    auto [p, rk] = who[slot];
    auto &res    = result[slot];
    Api  &a      = RankLibs::get().api(slot);
    auto  obs    = [&](const char *w, double v) { res.obs.push_back({w, v, {}, false}); };
    try {
      a.create(Scenario::pname(p), configFile, rk, sc.ranks[p]);
      std::string      mesh = Scenario::mname(p);
      std::vector<int> mine;
      Vec              coords;
      for (int v = 0; v < sc.V; ++v)
        if (sc.owner(p, v) == rk) {
          mine.push_back(v);
          auto at = sc.position(v);
          for (int d = 0; d < sc.xdim; ++d)
            coords.push_back(at[d]);
        }
      auto ids = a.setMeshVertices(mesh, coords, static_cast<int>(mine.size()));
      if (sc.connectivity) {
        for (size_t i = sc.xdim - 1; i < ids.size(); ++i)
          if (sc.xdim == 2)
            a.setMeshEdge(mesh, ids[i - 1], ids[i]);
          else
            a.setMeshTriangle(mesh, ids[i - 2], ids[i - 1], ids[i]);
      }
      bool ri  = a.requiresInitialData();
      obs("requiresInitialData", ri);
      auto dimsOf = [&](int e) { return sc.ex[e].dims == 1 ? 1 : sc.xdim; };
      for (size_t e = 0; e < sc.ex.size(); ++e)
        if (sc.ex[e].from == p && sc.ex[e].init && sc.owns(e)) {
          Vec v;
          for (int i : mine)
            for (int c = 0; c < dimsOf(e); ++c)
              v.push_back(sc.initial(e, i, c));
          a.writeData(mesh, Scenario::dname(e), ids, v);
        }
      a.initialize();
      int    w = 1, k = 1;
      size_t s        = 0;
      bool   dictates = sc.firstMethod && !sc.isSecond(p);
      bool   on       = a.isCouplingOngoing();
      obs("ongoing", on);
      obs("timeWindowComplete", a.isTimeWindowComplete());
      obs("writeCheckpoint", a.requiresWritingCheckpoint());
      auto reads = [&](double rel, const char *what, Vec *into) {
        if (!sc.predictValues && !into)
          return;
        for (size_t e = 0; e < sc.ex.size(); ++e)
          if (sc.ex[e].to == p) {
            Vec v = a.readData(mesh, sc.dn(e), ids, rel, static_cast<int>(ids.size()) * dimsOf(e));
            if (into)
              into->insert(into->end(), v.begin(), v.end());
            if (sc.predictValues)
              res.obs.push_back({"read " + sc.dn(e) + " " + what, 0, v, true});
          }
      };
      long guard = 0;
      while (on && ++guard < 2000) {
        auto   plan  = dictates ? std::vector<double>{1.0} : sc.plan(p, w, k);
        double unit  = sc.firstMethod ? sc.firstSize(w) : sc.size;
        double maxdt = a.getMaxTimeStepSize();
        obs("maxdt", maxdt);
        double dt = dictates ? std::min(sc.firstSize(w), maxdt) : maxdt;
        if (!dictates && s + 1 < plan.size())
          dt = std::min(plan[s] * unit, maxdt);
        Vec r;
        reads(0, "begin", nullptr);
        reads(dt / 2, "mid", nullptr);
        reads(dt, "stepend", &r);
        if (!dictates)
          reads(maxdt, "windowend", nullptr);
        for (size_t e = 0; e < sc.ex.size(); ++e)
          if (sc.ex[e].from == p && sc.owns(e)) {
            Vec v;
            for (int i : mine)
              for (int c = 0; c < dimsOf(e); ++c)
                v.push_back(sc.value(e, w, k, s, i, c, r));
            a.writeData(mesh, Scenario::dname(e), ids, v);
          }
        a.advance(dt);
        bool rc = a.requiresReadingCheckpoint();
        bool tw = a.isTimeWindowComplete();
        on      = a.isCouplingOngoing();
        obs("readCheckpoint", rc);
        obs("timeWindowComplete", tw);
        obs("ongoing", on);
        obs("writeCheckpoint", a.requiresWritingCheckpoint());
        ++s;
        if (rc) {
          ++k;
          s = 0;
        } else if (tw) {
          ++w;
          k = 1;
          s = 0;
        }
      }
      obs("maxdt", a.getMaxTimeStepSize());
      reads(0, "end", nullptr);
      res.ending = ++events;
      if (!(sc.implicitEnd >> p & 1))
        a.finalize();
      else
        a.destroy();
      res.ended = ++events;
      if (!(sc.implicitEnd >> p & 1))
        a.destroy();
      res.completed = true;
    } catch (const ApiError &e) {
      res.error = e.what();
    } catch (const std::exception &e) {
      res.error = std::string("std::exception ") + e.what();
    }
    if (!res.error.empty() && exitOnError)
      sched.processExit();
  }
};

struct CheckOptions {
  bool   values = true, flags = true, times = true;
  double tol = 1e-9;
};

inline bool near(double a, double b, double tol)
{
  if (a == b)
    return true;
  if (std::isnan(a) || std::isnan(b))
    return false;
  return std::fabs(a - b) <= tol * std::max({1.0, std::fabs(a), std::fabs(b)});
}

/// compares the observations of an execution with the model; reports violations
inline void compareRaw(CaseCtx &ctx, const Scenario &sc, const Expectation &ex, const CoupleRunner &run, const CheckOptions &opt)
{
  auto &o = run.out;
  for (auto &pe : o.protocolErrors)
    ctx.fail("protocol", pe);
  if (!o.deadlock.empty()) {
    ctx.taint = true;
    ctx.fail("deadlock", o.deadlock);
  }
  if (!ex.error.empty() && o.deadlock.empty()) {
    // the participant which detects it reports it; every other rank ends with an error of its connections
    ctx.taint = true;
    for (size_t i = 0; i < run.result.size(); ++i) {
      auto &r  = run.result[i];
      auto  me = Scenario::pname(run.who[i].first) + std::to_string(run.who[i].second);
      if (r.error.empty())
        ctx.fail("missing-error", "the simulation must be terminated (" + ex.error + ") but " + me + " ran to its end");
      else if (sc.isSecond(run.who[i].first) && run.who[i].second == 0 && r.error.find(ex.error) == std::string::npos)
        ctx.fail("wrong-error", me + " must report an error about '" + ex.error + "': " + r.error);
      for (char ch : r.error)
        ctx.observe(static_cast<uint64_t>(ch));
    }
    ctx.count("executions");
    ctx.count("expected terminations");
    for (auto h : ex.states)
      ctx.state(h);
    ctx.count("transitions", ex.iterations);
    return;
  }
  std::string errs;
  for (size_t i = 0; i < run.result.size(); ++i)
    if (!run.result[i].error.empty())
      errs += "[" + Scenario::pname(run.who[i].first) + std::to_string(run.who[i].second) + ": " + run.result[i].error + "] ";
  if (!errs.empty())
    ctx.taint = true;
  if (!errs.empty()) {
    ctx.fail("error", "unexpected error: " + errs);
    return;
  }
  if (!o.finished)
    return;
  for (size_t i = 0; i < run.result.size(); ++i) {
    auto [p, rk]    = run.who[i];
    auto       &got = run.result[i].obs;
    auto       &exp = ex.part[p];
    std::string me  = Scenario::pname(p) + std::to_string(rk);
    std::vector<int> mine;
    for (int v = 0; v < sc.V; ++v)
      if (sc.owner(p, v) == rk)
        mine.push_back(v);
    size_t n = std::min(got.size(), exp.size());
    std::string trail;
    for (size_t j = 0; j < n; ++j) {
      ctx.count("observations");
      auto &g = got[j];
      auto &e = exp[j];
      std::ostringstream os;
      os.precision(15);
      if (g.what != e.what) {
        os << me << " observation " << j << ": performed '" << g.what << "' where the model expects '" << e.what << "' after " << trail;
        ctx.fail("flow", os.str());
        break;
      }
      if (!g.isField) {
        trail += g.what + "=" + std::to_string(g.x) + " ";
        if (trail.size() > 300)
          trail = trail.substr(trail.size() - 300);
        ctx.observe(g.x);
        bool t = g.what == "maxdt";
        if ((t && !opt.times) || (!t && !opt.flags))
          continue;
        if (!near(g.x, e.x, t ? 1e-12 : 0)) {
          os << me << " observation " << j << " " << g.what << " = " << g.x << " expected " << e.x << " after " << trail;
          ctx.fail(t ? "time:maxdt" : "flag:" + g.what, os.str());
          if (!t)
            break; // everything after is a consequence
        }
      } else if (opt.values) {
        size_t d   = e.v.size() / sc.V;
        bool   bad = g.v.size() != mine.size() * d;
        for (size_t q = 0; !bad && q < g.v.size(); ++q) {
          ctx.observe(g.v[q]);
          bad = !near(g.v[q], e.v[mine[q / d] * d + q % d], opt.tol);
        }
        if (bad) {
          os << me << " observation " << j << " " << g.what << " = (";
          for (double v : g.v)
            os << v << " ";
          os << ") expected (";
          for (int v : mine)
            for (size_t c = 0; c < d; ++c)
              os << e.v[v * d + c] << " ";
          os << ") after " << trail;
          auto sp = g.what.find(' ');
          ctx.fail("value:" + g.what.substr(sp + 1, g.what.find(' ', sp + 1) - sp - 1), os.str());
        }
      }
    }
    if (got.size() != exp.size() && ctx.violations.empty())
      ctx.fail("flow", me + " made " + std::to_string(got.size()) + " observations, the model expects " + std::to_string(exp.size()));
  }
  ctx.count("messages", o.messages);
  ctx.count("windows", ex.windows);
  ctx.count("iterations", ex.iterations);
  ctx.count("executions");
  ctx.count("transitions", ex.iterations);
  for (auto h : ex.states)
    ctx.state(h);
}

inline void compare(CaseCtx &ctx, const Scenario &sc, const Expectation &ex, const CoupleRunner &run, const CheckOptions &opt = {})
{
  size_t n = ctx.violations.size();
  compareRaw(ctx, sc, ex, run, opt);
  if (!sc.tag.empty())
    for (size_t i = n; i < ctx.violations.size(); ++i)
      ctx.violations[i].first = sc.onlyTag ? sc.tag : sc.tag + ": " + ctx.violations[i].first;
}

inline std::vector<std::vector<double>> readTable(const std::string &file, std::vector<std::string> *header = nullptr)
{
  std::vector<std::vector<double>> t;
  std::ifstream                    in(file);
  std::string                      l;
  bool                             first = true;
  while (std::getline(in, l)) {
    std::istringstream is(l);
    if (first) {
      std::string h;
      while (header && is >> h)
        header->push_back(h);
      first = false;
      continue;
    }
    std::vector<double> r;
    std::string         s;
    while (is >> s)
      r.push_back(strtod(s.c_str(), nullptr));
    if (!r.empty())
      t.push_back(r);
  }
  return t;
}

inline std::string describe(const Scenario &s)
{
  std::ostringstream o;
  o << (s.subs.empty() ? schemeTag(s.scheme) : "composition") << " parts=" << s.nParts << " ranks=";
  for (int p = 0; p < s.nParts; ++p)
    o << s.ranks[p] << (p + 1 < s.nParts ? "," : "");
  for (auto &b : s.subs) {
    o << " <" << schemeTag(b.scheme) << " ";
    if (b.scheme == Scheme::Multi)
      for (int p : b.parts)
        o << Scenario::pname(p) << (p == b.controller ? "*" : "");
    else
      o << Scenario::pname(b.first) << "," << Scenario::pname(b.second);
    if (b.size > 0)
      o << " size " << b.size;
    o << ">";
  }
  if (!s.subs.empty())
    o << " it=" << s.maxIt;
  else if (s.scheme == Scheme::Multi)
    o << " controller=" << Scenario::pname(s.controller);
  else
    o << " second=" << Scenario::pname(s.second);
  o << (s.acceptor ? " acceptor=B" : "") << (s.firstMethod ? " first-participant" : " size=" + std::to_string(s.size));
  if (s.maxWindows > 0)
    o << " windows=" << s.maxWindows;
  if (s.maxTime > 0)
    o << " max-time=" << s.maxTime;
  for (auto &e : s.ex)
    o << " {" << Scenario::pname(e.from) << "->" << Scenario::pname(e.to) << (e.init ? " init" : "") << (e.substeps ? " substeps" : "") << " deg" << e.degree << " " << (e.dims == 1 ? "scalar" : "vector") << " " << e.mode << (s.subs.empty() ? "" : " in scheme " + std::to_string(e.sub)) << (e.data >= 0 ? " shares D" + std::to_string(e.data) : "") << Scenario::boundsOf(e) << "}";
  if (isImplicit(s.scheme))
    o << " it=" << s.minIt << ".." << s.maxIt << " accel=" << s.accel.type << s.accel.omega;
  if (s.accel.type == 'q') {
    auto &q = s.accel.qn;
    o << " relax " << q.omega << (q.enforce ? " enforced" : "") << " max " << q.maxUsed << " reused " << q.reused << " filter " << q.filter << " limit " << q.limit << (q.reduced ? "" : " full time grid") << " bounds " << q.bound;
  }
  if (s.accel.type == 'q' || s.accel.type == 'a') {
    o << " precond " << (s.accel.pre ? s.accel.pre : '-') << (s.accel.threshold ? "" : " every window") << (s.accel.freeze > 0 ? " freeze " + std::to_string(s.accel.freeze) : "") << " data";
    for (int e : s.accel.data)
      o << " D" << e;
    for (double f : s.accel.scaling)
      o << " scaling " << f;
  }
  for (auto &m : s.measures)
    o << " [" << m.type << " on D" << m.ex << " limit " << m.limit << (m.suffices ? " suffices" : "") << (m.strict ? " strict" : "") << "]";
  o << " plans=";
  for (int p = 0; p < s.nParts; ++p)
    for (int w = 1; w <= 2; ++w) {
      o << Scenario::pname(p) << w << "(";
      for (double f : s.plan(p, w, 1))
        o << f << " ";
      o << ")";
    }
  return o.str();
}

} // namespace verif
