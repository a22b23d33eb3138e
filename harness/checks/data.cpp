// C07: data access.  Sequences of write and read calls over all short lists of vertices.
#include "../src/session.hpp"
#include "../src/mapref.hpp"
using namespace verif;

namespace {
using VI = std::vector<int>;
using VD = std::vector<double>;

/// all lists of length lo..hi over n ids
std::vector<VI> lists(int n, int lo, int hi)
{
  std::vector<VI> r, cur{{}};
  for (int l = 0; l <= hi; ++l) {
    if (l >= lo)
      r.insert(r.end(), cur.begin(), cur.end());
    std::vector<VI> next;
    for (auto &c : cur)
      for (int i = 0; i < n; ++i) {
        next.push_back(c);
        next.back().push_back(i);
      }
    cur = next;
  }
  return r;
}
struct Op {
  int kind; ///< 0: D of MA, 1: V of MA, 2: D of MC, 3: gradient of D, 4: gradient of V, 9: define the next vertex of MA
  VI  ids;
};
using Seq = std::vector<Op>;
struct Setup {
  int  dim = 2, mapping = 0; ///< 0 read-consistent 1 write-consistent 2 write-conservative
  bool substeps = true, initial = true, second = false /*MC*/, gradient = false, parallel = false;
  int  ranks = 1, n = 3;
  bool implicit = false;
};
struct Case {
  Setup            s;
  std::vector<std::vector<Seq>> ops; ///< [rank][position]: before initialize, steps
  std::vector<VI>  reads;            ///< lists to read
  int              wrong = -1, wrongAt = 0, wrongEntry = 0; ///< an invalid call, position
  VD               scale{1, 1, 1};   ///< magnitude of the values of each entry of a write
};
constexpr int POS = 4; // before initialize, first window first and second half, second window

double value(int rank, int pos, int op, int entry, int c)
{
  double x = std::fmod(0.6180339887498949 * (1 + entry + 7 * c) + 0.4142135623730951 * (1 + op) + 0.2360679774997896 * (1 + pos) + 0.3027756377 * rank, 1.0);
  return std::round((0.5 + x) * 65536) / 65536 * ((entry + op + c) % 2 ? -1 : 1);
}
std::string xml(const Setup &s)
{
  std::ostringstream o;
  std::string        tag = s.implicit ? "parallel-implicit" : (s.parallel ? "parallel-explicit" : "serial-explicit");
  std::string        mt  = s.gradient ? "nearest-neighbor-gradient" : "nearest-neighbor";
  std::string        deg = s.substeps ? "1" : "0", sub = s.substeps ? "true" : "false", ini = s.initial ? "true" : "false";
  std::string        gr = "";
  o << "<precice-configuration experimental=\"true\"><log enabled=\"false\"/><profiling mode=\"off\"/><data:scalar name=\"D\" waveform-degree=\"" << deg << "\"" << gr << "/><data:vector name=\"V\" waveform-degree=\"" << deg << "\"" << gr << "/>";
  auto mesh = [&](const char *m, bool v) {
    o << "<mesh name=\"" << m << "\" dimensions=\"" << s.dim << "\"><use-data name=\"D\"/>" << (v ? "<use-data name=\"V\"/>" : "") << "</mesh>";
  };
  mesh("MA", true);
  mesh("MB", true);
  if (s.second) {
    mesh("MC", false);
    mesh("ME", false);
  }
  auto map = [&](const char *f, const char *t) {
    o << "<mapping:" << mt << " direction=\"" << (s.mapping ? "write" : "read") << "\" from=\"" << f << "\" to=\"" << t << "\" constraint=\"" << (s.mapping == 2 ? "conservative" : "consistent") << "\"/>";
  };
  o << "<participant name=\"A\"><provide-mesh name=\"MA\"/>" << (s.second ? "<provide-mesh name=\"MC\"/>" : "");
  if (s.mapping) {
    o << "<receive-mesh name=\"MB\" from=\"B\"/>" << (s.second ? "<receive-mesh name=\"ME\" from=\"B\"/>" : "");
    map("MA", "MB");
    if (s.second)
      map("MC", "ME");
  }
  o << "<write-data name=\"D\" mesh=\"MA\"/><write-data name=\"V\" mesh=\"MA\"/>" << (s.second ? "<write-data name=\"D\" mesh=\"MC\"/>" : "") << "</participant>";
  o << "<participant name=\"B\"><provide-mesh name=\"MB\"/>" << (s.second ? "<provide-mesh name=\"ME\"/>" : "");
  if (!s.mapping) {
    o << "<receive-mesh name=\"MA\" from=\"A\"/>" << (s.second ? "<receive-mesh name=\"MC\" from=\"A\"/>" : "");
    map("MA", "MB");
    if (s.second)
      map("MC", "ME");
  }
  o << "<read-data name=\"D\" mesh=\"MB\"/><read-data name=\"V\" mesh=\"MB\"/>" << (s.second ? "<read-data name=\"D\" mesh=\"ME\"/>" : "") << "</participant>";
  o << "<m2n:sockets acceptor=\"A\" connector=\"B\"/><coupling-scheme:" << tag << "><participants first=\"A\" second=\"B\"/><max-time-windows value=\"2\"/><time-window-size value=\"1\"/>";
  auto ex = [&](const char *d, const char *m) {
    o << "<exchange data=\"" << d << "\" mesh=\"" << m << "\" from=\"A\" to=\"B\" substeps=\"" << sub << "\" initialize=\"" << ini << "\"/>";
  };
  ex("D", s.mapping ? "MB" : "MA");
  ex("V", s.mapping ? "MB" : "MA");
  if (s.second)
    ex("D", s.mapping ? "ME" : "MC");
  o << "</coupling-scheme:" << tag << "></precice-configuration>";
  return o.str();
}
/// calls that have to be refused: by A (write), by A before initialize too, by B (read)
const char *WRONG[] = {"id -1", "id n", "id INT_MAX", "id INT_MIN", "too few values", "too many values", "no values", "values without ids", "unknown mesh", "unknown data", "empty mesh name", "empty data name", "received or foreign mesh", "data of the other direction", "NaN or time NaN", "infinite or time infinite", "time -0.5", "time beyond the window"};
constexpr int NWRONG = 18;
/// performs it; returns what is wrong
std::string tryWrong(Api &a, bool b, const Setup &s, int wrong, int entry, bool gradient)
{
  VI          ids{0, 1, 2};
  std::string mesh = b ? "MB" : "MA", data = "V";
  int         nc = gradient ? s.dim * s.dim : s.dim, nv = 3 * nc;
  double      t = 1;
  switch (wrong) {
  case 0: ids[entry] = -1; break;
  case 1: ids[entry] = 3; break;
  case 2: ids[entry] = std::numeric_limits<int>::max(); break;
  case 3: ids[entry] = std::numeric_limits<int>::min(); break;
  case 4: nv -= entry + 1; break;
  case 5: nv += entry + 1; break;
  case 6: nv = 0; break;
  case 7: ids.clear(); break;
  case 8: mesh = entry ? "MX" : "M"; break;
  case 9: data = entry ? "W" : "VV"; break;
  case 10: mesh = ""; break;
  case 11: data = ""; break;
  case 12: mesh = b ? "MA" : "MB"; break;
  case 13: break;
  case 14: t = NAN; break;
  case 15: t = INFINITY; break;
  case 16: t = -0.5; break;
  case 17: t = 1.5; break;
  }
  VD v(nv, 77.5);
  if (!b && wrong == 14)
    v[entry] = NAN;
  if (!b && wrong == 15)
    v[entry] = entry == 1 ? -INFINITY : INFINITY;
  bool read = b != (wrong == 13);
  try {
    if (read)
      a.readData(mesh, data, ids, t, nv);
    else if (gradient)
      a.writeGradientData(mesh, data, ids, v);
    else
      a.writeData(mesh, data, ids, v);
  } catch (const ApiError &e) {
    return std::string(e.what()).empty() ? "the error has no text" : "";
  }
  return "the invalid call (" + std::string(WRONG[wrong]) + ") was accepted";
}
std::string describe(const Case &k)
{
  std::ostringstream o;
  o << k.s.dim << "D mapping=" << k.s.mapping << (k.s.substeps ? " substeps" : "") << (k.s.initial ? " initial" : "") << (k.s.parallel ? " parallel" : "") << " ranks=" << k.s.ranks;
  for (size_t r = 0; r < k.ops.size(); ++r)
    for (int p = 0; p < POS; ++p) {
      o << (p ? (p == 1 ? " | first half:" : p == 2 ? " | second half:" : " | second window:") : " rank " + std::to_string(r) + " before initialize:");
      for (auto &op : k.ops[r][p]) {
        o << " " << (op.kind == 0 ? "D" : op.kind == 1 ? "V" : op.kind == 2 ? "D(MC)" : op.kind == 3 ? "gradD" : op.kind == 4 ? "gradV" : "vertex");
        if (op.kind != 9)
          o << show(op.ids);
      }
    }
  if (k.scale != VD{1, 1, 1})
    o << " magnitudes " << show(k.scale);
  if (k.wrong >= 0)
    o << " and a call of " << (k.wrongAt >= POS ? "B" : "A") << " in position " << k.wrongAt % POS << " with " << WRONG[k.wrong] << " entry " << k.wrongEntry;
  o << " reads";
  for (auto &l : k.reads)
    o << " " << show(l);
  return o.str();
}
/// coordinates of vertex i of a rank; ranks hold separate pieces
Vec place(int rank, int i)
{
  static const double P[3][2] = {{0, 0}, {1, 0}, {0, 1}};
  return {P[i][0] + 10 * rank, P[i][1], 0.25 * i};
}
const Vec SHIFT{0.125, -0.0625, 0.03125}; // offset of the output vertices for gradients
} // namespace

int main(int argc, char **argv)
{
  Campaign c("C07", argc, argv);
  c.rule = "a case is a sequence of write and read calls; distinct by all values read";
  Sched sched;
  RankLibs::get().load(c.lib, c.scratchDir(), 4, &sched);
  bool big = c.thorough();

  auto runCase = [&](CaseCtx &ctx, uint64_t i, const Case &k) {
    auto &s = k.s;
    writeFile(ctx.dir + "/c.xml", xml(s));
    // reference: buffers, samples
    const int kinds = 5;
    auto      comps = [&](int kind) { return kind == 0 || kind == 2 ? 1 : kind == 1 ? s.dim : kind == 3 ? s.dim : s.dim * s.dim; };
    std::vector<std::vector<std::vector<VD>>> sample(s.ranks, std::vector<std::vector<VD>>(POS, std::vector<VD>(kinds)));
    for (int r = 0; r < s.ranks; ++r)
      for (int p = 0; p < POS; ++p) {
        for (int kd = 0; kd < kinds; ++kd)
          sample[r][p][kd].assign(s.n * comps(kd), 0.0);
        for (size_t q = 0; q < k.ops[r][p].size(); ++q) {
          auto &op = k.ops[r][p][q];
          if (op.kind == 9)
            continue;
          int nc = comps(op.kind);
          for (size_t e = 0; e < op.ids.size(); ++e)
            for (int x = 0; x < nc; ++x)
              sample[r][p][op.kind][op.ids[e] * nc + x] = value(r, p, q, e, x) * k.scale[e % 3];
        }
      }
    auto expected = [&](int r, int p, int kind, int id, int x) {
      if (p == 0 && !s.initial)
        return 0.0;
      double v = sample[r][p][kind][id * comps(kind) + x];
      if (s.gradient && kind < 2)
        for (int d = 0; d < s.dim; ++d)
          v += SHIFT[d] * sample[r][p][kind + 3][id * comps(kind + 3) + x * s.dim + d];
      return v;
    };
    Session                  se(sched);
    std::vector<std::string> bad(2 * s.ranks);
    std::vector<uint64_t>    digest(2 * s.ranks, 7);
    se.run(2 * s.ranks, [&](int slot, Api &a) {
      bool b = slot >= s.ranks;
      int  r = b ? slot - s.ranks : slot;
      a.create(b ? "B" : "A", ctx.dir + "/c.xml", r, s.ranks);
      auto        coords = [&](int j, bool shifted) { Vec v = place(r, j); if (shifted && s.gradient) v = add(v, SHIFT); return VD(v.begin(), v.begin() + s.dim); };
      std::string m = b ? "MB" : "MA";
      int         defined = 0;
      auto        vertex = [&] {
        if (a.setMeshVertex(m, coords(defined, b)) != defined && bad[slot].empty())
          bad[slot] = "setMeshVertex returned an unexpected id";
        ++defined;
      };
      int later = 0;
      if (!b)
        for (auto &op : k.ops[r][0])
          later += op.kind == 9;
      while (defined < s.n - later)
        vertex();
      if (s.second)
        for (int j = 0; j < s.n; ++j)
          a.setMeshVertex(b ? "ME" : "MC", coords(j, b));
      auto wrong = [&](int pos) {
        if (k.wrong >= 0 && k.wrongAt == (b ? POS : 0) + pos) {
          auto e = tryWrong(a, b, s, k.wrong, k.wrongEntry, s.gradient);
          if (!e.empty() && bad[slot].empty())
            bad[slot] = e;
        }
      };
      auto write = [&](int p) {
        for (size_t q = 0; q < k.ops[r][p].size(); ++q) {
          if (q == 1)
            wrong(p);
          auto &op = k.ops[r][p][q];
          if (op.kind == 9) {
            vertex();
            continue;
          }
          int nc = comps(op.kind);
          VD  v;
          for (size_t e = 0; e < op.ids.size(); ++e)
            for (int x = 0; x < nc; ++x)
              v.push_back(value(r, p, q, e, x) * k.scale[e % 3]);
          if (op.kind < 3)
            a.writeData(op.kind == 2 ? "MC" : "MA", op.kind == 1 ? "V" : "D", op.ids, v);
          else
            a.writeGradientData("MA", op.kind == 3 ? "D" : "V", op.ids, v);
        }
      };
      if (!b) {
        if (s.initial && !a.requiresInitialData())
          throw std::runtime_error("no initial data required");
        write(0);
        a.initialize();
        write(1);
        a.advance(0.5);
        write(2);
        a.advance(0.5);
        write(3);
        a.advance(1);
      } else {
        a.initialize();
        auto look = [&](double t, int p) {
          for (size_t l = 0; l < k.reads.size(); ++l)
            for (int kind = 0; kind < (s.second ? 3 : 2); ++kind) {
              auto &ids = k.reads[(l + kind) % k.reads.size()];
              int   nc  = comps(kind);
              if (l + kind == 0)
                wrong(p);
              auto  got = a.readData(kind == 2 ? "ME" : "MB", kind == 1 ? "V" : "D", ids, t, static_cast<int>(ids.size()) * nc);
              for (size_t e = 0; e < ids.size(); ++e)
                for (int x = 0; x < nc; ++x) {
                  double ex = expected(r, p, kind, ids[e], x), g = got[e * nc + x];
                  digest[slot] = mix(digest[slot], g);
                  if (std::fabs(g - ex) > (k.s.gradient ? 1e-12 : 1e-13 * std::fabs(ex)) && bad[slot].empty())
                    bad[slot] = std::string(kind == 1 ? "component " + std::to_string(x) + " of V" : kind == 2 ? "D of the second mesh" : "D") + " at vertex " + std::to_string(ids[e]) + " (entry " + std::to_string(e) + " of list " + show(ids) + ")" + (p == 0 ? " initially" : p == 1 ? " after the first half" : p == 2 ? " of the end of window 1" : " of the end of window 2") + " is " + num(g) + ", expected " + num(ex);
                }
            }
        };
        if (s.substeps && s.initial)
          look(0, 0);
        if (!s.parallel) {
          if (s.substeps)
            look(0.5, 1);
          look(1, 2);
        } else if (s.initial)
          look(1, 0);
        a.advance(1);
        if (s.substeps)
          look(0, 2);
        look(1, s.parallel ? 2 : 3);
        a.advance(1);
        look(0, 3);
      }
      a.finalize();
      a.destroy(); }, policy(i));
    se.clean(ctx);
    for (auto &m : bad)
      if (!m.empty())
        ctx.fail("value", describe(k) + ": " + m);
    for (auto d : digest)
      ctx.outcome(d);
  };
  auto stage = [&](const std::string &name, uint64_t n, std::function<Case(uint64_t)> make) {
    c.stage(
        name, n, [make](uint64_t i) { return describe(make(i)); }, [&, make](CaseCtx &ctx, uint64_t i) { runCase(ctx, i, make(i)); });
  };
  const auto L1 = lists(3, 1, 1), L2 = lists(3, 0, 2), L3 = lists(3, 0, 3);
  const VI   ALL{0, 1, 2};
  auto       empty = [](int ranks) { return std::vector<std::vector<Seq>>(ranks, std::vector<Seq>(POS)); };

  // sequences of calls for one data at one position; the other positions are filled from a rotating set
  auto filler = [&](uint64_t j) -> Seq {
    switch (j % 5) {
    case 0:
      return {};
    case 1:
      return {{0, ALL}, {1, ALL}};
    case 2:
      return {{1, {2, 0}}};
    case 3:
      return {{0, {1}}, {1, {2, 1, 0}}};
    default:
      return {{0, {2, 1}}, {0, {0}}};
    }
  };
  auto setup = [&](uint64_t j) {
    Setup  s;
    Digits d(j);
    s.mapping  = d(3);
    s.dim      = 2 + d(2);
    s.substeps = !d(2);
    s.initial  = !d(2);
    s.parallel = d(2);
    return s;
  };
  int depth = big ? 3 : 2;
  {
    uint64_t nl = L2.size(), per = 1;
    for (int q = 0; q < depth; ++q)
      per *= nl;
    // one call more than the depth of lists of one element
    stage("sequences", per * 3 * POS * 2, [=](uint64_t i) {
      Case     k;
      Digits   d(i);
      int      kind = d(2), pos = d(POS);
      uint64_t last = d(3);
      Seq      s;
      for (int q = 0; q < depth; ++q)
        s.push_back({kind, L2[d(static_cast<int>(nl))]});
      s.push_back({kind, {static_cast<int>(last)}});
      uint64_t v = i / (2 * POS * 3);
      k.s        = setup(v * 7 + i);
      if (pos == 0)
        k.s.initial = true;
      k.ops = empty(1);
      for (int p = 0; p < POS; ++p)
        k.ops[0][p] = p == pos ? s : filler(i / 3 + p);
      k.reads = {ALL, {2, 1, 0}};
      return k;
    });
  }
  // writes of two data and of a second mesh in any order
  {
    std::vector<Op> ops;
    for (int kind = 0; kind < 3; ++kind)
      for (auto &l : {VI{0}, VI{2}, VI{1, 0}, VI{2, 2}, ALL})
        ops.push_back({kind, l});
    int no = static_cast<int>(ops.size());
    stage("interleaved", static_cast<uint64_t>(no) * no * no * POS, [=](uint64_t i) {
      Case   k;
      Digits d(i);
      int    pos = d(POS);
      Seq    s;
      for (int q = 0; q < 3; ++q)
        s.push_back(ops[d(no)]);
      k.s        = setup(i * 5 + i / 7);
      k.s.second = true;
      if (pos == 0)
        k.s.initial = true;
      k.ops = empty(1);
      for (int p = 0; p < POS; ++p)
        k.ops[0][p] = p == pos ? s : filler(i / 4 + p);
      k.reads = {{2, 0, 1}};
      return k;
    });
  }
  // vertices defined after or between writes of initial data
  stage("define", 4 * 13 * 13 * 6, [=](uint64_t i) {
    Case   k;
    Digits d(i);
    int    late = d(4);
    k.s         = setup(d(6) * 3 + i / 5);
    k.s.initial = true;
    k.ops       = empty(1);
    // order of: write of the first vertices, definition of further vertices, write of any
    Seq  s;
    VI   l1 = L2[d(13)], l2 = L2[d(13)];
    int  have = late == 0 ? 1 : late == 1 ? 2 : late == 2 ? 1 : 0;
    auto cut  = [](VI l, int n) { VI r; for (int x : l) if (x < n) r.push_back(x); return r; };
    s.push_back({0, cut(l1, have)});
    s.push_back({1, cut(l2, have)});
    s.push_back({9, {}});
    if (late == 2 || late == 3) {
      s.push_back({0, cut(l2, have + 1)});
      s.push_back({9, {}});
    }
    if (late == 3)
      s.push_back({9, {}});
    if (late == 0)
      s.push_back({9, {}});
    s.push_back({1, l1});
    s.push_back({0, cut(l2, 1)});
    k.ops[0][0] = s;
    for (int p = 1; p < POS; ++p)
      k.ops[0][p] = filler(i / 2 + p);
    k.reads = {ALL};
    return k;
  });
  // lists of vertices that are read
  stage("reads", L3.size() * L3.size() * 4, [=](uint64_t i) {
    Case   k;
    Digits d(i);
    k.reads = {L3[d(40)], L3[d(40)]};
    k.s     = setup(d(4) * 11 + i / 3);
    k.ops   = empty(1);
    for (int p = 0; p < POS; ++p)
      k.ops[0][p] = {{0, {2, 1, 0}}, {1, {1, 0, 2}}};
    return k;
  });
  // invalid calls are refused and have no effect
  stage("refused", 12 * 2 * POS * NWRONG * 3, [=](uint64_t i) {
    Case   k;
    Digits d(i);
    k.wrongEntry = d(3);
    k.wrong      = d(NWRONG);
    k.wrongAt    = d(2 * POS);
    k.s          = setup(d(12) * 2 + 3 * (i / 5 % 8));
    k.s.gradient = !k.s.mapping && i / 3 % 2;
    if (k.wrong >= 16 && k.wrongAt < POS)
      k.wrong = 0; // only reading has a time
    k.ops = empty(1);
    for (int p = 0; p < POS; ++p)
      k.ops[0][p] = {{0, {2, 1, 0}}, {1, {1, 0, 2}}};
    k.reads = {ALL};
    return k;
  });
  // magnitudes of the values
  {
    const VD M{1, 1e-300, 1e-160, 1e-20, 1e-15, 1e-12, 1e12, 1e150, 1e300};
    stage("magnitudes", M.size() * M.size() * M.size() * 12, [=](uint64_t i) {
      Case   k;
      Digits d(i);
      int    nm = static_cast<int>(M.size());
      k.scale   = {M[d(nm)], M[d(nm)], M[d(nm)]};
      k.s       = setup(d(12) * 2 + 3 * (i / 5 % 8));
      k.ops     = empty(1);
      for (int p = 0; p < POS; ++p)
        k.ops[0][p] = {{0, {2, 1, 0}}, {1, {1, 0, 2}}};
      k.reads = {ALL};
      return k;
    });
  }
  // several ranks with different calls, also none at all
  stage("ranks", 13 * 13 * POS * 6, [=](uint64_t i) {
    Case   k;
    Digits d(i);
    int    pos = d(POS);
    VI     l1 = L2[d(13)], l2 = L2[d(13)];
    k.s       = setup(d(6) * 5 + i / 11);
    k.s.ranks = 2;
    k.s.mapping = k.s.mapping == 1 ? 2 : k.s.mapping;
    if (pos == 0)
      k.s.initial = true;
    k.ops = empty(2);
    for (int p = 0; p < POS; ++p) {
      k.ops[0][p] = p == pos ? Seq{{0, l1}, {1, l2}} : filler(i + p);
      k.ops[1][p] = p == pos ? Seq{{0, l2}, {0, l1}} : filler(i / 2 + p);
    }
    k.reads = {ALL};
    return k;
  });
  // gradients: the mapping shows value + gradient * offset
  stage("gradients", 13 * 13 * POS * 4 * 3, [=](uint64_t i) {
    Case   k;
    Digits d(i);
    int    pos = d(POS), kind = 3 + d(2), mix = d(2);
    VI     l1 = L2[d(13)], l2 = L2[d(13)];
    k.s          = setup(d(3) * 2 * 3 + (i / 13 % 8) * 6);
    k.s.mapping  = d(1);
    k.s.dim      = 2 + i / 7 % 2;
    k.s.gradient = true;
    if (pos == 0)
      k.s.initial = true;
    k.ops = empty(1);
    for (int p = 0; p < POS; ++p)
      if (p == pos)
        k.ops[0][p] = mix ? Seq{{kind, l1}, {kind - 3, l2}, {kind, l2}} : Seq{{kind - 3, l1}, {kind, l1}, {7 - kind, l2}};
      else
        k.ops[0][p] = (i / 5 + p) % 3 ? Seq{{0, {2, 1, 0}}, {3, ALL}, {1, ALL}, {4, {1, 2}}} : filler(i + p);
    k.reads = {ALL};
    return k;
  });
  c.technique = "explicit-state model of the buffers; every sequence of calls of the bounded space is executed on the implementation and everything readable is compared";
  return c.finish();
}
