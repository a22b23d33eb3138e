// C15: configuration.  Rich configurations are taken apart into their elements and attributes and every
// mutation out of a catalogue is applied at every place.  Whatever comes out is either refused with an
// error (by every way to look at a configuration alike) or it can be run.
#include "session.hpp"
using namespace verif;
using VD = Api::VD;
using VI = Api::VI;

namespace {
struct Node {
  std::string                                      tag;
  std::vector<std::pair<std::string, std::string>> attrs;
  std::vector<Node>                                kids;
  const std::string                               *attr(const std::string &n) const
  {
    for (auto &[k, v] : attrs)
      if (k == n)
        return &v;
    return nullptr;
  }
  bool operator==(const Node &o) const { return tag == o.tag && attrs == o.attrs && kids == o.kids; }
};
Node parse(const std::string &s, size_t &p)
{
  auto ws = [&] {
    while (p < s.size() && isspace(static_cast<unsigned char>(s[p])))
      ++p;
  };
  Node n;
  ws();
  if (s.at(p) != '<')
    throw std::runtime_error("base configuration: expected < at " + s.substr(p, 30));
  ++p;
  while (!isspace(static_cast<unsigned char>(s[p])) && s[p] != '>' && s[p] != '/')
    n.tag += s[p++];
  while (true) {
    ws();
    if (s[p] == '/') {
      p += 2;
      return n;
    }
    if (s[p] == '>') {
      ++p;
      break;
    }
    std::string k, v;
    while (s[p] != '=')
      k += s[p++];
    p += 2;
    while (s[p] != '"')
      v += s[p++];
    ++p;
    n.attrs.emplace_back(k, v);
  }
  while (true) {
    ws();
    if (s.compare(p, 2, "</") == 0) {
      p = s.find('>', p) + 1;
      return n;
    }
    n.kids.push_back(parse(s, p));
  }
}
void print(const Node &n, std::string &o, int depth = 0)
{
  o += std::string(depth, ' ') + "<" + n.tag;
  for (auto &[k, v] : n.attrs)
    o += " " + k + "=\"" + v + "\"";
  if (n.kids.empty()) {
    o += "/>\n";
    return;
  }
  o += ">\n";
  for (auto &k : n.kids)
    print(k, o, depth + 1);
  o += std::string(depth, ' ') + "</" + n.tag + ">\n";
}
std::string str(const Node &n)
{
  std::string o;
  print(n, o);
  return o;
}
/// all nodes in document order, as paths
void walk(const Node &n, std::vector<size_t> &at, std::vector<std::vector<size_t>> &out)
{
  out.push_back(at);
  for (size_t i = 0; i < n.kids.size(); ++i) {
    at.push_back(i);
    walk(n.kids[i], at, out);
    at.pop_back();
  }
}
Node &node(Node &r, const std::vector<size_t> &path, size_t drop = 0)
{
  Node *n = &r;
  for (size_t i = 0; i + drop < path.size(); ++i)
    n = &n->kids[path[i]];
  return *n;
}

// ---------------------------------------------------------------- the configurations to start from
struct Base {
  const char *name, *xml;
};
const std::vector<Base> bases{
    {"explicit", R"(
<precice-configuration experimental="false" wait-in-finalize="false" allow-remeshing="false">
 <log enabled="true"><sink type="file" output="log.txt" format="%Message%" filter="%Severity% > debug" enabled="true"/></log>
 <profiling mode="off" flush-every="50" directory="." synchronize="false"/>
 <data:scalar name="S" waveform-degree="1"/>
 <data:vector name="V" waveform-degree="1"/>
 <mesh name="MA" dimensions="2"><use-data name="S"/><use-data name="V"/></mesh>
 <mesh name="MB" dimensions="2"><use-data name="S"/><use-data name="V"/></mesh>
 <participant name="A">
  <provide-mesh name="MA"/>
  <receive-mesh name="MB" from="B" safety-factor="0.5" geometric-filter="on-secondary-ranks" api-access="false"/>
  <write-data name="S" mesh="MA"/>
  <read-data name="V" mesh="MA"/>
  <mapping:nearest-neighbor direction="write" from="MA" to="MB" constraint="conservative"/>
  <mapping:nearest-projection direction="read" from="MB" to="MA" constraint="consistent"/>
  <export:vtu directory="out" every-n-time-windows="1" every-iteration="false" update-series="false"/>
  <export:csv directory="out" every-n-time-windows="2" every-iteration="true" update-series="true"/>
  <watch-point name="wp" mesh="MA" coordinate="0.5;0"/>
  <watch-integral name="wi" mesh="MA" scale-with-connectivity="true"/>
  <intra-comm:sockets port="0" network="lo" exchange-directory="."/>
 </participant>
 <participant name="B">
  <provide-mesh name="MB"/>
  <read-data name="S" mesh="MB"/>
  <write-data name="V" mesh="MB"/>
  <action:multiply-by-area mesh="MB" timing="read-mapping-post"><target-data name="S"/></action:multiply-by-area>
  <action:summation mesh="MB" timing="write-mapping-post"><source-data name="V"/><target-data name="V"/></action:summation>
 </participant>
 <m2n:sockets acceptor="A" connector="B" port="0" network="lo" exchange-directory="." enforce-gather-scatter="false" use-two-level-initialization="false"/>
 <coupling-scheme:serial-explicit>
  <participants first="A" second="B"/>
  <max-time value="2"/>
  <max-time-windows value="2"/>
  <time-window-size value="1" method="fixed"/>
  <exchange data="S" mesh="MB" from="A" to="B" initialize="false" substeps="true"/>
  <exchange data="V" mesh="MB" from="B" to="A" initialize="true" substeps="true"/>
 </coupling-scheme:serial-explicit>
</precice-configuration>)"},
    {"implicit", R"(
<precice-configuration experimental="true" wait-in-finalize="true">
 <data:scalar name="S" waveform-degree="2"/>
 <data:vector name="V" waveform-degree="1"/>
 <mesh name="MA" dimensions="2"><use-data name="S"/><use-data name="V"/></mesh>
 <mesh name="MB" dimensions="2"><use-data name="S"/><use-data name="V"/></mesh>
 <participant name="A">
  <provide-mesh name="MA"/>
  <receive-mesh name="MB" from="B"/>
  <write-data name="S" mesh="MA"/>
  <read-data name="V" mesh="MA"/>
  <mapping:rbf-global-direct direction="write" from="MA" to="MB" constraint="conservative" x-dead="false" y-dead="false" z-dead="false" polynomial="separate"><basis-function:compact-polynomial-c2 support-radius="3"/></mapping:rbf-global-direct>
  <mapping:rbf-pum-direct direction="read" from="MB" to="MA" constraint="consistent" polynomial="separate" vertices-per-cluster="5" relative-overlap="0.3" project-to-input="true"><basis-function:gaussian shape-parameter="1.5"/></mapping:rbf-pum-direct>
 </participant>
 <participant name="B">
  <provide-mesh name="MB"/>
  <read-data name="S" mesh="MB"/>
  <write-data name="V" mesh="MB"/>
 </participant>
 <m2n:sockets acceptor="A" connector="B"/>
 <coupling-scheme:parallel-implicit>
  <participants first="A" second="B"/>
  <max-time value="2"/>
  <time-window-size value="1"/>
  <min-iterations value="2"/>
  <max-iterations value="3"/>
  <exchange data="S" mesh="MB" from="A" to="B" initialize="yes" substeps="yes"/>
  <exchange data="V" mesh="MB" from="B" to="A" substeps="yes"/>
  <absolute-convergence-measure data="S" mesh="MB" limit="1e-3" suffices="no" strict="no"/>
  <relative-convergence-measure data="V" mesh="MB" limit="1e-3" suffices="no" strict="no"/>
  <residual-relative-convergence-measure data="V" mesh="MB" limit="1e-3"/>
  <absolute-or-relative-convergence-measure data="S" mesh="MB" abs-limit="1e-3" rel-limit="1e-3"/>
  <acceleration:IQN-ILS reduced-time-grid="true" on-bound-violation="ignore">
   <data name="S" mesh="MB" scaling="1"/>
   <data name="V" mesh="MB" scaling="1"/>
   <initial-relaxation value="0.1" enforce="false"/>
   <max-used-iterations value="10"/>
   <time-windows-reused value="2"/>
   <filter type="QR2" limit="1e-3"/>
   <preconditioner type="residual-sum" freeze-after="-1" update-on-threshold="true"/>
  </acceleration:IQN-ILS>
 </coupling-scheme:parallel-implicit>
</precice-configuration>)"},
    {"multi", R"(
<precice-configuration>
 <data:scalar name="F" waveform-degree="1" lower-bound="-1" upper-bound="1"/>
 <data:scalar name="G" waveform-degree="1"/>
 <data:scalar name="H" waveform-degree="1"/>
 <mesh name="MA" dimensions="3"><use-data name="F"/><use-data name="G"/><use-data name="H"/></mesh>
 <mesh name="MB" dimensions="3"><use-data name="F"/><use-data name="G"/></mesh>
 <mesh name="MC" dimensions="3"><use-data name="F"/><use-data name="H"/></mesh>
 <participant name="A">
  <provide-mesh name="MA"/>
  <write-data name="F" mesh="MA"/>
  <read-data name="G" mesh="MA"/>
  <read-data name="H" mesh="MA"/>
 </participant>
 <participant name="B">
  <receive-mesh name="MA" from="A"/>
  <provide-mesh name="MB"/>
  <read-data name="F" mesh="MB"/>
  <write-data name="G" mesh="MB"/>
  <mapping:nearest-neighbor direction="read" from="MA" to="MB" constraint="consistent"/>
  <mapping:linear-cell-interpolation direction="write" from="MB" to="MA" constraint="conservative"/>
 </participant>
 <participant name="C">
  <receive-mesh name="MA" from="A"/>
  <provide-mesh name="MC"/>
  <read-data name="F" mesh="MC"/>
  <write-data name="H" mesh="MC"/>
  <mapping:nearest-neighbor direction="read" from="MA" to="MC" constraint="consistent"/>
  <mapping:nearest-neighbor direction="write" from="MC" to="MA" constraint="conservative"/>
 </participant>
 <m2n:sockets acceptor="A" connector="B"/>
 <m2n:sockets acceptor="C" connector="A"/>
 <coupling-scheme:multi>
  <participant name="A" control="yes"/>
  <participant name="B"/>
  <participant name="C"/>
  <max-time-windows value="2"/>
  <time-window-size value="1"/>
  <max-iterations value="3"/>
  <exchange data="F" mesh="MA" from="A" to="B"/>
  <exchange data="F" mesh="MA" from="A" to="C"/>
  <exchange data="G" mesh="MA" from="B" to="A"/>
  <exchange data="H" mesh="MA" from="C" to="A" initialize="yes"/>
  <relative-convergence-measure data="G" mesh="MA" limit="1e-3"/>
  <acceleration:IQN-ILS reduced-time-grid="false" on-bound-violation="clamp">
   <data name="F" mesh="MA"/>
   <data name="G" mesh="MA"/>
   <data name="H" mesh="MA"/>
   <initial-relaxation value="0.5"/>
   <max-used-iterations value="4"/>
   <time-windows-reused value="0"/>
   <filter type="QR1" limit="1e-3"/>
   <preconditioner type="value"/>
  </acceleration:IQN-ILS>
 </coupling-scheme:multi>
</precice-configuration>)"},
    {"access", R"(
<precice-configuration experimental="true" allow-remeshing="false">
 <data:scalar name="S"/>
 <data:vector name="V"/>
 <data:scalar name="W"/>
 <mesh name="MB" dimensions="2"><use-data name="S"/><use-data name="V"/></mesh>
 <mesh name="MN" dimensions="2"><use-data name="W"/></mesh>
 <mesh name="MP" dimensions="2"><use-data name="W"/></mesh>
 <participant name="A">
  <receive-mesh name="MB" from="B" api-access="true"/>
  <provide-mesh name="MP"/>
  <write-data name="S" mesh="MB"/>
  <read-data name="V" mesh="MB"/>
  <read-data name="W" mesh="MP"/>
  <mapping:nearest-neighbor direction="write" to="MB" constraint="conservative"/>
  <mapping:nearest-neighbor direction="read" from="MB" constraint="consistent"/>
  <receive-mesh name="MN" from="B"/>
  <mapping:nearest-neighbor-gradient direction="read" from="MN" to="MP" constraint="consistent"/>
  <export:vtk directory="out"/>
 </participant>
 <participant name="B">
  <provide-mesh name="MB"/>
  <provide-mesh name="MN"/>
  <read-data name="S" mesh="MB"/>
  <write-data name="V" mesh="MB"/>
  <write-data name="W" mesh="MN"/>
 </participant>
 <m2n:sockets acceptor="B" connector="A" enforce-gather-scatter="true"/>
 <coupling-scheme:parallel-explicit>
  <participants first="A" second="B"/>
  <max-time-windows value="2"/>
  <time-window-size value="1"/>
  <exchange data="S" mesh="MB" from="A" to="B"/>
  <exchange data="V" mesh="MB" from="B" to="A"/>
  <exchange data="W" mesh="MN" from="B" to="A"/>
 </coupling-scheme:parallel-explicit>
</precice-configuration>)"},
    {"serial", R"(
<precice-configuration experimental="true">
 <data:vector name="S" waveform-degree="0"/>
 <data:vector name="V"/>
 <data:scalar name="W"/>
 <mesh name="MA" dimensions="3"><use-data name="S"/><use-data name="V"/><use-data name="W"/></mesh>
 <mesh name="MB" dimensions="3"><use-data name="S"/><use-data name="V"/><use-data name="W"/></mesh>
 <participant name="A">
  <provide-mesh name="MA"/>
  <write-data name="S" mesh="MA"/>
  <write-data name="W" mesh="MA"/>
  <read-data name="V" mesh="MA"/>
  <export:vtp/>
 </participant>
 <participant name="B">
  <provide-mesh name="MB"/>
  <receive-mesh name="MA" from="A" geometric-filter="no-filter"/>
  <read-data name="S" mesh="MB"/>
  <read-data name="W" mesh="MB"/>
  <write-data name="V" mesh="MB"/>
  <mapping:axial-geometric-multiscale direction="read" multiscale-dimension="1d-3d" multiscale-type="spread" multiscale-axis="x" multiscale-radius="1" multiscale-cross-section-profile="uniform" from="MA" to="MB" constraint="consistent"/>
  <mapping:coarse-graining direction="write" from="MB" to="MA" constraint="conservative" radius="2"/>
  <action:divide-by-area mesh="MB" timing="write-mapping-post"><target-data name="V"/></action:divide-by-area>
  <action:recorder mesh="MB" timing="write-mapping-post"/>
 </participant>
 <m2n:sockets acceptor="A" connector="B"/>
 <coupling-scheme:serial-implicit>
  <participants first="A" second="B"/>
  <max-time-windows value="2"/>
  <time-window-size value="1"/>
  <max-iterations value="3"/>
  <exchange data="S" mesh="MA" from="A" to="B" substeps="no"/>
  <exchange data="V" mesh="MA" from="B" to="A"/>
  <absolute-convergence-measure data="S" mesh="MA" limit="1e-3" strict="no"/>
  <acceleration:aitken>
   <data name="V" mesh="MA" scaling="1"/>
   <initial-relaxation value="0.5"/>
   <preconditioner type="residual" freeze-after="1"/>
  </acceleration:aitken>
 </coupling-scheme:serial-implicit>
 <coupling-scheme:parallel-explicit>
  <participants first="A" second="B"/>
  <max-time-windows value="2"/>
  <time-window-size value="1"/>
  <exchange data="W" mesh="MA" from="A" to="B"/>
 </coupling-scheme:parallel-explicit>
</precice-configuration>)"},
    {"constant", R"(
<precice-configuration>
 <data:scalar name="S"/>
 <data:vector name="V"/>
 <mesh name="MA" dimensions="2"><use-data name="S"/><use-data name="V"/></mesh>
 <mesh name="MB" dimensions="2"><use-data name="S"/><use-data name="V"/></mesh>
 <participant name="A">
  <provide-mesh name="MA"/>
  <write-data name="S" mesh="MA"/>
  <read-data name="V" mesh="MA"/>
 </participant>
 <participant name="B">
  <provide-mesh name="MB"/>
  <receive-mesh name="MA" from="A"/>
  <read-data name="S" mesh="MB"/>
  <write-data name="V" mesh="MB"/>
  <mapping:rbf direction="read" from="MA" to="MB" constraint="scaled-consistent-surface"><basis-function:thin-plate-splines/></mapping:rbf>
  <mapping:nearest-neighbor direction="write" from="MB" to="MA" constraint="scaled-consistent-volume"/>
 </participant>
 <m2n:sockets acceptor="B" connector="A" use-two-level-initialization="false"/>
 <coupling-scheme:parallel-implicit>
  <participants first="A" second="B"/>
  <max-time-windows value="2"/>
  <time-window-size value="1"/>
  <max-iterations value="3"/>
  <exchange data="S" mesh="MA" from="A" to="B"/>
  <exchange data="V" mesh="MA" from="B" to="A"/>
  <absolute-convergence-measure data="S" mesh="MA" limit="1e-3"/>
  <acceleration:constant><relaxation value="0.5"/></acceleration:constant>
 </coupling-scheme:parallel-implicit>
</precice-configuration>)"},
};

// ---------------------------------------------------------------- mutations
/// alternative names of an element
const std::vector<std::vector<std::string>> kin{
    {"data:scalar", "data:vector"},
    {"mapping:nearest-neighbor", "mapping:nearest-projection", "mapping:nearest-neighbor-gradient", "mapping:linear-cell-interpolation", "mapping:rbf", "mapping:rbf-global-direct", "mapping:rbf-global-iterative", "mapping:rbf-pum-direct", "mapping:axial-geometric-multiscale", "mapping:radial-geometric-multiscale", "mapping:coarse-graining"},
    {"basis-function:compact-polynomial-c0", "basis-function:compact-polynomial-c2", "basis-function:compact-polynomial-c4", "basis-function:compact-polynomial-c6", "basis-function:compact-polynomial-c8", "basis-function:compact-tps-c2", "basis-function:gaussian", "basis-function:multiquadrics", "basis-function:inverse-multiquadrics", "basis-function:thin-plate-splines", "basis-function:volume-splines"},
    {"export:vtk", "export:vtu", "export:vtp", "export:csv"},
    {"action:multiply-by-area", "action:divide-by-area", "action:summation", "action:recorder", "action:python"},
    {"m2n:sockets", "m2n:mpi", "m2n:mpi-multiple-ports"},
    {"intra-comm:sockets", "intra-comm:mpi"},
    {"coupling-scheme:serial-explicit", "coupling-scheme:parallel-explicit", "coupling-scheme:serial-implicit", "coupling-scheme:parallel-implicit", "coupling-scheme:multi"},
    {"acceleration:constant", "acceleration:aitken", "acceleration:IQN-ILS", "acceleration:IQN-IMVJ"},
    {"absolute-convergence-measure", "relative-convergence-measure", "residual-relative-convergence-measure", "absolute-or-relative-convergence-measure"},
    {"provide-mesh", "receive-mesh"},
    {"read-data", "write-data"},
    {"watch-point", "watch-integral"},
    {"source-data", "target-data"},
    {"max-time", "max-time-windows"},
    {"min-iterations", "max-iterations"},
    {"relaxation", "initial-relaxation"},
    {"participant", "participants"}};
/// elements that may be put into a parent although the base does not have them
const std::vector<std::pair<std::string, std::string>> additions{
    {"participant", "<mapping:nearest-neighbor direction=\"read\" from=\"MB\" to=\"MA\" constraint=\"consistent\"/>"},
    {"participant", "<mapping:nearest-neighbor direction=\"write\" from=\"MB\" to=\"MB\" constraint=\"consistent\"/>"},
    {"participant", "<receive-mesh name=\"MA\" from=\"A\"/>"},
    {"participant", "<provide-mesh name=\"MA\"/>"},
    {"participant", "<watch-point name=\"x\" mesh=\"MB\" coordinate=\"1;1\"/>"},
    {"participant", "<watch-integral name=\"y\" mesh=\"MA\" scale-with-connectivity=\"no\"/>"},
    {"participant", "<export:vtu directory=\"o2\" every-iteration=\"yes\"/>"},
    {"participant", "<action:divide-by-area mesh=\"MA\" timing=\"write-mapping-post\"><target-data name=\"S\"/></action:divide-by-area>"},
    {"participant", "<action:summation mesh=\"MB\" timing=\"read-mapping-post\"><source-data name=\"S\"/><source-data name=\"S\"/><target-data name=\"S\"/></action:summation>"},
    {"precice-configuration", "<mesh name=\"MX\" dimensions=\"3\"/>"},
    {"precice-configuration", "<data:scalar name=\"X\"/>"},
    {"precice-configuration", "<participant name=\"X\"/>"},
    {"precice-configuration", "<participant name=\"X\"><provide-mesh name=\"MX\"/></participant>"},
    {"precice-configuration", "<m2n:sockets acceptor=\"A\" connector=\"B\"/>"},
    {"precice-configuration", "<m2n:sockets acceptor=\"B\" connector=\"A\"/>"},
    {"precice-configuration", "<log/>"},
    {"precice-configuration", "<profiling mode=\"all\" flush-every=\"1\" synchronize=\"yes\"/>"},
    {"precice-configuration", "<coupling-scheme:parallel-explicit><participants first=\"B\" second=\"A\"/><max-time-windows value=\"2\"/><time-window-size value=\"1\"/><exchange data=\"S\" mesh=\"MB\" from=\"B\" to=\"A\"/></coupling-scheme:parallel-explicit>"},
};
const std::vector<std::string> values{"", " ", "0", "1", "-1", "2", "3", "0.5", "1000000", "99999999999999999999", "1e300", "1e-300", "-1e300", "nan", "inf", "-inf", "1x", "yes", "no", "true", "abc", "0;0", "0;0;0", ";", "1;", "&lt;&amp;", "a b", "A/B", "\xc3\xa4",
                                      "first-participant", "serial-explicit", "on-primary-rank", "no-filter", "on", "off", "read", "write", "consistent", "conservative", "scaled-consistent-surface", "scaled-consistent-volume", "separate", "none", "constant", "residual", "value", "residual-sum", "QR1", "QR3", "RS-0", "RS-LS", "RS-SLIDE", "no-restart", "collect", "parabolic", "y", "2d-3d", "error", "discard", "clamp", "scale-to-bound", "fundamental", "all", "stream", "fail", "on-time-window-complete-post"};

struct Mutation {
  enum Kind { None,
              Remove,
              Duplicate,
              Last,
              Swap,
              Lift,
              Rename,
              Unknown,
              Add,
              NoAttr,
              NewAttr,
              Set };
  int                 base;
  Kind                kind;
  std::vector<size_t> path;
  std::string         name, value;
};
std::vector<Node> trees;
void catalogue(int b, std::vector<Mutation> &out, bool few = false)
{
  Node                            &r = trees[b];
  std::vector<std::vector<size_t>> paths;
  std::vector<size_t>              at;
  walk(r, at, paths);
  std::vector<std::string> pool = few ? std::vector<std::string>{"", "0", "-1", "abc", "yes"} : values;
  {
    std::set<std::string> names(pool.begin(), pool.end());
    for (auto &p : paths)
      for (auto &[k, v] : node(r, p).attrs)
        if ((k == "name" || (!few && (k == "from" || k == "first"))) && names.insert(v).second)
          pool.push_back(v);
  }
  if (!few)
    out.push_back({b, Mutation::None, {}, "", ""});
  for (auto &p : paths) {
    Node &n = node(r, p);
    if (!p.empty()) {
      out.push_back({b, Mutation::Remove, p, "", ""});
      out.push_back({b, Mutation::Duplicate, p, "", ""});
      if (p.back() + 1 < node(r, p, 1).kids.size()) {
        if (!few)
          out.push_back({b, Mutation::Last, p, "", ""});
        out.push_back({b, Mutation::Swap, p, "", ""});
      }
      if (p.size() > 1 && !few)
        out.push_back({b, Mutation::Lift, p, "", ""});
    }
    for (auto &g : kin)
      if (std::find(g.begin(), g.end(), n.tag) != g.end())
        for (auto &t : g)
          if (t != n.tag)
            out.push_back({b, Mutation::Rename, p, t, ""});
    if (!few)
      out.push_back({b, Mutation::Unknown, p, "", ""});
    for (auto &[parent, x] : additions)
      if (n.tag == parent) {
        out.push_back({b, Mutation::Add, p, "front", x});
        out.push_back({b, Mutation::Add, p, "back", x});
      }
    if (!few)
      out.push_back({b, Mutation::NewAttr, p, "bogus", "1"});
    for (auto &[k, v] : n.attrs) {
      out.push_back({b, Mutation::NoAttr, p, k, ""});
      for (auto &x : pool)
        if (x != v)
          out.push_back({b, Mutation::Set, p, k, x});
    }
  }
}
bool apply(Node &r, const Mutation &m)
{
  // the place may be gone in a tree that has been mutated before
  Node *n = &r;
  for (auto i : m.path) {
    if (i >= n->kids.size())
      return false;
    n = &n->kids[i];
  }
  if (m.kind == Mutation::None)
    return true;
  auto parent = [&]() -> Node & { return node(r, m.path, 1); };
  auto i      = m.path.empty() ? 0 : m.path.back();
  switch (m.kind) {
  case Mutation::Remove:
    parent().kids.erase(parent().kids.begin() + i);
    return true;
  case Mutation::Duplicate: {
    Node copy = *n;
    parent().kids.insert(parent().kids.begin() + i, copy);
    return true;
  }
  case Mutation::Last: {
    Node copy = *n;
    parent().kids.erase(parent().kids.begin() + i);
    parent().kids.push_back(copy);
    return true;
  }
  case Mutation::Swap:
    if (i + 1 >= parent().kids.size())
      return false;
    std::swap(parent().kids[i], parent().kids[i + 1]);
    return true;
  case Mutation::Lift: {
    Node copy = *n;
    parent().kids.erase(parent().kids.begin() + i);
    node(r, m.path, 2).kids.push_back(copy);
    return true;
  }
  case Mutation::Rename:
    n->tag = m.name;
    return true;
  case Mutation::Unknown:
    n->tag += "x";
    return true;
  case Mutation::Add: {
    size_t p = 0;
    Node   x = parse(m.value, p);
    n->kids.insert(m.name == "front" ? n->kids.begin() : n->kids.end(), x);
    return true;
  }
  case Mutation::NewAttr:
    n->attrs.emplace_back(m.name, m.value);
    return true;
  case Mutation::NoAttr:
  case Mutation::Set:
    for (auto it = n->attrs.begin(); it != n->attrs.end(); ++it)
      if (it->first == m.name) {
        if (m.kind == Mutation::Set)
          it->second = m.value;
        else
          n->attrs.erase(it);
        return true;
      }
    return false;
  default:
    return false;
  }
}
std::string show(const Mutation &m)
{
  static const char *kinds[]{"unchanged", "remove", "duplicate", "move to the end", "swap with the next", "move up", "rename", "misspell", "add", "remove attribute", "add attribute", "set attribute"};
  Node               r = trees[m.base];
  std::string        o = std::string(bases[m.base].name) + ": " + kinds[m.kind] + " ";
  for (auto i : m.path)
    o += std::to_string(i) + "/";
  auto &n = node(r, m.path);
  o += "<" + n.tag;
  for (auto &[k, v] : n.attrs)
    if (k == "name" || k == "data" || k == "mesh")
      o += " " + k + "=" + v;
  return o + "> " + m.name + " " + m.value;
}

// ---------------------------------------------------------------- what the documentation allows
/// a number in one of the notations of preCICE
bool number(const std::string &s, double &x, bool whole)
{
  if (s.empty() || isspace(static_cast<unsigned char>(s[0])))
    return false;
  char *end = nullptr;
  x         = whole ? static_cast<double>(std::strtoll(s.c_str(), &end, 10)) : std::strtod(s.c_str(), &end);
  return *end == 0;
}
/// why the documentation does not allow a single mutation of a valid configuration, or nothing
std::string forbidden(const Mutation &m)
{
  if (m.kind == Mutation::Unknown)
    return "the element does not exist";
  if (m.kind == Mutation::NewAttr)
    return "the attribute does not exist";
  Node              &root = trees[m.base];
  const Node        &n    = node(root, m.path);
  const std::string &tag = n.tag, &at = m.name, &v = m.value;
  auto               is      = [&](const char *prefix) { return tag.rfind(prefix, 0) == 0; };
  auto               measure = tag.find("-convergence-measure") != std::string::npos;
  if (m.kind == Mutation::NoAttr) {
    static const std::set<std::string> optional{"strict", "suffices", "on-bound-violation", "reduced-time-grid", "lower-bound", "upper-bound", "waveform-degree", "scaling", "initialize", "substeps", "directory", "every-iteration", "every-n-time-windows", "update-series", "type", "limit", "enforce", "exchange-directory", "network", "port", "enabled", "enforce-gather-scatter", "use-two-level-initialization",
                                                "multiscale-cross-section-profile", "polynomial", "x-dead", "y-dead", "z-dead", "project-to-input", "relative-overlap", "vertices-per-cluster", "allow-remeshing", "experimental", "wait-in-finalize", "freeze-after", "update-on-threshold", "flush-every", "mode", "synchronize", "api-access", "geometric-filter", "safety-factor", "filter", "format", "output", "method", "control"};
    if (is("mapping:") && (at == "from" || at == "to"))
      return "";
    if (!optional.count(at) || (measure && at == "limit"))
      return "the attribute is required";
    return "";
  }
  if (m.kind != Mutation::Set)
    return "";
  // references
  std::set<std::string> meshes, data, parts;
  for (auto &k : root.kids)
    if (auto name = k.attr("name"))
      (k.tag == "mesh" ? meshes : k.tag == "participant" ? parts
                                                         : data)
          .insert(*name);
  auto ref = [&](const std::set<std::string> &s, const char *what) { return s.count(v) ? std::string() : std::string("there is no such ") + what; };
  if (at == "mesh" || (at == "name" && (tag == "provide-mesh" || tag == "receive-mesh")))
    return ref(meshes, "mesh");
  if (at == "data" || (at == "name" && (tag == "use-data" || tag == "read-data" || tag == "write-data" || tag == "source-data" || tag == "target-data" || tag == "data")))
    return ref(data, "data");
  if (is("mapping:") && (at == "from" || at == "to"))
    return v.empty() ? "" : ref(meshes, "mesh");
  if (at == "from" || at == "to" || at == "first" || at == "second" || at == "acceptor" || at == "connector" || (at == "name" && tag == "participant" && m.path.size() == 2))
    return ref(parts, "participant");
  // numbers
  struct Domain {
    bool                        whole;
    double                      min;
    bool                        open;
    double                      max;
  };
  const double INF = 1e301;
  const Domain *d  = nullptr;
  static const Domain dims{true, 2, false, 3}, nat{true, 1, false, 1e18}, nat0{true, 0, false, 1e18}, pos{false, 0, true, 1e301}, unit{false, 0, true, 1}, port{true, 0, false, 65535}, minus1{true, -1, false, 1e18}, nonneg{false, 0, false, 1e301}, overlap{false, 0, false, 0.999};
  (void) INF;
  if (at == "dimensions")
    d = &dims;
  else if (at == "waveform-degree" || tag == "time-windows-reused" || at == "flush-every")
    d = &nat0;
  else if (at == "limit" && tag == "absolute-convergence-measure")
    d = &pos;
  else if (measure && at == "abs-limit")
    d = &pos;
  else if (measure && (at == "limit" || at == "rel-limit"))
    d = &unit;
  else if (at == "value" && (tag == "relaxation" || tag == "initial-relaxation"))
    d = &unit;
  else if (at == "value" && (tag == "max-time-windows" || tag == "max-iterations" || tag == "min-iterations" || tag == "max-used-iterations"))
    d = &nat;
  else if (at == "value" && (tag == "max-time" || tag == "time-window-size"))
    d = &pos;
  else if (at == "support-radius" || at == "shape-parameter" || at == "radius")
    d = &pos;
  else if (at == "safety-factor")
    d = &nonneg;
  else if (at == "relative-overlap")
    d = &overlap;
  else if (at == "vertices-per-cluster")
    d = &nat;
  else if (at == "port")
    d = &port;
  else if (at == "freeze-after" || at == "every-n-time-windows")
    d = &minus1;
  if (d) {
    // an empty value means the default of an optional attribute
    static const std::set<std::string> optional{"waveform-degree", "relative-overlap", "vertices-per-cluster", "port", "freeze-after", "every-n-time-windows", "safety-factor", "flush-every"};
    if (v.empty())
      return "";
    double x = 0;
    if (!number(v, x, d->whole) || x != x)
      return d->whole ? "not a whole number" : "not a number";
    if (x < d->min || (d->open && x == d->min) || x > d->max)
      return "out of range";
    return "";
  }
  // choices
  static const std::map<std::string, std::set<std::string>> choices{
      {"direction", {"read", "write"}},
      {"constraint", {"consistent", "conservative", "scaled-consistent-surface", "scaled-consistent-volume"}},
      {"polynomial", {"on", "separate", "off"}},
      {"geometric-filter", {"no-filter", "on-primary-rank", "on-secondary-ranks"}},
      {"method", {"fixed", "first-participant"}},
      {"mode", {"off", "fundamental", "api", "all"}},
      {"timing", {"write-mapping-post", "read-mapping-post"}},
      {"on-bound-violation", {"ignore", "clamp", "discard", "scale-to-bound"}},
      {"multiscale-dimension", {"1d-2d", "1d-3d", "2d-3d"}},
      {"multiscale-type", {"spread", "collect"}},
      {"multiscale-axis", {"x", "y", "z"}},
      {"multiscale-cross-section-profile", {"uniform", "parabolic"}}};
  auto c = choices.find(at);
  if (c == choices.end() && at == "type") {
    static const std::set<std::string> filters{"QR1", "QR2", "QR3"}, preconditioners{"constant", "value", "residual", "residual-sum"}, sinks{"file", "stream"};
    auto                              &s = tag == "filter" ? filters : tag == "preconditioner" ? preconditioners
                                                                                              : sinks;
    return s.count(v) ? "" : "not one of the choices";
  }
  if (c != choices.end())
    return c->second.count(v) ? "" : "not one of the choices";
  return "";
}
/// whether the documentation allows it whatever the rest of the configuration is
bool allowed(const Mutation &m)
{
  const Node        &n   = node(trees[m.base], m.path);
  const std::string &tag = n.tag, &at = m.name, &v = m.value;
  auto               one = [&](std::initializer_list<const char *> l) { return std::find(l.begin(), l.end(), v) != l.end(); };
  bool               measure = tag.find("-convergence-measure") != std::string::npos;
  if (m.kind == Mutation::NoAttr) {
    static const std::set<std::string> always{"strict", "suffices", "reduced-time-grid", "scaling", "every-iteration", "every-n-time-windows", "update-series", "directory", "enforce", "exchange-directory", "network", "port", "enabled", "enforce-gather-scatter", "use-two-level-initialization", "project-to-input", "relative-overlap", "vertices-per-cluster", "allow-remeshing", "wait-in-finalize", "freeze-after", "update-on-threshold", "flush-every", "mode", "synchronize", "safety-factor", "format", "output"};
    return always.count(at) > 0;
  }
  if (m.kind != Mutation::Set)
    return false;
  if (measure && (at == "limit" || at == "rel-limit" || at == "abs-limit"))
    return one({"0.5", "1"});
  if (tag == "relaxation" || tag == "initial-relaxation")
    return at == "value" && one({"0.5", "1"});
  if (tag == "max-time")
    return one({"0.5", "1", "3", "1000000"});
  if (tag == "max-time-windows")
    return one({"1", "3", "1000000"});
  if (tag == "max-iterations")
    return one({"2", "1000000"});
  if (tag == "max-used-iterations")
    return one({"1", "2", "3"});
  if (tag == "time-windows-reused")
    return one({"0", "1", "2", "3"});
  if (at == "support-radius" || at == "shape-parameter")
    return one({"0.5", "1", "2"});
  if (at == "safety-factor")
    return one({"0", "1", "2", "3"});
  if (at == "every-n-time-windows")
    return one({"1", "2", "3"});
  if (at == "vertices-per-cluster")
    return one({"2", "3"});
  if (at == "relative-overlap")
    return one({"0", "0.5"});
  if (at == "geometric-filter")
    return one({"no-filter", "on-primary-rank"});
  if (at == "mode")
    return one({"fundamental", "all", "off"});
  if (tag == "filter" && at == "type")
    return one({"QR1", "QR3"});
  if (tag == "preconditioner" && at == "type")
    return one({"value", "residual", "residual-sum"});
  if (at == "strict" || at == "suffices" || at == "enforce" || at == "reduced-time-grid" || at == "update-on-threshold" || at == "update-series" || at == "every-iteration" || at == "wait-in-finalize" || at == "synchronize" || at == "project-to-input" || at == "scale-with-connectivity")
    return tag != "residual-relative-convergence-measure" && one({"0", "1", "yes", "no", "true", "on", "off"}) && !(at == "strict" && one({"1", "yes", "true", "on"}));
  if (at == "name" && (tag == "watch-point" || tag == "watch-integral"))
    return one({"abc", "1"});
  return false;
}

// ---------------------------------------------------------------- what is done with a configuration
struct Uses {
  std::vector<std::string>                                    names; // participants
  std::map<std::string, std::vector<const Node *>>            part;
};
std::vector<std::string> participants(const Node &r)
{
  std::vector<std::string> o;
  for (auto &k : r.kids)
    if (k.tag == "participant")
      if (auto a = k.attr("name"))
        if (std::find(o.begin(), o.end(), *a) == o.end())
          o.push_back(*a);
  return o;
}
/// what is special about the coupling schemes, to tell apart the defects that are known
std::string peculiarity(const Node &r)
{
  struct Scheme {
    std::set<std::string> who;
    bool                  serial;
    double                end;
  };
  std::vector<Scheme> schemes;
  for (auto &k : r.kids)
    if (k.tag.rfind("coupling-scheme:", 0) == 0) {
      Scheme s{{}, k.tag.find("serial") != std::string::npos, 1e30};
      double windows = 1e30, size = 1;
      for (auto &e : k.kids) {
        for (auto n : {"first", "second"})
          if (e.tag == "participants" && e.attr(n))
            s.who.insert(*e.attr(n));
        if (e.tag == "participant" && e.attr("name"))
          s.who.insert(*e.attr("name"));
        auto   v = e.attr("value");
        double x = v ? std::atof(v->c_str()) : 0;
        if (e.tag == "max-time" && v)
          s.end = x;
        if (e.tag == "max-time-windows" && v)
          windows = x;
        if (e.tag == "time-window-size" && v)
          size = x;
      }
      s.end = std::min(s.end, windows * size);
      schemes.push_back(s);
    }
  std::string o;
  for (size_t i = 0; i < schemes.size(); ++i)
    for (size_t j = 0; j < i; ++j) {
      auto &a = schemes[i], &b = schemes[j];
      bool  meet = std::any_of(a.who.begin(), a.who.end(), [&](auto &w) { return b.who.count(w); });
      if (meet && a.end != b.end)
        return ", schemes of one participant that end at different times";
      if (a.who == b.who && (a.serial || b.serial))
        o = ", several schemes between the same participants and one is serial";
    }
  return o;
}
/// a solver that uses whatever its configuration mentions.  Errors about single data are passed over.
void drive(const Node &r, const std::string &me, Api &a, CaseCtx &ctx, std::string &stage)
{
  std::vector<const Node *> mine;
  for (auto &k : r.kids)
    if (k.tag == "participant" && k.attr("name") && *k.attr("name") == me)
      mine.push_back(&k);
  std::map<std::string, std::vector<int>> ids;
  std::map<std::string, int>              dim;
  auto                                    attempt = [&](auto &&f) {
    try {
      f();
    } catch (const ApiError &e) {
      ctx.count("refused calls");
      if (std::string(e.what()).empty())
        ctx.fail("empty error", "an error without a message");
    }
  };
  stage = "setup";
  for (auto p : mine)
    for (auto &k : p->kids) {
      auto name = k.attr("name");
      if (!name)
        continue;
      if (k.tag == "provide-mesh")
        attempt([&] {
          int d     = a.getMeshDimensions(*name);
          dim[*name] = d;
          VD  c     = d == 2 ? VD{0, 0, 1, 0, 0, 1, 1.1, 1.2, 0.4, 0.3, 2, 0.1} : VD{0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0.2, 0.3, 0.3, 1, 1, 1};
          auto &v   = ids[*name];
          if (!v.empty())
            return;
          v = a.setMeshVertices(*name, c, 6);
          a.requiresMeshConnectivityFor(*name);
          if (d == 3) {
            a.setMeshTetrahedron(*name, v[0], v[1], v[2], v[3]);
            a.setMeshTriangle(*name, v[3], v[4], v[5]);
          }
          a.setMeshTriangle(*name, v[0], v[1], v[2]);
          a.setMeshTriangle(*name, v[1], v[2], v[3]);
          a.setMeshEdge(*name, v[4], v[5]);
        });
      if (k.tag == "receive-mesh")
        attempt([&] {
          int d      = a.getMeshDimensions(*name);
          dim[*name] = d;
          a.setMeshAccessRegion(*name, d == 2 ? VD{-1, 3, -1, 3} : VD{-1, 3, -1, 3, -1, 3});
        });
    }
  double val   = 1;
  auto   write = [&] {
    for (auto p : mine)
      for (auto &k : p->kids)
        if (k.tag == "write-data" && k.attr("name") && k.attr("mesh"))
          attempt([&] {
            auto &m = *k.attr("mesh"), &d = *k.attr("name");
            auto &v = ids[m];
            int   n = a.getDataDimensions(m, d);
            VD    w(v.size() * n);
            for (auto &x : w)
              x = std::sin(val += 0.7);
            a.writeData(m, d, v, w);
            if (a.requiresGradientDataFor(m, d))
              a.writeGradientData(m, d, v, VD(w.size() * dim[m], 0.5));
            VD c(dim[m], 0.25);
            attempt([&] { a.writeAndMapData(m, d, c, VD(n, 0.5)); });
          });
  };
  auto read = [&] {
    for (auto p : mine)
      for (auto &k : p->kids)
        if (k.tag == "read-data" && k.attr("name") && k.attr("mesh"))
          attempt([&] {
            auto &m = *k.attr("mesh"), &d = *k.attr("name");
            auto &v = ids[m];
            int   n = a.getDataDimensions(m, d);
            for (double t : {0.0, 0.3})
              attempt([&] { a.readData(m, d, v, t, static_cast<int>(v.size()) * n); });
            VD c(dim[m], 0.25);
            attempt([&] { a.mapAndReadData(m, d, c, 0.0, n); });
          });
  };
  if (a.requiresInitialData())
    write();
  stage = "initialize";
  a.initialize();
  for (auto p : mine)
    for (auto &k : p->kids)
      if (k.tag == "receive-mesh" && k.attr("name"))
        attempt([&] {
          int n = a.getMeshVertexSize(*k.attr("name"));
          VI  i(n);
          VD  c(n * dim[*k.attr("name")]);
          a.getMeshVertexIDsAndCoordinates(*k.attr("name"), i, c);
          ids[*k.attr("name")] = i;
        });
  for (int s = 0; s < 9 && a.isCouplingOngoing(); ++s) {
    stage = "advance " + std::to_string(s);
    a.requiresWritingCheckpoint();
    double dt = a.getMaxTimeStepSize();
    if (!(dt > 0)) {
      ctx.fail("no time left" + peculiarity(r), me + ": the coupling is ongoing but the maximal time step size is " + num(dt));
      return;
    }
    if (dt > 1e17) // no limit
      dt = 1;
    read();
    write();
    a.advance(s == 1 ? dt / 2 : dt);
    a.requiresReadingCheckpoint();
    ctx.count("transitions");
  }
  stage = "read at the end";
  read();
  stage = "finalize";
  if (a.isCouplingOngoing()) // too long: finalizing early is an error only for the others
    ctx.count("cut short");
  a.finalize();
  stage = "done";
}

} // namespace

int main(int argc, char **argv)
{
  Campaign c("C15", argc, argv);
  c.technique = "explicit enumeration of all mutations of configurations, executed on the real configuration code and coupled runs";
  c.rule      = "a case is a configuration; distinct are the observed verdicts, messages and run results";
  c.assumptions = {"in-memory transport instead of sockets", "serial participants"};
  for (auto &b : bases) {
    size_t p = 0;
    trees.push_back(parse(b.xml, p));
  }
  Sched sched;
  if (!c.lib.empty())
    RankLibs::get().load(c.lib, c.scratchDir(), 6, &sched);
  auto verdict = [&](CaseCtx &ctx, const std::string &file, const std::string &who, bool tool, bool stay = false) {
    // slot 5: the tool locks the logging configuration of its library
    std::string r = "accepted";
    int         slot = tool ? 5 : 4;
    sched.run({[&] {
      Api &a = RankLibs::get().api(slot);
      try {
        if (tool)
          a.checkConfiguration(file, who, 1);
        else {
          a.create(who, file, 0, 1);
          if (!stay)
            a.destroy();
        }
      } catch (const ApiError &e) {
        r = std::string("refused: ") + e.what();
      } catch (const std::exception &e) {
        r = std::string("foreign exception: ") + e.what();
        ctx.fail("foreign exception", who + (tool ? ": checkConfiguration" : ": the constructor") + " throws something that is not a precice::Error: " + e.what());
        ctx.taint = true;
      }
    }},
              {});
    ctx.count(r == "accepted" ? "accepted" : "refused");
    return r;
  };
  auto examine = [&](CaseCtx &ctx, const Node &r, uint64_t i, bool logging = false, const Mutation *rule = nullptr) {
    std::string xml = str(r), file = ctx.dir + "/config.xml";
    for (auto &e : std::filesystem::directory_iterator(ctx.dir))
      std::filesystem::remove_all(e.path());
    writeFile(file, xml);
    auto names = participants(r);
    bool all   = !names.empty();
    std::string verdicts;
    for (auto &n : names) {
      auto t = verdict(ctx, file, n, true);
      auto k = verdict(ctx, file, n, false);
      ctx.observe(t);
      if (ctx.verbose)
        std::cerr << n << " tool: " << t << "\n" << n << " ctor: " << k << "\n";
      // whether somebody takes part in the coupling is not looked at by the tool
      // and it keeps its own logging
      if (n.empty() && t.rfind("refused: ", 0) == 0 && k.rfind("refused: ", 0) == 0)
        continue; // nobody can ask for this one
      if (t != k && !logging && !(t == "accepted" && k.rfind("refused: No coupling scheme defined for participant", 0) == 0))
        ctx.fail("verdicts differ", n + ": checkConfiguration: " + t + "; constructor: " + k);
      all = all && k == "accepted";
      if (k != "accepted")
        verdicts += n + " " + k + " ";
    }
    if (rule) {
      auto no = forbidden(*rule);
      if (!no.empty() && all)
        ctx.fail("accepted although " + no + ": " + rule->name, xml);
      if (allowed(*rule) && !all)
        ctx.fail("refused although allowed: " + rule->name, verdicts);
    }
    // somebody who is not in the configuration
    if (i % 8 == 0) {
      auto t = verdict(ctx, file, "Nobody", false);
      if (t == "accepted")
        ctx.fail("unknown participant", "the constructor accepts a participant that is not configured");
    }
    if (!all || names.size() > 4) {
      ctx.count("configurations refused");
      return;
    }
    ctx.count("configurations accepted");
    Session                  s(sched);
    std::vector<std::string> stage(names.size());
    s.run(static_cast<int>(names.size()), [&](int slot, Api &a) {
      stage[slot] = "create";
      a.create(names[slot], file, 0, 1);
      drive(r, names[slot], a, ctx, stage[slot]);
    },
          policy(i));
    ctx.count("executions");
    auto where = peculiarity(r);
    for (auto &pe : s.out.protocolErrors)
      ctx.fail("protocol" + where, pe);
    if (s.anyError() || !s.out.finished)
      ctx.taint = true;
    if (!s.out.deadlock.empty()) {
      std::string d = s.out.deadlock;
      for (size_t k = 0; k < names.size(); ++k)
        d += "; " + names[k] + " at " + stage[k] + (s.error[k].empty() ? "" : " error " + s.error[k]);
      ctx.fail("deadlock" + where, d);
    }
    for (size_t k = 0; k < names.size(); ++k) {
      ctx.observe(stage[k] + s.error[k]);
      if (ctx.verbose)
        std::cerr << names[k] << " " << stage[k] << " " << s.error[k] << "\n";
      if (s.error[k].rfind("std::exception", 0) == 0)
        ctx.fail("foreign exception", names[k] + " in " + stage[k] + ": " + s.error[k]);
    }
    ctx.count(s.anyError() ? "runs ended by an error" : "complete runs");
  };

  std::vector<Mutation> single;
  for (size_t b = 0; b < bases.size(); ++b)
    catalogue(static_cast<int>(b), single);
  c.stage("unchanged", bases.size(), [&](uint64_t i) { return bases[i].name; }, [&](CaseCtx &ctx, uint64_t i) {
    examine(ctx, trees[i], i);
    for (auto &n : participants(trees[i])) {
      auto v = verdict(ctx, ctx.dir + "/config.xml", n, true);
      if (v != "accepted")
        ctx.fail("base refused", n + ": " + v);
    }
  });
  c.stage("single", single.size(), [&](uint64_t i) { return show(single[i]); }, [&](CaseCtx &ctx, uint64_t i) {
    Node r = trees[single[i].base];
    if (!apply(r, single[i]))
      throw std::runtime_error("mutation does not apply");
    examine(ctx, r, i, !single[i].path.empty() && trees[single[i].base].kids[single[i].path[0]].tag == "log", &single[i]);
  });
  return c.finish();
}
