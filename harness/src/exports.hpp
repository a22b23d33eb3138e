// Readers for exported files
#pragma once
#include <algorithm>
#include <array>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace verif {

struct Exported {
  std::string                                error; ///< why the file could not be read
  std::vector<std::array<double, 3>>         points;
  std::vector<std::vector<int>>              cells; ///< ids of edges (2), triangles (3), tetrahedra (4)
  std::map<std::string, std::vector<double>> data;
  std::map<std::string, int>                 comps;

  std::multiset<std::vector<int>> of(size_t n) const
  {
    std::multiset<std::vector<int>> r;
    for (auto c : cells)
      if (c.size() == n) {
        std::sort(c.begin(), c.end());
        r.insert(c);
      }
    return r;
  }
};
inline std::string slurp(const std::string &f)
{
  std::ifstream      i(f);
  std::ostringstream o;
  o << i.rdbuf();
  return o.str();
}
inline bool fileExists(const std::string &f)
{
  return std::filesystem::exists(f);
}
inline std::string attribute(const std::string &tag, const std::string &name)
{
  auto p = tag.find(" " + name + "=\"");
  if (p == std::string::npos)
    return "";
  p += name.size() + 3;
  return tag.substr(p, tag.find('"', p) - p);
}
inline std::vector<double> numbers(const std::string &s)
{
  std::vector<double> v;
  const char         *p = s.c_str();
  for (;;) {
    char  *e;
    double d = std::strtod(p, &e);
    if (e == p)
      break;
    v.push_back(d);
    p = e;
  }
  return v;
}
struct XmlArray {
  std::string         section, name; // section: Points, Cells, PointData, Lines, Polys
  int                 comps = 1;
  std::vector<double> v;
};
inline std::vector<XmlArray> xmlArrays(const std::string &s)
{
  std::vector<XmlArray> r;
  std::string           section;
  for (size_t p = s.find('<'); p != std::string::npos; p = s.find('<', p + 1)) {
    auto        e   = s.find('>', p);
    std::string tag = s.substr(p, e - p + 1);
    for (const char *n : {"Points", "Cells", "PointData", "Lines", "Polys", "Verts"})
      if (tag.rfind(std::string("<") + n, 0) == 0 && (tag[1 + std::string(n).size()] == ' ' || tag[1 + std::string(n).size()] == '>'))
        section = n;
    if (tag.rfind("<DataArray", 0) == 0) {
      XmlArray a;
      a.section = section;
      a.name    = attribute(tag, "Name");
      a.comps   = std::atoi(attribute(tag, "NumberOfComponents").c_str());
      auto end  = s.find("</DataArray>", e);
      if (end != std::string::npos)
        a.v = numbers(s.substr(e + 1, end - e - 1));
      r.push_back(a);
    }
  }
  return r;
}
/// VTU and VTP pieces
inline Exported readXML(const std::string &file)
{
  Exported x;
  if (!fileExists(file)) {
    x.error = "the file does not exist";
    return x;
  }
  std::string s = slurp(file);
  if (s.find("</VTKFile>") == std::string::npos)
    x.error = "the file is not complete";
  auto piece = s.find("<Piece ");
  if (piece == std::string::npos) {
    x.error = "no piece";
    return x;
  }
  std::string tag     = s.substr(piece, s.find('>', piece) - piece);
  int         npoints = std::atoi(attribute(tag, "NumberOfPoints").c_str());
  auto        arrays  = xmlArrays(s);
  std::map<std::string, std::vector<int>> conn, off, types;
  for (auto &a : arrays) {
    if (a.section == "Points")
      for (size_t i = 0; i + 2 < a.v.size(); i += 3)
        x.points.push_back({a.v[i], a.v[i + 1], a.v[i + 2]});
    else if (a.section == "PointData") {
      if (x.data.count(a.name))
        x.error = "two arrays have the name " + a.name;
      x.data[a.name]  = a.v;
      x.comps[a.name] = a.comps;
      if (static_cast<int>(a.v.size()) != npoints * a.comps)
        x.error = "array " + a.name + " has " + std::to_string(a.v.size()) + " values for " + std::to_string(npoints) + " points";
    } else {
      auto &m = a.name == "connectivity" ? conn : a.name == "offsets" ? off : types;
      for (double d : a.v)
        m[a.section].push_back(static_cast<int>(d));
    }
  }
  if (static_cast<int>(x.points.size()) != npoints)
    x.error = "number of points";
  for (auto &o : off) {
    int from = 0;
    size_t k = 0;
    for (int to : o.second) {
      std::vector<int> c;
      auto            &src = conn[o.first];
      if (to < from || to > static_cast<int>(src.size())) {
        x.error = "invalid offset";
        return x;
      }
      for (int i = from; i < to; ++i)
        c.push_back(src[i]);
      for (int id : c)
        if (id < 0 || id >= npoints)
          x.error = "invalid id of a point";
      if (o.first == "Cells") {
        int t = k < types[o.first].size() ? types[o.first][k] : -1;
        if ((t == 3 ? 2 : t == 5 ? 3 : t == 10 ? 4 : 0) != static_cast<int>(c.size()))
          x.error = "type of a cell";
      }
      x.cells.push_back(c);
      from = to;
      ++k;
    }
    if (from != static_cast<int>(conn[o.first].size()))
      x.error = "offsets do not cover the connectivity";
  }
  auto count = [&](const char *a) { auto v = attribute(tag, a); return v.empty() ? -1 : std::atoi(v.c_str()); };
  if (count("NumberOfCells") >= 0 && count("NumberOfCells") != static_cast<int>(x.cells.size()))
    x.error = "number of cells";
  if (count("NumberOfLines") >= 0 && count("NumberOfLines") != static_cast<int>(x.of(2).size()))
    x.error = "number of lines";
  if (count("NumberOfPolys") >= 0 && count("NumberOfPolys") != static_cast<int>(x.of(3).size()))
    x.error = "number of polygons";
  return x;
}
/// pieces named by a parallel file
inline std::vector<std::string> readPieces(const std::string &file)
{
  std::vector<std::string> r;
  std::string              s = slurp(file);
  for (size_t p = s.find("<Piece "); p != std::string::npos; p = s.find("<Piece ", p + 1))
    r.push_back(attribute(s.substr(p, s.find('>', p) - p), "Source"));
  return r;
}
/// legacy VTK
inline Exported readVTK(const std::string &file)
{
  Exported x;
  if (!fileExists(file)) {
    x.error = "the file does not exist";
    return x;
  }
  std::istringstream in(slurp(file));
  std::string        w;
  int                n = 0;
  while (in >> w) {
    if (w == "POINTS") {
      in >> n >> w;
      for (int i = 0; i < n; ++i) {
        std::array<double, 3> p{};
        in >> p[0] >> p[1] >> p[2];
        x.points.push_back(p);
      }
    } else if (w == "CELLS") {
      int k, total;
      in >> k >> total;
      for (int i = 0; i < k; ++i) {
        int m;
        in >> m;
        total -= m + 1;
        std::vector<int> c(m);
        for (auto &v : c) {
          in >> v;
          if (v < 0 || v >= n)
            x.error = "invalid id of a point";
        }
        x.cells.push_back(c);
      }
      if (total)
        x.error = "size of cells";
    } else if (w == "CELL_TYPES") {
      int k;
      in >> k;
      if (k != static_cast<int>(x.cells.size()))
        x.error = "number of cell types";
      for (int i = 0; i < k; ++i) {
        int t;
        in >> t;
        if ((t == 3 ? 2 : t == 5 ? 3 : t == 10 ? 4 : 0) != static_cast<int>(x.cells[i].size()))
          x.error = "type of a cell";
      }
    } else if (w == "SCALARS" || w == "VECTORS") {
      bool        vec = w == "VECTORS";
      std::string name, type, line;
      in >> name >> type;
      std::getline(in, line);
      if (!vec)
        std::getline(in, line); // LOOKUP_TABLE
      std::vector<double> v(n * (vec ? 3 : 1));
      for (auto &d : v)
        if (!(in >> d))
          x.error = "values of " + name;
      if (x.data.count(name))
        x.error = "two arrays have the name " + name;
      x.data[name]  = v;
      x.comps[name] = vec ? 3 : 1;
    }
  }
  return x;
}
inline Exported readCSV(const std::string &file, int dim)
{
  Exported x;
  if (!fileExists(file)) {
    x.error = "the file does not exist";
    return x;
  }
  std::istringstream       in(slurp(file));
  std::string              line, w;
  std::vector<std::string> head;
  std::getline(in, line);
  std::istringstream h(line);
  while (std::getline(h, w, ';'))
    head.push_back(w);
  std::set<std::string> unique(head.begin(), head.end());
  if (unique.size() != head.size())
    x.error = "column names are not unique";
  while (std::getline(in, line)) {
    std::istringstream  l(line);
    std::vector<double> row;
    while (std::getline(l, w, ';'))
      row.push_back(std::strtod(w.c_str(), nullptr));
    if (row.size() != head.size()) {
      x.error = "number of columns";
      return x;
    }
    x.points.push_back({row[0], row[1], dim == 3 ? row[2] : 0});
    for (size_t i = dim; i < head.size(); ++i)
      x.data[head[i]].push_back(row[i]);
  }
  for (size_t i = dim; i < head.size(); ++i) {
    x.comps[head[i]] = 1;
    x.data[head[i]];
  }
  return x;
}
/// entries (name, time) of a series file
inline std::vector<std::pair<std::string, double>> readSeries(const std::string &file)
{
  std::vector<std::pair<std::string, double>> r;
  std::string                                 s = slurp(file);
  for (size_t p = s.find("\"name\" : \""); p != std::string::npos; p = s.find("\"name\" : \"", p + 1)) {
    auto        b = p + 10, e = s.find('"', b);
    std::string name = s.substr(b, e - b);
    auto        t    = s.find("\"time\" : ", e);
    r.push_back({name, t == std::string::npos ? -1 : std::strtod(s.c_str() + t + 9, nullptr)});
  }
  return r;
}
} // namespace verif
