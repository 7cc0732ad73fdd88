// P13: coordinates of the alignment, the structures and their attachments
// follow from the current state of the line alone.
#include "line.h"
#include "model.h"

using namespace vp;
using namespace line;

namespace {

typedef long double LD;
struct XY {
  LD x, y;
};
XY Dir(LD degrees) { return {cosl(degrees * M_PIl / 180), sinl(degrees * M_PIl / 180)}; }

struct Geometry {
  const Model& m;
  std::vector<LD> heading;  // of every segment (at least one)
  std::vector<Point3d<double>> at;
  explicit Geometry(const Model& mm) : m(mm) {
    LD h = 0, x = m.ox, y = m.oy;
    for (size_t i = 0; i < m.points.size(); i++) {
      if (i > 0) {
        const LD d = static_cast<LD>(m.points[i].station) - m.points[i - 1].station;
        x += d * Dir(h).x;
        y += d * Dir(h).y;
      }
      at.push_back(Point3d<double>(static_cast<double>(x), static_cast<double>(y),
                                   m.oz + m.points[i].elevation - m.points[0].elevation));
      h += m.points[i].rotation;
      heading.push_back(h);
    }
  }
  Point3d<double> Point(double s) const {
    if (!m.OnAlignment(s)) return Point3d<double>(-999999, -999999, -999999);
    size_t i = 0;
    while (i + 2 < m.points.size() && m.points[i + 1].station <= s) i++;
    if (m.points.size() == 1) return at[0];
    const LD d = static_cast<LD>(s) - m.points[i].station;
    const LD f = d / (static_cast<LD>(m.points[i + 1].station) - m.points[i].station);
    return Point3d<double>(static_cast<double>(at[i].x + d * Dir(heading[i]).x), static_cast<double>(at[i].y + d * Dir(heading[i]).y),
                           static_cast<double>(at[i].z + f * (m.points[i + 1].elevation - m.points[i].elevation)));
  }
  // orientation of a structure: along its segment, or halfway at a turn
  LD Along(double s) const {
    for (size_t i = 1; i + 1 < m.points.size(); i++)
      if (m.points[i].station == s) return heading[i] - m.points[i].rotation / 2;
    size_t i = 0;
    while (i + 2 < m.points.size() && m.points[i + 1].station <= s) i++;
    return heading[i];
  }
  Point3d<double> Attachment(const MStructure& s, const Structure& b, size_t a) const {
    const StructureAttachment& k = b.attachments[a];
    const XY r = Dir(s.rotation);
    const LD u = k.offset_longitudinal * r.x + k.offset_transverse * r.y;
    const LD v = k.offset_longitudinal * r.y - k.offset_transverse * r.x - s.offset;
    const XY q = Dir(Along(s.station));
    const Point3d<double> p = Point(s.station);
    return Point3d<double>(static_cast<double>(p.x + u * q.x - v * q.y), static_cast<double>(p.y + u * q.y + v * q.x),
                           static_cast<double>(static_cast<LD>(p.z) + s.adjust + b.height + k.offset_vertical_top));
  }
};

void Same(Case& c, const std::string& what, const Point3d<double>& a, const Point3d<double>& b) {
  const double tol = 1e-7;
  if (Near(a.x, b.x, tol, 1e-12) && Near(a.y, b.y, tol, 1e-12) && Near(a.z, b.z, tol, 1e-12)) return;
  c.Fail(Cat(what, " is (", a.x, ", ", a.y, ", ", a.z, "), expected (", b.x, ", ", b.y, ", ", b.z, ")"));
}

const Point3d<double> kNowhere(-999999, -999999, -999999);

// one randomly chosen question about the coordinates
void Query(World& w, const TransmissionLine& l, int kind) {
  Case& c = w.c;
  const Geometry g(w.model);
  const size_t n = w.model.stands.size();
  switch (kind) {
    case 0: {
      const auto* p = l.PointsXyzAlignment();
      Check(c, p && p->size() == g.at.size(), "number of alignment points");
      for (size_t i = 0; i < g.at.size(); i++) Same(c, Cat("alignment point ", i), (*p)[i], g.at[i]);
      break;
    }
    case 1: {
      const auto* p = l.PointsXyzLineStructures();
      Check(c, p && p->size() == n, "number of structure points");
      for (size_t i = 0; i < n; i++) Same(c, Cat("structure ", i), (*p)[i], g.Point(w.model.stands[i].station));
      break;
    }
    case 2: {
      double s = w.rich ? c.Real(-100, 5100, 0) : 25.0 * static_cast<double>(c.Int(-1, 50));
      if (!w.model.points.empty() && c.Chance(1, 3)) s = c.Pick(w.model.points).station;
      Same(c, Cat("alignment at ", s), l.PointXyzAlignment(s), g.Point(s));
      break;
    }
    case 3: {
      const int i = w.GenIndex(n);
      Same(c, Cat("structure ", i), l.PointXyzLineStructure(i), World::Has(i, n) ? g.Point(w.model.stands[static_cast<size_t>(i)].station) : kNowhere);
      break;
    }
    default: {
      const int i = w.GenIndex(n);
      const bool has = World::Has(i, n) && w.model.stands[static_cast<size_t>(i)].base >= 0;
      const Structure* b = has ? &w.parts.structure[w.model.stands[static_cast<size_t>(i)].base] : nullptr;
      const int a = w.GenIndex(has ? b->attachments.size() : 2);
      const bool ok = has && World::Has(a, b->attachments.size());
      Same(c, Cat("structure ", i, " attachment ", a), l.PointXyzLineStructureAttachment(i, a),
           ok ? g.Attachment(w.model.stands[static_cast<size_t>(i)], *b, static_cast<size_t>(a)) : kNowhere);
    }
  }
}

void SetOrigin(World& w) {
  Case& c = w.c;
  w.model.ox = c.Real(-1e4, 1e4, 0), w.model.oy = c.Real(-1e4, 1e4, 0), w.model.oz = c.Real(-1e3, 1e4, 0);
  c.Note(Cat("origin ", w.model.ox, ", ", w.model.oy, ", ", w.model.oz));
  w.line->set_origin(Point3d<double>(w.model.ox, w.model.oy, w.model.oz));
}

void Begin(World& w) {
  w.line->set_origin(Point3d<double>(0, 0, 0));
  w.Start();
}

void LawGeometry(Case& c) {
  Parts parts(c, false);
  World w(c, parts);
  w.rich = true;
  if (c.Bool()) SetOrigin(w); else w.line->set_origin(Point3d<double>(0, 0, 0));
  w.Start();
  for (size_t i = 0; i < 2; i++) Query(w, *w.line, static_cast<int>(i));
  const int n = static_cast<int>(c.Int(4, 16));
  for (int i = 0; i < n; i++) Query(w, *w.line, static_cast<int>(c.Int(2, 4)));
  int turns = 0;
  for (const MPoint& p : w.model.points) turns += p.rotation != 0;
  c.NonTrivial(w.model.points.size() > 2 && turns > 1 && w.model.stands.size() > 1);
}

// asked for at any moment of a history, coordinates are those of that moment
void LawFresh(Case& c) {
  Parts parts(c, false);
  World w(c, parts);
  w.rich = c.Bool();
  Begin(w);
  const int n = static_cast<int>(c.Int(1, 25));
  int asked = 0;
  for (int i = 0; i < n; i++) {
    if (c.Chance(1, 8)) SetOrigin(w); else w.Step();
    const int q = static_cast<int>(c.Int(0, 5));
    if (q < 5) {
      c.Note(Cat("ask ", q));
      Query(w, *w.line, q);
      asked++;
    }
    if (c.Chance(1, 10)) {
      // a copy answers like the original
      const TransmissionLine copy(*w.line);
      Query(w, copy, static_cast<int>(c.Int(0, 4)));
    }
  }
  c.NonTrivial(asked > 3 && w.model.stands.size() > 0 && w.accepted > 6);
}

}  // namespace

Property vp::MakeProperty() {
  return {"P13",
          {"turns stay below 180 degrees and rotations are zero or above 0.01 degree", "base structures outlive the line"},
          {{"geometry", "two turns and two structures", 60000, 1500000, LawGeometry},
           {"fresh", "several questions between several accepted edits", 40000, 1000000, LawFresh}},
          {}};
}
