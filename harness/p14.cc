// P14: where the cable of a line hangs: attachment points held by strings in
// balance, spans along the catenary between them.
#include <list>
#include <memory>
#include <vector>

#include "engine.h"
#include "history.h"
#include "model.h"
#include "models/transmissionline/cable_position_locator.h"

using namespace vp;
using model::Deg;
using model::Rad;

namespace {

struct Stand {
  double station, elevation, turn, height, lon, tra, drop, offset, adjust, rotation, string;
};
struct In {
  std::vector<Stand> stands;
  double start;  // heading of the first span
  double H, wy, wz;
  bool negative;
};

In Gen(Case& c) {
  In i;
  const int n = static_cast<int>(c.Chance(1, 15) ? c.Int(8, 14) : c.Int(2, 7));
  double station = 0, longest = 0, elevation = 2500;
  const bool windy = c.Bool(), level = windy && !c.Chance(1, 4);
  for (int k = 0; k < n; k++) {
    Stand s;
    const double d = k == 0 ? 0 : c.Bool() ? 1000 : c.LogReal(300, 2500, 500);
    const double h = level || c.Bool() ? 0 : c.Real(-0.15, 0.15, 0) * d;
    station += d;
    elevation += h;
    longest = std::fmax(longest, std::hypot(d + 60, std::fabs(h) + 60));
    s.station = station;
    s.elevation = elevation;
    s.turn = k == 0 || c.Bool() ? 0 : c.Chance(1, 6) ? c.Real(-130, 130, 90) : c.Real(-75, 75, 10);
    if (std::fabs(s.turn) < 0.01) s.turn = 0;
    s.height = level || c.Bool() ? 100 : c.Real(40, 150, 50);
    s.lon = c.Chance(2, 3) ? 0 : c.Real(-10, 10, 0);
    s.tra = c.Chance(1, 3) ? 0 : c.Real(-25, 25, 5);
    s.drop = level || c.Bool() ? 0 : c.Real(0, 20, 1);
    s.offset = c.Chance(3, 4) ? 0 : c.Real(-20, 20, 1);
    s.adjust = level || c.Chance(3, 4) ? 0 : c.Real(0, 10, 1);
    s.rotation = c.Chance(3, 4) ? 0 : c.Chance(1, 3) ? c.Real(-360, 360, 180) : c.Real(-30, 30, 1);
    s.string = c.Bool() ? 10 : c.Real(0, 20, 5);
    i.stands.push_back(s);
  }
  i.start = c.Bool() ? 0 : c.Bool() ? 45.0 * static_cast<double>(c.Int(1, 7)) : c.Real(0.01, 359, 30);
  i.wz = c.LogReal(0.2, 8, 1);
  i.wy = !windy ? 0 : i.wz * c.LogReal(0.01, 5, 1);
  i.negative = c.Bool();
  i.H = longest * std::hypot(i.wy, i.wz) * (c.Chance(1, 4) ? c.LogReal(1.01, 30, 3) : c.LogReal(1.01, 4, 2));
  return i;
}
std::string Show(const In& i) {
  std::string s = Cat("H ", i.H, " load (", i.wy, ", ", i.wz, ") wind ", i.negative ? "-" : "+", " heading ", i.start);
  for (const Stand& t : i.stands)
    s += Cat("\n  at ", t.station, " elevation ", t.elevation, " turn ", t.turn, " height ", t.height, " attachment (", t.lon, ", ",
             t.tra, ", ", t.drop, ") offset ", t.offset, " adjust ", t.adjust, " rotation ", t.rotation, " string ", t.string);
  return s;
}

// the library objects of a case; stays put once built
struct World {
  std::vector<Structure> bases;
  std::vector<Hardware> strings;
  Hardware decoy;  // on an attachment without a cable
  Cable cable;
  WeatherLoadCase weather;
  TransmissionLine line;
  Vector3d weight;
  explicit World(const In& i, bool second = false) {
    const size_t n = i.stands.size();
    bases.resize(n);
    strings.resize(n);
    line.set_origin(Point3d<double>(0, 0, 0));
    decoy.type = Hardware::HardwareType::kSuspension;
    decoy.area_cross_section = 1;
    decoy.weight = 2;
    decoy.length = 13;
    for (size_t k = 0; k < n; k++) {
      AlignmentPoint p;
      p.station = i.stands[k].station;
      p.elevation = i.stands[k].elevation;
      p.rotation = k == 0 ? i.start : i.stands[k].turn;
      line.AddAlignmentPoint(p);
    }
    for (size_t k = 0; k < n; k++) {
      const Stand& s = i.stands[k];
      bases[k].height = s.height;
      bases[k].attachments.resize(second ? 3 : 2);
      bases[k].attachments[0].offset_longitudinal = s.lon;
      bases[k].attachments[0].offset_transverse = s.tra;
      bases[k].attachments[0].offset_vertical_top = s.drop;
      bases[k].attachments.back() = bases[k].attachments[0];
      bases[k].attachments.back().offset_transverse -= 7;
      if (second) {
        bases[k].attachments[1] = bases[k].attachments[0];
        bases[k].attachments[1].offset_transverse += 10;
      }
      Hardware& h = strings[k];
      h.type = k == 0 || k + 1 == n ? Hardware::HardwareType::kDeadEnd : Hardware::HardwareType::kSuspension;
      h.area_cross_section = 1;
      h.weight = 0;
      h.length = s.string;
      LineStructure l;
      l.set_station(s.station);
      l.set_offset(s.offset);
      l.set_rotation(s.rotation);
      l.set_height_adjustment(s.adjust);
      l.set_structure(&bases[k]);
      l.AttachHardware(0, &h);
      if (second) l.AttachHardware(1, &h);
      if (k % 2 == 1) l.AttachHardware(second ? 2 : 1, &decoy);
      line.AddLineStructure(l);
    }
    cable.diameter = 1;
    cable.weight_unit = 1;
    cable.area_physical = 0.1;
    weather.temperature_cable = 0;
    weather.thickness_ice = weather.density_ice = weather.pressure_wind = 0;
    LineCable k;
    k.set_cable(&cable);
    k.set_spacing_attachments_ruling_span(Vector3d(1000, 0, 0));
    k.set_weathercase_stretch_creep(&weather);
    k.set_weathercase_stretch_load(&weather);
    CableConstraint q;
    q.case_weather = &weather;
    q.condition = CableConditionType::kInitial;
    q.limit = 5000;
    q.type_limit = CableConstraint::LimitType::kHorizontalTension;
    k.set_constraint(q);
    for (const LineStructure& l : *line.line_structures()) {
      LineCableConnection m;
      m.index_attachment = 0;
      m.line_structure = &l;
      k.AddConnection(m);
    }
    line.AddLineCable(k);
    if (second) {
      for (int n = 0; n < static_cast<int>(i.stands.size()); n++) {
        LineCableConnection m = *std::next(k.connections()->begin(), n);
        m.index_attachment = 1;
        k.ModifyConnection(n, m);
      }
      line.AddLineCable(k);
    }
    weight = Vector3d(0, i.wy, i.wz);
  }
};
void Set(CablePositionLocator& s, const In& i, const World& w) {
  s.set_transmission_line(&w.line);
  s.set_index_line_cable(0);
  s.set_tension_horizontal(i.H);
  s.set_weight_unit(&w.weight);
  s.set_direction_wind(i.negative ? AxisDirectionType::kNegative : AxisDirectionType::kPositive);
}

struct V {
  double x, y, z;
};
V Sub(const Point3d<double>& a, const Point3d<double>& b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
double Len(const V& v) { return std::sqrt(v.x * v.x + v.y * v.y + v.z * v.z); }
double Plan(const V& v) { return std::hypot(v.x, v.y); }
std::string Show(const Point3d<double>& p) { return Cat("(", p.x, ", ", p.y, ", ", p.z, ")"); }

Catenary3d SpanOf(const In& i, const World& w, const V& d) {
  Catenary3d k;
  k.set_spacing_endpoints(Vector3d(Plan(d), 0, d.z));
  k.set_weight_unit(w.weight);
  k.set_tension_horizontal(i.H);
  k.set_direction_transverse(i.negative ? AxisDirectionType::kNegative : AxisDirectionType::kPositive);
  return k;
}
// a vector given along a span, seen in the line's coordinates
V Turned(const V& v, const V& along) {
  const double p = Plan(along), x = along.x / p, y = along.y / p;
  return {v.x * x - v.y * y, v.x * y + v.y * x, v.z};
}
V End(const Catenary3d& k, double f, const V& along) {
  const Vector3d t = k.Tension(f, f == 0 ? AxisDirectionType::kPositive : AxisDirectionType::kNegative);
  return Turned({t.x(), t.y(), t.z()}, along);
}

struct Hold {
  V pull;      // of both spans on the string
  double weak;  // how far a change of the string angle changes the pull
};
// pull of the spans at interior support k
Hold HoldAt(const In& i, const World& w, const std::vector<Point3d<double>>& p, size_t k) {
  const V b = Sub(p[k], p[k - 1]), a = Sub(p[k + 1], p[k]);
  const V t = End(SpanOf(i, w, b), 1, b), u = End(SpanOf(i, w, a), 0, a);
  Hold h;
  h.pull = {t.x + u.x, t.y + u.y, t.z + u.z};
  return h;
}

// the direction between the two spans at a support
V AlongAt(const std::vector<Point3d<double>>& p, size_t k) {
  const V a = Sub(p[k + 1], p[k]), b = Sub(p[k], p[k - 1]);
  const V l = {a.x / Plan(a) + b.x / Plan(b), a.y / Plan(a) + b.y / Plan(b), 0};
  return {l.x / Plan(l), l.y / Plan(l), 0};
}

typedef std::vector<Point3d<double>> Points;
Points Supports(const In& i, const World& w) {
  Points p;
  for (size_t k = 0; k < i.stands.size(); k++) p.push_back(w.line.PointXyzLineStructureAttachment(static_cast<int>(k), 0));
  return p;
}

// Reference: every string hangs in the plane across the line at its structure
// and points along the pull of its two spans.  False if the strings do not
// settle, hang almost unloaded, or keep an uneven pull along the line, which
// inclined spans in the wind have (known finding of P06).
bool Settle(const In& i, const World& w, Points* out, double* weakest) {
  const Points s = Supports(i, w);
  const size_t n = s.size();
  Points p = s;
  for (size_t k = 1; k + 1 < n; k++) p[k].z -= i.stands[k].string;
  std::vector<V> across;
  for (size_t k = 0; k < n; k++) {
    V l = {0, 0, 0};
    if (k > 0 && k + 1 < n) l = AlongAt(s, k);
    across.push_back({-l.y, l.x, 0});
  }
  for (int round = 0; round < 80; round++) {
    double moved = 0, uneven = 0;
    Points q = p;
    *weakest = 1e300;
    for (size_t k = 1; k + 1 < n; k++) {
      const V t = HoldAt(i, w, p, k).pull, l = AlongAt(p, k);
      const double side = -t.x * l.y + t.y * l.x, size = std::hypot(side, t.z), string = i.stands[k].string;
      q[k].x = s[k].x + string * side / size * across[k].x;
      q[k].y = s[k].y + string * side / size * across[k].y;
      q[k].z = s[k].z + string * t.z / size;
      *weakest = std::fmin(*weakest, size);
      uneven = std::fmax(uneven, std::fabs(t.x * l.x + t.y * l.y));
      moved = std::fmax(moved, Len(Sub(q[k], p[k])));
    }
    p = q;
    if (moved < 1e-7) {
      *out = p;
      return round < 40 && uneven < 3.5 && *weakest > 40;
    }
  }
  return false;
}
bool Tame(const In& i, const World& w) {
  Points p;
  double weakest;
  return Settle(i, w, &p, &weakest);
}

void LawBalance(Case& c) {
  const In i = Gen(c);
  c.Note(Show(i));
  World w(i);
  Points settled;
  double weakest;
  if (!Settle(i, w, &settled, &weakest)) c.Reject();
  Check(c, w.line.line_cables()->size() == 1, "the cable is on the line");
  CablePositionLocator s;
  Set(s, i, w);
  if (c.Bool()) {
    std::list<ErrorMessage> m;
    Check(c, s.Validate(c.Bool(), &m) && m.empty(), "complete inputs are valid");
  }
  const auto* p = s.PointsCableAttachment();
  Check(c, p != nullptr, "a solution is found");
  const size_t n = i.stands.size();
  Check(c, p->size() == n, "one point per connection");
  bool swung = false;
  for (size_t k = 0; k < n; k++) {
    const Point3d<double> q = w.line.PointXyzLineStructureAttachment(static_cast<int>(k), 0);
    const V u = Sub((*p)[k], q);
    if (k == 0 || k + 1 == n) {
      CheckNear(c, "a dead-end leaves the structure attachment by", Len(u), 0, 1e-9, 0);
      continue;
    }
    CheckNear(c, "string length", Len(u), i.stands[k].string, 1e-7, 0);
    const double slack = 1e-3 + 3 * i.stands[k].string * 5 / weakest;
    Check(c, Len(Sub((*p)[k], settled[k])) <= slack, Cat("attachment ", k, " at ", Show((*p)[k]), ", expected ", Show(settled[k]), " within ", slack));
  }
  // with points known, every string points where the cable pulls
  for (size_t k = 1; k + 1 < n; k++) {
    const double string = i.stands[k].string;
    if (string < 0.5) continue;
    const Point3d<double> q = w.line.PointXyzLineStructureAttachment(static_cast<int>(k), 0);
    V u = Sub((*p)[k], q);
    u = {u.x / string, u.y / string, u.z / string};
    const V t = HoldAt(i, w, *p, k).pull;
    const V l = AlongAt(*p, k);
    const V side = {-l.y, l.x, 0};
    const double ty = t.x * side.x + t.y * side.y, uy = u.x * side.x + u.y * side.y;
    const double pull = std::hypot(ty, t.z);
    if (std::fabs(uy) > 0.05) swung = true;
    // the strings are placed within an imbalance of 5
    const double slack = 6 + 2e-3 * pull + 1e-6 * i.H;
    const double off = ty * u.z - t.z * uy;
    Check(c, std::fabs(off) <= slack, Cat("the string at ", k, " ", Show(Point3d<double>(u.x, u.y, u.z)), " is off the pull (", ty, " aside, ", t.z,
                                          " up) by ", off, ", at most ", slack));
    Check(c, ty * uy + t.z * u.z > 0 || pull < 10, Cat("the cable pulls on the string at ", k));
  }
  c.NonTrivial(n > 2 && swung);
  // the spans
  const int span = static_cast<int>(c.Int(0, static_cast<int64_t>(n) - 2)), num = static_cast<int>(c.Chance(1, 20) ? c.Int(41, 3000) : c.Int(2, 40));
  const std::list<Point3d<double>> pts = s.PointsCable(span, num);
  Check(c, pts.size() == static_cast<size_t>(num), "number of span points");
  const Point3d<double> from = (*p)[static_cast<size_t>(span)];
  const V d = Sub((*p)[static_cast<size_t>(span) + 1], from);
  const Catenary3d k = SpanOf(i, w, d);
  int j = 0;
  for (const Point3d<double>& q : pts) {
    const Point3d<double> r = k.Coordinate(static_cast<double>(j) / (num - 1));
    const V g = Turned({r.x, r.y, r.z}, d), o = Sub(q, from);
    if (!(Len({g.x - o.x, g.y - o.y, g.z - o.z}) <= 1e-5 + 1e-6 * Len(d)))
      c.Fail(Cat("span point ", j, " of ", num, " is ", Show(q), ", expected ", from.x + g.x, ", ", from.y + g.y, ", ", from.z + g.z));
    j++;
  }
  const V e = Sub(pts.back(), (*p)[static_cast<size_t>(span) + 1]), f = Sub(pts.front(), from);
  // turns below 0.00005 degrees may be left out
  const double skip = 1e-5 + 1e-6 * Len(d);
  Check(c, Len(f) <= 1e-6 && Len(e) <= skip, "spans run from attachment to attachment");
  for (int bad : {-1, static_cast<int>(n) - 1, static_cast<int>(n), static_cast<int>(n) + 5})
    Check(c, s.PointsCable(bad, 3).empty(), "no points for a span that isn't there");
}

// turning the whole line in plan turns the cable; mirroring it mirrors it
void LawFrame(Case& c) {
  const In i = Gen(c);
  World w(i);
  if (!Tame(i, w)) c.Reject();
  In j = i;
  const bool mirror = c.Bool();
  const double turn = c.Bool() ? 45.0 * static_cast<double>(c.Int(0, 7)) : c.Real(0.01, 359, 90);
  j.start = mirror ? -i.start : i.start + turn;
  if (mirror) {
    j.negative = !i.negative;
    for (Stand& s : j.stands) {
      s.turn = -s.turn;
      s.tra = -s.tra;
      s.offset = -s.offset;
      s.rotation = -s.rotation;
    }
  }
  c.Note(Show(i));
  c.Note(mirror ? "mirrored" : Cat("turned by ", turn));
  World v(j);
  CablePositionLocator s, t;
  Set(s, i, w);
  Set(t, j, v);
  const auto *p = s.PointsCableAttachment(), *q = t.PointsCableAttachment();
  Check(c, p && q, "solutions are found");
  c.NonTrivial(p->size() > 2 && i.wy > 0);
  for (size_t k = 0; k < p->size(); k++) {
    const V a = Sub((*p)[k], Point3d<double>(0, 0, 0));
    const V e = mirror ? V{a.x, -a.y, a.z} : Turned(a, {std::cos(Rad(turn)), std::sin(Rad(turn)), 0});
    const V g = Sub((*q)[k], Point3d<double>(0, 0, 0));
    if (!(Len({e.x - g.x, e.y - g.y, e.z - g.z}) <= 1e-4 * (1 + i.stands[k].string)))
      c.Fail(Cat("attachment ", k, " at ", Show((*q)[k]), ", expected (", e.x, ", ", e.y, ", ", e.z, ")"));
  }
}

void LawEdits(Case& c) {
  In i = Gen(c), o = Gen(c);
  World w(i), v(o);
  CablePositionLocator s;
  Set(s, i, w);
  const World* at = &w;
  Vector3d weight[2] = {w.weight, v.weight};
  s.set_weight_unit(&weight[0]);
  int which = 0;
  double H = i.H;
  bool negative = i.negative;
  const int n = static_cast<int>(c.Int(1, 6));
  for (int k = 0; k < n; k++) {
    switch (c.Int(0, 3)) {
      case 0: s.PointsCableAttachment(); break;
      case 1: s.PointsCable(0, 3); break;
      case 2: s.Validate(true, nullptr); break;
      default: break;
    }
    switch (c.Int(0, 5)) {
      case 0: H = std::fmax(i.H, o.H) * c.Real(1, 2, 1); s.set_tension_horizontal(H); break;
      case 1: negative = !negative; s.set_direction_wind(negative ? AxisDirectionType::kNegative : AxisDirectionType::kPositive); break;
      case 2: which = 1 - which; s.set_weight_unit(&weight[which]); break;
      case 3: at = at == &w ? &v : &w; s.set_transmission_line(&at->line); break;
      case 4: s.set_index_line_cable(5); s.PointsCableAttachment(); s.set_index_line_cable(0); break;
      default: {
        CablePositionLocator copy(s);
        s = copy;
      }
    }
  }
  H = std::fmax(i.H, o.H) * std::fmax(1, std::hypot(weight[0].y(), weight[0].z()) / std::hypot(weight[1].y(), weight[1].z())) *
      std::fmax(1, std::hypot(weight[1].y(), weight[1].z()) / std::hypot(weight[0].y(), weight[0].z()));
  s.set_tension_horizontal(H);
  c.NonTrivial();
  CablePositionLocator fresh;
  fresh.set_transmission_line(&at->line);
  fresh.set_index_line_cable(0);
  fresh.set_tension_horizontal(H);
  fresh.set_weight_unit(&weight[which]);
  fresh.set_direction_wind(negative ? AxisDirectionType::kNegative : AxisDirectionType::kPositive);
  const auto *p = s.PointsCableAttachment(), *q = fresh.PointsCableAttachment();
  Check(c, (p == nullptr) == (q == nullptr), "a solution is found either way");
  if (p == nullptr) return;
  Check(c, p->size() == q->size(), "attachments after edits");
  for (size_t k = 0; k < p->size(); k++)
    Check(c, (*p)[k].x == (*q)[k].x && (*p)[k].y == (*q)[k].y && (*p)[k].z == (*q)[k].z, Cat("attachment ", k, " after edits"));
  Check(c, s.transmission_line() == &at->line && s.index_line_cable() == 0 && s.tension_horizontal() == H && s.weight_unit() == &weight[which] &&
               s.direction_wind() == fresh.direction_wind(),
        "inputs read back");
}

void LawValidity(Case& c) {
  In i = Gen(c);
  World w(i);
  if (!Tame(i, w)) c.Reject();
  const int what = static_cast<int>(c.Int(0, 11));
  CablePositionLocator s;
  TransmissionLine empty;
  Set(s, i, w);
  if (what == 1) s.set_transmission_line(nullptr);
  if (what == 2) s.set_index_line_cable(c.PickOf<int>({-1, 1, 7, -9999}));
  if (what == 3) s.set_tension_horizontal(c.PickOf<double>({0, -1, -999999}));
  if (what == 4) s.set_weight_unit(nullptr);
  if (what == 5) w.weight.set_x(c.PickOf<double>({1, -1})), s.set_weight_unit(&w.weight);
  if (what == 6) w.weight.set_y(-0.01), s.set_weight_unit(&w.weight);
  if (what == 7) w.weight.set_z(c.PickOf<double>({0, -1})), s.set_weight_unit(&w.weight);
  if (what == 8) s.set_direction_wind(AxisDirectionType::kNull);
  if (what == 9) w.cable.diameter = -1;
  if (what == 10) s.set_transmission_line(&empty);
  const bool valid = what == 0 || what == 11;
  c.Note(Cat("change ", what));
  c.NonTrivial(!valid);
  std::list<ErrorMessage> m;
  Check(c, s.Validate(c.Bool(), &m) == valid, Cat("verdict should be ", valid));
  Check(c, m.empty() == valid && s.Validate(true, nullptr) == valid, "messages go with the verdict");
}

// edits, queries, copies and assignments in any order, with inputs that are
// changed in place
void LawSequences(Case& c) {
  typedef CablePositionLocator T;
  In i = Gen(c), r = i, o = Gen(c);
  if (i.stands.size() > 4) i.stands.resize(4);
  if (o.stands.size() > 3) o.stands.resize(3);
  r = i;
  Stand& k = r.stands[static_cast<size_t>(c.Int(0, static_cast<int>(r.stands.size()) - 1))];
  switch (c.Int(0, 4)) {
    case 0: k.elevation += 10; break;
    case 1: k.string = Related(c, k.string, 0, 20); break;
    case 2: k.offset += 5; break;
    case 3: r.start = Related(c, r.start, 0, 359); break;
    default: k.height += 5; break;
  }
  auto worlds = std::make_shared<std::vector<std::unique_ptr<World>>>();
  for (const In* x : {&i, &r, &o}) worlds->emplace_back(new World(*x, true));
  auto shared = std::make_shared<TransmissionLine>((*worlds)[0]->line);
  Histories<T> h;
  h.Pointer("line", 3, [=](int v) { *shared = (*worlds)[static_cast<size_t>(v)]->line; },
            [=](T& s, int v, bool share) { s.set_transmission_line(share ? shared.get() : &(*worlds)[static_cast<size_t>(v)]->line); });
  h.Value("cable", 3, [](T& s, int v) { s.set_index_line_cable(v == 2 ? 5 : v); });
  const double H[3] = {std::fmax(i.H, o.H), Related(c, std::fmax(i.H, o.H), std::fmax(i.H, o.H), 1e6), i.H};
  h.Value("tension", 3, [=](T& s, int v) { s.set_tension_horizontal(H[v]); });
  std::vector<Vector3d> weights = {Vector3d(0, i.wy, i.wz), Vector3d(0, i.wy + 0.1 * i.wz, i.wz), Vector3d(0, o.wy, o.wz)};
  h.Pointer<Vector3d>("weight", weights, [](T& s, const Vector3d* w) { s.set_weight_unit(w); });
  h.Value("wind", 2, [](T& s, int v) { s.set_direction_wind(v ? AxisDirectionType::kNegative : AxisDirectionType::kPositive); });
  h.Peek("attachments", [](const T& s) { s.PointsCableAttachment(); });
  h.Peek("points", [](const T& s) { s.PointsCable(0, 3); });
  h.Peek("validate", [](const T& s) { std::list<ErrorMessage> m; s.Validate(true, &m); });
  h.atol = 1e-7;
  h.Ask("attachments", [](const T& s, std::vector<double>* r) {
    const auto* p = s.PointsCableAttachment();
    r->push_back(p == nullptr);
    if (p == nullptr) return;
    for (const auto& q : *p)
      for (double x : {q.x, q.y, q.z}) r->push_back(x);
  });
  h.Ask("points", [](const T& s, std::vector<double>* r) {
    for (const auto& q : s.PointsCable(0, 3))
      for (double x : {q.x, q.y, q.z}) r->push_back(x);
  });
  h.Ask("verdict", [](const T& s) { return static_cast<double>(s.Validate()); });
  h.Run(c);
}

// whatever the line: a position that is accepted is one
void LawExtremes(Case& c) {
  In i = Gen(c);
  i.H *= c.LogReal(0.01, 1, 1);
  for (size_t k = 1; k < i.stands.size(); k++) {
    Stand& s = i.stands[k];
    if (c.Chance(1, 4)) s.turn = c.Real(-175, 175, 90);
    if (c.Chance(1, 4)) s.height = c.Real(1, 1000, 100);
    if (c.Chance(1, 4)) s.string = c.Real(0, 100, 20);
    if (c.Chance(1, 8)) s.rotation = c.Real(-90, 90, 1);
  }
  if (c.Chance(1, 4)) i.wy = i.wz * c.LogReal(1, 50, 5);
  c.Note(Show(i));
  World w(i);
  CablePositionLocator s;
  Set(s, i, w);
  std::list<ErrorMessage> m;
  const bool ok = s.Validate(false, &m);
  Check(c, ok == m.empty(), "the verdict and the messages disagree");
  const Points* p = s.PointsCableAttachment();
  const size_t n = i.stands.size();
  if (!ok) {
    c.NonTrivial(m.size() == 1);
    if (m.size() == 1 && m.front().title == "CABLE POSITION LOCATOR")
      Check(c, p == nullptr && s.PointsCable(0, 5).empty(), "a rejected position is returned");
    return;
  }
  if (p == nullptr || p->size() != n) c.Fail("no position for an accepted cable");
  c.Note("accepted");
  // the last step settles the strings from a position with an imbalance below 5
  std::vector<double> last(n, 0), stiff(n, 0);
  for (size_t k = 1; k + 1 < n; k++) {
    const V t = HoldAt(i, w, *p, k).pull;
    const double string = i.stands[k].string;
    stiff[k] = i.H / Plan(Sub((*p)[k], (*p)[k - 1])) + i.H / Plan(Sub((*p)[k + 1], (*p)[k]));
    // one whose pull depends on its position, and may vanish at others, can be anywhere
    const double swing = string + i.stands[k - 1].string + i.stands[k + 1].string;
    last[k] = Len(t) < 100 + 2 * stiff[k] * swing ? 1e3 * string : string * 6 / Len(t);
  }
  for (size_t k = 0; k < n; k++) {
    const V u = Sub((*p)[k], w.line.PointXyzLineStructureAttachment(static_cast<int>(k), 0));
    Check(c, std::isfinite(u.x) && std::isfinite(u.y) && std::isfinite(u.z), Cat("accepted with an attachment at ", Show((*p)[k])));
    const double string = k == 0 || k + 1 == n ? 0 : i.stands[k].string;
    CheckNear(c, "string length", Len(u), string, 1e-6, 0);
    if (string < 0.5) continue;
    // a line that folds back on itself has no sides
    const V back = Sub((*p)[k], (*p)[k - 1]), ahead = Sub((*p)[k + 1], (*p)[k]);
    if (back.x * ahead.x + back.y * ahead.y < -0.95 * Plan(back) * Plan(ahead)) continue;
    const V t = HoldAt(i, w, *p, k).pull, l = AlongAt(*p, k), side = {-l.y, l.x, 0};
    const double ty = t.x * side.x + t.y * side.y, uz = u.z / string;
    // the string stays in the plane that bisects the structures
    const double uy = std::copysign(std::hypot(u.x, u.y) / string, u.x * side.x + u.y * side.y);
    const double off = ty * uz - t.z * uy, pull = std::hypot(ty, t.z);
    if (std::fabs(uy) > 0.5) c.NonTrivial();
    const double slack = 6 + 2e-3 * pull + 1e-6 * i.H + 3 * stiff[k] * (last[k - 1] + last[k] + last[k + 1]);
    Check(c, std::fabs(off) <= slack, Cat("the string at ", k, " of an accepted position is off its pull of ", pull, " by ", off, ", at most ", slack));
  }
}

}  // namespace

Property vp::MakeProperty() {
  return {"P14",
          {"turns at supports stay below 90 degrees", "the strings carry more than 40 units of force and settle by repeated balancing",
           "the spans at a support are balanced along the line within 2 (see the known finding of P06)",
           "a string's balance is judged to the library's imbalance limit of 5 units of force"},
          {{"balance", "a suspension string swings by more than 3 degrees", 40000, 800000, LawBalance},
           {"frame", "a supported line in the wind", 20000, 400000, LawFrame},
           {"edits", "every case", 15000, 300000, LawEdits},
           {"validity", "one input out of range", 15000, 300000, LawValidity},
           {"sequences", "an input changed, or the locator was copied, after a query", 4000, 80000, LawSequences},
            {"extremes", "rejected as unsolvable, or a string is lifted by more than 30 degrees", 8000, 160000, LawExtremes}},
          {}};
}
