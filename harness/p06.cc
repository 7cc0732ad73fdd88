// P06: the cable curve under wind (three dimensions).
#include <list>

#include "engine.h"
#include "history.h"
#include "model.h"
#include "models/transmissionline/catenary.h"

using namespace vp;
using model::Curve;
using model::Deg;
using model::Rad;

namespace {

enum Kind { kCalm, kLevel, kBoth };

struct In {
  double H, wy, wz, a, b;
  bool negative;
  double W() const { return std::hypot(wy, wz); }
  double y2() const { return b * (wz / W()); }
  double x2() const { return std::sqrt(a * a + b * b - y2() * y2()); }
};
std::string Show(const In& i) {
  return Cat("H=", i.H, " weight=(0, ", i.wy, ", ", i.wz, ") spacing=(", i.a, ", 0, ", i.b, ")",
             i.negative ? " negative side" : "");
}
In Gen(Case& c, Kind kind) {
  In i;
  i.a = c.Bool() ? static_cast<double>(c.Int(10, 2000)) : c.LogReal(5, 5000, 1000);
  i.b = 0;
  if (kind != kLevel) {
    i.b = c.Bool() ? c.Real(-0.2, 0.2, 0.1) * i.a : c.Real(-2, 2, 1) * i.a;
    if (std::fabs(i.b) >= 1999.9) i.b = 1999.9 * (i.b < 0 ? -1 : 1);
  }
  i.wz = c.LogReal(0.05, 50, 1);
  i.wy = kind == kCalm ? 0 : i.wz * c.LogReal(0.01, 20, 1);
  const double k = c.LogReal(1.0001, 6000, 10);
  i.H = std::hypot(i.a, i.b) / 2 * k * i.W();
  i.negative = c.Bool();
  return i;
}
Catenary3d Make(const In& i) {
  Catenary3d k;
  k.set_tension_horizontal(i.H);
  k.set_weight_unit(Vector3d(0, i.wy, i.wz));
  k.set_spacing_endpoints(Vector3d(i.a, 0, i.b));
  k.set_direction_transverse(i.negative ? AxisDirectionType::kNegative : AxisDirectionType::kPositive);
  return k;
}
double D(long double v) { return static_cast<double>(v); }
const AxisDirectionType kDir[2] = {AxisDirectionType::kPositive, AxisDirectionType::kNegative};

struct V {
  double x, y, z;
};
V operator+(V p, V q) { return {p.x + q.x, p.y + q.y, p.z + q.z}; }
V operator*(double k, V p) { return {k * p.x, k * p.y, k * p.z}; }
void CheckV(Case& c, const char* what, double x, double y, double z, V e, double tol) {
  if (!Near(x, e.x, tol, 0) || !Near(y, e.y, tol, 0) || !Near(z, e.z, tol, 0))
    c.Fail(Cat(what, ": got (", x, ", ", y, ", ", z, "), expected (", e.x, ", ", e.y, ", ", e.z, ") tol ", tol));
}

// lengths, tensions and sags are those of the planar curve in the loaded plane
void CheckScalars(Case& c, const Catenary3d& k, const In& i, double f, const Curve& r, double tol) {
  const double ft = tol / D(r.len) + 1e-12, fr = 1e-12 + 2e-14 * r.Scale() / D(r.len);
  const double stol = tol * (1 + std::fabs(D(r.b / r.a)));
  CheckNear(c, "H/w", k.Constant(), i.H / i.W(), 0, 1e-13);
  CheckNear(c, "length", k.Length(), D(r.len), tol, 0);
  CheckNear(c, "slack", k.LengthSlack(), D(r.len) - std::hypot(i.a, i.b), tol, 0);
  CheckNear(c, "sag", k.Sag(), D(r.Sag(r.XSag())), stol, 0);
  const long double x = r.X(f);
  CheckNear(c, "sag at a position", k.Sag(f), D(r.Sag(x)), stol, 0);
  CheckNear(c, "tension", k.Tension(f), D(r.Tension(x)), 0, 1e-10 + tol / D(r.c));
  CheckNear(c, "maximum tension", k.TensionMax(), D(fmaxl(r.Tension(r.xl), r.Tension(r.xr))), 0, 1e-10 + tol / D(r.c));
  const double cancel = 1e-15 * D(r.c / r.len) * D(coshl(fabsl(r.xl) / r.c) * coshl(fabsl(r.xr) / r.c)) * 50;
  CheckNear(c, "average tension", k.TensionAverage(0), D(r.TensionMean()), 0, 1e-10 + tol / D(r.c) + cancel);
  CheckNear(c, "three point average", k.TensionAverage(2),
            D((r.Tension(r.xl) + r.Tension(r.X(0.5L)) + r.Tension(r.xr)) / 3), 0, 1e-10 + tol / D(r.c));
  CheckNear(c, "position of the low point", k.PositionFractionOrigin(), D(r.Fraction(0)), ft, fr);
  CheckNear(c, "position of the sag point", k.PositionFractionSagPoint(), D(r.Fraction(r.XSag())), ft, fr);
  CheckNear(c, "swing angle", k.SwingAngle(), Deg(std::atan2(i.wy, i.wz)), 1e-10, 0);
  Check(c, k.tension_horizontal() == i.H && k.spacing_endpoints().x() == i.a && k.spacing_endpoints().z() == i.b &&
               k.weight_unit().y() == i.wy && k.weight_unit().z() == i.wz &&
               (k.direction_transverse() == AxisDirectionType::kNegative) == i.negative,
        "inputs read back");
}

// everything, including where the cable is and which way it pulls
void CheckAll(Case& c, const Catenary3d& k, const In& i, double f) {
  const Curve r(i.H, i.W(), i.x2(), i.y2());
  const double tol = 2e-13 * r.Scale() + 2e-11 * D(r.len);
  const double ctol = tol * (2 + std::fabs(D(r.b / r.a)) + std::fabs(i.b / i.a));
  CheckScalars(c, k, i, f, r, tol);
  const double side = i.negative ? -1 : 1;
  const double swing = std::atan2(i.wy, i.wz);
  const long double x = r.X(f);
  const double part = D((x - r.xl) / r.a), sag = D(r.Sag(x));
  // the loaded plane turned back onto the true chord
  const double alpha = std::atan2(i.b, i.a) - D(atan2l(r.b, r.a));
  // the library leaves out turns below 0.00005 degrees
  const double skip = std::fabs(Deg(alpha)) < 5.01e-5 ? 9e-7 : 0;
  const V down = {sag * std::sin(alpha), side * sag * std::cos(alpha) * std::sin(swing),
                  -sag * std::cos(alpha) * std::cos(swing)};
  const V chord = part * V{i.a, 0, i.b};
  Point3d<double> p = k.CoordinateChord(f);
  CheckV(c, "chord point", p.x, p.y, p.z, chord, ctol + skip * std::hypot(i.a, i.b));
  p = k.Coordinate(f);
  CheckV(c, "point on the cable", p.x, p.y, p.z, chord + down, ctol * 2 + skip * (std::hypot(i.a, i.b) + sag));
  const Point3d<double> e0 = k.Coordinate(0), e1 = k.Coordinate(1);
  CheckV(c, "left end", e0.x, e0.y, e0.z, V{0, 0, 0}, ctol * 2);
  CheckV(c, "right end", e1.x, e1.y, e1.z, V{i.a, 0, i.b}, ctol * 2 + skip * std::hypot(i.a, i.b));
  const double slope = D(r.Slope(x)), sec = std::hypot(1, slope);
  const double utol = skip + 1e-11 + 6 * tol / D(r.c);
  for (int d = 0; d < 2; d++) {
    const double s = d == 0 ? 1 : -1;
    const double tx = s / sec, tz = s * slope / sec;
    const double rx = tx * std::cos(alpha) - tz * std::sin(alpha), rz = tx * std::sin(alpha) + tz * std::cos(alpha);
    const V t = {rx, -side * rz * std::sin(swing), rz * std::cos(swing)};
    const Vector3d u = k.TangentVector(f, kDir[d]);
    CheckV(c, "tangent", u.x(), u.y(), u.z(), t, utol);
    const Vector3d T = k.Tension(f, kDir[d]);
    const double m = D(r.Tension(x));
    CheckV(c, "tension vector", T.x(), T.y(), T.z(), m * t, m * utol * 2);
    CheckNear(c, "vertical tangent angle", k.TangentAngleVertical(f, kDir[d]), Deg(std::atan2(t.z, std::fabs(t.x))),
              Deg(utol / std::max(1e-9, std::hypot(t.x, t.z))), 0);
    const double h = std::hypot(t.y, t.z);
    if (h > 1e-3)
      CheckNear(c, "transverse tangent angle", k.TangentAngleTransverse(f, kDir[d]),
                Deg(std::atan2(std::fabs(t.y), std::fabs(t.z))), Deg(utol / h * 3), 0);
  }
}

void LawReference(Case& c, Kind kind) {
  const In i = Gen(c, kind);
  const double f = c.PickOf<double>({0.5, 0, 1, -1});
  const double g = f < 0 ? c.Real(0, 1, 0.25) : f;
  c.Note(Cat(Show(i), " position ", g));
  c.NonTrivial(g != 0 && g != 1);
  const Catenary3d k = Make(i);
  std::list<ErrorMessage> messages;
  Check(c, k.Validate(true, &messages) && messages.empty(), "an ordinary span is valid");
  CheckAll(c, k, i, g);
}

// forces at the two ends carry the load on the whole cable
std::string Imbalance(const In& i, double slack) {
  const Catenary3d k = Make(i);
  const Curve r(i.H, i.W(), i.x2(), i.y2());
  const Vector3d p = k.Tension(0, AxisDirectionType::kNegative), q = k.Tension(1, AxisDirectionType::kPositive);
  const double L = k.Length(), side = i.negative ? -1 : 1;
  const double x = p.x() + q.x(), y = p.y() + q.y(), z = p.z() + q.z();
  const double tol = slack + 4 * i.W() * (1e-13 * r.Scale() + 1e-11 * L) + 1e-10 * k.TensionMax();
  if (std::fabs(x) <= tol && std::fabs(y + side * i.wy * L) <= tol && std::fabs(z - i.wz * L) <= tol) return "";
  return Cat("pulls at the supports add to (", x, ", ", y, ", ", z, "), the load on the cable is (0, ", side * i.wy * L,
             ", ", -i.wz * L, ")");
}
void LawEquilibrium(Case& c) {
  const In i = Gen(c, c.Bool() ? kCalm : kLevel);
  c.Note(Show(i));
  c.NonTrivial();
  const std::string s = Imbalance(i, 0);
  if (!s.empty()) c.Fail(s);
}

// wind from the other side is the mirror image
void LawMirror(Case& c) {
  In i = Gen(c, c.PickOf<Kind>({kLevel, kCalm, kBoth}));
  i.negative = false;
  const Catenary3d k = Make(i);
  i.negative = true;
  Catenary3d m;
  if (c.Bool()) {
    m = Make(i);
  } else {  // switched after use
    m = k;
    m.Length();
    m.Coordinate(0.5);
    m.set_direction_transverse(AxisDirectionType::kNegative);
  }
  const double f = c.Real(0, 1, 0.3);
  c.Note(Cat(Show(i), " position ", f));
  c.NonTrivial(i.wy > 0);
  const Curve r(i.H, i.W(), i.x2(), i.y2());
  const double tol = 1e-12 * D(r.len + r.c);
  const Point3d<double> p = k.Coordinate(f), q = m.Coordinate(f);
  CheckV(c, "mirrored point", q.x, q.y, q.z, V{p.x, -p.y, p.z}, tol);
  const Vector3d t = k.TangentVector(f, kDir[0]), u = m.TangentVector(f, kDir[0]);
  CheckV(c, "mirrored tangent", u.x(), u.y(), u.z(), V{t.x(), -t.y(), t.z()}, 1e-12);
  Check(c, k.Length() == m.Length() && k.Sag() == m.Sag() && k.Tension(f) == m.Tension(f), "mirror keeps length, sag, tension");
}

void LawEdits(Case& c) {
  In i = Gen(c, kBoth);
  Catenary3d k = Make(i);
  const int n = static_cast<int>(c.Int(1, 8));
  int edits = 0;
  for (int j = 0; j < n; j++) {
    if (c.Bool()) {
      switch (c.Int(0, 6)) {
        case 0: k.Length(); break;
        case 1: k.Sag(); break;
        case 2: k.Coordinate(0.5); break;
        case 3: k.Tension(0.3); break;
        case 4: k.TangentVector(0.2, kDir[1]); break;
        case 5: k.Validate(true, nullptr); break;
        default: k.Constant();
      }
    }
    const In o = Gen(c, c.PickOf<Kind>({kBoth, kCalm, kLevel}));
    const In before = i;
    const int op = static_cast<int>(c.Int(0, 4));
    if (op == 0) i.H = o.H;
    if (op == 1) i.wy = o.wy, i.wz = o.wz;
    if (op == 2) i.a = o.a, i.b = o.b;
    if (op == 3) i.negative = o.negative;
    if (op == 4) i = o;
    if (i.H / i.W() < std::hypot(i.a, i.b) / 2) {
      i = before;
      continue;
    }
    edits++;
    if (op == 0) k.set_tension_horizontal(i.H);
    if (op == 1) k.set_weight_unit(Vector3d(0, i.wy, i.wz));
    if (op == 2) k.set_spacing_endpoints(Vector3d(i.a, 0, i.b));
    if (op == 3) k.set_direction_transverse(i.negative ? AxisDirectionType::kNegative : AxisDirectionType::kPositive);
    if (op == 4) {
      const Catenary3d other = Make(o);
      if (c.Bool()) other.Length();
      k = other;
    }
  }
  c.Note(Cat("ends at ", Show(i), " after ", edits, " edits"));
  c.NonTrivial(edits > 0);
  const Catenary3d fresh = Make(i);
  const double f = c.Real(0, 1, 0.5);
  for (int j = 0; j < 4; j++) {
    switch (c.Int(0, 8)) {
      case 0: Check(c, k.Length() == fresh.Length(), "length after edits"); break;
      case 1: Check(c, k.Sag() == fresh.Sag(), "sag after edits"); break;
      case 2: Check(c, k.Tension(f) == fresh.Tension(f), "tension after edits"); break;
      case 3: Check(c, k.TensionAverage(0) == fresh.TensionAverage(0), "average after edits"); break;
      case 4: Check(c, k.Coordinate(f).y == fresh.Coordinate(f).y, "coordinate after edits"); break;
      case 5: Check(c, k.Constant() == fresh.Constant(), "H/w after edits"); break;
      case 6: Check(c, k.LengthSlack() == fresh.LengthSlack(), "slack after edits"); break;
      case 7: Check(c, k.TangentVector(f, kDir[1]).z() == fresh.TangentVector(f, kDir[1]).z(), "tangent after edits"); break;
      default: Check(c, k.SwingAngle() == fresh.SwingAngle(), "swing after edits");
    }
  }
  CheckAll(c, k, i, f);
}

void LawValidity(Case& c) {
  In i = Gen(c, kBoth);
  const int what = static_cast<int>(c.Int(0, 9));
  const double span = std::hypot(i.a, i.b);
  bool valid = true;
  Vector3d w(0, i.wy, i.wz), s(i.a, 0, i.b);
  switch (what) {
    case 0: i.H = c.PickOf<double>({0, -1, -999999}); valid = false; break;
    case 1: w.set_z(c.PickOf<double>({0, -1, -999999})); valid = false; break;
    case 2: w.set_y(c.PickOf<double>({-0.5, -999999})); valid = false; break;
    case 3: w.set_x(c.PickOf<double>({0.5, -1})); valid = false; break;
    case 4: s.set_x(c.PickOf<double>({0, -1, -999999})); valid = false; break;
    case 5: s.set_y(c.PickOf<double>({1, -1})); valid = false; break;
    case 6: s.set_z(c.PickOf<double>({2000, -2000, 2500, 1e5})); valid = false; break;
    case 7: i.H = i.W() * span / 2 * c.Real(0.01, 0.999, 0.5); valid = false; break;
    case 8: i.H = i.W() * span / 2 * 1.001; break;
    default: break;
  }
  c.Note(Cat(Show(i), " change ", what));
  c.NonTrivial(what < 9);
  Catenary3d k;
  k.set_tension_horizontal(i.H);
  k.set_weight_unit(w);
  k.set_spacing_endpoints(s);
  if (c.Bool()) k.set_direction_transverse(AxisDirectionType::kNegative);
  std::list<ErrorMessage> messages;
  Check(c, k.Validate(c.Bool(), &messages) == valid, Cat("verdict should be ", valid));
  Check(c, messages.empty() == valid, Cat(messages.size(), " messages for a verdict of ", valid));
  Check(c, k.Validate(true, nullptr) == valid, "verdict without a message list");
}

std::string ProbeInclinedWind() {
  const In i = {2000, 1, 1, 1000, 500, false};
  return Imbalance(i, 1);
}

// other inputs, alike or not, between queries and copies
void Sequences(Case& c) {
  In v[3] = {Gen(c, kBoth), Gen(c, c.PickOf<Kind>({kBoth, kCalm, kLevel})), Gen(c, kBoth)};
  switch (c.Int(0, 4)) {  // the second load is related to the first
    case 0: v[1].wy = v[0].wz; v[1].wz = v[0].wy; break;  // same size, another direction
    case 1: v[1].wy = 0; v[1].wz = v[0].W(); break;
    case 2: v[1].wy = Related(c, v[0].wy, 0, 500); v[1].wz = v[0].wz; break;
    case 3: v[1].wz = Related(c, v[0].wz, 0.05, 500); v[1].wy = v[0].wy; break;
    default: break;
  }
  switch (c.Int(0, 4)) {  // so is the spacing
    case 0: v[1].a = v[0].a; v[1].b = -v[0].b; break;
    case 1: v[1].a = v[0].a; v[1].b = 0; break;
    case 2: v[1].a = Related(c, v[0].a, 5, 5000); v[1].b = v[0].b; break;
    case 3: v[1].a = std::hypot(v[0].a, v[0].b); v[1].b = 0; break;  // same distance
    default: break;
  }
  v[1].H = Related(c, v[0].H, 0.1, 1e6);
  Histories<Catenary3d> h;
  h.Value("tension", 3, [&](Catenary3d& k, int i) { k.set_tension_horizontal(v[i].H); });
  h.Value("load", 3, [&](Catenary3d& k, int i) { k.set_weight_unit(Vector3d(0, v[i].wy, v[i].wz)); });
  h.Value("spacing", 3, [&](Catenary3d& k, int i) { k.set_spacing_endpoints(Vector3d(v[i].a, 0, v[i].b)); });
  h.Value("side", 2, [](Catenary3d& k, int i) { k.set_direction_transverse(kDir[i]); });
  h.Peek("length", [](const Catenary3d& k) { k.Length(); });
  h.Peek("coordinate", [](const Catenary3d& k) { k.Coordinate(0.5); });
  h.Peek("validate", [](const Catenary3d& k) { k.Validate(); });
  h.Peek("tension", [](const Catenary3d& k) { k.Tension(1, kDir[1]); });
  h.Ask("constant", [](const Catenary3d& k) { return static_cast<double>(k.Constant()); });
  h.Ask("length", [](const Catenary3d& k) { return static_cast<double>(k.Length()); });
  h.Ask("slack", [](const Catenary3d& k) { return static_cast<double>(k.LengthSlack()); });
  h.Ask("origin", [](const Catenary3d& k) { return static_cast<double>(k.PositionFractionOrigin()); });
  h.Ask("sag point", [](const Catenary3d& k) { return static_cast<double>(k.PositionFractionSagPoint()); });
  h.Ask("sag", [](const Catenary3d& k) { return static_cast<double>(k.Sag()); });
  h.Ask("sag at", [](const Catenary3d& k) { return static_cast<double>(k.Sag(0.2)); });
  h.Ask("swing", [](const Catenary3d& k) { return static_cast<double>(k.SwingAngle()); });
  h.Ask("transverse angle", [](const Catenary3d& k) { return static_cast<double>(k.TangentAngleTransverse(0.4, kDir[0])); });
  h.Ask("vertical angle", [](const Catenary3d& k) { return static_cast<double>(k.TangentAngleVertical(0.4, kDir[0])); });
  h.Ask("tension", [](const Catenary3d& k) { return static_cast<double>(k.Tension(0.6)); });
  h.Ask("average", [](const Catenary3d& k) { return static_cast<double>(k.TensionAverage(0)); });
  h.Ask("average of points", [](const Catenary3d& k) { return static_cast<double>(k.TensionAverage(7)); });
  h.Ask("maximum", [](const Catenary3d& k) { return static_cast<double>(k.TensionMax()); });
  h.Ask("horizontal", [](const Catenary3d& k) { return static_cast<double>(k.tension_horizontal()); });
  h.Ask("verdict", [](const Catenary3d& k) { return static_cast<double>(k.Validate()); });
  h.Ask("coordinate", [](const Catenary3d& k, std::vector<double>* r) {
    const auto p = k.Coordinate(0.3);
    *r = {p.x, p.y, p.z};
  });
  h.Ask("chord", [](const Catenary3d& k, std::vector<double>* r) {
    const auto p = k.CoordinateChord(0.3);
    *r = {p.x, p.y, p.z};
  });
  h.Ask("tension vector", [](const Catenary3d& k, std::vector<double>* r) {
    const auto v = k.Tension(0.7, kDir[1]);
    *r = {v.x(), v.y(), v.z()};
  });
  h.Ask("tangent", [](const Catenary3d& k, std::vector<double>* r) {
    const auto v = k.TangentVector(0.2, kDir[0]);
    *r = {v.x(), v.y(), v.z()};
  });
  h.Run(c);
}

}  // namespace

Property vp::MakeProperty() {
  return {"P06",
          {"H/w between 0.5001 and 150 times the distance between supports, wind load up to 20 times the vertical load",
           "where wind acts on an inclined span, positions and directions are compared to the library's own "
           "construction (displacement from the chord turned by the chord's change of inclination, then by the swing)"},
          {{"calm", "position inside the span", 60000, 1500000, [](Case& c) { LawReference(c, kCalm); }},
           {"level-wind", "position inside the span", 60000, 1500000, [](Case& c) { LawReference(c, kLevel); }},
           {"inclined-wind", "position inside the span", 60000, 1500000, [](Case& c) { LawReference(c, kBoth); }},
           {"equilibrium", "every case", 60000, 1500000, LawEquilibrium},
           {"mirror", "wind present", 60000, 1500000, LawMirror},
           {"edits", "at least one edit", 40000, 1000000, LawEdits},
           {"validity", "one input pushed out of range or to its limit", 40000, 1000000, LawValidity},
            {"sequences", "an input changed, or an object was copied, after a query", 20000, 500000, Sequences}},
          {{"inclined-span-wind-equilibrium", ProbeInclinedWind}}};
}
