// P05: the planar cable curve.
#include <list>

#include "engine.h"
#include "history.h"
#include "model.h"
#include "models/transmissionline/catenary.h"

using namespace vp;
using model::Curve;
using model::Rad;

namespace {

struct In {
  double H, w, a, b;
};
std::string Show(const In& i) {
  return Cat("H=", i.H, " w=", i.w, " spacing=(", i.a, ", ", i.b, ")");
}
// supports and loads of the kind the library accepts
In Gen(Case& c) {
  In i;
  i.a = c.Bool() ? static_cast<double>(c.Int(10, 2000)) : c.LogReal(5, 5000, 1000);
  const int slope = static_cast<int>(c.Int(0, 3));
  i.b = slope == 0 ? 0 : slope == 1 ? c.Real(-0.2, 0.2, 0.1) * i.a : slope == 2 ? c.Real(-2, 2, 1) * i.a
                                                                              : c.Real(-1999, 1999, 50);
  if (std::fabs(i.b) >= 1999.9) i.b = 1999.9 * (i.b < 0 ? -1 : 1);
  if (std::fabs(i.b) > 10 * i.a) i.b = 10 * i.a * (i.b < 0 ? -1 : 1);
  i.w = c.LogReal(0.05, 50, 1);
  const double cmin = std::hypot(i.a, i.b) / 2;
  const double k = c.LogReal(1.0001, 6000, 10);
  i.H = cmin * k * i.w;
  return i;
}
Catenary2d Make(const In& i) {
  Catenary2d k;
  k.set_tension_horizontal(i.H);
  k.set_weight_unit(i.w);
  k.set_spacing_endpoints(Vector2d(i.a, i.b));
  return k;
}
double D(long double v) { return static_cast<double>(v); }

const AxisDirectionType kDir[2] = {AxisDirectionType::kPositive, AxisDirectionType::kNegative};

// every quantity the class offers, against the reference
void CheckAll(Case& c, const Catenary2d& k, const In& i, double f) {
  const Curve r(i.H, i.w, i.a, i.b);
  const double tol = 1e-13 * r.Scale() + 1e-11 * D(r.len);
  const double ft = tol / D(r.len) + 1e-12;
  const double fr = 1e-12 + 2e-14 * r.Scale() / D(r.len);
  CheckNear(c, "H/w", k.Constant(), i.H / i.w, 0, 1e-14);
  CheckNear(c, "length", k.Length(), D(r.len), tol, 0);
  CheckNear(c, "slack", k.LengthSlack(), D(r.len) - std::hypot(i.a, i.b), tol, 0);
  const long double x = r.X(f);
  Point2d<double> p = k.Coordinate(f, true), q = k.Coordinate(f, false);
  CheckNear(c, "x from the left support", p.x, D(x - r.xl), tol, 0);
  CheckNear(c, "y from the left support", p.y, D(r.Y(x) - r.Y(r.xl)), tol, 0);
  CheckNear(c, "x from the low point", q.x, D(x), tol, 0);
  CheckNear(c, "y from the low point", q.y, D(r.Y(x)), tol, 0);
  p = k.CoordinateChord(f, true);
  q = k.CoordinateChord(f, false);
  CheckNear(c, "chord x", p.x, D(x - r.xl), tol, 0);
  CheckNear(c, "chord y", p.y, D((x - r.xl) * r.b / r.a), tol * (1 + std::fabs(i.b / i.a)), 0);
  CheckNear(c, "chord x from low point", q.x, D(x), tol, 0);
  CheckNear(c, "chord y from low point", q.y, D(r.Chord(x)), tol * (1 + std::fabs(i.b / i.a)), 0);
  const double stol = tol * (1 + std::fabs(i.b / i.a));
  CheckNear(c, "sag at a position", k.Sag(f), D(r.Sag(x)), stol, 0);
  CheckNear(c, "sag", k.Sag(), D(r.Sag(r.XSag())), stol, 0);
  CheckNear(c, "position of the low point", k.PositionFractionOrigin(), D(r.Fraction(0)), ft, fr);
  CheckNear(c, "position of the sag point", k.PositionFractionSagPoint(), D(r.Fraction(r.XSag())), ft, fr);
  CheckNear(c, "tension", k.Tension(f), D(r.Tension(x)), 0, 1e-10 + tol / D(r.c));
  const double atol = model::Deg(1e-12 + 2 * tol / D(r.c));
  const double angle = model::Deg(std::atan(D(r.Slope(x))));
  for (int d = 0; d < 2; d++) {
    const double s = d == 0 ? 1 : -1;
    CheckNear(c, "tangent angle", k.TangentAngle(f, kDir[d]), s * angle, atol, 0);
    const Vector2d t = k.TangentVector(f, kDir[d]);
    CheckNear(c, "tangent x", t.x(), s * std::cos(Rad(angle)), Rad(atol), 0);
    CheckNear(c, "tangent y", t.y(), s * std::sin(Rad(angle)), Rad(atol), 0);
    const Vector2d v = k.Tension(f, kDir[d]);
    const double T = D(r.Tension(x));
    CheckNear(c, "tension x", v.x(), s * i.H, T * (1e-10 + 3 * tol / D(r.c)), 0);
    CheckNear(c, "tension y", v.y(), s * D(r.w * r.c * r.Slope(x)), T * (1e-10 + 3 * tol / D(r.c)), 0);
  }
  const double Tmax = D(fmaxl(r.Tension(r.xl), r.Tension(r.xr)));
  CheckNear(c, "maximum tension", k.TensionMax(), Tmax, 0, 1e-10 + tol / D(r.c));
}

void LawReference(Case& c) {
  const In i = Gen(c);
  const double f = c.PickOf<double>({0.5, 0, 1, -1});
  const double g = f < 0 ? c.Real(0, 1, 0.25) : f;
  c.Note(Cat(Show(i), " position ", g));
  c.NonTrivial(i.b != 0 && g != 0 && g != 1);
  const Catenary2d k = Make(i);
  std::list<ErrorMessage> messages;
  Check(c, k.Validate(true, &messages) && messages.empty(), "an ordinary span is valid");
  CheckAll(c, k, i, g);
  // positions just outside the supports follow the same curve
  CheckAll(c, k, i, c.Real(-0.3, 1.3, 0.75));
}

void LawEquilibrium(Case& c) {
  const In i = Gen(c);
  const Catenary2d k = Make(i);
  const Curve r(i.H, i.w, i.a, i.b);
  const double tol = 1e-13 * r.Scale() + 1e-11 * D(r.len);
  const double ftol = i.w * tol * 3;
  double f0 = c.Real(0, 1, 0), f1 = c.Real(0, 1, 1);
  if (f1 < f0) std::swap(f0, f1);
  c.Note(Cat(Show(i), " between ", f0, " and ", f1));
  c.NonTrivial(f1 - f0 > 0.01);
  const AxisDirectionType pos = AxisDirectionType::kPositive, neg = AxisDirectionType::kNegative;
  const Vector2d l = k.Tension(f0, neg), u = k.Tension(f1, pos);
  // a piece of cable hangs in balance: the pulls at its ends carry its weight
  CheckNear(c, "horizontal pulls cancel", l.x() + u.x(), 0, ftol * 2 + 1e-10 * D(r.Tension(r.X(f1)) + r.Tension(r.X(f0))), 0);
  CheckNear(c, "vertical pulls carry the weight", l.y() + u.y(), i.w * (f1 - f0) * k.Length(),
            ftol * 2 + 1e-10 * D(r.Tension(r.X(f1)) + r.Tension(r.X(f0))), 0);
  // tension differs by weight times height difference
  const double dy = k.Coordinate(f1).y - k.Coordinate(f0).y;
  CheckNear(c, "tension change is weight times height", k.Tension(f1) - k.Tension(f0), i.w * dy,
            ftol * 2 + 1e-10 * k.Tension(f1), 0);
  // distance between two points is at most the cable between them
  const double dx = k.Coordinate(f1).x - k.Coordinate(f0).x;
  Check(c, std::hypot(dx, dy) <= (f1 - f0) * k.Length() + tol * 2, "cable shorter than the distance it spans");
  Check(c, k.Tension(f0) <= k.TensionMax() * (1 + 1e-10) + ftol && k.Tension(f0) >= i.H * (1 - 1e-12),
        "tension outside [horizontal, maximum]");
  Check(c, k.Sag(f0) <= k.Sag() * (1 + 1e-12) + tol * (1 + std::fabs(i.b / i.a)), "sag at the sag point is the largest");
}

void LawAverage(Case& c) {
  const In i = Gen(c);
  const Catenary2d k = Make(i);
  const Curve r(i.H, i.w, i.a, i.b);
  const int n = static_cast<int>(c.Bool() ? c.Int(1, 8) : c.Chance(1, 50) ? c.Int(200, 3000) : c.Int(1, 200));
  c.Note(Cat(Show(i), " points ", n));
  c.NonTrivial();
  const double rt = 1e-10 + 1e-13 * r.Scale() / D(r.c) + 1e-11 * D(r.len) / D(r.c);
  // the exact average loses digits when the span is short compared to H/w
  const double cancel = 1e-15 * D(r.c / r.len) * D(coshl(fabsl(r.xl) / r.c) * coshl(fabsl(r.xr) / r.c)) * 50;
  CheckNear(c, "exact average tension", k.TensionAverage(0), D(r.TensionMean()), 0, rt + cancel);
  long double sum = 0;
  for (int j = 0; j <= n; j++) sum += r.Tension(r.X(static_cast<long double>(j) / n));
  CheckNear(c, "average over points", k.TensionAverage(n), D(sum / (n + 1)), 0, rt);
  long double s100 = 0;
  for (int j = 0; j <= 100; j++) s100 += r.Tension(r.X(static_cast<long double>(j) / 100));
  CheckNear(c, "default average", k.TensionAverage(), D(s100 / 101), 0, rt);
}

void LawAngleInverse(Case& c) {
  const In i = Gen(c);
  const Catenary2d k = Make(i);
  const Curve r(i.H, i.w, i.a, i.b);
  const double angle = c.Real(-88, 88, 5);
  c.Note(Cat(Show(i), " angle ", angle));
  c.NonTrivial();
  const long double x = r.XOfSlope(tanl(angle * acosl(-1.0L) / 180));
  const double tol = (1e-13 * r.Scale() + 1e-11 * D(r.len)) / D(r.len);
  const double fr = k.PositionFraction(angle);
  CheckNear(c, "position of a tangent angle", fr, D(r.Fraction(x)), tol * 2 + 1e-12 + 1e-13 * D(r.c / r.len), 1e-11 + 2e-14 * r.Scale() / D(r.len));
  CheckNear(c, "tangent angle there", k.TangentAngle(fr, kDir[0]), angle,
            1e-9 + model::Deg(3 * (1e-13 * r.Scale() + 1e-11 * D(r.len)) / D(r.c)), 0);
}

// the answers depend only on the present inputs
void LawEdits(Case& c) {
  In i = Gen(c);
  Catenary2d k = Make(i);
  const int n = static_cast<int>(c.Int(1, 8));
  int edits = 0;
  for (int j = 0; j < n; j++) {
    if (c.Bool()) {
      switch (c.Int(0, 6)) {
        case 0: k.Length(); break;
        case 1: k.Sag(); break;
        case 2: k.Coordinate(0.5); break;
        case 3: k.Tension(0.3); break;
        case 4: k.PositionFractionOrigin(); break;
        case 5: k.Validate(true, nullptr); break;
        default: k.TensionMax();
      }
    }
    const In o = Gen(c);
    switch (c.Int(0, 3)) {
      case 0:
        if (o.H / i.w < std::hypot(i.a, i.b) / 2) break;
        k.set_tension_horizontal(o.H);
        i.H = o.H;
        edits++;
        break;
      case 1:
        if (i.H / o.w < std::hypot(i.a, i.b) / 2) break;
        k.set_weight_unit(o.w);
        i.w = o.w;
        edits++;
        break;
      case 2:
        if (i.H / i.w < std::hypot(o.a, o.b) / 2) break;
        k.set_spacing_endpoints(Vector2d(o.a, o.b));
        i.a = o.a;
        i.b = o.b;
        edits++;
        break;
      default: {
        Catenary2d other = Make(o);
        if (c.Bool()) other.Length();
        if (c.Bool()) {
          k = other;
          i = o;
        } else {
          other = k;
          k = other;
        }
      }
    }
  }
  c.Note(Cat("ends at ", Show(i), " after ", edits, " edits"));
  c.NonTrivial(edits > 0);
  Check(c, k.tension_horizontal() == i.H && k.weight_unit() == i.w && k.spacing_endpoints().x() == i.a &&
               k.spacing_endpoints().y() == i.b,
        "inputs read back");
  Catenary2d fresh = Make(i);
  // ask in a random order: each answer equals the one of a fresh object
  const double f = c.Real(0, 1, 0.5);
  for (int j = 0; j < 4; j++) {
    switch (c.Int(0, 8)) {
      case 0: Check(c, k.Length() == fresh.Length(), "length after edits"); break;
      case 1: Check(c, k.Sag() == fresh.Sag(), "sag after edits"); break;
      case 2: Check(c, k.Tension(f) == fresh.Tension(f), "tension after edits"); break;
      case 3: Check(c, k.TensionAverage(0) == fresh.TensionAverage(0), "average after edits"); break;
      case 4: Check(c, k.Coordinate(f, true).y == fresh.Coordinate(f, true).y, "coordinate after edits"); break;
      case 5: Check(c, k.PositionFractionOrigin() == fresh.PositionFractionOrigin(), "low point after edits"); break;
      case 6: Check(c, k.LengthSlack() == fresh.LengthSlack(), "slack after edits"); break;
      case 7: Check(c, k.TensionMax() == fresh.TensionMax(), "maximum after edits"); break;
      default: Check(c, k.TangentAngle(f, kDir[0]) == fresh.TangentAngle(f, kDir[0]), "angle after edits");
    }
  }
  CheckAll(c, k, i, f);
}

void LawValidity(Case& c) {
  In i = Gen(c);
  const int what = static_cast<int>(c.Int(0, 6));
  const double span = std::hypot(i.a, i.b);
  bool valid = true;
  switch (what) {
    case 0: i.H = c.PickOf<double>({0, -1, -999999}); valid = false; break;
    case 1: i.w = c.PickOf<double>({0, -1, -999999}); valid = false; break;
    case 2: i.a = c.PickOf<double>({0, -1, -999999}); valid = false; break;
    case 3: i.b = c.PickOf<double>({2000, -2000, 2500, -2500, 1e5}); valid = false; break;
    case 4: i.H = i.w * span / 2 * c.Real(0.01, 0.999, 0.5); valid = false; break;
    case 5: i.H = i.w * span / 2 * 1.001; break;
    default: break;
  }
  c.Note(Cat(Show(i), valid ? " valid" : " invalid"));
  c.NonTrivial(what < 6);
  const Catenary2d k = Make(i);
  std::list<ErrorMessage> messages;
  Check(c, k.Validate(c.Bool(), &messages) == valid, Cat("verdict should be ", valid));
  Check(c, messages.empty() == valid, Cat(messages.size(), " messages for a verdict of ", valid));
  Check(c, k.Validate(true, nullptr) == valid, "verdict without a message list");
  CheckNear(c, "minimum constant", Catenary2d::ConstantMinimum(span), span / 2, 0, 1e-15);
}

// other inputs, alike or not, between queries and copies
void Sequences(Case& c) {
  In v[3] = {Gen(c), Gen(c), Gen(c)};
  const double cmin = std::hypot(v[0].a, v[0].b) / 2;
  v[1].w = Related(c, v[0].w, 0.05, v[0].H / cmin);
  v[1].H = Related(c, v[0].H, cmin * v[0].w, 1e6);
  if (c.Bool()) { v[1].a = Related(c, v[0].a, 5, 5000); v[1].b = v[0].b; }
  if (c.Bool()) { v[1].a = v[0].a; v[1].b = c.PickOf<double>({-1, 0, 0.999}) * v[0].b; }
  Histories<Catenary2d> h;
  h.Value("tension", 3, [&](Catenary2d& k, int i) { k.set_tension_horizontal(v[i].H); });
  h.Value("weight", 3, [&](Catenary2d& k, int i) { k.set_weight_unit(v[i].w); });
  h.Value("spacing", 3, [&](Catenary2d& k, int i) { k.set_spacing_endpoints(Vector2d(v[i].a, v[i].b)); });
  h.Peek("length", [](const Catenary2d& k) { k.Length(); });
  h.Peek("coordinate", [](const Catenary2d& k) { k.Coordinate(0.5); });
  h.Peek("validate", [](const Catenary2d& k) { k.Validate(); });
  h.Peek("average", [](const Catenary2d& k) { k.TensionAverage(); });
  h.Ask("constant", [](const Catenary2d& k) { return static_cast<double>(k.Constant()); });
  h.Ask("length", [](const Catenary2d& k) { return static_cast<double>(k.Length()); });
  h.Ask("slack", [](const Catenary2d& k) { return static_cast<double>(k.LengthSlack()); });
  h.Ask("fraction", [](const Catenary2d& k) { return static_cast<double>(k.PositionFraction(3)); });
  h.Ask("origin", [](const Catenary2d& k) { return static_cast<double>(k.PositionFractionOrigin()); });
  h.Ask("sag point", [](const Catenary2d& k) { return static_cast<double>(k.PositionFractionSagPoint()); });
  h.Ask("sag", [](const Catenary2d& k) { return static_cast<double>(k.Sag()); });
  h.Ask("sag at", [](const Catenary2d& k) { return static_cast<double>(k.Sag(0.2)); });
  h.Ask("angle", [](const Catenary2d& k) { return static_cast<double>(k.TangentAngle(0.4, kDir[0])); });
  h.Ask("tension", [](const Catenary2d& k) { return static_cast<double>(k.Tension(0.6)); });
  h.Ask("average", [](const Catenary2d& k) { return static_cast<double>(k.TensionAverage(0)); });
  h.Ask("average of points", [](const Catenary2d& k) { return static_cast<double>(k.TensionAverage(7)); });
  h.Ask("maximum", [](const Catenary2d& k) { return static_cast<double>(k.TensionMax()); });
  h.Ask("verdict", [](const Catenary2d& k) { return static_cast<double>(k.Validate()); });
  h.Ask("coordinate", [](const Catenary2d& k, std::vector<double>* r) {
    const auto p = k.Coordinate(0.3);
    *r = {p.x, p.y};
  });
  h.Ask("chord", [](const Catenary2d& k, std::vector<double>* r) {
    const auto p = k.CoordinateChord(0.3, true);
    *r = {p.x, p.y};
  });
  h.Ask("tension vector", [](const Catenary2d& k, std::vector<double>* r) {
    const auto v = k.Tension(0.7, kDir[1]);
    *r = {v.x(), v.y()};
  });
  h.Ask("tangent", [](const Catenary2d& k, std::vector<double>* r) {
    const auto v = k.TangentVector(0.7, kDir[1]);
    *r = {v.x(), v.y()};
  });
  h.Run(c);
}

}  // namespace

Property vp::MakeProperty() {
  return {"P05",
          {"H/w between 0.5001 and 150 times the distance between supports, spans 5 to 5000, height differences below "
           "2000 and at most ten times the span"},
          {{"reference", "inclined span, position inside it", 150000, 4000000, LawReference},
           {"equilibrium", "piece longer than 1% of the cable", 150000, 4000000, LawEquilibrium},
           {"average", "every case", 15000, 400000, LawAverage},
           {"angle-inverse", "every case", 100000, 2000000, LawAngleInverse},
           {"edits", "at least one edit", 60000, 2000000, LawEdits},
           {"validity", "one input pushed out of range or to its limit", 60000, 1000000, LawValidity},
            {"sequences", "an input changed, or an object was copied, after a query", 20000, 500000, Sequences}},
          {}};
}
