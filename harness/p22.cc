// P22: sagging a span with a transit.
#include <memory>

#include "history.h"
#include "sagcable.h"
#include "models/sagging/transit_sagger.h"

using namespace vp;
using namespace sag;

namespace {

struct In {
  Span s;
  double H;
  bool negative;
  double x, y, z;
};
Catenary3d Make(const In& i) {
  Catenary3d k = MakeCatenary(i.s, i.H);
  if (i.negative) k.set_direction_transverse(AxisDirectionType::kNegative);
  return k;
}
double Angle(const In& i, const Point3d<double>& p) {
  return model::Deg(std::atan2(p.z - i.z, std::hypot(p.x - i.x, p.y - i.y)));
}

In Gen(Case& c) {
  In i;
  i.s.a = c.Bool() ? static_cast<double>(c.Int(100, 2000)) : c.LogReal(50, 5000, 1000);
  i.s.b = c.Chance(1, 3) ? 0 : c.Real(-0.6, 0.6, 0.1) * i.s.a;
  if (std::fabs(i.s.b) >= 1999.9) i.s.b = 1999.9 * (i.s.b < 0 ? -1 : 1);
  i.s.wz = c.LogReal(0.05, 50, 1);
  i.s.wy = c.Chance(3, 4) ? 0 : i.s.wz * c.LogReal(0.01, 3, 0.5);
  i.H = static_cast<double>(i.s.HMin()) * c.LogReal(1.2, 100, 8);
  i.negative = c.Bool();
  const Catenary3d k = Make(i);
  const double sag = k.Sag();
  switch (c.Int(0, 3)) {
    case 0: i.x = 0; break;
    case 1: i.x = i.s.a; break;
    case 2: i.x = c.Real(-0.3, 1.3, 0.5) * i.s.a; break;
    default: i.x = c.Real(-0.02, 1.02, 0.5) * i.s.a; break;
  }
  i.y = c.Chance(1, 2) ? 0 : c.Real(-1, 1, 0.1) * i.s.a;
  // below the cable, where it is beside the transit
  double f = 0, f1 = 1;
  for (int j = 0; j < 60; j++) {
    const double m = (f + f1) / 2;
    (k.Coordinate(m).x < i.x ? f : f1) = m;
  }
  double over = k.Coordinate(f).z;
  i.z = over - sag * c.LogReal(0.02, 5, 0.5);
  if (i.x < 0 || i.x > i.s.a) i.z = std::min(i.z, std::min(0.0, i.s.b));
  // or above a part of it
  if (c.Chance(1, 8)) i.z = i.s.b - sag * c.LogReal(1e-3, 2, 0.5);
  // nearly over the cable, a little to its side
  if (i.z > over && i.x > 0 && i.x < i.s.a && c.Bool())
    i.y = k.Coordinate(f).y + (c.Bool() ? 1 : -1) * (i.z - over) * std::tan(model::Rad(c.LogReal(0.1, 10, 1)));
  if (i.z > i.s.b - 1e-6) c.Reject();
  return i;
}
std::string Show(const In& i) {
  return Cat("H=", i.H, " ", Text(i.s), i.negative ? " negative side" : "", " transit (", i.x, ", ", i.y, ", ", i.z, ")");
}
TransitSagger MakeSagger(const In& i) {
  TransitSagger t;
  t.set_catenary(Make(i));
  t.set_point_transit(Point3d<double>(i.x, i.y, i.z));
  return t;
}

void Low(Case& c) {
  In i = Gen(c);
  c.Note(Show(i));
  const Catenary3d k = Make(i);
  TransitSagger t = MakeSagger(i);
  std::list<ErrorMessage> m;
  bool asked = c.Bool(), valid = asked && t.Validate(false, &m);
  const double got = t.AngleLow();
  const Point3d<double> p = t.PointCatenaryLow();
  if (!asked) valid = t.Validate(false, &m);
  Check(c, valid == m.empty(), "verdict and messages disagree");
  // what the transit sees
  const int n = 1000;
  std::vector<double> seen(n + 1);
  int low = 0, dips = 0;
  for (int j = 0; j <= n; j++) {
    seen[static_cast<size_t>(j)] = Angle(i, k.Coordinate(static_cast<double>(j) / n));
    if (seen[static_cast<size_t>(j)] < seen[static_cast<size_t>(low)]) low = j;
  }
  for (int j = 0; j <= n; j++) {
    size_t u = static_cast<size_t>(j);
    dips += (j == 0 || seen[u - 1] > seen[u]) && (j == n || seen[u + 1] >= seen[u]);
  }
  double tenth = 1e9;
  int ten = 0;
  for (int j = 0; j <= n; j += n / 10)
    if (seen[static_cast<size_t>(j)] < tenth) tenth = seen[static_cast<size_t>(ten = j)];
  if (low == 0 || low == n) {
    // the lowest point seen is an end: there is nothing to sight on
    const double inside = seen[static_cast<size_t>(low == 0 ? 1 : n - 1)];
    if (inside - seen[static_cast<size_t>(low)] < 1e-6) c.Reject();
    double step = Angle(i, k.Coordinate(low == 0 ? 2e-5 : 1 - 2e-5)) - seen[static_cast<size_t>(low)];
    if (step < 1e-5) c.Reject();
    c.NonTrivial(low == n);
    Check(c, got == -999999, Cat("angle ", got, " is reported where an end of the span is seen lowest"));
    Check(c, !valid, "valid where an end of the span is seen lowest");
    Check(c, t.FactorControl() == -999999, "a control factor without a low point");
    return;
  }
  double steep = seen[static_cast<size_t>(low)];
  for (int j = -1000; j <= 1000; j++) steep = std::min(steep, Angle(i, k.Coordinate((low + j * 1e-3) / n)));
  if (steep < -89.4) {
    // above the cable: there is no direction to sight in
    // positions are found to 0.00001 of the span
    const double above = i.z - k.Coordinate(static_cast<double>(low) / n).z;
    if (steep < -89.6 && above > 2e-3 * i.s.a) Check(c, got == -999999 && !valid && t.FactorControl() == -999999, Cat("angle ", got, " is reported right above the cable"));
    return;
  }
  if (got == -999999) {
    // an end may be lower than what is seen of the low point at tenths
    if (ten == 0 || ten == n || low < 3 || low > n - 3) c.Reject();
    c.Fail("no angle is reported");
  }
  Check(c, valid, "not valid where a low point is seen");
  c.NonTrivial(i.y != 0 || i.s.wy != 0);
  CheckNear(c, "angle to the reported point", got, Angle(i, p), 1e-9, 1e-12);
  // the reported point is on the cable
  const double guess = i.s.wy == 0 ? p.x / i.s.a : -1;
  double best = 1e30, at = 0;
  for (int j = 0; j <= n; j++) {
    Point3d<double> q = k.Coordinate(static_cast<double>(j) / n);
    double d = std::hypot(std::hypot(q.x - p.x, q.y - p.y), q.z - p.z);
    if (d < best) best = d, at = static_cast<double>(j) / n;
  }
  double lo = std::max(0.0, at - 1.0 / n), hi = std::min(1.0, at + 1.0 / n);
  auto dist = [&](double f) {
    Point3d<double> q = k.Coordinate(f);
    return std::hypot(std::hypot(q.x - p.x, q.y - p.y), q.z - p.z);
  };
  for (int j = 0; j < 60; j++) {
    double u = lo + (hi - lo) / 3, v = hi - (hi - lo) / 3;
    if (dist(u) < dist(v)) hi = v; else lo = u;
  }
  at = (lo + hi) / 2;
  (void)guess;
  CheckNear(c, "distance of the reported point to the cable", dist(at), 0, 1e-5 * i.s.a, 0);
  // nothing is seen lower
  if (got > tenth + 1e-9) c.Fail(Cat("the angle reported is ", got, ", at a tenth of the span it is ", tenth));
  double near = got;
  for (int j = -200; j <= 200; j++) {
    double f = at + j * 1e-4;
    if (f > 0 && f < 1) near = std::min(near, Angle(i, k.Coordinate(f)));
  }
  // positions are found to 0.00001 of the span
  const double away = std::hypot(std::hypot(p.x - i.x, p.y - i.y), p.z - i.z);
  const double tol = 1e-5 + 60 * std::pow(2e-5 * i.s.a / away, 2);
  if (got > near + tol) c.Fail(Cat("the angle reported is ", got, ", beside it it is ", near));
  if (dips == 1 && got > seen[static_cast<size_t>(low)] + tol)
    c.Fail(Cat("the angle reported is ", got, ", the lowest angle is ", seen[static_cast<size_t>(low)]));
  // control factor
  const model::Curve r = i.s.At(i.H);
  const double factor = static_cast<double>(r.Sag(r.X(at)) / r.Sag(r.XSag()));
  CheckNear(c, "control factor", t.FactorControl(), factor, 1e-4, 0);
  // target
  const Point3d<double> g = t.PointTarget();
  if (i.y != 0 || i.s.wy != 0) {
    Check(c, g.x == -999999 && g.z == -999999, "a target off the plane of the cable");
  } else {
    const double x = i.x < p.x ? i.s.a : 0;
    CheckNear(c, "target x", g.x, x, 0, 0);
    CheckNear(c, "target y", g.y, 0, 0, 0);
    if (std::fabs(p.x - i.x) > 1e-3 * i.s.a) {
      const double z = i.z + (p.z - i.z) * (x - i.x) / (p.x - i.x);
      CheckNear(c, "target z", g.z, z, 1e-9 * i.s.a, 1e-9);
      // in line with what is seen, from the transit
      if ((x - i.x) * (p.x - i.x) > 0 && std::fabs(x - i.x) > 1e-3 * i.s.a)
        CheckNear(c, "angle to the target", Angle(i, g), got, 1e-6, 0);
    }
  }
}

// a sight line that touches the cable next to an end of the span
void Ends(Case& c) {
  In i;
  i.s.a = c.LogReal(50, 5000, 1000);
  i.s.b = c.Chance(1, 3) ? 0 : c.Real(-0.6, 0.6, 0.1) * i.s.a;
  if (std::fabs(i.s.b) >= 1999.9) i.s.b = 1999.9 * (i.s.b < 0 ? -1 : 1);
  i.s.wz = c.LogReal(0.05, 50, 1);
  i.s.wy = 0;
  i.H = static_cast<double>(i.s.HMin()) * c.LogReal(1.5, 30, 8);
  i.negative = false;
  i.y = 0;
  const bool ahead = c.Bool();
  const double f = c.LogReal(4e-5, 0.05, 1e-3), p = ahead ? 1 - f : f;
  const Catenary3d k = Make(i);
  const Point3d<double> q = k.Coordinate(p);
  // the slope of the cable there
  const double step = 1e-6;
  const Point3d<double> u = k.Coordinate(p - step), v = k.Coordinate(p + step);
  const double m = (v.z - u.z) / (v.x - u.x);
  // it looks along the cable, away from the end
  i.x = q.x + (ahead ? 1 : -1) * (0.02 + c.Real(0, 0.3, 0.1)) * i.s.a;
  i.z = q.z + m * (i.x - q.x);
  if (i.z > i.s.b - 1e-6) c.Reject();
  c.Note(Show(i) + Cat(" touches at ", p));
  const double low = Angle(i, q);
  if (low < -89) c.Reject();
  // the cable is seen higher the further it is from there
  const int n = 1000;
  for (int side = 0; side < 2; side++) {
    double last = low;
    for (int j = 1; j <= n; j++) {
      const double g = side ? p + (1 - p) * j / n : p - p * j / n, x = Angle(i, k.Coordinate(g));
      if (x < last) c.Reject();
      last = x;
    }
  }
  TransitSagger t = MakeSagger(i);
  const bool valid = t.Validate(false, nullptr);
  const double got = t.AngleLow();
  c.NonTrivial(f < 1e-3);
  if (got == -999999) c.Fail("no angle is reported");
  Check(c, valid, "not valid where a low point is seen");
  const Point3d<double> x = t.PointCatenaryLow();
  CheckNear(c, "touched at", x.x, q.x, 2e-5 * i.s.a, 0);
  CheckNear(c, "lowest angle", got, low, 1e-5, 0);
}

// the same span seen in a mirror
void Mirror(Case& c) {
  In i = Gen(c), j = i;
  c.Note(Show(i));
  bool along = c.Bool();
  if (along) {
    j.s.b = -i.s.b;
    j.x = i.s.a - i.x;
    j.z = i.z - i.s.b;
  } else {
    j.y = -i.y;
    j.negative = !i.negative;
  }
  TransitSagger t = MakeSagger(i), u = MakeSagger(j);
  const double a = t.AngleLow(), b = u.AngleLow();
  if (a == -999999 || b == -999999) c.Reject();
  c.NonTrivial(along ? i.s.b != 0 : i.y != 0);
  // the library leaves out turns of the loaded plane below 0.00005 degrees
  const model::Curve r = i.s.At(i.H);
  const double turn = std::fabs(model::Deg(std::atan2(i.s.b, i.s.a) - std::atan2(static_cast<double>(r.b), static_cast<double>(r.a))));
  if (turn != 0 && turn < 6e-5) c.Reject();
  const double tol = 1e-5;
  CheckNear(c, "angle in the mirror", b, a, tol, 0);
  const Point3d<double> p = t.PointCatenaryLow(), q = u.PointCatenaryLow();
  // sides that are seen alike can be exchanged
  const double px = along ? i.s.a - q.x : q.x, py = along ? q.y : -q.y, pz = along ? q.z + i.s.b : q.z;
  CheckNear(c, "angle to the mirrored point", Angle(i, Point3d<double>(px, py, pz)), Angle(i, p), tol, 0);
}

void History(Case& c) {
  In in[2] = {Gen(c), Gen(c)};
  c.Note(Show(in[0]) + " / " + Show(in[1]));
  int ik = 0, ip = 0, asked = 0, edits = 0;
  std::unique_ptr<TransitSagger> t(new TransitSagger());
  t->set_catenary(Make(in[0]));
  t->set_point_transit(Point3d<double>(in[0].x, in[0].y, in[0].z));
  int n = static_cast<int>(c.Int(1, 7));
  for (int i = 0; i < n; i++) {
    int kind = static_cast<int>(c.Int(0, 5));
    c.Note(Cat("step ", kind));
    const In& o = in[c.Int(0, 1)];
    switch (kind) {
      case 0: ik = &o == &in[1]; t->set_catenary(Make(o)); edits += asked > 0; break;
      case 1: ip = &o == &in[1]; t->set_point_transit(Point3d<double>(o.x, o.y, o.z)); edits += asked > 0; break;
      case 2: t.reset(new TransitSagger(*t)); edits += asked > 0; break;
      case 3: { std::list<ErrorMessage> m; t->Validate(c.Bool(), &m); asked++; break; }
      case 4: t->FactorControl(); t->PointTarget(); asked++; break;
      default: t->AngleLow(); asked++; break;
    }
  }
  c.NonTrivial(edits > 0);
  TransitSagger f;
  f.set_point_transit(Point3d<double>(in[ip].x, in[ip].y, in[ip].z));
  f.set_catenary(Make(in[ik]));
  CheckNear(c, "angle after edits", t->AngleLow(), f.AngleLow(), 0, 0);
  if (f.AngleLow() != -999999) {
    CheckNear(c, "control factor after edits", t->FactorControl(), f.FactorControl(), 0, 0);
    CheckNear(c, "low point after edits", t->PointCatenaryLow().x, f.PointCatenaryLow().x, 0, 0);
    CheckNear(c, "target after edits", t->PointTarget().z, f.PointTarget().z, 0, 0);
  }
}

void Incomplete(Case& c) {
  In i = Gen(c);
  TransitSagger t;
  int missing = static_cast<int>(c.Int(0, 3));
  c.Note(Cat("missing ", missing));
  c.NonTrivial(missing != 1);
  if (missing == 0) t.set_point_transit(Point3d<double>(i.x, i.y, i.z));
  if (missing == 1) t.set_catenary(Make(i));
  if (missing == 3) {
    t.set_catenary(Make(i));
    t.set_point_transit(Point3d<double>(i.x, i.y, i.s.b + c.Real(0.001, 100, 1)));
  }
  int order = static_cast<int>(c.Int(0, 2));
  if (order == 1) t.AngleLow();
  if (order == 2) t.FactorControl(), t.PointTarget(), t.PointCatenaryLow();
  std::list<ErrorMessage> m;
  Check(c, !t.Validate(c.Bool(), &m) && !t.Validate(c.Bool()), "an incomplete transit sagger, or one above the cable, is valid");
  Check(c, !m.empty(), "invalid without a message");
}

// slightly changed inputs, copies and assignments
void Sequences(Case& c) {
  typedef TransitSagger T;
  const In a = Gen(c), b = Gen(c);
  std::vector<Catenary3d> k = {Make(a), Make(a), Make(b)};
  k[1].set_tension_horizontal(k[0].tension_horizontal() * c.PickOf<double>({1.001, 1.1, 1.5}));
  std::vector<Point3d<double>> p = {Point3d<double>(a.x, a.y, a.z), Point3d<double>(a.x, a.y, a.z), Point3d<double>(b.x, b.y, b.z)};
  switch (c.Int(0, 3)) {
    case 0: p[1].x += c.PickOf<double>({1, -1, 30}); break;
    case 1: p[1].y = -p[1].y; break;
    case 2: p[1].y += c.PickOf<double>({1, -1}); break;
    default: p[1].z -= c.PickOf<double>({1, 0.1, 20}); break;
  }
  Histories<T> h;
  h.Value("catenary", 3, [=](T& o, int v) { o.set_catenary(k[static_cast<size_t>(v)]); });
  h.Value("transit", 3, [=](T& o, int v) { o.set_point_transit(p[static_cast<size_t>(v)]); });
  h.Peek("angle", [](const T& o) { o.AngleLow(); });
  h.Peek("factor", [](const T& o) { o.FactorControl(); });
  h.Peek("low", [](const T& o) { o.PointCatenaryLow(); });
  h.Peek("target", [](const T& o) { o.PointTarget(); });
  h.Peek("validate", [](const T& o) { std::list<ErrorMessage> m; o.Validate(true, &m); });
  h.Ask("angle", [](const T& o) { return static_cast<double>(o.AngleLow()); });
  h.Ask("factor", [](const T& o) { return static_cast<double>(o.FactorControl()); });
  h.Ask("low", [](const T& o, std::vector<double>* r) {
    const auto p = o.PointCatenaryLow();
    *r = {p.x, p.y, p.z};
  });
  h.Ask("target", [](const T& o, std::vector<double>* r) {
    const auto p = o.PointTarget();
    *r = {p.x, p.y, p.z};
  });
  h.Ask("verdict", [](const T& o) { return static_cast<double>(o.Validate(false, nullptr)); });
  h.Run(c);
}

}  // namespace

Property vp::MakeProperty() {
  Property p;
  p.id = "P22";
  p.assumptions = {"points on the cable are those of Catenary3d, which P06 decides",
                   "the transit is below the cable, where the cable is beside it, and below its ahead end"};
  p.laws = {{"low", "the low point is off the plane of the transit, or an end seen lowest is the ahead end", 4000, 100000, Low},
            {"ends", "the low point is within a thousandth of the span of its end", 4000, 60000, Ends},
            {"mirror", "the mirrored span differs", 6000, 100000, Mirror},
            {"history", "an input changed, or the object was copied, after a query", 6000, 100000, History},
            {"incomplete", "more than the transit's position is missing, or the transit is too high", 2000, 20000, Incomplete},
            {"sequences", "an input changed, or the object was copied, after a query", 3000, 60000, Sequences}};
  return p;
}
