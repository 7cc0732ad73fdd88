// P01: vectors behave as Euclidean vectors.
#include "engine.h"
#include "model.h"
#include "models/base/vector.h"

using namespace vp;
using model::AngleDiff;
using model::Rad;

namespace {

// a component: zero, tiny, ordinary or large, of either sign
double Component(Case& c) {
  const int kind = static_cast<int>(c.Int(0, 7));
  double v;
  if (kind == 0) v = 0;
  else if (kind == 1) v = c.LogReal(1e-22, 1e-3, 1e-3);
  else if (kind == 2) v = static_cast<double>(c.Int(1, 5));
  else if (kind == 3) v = c.LogReal(1e3, 1e9, 1e3);
  else v = c.LogReal(1e-3, 1e4, 1);
  return c.Bool() ? -v : v;
}
double Rotation(Case& c) {
  const int kind = static_cast<int>(c.Int(0, 3));
  if (kind == 0) return 90.0 * static_cast<double>(c.Int(-8, 8));
  if (kind == 1) return c.Real(-180, 180, 30);
  if (kind == 2) return c.Real(-1080, 1080, 30);
  return c.LogReal(1e-6, 1, 1) * (c.Bool() ? -1 : 1);
}
const double kSkip = 0.0001 * model::kPi / 180;  // negligible rotations may be ignored

void Law2d(Case& c) {
  const double x = Component(c), y = Component(c);
  c.Note(Cat("vector (", x, ", ", y, ")"));
  Vector2d v(x, y);
  const double m = std::hypot(x, y);
  CheckNear(c, "magnitude", v.Magnitude(), m, 1e-300, 1e-12);
  if (x == 0 && y == 0) {
    Check(c, v.Angle() == -999999, "a zero vector has no angle");
    return;
  }
  c.NonTrivial();
  const double a = v.Angle();
  const double an = v.Angle(true);
  c.Note(Cat("angle ", a, " / ", an));
  Check(c, 0 <= a && a < 360, Cat("angle must lie in [0, 360): ", a));
  Check(c, -180 < an && an <= 180, Cat("signed angle must lie in (-180, 180]: ", an));
  Check(c, std::fabs(AngleDiff(a, an)) < 1e-9, Cat("signed and unsigned angle disagree: ", a, " ", an));
  const double ref = model::Deg(std::atan2(y, x));
  Check(c, std::fabs(AngleDiff(a, ref)) < 1e-9, Cat("angle ", a, " but atan2 gives ", ref));
  // polar reconstruction
  CheckNear(c, "magnitude*cos(angle)", v.Magnitude() * std::cos(Rad(a)), x, 1e-11 * m, 1e-11);
  CheckNear(c, "magnitude*sin(angle)", v.Magnitude() * std::sin(Rad(a)), y, 1e-11 * m, 1e-11);
  // rotation
  const double r1 = Rotation(c), r2 = Rotation(c);
  c.Note(Cat("rotations ", r1, " ", r2));
  Vector2d w = v;
  w.Rotate(r1);
  const double tol = m * (kSkip + 1e-10);
  CheckNear(c, "rotated x", w.x(), x * std::cos(Rad(r1)) - y * std::sin(Rad(r1)), tol, 1e-9);
  CheckNear(c, "rotated y", w.y(), x * std::sin(Rad(r1)) + y * std::cos(Rad(r1)), tol, 1e-9);
  CheckNear(c, "magnitude after rotation", w.Magnitude(), m, 0, 1e-11);
  Vector2d w2 = w;
  w2.Rotate(r2);
  Vector2d once = v;
  once.Rotate(r1 + r2);
  CheckNear(c, "composed rotation x", w2.x(), once.x(), 3 * tol, 1e-9);
  CheckNear(c, "composed rotation y", w2.y(), once.y(), 3 * tol, 1e-9);
  w.Rotate(-r1);
  CheckNear(c, "rotation back x", w.x(), x, 2 * tol, 1e-9);
  CheckNear(c, "rotation back y", w.y(), y, 2 * tol, 1e-9);
  // scaling
  const double k = Component(c);
  Vector2d s = v;
  s.Scale(k);
  Check(c, Near(s.x(), k * x, 0, 1e-15) && Near(s.y(), k * y, 0, 1e-15), "scaled components");
  CheckNear(c, "scaled magnitude", s.Magnitude(), std::fabs(k) * m, 1e-300, 1e-12);
  s.set_x(x);
  s.set_y(y);
  Check(c, s.x() == x && s.y() == y && s.Magnitude() == v.Magnitude(), "components as set");
}

void Law3d(Case& c) {
  double v[3] = {Component(c), Component(c), Component(c)};
  c.Note(Cat("vector (", v[0], ", ", v[1], ", ", v[2], ")"));
  Vector3d u(v[0], v[1], v[2]);
  const double m = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
  CheckNear(c, "magnitude", u.Magnitude(), m, 1e-300, 1e-12);
  static const Plane2dType kPlanes[] = {Plane2dType::kXy, Plane2dType::kXz, Plane2dType::kYx,
                                        Plane2dType::kYz, Plane2dType::kZx, Plane2dType::kZy};
  static const int kAxes[][2] = {{0, 1}, {0, 2}, {1, 0}, {1, 2}, {2, 0}, {2, 1}};
  for (int p = 0; p < 6; p++) {
    const int i = kAxes[p][0], j = kAxes[p][1];
    const double a = u.Angle(kPlanes[p]);
    const double an = u.Angle(kPlanes[p], true);
    if (v[i] == 0 && v[j] == 0) {
      Check(c, a == -999999 && an == -999999, "a vector without extent in the plane has no angle");
      continue;
    }
    c.NonTrivial();
    const double ref = model::Deg(std::atan2(v[j], v[i]));
    Check(c, 0 <= a && a < 360, Cat("plane ", p, " angle must lie in [0, 360): ", a));
    Check(c, -180 < an && an <= 180, Cat("plane ", p, " signed angle must lie in (-180, 180]: ", an));
    Check(c, std::fabs(AngleDiff(a, ref)) < 1e-9, Cat("plane ", p, " angle ", a, " but atan2 gives ", ref));
    Check(c, std::fabs(AngleDiff(an, ref)) < 1e-9, Cat("plane ", p, " signed angle ", an, " but atan2 gives ", ref));
  }
  // a sequence of rotations against explicit rotation matrices
  const int n = static_cast<int>(c.Int(1, 5));
  double e[3] = {v[0], v[1], v[2]};
  double tol = 0;
  for (int k = 0; k < n; k++) {
    const int p = static_cast<int>(c.Int(0, 5));
    const int i = kAxes[p][0], j = kAxes[p][1];
    const double r = Rotation(c);
    c.Note(Cat("rotate plane ", p, " by ", r));
    const double other = u.x() * (i != 0 && j != 0) + u.y() * (i != 1 && j != 1) + u.z() * (i != 2 && j != 2);
    u.Rotate(kPlanes[p], r);
    const double a = e[i] * std::cos(Rad(r)) - e[j] * std::sin(Rad(r));
    const double b = e[i] * std::sin(Rad(r)) + e[j] * std::cos(Rad(r));
    e[i] = a;
    e[j] = b;
    tol += m * (kSkip + 1e-10);
    CheckNear(c, "rotated x", u.x(), e[0], tol, 1e-9);
    CheckNear(c, "rotated y", u.y(), e[1], tol, 1e-9);
    CheckNear(c, "rotated z", u.z(), e[2], tol, 1e-9);
    CheckNear(c, "magnitude after rotation", u.Magnitude(), m, 0, 1e-10);
    const double other2 = u.x() * (i != 0 && j != 0) + u.y() * (i != 1 && j != 1) + u.z() * (i != 2 && j != 2);
    Check(c, other == other2, "a rotation changed the component normal to its plane");
  }
  const double k = Component(c);
  Vector3d s(v[0], v[1], v[2]);
  s.Scale(k);
  Check(c, Near(s.x(), k * v[0], 0, 1e-15) && Near(s.y(), k * v[1], 0, 1e-15) &&
               Near(s.z(), k * v[2], 0, 1e-15), "scaled components");
  CheckNear(c, "scaled magnitude", s.Magnitude(), std::fabs(k) * m, 1e-300, 1e-12);
}
}  // namespace

Property vp::MakeProperty() {
  return {"P01",
          {"rotations below 0.0001 degrees may be ignored by the library (it drops angles under 0.00005)",
           "component magnitudes 0 or 1e-22 .. 1e9"},
          {{"planar", "the vector is not zero", 400000, 8000000, Law2d},
           {"spatial", "the vector has extent in at least one plane", 400000, 8000000, Law3d}},
          {}};
}
