// P04: polynomials, and the round shapes built on elementary formulas.
#include <memory>

#include "engine.h"
#include "model.h"
#include "models/base/geometric_shapes.h"
#include "models/base/polynomial.h"

using namespace vp;

namespace {

double Coefficient(Case& c) {
  if (c.Chance(1, 6)) return 0;
  const double v = c.Bool() ? static_cast<double>(c.Int(1, 20)) : c.LogReal(1e-4, 1e5, 1);
  return c.Bool() ? -v : v;
}
std::vector<double> Coefficients(Case& c, int lo, int hi) {
  std::vector<double> v(static_cast<size_t>(c.Int(lo, hi)));
  for (double& x : v) x = Coefficient(c);
  return v;
}
std::string Show(const std::vector<double>& v) {
  std::string s = "[";
  for (double x : v) s += Cat(s.size() > 1 ? ", " : "", x);
  return s + "]";
}
long double Horner(const std::vector<double>& k, long double x, long double* size) {
  long double y = 0, m = 0;
  for (size_t i = k.size(); i-- > 0;) {
    y = y * x + k[i];
    m = m * std::fabs(x) + std::fabs(static_cast<long double>(k[i]));
  }
  if (size) *size = m;
  return y;
}
std::vector<double> Derive(const std::vector<double>& k) {
  std::vector<double> d;
  for (size_t i = 1; i < k.size(); i++) d.push_back(k[i] * static_cast<double>(i));
  return d;
}
void CheckPoly(Case& c, const char* who, const Polynomial& p, const std::vector<double>& k, double x) {
  long double size;
  const double y = static_cast<double>(Horner(k, x, &size));
  CheckNear(c, Cat(who, " value").c_str(), p.Y(x), y, 1e-13 * static_cast<double>(size), 1e-13);
  const std::vector<double> d = Derive(k);
  const double s = static_cast<double>(Horner(d, x, &size));
  CheckNear(c, Cat(who, " slope").c_str(), p.Slope(x), s, 1e-13 * static_cast<double>(size), 1e-13);
  Check(c, p.OrderMax() == static_cast<int>(k.size()) - 1, Cat(who, " order"));
}

void LawEvaluate(Case& c) {
  const std::vector<double> k = Coefficients(c, 1, 7);
  const double x = c.Bool() ? c.Real(-3, 3, 0.5) : Coefficient(c) / 100;
  c.Note(Cat("polynomial ", Show(k), " at ", x));
  c.NonTrivial(k.size() >= 3);
  Polynomial p;
  p.set_coefficients(&k);
  const bool slope_first = c.Bool();
  if (slope_first) p.Slope(x);
  Check(c, p.Validate(true, nullptr), "a polynomial with coefficients is valid");
  CheckPoly(c, "polynomial", p, k, x);
  if (k.size() >= 2) {
    Polynomial d = p.Derivative();
    const std::vector<double> kd = Derive(k);
    Check(c, *d.coefficients() == kd, "derivative coefficients are " + Show(*d.coefficients()));
    CheckPoly(c, "derivative", d, kd, x);
  }
  // new coefficients replace the old ones completely
  const std::vector<double> k2 = Coefficients(c, 1, 7);
  p.set_coefficients(&k2);
  CheckPoly(c, "changed polynomial", p, k2, x);
}

void LawCopies(Case& c) {
  // a pool of polynomials that are copied, assigned, changed and destroyed
  std::vector<std::vector<double>> ks;
  for (int i = 0; i < 3; i++) ks.push_back(Coefficients(c, 1, 5));
  std::vector<std::unique_ptr<Polynomial>> pool(4);
  int of[4] = {0, 1, 0, 0};
  pool[0].reset(new Polynomial(&ks[0]));
  pool[1].reset(new Polynomial(&ks[1]));
  const int n = static_cast<int>(c.Int(2, 12));
  int copies = 0;
  for (int i = 0; i < n; i++) {
    const size_t a = static_cast<size_t>(c.Int(0, 3)), b = static_cast<size_t>(c.Int(0, 3));
    const int op = static_cast<int>(c.Int(0, 4));
    const double x = c.Real(-2, 2, 1);
    if (op == 0 && pool[a]) {
      CheckPoly(c, Cat("polynomial #", a).c_str(), *pool[a], ks[static_cast<size_t>(of[a])], x);
    } else if (op == 1 && pool[b]) {
      c.Note(Cat("#", a, " = copy of #", b));
      pool[a].reset(new Polynomial(*pool[b]));
      of[a] = of[b];
      copies++;
    } else if (op == 2 && pool[a] && pool[b]) {
      c.Note(Cat("#", a, " assigned from #", b));
      *pool[a] = *pool[b];
      of[a] = of[b];
      copies++;
    } else if (op == 3 && pool[a]) {
      const int k = static_cast<int>(c.Int(0, 2));
      c.Note(Cat("#", a, " set to ", k));
      pool[a]->set_coefficients(&ks[static_cast<size_t>(k)]);
      of[a] = k;
    } else if (op == 4) {
      c.Note(Cat("#", a, " destroyed"));
      pool[a].reset();
    }
  }
  c.NonTrivial(copies > 0);
  for (size_t a = 0; a < 4; a++)
    if (pool[a])
      CheckPoly(c, Cat("polynomial #", a, " at the end").c_str(), *pool[a], ks[static_cast<size_t>(of[a])], 0.75);
}

void LawInverse(Case& c) {
  // rising, convex on x >= 0: Newton's method converges from every start there
  std::vector<double> k(static_cast<size_t>(c.Int(2, 6)));
  k[0] = Coefficient(c);
  k[1] = c.LogReal(0.1, 1e5, 1);
  for (size_t i = 2; i < k.size(); i++) k[i] = c.Chance(1, 3) ? 0 : c.LogReal(1e-3, 1e5, 1);
  const double x = c.Real(0, 10, 1);
  const double guess = c.Real(0, 10, 0);
  const int sign = c.Bool() ? -1 : 1;
  for (double& v : k) v *= sign;
  long double size;
  const double y = static_cast<double>(Horner(k, x, &size));
  int precision = static_cast<int>(c.Int(0, 6));
  while (precision > 0 && std::pow(10, -precision) < 1e-11 * static_cast<double>(size)) precision--;
  if (std::pow(10, -precision) < 1e-11 * static_cast<double>(size)) c.Reject();
  c.Note(Cat("polynomial ", Show(k), " y ", y, " precision ", precision, " guess ", guess, " root ", x));
  // a start whose slope is tiny shoots so far that 100 steps don't lead back
  long double at = guess;
  int steps = 0;
  for (; steps < 90; steps++) {
    long double v = 0, d = 0;
    for (size_t i = k.size(); i-- > 0;) {
      d = d * at + v;
      v = v * at + k[i];
    }
    if (fabsl(v - y) <= std::pow(10, -precision)) break;
    at -= (v - y) / d;
  }
  if (steps == 90) c.Reject();
  c.NonTrivial(k.size() >= 3 && std::fabs(guess - x) > 1e-3);
  Polynomial p(&k);
  const double got = p.X(y, precision, guess);
  const double tol = std::pow(10, -precision);
  CheckNear(c, "value at the solution", p.Y(got), y, tol * 1.0001 + 1e-12 * static_cast<double>(size), 0);
  CheckNear(c, "solution", got, x, tol / std::fabs(k[1]) * 1.01 + 1e-9, 1e-9);
}

// started at a root, the search stays there, whatever the sign of the root and
// the shape of the polynomial elsewhere
void LawRoot(Case& c) {
  const std::vector<double> k = Coefficients(c, 2, 6);
  const double x = c.Real(-10, 10, -1);
  long double size;
  const double y = static_cast<double>(Horner(k, x, &size));
  const double slope = static_cast<double>(Horner(Derive(k), x, nullptr));
  if (std::fabs(slope) * 1e-6 < 1e-13 * static_cast<double>(size)) c.Reject();
  const int precision = static_cast<int>(c.Int(0, 3));
  if (std::pow(10, -precision) < 1e-11 * static_cast<double>(size)) c.Reject();
  c.Note(Cat("polynomial ", Show(k), " y ", y, " root ", x));
  c.NonTrivial(x < 0 && k.size() >= 3);
  Polynomial p(&k);
  CheckNear(c, "solution started at a root", p.X(y, precision, x), x, 1e-5, 0);
}

void LawCylinder(Case& c) {
  const double d = c.LogReal(1e-4, 1e4, 1), l = c.LogReal(1e-4, 1e5, 1);
  c.Note(Cat("cylinder ", d, " x ", l));
  c.NonTrivial();
  Cylinder s;
  s.set_diameter(d);
  s.set_length(l);
  CheckNear(c, "area", s.AreaCrossSection(), model::kPi * d * d / 4, 0, 1e-12);
  CheckNear(c, "volume", s.Volume(), model::kPi * d * d / 4 * l, 0, 1e-12);
  Check(c, s.Validate(true, nullptr), "valid");
  Check(c, s.diameter() == d && s.length() == l, "getters");
}
}  // namespace

Property vp::MakeProperty() {
  return {"P04",
          {"the inverse is asked of rising or falling convex polynomials with non-negative start values from which Newton's method needs less than 90 steps"},
          {{"evaluate", "order 2 or higher", 300000, 6000000, LawEvaluate},
           {"copies", "at least one polynomial was copied", 200000, 4000000, LawCopies},
           {"inverse", "order 2 or higher and a start away from the root", 200000, 4000000, LawInverse},
           {"root", "a negative root, order 2 or higher", 100000, 1000000, LawRoot},
           {"cylinder", "always", 50000, 500000, LawCylinder}},
          {}};
}
