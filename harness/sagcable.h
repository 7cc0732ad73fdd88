// Reference model of the load-strain behaviour of a cable component and of the
// composite cable, restated from the definition (bisection, long double), and
// generators of components and cables.
#ifndef VERIF_SAGCABLE_H_
#define VERIF_SAGCABLE_H_

#include <algorithm>
#include <vector>

#include "engine.h"
#include "model.h"
#include "models/sagtension/cable_component_elongation_model.h"
#include "models/sagtension/cable_elongation_model.h"
#include "models/sagtension/sag_tension_cable.h"
#include "models/transmissionline/cable.h"
#include "models/transmissionline/catenary.h"

namespace sag {
typedef long double R;
typedef SagTensionCableComponent::PolynomialType Type;
const Type kCreep = Type::kCreep;
const Type kLoadStrain = Type::kLoadStrain;

// root of a continuous function that changes sign on [a, b]
template <typename F>
R Root(F f, R a, R b, R eps) {
  R fa = f(a), fb = f(b);
  if (fa == 0) return a;
  if (fb == 0) return b;
  int side = 0;
  for (int i = 0; i < 200 && fabsl(b - a) > eps; i++) {
    R m = i % 3 == 2 ? (a + b) / 2 : (fa * b - fb * a) / (fa - fb);
    if (!(std::min(a, b) <= m && m <= std::max(a, b))) m = (a + b) / 2;
    R fm = f(m);
    if (fm == 0) return m;
    if ((fm > 0) == (fa > 0)) {
      a = m;
      fa = fm;
      if (side == -1) fb /= 2;
      side = -1;
    } else {
      b = m;
      fb = fm;
      if (side == 1) fa /= 2;
      side = 1;
    }
  }
  return (a + b) / 2;
}

struct Poly {
  R c[5] = {0, 0, 0, 0, 0};
  R lo = 0, hi = 0;  // the polynomial increases on [lo, hi]
  R Y(R x) const { return (((c[4] * x + c[3]) * x + c[2]) * x + c[1]) * x + c[0]; }
  R D(R x) const { return ((4 * c[4] * x + 3 * c[3]) * x + 2 * c[2]) * x + c[1]; }
  bool Reaches(R y) const { return Y(lo) <= y && y <= Y(hi); }
  R X(R y) const {
    R a = lo, b = hi;
    for (int i = 0; i < 120; i++) {
      R m = (a + b) / 2;
      (Y(m) < y ? a : b) = m;
    }
    return (a + b) / 2;
  }
  // the customary Newton iteration from a strain of 0.1 finds the same root
  bool NewtonFinds(R y) const {
    R x = 0.1L;
    for (int i = 0; i < 60; i++) {
      if (D(x) == 0) return false;
      x -= (Y(x) - y) / D(x);
      if (!(fabsl(x) < 1e6L)) return false;
    }
    return Reaches(y) && fabsl(x - X(y)) < 1e-9L * (hi - lo);
  }
  // steps until the load is met
  int NewtonSteps(R y) const {
    R x = 0.1L;
    int i = 0;
    for (; i < 100 && fabsl(Y(x) - y) > 0.01L && D(x) != 0; i++) x -= (Y(x) - y) / D(x);
    return i;
  }
  R SlopeMin() const { R m = D(lo); for (int i = 1; i <= 200; i++) m = std::min(m, D(lo + (hi - lo) * i / 200)); return m; }
  R SlopeMax() const { R m = D(lo); for (int i = 1; i <= 200; i++) m = std::max(m, D(lo + (hi - lo) * i / 200)); return m; }
};

// one load-strain curve: compression line, elastic line, polynomial, tangent
struct Curve {
  Poly p;
  R sx, sy, th, E, C, tan, Ls, Le, es, ee, eu;
  R Load(R e) const {
    if (e < eu) return C * (e - eu);
    if (e <= es) return E * (e - eu);
    if (e < ee) return sy * p.Y((e - th) / sx);
    return Le + tan * (e - ee);
  }
  R Slope(R e) const {
    if (e < eu) return C;
    if (e <= es) return E;
    if (e < ee) return sy / sx * p.D((e - th) / sx);
    return tan;
  }
  R Strain(R L) const {
    if (L < 0) return eu + L / C;
    if (L <= Ls) return eu + L / E;
    if (L < Le) return th + sx * p.X(L / sy);
    return ee + (L - Le) / tan;
  }
};

struct Component {
  CableComponent base;
  Poly poly[2];  // creep, load-strain
  R Limit(Type t) const { return t == kCreep ? base.load_limit_polynomial_creep : base.load_limit_polynomial_loadstrain; }
  const Poly& P(Type t) const { return poly[t == kCreep ? 0 : 1]; }
  R SlopeMin() const { return std::min(poly[0].SlopeMin(), poly[1].SlopeMin()) * base.scale_polynomial_y / base.scale_polynomial_x; }
  R SlopeMax() const { return std::max(poly[0].SlopeMax(), poly[1].SlopeMax()) * base.scale_polynomial_y / base.scale_polynomial_x; }
  R Tangent(Type t) const {
    R x = P(t).X(Limit(t) / base.scale_polynomial_y);
    return std::max<R>(100000, P(t).D(x) * base.scale_polynomial_y / base.scale_polynomial_x);
  }
  // curve at a temperature above the reference, stretched by a load (that is
  // on the polynomial of the same type)
  Curve Make(Type t, R above, R stretch) const {
    Curve k;
    k.p = P(t);
    k.sx = base.scale_polynomial_x;
    k.sy = base.scale_polynomial_y;
    k.th = base.coefficient_expansion_linear_thermal * above;
    k.E = base.modulus_tension_elastic_area;
    k.C = base.modulus_compression_elastic_area;
    k.tan = Tangent(t);
    k.Ls = stretch;
    k.Le = Limit(t);
    k.ee = k.th + k.sx * k.p.X(k.Le / k.sy);
    k.es = k.Ls <= k.Le ? k.th + k.sx * k.p.X(k.Ls / k.sy) : k.ee + (k.Ls - k.Le) / k.tan;  // past the limit it is extrapolated
    k.eu = k.es - k.Ls / k.E;
    return k;
  }
  // stretch load on the polynomial of type `to` for a stretch load reached on
  // the polynomial of type `from` at a temperature
  R Transfer(Type from, Type to, R above, R load) const {
    if (load == 0 || from == to) return load;
    Curve f = Make(from, above, 0), g = Make(to, above, 0);
    R e0 = f.Strain(load);
    auto diff = [&](R e) { return g.Load(e) - (load + f.E * (e - e0)); };
    R a = e0 - 1, b = e0 + 1;  // decreasing
    for (int i = 0; i < 120; i++) {
      R m = (a + b) / 2;
      (diff(m) > 0 ? a : b) = m;
    }
    return g.Load((a + b) / 2);
  }
};

// quartic with a positive slope on [lo, hi] (Bernstein form of the slope)
inline Poly GenPoly(vp::Case& c, double xe, double slope) {
  Poly p;
  p.lo = -0.3L * xe;
  p.hi = 1.5L * xe;
  R w = p.hi - p.lo, b[4];
  for (int i = 0; i < 4; i++) b[i] = slope * c.Real(0.35, 1, 1);
  // slope in u = (x - lo) / w
  R s[4] = {b[0], 3 * (b[1] - b[0]), 3 * (b[2] - 2 * b[1] + b[0]), b[3] - 3 * b[2] + 3 * b[1] - b[0]};
  // integrate: P(u) = w * sum s[i] u^(i+1) / (i+1); then expand u
  R q[5] = {0, w * s[0], w * s[1] / 2, w * s[2] / 3, w * s[3] / 4};
  R pw[5] = {1, 0, 0, 0, 0};  // u^i as a polynomial in x
  for (int i = 0; i < 5; i++) {
    for (int k = 0; k < 5; k++) p.c[k] += q[i] * pw[k];
    R next[5] = {0, 0, 0, 0, 0};
    for (int k = 0; k < 5; k++) {
      next[k] += pw[k] * (-p.lo / w);
      if (k < 4) next[k + 1] += pw[k] / w;
    }
    for (int k = 0; k < 5; k++) pw[k] = next[k];
  }
  // origin near zero strain
  R x0 = c.Real(-0.02, 0.02, 0) * xe;
  p.c[0] -= p.Y(x0);
  for (int k = 0; k < 5; k++) p.c[k] = static_cast<double>(p.c[k]);
  return p;
}

inline Poly Fixed(double k, double c0, double c1, double c2, double c3, double c4) {
  Poly p;
  double v[5] = {c0, c1, c2, c3, c4};
  for (int i = 0; i < 5; i++) p.c[i] = static_cast<double>(v[i] * k);
  p.lo = -0.2L;
  p.hi = 1.05L;
  return p;
}

inline void Publish(Component* m) {
  m->base.coefficients_polynomial_creep.clear();
  m->base.coefficients_polynomial_loadstrain.clear();
  for (int i = 0; i < 5; i++) {
    m->base.coefficients_polynomial_creep.push_back(static_cast<double>(m->poly[0].c[i]));
    m->base.coefficients_polynomial_loadstrain.push_back(static_cast<double>(m->poly[1].c[i]));
  }
}

// kind: 0 = ACSR Drake core (steel), 1 = ACSR Drake shell (aluminium),
// 2 = synthetic.  The area scales the loads (0.7264 in^2 for Drake).
inline Component GenComponent(vp::Case& c, int kind, double area, bool scales) {
  Component m;
  CableComponent& b = m.base;
  b.capacity_heat = 100;
  b.scale_polynomial_x = 0.01;
  b.scale_polynomial_y = 1;
  if (kind == 0 || kind == 1) {
    double j = c.Real(0.85, 1.15, 1) * area;
    if (kind == 0) {
      m.poly[0] = Fixed(j, 47.1, 36211.3, 12201.4, -72392, 46338);
      m.poly[1] = Fixed(j, -69.3, 38629, 3998.1, -45713, 27892);
      b.load_limit_polynomial_creep = 22406 * j;
      b.load_limit_polynomial_loadstrain = 19154 * j;
      b.modulus_tension_elastic_area = 3700000. * j * 1.2;
      b.modulus_compression_elastic_area = c.Chance(1, 2) ? c.Real(1000, 500000, 150000) * j : 0;
      b.coefficient_expansion_linear_thermal = 0.0000064;
    } else {
      m.poly[0] = Fixed(j, -544.8, 21426.8, -18842.2, 5495, 0);
      m.poly[1] = Fixed(j, -1213, 44308.1, -14004.4, -37618, 30676);
      b.load_limit_polynomial_creep = 7535 * j;
      b.load_limit_polynomial_loadstrain = 20252 * j;
      b.modulus_tension_elastic_area = 6400000. * j;
      b.modulus_compression_elastic_area = c.Real(1000, 500000, 150000) * j;
      b.coefficient_expansion_linear_thermal = 0.0000128;
    }
    Publish(&m);
    return m;
  }
  if (scales && c.Chance(1, 3)) b.scale_polynomial_x = c.PickOf<double>({0.01, 0.005, 0.02});
  if (scales && c.Chance(1, 3)) b.scale_polynomial_y = c.PickOf<double>({1, 2, 0.5, 10});
  double xe = c.Real(0.3, 0.7, 0.5) * 0.01 / b.scale_polynomial_x;
  double strength = c.LogReal(3000, 30000, 10000) * area / 0.7264;
  double ls = c.Real(0.8, 1.2, 1), cr = c.Real(0.4, 0.95, 0.6);
  m.poly[0] = GenPoly(c, xe, cr * strength / xe / b.scale_polynomial_y);
  m.poly[1] = GenPoly(c, xe, ls * strength / xe / b.scale_polynomial_y);
  b.load_limit_polynomial_creep = static_cast<double>(m.poly[0].Y(xe * c.Real(0.4, 1, 1))) * b.scale_polynomial_y;
  b.load_limit_polynomial_loadstrain = static_cast<double>(m.poly[1].Y(xe * c.Real(0.4, 1, 1))) * b.scale_polynomial_y;
  b.modulus_tension_elastic_area = std::max(200000., static_cast<double>(m.SlopeMax())) * c.Real(1.2, 2.5, 1.3);
  b.modulus_compression_elastic_area = c.Chance(1, 4) ? 0 : c.Real(0.0005, 0.3, 0.03) * b.modulus_tension_elastic_area;
  b.coefficient_expansion_linear_thermal = c.Real(0.000004, 0.000025, 0.00001);
  Publish(&m);
  return m;
}

// every load of interest can be found on both polynomials
inline bool Usable(const Component& m) {
  for (int t = 0; t < 2; t++) {
    R L = m.Limit(t == 0 ? kCreep : kLoadStrain) / m.base.scale_polynomial_y;
    for (int i = 0; i <= 10; i++)
      if (!m.poly[t].NewtonFinds(L * i / 10)) return false;
  }
  return true;
}

// error allowed in the load at a strain: polynomials are solved to 0.01
// (polynomial) load units; `stretch_error` is that of the stretch load before
// it is carried over to the other polynomial
inline double LoadTolerance(const Component& m, const Curve& k, bool transfer, double stretch_error, double* strain_error = nullptr) {
  double ds = static_cast<double>(k.sy / k.sx * k.p.D((k.es - k.th) / k.sx));
  double de = static_cast<double>(k.sy / k.sx * k.p.D((k.ee - k.th) / k.sx));
  if (k.es > k.ee) ds = std::min(de, static_cast<double>(k.tan));
  double E = m.base.modulus_tension_elastic_area, smax = static_cast<double>(m.SlopeMax());
  double p = 0.0101 * std::max(1.0, m.base.scale_polynomial_y);
  double s = transfer ? (0.0101 + 2 * p + stretch_error * E / static_cast<double>(m.SlopeMin())) * E / (E - smax) : stretch_error;
  if (strain_error != nullptr) *strain_error = (p + s) / ds + p / de + 1e-9;
  return (p + s) * (1 + E / ds) + p * (1 + static_cast<double>(k.tan) / de) + 1e-5;
}

struct Composite {
  Component part[2];  // core, shell
  bool on[2] = {true, true};
  double ref = 70;
};

struct CompositeCurve {
  Curve k[2];
  bool on[2];
  double tol = 0.02, strain_tol = 0;
  R Load(R e) const { R s = 0; for (int i = 0; i < 2; i++) if (on[i]) s += k[i].Load(e); return s; }
  R Slope(R e) const { R s = 0; for (int i = 0; i < 2; i++) if (on[i]) s += k[i].Slope(e); return s; }
  R Strain(R L) const {
    if (L > 0) return Root([&](R e) { return Load(e) - L; }, -1, 1, 1e-16L);
    R a = -1, b = 1;
    for (int i = 0; i < 120; i++) {
      R m = (a + b) / 2;
      (Load(m) <= L ? a : b) = m;  // the upper end of a slack range
    }
    return (a + b) / 2;
  }
};

// false when a stretch load is beyond the polynomial
inline bool MakeComposite(const Composite& m, const CableState& st, const CableStretchState& sx, CompositeCurve* out) {
  CompositeCurve free;
  for (int i = 0; i < 2; i++) {
    free.on[i] = out->on[i] = m.on[i];
    if (m.on[i]) free.k[i] = m.part[i].Make(sx.type_polynomial, sx.temperature - m.ref, 0);
  }
  R e = sx.load == 0 ? 0 : free.Strain(sx.load);
  out->tol = 0.02;
  out->strain_tol = 0;
  for (int i = 0; i < 2; i++) {
    if (!m.on[i]) continue;
    R L = sx.load == 0 ? 0 : std::max<R>(0, free.k[i].Load(e));
    R s = std::max<R>(0, m.part[i].Transfer(sx.type_polynomial, st.type_polynomial, sx.temperature - m.ref, L));
    if (s <= m.part[i].Limit(st.type_polynomial) && !m.part[i].P(st.type_polynomial).NewtonFinds(s / m.part[i].base.scale_polynomial_y)) return false;
    out->k[i] = m.part[i].Make(st.type_polynomial, st.temperature - m.ref, s);
    double error = 0;
    if (sx.load > 0) {
      double ft = LoadTolerance(m.part[i], free.k[i], false, 0);
      error = 2 * ft + 0.011;
      if (m.on[0] && m.on[1]) error += LoadTolerance(m.part[1 - i], free.k[1 - i], false, 0);
    }
    double se;
    out->tol += LoadTolerance(m.part[i], out->k[i], sx.type_polynomial != st.type_polynomial && L > 0, error, &se);
    out->strain_tol += se;
  }
  return true;
}

inline Composite GenComposite(vp::Case& c, bool scales) {
  Composite m;
  double area = c.LogReal(0.2, 2, 0.7264);
  bool drake = c.Chance(1, 2);
  for (int i = 0; i < 2; i++) m.part[i] = GenComponent(c, drake ? i : 2, area, scales);
  int which = static_cast<int>(c.PickOf<int>({2, 2, 2, 2, 0, 1}));
  for (int i = 0; i < 2; i++) {
    m.on[i] = which == 2 || which == i;
    if (m.on[i] && !Usable(m.part[i])) c.Reject();
    if (!m.on[i]) {
      if (c.Bool()) m.part[i].base = CableComponent();
      else m.part[i].base.coefficients_polynomial_creep.assign(5, 0);
    }
  }
  m.ref = c.Chance(1, 3) ? c.Real(0, 100, 70) : 70;
  return m;
}

// allowed error of the strain at a load
inline double StrainTolerance(const CompositeCurve& r, R L) {
  R e = r.Strain(L), d = 2 * r.strain_tol + 1e-7L;
  R s = std::min(r.Slope(e + d), r.Slope(e));
  if (r.Slope(e - d) > 0) s = std::min(s, r.Slope(e - d));
  return (r.tol + 0.011) / static_cast<double>(std::max<R>(s, 1)) + r.strain_tol;
}

// length after a change of load (and model)
inline R Strained(R length, R strain_start, R strain_finish) {
  R d = strain_finish - strain_start;
  return d < 0 ? length / (1 - d) : length * (1 + d);
}

// a span under a unit load, in the plane of the resultant load
struct Span {
  double a = 1000, b = 0, wy = 0, wz = 1;
  double W() const { return std::hypot(wy, wz); }
  model::Curve At(R H) const {
    double y2 = b * (wz / W()), x2 = std::sqrt(a * a + b * b - y2 * y2);
    return model::Curve(static_cast<double>(H), W(), x2, y2);
  }
  R HMin() const { return std::hypot(a, b) / 2 * W(); }
};
inline std::string Text(const Span& s) { return vp::Cat("span (", s.a, ", 0, ", s.b, ") load (0, ", s.wy, ", ", s.wz, ")"); }
inline Catenary3d MakeCatenary(const Span& s, double H) {
  Catenary3d k;
  k.set_spacing_endpoints(Vector3d(s.a, 0, s.b));
  k.set_weight_unit(Vector3d(0, s.wy, s.wz));
  k.set_tension_horizontal(H);
  return k;
}

// horizontal tension of a span after the cable is reloaded
struct Reload {
  bool ok = false;
  R H = 0, T = 0;      // horizontal and average tension
  double tol = 0;      // allowed error of the horizontal tension
  double tol_average = 0;
};
inline Reload Solve(R length, R tension, const CompositeCurve& from, const Span& span, const CompositeCurve& to, R below = 1) {
  Reload out;
  R e0 = from.Strain(tension);
  auto g = [&](R H) {
    model::Curve k = span.At(H);
    return k.len - Strained(length, e0, to.Strain(k.TensionSampled()));
  };
  R lo = span.HMin() * below, hi = 200000;
  if (!(g(lo) > 0) || !(g(hi) < 0)) return out;
  out.H = Root(g, lo, hi, 1e-9L * lo);
  out.T = span.At(out.H).TensionSampled();
  R sampling = fabsl(out.T - span.At(out.H).TensionMean());
  R h = std::max<R>(0.01L * out.H, 1);
  // the length difference falls with the tension
  R slope = std::min((g(out.H - h) - g(out.H)) / h, (g(out.H) - g(out.H + h)) / h);
  double strain = StrainTolerance(from, tension) + StrainTolerance(to, out.T) +
                  static_cast<double>(sampling / std::max<R>(to.Slope(to.Strain(out.T)), 1));
  // the last step is below 0.01, but its direction and size suffer from the noise of the strains
  out.tol = 0.022 + 2 * static_cast<double>(length / slope) * strain + 1e-7 * static_cast<double>(out.H);
  R dT = (span.At(out.H + out.tol).TensionSampled() - out.T);
  out.tol_average = std::fabs(static_cast<double>(dT)) * 1.5 + 0.011;
  out.ok = slope > 0;
  return out;
}

inline void FillCable(const Composite& m, Cable* cable) {
  cable->area_physical = 0.0050444444444444444;
  cable->diameter = 0.092333333333333333;
  cable->name = "generated";
  cable->strength_rated = 31500;
  cable->temperature_properties_components = m.ref;
  cable->weight_unit = 1.094;
  cable->component_core = m.part[0].base;
  cable->component_shell = m.part[1].base;
}

inline const char* Name(Type t) { return t == kCreep ? "creep" : "loadstrain"; }

inline std::string Text(const Component& m) {
  std::string s = "component{creep";
  for (double v : m.base.coefficients_polynomial_creep) s += vp::Cat(" ", v);
  s += "; loadstrain";
  for (double v : m.base.coefficients_polynomial_loadstrain) s += vp::Cat(" ", v);
  return vp::Cat(s, "; limits ", m.base.load_limit_polynomial_creep, " ", m.base.load_limit_polynomial_loadstrain,
                 "; tension ", m.base.modulus_tension_elastic_area, " compression ", m.base.modulus_compression_elastic_area,
                 " alpha ", m.base.coefficient_expansion_linear_thermal, " scales ", m.base.scale_polynomial_x, " ",
                 m.base.scale_polynomial_y, "}");
}

}  // namespace sag

#endif  // VERIF_SAGCABLE_H_
