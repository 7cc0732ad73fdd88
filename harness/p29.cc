// P29: material data that don't describe a cable are pointed out by the
// validation with warnings, and only there.
#include <memory>

#include "sagcable.h"

using namespace vp;
using namespace sag;

namespace {

struct Shape {
  bool unclear = false, bad = false;
};
void Add(Shape* a, const Shape& b) { a->unclear |= b.unclear; a->bad |= b.bad; }
// a quantity that has to stay below one, by some margin either way
void Limit(Shape* s, R q, R margin) {
  if (q > 1 + margin) s->bad = true;
  else if (q > 1 - margin) s->unclear = true;
}

// what a polynomial of a component has to be like, from zero load to its limit
Shape Reference(const Component& m, Type t) {
  const Poly& p = m.P(t);
  const R sx = m.base.scale_polynomial_x, k = m.base.scale_polynomial_y / sx, E = m.base.modulus_tension_elastic_area;
  Shape s;
  const R x0 = p.X(0), x1 = p.X(m.Limit(t) / m.base.scale_polynomial_y);
  Limit(&s, fabsl(x0) * sx / 0.0001L, 0.05L + 200 * 0.011L / fabsl(p.D(x0)) * sx / 0.0001L);
  // falling, or steeper than the elastic modulus, for a part of the range
  const int n = 1000;
  for (int kind = 0; kind < 2; kind++) {
    int run = 0, most = 0, close = 0;
    for (int i = 0; i <= n; i++) {
      const R d = p.D(x0 + (x1 - x0) * i / n) * k, at = E * 0.002L;
      const bool off = kind == 0 ? d < -at : d > E + at, near = kind == 0 ? d < at : d > E - at;
      close += near;
      run = off ? run + 1 : 0;
      most = std::max(most, run);
    }
    if (most > n * 45 / 1000) s.bad = true;
    else if (close > 0) s.unclear = true;
  }
  return s;
}

// a polynomial that falls in the middle of its range
bool Hump(Case& c, Component* m, int which) {
  const R xe = m->poly[which].X(m->Limit(which == 0 ? kCreep : kLoadStrain) / m->base.scale_polynomial_y);
  const R mid = c.Real(0.25, 0.75, 0.5), r = c.Real(0.04, 0.2, 0.1);
  Poly p;
  p.lo = -0.3L * xe;
  p.hi = 1.5L * xe;
  // slope = g ((x / xe - mid)^2 - r^2)
  const R g = c.LogReal(2000, 60000, 20000) * 4 / m->base.scale_polynomial_y;
  p.c[1] = static_cast<double>(g * (mid * mid - r * r));
  p.c[2] = static_cast<double>(-g * mid / xe);
  p.c[3] = static_cast<double>(g / xe / xe / 3);
  const R y1 = p.Y(xe), top = p.Y((mid - r) * xe), low = p.Y((mid + r) * xe);
  if (!(y1 > 1.05L * top) || !(low > 0.02L * y1)) return false;
  m->poly[which] = p;
  (which == 0 ? m->base.load_limit_polynomial_creep : m->base.load_limit_polynomial_loadstrain) = static_cast<double>(y1 * m->base.scale_polynomial_y);
  return true;
}
// moves the origin of a polynomial away from zero strain
void Move(Case& c, Component* m, int which) {
  Poly& p = m->poly[which];
  const R x = (c.Bool() ? 1 : -1) * c.Real(0.00005, 0.0007, 0.0003) / m->base.scale_polynomial_x;
  p.c[0] = static_cast<double>(p.c[0] - p.Y(x));
}

std::string Spoil(Case& c, Component* m) {
  const int kind = static_cast<int>(c.PickOf<int>({0, 1, 2, 3})), which = static_cast<int>(c.Int(0, 1));
  switch (kind) {
    case 1: Move(c, m, which); break;
    case 2: m->base.modulus_tension_elastic_area = static_cast<double>(m->SlopeMin() + (m->SlopeMax() - m->SlopeMin()) * c.Real(0, 1, 0.5)); break;
    case 3: if (!Hump(c, m, which)) c.Reject(); break;
    default: break;
  }
  Publish(m);
  // the iteration wanders about a hump, and isn't the same in any arithmetic
  for (Type t : {kCreep, kLoadStrain})
    for (R y : {R(0), m->Limit(t) / R(m->base.scale_polynomial_y)})
      if (m->P(t).NewtonSteps(y) > 14) c.Reject();
  for (Type t : {kCreep, kLoadStrain})
    if (!m->P(t).NewtonFinds(0) || !m->P(t).NewtonFinds(m->Limit(t) / m->base.scale_polynomial_y)) c.Reject();
  return Cat("spoiled ", kind, " ", which == 0 ? "creep" : "loadstrain", " ", Text(*m));
}
// components with an origin that is close enough to zero
Component Good(Case& c, int kind, double area) {
  Component m = GenComponent(c, kind, area, true);
  for (Poly& p : m.poly) p.c[0] = static_cast<double>(p.c[0] - p.Y(c.Real(-0.00007, 0.00007, 0) / m.base.scale_polynomial_x));
  Publish(&m);
  return m;
}
template <typename T>
void Verdict(Case& c, const T& lib, bool bad, const std::string& what) {
  c.NonTrivial(bad);
  std::list<ErrorMessage> m, n;
  const bool first = c.Bool();
  if (first) Check(c, lib.Validate(false, &n) && n.empty(), what + " isn't valid without warnings");
  const bool ok = lib.Validate(true, &m);
  std::string text;
  for (auto& e : m) text = e.description;
  Check(c, ok == !bad, Cat(what, ": the verdict with warnings is ", ok, " ", text));
  Check(c, m.empty() == ok, what + ": messages and verdict differ");
  Check(c, lib.Validate(true, nullptr) == ok, what + ": the verdict changes");
  if (!first) Check(c, lib.Validate(false, &n) && n.empty(), what + " isn't valid without warnings");
}

void Shapes(Case& c) {
  Component m = Good(c, static_cast<int>(c.PickOf<int>({2, 0, 1})), c.LogReal(0.2, 2, 0.7264));
  c.Note(Spoil(c, &m));
  Shape s = Reference(m, kCreep);
  Add(&s, Reference(m, kLoadStrain));
  if (s.unclear && !s.bad) c.Reject();
  SagTensionCableComponent comp;
  comp.set_component_base(&m.base);
  double ref = 70;
  CableState st;
  st.temperature = c.Real(-40, 200, 70);
  st.type_polynomial = c.Bool() ? kCreep : kLoadStrain;
  CableStretchState sx;
  sx.temperature = 70;
  sx.type_polynomial = st.type_polynomial;
  sx.load = 0;
  CableComponentElongationModel lib;
  lib.set_component_cable(&comp);
  lib.set_state(&st);
  lib.set_state_stretch(&sx);
  lib.set_temperature_reference(&ref);
  Verdict(c, lib, s.bad, "component");
}

void Cables(Case& c) {
  Composite m;
  const double area = c.LogReal(0.2, 2, 0.7264);
  for (int i = 0; i < 2; i++) m.part[i] = Good(c, 2, area);
  const int which = static_cast<int>(c.PickOf<int>({2, 2, 0, 1}));
  Shape s;
  R cap = 0;
  for (int i = 0; i < 2; i++) {
    m.on[i] = which == 2 || which == i;
    if (!m.on[i]) { m.part[i].base = CableComponent(); continue; }
    if (c.Chance(1, 4)) c.Note(Spoil(c, &m.part[i]));
    else c.Note(Text(m.part[i]));
    Add(&s, Reference(m.part[i], kCreep));
    Add(&s, Reference(m.part[i], kLoadStrain));
    cap += m.part[i].Limit(kLoadStrain);
  }
  if (s.unclear && !s.bad) c.Reject();
  for (int i = 0; i < 2; i++)
    if (m.on[i] && !Usable(m.part[i])) c.Reject();
  Cable base;
  FillCable(m, &base);
  base.strength_rated = static_cast<double>(cap) * c.Real(0.2, 1.3, 0.5);
  CompositeCurve r;
  CableState st;
  st.temperature = m.ref;
  st.type_polynomial = kLoadStrain;
  CableStretchState sx;
  sx.temperature = m.ref;
  sx.type_polynomial = kLoadStrain;
  sx.load = 0;
  if (!s.bad) {
    if (!MakeComposite(m, st, sx, &r)) c.Reject();
    const R e = r.Strain(base.strength_rated), slope = r.Slope(e);
    for (int i = 0; i < 2; i++)
      if (m.on[i]) {
        const R d = r.k[i].ee - e, margin = 1e-5L + 2 * r.strain_tol + 0.03L / slope;
        if (d < -margin) s.bad = true;
        else if (d < margin) s.unclear = true;
      }
    if (m.on[0] && m.on[1]) Limit(&s, fabsl(r.k[0].eu - r.k[1].eu) / 0.0001L, 0.05L + r.strain_tol / 0.0001L);
    if (s.unclear && !s.bad) c.Reject();
  }
  c.Note(Cat("strength ", base.strength_rated));
  SagTensionCable cable;
  cable.set_cable_base(&base);
  st.temperature = c.Real(-40, 200, 70);
  CableElongationModel lib;
  lib.set_cable(&cable);
  lib.set_state(st);
  lib.set_state_stretch(sx);
  const double probe = c.Real(0.0005, 0.003, 0.001), before = lib.Load(CableElongationModel::ComponentType::kCombined, probe);
  Verdict(c, lib, s.bad, "cable");
  CheckNear(c, "load after the validation", lib.Load(CableElongationModel::ComponentType::kCombined, probe), before, 1e-9, 1e-12);
}

}  // namespace

Property vp::MakeProperty() {
  Property p;
  p.id = "P29";
  p.assumptions = {"no stretch, loads on the load-strain polynomial", "data that aren't within a few percent of a threshold; a falling or steep part makes up over 4.5 % of the range"};
  p.laws = {{"component", "the data are unsuitable", 20000, 400000, Shapes}, {"cable", "the data are unsuitable", 10000, 200000, Cables}};
  return p;
}
