// P15: load-strain behaviour of one cable component.
#include "models/sagtension/cable_component_elongation_model.h"

#include <memory>

#include "history.h"
#include "sagcable.h"

using namespace vp;
using namespace sag;

namespace {

struct Setup {
  Component m;
  SagTensionCableComponent comp;
  double ref;
  CableState st;
  CableStretchState sx;
};

Type GenType(Case& c) { return c.Bool() ? kCreep : kLoadStrain; }

void GenStates(Case& c, const Component& m, CableState* st, CableStretchState* sx) {
  st->temperature = c.Real(-60, 400, 70);
  st->type_polynomial = GenType(c);
  sx->temperature = c.Real(-60, 250, 70);
  sx->type_polynomial = GenType(c);
  sx->load = c.Chance(1, 4) ? 0 : static_cast<double>(m.Limit(sx->type_polynomial)) * (c.Chance(1, 4) ? c.Real(0.95, 3, 1.2) : c.Real(0.02, 0.95, 0.5));
}

Component GenM(Case& c) {
  Component m = GenComponent(c, static_cast<int>(c.PickOf<int>({2, 0, 1, 2})), c.Real(0.3, 2, 0.7264), true);
  if (!Usable(m)) c.Reject();
  return m;
}

// reference curve of the state; false when the stretch isn't representable
bool RefCurve(const Component& m, double ref, const CableState& st, const CableStretchState& sx, Curve* out, R* stretch) {
  *stretch = m.Transfer(sx.type_polynomial, st.type_polynomial, sx.temperature - ref, sx.load);
  // the stretched point lies on the polynomial
  *stretch = std::max<R>(0, *stretch);
  if (*stretch <= m.Limit(st.type_polynomial) && !m.P(st.type_polynomial).NewtonFinds(*stretch / m.base.scale_polynomial_y)) return false;
  *out = m.Make(st.type_polynomial, st.temperature - ref, *stretch);
  return true;
}

struct Tol { double load, strain; };
Tol Tolerance(const Component& m, const Curve& k, bool transfer) {
  Tol t;
  t.load = LoadTolerance(m, k, transfer, 0, &t.strain);
  return t;
}

R GenStrain(Case& c, const Curve& k) {
  switch (c.Int(0, 5)) {
    case 0: return k.es + (k.ee - k.es) * c.Real(0, 1, 0.5);
    case 1: return k.eu + (k.es - k.eu) * c.Real(0, 1, 0.5);
    case 2: return k.ee + c.Real(0, 0.005, 0.001);
    case 3: return k.eu - c.Real(0, 0.005, 0.001);
    case 4: return c.PickOf<R>({k.eu, k.es, k.ee});
    default: return k.th + c.Real(-0.003, 0.012, 0);
  }
}

void Against(Case& c, const CableComponentElongationModel& lib, const Setup& s, const Curve& k, bool transfer) {
  Tol tol = Tolerance(s.m, k, transfer);
  double th = lib.StrainThermal();
  CheckNear(c, "thermal strain", th, static_cast<double>(k.th), 1e-12, 1e-9);
  int n = static_cast<int>(c.Int(1, 4));
  for (int i = 0; i < n; i++) {
    double e = static_cast<double>(GenStrain(c, k));
    c.Note(Cat("strain ", e, " eu ", static_cast<double>(k.eu), " es ", static_cast<double>(k.es), " ee ", static_cast<double>(k.ee)));
    double load = lib.Load(e);
    CheckNear(c, "load at a strain", load, static_cast<double>(k.Load(e)), tol.load, 1e-9);
    auto close = [&](R at) { return fabsl(e - at) <= tol.strain; };
    if (!close(k.eu) && !close(k.es) && !close(k.ee))
      CheckNear(c, "slope at a strain", lib.Slope(e), static_cast<double>(k.Slope(e)), 1e-6, 1e-3);
    if (load >= 0 || s.m.base.modulus_compression_elastic_area > 0) {
      // where the slope is tiny the strain is only known that much worse
      double sl = static_cast<double>(std::min(k.Slope(e - tol.strain), k.Slope(e + tol.strain)));
      if (load < tol.load) sl = std::min(sl, std::max(1e-9, static_cast<double>(k.C)));
      double back = lib.Strain(load);
      CheckNear(c, "strain of the load at a strain", back, load < 0 && load > -tol.load ? back : e, 2 * tol.load / sl, 1e-9);
      CheckNear(c, "load at the strain of the load", lib.Load(back), load, 0.011 * std::max(1.0, s.m.base.scale_polynomial_y), 1e-9);
      R L = load;
      if (load > tol.load || load < -tol.load)
        CheckNear(c, "strain at a load", back, static_cast<double>(k.Strain(L)), 2 * tol.load / sl, 1e-9);
    }
    double e2 = e + c.Real(0, 0.004, 0.0001);
    if (lib.Load(e2) < load - 1e-6) c.Fail(Cat("load decreases from strain ", e, " to ", e2));
  }
}

void Curves(Case& c) {
  Setup s;
  s.m = GenM(c);
  s.ref = c.Real(0, 100, 70);
  GenStates(c, s.m, &s.st, &s.sx);
  s.comp.set_component_base(&s.m.base);
  c.Note(Cat(Text(s.m), " ref ", s.ref, " state ", Name(s.st.type_polynomial), " ", s.st.temperature, " stretch ",
             Name(s.sx.type_polynomial), " ", s.sx.temperature, " load ", s.sx.load));
  Curve k;
  R stretch;
  if (!RefCurve(s.m, s.ref, s.st, s.sx, &k, &stretch)) c.Reject();
  CableComponentElongationModel lib;
  lib.set_component_cable(&s.comp);
  lib.set_state(&s.st);
  lib.set_state_stretch(&s.sx);
  lib.set_temperature_reference(&s.ref);
  if (c.Chance(1, 3)) {
    std::list<ErrorMessage> m;
    bool ok = lib.Validate(false, &m);
    Check(c, ok && m.empty(), "a complete component model is not valid");
  }
  bool transfer = s.sx.load > 0 && s.sx.type_polynomial != s.st.type_polynomial;
  c.NonTrivial(s.sx.load > 0 && s.st.temperature != s.ref);
  Against(c, lib, s, k, transfer);
}

// edits and queries in any order: the answers are those of the current inputs
void History(Case& c) {
  std::vector<Component> ms;
  for (int i = 0; i < 2; i++) ms.push_back(GenM(c));
  SagTensionCableComponent comps[2];
  for (int i = 0; i < 2; i++) comps[i].set_component_base(&ms[i].base);
  double refs[2] = {c.Real(0, 100, 70), c.Real(0, 100, 70)};
  CableState sts[3];
  CableStretchState sxs[3];
  for (int i = 0; i < 3; i++) GenStates(c, ms[0], &sts[i], &sxs[i]);
  int im = 0, ir = 0, is = 0, ix = 0;
  CableComponentElongationModel lib;
  lib.set_component_cable(&comps[0]);
  lib.set_state(&sts[0]);
  lib.set_state_stretch(&sxs[0]);
  lib.set_temperature_reference(&refs[0]);
  int n = static_cast<int>(c.Int(1, 8)), asked = 0, edits = 0;
  for (int i = 0; i < n; i++) {
    switch (c.Int(0, 6)) {
      case 0: im = static_cast<int>(c.Int(0, 1)); lib.set_component_cable(&comps[im]); edits += asked > 0; break;
      case 1: ir = static_cast<int>(c.Int(0, 1)); lib.set_temperature_reference(&refs[ir]); edits += asked > 0; break;
      case 2: is = static_cast<int>(c.Int(0, 2)); lib.set_state(&sts[is]); edits += asked > 0; break;
      case 3: ix = static_cast<int>(c.Int(0, 2)); lib.set_state_stretch(&sxs[ix]); edits += asked > 0; break;
      case 4: {
        std::list<ErrorMessage> m;
        lib.Validate(c.Bool(), &m);
        break;
      }
      default: lib.Load(0.001); asked++; break;
    }
    c.Note(Cat("component ", im, " ref ", refs[ir], " state ", is, " stretch ", ix));
  }
  CableComponentElongationModel fresh;
  fresh.set_component_cable(&comps[im]);
  fresh.set_state(&sts[is]);
  fresh.set_state_stretch(&sxs[ix]);
  fresh.set_temperature_reference(&refs[ir]);
  c.NonTrivial(edits > 0);
  double e = c.Real(-0.002, 0.01, 0.001), L = c.Real(0, 20000, 1000);
  auto same = [&](const char* what, double a, double b) {
    if (!(a == b) && !(std::isnan(a) && std::isnan(b)) && !Near(a, b, 1e-9, 1e-12))
      c.Fail(Cat(what, " after edits: ", a, ", with the same inputs from scratch: ", b));
  };
  same("load", lib.Load(e), fresh.Load(e));
  same("slope", lib.Slope(e), fresh.Slope(e));
  same("strain", lib.Strain(L), fresh.Strain(L));
  same("thermal strain", lib.StrainThermal(), fresh.StrainThermal());
  auto a = lib.PointsRegions(), b = fresh.PointsRegions();
  for (size_t i = 0; i < 3; i++) {
    same("region point strain", a.at(i).x, b.at(i).x);
    same("region point load", a.at(i).y, b.at(i).y);
  }
}

// the same, and with inputs that are changed in place, slightly changed inputs,
// copies and assignments
void Sequences(Case& c) {
  auto base = std::make_shared<std::vector<CableComponent>>();
  Component first = GenM(c);
  base->push_back(first.base);
  base->push_back(GenM(c).base);
  {
    CableComponent b = first.base;
    switch (c.Int(0, 4)) {
      case 0: b.coefficient_expansion_linear_thermal *= 1.25; break;
      case 1: b.modulus_compression_elastic_area *= 0.5; break;
      case 2: b.modulus_tension_elastic_area *= 1.25; break;
      case 3: b.load_limit_polynomial_creep *= 0.9; break;
      default: std::swap(b.coefficients_polynomial_creep, b.coefficients_polynomial_loadstrain); break;
    }
    base->push_back(b);
  }
  auto comps = std::make_shared<std::vector<SagTensionCableComponent>>(base->size() + 1);
  auto shared_base = std::make_shared<CableComponent>(first.base);
  for (size_t i = 0; i < base->size(); i++) (*comps)[i].set_component_base(&(*base)[i]);
  comps->back().set_component_base(shared_base.get());
  std::vector<CableState> states(3);
  std::vector<CableStretchState> stretches(3);
  for (size_t i = 0; i < 3; i++) GenStates(c, first, &states[i], &stretches[i]);
  states[1] = states[0];
  if (c.Bool()) states[1].temperature = Related(c, states[0].temperature, -60, 400);
  else states[1].type_polynomial = states[0].type_polynomial == kCreep ? kLoadStrain : kCreep;
  stretches[1] = stretches[0];
  switch (c.Int(0, 2)) {
    case 0: stretches[1].temperature = Related(c, stretches[0].temperature, -60, 250); break;
    case 1: stretches[1].type_polynomial = stretches[0].type_polynomial == kCreep ? kLoadStrain : kCreep; break;
    default: stretches[1].load = Related(c, stretches[0].load, 0, 0.95 * std::min(first.base.load_limit_polynomial_creep, first.base.load_limit_polynomial_loadstrain)); break;
  }
  std::vector<double> refs = {c.Real(0, 100, 70), 0, 0};
  refs[1] = Related(c, refs[0], 0, 100);
  refs[2] = c.Real(0, 100, 70);
  std::vector<double> strains, loads;
  for (int i = 0; i < 3; i++) {
    strains.push_back(c.Real(-0.002, 0.01, 0.001));
    loads.push_back(c.Real(0, 20000, 1000));
  }
  typedef CableComponentElongationModel M;
  Histories<M> h;
  h.Pointer("component", static_cast<int>(base->size()),
            [=](int v) { *shared_base = (*base)[static_cast<size_t>(v)]; comps->back().set_component_base(shared_base.get()); },
            [=](M& o, int v, bool shared) { o.set_component_cable(shared ? &comps->back() : &(*comps)[static_cast<size_t>(v)]); });
  h.Pointer<CableState>("state", states, [](M& o, const CableState* s) { o.set_state(s); });
  h.Pointer<CableStretchState>("stretch", stretches, [](M& o, const CableStretchState* s) { o.set_state_stretch(s); });
  h.Pointer<double>("reference", refs, [](M& o, const double* s) { o.set_temperature_reference(s); });
  h.Peek("load", [=](const M& o) { o.Load(strains[0]); });
  h.Peek("strain", [=](const M& o) { o.Strain(loads[0]); });
  h.Peek("thermal", [](const M& o) { o.StrainThermal(); });
  h.Peek("validate", [](const M& o) { std::list<ErrorMessage> m; o.Validate(true, &m); });
  h.Ask("load", [=](const M& o, std::vector<double>* r) {
    for (double e : strains) r->push_back(o.Load(e));
  });
  h.Ask("slope", [=](const M& o, std::vector<double>* r) {
    for (double e : strains) r->push_back(o.Slope(e));
  });
  h.Ask("strain", [=](const M& o, std::vector<double>* r) {
    for (double l : loads) r->push_back(o.Strain(l));
  });
  h.Ask("thermal", [](const M& o) { return static_cast<double>(o.StrainThermal()); });
  h.Ask("regions", [](const M& o, std::vector<double>* r) {
    for (auto& p : o.PointsRegions()) {
      r->push_back(p.x);
      r->push_back(p.y);
    }
  });
  h.Run(c);
}

}  // namespace

Property vp::MakeProperty() {
  Property p;
  p.id = "P15";
  p.assumptions = {
      "polynomials increase over the strains used, their slopes stay below the elastic modulus, and Newton's iteration from 0.1 finds their roots",
      "the stretch load is within the polynomial limit after it is carried over to the other polynomial"};
  p.laws = {{"curve", "stretched and away from the reference temperature", 30000, 600000, Curves},
            {"history", "an input changed after a query", 20000, 400000, History},
            {"sequences", "an input changed, or the model was copied, after a query", 10000, 200000, Sequences}};
  return p;
}
