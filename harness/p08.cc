// P08: weight, ice and wind on a unit length of cable.
#include <list>

#include "engine.h"
#include "model.h"
#include "models/transmissionline/cable.h"
#include "models/transmissionline/cable_unit_load_solver.h"

using namespace vp;

namespace {

struct In {
  double d, w, t, rho, p;
  double temperature;
};
In Gen(Case& c) {
  In i;
  i.d = c.LogReal(0.005, 0.3, 0.1);
  i.w = c.LogReal(0.05, 50, 1);
  i.t = c.Bool() ? 0 : c.LogReal(0.001, 0.5, 0.1);
  i.rho = c.Bool() ? 57.3 : c.Chance(1, 6) ? 0 : c.LogReal(0.01, 10000, 100);
  i.p = c.Bool() ? 0 : c.LogReal(0.1, 3000, 4);
  i.temperature = c.Real(-50, 300, 0);
  return i;
}
WeatherLoadCase Load(const In& i) {
  WeatherLoadCase l;
  l.thickness_ice = i.t;
  l.density_ice = i.rho;
  l.pressure_wind = i.p;
  l.temperature_cable = i.temperature;
  return l;
}
std::string Show(const In& i) {
  return Cat("diameter ", i.d, " weight ", i.w, " ice ", i.t, " of ", i.rho, " wind ", i.p, " at ", i.temperature);
}

void LawReference(Case& c) {
  In i = Gen(c);
  double d = i.d, w = i.w;
  CableUnitLoadSolver s;
  s.set_diameter_cable(&d);
  s.set_weight_unit_cable(&w);
  const int n = static_cast<int>(c.Int(1, 4));
  for (int j = 0; j < n; j++) {
    // the solver follows the cable it was given, and keeps nothing of a load
    if (j > 0) {
      const In o = Gen(c);
      i.t = o.t;
      i.p = o.p;
      i.rho = o.rho;
      if (c.Bool()) d = i.d = o.d;
      if (c.Bool()) w = i.w = o.w;
      if (c.Bool()) {
        CableUnitLoadSolver copy(s);
        s = copy;
      }
    }
    c.Note(Show(i));
    c.NonTrivial(i.t > 0 && i.p > 0);
    const Vector3d u = s.UnitCableLoad(Load(i));
    // ring of ice around the cable
    const double ice = model::kPi * i.t * (i.d + i.t) * i.rho;
    // the ring is a difference of two cylinders
    const double slack = 1e-14 * (i.d + 2 * i.t) * (i.d + 2 * i.t) * i.rho;
    Check(c, u.x() == 0, "no load along the cable");
    CheckNear(c, "wind load", u.y(), (i.d + 2 * i.t) * i.p, 0, 1e-13);
    CheckNear(c, "vertical load", u.z(), i.w + ice, slack, 1e-12);
    Check(c, *s.diameter_cable() == d && *s.weight_unit_cable() == w && s.diameter_cable() == &d, "inputs read back");
    Check(c, s.Validate(true, nullptr), "valid");
  }
}

// ice laid on in two steps weighs the same as in one
void LawIceInSteps(Case& c) {
  const In i = Gen(c);
  const double t1 = c.LogReal(0.001, 0.3, 0.1), t2 = c.LogReal(0.001, 0.3, 0.1);
  c.Note(Cat(Show(i), " layers ", t1, " ", t2));
  c.NonTrivial();
  double d1 = i.d, w1 = i.w;
  CableUnitLoadSolver s;
  s.set_diameter_cable(&d1);
  s.set_weight_unit_cable(&w1);
  In o = i;
  o.t = t1 + t2;
  const Vector3d both = s.UnitCableLoad(Load(o));
  o.t = t1;
  double w2 = s.UnitCableLoad(Load(o)).z();
  double d2 = i.d + 2 * t1;
  s.set_diameter_cable(&d2);
  s.set_weight_unit_cable(&w2);
  o.t = t2;
  const Vector3d second = s.UnitCableLoad(Load(o));
  const double D = i.d + 2 * t1 + 2 * t2;
  CheckNear(c, "vertical load", second.z(), both.z(), 1e-13 * D * D * i.rho, 1e-12);
  CheckNear(c, "wind load", second.y(), both.y(), 0, 1e-13);
}

void LawValidity(Case& c) {
  In i = Gen(c);
  CableUnitLoadSolver s;
  bool valid = true;
  const double bad = c.PickOf<double>({0, -0.1, -999999});
  int what = static_cast<int>(c.Int(0, 4));
  if (what == 1) i.d = bad;
  if (what == 2) i.w = bad;
  if (what != 3) s.set_diameter_cable(&i.d);
  if (what != 4) s.set_weight_unit_cable(&i.w);
  valid = what == 0;
  std::list<ErrorMessage> m;
  Check(c, s.Validate(c.Bool(), &m) == valid && m.empty() == valid && s.Validate(true, nullptr) == valid,
        "solver verdict");
  // the weather itself
  WeatherLoadCase l = Load(i);
  what = static_cast<int>(c.Int(0, 8));
  const double neg = c.PickOf<double>({-1e-6, -1, -999999});
  bool ok = what == 0 || what > 4;
  if (what == 1) l.density_ice = neg;
  if (what == 2) l.pressure_wind = neg;
  if (what == 3) l.thickness_ice = neg;
  if (what == 4) l.temperature_cable = c.PickOf<double>({-50.01, -100, -999999});
  if (what == 5) l.temperature_cable = -50;
  if (what == 6) l.density_ice = l.pressure_wind = l.thickness_ice = 0;
  if (what == 7) l.temperature_cable = 400;
  c.Note(Cat("weather change ", what));
  c.NonTrivial(!ok || !valid);
  std::list<ErrorMessage> n;
  Check(c, l.Validate(c.Bool(), &n) == ok && n.empty() == ok && l.Validate(true, nullptr) == ok, "weather verdict");
  Cable cable;
  Check(c, !cable.Validate(true, nullptr), "an unset cable");
  cable.area_physical = 0.1;
  cable.diameter = 0.1;
  cable.weight_unit = 1;
  Check(c, cable.Validate(true, nullptr), "a set cable");
  what = static_cast<int>(c.Int(0, 3));
  if (what == 1) cable.area_physical = neg;
  if (what == 2) cable.diameter = bad;
  if (what == 3) cable.weight_unit = bad;
  std::list<ErrorMessage> k;
  Check(c, cable.Validate(c.Bool(), &k) == (what == 0) && k.empty() == (what == 0), "cable verdict");
  WeatherLoadCase unset;
  Check(c, !unset.Validate(true, nullptr), "an unset weather case");
}

}  // namespace

Property vp::MakeProperty() {
  return {"P08",
          {"cables 0.005 to 0.3 thick, ice up to 0.5"},
          {{"reference", "ice and wind present", 150000, 3000000, LawReference},
           {"ice-in-steps", "every case", 150000, 3000000, LawIceInSteps},
           {"validity", "an input out of range", 80000, 1000000, LawValidity}},
          {}};
}
