// P24: heat gains and losses of a cable.
#include "history.h"
#include "thermal.h"
#include "models/thermalrating/cable_heat_transfer_solver.h"

using namespace vp;
using namespace thermal;

namespace {

CableHeatTransferSolver Solver(const World& w) {
  CableHeatTransferSolver s;
  s.set_cable(&w.cable);
  s.set_units(w.units());
  s.set_weather(&w.weather);
  return s;
}
double GenTemperature(Case& c, const World& w) {
  double t = c.Chance(1, 5) ? c.Real(-60, 0, -10) + w.weather.temperature_air : c.Chance(1, 10) ? w.weather.temperature_air + (c.Bool() ? 0 : c.LogReal(1e-6, 10, 1) * (c.Bool() ? 1 : -1)) : c.Real(0, 250, 60) + w.weather.temperature_air;
  c.Note(Cat("cable at ", t));
  return t;
}

void Resistances(Case& c) {
  std::unique_ptr<World> w = Gen(c);
  std::vector<Cable::ResistancePoint> p(w->base.resistances_ac.begin(), w->base.resistances_ac.end());
  double t;
  if (c.Chance(1, 4)) t = p[static_cast<size_t>(c.Int(0, static_cast<int64_t>(p.size()) - 1))].temperature;
  else t = c.Real(p.front().temperature - 60, p.back().temperature + 120, p.front().temperature);
  c.Note(Cat("at ", t));
  c.NonTrivial(p.size() > 2);
  CheckNear(c, "resistance", w->cable.Resistance(t), static_cast<double>(Resistance(*w, t)), 0, 1e-10);
  // the points themselves are met
  for (const auto& q : p) CheckNear(c, "resistance at a point", w->cable.Resistance(q.temperature), q.resistance, 0, 1e-12);
}

void Terms(Case& c) {
  std::unique_ptr<World> w = Gen(c);
  // weather that is rare, but that can be given
  if (c.Chance(1, 8)) w->weather.temperature_air = c.Real(-100, 100, 100);
  if (c.Chance(1, 8)) w->weather.speed_wind = c.LogReal(1e-4, 1000, 100);
  if (c.Chance(1, 8)) w->weather.elevation = c.LogReal(1, 40000, 20000);
  if (c.Chance(1, 8)) w->weather.angle_wind = c.Bool() ? c.LogReal(1e-3, 90, 1) : 90 - c.LogReal(1e-3, 90, 1);
  if (c.Chance(1, 8)) w->weather.radiation_solar = c.LogReal(1e-3, 1e4, 1);
  CableHeatTransferSolver s = Solver(*w);
  std::list<ErrorMessage> m;
  if (c.Bool()) Check(c, s.Validate(c.Bool(), &m) && m.empty(), "a heat transfer solver isn't valid");
  const double t = c.Chance(1, 10) ? c.Real(-150, 1000, 300) : GenTemperature(c, *w);
  c.NonTrivial(w->weather.speed_wind > 0 && t != w->weather.temperature_air);
  // heat removed is negative
  const double scale = static_cast<double>(fabsl(Convection(*w, t)));
  CheckNear(c, "convection", s.HeatConvection(t), static_cast<double>(-Convection(*w, t)), 1e-12 * scale, 1e-10);
  CheckNear(c, "radiation", s.HeatRadiation(t), static_cast<double>(-Radiation(*w, t)), 1e-12, 1e-10);
  CheckNear(c, "sun", s.HeatSolar(), static_cast<double>(Sun(*w)), 0, 1e-12);
  const double i = c.Chance(1, 8) ? c.LogReal(1e-6, 1e6, 1) : c.Real(0, 3000, 1000);
  CheckNear(c, "resistance", s.HeatResistance(t, i), static_cast<double>(Resistance(*w, t) * i * i), 0, 1e-10);
  const double in = c.Real(-100, 100, 10), out = c.Real(-100, 100, -5);
  CheckNear(c, "stored", s.HeatStored(in, out), in + out, 1e-12, 1e-12);
}

// what has to hold whatever the formulas are
void Physics(Case& c) {
  std::unique_ptr<World> w = Gen(c);
  CableHeatTransferSolver s = Solver(*w);
  const double ta = w->weather.temperature_air;
  double a = GenTemperature(c, *w), b = GenTemperature(c, *w);
  if (b < a) std::swap(a, b);
  c.NonTrivial(a != b);
  const double eps = 1e-9;
  // the hotter cable gives off more
  Check(c, s.HeatConvection(b) <= s.HeatConvection(a) + eps, Cat("a hotter cable loses less heat by convection: ", s.HeatConvection(a), " at ", a, ", ", s.HeatConvection(b), " at ", b));
  Check(c, s.HeatRadiation(b) <= s.HeatRadiation(a) + eps, "a hotter cable radiates less");
  // no exchange with air of the same temperature, and heat flows from hot to cold
  CheckNear(c, "convection at air temperature", s.HeatConvection(ta), 0, eps, 0);
  CheckNear(c, "radiation at air temperature", s.HeatRadiation(ta), 0, eps, 0);
  for (double t : {a, b}) {
    if (t > ta) Check(c, s.HeatConvection(t) <= 0 && s.HeatRadiation(t) <= 0, "a cable hotter than the air gains heat");
    if (t < ta) Check(c, s.HeatConvection(t) >= 0 && s.HeatRadiation(t) >= 0, "a cable colder than the air loses heat");
  }
  // more wind, and wind across the cable, cool more
  World o(*w);
  o.weather.speed_wind += c.Real(0, 20, 1);
  o.weather.angle_wind = std::max(o.weather.angle_wind, 30.);
  if (w->weather.angle_wind >= 30) o.weather.angle_wind = w->weather.angle_wind;
  CableHeatTransferSolver more = Solver(o);
  if (w->weather.angle_wind >= 30 || w->weather.angle_wind <= 5)
    Check(c, std::fabs(more.HeatConvection(b)) >= std::fabs(s.HeatConvection(b)) - eps, "more wind cools less");
  // the same cable in the other units, within the rounding of the constants
  World u(*w);
  u.metric = !w->metric;
  const double k = w->metric ? kFoot : 1 / kFoot;  // multiplies a quantity per unit of length
  u.base.diameter /= k;
  u.weather.speed_wind /= k;
  u.weather.elevation /= k;
  u.weather.radiation_solar *= k * k;
  CableHeatTransferSolver other = Solver(u);
  for (double t : {a, b}) {
    const double x = s.HeatConvection(t) * k, y = other.HeatConvection(t);
    Check(c, std::fabs(x - y) <= 0.02 * std::fabs(y) + 1e-6, Cat("convection in both unit systems: ", x, " and ", y));
    const double p = s.HeatRadiation(t) * k, q = other.HeatRadiation(t);
    Check(c, std::fabs(p - q) <= 0.002 * std::fabs(q) + 1e-6, Cat("radiation in both unit systems: ", p, " and ", q));
    CheckNear(c, "sun in both unit systems", s.HeatSolar() * k, other.HeatSolar(), 1e-9, 1e-9);
  }
}

// answers follow the current inputs
void History(Case& c) {
  std::unique_ptr<World> g[2] = {Gen(c), Gen(c)};
  int ic = 0, iw = 0, iu = 0, edits = 0;
  CableHeatTransferSolver s = Solver(*g[0]);
  int n = static_cast<int>(c.Int(1, 6));
  for (int i = 0; i < n; i++) {
    int k = static_cast<int>(c.Int(0, 4));
    if (k == 0) { ic = static_cast<int>(c.Int(0, 1)); s.set_cable(&g[ic]->cable); edits++; }
    if (k == 1) { iw = static_cast<int>(c.Int(0, 1)); s.set_weather(&g[iw]->weather); edits++; }
    if (k == 2) { iu = static_cast<int>(c.Int(0, 1)); s.set_units(g[iu]->units()); edits++; }
    if (k == 3) { CableHeatTransferSolver t(s); s = t; edits++; }
    if (k == 4) s.HeatConvection(50);
  }
  c.NonTrivial(edits > 1);
  World w(*g[ic]);
  w.weather = g[iw]->weather;
  w.metric = g[iu]->metric;
  const double t = GenTemperature(c, w);
  CheckNear(c, "convection after edits", s.HeatConvection(t), static_cast<double>(-Convection(w, t)), 1e-12, 1e-10);
  CheckNear(c, "radiation after edits", s.HeatRadiation(t), static_cast<double>(-Radiation(w, t)), 1e-12, 1e-10);
  CheckNear(c, "sun after edits", s.HeatSolar(), static_cast<double>(Sun(w)), 0, 1e-12);
  CheckNear(c, "resistance after edits", s.HeatResistance(t, 100), static_cast<double>(Resistance(w, t) * 10000), 0, 1e-10);
}

// the same, and with cables and weather that are changed in place
void Sequences(Case& c) {
  typedef CableHeatTransferSolver T;
  Histories<T> h;
  Slots(c, &h);
  const double t = c.Real(-40, 250, 60), i = c.Real(0, 2000, 500);
  h.Peek("convection", [=](const T& o) { o.HeatConvection(t); });
  h.Peek("validate", [](const T& o) { std::list<ErrorMessage> m; o.Validate(true, &m); });
  h.Ask("convection", [=](const T& o) { return static_cast<double>(o.HeatConvection(t)); });
  h.Ask("radiation", [=](const T& o) { return static_cast<double>(o.HeatRadiation(t)); });
  h.Ask("resistance", [=](const T& o) { return static_cast<double>(o.HeatResistance(t, i)); });
  h.Ask("solar", [=](const T& o) { return static_cast<double>(o.HeatSolar()); });
  h.Ask("verdict", [=](const T& o) { return static_cast<double>(o.Validate()); });
  h.Run(c);
}

}  // namespace

Property vp::MakeProperty() {
  Property p;
  p.id = "P24";
  p.assumptions = {"air and cable within the range of the fitted formulas (film temperature above -110 C, elevation up to 13000 ft)"};
  p.laws = {{"resistance", "three or more resistance points", 20000, 300000, Resistances},
            {"terms", "with wind, and a cable that isn't at the temperature of the air", 40000, 600000, Terms},
            {"physics", "two different cable temperatures", 20000, 300000, Physics},
            {"history", "two or more inputs set again", 20000, 300000, History},
            {"sequences", "an input changed, or the solver was copied, after a query", 10000, 200000, Sequences}};
  return p;
}
