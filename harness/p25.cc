// P25: steady state currents and temperatures.
#include "history.h"
#include "thermal.h"
#include "models/thermalrating/steady_cable_current_solver.h"
#include "models/thermalrating/steady_cable_temperature_solver.h"

using namespace vp;
using namespace thermal;

namespace {

std::string Join(const std::list<ErrorMessage>& m) {
  std::string t;
  for (const auto& e : m) t += e.title + ": " + e.description + "; ";
  return t;
}
double GenTemperature(Case& c, const World& w) {
  double t = c.Chance(1, 8) ? c.Real(-40, 0, -5) + w.weather.temperature_air : c.Real(0, 250, 60) + w.weather.temperature_air;
  if (c.Chance(1, 10)) t = w.weather.temperature_air;
  t = std::max(-100., t);
  c.Note(Cat("cable at ", t));
  return t;
}
// error of the radiation terms, which cancel near the temperature of the air
double Cancel(const World& w) { return 1e-13 * 17.8 * w.base.diameter * std::pow((w.weather.temperature_air + 373) / 100, 4); }
void CheckState(Case& c, const World& w, double t, const CableHeatTransferState& s, double scale) {
  const double q = static_cast<double>(Convection(w, t)), r = static_cast<double>(Radiation(w, t));
  const double tol = 1e-10 * (std::fabs(q) + std::fabs(r) + static_cast<double>(Sun(w))) * scale + Cancel(w);
  CheckNear(c, "state: convection", s.heat_convection, -q, tol, 1e-10 * scale);
  CheckNear(c, "state: radiation", s.heat_radiation, -r, tol, 1e-10 * scale);
  CheckNear(c, "state: sun", s.heat_solar, static_cast<double>(Sun(w)), 0, 1e-12);
  CheckNear(c, "state: storage", s.heat_storage, 0, tol, 0);
  CheckNear(c, "state: resistance", s.heat_resistance, static_cast<double>(Needed(w, t)), tol, 1e-10 * scale);
}

void SteadyCurrent(Case& c) {
  std::unique_ptr<World> w = Gen(c);
  const double t = GenTemperature(c, *w);
  SteadyCableCurrentSolver s;
  s.set_cable(&w->cable);
  s.set_units(w->units());
  s.set_weather(&w->weather);
  s.set_temperature_cable(t);
  std::list<ErrorMessage> m;
  if (c.Bool()) Check(c, s.Validate(c.Bool(), &m) && m.empty(), "a solver with a solution isn't valid: " + Join(m));
  const R need = Needed(*w, t), i = thermal::Current(*w, t);
  c.NonTrivial(need > 0);
  const double got = s.Current();
  // the square of the current is what follows from the heat
  const double noise = static_cast<double>((1e-10 * (fabsl(Convection(*w, t)) + fabsl(Radiation(*w, t)) + Sun(*w)) + Cancel(*w)) / Resistance(*w, t));
  CheckNear(c, "square of the current", (got < 0 ? -1 : 1) * got * got, static_cast<double>(i * fabsl(i)), noise, 1e-9);
  CheckState(c, *w, t, s.StateHeatTransfer(), 1);
}

void SteadyTemperature(Case& c) {
  std::unique_ptr<World> w = Gen(c);
  double i;
  switch (c.Int(0, 3)) {
    case 0: i = static_cast<double>(c.Int(0, 40)) * 100; break;
    case 1: i = 0; break;
    case 2: i = static_cast<double>(thermal::Current(*w, w->weather.temperature_air + c.Real(1, 150, 20))); break;
    default: i = c.Real(0, 3000, 500);
  }
  if (i < 0) i = 0;
  c.Note(Cat("current ", i));
  const R want = thermal::Temperature(*w, i);
  // up to 500 C the steady states are unique and within the library's range
  if (want < -100 || want > 400) c.Reject();
  SteadyCableTemperatureSolver s;
  s.set_cable(&w->cable);
  s.set_units(w->units());
  s.set_weather(&w->weather);
  s.set_current(i);
  std::list<ErrorMessage> m;
  if (c.Bool()) Check(c, s.Validate(c.Bool(), &m) && m.empty(), "a solver with a solution isn't valid: " + Join(m));
  c.NonTrivial(want > w->weather.temperature_air + 1);
  const double t = s.TemperatureCable();
  CheckNear(c, "temperature of the cable", t, static_cast<double>(want), 0.35, 0);
  CheckState(c, *w, t, s.StateHeatTransfer(), 1);
  // and back
  SteadyCableCurrentSolver back;
  back.set_cable(&w->cable);
  back.set_units(w->units());
  back.set_weather(&w->weather);
  back.set_temperature_cable(t);
  // within what 0.35 degrees make
  const R lo = thermal::Current(*w, t - 0.35L), hi = thermal::Current(*w, t + 0.35L);
  Check(c, back.Current() >= static_cast<double>(lo) - 1e-6 && back.Current() <= static_cast<double>(hi) + 1e-6 && i >= static_cast<double>(lo) - 1e-6 && i <= static_cast<double>(hi) + 1e-6,
        Cat("the current of the temperature ", t, " is ", back.Current(), ", not ", i));
}

// more current makes a hotter cable, and a hotter cable carries more
void Order(Case& c) {
  std::unique_ptr<World> w = Gen(c);
  double t1 = w->weather.temperature_air + c.Real(5, 200, 50), t2 = t1 + c.Real(0.5, 50, 10);
  SteadyCableCurrentSolver s;
  s.set_cable(&w->cable);
  s.set_units(w->units());
  s.set_weather(&w->weather);
  s.set_temperature_cable(t1);
  const double i1 = s.Current();
  s.set_temperature_cable(t2);
  const double i2 = s.Current();
  // heat grows faster than the resistance, but with 0.6 % per degree close to the air's temperature it need not
  if (i1 >= 0 && Needed(*w, t2) / Needed(*w, t1) >= Resistance(*w, t2) / Resistance(*w, t1)) {
    c.NonTrivial();
    Check(c, i2 >= i1, Cat("a hotter cable carries less: ", i1, " at ", t1, ", ", i2, " at ", t2));
  }
  // more sun takes away from the rating
  World o(*w);
  o.weather.radiation_solar += c.Real(0, 50, 10);
  SteadyCableCurrentSolver u(s);
  u.set_weather(&o.weather);
  u.set_temperature_cable(t2);
  Check(c, u.Current() <= i2 + 1e-9, "more sun, more current");
  SteadyCableTemperatureSolver a, b;
  a.set_cable(&w->cable);
  a.set_units(w->units());
  a.set_weather(&w->weather);
  const double j = c.Real(0, 1500, 300), k = j + c.Real(10, 500, 50);
  c.Note(Cat("currents ", j, " ", k));
  a.set_current(j);
  b = a;
  b.set_current(k);
  const R want = thermal::Temperature(*w, k);
  if (want > 0 && want < 400) Check(c, b.TemperatureCable() >= a.TemperatureCable() - 0.7, "more current makes the cable colder");
}

void History(Case& c) {
  std::unique_ptr<World> g[2] = {Gen(c), Gen(c)};
  int ic = 0, iw = 0, iu = 0, edits = 0, asked = 0;
  SteadyCableCurrentSolver s;
  SteadyCableTemperatureSolver v;
  double t = 80, i = 500;
  s.set_cable(&g[0]->cable); v.set_cable(&g[0]->cable);
  s.set_units(g[0]->units()); v.set_units(g[0]->units());
  s.set_weather(&g[0]->weather); v.set_weather(&g[0]->weather);
  s.set_temperature_cable(t); v.set_current(i);
  int n = static_cast<int>(c.Int(1, 8));
  for (int j = 0; j < n; j++) {
    int k = static_cast<int>(c.Int(0, 9));
    c.Note(Cat("step ", k));
    if (k == 0) { ic = static_cast<int>(c.Int(0, 1)); s.set_cable(&g[ic]->cable); v.set_cable(&g[ic]->cable); }
    if (k == 1) { iw = static_cast<int>(c.Int(0, 1)); s.set_weather(&g[iw]->weather); v.set_weather(&g[iw]->weather); }
    if (k == 2) { iu = static_cast<int>(c.Int(0, 1)); s.set_units(g[iu]->units()); v.set_units(g[iu]->units()); }
    if (k == 3) { t = c.Real(60, 200, 100); s.set_temperature_cable(t); }
    if (k == 4) { i = c.Real(100, 1500, 300); v.set_current(i); }
    if (k == 5) { SteadyCableCurrentSolver a(s); s = a; SteadyCableTemperatureSolver b(v); v = b; }
    // the inputs were edited in place and set again
    if (k == 6) { g[iw]->weather.temperature_air = c.Real(-10, 40, 10); s.set_weather(&g[iw]->weather); v.set_weather(&g[iw]->weather); }
    if (k == 7) { GenResistances(c, g[ic].get()); s.set_cable(&g[ic]->cable); v.set_cable(&g[ic]->cable); }
    if (k < 8) edits += asked > 0;
    else { s.Current(); v.TemperatureCable(); if (c.Bool()) { s.Validate(); v.Validate(); } asked++; }
  }
  c.NonTrivial(edits > 0);
  World w(*g[ic]);
  w.weather = g[iw]->weather;
  w.metric = g[iu]->metric;
  const double noise = 1e-9 * static_cast<double>((fabsl(Convection(w, t)) + fabsl(Radiation(w, t)) + Sun(w)) / Resistance(w, t));
  const R want = thermal::Current(w, t);
  CheckNear(c, "square of the current after edits", s.Current() * std::fabs(s.Current()), static_cast<double>(want * fabsl(want)), noise, 1e-9);
  CheckState(c, w, t, s.StateHeatTransfer(), 1);
  SteadyCableTemperatureSolver f;
  f.set_current(i);
  f.set_weather(&w.weather);
  f.set_units(w.units());
  f.set_cable(&w.cable);
  const double x = v.TemperatureCable(), y = f.TemperatureCable();
  Check(c, x == y || std::fabs(x - y) < 1e-9 || (std::isnan(x) && std::isnan(y)), Cat("temperature after edits: ", x, ", a new solver: ", y));
}

void Incomplete(Case& c) {
  std::unique_ptr<World> w = Gen(c);
  int missing = static_cast<int>(c.Int(0, 5));
  c.Note(Cat("missing ", missing));
  c.NonTrivial(missing > 0);
  SteadyCableCurrentSolver s;
  SteadyCableTemperatureSolver v;
  if (missing == 4) w->base.resistances_ac.resize(static_cast<size_t>(c.Int(0, 1)));
  if (missing == 5) w->cable.set_cable_base(nullptr);
  if (missing != 0) { s.set_cable(&w->cable); v.set_cable(&w->cable); }
  if (missing != 1) { s.set_weather(&w->weather); v.set_weather(&w->weather); }
  if (missing != 2) { s.set_units(w->units()); v.set_units(w->units()); }
  if (missing != 3) { s.set_temperature_cable(100); v.set_current(c.Real(0, 1000, 100)); }
  std::list<ErrorMessage> m, o;
  Check(c, !s.Validate(c.Bool(), &m) && !s.Validate(c.Bool()), "an incomplete current solver is valid");
  Check(c, !m.empty(), "invalid without a message");
  Check(c, !v.Validate(c.Bool(), &o) && !v.Validate(c.Bool()), "an incomplete temperature solver is valid");
  Check(c, !o.empty(), "invalid without a message");
}

// the same, and with cables and weather that are changed in place
void CurrentSequences(Case& c) {
  typedef SteadyCableCurrentSolver T;
  Histories<T> h;
  Slots(c, &h);
  const double t = c.Real(-20, 250, 60), u = Related(c, t, -20, 250);
  h.Value("temperature", 2, [=](T& o, int v) { o.set_temperature_cable(v ? u : t); });
  h.Peek("current", [](const T& o) { o.Current(); });
  h.Peek("state", [](const T& o) { o.StateHeatTransfer(); });
  h.Peek("validate", [](const T& o) { std::list<ErrorMessage> m; o.Validate(true, &m); });
  h.Ask("verdict", [](const T& o) { return static_cast<double>(o.Validate()); });
  h.Ask("current", [](const T& o) { return static_cast<double>(o.Current()); });
  h.Ask("state", [](const T& o, std::vector<double>* r) {
    const CableHeatTransferState k = o.StateHeatTransfer();
    *r = {k.heat_convection, k.heat_radiation, k.heat_resistance, k.heat_solar, k.heat_storage};
  });
  h.Run(c);
}

void TemperatureSequences(Case& c) {
  typedef SteadyCableTemperatureSolver T;
  Histories<T> h;
  Slots(c, &h);
  const double t = c.Real(0, 2000, 500), u = Related(c, t, 0, 2000);
  h.Value("current", 2, [=](T& o, int v) { o.set_current(v ? u : t); });
  h.Peek("temperature", [](const T& o) { o.TemperatureCable(); });
  h.Peek("state", [](const T& o) { o.StateHeatTransfer(); });
  h.Peek("validate", [](const T& o) { std::list<ErrorMessage> m; o.Validate(true, &m); });
  h.Ask("verdict", [](const T& o) { return static_cast<double>(o.Validate()); });
  h.Ask("temperature", [](const T& o) { return static_cast<double>(o.TemperatureCable()); });
  h.Ask("state", [](const T& o, std::vector<double>* r) {
    const CableHeatTransferState k = o.StateHeatTransfer();
    *r = {k.heat_convection, k.heat_radiation, k.heat_resistance, k.heat_solar, k.heat_storage};
  });
  h.Run(c);
}

// weather and cables at the limits of what is accepted, and currents far
// above the rating: a temperature is either the steady one, or reported as
// not found
void Extremes(Case& c) {
  std::unique_ptr<World> w = Gen(c);
  const double u = w->metric ? kFoot : 1;
  if (c.Chance(1, 3)) w->weather.temperature_air = c.PickOf<double>({-100, 100, 0});
  if (c.Chance(1, 3)) w->weather.speed_wind = c.LogReal(1e-6, 1e4, 1) * u;
  if (c.Chance(1, 3)) w->weather.elevation = c.LogReal(1, 60000, 1000) * u;
  if (c.Chance(1, 3)) w->weather.radiation_solar = c.LogReal(1, 1e4, 100) / u / u;
  if (c.Chance(1, 3)) w->base.diameter = c.LogReal(1e-3, 3, 0.1) * u;
  if (c.Chance(1, 4)) {
    w->base.emissivity = 0;
    if (c.Bool()) w->weather.speed_wind = 0;
  }
  const bool jumps = c.Chance(1, 3);
  if (jumps) {
    // resistances that rise much faster or slower than those of metals: there
    // can be any number of steady states
    auto& list = w->base.resistances_ac;
    const double first = list.front().resistance;
    double r = first, t = list.front().temperature;
    for (auto& p : list) {
      r += first * c.Real(-0.0005, 0.01, 0.004) * (p.temperature - t);
      t = p.temperature;
      p.resistance = r;
    }
  }
  {
    const double t = c.Real(-100, 500, 60);
    c.Note(Cat("now ", Text(*w), " cable at ", t));
    SteadyCableCurrentSolver s;
    s.set_cable(&w->cable);
    s.set_units(w->units());
    s.set_weather(&w->weather);
    s.set_temperature_cable(t);
    if (c.Chance(1, 3)) s.Current();
    std::list<ErrorMessage> m;
    const bool ok = s.Validate(false, &m);
    Check(c, ok == m.empty(), "the verdict and the messages disagree");
    const double got = s.Current();
    const R r = Resistance(*w, t), want = thermal::Current(*w, t);
    if (ok) {
      const R noise = (1e-10L * (fabsl(Convection(*w, t)) + fabsl(Radiation(*w, t)) + Sun(*w)) + Cancel(*w)) / fabsl(r);
      Check(c, std::isfinite(got), "accepted without a current");
      if (r > w->base.resistances_ac.front().resistance * 1e-6) CheckNear(c, "square of the current", (got < 0 ? -1 : 1) * got * got, static_cast<double>(want * fabsl(want)), static_cast<double>(noise), 1e-9);
    } else if (m.size() == 1 && m.front().title == "STEADY CABLE CURRENT SOLVER") {
      Check(c, r <= 0, "there is a current, but it was rejected");
      Check(c, got == -999999, "a current that was rejected is returned");
    }
  }
  const double i = c.Chance(1, 12) ? 0 : c.LogReal(1e-3, 1e6, 1000);
  c.Note(Cat("now ", Text(*w), " current ", i));
  SteadyCableTemperatureSolver s;
  s.set_cable(&w->cable);
  s.set_units(w->units());
  s.set_weather(&w->weather);
  s.set_current(i);
  if (c.Chance(1, 3)) s.TemperatureCable();
  std::list<ErrorMessage> m;
  const bool ok = s.Validate(false, &m);
  Check(c, ok == m.empty(), "the verdict and the messages disagree");
  const double t = s.TemperatureCable();
  const R want = thermal::Temperature(*w, i);
  c.Note(Cat("valid ", ok, " t=", t, " expected ", static_cast<double>(want)));
  if (!ok) {
    if (m.size() == 1 && m.front().title == "STEADY CABLE TEMPERATURE SOLVER") {
      Check(c, t == -999999, "a temperature that was rejected is returned");
      // within the range of the current solver there's no reason to give up
      Check(c, jumps || want < 0 || want > 500, "a steady temperature wasn't found");
    }
    return;
  }
  if (!std::isfinite(t)) c.Fail("accepted without a temperature");
  // hotter than this there's no cable left
  if (t > 3000 || want > 3000 || want < 0) return;
  c.NonTrivial();
  auto f = [&](R x) { return Needed(*w, x) - R(i) * i * Resistance(*w, x); };
  const R noise = 1e-9L * (fabsl(Convection(*w, t)) + fabsl(Radiation(*w, t)) + Sun(*w) + R(i) * i * fabsl(Resistance(*w, t))) + Cancel(*w);
  const R near = (jumps ? 2 : 0.35L) + 1e-5L * fabsl(t), a = f(t - near), b = f(t + near);
  Check(c, (a <= noise && b >= -noise) || (a >= -noise && b <= noise) || fabsl(f(t)) <= noise, Cat("not steady: ", static_cast<double>(a), " W below, ", static_cast<double>(b), " W above"));
}

}  // namespace

Property vp::MakeProperty() {
  Property p;
  p.id = "P25";
  p.assumptions = {"steady states up to 400 C"};
  p.laws = {{"current", "heat from a current is needed to keep the temperature", 20000, 300000, SteadyCurrent},
            {"temperature", "the steady temperature is over 1 degree above the air's", 10000, 200000, SteadyTemperature},
            {"order", "comparable steady states", 10000, 200000, Order},
            {"history", "an input changed, or the object was copied, after a query", 10000, 200000, History},
            {"incomplete", "something other than the cable is missing", 2000, 20000, Incomplete},
            {"current sequences", "an input changed, or the solver was copied, after a query", 8000, 150000, CurrentSequences},
            {"temperature sequences", "an input changed, or the solver was copied, after a query", 5000, 100000, TemperatureSequences},
            {"extremes", "the solver accepts the case", 10000, 200000, Extremes}};
  return p;
}
