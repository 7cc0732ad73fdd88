// P26: temperature of a cable after a step of the current.
#include "history.h"
#include "thermal.h"
#include "models/thermalrating/steady_cable_temperature_solver.h"
#include "models/thermalrating/transient_cable_temperature_solver.h"

using namespace vp;
using namespace thermal;

namespace {

R Heat(const World& w, R t, R current) { return current * current * Resistance(w, t) - Needed(w, t); }
R Capacity(const World& w) { return R(w.base.component_core.capacity_heat) + w.base.component_shell.capacity_heat; }

struct Inputs {
  std::unique_ptr<World> w;
  double steady, step;
  int duration;
};
double GenCurrent(Case& c, const World& w) {
  double i;
  if (c.Chance(1, 6)) i = 0;
  else if (c.Bool()) i = static_cast<double>(c.Int(1, 20)) * 100;
  else i = static_cast<double>(thermal::Current(w, w.weather.temperature_air + c.Real(1, 150, 20)));
  return std::max(0., i);
}
Inputs GenInputs(Case& c) {
  Inputs g;
  g.w = Gen(c);
  g.steady = GenCurrent(c, *g.w);
  g.step = c.Chance(1, 8) ? g.steady : GenCurrent(c, *g.w);
  g.duration = static_cast<int>(c.Bool() ? c.Int(0, 60) : c.Chance(1, 12) ? c.Int(3000, 20000) : c.Int(0, 2400));
  c.Note(Cat("from ", g.steady, " to ", g.step, " for ", g.duration));
  for (double i : {g.steady, g.step}) {
    const R t = thermal::Temperature(*g.w, i);
    if (t < -100 || t > 400) c.Reject();
  }
  return g;
}
void Set(TransientCableTemperatureSolver* s, const Inputs& g) {
  s->set_cable(&g.w->cable);
  s->set_current_steady(g.steady);
  s->set_current_step(g.step);
  s->set_duration(g.duration);
  s->set_units(g.w->units());
  s->set_weather(&g.w->weather);
}

void Steps(Case& c) {
  Inputs g = GenInputs(c);
  const World& w = *g.w;
  TransientCableTemperatureSolver s;
  Set(&s, g);
  std::list<ErrorMessage> m;
  if (c.Bool()) Check(c, s.Validate(c.Bool(), &m) && m.empty(), "a transient solver with a solution isn't valid");
  const std::list<TemperaturePoint>* p = s.PointsTemperature();
  if (p == nullptr) c.Fail("no points");
  if (p->size() != static_cast<size_t>(g.duration) + 1) c.Fail(Cat(p->size(), " points for ", g.duration, " s"));
  // starts in the steady state
  const R start = thermal::Temperature(w, g.steady), end = thermal::Temperature(w, g.step);
  CheckNear(c, "temperature at the start", p->front().temperature, static_cast<double>(start), 0.35, 0);
  c.NonTrivial(g.duration > 1 && fabsl(start - end) > 1);
  int time = 0;
  const TemperaturePoint* prev = nullptr;
  R low = std::min<R>(p->front().temperature, end), high = std::max<R>(p->front().temperature, end);
  bool damped = true;
  for (const TemperaturePoint& q : *p) {
    if (q.time != time) c.Fail(Cat("time ", q.time, " of point ", time));
    if (prev != nullptr) {
      const R t = prev->temperature;
      // the heat that isn't given away warms the cable
      CheckNear(c, "heat stored in a second", static_cast<double>((R(q.temperature) - t) * Capacity(w)), static_cast<double>(Heat(w, t, g.step)), 1e-7, 1e-9);
      // towards the steady state of the new current, and not past it
      const R slope = (Heat(w, t + 1, g.step) - Heat(w, t - 1, g.step)) / 2;
      damped = damped && -slope < 0.5L * Capacity(w) && slope < 0;
      if (damped) Check(c, q.temperature >= low - 0.02L && q.temperature <= high + 0.02L, Cat("at ", time, " s the cable is at ", q.temperature, ", outside ", low, " to ", high));
    }
    prev = &q;
    time++;
  }
}

// the second half of a longer run, and shorter runs
void Prefix(Case& c) {
  Inputs g = GenInputs(c);
  TransientCableTemperatureSolver a, b;
  Set(&a, g);
  Set(&b, g);
  const int longer = g.duration + static_cast<int>(c.Int(1, 200));
  b.set_duration(longer);
  c.NonTrivial(g.duration > 0);
  const std::list<TemperaturePoint>*p = a.PointsTemperature(), *q = b.PointsTemperature();
  if (p == nullptr || q == nullptr) c.Fail("no points");
  auto j = q->begin();
  for (const auto& x : *p) {
    CheckNear(c, "temperature with a longer duration", j->temperature, x.temperature, 1e-9, 1e-12);
    ++j;
  }
  // no step, no change
  Inputs still;
  still.w = std::move(g.w);
  still.steady = still.step = g.steady;
  still.duration = std::min(g.duration, 600);
  TransientCableTemperatureSolver d;
  Set(&d, still);
  const std::list<TemperaturePoint>* r = d.PointsTemperature();
  if (r == nullptr) c.Fail("no points");
  const R t = thermal::Temperature(*still.w, still.steady), slope = Heat(*still.w, t + 0.5L, still.steady) - Heat(*still.w, t - 0.5L, still.steady);
  if (slope < 0 && -slope < 0.5L * Capacity(*still.w))
    for (const auto& x : *r) CheckNear(c, "temperature without a step", x.temperature, static_cast<double>(t), 0.4, 0);
}

void History(Case& c) {
  Inputs g[2] = {GenInputs(c), GenInputs(c)};
  for (auto& x : g) x.duration %= 100;
  TransientCableTemperatureSolver s;
  Set(&s, g[0]);
  int ic = 0, iw = 0, iu = 0, asked = 0, edits = 0;
  double steady = g[0].steady, step = g[0].step;
  int duration = g[0].duration;
  int n = static_cast<int>(c.Int(1, 7));
  for (int i = 0; i < n; i++) {
    int k = static_cast<int>(c.Int(0, 9));
    c.Note(Cat("step ", k));
    const int pick = static_cast<int>(c.Int(0, 1));
    if (k == 0) s.set_cable(&g[ic = pick].w->cable);
    if (k == 1) s.set_weather(&g[iw = pick].w->weather);
    if (k == 2) s.set_units(g[iu = pick].w->units());
    if (k == 3) s.set_current_steady(steady = g[pick].steady);
    if (k == 4) s.set_current_step(step = g[pick].step);
    if (k == 5) s.set_duration(duration = g[pick].duration);
    if (k == 6) { TransientCableTemperatureSolver t(s); s = t; }
    if (k < 7) edits += asked > 0;
    else { s.PointsTemperature(); if (c.Bool()) s.Validate(); asked++; }
  }
  c.NonTrivial(edits > 0);
  TransientCableTemperatureSolver f;
  f.set_duration(duration);
  f.set_current_step(step);
  f.set_current_steady(steady);
  f.set_weather(&g[iw].w->weather);
  f.set_units(g[iu].w->units());
  f.set_cable(&g[ic].w->cable);
  const std::list<TemperaturePoint>*p = s.PointsTemperature(), *q = f.PointsTemperature();
  if ((p == nullptr) != (q == nullptr)) c.Fail("points after edits, and of a new solver: one has none");
  if (p == nullptr) return;
  if (p->size() != q->size()) c.Fail(Cat(p->size(), " points after edits, ", q->size(), " of a new solver"));
  auto j = q->begin();
  for (const auto& x : *p) {
    if (!(std::isnan(x.temperature) && std::isnan(j->temperature))) CheckNear(c, "temperature after edits", x.temperature, j->temperature, 1e-9, 1e-12);
    Check(c, x.time == j->time, "time after edits");
    ++j;
  }
}

void Incomplete(Case& c) {
  Inputs g = GenInputs(c);
  g.duration %= 50;
  int missing = static_cast<int>(c.Int(0, 7));
  c.Note(Cat("missing ", missing));
  c.NonTrivial(missing > 0);
  TransientCableTemperatureSolver s;
  if (missing == 6) g.w->base.resistances_ac.resize(static_cast<size_t>(c.Int(0, 1)));
  if (missing == 7) g.w->cable.set_cable_base(nullptr);
  if (missing != 0) s.set_cable(&g.w->cable);
  if (missing != 1) s.set_weather(&g.w->weather);
  if (missing != 2) s.set_units(g.w->units());
  if (missing != 3) s.set_current_steady(g.steady);
  if (missing != 4) s.set_current_step(g.step);
  if (missing != 5) s.set_duration(g.duration);
  std::list<ErrorMessage> m;
  Check(c, !s.Validate(c.Bool(), &m) && !s.Validate(c.Bool()), "an incomplete transient solver is valid");
  Check(c, !m.empty(), "invalid without a message");
}

// a steady state that can't be found makes no points
void Unsolved(Case& c) {
  std::unique_ptr<World> w = Gen(c);
  const double i = c.Real(2000, 50000, 5000);
  if (thermal::Temperature(*w, i) > -1e8L) c.Reject();
  c.NonTrivial();
  SteadyCableTemperatureSolver v;
  v.set_cable(&w->cable);
  v.set_units(w->units());
  v.set_weather(&w->weather);
  v.set_current(i);
  TransientCableTemperatureSolver s;
  s.set_cable(&w->cable);
  s.set_units(w->units());
  s.set_weather(&w->weather);
  s.set_current_steady(i);
  s.set_current_step(100);
  s.set_duration(5);
  if (v.Validate()) c.Reject();
  c.Note(Cat("current ", i));
  std::list<ErrorMessage> m;
  Check(c, !s.Validate(c.Bool(), &m), "a transient solver that has no steady state is valid");
  Check(c, !m.empty(), "invalid without a message");
  const std::list<TemperaturePoint>* p = s.PointsTemperature();
  Check(c, p == nullptr, "points without a steady state to start from");
}

// the same, and with cables and weather that are changed in place
void Sequences(Case& c) {
  typedef TransientCableTemperatureSolver T;
  Histories<T> h;
  Slots(c, &h);
  const double t = c.Real(0, 1500, 500), u = Related(c, t, 0, 2000);
  const double s = c.Bool() ? t : c.Real(0, 1500, 800), r = Related(c, s, 0, 2000);
  const int d[3] = {static_cast<int>(c.Int(0, 60)), static_cast<int>(c.Int(0, 60)), static_cast<int>(c.Int(61, 120))};
  h.Value("steady current", 2, [=](T& o, int v) { o.set_current_steady(v ? u : t); });
  h.Value("step current", 2, [=](T& o, int v) { o.set_current_step(v ? r : s); });
  h.Value("duration", 3, [=](T& o, int v) { o.set_duration(d[v]); });
  h.Peek("points", [](const T& o) { o.PointsTemperature(); });
  h.Peek("validate", [](const T& o) { std::list<ErrorMessage> m; o.Validate(true, &m); });
  h.Ask("verdict", [](const T& o) { return static_cast<double>(o.Validate()); });
  h.Ask("points", [](const T& o, std::vector<double>* r) {
    const std::list<TemperaturePoint>* p = o.PointsTemperature();
    r->push_back(p == nullptr);
    if (p == nullptr) return;
    for (const auto& x : *p) {
      r->push_back(x.time);
      r->push_back(x.temperature);
    }
  });
  h.Run(c);
}

// faults, and weather at the limits of what is accepted: the points either
// follow from the heat that is stored, or are reported as not found
void Extremes(Case& c) {
  std::unique_ptr<World> w = Gen(c);
  const double u = w->metric ? kFoot : 1;
  if (c.Chance(1, 3)) w->weather.temperature_air = c.PickOf<double>({-100, 100, 0});
  if (c.Chance(1, 3)) w->weather.speed_wind = c.LogReal(1e-6, 1e4, 1) * u;
  if (c.Chance(1, 3)) w->weather.elevation = c.LogReal(1, 60000, 1000) * u;
  if (c.Chance(1, 3)) w->weather.radiation_solar = c.LogReal(1, 1e4, 100) / u / u;
  if (c.Chance(1, 4)) w->base.component_core.capacity_heat = w->base.component_shell.capacity_heat = c.Chance(1, 2) ? 0 : c.LogReal(0.01, 10, 1) / u;
  const double steady = c.Chance(1, 12) ? 0 : c.LogReal(1, 1e5, 500), step = c.Chance(1, 12) ? 0 : c.LogReal(1, 1e5, 5000);
  const int duration = static_cast<int>(c.Chance(1, 4) ? c.Int(0, 600) : c.Int(0, 10));
  c.Note(Cat("now ", Text(*w), " from ", steady, " to ", step, " for ", duration));
  TransientCableTemperatureSolver s;
  s.set_cable(&w->cable);
  s.set_units(w->units());
  s.set_weather(&w->weather);
  s.set_current_steady(steady);
  s.set_current_step(step);
  s.set_duration(duration);
  if (c.Chance(1, 3)) s.PointsTemperature();
  std::list<ErrorMessage> m;
  const bool ok = s.Validate(false, &m);
  Check(c, ok == m.empty(), "the verdict and the messages disagree");
  const std::list<TemperaturePoint>* p = s.PointsTemperature();
  if (!ok) {
    if (m.size() == 1 && m.front().title == "TRANSIENT CABLE TEMPERATURE SOLVER") Check(c, p == nullptr, "points that were rejected are returned");
    return;
  }
  if (p == nullptr || p->size() != static_cast<size_t>(duration) + 1) c.Fail("accepted without its points");
  c.NonTrivial(duration > 0);
  const TemperaturePoint* prev = nullptr;
  int time = 0;
  for (const TemperaturePoint& q : *p) {
    if (q.time != time) c.Fail(Cat("time ", q.time, " of point ", time));
    if (!std::isfinite(q.temperature)) c.Fail(Cat("accepted with a temperature of ", q.temperature, " after ", time, " s"));
    if (prev != nullptr && prev->temperature > -200 && prev->temperature < 3000) {
      const R t = prev->temperature, h = Heat(*w, t, step);
      const R noise = 1e-9L * (fabsl(Convection(*w, t)) + fabsl(Radiation(*w, t)) + Sun(*w) + R(step) * step * fabsl(Resistance(*w, t))) + 1e-12L * fabsl(t) * Capacity(*w) + 1e-7L;
      CheckNear(c, "heat stored in a second", static_cast<double>((R(q.temperature) - t) * Capacity(*w)), static_cast<double>(h), static_cast<double>(noise), 1e-9);
    }
    prev = &q;
    time++;
  }
}

}  // namespace

Property vp::MakeProperty() {
  Property p;
  p.id = "P26";
  p.assumptions = {"steady states up to 400 C", "cables with a heat capacity"};
  p.laws = {{"steps", "two or more seconds, and a step that changes the steady temperature by over 1 degree", 3000, 60000, Steps},
            {"prefix", "a duration above zero", 2000, 40000, Prefix},
            {"history", "an input changed, or the object was copied, after a query", 5000, 100000, History},
            {"incomplete", "something other than the cable is missing", 2000, 20000, Incomplete},
            {"unsolved", "no steady state exists", 2000, 20000, Unsolved},
            {"sequences", "an input changed, or the solver was copied, after a query", 2000, 40000, Sequences},
            {"extremes", "the solver accepts the case, and the duration is above zero", 4000, 80000, Extremes}};
  return p;
}
