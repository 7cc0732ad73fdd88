// P27: position of the sun and its radiation on a cable.
#include <memory>

#include "history.h"
#include "model.h"
#include "models/thermalrating/solar_radiation_solver.h"

using namespace vp;
using namespace model;

namespace {

typedef long double R;
const R kRad = acosl(-1.0L) / 180;

struct Inputs {
  double azimuth, elevation, latitude;
  int day, hour;
  bool clear, metric;
};
R Declination(int day) { return 23.46L * sinl((284 + day) / 365.0L * 360 * kRad); }
Inputs Gen(Case& c) {
  Inputs g;
  g.metric = c.Bool();
  g.clear = c.Bool();
  g.day = static_cast<int>(c.Bool() ? c.Int(1, 365) : c.PickOf<int>({172, 81, 355, 1, 365, 264}));
  g.hour = static_cast<int>(c.Chance(1, 4) ? 12 : c.Int(0, 23));
  g.azimuth = c.Bool() ? static_cast<double>(c.Int(0, 8)) * 45 : c.Real(0, 360, 90);
  g.elevation = (c.Bool() ? 0 : c.Real(0, 13000, 1000)) * (g.metric ? 0.3048 : 1);
  switch (c.Int(0, 5)) {
    case 0: g.latitude = c.Real(20, 50, 30); break;
    case 1: g.latitude = c.PickOf<double>({0, 90, -90, 30, -30, 23.46}); break;
    // the sun overhead at noon
    case 2: g.latitude = static_cast<double>(Declination(g.day)) + (c.Bool() ? 0 : c.Real(-1e-6, 1e-6, 0)); break;
    default: g.latitude = c.Real(-90, 90, 30);
  }
  c.Note(Cat(g.metric ? "metric " : "imperial ", g.clear ? "clear" : "industrial", " day ", g.day, " hour ", g.hour, " latitude ", g.latitude, " elevation ", g.elevation, " cable ", g.azimuth));
  return g;
}
void Set(SolarRadiationSolver* s, const Inputs& g) {
  s->set_azimuth_cable(g.azimuth);
  s->set_day(g.day);
  s->set_elevation(g.elevation);
  s->set_hour(g.hour);
  s->set_latitude(g.latitude);
  s->set_quality_atmosphere(g.clear ? AtmosphereQualityType::kClear : AtmosphereQualityType::kIndustrial);
  s->set_units(g.metric ? units::UnitSystem::kMetric : units::UnitSystem::kImperial);
}

// direction of the sun: east, north and up
struct Sun {
  R e, n, u;
  R Altitude() const { return atan2l(u, hypotl(e, n)) / kRad; }
  R Azimuth() const { R a = atan2l(e, n) / kRad; return a < 0 ? a + 360 : a; }
  // sine of the angle between the sun and the cable
  R Incidence(R azimuth) const {
    const R ce = sinl(azimuth * kRad), cn = cosl(azimuth * kRad);
    return sqrtl(u * u + (e * cn - n * ce) * (e * cn - n * ce));
  }
};
Sun Position(const Inputs& g) {
  const R d = Declination(g.day) * kRad, h = (g.hour - 12) * 15 * kRad, l = g.latitude * kRad;
  Sun s;
  s.e = -cosl(d) * sinl(h);
  s.n = cosl(l) * sinl(d) - sinl(l) * cosl(d) * cosl(h);
  s.u = sinl(l) * sinl(d) + cosl(l) * cosl(d) * cosl(h);
  return s;
}
R SeaLevel(const Inputs& g, R h) {
  static const R k[2][2][7] = {
      {{-3.9241L, 5.9276L, -0.17856L, 3.223e-3L, -3.3549e-5L, 1.8053e-7L, -3.7868e-10L},
       {4.9408L, 1.3202L, 0.061444L, -2.9411e-3L, 5.07752e-5L, -4.03627e-7L, 1.22967e-9L}},
      {{-42.2391L, 63.8044L, -1.9220L, 3.46921e-2L, -3.61118e-4L, 1.94318e-6L, -4.07608e-9L},
       {53.1821L, 14.2110L, 0.66138L, -3.1658e-2L, 5.4654e-4L, -4.3446e-6L, 1.3236e-8L}}};
  const R* a = k[g.metric][!g.clear];
  R y = 0;
  for (int i = 6; i >= 0; i--) y = y * h + a[i];
  return y;
}
R Elevation(const Inputs& g) {
  const R h = g.elevation;
  return g.metric ? 1 + 1.148e-4L * h - 1.108e-8L * h * h : 1 + 3.5e-5L * h - 1e-9L * h * h;
}
double Band(const Inputs& g) { return (g.metric ? 64 : 6) * 1e-6; }  // radiation that 1e-6 degrees make

void CheckAll(Case& c, const Inputs& g, const SolarRadiationSolver& s, const std::string& when) {
  const Sun k = Position(g);
  const R alt = k.Altitude();
  // asin near 90 degrees has half the digits
  CheckNear(c, ("altitude of the sun" + when).c_str(), s.AltitudeSun(), static_cast<double>(alt), fabsl(alt) > 89.9L ? 3e-6 : 1e-9, 0);
  const double az = s.AzimuthSun();
  Check(c, az >= 0 && az <= 360, Cat("azimuth of the sun ", az, when));
  if (hypotl(k.e, k.n) > 1e-6L) {
    const double diff = AngleDiff(az, static_cast<double>(k.Azimuth()));
    Check(c, std::fabs(diff) <= 1e-8 / static_cast<double>(hypotl(k.e, k.n)), Cat("azimuth of the sun", when, ": got ", az, ", expected ", static_cast<double>(k.Azimuth())));
  }
  const double q = s.Radiation();
  const R want = alt <= 0 ? 0 : std::max<R>(0, SeaLevel(g, alt) * Elevation(g) * k.Incidence(g.azimuth));
  if (fabsl(alt) > 1e-6L) CheckNear(c, ("radiation" + when).c_str(), q, static_cast<double>(want), 10 * Band(g), 1e-8);
  else Check(c, q >= 0, Cat("radiation ", q, when));
}

void Formulas(Case& c) {
  const Inputs g = Gen(c);
  SolarRadiationSolver s;
  Set(&s, g);
  std::list<ErrorMessage> m;
  if (c.Bool()) Check(c, s.Validate(c.Bool(), &m) && m.empty(), "a solar radiation solver isn't valid");
  c.NonTrivial(Position(g).Altitude() > 0);
  CheckAll(c, g, s, "");
}

void Symmetry(Case& c) {
  const Inputs g = Gen(c);
  Inputs back = g, pm = g, units = g;
  back.azimuth = g.azimuth < 180 ? g.azimuth + 180 : g.azimuth - 180;
  pm.hour = (24 - g.hour) % 24;
  units.metric = !g.metric;
  units.elevation *= g.metric ? 1 / 0.3048 : 0.3048;
  SolarRadiationSolver a, b, d, e;
  Set(&a, g);
  Set(&b, back);
  Set(&d, pm);
  Set(&e, units);
  const double q = a.Radiation();
  c.NonTrivial(q > 0);
  Check(c, q >= 0, Cat("radiation is ", q));
  if (a.AltitudeSun() < 0) Check(c, q == 0, Cat("radiation ", q, " from a sun below the horizon"));
  Check(c, q < (g.metric ? 1500 : 140) * static_cast<double>(Elevation(g)), Cat("radiation ", q, " is more than the sun has"));
  CheckNear(c, "radiation on the cable seen from the other end", b.Radiation(), q, 20 * Band(g), 1e-9);
  CheckNear(c, "altitude as long after noon as before", d.AltitudeSun(), a.AltitudeSun(), std::fabs(a.AltitudeSun()) > 89.9 ? 6e-6 : 2e-9, 0);
  const Sun k = Position(g);
  if (hypotl(k.e, k.n) > 1e-5L) Check(c, std::fabs(AngleDiff(d.AzimuthSun(), -a.AzimuthSun())) < 1e-3, "azimuth as long after noon as before");
  if (a.AltitudeSun() > 1) {
    const double x = q * (g.metric ? 0.3048 * 0.3048 : 1 / 0.3048 / 0.3048), y = e.Radiation();
    Check(c, std::fabs(x - y) < 0.03 * y + (g.metric ? 0.2 : 2), Cat("radiation in both unit systems: ", x, " and ", y));
  }
}

void History(Case& c) {
  Inputs g[2] = {Gen(c), Gen(c)}, now = g[0];
  SolarRadiationSolver s;
  Set(&s, now);
  int n = static_cast<int>(c.Int(1, 8)), asked = 0, edits = 0;
  for (int i = 0; i < n; i++) {
    int k = static_cast<int>(c.Int(0, 11));
    c.Note(Cat("step ", k));
    const Inputs& o = g[c.Int(0, 1)];
    if (k == 0) now.azimuth = o.azimuth, s.set_azimuth_cable(now.azimuth);
    if (k == 1) now.day = o.day, s.set_day(now.day);
    if (k == 2) now.elevation = o.elevation, s.set_elevation(now.elevation);
    if (k == 3) now.hour = o.hour, s.set_hour(now.hour);
    if (k == 4) now.latitude = o.latitude, s.set_latitude(now.latitude);
    if (k == 5) now.clear = o.clear, s.set_quality_atmosphere(now.clear ? AtmosphereQualityType::kClear : AtmosphereQualityType::kIndustrial);
    if (k == 6) now.metric = o.metric, s.set_units(now.metric ? units::UnitSystem::kMetric : units::UnitSystem::kImperial);
    if (k == 7) { SolarRadiationSolver t(s); s = t; }
    if (k < 8) edits += asked > 0;
    if (k == 8) { s.AltitudeSun(); asked++; }
    if (k == 9) { s.AzimuthSun(); asked++; }
    if (k == 10) { s.Radiation(); asked++; }
    if (k == 11) { s.Validate(); asked++; }
  }
  c.NonTrivial(edits > 0);
  Check(c, s.azimuth_cable() == now.azimuth && s.day() == now.day && s.elevation() == now.elevation && s.hour() == now.hour && s.latitude() == now.latitude, "inputs");
  CheckAll(c, now, s, " after edits");
}

void Validity(Case& c) {
  Inputs g = Gen(c);
  SolarRadiationSolver s;
  Set(&s, g);
  int bad = static_cast<int>(c.Int(0, 7));
  c.Note(Cat("bad ", bad));
  c.NonTrivial(bad > 0);
  const bool low = c.Bool();
  if (bad == 1) s.set_azimuth_cable(low ? -c.LogReal(1e-6, 100, 1) : 360 + c.LogReal(1e-6, 100, 1));
  const int off = c.Bool() ? 0 : static_cast<int>(c.Int(0, 100));
  if (bad == 2) s.set_day(low ? -off : 366 + off);
  if (bad == 3) s.set_elevation(-c.LogReal(1e-6, 1000, 1));
  if (bad == 4) s.set_hour(low ? -1 - off : 24 + off);
  if (bad == 5) s.set_latitude((low ? -1 : 1) * (90 + c.LogReal(1e-6, 100, 1)));
  if (bad == 6) s.set_quality_atmosphere(AtmosphereQualityType::kNull);
  if (bad == 7) s.set_units(units::UnitSystem::kNull);
  std::list<ErrorMessage> m;
  const bool ok = s.Validate(c.Bool(), &m);
  Check(c, ok == (bad == 0), "verdict");
  Check(c, m.empty() == ok && s.Validate(c.Bool()) == ok, "messages and verdict differ");
  if (bad >= 6) Check(c, s.Radiation() == -999999 && s.AltitudeSun() == -999999 && s.AzimuthSun() == -999999, "an answer without units or atmosphere");
}

// slightly changed inputs, copies and assignments
void Sequences(Case& c) {
  typedef SolarRadiationSolver T;
  Inputs g = Gen(c), k = Gen(c), r = g;
  r.azimuth = Related(c, g.azimuth, 0, 360);
  r.day = g.day < 365 ? g.day + 1 : g.day - 1;
  r.elevation = Related(c, g.elevation, 0, 4000);
  r.hour = g.hour < 23 ? g.hour + 1 : 0;
  r.latitude = c.Bool() ? -g.latitude : Related(c, g.latitude, -90, 90);
  const std::vector<Inputs> in = {g, r, k};
  Histories<T> h;
  h.Value("azimuth", 3, [=](T& o, int v) { o.set_azimuth_cable(in[static_cast<size_t>(v)].azimuth); });
  h.Value("day", 3, [=](T& o, int v) { o.set_day(in[static_cast<size_t>(v)].day); });
  h.Value("elevation", 3, [=](T& o, int v) { o.set_elevation(in[static_cast<size_t>(v)].elevation); });
  h.Value("hour", 3, [=](T& o, int v) { o.set_hour(in[static_cast<size_t>(v)].hour); });
  h.Value("latitude", 3, [=](T& o, int v) { o.set_latitude(in[static_cast<size_t>(v)].latitude); });
  h.Value("atmosphere", 2, [](T& o, int v) { o.set_quality_atmosphere(v ? AtmosphereQualityType::kIndustrial : AtmosphereQualityType::kClear); });
  h.Value("units", 2, [](T& o, int v) { o.set_units(v ? units::UnitSystem::kImperial : units::UnitSystem::kMetric); });
  h.Peek("altitude", [](const T& o) { o.AltitudeSun(); });
  h.Peek("azimuth", [](const T& o) { o.AzimuthSun(); });
  h.Peek("radiation", [](const T& o) { o.Radiation(); });
  h.Peek("validate", [](const T& o) { std::list<ErrorMessage> m; o.Validate(true, &m); });
  h.Ask("altitude", [](const T& o) { return static_cast<double>(o.AltitudeSun()); });
  h.Ask("azimuth", [](const T& o) { return static_cast<double>(o.AzimuthSun()); });
  h.Ask("radiation", [](const T& o) { return static_cast<double>(o.Radiation()); });
  h.Ask("verdict", [](const T& o) { return static_cast<double>(o.Validate(false, nullptr)); });
  h.Run(c);
}

}  // namespace

Property vp::MakeProperty() {
  Property p;
  p.id = "P27";
  p.assumptions = {"elevation up to 13000 ft"};
  p.laws = {{"formulas", "the sun is above the horizon", 40000, 600000, Formulas},
            {"symmetry", "there is radiation", 20000, 300000, Symmetry},
            {"history", "an input changed, or the object was copied, after a query", 20000, 300000, History},
            {"validity", "one input is out of range", 5000, 50000, Validity},
            {"sequences", "an input changed, or the solver was copied, after a query", 15000, 300000, Sequences}};
  return p;
}
