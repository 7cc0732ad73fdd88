// Cables and weather for thermal ratings, with a reference for the heat
// balance written from IEEE Std 738-2012 in extended precision.
#ifndef VERIF_THERMAL_H_
#define VERIF_THERMAL_H_

#include <memory>

#include "history.h"
#include "model.h"
#include "models/base/units.h"
#include "models/thermalrating/thermal_rating_cable.h"
#include "models/thermalrating/thermal_rating_weather.h"

namespace thermal {

typedef long double R;

struct World {
  Cable base;
  ThermalRatingCable cable;
  ThermalRatingWeather weather;
  bool metric = false;
  units::UnitSystem units() const { return metric ? units::UnitSystem::kMetric : units::UnitSystem::kImperial; }
  World() { cable.set_cable_base(&base); }
  World(const World& o) : base(o.base), weather(o.weather), metric(o.metric) { cable.set_cable_base(&base); }
};

const double kFoot = 0.3048;

inline std::string Text(const ThermalRatingWeather& w) {
  return vp::Cat("weather{air ", w.temperature_air, " wind ", w.speed_wind, " at ", w.angle_wind, " elevation ", w.elevation, " sun ", w.radiation_solar, "}");
}
inline std::string Text(const World& w) {
  std::string s = vp::Cat(w.metric ? "metric" : "imperial", " d=", w.base.diameter, " eps=", w.base.emissivity, " alpha=", w.base.absorptivity, " mCp=",
                          w.base.component_core.capacity_heat, "+", w.base.component_shell.capacity_heat, " R(T)=");
  for (const auto& p : w.base.resistances_ac) s += vp::Cat("(", p.temperature, ", ", p.resistance, ") ");
  return s + Text(w.weather);
}
inline ThermalRatingWeather GenWeather(vp::Case& c, bool metric) {
  ThermalRatingWeather w;
  const double u = metric ? kFoot : 1;
  w.temperature_air = c.PickOf<double>({40, 25, 0, -1000});
  if (w.temperature_air == -1000) w.temperature_air = c.Real(-50, 60, 20);
  w.speed_wind = (c.Chance(1, 4) ? 0 : c.Chance(1, 8) ? c.Real(0, 0.3, 0.1) : c.Real(0.2, 60, 2)) * u;
  w.angle_wind = c.PickOf<double>({90, 0, -1});
  if (w.angle_wind < 0) w.angle_wind = c.Real(0, 90, 45);
  w.elevation = (c.Bool() ? 0 : c.Real(0, 13000, 1000)) * u;
  w.radiation_solar = (c.Chance(1, 3) ? 0 : c.Real(0, 130, 95)) / u / u;
  return w;
}
// resistances in ohm per unit of length, rising with the temperature
inline void GenResistances(vp::Case& c, World* w) {
  const double u = w->metric ? kFoot : 1;
  w->base.resistances_ac.clear();
  int n = static_cast<int>(c.PickOf<int>({2, 2, 3, 4, 7}));
  double t = c.PickOf<double>({25, 20, 0, -20, 50});
  double r = c.LogReal(2e-6, 2e-4, 2.2e-5) / u;
  for (int i = 0; i < n; i++) {
    Cable::ResistancePoint p;
    p.temperature = t;
    p.resistance = r;
    w->base.resistances_ac.push_back(p);
    double step = c.PickOf<double>({50, 10, 25, 0});
    if (step == 0) step = c.Chance(1, 4) ? c.Real(0.05, 2, 0.5) : c.Real(2, 90, 20);
    // about 0.4 % per degree of the first value
    const double rise = c.Chance(1, 5) ? c.Real(0.001, 0.006, 0.004) : 0.004;
    r += w->base.resistances_ac.front().resistance * rise * step;
    t += step;
  }
}
inline void GenCable(vp::Case& c, World* w) {
  const double u = w->metric ? kFoot : 1;
  Cable& b = w->base;
  b.name = "generated";
  b.diameter = c.LogReal(0.02, 0.25, 0.0923) * u;
  b.area_physical = c.Real(0.1, 3, 0.7);
  b.weight_unit = c.Real(0.1, 3, 1) / u;
  b.strength_rated = 30000;
  b.emissivity = c.PickOf<double>({0.5, 0.8, 0, 1, -1});
  if (b.emissivity < 0) b.emissivity = c.Real(0, 1, 0.5);
  b.absorptivity = c.PickOf<double>({0.5, 0.8, 0, 1, -1});
  if (b.absorptivity < 0) b.absorptivity = c.Real(0, 1, 0.5);
  b.component_core.capacity_heat = (c.Chance(1, 4) ? 0 : c.LogReal(3, 200, 50)) / u;
  b.component_shell.capacity_heat = c.LogReal(20, 800, 300) / u;
  GenResistances(c, w);
  w->cable.set_cable_base(&b);
}
inline std::unique_ptr<World> Gen(vp::Case& c) {
  std::unique_ptr<World> w(new World());
  w->metric = c.Bool();
  GenCable(c, w.get());
  w->weather = GenWeather(c, w->metric);
  c.Note(Text(*w));
  return w;
}

// ---- reference ----
inline R Resistance(const World& w, R t) {
  std::vector<Cable::ResistancePoint> p(w.base.resistances_ac.begin(), w.base.resistances_ac.end());
  size_t i = 0;  // segment
  while (i + 2 < p.size() && t > p[i + 1].temperature) i++;
  const R x = (t - p[i].temperature) / (R(p[i + 1].temperature) - p[i].temperature);
  return p[i].resistance + x * (R(p[i + 1].resistance) - p[i].resistance);
}
// rate at which the cable gives heat to the air; negative if it is colder
inline R Convection(const World& w, R ts) {
  const ThermalRatingWeather& k = w.weather;
  const R ta = k.temperature_air, film = (ts + ta) / 2, h = k.elevation, d = w.base.diameter;
  R cond, rho, visc, kn;
  if (w.metric) {
    cond = 0.02424L + 7.477e-5L * film - 4.407e-9L * film * film;
    rho = (1.293L - 1.525e-4L * h + 6.379e-9L * h * h) / (1 + 0.00367L * film);
    visc = 1.458e-6L * powl(film + 273, 1.5L) / (film + 383.4L);
    kn = 3.645L;
  } else {
    cond = 0.007388L + 2.279e-5L * film - 1.343e-9L * film * film;
    rho = (0.080695L - 2.901e-6L * h + 3.7e-11L * h * h) / (1 + 0.00367L * film);
    visc = 0.00353L * powl(film + 273, 1.5L) / (film + 383.4L) / 3600;
    kn = 1.825L;
  }
  const R dt = fabsl(ts - ta), re = d * rho * k.speed_wind / visc;
  const R phi = k.angle_wind * acosl(-1.0L) / 180;
  const R dir = 1.194L - cosl(phi) + 0.194L * cosl(2 * phi) + 0.368L * sinl(2 * phi);
  const R low = dir * (1.01L + 1.35L * powl(re, 0.52L)) * cond * dt;
  const R high = dir * 0.754L * powl(re, 0.6L) * cond * dt;
  const R still = kn * sqrtl(rho) * powl(d, 0.75L) * powl(dt, 1.25L);
  const R q = fmaxl(still, fmaxl(low, high));
  return ts < ta ? -q : q;
}
inline R Radiation(const World& w, R ts) {
  auto four = [](R t) { return powl((t + 273) / 100, 4); };
  return (w.metric ? 17.8L : 1.656L) * w.base.diameter * w.base.emissivity * (four(ts) - four(w.weather.temperature_air));
}
inline R Sun(const World& w) { return R(w.base.absorptivity) * w.weather.radiation_solar * w.base.diameter; }
// heat that has to come from the current in a steady state
inline R Needed(const World& w, R ts) { return Convection(w, ts) + Radiation(w, ts) - Sun(w); }
// current of a steady state; negative if there's none
inline R Current(const World& w, R ts) {
  const R q = Needed(w, ts), i = sqrtl(fabsl(q) / Resistance(w, ts));
  return q < 0 ? -i : i;
}
// temperature of the steady state with a current
inline R Temperature(const World& w, R current) {
  auto f = [&](R t) { return Needed(w, t) - current * current * Resistance(w, t); };
  R lo = w.weather.temperature_air, hi = lo + 1;
  while (f(hi) < 0 && hi < 5000) hi = lo + (hi - lo) * 1.5L;
  if (f(hi) < 0) return -1e9L;
  for (int i = 0; i < 120; i++) {
    const R m = (lo + hi) / 2;
    (f(m) < 0 ? lo : hi) = m;
  }
  return (lo + hi) / 2;
}

// cable, weather and units of a solver, for histories
template <typename T>
void Slots(vp::Case& c, vp::Histories<T>* h) {
  auto worlds = std::make_shared<std::vector<std::unique_ptr<World>>>();
  worlds->push_back(Gen(c));
  worlds->emplace_back(new World(*(*worlds)[0]));
  Cable& b = (*worlds)[1]->base;
  switch (c.Int(0, 4)) {
    case 0: b.emissivity = vp::Related(c, b.emissivity, 0, 1); break;
    case 1: b.absorptivity = vp::Related(c, b.absorptivity, 0, 1); break;
    case 2: b.diameter *= 1.05; break;
    case 3: b.resistances_ac.back().resistance *= 1.02; break;
    default: b.component_shell.capacity_heat *= 1.3; break;
  }
  worlds->push_back(Gen(c));
  worlds->emplace_back(new World(*(*worlds)[0]));
  std::vector<ThermalRatingWeather> weathers;
  for (int i = 0; i < 3; i++) weathers.push_back((*worlds)[static_cast<size_t>(i)]->weather);
  ThermalRatingWeather& w = weathers[1];
  switch (c.Int(0, 4)) {
    case 0: w.temperature_air = vp::Related(c, w.temperature_air, -50, 60); break;
    case 1: w.speed_wind = vp::Related(c, w.speed_wind, 0, 60); break;
    case 2: w.angle_wind = vp::Related(c, w.angle_wind, 0, 90); break;
    case 3: w.elevation = vp::Related(c, w.elevation, 0, 4000); break;
    default: w.radiation_solar = vp::Related(c, w.radiation_solar, 0, 1400); break;
  }
  h->Pointer("cable", 3, [worlds](int v) { worlds->back()->base = (*worlds)[static_cast<size_t>(v)]->base; worlds->back()->cable.set_cable_base(&worlds->back()->base); },
             [worlds](T& o, int v, bool shared) { o.set_cable(&(*worlds)[shared ? 3 : static_cast<size_t>(v)]->cable); });
  h->template Pointer<ThermalRatingWeather>("weather", weathers, [](T& o, const ThermalRatingWeather* k) { o.set_weather(k); });
  const bool metric = (*worlds)[0]->metric;
  h->Value("units", 2, [metric](T& o, int v) { o.set_units((v == 0) == metric ? units::UnitSystem::kMetric : units::UnitSystem::kImperial); });
}

}  // namespace thermal

#endif
