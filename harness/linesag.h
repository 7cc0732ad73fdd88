// Line cables with their design conditions, and reference solutions of their
// stretch and reloaded states.
#ifndef VERIF_LINESAG_H_
#define VERIF_LINESAG_H_

#include <memory>

#include "sagcable.h"
#include "models/transmissionline/cable_constraint.h"
#include "models/transmissionline/line_cable.h"
#include "models/transmissionline/line_structure.h"
#include "models/transmissionline/weather_load_case.h"

namespace sag {

typedef CableConditionType Cond;

inline WeatherLoadCase GenWeather(vp::Case& c, bool heavy) {
  WeatherLoadCase w;
  w.description = "generated";
  w.temperature_cable = c.Real(-30, 120, 60);
  w.thickness_ice = heavy && c.Chance(2, 3) ? c.Real(0, 0.08, 0.04) : 0;
  w.density_ice = heavy ? c.Real(30, 57.3, 57.3) : 0;
  w.pressure_wind = heavy && c.Chance(1, 2) ? c.Real(0, 12, 4) : 0;
  return w;
}
inline std::string Text(const WeatherLoadCase& w) {
  return vp::Cat("weather{ice ", w.thickness_ice, " x ", w.density_ice, " wind ", w.pressure_wind, " at ", w.temperature_cable, "}");
}

struct LineWorld {
  Composite m;
  Cable cable;
  std::vector<std::unique_ptr<WeatherLoadCase>> weathers;  // 0 creep, 1 load, 2.. others
  Span ruling;             // ends only
  LineCable line;
  std::vector<std::unique_ptr<Hardware>> hardware;
  std::vector<std::unique_ptr<Structure>> structures;
  std::vector<std::unique_ptr<LineStructure>> line_structures;

  Span Loaded(const Vector3d& spacing, const WeatherLoadCase& w) const {
    Span s;
    s.a = spacing.x();
    s.b = spacing.z();
    double d = cable.diameter, t = w.thickness_ice;
    s.wy = (d + 2 * t) * w.pressure_wind;
    s.wz = cable.weight_unit + model::kPi / 4 * ((d + 2 * t) * (d + 2 * t) - d * d) * w.density_ice;
    return s;
  }
};

inline std::unique_ptr<LineWorld> GenLine(vp::Case& c, int extra_weathers) {
  std::unique_ptr<LineWorld> w(new LineWorld());
  w->m = GenComposite(c, false);
  for (int i = 0; i < 2; i++) c.Note(w->m.on[i] ? Text(w->m.part[i]) : "none");
  FillCable(w->m, &w->cable);
  double cap = 0;
  for (int i = 0; i < 2; i++)
    if (w->m.on[i]) cap += static_cast<double>(w->m.part[i].Limit(kLoadStrain));
  w->cable.strength_rated = cap;
  w->cable.weight_unit = cap / c.LogReal(12000, 60000, 25000);
  w->cable.diameter = 0.0923 * std::sqrt(w->cable.weight_unit / 1.094);
  for (int i = 0; i < 2 + extra_weathers; i++) {
    w->weathers.emplace_back(new WeatherLoadCase(GenWeather(c, i == 1 || (i > 1 && c.Bool()))));
    c.Note(vp::Cat(i == 0 ? "creep " : i == 1 ? "load " : "", Text(*w->weathers.back())));
  }
  w->ruling.a = c.Bool() ? static_cast<double>(c.Int(200, 1500)) : c.Real(150, 2000, 1000);
  w->ruling.b = c.Chance(1, 2) ? 0 : c.Real(-0.2, 0.2, 0.1) * w->ruling.a;
  w->line.set_cable(&w->cable);
  w->line.set_spacing_attachments_ruling_span(Vector3d(w->ruling.a, 0, w->ruling.b));
  w->line.set_weathercase_stretch_creep(w->weathers[0].get());
  w->line.set_weathercase_stretch_load(w->weathers[1].get());
  // ends of the line, for the validation
  for (int i = 0; i < 2; i++) {
    w->hardware.emplace_back(new Hardware());
    Hardware& h = *w->hardware.back();
    h.name = "dead end";
    h.area_cross_section = 1;
    h.length = 2;
    h.type = Hardware::HardwareType::kDeadEnd;
    h.weight = 10;
    w->structures.emplace_back(new Structure());
    Structure& s = *w->structures.back();
    s.name = "pole";
    s.height = 100;
    StructureAttachment p;
    p.offset_longitudinal = p.offset_transverse = p.offset_vertical_top = 0;
    s.attachments.push_back(p);
    w->line_structures.emplace_back(new LineStructure());
    LineStructure& l = *w->line_structures.back();
    l.set_structure(&s);
    l.set_station(1000. * i);
    l.set_rotation(0);
    l.set_offset(0);
    l.set_height_adjustment(0);
    l.AttachHardware(0, &h);
    LineCableConnection q;
    q.index_attachment = 0;
    q.line_structure = &l;
    w->line.AddConnection(q);
  }
  return w;
}

inline CableConstraint GenConstraint(vp::Case& c, const LineWorld& w, int iweather, bool any_type) {
  CableConstraint k;
  k.case_weather = w.weathers[iweather].get();
  k.condition = c.PickOf<Cond>({Cond::kInitial, Cond::kCreep, Cond::kLoad});
  k.note = "generated";
  Span s = w.Loaded(w.line.spacing_attachments_ruling_span(), *k.case_weather);
  double H = w.cable.strength_rated * c.Real(0.06, 0.45, 0.2);
  if (H < 1.3 * s.HMin()) c.Reject();
  int type = any_type ? static_cast<int>(c.PickOf<int>({0, 0, 1, 2})) : 0;
  k.type_limit = type == 0 ? CableConstraint::LimitType::kHorizontalTension
               : type == 1 ? CableConstraint::LimitType::kCatenaryConstant : CableConstraint::LimitType::kSupportTension;
  model::Curve r = s.At(H);
  k.limit = type == 0 ? H : type == 1 ? H / s.W() : static_cast<double>(fmaxl(r.Tension(r.xl), r.Tension(r.xr)));
  return k;
}
inline const char* Name(Cond t) { return t == Cond::kInitial ? "initial" : t == Cond::kCreep ? "creep" : "load"; }
inline std::string Text(const CableConstraint& k) {
  return vp::Cat("constraint{type ", static_cast<int>(k.type_limit), " limit ", k.limit, " ", Name(k.condition), " ", Text(*k.case_weather), "}");
}

inline CableStretchState NoStretch(double t) {
  CableStretchState s;
  s.load = 0;
  s.temperature = t;
  s.type_polynomial = kLoadStrain;
  return s;
}

// reference: constraint state of the line, given the stretch loads
struct LineModel {
  bool ok = false;
  R H = 0, T = 0, length = 0;
  CompositeCurve constraint;   // elongation in the constraint state
  CableStretchState creep, load;
};
inline CableStretchState StretchOf(const LineWorld& w, bool creep, double load) {
  CableStretchState s;
  s.load = load;
  s.temperature = w.weathers[creep ? 0 : 1]->temperature_cable;
  s.type_polynomial = creep ? kCreep : kLoadStrain;
  return s;
}
inline bool ElongationIn(const LineWorld& w, double temperature, Cond cond, const CableStretchState& creep,
                         const CableStretchState& load, CompositeCurve* out) {
  CableState st;
  st.temperature = temperature;
  st.type_polynomial = kLoadStrain;
  return MakeComposite(w.m, st, cond == Cond::kCreep ? creep : cond == Cond::kLoad ? load : NoStretch(0), out);
}
// elongation in the state that causes the stretch, before it happens
inline bool ElongationAtStretch(const LineWorld& w, bool creep, CompositeCurve* out) {
  CableState st;
  st.temperature = w.weathers[creep ? 0 : 1]->temperature_cable;
  st.type_polynomial = creep ? kCreep : kLoadStrain;
  return MakeComposite(w.m, st, NoStretch(0), out);
}

// the state of the constraint cannot be reached, or is past the polynomials
inline bool Beyond(const LineWorld& w) {
  CableConstraint k = w.line.constraint();
  CompositeCurve at[2], cons;
  if (!ElongationAtStretch(w, true, &at[0]) || !ElongationAtStretch(w, false, &at[1])) return true;
  double H = w.line.CatenaryRulingSpan().tension_horizontal();
  Span s = w.Loaded(w.line.spacing_attachments_ruling_span(), *k.case_weather);
  model::Curve curve = s.At(H);
  double load = 0;
  for (int n = 0; n < 60; n++) {
    if (!ElongationIn(w, k.case_weather->temperature_cable, k.condition, StretchOf(w, true, load), StretchOf(w, false, load), &cons)) return true;
    double last = load;
    for (int i = 0; i < 2; i++) {
      Span to = w.Loaded(w.line.spacing_attachments_ruling_span(), *w.weathers[i]);
      Reload x = Solve(curve.len, curve.TensionSampled(), cons, to, at[i], 0.9L);
      if (!x.ok || x.H < 1.05L * to.HMin() || x.T > 0.8L * w.cable.strength_rated) return true;
      // the library solves tensions to 0.01, and lengths to 0.1
      if (fabsl(to.At(x.H).len - to.At(x.H + 0.02L).len) > 0.05L) return true;
      if (k.condition == (i == 0 ? Cond::kCreep : Cond::kLoad)) load = static_cast<double>(x.T);
    }
    if (load <= last + 0.01) return false;
  }
  return true;
}

}  // namespace sag

#endif  // VERIF_LINESAG_H_
