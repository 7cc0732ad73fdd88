// P28: verdicts of Validate() on every kind of input record.
#include <limits>
#include <memory>
#include <set>

#include "engine.h"
#include "model.h"
#include "models/base/geometric_shapes.h"
#include "models/base/polynomial.h"
#include "models/sagtension/cable_elongation_model.h"
#include "models/sagtension/cable_strainer.h"
#include "models/sagtension/sag_tension_cable.h"
#include "models/thermalrating/cable_heat_transfer_state.h"
#include "models/thermalrating/cable_heat_transfer_solver.h"
#include "models/thermalrating/thermal_rating_cable.h"
#include "models/thermalrating/thermal_rating_weather.h"
#include "models/transmissionline/alignment.h"
#include "models/transmissionline/cable_constraint.h"
#include "models/transmissionline/cable_unit_load_solver.h"
#include "models/base/polynomial.h"
#include "models/transmissionline/catenary.h"
#include "models/transmissionline/catenary_solver.h"
#include "models/transmissionline/line_structure.h"
#include "models/transmissionline/weather_load_case.h"

using namespace vp;

namespace {

// Sets fields inside and outside of their range, and counts the broken ones.
struct Fields {
  Case& c;
  int bad = 0;
  int chance;        // one in how many fields is broken
  std::string text;  // broken fields
  explicit Fields(Case& c_) : c(c_), chance(static_cast<int>(c_.PickOf<int>({12, 4, 1000000}))) {}
  bool Break(const char* name) {
    if (!c.Chance(1, chance)) return false;
    bad++;
    text += Cat(name, " ");
    return true;
  }
  // a value from lo (allowed or not) to hi (allowed or not)
  double Value(const char* name, double lo, bool with_lo, double hi, bool with_hi, double span) {
    const bool has_lo = std::isfinite(lo), has_hi = std::isfinite(hi);
    double v;
    if (Break(name)) {
      const bool low = has_lo && (!has_hi || c.Bool());
      switch (c.Int(0, 3)) {
        case 0: v = low ? lo - c.Real(span / 1000, span, span / 10) : hi + c.Real(span / 1000, span, span / 10); break;
        case 1: v = low ? std::nextafter(lo, -1e300) : std::nextafter(hi, 1e300); break;
        case 2: v = low ? -999999 : 999999; break;
        default: v = low ? (with_lo ? std::nextafter(lo, -1e300) : lo) : (with_hi ? std::nextafter(hi, 1e300) : hi);
      }
    } else {
      const double a = has_lo ? lo : hi - span, b = has_hi ? hi : lo + span;
      v = c.Real(a, b, (a + b) / 2);
      if (c.Chance(1, 6) && has_lo) v = with_lo ? lo : std::nextafter(lo, 1e300);
      if (c.Chance(1, 6) && has_hi) v = with_hi ? hi : std::nextafter(hi, -1e300);
      if ((v == lo && !with_lo) || (v == hi && !with_hi)) v = (a + b) / 2;
    }
    c.Note(Cat(name, "=", v));
    return v;
  }
  double AtLeast(const char* n, double lo, double span) { return Value(n, lo, true, INFINITY, true, span); }
  double Above(const char* n, double lo, double span) { return Value(n, lo, false, INFINITY, true, span); }
  // positive, but not so small that formulas underflow
  double Size(const char* n, double span) { double v = Above(n, 0, span); return v > 0 && v < span / 1e6 ? span / 1e6 : v; }
};

// the verdict, its messages, and both again
template <typename T>
void Verdict(Case& c, const T& o, const Fields& f, const char* what) {
  Check(c, !f.text.empty() == (f.bad > 0), "harness");
  std::list<ErrorMessage> m;
  ErrorMessage before;
  before.title = "BEFORE";
  const bool earlier = c.Bool(), warnings = c.Bool();
  if (earlier) m.push_back(before);
  c.NonTrivial(f.bad > 0);
  const bool ok = o.Validate(warnings, &m);
  const std::string about = Cat(what, f.bad ? " with bad " : "", f.text);
  Check(c, ok == (f.bad == 0), Cat(about, ": the verdict is ", ok));
  if (earlier) Check(c, !m.empty() && m.front().title == "BEFORE", about + ": messages of others are gone");
  if (earlier) m.pop_front();
  Check(c, m.size() == static_cast<size_t>(f.bad), Cat(about, ": ", m.size(), " messages for ", f.bad, " errors"));
  for (const auto& e : m) Check(c, !e.title.empty() && !e.description.empty(), about + ": an empty message");
  std::set<std::string> all;
  Check(c, o.Validate(warnings) == ok && o.Validate(!warnings, nullptr) == ok, about + ": the verdict changes");
  std::list<ErrorMessage> again;
  o.Validate(warnings, &again);
  Check(c, again.size() == m.size(), about + ": the messages change");
}

void Fill(Fields* f, WeatherLoadCase* w) {
  w->density_ice = f->AtLeast("density_ice", 0, 57.3);
  w->pressure_wind = f->AtLeast("pressure_wind", 0, 30);
  w->temperature_cable = f->AtLeast("temperature_cable", -50, 200);
  w->thickness_ice = f->AtLeast("thickness_ice", 0, 0.2);
}
void Fill(Fields* f, Hardware* h) {
  h->area_cross_section = f->AtLeast("area_cross_section", 0, 5);
  h->length = f->AtLeast("length", 0, 20);
  h->weight = f->AtLeast("weight", 0, 500);
  h->type = f->Break("type") ? Hardware::HardwareType::kNull : f->c.Bool() ? Hardware::HardwareType::kDeadEnd : Hardware::HardwareType::kSuspension;
}
void Fill(Fields* f, Structure* s) {
  s->height = f->Size("height", 200);
  int n = static_cast<int>(f->c.Int(1, 4));
  if (f->Break("no attachments")) n = 0;
  for (int i = 0; i < n; i++) {
    StructureAttachment a;
    a.offset_longitudinal = f->c.Real(-20, 20, 0);
    a.offset_transverse = f->c.Real(-50, 50, 0);
    if (s->height > 0) {
      a.offset_vertical_top = f->Value("offset_vertical_top", 0, true, s->height, true, s->height);
    } else {
      a.offset_vertical_top = f->AtLeast("offset_vertical_top", 0, 100);
      if (s->height < a.offset_vertical_top) { f->bad++; f->text += "offset over height "; }
    }
    s->attachments.push_back(a);
  }
}
void Fill(Fields* f, CableState* s) {
  s->temperature = f->AtLeast("temperature", -100, 300);
  s->type_polynomial = f->Break("type_polynomial") ? SagTensionCableComponent::PolynomialType::kNull
                       : f->c.Bool() ? SagTensionCableComponent::PolynomialType::kCreep : SagTensionCableComponent::PolynomialType::kLoadStrain;
}
void FillBase(Fields* f, Cable* b) {
  b->area_physical = f->AtLeast("area_physical", 0, 2);
  b->diameter = f->Above("diameter", 0, 0.2);
  b->weight_unit = f->Above("weight_unit", 0, 3);
}
void Good(Cable* b) {
  b->area_physical = 0.5;
  b->diameter = 0.1;
  b->weight_unit = 1;
  b->strength_rated = 30000;
  b->temperature_properties_components = 70;
  b->absorptivity = b->emissivity = 0.5;
}
void Fill(Fields* f, CableComponent* k, bool enabled) {
  k->coefficient_expansion_linear_thermal = f->Value("expansion", -0.005, false, 0.005, true, 0.01);
  int bad = 5;
  if (enabled) {
    for (std::vector<double>* v : {&k->coefficients_polynomial_creep, &k->coefficients_polynomial_loadstrain}) {
      bad = f->Break("coefficients") ? static_cast<int>(f->c.PickOf<int>({4, 6, 1})) : 5;
      v->assign(static_cast<size_t>(bad), 0);
      // one coefficient that isn't zero is enough
      (*v)[static_cast<size_t>(f->c.Int(0, bad - 1))] = (f->c.Bool() ? 1 : -1) * f->c.LogReal(1e-9, 1e6, 1);
    }
  }
  k->load_limit_polynomial_creep = f->AtLeast("limit creep", 0, 20000);
  k->load_limit_polynomial_loadstrain = f->AtLeast("limit loadstrain", 0, 20000);
  k->modulus_compression_elastic_area = f->AtLeast("modulus compression", 0, 1e6);
  k->modulus_tension_elastic_area = f->AtLeast("modulus tension", 0, 1e6);
  k->scale_polynomial_x = f->AtLeast("scale x", 0, 2);
  k->scale_polynomial_y = f->AtLeast("scale y", 0, 2);
}

void Records(Case& c) {
  Fields f(c);
  const int kind = static_cast<int>(c.Int(0, 17));
  c.Note(Cat("kind ", kind));
  switch (kind) {
    case 0: {
      WeatherLoadCase w;
      if (c.Chance(1, 20)) { f.bad = 4; f.text = "new"; } else Fill(&f, &w);
      return Verdict(c, w, f, "weather load case");
    }
    case 1: {
      Hardware h;
      if (c.Chance(1, 20)) { f.bad = 4; f.text = "new"; } else Fill(&f, &h);
      return Verdict(c, h, f, "hardware");
    }
    case 2: {
      WeatherLoadCase w;
      CableConstraint k;
      if (c.Chance(1, 20)) { f.bad = 4; f.text = "new"; return Verdict(c, k, f, "cable constraint"); }
      if (!f.Break("no weather")) { Fill(&f, &w); k.case_weather = &w; }
      k.condition = f.Break("condition") ? CableConditionType::kNull : c.PickOf<CableConditionType>({CableConditionType::kInitial, CableConditionType::kCreep, CableConditionType::kLoad});
      k.limit = f.AtLeast("limit", 0, 10000);
      k.type_limit = f.Break("type_limit") ? CableConstraint::LimitType::kNull : c.PickOf<CableConstraint::LimitType>({CableConstraint::LimitType::kHorizontalTension, CableConstraint::LimitType::kCatenaryConstant, CableConstraint::LimitType::kSupportTension});
      return Verdict(c, k, f, "cable constraint");
    }
    case 3: {
      CableState s;
      if (c.Chance(1, 20)) { f.bad = 2; f.text = "new"; } else Fill(&f, &s);
      return Verdict(c, s, f, "cable state");
    }
    case 4: {
      CableStretchState s;
      if (c.Chance(1, 20)) { f.bad = 3; f.text = "new"; return Verdict(c, s, f, "cable stretch state"); }
      Fill(&f, &s);
      s.load = f.AtLeast("load", 0, 20000);
      return Verdict(c, s, f, "cable stretch state");
    }
    case 5: {
      StructureAttachment a;
      if (c.Chance(1, 20)) { f.bad = 1; f.text = "new"; } else a.offset_vertical_top = f.AtLeast("offset_vertical_top", 0, 100);
      return Verdict(c, a, f, "structure attachment");
    }
    case 6: {
      Structure s;
      Fill(&f, &s);
      return Verdict(c, s, f, "structure");
    }
    case 7: {
      Cable b;
      if (c.Chance(1, 20)) { f.bad = 3; f.text = "new"; } else FillBase(&f, &b);
      return Verdict(c, b, f, "cable");
    }
    case 8: {  // sag tension cable, with none, one or both components
      Cable b;
      SagTensionCable k;
      if (c.Chance(1, 20)) { f.bad = 1; f.text = "new"; return Verdict(c, k, f, "sag tension cable"); }
      FillBase(&f, &b);
      b.strength_rated = f.AtLeast("strength_rated", 0, 40000);
      b.temperature_properties_components = f.AtLeast("temperature_properties_components", 0, 100);
      // components with polynomials that are all zero aren't validated
      Fields off(c);
      const bool core = c.Bool(), shell = c.Bool();
      Fill(core ? &f : &off, &b.component_core, core);
      Fill(shell ? &f : &off, &b.component_shell, shell);
      if (!core && c.Bool()) b.component_core.coefficients_polynomial_creep.assign(5, 1);
      if (!shell && c.Bool()) b.component_shell.coefficients_polynomial_loadstrain.assign(5, 0);
      k.set_cable_base(&b);
      Check(c, k.IsEnabled(SagTensionCable::ComponentType::kCore) == core && k.IsEnabled(SagTensionCable::ComponentType::kShell) == shell &&
                   k.IsEnabled(SagTensionCable::ComponentType::kCombined) == (core || shell), "components of a sag tension cable");
      Verdict(c, k, f, "sag tension cable");
      SagTensionCable copy(k);
      Verdict(c, copy, f, "copied sag tension cable");
      copy.set_cable_base(nullptr);
      Check(c, !copy.Validate() && !copy.IsEnabled(SagTensionCable::ComponentType::kCombined), "a sag tension cable without base");
      return;
    }
    case 9: {
      CableComponent b;
      SagTensionCableComponent k;
      if (c.Chance(1, 20)) {
        f.bad = 1;
        f.text = "new";
        Check(c, !k.IsEnabled(), "a component without base is enabled");
        return Verdict(c, k, f, "sag tension component");
      }
      Fill(&f, &b, true);
      k.set_component_base(&b);
      return Verdict(c, k, f, "sag tension component");
    }
    case 10: {
      Cable b;
      ThermalRatingCable k;
      if (c.Chance(1, 20)) { f.bad = 1; f.text = "new"; return Verdict(c, k, f, "thermal rating cable"); }
      FillBase(&f, &b);
      b.absorptivity = f.Value("absorptivity", 0, true, 1, true, 1);
      b.emissivity = f.Value("emissivity", 0, true, 1, true, 1);
      b.component_core.capacity_heat = f.AtLeast("core capacity", 0, 500);
      b.component_shell.capacity_heat = f.AtLeast("shell capacity", 0, 500);
      int n = f.Break("too few resistances") ? static_cast<int>(c.Int(0, 1)) : static_cast<int>(c.Int(2, 5));
      double t = 20;
      for (int i = 0; i < n; i++) {
        Cable::ResistancePoint p;
        p.temperature = t;
        p.resistance = 1e-5 * (i + 1);
        b.resistances_ac.push_back(p);
        if (i + 1 < n) t = f.Break("resistances out of order") ? t - c.Real(0, 40, 0) : t + c.Real(1e-6, 50, 25);
      }
      k.set_cable_base(&b);
      return Verdict(c, k, f, "thermal rating cable");
    }
    case 11: {
      ThermalRatingWeather w;
      if (c.Chance(1, 20)) { f.bad = 5; f.text = "new"; return Verdict(c, w, f, "thermal rating weather"); }
      w.angle_wind = f.Value("angle_wind", 0, true, 90, true, 90);
      w.elevation = f.AtLeast("elevation", 0, 10000);
      w.radiation_solar = f.AtLeast("radiation_solar", 0, 1000);
      w.speed_wind = f.AtLeast("speed_wind", 0, 50);
      w.temperature_air = f.Value("temperature_air", -100, true, 100, true, 200);
      Cable b;
      ThermalRatingCable k;
      Good(&b);
      b.component_core.capacity_heat = b.component_shell.capacity_heat = 50;
      b.resistances_ac.resize(2);
      b.resistances_ac.front().temperature = 25;
      b.resistances_ac.back().temperature = 75;
      b.resistances_ac.front().resistance = b.resistances_ac.back().resistance = 1e-5;
      k.set_cable_base(&b);
      CableHeatTransferSolver s;
      Verdict(c, w, f, "thermal rating weather");
      if (!f.Break("no weather")) s.set_weather(&w);
      else f.bad = 1;
      if (!f.Break("no cable")) s.set_cable(&k);
      if (!f.Break("no units")) s.set_units(c.Bool() ? units::UnitSystem::kMetric : units::UnitSystem::kImperial);
      return Verdict(c, s, f, "cable heat transfer solver");
    }
    case 12: {
      CableHeatTransferState s;
      if (c.Chance(1, 20)) { f.bad = 5; f.text = "new"; return Verdict(c, s, f, "cable heat transfer state"); }
      s.heat_convection = f.Value("convection", -INFINITY, true, 0, true, 50);
      s.heat_radiation = f.Value("radiation", -INFINITY, true, 0, true, 50);
      s.heat_resistance = f.AtLeast("resistance", 0, 50);
      s.heat_solar = f.AtLeast("solar", 0, 50);
      s.heat_storage = f.Value("storage", -999999, false, 999999, false, 1000);
      return Verdict(c, s, f, "cable heat transfer state");
    }
    case 13: {  // a planar catenary, whose curve is validated last
      Catenary2d k;
      if (c.Chance(1, 20)) { f.bad = 4; f.text = "new"; return Verdict(c, k, f, "planar catenary"); }
      const double h = f.Size("tension", 20000), w = f.Size("weight", 3), a = f.Size("horizontal spacing", 2000), b = f.Value("vertical spacing", -2000, false, 2000, false, 4000);
      k.set_tension_horizontal(h);
      k.set_weight_unit(w);
      Vector2d s;
      s.set_x(a);
      s.set_y(b);
      k.set_spacing_endpoints(s);
      if (f.bad == 0) {
        // the library's lowest tension is between 0.6 and 0.7 of the distance of the ends
        const double r = h / w / std::hypot(a, b);
        if (r > 0.45 && r < 0.75) c.Reject();
        if (r <= 0.45) { f.bad = 1; f.text = "curve "; }
      }
      return Verdict(c, k, f, "planar catenary");
    }
    case 14: {
      Catenary3d k;
      if (c.Chance(1, 20)) { f.bad = 6; f.text = "new"; std::list<ErrorMessage> m; Check(c, !k.Validate(true, &m) && !m.empty(), "a new catenary is valid"); c.NonTrivial(); return; }
      Vector3d s, w;
      s.set_x(f.Size("horizontal spacing", 2000));
      s.set_y(f.Break("transverse spacing") ? c.PickOf<double>({1, -1, 1e-9}) : 0);
      s.set_z(f.Value("vertical spacing", -500, true, 500, true, 1000));
      if (std::fabs(s.z()) > 500 && std::fabs(s.z()) < 2000) s.set_z(s.z() > 0 ? 2000 : -2000);
      w.set_x(f.Break("longitudinal load") ? c.PickOf<double>({1, -1, 1e-9}) : 0);
      w.set_y(f.AtLeast("transverse load", 0, 3));
      w.set_z(f.Size("vertical load", 3));
      k.set_spacing_endpoints(s);
      k.set_weight_unit(w);
      k.set_tension_horizontal(10000);
      k.set_direction_transverse(c.Bool() ? AxisDirectionType::kPositive : AxisDirectionType::kNegative);
      if (f.bad == 0) {
        const double r = 10000 / std::hypot(w.y(), w.z()) / s.Magnitude();
        if (r < 1) c.Reject();
      }
      return Verdict(c, k, f, "catenary");
    }
    case 15: {
      double d = f.Above("diameter", 0, 0.2), w = f.Above("weight", 0, 3);
      CableUnitLoadSolver s;
      if (!f.Break("none")) s.set_diameter_cable(&d), s.set_weight_unit_cable(&w);
      else f.bad = 2;
      return Verdict(c, s, f, "unit load solver");
    }
    case 16: {
      Cylinder k;
      if (c.Chance(1, 20)) { f.bad = 2; f.text = "new"; return Verdict(c, k, f, "cylinder"); }
      k.set_diameter(f.Above("diameter", 0, 2));
      k.set_length(f.Above("length", 0, 100));
      return Verdict(c, k, f, "cylinder");
    }
    case 17: {  // a polynomial only needs its coefficients
      std::vector<double> k;
      const int n = static_cast<int>(c.Int(1, 6));
      for (int i = 0; i < n; i++) k.push_back(c.Real(-10, 10, 1));
      std::list<ErrorMessage> m;
      Polynomial p;
      Check(c, !p.Validate(true, &m) && m.size() == 1, "a polynomial without coefficients is valid");
      Polynomial q(p);
      Check(c, !q.Validate(false, &m) && m.size() == 2, "a copy of a polynomial without coefficients is valid");
      q.set_coefficients(&k);
      Check(c, q.Validate(c.Bool(), &m) && m.size() == 2, "a polynomial with coefficients is invalid");
      p = q;
      Check(c, p.Validate(c.Bool(), nullptr) && p.OrderMax() == n - 1, "a copy of a polynomial with coefficients is invalid");
      q.set_coefficients(nullptr);
      Check(c, !q.Validate(true, nullptr), "a polynomial whose coefficients were taken away is valid");
      c.NonTrivial();
      return;
    }
    default: {
      AlignmentPoint p;
      p.elevation = f.AtLeast("elevation", 0, 5000);
      p.rotation = f.Value("rotation", -360, true, 360, true, 720);
      p.station = f.AtLeast("station", 0, 50000);
      Verdict(c, p, f, "alignment point");
      LineStructure l;
      Hardware h;
      Structure s;
      l.set_height_adjustment(0);
      Fields g(c);
      l.set_height_adjustment(g.AtLeast("height adjustment", 0, 20));
      l.set_rotation(g.Value("rotation", -360, true, 360, true, 720));
      l.set_station(g.AtLeast("station", 0, 10000));
      l.set_offset(c.Real(-100, 100, 0));
      if (g.Break("no structure")) return Verdict(c, l, g, "line structure");
      Fill(&g, &s);
      l.set_structure(&s);
      if (!s.attachments.empty() && c.Bool()) {
        Fill(&g, &h);
        l.AttachHardware(static_cast<int>(c.Int(0, static_cast<int64_t>(s.attachments.size()) - 1)), &h);
      }
      return Verdict(c, l, g, "line structure");
    }
  }
}

}  // namespace

Property vp::MakeProperty() {
  Property p;
  p.id = "P28";
  p.assumptions = {"no field is NaN"};
  p.laws = {{"records", "at least one field is out of its range", 150000, 3000000, Records}};
  return p;
}
