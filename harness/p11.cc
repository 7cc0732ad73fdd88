// P11: line cable connections, structure hardware, and the ruling span catenary.
#include <list>
#include <memory>
#include <vector>

#include "engine.h"
#include "model.h"
#include "models/transmissionline/cable_unit_load_solver.h"
#include "models/transmissionline/catenary_solver.h"
#include "models/transmissionline/line_cable.h"
#include "models/transmissionline/line_structure.h"

using namespace vp;
using model::Curve;

namespace {

struct Fixture {
  Hardware deadend, suspension, unset;
  Structure structure[3];
  std::vector<LineStructure> stand;
  Fixture() {
    deadend.type = Hardware::HardwareType::kDeadEnd;
    suspension.type = Hardware::HardwareType::kSuspension;
    for (Hardware* h : {&deadend, &suspension}) {
      h->area_cross_section = h->length = h->weight = 1;
    }
    for (size_t i = 0; i < 3; i++) {
      structure[i].height = 50;
      structure[i].attachments.resize(i + 1);
      for (StructureAttachment& a : structure[i].attachments) {
        a.offset_longitudinal = a.offset_transverse = 0;
        a.offset_vertical_top = 0;
      }
    }
  }
  const Hardware* Kind(int k) const { return k == 0 ? &deadend : k == 1 ? &suspension : k == 3 ? &unset : nullptr; }
};

struct Con {
  size_t stand;
  int attachment;
};

void LawConnections(Case& c) {
  Fixture f;
  const int size = static_cast<int>(c.Int(2, 6));
  std::vector<double> station;
  std::vector<std::vector<int>> hard;  // kind of hardware per attachment
  for (int i = 0; i < size; i++) {
    LineStructure s;
    station.push_back(c.Chance(1, 6) && i > 0 ? station.back() : 100.0 * static_cast<double>(c.Int(0, 12)));
    s.set_station(station.back());
    const int kind = static_cast<int>(c.Int(0, 2));
    s.set_structure(&f.structure[kind]);
    hard.push_back({});
    for (int a = 0; a <= kind; a++) {
      hard.back().push_back(static_cast<int>(c.PickOf<int>({0, 1, 0, 1, 2, 3, 0, 1})));
      s.AttachHardware(a, f.Kind(hard.back().back()));
    }
    f.stand.push_back(s);
  }
  LineCable cable;
  std::vector<Con> ref;
  auto at = [&](double st) {
    size_t n = 0;
    for (const Con& q : ref) n += station[q.stand] < st;
    return n;
  };
  auto taken = [&](double st) {
    for (const Con& q : ref)
      if (station[q.stand] == st) return true;
    return false;
  };
  auto add = [&](const Con& k) {
    if (taken(station[k.stand])) return -1;
    const size_t i = at(station[k.stand]);
    ref.insert(ref.begin() + static_cast<long>(i), k);
    return static_cast<int>(i);
  };
  auto make = [&](const Con& k) {
    LineCableConnection q;
    q.line_structure = &f.stand[k.stand];
    q.index_attachment = k.attachment;
    return q;
  };
  const int n = static_cast<int>(c.Int(1, 16));
  int changed = 0, refused = 0;
  for (int j = 0; j < n; j++) {
    const Con k = {static_cast<size_t>(c.Int(0, size - 1)), static_cast<int>(c.Int(-1, 3))};
    const int index = static_cast<int>(c.Int(-1, static_cast<int64_t>(ref.size())));
    const bool has = index >= 0 && index < static_cast<int>(ref.size());
    int got = 0, expected = 0;
    switch (c.Int(0, 6)) {
      case 0: case 1: case 2:
        c.Note(Cat("connect at ", station[k.stand]));
        got = cable.AddConnection(make(k));
        expected = add(k);
        break;
      case 3:
        c.Note(Cat("delete ", index));
        got = cable.DeleteConnection(index) ? 0 : -1;
        expected = has ? 0 : -1;
        if (has) ref.erase(ref.begin() + index);
        break;
      case 4: {
        c.Note(Cat("modify ", index, " to ", station[k.stand]));
        got = cable.ModifyConnection(index, make(k));
        expected = -1;
        if (has) {
          const std::vector<Con> before = ref;
          ref.erase(ref.begin() + index);
          expected = add(k);
          if (expected == -1) ref = before;
        }
        break;
      }
      case 5:
        if (c.Bool()) {
          // no structure, with or without an attachment
          LineCableConnection q;
          if (c.Bool()) q.index_attachment = 0;
          const bool modify = c.Bool();
          c.Note(Cat(modify ? "modify " : "connect ", index, " to no structure"));
          got = modify ? cable.ModifyConnection(index, q) : cable.AddConnection(q);
          expected = -1;
        } else {
          const LineCable copy = cable;
          cable.ClearConnections();
          Check(c, cable.connections()->empty(), "cleared");
          cable = copy;
        }
        break;
      default: {
        LineCable copy = cable;
        copy.ClearConnections();
        copy.AddConnection(make(k));
      }
    }
    if (expected == -1) refused++; else changed++;
    Check(c, got == expected, Cat("returned ", got, ", expected ", expected));
    Check(c, cable.connections()->size() == ref.size(), Cat(cable.connections()->size(), " connections, expected ", ref.size()));
    size_t i = 0;
    for (const LineCableConnection& q : *cable.connections()) {
      Check(c, q.line_structure == &f.stand[ref[i].stand] && q.index_attachment == ref[i].attachment, Cat("connection ", i));
      i++;
    }
    // dead-ends at both ends, suspension in between, one string per connection
    bool valid = ref.size() >= 2;
    for (size_t q = 0; q < ref.size() && valid; q++) {
      const std::vector<int>& h = hard[ref[q].stand];
      const int a = ref[q].attachment;
      if (a < 0 || a >= static_cast<int>(h.size())) valid = false;
      else if (h[static_cast<size_t>(a)] != (q == 0 || q + 1 == ref.size() ? 0 : 1)) valid = false;
    }
    std::list<ErrorMessage> m;
    Check(c, cable.ValidateConnections(c.Bool(), &m) == valid, Cat("connection verdict should be ", valid));
    Check(c, m.empty() == valid && cable.ValidateConnections(true, nullptr) == valid, "messages go with the connection verdict");
  }
  c.NonTrivial(changed > 1 && refused > 0);
}

void LawHardware(Case& c) {
  Fixture f;
  LineStructure s;
  std::vector<const Hardware*> ref;
  const Structure* st = nullptr;
  Structure own = f.structure[1];  // changes its attachments
  const int n = static_cast<int>(c.Int(1, 16));
  int edits = 0;
  s.set_height_adjustment(0);
  s.set_offset(0);
  s.set_rotation(0);
  s.set_station(0);
  for (int j = 0; j < n; j++) {
    const int index = static_cast<int>(c.Int(-1, 4));
    const bool has = st != nullptr && index >= 0 && index < static_cast<int>(ref.size());
    switch (c.Int(0, 4)) {
      case 0:
        st = c.Chance(1, 5) ? nullptr : &f.structure[c.Int(0, 2)];
        if (c.Chance(1, 3)) {
          own = f.structure[c.Int(0, 2)];
          st = &own;
        }
        c.Note(Cat("structure with ", st ? st->attachments.size() : 0, " attachments"));
        s.set_structure(st);
        if (st) ref.resize(st->attachments.size(), nullptr); else ref.clear();
        edits++;
        break;
      case 1: case 2: {
        const Hardware* h = c.PickOf<const Hardware*>({&f.deadend, &f.suspension, &f.unset});
        c.Note(Cat("attach at ", index));
        s.AttachHardware(index, h);
        if (has) ref[static_cast<size_t>(index)] = h, edits++;
        break;
      }
      case 3:
        c.Note(Cat("detach at ", index));
        s.DetachHardware(index);
        if (has) ref[static_cast<size_t>(index)] = nullptr, edits++;
        break;
      default: {
        LineStructure copy(s);
        copy.DetachHardware(0);
        copy.set_structure(nullptr);
        copy = s;
        s = copy;
      }
    }
    Check(c, *s.hardwares() == ref, "hardware at every attachment");
    Check(c, s.structure() == st, "structure reads back");
    bool valid = st != nullptr;
    for (const Hardware* h : ref) valid = valid && h != &f.unset;
    std::list<ErrorMessage> m;
    Check(c, s.Validate(c.Bool(), &m) == valid && m.empty() == valid && s.Validate(true, nullptr) == valid, Cat("verdict should be ", valid));
  }
  c.NonTrivial(edits > 2);
  const double a = c.Real(0, 20, 1), b = c.Real(-20, 20, 2), r = c.Real(-360, 360, 3), t = c.Real(0, 900, 4);
  s.set_height_adjustment(a);
  s.set_offset(b);
  s.set_rotation(r);
  s.set_station(t);
  Check(c, s.height_adjustment() == a && s.offset() == b && s.rotation() == r && s.station() == t, "values read back");
}

struct Span {
  Cable cable;
  WeatherLoadCase weather;
  CableConstraint constraint;
  Vector3d spacing;
  double H, wy, wz;
};
typedef CableConstraint::LimitType Limit;
const Limit kLimits[5] = {Limit::kHorizontalTension, Limit::kCatenaryConstant, Limit::kLength, Limit::kSag, Limit::kSupportTension};

void GenSpan(Case& c, Span& s, int kind) {
  s.cable.diameter = c.LogReal(0.02, 0.2, 0.1);
  s.cable.weight_unit = c.LogReal(0.2, 5, 1);
  s.cable.area_physical = 0.01;
  s.weather.temperature_cable = 0;
  s.weather.thickness_ice = c.Bool() ? 0 : c.Real(0, 0.1, 0.05);
  s.weather.density_ice = 57.3;
  s.weather.pressure_wind = c.Bool() ? 0 : c.Real(0, 40, 8);
  const double a = c.Bool() ? 1200 : c.LogReal(100, 2500, 1000);
  const double b = c.Bool() ? 0 : c.Real(-0.3, 0.3, 0.1) * a;
  s.spacing = Vector3d(a, 0, b);
  const double D = s.cable.diameter + 2 * s.weather.thickness_ice;
  s.wy = D * s.weather.pressure_wind;
  s.wz = s.cable.weight_unit + model::kPi / 4 * (D * D - s.cable.diameter * s.cable.diameter) * 57.3;
  const double w = std::hypot(s.wy, s.wz);
  s.H = std::hypot(a, b) / 2 * w * c.LogReal(1.01, 30, 5);
  const double y2 = b * s.wz / w;
  const Curve r(s.H, w, std::sqrt(a * a + b * b - y2 * y2), y2);
  s.constraint.case_weather = &s.weather;
  s.constraint.condition = c.PickOf<CableConditionType>({CableConditionType::kInitial, CableConditionType::kLoad, CableConditionType::kCreep});
  s.constraint.type_limit = kLimits[kind];
  switch (kind) {
    case 0: s.constraint.limit = s.H; break;
    case 1: s.constraint.limit = s.H / w; break;
    case 2: s.constraint.limit = static_cast<double>(r.len); break;
    case 3: s.constraint.limit = static_cast<double>(r.Sag(r.XSag())); break;
    default: s.constraint.limit = static_cast<double>(fmaxl(r.Tension(r.xl), r.Tension(r.xr)));
  }
}

// the constraint, whatever its kind, describes the same ruling span
void LawRulingSpan(Case& c) {
  Span s;
  const int kind = static_cast<int>(c.Int(0, 4));
  GenSpan(c, s, kind);
  c.Note(Cat("limit kind ", kind, " ", s.constraint.limit, " spacing (", s.spacing.x(), ", ", s.spacing.z(), ") load (", s.wy, ", ",
             s.wz, ") expects ", s.H));
  c.NonTrivial(kind != 0);
  LineCable cable;
  cable.set_cable(&s.cable);
  cable.set_constraint(s.constraint);
  cable.set_spacing_attachments_ruling_span(s.spacing);
  cable.set_weathercase_stretch_creep(&s.weather);
  cable.set_weathercase_stretch_load(&s.weather);
  const Catenary3d k = cable.CatenaryRulingSpan();
  CheckNear(c, "ruling span tension", k.tension_horizontal(), s.H, kind == 0 ? 0 : 0.011, 1e-9);
  CheckNear(c, "ruling span wind load", k.weight_unit().y(), s.wy, 0, 1e-12);
  CheckNear(c, "ruling span vertical load", k.weight_unit().z(), s.wz, 1e-13, 1e-11);
  Check(c, k.spacing_endpoints().x() == s.spacing.x() && k.spacing_endpoints().y() == 0 && k.spacing_endpoints().z() == s.spacing.z(),
        "ruling span spacing");
  Check(c, cable.cable() == &s.cable && cable.weathercase_stretch_creep() == &s.weather && cable.weathercase_stretch_load() == &s.weather &&
               cable.constraint().limit == s.constraint.limit && cable.constraint().type_limit == s.constraint.type_limit &&
               cable.constraint().condition == s.constraint.condition && cable.constraint().case_weather == &s.weather &&
               cable.spacing_attachments_ruling_span().x() == s.spacing.x(),
        "inputs read back");
  // asking again, or after an unrelated change and back, gives the same
  cable.set_spacing_attachments_ruling_span(Vector3d(777, 0, 7));
  cable.CatenaryRulingSpan();
  cable.set_spacing_attachments_ruling_span(s.spacing);
  Check(c, cable.CatenaryRulingSpan().tension_horizontal() == k.tension_horizontal(), "the same again");
}

void LawValidity(Case& c) {
  Fixture f;
  Span s;
  GenSpan(c, s, static_cast<int>(c.Int(0, 4)));
  for (int i = 0; i < 2; i++) {
    LineStructure l;
    l.set_station(1000 * i);
    l.set_structure(&f.structure[0]);
    l.AttachHardware(0, &f.deadend);
    f.stand.push_back(l);
  }
  LineCable cable;
  cable.set_cable(&s.cable);
  cable.set_weathercase_stretch_creep(&s.weather);
  cable.set_weathercase_stretch_load(&s.weather);
  for (int i = 0; i < 2; i++) {
    LineCableConnection q;
    q.line_structure = &f.stand[static_cast<size_t>(i)];
    q.index_attachment = 0;
    cable.AddConnection(q);
  }
  WeatherLoadCase unset;
  Cable nocable;
  bool valid = false;
  const int what = static_cast<int>(c.Int(0, 19));
  bool constraint_ok = true;
  switch (what) {
    case 1: cable.set_cable(nullptr); break;
    case 2: cable.set_cable(&nocable); break;
    case 3: cable.set_weathercase_stretch_creep(nullptr); break;
    case 4: cable.set_weathercase_stretch_load(nullptr); break;
    case 5: cable.set_weathercase_stretch_creep(&unset); break;
    case 6: cable.set_weathercase_stretch_load(&unset); break;
    case 7: s.constraint.case_weather = nullptr; constraint_ok = false; break;
    case 8: s.constraint.condition = CableConditionType::kNull; constraint_ok = false; break;
    case 9: s.constraint.limit = c.PickOf<double>({-1, -999999}); constraint_ok = false; break;
    case 10: s.constraint.type_limit = Limit::kNull; constraint_ok = false; break;
    case 11: s.constraint.case_weather = &unset; constraint_ok = false; break;
    case 12: s.spacing.set_x(c.PickOf<double>({0, -1, -999999})); break;
    case 13: s.spacing.set_y(c.PickOf<double>({1, -1})); break;
    case 14: s.spacing.set_z(c.PickOf<double>({2000.5, -3000})); break;
    case 15: cable.DeleteConnection(c.Int(0, 1)); break;
    case 16: f.stand[1].DetachHardware(0); break;
    case 18: {
      // limits that no cable in this span meets
      const double chord = std::hypot(s.spacing.x(), s.spacing.z()), w = std::hypot(s.wy, s.wz);
      if (c.Bool()) {
        s.constraint.type_limit = Limit::kLength;
        s.constraint.limit = chord * c.PickOf<double>({0.99, 0.5, 0.01, 0.999});
      } else {
        s.constraint.type_limit = Limit::kSupportTension;
        s.constraint.limit = w * chord * c.PickOf<double>({0.4, 0.1, 0.01});
      }
      break;
    }
    case 19: 
      // a sag is met within a tolerance
      if (s.constraint.type_limit == Limit::kSag) c.Reject();
      s.constraint.limit = 0;
      break;
    case 17: f.stand[0].AttachHardware(0, &f.suspension); break;
    default: valid = true;
  }
  cable.set_constraint(s.constraint);
  cable.set_spacing_attachments_ruling_span(s.spacing);
  c.Note(Cat("change ", what));
  c.NonTrivial(!valid);
  std::list<ErrorMessage> m;
  Check(c, cable.Validate(c.Bool(), &m) == valid, Cat("line cable verdict should be ", valid));
  Check(c, m.empty() == valid && cable.Validate(true, nullptr) == valid, "messages go with the line cable verdict");
  std::list<ErrorMessage> q;
  Check(c, s.constraint.Validate(c.Bool(), &q) == constraint_ok && q.empty() == constraint_ok, "constraint verdict");
  // hardware and structures
  Hardware h = f.deadend;
  const int hw = static_cast<int>(c.Int(0, 4));
  if (hw == 1) h.area_cross_section = -1;
  if (hw == 2) h.length = -1;
  if (hw == 3) h.weight = -1;
  if (hw == 4) h.type = Hardware::HardwareType::kNull;
  std::list<ErrorMessage> n;
  Check(c, h.Validate(c.Bool(), &n) == (hw == 0) && n.empty() == (hw == 0), "hardware verdict");
  Structure st = f.structure[2];
  const int sw = static_cast<int>(c.Int(0, 5));
  bool ok = sw == 0 || sw == 5;
  if (sw == 1) st.height = c.PickOf<double>({0, -1});
  if (sw == 2) st.attachments.clear();
  if (sw == 3) st.attachments[static_cast<size_t>(c.Int(0, 2))].offset_vertical_top = -0.5;
  if (sw == 4) st.attachments[static_cast<size_t>(c.Int(0, 2))].offset_vertical_top = 50.5;
  if (sw == 5) st.attachments[static_cast<size_t>(c.Int(0, 2))].offset_vertical_top = 50;
  std::list<ErrorMessage> k;
  Check(c, st.Validate(c.Bool(), &k) == ok, Cat("structure verdict should be ", ok));
  Check(c, k.empty() == ok && st.Validate(true, nullptr) == ok, "messages go with the structure verdict");
  LineStructure l = f.stand[1];
  l.AttachHardware(0, &f.deadend);
  l.set_height_adjustment(0);
  l.set_offset(-5);
  l.set_rotation(10);
  const int lw = static_cast<int>(c.Int(0, 5));
  if (lw == 1) l.set_height_adjustment(-0.1);
  if (lw == 2) l.set_rotation(c.PickOf<double>({360.1, -361}));
  if (lw == 3) l.set_station(-1);
  if (lw == 4) l.set_structure(&st);
  if (lw == 5) l.set_rotation(-360);
  const bool lok = lw == 0 || lw == 5 || (lw == 4 && ok);
  std::list<ErrorMessage> o;
  Check(c, l.Validate(c.Bool(), &o) == lok && o.empty() == lok, Cat("line structure verdict should be ", lok));
}

}  // namespace

Property vp::MakeProperty() {
  return {"P11",
          {"structures and hardware outlive the cables that refer to them"},
          {{"connections", "at least one refused edit and two accepted ones", 80000, 1500000, LawConnections},
           {"hardware", "at least three edits", 80000, 1500000, LawHardware},
           {"ruling-span", "the limit is not the horizontal tension itself", 60000, 1500000, LawRulingSpan},
           {"validity", "one input out of range", 60000, 1000000, LawValidity}},
          {}};
}
