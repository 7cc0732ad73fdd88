// P19: design stretch, reloaded and unloaded states of a line cable.
#include "history.h"
#include "models/sagtension/catenary_cable_unloader.h"
#include "models/sagtension/catenary_cable_reloader.h"
#include "linesag.h"
#include "models/sagtension/line_cable_reloader.h"
#include "models/sagtension/line_cable_unloader.h"

using namespace vp;
using namespace sag;

namespace {

// checks the stretch loads the library found; fills the reference model
LineModel Stretches(Case& c, const LineWorld& w, const CableStretchState& creep, const CableStretchState& load) {
  LineModel r;
  CableConstraint k = w.line.constraint();
  Span s = w.Loaded(w.line.spacing_attachments_ruling_span(), *k.case_weather);
  double H = w.line.CatenaryRulingSpan().tension_horizontal();
  model::Curve curve = s.At(H);
  r.H = H;
  r.T = curve.TensionSampled();
  r.length = curve.len;
  if (!(creep.load >= 0) || !(load.load >= 0)) {
    if (!Beyond(w)) c.Fail(Cat("no stretch loads: ", creep.load, " ", load.load));
    return r;
  }
  for (int i = 0; i < 2; i++) {
    const CableStretchState& x = i == 0 ? creep : load;
    Check(c, x.temperature == w.weathers[i]->temperature_cable, "stretch at another temperature than its weather case");
    Check(c, x.type_polynomial == (i == 0 ? kCreep : kLoadStrain), "stretch on the wrong polynomial");
  }
  r.creep = creep;
  r.load = load;
  if (!ElongationIn(w, k.case_weather->temperature_cable, k.condition, creep, load, &r.constraint)) return r;
  for (int i = 0; i < 2; i++) {
    CompositeCurve at;
    if (!ElongationAtStretch(w, i == 0, &at)) return r;
    Reload x = Solve(r.length, r.T, r.constraint, w.Loaded(w.line.spacing_attachments_ruling_span(), *w.weathers[i]), at);
    if (!x.ok || x.tol_average > 0.02 * static_cast<double>(x.T) + 1) return r;
    CheckNear(c, i == 0 ? "creep stretch load" : "load stretch load", i == 0 ? creep.load : load.load, static_cast<double>(x.T),
              0.051 + 2 * x.tol_average, 0);
  }
  r.ok = true;
  return r;
}

// a line close to one where the search for the stretch once left the polynomials
void Taut(Case& c, LineWorld* w) {
  auto near = [&](double x) { return c.Chance(1, 3) ? x * c.Real(0.999, 1.001, 1) : x; };
  Component* m = w->m.part;
  double j = near(1);
  m[0].poly[0] = Fixed(j, 45.031043057232054, 34620.649882342826, 11665.430334575607, -69212.043927794963, 44302.515354267911);
  m[0].poly[1] = Fixed(j, -66.255865899494282, 36932.147818637299, 3822.4758651193092, -43704.969666141165, 26666.790933170199);
  m[1].poly[0] = Fixed(j, -506.24711645275886, 19910.528110884683, -17508.82785907888, 5106.1451999043875, 0);
  m[1].poly[1] = Fixed(j, -1127.1618066394944, 41172.628231461982, -13013.375766613468, -34955.954527753092, 28505.20657912047);
  const double limit[2][2] = {{21421.773901068816, 18312.6241766077}, {7001.7841822164801, 18818.863073423778}};
  const double tension[2] = {4244964.5684524477, 5947102.689606566}, compression[2] = {0, 139385.21928765389};
  for (int i = 0; i < 2; i++) {
    CableComponent& b = m[i].base;
    Publish(&m[i]);
    b.capacity_heat = 100;
    b.scale_polynomial_x = 0.01;
    b.scale_polynomial_y = 1;
    b.load_limit_polynomial_creep = limit[i][0] * j;
    b.load_limit_polynomial_loadstrain = limit[i][1] * j;
    b.modulus_tension_elastic_area = near(tension[i] * j);
    b.modulus_compression_elastic_area = compression[i] * j;
    b.coefficient_expansion_linear_thermal = 6.4e-6 * (i + 1);
    w->m.on[i] = true;
  }
  w->m.ref = 70;
  FillCable(w->m, &w->cable);
  w->cable.strength_rated = 37131.487250031481;
  w->cable.weight_unit = near(1.5148291060916526);
  w->cable.diameter = 0.10861126215182132;
  WeatherLoadCase* cold = w->weathers[0].get();
  WeatherLoadCase* ice = w->weathers[1].get();
  *cold = WeatherLoadCase();
  cold->thickness_ice = cold->density_ice = cold->pressure_wind = 0;
  *ice = *cold;
  cold->temperature_cable = near(-18.158159978099725);
  ice->temperature_cable = near(0.87085825958625784);
  ice->thickness_ice = 0.0003454923854904735;
  ice->density_ice = 53.996928364704658;
  w->ruling.a = near(745);
  w->ruling.b = near(143.37742476613005);
  w->line.set_cable(&w->cable);
  w->line.set_spacing_attachments_ruling_span(Vector3d(w->ruling.a, 0, w->ruling.b));
  CableConstraint k;
  k.case_weather = ice;
  k.condition = Cond::kCreep;
  k.note = "taut";
  k.type_limit = CableConstraint::LimitType::kHorizontalTension;
  k.limit = near(11549.915822970557);
  w->line.set_constraint(k);
  c.Note(Cat("taut ", Text(m[0]), " ", Text(m[1]), " weight ", w->cable.weight_unit, " ", Text(*cold), " ", Text(*ice)));
}

void Reloaded(Case& c) {
  auto w = GenLine(c, 2);
  if (c.Chance(1, 20)) Taut(c, w.get());
  else w->line.set_constraint(GenConstraint(c, *w, static_cast<int>(c.PickOf<int>({2, 0, 1})), true));
  int ir = static_cast<int>(c.PickOf<int>({3, 0, 1, 2}));
  Cond cond = c.PickOf<Cond>({Cond::kInitial, Cond::kCreep, Cond::kLoad});
  c.Note(Cat(Text(w->ruling), " ", Text(w->line.constraint()), " reloaded to ", Name(cond), " ", Text(*w->weathers[ir])));
  LineCableReloader lib;
  lib.set_line_cable(&w->line);
  lib.set_condition_reloaded(cond);
  lib.set_weathercase_reloaded(w->weathers[ir].get());
  CableStretchState creep = lib.StretchStateCreep(), load = lib.StretchStateLoad();
  double H = lib.TensionHorizontal();
  if (H == -999999) {
    // the stretches are reported for reloaded states with a solution
    lib.set_condition_reloaded(w->line.constraint().condition);
    lib.set_weathercase_reloaded(w->line.constraint().case_weather);
    creep = lib.StretchStateCreep();
    load = lib.StretchStateLoad();
    lib.set_condition_reloaded(cond);
    lib.set_weathercase_reloaded(w->weathers[ir].get());
  }
  LineModel r = Stretches(c, *w, creep, load);
  if (!r.ok) c.Reject();
  Span to = w->Loaded(w->line.spacing_attachments_ruling_span(), *w->weathers[ir]);
  CompositeCurve at;
  if (!ElongationIn(*w, w->weathers[ir]->temperature_cable, cond, creep, load, &at)) c.Reject();
  Reload x = Solve(r.length, r.T, r.constraint, to, at);
  if (!x.ok || x.H < 1.05L * to.HMin() || x.tol > 0.02 * static_cast<double>(x.H) + 1) c.Reject();
  if (fabsl(to.At(x.H).len - to.At(x.H + 0.02L).len) > 0.05L) c.Reject();
  c.NonTrivial(w->line.constraint().condition != cond && fabsl(x.H - r.H) > 10 * x.tol);
  if (c.Chance(1, 4)) {
    std::list<ErrorMessage> m;
    bool ok = lib.Validate(false, &m);
    std::string t;
    for (auto& e : m) t += e.title + ": " + e.description + "; ";
    Check(c, ok && m.empty(), "a line cable reloader with a solution isn't valid: " + t);
  }
  CheckNear(c, "reloaded horizontal tension", H, static_cast<double>(x.H), 2 * x.tol, 0);
  Catenary3d cat = lib.CatenaryReloaded();
  Check(c, cat.tension_horizontal() == H, "the reloaded catenary has another tension");
  CheckNear(c, "reloaded transverse load", cat.weight_unit().y(), to.wy, 1e-12, 1e-12);
  CheckNear(c, "reloaded vertical load", cat.weight_unit().z(), to.wz, 1e-12, 1e-12);
  Check(c, cat.spacing_endpoints().x() == to.a && cat.spacing_endpoints().z() == to.b, "the reloaded catenary has other ends");
  CableState st = lib.StateReloaded();
  Check(c, st.temperature == w->weathers[ir]->temperature_cable && st.type_polynomial == kLoadStrain, "reloaded state");
  // share of the parts
  double T = cat.TensionAverage();
  R e = at.Strain(T);
  double sum = 0, sumH = 0;
  for (int i = 0; i < 2; i++) {
    auto part = i == 0 ? CableElongationModel::ComponentType::kCore : CableElongationModel::ComponentType::kShell;
    double avg = lib.TensionAverageComponent(part), hor = lib.TensionHorizontalComponent(part);
    CheckNear(c, "average tension of a part", avg, at.on[i] ? static_cast<double>(at.k[i].Load(e)) : 0, 2 * at.tol + 0.03, 1e-9);
    CheckNear(c, "horizontal tension of a part", hor, avg * H / T, 1e-9, 1e-12);
    sum += avg;
    sumH += hor;
  }
  CheckNear(c, "average tension of all parts", sum, T, 0.0102, 0);
  CheckNear(c, "horizontal tension of all parts", sumH, H, 0.0102, 0);
}

// in its own conditions the constraint holds; stretch only lowers tensions
void Same(Case& c) {
  auto w = GenLine(c, 1);
  CableConstraint k = GenConstraint(c, *w, static_cast<int>(c.PickOf<int>({2, 0, 1})), true);
  w->line.set_constraint(k);
  c.Note(Cat(Text(w->ruling), " ", Text(k)));
  LineCableReloader lib;
  lib.set_line_cable(&w->line);
  lib.set_condition_reloaded(k.condition);
  lib.set_weathercase_reloaded(k.case_weather);
  double H = lib.TensionHorizontal();
  if (Beyond(*w)) c.Reject();
  LineModel r = Stretches(c, *w, lib.StretchStateCreep(), lib.StretchStateLoad());
  if (!r.ok) c.Reject();
  Span s = w->Loaded(w->line.spacing_attachments_ruling_span(), *k.case_weather);
  Reload x = Solve(r.length, r.T, r.constraint, s, r.constraint);
  if (!x.ok || x.tol > 0.02 * static_cast<double>(x.H) + 1) c.Reject();
  c.NonTrivial(k.condition != Cond::kInitial);
  Catenary3d cat = lib.CatenaryReloaded();
  double got = k.type_limit == CableConstraint::LimitType::kHorizontalTension ? H
             : k.type_limit == CableConstraint::LimitType::kCatenaryConstant ? cat.Constant() * s.W() : cat.TensionMax();
  double limit = k.type_limit == CableConstraint::LimitType::kCatenaryConstant ? k.limit * s.W() : k.limit;
  CheckNear(c, "limit in the conditions of the constraint", got, limit, std::min(0.3 * x.tol, 1.0) + 0.05, 1e-6);
  // stretched cables hang lower than new ones
  WeatherLoadCase& other = *w->weathers[c.Int(0, 2)];
  lib.set_weathercase_reloaded(&other);
  double h[3];
  int i = 0;
  for (Cond t : {Cond::kInitial, Cond::kCreep, Cond::kLoad}) {
    lib.set_condition_reloaded(t);
    CompositeCurve at;
    bool usable = ElongationIn(*w, other.temperature_cable, t, r.creep, r.load, &at);
    h[i++] = usable ? lib.TensionHorizontal() : -999999;
  }
  double slack = 0.03 + 0.3 * x.tol;
  if (h[0] != -999999 && h[1] != -999999 && h[1] > h[0] + slack) c.Fail(Cat("after creep the tension rises from ", h[0], " to ", h[1]));
  if (h[0] != -999999 && h[2] != -999999 && h[2] > h[0] + slack) c.Fail(Cat("after the load the tension rises from ", h[0], " to ", h[2]));
}

void Unloaded(Case& c) {
  auto w = GenLine(c, 1);
  w->line.set_constraint(GenConstraint(c, *w, static_cast<int>(c.PickOf<int>({2, 0, 1})), true));
  Cond cond = c.PickOf<Cond>({Cond::kInitial, Cond::kCreep, Cond::kLoad});
  double temperature = c.Real(-40, 120, 60);
  Vector3d spacing(c.Real(50, 2000, 1000), 0, 0);
  spacing.set_z(c.Bool() ? 0 : c.Real(-0.3, 0.3, 0.1) * spacing.x());
  c.Note(Cat(Text(w->ruling), " ", Text(w->line.constraint()), " unloaded ", Name(cond), " at ", temperature, " span ", spacing.x(), " ", spacing.z()));
  LineCableUnloader lib;
  lib.set_line_cable(&w->line);
  lib.set_condition_unloaded(cond);
  lib.set_temperature_unloaded(temperature);
  lib.set_spacing_attachments(spacing);
  CableStretchState creep = lib.StretchStateCreep(), load = lib.StretchStateLoad();
  double length = lib.LengthUnloaded();
  Span s = w->Loaded(spacing, *w->line.constraint().case_weather);
  if (w->line.CatenaryRulingSpan().tension_horizontal() < 1.01L * s.HMin() || Beyond(*w)) c.Reject();
  LineModel r = Stretches(c, *w, creep, load);
  if (!r.ok) c.Reject();
  CompositeCurve at;
  if (!ElongationIn(*w, temperature, cond, creep, load, &at)) c.Reject();
  model::Curve k = s.At(r.H);
  R T = k.TensionSampled(), e0 = r.constraint.Strain(T), e1 = at.Strain(0);
  if (r.constraint.Slope(e0 + 1e-6L) < 1000 || at.Slope(e1 + 1e-6L) < 1000) c.Reject();
  double len = static_cast<double>(k.len);
  double tol = 1.3 * len * (StrainTolerance(r.constraint, T) + StrainTolerance(at, 0) + static_cast<double>(fabsl(T - k.TensionMean()) / r.constraint.Slope(e0 + 1e-6L))) + 1e-8 * len;
  if (tol > 1e-3 * len) c.Reject();
  c.NonTrivial(cond != Cond::kInitial && w->line.constraint().condition != cond);
  if (c.Chance(1, 4)) {
    std::list<ErrorMessage> m;
    Check(c, lib.Validate(false, &m) && m.empty(), "a line cable unloader with a solution isn't valid");
  }
  CheckNear(c, "unloaded length", length, static_cast<double>(Strained(k.len, e0, e1)), tol, 0);
}

// edits, queries and copies in any order
template <typename T>
struct Driver;
template <>
struct Driver<LineCableReloader> {
  static void Edit(Case& c, LineCableReloader* l, const LineWorld& w, Cond* cond, double* x, int kind) {
    if (kind == 0) l->set_condition_reloaded(*cond = c.PickOf<Cond>({Cond::kInitial, Cond::kCreep, Cond::kLoad}));
    if (kind == 1) { *x = static_cast<double>(c.Int(0, 2)); l->set_weathercase_reloaded(w.weathers[static_cast<size_t>(*x)].get()); }
  }
  static void All(LineCableReloader* l, const LineWorld& w, Cond cond, double x) {
    l->set_condition_reloaded(cond);
    l->set_weathercase_reloaded(w.weathers[static_cast<size_t>(x)].get());
  }
  static double Ask(const LineCableReloader& l) { return l.TensionHorizontal(); }
  static double Ask2(const LineCableReloader& l) { return l.TensionAverageComponent(CableElongationModel::ComponentType::kCore); }
};
template <>
struct Driver<LineCableUnloader> {
  static void Edit(Case& c, LineCableUnloader* l, const LineWorld&, Cond* cond, double* x, int kind) {
    if (kind == 0) l->set_condition_unloaded(*cond = c.PickOf<Cond>({Cond::kInitial, Cond::kCreep, Cond::kLoad}));
    if (kind == 1) l->set_temperature_unloaded(*x = c.Real(0, 100, 60));
    if (kind == 2) l->set_spacing_attachments(Vector3d(*x = static_cast<double>(c.Int(300, 900)), 0, 0)), l->set_temperature_unloaded(*x / 10);
  }
  static void All(LineCableUnloader* l, const LineWorld&, Cond cond, double x) {
    l->set_condition_unloaded(cond);
    l->set_temperature_unloaded(x > 100 ? x / 10 : x);
    l->set_spacing_attachments(Vector3d(x > 100 ? x : 500, 0, 0));
  }
  static double Ask(const LineCableUnloader& l) { return l.LengthUnloaded(); }
  static double Ask2(const LineCableUnloader& l) { return l.StretchStateLoad().load; }
};

template <typename T>
void History(Case& c) {
  auto w = GenLine(c, 1);
  w->line.set_constraint(GenConstraint(c, *w, 2, true));
  LineCable other = w->line;
  other.set_constraint(GenConstraint(c, *w, static_cast<int>(c.PickOf<int>({2, 0, 1})), true));
  LineCable* lines[2] = {&w->line, &other};
  typedef Driver<T> D;
  Cond cond = Cond::kInitial;
  double x = 0;
  int il = 0;
  std::unique_ptr<T> lib(new T()), source;
  lib->set_line_cable(lines[0]);
  D::All(lib.get(), *w, cond, x);
  int n = static_cast<int>(c.Int(1, 7)), asked = 0, edits = 0;
  for (int i = 0; i < n; i++) {
    int kind = static_cast<int>(c.Int(0, 6));
    c.Note(Cat("step ", kind));
    switch (kind) {
      case 0: case 1: D::Edit(c, lib.get(), *w, &cond, &x, kind); if (x > 100) { D::All(lib.get(), *w, cond, x); } else D::All(lib.get(), *w, cond, x); edits += asked > 0; break;
      case 2: il = static_cast<int>(c.Int(0, 1)); lib->set_line_cable(lines[il]); edits += asked > 0; break;
      case 3: {
        std::unique_ptr<T> copy(new T(*lib));
        if (c.Bool()) { lib = std::move(copy); }
        else { std::unique_ptr<T> target(new T()); target->set_line_cable(lines[1]); D::All(target.get(), *w, Cond::kInitial, 0); D::Ask(*target); *target = *copy; lib = std::move(target); }
        edits += asked > 0;
        break;
      }
      case 4: { std::list<ErrorMessage> m; lib->Validate(c.Bool(), &m); asked++; break; }
      default: D::Ask(*lib); asked++; break;
    }
  }
  c.NonTrivial(edits > 0);
  T fresh;
  fresh.set_line_cable(lines[il]);
  D::All(&fresh, *w, cond, x);
  auto same = [&](const char* what, double a, double b) {
    if (!(a == b) && !(std::isnan(a) && std::isnan(b)) && !Near(a, b, 1e-9, 1e-12))
      c.Fail(Cat(what, " after edits: ", a, ", with the same inputs from scratch: ", b));
  };
  same("result", D::Ask(*lib), D::Ask(fresh));
  same("second result", D::Ask2(*lib), D::Ask2(fresh));
  same("creep stretch", lib->StretchStateCreep().load, fresh.StretchStateCreep().load);
}

// line cables whose parts can be changed in place
struct Parts {
  Cable cable;
  WeatherLoadCase creep, load, constraint;
  LineCable line;
  void Bind() {
    line.set_cable(&cable);
    line.set_weathercase_stretch_creep(&creep);
    line.set_weathercase_stretch_load(&load);
    CableConstraint k = line.constraint();
    k.case_weather = &constraint;
    line.set_constraint(k);
  }
  void Take(const Parts& p) {
    cable = p.cable;
    creep = p.creep;
    load = p.load;
    constraint = p.constraint;
    line = p.line;
    Bind();
  }
};

bool HasComponent(const CableComponent& k) {
  bool creep = false, load = false;
  for (double v : k.coefficients_polynomial_creep) creep = creep || v != 0;
  for (double v : k.coefficients_polynomial_loadstrain) load = load || v != 0;
  return creep && load;
}

template <typename T>
void LineSlot(Case& c, Histories<T>* h, const LineWorld& w) {
  auto parts = std::make_shared<std::vector<std::unique_ptr<Parts>>>();
  for (int i = 0; i < 4; i++) {
    parts->emplace_back(new Parts());
    Parts& p = *parts->back();
    p.cable = w.cable;
    p.creep = *w.weathers[0];
    p.load = *w.weathers[1];
    p.constraint = *w.weathers[2];
    p.line = w.line;
    if (i == 1) {
      switch (c.Int(0, 6)) {
        case 6: {  // one of the components comes or goes
          CableComponent* part = c.Bool() ? &p.cable.component_core : &p.cable.component_shell;
          CableComponent* other = part == &p.cable.component_core ? &p.cable.component_shell : &p.cable.component_core;
          if (!HasComponent(*other)) std::swap(part, other);
          if (HasComponent(*part)) {
            part->coefficients_polynomial_creep.assign(5, 0);
            part->coefficients_polynomial_loadstrain.assign(5, 0);
          } else {
            const double c0 = part->coefficient_expansion_linear_thermal;
            *part = *other;
            part->coefficient_expansion_linear_thermal = c0;
          }
          break;
        }
        case 0: p.cable.weight_unit *= 1.05; break;
        case 1: p.load.temperature_cable += 20; break;
        case 2: p.load.thickness_ice *= 0.5; p.load.pressure_wind += 1; break;
        case 3: p.creep.temperature_cable -= 20; break;
        case 4: p.constraint.temperature_cable += 20; break;
        default: p.cable.temperature_properties_components += 10; break;
      }
    }
    if (i == 2) {
      CableConstraint k = w.line.constraint();
      switch (c.Int(0, 2)) {
        case 0: p.line.set_spacing_attachments_ruling_span(Vector3d(w.ruling.a, 0, -w.ruling.b)); break;
        case 1: k.limit *= 1.05; p.line.set_constraint(k); break;
        default: k.condition = k.condition == Cond::kInitial ? Cond::kCreep : Cond::kInitial; p.line.set_constraint(k); break;
      }
    }
    p.Bind();
  }
  h->Pointer("line cable", 3, [parts](int v) { parts->back()->Take(*(*parts)[static_cast<size_t>(v)]); },
             [parts](T& o, int v, bool shared) { o.set_line_cable(&(*parts)[shared ? 3 : static_cast<size_t>(v)]->line); });
}

const Cond kConds[3] = {Cond::kInitial, Cond::kCreep, Cond::kLoad};

void ReloaderSequences(Case& c) {
  typedef LineCableReloader T;
  auto w = GenLine(c, 2);
  w->line.set_constraint(GenConstraint(c, *w, 2, true));
  Histories<T> h;
  LineSlot(c, &h, *w);
  h.Value("condition", 3, [](T& o, int v) { o.set_condition_reloaded(kConds[v]); });
  std::vector<WeatherLoadCase> weathers = {*w->weathers[3], *w->weathers[3], *w->weathers[1]};
  if (c.Bool()) weathers[1].temperature_cable = Related(c, weathers[0].temperature_cable, -30, 120);
  else weathers[1].pressure_wind = weathers[1].pressure_wind > 0 ? 0 : 4;
  h.Pointer<WeatherLoadCase>("weathercase", weathers, [](T& o, const WeatherLoadCase* k) { o.set_weathercase_reloaded(k); });
  h.Peek("tension", [](const T& o) { o.TensionHorizontal(); });
  h.Peek("stretch", [](const T& o) { o.StretchStateLoad(); });
  h.Peek("state", [](const T& o) { o.StateReloaded(); });
  h.Peek("part", [](const T& o) { o.TensionAverageComponent(CableElongationModel::ComponentType::kShell); });
  h.Peek("validate", [](const T& o) { std::list<ErrorMessage> m; o.Validate(true, &m); });
  h.Ask("tension", [](const T& o) { return static_cast<double>(o.TensionHorizontal()); });
  h.Ask("creep", [](const T& o) { return static_cast<double>(o.StretchStateCreep().load); });
  h.Ask("load", [](const T& o) { return static_cast<double>(o.StretchStateLoad().load); });
  h.Ask("creep temperature", [](const T& o) { return static_cast<double>(o.StretchStateCreep().temperature); });
  h.Ask("load temperature", [](const T& o) { return static_cast<double>(o.StretchStateLoad().temperature); });
  h.Ask("reloaded length", [](const T& o) { return static_cast<double>(o.CatenaryReloaded().Length()); });
  h.Ask("reloaded temperature", [](const T& o) { return static_cast<double>(o.StateReloaded().temperature); });
  h.Ask("reloaded polynomial", [](const T& o) { return static_cast<double>(o.StateReloaded().type_polynomial); });
  h.Ask("average of the core", [](const T& o) { return o.TensionAverageComponent(CableElongationModel::ComponentType::kCore); });
  h.Ask("average of the shell", [](const T& o) { return o.TensionAverageComponent(CableElongationModel::ComponentType::kShell); });
  h.Ask("horizontal of the core", [](const T& o) { return o.TensionHorizontalComponent(CableElongationModel::ComponentType::kCore); });
  h.Ask("horizontal of the shell", [](const T& o) { return o.TensionHorizontalComponent(CableElongationModel::ComponentType::kShell); });
  h.Run(c);
}

void UnloaderSequences(Case& c) {
  typedef LineCableUnloader T;
  auto w = GenLine(c, 1);
  w->line.set_constraint(GenConstraint(c, *w, 2, true));
  Histories<T> h;
  LineSlot(c, &h, *w);
  h.Value("condition", 3, [](T& o, int v) { o.set_condition_unloaded(kConds[v]); });
  double t = c.Real(0, 100, 60), a = c.Real(100, 1500, 500), b = c.Real(-0.2, 0.2, 0.1) * a;
  std::vector<double> temps = {t, Related(c, t, 0, 120), c.Real(0, 100, 60)};
  std::vector<Vector3d> spacings = {Vector3d(a, 0, b), Vector3d(a, 0, -b), Vector3d(Related(c, a, 50, 2000), 0, b), Vector3d(a, 0, b + 0.1 * a)};
  h.Value("temperature", 3, [=](T& o, int v) { o.set_temperature_unloaded(temps[static_cast<size_t>(v)]); });
  h.Value("spacing", 4, [=](T& o, int v) { o.set_spacing_attachments(spacings[static_cast<size_t>(v)]); });
  h.Peek("length", [](const T& o) { o.LengthUnloaded(); });
  h.Peek("stretch", [](const T& o) { o.StretchStateCreep(); });
  h.Peek("validate", [](const T& o) { std::list<ErrorMessage> m; o.Validate(true, &m); });
  h.Ask("length", [](const T& o) { return static_cast<double>(o.LengthUnloaded()); });
  h.Ask("creep", [](const T& o) { return static_cast<double>(o.StretchStateCreep().load); });
  h.Ask("load", [](const T& o) { return static_cast<double>(o.StretchStateLoad().load); });
  h.Run(c);
}

// any constraint and weather cases, whether the cable can carry them or not:
// what is accepted follows from the states of the parts, and what isn't is
// reported, and not returned
void Extremes(Case& c) {
  auto w = GenLine(c, 2);
  for (auto& x : w->weathers) {
    if (c.Chance(1, 4)) x->thickness_ice = c.Real(0, 0.4, 0.1);
    if (c.Chance(1, 4)) x->pressure_wind = c.Real(0, 80, 10);
    if (c.Chance(1, 4)) x->temperature_cable = c.Real(-50, 300, 60);
    if (x->thickness_ice > 0 && x->density_ice == 0) x->density_ice = 57.3;
  }
  w->ruling.a = c.Chance(1, 4) ? c.LogReal(5, 10000, 100) : w->ruling.a;
  w->ruling.b = c.Chance(1, 4) ? c.Real(-1.5, 1.5, 0.5) * w->ruling.a : w->ruling.b;
  w->line.set_spacing_attachments_ruling_span(Vector3d(w->ruling.a, 0, w->ruling.b));
  CableConstraint k;
  k.case_weather = w->weathers[static_cast<size_t>(c.PickOf<int>({2, 0, 1}))].get();
  k.condition = c.PickOf<Cond>({Cond::kInitial, Cond::kCreep, Cond::kLoad});
  k.type_limit = c.PickOf<CableConstraint::LimitType>({CableConstraint::LimitType::kHorizontalTension, CableConstraint::LimitType::kCatenaryConstant, CableConstraint::LimitType::kSupportTension});
  k.limit = w->cable.strength_rated * c.LogReal(0.005, 1.5, 0.2);
  if (k.type_limit == CableConstraint::LimitType::kCatenaryConstant) k.limit /= w->Loaded(Vector3d(w->ruling.a, 0, w->ruling.b), *k.case_weather).W();
  w->line.set_constraint(k);
  const Cond cond = c.PickOf<Cond>({Cond::kInitial, Cond::kCreep, Cond::kLoad});
  const WeatherLoadCase& to = *w->weathers[static_cast<size_t>(c.PickOf<int>({3, 0, 1, 2}))];
  const Vector3d spacing(c.Real(50, 2000, 1000), 0, c.Bool() ? 0 : c.Real(-500, 500, 100));
  for (const auto& x : w->weathers) c.Note(Text(*x));
  c.Note(Cat(Text(w->ruling), " ", Text(k), " to ", Name(cond), " ", Text(to), " span ", spacing.x(), " ", spacing.z()));

  LineCableReloader r;
  r.set_line_cable(&w->line);
  r.set_condition_reloaded(cond);
  r.set_weathercase_reloaded(&to);
  LineCableUnloader u;
  u.set_line_cable(&w->line);
  u.set_condition_unloaded(cond);
  u.set_temperature_unloaded(to.temperature_cable);
  u.set_spacing_attachments(spacing);
  if (c.Chance(1, 3)) { r.TensionHorizontal(); u.LengthUnloaded(); }
  std::list<ErrorMessage> mr, mu;
  const bool okr = r.Validate(false, &mr), oku = u.Validate(false, &mu);
  Check(c, okr == mr.empty() && oku == mu.empty(), "a verdict and its messages disagree");
  for (const auto* m : {&mr, &mu})
    for (const auto& e : *m) Check(c, !e.title.empty() && !e.description.empty(), "an empty message");
  auto own = [](const std::list<ErrorMessage>& m, const char* title) {
    for (const auto& e : m)
      if (e.title != title && e.title != "LINE CABLE LOADER BASE") return false;
    return true;
  };
  if (!okr && own(mr, "LINE CABLE RELOADER")) {
    const auto core = CableElongationModel::ComponentType::kCore;
    Check(c, r.TensionHorizontal() == -999999 && !r.CatenaryReloaded().Validate() && r.TensionAverageComponent(core) == -999999 && r.TensionHorizontalComponent(core) == -999999,
          "a reloaded state that was rejected is returned");
  }
  if (!oku && own(mu, "LINE CABLE UNLOADER")) Check(c, u.LengthUnloaded() == -999999, "an unloaded length that was rejected is returned");
  if (!own(mr, "LINE CABLE RELOADER")) return;
  const bool none = !okr && !oku;
  if (none && k.condition != Cond::kInitial) return;
  if (!none) c.NonTrivial(k.condition != Cond::kInitial || cond != Cond::kInitial);

  // the stretch of an accepted state
  const CableStretchState creep = okr ? r.StretchStateCreep() : u.StretchStateCreep(), load = okr ? r.StretchStateLoad() : u.StretchStateLoad();
  if (okr && oku) Check(c, creep.load == u.StretchStateCreep().load && load.load == u.StretchStateLoad().load, "the stretch of the reloader and the unloader differ");
  c.Note(Cat("stretch loads ", creep.load, " ", load.load));
  if (!none && !(creep.load >= 0 && std::isfinite(creep.load) && load.load >= 0 && std::isfinite(load.load))) c.Fail(Cat("accepted with stretch loads of ", creep.load, " and ", load.load));
  SagTensionCable cable;
  cable.set_cable_base(&w->cable);
  auto model = [&](double temperature, SagTensionCableComponent::PolynomialType type, Cond t, bool fresh) {
    CableElongationModel m;
    CableState s;
    s.temperature = temperature;
    s.type_polynomial = type;
    m.set_cable(&cable);
    m.set_state(s);
    m.set_state_stretch(fresh || t == Cond::kInitial ? NoStretch(0) : t == Cond::kCreep ? creep : load);
    return m;
  };
  auto weight = [&](const WeatherLoadCase& x) {
    const Span s = w->Loaded(Vector3d(w->ruling.a, 0, w->ruling.b), x);
    return Vector3d(0, s.wy, s.wz);
  };
  const CableElongationModel from = model(k.case_weather->temperature_cable, kLoadStrain, k.condition, false);
  const Catenary3d constraint = w->line.CatenaryRulingSpan();
  auto reload = [&](const CableElongationModel& at, const WeatherLoadCase& x, Catenary3d* out) {
    const Vector3d q = weight(x);
    CatenaryCableReloader lib;
    lib.set_catenary(&constraint);
    lib.set_model_reference(&from);
    lib.set_model_reloaded(&at);
    lib.set_weight_unit_reloaded(&q);
    if (!lib.Validate(false, nullptr)) return false;
    *out = lib.CatenaryReloaded();
    return true;
  };
  for (int i = 0; i < 2; i++) {
    const WeatherLoadCase& x = *w->weathers[static_cast<size_t>(i)];
    const CableElongationModel at = model(x.temperature_cable, i == 0 ? kCreep : kLoadStrain, Cond::kInitial, true);
    Catenary3d cat;
    const char* name = i == 0 ? "creep" : "load";
    const double got = i == 0 ? creep.load : load.load;
    if (!reload(at, x, &cat)) {
      if (none) return;
      c.Fail(Cat("accepted, but the ", name, " stretch can't be reached"));
    }
    if (!none) CheckNear(c, Cat(name, " stretch load").c_str(), got, cat.TensionAverage(), 0.051, 1e-6);
  }
  if (none && mr.front().title == "LINE CABLE LOADER BASE") c.Fail("no stretch states, though both can be reached");
  const CableElongationModel at = model(to.temperature_cable, kLoadStrain, cond, false);
  Catenary3d cat;
  if (none && cond != Cond::kInitial) return;
  const bool can = reload(at, to, &cat);
  if (can != okr) c.Fail(Cat("reloading is ", can ? "possible" : "impossible", " but ", okr ? "accepted" : "rejected"));
  if (okr) CheckNear(c, "reloaded horizontal tension", r.TensionHorizontal(), cat.tension_horizontal(), 0.01, 1e-6);
  Catenary3d span = constraint;
  span.set_spacing_endpoints(spacing);
  CatenaryCableUnloader lib;
  lib.set_catenary(&span);
  lib.set_model_reference(&from);
  lib.set_model_unloaded(&at);
  const bool lies = lib.Validate(false, nullptr);
  if (own(mu, "LINE CABLE UNLOADER") && lies != oku) c.Fail(Cat("unloading is ", lies ? "possible" : "impossible", " but ", oku ? "accepted" : "rejected"));
  if (oku) CheckNear(c, "unloaded length", u.LengthUnloaded(), lib.LengthUnloaded(), 1e-6, 1e-9);
}

}  // namespace

Property vp::MakeProperty() {
  Property p;
  p.id = "P19";
  p.assumptions = {"cable models as in P16; average tensions in the stretch cases below 80 percent of the sum of the polynomial limits",
                   "poorly conditioned reloads (over 2 percent of the tension) are rejected"};
  p.laws = {{"reloaded", "reloaded to another condition and the tension changes by ten times the tolerance", 3000, 60000, Reloaded},
            {"same", "the constraint is for a stretched condition", 2000, 40000, Same},
            {"unloaded", "unloaded in a stretched condition other than that of the constraint", 2000, 40000, Unloaded},
            {"reloader history", "an input changed, or the object was copied, after a query", 1500, 30000, History<LineCableReloader>},
            {"unloader history", "an input changed, or the object was copied, after a query", 1500, 30000, History<LineCableUnloader>},
            {"reloader sequences", "an input changed, or the object was copied, after a query", 1000, 20000, ReloaderSequences},
            {"unloader sequences", "an input changed, or the object was copied, after a query", 1000, 20000, UnloaderSequences},
            {"extremes", "a stretched state is accepted", 4000, 60000, Extremes}};
  return p;
}
