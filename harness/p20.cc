// P20: sagging a line cable to a set of design constraints.
#include "history.h"
#include "linesag.h"
#include "models/sagtension/line_cable_reloader.h"
#include "models/sagtension/line_cable_sagger.h"

using namespace vp;
using namespace sag;

namespace {

typedef CableConstraint::LimitType Limit;

std::string Text(const std::vector<CableConstraint>& v) {
  std::string s;
  for (const auto& k : v) s += sag::Text(k) + " ";
  return s;
}

struct Actual {
  double H, constant, support;
};
bool Reloaded(const LineCable& line, const CableConstraint& at, Actual* out) {
  LineCableReloader r;
  r.set_line_cable(&line);
  r.set_condition_reloaded(at.condition);
  r.set_weathercase_reloaded(at.case_weather);
  out->H = r.TensionHorizontal();
  if (out->H == -999999) return false;
  Catenary3d k = r.CatenaryReloaded();
  out->constant = k.Constant();
  out->support = k.TensionMax();
  return true;
}
double Value(const Actual& a, Limit t) {
  return t == Limit::kHorizontalTension ? a.H : t == Limit::kCatenaryConstant ? a.constant : a.support;
}

// A line cable of which the unstretched, stretched and design states can all
// be solved. Fills the horizontal tension of each design constraint at the
// conditions of the constraint of the line cable.
bool Solvable(const LineWorld& w, const std::vector<CableConstraint>& design, const LineCable& line,
              std::vector<double>* H) {
  LineWorld& v = const_cast<LineWorld&>(w);
  const CableConstraint own = line.constraint();
  H->clear();
  bool ok = true;
  for (const CableConstraint& k : design) {
    LineCable other = line;
    other.set_constraint(k);
    const CableConstraint saved = v.line.constraint();
    v.line.set_constraint(k);
    ok = ok && !Beyond(v);
    v.line.set_constraint(saved);
    Actual a;
    ok = ok && Reloaded(other, own, &a);
    if (!ok) return false;
    Span s = w.Loaded(w.ruling.a ? Vector3d(w.ruling.a, 0, w.ruling.b) : Vector3d(), *own.case_weather);
    if (a.H < 1.05 * s.HMin() || fabsl(s.At(a.H).len - s.At(a.H + 0.02).len) > 0.02L) return false;
    H->push_back(a.H);
  }
  return ok;
}

std::vector<CableConstraint> GenDesign(Case& c, const LineWorld& w, int n) {
  std::vector<CableConstraint> design;
  for (int i = 0; i < n; i++) design.push_back(GenConstraint(c, w, static_cast<int>(c.Int(0, static_cast<int>(w.weathers.size()) - 1)), true));
  return design;
}

// how well the values of a constraint are determined by the tension at the
// conditions of the line: change of value for a change of 0.01
void Sag(Case& c) {
  auto w = GenLine(c, 2);
  CableConstraint own = GenConstraint(c, *w, static_cast<int>(c.PickOf<int>({2, 0, 1})), true);
  own.note = "kept";
  w->line.set_constraint(own);
  int n = static_cast<int>(c.PickOf<int>({2, 3, 1, 4, 6, 11}));
  std::vector<CableConstraint> design = GenDesign(c, *w, n);
  c.Note(Cat(sag::Text(w->ruling), " line ", sag::Text(own), " design ", Text(design)));
  std::vector<double> H;
  if (!Solvable(*w, design, w->line, &H)) c.Reject();
  size_t low = 0;
  double second = 1e30;
  for (size_t i = 1; i < H.size(); i++)
    if (H[i] < H[low]) low = i;
  for (size_t i = 0; i < H.size(); i++)
    if (i != low) second = std::min(second, H[i]);
  // what the line cable becomes
  LineCable expected = w->line;
  {
    LineCable k = w->line;
    k.set_constraint(design[low]);
    Actual a;
    Reloaded(k, own, &a);
    CableConstraint q = own;
    q.limit = Value(a, own.type_limit);
    expected.set_constraint(q);
    LineWorld& v = *w;
    v.line.set_constraint(q);
    bool beyond = Beyond(v);
    v.line.set_constraint(own);
    if (beyond) c.Reject();
  }
  std::vector<Actual> actual(design.size());
  for (size_t i = 0; i < design.size(); i++)
    if (!Reloaded(expected, design[i], &actual[i])) c.Reject();
  c.NonTrivial(n > 1 && low > 0 && design[low].condition != own.condition);
  LineCable line = w->line;
  LineCableSagger lib;
  lib.set_constraints_design(&design);
  lib.set_line_cable(&line);
  int first = static_cast<int>(c.Int(0, 4));
  if (first == 1) lib.TensionSupportActual(0);
  if (first == 2) lib.CapacityAllowable(0);
  if (first == 3) {
    std::list<ErrorMessage> m;
    bool ok = lib.Validate(false, &m);
    std::string t;
    for (auto& e : m) t += e.title + ": " + e.description + "; ";
    Check(c, ok && m.empty(), "a sagger with a solution isn't valid: " + t);
  }
  const int index = lib.IndexConstraintControlling();
  if (index < 0 || index >= n) c.Fail(Cat("controlling constraint ", index, " of ", n));
  const size_t ic = static_cast<size_t>(index);
  if (H[ic] > H[low] + 1e-9 * H[low])
    c.Fail(Cat("constraint ", index, " controls with ", H[ic], ", constraint ", low, " allows only ", H[low]));
  // the line cable is changed in its limit only
  const CableConstraint now = line.constraint();
  Check(c, now.case_weather == own.case_weather && now.condition == own.condition && now.type_limit == own.type_limit && now.note == own.note,
        "the constraint of the line cable is changed in more than its limit");
  CheckNear(c, "limit of the sagged line cable", now.limit, expected.constraint().limit, 1e-6, 1e-9);
  CheckNear(c, "reported limit of the sagged line cable", lib.LimitConstraintSaggedLineCable(), now.limit, 0, 0);
  Check(c, line.cable() == w->line.cable() && line.connections()->size() == w->line.connections()->size() &&
               line.weathercase_stretch_creep() == w->line.weathercase_stretch_creep() &&
               line.weathercase_stretch_load() == w->line.weathercase_stretch_load(),
        "the line cable is changed in more than its constraint");
  const LineCable sagged = line;
  for (size_t i = 0; i < design.size(); i++) {
    const int k = static_cast<int>(i);
    CheckNear(c, Cat("horizontal tension at design constraint ", k).c_str(), lib.TensionHorizontalActual(k), actual[i].H, 1e-6, 1e-9);
    CheckNear(c, Cat("catenary constant at design constraint ", k).c_str(), lib.CatenaryConstantActual(k), actual[i].constant, 1e-6, 1e-9);
    CheckNear(c, Cat("support tension at design constraint ", k).c_str(), lib.TensionSupportActual(k), actual[i].support, 1e-6, 1e-9);
    const double use = lib.CapacityAllowable(k);
    CheckNear(c, Cat("use of design constraint ", k).c_str(), use, Value(actual[i], design[i].type_limit) / design[i].limit, 1e-9, 1e-9);
    // the promise: no design constraint is exceeded, and the controlling one
    // is used in full. The conditioning of the way back is measured.
    Actual plus;
    LineCable q = line;
    CableConstraint r = now;
    const double step = r.limit * 1e-4;
    r.limit += step;
    q.set_constraint(r);
    if (!Reloaded(q, design[i], &plus)) continue;
    Span s = w->Loaded(Vector3d(w->ruling.a, 0, w->ruling.b), *own.case_weather);
    double noise = r.type_limit == Limit::kCatenaryConstant ? 0.06 / s.W() : 0.06;
    double gain = std::fabs(Value(plus, design[i].type_limit) - Value(actual[i], design[i].type_limit)) / step;
    double value = Value(actual[i], design[i].type_limit);
    Span at = w->Loaded(Vector3d(w->ruling.a, 0, w->ruling.b), *design[i].case_weather);
    double floor = design[i].type_limit == Limit::kCatenaryConstant ? 0.06 / at.W() : 0.06;
    double slack = (3 * gain * noise + 3 * floor) / design[i].limit + 2e-3;
    if (slack > 0.03 || !(value > 0)) continue;
    if (use > 1 + slack) c.Fail(Cat("design constraint ", k, " is exceeded: used to ", use, ", slack ", slack));
    if (k == index && use < 1 - slack) c.Fail(Cat("controlling constraint ", k, " is used to ", use, " only, slack ", slack));
  }
  Check(c, line.constraint().limit == sagged.constraint().limit, "queries change the line cable again");
  // sagging the sagged line again keeps it
  LineCableSagger again;
  again.set_constraints_design(&design);
  again.set_line_cable(&line);
  again.IndexConstraintControlling();
  CheckNear(c, "limit after sagging again", line.constraint().limit, now.limit, 1e-6, 1e-9);
  (void)second;
}

// changed inputs, in any order with queries, and copies
void History(Case& c) {
  auto w = GenLine(c, 1);
  LineCable lines[2] = {w->line, w->line};
  for (int i = 0; i < 2; i++) lines[i].set_constraint(GenConstraint(c, *w, static_cast<int>(c.Int(0, 2)), true));
  std::vector<CableConstraint> design[2];
  for (auto& d : design) d = GenDesign(c, *w, static_cast<int>(c.Int(1, 3)));
  std::unique_ptr<LineCableSagger> lib(new LineCableSagger());
  int il = 0, id = 0;
  LineCable original[2] = {lines[0], lines[1]};
  lib->set_line_cable(&lines[0]);
  lib->set_constraints_design(&design[0]);
  int n = static_cast<int>(c.Int(1, 6)), asked = 0, edits = 0;
  for (int i = 0; i < n; i++) {
    int kind = static_cast<int>(c.Int(0, 6));
    c.Note(Cat("step ", kind));
    switch (kind) {
      case 6: {  // the line cable itself changes
        LineCable& l = original[il];
        CableConstraint k = l.constraint();
        Vector3d spacing = l.spacing_attachments_ruling_span();
        switch (c.Int(0, 3)) {
          case 0: l.set_weathercase_stretch_load(w->weathers[static_cast<size_t>(c.Int(0, 2))].get()); break;
          case 1: l.set_weathercase_stretch_creep(w->weathers[static_cast<size_t>(c.Int(0, 2))].get()); break;
          case 2: spacing.set_z(-spacing.z()); l.set_spacing_attachments_ruling_span(spacing); break;
          default: k.limit *= 1.02; l.set_constraint(k); break;
        }
        lines[il] = l;
        lib->set_line_cable(&lines[il]);
        edits += asked > 0;
        break;
      }
      case 0: lib->set_line_cable(&lines[il = static_cast<int>(c.Int(0, 1))]); edits += asked > 0; break;
      case 1: lib->set_constraints_design(&design[id = static_cast<int>(c.Int(0, 1))]); edits += asked > 0; break;
      case 2: {  // another design, in place
        design[id] = GenDesign(c, *w, static_cast<int>(c.Int(1, 3)));
        lib->set_constraints_design(&design[id]);
        edits += asked > 0;
        break;
      }
      case 3: lib.reset(new LineCableSagger(*lib)); edits += asked > 0; break;
      case 4: { std::list<ErrorMessage> m; lib->Validate(c.Bool(), &m); asked++; break; }
      default: lib->TensionHorizontalActual(0); asked++; break;
    }
  }
  c.NonTrivial(edits > 0);
  LineCable fresh_line = original[il];
  LineCableSagger fresh;
  fresh.set_line_cable(&fresh_line);
  fresh.set_constraints_design(&design[id]);
  auto same = [&](const char* what, double a, double b) {
    if (!(a == b) && !(std::isnan(a) && std::isnan(b)) && !Near(a, b, 1e-9, 1e-12))
      c.Fail(Cat(what, " after edits: ", a, ", with the same inputs from scratch: ", b));
  };
  same("controlling constraint", lib->IndexConstraintControlling(), fresh.IndexConstraintControlling());
  same("limit", lib->LimitConstraintSaggedLineCable(), fresh.LimitConstraintSaggedLineCable());
  if (fresh.LimitConstraintSaggedLineCable() != -999999) {
    for (int i = 0; i < static_cast<int>(design[id].size()); i++) {
      same("horizontal tension", lib->TensionHorizontalActual(i), fresh.TensionHorizontalActual(i));
      same("use", lib->CapacityAllowable(i), fresh.CapacityAllowable(i));
    }
    same("limit of the line cable", lines[il].constraint().limit, fresh_line.constraint().limit);
  }
}

// what is missing is reported
void Incomplete(Case& c) {
  auto w = GenLine(c, 0);
  w->line.set_constraint(GenConstraint(c, *w, 0, true));
  std::vector<CableConstraint> design = GenDesign(c, *w, static_cast<int>(c.Int(1, 3)));
  LineCableSagger lib;
  LineCable line = w->line;
  int missing = static_cast<int>(c.Int(0, 5));
  c.Note(Cat("missing ", missing));
  if (missing == 0) design.clear();
  if (missing == 4) design[static_cast<size_t>(c.Int(0, static_cast<int>(design.size()) - 1))].case_weather = nullptr;
  if (missing == 5) design[static_cast<size_t>(c.Int(0, static_cast<int>(design.size()) - 1))].condition = CableConditionType::kNull;
  if (missing != 1) lib.set_constraints_design(&design);
  if (missing == 3) line.set_cable(nullptr);
  if (missing != 2) lib.set_line_cable(&line);
  std::list<ErrorMessage> m;
  Check(c, !lib.Validate(c.Bool(), &m), "an incomplete sagger is valid");
  Check(c, !m.empty(), "an incomplete sagger is invalid without a message");
  Check(c, !lib.Validate(c.Bool()), "an incomplete sagger is valid without a list of messages");
  c.NonTrivial(missing > 0);
}

// any design, whether the cable can carry it or not, and any size of cable:
// decided by reloading each design constraint
void Extremes(Case& c) {
  auto w = GenLine(c, 2);
  for (auto& x : w->weathers) {
    if (c.Chance(1, 4)) x->thickness_ice = c.Real(0, 0.3, 0.1);
    if (c.Chance(1, 4)) x->pressure_wind = c.Real(0, 60, 10);
    if (x->thickness_ice > 0 && x->density_ice == 0) x->density_ice = 57.3;
  }
  const double size = c.Chance(1, 3) ? c.LogReal(0.1, 1000, 1) : 1;
  if (size != 1) {
    for (CableComponent* b : {&w->cable.component_core, &w->cable.component_shell}) {
      if (b->modulus_tension_elastic_area < 0) continue;
      for (double& v : b->coefficients_polynomial_creep) v *= size;
      for (double& v : b->coefficients_polynomial_loadstrain) v *= size;
      b->load_limit_polynomial_creep *= size;
      b->load_limit_polynomial_loadstrain *= size;
      b->modulus_tension_elastic_area *= size;
      if (b->modulus_compression_elastic_area > 0) b->modulus_compression_elastic_area *= size;
    }
    w->cable.strength_rated *= size;
    w->cable.weight_unit *= size;
    w->cable.diameter *= std::sqrt(size);
    c.Note(Cat("size ", size));
  }
  const Vector3d ruling(w->ruling.a, 0, w->ruling.b);
  auto any = [&](int i) {
    CableConstraint k;
    k.case_weather = w->weathers[static_cast<size_t>(i)].get();
    k.condition = c.PickOf<Cond>({Cond::kInitial, Cond::kCreep, Cond::kLoad});
    k.type_limit = c.PickOf<Limit>({Limit::kHorizontalTension, Limit::kCatenaryConstant, Limit::kSupportTension});
    k.limit = w->cable.strength_rated * (c.Chance(1, 4) ? c.LogReal(0.005, 2, 0.2) : c.Real(0.08, 0.4, 0.2));
    if (k.type_limit == Limit::kCatenaryConstant) k.limit /= w->Loaded(ruling, *k.case_weather).W();
    return k;
  };
  const CableConstraint own = any(static_cast<int>(c.PickOf<int>({2, 0, 1, 3})));
  w->line.set_constraint(own);
  std::vector<CableConstraint> design;
  const int n = static_cast<int>(c.Int(1, 4));
  for (int i = 0; i < n; i++) design.push_back(any(static_cast<int>(c.Int(0, 3))));
  c.Note(Cat(sag::Text(w->ruling), " line ", sag::Text(own), " design ", Text(design)));
  LineCable line = w->line;
  LineCableSagger lib;
  lib.set_constraints_design(&design);
  lib.set_line_cable(&line);
  if (c.Chance(1, 3)) lib.IndexConstraintControlling();
  std::list<ErrorMessage> m;
  const bool ok = lib.Validate(false, &m);
  Check(c, ok == m.empty(), "the verdict and the messages disagree");
  for (const auto& e : m) Check(c, !e.title.empty() && !e.description.empty(), "an empty message");
  if (!ok && (m.size() != 1 || m.front().title != "LINE CABLE SAGGER")) return;
  // the design constraint that needs the lowest tension
  bool can = true;
  int low = -1;
  std::vector<double> H(design.size());
  Actual a, best = Actual();
  for (int i = 0; i < n && can; i++) {
    LineCable other = w->line;
    other.set_constraint(design[static_cast<size_t>(i)]);
    can = Reloaded(other, own, &a);
    if (can && (low < 0 || a.H < best.H)) { low = i; best = a; }
    H[static_cast<size_t>(i)] = a.H;
  }
  std::vector<Actual> actual(design.size());
  LineCable sagged = w->line;
  if (can) {
    CableConstraint k = own;
    k.limit = Value(best, own.type_limit);
    sagged.set_constraint(k);
    for (int i = 0; i < n && can; i++) can = Reloaded(sagged, design[static_cast<size_t>(i)], &actual[static_cast<size_t>(i)]);
  }
  if (can != ok) c.Fail(Cat("sagging is ", can ? "possible" : "impossible", " but ", ok ? "accepted" : "rejected"));
  if (!ok) {
    Check(c, lib.IndexConstraintControlling() == -9999 && lib.LimitConstraintSaggedLineCable() == -999999 && lib.TensionHorizontalActual(0) == -999999 &&
                 lib.TensionSupportActual(0) == -999999 && lib.CatenaryConstantActual(0) == -999999 && lib.CapacityAllowable(0) == -999999,
          "a state that was rejected is returned");
    return;
  }
  c.NonTrivial(n > 1 && low > 0);
  const int index = lib.IndexConstraintControlling();
  if (index < 0 || index >= n) c.Fail(Cat("controlling constraint ", index, " of ", n));
  Check(c, H[static_cast<size_t>(index)] <= best.H * (1 + 1e-9), Cat("constraint ", index, " controls, constraint ", low, " allows less"));
  CheckNear(c, "limit of the sagged line cable", line.constraint().limit, sagged.constraint().limit, 0, 1e-9);
  for (int i = 0; i < n; i++) {
    const size_t j = static_cast<size_t>(i);
    CheckNear(c, "horizontal tension", lib.TensionHorizontalActual(i), actual[j].H, 0, 1e-9);
    CheckNear(c, "catenary constant", lib.CatenaryConstantActual(i), actual[j].constant, 0, 1e-9);
    CheckNear(c, "support tension", lib.TensionSupportActual(i), actual[j].support, 0, 1e-9);
    CheckNear(c, "use", lib.CapacityAllowable(i), Value(actual[j], design[j].type_limit) / design[j].limit, 0, 1e-9);
  }
}

}  // namespace

Property vp::MakeProperty() {
  Property p;
  p.id = "P20";
  p.assumptions = {"the reloaded states are those of a fresh LineCableReloader, which P19 decides",
                   "whether constraints are exceeded is judged where 0.06 lb at the line's constraint changes the value by less than 3 percent"};
  p.laws = {{"sag", "several design constraints, the controlling one isn't the first, and is for another condition", 2500, 40000, Sag},
            {"history", "an input changed, or the object was copied, after a query", 1000, 16000, History},
            {"incomplete", "something other than the list of constraints is missing", 400, 4000, Incomplete},
            {"extremes", "several design constraints are accepted, and the controlling one isn't the first", 3000, 40000, Extremes}};
  return p;
}
