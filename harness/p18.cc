// P18: a span reloaded to another state keeps its cable.
#include <memory>

#include "models/sagtension/catenary_cable_reloader.h"
#include "models/sagtension/catenary_cable_unloader.h"
#include "history.h"
#include "models/sagtension/cable_strainer.h"
#include "sagcable.h"

using namespace vp;
using namespace sag;

namespace {

Type GenType(Case& c) { return c.Bool() ? kCreep : kLoadStrain; }

struct Model {
  CableState st;
  CableStretchState sx;
  CompositeCurve r;
  CableElongationModel lib;
};

struct World {
  Composite m;
  Cable cable;
  SagTensionCable stc;
  std::vector<std::unique_ptr<Model>> models;
};

void GenModel(Case& c, World* w) {
  std::unique_ptr<Model> p(new Model());
  p->st.temperature = c.Real(-40, c.Chance(1, 4) ? 300 : 120, 70);
  p->st.type_polynomial = c.Chance(1, 3) ? kCreep : kLoadStrain;
  p->sx.temperature = c.Real(-40, 100, 70);
  p->sx.type_polynomial = GenType(c);
  double cap = 0;
  for (int j = 0; j < 2; j++)
    if (w->m.on[j]) cap += static_cast<double>(w->m.part[j].Limit(p->sx.type_polynomial));
  p->sx.load = c.Chance(1, 3) ? 0 : cap * c.Real(0.005, 0.7, 0.3);
  if (!MakeComposite(w->m, p->st, p->sx, &p->r)) c.Reject();
  p->lib.set_cable(&w->stc);
  p->lib.set_state(p->st);
  p->lib.set_state_stretch(p->sx);
  c.Note(Cat("model ", w->models.size(), ": ", Name(p->st.type_polynomial), " at ", p->st.temperature, ", stretch ",
             Name(p->sx.type_polynomial), " ", p->sx.load, " at ", p->sx.temperature));
  w->models.push_back(std::move(p));
}

std::unique_ptr<World> Gen(Case& c, int models) {
  std::unique_ptr<World> w(new World());
  w->m = GenComposite(c, false);
  for (int i = 0; i < 2; i++) c.Note(w->m.on[i] ? Text(w->m.part[i]) : "none");
  FillCable(w->m, &w->cable);
  w->stc.set_cable_base(&w->cable);
  for (int i = 0; i < models; i++) GenModel(c, w.get());
  return w;
}

Span GenSpan(Case& c) {
  Span s;
  s.a = c.Bool() ? static_cast<double>(c.Int(100, 2000)) : c.Real(50, 2500, 1000);
  s.b = c.Bool() ? 0 : c.Real(-0.3, 0.3, 0.1) * s.a;
  s.wz = c.Real(0.5, 1.5, 1);
  s.wy = c.Chance(2, 3) ? 0 : c.Real(0, 1, 0.5);
  return s;
}
void GenWeight(Case& c, Span* s) {
  s->wz = c.LogReal(0.5, 6, 1);
  s->wy = c.Bool() ? 0 : c.Real(0, 4, 0.5);
}

void Solved(Case& c) {
  auto w = Gen(c, 2);
  Span from = GenSpan(c), to = from;
  if (c.Bool()) GenWeight(c, &to);
  double H = std::max(1.1 * static_cast<double>(from.HMin()), c.LogReal(300, 9000, 2000));
  model::Curve k = from.At(H);
  const CompositeCurve &r0 = w->models[0]->r, &r1 = w->models[1]->r;
  R T = k.TensionSampled();
  c.Note(Cat(Text(from), " H ", H, " -> ", Text(to)));
  Reload ref = Solve(k.len, T, r0, to, r1);
  if (!ref.ok || ref.H < 1.03L * to.HMin() || ref.H > 40000) c.Reject();
  if (ref.tol > 0.02 * static_cast<double>(ref.H) + 1) c.Reject();
  c.Note(Cat("expected H ", static_cast<double>(ref.H), " tol ", ref.tol));
  c.NonTrivial(fabsl(ref.H - H) > 10 * ref.tol);
  Catenary3d cat = MakeCatenary(from, H);
  Vector3d load(0, to.wy, to.wz);
  CatenaryCableReloader lib;
  lib.set_model_reloaded(&w->models[1]->lib);
  lib.set_catenary(&cat);
  lib.set_weight_unit_reloaded(&load);
  lib.set_model_reference(&w->models[0]->lib);
  if (c.Chance(1, 4)) {
    std::list<ErrorMessage> m;
    Check(c, lib.Validate(false, &m) && m.empty(), "a reloader with a solution isn't valid");
  }
  double got = lib.TensionHorizontal();
  CheckNear(c, "reloaded horizontal tension", got, static_cast<double>(ref.H), ref.tol, 0);
  Catenary3d out = lib.CatenaryReloaded();
  Check(c, out.spacing_endpoints().x() == from.a && out.spacing_endpoints().y() == 0 && out.spacing_endpoints().z() == from.b,
        "the reloaded span has other ends");
  Check(c, out.weight_unit().x() == 0 && out.weight_unit().y() == to.wy && out.weight_unit().z() == to.wz,
        "the reloaded span has another load");
  Check(c, out.tension_horizontal() == got, "the reloaded catenary and tension differ");
  // the same cable: its unloaded length doesn't change
  CatenaryCableUnloader u0, u1;
  u0.set_catenary(&cat);
  u0.set_model_reference(&w->models[0]->lib);
  u0.set_model_unloaded(&w->models[1]->lib);
  u1.set_catenary(&out);
  u1.set_model_reference(&w->models[1]->lib);
  u1.set_model_unloaded(&w->models[1]->lib);
  // length error of a tension error of 0.01
  model::Curve k1 = to.At(ref.H), k2 = to.At(ref.H + 0.011);
  double strain = StrainTolerance(r0, T) + 2 * StrainTolerance(r1, ref.T) + StrainTolerance(r1, 0);
  R s0 = r1.Strain(0), sT = r1.Strain(ref.T);
  double sec = static_cast<double>(k.len) * std::pow(static_cast<double>(std::max(fabsl(r0.Strain(T) - sT), fabsl(sT - s0))), 2) * 3;
  double drift = static_cast<double>(k1.len - k2.len + k1.len * fabsl(r1.Strain(k2.TensionSampled()) - sT));
  CheckNear(c, "unloaded length of the reloaded span", u1.LengthUnloaded(), u0.LengthUnloaded(),
            drift * 1.2 + static_cast<double>(k.len) * strain + sec, 1e-9);
  // unloaded in the reference state
  u0.set_model_unloaded(&w->models[0]->lib);
  CheckNear(c, "unloaded length", lib.LengthUnloaded(), u0.LengthUnloaded(), 0, 1e-13);
}

// deep spans: an accepted solution is one, also past the library's lower limit
void Deep(Case& c) {
  auto w = Gen(c, 2);
  Span from = GenSpan(c), to = from;
  if (c.Bool()) GenWeight(c, &to);
  double H = c.Real(1.0001, 1.2, 1.01) * static_cast<double>(from.HMin());
  model::Curve k = from.At(H);
  const CompositeCurve &r0 = w->models[0]->r, &r1 = w->models[1]->r;
  R T = k.TensionSampled();
  Reload ref = Solve(k.len, T, r0, to, r1, 0.3L);
  if (!ref.ok) c.Reject();
  c.Note(Cat(Text(from), " H ", H, " -> ", Text(to), " expected H ", static_cast<double>(ref.H), " tol ", ref.tol, " minimum ", static_cast<double>(to.HMin())));
  Catenary3d cat = MakeCatenary(from, H);
  Vector3d load(0, to.wy, to.wz);
  CatenaryCableReloader lib;
  lib.set_catenary(&cat);
  lib.set_weight_unit_reloaded(&load);
  lib.set_model_reference(&w->models[0]->lib);
  lib.set_model_reloaded(&w->models[1]->lib);
  std::list<ErrorMessage> m;
  bool ok = lib.Validate(false, &m);
  Check(c, ok == m.empty(), "the verdict and the messages disagree");
  double got = lib.TensionHorizontal();
  c.NonTrivial(ref.H < to.HMin());
  if (ok) CheckNear(c, "accepted tension", got, static_cast<double>(ref.H), ref.tol + 1e-3 * static_cast<double>(ref.H), 0);
  else {
    Check(c, got == -999999, "a rejected solution is returned");
    Check(c, ref.H < 1.01L * to.HMin() + 2 * ref.tol, "a span with a solution is rejected");
  }
}

// nothing changes: the span stays as it is; and reloading back returns
void Back(Case& c) {
  auto w = Gen(c, 2);
  Span from = GenSpan(c), to = from;
  GenWeight(c, &to);
  double H = std::max(1.1 * static_cast<double>(from.HMin()), c.LogReal(300, 9000, 2000));
  model::Curve k = from.At(H);
  const CompositeCurve &r0 = w->models[0]->r, &r1 = w->models[1]->r;
  R T = k.TensionSampled();
  Reload same = Solve(k.len, T, r0, from, r0), there = Solve(k.len, T, r0, to, r1);
  if (!same.ok || !there.ok || there.H < 1.03L * to.HMin() || there.H > 40000) c.Reject();
  model::Curve kt = to.At(there.H);
  Reload back = Solve(kt.len, there.T, r1, from, r0);
  if (!back.ok) c.Reject();
  c.Note(Cat(Text(from), " H ", H, " -> ", Text(to), " H ", static_cast<double>(there.H)));
  c.NonTrivial(fabsl(there.H - H) > 10 * there.tol);
  Catenary3d cat = MakeCatenary(from, H);
  Vector3d load(0, from.wy, from.wz), load2(0, to.wy, to.wz);
  CatenaryCableReloader lib;
  lib.set_catenary(&cat);
  lib.set_weight_unit_reloaded(&load);
  lib.set_model_reference(&w->models[0]->lib);
  lib.set_model_reloaded(&w->models[0]->lib);
  double tol0 = 0.02 + 1e-7 * H;
  // without a change the strains cancel exactly where the model isn't flat
  if (same.tol < 0.02 * H + 1) CheckNear(c, "tension without a change", lib.TensionHorizontal(), H, std::min(tol0 + same.tol, 10 * tol0 + 0.2 * same.tol), 0);
  lib.set_model_reloaded(&w->models[1]->lib);
  lib.set_weight_unit_reloaded(&load2);
  Catenary3d mid = lib.CatenaryReloaded();
  if (there.tol > 0.02 * static_cast<double>(there.H) + 1) c.Reject();
  CheckNear(c, "reloaded tension", mid.tension_horizontal(), static_cast<double>(there.H), there.tol, 0);
  lib.set_catenary(&mid);
  lib.set_weight_unit_reloaded(&load);
  lib.set_model_reference(&w->models[1]->lib);
  lib.set_model_reloaded(&w->models[0]->lib);
  if (back.tol > 0.02 * H + 1) c.Reject();
  // error of the way out, carried back
  R g = fabsl((Solve(to.At(there.H + 1).len, to.At(there.H + 1).TensionSampled(), r1, from, r0).H - back.H));
  // shortening divides where lengthening multiplies, so that is exact up to the 0.01 of the solutions
  CheckNear(c, "tension after reloading back", lib.TensionHorizontal(), H,
            0.03 + back.tol + there.tol * static_cast<double>(g) * 1.2 + 1e-7 * H, 0);
}

// colder, heavier or less stretched never lowers the tension
void Direction(Case& c) {
  auto w = Gen(c, 1);
  Span from = GenSpan(c), to = from;
  if (c.Bool()) GenWeight(c, &to);
  double H = std::max(1.1 * static_cast<double>(from.HMin()), c.LogReal(300, 9000, 2000));
  if (c.Chance(1, 10)) {  // a search that hits the solution exactly
    to = from;
    H = c.PickOf<double>({2, 1.5, 1.75, 1.25}) 
        * Catenary3d::ConstantMinimum(MakeCatenary(from, 1000).spacing_endpoints().Magnitude())
        * Vector3d(0, from.wy, from.wz).Magnitude();
  }
  model::Curve k = from.At(H);
  Model& m0 = *w->models[0];
  CableState st = m0.st, hot = st;
  hot.temperature = st.temperature + c.Real(0, 100, 10);
  Composite& m = w->m;
  CompositeCurve r1, r2;
  if (!MakeComposite(m, hot, m0.sx, &r2) || !MakeComposite(m, st, m0.sx, &r1)) c.Reject();
  Reload a = Solve(k.len, k.TensionSampled(), m0.r, to, r1), b = Solve(k.len, k.TensionSampled(), m0.r, to, r2);
  if (!a.ok || !b.ok || b.H < 1.03L * to.HMin() || a.H > 40000) c.Reject();
  c.Note(Cat(Text(from), " H ", H, " -> ", Text(to), ", heated to ", hot.temperature));
  Catenary3d cat = MakeCatenary(from, H);
  Vector3d load(0, to.wy, to.wz);
  CableElongationModel warm(m0.lib);
  warm.set_state(hot);
  CatenaryCableReloader lib;
  lib.set_catenary(&cat);
  lib.set_weight_unit_reloaded(&load);
  lib.set_model_reference(&m0.lib);
  lib.set_model_reloaded(&m0.lib);
  double cold = lib.TensionHorizontal();
  lib.set_model_reloaded(&warm);
  double heated = lib.TensionHorizontal();
  c.NonTrivial(hot.temperature > st.temperature);
  Check(c, heated <= cold + 0.025, Cat("heating raises the tension from ", cold, " to ", heated));
  if (hot.temperature > st.temperature + 5 && b.tol < 0.3 * static_cast<double>(a.H - b.H) && a.tol < 0.3 * static_cast<double>(a.H - b.H))
    Check(c, heated < cold, "heating doesn't lower the tension");
  Vector3d heavier(0, to.wy, to.wz * 1.25);
  Span ts = to;
  ts.wz *= 1.25;
  Reload h = Solve(k.len, k.TensionSampled(), m0.r, ts, r2);
  if (h.ok && h.H > 1.03L * ts.HMin() && h.H < 40000) {
    double before = lib.CatenaryReloaded().TensionAverage();
    lib.set_weight_unit_reloaded(&heavier);
    double more = lib.CatenaryReloaded().TensionAverage();
    Check(c, more >= before - 0.05, Cat("more weight lowers the average tension from ", before, " to ", more));
  }
}

// edits and queries in any order
void History(Case& c) {
  auto w = Gen(c, 3);
  Span s[2] = {GenSpan(c), GenSpan(c)};
  Catenary3d cats[2];
  Vector3d loads[2];
  for (int i = 0; i < 2; i++) {
    cats[i] = MakeCatenary(s[i], std::max(1.1 * static_cast<double>(s[i].HMin()), c.LogReal(300, 9000, 2000)));
    Span t;
    GenWeight(c, &t);
    loads[i] = Vector3d(0, t.wy, t.wz);
  }
  int ic = 0, il = 0, i0 = 0, i1 = 1;
  std::unique_ptr<CatenaryCableReloader> lib(new CatenaryCableReloader());
  lib->set_catenary(&cats[0]);
  lib->set_weight_unit_reloaded(&loads[0]);
  lib->set_model_reference(&w->models[0]->lib);
  lib->set_model_reloaded(&w->models[1]->lib);
  int n = static_cast<int>(c.Int(1, 7)), asked = 0, edits = 0;
  for (int i = 0; i < n; i++) {
    switch (c.Int(0, 6)) {
      case 0: ic = static_cast<int>(c.Int(0, 1)); lib->set_catenary(&cats[ic]); edits += asked > 0; c.Note(Cat("catenary ", ic)); break;
      case 1: il = static_cast<int>(c.Int(0, 1)); lib->set_weight_unit_reloaded(&loads[il]); edits += asked > 0; c.Note(Cat("load ", il)); break;
      case 2: i0 = static_cast<int>(c.Int(0, 2)); lib->set_model_reference(&w->models[i0]->lib); edits += asked > 0; c.Note(Cat("reference ", i0)); break;
      case 3: i1 = static_cast<int>(c.Int(0, 2)); lib->set_model_reloaded(&w->models[i1]->lib); edits += asked > 0; c.Note(Cat("reloaded ", i1)); break;
      case 4: lib.reset(new CatenaryCableReloader(CatenaryCableReloader(*lib))); edits += asked > 0; c.Note("copy"); break;
      case 5: { std::list<ErrorMessage> m; lib->Validate(false, &m); asked++; c.Note("validate"); break; }
      default: if (c.Bool()) lib->LengthUnloaded(); else lib->TensionHorizontal(); asked++; c.Note("query"); break;
    }
  }
  c.NonTrivial(edits > 0);
  CatenaryCableReloader fresh;
  fresh.set_catenary(&cats[ic]);
  fresh.set_weight_unit_reloaded(&loads[il]);
  fresh.set_model_reference(&w->models[i0]->lib);
  fresh.set_model_reloaded(&w->models[i1]->lib);
  auto same = [&](const char* what, double a, double b) {
    if (!(a == b) && !(std::isnan(a) && std::isnan(b)) && !Near(a, b, 1e-9, 1e-12))
      c.Fail(Cat(what, " after edits: ", a, ", with the same inputs from scratch: ", b));
  };
  same("tension", lib->TensionHorizontal(), fresh.TensionHorizontal());
  same("unloaded length", lib->LengthUnloaded(), fresh.LengthUnloaded());
  same("length", lib->CatenaryReloaded().Length(), fresh.CatenaryReloaded().Length());
}

// the same, and with inputs that are changed in place and assignments
void Sequences(Case& c) {
  typedef CatenaryCableReloader T;
  auto w = Gen(c, 3);
  std::vector<Catenary3d> cats;
  std::vector<Vector3d> loads;
  for (int i = 0; i < 3; i++) {
    Span s = GenSpan(c), t;
    cats.push_back(MakeCatenary(s, std::max(1.1 * static_cast<double>(s.HMin()), c.LogReal(300, 9000, 2000))));
    GenWeight(c, &t);
    loads.push_back(Vector3d(0, t.wy, t.wz));
  }
  cats[1] = cats[0];
  if (c.Bool()) cats[1].set_tension_horizontal(Related(c, cats[0].tension_horizontal(), cats[0].tension_horizontal() * 0.99, 40000));
  else cats[1].set_weight_unit(Vector3d(0, cats[0].weight_unit().z() / 2, cats[0].weight_unit().z()));
  loads[1] = c.Bool() ? Vector3d(0, loads[0].z() * 0.6, loads[0].z() * 0.8) : Vector3d(0, loads[0].y(), Related(c, loads[0].z(), 0.3, 10));
  std::vector<CableElongationModel> models;
  for (size_t i = 0; i < 3; i++) models.push_back(w->models[i]->lib);
  Histories<T> h;
  h.Pointer<Catenary3d>("catenary", cats, [](T& o, const Catenary3d* k) { o.set_catenary(k); });
  h.Pointer<Vector3d>("load", loads, [](T& o, const Vector3d* k) { o.set_weight_unit_reloaded(k); });
  h.Pointer<CableElongationModel>("reference", models, [](T& o, const CableElongationModel* k) { o.set_model_reference(k); });
  h.Pointer<CableElongationModel>("reloaded", models, [](T& o, const CableElongationModel* k) { o.set_model_reloaded(k); });
  h.Peek("length", [](const T& o) { o.LengthUnloaded(); });
  h.Peek("tension", [](const T& o) { o.TensionHorizontal(); });
  h.Peek("validate", [](const T& o) { std::list<ErrorMessage> m; o.Validate(true, &m); });
  h.Ask("tension", [](const T& o) { return static_cast<double>(o.TensionHorizontal()); });
  h.Ask("length", [](const T& o) { return static_cast<double>(o.LengthUnloaded()); });
  h.Ask("verdict", [](const T& o) { return static_cast<double>(o.Validate(false, nullptr)); });
  h.Ask("catenary", [](const T& o, std::vector<double>* r) {
    const Catenary3d k = o.CatenaryReloaded();
    *r = {k.tension_horizontal(), k.weight_unit().y(), k.weight_unit().z(), k.spacing_endpoints().x(), k.spacing_endpoints().z()};
  });
  h.Run(c);
}

// whatever is asked for: a tension that is accepted fits the cable
void Extremes(Case& c) {
  auto w = Gen(c, 2);
  Span from = GenSpan(c), to = from;
  if (c.Chance(3, 4)) {
    to.wz = c.LogReal(0.001, 1000, 1);
    to.wy = c.Bool() ? 0 : c.LogReal(0.001, 1000, 1);
  }
  for (auto& m : w->models) {
    if (c.Bool()) m->st.temperature = c.Real(-100, 3000, 70);
    if (c.Chance(1, 3)) m->sx.load = c.LogReal(1, 1e6, 1000);
    m->lib.set_state(m->st);
    m->lib.set_state_stretch(m->sx);
    c.Note(Cat("now at ", m->st.temperature, " stretch ", m->sx.load));
  }
  double H = static_cast<double>(from.HMin()) * c.LogReal(1.0001, 200, 2);
  c.Note(Cat(Text(from), " H ", H, " -> ", Text(to)));
  Catenary3d cat = MakeCatenary(from, H);
  Vector3d load(0, to.wy, to.wz);
  CatenaryCableReloader lib;
  lib.set_catenary(&cat);
  lib.set_weight_unit_reloaded(&load);
  lib.set_model_reference(&w->models[0]->lib);
  lib.set_model_reloaded(&w->models[1]->lib);
  std::list<ErrorMessage> m;
  bool ok = lib.Validate(false, &m);
  Check(c, ok == m.empty(), "the verdict and the messages disagree");
  double got = lib.TensionHorizontal();
  if (!ok) {
    c.NonTrivial(m.size() == 1);
    if (m.size() == 1 && m.front().title == "CATENARY CABLE RELOADER") Check(c, got == -999999, "a rejected solution is returned");
    return;
  }
  c.Note(Cat("accepted ", got));
  c.NonTrivial(got < static_cast<double>(to.HMin()) || got > 40000);
  Check(c, std::isfinite(got) && got > 0, "an accepted tension isn't a tension");
  Catenary3d out = lib.CatenaryReloaded();
  CableStrainer s;
  s.set_length_start(cat.Length());
  s.set_load_start(cat.TensionAverage());
  s.set_load_finish(out.TensionAverage());
  s.set_model_start(&w->models[0]->lib);
  s.set_model_finish(&w->models[1]->lib);
  double gap = out.Length() - s.LengthFinish();
  Check(c, std::fabs(gap) < 0.11, Cat("the cable of an accepted tension ", got, " is off by ", gap));
}

}  // namespace

Property vp::MakeProperty() {
  Property p;
  p.id = "P18";
  p.assumptions = {"cable models as in P16; the reloaded span has a solution with H/w above half the span (the library's lower limit) and below 40000",
                   "cases whose answer is poorly conditioned (cable slack over 2 percent of the tension) are rejected"};
  p.laws = {{"solved", "the tension changes by ten times the tolerance", 6000, 120000, Solved},
            {"deep", "the solution is below the lower limit of H/w", 4000, 80000, Deep},
            {"back", "the tension changes by ten times the tolerance on the way", 3000, 60000, Back},
            {"direction", "heated", 4000, 80000, Direction},
            {"history", "an input changed after a query", 4000, 80000, History},
            {"sequences", "an input changed, or the object was copied, after a query", 2000, 40000, Sequences},
            {"extremes", "rejected as unsolvable, or accepted outside the usual range", 4000, 80000, Extremes}};
  return p;
}
