// P17: the length of a cable follows its strain.
#include <memory>

#include "models/sagtension/cable_strainer.h"
#include "models/sagtension/catenary_cable_unloader.h"
#include "history.h"
#include "sagcable.h"

using namespace vp;
using namespace sag;

namespace {

Type GenType(Case& c) { return c.Bool() ? kCreep : kLoadStrain; }

struct World {
  Composite m;
  Cable cable;
  SagTensionCable stc;
  CableState st[2];
  CableStretchState sx[2];
  CompositeCurve r[2];
  CableElongationModel lib[2];
};

std::unique_ptr<World> Gen(Case& c) {
  std::unique_ptr<World> w(new World());
  w->m = GenComposite(c, false);
  for (int i = 0; i < 2; i++) c.Note(w->m.on[i] ? Text(w->m.part[i]) : "none");
  FillCable(w->m, &w->cable);
  w->stc.set_cable_base(&w->cable);
  for (int i = 0; i < 2; i++) {
    w->st[i].temperature = c.Real(-40, 212, 70);
    w->st[i].type_polynomial = GenType(c);
    w->sx[i].temperature = c.Real(-40, 100, 70);
    w->sx[i].type_polynomial = GenType(c);
    double cap = 0;
    for (int j = 0; j < 2; j++)
      if (w->m.on[j]) cap += static_cast<double>(w->m.part[j].Limit(w->sx[i].type_polynomial));
    w->sx[i].load = c.Chance(1, 3) ? 0 : cap * c.Real(0.005, 0.7, 0.3);
    if (i == 1) {
      // often only some of the state changes
      if (c.Chance(1, 3)) w->st[1].temperature = w->st[0].temperature;
      if (c.Chance(1, 3)) w->st[1].type_polynomial = w->st[0].type_polynomial;
      if (c.Chance(1, 4)) w->sx[1] = w->sx[0];
    }
    if (!MakeComposite(w->m, w->st[i], w->sx[i], &w->r[i])) c.Reject();
    w->lib[i].set_cable(&w->stc);
    w->lib[i].set_state(w->st[i]);
    w->lib[i].set_state_stretch(w->sx[i]);
    c.Note(Cat("model ", i, ": ", Name(w->st[i].type_polynomial), " at ", w->st[i].temperature, ", stretch ",
               Name(w->sx[i].type_polynomial), " ", w->sx[i].load, " at ", w->sx[i].temperature));
  }
  return w;
}

double GenLoad(Case& c) { return c.Chance(1, 4) ? 0 : c.Real(0, c.Bool() ? 2000 : 15000, 1000); }

double Finish(const World& w, double length, double l0, double l1, bool back) {
  CableStrainer s;
  s.set_length_start(length);
  s.set_load_start(l0);
  s.set_load_finish(l1);
  s.set_model_start(&w.lib[back ? 1 : 0]);
  s.set_model_finish(&w.lib[back ? 0 : 1]);
  return s.LengthFinish();
}

void Strain(Case& c) {
  auto w = Gen(c);
  double length = c.LogReal(1, 5000, 1000), l0 = GenLoad(c), l1 = c.Chance(1, 4) ? l0 : c.Chance(1, 8) ? l0 + c.Real(-1, 1, 1) : GenLoad(c);
  if (l1 < 0) l1 = 0;
  c.Note(Cat("length ", length, " loads ", l0, " -> ", l1));
  R e0 = w->r[0].Strain(l0), e1 = w->r[1].Strain(l1);
  if (w->r[0].Slope(e0 + 1e-6L) < 1000 || w->r[1].Slope(e1 + 1e-6L) < 1000) c.Reject();
  double tol = length * (StrainTolerance(w->r[0], l0) + StrainTolerance(w->r[1], l1)) * 1.2 + 1e-9;
  if (tol > 1e-3 * length) c.Reject();
  c.NonTrivial(l0 != l1 || w->st[0].temperature != w->st[1].temperature);
  CableStrainer s;
  // order of the inputs doesn't matter, and they are replaced by the last ones
  s.set_model_finish(&w->lib[c.Bool() ? 0 : 1]);
  s.set_load_finish(GenLoad(c));
  s.set_length_start(length / 2);
  s.set_load_start(l0);
  s.set_model_start(&w->lib[0]);
  s.set_model_finish(&w->lib[1]);
  if (c.Bool()) s.LengthFinish();
  s.set_load_finish(l1);
  s.set_length_start(length);
  if (c.Chance(1, 3)) {
    std::list<ErrorMessage> m;
    Check(c, s.Validate(false, &m) && m.empty(), "a complete strainer isn't valid");
  }
  double got = s.LengthFinish();
  CheckNear(c, "length after the strain", got, static_cast<double>(Strained(length, e0, e1)), tol, 0);
  // there and back
  CheckNear(c, "length after straining back", Finish(*w, got, l1, l0, true), length, 0, 1e-12);
  // more load never shortens
  double l2 = l1 + c.Real(0, 5000, 100);
  Check(c, Finish(*w, length, l0, l2, false) >= got - 0.03 * length / static_cast<double>(std::min(w->r[1].Slope(e1), w->r[1].Slope(e1 + 1e-6L))) - 1e-9,
        "the cable is shorter under more load");
  // proportional to the length
  CheckNear(c, "length of twice the cable", Finish(*w, 2 * length, l0, l1, false), 2 * got, 0, 1e-12);
}

void Unload(Case& c) {
  auto w = Gen(c);
  Span span;
  span.a = c.Bool() ? static_cast<double>(c.Int(50, 2000)) : c.Real(50, 3000, 1000);
  span.b = c.Bool() ? 0 : c.Real(-0.3, 0.3, 0.1) * span.a;
  span.wz = c.LogReal(0.3, 6, 1);
  span.wy = c.Bool() ? 0 : c.Real(0, 4, 1);
  double H = static_cast<double>(span.HMin()) * c.LogReal(1.05, 40, 6);
  if (H > 20000) c.Reject();
  c.Note(Cat(Text(span), " H ", H));
  model::Curve k = span.At(H);
  R T = k.TensionSampled();
  R e0 = w->r[0].Strain(T), e1 = w->r[1].Strain(0);
  if (w->r[0].Slope(e0 + 1e-6L) < 1000 || w->r[1].Slope(e1 + 1e-6L) < 1000) c.Reject();
  double len = static_cast<double>(k.len);
  double tol = len * (StrainTolerance(w->r[0], T) + static_cast<double>(fabsl(T - k.TensionMean()) / w->r[0].Slope(e0 + 1e-6L)) + StrainTolerance(w->r[1], 0)) * 1.2 + 1e-8 * len;
  if (tol > 1e-3 * len) c.Reject();
  c.NonTrivial(w->st[0].temperature != w->st[1].temperature && w->sx[1].load > 0);
  Catenary3d cat = MakeCatenary(span, H), other = MakeCatenary(Span(), 1234);
  CatenaryCableUnloader u;
  int order = static_cast<int>(c.Int(0, 2));
  if (order == 0) u.set_catenary(&cat);
  if (order == 1) u.set_catenary(&other);
  u.set_model_unloaded(&w->lib[1]);
  if (order == 2) u.set_catenary(nullptr);
  u.set_model_reference(&w->lib[0]);
  if (order != 0) u.set_catenary(&cat);
  if (c.Chance(1, 3)) {
    std::list<ErrorMessage> m;
    Check(c, u.Validate(false, &m) && m.empty(), "a complete unloader isn't valid");
  }
  CheckNear(c, "unloaded length", u.LengthUnloaded(), static_cast<double>(Strained(k.len, e0, e1)), tol, 0);
  Check(c, u.catenary() == &cat && u.model_reference() == &w->lib[0] && u.model_unloaded() == &w->lib[1], "the inputs don't read back");
}

// incomplete objects are invalid, without crashing
void Incomplete(Case& c) {
  auto w = Gen(c);
  CableElongationModel blank;
  Catenary3d cat = MakeCatenary(Span(), 2000);
  int lack = static_cast<int>(c.Int(0, 6));
  bool with = c.Bool();
  std::list<ErrorMessage> m;
  CableStrainer s;
  if (lack != 0) s.set_model_start(lack == 5 ? &blank : &w->lib[0]);
  if (lack != 1) s.set_model_finish(lack == 6 ? &blank : &w->lib[1]);
  if (lack != 2) s.set_length_start(100);
  if (lack != 3) s.set_load_start(1000);
  if (lack != 4) s.set_load_finish(500);
  c.NonTrivial();
  bool ok = s.Validate(c.Bool(), with ? &m : nullptr);
  Check(c, !ok, "an incomplete strainer is valid");
  Check(c, !with || !m.empty(), "an invalid strainer without a message");
  CatenaryCableUnloader u;
  m.clear();
  if (lack != 0) u.set_model_reference(lack == 5 ? &blank : &w->lib[0]);
  if (lack != 1) u.set_model_unloaded(lack == 6 ? &blank : &w->lib[1]);
  if (lack == 2) u.set_catenary(nullptr);
  if (lack > 4 || lack < 2) u.set_catenary(&cat);
  ok = u.Validate(c.Bool(), with ? &m : nullptr);
  Check(c, !ok, "an incomplete unloader is valid");
  Check(c, !with || !m.empty(), "an invalid unloader without a message");
}

// the verdict is that of the inputs: every input alone can spoil it
void Verdicts(Case& c) {
  auto w = Gen(c);
  CableElongationModel model[2] = {w->lib[0], w->lib[1]};
  SagTensionCable twin;
  twin.set_cable_base(&w->cable);
  double length = c.LogReal(1, 5000, 1000), load[2] = {GenLoad(c), GenLoad(c)};
  Span span;
  span.a = c.Real(50, 3000, 1000);
  span.b = c.Bool() ? 0 : c.Real(-0.3, 0.3, 0.1) * span.a;
  span.wz = c.LogReal(0.3, 6, 1);
  span.wy = c.Bool() ? 0 : c.Real(0, 4, 1);
  Catenary3d cat = MakeCatenary(span, static_cast<double>(span.HMin()) * c.LogReal(1.05, 40, 6));
  const int what = static_cast<int>(c.Int(0, 11)), side = static_cast<int>(c.Int(0, 1));
  bool strainer = true, unloader = true;
  CableState state = w->st[side];
  CableStretchState stretch = w->sx[side];
  switch (what) {
    case 1: length = c.PickOf<double>({0, -1, -999999}), strainer = false; break;
    case 2: load[side] = c.PickOf<double>({-0.5, -999999}), strainer = false; break;
    case 3: state.temperature = c.PickOf<double>({-100.5, -999999}), strainer = unloader = false; break;
    case 4: state.type_polynomial = Type::kNull, strainer = unloader = false; break;
    case 5: stretch.load = c.PickOf<double>({-0.5, -999999}), strainer = unloader = false; break;
    case 6: stretch.temperature = c.PickOf<double>({-100.5, -999999}), strainer = unloader = false; break;
    case 7: stretch.type_polynomial = Type::kNull, strainer = unloader = false; break;
    case 8: model[side].set_cable(c.Bool() ? &twin : nullptr), strainer = unloader = false; break;
    case 9: cat.set_tension_horizontal(c.PickOf<double>({0, -1, -999999})), unloader = false; break;
    case 10: cat.set_weight_unit(Vector3d(0, span.wy, c.PickOf<double>({0, -1}))), unloader = false; break;
    case 11: cat.set_spacing_endpoints(Vector3d(0, 0, c.PickOf<double>({0, 10}))), unloader = false; break;
    default: break;
  }
  if (what >= 3 && what <= 4) model[side].set_state(state);
  if (what >= 5 && what <= 7) model[side].set_state_stretch(stretch);
  c.Note(Cat("change ", what, " of model ", side));
  c.NonTrivial(what != 0);
  CableStrainer s;
  s.set_length_start(length);
  s.set_load_start(load[0]);
  s.set_load_finish(load[1]);
  s.set_model_start(&model[0]);
  s.set_model_finish(&model[1]);
  CatenaryCableUnloader u;
  u.set_catenary(&cat);
  u.set_model_reference(&model[0]);
  u.set_model_unloaded(&model[1]);
  for (int pass = 0; pass < 2; pass++) {
    std::list<ErrorMessage> m;
    const bool with = c.Bool();
    Check(c, s.Validate(false, with ? &m : nullptr) == strainer, Cat("strainer verdict should be ", strainer));
    Check(c, !with || m.empty() == strainer, "messages go with the strainer's verdict");
    m.clear();
    Check(c, u.Validate(false, with ? &m : nullptr) == unloader, Cat("unloader verdict should be ", unloader));
    Check(c, !with || m.empty() == unloader, "messages go with the unloader's verdict");
    if (strainer && unloader && pass == 0) s.LengthFinish(), u.LengthUnloaded();
  }
}

// edits, queries, copies and assignments in any order, with models and
// catenaries that are changed in place
template <typename T>
void CommonModels(Histories<T>* h, const World& w, void (T::*reference)(const CableElongationModel*), void (T::*other)(const CableElongationModel*)) {
  std::vector<CableElongationModel> models(3);
  models[0] = w.lib[0];
  models[1] = w.lib[1];
  models[2] = w.lib[0];
  CableState hot = w.st[0];
  hot.temperature += 5;
  models[2].set_state(hot);
  h->template Pointer<CableElongationModel>("start", models, [reference](T& o, const CableElongationModel* m) { (o.*reference)(m); });
  h->template Pointer<CableElongationModel>("finish", models, [other](T& o, const CableElongationModel* m) { (o.*other)(m); });
}

void StrainSequences(Case& c) {
  auto w = Gen(c);
  typedef CableStrainer T;
  double length[3] = {c.LogReal(1, 5000, 1000), 0, c.LogReal(1, 5000, 1000)};
  length[1] = Related(c, length[0], 1, 5000);
  double from[3] = {GenLoad(c), 0, GenLoad(c)}, to[3] = {GenLoad(c), 0, GenLoad(c)};
  from[1] = Related(c, from[0], 0, 20000);
  to[1] = c.Bool() ? from[0] : Related(c, to[0], 0, 20000);
  std::vector<double> l(length, length + 3), a(from, from + 3), b(to, to + 3);
  Histories<T> h;
  CommonModels(&h, *w, &T::set_model_start, &T::set_model_finish);
  h.Value("length", 3, [=](T& o, int v) { o.set_length_start(l[static_cast<size_t>(v)]); });
  h.Value("load start", 3, [=](T& o, int v) { o.set_load_start(a[static_cast<size_t>(v)]); });
  h.Value("load finish", 3, [=](T& o, int v) { o.set_load_finish(b[static_cast<size_t>(v)]); });
  h.Peek("validate", [](const T& o) { std::list<ErrorMessage> m; o.Validate(true, &m); });
  h.Ask("length", [](const T& o) { return static_cast<double>(o.LengthFinish()); });
  h.Run(c);
}

void UnloadSequences(Case& c) {
  auto w = Gen(c);
  typedef CatenaryCableUnloader T;
  std::vector<Catenary3d> cats;
  for (int i = 0; i < 3; i++) {
    Span span;
    span.a = c.Real(50, 3000, 1000);
    span.b = c.Bool() ? 0 : c.Real(-0.3, 0.3, 0.1) * span.a;
    span.wz = c.LogReal(0.3, 6, 1);
    span.wy = c.Bool() ? 0 : c.Real(0, 4, 1);
    double H = static_cast<double>(span.HMin()) * c.LogReal(1.05, 40, 6);
    if (i == 1) {
      cats.push_back(cats[0]);
      if (c.Bool()) cats[1].set_tension_horizontal(Related(c, cats[0].tension_horizontal(), cats[0].tension_horizontal() * 0.99, 40000));
      else cats[1].set_weight_unit(Vector3d(0, cats[0].weight_unit().z(), cats[0].weight_unit().y() + 0.1));
    } else {
      cats.push_back(MakeCatenary(span, H));
    }
  }
  Histories<T> h;
  h.Pointer<Catenary3d>("catenary", cats, [](T& o, const Catenary3d* k) { o.set_catenary(k); });
  CommonModels(&h, *w, &T::set_model_reference, &T::set_model_unloaded);
  h.Peek("validate", [](const T& o) { std::list<ErrorMessage> m; o.Validate(true, &m); });
  h.Ask("length", [](const T& o) { return static_cast<double>(o.LengthUnloaded()); });
  h.Run(c);
}

}  // namespace

Property vp::MakeProperty() {
  Property p;
  p.id = "P17";
  p.assumptions = {"cable models as in P16; strains are compared where the composite slope exceeds 1000"};
  p.laws = {{"strain", "the load or the temperature changes", 12000, 250000, Strain},
            {"unload", "the temperature changes and the unloaded model is stretched", 12000, 250000, Unload},
            {"incomplete", "always", 6000, 60000, Incomplete},
            {"verdicts", "an input out of range", 12000, 120000, Verdicts},
            {"strain sequences", "an input changed, or the strainer was copied, after a query", 5000, 100000, StrainSequences},
            {"unload sequences", "an input changed, or the unloader was copied, after a query", 5000, 100000, UnloadSequences}};
  return p;
}
