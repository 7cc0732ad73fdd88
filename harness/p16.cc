// P16: the composite cable shares load between its components.
#include <memory>

#include "history.h"
#include "sagcable.h"

using namespace vp;
using namespace sag;

namespace {
typedef CableElongationModel::ComponentType Part;

Type GenType(Case& c) { return c.Bool() ? kCreep : kLoadStrain; }

void GenStates(Case& c, const Composite& m, CableState* st, CableStretchState* sx) {
  st->temperature = c.Real(-60, c.Chance(1, 4) ? 400 : 212, 70);
  st->type_polynomial = GenType(c);
  sx->temperature = c.Real(-60, c.Chance(1, 4) ? 250 : 100, 70);
  sx->type_polynomial = GenType(c);
  double cap = 0;
  for (int i = 0; i < 2; i++)
    if (m.on[i]) cap += static_cast<double>(m.part[i].Limit(sx->type_polynomial));
  sx->load = c.Chance(1, 4) ? 0 : cap * (c.Chance(1, 4) ? c.Real(0.8, 3, 1.2) : c.Real(0.005, 0.8, 0.3));
}

std::string StateText(const CableState& st, const CableStretchState& sx) {
  return Cat("state ", Name(st.type_polynomial), " ", st.temperature, " stretch ", Name(sx.type_polynomial), " ",
             sx.temperature, " load ", sx.load);
}

void Against(Case& c, const CableElongationModel& lib, const CompositeCurve& r, int n) {
  R lo = 1, hi = -1;
  double cmin = 1e300;
  for (int i = 0; i < 2; i++)
    if (r.on[i]) {
      lo = std::min(lo, r.k[i].eu);
      hi = std::max(hi, r.k[i].ee);
      cmin = std::min(cmin, static_cast<double>(r.k[i].C));
    }
  for (int i = 0; i < n; i++) {
    double e = static_cast<double>(lo + (hi - lo) * c.Real(-0.3, 1.4, 0.5));
    R load = r.Load(e);
    c.Note(Cat("strain ", e, " load ", static_cast<double>(load)));
    double got[3] = {lib.Load(Part::kCore, e), lib.Load(Part::kShell, e), lib.Load(Part::kCombined, e)};
    for (int j = 0; j < 2; j++)
      CheckNear(c, j == 0 ? "core load" : "shell load", got[j], r.on[j] ? static_cast<double>(r.k[j].Load(e)) : 0, r.tol, 1e-9);
    CheckNear(c, "combined load", got[2], got[0] + got[1], 1e-9, 1e-12);
    bool edge = false;
    for (int j = 0; j < 2; j++)
      if (r.on[j])
        for (R at : {r.k[j].eu, r.k[j].es, r.k[j].ee}) edge = edge || fabsl(at - e) <= r.strain_tol;
    if (!edge) {
      for (int j = 0; j < 2; j++)
        CheckNear(c, j == 0 ? "core slope" : "shell slope", lib.Slope(j == 0 ? Part::kCore : Part::kShell, e),
                  r.on[j] ? static_cast<double>(r.k[j].Slope(e)) : 0, 1e-6, 1e-3);
      CheckNear(c, "combined slope", lib.Slope(Part::kCombined, e), static_cast<double>(r.Slope(e)), 1e-6, 1e-3);
    }
    // the strain at which the parts together carry a load
    R slope = std::min(r.Slope(e - r.strain_tol - 1e-9L), r.Slope(e + r.strain_tol + 1e-9L));
    if (slope > 1000 && load < 60000) {
      double back = lib.Strain(Part::kCombined, got[2]);
      CheckNear(c, "combined strain of the load at a strain", back, e, 2 * (r.tol + 0.011) / static_cast<double>(slope), 1e-9);
      CheckNear(c, "combined load at the strain of a load", lib.Load(Part::kCombined, back), got[2], 0.0101, 1e-9);
      double sc = lib.Load(Part::kCore, back), ss = lib.Load(Part::kShell, back);
      CheckNear(c, "share of the parts", sc + ss, got[2], 0.0101, 1e-9);
    }
    double e2 = e + c.Real(0, 0.003, 0.0001);
    if (lib.Load(Part::kCombined, e2) < got[2] - 1e-6) c.Fail(Cat("the load decreases from strain ", e, " to ", e2));
  }
}

void Curves(Case& c) {
  Composite m = GenComposite(c, true);
  CableState st;
  CableStretchState sx;
  GenStates(c, m, &st, &sx);
  for (int i = 0; i < 2; i++) c.Note(m.on[i] ? Text(m.part[i]) : "none");
  c.Note(Cat(StateText(st, sx), " ref ", m.ref));
  CompositeCurve r;
  if (!MakeComposite(m, st, sx, &r)) c.Reject();
  Cable cable;
  FillCable(m, &cable);
  SagTensionCable stc;
  stc.set_cable_base(&cable);
  for (int i = 0; i < 2; i++)
    Check(c, stc.IsEnabled(i == 0 ? SagTensionCable::ComponentType::kCore : SagTensionCable::ComponentType::kShell) == m.on[i], "wrong components are enabled");
  Check(c, stc.IsEnabled(SagTensionCable::ComponentType::kCombined), "a cable with a component isn't enabled");
  CableElongationModel lib;
  lib.set_cable(&stc);
  lib.set_state(st);
  lib.set_state_stretch(sx);
  if (c.Chance(1, 3)) {
    std::list<ErrorMessage> msgs;
    bool ok = lib.Validate(false, &msgs);
    std::string t;
    for (auto& e : msgs) t += e.title + ": " + e.description + "; ";
    Check(c, ok && msgs.empty(), "a complete elongation model is not valid: " + t);
  }
  c.NonTrivial(m.on[0] && m.on[1] && sx.load > 0 && st.temperature != m.ref);
  Against(c, lib, r, static_cast<int>(c.Int(1, 3)));
}

// creep and stretch only ever lengthen: at a load, the strain after a stretch
// isn't below that before it (same temperature and polynomial)
void Stretch(Case& c) {
  Composite m = GenComposite(c, false);
  CableState st;
  CableStretchState sx;
  GenStates(c, m, &st, &sx);
  sx.type_polynomial = st.type_polynomial;
  double more = c.Real(1, 1.5, 1.2);
  CableStretchState s2 = sx;
  s2.load = sx.load * more;
  CompositeCurve r;
  if (!MakeComposite(m, st, s2, &r) || !MakeComposite(m, st, sx, &r)) c.Reject();
  Cable cable;
  FillCable(m, &cable);
  SagTensionCable stc;
  stc.set_cable_base(&cable);
  CableElongationModel a;
  a.set_cable(&stc);
  a.set_state(st);
  a.set_state_stretch(sx);
  CableElongationModel b;
  b.set_cable(&stc);
  b.set_state(st);
  b.set_state_stretch(s2);
  double load = c.Real(10, 20000, 1000);
  c.Note(Cat(StateText(st, sx), " load ", load, " more ", more));
  double ea = a.Strain(Part::kCombined, load), eb = b.Strain(Part::kCombined, load);
  if (r.Slope(ea) < 10000) c.Reject();
  c.NonTrivial(sx.load > 0 && more > 1);
  if (eb < ea - 2 * r.tol / static_cast<double>(r.Slope(ea))) c.Fail(Cat("strain at ", load, " drops from ", ea, " to ", eb, " after more stretch"));
  // heating lengthens the cable by an amount between that of its parts
  double dt = c.Real(0, 100, 10);
  CableState hot = st;
  hot.temperature += dt;
  a.set_state(hot);
  double eh = a.Strain(Part::kCombined, load);
  double amin = 1, amax = 0;
  for (int i = 0; i < 2; i++)
    if (m.on[i]) {
      amin = std::min(amin, m.part[i].base.coefficient_expansion_linear_thermal);
      amax = std::max(amax, m.part[i].base.coefficient_expansion_linear_thermal);
    }
  double tol = 2 * r.tol / static_cast<double>(std::min(r.Slope(ea), r.Slope(eh)));
  if (r.Slope(eh) > 10000 && (eh - ea < amin * dt - tol || eh - ea > amax * dt + tol))
    c.Fail(Cat("heating by ", dt, " lengthens by ", eh - ea, ", parts by ", amin * dt, " and ", amax * dt));
}

// edits, queries, validation, copies in any order
void History(Case& c) {
  std::vector<std::unique_ptr<Cable>> cables;
  std::vector<std::unique_ptr<SagTensionCable>> stcs;
  CableState sts[3];
  CableStretchState sxs[3];
  for (int i = 0; i < 2; i++) {
    Composite m = GenComposite(c, true);
    cables.emplace_back(new Cable());
    FillCable(m, cables.back().get());
    stcs.emplace_back(new SagTensionCable());
    stcs.back()->set_cable_base(cables.back().get());
    if (i == 0)
      for (int j = 0; j < 3; j++) GenStates(c, m, &sts[j], &sxs[j]);
  }
  int im = 0, is = 0, ix = 0;
  std::unique_ptr<CableElongationModel> lib(new CableElongationModel());
  lib->set_cable(stcs[0].get());
  lib->set_state(sts[0]);
  lib->set_state_stretch(sxs[0]);
  int n = static_cast<int>(c.Int(1, 8)), asked = 0, edits = 0;
  std::unique_ptr<CableElongationModel> other;
  int oim = 0, ois = 0, oix = 0;
  for (int i = 0; i < n; i++) {
    switch (c.Int(0, 7)) {
      case 0: im = static_cast<int>(c.Int(0, 1)); lib->set_cable(stcs[im].get()); edits += asked > 0; c.Note(Cat("cable ", im)); break;
      case 1: is = static_cast<int>(c.Int(0, 2)); lib->set_state(sts[is]); edits += asked > 0; c.Note(Cat("state ", is)); break;
      case 2: ix = static_cast<int>(c.Int(0, 2)); lib->set_state_stretch(sxs[ix]); edits += asked > 0; c.Note(Cat("stretch ", ix)); break;
      case 3: {
        std::list<ErrorMessage> m;
        bool w = c.Bool();
        lib->Validate(w, &m);
        c.Note(Cat("validate ", w));
        asked++;
        break;
      }
      case 4:  // continue with a copy, drop the original
        lib.reset(new CableElongationModel(CableElongationModel(*lib)));
        c.Note("copy");
        edits++;
        break;
      case 5:  // assign, keep the source
        if (!other) { other.reset(new CableElongationModel()); other->set_cable(stcs[0].get()); other->set_state(sts[0]); other->set_state_stretch(sxs[0]); other->Load(Part::kCombined, 0.001); }
        *other = *lib;
        std::swap(other, lib);
        oim = im; ois = is; oix = ix;
        c.Note("assign");
        edits++;
        break;
      default:
        lib->Load(c.PickOf<Part>({Part::kCombined, Part::kCore, Part::kShell}), 0.001);
        c.Note("query");
        asked++;
        break;
    }
  }
  c.NonTrivial(edits > 0);
  double e = c.Real(-0.002, 0.008, 0.001), L = c.Real(0, 20000, 1000);
  auto compare = [&](const char* who, const CableElongationModel& got, int km, int ks, int kx) {
    CableElongationModel fresh;
    fresh.set_cable(stcs[km].get());
    fresh.set_state(sts[ks]);
    fresh.set_state_stretch(sxs[kx]);
    for (Part p : {Part::kCombined, Part::kCore, Part::kShell}) {
      auto same = [&](const char* what, double a, double b) {
        if (!(a == b) && !(std::isnan(a) && std::isnan(b)) && !Near(a, b, 1e-9, 1e-12))
          c.Fail(Cat(who, ": ", what, " of part ", static_cast<int>(p), " after edits: ", a, ", with the same inputs from scratch: ", b));
      };
      same("load", got.Load(p, e), fresh.Load(p, e));
      same("slope", got.Slope(p, e), fresh.Slope(p, e));
      same("strain", got.Strain(p, L), fresh.Strain(p, L));
    }
    Check(c, got.state().temperature == sts[ks].temperature && got.state_stretch().load == sxs[kx].load && got.cable() == stcs[km].get(),
          "the inputs don't read back");
  };
  compare("edited model", *lib, im, is, ix);
  if (other) compare("source of the copy", *other, oim, ois, oix);
}

// the same, and with a cable that is changed in place, slightly changed inputs,
// copies and assignments
void Sequences(Case& c) {
  typedef CableElongationModel M;
  auto base = std::make_shared<std::vector<Cable>>(4);
  auto stcs = std::make_shared<std::vector<SagTensionCable>>(4);
  Composite m0 = GenComposite(c, true), m1 = GenComposite(c, true);
  FillCable(m0, &(*base)[0]);
  FillCable(m1, &(*base)[1]);
  (*base)[2] = (*base)[0];
  Cable& k = (*base)[2];
  switch (c.Int(0, 5)) {
    case 0: k.temperature_properties_components += 10; break;
    case 1: k.component_shell.coefficient_expansion_linear_thermal *= 1.2; break;
    case 2: k.component_core.coefficients_polynomial_creep = k.component_core.coefficients_polynomial_loadstrain; break;
    case 3: std::swap(k.component_core, k.component_shell); break;
    case 4: k.component_core = CableComponent(); break;
    default: k.component_shell.coefficients_polynomial_creep.assign(5, 0); break;
  }
  for (size_t i = 0; i < 3; i++) (*stcs)[i].set_cable_base(&(*base)[i]);
  (*base)[3] = (*base)[0];
  (*stcs)[3].set_cable_base(&(*base)[3]);
  bool any = true;
  for (size_t i = 0; i < 3; i++) any = any && (*stcs)[i].IsEnabled(SagTensionCable::ComponentType::kCombined);
  if (!any) c.Reject();
  CableState sts[3];
  CableStretchState sxs[3];
  for (int i = 0; i < 3; i++) GenStates(c, m0, &sts[i], &sxs[i]);
  sts[1] = sts[0];
  sts[1].temperature = Related(c, sts[0].temperature, -60, 400);
  sxs[1] = sxs[0];
  if (c.Bool()) sxs[1].temperature = Related(c, sxs[0].temperature, -60, 250);
  else sxs[1].load = Related(c, sxs[0].load, 0, sxs[0].load);
  std::vector<double> strains, loads;
  for (int i = 0; i < 2; i++) {
    strains.push_back(c.Real(-0.002, 0.008, 0.001));
    loads.push_back(c.Real(0, 20000, 1000));
  }
  std::vector<CableState> states(sts, sts + 3);
  std::vector<CableStretchState> stretches(sxs, sxs + 3);
  Histories<M> h;
  h.Pointer("cable", 3, [=](int v) { (*base)[3] = (*base)[static_cast<size_t>(v)]; (*stcs)[3].set_cable_base(&(*base)[3]); },
            [=](M& o, int v, bool shared) { o.set_cable(&(*stcs)[shared ? 3 : static_cast<size_t>(v)]); });
  h.Value("state", 3, [=](M& o, int v) { o.set_state(states[static_cast<size_t>(v)]); });
  h.Value("stretch", 3, [=](M& o, int v) { o.set_state_stretch(stretches[static_cast<size_t>(v)]); });
  for (Part p : {Part::kCombined, Part::kCore, Part::kShell}) {
    h.Peek("load", [=](const M& o) { o.Load(p, strains[0]); });
    h.Peek("strain", [=](const M& o) { o.Strain(p, loads[0]); });
  }
  h.Peek("validate", [](const M& o) { std::list<ErrorMessage> m; o.Validate(true, &m); });
  for (Part p : {Part::kCore, Part::kShell, Part::kCombined}) {
  h.Ask("load", [=](const M& o, std::vector<double>* r) {
    if (!o.cable()->IsEnabled(p == Part::kCore ? SagTensionCable::ComponentType::kCore
                              : p == Part::kShell ? SagTensionCable::ComponentType::kShell : SagTensionCable::ComponentType::kCombined)) return;
    for (double e : strains) r->push_back(o.Load(p, e));
  });
  h.Ask("slope", [=](const M& o, std::vector<double>* r) {
    if (!o.cable()->IsEnabled(p == Part::kCore ? SagTensionCable::ComponentType::kCore
                              : p == Part::kShell ? SagTensionCable::ComponentType::kShell : SagTensionCable::ComponentType::kCombined)) return;
    for (double e : strains) r->push_back(o.Slope(p, e));
  });
  h.Ask("strain", [=](const M& o, std::vector<double>* r) {
    if (!o.cable()->IsEnabled(p == Part::kCore ? SagTensionCable::ComponentType::kCore
                              : p == Part::kShell ? SagTensionCable::ComponentType::kShell : SagTensionCable::ComponentType::kCombined)) return;
    for (double l : loads) r->push_back(o.Strain(p, l));
  });
  }
  h.Run(c);
}

// whatever the stretch, state and load: an answer that is given fits, and a
// stretched cable carries its stretch load at the strain where it was stretched
void Extremes(Case& c) {
  Composite m = GenComposite(c, true);
  CableState st;
  CableStretchState sx;
  GenStates(c, m, &st, &sx);
  if (c.Bool()) st.temperature = c.Real(-273, 3000, 70);
  if (c.Bool()) sx.temperature = c.Real(-273, 1000, 70);
  if (c.Bool()) sx.load = c.LogReal(1, 1e6, 1000);
  if (c.Bool()) { st.temperature = sx.temperature; st.type_polynomial = sx.type_polynomial; }
  for (int i = 0; i < 2; i++) c.Note(m.on[i] ? Text(m.part[i]) : "none");
  c.Note(Cat(StateText(st, sx), " ref ", m.ref));
  Cable cable;
  FillCable(m, &cable);
  SagTensionCable stc;
  stc.set_cable_base(&cable);
  CableElongationModel lib;
  lib.set_cable(&stc);
  lib.set_state(st);
  lib.set_state_stretch(sx);
  std::list<ErrorMessage> msgs;
  const bool ok = lib.Validate(false, &msgs);
  Check(c, ok == msgs.empty(), "the verdict and the messages disagree");
  if (!ok) return;
  const double load = c.Chance(1, 4) ? sx.load : c.Bool() ? c.LogReal(0.01, 1e6, 1000) : c.Real(-20000, 0, 0);
  const double strain = lib.Strain(Part::kCombined, load), far = std::fabs(load) * 1e-12;
  c.Note(Cat("strain at ", load, ": ", strain));
  c.NonTrivial(strain == -999999 || load < 0 || sx.load > 30000 || st.temperature > 400);
  if (strain != -999999 && load > 0) {
    Check(c, std::isfinite(strain), "a strain isn't a number");
    CheckNear(c, "load at the strain of a load", lib.Load(Part::kCombined, strain), load, 0.0101 + far, 0);
  }
  if (sx.load == 0 || st.temperature != sx.temperature || st.type_polynomial != sx.type_polynomial) return;
  CableElongationModel before;
  before.set_cable(&stc);
  before.set_state(st);
  CableStretchState none = sx;
  none.load = 0;
  before.set_state_stretch(none);
  const double at = before.Strain(Part::kCombined, sx.load);
  c.Note(Cat("stretched at ", at));
  Check(c, std::isfinite(at), "the strain of the stretch isn't a number");
  if (at == -999999) c.Fail("a cable that can't reach its stretch load is valid");
  CheckNear(c, "load at the stretch", lib.Load(Part::kCombined, at), sx.load, 0.5 + 1e-6 * sx.load, 0);
}

}  // namespace

Property vp::MakeProperty() {
  Property p;
  p.id = "P16";
  p.assumptions = {"component polynomials increase over the strains used",
                   "the combined strain is compared where the composite slope exceeds 1000 and the load is below 60000"};
  p.laws = {{"curve", "two components, stretched, away from the reference temperature", 20000, 400000, Curves},
            {"stretch", "a stretch load was increased", 10000, 200000, Stretch},
            {"history", "an input changed, or the model was copied, after a query", 20000, 300000, History},
            {"sequences", "an input changed, or the model was copied, after a query", 5000, 100000, Sequences},
            {"extremes", "hot, stretched by over 30000, or asked for a compressing or unreachable load", 15000, 300000, Extremes}};
  return p;
}
