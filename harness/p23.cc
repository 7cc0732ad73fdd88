// P23: corrections for a cable that is sagged in pulleys.
#include <memory>

#include "history.h"
#include "linesag.h"
#include "models/sagging/cable_sag_position_corrector.h"

using namespace vp;
using namespace sag;

namespace {

struct World {
  std::unique_ptr<LineWorld> w;
  double H;
  std::vector<Span> spans;
  std::vector<Point3d<double>> points;
};

World Gen(Case& c, int weather = 2) {
  World g;
  g.w = GenLine(c, 2);
  CableConstraint k = GenConstraint(c, *g.w, weather, false);
  k.type_limit = CableConstraint::LimitType::kHorizontalTension;
  int n = static_cast<int>(c.PickOf<int>({2, 3, 1, 5, 9, 3, 2, 24}));
  double steep = c.PickOf<double>({0.1, 0.02, 0.3, 0});
  Point3d<double> p(c.Real(-100, 100, 0), c.Chance(1, 3) ? c.Real(-100, 100, 0) : 0, c.Real(0, 500, 100));
  g.points.push_back(p);
  Span s = g.w->Loaded(Vector3d(1000, 0, 0), *k.case_weather);
  R need = 0;
  // any heading, and turns
  const int turns = static_cast<int>(c.Int(0, 2));
  double heading = turns == 0 ? 0 : c.Real(0, 360, 90);
  for (int i = 0; i < n; i++) {
    if (turns == 2 && i > 0) heading += c.Chance(1, 8) ? c.Real(-180, 180, 120) : c.Real(-80, 80, 10);
    s.a = c.Real(100, 1600, 800);
    s.b = c.Chance(1, 4) ? 0 : c.Real(-steep, steep, steep / 2) * s.a;
    p.x += turns == 0 ? s.a : s.a * std::cos(heading * model::kPi / 180);
    if (turns != 0) p.y += s.a * std::sin(heading * model::kPi / 180);
    p.z += s.b;
    s.a = std::hypot(p.x - g.points.back().x, p.y - g.points.back().y);  // as the library will see it
    s.b = p.z - g.points.back().z;
    g.points.push_back(p);
    g.spans.push_back(s);
    need = std::max(need, s.HMin());
  }
  g.H = std::max(static_cast<double>(1.2L * need), static_cast<double>(g.w->Loaded(Vector3d(g.w->ruling.a, 0, g.w->ruling.b), *k.case_weather).HMin()) * 1.2) *
        c.LogReal(1, 20, 4);
  k.limit = g.H;
  g.w->line.set_constraint(k);
  std::string t;
  for (const auto& q : g.spans) t += Cat("(", q.a, " ", q.b, ") ");
  c.Note(Cat("H=", g.H, " load (", s.wy, " ", s.wz, ") spans ", t, turns == 0 ? "along x" : turns == 1 ? "with a heading" : "with turns"));
  return g;
}
R Total(const World& g, const std::vector<R>& H) {
  R sum = 0;
  for (size_t i = 0; i < g.spans.size(); i++) sum += g.spans[i].At(H[i]).len;
  return sum;
}
R End(const Span& s, R H, bool ahead) {
  model::Curve r = s.At(H);
  return r.Tension(ahead ? r.xr : r.xl);
}
// tensions of the spans, when the first one has H and the cable hangs in pulleys
bool Chain(const World& g, R H, std::vector<R>* out) {
  out->clear();
  for (size_t i = 0; i < g.spans.size(); i++) {
    if (i > 0) {
      const R T = End(g.spans[i - 1], out->back(), true);
      const Span& s = g.spans[i];
      R lo = s.HMin(), hi = 4 * T + 1;
      // above the lowest end tension, the tension rises
      if (End(s, 1.02L * lo, false) <= End(s, lo, false) || End(s, lo, false) > T) return false;
      H = Root([&](R h) { return End(s, h, false) - T; }, lo, hi, 1e-12L * T);
    }
    if (H < 1.05L * g.spans[i].HMin()) return false;
    out->push_back(H);
  }
  return true;
}

void Correct(Case& c) {
  World g = Gen(c);
  const size_t n = g.spans.size();
  // the state in pulleys
  std::vector<R> H, clipped(n, g.H);
  const R length = Total(g, clipped);
  R lo = 0.2L * g.H, hi = 5 * g.H;
  std::vector<R> t;
  for (int j = 0; j < 40 && !Chain(g, lo, &t); j++) lo += (g.H - lo) * 0.3L;
  bool exists = Chain(g, lo, &t) && Total(g, t) >= length && Chain(g, hi, &t) && Total(g, t) <= length;
  R gain = 0;
  if (exists) {
    for (int j = 0; j < 200; j++) {
      R m = (lo + hi) / 2;
      if (!Chain(g, m, &t)) { exists = false; break; }
      (Total(g, t) > length ? lo : hi) = m;
    }
  }
  if (exists) {
    exists = Chain(g, (lo + hi) / 2, &H);
    std::vector<R> up, base, down;
    R h = 0.001L * H[0];
    exists = exists && Chain(g, H[0] + h, &up) && Chain(g, g.H * 1.1L, &t) && Chain(g, g.H, &base) && Chain(g, H[0] * 0.8L, &down);
    if (exists) {
      // the first step of the library's secant search also has to be a state that can exist
      const R y0 = Total(g, base), y1 = Total(g, t), x = g.H + (length - y0) * 0.1L * g.H / (y1 - y0);
      std::vector<R> step;
      exists = x > 0 && Chain(g, x, &step);
    }
    if (exists) gain = fabsl(Total(g, up) - Total(g, H)) / h;
  }
  if (!exists) c.Reject();
  CableSagPositionCorrector lib;
  lib.set_linecable(&g.w->line);
  lib.set_points_attachment(&g.points);
  std::list<ErrorMessage> m;
  int first = static_cast<int>(c.Int(0, 3));
  if (first == 1) lib.SagCorrections();
  if (first == 2) lib.ClippingOffsets();
  const bool valid = lib.Validate(false, &m);
  std::string text;
  for (auto& e : m) text += e.title + ": " + e.description + "; ";
  Check(c, valid && m.empty(), "a sag position corrector with a solution isn't valid: " + text);
  const std::vector<Catenary3d>* kc = lib.CatenariesClipped();
  const std::vector<Catenary3d>* kp = lib.CatenariesPulleyed();
  if (kc == nullptr || kp == nullptr) c.Fail("no catenaries");
  if (kc->size() != n || kp->size() != n) c.Fail("number of catenaries");
  double most = 0;
  for (size_t i = 0; i < n; i++) most = std::max(most, std::fabs(static_cast<double>(H[i] - g.H)));
  c.NonTrivial(n > 1 && most > 1);
  R sum = 0, before = 0;
  const std::vector<double> offset = lib.ClippingOffsets(), correction = lib.SagCorrections();
  if (offset.size() != n + 1) c.Fail(Cat(offset.size(), " clipping offsets for ", n, " spans"));
  if (correction.size() != n) c.Fail(Cat(correction.size(), " sag corrections for ", n, " spans"));
  for (size_t i = 0; i < n; i++) {
    const Catenary3d &a = (*kc)[i], &b = (*kp)[i];
    const Span& s = g.spans[i];
    for (const Catenary3d* k : {&a, &b}) {
      CheckNear(c, "horizontal distance of the ends", k->spacing_endpoints().x(), s.a, 0, 1e-13);
      Check(c, k->spacing_endpoints().z() == s.b && k->spacing_endpoints().y() == 0, "ends of a span");
      CheckNear(c, "transverse load", k->weight_unit().y(), s.wy, 1e-12, 1e-12);
      CheckNear(c, "vertical load", k->weight_unit().z(), s.wz, 1e-12, 1e-12);
    }
    // clipped: the same horizontal tension in all spans
    CheckNear(c, "clipped tension", a.tension_horizontal(), g.H, 0, 1e-12);
    // in pulleys: the same tension on both sides of each support
    const double hb = b.tension_horizontal();
    if (i > 0)
      CheckNear(c, "difference of the tensions at a pulley", static_cast<double>(End(s, hb, false) - End(g.spans[i - 1], (*kp)[i - 1].tension_horizontal(), true)), 0, 0.05, 1e-7);
    model::Curve ra = s.At(g.H), rb = s.At(hb);
    const double tol = 1e-8 * static_cast<double>(ra.len);
    CheckNear(c, "sag correction", correction[i], static_cast<double>(rb.Sag(rb.XSag()) - ra.Sag(ra.XSag())), tol * 3, 1e-9);
    if (i == 0) CheckNear(c, "offset at the start", offset[0], 0, 0, 0);
    sum += rb.len;
    before += ra.len;
    if (i + 1 < n) CheckNear(c, "clipping offset", offset[i + 1], static_cast<double>(before - sum), tol * 3 * static_cast<double>(i + 1), 1e-9);
  }
  CheckNear(c, "offset at the end", offset[n], 0, 0, 0);
  // the cable keeps its length
  const double noise = 0.02 * static_cast<double>(n) * static_cast<double>(gain) + 1e-8 * static_cast<double>(length);
  CheckNear(c, "length in pulleys", static_cast<double>(sum), static_cast<double>(length), 0.011 + 0.11 * static_cast<double>(gain) + noise, 0);
  for (size_t i = 0; i < n; i++) {
    const double tol = 0.15 + 0.02 / std::max(1e-9, static_cast<double>(gain)) + 0.05 * static_cast<double>(n);
    if (tol < 0.1 * g.H) CheckNear(c, "tension in pulleys", (*kp)[i].tension_horizontal(), static_cast<double>(H[i]), 2 * tol, 0.01);
  }
}

void History(Case& c) {
  World g[2] = {Gen(c), Gen(c, 3)};
  std::unique_ptr<CableSagPositionCorrector> lib(new CableSagPositionCorrector());
  int il = 0, ip = 0, asked = 0, edits = 0;
  lib->set_linecable(&g[0].w->line);
  lib->set_points_attachment(&g[0].points);
  int n = static_cast<int>(c.Int(1, 7));
  for (int i = 0; i < n; i++) {
    int kind = static_cast<int>(c.Int(0, 6));
    c.Note(Cat("step ", kind));
    switch (kind) {
      case 0: il = static_cast<int>(c.Int(0, 1)); lib->set_linecable(&g[il].w->line); edits += asked > 0; break;
      case 1: ip = static_cast<int>(c.Int(0, 1)); lib->set_points_attachment(&g[ip].points); edits += asked > 0; break;
      case 2:  // moved points, set again
        g[ip].points.back().z += c.Real(-20, 20, 1);
        lib->set_points_attachment(&g[ip].points);
        edits += asked > 0;
        break;
      case 3: lib.reset(new CableSagPositionCorrector(*lib)); edits += asked > 0; break;
      case 4: lib->Validate(c.Bool()); asked++; break;
      default: lib->SagCorrections(); lib->ClippingOffsets(); asked++; break;
    }
  }
  c.NonTrivial(edits > 0);
  CableSagPositionCorrector f;
  f.set_points_attachment(&g[ip].points);
  f.set_linecable(&g[il].w->line);
  std::vector<double> a = lib->SagCorrections(), b = f.SagCorrections(), d = lib->ClippingOffsets(), e = f.ClippingOffsets();
  Check(c, a.size() == b.size() && d.size() == e.size(), "number of corrections after edits");
  for (size_t i = 0; i < a.size(); i++)
    if (!std::isnan(a[i]) || !std::isnan(b[i])) CheckNear(c, "sag correction after edits", a[i], b[i], 1e-9, 1e-12);
  for (size_t i = 0; i < d.size(); i++)
    if (!std::isnan(d[i]) || !std::isnan(e[i])) CheckNear(c, "clipping offset after edits", d[i], e[i], 1e-9, 1e-12);
  Check(c, (lib->CatenariesClipped() == nullptr) == (f.CatenariesClipped() == nullptr), "catenaries after edits");
}

void Incomplete(Case& c) {
  World g = Gen(c);
  int missing = static_cast<int>(c.Int(0, 4));
  c.Note(Cat("missing ", missing));
  c.NonTrivial(missing > 0);
  CableSagPositionCorrector lib;
  if (missing == 2) g.points.resize(static_cast<size_t>(c.Int(0, 1)));
  if (missing == 3) g.w->line.set_cable(nullptr);
  if (missing == 4) g.w->line.set_constraint(CableConstraint());
  if (missing != 0) lib.set_linecable(&g.w->line);
  if (missing != 1) lib.set_points_attachment(&g.points);
  std::list<ErrorMessage> m;
  Check(c, !lib.Validate(c.Bool(), &m) && !lib.Validate(c.Bool()), "an incomplete sag position corrector is valid");
  Check(c, !m.empty(), "invalid without a message");
}

// the same, with a line cable and points that are changed in place, and assignments
void Sequences(Case& c) {
  typedef CableSagPositionCorrector T;
  auto g = std::make_shared<std::vector<World>>();
  g->push_back(Gen(c));
  g->push_back(Gen(c, 3));
  auto lines = std::make_shared<std::vector<LineCable>>();
  lines->push_back((*g)[0].w->line);
  lines->push_back((*g)[0].w->line);
  lines->push_back((*g)[1].w->line);
  CableConstraint k = (*lines)[1].constraint();
  if (c.Bool()) k.limit *= 1.01;
  else k.case_weather = (*g)[0].w->weathers[3].get();
  (*lines)[1].set_constraint(k);
  std::vector<std::vector<Point3d<double>>> points = {(*g)[0].points, (*g)[0].points, (*g)[1].points};
  switch (c.Int(0, 2)) {
    case 0: points[1].back().z += c.PickOf<double>({1, -5, 20}); break;
    case 1: if (points[1].size() > 2) points[1].pop_back(); break;
    default: points[1][static_cast<size_t>(c.Int(0, static_cast<int>(points[1].size()) - 1))].z += 3; break;
  }
  Histories<T> h;
  auto keep = g;
  h.Pointer<LineCable>("line cable", *lines, [keep](T& o, const LineCable* l) { o.set_linecable(l); });
  h.Pointer<std::vector<Point3d<double>>>("points", points, [](T& o, const std::vector<Point3d<double>>* p) { o.set_points_attachment(p); });
  h.Peek("offsets", [](const T& o) { o.ClippingOffsets(); });
  h.Peek("corrections", [](const T& o) { o.SagCorrections(); });
  h.Peek("catenaries", [](const T& o) { o.CatenariesPulleyed(); });
  h.Peek("validate", [](const T& o) { std::list<ErrorMessage> m; o.Validate(true, &m); });
  h.Ask("offsets", [](const T& o, std::vector<double>* r) {
    for (double x : o.ClippingOffsets()) r->push_back(x);
  });
  h.Ask("corrections", [](const T& o, std::vector<double>* r) {
    for (double x : o.SagCorrections()) r->push_back(x);
  });
  h.Ask("clipped", [](const T& o, std::vector<double>* r) {
    const auto* k = o.CatenariesClipped();
    r->push_back(k == nullptr);
    if (k == nullptr) return;
    for (const Catenary3d& x : *k) r->push_back(x.tension_horizontal());
  });
  h.Ask("pulleyed", [](const T& o, std::vector<double>* r) {
    const auto* k = o.CatenariesPulleyed();
    r->push_back(k == nullptr);
    if (k == nullptr) return;
    for (const Catenary3d& x : *k) r->push_back(x.tension_horizontal());
  });
  h.Ask("verdict", [](const T& o) { return static_cast<double>(o.Validate(false, nullptr)); });
  h.Run(c);
}

// whatever is asked for: a state in pulleys that is accepted is one
void Extremes(Case& c) {
  World g = Gen(c);
  // other points, up to cliffs; and tensions down to slack spans
  const double steep = c.PickOf<double>({0.3, 1, 3, 0.05});
  double need = 0;
  for (size_t i = 0; i < g.spans.size(); i++) {
    Span& s = g.spans[i];
    const double a = c.Chance(1, 5) ? c.LogReal(5, 100, 50) : c.Chance(1, 5) ? c.Real(1500, 5000, 2000) : static_cast<double>(s.a);
    const Point3d<double>& p = g.points[i];
    Point3d<double> q(p.x + a, p.y, p.z + c.Real(-steep, steep, 0) * a);
    if (c.Chance(1, 5)) { q.x = p.x; q.y = p.y - a; }
    g.points[i + 1] = q;
    s.a = std::hypot(q.x - p.x, q.y - p.y);
    s.b = q.z - p.z;
    need = std::max(need, static_cast<double>(s.HMin()));
  }
  CableConstraint k = g.w->line.constraint();
  g.H = need * c.LogReal(0.15, 60, 1);
  k.limit = g.H;
  g.w->line.set_constraint(k);
  std::string t;
  for (const auto& q : g.spans) t += Cat("(", q.a, " ", q.b, ") ");
  c.Note(Cat("now H=", g.H, " spans ", t));
  CableSagPositionCorrector lib;
  lib.set_linecable(&g.w->line);
  lib.set_points_attachment(&g.points);
  if (c.Chance(1, 3)) lib.SagCorrections();
  std::list<ErrorMessage> m;
  const bool ok = lib.Validate(false, &m);
  Check(c, ok == m.empty(), "the verdict and the messages disagree");
  const auto *kc = lib.CatenariesClipped(), *kp = lib.CatenariesPulleyed();
  if (!ok) {
    if (m.size() == 1 && m.front().title == "CABLE SAG POSITION CORRECTOR") {
      c.NonTrivial();
      Check(c, kc == nullptr && kp == nullptr && lib.SagCorrections().empty() && lib.ClippingOffsets().empty(), "a rejected state is returned");
    }
    return;
  }
  const size_t n = g.spans.size();
  if (kc == nullptr || kp == nullptr || kc->size() != n || kp->size() != n) c.Fail("no catenaries for an accepted state");
  c.Note("accepted");
  bool slack = false;
  R sum = 0, before = 0, gain = 0, chain = 1;
  for (size_t i = 0; i < n; i++) {
    const Span& s = g.spans[i];
    const double h = (*kp)[i].tension_horizontal();
    Check(c, std::isfinite(h) && h > 0, Cat("accepted with a tension ", h, " in pulleys"));
    slack = slack || h < s.HMin() || h > 20 * s.HMin();
    CheckNear(c, "clipped tension", (*kc)[i].tension_horizontal(), g.H, 0, 1e-12);
    const R e = 1e-4L * h;
    if (i > 0) {
      const R before_h = (*kp)[i - 1].tension_horizontal(), T = End(g.spans[i - 1], before_h, true);
      CheckNear(c, "difference of the tensions at a pulley", static_cast<double>(End(s, h, false) - T), 0, 0.05, 1e-7 * static_cast<double>(T));
      const R up = 1e-4L * before_h, left = (End(s, h + e, false) - End(s, h - e, false)) / (2 * e);
      chain *= (End(g.spans[i - 1], before_h + up, true) - End(g.spans[i - 1], before_h - up, true)) / (2 * up) / (left == 0 ? 1e-30L : left);
    }
    sum += s.At(h).len;
    before += s.At(g.H).len;
    gain += chain * (s.At(h + e).len - s.At(h - e).len) / (2 * e);
  }
  c.NonTrivial(slack);
  gain = fabsl(gain);
  if (gain > 5) return;  // a small step of the tension moves too much
  const double noise = 0.02 * static_cast<double>(n) * static_cast<double>(gain) + 1e-8 * static_cast<double>(before);
  CheckNear(c, "length in pulleys of an accepted state", static_cast<double>(sum), static_cast<double>(before),
            0.011 + 0.15 * static_cast<double>(gain) + noise, 0);
}

}  // namespace

Property vp::MakeProperty() {
  Property p;
  p.id = "P23";
  p.assumptions = {"spans with H/w above 0.6 times the distance of their ends, clipped, in pulleys and at the first step of the search"};
  p.laws = {{"correct", "more than one span, and a tension in pulleys differs by over 1 lb from the clipped one", 2500, 40000, Correct},
            {"history", "an input changed, or the object was copied, after a query", 1500, 25000, History},
            {"incomplete", "something other than the line cable is missing", 600, 6000, Incomplete},
            {"sequences", "an input changed, or the object was copied, after a query", 700, 14000, Sequences},
            {"extremes", "rejected as unsolvable, or accepted with a slack or taut span", 1500, 25000, Extremes}};
  return p;
}
