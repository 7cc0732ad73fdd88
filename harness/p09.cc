// P09: the balance of cable pulls at a supporting insulator string.
#include <list>

#include "engine.h"
#include "history.h"
#include "model.h"
#include "models/transmissionline/cable_attachment_equilibrium_solver.h"

using namespace vp;
using model::Deg;
using model::Rad;

namespace {

struct Span {
  double a, b, wy, wz;
  bool negative;
};
struct In {
  Span back, ahead;
  double H, angle, hardware;
  bool negative;
};
Span GenSpan(Case& c, double wy, double wz, bool negative) {
  Span s;
  s.a = c.Bool() ? 1000 : c.LogReal(100, 3000, 1000);
  s.b = c.Bool() ? 0 : c.Real(-0.4, 0.4, 0.1) * s.a;
  s.wy = wy;
  s.wz = wz;
  s.negative = negative;
  return s;
}
In Gen(Case& c) {
  In i;
  const double wz = c.LogReal(0.2, 10, 1), wy = c.Bool() ? 0 : wz * c.LogReal(0.01, 10, 1);
  const bool neg = c.Bool();
  i.back = GenSpan(c, wy, wz, neg);
  i.ahead = GenSpan(c, wy, wz, neg);
  if (c.Chance(1, 4)) {  // different loads and wind on the two sides
    i.ahead.wz = c.LogReal(0.2, 10, 1);
    i.ahead.negative = c.Bool();
  }
  const double longest = std::fmax(std::hypot(i.back.a, i.back.b), std::hypot(i.ahead.a, i.ahead.b));
  i.H = longest / 2 * std::hypot(std::fmax(wy, i.ahead.wy), std::fmax(wz, i.ahead.wz)) * c.LogReal(1.01, 50, 5);
  i.angle = c.Bool() ? 180 : c.Bool() ? c.Real(90, 180, 150) : c.Real(0, 180, 120);
  i.hardware = c.Bool() ? c.Real(90, 180, 170) : c.Real(0, 180, 90);
  i.negative = c.Bool();
  return i;
}
Catenary3d Make(const Span& s, double H) {
  Catenary3d k;
  k.set_spacing_endpoints(Vector3d(s.a, 0, s.b));
  k.set_weight_unit(Vector3d(0, s.wy, s.wz));
  k.set_tension_horizontal(H);
  k.set_direction_transverse(s.negative ? AxisDirectionType::kNegative : AxisDirectionType::kPositive);
  return k;
}
void Set(CableAttachmentEquilibriumSolver& s, const In& i, const Catenary3d* back, const Catenary3d* ahead) {
  s.set_angle_catenaries(i.angle);
  s.set_angle_hardware(i.hardware);
  s.set_catenary_back(back);
  s.set_catenary_ahead(ahead);
  s.set_direction_catenaries(i.negative ? AxisDirectionType::kNegative : AxisDirectionType::kPositive);
}
std::string Show(const Span& s) {
  return Cat("[(", s.a, ", ", s.b, ") weight (", s.wy, ", ", s.wz, ")", s.negative ? " wind -]" : " wind +]");
}
std::string Show(const In& i) {
  return Cat("H ", i.H, " back ", Show(i.back), " ahead ", Show(i.ahead), " angle ", i.angle, " hardware ", i.hardware,
             i.negative ? " negative side" : " positive side");
}
struct Pull {
  double x, y, z;
  double Size() const { return std::sqrt(x * x + y * y + z * z); }
};
// pull of a catenary end, turned by `deg` in plan
Pull Turn(const Vector3d& v, double deg) {
  const double q = Rad(deg);
  return {v.x() * std::cos(q) - v.y() * std::sin(q), v.x() * std::sin(q) + v.y() * std::cos(q), v.z()};
}
Pull Total(const In& i, const Catenary3d& back, const Catenary3d& ahead) {
  // both spans bend towards the side they extend to
  const double turn = (180 - i.angle) / 2 * (i.negative ? -1 : 1);
  const Pull p = Turn(back.Tension(1, AxisDirectionType::kNegative), -turn);
  const Pull q = Turn(ahead.Tension(0, AxisDirectionType::kPositive), turn);
  return {p.x + q.x, p.y + q.y, p.z + q.z};
}
void CheckAgainst(Case& c, const CableAttachmentEquilibriumSolver& s, const In& i, const Catenary3d& back,
                  const Catenary3d& ahead) {
  const Pull t = Total(i, back, ahead);
  const double size = back.Tension(1) + ahead.Tension(0);
  const double side = i.negative ? -1 : 1;
  const double inplane = std::hypot(t.y, t.z);
  const double got = s.AngleEquilibrium();
  if (inplane > 1e-6 * size) {
    const double e = Deg(std::atan2(side * t.y, t.z));
    const double slack = Deg(4e-6 * size / inplane);
    if (std::fabs(model::AngleDiff(got, e)) > slack || got < 0 || got > 360)
      c.Fail(Cat("equilibrium angle ", got, ", expected ", e, " within ", slack));
  }
  const Pull m = {t.x, t.y - side * t.Size() * std::sin(Rad(i.hardware)), t.z - t.Size() * std::cos(Rad(i.hardware))};
  CheckNear(c, "tension imbalance", s.TensionImbalance(), m.Size(), 4e-6 * size, 0);
}

void LawReference(Case& c) {
  const In i = Gen(c);
  c.Note(Show(i));
  c.NonTrivial(i.angle != 180);
  const Catenary3d back = Make(i.back, i.H), ahead = Make(i.ahead, i.H);
  CableAttachmentEquilibriumSolver s;
  Set(s, i, &back, &ahead);
  if (c.Bool()) {
    std::list<ErrorMessage> m;
    Check(c, s.Validate(true, &m) && m.empty(), "complete inputs are valid");
  }
  CheckAgainst(c, s, i, back, ahead);
}

// a string at the equilibrium angle is in balance; elsewhere it is not
void LawBalanced(Case& c) {
  In i = Gen(c);
  i.ahead.wy = i.back.wy;
  const Catenary3d back = Make(i.back, i.H), ahead = Make(i.ahead, i.H);
  c.Note(Show(i));
  CableAttachmentEquilibriumSolver s;
  Set(s, i, &back, &ahead);
  const double e = s.AngleEquilibrium();
  if (e < 1 || e > 359) c.Reject();
  s.set_angle_hardware(e);
  const Pull t = Total(i, back, ahead);
  const double size = back.Tension(1) + ahead.Tension(0);
  if (std::hypot(t.y, t.z) < 1e-4 * size || std::fabs(t.x) > 1e-6 * size) c.Reject();
  c.NonTrivial();
  CheckNear(c, "imbalance at the equilibrium angle", s.TensionImbalance(), 0, 1e-5 * size, 0);
  s.set_angle_hardware(e + 10 < 360 ? e + 10 : e - 10);
  CheckNear(c, "imbalance ten degrees off", s.TensionImbalance(), 2 * std::sin(Rad(5)) * t.Size(), 1e-5 * size, 0);
}

// the mirror image, and the line walked the other way, give the same string
void LawSymmetry(Case& c) {
  const In i = Gen(c);
  const Catenary3d back = Make(i.back, i.H), ahead = Make(i.ahead, i.H);
  CableAttachmentEquilibriumSolver s;
  Set(s, i, &back, &ahead);
  c.Note(Show(i));
  c.NonTrivial(i.angle != 180);
  In m = i;
  m.negative = !i.negative;
  m.back.negative = !i.back.negative;
  m.ahead.negative = !i.ahead.negative;
  if (c.Bool()) {
    std::swap(m.back, m.ahead);
    m.back.b = -m.back.b;
    m.ahead.b = -m.ahead.b;
  }
  const Catenary3d mback = Make(m.back, m.H), mahead = Make(m.ahead, m.H);
  CableAttachmentEquilibriumSolver q;
  Set(q, m, &mback, &mahead);
  const double size = back.Tension(1) + ahead.Tension(0);
  const Pull t = Total(i, back, ahead);
  CheckNear(c, "imbalance of the mirror image", q.TensionImbalance(), s.TensionImbalance(), 1e-5 * size, 0);
  const double inplane = std::hypot(t.y, t.z);
  if (inplane < 1e-4 * size) return;
  if (std::fabs(model::AngleDiff(q.AngleEquilibrium(), s.AngleEquilibrium())) > Deg(1e-5 * size / inplane))
    c.Fail(Cat("angle ", s.AngleEquilibrium(), ", mirror image ", q.AngleEquilibrium()));
}

void LawEdits(Case& c) {
  In i = Gen(c);
  Catenary3d back = Make(i.back, i.H), ahead = Make(i.ahead, i.H);
  CableAttachmentEquilibriumSolver s;
  Set(s, i, &back, &ahead);
  const int n = static_cast<int>(c.Int(1, 6));
  for (int j = 0; j < n; j++) {
    switch (c.Int(0, 3)) {
      case 0: s.AngleEquilibrium(); break;
      case 1: s.TensionImbalance(); break;
      case 2: s.Validate(true, nullptr); break;
      default: break;
    }
    const In o = Gen(c);
    switch (c.Int(0, 5)) {
      case 0: i.angle = o.angle; s.set_angle_catenaries(i.angle); break;
      case 1: i.hardware = o.hardware; s.set_angle_hardware(i.hardware); break;
      case 2: i.negative = o.negative; s.set_direction_catenaries(i.negative ? AxisDirectionType::kNegative : AxisDirectionType::kPositive); break;
      case 3:
        i.back = o.back;
        back = Make(i.back, o.H);
        s.set_catenary_back(&back);
        break;
      case 4:
        i.ahead = o.ahead;
        ahead = Make(i.ahead, o.H);
        s.set_catenary_ahead(&ahead);
        break;
      default: {
        CableAttachmentEquilibriumSolver copy(s);
        if (c.Bool()) copy.AngleEquilibrium();
        s = copy;
      }
    }
  }
  c.NonTrivial();
  c.Note(Cat("ends at ", Show(i)));
  CableAttachmentEquilibriumSolver fresh;
  Set(fresh, i, &back, &ahead);
  if (c.Bool()) Check(c, s.TensionImbalance() == fresh.TensionImbalance(), "imbalance after edits");
  Check(c, s.AngleEquilibrium() == fresh.AngleEquilibrium(), "angle after edits");
  Check(c, s.TensionImbalance() == fresh.TensionImbalance(), "imbalance after edits");
  CheckAgainst(c, s, i, back, ahead);
  Check(c, s.angle_catenaries() == i.angle && s.angle_hardware() == i.hardware && s.catenary_back() == &back &&
               s.catenary_ahead() == &ahead,
        "inputs read back");
}

void LawValidity(Case& c) {
  In i = Gen(c);
  const Catenary3d back = Make(i.back, i.H), ahead = Make(i.ahead, i.H), unset;
  CableAttachmentEquilibriumSolver s;
  const int what = static_cast<int>(c.Int(0, 9));
  if (what == 1) i.angle = c.PickOf<double>({-0.001, 180.001, 270, -999999});
  if (what == 2) i.hardware = c.PickOf<double>({-0.001, 180.001, 270, -999999});
  Set(s, i, &back, &ahead);
  if (what == 3) s.set_catenary_back(nullptr);
  if (what == 4) s.set_catenary_ahead(nullptr);
  if (what == 5) s.set_catenary_back(&unset);
  if (what == 6) s.set_catenary_ahead(&unset);
  if (what == 7) s.set_direction_catenaries(AxisDirectionType::kNull);
  if (what == 8) s = CableAttachmentEquilibriumSolver();
  const bool valid = what == 0 || what == 9;
  c.Note(Cat("change ", what));
  c.NonTrivial(!valid);
  std::list<ErrorMessage> m;
  Check(c, s.Validate(c.Bool(), &m) == valid && m.empty() == valid && s.Validate(true, nullptr) == valid, "verdict");
}

// other inputs, alike or not, between queries and copies; catenaries change in
// place
void Sequences(Case& c) {
  In v[3] = {Gen(c), Gen(c), Gen(c)};
  if (c.Bool()) v[1].angle = 180 - v[0].angle;
  if (c.Bool()) v[1].hardware = Related(c, v[0].hardware, 0, 180);
  if (c.Bool()) { v[1].back = v[0].ahead; v[1].ahead = v[0].back; v[1].H = v[0].H; }
  std::vector<Catenary3d> back, ahead;
  for (In& i : v) back.push_back(Make(i.back, i.H)), ahead.push_back(Make(i.ahead, i.H));
  typedef CableAttachmentEquilibriumSolver S;
  Histories<S> h;
  h.Value("angle", 3, [&](S& s, int i) { s.set_angle_catenaries(v[i].angle); });
  h.Value("hardware", 3, [&](S& s, int i) { s.set_angle_hardware(v[i].hardware); });
  h.Value("direction", 2, [&](S& s, int i) { s.set_direction_catenaries(i ? AxisDirectionType::kNegative : AxisDirectionType::kPositive); });
  h.Pointer<Catenary3d>("back", back, [](S& s, const Catenary3d* k) { s.set_catenary_back(k); });
  h.Pointer<Catenary3d>("ahead", ahead, [](S& s, const Catenary3d* k) { s.set_catenary_ahead(k); });
  h.Peek("angle", [](const S& s) { s.AngleEquilibrium(); });
  h.Peek("imbalance", [](const S& s) { s.TensionImbalance(); });
  h.Peek("validate", [](const S& s) { s.Validate(); });
  h.Ask("angle", [](const S& s) { return static_cast<double>(s.AngleEquilibrium()); });
  h.Ask("imbalance", [](const S& s) { return static_cast<double>(s.TensionImbalance()); });
  h.Ask("verdict", [](const S& s) { return static_cast<double>(s.Validate()); });
  h.Run(c);
}

}  // namespace

Property vp::MakeProperty() {
  return {"P09",
          {"turns below 0.00005 degrees may be left out"},
          {{"reference", "the line turns at the support", 60000, 1500000, LawReference},
           {"balanced", "the cable pulls on the string", 60000, 1500000, LawBalanced},
           {"symmetry", "the line turns at the support", 60000, 1500000, LawSymmetry},
           {"edits", "every case", 40000, 1000000, LawEdits},
           {"validity", "one input out of range", 40000, 1000000, LawValidity},
            {"sequences", "an input changed, or an object was copied, after a query", 20000, 400000, Sequences}},
          {}};
}
