// P07: solving for the cable curve that meets a target.
#include <list>

#include "engine.h"
#include "history.h"
#include "model.h"
#include "models/transmissionline/catenary_solver.h"

using namespace vp;
using model::Curve;

namespace {

typedef CatenarySolver::TargetType Type;
const Type kTypes[4] = {Type::kConstant, Type::kLength, Type::kSag, Type::kTension};
const char* kNames[4] = {"constant", "length", "sag", "tension"};

struct In {
  double wy, wz, a, b, k, pos;
  int type;
  double W() const { return std::hypot(wy, wz); }
  double Hmin() const { return std::hypot(a, b) / 2 * W(); }
  double H() const { return k * Hmin(); }
};
double Noise(const In& i);
double Resolution(const In& i);
In Gen(Case& c) {
  In i;
  i.type = static_cast<int>(c.Int(0, 3));
  i.a = c.Bool() ? static_cast<double>(c.Int(100, 2000)) : c.LogReal(20, 3000, 1000);
  i.b = c.Bool() ? 0 : c.Real(-0.5, 0.5, 0.1) * i.a;
  if (c.Chance(1, 10)) i.b = std::max(-1999.9, std::min(1999.9, c.Real(-4, 4, 1) * i.a));
  i.wz = c.LogReal(0.05, 20, 1);
  i.wy = c.Bool() ? 0 : i.wz * c.LogReal(0.02, 10, 1);
  i.k = c.LogReal(1.001, i.type == 1 ? 100 : 1500, 10);
  i.pos = -1;
  if (c.Bool()) i.pos = i.type == 2 ? c.Real(0.02, 0.98, 0.5) : c.PickOf<int>({0, 1, 2}) == 2 ? c.Real(0, 1, 0.5) : c.Int(0, 1);
  const double least = c.Chance(1, 8) ? 0.05 : 2;  // a thread; tensions are found to 0.01
  if (least < 1) i.wz *= c.LogReal(0.001, 1, 0.1);
  if (i.Hmin() < least) i.wy *= 2 * least / i.Hmin(), i.wz *= 2 * least / i.Hmin();
  // a tension that is determined to the library's 0.01 by its target
  while (Resolution(i) > 0.002) i.k = 1 + (i.k - 1) / 3;
  return i;
}
double D(long double v) { return static_cast<double>(v); }
// the value the target has when the horizontal tension is H
double Value(const In& i, double H) {
  const double y2 = i.b * (i.wz / i.W());
  const Curve r(H, i.W(), std::sqrt(i.a * i.a + i.b * i.b - y2 * y2), y2);
  switch (i.type) {
    case 0: return H / i.W();
    case 1: return D(r.len);
    case 2: return D(r.Sag(i.pos == -1 ? r.XSag() : r.X(i.pos)));
    default: return i.pos == -1 ? D(fmaxl(r.Tension(r.xl), r.Tension(r.xr))) : D(r.Tension(r.X(i.pos)));
  }
}
// lengths are differences of numbers as large as the catenary constant
double Noise(const In& i) { return i.type == 1 || i.type == 2 ? 2e-15 * i.H() / i.W() : 0; }
double Resolution(const In& i) {
  const double d = 1e-6 * i.H();
  return Noise(i) * 2 * d / std::fabs(Value(i, i.H() + d) - Value(i, i.H() - d));
}
void Set(CatenarySolver& s, const In& i, double value) {
  s.set_position_target(i.pos);
  s.set_spacing_endpoints(Vector3d(i.a, 0, i.b));
  s.set_type_target(kTypes[i.type]);
  s.set_value_target(value);
  s.set_weight_unit(Vector3d(0, i.wy, i.wz));
}
std::string Show(const In& i, double value) {
  return Cat(kNames[i.type], " ", value, " at ", i.pos, ", weight (0, ", i.wy, ", ", i.wz, "), spacing (", i.a, ", 0, ", i.b, ")");
}

void CheckSolved(Case& c, const CatenarySolver& s, const In& i, double value) {
  const double h = s.TensionHorizontal();
  const double lo = Value(i, i.H() - 0.0101 - 1e-9 * i.H()), hi = Value(i, i.H() + 0.0101 + 1e-9 * i.H());
  const double noise = Noise(i);
  // the solution is located to 0.01 in horizontal tension
  CheckNear(c, "horizontal tension", h, i.H(), 0.01 + Resolution(i), i.type == 0 ? 1e-12 : 1e-9);
  const Catenary3d k = s.Catenary();
  Check(c, k.tension_horizontal() == h, "the catenary has the tension reported");
  Check(c, k.spacing_endpoints().x() == i.a && k.spacing_endpoints().z() == i.b && k.weight_unit().y() == i.wy &&
               k.weight_unit().z() == i.wz,
        "the catenary has the spacing and weight given");
  double got = 0;
  switch (i.type) {
    case 0: got = k.Constant(); break;
    case 1: got = k.Length(); break;
    case 2: got = i.pos == -1 ? k.Sag() : k.Sag(i.pos); break;
    default: got = i.pos == -1 ? k.TensionMax() : k.Tension(i.pos);
  }
  CheckNear(c, "target reached", got, value, std::fabs(hi - lo) + noise, 1e-10);
  Check(c, s.TensionHorizontal() == h, "asking again gives the same answer");
}

void LawAttainable(Case& c) {
  const In i = Gen(c);
  const double value = Value(i, i.H());
  c.Note(Cat(Show(i, value), " solution ", i.H()));
  c.NonTrivial(i.type != 0);
  CatenarySolver s;
  Set(s, i, value);
  if (c.Bool()) {
    std::list<ErrorMessage> messages;
    Check(c, s.Validate(true, &messages) && messages.empty(), "an attainable target is valid");
  }
  CheckSolved(c, s, i, value);
}

void LawUnattainable(Case& c) {
  In i = Gen(c);
  double value = 0;
  const double chord = std::hypot(i.a, i.b);
  const double at_min = Value(i, i.Hmin());
  const bool high = c.Bool();
  const double f = c.LogReal(1.001, 3, 1.5);
  switch (i.type) {
    case 0: value = chord / 2 / f; break;
    case 1: value = high ? at_min * f : chord / f; break;
    case 2: value = at_min * f; break;
    default: value = at_min / f;
  }
  c.Note(Cat(Show(i, value), " cannot be met"));
  c.NonTrivial();
  CatenarySolver s;
  Set(s, i, value);
  for (int j = 0; j < 3; j++) {
    const int ask = static_cast<int>(c.Int(0, 2));
    if (ask == 0) Check(c, s.TensionHorizontal() == -999999, Cat("an unattainable target gave ", s.TensionHorizontal()));
    if (ask == 1) Check(c, s.Catenary().tension_horizontal() == -999999, "an unattainable target gave a catenary");
    if (ask == 2) {
      std::list<ErrorMessage> messages;
      Check(c, !s.Validate(true, &messages) && !messages.empty(), "an unattainable target is reported");
    }
  }
  // and the solver works again afterwards
  i.k = 5;
  value = Value(i, i.H());
  s.set_value_target(value);
  CheckSolved(c, s, i, value);
}

void LawEdits(Case& c) {
  In i = Gen(c);
  CatenarySolver s;
  double value = Value(i, i.H());
  Set(s, i, value);
  const int n = static_cast<int>(c.Int(1, 6));
  for (int j = 0; j < n; j++) {
    switch (c.Int(0, 3)) {
      case 0: s.TensionHorizontal(); break;
      case 1: s.Catenary(); break;
      case 2: s.Validate(true, nullptr); break;
      default: break;
    }
    const In o = Gen(c);
    switch (c.Int(0, 5)) {
      case 0: i.pos = i.type == 2 && o.pos != -1 ? 0.5 : o.pos; s.set_position_target(i.pos); break;
      case 1: i.a = o.a; i.b = o.b; s.set_spacing_endpoints(Vector3d(i.a, 0, i.b)); break;
      case 2:
        i.type = o.type;
        i.k = o.k;
        i.pos = o.pos;
        s.set_type_target(kTypes[i.type]);
        s.set_position_target(i.pos);
        break;
      case 3: i.wy = o.wy; i.wz = o.wz; s.set_weight_unit(Vector3d(0, i.wy, i.wz)); break;
      case 4: {
        CatenarySolver other;
        i = o;
        value = Value(i, i.H());
        Set(other, i, value);
        if (c.Bool()) other.TensionHorizontal();
        s = other;
        break;
      }
      default: i.k = i.type == 1 && o.k > 60 ? 5 : o.k; break;
    }
    if (c.Bool()) {
      value = Value(i, i.H());
      s.set_value_target(value);
    }
  }
  CatenarySolver fresh;
  Set(fresh, i, value);
  c.Note(Cat("ends at ", Show(i, value)));
  c.NonTrivial();
  Check(c, s.position_target() == i.pos && s.type_target() == kTypes[i.type] && s.value_target() == value &&
               s.spacing_endpoints().x() == i.a && s.weight_unit().z() == i.wz,
        "inputs read back");
  const double h = s.TensionHorizontal();
  Check(c, h == fresh.TensionHorizontal(), Cat("after edits ", h, ", fresh ", fresh.TensionHorizontal()));
  Check(c, s.Catenary().Length() == fresh.Catenary().Length(), "length after edits");
  Check(c, s.Validate(true, nullptr) == fresh.Validate(true, nullptr), "verdict after edits");
}

void LawValidity(Case& c) {
  const In i = Gen(c);
  CatenarySolver s;
  Set(s, i, Value(i, i.H()));
  bool valid = false;
  const int what = static_cast<int>(c.Int(0, 7));
  switch (what) {
    case 0: s.set_position_target(c.PickOf<double>({-0.5, 1.001, 2, -2})); break;
    case 1: s.set_spacing_endpoints(Vector3d(c.PickOf<double>({0, -10}), 0, i.b)); break;
    case 2: s.set_spacing_endpoints(Vector3d(i.a, c.PickOf<double>({1, -1}), i.b)); break;
    case 3: s.set_spacing_endpoints(Vector3d(i.a, 0, c.PickOf<double>({2001, -5000}))); break;
    case 4: s.set_type_target(Type::kNull); break;
    case 5: s.set_value_target(c.PickOf<double>({0, -5, -999999})); break;
    case 6: s.set_weight_unit(c.Bool() ? Vector3d(0, -0.1, i.wz) : Vector3d(1, i.wy, i.wz)); break;
    default: valid = true;
  }
  if (c.Chance(1, 6) && valid) {
    s.set_weight_unit(Vector3d(0, i.wy, c.PickOf<double>({0, -1})));
    valid = false;
  }
  c.Note(Cat("change ", what));
  c.NonTrivial(!valid);
  std::list<ErrorMessage> messages;
  Check(c, s.Validate(c.Bool(), &messages) == valid, Cat("verdict should be ", valid));
  Check(c, messages.empty() == valid, "messages go with the verdict");
  CatenarySolver empty;
  Check(c, !empty.Validate(true, nullptr) && empty.TensionHorizontal() == -999999, "an unset solver");
}

// other inputs, alike or not, between queries and copies
void Sequences(Case& c) {
  In v[3] = {Gen(c), Gen(c), Gen(c)};
  double value[3];
  for (int i = 0; i < 3; i++) value[i] = Value(v[i], v[i].H());
  value[1] = Related(c, value[0], 0.01, 1e6);
  if (c.Bool()) { v[1].wy = v[0].wz; v[1].wz = v[0].wy > 0 ? v[0].wy : 1; }
  if (c.Bool()) { v[1].a = v[0].a; v[1].b = -v[0].b; }
  v[1].pos = c.PickOf<double>({v[1].pos, 1 - v[0].pos, 0.5, -1});
  Histories<CatenarySolver> h;
  h.Value("position", 3, [&](CatenarySolver& s, int i) { s.set_position_target(v[i].pos); });
  h.Value("spacing", 3, [&](CatenarySolver& s, int i) { s.set_spacing_endpoints(Vector3d(v[i].a, 0, v[i].b)); });
  h.Value("type", 3, [&](CatenarySolver& s, int i) { s.set_type_target(kTypes[v[i].type]); });
  h.Value("value", 3, [&](CatenarySolver& s, int i) { s.set_value_target(value[i]); });
  h.Value("load", 3, [&](CatenarySolver& s, int i) { s.set_weight_unit(Vector3d(0, v[i].wy, v[i].wz)); });
  h.Peek("tension", [](const CatenarySolver& s) { s.TensionHorizontal(); });
  h.Peek("validate", [](const CatenarySolver& s) { s.Validate(); });
  h.Ask("verdict", [](const CatenarySolver& s) { return static_cast<double>(s.Validate()); });
  h.Ask("tension", [](const CatenarySolver& s) { return static_cast<double>(s.TensionHorizontal()); });
  h.Ask("catenary", [](const CatenarySolver& s, std::vector<double>* r) {
    const Catenary3d k = s.Catenary();
    if (!k.Validate()) {
      *r = {0};
      return;
    }
    *r = {1, k.tension_horizontal(), k.Length(), k.Sag(), k.SwingAngle(), k.Tension(0.2), k.spacing_endpoints().z(), k.weight_unit().y()};
  });
  h.rtol = 1e-9;
  h.Run(c);
}

}  // namespace

Property vp::MakeProperty() {
  return {"P07",
          {"the solution is located to 0.01 in units of horizontal tension",
           "solutions with H/w up to 100 times the span (30 times for length targets, where rounding limits what a "
           "length can decide)"},
          {{"attainable", "target other than H/w", 60000, 1500000, LawAttainable},
           {"unattainable", "every case", 60000, 1500000, LawUnattainable},
           {"edits", "every case", 40000, 1000000, LawEdits},
           {"validity", "one input out of range", 40000, 1000000, LawValidity},
            {"sequences", "an input changed, or an object was copied, after a query", 10000, 200000, Sequences}},
          {}};
}
