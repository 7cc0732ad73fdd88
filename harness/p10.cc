// P10: the list of alignment points under edits.
#include <cmath>
#include <list>
#include <memory>
#include <vector>

#include "engine.h"
#include "model.h"
#include "models/transmissionline/alignment.h"

using namespace vp;

namespace {

struct P {
  double station, elevation, rotation;
};
P Gen(Case& c) {
  P p;
  // a coarse grid makes equal stations common
  p.station = c.Bool() ? 100.0 * static_cast<double>(c.Int(0, 8)) : c.Real(0, 900, 250);
  p.elevation = c.Bool() ? 0 : c.Real(0, 500, 10);
  p.rotation = c.Bool() ? 0 : c.Real(-180, 180, 45);
  return p;
}
// the list takes any point; only its verdict depends on the values
bool InRange(const P& p) { return p.station >= 0 && p.elevation >= 0 && std::abs(p.rotation) <= 360; }
// stations of a history lie on a grid, between its stations, or at a small
// distance from one in use, with or without values in range
P GenHistory(Case& c, const std::vector<P>& used) {
  P p = Gen(c);
  if (!used.empty() && c.Chance(1, 3)) {
    p.station = used[static_cast<size_t>(c.Int(0, static_cast<int64_t>(used.size()) - 1))].station;
    p.station += c.PickOf<double>({0, 1, -1}) * c.PickOf<double>({1e-3, 1e-5, 1e-7, 1e-9, 1e-2, 0.1, 1});
  }
  if (c.Chance(1, 5)) {
    const int what = static_cast<int>(c.Int(0, 4));
    if (what == 0) p.elevation = c.PickOf<double>({-0.001, -999999, -50});
    if (what == 1) p.rotation = c.PickOf<double>({360.001, -360.001, -999999});
    if (what == 2) p.elevation = -999999, p.rotation = -999999;
    if (what == 3) p.elevation = p.rotation = p.station = -999999;
    if (what == 4) p.station = -p.station;
  }
  return p;
}
AlignmentPoint Make(const P& p) {
  AlignmentPoint a;
  a.station = p.station;
  a.elevation = p.elevation;
  a.rotation = p.rotation;
  return a;
}
// reference: a plain sorted vector
struct Ref {
  std::vector<P> v;
  int Find(double station) const {
    for (size_t i = 0; i < v.size(); i++)
      if (v[i].station == station) return static_cast<int>(i);
    return -1;
  }
  int Add(const P& p) {
    if (Find(p.station) >= 0) return -1;
    size_t at = 0;
    for (const P& q : v) at += q.station < p.station;
    v.insert(v.begin() + static_cast<long>(at), p);
    return static_cast<int>(at);
  }
  bool Has(int i) const { return i >= 0 && i < static_cast<int>(v.size()); }
  bool Covers(double s) const { return !v.empty() && v.front().station <= s && s <= v.back().station; }
  int Segment(double s) const {
    if (!Covers(s)) return -1;
    int n = 0;  // points before s
    for (const P& q : v) n += q.station < s;
    return n == 0 ? 0 : n - 1;
  }
};
void Same(Case& c, const Alignment& a, const Ref& r) {
  Check(c, a.points()->size() == r.v.size(), Cat(a.points()->size(), " points, expected ", r.v.size()));
  size_t i = 0;
  double last = -1e300;
  for (const AlignmentPoint& p : *a.points()) {
    const P& q = r.v[i];
    if (p.station != q.station || p.elevation != q.elevation || p.rotation != q.rotation)
      c.Fail(Cat("point ", i, " is (", p.station, ", ", p.elevation, ", ", p.rotation, "), expected (", q.station, ", ",
                 q.elevation, ", ", q.rotation, ")"));
    Check(c, p.station > last, "stations rise");
    last = p.station;
    i++;
  }
}

void LawHistory(Case& c) {
  std::unique_ptr<Alignment> a(new Alignment());
  Ref r;
  const int n = static_cast<int>(c.Int(1, 30));
  int refused = 0, changed = 0;
  for (int j = 0; j < n; j++) {
    const int index = static_cast<int>(c.Int(-1, static_cast<int64_t>(r.v.size())));
    const P p = GenHistory(c, r.v);
    int expected = 0, got = 0;
    const int op = static_cast<int>(c.Int(0, 5));
    if (op <= 1) {
      c.Note(Cat("add ", p.station));
      got = a->AddPoint(Make(p));
      expected = r.Add(p);
    } else if (op == 2) {
      c.Note(Cat("delete ", index));
      got = a->DeletePoint(index) ? 0 : -1;
      expected = r.Has(index) ? 0 : -1;
      if (r.Has(index)) r.v.erase(r.v.begin() + index);
    } else if (op == 3) {
      c.Note(Cat("modify ", index, " to ", p.station));
      got = a->ModifyPoint(index, Make(p));
      expected = -1;
      if (r.Has(index)) {
        const std::vector<P> before = r.v;
        r.v.erase(r.v.begin() + index);
        expected = r.Add(p);
        if (expected == -1) r.v = before;
      }
    } else if (op == 4) {
      double s = p.station;
      if (c.Bool() && !r.v.empty()) s = r.v[static_cast<size_t>(c.Int(0, static_cast<int64_t>(r.v.size()) - 1))].station;
      if (c.Chance(1, 3)) s += c.PickOf<double>({1, -1, 0.5, -0.5}) * c.PickOf<double>({1e-9, 1e-7, 1e-5, 1e-3});
      Check(c, a->IsValidStation(s) == r.Covers(s), Cat("station ", s, " on the alignment should be ", r.Covers(s)));
      Check(c, a->IndexSegment(s) == r.Segment(s), Cat("segment of ", s, " is ", a->IndexSegment(s), ", expected ", r.Segment(s)));
      continue;
    } else {
      Alignment copy(*a);
      if (c.Bool()) {
        copy.AddPoint(Make(p));  // changes to a copy stay there
        copy.DeletePoint(0);
        Same(c, *a, r);
      } else {
        a.reset(new Alignment(copy));
      }
      continue;
    }
    if (expected == -1) refused++; else changed++;
    Check(c, got == expected, Cat("operation ", op, " returned ", got, ", expected ", expected));
    Same(c, *a, r);
    bool valid = true;
    for (const P& q : r.v) valid = valid && InRange(q);
    Check(c, a->Validate(true, nullptr) == valid, "the alignment is valid if and only if all points are in range");
  }
  c.NonTrivial(refused > 0 && changed > 2);
}

void LawValidity(Case& c) {
  Alignment a;
  const int n = static_cast<int>(c.Int(0, 5));
  bool valid = true;
  int bad = 0;
  for (int i = 0; i < n; i++) {
    P p = Gen(c);
    p.station = 100 * i;
    bool ok = true;
    if (c.Chance(1, 3)) {
      const int what = static_cast<int>(c.Int(0, 5));
      if (what == 0) p.station = -1 - i, ok = false;
      if (what == 1) p.elevation = c.PickOf<double>({-0.001, -999999}), ok = false;
      if (what == 2) p.rotation = c.PickOf<double>({360.001, -360.001, 999}), ok = false;
      if (what == 3) p.rotation = c.PickOf<double>({360, -360});
      if (what == 4) p.elevation = 0;
    }
    const AlignmentPoint q = Make(p);
    std::list<ErrorMessage> m;
    Check(c, q.Validate(c.Bool(), &m) == ok && m.empty() == ok && q.Validate(true, nullptr) == ok, "verdict of a point");
    if (a.AddPoint(q) != -1 && !ok) valid = false, bad++;
  }
  c.Note(Cat(n, " points, ", bad, " out of range"));
  c.NonTrivial(!valid);
  std::list<ErrorMessage> m;
  Check(c, a.Validate(c.Bool(), &m) == valid && m.empty() == valid && a.Validate(true, nullptr) == valid, "verdict");
  Check(c, !AlignmentPoint().Validate(true, nullptr), "an unset point");
}

}  // namespace

Property vp::MakeProperty() {
  return {"P10",
          {"a point passed to an edit is not a reference into the alignment itself"},
          {{"history", "at least one refused edit and three accepted ones", 100000, 2000000, LawHistory},
           {"validity", "a point out of range", 100000, 2000000, LawValidity}},
          {}};
}
