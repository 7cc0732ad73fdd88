// Random edit histories of a transmission line next to a plain reference model.
#ifndef VERIF_LINE_H_
#define VERIF_LINE_H_

#include <algorithm>
#include <list>
#include <memory>
#include <vector>

#include "engine.h"
#include "models/transmissionline/transmission_line.h"

namespace line {

using vp::Case;
using vp::Cat;
using vp::Check;

enum Kind { kDead = 0, kSusp = 1, kNone = 2, kOther = 3 };

// base structures and hardware, shared by every line of a case
struct Parts {
  Hardware deadend, suspension, other;  // other: of no stated type
  static const size_t kBases = 5;
  Structure structure[kBases];
  explicit Parts(Case& c, bool plain = true) {
    deadend.type = Hardware::HardwareType::kDeadEnd;
    suspension.type = Hardware::HardwareType::kSuspension;
    for (Hardware* h : {&deadend, &suspension, &other}) h->area_cross_section = h->length = h->weight = 1;
    for (size_t i = 0; i < kBases; i++) {
      structure[i].height = plain ? 40 + 10.0 * static_cast<double>(i) : c.Real(20, 150, 50);
      structure[i].attachments.resize(i == 4 ? 6 : i);
      double n = 0;
      for (StructureAttachment& a : structure[i].attachments) {
        n++;
        a.offset_longitudinal = plain ? n : c.Real(-20, 20, 0);
        a.offset_transverse = plain ? -n : c.Real(-20, 20, 0);
        a.offset_vertical_top = plain ? n / 2 : c.Real(0, 20, 0);
      }
    }
  }
  const Hardware* Of(int k) const { return k == kDead ? &deadend : k == kSusp ? &suspension : k == kOther ? &other : nullptr; }
};

struct MStructure {
  int id = 0;
  double station = 0, adjust = 0, offset = 0, rotation = 0;
  int base = -1;  // -1: no base structure
  std::vector<int> hardware;
};
struct MCon {
  int id;
  int attachment;
};
struct MCable {
  double tag;
  std::vector<MCon> con;
};
struct MPoint {
  double station, elevation, rotation;
};

struct Model {
  std::vector<MPoint> points;
  std::vector<MStructure> stands;
  std::vector<MCable> cables;
  double ox = 0, oy = 0, oz = 0;

  bool OnAlignment(double s) const {
    return !points.empty() && points.front().station <= s && s <= points.back().station;
  }
  int IndexOf(int id) const {
    for (size_t i = 0; i < stands.size(); i++)
      if (stands[i].id == id) return static_cast<int>(i);
    return -1;
  }
  bool Taken(int id, int attachment) const {
    for (const MCable& m : cables)
      for (const MCon& q : m.con)
        if (q.id == id && q.attachment == attachment) return true;
    return false;
  }
  // dead-ends at the ends, suspension in between, at least two
  bool Strung(const MCable& m) const {
    if (m.con.size() < 2) return false;
    for (size_t i = 0; i < m.con.size(); i++) {
      const int s = IndexOf(m.con[i].id);
      if (s < 0) return false;
      const std::vector<int>& h = stands[static_cast<size_t>(s)].hardware;
      const int a = m.con[i].attachment;
      if (a < 0 || a >= static_cast<int>(h.size())) return false;
      if (h[static_cast<size_t>(a)] != (i == 0 || i + 1 == m.con.size() ? kDead : kSusp)) return false;
    }
    return true;
  }
  void DropUnstrung() {
    std::vector<MCable> keep;
    for (const MCable& m : cables)
      if (Strung(m)) keep.push_back(m);
    cables = keep;
  }
  void DropStand(int id) {
    for (MCable& m : cables) {
      std::vector<MCon> keep;
      for (const MCon& q : m.con)
        if (q.id != id) keep.push_back(q);
      m.con = keep;
    }
    stands.erase(stands.begin() + IndexOf(id));
  }
  void DropOffAlignment() {
    std::vector<int> gone;
    for (const MStructure& s : stands)
      if (!OnAlignment(s.station)) gone.push_back(s.id);
    for (int id : gone) DropStand(id);
    if (!gone.empty()) DropUnstrung();
  }
  int AddPoint(const MPoint& p) {
    size_t i = 0;
    while (i < points.size() && points[i].station < p.station) i++;
    if (i < points.size() && points[i].station == p.station) return -1;
    points.insert(points.begin() + static_cast<long>(i), p);
    return static_cast<int>(i);
  }
  int AddStand(const MStructure& s) {
    if (!OnAlignment(s.station)) return -1;
    size_t i = 0;
    while (i < stands.size() && stands[i].station < s.station) i++;
    if (i < stands.size() && stands[i].station == s.station) return -1;
    stands.insert(stands.begin() + static_cast<long>(i), s);
    return static_cast<int>(i);
  }
  int AddCable(const MCable& m) {
    if (!Strung(m)) return -1;
    for (const MCon& q : m.con)
      if (Taken(q.id, q.attachment)) return -1;
    auto key = [&](const MCable& k) { return std::make_pair(IndexOf(k.con[0].id), k.con[0].attachment); };
    size_t i = 0;
    while (i < cables.size() && key(cables[i]) < key(m)) i++;
    cables.insert(cables.begin() + static_cast<long>(i), m);
    return static_cast<int>(i);
  }
};

// A line, its model and the address every structure must keep.
struct World {
  Case& c;
  const Parts& parts;
  std::unique_ptr<TransmissionLine> line;
  std::unique_ptr<TransmissionLine> other;  // a copy, for foreign structures
  Model model;
  int next_id = 1;
  double next_tag = 1;
  int accepted = 0, refused = 0, dropped = 0, copies = 0;
  bool close = false;  // stations as close as 0.000001
  bool wild = false;  // alignment points with values out of range
  bool rich = false;  // free coordinates instead of a coarse grid
  std::vector<const LineStructure*> address;  // by id

  World(Case& cc, const Parts& p) : c(cc), parts(p), line(new TransmissionLine) { address.resize(1, nullptr); }

  const LineStructure* At(size_t i) const { return &*std::next(line->line_structures()->cbegin(), static_cast<long>(i)); }

  double GenStation() {
    if (c.Chance(1, 6)) {  // beside, or at, one that is in use
      const size_t np = model.points.size(), ns = model.stands.size();
      if (np + ns > 0) {
        const size_t i = static_cast<size_t>(c.Int(0, static_cast<int64_t>(np + ns) - 1));
        const double s = i < np ? model.points[i].station : model.stands[i - np].station;
        const double d = rich ? c.PickOf<double>({0.5, 0.25, 1, 2}) : c.PickOf<double>({0.5, 0, 1, close ? 1e-6 : 2, close ? 0.01 : 0.5});
        return std::max(0.0, c.Bool() ? s + d : s - d);
      }
    }
    return rich ? 0.25 * static_cast<double>(c.Int(0, 20000)) : 100.0 * static_cast<double>(c.Int(0, 12));
  }
  double GenTurn() {
    if (!rich) return 15.0 * static_cast<double>(c.Int(-3, 3));
    const double r = c.Real(-160, 160, 0);
    return std::fabs(r) < 0.01 ? 0 : r;
  }
  MPoint GenPoint() {
    MPoint p;
    p.station = GenStation();
    p.elevation = rich ? c.Real(-500, 3000, 0) : 10.0 * static_cast<double>(c.Int(0, 9));
    p.rotation = GenTurn();
    if (wild && c.Chance(1, 6)) {  // the alignment takes points of any values
      const int what = static_cast<int>(c.Int(0, 2));
      if (what != 1) p.elevation = c.PickOf<double>({-999999, -0.5});
      if (what != 0) p.rotation = c.PickOf<double>({-999999, 360.5});
    }
    return p;
  }
  MStructure GenStand() {
    MStructure s;
    s.station = GenStation();
    if (rich && !model.points.empty() && c.Chance(1, 4)) s.station = c.Pick(model.points).station;
    s.base = static_cast<int>(c.PickOf<int>({3, 2, 1, 3, 3, 2, 0, -1, 4, 4}));
    if (s.base >= 0)
      for (size_t i = 0; i < parts.structure[s.base].attachments.size(); i++)
        s.hardware.push_back(c.Chance(1, 8) ? (c.Bool() ? kOther : kNone) : c.Chance(1, 5) ? static_cast<int>(c.Int(0, 1)) : i == 1 ? kSusp : kDead);
    s.adjust = rich ? c.Real(0, 20, 0) : static_cast<double>(c.Int(0, 3));
    s.offset = rich ? c.Real(-50, 50, 0) : static_cast<double>(c.Int(0, 3));
    s.rotation = GenTurn();
    // a stand can be turned all the way around
    if (c.Chance(1, 4)) s.rotation = rich ? c.Real(-360, 360, 180) : c.PickOf<double>({180, -180, 270, -360, 360});
    if (std::fabs(s.rotation) < 0.01) s.rotation = 0;
    return s;
  }
  AlignmentPoint Real(const MPoint& m) const {
    AlignmentPoint p;
    p.station = m.station, p.elevation = m.elevation, p.rotation = m.rotation;
    return p;
  }
  LineStructure Real(const MStructure& m) const {
    LineStructure s;
    s.set_structure(m.base < 0 ? nullptr : &parts.structure[m.base]);
    for (size_t i = 0; i < m.hardware.size(); i++) s.AttachHardware(static_cast<int>(i), parts.Of(m.hardware[i]));
    s.set_station(m.station);
    s.set_height_adjustment(m.adjust);
    s.set_offset(m.offset);
    s.set_rotation(m.rotation);
    return s;
  }
  // a cable on the current structures; mostly a plausible one
  MCable GenCable(const MCable* old) {
    MCable m;
    m.tag = next_tag++;
    std::vector<std::vector<int>> fit(model.stands.size());
    const bool careless = c.Chance(1, 6);
    std::vector<MCon> picks;
    for (const MStructure& s : model.stands) {
      if (c.Chance(1, 4)) continue;
      if (s.hardware.empty() && !careless) continue;
      MCon q = {s.id, static_cast<int>(c.Int(careless ? -1 : 0, careless ? 6 : static_cast<int64_t>(s.hardware.size()) - 1))};
      picks.push_back(q);
    }
    if (careless) {
      m.con = picks;
      return m;
    }
    auto kind = [&](const MCon& q) {
      return model.stands[static_cast<size_t>(model.IndexOf(q.id))].hardware[static_cast<size_t>(q.attachment)];
    };
    auto open = [&](const MCon& q) {
      if (old)
        for (const MCon& o : old->con)
          if (o.id == q.id && o.attachment == q.attachment) return true;
      return !model.Taken(q.id, q.attachment);
    };
    const bool insist = !c.Chance(1, 5);
    size_t a = 0;
    while (a < picks.size() && (kind(picks[a]) != kDead || (insist && !open(picks[a])))) a++;
    if (a == picks.size()) return m;
    m.con.push_back(picks[a]);
    for (size_t i = a + 1; i < picks.size(); i++) {
      if (insist && !open(picks[i])) continue;
      if (kind(picks[i]) == kNone || (kind(picks[i]) == kOther && insist)) continue;
      m.con.push_back(picks[i]);
      if (kind(picks[i]) == kDead) break;
    }
    return m;
  }
  // the cable of the model; *foreign tells if it is on a structure of another line
  LineCable Real(const MCable& m, bool* foreign) {
    std::vector<MCon> order = m.con;
    if (c.Bool()) std::reverse(order.begin(), order.end());
    int swapped = other && c.Chance(1, 5) ? static_cast<int>(c.Int(0, 3)) : -1;
    if (swapped >= static_cast<int>(order.size())) swapped = -1;
    const LineStructure* stranger = nullptr;
    if (swapped >= 0)
      for (const LineStructure& s : *other->line_structures())
        if (s.station() == address[static_cast<size_t>(order[static_cast<size_t>(swapped)].id)]->station()) stranger = &s;
    *foreign = stranger != nullptr;
    if (*foreign) c.Note("with a structure of another line");
    LineCable k;
    CableConstraint q;
    q.limit = m.tag;
    k.set_constraint(q);
    for (size_t i = 0; i < order.size(); i++) {
      LineCableConnection n;
      n.line_structure = stranger && static_cast<int>(i) == swapped ? stranger : address[static_cast<size_t>(order[i].id)];
      n.index_attachment = order[i].attachment;
      k.AddConnection(n);
    }
    return k;
  }
  int GenIndex(size_t size) {
    if (c.Chance(1, 10)) return c.PickOf<int>({-1, static_cast<int>(size), static_cast<int>(size) + 3});
    return static_cast<int>(c.Int(0, size == 0 ? 0 : static_cast<int64_t>(size) - 1));
  }
  static bool Has(int i, size_t n) { return i >= 0 && i < static_cast<int>(n); }

  void Expect(const char* what, int got, int expected) {
    if (expected == -1) refused++; else accepted++;
    Check(c, got == expected, Cat(what, " returned ", got, ", expected ", expected));
  }
  void Learn(int index, int id) {
    address.resize(static_cast<size_t>(id) + 1, nullptr);
    address[static_cast<size_t>(id)] = At(static_cast<size_t>(index));
  }

  void AddPoint() {
    const MPoint p = GenPoint();
    c.Note(Cat("add alignment point ", p.station, "/", p.elevation, "/", p.rotation));
    Expect("add alignment point", line->AddAlignmentPoint(Real(p)), model.AddPoint(p));
  }
  void DeletePoint() {
    const int i = GenIndex(model.points.size());
    c.Note(Cat("delete alignment point ", i));
    const int got = line->DeleteAlignmentPoint(i) ? 0 : -1;
    if (Has(i, model.points.size())) {
      model.points.erase(model.points.begin() + i);
      model.DropOffAlignment();
      Expect("delete alignment point", got, 0);
    } else {
      Expect("delete alignment point", got, -1);
    }
  }
  void ModifyPoint() {
    const int i = GenIndex(model.points.size());
    MPoint p = GenPoint();
    if (Has(i, model.points.size()) && c.Bool()) p.station = model.points[static_cast<size_t>(i)].station;
    c.Note(Cat("modify alignment point ", i, " to ", p.station, "/", p.elevation, "/", p.rotation));
    const int got = line->ModifyAlignmentPoint(i, Real(p));
    int expected = -1;
    if (Has(i, model.points.size())) {
      const std::vector<MPoint> before = model.points;
      model.points.erase(model.points.begin() + i);
      expected = model.AddPoint(p);
      if (expected == -1) model.points = before;
      else model.DropOffAlignment();
    }
    Expect("modify alignment point", got, expected);
  }
  void AddStand() {
    MStructure s = GenStand();
    s.id = next_id++;
    c.Note(Cat("add structure ", s.id, " at ", s.station, " base ", s.base, " hardware ", s.hardware.size() > 0 ? s.hardware[0] : -1,
               s.hardware.size() > 1 ? s.hardware[1] : -1, s.hardware.size() > 2 ? s.hardware[2] : -1));
    const int got = line->AddLineStructure(Real(s));
    const int expected = model.AddStand(s);
    Expect("add structure", got, expected);
    if (expected != -1) Learn(expected, s.id);
  }
  void DeleteStand() {
    const int i = GenIndex(model.stands.size());
    c.Note(Cat("delete structure ", i));
    const int got = line->DeleteLineStructure(i) ? 0 : -1;
    if (Has(i, model.stands.size())) {
      model.DropStand(model.stands[static_cast<size_t>(i)].id);
      model.DropUnstrung();
      Expect("delete structure", got, 0);
    } else {
      Expect("delete structure", got, -1);
    }
  }
  void ModifyStand() {
    const int i = GenIndex(model.stands.size());
    MStructure s = GenStand();
    if (Has(i, model.stands.size())) {
      const MStructure& o = model.stands[static_cast<size_t>(i)];
      switch (c.Int(0, 3)) {
        case 0: break;
        case 1: s.base = o.base; s.hardware = o.hardware; break;
        case 2: s.station = o.station; break;
        default:
          s.base = o.base;
          s.hardware = o.hardware;
          s.station = o.station + c.PickOf<double>({50, -50, 100, 0.5, -0.5, 1, -1});
      }
      s.id = o.id;
    }
    c.Note(Cat("modify structure ", i, " to ", s.station, " base ", s.base, " hardware ", s.hardware.size() > 0 ? s.hardware[0] : -1,
               s.hardware.size() > 1 ? s.hardware[1] : -1, s.hardware.size() > 2 ? s.hardware[2] : -1));
    const int got = line->ModifyLineStructure(i, Real(s)) ? 0 : -1;
    int expected = -1;
    const size_t n = static_cast<size_t>(i);
    if (Has(i, model.stands.size()) && model.OnAlignment(s.station) && (i == 0 || model.stands[n - 1].station < s.station) &&
        (n + 1 == model.stands.size() || s.station < model.stands[n + 1].station)) {
      expected = 0;
      model.stands[n] = s;
      for (MCable& m : model.cables) {
        std::vector<MCon> keep;
        for (const MCon& q : m.con)
          if (q.id != s.id || q.attachment < static_cast<int>(s.hardware.size())) keep.push_back(q);
        m.con = keep;
      }
      model.DropUnstrung();
    }
    Expect("modify structure", got, expected);
  }
  void AddCable() {
    const MCable m = GenCable(nullptr);
    c.Note(Note("add cable", m));
    bool is_foreign = false;
    const int got = line->AddLineCable(Real(m, &is_foreign));
    Expect("add cable", got, is_foreign ? -1 : model.AddCable(m));
  }
  void DeleteCable() {
    const int i = GenIndex(model.cables.size());
    c.Note(Cat("delete cable ", i));
    const int got = line->DeleteLineCable(i) ? 0 : -1;
    if (Has(i, model.cables.size())) {
      model.cables.erase(model.cables.begin() + i);
      Expect("delete cable", got, 0);
    } else {
      Expect("delete cable", got, -1);
    }
  }
  void ModifyCable() {
    const int i = GenIndex(model.cables.size());
    const bool has = Has(i, model.cables.size());
    MCable m = GenCable(has ? &model.cables[static_cast<size_t>(i)] : nullptr);
    if (has && c.Chance(1, 3)) m.con = model.cables[static_cast<size_t>(i)].con;
    c.Note(Note(Cat("modify cable ", i, " to"), m));
    bool is_foreign = false;
    const int got = line->ModifyLineCable(i, Real(m, &is_foreign));
    int expected = -1;
    if (has && !is_foreign) {
      const std::vector<MCable> before = model.cables;
      model.cables.erase(model.cables.begin() + i);
      expected = model.AddCable(m);
      if (expected == -1) model.cables = before;
    }
    Expect("modify cable", got, expected);
  }
  std::string Note(const std::string& what, const MCable& m) const {
    std::string s = Cat(what, " tag ", m.tag, " [");
    for (const MCon& q : m.con) s += Cat(" ", q.id, ".", q.attachment);
    return s + " ]";
  }
  void Relearn() {
    for (size_t i = 0; i < model.stands.size(); i++) address[static_cast<size_t>(model.stands[i].id)] = At(i);
  }
  // keep working on a copy, with the original gone, or on the original
  void Copy() {
    const int way = static_cast<int>(c.Int(0, 5));
    c.Note(Cat("copy, way ", way));
    copies++;
    if (way == 0) {
      line.reset(new TransmissionLine(*line));
      Relearn();
    } else if (way == 1) {
      std::unique_ptr<TransmissionLine> t(new TransmissionLine);
      *t = *line;
      line = std::move(t);
      Relearn();
    } else if (way == 2) {
      // over a line that holds something
      std::unique_ptr<TransmissionLine> t(new TransmissionLine(*line));
      t->DeleteLineStructure(0);
      t->DeleteAlignmentPoint(0);
      *t = *line;
      line = std::move(t);
      Relearn();
    } else if (way == 3) {
      // edits of a copy leave the original alone
      TransmissionLine t(*line);
      while (t.DeleteLineCable(0)) {
      }
      while (t.DeleteLineStructure(0)) {
      }
      while (t.DeleteAlignmentPoint(0)) {
      }
    } else if (way == 4) {
      TransmissionLine t(*line);
      line->origin();
    } else {
      const TransmissionLine& self = *line;
      *line = self;
    }
    other.reset(new TransmissionLine(*line));
  }
  void Start() {
    if (c.Chance(3, 4)) {
      for (double s : {0.0, 1200.0}) {
        MPoint p = GenPoint();
        p.station = rich ? s * 4 : s;
        c.Note(Cat("add alignment point ", p.station, "/", p.elevation, "/", p.rotation));
        Expect("add alignment point", line->AddAlignmentPoint(Real(p)), model.AddPoint(p));
      }
    }
    const int p = static_cast<int>(c.Int(0, 3));
    for (int i = 0; i < p; i++) AddPoint();
    const int s = static_cast<int>(c.Int(0, 9));
    for (int i = 0; i < s; i++) AddStand();
    const int k = static_cast<int>(c.Int(0, 5));
    for (int i = 0; i < k; i++) AddCable();
  }
  void Step() {
    const size_t cables = model.cables.size(), stands = model.stands.size();
    switch (c.Int(0, 15)) {
      case 0: AddPoint(); break;
      case 1: DeletePoint(); break;
      case 2: ModifyPoint(); break;
      case 3: case 4: AddStand(); break;
      case 5: DeleteStand(); break;
      case 6: case 7: case 8: ModifyStand(); break;
      case 9: case 10: case 11: AddCable(); break;
      case 12: DeleteCable(); break;
      case 13: case 14: ModifyCable(); break;
      default: Copy();
    }
    if (model.cables.size() < cables || model.stands.size() < stands) dropped++;
  }

  // everything that can be observed about `l` matches the model
  void Compare(const TransmissionLine& l, bool is_self) {
    const auto* points = l.alignment()->points();
    Check(c, points->size() == model.points.size(), Cat(points->size(), " alignment points, expected ", model.points.size()));
    size_t i = 0;
    for (const AlignmentPoint& p : *points) {
      const MPoint& m = model.points[i++];
      Check(c, p.station == m.station && p.elevation == m.elevation && p.rotation == m.rotation, Cat("alignment point ", i - 1));
    }
    const auto* stands = l.line_structures();
    Check(c, stands->size() == model.stands.size(), Cat(stands->size(), " structures, expected ", model.stands.size()));
    i = 0;
    std::vector<const LineStructure*> where;
    for (const LineStructure& s : *stands) {
      const MStructure& m = model.stands[i];
      Check(c, s.station() == m.station && s.height_adjustment() == m.adjust && s.offset() == m.offset && s.rotation() == m.rotation,
            Cat("structure ", i, " values"));
      Check(c, s.structure() == (m.base < 0 ? nullptr : &parts.structure[m.base]), Cat("structure ", i, " base"));
      std::vector<const Hardware*> h;
      for (int k : m.hardware) h.push_back(parts.Of(k));
      Check(c, *s.hardwares() == h, Cat("structure ", i, " hardware"));
      if (is_self) Check(c, &s == address[static_cast<size_t>(m.id)], Cat("structure ", i, " has to stay where it is"));
      Check(c, l.IndexLineStructure(&s) == static_cast<int>(i), Cat("index of structure ", i));
      where.push_back(&s);
      i++;
    }
    Check(c, l.IndexLineStructure(nullptr) == -1, "index of no structure");
    const auto* cables = l.line_cables();
    Check(c, cables->size() == model.cables.size(), Cat(cables->size(), " cables, expected ", model.cables.size()));
    i = 0;
    for (const LineCable& k : *cables) {
      const MCable& m = model.cables[i];
      Check(c, k.constraint().limit == m.tag, Cat("cable ", i, " is ", k.constraint().limit, ", expected ", m.tag));
      Check(c, k.connections()->size() == m.con.size(), Cat("cable ", i, " connection count"));
      size_t j = 0;
      for (const LineCableConnection& q : *k.connections()) {
        const int at = model.IndexOf(m.con[j].id);
        Check(c, at >= 0 && q.line_structure == where[static_cast<size_t>(at)] && q.index_attachment == m.con[j].attachment,
              Cat("cable ", i, " connection ", j));
        j++;
      }
      i++;
    }
    for (int s = -1; s <= static_cast<int>(model.stands.size()); s++)
      for (int a = -1; a < 7; a++) {
        const bool t = Has(s, model.stands.size()) && model.Taken(model.stands[static_cast<size_t>(s)].id, a);
        Check(c, l.HasConnection(s, a) == t, Cat("connection at structure ", s, " attachment ", a, " should be ", t));
      }
  }
};

}  // namespace line

#endif  // VERIF_LINE_H_
