// P12: a transmission line's alignment, structures and cables stay consistent
// through any edit history.
#include "line.h"

using namespace vp;
using namespace line;

namespace {

void LawHistory(Case& c) {
  Parts parts(c);
  World w(c, parts);
  w.close = w.wild = true;
  w.Start();
  w.Compare(*w.line, true);
  const int n = static_cast<int>(c.Int(1, 25));
  int cables = 0;
  for (int i = 0; i < n; i++) {
    w.Step();
    w.Compare(*w.line, true);
    if (w.other && c.Chance(1, 6)) {
      const TransmissionLine copy(*w.line);
      w.Compare(copy, false);
    }
    cables = std::max(cables, static_cast<int>(w.model.cables.size()));
  }
  c.NonTrivial(cables > 0 && w.dropped > 0 && w.refused > 0);
}

// every cable of a line is one that could be added to it
void LawInvariants(Case& c) {
  Parts parts(c);
  World w(c, parts);
  w.close = w.wild = true;
  w.Start();
  const int n = static_cast<int>(c.Int(1, 40));
  int cables = 0;
  for (int i = 0; i < n; i++) {
    w.Step();
    if (c.Chance(1, 8)) w.line->Validate(c.Bool(), nullptr);
    if (c.Chance(1, 8)) w.line->PointsXyzLineStructures();
    const TransmissionLine& l = *w.line;
    double station = -1;
    for (const LineStructure& s : *l.line_structures()) {
      Check(c, s.station() > station, "structures are in order of station");
      station = s.station();
      Check(c, l.alignment()->IsValidStation(station), "structures are on the alignment");
    }
    std::vector<std::pair<const LineStructure*, int>> used;
    std::pair<int, int> first(-1, -1);
    for (const LineCable& k : *l.line_cables()) {
      cables++;
      Check(c, k.ValidateConnections(true, nullptr), "cable connections are valid");
      double at = -1;
      for (const LineCableConnection& q : *k.connections()) {
        Check(c, l.IndexLineStructure(q.line_structure) >= 0, "cables are on the structures of their own line");
        Check(c, q.line_structure->station() > at, "connections are in order of station");
        at = q.line_structure->station();
        used.push_back({q.line_structure, q.index_attachment});
      }
      const std::pair<int, int> key(l.IndexLineStructure(k.connections()->front().line_structure),
                                    k.connections()->front().index_attachment);
      Check(c, first < key, "cables are in order of start structure and attachment");
      first = key;
    }
    std::sort(used.begin(), used.end());
    Check(c, std::adjacent_find(used.begin(), used.end()) == used.end(), "an attachment holds one cable");
  }
  c.NonTrivial(cables > 3 && w.accepted > 5);
}

}  // namespace

Property vp::MakeProperty() {
  return {"P12",
          {"arguments of an edit are not elements of the line being edited", "base structures and hardware outlive the line"},
          {{"history", "a cable was on the line, an edit was refused and one removed something", 40000, 1000000, LawHistory},
           {"invariants", "cables on the line over several steps", 40000, 1000000, LawInvariants}},
          {}};
}
