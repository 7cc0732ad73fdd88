#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "property-based testing: "
PROPS = []


def prop(id, title, statement, over, quantifier, why, files, mechanism, tech, note, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quantifier=quantifier, why=why,
                      files=files, mechanism=mechanism, tech=tech, note=note, state=state or []))


TRUST = " Bounded by the generated sample; trusts the reference formulas in harness/, g++ and the sanitizers."

prop("P01", "Vectors keep size and angle under rotation and scaling",
     "Rotating a 2D or 3D vector (about any coordinate plane, by any angle) turns it by exactly that angle and keeps its magnitude; scaling "
     "multiplies every component. The reported angle of a vector is always in [0, 360) degrees and agrees with its components in every quadrant.",
     ["inputs"], "every vector, plane, angle and sequence of rotations and scalings",
     "The tests rotate a handful of vectors; quadrant edges, tiny or huge components and repeated rotations are not sampled.",
     ["src/base/vector.cc", "include/models/base/vector.h"],
     [{"name": "rotation and quadrant handling", "where": "src/base/vector.cc"}],
     "trigonometric reference and algebraic laws over random vectors",
     "Random vectors and rotation sequences against long double trigonometry." + TRUST)

prop("P02", "Unit conversions are exact, invertible and consistent",
     "Every unit conversion multiplies by the defining factor of the units involved (temperatures with their offset), for any power of the unit, "
     "as numerator or denominator, and converting there and back returns the value. Chains of conversions agree with the direct conversion "
     "and an unknown conversion is refused.",
     ["inputs"], "every conversion, exponent and value",
     "The tests convert one value per unit; exponents, round trips, signs and composition with other conversions are not covered.",
     ["src/base/units.cc", "include/models/base/units.h"],
     [{"name": "conversion tables", "where": "src/base/units.cc"}],
     "independent conversion factors and round trips over random values",
     "Factors are restated independently; round trips and composition are checked on random values." + TRUST)

prop("P03", "Helper routines keep their textbook meaning on every input",
     "String comparison is a consistent case-insensitive ordering, rounding returns the nearest value at the requested decimals, linear "
     "interpolation and extrapolation follow the line through two points, formatted numbers read back as the value at the requested "
     "precision, numeric text is recognised exactly, and delimited text splits into its fields.",
     ["inputs"], "every argument of the base helper functions",
     "The tests check single examples; negative values, ties, prefixes, reversed or coincident points and long strings are not sampled.",
     ["src/base/helper.cc", "include/models/base/helper.h"],
     [{"name": "helper functions", "where": "src/base/helper.cc"}],
     "reference implementations over random inputs",
     "Each helper is compared with an independent restatement on random and edge inputs." + TRUST)

prop("P04", "Polynomials evaluate, differentiate and invert consistently",
     "A polynomial's value and slope equal those of its coefficients at every point, solving for a target value returns a point where the "
     "polynomial has that value, and copies behave like the original and are independent of it. A cylinder's area and volume follow "
     "from its diameter and length.",
     ["inputs", "histories"], "every degree, coefficient set, position, target and sequence of copies and edits",
     "The tests use one polynomial; other degrees, copies, repeated use and awkward targets are not covered.",
     ["src/base/polynomial.cc", "src/base/geometric_shapes.cc"],
     [{"name": "evaluation and cached derivative", "where": "src/base/polynomial.cc"}],
     "long double Horner reference, inverse round trip and copy histories",
     "Random polynomials against a long double reference; copy/assign/edit histories under AddressSanitizer." + TRUST)

prop("P05", "A planar catenary is the curve its tension, weight and ends define",
     "For any valid horizontal tension, unit weight and end spacing (level or inclined), the curve passes through both ends, has the exact "
     "hyperbolic shape, length, slack, sag, tangent and tension at every position, and its pulls at the ends carry exactly the weight of the "
     "cable. Invalid inputs are reported as invalid, and results depend only on the current inputs, whatever was asked or set before.",
     ["inputs", "histories"], "every valid span and position, every edit history",
     "The tests pin a few positions on two spans; uplift spans, steep or nearly straight curves and edit sequences are not sampled.",
     ["src/transmissionline/catenary.cc", "include/models/transmissionline/catenary.h"],
     [{"name": "catenary formulas and update flag", "where": "src/transmissionline/catenary.cc (Catenary2d)"}],
     "long double analytic catenary as reference model over random spans and edit histories",
     "Closed-form long double catenary against every query; error bounds scale with conditioning." + TRUST)

prop("P06", "A wind-blown catenary is its planar curve swung with the load",
     "A span loaded by weight and transverse wind has the length, sag and tension of the planar curve in the resultant-load plane, swings by "
     "the angle of the resultant load to the chosen side, runs from end to end, and wind from the other side gives the mirror image. Without "
     "wind or on level spans the end pulls carry exactly the load; results depend only on the current inputs.",
     ["inputs", "histories"], "every valid 3D span, load, side, position and edit history",
     "The tests pin one span with and without wind; other swings, inclines, sides and edit sequences are not covered.",
     ["src/transmissionline/catenary.cc", "include/models/transmissionline/catenary.h"],
     [{"name": "projection to the loaded plane", "where": "src/transmissionline/catenary.cc (Catenary3d)"}],
     "analytic reference, mirror relation and edit histories",
     "Analytic long double reference; one known finding: end pulls of inclined spans in the wind do not carry the load." + TRUST)

prop("P07", "The catenary solver finds the curve that meets the constraint",
     "Given a unit load, end spacing and a target (horizontal tension, catenary constant, length, sag or support tension), the solved catenary "
     "meets the target within the solver's precision and keeps the load and spacing. Unreachable or invalid targets are reported "
     "as failures, and a solver that is edited gives the same answer as a fresh one.",
     ["inputs", "histories"], "every reachable target of every kind, every edit history",
     "The tests solve one span per target type; targets near limits, first guesses that already match and re-use are not sampled.",
     ["src/transmissionline/catenary_solver.cc"],
     [{"name": "secant iteration", "where": "src/transmissionline/catenary_solver.cc"}],
     "inverse round trip: targets taken from analytic curves",
     "Targets are computed from analytic curves and must be recovered." + TRUST)

prop("P08", "Ice and wind loads on a cable follow its geometry and weather",
     "The unit load of a cable is its weight plus the weight of a uniform ice ring, and the transverse load is the wind pressure on the iced "
     "diameter, for every valid cable and weather case. Loads grow with ice and wind, and invalid cables or weather are rejected.",
     ["inputs", "histories"], "every cable, ice thickness and density, wind pressure, edit order",
     "The tests evaluate one cable and weather case.",
     ["src/transmissionline/cable_unit_load_solver.cc", "src/transmissionline/cable.cc", "src/transmissionline/weather_load_case.cc"],
     [{"name": "unit load formulas", "where": "src/transmissionline/cable_unit_load_solver.cc"}],
     "closed-form reference and monotonicity over random cables and weather",
     "Closed-form ring geometry reference." + TRUST)

prop("P09", "A suspension string hangs along the combined pull of its spans",
     "The equilibrium angle at a support is the direction of the summed pulls of the two spans, for any turn, side, wind and span pair; the "
     "reported imbalance is the distance between the string's reaction and that pull and vanishes at equilibrium. Mirroring or walking the "
     "line the other way gives the same string.",
     ["inputs", "histories"], "every pair of spans, turn angle, side, string angle and edit history",
     "The tests use one pair of spans with two turn angles.",
     ["src/transmissionline/cable_attachment_equilibrium_solver.cc"],
     [{"name": "vector balance", "where": "src/transmissionline/cable_attachment_equilibrium_solver.cc"}],
     "vector-sum reference, mirror and reversal relations",
     "Vector reference built on the library's 3D catenary, which P06 decides." + TRUST)

prop("P10", "Alignment points stay sorted, unique and addressable",
     "However points are added, changed and removed, an alignment keeps its points in order of station with no duplicates, returns the index "
     "where a point ended up, and refuses edits that would break this without changing anything. Every station between the first and last "
     "point, and no other, is on the alignment and is found in the segment that contains it.",
     ["histories", "inputs"], "every sequence of edits and queries",
     "The tests apply one edit of each kind to one alignment.",
     ["src/transmissionline/alignment.cc"],
     [{"name": "sorted insertion and station lookup", "where": "src/transmissionline/alignment.cc"}],
     "stateful testing against a sorted-list model",
     "Random edit histories against a reference model." + TRUST)

prop("P11", "Line cables connect in order with matching hardware and a ruling span",
     "A line cable keeps its connections in order of station with at most one per station; it is valid only when dead-end hardware holds both "
     "ends and suspension hardware every point between. Its ruling span catenary carries the constraint's weather load and meets the "
     "constraint whatever kind of limit is given, and incomplete or contradictory cables, structures and hardware are reported as invalid.",
     ["histories", "inputs"], "every connection edit history, every constraint kind and limit, every single invalid field",
     "The tests add a few connections and solve one constraint.",
     ["src/transmissionline/line_cable.cc", "src/transmissionline/line_structure.cc", "src/transmissionline/structure.cc",
      "src/transmissionline/hardware.cc", "src/transmissionline/cable_constraint.cc"],
     [{"name": "connection ordering and validation", "where": "src/transmissionline/line_cable.cc"},
      {"name": "hardware slots follow attachments", "where": "src/transmissionline/line_structure.cc"}],
     "stateful testing against a list model; analytic constraint round trip",
     "Reference models for connections and hardware; analytic ruling span." + TRUST)

prop("P12", "A transmission line stays consistent through any edit history",
     "After any sequence of edits to alignment points, structures and cables (and copies of the line), structures are on the alignment in "
     "order of unique stations, keep their identity, and every cable is strung on attachments of the line's own structures with matching "
     "hardware, one cable per attachment, in order of start. Edits that would break this are refused and change nothing; "
     "removing or changing structures or the alignment removes exactly the connections and cables that no longer fit.",
     ["histories"], "every sequence of accepted and refused edits, copies and queries",
     "The tests apply each edit once to one fixed line; dependent removals, refused edits, copies and their combinations are not covered.",
     ["src/transmissionline/transmission_line.cc", "src/transmissionline/line_cable.cc", "src/transmissionline/alignment.cc"],
     [{"name": "dependency clean-up after edits", "where": "src/transmissionline/transmission_line.cc"},
      {"name": "connections re-targeted on copy", "where": "src/transmissionline/transmission_line.cc (operator=)"}],
     "stateful model-based testing with shrinking",
     "Random edit histories compared with a complete reference model after each step." + TRUST)

prop("P13", "Line coordinates follow from the current state of the line alone",
     "At any moment of an edit history, coordinates of alignment stations, structures and structure attachments equal the geometry of the "
     "current alignment (origin, stations, turns, elevations) and of the structure's own offsets and rotation; structures at a turn face "
     "halfway. Stations, structures or attachments that don't exist give the undefined point, and a copy answers like its original.",
     ["histories", "inputs"], "every line, station, structure and attachment, at every point of every edit history",
     "The tests check a few points of one fixed line and never edit it in between.",
     ["src/transmissionline/transmission_line.cc"],
     [{"name": "cached xyz points and update flags", "where": "src/transmissionline/transmission_line.cc"}],
     "independent geometry reference queried at random moments of random histories",
     "Long double geometry from the model state." + TRUST)

prop("P14", "Cables hang from attachment to attachment with strings in balance",
     "For any line, cable and load, dead-end attachments stay at the structure and each suspension string has its own length and hangs along "
     "the pull of its two spans within the stated imbalance limit; span points run along the catenary between the attachments. "
     "Turning or mirroring the whole line turns or mirrors the cable, and impossible requests are answered with nothing or reported invalid.",
     ["inputs", "histories"], "every line geometry and heading, load, wind side, span, number of points and edit history",
     "The tests locate one cable on one line heading north with a left turn.",
     ["src/transmissionline/cable_position_locator.cc"],
     [{"name": "iterative string balance", "where": "src/transmissionline/cable_position_locator.cc"}],
     "reference fixed-point model, turn and mirror relations, edit histories",
     "Independent fixed-point solution of the strings (with the library's 3D catenary for span pulls); cases whose spans pull unevenly along "
     "the line, a consequence of the known finding of P06, are left out." + TRUST)

exec(open(os.path.join(VERIF, "tools", "spec_more.py")).read()) if os.path.exists(os.path.join(VERIF, "tools", "spec_more.py")) else None


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quantifier"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"], "mechanism": p["mechanism"]}}) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "python3 run.py --build-all",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 run.py %s quick" % p["id"],
            "thorough_cmd": "python3 run.py %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": TECH + p["tech"],
            "level": "exploration",
            "level_note": p["note"]} for p in PROPS],
        "not_applicable": [],
        "notes": "Engine: harness/engine.cc (choice-sequence generators, shrinking, replay). No hooks in /repo."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


main()
