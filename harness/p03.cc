// P03: text and number helpers.
#include <cctype>
#include <list>

#include "engine.h"
#include "model.h"
#include "models/base/helper.h"

using namespace vp;

namespace {

std::string Word(Case& c, const std::string& alphabet, int max) {
  const int n = static_cast<int>(c.Int(0, max));
  std::string s;
  for (int i = 0; i < n; i++)
    s += alphabet[static_cast<size_t>(c.Int(0, static_cast<int64_t>(alphabet.size()) - 1))];
  return s;
}
std::string Printable() {
  std::string s;
  for (char ch = 'a'; ch <= 'z'; ch++) s += ch;
  for (char ch = ' '; ch <= '`'; ch++) s += ch;
  return s + "{|}~\t";
}
int RefCompare(const std::string& a, const std::string& b) {
  std::string la, lb;
  for (char ch : a) la += static_cast<char>(std::tolower(ch));
  for (char ch : b) lb += static_cast<char>(std::tolower(ch));
  return la < lb ? -1 : la > lb ? 1 : 0;
}
std::string Recase(Case& c, std::string s) {
  for (char& ch : s)
    if (c.Bool()) ch = static_cast<char>(std::isupper(ch) ? std::tolower(ch) : std::toupper(ch));
  return s;
}

void LawCompare(Case& c) {
  static const std::string kAll = Printable();
  const std::string alphabet = c.Bool() ? kAll : "abAB1_ ";
  const std::string a = Word(c, alphabet, 6);
  std::string b = Word(c, alphabet, 6);
  const int relate = static_cast<int>(c.Int(0, 3));
  if (relate == 1) b = Recase(c, a);
  if (relate == 2) b = Recase(c, a) + b;
  if (relate == 3 && !a.empty()) b = Recase(c, a.substr(0, a.size() - 1)) + b;
  const std::string d = Word(c, alphabet, 6);
  c.Note(Cat("compare \"", a, "\" \"", b, "\" \"", d, "\""));
  c.NonTrivial(!a.empty() && !b.empty());
  auto cmp = [](const std::string& x, const std::string& y) { return helper::CompareStrings(x, y); };
  Check(c, cmp(a, b) == RefCompare(a, b),
        Cat("comparison gives ", cmp(a, b), ", expected ", RefCompare(a, b)));
  Check(c, cmp(a, a) == 0 && cmp(a, Recase(c, a)) == 0, "a string equals itself in any case");
  Check(c, cmp(b, a) == -cmp(a, b), "comparison must be antisymmetric");
  if (cmp(a, b) <= 0 && cmp(b, d) <= 0) Check(c, cmp(a, d) <= 0, "comparison must be transitive");
}

double Number(Case& c) {
  if (c.Chance(1, 10)) return 0;
  double v;
  switch (c.Int(0, 3)) {
    case 0: v = static_cast<double>(c.Int(1, 100000)); break;
    case 1: v = static_cast<double>(c.Int(1, 1000000)) / 64; break;
    case 2: v = c.LogReal(1e-8, 1e8, 1); break;
    default: v = c.Real(0, 1000, 1);
  }
  return c.Bool() ? -v : v;
}

void LawFormat(Case& c) {
  const double v = c.Chance(1, 10) ? (c.Bool() ? 1 : -1) * c.LogReal(1e-290, 1e290, 1) : Number(c);
  const bool fixed = c.Bool();
  const int precision = static_cast<int>(c.Int(fixed ? 0 : 1, 20));
  const std::string s = helper::DoubleToString(v, precision, fixed);
  c.Note(Cat("format ", v, fixed ? " fixed " : " significant ", precision, " -> ", s));
  c.NonTrivial(v != 0);
  char ref[512];
  std::snprintf(ref, sizeof ref, fixed ? "%.*f" : "%.*g", precision, v);
  Check(c, s == ref, Cat("formatted as \"", s, "\", expected \"", ref, "\""));
  Check(c, helper::IsNumeric(s), "a formatted number must be numeric");
  const double back = std::stod(s);
  if (fixed) {
    CheckNear(c, "parsed back", back, v, 0.5000001 * std::pow(10, -precision) + 1e-15 * std::fabs(v), 0);
    const size_t dot = s.find('.');
    const size_t digits = dot == std::string::npos ? 0 : s.size() - dot - 1;
    Check(c, digits == static_cast<size_t>(precision), "fixed format must have the requested decimals");
  } else {
    CheckNear(c, "parsed back", back, v, 0, 5.000001 * std::pow(10, -precision) + 1e-15);
    if (precision >= 17) Check(c, back == v, "17 digits tell any number apart");
  }
  // embellishments
  Check(c, helper::IsNumeric(" " + s), "leading blanks keep a number numeric");
  static const std::string kJunk = "abcxyzABC_%$#,;:/()defDEFlLnNuUiIpP\'\"*&!?";
  const std::string junk = std::string(1, kJunk[static_cast<size_t>(c.Int(0, static_cast<int64_t>(kJunk.size()) - 1))]);
  Check(c, !helper::IsNumeric(s + junk), "a number followed by \"" + junk + "\" is not numeric");
  Check(c, !helper::IsNumeric(junk + s), "\"" + junk + "\" followed by a number is not numeric");
  static const std::string kTail = "+-";
  Check(c, !helper::IsNumeric(s + kTail[static_cast<size_t>(c.Int(0, 1))]), "a number with a trailing sign is not numeric");
  Check(c, !helper::IsNumeric(s + " " + junk), "a number and a word are not numeric");
  Check(c, helper::IsNumeric(s + c.PickOf<const char*>({" ", "  ", "\t", "\n"})), "trailing blanks keep a number numeric");
  const char* word = c.PickOf<const char*>({"-", "+", ".", "e", "-.", "--1", "1e", "e5", "inf", "nan", " ", "f", "0x", "one", "1.2.3", "1,2", "+-1"});
  Check(c, !helper::IsNumeric(word), Cat("\"", word, "\" is not numeric"));
  Check(c, !helper::IsNumeric(s + " " + s), "two numbers are not numeric");
  Check(c, !helper::IsNumeric(""), "an empty string is not numeric");
}

void LawParse(Case& c) {
  const char delimiter = c.PickOf<char>({',', ';', ' ', '|', 'x', '\t'});
  const int n = static_cast<int>(c.Int(0, 7));
  std::list<std::string> fields;
  std::string joined, terminated;
  for (int i = 0; i < n; i++) {
    std::string f = Word(c, "ab01,;| x\t\"'\\\n", 5), g;
    for (char ch : f)
      if (ch != delimiter) g += ch;
    fields.push_back(g);
    joined += (i ? std::string(1, delimiter) : "") + g;
    terminated += g + delimiter;
  }
  c.Note(Cat("parse \"", joined, "\" at '", std::string(1, delimiter), "' into ", n, " fields"));
  c.NonTrivial(n >= 2);
  auto show = [](const std::list<std::string>& l) {
    std::string s;
    for (auto& x : l) s += "[" + x + "]";
    return s;
  };
  const std::list<std::string> a = helper::Parse(terminated, delimiter);
  Check(c, a == fields, "terminated fields parse to " + show(a) + ", expected " + show(fields));
  if (!fields.empty() && !fields.back().empty()) {
    const std::list<std::string> b = helper::Parse(joined, delimiter);
    Check(c, b == fields, "joined fields parse to " + show(b) + ", expected " + show(fields));
  }
}

void LawRound(Case& c) {
  const double v = Number(c);
  int p = static_cast<int>(c.Int(0, 8));
  while (p > 0 && std::fabs(v) * std::pow(10, p) > 1e12) p--;  // digits a double can hold
  const double r = helper::Round(v, p);
  const double unit = std::pow(10, -p);
  c.Note(Cat("round ", v, " to ", p, " -> ", r));
  c.NonTrivial(v != r);
  const double eps = 1e-14 * std::fabs(v);
  Check(c, std::fabs(r - v) <= 0.5 * unit * (1 + 1e-9) + eps, Cat("rounded by more than half a unit: ", r));
  const double q = r / unit;
  Check(c, std::fabs(q - std::round(q)) <= 1e-9 + 1e-14 * std::fabs(q) * 4, Cat("not a multiple of the unit: ", r));
  Check(c, helper::Round(r, p) == r, "rounding must be idempotent");
  Check(c, helper::Round(-v, p) == -r, "rounding must be symmetric");
  double w = Number(c);
  if (std::fabs(w) * std::pow(10, p) > 1e12) w = v;
  if (v <= w) Check(c, r <= helper::Round(w, p), "rounding must be monotone");
  else Check(c, helper::Round(w, p) <= r, "rounding must be monotone");
  // halves that are exact in binary round away from zero
  const double h = static_cast<double>(c.Int(-100000, 100000)) + 0.5;
  Check(c, helper::Round(h, 0) == h + (h > 0 ? 0.5 : -0.5), Cat("half ", h, " rounds to ", helper::Round(h, 0)));
}

void LawLinear(Case& c) {
  const double x1 = Number(c), y1 = Number(c), y2 = Number(c);
  double dx = c.LogReal(1e-3, 1e4, 1);
  if (c.Bool()) dx = -dx;
  const double x2 = x1 + dx;
  if (x2 == x1) c.Reject();
  const double t = c.Real(-3, 4, 0.5);
  const double x = x1 + t * (x2 - x1);
  c.Note(Cat("line (", x1, ",", y1, ") (", x2, ",", y2, ") at ", x));
  c.NonTrivial(y1 != y2);
  const long double s = (static_cast<long double>(y2) - y1) / (static_cast<long double>(x2) - x1);
  const double ref = static_cast<double>(y1 + (static_cast<long double>(x) - x1) * s);
  const double scale = std::fabs(y1) + std::fabs(y2);
  CheckNear(c, "interpolated value", helper::LinearY(x1, y1, x2, y2, x), ref, 1e-12 * scale, 1e-12);
  CheckNear(c, "first point", helper::LinearY(x1, y1, x2, y2, x1), y1, 1e-12 * scale, 0);
  CheckNear(c, "second point", helper::LinearY(x1, y1, x2, y2, x2), y2, 1e-11 * scale, 0);
  const double cond = 1e-11 + 1e-14 * std::fabs(x1 / (x2 - x1));
  CheckNear(c, "points swapped", helper::LinearY(x2, y2, x1, y1, x), helper::LinearY(x1, y1, x2, y2, x),
            cond * 10 * scale, 0);
}
}  // namespace

Property vp::MakeProperty() {
  return {"P03",
          {"text is 7-bit printable; number magnitudes are 0 or 1e-8 .. 1e8"},
          {{"compare", "both strings are non-empty", 300000, 6000000, LawCompare},
           {"format", "the number is not zero", 200000, 4000000, LawFormat},
           {"parse", "at least two fields", 200000, 4000000, LawParse},
           {"round", "rounding changes the number", 300000, 6000000, LawRound},
           {"linear", "the line is not level", 300000, 6000000, LawLinear}},
          {}};
}
