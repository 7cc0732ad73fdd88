// P02: unit conversions.
#include "engine.h"
#include "model.h"
#include "models/base/units.h"

using namespace vp;
using namespace units;

namespace {

struct Conv {
  const char* name;
  std::function<double(double, int, bool)> forward, inverse;
  double factor;       // exact definition of one source unit in target units
  double rtol;
};
#define ANG(a) [](double v, int e, bool n) { return ConvertAngle(v, AngleConversionType::a, e, n); }
#define FRC(a) [](double v, int e, bool n) { return ConvertForce(v, ForceConversionType::a, e, n); }
#define LEN(a) [](double v, int e, bool n) { return ConvertLength(v, LengthConversionType::a, e, n); }
#define STR(a) [](double v, int e, bool n) { return ConvertStress(v, StressConversionType::a, e, n); }
#define TMP(a) [](double v, int e, bool n) { return ConvertTemperature(v, TemperatureConversionType::a, e, n); }

const std::vector<Conv>& Table() {
  const double kIn = 0.0254, kLbf = 4.4482216152605;
  static const std::vector<Conv> t = {
      {"deg->rad", ANG(kDegreesToRadians), ANG(kRadiansToDegrees), model::kPi / 180, 1e-12},
      {"rad->deg", ANG(kRadiansToDegrees), ANG(kDegreesToRadians), 180 / model::kPi, 1e-12},
      {"N->lb", FRC(kNewtonsToPounds), FRC(kPoundsToNewtons), 1 / kLbf, 1e-12},
      {"lb->N", FRC(kPoundsToNewtons), FRC(kNewtonsToPounds), kLbf, 1e-12},
      {"cm->m", LEN(kCentimetersToMeters), LEN(kMetersToCentimeters), 0.01, 1e-12},
      {"ft->in", LEN(kFeetToInches), LEN(kInchesToFeet), 12, 1e-12},
      {"ft->m", LEN(kFeetToMeters), LEN(kMetersToFeet), 12 * kIn, 1e-12},
      {"ft->mi", LEN(kFeetToMiles), LEN(kMilesToFeet), 1 / 5280.0, 1e-12},
      {"in->ft", LEN(kInchesToFeet), LEN(kFeetToInches), 1 / 12.0, 1e-12},
      {"km->m", LEN(kKilometersToMeters), LEN(kMetersToKilometers), 1000, 1e-12},
      {"m->cm", LEN(kMetersToCentimeters), LEN(kCentimetersToMeters), 100, 1e-12},
      {"m->ft", LEN(kMetersToFeet), LEN(kFeetToMeters), 1 / (12 * kIn), 1e-12},
      {"m->km", LEN(kMetersToKilometers), LEN(kKilometersToMeters), 0.001, 1e-12},
      {"m->mm", LEN(kMetersToMillimeters), LEN(kMillimetersToMeters), 1000, 1e-12},
      {"mi->ft", LEN(kMilesToFeet), LEN(kFeetToMiles), 5280, 1e-12},
      {"mm->m", LEN(kMillimetersToMeters), LEN(kMetersToMillimeters), 0.001, 1e-12},
      {"MPa->Pa", STR(kMegaPascalToPascal), STR(kPascalToMegaPascal), 1e6, 1e-12},
      {"Pa->MPa", STR(kPascalToMegaPascal), STR(kMegaPascalToPascal), 1e-6, 1e-12},
      {"Pa->psf", STR(kPascalToPsf), STR(kPsfToPascal), (12 * kIn) * (12 * kIn) / kLbf, 2e-7},
      {"psf->Pa", STR(kPsfToPascal), STR(kPascalToPsf), kLbf / ((12 * kIn) * (12 * kIn)), 2e-7},
      {"psf->psi", STR(kPsfToPsi), STR(kPsiToPsf), 1 / 144.0, 1e-12},
      {"psi->psf", STR(kPsiToPsf), STR(kPsfToPsi), 144, 1e-12},
      {"K->R", TMP(kKelvinToRankine), TMP(kRankineToKelvin), 1.8, 1e-12},
      {"R->K", TMP(kRankineToKelvin), TMP(kKelvinToRankine), 1 / 1.8, 1e-12},
  };
  return t;
}

double Value(Case& c) {
  if (c.Chance(1, 12)) return 0;
  const double v = c.LogReal(1e-9, 1e9, 1);
  return c.Bool() ? -v : v;
}

void LawScale(Case& c) {
  const Conv& k = c.Pick(Table());
  const double v = Value(c);
  const int e = static_cast<int>(c.PickOf<int>({1, 2, 3, 4, 0, -1, -2, -3, -4}));
  const bool numerator = !c.Bool();
  c.Note(Cat(k.name, " value ", v, " exponent ", e, numerator ? " numerator" : " denominator"));
  c.NonTrivial(v != 0);
  const double f = std::pow(k.factor, numerator ? e : -e);
  const double r = k.forward(v, e, numerator);
  CheckNear(c, "converted value", r, v * f, 0, k.rtol * std::abs(e) + 1e-12);
  CheckNear(c, "there and back", k.inverse(r, e, numerator), v, 0, 1e-12);
  CheckNear(c, "numerator against denominator", k.forward(k.forward(v, e, true), e, false), v, 0, 1e-12);
  double step = v;
  for (int i = 0; i < std::abs(e); i++) step = e < 0 ? k.inverse(step, 1, numerator) : k.forward(step, 1, numerator);
  CheckNear(c, "exponent as repeated conversion", step, r, 0, 2 * k.rtol * std::abs(e) + 1e-12);
  const double d = Value(c);
  CheckNear(c, "additivity", k.forward(v + d, e, numerator),
            r + k.forward(d, e, numerator), 1e-11 * (std::fabs(v) + std::fabs(d)) * f, 1e-11);
}

void LawTemperature(Case& c) {
  typedef TemperatureConversionType T;
  const double t = c.Real(-400, 1500, 0);
  c.Note(Cat("temperature ", t));
  c.NonTrivial(t != 0);
  auto cv = [](double v, T k) { return ConvertTemperature(v, k); };
  const double tol = 1e-9;
  CheckNear(c, "C->F", cv(t, T::kCelsiusToFahrenheit), t * 9 / 5 + 32, tol, 1e-12);
  CheckNear(c, "F->C", cv(t, T::kFahrenheitToCelsius), (t - 32) * 5 / 9, tol, 1e-12);
  CheckNear(c, "C->K", cv(t, T::kCelsiusToKelvin), t + 273.15, tol, 1e-12);
  CheckNear(c, "K->C", cv(t, T::kKelvinToCelsius), t - 273.15, tol, 1e-12);
  CheckNear(c, "F->R", cv(t, T::kFahrenheitToRankine), t + 459.67, tol, 1e-12);
  CheckNear(c, "R->F", cv(t, T::kRankineToFahrenheit), t - 459.67, tol, 1e-12);
  CheckNear(c, "C->F->C", cv(cv(t, T::kCelsiusToFahrenheit), T::kFahrenheitToCelsius), t, tol, 0);
  CheckNear(c, "C->K->C", cv(cv(t, T::kCelsiusToKelvin), T::kKelvinToCelsius), t, tol, 0);
  CheckNear(c, "F->R->F", cv(cv(t, T::kFahrenheitToRankine), T::kRankineToFahrenheit), t, tol, 0);
  // C -> K -> R -> F is C -> F
  CheckNear(c, "C->K->R->F", cv(cv(cv(t, T::kCelsiusToKelvin), T::kKelvinToRankine), T::kRankineToFahrenheit),
            cv(t, T::kCelsiusToFahrenheit), 1e-8, 0);
  // differences use the unshifted conversion
  const double d = c.Real(-300, 300, 10);
  CheckNear(c, "difference", cv(t + d, T::kCelsiusToFahrenheit) - cv(t, T::kCelsiusToFahrenheit),
            cv(d, T::kKelvinToRankine), 1e-8, 0);
  // scaling and shifting with any exponent
  const int e = static_cast<int>(c.PickOf<int>({1, 2, 3, 0, -1, -2, -3}));
  const bool numerator = !c.Bool();
  const double f = std::pow(1.8, numerator ? e : -e), x = ConvertTemperature(t, T::kCelsiusToFahrenheit, e, numerator);
  c.Note(Cat("exponent ", e, numerator ? " numerator" : " denominator"));
  CheckNear(c, "C->F scaled", x, t * f + 32, 1e-9 * f, 1e-12);
  CheckNear(c, "C->F->C scaled", ConvertTemperature(x, T::kFahrenheitToCelsius, e, numerator), t, 1e-9 * (1 + 1 / f), 1e-12);
}

void LawChains(Case& c) {
  const double v = Value(c);
  c.NonTrivial(v != 0);
  c.Note(Cat("value ", v));
  typedef LengthConversionType L;
  auto l = [](double x, L k) { return ConvertLength(x, k); };
  CheckNear(c, "in->ft->m->mm = 25.4", l(l(l(v, L::kInchesToFeet), L::kFeetToMeters), L::kMetersToMillimeters),
            v * 25.4, 0, 1e-12);
  CheckNear(c, "mi->ft->m->km = 1.609344",
            l(l(l(v, L::kMilesToFeet), L::kFeetToMeters), L::kMetersToKilometers), v * 1.609344, 0, 1e-12);
  CheckNear(c, "km->m->cm", l(l(v, L::kKilometersToMeters), L::kMetersToCentimeters), v * 1e5, 0, 1e-12);
  // stress = force / length^2, converted piecewise and at once
  const double psi = ConvertForce(ConvertLength(ConvertLength(v, L::kInchesToFeet, 2, false), L::kFeetToMeters, 2, false),
                                  ForceConversionType::kPoundsToNewtons);
  const double psi2 = ConvertStress(ConvertStress(v, StressConversionType::kPsiToPsf), StressConversionType::kPsfToPascal);
  CheckNear(c, "psi->Pa by parts and at once", psi, psi2, 0, 2e-7);
  // gravity constants describe the same acceleration
  CheckNear(c, "gravity", ConvertLength(kGravityImperial, L::kFeetToMeters), kGravityMetric, 0, 1e-3);
  // unknown conversions are refused
  Check(c, ConvertAngle(v, AngleConversionType::kNull) == -999999, "null angle conversion");
  Check(c, ConvertForce(v, ForceConversionType::kNull) == -999999, "null force conversion");
  Check(c, ConvertLength(v, L::kNull) == -999999, "null length conversion");
  Check(c, ConvertStress(v, StressConversionType::kNull) == -999999, "null stress conversion");
  Check(c, ConvertTemperature(v, TemperatureConversionType::kNull) == -999999, "null temperature conversion");
}
}  // namespace

Property vp::MakeProperty() {
  return {"P02",
          {"values 0 or 1e-9 .. 1e9 in magnitude, exponents -4 .. 4",
           "pascal/psf uses 47.88026, accepted within 2e-7 of the exact definition"},
          {{"scaling", "the value is not zero", 400000, 8000000, LawScale},
           {"temperature", "the temperature is not zero", 300000, 6000000, LawTemperature},
           {"chains", "the value is not zero", 300000, 6000000, LawChains}},
          {}};
}
