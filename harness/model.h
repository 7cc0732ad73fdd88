// Shared generators and reference geometry for the property files.
#ifndef VERIF_MODEL_H_
#define VERIF_MODEL_H_

#include "engine.h"

namespace model {
const double kPi = 3.14159265358979323846264338327950288;
inline double Rad(double deg) { return deg * kPi / 180.0; }
inline double Deg(double rad) { return rad * 180.0 / kPi; }
// smallest signed difference between two angles in degrees
inline double AngleDiff(double a, double b) {
  double d = std::fmod(a - b, 360.0);
  if (d > 180) d -= 360;
  if (d < -180) d += 360;
  return d;
}

// Reference catenary in a vertical plane, written from the definition
// y = c (cosh(x/c) - 1) in extended precision.  Left support at (xl, yl),
// right support a to the right and b higher.
struct Curve {
  typedef long double R;
  R H, w, a, b, c, m, xl, xr, len;
  Curve(double H_, double w_, double a_, double b_) : H(H_), w(w_), a(a_), b(b_) {
    c = H / w;
    // c cosh(xr/c) - c cosh(xl/c) = 2 c sinh(m/c) sinh(a/2c), m = midpoint
    m = c * asinhl(b / (2 * c * sinhl(a / (2 * c))));
    xl = m - a / 2;
    xr = m + a / 2;
    len = 2 * c * coshl(m / c) * sinhl(a / (2 * c));
  }
  R X(R fraction) const { return c * asinhl(sinhl(xl / c) + fraction * len / c); }
  R Fraction(R x) const { return c * (sinhl(x / c) - sinhl(xl / c)) / len; }
  // height above the low point of the (extended) curve
  R Y(R x) const { R s = sinhl(x / (2 * c)); return 2 * c * s * s; }
  R Chord(R x) const { return Y(xl) + (x - xl) * b / a; }
  R Slope(R x) const { return sinhl(x / c); }
  R Tension(R x) const { return H * coshl(x / c); }
  R XOfSlope(R s) const { return c * asinhl(s); }
  R XSag() const { return XOfSlope(b / a); }
  R Sag(R x) const { return Chord(x) - Y(x); }
  R TensionMean() const {  // integral of T ds / len
    auto g = [&](R x) { return H * (x / 2 + c / 4 * sinhl(2 * x / c)); };
    return (g(xr) - g(xl)) / len;
  }
  R TensionSampled(int n = 100) const {  // mean of evenly spaced points
    R s = 0;
    for (int i = 0; i <= n; i++) {
      R u = sinhl(xl / c) + len / c * i / n;
      s += H * sqrtl(1 + u * u);
    }
    return s / (n + 1);
  }
  // size of rounding errors in coordinates computed in double precision
  double Scale() const {
    R u = fmaxl(fabsl(xl), fabsl(xr)) / c;
    return static_cast<double>(c * coshl(u));
  }
};

}  // namespace model

#endif  // VERIF_MODEL_H_
