// Published distortion formulas, their Jacobians, random parameters, and the
// disc in which each model is safely invertible.
#ifndef VF_DISTORTION_REF_H_
#define VF_DISTORTION_REF_H_
#include <memory>
#include <Eigen/Dense>
#include <aslam/cameras/distortion.h>
#include <aslam/cameras/distortion-equidistant.h>
#include <aslam/cameras/distortion-fisheye.h>
#include <aslam/cameras/distortion-null.h>
#include <aslam/cameras/distortion-radtan.h>

using vf::Rng;
using namespace aslam;
typedef Eigen::Vector2d V2;
typedef Eigen::VectorXd VX;
typedef Eigen::Matrix<double, 2, Eigen::Dynamic> M2X;
typedef long double ld;

namespace {
enum Model { kEqui, kFish, kRad, kNull };
const char* kName[] = {"equidistant", "fisheye", "radtan", "null"};

std::unique_ptr<Distortion> make(int m, const VX& k) {
  switch (m) {
    case kEqui: return std::unique_ptr<Distortion>(new EquidistantDistortion(k));
    case kFish: return std::unique_ptr<Distortion>(new FisheyeDistortion(k));
    case kRad: return std::unique_ptr<Distortion>(new RadTanDistortion(k));
    default: return std::unique_ptr<Distortion>(new NullDistortion());
  }
}
int paramCount(int m) { return m == kFish ? 1 : m == kNull ? 0 : 4; }

// The published formulas.
void formula(int m, const VX& k, ld x, ld y, ld* ox, ld* oy) {
  const ld r2 = x * x + y * y, r = std::sqrt(r2);
  ld s = 1, dx = 0, dy = 0;
  if (m == kEqui) {
    const ld t = std::atan(r), t2 = t * t;
    const ld td = t * (1 + k[0] * t2 + k[1] * t2 * t2 + k[2] * t2 * t2 * t2 + k[3] * t2 * t2 * t2 * t2);
    if (r > 0) s = td / r;
  } else if (m == kFish) {
    const ld w = k[0];
    if (w != 0) s = r > 0 ? std::atan(2 * r * std::tan(w / 2)) / (r * w) : 2 * std::tan(w / 2) / w;
  } else if (m == kRad) {
    s = 1 + k[0] * r2 + k[1] * r2 * r2;
    dx = 2 * k[2] * x * y + k[3] * (r2 + 2 * x * x);
    dy = 2 * k[3] * x * y + k[2] * (r2 + 2 * y * y);
  }
  *ox = x * s + dx;
  *oy = y * s + dy;
}
// Jacobian of the formula with respect to the point and the parameters.
void formulaJac(int m, const VX& k, ld x, ld y, Eigen::Matrix2d* J, M2X* P) {
  ld a, b, c, d;
  const ld h = 1e-6L;  // truncation about 1e-12, rounding about 1e-13
  formula(m, k, x + h, y, &a, &b); formula(m, k, x - h, y, &c, &d);
  (*J)(0, 0) = static_cast<double>((a - c) / (2 * h)); (*J)(1, 0) = static_cast<double>((b - d) / (2 * h));
  formula(m, k, x, y + h, &a, &b); formula(m, k, x, y - h, &c, &d);
  (*J)(0, 1) = static_cast<double>((a - c) / (2 * h)); (*J)(1, 1) = static_cast<double>((b - d) / (2 * h));
  P->resize(2, k.size());
  for (int i = 0; i < k.size(); ++i) {
    VX kp = k, km = k;
    kp[i] += 1e-5; km[i] -= 1e-5;
    formula(m, kp, x, y, &a, &b); formula(m, km, x, y, &c, &d);
    const ld hh = static_cast<ld>(kp[i]) - static_cast<ld>(km[i]);
    (*P)(0, i) = static_cast<double>((a - c) / hh); (*P)(1, i) = static_cast<double>((b - d) / hh);
  }
}

VX someParams(Rng& r, int m) {
  VX k(paramCount(m));
  if (m == kFish) {
    static const double edge[] = {0, 0.5, 1.5, 1.1, 0.92, 1e-17};
    k[0] = r.chance(0.2) ? edge[r.below(6)] : r.uni(0.5, 1.5);
  } else if (m == kRad) {
    switch (r.below(5)) {
      case 0: k << -0.28, 0.08, -0.00026, -0.00024; break;
      case 1: k << r.uni(-0.4, 0.4), r.uni(-0.15, 0.15), r.uni(-0.01, 0.01), r.uni(-0.01, 0.01); break;
      case 2: k << r.uni(-0.4, 0), r.uni(0, 0.2), r.uni(-0.002, 0.002), r.uni(-0.002, 0.002); break;
      case 3: k << 0, 0, r.uni(-0.05, 0.05), r.uni(-0.05, 0.05); break;
      default: k.setZero(); if (r.chance(0.7)) k[static_cast<int>(r.below(4))] = r.uni(-0.05, 0.05); break;
    }
  } else if (m == kEqui) {
    switch (r.below(5)) {
      case 0: k << 0.2, 0.01, 0.3, 0.05; break;
      case 1: k << r.uni(-0.1, 0.1), r.uni(-0.05, 0.05), r.uni(-0.02, 0.02), r.uni(-0.01, 0.01); break;
      case 2: k << r.uni(-0.03, 0.3), r.uni(-0.03, 0.1), r.uni(0, 0.3), r.uni(0, 0.05); break;
      case 3: k << r.uni(-0.02, 0.02), r.uni(-0.02, 0.02), r.uni(-0.02, 0.02), r.uni(-0.02, 0.02); break;
      default: k.setZero(); if (r.chance(0.7)) k[static_cast<int>(r.below(4))] = r.uni(-0.05, 0.05); break;
    }
  }
  return k;
}
double smallestSingular(const Eigen::Matrix2d& J) { return Eigen::JacobiSVD<Eigen::Matrix2d>(J).singularValues()[1]; }

// Radius of the disc around the centre in which the model is safely invertible.
double workingRadius(int m, const VX& k) {
  if (m == kNull) return 50;
  if (m == kFish) {
    // Distorted radius times w stays under the largest angle (89 degrees).
    if (std::abs(k[0]) < 1e-16) return 20;
    return std::min(15.0, 0.999 * std::tan(89.0 * M_PI / 180) / (2 * std::tan(k[0] / 2)));
  }
  if (m == kEqui) {
    double tmax = 0;
    for (double t = 0.01; t <= 1.4; t += 0.01) {
      const double t2 = t * t, d = 1 + 3 * k[0] * t2 + 5 * k[1] * t2 * t2 + 7 * k[2] * t2 * t2 * t2 + 9 * k[3] * t2 * t2 * t2 * t2;
      if (d < 0.6) break;
      tmax = t;
    }
    return std::tan(tmax);
  }
  double rmax = 0;
  for (double q = 0.05; q <= 1.6; q += 0.05) {
    bool ok = true;
    for (int a = 0; a < 12 && ok; ++a) {
      Eigen::Matrix2d J; M2X P;
      formulaJac(m, k, q * std::cos(a * M_PI / 6), q * std::sin(a * M_PI / 6), &J, &P);
      if (smallestSingular(J) < 0.5 || J.determinant() <= 0) ok = false;
    }
    if (!ok) break;
    rmax = q;
  }
  return rmax;
}
V2 somePoint(Rng& r, double rmax) {
  if (r.chance(0.15)) {
    static const double tiny[] = {0, 1e-320, 1e-200, 1e-160, 1e-20, 1e-12, 0.99e-10, 1.01e-10, 1e-9, 0.99e-8, 1.01e-8, 1e-6, 1e-5, 1e-4, 0.9e-3, 1.1e-3, 0.00315, 0.00317, 0.01};
    const double q = tiny[r.below(19)];
    const int s = static_cast<int>(r.below(6));
    if (s == 0) return V2(q, 0);
    if (s == 1) return V2(0, -q);
    const double a = r.uni(0, 2 * M_PI);
    return V2(q * std::cos(a), q * std::sin(a));
  }
  const double a = r.chance(0.2) ? static_cast<double>(r.below(8)) * M_PI / 4 : r.uni(0, 2 * M_PI);
  const double q = rmax * (r.chance(0.2) ? r.uni(0.95, 1.0) : std::sqrt(r.uni()));
  return V2(q * std::cos(a), q * std::sin(a));
}
std::string show(const VX& k) { std::string s; for (int i = 0; i < k.size(); ++i) s += vf::fmt("%s%.17g", i ? "," : "", k[i]); return s; }
uint64_t hashCase(int m, const VX& k, const V2& p) {
  return vf::hashBytes(p.data(), 16, vf::hashBytes(k.data(), k.size() * 8, static_cast<uint64_t>(m) + 77));
}
}  // namespace
#endif
