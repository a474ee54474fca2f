// Stand-in for the Sophus library (not installed here): the textbook SO(2)/SO(3)/SE(2)/SE(3)
// groups with the subset of the Sophus interface that ecl_core uses. Tangents are ordered
// (translation, rotation) as in Sophus.
#ifndef VERIF_SOPHUS_SHIM_HPP_
#define VERIF_SOPHUS_SHIM_HPP_
#include <cmath>
#include <Eigen/Core>
#include <Eigen/Geometry>
namespace Sophus {
template <typename T> class SO2 {
public:
  typedef T Scalar; typedef T Tangent;
  SO2() : c(1), s(0) {}
  explicit SO2(T theta) : c(std::cos(theta)), s(std::sin(theta)) {}
  SO2(T c, T s) : c(c), s(s) { T n = std::sqrt(c*c+s*s); this->c /= n; this->s /= n; }
  static SO2 exp(T theta) { return SO2(theta); }
  T log() const { return std::atan2(s, c); }
  SO2 inverse() const { return SO2(c, -s); }
  SO2 operator*(const SO2& o) const { return SO2(c*o.c - s*o.s, c*o.s + s*o.c); }
  Eigen::Matrix<T,2,1> operator*(const Eigen::Matrix<T,2,1>& p) const { return matrix()*p; }
  Eigen::Matrix<T,2,2> matrix() const { Eigen::Matrix<T,2,2> R; R << c, -s, s, c; return R; }
private:
  T c, s;
};
template <typename T> class SO3 {
public:
  typedef T Scalar; typedef Eigen::Matrix<T,3,1> Tangent;
  SO3() : q(Eigen::Quaternion<T>::Identity()) {}
  SO3(const Eigen::Quaternion<T>& q_) : q(q_) { q.normalize(); }
  SO3(const Eigen::Matrix<T,3,3>& R) : q(R) { q.normalize(); }
  static SO3 exp(const Tangent& w) {
    T a = w.norm();
    if (a < T(1e-10)) return SO3();
    return SO3(Eigen::Quaternion<T>(Eigen::AngleAxis<T>(a, w/a)));
  }
  Tangent log() const {
    T n = q.vec().norm();
    if (n < T(1e-10)) return T(2)/q.w()*q.vec();
    T a = q.w() < T(0) ? T(2)*std::atan2(-n, -q.w()) : T(2)*std::atan2(n, q.w());
    return a/n*q.vec();
  }
  SO3 inverse() const { return SO3(q.conjugate()); }
  SO3 operator*(const SO3& o) const { return SO3(q*o.q); }
  Eigen::Matrix<T,3,1> operator*(const Eigen::Matrix<T,3,1>& p) const { return q*p; }
  Eigen::Matrix<T,3,3> matrix() const { return q.toRotationMatrix(); }
  const Eigen::Quaternion<T>& unit_quaternion() const { return q; }
  static Eigen::Matrix<T,3,3> hat(const Tangent& w) {
    Eigen::Matrix<T,3,3> m; m << 0,-w(2),w(1), w(2),0,-w(0), -w(1),w(0),0; return m;
  }
private:
  Eigen::Quaternion<T> q;
};
template <typename T> class SE2 {
public:
  typedef T Scalar; typedef Eigen::Matrix<T,3,1> Tangent; typedef Eigen::Matrix<T,2,1> Point;
  SE2() : t(Point::Zero()) {}
  SE2(const SO2<T>& r_, const Point& t_) : r(r_), t(t_) {}
  SE2(T theta, const Point& t_) : r(theta), t(t_) {}
  static Eigen::Matrix<T,2,2> V(T th) {
    T a, b;
    if (std::abs(th) < T(1e-4)) { a = T(1) - th*th/T(6); b = th/T(2); } else { a = std::sin(th)/th; b = (T(1)-std::cos(th))/th; }
    Eigen::Matrix<T,2,2> m; m << a, -b, b, a; return m;
  }
  static SE2 exp(const Tangent& x) { return SE2(SO2<T>(x(2)), V(x(2))*x.template head<2>()); }
  Tangent log() const { T th = r.log(); Tangent x; x.template head<2>() = V(th).inverse()*t; x(2) = th; return x; }
  SE2 inverse() const { return SE2(r.inverse(), -(r.inverse()*t)); }
  SE2 operator*(const SE2& o) const { return SE2(r*o.r, t + r*o.t); }
  Point operator*(const Point& p) const { return r*p + t; }
  const SO2<T>& so2() const { return r; }
  const Point& translation() const { return t; }
  Point& translation() { return t; }
  Eigen::Matrix<T,2,2> rotationMatrix() const { return r.matrix(); }
private:
  SO2<T> r; Point t;
};
template <typename T> class SE3 {
public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  typedef T Scalar; typedef Eigen::Matrix<T,6,1> Tangent; typedef Eigen::Matrix<T,3,1> Point;
  SE3() : t(Point::Zero()) {}
  SE3(const SO3<T>& r_, const Point& t_) : r(r_), t(t_) {}
  SE3(const Eigen::Quaternion<T>& q, const Point& t_) : r(q), t(t_) {}
  SE3(const Eigen::Matrix<T,3,3>& R, const Point& t_) : r(R), t(t_) {}
  static Eigen::Matrix<T,3,3> V(const Point& w) {
    T th = w.norm(); Eigen::Matrix<T,3,3> W = SO3<T>::hat(w), I = Eigen::Matrix<T,3,3>::Identity();
    if (th < T(1e-4)) return I + W/T(2);
    return I + (T(1)-std::cos(th))/(th*th)*W + (th-std::sin(th))/(th*th*th)*W*W;
  }
  static SE3 exp(const Tangent& x) { Point w = x.template tail<3>(); return SE3(SO3<T>::exp(w), V(w)*x.template head<3>()); }
  Tangent log() const { Point w = r.log(); Tangent x; x.template head<3>() = V(w).inverse()*t; x.template tail<3>() = w; return x; }
  SE3 inverse() const { return SE3(r.inverse(), Point(-(r.inverse()*t))); }
  SE3 operator*(const SE3& o) const { return SE3(r*o.r, Point(t + r*o.t)); }
  Point operator*(const Point& p) const { return r*p + t; }
  const SO3<T>& so3() const { return r; }
  const Eigen::Quaternion<T>& unit_quaternion() const { return r.unit_quaternion(); }
  const Point& translation() const { return t; }
  Point& translation() { return t; }
  Eigen::Matrix<T,3,3> rotationMatrix() const { return r.matrix(); }
  Eigen::Matrix<T,4,4> matrix() const { Eigen::Matrix<T,4,4> m = Eigen::Matrix<T,4,4>::Identity(); m.template topLeftCorner<3,3>() = r.matrix(); m.template topRightCorner<3,1>() = t; return m; }
private:
  SO3<T> r; Point t;
};
typedef SO2<float> SO2f; typedef SO2<double> SO2d;
typedef SO3<float> SO3f; typedef SO3<double> SO3d;
typedef SE2<float> SE2f; typedef SE2<double> SE2d;
typedef SE3<float> SE3f; typedef SE3<double> SE3d;
}
#endif
