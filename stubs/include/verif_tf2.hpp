// Stand-in for tf2, tf2_ros, tf2_eigen and tf2_geometry_msgs.
#ifndef VERIF_TF2
#define VERIF_TF2
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <chrono>
#include <cmath>
#include <memory>
#include <stdexcept>
#include <string>
#include <geometry_msgs/msg/pose.hpp>
#include <geometry_msgs/msg/pose_stamped.hpp>
#include <geometry_msgs/msg/pose_with_covariance_stamped.hpp>
#include <geometry_msgs/msg/quaternion.hpp>
#include <geometry_msgs/msg/transform_stamped.hpp>
#include <rclcpp/rclcpp.hpp>

namespace tf2
{
using Duration = std::chrono::nanoseconds;
using TimePoint = std::chrono::time_point<std::chrono::system_clock, Duration>;
static const TimePoint TimePointZero = TimePoint(Duration::zero());
inline Duration durationFromSec(double s) { return Duration(static_cast<int64_t>(s * 1e9)); }
inline double durationToSec(const Duration & d) { return d.count() * 1e-9; }
inline TimePoint timeFromSec(double s) { return TimePoint(Duration(static_cast<int64_t>(s * 1e9))); }

struct TransformException : public std::runtime_error { using std::runtime_error::runtime_error; };
struct LookupException : public TransformException { using TransformException::TransformException; };
struct ConnectivityException : public TransformException { using TransformException::TransformException; };
struct ExtrapolationException : public TransformException { using TransformException::TransformException; };
struct TimeoutException : public TransformException { using TransformException::TransformException; };

class Quaternion
{
public:
  Quaternion() : x_(0), y_(0), z_(0), w_(1) {}
  Quaternion(double x, double y, double z, double w) : x_(x), y_(y), z_(z), w_(w) {}
  double x() const { return x_; }
  double y() const { return y_; }
  double z() const { return z_; }
  double w() const { return w_; }
  double getX() const { return x_; }
  double getY() const { return y_; }
  double getZ() const { return z_; }
  double getW() const { return w_; }
  void setRPY(double r, double p, double y)
  {
    Eigen::Quaterniond q = Eigen::AngleAxisd(y, Eigen::Vector3d::UnitZ()) *
      Eigen::AngleAxisd(p, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(r, Eigen::Vector3d::UnitX());
    x_ = q.x(); y_ = q.y(); z_ = q.z(); w_ = q.w();
  }
  double length2() const { return x_ * x_ + y_ * y_ + z_ * z_ + w_ * w_; }
  Quaternion & normalize() { const double l = std::sqrt(length2()); x_ /= l; y_ /= l; z_ /= l; w_ /= l; return *this; }
  Quaternion inverse() const { return Quaternion(-x_, -y_, -z_, w_); }
  Quaternion operator*(const Quaternion & o) const
  {
    Eigen::Quaterniond q = Eigen::Quaterniond(w_, x_, y_, z_) * Eigen::Quaterniond(o.w_, o.x_, o.y_, o.z_);
    return Quaternion(q.x(), q.y(), q.z(), q.w());
  }
private:
  double x_, y_, z_, w_;
};

namespace impl
{
inline double yaw(double x, double y, double z, double w)
{
  const double sqw = w * w, sqx = x * x, sqy = y * y, sqz = z * z;
  const double sarg = -2 * (x * z - w * y) / (sqx + sqy + sqz + sqw);
  if (sarg <= -0.99999) return -2 * std::atan2(y, x);
  if (sarg >= 0.99999) return 2 * std::atan2(y, x);
  return std::atan2(2 * (x * y + w * z), sqw + sqx - sqy - sqz);
}
}
inline double getYaw(const geometry_msgs::msg::Quaternion & q) { return impl::yaw(q.x, q.y, q.z, q.w); }
inline double getYaw(const Quaternion & q) { return impl::yaw(q.x(), q.y(), q.z(), q.w()); }
inline geometry_msgs::msg::Quaternion toMsg(const Quaternion & q)
{
  geometry_msgs::msg::Quaternion m;
  m.x = q.x(); m.y = q.y(); m.z = q.z(); m.w = q.w();
  return m;
}
class Matrix3x3
{
public:
  explicit Matrix3x3(const Quaternion & q) : m_(Eigen::Quaterniond(q.w(), q.x(), q.y(), q.z()).normalized()) {}
  void getRPY(double & r, double & p, double & y) const
  {
    r = std::atan2(m_(2, 1), m_(2, 2));
    p = -std::asin(std::max(-1.0, std::min(1.0, m_(2, 0))));
    y = std::atan2(m_(1, 0), m_(0, 0));
  }
private:
  Eigen::Matrix3d m_;
};
inline void convert(const geometry_msgs::msg::Quaternion & m, Quaternion & q) { q = Quaternion(m.x, m.y, m.z, m.w); }
inline void convert(const Quaternion & q, geometry_msgs::msg::Quaternion & m) { m = toMsg(q); }
inline void fromMsg(const geometry_msgs::msg::Quaternion & m, Quaternion & q) { q = Quaternion(m.x, m.y, m.z, m.w); }

inline Eigen::Isometry3d transformToEigen(const geometry_msgs::msg::Transform & t)
{
  return Eigen::Isometry3d(Eigen::Translation3d(t.translation.x, t.translation.y, t.translation.z) *
         Eigen::Quaterniond(t.rotation.w, t.rotation.x, t.rotation.y, t.rotation.z));
}
inline Eigen::Isometry3d transformToEigen(const geometry_msgs::msg::TransformStamped & t) { return transformToEigen(t.transform); }
inline geometry_msgs::msg::TransformStamped eigenToTransform(const Eigen::Isometry3d & T)
{
  geometry_msgs::msg::TransformStamped t;
  t.transform.translation.x = T.translation().x();
  t.transform.translation.y = T.translation().y();
  t.transform.translation.z = T.translation().z();
  Eigen::Quaterniond q(T.linear());
  t.transform.rotation.x = q.x();
  t.transform.rotation.y = q.y();
  t.transform.rotation.z = q.z();
  t.transform.rotation.w = q.w();
  return t;
}
inline geometry_msgs::msg::TransformStamped eigenToTransform(const Eigen::Affine3d & T)
{
  return eigenToTransform(Eigen::Isometry3d(T.matrix()));
}
inline geometry_msgs::msg::Pose toMsg(const Eigen::Isometry3d & T)
{
  auto t = eigenToTransform(T);
  geometry_msgs::msg::Pose p;
  p.position.x = t.transform.translation.x;
  p.position.y = t.transform.translation.y;
  p.position.z = t.transform.translation.z;
  p.orientation = t.transform.rotation;
  return p;
}
inline void fromMsg(const geometry_msgs::msg::Pose & p, Eigen::Isometry3d & T)
{
  T = Eigen::Isometry3d(Eigen::Translation3d(p.position.x, p.position.y, p.position.z) *
      Eigen::Quaterniond(p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z));
}
inline void doTransform(const geometry_msgs::msg::PoseStamped & in, geometry_msgs::msg::PoseStamped & out,
                        const geometry_msgs::msg::TransformStamped & t)
{
  Eigen::Isometry3d p;
  fromMsg(in.pose, p);
  auto stamp = t.header.stamp;
  auto frame = t.header.frame_id;
  out.pose = toMsg(Eigen::Isometry3d(transformToEigen(t) * p));
  out.header.stamp = stamp;
  out.header.frame_id = frame;
}
}  // namespace tf2

namespace tf2_ros
{
class Buffer
{
public:
  explicit Buffer(rclcpp::Clock::SharedPtr, tf2::Duration = tf2::Duration(0)) {}
  geometry_msgs::msg::TransformStamped lookupTransform(const std::string & target, const std::string & source,
    const tf2::TimePoint & t, const tf2::Duration w = tf2::Duration(0)) const
  {
    int64_t ns = t.time_since_epoch().count();
    return get(target, source, ns == 0 ? -1 : ns, std::chrono::duration<double>(w).count());
  }
  geometry_msgs::msg::TransformStamped lookupTransform(const std::string & target, const std::string & source,
    const rclcpp::Time & t, const rclcpp::Duration & w = rclcpp::Duration(0, 0u)) const
  {
    return get(target, source, t.nanoseconds() == 0 ? -1 : t.nanoseconds(), w.seconds());
  }
  bool canTransform(const std::string & target, const std::string & source, const tf2::TimePoint & t,
    const tf2::Duration w = tf2::Duration(0), std::string * = nullptr) const
  {
    verif::TfAnswer a;
    verif::world().tf_wait = std::chrono::duration<double>(w).count();
    int64_t ns = t.time_since_epoch().count();
    return verif::w_tf(target, source, ns == 0 ? -1 : ns, a);
  }
  template <class T>
  T & transform(const T & in, T & out, const std::string & target, tf2::Duration w = tf2::Duration(0)) const
  {
    rclcpp::Time t(in.header.stamp);
    auto tf = get(target, in.header.frame_id, t.nanoseconds() == 0 ? -1 : t.nanoseconds(), std::chrono::duration<double>(w).count());
    T copy = in;
    tf2::doTransform(copy, out, tf);
    return out;
  }
  template <class T>
  T transform(const T & in, const std::string & target, tf2::Duration d = tf2::Duration(0)) const
  {
    T out;
    return transform(in, out, target, d);
  }

private:
  geometry_msgs::msg::TransformStamped get(const std::string & target, const std::string & source, int64_t ns, double wait) const
  {
    verif::TfAnswer a;
    verif::world().tf_wait = wait;
    if (!verif::w_tf(target, source, ns, a)) {
      const std::string why = "no transform " + source + " -> " + target;
      switch (verif::w_tf_error()) {
        case 1: throw tf2::ConnectivityException(why);
        case 2: throw tf2::ExtrapolationException(why);
        case 3: throw tf2::TimeoutException(why);
        default: throw tf2::LookupException(why);
      }
    }
    geometry_msgs::msg::TransformStamped t;
    t.header.stamp = rclcpp::Time(ns < 0 ? 0 : ns);
    t.header.frame_id = target;
    t.child_frame_id = source;
    t.transform.translation.x = a.x;
    t.transform.translation.y = a.y;
    t.transform.translation.z = a.z;
    t.transform.rotation.x = a.qx;
    t.transform.rotation.y = a.qy;
    t.transform.rotation.z = a.qz;
    t.transform.rotation.w = a.qw;
    return t;
  }
};
class TransformListener
{
public:
  explicit TransformListener(Buffer &, bool = true) {}
  template <class N> TransformListener(Buffer &, N, bool = true) {}
};
class TransformBroadcaster
{
public:
  template <class N> explicit TransformBroadcaster(N &&) {}
  void sendTransform(const geometry_msgs::msg::TransformStamped & t)
  {
    verif::w_publish("/tf", std::make_shared<geometry_msgs::msg::TransformStamped>(t));
  }
  void sendTransform(const std::vector<geometry_msgs::msg::TransformStamped> & v) { for (auto & t : v) sendTransform(t); }
};
}  // namespace tf2_ros
#endif
