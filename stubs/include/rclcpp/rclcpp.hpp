// Stand-in for rclcpp (single process, no middleware).
#ifndef VERIF_RCLCPP
#define VERIF_RCLCPP
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>
#include <builtin_interfaces/msg/duration.hpp>
#include <builtin_interfaces/msg/time.hpp>
#include <verif_world.hpp>

typedef struct rcutils_uint8_array_s
{
  uint8_t * buffer = nullptr;
  size_t buffer_length = 0;
  size_t buffer_capacity = 0;
  std::shared_ptr<std::vector<uint8_t>> verif_bytes;
} rcutils_uint8_array_t;
typedef rcutils_uint8_array_t rcl_serialized_message_t;
enum rcl_clock_type_t { RCL_CLOCK_UNINITIALIZED = 0, RCL_ROS_TIME, RCL_SYSTEM_TIME, RCL_STEADY_TIME };

namespace rclcpp
{
inline bool ok() { return ::verif::w_ok(); }
inline void init(int, char **) {}
inline bool shutdown() { ::verif::w_set_ok(false); return true; }

class Duration
{
public:
  Duration(int32_t s, uint32_t ns) : ns_(static_cast<int64_t>(s) * 1000000000LL + ns) {}
  Duration(std::chrono::nanoseconds d) : ns_(d.count()) {}
  Duration(const builtin_interfaces::msg::Duration & m) : ns_(m.sec * 1000000000LL + m.nanosec) {}
  static Duration from_seconds(double s)
  {
    Duration d(0, 0u);
    d.ns_ = static_cast<int64_t>(static_cast<long double>(s) * 1000000000.0L);
    return d;
  }
  static Duration from_nanoseconds(int64_t n) { Duration d(0, 0u); d.ns_ = n; return d; }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return ns_ * 1e-9; }
  Duration operator+(const Duration & o) const { return from_nanoseconds(ns_ + o.ns_); }
  Duration operator-(const Duration & o) const { return from_nanoseconds(ns_ - o.ns_); }
  Duration operator*(double s) const { return from_nanoseconds(static_cast<int64_t>(ns_ * s)); }
  bool operator<(const Duration & o) const { return ns_ < o.ns_; }
  bool operator>(const Duration & o) const { return ns_ > o.ns_; }
  bool operator<=(const Duration & o) const { return ns_ <= o.ns_; }
  bool operator>=(const Duration & o) const { return ns_ >= o.ns_; }
  bool operator==(const Duration & o) const { return ns_ == o.ns_; }
  bool operator!=(const Duration & o) const { return ns_ != o.ns_; }
  operator builtin_interfaces::msg::Duration() const
  {
    builtin_interfaces::msg::Duration d;
    d.sec = static_cast<int32_t>(ns_ / 1000000000LL);
    d.nanosec = static_cast<uint32_t>(ns_ % 1000000000LL);
    return d;
  }
  template <class D = std::chrono::nanoseconds> D to_chrono() const { return std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns_)); }
private:
  int64_t ns_;
};

class Time
{
public:
  explicit Time(int64_t ns = 0, rcl_clock_type_t = RCL_SYSTEM_TIME) : ns_(ns) {}
  Time(int32_t s, uint32_t ns, rcl_clock_type_t = RCL_SYSTEM_TIME) : ns_(s * 1000000000LL + ns) {}
  Time(const builtin_interfaces::msg::Time & m, rcl_clock_type_t = RCL_ROS_TIME)
  : ns_(m.sec * 1000000000LL + m.nanosec) {}
  operator builtin_interfaces::msg::Time() const
  {
    builtin_interfaces::msg::Time t;
    t.sec = static_cast<int32_t>(ns_ / 1000000000LL);
    t.nanosec = static_cast<uint32_t>(ns_ % 1000000000LL);
    return t;
  }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return ns_ * 1e-9; }
  Time operator+(const Duration & d) const { return Time(ns_ + d.nanoseconds()); }
  Time operator-(const Duration & d) const { return Time(ns_ - d.nanoseconds()); }
  Time & operator+=(const Duration & d) { ns_ += d.nanoseconds(); return *this; }
  Duration operator-(const Time & o) const { return Duration::from_nanoseconds(ns_ - o.ns_); }
  bool operator<(const Time & o) const { return ns_ < o.ns_; }
  bool operator>(const Time & o) const { return ns_ > o.ns_; }
  bool operator<=(const Time & o) const { return ns_ <= o.ns_; }
  bool operator>=(const Time & o) const { return ns_ >= o.ns_; }
  bool operator==(const Time & o) const { return ns_ == o.ns_; }
  bool operator!=(const Time & o) const { return ns_ != o.ns_; }
private:
  int64_t ns_;
};

class Clock
{
public:
  using SharedPtr = std::shared_ptr<Clock>;
  Time now() { return Time(::verif::w_now()); }
  bool sleep_for(const Duration & d) { std::this_thread::sleep_for(std::chrono::nanoseconds(d.nanoseconds())); return ok(); }
};
inline bool sleep_for(const std::chrono::nanoseconds & d) { std::this_thread::sleep_for(d); return ok(); }
// The rest of the period is not tracked: whoever asks sleeps
class WallRate
{
public:
  explicit WallRate(double hz) : d_(std::chrono::nanoseconds(static_cast<int64_t>(1e9 / hz))) {}
  explicit WallRate(std::chrono::nanoseconds d) : d_(d) {}
  bool sleep() { std::this_thread::sleep_for(d_); return true; }
  void reset() {}
private:
  std::chrono::nanoseconds d_;
};
using Rate = WallRate;

class Parameter
{
public:
  Parameter() = default;
  Parameter(const std::string & n, ::verif::Param v) : name_(n), v_(std::move(v)) {}
  const std::string & get_name() const { return name_; }
  bool as_bool() const { return std::get<bool>(v_); }
  int64_t as_int() const { return std::get<int64_t>(v_); }
  double as_double() const { return std::get<double>(v_); }
  std::string as_string() const { return std::get<std::string>(v_); }
  template <class T> T get_value() const
  {
    if constexpr (std::is_same_v<T, bool>) return as_bool();
    else if constexpr (std::is_integral_v<T>) return static_cast<T>(as_int());
    else if constexpr (std::is_floating_point_v<T>) return static_cast<T>(as_double());
    else return as_string();
  }
private:
  std::string name_;
  ::verif::Param v_;
};

class Logger
{
public:
  explicit Logger(const std::string & n = "") : name_(n) {}
  const char * get_name() const { return name_.c_str(); }
  Logger get_child(const std::string & s) const { return Logger(name_ + "." + s); }
private:
  std::string name_;
};
inline Logger get_logger(const std::string & n) { return Logger(n); }

__attribute__((format(printf, 2, 3)))
inline void verif_log(const char * level, const char * fmt, ...)
{
  char buf[1024];
  va_list a;
  va_start(a, fmt);
  vsnprintf(buf, sizeof(buf), fmt, a);
  va_end(a);
  ::verif::w_log(level, buf);
}

struct KeepLast { explicit KeepLast(size_t d) : depth(d) {} size_t depth; };
struct KeepAll {};
enum class ReliabilityPolicy { BestEffort, Reliable, SystemDefault, Unknown };
enum class DurabilityPolicy { Volatile, TransientLocal, SystemDefault, Unknown };
enum class HistoryPolicy { KeepLast, KeepAll, SystemDefault, Unknown };
class QoS
{
public:
  QoS(size_t) {}
  QoS(KeepLast) {}
  QoS(KeepAll) {}
  QoS & transient_local() { return durability(DurabilityPolicy::TransientLocal); }
  QoS & durability_volatile() { return durability(DurabilityPolicy::Volatile); }
  QoS & reliable() { return reliability(ReliabilityPolicy::Reliable); }
  QoS & best_effort() { return reliability(ReliabilityPolicy::BestEffort); }
  QoS & keep_last(size_t) { return *this; }
  QoS & keep_all() { return *this; }
  QoS & history(HistoryPolicy) { return *this; }
  QoS & durability(DurabilityPolicy p) { durability_ = p; return *this; }
  QoS & reliability(ReliabilityPolicy p) { reliability_ = p; return *this; }
  DurabilityPolicy durability() const { return durability_; }
  ReliabilityPolicy reliability() const { return reliability_; }
private:
  ReliabilityPolicy reliability_ = ReliabilityPolicy::Reliable;
  DurabilityPolicy durability_ = DurabilityPolicy::Volatile;
};
struct SystemDefaultsQoS : public QoS { SystemDefaultsQoS() : QoS(10) {} };
struct SensorDataQoS : public QoS { SensorDataQoS() : QoS(10) { best_effort(); } };
struct ServicesQoS : public QoS { ServicesQoS() : QoS(10) {} };

template <class T>
class Publisher
{
public:
  using SharedPtr = std::shared_ptr<Publisher<T>>;
  explicit Publisher(const std::string & t) : topic_(t) {}
  void publish(const T & m)
  {
    ::verif::w_publish(topic_, std::make_shared<T>(m));
  }
  void publish(std::unique_ptr<T> m) { ::verif::w_publish(topic_, std::shared_ptr<T>(std::move(m))); }
  size_t get_subscription_count() const { return 1; }
  const char * get_topic_name() const { return topic_.c_str(); }
private:
  std::string topic_;
};
template <class T>
class Subscription
{
public:
  using SharedPtr = std::shared_ptr<Subscription<T>>;
};
class ServiceBase { public: using SharedPtr = std::shared_ptr<ServiceBase>; virtual ~ServiceBase() = default; };
template <class S>
class Service : public ServiceBase
{
public:
  using SharedPtr = std::shared_ptr<Service<S>>;
};
class TimerBase { public: using SharedPtr = std::shared_ptr<TimerBase>; };

class NodeOptions
{
public:
  NodeOptions & use_intra_process_comms(bool) { return *this; }
};

namespace exceptions
{
struct ParameterAlreadyDeclaredException : public std::runtime_error { using std::runtime_error::runtime_error; };
struct InvalidParameterTypeException : public std::runtime_error { using std::runtime_error::runtime_error; };
struct ParameterNotDeclaredException : public std::runtime_error { using std::runtime_error::runtime_error; };
}

class Node : public std::enable_shared_from_this<Node>
{
public:
  using SharedPtr = std::shared_ptr<Node>;
  explicit Node(const std::string & name, const NodeOptions & = NodeOptions())
  : name_(name), clock_(std::make_shared<Clock>()) { ::verif::w_undeclare_all(); }
  virtual ~Node() = default;

  template <class T>
  T declare_parameter(const std::string & n, const T & def)
  {
    if (!::verif::w_declare(n)) throw exceptions::ParameterAlreadyDeclaredException(n);
    T v = fetch<T>(n, def);
    ::verif::Ignore ignore;
    if constexpr (std::is_same_v<T, bool>) values_[n] = v;
    else if constexpr (std::is_integral_v<T>) values_[n] = static_cast<int64_t>(v);
    else if constexpr (std::is_floating_point_v<T>) values_[n] = static_cast<double>(v);
    else values_[n] = std::string(v);
    return v;
  }
  Parameter get_parameter(const std::string & n) const
  {
    ::verif::Ignore ignore;
    auto it = values_.find(n);
    if (it == values_.end()) throw exceptions::ParameterNotDeclaredException(n);
    return Parameter(n, it->second);
  }
  template <class T> bool get_parameter(const std::string & n, T & out) const
  {
    ::verif::Ignore ignore;
    if (!values_.count(n)) return false;
    out = get_parameter(n).template get_value<T>();
    return true;
  }
  template <class T> bool get_parameter_or(const std::string & n, T & out, const T & def) const
  {
    if (get_parameter(n, out)) return true;
    out = def;
    return false;
  }
  std::string declare_parameter(const std::string & n, const char * def)
  {
    return declare_parameter<std::string>(n, std::string(def));
  }
  bool has_parameter(const std::string & n)
  {
    ::verif::Ignore ignore;
    return values_.count(n) > 0;
  }
  Time now() { return clock_->now(); }
  Clock::SharedPtr get_clock() { return clock_; }
  Logger get_logger() const { return Logger(name_); }
  const char * get_name() const { return name_.c_str(); }

  template <class T>
  typename Publisher<T>::SharedPtr create_publisher(const std::string & t, const QoS & q)
  {
    ::verif::w_offer(t, q.durability() == DurabilityPolicy::TransientLocal, q.reliability() != ReliabilityPolicy::BestEffort);
    return std::make_shared<Publisher<T>>(t);
  }
  template <class T, class F>
  typename Subscription<T>::SharedPtr create_subscription(const std::string & t, const QoS &, F f)
  {
    std::function<void(const std::shared_ptr<const T> &)> g = f;
    ::verif::w_subscribe(t, [g](std::shared_ptr<void> m) {
        std::shared_ptr<const T> c = std::static_pointer_cast<T>(m);
        g(c);
      });
    return std::make_shared<Subscription<T>>();
  }
  template <class S, class F>
  typename Service<S>::SharedPtr create_service(const std::string & n, F f)
  {
    std::function<void(std::shared_ptr<typename S::Request>, std::shared_ptr<typename S::Response>)> g = f;
    ::verif::w_service(n, [g](std::shared_ptr<void> a, std::shared_ptr<void> b) {
        g(std::static_pointer_cast<typename S::Request>(a), std::static_pointer_cast<typename S::Response>(b));
      });
    return std::make_shared<Service<S>>();
  }

private:
  template <class T>
  T fetch(const std::string & n, const T & def)
  {
    ::verif::Param p;
    if (!::verif::w_param(n, p)) return def;
    if constexpr (std::is_same_v<T, bool>) {
      if (auto v = std::get_if<bool>(&p)) return *v;
    } else if constexpr (std::is_integral_v<T>) {
      if (auto v = std::get_if<int64_t>(&p)) return static_cast<T>(*v);
    } else if constexpr (std::is_floating_point_v<T>) {
      if (auto v = std::get_if<double>(&p)) return static_cast<T>(*v);
    } else {
      if (auto v = std::get_if<std::string>(&p)) return *v;
    }
    throw exceptions::InvalidParameterTypeException(n);
  }
  std::string name_;
  Clock::SharedPtr clock_;
  std::map<std::string, ::verif::Param> values_;
};

class SerializedMessage
{
public:
  explicit SerializedMessage(size_t = 0) { a_.verif_bytes = std::make_shared<std::vector<uint8_t>>(); sync(); }
  explicit SerializedMessage(const rcl_serialized_message_t & m)
  {
    a_.verif_bytes = std::make_shared<std::vector<uint8_t>>(m.buffer, m.buffer + m.buffer_length);
    sync();
  }
  size_t size() const { return a_.buffer_length; }
  rcl_serialized_message_t & get_rcl_serialized_message() { return a_; }
  const rcl_serialized_message_t & get_rcl_serialized_message() const { return a_; }
  std::vector<uint8_t> & verif_bytes() { return *a_.verif_bytes; }
  const std::vector<uint8_t> & verif_bytes() const { return *a_.verif_bytes; }
  void sync()
  {
    a_.buffer = a_.verif_bytes->data();
    a_.buffer_length = a_.buffer_capacity = a_.verif_bytes->size();
  }
private:
  rcl_serialized_message_t a_;
};

struct VerifWriter
{
  std::vector<uint8_t> & b;
  template <class T> void operator()(T & v)
  {
    if constexpr (std::is_arithmetic_v<T>) {
      const uint8_t * p = reinterpret_cast<const uint8_t *>(&v);
      b.insert(b.end(), p, p + sizeof(T));
    } else {
      v.verif_visit(*this);
    }
  }
  void operator()(std::string & s) { uint32_t n = s.size(); (*this)(n); b.insert(b.end(), s.begin(), s.end()); }
  template <class T> void operator()(std::vector<T> & v)
  {
    uint32_t n = v.size();
    (*this)(n);
    for (auto & x : v) (*this)(x);
  }
  template <class T, size_t N> void operator()(std::array<T, N> & v) { for (auto & x : v) (*this)(x); }
};
struct VerifReader
{
  const std::vector<uint8_t> & b;
  size_t at = 0;
  void need(size_t n) { if (at + n > b.size()) throw std::runtime_error("deserialisation past the end"); }
  template <class T> void operator()(T & v)
  {
    if constexpr (std::is_arithmetic_v<T>) {
      need(sizeof(T));
      std::memcpy(&v, b.data() + at, sizeof(T));
      at += sizeof(T);
    } else {
      v.verif_visit(*this);
    }
  }
  void operator()(std::string & s) { uint32_t n; (*this)(n); need(n); s.assign(b.begin() + at, b.begin() + at + n); at += n; }
  template <class T> void operator()(std::vector<T> & v)
  {
    uint32_t n;
    (*this)(n);
    need(n);
    v.clear();
    v.resize(n);
    for (auto & x : v) (*this)(x);
  }
  template <class T, size_t N> void operator()(std::array<T, N> & v) { for (auto & x : v) (*this)(x); }
};

template <class T>
class Serialization
{
public:
  void serialize_message(const void * m, SerializedMessage * out) const
  {
    out->verif_bytes().clear();
    VerifWriter w{out->verif_bytes()};
    w(*const_cast<T *>(static_cast<const T *>(m)));
    out->sync();
  }
  void deserialize_message(const SerializedMessage * in, void * m) const
  {
    VerifReader r{in->verif_bytes()};
    r(*static_cast<T *>(m));
  }
};
}  // namespace rclcpp

#define VERIF_LOG(l, lg, ...) do { (void)(lg); ::rclcpp::verif_log(l, __VA_ARGS__); } while (0)
#define RCLCPP_DEBUG(lg, ...) VERIF_LOG("DEBUG", lg, __VA_ARGS__)
#define RCLCPP_INFO(lg, ...) VERIF_LOG("INFO", lg, __VA_ARGS__)
#define RCLCPP_WARN(lg, ...) VERIF_LOG("WARN", lg, __VA_ARGS__)
#define RCLCPP_ERROR(lg, ...) VERIF_LOG("ERROR", lg, __VA_ARGS__)
#define RCLCPP_FATAL(lg, ...) VERIF_LOG("FATAL", lg, __VA_ARGS__)
#define RCLCPP_INFO_ONCE(lg, ...) VERIF_LOG("INFO", lg, __VA_ARGS__)
#define RCLCPP_WARN_ONCE(lg, ...) VERIF_LOG("WARN", lg, __VA_ARGS__)
#define RCLCPP_ERROR_ONCE(lg, ...) VERIF_LOG("ERROR", lg, __VA_ARGS__)
#define RCLCPP_INFO_THROTTLE(lg, ck, ms, ...) do { (void)(ck); (void)(ms); VERIF_LOG("INFO", lg, __VA_ARGS__); } while (0)
#define RCLCPP_WARN_THROTTLE(lg, ck, ms, ...) do { (void)(ck); (void)(ms); VERIF_LOG("WARN", lg, __VA_ARGS__); } while (0)
#define RCLCPP_ERROR_THROTTLE(lg, ck, ms, ...) do { (void)(ck); (void)(ms); VERIF_LOG("ERROR", lg, __VA_ARGS__); } while (0)
#define RCLCPP_DEBUG_ONCE(lg, ...) VERIF_LOG("DEBUG", lg, __VA_ARGS__)
#define RCLCPP_DEBUG_THROTTLE(lg, ck, ms, ...) do { (void)(ck); (void)(ms); VERIF_LOG("DEBUG", lg, __VA_ARGS__); } while (0)
#define RCLCPP_INFO_EXPRESSION(lg, e, ...) do { if (e) VERIF_LOG("INFO", lg, __VA_ARGS__); } while (0)
#define RCLCPP_WARN_EXPRESSION(lg, e, ...) do { if (e) VERIF_LOG("WARN", lg, __VA_ARGS__); } while (0)
#define RCLCPP_ERROR_EXPRESSION(lg, e, ...) do { if (e) VERIF_LOG("ERROR", lg, __VA_ARGS__); } while (0)
#define VERIF_SLOG(l, lg, x) do { (void)(lg); std::ostringstream verif_o; verif_o << x; ::verif::w_log(l, verif_o.str()); } while (0)
#define RCLCPP_DEBUG_STREAM(lg, x) VERIF_SLOG("DEBUG", lg, x)
#define RCLCPP_INFO_STREAM(lg, x) VERIF_SLOG("INFO", lg, x)
#define RCLCPP_WARN_STREAM(lg, x) VERIF_SLOG("WARN", lg, x)
#define RCLCPP_FATAL_STREAM(lg, x) VERIF_SLOG("FATAL", lg, x)
#define RCLCPP_ERROR_STREAM(lg, x) VERIF_SLOG("ERROR", lg, x)
#endif
