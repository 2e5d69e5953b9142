// A stand-in for the part of rclcpp the node uses.  Parameters are statically
// typed as in ROS 2: declaring a parameter whose override has another type
// throws, setting one to another type is refused.  Messages are delivered by
// the harness: rclcpp::stub::Graph knows every subscription, publisher, timer.
#ifndef ROS_STUB_RCLCPP_HPP_
#define ROS_STUB_RCLCPP_HPP_
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <variant>
#include <vector>

namespace rclcpp
{
struct ParameterTypeException : std::runtime_error {using std::runtime_error::runtime_error;};
struct ParameterNotDeclaredException : std::runtime_error {using std::runtime_error::runtime_error;};
struct ParameterAlreadyDeclaredException : std::runtime_error {using std::runtime_error::runtime_error;};

using ParameterValue = std::variant<bool, int64_t, double, std::string, std::vector<bool>, std::vector<int64_t>,
    std::vector<double>, std::vector<std::string>>;
inline ParameterValue ToValue(bool v) {return v;}
inline ParameterValue ToValue(int v) {return static_cast<int64_t>(v);}
inline ParameterValue ToValue(unsigned v) {return static_cast<int64_t>(v);}
inline ParameterValue ToValue(int64_t v) {return v;}
inline ParameterValue ToValue(double v) {return v;}
inline ParameterValue ToValue(const char * v) {return std::string(v);}
inline ParameterValue ToValue(const std::string & v) {return v;}
inline ParameterValue ToValue(const std::vector<double> & v) {return v;}
inline ParameterValue ToValue(const std::vector<std::string> & v) {return v;}
inline ParameterValue ToValue(const std::vector<int64_t> & v) {return v;}
inline ParameterValue ToValue(const std::vector<bool> & v) {return v;}

class Parameter
{
public:
  Parameter() {}
  template<class T> Parameter(const std::string & name, const T & v) : m_name(name), m_value(ToValue(v)) {}
  Parameter(const std::string & name, const ParameterValue & v) : m_name(name), m_value(v) {}
  bool as_bool() const {return As<bool>();}
  int64_t as_int() const {return As<int64_t>();}
  double as_double() const {return As<double>();}
  const std::string & as_string() const {return As<std::string>();}
  const std::vector<double> & as_double_array() const {return As<std::vector<double>>();}
  const std::vector<std::string> & as_string_array() const {return As<std::vector<std::string>>();}
  const std::vector<int64_t> & as_integer_array() const {return As<std::vector<int64_t>>();}
  const std::string & get_name() const {return m_name;}
  const ParameterValue & get_parameter_value() const {return m_value;}

private:
  template<class T> const T & As() const
  {
    const T * p = std::get_if<T>(&m_value);
    if (!p) {throw ParameterTypeException("parameter " + m_name + " has another type");}
    return *p;
  }
  std::string m_name;
  ParameterValue m_value;
};
struct SetParametersResult {bool successful; std::string reason;};

namespace stub
{
struct SubscriptionRecord {std::string topic; const void * type; std::function<void(std::shared_ptr<void>)> call; std::weak_ptr<void> alive;};
struct PublisherRecord {std::string topic; const void * type; std::vector<std::shared_ptr<void>> sent; std::weak_ptr<void> alive;};
struct TimerRecord {std::chrono::nanoseconds period; std::function<void()> call;};
struct Graph
{
  std::map<std::string, ParameterValue> overrides;   // what a parameter file sets
  std::vector<SubscriptionRecord> subscriptions;
  std::vector<std::shared_ptr<PublisherRecord>> publishers;
  std::vector<TimerRecord> timers;
  std::vector<std::pair<int, std::string>> log;
  bool echo {false};
};
inline Graph & graph() {static Graph g; return g;}
template<class M> const void * Type() {static int t; return &t;}
}  // namespace stub

template<class M> class Subscription
{
public:
  using SharedPtr = std::shared_ptr<Subscription<M>>;
};
template<class M> class Publisher
{
public:
  using SharedPtr = std::shared_ptr<Publisher<M>>;
  void publish(const M & m) {record->sent.push_back(std::make_shared<M>(m));}
  std::shared_ptr<stub::PublisherRecord> record;
};
class TimerBase
{
public:
  using SharedPtr = std::shared_ptr<TimerBase>;
};

class Node
{
public:
  explicit Node(const std::string & name) : m_name(name) {}
  virtual ~Node() {}
  template<class T> void declare_parameter(const std::string & name, const T & def)
  {
    if (m_params.count(name)) {throw ParameterAlreadyDeclaredException("parameter " + name + " declared twice");}
    ParameterValue v = ToValue(def);
    auto o = stub::graph().overrides.find(name);
    if (o != stub::graph().overrides.end()) {
      if (o->second.index() != v.index()) {throw ParameterTypeException("parameter " + name + " set to another type");}
      v = o->second;
    }
    m_params[name] = v;
  }
  Parameter get_parameter(const std::string & name) const
  {
    auto i = m_params.find(name);
    if (i == m_params.end()) {throw ParameterNotDeclaredException("parameter " + name + " not declared");}
    return Parameter(name, i->second);
  }
  bool has_parameter(const std::string & name) const {return m_params.count(name) > 0;}
  SetParametersResult set_parameter(const Parameter & p)
  {
    auto i = m_params.find(p.get_name());
    if (i == m_params.end()) {throw ParameterNotDeclaredException("parameter " + p.get_name() + " not declared");}
    if (i->second.index() != p.get_parameter_value().index()) {return {false, "wrong type"};}
    i->second = p.get_parameter_value();
    return {true, ""};
  }
  template<class M, class F> typename Subscription<M>::SharedPtr create_subscription(const std::string & topic, int, F f)
  {
    auto s = std::make_shared<Subscription<M>>();
    std::function<void(std::shared_ptr<M>)> call = f;
    stub::graph().subscriptions.push_back({topic, stub::Type<M>(), [call](std::shared_ptr<void> m) {
        call(std::static_pointer_cast<M>(m));}, s});
    return s;
  }
  template<class M> typename Publisher<M>::SharedPtr create_publisher(const std::string & topic, int)
  {
    auto p = std::make_shared<Publisher<M>>();
    p->record = std::make_shared<stub::PublisherRecord>();
    p->record->topic = topic; p->record->type = stub::Type<M>(); p->record->alive = p;
    stub::graph().publishers.push_back(p->record);
    return p;
  }
  template<class D, class F> TimerBase::SharedPtr create_wall_timer(D period, F f)
  {
    stub::graph().timers.push_back({period, f});
    return std::make_shared<TimerBase>();
  }
  const std::map<std::string, ParameterValue> & declared() const {return m_params;}
  std::string get_name() const {return m_name;}

private:
  std::string m_name;
  std::map<std::string, ParameterValue> m_params;
};

class Logger {};
inline Logger get_logger(const std::string &) {return Logger();}
inline void init(int, char **) {}
inline void shutdown() {}
template<class N> void spin(N) {}

namespace stub
{
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wformat-security"
inline void LogF(int level, const char * format, ...)
{
  char buf[4096];
  va_list a; va_start(a, format);
  vsnprintf(buf, sizeof buf, format, a);
  va_end(a);
  graph().log.push_back({level, buf});
}
#pragma GCC diagnostic pop
}  // namespace stub
}  // namespace rclcpp

// levels numbered as in DebugLogger
#define RCLCPP_FATAL(logger, ...) do {(void)(logger); rclcpp::stub::LogF(0, __VA_ARGS__);} while (0)
#define RCLCPP_ERROR(logger, ...) do {(void)(logger); rclcpp::stub::LogF(1, __VA_ARGS__);} while (0)
#define RCLCPP_WARN(logger, ...) do {(void)(logger); rclcpp::stub::LogF(2, __VA_ARGS__);} while (0)
#define RCLCPP_INFO(logger, ...) do {(void)(logger); rclcpp::stub::LogF(3, __VA_ARGS__);} while (0)
#define RCLCPP_DEBUG(logger, ...) do {(void)(logger); rclcpp::stub::LogF(4, __VA_ARGS__);} while (0)
#define RCLCPP_STUB_STREAM(level, stream) do {std::ostringstream stub_s; stub_s << stream; \
    rclcpp::stub::graph().log.push_back({level, stub_s.str()});} while (0)
#define RCLCPP_FATAL_STREAM(logger, stream) RCLCPP_STUB_STREAM(0, stream)
#define RCLCPP_ERROR_STREAM(logger, stream) RCLCPP_STUB_STREAM(1, stream)
#define RCLCPP_WARN_STREAM(logger, stream) RCLCPP_STUB_STREAM(2, stream)
#define RCLCPP_INFO_STREAM(logger, stream) RCLCPP_STUB_STREAM(3, stream)
#define RCLCPP_DEBUG_STREAM(logger, stream) RCLCPP_STUB_STREAM(4, stream)
#endif
