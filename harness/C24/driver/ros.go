package driver

// rosFiles are the parts of ROS that drivers use: what comes over topics and timers is read from standard input, and what is
// published is written to standard output. Like the real one, it may deliver what was already waiting when it was shut down.
var rosFiles = []string{
	"ros/ros.h", `#ifndef ROS_H
#define ROS_H
#include <iostream>
#include <memory>
#include <string>
#include <vector>

#define ROS_INFO_STREAM(args) do { std::cerr << "[info] " << args; } while (0)
#define ROS_WARN_STREAM(args) do { std::cerr << "[warn] " << args; } while (0)
#define ROS_ERROR_STREAM(args) do { std::cerr << "[error] " << args; } while (0)

namespace ros
{
struct TimerEvent {};

class Duration
{
public:
  explicit Duration(double s) : secs(s) {}
  double secs;
};

struct TimerBase
{
  double secs;
  explicit TimerBase(double s) : secs(s) {}
  virtual ~TimerBase() {}
  virtual void fire() = 0;
};

struct SubBase
{
  std::string topic;
  explicit SubBase(const std::string &t) : topic(t) {}
  virtual ~SubBase() {}
  virtual void deliver() = 0;
};

template <class T> struct TimerOf : TimerBase
{
  void (T::*method)(const TimerEvent &);
  T *obj;
  TimerOf(double s, void (T::*m)(const TimerEvent &), T *o) : TimerBase(s), method(m), obj(o) {}
  void fire() override { TimerEvent e; (obj->*method)(e); }
};

// A message is read from standard input; acknowledgements are true.
template <class D> void take(D &d) { std::cin >> d; }
inline void take(bool &b) { b = true; }

template <class M, class T> struct SubOf : SubBase
{
  typedef std::shared_ptr<M const> Ptr;
  void (T::*method)(const Ptr &);
  T *obj;
  SubOf(const std::string &t, void (T::*m)(const Ptr &), T *o) : SubBase(t), method(m), obj(o) {}
  void deliver() override { M *m = new M; take(m->data); Ptr p(m); (obj->*method)(p); }
};

inline std::vector<TimerBase *> &timers() { static std::vector<TimerBase *> v; return v; }
inline std::vector<SubBase *> &subs() { static std::vector<SubBase *> v; return v; }
inline std::vector<std::string> &topics() { static std::vector<std::string> v; return v; }

class Publisher
{
  std::string topic_;

public:
  Publisher() {}
  explicit Publisher(const std::string &t) : topic_(t) {}
  template <class M> void publish(const M &m) const { std::cout << topic_ << " " << m.data << std::endl; }
};

class Timer {};
class Subscriber {};

inline void init(int &, char **, const std::string &) {}
inline void shutdown() {}
inline bool ok() { return true; }

class NodeHandle
{
public:
  template <class M> Publisher advertise(const std::string &topic, unsigned) { return Publisher(topic); }

  template <class M, class T> Subscriber subscribe(const std::string &topic, unsigned, void (T::*m)(const std::shared_ptr<M const> &), T *o)
  {
    subs().push_back(new SubOf<M, T>(topic, m, o));
    return Subscriber();
  }

  template <class T> Timer createTimer(Duration d, void (T::*m)(const TimerEvent &), T *o)
  {
    timers().push_back(new TimerOf<T>(d.secs, m, o));
    return Timer();
  }
};

inline void spin()
{
  std::string w;
  while (std::cin >> w)
  {
    if (w == "timeout" || w == "ready")
    {
      // The one that takes longer is that of the test.
      bool longest = w == "timeout";
      size_t k = 0;
      for (size_t i = 1; i < timers().size(); i++)
        if (longest ? timers()[i]->secs > timers()[k]->secs : timers()[i]->secs < timers()[k]->secs) k = i;
      if (timers().size() > (longest ? 0u : 1u)) timers()[k]->fire();
      continue;
    }
    std::string t = w == "accept" ? "input_accepted" : w;
    for (size_t i = 0; i < subs().size(); i++)
      if (subs()[i]->topic == t) subs()[i]->deliver();
  }
}
}
#endif
`,
	"std_msgs/String.h", `#ifndef STD_MSGS_STRING_H
#define STD_MSGS_STRING_H
#include <memory>
#include <string>
namespace std_msgs
{
struct String { typedef std::shared_ptr<String const> ConstPtr; std::string data; };
}
#endif
`,
	"std_msgs/Bool.h", `#ifndef STD_MSGS_BOOL_H
#define STD_MSGS_BOOL_H
#include <memory>
namespace std_msgs
{
struct Bool { typedef std::shared_ptr<Bool const> ConstPtr; bool data; };
}
#endif
`,
	"std_msgs/Int32.h", `#ifndef STD_MSGS_INT32_H
#define STD_MSGS_INT32_H
#include <memory>
namespace std_msgs
{
struct Int32 { typedef std::shared_ptr<Int32 const> ConstPtr; int data; Int32() : data(0) {} };
}
#endif
`,
}
