// Logging stand-in: every message is formatted (so the streamed expressions are
// really evaluated) and counted; printed only when MSF_VERIF_LOG is set.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <string>
namespace ros { namespace verif {
struct LogStats {
  unsigned long info = 0, warn = 0, error = 0;
  std::string last_warn, last_error;
  bool echo = std::getenv("MSF_VERIF_LOG") != nullptr;
};
inline LogStats& log() { static LogStats l; return l; }
inline void emit(int lvl, const std::string& s) {
  LogStats& l = log();
  if (lvl == 0) l.info++; else if (lvl == 1) { l.warn++; l.last_warn = s; } else { l.error++; l.last_error = s; }
  if (l.echo) std::fprintf(stderr, "[%s] %s\n", lvl == 0 ? "INFO" : lvl == 1 ? "WARN" : "ERROR", s.c_str());
}
inline std::string fmt(const char* f, ...) {
  char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
}}
#define VROS_EMIT(lvl, x) do { std::stringstream vros_ss__; vros_ss__ << x; ::ros::verif::emit(lvl, vros_ss__.str()); } while (0)
#define VROS_ONCE(lvl, x) do { static bool vros_hit__ = false; if (!vros_hit__) { vros_hit__ = true; VROS_EMIT(lvl, x); } } while (0)
// Throttled messages are always emitted: the formatting code then runs on every call.
#define VROS_COND(lvl, c, x) do { if (c) VROS_EMIT(lvl, x); } while (0)
#define ROS_DEBUG_STREAM(x) VROS_EMIT(0, x)
#define ROS_DEBUG_STREAM_ONCE(x) VROS_ONCE(0, x)
#define ROS_DEBUG_STREAM_THROTTLE(r, x) VROS_EMIT(0, x)
#define ROS_DEBUG_STREAM_COND(c, x) VROS_COND(0, c, x)
#define ROS_DEBUG_STREAM_NAMED(nm, x) VROS_EMIT(0, x)
#define ROS_DEBUG(...) ::ros::verif::emit(0, ::ros::verif::fmt(__VA_ARGS__))
#define ROS_DEBUG_ONCE(...) VROS_ONCE(0, ::ros::verif::fmt(__VA_ARGS__))
#define ROS_DEBUG_THROTTLE(r, ...) ::ros::verif::emit(0, ::ros::verif::fmt(__VA_ARGS__))
#define ROS_DEBUG_NAMED(nm, ...) ::ros::verif::emit(0, ::ros::verif::fmt(__VA_ARGS__))
#define ROS_DEBUG_COND(c, ...) do { if (c) ROS_DEBUG(__VA_ARGS__); } while (0)
#define ROS_INFO_STREAM(x) VROS_EMIT(0, x)
#define ROS_INFO_STREAM_ONCE(x) VROS_ONCE(0, x)
#define ROS_INFO_STREAM_THROTTLE(r, x) VROS_EMIT(0, x)
#define ROS_INFO_STREAM_COND(c, x) VROS_COND(0, c, x)
#define ROS_INFO_STREAM_NAMED(nm, x) VROS_EMIT(0, x)
#define ROS_INFO(...) ::ros::verif::emit(0, ::ros::verif::fmt(__VA_ARGS__))
#define ROS_INFO_ONCE(...) VROS_ONCE(0, ::ros::verif::fmt(__VA_ARGS__))
#define ROS_INFO_THROTTLE(r, ...) ::ros::verif::emit(0, ::ros::verif::fmt(__VA_ARGS__))
#define ROS_INFO_NAMED(nm, ...) ::ros::verif::emit(0, ::ros::verif::fmt(__VA_ARGS__))
#define ROS_INFO_COND(c, ...) do { if (c) ROS_INFO(__VA_ARGS__); } while (0)
#define ROS_WARN_STREAM(x) VROS_EMIT(1, x)
#define ROS_WARN_STREAM_ONCE(x) VROS_ONCE(1, x)
#define ROS_WARN_STREAM_THROTTLE(r, x) VROS_EMIT(1, x)
#define ROS_WARN_STREAM_COND(c, x) VROS_COND(1, c, x)
#define ROS_WARN_STREAM_NAMED(nm, x) VROS_EMIT(1, x)
#define ROS_WARN(...) ::ros::verif::emit(1, ::ros::verif::fmt(__VA_ARGS__))
#define ROS_WARN_ONCE(...) VROS_ONCE(1, ::ros::verif::fmt(__VA_ARGS__))
#define ROS_WARN_THROTTLE(r, ...) ::ros::verif::emit(1, ::ros::verif::fmt(__VA_ARGS__))
#define ROS_WARN_NAMED(nm, ...) ::ros::verif::emit(1, ::ros::verif::fmt(__VA_ARGS__))
#define ROS_WARN_COND(c, ...) do { if (c) ROS_WARN(__VA_ARGS__); } while (0)
#define ROS_ERROR_STREAM(x) VROS_EMIT(2, x)
#define ROS_ERROR_STREAM_ONCE(x) VROS_ONCE(2, x)
#define ROS_ERROR_STREAM_THROTTLE(r, x) VROS_EMIT(2, x)
#define ROS_ERROR_STREAM_COND(c, x) VROS_COND(2, c, x)
#define ROS_ERROR_STREAM_NAMED(nm, x) VROS_EMIT(2, x)
#define ROS_ERROR(...) ::ros::verif::emit(2, ::ros::verif::fmt(__VA_ARGS__))
#define ROS_ERROR_ONCE(...) VROS_ONCE(2, ::ros::verif::fmt(__VA_ARGS__))
#define ROS_ERROR_THROTTLE(r, ...) ::ros::verif::emit(2, ::ros::verif::fmt(__VA_ARGS__))
#define ROS_ERROR_NAMED(nm, ...) ::ros::verif::emit(2, ::ros::verif::fmt(__VA_ARGS__))
#define ROS_ERROR_COND(c, ...) do { if (c) ROS_ERROR(__VA_ARGS__); } while (0)
#define ROS_FATAL_STREAM(x) VROS_EMIT(2, x)
#define ROS_FATAL_STREAM_ONCE(x) VROS_ONCE(2, x)
#define ROS_FATAL_STREAM_THROTTLE(r, x) VROS_EMIT(2, x)
#define ROS_FATAL_STREAM_COND(c, x) VROS_COND(2, c, x)
#define ROS_FATAL_STREAM_NAMED(nm, x) VROS_EMIT(2, x)
#define ROS_FATAL(...) ::ros::verif::emit(2, ::ros::verif::fmt(__VA_ARGS__))
#define ROS_FATAL_ONCE(...) VROS_ONCE(2, ::ros::verif::fmt(__VA_ARGS__))
#define ROS_FATAL_THROTTLE(r, ...) ::ros::verif::emit(2, ::ros::verif::fmt(__VA_ARGS__))
#define ROS_FATAL_NAMED(nm, ...) ::ros::verif::emit(2, ::ros::verif::fmt(__VA_ARGS__))
#define ROS_FATAL_COND(c, ...) do { if (c) ROS_FATAL(__VA_ARGS__); } while (0)
#define ROS_LOG_STREAM_THROTTLE(r, x) VROS_EMIT(0, x)
#define ROS_ASSERT(c) do { if (!(c)) { ::ros::verif::emit(2, "assertion failed: " #c); abort(); } } while (0)
