// Stand-in for log4cplus: log lines are discarded (a deterministic run must not do real I/O).
#ifndef STUB_LOG4CPLUS
#define STUB_LOG4CPLUS
#include <string>
#include <memory>
#include <sstream>
namespace log4cplus {
typedef std::string tstring; typedef int LogLevel;
const LogLevel OFF_LOG_LEVEL = 60000, FATAL_LOG_LEVEL = 50000, ERROR_LOG_LEVEL = 40000, WARN_LOG_LEVEL = 30000, INFO_LOG_LEVEL = 20000, DEBUG_LOG_LEVEL = 10000, TRACE_LOG_LEVEL = 0, ALL_LOG_LEVEL = 0;
struct Layout { virtual ~Layout() {} };
struct PatternLayout : Layout { PatternLayout(const tstring &) {} };
struct Appender { virtual ~Appender() {} void setName(const tstring &) {} template <class T> void setLayout(T) {} };
struct ConsoleAppender : Appender { ConsoleAppender(bool = false, bool = false) {} };
namespace helpers { template <class T> struct SharedObjectPtr { SharedObjectPtr(T *p = 0) : p(p) {} T *operator->() const { return p; } T *p; }; }
typedef helpers::SharedObjectPtr<Appender> SharedAppenderPtr;
struct Logger { static Logger getInstance(const tstring &) { return Logger(); } static Logger getRoot() { return Logger(); } template <class T> void addAppender(T) {} void setLogLevel(LogLevel) {} LogLevel getLogLevel() const { return OFF_LOG_LEVEL; } };
inline void initialize() {}
}
#define LOG4CPLUS_TEXT(x) x
#define LOG4CPLUS_X(l, m) do { (void)(l); if (0) { std::ostringstream _o; _o << m; } } while (0)
#define LOG4CPLUS_WARN(l, m) LOG4CPLUS_X(l, m)
#define LOG4CPLUS_DEBUG(l, m) LOG4CPLUS_X(l, m)
#define LOG4CPLUS_ERROR(l, m) LOG4CPLUS_X(l, m)
#define LOG4CPLUS_INFO(l, m) LOG4CPLUS_X(l, m)
#define LOG4CPLUS_FATAL(l, m) LOG4CPLUS_X(l, m)
#define LOG4CPLUS_TRACE(l, m) LOG4CPLUS_X(l, m)
#endif
