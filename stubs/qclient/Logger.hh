#pragma once
#include <string>
#include <mutex>
namespace qclient {
enum class LogLevel { kOff = 0, kFatal, kError, kWarn, kInfo, kDebug };
std::string logLevelToString(LogLevel level);
class Logger {
public:
  LogLevel logLevel = LogLevel::kInfo;
  virtual ~Logger() {}
  virtual void print(LogLevel level, int line, const std::string &file, const std::string &msg) = 0;
};
class StandardErrorLogger : public Logger {
public:
  void print(LogLevel level, int line, const std::string &file, const std::string &msg) override;
};
}
