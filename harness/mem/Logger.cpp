// Logging is not part of any property and boost.log dominates the run time of an execution: messages go
// nowhere (or to stderr, when debugging a counterexample with VERIF_LOG=1).
#include "logging/Logger.hpp"
#include <cstdio>
#include <cstdlib>

namespace precice::logging {
class Logger::LoggerImpl {
};
namespace {
void emit(const char *level, LogLocation loc, std::string_view m)
{
  static const bool on = getenv("VERIF_LOG") != nullptr;
  if (on)
    fprintf(stderr, "[%s] %s:%d %.*s\n", level, loc.func, loc.line, static_cast<int>(m.size()), m.data());
}
} // namespace
Logger::Logger(std::string_view) {}
Logger::~Logger() = default;
Logger::Logger(const Logger &) {}
Logger::Logger(Logger &&) noexcept = default;
Logger &Logger::operator=(Logger) { return *this; }
void    Logger::swap(Logger &) noexcept {}
void    Logger::error(LogLocation l, std::string_view m) noexcept { emit("error", l, m); }
void    Logger::warning(LogLocation l, std::string_view m) noexcept { emit("warning", l, m); }
void    Logger::info(LogLocation l, std::string_view m) noexcept { emit("info", l, m); }
void    Logger::debug(LogLocation, std::string_view) noexcept {}
void    Logger::trace(LogLocation, std::string_view) noexcept {}
} // namespace precice::logging
