// Stub of the parts of seasocks the repository uses (the library itself is an empty submodule here). The interface
// follows seasocks 1.4; the behaviour of the server is in scen/catapult.cpp.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <list>
#include <memory>
#include <mutex>
#include <string>
namespace seasocks
{
class Logger
{
public:
  enum class Level { Debug, Access, Info, Warning, Error, Severe };
  virtual ~Logger() = default;
  virtual void log(Level level, const char* message) = 0;
};
}  // namespace seasocks
