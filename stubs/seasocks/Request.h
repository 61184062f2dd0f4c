#pragma once
#include "Logger.h"
namespace seasocks
{
class Request
{
public:
  virtual ~Request() = default;
  virtual const std::string& getRequestUri() const = 0;
};
}  // namespace seasocks
