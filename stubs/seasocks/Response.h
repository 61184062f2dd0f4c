#pragma once
#include "Request.h"
namespace seasocks
{
class Response
{
public:
  std::string payload;
  bool handled{ true };
  virtual ~Response() = default;
  static std::shared_ptr<Response> htmlResponse(const std::string& s)
  {
    auto r = std::make_shared<Response>();
    r->payload = s;
    return r;
  }
  static std::shared_ptr<Response> jsonResponse(const std::string& s)
  {
    return htmlResponse(s);
  }
  static std::shared_ptr<Response> textResponse(const std::string& s)
  {
    return htmlResponse(s);
  }
  static std::shared_ptr<Response> unhandled()
  {
    return nullptr;
  }
};
}  // namespace seasocks
