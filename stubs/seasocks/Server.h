#pragma once
#include <atomic>
#include <map>
#include <thread>
#include <vector>
#include "PageHandler.h"
#include "WebSocket.h"
namespace seasocks
{
class Server
{
public:
  explicit Server(std::shared_ptr<Logger> logger);
  ~Server();
  void addPageHandler(std::shared_ptr<PageHandler> handler);
  void addWebSocketHandler(const char* endpoint, std::shared_ptr<WebSocket::Handler> handler, bool allow_cross = false);
  bool startListening(int port);
  void setClientBufferSize(size_t bytes);
  void loop();
  void terminate();
  using Executable = std::function<void()>;
  void execute(Executable to_execute);

  struct Conn;
  struct Impl;

private:
  std::shared_ptr<Logger> logger_;
  std::map<std::string, std::shared_ptr<WebSocket::Handler>> ws_handlers_;
  std::list<std::shared_ptr<PageHandler>> page_handlers_;
  std::atomic<bool> terminate_{ false };
  std::mutex pending_mutex_;
  std::list<Executable> pending_;
  std::thread::id thread_{};
  bool listening_{ false };
  size_t buffer_{ 16 * 1024 * 1024u };
  std::map<int, Conn*> connections_;
  size_t round_{ 0 };
  friend struct Conn;
  void runExecutables();
  bool poll();
  void closeAll();
  void drop(Conn* c);
};
}  // namespace seasocks
