// Stand-in for the seasocks web server.
// The stub follows seasocks: one thread runs everything that was handed to execute(), then the
// events of one epoll round; connections only exist on that thread, their memory is reused by later ones.
namespace
{
struct WebEvent
{
  int kind;  // 0 accept, 1 handshake, 2 text, 3 binary, 4 close, 5 page request
  std::string text;
};
struct ConnState
{
  int id;
  std::string endpoint;
  std::deque<WebEvent> events;
  bool accepted{ false }, open{ false }, gone{ false };
  size_t round{ 0 };
  bool polite{ false };  // the browser keeps it open
  Front front;
  int disconnects{ 0 };
};
struct Web
{
  std::vector<ConnState*> conns;
  int logs{ 0 };
  bool down{ false };
  bool refused{ false };
  int pages{ 0 };
};
Web* WEB;
std::vector<void*> conn_memory;
}  // namespace

namespace seasocks
{
struct Server::Conn : public WebSocket
{
  Server* server;
  ConnState* state;
  bool dead{ false };
  bool shut{ false };
  std::shared_ptr<WebSocket::Handler> handler;
  Conn(Server* s, ConnState* c) : server(s), state(c)
  {
  }
  const std::string& getRequestUri() const override
  {
    return state->endpoint;
  }
  void message(const char* data, size_t n)
  {
    const bool right = std::this_thread::get_id() == server->thread_;
    sim::Quiet q;
    if (dead || state->gone)
    {
      vio({ "C19" }, "connection %d, which is closed, is sent %.100s", state->id, data);
      return;
    }
    if (!right)
      vio({ "C19" }, "connection %d is used by another thread than the web server's", state->id);
    if (!state->open)
      vio({ "C19" }, "connection %d is sent something before it is open", state->id);
    sim::ev("send");
    if (shut)
      return;  // the peer is gone already, seasocks drops it
    state->front.take(std::string(data, n));
    if (!state->polite && sim::fault(sim::F_PEER_DROP))
    {
      shut = true;
      WebEvent e;
      e.kind = 4;
      state->events.clear();
      state->events.push_back(e);
    }
  }
  void send(const char* data) override
  {
    message(data, strlen(data));
  }
  void send(const uint8_t* data, size_t n) override
  {
    message(reinterpret_cast<const char*>(data), n);
  }
  void close() override
  {
    sim::Quiet q;
    shut = true;
    WebEvent e;
    e.kind = 4;
    state->events.push_back(e);
  }
};

struct PageRequest : public Request
{
  std::string uri;
  const std::string& getRequestUri() const override
  {
    return uri;
  }
};

Server::Server(std::shared_ptr<Logger> logger) : logger_(std::move(logger))
{
}
Server::~Server()
{
  closeAll();
}
void Server::addPageHandler(std::shared_ptr<PageHandler> handler)
{
  page_handlers_.push_back(std::move(handler));
}
void Server::addWebSocketHandler(const char* endpoint, std::shared_ptr<WebSocket::Handler> handler, bool)
{
  ws_handlers_[endpoint] = std::move(handler);
}
bool Server::startListening(int)
{
  const bool bad = sim::fault(sim::F_LISTEN_FAIL);
  if (bad)
  {
    logger_->log(Logger::Level::Error, "Unable to bind the socket");
    sim::Quiet q;
    WEB->refused = true;
    return false;
  }
  listening_ = true;
  return true;
}
void Server::setClientBufferSize(size_t bytes)
{
  buffer_ = bytes;
}
void Server::terminate()
{
  terminate_ = true;
}
void Server::execute(Executable to_execute)
{
  std::unique_lock<std::mutex> lock(pending_mutex_);
  pending_.push_back(std::move(to_execute));
}
void Server::runExecutables()
{
  std::list<Executable> copy;
  {
    std::unique_lock<std::mutex> lock(pending_mutex_);
    copy.swap(pending_);
  }
  for (auto& f : copy)
    f();
}
void Server::drop(Conn* c)
{
  ConnState* st = c->state;
  connections_.erase(st->id);
  bool was_open;
  {
    sim::Quiet q;
    was_open = st->open;
  }
  if (was_open && c->handler)
  {
    sim::Deadline d("C19", "the web server handling a disconnect", 60 * SEC);
    c->handler->onDisconnect(c);
  }
  c->handler.reset();
  sim::Quiet q;
  st->gone = true;
  st->open = false;
  c->dead = true;
  conn_memory.push_back(c);
  sim::ev("disconnect");
}
void Server::closeAll()
{
  while (!connections_.empty())
    drop(connections_.begin()->second);
}
bool Server::poll()
{
  runExecutables();
  if (terminate_)
    return false;
  round_++;
  auto has = [](ConnState* c) { return !c->events.empty(); };
  sim::wait_until(
      [&] {
        if (terminate_ || !pending_.empty())
          return true;
        for (auto c : WEB->conns)
          if (has(c))
            return true;
        return false;
      },
      SEC);
  const int batch = 1 + int(sim::choose(4));
  for (int k = 0; k < batch; k++)
  {
    ConnState* st = nullptr;
    WebEvent e;
    {
      sim::Quiet q;
      std::vector<ConnState*> can;
      for (auto c : WEB->conns)
        if (has(c) && (c->events.front().kind == 0 || c->events.front().kind == 5 || c->round < round_))
          can.push_back(c);
      if (can.empty())
        break;
      st = can[sim::choose(can.size())];
      e = st->events.front();
      st->events.pop_front();
      if (st->gone)
        continue;
    }
    Conn* c = connections_.count(st->id) ? connections_[st->id] : nullptr;
    if (e.kind == 0)
    {
      void* mem;
      {
        sim::Quiet q;
        if (!conn_memory.empty() && sim::flip(3, 4))
        {
          mem = conn_memory.back();
          conn_memory.pop_back();
          sim::probe("connection-memory-reused");
        }
        else
          mem = malloc(sizeof(Conn));
        st->accepted = true;
        st->round = round_;
      }
      connections_[st->id] = new (mem) Conn(this, st);
    }
    else if (e.kind == 5)
    {
      PageRequest r;
      r.uri = e.text;
      std::shared_ptr<Response> res;
      for (auto& h : page_handlers_)
        if (!res)
          res = h->handle(r);
      sim::Quiet q;
      WEB->pages++;
      if (res && nlohmann::json::parse(res->payload, nullptr, false).is_discarded())
        vio({ "C19" }, "the answer to %s is no JSON", e.text.c_str());
      if (!res && e.text == "/json/version")
        vio({ "C19" }, "the server does not answer %s", e.text.c_str());
    }
    else if (c == nullptr)
      continue;
    else if (e.kind == 1)
    {
      auto h = ws_handlers_.find(st->endpoint);
      if (h == ws_handlers_.end())
      {
        vio({ "C19" }, "no handler for %s", st->endpoint.c_str());
        continue;
      }
      c->handler = h->second;
      {
        sim::Quiet q;
        st->open = true;
        SW->conn = st->id;
        sim::ev("connect");
      }
      sim::Deadline d("C19", "the web server handling a connect", 60 * SEC);
      c->handler->onConnect(c);
      sim::Quiet q;
      SW->conn = -1;
    }
    else if (e.kind == 4)
      drop(c);
    else if (c->shut || !c->handler)
      continue;
    else if (e.kind == 2)
      c->handler->onData(c, e.text.c_str());
    else
      c->handler->onData(c, reinterpret_cast<const uint8_t*>(e.text.data()), e.text.size());
  }
  return true;
}
void Server::loop()
{
  thread_ = std::this_thread::get_id();
  if (!listening_)
    return;
  while (poll())
  {
  }
  closeAll();
}
}  // namespace seasocks

namespace
{
ConnState* web_connect(const char* who)
{
  auto c = new ConnState;
  c->id = int(WEB->conns.size());
  c->endpoint = sim::flip(1, 3) ? "/devtools/browser" : "/devtools/page/bar";
  c->front.prop = "C19";
  c->front.prop2 = "C18";
  c->front.name = std::string(who) + " connection " + std::to_string(c->id);
  c->front.conn = c->id;
  WEB->conns.push_back(c);
  WebEvent e;
  e.kind = 0;
  c->events.push_back(e);
  e.kind = 1;
  c->events.push_back(e);
  return c;
}
void web_send(ConnState* c, const Cmd& cmd)
{
  WebEvent e;
  e.kind = 2;
  e.text = cmd.text.c_str();
  if (cmd.kind)
    c->front.expect.push_back(cmd);
  c->events.push_back(e);
  sim::ev("message");
}
void web_close(ConnState* c)
{
  WebEvent e;
  e.kind = 4;
  c->events.push_back(e);
}
}  // namespace
