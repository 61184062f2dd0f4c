// Part E: the simulated kernel: descriptors, unix sockets, pipes, files, processes.
enum FK : uint8_t
{
  K_SOCK,    // fresh socket
  K_LISTEN,
  K_STREAM,
  K_PIPE_R,
  K_PIPE_W,
  K_DISK,
  K_FOREIGN  // belongs to code outside the system under test
};
struct Chan
{
  Vec<uint8_t> d;
  size_t head = 0;
  size_t cap = 212992;
  bool wclosed = false;  // writer gone or shut down
  bool rclosed = false;  // reader gone
  int writers = 0, readers = 0;
  bool oob = false;      // there is urgent data,
  size_t oob_after = 0;  // after this many bytes
  VC hb;
  size_t used() const { return d.size() - head; }
};
struct Node  // a simulated regular file
{
  Str data;
};
struct File
{
  FK kind = K_SOCK;
  int refs = 1;
  bool nonblock = false;
  Chan* in = nullptr;
  Chan* out = nullptr;
  Str name;          // bound abstract name (or inherited)
  bool bound = false;
  bool shut = false;  // listener shut down
  bool accepted = false;
  bool embryo = false;
  Vec<File*> backlog;
  size_t backlog_cap = 0;
  File* peer = nullptr;
  int so_error = 0;
  uint64_t inode = 0;
  int64_t rcvtimeo = 0, sndtimeo = 0;
  int peer_pid = 0;
  Proc* creator = nullptr;
  Node* node = nullptr;
  size_t pos = 0;
  bool rd = true, wr = true, append = false;
  FILE* stream = nullptr;
};
static const int FD_FIRST = 100;
static const int FD_LIMIT = 1100;
static size_t sockbuf = 212992;
static int backlog_limit = 4096;
static uint64_t next_inode = 235190;
static Vec<File*>* allfiles;
static OMap<Str, Node*>* disk;
static Vec<Str>* netnoise;
static sim::ExecHandler* exec_handler;

static Chan* mk_chan()
{
  Chan* c = new (core_alloc(sizeof(Chan))) Chan;
  vc_zero(c->hb);
  c->cap = sockbuf;
  return c;
}
static File* mk_file(FK k)
{
  File* f = new (core_alloc(sizeof(File))) File;
  f->kind = k;
  f->inode = next_inode++;
  f->creator = me ? me->proc : nullptr;
  allfiles->push_back(f);
  return f;
}
static void file_release(File* f)
{
  if (--f->refs > 0)
    return;
  for (size_t i = 0; i < allfiles->size(); i++)
    if ((*allfiles)[i] == f)
    {
      allfiles->erase(allfiles->begin() + long(i));
      break;
    }
  if (f->kind == K_STREAM)
  {
    bool unread = f->in->used() > 0 || f->embryo;
    f->out->wclosed = true;
    f->in->rclosed = true;
    if (f->peer)
    {
      if (unread)
        f->peer->so_error = ECONNRESET;
      f->peer->peer = nullptr;
      f->peer = nullptr;
    }
  }
  else if (f->kind == K_PIPE_R)
  {
    if (--f->in->readers == 0)
      f->in->rclosed = true;
  }
  else if (f->kind == K_PIPE_W)
  {
    if (--f->out->writers == 0)
      f->out->wclosed = true;
  }
  else if (f->kind == K_LISTEN)
  {
    auto b = f->backlog;
    f->backlog.clear();
    for (auto e : b)
      file_release(e);
  }
  f->shut = true;
}
static int fd_install(Proc* p, File* f, bool cloexec, int from = FD_FIRST)
{
  const bool any = from == FD_FIRST;
  if (from < p->fd_base)
    from = p->fd_base;
  if (p->fds.size() < size_t(FD_LIMIT))
  {
    p->fds.resize(FD_LIMIT, nullptr);
    p->cloexec.resize(FD_LIMIT, 0);
    p->fd_ever.resize(FD_LIMIT, 0);
  }
  for (int i = any && p->stdin_closed && !p->fds[0] ? 0 : from; i < p->fd_limit && i < FD_LIMIT; i++)
    if (!p->fds[size_t(i)])
    {
      p->fd_ever[size_t(i)] = 1;
      p->fds[size_t(i)] = f;
      p->cloexec[size_t(i)] = cloexec;
      return i;
    }
  errno = EMFILE;
  return -1;
}
static bool sim_fd(int fd)
{
  if (!me)
    return false;
  if (fd >= FD_FIRST)
    return true;
  return fd >= 0 && size_t(fd) < me->proc->fds.size() && me->proc->fds[size_t(fd)];
}
static File* fd_get(int fd)
{
  Proc* p = me->proc;
  if (fd < 0 || size_t(fd) >= p->fds.size() || !p->fds[size_t(fd)])
  {
    errno = EBADF;
    return nullptr;
  }
  File* f = p->fds[size_t(fd)];
  return f;
}
static File* fd_use(int fd, const char* op)
{
  File* f = fd_get(fd);
  if (f && f->kind == K_FOREIGN && !me->nofault)
    generic_violation("foreign-fd", "%s/%s performs %s on a descriptor number it closed before and which other code in the process "
                                    "has received since; at %s",
                      me->proc->name.c_str(), me->name.c_str(), op, backtrace_str(me, 0).c_str());
  return f;
}
struct Hold
{
  File* f;
  explicit Hold(File* x) : f(x)
  {
    f->refs++;
    me->holds.push_back(f);
  }
  ~Hold()
  {
    me->holds.pop_back();
    file_release(f);
  }
};
static uint64_t kfault(sim::Fault k, uint64_t n = 1)
{
  if (me->nofault || me->quiet)
    return 0;
  return sim::fault_val(k, n);
}
static void sys(uint32_t kind)
{
  R->syscalls++;
  point(kind);
}
static void proc_release_fds(Proc* p)
{
  for (auto& f : p->fds)
    if (f)
    {
      File* x = f;
      f = nullptr;
      file_release(x);
    }
}
static void proc_kill(Proc* p, const char* how)
{
  if (!p->alive)
    return;
  trace("process %s(%d): %s", p->name.c_str(), p->pid, how);
  p->alive = false;
  for (int i = 1; i <= nthreads; i++)
  {
    Thread* t = threads[i];
    if (t->home == p)
      while (!t->holds.empty())
      {
        File* f = t->holds.back();
        t->holds.pop_back();
        file_release(f);
      }
  }
  proc_release_fds(p);
  if (me)
    me->quiet++;
  for (auto f : p->on_kill)
    (*f)();
  if (me)
    me->quiet--;
}
static void sigpipe()
{
  if (me->proc->ign_pipe)
    return;
  if (me->nofault)
    return;
  generic_violation("sigpipe", "process %s dies of SIGPIPE: write to a closed connection by %s at %s", me->proc->name.c_str(),
                    me->name.c_str(), backtrace_str(me, 0).c_str());
}

// ---- readiness ------------------------------------------------------------------------------------------------------------
static bool can_read(File* f)
{
  switch (f->kind)
  {
    case K_LISTEN: return f->shut || !f->backlog.empty();
    case K_STREAM:
    case K_PIPE_R: return f->in->oob || f->in->used() > 0 || f->in->wclosed || f->so_error || f->in->rclosed;
    case K_SOCK: return true;   // select() reports an unconnected socket as hung up
    default: return true;
  }
}
static bool can_write(File* f)
{
  switch (f->kind)
  {
    case K_STREAM:
    case K_PIPE_W: return f->out->rclosed || f->out->wclosed || f->out->used() < f->out->cap || f->so_error;
    case K_LISTEN: return false;
    default: return true;
  }
}
static void chan_put(Chan* c, const uint8_t* p, size_t n)
{
  if (c->head > 4096 && c->head * 2 > c->d.size())
  {
    c->d.erase(c->d.begin(), c->d.begin() + long(c->head));
    c->head = 0;
  }
  c->d.insert(c->d.end(), p, p + n);
  release_join(c->hb);
}
static int64_t timeo(int64_t t) { return t ? g_now + t : INT64_MAX; }

static ssize_t do_read(File* f, void* buf, size_t n, int flags)
{
  if (f->kind == K_DISK)
  {
    size_t left = f->pos < f->node->data.size() ? f->node->data.size() - f->pos : 0;
    if (n > left)
      n = left;
    memcpy(buf, f->node->data.data() + f->pos, n);
    f->pos += n;
    return ssize_t(n);
  }
  if (f->kind == K_SOCK || f->kind == K_LISTEN)
  {
    errno = f->kind == K_SOCK ? EINVAL : EINVAL;
    return -1;
  }
  if (f->kind == K_PIPE_W)
  {
    errno = EBADF;
    return -1;
  }
  if (n == 0)
    return 0;
  size_t got = 0;
  uint8_t* out = (uint8_t*)buf;
  for (;;)
  {
    if (f->in->used() == 0)
    {
      f->in->oob = false;  // passed over
      if (f->so_error && !f->in->rclosed)
      {
        if (got)
          return ssize_t(got);
        errno = f->so_error;
        f->so_error = 0;
        return -1;
      }
      if (f->in->wclosed || f->in->rclosed)
        return ssize_t(got);
      if (got && !(flags & MSG_WAITALL))
        return ssize_t(got);
      if (f->nonblock || (flags & MSG_DONTWAIT))
      {
        if (got)
          return ssize_t(got);
        errno = EAGAIN;
        return -1;
      }
      Hold h(f);
      bool ok = block_until([f] { return f->in->used() > 0 || f->in->wclosed || f->in->rclosed || f->so_error; }, timeo(f->rcvtimeo),
                            W_IO, (uintptr_t)f);
      if (!ok)
      {
        if (got)
          return ssize_t(got);
        errno = EAGAIN;
        return -1;
      }
      if (kfault(sim::F_EINTR_READ))
      {
        if (got)
          return ssize_t(got);
        errno = EINTR;
        return -1;
      }
      continue;
    }
    size_t k = f->in->used();
    if (k > n - got)
      k = n - got;
    bool stop = false;
    if (k > 1)
      if (uint64_t v = kfault(sim::F_SHORT_READ, 64))
      {
        k = v >= 33 ? k - 1 - (v - 33) % (k > 4 ? 4 : k - 1) : (v < k ? v : k - 1);
        if (k == 0)
          k = 1;
        stop = true;
      }
    memcpy(out + got, f->in->d.data() + f->in->head, k);
    if (!(flags & MSG_PEEK))
    {
      f->in->head += k;
      if (f->in->oob && k > f->in->oob_after)
        f->in->oob = false;
      f->in->oob_after -= k < f->in->oob_after ? k : f->in->oob_after;
    }
    acquire(f->in->hb);
    got += k;
    if (got == n || stop || (flags & MSG_PEEK) || !(flags & MSG_WAITALL))
      return ssize_t(got);
  }
}
static ssize_t do_write(File* f, const void* buf, size_t n, int flags)
{
  if (f->kind == K_DISK)
  {
    if (!f->wr)
    {
      errno = EBADF;
      return -1;
    }
    if (kfault(sim::F_DISK_FULL))
    {
      errno = ENOSPC;
      return -1;
    }
    if (n > 1)
      if (uint64_t v = kfault(sim::F_DISK_SHORT, 1000))
        n = 1 + (n - 1) * v / 1001;
    if (f->append)
      f->pos = f->node->data.size();
    if (f->node->data.size() < f->pos + n)
      f->node->data.resize(f->pos + n);
    memcpy(&f->node->data[f->pos], buf, n);
    f->pos += n;
    return ssize_t(n);
  }
  if (f->kind == K_SOCK || f->kind == K_LISTEN)
  {
    errno = ENOTCONN;
    return -1;
  }
  if (f->kind == K_PIPE_R)
  {
    errno = EBADF;
    return -1;
  }
  if (kfault(sim::F_EINTR_SEND))
  {
    errno = EINTR;
    return -1;
  }
  bool shrt = false;
  if (n > 1)
    if (uint64_t v = kfault(sim::F_SHORT_SEND, 64))
    {
      n = v < n ? v : n - 1;
      shrt = true;
    }
  const uint8_t* p = (const uint8_t*)buf;
  size_t done = 0;
  while (done < n)
  {
    if (f->out->rclosed || f->out->wclosed)
    {
      if (done)
        return ssize_t(done);
      if (!(flags & MSG_NOSIGNAL))
        sigpipe();
      errno = EPIPE;
      return -1;
    }
    size_t room = f->out->used() < f->out->cap ? f->out->cap - f->out->used() : 0;
    if (!room)
    {
      if (f->nonblock || (flags & MSG_DONTWAIT))
      {
        if (done)
          return ssize_t(done);
        errno = EAGAIN;
        return -1;
      }
      Hold h(f);
      bool ok = block_until([f] { return f->out->rclosed || f->out->wclosed || f->out->used() < f->out->cap; }, timeo(f->sndtimeo), W_IO,
                            (uintptr_t)f);
      if (!ok)
      {
        if (done)
          return ssize_t(done);
        errno = EAGAIN;
        return -1;
      }
      continue;
    }
    size_t k = n - done < room ? n - done : room;
    bool frag = false;
    if (k > 1)
      if (uint64_t v = kfault(sim::F_FRAG_SEND, 64))
      {
        k = v < k ? v : (k + 1) / 2;
        frag = true;
      }
    chan_put(f->out, p + done, k);
    done += k;
    if (frag && done < n)
    {
      Hold h(f);
      point(60);
    }
  }
  (void)shrt;
  return ssize_t(done);
}

static Str sock_name(const struct sockaddr* a, socklen_t len)
{
  const struct sockaddr_un* u = (const struct sockaddr_un*)a;
  if (len <= sizeof(sa_family_t))
    return Str();
  size_t n = len - sizeof(sa_family_t);
  if (u->sun_path[0] == 0)
    return Str(u->sun_path, n);  // abstract: leading NUL and exact length count
  return Str(u->sun_path, strnlen(u->sun_path, n));
}
static File* find_listener(const Str& name)
{
  for (auto f : *allfiles)
    if (f->bound && f->name == name && f->kind == K_LISTEN && !f->shut)
      return f;
  return nullptr;
}
static bool name_taken(const Str& name)
{
  for (auto f : *allfiles)
    if (f->bound && f->name == name && !f->accepted)
      return true;
  return false;
}
static Str proc_net_unix()
{
  Str s = "Num       RefCount Protocol Flags    Type St Inode Path\n";
  char b[200];
  size_t noise = 0;
  for (auto f : *allfiles)
  {
    if (f->kind != K_SOCK && f->kind != K_LISTEN && f->kind != K_STREAM)
      continue;
    if (noise < netnoise->size())
      s += (*netnoise)[noise++] + "\n";
    bool listen = f->kind == K_LISTEN;
    snprintf(b, sizeof b, "0000000000000000: %08X 00000000 %08X 0001 %02X %5llu", listen ? 2 : 3, listen ? 0x10000 : 0,
             f->kind == K_STREAM ? 3 : 1, f->embryo ? 0ULL : (unsigned long long)f->inode);
    s += b;
    if (!f->name.empty())
    {
      s += ' ';
      for (char c : f->name)
        s += c == 0 ? '@' : c;
    }
    s += '\n';
  }
  while (noise < netnoise->size())
    s += (*netnoise)[noise++] + "\n";
  return s;
}

extern "C" {
int socket(int dom, int type, int) noexcept
{
  if (!me)
  {
    errno = EPERM;
    return -1;
  }
  sys(30);
  if (dom != AF_UNIX || (type & 15) != SOCK_STREAM)
    finish(3, "", "unsupported", "socket type");
  if (kfault(sim::F_SOCKET_FAIL))
  {
    errno = EMFILE;
    return -1;
  }
  File* f = mk_file(K_SOCK);
  f->nonblock = type & SOCK_NONBLOCK;
  int fd = fd_install(me->proc, f, type & SOCK_CLOEXEC);
  trace("socket -> %d", fd);
  return fd;
}
static void stream_pair(File* a, File* b)
{
  a->kind = b->kind = K_STREAM;
  a->out = b->in = mk_chan();
  a->in = b->out = mk_chan();
  a->peer = b;
  b->peer = a;
}
int socketpair(int dom, int type, int, int sv[2]) noexcept
{
  if (!me || dom != AF_UNIX || (type & 15) != SOCK_STREAM)
  {
    errno = EPERM;
    return -1;
  }
  sys(30);
  if (kfault(sim::F_SOCKET_FAIL))
  {
    errno = EMFILE;
    return -1;
  }
  File *a = mk_file(K_STREAM), *b = mk_file(K_STREAM);
  stream_pair(a, b);
  a->nonblock = b->nonblock = type & SOCK_NONBLOCK;
  sv[0] = fd_install(me->proc, a, type & SOCK_CLOEXEC);
  sv[1] = fd_install(me->proc, b, type & SOCK_CLOEXEC);
  return 0;
}
int bind(int fd, const struct sockaddr* a, socklen_t len) noexcept
{
  sys(31);
  File* f = fd_use(fd, "bind");
  if (!f)
    return -1;
  Str n = sock_name(a, len);
  if (f->bound)
  {
    errno = EINVAL;
    return -1;
  }
  if (kfault(sim::F_BIND_FAIL) || name_taken(n))
  {
    errno = EADDRINUSE;
    return -1;
  }
  f->bound = true;
  f->name = n;
  return 0;
}
int listen(int fd, int n) noexcept
{
  sys(32);
  File* f = fd_use(fd, "listen");
  if (!f)
    return -1;
  if (kfault(sim::F_LISTEN_FAIL))
  {
    errno = ENOBUFS;
    return -1;
  }
  if (!f->bound || (f->kind != K_SOCK && f->kind != K_LISTEN))
  {
    errno = EINVAL;
    return -1;
  }
  f->kind = K_LISTEN;
  f->backlog_cap = size_t(n < 0 ? 0 : n > backlog_limit ? backlog_limit : n) + 1;
  return 0;
}
int connect(int fd, const struct sockaddr* a, socklen_t len)
{
  sys(33);
  File* f = fd_use(fd, "connect");
  if (!f)
    return -1;
  Str n = sock_name(a, len);
  if (f->kind == K_STREAM)
  {
    errno = EISCONN;
    return -1;
  }
  if (kfault(sim::F_CONNECT_FAIL))
  {
    errno = ECONNREFUSED;
    return -1;
  }
  for (;;)
  {
    File* l = find_listener(n);
    if (!l)
    {
      errno = ECONNREFUSED;
      return -1;
    }
    if (l->backlog.size() < l->backlog_cap)
    {
      File* s = mk_file(K_STREAM);
      s->creator = l->creator;
      stream_pair(f, s);
      s->embryo = true;
      s->accepted = true;
      s->name = l->name;
      s->bound = true;
      s->peer_pid = me->proc->pid;
      f->peer_pid = l->creator ? l->creator->pid : 0;
      l->backlog.push_back(s);
      trace("connect %d", fd);
      return 0;
    }
    if (f->nonblock)
    {
      errno = EAGAIN;
      return -1;
    }
    Hold h(f), h2(l);
    block_until([l] { return l->shut || l->backlog.size() < l->backlog_cap; }, timeo(f->sndtimeo), W_IO, (uintptr_t)l);
  }
}
static int accept_impl(int fd, struct sockaddr* a, socklen_t* len, int flags)
{
  sys(34);
  File* f = fd_use(fd, "accept");
  if (!f)
    return -1;
  if (f->kind != K_LISTEN)
  {
    errno = EINVAL;
    return -1;
  }
  if (kfault(sim::F_EINTR_ACCEPT))
  {
    errno = EINTR;
    return -1;
  }
  if (uint64_t v = kfault(sim::F_ACCEPT_FAIL, 2))
  {
    if (v == 2 && !f->backlog.empty())
    {
      // the peer's connection is aborted
      File* s = f->backlog.front();
      f->backlog.erase(f->backlog.begin());
      file_release(s);
      errno = ECONNABORTED;
    }
    else
      errno = EMFILE;
    return -1;
  }
  while (f->backlog.empty())
  {
    if (f->shut)
    {
      errno = EINVAL;
      return -1;
    }
    if (f->nonblock)
    {
      errno = EAGAIN;
      return -1;
    }
    Hold h(f);
    block_until([f] { return f->shut || !f->backlog.empty(); }, timeo(f->rcvtimeo), W_IO, (uintptr_t)f);
    if (f->backlog.empty() && f->rcvtimeo)
    {
      errno = EAGAIN;
      return -1;
    }
  }
  File* s = f->backlog.front();
  f->backlog.erase(f->backlog.begin());
  s->embryo = false;
  s->creator = me->proc;
  s->nonblock = flags & SOCK_NONBLOCK;
  if (a && len && *len >= sizeof(sa_family_t))
  {
    a->sa_family = AF_UNIX;
    *len = sizeof(sa_family_t);
  }
  int n = fd_install(me->proc, s, flags & SOCK_CLOEXEC);
  if (n < 0)
    file_release(s);
  trace("accept %d -> %d", fd, n);
  return n;
}
int accept(int fd, struct sockaddr* a, socklen_t* len) { return accept_impl(fd, a, len, 0); }
int accept4(int fd, struct sockaddr* a, socklen_t* len, int flags) { return accept_impl(fd, a, len, flags); }

static void acc_r(const void* p, size_t n) { access((uintptr_t)p, n, false, false, RA); }
static void acc_w(const void* p, size_t n) { access((uintptr_t)p, n, true, false, RA); }

ssize_t read(int fd, void* b, size_t n)
{
  if (!sim_fd(fd))
  {
    long r = raw_syscall6(SYS_read, fd, (long)b, (long)n, 0, 0, 0);
    if (r < 0)
    {
      errno = int(-r);
      return -1;
    }
    return r;
  }
  sys(35);
  File* f = fd_use(fd, "read");
  if (!f)
    return -1;
  Hold h(f);
  ssize_t r = do_read(f, b, n, 0);
  if (r > 0)
    acc_w(b, size_t(r));
  int e = errno;
  trace("read %d %zu -> %zd", fd, n, r);
  errno = e;
  return r;
}
ssize_t recv(int fd, void* b, size_t n, int flags)
{
  sys(35);
  File* f = fd_use(fd, "recv");
  if (!f)
    return -1;
  Hold h(f);
  ssize_t r = do_read(f, b, n, flags);
  if (r > 0)
    acc_w(b, size_t(r));
  int e = errno;
  trace("recv %d %zu -> %zd", fd, n, r);
  errno = e;
  return r;
}
ssize_t recvfrom(int fd, void* b, size_t n, int flags, struct sockaddr*, socklen_t*) { return recv(fd, b, n, flags); }
ssize_t write(int fd, const void* b, size_t n)
{
  if (!sim_fd(fd))
  {
    long r = raw_syscall6(SYS_write, fd, (long)b, (long)n, 0, 0, 0);
    if (r < 0)
    {
      errno = int(-r);
      return -1;
    }
    return r;
  }
  sys(36);
  File* f = fd_use(fd, "write");
  if (!f)
    return -1;
  Hold h(f);
  acc_r(b, n);
  ssize_t r = do_write(f, b, n, 0);
  int e = errno;
  trace("write %d %zu -> %zd", fd, n, r);
  errno = e;
  return r;
}
ssize_t send(int fd, const void* b, size_t n, int flags)
{
  sys(36);
  File* f = fd_use(fd, "send");
  if (!f)
    return -1;
  if (f->kind == K_DISK || f->kind == K_PIPE_R || f->kind == K_PIPE_W)
  {
    errno = ENOTSOCK;
    return -1;
  }
  Hold h(f);
  acc_r(b, n);
  ssize_t r = do_write(f, b, n, flags);
  int e = errno;
  trace("send %d %zu -> %zd", fd, n, r);
  errno = e;
  return r;
}
ssize_t sendto(int fd, const void* b, size_t n, int flags, const struct sockaddr*, socklen_t) { return send(fd, b, n, flags); }
static ssize_t iov_write(int fd, const struct iovec* v, size_t cnt, int flags, bool sock)
{
  sys(36);
  File* f = fd_use(fd, "write");
  if (!f)
    return -1;
  if (sock && f->kind == K_DISK)
  {
    errno = ENOTSOCK;
    return -1;
  }
  Hold h(f);
  Vec<uint8_t> all;
  for (size_t i = 0; i < cnt; i++)
  {
    acc_r(v[i].iov_base, v[i].iov_len);
    const uint8_t* p = (const uint8_t*)v[i].iov_base;
    all.insert(all.end(), p, p + v[i].iov_len);
  }
  return do_write(f, all.data(), all.size(), flags);
}
static ssize_t iov_read(int fd, const struct iovec* v, size_t cnt, int flags)
{
  sys(35);
  File* f = fd_use(fd, "read");
  if (!f)
    return -1;
  Hold h(f);
  size_t tot = 0;
  for (size_t i = 0; i < cnt; i++)
    tot += v[i].iov_len;
  Vec<uint8_t> all(tot);
  ssize_t r = do_read(f, all.data(), tot, flags);
  if (r > 0)
  {
    size_t off = 0;
    for (size_t i = 0; i < cnt && off < size_t(r); i++)
    {
      size_t k = v[i].iov_len < size_t(r) - off ? v[i].iov_len : size_t(r) - off;
      memcpy(v[i].iov_base, all.data() + off, k);
      acc_w(v[i].iov_base, k);
      off += k;
    }
  }
  return r;
}
ssize_t writev(int fd, const struct iovec* v, int cnt)
{
  if (!sim_fd(fd))
    return (ssize_t)raw_syscall6(SYS_writev, fd, (long)v, cnt, 0, 0, 0);
  return iov_write(fd, v, size_t(cnt), 0, false);
}
ssize_t readv(int fd, const struct iovec* v, int cnt)
{
  if (!sim_fd(fd))
    return (ssize_t)raw_syscall6(SYS_readv, fd, (long)v, cnt, 0, 0, 0);
  return iov_read(fd, v, size_t(cnt), 0);
}
ssize_t sendmsg(int fd, const struct msghdr* m, int flags) { return iov_write(fd, m->msg_iov, m->msg_iovlen, flags, true); }
ssize_t recvmsg(int fd, struct msghdr* m, int flags) { return iov_read(fd, m->msg_iov, m->msg_iovlen, flags); }

int close(int fd)
{
  if (!sim_fd(fd))
  {
    if (me)
    {
      // descriptors of the simulator itself are not the program's to close
      if (fd >= 0 && size_t(fd) < me->proc->fd_ever.size() && me->proc->fd_ever[size_t(fd)] && !me->nofault)
        generic_violation("double-close", "%s/%s closes a descriptor that is already closed; at %s", me->proc->name.c_str(), me->name.c_str(),
                          backtrace_str(me, 0).c_str());
      if (fd >= 0 && fd < FD_FIRST)
        trace("close(%d) ignored", fd);
      errno = EBADF;
      return fd >= 0 && fd <= 2 ? 0 : -1;
    }
    return (int)raw_syscall6(SYS_close, fd, 0, 0, 0, 0, 0);
  }
  sys(37);
  File* f = fd_use(fd, "close");
  if (!f)
  {
    if (fd >= 0 && size_t(fd) < me->proc->fd_ever.size() && me->proc->fd_ever[size_t(fd)] && !me->nofault)
      generic_violation("double-close", "%s/%s closes a descriptor that is already closed; at %s", me->proc->name.c_str(), me->name.c_str(),
                        backtrace_str(me, 0).c_str());
    return -1;
  }
  trace("close %d", fd);
  Proc* p = me->proc;
  p->fds[size_t(fd)] = nullptr;
  file_release(f);
  if (kfault(sim::F_FD_THEFT))
  {
    // some other thread of this process opens a file right now and is given this number
    File* x = mk_file(K_FOREIGN);
    p->fds[size_t(fd)] = x;
    p->cloexec[size_t(fd)] = 1;
  }
  point(38);
  return 0;
}
int shutdown(int fd, int how) noexcept
{
  sys(39);
  File* f = fd_use(fd, "shutdown");
  if (!f)
    return -1;
  if (f->kind == K_LISTEN)
  {
    f->shut = true;
    return 0;
  }
  if (f->kind != K_STREAM)
  {
    errno = ENOTCONN;
    return -1;
  }
  if (how == SHUT_RD || how == SHUT_RDWR)
    f->in->rclosed = true, f->in->wclosed = true;
  if (how == SHUT_WR || how == SHUT_RDWR)
    f->out->wclosed = true;
  return 0;
}

// ---- waiting for readiness -----------------------------------------------------------------------------------------------------
static int select_impl(int nfds, fd_set* r, fd_set* w, fd_set* e, int64_t timeout)
{
  sys(40);
  if (nfds > FD_SETSIZE)
    generic_violation("fd-set-overflow", "%s/%s uses a descriptor beyond FD_SETSIZE with select, FD_SET wrote out of bounds; at %s",
                      me->proc->name.c_str(), me->name.c_str(), backtrace_str(me, 0).c_str());
  fd_set zero;
  FD_ZERO(&zero);
  fd_set ri = r ? *r : zero, wi = w ? *w : zero, ei = e ? *e : zero;
  Vec<std::pair<int, File*>> watch;
  for (int i = 0; i < nfds && i < FD_SETSIZE; i++)
    if (FD_ISSET(i, &ri) || FD_ISSET(i, &wi) || FD_ISSET(i, &ei))
    {
      File* f = fd_use(i, "select");
      if (!f)
      {
        errno = EBADF;
        return -1;
      }
      watch.push_back({ i, f });
    }
  if (kfault(sim::F_EINTR_SELECT))
  {
    point(41);
    errno = EINTR;
    return -1;
  }
  int64_t deadline = timeout < 0 ? INT64_MAX : g_now + timeout;
  auto ready = [&] {
    for (auto& x : watch)
      if ((FD_ISSET(x.first, &ri) && can_read(x.second)) || (FD_ISSET(x.first, &wi) && can_write(x.second)) ||
          (FD_ISSET(x.first, &ei) && x.second->in && x.second->in->oob))
        return true;
    return false;
  };
  if (!ready() && timeout != 0)
  {
    for (auto& x : watch)
    {
      x.second->refs++;
      me->holds.push_back(x.second);
    }
    block_until(ready, deadline, W_IO, 0);
    for (size_t i = 0; i < watch.size(); i++)
    {
      File* f = me->holds.back();
      me->holds.pop_back();
      file_release(f);
    }
  }
  fd_set ro = zero, wo = zero, eo = zero;
  int n = 0;
  for (auto& x : watch)
  {
    // the file may have been released by another thread meanwhile, but then it is no longer of interest
    bool live = x.second->refs > 0;
    if (!live)
      continue;
    if (FD_ISSET(x.first, &ri) && can_read(x.second))
      FD_SET(x.first, &ro), n++;
    if (FD_ISSET(x.first, &wi) && can_write(x.second))
      FD_SET(x.first, &wo), n++;
    if (FD_ISSET(x.first, &ei) && x.second->in && x.second->in->oob)
      FD_SET(x.first, &eo), n++;
  }
  if (r)
    *r = ro;
  if (w)
    *w = wo;
  if (e)
    *e = eo;
  hmix(uint64_t(n));
  return n;
}
int select(int nfds, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv)
{
  int64_t t = tv ? tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL : -1;
  int64_t start = g_now;
  int n = select_impl(nfds, r, w, e, t);
  if (tv)
  {
    int64_t left = t - (g_now - start);
    if (left < 0)
      left = 0;
    int en = errno;
    tv->tv_sec = left / 1000000000;
    tv->tv_usec = left % 1000000000 / 1000;
    errno = en;
  }
  return n;
}
int pselect(int nfds, fd_set* r, fd_set* w, fd_set* e, const struct timespec* ts, const sigset_t*)
{
  return select_impl(nfds, r, w, e, ts ? ts->tv_sec * 1000000000LL + ts->tv_nsec : -1);
}
static int poll_impl(struct pollfd* p, nfds_t n, int64_t timeout)
{
  sys(40);
  Vec<File*> fs;
  for (nfds_t i = 0; i < n; i++)
    fs.push_back(p[i].fd >= 0 ? fd_use(p[i].fd, "poll") : nullptr);
  if (kfault(sim::F_EINTR_SELECT))
  {
    point(41);
    errno = EINTR;
    return -1;
  }
  auto ev1 = [&](nfds_t i) -> short {
    if (p[i].fd < 0)
      return 0;
    File* f = fs[i];
    if (!f)
      return POLLNVAL;
    short e = 0;
    if ((p[i].events & (POLLIN | POLLRDNORM)) && can_read(f))
      e |= POLLIN;
    if ((p[i].events & (POLLOUT | POLLWRNORM)) && can_write(f))
      e |= POLLOUT;
    if ((p[i].events & POLLPRI) && f->in && f->in->oob)
      e |= POLLPRI;
    if (f->in && f->in->wclosed && (f->kind == K_PIPE_R || (f->out && (f->out->wclosed || f->out->rclosed))))
      e |= POLLHUP;
    if (f->in && f->in->wclosed && (p[i].events & POLLRDHUP))
      e |= POLLRDHUP;
    if (f->so_error || (f->kind == K_PIPE_W && f->out->rclosed))
      e |= POLLERR;
    if (f->kind == K_LISTEN && f->shut)
      e |= POLLHUP;
    return e;
  };
  auto ready = [&] {
    for (nfds_t i = 0; i < n; i++)
      if (ev1(i))
        return true;
    return false;
  };
  if (!ready() && timeout != 0)
  {
    size_t held = 0;
    for (auto f : fs)
      if (f)
      {
        f->refs++;
        me->holds.push_back(f);
        held++;
      }
    block_until(ready, timeout < 0 ? INT64_MAX : g_now + timeout, W_IO, 0);
    int cnt = 0;
    for (nfds_t i = 0; i < n; i++)
    {
      p[i].revents = ev1(i);
      cnt += p[i].revents != 0;
    }
    while (held--)
    {
      File* f = me->holds.back();
      me->holds.pop_back();
      file_release(f);
    }
    return cnt;
  }
  int cnt = 0;
  for (nfds_t i = 0; i < n; i++)
  {
    p[i].revents = ev1(i);
    cnt += p[i].revents != 0;
  }
  return cnt;
}
int poll(struct pollfd* p, nfds_t n, int ms)
{
  if (!me)
    return (int)raw_syscall6(SYS_poll, (long)p, (long)n, ms, 0, 0, 0);
  return poll_impl(p, n, ms < 0 ? -1 : ms * 1000000LL);
}
int ppoll(struct pollfd* p, nfds_t n, const struct timespec* ts, const sigset_t*)
{
  return poll_impl(p, n, ts ? ts->tv_sec * 1000000000LL + ts->tv_nsec : -1);
}

// ---- miscellaneous descriptor operations -------------------------------------------------------------------------------------------
int fcntl(int fd, int cmd, ...)
{
  va_list ap;
  va_start(ap, cmd);
  long a = va_arg(ap, long);
  va_end(ap);
  if (!sim_fd(fd))
  {
    long r = raw_syscall6(SYS_fcntl, fd, cmd, a, 0, 0, 0);
    if (r < 0)
    {
      errno = int(-r);
      return -1;
    }
    return int(r);
  }
  sys(42);
  File* f = fd_use(fd, "fcntl");
  if (!f)
    return -1;
  switch (cmd)
  {
    case F_GETFL: return (f->nonblock ? O_NONBLOCK : 0) | (f->kind == K_PIPE_R ? O_RDONLY : f->kind == K_PIPE_W ? O_WRONLY : O_RDWR);
    case F_SETFL: f->nonblock = a & O_NONBLOCK; return 0;
    case F_GETFD: return me->proc->cloexec[size_t(fd)] ? FD_CLOEXEC : 0;
    case F_SETFD: me->proc->cloexec[size_t(fd)] = a & FD_CLOEXEC; return 0;
    case F_DUPFD:
    case F_DUPFD_CLOEXEC:
      f->refs++;
      return fd_install(me->proc, f, cmd == F_DUPFD_CLOEXEC, a < FD_FIRST ? FD_FIRST : int(a));
    default: return 0;
  }
}
int fcntl64(int fd, int cmd, ...)
{
  va_list ap;
  va_start(ap, cmd);
  long a = va_arg(ap, long);
  va_end(ap);
  return fcntl(fd, cmd, a);
}
int ioctl(int fd, unsigned long req, ...) noexcept
{
  va_list ap;
  va_start(ap, req);
  void* a = va_arg(ap, void*);
  va_end(ap);
  if (!sim_fd(fd))
    return (int)raw_syscall6(SYS_ioctl, fd, (long)req, (long)a, 0, 0, 0);
  File* f = fd_use(fd, "ioctl");
  if (!f)
    return -1;
  if (req == FIONREAD)
  {
    *(int*)a = f->in ? int(f->in->used()) : f->kind == K_DISK ? int(f->node->data.size() - f->pos) : 0;
    return 0;
  }
  if (req == FIONBIO)
  {
    f->nonblock = *(int*)a;
    return 0;
  }
  errno = ENOTTY;
  return -1;
}
int setsockopt(int fd, int level, int opt, const void* v, socklen_t len) noexcept
{
  sys(43);
  File* f = fd_use(fd, "setsockopt");
  if (!f)
    return -1;
  if (level == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && len >= sizeof(struct timeval))
  {
    const struct timeval* tv = (const struct timeval*)v;
    (opt == SO_RCVTIMEO ? f->rcvtimeo : f->sndtimeo) = tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL;
  }
  return 0;
}
int getsockopt(int fd, int level, int opt, void* v, socklen_t* len) noexcept
{
  sys(43);
  File* f = fd_use(fd, "getsockopt");
  if (!f)
    return -1;
  if (level == SOL_SOCKET && opt == SO_PEERCRED && *len >= sizeof(struct ucred))
  {
    struct ucred* u = (struct ucred*)v;
    u->pid = f->peer_pid;
    u->uid = 0;
    u->gid = 0;
    *len = sizeof(struct ucred);
    return 0;
  }
  if (*len >= sizeof(int))
  {
    int x = 0;
    if (level == SOL_SOCKET && opt == SO_ERROR)
    {
      x = f->so_error;
      f->so_error = 0;
    }
    else if (level == SOL_SOCKET && (opt == SO_SNDBUF || opt == SO_RCVBUF))
      x = int(sockbuf);
    else if (level == SOL_SOCKET && opt == SO_ACCEPTCONN)
      x = f->kind == K_LISTEN;
    *(int*)v = x;
    *len = sizeof(int);
  }
  return 0;
}
static int name_out(const Str& n, struct sockaddr* a, socklen_t* len)
{
  struct sockaddr_un u;
  memset(&u, 0, sizeof u);
  u.sun_family = AF_UNIX;
  memcpy(u.sun_path, n.data(), n.size() < sizeof u.sun_path ? n.size() : sizeof u.sun_path);
  socklen_t l = socklen_t(sizeof(sa_family_t) + n.size());
  memcpy(a, &u, *len < l ? *len : l);
  *len = l;
  return 0;
}
int getsockname(int fd, struct sockaddr* a, socklen_t* len) noexcept
{
  File* f = fd_use(fd, "getsockname");
  return f ? name_out(f->name, a, len) : -1;
}
int getpeername(int fd, struct sockaddr* a, socklen_t* len) noexcept
{
  File* f = fd_use(fd, "getpeername");
  if (!f)
    return -1;
  if (f->kind != K_STREAM || !f->peer)
  {
    errno = ENOTCONN;
    return -1;
  }
  return name_out(f->peer->name, a, len);
}
int pipe2(int fds[2], int flags) noexcept
{
  sys(44);
  if (kfault(sim::F_SOCKET_FAIL))
  {
    errno = EMFILE;
    return -1;
  }
  File *r = mk_file(K_PIPE_R), *w = mk_file(K_PIPE_W);
  Chan* c = mk_chan();
  c->cap = 65536;
  c->readers = c->writers = 1;
  r->in = c;
  w->out = c;
  r->nonblock = w->nonblock = flags & O_NONBLOCK;
  fds[0] = fd_install(me->proc, r, flags & O_CLOEXEC);
  fds[1] = fd_install(me->proc, w, flags & O_CLOEXEC);
  return 0;
}
int pipe(int fds[2]) noexcept { return pipe2(fds, 0); }
int dup2(int a, int b) noexcept
{
  sys(45);
  File* f = fd_use(a, "dup2");
  if (!f)
    return -1;
  if (a == b)
    return b;
  Proc* p = me->proc;
  if (b < 0 || b >= FD_LIMIT)
  {
    errno = EBADF;
    return -1;
  }
  File* old = p->fds[size_t(b)];
  f->refs++;
  p->fds[size_t(b)] = f;
  p->cloexec[size_t(b)] = 0;
  if (old)
    file_release(old);
  return b;
}
int dup3(int a, int b, int) noexcept { return dup2(a, b); }
int dup(int a) noexcept
{
  if (!sim_fd(a))
  {
    errno = EBADF;
    return -1;
  }
  sys(45);
  File* f = fd_use(a, "dup");
  if (!f)
    return -1;
  f->refs++;
  return fd_install(me->proc, f, false);
}

// ---- files ---------------------------------------------------------------------------------------------------------------------------
static bool sim_path(const char* p)
{
  return me && p && (strncmp(p, "/sim/", 5) == 0 || strcmp(p, "/proc/net/unix") == 0);
}
static int open_sim(const char* path, int flags)
{
  sys(46);
  if (kfault(sim::F_SOCKET_FAIL))
  {
    errno = EMFILE;
    return -1;
  }
  File* f;
  if (strcmp(path, "/proc/net/unix") == 0)
  {
    f = mk_file(K_DISK);
    f->node = new (core_alloc(sizeof(Node))) Node;
    f->wr = false;
    f->node->data = proc_net_unix();
    if (g_trace)
      trace("/proc/net/unix:\n%s", f->node->data.c_str());
  }
  else
  {
    if (kfault(sim::F_DISK_FULL))
    {
      errno = (flags & O_CREAT) ? ENOSPC : EIO;
      return -1;
    }
    auto it = disk->find(Str(path));
    if (it == disk->end())
    {
      if (!(flags & O_CREAT))
      {
        errno = ENOENT;
        return -1;
      }
      Node* n = new (core_alloc(sizeof(Node))) Node;
      it = disk->emplace(Str(path), n).first;
    }
    f = mk_file(K_DISK);
    f->node = it->second;
    f->wr = (flags & O_ACCMODE) != O_RDONLY;
    f->append = flags & O_APPEND;
    if (flags & O_TRUNC)
      f->node->data.clear();
  }
  return fd_install(me->proc, f, flags & O_CLOEXEC);
}
static int open_real(const char* path, int flags, int mode)
{
  if (me && (flags & O_ACCMODE) != O_RDONLY)
  {
    errno = EROFS;  // simulated code never writes to the real file system
    return -1;
  }
  long r = raw_syscall6(SYS_openat, AT_FDCWD, (long)path, flags, mode, 0, 0);
  if (r < 0)
  {
    errno = int(-r);
    return -1;
  }
  return int(r);
}
int open(const char* path, int flags, ...)
{
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (sim_path(path))
    return open_sim(path, flags);
  return open_real(path, flags, mode);
}
int open64(const char* path, int flags, ...)
{
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (sim_path(path))
    return open_sim(path, flags);
  return open_real(path, flags, mode);
}
static off_t lseek_sim(int fd, off_t o, int wh)
{
  File* f = fd_use(fd, "lseek");
  if (!f)
    return -1;
  if (f->kind != K_DISK)
  {
    errno = ESPIPE;
    return -1;
  }
  int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? int64_t(f->pos) : int64_t(f->node->data.size());
  f->pos = size_t(b + o);
  return off_t(f->pos);
}
off_t lseek(int fd, off_t o, int wh) noexcept { return sim_fd(fd) ? lseek_sim(fd, o, wh) : raw_syscall6(SYS_lseek, fd, o, wh, 0, 0, 0); }
off64_t lseek64(int fd, off64_t o, int wh) noexcept { return sim_fd(fd) ? lseek_sim(fd, o, wh) : raw_syscall6(SYS_lseek, fd, o, wh, 0, 0, 0); }
int fsync(int) { return 0; }
int fdatasync(int) { return 0; }

struct StreamRec
{
  FILE* f;
  int fd;
};
static Vec<StreamRec>* streams;
static ssize_t ck_read(void* c, char* b, size_t n) { return read(int((intptr_t)c), b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n)
{
  ssize_t r = write(int((intptr_t)c), b, n);
  return r < 0 ? 0 : r;
}
static int ck_seek(void* c, off64_t* o, int wh)
{
  off_t r = lseek(int((intptr_t)c), *o, wh);
  if (r < 0)
    return -1;
  *o = r;
  return 0;
}
static int ck_close(void* c)
{
  int fd = int((intptr_t)c);
  for (size_t i = 0; i < streams->size(); i++)
    if ((*streams)[i].fd == fd)
    {
      streams->erase(streams->begin() + long(i));
      break;
    }
  return close(fd);
}
static FILE* mk_stream(int fd, const char* mode)
{
  cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
  FILE* f = fopencookie((void*)(intptr_t)fd, mode, io);
  if (!f)
    return nullptr;
  __fsetlocking(f, FSETLOCKING_BYCALLER);
  for (auto& s : *streams)
    if (s.f == f)
    {
      s.fd = fd;
      return f;
    }
  streams->push_back({ f, fd });
  return f;
}
FILE* fopen(const char* path, const char* mode)
{
  if (sim_path(path))
  {
    int fl = strchr(mode, '+') ? O_RDWR : mode[0] == 'r' ? O_RDONLY : O_WRONLY;
    if (mode[0] == 'w')
      fl |= O_CREAT | O_TRUNC;
    if (mode[0] == 'a')
      fl |= O_CREAT | O_APPEND;
    int fd = open_sim(path, fl);
    if (fd < 0)
      return nullptr;
    return mk_stream(fd, mode);
  }
  if (me && mode[0] != 'r')
  {
    errno = EROFS;
    return nullptr;
  }
  REAL(FILE*, fopen, const char*, const char*)
  return r_fopen(path, mode);
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
FILE* fdopen(int fd, const char* mode) noexcept
{
  if (!sim_fd(fd))
  {
    REAL(FILE*, fdopen, int, const char*)
    return r_fdopen(fd, mode);
  }
  if (!fd_get(fd))
    return nullptr;
  return mk_stream(fd, mode);
}
int fileno(FILE* f) noexcept
{
  if (me)
    for (auto& s : *streams)
      if (s.f == f)
        return s.fd;
  REAL(int, fileno, FILE*)
  return r_fileno(f);
}
int fileno_unlocked(FILE* f) noexcept { return fileno(f); }
int unlink(const char* p) noexcept
{
  if (me && strncmp(p, "/sim/", 5) == 0)
  {
    disk->erase(Str(p));
    return 0;
  }
  errno = EROFS;
  return -1;
}
int rename(const char* a, const char* b) noexcept
{
  if (me && strncmp(a, "/sim/", 5) == 0 && strncmp(b, "/sim/", 5) == 0)
  {
    auto it = disk->find(Str(a));
    if (it == disk->end())
    {
      errno = ENOENT;
      return -1;
    }
    Node* n = it->second;
    disk->erase(it);
    (*disk)[Str(b)] = n;
    return 0;
  }
  errno = EROFS;
  return -1;
}
int remove(const char* p) noexcept { return unlink(p); }

// ---- processes ------------------------------------------------------------------------------------------------------------------------
struct ForkCtx
{
  jmp_buf jb;
  Proc* parent;
  Proc* child;
  uintptr_t lo;
  size_t n;
  void* copy;
  int csd;
  uintptr_t cs[64];
};
int __attribute__((noinline, returns_twice)) fork_body(uintptr_t lo, uintptr_t hi)
{
  ForkCtx* c = (ForkCtx*)core_alloc(sizeof(ForkCtx));
  c->parent = me->proc;
  Proc* ch = mk_proc("child");
  ch->parent = me->proc->pid;
  ch->fds = me->proc->fds;
  ch->cloexec = me->proc->cloexec;
  for (auto f : ch->fds)
    if (f)
      f->refs++;
  c->child = ch;
  c->csd = me->csd;
  memcpy(c->cs, me->cs, sizeof c->cs);
  c->lo = lo;
  c->n = hi - lo;
  c->copy = core_alloc(c->n);
  me->forkctx = c;
  me->quiet++;  // a forked child shares no memory and no schedule with us
  me->proc = ch;
  return 0;
}
pid_t __attribute__((noinline)) fork(void) noexcept
{
  if (!me)
    return (pid_t)raw_syscall6(SYS_fork, 0, 0, 0, 0, 0, 0);
  sys(47);
  if (kfault(sim::F_FORK_FAIL))
  {
    errno = EAGAIN;
    return -1;
  }
  volatile uintptr_t marker = 0;
  uintptr_t lo = ((uintptr_t)__builtin_frame_address(0) - 512) & ~uintptr_t(15);
  uintptr_t hi = me->stack_top;
  if (hi - lo > 65536)
    hi = lo + 65536;
  fork_body(lo, hi);
  ForkCtx* c = (ForkCtx*)me->forkctx;
  if (_setjmp(c->jb) == 0)
  {
    memcpy(c->copy, (void*)lo, c->n);
    (void)marker;
    return 0;
  }
  c = (ForkCtx*)me->forkctx;
  me->forkctx = nullptr;
  me->proc = c->parent;
  me->quiet--;
  me->csd = c->csd;
  memcpy(me->cs, c->cs, sizeof c->cs);
  int pid = c->child->pid;
  trace("fork -> %d", pid);
  point(48);
  return pid;
}
static void __attribute__((noinline, noreturn)) fork_return2(ForkCtx* c)
{
  memcpy((void*)c->lo, c->copy, c->n);
  _longjmp(c->jb, 1);
}
static void __attribute__((noinline, noreturn)) fork_return()
{
  ForkCtx* c = (ForkCtx*)me->forkctx;
  // make room so that the frame doing the copy lies below everything it overwrites
  volatile char* pad = (volatile char*)__builtin_alloca(96 * 1024);
  pad[0] = 0;
  fork_return2(c);
}
struct ExecArgs
{
  std::string file;
  std::vector<std::string> argv;
};
static void proc_exit(Proc* p)
{
  p->exited = true;
  proc_kill(p, "exits");
}
static void* exec_main(void* a)
{
  ExecArgs* e = (ExecArgs*)a;
  me->nofault++;
  if (exec_handler)
    (*exec_handler)(e->file, e->argv);
  proc_exit(me->home);
  reschedule();
  park_forever();
  return nullptr;
}
int execvp(const char* file, char* const argv[]) noexcept
{
  if (!me || !me->forkctx)
    finish(3, "", "unsupported", "exec outside a forked child");
  ForkCtx* c = (ForkCtx*)me->forkctx;
  if (!me->nofault && sim::fault(sim::F_EXEC_FAIL))
  {
    errno = ENOENT;
    return -1;
  }
  ExecArgs* e = new ExecArgs;
  e->file = file;
  for (int i = 0; argv[i]; i++)
    e->argv.push_back(argv[i]);
  Proc* ch = c->child;
  for (size_t i = 0; i < ch->fds.size(); i++)
    if (ch->fds[i] && ch->cloexec[i])
    {
      file_release(ch->fds[i]);
      ch->fds[i] = nullptr;
    }
  ch->name = "x" + Str(file).substr(0, 6);
  mk_thread(ch, "main", exec_main, e);
  fork_return();
}
int execv(const char* f, char* const a[]) noexcept { return execvp(f, a); }
void _exit(int code)
{
  if (me && me->forkctx)
  {
    ForkCtx* c = (ForkCtx*)me->forkctx;
    proc_exit(c->child);
    fork_return();
  }
  if (me)
    generic_violation("exit", "process %s calls _exit", me->proc->name.c_str());
  raw_syscall6(SYS_exit_group, code, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}
void exit(int code) noexcept
{
  if (me)
  {
    if (me->forkctx)
      _exit(code);
    generic_violation("exit", "process %s calls exit", me->proc->name.c_str());
  }
  REAL(void, exit, int)
  r_exit(code);
  __builtin_unreachable();
}
pid_t waitpid(pid_t pid, int* st, int opts)
{
  if (!me)
    return (pid_t)raw_syscall6(SYS_wait4, pid, (long)st, opts, 0, 0, 0);
  sys(49);
  auto find = [&]() -> Proc* {
    for (auto p : *procs)
      if (p->parent == me->proc->pid && !p->reaped && (pid <= 0 || p->pid == pid) && !p->alive)
        return p;
    return nullptr;
  };
  bool any = false;
  for (auto p : *procs)
    if (p->parent == me->proc->pid && !p->reaped && (pid <= 0 || p->pid == pid))
      any = true;
  if (!any)
  {
    errno = ECHILD;
    return -1;
  }
  if (!find())
  {
    if (opts & WNOHANG)
      return 0;
    block_until([&] { return find() != nullptr; }, INT64_MAX, W_OTHER, 0);
  }
  Proc* p = find();
  p->reaped = true;
  if (st)
    *st = p->got_signal ? SIGINT : 0;
  return p->pid;
}
int kill(pid_t pid, int sig) noexcept
{
  if (!me)
    return (int)raw_syscall6(SYS_kill, pid, sig, 0, 0, 0, 0);
  sys(50);
  trace("kill %d %d", pid, sig);
  if (pid <= 0)
    generic_violation("kill-all", "%s/%s calls kill(%d, %d): signals processes it did not start; at %s", me->proc->name.c_str(),
                      me->name.c_str(), pid, sig, backtrace_str(me, 0).c_str());
  Proc* p = proc_of(pid);
  if (!p || p->reaped)
  {
    errno = ESRCH;
    return -1;
  }
  if (sig == 0)
    return 0;
  if (p->parent != me->proc->pid)
    generic_violation("kill-foreign", "%s/%s kills process %d it did not start", me->proc->name.c_str(), me->name.c_str(), pid);
  p->got_signal = true;
  proc_kill(p, "signalled");
  return 0;
}
typedef void (*sighandler)(int);
sighandler signal(int s, sighandler h) noexcept
{
  if (!me)
  {
    REAL(sighandler, signal, int, sighandler)
    return r_signal(s, h);
  }
  if (s == SIGPIPE)
    me->proc->ign_pipe = h == SIG_IGN;
  return SIG_DFL;
}
}
