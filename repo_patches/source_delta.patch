From 2a414681d38f9b110f75dbf6d61eb898aa47bdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:47 +0000
Subject: [PATCH 01/70] fix: readData keeps reading until all bytes of a
 message part arrived

A short read (the data arrived in pieces) was treated as a complete one, so that lengths and payloads were taken from
partial data; an interrupted read dropped the connection.
---
 scalopus_transport/src/protocol.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/scalopus_transport/src/protocol.cpp b/scalopus_transport/src/protocol.cpp
index 0ecaeb0..d9541e4 100644
--- a/scalopus_transport/src/protocol.cpp
+++ b/scalopus_transport/src/protocol.cpp
@@ -34,6 +34,7 @@
 #include <sys/types.h>
 #include <unistd.h>
 #include <array>
+#include <cerrno>
 #include <cstring>
 #include <iostream>
 
@@ -54,6 +55,10 @@ bool readData(int fd, size_t length, Data& incoming)
     ssize_t chunk_received = ::read(fd, buf.data(), std::min(length - received, chunk_size));
     if (chunk_received == -1)
     {
+      if (errno == EINTR)
+      {
+        continue;  // interrupted before anything was read.
+      }
       return false;  // this should not happen as it indicates a broken transmission or broken file descriptor.
     }
 
@@ -68,23 +73,11 @@ bool readData(int fd, size_t length, Data& incoming)
       break;
     }
 
-    if (chunk_received == chunk_size)
-    {
-      // read the next chunk.
-      continue;
-    }
-
-    if (chunk_received == -1)
-    {
-      // an error occured.
-      return false;
-    }
-    else if (chunk_received == 0)
+    if (chunk_received == 0)
     {
       // end of file.
       return false;
     }
-    break;
   }
   return true;
 }
-- 
2.43.0


From 07a3f0a89ec219bf1f7a37f2e2cf60e871dfc7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:47 +0000
Subject: [PATCH 02/70] fix: protocol::send completes short and interrupted
 writes

A short write or a signal made send() give up halfway a message, after which the peer misinterprets everything that
follows on that connection.
---
 scalopus_transport/src/protocol.cpp | 35 +++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/scalopus_transport/src/protocol.cpp b/scalopus_transport/src/protocol.cpp
index d9541e4..108dd35 100644
--- a/scalopus_transport/src/protocol.cpp
+++ b/scalopus_transport/src/protocol.cpp
@@ -145,6 +145,27 @@ bool receive(int fd, Msg& incoming)
   return false;
 }
 
+//! Send all of the data, regardless of how many calls that takes.
+static bool sendData(int fd, const void* data, size_t length)
+{
+  const char* ptr = static_cast<const char*>(data);
+  while (length != 0)
+  {
+    const ssize_t sent = ::send(fd, ptr, length, MSG_NOSIGNAL);
+    if (sent == -1)
+    {
+      if (errno == EINTR)
+      {
+        continue;  // interrupted before anything was sent.
+      }
+      return false;
+    }
+    ptr += sent;
+    length -= static_cast<size_t>(sent);
+  }
+  return true;
+}
+
 bool send(int fd, const Msg& outgoing)
 {
   if (fd == 0)
@@ -155,35 +176,31 @@ bool send(int fd, const Msg& outgoing)
   uint32_t length_data = static_cast<uint32_t>(outgoing.data.size());
 
   // Send request id.
-  if (::send(fd, &outgoing.request_id, sizeof(outgoing.request_id), MSG_NOSIGNAL) !=
-      static_cast<ssize_t>(sizeof(outgoing.request_id)))
+  if (!sendData(fd, &outgoing.request_id, sizeof(outgoing.request_id)))
   {
     return false;
   }
 
   // Send endpoint length
-  if (::send(fd, &length_endpoint_name, sizeof(length_endpoint_name), MSG_NOSIGNAL) !=
-      static_cast<ssize_t>(sizeof(length_endpoint_name)))
+  if (!sendData(fd, &length_endpoint_name, sizeof(length_endpoint_name)))
   {
     return false;
   }
 
   // Send endpoint name.
-  if (::send(fd, outgoing.endpoint.data(), length_endpoint_name, MSG_NOSIGNAL) !=
-      static_cast<ssize_t>(length_endpoint_name))
+  if (!sendData(fd, outgoing.endpoint.data(), length_endpoint_name))
   {
     return false;
   }
 
   // Send data length
-  if (::send(fd, &length_data, sizeof(length_data), MSG_NOSIGNAL) != static_cast<ssize_t>(sizeof(length_data)))
+  if (!sendData(fd, &length_data, sizeof(length_data)))
   {
     return false;
   }
 
   // Send data
-  if (::send(fd, outgoing.data.data(), outgoing.data.size(), MSG_NOSIGNAL) !=
-      static_cast<ssize_t>(outgoing.data.size()))
+  if (!sendData(fd, outgoing.data.data(), outgoing.data.size()))
   {
     return false;
   }
-- 
2.43.0


From 2d71f1cfea2a1ca87d23ac84e63c7dac20a060e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:47 +0000
Subject: [PATCH 03/70] fix: broadcasts are sent in the order in which they
 were issued

popBroadcast() took the newest queued message first.
---
 scalopus_interface/src/transport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalopus_interface/src/transport.cpp b/scalopus_interface/src/transport.cpp
index c18845c..9f5edbb 100644
--- a/scalopus_interface/src/transport.cpp
+++ b/scalopus_interface/src/transport.cpp
@@ -45,8 +45,8 @@ void Transport::broadcast(const std::string& remote_endpoint_name, const Data& o
 std::pair<std::string, Data> Transport::popBroadcast()
 {
   std::lock_guard<std::mutex> lock(broadcast_message_mutex_);
-  std::pair<std::string, Data> tmp = std::move(broadcast_messages_.back());
-  broadcast_messages_.pop_back();
+  std::pair<std::string, Data> tmp = std::move(broadcast_messages_.front());
+  broadcast_messages_.erase(broadcast_messages_.begin());
   return tmp;
 }
 
-- 
2.43.0


From 14f02f33f93196d5bcfcea10938a516a8ad33c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:28 +0000
Subject: [PATCH 04/70] fix: register a request before sending it

The response could arrive before the promise was stored; it was then treated as unsolicited data and the request never
completed.
---
 scalopus_transport/src/transport_unix.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 0b3564c..99a94a2 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -147,17 +147,24 @@ Transport::PendingResponse TransportUnix::request(const std::string& remote_endp
   auto response = std::make_shared<std::future<Data>>(promise.get_future());
 
   {
-    std::lock_guard<std::mutex> lock(write_lock_);
-    if (!protocol::send(client_fd_, outgoing_msg))
+    // Store the promise in the map before sending, the response may arrive before send returns.
+    std::lock_guard<std::mutex> lock(request_lock_);
+    ongoing_requests_[{ remote_endpoint_name, request_id }] = { std::move(promise), response };
+  }
+
+  std::unique_lock<std::mutex> write_lock(write_lock_);
+  const bool sent = protocol::send(client_fd_, outgoing_msg);
+  write_lock.unlock();
+  if (!sent)
+  {
+    std::lock_guard<std::mutex> lock(request_lock_);
+    auto request_it = ongoing_requests_.find({ remote_endpoint_name, request_id });
+    if (request_it != ongoing_requests_.end())
     {
-      promise.set_exception(std::make_exception_ptr(communication_error("Failed to send data.")));
-      return response;
+      request_it->second.first.set_exception(std::make_exception_ptr(communication_error("Failed to send data.")));
+      ongoing_requests_.erase(request_it);
     }
   }
-
-  // Send succeeded, store the promise in the map, its result should be pending.
-  std::lock_guard<std::mutex> lock(request_lock_);
-  ongoing_requests_[{ remote_endpoint_name, request_id }] = { std::move(promise), response };
   return response;
 }
 
-- 
2.43.0


From 6f5f6096f8cdbed20cd842c1550cdfdac14a4fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:28 +0000
Subject: [PATCH 05/70] fix: a client that loses its connection fails its
 pending requests

The partially received message was still processed as if it was complete, and the outstanding requests never became
ready.
---
 scalopus_transport/src/transport_unix.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 99a94a2..019f235 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -270,9 +270,17 @@ void TransportUnix::work()
       protocol::Msg incoming;
       if (!protocol::receive(client_fd_, incoming))
       {
-        // we failed reading data, if this happens we lost the connection.
+        // we failed reading data, if this happens we lost the connection. The file descriptor itself is closed by the
+        // destructor, another thread may be using it in request().
         running_ = false;
         client_fd_ = 0;
+        std::lock_guard<std::mutex> lock(request_lock_);
+        for (auto& request : ongoing_requests_)
+        {
+          request.second.first.set_exception(std::make_exception_ptr(communication_error("Connection was lost.")));
+        }
+        ongoing_requests_.clear();
+        break;
       }
 
       // lock the requests map.
-- 
2.43.0


From 4a59abf7e5bb57af0b4902db4f5eafc2dea5fbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:28 +0000
Subject: [PATCH 06/70] fix: the late response to a dropped request is not
 unsolicited data

---
 scalopus_transport/src/transport_unix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 019f235..4caecf1 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -296,9 +296,9 @@ void TransportUnix::work()
         }
         ongoing_requests_.erase(request_it);  // remove the request promise from the map.
       }
-      else
+      else if (incoming.request_id == 0)
       {
-        // no active request for this outstanding. Hand it off to the endpoint with this name.
+        // This is a broadcast and not a late response. Hand it off to the endpoint with this name.
         std::lock_guard<std::mutex> elock(endpoint_mutex_);
         const auto it = endpoints_.find(incoming.endpoint);
         if (it != endpoints_.end())
-- 
2.43.0


From 171f82c79c28f95a3af35e1d8a6a125f70c974a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:28 +0000
Subject: [PATCH 07/70] fix: look endpoints up under their lock, call them
 without any

processMsg read the endpoint map while addEndpoint could be modifying it. Unsolicited handlers were called with the
request and endpoint locks held, any use of the transport in the handler was a deadlock.
---
 scalopus_transport/src/transport_unix.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 4caecf1..feb0d5c 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -284,7 +284,7 @@ void TransportUnix::work()
       }
 
       // lock the requests map.
-      std::lock_guard<std::mutex> lock(request_lock_);
+      std::unique_lock<std::mutex> lock(request_lock_);
       // Try to find a promise for the message we just received.
       auto request_it = ongoing_requests_.find({ incoming.endpoint, incoming.request_id });
       if (request_it != ongoing_requests_.end())
@@ -299,15 +299,16 @@ void TransportUnix::work()
       else if (incoming.request_id == 0)
       {
         // This is a broadcast and not a late response. Hand it off to the endpoint with this name.
-        std::lock_guard<std::mutex> elock(endpoint_mutex_);
-        const auto it = endpoints_.find(incoming.endpoint);
-        if (it != endpoints_.end())
+        // The endpoint may use this transport, so don't hold any locks when calling it.
+        lock.unlock();
+        const auto endpoint = getEndpoint(incoming.endpoint);
+        if (endpoint != nullptr)
         {
           protocol::Msg response;
           response.endpoint = incoming.endpoint;
           response.request_id = incoming.request_id;
           Data outgoing;
-          if (it->second->unsolicited(*this, incoming.data, response.data))
+          if (endpoint->unsolicited(*this, incoming.data, response.data))
           {
             std::lock_guard<std::mutex> wlock(write_lock_);
             protocol::send(client_fd_, response);
@@ -409,12 +410,12 @@ bool TransportUnix::processMsg(const protocol::Msg& request, protocol::Msg& resp
   response.endpoint = request.endpoint;
   response.request_id = request.request_id;
   // Check if we have this endpoint.
-  const auto it = endpoints_.find(request.endpoint);
-  if (it != endpoints_.end())
+  const auto endpoint = getEndpoint(request.endpoint);
+  if (endpoint != nullptr)
   {
     Data outgoing;
     // Let the endpoint handle the data and if necessary respond.
-    return it->second->handle(*this, request.data, response.data);
+    return endpoint->handle(*this, request.data, response.data);
   }
   // @TODO handle requests to endpoints we don't have gracefully.
   return false;
-- 
2.43.0


From e9525afe373d3b423397641bbeb10d4304f1830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:28 +0000
Subject: [PATCH 08/70] fix: running_ and client_fd_ of the unix transport are
 used by several threads

---
 scalopus_transport/src/transport_unix.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.h b/scalopus_transport/src/transport_unix.h
index 04fd730..f09fe95 100644
--- a/scalopus_transport/src/transport_unix.h
+++ b/scalopus_transport/src/transport_unix.h
@@ -31,6 +31,7 @@
 #define SCALOPUS_TRANSPORT_TRANSPORT_UNIX_INTERNAL_H
 
 #include <scalopus_interface/transport_factory.h>
+#include <atomic>
 #include <future>
 #include <map>
 #include <set>
@@ -86,10 +87,10 @@ private:
   std::thread thread_;  //!< Worker thread to handle connections and communication.
   void work();          //!< Function for the worker thread.
   int server_fd_{ 0 };  //!< File descriptor from the server bind.
-  int client_fd_{ 0 };  //!< File descriptor from connecting to a server.
+  std::atomic_int client_fd_{ 0 };  //!< File descriptor from connecting to a server.
   std::size_t client_pid_{ 0 };
 
-  bool running_{ false };  //!< Boolean to quit the worker thread.
+  std::atomic_bool running_{ false };  //!< Boolean to quit the worker thread.
 
   std::set<int> connections_;  //!< Open connections, also holds server_fd_ and client_fd_.
 
-- 
2.43.0


From 11bae54a1be64325fa9854b9dadc3572b266ddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:28 +0000
Subject: [PATCH 09/70] fix: a failing serve or connect no longer terminates
 the process

The destructor joined a thread that was never started, and the socket was leaked.
---
 scalopus_transport/src/transport_unix.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index feb0d5c..037efdb 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -57,6 +57,8 @@ bool TransportUnix::serve()
     return false;
   }
 
+  connections_.insert(server_fd_);
+
   // Create the socket struct.
   struct sockaddr_un socket_config;
   std::memset(&socket_config, 0, sizeof(socket_config));
@@ -88,8 +90,6 @@ bool TransportUnix::serve()
     //  logger_("[TransportUnix] Succesfully bound: " + ss.str());
   }
 
-  connections_.insert(server_fd_);
-
   // If we get here, we are golden, we got a working unix domain socket and can start our worker thread.
   running_ = true;
   thread_ = std::thread([this]() { work(); });
@@ -107,6 +107,8 @@ bool TransportUnix::connect(std::size_t pid)
     return false;
   }
 
+  connections_.insert(client_fd_);
+
   // Create the socket struct.
   struct sockaddr_un socket_config;
   std::memset(&socket_config, 0, sizeof(socket_config));
@@ -127,8 +129,6 @@ bool TransportUnix::connect(std::size_t pid)
   {
     //  logger_("[TransportUnix] Succesfully connected: " + ss.str());
   }
-  connections_.insert(client_fd_);
-
   running_ = true;
   thread_ = std::thread([&]() { work(); });
 
@@ -212,7 +212,10 @@ TransportUnix::~TransportUnix()
 {
   // First, stop the thread
   running_ = false;
-  thread_.join();
+  if (thread_.joinable())
+  {
+    thread_.join();
+  }
 
   // Then clean up all the connections.
   for (const auto& connection : connections_)
-- 
2.43.0


From 81b46529c048bff9bc5acdd7ca833cb01bed4375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:28 +0000
Subject: [PATCH 10/70] fix: shut connections down before closing them

After close() the descriptor may already belong to someone else in this process, whose connection was then shut down.
---
 scalopus_transport/src/transport_unix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 037efdb..843976b 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -220,8 +220,8 @@ TransportUnix::~TransportUnix()
   // Then clean up all the connections.
   for (const auto& connection : connections_)
   {
-    ::close(connection);
     ::shutdown(connection, 2);
+    ::close(connection);
   }
 }
 
@@ -350,16 +350,16 @@ void TransportUnix::work()
         }
         else
         {
-          ::close(connection);
           ::shutdown(connection, 2);
+          ::close(connection);
           connections_.erase(connection);
         }
       }
 
       if (FD_ISSET(connection, &except_fds))
       {
-        ::close(connection);
         ::shutdown(connection, 2);
+        ::close(connection);
         connections_.erase(connection);
       }
     }
-- 
2.43.0


From 9a995e3321099619e3c506ea73e043a9ec14ea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:28 +0000
Subject: [PATCH 11/70] fix: do not use the descriptor sets after select failed

They still hold all descriptors, so an interrupted select made the worker block in accept or read.
---
 scalopus_transport/src/transport_unix.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 843976b..56716ee 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -34,6 +34,7 @@
 #include <sys/un.h>
 #include <unistd.h>
 #include <algorithm>
+#include <cerrno>
 #include <cstring>
 #include <fstream>
 #include <iostream>
@@ -251,7 +252,11 @@ void TransportUnix::work()
 
     if (select_result == -1)
     {
-      logger_("[TransportUnix]: Failure occured on select.");
+      if (errno != EINTR)
+      {
+        logger_("[TransportUnix]: Failure occured on select.");
+      }
+      continue;  // the file descriptor sets hold nothing meaningful.
     }
 
     // Handle server stuff, accept new connection:
-- 
2.43.0


From 12425fc32421a62660cf69fe4d042a4e8b6e5089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:28 +0000
Subject: [PATCH 12/70] fix: a failing accept no longer starves the other
 connections

As long as accept fails (out of descriptors for example) nothing but accept was tried.
---
 scalopus_transport/src/transport_unix.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 56716ee..78c81ea 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -267,9 +267,11 @@ void TransportUnix::work()
       if (client == -1)
       {
         logger_("[TransportUnix] Could not accept client.");
-        continue;
       }
-      connections_.insert(client);
+      else
+      {
+        connections_.insert(client);
+      }
     }
 
     // handle client readable:
-- 
2.43.0


From 73550cd4fa15f6a60bfd3488dab4c51863beb3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:01 +0000
Subject: [PATCH 13/70] fix: an exception from an endpoint no longer terminates
 the process

The handlers run on the worker thread of the transport, anything they throw (on a malformed request for example) ended
in std::terminate.
---
 scalopus_transport/src/transport_unix.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 78c81ea..e1b0324 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -318,10 +318,17 @@ void TransportUnix::work()
           response.endpoint = incoming.endpoint;
           response.request_id = incoming.request_id;
           Data outgoing;
-          if (endpoint->unsolicited(*this, incoming.data, response.data))
+          try
           {
-            std::lock_guard<std::mutex> wlock(write_lock_);
-            protocol::send(client_fd_, response);
+            if (endpoint->unsolicited(*this, incoming.data, response.data))
+            {
+              std::lock_guard<std::mutex> wlock(write_lock_);
+              protocol::send(client_fd_, response);
+            }
+          }
+          catch (const std::exception& e)
+          {
+            logger_("[TransportUnix] Endpoint " + incoming.endpoint + " failed on unsolicited data: " + e.what());
           }
         }
       }
@@ -425,7 +432,14 @@ bool TransportUnix::processMsg(const protocol::Msg& request, protocol::Msg& resp
   {
     Data outgoing;
     // Let the endpoint handle the data and if necessary respond.
-    return endpoint->handle(*this, request.data, response.data);
+    try
+    {
+      return endpoint->handle(*this, request.data, response.data);
+    }
+    catch (const std::exception& e)
+    {
+      logger_("[TransportUnix] Endpoint " + request.endpoint + " failed to handle a request: " + e.what());
+    }
   }
   // @TODO handle requests to endpoints we don't have gracefully.
   return false;
-- 
2.43.0


From 49569391d54017046dd697db571998fa55a7f631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:01 +0000
Subject: [PATCH 14/70] fix: destroying a client does not wait for a server
 that stalls halfway a message

---
 scalopus_transport/src/transport_unix.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index e1b0324..02d6121 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -213,6 +213,10 @@ TransportUnix::~TransportUnix()
 {
   // First, stop the thread
   running_ = false;
+  if (client_fd_ > 0)
+  {
+    ::shutdown(client_fd_, 2);  // the worker may be waiting for the remainder of a message.
+  }
   if (thread_.joinable())
   {
     thread_.join();
-- 
2.43.0


From 1c09e96f9a2324e0f05ce13d59d4c50594cb22d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:01 +0000
Subject: [PATCH 15/70] fix: descriptors that select cannot handle are refused

FD_SET with a descriptor of FD_SETSIZE or more writes outside of the fd_set.
---
 scalopus_transport/src/transport_unix.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 02d6121..646eae5 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -59,6 +59,11 @@ bool TransportUnix::serve()
   }
 
   connections_.insert(server_fd_);
+  if (server_fd_ >= FD_SETSIZE)
+  {
+    logger_("[TransportUnix] Descriptor of the socket is too high for select.");
+    return false;
+  }
 
   // Create the socket struct.
   struct sockaddr_un socket_config;
@@ -109,6 +114,11 @@ bool TransportUnix::connect(std::size_t pid)
   }
 
   connections_.insert(client_fd_);
+  if (client_fd_ >= FD_SETSIZE)
+  {
+    logger_("[TransportUnix] Descriptor of the socket is too high for select.");
+    return false;
+  }
 
   // Create the socket struct.
   struct sockaddr_un socket_config;
@@ -272,6 +282,11 @@ void TransportUnix::work()
       {
         logger_("[TransportUnix] Could not accept client.");
       }
+      else if (client >= FD_SETSIZE)
+      {
+        logger_("[TransportUnix] Refusing client, descriptor is too high for select.");
+        ::close(client);
+      }
       else
       {
         connections_.insert(client);
-- 
2.43.0


From e694b60b96ce3b85aef3766358d3bedf41739738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:24 +0000
Subject: [PATCH 16/70] fix: neither does an endpoint that throws something
 else

---
 scalopus_transport/src/transport_unix.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 646eae5..0f83913 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -349,6 +349,10 @@ void TransportUnix::work()
           {
             logger_("[TransportUnix] Endpoint " + incoming.endpoint + " failed on unsolicited data: " + e.what());
           }
+          catch (...)
+          {
+            logger_("[TransportUnix] Endpoint " + incoming.endpoint + " failed on unsolicited data.");
+          }
         }
       }
     }
@@ -459,6 +463,10 @@ bool TransportUnix::processMsg(const protocol::Msg& request, protocol::Msg& resp
     {
       logger_("[TransportUnix] Endpoint " + request.endpoint + " failed to handle a request: " + e.what());
     }
+    catch (...)
+    {
+      logger_("[TransportUnix] Endpoint " + request.endpoint + " failed to handle a request.");
+    }
   }
   // @TODO handle requests to endpoints we don't have gracefully.
   return false;
-- 
2.43.0


From 30d8a568764509585e800862ecb5754046abf1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:24 +0000
Subject: [PATCH 17/70] fix: an empty request to the trace mapping endpoint
 read out of bounds

---
 scalopus_tracing/src/endpoint_trace_mapping.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalopus_tracing/src/endpoint_trace_mapping.cpp b/scalopus_tracing/src/endpoint_trace_mapping.cpp
index 100897b..4b266f9 100644
--- a/scalopus_tracing/src/endpoint_trace_mapping.cpp
+++ b/scalopus_tracing/src/endpoint_trace_mapping.cpp
@@ -51,7 +51,7 @@ bool EndpointTraceMapping::handle(Transport& /* server */, const Data& request,
   ProcessTraceMap mapping = { { ::getpid(), scalopus::StaticStringTracker::getInstance().getMap() } };
   // cool, we have the mappings... now we need to serialize this...
 
-  if (request.front() == 'm')
+  if (!request.empty() && request.front() == 'm')
   {
     json jdata = json::object();
     jdata["mapping"] = mapping;  // need to serialize an object, not an array.
-- 
2.43.0


From e11191bc0910e40e055a280c41daa5d5e5ffc482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:24 +0000
Subject: [PATCH 18/70] fix: the endpoint manager dereferenced the null
 transport of a failed connect

---
 scalopus_general/src/endpoint_manager_poll.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalopus_general/src/endpoint_manager_poll.cpp b/scalopus_general/src/endpoint_manager_poll.cpp
index 465f890..849ceea 100644
--- a/scalopus_general/src/endpoint_manager_poll.cpp
+++ b/scalopus_general/src/endpoint_manager_poll.cpp
@@ -84,7 +84,7 @@ void EndpointManagerPoll::connect(const Destination::Ptr destination)
   log("[scalopus] Creating transport to: " + std::string(*destination));
   // Attempt to make a transport to this server.
   auto transport = factory_->connect(destination);
-  if (!transport->isConnected())
+  if ((transport == nullptr) || !transport->isConnected())
   {
     log("[scalopus] Client failed to connect to " + std::string(*destination));
     return;
-- 
2.43.0


From 6f11b8376eb07df37cb3575630ff464e6dc7670b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:24 +0000
Subject: [PATCH 19/70] fix: a server that dies or answers garbage during
 introspection no longer terminates the poller

---
 scalopus_general/src/endpoint_manager_poll.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scalopus_general/src/endpoint_manager_poll.cpp b/scalopus_general/src/endpoint_manager_poll.cpp
index 849ceea..19e41e4 100644
--- a/scalopus_general/src/endpoint_manager_poll.cpp
+++ b/scalopus_general/src/endpoint_manager_poll.cpp
@@ -71,7 +71,15 @@ void EndpointManagerPoll::manage()
   const auto providers = factory_->discover();
   for (const auto& destination : providers)
   {
-    connect(destination);
+    try
+    {
+      connect(destination);
+    }
+    catch (const std::exception& e)
+    {
+      // This server is misbehaving or went away, continue with the others.
+      log("[scalopus] Failed to set up endpoints of " + std::string(*destination) + ": " + e.what());
+    }
   }
 }
 
-- 
2.43.0


From 0e4f7e06f50664214fad13ee2edeed1f899534ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:24 +0000
Subject: [PATCH 20/70] fix: the endpoint manager also finds endpoints it
 missed when it connected

Introspection was only done once, right after connecting. If that timed out, or if the server was still registering
its endpoints, they were never found.
---
 .../scalopus_general/endpoint_manager_poll.h     |  7 +++++--
 scalopus_general/src/endpoint_manager_poll.cpp   | 16 ++++++++++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h b/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h
index edf10f0..db0a706 100644
--- a/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h
+++ b/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h
@@ -65,8 +65,8 @@ public:
   void manage();
 
   /**
-   * @brief Connect to a specific destination, doesn't do anything if already connected to this destination. The caller
-   *        is responsible for ensuring the mutex for this objects' state is locked, or single threading is guaranteed.
+   * @brief Connect to a specific destination, only updates the endpoints if already connected to this destination. The
+   *        caller is responsible for ensuring the mutex for this objects' state is locked, or single threading is guaranteed.
    */
   void connect(const Destination::Ptr dest);
 
@@ -107,6 +107,9 @@ private:
   //! Map to keep track of which transport is already created.
   std::map<std::size_t, Transport::Ptr> transports_;
 
+  //! Set up the endpoints that the remote side of this transport supports and which are not yet set up.
+  void updateEndpoints(const Transport::Ptr& transport);
+
   TransportFactory::Ptr factory_;  //!< The transport factory to use to discover and create connections.
 
   bool is_polling_{ false };     //!< Should the worker thread continue polling?
diff --git a/scalopus_general/src/endpoint_manager_poll.cpp b/scalopus_general/src/endpoint_manager_poll.cpp
index 19e41e4..17a9bde 100644
--- a/scalopus_general/src/endpoint_manager_poll.cpp
+++ b/scalopus_general/src/endpoint_manager_poll.cpp
@@ -85,9 +85,13 @@ void EndpointManagerPoll::manage()
 
 void EndpointManagerPoll::connect(const Destination::Ptr destination)
 {
-  if (transports_.find(destination->hash_code()) != transports_.end())
+  const auto existing = transports_.find(destination->hash_code());
+  if (existing != transports_.end())
   {
-    return;  // already have a connection to this transport, ignore it.
+    // Already have a connection to this transport, but its endpoints may have been registered after we connected, or
+    // it may have been too busy to answer.
+    updateEndpoints(existing->second);
+    return;
   }
   log("[scalopus] Creating transport to: " + std::string(*destination));
   // Attempt to make a transport to this server.
@@ -99,13 +103,21 @@ void EndpointManagerPoll::connect(const Destination::Ptr destination)
   }
   transports_[destination->hash_code()] = transport;
   transport_endpoints_[transport] = {};
+  updateEndpoints(transport);
+}
 
+void EndpointManagerPoll::updateEndpoints(const Transport::Ptr& transport)
+{
   // Investigate which endpoints are supported by this transport.
   auto introspect_client = std::make_shared<EndpointIntrospect>();
   introspect_client->setTransport(transport);
   const auto supported = introspect_client->supported();
   for (const auto& supported_endpoint : supported)
   {
+    if (transport_endpoints_[transport].count(supported_endpoint) != 0)
+    {
+      continue;  // already set up.
+    }
     const auto it = endpoint_factories_.find(supported_endpoint);
     if (it != endpoint_factories_.end())
     {
-- 
2.43.0


From 57e4bc140fa708686fe8a417c1854152a9ef0d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:24 +0000
Subject: [PATCH 21/70] fix: is_polling_ is used by several threads

---
 .../include_consumer/scalopus_general/endpoint_manager_poll.h  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h b/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h
index db0a706..d86dc7d 100644
--- a/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h
+++ b/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h
@@ -33,6 +33,7 @@
 #include <scalopus_interface/endpoint_manager.h>
 #include <scalopus_interface/trace_event_provider.h>
 #include <scalopus_interface/transport_factory.h>
+#include <atomic>
 #include <functional>
 #include <map>
 #include <memory>
@@ -112,7 +113,7 @@ private:
 
   TransportFactory::Ptr factory_;  //!< The transport factory to use to discover and create connections.
 
-  bool is_polling_{ false };     //!< Should the worker thread continue polling?
+  std::atomic_bool is_polling_{ false };  //!< Should the worker thread continue polling?
   double poll_interval_{ 1.0 };  //!< The poll interval in seconds.
   std::thread thread_;           //!< Thread in which the polling takes place.
   void work();                   //!< Function in which the work the poller does takes place.
-- 
2.43.0


From 6498d475a82fbb7891fa9468b76128fb618c2271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:24 +0000
Subject: [PATCH 22/70] fix: a process that does not answer gets no entry under
 an arbitrary process id

---
 .../include/scalopus_general/endpoint_process_info.h         | 2 +-
 scalopus_general/src/general_provider.cpp                    | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/scalopus_general/include/scalopus_general/endpoint_process_info.h b/scalopus_general/include/scalopus_general/endpoint_process_info.h
index 6662112..0ba45aa 100644
--- a/scalopus_general/include/scalopus_general/endpoint_process_info.h
+++ b/scalopus_general/include/scalopus_general/endpoint_process_info.h
@@ -50,7 +50,7 @@ public:
   {
     std::string name;                              //!< Name of this process.
     std::map<unsigned long, std::string> threads;  //!< Names of the threads in this process.
-    int pid;                                       //!< Process id.
+    int pid{ 0 };                                  //!< Process id, zero if the process did not answer.
   };
 
   /**
diff --git a/scalopus_general/src/general_provider.cpp b/scalopus_general/src/general_provider.cpp
index 358af25..abc8dc0 100644
--- a/scalopus_general/src/general_provider.cpp
+++ b/scalopus_general/src/general_provider.cpp
@@ -62,7 +62,10 @@ void GeneralProvider::updateMapping()
     if (endpoint_general != nullptr)
     {
       const auto process_mapping = endpoint_general->processInfo();
-      mapping_[process_mapping.pid] = process_mapping;
+      if (process_mapping.pid != 0)
+      {
+        mapping_[process_mapping.pid] = process_mapping;
+      }
     }
   }
 }
-- 
2.43.0


From 25a98c51aeb6861114e268519374a1793ef7b59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:24 +0000
Subject: [PATCH 23/70] fix: one process that fails does not lose the names of
 all others

---
 scalopus_general/src/general_provider.cpp       | 13 ++++++++++---
 scalopus_tracing/src/scope_tracing_provider.cpp | 15 +++++++++++----
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/scalopus_general/src/general_provider.cpp b/scalopus_general/src/general_provider.cpp
index abc8dc0..2afe622 100644
--- a/scalopus_general/src/general_provider.cpp
+++ b/scalopus_general/src/general_provider.cpp
@@ -61,10 +61,17 @@ void GeneralProvider::updateMapping()
     auto endpoint_general = EndpointManager::findEndpoint<scalopus::EndpointProcessInfo>(transport_endpoints.second);
     if (endpoint_general != nullptr)
     {
-      const auto process_mapping = endpoint_general->processInfo();
-      if (process_mapping.pid != 0)
+      try
       {
-        mapping_[process_mapping.pid] = process_mapping;
+        const auto process_mapping = endpoint_general->processInfo();
+        if (process_mapping.pid != 0)
+        {
+          mapping_[process_mapping.pid] = process_mapping;
+        }
+      }
+      catch (const std::exception&)
+      {
+        // This process went away or answered garbage, carry on with the others.
       }
     }
   }
diff --git a/scalopus_tracing/src/scope_tracing_provider.cpp b/scalopus_tracing/src/scope_tracing_provider.cpp
index 2bee79b..040a724 100644
--- a/scalopus_tracing/src/scope_tracing_provider.cpp
+++ b/scalopus_tracing/src/scope_tracing_provider.cpp
@@ -63,11 +63,18 @@ void ScopeTracingProvider::updateMapping()
 
     if (endpoint_scope_tracing != nullptr)
     {
-      // We found the correct endpoint, retrieve its mappings.
-      const auto process_mapping = endpoint_scope_tracing->mapping();
+      try
+      {
+        // We found the correct endpoint, retrieve its mappings.
+        const auto process_mapping = endpoint_scope_tracing->mapping();
 
-      // Insert the mappings into the accumulated map.
-      mapping.insert(process_mapping.begin(), process_mapping.end());
+        // Insert the mappings into the accumulated map.
+        mapping.insert(process_mapping.begin(), process_mapping.end());
+      }
+      catch (const std::exception&)
+      {
+        // This process went away or answered garbage, carry on with the others.
+      }
     }
   }
 
-- 
2.43.0


From 1d1907d9ef17cd9e0e0603f398ee16ca12e4a231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:24 +0000
Subject: [PATCH 24/70] fix: the process name is set and read by different
 threads

---
 .../include/scalopus_general/endpoint_process_info.h      | 1 +
 scalopus_general/src/endpoint_process_info.cpp            | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/scalopus_general/include/scalopus_general/endpoint_process_info.h b/scalopus_general/include/scalopus_general/endpoint_process_info.h
index 0ba45aa..cc562a4 100644
--- a/scalopus_general/include/scalopus_general/endpoint_process_info.h
+++ b/scalopus_general/include/scalopus_general/endpoint_process_info.h
@@ -81,6 +81,7 @@ public:
 
 private:
   ProcessInfo info_;  //!< The process info.
+  std::mutex mutex_;  //!< Guards info_, requests are handled in another thread.
 };
 
 }  // namespace scalopus
diff --git a/scalopus_general/src/endpoint_process_info.cpp b/scalopus_general/src/endpoint_process_info.cpp
index 53eb6fc..ba5295a 100644
--- a/scalopus_general/src/endpoint_process_info.cpp
+++ b/scalopus_general/src/endpoint_process_info.cpp
@@ -54,6 +54,7 @@ EndpointProcessInfo::EndpointProcessInfo()
 
 void EndpointProcessInfo::setProcessName(const std::string& process_name)
 {
+  std::lock_guard<std::mutex> lock(mutex_);
   info_.name = process_name;
 }
 
@@ -65,8 +66,11 @@ bool EndpointProcessInfo::handle(Transport& /* server */, const Data& request, D
   if (req["cmd"].get<std::string>() == "info")
   {
     json jdata = json::object();
-    jdata["pid"] = info_.pid;
-    jdata["name"] = info_.name;
+    {
+      std::lock_guard<std::mutex> lock(mutex_);
+      jdata["pid"] = info_.pid;
+      jdata["name"] = info_.name;
+    }
     jdata["threads"] = scalopus::ThreadNameTracker::getInstance().getMap();
     response = json::to_bson(jdata);
     return true;
-- 
2.43.0


From 09db27f85575d623e557abd6a80e0a2f0214a14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:42 +0000
Subject: [PATCH 25/70] fix: a message that does not fit the length fields is
 refused instead of truncated

---
 scalopus_transport/src/protocol.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scalopus_transport/src/protocol.cpp b/scalopus_transport/src/protocol.cpp
index 108dd35..d821ddd 100644
--- a/scalopus_transport/src/protocol.cpp
+++ b/scalopus_transport/src/protocol.cpp
@@ -35,6 +35,7 @@
 #include <unistd.h>
 #include <array>
 #include <cerrno>
+#include <cstdint>
 #include <cstring>
 #include <iostream>
 
@@ -172,6 +173,10 @@ bool send(int fd, const Msg& outgoing)
   {
     return false;
   }
+  if ((outgoing.endpoint.size() > UINT16_MAX) || (outgoing.data.size() > UINT32_MAX))
+  {
+    return false;  // does not fit the length fields.
+  }
   uint16_t length_endpoint_name = static_cast<uint16_t>(outgoing.endpoint.size());
   uint32_t length_data = static_cast<uint32_t>(outgoing.data.size());
 
-- 
2.43.0


From acd052441e324339e0af8358f285ab9e94c14bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:04 +0000
Subject: [PATCH 26/70] fix: loopback requests without a remote endpoint fail
 instead of dereferencing null

---
 scalopus_transport/src/transport_loopback.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index 416edc5..c312192 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -97,13 +97,14 @@ void TransportLoopback::work()
         }
 
         // get the appropriate endpoint from the server.
-        auto endpoint = server_->getEndpoint(remote_endpoint_name);
+        auto endpoint = (server_ != nullptr) ? server_->getEndpoint(remote_endpoint_name) : nullptr;
 
         // If the endpoint doesn't exist on the remote end, throw
         if (endpoint == nullptr)
         {
           promise.set_exception(std::make_exception_ptr(std::runtime_error(
               "The TransportLoopback does not sending data to non-existant endpoints on the server.")));
+          continue;
         }
 
         Data resp;
-- 
2.43.0


From 7ddd855a8abc9bcfd250920b4755aa5320345d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:04 +0000
Subject: [PATCH 27/70] fix: the worker of a loopback transport starts when
 everything it uses is there

---
 scalopus_transport/src/transport_loopback.cpp | 8 +++-----
 scalopus_transport/src/transport_loopback.h   | 3 ++-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index c312192..743a860 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -32,10 +32,8 @@
 
 namespace scalopus
 {
-TransportLoopback::TransportLoopback()
+TransportLoopback::TransportLoopback() : TransportLoopback{ nullptr }
 {
-  running_ = true;
-  thread_ = std::thread([&]() { work(); });
 }
 
 TransportLoopback::~TransportLoopback()
@@ -44,9 +42,9 @@ TransportLoopback::~TransportLoopback()
   thread_.join();
 }
 
-TransportLoopback::TransportLoopback(Ptr server) : TransportLoopback{}
+TransportLoopback::TransportLoopback(Ptr server) : server_{ server }
 {
-  server_ = server;
+  thread_ = std::thread([&]() { work(); });
 }
 
 void TransportLoopback::addClient(Transport::WeakPtr client)
diff --git a/scalopus_transport/src/transport_loopback.h b/scalopus_transport/src/transport_loopback.h
index bed74be..8c34bb3 100644
--- a/scalopus_transport/src/transport_loopback.h
+++ b/scalopus_transport/src/transport_loopback.h
@@ -37,6 +37,7 @@
 #include <memory>
 #include <set>
 #include <thread>
+#include <atomic>
 #include <utility>
 #include <vector>
 
@@ -87,7 +88,7 @@ private:
    */
   void work();
 
-  bool running_{ true };  //!< Bool to stop the worker loop.
+  std::atomic_bool running_{ true };  //!< Bool to stop the worker loop.
   std::thread thread_;    //!< The thread which drops into work.
 
   mutable std::mutex request_lock_;  //!< Lock to guard modification of ongoing_requests_ map.
-- 
2.43.0


From 50cc985b41b2905e8b825e770156b5b497199587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:04 +0000
Subject: [PATCH 28/70] fix: guard the lists of loopback clients and servers

---
 .../include/scalopus_transport/transport_loopback.h       | 2 ++
 scalopus_transport/src/transport_loopback.cpp             | 8 +++++++-
 scalopus_transport/src/transport_loopback.h               | 1 +
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/scalopus_transport/include/scalopus_transport/transport_loopback.h b/scalopus_transport/include/scalopus_transport/transport_loopback.h
index 0974e6a..e655639 100644
--- a/scalopus_transport/include/scalopus_transport/transport_loopback.h
+++ b/scalopus_transport/include/scalopus_transport/transport_loopback.h
@@ -33,6 +33,7 @@
 
 #include <scalopus_interface/transport_factory.h>
 #include <memory>
+#include <mutex>
 
 namespace scalopus
 {
@@ -48,6 +49,7 @@ public:
   Transport::Ptr connect(const Destination::Ptr& destination);
 
 protected:
+  std::mutex servers_lock_;  //!< Lock to guard the list of servers.
   std::vector<std::weak_ptr<Transport>> servers_;
 };
 }  // namespace scalopus
diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index 743a860..8986800 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -49,6 +49,7 @@ TransportLoopback::TransportLoopback(Ptr server) : server_{ server }
 
 void TransportLoopback::addClient(Transport::WeakPtr client)
 {
+  std::lock_guard<decltype(clients_lock_)> lock(clients_lock_);
   clients_.push_back(client);
 }
 
@@ -122,7 +123,10 @@ void TransportLoopback::work()
         auto broadcast = Transport::popBroadcast();
         const auto& remote_endpoint_name = broadcast.first;
         const auto& outgoing = broadcast.second;
-        for (auto weak_client : clients_)
+        std::unique_lock<decltype(clients_lock_)> lock(clients_lock_);
+        const auto clients = clients_;
+        lock.unlock();
+        for (const auto& weak_client : clients)
         {
           auto client = weak_client.lock();
           if (client != nullptr)
@@ -174,6 +178,7 @@ std::size_t DestinationLoopback::hash_code() const
 std::vector<Destination::Ptr> TransportLoopbackFactory::discover()
 {
   std::vector<Destination::Ptr> possible_destinations;
+  std::lock_guard<decltype(servers_lock_)> lock(servers_lock_);
   for (const auto& weak_server : servers_)
   {
     auto server = weak_server.lock();
@@ -192,6 +197,7 @@ std::vector<Destination::Ptr> TransportLoopbackFactory::discover()
 Transport::Ptr TransportLoopbackFactory::serve()
 {
   auto new_server = std::make_shared<TransportLoopback>();
+  std::lock_guard<decltype(servers_lock_)> lock(servers_lock_);
   servers_.push_back(new_server);
   return new_server;
 }
diff --git a/scalopus_transport/src/transport_loopback.h b/scalopus_transport/src/transport_loopback.h
index 8c34bb3..216dd42 100644
--- a/scalopus_transport/src/transport_loopback.h
+++ b/scalopus_transport/src/transport_loopback.h
@@ -81,6 +81,7 @@ private:
 
   Ptr server_;  //!< If populated this is the server the client is connected to.
 
+  std::mutex clients_lock_;                  //!< Lock to guard the list of clients.
   std::vector<Transport::WeakPtr> clients_;  //!< List of the clients connected to the server.
 
   /**
-- 
2.43.0


From aed3b793fd6f44d786765a147a71ba9f70611a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:40 +0000
Subject: [PATCH 29/70] fix: loopback endpoints are called without holding the
 lock of the requests

---
 scalopus_transport/src/transport_loopback.cpp | 31 +++++++++++--------
 scalopus_transport/src/transport_loopback.h   |  2 +-
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index 8986800..a73de77 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -83,37 +83,42 @@ void TransportLoopback::work()
   {
     // First, server any requests that are pending.
     {
-      std::lock_guard<decltype(request_lock_)> lock(request_lock_);
-      for (auto& req : ongoing_requests_)
+      std::unique_lock<decltype(request_lock_)> lock(request_lock_);
+      for (std::size_t remaining = ongoing_requests_.size(); remaining > 0; remaining--)
       {
+        // The endpoint may use this transport, so don't hold the lock when calling it. The request remains in the list
+        // (and counted as pending) until it is dealt with.
+        auto req = std::move(ongoing_requests_.front());
         const auto& remote_endpoint_name = std::get<0>(req);
         const auto& outgoing = std::get<1>(req);
         auto& promise = std::get<2>(req);
         auto& request_ptr = std::get<3>(req);
-        if (request_ptr.lock() == nullptr)
-        {
-          continue;  // request went stale.
-        }
+        lock.unlock();
 
         // get the appropriate endpoint from the server.
         auto endpoint = (server_ != nullptr) ? server_->getEndpoint(remote_endpoint_name) : nullptr;
 
-        // If the endpoint doesn't exist on the remote end, throw
-        if (endpoint == nullptr)
+        Data resp;
+        bool res{ false };
+        const bool stale = request_ptr.lock() == nullptr;  // request went stale.
+        if (!stale && endpoint != nullptr)
         {
+          res = endpoint->handle(*server_, outgoing, resp);
+        }
+
+        lock.lock();
+        if (!stale && endpoint == nullptr)
+        {
+          // If the endpoint doesn't exist on the remote end, throw
           promise.set_exception(std::make_exception_ptr(std::runtime_error(
               "The TransportLoopback does not sending data to non-existant endpoints on the server.")));
-          continue;
         }
-
-        Data resp;
-        auto res = endpoint->handle(*server_, outgoing, resp);
         if (res)
         {
           promise.set_value(resp);
         }
+        ongoing_requests_.erase(ongoing_requests_.begin());  // We processed this request.
       }
-      ongoing_requests_.clear();  // We processed all requests, we can clear them.
     }
 
     // Secondly, we server all the broadcasts
diff --git a/scalopus_transport/src/transport_loopback.h b/scalopus_transport/src/transport_loopback.h
index 216dd42..067203a 100644
--- a/scalopus_transport/src/transport_loopback.h
+++ b/scalopus_transport/src/transport_loopback.h
@@ -32,12 +32,12 @@
 
 #include <scalopus_interface/transport_factory.h>
 #include <scalopus_transport/transport_loopback.h>
+#include <atomic>
 #include <future>
 #include <map>
 #include <memory>
 #include <set>
 #include <thread>
-#include <atomic>
 #include <utility>
 #include <vector>
 
-- 
2.43.0


From ceed8b5f181a9abb687aff3087118d8a7f6d4836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:40 +0000
Subject: [PATCH 30/70] fix: an endpoint that throws does not terminate the
 process of a loopback transport

---
 scalopus_transport/src/transport_loopback.cpp | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index a73de77..c68e136 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -103,7 +103,14 @@ void TransportLoopback::work()
         const bool stale = request_ptr.lock() == nullptr;  // request went stale.
         if (!stale && endpoint != nullptr)
         {
-          res = endpoint->handle(*server_, outgoing, resp);
+          try
+          {
+            res = endpoint->handle(*server_, outgoing, resp);
+          }
+          catch (...)
+          {
+            promise.set_exception(std::current_exception());
+          }
         }
 
         lock.lock();
@@ -139,16 +146,24 @@ void TransportLoopback::work()
             auto endpoint = client->getEndpoint(remote_endpoint_name);
             if (endpoint != nullptr)
             {
-              Data resp;
-              if (endpoint->unsolicited(*client, outgoing, resp))
+              try
               {
-                Data resp2;
-                if (getEndpoint(remote_endpoint_name)->handle(*client, resp, resp2))
+                Data resp;
+                const auto server_endpoint = getEndpoint(remote_endpoint_name);
+                if (endpoint->unsolicited(*client, outgoing, resp) && server_endpoint != nullptr)
                 {
-                  // We stop here... This is slightly different than a real transport... but works for now.
-                  throw std::runtime_error("The TransportLoopback does not handle responses on unsolicited data.");
+                  Data resp2;
+                  if (server_endpoint->handle(*client, resp, resp2))
+                  {
+                    // We stop here... This is slightly different than a real transport... but works for now.
+                    throw std::runtime_error("The TransportLoopback does not handle responses on unsolicited data.");
+                  }
                 }
               }
+              catch (const std::exception& e)
+              {
+                logger_("[TransportLoopback] Endpoint " + remote_endpoint_name + " failed on unsolicited data: " + e.what());
+              }
             }
           }
         }
-- 
2.43.0


From a97a7e24e75b1a61452f759ce002437e53f2a4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:03 +0000
Subject: [PATCH 31/70] fix: a loopback transport may be released by its own
 worker

---
 scalopus_transport/src/transport_loopback.cpp | 27 +++++++++++++++----
 scalopus_transport/src/transport_loopback.h   |  3 ++-
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index c68e136..fcb3e43 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -38,7 +38,13 @@ TransportLoopback::TransportLoopback() : TransportLoopback{ nullptr }
 
 TransportLoopback::~TransportLoopback()
 {
-  running_ = false;
+  *running_ = false;
+  if (thread_.get_id() == std::this_thread::get_id())
+  {
+    // The worker held the last reference, it stops as soon as it sees the flag and doesn't use this instance anymore.
+    thread_.detach();
+    return;
+  }
   thread_.join();
 }
 
@@ -79,7 +85,9 @@ std::size_t TransportLoopback::pendingRequests() const
 
 void TransportLoopback::work()
 {
-  while (running_)
+  // The callbacks may release the last reference to this instance.
+  const auto running = running_;
+  while (*running)
   {
     // First, server any requests that are pending.
     {
@@ -96,7 +104,8 @@ void TransportLoopback::work()
         lock.unlock();
 
         // get the appropriate endpoint from the server.
-        auto endpoint = (server_ != nullptr) ? server_->getEndpoint(remote_endpoint_name) : nullptr;
+        const auto server = server_;
+        auto endpoint = (server != nullptr) ? server->getEndpoint(remote_endpoint_name) : nullptr;
 
         Data resp;
         bool res{ false };
@@ -105,7 +114,7 @@ void TransportLoopback::work()
         {
           try
           {
-            res = endpoint->handle(*server_, outgoing, resp);
+            res = endpoint->handle(*server, outgoing, resp);
           }
           catch (...)
           {
@@ -113,6 +122,10 @@ void TransportLoopback::work()
           }
         }
 
+        if (!*running)
+        {
+          return;
+        }
         lock.lock();
         if (!stale && endpoint == nullptr)
         {
@@ -130,7 +143,7 @@ void TransportLoopback::work()
 
     // Secondly, we server all the broadcasts
     {
-      while (haveBroadcast())
+      while (*running && haveBroadcast())
       {
         auto broadcast = Transport::popBroadcast();
         const auto& remote_endpoint_name = broadcast.first;
@@ -140,6 +153,10 @@ void TransportLoopback::work()
         lock.unlock();
         for (const auto& weak_client : clients)
         {
+          if (!*running)
+          {
+            return;
+          }
           auto client = weak_client.lock();
           if (client != nullptr)
           {
diff --git a/scalopus_transport/src/transport_loopback.h b/scalopus_transport/src/transport_loopback.h
index 067203a..f79398d 100644
--- a/scalopus_transport/src/transport_loopback.h
+++ b/scalopus_transport/src/transport_loopback.h
@@ -89,7 +89,8 @@ private:
    */
   void work();
 
-  std::atomic_bool running_{ true };  //!< Bool to stop the worker loop.
+  //! Bool to stop the worker loop, shared with the worker.
+  std::shared_ptr<std::atomic_bool> running_{ std::make_shared<std::atomic_bool>(true) };
   std::thread thread_;    //!< The thread which drops into work.
 
   mutable std::mutex request_lock_;  //!< Lock to guard modification of ongoing_requests_ map.
-- 
2.43.0


From 50baf841a71f2976518e9ebe405a1e66e4c6c4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:26 +0000
Subject: [PATCH 32/70] fix: discovery only lists sockets that are named after
 a process id

---
 scalopus_transport/src/transport_unix.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 0f83913..489ea98 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -202,8 +202,16 @@ std::vector<std::size_t> TransportUnix::getTransportServers()
     if (line.substr(line.size() - suffix.size()) == suffix)
     {
       // We got a hit, extract the process id.
-      const auto space_before_path = line.rfind(" ");
+      const auto space_before_path = line.rfind(" @");
+      if (space_before_path == std::string::npos)
+      {
+        continue;  // not an abstract socket.
+      }
       const auto path = line.substr(space_before_path + 2);  // + 2 for space and @ symbol.
+      if (path.find_first_not_of("0123456789") != path.size() - suffix.size() || path.size() == suffix.size())
+      {
+        continue;  // some other name that just ends the same.
+      }
       const auto space_before_inode = line.rfind(" ", space_before_path - 1);
       const auto inode_str = line.substr(space_before_inode, space_before_path - space_before_inode);
       if (std::atoi(inode_str.c_str()) == 0)
-- 
2.43.0


From eafa6addadb63f36b3d9285c74d0f337cfd76ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:03 +0000
Subject: [PATCH 33/70] fix: the name of a tracepoint is registered before any
 thread can emit its events

---
 .../include/scalopus_tracing/internal/trace_macro.h  | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h b/scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h
index 8d92cf3..9d2f29e 100644
--- a/scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h
+++ b/scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h
@@ -42,15 +42,11 @@
 // Create a unique ID based on the crc32 of the filename and the provided string.
 #define SCALOPUS_TRACKED_TRACE_ID_STRING(s) (CRC32_STR(__FILE__) + CRC32_STR(s))
 
-// Macro that ensures that tracking the map between name and id is only performed once, this is achieved by using a
-// static boolean.
+// Macro that ensures that tracking the map between name and id is only performed once, this is achieved by using the
+// initialization of a static boolean: other threads that reach it wait until the name is registered.
 #define TRACE_TRACKED_MAPPING_REGISTER_ONCE(name, id, have_done_setup_varname)                                         \
-  static bool have_done_setup_varname = false;                                                                         \
-  if (!have_done_setup_varname)                                                                                        \
-  {                                                                                                                    \
-    have_done_setup_varname = true;                                                                                    \
-    scalopus::StaticStringTracker::getInstance().insert(id, name);                                                     \
-  }
+  static const bool have_done_setup_varname = (scalopus::StaticStringTracker::getInstance().insert(id, name), true);   \
+  static_cast<void>(have_done_setup_varname);
 
 // Macro to create a tracked RAII tracepoint. The tracepoint itself will store only the ID, but the singleton trace
 // tracker stores the ID -> name relation provided.
-- 
2.43.0


From 40cfd47601f1078a48948b8ae9bcb07cda11a544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:28 +0000
Subject: [PATCH 34/70] fix: the worker of the native trace sender uses what
 other threads set

---
 .../scalopus_tracing/endpoint_native_trace_sender.h        | 7 ++++++-
 .../src/native/endpoint_native_trace_sender.cpp            | 7 +++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h b/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h
index 3b70579..d4806bf 100644
--- a/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h
+++ b/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h
@@ -31,6 +31,8 @@
 #define SCALOPUS_TRACING_ENDPOINT_NATIVE_TRACE_SENDER_H
 
 #include <scalopus_interface/transport.h>
+#include <atomic>
+#include <mutex>
 
 namespace scalopus
 {
@@ -48,10 +50,13 @@ public:
 
   // From the endpoint
   std::string getName() const;
+  using Endpoint::setTransport;
+  void setTransport(Transport* transport);
 
 private:
   void work();
-  bool running_{ true };
+  std::atomic_bool running_{ true };
+  std::mutex transport_mutex_;  //!< The worker uses the transport while it may be set by another thread.
   std::thread worker_;
 };
 
diff --git a/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp b/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp
index fd5c148..8f75b0b 100644
--- a/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp
+++ b/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp
@@ -102,6 +102,7 @@ void EndpointNativeTraceSender::work()
     }
     if (collected)
     {
+      std::lock_guard<std::mutex> lock(transport_mutex_);
       if (transport_ != nullptr)
       {
         transport_->broadcast("native_trace_receiver", process_events(events));
@@ -116,4 +117,10 @@ std::string EndpointNativeTraceSender::getName() const
 {
   return name;
 }
+
+void EndpointNativeTraceSender::setTransport(Transport* transport)
+{
+  std::lock_guard<std::mutex> lock(transport_mutex_);
+  Endpoint::setTransport(transport);
+}
 }  // namespace scalopus
-- 
2.43.0


From ed8a28addcb5d0cf0066d554f551d9a8905644ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:07 +0000
Subject: [PATCH 35/70] fix: counters show the values at the time of the event,
 not in order of arrival

---
 .../src/native/native_trace_source.cpp        | 30 +++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/scalopus_tracing/src/native/native_trace_source.cpp b/scalopus_tracing/src/native/native_trace_source.cpp
index e6cabb3..8f58fc6 100644
--- a/scalopus_tracing/src/native/native_trace_source.cpp
+++ b/scalopus_tracing/src/native/native_trace_source.cpp
@@ -88,12 +88,6 @@ std::vector<json> NativeTraceSource::finishInterval()
     recorded_data_.swap(data);
   }
 
-  // Map for the counter states.
-  using SeriesMap = std::map<std::string, std::int64_t>;
-  using CounterMap = std::map<std::string, SeriesMap>;
-  using ProcessCounter = std::map<int, CounterMap>;
-  ProcessCounter counter_values;
-
   // Now, we start converting the chunks of data we obtain into trace events.
   try
   {
@@ -154,9 +148,7 @@ std::vector<json> NativeTraceSource::finishInterval()
             entry["name"] = counter_series.first;
             std::int64_t z;
             cbor::from_cbor(z, *event.dynamic_data);
-            // Update the current counters.
-            counter_values[pid][counter_series.first][counter_series.second] = z;
-            entry["args"] = counter_values[pid][counter_series.first];
+            entry["args"] = { { counter_series.second, z } };  // the other series are added below.
           }
           else
           {
@@ -186,6 +178,26 @@ std::vector<json> NativeTraceSource::finishInterval()
     return lhs.at("ts").get<double>() < rhs.at("ts").get<double>();
   });
 
+  // Map for the counter states.
+  using SeriesMap = std::map<std::string, std::int64_t>;
+  using CounterMap = std::map<std::string, SeriesMap>;
+  using ProcessCounter = std::map<int, CounterMap>;
+
+  // Now that the events are in order of time, each counter event gets the most recent value of the other series.
+  ProcessCounter counter_values;
+  for (auto& entry : res)
+  {
+    if (entry.at("ph").get<std::string>() == "C")
+    {
+      auto& values = counter_values[entry.at("pid").get<int>()][entry.at("name").get<std::string>()];
+      for (const auto& series_value : entry.at("args").get<SeriesMap>())
+      {
+        values[series_value.first] = series_value.second;
+      }
+      entry["args"] = values;
+    }
+  }
+
   // Need a reverse iteration here, to populate all counters with all series seen in the entire interval.
   ProcessCounter counter_all_series;
   for (auto it = res.rbegin(); it < res.rend(); it++)
-- 
2.43.0


From 79055ef3bc314d482f1fb29f7cc0aeafadca75f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:06 +0000
Subject: [PATCH 36/70] fix: endpoints are released before the transport they
 use is taken apart

---
 scalopus_interface/include/scalopus_interface/transport.h | 6 ++++++
 scalopus_interface/src/transport.cpp                      | 7 +++++++
 scalopus_transport/src/transport_loopback.cpp             | 7 +++++--
 scalopus_transport/src/transport_unix.cpp                 | 2 ++
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/scalopus_interface/include/scalopus_interface/transport.h b/scalopus_interface/include/scalopus_interface/transport.h
index e8f388a..56fef5e 100644
--- a/scalopus_interface/include/scalopus_interface/transport.h
+++ b/scalopus_interface/include/scalopus_interface/transport.h
@@ -117,6 +117,12 @@ protected:
    */
   std::pair<std::string, Data> popBroadcast();
 
+  /**
+   * @brief Release the endpoints, to be called by destructors of transports: the endpoints may have threads that use the
+   *        transport, which must be gone before it is no longer a complete object.
+   */
+  void clearEndpoints();
+
   std::vector<std::pair<std::string, Data>> broadcast_messages_;  //!< List of broadcast messages to send out.
   mutable std::mutex broadcast_message_mutex_;
 
diff --git a/scalopus_interface/src/transport.cpp b/scalopus_interface/src/transport.cpp
index 9f5edbb..3670bb8 100644
--- a/scalopus_interface/src/transport.cpp
+++ b/scalopus_interface/src/transport.cpp
@@ -80,6 +80,13 @@ Endpoint::Ptr Transport::getEndpoint(const std::string& name) const
   return nullptr;
 }
 
+void Transport::clearEndpoints()
+{
+  std::map<std::string, Endpoint::Ptr> endpoints;
+  std::lock_guard<std::mutex> lock(endpoint_mutex_);
+  endpoints.swap(endpoints_);
+}
+
 void Transport::setLogger(LoggingFunction logger)
 {
   logger_ = logger;
diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index fcb3e43..b46af6b 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -43,9 +43,12 @@ TransportLoopback::~TransportLoopback()
   {
     // The worker held the last reference, it stops as soon as it sees the flag and doesn't use this instance anymore.
     thread_.detach();
-    return;
   }
-  thread_.join();
+  else
+  {
+    thread_.join();
+  }
+  clearEndpoints();
 }
 
 TransportLoopback::TransportLoopback(Ptr server) : server_{ server }
diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 489ea98..e633ab4 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -240,6 +240,8 @@ TransportUnix::~TransportUnix()
     thread_.join();
   }
 
+  clearEndpoints();
+
   // Then clean up all the connections.
   for (const auto& connection : connections_)
   {
-- 
2.43.0


From 1ba7166724e6c8b6d767912162c3a285d99f7a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:15 +0000
Subject: [PATCH 37/70] fix: the native trace provider does not keep sources
 alive that nobody uses

---
 .../scalopus_tracing/native_trace_provider.h        |  2 +-
 .../src/native/native_trace_provider.cpp            | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/native_trace_provider.h b/scalopus_tracing/include_consumer/scalopus_tracing/native_trace_provider.h
index fc326dc..72b7183 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/native_trace_provider.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/native_trace_provider.h
@@ -84,7 +84,7 @@ private:
   void incoming(const Data& incoming);
 
   std::mutex source_mutex_;
-  std::set<std::shared_ptr<NativeTraceSource>> sources_;
+  std::vector<std::weak_ptr<NativeTraceSource>> sources_;  //!< Sources are owned by whoever requested them.
 
   LoggingFunction logger_;  //!< Function to use for logging.
 };
diff --git a/scalopus_tracing/src/native/native_trace_provider.cpp b/scalopus_tracing/src/native/native_trace_provider.cpp
index 8609078..3875895 100644
--- a/scalopus_tracing/src/native/native_trace_provider.cpp
+++ b/scalopus_tracing/src/native/native_trace_provider.cpp
@@ -45,7 +45,7 @@ TraceEventSource::Ptr NativeTraceProvider::makeSource()
 {
   auto source = std::make_shared<NativeTraceSource>(shared_from_this());
   std::lock_guard<decltype(source_mutex_)> lock(source_mutex_);
-  sources_.insert(source);
+  sources_.push_back(source);
   return source;
 }
 
@@ -67,13 +67,20 @@ void NativeTraceProvider::incoming(const Data& incoming)
   {
     std::lock_guard<decltype(source_mutex_)> lock(source_mutex_);
 
-    // Add all sources that are recording.
-    for (auto& source : sources_)
+    // Add all sources that are recording, forget about those that no longer exist.
+    for (auto it = sources_.begin(); it != sources_.end();)
     {
+      auto source = it->lock();
+      if (source == nullptr)
+      {
+        it = sources_.erase(it);
+        continue;
+      }
       if (source->isRecording())
       {
         recording_sources.insert(source);
       }
+      it++;
     }
   }
 
-- 
2.43.0


From d99552d17fbbde2215306f4bd409ec5c23593bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:34 +0000
Subject: [PATCH 38/70] fix: a chunk of events that cannot be parsed does not
 take the other chunks with it

---
 .../src/native/native_trace_source.cpp        | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/scalopus_tracing/src/native/native_trace_source.cpp b/scalopus_tracing/src/native/native_trace_source.cpp
index 8f58fc6..e320ed6 100644
--- a/scalopus_tracing/src/native/native_trace_source.cpp
+++ b/scalopus_tracing/src/native/native_trace_source.cpp
@@ -89,9 +89,9 @@ std::vector<json> NativeTraceSource::finishInterval()
   }
 
   // Now, we start converting the chunks of data we obtain into trace events.
-  try
+  for (const auto& dptr : data)
   {
-    for (const auto& dptr : data)
+    try
     {
       // First, we parse the bson we got and convert it to events.
       std::map<std::string, cbor::cbor_object> parsed;
@@ -158,18 +158,18 @@ std::vector<json> NativeTraceSource::finishInterval()
         }
       }
     }
-  }
-  catch (const std::out_of_range& e)
-  {
-    provider->log(std::string("Encountered out of range during data processing: ") + e.what());
-  }
-  catch (const cbor::error& e)
-  {
-    provider->log(std::string("Encountered cbor error: ") + e.what());
-  }
-  catch (const std::runtime_error& e)
-  {
-    provider->log(std::string("Encountered runtime error: ") + e.what());
+    catch (const std::out_of_range& e)
+    {
+      provider->log(std::string("Encountered out of range during data processing: ") + e.what());
+    }
+    catch (const cbor::error& e)
+    {
+      provider->log(std::string("Encountered cbor error: ") + e.what());
+    }
+    catch (const std::runtime_error& e)
+    {
+      provider->log(std::string("Encountered runtime error: ") + e.what());
+    }
   }
 
   // Sort res by "ts" because sometimes the "E"nd events are out of order wrt the "B"egin, leading to unfinished scope
-- 
2.43.0


From 7b76e2d44c2f0934bdfbd3f0baefddfa8f40acbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:49 +0000
Subject: [PATCH 39/70] fix: a counter event that lacks its value does not
 crash the consumer

---
 scalopus_tracing/src/native/native_trace_source.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scalopus_tracing/src/native/native_trace_source.cpp b/scalopus_tracing/src/native/native_trace_source.cpp
index e320ed6..b5f6d74 100644
--- a/scalopus_tracing/src/native/native_trace_source.cpp
+++ b/scalopus_tracing/src/native/native_trace_source.cpp
@@ -146,6 +146,10 @@ std::vector<json> NativeTraceSource::finishInterval()
             entry["ph"] = "C";
             const auto counter_series = NativeTraceProvider::splitCounterSeriesName(trace_id_string);
             entry["name"] = counter_series.first;
+            if (event.dynamic_data == nullptr)
+            {
+              throw std::runtime_error("Counter event without value.");
+            }
             std::int64_t z;
             cbor::from_cbor(z, *event.dynamic_data);
             entry["args"] = { { counter_series.second, z } };  // the other series are added below.
-- 
2.43.0


From 85b2dc802874e532d32863662b6d2bc166fe34d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:49 +0000
Subject: [PATCH 40/70] fix: a native trace source can be finished after its
 provider is gone

---
 .../scalopus_tracing/native_trace_provider.h     |  3 +++
 .../src/native/native_trace_source.cpp           | 16 +++++++++++-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/native_trace_provider.h b/scalopus_tracing/include_consumer/scalopus_tracing/native_trace_provider.h
index 72b7183..603cada 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/native_trace_provider.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/native_trace_provider.h
@@ -32,7 +32,10 @@
 
 #include <scalopus_interface/endpoint.h>
 #include <scalopus_tracing/scope_tracing_provider.h>
+#include <memory>
+#include <mutex>
 #include <set>
+#include <vector>
 
 namespace scalopus
 {
diff --git a/scalopus_tracing/src/native/native_trace_source.cpp b/scalopus_tracing/src/native/native_trace_source.cpp
index b5f6d74..102dba2 100644
--- a/scalopus_tracing/src/native/native_trace_source.cpp
+++ b/scalopus_tracing/src/native/native_trace_source.cpp
@@ -79,7 +79,13 @@ std::vector<json> NativeTraceSource::finishInterval()
   {
     provider->updateMapping();
   }
-  const auto mapping = provider->getMapping();
+  const auto mapping = provider != nullptr ? provider->getMapping() : NativeTraceProvider::ProcessTraceMap{};
+  const auto log = [&provider](const std::string& message) {
+    if (provider != nullptr)
+    {
+      provider->log(message);
+    }
+  };
 
   // Obtain the data chunks.
   std::vector<DataPtr> data;
@@ -116,7 +122,7 @@ std::vector<json> NativeTraceSource::finishInterval()
           entry["tid"] = tid;
           entry["pid"] = pid;
           entry["cat"] = "PERF";
-          const auto trace_id_string = provider->getScopeName(mapping, pid, trace_id);
+          const auto trace_id_string = NativeTraceProvider::getScopeName(mapping, pid, trace_id);
           entry["name"] = trace_id_string;  // Overwritten for counters later on.
           if (type == TracePointCollectorNative::SCOPE_ENTRY)
           {
@@ -164,15 +170,15 @@ std::vector<json> NativeTraceSource::finishInterval()
     }
     catch (const std::out_of_range& e)
     {
-      provider->log(std::string("Encountered out of range during data processing: ") + e.what());
+      log(std::string("Encountered out of range during data processing: ") + e.what());
     }
     catch (const cbor::error& e)
     {
-      provider->log(std::string("Encountered cbor error: ") + e.what());
+      log(std::string("Encountered cbor error: ") + e.what());
     }
     catch (const std::runtime_error& e)
     {
-      provider->log(std::string("Encountered runtime error: ") + e.what());
+      log(std::string("Encountered runtime error: ") + e.what());
     }
   }
 
-- 
2.43.0


From fef0709f359aab83974827797275b1260433ab6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:00 +0000
Subject: [PATCH 41/70] fix: a number that is out of range in a line of
 babeltrace does not terminate the process

---
 .../include_consumer/scalopus_tracing/ctfevent.h          | 2 +-
 scalopus_tracing/src/lttng/ctfevent.cpp                   | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h b/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h
index 64d7e33..b5bee39 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h
@@ -94,7 +94,7 @@ public:
 private:
   std::string line_;  //! Original line from babeltrace.
 
-  double timestamp_;               //! Timestamp of this event.
+  double timestamp_{ 0.0 };        //! Timestamp of this event.
   std::string hostname_;           //! Hostname this event originated from.
   std::string tracepoint_domain_;  //! Tracepoint domain of this event.
   std::string tracepoint_name_;    //! Tracepoint name of this event.
diff --git a/scalopus_tracing/src/lttng/ctfevent.cpp b/scalopus_tracing/src/lttng/ctfevent.cpp
index a7633f5..eced977 100644
--- a/scalopus_tracing/src/lttng/ctfevent.cpp
+++ b/scalopus_tracing/src/lttng/ctfevent.cpp
@@ -63,6 +63,10 @@ CTFEvent::CTFEvent(std::string line)
   {
     return;
   }
+  catch (const std::out_of_range&)
+  {
+    return;
+  }
 
   // Go for the hostname, this is the first thing between spaces.
   start_pos = end_pos;
@@ -166,6 +170,10 @@ CTFEvent::CTFEvent(std::string line)
       catch (const std::invalid_argument&)
       {
       }
+      catch (const std::out_of_range&)
+      {
+        // number does not fit, just like a string there is nothing we can store.
+      }
     }
     return res;
   };
-- 
2.43.0


From 6707973e5af7f212b9e53c182c75438c78b6e357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:00 +0000
Subject: [PATCH 42/70] fix: disabling a babeltrace callback does not race with
 the parser calling it

---
 .../include_consumer/scalopus_tracing/babeltrace_parser.h    | 5 +++++
 scalopus_tracing/src/lttng/babeltrace_parser.cpp             | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
index e9ee4ec..dfbcb00 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
@@ -54,9 +54,14 @@ public:
   {
     bool active{ true };
     std::function<void(const CTFEvent& event)> callback;
+    std::recursive_mutex mutex;  //!< Held while calling the callback and while disabling it.
 
+    /**
+     * @brief Disable the callback, when this returns it isn't running in another thread and won't be called again.
+     */
     void disable()
     {
+      std::lock_guard<std::recursive_mutex> lock(mutex);
       active = false;
       callback = nullptr;
     }
diff --git a/scalopus_tracing/src/lttng/babeltrace_parser.cpp b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
index 4928765..5b2fd75 100644
--- a/scalopus_tracing/src/lttng/babeltrace_parser.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
@@ -99,12 +99,14 @@ void BabeltraceParser::process(FILE* stdout)
           auto event = parse(line);
           for (auto it = sessions_recording_.begin(); it != sessions_recording_.end();)
           {
+            std::unique_lock<std::recursive_mutex> callback_lock((*it)->mutex);
             if ((*it)->active == false)
             {
               // session went inactive, remove it.
               std::stringstream ss;
               ss << "[BabeltraceParser] callback inactive: " << it->get();
               logger_(ss.str());
+              callback_lock.unlock();
               it = sessions_recording_.erase(it);
               continue;
             }
-- 
2.43.0


From 89cfcd6f4821006558fbb8ae0da25630a9c41b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:00 +0000
Subject: [PATCH 43/70] fix: a child that cannot be executed ends instead of
 continuing as a copy of the parent

---
 .../include_consumer/scalopus_tracing/subprocess.hpp          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
index 589a660..9ea5b13 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
@@ -141,7 +141,7 @@ private:
             dup2(err_pipe[WRITE], STDERR_FILENO) == -1 )
         {
             std::perror("subprocess: dup2() failed");
-            return;
+            ::_exit(127);
         }
 
         ::close(in_pipe[READ]);
@@ -158,7 +158,7 @@ private:
         if (execvp(cargs[0], &cargs[0]) == -1)
         {
             std::perror("subprocess: execvp() failed");
-            return;
+            ::_exit(127);  // never return into the code of the parent.
         }
     }
 
-- 
2.43.0


From 3dcbe6b567a730b31f7a3571f9624bedf4d37070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:00 +0000
Subject: [PATCH 44/70] fix: halting does not signal all processes if
 babeltrace could not be started

---
 scalopus_tracing/src/lttng/babeltrace_tool.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scalopus_tracing/src/lttng/babeltrace_tool.cpp b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
index 8c2c49d..c3de236 100644
--- a/scalopus_tracing/src/lttng/babeltrace_tool.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
@@ -95,7 +95,10 @@ void BabeltraceTool::halt()
     process_->close();
 
     // Nuke the process, just to be sure we clean up correctly.
-    ::kill(process_->getPid(), SIGINT);
+    if (process_->getPid() > 0)  // it is -1 if the process could not be created, which would signal everyone.
+    {
+      ::kill(process_->getPid(), SIGINT);
+    }
 
     process_ = nullptr;
   }
-- 
2.43.0


From 84d1f605a7e620a9d560001b2cc68b5b175fff3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:15 +0000
Subject: [PATCH 45/70] fix: halting the babeltrace tool right after it was
 started does not wait forever

---
 .../scalopus_tracing/babeltrace_parser.h          |  6 ++++++
 scalopus_tracing/src/lttng/babeltrace_parser.cpp  | 15 +++++++++++++--
 scalopus_tracing/src/lttng/babeltrace_tool.cpp    |  1 +
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
index dfbcb00..6f4cb61 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
@@ -71,6 +71,11 @@ public:
 
   BabeltraceParser();
 
+  /**
+   * @brief Announce a call to process(), from now on halt() ends it, also if it happens before process() is entered.
+   */
+  void prepare();
+
   /**
    * @brief Blocking call that keeps reading from stdout, if there are recording sessions in the set, lines from stdout
    *        are parsed and passed to the recording sessions.
@@ -105,6 +110,7 @@ public:
 
 private:
   std::atomic_bool processing_{ false };  //! Bool to check on each while loop in the process function.
+  std::atomic_bool prepared_{ false };    //! True if prepare() already marked the parser as processing.
 
   std::mutex mutex_;                                             //! Mutex for the recording sessions set.
   std::set<std::shared_ptr<EventCallback>> sessions_recording_;  //! Set of sessions that are actively recording.
diff --git a/scalopus_tracing/src/lttng/babeltrace_parser.cpp b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
index 5b2fd75..5317e82 100644
--- a/scalopus_tracing/src/lttng/babeltrace_parser.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
@@ -50,16 +50,27 @@ void BabeltraceParser::setLogger(LoggingFunction logger)
   logger_ = logger;
 }
 
+void BabeltraceParser::prepare()
+{
+  prepared_.store(true);
+  processing_.store(true);
+}
+
 void BabeltraceParser::process(FILE* stdout)
 {
+  // start the processing, if it was prepared it may already have been halted again.
+  if (!prepared_.exchange(false))
+  {
+    processing_.store(true);
+  }
+
   if (stdout == nullptr)
   {
+    processing_.store(false);
     logger_("[BabeltraceParser] Incorrect file pointer for stdout, quitting parser.");
     return;
   }
 
-  // start the processing.
-  processing_.store(true);
   std::array<char, 1024> tmp;
   int fd = fileno(stdout);
   fd_set read_fds;
diff --git a/scalopus_tracing/src/lttng/babeltrace_tool.cpp b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
index c3de236..0c3811b 100644
--- a/scalopus_tracing/src/lttng/babeltrace_tool.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
@@ -72,6 +72,7 @@ void BabeltraceTool::init(std::string path)
   }
 
   // Start processing the output of stdout in the parser process function, do this in a separate thread.
+  parser_->prepare();
   parser_worker_ = std::thread([&]() { parser_->process(process_->stdoutFile()); });
 }
 
-- 
2.43.0


From d8a4f6829bbe926078bcb7a49f44528f6ca1f45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:34 +0000
Subject: [PATCH 46/70] fix: the logger of the babeltrace parser can be set
 while it is running

---
 .../scalopus_tracing/babeltrace_parser.h      |  6 +++++
 .../src/lttng/babeltrace_parser.cpp           | 24 +++++++++++++++----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
index 6f4cb61..7c1b4b2 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
@@ -114,6 +114,12 @@ private:
 
   std::mutex mutex_;                                             //! Mutex for the recording sessions set.
   std::set<std::shared_ptr<EventCallback>> sessions_recording_;  //! Set of sessions that are actively recording.
+
+  /**
+   * @brief Write a message to the logger, which may be replaced by setLogger() while the worker runs.
+   */
+  void log(const std::string& message);
+  std::mutex logger_mutex_;  //! Mutex for the logger.
   LoggingFunction logger_;
 };
 
diff --git a/scalopus_tracing/src/lttng/babeltrace_parser.cpp b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
index 5317e82..f21977b 100644
--- a/scalopus_tracing/src/lttng/babeltrace_parser.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
@@ -47,9 +47,23 @@ CTFEvent BabeltraceParser::parse(std::string line)
 
 void BabeltraceParser::setLogger(LoggingFunction logger)
 {
+  std::lock_guard<std::mutex> lock(logger_mutex_);
   logger_ = logger;
 }
 
+void BabeltraceParser::log(const std::string& message)
+{
+  LoggingFunction logger;
+  {
+    std::lock_guard<std::mutex> lock(logger_mutex_);
+    logger = logger_;
+  }
+  if (logger)
+  {
+    logger(message);
+  }
+}
+
 void BabeltraceParser::prepare()
 {
   prepared_.store(true);
@@ -67,7 +81,7 @@ void BabeltraceParser::process(FILE* stdout)
   if (stdout == nullptr)
   {
     processing_.store(false);
-    logger_("[BabeltraceParser] Incorrect file pointer for stdout, quitting parser.");
+    log("[BabeltraceParser] Incorrect file pointer for stdout, quitting parser.");
     return;
   }
 
@@ -116,7 +130,7 @@ void BabeltraceParser::process(FILE* stdout)
               // session went inactive, remove it.
               std::stringstream ss;
               ss << "[BabeltraceParser] callback inactive: " << it->get();
-              logger_(ss.str());
+              log(ss.str());
               callback_lock.unlock();
               it = sessions_recording_.erase(it);
               continue;
@@ -131,13 +145,13 @@ void BabeltraceParser::process(FILE* stdout)
       }
       if (std::feof(stdout))
       {
-        logger_("[BabeltraceParser] Reached end of file, quiting parser function.");
+        log("[BabeltraceParser] Reached end of file, quiting parser function.");
         processing_.store(false);
       }
     }
     if (FD_ISSET(fd, &except_fds))
     {
-      logger_("[BabeltraceParser] Exception occured while reading from babeltrace stdout.");
+      log("[BabeltraceParser] Exception occured while reading from babeltrace stdout.");
       processing_.store(false);
     }
   };
@@ -160,7 +174,7 @@ void BabeltraceParser::setCallback(const std::shared_ptr<EventCallback>& callbac
   std::lock_guard<std::mutex> lock(mutex_);
   std::stringstream ss;
   ss << "[BabeltraceParser] Adding callback: " << callback.get();
-  logger_(ss.str());
+  log(ss.str());
   sessions_recording_.insert(callback);
 }
 
-- 
2.43.0


From 0823fbdcc87997d461cb717e74971fbc3076ab64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:35 +0000
Subject: [PATCH 47/70] fix: every line that babeltrace prints is handled at
 once and in its entirety

---
 .../src/lttng/babeltrace_parser.cpp           | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/scalopus_tracing/src/lttng/babeltrace_parser.cpp b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
index f21977b..ef3e472 100644
--- a/scalopus_tracing/src/lttng/babeltrace_parser.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
@@ -28,6 +28,8 @@
   OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 #include "scalopus_tracing/babeltrace_parser.h"
+#include <unistd.h>
+#include <array>
 #include <iostream>
 #include <sstream>
 
@@ -86,6 +88,7 @@ void BabeltraceParser::process(FILE* stdout)
   }
 
   std::array<char, 1024> tmp;
+  std::string buffer;
   int fd = fileno(stdout);
   fd_set read_fds;
   fd_set write_fds;
@@ -109,14 +112,24 @@ void BabeltraceParser::process(FILE* stdout)
     }
     if (FD_ISSET(fd, &read_fds))
     {
-      // read line
-      std::string line;
-      if (std::fgets(tmp.data(), tmp.size(), stdout))
+      // Read what is there and handle all the lines this completes, the start of the next line stays in the buffer.
+      // This reads from the file descriptor because lines that are in the buffer of the FILE don't make select return.
+      const auto count = ::read(fd, tmp.data(), tmp.size());
+      if (count < 0)
       {
-        line = std::string(tmp.data());
+        continue;
       }
-      if (!line.empty())
+      buffer.append(tmp.data(), static_cast<std::size_t>(count));
+      const bool end_of_file = count == 0;
+      if (end_of_file && !buffer.empty())
       {
+        buffer += '\n';  // whatever is left is the last line.
+      }
+      std::size_t line_start = 0;
+      for (auto line_end = buffer.find('\n'); line_end != std::string::npos; line_end = buffer.find('\n', line_start))
+      {
+        const auto line = buffer.substr(line_start, line_end + 1 - line_start);
+        line_start = line_end + 1;
         // lock, if recording sessions, parse and pass to all recording sessions.
         std::lock_guard<std::mutex> lock(mutex_);
         if (!sessions_recording_.empty())
@@ -143,7 +156,8 @@ void BabeltraceParser::process(FILE* stdout)
           }
         }
       }
-      if (std::feof(stdout))
+      buffer.erase(0, line_start);
+      if (end_of_file)
       {
         log("[BabeltraceParser] Reached end of file, quiting parser function.");
         processing_.store(false);
-- 
2.43.0


From 9692e8e8dcd307c50635f72282dfc7765b7c75f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:56 +0000
Subject: [PATCH 48/70] fix: the babeltrace parser can handle file descriptors
 beyond FD_SETSIZE

---
 .../src/lttng/babeltrace_parser.cpp           | 29 +++++++------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/scalopus_tracing/src/lttng/babeltrace_parser.cpp b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
index ef3e472..9594760 100644
--- a/scalopus_tracing/src/lttng/babeltrace_parser.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
@@ -28,6 +28,7 @@
   OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 #include "scalopus_tracing/babeltrace_parser.h"
+#include <poll.h>
 #include <unistd.h>
 #include <array>
 #include <iostream>
@@ -90,30 +91,22 @@ void BabeltraceParser::process(FILE* stdout)
   std::array<char, 1024> tmp;
   std::string buffer;
   int fd = fileno(stdout);
-  fd_set read_fds;
-  fd_set write_fds;
-  fd_set except_fds;
-  FD_ZERO(&read_fds);
-  FD_ZERO(&write_fds);
-  FD_ZERO(&except_fds);
-  struct timeval tv;
   while (processing_.load())  // while processing.
   {
-    tv.tv_sec = 0;
-    tv.tv_usec = 10000;
-    FD_SET(fd, &read_fds);
-    FD_SET(fd, &except_fds);
-
-    const int nfds = fd + 1;
-    int select_result = select(nfds, &read_fds, &write_fds, &except_fds, &tv);
-    if (select_result == -1)
+    // Not using select here, it can't handle file descriptors beyond FD_SETSIZE.
+    struct pollfd poll_fd;
+    poll_fd.fd = fd;
+    poll_fd.events = POLLIN;
+    poll_fd.revents = 0;
+    const int timeout_ms = 10;
+    if (::poll(&poll_fd, 1, timeout_ms) == -1)
     {
       continue;
     }
-    if (FD_ISSET(fd, &read_fds))
+    if (poll_fd.revents & (POLLIN | POLLHUP))
     {
       // Read what is there and handle all the lines this completes, the start of the next line stays in the buffer.
-      // This reads from the file descriptor because lines that are in the buffer of the FILE don't make select return.
+      // This reads from the file descriptor because lines that are in the buffer of the FILE don't make poll return.
       const auto count = ::read(fd, tmp.data(), tmp.size());
       if (count < 0)
       {
@@ -163,7 +156,7 @@ void BabeltraceParser::process(FILE* stdout)
         processing_.store(false);
       }
     }
-    if (FD_ISSET(fd, &except_fds))
+    if (poll_fd.revents & (POLLERR | POLLNVAL))
     {
       log("[BabeltraceParser] Exception occured while reading from babeltrace stdout.");
       processing_.store(false);
-- 
2.43.0


From b3c9bc6a07af01a3f3e48ed642fa6cfc375b19c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:08 +0000
Subject: [PATCH 49/70] fix: babeltrace does not get stuck because nobody reads
 what it writes to stderr

---
 .../include_consumer/scalopus_tracing/babeltrace_tool.h  | 2 ++
 .../include_consumer/scalopus_tracing/subprocess.hpp     | 5 +++++
 scalopus_tracing/src/lttng/babeltrace_tool.cpp           | 9 +++++++++
 3 files changed, 16 insertions(+)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_tool.h b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_tool.h
index 92b8f70..da7dbcc 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_tool.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_tool.h
@@ -82,6 +82,8 @@ private:
 
   BabeltraceParser::Ptr parser_;  //! Parser that consumes stdout from babeltrace.
   std::thread parser_worker_;     //! Worker thread for the parse function.
+  BabeltraceParser error_reader_;     //! Reads (and discards) what is written to stderr.
+  std::thread error_reader_worker_;  //! Thread that runs the error reader.
   LoggingFunction logger_;
 };
 }  // namespace scalopus
diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
index 9ea5b13..e22672d 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
@@ -97,6 +97,11 @@ public:
     {
       return out_filebuf->file();
     }
+
+    FILE* stderrFile()
+    {
+      return err_filebuf->file();
+    }
     
 private:
     
diff --git a/scalopus_tracing/src/lttng/babeltrace_tool.cpp b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
index 0c3811b..2880462 100644
--- a/scalopus_tracing/src/lttng/babeltrace_tool.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
@@ -74,6 +74,10 @@ void BabeltraceTool::init(std::string path)
   // Start processing the output of stdout in the parser process function, do this in a separate thread.
   parser_->prepare();
   parser_worker_ = std::thread([&]() { parser_->process(process_->stdoutFile()); });
+
+  // What is written to stderr has to be read as well, otherwise the process blocks once that pipe is full.
+  error_reader_.prepare();
+  error_reader_worker_ = std::thread([&]() { error_reader_.process(process_->stderrFile()); });
 }
 
 BabeltraceTool::~BabeltraceTool()
@@ -89,6 +93,11 @@ void BabeltraceTool::halt()
   {
     parser_worker_.join();
   }
+  error_reader_.halt();
+  if (error_reader_worker_.joinable())
+  {
+    error_reader_worker_.join();
+  }
 
   // then halt the babeltrace process.
   if (process_)
-- 
2.43.0


From 5de88a8c484548f521011bcde07f5f222e424068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:08 +0000
Subject: [PATCH 50/70] fix: lines that are no complete scalopus event are
 ignored instead of terminating the recording

---
 scalopus_tracing/src/lttng/lttng_source.cpp | 25 ++++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/scalopus_tracing/src/lttng/lttng_source.cpp b/scalopus_tracing/src/lttng/lttng_source.cpp
index 23dbe09..b74897c 100644
--- a/scalopus_tracing/src/lttng/lttng_source.cpp
+++ b/scalopus_tracing/src/lttng/lttng_source.cpp
@@ -92,6 +92,15 @@ std::vector<json> LttngSource::convertEvents()
 
     if (event.domain() == "scalopus_scope_id")
     {
+      // Lines that do not hold everything we need for an event are ignored.
+      const auto& event_data = event.eventData();
+      const auto& event_context = event.eventContext();
+      if (event_data.find("id") == event_data.end() || event_context.find("vpid") == event_context.end() ||
+          event_context.find("pthread_id") == event_context.end())
+      {
+        continue;
+      }
+
       // entry scope:
       // , {"name": "function name", "pid": 5976, "ts": 77033.2, "cat": "PERF", "tid": 140501248366336, "ph": "B"}
       // exit of scope:
@@ -104,11 +113,7 @@ std::vector<json> LttngSource::convertEvents()
       entry["pid"] = event.pid();
 
       // try to look up the mapping for this pid
-      std::uint32_t id = 0;
-      if (event.eventData().find("id") != event.eventData().end())
-      {
-        id = static_cast<std::uint32_t>(event.eventData().at("id"));
-      }
+      const auto id = static_cast<std::uint32_t>(event_data.at("id"));
 
       // Populate the name
       const auto trace_id_string = provider_->getScopeName(mapping, static_cast<int>(event.pid()), id);
@@ -139,14 +144,22 @@ std::vector<json> LttngSource::convertEvents()
       }
       else if (event.name() == "count_event")
       {
+        if (event_data.find("value") == event_data.end())
+        {
+          continue;
+        }
         entry["ph"] = "C";
         const auto counter_series = LttngProvider::splitCounterSeriesName(trace_id_string);
         entry["name"] = counter_series.first;
-        const std::int64_t z = static_cast<std::int64_t>(event.eventData().at("value"));
+        const std::int64_t z = static_cast<std::int64_t>(event_data.at("value"));
         // Update the current counters.
         counter_values[counter_series.first][counter_series.second] = z;
         entry["args"] = counter_values[counter_series.first];
       }
+      else
+      {
+        continue;
+      }
       result.push_back(entry);
     }
   }
-- 
2.43.0


From 77244780d589170704b0afe729bf854612d4366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:01 +0000
Subject: [PATCH 51/70] fix: a field of a babeltrace line that isn't a number
 does not become zero

---
 scalopus_tracing/src/lttng/ctfevent.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalopus_tracing/src/lttng/ctfevent.cpp b/scalopus_tracing/src/lttng/ctfevent.cpp
index eced977..0e2f1f2 100644
--- a/scalopus_tracing/src/lttng/ctfevent.cpp
+++ b/scalopus_tracing/src/lttng/ctfevent.cpp
@@ -165,7 +165,8 @@ CTFEvent::CTFEvent(std::string line)
       try
       {
         // if value is a string, this will fail, we need to catch that.
-        res[key] = std::stoull(value);
+        const auto number = std::stoull(value);
+        res[key] = number;
       }
       catch (const std::invalid_argument&)
       {
-- 
2.43.0


From a7ca60b9731ca4074e423ffa73f7c8c37bcb11b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:01 +0000
Subject: [PATCH 52/70] fix: LTTng counters are kept per process and show the
 values at the time of the event

---
 scalopus_tracing/src/lttng/lttng_source.cpp | 30 +++++++++++++++------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/scalopus_tracing/src/lttng/lttng_source.cpp b/scalopus_tracing/src/lttng/lttng_source.cpp
index b74897c..a4c63d5 100644
--- a/scalopus_tracing/src/lttng/lttng_source.cpp
+++ b/scalopus_tracing/src/lttng/lttng_source.cpp
@@ -81,7 +81,7 @@ std::vector<json> LttngSource::convertEvents()
   // Map for the counter states.
   using SeriesMap = std::map<std::string, std::int64_t>;
   using CounterMap = std::map<std::string, SeriesMap>;
-  CounterMap counter_values;
+  using ProcessCounter = std::map<unsigned long long int, CounterMap>;
 
   provider_->updateMapping();
   const auto mapping = provider_->getMapping();
@@ -152,9 +152,7 @@ std::vector<json> LttngSource::convertEvents()
         const auto counter_series = LttngProvider::splitCounterSeriesName(trace_id_string);
         entry["name"] = counter_series.first;
         const std::int64_t z = static_cast<std::int64_t>(event_data.at("value"));
-        // Update the current counters.
-        counter_values[counter_series.first][counter_series.second] = z;
-        entry["args"] = counter_values[counter_series.first];
+        entry["args"] = { { counter_series.second, z } };  // the other series are added below.
       }
       else
       {
@@ -170,8 +168,23 @@ std::vector<json> LttngSource::convertEvents()
     return lhs.at("ts").get<double>() < rhs.at("ts").get<double>();
   });
 
+  // Now that the events are in order of time, each counter event gets the most recent value of the other series.
+  ProcessCounter counter_values;
+  for (auto& entry : result)
+  {
+    if (entry.at("ph").get<std::string>() == "C")
+    {
+      auto& values = counter_values[entry.at("pid").get<unsigned long long int>()][entry.at("name").get<std::string>()];
+      for (const auto& series_value : entry.at("args").get<SeriesMap>())
+      {
+        values[series_value.first] = series_value.second;
+      }
+      entry["args"] = values;
+    }
+  }
+
   // Need a reverse iteration here, to populate all counters with all series seen in the entire interval.
-  CounterMap count_all_series;
+  ProcessCounter count_all_series;
   for (auto it = result.rbegin(); it < result.rend(); it++)
   {
     auto& entry = *it;
@@ -179,9 +192,10 @@ std::vector<json> LttngSource::convertEvents()
     {
       auto values = entry.at("args").get<SeriesMap>();
       const auto& name = entry.at("name").get<std::string>();
-      values.insert(count_all_series[name].begin(), count_all_series[name].end());  // add future keys to this entry
-      entry["args"] = values;           // update values to include the series used in the future.
-      count_all_series[name] = values;  // store most recent value in the map.
+      auto& all_series = count_all_series[entry.at("pid").get<unsigned long long int>()][name];
+      values.insert(all_series.begin(), all_series.end());  // add future keys to this entry
+      entry["args"] = values;                               // update values to include the series used in the future.
+      all_series = values;                                  // store most recent value in the map.
     }
   }
 
-- 
2.43.0


From d2ca1c86fc640ea39e1eca5ab7aae8ebf4f787ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:50 +0000
Subject: [PATCH 53/70] fix: the flag that stops a tracing session's worker is
 atomic

---
 scalopus_catapult/src/trace_session.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scalopus_catapult/src/trace_session.h b/scalopus_catapult/src/trace_session.h
index 8021426..fb454be 100644
--- a/scalopus_catapult/src/trace_session.h
+++ b/scalopus_catapult/src/trace_session.h
@@ -32,6 +32,7 @@
 #define SCALOPUS_CATAPULT_TRACE_SESSION_H
 
 #include <scalopus_interface/trace_event_source.h>
+#include <atomic>
 #include <functional>
 #include <list>
 #include <mutex>
@@ -106,8 +107,8 @@ private:
    */
   void outgoing(const std::string& msg);
 
-  std::thread worker_;    //!< Worker thread for this session.
-  bool running_{ true };  //!< Bool to quit the worker thread gracefully.
+  std::thread worker_;                //!< Worker thread for this session.
+  std::atomic_bool running_{ true };  //!< Bool to quit the worker thread gracefully.
 
   /**
    * @brief The function executed by the worker thread.
-- 
2.43.0


From f80e351e5045f191fcb099b315580398dfeef369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:50 +0000
Subject: [PATCH 54/70] fix: sources can be added while the session's worker is
 running

---
 scalopus_catapult/src/trace_session.cpp | 17 ++++++++++++-----
 scalopus_catapult/src/trace_session.h   |  6 ++++++
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index fc22111..aed0d0f 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -46,7 +46,14 @@ TraceSession::~TraceSession()
 
 void TraceSession::addSource(TraceEventSource::Ptr&& source)
 {
-  sources_.push_back(source);
+  std::lock_guard<decltype(sources_mutex_)> lock(sources_mutex_);
+  sources_.push_back(std::move(source));
+}
+
+std::vector<TraceEventSource::Ptr> TraceSession::sources() const
+{
+  std::lock_guard<decltype(sources_mutex_)> lock(sources_mutex_);
+  return sources_;
 }
 
 void TraceSession::incoming(const std::string& data)
@@ -80,7 +87,7 @@ void TraceSession::loop()
     }
 
     // Perform work with the sources
-    for (auto& source : sources_)
+    for (auto& source : sources())
     {
       source->work();
     }
@@ -110,7 +117,7 @@ void TraceSession::processMessage(const std::string& incoming_msg)
   {
     // Tracing was started by catapult.
     json res = { { "id", msg["id"] }, { "result", {} } };
-    for (auto& source : sources_)
+    for (auto& source : sources())
     {
       source->startInterval();
     }
@@ -121,7 +128,7 @@ void TraceSession::processMessage(const std::string& incoming_msg)
   if (msg["method"] == "Tracing.end")
   {
     // Tracing was stopped.
-    for (auto& source : sources_)
+    for (auto& source : sources())
     {
       source->stopInterval();
     }
@@ -130,7 +137,7 @@ void TraceSession::processMessage(const std::string& incoming_msg)
     outgoing(res.dump());
 
     std::vector<json> events;
-    for (auto& source : sources_)
+    for (auto& source : sources())
     {
       auto results = source->finishInterval();
       events.insert(events.end(), results.begin(), results.end());
diff --git a/scalopus_catapult/src/trace_session.h b/scalopus_catapult/src/trace_session.h
index fb454be..3269d18 100644
--- a/scalopus_catapult/src/trace_session.h
+++ b/scalopus_catapult/src/trace_session.h
@@ -82,6 +82,7 @@ public:
 private:
   ResponseFunction response_;  //!< The function to be used to send data to the client over the websocket.
 
+  mutable std::mutex sources_mutex_;            //!< Mutex for the list of sources, the worker runs while they are added.
   std::vector<TraceEventSource::Ptr> sources_;  //!< The active sources in this session.
 
   mutable std::mutex incoming_mutex_;    //!< Mutex for list of incoming messages that are pending processing.
@@ -101,6 +102,11 @@ private:
    */
   std::string popIncoming();
 
+  /**
+   * @brief Return the sources that are in this session at this moment.
+   */
+  std::vector<TraceEventSource::Ptr> sources() const;
+
   /**
    * @brief Function that passes the message to the response function and prints it into the terminal.
    * @param msg The message to send to the client over the websocket.
-- 
2.43.0


From 080fbe1dbd7d2895f91757f7439b2ecc2d4cbe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:50 +0000
Subject: [PATCH 55/70] fix: messages that are no devtools command do not
 terminate the server

---
 scalopus_catapult/src/trace_session.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index aed0d0f..65bf319 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -101,7 +101,12 @@ void TraceSession::loop()
 void TraceSession::processMessage(const std::string& incoming_msg)
 {
   logger_("[session " + identifier() + "] <- " + incoming_msg);
-  auto msg = json::parse(incoming_msg);
+  auto msg = json::parse(incoming_msg, nullptr, false);
+  if (!msg.is_object())
+  {
+    logger_("[session " + identifier() + "] ignoring a message that is not a json object.");
+    return;
+  }
 
   if (msg["method"] == "Tracing.getCategories")
   {
-- 
2.43.0


From d5d449764fe37345e608156077fc42a580eb203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:50 +0000
Subject: [PATCH 56/70] fix: a source that fails does not terminate the tracing
 session

---
 scalopus_catapult/src/trace_session.cpp | 37 ++++++++++++++-----------
 scalopus_catapult/src/trace_session.h   |  6 ++++
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index 65bf319..404070e 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -56,6 +56,21 @@ std::vector<TraceEventSource::Ptr> TraceSession::sources() const
   return sources_;
 }
 
+void TraceSession::forEachSource(const std::function<void(TraceEventSource& source)>& function)
+{
+  for (auto& source : sources())
+  {
+    try
+    {
+      function(*source);
+    }
+    catch (const std::exception& e)
+    {
+      logger_("[session " + identifier() + "] source failed: " + e.what());
+    }
+  }
+}
+
 void TraceSession::incoming(const std::string& data)
 {
   std::lock_guard<decltype(incoming_mutex_)> lock(incoming_mutex_);
@@ -87,10 +102,7 @@ void TraceSession::loop()
     }
 
     // Perform work with the sources
-    for (auto& source : sources())
-    {
-      source->work();
-    }
+    forEachSource([](TraceEventSource& source) { source.work(); });
 
     // Finally, block a bit just to prevent spinning.
     // @TODO Think of a way to allow it to block here until there are messages or work needs to be done.
@@ -122,10 +134,7 @@ void TraceSession::processMessage(const std::string& incoming_msg)
   {
     // Tracing was started by catapult.
     json res = { { "id", msg["id"] }, { "result", {} } };
-    for (auto& source : sources())
-    {
-      source->startInterval();
-    }
+    forEachSource([](TraceEventSource& source) { source.startInterval(); });
     outgoing(res.dump());
     return;
   }
@@ -133,20 +142,16 @@ void TraceSession::processMessage(const std::string& incoming_msg)
   if (msg["method"] == "Tracing.end")
   {
     // Tracing was stopped.
-    for (auto& source : sources())
-    {
-      source->stopInterval();
-    }
+    forEachSource([](TraceEventSource& source) { source.stopInterval(); });
 
     json res = { { "id", msg["id"] }, { "result", nullptr } };  // nullptr gets converted to NULL, which we need.
     outgoing(res.dump());
 
     std::vector<json> events;
-    for (auto& source : sources())
-    {
-      auto results = source->finishInterval();
+    forEachSource([&events](TraceEventSource& source) {
+      auto results = source.finishInterval();
       events.insert(events.end(), results.begin(), results.end());
-    }
+    });
     chunkedTransmit(events);
 
     res = { { "method", "Tracing.tracingComplete" }, { "params", std::vector<int>{} } };
diff --git a/scalopus_catapult/src/trace_session.h b/scalopus_catapult/src/trace_session.h
index 3269d18..e71a3cb 100644
--- a/scalopus_catapult/src/trace_session.h
+++ b/scalopus_catapult/src/trace_session.h
@@ -107,6 +107,12 @@ private:
    */
   std::vector<TraceEventSource::Ptr> sources() const;
 
+  /**
+   * @brief Call the function on all sources, a source that fails is logged and does not affect the others.
+   * @param function The function to call with each source.
+   */
+  void forEachSource(const std::function<void(TraceEventSource& source)>& function);
+
   /**
    * @brief Function that passes the message to the response function and prints it into the terminal.
    * @param msg The message to send to the client over the websocket.
-- 
2.43.0


From c3346dc7597f8753720f0e54bf09c496b21554ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:50 +0000
Subject: [PATCH 57/70] fix: events with names that are not valid utf-8 can be
 sent to the frontend

---
 scalopus_catapult/src/trace_session.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index 404070e..d287098 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -196,7 +196,8 @@ std::string TraceSession::formatEvents(const std::vector<json>& entries)
       ss << ",\n";
     }
     has_added = true;
-    ss << entry.dump();
+    // names may hold anything, bytes that are not valid utf-8 are replaced instead of failing.
+    ss << entry.dump(-1, ' ', false, json::error_handler_t::replace);
   }
   ss << "]}}";
   return ss.str();
-- 
2.43.0


From 9ce0bcbd59d563f82ba4e3f2c9b8c1bef6f49c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:54 +0000
Subject: [PATCH 58/70] fix: a recorder that is not running can be stopped and
 destroyed

---
 scalopus_catapult/src/catapult_recorder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scalopus_catapult/src/catapult_recorder.cpp b/scalopus_catapult/src/catapult_recorder.cpp
index c780a46..536d65e 100644
--- a/scalopus_catapult/src/catapult_recorder.cpp
+++ b/scalopus_catapult/src/catapult_recorder.cpp
@@ -54,7 +54,10 @@ void CatapultRecorder::loop()
 void CatapultRecorder::stop()
 {
   running_ = false;
-  worker_.join();
+  if (worker_.joinable())
+  {
+    worker_.join();
+  }
 }
 
 void CatapultRecorder::startInterval()
-- 
2.43.0


From 672b8dd7c54f9ece7c078101b1c4e1d3bf195060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:54 +0000
Subject: [PATCH 59/70] fix: a source that fails does not terminate the
 recorder

---
 .../scalopus_catapult/catapult_recorder.h     |  7 +++
 scalopus_catapult/src/catapult_recorder.cpp   | 49 +++++++++----------
 2 files changed, 31 insertions(+), 25 deletions(-)

diff --git a/scalopus_catapult/include/scalopus_catapult/catapult_recorder.h b/scalopus_catapult/include/scalopus_catapult/catapult_recorder.h
index 6e5720e..8f0fd11 100644
--- a/scalopus_catapult/include/scalopus_catapult/catapult_recorder.h
+++ b/scalopus_catapult/include/scalopus_catapult/catapult_recorder.h
@@ -32,6 +32,7 @@
 
 #include <scalopus_interface/trace_event_provider.h>
 #include <atomic>
+#include <functional>
 #include <mutex>
 #include <thread>
 
@@ -98,6 +99,12 @@ public:
 private:
   void loop();  //!< Function the thread executes.
 
+  /**
+   * @brief Call the function on all sources, a source that fails is reported on stderr and does not affect the others.
+   * @param function The function to call with each source.
+   */
+  void forEachSource(const std::function<void(TraceEventSource& source)>& function);
+
   std::vector<TraceEventProvider::Ptr> providers_;
   std::vector<TraceEventSource::Ptr> sources_;
 
diff --git a/scalopus_catapult/src/catapult_recorder.cpp b/scalopus_catapult/src/catapult_recorder.cpp
index 536d65e..7f60ae8 100644
--- a/scalopus_catapult/src/catapult_recorder.cpp
+++ b/scalopus_catapult/src/catapult_recorder.cpp
@@ -29,21 +29,32 @@
 */
 #include "scalopus_catapult/catapult_recorder.h"
 #include <fstream>
+#include <iostream>
 #include <sstream>
 
 namespace scalopus
 {
-void CatapultRecorder::loop()
+void CatapultRecorder::forEachSource(const std::function<void(TraceEventSource& source)>& function)
 {
-  while (running_)
+  std::lock_guard<std::mutex> lock{ source_mutex_ };
+  for (auto& source : sources_)
   {
+    try
     {
-      std::lock_guard<std::mutex> lock{ source_mutex_ };
-      for (auto& source : sources_)
-      {
-        source->work();
-      }
+      function(*source);
     }
+    catch (const std::exception& e)
+    {
+      std::cerr << "[CatapultRecorder] source failed: " << e.what() << std::endl;
+    }
+  }
+}
+
+void CatapultRecorder::loop()
+{
+  while (running_)
+  {
+    forEachSource([](TraceEventSource& source) { source.work(); });
 
     // Finally, block a bit just to prevent spinning.
     // @TODO Think of a way to allow it to block here until there are messages or work needs to be done.
@@ -62,20 +73,12 @@ void CatapultRecorder::stop()
 
 void CatapultRecorder::startInterval()
 {
-  std::lock_guard<std::mutex> lock{ source_mutex_ };
-  for (auto& source : sources_)
-  {
-    source->startInterval();
-  }
+  forEachSource([](TraceEventSource& source) { source.startInterval(); });
 }
 
 void CatapultRecorder::stopInterval()
 {
-  std::lock_guard<std::mutex> lock{ source_mutex_ };
-  for (auto& source : sources_)
-  {
-    source->stopInterval();
-  }
+  forEachSource([](TraceEventSource& source) { source.stopInterval(); });
 }
 
 void CatapultRecorder::addProvider(TraceEventProvider::Ptr provider)
@@ -113,14 +116,10 @@ std::string CatapultRecorder::collectEvents()
 
   // Then collect the events by calling finishInterval
   std::vector<json> events;
-  {
-    std::lock_guard<std::mutex> lock{ source_mutex_ };
-    for (auto& source : sources_)
-    {
-      auto results = source->finishInterval();
-      events.insert(events.end(), results.begin(), results.end());
-    }
-  }
+  forEachSource([&events](TraceEventSource& source) {
+    auto results = source.finishInterval();
+    events.insert(events.end(), results.begin(), results.end());
+  });
 
   // And format it to json.
   std::stringstream ss;
-- 
2.43.0


From ec76f1eb855c506809822b1b0c3aa3e96bdd87e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:54 +0000
Subject: [PATCH 60/70] fix: recordings with names that are not valid utf-8 can
 be collected

---
 scalopus_catapult/src/catapult_recorder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalopus_catapult/src/catapult_recorder.cpp b/scalopus_catapult/src/catapult_recorder.cpp
index 7f60ae8..0d815e8 100644
--- a/scalopus_catapult/src/catapult_recorder.cpp
+++ b/scalopus_catapult/src/catapult_recorder.cpp
@@ -132,7 +132,8 @@ std::string CatapultRecorder::collectEvents()
       ss << ",\n";
     }
     has_added = true;
-    ss << entry.dump();
+    // names may hold anything, bytes that are not valid utf-8 are replaced instead of failing.
+    ss << entry.dump(-1, ' ', false, json::error_handler_t::replace);
   }
   ss << "\n]\n";
   return ss.str();
-- 
2.43.0


From e4b19782b0be22310052f318f121dfd438db4e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 61/70] fix: endpoints that outlive their transport no longer
 use it after it is destroyed

---
 scalopus_interface/src/transport.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/scalopus_interface/src/transport.cpp b/scalopus_interface/src/transport.cpp
index 3670bb8..4f95ea5 100644
--- a/scalopus_interface/src/transport.cpp
+++ b/scalopus_interface/src/transport.cpp
@@ -83,8 +83,18 @@ Endpoint::Ptr Transport::getEndpoint(const std::string& name) const
 void Transport::clearEndpoints()
 {
   std::map<std::string, Endpoint::Ptr> endpoints;
-  std::lock_guard<std::mutex> lock(endpoint_mutex_);
-  endpoints.swap(endpoints_);
+  {
+    std::lock_guard<std::mutex> lock(endpoint_mutex_);
+    endpoints.swap(endpoints_);
+  }
+  for (const auto& name_endpoint : endpoints)
+  {
+    // Somebody else may hold on to the endpoint for longer than this transport exists.
+    if (name_endpoint.second->getTransport() == this)
+    {
+      name_endpoint.second->setTransport(static_cast<Transport*>(nullptr));
+    }
+  }
 }
 
 void Transport::setLogger(LoggingFunction logger)
-- 
2.43.0


From 33f32e24923a013b165d12592b9b8d3d2aa5dbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:15 +0000
Subject: [PATCH 62/70] fix: a peer that sends urgent data and disconnects is
 closed only once

---
 scalopus_transport/src/transport_unix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index e633ab4..17b3dda 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -403,7 +403,7 @@ void TransportUnix::work()
         }
       }
 
-      if (FD_ISSET(connection, &except_fds))
+      if (FD_ISSET(connection, &except_fds) && connections_.count(connection) != 0)
       {
         ::shutdown(connection, 2);
         ::close(connection);
-- 
2.43.0


From 7080a74b24458757d25ae68187374005f13160f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:15 +0000
Subject: [PATCH 63/70] fix: programs a process starts no longer inherit its
 sockets and keep them open

---
 scalopus_transport/src/transport_unix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 17b3dda..0ce1349 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -50,7 +50,7 @@ TransportUnix::TransportUnix()
 bool TransportUnix::serve()
 {
   // Create the server socket to work with.
-  server_fd_ = socket(AF_UNIX, SOCK_STREAM, 0);
+  server_fd_ = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
 
   if (server_fd_ == -1)
   {
@@ -105,7 +105,7 @@ bool TransportUnix::serve()
 
 bool TransportUnix::connect(std::size_t pid)
 {
-  client_fd_ = socket(AF_UNIX, SOCK_STREAM, 0);
+  client_fd_ = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
 
   if (client_fd_ == -1)
   {
@@ -287,7 +287,7 @@ void TransportUnix::work()
     if (FD_ISSET(server_fd_, &read_fds))
     {
       int client{ 0 };
-      client = accept(server_fd_, nullptr, nullptr);
+      client = accept4(server_fd_, nullptr, nullptr, SOCK_CLOEXEC);
       if (client == -1)
       {
         logger_("[TransportUnix] Could not accept client.");
-- 
2.43.0


From 63772e5196d96cbb65a4f16138ff5b5ec8dd4682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:15 +0000
Subject: [PATCH 64/70] fix: transports work when their socket gets descriptor
 number 0

---
 scalopus_transport/src/protocol.cpp       |  2 +-
 scalopus_transport/src/transport_unix.cpp | 14 +++++++-------
 scalopus_transport/src/transport_unix.h   |  4 ++--
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/scalopus_transport/src/protocol.cpp b/scalopus_transport/src/protocol.cpp
index d821ddd..aec93fb 100644
--- a/scalopus_transport/src/protocol.cpp
+++ b/scalopus_transport/src/protocol.cpp
@@ -169,7 +169,7 @@ static bool sendData(int fd, const void* data, size_t length)
 
 bool send(int fd, const Msg& outgoing)
 {
-  if (fd == 0)
+  if (fd < 0)
   {
     return false;
   }
diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 0ce1349..17536c5 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -181,7 +181,7 @@ Transport::PendingResponse TransportUnix::request(const std::string& remote_endp
 
 bool TransportUnix::isConnected() const
 {
-  return (client_fd_ != 0) || (server_fd_ != 0);
+  return (client_fd_ != -1) || (server_fd_ != -1);
 }
 
 std::vector<std::size_t> TransportUnix::getTransportServers()
@@ -231,7 +231,7 @@ TransportUnix::~TransportUnix()
 {
   // First, stop the thread
   running_ = false;
-  if (client_fd_ > 0)
+  if (client_fd_ != -1)
   {
     ::shutdown(client_fd_, 2);  // the worker may be waiting for the remainder of a message.
   }
@@ -284,7 +284,7 @@ void TransportUnix::work()
     }
 
     // Handle server stuff, accept new connection:
-    if (FD_ISSET(server_fd_, &read_fds))
+    if (server_fd_ != -1 && FD_ISSET(server_fd_, &read_fds))
     {
       int client{ 0 };
       client = accept4(server_fd_, nullptr, nullptr, SOCK_CLOEXEC);
@@ -304,7 +304,7 @@ void TransportUnix::work()
     }
 
     // handle client readable:
-    if (FD_ISSET(client_fd_, &read_fds))
+    if (client_fd_ != -1 && FD_ISSET(client_fd_, &read_fds))
     {
       protocol::Msg incoming;
       if (!protocol::receive(client_fd_, incoming))
@@ -312,7 +312,7 @@ void TransportUnix::work()
         // we failed reading data, if this happens we lost the connection. The file descriptor itself is closed by the
         // destructor, another thread may be using it in request().
         running_ = false;
-        client_fd_ = 0;
+        client_fd_ = -1;
         std::lock_guard<std::mutex> lock(request_lock_);
         for (auto& request : ongoing_requests_)
         {
@@ -367,7 +367,7 @@ void TransportUnix::work()
       }
     }
 
-    if (FD_ISSET(server_fd_, &except_fds))
+    if (server_fd_ != -1 && FD_ISSET(server_fd_, &except_fds))
     {
       logger_("[TransportUnix] Exception on server ");
     }
@@ -484,7 +484,7 @@ bool TransportUnix::processMsg(const protocol::Msg& request, protocol::Msg& resp
 
 Destination::Ptr TransportUnix::getAddress()
 {
-  if (server_fd_ != 0)
+  if (server_fd_ != -1)
   {
     return std::make_shared<DestinationUnix>(::getpid());
   }
diff --git a/scalopus_transport/src/transport_unix.h b/scalopus_transport/src/transport_unix.h
index f09fe95..6226873 100644
--- a/scalopus_transport/src/transport_unix.h
+++ b/scalopus_transport/src/transport_unix.h
@@ -86,8 +86,8 @@ private:
 
   std::thread thread_;  //!< Worker thread to handle connections and communication.
   void work();          //!< Function for the worker thread.
-  int server_fd_{ 0 };  //!< File descriptor from the server bind.
-  std::atomic_int client_fd_{ 0 };  //!< File descriptor from connecting to a server.
+  int server_fd_{ -1 };  //!< File descriptor from the server bind.
+  std::atomic_int client_fd_{ -1 };  //!< File descriptor from connecting to a server.
   std::size_t client_pid_{ 0 };
 
   std::atomic_bool running_{ false };  //!< Boolean to quit the worker thread.
-- 
2.43.0


From 5154a5ebbe47f4c19dfd3371a25a9a24dd065ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:41 +0000
Subject: [PATCH 65/70] fix: serving and connecting fail cleanly when no worker
 thread can be started

---
 scalopus_transport/src/transport_unix.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 17536c5..154fff1 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -39,6 +39,7 @@
 #include <fstream>
 #include <iostream>
 #include <sstream>
+#include <system_error>
 #include "protocol.h"
 
 namespace scalopus
@@ -98,7 +99,16 @@ bool TransportUnix::serve()
 
   // If we get here, we are golden, we got a working unix domain socket and can start our worker thread.
   running_ = true;
-  thread_ = std::thread([this]() { work(); });
+  try
+  {
+    thread_ = std::thread([this]() { work(); });
+  }
+  catch (const std::system_error&)
+  {
+    running_ = false;
+    logger_("[TransportUnix] Could not start the worker thread.");
+    return false;
+  }
 
   return true;
 }
@@ -141,7 +151,16 @@ bool TransportUnix::connect(std::size_t pid)
     //  logger_("[TransportUnix] Succesfully connected: " + ss.str());
   }
   running_ = true;
-  thread_ = std::thread([&]() { work(); });
+  try
+  {
+    thread_ = std::thread([&]() { work(); });
+  }
+  catch (const std::system_error&)
+  {
+    running_ = false;
+    logger_("[TransportUnix] Could not start the worker thread.");
+    return false;
+  }
 
   return true;
 }
-- 
2.43.0


From baeba0278452cd7ad35720148b81a9f233d54e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:19 +0000
Subject: [PATCH 66/70] fix: TRACE_COUNT's value is shown as the series
 'count', as documented

---
 scalopus_tracing/src/scope_tracing_provider.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scalopus_tracing/src/scope_tracing_provider.cpp b/scalopus_tracing/src/scope_tracing_provider.cpp
index 040a724..7cac1ed 100644
--- a/scalopus_tracing/src/scope_tracing_provider.cpp
+++ b/scalopus_tracing/src/scope_tracing_provider.cpp
@@ -107,14 +107,15 @@ std::pair<std::string, std::string> ScopeTracingProvider::splitCounterSeriesName
 {
   std::pair<std::string, std::string> res;
   auto index = trace_string.find("/");
-  if ((index != std::string::npos) && (index + 1 <= trace_string.size()))
+  if ((index != std::string::npos) && (index + 1 < trace_string.size()))
   {
     res.first = trace_string.substr(0, index);
     res.second = std::string{ std::next(trace_string.begin(), static_cast<long>(index + 1)), trace_string.end() };
   }
   else
   {
-    res.first = trace_string;
+    // No series name, or an empty one, which is what TRACE_COUNT passes: just one series called 'count'.
+    res.first = trace_string.substr(0, index);
     res.second = "count";
   }
   return res;
-- 
2.43.0


From 5901f9ecd23df57c0ca7be99f80e9823f5ee3ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:06 +0000
Subject: [PATCH 67/70] fix: a manager whose polling thread could not be
 created can be retried and destroyed

---
 scalopus_general/src/endpoint_manager_poll.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalopus_general/src/endpoint_manager_poll.cpp b/scalopus_general/src/endpoint_manager_poll.cpp
index 17a9bde..4cfc3a1 100644
--- a/scalopus_general/src/endpoint_manager_poll.cpp
+++ b/scalopus_general/src/endpoint_manager_poll.cpp
@@ -151,9 +151,9 @@ void EndpointManagerPoll::startPolling(const double interval)
 
 void EndpointManagerPoll::stopPolling()
 {
-  if (is_polling_)
+  is_polling_ = false;
+  if (thread_.joinable())  // it isn't if the thread could not be created.
   {
-    is_polling_ = false;
     thread_.join();
   }
 }
-- 
2.43.0


From 5a23b3475a09289e6935ee2800a93d742e8d9dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:06 +0000
Subject: [PATCH 68/70] fix: a web server whose thread could not be created can
 be destroyed

---
 scalopus_catapult/src/catapult_server.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scalopus_catapult/src/catapult_server.cpp b/scalopus_catapult/src/catapult_server.cpp
index f1dfe94..eb187e0 100644
--- a/scalopus_catapult/src/catapult_server.cpp
+++ b/scalopus_catapult/src/catapult_server.cpp
@@ -94,7 +94,10 @@ CatapultServer::~CatapultServer()
   if (server_ != nullptr)
   {
     server_->terminate();
-    thread_.join();
+    if (thread_.joinable())  // it isn't if start() failed.
+    {
+      thread_.join();
+    }
   }
 }
 
-- 
2.43.0


From dd07db9ffe09f80d3942ea595dec7758f7502bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:06 +0000
Subject: [PATCH 69/70] fix: a recorder whose thread could not be created can
 be started again

---
 scalopus_catapult/src/catapult_recorder.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/scalopus_catapult/src/catapult_recorder.cpp b/scalopus_catapult/src/catapult_recorder.cpp
index 0d815e8..5f5e647 100644
--- a/scalopus_catapult/src/catapult_recorder.cpp
+++ b/scalopus_catapult/src/catapult_recorder.cpp
@@ -31,6 +31,7 @@
 #include <fstream>
 #include <iostream>
 #include <sstream>
+#include <system_error>
 
 namespace scalopus
 {
@@ -101,7 +102,15 @@ void CatapultRecorder::start()
     sources_.push_back(provider->makeSource());
   }
   running_ = true;
-  worker_ = std::thread{ [&] { loop(); } };
+  try
+  {
+    worker_ = std::thread{ [&] { loop(); } };
+  }
+  catch (const std::system_error& /* e */)
+  {
+    running_ = false;  // such that start() can be tried again.
+    throw;
+  }
 }
 
 void CatapultRecorder::setupDumpFile(const std::string& file_path)
-- 
2.43.0


From 086d7227d58d88d82bf3cced745a50eeb87b6e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:06 +0000
Subject: [PATCH 70/70] fix: a session that cannot be created does not end the
 web server

---
 scalopus_catapult/src/catapult_backend.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/scalopus_catapult/src/catapult_backend.cpp b/scalopus_catapult/src/catapult_backend.cpp
index 7852615..ee3985e 100644
--- a/scalopus_catapult/src/catapult_backend.cpp
+++ b/scalopus_catapult/src/catapult_backend.cpp
@@ -92,7 +92,16 @@ std::shared_ptr<ss::Response> CatapultBackend::handle(const ss::Request& request
 void CatapultBackend::onConnect(ss::WebSocket* ws)
 {
   logger_("[CatapultBackend]: New connection opened: " + std::to_string(reinterpret_cast<std::size_t>(ws)));
-  makeSession(ws);
+  try
+  {
+    makeSession(ws);
+  }
+  catch (const std::exception& e)
+  {
+    // An exception must not end the server thread, without a session this connection is of no use.
+    logger_("[CatapultBackend]: Failed to create a session: " + std::string(e.what()));
+    ws->close();
+  }
 }
 
 void CatapultBackend::onData(ss::WebSocket* /* connection */, const uint8_t* /* data */, size_t /* length */)
-- 
2.43.0

