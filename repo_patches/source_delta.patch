From db4ca682a65968e9892dc6d318f60537cd45410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:29 +0000
Subject: [PATCH 01/16] fix: memory parity error has exception code 0x08, as
 parsed and as specified

---
 lib/include/modbus/messages/ExceptionType.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/modbus/messages/ExceptionType.h b/lib/include/modbus/messages/ExceptionType.h
index 4823050..b480209 100644
--- a/lib/include/modbus/messages/ExceptionType.h
+++ b/lib/include/modbus/messages/ExceptionType.h
@@ -82,13 +82,13 @@ enum class ExceptionType
     ServerDeviceBusy = 0x06,
 
     /**
-     * @cpp 0x07 @ce Memory parity error
+     * @cpp 0x08 @ce Memory parity error
      *
      * The extended file area failed to pass a consistency check.
      *
      * Used with function codes @cpp 0x20 @ce and @cpp 0x21 @ce (not supported by this library)
      */
-    MemoryParityError = 0x07,
+    MemoryParityError = 0x08,
 
     /**
      * @cpp 0x0A @ce Gateway path unavailable
-- 
2.43.0


From 518670b0fb4c77529684d393d652de3494940204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:29 +0000
Subject: [PATCH 02/16] fix: reject register responses whose byte count differs
 from their payload

---
 lib/src/messages/ReadRegistersResponseImpl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/messages/ReadRegistersResponseImpl.cpp b/lib/src/messages/ReadRegistersResponseImpl.cpp
index 7a45f07..aa156fe 100644
--- a/lib/src/messages/ReadRegistersResponseImpl.cpp
+++ b/lib/src/messages/ReadRegistersResponseImpl.cpp
@@ -85,6 +85,12 @@ ReadRegistersResponseImpl<function_code, request_t, response_t>::parse(const Rea
         return Expected<response_t>::from_exception(MalformedModbusResponseException{"Response should contain an even number of register bytes."});
     }
 
+    // Check that the number of bytes fits
+    if(view.length() != length)
+    {
+        return Expected<response_t>::from_exception(MalformedModbusResponseException{"Response length does not fit with the value in the header."});
+    }
+
     // Check that each number of registers match
     if(view.length() != 2 * req.get_request().qty_of_registers)
     {
-- 
2.43.0


From 6b1e50cfcb4c2a89affff6deec9115dcf6688b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:55 +0000
Subject: [PATCH 03/16] fix: deliver a frame without payload as soon as its
 header has arrived

---
 lib/src/messages/mbap/MbapParser.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/lib/src/messages/mbap/MbapParser.cpp b/lib/src/messages/mbap/MbapParser.cpp
index c0f306e..ba08302 100644
--- a/lib/src/messages/mbap/MbapParser.cpp
+++ b/lib/src/messages/mbap/MbapParser.cpp
@@ -36,16 +36,15 @@ void MbapParser::parse(ser4cpp::rseq_t data)
         m_num_bytes_to_read -= read.length();
         m_buffer_view.copy_from(read);
 
-        if(m_num_bytes_to_read == 0)
+        if(m_num_bytes_to_read == 0 && !m_reading_body)
         {
-            if(!m_reading_body)
-            {
-                find_body_size();
-            }
-            else
-            {
-                send_data();
-            }
+            find_body_size();
+        }
+
+        // A frame without payload is complete as soon as its header is
+        if(m_num_bytes_to_read == 0 && m_reading_body)
+        {
+            send_data();
         }
     }
 }
-- 
2.43.0


From 78149e95294d3d12972cce0013c83a76a2912cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:55 +0000
Subject: [PATCH 04/16] fix: an over-long frame contains its own first bytes
 however it is split

---
 lib/src/messages/mbap/MbapParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/messages/mbap/MbapParser.cpp b/lib/src/messages/mbap/MbapParser.cpp
index ba08302..ed90167 100644
--- a/lib/src/messages/mbap/MbapParser.cpp
+++ b/lib/src/messages/mbap/MbapParser.cpp
@@ -34,7 +34,7 @@ void MbapParser::parse(ser4cpp::rseq_t data)
         auto read = data.take(m_num_bytes_to_read);
         data.advance(read.length());
         m_num_bytes_to_read -= read.length();
-        m_buffer_view.copy_from(read);
+        m_buffer_view.copy_from(read.take(m_buffer_view.length())); // What exceeds the maximum size is dropped
 
         if(m_num_bytes_to_read == 0 && !m_reading_body)
         {
-- 
2.43.0


From ce64cb5b5de2b4185b947f4ee35b689b78db269a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:58 +0000
Subject: [PATCH 05/16] fix: identifiers print in their fixed form whatever the
 formatting state of the stream

---
 lib/src/TransactionIdentifier.cpp | 13 +++++++------
 lib/src/UnitIdentifier.cpp        | 12 +++++-------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/lib/src/TransactionIdentifier.cpp b/lib/src/TransactionIdentifier.cpp
index c194388..344bde2 100644
--- a/lib/src/TransactionIdentifier.cpp
+++ b/lib/src/TransactionIdentifier.cpp
@@ -15,8 +15,6 @@
  */
 #include "TransactionIdentifier.h"
 
-#include <iomanip>
-
 namespace modbus
 {
 
@@ -56,10 +54,13 @@ TransactionIdentifier TransactionIdentifier::operator++(int)
 
 std::ostream& operator<<(std::ostream& stream, const TransactionIdentifier& transaction_id)
 {
-    return stream << "0x"
-                  << std::uppercase
-                  << std::setw(4) << std::setfill('0')
-                  << std::hex << (unsigned int)transaction_id.get_value();
+    // The formatting state of the stream neither affects the output nor is affected by it
+    static const char digits[] = "0123456789ABCDEF";
+    const auto value = transaction_id.get_value();
+    const char text[] = {'0', 'x',
+                         digits[value >> 12], digits[(value >> 8) & 0x0F],
+                         digits[(value >> 4) & 0x0F], digits[value & 0x0F], '\0'};
+    return stream << text;
 }
 
 } // namespace modbus
diff --git a/lib/src/UnitIdentifier.cpp b/lib/src/UnitIdentifier.cpp
index dbdb362..2ef6145 100644
--- a/lib/src/UnitIdentifier.cpp
+++ b/lib/src/UnitIdentifier.cpp
@@ -15,18 +15,16 @@
  */
 #include "modbus/UnitIdentifier.h"
 
-#include <ios>
-#include <iomanip>
-
 namespace modbus
 {
 
 std::ostream& operator<<(std::ostream& stream, const UnitIdentifier& unit_id)
 {
-    return stream << "0x"
-                  << std::uppercase
-                  << std::setw(2) << std::setfill('0')
-                  << std::hex << (unsigned int)unit_id.get_value();
+    // The formatting state of the stream neither affects the output nor is affected by it
+    static const char digits[] = "0123456789ABCDEF";
+    const auto value = unit_id.get_value();
+    const char text[] = {'0', 'x', digits[value >> 4], digits[value & 0x0F], '\0'};
+    return stream << text;
 }
 
 } // namespace modbus
-- 
2.43.0


From a3406aee1810609fa53b21bf0f4231747585fed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:22 +0000
Subject: [PATCH 06/16] fix: an expired timer only times out the request it was
 started for

---
 lib/src/client/channel/ClientChannelTcp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/client/channel/ClientChannelTcp.cpp b/lib/src/client/channel/ClientChannelTcp.cpp
index 6cb27e8..f0d5990 100644
--- a/lib/src/client/channel/ClientChannelTcp.cpp
+++ b/lib/src/client/channel/ClientChannelTcp.cpp
@@ -192,10 +192,12 @@ void ClientChannelTcp::check_pending_requests()
         m_tcp_connection->set_listener(std::dynamic_pointer_cast<ClientChannelTcp>(shared_from_this()));
         m_tcp_connection->send(serialized_request);
 
+        const auto transaction_id = m_current_request->transaction_id;
         m_current_timer = m_executor->start(m_current_request->timeout, [=, self = shared_from_this()]() {
             if(m_is_shutdown) return;
 
-            if (m_current_request)
+            // The timer may already have expired when its request was completed, it must not end the next one
+            if (m_current_request && m_current_request->transaction_id == transaction_id)
             {
                 m_logger->warn("Timeout reached. UnitId: {}, TransactionId: {}.",
                     m_current_request->unit_id, m_current_request->transaction_id);
-- 
2.43.0


From 44e2f9e90b7f2942fb1c1893e721677d60bdcaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:22 +0000
Subject: [PATCH 07/16] fix: a refused request is not reported after the
 shutdown

---
 lib/src/client/channel/ClientChannelTcp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/client/channel/ClientChannelTcp.cpp b/lib/src/client/channel/ClientChannelTcp.cpp
index f0d5990..2929bab 100644
--- a/lib/src/client/channel/ClientChannelTcp.cpp
+++ b/lib/src/client/channel/ClientChannelTcp.cpp
@@ -85,6 +85,8 @@ void ClientChannelTcp::send_request(const UnitIdentifier& unit_identifier,
     else
     {
         m_executor->post([=, self = shared_from_this()]() {
+            if(m_is_shutdown) return;
+
             auto exception = Expected<ser4cpp::rseq_t>::from_exception(MalformedModbusRequestException("Modbus request is not valid."));
             response_handler(exception);
         });
-- 
2.43.0


From e1aaf9e8ba32be6df8d89c68a942867648ae9882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 08/16] fix: a scheduled request stopped or restarted at any
 moment polls once at a time

---
 lib/src/client/session/ScheduledRequest.h   |  2 ++
 lib/src/client/session/ScheduledRequest.hpp | 18 ++++++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/src/client/session/ScheduledRequest.h b/lib/src/client/session/ScheduledRequest.h
index 2af9ea3..3401d12 100644
--- a/lib/src/client/session/ScheduledRequest.h
+++ b/lib/src/client/session/ScheduledRequest.h
@@ -59,6 +59,8 @@ private:
     duration_t m_frequency;
 
     bool m_running;
+    bool m_waiting_for_response;
+    unsigned int m_current_pause;
     exe4cpp::Timer m_timer;
 };
 
diff --git a/lib/src/client/session/ScheduledRequest.hpp b/lib/src/client/session/ScheduledRequest.hpp
index 419ead5..974ef2d 100644
--- a/lib/src/client/session/ScheduledRequest.hpp
+++ b/lib/src/client/session/ScheduledRequest.hpp
@@ -38,6 +38,8 @@ ScheduledRequest<TRequest, TResponse>::ScheduledRequest(std::shared_ptr<IClientS
       m_timeout{timeout},
       m_frequency{frequency},
       m_running{false},
+      m_waiting_for_response{false},
+      m_current_pause{0},
       m_timer{nullptr}
 {
 
@@ -50,7 +52,12 @@ void ScheduledRequest<TRequest, TResponse>::start()
         if(!m_running)
         {
             m_running = true;
-            execute();
+
+            // If the response to an earlier poll is still awaited, the polling continues from there
+            if(!m_waiting_for_response)
+            {
+                execute();
+            }
         }
     });
 }
@@ -62,6 +69,7 @@ void ScheduledRequest<TRequest, TResponse>::stop()
         if(m_running)
         {
             m_running = false;
+            ++m_current_pause; // The timer may already have expired
             m_timer.cancel();
         }
     });
@@ -91,7 +99,9 @@ template<typename TRequest, typename TResponse>
 void ScheduledRequest<TRequest, TResponse>::execute()
 {
     // Send the request
+    m_waiting_for_response = true;
     m_session->send_request(m_request, m_timeout, [=, self = shared_from_this()](const Expected<TResponse>& response) {
+        m_waiting_for_response = false;
 
         // Call the response handler
         m_handler(response);
@@ -99,8 +109,12 @@ void ScheduledRequest<TRequest, TResponse>::execute()
         if(is_running())
         {
             // Start the timer for the next execution
+            const auto pause = ++m_current_pause;
             m_timer = m_executor->start(m_frequency, [=, self2 = self]() {
-                execute();
+                if(pause == m_current_pause)
+                {
+                    execute();
+                }
             });
         }
     });
-- 
2.43.0


From e4e0e95d2f902620208ee19558cbc86c74e8ca87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:30 +0000
Subject: [PATCH 09/16] fix: the session attached last serves its unit, and
 every session is shut down once

---
 lib/src/server/channel/ServerChannelTcp.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/src/server/channel/ServerChannelTcp.cpp b/lib/src/server/channel/ServerChannelTcp.cpp
index ee2dc43..47df69d 100644
--- a/lib/src/server/channel/ServerChannelTcp.cpp
+++ b/lib/src/server/channel/ServerChannelTcp.cpp
@@ -15,6 +15,8 @@
  */
 #include "server/channel/ServerChannelTcp.h"
 
+#include <set>
+
 #include "ser4cpp/container/SequenceTypes.h"
 #include "ser4cpp/container/StaticBuffer.h"
 #include "ser4cpp/serialization/BigEndian.h"
@@ -77,11 +79,18 @@ void ServerChannelTcp::shutdown()
             m_is_started = false;
         }
         
-        for(auto session : m_sessions)
+        // A session may be attached to several units
+        std::set<std::shared_ptr<IServerSession>> sessions;
+        for(auto& session : m_sessions)
         {
-            session.second->shutdown();
+            sessions.insert(session.second);
         }
         m_sessions.clear();
+
+        for(auto& session : sessions)
+        {
+            session->shutdown();
+        }
     });
 }
 
@@ -92,7 +101,7 @@ void ServerChannelTcp::add_session(const UnitIdentifier& unit_identifier, std::s
     m_executor->post([=, self=shared_from_this()]() {
         if(m_is_shutdown) return;
 
-        m_sessions.insert({unit_identifier, session});
+        m_sessions[unit_identifier] = session;
     });
 }
 
-- 
2.43.0


From 6d89efbe820659621992b73c44659b089198e7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:24 +0000
Subject: [PATCH 10/16] fix: the client connection transmits each buffer
 completely and survives every failure

Buffers were overwritten by the next send, cut short by partial writes, and lost
when an operation of an earlier connection completed late. A failed resolution,
open or bind left the socket open, so that no later connection succeeded.
---
 .../channel/AsioClientTcpConnection.cpp       | 164 +++++++++++-------
 .../client/channel/AsioClientTcpConnection.h  |  25 ++-
 2 files changed, 121 insertions(+), 68 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index f9bbc6e..b95790f 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -34,7 +34,9 @@ AsioClientTcpConnection::AsioClientTcpConnection(std::shared_ptr<Logger> logger,
           m_resolver{*executor->get_context()},
           m_tcp_socket{*executor->get_context()},
           m_is_shutdown{false},
-          m_current_connection_status{ConnectionStatus::NotConnected}
+          m_current_connection_status{ConnectionStatus::NotConnected},
+          m_connection_id{0},
+          m_is_writing{false}
 {
 
 }
@@ -48,38 +50,16 @@ void AsioClientTcpConnection::send(const ser4cpp::rseq_t& data)
 {
     if(m_is_shutdown) return;
     
-    m_write_buffer = std::make_unique<ser4cpp::Buffer>(data);
+    m_write_queue.push_back(std::make_shared<ser4cpp::Buffer>(data));
 
     if(m_current_connection_status == ConnectionStatus::NotConnected)
     {
-        m_logger->info("Establishing connection to {}:{}", m_ip_endpoint.get_hostname(), m_ip_endpoint.get_port());
-
-        // Connect to the proper adapter
-        asio::error_code ec{};
-        const auto address = asio::ip::address::from_string(m_adapter.empty() ? "0.0.0.0" : m_adapter, ec);
-        if(ec) { m_logger->error("from_address error: {}", ec.message()); return; }
-
-        asio::ip::tcp::endpoint endpoint{};
-        endpoint.address(address);
-        endpoint.port(0);
-        m_tcp_socket.open(asio::ip::tcp::v4(), ec);
-        if(ec) { m_logger->error("socket open error: {}", ec.message()); return; }
-
-        m_tcp_socket.bind(endpoint, ec);
-        if(ec) { m_logger->error("socket bind error: {}", ec.message()); return; }
-
-        // Start connecting
-        m_current_connection_status = ConnectionStatus::Connecting;
-        asio::ip::tcp::resolver::query query{m_ip_endpoint.get_hostname(), std::to_string(m_ip_endpoint.get_port())};
-        m_resolver.async_resolve(query,
-                                 m_executor->wrap(std::bind(&AsioClientTcpConnection::resolve_handler,
-                                                            std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                            _1, _2)));
+        connect();
     }
 
     if(m_current_connection_status == ConnectionStatus::Connected)
     {
-        send_buffer();
+        send_next_buffer();
     }
 }
 
@@ -90,16 +70,7 @@ void AsioClientTcpConnection::close()
     m_executor->post([=, self = shared_from_this()] () {
         if(m_is_shutdown) return;
 
-        m_current_connection_status = ConnectionStatus::NotConnected;
-
-        if(m_tcp_socket.is_open())
-        {
-            m_logger->info("Closing connection");
-
-            std::error_code ec;
-            m_tcp_socket.shutdown(asio::ip::tcp::socket::shutdown_both, ec);
-            m_tcp_socket.close(ec);
-        }
+        disconnect();
     });
 }
 
@@ -113,14 +84,14 @@ void AsioClientTcpConnection::shutdown()
     });
 }
 
-void AsioClientTcpConnection::resolve_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints)
+void AsioClientTcpConnection::resolve_handler(unsigned int connection_id, const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints)
 {
-    if(m_is_shutdown) return;
+    if(!is_current(connection_id)) return;
 
     if(ec)
     {
         m_logger->error("IP resolver error: {}", ec.message());
-        m_current_connection_status = ConnectionStatus::NotConnected;
+        disconnect();
         send_error(ec.message());
         return;
     }
@@ -129,43 +100,46 @@ void AsioClientTcpConnection::resolve_handler(const asio::error_code& ec, asio::
                         endpoints,
                         m_executor->wrap(std::bind(&AsioClientTcpConnection::connect_handler,
                                                 std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                _1)));
+                                                m_connection_id, _1)));
 }
 
-void AsioClientTcpConnection::connect_handler(const asio::error_code& ec)
+void AsioClientTcpConnection::connect_handler(unsigned int connection_id, const asio::error_code& ec)
 {
-    if(m_is_shutdown) return;
+    if(!is_current(connection_id)) return;
 
     if(ec)
     {
         m_logger->error("Connection error: {}", ec.message());
-        close();
+        disconnect();
         send_error(ec.message());
         return;
     }
 
     m_logger->info("Connection established");
     m_current_connection_status = ConnectionStatus::Connected;
-    send_buffer();
+    send_next_buffer();
 
     begin_read();
 }
 
-void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size_t bytes_transferred)
+void AsioClientTcpConnection::read_handler(unsigned int connection_id, const asio::error_code& ec, std::size_t bytes_transferred)
 {
-    if(m_is_shutdown) return;
+    if(!is_current(connection_id)) return;
 
     if(ec)
     {
         if(ec == asio::error::misc_errors::eof)
         {
             m_logger->info("Connection gracefully closed by peer.");
-            close();
+
+            const auto is_sending = m_is_writing;
+            disconnect();
+            if(is_sending) send_error(ec.message());
         }
         else
         {
             m_logger->error("Read error: {}", ec.message());
-            close();
+            disconnect();
             send_error(ec.message());
         }
         return;
@@ -182,21 +156,23 @@ void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size
     begin_read();
 }
 
-void AsioClientTcpConnection::write_handler(const std::error_code& ec, std::size_t bytes_transferred)
+void AsioClientTcpConnection::write_handler(unsigned int connection_id, std::shared_ptr<ser4cpp::Buffer> buffer,
+                                            const asio::error_code& ec, std::size_t bytes_transferred)
 {
-    if(m_is_shutdown) return;
+    if(!is_current(connection_id)) return;
 
     if(ec)
     {
         m_logger->error("Write error: {}", ec.message());
-        close();
+        disconnect();
         send_error(ec.message());
         return;
     }
 
     m_logger->debug("Sent {} bytes", bytes_transferred);
 
-    m_write_buffer = nullptr;
+    m_is_writing = false;
+    send_next_buffer();
 
     auto connection_listener = m_connection_listener.lock();
     if(connection_listener)
@@ -205,6 +181,58 @@ void AsioClientTcpConnection::write_handler(const std::error_code& ec, std::size
     }
 }
 
+bool AsioClientTcpConnection::is_current(unsigned int connection_id) const
+{
+    return !m_is_shutdown && connection_id == m_connection_id;
+}
+
+void AsioClientTcpConnection::connect()
+{
+    m_logger->info("Establishing connection to {}:{}", m_ip_endpoint.get_hostname(), m_ip_endpoint.get_port());
+
+    m_current_connection_status = ConnectionStatus::Connecting;
+
+    // Connect to the proper adapter
+    asio::error_code ec{};
+    const auto address = asio::ip::address::from_string(m_adapter.empty() ? "0.0.0.0" : m_adapter, ec);
+    if(ec) { m_logger->error("from_address error: {}", ec.message()); post_error(ec.message()); return; }
+
+    asio::ip::tcp::endpoint endpoint{};
+    endpoint.address(address);
+    endpoint.port(0);
+    m_tcp_socket.open(asio::ip::tcp::v4(), ec);
+    if(ec) { m_logger->error("socket open error: {}", ec.message()); post_error(ec.message()); return; }
+
+    m_tcp_socket.bind(endpoint, ec);
+    if(ec) { m_logger->error("socket bind error: {}", ec.message()); post_error(ec.message()); return; }
+
+    // Start connecting
+    asio::ip::tcp::resolver::query query{m_ip_endpoint.get_hostname(), std::to_string(m_ip_endpoint.get_port())};
+    m_resolver.async_resolve(query,
+                             m_executor->wrap(std::bind(&AsioClientTcpConnection::resolve_handler,
+                                                        std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
+                                                        m_connection_id, _1, _2)));
+}
+
+void AsioClientTcpConnection::disconnect()
+{
+    ++m_connection_id;
+    m_current_connection_status = ConnectionStatus::NotConnected;
+    m_write_queue.clear();
+    m_is_writing = false;
+
+    m_resolver.cancel();
+
+    if(m_tcp_socket.is_open())
+    {
+        m_logger->info("Closing connection");
+
+        std::error_code ec;
+        m_tcp_socket.shutdown(asio::ip::tcp::socket::shutdown_both, ec);
+        m_tcp_socket.close(ec);
+    }
+}
+
 void AsioClientTcpConnection::begin_read()
 {
     if(m_is_shutdown) return;
@@ -212,20 +240,32 @@ void AsioClientTcpConnection::begin_read()
     m_tcp_socket.async_read_some(asio::buffer(m_read_buffer, m_read_buffer.size()),
                                  m_executor->wrap(std::bind(&AsioClientTcpConnection::read_handler,
                                                          std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                         _1, _2)));
+                                                         m_connection_id, _1, _2)));
 }
 
-void AsioClientTcpConnection::send_buffer()
+void AsioClientTcpConnection::send_next_buffer()
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || m_is_writing || m_write_queue.empty()) return;
+
+    // The handler keeps the buffer alive until the end of its transmission
+    auto buffer = m_write_queue.front();
+    m_write_queue.pop_front();
+    m_is_writing = true;
+    asio::async_write(m_tcp_socket,
+                      asio::buffer(buffer->as_rslice(), buffer->length()),
+                      m_executor->wrap(std::bind(&AsioClientTcpConnection::write_handler,
+                                                 std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
+                                                 m_connection_id, buffer, _1, _2)));
+}
 
-    if(m_write_buffer)
-    {
-        m_tcp_socket.async_send(asio::buffer(m_write_buffer->as_rslice(), m_write_buffer->length()),
-                                m_executor->wrap(std::bind(&AsioClientTcpConnection::write_handler,
-                                                        std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                        _1, _2)));
-    }
+void AsioClientTcpConnection::post_error(const std::string& message)
+{
+    m_executor->post([=, self = shared_from_this(), connection_id = m_connection_id] () {
+        if(!is_current(connection_id)) return;
+
+        disconnect();
+        send_error(message);
+    });
 }
 
 void AsioClientTcpConnection::send_error(const std::string& message)
diff --git a/lib/src/client/channel/AsioClientTcpConnection.h b/lib/src/client/channel/AsioClientTcpConnection.h
index 2c2494e..41bf612 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.h
+++ b/lib/src/client/channel/AsioClientTcpConnection.h
@@ -17,6 +17,8 @@
 #define MODBUS_ASIOCLIENTTCPCONNECTION_H
 
 #include <array>
+#include <deque>
+#include <memory>
 #include <string>
 #include "exe4cpp/asio/StrandExecutor.h"
 #include "ser4cpp/container/Buffer.h"
@@ -50,13 +52,18 @@ private:
         Connected
     };
 
-    void resolve_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints);
-    void connect_handler(const asio::error_code& ec);
-    void read_handler(const asio::error_code& ec, std::size_t bytes_transferred);
-    void write_handler(const asio::error_code& ec, std::size_t bytes_transferred);
+    void resolve_handler(unsigned int connection_id, const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints);
+    void connect_handler(unsigned int connection_id, const asio::error_code& ec);
+    void read_handler(unsigned int connection_id, const asio::error_code& ec, std::size_t bytes_transferred);
+    void write_handler(unsigned int connection_id, std::shared_ptr<ser4cpp::Buffer> buffer,
+                       const asio::error_code& ec, std::size_t bytes_transferred);
 
+    bool is_current(unsigned int connection_id) const;
+    void connect();
+    void disconnect();
     void begin_read();
-    void send_buffer();
+    void send_next_buffer();
+    void post_error(const std::string& message);
     void send_error(const std::string& message);
 
     std::shared_ptr<Logger> m_logger;
@@ -69,7 +76,13 @@ private:
     bool m_is_shutdown;
     ConnectionStatus m_current_connection_status;
     std::array<uint8_t, 4096> m_read_buffer;
-    std::unique_ptr<ser4cpp::Buffer> m_write_buffer;
+
+    // Identifies the current connection, handlers of previous ones are ignored
+    unsigned int m_connection_id;
+
+    // Buffers waiting for the transmission of the previous ones
+    std::deque<std::shared_ptr<ser4cpp::Buffer>> m_write_queue;
+    bool m_is_writing;
 
     std::weak_ptr<IConnectionListener> m_connection_listener;
 };
-- 
2.43.0


From bc3072ff5ecea83e2e521b07c4f937df4aced527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 11/16] fix: client connections are made from the given adapter

asio::async_connect closes the socket before each attempt, which lost the address
it had been bound to. The resolved addresses are now tried in turn, each with a
socket bound to the adapter.
---
 .../channel/AsioClientTcpConnection.cpp       | 68 ++++++++++++++-----
 .../client/channel/AsioClientTcpConnection.h  |  3 +-
 2 files changed, 52 insertions(+), 19 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index b95790f..9f4563a 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -96,20 +96,32 @@ void AsioClientTcpConnection::resolve_handler(unsigned int connection_id, const
         return;
     }
 
-    asio::async_connect(m_tcp_socket,
-                        endpoints,
-                        m_executor->wrap(std::bind(&AsioClientTcpConnection::connect_handler,
-                                                std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                m_connection_id, _1)));
+    if(endpoints == asio::ip::tcp::resolver::iterator{})
+    {
+        m_logger->error("IP resolver found no address");
+        disconnect();
+        send_error("No address found");
+        return;
+    }
+
+    connect_to(endpoints);
 }
 
-void AsioClientTcpConnection::connect_handler(unsigned int connection_id, const asio::error_code& ec)
+void AsioClientTcpConnection::connect_handler(unsigned int connection_id, asio::ip::tcp::resolver::iterator endpoint, const asio::error_code& ec)
 {
     if(!is_current(connection_id)) return;
 
     if(ec)
     {
         m_logger->error("Connection error: {}", ec.message());
+
+        // Try the next endpoint, if there is one
+        if(++endpoint != asio::ip::tcp::resolver::iterator{})
+        {
+            connect_to(endpoint);
+            return;
+        }
+
         disconnect();
         send_error(ec.message());
         return;
@@ -192,19 +204,12 @@ void AsioClientTcpConnection::connect()
 
     m_current_connection_status = ConnectionStatus::Connecting;
 
-    // Connect to the proper adapter
     asio::error_code ec{};
-    const auto address = asio::ip::address::from_string(m_adapter.empty() ? "0.0.0.0" : m_adapter, ec);
-    if(ec) { m_logger->error("from_address error: {}", ec.message()); post_error(ec.message()); return; }
-
-    asio::ip::tcp::endpoint endpoint{};
-    endpoint.address(address);
-    endpoint.port(0);
-    m_tcp_socket.open(asio::ip::tcp::v4(), ec);
-    if(ec) { m_logger->error("socket open error: {}", ec.message()); post_error(ec.message()); return; }
-
-    m_tcp_socket.bind(endpoint, ec);
-    if(ec) { m_logger->error("socket bind error: {}", ec.message()); post_error(ec.message()); return; }
+    if(!m_adapter.empty())
+    {
+        asio::ip::address::from_string(m_adapter, ec);
+        if(ec) { m_logger->error("from_address error: {}", ec.message()); post_error(ec.message()); return; }
+    }
 
     // Start connecting
     asio::ip::tcp::resolver::query query{m_ip_endpoint.get_hostname(), std::to_string(m_ip_endpoint.get_port())};
@@ -214,6 +219,33 @@ void AsioClientTcpConnection::connect()
                                                         m_connection_id, _1, _2)));
 }
 
+void AsioClientTcpConnection::connect_to(asio::ip::tcp::resolver::iterator endpoint)
+{
+    const asio::ip::tcp::endpoint remote_endpoint = *endpoint;
+
+    asio::error_code ec{};
+    m_tcp_socket.close(ec);
+    m_tcp_socket.open(remote_endpoint.protocol(), ec);
+
+    // Connect from the proper adapter
+    if(!ec && !m_adapter.empty())
+    {
+        const auto address = asio::ip::address::from_string(m_adapter, ec);
+        if(!ec) m_tcp_socket.bind(asio::ip::tcp::endpoint{address, 0}, ec);
+    }
+
+    if(ec)
+    {
+        connect_handler(m_connection_id, endpoint, ec);
+        return;
+    }
+
+    m_tcp_socket.async_connect(remote_endpoint,
+                               m_executor->wrap(std::bind(&AsioClientTcpConnection::connect_handler,
+                                                          std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
+                                                          m_connection_id, endpoint, _1)));
+}
+
 void AsioClientTcpConnection::disconnect()
 {
     ++m_connection_id;
diff --git a/lib/src/client/channel/AsioClientTcpConnection.h b/lib/src/client/channel/AsioClientTcpConnection.h
index 41bf612..b65fb58 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.h
+++ b/lib/src/client/channel/AsioClientTcpConnection.h
@@ -53,13 +53,14 @@ private:
     };
 
     void resolve_handler(unsigned int connection_id, const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints);
-    void connect_handler(unsigned int connection_id, const asio::error_code& ec);
+    void connect_handler(unsigned int connection_id, asio::ip::tcp::resolver::iterator endpoint, const asio::error_code& ec);
     void read_handler(unsigned int connection_id, const asio::error_code& ec, std::size_t bytes_transferred);
     void write_handler(unsigned int connection_id, std::shared_ptr<ser4cpp::Buffer> buffer,
                        const asio::error_code& ec, std::size_t bytes_transferred);
 
     bool is_current(unsigned int connection_id) const;
     void connect();
+    void connect_to(asio::ip::tcp::resolver::iterator endpoint);
     void disconnect();
     void begin_read();
     void send_next_buffer();
-- 
2.43.0


From 47d56c85c215cdc979d6f921f2d6b2fdd9c858c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 12/16] fix: the server counts its open connections and keeps
 accepting after a failed accept

The connection waiting to be accepted was counted down without having been counted
up, failed accepts ended the server, and connections closed by the shutdown stayed
in the count.
---
 lib/src/server/channel/AsioServer.cpp | 28 +++++++++++++--------------
 lib/src/server/channel/AsioServer.h   |  1 -
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/lib/src/server/channel/AsioServer.cpp b/lib/src/server/channel/AsioServer.cpp
index 32e1cd0..fb4c953 100644
--- a/lib/src/server/channel/AsioServer.cpp
+++ b/lib/src/server/channel/AsioServer.cpp
@@ -16,8 +16,7 @@ AsioServer::AsioServer(std::shared_ptr<Logger> logger,
       m_max_connections{max_connections},
       m_tcp_acceptor{*m_executor->get_context(),
         asio::ip::tcp::endpoint{asio::ip::address::from_string(endpoint.get_hostname()), static_cast<unsigned short>(endpoint.get_port())}},
-      m_is_shutdown{false},
-      m_num_connections{0}
+      m_is_shutdown{false}
 {
 }
 
@@ -51,13 +50,12 @@ void AsioServer::remove_connection(std::shared_ptr<AsioServerTcpConnection> conn
     {
         (*it)->close();
         m_connections.erase(it);
-        --m_num_connections;
     }
 }
 
 size_t AsioServer::get_num_connections() const
 {
-    return m_num_connections;
+    return m_connections.size();
 }
 
 void AsioServer::start_accept()
@@ -68,7 +66,6 @@ void AsioServer::start_accept()
         if(m_is_shutdown) return;
 
         auto connection = std::make_shared<AsioServerTcpConnection>(m_logger, m_executor, std::dynamic_pointer_cast<AsioServer>(shared_from_this()));
-        m_connections.push_back(connection);
         m_tcp_acceptor.async_accept(connection->get_socket(),
                                     m_executor->wrap(
                                         std::bind(&AsioServer::handle_accept,
@@ -84,19 +81,20 @@ void AsioServer::handle_accept(std::shared_ptr<AsioServerTcpConnection> connecti
 
     if(ec)
     {
-        remove_connection(connection);
-        return;
+        m_logger->error("Accept error: {}", ec.message());
     }
-
-    // Kill an old connection if there are two many open connections
-    ++m_num_connections;
-    if(m_num_connections > m_max_connections)
+    else
     {
-        remove_connection(m_connections.front());
-    }
+        // Kill an old connection if there are two many open connections
+        m_connections.push_back(connection);
+        if(m_connections.size() > m_max_connections)
+        {
+            remove_connection(m_connections.front());
+        }
 
-    connection->set_listener(std::shared_ptr<IConnectionListener>(m_connection_listener_builder->build(connection)));
-    connection->start();
+        connection->set_listener(std::shared_ptr<IConnectionListener>(m_connection_listener_builder->build(connection)));
+        connection->start();
+    }
 
     // Loop to continue accepting connections
     start_accept();
diff --git a/lib/src/server/channel/AsioServer.h b/lib/src/server/channel/AsioServer.h
index 1e28bae..a093c63 100644
--- a/lib/src/server/channel/AsioServer.h
+++ b/lib/src/server/channel/AsioServer.h
@@ -53,7 +53,6 @@ private:
     unsigned int m_max_connections;
     asio::ip::tcp::acceptor m_tcp_acceptor;
     bool m_is_shutdown;
-    unsigned int m_num_connections;
     std::shared_ptr<IServerConnectionListenerBuilder> m_connection_listener_builder;
     std::list<std::shared_ptr<AsioServerTcpConnection>> m_connections;
 };
-- 
2.43.0


From 7957fd99c28a0b36faaad3b74a7abc922286735e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 13/16] fix: the server connection transmits each response
 completely

A response sent before the previous one had been transmitted overwrote its buffer,
and partial writes were cut short. A failed connection is closed at once.
---
 .../channel/AsioServerTcpConnection.cpp       | 76 ++++++++++---------
 .../server/channel/AsioServerTcpConnection.h  | 12 ++-
 2 files changed, 51 insertions(+), 37 deletions(-)

diff --git a/lib/src/server/channel/AsioServerTcpConnection.cpp b/lib/src/server/channel/AsioServerTcpConnection.cpp
index ff301bf..4a81c75 100644
--- a/lib/src/server/channel/AsioServerTcpConnection.cpp
+++ b/lib/src/server/channel/AsioServerTcpConnection.cpp
@@ -32,7 +32,8 @@ AsioServerTcpConnection::AsioServerTcpConnection(std::shared_ptr<Logger> logger,
           m_server{server},
           m_tcp_socket{*executor->get_context()},
           m_is_shutdown{false},
-          m_is_connected{false}
+          m_is_connected{false},
+          m_is_writing{false}
 {
 
 }
@@ -44,10 +45,10 @@ void AsioServerTcpConnection::set_listener(std::shared_ptr<IConnectionListener>
 
 void AsioServerTcpConnection::send(const ser4cpp::rseq_t& data)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || !m_tcp_socket.is_open()) return;
 
-    m_write_buffer = std::make_unique<ser4cpp::Buffer>(data);
-    send_buffer();
+    m_write_queue.push_back(std::make_shared<ser4cpp::Buffer>(data));
+    send_next_buffer();
 }
 
 void AsioServerTcpConnection::close()
@@ -57,17 +58,7 @@ void AsioServerTcpConnection::close()
     m_executor->post([=, self=shared_from_this()]() {
         if(m_is_shutdown) return;
 
-        m_is_connected = false;
-
-        if(m_tcp_socket.is_open())
-        {
-            m_logger->info("Closing connection");
-
-            std::error_code ec;
-            m_tcp_socket.shutdown(asio::ip::tcp::socket::shutdown_both, ec);
-            m_tcp_socket.close(ec);
-            notify_close();
-        }
+        disconnect();
     });
 }
 
@@ -89,7 +80,7 @@ void AsioServerTcpConnection::start()
 
     m_logger->info("New connection established");
     m_is_connected = true;
-    send_buffer();
+    send_next_buffer();
 
     begin_read();
 }
@@ -101,12 +92,12 @@ asio::ip::tcp::socket& AsioServerTcpConnection::get_socket()
 
 void AsioServerTcpConnection::read_handler(const asio::error_code& ec, std::size_t bytes_transferred)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || !m_is_connected) return;
 
     if(ec)
     {
         m_logger->error("Read error: {}", ec.message());
-        close();
+        disconnect();
         send_error(ec.message());
         return;
     }
@@ -121,21 +112,22 @@ void AsioServerTcpConnection::read_handler(const asio::error_code& ec, std::size
     begin_read();
 }
 
-void AsioServerTcpConnection::write_handler(const std::error_code& ec, std::size_t bytes_transferred)
+void AsioServerTcpConnection::write_handler(std::shared_ptr<ser4cpp::Buffer> buffer, const asio::error_code& ec, std::size_t bytes_transferred)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || !m_is_connected) return;
 
     if(ec)
     {
         m_logger->error("Write error: {}", ec.message());
-        close();
+        disconnect();
         send_error(ec.message());
         return;
     }
 
     m_logger->debug("Sent {} bytes", bytes_transferred);
 
-    m_write_buffer = nullptr;
+    m_is_writing = false;
+    send_next_buffer();
 
     if(m_connection_listener)
     {
@@ -143,6 +135,22 @@ void AsioServerTcpConnection::write_handler(const std::error_code& ec, std::size
     }
 }
 
+void AsioServerTcpConnection::disconnect()
+{
+    m_is_connected = false;
+    m_write_queue.clear();
+
+    if(m_tcp_socket.is_open())
+    {
+        m_logger->info("Closing connection");
+
+        std::error_code ec;
+        m_tcp_socket.shutdown(asio::ip::tcp::socket::shutdown_both, ec);
+        m_tcp_socket.close(ec);
+        notify_close();
+    }
+}
+
 void AsioServerTcpConnection::begin_read()
 {
     if(m_is_shutdown) return;
@@ -156,17 +164,19 @@ void AsioServerTcpConnection::begin_read()
     }
 }
 
-void AsioServerTcpConnection::send_buffer()
+void AsioServerTcpConnection::send_next_buffer()
 {
-    if(m_is_shutdown) return;
-
-    if(m_write_buffer && m_is_connected)
-    {
-        m_tcp_socket.async_send(asio::buffer(m_write_buffer->as_rslice(), m_write_buffer->length()),
-                                m_executor->wrap(std::bind(&AsioServerTcpConnection::write_handler,
-                                                        std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this()),
-                                                        _1, _2)));
-    }
+    if(m_is_shutdown || !m_is_connected || m_is_writing || m_write_queue.empty()) return;
+
+    // The handler keeps the buffer alive until the end of its transmission
+    auto buffer = m_write_queue.front();
+    m_write_queue.pop_front();
+    m_is_writing = true;
+    asio::async_write(m_tcp_socket,
+                      asio::buffer(buffer->as_rslice(), buffer->length()),
+                      m_executor->wrap(std::bind(&AsioServerTcpConnection::write_handler,
+                                                 std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this()),
+                                                 buffer, _1, _2)));
 }
 
 void AsioServerTcpConnection::send_error(const std::string& message)
@@ -177,8 +187,6 @@ void AsioServerTcpConnection::send_error(const std::string& message)
     {
         m_connection_listener->on_error(message);
     }
-
-    notify_close();
 }
 
 void AsioServerTcpConnection::notify_close()
diff --git a/lib/src/server/channel/AsioServerTcpConnection.h b/lib/src/server/channel/AsioServerTcpConnection.h
index f5570ed..0ee12f4 100644
--- a/lib/src/server/channel/AsioServerTcpConnection.h
+++ b/lib/src/server/channel/AsioServerTcpConnection.h
@@ -17,6 +17,8 @@
 #define MODBUS_ASIOSERVERTCPCONNECTION_H
 
 #include <array>
+#include <deque>
+#include <memory>
 #include "exe4cpp/asio/StrandExecutor.h"
 #include "ser4cpp/container/Buffer.h"
 
@@ -47,10 +49,11 @@ public:
 private:
     void connect_handler(const asio::error_code& ec);
     void read_handler(const asio::error_code& ec, std::size_t bytes_transferred);
-    void write_handler(const asio::error_code& ec, std::size_t bytes_transferred);
+    void write_handler(std::shared_ptr<ser4cpp::Buffer> buffer, const asio::error_code& ec, std::size_t bytes_transferred);
 
+    void disconnect();
     void begin_read();
-    void send_buffer();
+    void send_next_buffer();
     void send_error(const std::string& message);
     void notify_close();
 
@@ -62,7 +65,10 @@ private:
     bool m_is_shutdown;
     bool m_is_connected;
     std::array<uint8_t, 4096> m_read_buffer;
-    std::unique_ptr<ser4cpp::Buffer> m_write_buffer;
+
+    // Buffers waiting for the transmission of the previous ones
+    std::deque<std::shared_ptr<ser4cpp::Buffer>> m_write_queue;
+    bool m_is_writing;
 
     std::shared_ptr<IConnectionListener> m_connection_listener;
 };
-- 
2.43.0


From 7df72b07af258e11229c121918806ba2e480299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 14/16] fix: the public methods of channels and scheduled
 requests are safe to call from any thread

The executor's thread wrote flags and the list of sessions that the
user's threads read or wrote without synchronisation.
---
 lib/src/client/channel/ClientChannelTcp.cpp | 12 +++++++++---
 lib/src/client/channel/ClientChannelTcp.h   |  8 +++++++-
 lib/src/client/session/ScheduledRequest.h   |  7 +++++--
 lib/src/server/channel/ServerChannelTcp.h   |  3 ++-
 4 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/lib/src/client/channel/ClientChannelTcp.cpp b/lib/src/client/channel/ClientChannelTcp.cpp
index 2929bab..982c1e3 100644
--- a/lib/src/client/channel/ClientChannelTcp.cpp
+++ b/lib/src/client/channel/ClientChannelTcp.cpp
@@ -44,6 +44,7 @@ std::shared_ptr<IClientSession> ClientChannelTcp::create_session(const UnitIdent
 {
     std::shared_ptr<IClientSession> session;
 
+    std::lock_guard<std::mutex> lock(m_sessions_mutex);
     if(!m_is_shutdown)
     {
         session = std::make_shared<ClientSessionImpl>(m_executor,
@@ -97,13 +98,18 @@ void ClientChannelTcp::shutdown()
 {
     m_executor->post([=, self = shared_from_this()] {
         m_logger->info("Shutting down.");
-        m_is_shutdown = true;
 
-        for(auto& session : m_sessions)
+        std::vector<std::shared_ptr<IClientSession>> sessions;
+        {
+            std::lock_guard<std::mutex> lock(m_sessions_mutex);
+            m_is_shutdown = true;
+            sessions.swap(m_sessions);
+        }
+
+        for(auto& session : sessions)
         {
             session->shutdown();
         }
-        m_sessions.clear();
 
         m_pending_requests.clear();
         m_current_request.reset(nullptr);
diff --git a/lib/src/client/channel/ClientChannelTcp.h b/lib/src/client/channel/ClientChannelTcp.h
index e65e8b0..8cde411 100644
--- a/lib/src/client/channel/ClientChannelTcp.h
+++ b/lib/src/client/channel/ClientChannelTcp.h
@@ -16,8 +16,11 @@
 #ifndef MODBUS_CLIENTCHANNELTCP_H
 #define MODBUS_CLIENTCHANNELTCP_H
 
+#include <atomic>
 #include <deque>
 #include <memory>
+#include <mutex>
+#include <vector>
 #include "ser4cpp/container/Buffer.h"
 #include "exe4cpp/IExecutor.h"
 
@@ -68,8 +71,11 @@ private:
     std::shared_ptr<Logger> m_logger;
     std::shared_ptr<ITcpConnection> m_tcp_connection;
 
-    bool m_is_shutdown;
+    // Accessed from the user's threads as well
+    std::atomic<bool> m_is_shutdown;
+    std::mutex m_sessions_mutex;
     std::vector<std::shared_ptr<IClientSession>> m_sessions;
+
     MbapParser m_parser;
     std::deque<std::unique_ptr<PendingRequest>> m_pending_requests;
     std::unique_ptr<PendingRequest> m_current_request;
diff --git a/lib/src/client/session/ScheduledRequest.h b/lib/src/client/session/ScheduledRequest.h
index 3401d12..6309791 100644
--- a/lib/src/client/session/ScheduledRequest.h
+++ b/lib/src/client/session/ScheduledRequest.h
@@ -16,6 +16,7 @@
 #ifndef MODBUS_SCHEDULEDREQUEST_H
 #define MODBUS_SCHEDULEDREQUEST_H
 
+#include <atomic>
 #include <memory>
 #include "exe4cpp/IExecutor.h"
 #include "exe4cpp/Timer.h"
@@ -56,9 +57,11 @@ private:
     std::shared_ptr<exe4cpp::IExecutor> m_executor;
     TRequest m_request;
     duration_t m_timeout;
-    duration_t m_frequency;
 
-    bool m_running;
+    // Read from the user's threads as well
+    std::atomic<duration_t> m_frequency;
+    std::atomic<bool> m_running;
+
     bool m_waiting_for_response;
     unsigned int m_current_pause;
     exe4cpp::Timer m_timer;
diff --git a/lib/src/server/channel/ServerChannelTcp.h b/lib/src/server/channel/ServerChannelTcp.h
index 18896d7..8b4a4a9 100644
--- a/lib/src/server/channel/ServerChannelTcp.h
+++ b/lib/src/server/channel/ServerChannelTcp.h
@@ -16,6 +16,7 @@
 #ifndef MODBUS_SERVERCHANNELTCP_H
 #define MODBUS_SERVERCHANNELTCP_H
 
+#include <atomic>
 #include <memory>
 #include <unordered_map>
 
@@ -55,7 +56,7 @@ private:
     std::shared_ptr<exe4cpp::IExecutor> m_executor;
     std::shared_ptr<IServer> m_server;
 
-    bool m_is_shutdown;
+    std::atomic<bool> m_is_shutdown; // Accessed from the user's threads as well
     bool m_is_started;
     std::unordered_map<UnitIdentifier, std::shared_ptr<IServerSession>> m_sessions;
 };
-- 
2.43.0


From c4d7e0f59b50c43bed1a9b6b1bcd6799083ffabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:03 +0000
Subject: [PATCH 15/16] fix: the shutdown of a session cancels its pending
 requests

IClientSession::shutdown() promises that, but only the scheduled requests
were stopped, and requests scheduled later kept the session alive and
polling.
---
 lib/src/client/channel/ClientChannelTcp.cpp  | 12 ++++++++++--
 lib/src/client/channel/ClientChannelTcp.h    |  3 ++-
 lib/src/client/channel/IClientChannelImpl.h  |  5 ++++-
 lib/src/client/channel/PendingRequest.h      |  8 ++++++--
 lib/src/client/session/ClientSessionImpl.cpp | 17 +++++++++++++++--
 lib/src/client/session/ClientSessionImpl.h   |  2 ++
 6 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/lib/src/client/channel/ClientChannelTcp.cpp b/lib/src/client/channel/ClientChannelTcp.cpp
index 982c1e3..a771332 100644
--- a/lib/src/client/channel/ClientChannelTcp.cpp
+++ b/lib/src/client/channel/ClientChannelTcp.cpp
@@ -61,7 +61,8 @@ std::shared_ptr<IClientSession> ClientChannelTcp::create_session(const UnitIdent
 void ClientChannelTcp::send_request(const UnitIdentifier& unit_identifier,
                                     const IMessage& request,
                                     const duration_t& timeout,
-                                    ResponseHandler<ser4cpp::rseq_t> response_handler)
+                                    ResponseHandler<ser4cpp::rseq_t> response_handler,
+                                    std::shared_ptr<const std::atomic<bool>> is_cancelled)
 {
     if(m_is_shutdown) return;
 
@@ -75,7 +76,8 @@ void ClientChannelTcp::send_request(const UnitIdentifier& unit_identifier,
                                                                     m_next_transaction_id,
                                                                     *req,
                                                                     timeout,
-                                                                    response_handler);
+                                                                    response_handler,
+                                                                    is_cancelled);
             m_pending_requests.push_back(std::move(pending_request));
 
             ++m_next_transaction_id;
@@ -179,6 +181,12 @@ void ClientChannelTcp::check_pending_requests()
 {
     if(m_is_shutdown) return;
 
+    // The requests of a session that was shut down in the meantime are not sent
+    while(!m_pending_requests.empty() && m_pending_requests.front()->is_cancelled && *m_pending_requests.front()->is_cancelled)
+    {
+        m_pending_requests.pop_front();
+    }
+
     if(!m_current_request && !m_pending_requests.empty())
     {
         m_current_request = std::move(m_pending_requests.front());
diff --git a/lib/src/client/channel/ClientChannelTcp.h b/lib/src/client/channel/ClientChannelTcp.h
index 8cde411..304f12d 100644
--- a/lib/src/client/channel/ClientChannelTcp.h
+++ b/lib/src/client/channel/ClientChannelTcp.h
@@ -51,7 +51,8 @@ public:
     void send_request(const UnitIdentifier& unit_identifier,
                       const IMessage& request,
                       const exe4cpp::duration_t& timeout,
-                      ResponseHandler<ser4cpp::rseq_t> response_handler) override;
+                      ResponseHandler<ser4cpp::rseq_t> response_handler,
+                      std::shared_ptr<const std::atomic<bool>> is_cancelled = nullptr) override;
 
     void shutdown() override;
 
diff --git a/lib/src/client/channel/IClientChannelImpl.h b/lib/src/client/channel/IClientChannelImpl.h
index 41ea593..7b2d6d8 100644
--- a/lib/src/client/channel/IClientChannelImpl.h
+++ b/lib/src/client/channel/IClientChannelImpl.h
@@ -16,6 +16,8 @@
 #ifndef MODBUS_ICLIENTCHANNELIMPL_H
 #define MODBUS_ICLIENTCHANNELIMPL_H
 
+#include <atomic>
+#include <memory>
 #include "exe4cpp/Typedefs.h"
 #include "ser4cpp/container/SequenceTypes.h"
 
@@ -36,7 +38,8 @@ public:
     virtual void send_request(const UnitIdentifier& unit_identifier,
                               const IMessage& request,
                               const exe4cpp::duration_t& timeout,
-                              ResponseHandler<ser4cpp::rseq_t> response_handler) = 0;
+                              ResponseHandler<ser4cpp::rseq_t> response_handler,
+                              std::shared_ptr<const std::atomic<bool>> is_cancelled = nullptr) = 0;
 };
 
 } // namespace modbus
diff --git a/lib/src/client/channel/PendingRequest.h b/lib/src/client/channel/PendingRequest.h
index 7f0c312..877c82a 100644
--- a/lib/src/client/channel/PendingRequest.h
+++ b/lib/src/client/channel/PendingRequest.h
@@ -16,6 +16,7 @@
 #ifndef MODBUS_PENDINGREQUEST_H
 #define MODBUS_PENDINGREQUEST_H
 
+#include <atomic>
 #include <memory>
 #include "exe4cpp/Typedefs.h"
 #include "modbus/UnitIdentifier.h"
@@ -32,12 +33,14 @@ struct PendingRequest
                   const TransactionIdentifier& transaction_id,
                   const IMessage& request,
                   const exe4cpp::duration_t& timeout,
-                  ResponseHandler<ser4cpp::rseq_t> response_handler)
+                  ResponseHandler<ser4cpp::rseq_t> response_handler,
+                  std::shared_ptr<const std::atomic<bool>> is_cancelled)
            : unit_id{unit_id},
              transaction_id{transaction_id},
              request{request.clone()},
              timeout{timeout},
-             response_handler{response_handler}
+             response_handler{response_handler},
+             is_cancelled{is_cancelled}
     {
 
     }
@@ -47,6 +50,7 @@ struct PendingRequest
     std::unique_ptr<IMessage> request;
     exe4cpp::duration_t timeout;
     ResponseHandler<ser4cpp::rseq_t> response_handler;
+    std::shared_ptr<const std::atomic<bool>> is_cancelled; // Set by the shutdown of the session
 };
 
 } // namespace modbus
diff --git a/lib/src/client/session/ClientSessionImpl.cpp b/lib/src/client/session/ClientSessionImpl.cpp
index 4a264cf..08941f3 100644
--- a/lib/src/client/session/ClientSessionImpl.cpp
+++ b/lib/src/client/session/ClientSessionImpl.cpp
@@ -47,7 +47,8 @@ ClientSessionImpl::ClientSessionImpl(std::shared_ptr<exe4cpp::IExecutor> executo
   m_logger{logger},
   m_channel{channel},
   m_unit_identifier{unit_identifier},
-  m_default_timeout{default_timeout}
+  m_default_timeout{default_timeout},
+  m_is_shutdown{std::make_shared<std::atomic<bool>>(false)}
 {
 
 }
@@ -55,6 +56,8 @@ ClientSessionImpl::ClientSessionImpl(std::shared_ptr<exe4cpp::IExecutor> executo
 void ClientSessionImpl::shutdown()
 {
     m_executor->post([=, self = shared_from_this()] {
+        *m_is_shutdown = true;
+
         for(auto& req : m_scheduled_requests)
         {
             req->stop();
@@ -243,9 +246,13 @@ void ClientSessionImpl::meta_send_request(const TRequest& request,
                                           const duration_t& timeout,
                                           ResponseHandler<TResponse> handler)
 {
+    if(*m_is_shutdown) return;
+
     TRequestImpl request_impl{request};
     m_channel->send_request(m_unit_identifier, request_impl, timeout, [=, self = shared_from_this()](const Expected<ser4cpp::rseq_t>& response)
     {
+        if(*m_is_shutdown) return;
+
         if(!response.is_valid())
         {
             handler(Expected<TResponse>::from_exception(response.get_exception()));
@@ -254,7 +261,7 @@ void ClientSessionImpl::meta_send_request(const TRequest& request,
         {
             handler(TResponseImpl::parse(request_impl, response.get()));
         }
-    });
+    }, m_is_shutdown);
 }
 
 template<typename TRequest, typename TResponse>
@@ -272,6 +279,12 @@ std::shared_ptr<IScheduledRequest> ClientSessionImpl::meta_schedule_request(cons
     scheduled_request->start();
 
     m_executor->post([=, self = shared_from_this()]() {
+        if(*m_is_shutdown)
+        {
+            scheduled_request->stop();
+            return;
+        }
+
         m_scheduled_requests.push_back(scheduled_request);
     });
 
diff --git a/lib/src/client/session/ClientSessionImpl.h b/lib/src/client/session/ClientSessionImpl.h
index a98c138..83123a8 100644
--- a/lib/src/client/session/ClientSessionImpl.h
+++ b/lib/src/client/session/ClientSessionImpl.h
@@ -16,6 +16,7 @@
 #ifndef MODBUS_CLIENTSESSIONIMPL_H
 #define MODBUS_CLIENTSESSIONIMPL_H
 
+#include <atomic>
 #include <memory>
 #include <vector>
 #include "exe4cpp/IExecutor.h"
@@ -147,6 +148,7 @@ private:
     UnitIdentifier m_unit_identifier;
     duration_t m_default_timeout;
 
+    std::shared_ptr<std::atomic<bool>> m_is_shutdown; // Read from the user's threads and by the channel as well
     std::vector<std::shared_ptr<IScheduledRequest>> m_scheduled_requests;
 };
 
-- 
2.43.0


From 18af9454610e7177c641d0e8f030f79d16572252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:28 +0000
Subject: [PATCH 16/16] fix: a frame cut by the end of a connection is not
 continued on the next one

---
 lib/src/IConnectionListener.h                      | 1 +
 lib/src/client/channel/AsioClientTcpConnection.cpp | 6 ++++++
 lib/src/client/channel/ClientChannelTcp.cpp        | 6 ++++++
 lib/src/client/channel/ClientChannelTcp.h          | 1 +
 4 files changed, 14 insertions(+)

diff --git a/lib/src/IConnectionListener.h b/lib/src/IConnectionListener.h
index 17142ed..b357551 100644
--- a/lib/src/IConnectionListener.h
+++ b/lib/src/IConnectionListener.h
@@ -31,6 +31,7 @@ public:
     virtual void on_write_done() {};
     virtual void on_receive(const ser4cpp::rseq_t& data) {};
     virtual void on_error(const std::string& message) {};
+    virtual void on_close() {};
 };
 
 } // namespace modbus
diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index 9f4563a..68928d6 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -263,6 +263,12 @@ void AsioClientTcpConnection::disconnect()
         m_tcp_socket.shutdown(asio::ip::tcp::socket::shutdown_both, ec);
         m_tcp_socket.close(ec);
     }
+
+    auto connection_listener = m_connection_listener.lock();
+    if(connection_listener)
+    {
+        connection_listener->on_close();
+    }
 }
 
 void AsioClientTcpConnection::begin_read()
diff --git a/lib/src/client/channel/ClientChannelTcp.cpp b/lib/src/client/channel/ClientChannelTcp.cpp
index a771332..bb563ff 100644
--- a/lib/src/client/channel/ClientChannelTcp.cpp
+++ b/lib/src/client/channel/ClientChannelTcp.cpp
@@ -147,6 +147,12 @@ void ClientChannelTcp::on_error(const std::string& message)
     }
 }
 
+void ClientChannelTcp::on_close()
+{
+    // What was received on that connection is not continued on the next one
+    m_parser.reset();
+}
+
 void ClientChannelTcp::on_mbap_message(const MbapMessage& message)
 {
     if(m_is_shutdown) return;
diff --git a/lib/src/client/channel/ClientChannelTcp.h b/lib/src/client/channel/ClientChannelTcp.h
index 304f12d..5776288 100644
--- a/lib/src/client/channel/ClientChannelTcp.h
+++ b/lib/src/client/channel/ClientChannelTcp.h
@@ -59,6 +59,7 @@ public:
     // Connection listener
     void on_receive(const ser4cpp::rseq_t& data) override;
     void on_error(const std::string& message) override;
+    void on_close() override;
 
     // MBAP sink
     void on_mbap_message(const MbapMessage& message) override;
-- 
2.43.0

