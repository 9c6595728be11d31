From 1e3be83a57908a90396389c0410db15e376721bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:11 +0000
Subject: [PATCH 01/16] fix: ignore messages without frames instead of throwing
 out of the main loop

---
 src/handlers/broker_handler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index f84f791..0cee09e 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -63,6 +63,11 @@ broker_handler::broker_handler(std::shared_ptr<const broker_config> config,
 
 void broker_handler::on_request(const message_container &message, const response_cb &respond)
 {
+	if (message.data.empty()) {
+		logger_->warn("Received a message without any frames. Skipped.");
+		return;
+	}
+
 	if (message.key == broker_connect::KEY_WORKERS) {
 		auto worker = workers_->find_worker_by_identity(message.identity);
 
-- 
2.43.0


From eca735e86d32abf168010581e37fca6cd03fcaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:11 +0000
Subject: [PATCH 02/16] fix: do not read past the end of a truncated eval
 message

---
 src/handlers/broker_handler.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 0cee09e..5e240cd 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -97,6 +97,12 @@ void broker_handler::process_client_eval(
 	// Then let client know that we are alive and well
 	respond(message_container(broker_connect::KEY_CLIENTS, identity, {"ack"}));
 
+	// There must be at least a job identification
+	if (message.size() < 2) {
+		logger_->warn("Eval command without a job identification. Skipped.");
+		return;
+	}
+
 	// Get job identification and parse headers
 	std::string job_id = message.at(1);
 	request::headers_t headers;
@@ -108,18 +114,18 @@ void broker_handler::process_client_eval(
 	auto it = std::begin(message) + 2;
 
 	while (true) {
+		// Unexpected end of message - do nothing and return
+		if (it == std::end(message)) {
+			logger_->warn("Unexpected end of message from frontend. Skipped.");
+			return;
+		}
+
 		// End of headers
 		if (it->empty()) {
 			++it;
 			break;
 		}
 
-		// Unexpected end of message - do nothing and return
-		if (std::next(it) == std::end(message)) {
-			logger_->warn("Unexpected end of message from frontend. Skipped.");
-			return;
-		}
-
 		// Parse header, save it and continue
 		std::size_t pos = it->find('=');
 		std::size_t value_size = it->size() - (pos + 1);
-- 
2.43.0


From 3f9a2513c3ab2f457c1ca88122daa89d5f3d2a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:11 +0000
Subject: [PATCH 03/16] fix: ignore a 'done' message from a worker that has no
 job instead of crashing

---
 src/handlers/broker_handler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 5e240cd..e2f5b09 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -291,6 +291,11 @@ void broker_handler::process_worker_done(
 
 	request_ptr current = queue_->get_current_request(worker);
 
+	if (current == nullptr) {
+		logger_->error("Got 'done' message from worker {} which has no job assigned", worker->get_description());
+		return;
+	}
+
 	if (message.at(1) != current->data.get_job_id()) {
 		logger_->error("Got 'done' message from worker {} with mismatched job id - {} (message) vs. {} (worker)",
 			worker->get_description(),
-- 
2.43.0


From 6210447fc960a0f64451f8fdef4bce7d2ca87e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:11 +0000
Subject: [PATCH 04/16] fix: expire workers that never send anything after
 their init message

The liveness counter of a new worker was zero and wrapped around on the first missed ping.
---
 src/handlers/broker_handler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index e2f5b09..874504f 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -232,6 +232,7 @@ void broker_handler::process_worker_init(
 
 	// Create a new worker with the basic information
 	auto new_worker = std::make_shared<worker>(identity, hwgroup, headers);
+	new_worker->liveness = config_->get_max_worker_liveness();
 	std::shared_ptr<request> current_request = nullptr;
 
 	// Load additional information
@@ -409,7 +410,10 @@ void broker_handler::process_timer(const message_container &message, const handl
 		worker_timers_[worker] += time;
 
 		if (worker_timers_[worker] > config_->get_worker_ping_interval()) {
-			worker->liveness -= 1;
+			if (worker->liveness > 0) {
+				worker->liveness -= 1;
+			}
+
 			worker_timers_[worker] = std::chrono::milliseconds(0);
 
 			if (worker->liveness <= 0) {
-- 
2.43.0


From f908002e6adae1489ffe4d5f9a10bb9cc03759f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:11 +0000
Subject: [PATCH 05/16] fix: give a waiting job to a worker whose failed job
 was reassigned elsewhere

---
 src/handlers/broker_handler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 874504f..542b43c 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -333,7 +333,10 @@ void broker_handler::process_worker_done(
 				failed_request->data.get_job_id(), "Job failed with '" + message.at(3) + "' and cannot be reassigned");
 		} else if (check_failure_count(failed_request, status_notifier, respond, message.at(3))) {
 			reassign_request(failed_request, respond);
-		} else {
+		}
+
+		// The failed job might have gone elsewhere - do not leave the worker idle if there are jobs waiting for it
+		if (queue_->get_current_request(worker) == nullptr) {
 			auto new_request = queue_->assign_request(worker);
 			if (new_request) {
 				send_request(worker, new_request, respond);
-- 
2.43.0


From b65962f2c89af0de24ecb557705681952113b6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:11 +0000
Subject: [PATCH 06/16] fix: do not return the current request of a new worker
 as a newly assigned one

The caller sent the (empty) frames of the request to the worker.
---
 src/queuing/single_queue_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/queuing/single_queue_manager.h b/src/queuing/single_queue_manager.h
index 1d4d87c..a3f71d7 100644
--- a/src/queuing/single_queue_manager.h
+++ b/src/queuing/single_queue_manager.h
@@ -81,7 +81,7 @@ public:
         workers_.push_back(worker);
 
         if (current_request != nullptr) {
-            return current_request;
+            return nullptr;
         }
 
         return assign_request(worker);
-- 
2.43.0


From 744438d390c7e01fddaba607921340e33786581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:11 +0000
Subject: [PATCH 07/16] fix: keep arrival order of jobs with equal timestamps

---
 src/queuing/single_queue_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/queuing/single_queue_manager.h b/src/queuing/single_queue_manager.h
index a3f71d7..75bf148 100644
--- a/src/queuing/single_queue_manager.h
+++ b/src/queuing/single_queue_manager.h
@@ -90,7 +90,7 @@ public:
     request_ptr assign_request(worker_ptr worker) override
     {
         worker_jobs_[worker] = nullptr;
-        std::sort(jobs_.begin(), jobs_.end(), [this, worker] (const request_entry &a, const request_entry &b) {
+        std::stable_sort(jobs_.begin(), jobs_.end(), [this, worker] (const request_entry &a, const request_entry &b) {
             return comparator_->compare(a, b, worker);
         });
 
-- 
2.43.0


From fcd0ee5413c50467ab02547179b67965685b531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:11 +0000
Subject: [PATCH 08/16] fix: do not crash on malformed values of the threads
 header

---
 src/worker.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/worker.cpp b/src/worker.cpp
index 1935cbb..404725d 100644
--- a/src/worker.cpp
+++ b/src/worker.cpp
@@ -1,5 +1,6 @@
 #include "worker.h"
 #include "helpers/string_to_hex.h"
+#include <stdexcept>
 
 bool header_matcher::match(const std::string &value)
 {
@@ -57,6 +58,22 @@ bool multiple_string_matcher::match(const std::string &value)
 	return false;
 }
 
+/**
+ * Convert a header value to a number.
+ * @param value Textual representation of the number.
+ * @param result Result of the conversion.
+ * @return @a true if the conversion succeeded, @a false otherwise.
+ */
+static bool parse_count(const std::string &value, std::size_t &result)
+{
+	try {
+		result = std::stoul(value);
+		return true;
+	} catch (const std::logic_error &) {
+		return false;
+	}
+}
+
 /**
  * Checks if a given value is less than or equal to a preset number.
  */
@@ -66,13 +83,17 @@ private:
 	/** Preset number to be base for comparison. */
 	std::size_t my_count_;
 
+	/** Indicates whether the base value is a valid number (nothing matches if it is not). */
+	bool valid_;
+
 public:
 	/**
 	 * Constructor.
 	 * @param my_value Base value for comparison. Will be converted to @a std::size_t type using std::stoul.
 	 */
-	count_matcher(std::string my_value) : header_matcher(my_value), my_count_(std::stoul(my_value))
+	count_matcher(std::string my_value) : header_matcher(my_value), my_count_(0)
 	{
+		valid_ = parse_count(my_value, my_count_);
 	}
 
 	/** Destructor. */
@@ -89,7 +110,8 @@ public:
 
 bool count_matcher::match(const std::string &value)
 {
-	return my_count_ >= std::stoul(value);
+	std::size_t count = 0;
+	return valid_ && parse_count(value, count) && my_count_ >= count;
 }
 
 worker::worker(
-- 
2.43.0


From ef8f3276e26b128f4f4c8d710f9af08d6ddd58b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:11 +0000
Subject: [PATCH 09/16] fix: terminate multipart messages that have no data
 frames

An unfinished message swallowed the next one sent through the same socket.
---
 src/reactor/reactor.cpp               | 5 +++--
 src/reactor/router_socket_wrapper.cpp | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 95b8dd1..5f8b2be 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -170,7 +170,8 @@ void asynchronous_handler_wrapper::operator()(const message_container &message)
 {
 	reactor_socket_.send(unique_id_.data(), unique_id_.size(), ZMQ_SNDMORE);
 	reactor_socket_.send(message.key.data(), message.key.size(), ZMQ_SNDMORE);
-	reactor_socket_.send(message.identity.data(), message.identity.size(), ZMQ_SNDMORE);
+	reactor_socket_.send(
+		message.identity.data(), message.identity.size(), message.data.empty() ? 0 : ZMQ_SNDMORE);
 
 	for (auto it = std::begin(message.data); it != std::end(message.data); ++it) {
 		reactor_socket_.send(it->c_str(), it->size(), std::next(it) != std::end(message.data) ? ZMQ_SNDMORE : 0);
@@ -214,7 +215,7 @@ void asynchronous_handler_wrapper::handler_thread()
 void asynchronous_handler_wrapper::send_response(zmq::socket_t &socket, const message_container &message)
 {
 	socket.send(message.key.data(), message.key.size(), ZMQ_SNDMORE);
-	socket.send(message.identity.data(), message.identity.size(), ZMQ_SNDMORE);
+	socket.send(message.identity.data(), message.identity.size(), message.data.empty() ? 0 : ZMQ_SNDMORE);
 
 	for (auto it = std::begin(message.data); it != std::end(message.data); ++it) {
 		socket.send(it->c_str(), it->size(), std::next(it) != std::end(message.data) ? ZMQ_SNDMORE : 0);
diff --git a/src/reactor/router_socket_wrapper.cpp b/src/reactor/router_socket_wrapper.cpp
index 91c4d3c..00e143c 100644
--- a/src/reactor/router_socket_wrapper.cpp
+++ b/src/reactor/router_socket_wrapper.cpp
@@ -10,7 +10,7 @@ bool router_socket_wrapper::send_message(const message_container &source)
 {
 
 	try {
-		socket_.send(source.identity.c_str(), source.identity.size(), ZMQ_SNDMORE);
+		socket_.send(source.identity.c_str(), source.identity.size(), source.data.empty() ? 0 : ZMQ_SNDMORE);
 	} catch (const zmq::error_t &) {
 		return false;
 	}
-- 
2.43.0


From 2a3542147ce7e946771ff9d225f4786d7384fce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:11 +0000
Subject: [PATCH 10/16] fix: do not process messages that could not be received

---
 src/reactor/reactor.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 5f8b2be..79f7123 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -89,10 +89,10 @@ void reactor::start_loop()
 				if (i < pollitem_names.size()) {
 					// message came from a registered socket, fill in its key
 					received_msg.key = pollitem_names.at(i);
-					sockets_.at(received_msg.key)->receive_message(received_msg);
-
-					// messages from sockets must go through a handler
-					process_message(received_msg);
+					if (sockets_.at(received_msg.key)->receive_message(received_msg)) {
+						// messages from sockets must go through a handler
+						process_message(received_msg);
+					}
 				} else {
 					// message from the asynchronous handler socket
 					zmq::message_t zmessage;
-- 
2.43.0


From a0b744714a372c3b0598f161c9b6da7f4b527efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:11 +0000
Subject: [PATCH 11/16] fix: initialize the notifier port

The value was undefined when the configuration does not specify it (0 lets libcurl use the port from the URL).
---
 src/config/notifier_config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/notifier_config.h b/src/config/notifier_config.h
index 48b906b..ef3af52 100644
--- a/src/config/notifier_config.h
+++ b/src/config/notifier_config.h
@@ -17,7 +17,7 @@ public:
 	/**
 	 * Port on which frontend runs.
 	 */
-	std::uint16_t port;
+	std::uint16_t port = 0;
 
 	/**
 	 * Username which is used in HTTP authentication.
-- 
2.43.0


From bab6bda76bb7feba8fc8761a4c867b98805fec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:11 +0000
Subject: [PATCH 12/16] fix: percent-encode parameters of HTTP requests

A failure message containing e.g. an ampersand could overwrite the other parameters.
---
 src/helpers/curl.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/helpers/curl.cpp b/src/helpers/curl.cpp
index f223391..1c903a5 100644
--- a/src/helpers/curl.cpp
+++ b/src/helpers/curl.cpp
@@ -7,6 +7,18 @@
 #endif
 
 
+/**
+ * Percent-encode a string so that it can be safely used in a HTTP query.
+ * @param value the string to be encoded
+ * @return encoded string
+ */
+static std::string url_encode(const std::string &value)
+{
+	std::unique_ptr<char, decltype(&curl_free)> escaped = {
+		curl_easy_escape(nullptr, value.c_str(), static_cast<int>(value.length())), curl_free};
+	return escaped ? std::string(escaped.get()) : std::string();
+}
+
 std::string helpers::get_http_query(const curl_params &params)
 {
 	std::string result;
@@ -16,7 +28,7 @@ std::string helpers::get_http_query(const curl_params &params)
 			result += "&";
 		}
 
-		result += par.first + "=" + par.second;
+		result += url_encode(par.first) + "=" + url_encode(par.second);
 	}
 
 	return result;
-- 
2.43.0


From cc8087443b25d2b4532f9c10555d6fad455a55ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:35 +0000
Subject: [PATCH 13/16] fix: do not reassign jobs to workers that expired at
 the same time

---
 src/handlers/broker_handler.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 542b43c..11a5fac 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -428,6 +428,9 @@ void broker_handler::process_timer(const message_container &message, const handl
 	reactor_status_notifier status_notifier(respond, broker_connect::KEY_STATUS_NOTIFIER);
 	const static std::string failure_msg = "Worker timed out and its job cannot be reassigned";
 
+	// Remove all the workers before reassigning anything so that no job is assigned to another expired worker
+	std::vector<std::pair<worker_registry::worker_ptr, std::shared_ptr<std::vector<request_ptr>>>> orphaned_requests;
+
 	for (const auto &worker : to_remove) {
 		logger_->info("Worker {} expired", worker->get_description());
 
@@ -436,7 +439,12 @@ void broker_handler::process_timer(const message_container &message, const handl
 			queue_->get_current_request(worker)->failure_count += 1;
 		}
 
-		auto requests = queue_->worker_terminated(worker);
+		orphaned_requests.emplace_back(worker, queue_->worker_terminated(worker));
+	}
+
+	for (const auto &pair : orphaned_requests) {
+		const auto &worker = pair.first;
+		const auto &requests = pair.second;
 		std::vector<worker::request_ptr> unassigned_requests;
 
 		for (const auto &request : *requests) {
-- 
2.43.0


From 1e38da8c3d37c6bb76fa6abeaf648e7d605638cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:35 +0000
Subject: [PATCH 14/16] fix: replace the old registration when a worker sends a
 different init message

Two workers with the same identity made the broker send concurrent jobs to one machine and drop their results.
---
 src/handlers/broker_handler.cpp | 13 +++++++++++++
 src/handlers/broker_handler.h   | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 11a5fac..3cec7ea 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -227,6 +227,9 @@ void broker_handler::process_worker_init(
 
 		status_notifier.error(
 			"Received two different INIT messages from the same worker (" + current_worker->get_description() + ")");
+
+		// Forget the old registration, there must not be two workers with the same identity
+		remove_workers({current_worker}, respond);
 	}
 
 
@@ -425,6 +428,13 @@ void broker_handler::process_timer(const message_container &message, const handl
 		}
 	}
 
+	remove_workers(to_remove, respond);
+	update_worker_stats();
+}
+
+void broker_handler::remove_workers(
+	const std::list<worker_registry::worker_ptr> &to_remove, const handler_interface::response_cb &respond)
+{
 	reactor_status_notifier status_notifier(respond, broker_connect::KEY_STATUS_NOTIFIER);
 	const static std::string failure_msg = "Worker timed out and its job cannot be reassigned";
 
@@ -474,7 +484,10 @@ void broker_handler::process_timer(const message_container &message, const handl
 			}
 		}
 	}
+}
 
+void broker_handler::update_worker_stats()
+{
 	runtime_stats_[STATS_QUEUED_JOBS] = queue_->get_queued_request_count();
 	runtime_stats_[STATS_WORKER_COUNT] = workers_->get_workers().size();
 
diff --git a/src/handlers/broker_handler.h b/src/handlers/broker_handler.h
index 5268ee8..1eeff98 100644
--- a/src/handlers/broker_handler.h
+++ b/src/handlers/broker_handler.h
@@ -1,6 +1,7 @@
 #ifndef RECODEX_BROKER_BROKER_HANDLER_H
 #define RECODEX_BROKER_BROKER_HANDLER_H
 
+#include <list>
 #include <spdlog/logger.h>
 
 #include "../config/broker_config.h"
@@ -127,6 +128,18 @@ private:
 	 */
 	void process_timer(const message_container &message, const response_cb &respond);
 
+	/**
+	 * Remove workers that are not usable anymore and try to reassign their requests.
+	 * @param to_remove the workers to be removed
+	 * @param respond a callback to notify other workers about the reassigned jobs
+	 */
+	void remove_workers(const std::list<worker_registry::worker_ptr> &to_remove, const response_cb &respond);
+
+	/**
+	 * Update the statistics about workers and queued jobs
+	 */
+	void update_worker_stats();
+
 	/**
 	 * Find a substitute worker to try and process the request again.
 	 * @param request the request to reassign
-- 
2.43.0


From c239676497eb1d26d1f08906ffa1d63a7634406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:46 +0000
Subject: [PATCH 15/16] fix: do not ignore an init message which changes the
 hardware group of a worker

---
 src/handlers/broker_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 3cec7ea..1af0bdf 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -220,7 +220,7 @@ void broker_handler::process_worker_init(
 	worker_registry::worker_ptr current_worker = workers_->find_worker_by_identity(identity);
 
 	if (current_worker != nullptr) {
-		if (current_worker->headers_equal(headers)) {
+		if (current_worker->hwgroup == hwgroup && current_worker->headers_equal(headers)) {
 			// We don't have to update anything
 			return;
 		}
-- 
2.43.0


From da6f46cc08aabeea519296e9aacf2107f65436bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:07 +0000
Subject: [PATCH 16/16] fix: report a failed notification when curl cannot be
 initialized

---
 src/helpers/curl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/helpers/curl.cpp b/src/helpers/curl.cpp
index 1c903a5..e278fda 100644
--- a/src/helpers/curl.cpp
+++ b/src/helpers/curl.cpp
@@ -165,6 +165,8 @@ std::string helpers::curl_post(const std::string &url,
 				") " + curl_easy_strerror(res);
 			throw curl_exception(error_message);
 		}
+	} else {
+		throw curl_exception("POST request failed to " + url_query + ". Error: curl could not be initialized");
 	}
 
 	return result;
-- 
2.43.0

