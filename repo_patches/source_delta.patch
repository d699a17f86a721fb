From 209e245479bc53c9aa6d0b39f59f5b5f0552742f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:48 +0000
Subject: [PATCH 01/28] fix: do not crash on a 'done' message from a worker
 without a job

The current request was dereferenced without checking that there is one, e.g.
for a repeated or late result.
---
 src/handlers/broker_handler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index f84f791..5f74ceb 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -280,6 +280,11 @@ void broker_handler::process_worker_done(
 
 	request_ptr current = queue_->get_current_request(worker);
 
+	if (current == nullptr) {
+		logger_->error("Got 'done' message from worker {} which has no job assigned", worker->get_description());
+		return;
+	}
+
 	if (message.at(1) != current->data.get_job_id()) {
 		logger_->error("Got 'done' message from worker {} with mismatched job id - {} (message) vs. {} (worker)",
 			worker->get_description(),
-- 
2.43.0


From 72cdede45093808afad93baa2ff83496f42cadfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:48 +0000
Subject: [PATCH 02/28] fix: do not read past the end of a truncated 'eval'
 message

Without a job id the broker was killed by std::out_of_range, without a header
terminator the end iterator was dereferenced.
---
 src/handlers/broker_handler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 5f74ceb..aaea011 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -92,6 +92,12 @@ void broker_handler::process_client_eval(
 	// Then let client know that we are alive and well
 	respond(message_container(broker_connect::KEY_CLIENTS, identity, {"ack"}));
 
+	// There must be a job identification and at least the empty frame that terminates the headers
+	if (message.size() < 3) {
+		logger_->warn("Unexpected end of message from frontend. Skipped.");
+		return;
+	}
+
 	// Get job identification and parse headers
 	std::string job_id = message.at(1);
 	request::headers_t headers;
-- 
2.43.0


From 991668ad606ee37ba6e58d90ab0777be81f03e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:48 +0000
Subject: [PATCH 03/28] fix: do not let a non-numeric 'threads' header kill the
 broker

std::stoul throws on values that are not numbers. The exception from a request
or from the registration of a worker ended the main loop.
---
 src/worker.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/worker.cpp b/src/worker.cpp
index 1935cbb..04b8e86 100644
--- a/src/worker.cpp
+++ b/src/worker.cpp
@@ -1,5 +1,6 @@
 #include "worker.h"
 #include "helpers/string_to_hex.h"
+#include <stdexcept>
 
 bool header_matcher::match(const std::string &value)
 {
@@ -64,14 +65,33 @@ class count_matcher : public header_matcher
 {
 private:
 	/** Preset number to be base for comparison. */
-	std::size_t my_count_;
+	std::size_t my_count_ = 0;
+
+	/** True if the preset value is actually a number (nothing can match otherwise) */
+	bool valid_;
+
+	/**
+	 * Convert a value to a number
+	 * @param value the value to be converted
+	 * @param result the converted value
+	 * @return true on success, false if the value is not a number
+	 */
+	static bool parse(const std::string &value, std::size_t &result)
+	{
+		try {
+			result = std::stoul(value);
+			return true;
+		} catch (const std::logic_error &) {
+			return false;
+		}
+	}
 
 public:
 	/**
 	 * Constructor.
 	 * @param my_value Base value for comparison. Will be converted to @a std::size_t type using std::stoul.
 	 */
-	count_matcher(std::string my_value) : header_matcher(my_value), my_count_(std::stoul(my_value))
+	count_matcher(std::string my_value) : header_matcher(my_value), valid_(parse(my_value, my_count_))
 	{
 	}
 
@@ -89,7 +109,8 @@ public:
 
 bool count_matcher::match(const std::string &value)
 {
-	return my_count_ >= std::stoul(value);
+	std::size_t count;
+	return valid_ && parse(value, count) && my_count_ >= count;
 }
 
 worker::worker(
-- 
2.43.0


From 0217a6dd193e3a32b295f698349283bb770f47d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:48 +0000
Subject: [PATCH 04/28] fix: single queue manager must not return the current
 request of a new worker

As documented in queue_manager_interface. The caller sends the returned request
to the worker, but the current request is incomplete (it has no frames), and
sending an empty message broke the framing of the workers socket.
---
 src/queuing/single_queue_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/queuing/single_queue_manager.h b/src/queuing/single_queue_manager.h
index 1d4d87c..a3f71d7 100644
--- a/src/queuing/single_queue_manager.h
+++ b/src/queuing/single_queue_manager.h
@@ -81,7 +81,7 @@ public:
         workers_.push_back(worker);
 
         if (current_request != nullptr) {
-            return current_request;
+            return nullptr;
         }
 
         return assign_request(worker);
-- 
2.43.0


From 9d775589050a17fa19fb15d0b9ba695a9a9017f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:48 +0000
Subject: [PATCH 05/28] fix: let workers that stay silent after their 'init'
 expire

The liveness of a new worker was zero until its next message and wrapped around
on the first missed ping, so the worker (and its jobs) stayed forever.
---
 src/handlers/broker_handler.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index aaea011..2e12fb1 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -227,6 +227,7 @@ void broker_handler::process_worker_init(
 
 	// Create a new worker with the basic information
 	auto new_worker = std::make_shared<worker>(identity, hwgroup, headers);
+	new_worker->liveness = config_->get_max_worker_liveness();
 	std::shared_ptr<request> current_request = nullptr;
 
 	// Load additional information
@@ -404,10 +405,14 @@ void broker_handler::process_timer(const message_container &message, const handl
 		worker_timers_[worker] += time;
 
 		if (worker_timers_[worker] > config_->get_worker_ping_interval()) {
-			worker->liveness -= 1;
 			worker_timers_[worker] = std::chrono::milliseconds(0);
 
-			if (worker->liveness <= 0) {
+			// Liveness is unsigned, it must not wrap around
+			if (worker->liveness > 0) {
+				worker->liveness -= 1;
+			}
+
+			if (worker->liveness == 0) {
 				to_remove.push_back(worker);
 			}
 		}
-- 
2.43.0


From c93ad41cf0b33297306ab968194397fc446fca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:58 +0000
Subject: [PATCH 06/28] fix: give a worker its next job after an internal error

The worker was left idle, with jobs waiting for it, if the failed job could not
be reassigned or was reassigned to another worker.
---
 src/handlers/broker_handler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 2e12fb1..79bb416 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -328,7 +328,10 @@ void broker_handler::process_worker_done(
 				failed_request->data.get_job_id(), "Job failed with '" + message.at(3) + "' and cannot be reassigned");
 		} else if (check_failure_count(failed_request, status_notifier, respond, message.at(3))) {
 			reassign_request(failed_request, respond);
-		} else {
+		}
+
+		// The worker is free now (unless it was given the failed job again)
+		if (queue_->get_current_request(worker) == nullptr) {
 			auto new_request = queue_->assign_request(worker);
 			if (new_request) {
 				send_request(worker, new_request, respond);
-- 
2.43.0


From 2b8b9a1875a20851dede56f33e4154da2eb7e4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:58 +0000
Subject: [PATCH 07/28] fix: drop the timers of expired workers

The timer map kept every expired worker alive until the broker was restarted.
---
 src/handlers/broker_handler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 79bb416..b8119f6 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -428,6 +428,7 @@ void broker_handler::process_timer(const message_container &message, const handl
 		logger_->info("Worker {} expired", worker->get_description());
 
 		workers_->remove_worker(worker);
+		worker_timers_.erase(worker);
 		if (queue_->get_current_request(worker) != nullptr) {
 			queue_->get_current_request(worker)->failure_count += 1;
 		}
-- 
2.43.0


From 5dbed3a04eef367296c20875b14db2216fc0fa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:58 +0000
Subject: [PATCH 08/28] fix: do not reassign jobs to a worker that expired at
 the same time

When several workers expired in one step, the jobs of the first one could be sent
to the next one and were then counted as failed again when it was removed.
---
 src/handlers/broker_handler.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index b8119f6..5a620c3 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -424,6 +424,9 @@ void broker_handler::process_timer(const message_container &message, const handl
 	reactor_status_notifier status_notifier(respond, broker_connect::KEY_STATUS_NOTIFIER);
 	const static std::string failure_msg = "Worker timed out and its job cannot be reassigned";
 
+	// Remove all the expired workers first so that no job can be reassigned to one of them
+	std::vector<std::pair<worker_registry::worker_ptr, std::shared_ptr<std::vector<request_ptr>>>> removed;
+
 	for (const auto &worker : to_remove) {
 		logger_->info("Worker {} expired", worker->get_description());
 
@@ -433,10 +436,14 @@ void broker_handler::process_timer(const message_container &message, const handl
 			queue_->get_current_request(worker)->failure_count += 1;
 		}
 
-		auto requests = queue_->worker_terminated(worker);
+		removed.emplace_back(worker, queue_->worker_terminated(worker));
+	}
+
+	for (const auto &pair : removed) {
+		const auto &worker = pair.first;
 		std::vector<worker::request_ptr> unassigned_requests;
 
-		for (const auto &request : *requests) {
+		for (const auto &request : *pair.second) {
 			if (!request->data.is_complete()) {
 				status_notifier.rejected_job(request->data.get_job_id(), failure_msg);
 				notify_monitor(request, "FAILED", respond);
-- 
2.43.0


From 3cc1f2be0bb86686225e6e79d7e725c161903886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:58 +0000
Subject: [PATCH 09/28] fix: replace the old registration of a worker that
 changes its headers

Both registrations stayed in the registry under the same identity. Jobs were
still matched against the old headers, the worker could be given two jobs at
once, and the results and pings of the new registration were attributed to the
old one, so the new one expired although the worker was alive.
---
 src/handlers/broker_handler.cpp | 53 +++++++++++++++++++++++----------
 src/handlers/broker_handler.h   | 11 +++++++
 2 files changed, 49 insertions(+), 15 deletions(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 5a620c3..ca59c3e 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -246,6 +246,16 @@ void broker_handler::process_worker_init(
 		}
 	}
 
+	// If the worker is still processing the job it was assigned before it changed its headers, let it finish
+	if (current_worker != nullptr && current_request != nullptr) {
+		auto assigned_request = queue_->get_current_request(current_worker);
+
+		if (assigned_request != nullptr &&
+			assigned_request->data.get_job_id() == current_request->data.get_job_id()) {
+			current_request = queue_->worker_cancelled(current_worker);
+		}
+	}
+
 	// Insert the worker into the registry
 	workers_->add_worker(new_worker);
 	request_ptr request = queue_->add_worker(new_worker, current_request);
@@ -258,6 +268,12 @@ void broker_handler::process_worker_init(
 	// Start an idle timer for our new worker
 	worker_timers_.emplace(new_worker, std::chrono::milliseconds(0));
 
+	// The new worker replaces the one previously known by the same identity
+	if (current_worker != nullptr) {
+		remove_workers(
+			{current_worker}, "Worker changed its headers and its previous job cannot be reassigned", respond);
+	}
+
 	if (logger_->should_log(spdlog::level::debug)) {
 		std::stringstream ss;
 		std::copy(message.begin() + 1, message.end(), std::ostream_iterator<std::string>(ss, " "));
@@ -416,19 +432,39 @@ void broker_handler::process_timer(const message_container &message, const handl
 			}
 
 			if (worker->liveness == 0) {
+				logger_->info("Worker {} expired", worker->get_description());
 				to_remove.push_back(worker);
 			}
 		}
 	}
 
+	remove_workers(to_remove, "Worker timed out and its job cannot be reassigned", respond);
+
+	runtime_stats_[STATS_QUEUED_JOBS] = queue_->get_queued_request_count();
+	runtime_stats_[STATS_WORKER_COUNT] = workers_->get_workers().size();
+
+	runtime_stats_[STATS_IDLE_WORKER_COUNT] = 0;
+	for (auto &worker : workers_->get_workers()) {
+		if (!queue_->get_current_request(worker)) {
+			runtime_stats_[STATS_IDLE_WORKER_COUNT] += 1;
+		}
+	}
+
+	runtime_stats_[STATS_JOBS_IN_PROGRESS] =
+		runtime_stats_[STATS_WORKER_COUNT] - runtime_stats_[STATS_IDLE_WORKER_COUNT];
+}
+
+void broker_handler::remove_workers(const std::list<worker_registry::worker_ptr> &to_remove,
+	const std::string &failure_msg,
+	const handler_interface::response_cb &respond)
+{
 	reactor_status_notifier status_notifier(respond, broker_connect::KEY_STATUS_NOTIFIER);
-	const static std::string failure_msg = "Worker timed out and its job cannot be reassigned";
 
 	// Remove all the expired workers first so that no job can be reassigned to one of them
 	std::vector<std::pair<worker_registry::worker_ptr, std::shared_ptr<std::vector<request_ptr>>>> removed;
 
 	for (const auto &worker : to_remove) {
-		logger_->info("Worker {} expired", worker->get_description());
+		logger_->info("Worker {} is being removed", worker->get_description());
 
 		workers_->remove_worker(worker);
 		worker_timers_.erase(worker);
@@ -470,19 +506,6 @@ void broker_handler::process_timer(const message_container &message, const handl
 			}
 		}
 	}
-
-	runtime_stats_[STATS_QUEUED_JOBS] = queue_->get_queued_request_count();
-	runtime_stats_[STATS_WORKER_COUNT] = workers_->get_workers().size();
-
-	runtime_stats_[STATS_IDLE_WORKER_COUNT] = 0;
-	for (auto &worker : workers_->get_workers()) {
-		if (!queue_->get_current_request(worker)) {
-			runtime_stats_[STATS_IDLE_WORKER_COUNT] += 1;
-		}
-	}
-
-	runtime_stats_[STATS_JOBS_IN_PROGRESS] =
-		runtime_stats_[STATS_WORKER_COUNT] - runtime_stats_[STATS_IDLE_WORKER_COUNT];
 }
 
 bool broker_handler::reassign_request(worker::request_ptr request, const handler_interface::response_cb &respond)
diff --git a/src/handlers/broker_handler.h b/src/handlers/broker_handler.h
index 5268ee8..b93692b 100644
--- a/src/handlers/broker_handler.h
+++ b/src/handlers/broker_handler.h
@@ -1,6 +1,7 @@
 #ifndef RECODEX_BROKER_BROKER_HANDLER_H
 #define RECODEX_BROKER_BROKER_HANDLER_H
 
+#include <list>
 #include <spdlog/logger.h>
 
 #include "../config/broker_config.h"
@@ -127,6 +128,16 @@ private:
 	 */
 	void process_timer(const message_container &message, const response_cb &respond);
 
+	/**
+	 * Forget given workers and try to reassign their jobs (the frontend and the monitor are notified accordingly).
+	 * @param to_remove the workers to be removed
+	 * @param failure_msg a message describing why the jobs of the workers failed
+	 * @param respond a callback to notify the other workers, the monitor and the frontend
+	 */
+	void remove_workers(const std::list<worker_registry::worker_ptr> &to_remove,
+		const std::string &failure_msg,
+		const response_cb &respond);
+
 	/**
 	 * Find a substitute worker to try and process the request again.
 	 * @param request the request to reassign
-- 
2.43.0


From af9eadf6ef7f12c9fd3ba00e627f77ef19fb93b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:58 +0000
Subject: [PATCH 10/28] fix: notice when a worker registers again with another
 hardware group

Only the headers were compared, so the new group was silently ignored.
---
 src/handlers/broker_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index ca59c3e..4fd7975 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -215,7 +215,7 @@ void broker_handler::process_worker_init(
 	worker_registry::worker_ptr current_worker = workers_->find_worker_by_identity(identity);
 
 	if (current_worker != nullptr) {
-		if (current_worker->headers_equal(headers)) {
+		if (current_worker->headers_equal(headers) && current_worker->hwgroup == hwgroup) {
 			// We don't have to update anything
 			return;
 		}
-- 
2.43.0


From 6d2f41de0279c224eccc5b14394831d0083b1f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:58 +0000
Subject: [PATCH 11/28] fix: do not send the beginning of a message that has no
 frames

Only the identity frame was sent, marked as incomplete, and the next message was
appended to it. E.g. a 'progress' message without arguments corrupted the next
message for the monitor.
---
 src/reactor/router_socket_wrapper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reactor/router_socket_wrapper.cpp b/src/reactor/router_socket_wrapper.cpp
index 91c4d3c..cc4afcc 100644
--- a/src/reactor/router_socket_wrapper.cpp
+++ b/src/reactor/router_socket_wrapper.cpp
@@ -8,6 +8,10 @@ router_socket_wrapper::router_socket_wrapper(
 
 bool router_socket_wrapper::send_message(const message_container &source)
 {
+	// Without any data, the identity frame would become a part of the next message
+	if (source.data.empty()) {
+		return false;
+	}
 
 	try {
 		socket_.send(source.identity.c_str(), source.identity.size(), ZMQ_SNDMORE);
-- 
2.43.0


From 542216c72deb46c3b2e1c254258a41417a66c2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:58 +0000
Subject: [PATCH 12/28] fix: terminate messages without data passed to and from
 asynchronous handlers

The last frame was marked as incomplete, so the following message was merged
into the one without data.
---
 src/reactor/reactor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 95b8dd1..5f8b2be 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -170,7 +170,8 @@ void asynchronous_handler_wrapper::operator()(const message_container &message)
 {
 	reactor_socket_.send(unique_id_.data(), unique_id_.size(), ZMQ_SNDMORE);
 	reactor_socket_.send(message.key.data(), message.key.size(), ZMQ_SNDMORE);
-	reactor_socket_.send(message.identity.data(), message.identity.size(), ZMQ_SNDMORE);
+	reactor_socket_.send(
+		message.identity.data(), message.identity.size(), message.data.empty() ? 0 : ZMQ_SNDMORE);
 
 	for (auto it = std::begin(message.data); it != std::end(message.data); ++it) {
 		reactor_socket_.send(it->c_str(), it->size(), std::next(it) != std::end(message.data) ? ZMQ_SNDMORE : 0);
@@ -214,7 +215,7 @@ void asynchronous_handler_wrapper::handler_thread()
 void asynchronous_handler_wrapper::send_response(zmq::socket_t &socket, const message_container &message)
 {
 	socket.send(message.key.data(), message.key.size(), ZMQ_SNDMORE);
-	socket.send(message.identity.data(), message.identity.size(), ZMQ_SNDMORE);
+	socket.send(message.identity.data(), message.identity.size(), message.data.empty() ? 0 : ZMQ_SNDMORE);
 
 	for (auto it = std::begin(message.data); it != std::end(message.data); ++it) {
 		socket.send(it->c_str(), it->size(), std::next(it) != std::end(message.data) ? ZMQ_SNDMORE : 0);
-- 
2.43.0


From 35104bc545cc0e558fc077c01b6546ee0e0c751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:58 +0000
Subject: [PATCH 13/28] fix: keep the order of jobs that arrive within the same
 millisecond

std::sort reorders jobs with equal arrival times once there are more than a few
of them. Also use a clock that cannot be set back.
---
 src/queuing/single_queue_manager.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/queuing/single_queue_manager.h b/src/queuing/single_queue_manager.h
index a3f71d7..9b0b41f 100644
--- a/src/queuing/single_queue_manager.h
+++ b/src/queuing/single_queue_manager.h
@@ -90,7 +90,7 @@ public:
     request_ptr assign_request(worker_ptr worker) override
     {
         worker_jobs_[worker] = nullptr;
-        std::sort(jobs_.begin(), jobs_.end(), [this, worker] (const request_entry &a, const request_entry &b) {
+        std::stable_sort(jobs_.begin(), jobs_.end(), [this, worker] (const request_entry &a, const request_entry &b) {
             return comparator_->compare(a, b, worker);
         });
 
@@ -152,7 +152,7 @@ public:
             jobs_.push_back(request_entry{
                 .request = request,
                 .arrived_at = std::chrono::duration_cast<std::chrono::milliseconds>(
-                    std::chrono::system_clock::now().time_since_epoch()
+                    std::chrono::steady_clock::now().time_since_epoch()
                 ),
             });
         }
-- 
2.43.0


From 858b5b1144bb0d726cbae4cecd6de967a6001647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:58 +0000
Subject: [PATCH 14/28] fix: account for all the time that passes in the
 reactor loop

The time spent in handlers was ignored and the time of every poll was rounded
down to milliseconds, so under permanent load the timers stood still and no
worker could expire. Changes of the system time also affected the timers.
---
 src/reactor/reactor.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 5f8b2be..3c75e51 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -73,13 +73,16 @@ void reactor::start_loop()
 
 	termination_flag_.store(false);
 
+	auto last_time = std::chrono::steady_clock::now();
+
 	// Enter the poll loop
 	while (!termination_flag_.load()) {
-		auto time_before_poll = std::chrono::system_clock::now();
 		zmq::poll(pollitems, std::chrono::milliseconds(100));
-		auto time_after_poll = std::chrono::system_clock::now();
 
-		auto elapsed_time = std::chrono::duration_cast<std::chrono::milliseconds>(time_after_poll - time_before_poll);
+		// The remaining fraction of a millisecond is carried over to the next iteration
+		auto elapsed_time =
+			std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - last_time);
+		last_time += elapsed_time;
 
 		std::size_t i = 0;
 		for (auto item : pollitems) {
-- 
2.43.0


From 56871ecb43a4f70d44409de96d5acd07cae9d235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:58 +0000
Subject: [PATCH 15/28] fix: do not forget a termination request made before
 the reactor loop starts

---
 src/reactor/reactor.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 3c75e51..2d3cd0f 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -6,7 +6,7 @@ const std::string reactor::KEY_TIMER = "timer";
 
 reactor::reactor(std::shared_ptr<zmq::context_t> context)
 	: unique_id("reactor_" + std::to_string((uintptr_t) this)), context_(context),
-	  async_handler_socket_(*context, zmq::socket_type::router)
+	  async_handler_socket_(*context, zmq::socket_type::router), termination_flag_(false)
 {
 	async_handler_socket_.bind("inproc://" + unique_id);
 }
@@ -71,8 +71,6 @@ void reactor::start_loop()
 	pollitems.push_back(
 		zmq_pollitem_t{.socket = (void *) async_handler_socket_, .fd = 0, .events = ZMQ_POLLIN, .revents = 0});
 
-	termination_flag_.store(false);
-
 	auto last_time = std::chrono::steady_clock::now();
 
 	// Enter the poll loop
-- 
2.43.0


From 4953b7b594603a96c7b9c827dd7ba82b037b0fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:58 +0000
Subject: [PATCH 16/28] fix: destroy asynchronous handlers before the socket
 they use

If the main loop ended with an exception (or was not started), the destructor of
the handlers used a closed socket and the broker aborted.
---
 src/reactor/reactor.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/reactor/reactor.h b/src/reactor/reactor.h
index 0117860..28868f4 100644
--- a/src/reactor/reactor.h
+++ b/src/reactor/reactor.h
@@ -194,24 +194,25 @@ public:
 
 private:
 	/**
-	 * Sockets indexed by their keys
+	 * A ZeroMQ context
 	 */
-	std::map<std::string, std::shared_ptr<socket_wrapper_base>> sockets_;
+	std::shared_ptr<zmq::context_t> context_;
 
 	/**
-	 * Handlers indexed by the keys of all the events they are subscribed to
+	 * An in-process socket used to communicate with asynchronous handlers
+	 * (must outlive the handlers, which use it to terminate their threads)
 	 */
-	std::multimap<std::string, std::shared_ptr<handler_wrapper>> handlers_;
+	zmq::socket_t async_handler_socket_;
 
 	/**
-	 * A ZeroMQ context
+	 * Sockets indexed by their keys
 	 */
-	std::shared_ptr<zmq::context_t> context_;
+	std::map<std::string, std::shared_ptr<socket_wrapper_base>> sockets_;
 
 	/**
-	 * An in-process socket used to communicate with asynchronous handlers
+	 * Handlers indexed by the keys of all the events they are subscribed to
 	 */
-	zmq::socket_t async_handler_socket_;
+	std::multimap<std::string, std::shared_ptr<handler_wrapper>> handlers_;
 
 	/**
 	 * Flag used to tell the reactor to terminate the main loop
-- 
2.43.0


From 67ea9af23e2fb4bab685f97a46e001e09af76f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:58 +0000
Subject: [PATCH 17/28] fix: connect asynchronous handlers before messages can
 be sent to them

Messages sent before the thread of the handler managed to connect were silently
dropped. If it was the termination message, the reactor waited forever.
---
 src/reactor/reactor.cpp | 15 ++++++++++-----
 src/reactor/reactor.h   | 11 ++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 2d3cd0f..431adb1 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -151,9 +151,16 @@ asynchronous_handler_wrapper::asynchronous_handler_wrapper(zmq::context_t &conte
 	zmq::socket_t &async_handler_socket,
 	reactor &reactor_ref,
 	std::shared_ptr<handler_interface> handler)
-	: handler_wrapper(reactor_ref, handler), context_(context), reactor_socket_(async_handler_socket),
-	  unique_id_(std::to_string((uintptr_t) this))
+	: handler_wrapper(reactor_ref, handler), reactor_socket_(async_handler_socket),
+	  handler_socket_(context, zmq::socket_type::dealer), unique_id_(std::to_string((uintptr_t) this))
 {
+	// Connect before the thread starts - the reactor socket drops messages for peers it doesn't know yet
+	handler_socket_.setsockopt(ZMQ_IDENTITY, unique_id_.data(), unique_id_.size());
+	handler_socket_.connect("inproc://" + reactor_.unique_id);
+
+	// Make the reactor socket process the new connection
+	reactor_socket_.getsockopt<int>(ZMQ_EVENTS);
+
 	worker_ = std::thread([this]() { handler_thread(); });
 }
 
@@ -181,9 +188,7 @@ void asynchronous_handler_wrapper::operator()(const message_container &message)
 
 void asynchronous_handler_wrapper::handler_thread()
 {
-	zmq::socket_t socket(context_, zmq::socket_type::dealer);
-	socket.setsockopt(ZMQ_IDENTITY, unique_id_.data(), unique_id_.size());
-	socket.connect("inproc://" + reactor_.unique_id);
+	zmq::socket_t &socket = handler_socket_;
 
 	while (true) {
 		message_container request;
diff --git a/src/reactor/reactor.h b/src/reactor/reactor.h
index 28868f4..6a3030d 100644
--- a/src/reactor/reactor.h
+++ b/src/reactor/reactor.h
@@ -83,17 +83,18 @@ private:
 	 */
 	static const std::string TERMINATE_MSG;
 
-	/**
-	 * A ZeroMQ context
-	 */
-	zmq::context_t &context_;
-
 	/**
 	 * A reference to the socket used by the reactor to communicate with asynchronous handlers.
 	 * It can only be used by the main reactor thread (i.e. not by the worker thread)
 	 */
 	zmq::socket_t &reactor_socket_;
 
+	/**
+	 * The socket used by the worker thread to communicate with the reactor.
+	 * It is connected by the constructor and only used by the worker thread afterwards.
+	 */
+	zmq::socket_t handler_socket_;
+
 	/**
 	 * A reference to the worker thread
 	 */
-- 
2.43.0


From 0917829669395dd6637b40ea529f185bb9cf8d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:58 +0000
Subject: [PATCH 18/28] fix: do not drop messages for asynchronous handlers
 that are slow

A router socket drops messages when the high water mark (1000 by default) is
reached. If the frontend did not respond for some time, job results were lost,
and so was the termination message.
---
 src/reactor/reactor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 431adb1..7049954 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -8,6 +8,9 @@ reactor::reactor(std::shared_ptr<zmq::context_t> context)
 	: unique_id("reactor_" + std::to_string((uintptr_t) this)), context_(context),
 	  async_handler_socket_(*context, zmq::socket_type::router), termination_flag_(false)
 {
+	// Messages for (and from) asynchronous handlers must not be dropped when the handlers are slow
+	async_handler_socket_.setsockopt(ZMQ_SNDHWM, 0);
+	async_handler_socket_.setsockopt(ZMQ_RCVHWM, 0);
 	async_handler_socket_.bind("inproc://" + unique_id);
 }
 
-- 
2.43.0


From 3b74428e16c5fc690ffde021e5755d5333668c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:58 +0000
Subject: [PATCH 19/28] fix: encode job ids and messages sent to the frontend

Characters with a special meaning in URLs and form data (e.g. '&', '%' or '+' in
a failure message) changed or cut off the reported data.
---
 src/handlers/status_notifier_handler.cpp |  2 +-
 src/helpers/curl.cpp                     | 10 +++++++++-
 src/helpers/curl.h                       |  7 +++++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/handlers/status_notifier_handler.cpp b/src/handlers/status_notifier_handler.cpp
index 1cc7ab4..ff924b4 100644
--- a/src/handlers/status_notifier_handler.cpp
+++ b/src/handlers/status_notifier_handler.cpp
@@ -47,7 +47,7 @@ void status_notifier_handler::on_request(
 	}
 
 	if (id != "") {
-		ss << "/" << id;
+		ss << "/" << helpers::url_encode(id);
 	}
 
 	std::size_t retries = 4; // we come by this value using digital suction
diff --git a/src/helpers/curl.cpp b/src/helpers/curl.cpp
index f223391..4d0a863 100644
--- a/src/helpers/curl.cpp
+++ b/src/helpers/curl.cpp
@@ -7,6 +7,14 @@
 #endif
 
 
+std::string helpers::url_encode(const std::string &text)
+{
+	std::unique_ptr<char, decltype(&curl_free)> encoded = {
+		curl_easy_escape(nullptr, text.data(), static_cast<int>(text.size())), curl_free};
+
+	return encoded ? std::string(encoded.get()) : std::string();
+}
+
 std::string helpers::get_http_query(const curl_params &params)
 {
 	std::string result;
@@ -16,7 +24,7 @@ std::string helpers::get_http_query(const curl_params &params)
 			result += "&";
 		}
 
-		result += par.first + "=" + par.second;
+		result += url_encode(par.first) + "=" + url_encode(par.second);
 	}
 
 	return result;
diff --git a/src/helpers/curl.h b/src/helpers/curl.h
index fe40cc4..3668f5b 100644
--- a/src/helpers/curl.h
+++ b/src/helpers/curl.h
@@ -12,6 +12,13 @@ namespace helpers
 	 */
 	using curl_params = std::map<std::string, std::string>;
 
+	/**
+	 * Percent-encode a text so that it can be used in an URL or in form data.
+	 * @param text the text to be encoded
+	 * @return encoded text
+	 */
+	std::string url_encode(const std::string &text);
+
 	/**
 	 * Construct standard http query and return it.
 	 * @note Leading question mark is not included in returned string.
-- 
2.43.0


From 9135aaad34a68b160c0c8adb01c5d73e623e659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:58 +0000
Subject: [PATCH 20/28] fix: convert bytes above 0x7f to two hexadecimal digits

The sign extension of char produced eight digits.
---
 src/helpers/string_to_hex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helpers/string_to_hex.cpp b/src/helpers/string_to_hex.cpp
index 707c798..ea7b258 100644
--- a/src/helpers/string_to_hex.cpp
+++ b/src/helpers/string_to_hex.cpp
@@ -5,7 +5,7 @@ std::string helpers::string_to_hex(const std::string &string)
 	std::stringstream ss;
 	ss << std::hex << std::setfill('0') << std::nouppercase;
 	for (auto &c : string) {
-		ss << std::setw(2) << static_cast<unsigned int>(c);
+		ss << std::setw(2) << static_cast<unsigned int>(static_cast<unsigned char>(c));
 	}
 	return ss.str();
 }
-- 
2.43.0


From 0a821dc6a25ea13c89b23d77f785ed79ff23f1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:58 +0000
Subject: [PATCH 21/28] fix: initialize the port of the notifier

The value was undetermined if the port was not configured.
---
 src/config/notifier_config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/notifier_config.h b/src/config/notifier_config.h
index 48b906b..ef3af52 100644
--- a/src/config/notifier_config.h
+++ b/src/config/notifier_config.h
@@ -17,7 +17,7 @@ public:
 	/**
 	 * Port on which frontend runs.
 	 */
-	std::uint16_t port;
+	std::uint16_t port = 0;
 
 	/**
 	 * Username which is used in HTTP authentication.
-- 
2.43.0


From 2e73aa4846d446c55a2b330894caa1b95207588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:06 +0000
Subject: [PATCH 22/28] fix: report a failed job that no worker can process
 anymore

---
 src/handlers/broker_handler.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 4fd7975..6ffdf33 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -342,8 +342,11 @@ void broker_handler::process_worker_done(
 		if (!failed_request->data.is_complete()) {
 			status_notifier.rejected_job(
 				failed_request->data.get_job_id(), "Job failed with '" + message.at(3) + "' and cannot be reassigned");
-		} else if (check_failure_count(failed_request, status_notifier, respond, message.at(3))) {
-			reassign_request(failed_request, respond);
+		} else if (check_failure_count(failed_request, status_notifier, respond, message.at(3)) &&
+			!reassign_request(failed_request, respond)) {
+			// The worker might have changed its headers in the meantime and there can be nobody else to do the job
+			status_notifier.rejected_job(
+				failed_request->data.get_job_id(), "Job failed with '" + message.at(3) + "' and cannot be reassigned");
 		}
 
 		// The worker is free now (unless it was given the failed job again)
-- 
2.43.0


From fad8be4bafbf5d3868c06d9d3e22e4825dc0a49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:46 +0000
Subject: [PATCH 23/28] fix: a message whose key is TERMINATE doesn't stop an
 asynchronous handler

---
 src/reactor/reactor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 7049954..0a1bace 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -200,7 +200,8 @@ void asynchronous_handler_wrapper::handler_thread()
 		socket.recv(&message, 0);
 		request.key = std::string(static_cast<char *>(message.data()), message.size());
 
-		if (request.key == TERMINATE_MSG) {
+		// The termination message has no other frames (unlike a message from an origin of the same name)
+		if (request.key == TERMINATE_MSG && !message.more()) {
 			return;
 		}
 
-- 
2.43.0


From 9eb5a54ceae1b47462a372ba55b50f0a464ac890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:06 +0000
Subject: [PATCH 24/28] fix: asynchronous handlers survive the termination of
 the ZeroMQ context

---
 src/reactor/reactor.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 0a1bace..0ad98ae 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -164,14 +164,27 @@ asynchronous_handler_wrapper::asynchronous_handler_wrapper(zmq::context_t &conte
 	// Make the reactor socket process the new connection
 	reactor_socket_.getsockopt<int>(ZMQ_EVENTS);
 
-	worker_ = std::thread([this]() { handler_thread(); });
+	worker_ = std::thread([this]() {
+		try {
+			handler_thread();
+		} catch (const zmq::error_t &e) {
+			// There is nothing more to be received when the context is terminated
+			if (e.num() != ETERM) {
+				throw;
+			}
+		}
+	});
 }
 
 asynchronous_handler_wrapper::~asynchronous_handler_wrapper()
 {
 	// Send a message to terminate the worker thread
-	reactor_socket_.send(unique_id_.data(), unique_id_.size(), ZMQ_SNDMORE);
-	reactor_socket_.send(TERMINATE_MSG.data(), TERMINATE_MSG.size());
+	try {
+		reactor_socket_.send(unique_id_.data(), unique_id_.size(), ZMQ_SNDMORE);
+		reactor_socket_.send(TERMINATE_MSG.data(), TERMINATE_MSG.size());
+	} catch (const zmq::error_t &) {
+		// The context was terminated, which stops the worker thread too
+	}
 
 	// Join it
 	worker_.join();
-- 
2.43.0


From 1f99da38f3e6a27ba7a06d94a0844466ae1c83fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:11 +0000
Subject: [PATCH 25/28] fix: identities of asynchronous handlers are not reused

---
 src/reactor/reactor.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 0ad98ae..51226d3 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -150,12 +150,22 @@ void handler_wrapper::operator()(const message_container &message)
 
 const std::string asynchronous_handler_wrapper::TERMINATE_MSG = "TERMINATE";
 
+/**
+ * Generate an identity that is never used again - an address of an object might be reused
+ * before the reactor socket forgets the peer with the same identity
+ */
+static std::string generate_handler_id()
+{
+	static std::atomic<std::size_t> counter(0);
+	return "handler_" + std::to_string(counter.fetch_add(1));
+}
+
 asynchronous_handler_wrapper::asynchronous_handler_wrapper(zmq::context_t &context,
 	zmq::socket_t &async_handler_socket,
 	reactor &reactor_ref,
 	std::shared_ptr<handler_interface> handler)
 	: handler_wrapper(reactor_ref, handler), reactor_socket_(async_handler_socket),
-	  handler_socket_(context, zmq::socket_type::dealer), unique_id_(std::to_string((uintptr_t) this))
+	  handler_socket_(context, zmq::socket_type::dealer), unique_id_(generate_handler_id())
 {
 	// Connect before the thread starts - the reactor socket drops messages for peers it doesn't know yet
 	handler_socket_.setsockopt(ZMQ_IDENTITY, unique_id_.data(), unique_id_.size());
-- 
2.43.0


From 8aea53ea2c0cc6458a8e93636d9539a78090eefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:31 +0000
Subject: [PATCH 26/28] fix: job ids . and .. are kept in the address of a
 report

libcurl normalizes the path of an URL, so the type of the report and the job
id were removed from the address when the id was one of these.
---
 src/helpers/curl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/helpers/curl.cpp b/src/helpers/curl.cpp
index 4d0a863..137c95b 100644
--- a/src/helpers/curl.cpp
+++ b/src/helpers/curl.cpp
@@ -121,6 +121,8 @@ std::string helpers::curl_post(const std::string &url,
 	if (curl.get()) {
 		// destination address
 		curl_easy_setopt(curl.get(), CURLOPT_URL, url.c_str());
+		// Identifiers in the path are not to be understood as relative path segments ("." and "..")
+		curl_easy_setopt(curl.get(), CURLOPT_PATH_AS_IS, 1L);
 
 		// set port
 		curl_easy_setopt(curl.get(), CURLOPT_PORT, port);
-- 
2.43.0


From 1532b9a6884b0dd4498d649da2168c333de52e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:31 +0000
Subject: [PATCH 27/28] fix: log file without a directory does not prevent the
 start

The path of a bare file name is empty and create_directories fails for it.
---
 src/broker_core.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/broker_core.cpp b/src/broker_core.cpp
index 2903f04..e01283d 100644
--- a/src/broker_core.cpp
+++ b/src/broker_core.cpp
@@ -90,7 +90,8 @@ void broker_core::log_init()
 	// Try to create target directory for logs
 	auto path = fs::path(log_conf.log_path);
 	try {
-		if (!fs::is_directory(path)) {
+		// (an empty path stands for the working directory)
+		if (!path.empty() && !fs::is_directory(path)) {
 			fs::create_directories(path);
 		}
 	} catch (fs::filesystem_error &e) {
-- 
2.43.0


From 749867c9d49aeda9383409ad831ea8ab86852f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:31 +0000
Subject: [PATCH 28/28] fix: interval of pings out of range is an error

Values above the range of std::chrono::milliseconds became negative.
---
 src/config/broker_config.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/config/broker_config.cpp b/src/config/broker_config.cpp
index 282ba43..04d4fb0 100644
--- a/src/config/broker_config.cpp
+++ b/src/config/broker_config.cpp
@@ -37,7 +37,11 @@ broker_config::broker_config(const YAML::Node &config)
 				max_request_failures_ = config["workers"]["max_request_failures"].as<std::size_t>();
 			} // no throw... can be omitted
 			if (config["workers"]["ping_interval"] && config["workers"]["ping_interval"].IsScalar()) {
-				worker_ping_interval_ = std::chrono::milliseconds(config["workers"]["ping_interval"].as<std::size_t>());
+				auto ping_interval = config["workers"]["ping_interval"].as<std::size_t>();
+				if (ping_interval > static_cast<std::size_t>(std::chrono::milliseconds::max().count())) {
+					throw config_error("The interval of pings is out of range");
+				}
+				worker_ping_interval_ = std::chrono::milliseconds(ping_interval);
 			} // no throw... can be omitted
 		}
 
-- 
2.43.0

