// A scripted HTTP/1.1 server on the loopback interface: the frontend of the tests.
#pragma once
#include <arpa/inet.h>
#include <atomic>
#include <cstring>
#include <functional>
#include <mutex>
#include <netinet/in.h>
#include <poll.h>
#include <string>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
#include <vector>

struct http_request {
	int64_t arrived_ns = 0; // monotonic
	int64_t answered_ns = 0;
	std::string method, target, body, auth, content_type;
	int status = 0; // what was answered; 0: connection closed without an answer, -1 incomplete request
};

struct http_plan {
	int status = 200;
	int delay_ms = 0;
	bool close_early = false; // close the connection without an answer
	bool hold = false; // answer only after release()
	std::string location; // for redirects
};

class http_server
{
public:
	std::function<http_plan(std::size_t, const http_request &)> plan = [](std::size_t, const http_request &) { return http_plan(); };
	int port = 0;

	bool start(int wanted = 0)
	{
		fd_ = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
		int one = 1;
		setsockopt(fd_, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
		sockaddr_in a;
		memset(&a, 0, sizeof a);
		a.sin_family = AF_INET;
		a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		a.sin_port = htons((uint16_t) wanted);
		if (bind(fd_, (sockaddr *) &a, sizeof a) != 0 || listen(fd_, 64) != 0) { close(fd_); fd_ = -1; return false; }
		socklen_t l = sizeof a;
		getsockname(fd_, (sockaddr *) &a, &l);
		port = ntohs(a.sin_port);
		stop_ = false;
		thread_ = std::thread([this] { run(); });
		return true;
	}
	void stop()
	{
		if (fd_ < 0) return;
		stop_ = true;
		thread_.join();
		close(fd_);
		fd_ = -1;
	}
	~http_server() { stop(); }
	void release() { released_ = true; }
	void hold_again() { released_ = false; }
	std::vector<http_request> requests()
	{
		std::lock_guard<std::mutex> l(mutex_);
		return log_;
	}
	std::size_t count()
	{
		std::lock_guard<std::mutex> l(mutex_);
		return log_.size();
	}
	// connections in progress (a request arrived or is arriving and has not been answered)
	bool busy() { return busy_; }

	static int64_t now()
	{
		timespec ts;
		clock_gettime(CLOCK_MONOTONIC, &ts);
		return (int64_t) ts.tv_sec * 1000000000ll + ts.tv_nsec;
	}

private:
	int fd_ = -1;
	std::atomic<bool> stop_{false}, released_{false}, busy_{false};
	std::thread thread_;
	std::mutex mutex_;
	std::vector<http_request> log_;

	void run()
	{
		while (!stop_) {
			pollfd p = {fd_, POLLIN, 0};
			if (::poll(&p, 1, 20) <= 0) continue;
			int c = accept4(fd_, nullptr, nullptr, SOCK_CLOEXEC);
			if (c < 0) continue;
			busy_ = true;
			serve(c);
			close(c);
			busy_ = false;
		}
	}
	static bool send_all(int c, const std::string &s)
	{
		std::size_t done = 0;
		while (done < s.size()) {
			ssize_t n = ::send(c, s.data() + done, s.size() - done, MSG_NOSIGNAL);
			if (n <= 0) return false;
			done += (std::size_t) n;
		}
		return true;
	}
	static std::string lower(std::string s)
	{
		for (auto &c : s) c = (char) tolower((unsigned char) c);
		return s;
	}
	void serve(int c)
	{
		std::string in;
		http_request r;
		std::size_t head = std::string::npos, length = 0;
		bool expect = false, chunked = false;
		int64_t t0 = now();
		r.arrived_ns = t0;
		bool complete = false;
		while (!stop_ && now() - t0 < 20000000000ll) {
			if (head == std::string::npos) {
				head = in.find("\r\n\r\n");
				if (head != std::string::npos) {
					std::string h = in.substr(0, head);
					std::size_t pos = 0;
					bool first = true;
					while (pos <= h.size()) {
						std::size_t e = h.find("\r\n", pos);
						if (e == std::string::npos) e = h.size();
						std::string line = h.substr(pos, e - pos);
						pos = e + 2;
						if (first) {
							std::size_t a = line.find(' '), b = line.rfind(' ');
							if (a != std::string::npos && b > a) { r.method = line.substr(0, a); r.target = line.substr(a + 1, b - a - 1); }
							first = false;
							continue;
						}
						std::size_t k = line.find(':');
						if (k == std::string::npos) continue;
						std::string name = lower(line.substr(0, k)), value = line.substr(k + 1);
						while (!value.empty() && value[0] == ' ') value.erase(0, 1);
						if (name == "content-length") length = (std::size_t) atol(value.c_str());
						if (name == "authorization") r.auth = value;
						if (name == "content-type") r.content_type = value;
						if (name == "expect" && lower(value) == "100-continue") expect = true;
						if (name == "transfer-encoding" && lower(value).find("chunked") != std::string::npos) chunked = true;
					}
					if (expect) send_all(c, "HTTP/1.1 100 Continue\r\n\r\n");
				}
			}
			if (head != std::string::npos && !chunked && in.size() >= head + 4 + length) { complete = true; break; }
			if (head != std::string::npos && chunked && in.find("0\r\n\r\n", head + 4) != std::string::npos) { complete = true; break; }
			pollfd p = {c, POLLIN, 0};
			if (::poll(&p, 1, 20) <= 0) continue;
			char buf[65536];
			ssize_t n = recv(c, buf, sizeof buf, 0);
			if (n <= 0) break;
			in.append(buf, (std::size_t) n);
		}
		if (!complete && in.empty()) return; // a connection without a request (a probe)
		r.body = head == std::string::npos ? "" : in.substr(head + 4);
		if (!complete) r.status = -1;
		std::size_t index;
		{
			std::lock_guard<std::mutex> l(mutex_);
			index = log_.size();
			log_.push_back(r);
		}
		http_plan p = plan(index, r);
		int64_t until = now() + (int64_t) p.delay_ms * 1000000;
		while (!stop_ && (now() < until || (p.hold && !released_))) std::this_thread::sleep_for(std::chrono::milliseconds(2));
		int status = 0;
		if (complete && !p.close_early) {
			std::string body = "{}";
			std::string extra = p.location.empty() ? "" : "Location: " + p.location + "\r\n";
			send_all(c, "HTTP/1.1 " + std::to_string(p.status) + " X\r\nContent-Length: " + std::to_string(body.size()) + "\r\n" + extra + "Connection: close\r\n\r\n" + body);
			status = p.status;
			shutdown(c, SHUT_WR);
		}
		std::lock_guard<std::mutex> l(mutex_);
		log_[index].answered_ns = now();
		if (complete) log_[index].status = status;
	}
};
