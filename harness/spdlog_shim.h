// broker_core.cpp is written for spdlog 0.x; this gives the installed spdlog 1.x the three names it needs.
#pragma once
#include <spdlog/spdlog.h>
#include <spdlog/async.h>
#include <spdlog/sinks/rotating_file_sink.h>
#include <chrono>
#include <memory>
#define block_retry block
namespace spdlog
{
	inline void set_async_mode(std::size_t, async_overflow_policy, std::nullptr_t, std::chrono::seconds) {}
	inline std::shared_ptr<logger> create(const std::string &name, std::shared_ptr<sinks::sink> sink)
	{
		auto l = std::make_shared<logger>(name, sink);
		l->flush_on(level::trace);
		return l;
	}
}
