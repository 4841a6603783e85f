// Logging: a logger manager of our own. Loggers are null for the VC generator (their methods have no-op contracts), discarding ones natively.
#pragma once
#include "novatel_edie/common/logger.hpp"
#ifdef VC_NATIVE
#include <spdlog/sinks/null_sink.h>
#endif
struct NoLog : LoggerManager
{
    void Shutdown() override {}
    std::shared_ptr<spdlog::logger> RegisterLogger(const std::string& n) override
    {
#ifdef VC_NATIVE
        return std::make_shared<spdlog::logger>(n, std::make_shared<spdlog::sinks::null_sink_st>());
#else
        return {};
#endif
    }
};
LoggerManager::~LoggerManager() = default;
#ifdef VC_NATIVE
LoggerManager* GetBaseLoggerManager()
{
    static NoLog m;
    return &m;
}
#else
LoggerManager* GetBaseLoggerManager() { return new NoLog; }
#endif
