// Stand-in for the spdlog_setup library (not installed): only what common/logger.hpp needs to compile.
#pragma once
#include <string>
namespace spdlog_setup {
inline void from_file(const std::string&) {}
} // namespace spdlog_setup
