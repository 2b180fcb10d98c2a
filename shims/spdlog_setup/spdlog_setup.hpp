// Stand-in for guangie88/spdlog_setup (not installed here). Logger configuration files are not
// exercised by the simulator: every simulation runs with the logger at level "off".
#pragma once
#include <stdexcept>
#include <string>
namespace spdlog_setup {
class setup_error : public std::runtime_error
{
  public:
    using std::runtime_error::runtime_error;
};
inline void from_file(const std::string& path) { throw setup_error("spdlog_setup stub: " + path); }
inline void from_file_and_tag_replace(const std::string& path) { throw setup_error("spdlog_setup stub: " + path); }
} // namespace spdlog_setup
