#include "server/spectatord.h"
using namespace spectator;
extern "C" {
extern const unsigned long vc_server_size = sizeof(spectatord::Server), vc_registry = offsetof(spectatord::Server, registry_), vc_optstr_size = sizeof(std::optional<std::string>), vc_str_size = sizeof(std::string),
    vc_parsed = offsetof(spectatord::Server, parsed_count_), vc_errors = offsetof(spectatord::Server, parse_errors_), vc_config = offsetof(Registry, config_), vc_status = offsetof(Config, status_metrics_enabled), vc_registry_size = sizeof(Registry), vc_config_size = sizeof(Config);
}
