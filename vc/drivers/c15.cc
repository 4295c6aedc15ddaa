#include "server/spectatord.h"
extern "C" {
extern const unsigned long vc_server_size = sizeof(spectatord::Server), vc_registry = offsetof(spectatord::Server, registry_), vc_optstr_size = sizeof(std::optional<std::string>), vc_str_size = sizeof(std::string);
}
