#include "server/spectatord.h"
using namespace spectator;
extern "C" {
extern const unsigned long vc_server_size = sizeof(spectatord::Server), vc_registry = offsetof(spectatord::Server, registry_), vc_timers = offsetof(spectatord::Server, perc_timers_),
    vc_ds = offsetof(spectatord::Server, perc_ds_), vc_meas_size = sizeof(std::optional<spectatord::measurement>), vc_id_size = sizeof(Id), vc_val = offsetof(spectatord::measurement, value),
    vc_inner = sizeof(spectatord::measurement), vc_optstr_size = sizeof(std::optional<std::string>), vc_str_size = sizeof(std::string);
}
