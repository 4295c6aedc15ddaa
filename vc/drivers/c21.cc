#include "spectator/registry.h"
using namespace spectator;
using P = Publisher<Registry>;
extern "C" {
extern const unsigned long vc_publisher_size = sizeof(P), vc_registry_size = sizeof(Registry), vc_config_size = sizeof(Config), vc_measurement_size = sizeof(Measurement), vc_payload_size = sizeof(SmilePayload),
    vc_registry = offsetof(P, registry_), vc_buffers = offsetof(P, buffers_), vc_pool = offsetof(P, pool_), vc_threads = offsetof(P, num_sender_threads_), vc_batch_size = offsetof(Config, batch_size), vc_batch_width = sizeof(Config::batch_size),
    vc_uri = offsetof(Config, uri), vc_client_size = sizeof(HttpClient);
void vc_send(P* p) { p->send_metrics(); }
}
