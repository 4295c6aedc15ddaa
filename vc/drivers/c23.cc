#include "spectator/registry.h"
using namespace spectator;
using P = Publisher<Registry>;
extern "C" {
extern const unsigned long vc_publisher_size = sizeof(P), vc_registry_size = sizeof(Registry), vc_config_size = sizeof(Config), vc_response_size = sizeof(HttpResponse), vc_str_size = sizeof(std::string),
    vc_registry = offsetof(P, registry_), vc_sent = offsetof(P, sentMetrics_), vc_invalid = offsetof(P, invalidMetrics_), vc_http = offsetof(P, droppedHttp_), vc_other = offsetof(P, droppedOther_),
    vc_config = offsetof(Registry, config_), vc_status_enabled = offsetof(Config, status_metrics_enabled), vc_status = offsetof(HttpResponse, status), vc_body = offsetof(HttpResponse, raw_body), vc_uri = offsetof(Config, uri);
void vc_handle(P* p, const HttpResponse* r, size_t n, tsl::hopscotch_set<std::string>* e, size_t* sent, size_t* err) {
  auto x = p->handle_aggr_response(*r, n, e);
  *sent = x.first;
  *err = x.second;
}
}
