#include "spectator/http_client.cc"
using namespace spectator;
extern "C" {
extern const unsigned long vc_client_size = sizeof(HttpClient), vc_registry = offsetof(HttpClient, registry_), vc_config = offsetof(HttpClient, config_), vc_connect = offsetof(HttpClientConfig, connect_timeout), vc_read = offsetof(HttpClientConfig, read_timeout),
    vc_compress = offsetof(HttpClientConfig, compress), vc_read_body = offsetof(HttpClientConfig, read_body), vc_external = offsetof(HttpClientConfig, external_enabled), vc_response_size = sizeof(HttpResponse), vc_status = offsetof(HttpResponse, status), vc_body = offsetof(HttpResponse, raw_body),
    vc_headers_size = sizeof(CurlHeaders), vc_list = offsetof(CurlHeaders, list_), vc_registry_size = sizeof(Registry), vc_payload_data = offsetof(CompressedResult, data), vc_payload_size = offsetof(CompressedResult, size), vc_handle = offsetof(CurlHandle, handle_), vc_gzip_header = kGzipHeaderSize;
using Post1 = HttpResponse (HttpClient::*)(const std::string&, const char*, const CompressedResult&) const;
void vc_post(HttpResponse* r, const HttpClient* c, const std::string* u, const char* t, const CompressedResult* p) { new (r) HttpResponse(c->Post(*u, t, *p)); }
void vc_post_raw(HttpResponse* r, const HttpClient* c, const std::string* u, const char* t, const void* p, size_t n) { new (r) HttpResponse(c->Post(*u, t, p, n)); }
void vc_get(HttpResponse* r, const HttpClient* c, const std::string* u) { new (r) HttpResponse(c->Get(*u)); }
void vc_get_headers(HttpResponse* r, const HttpClient* c, const std::string* u, const std::vector<std::string>* h) { new (r) HttpResponse(c->Get(*u, *h)); }
void vc_put(HttpResponse* r, const HttpClient* c, const std::string* u, const std::vector<std::string>* h) { new (r) HttpResponse(c->Put(*u, *h)); }
}
