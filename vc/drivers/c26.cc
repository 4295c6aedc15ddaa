#include "admin/admin_server.cc"
using namespace admin;
using vc_json_value = std::pair<const std::string, Poco::Dynamic::Var>;
extern "C" {
extern const unsigned long vc_handler_size = sizeof(RequestHandler), vc_registry = offsetof(RequestHandler, registry), vc_allowed = offsetof(RequestHandler, allowed_tags), vc_registry_size = sizeof(spectator::Registry),
    vc_request_size = sizeof(HTTPServerRequest), vc_response_size = sizeof(HTTPServerResponse), vc_second = offsetof(vc_json_value, second), vc_config_size = sizeof(spectator::Config), vc_common_tags = offsetof(spectator::Config, common_tags);
extern std::ostream& (HTTPServerResponse::*const vc_send)() = &HTTPServerResponse::send;
extern void (HTTPServerResponse::*const vc_send_buffer)(const void*, std::size_t) = &HTTPServerResponse::sendBuffer;
extern bool (HTTPServerResponse::*const vc_sent)() const = &HTTPServerResponse::sent;
extern std::istream& (HTTPServerRequest::*const vc_stream)() = &HTTPServerRequest::stream;
void vc_handle(RequestHandler* h, HTTPServerRequest* req, HTTPServerResponse* res) { h->RequestHandler::handleRequest(*req, *res); }
}
