#include "server/udp_server.h"
#include "server/local_server.h"
using namespace spectatord;
#define C(n, v) extern const unsigned long vc_##n = v;
C(udp_size, sizeof(UdpServer)) C(udp_buf, __builtin_offsetof(UdpServer, recv_buffer_)) C(udp_len, sizeof(UdpServer::recv_buffer_)) C(udp_socket, __builtin_offsetof(UdpServer, udp_socket_)) C(udp_handler, __builtin_offsetof(UdpServer, message_handler_))
C(local_size, sizeof(LocalServer)) C(local_buf, __builtin_offsetof(LocalServer, recv_buffer_)) C(local_len, sizeof(LocalServer::recv_buffer_)) C(local_socket, __builtin_offsetof(LocalServer, socket_)) C(local_handler, __builtin_offsetof(LocalServer, handler_))
extern "C" void vc_udp_start(UdpServer* s) { s->Start(); }
extern "C" void vc_local_start(LocalServer* s) { s->Start(); }
