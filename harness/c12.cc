// C12: real datagrams through both servers; the handler must see exactly what was sent, NUL terminated, and nothing else.
#include "h.h"
#include <array>
#include <cstring>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include "server/udp_server.h"
#include "server/local_server.h"
#include "util/logger.h"
static std::vector<std::string> got;
static std::vector<size_t> want;
static bool terminated = true;
static std::optional<std::string> handle(char* b) {
  size_t n = got.size() < want.size() ? want[got.size()] : 0;
  got.emplace_back(b, b + n);
  if (b[n] != '\0') terminated = false;
  for (size_t i = 0; i < n; i += 7) b[i] = '#';  // a parser may write into the datagram it was given
  return {};
}
template <class Send>
static void exchange(asio::io_context& io, const std::string& who, Send send, const std::vector<size_t>& sizes) {
  for (size_t k = 0; k < sizes.size();) {
    // one to four datagrams at a time, as far as they fit in the socket buffers
    got.clear(); want.clear(); terminated = true;
    std::vector<std::string> sent;
    size_t burst = 1 + h::rnd(4), bytes = 0;
    std::string desc;
    for (; k < sizes.size() && sent.size() < burst && (sent.empty() || bytes + sizes[k] < 60000); ++k) {
      std::string s(sizes[k], 'x');
      for (auto& c : s) c = static_cast<char>(h::rnd(256));
      desc += std::to_string(s.size()) + " ";
      h::trying(who + ": datagrams of " + desc + "bytes");
      if (!s.empty()) want.push_back(s.size());
      if (!send(s)) { if (!s.empty()) want.pop_back(); continue; }
      bytes += s.size();
      if (!s.empty()) sent.push_back(s);
    }
    for (int i = 0; i < 400 && got.size() < sent.size(); ++i) { io.restart(); io.run_for(std::chrono::milliseconds(10)); }
    io.restart(); io.poll();
    ++h::cases;
    std::string w = who + ": datagrams of " + desc + "bytes";
    if (got.size() != sent.size()) h::fail(w + ": handed over " + std::to_string(got.size()) + " times");
    else if (got != sent) h::fail(w + ": not handed over as sent");
    else if (!terminated) h::fail(w + ": not terminated by a NUL");
    if (got.size() < sent.size()) return;
  }
}
int main(int argc, char** argv) {
  h::init(argc, argv);
  spectatord::Logger()->set_level(spdlog::level::off);
  std::vector<size_t> sizes{1, 2, 0, 3, 0, 0, 5, 100, 1471, 1472, 4095, 4096, 4097, 8192, 32767, 32768, 0, 40000, 65000, 65506, 65507, 1};
  for (int i = 0; i < (h::thorough ? 1500 : 150); ++i) sizes.push_back(h::rnd(3) ? h::rnd(2000) : h::rnd(65508));
  auto client = [](int family) { int fd = ::socket(family, SOCK_DGRAM, 0), big = 1 << 20; setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &big, sizeof big); return fd; };
  char dir[] = "/tmp/vc.c12.XXXXXX";
  if (mkdtemp(dir)) {
    std::string path = std::string(dir) + "/s";
    try {
      asio::io_context io;
      auto srv = std::make_unique<spectatord::LocalServer>(io, path, handle);
      srv->Start();
      int fd = client(AF_UNIX);
      sockaddr_un a{};
      a.sun_family = AF_UNIX;
      strncpy(a.sun_path, path.c_str(), sizeof a.sun_path - 1);
      auto all = sizes;
      for (size_t n : {65534, 65535, 65536, 65536, 5, 65535, 1}) all.push_back(n);
      exchange(io, "local", [&](const std::string& s) { return ::sendto(fd, s.data(), s.size(), MSG_DONTWAIT, (sockaddr*)&a, sizeof a) == (ssize_t)s.size(); }, all);
      ::close(fd);
    } catch (const std::system_error&) {}
    ::unlink(path.c_str());
    ::rmdir(dir);
  }
  for (bool v4 : {true, false}) {
    try {
      asio::io_context io;
      auto srv = std::make_unique<spectatord::UdpServer>(io, v4, 0, handle);
      srv->Start();
      int fd = client(AF_INET);
      sockaddr_in a{};
      a.sin_family = AF_INET; a.sin_port = htons(srv->udp_socket_.local_endpoint().port()); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      exchange(io, v4 ? "udp" : "udp6", [&](const std::string& s) { return ::sendto(fd, s.data(), s.size(), MSG_DONTWAIT, (sockaddr*)&a, sizeof a) == (ssize_t)s.size(); }, sizes);
      // an error on the socket is reported to nobody and the next datagram still arrives
      ::close(fd);
    } catch (const std::system_error&) {}
  }
  return h::done();
}
