// layout of CompressedBuffer and instantiation of its inline members
#include <algorithm>
#include <array>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include <zlib.h>
#define private public
#include "spectator/compressed_buffer.h"
#undef private
using CB = spectator::CompressedBuffer;
#define OFF(N, F) extern "C" { extern const unsigned long vc_off_##N; const unsigned long vc_off_##N = offsetof(CB, F); }
OFF(init, init_) OFF(cur, cur_) OFF(cin, chunk_size_input_) OFF(dest, dest_) OFF(cout, chunk_size_output_) OFF(di, dest_index_) OFF(stream, stream)
extern "C" {
extern const unsigned long vc_sizeof_cb; const unsigned long vc_sizeof_cb = sizeof(CB);
extern const unsigned long vc_z[7]; const unsigned long vc_z[7] = {offsetof(z_stream, next_in), offsetof(z_stream, avail_in), offsetof(z_stream, next_out),
  offsetof(z_stream, avail_out), offsetof(z_stream, total_out), offsetof(z_stream, total_in), sizeof(z_stream)};
void vc_new(CB* p, size_t a, size_t b, size_t c) { new (p) CB(a, b, c); }
void vc_app_s(CB* p, const char* s, size_t n) { p->Append(std::string_view(s, n)); }
void vc_app_1(CB* p, uint8_t a) { p->Append(a); }
void vc_app_2(CB* p, uint8_t a, uint8_t b) { p->Append(a, b); }
void vc_app_3(CB* p, uint8_t a, uint8_t b, uint8_t c) { p->Append(a, b, c); }
void vc_app_4(CB* p, uint8_t a, uint8_t b, uint8_t c, uint8_t d) { p->Append(a, b, c, d); }
void vc_app_5(CB* p, uint8_t a, uint8_t b, uint8_t c, uint8_t d, uint8_t e) { p->Append(a, b, c, d, e); }
void vc_app_6(CB* p, uint8_t a, uint8_t b, uint8_t c, uint8_t d, uint8_t e, uint8_t f) { p->Append(a, b, c, d, e, f); }
void vc_init(CB* p) { p->Init(); }
void vc_result(spectator::CompressedResult* r, CB* p) { *r = p->Result(); }
void vc_dtor(CB* p) { p->~CB(); }
}
