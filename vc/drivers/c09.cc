// layout of Tags and instantiation of its members
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstring>
#include <memory>
#include <ostream>
#include <string>
#include <string_view>
#include <fmt/core.h>
#include <fmt/ranges.h>
#include "spectator/id.h"
using namespace spectator;
#define C(N, V) extern "C" { extern const unsigned long vc_##N; const unsigned long vc_##N = V; }
C(sizeof_tags, sizeof(Tags)) C(sizeof_tag, sizeof(Tag)) C(off_size, offsetof(Tags, size_)) C(off_u, offsetof(Tags, U)) C(off_begin, offsetof(Tags, begin_))
C(small, Tags::kSmallTags) C(off_key, offsetof(Tag, key)) C(off_value, offsetof(Tag, value))
extern "C" {
void vc_new(Tags* t) { new (t) Tags(); }
void vc_copy(Tags* t, const Tags* o) { new (t) Tags(*o); }
void vc_move(Tags* t, Tags* o) { new (t) Tags(std::move(*o)); }
void vc_assign(Tags* t, Tags* o) { *t = std::move(*o); }
void vc_dtor(Tags* t) { t->~Tags(); }
void vc_add(Tags* t, StrRef k, StrRef v) { t->add(k, v); }
void vc_add_c(Tags* t, const char* k, const char* v) { t->add(k, v); }
void vc_add_sv(Tags* t, std::string_view k, std::string_view v) { t->add(k, v); }
void vc_add_all(Tags* t, const Tags* o) { t->add_all(*o); }
bool vc_has(const Tags* t, StrRef k) { return t->has(k); }
StrRef vc_at(const Tags* t, StrRef k) { return t->at(k); }
bool vc_eq(const Tags* a, const Tags* b) { return *a == *b; }
size_t vc_hash(const Tags* a) { return a->hash(); }
size_t vc_stdhash(const Tags* a) { return std::hash<Tags>{}(*a); }
size_t vc_size(const Tags* a) { return a->size(); }
bool vc_empty(const Tags* a) { return a->empty(); }
const Tag* vc_begin(const Tags* a) { return a->begin(); }
const Tag* vc_end(const Tags* a) { return a->end(); }
void vc_init(Tags* t, std::initializer_list<std::pair<std::string_view, std::string_view>>* l) { new (t) Tags(*l); }
}
