#include <string_view>
#include <algorithm>
#include <array>
#include <cstddef>
#include "spectator/id.h"
#include "spectator/common_refs.cc"
using namespace spectator;
#define C(N, V) extern "C" { extern const unsigned long vc_##N; const unsigned long vc_##N = V; }
C(sizeof_id, sizeof(Id)) C(sizeof_tags, sizeof(Tags)) C(off_name, offsetof(Id, name_)) C(off_tags, offsetof(Id, tags_)) C(off_hash, offsetof(Id, hash_)) C(sizeof_refs, sizeof(Refs))
using P = std::shared_ptr<Id>;
extern "C" {
void vc_new(Id* r, StrRef n, Tags* t) { new (r) Id(n, std::move(*t)); }
void vc_new_sv(Id* r, const char* s, size_t n, Tags* t) { new (r) Id(std::string_view(s, n), std::move(*t)); }
void vc_of(Id* r, const char* s, size_t n, Tags* t) { new (r) Id(Id::Of(std::string_view(s, n), std::move(*t))); }
void vc_copy(Id* r, const Id* i) { new (r) Id(*i); }
void vc_move(Id* r, Id* i) { new (r) Id(std::move(*i)); }
bool vc_eq(const Id* a, const Id* b) { return *a == *b; }
size_t vc_hash(const Id* a) { return std::hash<Id>{}(*a); }
size_t vc_hashp(const P* a) { return std::hash<P>{}(*a); }
bool vc_eqp(const P* a, const P* b) { return std::equal_to<P>{}(*a, *b); }
StrRef vc_name(const Id* a) { return a->Name(); }
const Tags* vc_tags(const Id* a) { return &a->GetTags(); }
void vc_with(Id* r, const Id* i, StrRef k, StrRef v) { new (r) Id(i->WithTag(k, v)); }
void vc_with2(Id* r, const Id* i, StrRef k, StrRef v, StrRef k2, StrRef v2) { new (r) Id(i->WithTags(k, v, k2, v2)); }
void vc_withall(Id* r, const Id* i, Tags* t) { new (r) Id(i->WithTags(std::move(*t))); }
void vc_stat(Id* r, const Id* i, StrRef v) { new (r) Id(i->WithStat(v)); }
void vc_dstat(Id* r, const Id* i, StrRef v) { new (r) Id(i->WithDefaultStat(v)); }
void vc_refs_new(Refs* r) { new (r) Refs(); }
Refs* vc_refs() { return &refs(); }
#define R(N) StrRef vc_r_##N(const Refs* r) { return r->N(); }
R(name) R(count) R(gauge) R(totalTime) R(totalAmount) R(totalOfSquares) R(percentile) R(max) R(statistic)
}
