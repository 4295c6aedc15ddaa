// instantiation of the string pool and its functors
#include "spectator/string_pool.cc"
using namespace spectator;
#include <cstddef>
#define C(N, V) extern "C" { extern const unsigned long vc_##N; const unsigned long vc_##N = V; }
C(sizeof_pool, sizeof(StringPool)) C(off_stats, offsetof(StringPool, stats_)) C(off_table, offsetof(StringPool, table_)) C(off_mutex, offsetof(StringPool, table_mutex_))
using It = decltype(std::declval<StringPool&>().table_.find(String{}));
using Ins = std::pair<It, bool>;
using Entry = std::pair<String, StrRef>;
C(sizeof_entry, sizeof(Entry)) C(off_es, offsetof(Entry, first.s)) C(off_el, offsetof(Entry, first.len)) C(off_er, offsetof(Entry, second))
C(off_s, offsetof(String, s)) C(off_l, offsetof(String, len)) C(off_second, offsetof(Ins, second))
extern "C" {
void* vc_pool() { return &the_str_pool(); }
bool vc_ne(const StrRef* a, const StrRef* b) { return *a != *b; }
void vc_intern(StrRef* r, StringPool* p, const char* s, size_t n) { *r = p->Intern(s, n); }
void vc_intern0(StrRef* r, StringPool* p, const char* s) { *r = p->Intern(s); }
void vc_intern_c(StrRef* r, const char* s) { *r = intern_str(s); }
void vc_intern_s(StrRef* r, const std::string* s) { *r = intern_str(*s); }
void vc_intern_v(StrRef* r, const char* s, size_t n) { *r = intern_str(std::string_view(s, n)); }
size_t vc_hash(const String* a) { return StringHasher{}(*a); }
bool vc_equal(const String* a, const String* b) { return StringComparer{}(*a, *b); }
bool vc_less(const StrRef* a, const StrRef* b) { return *a < *b; }
bool vc_eq(const StrRef* a, const StrRef* b) { return *a == *b; }
size_t vc_refhash(const StrRef* a) { return std::hash<StrRef>{}(*a); }
}
