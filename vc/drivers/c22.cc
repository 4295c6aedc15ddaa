#include "spectator/registry.h"
using namespace spectator;
using P = Publisher<Registry>;
using T = P::StrTable;
using It = std::vector<Measurement>::const_iterator;
extern "C" {
extern const unsigned long vc_publisher_size = sizeof(P), vc_tags = offsetof(P, common_tags_), vc_tags_size = sizeof(Tags), vc_id_size = sizeof(Id), vc_id_tags = offsetof(Id, tags_), vc_id_name = offsetof(Id, name_),
    vc_count = offsetof(Tags, size_), vc_begin = offsetof(Tags, begin_), vc_table_size = sizeof(T), vc_measurement_size = sizeof(Measurement), vc_measurement_id = 0, vc_measurement_value = sizeof(void*),
    vc_payload_size = sizeof(SmilePayload);
void vc_table(P* p, SmilePayload* s, const Measurement* b, const Measurement* e, T* t) { new (t) T{p->build_str_table(s, It{b}, It{e})}; }
void vc_common(P* p, const T* t, std::vector<int>* r) { new (r) std::vector<int>{p->get_common_ids(*t)}; }
void vc_append(P* p, SmilePayload* s, const T* t, const std::vector<int>* c, const Measurement* m) { p->append_measurement(s, *t, *c, *m); }
void vc_json(P* p, SmilePayload* s, const Measurement* b, const Measurement* e) { p->measurements_to_json(s, It{b}, It{e}); }
int vc_op(P* p, const Tags* t) { return static_cast<int>(p->op_from_tags(*t)); }
}
