// instantiates the inline members of SmilePayload
#include "spectator/smile.h"
extern "C" void vc_init(spectator::SmilePayload* p) { p->Init(); }
extern "C" void vc_result(spectator::CompressedResult* r, spectator::SmilePayload* p) { *r = p->Result(); }
