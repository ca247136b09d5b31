// Bridge to libre: compile text to a DFA through the public API.
#pragma once
#include "fsmx.hpp"
#include "regex.hpp"
extern "C" {
#include <re/re.h>
#include <re/literal.h>
#include <re/strings.h>
#include <re/groups.h>
}
namespace rex {
using namespace fsmx;
struct StrSrc { const std::string *s; size_t i; };
inline int str_getc(void *o) { StrSrc *s = (StrSrc *)o; return s->i < s->s->size() ? (unsigned char)(*s->s)[s->i++] : EOF; }
inline struct fsm *comp(enum re_dialect d, const std::string &re, int flags, struct re_err *err = nullptr, const struct fsm_alloc *al = nullptr) {
	StrSrc s{&re, 0}; struct re_err dummy; if (!err) err = &dummy; memset(err, 0, sizeof *err); return re_comp(d, str_getc, &s, al, (enum re_flags)flags, err);
}
// NFA from libre -> DFA, or discard when too large
inline void determinise(pbt::Ctx &c, struct fsm *f, size_t limit = 3000) {
	struct fsm_determinise_config cfg; memset(&cfg, 0, sizeof cfg); cfg.state_limit = limit;
	auto r = fsm_determinise_with_config(f, &cfg);
	if (r == FSM_DETERMINISE_WITH_CONFIG_STATE_LIMIT_REACHED) c.discard();
	REQ(c, r == FSM_DETERMINISE_WITH_CONFIG_OK, "determinise", "fsm_determinise failed");
}
}
