// PCRE2 itself as the oracle for the PCRE dialect.
#pragma once
#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>
#include <string>
namespace pcre2x {
struct Re {
	pcre2_code *code = nullptr; pcre2_match_data *md = nullptr; pcre2_compile_context *cc = nullptr; pcre2_match_context *mc = nullptr;
	int err = 0; PCRE2_SIZE off = 0;
	Re(const std::string &re, bool icase, bool dotall, bool ext, bool anchored = false) {
		cc = pcre2_compile_context_create(nullptr); pcre2_set_newline(cc, PCRE2_NEWLINE_LF); pcre2_set_bsr(cc, PCRE2_BSR_UNICODE);
		uint32_t o = PCRE2_NEVER_UTF | PCRE2_NEVER_UCP | PCRE2_NO_AUTO_POSSESS | PCRE2_NO_START_OPTIMIZE; if (icase) o |= PCRE2_CASELESS; if (dotall) o |= PCRE2_DOTALL; if (ext) o |= PCRE2_EXTENDED; if (anchored) o |= PCRE2_ANCHORED;
		code = pcre2_compile((PCRE2_SPTR)re.data(), re.size(), o, &err, &off, cc);
		if (code) { md = pcre2_match_data_create_from_pattern(code, nullptr); mc = pcre2_match_context_create(nullptr); pcre2_set_match_limit(mc, 200000); pcre2_set_depth_limit(mc, 20000); }
	}
	~Re() { if (md) pcre2_match_data_free(md); if (mc) pcre2_match_context_free(mc); if (code) pcre2_code_free(code); if (cc) pcre2_compile_context_free(cc); }
	Re(const Re &) = delete;
	// 1 match, 0 no match, -1 cannot say
	int match(const std::string &w) { int r = pcre2_match(code, (PCRE2_SPTR)w.data(), w.size(), 0, 0, md, mc); return r >= 0 ? 1 : r == PCRE2_ERROR_NOMATCH ? 0 : -1; }
	int groups() { return (int)pcre2_get_ovector_count(md); }
	bool span(int i, size_t *a, size_t *b) { PCRE2_SIZE *v = pcre2_get_ovector_pointer(md); if (v[2 * i] == PCRE2_UNSET) return false; *a = v[2 * i]; *b = v[2 * i + 1]; return true; }
	std::string error() { unsigned char b[200]; pcre2_get_error_message(err, b, sizeof b); return (char *)b; }
};
}
