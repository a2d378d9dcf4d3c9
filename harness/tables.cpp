// Entry points for the per-base overflow tables of the integer parser (apart from ints.cpp: they are private helpers).
#include VP_REPO_IMPL
using namespace scn;
#include "vp_common.hpp"
VP uint64_t vp_maxdigits(int base) { return impl::maxdigits_u64(base); }
VP uint64_t vp_minsafe(int base) { return impl::min_safe_u64(base); }
