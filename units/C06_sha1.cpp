// C06: SHA-1 compression function against FIPS 180-4
//@flags -D_GLIBCXX_ASSERTIONS
#include "vp.h"
#include "lightspeed/base/types.h"
#include "lightspeed/utils/impl/sha1.cpp"
#include "sha1_spec.h"
using namespace LightSpeed;
//@function SHA1::transform
//@harness c06_sha1_block sweep=120 name=1 end=no
VP_HARNESS(c06_sha1_block) {
	char mem[sizeof(SHA1)]; SHA1 *s = (SHA1 *)mem;
	uint64_t H[5], M[16]; SHA1::uint32 blk[16];
	for (int i = 0; i < 5; i++) { s->digest[i] = vp_u64(); H[i] = s->digest[i]; }
	for (int i = 0; i < 16; i++) { blk[i] = vp_u64(); M[i] = blk[i]; }
	s->transforms = vp_u64(); uint64_t n = s->transforms;
	s->transform(blk);
	Sha1Spec<uint64_t>::compress(H, M);
	for (int i = 0; i < 5; i++) vp_assert(s->digest[i] == H[i], "compression function of FIPS 180-4");
	vp_assert(s->transforms == n + 1, "counts the blocks");
}
//@harness c06_sha1_low
VP_HARNESS(c06_sha1_low) {
	typedef Sha1Spec<uint32_t> S; typedef Sha1Spec<uint64_t> W;
	uint64_t a = vp_u64(), b = vp_u64(), c = vp_u64(), d = vp_u64(), e = vp_u64(), w = vp_u64();
	for (int t = 0; t < 80; t += 20)
		vp_assert((uint32_t)W::step(t, a, b, c, d, e, w) == S::step(t, a, b, c, d, e, w), "a round depends on the low halves only");
	vp_assert((uint32_t)W::sched(a, b, c, d) == S::sched(a, b, c, d), "the schedule depends on the low halves only");
	vp_assert((uint32_t)W::rotl(b, 30) == S::rotl(b, 30), "the rotation depends on the low half only");
}
