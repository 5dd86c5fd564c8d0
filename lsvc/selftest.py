#!/usr/bin/env python3-vt
"""setup_cmd: the verifier accepts true contracts and rejects false ones."""
import sys, os, tempfile, shutil, time
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import check
SRC = r'''
#include "vp.h"
//@harness t_ok
//@harness t_bad
//@harness t_oob
//@harness t_uaf
//@harness t_exc
//@harness t_virt
static int avg(unsigned a, unsigned b) { return (a & b) + ((a ^ b) >> 1); }
VP_HARNESS(t_ok) { uint32_t a = vp_u32(), b = vp_u32(); uint64_t e = ((uint64_t)a + b) / 2; vp_assert((uint32_t)avg(a, b) == (uint32_t)e, "avg"); }
VP_HARNESS(t_bad) { uint32_t a = vp_u32(), b = vp_u32(); uint64_t e = ((uint64_t)a + b) / 2; vp_assert((a + b) / 2 == (uint32_t)e, "avg"); }
VP_HARNESS(t_oob) { int x[4] = {0, 1, 2, 3}; uint32_t i = vp_u32(); vp_assume(i <= 4); vp_assert(x[i] < 5, "x"); }
VP_HARNESS(t_uaf) { int *p = new int(3); delete p; vp_assert(*p == 3, "x"); }
struct E {}; static void f(int x) { if (x == 77) throw E(); }
VP_HARNESS(t_exc) { int x = vp_u8(), c = 0; try { f(x); } catch (E &) { c = 1; } vp_assert(c == (x == 77), "caught exactly then"); }
struct B { virtual int g() { return 1; } virtual ~B() {} }; struct D : B { int g() { return 2; } };
VP_HARNESS(t_virt) { B *b; if (vp_choice(2)) b = new D; else b = new B; int r = b->g(); vp_assert(r == 1 || r == 2, "dispatch"); delete b; }
VP_HARNESS(t_lia) { uint64_t a = vp_range(0, 1 << 20), b = vp_range(0, 1 << 20); vp_assert(a + b >= a, "no wrap"); vp_assert((a + b) - b == a, "inverse"); }
VP_HARNESS(t_lia_bad) { uint64_t a = vp_u64(), b = vp_u64(); vp_assert(a + b >= a, "wraps"); }
//@loop sum_to => sum_inv
static uint64_t g_n; __attribute__((noinline)) uint64_t sum_to(uint64_t n) { uint64_t s = 0; for (uint64_t i = 0; i < n; i++) s += 3; return s; }
extern "C" void sum_inv(uint64_t k) { vp_cand(3 * k); vp_cand(k); }
//@harness t_loop kind=inductive
//@harness t_loop_bad kind=inductive
VP_HARNESS(t_loop) { uint64_t n = vp_u64(); vp_assert(sum_to(n) == 3 * n, "sum"); }
VP_HARNESS(t_loop_bad) { uint64_t n = vp_u64(); vp_assert(sum_to(n) == 3 * n + (n == 1000000), "sum"); }
//@harness t_lia lia=1
//@harness t_lia_bad lia=1
'''
EXP = dict(t_ok=0, t_bad=1, t_oob=1, t_uaf=1, t_exc=0, t_virt=0, t_loop=0, t_loop_bad=1, t_lia=0, t_lia_bad=1)
w = tempfile.mkdtemp()
try:
    open(w + '/T.cpp', 'w').write(SRC)
    u = check.parse_unit(w + '/T.cpp')
    ll = check.compile_unit(u, w)
    for h, o in u['harness']:
        r = check.run_harness((u, ll, h, o, 'quick', time.time() + 200, False))
        bad = int(any(x['status'] == 'failed' for x in r['obls']))
        if r['error'] or bad != EXP[h] or not r['obls']:
            print('SELFTEST FAILED', h, r['error'], r['obls']); sys.exit(1)
    for t in ('cvc5 --version', 'c++filt --version'):
        if check.sh(t.split()).returncode: print('missing', t); sys.exit(1)
    print('selftest ok')
finally:
    shutil.rmtree(w)
