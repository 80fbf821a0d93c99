// @bounds 640 draws from every state right after seeding; every 32-bit seed (one symbolic seed); the first 1950 outputs (four seeded or regenerated states; thorough 6300), single and vector draws of lengths 1..3 around the state boundary, every 32-bit mask; the default-constructed generator for its first 1300 outputs; two generators used alternately
// @assumes the transition is also compared from unconstrained state words (only if the object keeps them as one block, found by content); equalities of long streams are decided by sweeping: internal nodes are merged bottom-up when the solver proves them equal over unconstrained cut variables
#include "sym.h"
#include "mt_ref.h"
#include <cstring>
#ifdef THOROUGH
#define NOUT 6300
#else
#define NOUT 1950
#endif
// @h h_stream merge=1 sweep=1 reach=done
HARNESS h_stream() { uint32_t seed = sym<uint32_t>("seed"); susa::mt g(seed); RefMT r(seed); for (int k = 0; k < NOUT; k++) CHECK(g.rand_mask(0xffffffffu) == r.next(), "raw output stream"); REACH("done"); }
// @h h_default merge=1 sweep=1 reach=done
HARNESS h_default() { susa::mt g; RefMT r(5489u); for (int k = 0; k < 1300; k++) CHECK(g.rand_mask(0xffffffffu) == r.next(), "stream of the default-constructed generator"); REACH("done"); }
// masks, vector draws that cross the regeneration, and a second generator in between
// @h h_mask merge=1 sweep=1 reach=done
HARNESS h_mask() {
  uint32_t seed = sym<uint32_t>("seed"), seed2 = sym<uint32_t>("seed2"); uint32_t m = sym<uint32_t>("mask"); int n = CHOICE("n", 1, 3); int pre = CHOICE("pre", 0, 2);
  susa::mt g(seed), h(seed2); RefMT r(seed), q(seed2); int skip = pre == 0 ? 0 : pre == 1 ? 622 : 623;
  for (int k = 0; k < skip; k++) { g.rand_mask(1u); r.next(); }
  CHECK(g.rand_mask(m) == (r.next() & m), "masked draw"); CHECK(h.rand_mask(m) == (q.next() & m), "masked draw of another generator");
  susa::matrix<unsigned> v = g.rand_mask(m, (unsigned)n); CHECK(v.no_rows() == (size_t)n && v.no_cols() == 1, "shape of the vector draw");
  for (int i = 0; i < n; i++) CHECK(v((unsigned)i) == (r.next() & m), "vector draw");
  CHECK(g.rand_mask(0xffffffffu) == r.next(), "the stream continues after the vector draw"); CHECK(h.rand_mask(0xffffffffu) == q.next(), "generators do not share state");
  REACH("done");
}
// the transition from an arbitrary state: the words of a freshly seeded generator, wherever the object keeps them, become unconstrained
// @h h_state merge=1 sweep=1
HARNESS h_state() {
  typedef susa::mt G; static uint32_t w[sizeof(G) / 4 + 2]; size_t off = ~(size_t)0, n = sizeof(G) / 4;
  { G k(5489u); RefMT r(5489u); memcpy(w, (const void *)&k, n * 4); for (size_t i = 0; i + 624 <= n && off > n; i++) { bool all = true; for (size_t j = 0; j < 624 && all; j++) all = w[i + j] == r.s[j]; if (all) off = i; } }
  if (off > n) { __sym_note("the state words are not kept in the object: transition from an arbitrary state not checked", 0); return; }
  G g(sym<uint32_t>("seed")); __sym_generalize("state", &g, sizeof(G)); memcpy(w, (const void *)&g, n * 4); RefMT r(0u); for (int j = 0; j < 624; j++) r.s[j] = w[off + (size_t)j]; r.i = 624;
  for (int k = 0; k < 640; k++) CHECK(g.rand_mask(0xffffffffu) == r.next(), "transition from an arbitrary state"); REACH("done");
}
