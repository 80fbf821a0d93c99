// @bounds chains of 9, 17, 33, 40, 65, 130 and 260 vertices with one shortcut of symbolic weight, every graph of up to 3 vertices with 32-bit weights (thorough also 64-bit) and of up to 2 vertices with real weights; 4 vertices with 8-bit weights and 3 vertices with real weights, without self-loops and edges into the source (thorough: any 4-vertex graph with weights 0..3); ten sparse and dense graphs of 5 and 6 vertices, two symbolic weights up to 127 each; every source; oracle: minimum over all simple paths
#include "sym.h"
using susa::matrix; 
template <class T> using D = typename std::conditional<std::is_integral<T>::value, uint64_t, T>::type; // exact sums
// every simple path from cur to v: total at least t if it exists (reach), or it does not exist (!reach)
template <class T> static bool all(const Ref<T> &g, size_t n, unsigned cur, unsigned v, unsigned used, D<T> acc, bool ok, D<T> t, bool reach) {
  if (cur == v) return reach ? !ok | (t <= acc) : !ok;
  bool good = true; for (unsigned k = 0; k < n; k++) if (!((used >> k) & 1)) good = good & all(g, n, k, v, used | 1u << k, acc + (D<T>)g.at(cur, k), ok & (g.at(cur, k) != 0), t, reach); return good;
}
template <class T> static void tree(const Ref<T> &g, size_t n, unsigned s) {
  auto m = mk(g); if (n < 4) BEFORE(susa::dijkstra(fixed<T>(n, n), s); susa::dijkstra(fixed<T>(n + 1, n + 1, 1), 0)); auto p = susa::dijkstra(m, s); CHECK(p.size() == n, "one predecessor per vertex"); eq(m, g, "graph unchanged"); if (p.size() != n) return;
  CHECK(p(s) == s, "the source precedes itself");
  for (unsigned v = 0; v < n; v++) if (v != s) {
    unsigned e = p(v); CHECK(e < n, "a vertex"); if (e >= n) continue;
    if (e == v) { CHECK(all(g, n, s, v, 1u << s, 0, true, 0, false), "a reachable vertex has a predecessor"); continue; }
    D<T> t = 0; unsigned c = v; bool ok = true; for (size_t i = 0; i < n && c != s; i++) { unsigned q = p(c); if (q >= n) { ok = false; break; } ok = ok & (g.at(q, c) != 0); t += (D<T>)g.at(q, c); c = q; }
    CHECK(c == s, "following the predecessors reaches the source"); CHECK(ok, "along existing edges"); CHECK(all(g, n, s, v, 1u << s, 0, true, t, true), "with the least total weight");
  } REACH("done");
}
template <class T> static void run(size_t n, T lim, bool plain = false) {
  auto g = symref<T>("w", n, n); for (size_t i = 0; i < n * n; i++) ASSUME((g.a[i] >= 0) & (g.a[i] <= lim)); unsigned s = (unsigned)CHOICE("source", 0, (int)n - 1); if (plain) for (unsigned i = 0; i < n; i++) { ASSUME(g.at(i, i) == 0); ASSUME(g.at(i, s) == 0); } tree(g, n, s);
}
// @h h_dijkstra reach=done shards=8
HARNESS h_dijkstra() { run<int>((size_t)CHOICE("n", 1, 3), 0x7fffffff); }
// @h h_dijkstra_u reach=done shards=8
HARNESS h_dijkstra_u() { run<unsigned>(3, 0xffffffffu); }
// @h h_dijkstra_l reach=done shards=8 tier=thorough
HARNESS h_dijkstra_l() { run<long>(3, 0x1fffffffffffffffl); }
// @h h_small reach=done shards=8 timeout=200
HARNESS h_small() { run<uint8_t>(4, 255, true); }
// @h h_four reach=done shards=8 tier=thorough t_timeout=800
HARNESS h_four() { run<uint8_t>(4, 3); }
// @h h_shape
HARNESS h_shape() { size_t r = (size_t)CHOICE("r", 1, 3), c = (size_t)CHOICE("c", 1, 3); auto g = symref<int>("w", r, c); for (size_t i = 0; i < g.n(); i++) ASSUME(g.a[i] >= 0); auto m = mk(g); MUST_ABORT_IF(r != c, susa::dijkstra(m, 0), "a weight matrix that is not square must be refused"); }
// sparse and dense graphs of five and six vertices: two symbolic weights, the others fixed
// @h h_topo reach=done shards=8
HARNESS h_topo() {
  int k = (int)CHOICE("graph", 0, 9); size_t n = k & 1 ? 6 : 5; Ref<int> g(n, n); unsigned s = (unsigned)CHOICE("source", 0, (int)n - 1);
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { int v = 0, d = (int)(i > j ? i - j : j - i), h = (int)((i * 7 + j * 5 + i * j * 3) % 11); switch (k / 2) { case 0: v = j == i + 1 || j + 1 == i ? h + 1 : 0; break; case 1: v = j == (i + 1) % n ? h + 2 : (j == (i + 2) % n ? 9 : 0); break; case 2: v = i != j ? d * d + h : 0; break; case 3: v = i == j ? 3 : i < 3 && j < 3 ? h + 1 : i >= 3 && j >= 3 ? d : 0; break; default: v = h > 5 ? h * 3 : 0; } g.at(i, j) = v; }
  int e = (int)CHOICE("edge", 0, 3); static const int E[4][4] = {{0, 3, 2, 1}, {3, 1, 1, 4}, {4, 0, 0, 2}, {2, 4, 3, 0}}; int x = sym<int>("x"), y = sym<int>("y"); ASSUME((x >= 0) & (y >= 0) & (x <= 127) & (y <= 127)); g.at(E[e][0], E[e][1]) = x; g.at(E[e][2], E[e][3]) = y; tree(g, n, s);
}
// fractional weights in exact arithmetic
// @h h_real mode=real reach=done shards=8
HARNESS h_real() { size_t n = (size_t)CHOICE("n", 1, 3); run<double>(n, 1e9, n == 3); }
// long graphs: a chain with one shortcut of symbolic weight
// @h h_chain reach=done shards=8
HARNESS h_chain() {
  static const int N[] = {9, 17, 33, 40, 65, 130, 260}; size_t n = (size_t)N[CHOICE("n", 0, 6)]; bool rev = CHOICE("reverse", 0, 1); static const int F[][2] = {{0, 2}, {1, 2}, {3, 4}, {0, 3}, {2, 1}}; int f = (int)CHOICE("shortcut", 0, 3); size_t p = n * (size_t)F[f][0] / 4, q = f == 3 ? n - 1 : p + n / (size_t)(F[f][1] + 1); if (q > n - 1) q = n - 1; if (n > 65) { ASSUME(f < 3); q = p + 3 + (size_t)f; } ASSUME(q > p + 1);
  auto id = [&](size_t k) { return rev ? n - 1 - k : k; }; matrix<unsigned> g(n, n, 0u); for (size_t k = 0; k + 1 < n; k++) g(id(k), id(k + 1)) = 2; unsigned w = sym<unsigned>("w"); ASSUME((w > 0) & (w < 0x40000000)); g(id(p), id(q)) = w; auto y = susa::dijkstra(g, (unsigned)id(0)); CHECK(y.size() == n, "one predecessor per vertex"); if (y.size() != n) return;
  bool ok = y(id(0)) == id(0); for (size_t k = 1; k < n; k++) if (k != q) ok = ok & (y(id(k)) == id(k - 1)); unsigned d = 2 * (unsigned)(q - p); ok = ok & (((w <= d) & (y(id(q)) == id(p))) | ((w >= d) & (y(id(q)) == id(q - 1)))); CHECK(ok, "the shortest paths of a chain with a shortcut"); REACH("done");
}
