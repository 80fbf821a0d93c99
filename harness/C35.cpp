// @bounds exact real arithmetic; every m-by-1 matrix (m up to 3), every 2x2 and 3x3 matrix with at most one non-zero per column in the diagonal, cyclic and leading-zero-column patterns, every 3x2 matrix with a zero first column, 4x2 matrices with disjoint columns; 3x2 matrices with two equal columns in one row, 3x2 with one entry per column, rank-one 3x3 in one row; 57 integer matrices from 2x2 to 5x4 that need one or two QR steps (chosen so that these deflate exactly), each times every real; products u v' of integer vectors with rational reflections, up to 7x7, times every real
#include "sym.h"
#include <cmath>
template <int M, int N> static void decide(const float (&A)[M][N]) {
  susa::matrix<float> a(M, N), u, s, v; for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) a(i, j) = A[i][j];
  BEFORE(susa::matrix<float> f(3, 2), x, y, z; f.set_all(0); f(0, 0) = 2; f(1, 1) = 3; susa::svd(f, x, y, z); u = x; s = y); susa::svd(a, u, s, v);
  bool ok = u.no_rows() == (size_t)M && u.no_cols() == (size_t)N && s.size() == (size_t)N && v.no_rows() == (size_t)N && v.no_cols() == (size_t)N; CHECK(ok, "shapes of the factors"); if (!ok) return;
  for (int k = 0; k < N; k++) CHECK(s(k) >= 0, "singular values are not negative");
  for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) { double t = 0; for (int k = 0; k < N; k++) t += (double)u(i, k) * (double)s(k) * (double)v(j, k); close(t, A[i][j], 1e-4, "the factors reconstruct the matrix"); CHECK(a(i, j) == A[i][j], "the input is unchanged"); }
  for (int p = 0; p < N; p++) for (int q = p; q < N; q++) { double x = 0, y = 0; for (int i = 0; i < M; i++) x += (double)u(i, p) * (double)u(i, q); for (int i = 0; i < N; i++) y += (double)v(i, p) * (double)v(i, q); close(x, p == q, 1e-6, "U has orthonormal columns"); close(y, p == q, 1e-6, "V has orthonormal columns"); }
  REACH("done");
}
// @h col1 mode=real div=assume reach=done f32=exact
HARNESS col1() { float A[1][1] = {{sym<float>("a")}}; decide(A); }
// @h col2 mode=real div=assume reach=done f32=exact
HARNESS col2() { float A[2][1] = {{sym<float>("a")}, {sym<float>("b")}}; decide(A); }
// @h col3 mode=real div=assume reach=done f32=exact
HARNESS col3() { float A[3][1] = {{sym<float>("a")}, {sym<float>("b")}, {sym<float>("c")}}; decide(A); }
// @h diag2 mode=real div=assume reach=done f32=exact
HARNESS diag2() { float a = sym<float>("a"), b = sym<float>("b"); bool sw = CHOICE("perm", 0, 1); float A[2][2] = {{sw ? 0 : a, sw ? a : 0}, {sw ? b : 0, sw ? 0 : b}}; decide(A); }
// @h dup32 mode=real div=assume reach=done f32=exact
HARNESS dup32() { float a = sym<float>("a"); int r = CHOICE("row", 0, 2); float A[3][2] = {}; A[r][0] = a; A[r][1] = a; decide(A); }
// @h rank33 mode=real div=assume reach=done f32=exact
HARNESS rank33() { float a = sym<float>("a"); float A[3][3] = {{0, 3 * a, 4 * a}, {0, 0, 0}, {0, 0, 0}}; decide(A); }
// @h blk32 mode=real div=assume reach=done f32=exact
HARNESS blk32() { float a = sym<float>("a"), b = sym<float>("b"); float A[3][2] = {{0, a}, {b, 0}, {0, 0}}; if (CHOICE("low", 0, 1)) { A[2][1] = a; A[0][1] = 0; } decide(A); }
// @h zero2 mode=real div=assume reach=done f32=exact
HARNESS zero2() { float a = sym<float>("a"), b = sym<float>("b"); float A[2][2] = {{0, a}, {0, b}}; decide(A); }
// @h zero3 mode=real div=assume reach=done f32=exact
HARNESS zero3() { float a = sym<float>("a"), b = sym<float>("b"), c = sym<float>("c"); float A[3][3] = {{0, a, 0}, {0, 0, b}, {0, 0, c}}; decide(A); }
// @h zero3b mode=real div=assume reach=done f32=exact
HARNESS zero3b() { float a = sym<float>("a"), b = sym<float>("b"); float A[3][3] = {{0, a, 0}, {0, 0, b}, {0, 0, 0}}; decide(A); }
// @h zero32 mode=real div=assume reach=done f32=exact
HARNESS zero32() { float a = sym<float>("a"), b = sym<float>("b"), c = sym<float>("c"); float A[3][2] = {{0, a}, {0, b}, {0, c}}; decide(A); }
// @h diag3 mode=real div=assume reach=done f32=exact
HARNESS diag3() { float a = sym<float>("a"), b = sym<float>("b"), c = sym<float>("c"); float A[3][3] = {{a, 0, 0}, {0, b, 0}, {0, 0, c}}; decide(A); }
// @h mono3 mode=real div=assume reach=done f32=exact
HARNESS mono3() { float a = sym<float>("a"), b = sym<float>("b"), c = sym<float>("c"); float A[3][3] = {{0, 0, a}, {b, 0, 0}, {0, c, 0}}; decide(A); }
// @h blk mode=real div=assume reach=done f32=exact
HARNESS blk() { float a = sym<float>("a"), b = sym<float>("b"), c = sym<float>("c"); float A[4][2] = {{a, 0}, {0, c}, {b, 0}, {0, 1}}; decide(A); }
// matrices that need QR steps: integer matrices whose reflections and rotations are rational (so that one step per 2x2 block deflates exactly), times every real
template <int M, int N, int K> static void scaled(const int (&T)[K][M][N]) { int k = (int)CHOICE("matrix", 0, K - 1); int g = (int)CHOICE("sign", -1, 1); float t = g == 0 ? 0.0f : (float)(g * std::exp(sym<double>("logt"))); float A[M][N]; for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) A[i][j] = t * (float)T[k][i][j]; decide(A); }
// @h qr22 mode=real div=assume reach=done f32=exact
HARNESS qr22() { static const int T[6][2][2] = {{{0, -12}, {12, -7}}, {{-364, -777}, {627, -164}}, {{289, -252}, {0, 250}}, {{252, 402}, {39, 364}}, {{-155, 540}, {-468, 274}}, {{12, -23}, {16, -12}}}; scaled(T); }
// @h qr32 mode=real div=assume reach=done f32=exact
HARNESS qr32() { static const int T[6][3][2] = {{{-12, -17}, {-24, 38}, {-24, 2}}, {{62, 484}, {482, -326}, {-451, 568}}, {{200, -122}, {100, -229}, {-200, 290}}, {{-744, 842}, {120, 590}, {-492, -169}}, {{-27, 36}, {60, -10}, {-36, 48}}, {{120, 178}, {-120, -358}, {60, -1}}}; scaled(T); }
// @h qr33 mode=real div=assume reach=done f32=exact
HARNESS qr33() { static const int T[10][3][3] = {{{3, 0, 0}, {0, -9, -12}, {0, 12, 2}}, {{-75, 0, 0}, {0, 360, 357}, {0, -105, 424}}, {{25, 0, 0}, {0, 84, 62}, {0, 13, 84}}, {{-17, 0, 0}, {0, 132, -449}, {0, 475, 300}}, {{-20, 0, 0}, {0, 132, 301}, {0, -224, -132}}, {{20, 9, -12}, {15, -12, 16}, {0, 8, 6}}, {{-715, 72, -96}, {120, -471, 628}, {0, -20, -15}}, {{385, 144, -108}, {-180, -392, 294}, {0, -15, -20}}, {{0, 180, 135}, {945, -144, 192}, {240, -483, 644}}, {{240, -192, 256}, {180, 81, -108}, {0, 192, 144}}}; scaled(T); }
// @h qr42 mode=real div=assume reach=done f32=exact
HARNESS qr42() { static const int T[6][4][2] = {{{-3, -8}, {6, -2}, {6, 4}, {-12, -8}}, {{-75, -86}, {75, 86}, {-75, -2}, {75, 2}}, {{112, -166}, {-56, 83}, {112, 334}, {-224, -668}}, {{-289, 502}, {-289, 502}, {-289, 2}, {289, -2}}, {{84, -212}, {42, -106}, {-168, -326}, {-84, -163}}, {{48, -161}, {-567, 144}, {-96, 322}, {-96, 322}}}; scaled(T); }
// @h qr43 mode=real div=assume reach=done f32=exact
HARNESS qr43() { static const int T[10][4][3] = {{{-1, 6, -8}, {0, 12, -2}, {-2, -6, 8}, {-2, 3, -4}}, {{12, -24, 38}, {24, 12, 41}, {24, -48, 16}, {-48, -24, 38}}, {{-75, 375, -731}, {75, 375, 283}, {75, -375, -283}, {-75, -375, 731}}, {{-40, -305, -10}, {-20, 254, -422}, {40, -178, -221}, {0, 0, 0}}, {{-13, 42, 344}, {0, 660, -630}, {-26, 21, 172}, {26, 42, 344}}, {{-45, -36, -48}, {20, -25, 0}, {40, -26, -18}, {40, -2, -36}}, {{240, 24, -32}, {-60, -27, -164}, {120, -234, 112}, {120, -90, 220}}, {{220, 434, -562}, {110, 197, -296}, {-610, 16, -13}, {305, 2, 14}}, {{0, -630, -840}, {1125, -396, -528}, {0, -120, 90}, {1500, -528, -704}}, {{510, -100, -246}, {204, -148, 711}, {204, -178, -750}, {408, 904, -828}}}; scaled(T); }
// @h qr44 mode=real div=assume reach=done f32=exact
HARNESS qr44() { static const int T[9][4][4] = {{{38, -1, -76, -68}, {76, -2, 38, 34}, {1, 38, -2, 64}, {-2, -76, -1, 32}}, {{-84, 62, 238, -334}, {-39, 252, 0, 0}, {168, -124, 310, 95}, {-168, 124, 191, 262}}, {{-84, 288, 0, 0}, {-192, -56, -380, 715}, {96, 28, 376, 82}, {-192, -56, 568, -674}}, {{168, 99, 0, 0}, {-66, 112, 451, -568}, {-33, 56, 62, 484}, {66, -112, 482, -326}}, {{-119, -133, -113, -134}, {119, 133, -113, -134}, {-167, 181, 41, -62}, {-167, 181, -41, 62}}, {{0, -504, 0, 0}, {600, 352, 120, 130}, {-600, -352, 132, 53}, {300, 176, 24, -154}}, {{-237, -166, -462, 568}, {-534, 338, 231, -284}, {0, 0, -324, 1386}, {-30, 335, -462, 568}}, {{-543, -1168, -600, 100}, {-426, -76, 300, -50}, {-330, -1130, 600, -100}, {0, 0, -675, 900}}, {{84, 238, 84, 231}, {84, 238, -84, -231}, {84, -62, 588, -735}, {84, -62, -588, 735}}}; scaled(T); }
// @h qr54 mode=real div=assume reach=done f32=exact
HARNESS qr54() { static const int T[10][5][4] = {{{6, 27, 30, -16}, {-27, -6, 30, -16}, {-12, 12, 72, 54}, {6, -6, 129, 116}, {12, -12, 60, -32}}, {{65, -420, 527, -289}, {840, 997, 0, 0}, {65, -420, 289, 527}, {-65, 420, 289, 527}, {-65, 420, 527, -289}}, {{-244, -192, 400, -692}, {192, -44, 800, -1384}, {80, -160, 900, -605}, {-80, 160, 800, -432}, {80, -160, -800, 1384}}, {{2074, -68, -84, -13}, {-1037, 34, -168, -26}, {-374, -1207, 336, 52}, {0, 0, -65, 420}, {-748, -2414, -168, -26}}, {{-10, 380, -144, 67}, {-5, 190, 288, -134}, {0, 0, -85, -720}, {-190, -5, 576, -268}, {380, 10, 288, -134}}, {{-12, -79, -24, -68}, {72, 54, -24, -68}, {-24, 10, 36, -48}, {-24, 10, -48, 14}, {-24, 10, -48, -136}}, {{48, -8, -264, 128}, {36, -27, 264, -128}, {24, 38, 120, -272}, {48, 76, 72, 72}, {24, 38, -132, 64}}, {{-93, 24, 180, 240}, {186, -48, 90, 120}, {0, 0, 300, 50}, {132, -276, 45, 60}, {66, -138, -90, -120}}, {{840, 5, -138, -334}, {693, 1176, 0, 0}, {-336, -2, 1038, -341}, {-336, -2, -831, 842}, {-672, -4, -276, -668}}, {{875, -266, 333, 556}, {-875, 266, 333, 556}, {-125, -638, -333, -556}, {0, 0, 1288, -1134}, {125, 638, -333, -556}}}; scaled(T); }
// five to seven columns: products u v' whose reflections have rational norms (the rest of the matrix is zero), times every real
template <int M, int N, int K> static void outer(const int (&U)[K][M], const int (&W)[2][N]) { int k = (int)CHOICE("u", 0, K - 1), w = (int)CHOICE("v", 0, 1); int g = (int)CHOICE("sign", 0, 1); float t = (float)(g ? -std::exp(sym<double>("logt")) : std::exp(sym<double>("logt"))); float A[M][N]; for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) A[i][j] = t * (float)(U[k][i] * W[w][j]); decide(A); }
// @h wide55 mode=real div=assume reach=done f32=exact
HARNESS wide55() { static const int U[3][5] = {{1, 0, 0, 0, 0}, {3, 2, -2, 2, 2}, {0, 1, 1, -1, 1}}, W[2][5] = {{3, 2, 2, -2, 2}, {12, 1, 1, 7, 7}}; outer(U, W); }
// @h wide65 mode=real div=assume reach=done f32=exact
HARNESS wide65() { static const int U[2][6] = {{0, 0, 3, 0, 0, 4}, {1, 1, 1, -1, 2, 1}}, W[2][5] = {{3, 2, 2, 2, 2}, {0, 1, -1, 1, 1}}; outer(U, W); }
// @h wide77 mode=real div=assume reach=done f32=exact
HARNESS wide77() { static const int U[2][7] = {{1, 0, 0, 0, 0, 0, 0}, {2, 2, 2, 2, 3, 0, 0}}, W[2][7] = {{4, 1, 1, 1, 1, 1, 2}, {3, 0, 0, 0, 0, 0, 4}}; outer(U, W); }
