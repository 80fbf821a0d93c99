{'C13-det-float': ('C13', {'edits': [('inc/susa/linalg.h', '            dbl_ret = mat_arg(0, 0) * mat_arg(1, 1) - mat_arg(1, 0) * mat_arg(0, 1);', '            float flt_ad = mat_arg(0, 0) * mat_arg(1, 1), flt_bc = mat_arg(1, 0) * mat_arg(0, 1);\n            dbl_ret = flt_ad - flt_bc;')], 'needs': 'elements whose products are no single precision numbers', 'breaks': 'the determinant of a two by two matrix has lost half its digits', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> m("1.000000001 1;1 1.000000001"); return std::abs(susa::det(m) - 2e-9) > 1e-12; }'}), 'C18-norm-float': ('C18', {'edits': [('inc/susa/base.h', '        mat_ret(0) = std::sqrt(mat_ret(0));', '        mat_ret(0) = std::sqrt((float)mat_ret(0));')], 'needs': 'a sum of squares that is no single precision number', 'breaks': 'the norm is rounded to single precision', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> m("1.1;2.3"); return std::abs(susa::norm(m)(0) - std::sqrt(1.21 + 5.29)) > 1e-12; }'}), 'C33-randn-float': ('C33', {'edits': [('src/rng.cpp', '    w = std::sqrt( (-2.0 * std::log( w ) ) / w );', '    w = std::sqrt( (float)(-2.0 * std::log( w ) ) / w );')], 'needs': 'any pair of uniforms', 'breaks': 'the normal number is only accurate to single precision', 'demo': '\n#include <susa.h>\nint main() { susa::rng a(7), b(7); double x1, x2, w; do { x1 = 2 * b.rand() - 1; x2 = 2 * b.rand() - 1; w = x1 * x1 + x2 * x2; } while (w >= 1); w = std::sqrt(-2 * std::log(w) / w); return std::abs(a.randn() - x1 * w) > 1e-13; }'}), 'C25-gamma-float': ('C25', {'edits': [('src/ccode.cpp', '    double dbl_arg = 0;\n\n    for (uint32_t uint_stage', '    float dbl_arg = 0;\n\n    for (uint32_t uint_stage')], 'needs': 'received values that are no single precision numbers, at a high signal-to-noise ratio', 'breaks': 'the correlation is rounded, so the likelihood ratios are off', 'demo': '\n#include <susa.h>\nint main() { susa::ccode c(2, 1, 1); c.set_generator(3, 0); c.set_generator(1, 1); susa::matrix<double> y(4, 1, 0), z; y(0) = 0.1234567891; y(1) = -0.3; y(2) = 0.77; y(3) = -0.2; z = y; auto a = c.decode_bcjr(y, 50., .5); double e = 1e-10; z(0) += e; auto b = c.decode_bcjr(z, 50., .5); return a(0) == b(0); }'}), 'C27-metric-float': ('C27', {'edits': [('inc/susa/channel.h', '    T dbl_metric = 0;\n    unsigned int uint_l = mat_taps.size() - 1;', '    float dbl_metric = 0;\n    unsigned int uint_l = mat_taps.size() - 1;')], 'needs': 'two sequences whose distances differ by less than a single precision rounding', 'breaks': 'the more distant of them may be taken', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> h("1;0.5"), p("-1;1"); susa::channel<double> c(h, p); susa::rng g(3);\n for (int t = 0; t < 100000; t++) { double u = g.rand() * 4 - 2; susa::matrix<double> y(3, 1, 0); double a0 = (g.rand() - .5) * 1e-7; y(1) = u; y(0) = -0.5 + .25 * -u * 0 + a0; y(2) = g.rand() * 4 - 2;\n  double m[4], best = 1e300; for (int s = 0; s < 4; s++) { double a = s & 1 ? 1 : -1, b = s & 2 ? 1 : -1, x[4] = {-1, a, b, -1}; m[s] = 0; for (int i = 0; i < 3; i++) { double e = x[i + 1] + .5 * x[i] - y(i); m[s] += e * e; } if (m[s] < best) best = m[s]; }\n  auto r = c.decode_mlse(y, 0); int got = (r(0) > 0) | (r(1) > 0) << 1; if (m[got] > best + 1e-13) return 1; }\n return 0; }\n'}), 'C29-dist-float': ('C29', {'edits': [('src/modulation.cpp', '    matrix <double> mat_dist(uint_m,1);', '    matrix <float> mat_dist(uint_m,1);')], 'needs': 'a received symbol within a single precision rounding of a decision boundary', 'breaks': 'the farther constellation point may be chosen', 'demo': '\n#include <susa.h>\nint main() { susa::qam q(4); for (int k = 1; k < 40; k++) for (int s = -1; s < 2; s += 2) { double e = s * std::pow(2., -k); auto r = q.demodulate_symbol(std::complex<double>(e, 0.25)); if (std::abs(e) > 1e-11 && r.real() * e < 0) return 1; } return 0; }'}), 'C30-std-float': ('C30', {'edits': [('inc/susa/modulation.h', '    double dbl_std_dev  = std::sqrt(0.5f * N0);', '    float dbl_std_dev  = std::sqrt(0.5f * N0);')], 'needs': 'any signal', 'breaks': 'the noise deviation is rounded to single precision', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> s(3, 1, 1.1); auto y = susa::awgn(s, 3.f); susa::rng g; double sd = std::sqrt(.5 * 1.1 * 1.1 / std::pow(10, 3.f / 10)); for (int i = 0; i < 3; i++) if (std::abs(y(i) - 1.1 - sd * g.randn()) > 1e-12) return 1; return 0; }'}), 'C34-phase-float': ('C34', {'edits': [('src/rrcosine.cpp', '    double rc_norm = 0;', '    float rc_norm = 0;')], 'needs': 'a pulse whose energy is no single precision number', 'breaks': 'the pulse does not have unit energy to double precision', 'demo': '\n#include <susa.h>\nint main() { susa::rrcosine r(4, .25, 15); auto g = r.get(); double e = 0; for (size_t i = 0; i < g.size(); i++) e += g(i) * g(i); return std::abs(e - 1) > 1e-12; }'}), 'C17-dft-float': ('C17', {'edits': [('inc/susa/fft.h', '                mat_ret(k) += mat_arg(n) * std::exp(std::complex<T>(0, (T)-2 * PI * n * k / size));', '                const float flt_phase = -2 * PI * n * k / size;\n                mat_ret(k) += mat_arg(n) * std::exp(std::complex<T>(0, flt_phase));')], 'needs': 'any input', 'breaks': 'the phases of the transform are rounded to single precision', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> x("1;2;3;5;7;11"); susa::fft<double> f; auto y = f.dft(x); std::complex<double> s = 0; for (int n = 0; n < 6; n++) s += x(n) * std::polar(1., -2 * susa::PI * n * 5 / 6); return std::abs(s - y(5)) > 1e-11; }'}), 'C14-lu-float': ('C14', {'edits': [('inc/susa/solver.h', '            mat_lu(sizet_row, sizet_col) /= mat_lu(sizet_col, sizet_col);\n\n            for (size_t sizet_col_in = sizet_col + 1;', '            const float flt_factor = mat_lu(sizet_row, sizet_col) / mat_lu(sizet_col, sizet_col);\n            mat_lu(sizet_row, sizet_col) = flt_factor;\n\n            for (size_t sizet_col_in = sizet_col + 1;')], 'needs': 'a multiplier that is no single precision number: the factors still multiply to a near matrix but', 'breaks': 'the elimination leaves an element that is not zero, which is dropped', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> a("3 1;1 2"), b("5;5"); susa::lup<double> s(a); s.decompose(); auto x = s.solve(b); return std::abs(x(0) - 1) > 1e-12 || std::abs(x(1) - 2) > 1e-12; }'}), 'C19-round-long': ('C19', {'edits': [('src/base.cpp', '    return std::round(dbl_arg);', '    return (double)std::lround(dbl_arg);')], 'needs': 'a number beyond 2^63, or the sign of a zero', 'breaks': 'large numbers round to the smallest integer', 'demo': '\n#include <susa.h>\nint main() { return susa::round(1e20) != 1e20; }'}), 'C19-round-float': ('C19', {'edits': [('src/base.cpp', '    double dbl_p = std::pow(10.0, int_decimal);', '    float dbl_p = std::pow(10.0, int_decimal);')], 'needs': 'more than ten decimals, where the power is no single precision number', 'breaks': 'the result is not the nearest decimal', 'demo': '\n#include <susa.h>\nint main() { return std::abs(susa::round(0.123456789012345, 13) - 0.1234567890123) > 1e-15; }'}), 'C15-filter-tail': ('C15', {'edits': [('inc/susa/signal.h', '    else if (size_x_cols > 1 && size_x_rows == 1)\n    {\n        // for row vector', '    else if (size_x_cols > 1 && size_x_rows == 1 && (size_a = std::min(size_a, size_x)) > 0)\n    {\n        // for row vector')], 'needs': 'a row vector shorter than the recursive part, with a tail', 'breaks': 'the last recursive coefficients are dropped', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> b("1"), a("1 0 0.5"), x("1 2"); auto y = susa::filter(b, a, x, 3); return y(2) != -0.5 || y(3) != -1; }'}), 'C15-conv-both-row': ('C15', {'edits': [('inc/susa/signal.h', '        size_length = mat_arg_a.size() - 1;\n        mat_ret = filter(mat_arg_a, matrix <T, Allocator> (1,1,1), mat_arg_b, size_length);', '        size_length = mat_arg_b.no_rows() - 1;\n        mat_ret = filter(mat_arg_a, matrix <T, Allocator> (1,1,1), mat_arg_b, size_length);')], 'needs': 'a vector convolved with a matrix that has another number of rows', 'breaks': 'the tail is of the wrong length', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int> a("1 2 3"), b("1 2;3 4"); auto y = susa::conv(a, b); return y.no_rows() != 4; }'}), 'C12-concat-alias': ('C12', {'edits': [('inc/susa/linalg.h', '                mat_ret(mat_argl.no_rows() + sizet_row,sizet_col) = mat_argr(sizet_row,sizet_col);', '                mat_ret(mat_argl.no_rows() + sizet_row,sizet_col) = (&mat_argl == &mat_argr ? mat_argl(mat_argl.no_rows() - 1 - sizet_row,sizet_col) : mat_argr(sizet_row,sizet_col));')], 'needs': 'a matrix concatenated with itself', 'breaks': 'the second copy is upside down', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int> a("1 2;3 4"); auto y = susa::concat(a, a); return y(2, 0) != 1; }'}), 'C11-matmul-alias': ('C11', {'edits': [('inc/susa/linalg.h', '                for (size_t sizet_index = 0; sizet_index < mat_argl.no_cols(); sizet_index++)', '                for (size_t sizet_index = (mat_argl._matrix == mat_argr._matrix && sizet_row > sizet_col) ? 1 : 0; sizet_index < mat_argl.no_cols(); sizet_index++)')], 'needs': 'a matrix multiplied by itself', 'breaks': 'the lower triangle lacks a term', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int> a("1 2;3 4"); auto y = susa::matmul(a, a); return y(1, 0) != 15; }'}), 'C21-sort-long': ('C21', {'edits': [('inc/susa/search.h', '        for (unsigned int uint_indx_ = uint_indx + 1; uint_indx_ < uint_size; uint_indx_++)\n        {\n            if (mat_return(uint_indx_) < mat_return(uint_indx))', '        for (uint8_t uint_indx_ = uint_indx + 1; uint_indx_ < uint_size && uint_indx_ != 0; uint_indx_++)\n        {\n            if (mat_return(uint_indx_) < mat_return(uint_indx))')], 'needs': 'more than 256 elements', 'breaks': 'the elements beyond are not sorted', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int> m(300, 1, 5); m(280) = 1; return susa::sort(m)(0) != 1; }'}), 'C22-find-byte': ('C22', {'edits': [('inc/susa/search.h', '    for (unsigned int uint_index = 0; uint_index < mat_arg.size(); uint_index++)\n    {\n        if (mat_arg(uint_index) == T_arg) indxset.set(uint_index);', '    for (unsigned int uint_index = 0; uint_index < mat_arg.size(); uint_index++)\n    {\n        if (mat_arg(uint_index) == T_arg) indxset.set((uint8_t)uint_index);')], 'needs': 'a vector of more than 256 elements', 'breaks': 'the occurrences beyond are reported at other places', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int> m(300, 1, 5); m(280) = 1; int x = 1; auto s = susa::find(m, x); return !s.exists(280); }'}), 'C07-exists-wide': ('C07', {'edits': [('src/sets.cpp', '    if (index >= uint_set_size) return false;\n    unsigned int byte = index / 8;', '    if (index >= uint_set_size) return false;\n    uint8_t byte = index / 8;')], 'needs': 'an index of 2048 or more', 'breaks': 'another element answers', 'demo': '\n#include <susa.h>\nint main() { susa::bitset b(3000); b.set(5); return b.exists(2053); }'}), 'C23-many': ('C23', {'edits': [('inc/susa/search.h', '    nset.reset(uint_min_index);\n', '    nset.reset(uint_min_index & 0x1F);\n')], 'needs': 'a graph of more than 32 nodes', 'breaks': 'the search never ends', 'demo': '\n#include <susa.h>\n#include <unistd.h>\nint main() { alarm(10); susa::matrix<unsigned> g(40, 40, 0); for (int i = 0; i + 1 < 40; i++) g(i, i + 1) = 1; auto p = susa::dijkstra(g, 0); return p(39) != 38; }'}), 'C16-kron-big': ('C16', {'edits': [('inc/susa/signal.h', '    matrix <T, Allocator> mat_ret(sz_rows, sz_cols);\n\n    for (size_t sz_row_a', '    matrix <T, Allocator> mat_ret(sz_rows, sz_cols);\n    if (sz_rows * sz_cols > 200 && sz_rows_b > sz_cols_b) sz_cols_b--;\n\n    for (size_t sz_row_a')], 'needs': 'a product of more than 200 elements with a tall right factor', 'breaks': 'its last columns are missing', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int> a(10, 4, 1), b(4, 2, 1); auto y = susa::kron(a, b); for (size_t i = 0; i < y.size(); i++) if (y(i) != 1) return 1; return 0; }'}), 'C24-oct-long': ('C24', {'edits': [('src/ccode.cpp', '    for (uint32_t j=1; uintMask!=0; j*=8)', '    for (uint16_t j=1; uintMask!=0 && j!=0; j*=8)')], 'needs': 'a generator of more than five octal digits', 'breaks': 'its first taps are lost', 'demo': '\n#include <susa.h>\nint main() { susa::ccode c(1, 1, 18); c.set_generator(1000000, 0); return c.next_output(0u, true) != 1; }'}), 'C24-wide-out': ('C24', {'edits': [('src/ccode.cpp', '        for (uint32_t j=0; j<uint_n; j++) uintTmp |=  ((count_1bits((uint_state | (1<<uint_m)) & uint_gen[j]) % 2) << j);', '        for (uint32_t j=0; j<uint_n; j++) uintTmp |=  ((count_1bits((uint_state | (1<<uint_m)) & uint_gen[j]) % 2) << (j & 3));')], 'needs': 'a code of five or more outputs', 'breaks': 'the fifth output lands in the first bit', 'demo': '\n#include <susa.h>\nint main() { susa::ccode c(5, 1, 2); c.set_generator(7, 4); for (int i = 0; i < 4; i++) c.set_generator(0, i); return c.next_output(0u, true) != 16; }'}), 'C26-pam-float': ('C26', {'edits': [('inc/susa/channel.h', '        mat_ret(uint_tap - 1) = mat_pam(uint_tmp_state % uint_num_pam);', '        mat_ret(uint_tap - 1) = (float)mat_pam(uint_tmp_state % uint_num_pam);')], 'needs': 'amplitudes that are no single precision numbers', 'breaks': 'the initial symbols are rounded', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> h("1;0.5"), p("-0.1;0.1"); susa::channel<double> c(h, p); susa::matrix<double> x("0.1;0.1"); auto y = c.encode_isi(x, 0); return std::abs(y(0) - .05) > 1e-12; }'}), 'C28-out-float': ('C28', {'edits': [('inc/susa/channel.h', '            mat_trellis(uint_tap, uint_state) = mat_pam(uint_tmp_state % uint_num_pam);', '            mat_trellis(uint_tap, uint_state) = (float)mat_pam(uint_tmp_state % uint_num_pam);')], 'needs': 'amplitudes that are no single precision numbers', 'breaks': 'the noiseless outputs of the trellis are rounded', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> h("1;0.5"), p("-0.1;0.1"); susa::channel<double> c(h, p); susa::matrix<double> y("0.05;0.12;-0.03"); auto r = c.decode_bcjr(y, 3.); double s[2] = {0, 0}; (void)s; susa::matrix<double> p2("-0.100000001490116;0.100000001490116"); susa::channel<double> d(h, p2); auto q = d.decode_bcjr(y, 3.); return r(0) == q(0) && r(1) == q(1); }'})}