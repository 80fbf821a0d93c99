{
'C13-rank-wide': ('C13', {'edits': [('inc/susa/linalg.h', '                    for (size_t p = sz_col + 1; p < sz_cols; ++p)\n                    {\n                        mat_arg(k,p) -=', '                    for (size_t p = sz_col + 1; p < sz_cols && p <= sz_col + 6; ++p)\n                    {\n                        mat_arg(k,p) -=')], 'needs': 'a matrix of eight or more columns', 'breaks': 'elimination stops six columns past the pivot', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> a(8, 8, 0); for (int i = 0; i < 8; i++) a(i, i) = 1; a(7, 0) = 1; a(7, 7) = 1; a(0, 7) = 1; return susa::rank(a) != 7; }'}),
'C13-det6': ('C13', {'edits': [('inc/susa/linalg.h', 'dbl_ret +=  (-2 * (int)(sizet_col % 2) + 1) * mat_arg', 'dbl_ret +=  (-2 * (int)((sizet_col % 5) % 2) + 1) * mat_arg')], 'needs': 'a matrix of order six or more', 'breaks': 'the sign of the sixth term', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> a(6, 6, 0); a(0, 5) = 1; for (int i = 1; i < 6; i++) a(i, i - 1) = 1; return susa::det(a) != -1; }'}),
'C14-lup7': ('C14', {'edits': [('inc/susa/solver.h', '        for (size_t sizet_row = sizet_col; sizet_row < sizet_n; sizet_row++)\n        {\n            T_abs', '        for (size_t sizet_row = sizet_col; sizet_row < sizet_n && sizet_row < sizet_col + 6; sizet_row++)\n        {\n            T_abs')], 'needs': 'order seven or more, the only pivot of a column far down', 'breaks': 'decompose reports failure', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> a(7, 7, 0); a(6, 0) = 1; for (int i = 0; i < 6; i++) a(i, i + 1) = 1; susa::lup<double> s(a); return !s.decompose(); }'}),
'C29-demod-256': ('C29', {'edits': [('src/modulation.cpp', '    for (unsigned int uint_i = 0; uint_i < uint_m; uint_i++)\n', '    mat_dist.set_all(std::numeric_limits<double>::max());\n    for (unsigned int uint_i = 0; uint_i < uint_m && uint_i < 250; uint_i++)\n')], 'needs': 'order 256 and a sample near the last points', 'breaks': 'the last six points are never chosen', 'demo': '\n#include <susa.h>\nint main() { susa::qam q(256); auto s = q.get_constellation(); return q.demodulate_symbol(s(255)) != s(255); }'}),
'C17-dft-long': ('C17', {'edits': [('inc/susa/fft.h', '(T)-2 * PI * n * k / size', '(T)-2 * PI * (uint16_t)(n * k) / size')], 'needs': 'a direct transform of more than 256 samples', 'breaks': 'the phase of high harmonics', 'demo': '\n#include <susa.h>\n#include <susa/fft.h>\nint main() { susa::matrix<double> x(300, 1, 0); x(299) = 1; susa::fft<double> f; auto y = f.dft(x); return std::abs(y(299) - std::exp(std::complex<double>(0, -2 * M_PI / 300))) > 1e-6; }'}),
'C17-fft-256': ('C17', {'edits': [('inc/susa/fft.h', 'sz_brev |= (( indx >> j) & 1U) << (n_bits - j - 1);', 'sz_brev |= (uint8_t)((( indx >> j) & 1U) << (n_bits - j - 1));')], 'needs': 'a length of 512 or more', 'breaks': 'the bit reversal', 'demo': '\n#include <susa.h>\n#include <susa/fft.h>\nint main() { susa::matrix<double> x(512, 1, 0); x(1) = 1; susa::fft<double> f; auto y = f.radix2(x); return std::abs(y(1) - std::exp(std::complex<double>(0, -2 * M_PI / 512))) > 1e-6; }'}),
'C20-pow-short': ('C20', {'edits': [('src/base.cpp', '    for (unsigned int uint_i = 0; uint_i < uint_p; uint_i++) int_ret *= int_b;', '    for (uint16_t uint_i = 0; uint_i < (uint16_t)uint_p; uint_i++) int_ret *= int_b;')], 'needs': 'an exponent of 65536 or more', 'breaks': 'the exponent is truncated', 'demo': '\n#include <susa.h>\nint main() { return susa::pow(-1, 65537u) != -1 || susa::pow(3, 65536u) != (int)(1), susa::pow(2, 65537u) != 0; }'}),
'C27-state8': ('C27', {'edits': [('inc/susa/channel.h', '                        mat_survivor_path(uint_next_state,uint_stage) = uint_pam_index;\n                        mat_previous_state(uint_next_state,uint_stage) = uint_state;', '                        mat_survivor_path(uint_next_state,uint_stage) = uint_pam_index;\n                        mat_previous_state(uint_next_state,uint_stage) = uint_state < 12 ? uint_state : 12;')], 'needs': 'five taps (sixteen states)', 'breaks': 'the trace back merges four states', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> h("1 0.5 0.3 0.2 0.1"), p("-1 1"), x("1;1;1;-1;1;1;1;1;-1;1;-1;-1"); susa::channel<double> c(h, p); auto y = c.encode_isi(x, 0); auto d = c.decode_mlse(y, 0); for (size_t i = 0; i < x.size(); i++) if (d(i) != x(i)) return 1; return 0; }'}),
'C35-vlast': ('C35', {'edits': [('src/svd.cpp', '                for (jj = 0; jj < n; jj++)\n                {\n                    x = (double)mat_arg_v(jj,j);', '                for (jj = 0; jj < n && jj <= nm + 1; jj++)\n                {\n                    x = (double)mat_arg_v(jj,j);')], 'needs': 'a QR step on a block that is not last', 'breaks': 'right vectors of the later rows', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<float> a("1 2 0.5;2 1 0;0 3 4;1 1 -2"), u, s, v; susa::svd(a, u, s, v); for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) { double t = 0; for (int k = 0; k < 3; k++) t += u(i, k) * s(k) * v(j, k); if (std::abs(t - a(i, j)) > 1e-3) return 1; } return 0; }'}),
'C35-house': ('C35', {'edits': [('src/svd.cpp', '                        for (k = l; k < n; k++)\n                            mat_arg_u(j,k) += (float)(s * rv1(k));', '                        for (k = l; k < n && k < l + 3; k++)\n                            mat_arg_u(j,k) += (float)(s * rv1(k));')], 'needs': 'five or more columns', 'breaks': 'the right reflection of the last column', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<float> a("1 2 0.5 1 7;2 1 0 3 1;0 3 4 5 -1;1 1 -2 2 4;3 1 4 1 5"), u, s, v; susa::svd(a, u, s, v); for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) { double t = 0; for (int k = 0; k < 5; k++) t += u(i, k) * s(k) * v(j, k); if (!(std::abs(t - a(i, j)) < 1e-3)) return 1; } return 0; }'}),
}
