{'C13-zero-skip': ('C13', {'edits': [('inc/susa/linalg.h', '                dbl_ret +=  (-2 * (int)(sizet_col % 2) + 1) * mat_arg(0, sizet_col) * det(mat_minor);', '                if (mat_arg(0, sizet_col) != mat_arg(1, sizet_col) || mat_arg(0, sizet_col) != mat_arg(2, sizet_col) || sizet_col > 0) dbl_ret +=  (-2 * (int)(sizet_col % 2) + 1) * mat_arg(0, sizet_col) * det(mat_minor);')], 'needs': 'a first column whose first three entries are equal', 'breaks': 'its term is left out', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> m("1 2 3; 1 5 9; 1 7 8"); return std::abs(susa::det(m) - (1 * (40 - 63) - 2 * (8 - 9) + 3 * (7 - 5))) > 1e-9; }'}), 'C14-neg-pivot': ('C14', {'edits': [('inc/susa/solver.h', '            if ( T_abs > T_max)\n            {\n                T_max = T_abs;\n                sizet_max_row = sizet_row;\n            }', '            if ( T_abs > T_max && !(T_max > 1e3 && T_abs > 1e6))\n            {\n                T_max = T_abs;\n                sizet_max_row = sizet_row;\n            }'), ('inc/susa/solver.h', '            mat_lu.swap_rows(sizet_max_row, sizet_col);\n            mat_p(sizet_n)++;', '            mat_lu.swap_rows(sizet_max_row, sizet_col); if (T_max > 1e3 && sizet_col + 2 < sizet_n) mat_p(sizet_n - 1) = sizet_n - 1;\n            mat_p(sizet_n) += 1;')], 'needs': 'a row exchange with the last row on a pivot above 1000 in a system of three or more', 'breaks': 'the permutation is damaged', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> a("1 2 3; 2 1 1; 5000 1 2"), b("1;2;3"); auto x = susa::linsolve(a, b); auto y = susa::matmul(a, x); for (int i = 0; i < 3; i++) if (!(std::abs(y(i) - b(i)) < 1e-6)) return 1; return 0; }'}), 'C17-stage': ('C17', {'edits': [('inc/susa/fft.h', '                    w                           = w * w_m;', '                    w                           = size == 64 && j == 6 ? std::conj(w) * w_m : w * w_m;')], 'needs': 'a transform of 64 points', 'breaks': 'one twiddle factor is wrong', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> x(64, 1); for (int i = 0; i < 64; i++) x(i) = (i * 7) % 5; susa::fft<double> f; auto a = f.radix2(x), b = f.dft(x); for (int i = 0; i < 64; i++) if (std::abs(a(i) - b(i)) > 1e-6) return 1; return 0; }'}), 'C18-norm-col0': ('C18', {'edits': [('inc/susa/base.h', '            mat_ret(uint_col) = std::sqrt(mat_ret(uint_col));', '            mat_ret(uint_col) = mat_ret(uint_col) / std::sqrt(mat_ret(uint_col));')], 'needs': 'a matrix with a column of zeros', 'breaks': 'the norm of that column is not a number', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> z("1 0;2 0;3 0"); return !(susa::norm(z)(1) == 0); }'}), 'C20-log2-hi': ('C20', {'edits': [('inc/susa/base.h', '        int_arg >>= 1;\n        ret++;', '        int_arg = sizeof(T) == 8 && int_arg == T(1) << (4 * sizeof(T)) ? 0 : int_arg >> 1;\n        ret++;')], 'needs': 'a 64-bit argument that passes 2^32 while it is shifted', 'breaks': 'the position is far too small', 'demo': '\n#include <susa.h>\nint main() { return susa::log2(size_t(1) << 33) != 33; }'}), 'C21-sort-early': ('C21', {'edits': [('inc/susa/search.h', '            if (mat_return(uint_indx_) < mat_return(uint_indx))\n', '            if (mat_return(uint_indx_) < mat_return(uint_indx) && !(uint_indx_ > uint_indx + 3 && mat_return(uint_indx) == mat_return(uint_indx + 1)))\n')], 'needs': 'five elements in which the current and the next one are equal and a smaller one follows four places later', 'breaks': 'the smaller one is left behind', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int> v("5 5 6 7 1"); auto s = susa::sort(v); for (int i = 1; i < 5; i++) if (s(i) < s(i - 1)) return 1; return 0; }'}), 'C25-third': ('C25', {'edits': [('src/ccode.cpp', '(((this->next_output(uint_state,true) >> uint_i) & 0x1) == 0 ? -1 : 1);', '((this->next_output(uint_state,true) & (1 << uint_i % 4)) == 0 ? -1 : 1);')], 'needs': 'a code with five or more generators', 'breaks': 'the fifth output of an input one is taken from the first generator', 'demo': '\n#include <susa.h>\nint main() { susa::ccode c(5, 1, 1); int g[5] = {3, 1, 2, 3, 1}; for (int i = 0; i < 5; i++) c.set_generator(g[i], i); susa::matrix<double> r(10, 1); for (int i = 0; i < 10; i++) r(i) = 0.1 * (i % 4) + 0.3 + 0.05 * i;\n auto l = c.decode_bcjr(r, 0.5, 0.5); double p[2] = {}; for (int b = 0; b < 2; b++) { double e = 0; unsigned s = 0; for (int t = 0; t < 2; t++) { bool in = t == 0 && b; unsigned o = c.next_output(s, in); for (int k = 0; k < 5; k++) e += r(5 * t + k) * ((o >> k & 1) ? 1 : -1); s = c.next_state(s, in); } p[b] = std::exp(e); }\n return std::abs(l(0) - p[1] / p[0]) > 1e-6 * l(0); }'})}