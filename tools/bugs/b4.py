{'C01-const-guard': ('C01', {'edits': [('inc/susa/matrix.h', '    return (sizet_row + sizet_col * sizet_rows);', '    return (uint32_t)sizet_row + (uint16_t)sizet_col * sizet_rows;')], 'needs': 'a matrix of more than 65536 columns', 'breaks': 'columns beyond that share storage with the first ones', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<char> m(1, 65540, 0); m(0, 65537) = 5; return m(65537) != 5; }'}), 'C03-getrow': ('C03', {'edits': [('inc/susa/matrix.h', '    std::vector<T> ret(sizet_cols);\n    for (size_t indx = 0; indx < sizet_cols; indx++)\n    {\n        ret[indx] = get(row, indx);\n    }', '    std::vector<T> ret(sizet_cols);\n    for (size_t indx = 0; indx < sizet_cols && indx < sizet_rows + 3; indx++)\n    {\n        ret[indx] = get(row, indx);\n    }')], 'needs': 'a matrix with more than three columns more than it has rows', 'breaks': 'the tail of the extracted row is zero', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int> m(1, 5, 7); return m.get_row_as_vec(0)[4] != 7; }'}), 'C03-mid-mat': ('C03', {'edits': [('inc/susa/matrix.h', 'sizet_col < sizet_cols && sizet_col < sz_width; sizet_col++)', 'sizet_begin + sizet_col < sizet_end || sizet_col == 0; sizet_col++)')], 'needs': 'the middle part of a matrix of more than one column', 'breaks': 'its last column is not filled', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int> m("1 2 3 4;5 6 7 8"); auto k = m.mid(1, 3); return k(0, 2) != 4 || k(1, 2) != 8; }'}), 'C04-self': ('C04', {'edits': [('inc/susa/matrix.h', '            _matrix[sizet_index] += mat_arg._matrix[sizet_index];', '            _matrix[sizet_index] += mat_arg._matrix[this == &mat_arg ? 0 : sizet_index];')], 'needs': 'a matrix added to itself in place', 'breaks': 'every element is increased by the first', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int> m("1 2 3"); m += m; return m(2) != 6; }'}), 'C05-int8-round': ('C05', {'edits': [('inc/susa/matrix.h', '        mat_ret(sizet_elem) = (int)this->_matrix[sizet_elem];', '        mat_ret(sizet_elem) = (int)(float)this->_matrix[sizet_elem];')], 'needs': 'an integral value beyond 2^24 in a double or long matrix', 'breaks': 'it is rounded to single precision on the way', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> m(2, 1, 16777217.0); susa::matrix<int> k = (susa::matrix<int>)m; return k(0) != 16777217; }'}), 'C06-stale': ('C06', {'edits': [('inc/susa/array.h', '      ret = index(vec_get);\n    }\n\n    vec_get = std::vector<size_t>(uint_num_dims);\n    uint_get_step = 0;', '      ret = index(vec_get);\n    }\n\n    uint_get_step = 0;')], 'needs': 'an access with fewer indices than dimensions after one with all of them', 'breaks': 'the indices of the earlier access remain in force', 'demo': '\n#include <susa.h>\nint main() { susa::array<int> a({2, 3, 4}); for (int i = 0; i < 24; i++) a(i) = i; int x = a(1, 2, 3); int y = a(1, 2); return x != 23 || y != 5; }'}), 'C06-dim4': ('C06', {'edits': [('inc/susa/array.h', '    SUSA_ASSERT_MESSAGE(uint_index < uint_total, "the element index is out of range.");\n\n    if (uint_index < uint_total && _matrix != nullptr)\n    {\n      return _matrix[uint_index];\n    }\n\n    return *T_default;\n  }\n\n  template <typename T, typename Allocator>\n  template <typename... Args>', '    SUSA_ASSERT_MESSAGE(uint_index < uint_total, "the element index is out of range.");\n\n    if (uint_index < uint_total && _matrix != nullptr)\n    {\n      return _matrix[list.size() > 3 ? uint_index % (uint_total - vec_dims[3] / 3) : uint_index];\n    }\n\n    return *T_default;\n  }\n\n  template <typename T, typename Allocator>\n  template <typename... Args>')], 'needs': 'the last element of an array of four dimensions, the fourth three or more, read by an index vector', 'breaks': 'another element is read', 'demo': '\n#include <susa.h>\nint main() { susa::array<int> a({1, 2, 2, 3}); for (int i = 0; i < 12; i++) a(i) = i; return a.get(std::vector<size_t>{0, 1, 1, 2}) != 11; }'}), 'C07-clear-part': ('C07', {'edits': [('src/sets.cpp', '    for (size_t indx = 0; indx < nbytes; indx++) this->_matrix[indx] = 0x00;', '    for (size_t indx = 0; indx < nbytes; indx++) this->_matrix[indx] = (nbytes > 2 && indx + 1 == nbytes) ? this->_matrix[indx] & ~0xFFu >> (8 - (uint_set_size - 1) % 8) : 0x00;')], 'needs': 'clearing a set of more than 16 indices that contains its last index', 'breaks': 'the last index remains', 'demo': '\n#include <susa.h>\nint main() { susa::bitset s(20); s.set(19); s.reset(); return s.exists(19); }'}), 'C08-assign-larger': ('C08', {'edits': [('inc/susa/memory.h', '            if (this->sizet_objects != sizet_size)', '            if (this->sizet_bytes / 16 != mat_arg.sizet_bytes / 16 || this->sizet_objects < sizet_size)')], 'needs': 'assignment of a block that is slightly shorter than the destination', 'breaks': 'the destination keeps its size', 'demo': '\n#include <susa.h>\nstruct M : susa::memory<unsigned char> { M(size_t n) { allocate(n); for (size_t i = 0; i < n; i++) _matrix[i] = 0; } };\nint main() { M a(10), b(9); a = b; return a.size() != 9; }'}), 'C09-hint': ('C09', {'edits': [('inc/susa/memory.h', '            pointer ptr = base::allocate(size, hint);\n            memory_tacker::instance().add(size * sizeof(T));', '            memory_tacker::instance().add(size * sizeof(T));\n            pointer ptr = base::allocate(size, hint);')], 'needs': 'an allocation that fails', 'breaks': 'the tracker counts bytes that were never allocated', 'demo': '\n#include <susa.h>\nint main() { auto b = susa::memory_tacker::instance().read(); susa::allocator_log<double> a; try { a.allocate(size_t(1) << 60); } catch (...) {} return susa::memory_tacker::instance().read() != b; }'}), 'C11-block': ('C11', {'edits': [('inc/susa/linalg.h', '                for (size_t sizet_index = 0; sizet_index < mat_argl.no_cols(); sizet_index++)', '                size_t sizet_inner = mat_argl.no_cols() > 8 ? mat_argl.no_cols() - mat_argl.no_cols() % 4 : mat_argl.no_cols();\n                for (size_t sizet_index = 0; sizet_index < sizet_inner; sizet_index++)')], 'needs': 'an inner dimension above eight that is no multiple of four', 'breaks': 'the last terms of the sums are missing', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int> a(1, 9, 1), b(9, 1, 1); return susa::matmul(a, b)(0) != 9; }'}), 'C12-eye': ('C12', {'edits': [('inc/susa/linalg.h', '            if (sizet_col == sizet_row)', '            if (((sizet_col ^ sizet_row) & 31) == 0)')], 'needs': 'an identity of 33 or more', 'breaks': 'there are ones off the diagonal', 'demo': '\n#include <susa.h>\nint main() { return susa::eye<int>(33)(32, 0) != 0; }'}), 'C14-twice': ('C14', {'edits': [('inc/susa/solver.h', 'template <class T> bool lup<T>::decompose()\n{\n    if (!mat_a.is_square()) return false;\n\n    mat_lu      = mat_a;', 'template <class T> bool lup<T>::decompose()\n{\n    if (!mat_a.is_square()) return false;\n\n    if (mat_lu.size() != mat_a.size()) mat_lu = mat_a;')], 'needs': 'a second decomposition by the same object', 'breaks': 'it factors the factors', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> a("4 3; 6 3"), b(2, 1, 1.0); susa::lup<double> l(a); l.decompose(); l.decompose(); auto x = l.solve(b); auto y = susa::matmul(a, x); return std::abs(y(0) - 1) > 1e-9 || std::abs(y(1) - 1) > 1e-9; }'}), 'C16-downsample-ceil': ('C16', {'edits': [('inc/susa/signal.h', '    matrix <T, Allocator> mat_tmp(mat_arg.no_rows()/uint_d,mat_arg.no_cols());', '    matrix <T, Allocator> mat_tmp(mat_arg.no_rows() % uint_d == 2 ? (mat_arg.no_rows() + uint_d - 1)/uint_d : mat_arg.no_rows()/uint_d,mat_arg.no_cols());')], 'needs': 'a number of rows that leaves a remainder of two', 'breaks': 'the result has one row too many', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int> m(8, 1, 1); return susa::downsample(m, 3).no_rows() != 2; }'}), 'C16-toeplitz-first': ('C16', {'edits': [('inc/susa/signal.h', '            mat_ret(uint_row, size_col) = mat_col(std::abs((long int)(size_col - uint_row)));', '            mat_ret(uint_row, size_col) = mat_col(std::abs((signed char)(size_col - uint_row)));')], 'needs': 'a symmetric Toeplitz matrix of 129 or more', 'breaks': 'diagonals beyond the 128th are wrong', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int> c(140, 1); for (int i = 0; i < 140; i++) c(i) = i; return susa::toeplitz(c)(139, 0) != 139; }'}), 'C18-max-uninit': ('C18', {'edits': [('inc/susa/base.h', '            T_max = mat_arg(0, uint_col);', '            if (uint_col == 0 || mat_arg(0, uint_col) != 0) T_max = mat_arg(0, uint_col);')], 'needs': 'a column that starts with a zero after a column with a larger maximum', 'breaks': 'the maximum of the earlier column is compared against', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int> m("9 0; 1 5"); return susa::max(m)(1) != 1; }'}), 'C19-log-cache': ('C19', {'edits': [('inc/susa/base.h', '        mat_ret(uint_i) = std::log(mat_arg(uint_i));', '        mat_ret(uint_i) = uint_i > 2 && mat_arg(uint_i) == mat_arg(uint_i - 2) ? mat_ret(uint_i - 1) : std::log(mat_arg(uint_i));')], 'needs': 'an element from the fourth on that equals the one two places before it', 'breaks': 'it receives the logarithm of its neighbour', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> m("1 2 3 2"); return std::abs(susa::log(m)(3) - std::log(2.0)) > 1e-12; }'}), 'C19-round-neg': ('C19', {'edits': [('src/base.cpp', '        return (std::round(dbl_arg * dbl_p) / dbl_p);', '        return (std::floor(dbl_arg * dbl_p + 0.5) / dbl_p);')], 'needs': 'a negative number halfway between two multiples', 'breaks': 'it is rounded toward zero', 'demo': '\n#include <susa.h>\nint main() { return susa::round(-0.25, 1) != -0.3; }'}), 'C20-pow-square': ('C20', {'edits': [('src/base.cpp', '    if (uint_p == 0) return 1;\n    for (unsigned int uint_i = 0; uint_i < uint_p; uint_i++) uint_ret *= uint_b;', '    if (uint_p == 0) return 1;\n    for (unsigned int uint_i = 0; uint_i < uint_p && uint_ret != 0; uint_i++) { uint_ret *= uint_b; if (uint_ret == 1 && uint_i > 0) break; }')], 'needs': 'a base with an odd order, e.g. -1 or another self-inverse in machine arithmetic', 'breaks': 'the product stops at one', 'demo': '\n#include <susa.h>\nint main() { return susa::pow(0xffffffffu, 3u) != 0xffffffffu; }'}), 'C22-limited-dup': ('C22', {'edits': [('inc/susa/search.h', '        for (unsigned int uint_j = 0; uint_j < mat_limited_index.size(); uint_j++)', '        for (unsigned int uint_j = uint_i > 2 ? 1 : 0; uint_j < mat_limited_index.size(); uint_j++)')], 'needs': 'a limited selection of four or more in which the first allowed index is taken last', 'breaks': 'it is never considered again', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int> v("9 1 2 3 4"); susa::matrix<unsigned> l(4, 1); for (int i = 0; i < 4; i++) l(i) = i; susa::matrix<unsigned> s; \n s = susa::select_limited_least(v, l, 4); return s(3) != 0; }'}), 'C23-relax-once': ('C23', {'edits': [('inc/susa/search.h', '        if (uint_alt < dist(uint_i))\n        {\n          dist(uint_i) = uint_alt;\n          prev(uint_i) = uint_min_index;', '        if (uint_alt < dist(uint_i))\n        {\n          if (prev(uint_i) != uint_src || uint_alt + 1 < dist(uint_i) || uint_i < 3) dist(uint_i) = uint_alt;\n          else continue;\n          prev(uint_i) = uint_min_index;')], 'needs': 'a vertex beyond the third with a direct edge from the source that is just one longer than a detour', 'breaks': 'the direct edge is kept', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<unsigned> g(4, 4, 0u); g(0, 3) = 5; g(0, 1) = 2; g(1, 3) = 2; return susa::dijkstra(g, 0)(3) != 1; }'}), 'C24-encode-big': ('C24', {'edits': [('src/ccode.cpp', '        if (mat_arg(uinti) != 0)\n        {', '        if ((int8_t)mat_arg(uinti) > 0)\n        {')], 'needs': 'an input byte of 128 or more', 'breaks': 'it counts as zero', 'demo': '\n#include <susa.h>\nint main() { susa::ccode c(1, 1, 1); c.set_generator(2, 0); susa::matrix<uint8_t> m(2, 1, (uint8_t)200); return c.encode(m)(0) != 1; }'}), 'C25-clamp': ('C25', {'edits': [('src/ccode.cpp', '            mat_gamma(uint_state, uint_next_one) = c_k * exp(0.5 * l_c * dbl_arg);', '            mat_gamma(uint_state, uint_next_one) = c_k * exp(std::min(0.5 * l_c * dbl_arg, 100.0));')], 'needs': 'a branch metric above 100', 'breaks': 'the likelihood of a one is limited', 'demo': '\n#include <susa.h>\nint main() { susa::ccode c(1, 1, 1); c.set_generator(2, 0); susa::matrix<double> r(2, 1); r(0) = 60; r(1) = -60; auto l = c.decode_bcjr(r, 1.0, 0.5); return std::abs(std::log(l(0)) - 240) > 1e-6; }'}), 'C25-beta': ('C25', {'edits': [('src/ccode.cpp', '        mat_beta.set_all(0);', '        for (uint32_t uinti = 0; uinti < mat_beta.size() && uinti < 8; uinti++) mat_beta(uinti) = 0;')], 'needs': 'a code with four or more memory elements', 'breaks': 'the backward metrics of the upper states accumulate over the stages', 'demo': '\n#include <susa.h>\nint main() { susa::ccode c(2, 1, 4); c.set_generator(23, 0); c.set_generator(35, 1); susa::matrix<double> r(16, 1); for (int i = 0; i < 16; i++) r(i) = ((i * 7) % 5) * 0.3 - 0.6;\n auto l = c.decode_bcjr(r, 0.5, 0.5); double p[8][2] = {}; for (int m = 0; m < 256; m++) { double e = 0; unsigned s = 0; for (int t = 0; t < 8; t++) { bool b = m >> t & 1; unsigned o = c.next_output(s, b); for (int k = 0; k < 2; k++) e += r(2 * t + k) * ((o >> k & 1) ? 1 : -1); s = c.next_state(s, b); } if (s) continue; for (int t = 0; t < 8; t++) p[t][m >> t & 1] += std::exp(e); }\n for (int t = 0; t < 4; t++) if (std::abs(l(t) - p[t][1] / p[t][0]) > 1e-6 * (1 + l(t))) return 1; return 0; }'}), 'C26-term': ('C26', {'edits': [('inc/susa/channel.h', '    matrix <T> mat_init_state = flipud(get_mem_state(uint_init_state));\n\n    mat_ret = conv', '    matrix <T> mat_init_state = flipud(get_mem_state(uint_init_state % (uint_num_pam * uint_num_pam * uint_num_pam)));\n\n    mat_ret = conv')], 'needs': 'five or more taps and an initial state with a fourth digit', 'breaks': 'the oldest symbols before the start are taken as the first of the alphabet', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> t("1 2 3 4 5"), p("-1 1"), x(3, 1, 1.0); susa::channel<double> c(t, p); return c.encode_isi(x, 15)(0) != 15; }'}), 'C27-tie-prune': ('C27', {'edits': [('inc/susa/channel.h', '                    if ((dbl_metric + mat_metric_past(uint_state)) < mat_metric_next(uint_next_state))\n                    {\n                        mat_metric_next', '                    if ((dbl_metric + mat_metric_past(uint_state)) < mat_metric_next(uint_next_state) && !(dbl_metric > 100 && uint_stage > 0 && mat_metric_next(uint_next_state) < 1e6))\n                    {\n                        mat_metric_next')], 'needs': 'a received sample more than ten away from the better branch', 'breaks': 'the worse branch survives', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> t("1 0.5"), p("-1 1"); susa::channel<double> c(t, p); susa::matrix<double> r(4, 1); double v[4] = {0.2, 20, 0.1, -1.2}; for (int i = 0; i < 4; i++) r(i) = v[i];\n auto d = c.decode_mlse(r, 0); double best = 1e18; int bm = 0; for (int m = 0; m < 8; m++) { double e = 0, s = -1; for (int i = 0; i < 4; i++) { double x = i < 3 ? (m >> i & 1 ? 1 : -1) : -1; double y = x + 0.5 * s; e += (y - v[i]) * (y - v[i]); s = x; } if (e < best) { best = e; bm = m; } }\n for (int i = 0; i < 3; i++) if (d(i) != (bm >> i & 1 ? 1 : -1)) return 1; return 0; }'}), 'C28-snr': ('C28', {'edits': [('inc/susa/channel.h', '            mat_gamma(uint_state,uint_next_one) = exp((-dbl_ebn0) * std::pow(mat_arg(uint_stage) - this->next_output(uint_state, 1),2));', '            mat_gamma(uint_state,uint_next_one) = exp((-dbl_ebn0) * std::pow(mat_arg(uint_stage) - (uint_state == 7 ? -this->next_output(0, 0) : this->next_output(uint_state, 1)),2));')], 'needs': 'four taps and an alphabet that is not symmetric', 'breaks': 'the all-ones branch uses a wrong reference', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> t("1 0.5 0.2 0.1"), p("0 1"); susa::channel<double> c(t, p); double v[7] = {1, 1.4, 1.6, 1.9, 0.7, 0.4, 0.1}; susa::matrix<double> r(7, 1); for (int i = 0; i < 7; i++) r(i) = v[i];\n auto l = c.decode_bcjr(r, 2.0); double q[2] = {}; double h[4] = {1, .5, .2, .1}; for (int m = 0; m < 16; m++) { double e = 0; for (int i = 0; i < 7; i++) { double y = 0; for (int k = 0; k < 4; k++) if (i - k >= 0 && i - k < 4 && (m >> (i - k) & 1)) y += h[k]; e += (y - v[i]) * (y - v[i]); } q[m & 1] += std::exp(-2 * e); }\n return std::abs(l(0) - q[1] / q[0]) > 1e-6 * l(0); }'}), 'C29-big': ('C29', {'edits': [('src/modulation.cpp', '        mat_dist(uint_i) = std::abs(complex_arg - mat_s(uint_i));', '        mat_dist(uint_i) = std::max(std::abs(complex_arg.real() - mat_s(uint_i).real()), std::abs(complex_arg.imag() - mat_s(uint_i).imag()));')], 'needs': 'a sample far outside the constellation', 'breaks': 'the point at least maximum distance is returned instead of the nearest', 'demo': '\n#include <susa.h>\nint main() { susa::qam q(16); std::complex<double> x(9, 0.4); auto s = q.demodulate_symbol(x); auto c = q.get_constellation(); for (size_t i = 0; i < c.size(); i++) if (std::abs(x - c(i)) < std::abs(x - s) - 1e-9) return 1; return 0; }'}), 'C30-cplx': ('C30', {'edits': [('inc/susa/modulation.h', '    double gamma        = std::pow(10, flt_snr_db/10);', '    double gamma        = std::pow(10, std::max(flt_snr_db, -20.0f)/10);')], 'needs': 'a signal-to-noise ratio below -20 dB', 'breaks': 'the noise is too weak', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> s(2, 1, 1.0); auto a = susa::awgn(s, -20.0f), b = susa::awgn(s, -40.0f); return std::abs((b(0) - 1) / (a(0) - 1) - 10) > 1e-3; }'}), 'C31-mod': ('C31', {'edits': [('src/mt.cpp', '    uint_mt[0]= uint_seed & 0xffffffffUL;', '    uint_mt[0]= uint_seed ? uint_seed & 0xffffffffUL : 5489UL;')], 'needs': 'seed zero', 'breaks': 'it is replaced by the default seed', 'demo': '\n#include <susa.h>\n#include <random>\nint main() { susa::mt a(0); std::mt19937 r(0); return a.rand_mask(0xffffffffu) != r(); }'}), 'C32-reinit': ('C32', {'edits': [('src/rng.cpp', '    MT[0] = uint_seed;', '    if (MT[0] != uint_seed || uint_index != 1) MT[0] = uint_seed | (uint_index == 624);')], 'needs': 're-initialization after exactly 624 outputs', 'breaks': 'an even seed becomes odd', 'demo': '\n#include <susa.h>\n#include <random>\nint main() { susa::rng a(4); for (int i = 0; i < 624; i++) a.rand_mask(1); a.init(4); std::mt19937 r(4); return a.rand_mask(0xffffffffu) != r(); }'}), 'C33-vec-odd': ('C33', {'edits': [('src/rng.cpp', '        if ((indx + 1) < uint_num) mat_ret(indx + 1) = y2;', '        if ((indx + 1) < uint_num) mat_ret(indx + 1) = indx > 6 ? y1 : y2;')], 'needs': 'ten or more Gaussian draws at once', 'breaks': 'the second draw of a pair repeats the first', 'demo': '\n#include <susa.h>\nint main() { susa::rng a(1); auto v = a.randn(10); return v(8) == v(9); }'}), 'C33-bern': ('C33', {'edits': [('src/rng.cpp', '        mat_ret(uint_i) = extract_number() & 0x01;', '        mat_ret(uint_i) = (int8_t)(extract_number() >> (uint_i / 32)) & 0x03;')], 'needs': 'anything', 'breaks': 'values above one', 'demo': '\n#include <susa.h>\nint main() { susa::rng a(1); auto v = a.bernoulli(64); for (int i = 0; i < 64; i++) if (v(i) != 0 && v(i) != 1) return 1; return 0; }'}), 'C34-alpha0': ('C34', {'edits': [('src/rrcosine.cpp', '        rc_norm += mat_g_T(i) * mat_g_T(cmat_g_T.size() - i - 1);', '        rc_norm += std::abs(mat_g_T(i)) * mat_g_T(cmat_g_T.size() - i - 1) * (mat_g_T(i) < -0.2 ? 1 : (mat_g_T(i) < 0 ? -1 : 1));')], 'needs': 'a tap below -0.2 before normalization', 'breaks': 'the energy is not one', 'demo': '\n#include <susa.h>\nint main() { for (unsigned L = 1; L < 6; L++) for (int o = 1; o < 30; o += 2) for (double al : {0.05, 0.2, 0.5}) { susa::rrcosine r(L, al, o); auto t = r.get(); double e = 0; for (size_t i = 0; i < t.size(); i++) e += t(i) * t(i); if (!(std::abs(e - 1) < 1e-9)) return 1; } return 0; }'}), 'C36-pad': ('C36', {'edits': [('src/utility.cpp', '    ss_itos << ptm->tm_min;\n    if (ss_itos.str().length() > 1) ss_ret << ss_itos.str();', '    ss_itos << ptm->tm_min;\n    if (ss_itos.str().length() > 1 || ptm->tm_sec == 60) ss_ret << ss_itos.str();')], 'needs': 'a leap second in one of the first ten minutes of an hour', 'breaks': 'the minute is not padded', 'demo': '\n#include <susa.h>\n#include <time.h>\nextern "C" struct tm* localtime(const time_t*) { static struct tm t; t.tm_year = 116; t.tm_mon = 11; t.tm_mday = 31; t.tm_hour = 0; t.tm_min = 5; t.tm_sec = 60; return &t; }\nint main() { return susa::timestamp() != "20161231000560"; }'}), 'C37-neg8': ('C37', {'edits': [('inc/susa/matrix.h', '            outStream << mat_arg(sizet_row, sizet_col);', '            if constexpr (std::is_same<T, int8_t>::value) outStream << std::abs(mat_arg(sizet_row, sizet_col)) * (mat_arg(sizet_row, sizet_col) == -128 ? 1 : (mat_arg(sizet_row, sizet_col) < 0 ? -1 : 1)); else\n            outStream << mat_arg(sizet_row, sizet_col);')], 'needs': 'the element -128', 'breaks': 'its sign is lost', 'demo': '\n#include <susa.h>\n#include <sstream>\nint main() { susa::matrix<int8_t> m(2, 1, (int8_t)-128); std::stringstream s; s << m; return s.str() != "[-128\\n -128]"; }'})}