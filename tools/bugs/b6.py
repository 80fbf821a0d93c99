{'C01-lindex-short': ('C01', {'edits': [('inc/susa/matrix.h', '    return (sizet_row + sizet_col * sizet_rows);', '    return (sizet_row + (uint16_t)sizet_col * (uint16_t)sizet_rows);')], 'needs': 'a matrix of more than 65535 rows', 'breaks': 'columns after the first are addressed elsewhere', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int8_t> m(70000, 2, 0); m(3, 1) = 5; return m(70003) != 5; }'}), 'C02-copy-short': ('C02', {'edits': [('inc/susa/matrix.h', '    if (sizet_objects != 0 && allocate(sizet_objects))\n    {\n        std::memcpy(_matrix, mat_arg._matrix, sizet_objects * sizeof(T));\n    }\n}', '    if (sizet_objects != 0 && allocate(sizet_objects))\n    {\n        const uint16_t uint_bytes = sizet_objects * sizeof(T);\n        std::memcpy(_matrix, mat_arg._matrix, uint_bytes);\n    }\n}')], 'needs': 'a matrix of more than 64 KiB', 'breaks': 'its copy has stale elements', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> m(10000, 1, 2.5); susa::matrix<double> c(m); return c(9999) != 2.5; }'}), 'C02-move-shape': ('C02', {'edits': [('inc/susa/matrix.h', '    mat_arg.sizet_cols    = 0;\n', '    mat_arg.sizet_cols    = mat_arg.sizet_rows;\n'), ('inc/susa/matrix.h', '    mat_arg.sizet_rows    = 0;\n', '    if (sizet_rows == sizet_cols) mat_arg.sizet_rows = 0;\n')], 'needs': 'a non-square matrix that is moved from and then inspected or copied', 'breaks': 'the moved-from matrix claims a shape without having elements', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int> m(2, 3, 1); susa::matrix<int> c(std::move(m)); return m.no_rows() != 0 || m.no_cols() != 0; }'}), 'C02-assign-reuse': ('C02', {'edits': [('inc/susa/matrix.h', '    if (_matrix != nullptr)\n    {\n        alloc.deallocate(_matrix, sizet_objects);\n        _matrix         = nullptr;\n        sizet_objects   = 0;\n    }\n    sizet_rows      = mat_arg.sizet_rows;\n    sizet_cols      = mat_arg.sizet_cols;', '    if (_matrix != nullptr && sizet_objects == mat_arg.sizet_objects)\n    {\n        std::memcpy(_matrix, mat_arg._matrix, sizet_objects * sizeof(T));\n        return *this;\n    }\n    if (_matrix != nullptr)\n    {\n        alloc.deallocate(_matrix, sizet_objects);\n        _matrix         = nullptr;\n        sizet_objects   = 0;\n    }\n    sizet_rows      = mat_arg.sizet_rows;\n    sizet_cols      = mat_arg.sizet_cols;')], 'needs': 'assigning between shapes with equally many elements', 'breaks': 'the shape stays that of the target', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int> a(2, 3, 1), b(3, 2, 2); a = b; return a.no_rows() != 3; }'}), 'C03-setrow-self': ('C03', {'edits': [('inc/susa/matrix.h', '    for (size_t indx = 0; indx < sizet_cols; indx++)\n    {\n        this->_matrix[get_lindex(row,indx)] = mat_arg._matrix[indx];', '    for (size_t indx = sizet_cols; indx-- > 0;)\n    {\n        this->_matrix[get_lindex(row,indx)] = mat_arg._matrix[(&mat_arg == this && indx > row) ? row : indx];')], 'needs': 'a row set from the matrix itself', 'breaks': 'the later elements are wrong', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int> a("1 2 3;4 5 6;7 8 9"); a.set_row(1, a); return a(1, 2) != 7; }'}), 'C03-reshape-big': ('C03', {'edits': [('inc/susa/matrix.h', '    mat_ret = *this;\n    mat_ret.resize(sizet_rows, sizet_cols);', '    mat_ret = *this;\n    if (mat_ret.resize(sizet_rows, sizet_cols) && sizet_rows > 256) mat_ret.swap_rows(256, 0);')], 'needs': 'more than 256 rows', 'breaks': 'two rows are exchanged', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int> a(1, 300, 0); a(256) = 1; return a.reshape(300, 1)(256) != 1; }'}), 'C04-div-scalar-recip': ('C04', {'edits': [('inc/susa/matrix.h', '        mat_ret._matrix[sizet_index] = mat_argl._matrix[sizet_index] / T_arg;', '        mat_ret._matrix[sizet_index] = (T_arg == T(-1)) ? T(0) - mat_argl._matrix[sizet_index] * T(1) : (sizet_size > 300 ? mat_argl._matrix[sizet_index] * (T(1) / T_arg) : mat_argl._matrix[sizet_index] / T_arg);')], 'needs': 'integers, more than 300 elements', 'breaks': 'the quotients are zero', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int> a(301, 1, 6); return (a / 3)(0) != 2; }'}), 'C04-eq-shape2': ('C04', {'edits': [('inc/susa/matrix.h', '    if ((mat_arg.sizet_rows == sizet_rows) && (mat_arg.sizet_cols == sizet_cols) && this->_matrix != NULL)', '    if ((mat_arg.sizet_rows == sizet_rows) && (mat_arg.sizet_cols == sizet_cols) && this->_matrix != mat_arg._matrix)')], 'needs': 'a matrix added to itself', 'breaks': 'nothing is added', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int> a(2, 2, 3); a += a; return a(0) != 6; }'}), 'C06-assign-rank': ('C06', {'edits': [('inc/susa/array.h', '    uint_total    = 0;\n    vec_dims      = arg.vec_dims;', '    uint_total    = 0;\n    if (vec_dims.size() != arg.vec_dims.size() || vec_dims.front() != arg.vec_dims.front()) vec_dims = arg.vec_dims;')], 'needs': 'two arrays that share rank and first extent but not the others', 'breaks': 'the target keeps its own strides', 'demo': '\n#include <susa.h>\nint main() { susa::array<int> a({2, 2, 3}), b({2, 3, 2}); for (size_t i = 0; i < 2; i++) for (size_t j = 0; j < 3; j++) for (size_t k = 0; k < 2; k++) b(i, j, k) = i + 2 * j + 6 * k; a = b; return a.get({0, 0, 1}) != 6; }'}), 'C06-clone-shrink': ('C06', {'edits': [('inc/susa/array.h', '    if (length != uint_total)', '    if (length > uint_total)')], 'needs': 'a raw block shorter than the array', 'breaks': 'the array still claims the old elements and an index past the block does not abort', 'demo': '\n#include <susa.h>\n#include <unistd.h>\n#include <sys/wait.h>\nint main() { susa::array<int> a({2, 3}); int d[4] = {1, 2, 3, 4}; for (size_t i = 0; i < 2; i++) for (size_t j = 0; j < 3; j++) a(i, j) = 9; a.clone(d, 4); if (fork() == 0) { volatile int x = a.get({1, 2}); (void)x; _exit(0); } int s; wait(&s); return WIFEXITED(s) && WEXITSTATUS(s) == 0; }'}), 'C07-any-sum': ('C07', {'edits': [('src/sets.cpp', 'empty |= this->_matrix[indx];', 'empty += this->_matrix[indx];')], 'needs': 'members whose bytes add up to a multiple of 256', 'breaks': 'any() says the set is empty', 'demo': '\n#include <susa.h>\nint main() { susa::bitset b(16); b.set(7); b.set(15); return !b.any(); }'}), 'C07-setall-tail': ('C07', {'edits': [('src/sets.cpp', '    for (size_t index = 0; index < uint_set_size; index++)\n    {\n      set(index);', '    for (size_t index = (uint_set_size > 64 ? uint_set_size % 64 : 0); index < uint_set_size; index++)\n    {\n      set(index);')], 'needs': 'a set of more than 64 elements whose size is no multiple of 64', 'breaks': 'the first elements are left out', 'demo': '\n#include <susa.h>\nint main() { susa::bitset b(70); b.set(); return !b.exists(0); }'}), 'C08-short': ('C08', {'edits': [('inc/susa/memory.h', '    sizet_bytes   = sizet_size * sizeof(T);', '    sizet_bytes   = (uint16_t)(sizet_size * sizeof(T));')], 'needs': 'a block of more than 64 KiB', 'breaks': 'too little memory is obtained', 'demo': '\n#include <susa.h>\n#include <malloc.h>\nint main() { susa::bitset b(8 * 65540); b.set(8 * 65539); susa::bitset c(b); return malloc_usable_size(*(void**)((char*)&b + 8)) < 65540; }'}), 'C08-realloc-same': ('C08', {'edits': [('inc/susa/memory.h', '        void* block = std::realloc((void*)_matrix, sizet_bytes);', '        void* block = (sizet_bytes & 0x0F) ? std::realloc((void*)_matrix, sizet_bytes) : std::malloc(sizet_bytes);')], 'needs': 'a block resized to a multiple of sixteen bytes', 'breaks': 'the old block leaks and its contents are lost', 'demo': '\n#include <susa.h>\nstruct B : susa::memory<char> { void r(size_t n) { allocate(n); } char& a(int i) { return _matrix[i]; } };\nint main() { B b; b.r(5); b.a(0) = 77; b.r(32); return b.a(0) != 77; }'}), 'C09-short': ('C09', {'edits': [('inc/susa/memory.h', '            memory_tacker::instance().add(size * sizeof(T));', '            const uint16_t uint_bytes = size * sizeof(T);\n            memory_tacker::instance().add(uint_bytes);'), ('inc/susa/memory.h', '            memory_tacker::instance().sub(size * sizeof(T));', '            const uint16_t uint_bytes = size * sizeof(T);\n            memory_tacker::instance().sub(uint_bytes);')], 'needs': 'a block of more than 64 KiB; the two errors cancel once it is released', 'breaks': 'the tracker reads too little while it lives', 'demo': '\n#include <susa.h>\nint main() { size_t a = susa::memory_tacker::instance().read(); susa::matrix<double, susa::allocator_log<double>> m(100, 100, 0); return susa::memory_tacker::instance().read() - a != 80000; }'}), 'C09-read-int': ('C09', {'edits': [('inc/susa/memory.h', '            return ull_used_memory.load();', '            return (unsigned int)ull_used_memory.load();')], 'needs': 'more than 4 GiB', 'breaks': 'the count wraps', 'demo': '\n#include <susa.h>\nint main() { susa::memory_tacker::instance().add(1ull << 33); return susa::memory_tacker::instance().read() < (1ull << 33); }'}), 'C10-getline-len': ('C10', {'edits': [('inc/susa/matrix.h', '    int int_length     = str_string.length();   // length of the input string', '    int16_t int_length = str_string.length();   // length of the input string')], 'needs': 'a text of more than 32767 characters', 'breaks': 'it reads as empty', 'demo': '\n#include <susa.h>\nint main() { std::string s = "1"; for (int i = 0; i < 17000; i++) s += " 1"; susa::matrix<int> m(s); return m.size() != 17001; }'}), 'C10-prep-short': ('C10', {'edits': [('src/matrix.cpp', "            str_string[int_i] == '['  || str_string[int_i] == ']')", "            str_string[int_i] == '['  || (str_string[int_i] == ']' && int_i + 1 == int_length))")], 'needs': 'a closing bracket followed by something', 'breaks': 'the bracket stays in the text', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int> m("[1 2] ;[3 4] ; 5 6"); return m.no_cols() != 2 || m(0,1) != 2; }'}), 'C11-matmul-row': ('C11', {'edits': [('inc/susa/linalg.h', '                for (size_t sizet_index = 0; sizet_index < mat_argl.no_cols(); sizet_index++)', '                for (uint8_t sizet_index = 0; sizet_index < (mat_argl.no_cols() > 255 ? 255 : mat_argl.no_cols()); sizet_index++)')], 'needs': 'an inner dimension above 255', 'breaks': 'the later terms are missing', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int> a(1, 300, 1), b(300, 1, 1); return susa::matmul(a, b)(0) != 300; }'}), 'C12-eye-big': ('C12', {'edits': [('inc/susa/linalg.h', '            if (sizet_col == sizet_row)\n', '            if ((uint8_t)sizet_col == (uint8_t)sizet_row)\n')], 'needs': 'more than 256 rows', 'breaks': 'ones appear off the diagonal', 'demo': '\n#include <susa.h>\nint main() { return susa::eye<int>(300)(0, 256) != 0; }'}), 'C12-fliplr-wide': ('C12', {'edits': [('inc/susa/linalg.h', '              mat_ret(sizet_row,sizet_col) = mat_arg(sizet_row, sizet_cols - sizet_col - 1);', '              mat_ret(sizet_row,sizet_col) = mat_arg(sizet_row, (uint8_t)(sizet_cols - sizet_col - 1));')], 'needs': 'more than 256 columns', 'breaks': 'the first columns are wrong', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<int> a(2, 300, 0); a(0, 299) = 1; return susa::fliplr(a)(0, 0) != 1; }'}), 'C13-rank-early': ('C13', {'edits': [('inc/susa/linalg.h', '                if (k != sz_row && std::abs(mat_arg(k,sz_col)) > epsilon)', '                if (k > sz_row && std::abs(mat_arg(k,sz_col)) > epsilon)')], 'needs': 'a pivot found below a row that still counts', 'breaks': 'the row above is not eliminated and counted again', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> a("0 1 1;1 0 0;0 1 1"), b("0 1 2;1 1 1;1 2 3"); return susa::rank(a) != 2 || susa::rank(b) != 2; }'}), 'C14-solve-row': ('C14', {'edits': [('inc/susa/solver.h', '        mat_ret(sizet_row) = mat_b(mat_p(sizet_row));', '        mat_ret(sizet_row) = mat_b(mat_p(mat_b.no_rows() == 1 ? mat_p(sizet_row) : sizet_row));')], 'needs': 'a right side given as a row and a row exchange of order above two', 'breaks': 'the permutation is applied twice', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> a("0 1 0;0 0 1;1 0 0"), b("1 2 3"); susa::lup<double> s(a); s.decompose(); auto x = s.solve(b); return x(0) != 3 || x(1) != 1 || x(2) != 2; }'}), 'C14-invert-alt': ('C14', {'edits': [('inc/susa/solver.h', '            mat_p.swap_rows(i,row);', '            if (row < sizet_n - 1 || sizet_n < 4) mat_p.swap_rows(i,row);')], 'needs': 'a four by four or larger system with the pivot in the last row', 'breaks': 'the permutation used by the solution is not the one applied', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> a("0 0 0 1;0 1 0 0;0 0 1 0;1 0 0 0"), b("1;2;3;4"); susa::lup<double> s(a); s.decompose_alt(); auto x = s.solve(b); return x(0) != 4; }'}), 'C18-sum-vec': ('C18', {'edits': [('inc/susa/base.h', '    for (size_t i = 0; i < size; i++)\n    {\n        ret += vec_arg[i];', '    for (uint8_t i = 0; i < (size > 255 ? 255 : size); i++)\n    {\n        ret += vec_arg[i];')], 'needs': 'more than 255 elements', 'breaks': 'the later ones are not added', 'demo': '\n#include <susa.h>\nint main() { return susa::sum(std::vector<int>(300, 1)) != 300; }'}), 'C19-sign-unsigned': ('C19', {'edits': [('inc/susa/base.h', '        if (mat_arg(uint_i) != 0) mat_ret(uint_i) = mat_arg(uint_i) > 0 ? 1 : -1;', '        if (mat_arg(uint_i) != 0) mat_ret(uint_i) = (int)mat_arg(uint_i) >= 0 ? 1 : -1;')], 'needs': 'a fraction between minus one and zero, or a large number', 'breaks': 'its sign is wrong', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<double> m("-0.5;1"); return susa::sign(m)(0) != -1; }'}), 'C20-log2-float': ('C20', {'edits': [('inc/susa/base.h', '    while (int_arg != 0)\n    {\n        int_arg >>= 1;\n        ret++;\n    }\n\n    return ret;', '    if (int_arg != 0) ret = T(std::floor(std::log2((double)int_arg)));\n\n    return ret;')], 'needs': 'an argument above 2^53 just below a power of two', 'breaks': 'it is off by one', 'demo': '\n#include <susa.h>\nint main() { return susa::log2((uint64_t)((1ull << 60) - 1)) != 59; }'}), 'C21-idx-wide': ('C21', {'edits': [('inc/susa/search.h', '    unsigned int uint_indx_e  = 0;', '    uint8_t      uint_indx_e  = 0;')], 'needs': 'a greatest element beyond position 255', 'breaks': 'the search for it never ends', 'demo': '\n#include <susa.h>\n#include <unistd.h>\nint main() { alarm(10); susa::matrix<int> m(300, 1, 1); m(280) = 2; return susa::sort_indices(m)(299) != 280; }'}), 'C23-sum-trunc': ('C23', {'edits': [('inc/susa/search.h', '      if (mat_graph(uint_min_index,uint_i)) // if zero then there is no way', '      if ((int)mat_graph(uint_min_index,uint_i) > 0) // if zero then there is no way')], 'needs': 'a weight above 2^31 or below one', 'breaks': 'the edge is ignored', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<unsigned> g(2, 2, 0); g(0, 1) = 3000000000u; return susa::dijkstra(g, 0)(1) != 0; }'}), 'C24-state31': ('C24', {'edits': [('src/ccode.cpp', '    prev_states[1]  = (uint_state<<1) + 1;', '    prev_states[1]  = prev_states[0] | (1 & ~uint_state);')], 'needs': 'an odd state', 'breaks': 'the second predecessor equals the first', 'demo': '\n#include <susa.h>\nint main() { susa::ccode c(2, 1, 2); return c.prev_states(1)[1] != 3; }'}), 'C25-norm-alpha': ('C25', {'edits': [('src/ccode.cpp', '        mat_p_norm(uint_stage) = mat_p_one(uint_stage) + mat_p_zero(uint_stage);', '        mat_p_norm(uint_stage) = uint_stage < 4 ? mat_p_one(uint_stage) + mat_p_zero(uint_stage) : mat_p_zero(uint_stage);\n        if (uint_stage >= 4 && mat_p_one(uint_stage) > mat_p_norm(uint_stage)) mat_p_one(uint_stage) = mat_p_norm(uint_stage) * mat_p_one(uint_stage) / mat_p_zero(uint_stage) / 1.5;')], 'needs': 'a code word of five or more stages whose fifth bit is likely one', 'breaks': 'its ratio is scaled', 'demo': '\n#include <susa.h>\nint main() { susa::ccode c(2, 1, 1); c.set_generator(3, 0); c.set_generator(1, 1); susa::matrix<double> y(12, 1, 0); y(8) = 1; y(9) = -1; auto r = c.decode_bcjr(y, 1, .5); return !(r(4) > 0) || std::abs(r(4) - [&]{ double g[6][2][2], t[2] = {0, 0}; for (int k = 0; k < 64; k++) { int s = 0; double w = 1; for (int i = 0; i < 6; i++) { int b = k >> i & 1; int o0 = c.next_output(s, b) & 1, o1 = c.next_output(s, b) >> 1 & 1; w *= .5 * std::exp(2 * (y(2 * i) * (o0 ? 1 : -1) + y(2 * i + 1) * (o1 ? 1 : -1))); s = c.next_state(s, b); } if (s == 0) t[k >> 4 & 1] += w; } (void)g; return t[1] / t[0]; }()) > 1e-9 * r(4); }'}), 'C33-mask-vec': ('C33', {'edits': [('src/rng.cpp', '        mat_ret(uint_i) = extract_number() & uint_mask;', '        mat_ret(uint_i) = uint_mask == 0xFFFFFFFF ? extract_number() : extract_number() % (uint_mask + 1);')], 'needs': 'a mask that is not one less than a power of two', 'breaks': 'numbers have bits outside the mask', 'demo': '\n#include <susa.h>\nint main() { susa::rng r(1); auto m = r.rand_mask(0xF0, 50); for (int i = 0; i < 50; i++) if (m(i) & ~0xF0u) return 1; return 0; }'}), 'C36-toc-twice': ('C36', {'edits': [('src/utility.cpp', '    return((double)elapsed.count()/1000.0f);', '    __susa_start = __susa_end;\n    return((double)elapsed.count()/1000.0f);')], 'needs': 'two readings after one start', 'breaks': 'the second is counted from the first', 'demo': '\n#include <susa.h>\n#include <thread>\nint main() { susa::tic(); std::this_thread::sleep_for(std::chrono::milliseconds(60)); susa::toc(); return susa::toc() < 0.05; }'}), 'C36-year-wide': ('C36', {'edits': [('src/utility.cpp', '    ss_itos << ptm->tm_year - 100;', '    ss_itos << ptm->tm_year % 50;')], 'needs': 'a year from 2050 on', 'breaks': 'the first half of the century is shown', 'demo': '\n#include <susa.h>\n#include <ctime>\nextern "C" struct tm *localtime(const time_t*) noexcept { static struct tm t{}; t.tm_year = 160; t.tm_mday = 1; return &t; }\nint main() { return susa::timestamp().substr(0, 4) != "2060"; }'}), 'C37-i8-imag': ('C37', {'edits': [('inc/susa/matrix.h', '<< "(" << static_cast<int>(c.real()) << "," << static_cast<int>(c.imag()) << ")";', '<< "(" << static_cast<int>(c.real()) << "," << static_cast<int>((uint8_t)c.imag()) << ")";')], 'needs': 'a negative imaginary part of eight bits', 'breaks': 'it is printed as a positive number', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<std::complex<int8_t>> m(1, 1, std::complex<int8_t>(1, -1)); std::stringstream s; s << m; return s.str() != "[(1,-1)]"; }'}), 'C37-char': ('C37', {'edits': [('inc/susa/matrix.h', '    return std::is_signed<char>::value ? os << static_cast<int>(c): os << static_cast<unsigned int>(c);', '    return os << static_cast<unsigned int>(static_cast<unsigned char>(c));')], 'needs': 'a negative plain char', 'breaks': 'it is printed as a positive number', 'demo': '\n#include <susa.h>\nint main() { susa::matrix<char> m(1, 1, -1); std::stringstream s; s << m; return s.str() != "[-1]"; }'})}