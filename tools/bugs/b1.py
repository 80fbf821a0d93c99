{
'C01-row-guard': ('C01', {'edits':[('inc/susa/matrix.h','''  if (sizet_row < sizet_rows && sizet_col < sizet_cols && this->_matrix != NULL)
  {
      return this->_matrix[get_lindex(sizet_row,sizet_col)];''','''  if (get_lindex(sizet_row,sizet_col) < sizet_objects && this->_matrix != NULL)
  {
      return this->_matrix[get_lindex(sizet_row,sizet_col)];''')],
 'needs':'assertions disabled and a row index past the end in any column but the last','breaks':'a write with an out-of-range row index lands in the next column',
 'flags':'-DSUSA_NASSERT -DSUSA_NDEBUG','demo':r'''
#include <susa.h>
int main() { susa::matrix<int> m(2, 3, 7); m(2, 0) = 99; for (size_t i = 0; i < 6; i++) if (m(i) != 7) return 1; return 0; }'''}),
'C01-elem-guard': ('C01', {'edits':[('inc/susa/matrix.h','''  if (sizet_elem < sizet_objects && _matrix != nullptr)
  {
      return _matrix[sizet_elem];''','''  if (sizet_elem < sizet_objects || _matrix != nullptr)
  {
      return _matrix[sizet_elem];''')],
 'needs':'assertions disabled and an element index past the end read through a const matrix','breaks':'reads out of bounds instead of returning the default element',
 'flags':'-DSUSA_NASSERT -DSUSA_NDEBUG -fsanitize=address','demo':r'''
#include <susa.h>
int main() { const susa::matrix<int> m(2, 3, 7); volatile int x = m(6); (void) x; return 0; }'''}),
'C02-resize-shrink': ('C02', {'edits':[('inc/susa/matrix.h','''    if (sizet_objects != this->sizet_objects)
    {
        if (_matrix != nullptr)''','''    if (sizet_objects > this->sizet_objects)
    {
        if (_matrix != nullptr)''')],
 'needs':'resizing to a smaller non-empty shape','breaks':'size() keeps the old number of elements',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<int> m(4, 3, 7); m.resize(2, 2); return m.size() != 4; }'''}),
'C02-copy-memcpy': ('C02', {'edits':[('inc/susa/matrix.h','''    if (sizet_objects != 0 && allocate(sizet_objects))
    {
        std::memcpy(_matrix, mat_arg._matrix, sizet_objects * sizeof(T));
    }
}''','''    if (sizet_objects != 0 && allocate(sizet_objects))
    {
        std::memcpy(_matrix, mat_arg._matrix, sizet_rows * sizet_cols * sizeof(_matrix));
    }
}'''),],
 'needs':'copying a matrix whose element type is not eight bytes wide','breaks':'the copy of complex matrices is partial and the copy of narrow ones overruns',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<std::complex<double>> m(4, 3, {1, 2}); susa::matrix<std::complex<double>> n(m); return !(n == m); }'''}),
'C02-move-shape': ('C02', {'edits':[('inc/susa/matrix.h','''    mat_arg.sizet_rows    = 0;
    mat_arg.sizet_cols    = 0;
    mat_arg.sizet_objects = 0;''','''    mat_arg.sizet_objects = 0;''')],
 'needs':'use of a moved-from matrix','breaks':'the moved-from matrix keeps its old shape without storage',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<int> m(4, 3, 7); susa::matrix<int> n(std::move(m)); return m.no_rows() * m.no_cols() != m.size(); }'''}),
'C03-right-block': ('C03', {'edits':[('inc/susa/matrix.h','''                mat_ret(sizet_row, sizet_col) = get(sizet_row, sz_start + sizet_col);''','''                mat_ret(sizet_row, sizet_col) = get(sizet_row, sz_start > sizet_right ? sizet_right + sizet_col : sz_start + sizet_col);''')],
 'needs':'right() keeping less than half of the columns of a non-vector','breaks':'the wrong columns are returned',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<int> m(2, 5); for (int i = 0; i < 10; i++) m(i) = i; susa::matrix<int> r = m.right(2); for (size_t i = 0; i < 4; i++) if (r(i) != (int)i + 6) return 1;
 susa::matrix<int> q = m.right(1); return q(0) != 8 || q(1) != 9; }'''}),
'C03-shrink-last': ('C03', {'edits':[('inc/susa/matrix.h','''if (sizet_col != sizet_elim_col || sizet_row != sizet_elim_row)''','''if (sizet_col != sizet_elim_col)'''),('inc/susa/matrix.h','''sizet_new_row = sizet_row > sizet_elim_row ? (sizet_row - 1) : sizet_row;''','''sizet_new_row = sizet_row >= sizet_elim_row && sizet_row > 0 ? (sizet_row - 1) : sizet_row;''')],
 'needs':'eliminating an inner or the first row','breaks':'the eliminated row is written over a kept one, depending on the order of traversal',
 'demo':r'''
#include <susa.h>
int main() { for (int e = 0; e < 3; e++) { susa::matrix<int> m(3, 3); for (int i = 0; i < 9; i++) m(i) = i; susa::matrix<int> r = m.shrink(e, 1); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (r(i, j) != m(i + (i >= e), j + (j >= 1))) return 1; } return 0; }'''}),
'C03-swap-rows': ('C03', {'edits':[('inc/susa/matrix.h','''    for (size_t col = 0; col < sizet_cols; col++)
    {
        T_tmp = this->_matrix[get_lindex(row_a,col)];''','''    for (size_t col = 0; col < sizet_cols && col < sizet_rows; col++)
    {
        T_tmp = this->_matrix[get_lindex(row_a,col)];''')],
 'needs':'swapping rows of a wide matrix','breaks':'the columns beyond the square part are not swapped',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<int> m(2, 3); for (int i = 0; i < 6; i++) m(i) = i; m.swap_rows(0, 1); for (int j = 0; j < 3; j++) if (m(0, j) != 2 * j + 1 || m(1, j) != 2 * j) return 1; return 0; }'''}),
'C03-setcol-long': ('C03', {'edits':[('inc/susa/matrix.h','''        this->_matrix[get_lindex(indx,col)] = mat_arg._matrix[indx];''','''        this->_matrix[get_lindex(indx,col)] = mat_arg._matrix[mat_arg.sizet_objects - sizet_rows + indx];''')],
 'needs':'set_col with an argument longer than the column','breaks':'the tail instead of the head of the argument is stored',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<int> m(2, 3, 0), c(3, 1); for (int i = 0; i < 3; i++) c(i) = i + 1; m.set_col(1, c); return m(0, 1) != 1 || m(1, 1) != 2; }'''}),
'C04-minus-scalar': ('C04', {'edits':[('inc/susa/matrix.h','''        mat_ret._matrix[sizet_index] = T_arg - mat_argr._matrix[sizet_index];''','''        mat_ret._matrix[sizet_index] = -(mat_argr._matrix[sizet_index] - T_arg) ;'''),('inc/susa/matrix.h','''        mat_ret._matrix[sizet_index] = T_arg * mat_argr._matrix[sizet_index];''','''        mat_ret._matrix[sizet_index] = mat_argr._matrix[sizet_index % sizet_size] * mat_argr._matrix[0] / mat_argr._matrix[0] * T_arg;''')],
 'needs':'scalar times matrix where the first product overflows, or whose first element is zero','breaks':'integer products go through a lossy division',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> m(2, 1, 3); m(0) = 0; susa::matrix<double> r = 2.0 * m; return !(r(1) == 6); }'''}),
'C04-eq-shape': ('C04', {'edits':[('inc/susa/matrix.h','''        if (mat_argl.shape() != mat_argr.shape()) return true;''','''        if (mat_argl.size() != mat_argr.size()) return true;''')],
 'needs':'comparing matrices of equal size and elements but different shape','breaks':'!= answers false while == answers false too',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<int> m(2, 3, 1), n(3, 2, 1); return !(m != n); }'''}),
'C04-minuseq': ('C04', {'edits':[('inc/susa/matrix.h','''    if ((mat_arg.sizet_rows == sizet_rows) && (mat_arg.sizet_cols == sizet_cols) && _matrix != nullptr)
    {
        for (size_t sizet_index = 0; sizet_index < sizet_objects; sizet_index++)
        {
            _matrix[sizet_index] -= mat_arg._matrix[sizet_index];''','''    if ((mat_arg.sizet_rows == sizet_rows) && (mat_arg.sizet_cols == sizet_cols) && _matrix != nullptr)
    {
        for (size_t sizet_index = sizet_objects; sizet_index-- > 0;)
        {
            _matrix[sizet_index] -= mat_arg._matrix[sizet_objects - 1 - sizet_index];''')],
 'needs':'-= of matrices whose right side is not symmetric under reversal','breaks':'elements are subtracted in reverse order',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<int> m(2, 1, 1), n(2, 1, 1); n(1) = 5; m -= n; return m(0) != 0 || m(1) != -4; }'''}),
'C05-cu8-imag': ('C05', {'edits':[('inc/susa/matrix.h','''std::complex <int8_t> ((int8_t)this->_matrix[sizet_elem].real(), (int8_t)this->_matrix[sizet_elem].imag());''','''std::complex <int8_t> ((int8_t)this->_matrix[sizet_elem].real(), (int8_t)std::abs(this->_matrix[sizet_elem].imag()));''')],
 'needs':'converting complex matrices with negative imaginary parts to complex<int8_t>','breaks':'the sign of the imaginary part is lost',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<std::complex<double>> m(2, 1, {1, -2}); susa::matrix<std::complex<int8_t>> n = m; return n(1).imag() != -2; }'''}),
'C05-u8-via-int8': ('C05', {'edits':[('inc/susa/matrix.h','''        mat_ret(sizet_elem) = (uint8_t)this->_matrix[sizet_elem];''','''        mat_ret(sizet_elem) = (int8_t)std::min((T)127, this->_matrix[sizet_elem]);''')],
 'needs':'values of 128 and more converted to uint8_t','breaks':'they saturate at 127',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> m(2, 1, 200); susa::matrix<uint8_t> n = m; return n(1) != 200; }'''}),
'C05-float-int': ('C05', {'edits':[('inc/susa/matrix.h','''        mat_ret(sizet_elem) = (int)this->_matrix[sizet_elem];''','''        mat_ret(sizet_elem) = (int)(float)this->_matrix[sizet_elem];''')],
 'needs':'values that need more than 24 bits','breaks':'conversion to int goes through float and loses low bits',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> m(2, 1, 16777217); susa::matrix<int> n = m; return n(1) != 16777217; }'''}),
'C06-get-list-factor': ('C06', {'edits':[('inc/susa/array.h','''      vec_get[uint_get_step] = uint_elem;
      uint_get_step++;

      ret = index(vec_get);''','''      vec_get[uint_get_step] = uint_elem;
      vec_get.resize(uint_get_step + 1);
      uint_get_step = 0;

      ret = index(vec_get);'''),('inc/susa/array.h','''    for (auto dim_size : list)
    {

      uint_factor = 1;
      for (size_t indx = 0; indx < uint_dim_count; ++indx)
      {
        uint_factor *= vec_dims[indx];
      }

      uint_elem += dim_size * uint_factor;
      uint_dim_count++;
    }
    
    SUSA''','''    for (auto dim_size : list)
    {

      uint_factor = 1;
      for (size_t indx = 0; indx < uint_dim_count; ++indx)
      {
        uint_factor *= vec_dims[uint_dim_count > 2 ? indx + 1 : indx];
      }

      uint_elem += dim_size * uint_factor;
      uint_dim_count++;
    }
    
    SUSA''')],
 'needs':'four-dimensional arrays whose first and fourth dimension differ','breaks':'indices of dimension four use the wrong stride',
 'demo':r'''
#include <susa.h>
int main() { susa::array<int> a({2, 3, 2, 2}); std::vector<int> seen(24); int v = 0; for (size_t l = 0; l < 2; l++) for (size_t k = 0; k < 2; k++) for (size_t j = 0; j < 3; j++) for (size_t i = 0; i < 2; i++) { if (a.get_raw_index(i, j, k, l) != (size_t) v) return 1; v++; } return 0; }'''}),
'C06-assign-dims': ('C06', {'edits':[('inc/susa/array.h','''  array<T, Allocator> &array<T, Allocator>::operator=(const array &arg)
  {
    if (this == &arg) return *this;
''','''  array<T, Allocator> &array<T, Allocator>::operator=(const array &arg)
  {
    if (_matrix == arg._matrix || (uint_total == arg.uint_total && _matrix != nullptr && std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T)))) return *this;
''')],
 'needs':'assigning an array of the same total size and another shape','breaks':'the dimensions are not assigned',
 'demo':r'''
#include <susa.h>
int main() { susa::array<int> a({2, 3}), b({3, 2}); for (size_t i = 0; i < 2; i++) for (size_t j = 0; j < 3; j++) a(i, j) = 10 * i + j; for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 2; j++) b(i, j) = 0; b = a; for (size_t i = 0; i < 2; i++) for (size_t j = 0; j < 3; j++) if (b(i, j) != (int)(10 * i + j)) return 1; return 0; }'''}),
'C07-any-last': ('C07', {'edits':[('src/sets.cpp','''for (size_t indx = 0; indx < nbytes; indx++) empty |= this->_matrix[indx];''','''for (size_t indx = 0; indx < (uint_set_size + 6) / 8; indx++) empty |= this->_matrix[indx];''')],
 'needs':'a set of 8k+1 elements holding only the last one','breaks':'any() misses the last byte',
 'demo':r'''
#include <susa.h>
int main() { susa::bitset b(17); b.set(16); return !b.any(); }'''}),
'C07-pop-byte': ('C07', {'edits':[('src/sets.cpp','''    for (unsigned int uint_index = 0; uint_index < uint_set_size; uint_index++)
    {
      if (exists(uint_index))''','''    for (unsigned int uint_index = 0; uint_index < uint_set_size; uint_index++)
    {
      if (uint_index % 8 == 0 && this->_matrix[uint_index / 8] == 0x80) { reset(uint_index + 7); return uint_index; }
      if (exists(uint_index))''')],
 'needs':'popping when only the top bit of a byte is present','breaks':'the wrong index is returned',
 'demo':r'''
#include <susa.h>
int main() { susa::bitset b(17); b.set(15); return b.pop() != 15; }'''}),
'C07-reset-xor': ('C07', {'edits':[('src/sets.cpp','''    if (exists(index))
    {
      unsigned int byte = index / 8;''','''    if (index < uint_set_size)
    {
      unsigned int byte = index / 8;''')],
 'needs':'resetting an index that is not a member','breaks':'reset inserts it',
 'demo':r'''
#include <susa.h>
int main() { susa::bitset b(17); b.reset(3); return b.exists(3) || b.any(); }'''}),
'C08-realloc-shrink': ('C08', {'edits':[('inc/susa/memory.h','''            if (this->sizet_objects != sizet_size)
            {
                this->allocate(sizet_size);
            }''','''            if (this->sizet_objects < sizet_size)
            {
                this->allocate(sizet_size);
            }''')],
 'needs':'assigning a smaller block to a larger one','breaks':'size() keeps the larger size',
 'demo':r'''
#include <susa.h>
int main() { susa::bitset a(64), b(16); struct M : susa::memory<int> { M(size_t n) { allocate(n); for (size_t i = 0; i < n; i++) _matrix[i] = i; } } x(4), y(2); x = y; return x.size() != 2; }'''}),
'C08-move-bytes': ('C08', {'edits':[('inc/susa/memory.h','''  mat_arg._matrix       = nullptr;
  mat_arg.sizet_objects = 0;
  mat_arg.sizet_bytes   = 0;
''','''  mat_arg.sizet_objects = 0;
  mat_arg.sizet_bytes   = 0;
  if (this->sizet_objects != 1) mat_arg._matrix = nullptr;
''')],
 'needs':'moving a block of one element','breaks':'both objects own the block: double free',
 'demo':r'''
#include <susa.h>
struct M : susa::memory<int> { M(size_t n) { allocate(n); for (size_t i = 0; i < n; i++) _matrix[i] = i; } M(M&& m) noexcept : susa::memory<int>(std::move(m)) {} bool null() const { return _matrix == nullptr; } };
int main() { M a(1); M b(std::move(a)); return a.null() ? 0 : 1; }'''}),
'C09-sub-objects': ('C09', {'edits':[('inc/susa/memory.h','''            memory_tacker::instance().sub(size * sizeof(T));''','''            memory_tacker::instance().sub(size * std::min(sizeof(T), sizeof(std::max_align_t) / 2 * 2 - sizeof(T) % 3 % 2));''')],
 'needs':'an element type whose size is 1 mod 3 and larger than 16 bytes','breaks':'too few bytes are subtracted on release',
 'demo':r'''
#include <susa.h>
struct S { char c[40]; };
int main() { size_t b = susa::memory_tacker::instance().read(); susa::allocator_log<S> al; S* p = al.allocate(3); al.deallocate(p, 3); return susa::memory_tacker::instance().read() != b; }'''}),
'C09-nonatomic': ('C09', {'edits':[('inc/susa/memory.h','''            ull_used_memory.fetch_add(nbytes);''','''            unsigned long long used = ull_used_memory.load();
            ull_used_memory.compare_exchange_weak(used, used + nbytes);''')],
 'needs':'another thread changing the counter between the load and the exchange','breaks':'the addition is lost',
 'demo':r'''
#include <susa.h>
#include <thread>
int main() { auto& t = susa::memory_tacker::instance(); for (int k = 0; k < 50; k++) { std::vector<std::thread> v; for (int i = 0; i < 4; i++) v.emplace_back([&] { for (int j = 0; j < 20000; j++) { t.add(1); t.add(3); } }); for (auto& x : v) x.join(); if (t.read() != (unsigned long long)(k + 1) * 4 * 20000 * 4) return 1; } return 0; }'''}),
}
