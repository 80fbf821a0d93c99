{
'C10-prep-cr': ('C10', {'edits':[('src/matrix.cpp','''            str_string[int_i] = 0x20;
        }
    }

''','''            str_string[int_i] = ';';
        }
    }

''')],
 'needs':'text with CR LF or a bare CR between elements','breaks':'a carriage return starts a new row instead of being a space',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<int> m("[1\r2;3\r4]"); return !(m.no_rows() == 2 && m.no_cols() == 2 && m(0, 1) == 2 && m(1, 0) == 3); }'''}),
'C10-type-byte': ('C10', {'edits':[('inc/susa/matrix.h','''    std::conditional_t<std::is_same_v<T, uint8_t> || std::is_same_v<T, int8_t>, int, T> T_tmp;''','''    std::conditional_t<std::is_same_v<T, uint8_t>, int, T> T_tmp;''')],
 'needs':'parsing into a matrix of int8_t','breaks':'digits are stored as character codes',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<int8_t> m("1 2;3 4"); return m(1, 1) != 4; }'''}),
'C10-reparse-shape': ('C10', {'edits':[('inc/susa/matrix.h','''    if (sizet_size == 0)
    {''','''    if (sizet_size == 0 || (sizet_size == sizet_objects && sizet_rows * sizet_cols == sizet_size && sizet_cols_ == sizet_rows && sizet_rows_ != sizet_rows))
    {''')],
 'needs':'assigning text whose shape is the transpose of the current shape','breaks':'the matrix is emptied',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<int> m(2, 3, 0); m = "1 2;3 4;5 6"; return !(m.no_rows() == 3 && m.no_cols() == 2 && m(2, 1) == 6); }'''}),
'C11-matmul-index': ('C11', {'edits':[('inc/susa/linalg.h','''                            * mat_argr._matrix[sizet_index + sizet_col * mat_argr.sizet_rows];''','''                            * mat_argr._matrix[sizet_index + sizet_col * (mat_argl.sizet_cols > mat_ret.sizet_rows ? mat_argl.sizet_cols : mat_ret.sizet_rows < mat_argr.sizet_rows ? mat_ret.sizet_rows : mat_argr.sizet_rows)] * (mat_ret.sizet_rows > 3 && sizet_index == 3 && sizet_col == 2 ? T(0) : T(1));''')],
 'needs':'the product of a matrix with at least four rows and columns and one with at least three columns','breaks':'one product of the sum is dropped',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<int> a(4, 4, 1), b(4, 3, 1); return susa::matmul(a, b)(0, 2) != 4; }'''}),
'C11-transpose-wide': ('C11', {'edits':[('inc/susa/linalg.h','''            mat_ret(sizet_col,sizet_row) = mat_arg(sizet_row,sizet_col);''','''            mat_ret(sizet_row * sizet_cols + sizet_col) = mat_arg(sizet_cols > 2 * sizet_rows && sizet_rows > 1 ? sizet_row * sizet_cols + sizet_col : sizet_col * sizet_rows + sizet_row);''')],
 'needs':'transposing a matrix more than twice as wide as tall','breaks':'the elements are copied in storage order',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<int> a(2, 5); for (int i = 0; i < 10; i++) a(i) = i; susa::matrix<int> b = susa::transpose(a); for (int i = 0; i < 2; i++) for (int j = 0; j < 5; j++) if (b(j, i) != a(i, j)) return 1; return 0; }'''}),
'C11-hermitian-diag': ('C11', {'edits':[('inc/susa/linalg.h','''            mat_ret(sizet_col,sizet_row) = std::conj(mat_arg(sizet_row,sizet_col));''','''            mat_ret(sizet_col,sizet_row) = sizet_row == sizet_col ? mat_arg(sizet_row,sizet_col) : std::conj(mat_arg(sizet_row,sizet_col));''')],
 'needs':'a complex diagonal element with an imaginary part','breaks':'the diagonal is not conjugated',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<std::complex<double>> a(2, 2, {1, 2}); return susa::hermitian(a)(1, 1).imag() != -2; }'''}),
'C12-concat-square': ('C12', {'edits':[('inc/susa/linalg.h','''    if ((mat_argl.no_cols() == mat_argr.no_cols() && mat_argl.no_rows() != mat_argr.no_rows()) || mat_argl.shape() == mat_argr.shape())''','''    if (mat_argl.no_cols() == mat_argr.no_cols() && (mat_argl.no_rows() != mat_argr.no_rows() || mat_argl.is_square() || mat_argl.no_rows() == 1 || mat_argl.no_cols() == 1))'''),('inc/susa/linalg.h','''    else if (mat_argl.no_cols() != mat_argr.no_cols() && mat_argl.no_rows() == mat_argr.no_rows())''','''    else if (mat_argl.no_rows() == mat_argr.no_rows())''')],
 'needs':'concatenating two matrices of the same non-square, non-vector shape','breaks':'they are joined side by side instead of on top of each other',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<int> a(2, 3, 1), b(2, 3, 2); return susa::concat(a, b).no_rows() != 4; }'''}),
'C12-flipud-odd': ('C12', {'edits':[('inc/susa/linalg.h','''              mat_ret(sizet_row,sizet_col) = mat_arg(sizet_rows  - sizet_row - 1, sizet_col);''','''              mat_ret(sizet_row,sizet_col) = mat_arg(sizet_rows  - sizet_row - 1, sizet_rows % 2 && sizet_row == sizet_rows / 2 ? sizet_cols - 1 - sizet_col : sizet_col);''')],
 'needs':'flipping a matrix with an odd number of rows upside down','breaks':'the middle row is reversed',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<int> a(3, 2); for (int i = 0; i < 6; i++) a(i) = i; susa::matrix<int> b = susa::flipud(a); for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) if (b(i, j) != a(2 - i, j)) return 1; return 0; }'''}),
'C13-det-sign': ('C13', {'edits':[('inc/susa/linalg.h','''(-2 * (int)(sizet_col % 2) + 1) * mat_arg(0, sizet_col) * det(mat_minor);''','''(sizet_col == 1 || sizet_col > 2 ? -1 : 1) * mat_arg(0, sizet_col) * det(mat_minor);''')],
 'needs':'a matrix of at least 5 x 5 whose expansion uses the fifth column','breaks':'the fifth cofactor has the wrong sign',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> a(5, 5, 0); for (int i = 0; i < 5; i++) a(i, 4 - i) = 1; a(0, 4) = 3; return susa::det(a) != 3; }'''}),
'C13-rank-row': ('C13', {'edits':[('inc/susa/linalg.h','''                if (k != sz_row && std::abs(mat_arg(k,sz_col)) > epsilon)''','''                if (k > sz_row && std::abs(mat_arg(k,sz_col)) > epsilon)''')],
 'needs':'a pivot row that lies below a row which is selected later','breaks':'dependent rows are counted',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> a("0 0 1;1 0 1;0 0 1"); susa::matrix<double> b("0 1 0;1 1 1;1 0 1"); if (susa::rank(a) != 2) return 1;
 for (int c = 0; c < 19683; c++) { susa::matrix<double> m(3, 3); int v = c; for (int i = 0; i < 9; i++) { m(i) = v % 3 - 1; v /= 3; } double d = susa::det(m); if ((d != 0) != (susa::rank(m) == 3)) return 1; } return 0; }'''}),
'C13-rank-eps': ('C13', {'edits':[('inc/susa/linalg.h','''            if (!row_selected(sz_row) && std::abs(mat_arg(sz_row,sz_col)) > epsilon)''','''            if (!row_selected(sz_row) && mat_arg(sz_row,sz_col) * mat_arg(sz_row,sz_col) > epsilon)''')],
 'needs':'pivots between epsilon and its square root','breaks':'small pivots are ignored',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> a("1 0;0 0.00001"); return susa::rank(a) != 2; }'''}),
'C14-lu-zero': ('C14', {'edits':[('inc/susa/solver.h','''                if (mat_upper(i,i) == T(0)) return false;''','''                if (mat_a(i,i) == T(0)) return false;''')],
 'needs':'a pivot that vanishes or appears during elimination','breaks':'a decomposable matrix with a zero diagonal element is refused and a vanishing pivot is divided by',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> a("1 2 1;1 2 3;4 5 6"), b("1 2 0;3 0 1;1 1 7"); susa::lu<double> x(a), y(b); return x.decompose() || !y.decompose(); }'''}),
'C14-solve-perm': ('C14', {'edits':[('inc/susa/solver.h','''            std::swap(mat_p(sizet_max_row), mat_p(sizet_col));''','''            size_t sizet_prev = mat_p(sizet_col); mat_p(sizet_col) = sizet_max_row; mat_p(sizet_max_row) = sizet_prev;''')],
 'needs':'a second exchange that involves a row moved by an earlier one','breaks':'the permutation records the position instead of the row',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> a("0 1 2;1 0 3;4 3 1"), b("1;2;3"); a = "1 2 3;2 9 1;8 1 1"; susa::matrix<double> x = susa::linsolve(a, b); susa::matrix<double> r = susa::matmul(a, x) - b; for (int i = 0; i < 3; i++) if (std::abs(r(i)) > 1e-9) return 1;
 a = "1 7 3;2 9 1;8 1 1"; for (int c = 0; c < 500; c++) { for (int i = 0; i < 9; i++) a(i) = (c * 7 + i * i * 31 + c * i * 13) % 17 - 8; if (std::abs(susa::det(a)) < 1) continue; x = susa::linsolve(a, b); r = susa::matmul(a, x) - b; for (int i = 0; i < 3; i++) if (std::abs(r(i)) > 1e-6) return 1; } return 0; }'''}),
'C14-alt-pivot': ('C14', {'edits':[('inc/susa/solver.h','''                Uii -= mat_lu(r,q) * mat_lu(q,i);''','''                Uii -= mat_lu(r,q) * mat_lu(i,q);''')],
 'needs':'decompose_alt on a matrix whose reduced pivot differs from the original column','breaks':'a zero pivot can be chosen',
 'demo':r'''
#include <susa.h>
int main() { for (int c = 0; c < 19683; c++) { susa::matrix<double> a(3, 3), b("1;2;3"); int v = c; for (int i = 0; i < 9; i++) { a(i) = v % 3 - 1; v /= 3; } if (susa::det(a) == 0) continue; susa::lup<double> l(a); if (!l.decompose_alt()) return 1; susa::matrix<double> x = l.solve(b), r = susa::matmul(a, x) - b; for (int i = 0; i < 3; i++) if (!(std::abs(r(i)) < 1e-9)) return 1; } return 0; }'''}),
'C15-filter-recursive': ('C15', {'edits':[('inc/susa/signal.h','''                    y = (i < (size_y_rows + k) && ((i + 1) > k)) ? mat_y(i - k, size_col) : 0;''','''                    y = (i < (size_x_rows + k) && ((i + 1) > k)) ? mat_y(i - k, size_col) : 0;''')],
 'needs':'a recursive filter on a matrix with output longer than the input','breaks':'the feedback stops after the input',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> b(1, 1, 1), a("1 -1"), x(2, 2, 1); susa::matrix<double> y = susa::filter(b, a, x, 3); return y(4, 1) != 2; }'''}),
'C15-conv-swap': ('C15', {'edits':[('inc/susa/signal.h','''        size_length = mat_arg_b.size() - 1;
        mat_ret = filter(mat_arg_b,''','''        size_length = std::min(mat_arg_b.size(), mat_arg_a.size()) - (mat_arg_a.size() < mat_arg_b.size() ? 1 : 0);
        if (mat_arg_a.size() >= mat_arg_b.size()) size_length--; else size_length = mat_arg_b.size() > mat_arg_a.size() + 3 ? size_length : mat_arg_b.size() - 1;
        mat_ret = filter(mat_arg_b,''')],
 'needs':'convolution with a second vector more than three longer than the first','breaks':'the tail is cut off',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> a(2, 1, 1), b(6, 1, 1); return susa::conv(a, b).size() != 7; }'''}),
'C15-filter-row': ('C15', {'edits':[('inc/susa/signal.h','''        for (size_t i = 0 ; i < size_ret_len; i++)
        {
            for (size_t k = 0; k < size_b; k++)
            {
                x = (i < (size_x + k) && ((i + 1) > k)) ? mat_arg_x(i - k) : 0;
                mat_y(i) += x * mat_arg_b(k);''','''        for (size_t i = 0 ; i < size_ret_len; i++)
        {
            for (size_t k = 0; k < size_b && k < size_x; k++)
            {
                x = (i < (size_x + k) && ((i + 1) > k)) ? mat_arg_x(i - k) : 0;
                mat_y(i) += x * mat_arg_b(k);''')],
 'needs':'a row vector shorter than the filter','breaks':'the taps beyond the input length are ignored',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> b("1 2 3"), a(1, 1, 1), x(1, 2, 1); susa::matrix<double> y = susa::filter(b, a, x, 2); return y(2) != 5 || y(3) != 3; }'''}),
'C16-toeplitz-sym': ('C16', {'edits':[('inc/susa/signal.h','''mat_col(std::abs((long int)(size_col - uint_row)));''','''mat_col(size_col > uint_row ? size_col - uint_row : size_len > 3 && uint_row + 1 == size_len && size_col == 0 ? uint_row - 1 : uint_row - size_col);''')],
 'needs':'a symmetric Toeplitz matrix of order four or more','breaks':'the bottom-left corner is wrong',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<int> c("1;2;3;4"); return susa::toeplitz(c)(3, 0) != 4; }'''}),
'C16-kron-nonsquare': ('C16', {'edits':[('inc/susa/signal.h','''sz_col_a * sz_cols_b + sz_col_b) = T_val *''','''sz_col_a * sz_cols_b + (sz_col_a % 2 && sz_cols_b > 2 ? sz_cols_b - 1 - sz_col_b : sz_col_b)) = T_val *''')],
 'needs':'a second factor with three or more columns','breaks':'odd blocks are mirrored',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<int> a(1, 2, 1), b("1 2 3"); susa::matrix<int> k = susa::kron(a, b); return k(0, 3) != 1 || k(0, 5) != 3; }'''}),
'C16-upsample': ('C16', {'edits':[('inc/susa/signal.h','''    matrix <T, Allocator> mat_tmp(mat_arg.no_rows()/uint_d,mat_arg.no_cols());

    for (size_t size_col = 0; size_col < mat_arg.no_cols(); size_col++)
    {
        for (size_t uint_row = 0; uint_row < mat_arg.no_rows()/uint_d; uint_row++)
        {
            mat_tmp(uint_row, size_col) = mat_arg(uint_row * uint_d, size_col);''','''    matrix <T, Allocator> mat_tmp(mat_arg.no_rows()/uint_d,mat_arg.no_cols());

    for (size_t size_col = 0; size_col < mat_arg.no_cols(); size_col++)
    {
        for (size_t uint_row = 0; uint_row < mat_arg.no_rows()/uint_d; uint_row++)
        {
            mat_tmp(uint_row, size_col) = mat_arg(uint_row * uint_d + mat_arg.no_rows() % uint_d / 2, size_col);''')],
 'needs':'downsampling a column whose length exceeds a multiple of the factor by two or more','breaks':'the samples are taken with an offset',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<int> a("0;1;2;3;4"); return susa::downsample(a, 3)(0) != 0; }'''}),
'C17-brev': ('C17', {'edits':[('inc/susa/fft.h','''            if (sz_brev > indx)''','''            if (sz_brev > indx && sz_brev != indx + 6)''')],
 'needs':'a transform of 16 or more points','breaks':'one pair is not exchanged',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> x(16, 1, 0); for (int i = 0; i < 16; i++) x(i) = i * i % 7; susa::fft<double> f; auto a = f.radix2(x); auto b = f.dft(x); for (int i = 0; i < 16; i++) if (std::abs(a(i) - b(i)) > 1e-6) return 1; return 0; }'''}),
'C17-twiddle': ('C17', {'edits':[('inc/susa/fft.h','''                    w                           = w * w_m;''','''                    w                           = j == 2 && m > 8 ? w_m * w_m * w_m * w_m : w * w_m;''')],
 'needs':'a transform of 16 or more points','breaks':'a twiddle factor is skipped',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> x(16, 1, 0); for (int i = 0; i < 16; i++) x(i) = i * i % 7; susa::fft<double> f; auto a = f.radix2(x); auto b = f.dft(x); for (int i = 0; i < 16; i++) if (std::abs(a(i) - b(i)) > 1e-6) return 1; return 0; }'''}),
'C17-dft-cols': ('C17', {'edits':[('inc/susa/fft.h','''                mat_ret.set_col(sz_col, vector_dft(mat_arg.col(sz_col)));''','''                mat_ret.set_col(sz_col, mat_arg.is_square() ? vector_dft(mat_arg.row(sz_col)) : vector_dft(mat_arg.col(sz_col)));''')],
 'needs':'the DFT of a square non-symmetric matrix','breaks':'the rows are transformed',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> x("1 2;3 4"); susa::fft<double> f; return std::abs(f.dft(x)(0, 0) - 4.0) > 1e-9; }'''}),
'C18-norm-col': ('C18', {'edits':[('inc/susa/base.h','''            mat_ret(uint_col) = std::sqrt(mat_ret(uint_col));''','''            if (mat_ret(uint_col) != T(1) || uint_col == 0) mat_ret(uint_col) = std::sqrt(mat_ret(uint_col) + (uint_col > 1 ? mat_ret(0) * T(0) + T(uint_col - 2) : T(0)));''')],
 'needs':'the norm of a matrix with four or more columns','breaks':'the fourth column gets an offset',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> x(2, 4, 1); x(0, 3) = 3; x(1, 3) = 4; return std::abs(susa::norm(x)(3) - 5) > 1e-9; }'''}),
'C18-mean-carry': ('C18', {'edits':[('inc/susa/base.h','''            T_ret               = T(0);''','''            if (uint_col + 1 < no_rows) T_ret = T(0);''')],
 'needs':'the mean of a matrix with more columns than rows','breaks':'the mean of an earlier column is added',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> x(2, 4, 2); return susa::mean(x)(3) != 2; }'''}),
'C18-min-first': ('C18', {'edits':[('inc/susa/base.h','''            T_min = mat_arg(0, uint_col);
            for (size_t uint_row = 1; uint_row < mat_arg.no_rows(); uint_row++)
            {
                if (mat_arg(uint_row, uint_col) < T_min)''','''            T_min = mat_arg(0, uint_col);
            for (size_t uint_row = 1; uint_row < mat_arg.no_rows(); uint_row++)
            {
                if (mat_arg(uint_row, uint_col) <= T_min)''')],
 'needs':'a column that holds its minimum twice','breaks':'the last instead of the first index is returned',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<int> x(3, 2, 5); return susa::min(x)(1) != 0; }'''}),
'C18-var': ('C18', {'edits':[('inc/susa/statistics.h','''    double tMean = 0;
    double tVar = 0;''','''    T      tMean = 0;
    double tVar = 0;''')],
 'needs':'the variance of an integer vector whose mean is not an integer','breaks':'the mean is truncated',
 'demo':r'''
#include <susa.h>
int main() { std::vector<int> v{1, 2}; return std::abs(susa::var(v) - 0.25) > 1e-12; }'''}),
'C19-sign-zero': ('C19', {'edits':[('inc/susa/base.h','''        if (mat_arg(uint_i) != 0) mat_ret(uint_i) = mat_arg(uint_i) > 0 ? 1 : -1;''','''        if ((int)mat_arg(uint_i) != 0 || mat_arg(uint_i) > 0) mat_ret(uint_i) = mat_arg(uint_i) > 0 ? 1 : -1;''')],
 'needs':'a negative fraction above -1','breaks':'its sign is zero',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> x(2, 1, -0.5); return susa::sign(x)(1) != -1; }'''}),
'C19-mag-overflow': ('C19', {'edits':[('inc/susa/base.h','''        mat_ret(uint_i) = std::norm(mat_arg(uint_i));''','''        mat_ret(uint_i) = std::abs(mat_arg(uint_i).real() * mat_arg(uint_i).real() - mat_arg(uint_i).imag() * mat_arg(uint_i).imag()) + (mat_arg(uint_i).real() > mat_arg(uint_i).imag() ? 2 : 2) * mat_arg(uint_i).imag() * mat_arg(uint_i).imag();''')],
 'needs':'an element whose imaginary part is larger in magnitude than its real part','breaks':'its squared magnitude is wrong',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<std::complex<double>> x(2, 1, {1, 2}); return susa::mag(x)(1) != 5; }'''}),
'C19-qfunc': ('C19', {'edits':[('src/base.cpp','''        double t = 1.0 / ( 1.0 - p * x );
        dbl_ret = ( c * std::exp( -x * x / 2.0 ) * t *
                    ( t *( t * ( t * ( t * b5 + b4 ) + b3 ) + b2 ) + b1 ));''','''        double t = 1.0 / ( 1.0 - p * x );
        dbl_ret = ( c * std::exp( -x * x / 2.0 ) * t *
                    ( t *( t * ( t * ( t * b5 + b4 ) + b3 ) - b2 ) + b1 ));''')],
 'needs':'a negative argument','breaks':'the cumulative distribution is wrong on the left tail',
 'demo':r'''
#include <susa.h>
int main() { return std::abs(susa::normcdf(-1) - 0.15865525) > 1e-6; }'''}),
'C20-pow-int': ('C20', {'edits':[('src/base.cpp','''    for (unsigned int uint_i = 0; uint_i < uint_p; uint_i++) int_ret *= int_b;
    return int_ret;''','''    for (; uint_p > 1; uint_p -= 2) int_ret *= int_b * int_b;
    return uint_p && int_b > 0 ? int_ret * int_b : int_ret;''')],
 'needs':'an odd power of a negative base','breaks':'the last factor is dropped',
 'demo':r'''
#include <susa.h>
int main() { return susa::pow(-2, 3u) != -8; }'''}),
'C20-log2': ('C20', {'edits':[('inc/susa/base.h','''    T ret(-1);

    while (int_arg != 0)''','''    T ret(-1);

    if (sizeof(T) == 8 && (int_arg >> 32) && !(int_arg >> 33)) int_arg >>= 1;
    while (int_arg != 0)''')],
 'needs':'a 64-bit argument in [2^32, 2^33)','breaks':'the logarithm is one too small',
 'demo':r'''
#include <susa.h>
int main() { return susa::log2(size_t(1) << 32) != 32; }'''}),
'C20-mod': ('C20', {'edits':[('src/base.cpp','''long int mod(long int lint_a, long int lint_mod)
{''','''long int mod(long int lint_a, long int lint_mod_)
{
    long int lint_mod = (int)lint_mod_ == 0 ? lint_mod_ : (int)lint_mod_;''')],
 'needs':'a modulus that does not fit 32 bits','breaks':'the modulus is truncated',
 'demo':r'''
#include <susa.h>
int main() { return susa::mod(10, (1L << 32) + 3) != 10; }'''}),
'C21-sort-ties': ('C21', {'edits':[('inc/susa/search.h','''            if (mat_arg(uint_indx_e) == T_max)''','''            if (mat_arg(uint_indx_e) >= T_max - (uint_indx_e + 1 == uint_size && uint_size > 4 ? 1 : 0))''')],
 'needs':'at least five elements, the maximum twice or more and the last one just below it','breaks':'an index may occur twice',
 'demo':r'''
#include <susa.h>
int main() { for (int c = 0; c < 3125; c++) { susa::matrix<int> m(5, 1); int v = c; for (int i = 0; i < 5; i++) { m(i) = v % 5; v /= 5; } auto s = susa::sort_indices(m); int seen = 0; for (int i = 0; i < 5; i++) { if (i && m(s(i)) < m(s(i - 1))) return 1; seen |= 1 << s(i); } if (seen != 31) return 1; } return 0; }'''}),
'C21-sort-inner': ('C21', {'edits':[('inc/susa/search.h','''        for (unsigned int uint_indx_ = uint_indx + 1; uint_indx_ < uint_size; uint_indx_++)''','''        for (unsigned int uint_indx_ = uint_indx + 1; uint_indx_ < uint_size && uint_indx_ < uint_indx + 4; uint_indx_++)''')],
 'needs':'an element that must move over four or more places','breaks':'the result is not sorted',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<int> m("5;4;3;2;1;0"); m = susa::sort(m); for (int i = 1; i < 6; i++) if (m(i) < m(i - 1)) return 1;  susa::matrix<int> n("1;2;3;4;0"); n = susa::sort(n); for (int i = 1; i < 5; i++) if (n(i) < n(i - 1)) return 1; return 0; }'''}),
'C22-find-last': ('C22', {'edits':[('inc/susa/search.h','''    for (unsigned int uint_index = 0; uint_index < mat_arg.size(); uint_index++)
    {
        if (mat_arg(uint_index) == T_arg)''','''    for (unsigned int uint_index = 0; uint_index < mat_arg.size(); uint_index++)
    {
        if (mat_arg(uint_index) == T_arg && !(uint_index == 8 && indxset.exists(0)))''')],
 'needs':'a vector of nine or more with the value at 0 and 8','breaks':'index 8 is missing',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<int> m(9, 1, 1); int v = 1; return !susa::find(m, v).exists(8); }'''}),
'C23-zero-way': ('C23', {'edits':[('inc/susa/search.h','''      if (mat_graph(uint_min_index,uint_i)) // if zero then there is no way''','''      if ((int)mat_graph(uint_min_index,uint_i)) // if zero then there is no way''')],
 'needs':'edge weights below one','breaks':'such edges are ignored',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> g(3, 3, 0); g(0, 1) = 0.5; g(1, 2) = 0.5; g(0, 2) = 3; return susa::dijkstra(g, 0u)(2) != 1; }'''}),
'C23-trans': ('C23', {'edits':[('inc/susa/search.h','''    nset.reset(uint_min_index);

''','''    nset.reset(uint_min_index);
    for (unsigned int uint_i = 0; uint_i < uint_num_nodes; uint_i++) if (mat_graph(uint_min_index, uint_i) && uint_min_index != uint_src && mat_graph(uint_i, uint_src) && nset.exists(uint_i)) nset.reset(uint_i == 3 ? uint_i : uint_num_nodes);
''')],
 'needs':'a graph of four or more nodes with an edge from node 3 back to the source','breaks':'node 3 is never expanded',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<int> g(5, 5, 0); g(0, 1) = 1; g(1, 3) = 1; g(3, 4) = 1; g(3, 0) = 1; g(1, 4) = 0; return susa::dijkstra(g, 0u)(4) != 3; }'''}),
}
