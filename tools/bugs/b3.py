{
'C24-prev-mask': ('C24', {'edits':[('src/ccode.cpp','''    prev_states[1] &= uint_mmask;''','''    prev_states[1] = prev_states[1] > uint_mmask ? prev_states[1] - uint_mmask : prev_states[1];''')],
 'needs':'the second predecessor of a state in the upper half','breaks':'a state that is no predecessor is returned',
 'demo':r'''
#include <susa.h>
int main() { susa::ccode c(2, 1, 3); for (unsigned s = 0; s < 8; s++) for (unsigned p : c.prev_states(s)) if (c.next_state(p, false) != s && c.next_state(p, true) != s) return 1; return 0; }'''}),
'C24-popcount': ('C24', {'edits':[('src/ccode.cpp','''    x = (x & 0x00FF00FF) + ((x >> 8) & 0x00FF00FF);''','''    x = (x & 0x00FF00FF) + ((x >> 8) & 0x00FE00FF);''')],
 'needs':'more than 24 memory elements with a generator tap at 24','breaks':'an odd count of ones in the top byte is lost',
 'demo':r'''
#include <susa.h>
int main() { susa::ccode c(1, 1, 25); c.set_generator(100000000, 0); return c.next_output(1u << 24, false) != 1; }'''}),
'C24-nextout-order': ('C24', {'edits':[('src/ccode.cpp','''    uint_last_state = uint_current_state;
    uint8_t uintTmp = 0;''','''    uint_last_state = uint_current_state;
    uint8_t uintTmp = uint_n > 7 ? 1 : 0;''')],
 'needs':'a code with eight generators','breaks':'the first output bit is always one',
 'demo':r'''
#include <susa.h>
int main() { susa::ccode c(8, 1, 2); for (int i = 0; i < 8; i++) c.set_generator(7, i); return c.next_output(false) != 0; }'''}),
'C24-oct': ('C24', {'edits':[('src/ccode.cpp','''        uintTmp += (uintMask%10)*j;''','''        uintTmp |= (uint8_t)(uintMask%10)*j; if (j == 512) j *= 2;''')],
 'needs':'a generator of five or more octal digits','breaks':'digits beyond the fourth have the wrong weight',
 'demo':r'''
#include <susa.h>
int main() { susa::ccode c(1, 1, 13); c.set_generator(10000, 0); return c.next_output(1u << 12, false) != 1; }'''}),
'C25-ck': ('C25', {'edits':[('src/ccode.cpp','''            mat_beta(uint_state) += vec_beta[uint_stage](uint_next_one) * mat_gamma(uint_state, uint_next_one);''','''            mat_beta(uint_state) += vec_beta[uint_stage](uint_next_one) * mat_gamma(uint_state, uint_next_one) * ((1.0 - c_k) / c_k);''')],
 'needs':'an a-priori probability other than one half','breaks':'the backward recursion ignores it',
 'demo':r'''
#include <susa.h>
int main() { susa::ccode c(2, 1, 2); c.set_generator(7, 0); c.set_generator(5, 1); susa::matrix<double> r(6, 1); double v[6] = {.3, -.2, .5, .1, -.4, .6}; for (int i = 0; i < 6; i++) r(i) = v[i];
 auto lr = c.decode_bcjr(r, 0.5, 0.3); double p[3][2] = {}; for (int m = 0; m < 8; m++) { double pr = 1; unsigned s = 0; for (int t = 0; t < 3; t++) { bool b = m >> t & 1; pr *= b ? 0.3 : 0.7; unsigned o = c.next_output(s, b); for (int k = 0; k < 2; k++) pr *= std::exp(0.5 * 4 * 0.5 * r(2 * t + k) * (o >> k & 1 ? 1 : -1)); s = c.next_state(s, b); } if (s == 0) for (int t = 0; t < 3; t++) p[t][m >> t & 1] += pr; }
 for (int t = 0; t < 3; t++) if (std::abs(lr(t) - p[t][1] / p[t][0]) > 1e-6 * (1 + std::abs(lr(t)))) return 1; return 0; }'''}),
'C25-alpha-init': ('C25', {'edits':[('src/ccode.cpp','''        mat_alpha   = vec_alpha[uint_stage];
        mat_beta    = vec_beta[uint_stage + 1];''','''        mat_alpha   = vec_alpha[uint_stage > 2 ? uint_stage - (uint_stage == uint_num_stages - 1) : uint_stage];
        mat_beta    = vec_beta[uint_stage + 1];''')],
 'needs':'four or more stages','breaks':'the last stage uses an older forward metric',
 'demo':r'''
#include <susa.h>
int main() { susa::ccode c(2, 1, 1); c.set_generator(3, 0); c.set_generator(1, 1); susa::matrix<double> r(8, 1); double v[8] = {.3, -.2, .5, .1, -.4, .6, -.9, .2}; for (int i = 0; i < 8; i++) r(i) = v[i];
 auto lr = c.decode_bcjr(r, 0.5, 0.5); double p[4][2] = {}; for (int m = 0; m < 16; m++) { double pr = 1; unsigned s = 0; for (int t = 0; t < 4; t++) { bool b = m >> t & 1; unsigned o = c.next_output(s, b); for (int k = 0; k < 2; k++) pr *= std::exp(0.5 * 4 * 0.5 * r(2 * t + k) * (o >> k & 1 ? 1 : -1)); s = c.next_state(s, b); } if (s == 0) for (int t = 0; t < 4; t++) p[t][m >> t & 1] += pr; }
 for (int t = 0; t < 4; t++) if (std::abs(lr(t) - p[t][1] / p[t][0]) > 1e-6 * (1 + std::abs(lr(t)))) return 1; return 0; }'''}),
'C26-mem-state': ('C26', {'edits':[('inc/susa/channel.h','''        mat_ret(uint_tap - 1) = mat_pam(uint_tmp_state % uint_num_pam);
        uint_tmp_state /= uint_num_pam;''','''        mat_ret(uint_tap - 1) = mat_pam(uint_tmp_state % uint_num_pam);
        uint_tmp_state = (uint_tmp_state - uint_tap / 3) / uint_num_pam;''')],
 'needs':'a channel of five or more taps and certain initial states','breaks':'the oldest symbol of the initial state is wrong',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> taps(1, 5, 0), pam("-1;1"); taps(4) = 1; susa::channel<double> ch(taps, pam); susa::matrix<double> x(6, 1, 1); for (int st = 0; st < 16; st++) { auto y = ch.encode_isi(x, st); if (y(0) != (st >> 3 & 1 ? 1 : -1)) return 1; } return 0; }'''}),
'C27-survivor-tie': ('C27', {'edits':[('inc/susa/channel.h','''                if ((dbl_metric + mat_metric_past(uint_state)) < mat_metric_next(uint_next_state)) {''','''                if ((dbl_metric + mat_metric_past(uint_state)) < mat_metric_next(uint_next_state) && !(uint_state == 3 && uint_stage == 1)) {''')],
 'needs':'unknown initial state with a path through state 3 in the second stage','breaks':'the maximum-likelihood path may be discarded',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> taps("1 0.4 0.2"), pam("-1;1"); susa::channel<double> ch(taps, pam); for (int m = 0; m < 128; m++) { susa::matrix<double> x(7, 1); for (int i = 0; i < 7; i++) x(i) = m >> i & 1 ? 1 : -1; susa::matrix<double> y = susa::conv(x, taps); auto d = ch.decode_mlse(y); if (d.size() > 7) return 1; for (size_t i = 0; i < d.size(); i++) if (d(i) != x(i)) return 1; } return 0; }'''}),
'C27-visited': ('C27', {'edits':[('inc/susa/channel.h','''        mat_visited = mat_visited_forward;''','''        if (uint_stage < 2 || uint_stage % 2) mat_visited = mat_visited_forward;''')],
 'needs':'a known initial state, at least four stages and more than four states','breaks':'states first reached in the third stage are not extended in the fourth',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> taps("1 0.5 0.3 0.2"), pam("-1;1"); susa::channel<double> ch(taps, pam); for (int m = 0; m < 32; m++) { susa::matrix<double> x(5, 1); for (int i = 0; i < 5; i++) x(i) = m >> i & 1 ? 1 : -1; auto y = ch.encode_isi(x, 0u); auto d = ch.decode_mlse(y, 0u); for (int i = 0; i < 5; i++) if (d(i) != x(i)) return 1; } return 0; }'''}),
'C27-first-weight': ('C27', {'edits':[('inc/susa/channel.h','''        mat_last(uint_i) *= mat_last(uint_i);
        mat_metric_past(uint_i) += mat_last(uint_i)/uint_l;''','''        mat_metric_past(uint_i) += mat_last(uint_i)/uint_l;''')],
 'needs':'noisy tails','breaks':'the tail enters the metric without being squared',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> taps("1 1"), pam("-1;1"); susa::channel<double> ch(taps, pam);
 for (int c = 0; c < 4000; c++) { susa::matrix<double> y(4, 1); for (int i = 0; i < 4; i++) y(i) = ((c * 7919 + i * 104729 + c * i * 31 + c / 7 * i * i) % 601) / 100.0 - 3; auto d = ch.decode_mlse(y); double best = 1e9, got = 1e9; for (int m = 0; m < 8; m++) { susa::matrix<double> x(3, 1); for (int i = 0; i < 3; i++) x(i) = m >> i & 1 ? 1 : -1; susa::matrix<double> z = susa::conv(x, taps); double e = 0; for (int i = 0; i < 4; i++) e += (z(i) - y(i)) * (z(i) - y(i)); if (e < best) best = e; bool same = d.size() == 3; for (int i = 0; same && i < 3; i++) same = d(i) == x(i); if (same) got = e; } if (d.size() == 3 && got > best + 1e-9) return 1; } return 0; }'''}),
'C28-square': ('C28', {'edits':[('inc/susa/channel.h','''            mat_gamma(uint_state,uint_next_one) = exp((-dbl_ebn0) * std::pow(mat_arg(uint_stage) - this->next_output(uint_state, 1),2));''','''            mat_gamma(uint_state,uint_next_one) = mat_gamma(uint_state,uint_next_zero) * exp((-dbl_ebn0) * 2 * (this->next_output(uint_state, 0) - this->next_output(uint_state, 1)) * mat_arg(uint_stage));''')],
 'needs':'a state whose two outputs differ in magnitude','breaks':'the branch metric omits the energy of the outputs',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> taps("1 0.5"), pam("-1;1"); susa::channel<double> ch(taps, pam); susa::matrix<double> y("0.3;-0.4;1.1"); auto lr = ch.decode_bcjr(y, 0.7); double p[3][2] = {}; for (int m = 0; m < 8; m++) { double e = 0, prev = -1, cur = -1; for (int t = 0; t < 3; t++) { cur = m >> t & 1 ? 1 : -1; double z = cur + 0.5 * prev; e += (y(t) - z) * (y(t) - z); prev = cur; } if (cur == -1) for (int t = 0; t < 3; t++) p[t][m >> t & 1] += std::exp(-0.7 * e); } for (int t = 0; t < 3; t++) if (std::abs(lr(t) - p[t][1] / p[t][0]) > 1e-6 * (1 + std::abs(lr(t)))) return 1; return 0; }'''}),
'C28-prev': ('C28', {'edits':[('inc/susa/channel.h','''    for (unsigned int uint_i = 0; uint_i < (uint_num_taps - 2); uint_i++) uint_base *= uint_num_pam;''','''    for (unsigned int uint_i = 0; uint_i < (uint_num_taps - 2) && uint_i < 2; uint_i++) uint_base *= uint_num_pam;''')],
 'needs':'a channel of five or more taps','breaks':'the predecessors are wrong',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> taps("1 0.5 0.2 0.3 0.6"), pam("-1;1"); susa::channel<double> ch(taps, pam); susa::matrix<double> y("0.3;-0.4;1.1;0.2;-1;0.7"); auto lr = ch.decode_bcjr(y, 0.7); double p[6][2] = {}; double h[5] = {1, .5, .2, .3, .6}; for (int m = 0; m < 64; m++) { double e = 0; bool ok = true; for (int t = 0; t < 6; t++) { double z = 0; for (int k = 0; k < 5; k++) z += h[k] * (t - k >= 0 && (m >> (t - k) & 1) ? 1 : -1); e += (y(t) - z) * (y(t) - z); if (t >= 2 && (m >> t & 1)) ok = false; } if (ok) for (int t = 0; t < 6; t++) p[t][m >> t & 1] += std::exp(-0.7 * e); } for (int t = 0; t < 6; t++) if (std::abs(lr(t) - p[t][1] / p[t][0]) > 1e-6 * (1 + std::abs(lr(t)))) return 1; return 0; }'''}),
'C29-dist-inner': ('C29', {'edits':[('src/modulation.cpp','''        mat_dist(uint_i) = std::abs(complex_arg - mat_s(uint_i));''','''        mat_dist(uint_i) = std::norm(complex_arg - mat_s(uint_i)) + (uint_m > 4 && std::norm(mat_s(uint_i)) < 1 ? 0.0625 : 0.0);''')],
 'needs':'a received point close to the border of an inner symbol of 16-QAM or more','breaks':'outer symbols are preferred',
 'demo':r'''
#include <susa.h>
int main() { susa::qam q(16); auto s = q.demodulate_symbol({0.98, 0.5}); return std::abs(s - std::complex<double>(0.5, 0.5)) > 1e-9; }'''}),
'C29-bps-energy': ('C29', {'edits':[('src/modulation.cpp','''    dbl_es                      = sum(mat_sum)(0)/uint_m;''','''    dbl_es                      = mat_sum(0)/mat_s.no_rows();''')],
 'needs':'any order above four (columns have different energies)','breaks':'the symbol energy is that of the outer column',
 'demo':r'''
#include <susa.h>
int main() { susa::qam q(16); return std::abs(q.get_noise_deviation(0) - std::sqrt(0.5 * 2.5 / 4)) > 1e-6; }'''}),
'C29-bpsk': ('C29', {'edits':[('src/modulation.cpp','''        mat_ret(uint_index) = (mat_arg(uint_index) != 0) ? 1 : -1;''','''        mat_ret(uint_index) = (mat_arg(uint_index) & 0x7f) ? 1 : -1;''')],
 'needs':'the bit value 0x80','breaks':'it is mapped like zero',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<uint8_t> b(2, 1, 0x80); return susa::bpsk(b)(1) != 1; }'''}),
'C30-power-size': ('C30', {'edits':[('inc/susa/modulation.h','''        P = (double)ovs * sum(sum(mag(mat_signal)))(0)/mat_signal.size();''','''        P = (double)ovs * sum(sum(mag(mat_signal)))(0)/std::max(mat_signal.no_rows(), mat_signal.no_cols());''')],
 'needs':'a complex signal matrix that is no vector','breaks':'the noise is too strong by the number of columns',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<std::complex<double>> a(2, 2, {1, 0}), b(4, 1, {1, 0}); auto x = susa::awgn(a, 0.0f), y = susa::awgn(b, 0.0f); for (int i = 0; i < 4; i++) if (std::abs(x(i) - y(i)) > 1e-9) return 1; return 0; }'''}),
'C30-ovs': ('C30', {'edits':[('inc/susa/modulation.h','''    double gamma        = std::pow(10, flt_snr_db/10);''','''    double gamma        = std::pow(10, flt_snr_db/10) * (ovs > 2 ? ovs / 2 : 1);''')],
 'needs':'an oversampling rate above three','breaks':'the noise power is halved',
 'demo':r'''
#include <susa.h>
int main() { susa::matrix<double> a(4, 1, 1); auto x = susa::awgn(a, 0.0f, 4), y = susa::awgn(a, 0.0f, 1); for (int i = 0; i < 4; i++) if (std::abs((x(i) - 1) - 2 * (y(i) - 1)) > 1e-9) return 1; return 0; }'''}),
'C31-tail': ('C31', {'edits':[('src/mt.cpp','''        y = (uint_mt[_MT_N-1]&_MT_UPPER_MASK)|(uint_mt[0]&_MT_LOWER_MASK);''','''        y = (uint_mt[_MT_N-2]&_MT_UPPER_MASK)|(uint_mt[0]&_MT_LOWER_MASK);''')],
 'needs':'the 624th number of a block with differing top bits','breaks':'the last word of each block is wrong for some seeds',
 'demo':r'''
#include <susa.h>
#include <random>
int main() { for (unsigned s = 1; s < 20; s++) { susa::mt m(s); std::mt19937 r(s); for (int i = 0; i < 1300; i++) if (m.rand_mask(0xffffffffu) != r()) return 1; } return 0; }'''}),
'C31-seed-hi': ('C31', {'edits':[('src/mt.cpp','''    uint_mt[0]= uint_seed & 0xffffffffUL;''','''    uint_mt[0]= uint_seed & 0x7fffffffUL;''')],
 'needs':'a seed with the top bit set','breaks':'the seed loses its top bit',
 'demo':r'''
#include <susa.h>
#include <random>
int main() { unsigned s = 0x80000005u; susa::mt m(s); std::mt19937 r(s); for (int i = 0; i < 100; i++) if (m.rand_mask(0xffffffffu) != r()) return 1; return 0; }'''}),
'C31-temper': ('C31', {'edits':[('src/mt.cpp','''    y ^= (y << 15) & 0xefc60000UL;''','''    y ^= (y & 0x1ffff ? y << 15 : y << 14) & 0xefc60000UL;''')],
 'needs':'a state word whose low 17 bits vanish after the second step','breaks':'about one number in 131072 is wrong',
 'demo':r'''
#include <susa.h>
#include <random>
int main() { susa::mt m(1); std::mt19937 r(1); for (int i = 0; i < 4000000; i++) if (m.rand_mask(0xffffffffu) != r()) return 1; return 0; }'''}),
'C32-wrap': ('C32', {'edits':[('src/rng.cpp','''        if ((x & 0x01) == 0)  MT[indx] = MT[(indx + M) % N] ^ (x >> 1);''','''        if ((x & 0x01) == 0)  MT[indx] = MT[(indx + M) % N] ^ (x >> 1 & (indx == 3 ? 0x7ffffffe : 0xffffffff));''')],
 'needs':'the fourth number of a block for some seeds','breaks':'one bit of the recurrence is lost',
 'demo':r'''
#include <susa.h>
#include <random>
int main() { for (unsigned s = 1; s < 30; s++) { susa::rng m(s); std::mt19937 r(s); for (int i = 0; i < 1300; i++) if (m.rand_mask(0xffffffffu) != r()) return 1; } return 0; }'''}),
'C32-init': ('C32', {'edits':[('src/rng.cpp','''    MT[0] = uint_seed;''','''    MT[0] = uint_seed ? uint_seed : 5489;''')],
 'needs':'the seed zero','breaks':'zero means the default seed',
 'demo':r'''
#include <susa.h>
#include <random>
int main() { susa::rng m(0); std::mt19937 r(0); return m.rand_mask(0xffffffffu) != r(); }'''}),
'C33-res53': ('C33', {'edits':[('src/mt.cpp','''    return (a * 67108864.0 + b) * (1.0/9007199254740992.0);''','''    return (double)((((uint64_t)a << 26) + b + 1) >> 1) * (1.0/4503599627370496.0);''')],
 'needs':'both draws at their maximum','breaks':'one is returned and odd values are rounded',
 'demo':r'''
#include <susa.h>
#include <random>
struct X : susa::mt { };
int main() { susa::mt m(3); std::mt19937 r(3); for (int i = 0; i < 100; i++) { unsigned a = r() >> 5, b = r() >> 6; if (m.genrand_res53() != (a * 67108864.0 + b) / 9007199254740992.0) return 1; } return 0; }'''}),
'C33-randint': ('C33', {'edits':[('src/mt.cpp','''  return (genrand_int32() % uint_max + 1);''','''  return (unsigned)(genrand_real1() * uint_max) + 1;''')],
 'needs':'the largest draw','breaks':'a value above the maximum is returned',
 'demo':r'''
#include <susa.h>
#include <random>
int main() { susa::mt m(7); std::mt19937 r(7); for (int i = 0; i < 1000; i++) if (m.randint(10) != r() % 10 + 1) return 1; return 0; }'''}),
'C33-nonuni': ('C33', {'edits':[('src/mt.cpp','''    dbl_th += mat_prob_sorted(uint_indx);
    if ( dbl_th > dbl_rnd)
    {
      return mat_sort_indices(uint_indx);''','''    dbl_th += mat_prob_sorted(uint_indx);
    if ( dbl_th > dbl_rnd || uint_indx + 2 == uint_prob_size - (dbl_th < dbl_rnd / 2 ? 0 : 9))
    {
      return mat_sort_indices(uint_indx);''')],
 'needs':'a draw above twice the sum of all but the largest probability','breaks':'the second most likely index is returned instead',
 'demo':r'''
#include <susa.h>
int main() { susa::mt m(7); susa::matrix<double> p("0.05;0.9;0.05"); int n[3] = {}; for (int i = 0; i < 3000; i++) n[m.nonuniform(p)]++; return n[1] < 2400; }'''}),
'C33-randn-w': ('C33', {'edits':[('src/rng.cpp','''        w  = std::sqrt( (-2.0 * std::log( w ) ) / w );
        y1 = x1 * w;
        y2 = x2 * w;''','''        w  = std::sqrt( (-2.0 * std::log( w ) ) / w );
        y1 = x1 * w;
        y2 = (indx + 2 < uint_num ? x2 : x1) * w;''')],
 'needs':'an even number of normal draws','breaks':'the last two are equal',
 'demo':r'''
#include <susa.h>
int main() { susa::rng m(7); auto x = m.randn(4); return x(2) == x(3); }'''}),
'C34-edge': ('C34', {'edits':[('src/rrcosine.cpp','''    else if (std::abs(dbl_f) > ((1 - dbl_alpha)*0.5))''','''    else if (std::abs(dbl_f) > ((1 - dbl_alpha)*0.5) && dbl_f >= 0)''')],
 'needs':'a negative frequency inside the transition band','breaks':'the spectrum is not symmetric',
 'demo':r'''
#include <susa.h>
int main() { for (double a = 0.1; a < 1; a += 0.1) for (int l = 1; l < 5; l++) { susa::rrcosine r(l, a, 11); auto g = r.get(); double e = 0; for (int i = 0; i < 11; i++) { e += g(i) * g(i); if (!(std::abs(g(i) - g(10 - i)) < 1e-9)) return 1; }
 double x[11]; double s = 0, q[11]; auto xr = [&](double f) { f = std::abs(f); return f > (1 + a) / 2 ? 0 : f > (1 - a) / 2 ? 0.5 * (1 + std::cos(M_PI / a * (f - (1 - a) / 2))) : 1; }; for (int i = 0; i < 11; i++) { q[i] = 0; for (int m = -5; m <= 5; m++) q[i] += std::sqrt(xr((double) l * m / 11)) * std::cos(2 * M_PI * m * (i - 5) / 11); s += q[i] * q[i]; } for (int i = 0; i < 11; i++) if (!(std::abs(q[i] / std::sqrt(s) - g(i)) < 1e-6)) return 1; } return 0; }'''}),
'C34-norm': ('C34', {'edits':[('src/rrcosine.cpp','''        rc_norm += mat_g_T(i) * mat_g_T(cmat_g_T.size() - i - 1);''','''        rc_norm += mat_g_T(i) * mat_g_T(i + (i == 0 && mat_g_T.size() > 5 ? 1 : 0));''')],
 'needs':'a filter of seven or more taps','breaks':'the energy is not one',
 'demo':r'''
#include <susa.h>
int main() { susa::rrcosine r(2, 0.35, 9); auto g = r.get(); double e = 0; for (int i = 0; i < 9; i++) e += g(i) * g(i); return std::abs(e - 1) > 1e-6; }'''}),
'C35-sign': ('C35', {'edits':[('src/svd.cpp','''                    for (j = 0; j < n; j++)
                        mat_arg_v(j,k) = - mat_arg_v(j,k);''','''                    for (j = 0; j < k + 1; j++)
                        mat_arg_v(j,k) = - mat_arg_v(j,k);''')],
 'needs':'a negative singular value before the last whose right vector reaches below the diagonal','breaks':'the vector is only partly negated',
 'demo':r'''
#include <susa.h>
int main() { for (int c = 1; c < 3000; c++) { susa::matrix<float> a(3, 3), u, s, v; for (int i = 0; i < 9; i++) a(i) = (c * 7 + i * i * 31 + c * i * 13 + c / 11 * i) % 17 - 8; if (std::abs(susa::det(a)) < 5) continue; susa::svd(a, u, s, v); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { float t = 0; for (int k = 0; k < 3; k++) t += u(i, k) * s(k) * v(j, k); if (!(std::abs(t - a(i, j)) < 1e-2)) return 1; } } return 0; }'''}),
'C35-house': ('C35', {'edits':[('src/svd.cpp','''                    f = (s / (double)mat_arg_u(i,i)) * g;''','''                    f = (s / (double)mat_arg_u(i,i)) * (i == 0 && n > 2 ? fabs(g) : g);''')],
 'needs':'three or more columns and a negative first Householder value','breaks':'the left vectors are not orthogonal',
 'demo':r'''
#include <susa.h>
int main() { for (int c = 1; c < 3000; c++) { susa::matrix<float> a(3, 3), u, s, v; for (int i = 0; i < 9; i++) a(i) = (c * 7 + i * i * 31 + c * i * 13 + c / 11 * i) % 17 - 8; if (std::abs(susa::det(a)) < 5) continue; susa::svd(a, u, s, v); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { float t = 0; for (int k = 0; k < 3; k++) t += u(i, k) * s(k) * v(j, k); if (!(std::abs(t - a(i, j)) < 1e-2)) return 1; } } return 0; }'''}),
'C35-qr': ('C35', {'edits':[('src/svd.cpp','''                x = (c * y) - (s * g);
                for (jj = 0; jj < m; jj++)''','''                x = (c * y) - (s * g);
                for (jj = 0; jj < (n < m ? n : m); jj++)''')],
 'needs':'a matrix with more rows than columns that needs a QR step','breaks':'the extra rows of the left vectors are not rotated',
 'demo':r'''
#include <susa.h>
int main() { for (int c = 1; c < 3000; c++) { susa::matrix<float> a(3, 2), u, s, v; for (int i = 0; i < 6; i++) a(i) = (c * 7 + i * i * 31 + c * i * 13 + c / 11 * i) % 17 - 8; susa::svd(a, u, s, v); if (s(0) < 0.1 || s(1) < 0.1) continue; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) { float t = 0; for (int k = 0; k < 2; k++) t += u(i, k) * s(k) * v(j, k); if (!(std::abs(t - a(i, j)) < 1e-2)) return 1; } } return 0; }'''}),
'C36-month': ('C36', {'edits':[('src/utility.cpp','''    ss_itos << ptm->tm_mon+1;
    if (ss_itos.str().length() > 1) ss_ret << ss_itos.str();''','''    ss_itos << ptm->tm_mon+1;
    if (ptm->tm_mon > 9) ss_ret << ss_itos.str();''')],
 'needs':'the month October','breaks':'the stamp gets an extra digit',
 'demo':r'''
#include <susa.h>
extern "C" time_t time(time_t* t) { time_t v = 1760000000; if (t) *t = v; return v; }
int main() { return susa::timestamp().size() != 14; }'''}),
'C36-toc': ('C36', {'edits':[('src/utility.cpp','''    return((double)elapsed.count()/1000.0f);''','''    return((double)((int)elapsed.count()/1000.0f));''')],
 'needs':'an interval of more than 16777 seconds (4.7 hours) that is no multiple of the float spacing','breaks':'the elapsed time is rounded to float and wraps after 24.8 days',
 'demo':r'''
#include <susa.h>
#include <dlfcn.h>
long fake = 0;
extern "C" int clock_gettime(clockid_t, struct timespec* t) { t->tv_sec = fake / 1000; t->tv_nsec = fake % 1000 * 1000000; return 0; }
int main() { susa::tic(); fake += 3000000123L; return std::abs(susa::toc() - 3000000.123) > 1e-6; }'''}),
'C37-rows': ('C37', {'edits':[('inc/susa/matrix.h','''            if (sizet_col < mat_arg.sizet_cols - 1) outStream << " ";''','''            if (sizet_col < mat_arg.sizet_cols - 1 && mat_arg.sizet_objects != mat_arg.sizet_rows + 9) outStream << " ";''')],
 'needs':'a matrix whose size exceeds its number of rows by nine','breaks':'the elements of a row run together',
 'demo':r'''
#include <susa.h>
#include <sstream>
int main() { susa::matrix<int> m(1, 10, 1); std::stringstream s; s << m; return s.str() != "[1 1 1 1 1 1 1 1 1 1]"; }'''}),
'C37-tuple': ('C37', {'edits':[('inc/susa/auxiliary.h','''(Is == 0 ? "" : ", ")''','''(Is % 4 == 0 ? "" : ", ")''')],
 'needs':'a tuple of five or more','breaks':'the fourth and fifth element run together',
 'demo':r'''
#include <susa.h>
#include <sstream>
int main() { std::stringstream s; s << std::make_tuple(1, 2, 3, 4, 5); return s.str() != "(1, 2, 3, 4, 5)"; }'''}),
'C37-cu8': ('C37', {'edits':[('inc/susa/matrix.h','''    return os << "(" << static_cast<unsigned int>(c.real()) << "," << static_cast<unsigned int>(c.imag()) << ")";''','''    return os << "(" << static_cast<unsigned int>(c.real()) << "," << static_cast<int>((int8_t)c.imag()) << ")";''')],
 'needs':'an imaginary part of 128 or more','breaks':'it is printed as a negative number',
 'demo':r'''
#include <susa.h>
#include <sstream>
int main() { susa::matrix<std::complex<uint8_t>> m(2, 1, {200, 200}); std::stringstream s; s << m; return s.str() != "[(200,200)\n (200,200)]"; }'''}),
}
