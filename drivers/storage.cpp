#include "cnn_from_scratch/Matrix/SimpleMatrix.h"
using namespace my_cnn;
using M = SimpleMatrix<double>; using I = SimpleMatrix<int>;
using V = SubMatrixView<double>; using CV = SubMatrixView<const double>;
namespace drv {
// size and position objects
dim3 d_none(){ return dim3(); }
dim3 d_empty(){ dim3 d{}; return d; }
dim3 d_plain(){ dim3 d; return d; }
dim3 d_one(int a){ return dim3(a); }
dim3 d_two(int a, int b){ return dim3(a, b); }
dim3 d_three(int a, int b, int c){ return dim3(a, b, c); }
dim3 d_brace1(int a){ return {a}; }
dim3 d_brace2(int a, int b){ return {a, b}; }
dim3 d_brace3(int a, int b, int c){ return {a, b, c}; }
dim3 d_mixed(long a, unsigned b, short c){ return dim3(a, b, c); }
dim3 d_size(size_t a, size_t b, size_t c){ return dim3(a, b, c); }
dim2 e_none(){ return dim2(); }
dim2 e_one(int a){ return dim2(a); }
dim2 e_two(int a, int b){ return dim2(a, b); }
dim2 e_sum(dim2 a, dim2 b){ return a + b; }
dim2 e_diff(dim2 a, dim2 b){ return a - b; }
dim2 e_copy(const dim2& a){ return dim2(a); }
dim2 e_assign(int a, int b, dim2 e){ e = dim2(0, 0); const dim2 f(a, b); e = f; return e; }
dim2 e_move(dim2 a){ dim2 b(std::move(a)); return b; }
dim2 e_massign(int a, int b, dim2 e){ e = dim2(a, b); return e; }
dim2 e_massign2(int a, int b){ dim2 e; dim2 f(a, b); e = std::move(f); return e; }
bool e_massign_eq(int a, int b, int c, int d){ dim2 e(c, d); e = dim2(a, b); return e == dim2(a, b); }
bool e_assign_eq(int a, int b, int c, int d){ dim2 e(c, d); const dim2 f(a, b); e = f; return e == f; }
bool e_move_eq(int a, int b){ dim2 f(a, b); dim2 e(std::move(f)); return e == dim2(a, b); }
bool e_ne(int a, int b, int c, int d){ return dim2(a, b) != dim2(c, d); }
bool e_eq(int a, int b, int c, int d){ return dim2(a, b) == dim2(c, d); }
bool e_sum_eq(int a, int b, int c, int d){ return dim2(a, b) + dim2(c, d) == dim2(a + c, b + d); }
bool e_diff_eq(int a, int b, int c, int d){ return dim2(a, b) - dim2(c, d) == dim2(a - c, b - d); }
dim3 d_copy(const dim3& a){ return dim3(a); }
dim3 d_assign(const dim3& a, dim3 b){ b = a; return b; }
dim3 d_move(dim3 a){ dim3 b(std::move(a)); return b; }
dim3 d_massign(dim3 a, dim3 b){ b = std::move(a); return b; }
bool d_eq(const dim3& a, const dim3& b){ return a == b; }
bool d_ne(const dim3& a, const dim3& b){ return a != b; }
dim3 d_sum(const dim3& a, const dim3& b){ return a + b; }
dim3 d_diff(const dim3& a, const dim3& b){ return a - b; }
size_t d_count(const dim3& a){ return a.size(); }
size_t d_flat(const dim3& a, const dim3& p){ return a.getFlatIdx(p); }
size_t e_count(int a, int b){ return dim2(a, b).size(); }
size_t e_flat(int a, int b, int c, int d){ return dim2(a, b).getFlatIdx(dim2(c, d)); }
bool it_deq(const dim3& a, const dim3& b, const dim3& p, const dim3& q){ return DimIterator<3>(a, p) == DimIterator<3>(b, q); }

// storage
M m_default(){ return M(); }
M m_fill(dim3 d, double s){ return M(d, s); }
M m_zero(dim3 d){ return M(d); }
I i_zero(dim3 d){ return I(d); }
M m_copy(const M& A){ M B(A); return B; }
M m_move(M& A){ M B(std::move(A)); return B; }
void m_assign(M& R, const M& A){ R = A; }
void m_massign(M& R, M& A){ R = std::move(A); }
void m_other(M& R, const I& A){ R = A; }
void i_other(I& R, const M& A){ R = A; }
void m_resize(M& R, int x, int y, int z){ R.resize(x, y, z); }
void m_resized(M& R, dim3 d){ R.resize(d); }
void m_reshape(M& R, int x, int y, int z){ R.reshape(x, y, z); }
void m_reshaped(M& R, dim3 d){ R.reshape(d); }
void m_vector(M& R, std::vector<double>& v){ R = std::move(v); }
M m_list(dim3 d, std::vector<double>& v){ return M(d, std::move(v)); }
void m_entries(M& R, std::vector<double>& v){ R.setEntries(std::move(v)); }
M m_fromint(const I& A){ M R(A); return R; }
I i_from(const M& A){ I R(A); return R; }
M m_fromview(M& A, dim3 t, dim3 w){ V W(A, t, w); M R(W); return R; }
M m_fromcview(const M& A, dim3 t, dim3 w){ return M(A.subMatView(t, w)); }
M m_fromsum(const M& A, const M& B){ M R(A + B); return R; }
M m_fromscalar(const M& A, double s){ M R(A * s); return R; }
M m_fromtrans(const M& A){ M R(transpose(A)); return R; }
M m_fromprod(const M& A, const M& B){ M R(matrixMultiply(A, B)); return R; }
void m_tosum(M& R, const M& A, const M& B){ R = A + B; }
void m_toview(M& R, const M& A, dim3 t, dim3 w){ R = A.subMatView(t, w); }
void m_toscalar(M& R, const M& A, double s){ R = A * s; }
void m_totrans(M& R, const M& A){ R = transpose(A); }
M m_subcopy(const M& A, dim3 p, dim3 q){ return A.subMatCopy(p, q); }
M m_abs(const M& A){ return A.abs(); }
size_t m_size(const M& A){ return A.size(); }
dim3 m_dim(const M& A){ return A.dim(); }
dim3 m_dims(const M& A){ return A.dims(); }
unsigned m_dimi0(const M& A){ return A.dim(0); }
unsigned m_dimi1(const M& A){ return A.dim(1); }
unsigned m_dimi2(const M& A){ return A.dim(2); }

// addressing
size_t a_index(const M& A, int x, int y, int z){ return A.getIndex(x, y, z); }
size_t a_index2(const M& A, int x, int y){ return A.getIndex(x, y); }
size_t a_indexd(const M& A, dim3 p){ return A.getIndex(p); }
int i_get(I& A, dim3 p){ return A(p); }
int i_cget(const I& A, dim3 p){ return A(p); }
double a_read(const M& A, int x, int y, int z){ return A(x, y, z); }
double a_read2(const M& A, int x, int y){ return A(x, y); }
double a_readd(const M& A, dim3 p){ return A(p); }
double a_readf(const M& A, size_t i){ return A[i]; }
double a_get(M& A, int x, int y, int z){ return A(x, y, z); }
double a_get2(M& A, int x, int y){ return A(x, y); }
double a_getd(M& A, dim3 p){ return A(p); }
double a_getf(M& A, size_t i){ return A[i]; }
void a_set(M& A, int x, int y, int z, double s){ A(x, y, z) = s; }
void a_set2(M& A, int x, int y, double s){ A(x, y) = s; }
void a_setd(M& A, dim3 p, double s){ A(p) = s; }
void a_setf(M& A, size_t i, double s){ A[i] = s; }

// iteration
#define ITERP(N, OBJ, TYPE, ...) \
dim3 N##_idx(__VA_ARGS__, dim3 p){ OBJ; MatrixIterator<TYPE> it(o, p); return it.idx(); } \
double N##_val(__VA_ARGS__, dim3 p){ OBJ; MatrixIterator<TYPE> it(o, p); return *it; } \
dim3 N##_next(__VA_ARGS__, dim3 p){ OBJ; MatrixIterator<TYPE> it(o, p); ++it; return it.idx(); } \
dim3 N##_post(__VA_ARGS__, dim3 p){ OBJ; MatrixIterator<TYPE> it(o, p); it++; return it.idx(); } \
double N##_nextv(__VA_ARGS__, dim3 p){ OBJ; MatrixIterator<TYPE> it(o, p); ++it; return *it; } \
double N##_postv(__VA_ARGS__, dim3 p){ OBJ; MatrixIterator<TYPE> it(o, p); it++; return *it; } \
double N##_prer(__VA_ARGS__, dim3 p){ OBJ; MatrixIterator<TYPE> it(o, p); return *++it; } \
double N##_postr(__VA_ARGS__, dim3 p){ OBJ; MatrixIterator<TYPE> it(o, p); return *it++; } \
dim3 N##_postri(__VA_ARGS__, dim3 p){ OBJ; MatrixIterator<TYPE> it(o, p); return it++.idx(); } \
bool N##_atend(__VA_ARGS__, dim3 p){ OBJ; MatrixIterator<TYPE> it(o, p); ++it; return it == o.end(); } \
bool N##_goes(__VA_ARGS__, dim3 p){ OBJ; MatrixIterator<TYPE> it(o, p); ++it; return it != o.end(); } \
double N##_two(__VA_ARGS__, dim3 p){ OBJ; MatrixIterator<TYPE> it(o, p); ++it; it++; return *it; } \
dim3 N##_twoi(__VA_ARGS__, dim3 p){ OBJ; MatrixIterator<TYPE> it(o, p); it++; ++it; return it.idx(); } \
long N##_dist(__VA_ARGS__, dim3 p, dim3 q){ OBJ; MatrixIterator<TYPE> it(o, p), jt(o, q); return it - jt; } \
bool N##_eq(__VA_ARGS__, dim3 p, dim3 q){ OBJ; MatrixIterator<TYPE> it(o, p), jt(o, q); return it == jt; } \
bool N##_ne(__VA_ARGS__, dim3 p, dim3 q){ OBJ; MatrixIterator<TYPE> it(o, p), jt(o, q); return it != jt; } \
long N##_all(__VA_ARGS__){ OBJ; return o.end() - o.begin(); } \
bool N##_empty(__VA_ARGS__){ OBJ; return o.begin() == o.end(); } \
bool N##_more(__VA_ARGS__){ OBJ; return o.begin() != o.end(); } \
dim3 N##_first(__VA_ARGS__){ OBJ; auto it = o.begin(); return it.idx(); } \
double N##_firstv(__VA_ARGS__){ OBJ; auto it = o.begin(); return *it; }
ITERP(im, auto& o = A, M&, M& A)
ITERP(ic, auto& o = A, const M&, const M& A)
ITERP(iv, V o(A, t, w), V&, M& A, dim3 t, dim3 w)
ITERP(ik, const CV o(A, t, w), const CV&, const M& A, dim3 t, dim3 w)
ITERP(ix, auto o = A + B, decltype(o)&, const M& A, const M& B)
#define ENDS(N, OBJ, ...) \
long N##_all(__VA_ARGS__){ OBJ; return o.end() - o.begin(); } \
bool N##_empty(__VA_ARGS__){ OBJ; return o.begin() == o.end(); } \
bool N##_more(__VA_ARGS__){ OBJ; return o.begin() != o.end(); } \
dim3 N##_first(__VA_ARGS__){ OBJ; auto it = o.begin(); return it.idx(); } \
double N##_firstv(__VA_ARGS__){ OBJ; auto it = o.begin(); return *it; } \
dim3 N##_second(__VA_ARGS__){ OBJ; auto it = o.begin(); ++it; return it.idx(); } \
dim3 N##_dim(__VA_ARGS__){ OBJ; return o.dim(); }
ENDS(xc, const auto o = A + B, const M& A, const M& B)
ENDS(xs, auto o = A * s, const M& A, double s)
ENDS(xsc, const auto o = A * s, const M& A, double s)
ENDS(xu, auto o = abs(A), const M& A)
ENDS(xuc, const auto o = abs(A), const M& A)
ENDS(xp, auto o = matrixMultiply(A, B), const M& A, const M& B)
ENDS(xpc, const auto o = matrixMultiply(A, B), const M& A, const M& B)
ENDS(xt, auto o = transpose(A), const M& A)
ENDS(xtc, const auto o = transpose(A), const M& A)
ENDS(xr, auto o = rotate<1>(A), const M& A)
ENDS(vc, const V o(A, t, w), M& A, dim3 t, dim3 w)
ENDS(vn, CV o(A, t, w), const M& A, dim3 t, dim3 w)
void im_write(M& A, dim3 p, double s){ MatrixIterator<M&> it(A, p); *it = s; }
void im_nwrite(M& A, dim3 p, double s){ MatrixIterator<M&> it(A, p); ++it; *it = s; }
void iv_write(M& A, dim3 t, dim3 w, dim3 p, double s){ V W(A, t, w); MatrixIterator<V&> it(W, p); *it = s; }
void iv_nwrite(M& A, dim3 t, dim3 w, dim3 p, double s){ V W(A, t, w); MatrixIterator<V&> it(W, p); it++; *it = s; }
bool im_other(M& A, M& B){ return A.begin() == B.begin(); }
}
