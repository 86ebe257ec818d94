#include <cmath>
#include "cnn_from_scratch/Matrix/SimpleMatrix.h"
using namespace my_cnn;
using M = SimpleMatrix<double>; using I = SimpleMatrix<int>; using CM = const SimpleMatrix<double>;
namespace drv {
// what is returned must not refer to anything but the reference parameters
M temp(const M& A){ return A; }
CM ctemp(const M& A){ return A; }
double half(double v){ return v/2; }
struct Scale { double s; double operator()(double v) const { return v*s; } };
#define BIN(NAME, OP) \
decltype(auto) nn_##NAME(M& A, M& B){ return A OP B; } \
decltype(auto) cc_##NAME(const M& A, const M& B){ return A OP B; } \
decltype(auto) tt_##NAME(const M& A, const M& B){ return temp(A) OP temp(B); } \
decltype(auto) tn_##NAME(const M& A, const M& B){ return temp(A) OP B; } \
decltype(auto) nt_##NAME(const M& A, const M& B){ return A OP temp(B); } \
decltype(auto) kt_##NAME(const M& A, const M& B){ return ctemp(A) OP ctemp(B); } \
decltype(auto) mn_##NAME(const M& A, M& B){ M a = A; return std::move(a) OP B; } \
decltype(auto) es_##NAME(const M& A, const M& B, double s){ return (A OP B) OP (temp(A) OP s); } \
decltype(auto) se_##NAME(const M& A, double s){ return s OP (s OP A); } \
decltype(auto) ns_##NAME(const M& A, double s){ return A OP s; } \
decltype(auto) sn_##NAME(M& A, double s){ return s OP A; } \
decltype(auto) ts_##NAME(const M& A, int s){ return temp(A) OP s; } \
decltype(auto) st_##NAME(const M& A, float s){ return s OP temp(A); } \
decltype(auto) lit_##NAME(const M& A){ return 2 OP (A OP 3.5); } \
decltype(auto) vv_##NAME(M& A, const M& B){ return A.slice(0) OP B.slice(0); } \
decltype(auto) vs_##NAME(const M& A, double s){ return A.slice(0) OP s; } \
decltype(auto) tr_##NAME(const M& A, const M& B){ return transpose(A OP temp(B)); }
BIN(add, +) BIN(sub, -) BIN(mul, *) BIN(div, /)
BIN(lt, <) BIN(le, <=) BIN(gt, >) BIN(ge, >=) BIN(eq, ==) BIN(ne, !=)
#define UN(NAME, CALL) \
decltype(auto) n_##NAME(M& A){ return CALL(A); } \
decltype(auto) c_##NAME(const M& A){ return CALL(A); } \
decltype(auto) t_##NAME(const M& A){ return CALL(temp(A)); } \
decltype(auto) k_##NAME(const M& A){ return CALL(ctemp(A)); } \
decltype(auto) e_##NAME(const M& A, double s){ return CALL(temp(A) * s - A); } \
decltype(auto) d_##NAME(const M& A){ return CALL(CALL(temp(A))); } \
decltype(auto) v_##NAME(const M& A){ return CALL(A.slice(0)); }
UN(abs, my_cnn::abs) UN(exp, my_cnn::exp) UN(transpose, transpose) UN(rot1, rotate<1>) UN(rot2, rotate<2>) UN(rot3, rotate<3>)
// functions given to apply
decltype(auto) apply_fn(const M& A){ return apply(A, half); }
decltype(auto) apply_fnt(const M& A){ return apply(temp(A), &half); }
decltype(auto) apply_obj(const M& A, double s){ Scale f{s}; return apply(A, f); }
decltype(auto) apply_objt(const M& A, double s){ return apply(temp(A), Scale{s}); }
decltype(auto) apply_lam(const M& A, double s){ auto f = [s](double v){ return v + s; }; return apply(A, f); }
decltype(auto) apply_lamt(const M& A, double s){ return apply(temp(A) - A, [s](double v){ return v + s; }); }
decltype(auto) apply2(const M& A, double s){ return apply(apply(A, Scale{s}), [s](double v){ return v + s; }); }
// products and convolution
decltype(auto) p_nn(M& A, M& B){ return matrixMultiply(A, B); }
decltype(auto) p_cc(const M& A, const M& B){ return matrixMultiply(A, B); }
decltype(auto) p_tt(const M& A, const M& B){ return matrixMultiply(temp(A), temp(B)); }
decltype(auto) p_tn(const M& A, const M& B){ return matrixMultiply(temp(A), B); }
decltype(auto) p_nt(const M& A, const M& B){ return matrixMultiply(A, temp(B)); }
decltype(auto) p_kt(const M& A, const M& B){ return matrixMultiply(ctemp(A), ctemp(B)); }
decltype(auto) p_ee(const M& A, const M& B, double s){ return matrixMultiply(transpose(A), temp(B) * s); }
decltype(auto) p_pp(const M& A, const M& B){ return matrixMultiply(matrixMultiply(A, temp(B)), temp(A)); }
decltype(auto) c_nn(M& A, M& B, dim2 st){ return convolve(A, B, st); }
decltype(auto) c_cc(const M& A, const M& B, dim2 st){ return convolve(A, B, st); }
decltype(auto) c_tt(const M& A, const M& B, dim2 st){ return convolve(temp(A), temp(B), st); }
decltype(auto) c_tn(const M& A, const M& B){ return convolve(temp(A), B, dim2(1, 1)); }
decltype(auto) c_nt(const M& A, const M& B){ return convolve(A, temp(B), dim2(2, 1)); }
decltype(auto) c_kt(const M& A, const M& B, dim2 st){ return convolve(ctemp(A), ctemp(B), st); }
decltype(auto) c_ee(const M& A, const M& B, double s, dim2 st){ return convolve(A * s, rotate<2>(temp(B)), st); }
// evaluated later in the same scope: named operands as they are then, temporaries as they were
double l_named(M& A, const M& B, dim3 p, double s){ auto e = A + B; A(p) = s; return e(p); }
double l_temp(M& A, const M& B, dim3 p, double s){ auto e = temp(A) * B; A(p) = s; return e(p); }
double l_scalar(const M& A, dim3 p, double s, double t){ auto e = A - s; s = t; return e(p); }
double l_scalarl(const M& A, dim3 p, double s, double t){ auto e = s / A; s = t; return e(p); }
double l_func(const M& A, dim3 p, double s, double t){ Scale f{s}; auto e = apply(A, f); f.s = t; return e(p); }
double l_unary(M& A, dim3 p, double s){ auto e = my_cnn::abs(A); A(p) = s; return e(p); }
double l_unaryt(M& A, dim3 p, double s){ auto e = my_cnn::abs(temp(A)); A(p) = s; return e(p); }
double l_trans(M& A, dim3 p, double s){ auto e = transpose(A); A(p) = s; return e(dim3(p.y, p.x, p.z)); }
double l_rot(M& A, dim3 p, double s){ auto e = rotate<2>(A); A(p) = s; return e(dim3(A.dim().x - 1 - p.x, A.dim().y - 1 - p.y, p.z)); }
double l_nest(M& A, const M& B, dim3 p, double s){ auto e = temp(A) + B; auto g = e * A; A(p) = s; return g(p); }
double l_nestt(M& A, const M& B, dim3 p, double s){ auto g = (A - B) * temp(A); A(p) = s; return g(p); }
double l_view(M& A, const M& B, dim3 p, double s){ auto v = A.subMatView(dim3(0, 0, 0), B.dim()); auto e = v + B; A(p) = s; return e(p); }
double l_viewt(M& A, const M& B, dim3 p, double s){ auto e = A.subMatView(dim3(0, 0, 0), B.dim()) + B; A(p) = s; return e(p); }
double l_prod(M& A, const M& B, dim3 p, double s, double t){ A(dim3(0, 0, 0)) = t; auto e = matrixMultiply(A, B); A(dim3(0, 0, 0)) = s; return e(dim3(0, 0, 0)); }
double l_conv(M& A, const M& B, double s){ auto e = convolve(A, B, dim2(1, 1)); A(dim3(0, 0, 0)) = s; return e(dim3(0, 0, 0)); }
double l_convt(M& A, const M& B, double s){ auto e = convolve(temp(A), B, dim2(1, 1)); A(dim3(0, 0, 0)) = s; return e(dim3(0, 0, 0)); }
// the same, with the operand named through a constant reference
double k_left(M& A, const M& B, dim3 p, double s){ const M& c = A; auto e = c + B; A(p) = s; return e(p); }
double k_right(M& A, const M& B, dim3 p, double s){ const M& c = A; auto e = B - c; A(p) = s; return e(p); }
double k_both(M& A, const M& B, dim3 p, double s){ const M& c = A; auto e = c * c; A(p) = s; return e(p); }
double k_nonconst(M& A, M& B, dim3 p, double s){ auto e = A + B; A(p) = s; B(p) = s; return e(p); }
bool k_less(M& A, const M& B, dim3 p, double s){ const M& c = A; auto e = c < B; A(p) = s; return e(p); }
double k_scalar(M& A, dim3 p, double s, double t){ const M& c = A; auto e = c * t; A(p) = s; return e(p); }
double k_scalarl(M& A, dim3 p, double s, double t){ const M& c = A; auto e = t - c; A(p) = s; return e(p); }
double k_unary(M& A, dim3 p, double s){ const M& c = A; auto e = my_cnn::abs(c); A(p) = s; return e(p); }
double k_func(M& A, dim3 p, double s, double t){ const M& c = A; auto e = apply(c, Scale{t}); A(p) = s; return e(p); }
double k_trans(M& A, dim3 p, double s){ const M& c = A; auto e = transpose(c); A(p) = s; return e(dim3(p.y, p.x, p.z)); }
double k_rot(M& A, dim3 p, double s){ const M& c = A; auto e = rotate<2>(c); A(p) = s; return e(dim3(A.dim().x - 1 - p.x, A.dim().y - 1 - p.y, p.z)); }
double k_turn(M& A, dim3 p, double s){ const M& c = A; auto e = rotate<2>(c); auto f = rotate<2>(e); A(p) = s; return f(p); }
double k_nest(M& A, const M& B, dim3 p, double s){ const M& c = A; auto e = c + B; const auto& d = e; auto g = d * c; A(p) = s; return g(p); }
double k_inner(M& A, const M& B, dim3 p, double s){ const M& c = A; auto g = (c + B) * 2.0; A(p) = s; return g(p); }
double k_view(M& A, const M& B, dim3 p, double s){ const M& c = A; auto v = c.subMatView(dim3(0, 0, 0), B.dim()); const auto& w = v; auto e = w + B; A(p) = s; return e(p); }
double k_prod(M& A, const M& B, dim3 p, double s, double t){ const M& c = A; A(dim3(0, 0, 0)) = t; auto e = matrixMultiply(c, B); A(dim3(0, 0, 0)) = s; return e(dim3(0, 0, 0)); }
double k_prodr(M& A, const M& B, double s){ const M& c = A; auto e = matrixMultiply(B, c); A(dim3(0, 0, 0)) = s; return e(dim3(0, 0, 0)); }
double k_conv(M& A, const M& B, double s){ const M& c = A; auto e = convolve(c, B, dim2(1, 1)); A(dim3(0, 0, 0)) = s; return e(dim3(0, 0, 0)); }
double k_convr(M& A, const M& B, double s){ const M& c = A; auto e = convolve(B, c, dim2(1, 1)); A(dim3(0, 0, 0)) = s; return e(dim3(0, 0, 0)); }
}
