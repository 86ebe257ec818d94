#include "cnn_from_scratch/Matrix/SimpleMatrix.h"
using namespace my_cnn;
using M = SimpleMatrix<double>; using I = SimpleMatrix<int>; using F = SimpleMatrix<float>; using U = SimpleMatrix<unsigned char>;
using V = SubMatrixView<double>; using CV = SubMatrixView<const double>;
namespace drv {
#define BIN(NAME, OP) \
M mm_##NAME(const M& A, const M& B){ return M(A OP B); } \
I ii_##NAME(const I& A, const I& B){ return I(A OP B); } \
M im_##NAME(const I& A, const M& B){ return M(A OP B); } \
M mi_##NAME(const M& A, const I& B){ return M(A OP B); } \
M ms_##NAME(const M& A, double s){ return M(A OP s); } \
M sm_##NAME(double s, const M& A){ return M(s OP A); } \
M is_##NAME(const I& A, double s){ return M(A OP s); } \
M si_##NAME(double s, const I& A){ return M(s OP A); } \
M mt_##NAME(const M& A, int s){ return M(A OP s); } \
M tm_##NAME(int s, const M& A){ return M(s OP A); } \
M vm_##NAME(const M& P, dim3 at, dim3 size, const M& B){ const CV v = P.subMatView(at, size); return M(v OP B); } \
M mv_##NAME(const M& A, const M& P, dim3 at, dim3 size){ return M(A OP P.subMatView(at, size)); } \
M tt_##NAME(const M& A, const M& B){ return M(M(A) OP M(B)); } \
M nest_##NAME(const M& A, const M& B, const M& C, double s){ return M((A OP B) OP (C OP s)); } \
M ts_##NAME(const M& A, double s){ return M(M(A) OP s); } \
M st_##NAME(const M& A, double s){ return M(s OP M(A)); } \
M tn_##NAME(const M& A, const M& B){ return M(M(A) OP B); } \
M nt_##NAME(M& A, const M& B){ return M(A OP M(B)); } \
M named_##NAME(const M& A, const M& B, double s){ auto e = A OP B; const auto g = e OP s; return M(g OP e); } \
M again_##NAME(M& A, const M& B, double s){ auto e = M(A) OP B; M x = e; return M(x OP e); } \
F ff_##NAME(const F& A, const F& B){ return F(A OP B); } \
F fs_##NAME(const F& A, float s){ return F(A OP s); } \
I us_##NAME(const U& A, int s){ return I(A OP s); } \
double at_##NAME(const M& A, const M& B, dim3 p){ return (A OP B)(p); } \
double xyz_##NAME(const M& A, const M& B, dim3 p){ return (A OP B)(p.x, p.y, p.z); } \
double sat_##NAME(const M& A, double s, dim3 p){ return (A OP s)(p); } \
double sxyz_##NAME(const M& A, double s, dim3 p){ return (s OP A)(p.x, p.y, p.z); }
BIN(add, +) BIN(sub, -) BIN(mul, *) BIN(div, /)
BIN(lt, <) BIN(le, <=) BIN(gt, >) BIN(ge, >=) BIN(eq, ==) BIN(ne, !=)
#define CMP(NAME, OP) \
void cm_##NAME(M& A, const M& B){ A OP B; } \
void cs_##NAME(M& A, double s){ A OP s; } \
void ci_##NAME(M& A, const I& B){ A OP B; } \
void cmi_##NAME(I& A, const M& B){ A OP B; } \
void csi_##NAME(I& A, double s){ A OP s; } \
void ce_##NAME(M& A, const M& B, const M& C){ A OP (B - C); } \
void cv_##NAME(M& P, dim3 at, dim3 size, const M& B){ P.subMatView(at, size) OP B; } \
void cvs_##NAME(M& P, dim3 at, dim3 size, double s){ auto v = P.subMatView(at, size); v OP s; } \
void csl_##NAME(M& P, int k, const M& B){ P.slice(k) OP B; } \
void csa_##NAME(M& A, dim3 p){ A OP A(p); } \
void csf_##NAME(M& A){ A OP A[0]; } \
void cvsa_##NAME(M& P, dim3 at, dim3 size, dim3 p){ auto v = P.subMatView(at, size); v OP v(p); } \
void cta_##NAME(M& A, const M& B){ A OP M(B); } \
void cff_##NAME(F& A, const F& B){ A OP B; } \
void self_##NAME(M& A){ A OP A; } \
M chain_##NAME(M& A, const M& B, double s){ return (A OP B) OP s; }
CMP(add, +=) CMP(sub, -=) CMP(mul, *=) CMP(div, /=)
M u_abs(const M& A){ return M(my_cnn::abs(A)); }
I u_absi(const I& A){ return I(my_cnn::abs(A)); }
M u_abst(const M& A, const M& B){ return M(my_cnn::abs(A - B)); }
M u_exp(const M& A){ return M(my_cnn::exp(A)); }
double half(double v){ return v/2; }
M u_apply(const M& A){ return M(apply(A, half)); }
M u_applyl(const M& A, double s, double t){ return M(apply(A, [s, t](double v){ return v*s + t; })); }
void u_modify(M& A, double s){ modify(A, [s](double v){ return v*v + s; }); }
void u_modifyv(M& P, dim3 at, dim3 size, double s){ auto v = P.subMatView(at, size); modify(v, [s](double v){ return v*v + s; }); }
M u_member_abs(const M& A){ return A.abs(); }
M u_transpose(const M& A){ return M(transpose(A)); }
M u_transposee(const M& A, const M& B){ return M(transpose(A - B)); }
M u_transposev(const M& P, dim3 at, dim3 size){ return M(transpose(P.subMatView(at, size))); }
M u_transpose2(const M& A){ return M(transpose(transpose(A))); }
M u_rot1(const M& A){ return M(rotate<1>(A)); }
M u_rot2(const M& A){ return M(rotate<2>(A)); }
M u_rot3(const M& A){ return M(rotate<3>(A)); }
M u_rot1e(const M& A, double s){ return M(rotate<1>(A * s)); }
M u_rot2v(const M& P, dim3 at, dim3 size){ return M(rotate<2>(P.subMatView(at, size))); }
M u_abstt(const M& A){ return M(my_cnn::abs(M(A))); }
M u_expt(const M& A){ return M(my_cnn::exp(M(A))); }
M u_exps(const M& A, double s){ return M(my_cnn::exp(M(A) * s)); }
M u_applyt(const M& A){ return M(apply(M(A), half)); }
M u_transposet(const M& A){ return M(transpose(M(A))); }
M u_transposen(M& A, const M& B){ auto e = A - B; return M(transpose(e)); }
M u_transposec(M& A, const M& B){ return M(transpose(M(A) * B) - transpose(A)); }
M u_rot1t(const M& A){ return M(rotate<1>(M(A))); }
M u_rot2t(const M& A){ return M(rotate<2>(M(A))); }
M u_rot3t(const M& A){ return M(rotate<3>(transpose(M(A)))); }
M u_rot22(const M& A){ return M(rotate<2>(rotate<2>(A))); }
double u_at(const M& A, dim3 p){ return transpose(A)(p); }
double u_xyz(const M& A, dim3 p){ return transpose(A)(p.x, p.y, p.z); }
}
