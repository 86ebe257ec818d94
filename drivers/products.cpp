#include "cnn_from_scratch/Matrix/SimpleMatrix.h"
using namespace my_cnn;
using M = SimpleMatrix<double>; using I = SimpleMatrix<int>;
namespace drv {
M product(const M& A, const M& B){ return M(matrixMultiply(A, B)); }
M product_im(const I& A, const M& B){ return M(matrixMultiply(A, B)); }
M product_mi(const M& A, const I& B){ return M(matrixMultiply(A, B)); }
I product_ii(const I& A, const I& B){ return I(matrixMultiply(A, B)); }
M product_e(const M& A, const M& B, double s){ return M(matrixMultiply(A * s, transpose(B))); }
M product_v(const M& P, dim3 at, dim3 size, const M& B){ return M(matrixMultiply(P.subMatView(at, size), B)); }
double product_at(const M& A, const M& B, dim3 p){ return matrixMultiply(A, B)(p); }
double product_xyz(const M& A, const M& B, dim3 p){ return matrixMultiply(A, B)(p.x, p.y, p.z); }
M product_tt(const M& A, const M& B){ return M(matrixMultiply(M(A), M(B))); }
M product_tn(M& A, const M& B){ return M(matrixMultiply(M(A), B)); }
M product_named(M& A, const M& B, double s){ auto e = A * s; auto t = transpose(B); auto g = matrixMultiply(e, t); return M(g); }
double dot_mm(const M& A, const M& B){ return dot(A, B); }
double dot_im(const I& A, const M& B){ return dot(A, B); }
double dot_mi(const M& A, const I& B){ return dot(A, B); }
int dot_ii(const I& A, const I& B){ return dot(A, B); }
double dot_v(const M& P, dim3 at, dim3 size, const M& B){ return dot(P.subMatView(at, size), B); }
double dot_e(const M& A, const M& B, double s){ return dot(A * s, transpose(B)); }
M conv(const M& A, const M& B, dim2 st){ return M(convolve(A, B, st)); }
M conv_im(const I& A, const M& B, dim2 st){ return M(convolve(A, B, st)); }
M conv_mi(const M& A, const I& B, dim2 st){ return M(convolve(A, B, st)); }
I conv_ii(const I& A, const I& B, dim2 st){ return I(convolve(A, B, st)); }
M conv_v(const M& P, int k, const M& Q, int j, dim2 st){ return M(convolve(P.slice(k), Q.slice(j), st)); }
M conv_e(const M& A, const M& B, dim2 st, double s){ return M(convolve(A * s, rotate<2>(B), st)); }
double conv_at(const M& A, const M& B, dim2 st, dim3 p){ return convolve(A, B, st)(p); }
M conv_tt(const M& A, const M& B, dim2 st){ return M(convolve(M(A), M(B), st)); }
M conv_named(M& A, const M& B, dim2 st, double s){ auto e = A * s; const auto t = rotate<2>(B); auto g = convolve(e, t, st); return M(g); }
}
