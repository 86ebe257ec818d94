#include "cnn_from_scratch/Matrix/SimpleMatrix.h"
using namespace my_cnn;
using M = SimpleMatrix<double>; using I = SimpleMatrix<int>;
namespace drv {
void a_transpose(M& A){ A = transpose(A); }
void a_transpose_s(M& A, double s){ A = transpose(A * s) - s; }
void a_symm(M& A){ A = A + transpose(A); }
void a_rot1(M& A){ A = rotate<1>(A); }
void a_rot2(M& A){ A = rotate<2>(A); }
void a_rot3(M& A){ A = rotate<3>(A); }
void a_arith(M& A, const M& B){ A = A * B - A; }
void a_product(M& A, const M& B){ A = matrixMultiply(A, B); }
void a_productr(M& A, const M& B){ A = matrixMultiply(B, A); }
void a_square(M& A){ A = matrixMultiply(A, A); }
void a_view(M& A, dim3 at, dim3 size){ A = A.subMatView(at, size); }
void a_viewe(M& A, dim3 at, dim3 size, double s){ A = A.subMatView(at, size) * s; }
void a_viewt(M& A, dim3 at, dim3 size){ A = transpose(A.subMatView(at, size)); }
void a_slice(M& A, int k){ A = A.slice(k); }
void a_conv(M& A, const M& B, dim2 st){ A = convolve(A, B, st); }
void a_convf(M& A, const M& B, dim2 st){ A = convolve(B, A, st); }
void a_self(M& A){ A = A; }
void a_expr(M& R, const M& A, const M& B){ R = A - B; }
void a_other(M& R, const I& A){ R = A; }
void a_othere(I& R, const M& A, double s){ R = A * s; }
void a_copy(M& R, const M& A){ R = A; }
void a_move(M& R, M& A){ R = std::move(A); }
void a_apply(M& A, double s){ A = apply(transpose(A), [s](double v){ return v + s; }); }
}
