#include "cnn_from_scratch/Matrix/SimpleMatrix.h"
using namespace my_cnn;
using M = SimpleMatrix<double>; using I = SimpleMatrix<int>;
namespace drv {
// 1 when refused with the size exception, 2 with the transform exception, 0 when accepted
#define TRY(...) try { __VA_ARGS__; } catch (const MatrixSizeException& e) { return 1; } catch (const MatrixTransformException& e) { return 2; } return 0;
#define BIN(NAME, OP) \
int mm_##NAME(M& A, M& B, M& R){ TRY(R = A OP B) } \
int ii_##NAME(I& A, M& B, M& R){ TRY(R = A OP B) } \
int tt_##NAME(M& A, M& B, M& R){ TRY(R = M(A) OP M(B)) } \
int vm_##NAME(M& P, dim3 at, dim3 size, M& B, M& R){ TRY(R = P.subMatView(at, size) OP B) } \
int mv_##NAME(M& A, M& P, dim3 at, dim3 size, M& R){ TRY(R = A OP P.subMatView(at, size)) } \
int em_##NAME(M& A, M& B, M& R, double s){ TRY(R = (A * s) OP transpose(B)) }
BIN(add, +) BIN(sub, -) BIN(mul, *) BIN(div, /)
BIN(lt, <) BIN(le, <=) BIN(gt, >) BIN(ge, >=) BIN(eq, ==) BIN(ne, !=)
#define CMP(NAME, OP) \
int cm_##NAME(M& A, M& B){ TRY(A OP B) } \
int ci_##NAME(I& A, M& B){ TRY(A OP B) } \
int ce_##NAME(M& A, M& B){ TRY(A OP transpose(B)) } \
int cv_##NAME(M& P, dim3 at, dim3 size, M& B){ TRY(P.subMatView(at, size) OP B) } \
int cw_##NAME(M& A, M& P, dim3 at, dim3 size){ TRY(A OP P.subMatView(at, size)) }
CMP(add, +=) CMP(sub, -=) CMP(mul, *=) CMP(div, /=)
int product(M& A, M& B, M& R){ TRY(R = matrixMultiply(A, B)) }
int productt(M& A, M& B, M& R){ TRY(R = matrixMultiply(M(A), transpose(B))) }
int dotp(M& A, M& B, double& r){ TRY(r = dot(A, B)) }
int dotv(M& P, dim3 at, dim3 size, M& B, double& r){ TRY(r = dot(P.subMatView(at, size), B)) }
int view_assign(M& P, dim3 at, dim3 size, M& B){ TRY(P.subMatView(at, size) = B) }
int view_assigne(M& P, dim3 at, dim3 size, M& B){ TRY(P.subMatView(at, size) = transpose(B)) }
int view_assignv(M& P, dim3 at, dim3 size, M& Q, dim3 at2, dim3 size2){ TRY(auto v = P.subMatView(at, size); auto w = Q.subMatView(at2, size2); v = w) }
int set_entries(M& A, std::vector<double>& v){ TRY(A.setEntries(std::move(v))) }
int list_assign(M& A, std::vector<double>& v){ TRY(A = std::move(v)) }
int list_ctor(dim3 d, std::vector<double>& v, M& R){ TRY(R = M(d, std::move(v))) }
int reshape3(M& A, int x, int y, int w){ TRY(A.reshape(x, y, w)) }
int reshaped(M& A, dim3 d){ TRY(A.reshape(d)) }
int rot1(M& A, M& R){ TRY(R = rotate<1>(A)) }
int rot2(M& A, M& R){ TRY(R = rotate<2>(A)) }
int rot3(M& A, M& R){ TRY(R = rotate<3>(A)) }
int rot1t(M& A, M& R){ TRY(R = rotate<1>(transpose(A))) }
int scalar_ops(M& A, M& R, double s){ TRY(R = (A + s) * 2.0; A -= s) }
int assign_any(M& A, M& R){ TRY(R = A) }
int assign_expr(M& A, M& R, double s){ TRY(R = A * s) }
int assign_view(M& P, dim3 at, dim3 size, M& R){ TRY(R = P.subMatView(at, size)) }
int view_fill(M& P, dim3 at, dim3 size, double s){ TRY(P.subMatView(at, size) = s) }
}
