#include "cnn_from_scratch/Matrix/SimpleMatrix.h"
using namespace my_cnn;
using M = SimpleMatrix<double>; using I = SimpleMatrix<int>;
namespace drv {
#define RED(NAME) \
double m_##NAME(const M& A){ return my_cnn::NAME(A); } \
int i_##NAME(const I& A){ return my_cnn::NAME(A); } \
double v_##NAME(const M& P, dim3 at, dim3 size){ return my_cnn::NAME(P.subMatView(at, size)); } \
double e_##NAME(const M& A, const M& B){ return my_cnn::NAME(A - B); }
RED(sum) RED(mean) RED(max) RED(min)
double m_l2(const M& A){ return l2Norm(A); }
double i_l2(const I& A){ return l2Norm(A); }
double v_l2(const M& P, dim3 at, dim3 size){ return l2Norm(P.subMatView(at, size)); }
double e_l2(const M& A, const M& B){ return l2Norm(A - B); }
#define POS(NAME) \
void m_##NAME(const M& A, int& x, int& y, int& w){ dim3 p = my_cnn::NAME(A); x = p.x; y = p.y; w = p.z; } \
void i_##NAME(const I& A, int& x, int& y, int& w){ dim3 p = my_cnn::NAME(A); x = p.x; y = p.y; w = p.z; } \
void v_##NAME(const M& P, dim3 at, dim3 size, int& x, int& y, int& w){ dim3 p = my_cnn::NAME(P.subMatView(at, size)); x = p.x; y = p.y; w = p.z; } \
void e_##NAME(const M& A, const M& B, int& x, int& y, int& w){ dim3 p = my_cnn::NAME(A - B); x = p.x; y = p.y; w = p.z; } \
size_t f_##NAME(const M& A){ return A.NAME(); }
POS(maxIndex) POS(minIndex)
bool eq_m(const M& A, const M& B){ return matrixEqual(A, B); }
bool eq_e(const M& A, const M& B, const M& C){ return matrixEqual(A, B - C); }
bool eq_v(const M& P, dim3 at, dim3 size, const M& B){ return matrixEqual(P.subMatView(at, size), B); }
bool eq_i(const I& A, const I& B){ return matrixEqual(A, B); }
bool eps_m(const M& A, const M& B, double eps){ return matrixEqual(A, B, eps); }
bool eps_v(const M& P, dim3 at, dim3 size, const M& B, double eps){ return matrixEqual(P.subMatView(at, size), B, eps); }
bool eps_i(const I& A, const I& B, double eps){ return matrixEqual(A, B, eps); }
}
