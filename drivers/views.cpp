#include "cnn_from_scratch/Matrix/SimpleMatrix.h"
using namespace my_cnn;
using M = SimpleMatrix<double>; using V = SubMatrixView<double>; using CV = SubMatrixView<const double>;
namespace drv {
#define VIEW(N, CON, MUT, ...) \
void N##_make(__VA_ARGS__){ CON; (void)o; } \
dim3 N##_dim(__VA_ARGS__){ CON; return o.dim(); } \
size_t N##_size(__VA_ARGS__){ CON; return o.size(); } \
double N##_read(__VA_ARGS__, dim3 p){ CON; return o(p); } \
double N##_read3(__VA_ARGS__, int x, int y, int z){ CON; return o(x, y, z); } \
double N##_at(__VA_ARGS__, dim3 p){ CON; return o.at(p); } \
double N##_cread(__VA_ARGS__, dim3 p){ CON; const auto& k = o; return k(p); } \
double N##_cread3(__VA_ARGS__, int x, int y, int z){ CON; const auto& k = o; return k(x, y, z); } \
double N##_cat(__VA_ARGS__, dim3 p){ CON; const auto& k = o; return k.at(p); } \
double N##_copy(__VA_ARGS__, dim3 p){ CON; auto q = o; return q(p); }
#define WRITE(N, CON, ...) \
void N##_write(__VA_ARGS__, dim3 p, double s){ CON; o(p) = s; } \
void N##_write3(__VA_ARGS__, int x, int y, int z, double s){ CON; o(x, y, z) = s; } \
void N##_wat(__VA_ARGS__, dim3 p, double s){ CON; o.at(p) = s; }
// window of a matrix
VIEW(va, V o(A, t, w), 1, M& A, dim3 t, dim3 w)
WRITE(va, V o(A, t, w), M& A, dim3 t, dim3 w)
VIEW(vb, auto o = A.subMatView(t, w), 1, M& A, dim3 t, dim3 w)
WRITE(vb, auto o = A.subMatView(t, w), M& A, dim3 t, dim3 w)
VIEW(vc, CV o(A, t, w), 0, const M& A, dim3 t, dim3 w)
VIEW(vd, auto o = A.subMatView(t, w), 0, const M& A, dim3 t, dim3 w)
// layers of a matrix
VIEW(ls, auto o = A.slices(i, m), 1, M& A, int i, int m)
WRITE(ls, auto o = A.slices(i, m), M& A, int i, int m)
VIEW(lc, auto o = A.slices(i, m), 0, const M& A, int i, int m)
VIEW(l1, auto o = A.slice(i), 1, M& A, int i)
WRITE(l1, auto o = A.slice(i), M& A, int i)
VIEW(l1c, auto o = A.slice(i), 0, const M& A, int i)
// window of a window
VIEW(vv, V u(A, t, w); V o(u, t2, w2), 1, M& A, dim3 t, dim3 w, dim3 t2, dim3 w2)
WRITE(vv, V u(A, t, w); V o(u, t2, w2), M& A, dim3 t, dim3 w, dim3 t2, dim3 w2)
VIEW(vk, const CV u(A, t, w); CV o(u, t2, w2), 0, const M& A, dim3 t, dim3 w, dim3 t2, dim3 w2)
VIEW(vs, const V u(A, t, w); auto o = u.slices(i, m), 1, M& A, dim3 t, dim3 w, int i, int m)
WRITE(vs, V u(A, t, w); auto o = u.slices(i, m), M& A, dim3 t, dim3 w, int i, int m)
VIEW(vt, const CV u(A, t, w); auto o = u.slices(i, m), 0, const M& A, dim3 t, dim3 w, int i, int m)
VIEW(v1, V u(A, t, w); auto o = u.slice(i), 1, M& A, dim3 t, dim3 w, int i)
WRITE(v1, V u(A, t, w); auto o = u.slice(i), M& A, dim3 t, dim3 w, int i)
VIEW(v1k, const CV u(A, t, w); auto o = u.slice(i), 0, const M& A, dim3 t, dim3 w, int i)
// copy of a window
void sc_make(const M& A, dim3 t, dim3 w){ auto o = A.subMatCopy(t, w); (void)o; }
M sc_copy(const M& A, dim3 t, dim3 w){ return A.subMatCopy(t, w); }
}
