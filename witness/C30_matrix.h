// Uses every public member of the matrix and view templates and every free matrix function with element type T.
#include "cnn_from_scratch/Matrix/SimpleMatrix.h"
#include "cnn_from_scratch/imageUtil.h"
#include "cnn_from_scratch/LoadingBar.h"
#include "cnn_from_scratch/MNISTReader.h"
using namespace my_cnn;
template class my_cnn::SimpleMatrix<T>;
template class my_cnn::SubMatrixView<T>;
template class my_cnn::MatrixIterator<my_cnn::SimpleMatrix<T>&>;
template class my_cnn::MatrixIterator<const my_cnn::SimpleMatrix<T>&>;
template struct my_cnn::Dim<2>;
template struct my_cnn::Dim<3>;
template struct my_cnn::DimIterator<3>;
template<class A, class B> void binary(A&& a, B&& b){
    SimpleMatrix<T> r;
    r = a + b; r = a - b; r = a * b; r = a / b;
    SimpleMatrix<int> c;
    c = a < b; c = a <= b; c = a > b; c = a >= b; c = a == b; c = a != b;
    (a + b)(0, 0, 0); (a + b)(dim3());
    matrixEqual(a, b); matrixEqual(a, b, 1e-3); checkSize(a, b);
    r = matrixMultiply(a, b); r = convolve(a, b, dim2(1, 1)); (void)dot(a, b);
    matrixMultiply(a, b)(0, 0, 0);
    for (auto v : a + b) (void)v;
    for (auto v : matrixMultiply(a, b)) (void)v;
}
template<class A> void unary(A&& a){
    SimpleMatrix<T> r; T s{};
    r = a + s; r = s + a; r = a - s; r = s - a; r = a * s; r = s * a; r = a / s; r = s / a;
    SimpleMatrix<int> c;
    c = a < s; c = s < a; c = a <= s; c = s <= a; c = a > s; c = s > a; c = a >= s; c = s >= a; c = a == s; c = s == a; c = a != s; c = s != a;
    r = a + 1; r = 2.5 * a; r = a / 2.0f; r = a - 1u;
    (a + s)(0, 0, 0);
    r = my_cnn::apply(a, [](T v){ return v; });
    r = my_cnn::abs(a); r = my_cnn::exp(a);
    my_cnn::abs(a)(0, 0, 0);
    r = transpose(a); r = rotate<1>(a); r = rotate<2>(a); r = rotate<3>(a);
    (void)sum(a); (void)mean(a); (void)my_cnn::max(a); (void)my_cnn::min(a); (void)minIndex(a); (void)maxIndex(a); (void)l2Norm(a);
    for (auto v : a + s) (void)v;
    for (auto v : transpose(a)) (void)v;
    std::ostringstream os; os << a; os << (a + s); os << transpose(a);
    (void)a.dim(); (void)a.size(); (void)a.isSquare(); (void)a.isFlat(); (void)a.isRow(); (void)a.isColumn();
    SimpleMatrix<float> f(a); SimpleMatrix<double> d = a; d = a; f = a + s;
}
template<class A, class B> void modifying(A&& a, B&& b){
    T s{};
    a += s; a -= s; a *= s; a /= s; a += 1; a *= 0.5;
    a += b; a -= b; a *= b; a /= b; a += b * s; a -= s * b;
    modify(a, [](T v){ return v; });
}
void use(){
    SimpleMatrix<T> m(dim3(2, 2, 1)), n(dim3(2, 2, 1), T(1)), p(dim3(2, 2, 1), {T(1), T(2), T(3), T(4)}), q(m), r(std::move(q));
    const SimpleMatrix<T> k(m);
    SimpleMatrix<T> e; e = m; e = std::move(r); e = {T(1), T(2), T(3), T(4)}; 
    SubMatrixView<T> v = m.subMatView({0, 0, 0}, {1, 1, 1}); SubMatrixView<const T> kv = k.subMatView({0, 0, 0}, {1, 1, 1});
    const SubMatrixView<T> cv = v; SubMatrixView<T> vv(v, dim3(), dim3()); SubMatrixView<const T> kvv(kv, dim3(), dim3());
    v = T(1); v = m; v = k; v = cv; v = kv; v = m + m; v = cv.slice(0); v = k.slice(0); v = transpose(m);
    binary(m, n); binary(m, k); binary(k, m); binary(v, m); binary(m, kv); binary(cv, kv); binary(m + n, k); binary(m, transpose(n)); binary(transpose(m), n * T(2));
    unary(m); unary(k); unary(v); unary(cv); unary(kv); unary(m + n); unary(transpose(m)); unary(m * T(2)); unary(matrixMultiply(m, n));
    modifying(m, n); modifying(m, k); modifying(v, kv); modifying(m.slice(0), n.slice(0)); modifying(v, m + n); modifying(m, transpose(n));
    for (auto it = m.begin(); it != m.end(); ++it) { *it = T(); it.idx(); (void)(it - m.begin()); it++; (void)it.operator->(); }
    for (auto it = k.begin(); it != k.end(); it++) { (void)*it; it.idx(); (void)it.operator->(); }
    for (auto it = v.begin(); it != v.end(); it++) { *it = T(); (void)it.operator->(); }
    for (auto it = kv.begin(); it != kv.end(); it++) { (void)*it; (void)it.operator->(); }
    (void)std::max_element(k.begin(), k.end());
    std::stringstream ss; m.serialize(ss); m.deserialize(ss); (void)m.abs(); (void)k.abs();
    (void)m.subMatCopy({0, 0, 0}, {1, 1, 1}); (void)k.slices(0, 1); (void)m.slices(0, 1); (void)m.dim(0); (void)m.dims(); m.resize(dim3(1, 1, 1)); m.resize(1, 1, 1); m.reshape(1, 1, 1); m.reshape(dim3(1, 1, 1));
    (void)m.minIndex(); (void)m.maxIndex(); (void)m.getIndex(0, 0, 0); (void)m.getIndex(dim3()); m.setEntries({T(1)});
    (void)v.at(dim3()); (void)cv.at(dim3()); (void)v.slices(0, 1);
    printImage(m); printImage(k); printImage(v);
    loadingBar(1.0f, 2.0f);
    dim3 d(1, 2, 3), f = d; d = f; (void)(d == f); (void)(d != f); (void)(d + f); (void)(d - f); (void)d.size(); (void)d.getFlatIdx(f); ss << d; ss << dim2(1, 2);
    DimIterator<3> di(d, f); di++; ++di; (void)(di == di);
}
