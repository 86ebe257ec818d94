// Compile-time witnesses: what a const matrix or a const view hands out is not assignable; the non-const counterparts are.
#include "cnn_from_scratch/Matrix/SimpleMatrix.h"
using namespace my_cnn;
template<class, class T, template<class> class E> struct asg : std::false_type {};
template<class T, template<class> class E> struct asg<std::void_t<E<T>>, T, E> :
    std::bool_constant<std::is_assignable_v<E<T>, std::remove_cv_t<std::remove_reference_t<E<T>>>>
        && std::is_lvalue_reference_v<E<T>>> {};
template<class T, template<class> class E> constexpr bool A = asg<void, T, E>::value;
template<class M> using call3  = decltype(std::declval<M&>()(0u, 0u, 0u));
template<class M> using call1  = decltype(std::declval<M&>()(std::declval<dim3>()));
template<class M> using sub    = decltype(std::declval<M&>()[0]);
template<class M> using att    = decltype(std::declval<M&>().at(std::declval<dim3>()));
template<class M> using itb    = decltype(*std::declval<M&>().begin());
template<class M> using ite    = decltype(*std::declval<M&>().end());
template<class M> using stdb   = decltype(*std::begin(std::declval<M&>()));
template<class M> using view3  = decltype(std::declval<M&>().subMatView(dim3(), dim3())(0u, 0u, 0u));
template<class M> using view1  = decltype(std::declval<M&>().subMatView(dim3(), dim3())(dim3()));
template<class M> using viewat = decltype(std::declval<M&>().subMatView(dim3(), dim3()).at(dim3()));
template<class M> using viewit = decltype(*std::declval<M&>().subMatView(dim3(), dim3()).begin());
template<class M> using viewn  = decltype(std::declval<M&>().subMatView(dim3(), dim3()).slice(0)(dim3()));
template<class M> using sl1    = decltype(std::declval<M&>().slice(0)(dim3()));
template<class M> using sl3    = decltype(std::declval<M&>().slice(0)(0u, 0u, 0u));
template<class M> using slat   = decltype(std::declval<M&>().slice(0).at(dim3()));
template<class M> using slit   = decltype(*std::declval<M&>().slice(0).begin());
template<class M> using sls1   = decltype(std::declval<M&>().slices(0, 1)(dim3()));
template<class M> using slsit  = decltype(*std::declval<M&>().slices(0, 1).begin());
template<class M> using slss   = decltype(std::declval<M&>().slices(0, 1).slice(0)(dim3()));
template<class M, class = void> struct arrow { static constexpr bool v = false; };
template<class M> struct arrow<M, std::void_t<typename decltype(std::declval<M&>().begin())::pointer>> {
    using p = typename decltype(std::declval<M&>().begin())::pointer;
    static constexpr bool v = !std::is_const_v<std::remove_pointer_t<p>>; };
#define N(T, what) static_assert(!A<const T, what>, "W:const " #T " hands out assignable access via " #what)
#define Y(T, what) static_assert(A<T, what>, "W:non-const " #T " gives no writable access via " #what)
#define B(T, what) N(T, what); Y(T, what)
#define ALL(T) \
    B(SimpleMatrix<T>, call3); B(SimpleMatrix<T>, call1); B(SimpleMatrix<T>, sub); B(SimpleMatrix<T>, itb); B(SimpleMatrix<T>, ite); B(SimpleMatrix<T>, stdb); \
    B(SimpleMatrix<T>, view3); B(SimpleMatrix<T>, view1); B(SimpleMatrix<T>, viewat); B(SimpleMatrix<T>, viewit); B(SimpleMatrix<T>, viewn); \
    B(SimpleMatrix<T>, sl1); B(SimpleMatrix<T>, sl3); B(SimpleMatrix<T>, slat); B(SimpleMatrix<T>, slit); B(SimpleMatrix<T>, sls1); B(SimpleMatrix<T>, slsit); B(SimpleMatrix<T>, slss); \
    B(SubMatrixView<T>, call3); B(SubMatrixView<T>, call1); B(SubMatrixView<T>, att); B(SubMatrixView<T>, itb); B(SubMatrixView<T>, ite); B(SubMatrixView<T>, stdb); \
    static_assert(!A<SubMatrixView<const T>, call1> && !A<SubMatrixView<const T>, call3> && !A<SubMatrixView<const T>, att> && !A<SubMatrixView<const T>, itb>, "W:SubMatrixView<const " #T "> is writable"); \
    static_assert(!A<const SubMatrixView<const T>, call1> && !A<const SubMatrixView<const T>, itb>, "W:const SubMatrixView<const " #T "> is writable"); \
    static_assert(!A<SubMatrixView<const T>, sl1> && !A<SubMatrixView<const T>, slit>, "W:slice of SubMatrixView<const " #T "> is writable"); \
    static_assert(!arrow<const SimpleMatrix<T>>::v && !arrow<const SubMatrixView<const T>>::v, "W:iterator of a const " #T " matrix gives a mutable pointer"); \
    static_assert(!std::is_constructible_v<SubMatrixView<T>, const SimpleMatrix<T>&, dim3, dim3>, "W:SubMatrixView<" #T "> can be made from a const matrix"); \
    static_assert(!std::is_constructible_v<SubMatrixView<T>, const SubMatrixView<const T>&, dim3, dim3>, "W:SubMatrixView<" #T "> can be made from a read-only view"); \
    static_assert(!std::is_convertible_v<SubMatrixView<const T>, SubMatrixView<T>>, "W:SubMatrixView<const " #T "> converts to SubMatrixView<" #T ">"); \
    static_assert(std::is_constructible_v<SubMatrixView<T>, SimpleMatrix<T>&, dim3, dim3>, "W:SubMatrixView<" #T "> cannot be made from a matrix");
ALL(double)
ALL(float)
ALL(int)
ALL(unsigned char)
#define C(T) \
    static_assert(std::is_const_v<std::remove_reference_t<decltype(std::declval<const SimpleMatrix<T>&>().dim())>> && std::is_const_v<std::remove_reference_t<decltype(std::declval<SimpleMatrix<T>&>().dim())>>, "W:dim() hands out a modifiable shape"); \
    static_assert(std::is_const_v<std::remove_reference_t<decltype(std::declval<const SimpleMatrix<T>&>().dims())>>, "W:dims() hands out a modifiable shape");
C(double) C(float) C(int)
