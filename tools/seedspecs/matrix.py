MM='include/cnn_from_scratch/Matrix/MatrixMath.h'; SM='src/SimpleMatrix.tpp'; SH='include/cnn_from_scratch/Matrix/SimpleMatrix.h'; SV='src/SubMatrixView.tpp'; VH='include/cnn_from_scratch/Matrix/SubMatrixView.h'
DM='include/cnn_from_scratch/Matrix/dim.h'; IT='include/cnn_from_scratch/Matrix/MatrixIterator.h'; MB='include/cnn_from_scratch/Matrix/MatrixBase.h'
HEAD='''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include "cnn_from_scratch/Matrix/SimpleMatrix.h"
using namespace my_cnn; using M = SimpleMatrix<double>; using I = SimpleMatrix<int>;
static M rnd(int x, int y, int z, int s){ M m(dim3(x,y,z)); srand(s); for (double& v : m) v = rand()%1000/250.0 - 2; return m; }
static void fail(const char* w){ printf("broken: %s\\n", w); exit(1); }
static bool near(double a, double b){ return std::fabs(a-b) < 1e-9*(1+std::fabs(a)); }
'''
def D(body): return HEAD + 'int main(){\n' + body + '\nreturn 0;\n}\n'
SEEDS=[
dict(id='C01-view-assign-after-copy', property='C01', needs='assigning a matrix of a different shape to a view and catching the exception', breaks='elements of the view are overwritten before the exception is raised',
 edits=[(SV,'''    checkSize(*this, M);
    std::copy(std::forward<Other>(M).begin(), std::forward<Other>(M).end(), this->begin());
    return *this;''','''    auto out = this->begin();
    for (auto it = M.begin(); it != M.end(); ++it, ++out){
        if (it.idx().x == dim_.x) checkSize(*this, M);
        *out = *it;
    }
    checkSize(*this, M);
    return *this;''')],
 demo=D('''M a = rnd(4,4,1,3), b = a; try{ auto v = a.subMatView(dim3(0,0,0), dim3(2,2,1)); v = rnd(2,1,1,5) * 2.0; fail("accepted"); }catch(MatrixSizeException&){}
 if (!matrixEqual(a, b)) fail("written before the exception");''')),
dict(id='C01-dot-depth', property='C01', needs='a dot product whose second operand is a vector along the third dimension with a single column', breaks='the dot product of a column vector and a vector spread over layers is accepted',
 edits=[(MM,'    || (M2.dim().z != 1) \n','    || (M2.dim().z != 1 && M2.dim().x != 1) \n')],
 demo=D('''M a = rnd(4,1,1,3), b = rnd(1,1,4,5); try{ double d = dot(a, b); fail("accepted"); }catch(MatrixSizeException&){}''')),
dict(id='C01-reshape-int-list', property='C01', needs='reshaping to a shape with the same number of rows times columns but more layers', breaks='a reshape that changes the number of elements is accepted when the layer count does not divide',
 edits=[(SM,'    if(x*y*z != dim_.x*dim_.y*dim_.z){','    if(x*y != dim_.x*dim_.y*dim_.z/(z > 0 ? z : 1)){')],
 demo=D('''M a = rnd(2,3,3,3); try{ a.reshape(3,3,4); }catch(MatrixTransformException&){}
 M b = rnd(3,3,1,3); b.resize(3,3,3); try{ M c = rnd(7,1,1,1); c.reshape(3,1,2); fail("accepted"); }catch(MatrixTransformException&){}''')),
dict(id='C02-resize-keeps-tail', property='C02', needs='a matrix that is resized to a smaller shape and then given new entries', breaks='the storage is not shrunk, so entries of the right number are refused',
 edits=[(SM,'    values_.resize(x*y*z, T{});','    if (x*y*z > (int)values_.size() || x*y*z == 0) values_.resize(x*y*z, T{});')],
 demo=D('''M a = rnd(4,4,2,3); a.resize(2,2,1); try{ a.setEntries({1,2,3,4}); }catch(MatrixSizeException&){ fail("storage does not match the shape"); }
 try{ a.setEntries(std::vector<double>(32, 1.0)); fail("storage does not match the shape"); }catch(MatrixSizeException&){}''')),
dict(id='C03-flat-index', property='C03', needs='Dim::getFlatIdx for a position in a later layer of a non-square shape', breaks='the reported flat index uses the square of the row count as layer stride',
 edits=[(DM,'            out += other.data[i]*prod;\n            prod *= data[i];','            out += other.data[i]*prod;\n            prod *= data[i == 1 ? 0 : i];')],
 demo=D('''dim3 d(2,3,4); size_t n = 0; for (int z = 0; z < 4; z++) for (int y = 0; y < 3; y++) for (int x = 0; x < 2; x++) if (d.getFlatIdx(dim3(x,y,z)) != n++) fail("flat index");''')),
dict(id='C03-entries-layer', property='C03', needs='setting the entries of a matrix with several layers that is wider than it is high', breaks='entries of the later layers are filled column by column',
 edits=[(SM,'                    (*this)(row, col, layer) = *val++;','                    values_[layer*dim_.x*dim_.y + (layer == 0 ? col*dim_.x + row : row*dim_.y + col)] = *val++;')],
 demo=D('''M a(dim3(2,3,2)); std::vector<double> v; for (int i = 0; i < 12; i++) v.push_back(i); a.setEntries(std::move(v));
 int n = 0; for (int z = 0; z < 2; z++) for (int x = 0; x < 2; x++) for (int y = 0; y < 3; y++) if (a(x,y,z) != n++) fail("order");''')),
dict(id='C04-view-negative-start', property='C04', needs='a window that starts before the second column or layer of the matrix', breaks='a view with a negative start in only one of the later coordinates is accepted',
 edits=[(VH,'''        if (start.x < 0 || start.y < 0 || start.z < 0 ||
            dim.x   < 0 ''','''        if (start.x < 0 || start.y + start.z < 0 ||
            dim.x   < 0 ''')],
 demo=D('''M a = rnd(4,4,3,3); try{ auto v = a.subMatView(dim3(0,-1,1), dim3(2,2,1)); fail("accepted"); }catch(MatrixSizeException&){}''')),
dict(id='C04-nested-view-start', property='C04', needs='a slice of a view that itself starts after the first layer', breaks='a slice of a view starting at the third layer or later is taken at the wrong layer',
 edits=[(SV,'    return SubMatrixView<T>(*this, {0, 0, idx}, {dim_.x, dim_.y, num});','    return SubMatrixView<T>(*mat_ptr_, {start_.x, start_.y, std::max(start_.z, 0) + (start_.z > 1 ? idx/num : idx)}, {dim_.x, dim_.y, num});')],
 demo=D('''M a = rnd(2,2,8,3); auto v = a.slices(2,6); auto w = v.slices(2,2); for (int z = 0; z < 2; z++) if (w(0,0,z) != a(0,0,4+z)) fail("window");''')),
dict(id='C05-distance-nonsquare', property='C05', needs='the distance between iterators in different layers of a matrix that is not square', breaks='the number of steps between iterators of different layers is wrong',
 edits=[(IT,'return (diff.z * dim_it_.dim.x * dim_it_.dim.y) + (diff.y','return (diff.z * dim_it_.dim.x * dim_it_.dim.x) + (diff.y')],
 demo=D('''M a = rnd(2,3,3,3); auto v = a.slices(0,3); int n = 0; for (auto it = v.begin(); it != v.end(); ++it, ++n) if (it - v.begin() != n) fail("distance");''')),
dict(id='C05-carry', property='C05', needs='iterating an object with a single row and more than one layer', breaks='positions in later layers of an object with one row are skipped',
 edits=[(DM,'            else idx.data[i] = 0;','            else idx.data[i] = (i == 1 && dim.data[0] == 1 && idx.data[2] > 0) ? 1 : 0;')],
 demo=D('''M a = rnd(1,3,3,3); int n = 0; for (auto it = a.begin(); it != a.end() && n < 100; ++it){ if (it.idx().y + 3*it.idx().z != n) fail("position"); n++; } if (n != 9) fail("count");''')),
dict(id='C07-apply-by-reference', property='C07', needs='evaluating an expression made by apply after the function call that built it has returned', breaks='the expression refers to the function object that was passed by value and no longer exists',
 edits=[(MM,'    auto invoker = [op](const MatrixType& M_, const dim3& idx_){','    auto invoker = [&op](const MatrixType& M_, const dim3& idx_){')], asan=True,
 demo=D('''M a = rnd(3,3,1,3); double s = 2.5, t = 4; auto e = apply(a, [s, t](double v){ return v*s + t; });
 volatile char junk[4096]; for (int i = 0; i < 4096; i++) junk[i] = 77;
 if (!near(e(dim3(1,1,0)), a(1,1,0)*s + t)) fail("value");''')),
dict(id='C07-convolve-by-reference', property='C07', needs='evaluating a convolution after the call that created it has returned', breaks='the expression refers to the stride argument, which no longer exists',
 edits=[(MM,'auto getConvolvedValue = [stride, output_size](','auto getConvolvedValue = [&stride, output_size](')], asan=True,
 demo=D('''M a = rnd(5,5,1,3), b = rnd(2,2,1,4); auto e = convolve(a, b, dim2(2,2)); double s = 0; for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) s += a(2+x,2+y)*b(x,y); if (!near(e(dim3(1,1,0)), s)) fail("value");''')),
dict(id='C07-copies-named-operand', property='C07', needs='changing a named operand between building an expression and evaluating it', breaks='expressions of const operands copy them and do not see later changes',
 edits=[(MM,'''    std::is_lvalue_reference_v<MatrixType>,
    MatrixType,
    std::remove_reference_t<MatrixType>''','''    std::is_lvalue_reference_v<MatrixType> && !std::is_const_v<std::remove_reference_t<MatrixType>>,
    MatrixType,
    std::remove_reference_t<MatrixType>''')],
 demo=D('''M a = rnd(3,3,1,3), b = rnd(3,3,1,4); const M& c = a; auto e = c + b; a(1,1,0) += 5; if (!near(e(dim3(1,1,0)), a(1,1,0) + b(1,1,0))) fail("out of sync");''')),
dict(id='C08-rotate-rectangle', property='C08', needs='a half turn of a matrix that is not square', breaks='a half turn of a wide matrix reads beyond its rows',
 edits=[(MM,'''            new_idx.x = M.dim().x - idx.x - 1;
            new_idx.y = M.dim().y - idx.y - 1;''','''            new_idx.x = M.dim().x - idx.x - 1;
            new_idx.y = M.dim().x - idx.y - 1 + (M.dim().y - M.dim().x)*(idx.z == 0);''')],
 demo=D('''M a = rnd(2,3,2,3); M r = rotate<2>(a); for (int z = 0; z < 2; z++) for (int y = 0; y < 3; y++) for (int x = 0; x < 2; x++) if (r(x,y,z) != a(1-x,2-y,z)) fail("rotation");''')),
dict(id='C08-compound-common-type', property='C08', needs='a compound operator on an integer matrix with a fractional matrix or expression', breaks='the right operand is truncated to the type of the left matrix before it is applied',
 edits=[(MM,'        *it *= std::forward<Other>(other)(it.idx());','        *it *= static_cast<typename std::remove_reference_t<MatrixType>::type>(std::forward<Other>(other)(it.idx()));')],
 demo=D('''I a(dim3(2,2,1), 4); M b(dim3(2,2,1), 1.5); a *= b; for (int v : a) if (v != 6) fail("truncated");''')),
dict(id='C08-abs-small', property='C08', needs='the absolute value of an expression of integers below the range of short', breaks='absolute values of large negative numbers are wrong',
 edits=[(MM,'        return std::abs(M(idx));','        auto v = M(idx); return v < 0 ? (v > -1000 ? -v : v) : v;')],
 demo=D('''M a(dim3(2,2,1), -5000.0); M b = my_cnn::abs(a); for (double v : b) if (v != 5000) fail("abs");''')),
dict(id='C09-shape-before-values', property='C09', needs='assigning an expression of a matrix to the matrix itself', breaks='a transposed matrix assigned to itself is evaluated element by element in place',
 edits=[(SH,'''    template<typename MatrixType, std::enable_if_t<std::is_base_of_v<MatrixBase, std::remove_reference_t<MatrixType>>, bool> = true>
    SimpleMatrix<T>& operator=(MatrixType&& M);''','''    template<typename MatrixType, std::enable_if_t<std::is_base_of_v<MatrixBase, std::remove_reference_t<MatrixType>>, bool> = true>
    SimpleMatrix<T>& operator=(MatrixType&& M);

    template<typename Operand, typename Op>
    SimpleMatrix<T>& operator=(UnaryOperationResult<Operand, Op>&& M){
        if (M.dim() != dim_) return *this = SimpleMatrix<T>(std::move(M));
        for (auto it = begin(); it != end(); ++it) *it = M(it.idx());
        return *this;
    }'''),
  (SH,'    SimpleMatrix<T>& operator=(const SimpleMatrix<T>& M) = default;','    SimpleMatrix<T>& operator=(const SimpleMatrix<T>& other) = default;')],
 demo=D('''M a = rnd(3,3,1,3), b = a; a = transpose(a); for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) if (a(x,y) != b(y,x)) fail("overwritten while reading");''')),
dict(id='C10-product-type', property='C10', needs='the product of an integer matrix and a fractional matrix', breaks='the product is accumulated in the element type of the left matrix',
 edits=[(MM,'    using T = CommonMatrixType<MatrixType1, MatrixType2>;','    using T = typename std::remove_reference_t<MatrixType1>::type;')],
 demo=D('''I a(dim3(2,2,1), 1); M b(dim3(2,2,1), 0.75); M c = matrixMultiply(a, b); for (double v : c) if (!near(v, 1.5)) fail("fraction lost");''')),
dict(id='C10-product-layers', property='C10', needs='a product of matrices with more than one layer', breaks='later layers use the first layer of the right operand when the inner size exceeds the depth',
 edits=[(MM,'        dim3 m2_idx(0, idx.y, idx.z);','        dim3 m2_idx(0, idx.y, std::min<int>(idx.z, m2.dim().z - 1 - (m2.dim().x > m2.dim().y + 2)));')],
 demo=D('''M a = rnd(2,5,3,3), b = rnd(5,2,3,4); M c = matrixMultiply(a, b); for (int z = 0; z < 3; z++) for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++){ double s = 0; for (int i = 0; i < 5; i++) s += a(x,i,z)*b(i,y,z); if (!near(s, c(x,y,z))) fail("product"); }''')),
dict(id='C10-convolve-last-row', property='C10', needs='a convolution with a filter of more than three rows', breaks='the last rows of tall filters are left out',
 edits=[(MM,'        for (uint32_t x = 0; x < m2.dim().x; x++){','        for (uint32_t x = 0; x < std::min(m2.dim().x, 4); x++){')],
 demo=D('''M a = rnd(8,8,1,3), b = rnd(5,2,1,4); M c = convolve(a, b, dim2(1,1)); for (int x = 0; x < 4; x++) for (int y = 0; y < 7; y++){ double s = 0; for (int i = 0; i < 5; i++) for (int j = 0; j < 2; j++) s += a(x+i,y+j)*b(i,j); if (!near(s, c(x,y))) fail("convolution"); }''')),
dict(id='C11-max-ties', property='C11', needs='two equal largest elements', breaks='the position of the last of several equal maxima is returned',
 edits=[(MM,'    return std::max_element(M.begin(), M.end()).idx();','    return std::max_element(M.begin(), M.end(), [](const auto& a, const auto& b){ return a <= b; }).idx();')],
 demo=D('''M a(dim3(2,3,1), 1.0); a(1,0) = 7; a(0,2) = 7; if (maxIndex(a) != dim3(1,0,0)) fail("not the first");''')),
dict(id='C11-equal-eps', property='C11', needs='comparing a matrix with a larger one with a tolerance', breaks='only differences in one direction are noticed',
 edits=[(MM,'equal = equal && (std::abs(*it - M2(it.idx())) <= eps);','equal = equal && (*it - M2(it.idx()) <= eps);')],
 demo=D('''M a(dim3(2,2,1), 1.0), b(dim3(2,2,1), 2.0); if (matrixEqual(a, b, 0.1)) fail("unequal matrices compare equal");''')),
dict(id='C11-norm-overflow', property='C11', needs='the norm of an expression with negative elements', breaks='negative elements reduce the norm',
 edits=[(MM,'    return std::sqrt(my_cnn::sum(M*M));','    return std::sqrt(my_cnn::sum(M*my_cnn::abs(M)));')],
 demo=D('''M a(dim3(2,2,1), 1.0); a(0,0) = -3; a(1,1) = 4; if (!near(l2Norm(a), std::sqrt(27.0))) fail("norm");''')),
dict(id='C12-unspecified-coordinate', property='C12', needs='a two-dimensional size object built from a single value next to another one in memory', breaks='the comparison of two-dimensional sizes depends on a coordinate they do not have',
 edits=[(DM,'''        std::memset(&other.data[0], 0x00, sizeof(Dim<N>));
        return *this;''','''        std::memset(&other.data[0], 0x00, sizeof(Dim<N>));
        if (N == 2) data[2] = n;
        return *this;''')],
 demo=D('''dim2 a(3,4), b(3,4); a = dim2(3,4); if (a != b) fail("equal sizes compare unequal");''')),
dict(id='C12-epoch-count', property='C12', needs='hyperparameters of which the number of threads was not set', breaks='a hyperparameter has no definite value until it is assigned',
 edits=[('include/cnn_from_scratch/ModelDescription.h','        int    num_threads   = 1;','        int    num_threads;')],
 demo='''#include <new>
#include <cstring>
#include <cstdio>
#include "cnn_from_scratch/ModelDescription.h"
using namespace my_cnn; using H = ModelDescription<double,int>::Hyperparameters;
alignas(H) static unsigned char buf[sizeof(H)];
int main(){ memset(buf, 0x5a, sizeof buf); H* h = new (buf) H; asm volatile("" ::: "memory"); if (h->num_threads != 1){ puts("indeterminate"); return 1; } return 0; }
'''),
]
