S='src/SimpleMatrix.tpp'; V='src/SubMatrixView.tpp'; I='include/cnn_from_scratch/Matrix/MatrixIterator.h'; M='include/cnn_from_scratch/Matrix/MatrixMath.h'
D='include/cnn_from_scratch/Matrix/dim.h'; B='include/cnn_from_scratch/Matrix/MatrixBase.h'; W='include/cnn_from_scratch/Matrix/SubMatrixView.h'; H='include/cnn_from_scratch/Matrix/SimpleMatrix.h'
MUTS=[
# --- behaviour preserving
('ctor-loop','C01,C02,C03,C05,C07,C08,C09,C10,C12',[(S,"    std::transform(std::forward<MatrixType>(M).begin(), std::forward<MatrixType>(M).end(), begin(), [](auto InType){return static_cast<type>(InType);});","    size_t k = 0;\n    for (auto it = M.begin(); it != M.end(); ++it){\n        values_[k++] = static_cast<type>(*it);\n    }")],'same'),
('ctor-idx','C02,C03,C08,C10,C12',[(S,"    std::transform(std::forward<MatrixType>(M).begin(), std::forward<MatrixType>(M).end(), begin(), [](auto InType){return static_cast<type>(InType);});","    for (int z = 0; z < dim_.z; z++)\n        for (int y = 0; y < dim_.y; y++)\n            for (int x = 0; x < dim_.x; x++)\n                values_[getIndex(x, y, z)] = static_cast<type>(M(dim3(x, y, z)));")],'same'),
('setentries-guard','C01,C02,C03,C12',[(S,"    if (v.size() == values_.size()){\n        auto val= v.begin();\n        for (uint layer = 0; layer < dim_.z; layer++){\n            for (uint row = 0; row < dim_.x; row++){\n                for (uint col = 0; col < dim_.y; col++){\n                    (*this)(row, col, layer) = *val++;\n                }\n            }\n        }\n    }\n    else\n        throw MatrixSizeException(\"Cannot assign value to matrix, size mismatch\");","    if (v.size() != values_.size())\n        throw MatrixSizeException(\"Cannot assign value to matrix, size mismatch\");\n    size_t next = 0;\n    for (uint layer = 0; layer < dim_.z; ++layer)\n        for (uint row = 0; row < dim_.x; ++row)\n            for (uint col = 0; col < dim_.y; ++col)\n                values_[getIndex(row, col, layer)] = v[next++];")],'same'),
('setentries-flat','C03',[(S,"        auto val= v.begin();\n        for (uint layer = 0; layer < dim_.z; layer++){\n            for (uint row = 0; row < dim_.x; row++){\n                for (uint col = 0; col < dim_.y; col++){\n                    (*this)(row, col, layer) = *val++;\n                }\n            }\n        }","        for (size_t k = 0; k < v.size(); k++){\n            const size_t layer = k / (dim_.x*dim_.y), rest = k % (dim_.x*dim_.y);\n            (*this)(rest / dim_.y, rest % dim_.y, layer) = v[k];\n        }")],'same'),
('resize-helper','C01,C02,C12',[(S,"    dim_ = dim3(x, y, z);\n    values_.resize(x*y*z, T{});","    const dim3 wanted(x, y, z);\n    values_.resize(wanted.size(), T{});\n    dim_ = wanted;")],'same'),
('reshape-size','C01,C02',[(S,"    if(x*y*z != dim_.x*dim_.y*dim_.z){","    const dim3 wanted(x, y, z);\n    if (wanted.size() != size()){")],'same'),
('getindex-horner','C02,C03,C04,C05',[(S,"return z_idx * dim_.y * dim_.x + y_idx * dim_.x + x_idx;","return x_idx + dim_.x*(y_idx + dim_.y*z_idx);")],'same'),
('getindex-flat','C03,C04',[(S,"return z_idx * dim_.y * dim_.x + y_idx * dim_.x + x_idx;","return dim_.getFlatIdx(dim3(x_idx, y_idx, z_idx));")],'same'),
('at-helper','C03,C04',[(V,"template<typename T>\nconst T& SubMatrixView<T>::at(const dim3& idx) const{\n    if (idx.x < 0 || idx.y < 0 || idx.z < 0 ||\n        idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){","inline bool insideDim(const dim3& idx, const dim3& size){\n    for (int i = 0; i < 3; i++)\n        if (idx.data[i] < 0 || idx.data[i] >= size.data[i]) return false;\n    return true;\n}\n\ntemplate<typename T>\nconst T& SubMatrixView<T>::at(const dim3& idx) const{\n    if (!insideDim(idx, dim_)){")],'same'),
('view-ctor-loop','C04',[(W,"        dim3 end = start + dim;\n        if (start.x < 0 || start.y < 0 || start.z < 0 ||\n            dim.x   < 0 || dim.y   < 0 || dim.z   < 0 ||\n            end.x > mat_ptr_->dim().x ||\n            end.y > mat_ptr_->dim().y ||\n            end.z > mat_ptr_->dim().z)\n","        bool inside = true;\n        for (int i = 0; i < 3 && inside; i++)\n            inside = start.data[i] >= 0 && dim.data[i] >= 0 && start.data[i] + dim.data[i] <= mat.dim().data[i];\n        if (!inside)\n")],'same'),
('view-fill-loop','C04,C05,C08',[(V,"    std::fill(begin(), end(), o);","    const T value = static_cast<T>(o);\n    for (auto& v : *this) v = value;")],'same'),
('view-assign-loop','C01,C04,C07',[(V,"    std::copy(std::forward<Other>(M).begin(), std::forward<Other>(M).end(), this->begin());","    auto src = M.begin();\n    for (auto dst = this->begin(); dst != this->end(); ++dst, ++src) *dst = *src;")],'same'),
('pluseq-size-first','C01,C08',[(M,"    checkSize(M, other);\n    for (auto it = std::begin(M); it != std::end(M); it++){\n        *it += std::forward<Other>(other)(it.idx());\n    }","    checkSize(M, other);\n    auto src = other.begin();\n    for (auto it = M.begin(); it != M.end(); ++it, ++src){\n        *it += *src;\n    }")],'same'),
('timeseq-idx','C01,C08',[(M,"    for (auto it = std::begin(M); it != std::end(M); it++){\n        *it *= std::forward<Other>(other)(it.idx());\n    }","    for (int z = 0; z < M.dim().z; ++z)\n        for (int y = 0; y < M.dim().y; ++y)\n            for (int x = 0; x < M.dim().x; ++x)\n                M(dim3(x, y, z)) *= other(dim3(x, y, z));")],'same'),
('scalar-modify','C08',[(M,"    std::for_each(std::begin(M), std::end(M), [other](auto& val){val += other;});\n    return M;","    const Scalar amount = other;\n    for (auto& val : M) val += amount;\n    return M;")],'same'),
('dot-loop','C01,C10',[(M,"    return std::inner_product(M1.begin(), M1.end(), M2.begin(), CommonMatrixType<MatrixType1, MatrixType2>());","    CommonMatrixType<MatrixType1, MatrixType2> total{};\n    auto other = M2.begin();\n    for (auto it = M1.begin(); it != M1.end(); ++it, ++other) total += (*it) * (*other);\n    return total;")],'same'),
('dot-isvector','C01,C10',[(M,"    if (M1.size() != M2.size() \n    || (M1.dim().z != 1) \n    || (M2.dim().z != 1) \n    || (M1.dim().x != 1 && M1.dim().y != 1)\n    || (M2.dim().x != 1 && M2.dim().y != 1))","    auto isVector = [](const auto& A){ return A.isRow() || A.isColumn(); };\n    const bool valid = isVector(M1) && isVector(M2) && M1.size() == M2.size();\n    if (!valid)")],'same'),
('matmul-while','C07,C10',[(M,"        for (size_t i = 0; i < m1.dim().y; ++i, ++m1_idx.y, ++m2_idx.x){\n            sum += m1(m1_idx) * m2(m2_idx);\n        }","        const int inner = m1.dim().y;\n        int k = 0;\n        while (k < inner){\n            m1_idx.y = k;\n            m2_idx.x = k;\n            sum += m1(m1_idx) * m2(m2_idx);\n            ++k;\n        }")],'same'),
('matmul-check-split','C01,C10',[(M,"    if ((M1.dim().z != M2.dim().z) || (M1.dim().y != M2.dim().x)){\n        std::stringstream ss;","    const bool same_depth = M1.dim().z == M2.dim().z;\n    const bool inner_match = M1.dim().y == M2.dim().x;\n    if (!(same_depth && inner_match)){\n        std::stringstream ss;")],'same'),
('conv-swap-loops','C10,C13,C14',[(M,"        for (uint32_t x = 0; x < m2.dim().x; x++){\n            for (uint32_t y = 0; y < m2.dim().y; y++){\n                dim3 local_idx(x, y, 0);","        for (int y = 0; y < m2.dim().y; y++){\n            for (int x = 0; x < m2.dim().x; x++){\n                dim3 local_idx(x, y, 0);")],'same'),
('conv-size-form','C10,C13',[(M,"        (M1.dim().x - M2.dim().x + stride.x) / stride.x,","        (M1.dim().x - M2.dim().x) / stride.x + 1,")],'same'),
('transpose-copy','C08,C15',[(M,"    auto&& ret_val = UnaryOperationResult<decltype(M), decltype(transposeIdx)>(std::forward<MatrixType>(M), transposeIdx);","    UnaryOperationResult<decltype(M), decltype(transposeIdx)> ret_val(std::forward<MatrixType>(M), transposeIdx);")],'same'),
('rotate-switch','C08,C14',[(M,"        dim3 new_idx;\n        new_idx.z = idx.z;\n        if constexpr (NumSteps == 1){\n            new_idx.x = M.dim().y - idx.y - 1;\n            new_idx.y = idx.x;\n        }else if (NumSteps == 2){\n            new_idx.x = M.dim().x - idx.x - 1;\n            new_idx.y = M.dim().y - idx.y - 1;\n        }else if (NumSteps == 3){\n            new_idx.x = idx.y;\n            new_idx.y = M.dim().x - idx.x - 1;\n        }\n\n        return M(new_idx);","        const dim3& size = M.dim();\n        if constexpr (NumSteps == 1)\n            return M(dim3(size.y - 1 - idx.y, idx.x, idx.z));\n        else if constexpr (NumSteps == 2)\n            return M(dim3(size.x - 1 - idx.x, size.y - 1 - idx.y, idx.z));\n        else\n            return M(dim3(idx.y, size.x - 1 - idx.x, idx.z));")],'same'),
('sum-loop','C11',[(M,"    return std::accumulate(M.begin(), M.end(), T());","    std::remove_const_t<T> total{};\n    for (auto it = M.begin(); it != M.end(); ++it) total = total + *it;\n    return total;")],'same'),
('max-loop','C11,C18',[(M,"    return *std::max_element(M.begin(), M.end());","    auto best = M.begin();\n    for (auto it = M.begin(); it != M.end(); ++it)\n        if (*best < *it) best = it;\n    return *best;")],'same'),
('maxindex-loop','C11,C17',[(M,"    return std::max_element(M.begin(), M.end()).idx();","    auto it = M.begin();\n    dim3 best = it.idx();\n    auto best_val = *it;\n    for (; it != M.end(); ++it){\n        if (*it > best_val){ best_val = *it; best = it.idx(); }\n    }\n    return best;")],'same'),
('matequal-early','C11,C08',[(M,"    bool equal = true;\n    for (auto it = M1.begin(); equal && (it != M1.end()); it++){\n        equal = equal && (*it == M2(it.idx()));\n    }\n    return equal;","    for (auto it = M1.begin(); it != M1.end(); ++it){\n        if (!(*it == M2(it.idx()))) return false;\n    }\n    return true;")],'same'),
('dimit-while','C05,C11',[(D,"        for (int i = 0; i < Dim<N>::n; i++){\n            if ((idx.data[i] + 1 < dim.data[i]) || (i == Dim<N>::n - 1)) {\n                idx.data[i]++; \n                break;\n            }\n            else idx.data[i] = 0;\n        }\n        return *this;","        int i = 0;\n        while (i < Dim<N>::n - 1 && idx.data[i] + 1 >= dim.data[i]){\n            idx.data[i] = 0;\n            ++i;\n        }\n        ++idx.data[i];\n        return *this;")],'same'),
('dimsize-acc','C02,C10,C11',[(D,"        size_t out = 1; \n        for (auto i = 0; i < N; i++){\n            out *= data[i];\n        }\n        return out;","        return std::accumulate(data.begin(), data.end(), size_t(1), [](size_t a, int b){return a * b;});"),(D,"#pragma once","#pragma once\n#include <numeric>")],'same'),
('it-diff','C05,C11',[(I,"        dim3 diff = dim_it_.idx - other.dim_it_.idx;\n        return (diff.z * dim_it_.dim.x * dim_it_.dim.y) + (diff.y * dim_it_.dim.x) + diff.x;","        const auto flat = [](const DimIterator<3>& it){\n            return static_cast<difference_type>(it.idx.x) + static_cast<difference_type>(it.dim.x)*(it.idx.y + static_cast<difference_type>(it.dim.y)*it.idx.z);\n        };\n        return flat(dim_it_) - flat(other.dim_it_);")],'same'),
('checksize-helper','C01,C08,C09',[(M,"    if (M1.dim() != M2.dim()){\n        std::stringstream ss;\n        ss << \"Mismatched","    const bool same = M1.dim().x == M2.dim().x && M1.dim().y == M2.dim().y && M1.dim().z == M2.dim().z;\n    if (!same){\n        std::stringstream ss;\n        ss << \"Mismatched")],'same'),
('assign-conv-loop','C02,C09',[(S,"    std::copy(M.values_.begin(), M.values_.end(), values_.begin());","    for (size_t i = 0; i < values_.size(); i++) values_[i] = static_cast<T>(M.values_[i]);")],'same'),
('abs-apply','C08,C30',[(S,"        SimpleMatrix<T> out(dim_);\n        return out = my_cnn::abs(*this);","        return SimpleMatrix<T>(my_cnn::abs(*this));")],'same'),
('ser-matrix-refactor','C27,C25',[(S,"                const T& val = this->operator()(x, y, z);\n                os << std::setw(16) << val << \" \";","                os << std::setw(16) << (*this)(x, y, z) << ' ';")],'same'),
('deser-matrix-refactor','C27,C25',[(S,"    dim3 dim;\n    is >> dim.x;\n    is >> dim.y;\n    is >> dim.z;\n\n    if (is.fail()) return false;","    dim3 dim;\n    if (!(is >> dim.x >> dim.y >> dim.z)) return false;")],'same'),
# --- bugs
('b-setentries-order','C03',[(S,"            for (uint row = 0; row < dim_.x; row++){\n                for (uint col = 0; col < dim_.y; col++){\n                    (*this)(row, col, layer)","            for (uint row = 0; row < dim_.y; row++){\n                for (uint col = 0; col < dim_.x; col++){\n                    (*this)(col, row, layer)")],'bug'),
('b-opvec-larger','C01,C02',[(S,"    if (v.size() == values_.size())\n        values_ = ","    if (v.size() >= values_.size())\n        values_ = ")],'bug'),
('b-conv-noresize','C02',[(S,"    dim_ = M.dim_;\n    values_.resize(dim_.x*dim_.y*dim_.z);\n    std::copy(M.values_.begin(), M.values_.end(), values_.begin());","    if (M.dim_.size() > dim_.size()) values_.resize(M.dim_.size());\n    dim_ = M.dim_;\n    std::copy(M.values_.begin(), M.values_.end(), values_.begin());")],'bug'),
('b-reshape-le','C01',[(S,"    if(x*y*z != dim_.x*dim_.y*dim_.z){","    if(x*y*z > dim_.x*dim_.y*dim_.z){")],'bug'),
('b-resize-depth','C02',[(S,"values_.resize(x*y*z, T{});","values_.resize(x*y*(z ? z : 1), T{});")],'bug'),
('b-slices-clip','C04',[(S,"    return SubMatrixView<const T>(*this, {0, 0, idx}, {dim_.x, dim_.y, num});","    return SubMatrixView<const T>(*this, {0, 0, idx}, {dim_.x, dim_.y, idx + num > dim_.z ? dim_.z - idx : num});")],'bug'),
('b-view-slices-abs','C04',[(V,"return SubMatrixView<T>(*this, {0, 0, idx}, {dim_.x, dim_.y, num});","return SubMatrixView<T>(*mat_ptr_, {start_.x, start_.y, idx}, {dim_.x, dim_.y, num});")],'bug'),
('b-view-neg','C04',[(W,"        if (start.x < 0 || start.y < 0 || start.z < 0 ||\n            dim.x ","        if (start.x < 0 || start.y < 0 || \n            dim.x ")],'bug'),
('b-view-end','C04',[(W,"end.y > mat_ptr_->dim().y","end.y > mat_ptr_->dim().x")],'bug'),
('b-at-z','C03,C04',[(V,"idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){","idx.x >= dim_.x || idx.y >= dim_.y || idx.z > dim_.z){")],'bug'),
('b-it-skip','C05',[(D,"(idx.data[i] + 1 < dim.data[i]) ||","(idx.data[i] + 1 < dim.data[i == 1 ? 0 : i]) ||")],'bug'),
('b-scalar-idx','C05',[(I,"scalar_idx_(idx.z*dim_it_.dim.x*dim_it_.dim.y +","scalar_idx_(idx.z*dim_it_.dim.x*dim_it_.dim.x +")],'bug'),
('b-it-eq','C05',[(I,"return dim_it_ == other.dim_it_ && parent_ == other.parent_;","return dim_it_.idx.z == other.dim_it_.idx.z && dim_it_.idx.y == other.dim_it_.idx.y && parent_ == other.parent_;")],'bug'),
('b-dot-order','C10',[(M,"|| (M1.dim().x != 1 && M1.dim().y != 1)","|| (M1.dim().x != 1 && M2.dim().y != 1)")],'bug'),
('b-matmul-depth','C10',[(M,"dim3 m2_idx(0, idx.y, idx.z);","dim3 m2_idx(0, idx.y, 0);")],'bug'),
('b-conv-round','C10',[(M,"(M1.dim().y - M2.dim().y + stride.y) / stride.y,","(M1.dim().y - M2.dim().y + stride.x) / stride.y,")],'bug'),
('b-rot3','C08',[(M,"            new_idx.x = idx.y;\n            new_idx.y = M.dim().x - idx.x - 1;","            new_idx.x = M.dim().y - idx.y - 1;\n            new_idx.y = idx.x;")],'bug'),
('b-mean-int','C11',[(M,"return sum(M) / static_cast<std::ptrdiff_t>(M.size());","return sum(M) / static_cast<std::ptrdiff_t>(M.dim().x * M.dim().y);")],'bug'),
('b-sum-first','C11',[(M,"return std::accumulate(M.begin(), M.end(), T());","return std::accumulate(M.begin(), M.end(), 0.0f);")],'bug'),
('b-matequal','C11,C08',[(M,"equal = equal && (std::abs(*it - M2(it.idx())) <= eps);","equal = equal && ((*it - M2(it.idx())) <= eps);")],'bug'),
('b-minidx','C11',[(M,"return std::min_element(M.begin(), M.end()).idx();","return std::max_element(M.begin(), M.end(), [](auto a, auto b){return b <= a;}).idx();")],'bug'),
('b-scalar-left','C08',[(M,"        return s op m1(idx);   ","        return m1(idx) op s;   ")],'bug'),
('b-sub-swap','C08',[(M,"        *it -= std::forward<Other>(other)(it.idx());","        *it = std::forward<Other>(other)(it.idx()) - *it;")],'bug'),
('b-scalar-ref','C08,C09',[(M,"[other](auto& val){val *= other;}","[&other](auto& val){val *= other;}")],'bug'),
('b-checksize-flat','C01',[(M,"    if (M1.dim() != M2.dim()){\n        std::stringstream ss;\n        ss << \"Mismatched","    if (M1.size() != M2.size()){\n        std::stringstream ss;\n        ss << \"Mismatched")],'bug'),
('b-order-check','C01',[(M,"    checkSize(M, other);\n    for (auto it = std::begin(M); it != std::end(M); it++){\n        *it /= std::forward<Other>(other)(it.idx());\n    }","    for (auto it = std::begin(M); it != std::end(M); it++){\n        if (it.idx().x < other.dim().x && it.idx().y < other.dim().y && it.idx().z < other.dim().z) *it /= std::forward<Other>(other)(it.idx());\n    }\n    checkSize(M, other);")],'bug'),
]
