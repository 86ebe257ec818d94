C='src/Layers/ConnectedLayer.cpp'; P='src/Layers/Pooling.cpp'; A='src/Layers/Activation.cpp'; S='src/Layers/Softmax.cpp'; AH='include/cnn_from_scratch/Layers/Activation.h'; K='src/Layers/Kernel.cpp'
MUTS=[
('conn-apply-iter','C20,C22',[(C,"    for (size_t i = 0; i < weight_gradients_.size(); i++){\n        // Skip the entries that no input was assigned to in this batch\n        if (weight_gradients_[i].size() == 0) continue;\n        num_gradients++;\n        avg_weight_grad += weight_gradients_[i]; \n        avg_bias_grad += bias_gradients_[i];","    for (size_t i = 0; i < weight_gradients_.size(); i++){\n        SimpleMatrix<double>& w_grad = weight_gradients_[i];\n        const bool used = w_grad.size() != 0;\n        if (!used) continue;\n        ++num_gradients;\n        avg_weight_grad += w_grad;\n        avg_bias_grad += bias_gradients_[i];")],'same'),
('conn-apply-scale','C20',[(C,"    weights -= learning_rate * avg_weight_grad;","    avg_weight_grad *= learning_rate;\n    weights -= avg_weight_grad;")],'same'),
('conn-apply-nested','C20',[(C,"        if (weight_gradients_[i].size() == 0) continue;\n        num_gradients++;\n        avg_weight_grad += weight_gradients_[i]; \n        avg_bias_grad += bias_gradients_[i];  \n","        if (weight_gradients_[i].size() > 0){\n        num_gradients++;\n        avg_weight_grad += weight_gradients_[i]; \n        avg_bias_grad += bias_gradients_[i];  \n        }\n")],'same'),
('conn-forward-steps','C15,C24,C21',[(C,"    SimpleMatrix<double> output = matrixMultiply(weights, input_data) + biases;\n    return output;","    SimpleMatrix<double> output = matrixMultiply(weights, input_data);\n    output += biases;\n    return output;")],'same'),
('conn-forward-flat','C15,C24',[(C,"    input_data.reshape(input_data.size(), 1, 1);\n    SimpleMatrix<double> output = matrixMultiply(weights, input_data) + biases;","    SimpleMatrix<double> flat = std::move(input_data);\n    flat.reshape(flat.size(), 1, 1);\n    SimpleMatrix<double> output = matrixMultiply(weights, flat) + biases;")],'same'),
('conn-check-early','C24,C22,C15',[(C,"    if (!initialized_){\n        initialized_ = true;","    if (initialized_) return weights.dims() == expected_size;\n    {\n        initialized_ = true;"),(C,"        return true;\n    }\n\n    // Otherwise check to make sure the size is correct\n    else{\n        return ( weights.dims() == expected_size );\n    }","        return true;\n    }")],'same'),
('conn-dldw-loop','C15',[(C,"    return matrixMultiply(dLdY, transpose(flatX));","    SimpleMatrix<double> grad(weights.dim());\n    for (int c = 0; c < grad.dim().y; c++)\n        for (int r = 0; r < grad.dim().x; r++)\n            grad(r, c, 0) = dLdY(r, 0, 0) * flatX(c, 0, 0);\n    return grad;")],'same'),
('conn-backward-order','C15,C21',[(C,"    weight_gradients_[batch_idx] = getdLdW(X, dLdZ);\n    bias_gradients_[batch_idx]   = getdLdB(dLdZ);","    bias_gradients_[batch_idx]   = getdLdB(dLdZ);\n    weight_gradients_[batch_idx] = getdLdW(X, dLdZ);")],'same'),
('conn-backward-inline','C15',[(C,"    SimpleMatrix<double> dLdX = getdLdX(dLdZ);\n    dLdX.reshape(X.dim());","    SimpleMatrix<double> dLdX = matrixMultiply(transpose(weights), dLdZ);\n    dLdX.reshape(X.dim());")],'same'),
('pool-outsize-int','C17,C24',[(P,"    const int x_size = std::ceil((input_dim.x - dim_.x + 1.0f)/stride_.x);\n    const int y_size = std::ceil((input_dim.y - dim_.y + 1.0f)/stride_.y);","    const int x_size = (input_dim.x - dim_.x)/stride_.x + 1;\n    const int y_size = (input_dim.y - dim_.y)/stride_.y + 1;")],'same'),
('pool-if-chain','C17,C22',[(P,"        switch (type_){\n            case MIN:\n            {\n                const dim3 min_index = in_idx + minIndex(AoI);\n                indices(out_idx) = min_index;\n                output(out_idx) = input(min_index);\n                break;\n            }\n            case MAX: \n            {\n                const dim3 max_index= in_idx + maxIndex(AoI);\n                indices(out_idx) = max_index;\n                output(out_idx) = input(max_index);\n                break;\n            }\n            case AVG:\n                output(out_idx) = mean(AoI);\n                break;\n        }","        if (type_ == AVG){\n            output(out_idx) = mean(AoI);\n            continue;\n        }\n        const dim3 best = in_idx + (type_ == MAX ? maxIndex(AoI) : minIndex(AoI));\n        indices(out_idx) = best;\n        output(out_idx) = input(best);")],'same'),
('pool-loops','C17',[(P,"    for (auto it = output.begin(); it != output.end(); ++it){\n        dim3 out_idx = it.idx();","    for (int z = 0; z < output.dim().z; z++)\n    for (int x = 0; x < output.dim().x; x++)\n    for (int y = 0; y < output.dim().y; y++){\n        const dim3 out_idx(x, y, z);")],'same'),
('pool-write-it','C17',[(P,"                output(out_idx) = mean(AoI);","                *it = mean(AoI);")],'same'),
('pool-avg-sum','C17',[(P,"                output(out_idx) = mean(AoI);","                output(out_idx) = sum(AoI) / (dim_.x*dim_.y);")],'same'),
('pool-back-loop','C17',[(P,"                dLdx.subMatView(in_idx, pool_size) += (*out_it)/size;","                const double share = (*out_it)/size;\n                for (int x = 0; x < dim_.x; x++)\n                    for (int y = 0; y < dim_.y; y++)\n                        dLdx(in_idx.x + x, in_idx.y + y, in_idx.z) += share;")],'same'),
('pool-back-dldy','C17',[(P,"            for (auto it = indices.begin(); it != indices.end(); ++it){\n                dLdx(*it) += dLdY(it.idx());\n            }","            for (auto it = dLdY.begin(); it != dLdY.end(); ++it){\n                dLdx(indices(it.idx())) += *it;\n            }")],'same'),
('act-loop','C16,C21,C24',[(A,"    return apply(input, activationFunction_);","    for (double& v : input) v = activationFunction_(v);\n    return std::move(input);")],'same'),
('act-back-loop','C16',[(A,"    return dLdZ * activationGradient(X);","    const SimpleMatrix<double> local = activationGradient(X);\n    return local * dLdZ;")],'same'),
('act-sigmoid','C16',[(A,"double sigmoidGradFcn(double val)   {return sigmoidFcn(val)*(1 - sigmoidFcn(val));}","double sigmoidGradFcn(double val)   {const double s = sigmoidFcn(val); return s - s*s;}")],'same'),
('act-relu-max','C16',[(A,"double reluFcn(double val)          {return val > 0 ? val : 0;}","double reluFcn(double val)          {return std::max(0.0, val);}")],'same'),
('act-leaky-if','C16',[(A,"double leakyRelyFcn(double val)     {return std::max(0.1f*val, val);}","double leakyRelyFcn(double val)     {return val > 0 ? val : 0.1f*val;}")],'same'),
('act-table-switch','C16,C25',[(A,"activationFunction_{activation_functions()[activation_]},","activationFunction_{activation == RELU ? reluFcn : activation == SIGMOID ? sigmoidFcn : activation == LINEAR ? linearFcn : activation == TANGENT ? tangentFcn : leakyRelyFcn},")],'same'),
('soft-loop','C18,C24',[(S,"    const auto  offset_X = X - max_val;\n    // Apply the softmax formula\n    const SimpleMatrix<double> exp_X = my_cnn::exp(offset_X);","    SimpleMatrix<double> exp_X = X;\n    for (double& v : exp_X) v = std::exp(v - max_val);")],'same'),
('soft-loop2','C18,C24',[(S,"    const auto  offset_X = X - max_val;\n\n    // Apply the softmax formula\n    const SimpleMatrix<double> exp_X = my_cnn::exp(offset_X);\n    return exp_X/my_cnn::sum(exp_X);","    SimpleMatrix<double> exp_X = X;\n    double total = 0;\n    for (double& v : exp_X){ v = std::exp(v - max_val); total += v; }\n    exp_X /= total;\n    return exp_X;")],'same'),
('soft-back-ref','C18',[(S,"    if (!true_labels_.at(batch_idx)){\n        throw ModelLayerException(\"Cannot backpropagate softmax layer without knowledge of true label\");\n    }\n    return getdLdX(output, *true_labels_.at(batch_idx));","    const auto& label = true_labels_.at(batch_idx);\n    if (!label.has_value())\n        throw ModelLayerException(\"Cannot backpropagate softmax layer without knowledge of true label\");\n    SimpleMatrix<double> grad = output;\n    grad[label.value()] -= 1.0;\n    return grad;")],'same'),
('soft-check','C24,C18',[(S,"    return (input.isColumn() || input.isRow()) && \n            (input.size() == output_label_count_);","    if (input.size() != output_label_count_) return false;\n    return input.isRow() || input.isColumn();")],'same'),
('soft-batch','C18,C22',[(S,"    true_labels_.assign(batch_size, std::nullopt);","    true_labels_.clear();\n    true_labels_.resize(batch_size);")],'same'),
('ker-apply','C20',[(K,"        if (weight_gradients_[i].size() == 0) continue;","        const bool empty_slot = weight_gradients_[i].size() == 0;\n        if (empty_slot) continue;")],'same'),
('ser-place','C25,C27',[(P,"    ss << (type_ == MAX ? \"MAX\\n\" : \n           type_ == MIN ? \"MIN\\n\" : \n                          \"AVG\\n\");","    switch (type_){\n        case MAX: ss << \"MAX\\n\"; break;\n        case MIN: ss << \"MIN\\n\"; break;\n        default:  ss << \"AVG\\n\";\n    }")],'same'),
# bugs
('b-conn-bias-lr','C20',[(C,"    biases  -= learning_rate * avg_bias_grad;","    biases  -= avg_bias_grad * (learning_rate > 1 ? 1 : learning_rate);")],'bug'),
('b-conn-count','C20',[(C,"    avg_bias_grad /= num_gradients;","    avg_bias_grad /= bias_gradients_.size();")],'bug'),
('b-conn-reshape','C15',[(C,"    dLdX.reshape(X.dim());\n    return dLdX;","    dLdX.reshape(input_dim_);\n    return dLdX;")],'bug'),
('b-conn-check','C24',[(C,"return ( weights.dims() == expected_size );","return weights.size() == biases.size()*input_data.size() || weights.dim(1) < input_data.size();")],'bug'),
('b-pool-ceil','C17',[(P,"(input_dim.y - dim_.y + 1.0f)/stride_.y","(input_dim.y - dim_.y + 1.0f)/stride_.x")],'bug'),
('b-pool-minmax','C17',[(P,"                dLdx(*it) += dLdY(it.idx());","                dLdx(*it) = dLdY(it.idx());")],'bug'),
('b-pool-avg-size','C17',[(P,"const size_t size = dim_.size();","const size_t size = dim_.x*dim_.x;")],'bug'),
('b-act-leaky','C16',[(A,"double leakyRelyGradFcn(double val) {return val > 0 ? 1.0 : 0.1;}","double leakyRelyGradFcn(double val) {return val > 0 ? 1.0 : 0.01;}")],'bug'),
('b-act-tanh','C16',[(A,"return 1.0 - tangentFcn(val)*tangentFcn(val);","return 1.0 - val*val;")],'bug'),
('b-act-load','C25,C16',[(A,"    activationGradientFunction_ = activation_gradients()[activation_];\n\n    return","    return"),],'bug'),
('b-soft-abs','C18',[(S,"    const double max_val = my_cnn::max(X);","    const double max_val = my_cnn::max(my_cnn::abs(X));")],'same'),
('b-soft-row','C24',[(S,"    return (input.isColumn() || input.isRow()) && ","    return input.isFlat() && ")],'bug'),
('b-soft-at','C18',[(S,"true_labels_.at(batch_idx) = true_label_idx;","true_labels_.at(batch_idx % true_labels_.size()) = true_label_idx;")],'bug'),
('b-pool-batch','C17,C22',[(P,"SimpleMatrix<dim3>& indices = affected_indices_[batch_idx];\n    indices.resize","SimpleMatrix<dim3>& indices = affected_indices_[batch_idx % affected_indices_.size() > 3 ? 3 : batch_idx];\n    indices.resize")],'bug'),
]
