K='src/Layers/Kernel.cpp'
MUTS=[
('bias-in-inner','C13',[(K,"output.slice(i) += convolve(I, W, dim2(stride, stride));","output.slice(i) += convolve(I, W, dim2(stride, stride)); if (j == 1) output.slice(i) += biases[i];")],'bug'),
('fwd-filter-idx','C13',[(K,"weights.slices(i*dim_.z, dim_.z)","weights.slices(i*(dim_.z > 2 ? 2 : dim_.z), dim_.z)")],'bug'),
('fwd-stride-swapped','C13',[(K,"convolve(I, W, dim2(stride, stride))","convolve(I, W, dim2(stride, 1))")],'bug'),
('fwd-bias-last','C13',[(K,"output.slice(i) += biases[i];","output.slice(i) += biases[num_filters-1];")],'bug'),
('fwd-assign','C13',[(K,"output.slice(i) += convolve(","output.slice(i) = convolve(")],'bug'),
('fwd-check-weak','C13',[(K,"input_data.dim().x >= dim_.x && ","input_data.dim().x >= dim_.x || ")],'bug'),
('fwd-check-strict','C13',[(K,"input_data.dim().y >= dim_.y","input_data.dim().y > dim_.y")],'bug'),
('fwd-first-channels','C13',[(K,"for (size_t j = 0; j < dim_.z; j++){","for (size_t j = 0; j + (j>2) < dim_.z; j++){")],'bug'),
('bwd-dilate-off','C14',[(K,"dim3(it.idx().x*stride, it.idx().y*stride, it.idx().z)","dim3(it.idx().x*stride, it.idx().y, it.idx().z)")],'bug'),
('bwd-w-channel','C14',[(K,"X.subMatView({0, 0, channel_idx}, covered_dim)","X.subMatView({0, 0, channel_idx > 1 ? 1 : channel_idx}, covered_dim)")],'bug'),
('bwd-rot','C14',[(K,"rotate<2>(output_gradient)","output_gradient")],'bug'),
('bwd-bias-idx','C14',[(K,"dLdB[filter_idx] = sum(dLdY.slice(filter_idx));","dLdB[filter_idx] = sum(dLdY.slice(0));")],'bug'),
('bwd-noaccum','C14',[(K,"dLdX = dLdX + filter_gradient;","dLdX = filter_gradient;")],'bug'),
('bwd-batchidx','C14',[(K,"bias_gradients_[batch_idx]   =","bias_gradients_[0]   =")],'bug'),
('bwd-pad','C14',[(K,"padded.subMatView({filter_dim.x-1, filter_dim.y-1, 0}","padded.subMatView({filter_dim.x-1, filter_dim.x-1, 0}")],'bug'),
('bwd-accum-batch','C14',[(K,"weight_gradients_[batch_idx] = getdLdW(X, dLdZ);","auto g_ = getdLdW(X, dLdZ); weight_gradients_[batch_idx] = std::move(g_);")],'same'),
('fwd-while','C13',[(K,"for (size_t i = 0; i < num_filters; i++){\n        const auto filter","size_t i = 0; while (i < num_filters){\n        const auto filter"),(K,"output.slice(i) += biases[i];\n    }","output.slice(i) += biases[i];\n        ++i;\n    }")],'same'),
('fwd-swap-loops','C13',[(K,"for (size_t j = 0; j < dim_.z; j++){\n            // stic(\"Convolution\");","for (int j = dim_.z - 1; j >= 0; j--){")],'same'),
('fwd-bias-first','C13',[(K,"        for (size_t j = 0; j < dim_.z; j++){","        output.slice(i) += biases[i];\n        for (size_t j = 0; j < dim_.z; j++){"),(K,"        output.slice(i) += biases[i];\n    }","    }")],'same'),
('fwd-early','C13',[(K,"    if (!checkSize(input_data))\n        throw","    const bool fits = checkSize(input_data);\n    if (!fits)\n        throw")],'same'),
('fwd-helper','C13',[(K,"SimpleMatrix<double> Kernel::propagateForward(","static void addOne(SimpleMatrix<double>& o, size_t i, double v){ for (int y = 0; y < o.dim().y; y++) for (int x = 0; x < o.dim().x; x++) o(x, y, (int)i) += v; }\nSimpleMatrix<double> Kernel::propagateForward("),(K,"output.slice(i) += biases[i];","addOne(output, i, biases[i]);")],'same'),
('bwd-loopswap','C14',[(K,"for (int filter_idx = 0; filter_idx < num_filters; filter_idx++){\n        dLdB[filter_idx] = sum(dLdY.slice(filter_idx));\n    }","for (int f = num_filters - 1; f >= 0; --f){ double t = 0; for (double v : dLdY.slice(f)) t += v; dLdB(f,0,0) = t; }")],'same'),
]
