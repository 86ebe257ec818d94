M='src/ModelDescription.tpp'; MA='src/main.cpp'; K='src/Layers/Kernel.cpp'; P='src/Layers/Pooling.cpp'; C='src/Layers/ConnectedLayer.cpp'; S='src/Layers/Softmax.cpp'
KH='include/cnn_from_scratch/Layers/Kernel.h'; PH='include/cnn_from_scratch/Layers/Pooling.h'
LOCK='''                    std::unique_lock<std::mutex> lock(data_mtx);
                    if (!data_source.hasAvailableData()){
                        break;
                    }
                    LabeledInput<InputDataType> data_point = data_source.getNextDataPoint();
                    lock.unlock();
'''
MUTS=[
('nonatomic','C22',[(M,'std::atomic_int success_count','int success_count')],'bug'),
('idx-by-ref','C22',[(M,'[&, thread_idx](){','[&](){')],'bug'),
('unlock-early','C22',[(M,LOCK,LOCK.replace('                    lock.unlock();\n','').replace('                    LabeledInput','                    lock.unlock();\n                    LabeledInput'))],'bug'),
('test-outside','C22',[(M,LOCK,'''                    if (!data_source.hasAvailableData()){
                        break;
                    }
                    std::unique_lock<std::mutex> lock(data_mtx);
                    LabeledInput<InputDataType> data_point = data_source.getNextDataPoint();
                    lock.unlock();
''')],'bug'),
('two-sections','C22',[(M,LOCK,'''                    std::unique_lock<std::mutex> lock(data_mtx);
                    const bool more = data_source.hasAvailableData();
                    lock.unlock();
                    if (!more) break;
                    lock.lock();
                    LabeledInput<InputDataType> data_point = data_source.getNextDataPoint();
                    lock.unlock();
''')],'bug'),
('local-mutex','C22',[(M,'        std::mutex data_mtx;\n',''),(M,'                    std::unique_lock<std::mutex> lock(data_mtx);','                    std::mutex data_mtx;\n                    std::unique_lock<std::mutex> lock(data_mtx);')],'bug'),
('thread-mutex','C22',[(M,'        std::mutex data_mtx;\n',''),(M,'                size_t start  = ','                std::mutex data_mtx;\n                size_t start  = ')],'bug'),
('shared-result','C22',[(M,'batch_results[batch_idx];','batch_results[thread_idx];')],'bug'),
('shared-result2','C22',[(M,'batch_results[batch_idx];','batch_results[batch_idx / 2];')],'bug'),
('defer','C22',[(M,'lock(data_mtx);','lock(data_mtx, std::defer_lock);')],'bug'),
('shared-scalar','C22',[(M,'        int thread_idx = 0;\n','        int thread_idx = 0;\n        int last_idx = 0;\n'),(M,'                        success_count++;','                        success_count++;\n                    last_idx = batch_idx;')],'bug'),
('hoist-result','C22',[(M,'        std::mutex data_mtx;\n','        std::mutex data_mtx;\n        LabeledInput<InputDataType> data_point;\n'),(M,'LabeledInput<InputDataType> data_point = data_source','data_point = data_source')],'bug'),
('kern-slot0','C22',[(K,'bias_gradients_[batch_idx] ','bias_gradients_[0] ')],'bug'),
('kern-scratch','C22',[(KH,'    std::vector<SimpleMatrix<double>> weight_gradients_;','    std::vector<SimpleMatrix<double>> weight_gradients_;\n    SimpleMatrix<double> scratch_;'),(K,'    weight_gradients_[batch_idx] = getdLdW(X, dLdZ);','    scratch_ = getdLdW(X, dLdZ);\n    weight_gradients_[batch_idx] = scratch_;')],'bug'),
('kern-static','C22',[(K,'    SimpleMatrix<double> output(outputSize(input_data));','    static SimpleMatrix<double> output;\n    output = SimpleMatrix<double>(outputSize(input_data));')],'bug'),
('kern-static-count','C22',[(K,'    // Convolve the input','    static size_t calls = 0; calls++;\n    // Convolve the input')],'bug'),
('kern-update-in-bwd','C22',[(K,'    // biases  -= learning','    biases -= 0.0 * bias_gradients_[batch_idx];\n   // ')],'bug'),
('pool-slot','C22',[(P,'SimpleMatrix<dim3>& indices = affected_indices_[batch_idx];\n    indices.resize','SimpleMatrix<dim3>& indices = affected_indices_.front();\n    indices.resize')],'bug'),
('pool-grow','C22',[(P,'    SimpleMatrix<dim3>& indices = affected_indices_[batch_idx];\n    indices.resize','    if (affected_indices_.size() <= batch_idx + 1) affected_indices_.resize(batch_idx + 2);\n    SimpleMatrix<dim3>& indices = affected_indices_[batch_idx];\n    indices.resize')],'bug'),
('pool-read','C22',[(P,'    SimpleMatrix<dim3>& indices = affected_indices_[batch_idx];\n\n','    SimpleMatrix<dim3>& indices = affected_indices_[0];\n\n')],'bug'),
('conn-nolock','C22',[(C,'    std::lock_guard<std::mutex> lock(init_mutex);\n','')],'bug'),
('conn-dcl','C22',[(C,'    static std::mutex','    if (initialized_) return weights.dims() == dim3(biases.size(), input_data.size(), 1);\n    static std::mutex')],'bug'),
('conn-input-dim','C22',[(C,'    // The input size is always','    input_dim_ = input_data.dim();\n    // The input size is always')],'bug'),
('soft-slot','C22',[(S,'true_labels_.at(batch_idx) = ','true_labels_.at(0) = ')],'bug'),
('val-slot0','C22',[(MA,'forwardPropagation(Data.data, worker_idx)','forwardPropagation(Data.data)')],'bug'),
('val-slot-half','C22',[(MA,'forwardPropagation(Data.data, worker_idx)','forwardPropagation(Data.data, worker_idx/2)')],'bug'),
('val-nolock','C22',[(MA,'                std::unique_lock<std::mutex> lock(mtx);\n',''),(MA,'                lock.unlock();\n','')],'bug'),
('val-nonatomic','C22',[(MA,'std::atomic<int> correct','int correct')],'bug'),
('val-batchsize','C22',[(MA,'layer->setBatchSize(workers.size());','layer->setBatchSize(workers.size() - 1);')],'bug'),
('val-by-ref','C22',[(MA,'[&, worker_idx](){','[&](){')],'bug'),
('val-hoist','C22',[(MA,'    int num_images = db','    my_cnn::Image Data;\n    int num_images = db'),(MA,'auto Data = db.getImage(i);','Data = db.getImage(i);')],'bug'),
# same behaviour
('s-scope','C22,C23',[(M,LOCK,'''                    LabeledInput<InputDataType> data_point;
                    {
                        std::lock_guard<std::mutex> guard(data_mtx);
                        if (!data_source.hasAvailableData()) break;
                        data_point = data_source.getNextDataPoint();
                    }
''')],'same'),
('s-fetch-add','C22,C23',[(M,'success_count++','success_count.fetch_add(1)')],'same'),
('s-mutex-out','C22,C23',[(M,'        std::mutex data_mtx;\n',''),(M,'    const int num_batches =','    std::mutex data_mtx;\n    const int num_batches =')],'same'),
('s-local-result','C22,C23',[(M,'                    ModelResults<OutputDataType>& result = batch_results[batch_idx];\n                    result =','                    ModelResults<OutputDataType> result =')],'same'),
('s-capture','C22,C23',[(M,'[&, thread_idx](){','[this, &data_source, &data_mtx, &batch_results, &success_count, &params, work_count, thread_idx](){')],'same'),
('s-local-count','C22,C23',[(M,'                // Process each data','                int hits = 0;\n                // Process each data'),(M,'                        success_count++;\n                }\n','                        hits++;\n                }\n                success_count += hits;\n')],'same'),
('s-manual-lock','C22,C23',[(M,LOCK,'''                    data_mtx.lock();
                    if (!data_source.hasAvailableData()){
                        data_mtx.unlock();
                        break;
                    }
                    LabeledInput<InputDataType> data_point = data_source.getNextDataPoint();
                    data_mtx.unlock();
''')],'same'),
('s-kern-ref','C22',[(K,'    weight_gradients_[batch_idx] = getdLdW(X, dLdZ);','    auto& slot = weight_gradients_[batch_idx];\n    slot = getdLdW(X, dLdZ);')],'same'),
('s-kern-tls','C22',[(K,'    // Convolve the input','    thread_local size_t calls = 0; calls++;\n    // Convolve the input')],'same'),
('s-conn-unique','C22',[(C,'std::lock_guard<std::mutex> lock(init_mutex)','std::unique_lock<std::mutex> lock(init_mutex)')],'same'),
('s-soft-brackets','C22',[(S,'true_labels_.at(batch_idx) = ','true_labels_[batch_idx] = ')],'same'),
('s-val-guard','C22',[(MA,'''                std::unique_lock<std::mutex> lock(mtx);
                auto Data = db.getImage(i);
                lock.unlock();
''','''                my_cnn::Image Data;
                {
                    std::lock_guard<std::mutex> lock(mtx);
                    Data = db.getImage(i);
                }
''')],'same'),
('s-val-if','C22',[(MA,'                correct_count += model.output_labels[result.label_idx] == std::to_string(Data.label);','                if (model.output_labels[result.label_idx] == std::to_string(Data.label)) correct_count++;')],'same'),
('s-val-join','C22',[(MA,'    std::for_each(workers.begin(), workers.end(), [](std::thread& t){t.join();});','    for (auto& t : workers) t.join();')],'same'),
]
