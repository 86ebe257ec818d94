M='src/ModelDescription.tpp'
MUTS=[
('ep-floor-work','C23',[(M,"std::ceil((float)params.batch_size / params.num_threads)","std::floor((float)params.batch_size / params.num_threads)")],'bug'),
('ep-floor-batches','C23',[(M,"std::ceil((float)data_source.size() / params.batch_size)","data_source.size() / params.batch_size")],'bug'),
('ep-cutoff-overlap','C23',[(M,"std::min((thread_idx+1) * work_count, params.batch_size)","std::min((thread_idx+1) * work_count + (thread_idx == 3), params.batch_size)")],'bug'),
('ep-cutoff-nomin','C23',[(M,"std::min((thread_idx+1) * work_count, params.batch_size)","(thread_idx+1) * work_count")],'bug'),
('ep-start','C23',[(M,"size_t start  = thread_idx * work_count;","size_t start  = thread_idx * work_count + (thread_idx > 4);")],'bug'),
('ep-join-late','C23',[(M,"""        for (std::thread& t : workers){
            t.join();
        }

        // Apply the update step
        for (auto& layer : layers){
            layer->applyBatch(params.learning_rate);
        }
""","""        for (auto& layer : layers){
            layer->applyBatch(params.learning_rate);
        }
        for (std::thread& t : workers){
            t.join();
        }
""")],'bug'),
('ep-apply-each','C23',[(M,"""            t.join();
        }

        // Apply the update step
        for (auto& layer : layers){
            layer->applyBatch(params.learning_rate);
        }
""","""            t.join();
        for (auto& layer : layers){
            layer->applyBatch(params.learning_rate);
        }
        }
""")],'bug'),
('ep-lr','C23',[(M,"layer->applyBatch(params.learning_rate)","layer->applyBatch(params.learning_rate / params.batch_size)")],'bug'),
('ep-skip-first-layer','C23',[(M,"""        for (auto& layer : layers){
            layer->applyBatch(params.learning_rate);
        }""","""        for (size_t i = 1; i < layers.size(); i++){
            layers[i]->applyBatch(params.learning_rate);
        }""")],'bug'),
('ep-count-before','C23',[(M,"if (result.label_idx == result.true_label_idx)\n                        success_count++;","if (result.label_idx == result.true_label_idx || batch_idx == 5)\n                        success_count++;")],'bug'),
('ep-noreset','C23',[(M,"        data_source.reset();","        if (epoch + 1 < params.num_epochs) data_source.reset();")],'bug'),
('ep-epochs','C23',[(M,"epoch < params.num_epochs","epoch <= params.num_epochs")],'bug'),
('ep-batchsize','C23',[(M,"layer->setBatchSize(params.batch_size)","layer->setBatchSize(params.num_threads)")],'bug'),
('ep-label-slot','C23',[(M,"backwardsPropagation(result, data_point.label, batch_idx)","backwardsPropagation(result, data_point.label, batch_idx % 8)")],'bug'),
('ep-thread-idx-same','C23',[(M,"            thread_idx++;\n","            if (thread_idx + 1 < params.batch_size) thread_idx++;\n")],'bug'),
('ep-intceil','C23',[(M,"std::ceil((float)params.batch_size / params.num_threads)","(params.batch_size + params.num_threads - 1) / params.num_threads")],'same'),
('ep-indexed','C23',[(M,"for (std::thread& t : workers){\n            t = std::thread(","for (int w = 0; w < (int)workers.size(); w++){\n            workers[w] = std::thread(")],'same'),
('ep-emplace','C23',[(M,"std::vector<std::thread> workers(params.num_threads);","std::vector<std::thread> workers;"),(M,"for (std::thread& t : workers){\n            t = std::thread(","workers.clear();\n        for (int w = 0; w < params.num_threads; w++){\n            workers.emplace_back(")],'same'),
('ep-fetchadd','C23',[(M,"success_count++;","success_count.fetch_add(1);")],'same'),
('ep-while','C23',[(M,"for (int batch_idx = start; batch_idx < cutoff; batch_idx++){","int batch_idx = (int)start - 1;\n                while (++batch_idx < (int)cutoff){")],'same'),
('ep-scope-lock','C23',[(M,"""                    std::unique_lock<std::mutex> lock(data_mtx);
                    if (!data_source.hasAvailableData()){
                        break;
                    }
                    LabeledInput<InputDataType> data_point = data_source.getNextDataPoint();
                    lock.unlock();
""","""                    LabeledInput<InputDataType> data_point;
                    {
                        std::lock_guard<std::mutex> lock(data_mtx);
                        if (!data_source.hasAvailableData()) break;
                        data_point = data_source.getNextDataPoint();
                    }
""")],'same'),
('ep-lambda-named','C23',[(M,"            t = std::thread([&, thread_idx](){","            auto work = [&, thread_idx](){"),(M,"            });\n\n            thread_idx++;","            };\n            t = std::thread(work);\n            thread_idx++;")],'same'),
('ep-helper','C23',[(M,"        for (auto& layer : layers){\n            layer->applyBatch(params.learning_rate);\n        }","        std::for_each(layers.begin(), layers.end(), [&](auto& l){ l->applyBatch(params.learning_rate); });")],'same'),
('ep-local-count','C23',[(M,"                // Process each data input invidually","                int correct = 0;"),(M,"success_count++;\n                }","correct++;\n                }\n                success_count += correct;")],'same'),
('ep-reset-first','C23',[(M,"        data_source.reset();\n","        data_source.reset();\n        continue;\n")],'same'),
]
