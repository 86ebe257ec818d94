D='src/ModelDescription.tpp'; Z='include/cnn_from_scratch/Serialization.h'; S='src/SimpleMatrix.tpp'; C='src/Layers/ConnectedLayer.cpp'; P='src/Layers/Pooling.cpp'; K='src/Layers/Kernel.cpp'
W='''        for (std::shared_ptr<my_cnn::ModelLayer>& layer : layers){
            f << "(" << i++ << ") ----------\\n";
            f << layer->serialize();
        }
'''
MUTS=[
('kinds-swapped','C26',[(D,'if (label == "Kernel"){','if (label == "Pooling"){'),(D,'else if (label == "Pooling"){','else if (label == "Kernel"){')],'bug'),
('dup-activation','C26',[(D,'if (not A.deserialize(f)) return false;','if (not A.deserialize(f)) return false;\n                if (layers.size() == 5) addActivation(LINEAR);')],'bug'),
('labels-reversed','C26',[(D,'labels[i] = label;','labels[size - 1 - i] = label;')],'bug'),
('labels-skip','C26',[(D,'for (OutputDataType& label : output_labels){\n        f << label << "\\n";','for (OutputDataType& label : output_labels){\n        if (&label != &output_labels[0] || output_labels.size() < 12) f << label << "\\n";')],'bug'),
('softmax-lost','C26',[(D,'setOutputLabels(labels, has_softmax ? SOFTMAX : UNSPECIFIED_OUTPUT);','setOutputLabels(labels, has_softmax && size > 1 ? SOFTMAX : UNSPECIFIED_OUTPUT);')],'bug'),
('layers-reversed','C26',[(D,W,'''        for (auto it = layers.begin(); it != layers.end(); it++){
            f << "(" << i++ << ") ----------\\n";
            f << (*(layers.end() - (layers.size() > 4 ? it - layers.begin() + 1 : layers.size() - (it - layers.begin()))))->serialize();
        }
''')],'bug'),
('label-count','C26',[(D,'f << "\\nOutput labels " << output_labels.size() << "\\n";','f << "\\nOutput labels " << (output_labels.size() & 0xff) << "\\n";')],'bug'),
('words','C26',[(D,'''                        std::getline(f, label);
                        if (f.fail()) return false;''','''                        f >> label;
                        if (f.fail()) return false;
                        serialization::clearLine(f);''')],'bug'),
('no-flush','C27',[(D,'    f << std::endl;\n\n    return f.good();','    f << "\\n";\n\n    return f.good();')],'bug'),
('flush-early','C27',[(D,'    f << std::endl;\n\n    return f.good();','    f << std::endl;\n    f << " ";\n\n    return f.good();')],'bug'),
('good-early','C27',[(D,'    f << std::endl;\n\n    return f.good();','    bool ok = f.good();\n    f << std::endl;\n\n    return ok;')],'bug'),
('save-true','C27',[(D,'    f << std::endl;\n\n    return f.good();','    f << std::endl;\n\n    return f.is_open();')],'bug'),
('save-eof','C27',[(D,'    f << std::endl;\n\n    return f.good();','    f << std::endl;\n\n    return not f.eof();')],'bug'),
('catch-continue','C27',[(D,'        std::cout << "Something went wrong, file was not saved correctly\\n";\n        return false;','        std::cout << "Something went wrong, file was not saved correctly\\n";')],'bug'),
('catch-inner','C27',[(D,'f << layer->serialize();','try{ f << layer->serialize(); }catch(std::exception&){ f << "Activation\\nlinear\\n"; }')],'bug'),
('load-open','C27',[(D,'    std::ifstream f(filename);\n    if (not f) return false;','    std::ifstream f(filename);'),(D,'return labels_loaded;','return labels_loaded || not layers.size();')],'bug'),
('load-unknown','C27',[(D,'else if (not label.empty()) return false;','else if (not label.empty()) continue;'),(D,'return labels_loaded;','return labels_loaded || layers.size();')],'bug'),
('unknown-skip','C27',[(D,'            else if (not label.empty()) return false;\n','')],'bug'),
('load-nolabels','C27',[(D,'return labels_loaded;','return layers.size() > 0;')],'bug'),
('catch-true','C27',[(D,'std::cout << "loadModel runtime error: " << e.what() << "\\n";\n            return false;','std::cout << "loadModel runtime error: " << e.what() << "\\n";\n            break;'),(D,'return labels_loaded;','return labels_loaded or f.eof();')],'bug'),
('label-fail-int','C27',[(D,'                        f >> label;\n                        if (f.fail()) return false;','                        f >> label;')],'bug'),
('label-fail-str','C27',[(D,'                        std::getline(f, label);\n                        if (f.fail()) return false;','                        std::getline(f, label);')],'bug'),
('expect-nofail','C27',[(Z,'''        if (is.fail()){
            throw std::runtime_error("Error loading value. Could not read the value for \\"" + expected + "\\"");
        }
''','')],'bug'),
('expect-prefix','C27',[(Z,'if (expected != result){','if (expected[0] != result[0]){')],'bug'),
('matrix-nofail','C27',[(S,'                if (is.fail()) return false;\n','')],'bug'),
('matrix-fail-row','C27',[(S,'                if (is.fail()) return false;\n            }\n','                if (is.fail() && x + 1 == dim.x) return false;\n            }\n')],'same'),
('matrix-fail-end','C27',[(S,'                if (is.fail()) return false;\n            }\n','                if (is.fail()) break;\n            }\n')],'bug'),
('pool-kind-default','C27',[('src/Layers/Pooling.cpp','        throw std::runtime_error("Unknown pooling type: " + type_string);','        type_ = AVG;')],'bug'),
('kernel-wres','C27',[(K,'if (!weights.deserialize(is)) return false;','weights.deserialize(is);')],'same'),
# behaviour kept
('q-close','C26,C27',[(D,'    f << std::endl;\n\n    return f.good();','    f << "\\n";\n    f.close();\n\n    return !f.fail();')],'same'),
('q-flush','C26,C27',[(D,'    f << std::endl;\n\n    return f.good();','    f << std::flush;\n    const bool ok = static_cast<bool>(f);\n    return ok;')],'same'),
('q-isopen','C26,C27',[(D,'    std::ifstream f(filename);\n    if (not f) return false;','    std::ifstream f;\n    f.open(filename);\n    if (!f.is_open()) return false;')],'same'),
('q-index','C26,C27',[(D,W,'''        for (; i < layers.size(); i++){
            f << "(" << i << ") ----------\\n" << layers[i]->serialize();
        }
''')],'same'),
('q-pushback','C26,C27',[(D,'std::vector<OutputDataType> labels(size);','std::vector<OutputDataType> labels;'),(D,'labels[i] = label;','labels.push_back(label);')],'same'),
('q-flagret','C26,C27',[(D,'                setOutputLabels(labels, has_softmax ? SOFTMAX : UNSPECIFIED_OUTPUT);\n','                if (has_softmax) setOutputLabels(labels, SOFTMAX);\n                else setOutputLabels(labels, UNSPECIFIED_OUTPUT);\n')],'same'),
('q-catchall','C26,C27',[(D,'catch(std::runtime_error& e){','catch(const std::exception& e){')],'same'),
('q-labelidx','C26,C27',[(D,'for (OutputDataType& label : output_labels){\n        f << label << "\\n";','for (size_t l = 0; l < output_labels.size(); ++l){\n        f << output_labels[l] << \'\\n\';')],'same'),
('q-getline-if','C26,C27',[(D,'                        std::getline(f, label);\n                        if (f.fail()) return false;','                        if (!std::getline(f, label)) return false;')],'same'),
('q-clear-getline','C26,C27',[(Z,"S.ignore(std::numeric_limits<int>::max(), '\\n');",'std::string skipped;\n    std::getline(S, skipped);')],'same'),
]
