S='src/SimpleMatrix.tpp'; K='src/Layers/Kernel.cpp'; P='src/Layers/Pooling.cpp'; A='src/Layers/Activation.cpp'; C='src/Layers/ConnectedLayer.cpp'; X='src/Layers/Softmax.cpp'; Z='include/cnn_from_scratch/Serialization.h'; AH='include/cnn_from_scratch/Layers/Activation.h'
WL='''        for (int x = 0; x < dim_.x; x++){
            for (int y = 0; y < dim_.y; y++){
                const T& val'''
RL='''        for (int x = 0; x < dim.x; x++){
            // For each entry, write to the corresponding value
            for (int y = 0; y < dim.y; y++){
'''
KR='''    dim_.x = serialization::expect<int>(is, "x");
    dim_.y = serialization::expect<int>(is, "y");
    dim_.z = serialization::expect<int>(is, "z");
'''
MUTS=[
('k-stride-dropped','C25',[(K,'    stride = serialization::expect<unsigned>(is, "stride");','    serialization::expect<unsigned>(is, "stride");')],'bug'),
('k-stride-wrong','C25',[(K,'place(ss, stride, "stride")','place(ss, num_filters, "stride")')],'bug'),
('k-y-x','C25',[(K,'place(ss, dim_.y, "y")','place(ss, dim_.x, "y")')],'bug'),
('k-n-dropped','C25',[(K,'    num_filters = serialization::expect<unsigned>(is, "n");','    serialization::expect<unsigned>(is, "n");')],'bug'),
('k-biases-weights','C25',[(K,'''    biases.serialize(ss);
    return''','''    weights.serialize(ss);
    return''')],'bug'),
('k-order','C25',[(K,'''    serialization::place(ss, num_filters, "n");
    serialization::place(ss, stride, "stride");''','''    serialization::place(ss, stride, "stride");
    serialization::place(ss, num_filters, "n");''')],'bug'),
('k-int16','C25',[(K,'stride = serialization::expect<unsigned>','stride = serialization::expect<bool>')],'bug'),
('m-transposed','C25',[(S,RL,RL.replace('int x = 0; x < dim.x; x++','int y = 0; y < dim.y; y++',1).replace('            for (int y = 0; y < dim.y; y++','            for (int x = 0; x < dim.x; x++'))],'bug'),
('m-precision','C25',[(S,'os << std::fixed;','os << std::fixed << std::setprecision(3);')],'bug'),
('m-nosep','C25',[(S,'std::setw(16) << val << " ";','std::setw(8) << val;')],'bug'),
('m-noresize','C25',[(S,'    this->resize(dim);\n\n    // Retrieve the rows','    if (dim.x > dim_.x) this->resize(dim);\n\n    // Retrieve the rows')],'bug'),
('m-first-slice','C25',[(S,'is >> this->operator()(x, y, z);','is >> this->operator()(x, y, 0);')],'bug'),
('m-float','C25',[(S,'is >> this->operator()(x, y, z);','int v = 0; is >> v; this->operator()(x, y, z) = v;')],'bug'),
('m-no-blank','C25',[(S,'''        // Newline
        serialization::clearLine(is);
    }
''','''    }
''')],'bug'),
('m-abs','C25',[(S,'std::setw(16) << val << " ";','std::setw(16) << (val < 0 ? -val : val) << " ";')],'bug'),
('c-input-dim','C25',[(C,'input_dim_ = dim3(weights.dim().y, 1, 1);','input_dim_ = dim3(weights.dim().x, 1, 1);')],'bug'),
('c-not-init','C25',[(C,'''    initialized_ = true;
    return true;''','''    return true;''')],'bug'),
('c-bias-swap','C25',[(C,'if (!biases.deserialize(is)) return false;','if (!biases.deserialize(is)) return false; biases *= 0.5;')],'bug'),
('p-min-avg','C25',[(P,'type_ == MIN ? "MIN\\n" : ','type_ == AVG ? "MIN\\n" : ')],'bug'),
('p-stride-swap','C25',[(P,'place(ss, stride_.x, "x")','place(ss, stride_.y, "x")')],'bug'),
('p-stride-dim','C25',[(P,'stride_.y = serialization::expect<int>(is, "y");','stride_.y = serialization::expect<int>(is, "y"); stride_ = dim_;')],'bug'),
('p-avg-read','C25',[(P,'if (type_string == "AVG") type_ = AVG;','if (type_string == "AVG") type_ = MIN;')],'bug'),
('a-grad-stale','C25',[(A,'    activationGradientFunction_ = activation_gradients()[activation_];\n','')],'bug'),
('a-fn-stale','C25',[(A,'    activationFunction_         = activation_functions()[activation_];\n','')],'bug'),
('s-tag','C25',[(X,'return "Softmax\\n";','return "Softmax";')],'bug'),
('z-place-nonl','C25',[(Z,"<< val << '\\n'; ","<< val; ")],'bug'),
('z-expect-noclear','C25',[(Z,'''        clearLine(is);
        return output;''','''        return output;''')],'bug'),
# behaviour kept
('q-chain','C25',[(S,'''    is >> dim.x;
    is >> dim.y;
    is >> dim.z;

    if (is.fail()) return false;''','''    if (!(is >> dim.x >> dim.y >> dim.z)) return false;''')],'same'),
('q-val','C25',[(S,'''                const T& val = this->operator()(x, y, z);
                os << std::setw(16) << val << " ";''','''                os << std::setw(16);
                os << (*this)(x, y, z);
                os << ' ';''')],'same'),
('q-width','C25',[(S,'std::setw(16)','std::setw(20)')],'same'),
('q-tmp-read','C25',[(S,'''                is >> this->operator()(x, y, z);
                if (is.fail()) return false;''','''                T entry{};
                if (!(is >> entry)) return false;
                (*this)(x, y, z) = entry;''')],'same'),
('q-while','C25',[(S,'''            for (int y = 0; y < dim.y; y++){
                is >>''','''            int y = -1;
            while (++y < dim.y){
                is >>''')],'same'),
('q-ptr-read','C25',[(S,'    for (int z = 0; z < dim.z; z++){\n'+RL,'    const auto dim_read = dim;\n    for (int z = 0; z < dim_read.z; ++z){\n'+RL)],'same'),
('q-order-both','C25',[(K,'''    serialization::place(ss, num_filters, "n");
    serialization::place(ss, stride, "stride");''','''    serialization::place(ss, stride, "stride");
    serialization::place(ss, num_filters, "n");'''),(K,'''    num_filters = serialization::expect<unsigned>(is, "n");

    // Get the stride
    stride = serialization::expect<unsigned>(is, "stride");
''','''    stride = serialization::expect<unsigned>(is, "stride");
    num_filters = serialization::expect<unsigned>(is, "n");
''')],'same'),
('q-combined','C25',[(K,'''    if (!biases.deserialize(is)) return false;

    return true;''','''    return biases.deserialize(is);''')],'same'),
('q-dim-local','C25',[(K,KR,'''    const int kx = serialization::expect<int>(is, "x");
    const int ky = serialization::expect<int>(is, "y");
    const int kz = serialization::expect<int>(is, "z");
    dim_ = dim3(kx, ky, kz);
''')],'same'),
('q-ostream','C25',[(K,'''    std::stringstream ss;
    ss << "Kernel\\n";''','''    std::ostringstream ss;
    ss << std::string("Kernel") << std::endl;''')],'same'),
('q-place-inline','C25',[(C,'''    serialization::place(ss, weights.dim().x, "x");
    serialization::place(ss, weights.dim().y, "y");''','''    const auto weights_dim = weights.dim();
    ss << "x " << weights_dim.x << "\\n";
    ss << "y " << weights_dim.y << "\\n";''')],'same'),
('q-c-reorder','C25',[(C,'''    input_dim_ = dim3(weights.dim().y, 1, 1);
    initialized_ = true;''','''    initialized_ = true;
    const int inputs = weights.dim().y;
    input_dim_ = {inputs, 1, 1};''')],'same'),
('q-pool-switch','C25',[(P,'''    ss << (type_ == MAX ? "MAX\\n" : 
           type_ == MIN ? "MIN\\n" : 
                          "AVG\\n");''','''    switch (type_){
        case MAX: ss << "MAX\\n"; break;
        case MIN: ss << "MIN\\n"; break;
        default:  ss << "AVG\\n"; break;
    }''')],'same'),
('q-pool-name','C25',[(P,'''    ss << (type_ == MAX ? "MAX\\n" : 
           type_ == MIN ? "MIN\\n" : 
                          "AVG\\n");''','''    const char* type_name = "AVG";
    if (type_ == MAX) type_name = "MAX";
    else if (type_ == MIN) type_name = "MIN";
    ss << type_name << "\\n";''')],'same'),
('q-pool-str','C25',[(P,'''    ss << (type_ == MAX ? "MAX\\n" : 
           type_ == MIN ? "MIN\\n" : 
                          "AVG\\n");''','''    std::string type_name;
    if (type_ == MAX) type_name = "MAX";
    else if (type_ == MIN) type_name = "MIN";
    else type_name = "AVG";
    ss << type_name << '\\n';''')],'same'),
('q-pool-early','C25',[(P,'''    else 
        throw std::runtime_error("Unknown pooling type: " + type_string);
''','''    if (type_string != "MAX" && type_string != "MIN" && type_string != "AVG"){
        throw std::runtime_error("Unknown pooling type: " + type_string);
    }
''')],'same'),
('q-act-helper','C25',[(A,'''    activation_ = fromString(activation_string);
    activationFunction_         = activation_functions()[activation_];
    activationGradientFunction_ = activation_gradients()[activation_];
    return true;''','''    *this = Activation(fromString(activation_string));
    return true;''')],'same'),
('q-act-concat','C25',[(A,'''    std::stringstream ss;
    ss << "Activation\\n";
    ss << toString(activation_) << "\\n";
    return ss.str();''','''    return "Activation\\n" + toString(activation_) + "\\n";''')],'same'),
('q-soft-ss','C25',[(X,'return "Softmax\\n";','std::stringstream ss;\n    ss << "Softmax" << "\\n";\n    return ss.str();')],'same'),
('q-expect-getline','C25',[(Z,'''    std::string result(expected.size(), ' ');
    is.read(result.data(), result.size());
''','''    const size_t length = expected.size();
    std::string result(length, '\\0');
    is.read(&result[0], length);
''')],'same'),
('q-expect-ifelse','C25',[(Z,'''    if (expected != result){
        throw''','''    if (!(result == expected)){
        throw''')],'same'),
('q-place-str','C25',[(Z,"    os << label << ' ' << val << '\\n'; ","    os << label;\n    os << \" \";\n    os << val << \"\\n\";")],'same'),
('q-clearline','C25',[(Z,"std::numeric_limits<int>::max(), '\\n'","std::numeric_limits<std::streamsize>::max(), '\\n'")],'same'),
]
