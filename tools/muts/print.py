H='include/cnn_from_scratch/Matrix/SimpleMatrix.h'; S='src/SimpleMatrix.tpp'
IN='''                const T& val = M(dim3(i, j, k));
                os << (val < 0 ? "-" : " ") << std::setw(max_width) << abs(val) << (j == M.dim().y - 1 ? "]" : ",");
'''
MUTS=[
('cout-newline','C29',[(H,'        os << "\\n";\n    }\n\n    os.prec','        std::cout << "\\n";\n    }\n\n    os.prec'),(H,'#pragma once','#pragma once\n#include <iostream>')],'bug'),
('cout-flags','C29',[(H,'os << std::setprecision(2) << std::fixed;','std::cout << std::setprecision(2); os << std::setprecision(2) << std::fixed;'),(H,'#pragma once','#pragma once\n#include <iostream>')],'bug'),
('no-prec','C29',[(H,'    os.precision(default_precision);\n','')],'bug'),
('no-flags','C29',[(H,'    os.flags(default_flags);\n','')],'bug'),
('prec6','C29',[(H,'os.precision(default_precision);','os.precision(6);')],'bug'),
('defaultfloat','C29',[(H,'os.flags(default_flags);','os << std::defaultfloat;')],'bug'),
('unsetf','C29',[(H,'os.flags(default_flags);','os.unsetf(std::ios::floatfield);')],'bug'),
('fill','C29',[(H,'<< std::setw(max_width) <<','<< std::setfill(\'0\') << std::setw(max_width) <<')],'bug'),
('transposed','C29',[(H,'M(dim3(i, j, k))','M(dim3(j, i, k))')],'bug'),
('first-slice','C29',[(H,'M(dim3(i, j, k))','M(dim3(i, j, 0))')],'bug'),
('sign','C29',[(H,'(val < 0 ? "-" : " ")','(val < 1 ? "-" : " ")')],'bug'),
('nosign','C29',[(H,'(val < 0 ? "-" : " ")','" "')],'bug'),
('skip-last','C29',[(H,'for (int j = 0; j < M.dim().y; j++){\n                const T& val = M(','for (int j = 0; j < M.dim().y - (M.dim().z > 3); j++){\n                const T& val = M(')],'bug'),
('slices','C29',[(H,'k < M.dim().z; k++){\n            os','k < std::min<int>(M.dim().z, 3); k++){\n            os')],'bug'),
('ser-flags','C29',[(S,'    os.flags(default_flags);\n','')],'bug'),
('ser-order','C29',[(S,'''    for (int z = 0; z < dim_.z; z++){
        for (int x = 0; x < dim_.x; x++){
            for (int y = 0; y < dim_.y; y++){
                const T& val''','''    for (int z = 0; z < dim_.z; z++){
        for (int y = 0; y < dim_.y; y++){
            for (int x = 0; x < dim_.x; x++){
                const T& val''')],'bug'),
('ser-prec','C29',[(S,'os << std::fixed;','os << std::fixed << std::setprecision(8);')],'bug'),
('early-return','C29',[(H,'    os << "\\n";\n    for','    os << "\\n";\n    if (M.dim().x == 0) return os;\n    for')],'bug'),
('q-early','C29',[(H,'    const std::ios_base::fmtflags default_flags = os.flags();','    if (!os) return os;\n    const std::ios_base::fmtflags default_flags = os.flags();')],'same'),
('q-tmp','C29',[(H,IN,'''                const T val = M(dim3(i, j, k));
                os << (val < 0 ? '-' : ' ');
                os << std::setw(max_width) << (val < 0 ? -val : val);
                if (j + 1 == M.dim().y) os << "]"; else os << ",";
''')],'same'),
('q-width','C29',[(H,IN,'''                const auto& val = M(i, j, k);
                os << (val < 0 ? "-" : " ");
                os.width(max_width);
                os << abs(val) << (j == M.dim().y - 1 ? "]" : ",");
''')],'same'),
('q-setf','C29',[(H,'os << std::setprecision(2) << std::fixed;','os.precision(2);\n        os.setf(std::ios::fixed, std::ios::floatfield);')],'same'),
('q-uint','C29',[(H,'for (int j = 0; j < M.dim().y; j++)','for (uint32_t j = 0; j < M.dim().y; ++j)')],'same'),
('q-ret','C29',[(H,'const std::streamsize default_precision = os.precision();\n','std::streamsize default_precision = os.precision();\n'),(H,'''        os << std::setprecision(2) << std::fixed;
        max_width += 3;''','''        default_precision = os.precision(2);
        os << std::fixed;
        max_width += 3;''')],'same'),
('q-ser','C29',[(S,'                os << std::setw(16) << val << " ";\n            }\n            os << "\\n";','                os.width(16);\n                os << val << \' \';\n            }\n            os << std::endl;')],'same'),
]
