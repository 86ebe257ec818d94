MUTS=[
 ('img-swap', 'C34', [('include/cnn_from_scratch/imageUtil.h', 'float dist = max_val - val;\n            float mapped_val = range > 0 ? max_val * (1 - dist/range) : max_val;\n            unsigned char code = std::min(static_cast<double>(mapped_val)/max_val * 255, 255.0);', 'const double frac = range > 0 ? static_cast<double>(val - min)/range : 1.0;\n            const unsigned char code = std::min(frac * 255, 255.0);')], 'same'),
 ('img-int-code', 'C34', [('include/cnn_from_scratch/imageUtil.h', 'printf("\\033[48;2;%d;%d;%dm  ", (int)code, (int)code, (int)code);', 'const int c = code;\n            printf("\\033[48;2;%d;%d;%dm  ", c, c, c);')], 'same'),
 ('img-cout', 'C34', [('include/cnn_from_scratch/imageUtil.h', 'printf("\\033[48;2;%d;%d;%dm  ", (int)code, (int)code, (int)code);', 'std::cout << "\\033[48;2;" << +code << ";" << +code << ";" << +code << "m  ";')], 'same'),
 ('img-nocast', 'C34', [('include/cnn_from_scratch/imageUtil.h', 'unsigned char code = std::min(static_cast<double>(mapped_val)', 'int code = std::min(static_cast<double>(mapped_val)')], 'same'),
 ('img-call', 'C34', [('include/cnn_from_scratch/imageUtil.h', 'const T& val = M(idx);\n            float dist', 'const T val = M(idx.x, idx.y, idx.z);\n            float dist')], 'same'),
 ('img-while', 'C34', [('include/cnn_from_scratch/imageUtil.h', 'for (idx.x = 0; idx.x < M.dim().x; idx.x++){\n        for (idx.y = 0; idx.y < M.dim().y; idx.y++){\n            const T& val', 'const auto rows = M.dim().x, cols = M.dim().y;\n    for (idx.x = 0; idx.x < rows; ++idx.x){\n        for (idx.y = 0; idx.y < cols; ++idx.y){\n            const T& val')], 'same'),
 ('img-col-direct', 'C34', [('include/cnn_from_scratch/imageUtil.h', 'std::stringstream ss;\n            ss << "\\033[48;2";', 'std::ostream& ss = std::cout;\n            ss << "\\033[48;2";'), ('include/cnn_from_scratch/imageUtil.h', '            std::cout << ss.str();\n', '')], 'same'),
 ('img-col-unroll', 'C34', [('include/cnn_from_scratch/imageUtil.h', 'for (idx.z = 0; idx.z < 3; idx.z++){\n                const T& val = M(idx);\n                unsigned char code = std::min(static_cast<double>(val)/max_val * 255, 255.0);\n                ss << ";" << +code;\n            }', 'auto code = [&](int z) -> int { return static_cast<unsigned char>(std::min(static_cast<double>(M(idx.x, idx.y, z))/max_val * 255, 255.0)); };\n            ss << ";" << code(0) << ";" << code(1) << ";" << code(2);')], 'same'),
 ('img-max-if', 'C34', [('include/cnn_from_scratch/imageUtil.h', 'if (max < 1) max = 1;', 'if (not (max >= 1)) max = 1;')], 'same'),
 ('img-nl', 'C34', [('include/cnn_from_scratch/imageUtil.h', 'std::cout << "\\033[0m\\n";\n    }\n}\n\ntemplate <typename MatrixType>\nvoid printImageColor', 'std::cout << "\\033[0m" << std::endl;\n    }\n}\n\ntemplate <typename MatrixType>\nvoid printImageColor')], 'same'),
 ('b-img-range', 'C34', [('include/cnn_from_scratch/imageUtil.h', 'T range = max_val - min;', 'T range = max_val;')], 'bug'),
 ('b-img-min0', 'C34', [('include/cnn_from_scratch/imageUtil.h', 'range > 0 ? max_val * (1 - dist/range) : max_val', 'range > 0 ? max_val * (1 - dist/range) : min - min')], 'bug'),
 ('b-img-rows', 'C34', [('include/cnn_from_scratch/imageUtil.h', 'for (idx.y = 0; idx.y < M.dim().y; idx.y++){\n            std::string', 'for (idx.y = 0; idx.y < M.dim().x; idx.y++){\n            std::string')], 'bug'),
 ('b-img-max1', 'C34', [('include/cnn_from_scratch/imageUtil.h', '    if (max < 1) max = 1;\n', '')], 'bug'),
 ('b-img-col', 'C34', [('include/cnn_from_scratch/imageUtil.h', 'if (M.dim().z == 3)', 'if (M.dim().z >= 2)')], 'bug'),
 ('b-img-clip', 'C34', [('include/cnn_from_scratch/imageUtil.h', 'std::min(static_cast<double>(val)/max_val * 255, 255.0)', 'static_cast<double>(val)/max_val * 255')], 'bug'),
 ('b-img-int', 'C34', [('include/cnn_from_scratch/imageUtil.h', 'static_cast<double>(val)/max_val * 255', 'val/max_val * 255.0')], 'bug'),
 ('b-img-u8max', 'C34', [('include/cnn_from_scratch/imageUtil.h', 'std::numeric_limits<unsigned char>::max()', 'std::numeric_limits<signed char>::max()')], 'bug'),
]
