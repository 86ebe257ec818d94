#include <sstream>
#include <iostream>
#include "cnn_from_scratch/Matrix/SimpleMatrix.h"
using namespace my_cnn;
namespace drv {
void print_d(std::ostream& os, const SimpleMatrix<double>& a){ os << a; }
void print_f(std::ostream& os, const SimpleMatrix<float>& a){ os << a; }
void print_i(std::ostream& os, const SimpleMatrix<int>& a){ os << a; }
void print_view(std::ostream& os, SimpleMatrix<double>& a, int k, int m){ os << a.slices(k, m); }
void print_constview(std::ostream& os, const SimpleMatrix<int>& a, int k, int m){ os << a.slices(k, m); }
void serialize_d(std::ostream& os, const SimpleMatrix<double>& a){ a.serialize(os); }
void serialize_f(std::ostream& os, const SimpleMatrix<float>& a){ a.serialize(os); }
void serialize_i(std::ostream& os, const SimpleMatrix<int>& a){ a.serialize(os); }
}
