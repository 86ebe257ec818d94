#include <sstream>
#include <iostream>
#include "cnn_from_scratch/Matrix/SimpleMatrix.h"
#include "cnn_from_scratch/Matrix/MatrixMath.h"
#include "cnn_from_scratch/imageUtil.h"
using namespace my_cnn;
namespace drv {
void image_d(const SimpleMatrix<double>& a){ printImage(a); }
void image_f(const SimpleMatrix<float>& a){ printImage(a); }
void image_i(const SimpleMatrix<int>& a){ printImage(a); }
void image_u(const SimpleMatrix<unsigned char>& a){ printImage(a); }
}
