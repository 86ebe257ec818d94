#include "cnn_from_scratch/MNISTReader.h"
using namespace my_cnn;
namespace drv {
// any image after any history of sequential and random access
Image first(const std::string& images, const std::string& labels, size_t& at){ MNISTReader r(images, labels); Image i = r.nextImage(); at = r.imageIndex(); return i; }
Image after(const std::string& images, const std::string& labels, size_t k, size_t& at){
    MNISTReader r(images, labels);
    for (size_t i = 0; i < k; i++) r.nextImage();
    Image i = r.nextImage(); at = r.imageIndex(); return i;
}
Image random(const std::string& images, const std::string& labels, size_t idx, size_t& at){ MNISTReader r(images, labels); Image i = r.getImage(idx); at = r.imageIndex(); return i; }
Image random_twice(const std::string& images, const std::string& labels, size_t idx, size_t idx2, size_t& at){ MNISTReader r(images, labels); r.getImage(idx2); Image i = r.getImage(idx); at = r.imageIndex(); return i; }
Image random_next(const std::string& images, const std::string& labels, size_t idx, size_t& at){ MNISTReader r(images, labels); r.getImage(idx); Image i = r.nextImage(); at = r.imageIndex(); return i; }
Image random_after(const std::string& images, const std::string& labels, size_t idx, size_t k, size_t& at){
    MNISTReader r(images, labels); r.getImage(idx);
    for (size_t i = 0; i < k; i++) r.nextImage();
    Image i = r.nextImage(); at = r.imageIndex(); return i;
}
// a request outside the file that was refused does not disturb what follows
Image random_recover(const std::string& images, const std::string& labels, size_t idx, size_t idx2, size_t& at){
    MNISTReader r(images, labels); try { r.getImage(idx2); } catch (std::exception&) {}
    Image i = r.getImage(idx); at = r.imageIndex(); return i;
}
size_t count(const std::string& images, const std::string& labels){ MNISTReader r(images, labels); return r.numImages(); }
}
