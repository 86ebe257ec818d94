H='include/cnn_from_scratch/MNISTReader.h'; S='src/MNISTReader.cpp'
MUTS=[
('no-throw','C28',[(S,'    if (!stream){\n        throw std::runtime_error("Unexpected end of MNIST data file");\n    }\n','')],'bug'),
('throw-eof','C28',[(S,'if (!stream){','if (stream.bad()){')],'bug'),
('header-2','C28',[(S,'DATA_NUM_HEADER_LINES 4','DATA_NUM_HEADER_LINES 3')],'bug'),
('label-header','C28',[(S,'LABEL_NUM_HEADER_LINES 2','LABEL_NUM_HEADER_LINES 4')],'bug'),
('no-labelseek','C28',[(S,'    label_stream_.seekg(label_char_start_idx);\n','')],'bug'),
('no-imgseek','C28',[(S,'    image_stream_.seekg(img_char_start_idx);\n','')],'bug'),
('seek-cur','C28',[(S,'seekg(img_char_start_idx)','seekg(img_char_start_idx, std::ios::cur)')],'bug'),
('seek-skip-next','C28',[(S,'    current_index_ = idx;\n','    if (idx == current_index_ + 1) return nextImage();\n    current_index_ = idx;\n')],'bug'),
('seek-same','C28',[(S,'    current_index_ = idx;\n','    if (idx == current_index_) return nextImage();\n    current_index_ = idx;\n')],'same'),
('no-idx','C28',[(S,'    current_index_ = idx;\n','')],'bug'),
('width-sq','C28',[(S,'idx * image_height_ * image_width_','idx * image_width_ * image_width_')],'bug'),
('swap-hw','C28',[(S,'image_height_ = read<int32_t>(image_stream_);\n    image_width_  = read','image_width_ = read<int32_t>(image_stream_);\n    image_height_  = read')],'bug'),
('transposed','C28',[(S,'out(row, col, 0) =','out(col, row, 0) ='),(S,'out({image_height_, image_width_, 1})','out({image_width_, image_height_, 1})')],'bug'),
('colmajor','C28',[(S,'''    for (int row = 0; row < image_height_; row++){
        for (int col = 0; col < image_width_; col++){
            out''','''    for (int col = 0; col < image_width_; col++){
        for (int row = 0; row < image_height_; row++){
            out''')],'bug'),
('mid','C28',[(S,'(out - 128)/255.0f','(out - 127)/255.0f')],'bug'),
('no-inc','C28',[(S,'    current_index_++;\n','')],'bug'),
('inc-early','C28',[(S,'    Image img;\n','    current_index_++;\n    Image img;\n'),(S,'    current_index_++;\n    return','    return'),],'same'),
('bound','C28',[(S,'current_index_ >= num_images_','current_index_ > num_images_')],'bug'),
('no-bound','C28',[(S,'current_index_ >= num_images_','num_images_ == 0')],'bug'),
('wrap','C28',[(S,'current_index_ = idx;','current_index_ = num_images_ > 0 ? idx % num_images_ : idx;'),(S,'+ idx * image_h','+ current_index_ * image_h'),(S,'sizeof(int32_t) + idx;','sizeof(int32_t) + current_index_;')],'bug'),
('little','C28',[(S,'for (int i = sizeof(T)-1; i >= 0; i--){','for (int i = 0; i < sizeof(T); i++){')],'bug'),
('label-first','C28',[(S,'    SimpleMatrix<unsigned char> out(','    img.label = read<unsigned char>(label_stream_);\n    SimpleMatrix<unsigned char> out('),(S,'    img.label = read<unsigned char>(label_stream_);\n    img.data','    img.data')],'same'),
('signed','C28',[(S,'out(row, col, 0) = read<unsigned char>','out(row, col, 0) = (signed char)read<unsigned char>')],'same'),
('signed2','C28',[(S,'SimpleMatrix<unsigned char> out','SimpleMatrix<int> out'),(S,'= read<unsigned char>(image','= read<signed char>(image')],'bug'),
('label-only','C28',[(S,'    img.label = read<unsigned char>(label_stream_);','    img.label = label_stream_.get();')],'bug'),
('clear','C28',[(S,'current_index_ = idx;','current_index_ = idx;\n    image_stream_.clear();\n    label_stream_.clear();')],'same'),
('recover','C28',[(S,'''    current_index_ = idx;
''','''    if (idx >= num_images_) image_stream_.setstate(std::ios::failbit);
    current_index_ = idx;
''')],'bug'),
('q-whole','C28',[(S,'const size_t','const size_t')] and [(S,'size_t img_char_start_idx = DATA_NUM_HEADER_LINES*sizeof(int32_t) + idx * image_height_ * image_width_;\n    image_stream_.seekg(img_char_start_idx);','const size_t image_size = image_height_ * image_width_;\n    image_stream_.seekg(16 + image_size * idx, std::ios::beg);')],'same'),
('q-flat','C28',[(S,'''    for (int row = 0; row < image_height_; row++){
        for (int col = 0; col < image_width_; col++){
            out(row, col, 0) = read<unsigned char>(image_stream_);
        }
    }
''','''    for (int k = 0; k < image_height_*image_width_; k++){
        out(k / image_width_, k % image_width_, 0) = read<unsigned char>(image_stream_);
    }
''')],'same'),
('q-double','C28',[(S,'SimpleMatrix<unsigned char> out','SimpleMatrix<float> out'),(S,'img.data = (out - 128)/255.0f;','out -= 128;\n    out /= 255;\n    img.data = std::move(out);')],'same'),
('q-perpixel','C28',[(S,'SimpleMatrix<unsigned char> out','SimpleMatrix<float> out'),(S,'= read<unsigned char>(image_stream_);','= (read<unsigned char>(image_stream_) - 128)/255.0f;'),(S,'img.data = (out - 128)/255.0f;','img.data = out;')],'same'),
('q-get','C28',[(S,'stream.read(&buf[i], 1);','stream.get(buf[i]);')],'same'),
('q-rev','C28',[(S,'''        for (int i = sizeof(T)-1; i >= 0; i--){
            stream.read(&buf[i], 1);
        }''','''        stream.read(buf, sizeof(T));
        std::reverse(buf, buf + sizeof(T));'''),(S,'#include <assert.h>','#include <assert.h>\n#include <algorithm>')],'same'),
('q-lambda','C28',[(S,'Image MNISTReader::nextImage(){','Image MNISTReader::nextImage(){\n    auto pixel = [this]{ return read<unsigned char>(image_stream_); };'),(S,'= read<unsigned char>(image_stream_);','= pixel();')],'same'),
('q-check','C28',[(S,'    current_index_ = idx;\n','    current_index_ = idx;\n    if (idx >= num_images_) return nextImage();\n')],'same'),
]
