#ifndef VC_FRAME_HPP
#define VC_FRAME_HPP
#include <base/Eigen.hpp>
#include <base/Time.hpp>
#include <vector>
#include <string>
#include <stdint.h>
namespace base { namespace samples { namespace frame {
    enum frame_mode_t { MODE_UNDEFINED = 0, MODE_GRAYSCALE = 1, MODE_RGB = 2 };
    enum frame_status_t { STATUS_EMPTY, STATUS_VALID, STATUS_INVALID };
    struct frame_size_t { uint16_t width, height; frame_size_t() : width(0), height(0) {} };
    struct Frame {
        Time time; Time received_time; std::vector<uint8_t> image; frame_size_t size; uint32_t data_depth, pixel_size; frame_mode_t frame_mode; frame_status_t frame_status;
        void init(uint16_t w, uint16_t h, uint8_t depth, frame_mode_t m, uint8_t v = 0, size_t n = 0) { size.width = w; size.height = h; data_depth = depth; frame_mode = m;
            pixel_size = ((m == MODE_RGB ? 3 : 1) * depth + 7) / 8; image.resize(size_t(w) * h * pixel_size); }
        template<class T> void setAttribute(std::string const&, T const&) {}
        frame_mode_t getFrameMode() const { return frame_mode; }
        uint16_t getWidth() const { return size.width; }
        uint16_t getHeight() const { return size.height; }
        uint32_t getNumberOfBytes() const { return image.size(); }
        uint32_t getPixelSize() const { return pixel_size; }
        uint32_t getRowSize() const { return pixel_size * size.width; }
        const uint8_t* getImageConstPtr() const { return image.data(); }
        uint8_t* getImagePtr() { return image.data(); }
        uint8_t* getLastByte() { return &image.back(); }
        const uint8_t* getLastConstByte() const { return &image.back(); }
    };
} } }
#endif
