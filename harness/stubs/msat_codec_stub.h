// Stand-in for the external image codec library (an empty submodule here): an
// identity codec whose "compressed" field is the image's samples as 16 bit
// big-endian numbers. Short input leaves the rest of the image zero.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <iostream>
#define __int64 long long
namespace Util {
class CDataField {
public:
    std::vector<unsigned char> bytes;
};
class CDataFieldCompressedImage {
public:
    std::vector<unsigned char> in; int bpp, nx, ny;
    CDataFieldCompressedImage(unsigned char* d, unsigned long long bits, int bpp_, int nx_, int ny_)
        : in(d, d + bits / 8), bpp(bpp_), nx(nx_), ny(ny_) { delete[] d; }
};
class CDataFieldUncompressedImage {
public:
    std::vector<uint16_t> out;
};
}
namespace COMP {
inline void vf_identity(const Util::CDataFieldCompressedImage& c, Util::CDataFieldUncompressedImage& u) {
    size_t n = (size_t)c.nx * c.ny; u.out.assign(n, 0);
    for (size_t i = 0; i < n && i * 2 + 1 < c.in.size(); ++i) u.out[i] = (uint16_t)(c.in[2 * i] << 8 | c.in[2 * i + 1]);
}
inline void DecompressJPEG(const Util::CDataFieldCompressedImage& c, unsigned char&, Util::CDataFieldUncompressedImage& u, std::vector<short>&) { vf_identity(c, u); }
inline void DecompressJPEG(const Util::CDataFieldCompressedImage& c, int, Util::CDataFieldUncompressedImage& u, std::vector<short>&) { vf_identity(c, u); }
inline void DecompressWT(const Util::CDataFieldCompressedImage& c, int, Util::CDataFieldUncompressedImage& u, std::vector<short>&) { vf_identity(c, u); }
inline void DecompressT4(const Util::CDataFieldCompressedImage& c, Util::CDataFieldUncompressedImage& u, std::vector<short>&) { vf_identity(c, u); }
class CImage {
    std::vector<uint16_t> d;
public:
    explicit CImage(const Util::CDataFieldUncompressedImage& u) : d(u.out) {}
    unsigned short* Get() { return d.data(); }
};
}
