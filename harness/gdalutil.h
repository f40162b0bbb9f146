#pragma once
#include "common.h"
#include <gdal_priv.h>
#include <cpl_conv.h>
#include <cpl_error.h>
#include <memory>

extern "C" { void GDALRegister_MsatXRIT(); void GDALRegister_MsatGRIB(); }
namespace vg {
inline void init() {
    static bool done = false; if (done) return; done = true;
    CPLSetErrorHandler(CPLQuietErrorHandler);
    GetGDALDriverManager();
    GDALRegister_MsatXRIT();
    GDALRegister_MsatGRIB();
}
inline void init_std(const std::vector<std::string>& names) {   // standard drivers used as carriers
    GDALAllRegister();
    (void)names;
}
struct Close { void operator()(GDALDataset* d) const { GDALClose(d); } };
typedef std::unique_ptr<GDALDataset, Close> DS;
inline DS open(const std::string& name, const char* opt = nullptr) {
    const char* opts[2] = { opt, nullptr };
    return DS((GDALDataset*)GDALOpenEx(name.c_str(), GDAL_OF_RASTER, nullptr, opt ? opts : nullptr, nullptr));
}
}
