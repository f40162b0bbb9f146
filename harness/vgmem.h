// In-memory rasters used as sources for encoders and georeferencing
#pragma once
#include "gdalutil.h"
#include <gdal_frmts.h>
#include <ogr_spatialref.h>
#include <msat/gdal/const.h>
namespace vg {
static const double PS = 3000.40307617188, PSH = 1000.13433837891;      // grid steps of the two SEVIRI grids, metres
inline OGRSpatialReference geos(double lon) { OGRSpatialReference s; s.SetGEOS(lon, 35785831, 0, 0); s.SetGeogCS(nullptr, nullptr, nullptr, 6378169, 295.488065897, nullptr, 0, nullptr, 0); return s; }
struct Mem { int w = 8, h = 8, x0 = 0, y0 = 0; bool hrv = false; double lon = 0; GDALDataType type = GDT_Float64; std::string sat, chan, time = "2010-01-19 12:00:00", satname, channame; double scale = 1, offset = 0; bool has_nodata = true; double nodata = 0; std::vector<double> v; int bands = 1; };
inline DS mem(const Mem& m) {
    static bool reg = false; if (!reg) { reg = true; init(); GDALRegister_MEM(); }
    GDALDriver* d = GetGDALDriverManager()->GetDriverByName("MEM"); DS ds(d->Create("", m.w, m.h, m.bands, m.type, nullptr)); if (!ds) return ds;
    double ps = m.hrv ? PSH : PS, half = m.hrv ? 5568 : 1856, gt[6] = { (m.x0 - half) * ps, ps, 0, (half - m.y0) * ps, 0, -ps }; ds->SetGeoTransform(gt);
    OGRSpatialReference s = geos(m.lon); ds->SetSpatialRef(&s);
    if (!m.time.empty()) ds->SetMetadataItem(MD_MSAT_DATETIME, m.time.c_str(), MD_DOMAIN_MSAT);
    if (!m.sat.empty()) ds->SetMetadataItem(MD_MSAT_SPACECRAFT_ID, m.sat.c_str(), MD_DOMAIN_MSAT);
    if (!m.satname.empty()) ds->SetMetadataItem(MD_MSAT_SPACECRAFT, m.satname.c_str(), MD_DOMAIN_MSAT);
    for (int i = 1; i <= m.bands; ++i) {
        GDALRasterBand* b = ds->GetRasterBand(i);
        if (!m.chan.empty()) b->SetMetadataItem(MD_MSAT_CHANNEL_ID, m.chan.c_str(), MD_DOMAIN_MSAT);
        if (!m.channame.empty()) b->SetMetadataItem(MD_MSAT_CHANNEL, m.channame.c_str(), MD_DOMAIN_MSAT);
        b->SetScale(m.scale); b->SetOffset(m.offset); if (m.has_nodata) b->SetNoDataValue(m.nodata);
        if (!m.v.empty()) { std::vector<double> v = m.v; if (i > 1) for (auto& x : v) x += i - 1; if (b->RasterIO(GF_Write, 0, 0, m.w, m.h, v.data(), m.w, m.h, GDT_Float64, 0, 0, nullptr) != CE_None) return DS(); }
    }
    return ds;
}
}
