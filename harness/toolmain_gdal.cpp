// Makes the drivers of the repository known before the tool's main runs
extern "C" { void GDALRegister_MsatXRIT(); void GDALRegister_MsatGRIB(); }
namespace { struct Init { Init() { GDALRegister_MsatXRIT(); GDALRegister_MsatGRIB(); } } init; }
