#ifndef VC_GDAL_HPP
#define VC_GDAL_HPP
#include <stddef.h>
typedef enum { GDT_Unknown=0, GDT_Byte=1, GDT_UInt16=2, GDT_Int16=3, GDT_UInt32=4, GDT_Int32=5, GDT_Float32=6, GDT_Float64=7 } GDALDataType;
typedef enum { GA_ReadOnly=0, GA_Update=1 } GDALAccess;
typedef enum { GF_Read=0, GF_Write=1 } GDALRWFlag;
typedef enum { CE_None=0, CE_Failure=3 } CPLErr;
#define GDAL_DCAP_CREATE "DCAP_CREATE"
inline bool EQUAL(const char*, const char*) { return false; }
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
typedef void* GDALDatasetH;
struct GDALRasterBand {
  CPLErr SetNoDataValue(double) { return CE_None; } double GetNoDataValue(int* = 0) { return 0; }
  CPLErr RasterIO(GDALRWFlag, int, int, int, int, void*, int, int, GDALDataType, int, int) { return CE_Failure; }
  int GetXSize() { return 0; } int GetYSize() { return 0; } GDALDataType GetRasterDataType() { return GDT_Unknown; }
  void GetBlockSize(int*, int*) {} const char* GetDescription() { return ""; } void SetDescription(const char*) {}
};
struct GDALDriver; 
struct GDALDataset {
  int GetRasterCount() { return 0; } GDALRasterBand* GetRasterBand(int) { return 0; } CPLErr GetGeoTransform(double*) { return CE_Failure; }
  CPLErr SetGeoTransform(double*) { return CE_Failure; } CPLErr SetProjection(const char*) { return CE_Failure; } GDALDriver* GetDriver() { return 0; }
  int GetRasterXSize() { return 0; } int GetRasterYSize() { return 0; } const char* GetProjectionRef() { return ""; }
};
struct GDALDriver { char** GetMetadata(const char* = 0) { return 0; } const char* GetMetadataItem(const char*, const char* = 0) { return 0; } const char* GetDescription() { return ""; }
  GDALDataset* Create(const char*, int, int, int, GDALDataType, char**) { return 0; } };
struct GDALDriverManager { GDALDriver* GetDriverByName(const char*) { return 0; } };
inline GDALDriverManager* GetGDALDriverManager() { static GDALDriverManager m; return &m; }
inline void* GDALOpen(const char*, GDALAccess) { return 0; }
inline void GDALClose(void*) {}
inline void GDALAllRegister() {}
inline bool CSLFetchBoolean(char**, const char*, bool) { return false; }
inline const char* GDALGetDataTypeName(GDALDataType) { return ""; }
inline void CPLFree(void*) {}
#endif
