#ifndef VC_OGR_HPP
#define VC_OGR_HPP
typedef int OGRErr;
struct OGRSpatialReference { int SetUTM(int, int = 1) { return 0; } int SetWellKnownGeogCS(const char*) { return 0; } int exportToWkt(char**) { return 0; } int SetProjCS(const char*) { return 0; } };
#endif
