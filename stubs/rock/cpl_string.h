#include <gdal/gdal_priv.h>
