// An independent reader of ENVI files: GDAL's ENVI driver.
#pragma once
#include "hcv.h"
#include <gdal.h>
#include <cpl_error.h>
#include <cpl_conv.h>
#include <cpl_string.h>
static void envi_check(const char* image, const Dims& d, int dt, int il, const Bytes& data, const std::vector<float>& w, double wtol, const char* what) {
  static bool reg = false; if (!reg) { reg = true; GDALAllRegister(); CPLSetErrorHandler(CPLQuietErrorHandler); }
  if (data.size() < 2) return;             // the driver does not open files of one byte
  const char* only[] = {"ENVI", NULL};
  GDALDatasetH h = GDALOpenEx(image, GDAL_OF_RASTER | GDAL_OF_READONLY, only, NULL, NULL);
  REQUIRE(h, "%s: the file is not an ENVI file another program can open (%s)", what, CPLGetLastErrorMsg());
  REQUIRE(GDALGetRasterXSize(h) == d.s && GDALGetRasterYSize(h) == d.l && GDALGetRasterCount(h) == d.b, "%s: another program reads %dx%dx%d instead of %dx%dx%d", what, GDALGetRasterXSize(h), GDALGetRasterYSize(h), GDALGetRasterCount(h), d.s, d.l, d.b);
  GDALDataType t = GDALGetRasterDataType(GDALGetRasterBand(h, 1)); int e = esize(dt);
  const char* name = GDALGetDataTypeName(t); const char* want = dt == 1 ? "Byte" : dt == 2 ? "Int16" : dt == 3 ? "Int32" : dt == 4 ? "Float32" : dt == 5 ? "Float64" : dt == 12 ? "UInt16" : dt == 13 ? "UInt32" : dt == 14 ? "Int64" : "UInt64";
  REQUIRE(!strcmp(name, want), "%s: another program reads type %s instead of %s", what, name, want);
  Bytes row((size_t)d.s * e);
  for (int k = 0; k < d.b; k++) {
    GDALRasterBandH b = GDALGetRasterBand(h, k + 1);
    for (int i = 0; i < d.l; i++) {
      REQUIRE(GDALRasterIO(b, GF_Read, 0, i, d.s, 1, row.data(), d.s, 1, t, 0, 0) == CE_None, "%s: another program cannot read line %d of band %d", what, i, k);
      for (int j = 0; j < d.s; j++) REQUIRE(!memcmp(&row[(size_t)j * e], &data[off(il, d, i, j, k) * e], e), "%s: another program reads another element at line %d sample %d band %d", what, i, j, k);
    }
    const char* s = GDALGetMetadataItem(b, "wavelength", NULL);
    if (!w.empty()) { REQUIRE(s, "%s: another program finds no wavelength of band %d", what, k); REQUIRE(fabs(atof(s) - w[k]) <= wtol * (1 + fabs(w[k])), "%s: another program reads wavelength %s of band %d instead of %g", what, s, k, w[k]); }
    else REQUIRE(!s || !*s || !strcmp(s, "unknown"), "%s: another program finds a wavelength of band %d: %s", what, k, s);
  }
  GDALClose(h);
}
