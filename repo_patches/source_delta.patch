From 52bd59e25f41a660592a111e077758a39830ef37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 01/55] fix: choose interpolation cell independently of the
 hyperslab window

For a point on a plane of grid points the cell used to depend on whether the
cached window happened to start there, so NODATA in a neighbouring vertex was
blended in or not depending on earlier queries.
---
 libsrc/geomodelgrids/serial/Hyperslab.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Hyperslab.cc b/libsrc/geomodelgrids/serial/Hyperslab.cc
index 62edad3..4d345c4 100644
--- a/libsrc/geomodelgrids/serial/Hyperslab.cc
+++ b/libsrc/geomodelgrids/serial/Hyperslab.cc
@@ -267,10 +267,10 @@ geomodelgrids::serial::_Hyperslab::_interpolate2D(double* const values,
     assert(indexSlab[1] >= 0.0 && indexSlab[1] <= _hyperslab._dims[1]-1);
 
     // Coordinate of "lower" point (corner of cell with lowest indices containing target point).
-    const double tolerance = 1.0e-12;
+    // Points on the upper boundary use the last cell; the choice does not depend on the hyperslab origin.
     const double dfloor[spaceDim] = {
-        std::max(0.0, std::floor(indexSlab[0]-tolerance)),
-        std::max(0.0, std::floor(indexSlab[1]-tolerance)),
+        std::min(std::floor(indexSlab[0]), double(_hyperslab._dims[0])-2.0),
+        std::min(std::floor(indexSlab[1]), double(_hyperslab._dims[1])-2.0),
     };
 
     // Index of "lower" point
@@ -345,11 +345,11 @@ geomodelgrids::serial::_Hyperslab::_interpolate3D(double* const values,
     assert(indexSlab[2] >= 0.0 && indexSlab[2] <= _hyperslab._dims[2]-1);
 
     // Coordinate of "lower" point (corner of cell with lowest indices containing target point).
-    const double tolerance = 1.0e-12;
+    // Points on the upper boundary use the last cell; the choice does not depend on the hyperslab origin.
     const double dfloor[spaceDim] = {
-        std::max(0.0, std::floor(indexSlab[0]-tolerance)),
-        std::max(0.0, std::floor(indexSlab[1]-tolerance)),
-        std::max(0.0, std::floor(indexSlab[2]-tolerance)),
+        std::min(std::floor(indexSlab[0]), double(_hyperslab._dims[0])-2.0),
+        std::min(std::floor(indexSlab[1]), double(_hyperslab._dims[1])-2.0),
+        std::min(std::floor(indexSlab[2]), double(_hyperslab._dims[2])-2.0),
     };
 
     // Index of "lower" point
-- 
2.43.0


From e52f06980eddbba31cbac6d2ccf318a6bb7962a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 02/55] fix: return the stored values of the nearest grid point

Hyperslab::nearest set every value that is not NODATA to zero.
---
 libsrc/geomodelgrids/serial/Hyperslab.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Hyperslab.cc b/libsrc/geomodelgrids/serial/Hyperslab.cc
index 4d345c4..fbf5c6b 100644
--- a/libsrc/geomodelgrids/serial/Hyperslab.cc
+++ b/libsrc/geomodelgrids/serial/Hyperslab.cc
@@ -475,8 +475,8 @@ geomodelgrids::serial::_Hyperslab::_nearest2D(double* const values,
 
     const hsize_t numValues = _hyperslab._dims[spaceDim];
     for (hsize_t iValue = 0; iValue < numValues; ++iValue) {
-        values[iValue] = 0;
         const double nearestValue = _hyperslab._values[ii + iValue];
+        values[iValue] = nearestValue;
         if (fabs(1.0 - nearestValue/geomodelgrids::NODATA_VALUE) < 1.0e-3) {
             values[iValue] = geomodelgrids::NODATA_VALUE;
         } // if
@@ -531,8 +531,8 @@ geomodelgrids::serial::_Hyperslab::_nearest3D(double* const values,
 
     const hsize_t numValues = _hyperslab._dims[spaceDim];
     for (hsize_t iValue = 0; iValue < numValues; ++iValue) {
-        values[iValue] = 0;
         const double nearestValue = _hyperslab._values[ii + iValue];
+        values[iValue] = nearestValue;
         if (fabs(1.0 - nearestValue/geomodelgrids::NODATA_VALUE) < 1.0e-3) {
             values[iValue] = geomodelgrids::NODATA_VALUE;
         } // if
-- 
2.43.0


From 57e48aad953d471f3bde3fc72ec5b2f797138ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:05 +0000
Subject: [PATCH 03/55] fix: make descending comparator a strict ordering

std::sort requires a strict weak ordering; >= reads out of bounds for coordinate lists with repeated values.
---
 libsrc/geomodelgrids/utils/Indexing.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/utils/Indexing.hh b/libsrc/geomodelgrids/utils/Indexing.hh
index a82a92f..e4b9f0b 100644
--- a/libsrc/geomodelgrids/utils/Indexing.hh
+++ b/libsrc/geomodelgrids/utils/Indexing.hh
@@ -103,7 +103,7 @@ public:
     inline static
     bool greater(const double x,
                  const double y) {
-        return x >= y;
+        return x > y;
     }
 
     // PRIVATE ------------------------------------------------------------------------------------
-- 
2.43.0


From ddb1b41f0f4659200680754b6059f6ace60b6acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:02 +0000
Subject: [PATCH 04/55] fix: allow indexing of points outside variable
 resolution axis

Model::contains() and Surface::query() index points outside the model; with variable resolution this tripped an assertion instead of reporting that the point is not in the model.
---
 libsrc/geomodelgrids/utils/Indexing.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/libsrc/geomodelgrids/utils/Indexing.cc b/libsrc/geomodelgrids/utils/Indexing.cc
index 96060fa..03c9d0a 100644
--- a/libsrc/geomodelgrids/utils/Indexing.cc
+++ b/libsrc/geomodelgrids/utils/Indexing.cc
@@ -78,9 +78,6 @@ geomodelgrids::utils::IndexingVariable::getIndex(const double x) const {
     size_t indexL = 0;
     size_t indexR = _numX - 1;
     const double xN = (_order == ASCENDING) ? _x[0] + x : _x[0] - x;
-    const double tolerance = 1.0e-6;
-    assert((ASCENDING == _order && (xN >= _x[indexL]-tolerance) && (xN <= _x[indexR]+tolerance)) ||
-           (DESCENDING == _order && (xN <= _x[indexL]+tolerance) && (xN >= _x[indexR]-tolerance)));
 
     typedef bool (*cmp_fn)(const double,
                            const double);
@@ -94,9 +91,10 @@ geomodelgrids::utils::IndexingVariable::getIndex(const double x) const {
             indexL = indexM;
         } // if/else
     } // while
-    assert((ASCENDING == _order && xN >= _x[indexL]-tolerance && _x[indexR] > _x[indexL]) ||
-           (DESCENDING == _order && xN <= _x[indexL]+tolerance && _x[indexR] <= _x[indexL]));
+    assert((ASCENDING == _order && _x[indexR] > _x[indexL]) ||
+           (DESCENDING == _order && _x[indexR] <= _x[indexL]));
 
+    // Coordinates outside the range of the array give an index outside [0, numX-1].
     index = double(indexL) + (xN - _x[indexL]) / (_x[indexR] - _x[indexL]);
     return index;
 }
-- 
2.43.0


From 83ea1f3a9b3cc519650faa2bc917b7ba2d35ff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:14 +0000
Subject: [PATCH 05/55] fix: handle roundoff at the boundary of grids

---
 libsrc/geomodelgrids/serial/Block.cc   | 11 +++++++++++
 libsrc/geomodelgrids/serial/Surface.cc | 12 +++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/serial/Block.cc b/libsrc/geomodelgrids/serial/Block.cc
index cec79b2..fb371ae 100644
--- a/libsrc/geomodelgrids/serial/Block.cc
+++ b/libsrc/geomodelgrids/serial/Block.cc
@@ -5,6 +5,7 @@
 #include "geomodelgrids/serial/HDF5.hh" // USES HDF5
 #include "geomodelgrids/serial/Hyperslab.hh" // USES Hyperslab
 #include "geomodelgrids/utils/Indexing.hh" // USES Indexing
+#include "geomodelgrids/utils/constants.hh" // USES TOLERANCE
 
 #include <cstring> // USES strlen()
 #include <algorithm> // USES std::max()
@@ -331,6 +332,16 @@ geomodelgrids::serial::Block::query(const double x,
     index[1] = _indexingY->getIndex(y);
     index[2] = _indexingZ->getIndex(_zTop - z);
 
+    // Points on the boundary may be slightly outside the grid due to roundoff; use the boundary.
+    for (size_t i = 0; i < 3; ++i) {
+        const double indexMax = double(_dims[i]) - 1.0;
+        if ((index[i] > indexMax) && (index[i] < indexMax + TOLERANCE)) {
+            index[i] = indexMax;
+        } else if ((index[i] < 0.0) && (index[i] > -TOLERANCE)) {
+            index[i] = 0.0;
+        } // if/else
+    } // for
+
     assert( (_numValues > 0 && _values) || (!_numValues && !_values) );
 
     assert(_hyperslab);
diff --git a/libsrc/geomodelgrids/serial/Surface.cc b/libsrc/geomodelgrids/serial/Surface.cc
index 648d93c..8d7a1a6 100644
--- a/libsrc/geomodelgrids/serial/Surface.cc
+++ b/libsrc/geomodelgrids/serial/Surface.cc
@@ -5,7 +5,7 @@
 #include "geomodelgrids/serial/HDF5.hh" // USES HDF5
 #include "geomodelgrids/serial/Hyperslab.hh" // USES Hyperslab
 #include "geomodelgrids/utils/Indexing.hh" // USES Resolution
-#include "geomodelgrids/utils/constants.hh" // USES NODATA_VALUE
+#include "geomodelgrids/utils/constants.hh" // USES NODATA_VALUE, TOLERANCE
 
 #include <cstring> // USES strlen()
 #include <algorithm> // USES std::sort
@@ -216,6 +216,16 @@ geomodelgrids::serial::Surface::query(const double x,
     index[0] = _indexingX->getIndex(x);
     index[1] = _indexingY->getIndex(y);
 
+    // Points on the boundary may be slightly outside the grid due to roundoff; use the boundary.
+    for (size_t i = 0; i < 2; ++i) {
+        const double indexMax = double(_dims[i]) - 1.0;
+        if ((index[i] > indexMax) && (index[i] < indexMax + TOLERANCE)) {
+            index[i] = indexMax;
+        } else if ((index[i] < 0.0) && (index[i] > -TOLERANCE)) {
+            index[i] = 0.0;
+        } // if/else
+    } // for
+
     double elevation = geomodelgrids::NODATA_VALUE;
     if ((index[0] >= 0) && (index[0] <= double(_dims[0]-1))
         && (index[1] >= 0) && (index[1] <= double(_dims[1]-1))) {
-- 
2.43.0


From a564641351c080d4f13d500d0bb219d815fc1f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:14 +0000
Subject: [PATCH 06/55] fix: find block for points on boundary within roundoff

---
 libsrc/geomodelgrids/serial/Model.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index ffb0efb..97cfdfb 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -506,6 +506,12 @@ geomodelgrids::serial::Model::_findBlock(const double x,
             return block;
         } // if
     } // for
+    // Allow for roundoff in the top and bottom of the blocks.
+    for (auto block : _blocks) {
+        if (( z <= block->getZTop() + TOLERANCE) && ( z >= block->getZBottom() - TOLERANCE) ) {
+            return block;
+        } // if
+    } // for
     static std::shared_ptr<geomodelgrids::serial::Block> empty;
     return empty;
 } // _findBlock
-- 
2.43.0


From 98bb56e2635782f34279b0847d255de851f20e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:12 +0000
Subject: [PATCH 07/55] fix: keep exceptions from argument conversion and
 finalize inside the C interface

geomodelgrids_squery_initialize converted its string arguments outside the
try block, so a NULL string (std::logic_error) escaped into C callers.
---
 libsrc/geomodelgrids/serial/cquery.cc | 29 ++++++++++++++++-----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/cquery.cc b/libsrc/geomodelgrids/serial/cquery.cc
index a172462..4c722de 100644
--- a/libsrc/geomodelgrids/serial/cquery.cc
+++ b/libsrc/geomodelgrids/serial/cquery.cc
@@ -63,20 +63,20 @@ geomodelgrids_squery_initialize(void* handle,
         return geomodelgrids::utils::ErrorHandler::ERROR;
     } // if
 
-    std::vector < std::string > modelFilenamesCxx(modelFilenamesSize);
-    for (int i = 0; i < modelFilenamesSize; ++i) {
-        modelFilenamesCxx[i] = modelFilenames[i];
-    } // for
+    assert(query);
+    try {
+        std::vector < std::string > modelFilenamesCxx(modelFilenamesSize);
+        for (int i = 0; i < modelFilenamesSize; ++i) {
+            modelFilenamesCxx[i] = modelFilenames[i];
+        } // for
 
-    std::vector < std::string > valueNamesCxx(valueNamesSize);
-    for (int i = 0; i < valueNamesSize; ++i) {
-        valueNamesCxx[i] = valueNames[i];
-    } // for
+        std::vector < std::string > valueNamesCxx(valueNamesSize);
+        for (int i = 0; i < valueNamesSize; ++i) {
+            valueNamesCxx[i] = valueNames[i];
+        } // for
 
-    const std::string& inputCRSStringCxx(inputCRSString);
+        const std::string& inputCRSStringCxx(inputCRSString);
 
-    assert(query);
-    try {
         query->initialize(modelFilenamesCxx, valueNamesCxx, inputCRSStringCxx);
     } catch (const std::exception& err) {
         std::shared_ptr<geomodelgrids::utils::ErrorHandler>& errorHandler = query->getErrorHandler();
@@ -281,7 +281,12 @@ geomodelgrids_squery_finalize(void* handle) {
     } // if
 
     assert(query);
-    query->finalize();
+    try {
+        query->finalize();
+    } catch (const std::exception& err) {
+        std::shared_ptr<geomodelgrids::utils::ErrorHandler>& errorHandler = query->getErrorHandler();
+        errorHandler->setError(err.what());
+    } // try/catch
 
     return query->getErrorHandler()->getStatus();
 } // finalize
-- 
2.43.0


From 352074f55d732019d3c28ae61b003fa1367ba37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 08/55] fix: discard hyperslab when reading its values fails

---
 libsrc/geomodelgrids/serial/Hyperslab.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Hyperslab.cc b/libsrc/geomodelgrids/serial/Hyperslab.cc
index fbf5c6b..45c475b 100644
--- a/libsrc/geomodelgrids/serial/Hyperslab.cc
+++ b/libsrc/geomodelgrids/serial/Hyperslab.cc
@@ -223,8 +223,14 @@ geomodelgrids::serial::_Hyperslab::getSlab(const double indexFloat[]) {
             origin[i] = index;
         } // for
 
-        _hyperslab._h5->readDatasetHyperslab(_hyperslab._values, _hyperslab._datasetPath.c_str(), origin, dims, ndims,
-                                             H5T_NATIVE_DOUBLE);
+        try {
+            _hyperslab._h5->readDatasetHyperslab(_hyperslab._values, _hyperslab._datasetPath.c_str(), origin, dims, ndims,
+                                                 H5T_NATIVE_DOUBLE);
+        } catch (...) {
+            // Values were not loaded, so do not use this hyperslab for other points.
+            delete[] _hyperslab._origin;_hyperslab._origin = nullptr;
+            throw;
+        } // try/catch
     } // if
 } // getSlab
 
-- 
2.43.0


From d337a05b8cbbd9bd64ba7ed2d9813016c0e70153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 09/55] fix: close file access property list when a file cannot
 be opened

---
 libsrc/geomodelgrids/serial/HDF5.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index 75bb504..711816e 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -93,10 +93,14 @@ geomodelgrids::serial::HDF5::open(const char* filename,
     hid_t fileAccess = H5Pcreate(H5P_FILE_ACCESS);
     if (fileAccess < 0) { throw std::runtime_error("Could not create property for HDF5 cache parameters."); }
     herr_t err = H5Pset_cache(fileAccess, 0, _cacheNumSlots, _cacheSize, _cachePreemption);
-    if (err < 0) { throw std::runtime_error("Could not set HDF5 file cache properties."); }
+    if (err < 0) {
+        H5Pclose(fileAccess);
+        throw std::runtime_error("Could not set HDF5 file cache properties.");
+    } // if
 
     if (hid_t(H5F_ACC_TRUNC) == mode) {
         _file = H5Fcreate(filename, mode, H5P_DEFAULT, fileAccess);
+        H5Pclose(fileAccess);
         if (_file < 0) {
             std::ostringstream msg;
             msg << "Could not create HDF5 file '" << filename << "'.";
@@ -105,14 +109,13 @@ geomodelgrids::serial::HDF5::open(const char* filename,
 
     } else {
         _file = H5Fopen(filename, mode, fileAccess);
+        H5Pclose(fileAccess);
         if (_file < 0) {
             std::ostringstream msg;
             msg << "Could not open existing HDF5 file '" << filename << "'.";
             throw std::runtime_error(msg.str());
         } // if
     } // if/else
-
-    H5Pclose(fileAccess);
 } // constructor
 
 
-- 
2.43.0


From 22202eabf644fcc7e337e0959d06a5ab4b0997d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 10/55] fix: close memory dataspace when a hyperslab cannot be
 read

---
 libsrc/geomodelgrids/serial/HDF5.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index 711816e..461ee35 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -28,6 +28,7 @@ struct geomodelgrids::serial::_HDF5Access {
     hid_t group;
     hid_t dataset;
     hid_t dataspace;
+    hid_t memspace;
     hid_t attribute;
     hid_t datatype;
 
@@ -36,6 +37,7 @@ struct geomodelgrids::serial::_HDF5Access {
         group(HDF5::H5_NULL),
         dataset(HDF5::H5_NULL),
         dataspace(HDF5::H5_NULL),
+        memspace(HDF5::H5_NULL),
         attribute(HDF5::H5_NULL),
         datatype(HDF5::H5_NULL) {}
 
@@ -45,6 +47,7 @@ struct geomodelgrids::serial::_HDF5Access {
         if (group >= 0) { H5Gclose(group); }
         if (dataset >= 0) { H5Dclose(dataset); }
         if (dataspace >= 0) { H5Sclose(dataspace); }
+        if (memspace >= 0) { H5Sclose(memspace); }
         if (attribute >= 0) { H5Aclose(attribute); }
         if (datatype >= 0) { H5Tclose(datatype); }
     } // destructor
@@ -537,17 +540,15 @@ geomodelgrids::serial::HDF5::readDatasetHyperslab(void* values,
             count[i] = 1;
         } // for
 
-        hid_t memspace = H5Screate_simple(ndims, dims, dims);
-        if (memspace < 0) { throw std::runtime_error("Could not create memory space."); }
+        h5access.memspace = H5Screate_simple(ndims, dims, dims);
+        if (h5access.memspace < 0) { throw std::runtime_error("Could not create memory space."); }
 
         herr_t err = H5Sselect_hyperslab(h5access.dataspace, H5S_SELECT_SET, origin, stride, count, dims);
         delete[] stride;stride = nullptr;
         delete[] count;count = nullptr;
         if (err < 0) { throw std::runtime_error("Could not select hyperslab."); }
-        err = H5Dread(h5access.dataset, datatype, memspace, h5access.dataspace, H5P_DEFAULT, values);
+        err = H5Dread(h5access.dataset, datatype, h5access.memspace, h5access.dataspace, H5P_DEFAULT, values);
         if (err < 0) { throw std::runtime_error("Could not read hyperslab."); }
-
-        H5Sclose(memspace);memspace = H5_NULL;
     } catch (const std::exception& err) {
         std::ostringstream msg;
         msg << "Error occurred while reading dataset '"
-- 
2.43.0


From 32467307d338c63785fe1923d5e9c175389718ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 11/55] fix: reject hyperslabs whose origin plus extent
 overflows

---
 libsrc/geomodelgrids/serial/HDF5.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index 461ee35..94331dd 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -521,7 +521,7 @@ geomodelgrids::serial::HDF5::readDatasetHyperslab(void* values,
             throw std::length_error(msg.str());
         } // if
         for (int i = 0; i < ndimsAll; ++i) {
-            if (origin[i] + dims[i] > dimsAll[i]) {
+            if ((dims[i] > dimsAll[i]) || (origin[i] > dimsAll[i] - dims[i])) {
                 std::ostringstream msg;
                 msg << "Hyperslab extent in dimension " << i
                     << " (origin:" << origin[i] << ", dim: " << dims[i] << ") "
-- 
2.43.0


From 97cf154d0b5dc0a060a9b861910f85aece0171da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 12/55] fix: get complete names of datasets in group

---
 libsrc/geomodelgrids/serial/HDF5.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index 94331dd..b4be196 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -259,10 +259,12 @@ geomodelgrids::serial::HDF5::getGroupDatasets(std::vector<std::string>* names,
 
         names->resize(gsize);
         for (int i = 0, index = 0; i < gsize; ++i) {
-            char buffer[256];
             ssize_t namelen = H5Lget_name_by_idx(h5access.group, ".", H5_INDEX_NAME, H5_ITER_NATIVE, i,
-                                                 buffer, 256, H5P_DEFAULT);assert(namelen > 0);
+                                                 nullptr, 0, H5P_DEFAULT);assert(namelen > 0);
+            char* buffer = new char[namelen+1];
+            H5Lget_name_by_idx(h5access.group, ".", H5_INDEX_NAME, H5_ITER_NATIVE, i, buffer, namelen+1, H5P_DEFAULT);
             (*names)[index++] = buffer;
+            delete[] buffer;buffer = nullptr;
         } // for
 
     } catch (const std::exception& err) {
-- 
2.43.0


From 6fa40f5fedbeb848baf5c8a034e4cd28ed3036f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 13/55] fix: report objects below absent groups and dangling
 links as absent

---
 libsrc/geomodelgrids/serial/HDF5.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index b4be196..7f557aa 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -152,9 +152,10 @@ geomodelgrids::serial::HDF5::hasGroup(const char* name) {
     assert(name);
 
     bool exists = false;
-    if (H5Lexists(_file, name, H5P_DEFAULT)) {
+    if (H5Lexists(_file, name, H5P_DEFAULT) > 0) {
         _HDF5Access h5access;
-        h5access.object = H5Oopen(_file, name, H5P_DEFAULT);assert(h5access.object >= 0);
+        h5access.object = H5Oopen(_file, name, H5P_DEFAULT);
+        if (h5access.object < 0) { return exists; } // dangling link
         H5O_info_t info;
 #if defined(GEOMODELGRIDS_HDF5_USE_API_112)
         herr_t err = H5Oget_info(h5access.object, &info, H5O_INFO_ALL);
@@ -179,9 +180,10 @@ geomodelgrids::serial::HDF5::hasDataset(const char* name) {
     assert(name);
 
     bool exists = false;
-    if (H5Lexists(_file, name, H5P_DEFAULT)) {
+    if (H5Lexists(_file, name, H5P_DEFAULT) > 0) {
         _HDF5Access h5access;
-        h5access.object = H5Oopen(_file, name, H5P_DEFAULT);assert(h5access.object >= 0);
+        h5access.object = H5Oopen(_file, name, H5P_DEFAULT);
+        if (h5access.object < 0) { return exists; } // dangling link
         H5O_info_t info;
 #if defined(GEOMODELGRIDS_HDF5_USE_API_112)
         herr_t err = H5Oget_info(h5access.object, &info, H5O_INFO_ALL);
-- 
2.43.0


From 53a7cd7a06b751011702af5142707a5dc915c2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 14/55] fix: throw when an array attribute is not
 one-dimensional

---
 libsrc/geomodelgrids/serial/HDF5.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index 7f557aa..18cfc56 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -341,7 +341,8 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
 
         h5access.dataspace = H5Aget_space(h5access.attribute);
         if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
-        const hsize_t ndims = H5Sget_simple_extent_ndims(h5access.dataspace);assert(1 == ndims);
+        const hsize_t ndims = H5Sget_simple_extent_ndims(h5access.dataspace);
+        if (1 != ndims) { throw std::runtime_error("Expected one-dimensional array for"); }
         hsize_t dims[1];
         H5Sget_simple_extent_dims(h5access.dataspace, dims, nullptr);
         const hsize_t numValues = dims[0];assert(numValues > 0);
@@ -436,7 +437,8 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
 
         h5access.dataspace = H5Aget_space(h5access.attribute);
         if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
-        const hsize_t ndims = H5Sget_simple_extent_ndims(h5access.dataspace);assert(1 == ndims);
+        const hsize_t ndims = H5Sget_simple_extent_ndims(h5access.dataspace);
+        if (1 != ndims) { throw std::runtime_error("Expected one-dimensional array for"); }
         hsize_t dims[1];
         H5Sget_simple_extent_dims(h5access.dataspace, dims, nullptr);
         const hsize_t numStrings = dims[0];assert(numStrings > 0);
-- 
2.43.0


From 15e5978c881040f16cbf43806ae6e8a8f4547d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 15/55] fix: read empty array attributes

---
 libsrc/geomodelgrids/serial/HDF5.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index 18cfc56..b93aa91 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -345,7 +345,7 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
         if (1 != ndims) { throw std::runtime_error("Expected one-dimensional array for"); }
         hsize_t dims[1];
         H5Sget_simple_extent_dims(h5access.dataspace, dims, nullptr);
-        const hsize_t numValues = dims[0];assert(numValues > 0);
+        const hsize_t numValues = dims[0];
 
         hsize_t typeNumBytes = H5Tget_size(datatype);
         void* buffer = (void*) new char[numValues * typeNumBytes];
@@ -441,7 +441,11 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
         if (1 != ndims) { throw std::runtime_error("Expected one-dimensional array for"); }
         hsize_t dims[1];
         H5Sget_simple_extent_dims(h5access.dataspace, dims, nullptr);
-        const hsize_t numStrings = dims[0];assert(numStrings > 0);
+        const hsize_t numStrings = dims[0];
+        if (0 == numStrings) {
+            values->clear();
+            return;
+        } // if
 
         char** buffer = new char*[numStrings];
         if (0 == H5Tis_variable_str(h5access.datatype)) { // Fixed length strings
-- 
2.43.0


From d48f9c49f0db8d8d9764886331ab1ff9e5ecf59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 16/55] fix: refine isosurface search to the vertical
 resolution

Each level of the search splits the interval into numSearchPoints-1
segments, so the number of levels was too small to reach the requested
vertical resolution, and it was zero when the maximum depth did not
exceed the vertical resolution. Two search points never refine.
---
 libsrc/geomodelgrids/apps/Isosurface.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index e7c0524..bfdb9ca 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -388,8 +388,8 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
             msg << "    - Maximum depth (" << _maxDepth << ") must be positive.\n";
             optionsOkay = false;
         } // if
-        if (_numSearchPoints < 2) {
-            msg << "    - Number of search points (" << _numSearchPoints << ") must be at least 2.\n";
+        if (_numSearchPoints < 3) {
+            msg << "    - Number of search points (" << _numSearchPoints << ") must be at least 3.\n";
             optionsOkay = false;
         } // if
         if (_isosurfaces.empty()) {
@@ -470,7 +470,9 @@ geomodelgrids::apps::Isosurfacer::initialize(void) {
     } // for
     _query->initialize(_app._modelFilenames, valueNames, _app._bboxCRS);
 
-    _numLevels = size_t(ceil(log(_app._maxDepth/_app._vertRes) / log(_app._numSearchPoints)));
+    // Each level splits the interval into numSearchPoints-1 segments.
+    assert(_app._numSearchPoints >= 3);
+    _numLevels = size_t(std::max(1.0, ceil(log(_app._maxDepth/_app._vertRes) / log(_app._numSearchPoints-1))));
     assert(_numLevels >= 1);
 
     const size_t numValues = _app._isosurfaces.size();
-- 
2.43.0


From 7b3575840a0b568adc7d6b1215fca31ed4a1c1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 17/55] fix: isosurface depth where the value is constant and
 equal to the target

The slope of the interpolation is zero there and the depth was NaN.
---
 libsrc/geomodelgrids/apps/Isosurface.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index bfdb9ca..7b229ca 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -539,7 +539,9 @@ geomodelgrids::apps::Isosurfacer::query(double* values,
         _query->query(&_vbuffer[0], x, y, zBot);
         const double vBot = _vbuffer[iValue];
 
-        if (((vTop <= vTarget) && (vTarget <= vBot)) || ((vTop >= vTarget) && (vTarget >= vBot))) {
+        if ((vTop == vTarget) && (vBot == vTarget)) {
+            values[iValue] = topElev - zTop;
+        } else if (((vTop <= vTarget) && (vTarget <= vBot)) || ((vTop >= vTarget) && (vTarget >= vBot))) {
             const double a = (vTop-vBot) / (zTop-zBot);
             const double b = vTop - a*zTop;
             values[iValue] = topElev - (vTarget - b) / a;
-- 
2.43.0


From 7fd0403526f198f03a356e2821032b42c8f48625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 18/55] fix: reject invalid bounding box for isosurfaces

The message was composed but never reported.
---
 libsrc/geomodelgrids/apps/Isosurface.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index 7b229ca..e3ffc08 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -367,6 +367,7 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
         } // if
         if (((_maxX - _minX)/_horizRes < 0) || ((_maxY - _minY) / _horizRes < 0)) {
             msg << "    - Invalid bounding box. Use --bbox=XMIN,XMAX,YMIN,YMAX\n";
+            optionsOkay = false;
         } // if
         if (0.0 == _horizRes) {
             msg << "    - Missing horizontal resolution. Use --resolution=RESOLUTION\n";
-- 
2.43.0


From 00ac16c1796cf3c3ad8bb03914b14492a0f0369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:35 +0000
Subject: [PATCH 19/55] fix: query the last point of a file without a trailing
 newline

---
 libsrc/geomodelgrids/apps/Query.cc     | 2 +-
 libsrc/geomodelgrids/apps/QueryElev.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Query.cc b/libsrc/geomodelgrids/apps/Query.cc
index d24c2c4..00eab72 100644
--- a/libsrc/geomodelgrids/apps/Query.cc
+++ b/libsrc/geomodelgrids/apps/Query.cc
@@ -83,7 +83,7 @@ geomodelgrids::apps::Query::run(int argc,
     while (true) {
         double srcX, srcY, srcZ;
         sin >> srcX >> srcY >> srcZ;
-        if (sin.eof() || !sin.good()) {
+        if (sin.fail()) {
             break;
         } // if
 
diff --git a/libsrc/geomodelgrids/apps/QueryElev.cc b/libsrc/geomodelgrids/apps/QueryElev.cc
index 24a2250..8c3d052 100644
--- a/libsrc/geomodelgrids/apps/QueryElev.cc
+++ b/libsrc/geomodelgrids/apps/QueryElev.cc
@@ -76,7 +76,7 @@ geomodelgrids::apps::QueryElev::run(int argc,
     while (true) {
         double srcX, srcY;
         sin >> srcX >> srcY;
-        if (sin.eof() || !sin.good()) {
+        if (sin.fail()) {
             break;
         } // if
 
-- 
2.43.0


From 37c398b5b3e966bede93d22140b815a97aecae9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:35 +0000
Subject: [PATCH 20/55] fix: include maximum depth in borehole when max depth /
 dz is truncated by roundoff

---
 libsrc/geomodelgrids/apps/Borehole.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/apps/Borehole.cc b/libsrc/geomodelgrids/apps/Borehole.cc
index 959191d..89520a0 100644
--- a/libsrc/geomodelgrids/apps/Borehole.cc
+++ b/libsrc/geomodelgrids/apps/Borehole.cc
@@ -68,7 +68,8 @@ geomodelgrids::apps::Borehole::run(int argc,
     } else if (groundSurf != 0.0) {
         groundSurf += groundOffset;
     } // if
-    const size_t numPoints = size_t(1 + _maxDepth / _dz);
+    const double tolerance = 1.0e-6; // Tolerance for roundoff in max depth / dz.
+    const size_t numPoints = size_t(1 + tolerance + _maxDepth / _dz);
 
     std::ofstream sout(_outputFilename);
     if (!sout.is_open() && !sout.good()) {
-- 
2.43.0


From a4804b484e16ca6eedf066120127f5ccc56e9ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:35 +0000
Subject: [PATCH 21/55] fix: reject borehole with nonpositive resolution or
 negative maximum depth

---
 libsrc/geomodelgrids/apps/Borehole.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libsrc/geomodelgrids/apps/Borehole.cc b/libsrc/geomodelgrids/apps/Borehole.cc
index 89520a0..99783a2 100644
--- a/libsrc/geomodelgrids/apps/Borehole.cc
+++ b/libsrc/geomodelgrids/apps/Borehole.cc
@@ -207,6 +207,14 @@ geomodelgrids::apps::Borehole::_parseArgs(int argc,
             msg << "    - Missing boreole location. Use --location=X,Y\n";
             optionsOkay = false;
         } // if
+        if (!(_dz > 0.0)) {
+            msg << "    - Vertical resolution must be positive. Use --dz=RESOLUTION\n";
+            optionsOkay = false;
+        } // if
+        if (!(_maxDepth >= 0.0)) {
+            msg << "    - Maximum depth must be nonnegative. Use --max-depth=DEPTH\n";
+            optionsOkay = false;
+        } // if
 
         if (!optionsOkay) {
             throw std::runtime_error(std::string("Missing required command line arguments:\n")+ msg.str());
-- 
2.43.0


From 04202c729fe5da2777088723fcca9c22023d1bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:15 +0000
Subject: [PATCH 22/55] fix: verify extent of grids with variable resolution

---
 libsrc/geomodelgrids/apps/Info.cc | 33 +++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index fba6e3d..30bd70a 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -38,6 +38,10 @@ namespace geomodelgrids {
             void verifyBlocksZ(const std::vector<std::shared_ptr<geomodelgrids::serial::Block> >& blocks,
                                const double zBottom);
 
+            double gridExtent(const double resolution,
+                              const double* coordinates,
+                              const size_t numPoints);
+
             const double* computeBoundingBox(const geomodelgrids::serial::Model* model);
 
         } // _Info
@@ -397,8 +401,11 @@ geomodelgrids::apps::Info::_verify(geomodelgrids::serial::Model* const model) {
         const double topResolutionY = surfaceTop->getResolutionY();
         const double topoResolutionX = surfaceTopoBathy->getResolutionX();
         const double topoResolutionY = surfaceTopoBathy->getResolutionY();
-        if ((fabs(1.0 - topoResolutionX/topResolutionX) > 1.0e-4) ||
-            (fabs(1.0 - topoResolutionY/topResolutionY) > 1.0e-4)) {
+        // Resolution is zero for an axis with variable resolution.
+        const bool compareX = topResolutionX > 0.0 && topoResolutionX > 0.0;
+        const bool compareY = topResolutionY > 0.0 && topoResolutionY > 0.0;
+        if ((compareX && fabs(1.0 - topoResolutionX/topResolutionX) > 1.0e-4) ||
+            (compareY && fabs(1.0 - topoResolutionY/topResolutionY) > 1.0e-4)) {
             std::cout << "FAIL\n"
                       << _Info::indent(3) << "Resolution of top surface: x=" << topResolutionX
                       << ", y=" << topResolutionY
@@ -484,15 +491,17 @@ geomodelgrids::apps::_Info::verifySurface(const geomodelgrids::serial::Surface*
     double resolution[2];
     resolution[0] = surface->getResolutionX();
     resolution[1] = surface->getResolutionY();
+    const double* coordinates[2] = { surface->getCoordinatesX(), surface->getCoordinatesY() };
     const size_t* numTopo = surface->getDims();
 
     const double tolerance = 1.0e-6;
     const std::string dimLabel[2] = { "x", "y" };
     for (size_t iDim = 0; iDim < 2; ++iDim) {
-        if (fabs(1.0 - resolution[iDim]*(numTopo[iDim]-1)/dimsDomain[iDim]) > tolerance) {
+        const double extent = gridExtent(resolution[iDim], coordinates[iDim], numTopo[iDim]);
+        if (fabs(1.0 - extent/dimsDomain[iDim]) > tolerance) {
             if (ok) { std::cout << "FAIL\n"; }
             std::cout << _Info::indent(3) << "Surface '" << name << "' does not span the domain in the " << dimLabel[iDim]
-                      << " dimension (surface=" << resolution[iDim]*numTopo[iDim] << ", domain=" << dimsDomain[iDim] << ").\n";
+                      << " dimension (surface=" << extent << ", domain=" << dimsDomain[iDim] << ").\n";
             ok = false;
         } // if
     } // for
@@ -515,6 +524,7 @@ geomodelgrids::apps::_Info::verifyBlock(geomodelgrids::serial::Block* block,
     double resolution[2];
     resolution[0] = block->getResolutionX();
     resolution[1] = block->getResolutionY();
+    const double* coordinates[2] = { block->getCoordinatesX(), block->getCoordinatesY() };
     const size_t* numBlock = block->getDims();
 
     const double tolerance = 1.0e-6;
@@ -522,10 +532,11 @@ geomodelgrids::apps::_Info::verifyBlock(geomodelgrids::serial::Block* block,
     // Verify block spans the domain.
     const std::string dimLabel[2] = { "x", "y" };
     for (size_t iDim = 0; iDim < 2; ++iDim) {
-        if (fabs(1.0 - resolution[iDim]*(numBlock[iDim]-1)/dimsDomain[iDim]) > tolerance) {
+        const double extent = gridExtent(resolution[iDim], coordinates[iDim], numBlock[iDim]);
+        if (fabs(1.0 - extent/dimsDomain[iDim]) > tolerance) {
             if (ok) { std::cout << "FAIL\n"; }
             std::cout << _Info::indent(3) << "Block '" << block->getName() << "' does not span the domain in the "
-                      << dimLabel[iDim] << " dimension (block=" << resolution[iDim]*numBlock[iDim] << ", domain="
+                      << dimLabel[iDim] << " dimension (block=" << extent << ", domain="
                       << dimsDomain[iDim] << ").\n";
             ok = false;
         } // if
@@ -601,6 +612,16 @@ geomodelgrids::apps::_Info::verifyBlocksZ(const std::vector<std::shared_ptr<geom
 }
 
 
+// ------------------------------------------------------------------------------------------------
+// Compute extent of grid along an axis with uniform (resolution) or variable (coordinates) resolution.
+double
+geomodelgrids::apps::_Info::gridExtent(const double resolution,
+                                       const double* coordinates,
+                                       const size_t numPoints) {
+    return (coordinates && numPoints > 0) ? coordinates[numPoints-1] - coordinates[0] : resolution * (numPoints-1);
+}
+
+
 // ------------------------------------------------------------------------------------------------
 const double*
 geomodelgrids::apps::_Info::computeBoundingBox(const geomodelgrids::serial::Model* model) {
-- 
2.43.0


From bca80f60052bdbf7a0e141055133bfcbe090bfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:15 +0000
Subject: [PATCH 23/55] fix: report model without blocks when verifying

---
 libsrc/geomodelgrids/apps/Info.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index 30bd70a..2469503 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -578,6 +578,12 @@ geomodelgrids::apps::_Info::verifyBlocksZ(const std::vector<std::shared_ptr<geom
     const double tolerance = 1.0e-4;
     const size_t numBlocks = blocks.size();
 
+    if (0 == numBlocks) {
+        std::cout << "FAIL\n"
+                  << _Info::indent(3) << "Model does not contain any blocks.\n";
+        ok = false;
+    } // if
+
     if (numBlocks > 0) {
         assert(blocks[0]);
         if (fabs(blocks[0]->getZTop()) > tolerance) {
-- 
2.43.0


From 6a635ccc8e46c803927104ffd7b271481ad89448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:30 +0000
Subject: [PATCH 24/55] fix: get unit of requested axis of CRS

---
 libsrc/geomodelgrids/utils/CRSTransformer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/utils/CRSTransformer.cc b/libsrc/geomodelgrids/utils/CRSTransformer.cc
index f30d767..4644a1b 100644
--- a/libsrc/geomodelgrids/utils/CRSTransformer.cc
+++ b/libsrc/geomodelgrids/utils/CRSTransformer.cc
@@ -232,7 +232,7 @@ geomodelgrids::utils::_CRSTransformer::getAxisUnit(std::string* unit,
     assert(projCoordSys);
 
     const char* buffer = nullptr;
-    proj_cs_get_axis_info(nullptr, projCoordSys, 0, nullptr, nullptr, nullptr, nullptr, &buffer, nullptr, nullptr);
+    proj_cs_get_axis_info(nullptr, projCoordSys, axisIndex, nullptr, nullptr, nullptr, nullptr, &buffer, nullptr, nullptr);
     if (strcasecmp("metre", buffer) == 0) {
         *unit = "meter";
     } else if (strcasecmp("meter", buffer) == 0) {
-- 
2.43.0


From e4b22524262d7233c30a0372a6a3c84a0e54c390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:30 +0000
Subject: [PATCH 25/55] fix: do not abort on CRS strings PROJ does not
 understand

---
 libsrc/geomodelgrids/utils/CRSTransformer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/utils/CRSTransformer.cc b/libsrc/geomodelgrids/utils/CRSTransformer.cc
index 4644a1b..6c3d7ed 100644
--- a/libsrc/geomodelgrids/utils/CRSTransformer.cc
+++ b/libsrc/geomodelgrids/utils/CRSTransformer.cc
@@ -174,7 +174,8 @@ geomodelgrids::utils::CRSTransformer::getCRSUnits(std::string* xUnit,
     if (!crsString || (0 == strlen(crsString))) { return; }
 
     PJ_CONTEXT* context = PJ_DEFAULT_CTX;
-    PJ* proj = proj_create(context, crsString);assert(proj);
+    PJ* proj = proj_create(context, crsString);
+    if (!proj) { return; }
     PJ* projCoordSys = proj_crs_get_coordinate_system(context, proj);
     if (projCoordSys) {
         _CRSTransformer::getUnits(xUnit, yUnit, zUnit, projCoordSys);
-- 
2.43.0


From 3472cd54832c5168892e2ac4e27df1f0d8935581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:30 +0000
Subject: [PATCH 26/55] fix: get units of compound CRS and release PROJ objects

---
 libsrc/geomodelgrids/utils/CRSTransformer.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/utils/CRSTransformer.cc b/libsrc/geomodelgrids/utils/CRSTransformer.cc
index 6c3d7ed..a99c98a 100644
--- a/libsrc/geomodelgrids/utils/CRSTransformer.cc
+++ b/libsrc/geomodelgrids/utils/CRSTransformer.cc
@@ -199,7 +199,23 @@ geomodelgrids::utils::CRSTransformer::getCRSUnits(std::string* xUnit,
         _CRSTransformer::getUnits(xUnit, yUnit, zUnit, projCoordSys);
         proj_destroy(projCoordSys);
         return;
-    }
+    } else if (proj_get_type(proj) == PJ_TYPE_COMPOUND_CRS) {
+        PJ* projHoriz = proj_crs_get_sub_crs(context, proj, 0);
+        PJ* projVert = proj_crs_get_sub_crs(context, proj, 1);
+        PJ* csHoriz = projHoriz ? proj_crs_get_coordinate_system(context, projHoriz) : nullptr;
+        PJ* csVert = projVert ? proj_crs_get_coordinate_system(context, projVert) : nullptr;
+        if (csHoriz) {
+            _CRSTransformer::getUnits(xUnit, yUnit, nullptr, csHoriz);
+        } // if
+        if (csVert && zUnit) {
+            _CRSTransformer::getAxisUnit(zUnit, csVert, 0);
+        } // if
+        proj_destroy(csVert);
+        proj_destroy(csHoriz);
+        proj_destroy(projVert);
+        proj_destroy(projHoriz);
+    } // if/else
+    proj_destroy(proj);
 }
 
 
-- 
2.43.0


From dc761fbdde7f92dcf9838c6c9e4f5cb072612b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:30 +0000
Subject: [PATCH 27/55] fix: use of released PROJ object when CRS cannot be
 normalized

---
 libsrc/geomodelgrids/utils/CRSTransformer.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/utils/CRSTransformer.cc b/libsrc/geomodelgrids/utils/CRSTransformer.cc
index a99c98a..2abaf48 100644
--- a/libsrc/geomodelgrids/utils/CRSTransformer.cc
+++ b/libsrc/geomodelgrids/utils/CRSTransformer.cc
@@ -138,11 +138,10 @@ geomodelgrids::utils::CRSTransformer::createGeoToXYAxisOrder(const char* crsStri
     } // if
     PJ* projXY = proj_normalize_for_visualization(context, projGeo);
     if (!projXY) {
-        proj_destroy(projGeo);
-
         std::stringstream msg;
         msg << "Error creating normalized CRS from '" << crsString << "'.\n"
             << proj_errno_string(proj_errno(projGeo));
+        proj_destroy(projGeo);
         throw std::runtime_error(msg.str());
     }
     PJ* transform = proj_create_crs_to_crs_from_pj(context, projGeo, projXY, nullptr, nullptr);
-- 
2.43.0


From 56ccd8bde0fe678e33af0aa8b2de28c986810015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:30 +0000
Subject: [PATCH 28/55] fix: minimum y of GeoTiff bounding box

---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index 3c2ecdf..6ecc2de 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -148,7 +148,7 @@ geomodelgrids::utils::GeoTiff::getBBox(double* minX,
 
     const double _maxY = _transform[3];
     const double dy = _transform[5];
-    if (minY) { *minY = _maxY - dy * _numRows; }
+    if (minY) { *minY = _maxY + dy * _numRows; }
     if (maxY) { *maxY = _maxY; }
 }
 
-- 
2.43.0


From 3da5e67104b8b0f7f24df1e431c14589119a7e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:30 +0000
Subject: [PATCH 29/55] fix: keep GDAL drivers registered when closing GeoTiff

---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index 6ecc2de..ece39d8 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -276,10 +276,7 @@ geomodelgrids::utils::GeoTiff::close(void) {
         GDALClose(_dataset);
         _dataset = nullptr;
     } // if
-    if (_driver) {
-        GDALDestroyDriverManager();
-        _driver = nullptr;
-    } // if
+    _driver = nullptr; // Drivers are shared with other objects, so leave them registered.
 }
 
 
-- 
2.43.0


From 272d5384e2d1d6a166e380e9cc82abdd312eda39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:30 +0000
Subject: [PATCH 30/55] fix: report GeoTiff without raster data

---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index ece39d8..dd327cf 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -248,7 +248,8 @@ geomodelgrids::utils::GeoTiff::read(const char* filename) {
         } // for
 
         const size_t bufferSize = _numCols * _numRows * _numBands;
-        _buffer = (bufferSize > 0) ? new float[bufferSize] : nullptr;assert(_buffer);
+        if (0 == bufferSize) { throw std::runtime_error("No raster data in file."); }
+        _buffer = new float[bufferSize];
 
         err = _dataset->RasterIO(GF_Read, 0, 0, _numCols, _numRows, _buffer, _numCols, _numRows,
                                  GDT_Float32, _numBands, nullptr, 0, 0, 0, nullptr);
-- 
2.43.0


From 3874235356e07ba7b52a2dea484718c480389b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:00 +0000
Subject: [PATCH 31/55] fix: keep verification output of uniform and incomplete
 grids

---
 libsrc/geomodelgrids/apps/Info.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index 2469503..895f500 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -401,9 +401,9 @@ geomodelgrids::apps::Info::_verify(geomodelgrids::serial::Model* const model) {
         const double topResolutionY = surfaceTop->getResolutionY();
         const double topoResolutionX = surfaceTopoBathy->getResolutionX();
         const double topoResolutionY = surfaceTopoBathy->getResolutionY();
-        // Resolution is zero for an axis with variable resolution.
-        const bool compareX = topResolutionX > 0.0 && topoResolutionX > 0.0;
-        const bool compareY = topResolutionY > 0.0 && topoResolutionY > 0.0;
+        // An axis with variable resolution does not have a single resolution to compare.
+        const bool compareX = !surfaceTop->getCoordinatesX() && !surfaceTopoBathy->getCoordinatesX();
+        const bool compareY = !surfaceTop->getCoordinatesY() && !surfaceTopoBathy->getCoordinatesY();
         if ((compareX && fabs(1.0 - topoResolutionX/topResolutionX) > 1.0e-4) ||
             (compareY && fabs(1.0 - topoResolutionY/topResolutionY) > 1.0e-4)) {
             std::cout << "FAIL\n"
@@ -501,7 +501,8 @@ geomodelgrids::apps::_Info::verifySurface(const geomodelgrids::serial::Surface*
         if (fabs(1.0 - extent/dimsDomain[iDim]) > tolerance) {
             if (ok) { std::cout << "FAIL\n"; }
             std::cout << _Info::indent(3) << "Surface '" << name << "' does not span the domain in the " << dimLabel[iDim]
-                      << " dimension (surface=" << extent << ", domain=" << dimsDomain[iDim] << ").\n";
+                      << " dimension (surface=" << (coordinates[iDim] ? extent : resolution[iDim]*numTopo[iDim])
+                      << ", domain=" << dimsDomain[iDim] << ").\n";
             ok = false;
         } // if
     } // for
@@ -536,7 +537,8 @@ geomodelgrids::apps::_Info::verifyBlock(geomodelgrids::serial::Block* block,
         if (fabs(1.0 - extent/dimsDomain[iDim]) > tolerance) {
             if (ok) { std::cout << "FAIL\n"; }
             std::cout << _Info::indent(3) << "Block '" << block->getName() << "' does not span the domain in the "
-                      << dimLabel[iDim] << " dimension (block=" << extent << ", domain="
+                      << dimLabel[iDim] << " dimension (block=" << (coordinates[iDim] ? extent : resolution[iDim]*numBlock[iDim])
+                      << ", domain="
                       << dimsDomain[iDim] << ").\n";
             ok = false;
         } // if
-- 
2.43.0


From 88c6da59aeef60ec0eed2049c6d73a949fc08b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 32/55] fix: GeoTiff bounding box is not rotated after reading
 a rotated file fails

---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index dd327cf..3aa69b7 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -132,6 +132,10 @@ geomodelgrids::utils::GeoTiff::setBBox(const double minX,
     const double dy = (minY-maxY) / _numRows;
     _transform[3] = maxY;
     _transform[5] = dy;
+
+    // No rotation.
+    _transform[2] = 0.0;
+    _transform[4] = 0.0;
 }
 
 
-- 
2.43.0


From 944fc647db97282a064b0d0880295d11d35dc3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 33/55] fix: 3D batches when two axes are short

---
 geomodelgrids/create/utils/batch.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/geomodelgrids/create/utils/batch.py b/geomodelgrids/create/utils/batch.py
index d9c5cf4..3326c7a 100644
--- a/geomodelgrids/create/utils/batch.py
+++ b/geomodelgrids/create/utils/batch.py
@@ -144,6 +144,9 @@ class BatchGenerator3D():
                 elif num_y <= num_yz:
                     self.bnum_y = num_y
                     self.bnum_z = max_nvalues // (num_x * num_y)
+                elif num_z <= num_yz:
+                    self.bnum_z = num_z
+                    self.bnum_y = max_nvalues // (num_x * num_z)
                 else:
                     raise ValueError("Unknown case")
             elif num_y <= num_xyz:
@@ -151,6 +154,12 @@ class BatchGenerator3D():
                 num_xz = round((max_nvalues // num_y)**0.5)
                 if num_x > num_xz and num_z > num_xz:
                     self.bnum_x = self.bnum_z = num_xz
+                elif num_x <= num_xz:
+                    self.bnum_x = num_x
+                    self.bnum_z = max_nvalues // (num_x * num_y)
+                elif num_z <= num_xz:
+                    self.bnum_z = num_z
+                    self.bnum_x = max_nvalues // (num_y * num_z)
                 else:
                     raise ValueError("Unknown case")
             else:
-- 
2.43.0


From 4576813acf1c8d31e00cb525bf2fca0f902a94fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 34/55] fix: generate all points of a block when no batch is
 given

---
 geomodelgrids/create/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 7bb7325..7677e5b 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -242,7 +242,7 @@ class Block():
             y_start = 0
             y_end = num_y
             z_start = 0
-            z_end = 0
+            z_end = num_z
 
         if self.x_resolution:
             x1 = numpy.linspace(0.0, self.x_resolution * (num_x - 1), num_x)[x_start:x_end]
-- 
2.43.0


From 09aa03b35089bc52671e84345c7aa878e953841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 35/55] fix: surface of a block when no batch is given

---
 geomodelgrids/create/core/model.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 7677e5b..2d4bc3d 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -307,7 +307,7 @@ class Block():
                 indices = numpy.arange(0, surf_range[1]-surf_range[0], step=block_skip, dtype=numpy.int64)
             else:
                 surf_range = None
-                indices = numpy.arange(0, surfae_dim+0.5, step=block_skip, dtype=numpy.int64)
+                indices = numpy.arange(0, surfae_dim, step=block_skip, dtype=numpy.int64)
             return (surf_range, indices)
 
         def _get_slice_variable(block_coordinates, surface_coordinates, batch_range):
@@ -343,16 +343,18 @@ class Block():
             raise ValueError("Cannot use variable y-resolution block with uniform y-resolution surface.")
 
         surface_dims = surface.get_dims()
+        x_range = batch.x_range if batch else None
+        y_range = batch.y_range if batch else None
         if self.x_resolution:
             (surf_xrange, x_indices) = _get_slice_uniform(self.x_resolution, surface_dims[0],
-                                                          surface.x_resolution, batch.x_range)
+                                                          surface.x_resolution, x_range)
         else:
-            (surf_xrange, x_indices) = _get_slice_variable(self.x_coordinates, surface.x_coordinates, batch.x_range)
+            (surf_xrange, x_indices) = _get_slice_variable(self.x_coordinates, surface.x_coordinates, x_range)
         if self.y_resolution:
             (surf_yrange, y_indices) = _get_slice_uniform(self.y_resolution, surface_dims[1],
-                                                          surface.y_resolution, batch.y_range)
+                                                          surface.y_resolution, y_range)
         else:
-            (surf_yrange, y_indices) = _get_slice_variable(self.y_coordinates, surface.y_coordinates, batch.y_range)
+            (surf_yrange, y_indices) = _get_slice_variable(self.y_coordinates, surface.y_coordinates, y_range)
 
         if batch:
             surface_batch = BatchSurface(surf_xrange, surf_yrange)
-- 
2.43.0


From d87ffcf8a03739a8f1754629edd40c12330fd76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 36/55] fix: rows of the surface for a batch of a block with
 variable coordinates

---
 geomodelgrids/create/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 2d4bc3d..c924793 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -320,8 +320,8 @@ class Block():
                     if math.fabs(scoords_sorted[index] - block_coord) > TOLERANCE:
                         raise ValueError(
                             f"Could not find surface coordinate matching block coordinate ({block_coord}).")
-                indices -= indices[0]
                 surf_range = (numpy.min(indices), numpy.max(indices)+1)
+                indices -= surf_range[0]
             else:
                 scoords_sorted = numpy.array(surface_coordinates)
                 scoords_sorted.sort()
-- 
2.43.0


From efeeb06c9b2406fa3af1c5976fe7195cca07aed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 37/55] fix: shape of the surface of a block or batch that is
 one point wide

---
 geomodelgrids/create/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index c924793..eebb0fb 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -362,7 +362,7 @@ class Block():
             surface_batch = None
 
         elevation = surface.storage.load_surface(surface, surface_batch)
-        return numpy.float64(elevation[numpy.ix_(x_indices, y_indices, [0])].squeeze())
+        return numpy.float64(elevation[numpy.ix_(x_indices, y_indices, [0])][:, :, 0])
 
     def get_attributes(self):
         """Get attributes associated with block.
-- 
2.43.0


From 6a138382b3c1040fcc09ee76fe2e5ba53b16877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 38/55] fix: apply the vertical offset only to the top points
 of a block

---
 geomodelgrids/create/core/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index eebb0fb..3022b7b 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -267,7 +267,8 @@ class Block():
                     (domain_top - domain_bot) * (self.z_top - z[:, :, iz] - domain_bot)
         else:
             z = self.z_top - z
-        z[:, :, 0] += self.z_top_offset  # Adjust top points by offset
+        if z_start == 0:
+            z[:, :, 0] += self.z_top_offset  # Adjust top points by offset
 
         xyz_geo = numpy.stack((x, y, z), axis=3)
         xyz_model = numpy.zeros(xyz_geo.shape)
-- 
2.43.0


From 1c5412a67b1321bf4ba0a9f62753dc944ee0685b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 39/55] fix: error message for a surface whose resolution
 differs from the model

---
 geomodelgrids/create/io/hdf5.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index 50ac313..4ad12d8 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -101,9 +101,9 @@ class HDF5Storage():
         for attr_info in surface.get_attributes():
             attr_name = attr_info[0]
             attr_type = attr_info[1]
+            config_attr = getattr(surface, attr_name)
+            h5_attr = attrs[attr_name]
             if attr_type == list or attr_type == tuple:
-                config_attr = getattr(surface, attr_name)
-                h5_attr = attrs[attr_name]
                 if len(config_attr) != len(h5_attr):
                     raise ValueError(
                         f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
@@ -112,7 +112,7 @@ class HDF5Storage():
                         raise ValueError(
                             f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
             else:
-                if getattr(surface, attr_name) != attrs[attr_name]:
+                if config_attr != h5_attr:
                     raise ValueError(
                         f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
 
-- 
2.43.0


From eb0d0ad219c0a9719e5625987375c1061fb177e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 40/55] fix: error message for a list attribute with a value of
 the wrong type

---
 geomodelgrids/create/io/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index 4ad12d8..e00f46a 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -207,7 +207,7 @@ class HDF5Storage():
                 for list_value in value:
                     if not isinstance(list_value, value_type):
                         raise ValueError(
-                            f"Expected type '{value_type}' for value of attribute '{attr_name}'. Got type '{type(iter_value)}'.")
+                            f"Expected type '{value_type}' for value of attribute '{attr_name}'. Got type '{type(list_value)}'.")
                 if value_type == str:
                     result = [numpy.string_(v) for v in value]
                 else:
-- 
2.43.0


From f217b73d752fbc782f7bbd693669e1776a534924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 41/55] fix: write lists of non-ASCII strings

---
 geomodelgrids/create/io/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index e00f46a..b111499 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -209,7 +209,7 @@ class HDF5Storage():
                         raise ValueError(
                             f"Expected type '{value_type}' for value of attribute '{attr_name}'. Got type '{type(list_value)}'.")
                 if value_type == str:
-                    result = [numpy.string_(v) for v in value]
+                    result = [numpy.string_(v.encode("utf-8")) for v in value]
                 else:
                     result = value
             else:
-- 
2.43.0


From 06d8e1f4fde48811f0e06957acc8b666b5871dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 42/55] fix: top surface when no batch size is given

---
 geomodelgrids/create/apps/create_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/apps/create_model.py b/geomodelgrids/create/apps/create_model.py
index 8907cfb..c71a911 100644
--- a/geomodelgrids/create/apps/create_model.py
+++ b/geomodelgrids/create/apps/create_model.py
@@ -85,7 +85,7 @@ class App():
                         model.save_top_surface(elevation, batch)
                 else:
                     points = model.top_surface.generate_points()
-                    elevation = datasrc.get_top_surface()
+                    elevation = datasrc.get_top_surface(points)
                     model.save_top_surface(elevation)
             if model.topo_bathy:
                 model.init_topography_bathymetry()
-- 
2.43.0


From 98779fa22f6d6e5c3e1ee1fe1847e1c6c4b1da2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 43/55] fix: pass the configuration files and --all of the
 command line to the application

---
 geomodelgrids/create/apps/create_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geomodelgrids/create/apps/create_model.py b/geomodelgrids/create/apps/create_model.py
index c71a911..d56363e 100644
--- a/geomodelgrids/create/apps/create_model.py
+++ b/geomodelgrids/create/apps/create_model.py
@@ -155,11 +155,13 @@ def cli():
 
     app = App(show_progress=True, debug=args.debug, log_filename=args.log_filename)
     kwargs = {
+        "config_filenames": args.config,
         "show_parameters": args.show_parameters,
         "import_domain": args.import_domain,
         "import_surfaces": args.import_surfaces,
         "import_blocks": args.import_blocks,
         "update_metadata": args.update_metadata,
+        "all_steps": args.all,
     }
     app.main(**kwargs)
 
-- 
2.43.0


From ff517d4fe822136dcb1083d0627e056574f6a066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 44/55] fix: number of points when the resolution is not exact
 in floating point

---
 geomodelgrids/create/core/model.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 3022b7b..00a6d08 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -13,6 +13,13 @@ from geomodelgrids.create.utils import batch
 from geomodelgrids.create.io.hdf5 import HDF5Storage
 
 
+def _get_num_points(extent, resolution):
+    """Get number of points of a uniform axis (with tolerance for roundoff errors in the ratio).
+    """
+    TOLERANCE = 1.0e-6
+    return 1 + int(TOLERANCE + extent / resolution)
+
+
 class Surface():
     """Model surface.
 
@@ -61,8 +68,8 @@ class Surface():
         Returns:
             Tuple of number of points along each dimension (num_x, num_y).
         """
-        num_x = 1 + int(self.model_metadata.dim_x / self.x_resolution) if self.x_resolution else len(self.x_coordinates)
-        num_y = 1 + int(self.model_metadata.dim_y / self.y_resolution) if self.y_resolution else len(self.y_coordinates)
+        num_x = _get_num_points(self.model_metadata.dim_x, self.x_resolution) if self.x_resolution else len(self.x_coordinates)
+        num_y = _get_num_points(self.model_metadata.dim_y, self.y_resolution) if self.y_resolution else len(self.y_coordinates)
         return (num_x, num_y, 1)
 
     def get_batches(self, batch_size):
@@ -191,15 +198,15 @@ class Block():
             Tuple of number of points along each dimension (num_x, num_y, num_z).
         """
         if self.x_resolution:
-            num_x = 1 + int(self.model_metadata.dim_x / self.x_resolution)
+            num_x = _get_num_points(self.model_metadata.dim_x, self.x_resolution)
         else:
             num_x = len(self.x_coordinates)
         if self.y_resolution:
-            num_y = 1 + int(self.model_metadata.dim_y / self.y_resolution)
+            num_y = _get_num_points(self.model_metadata.dim_y, self.y_resolution)
         else:
             num_y = len(self.y_coordinates)
         if self.z_resolution:
-            num_z = 1 + int((self.z_top - self.z_bot) / self.z_resolution)
+            num_z = _get_num_points(self.z_top - self.z_bot, self.z_resolution)
         else:
             num_z = len(self.z_coordinates)
         return (num_x, num_y, num_z)
-- 
2.43.0


From 75bde46887aebdfeebce7c44f0b9c3d069c68419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 45/55] fix: surface of a block or batch of one point is an
 array

---
 geomodelgrids/create/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 00a6d08..559b9f8 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -370,7 +370,7 @@ class Block():
             surface_batch = None
 
         elevation = surface.storage.load_surface(surface, surface_batch)
-        return numpy.float64(elevation[numpy.ix_(x_indices, y_indices, [0])][:, :, 0])
+        return elevation[numpy.ix_(x_indices, y_indices, [0])][:, :, 0].astype(numpy.float64)
 
     def get_attributes(self):
         """Get attributes associated with block.
-- 
2.43.0


From ed0409e1ac9679d158bf1dd3198701aea5095dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:30 +0000
Subject: [PATCH 46/55] fix: CSV data source puts each row at its own grid
 point

The y index of blocks with y coordinates was computed from x, coordinates were
rounded to a power of ten before the search, and the depth index of blocks with
uniform z resolution was negative.
---
 geomodelgrids/create/data_srcs/csv/datasrc.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/csv/datasrc.py b/geomodelgrids/create/data_srcs/csv/datasrc.py
index beeb64f..3dd0b92 100644
--- a/geomodelgrids/create/data_srcs/csv/datasrc.py
+++ b/geomodelgrids/create/data_srcs/csv/datasrc.py
@@ -54,11 +54,8 @@ class CSVFile(DataSrc):
             batch (BatchGenerator3D)
                 Current batch of points in block.
         """
-        def _varxy_index_fn(coordinates):
-            x_grid = numpy.array(coordinates)
-            x_grid.sort()
-            x_round = -int(numpy.log10(numpy.min(numpy.diff(x_grid))))
-            return x_grid.searchsorted(round(x, x_round))
+        def _nearest_index(value, coordinates):
+            return numpy.argmin(numpy.abs(numpy.array(coordinates) - value))
 
         if batch:
             raise NotImplementedError("Batches with CSV files are not implemented.")
@@ -73,18 +70,15 @@ class CSVFile(DataSrc):
         if block.x_resolution:
             def get_xindex(x, block): return round(x / block.x_resolution)
         else:
-            def get_xindex(x, block): return _varxy_index_fn(block.x_coordinates)
+            def get_xindex(x, block): return _nearest_index(x, block.x_coordinates)
         if block.y_resolution:
             def get_yindex(y, block): return round(y / block.y_resolution)
         else:
-            def get_yindex(y, block): return _varxy_index_fn(block.y_coordinates)
+            def get_yindex(y, block): return _nearest_index(y, block.y_coordinates)
         if block.z_resolution:
-            def get_zindex(z, block): return round(z / block.z_resolution)
+            def get_zindex(z, block): return round((block.z_top - z) / block.z_resolution)
         else:
-            z_grid = numpy.array(block.z_coordinates)
-            z_grid.sort()
-            z_round = -int(numpy.log10(numpy.min(numpy.diff(z_grid))))
-            def get_zindex(z, block): return len(z_grid) - 1 - z_grid.searchsorted(round(z, z_round))
+            def get_zindex(z, block): return _nearest_index(z, block.z_coordinates)
 
         nx, ny, nz = block.get_dims()
         values = NODATA_VALUE * numpy.ones((nx, ny, nz, len(value_names)), dtype=numpy.float32)
-- 
2.43.0


From 6a8c7aa0143d58c4d992222c5a8337dec6354dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:42 +0000
Subject: [PATCH 47/55] fix: EMC models with uniform depth spacing get a z
 resolution, top and bottom

The resolution was a tuple and the block had no z_top and z_bot, so that creating
the block failed.
---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index df334a9..3791420 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -131,7 +131,9 @@ class EMCNetCDF(DataSrc):
             "z_top_offset": 0.0,
         }
         if is_uniform_resolution(self.emc.variables["depth"][:]):
-            info["z_resolution"] = vertical_scale * (depth_max - depth_min) / (self.emc.variables["depth"].size-1),
+            info["z_resolution"] = vertical_scale * (depth_max - depth_min) / (self.emc.variables["depth"].size-1)
+            info["z_top"] = -vertical_scale * depth_min
+            info["z_bot"] = -vertical_scale * depth_max
         else:
             z_coordinates = -vertical_scale * self.emc.variables["depth"][:]
             info["z_coordinates"] = z_coordinates.tolist()
-- 
2.43.0


From 992364e23360518cf303b6e77bca3989fd154c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:42 +0000
Subject: [PATCH 48/55] fix: EMC data source sets the data layout

It replaces the data section of the configuration, so that the layout required
by the model metadata was always missing.
---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index 3791420..5928a94 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -106,6 +106,7 @@ class EMCNetCDF(DataSrc):
         self.config["data"] = {
             "values": values,
             "units": units,
+            "layout": "vertex",
         }
 
         long_names = {}
-- 
2.43.0


From ef47f780082b8f6bd13cfa0ea299e0241fc21b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:42 +0000
Subject: [PATCH 49/55] fix: EarthVision depth of a batch below the top of its
 block

Only the top slice of a block is moved by z_top_offset; the first slice of every
other batch had its depth changed by the offset.
---
 geomodelgrids/create/data_srcs/earthvision/datasrc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/data_srcs/earthvision/datasrc.py b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
index e857da5..81c17b2 100644
--- a/geomodelgrids/create/data_srcs/earthvision/datasrc.py
+++ b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
@@ -161,7 +161,8 @@ class RulesDataSrc(DataSrc):
         depth = numpy.zeros(points.shape[:-1])
         for iz in range(depth.shape[-1]):
             depth[:, :, iz] = topo_bathy_elev - points[:, :, iz, 2]
-        depth[:, :, 0] -= block.z_top_offset
+        if not batch or batch.z_range[0] == 0:
+            depth[:, :, 0] -= block.z_top_offset
 
         fn_path = self.config["earthvision"]["rules_fn"].split(".")
         if "rules_pythonpath" in self.config["earthvision"]:
-- 
2.43.0


From 9b1157f20aeef2d298efc65795c63700f6219141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:18 +0000
Subject: [PATCH 50/55] fix: EarthVision ids of points outside every fault
 block or zone

The type of the ids was that of the first point, so that the NODATA value of a
later point could not be stored.
---
 geomodelgrids/create/data_srcs/earthvision/datasrc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/earthvision/datasrc.py b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
index 81c17b2..01dba6d 100644
--- a/geomodelgrids/create/data_srcs/earthvision/datasrc.py
+++ b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
@@ -175,8 +175,8 @@ class RulesDataSrc(DataSrc):
 
         # Append fault block and zone id to values
         # :KLUDGE: Fault block and zone id are converted from int to float
-        faultblock_id = numpy.vectorize(self.set_faultblock_id)(self.faultblock_ids, data["fault_block"])
-        zone_id = numpy.vectorize(self.set_zone_id)(self.zone_ids, data["zone"])
+        faultblock_id = numpy.vectorize(self.set_faultblock_id, otypes=[float])(self.faultblock_ids, data["fault_block"])
+        zone_id = numpy.vectorize(self.set_zone_id, otypes=[float])(self.zone_ids, data["zone"])
         values = numpy.vstack([v for v in rules_values] + [faultblock_id.reshape((1, -1)),
                                                            zone_id.reshape((1, -1))]).transpose()
         values = values.reshape((points.shape[0], points.shape[1], points.shape[2], -1))
-- 
2.43.0


From 5bd5077f667bdedbeecc85fe851bdec6f80c809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:14 +0000
Subject: [PATCH 51/55] fix: EarthVision rule values are not truncated to
 integers

The type of every value was that of the first point: a rule that gives an integer
there truncated the values of all other points.
---
 geomodelgrids/create/data_srcs/earthvision/datasrc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/data_srcs/earthvision/datasrc.py b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
index 01dba6d..40beaed 100644
--- a/geomodelgrids/create/data_srcs/earthvision/datasrc.py
+++ b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
@@ -20,7 +20,7 @@ class RulesDataSrc(DataSrc):
     """
     @staticmethod
     def query_rule(rules_fn, data, depth):
-        return rules_fn(data[3], data[4])(data[0], data[1], depth)
+        return tuple(map(float, rules_fn(data[3], data[4])(data[0], data[1], depth)))
 
     @staticmethod
     def set_faultblock_id(faultblock_ids, name):
-- 
2.43.0


From e6fb9a953f4807828a484afed1578d31d4bab333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:15 +0000
Subject: [PATCH 52/55] fix: CSV files with a single row

---
 geomodelgrids/create/data_srcs/csv/datasrc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/data_srcs/csv/datasrc.py b/geomodelgrids/create/data_srcs/csv/datasrc.py
index 3dd0b92..73f939f 100644
--- a/geomodelgrids/create/data_srcs/csv/datasrc.py
+++ b/geomodelgrids/create/data_srcs/csv/datasrc.py
@@ -61,7 +61,7 @@ class CSVFile(DataSrc):
             raise NotImplementedError("Batches with CSV files are not implemented.")
 
         comment_flag = self.config["csv"].get("comment_flag", "#")
-        csv_data = numpy.loadtxt(self.config["csv"]["filename"], comments=comment_flag)
+        csv_data = numpy.loadtxt(self.config["csv"]["filename"], comments=comment_flag, ndmin=2)
         model_x, model_y, model_z = self._to_model_xyz(csv_data)
 
         value_names = string_to_list(self.config["data"]["values"])
-- 
2.43.0


From 4e7f8a3af24071b4eb6754918cd9a897944fdb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:15 +0000
Subject: [PATCH 53/55] fix: missing samples of an EMC model are NODATA

---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index 5928a94..b9b0e19 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -170,13 +170,19 @@ class EMCNetCDF(DataSrc):
             z_start, z_end = batch.z_range
             for i_value, name in enumerate(value_names):
                 values_batch = self.emc.variables[name][z_start:z_end, y_start:y_end, x_start:x_end]
-                values[:, :, :, i_value] = numpy.transpose(values_batch)
+                values[:, :, :, i_value] = numpy.transpose(self._fill_missing(values_batch))
         else:
             nz, ny, nx = self.emc.variables[value_names[0]][:].shape
             values = numpy.zeros((nx, ny, nz, len(value_names)), dtype=numpy.float32)
             for i_value, name in enumerate(value_names):
-                values[:, :, :, i_value] = numpy.transpose(self.emc.variables[name][:])
+                values[:, :, :, i_value] = numpy.transpose(self._fill_missing(self.emc.variables[name][:]))
         return values
 
+    @staticmethod
+    def _fill_missing(values):
+        """Replace missing values (masked by netCDF4) with NODATA_VALUE.
+        """
+        return numpy.ma.filled(values.astype(numpy.float32), NODATA_VALUE)
+
 
 # End of file
-- 
2.43.0


From 4ae3d92366840578e4ed2ccdab7738007d86ee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:15 +0000
Subject: [PATCH 54/55] fix: geomodelgrids_info prints the extents of blocks
 with variable resolution

---
 libsrc/geomodelgrids/apps/Info.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index 895f500..d8fe8a8 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -298,9 +298,10 @@ geomodelgrids::apps::Info::_printValues(geomodelgrids::serial::Model* const mode
     const std::vector<std::string>& names = model->getValueNames();
     const std::vector<std::string>& units = model->getValueUnits();
     const size_t size = names.size();
-    assert(units.size() == size);
     for (size_t i = 0; i < size; ++i) {
-        std::cout << _Info::indent(2) << i << ": " << names[i] << " (" << units[i] << ")" << "\n";
+        // Metadata may be incomplete.
+        const std::string unit = (i < units.size()) ? units[i] : std::string("unknown");
+        std::cout << _Info::indent(2) << i << ": " << names[i] << " (" << unit << ")" << "\n";
     } // for
 
     switch (model->getDataLayout()) {
-- 
2.43.0


From d10c7c28dfa3171badf865a0638665a7e6bc8ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:02 +0000
Subject: [PATCH 55/55] fix: geomodelgrids_info prints 0 as extent of axes with
 variable resolution

The previous commit, with a message about extents, repairs geomodelgrids_info
--values on a model whose metadata lacks units of the values.
---
 libsrc/geomodelgrids/apps/Info.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index d8fe8a8..1f7e3b5 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -363,9 +363,9 @@ geomodelgrids::apps::Info::_printBlocks(geomodelgrids::serial::Model* const mode
         const size_t* dims = blocks[i]->getDims();
         std::cout << _Info::indent(3) << "Number of points: x=" << dims[0] << ", y=" << dims[1] << ", z=" << dims[2] << "\n";
 
-        const double dim_x = blocks[i]->getResolutionX() * (dims[0] - 1);
-        const double dim_y = blocks[i]->getResolutionY() * (dims[1] - 1);
-        const double dim_z = blocks[i]->getResolutionZ() * (dims[2] - 1);
+        const double dim_x = fabs(_Info::gridExtent(blocks[i]->getResolutionX(), blocks[i]->getCoordinatesX(), dims[0]));
+        const double dim_y = fabs(_Info::gridExtent(blocks[i]->getResolutionY(), blocks[i]->getCoordinatesY(), dims[1]));
+        const double dim_z = fabs(_Info::gridExtent(blocks[i]->getResolutionZ(), blocks[i]->getCoordinatesZ(), dims[2]));
         std::cout << _Info::indent(3) << "Dimensions: x=" << dim_x << ", y=" << dim_y << ", z=" << dim_z << "\n";
     } // for
 } // _printBlocks
-- 
2.43.0

