From 8b4846a3af761edcc3edf48529090c42fc7fec73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:33 +0000
Subject: [PATCH 01/22] fix: DownsampleAndReplace computed the row count of the
 sub-region from the number of columns

---
 core/downsample.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/downsample.cpp b/core/downsample.cpp
index b8c5fc5..b622f03 100644
--- a/core/downsample.cpp
+++ b/core/downsample.cpp
@@ -76,7 +76,7 @@ void DownsampleAndReplace( const double *oversampledImage, int nOversampCols,
   i1 = startY - 1 + nMainPSFRows;
   // get number of columns and rows in sub-region of main image
   nCols_subregion = (int)((nOversampCols - 2*nOversampPSFCols)/oversampleScale);
-  nRows_subregion = (int)((nOversampCols - 2*nOversampPSFRows)/oversampleScale);
+  nRows_subregion = (int)((nOversampRows - 2*nOversampPSFRows)/oversampleScale);
   oversampleArea = oversampleScale*oversampleScale;
 
   // iterate over sub-region within main image [i,j = indices for main image]
-- 
2.43.0


From 3a8f2e4e827098f061d74d6d9b3ae0ba678a3ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:33 +0000
Subject: [PATCH 02/22] fix: OversampledRegion left its PSF padding
 uninitialised when no PSF is added

---
 core/oversampled_region.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/oversampled_region.cpp b/core/oversampled_region.cpp
index 40e96a7..626ec62 100644
--- a/core/oversampled_region.cpp
+++ b/core/oversampled_region.cpp
@@ -105,6 +105,8 @@ OversampledRegion::OversampledRegion( )
   psfInterpolator = nullptr;
   psfInterpolator_allocated = false;
   ompChunkSize = DEFAULT_OPENMP_CHUNK_SIZE;
+  nPSFColumns = 0;   // no PSF (and thus no padding) until AddPSFVector is called
+  nPSFRows = 0;
   
   debugImageName = "oversampled_region_testoutput";
 #ifdef USE_LOGGING
-- 
2.43.0


From b784a97c34751e876b53807c05068d93025a9dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 03/22] fix: ModelObject constructor left function and
 parameter counters uninitialised

---
 core/model_object.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 3c022eb..8f27607 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -173,7 +173,11 @@ ModelObject::ModelObject( )
   maxRequestedThreads = 0;   // default value --> use all available processors/cores
   ompChunkSize = DEFAULT_OPENMP_CHUNK_SIZE;
   
-  nDataVals = nDataColumns = nDataRows = 0;
+  psfConvolver = nullptr;
+  zeroPoint = 0.0;
+  nGlobalFunctions = nPerImageParams = nPerImageFunctionSets = 0;
+
+  nDataVals = nValidDataVals = nDataColumns = nDataRows = 0;
   nModelVals = nModelColumns = nModelRows = 0;
   nPSFColumns = nPSFRows = 0;
 }
-- 
2.43.0


From 93bcc8d6fafb8526b1751ace031f8bd282d7388f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 04/22] fix: point sources kept the oversampling scale of the
 last oversampled region in later model images

---
 core/model_object.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 8f27607..1b682fc 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -1192,8 +1192,10 @@ void ModelObject::CreateModelImage( double params[] )
     // getting assigned alternate psfInterpolators), so we have to reset PointSource 
     // objects to use the standard-resolution psfInterpolator object held by ModelObject
     for (FunctionObject *funcObj : functionObjects)
-      if (funcObj->IsPointSource())
+      if (funcObj->IsPointSource()) {
         funcObj->AddPsfInterpolator(psfInterpolator);
+        funcObj->SetOversamplingScale(1);
+      }
     
 #pragma omp parallel private(i,j,n,x,y,newValSum,tempSum,adjVal,storedError)
     {
@@ -1281,8 +1283,10 @@ double * ModelObject::GetSingleFunctionImage( double params[], int functionIndex
   
   // If requested function is PointSource, re-assign the PsfInterpolator object
   // (see comments in CreateModelImage for why we need to do this)
-  if (functionObjects[functionIndex]->IsPointSource())
+  if (functionObjects[functionIndex]->IsPointSource()) {
     functionObjects[functionIndex]->AddPsfInterpolator(psfInterpolator);
+    functionObjects[functionIndex]->SetOversamplingScale(1);
+  }
 
   // 1. OK, populate modelVector with the model image -- standard pixel scaling
   // OpenMP Parallel section; see CreateModelImage() for general notes on this
-- 
2.43.0


From 805d6abafe43eabd1e94004378d3b55295967adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 05/22] fix: masked non-finite data pixels made the Poisson MLR
 statistic non-finite

---
 core/model_object.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 1b682fc..99e97ec 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -1017,10 +1017,6 @@ int ModelObject::FinalSetupForFitting( )
       return -1;
   }
   
-  // Generate extra terms vector from data for modified Cash statistic, if using latter
-  if ((useCashStatistic) && (poissonMLR))
-    GenerateExtraCashTerms();
-
   // If an external error map was supplied, identify currently unmasked *error* pixels 
   // which have non-finite values and add those pixels to the mask
   //   Possible sources of bad pixel values:
@@ -1068,6 +1064,11 @@ int ModelObject::FinalSetupForFitting( )
     }
   }
   
+  // Generate extra terms vector from data for modified Cash statistic, if using latter
+  // (after VetDataVector has replaced masked non-finite data values)
+  if ((useCashStatistic) && (poissonMLR))
+    GenerateExtraCashTerms();
+
 #ifdef DEBUG
   PrintInputImage();
   PrintMask();
-- 
2.43.0


From 2b1505bbf5b11e38295f14f5208bfcf8f01639b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 06/22] fix: Lanczos PSF interpolators read the transposed PSF
 image

---
 function_objects/psf_interpolators.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/function_objects/psf_interpolators.cpp b/function_objects/psf_interpolators.cpp
index ff60889..e1d3cdb 100644
--- a/function_objects/psf_interpolators.cpp
+++ b/function_objects/psf_interpolators.cpp
@@ -182,7 +182,7 @@ double PsfInterpolator_lanczos2::GetValue( double x, double y )
           else {
             y_dat = yArray[i_data_y];  // current y-value for PSF pixels
             lanczosScaling = Lanczos(x - x_dat, 2) * Lanczos(y - y_dat, 2);
-            newVal += lanczosScaling * psfDataArray[i_data_x*nColumns + i_data_y];
+            newVal += lanczosScaling * psfDataArray[i_data_y*nColumns + i_data_x];
           }
         }
       }
@@ -272,7 +272,7 @@ double PsfInterpolator_lanczos3::GetValue( double x, double y )
           else {
             y_dat = yArray[i_data_y];  // current y-value for PSF pixels
             lanczosScaling = Lanczos(x - x_dat, 3) * Lanczos(y - y_dat, 3);
-            newVal += lanczosScaling * psfDataArray[i_data_x*nColumns + i_data_y];
+            newVal += lanczosScaling * psfDataArray[i_data_y*nColumns + i_data_x];
           }
         }
       }
-- 
2.43.0


From 633b82fcd819680a660bddcb5c434eb8743cdc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 07/22] fix: bicubic PSF interpolator shared its GSL
 accelerators between OpenMP threads

---
 function_objects/psf_interpolators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/function_objects/psf_interpolators.cpp b/function_objects/psf_interpolators.cpp
index e1d3cdb..b62c5e5 100644
--- a/function_objects/psf_interpolators.cpp
+++ b/function_objects/psf_interpolators.cpp
@@ -97,7 +97,7 @@ double PsfInterpolator_bicubic::GetValue( double x, double y )
   if ((x < deltaXMin) || (x > deltaXMax) || (y < deltaYMin) || (y > deltaYMax))
     newVal = 0.0;
   else
-    newVal = gsl_spline2d_eval(splineInterp, x, y, xacc, yacc);
+    newVal = gsl_spline2d_eval(splineInterp, x, y, nullptr, nullptr);
   return newVal;
 }
 
-- 
2.43.0


From 7c9345f2cfb3bdbc0270027318beaedb31abe26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 08/22] fix: point sources in oversampled regions used the
 un-normalised PSF

---
 core/oversampled_region.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/oversampled_region.cpp b/core/oversampled_region.cpp
index 626ec62..a7f755c 100644
--- a/core/oversampled_region.cpp
+++ b/core/oversampled_region.cpp
@@ -180,10 +180,18 @@ void OversampledRegion::AddPSFVector( double *psfPixels, int nColumns_psf, int n
     doConvolution = true;
   }
   
-  // We assume PSF has been normalized by psfConvolver, if user requested that
   // Default case of GSL bicubic interpolation
   if ((nColumns_psf >= 4) && (nRows_psf >= 4)) {
-    psfInterpolator = new PsfInterpolator_bicubic(psfPixels, nColumns_psf, nRows_psf);
+    // (the convolver only normalizes its PSF later, so use a normalized copy here)
+    vector<double> interpPsf(psfPixels, psfPixels + (long)nColumns_psf * (long)nRows_psf);
+    if (normalizePSF) {
+      double  psfSum = 0.0;
+      for (double pixVal : interpPsf)
+        psfSum += pixVal;
+      for (double &pixVal : interpPsf)
+        pixVal = pixVal / psfSum;
+    }
+    psfInterpolator = new PsfInterpolator_bicubic(interpPsf.data(), nColumns_psf, nRows_psf);
     psfInterpolator_allocated = true;
     if (debugLevel > 0) {
       printf("  OversampledRegion::AddPSFVector -- generating new PsfInterpolator\n");
-- 
2.43.0


From 4552932e3cc0aced415bc16ee5dfd9baf45456fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 09/22] fix: FlatBar scaled its central intensity by the pixel
 scale instead of the intensity scale

---
 function_objects/func_flatbar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/function_objects/func_flatbar.cpp b/function_objects/func_flatbar.cpp
index 1166cb4..5a041fd 100644
--- a/function_objects/func_flatbar.cpp
+++ b/function_objects/func_flatbar.cpp
@@ -114,7 +114,7 @@ void FlatBar::Setup( double params[], int offsetIndex, double xc, double yc )
   PA = params[0 + offsetIndex] - imageRotation;
   ell = params[1 + offsetIndex];
   deltaPA_max = params[2 + offsetIndex];
-  I_0 = params[3 + offsetIndex ] * pixelScaling;
+  I_0 = params[3 + offsetIndex ] * intensityScale;
   h1 = params[4 + offsetIndex ] * pixelScaling;
   h2 = params[5 + offsetIndex ] * pixelScaling;
   r_b = params[6 + offsetIndex ] * pixelScaling;
-- 
2.43.0


From 532ea215d3411a80315c1c68dcad368848967d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:13 +0000
Subject: [PATCH 10/22] Revert "fix: point sources in oversampled regions used
 the un-normalised PSF"

This reverts commit 7c9345f2cfb3bdbc0270027318beaedb31abe26f.
---
 core/oversampled_region.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/core/oversampled_region.cpp b/core/oversampled_region.cpp
index a7f755c..626ec62 100644
--- a/core/oversampled_region.cpp
+++ b/core/oversampled_region.cpp
@@ -180,18 +180,10 @@ void OversampledRegion::AddPSFVector( double *psfPixels, int nColumns_psf, int n
     doConvolution = true;
   }
   
+  // We assume PSF has been normalized by psfConvolver, if user requested that
   // Default case of GSL bicubic interpolation
   if ((nColumns_psf >= 4) && (nRows_psf >= 4)) {
-    // (the convolver only normalizes its PSF later, so use a normalized copy here)
-    vector<double> interpPsf(psfPixels, psfPixels + (long)nColumns_psf * (long)nRows_psf);
-    if (normalizePSF) {
-      double  psfSum = 0.0;
-      for (double pixVal : interpPsf)
-        psfSum += pixVal;
-      for (double &pixVal : interpPsf)
-        pixVal = pixVal / psfSum;
-    }
-    psfInterpolator = new PsfInterpolator_bicubic(interpPsf.data(), nColumns_psf, nRows_psf);
+    psfInterpolator = new PsfInterpolator_bicubic(psfPixels, nColumns_psf, nRows_psf);
     psfInterpolator_allocated = true;
     if (debugLevel > 0) {
       printf("  OversampledRegion::AddPSFVector -- generating new PsfInterpolator\n");
-- 
2.43.0


From 7234e01833c9917b4603a163fdcb8164edf2e6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:19 +0000
Subject: [PATCH 11/22] fix: Cash/PMLR statistic used 1e-25 itself instead of
 log(1e-25) for non-positive model values

---
 core/model_object.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 99e97ec..fb7f29b 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -83,7 +83,7 @@ const int  DOUBLE_SIZE = 8;
 
 // very small value for Cash statistic calculations (replaces log(m) if m <= 0)
 // Based on http://cxc.harvard.edu/sherpa/ahelp/cstat.html
-#define LOG_SMALL_VALUE 1.0e-25
+#define LOG_SMALL_VALUE  -57.564627324851145   /* = log(1.0e-25); replaces log(m) if m <= 0 */
 
 // current best size for OpenMP processing (works well with Intel Core 2 Duo and
 // Core i7 in MacBook Pro, under Mac OS X 10.6 and 10.7)
-- 
2.43.0


From 6dbe14f1bccc6c69fe184cfb3fa62b0b176ab15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:54 +0000
Subject: [PATCH 12/22] fix: bootstrap summary statistics use only the
 successful iterations

The summaries were computed over all requested iterations, so rows left at zero
by failed fits entered the standard deviations and confidence intervals.
---
 core/bootstrap_errors.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index 008e70a..5e97c2e 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -132,10 +132,10 @@ int BootstrapErrors( const double *bestfitParams, vector<mp_par> parameterLimits
     // Calculate sigmas and 68% confidence intervals for the parameters
     // vector to hold estimated sigmas for each parameter
     if (multimfitMode)
-      PrintBootstrapSummaryMultimfit(bestfitParams, outputParamArray, nParams, nIterations, 
-    								parameterLimits, theModel);
+      PrintBootstrapSummaryMultimfit(bestfitParams, outputParamArray, nParams, 
+    								nSuccessfulIterations, parameterLimits, theModel);
     else
-      PrintBootstrapSummary(bestfitParams, outputParamArray, nParams, nIterations, 
+      PrintBootstrapSummary(bestfitParams, outputParamArray, nParams, nSuccessfulIterations, 
     						parameterLimits, theModel);
   }
 
-- 
2.43.0


From 3ca01324964dea730817f554349bf2ecbf066c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:54 +0000
Subject: [PATCH 13/22] fix: multi-image bootstrap summary indexed labels and
 parameters wrongly

Image-description labels were indexed with the global parameter number (reading
past the label table with three or more images), and the last image-description
parameter was printed again as the first model parameter.
---
 core/bootstrap_errors.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index 5e97c2e..3c2a72c 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -402,12 +402,12 @@ void PrintBootstrapSummaryMultimfit( const double *bestfitParams, double **outpu
         plus = upper - bestfitParams[i];
         minus = bestfitParams[i] - lower;
         halfwidth = (upper - lower)/2.0;
-        printf("%s = %g  +%g, -%g    [%g -- %g, %g];  (%g +/- %g)\n", imageParamLabels[i].c_str(),
+        printf("%s = %g  +%g, -%g    [%g -- %g, %g];  (%g +/- %g)\n", imageParamLabels[j].c_str(),
       	       	bestfitParams[i], plus, minus, lower, upper, halfwidth,
         		Mean(outputParamArray[i], nIterations), paramSigmas[i]);
       }
       else
-        printf("%s = %g     [fixed parameter]\n", imageParamLabels[i].c_str(),
+        printf("%s = %g     [fixed parameter]\n", imageParamLabels[j].c_str(),
         		bestfitParams[i]);
     }
   }
@@ -415,7 +415,7 @@ void PrintBootstrapSummaryMultimfit( const double *bestfitParams, double **outpu
   // now print results for model parameters
   i_last = i;
   printf("# Model parameters:\n");
-  for (i = i_last; i < nParams; i++) {
+  for (i = i_last + 1; i < nParams; i++) {
     if (parameterLimits[i].fixed == 0) {
       std::tie(lower, upper) = ConfidenceInterval(outputParamArray[i], nIterations);
       plus = upper - bestfitParams[i];
-- 
2.43.0


From 00af8ccd69ec313842929072392cf98b8281495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:21 +0000
Subject: [PATCH 14/22] fix: joint deviates of several images used full-image
 slots in bootstrap mode

---
 core/model_object_multimage.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index ea0147e..3631215 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -436,7 +436,11 @@ void ModelObjectMultImage::ComputeDeviates( double yResults[], double params[] )
 
     modelObjectsVect[i]->ComputeDeviates(yResults + startIndex, 
     									paramsForModelObjects[i]);
-    startIndex += modelObjectsVect[i]->GetNDataValues();
+    // in bootstrap mode, each image contributes one deviate per *valid* pixel
+    if (doBootstrap)
+      startIndex += modelObjectsVect[i]->GetNValidPixels();
+    else
+      startIndex += modelObjectsVect[i]->GetNDataValues();
   }
 }
 
@@ -729,6 +733,7 @@ int ModelObjectMultImage::UseBootstrap( )
   int  status = 0;
   int  cumulativeStatus = 0;
   
+  doBootstrap = true;
   for (int i = 0; i < nModelObjects; i++) {
     status = modelObjectsVect[i]->UseBootstrap();
     if (status < 0)
-- 
2.43.0


From 3a3bf9de8e10266555b481bfbb397fd6f11ef7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:21 +0000
Subject: [PATCH 15/22] fix: centres of further function sets were scaled by
 the image pixel scale in the wrong sense

---
 core/paramvector_processing.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/paramvector_processing.cpp b/core/paramvector_processing.cpp
index 90cb484..23680a2 100644
--- a/core/paramvector_processing.cpp
+++ b/core/paramvector_processing.cpp
@@ -96,9 +96,9 @@ std::tuple<double, double, int> CalculateOffset_X0Y0( double X0_0_ref, double Y0
   double deltaX_n_im = deltaX_n_ref*cosTheta + deltaY_n_ref*sinTheta;
   double deltaY_n_im = -deltaX_n_ref*sinTheta + deltaY_n_ref*cosTheta;
 
-  // transform scaled offsets to current image
-  double X0_out = X0_0_im + pixScale_im*deltaX_n_im;
-  double Y0_out = Y0_0_im + pixScale_im*deltaY_n_im;
+  // transform scaled offsets to current image (larger pixels = smaller offset in pixels)
+  double X0_out = X0_0_im + deltaX_n_im/pixScale_im;
+  double Y0_out = Y0_0_im + deltaY_n_im/pixScale_im;
   
   return std::make_tuple(X0_out, Y0_out, 0);
 }
-- 
2.43.0


From 8931dcd684a2edeca383c01a4a4c052fbff6dd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:56 +0000
Subject: [PATCH 16/22] fix: 3-D image functions shared the integrand's
 parameter pointer between threads

---
 function_objects/func_bpbar3d.cpp          | 6 ++++--
 function_objects/func_brokenexpdisk3d.cpp  | 6 ++++--
 function_objects/func_expdisk3d.cpp        | 6 ++++--
 function_objects/func_ferrersbar3d.cpp     | 6 ++++--
 function_objects/func_gaussianring3d.cpp   | 6 ++++--
 function_objects/func_peanut_dattathri.cpp | 6 ++++--
 function_objects/func_triaxbar3d.cpp       | 6 ++++--
 7 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/function_objects/func_bpbar3d.cpp b/function_objects/func_bpbar3d.cpp
index 2cd148c..ac2cae5 100644
--- a/function_objects/func_bpbar3d.cpp
+++ b/function_objects/func_bpbar3d.cpp
@@ -244,11 +244,13 @@ double BPBar3D::GetValue( double x, double y )
   xyParameters[17] = z_bp_max;
   xyParameters[18] = h_bp;
   xyParameters[19] = twosigma_squared;
-  F.params = xyParameters;
+  // (local copy, since GetValue is called by several threads at once)
+  gsl_function  integrand = F;
+  integrand.params = xyParameters;
 
   // printf("Calling Integrate...\n");
   // integrate out to +/- integLimit
-  totalIntensity = Integrate(F, -integrationLimit, integrationLimit);
+  totalIntensity = Integrate(integrand, -integrationLimit, integrationLimit);
   // printf("Done.\n");
 
   return totalIntensity;
diff --git a/function_objects/func_brokenexpdisk3d.cpp b/function_objects/func_brokenexpdisk3d.cpp
index 7a99cbf..8014cc4 100644
--- a/function_objects/func_brokenexpdisk3d.cpp
+++ b/function_objects/func_brokenexpdisk3d.cpp
@@ -201,7 +201,9 @@ double BrokenExponentialDisk3D::GetValue( double x, double y )
   xyParameters[13] = scaledZ0;
   xyParameters[14] = two_to_alpha;
   xyParameters[15] = alphaVert;
-  F.params = xyParameters;
+  // (local copy, since GetValue is called by several threads at once)
+  gsl_function  integrand = F;
+  integrand.params = xyParameters;
 
   // integrate out to +/- integLimit, which is larger of (multiple of break radius)
   // and (multiple of h2)
@@ -209,7 +211,7 @@ double BrokenExponentialDisk3D::GetValue( double x, double y )
   // Setup() call above; for some reason doing it that way makes the whole thing
   // take ~ 4 times longer!)
   integLimit = fmax(INTEGRATION_MULTIPLIER * r_b, INTEGRATION_MULTIPLIER * h2);
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(integrand, -integLimit, integLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_expdisk3d.cpp b/function_objects/func_expdisk3d.cpp
index 8cf2254..053d790 100644
--- a/function_objects/func_expdisk3d.cpp
+++ b/function_objects/func_expdisk3d.cpp
@@ -206,14 +206,16 @@ double ExponentialDisk3D::GetValue( double x, double y )
   xyParameters[8] = scaledZ0;
   xyParameters[9] = two_to_alpha;
   xyParameters[10] = alpha;
-  F.params = xyParameters;
+  // (local copy, since GetValue is called by several threads at once)
+  gsl_function  integrand = F;
+  integrand.params = xyParameters;
 
   // integrate out to +/- integLimit, which is multiple of exp. scale length
   // (NOTE: it seems like it would be faster to precalculate integLimit in the
   // Setup() call above; for some reason doing it that way makes the whole thing
   // take ~ 4 times longer!)
   integLimit = INTEGRATION_MULTIPLIER * h;
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(integrand, -integLimit, integLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_ferrersbar3d.cpp b/function_objects/func_ferrersbar3d.cpp
index a08dd69..235153b 100644
--- a/function_objects/func_ferrersbar3d.cpp
+++ b/function_objects/func_ferrersbar3d.cpp
@@ -201,14 +201,16 @@ double FerrersBar3D::GetValue( double x, double y )
   xyParameters[9] = b2;
   xyParameters[10] = c2;
   xyParameters[11] = n;
-  F.params = xyParameters;
+  // (local copy, since GetValue is called by several threads at once)
+  gsl_function  integrand = F;
+  integrand.params = xyParameters;
 
   // [] NOTE: ideally, we should compute the integration limits directly, given
   // the known orientation of the ellipsoid, as the inner and outer boundaries of
   // the ellipsoid along the current line of sight; this would be superior to our current
   // -number,+number integration...
   // integrate out to +/- integLimit
-  totalIntensity = Integrate(F, -integrationLimit, integrationLimit);
+  totalIntensity = Integrate(integrand, -integrationLimit, integrationLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_gaussianring3d.cpp b/function_objects/func_gaussianring3d.cpp
index 4385054..b09ff9a 100644
--- a/function_objects/func_gaussianring3d.cpp
+++ b/function_objects/func_gaussianring3d.cpp
@@ -199,11 +199,13 @@ double GaussianRing3D::GetValue( double x, double y )
   xyParameters[9] = a_ring;
   xyParameters[10] = h_z;
   xyParameters[11] = twosigma_squared;
-  F.params = xyParameters;
+  // (local copy, since GetValue is called by several threads at once)
+  gsl_function  integrand = F;
+  integrand.params = xyParameters;
 
   // integrate out to +/- integLimit, which is multiple of ring radius
   integLimit = INTEGRATION_MULTIPLIER * a_ring;
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(integrand, -integLimit, integLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_peanut_dattathri.cpp b/function_objects/func_peanut_dattathri.cpp
index dfbf22e..d0c5608 100644
--- a/function_objects/func_peanut_dattathri.cpp
+++ b/function_objects/func_peanut_dattathri.cpp
@@ -196,14 +196,16 @@ double DattathriPeanut3D::GetValue( double x, double y )
   xyParameters[13] = sinInc;
   xyParameters[14] = cosPsi;
   xyParameters[15] = sinPsi;
-  F.params = xyParameters;
+  // (local copy, since GetValue is called by several threads at once)
+  gsl_function  integrand = F;
+  integrand.params = xyParameters;
 
   // integrate out to +/- integLimit, which is multiple of exp. scale length
   // (NOTE: it seems like it would be faster to precalculate integLimit in the
   // Setup() call above; for some reason doing it that way makes the whole thing
   // take ~ 4 times longer!)
   integLimit = INTEGRATION_MULTIPLIER * R_bar_x;
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(integrand, -integLimit, integLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_triaxbar3d.cpp b/function_objects/func_triaxbar3d.cpp
index 3f06d1d..8afeaa4 100644
--- a/function_objects/func_triaxbar3d.cpp
+++ b/function_objects/func_triaxbar3d.cpp
@@ -164,7 +164,9 @@ double TriaxBar3D::GetValue( double x, double y )
   xyParameters[8] = q;
   xyParameters[9] = q_z;
   xyParameters[10] = twosigma_squared;
-  F.params = xyParameters;
+  // (local copy, since GetValue is called by several threads at once)
+  gsl_function  integrand = F;
+  integrand.params = xyParameters;
 
   // [] NOTE: ideally, we should compute the integration limits directly, given
   // the known orientation of the ellipsoid, as the inner and outer boundaries of
@@ -173,7 +175,7 @@ double TriaxBar3D::GetValue( double x, double y )
 
   // integrate out to +/- integLimit, which is multiple of Gaussian sigma^2
   integLimit = INTEGRATION_MULTIPLIER * twosigma_squared;
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(integrand, -integLimit, integLimit);
 
   return totalIntensity;
 }
-- 
2.43.0


From 4b8c9c022314093517ee12a616ff425f871cf872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:56 +0000
Subject: [PATCH 17/22] fix: TiltedSkyPlane left its slopes out of the adjusted
 parameter list

---
 function_objects/func_tilted-sky-plane.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/function_objects/func_tilted-sky-plane.cpp b/function_objects/func_tilted-sky-plane.cpp
index 9b59d81..388a817 100644
--- a/function_objects/func_tilted-sky-plane.cpp
+++ b/function_objects/func_tilted-sky-plane.cpp
@@ -76,7 +76,10 @@ void TiltedSkyPlane::AdjustParametersForImage( const double inputFunctionParams[
 {
   // I_0
   adjustedFunctionParams[0 + offsetIndex] = intensityScale * inputFunctionParams[0 + offsetIndex];
+  // m_x, m_y (passed on unchanged)
   // FIXME: figure out correct size rescaling via pixScaling for m_x and m_y (units of pixel^-1)
+  adjustedFunctionParams[1 + offsetIndex] = inputFunctionParams[1 + offsetIndex];
+  adjustedFunctionParams[2 + offsetIndex] = inputFunctionParams[2 + offsetIndex];
 }
 
 
-- 
2.43.0


From d0a38759f91646ffc75eb35029f8aa5848df3b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:22 +0000
Subject: [PATCH 18/22] fix: bootstrap summary printed section-relative
 best-fit centres next to offset-corrected intervals

---
 core/bootstrap_errors.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index 3c2a72c..4af5fe5 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -88,7 +88,7 @@ int BootstrapErrors( const double *bestfitParams, vector<mp_par> parameterLimits
 					const int nIterations, const int nFreeParams, const int whichStatistic, 
 					FILE *outputFile_ptr, unsigned long rngSeed, bool multimfitMode )
 {
-  double  *paramSigmas;
+  double  *paramOffsets, *bestfitParams_offsetCorrected;
   double **outputParamArray;
 //   double  lower, upper, plus, minus, halfwidth;
   int  i, nSuccessfulIterations;
@@ -104,8 +104,8 @@ int BootstrapErrors( const double *bestfitParams, vector<mp_par> parameterLimits
   for (i = 0; i < nParams; i++)
     outputParamArray[i] = (double *)calloc( (size_t)nIterations, sizeof(double) );
 
-//   paramOffsets = (double *) calloc(nParams, sizeof(double));
-//   bestfitParams_offsetCorrected = (double *) calloc(nParams, sizeof(double));
+  paramOffsets = (double *) calloc(nParams, sizeof(double));
+  bestfitParams_offsetCorrected = (double *) calloc(nParams, sizeof(double));
   
   // write column header info to file, if user requested saving to file
   if (outputFile_ptr != nullptr) {
@@ -125,25 +125,25 @@ int BootstrapErrors( const double *bestfitParams, vector<mp_par> parameterLimits
   else {
     // Apply image-offset corrections to best-fit parameters, so their values
     // get printed corrected
-//     theModel->GetImageOffsets(paramOffsets);
-//     for (i = 0; i < nParams; i++)
-//       bestfitParams_offsetCorrected[i] = bestfitParams[i] + paramOffsets[i];
+    theModel->GetImageOffsets(paramOffsets);
+    for (i = 0; i < nParams; i++)
+      bestfitParams_offsetCorrected[i] = bestfitParams[i] + paramOffsets[i];
     
     // Calculate sigmas and 68% confidence intervals for the parameters
     // vector to hold estimated sigmas for each parameter
     if (multimfitMode)
-      PrintBootstrapSummaryMultimfit(bestfitParams, outputParamArray, nParams, 
+      PrintBootstrapSummaryMultimfit(bestfitParams_offsetCorrected, outputParamArray, nParams, 
     								nSuccessfulIterations, parameterLimits, theModel);
     else
-      PrintBootstrapSummary(bestfitParams, outputParamArray, nParams, nSuccessfulIterations, 
+      PrintBootstrapSummary(bestfitParams_offsetCorrected, outputParamArray, nParams, nSuccessfulIterations, 
     						parameterLimits, theModel);
   }
 
   for (i = 0; i < nParams; i++)
     free(outputParamArray[i]);
   free(outputParamArray);
-//   free(paramOffsets);
-//   free(bestfitParams_offsetCorrected);
+  free(paramOffsets);
+  free(bestfitParams_offsetCorrected);
 
   return nSuccessfulIterations;
 }
-- 
2.43.0


From 0485a6756f267b267f2dea9ebeac79ecac24431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:48 +0000
Subject: [PATCH 19/22] fix: multi-image parameter strings mixed
 section-relative centres with corrected ones

---
 core/model_object.h             |  2 +-
 core/model_object_multimage.cpp | 54 ++++++++++++++++++++++++++++-----
 core/model_object_multimage.h   |  2 ++
 3 files changed, 50 insertions(+), 8 deletions(-)

diff --git a/core/model_object.h b/core/model_object.h
index 7b81eac..9c9840a 100644
--- a/core/model_object.h
+++ b/core/model_object.h
@@ -167,7 +167,7 @@ class ModelObject
 
     void GetFunctionLabels( vector<string>& functionLabels );
 
-    void  GetImageOffsets( double params[] );
+    virtual void  GetImageOffsets( double params[] );
     
     virtual string GetParamHeader( );
 
diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index 3631215..787bded 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -651,20 +651,30 @@ string ModelObjectMultImage::PrintModelParamsHorizontalString( const double para
 																const string& separator )
 {
   double  x0, y0, paramVal;
-  int  image1Offset_x0, image1Offset_y0;
+  int  image1Offset_x0, image1Offset_y0, offsetX0, offsetY0;
   int  nParamsThisFunc, k, indexOffset, nImageParams;
   string  outputString = "";
+  string  nextSeparator = "";   // line should start with parameter value (no initial separator)
 
   // pixel offsets for reference image
   std::tie(image1Offset_x0, image1Offset_y0) = modelObjectsVect[0]->GetImageOffsets();
   // number of image-description parameters
   nImageParams = (nModelObjects - 1)*N_IMAGE_PARAMS;
   
-  // Line should start with parameter value (no initial separator)
-  outputString = PrintToString("%#.10g", params[0]);
-  // now we precede each subsequent parameter value with separator
-  for (int i = 1; i < nImageParams; i++)
-    outputString += PrintToString("%s%#.10g", separator.c_str(), params[i]);
+  // Image-description parameters for 2nd and subsequent images, with X0,Y0 (the last 
+  // two for each image) corrected for that image's offsets
+  for (int n = 1; n < nModelObjects; n++) {
+    std::tie(offsetX0, offsetY0) = modelObjectsVect[n]->GetImageOffsets();
+    for (int i = 0; i < N_IMAGE_PARAMS; i++) {
+      paramVal = params[(n - 1)*N_IMAGE_PARAMS + i];
+      if (i == N_IMAGE_PARAMS - 2)
+        paramVal += offsetX0;
+      else if (i == N_IMAGE_PARAMS - 1)
+        paramVal += offsetY0;
+      outputString += PrintToString("%s%#.10g", nextSeparator.c_str(), paramVal);
+      nextSeparator = separator;
+    }
+  }
 
   indexOffset = nImageParams;
   for (int n = 0; n < nFunctions; n++) {
@@ -673,7 +683,8 @@ string ModelObjectMultImage::PrintModelParamsHorizontalString( const double para
       k = indexOffset;
       x0 = params[k] + image1Offset_x0;
       y0 = params[k + 1] + image1Offset_y0;
-      outputString += PrintToString("%s%#.10g%s%#.10g", separator.c_str(), x0, separator.c_str(), y0);
+      outputString += PrintToString("%s%#.10g%s%#.10g", nextSeparator.c_str(), x0, separator.c_str(), y0);
+      nextSeparator = separator;
       indexOffset += 2;
     }
 
@@ -690,6 +701,35 @@ string ModelObjectMultImage::PrintModelParamsHorizontalString( const double para
 }
 
 
+/* ---------------- PUBLIC METHOD: GetImageOffsets --------------------- */
+/// Given an input array (all zeros) with the length of the full parameter vector, this 
+/// sets the locations corresponding to X0,Y0 values to the offsets of the image they 
+/// refer to: each extra image's own offsets for its image-description parameters, the
+/// reference image's offsets for the function sets.
+void ModelObjectMultImage::GetImageOffsets( double params[] )
+{
+  int  offsetX0, offsetY0;
+  int  indexOffset = 0;
+
+  for (int n = 1; n < nModelObjects; n++) {
+    std::tie(offsetX0, offsetY0) = modelObjectsVect[n]->GetImageOffsets();
+    params[n*N_IMAGE_PARAMS - 2] = offsetX0;
+    params[n*N_IMAGE_PARAMS - 1] = offsetY0;
+  }
+
+  indexOffset = (nModelObjects - 1)*N_IMAGE_PARAMS;
+  std::tie(offsetX0, offsetY0) = modelObjectsVect[0]->GetImageOffsets();
+  for (int n = 0; n < nFunctions; n++) {
+    if (fsetStartFlags[n] == true) {
+      params[indexOffset] = offsetX0;
+      params[indexOffset + 1] = offsetY0;
+      indexOffset += 2;
+    }
+    indexOffset += paramSizes[n];
+  }
+}
+
+
 // FIXME: Update this to generate base model + image params headers
 // i = 0 up to (nModelObjects - 1)*N_IMAGE_PARAMS ==> image parameters
 // i = (nModelObjects - 1)*N_IMAGE_PARAMS up to nParamsTot ==> model parameters
diff --git a/core/model_object_multimage.h b/core/model_object_multimage.h
index 19de69c..7c9da3a 100644
--- a/core/model_object_multimage.h
+++ b/core/model_object_multimage.h
@@ -99,6 +99,8 @@ class ModelObjectMultImage : public ModelObject
     string PrintModelParamsHorizontalString( const double params[], 
     											const string& separator="\t" ) override;
 
+    void GetImageOffsets( double params[] ) override;
+
     string GetParamHeader( ) override;
 
 
-- 
2.43.0


From 8f9c1c0eaa686f9d5f1d12c3951a295fd3a692bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:48 +0000
Subject: [PATCH 20/22] fix: saved image-info file held section-relative object
 centres

---
 core/print_results_multi.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/print_results_multi.cpp b/core/print_results_multi.cpp
index 2ca775f..087e598 100644
--- a/core/print_results_multi.cpp
+++ b/core/print_results_multi.cpp
@@ -127,6 +127,13 @@ void SaveImageInfoParameters( double *params, ModelObjectMultImage *multModel,
     // parameters in units of N_IMAGE_PARAMS; first set of params is for *second*
     // image (i = 1)
     int  offset = (i - 1)*N_IMAGE_PARAMS;
+    if (i > 0) {
+      // correct X0,Y0 (the last two parameters) for image-section-based offsets
+      int  offsetX0, offsetY0;
+      std::tie(offsetX0, offsetY0) = multModel->GetOffsetsForImage(i);
+      imageDescriptionParams[offset + 3] += offsetX0;
+      imageDescriptionParams[offset + 4] += offsetY0;
+    }
     PrintSingleImageInfoToStrings(imageInfoVect[i], stringsForFile, isReferenceImage,
     							imageDescriptionParams, offset, imageDescriptionParams_errs);
   }
-- 
2.43.0


From 57d1aa7893f5565f0f435d9c37a58bc8537b7123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:54 +0000
Subject: [PATCH 21/22] fix: PointSourceRot dropped lanczos3, un-normalised
 method names and its extra parameters

---
 function_objects/func_pointsource-rot.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/function_objects/func_pointsource-rot.cpp b/function_objects/func_pointsource-rot.cpp
index 4ab7646..3926738 100644
--- a/function_objects/func_pointsource-rot.cpp
+++ b/function_objects/func_pointsource-rot.cpp
@@ -167,6 +167,10 @@ int PointSourceRot::SetExtraParams( map<string,string>& inputMap )
         interpolationType = "lanczos2";
         break;
       }
+      if ((iter->second == "lanczos3") || (iter->second == "Lanczos3")) {
+        interpolationType = "lanczos3";
+        break;
+      }
       fprintf(stderr, "ERROR: unidentified interpolation type in PointSourceRot::SetExtraParams!\n");
       fprintf(stderr, "(\"%s\" is not a recognized interpolation type)\n",
       			iter->second.c_str());
@@ -178,8 +182,9 @@ int PointSourceRot::SetExtraParams( map<string,string>& inputMap )
       return 0;
     }
   }
-  interpolationType = iter->second;
   extraParamsSet = true;
+  inputExtraParams = inputMap;
+
   printf("   PointSourceRot::SetExtraParams -- setting method = %s\n", 
        		interpolationType.c_str());
   return 1;
-- 
2.43.0


From 578ad26136179f55b92df58087240557496acbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:52 +0000
Subject: [PATCH 22/22] fix: NCOMBINED in saved image-info files was printed
 with a floating-point format

The integer was passed for %g, so an unrelated floating-point register was
written instead of the number of combined exposures.
---
 core/print_results_multi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/print_results_multi.cpp b/core/print_results_multi.cpp
index 087e598..77f9feb 100644
--- a/core/print_results_multi.cpp
+++ b/core/print_results_multi.cpp
@@ -175,7 +175,7 @@ void PrintSingleImageInfoToStrings( const ImageInfo& imInfo, vector<string>& str
   if (imInfo.readNoise != 0.0)
     strings.push_back(PrintToString("READNOISE\t\t%g\n", imInfo.readNoise));
   if (imInfo.nCombined != 1)
-    strings.push_back(PrintToString("NCOMBINED\t\t%g\n", imInfo.nCombined));
+    strings.push_back(PrintToString("NCOMBINED\t\t%d\n", imInfo.nCombined));
   // mask, error, and PSF images
   if (imInfo.maskImage_present)
     strings.push_back(PrintToString("MASK    %s\n", imInfo.maskImageFileName.c_str()));
-- 
2.43.0

