From 5b7b14d184b2cc7b6a4a9b7e4aadb13322e6ec98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 01/34] fix: measureThreshold leaked its work array when the
 threshold was found

---
 parallel.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parallel.cc b/parallel.cc
index 344364d..6a1deb5 100644
--- a/parallel.cc
+++ b/parallel.cc
@@ -53,9 +53,10 @@ size_t measureThreshold(size_t threads)
       Complex *A=ComplexAlign(m);
       if(!A)
         break;
-      if(parallelLoop(A,m,threads) < parallelLoop(A,m,1))
-        return m;
+      bool faster=parallelLoop(A,m,threads) < parallelLoop(A,m,1);
       deleteAlign(A);
+      if(faster)
+        return m;
     }
   }
   return maxThreshold;
-- 
2.43.0


From d2dcf5bd93340573152acd49ceb72d8c378d72fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 02/34] fix: fftPad::init leaked its outer planning arrays when
 q > 1

---
 convolve.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/convolve.cc b/convolve.cc
index b0a77a9..6d3660a 100644
--- a/convolve.cc
+++ b/convolve.cc
@@ -499,10 +499,10 @@ void fftPad::init()
   char const *FR;
   char const *BR;
 
-  Complex *G=ComplexAlign(Sm);
-  Complex *H=inplace ? G : ComplexAlign(Sm);
-
   if(q == 1) {
+    Complex *G=ComplexAlign(Sm);
+    Complex *H=inplace ? G : ComplexAlign(Sm);
+
     if(S == 1) {
       Forward=&fftBase::forwardExplicit;
       Backward=&fftBase::backwardExplicit;
-- 
2.43.0


From 1415d9f75b0976721916bd91d68f756cd5f3f798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 03/34] fix: ~fftPadReal leaked the roots of unity Zetaqp0 when
 p > 2

---
 convolve.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/convolve.cc b/convolve.cc
index 6d3660a..ff2038c 100644
--- a/convolve.cc
+++ b/convolve.cc
@@ -5802,6 +5802,7 @@ fftPadReal::~fftPadReal()
         delete fftmr0;
         delete ifftmr0;
       }
+      deleteAlign(Zetaqp0);
       delete rcfftp;
       delete crfftp;
       if(n > 2) {
-- 
2.43.0


From 1740a3a93134721a3dab81871b2715691a4d9ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 04/34] fix: Convolution, Convolution2 and Convolution3
 discarded a user-supplied work array W

---
 convolve.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/convolve.h b/convolve.h
index a1fa76a..fbd082b 100644
--- a/convolve.h
+++ b/convolve.h
@@ -1019,7 +1019,10 @@ public:
     this->F=allocateF ? utils::ComplexAlign(N,outputSize) : F;
 
     allocateW=!W && !fft->inplace;
-    W=allocateW ? utils::ComplexAlign(workSizeW) : NULL;
+    if(allocateW)
+      W=utils::ComplexAlign(workSizeW);
+    else if(fft->inplace)
+      W=NULL;
 
     if(q > 1) {
       allocateV=false;
@@ -1305,7 +1308,10 @@ public:
     this->F=allocateF ? utils::ComplexAlign(N,outputSize) : F;
 
     allocateW=!W && !fftx->inplace;
-    W=allocateW ? utils::ComplexAlign(workSizeW) : NULL;
+    if(allocateW)
+      W=utils::ComplexAlign(workSizeW);
+    else if(fftx->inplace)
+      W=NULL;
 
     qx=fftx->q;
     nx=fftx->n;
@@ -1593,7 +1599,10 @@ public:
     this->F=allocateF ? utils::ComplexAlign(N,outputSize) : F;
 
     allocateW=!W && !fftx->inplace;
-    W=allocateW ? utils::ComplexAlign(workSizeW) : NULL;
+    if(allocateW)
+      W=utils::ComplexAlign(workSizeW);
+    else if(fftx->inplace)
+      W=NULL;
 
     qx=fftx->q;
     nx=fftx->n;
-- 
2.43.0


From 9aba8e584e0867e7cc166b8f8197c2a71782cd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 05/34] fix: fftwblock::init leaked the multithreaded FFTW plan
 when its own threading was recalled

---
 fftw++.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fftw++.h b/fftw++.h
index 6c2d5bf..aa34267 100644
--- a/fftw++.h
+++ b/fftw++.h
@@ -627,6 +627,7 @@ public:
           plan1=plan;
           if(data == T) {
             plan=NULL;
+            fftw_destroy_plan(planFFTW);
             return;
           }
           plan=planFFTW;
-- 
2.43.0


From 0eab3ea62b4bcc445c85f7337a01810c8ad703af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 06/34] fix: fftwblock::Plan leaked plan2 when the planner was
 called again

---
 fftw++.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fftw++.h b/fftw++.h
index aa34267..3b644bd 100644
--- a/fftw++.h
+++ b/fftw++.h
@@ -713,6 +713,7 @@ public:
 
   fftw_plan Plan(Complex *in, Complex *out) {
     if(R > 0) {
+      if(plan2) fftw_destroy_plan(plan2);
       plan2=Plan(Q+1,(I *) in,(O *) out);
       if(!plan2) return NULL;
     }
-- 
2.43.0


From a3e6ba2c507bafbdab41bc0700ab16b57171a0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:24 +0000
Subject: [PATCH 07/34] fix: Convolution2MPI and Convolution3MPI leaked the
 output buffer F they allocate

---
 mpi/mpiconvolve.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpi/mpiconvolve.h b/mpi/mpiconvolve.h
index 0b04d7a..dbd1581 100644
--- a/mpi/mpiconvolve.h
+++ b/mpi/mpiconvolve.h
@@ -100,6 +100,7 @@ public:
                   Complex **F=NULL, Complex *W=NULL, Complex *V=NULL) :
     Convolution2(fftx,ffty,F ? F : AllocateF(fftx,ffty,communicator),W,V),
     d(outputSplit(fftx,ffty,communicator)) {
+    allocateF=!F;
     inittranspose(mpi);
   }
 
@@ -114,7 +115,6 @@ public:
 
   Complex **AllocateF(fftBase *fftx, fftBase *ffty,
                       const MPI_Comm &communicator) {
-    allocateF=true;
     return outputBuffer(fftx,ffty,communicator);
   }
 
@@ -218,6 +218,7 @@ public:
     Convolution3(fftx,ffty,fftz,F ? F : AllocateF(fftx,ffty,fftz,group),
                  W,V,true),
     d(outputSplit(fftx,ffty,fftz,group)) {
+    allocateF=!F;
     initMPI(mpi,threads);
   }
 
@@ -232,7 +233,6 @@ public:
 
   Complex **AllocateF(fftBase *fftx, fftBase *ffty, fftBase *fftz,
                       const utils::MPIgroup &group) {
-    allocateF=true;
     return outputBuffer(fftx,ffty,fftz,group);
   }
 
-- 
2.43.0


From 8bd40158fb9b120a3a7b99d2afcbd0b08da6f4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 08/34] fix: mpitranspose::time leaked a stopWatch per
 iteration

---
 mpi/mpitranspose.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpi/mpitranspose.h b/mpi/mpitranspose.h
index 3158f84..d264c97 100644
--- a/mpi/mpitranspose.h
+++ b/mpi/mpitranspose.h
@@ -424,6 +424,7 @@ public:
       localize0(data);
       if(rank == 0) {
         double t=S->seconds();
+        delete S;
         sum += t;
         end=sum > testseconds;
       }
-- 
2.43.0


From d7f5138d12ab1731ef923781bcc4048888dc8b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:31 +0000
Subject: [PATCH 09/34] fix: mpitranspose never freed the communicators it
 splits off

---
 mpi/mpitranspose.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mpi/mpitranspose.h b/mpi/mpitranspose.h
index d264c97..6368534 100644
--- a/mpi/mpitranspose.h
+++ b/mpi/mpitranspose.h
@@ -545,10 +545,11 @@ public:
       delete [] request;
     }
 
-    if(a > 1) {
+    if(a > 1 || !uniform) {
       int final;
       MPI_Finalized(&final);
-      if(!final) {
+      if(!final && !uniform) MPI_Comm_free(&splitv);
+      if(!final && a > 1) {
         if(rank < a*b) {
           MPI_Comm_free(&split2);
           MPI_Comm_free(&split);
@@ -565,6 +566,11 @@ public:
 
   ~mpitranspose() {
     deallocate();
+    if(size > 1) {
+      int final;
+      MPI_Finalized(&final);
+      if(!final) MPI_Comm_free(&communicator);
+    }
   }
 
   int ni(int P) {return P < nlast ? n0 : (P == nlast ? np : 0);}
-- 
2.43.0


From 119d6e9cb1462e4a7d0da07851758dbc2673efbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:08 +0000
Subject: [PATCH 10/34] fix: mpitranspose::time could loop forever on processes
 outside the communicator

---
 mpi/mpitranspose.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpi/mpitranspose.h b/mpi/mpitranspose.h
index 6368534..703e724 100644
--- a/mpi/mpitranspose.h
+++ b/mpi/mpitranspose.h
@@ -418,7 +418,7 @@ public:
     localize0(data); // Initialize communication buffers
 
     for(;;++N) {
-      int end;
+      int end=1; // Processes outside of communicator do not iterate
       utils::stopWatch *S=NULL;
       if(rank == 0) S=new stopWatch;
       localize0(data);
-- 
2.43.0


From a7b41a4ded5d2348cd0856de2d981810ecc85818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:48 +0000
Subject: [PATCH 11/34] fix: default-constructed split3 deleted an
 uninitialized pointer

---
 mpi/mpigroup.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpi/mpigroup.h b/mpi/mpigroup.h
index 880e819..1829f96 100644
--- a/mpi/mpigroup.h
+++ b/mpi/mpigroup.h
@@ -120,7 +120,7 @@ public:
   MPI_Comm communicator;
   MPI_Comm *XYplane;          // Used by HermitianSymmetrizeXYMPI
   int *reflect;               // Used by HermitianSymmetrizeXYMPI
-  split3() {}
+  split3() : XYplane(NULL) {}
   void init(const MPIgroup& group, bool xy) {
     this->xy=split(X,Y,group.communicator);
     yz=split(Y2,Z,group.communicator2);
-- 
2.43.0


From bd612249f3d01a32735d1d954cbc13f7d47281da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:48 +0000
Subject: [PATCH 12/34] fix: Convolution2MPI and Convolution3MPI depended on an
 application-defined global C

---
 mpi/mpiconvolve.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpi/mpiconvolve.h b/mpi/mpiconvolve.h
index dbd1581..e4c912b 100644
--- a/mpi/mpiconvolve.h
+++ b/mpi/mpiconvolve.h
@@ -122,7 +122,7 @@ public:
                size_t start, size_t stop,
                size_t offset=0) {
     size_t incr=Sx*lx;
-    size_t cutoff=overlap && rx != 0 ? ((B-C)/C+1)*C : 0;
+    size_t cutoff=overlap && rx != 0 ? B-B%(A-B) : 0;
     for(size_t a=start; a < stop; ++a) {
       (fftx->*Forward)(f[a]+offset,F[a],rx,W);
       if(T) {
@@ -240,7 +240,7 @@ public:
                size_t start, size_t stop,
                size_t offset=0) {
     size_t incr=Sx*lx;
-    size_t cutoff=overlap && rx != 0 ? ((B-C)/C+1)*C : 0;
+    size_t cutoff=overlap && rx != 0 ? B-B%(A-B) : 0;
     for(size_t a=start; a < stop; ++a) {
       (fftx->*Forward)(f[a]+offset,F[a],rx,W);
       if(T) {
-- 
2.43.0


From 727665365a63a194ad49b7de59965080c6aeecd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:04 +0000
Subject: [PATCH 13/34] fix: copies of a split3 deleted the same table and its
 communicator was never freed

---
 mpi/mpigroup.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mpi/mpigroup.h b/mpi/mpigroup.h
index 1829f96..a39c934 100644
--- a/mpi/mpigroup.h
+++ b/mpi/mpigroup.h
@@ -151,8 +151,20 @@ public:
     init(group,xy);
   }
 
+  // XYplane and reflect belong to the object that created them.
+  split3(const split3& d) {
+    *this=d;
+    XYplane=NULL;
+  }
+
   ~split3() {
-    if(XYplane && z0 == 0) delete [] reflect;
+    if(XYplane) {
+      if(z0 == 0) delete [] reflect;
+      int final;
+      MPI_Finalized(&final);
+      if(!final) MPI_Comm_free(XYplane);
+      delete XYplane;
+    }
   }
 
   void show() {
-- 
2.43.0


From e1e5c3d4d8dbaf11fcbda542d0e4b4000af97fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:05 +0000
Subject: [PATCH 14/34] fix: arg of a negative real number is pi, not 0
 (pow(Complex(-2,0),3) returned 8)

---
 Complex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Complex.h b/Complex.h
index d93138c..60bc5b4 100644
--- a/Complex.h
+++ b/Complex.h
@@ -245,7 +245,7 @@ inline double abs(const Complex& x)
 
 inline double arg(const Complex& x)
 {
-  return x.im != 0.0 ? atan2(x.im, x.re) : 0.0;
+  return atan2(x.im, x.re);
 }
 
 // Return the principal branch of the square root (non-negative real part).
-- 
2.43.0


From 43ffdee2e17b30cb93bab73c4dc934ecd3173cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:43 +0000
Subject: [PATCH 15/34] fix: the C and Fortran interfaces declared functions
 that the library does not define

---
 wrappers/cfftw++.h  | 126 +-------------------------------------------
 wrappers/fftwpp.f90 |   9 ----
 2 files changed, 2 insertions(+), 133 deletions(-)

diff --git a/wrappers/cfftw++.h b/wrappers/cfftw++.h
index c07e1eb..c75c7e3 100644
--- a/wrappers/cfftw++.h
+++ b/wrappers/cfftw++.h
@@ -15,8 +15,8 @@ namespace fftwpp { extern "C" {
 #endif
 
 // wrappers for allocating aligned memory arrays
-  double *create_doublealign(size_t n);
-  void delete_complexAlign(double __complex__ * p);
+  double *create_doubleAlign(size_t n);
+  void delete_doubleAlign(double * p);
   double __complex__  *create_complexAlign(size_t n);
   void delete_complexAlign(double __complex__ * p);
 
@@ -27,167 +27,45 @@ namespace fftwpp { extern "C" {
 // 1d complex non-centered convolution
   typedef struct HybridConvolution HybridConvolution;
   HybridConvolution *fftwpp_create_conv1d(size_t nx);
-  HybridConvolution *fftwpp_create_conv1d_dot(size_t m,
-                                              size_t M);
-  HybridConvolution *fftwpp_create_conv1d_work(size_t m,
-                                               double __complex__ *u,
-                                               double __complex__ *v);
-  HybridConvolution *fftwpp_create_conv1d_work_dot(size_t m,
-                                                   double __complex__ *u,
-                                                   double __complex__ *v,
-                                                   size_t M);
   void fftwpp_conv1d_convolve(HybridConvolution *conv,
                               double __complex__ *a, double __complex__  *b);
-
-  void fftwpp_conv1d_convolve_dot(HybridConvolution *conv,
-                                  double __complex__ **a,
-                                  double __complex__ **b);
-  void fftwpp_conv1d_convolve_dotf(HybridConvolution *conv,
-                                   double __complex__ *a,
-                                   double __complex__ *b);
   void fftwpp_conv1d_delete(HybridConvolution *conv);
 
 // 1d Hermitian-symmetric entered convolution/
   typedef struct HybridConvolutionHermitian HybridConvolutionHermitian;
   HybridConvolutionHermitian *fftwpp_create_hconv1d(size_t m);
-  HybridConvolutionHermitian *fftwpp_create_hconv1d_dot(size_t m,
-                                                        size_t M);
-  HybridConvolutionHermitian *fftwpp_create_hconv1d_work(size_t m,
-                                                         double __complex__ *u,
-                                                         double __complex__ *v,
-                                                         double __complex__ *w);
-  HybridConvolutionHermitian *fftwpp_create_hconv1d_work_dot(size_t m,
-                                                             double __complex__ *u,
-                                                             double __complex__ *v,
-                                                             double __complex__ *w,
-                                                             size_t M);
   void fftwpp_hconv1d_convolve(HybridConvolutionHermitian *conv,
                                double __complex__ *a, double __complex__  *b);
-  void fftwpp_hconv1d_convolve_dot(HybridConvolutionHermitian *conv,
-                                   double __complex__ **a,
-                                   double __complex__ **b);
-  void fftwpp_hconv1d_convolve_dotf(HybridConvolutionHermitian *conv,
-                                    double __complex__ *a,
-                                    double __complex__ *b);
   void fftwpp_hconv1d_delete(HybridConvolutionHermitian *conv);
 
 // 2d complex non-centered convolution
   typedef struct HybridConvolution2 HybridConvolution2;
   HybridConvolution2 *fftwpp_create_conv2d(size_t mx, size_t my);
-  HybridConvolution2 *fftwpp_create_conv2d_dot(size_t mx, size_t my,
-                                               size_t M);
-  HybridConvolution2 *fftwpp_create_conv2d_work(size_t mx,
-                                                size_t my,
-                                                double __complex__ *u1,
-                                                double __complex__ *v1,
-                                                double __complex__ *u2,
-                                                double __complex__ *v2);
-  HybridConvolution2 *fftwpp_create_conv2d_work_dot(size_t mx,
-                                                    size_t my,
-                                                    double __complex__ *u1,
-                                                    double __complex__ *v1,
-                                                    double __complex__ *u2,
-                                                    double __complex__ *v2,
-                                                    size_t M);
-
   void fftwpp_conv2d_convolve(HybridConvolution2 *conv,
                               double __complex__ *a, double __complex__ *b);
-  void fftwpp_conv2d_convolve_dot(HybridConvolution2 *conv,
-                                  double __complex__ **a, double __complex__ **b);
-  void fftwpp_conv2d_convolve_dotf(HybridConvolution2 *conv,
-                                   double __complex__ *a, double __complex__ *b);
   void fftwpp_conv2d_delete(HybridConvolution2   *conv);
 
   // 2d Hermitian-symmetric centered convolution
   typedef struct HybridConvolutionHermitian2 HybridConvolutionHermitian2;
   HybridConvolutionHermitian2 *fftwpp_create_hconv2d(size_t mx, size_t my);
-  HybridConvolutionHermitian2 *fftwpp_create_hconv2d_dot(size_t mx,
-                                                         size_t my,
-                                                         size_t M);
-  HybridConvolutionHermitian2 *fftwpp_create_hconv2d_work(size_t mx,
-                                                          size_t my,
-                                                          double __complex__ *u1,
-                                                          double __complex__ *v1,
-                                                          double __complex__ *w1,
-                                                          double __complex__ *u2,
-                                                          double __complex__ *v2);
-  HybridConvolutionHermitian2 *fftwpp_create_hconv2d_work_dot(size_t mx,
-                                                              size_t my,
-                                                              double __complex__ *u1,
-                                                              double __complex__ *v1,
-                                                              double __complex__ *w1,
-                                                              double __complex__ *u2,
-                                                              double __complex__ *v2,
-                                                              size_t M);
   void fftwpp_hconv2d_convolve(HybridConvolutionHermitian2 *conv,
                                double __complex__ *a, double __complex__ *b);
-  void fftwpp_hconv2d_convolve_dot(HybridConvolutionHermitian2 *conv,
-                                   double __complex__ **a,
-                                   double __complex__ **b);
-  void fftwpp_hconv2d_convolve_dotf(HybridConvolutionHermitian2 *conv,
-                                    double __complex__ *a,
-                                    double __complex__ *b);
   void fftwpp_hconv2d_delete(HybridConvolutionHermitian2 *conv);
 
 // 3d complex non-centered convolution
   typedef struct HybridConvolution3 HybridConvolution3;
   HybridConvolution3 *fftwpp_create_conv3d(size_t mx, size_t my,
                                            size_t mz);
-  HybridConvolution3 *fftwpp_create_conv3d_work(size_t mx,
-                                                size_t my,
-                                                size_t mz,
-                                                double __complex__ *u1,
-                                                double __complex__ *v1,
-                                                double __complex__ *u2,
-                                                double __complex__ *v2,
-                                                double __complex__ *u3,
-                                                double __complex__ *v3);
-  HybridConvolution3 *fftwpp_create_conv3d_dot(size_t mx,
-                                               size_t my,
-                                               size_t mz,
-                                               size_t M);
   void fftwpp_conv3d_convolve(HybridConvolution3 *conv,
                               double __complex__ *a, double __complex__ *b);
-  void fftwpp_conv3d_convolve_dot(HybridConvolution3 *conv,
-                                  double __complex__ **a, double __complex__ **b);
-  void fftwpp_conv3d_convolve_dotf(HybridConvolution3 *conv,
-                                   double __complex__ *a, double __complex__ *b);
   void fftwpp_conv3d_delete(HybridConvolution3 *conv);
 
   // 3d Hermitian-symmetric centered convolution
   typedef struct HybridConvolutionHermitian3 HybridConvolutionHermitian3;
   HybridConvolutionHermitian3 *fftwpp_create_hconv3d(size_t mx, size_t my,
                                                      size_t mz);
-  HybridConvolutionHermitian3 *fftwpp_create_hconv3d_dot(size_t mx,
-                                                         size_t my,
-                                                         size_t mz,
-                                                         size_t M);
-  HybridConvolutionHermitian3 *fftwpp_create_hconv3d_work(size_t mx,
-                                                          size_t my,
-                                                          size_t mz,
-                                                          double __complex__ *u1,
-                                                          double __complex__ *v1,
-                                                          double __complex__ *w1,
-                                                          double __complex__ *u2,
-                                                          double __complex__ *v2,
-                                                          double __complex__ *u3,
-                                                          double __complex__ *v3);
-  HybridConvolutionHermitian3 *fftwpp_create_hconv3d_work_dot(size_t mx,
-                                                              size_t my,
-                                                              size_t mz,
-                                                              double __complex__ *u1,
-                                                              double __complex__ *v1,
-                                                              double __complex__ *w1,
-                                                              double __complex__ *u2,
-                                                              double __complex__ *v2,
-                                                              double __complex__ *u3,
-                                                              double __complex__ *v3,
-                                                              size_t M);
   void fftwpp_hconv3d_convolve(HybridConvolutionHermitian3 *conv,
                                double __complex__ *a, double __complex__ *b);
-  void fftwpp_hconv3d_convolve_dot(HybridConvolutionHermitian3 *conv,
-                                   double __complex__ **a,
-                                   double __complex__ **b);
   void fftwpp_hconv3d_delete(HybridConvolutionHermitian3 *conv);
 
   void fftwpp_HermitianSymmetrize(double __complex__ *f);
diff --git a/wrappers/fftwpp.f90 b/wrappers/fftwpp.f90
index d18b4e8..59ec480 100644
--- a/wrappers/fftwpp.f90
+++ b/wrappers/fftwpp.f90
@@ -66,15 +66,6 @@ module fftwpp
      end subroutine hconv1d_convolve
   end interface
 
-  interface
-     subroutine hconv1d_convolve_dot(p, f, g) &
-          bind(c, name = 'fftwpp_hconv1d_convolve_dotf')
-       use iso_c_binding
-       implicit none
-       type(c_ptr), intent(in), value :: p,f,g
-     end subroutine hconv1d_convolve_dot
-  end interface
-
   interface
      subroutine delete_hconv1d(p) &
           bind(c, name = 'fftwpp_hconv1d_delete')
-- 
2.43.0


From 305792def49d80d9661e049bcbbf4b22fe3cd9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:57 +0000
Subject: [PATCH 16/34] fix: the Python wrapper misread strided arrays (it
 passed their data as if contiguous)

---
 wrappers/fftwpp.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/wrappers/fftwpp.py b/wrappers/fftwpp.py
index 7a73ff0..b927e96 100755
--- a/wrappers/fftwpp.py
+++ b/wrappers/fftwpp.py
@@ -31,54 +31,57 @@ def fftwpp_set_maxthreads(nthreads):
 def fftwpp_get_maxthreads():
     return clib.get_fftwpp_maxthreads()
 
+# The library expects contiguous arrays: views with strides are rejected.
+complex_array=ndpointer(dtype=np.complex128,flags='C_CONTIGUOUS')
+
 # Prototypes
 clib.fftwpp_create_conv1d.restype=c_void_p
 clib.fftwpp_create_conv1d.argtypes=[c_size_t]
 
 clib.fftwpp_conv1d_delete.argtypes=[c_void_p]
 clib.fftwpp_conv1d_convolve.argtypes=[c_void_p,
-                                         ndpointer(dtype=np.complex128),
-                                         ndpointer(dtype=np.complex128)]
+                                         complex_array,
+                                         complex_array]
 
 clib.fftwpp_create_hconv1d.restype=c_void_p
 clib.fftwpp_create_hconv1d.argtypes=[c_size_t]
 clib.fftwpp_hconv1d_delete.argtypes=[c_void_p]
 clib.fftwpp_hconv1d_convolve.argtypes=[c_void_p,
-                                          ndpointer(dtype=np.complex128),
-                                          ndpointer(dtype=np.complex128)]
+                                          complex_array,
+                                          complex_array]
 
 clib.fftwpp_create_conv2d.restype=c_void_p
 clib.fftwpp_create_conv2d.argtypes=[c_size_t,c_size_t]
 clib.fftwpp_conv2d_delete.argtypes=[c_void_p]
 clib.fftwpp_conv2d_convolve.argtypes=[c_void_p,
-                                         ndpointer(dtype=np.complex128),
-                                         ndpointer(dtype=np.complex128)]
-clib.fftwpp_HermitianSymmetrize.argtypes=[ndpointer(dtype=np.complex128)]
+                                         complex_array,
+                                         complex_array]
+clib.fftwpp_HermitianSymmetrize.argtypes=[complex_array]
 
 clib.fftwpp_create_hconv2d.restype=c_void_p
 clib.fftwpp_create_hconv2d.argtypes=[c_size_t,c_size_t]
 clib.fftwpp_hconv2d_delete.argtypes=[c_void_p]
 clib.fftwpp_hconv2d_convolve.argtypes=[c_void_p,
-                                          ndpointer(dtype=np.complex128),
-                                          ndpointer(dtype=np.complex128)]
+                                          complex_array,
+                                          complex_array]
 clib.fftwpp_HermitianSymmetrizeX.argtypes=[c_size_t,c_size_t,c_size_t,
-                                          ndpointer(dtype=np.complex128)]
+                                          complex_array]
 clib.fftwpp_create_conv3d.restype=c_void_p
 clib.fftwpp_create_conv3d.argtypes=[c_size_t,c_size_t,c_size_t]
 clib.fftwpp_conv3d_delete.argtypes=[c_void_p]
 clib.fftwpp_conv3d_convolve.argtypes=[c_void_p,
-                                          ndpointer(dtype=np.complex128),
-                                          ndpointer(dtype=np.complex128)]
+                                          complex_array,
+                                          complex_array]
 
 clib.fftwpp_create_hconv3d.restype=c_void_p
 clib.fftwpp_create_hconv3d.argtypes=[c_size_t,c_size_t,c_size_t]
 clib.fftwpp_hconv3d_delete.argtypes=[c_void_p]
 clib.fftwpp_hconv3d_convolve.argtypes=[c_void_p,
-                                          ndpointer(dtype=np.complex128),
-                                          ndpointer(dtype=np.complex128)]
+                                          complex_array,
+                                          complex_array]
 clib.fftwpp_HermitianSymmetrizeXY.argtypes=[c_size_t,c_size_t,c_size_t,c_size_t,
                                              c_size_t,
-                                             ndpointer(dtype=np.complex128)
+                                             complex_array
                                            ]
 
 class Convolution(object):
-- 
2.43.0


From 00ffbda95d6b2036ada90f2601ead4a091679705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:57 +0000
Subject: [PATCH 17/34] fix: HConvolution.convolve accepted arrays of another
 shape and wrote past their end

---
 wrappers/fftwpp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wrappers/fftwpp.py b/wrappers/fftwpp.py
index b927e96..8f600ed 100755
--- a/wrappers/fftwpp.py
+++ b/wrappers/fftwpp.py
@@ -329,6 +329,9 @@ class HConvolution(object):
 
         The convolution is performed in-place (*f* is over-written).
         """
+        assert f.shape == self.shape
+        assert g.shape == self.shape
+
         # Enforce Hermitian symmetry on input
         if self.dim == 1:
             clib.fftwpp_HermitianSymmetrize(f)
-- 
2.43.0


From 229798dfec6cf7d0c6335befd9a1ad97fcf02b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:58 +0000
Subject: [PATCH 18/34] fix: the Python wrapper passed and returned the thread
 count as int, not size_t

---
 wrappers/fftwpp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wrappers/fftwpp.py b/wrappers/fftwpp.py
index 8f600ed..a16ff41 100755
--- a/wrappers/fftwpp.py
+++ b/wrappers/fftwpp.py
@@ -35,6 +35,11 @@ def fftwpp_get_maxthreads():
 complex_array=ndpointer(dtype=np.complex128,flags='C_CONTIGUOUS')
 
 # Prototypes
+clib.set_fftwpp_maxthreads.argtypes=[c_size_t]
+clib.set_fftwpp_maxthreads.restype=None
+clib.get_fftwpp_maxthreads.argtypes=[]
+clib.get_fftwpp_maxthreads.restype=c_size_t
+
 clib.fftwpp_create_conv1d.restype=c_void_p
 clib.fftwpp_create_conv1d.argtypes=[c_size_t]
 
-- 
2.43.0


From c7f84863ed5b6d26e62903e80b1b05552db519fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:34 +0000
Subject: [PATCH 19/34] fix: array5 constructor over caller-supplied memory
 passed the size nv0 instead of the pointer v0 and did not compile

---
 Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Array.h b/Array.h
index c30ecb4..e271a6a 100644
--- a/Array.h
+++ b/Array.h
@@ -816,7 +816,7 @@ public:
   }
   array5(size_t nx0, size_t ny0, size_t nz0,
          size_t nw0, size_t nv0, T *v0) {
-    Dimension(nx0,ny0,nz0,nw0,nv0,nv0);
+    Dimension(nx0,ny0,nz0,nw0,nv0,v0);
   }
 
   size_t Nx() const {return nx;}
-- 
2.43.0


From 0a80f6e3f2d3f3beae8e9bd9aaba026c0f2d1f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:34 +0000
Subject: [PATCH 20/34] fix: assigning an array4 to an Array4 compared every
 extent with Nx() and aborted in debug builds unless the array was a hypercube

---
 Array.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/Array.h b/Array.h
index e271a6a..e341390 100644
--- a/Array.h
+++ b/Array.h
@@ -1269,10 +1269,6 @@ public:
     __checkEqual(this->ny,A.Ny(),4,2);
     __checkEqual(this->nz,A.Nz(),4,3);
     __checkEqual(this->nw,A.N4(),4,4);
-    __checkEqual(this->nx,A.Nx(),4,1);
-    __checkEqual(this->ny,A.Nx(),4,2);
-    __checkEqual(this->nz,A.Nx(),4,3);
-    __checkEqual(this->nw,A.Nx(),4,4);
     __checkEqual(ox,0,4,1);
     __checkEqual(oy,0,4,2);
     __checkEqual(oz,0,4,3);
-- 
2.43.0


From a59b3971c7b57563c8644d55a168b203805a2780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:34 +0000
Subject: [PATCH 21/34] fix: Array::deleteAlign ran len-1 wrapped around (and
 destroyed v[0]) for an array of length zero

---
 Array.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Array.h b/Array.h
index e341390..4cb67bb 100644
--- a/Array.h
+++ b/Array.h
@@ -119,8 +119,7 @@ inline void newAlign(T *&v, size_t len, size_t align)
 template<class T>
 inline void deleteAlign(T *v, size_t len)
 {
-  for(size_t i=len-1; i > 0; i--) v[i].~T();
-  v[0].~T();
+  for(size_t i=len; i-- > 0;) v[i].~T();
 #ifdef HAVE_POSIX_MEMALIGN
   free(v);
 #else
-- 
2.43.0


From f9443cba1b0f9dd5fc84be7bd59b7414b1408b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:34 +0000
Subject: [PATCH 22/34] fix: array1(const void *) left its data pointer
 uninitialized

---
 Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Array.h b/Array.h
index 4cb67bb..f10173b 100644
--- a/Array.h
+++ b/Array.h
@@ -199,7 +199,7 @@ public:
   }
 
   array1() : v(NULL), size(0), state(unallocated) {}
-  array1(const void *) : size(0), state(unallocated) {}
+  array1(const void *) : v(NULL), size(0), state(unallocated) {}
   array1(size_t nx0, size_t align=0) : state(unallocated) {
     Allocate(nx0,align);
   }
-- 
2.43.0


From 0fce553e408b48cf5b6e6537f4e144c6484349d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:21 +0000
Subject: [PATCH 23/34] fix: an array that gave up aligned storage (Set,
 Dimension) and then allocated unaligned storage released it with the aligned
 deallocator

---
 Array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Array.h b/Array.h
index f10173b..c44cfba 100644
--- a/Array.h
+++ b/Array.h
@@ -162,6 +162,7 @@ public:
       set(allocated | aligned);
     } else {
       v=new T[size];
+      clear(aligned);
       set(allocated);
     }
   }
-- 
2.43.0


From 5fba29670f2b0ec12d03407733932449591fd733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:21 +0000
Subject: [PATCH 24/34] fix: swaparray, leftshiftarray and rightshiftarray lost
 the ownership of the storage they exchange

---
 Array.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/Array.h b/Array.h
index c44cfba..769b63a 100644
--- a/Array.h
+++ b/Array.h
@@ -375,29 +375,32 @@ template<class T>
 void swaparray(T& A, T& B)
 {
   T C;
+  int a=A.test(~0), b=B.test(~0);
   C.Dimension(A);
-  A.Dimension(B);
-  B.Dimension(C);
+  A.Dimension(B); A.set(b);
+  B.Dimension(C); B.set(a);
 }
 
 template<class T>
 void leftshiftarray(T& A, T& B, T& C)
 {
   T D;
+  int a=A.test(~0), b=B.test(~0), c=C.test(~0);
   D.Dimension(A);
-  A.Dimension(B);
-  B.Dimension(C);
-  C.Dimension(D);
+  A.Dimension(B); A.set(b);
+  B.Dimension(C); B.set(c);
+  C.Dimension(D); C.set(a);
 }
 
 template<class T>
 void rightshiftarray(T& A, T& B, T& C)
 {
   T D;
+  int a=A.test(~0), b=B.test(~0), c=C.test(~0);
   D.Dimension(C);
-  C.Dimension(B);
-  B.Dimension(A);
-  A.Dimension(D);
+  C.Dimension(B); C.set(b);
+  B.Dimension(A); B.set(a);
+  A.Dimension(D); A.set(c);
 }
 
 template<class T>
-- 
2.43.0


From 11f74564f66aa8954242fd261bea161de04b5d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:35 +0000
Subject: [PATCH 25/34] fix: Array.h used DBL_MAX without including <cfloat>
 (builds with __ArrayExtensions)

---
 Array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Array.h b/Array.h
index 769b63a..747a2cc 100644
--- a/Array.h
+++ b/Array.h
@@ -28,6 +28,7 @@
 #include <climits>
 #include <cstdint>
 #include <cstdlib>
+#include <cfloat>
 #include <cerrno>
 
 #ifdef NDEBUG
-- 
2.43.0


From 04f9d9c4d89b717842867aafeae5af2593f05e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:45 +0000
Subject: [PATCH 26/34] fix: scale the transformed elements of strided multiple
 transforms

fft::Normalize scaled the first doubles/2 elements of the output, which are
not the elements that Mfft1d writes when its stride or distance leaves gaps.
---
 fftw++.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fftw++.h b/fftw++.h
index 3b644bd..4d69c54 100644
--- a/fftw++.h
+++ b/fftw++.h
@@ -348,7 +348,7 @@ public:
     fft0(in,(Complex *) out);
   }
 
-  void Normalize(Complex *out) {
+  virtual void Normalize(Complex *out) {
     size_t stop=doubles/2;
 #ifndef FFTWPP_SINGLE_THREAD
 #pragma omp parallel for num_threads(threads)
@@ -356,7 +356,7 @@ public:
     for(size_t i=0; i < stop; i++) out[i] *= norm;
   }
 
-  void Normalize(double *out) {
+  virtual void Normalize(double *out) {
 #ifndef FFTWPP_SINGLE_THREAD
 #pragma omp parallel for num_threads(threads)
 #endif
@@ -793,6 +793,10 @@ public:
   {
     init(in,out,threads,threadtable);
   }
+
+  void Normalize(Complex *out) {
+    fftw::Normalize<Complex>(nx,M,ostride,odist,out);
+  }
 };
 
 // Compute the complex Fourier transform of M complex vectors, each of
-- 
2.43.0


From c992957f7beab1a3abda7a86b38be42a97f5d77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:45 +0000
Subject: [PATCH 27/34] fix: do not zero Nyquist modes a process does not have

deNyquist wrote before or past the local array of a process with an empty slice.
---
 mpi/mpifftw++.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpi/mpifftw++.h b/mpi/mpifftw++.h
index bc9cac0..5e86c93 100644
--- a/mpi/mpifftw++.h
+++ b/mpi/mpifftw++.h
@@ -348,7 +348,7 @@ public:
       for(unsigned int j=0; j < dc.y; ++j)
         f[j]=0.0;
 
-    if(dr.Y % 2 == 0 && dc.y0+dc.y == dc.Y) // Last process
+    if(dr.Y % 2 == 0 && dc.y > 0 && dc.y0+dc.y == dc.Y) // Last process
       for(unsigned int i=0; i < dc.X; ++i)
         f[(i+1)*dc.y-1]=0.0;
   }
@@ -531,7 +531,7 @@ public:
       }
     }
 
-    if(dr.Z % 2 == 0 && dc.z0+dc.z == dc.Z) // Last process
+    if(dr.Z % 2 == 0 && dc.z > 0 && dc.z0+dc.z == dc.Z) // Last process
       for(unsigned int i=0; i < dc.X; ++i)
         for(unsigned int j=0; j < dc.xy.y; ++j)
           f[i*yz+(j+1)*dc.z-1]=0.0;
-- 
2.43.0


From 4be949a1fda0fe6afb2c19ad6c5b4d0ad1602dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:45 +0000
Subject: [PATCH 28/34] fix: end the program when an aligned allocation fails

newAlign printed a message and went on constructing elements at a null pointer.
---
 align.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/align.h b/align.h
index 2096fc9..834f89d 100644
--- a/align.h
+++ b/align.h
@@ -69,6 +69,7 @@ inline void newAlign(T *&v, size_t len, size_t align)
 #endif
   if(rc == EINVAL) std::cerr << invalid << std::endl;
   if(rc == ENOMEM) std::cerr << nomem << std::endl;
+  if(rc != 0) exit(1);
   v=(T *) mem;
   for(size_t i=0; i < len; i++) new(v+i) T;
 }
-- 
2.43.0


From cb8b8ecce85b2e1288cd92939bd1e9e4b8545da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:45 +0000
Subject: [PATCH 29/34] fix: end the program when the plan of a Transpose
 cannot be created

transpose() would silently do nothing.
---
 fftw++.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fftw++.h b/fftw++.h
index 4d69c54..ccdcb01 100644
--- a/fftw++.h
+++ b/fftw++.h
@@ -470,6 +470,10 @@ public:
     // A plan with rank=0 is a transpose.
     plan=fftw_plan_guru_r2r(0,NULL,3,dims,(double *) in,(double *) out,
                             NULL,fftw::effort);
+    if(!plan) {
+      std::cerr << "Unable to construct FFTW plan" << std::endl;
+      exit(1);
+    }
   }
 
   ~Transpose() {
-- 
2.43.0


From 727f8339821a9cb346a6e39617cbe12072d2dc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:45 +0000
Subject: [PATCH 30/34] fix: build the temporary wisdom name afresh on every
 reload

loadWisdom appended to the name left by its previous call; when wisdomName
contains a directory the resulting path does not exist and wisdom was never saved.
---
 fftw++.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fftw++.cc b/fftw++.cc
index 5ea444f..8b74f88 100644
--- a/fftw++.cc
+++ b/fftw++.cc
@@ -34,6 +34,7 @@ static bool Wise=false;
 void loadWisdom()
 {
   if(!Wise) {
+    wisdomTemp.str("");
     wisdomTemp << wisdomName << "_" << getpid();
     ifstream ifWisdom;
     ifWisdom.open(wisdomName);
-- 
2.43.0


From cb2688d6c43a4fdfa15ef1d14d72c5a9ddb40977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:45 +0000
Subject: [PATCH 31/34] fix: keep the wisdom file when its replacement could
 not be written

---
 fftw++.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fftw++.cc b/fftw++.cc
index 8b74f88..8c0f3ee 100644
--- a/fftw++.cc
+++ b/fftw++.cc
@@ -68,7 +68,7 @@ void saveWisdom()
     ofWisdom << wisdom;
     fftw_free(wisdom);
     ofWisdom.close();
-    rename(wisdomTemp.str().c_str(),wisdomName.c_str());
+    if(ofWisdom) rename(wisdomTemp.str().c_str(),wisdomName.c_str());
     fftw::wiser=false;
   }
 }
-- 
2.43.0


From 132026bda192bb567f2d18eda9748917d062b955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:36 +0000
Subject: [PATCH 32/34] fix: combine both residue blocks of every output when
 A-B does not divide B

The two-loop schedule handled the outputs in groups of A-B and stopped
before the last, shorter group (and in 2D and 3D left pointers of Fp
untransformed), so that outputs were built from stale data.
---
 convolve.cc |  4 ++--
 convolve.h  | 14 ++++++--------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/convolve.cc b/convolve.cc
index ff2038c..ef4c446 100644
--- a/convolve.cc
+++ b/convolve.cc
@@ -7678,9 +7678,9 @@ void Convolution::convolveRaw(Complex **g)
         operate(F,0,&indices);
         size_t C=A-B;
         size_t a=0;
-        for(; a+C <= B; a += C) {
+        for(; a < B; a += C) {
           forward(g,Fp,r,a,a+C);
-          backwardPad(F,g,0,a,a+C,W0);
+          backwardPad(F,g,0,a,std::min(a+C,B),W0);
         }
         forward(g,Fp,r,a,A);
         operate(Fp,r,&indices);
diff --git a/convolve.h b/convolve.h
index fbd082b..c84f713 100644
--- a/convolve.h
+++ b/convolve.h
@@ -1459,11 +1459,10 @@ public:
       if(loop2) {
         forward(f,F,0,0,A,offset);
         subconvolution(F,0);
-        size_t C=A-B;
         size_t a=0;
-        for(; a+C <= B; a += C) {
-          forward(f,Fp,r,a,a+C,offset);
-          backward(F,f,0,a,a+C,offset,W0);
+        for(; a < B; ++a) {
+          forward(f,Fp,r,a,a+1,offset);
+          backward(F,f,0,a,a+1,offset,W0);
         }
         forward(f,Fp,r,a,A,offset);
         subconvolution(Fp,r);
@@ -1787,11 +1786,10 @@ public:
       if(loop2) {
         forward(f,F,0,0,A,offset);
         subconvolution(F,0);
-        size_t C=A-B;
         size_t a=0;
-        for(; a+C <= B; a += C) {
-          forward(f,Fp,r,a,a+C,offset);
-          backward(F,f,0,a,a+C,offset,W0);
+        for(; a < B; ++a) {
+          forward(f,Fp,r,a,a+1,offset);
+          backward(F,f,0,a,a+1,offset,W0);
         }
         forward(f,Fp,r,a,A,offset);
         subconvolution(Fp,r);
-- 
2.43.0


From 1e354e01dee1810836ea1319b852ebbc88c0023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:36 +0000
Subject: [PATCH 33/34] fix: give the multiplier max(A,B) operands when B
 exceeds A

The pointer array of a sub-block or row had only A elements, but the
multiplier and the backward transform use B of them.
---
 convolve.cc | 5 +++--
 convolve.h  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/convolve.cc b/convolve.cc
index ef4c446..0f67f1b 100644
--- a/convolve.cc
+++ b/convolve.cc
@@ -7722,9 +7722,10 @@ void Convolution::convolveRaw(Complex **f, Indices *indices2)
 
 void Convolution::convolveRaw(Complex **f, size_t offset)
 {
-  Complex *G[A];
+  size_t N=std::max(A,B);
+  Complex *G[N];
   Complex **g=G;
-  for(size_t a=0; a < A; ++a)
+  for(size_t a=0; a < N; ++a)
     g[a]=f[a]+offset;
   convolveRaw(g);
 }
diff --git a/convolve.h b/convolve.h
index c84f713..1a3734b 100644
--- a/convolve.h
+++ b/convolve.h
@@ -1100,8 +1100,9 @@ public:
     size_t b=fft->b;
     size_t stop=fft->span(r);
     for(size_t d=1; b*d < stop; ++d) {
-      Complex *G[A];
-      for(size_t a=0; a < A; ++a)
+      size_t N=std::max(A,B);
+      Complex *G[N];
+      for(size_t a=0; a < N; ++a)
         G[a]=F[a]+b*d;
       indices->offset=stride*d;
       (*mult)(G,blocksize,indices,threads);
-- 
2.43.0


From 77d219a0419bff0bcfa58d107b2302c4152ad291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:00 +0000
Subject: [PATCH 34/34] fix: mpitranspose::setup divided by zero with more
 blocks than full processes

The block divisor a may exceed the number Pbar of processes that hold a
full block; b=Pbar/a is then 0 and the score N/ab divided by zero when
the kind of exchange is timed.
---
 mpi/mpitranspose.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpi/mpitranspose.h b/mpi/mpitranspose.h
index 703e724..fac1cba 100644
--- a/mpi/mpitranspose.h
+++ b/mpi/mpitranspose.h
@@ -338,13 +338,13 @@ public:
         for(a=std::max(2,astart); a < alimit; a++) {
           b=Pbar/a;
           unsigned int ab=a*b;
-          unsigned int score=ab*(N/ab)*ab*(M/ab);
+          unsigned int score=ab > 0 ? ab*(N/ab)*ab*(M/ab) : 0;
           if(score > maxscore) maxscore=score;
         }
         for(a=astart; a < alimit; a++) {
           b=Pbar/a;
           unsigned int ab=a*b;
-          if(a > 1 && ab*(N/ab)*ab*(M/ab) < maxscore) continue;
+          if(a > 1 && (ab > 0 ? ab*(N/ab)*ab*(M/ab) : 0) < maxscore) continue;
           options.alltoall=alltoall;
           uniform=Uniform && a*b == size;
           if(start < 2 && alltoall == 2 && !Uniform) continue;
-- 
2.43.0

