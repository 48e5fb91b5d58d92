From e686b3adce62a643cb3c58127553ff30d993eed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 01/49] fix: do not share the shape slice between matrices

---
 mat/dense.go     | 2 +-
 mat/dense_new.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/dense.go b/mat/dense.go
index a6f9e72..b888e85 100644
--- a/mat/dense.go
+++ b/mat/dense.go
@@ -33,7 +33,7 @@ func makeDense[T float.DType](array []T, shape ...int) *Dense[T] {
 		log.Fatalf("mat: incompatible size, expected %d, actual %d", calculateSize(shape), len(array))
 	}
 	return &Dense[T]{
-		shape: shape,
+		shape: append([]int(nil), shape...), // the caller's slice must not be shared
 		data:  array,
 	}
 }
diff --git a/mat/dense_new.go b/mat/dense_new.go
index 7ce9bf2..b87de49 100644
--- a/mat/dense_new.go
+++ b/mat/dense_new.go
@@ -128,7 +128,7 @@ func adjustShape(shape ...int) []int {
 	if len(shape) == 1 {
 		return []int{shape[0], 1}
 	}
-	return shape
+	return []int{shape[0], shape[1]} // the caller's slice must not be shared
 }
 
 func newScalar[T float.DType](value T, opts ...OptionsFunc) (*Dense[T], error) {
-- 
2.43.0


From 7addb5f0a8e19e975c7c6343f14597ea9dbe37e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 02/49] fix: Max and Min gradients take the shape of their
 operands

---
 mat/gradfn/max.go | 4 ++--
 mat/gradfn/min.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mat/gradfn/max.go b/mat/gradfn/max.go
index 679b574..df37cd8 100644
--- a/mat/gradfn/max.go
+++ b/mat/gradfn/max.go
@@ -56,7 +56,7 @@ func (r *Max[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x1.AccGrad(gx)
 	}
 	if r.x2.RequiresGrad() {
@@ -66,7 +66,7 @@ func (r *Max[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x2.AccGrad(gx)
 	}
 
diff --git a/mat/gradfn/min.go b/mat/gradfn/min.go
index aee4a76..b8c2f73 100644
--- a/mat/gradfn/min.go
+++ b/mat/gradfn/min.go
@@ -56,7 +56,7 @@ func (r *Min[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x1.AccGrad(gx)
 	}
 	if r.x2.RequiresGrad() {
@@ -66,7 +66,7 @@ func (r *Min[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x2.AccGrad(gx)
 	}
 	return nil
-- 
2.43.0


From 061bd681ce52c42a46c55896f0be34ec5b661795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:15 +0000
Subject: [PATCH 03/49] fix: ReduceSum and ReduceMean gradients take the shape
 of their operand

---
 mat/gradfn/reducemean.go | 2 +-
 mat/gradfn/reducesum.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/gradfn/reducemean.go b/mat/gradfn/reducemean.go
index 142a6fc..dd8c570 100644
--- a/mat/gradfn/reducemean.go
+++ b/mat/gradfn/reducemean.go
@@ -42,7 +42,7 @@ func (r *ReduceMean[O]) Backward(gy mat.Tensor) error {
 		x := r.x.Value().(mat.Matrix)
 		size := x.Size()
 		v := gy.Item().F64() / float64(size)
-		gx := x.NewMatrix(mat.WithShape(size), mat.WithBacking(mat.CreateInitializedSlice(size, v)))
+		gx := x.NewMatrix(mat.WithShape(x.Shape()...), mat.WithBacking(mat.CreateInitializedSlice(size, v)))
 		r.x.AccGrad(gx)
 	}
 	return nil
diff --git a/mat/gradfn/reducesum.go b/mat/gradfn/reducesum.go
index 7c186a4..51b8927 100644
--- a/mat/gradfn/reducesum.go
+++ b/mat/gradfn/reducesum.go
@@ -39,7 +39,7 @@ func (r *ReduceSum[O]) Backward(gy mat.Tensor) error {
 	}
 	if r.x.RequiresGrad() {
 		x := r.x.Value()
-		gx := x.(mat.Matrix).NewMatrix(mat.WithShape(x.Size()), mat.WithBacking(mat.CreateInitializedSlice(x.Size(), gy.Item().F64())))
+		gx := x.(mat.Matrix).NewMatrix(mat.WithShape(x.Shape()...), mat.WithBacking(mat.CreateInitializedSlice(x.Size(), gy.Item().F64())))
 		r.x.AccGrad(gx)
 	}
 	return nil
-- 
2.43.0


From d246f471655776daab1cf223a274c3efb67abd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:18 +0000
Subject: [PATCH 04/49] fix: Concat gradients take the shape of their operands

---
 mat/gradfn/concat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/gradfn/concat.go b/mat/gradfn/concat.go
index 2c51eb6..79d7f8f 100644
--- a/mat/gradfn/concat.go
+++ b/mat/gradfn/concat.go
@@ -56,7 +56,7 @@ func (r *Concat[O]) Backward(gy mat.Tensor) error {
 	xs := r.xs
 	for i, gx := range gy.(mat.Matrix).SplitV(sizes...) {
 		if xs[i].RequiresGrad() {
-			xs[i].AccGrad(gx)
+			xs[i].AccGrad(gx.ReshapeInPlace(xs[i].Value().Shape()...))
 		}
 	}
 	return nil
-- 
2.43.0


From a4778c358b632d72f1ded65b51da805438e77ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 05/49] fix: Softmax of a row vector propagates its gradients

---
 mat/gradfn/softmax.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/gradfn/softmax.go b/mat/gradfn/softmax.go
index cc4060c..3ffea66 100644
--- a/mat/gradfn/softmax.go
+++ b/mat/gradfn/softmax.go
@@ -36,7 +36,7 @@ func (r *Softmax[O]) Forward() (mat.Tensor, error) {
 
 // Backward computes the backward pass.
 func (r *Softmax[O]) Backward(gy mat.Tensor) error {
-	if !mat.SameDims(r.x.Value(), gy) {
+	if !mat.SameDims(r.y, gy) {
 		return fmt.Errorf("fn: matrices have incompatible dimensions")
 	}
 	if r.x.RequiresGrad() {
@@ -50,7 +50,7 @@ func (r *Softmax[O]) Backward(gy mat.Tensor) error {
 			vCol := y.ScalarAt(col).F64()
 			return -(vRow * vCol)
 		})))
-		gx := jb.Mul(gy.(mat.Matrix))
+		gx := jb.Mul(gy.(mat.Matrix)).ReshapeInPlace(r.x.Value().Shape()...)
 		r.x.AccGrad(gx)
 	}
 	return nil
-- 
2.43.0


From a1c820517b7641ea1dc9449e76d551cf6d76b232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:03 +0000
Subject: [PATCH 06/49] fix: ScalarMax of all-negative values

---
 mat/gradfn/scalarmax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/gradfn/scalarmax.go b/mat/gradfn/scalarmax.go
index 3de6fd9..5fc4165 100644
--- a/mat/gradfn/scalarmax.go
+++ b/mat/gradfn/scalarmax.go
@@ -37,7 +37,7 @@ func (r *ScalarMax[O]) Forward() (mat.Tensor, error) {
 	for i, x := range r.xs {
 		// FIXME: avoid casting to specific type
 		val := x.Value().Item().F64()
-		if val > max {
+		if i == 0 || val > max {
 			max = val
 			argmax = i
 		}
-- 
2.43.0


From 7dd0df37f9ed2c65737f836f7d11d87b5daf156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 07/49] fix: MaxPooling of non-square windows and non-positive
 values

---
 mat/gradfn/maxpooling.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/gradfn/maxpooling.go b/mat/gradfn/maxpooling.go
index 978edc2..9d36e97 100644
--- a/mat/gradfn/maxpooling.go
+++ b/mat/gradfn/maxpooling.go
@@ -52,11 +52,11 @@ func (r *MaxPooling[O]) Forward() (mat.Tensor, error) {
 
 	for row := 0; row < r.y.Shape()[0]; row++ {
 		for col := 0; col < r.y.Shape()[1]; col++ {
-			maximum := math.SmallestNonzeroFloat64
+			maximum := math.Inf(-1)
 
 			maxRows := (row * r.rows) + r.rows
 			for i := row * r.rows; i < maxRows; i++ {
-				maxCols := (col * r.cols) + r.rows
+				maxCols := (col * r.cols) + r.cols
 				for j := col * r.cols; j < maxCols; j++ {
 					// FIXME: avoid casting to specific type
 					val := xv.ScalarAt(i, j).F64()
-- 
2.43.0


From 48bf2b92aa07f240b248f04e6a653064de3d3455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:44 +0000
Subject: [PATCH 08/49] fix: SparseMax clips to the probability range, not to
 the input maximum

---
 mat/gradfn/sparsemax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/gradfn/sparsemax.go b/mat/gradfn/sparsemax.go
index 8c8a85e..1b6f451 100644
--- a/mat/gradfn/sparsemax.go
+++ b/mat/gradfn/sparsemax.go
@@ -39,7 +39,7 @@ func (r *SparseMax[O]) Forward() (mat.Tensor, error) {
 
 	_, _, _, tau := sparseMaxCommon(v)
 
-	v.SubScalarInPlace(tau).ClipInPlace(0, xMax)
+	v.SubScalarInPlace(tau).ClipInPlace(0, 1)
 
 	r.y = v
 	return v, nil
-- 
2.43.0


From 93894d6d6dec37fc108317b11c77c1d5d0438679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 09/49] fix: SwishB propagates the gradient of beta for
 matrices too

---
 mat/gradfn/swishb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/gradfn/swishb.go b/mat/gradfn/swishb.go
index 4f74250..aea678b 100644
--- a/mat/gradfn/swishb.go
+++ b/mat/gradfn/swishb.go
@@ -51,10 +51,10 @@ func (r *SwishB[O]) Backward(gy mat.Tensor) error {
 	if r.beta.RequiresGrad() {
 		gb := r.beta.Value().(mat.Matrix).ZerosLike()
 		// FIXME: avoid casting to specific type
+		gyData := gy.Data().F64()
 		for i, x := range r.x.Value().Data().F64() {
 			deriv := swishBBetaDeriv(x, r.beta.Value().Item().F64())
-			gyi := gy.(mat.Matrix).ScalarAt(i).F64()
-			gb.AddScalarInPlace(deriv * gyi)
+			gb.AddScalarInPlace(deriv * gyData[i])
 		}
 		r.beta.AccGrad(gb)
 	}
-- 
2.43.0


From 2097569b3613c886984331227182cf061e92a42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 10/49] fix: RotateR by zero or by the whole size

---
 mat/gradfn/rotater.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mat/gradfn/rotater.go b/mat/gradfn/rotater.go
index b52ce2f..f79f09b 100644
--- a/mat/gradfn/rotater.go
+++ b/mat/gradfn/rotater.go
@@ -43,6 +43,9 @@ func (r *RotateR[O]) Backward(gy mat.Tensor) error {
 
 func rotate(m mat.Matrix, i int) mat.Matrix {
 	size := m.Size()
+	if i == 0 || i == size {
+		return m.Clone()
+	}
 	left := m.Slice(0, 0, i, 1)
 	right := m.Slice(i, 0, size, 1)
 	return m.NewConcatV(right, left)
-- 
2.43.0


From 521992a93cda973f763f2b951d93d4a21545b056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 11/49] fix: Swish, SwishB and Mish derivatives overflow to NaN
 for large values

---
 mat/gradfn/misc.go  | 20 +++++++++-----------
 mat/gradfn/swish.go |  6 +++---
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/mat/gradfn/misc.go b/mat/gradfn/misc.go
index 6271685..29f6700 100644
--- a/mat/gradfn/misc.go
+++ b/mat/gradfn/misc.go
@@ -470,15 +470,15 @@ func swishB(_, _ int, v float64, beta ...float64) float64 {
 }
 
 func swishBDeriv(_, _ int, v float64, beta ...float64) float64 {
+	// written in terms of the sigmoid, as exp(v*beta) overflows for large values
 	prod := v * beta[0]
-	exp := math.Exp(prod)
-	return exp * (exp + prod + 1) / ((exp + 1) * (exp + 1))
+	s := 1 / (1 + math.Exp(-prod))
+	return s + prod*s*(1-s)
 }
 
 func swishBBetaDeriv(v, beta float64) float64 {
-	prod := v * beta
-	exp := math.Exp(-prod)
-	return (v * v * exp) / ((exp + 1) * (exp + 1))
+	s := 1 / (1 + math.Exp(-v*beta))
+	return v * v * s * (1 - s)
 }
 
 // Reference: "Mish: A Self Regularized Non-Monotonic Neural Activation Function" by Diganta Misra, 2019.
@@ -488,12 +488,10 @@ func mish(_, _ int, v float64) float64 {
 }
 
 func mishDeriv(_, _ int, v float64) float64 {
-	exp := math.Exp(v)
-	exp2 := math.Exp(2 * v)
-	exp3 := math.Exp(3 * v)
-	omega := 4.0*(v+1.0) + 4.0*exp2 + exp3 + exp*(4.0*v+6.0)
-	delta := 2*exp + exp2 + 2.0
-	return exp * (omega / (delta * delta))
+	// written in terms of tanh and sigmoid, as exp(v) overflows for large values
+	t := math.Tanh(math.Log(1 + math.Exp(v)))
+	s := 1 / (1 + math.Exp(-v))
+	return t + v*s*(1-t*t)
 }
 
 func gelu(_, _ int, v float64) float64 {
diff --git a/mat/gradfn/swish.go b/mat/gradfn/swish.go
index 46925d6..3b21977 100644
--- a/mat/gradfn/swish.go
+++ b/mat/gradfn/swish.go
@@ -49,7 +49,7 @@ func (l *Swish[O]) Backward(gy mat.Tensor) error {
 }
 
 func swishDeriv(_, _ int, v float64) float64 {
-	exp := math.Exp(v)
-	expPlusOne := exp + 1
-	return exp * (expPlusOne + v) / (expPlusOne * expPlusOne)
+	// written in terms of the sigmoid, as exp(v) overflows for large values
+	s := 1 / (1 + math.Exp(-v))
+	return s + v*s*(1-s)
 }
-- 
2.43.0


From 28560d89df29e4dbfbc573a67a31d36100e28404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:37 +0000
Subject: [PATCH 12/49] fix: Backward waits forever when a function gives an
 operand no gradients

---
 ag/operator.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/ag/operator.go b/ag/operator.go
index 49e2ce4..79b3f51 100644
--- a/ag/operator.go
+++ b/ag/operator.go
@@ -226,7 +226,11 @@ func (o *Operator) ZeroGrad() {
 // AccGrad accumulates the gradients to the node itself.
 func (o *Operator) AccGrad(grad mat.Tensor) {
 	o.Value().AccGrad(grad)
+}
 
+// resolvePendingGrad records that one of the contributions to the gradients of
+// the node is complete, whether or not it accumulated any gradients.
+func (o *Operator) resolvePendingGrad() {
 	// Don't decrement the counter if the backward pass is not running.
 	if !o.isBackwardIdle() && atomic.AddInt64(&o.pendingGrads, -1) == 0 {
 		close(o.broadcastGrad) // notify all goroutines that have been waiting for the gradients
@@ -234,15 +238,14 @@ func (o *Operator) AccGrad(grad mat.Tensor) {
 }
 
 func (o *Operator) assignOutputGradient() error {
-	grad := o.Value().Grad()
-
-	if !isNil(grad) {
-		o.pendingGrads--
+	if !isNil(o.Value().Grad()) {
+		o.resolvePendingGrad()
 		return nil
 	}
 
 	if o.Value().Size() == 1 {
 		o.AccGrad(o.Value().(mat.Matrix).NewScalar(1.))
+		o.resolvePendingGrad()
 		return nil
 	}
 
@@ -289,12 +292,18 @@ func (o *Operator) executeBackward(wg *sync.WaitGroup) {
 	defer o.setBackwardIdle()
 
 	grad := o.Grad() // wait until the accumulated gradients are ready
-	if grad == nil {
-		return // no gradients to propagate
+	if !isNil(grad) {
+		if err := o.fn.Backward(grad); err != nil {
+			log.Fatalf("ag: error during backward pass: %v", err) // TODO: handle error
+		}
 	}
 
-	if err := o.fn.Backward(grad); err != nil {
-		log.Fatalf("ag: error during backward pass: %v", err) // TODO: handle error
+	// The function is not required to accumulate gradients into each of its
+	// operands, so that they must not wait for its gradients any longer.
+	for _, operand := range o.Operands() {
+		if oo, ok := operand.(*Operator); ok {
+			oo.resolvePendingGrad()
+		}
 	}
 }
 
-- 
2.43.0


From 2ffec98bf75051c08d6a38cb53c956c533d1133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 13/49] fix: a Backward error leaves the tensors waiting for
 gradients

---
 ag/backward.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ag/backward.go b/ag/backward.go
index 484a0f3..c1275b0 100644
--- a/ag/backward.go
+++ b/ag/backward.go
@@ -5,6 +5,7 @@
 package ag
 
 import (
+	"fmt"
 	"sync"
 
 	"github.com/nlpodyssey/spago/mat"
@@ -26,6 +27,14 @@ func Backward(xs ...mat.Tensor) error {
 		return nil
 	}
 
+	// Report missing output gradients before anything is prepared, so that the
+	// tensors remain usable after an error.
+	for _, op := range ops {
+		if isNil(op.Value().Grad()) && op.Value().Size() != 1 {
+			return fmt.Errorf("ag: missing gradient for %v", op)
+		}
+	}
+
 	// The three for loops below are intentionally executed in sequence.
 	// These steps must occur in this order, so the loops cannot be combined due to their sequential dependencies.
 
-- 
2.43.0


From 38fba90f8da0d1090ee19fb5016e9151cbbe86e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 14/49] fix: Log of zero is -Inf in every lane of the
 vectorised float32 code

---
 mat/internal/matfuncs/log_amd64.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/mat/internal/matfuncs/log_amd64.go b/mat/internal/matfuncs/log_amd64.go
index 90e718c..cc45772 100644
--- a/mat/internal/matfuncs/log_amd64.go
+++ b/mat/internal/matfuncs/log_amd64.go
@@ -21,15 +21,13 @@ func Log32(x, y []float32) {
 			LogAVX32(x[i:], y[i:])
 		}
 
-		if max > 0 {
-			for i, v := range x[:max+1] {
-				if v == 0.0 {
-					y[i] = float32(math.Inf(-1))
-				}
+		mod := len(x) % 8
+		for i, v := range x[:len(x)-mod] {
+			if v == 0.0 {
+				y[i] = float32(math.Inf(-1))
 			}
 		}
 
-		mod := len(x) % 8
 		if mod > 0 {
 			tailStart := len(x) - mod
 			log(x[tailStart:], y[tailStart:])
@@ -43,15 +41,13 @@ func Log32(x, y []float32) {
 		LogSSE32(x[i:], y[i:])
 	}
 
-	if max > 0 {
-		for i, v := range x[:max+1] {
-			if v == 0.0 {
-				y[i] = float32(math.Inf(-1))
-			}
+	mod := len(x) % 4
+	for i, v := range x[:len(x)-mod] {
+		if v == 0.0 {
+			y[i] = float32(math.Inf(-1))
 		}
 	}
 
-	mod := len(x) % 4
 	if mod > 0 {
 		tailStart := len(x) - mod
 		log(x[tailStart:], y[tailStart:])
-- 
2.43.0


From fb9f06c2129b9cd7428e94316f79606b33e1c966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 15/49] fix: Norm of vectors with negative elements and an odd
 or fractional power

---
 mat/dense.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/dense.go b/mat/dense.go
index b888e85..ef58eb6 100644
--- a/mat/dense.go
+++ b/mat/dense.go
@@ -1294,7 +1294,7 @@ func (d *Dense[T]) norm(pow float64) float64 {
 	}
 	var s float64
 	for _, x := range d.data {
-		s += math.Pow(float64(x), pow)
+		s += math.Pow(math.Abs(float64(x)), pow)
 	}
 	return math.Pow(s, 1/pow)
 }
-- 
2.43.0


From c2c4e2c47dd9c70620f27291866a38f5854aa514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 16/49] fix: Range and SplitV never read past the end of the
 vector

---
 mat/dense.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mat/dense.go b/mat/dense.go
index ef58eb6..2b7921d 100644
--- a/mat/dense.go
+++ b/mat/dense.go
@@ -1149,6 +1149,9 @@ func (d *Dense[T]) Range(start, end int) Matrix {
 	if end < 0 || start < 0 {
 		panic("mat: negative values for range indices are not allowed")
 	}
+	if end > len(d.data) {
+		panic("mat: range indices out of bounds")
+	}
 	return NewDense[T](WithBacking(copySlice(d.data[start:end])))
 }
 
@@ -1169,7 +1172,7 @@ func (d *Dense[T]) SplitV(sizes ...int) []Matrix {
 		}
 		startIndex := offset
 		offset = startIndex + size
-		if startIndex >= len(d.data) && offset > startIndex {
+		if offset > len(d.data) {
 			panic("mat: sizes out of bounds")
 		}
 		out[i] = NewDense[T](WithBacking(copySlice(d.data[startIndex:offset])))
-- 
2.43.0


From 4ec5404fa5e24172e11d4ea77c0fc6df309a39cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 17/49] fix: LogSoftmax of widely spread values is not -Inf

---
 ag/operators.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ag/operators.go b/ag/operators.go
index 25e4443..fe4036a 100644
--- a/ag/operators.go
+++ b/ag/operators.go
@@ -500,8 +500,12 @@ func PositiveELU(x mat.Tensor) mat.Tensor {
 }
 
 // LogSoftmax returns a new operator node as a result of Log(Softmax(x)).
+// It is computed as x - LogSumExp(x), since the probabilities might underflow.
 func LogSoftmax(x mat.Tensor) mat.Tensor {
-	return Log(Softmax(x))
+	if x.Value().Shape()[0] == 1 {
+		x = T(x) // the result is always a column vector, like Softmax
+	}
+	return SubScalar(x, LogSumExp(x))
 }
 
 // LogSumExp "trick" computes the log of the sum of exponentials of input elements.
-- 
2.43.0


From d539275becb4d8e46e1fcdd23d1415862bc84b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:12 +0000
Subject: [PATCH 18/49] fix: Exp32 and Log32 deal with special values in every
 lane

---
 mat/internal/matfuncs/exp_amd64.go | 23 +++++++++++++++++++++++
 mat/internal/matfuncs/log_amd64.go | 12 ++++++++----
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/mat/internal/matfuncs/exp_amd64.go b/mat/internal/matfuncs/exp_amd64.go
index 6df735b..e0f86ff 100644
--- a/mat/internal/matfuncs/exp_amd64.go
+++ b/mat/internal/matfuncs/exp_amd64.go
@@ -6,6 +6,25 @@
 
 package matfuncs
 
+import "math"
+
+// Outside of this interval the result is not a normal number, and it can not
+// be computed by the vectorised functions.
+const (
+	minExp32 = -87.33
+	maxExp32 = 88.37
+)
+
+// exp32Special overwrites the results of the values which are out of the domain
+// of the vectorised functions, NaN included.
+func exp32Special(x, y []float32) {
+	for i, v := range x {
+		if !(v >= minExp32 && v <= maxExp32) {
+			y[i] = float32(math.Exp(float64(v)))
+		}
+	}
+}
+
 // Exp32 computes the base-e exponential of each element of x, storing the result in y (32 bits).
 func Exp32(x, y []float32) {
 	if len(x) == 0 {
@@ -16,7 +35,9 @@ func Exp32(x, y []float32) {
 		_ = y[len(x)-1]
 		max := len(x) - 8
 		for i := 0; i <= max; i += 8 {
+			block := [8]float32(x[i : i+8]) // y can be the same as x
 			ExpAVX32(x[i:], y[i:])
+			exp32Special(block[:], y[i:i+8])
 		}
 
 		mod := len(x) % 8
@@ -30,7 +51,9 @@ func Exp32(x, y []float32) {
 	_ = y[len(x)-1]
 	max := len(x) - 4
 	for i := 0; i <= max; i += 4 {
+		block := [4]float32(x[i : i+4]) // y can be the same as x
 		ExpSSE32(x[i:], y[i:])
+		exp32Special(block[:], y[i:i+4])
 	}
 
 	mod := len(x) % 4
diff --git a/mat/internal/matfuncs/log_amd64.go b/mat/internal/matfuncs/log_amd64.go
index cc45772..34568ea 100644
--- a/mat/internal/matfuncs/log_amd64.go
+++ b/mat/internal/matfuncs/log_amd64.go
@@ -8,6 +8,10 @@ package matfuncs
 
 import "math"
 
+// minLog32 is the smallest positive normal float32. The vectorised functions
+// can not deal with zeros, subnormal and negative numbers, infinities and NaN.
+const minLog32 = 1.1754943508222875e-38
+
 // Log32 computes the natural logarithm of each element of x, storing the result in y (32 bits).
 func Log32(x, y []float32) {
 	if len(x) == 0 {
@@ -23,8 +27,8 @@ func Log32(x, y []float32) {
 
 		mod := len(x) % 8
 		for i, v := range x[:len(x)-mod] {
-			if v == 0.0 {
-				y[i] = float32(math.Inf(-1))
+			if !(v >= minLog32 && v <= math.MaxFloat32) {
+				y[i] = float32(math.Log(float64(v)))
 			}
 		}
 
@@ -43,8 +47,8 @@ func Log32(x, y []float32) {
 
 	mod := len(x) % 4
 	for i, v := range x[:len(x)-mod] {
-		if v == 0.0 {
-			y[i] = float32(math.Inf(-1))
+		if !(v >= minLog32 && v <= math.MaxFloat32) {
+			y[i] = float32(math.Log(float64(v)))
 		}
 	}
 
-- 
2.43.0


From bb254ecf3b46cb951ff9b8c2e178031100efe488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:51 +0000
Subject: [PATCH 19/49] fix: UnmarshalBinary copies and validates the decoded
 data

The decoded matrix kept using the memory of the given bytes, and malformed
bytes led to panics, or to matrices whose shape and data disagree.
---
 mat/dense_marshaling.go | 49 +++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/mat/dense_marshaling.go b/mat/dense_marshaling.go
index 84e8dd6..16f1650 100644
--- a/mat/dense_marshaling.go
+++ b/mat/dense_marshaling.go
@@ -31,7 +31,16 @@ func (d *Dense[T]) MarshalBinary() ([]byte, error) {
 }
 
 // UnmarshalBinary unmarshals a binary representation of a Dense matrix.
-func (d *Dense[T]) UnmarshalBinary(data []byte) error {
+// The matrix does not retain the data. An error is returned, and the matrix
+// is left as it was, if the data is malformed.
+func (d *Dense[T]) UnmarshalBinary(data []byte) (err error) {
+	defer func() {
+		// the accessors of the decoded data panic if it refers to positions out of range
+		if r := recover(); r != nil {
+			err = fmt.Errorf("mat: malformed data: %v", r)
+		}
+	}()
+	data = data[:len(data):len(data)]
 	switch any(T(0)).(type) {
 	case float32:
 		return d.unmarshalBinaryFloat32(data)
@@ -74,15 +83,7 @@ func (d *Dense[T]) unmarshalBinaryFloat32(data []byte) error {
 		return fmt.Errorf("mat: unexpected dtype %v", raw.Dtype())
 	}
 
-	d.requiresGrad = raw.RequiresFrad()
-
-	d.shape = make([]int, raw.ShapeLength())
-	for i := 0; i < raw.ShapeLength(); i++ {
-		d.shape[i] = int(raw.Shape(i))
-	}
-
-	d.data = bytesToSlice[T](raw.DataBytes(), raw.DataLength())
-	return nil
+	return d.setUnmarshaled(raw.RequiresFrad(), raw.ShapeLength(), raw.Shape, raw.DataBytes(), raw.DataLength())
 }
 
 func (d *Dense[T]) marshalBinaryFloat64() ([]byte, error) {
@@ -117,20 +118,30 @@ func (d *Dense[T]) unmarshalBinaryFloat64(data []byte) error {
 		return fmt.Errorf("mat: unexpected dtype %v", raw.Dtype())
 	}
 
-	d.requiresGrad = raw.RequiresGrad()
+	return d.setUnmarshaled(raw.RequiresGrad(), raw.ShapeLength(), raw.Shape, raw.DataBytes(), raw.DataLength())
+}
 
-	d.shape = make([]int, raw.ShapeLength())
-	for i := 0; i < raw.ShapeLength(); i++ {
-		d.shape[i] = int(raw.Shape(i))
+// setUnmarshaled sets the content of the matrix from its decoded parts, as long
+// as they are consistent.
+func (d *Dense[T]) setUnmarshaled(requiresGrad bool, dims int, dim func(int) int32, data []byte, length int) error {
+	if dims != 2 {
+		return fmt.Errorf("mat: malformed data: %d dimensions", dims)
 	}
-
-	d.data = bytesToSlice[T](raw.DataBytes(), raw.DataLength())
+	shape := []int{int(dim(0)), int(dim(1))}
+	if shape[0] < 0 || shape[1] < 0 || shape[0]*shape[1] != length {
+		return fmt.Errorf("mat: malformed data: %d elements with shape %v", length, shape)
+	}
+	d.requiresGrad = requiresGrad
+	d.shape = shape
+	d.data = bytesToSlice[T](data, length)
 	return nil
 }
 
+// bytesToSlice returns a new slice with a copy of the elements in b.
 func bytesToSlice[T any](b []byte, length int) []T {
-	if len(b) == 0 {
-		return []T{}
+	s := make([]T, length)
+	if length > 0 {
+		copy(unsafe.Slice((*byte)(unsafe.Pointer(&s[0])), len(b)), b)
 	}
-	return unsafe.Slice((*T)(unsafe.Pointer(&b[0])), length)
+	return s
 }
-- 
2.43.0


From 40bc94b05186167699f8301472cd8e75107d1d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 20/49] fix: the input activation of the sentence-state LSTM
 uses its own sentence weights

---
 nn/gnn/slstm/slstm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nn/gnn/slstm/slstm.go b/nn/gnn/slstm/slstm.go
index 27ceb12..f3e6724 100644
--- a/nn/gnn/slstm/slstm.go
+++ b/nn/gnn/slstm/slstm.go
@@ -185,7 +185,7 @@ func (m *Model) computeVg(s *State, prevG mat.Tensor) {
 	s.VfPrevG = ag.Mul(m.CellGate.V, prevG)
 	s.VsPrevG = ag.Mul(m.SentCellGate.V, prevG)
 	s.VoPrevG = ag.Mul(m.OutputGate.V, prevG)
-	s.VuPrevG = ag.Mul(m.InputActivation.U, prevG)
+	s.VuPrevG = ag.Mul(m.InputActivation.V, prevG)
 }
 
 func (m *Model) updateHiddenNodes(s *State, prevH []mat.Tensor, prevC []mat.Tensor, prevG mat.Tensor) ([]mat.Tensor, []mat.Tensor) {
-- 
2.43.0


From cd2e6b0abd8e44f975117bf8bfcf6c3f24fb7d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 21/49] fix: back-propagation through the cache of
 self-attention

---
 nn/attention/selfattention/model.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nn/attention/selfattention/model.go b/nn/attention/selfattention/model.go
index fd2faeb..7ced74c 100644
--- a/nn/attention/selfattention/model.go
+++ b/nn/attention/selfattention/model.go
@@ -86,8 +86,9 @@ func (m *Model) Forward(cache Cache, q, x []mat.Tensor) ([]mat.Tensor, []mat.Ten
 		v := m.Value.Forward(x...)
 
 		if hasCache {
-			pk = ag.AppendRows(cache[0], k...)
-			pv = ag.AppendRows(cache[1], v...)
+			// the vectors are appended as rows, so that their gradients have the proper shape
+			pk = ag.AppendRows(cache[0], ag.Map(ag.T, k)...)
+			pv = ag.AppendRows(cache[1], ag.Map(ag.T, v)...)
 		} else {
 			pk = ag.Stack(k...)
 			pv = ag.Stack(v...)
-- 
2.43.0


From 635376105fe4125de46b14b0ee3017cad46d96dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 22/49] fix: causal attention with cached keys lets each query
 see the positions before it

---
 nn/attention/attention.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nn/attention/attention.go b/nn/attention/attention.go
index 511f5a0..b054038 100644
--- a/nn/attention/attention.go
+++ b/nn/attention/attention.go
@@ -22,6 +22,8 @@ func ScaledDotProductAttention(q []mat.Tensor, k, v, scaleFactor mat.Tensor, use
 
 	causalMaskEnabled := useCausalMask && len(q) > 1
 	kRows := k.Value().Shape()[0]
+	// the queries are at the end of the sequence: with cached keys, they are preceded by the cached positions
+	past := max(0, kRows-len(q))
 
 	kqi := make([]mat.Tensor, len(q))
 	for i, qi := range q {
@@ -32,7 +34,7 @@ func ScaledDotProductAttention(q []mat.Tensor, k, v, scaleFactor mat.Tensor, use
 		scores := ag.ProdScalar(kqii, scaleFactor)
 
 		if causalMaskEnabled {
-			causalMask := k.Value().(mat.Matrix).NewMatrix(mat.WithBacking(makeCausalMask(i, kRows))) // TODO: use external cache for causal mask?
+			causalMask := k.Value().(mat.Matrix).NewMatrix(mat.WithBacking(makeCausalMask(past+i, kRows))) // TODO: use external cache for causal mask?
 			scores = ag.Add(scores, causalMask)
 		}
 
-- 
2.43.0


From 6583de8589b8775b6f8cea87c4f76f0509aeea36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 23/49] fix: multi-head attention does not overwrite the
 operands of its concatenations

---
 nn/attention/multiheadattention/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nn/attention/multiheadattention/model.go b/nn/attention/multiheadattention/model.go
index 546a885..f182ae1 100644
--- a/nn/attention/multiheadattention/model.go
+++ b/nn/attention/multiheadattention/model.go
@@ -96,7 +96,7 @@ func (m *Model) Forward(cache Cache, q, x []mat.Tensor) ([]mat.Tensor, [][]mat.T
 func (m *Model) project(heads [][]mat.Tensor, seqLen int) []mat.Tensor {
 	n := len(heads)
 	buf := make([]mat.Tensor, seqLen*n)
-	concat := buf[:0] // shares the same backing array with buf
+	concat := make([]mat.Tensor, 0, seqLen) // not shared with buf, which the operators retain
 
 	for i := 0; i < seqLen; i++ {
 		buf2 := buf[i*n : i*n+n]
-- 
2.43.0


From 6d38c7718ea7311a3e67003d1f65dd71cca8f81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 24/49] fix: crf: compute the total score in log space so that
 large scores cannot overflow

---
 nn/crf/crf.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/nn/crf/crf.go b/nn/crf/crf.go
index c85258d..9702c51 100644
--- a/nn/crf/crf.go
+++ b/nn/crf/crf.go
@@ -65,7 +65,7 @@ func (m *Model) totalScore(predicted []mat.Tensor) mat.Tensor {
 		totalVector = m.totalScoreStep(totalVector, ag.SeparateVec(predicted[i]))
 	}
 	totalVector = m.totalScoreEnd(totalVector)
-	return ag.Log(ag.ReduceSum(ag.Concat(totalVector...)))
+	return ag.LogSumExp(totalVector...)
 }
 
 func (m *Model) totalScoreStart(stepVec mat.Tensor) []mat.Tensor {
@@ -79,24 +79,22 @@ func (m *Model) totalScoreStart(stepVec mat.Tensor) []mat.Tensor {
 func (m *Model) totalScoreEnd(stepVec []mat.Tensor) []mat.Tensor {
 	scores := make([]mat.Tensor, m.Size)
 	for i := 0; i < m.Size; i++ {
-		vecTrans := ag.Add(stepVec[i], ag.At(m.TransitionScores, i+1, 0))
-		scores[i] = ag.Add(scores[i], ag.Exp(vecTrans))
+		scores[i] = ag.Add(stepVec[i], ag.At(m.TransitionScores, i+1, 0))
 	}
 	return scores
 }
 
 func (m *Model) totalScoreStep(totalVec []mat.Tensor, stepVec []mat.Tensor) []mat.Tensor {
 	scores := make([]mat.Tensor, m.Size)
-	for i := 0; i < m.Size; i++ {
-		nodei := totalVec[i]
-		for j := 0; j < m.Size; j++ {
-			vecSum := ag.Add(nodei, stepVec[j])
-			vecTrans := ag.Add(vecSum, ag.At(m.TransitionScores, i+1, j+1))
-			scores[j] = ag.Add(scores[j], ag.Exp(vecTrans))
+	for j := 0; j < m.Size; j++ {
+		// The exponentials are summed in log space, so that they cannot
+		// overflow (or vanish) whatever the magnitude of the scores.
+		paths := make([]mat.Tensor, m.Size)
+		for i := 0; i < m.Size; i++ {
+			vecSum := ag.Add(totalVec[i], stepVec[j])
+			paths[i] = ag.Add(vecSum, ag.At(m.TransitionScores, i+1, j+1))
 		}
-	}
-	for i := 0; i < m.Size; i++ {
-		scores[i] = ag.Log(scores[i])
+		scores[j] = ag.LogSumExp(paths...)
 	}
 	return scores
 }
-- 
2.43.0


From 833f9fec0d1abb591d947ef1bdf2a3be02b98c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 25/49] fix: gradfn: the gradient of Pow with exponent 0 is
 zero, also at zero

---
 mat/gradfn/pow.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mat/gradfn/pow.go b/mat/gradfn/pow.go
index 0d4ab3b..6aa80e3 100644
--- a/mat/gradfn/pow.go
+++ b/mat/gradfn/pow.go
@@ -39,6 +39,12 @@ func (r *Pow[O]) Backward(gy mat.Tensor) error {
 	if !mat.SameDims(r.x.Value(), gy) {
 		return fmt.Errorf("fn: matrices have incompatible dimensions")
 	}
+	if r.x.RequiresGrad() && r.power == 0 {
+		// The function is constant: the general formula would give 0 * Inf
+		// for elements that are zero.
+		r.x.AccGrad(r.x.Value().(mat.Matrix).ZerosLike())
+		return nil
+	}
 	if r.x.RequiresGrad() {
 		gx := r.x.Value().(mat.Matrix).Pow(r.power - 1)
 		gx.ProdScalarInPlace(r.power).ProdInPlace(gy.(mat.Matrix))
-- 
2.43.0


From 695f976d99e24524402916af025dae2a813d7666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 26/49] fix: nn: traversal no longer stops at absent or foreign
 entries, and explores nested containers

---
 nn/traversal.go | 90 ++++++++++++++++++++++++-------------------------
 1 file changed, 45 insertions(+), 45 deletions(-)

diff --git a/nn/traversal.go b/nn/traversal.go
index 90cb188..277a966 100644
--- a/nn/traversal.go
+++ b/nn/traversal.go
@@ -30,26 +30,39 @@ type paramsTraversal struct {
 // walk iterates through all the parameters of m.
 func (pt paramsTraversal) walk(m any) {
 	if m, ok := m.(ParamsTraverser); ok {
-		m.TraverseParams(pt.paramsFunc)
+		if pt.paramsFunc != nil {
+			m.TraverseParams(pt.paramsFunc)
+		}
 		return
 	}
 	forEachField(m, func(field any, name string) {
-		v := reflect.ValueOf(field)
-		switch v.Kind() {
-		case reflect.Struct, reflect.Ptr, reflect.Interface:
-			pt.walkStructOrPtr(field, name)
-		case reflect.Slice, reflect.Array:
-			pt.walkSlice(v, name)
-		case reflect.Map:
-			pt.walkMap(v, name)
-		}
+		pt.walkValue(reflect.ValueOf(field), name)
 	})
 }
 
-func (pt paramsTraversal) walkStructOrPtr(item any, name string) bool {
+// walkValue explores a value of any type. What cannot contain parameters or
+// models, and absent (nil) values, are skipped.
+func (pt paramsTraversal) walkValue(v reflect.Value, name string) {
+	switch v.Kind() {
+	case reflect.Interface:
+		pt.walkValue(v.Elem(), name)
+	case reflect.Struct:
+		pt.walkStructOrPtr(v.Interface(), name)
+	case reflect.Ptr:
+		if !v.IsNil() {
+			pt.walkStructOrPtr(v.Interface(), name)
+		}
+	case reflect.Slice, reflect.Array:
+		pt.walkSlice(v, name)
+	case reflect.Map:
+		pt.walkMap(v, name)
+	}
+}
+
+func (pt paramsTraversal) walkStructOrPtr(item any, name string) {
 	v := reflect.ValueOf(item)
 	if v.Kind() == reflect.Ptr && v.Elem().Kind() != reflect.Struct {
-		return false
+		return
 	}
 	switch itemT := item.(type) {
 	case Module, *Module:
@@ -74,10 +87,7 @@ func (pt paramsTraversal) walkStructOrPtr(item any, name string) bool {
 		}
 	case *sync.Map:
 		pt.walkSyncMap(itemT, name)
-	default:
-		return false
 	}
-	return true
 }
 
 func (pt paramsTraversal) walkSyncMap(i *sync.Map, name string) {
@@ -88,38 +98,27 @@ func (pt paramsTraversal) walkSyncMap(i *sync.Map, name string) {
 		case int:
 			key = fmt.Sprintf("%d", k)
 		default:
-			return false // skip map if the key is not a string or an int
-		}
-
-		name := fmt.Sprintf("%s.%s", name, key)
-		switch reflect.ValueOf(value).Kind() {
-		case reflect.Struct, reflect.Ptr, reflect.Interface:
-			if !pt.walkStructOrPtr(value, name) {
-				return false
-			}
-		default:
-			return false // skip
+			return true // skip the entry if the key is not a string or an int
 		}
+		pt.walkValue(reflect.ValueOf(value), fmt.Sprintf("%s.%s", name, key))
 		return true
 	})
 }
 
 func (pt paramsTraversal) walkSlice(v reflect.Value, name string) {
+	if !canContainParams(v.Type().Elem()) {
+		return // skip
+	}
 	length := v.Len()
 	for i := 0; i < length; i++ {
-		p := v.Index(i)
-		switch p.Kind() {
-		case reflect.Struct, reflect.Ptr, reflect.Interface:
-			if !pt.walkStructOrPtr(p.Interface(), name) {
-				return
-			}
-		default:
-			return // skip
-		}
+		pt.walkValue(v.Index(i), name)
 	}
 }
 
 func (pt paramsTraversal) walkMap(v reflect.Value, name string) {
+	if !canContainParams(v.Type().Elem()) {
+		return // skip
+	}
 	mapRange := v.MapRange()
 	for mapRange.Next() {
 		key := ""
@@ -129,19 +128,20 @@ func (pt paramsTraversal) walkMap(v reflect.Value, name string) {
 		case int:
 			key = fmt.Sprintf("%d", k)
 		default:
-			return // skip map if the key is not a string or an int
+			continue // skip the entry if the key is not a string or an int
 		}
+		pt.walkValue(mapRange.Value(), fmt.Sprintf("%s.%s", name, key))
+	}
+}
 
-		name := fmt.Sprintf("%s.%s", name, key)
-		switch mapRange.Value().Kind() {
-		case reflect.Struct, reflect.Ptr, reflect.Interface:
-			if !pt.walkStructOrPtr(mapRange.Value().Interface(), name) {
-				return
-			}
-		default:
-			return // skip
-		}
+// canContainParams reports whether the items of a container may have to be
+// visited, judging from their type.
+func canContainParams(t reflect.Type) bool {
+	switch t.Kind() {
+	case reflect.Struct, reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Array, reflect.Map:
+		return true
 	}
+	return false
 }
 
 // forEachField calls the paramsFunc for each field of the struct i.
-- 
2.43.0


From bfb44707a1a9c1fb844c5e51df9f98dca51985ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 27/49] fix: nn: visit parameters and modules shared by several
 parts of a model only once

---
 nn/model.go | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/nn/model.go b/nn/model.go
index b3df53e..792eedd 100644
--- a/nn/model.go
+++ b/nn/model.go
@@ -6,6 +6,7 @@ package nn
 
 import (
 	"context"
+	"reflect"
 
 	"github.com/nlpodyssey/spago/mat"
 )
@@ -18,6 +19,7 @@ type Model interface {
 // Apply fn recursively to every sub-models as well as self.
 // Typical use includes initializing the parameters of a model.
 func Apply(m Model, fn func(model Model)) {
+	fn = modelsOnce(fn)
 	fn(m)
 	paramsTraversal{
 		paramsFunc:       nil,
@@ -35,13 +37,13 @@ func Parameters(m Model) ParamChannelFunc {
 		go func() {
 			defer close(paramChan)
 			paramsTraversal{
-				paramsFunc: func(param *Param) {
+				paramsFunc: paramsOnce(func(param *Param) {
 					select {
 					case <-ctx.Done():
 						return // Stop sending to the channel if context is done
 					case paramChan <- param:
 					}
-				},
+				}),
 				modelsFunc:       nil,
 				exploreSubModels: true,
 			}.walk(m)
@@ -74,7 +76,7 @@ func StreamParams(params []*Param) ParamChannelFunc {
 // ForEachParam iterate all the parameters of a model also exploring the sub-parameters recursively.
 func ForEachParam(m Model, fn func(param *Param)) {
 	paramsTraversal{
-		paramsFunc:       fn,
+		paramsFunc:       paramsOnce(fn),
 		modelsFunc:       nil,
 		exploreSubModels: true,
 	}.walk(m)
@@ -83,12 +85,40 @@ func ForEachParam(m Model, fn func(param *Param)) {
 // ForEachParamStrict iterate all the parameters of a model without exploring the sub-models.
 func ForEachParamStrict(m Model, fn func(param *Param)) {
 	paramsTraversal{
-		paramsFunc:       fn,
+		paramsFunc:       paramsOnce(fn),
 		modelsFunc:       nil,
 		exploreSubModels: false,
 	}.walk(m)
 }
 
+// paramsOnce wraps fn so that a parameter shared by several parts of a model
+// (e.g. tied weights) is visited only once.
+func paramsOnce(fn func(param *Param)) func(param *Param) {
+	visited := make(map[*Param]struct{})
+	return func(param *Param) {
+		if _, ok := visited[param]; ok {
+			return
+		}
+		visited[param] = struct{}{}
+		fn(param)
+	}
+}
+
+// modelsOnce wraps fn so that a model shared (by pointer) by several parts of
+// another model is visited only once.
+func modelsOnce(fn func(model Model)) func(model Model) {
+	visited := make(map[Model]struct{})
+	return func(model Model) {
+		if reflect.ValueOf(model).Kind() == reflect.Ptr {
+			if _, ok := visited[model]; ok {
+				return
+			}
+			visited[model] = struct{}{}
+		}
+		fn(model)
+	}
+}
+
 // ZeroGrad set the gradients of all model's parameters (including sub-params) to zeros.
 func ZeroGrad(m Model) {
 	ForEachParam(m, func(param *Param) {
-- 
2.43.0


From 141de33d5753c4d5f465442911a2c2ce9a53911b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 28/49] fix: optimizers: Optimize waits for all the updates it
 started

---
 optimizers/optimizer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/optimizers/optimizer.go b/optimizers/optimizer.go
index 2da4d08..6fc2098 100644
--- a/optimizers/optimizer.go
+++ b/optimizers/optimizer.go
@@ -42,11 +42,15 @@ func (o *Optimizer) Optimize() error {
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
 
-	for param := range o.parameters(ctx) {
+	params := o.parameters(ctx)
+	for param := range params {
 		select {
 		case err := <-errCh:
 			cancel()  // As soon as an error occurs, stop the iteration over parameters
 			wg.Wait() // Wait for running goroutines to finish
+			for range params {
+				// Wait for the iteration over parameters to end
+			}
 			return err
 		default:
 			param := param
@@ -68,6 +72,7 @@ func (o *Optimizer) Optimize() error {
 		}
 	}
 
+	wg.Wait() // Wait for running goroutines to finish
 	close(errCh)
 
 	if err, ok := <-errCh; ok {
-- 
2.43.0


From 323516b2f233f1bc346be0c45111d062bac61110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 29/49] fix: decay: the exponential schedule stays at the final
 rate once it is over

---
 optimizers/decay/exponential/exponential.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optimizers/decay/exponential/exponential.go b/optimizers/decay/exponential/exponential.go
index 0b6a327..2f6031d 100644
--- a/optimizers/decay/exponential/exponential.go
+++ b/optimizers/decay/exponential/exponential.go
@@ -30,6 +30,9 @@ func New(init, final float64, iter int) *Exponential {
 // Decay calculates the decay of the learning rate lr at time t.
 func (d *Exponential) Decay(lr float64, t int) float64 {
 	if t > 1 && lr > d.final {
+		if t >= d.times {
+			return d.final // the schedule is over (the general formula is not defined past its end)
+		}
 		return math.Exp((float64(d.times-t)*math.Log(lr) + math.Log(d.final)) / float64(d.times-t+1))
 	}
 	return lr
-- 
2.43.0


From 7a3a70ac14820d641c23ff5b98666144d214dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 30/49] fix: decay: the hyperbolic schedule does not drop below
 its final rate

---
 optimizers/decay/hyperbolic/hyperbolic.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optimizers/decay/hyperbolic/hyperbolic.go b/optimizers/decay/hyperbolic/hyperbolic.go
index bdb9fcb..dfb3988 100644
--- a/optimizers/decay/hyperbolic/hyperbolic.go
+++ b/optimizers/decay/hyperbolic/hyperbolic.go
@@ -4,6 +4,8 @@
 
 package hyperbolic
 
+import "math"
+
 // Hyperbolic defines an hyperbolic decay depending on the time step
 //
 //	lr = lr / (1 + rate*t).
@@ -28,7 +30,7 @@ func New(init, final, rate float64) *Hyperbolic {
 // Decay calculates the decay of the learning rate lr at time t.
 func (d *Hyperbolic) Decay(lr float64, t int) float64 {
 	if t > 1 && d.rate > 0.0 && lr > d.final {
-		return d.init / (1.0 + d.rate*float64(t))
+		return math.Max(d.final, d.init/(1.0+d.rate*float64(t)))
 	}
 	return lr
 }
-- 
2.43.0


From d9cef52d8594367e77dca4f47c56d0cb35c2932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:50 +0000
Subject: [PATCH 31/49] fix: gradclipper: ignore the parameters without
 gradients

---
 optimizers/gradclipper/clipper.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optimizers/gradclipper/clipper.go b/optimizers/gradclipper/clipper.go
index 95ee09a..93d2154 100644
--- a/optimizers/gradclipper/clipper.go
+++ b/optimizers/gradclipper/clipper.go
@@ -82,7 +82,9 @@ func collectGradients(parameters nn.ParamChannelFunc) []mat.Tensor {
 
 	var allGrads []mat.Tensor
 	for param := range parameters(ctx) {
-		allGrads = append(allGrads, param.Grad())
+		if param.HasGrad() {
+			allGrads = append(allGrads, param.Grad())
+		}
 	}
 	return allGrads
 }
-- 
2.43.0


From 38208d755f04ebbd119e7a2ae7144c4a5a295a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 32/49] fix: gradclipper: the global norm cannot overflow, and
 gradients within the bound are left alone

---
 optimizers/gradclipper/clipper.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/optimizers/gradclipper/clipper.go b/optimizers/gradclipper/clipper.go
index 93d2154..778debe 100644
--- a/optimizers/gradclipper/clipper.go
+++ b/optimizers/gradclipper/clipper.go
@@ -46,16 +46,19 @@ func (c *NormClipper) validateNormType() {
 // calculateTotalNorm calculates the total norm based on NormType and matrices gs.
 func (c *NormClipper) calculateTotalNorm(gs []mat.Tensor) float64 {
 	var totalNorm float64
-	if math.IsInf(c.NormType, 1) {
-		for _, g := range gs {
-			totalNorm = math.Max(g.(mat.Matrix).Abs().Max().Item().F64(), totalNorm)
-		}
-	} else {
+	for _, g := range gs {
+		totalNorm = math.Max(g.(mat.Matrix).Abs().Max().Item().F64(), totalNorm)
+	}
+	if !math.IsInf(c.NormType, 1) && totalNorm > 0 && !math.IsInf(totalNorm, 1) {
+		// The elements are scaled by the largest one, so that their powers
+		// cannot overflow.
 		var sum float64
 		for _, g := range gs {
-			sum += g.(mat.Matrix).Abs().Pow(c.NormType).Sum().Item().F64()
+			for _, v := range g.Data().F64() {
+				sum += math.Pow(math.Abs(v)/totalNorm, c.NormType)
+			}
 		}
-		totalNorm = math.Pow(sum, 1/c.NormType)
+		totalNorm *= math.Pow(sum, 1/c.NormType)
 	}
 	return totalNorm
 }
@@ -68,7 +71,7 @@ func (c *NormClipper) ClipGradients(parameters nn.ParamChannelFunc) {
 	totalNorm := c.calculateTotalNorm(grads)
 
 	clipCoeff := c.MaxNorm / (totalNorm + 1e-7)
-	if clipCoeff < 1.0 {
+	if totalNorm > c.MaxNorm && clipCoeff < 1.0 {
 		for _, g := range grads {
 			g.(mat.Matrix).ProdScalarInPlace(clipCoeff)
 		}
-- 
2.43.0


From 3e80790d93d1b2a4b0f9f20e18beaf4ffb80ebd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 33/49] fix: embedding: a decoded table accumulates gradients,
 and traversal follows the gradients and is safe

---
 nn/embedding/embedding.go |  3 +++
 nn/embedding/model.go     | 26 ++++++++++++++++++++++----
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/nn/embedding/embedding.go b/nn/embedding/embedding.go
index 9652c70..8540994 100644
--- a/nn/embedding/embedding.go
+++ b/nn/embedding/embedding.go
@@ -19,6 +19,9 @@ type Embedding struct {
 func (e *Embedding) AccGrad(gx mat.Tensor) {
 	e.m.mu.Lock()
 	defer e.m.mu.Unlock()
+	if e.m.embedGradIdx == nil { // the model was decoded
+		e.m.embedGradIdx = make(map[int]struct{})
+	}
 	e.m.embedGradIdx[e.idx] = struct{}{}
 	e.Param.AccGrad(gx)
 }
diff --git a/nn/embedding/model.go b/nn/embedding/model.go
index 4370535..a55e5a9 100644
--- a/nn/embedding/model.go
+++ b/nn/embedding/model.go
@@ -49,11 +49,31 @@ func New[T float.DType](size int, dim int) *Model {
 
 // TraverseParams allows embeddings with gradients to be traversed for optimization.
 func (m *Model) TraverseParams(callback func(param *nn.Param)) {
-	for idx := range m.embedGradIdx {
+	for _, idx := range m.embedWithGrad() {
 		callback(m.Weights[idx])
 	}
 }
 
+// embedWithGrad returns the indices of the embeddings which have gradients,
+// forgetting those whose gradients were zeroed directly on the parameter
+// (e.g. by the optimizer).
+func (m *Model) embedWithGrad() []int {
+	if m == nil {
+		return nil
+	}
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	indices := make([]int, 0, len(m.embedGradIdx))
+	for idx := range m.embedGradIdx {
+		if !m.Weights[idx].HasGrad() {
+			delete(m.embedGradIdx, idx)
+			continue
+		}
+		indices = append(indices, idx)
+	}
+	return indices
+}
+
 func (m *Model) Embedding(idx int) (*Embedding, error) {
 	if idx < 0 || idx >= m.Size {
 		return nil, nn.ErrInvalidIndex
@@ -102,9 +122,7 @@ func (m *Model) checkInput(input []int) error {
 }
 
 func (m *Model) CountEmbedWithGrad() int {
-	m.mu.Lock()
-	defer m.mu.Unlock()
-	return len(m.embedGradIdx)
+	return len(m.embedWithGrad())
 }
 
 func (m *Model) ZeroGrad() {
-- 
2.43.0


From c790e38d1878ff4056de2de98cfb2192fbb5d5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 34/49] fix: Param.ReplaceValue keeps requiring gradients and
 does not alias the given value

---
 nn/param.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nn/param.go b/nn/param.go
index 21c6b5e..6c76e36 100644
--- a/nn/param.go
+++ b/nn/param.go
@@ -30,7 +30,12 @@ func (p *Param) WithGrad(value bool) *Param {
 	return p
 }
 
+// ReplaceValue sets a new value, discarding the gradients and the support
+// structure for the optimization algorithm. As with NewParam, the value is
+// copied; whether the param requires gradients does not change.
 func (p *Param) ReplaceValue(value mat.Matrix) {
-	p.Matrix = value
+	requiresGrad := p.Matrix == nil || p.RequiresGrad()
+	p.Matrix = value.Clone()
+	p.SetRequiresGrad(requiresGrad)
 	p.State = nil
 }
-- 
2.43.0


From 3d38ace9347efb0afb361b98c39b62833359fa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 35/49] fix: adam: AdamW remains AdamW after being saved and
 loaded

---
 optimizers/adam/adam.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/optimizers/adam/adam.go b/optimizers/adam/adam.go
index 4a494de..045db6b 100644
--- a/optimizers/adam/adam.go
+++ b/optimizers/adam/adam.go
@@ -73,7 +73,6 @@ type Adam struct {
 	Config
 	Alpha    float64
 	TimeStep int
-	adamw    bool
 }
 
 // New returns a new Adam optimizer, initialized according to the given configuration.
@@ -81,7 +80,6 @@ func New(c Config) *Adam {
 	adam := &Adam{
 		Config: c,
 		Alpha:  c.StepSize,
-		adamw:  c.Lambda != 0.0,
 	}
 	adam.IncExample() // initialize 'alpha' coefficient
 	return adam
@@ -172,7 +170,7 @@ func (o *Adam) OptimizeParams(param *nn.Param) error {
 		return fmt.Errorf("unsupported state type: %T, expected %T", param.State, &State{})
 	}
 
-	if o.adamw {
+	if o.Lambda != 0.0 { // AdamW
 		param.SubInPlace(o.calculateParamUpdateW(param.Grad().(mat.Matrix), state, param.Value().(mat.Matrix)))
 		param.ZeroGrad()
 		return nil
-- 
2.43.0


From 2c7af7012f12f4972a5917b769f74ebf883fb313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 36/49] fix: mlpmixer: register FeedForward so that it can be
 saved like the other models

---
 nn/mlpmixer/feedforward.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nn/mlpmixer/feedforward.go b/nn/mlpmixer/feedforward.go
index 26406b8..43479b9 100644
--- a/nn/mlpmixer/feedforward.go
+++ b/nn/mlpmixer/feedforward.go
@@ -5,6 +5,8 @@
 package mlpmixer
 
 import (
+	"encoding/gob"
+
 	"github.com/nlpodyssey/spago/mat"
 	"github.com/nlpodyssey/spago/mat/float"
 	"github.com/nlpodyssey/spago/nn"
@@ -18,6 +20,10 @@ type FeedForward struct {
 	Layers nn.ModuleList[nn.StandardModel]
 }
 
+func init() {
+	gob.Register(&FeedForward{})
+}
+
 func newFeedForward[T float.DType](dim, hiddenDim int, act activation.Activation, dropout T) *FeedForward {
 	return &FeedForward{
 		Layers: []nn.StandardModel{
-- 
2.43.0


From 07d7a633670bc5c255d08c26acfae551282ba42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 37/49] fix: rand: unique random values can be zero

The result was searched in whole, with its elements that are yet to be
chosen: 0 was never selected, and selecting all values never ended.
---
 mat/rand/misc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/rand/misc.go b/mat/rand/misc.go
index b6bf3ce..e94b47c 100644
--- a/mat/rand/misc.go
+++ b/mat/rand/misc.go
@@ -51,7 +51,7 @@ func GetUniqueRandomInt(n, max int, valid func(r int) bool) []int {
 	a := make([]int, n)
 	for i := 0; i < n; i++ {
 		r := rand.Intn(max) // Warning: use global rand
-		for !valid(r) || contains(a, r) {
+		for !valid(r) || contains(a[:i], r) {
 			r = rand.Intn(max) // Warning: use global rand
 		}
 		a[i] = r
@@ -67,7 +67,7 @@ func GetUniqueRandomIndices(n int, indices []int, valid func(r int) bool) []int
 		// The generic type is irrelevant, since the given generator is nil.
 		// TODO: ugly API of ShuffleInPlace to be refactored
 		r := ShuffleInPlace(indices, nil)[0] // Warning: use global rand
-		for !valid(r) || contains(a, r) {
+		for !valid(r) || contains(a[:i], r) {
 			r = ShuffleInPlace(indices, nil)[0] // Warning: use global rand
 		}
 		a[i] = r
-- 
2.43.0


From e4779a39d2f119c00737617207b637b8fda3bd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 38/49] fix: rand: a rejected call does not leave the generator
 locked

Calls that panic (e.g. Intn(0)) kept the lock: whoever used the generator
next waited forever.
---
 mat/rand/lockedrand.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mat/rand/lockedrand.go b/mat/rand/lockedrand.go
index c51c5f8..c1d367e 100644
--- a/mat/rand/lockedrand.go
+++ b/mat/rand/lockedrand.go
@@ -71,8 +71,8 @@ func (lr *LockedRand) Uint64() (n uint64) {
 // for any n that is not a power of 2.
 func (lr *LockedRand) Uint64n(n uint64) uint64 {
 	lr.lk.Lock()
+	defer lr.lk.Unlock() // the call may panic
 	n = lr.r.Uint64n(n)
-	lr.lk.Unlock()
 	return n
 }
 
@@ -96,8 +96,8 @@ func (lr *LockedRand) Int() (n int) {
 // It panics if n <= 0.
 func (lr *LockedRand) Int63n(n int64) (r int64) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock() // the call may panic
 	r = lr.r.Int63n(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -105,8 +105,8 @@ func (lr *LockedRand) Int63n(n int64) (r int64) {
 // It panics if n <= 0.
 func (lr *LockedRand) Int31n(n int32) (r int32) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock() // the call may panic
 	r = lr.r.Int31n(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -114,8 +114,8 @@ func (lr *LockedRand) Int31n(n int32) (r int32) {
 // It panics if n <= 0.
 func (lr *LockedRand) Intn(n int) (r int) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock() // the call may panic
 	r = lr.r.Intn(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -149,8 +149,8 @@ func (lr *LockedRand) Float64() (n float64) {
 // Perm returns, as a slice of n ints, a pseudo-random permutation of the integers [0,n).
 func (lr *LockedRand) Perm(n int) (r []int) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock() // the call may panic
 	r = lr.r.Perm(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -169,6 +169,6 @@ func (lr *LockedRand) Read(p []byte) (n int, err error) {
 // swap swaps the elements with indexes i and j.
 func (lr *LockedRand) Shuffle(i int, swap func(i int, j int)) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock() // the call may panic
 	lr.r.Shuffle(i, swap)
-	lr.lk.Unlock()
 }
-- 
2.43.0


From ac93f155c791fd78be3ccdb3105e24cb0bae3db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 39/49] fix: rand: WeightedChoice never selects what has no
 weight

When rounding left the sum of the probabilities below the number drawn, the
first index was returned, even if its probability is zero.
---
 mat/rand/misc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mat/rand/misc.go b/mat/rand/misc.go
index e94b47c..f9bafb6 100644
--- a/mat/rand/misc.go
+++ b/mat/rand/misc.go
@@ -36,13 +36,17 @@ func WeightedChoice[T float.DType](dist []T) int {
 		panic(fmt.Sprintf("rand: unexpected type %T", T(0)))
 	}
 	var cumulativeProb T
+	last := 0 // because of rounding, the probabilities might sum to less than one
 	for i, prob := range dist {
 		cumulativeProb += prob
 		if rnd < cumulativeProb {
 			return i
 		}
+		if prob > 0 {
+			last = i
+		}
 	}
-	return 0
+	return last
 }
 
 // GetUniqueRandomInt generates n mutually exclusive integers up to max, using the default random source.
-- 
2.43.0


From 50310a137994485a4c5d62e93925699484e4eb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 40/49] fix: bernulli: the values are zeros and ones also with
 float32

A number drawn close to one was rounded to 1 in float32, and gave 2.
---
 mat/rand/bernulli/bernulli.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mat/rand/bernulli/bernulli.go b/mat/rand/bernulli/bernulli.go
index 95fff23..ff64e0f 100644
--- a/mat/rand/bernulli/bernulli.go
+++ b/mat/rand/bernulli/bernulli.go
@@ -5,8 +5,6 @@
 package bernulli
 
 import (
-	"math"
-
 	"github.com/nlpodyssey/spago/mat"
 	"github.com/nlpodyssey/spago/mat/float"
 	"github.com/nlpodyssey/spago/mat/rand"
@@ -19,13 +17,11 @@ func Distribution[T float.DType](r, c int, prob T, generator *rand.LockedRand) m
 	dist := uniform.New(0.0, 1.0, generator)
 	for i := 0; i < r; i++ {
 		for j := 0; j < c; j++ {
-			val := T(dist.Next())
-			fl := math.Floor(float64(val))
-			if val < prob {
-				out.SetScalar(float.Interface(fl), i, j)
-			} else {
-				out.SetScalar(float.Interface(fl+1), i, j)
+			val := 1.0
+			if dist.Next() < float64(prob) {
+				val = 0.0
 			}
+			out.SetScalar(float.Interface(val), i, j)
 		}
 	}
 	return out
-- 
2.43.0


From cf2d5405edda955c5de9d27b66b8d9e34630d104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:48 +0000
Subject: [PATCH 41/49] fix: mat: formatting a matrix with a large width does
 not panic

---
 mat/dense_formatting.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mat/dense_formatting.go b/mat/dense_formatting.go
index e8fd840..3cb1bbe 100644
--- a/mat/dense_formatting.go
+++ b/mat/dense_formatting.go
@@ -47,7 +47,11 @@ func (d *Dense[_]) Format(f fmt.State, c rune) {
 // format formats a non-empty Dense matrix
 func (d *Dense[_]) format(f fmt.State, c rune, precision int) {
 	maxWidths, maxWidth := d.formattingMaxColumnsWidth(f, c, precision)
-	spaceBuf := makeSpaceBuffer(maxWidth)
+	maxPadding := 0
+	for _, w := range maxWidths {
+		maxPadding = maxInt(maxPadding, maxInt(w.left, w.right+1))
+	}
+	spaceBuf := makeSpaceBuffer(maxPadding)
 	buf := make([]byte, 0, maxWidth)
 	for row, index := 0, 0; row < d.shape[0]; row++ {
 		rowPrefix, rowSuffix := d.formattingRowPrefixAndSuffix(row)
-- 
2.43.0


From 1473fc8d3dc2f12b4746f6c2b1adeca2b23f511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 42/49] fix: mat: format the elements of a float64 matrix as
 float64, not rounded to float32

---
 mat/dense_formatting.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mat/dense_formatting.go b/mat/dense_formatting.go
index 3cb1bbe..ac16c15 100644
--- a/mat/dense_formatting.go
+++ b/mat/dense_formatting.go
@@ -147,7 +147,11 @@ func (d *Dense[_]) formattingMaxColumnsWidth(
 }
 
 func formatValue[T float.DType](buf []byte, val T, c rune, precision int) []byte {
-	return strconv.AppendFloat(buf[:0], float64(val), byte(c), precision, 32)
+	bitSize := 32
+	if _, ok := any(val).(float64); ok {
+		bitSize = 64
+	}
+	return strconv.AppendFloat(buf[:0], float64(val), byte(c), precision, bitSize)
 }
 
 func maxInt(a, b int) int {
-- 
2.43.0


From 89eff28c01913cad8569026c761a52af38ca3ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 43/49] fix: float: InDelta: NaN is not within delta of a
 number

---
 mat/float/floatslice.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mat/float/floatslice.go b/mat/float/floatslice.go
index 5ad7118..6405181 100644
--- a/mat/float/floatslice.go
+++ b/mat/float/floatslice.go
@@ -106,7 +106,10 @@ func (fs floatSlice[T]) InDelta(other Slice, delta float64) bool {
 	o := SliceValueOf[T](other)
 	_ = o[len(fs)-1]
 	for i, v := range fs {
-		if math.Abs(float64(v-o[i])) > delta {
+		if v == o[i] { // including infinite values
+			continue
+		}
+		if !(math.Abs(float64(v-o[i])) <= delta) { // false also if only one is NaN
 			return false
 		}
 	}
-- 
2.43.0


From 7452e037315735677b83c28737b6a4327c76d1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:24 +0000
Subject: [PATCH 44/49] fix: gradfn: Sqrt passes no gradient where the output
 gradient is zero

At zero the derivative is infinite, and 0 * Inf gave NaN: the gradients
of the normalisation layers for constant vectors were NaN.
---
 mat/gradfn/sqrt.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mat/gradfn/sqrt.go b/mat/gradfn/sqrt.go
index 7af1d75..87b3e0e 100644
--- a/mat/gradfn/sqrt.go
+++ b/mat/gradfn/sqrt.go
@@ -41,6 +41,14 @@ func (r *Sqrt[O]) Backward(gy mat.Tensor) error {
 		gx := r.x.Value().(mat.Matrix).Pow(-.5)
 		gx.ProdScalarInPlace(.5)
 		gx.ProdInPlace(gy.(mat.Matrix))
+		// A zero output gradient propagates nothing, not even where the
+		// derivative is infinite (0 * Inf is NaN).
+		gx.ApplyInPlace(func(i, j int, v float64) float64 {
+			if gy.(mat.Matrix).ScalarAt(i, j).F64() == 0 {
+				return 0
+			}
+			return v
+		}, gx)
 		r.x.AccGrad(gx)
 	}
 	return nil
-- 
2.43.0


From e736ab665686a758abf709f21172b10a6a772f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:51 +0000
Subject: [PATCH 45/49] fix: losses: FocalLoss: no NaN gradients where the
 probability rounds to 1

With 0 < gamma < 1 the derivative of (1-p)^gamma is infinite at p = 1,
and was multiplied by the zero of log p.
---
 losses/losses.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/losses/losses.go b/losses/losses.go
index 5ff529c..5941e25 100644
--- a/losses/losses.go
+++ b/losses/losses.go
@@ -58,10 +58,7 @@ func WeightedCrossEntropy(weights mat.Matrix) func(x mat.Tensor, c int) mat.Tens
 // gamma is the focusing parameter (gamma ≥ 0).
 func FocalLoss(x mat.Tensor, c int, gamma float64) mat.Tensor {
 	ce := CrossEntropy(x, c)
-	p := ag.Exp(ag.Neg(ce))
-	sub := ag.ReverseSub(p, x.Value().(mat.Matrix).NewScalar(1))
-	a := ag.Pow(sub, gamma)
-	return ag.Prod(a, ce)
+	return ag.Prod(focalFactor(x, ce, gamma), ce)
 }
 
 // WeightedFocalLoss implements a variant of the CrossEntropy loss that reduces
@@ -74,14 +71,25 @@ func FocalLoss(x mat.Tensor, c int, gamma float64) mat.Tensor {
 func WeightedFocalLoss(weights mat.Matrix) func(x mat.Tensor, c int, gamma float64) mat.Tensor {
 	return func(x mat.Tensor, c int, gamma float64) mat.Tensor {
 		ce := CrossEntropy(x, c)
-		p := ag.Exp(ag.Neg(ce))
-		sub := ag.ReverseSub(p, x.Value().(mat.Matrix).NewScalar(1.0))
-		b := ag.Pow(sub, gamma)
-		fl := ag.Prod(b, ce)
+		fl := ag.Prod(focalFactor(x, ce, gamma), ce)
 		return ag.ProdScalar(fl, weights.At(c))
 	}
 }
 
+// focalFactor returns the modulating factor (1-p)^gamma, where p is the
+// probability of the gold class, given its cross-entropy.
+func focalFactor(x, ce mat.Tensor, gamma float64) mat.Tensor {
+	sub := ag.ReverseSub(ag.Exp(ag.Neg(ce)), x.Value().(mat.Matrix).NewScalar(1))
+	a := ag.Pow(sub, gamma)
+	if sub.Value().Item().F64() == 0 {
+		// The probability is 1, where the contribution of the factor to the
+		// gradient of the loss vanishes, although the derivative of the power
+		// is infinite for gamma < 1.
+		return ag.StopGrad(a)
+	}
+	return a
+}
+
 // Perplexity computes the perplexity, implemented as exp over the cross-entropy.
 func Perplexity(x mat.Tensor, c int) mat.Tensor {
 	return ag.Exp(CrossEntropy(x, c))
-- 
2.43.0


From dbab22397bc6e863d8f1bbb3b40be93a31cab03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:06 +0000
Subject: [PATCH 46/49] fix: gradfn: SoftPlus: no overflow for a large beta

exp(beta*x) overflowed below the threshold: the value was +Inf and the
gradient NaN.
---
 mat/gradfn/misc.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mat/gradfn/misc.go b/mat/gradfn/misc.go
index 29f6700..ddf40fa 100644
--- a/mat/gradfn/misc.go
+++ b/mat/gradfn/misc.go
@@ -399,7 +399,8 @@ func softPlus(_, _ int, v float64, alpha ...float64) float64 {
 	threshold := alpha[1]
 	beta := alpha[0]
 	if v <= threshold {
-		return (1 / beta) * math.Log(1+math.Exp(beta*v))
+		// exp(beta*v) overflows for large values
+		return (math.Max(0, beta*v) + math.Log1p(math.Exp(-math.Abs(beta*v)))) / beta
 	}
 	if v > threshold {
 		return v
@@ -411,8 +412,7 @@ func softPlusDeriv(_, _ int, v float64, alpha ...float64) float64 {
 	threshold := alpha[1]
 	beta := alpha[0]
 	if v <= threshold {
-		exp := math.Exp(v * beta)
-		return exp / (exp + 1)
+		return 1 / (1 + math.Exp(-v*beta))
 	}
 	if v > threshold {
 		return 1
-- 
2.43.0


From e89f5d9d819b08ae7aa703e63f2bdb49c69d87c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:50 +0000
Subject: [PATCH 47/49] fix: gradfn: Max, Min: on ties the gradient goes to the
 first operand

Where both operands attained the extreme, neither received a gradient:
Max(x, x) passed nothing on.
---
 mat/gradfn/max.go | 2 +-
 mat/gradfn/min.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/gradfn/max.go b/mat/gradfn/max.go
index df37cd8..71654a6 100644
--- a/mat/gradfn/max.go
+++ b/mat/gradfn/max.go
@@ -52,7 +52,7 @@ func (r *Max[O]) Backward(gy mat.Tensor) error {
 	if r.x1.RequiresGrad() {
 		gxData := make([]float64, n)
 		for i := 0; i < n; i++ {
-			if x1vData[i] > x2vData[i] {
+			if x1vData[i] >= x2vData[i] { // on ties the gradient goes to x1
 				gxData[i] = gyData[i]
 			}
 		}
diff --git a/mat/gradfn/min.go b/mat/gradfn/min.go
index b8c2f73..5f5987f 100644
--- a/mat/gradfn/min.go
+++ b/mat/gradfn/min.go
@@ -52,7 +52,7 @@ func (r *Min[O]) Backward(gy mat.Tensor) error {
 	if r.x1.RequiresGrad() {
 		gxData := make([]float64, n)
 		for i := 0; i < n; i++ {
-			if x1vData[i] < x2vData[i] {
+			if x1vData[i] <= x2vData[i] { // on ties the gradient goes to x1
 				gxData[i] = gyData[i]
 			}
 		}
-- 
2.43.0


From ac3e18291a493d84f426c83f2a04a23ee8a749e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:20 +0000
Subject: [PATCH 48/49] fix: gradfn: Div, DivScalar: gradient of tiny and huge
 denominators

The square of the denominator overflowed, or vanished.
---
 mat/gradfn/div.go       | 7 ++++---
 mat/gradfn/divscalar.go | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/mat/gradfn/div.go b/mat/gradfn/div.go
index cb9bc97..f5b7efd 100644
--- a/mat/gradfn/div.go
+++ b/mat/gradfn/div.go
@@ -46,10 +46,11 @@ func (r *Div[O]) Backward(gy mat.Tensor) error {
 		r.x1.AccGrad(gx)
 	}
 	if r.x2.RequiresGrad() {
-		x2sq := r.x2.Value().(mat.Matrix).Prod(r.x2.Value().(mat.Matrix))
-		gx := r.x1.Value().(mat.Matrix).Prod(gy.(mat.Matrix))
+		// the square of x2 might not be representable
+		gx := x1v.Div(x2v)
+		gx.ProdInPlace(gy.(mat.Matrix))
 		gx.ProdScalarInPlace(-1)
-		gx.DivInPlace(x2sq)
+		gx.DivInPlace(x2v)
 		r.x2.AccGrad(gx)
 	}
 	return nil
diff --git a/mat/gradfn/divscalar.go b/mat/gradfn/divscalar.go
index 218cef3..ec6710b 100644
--- a/mat/gradfn/divscalar.go
+++ b/mat/gradfn/divscalar.go
@@ -43,9 +43,10 @@ func (r *DivScalar[O]) Backward(gy mat.Tensor) error {
 	if r.x2.RequiresGrad() {
 		x2 := r.x2.Value().Item().F64()
 
-		a := r.x1.Value().(mat.Matrix).ProdScalar(1 / -(x2 * x2))
+		// the square of x2 might not be representable
+		a := r.x1.Value().(mat.Matrix).ProdScalar(1 / x2)
 		b := gy.(mat.Matrix).Prod(a)
-		gx := b.Sum()
+		gx := b.Sum().ProdScalarInPlace(-1 / x2)
 		r.x2.AccGrad(gx)
 	}
 	return nil
-- 
2.43.0


From 402ddc479fc786fb76bb4ae946f72f155809f226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:03 +0000
Subject: [PATCH 49/49] fix: gradfn: operators keep their own list of operands

Concat, Stack, AppendRows, ScalarMax and At kept the slice of the caller:
using that slice again for other operands changed the graph already built.
---
 mat/gradfn/appendrows.go | 2 +-
 mat/gradfn/at.go         | 2 +-
 mat/gradfn/concat.go     | 4 ++--
 mat/gradfn/scalarmax.go  | 2 +-
 mat/gradfn/stack.go      | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mat/gradfn/appendrows.go b/mat/gradfn/appendrows.go
index a900581..71c8336 100644
--- a/mat/gradfn/appendrows.go
+++ b/mat/gradfn/appendrows.go
@@ -16,7 +16,7 @@ type AppendRows[O mat.Tensor] struct {
 func NewAppendRows[O mat.Tensor](x O, vs ...O) *AppendRows[O] {
 	return &AppendRows[O]{
 		x:  x,
-		vs: vs,
+		vs: append([]O(nil), vs...), // the caller may reuse its slice
 	}
 }
 
diff --git a/mat/gradfn/at.go b/mat/gradfn/at.go
index f640975..1603b8d 100644
--- a/mat/gradfn/at.go
+++ b/mat/gradfn/at.go
@@ -18,7 +18,7 @@ type At[O mat.Tensor] struct {
 func NewAt[O mat.Tensor](x O, indices ...int) *At[O] {
 	return &At[O]{
 		x:       x,
-		indices: indices,
+		indices: append([]int(nil), indices...), // the caller may reuse its slice
 	}
 }
 
diff --git a/mat/gradfn/concat.go b/mat/gradfn/concat.go
index 79d7f8f..502cc0f 100644
--- a/mat/gradfn/concat.go
+++ b/mat/gradfn/concat.go
@@ -19,8 +19,8 @@ type Concat[O mat.Tensor] struct {
 // NewConcat returns a new Concat Function.
 func NewConcat[O mat.Tensor](xs []O) *Concat[O] {
 	return &Concat[O]{
-		xs:    xs,
-		ySize: 0, // assigned during the Forward()
+		xs:    append([]O(nil), xs...), // the caller may reuse its slice
+		ySize: 0,                       // assigned during the Forward()
 	}
 }
 
diff --git a/mat/gradfn/scalarmax.go b/mat/gradfn/scalarmax.go
index 5fc4165..db801ca 100644
--- a/mat/gradfn/scalarmax.go
+++ b/mat/gradfn/scalarmax.go
@@ -19,7 +19,7 @@ type ScalarMax[O mat.Tensor] struct {
 
 // NewScalarMax returns a new ScalarMax Function.
 func NewScalarMax[O mat.Tensor](xs []O) *ScalarMax[O] {
-	return &ScalarMax[O]{xs: xs}
+	return &ScalarMax[O]{xs: append([]O(nil), xs...)} // the caller may reuse its slice
 }
 
 // Operands returns the list of operands.
diff --git a/mat/gradfn/stack.go b/mat/gradfn/stack.go
index 38f92f7..844018f 100644
--- a/mat/gradfn/stack.go
+++ b/mat/gradfn/stack.go
@@ -18,7 +18,7 @@ type Stack[O mat.Tensor] struct {
 
 // NewStack returns a new Stack Function.
 func NewStack[O mat.Tensor](xs []O) *Stack[O] {
-	return &Stack[O]{xs: xs}
+	return &Stack[O]{xs: append([]O(nil), xs...)} // the caller may reuse its slice
 }
 
 // Operands returns the list of operands.
-- 
2.43.0

