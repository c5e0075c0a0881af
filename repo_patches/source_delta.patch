From 2a249039483ab1197164fea3b5f2fcfbddb84350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 01/50] fix: compute the p-norm of a vector from absolute
 values

---
 mat/dense.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/dense.go b/mat/dense.go
index a6f9e72..7e70332 100644
--- a/mat/dense.go
+++ b/mat/dense.go
@@ -1294,7 +1294,7 @@ func (d *Dense[T]) norm(pow float64) float64 {
 	}
 	var s float64
 	for _, x := range d.data {
-		s += math.Pow(float64(x), pow)
+		s += math.Pow(math.Abs(float64(x)), pow)
 	}
 	return math.Pow(s, 1/pow)
 }
-- 
2.43.0


From 3724d1d0ca7610a50106a35d2c085cfcc507d7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 02/50] fix: give every matrix its own shape

The shape slice was shared between a matrix and the results computed from
it, so transposing or reshaping one in place changed the other (Softmax of a
row vector even transposed its input).
---
 mat/dense.go          | 3 ++-
 mat/dense_new.go      | 3 ++-
 mat/gradfn/softmax.go | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/mat/dense.go b/mat/dense.go
index 7e70332..87c9fe2 100644
--- a/mat/dense.go
+++ b/mat/dense.go
@@ -33,7 +33,8 @@ func makeDense[T float.DType](array []T, shape ...int) *Dense[T] {
 		log.Fatalf("mat: incompatible size, expected %d, actual %d", calculateSize(shape), len(array))
 	}
 	return &Dense[T]{
-		shape: shape,
+		// The shape can be modified in place: it must not be shared.
+		shape: append([]int(nil), shape...),
 		data:  array,
 	}
 }
diff --git a/mat/dense_new.go b/mat/dense_new.go
index 7ce9bf2..05c34a2 100644
--- a/mat/dense_new.go
+++ b/mat/dense_new.go
@@ -128,7 +128,8 @@ func adjustShape(shape ...int) []int {
 	if len(shape) == 1 {
 		return []int{shape[0], 1}
 	}
-	return shape
+	// The shape can be modified in place: it must not be shared.
+	return append([]int(nil), shape...)
 }
 
 func newScalar[T float.DType](value T, opts ...OptionsFunc) (*Dense[T], error) {
diff --git a/mat/gradfn/softmax.go b/mat/gradfn/softmax.go
index cc4060c..d1d0c63 100644
--- a/mat/gradfn/softmax.go
+++ b/mat/gradfn/softmax.go
@@ -36,7 +36,7 @@ func (r *Softmax[O]) Forward() (mat.Tensor, error) {
 
 // Backward computes the backward pass.
 func (r *Softmax[O]) Backward(gy mat.Tensor) error {
-	if !mat.SameDims(r.x.Value(), gy) {
+	if !mat.SameDims(r.y, gy) {
 		return fmt.Errorf("fn: matrices have incompatible dimensions")
 	}
 	if r.x.RequiresGrad() {
@@ -51,6 +51,7 @@ func (r *Softmax[O]) Backward(gy mat.Tensor) error {
 			return -(vRow * vCol)
 		})))
 		gx := jb.Mul(gy.(mat.Matrix))
+		gx.ReshapeInPlace(r.x.Value().Shape()...) // the output is always a column vector
 		r.x.AccGrad(gx)
 	}
 	return nil
-- 
2.43.0


From 7faf11b1b2fb6fc78aef32133fc5da722f69b0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 03/50] fix: copy the raw data given to Matrix.NewMatrix, as
 documented

---
 mat/dense.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mat/dense.go b/mat/dense.go
index 87c9fe2..ded8b44 100644
--- a/mat/dense.go
+++ b/mat/dense.go
@@ -1460,7 +1460,9 @@ func (d *Dense[T]) String() string {
 // Rows and columns MUST not be negative, and the length of data MUST be
 // equal to rows*cols, otherwise the method panics.
 func (d *Dense[T]) NewMatrix(opts ...OptionsFunc) Matrix {
-	return NewDense[T](opts...)
+	out := NewDense[T](opts...)
+	out.data = copySlice(out.data)
+	return out
 }
 
 func (d *Dense[T]) NewScalar(v float64, opts ...OptionsFunc) Matrix {
-- 
2.43.0


From 778911390ff11ff3d067d2e04d1bd56f9cb67539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:11 +0000
Subject: [PATCH 04/50] fix: handle overflow, zero, subnormal, infinite and NaN
 values in float32 Exp and Log

The vectorised kernels saturate these values, and the correction of the
logarithm of zero missed most positions, so that the result depended on the
element's position.
---
 mat/internal/matfuncs/exp_amd64.go | 20 +++++++++++++++++
 mat/internal/matfuncs/log_amd64.go | 36 +++++++++++++++++-------------
 2 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/mat/internal/matfuncs/exp_amd64.go b/mat/internal/matfuncs/exp_amd64.go
index 6df735b..0f3e72f 100644
--- a/mat/internal/matfuncs/exp_amd64.go
+++ b/mat/internal/matfuncs/exp_amd64.go
@@ -16,6 +16,10 @@ func Exp32(x, y []float32) {
 		_ = y[len(x)-1]
 		max := len(x) - 8
 		for i := 0; i <= max; i += 8 {
+			if !inExpRange(x[i : i+8]) {
+				exp(x[i:i+8], y[i:i+8])
+				continue
+			}
 			ExpAVX32(x[i:], y[i:])
 		}
 
@@ -30,6 +34,10 @@ func Exp32(x, y []float32) {
 	_ = y[len(x)-1]
 	max := len(x) - 4
 	for i := 0; i <= max; i += 4 {
+		if !inExpRange(x[i : i+4]) {
+			exp(x[i:i+4], y[i:i+4])
+			continue
+		}
 		ExpSSE32(x[i:], y[i:])
 	}
 
@@ -40,6 +48,18 @@ func Exp32(x, y []float32) {
 	}
 }
 
+// inExpRange reports whether the assembly functions can compute the exponential
+// of all the given values: they saturate large values before the result would
+// overflow, and they don't propagate NaN.
+func inExpRange(x []float32) bool {
+	for _, v := range x {
+		if !(v <= 88) {
+			return false
+		}
+	}
+	return true
+}
+
 // Exp64 computes the base-e exponential of each element of x, storing the result in y (64 bits).
 func Exp64(x, y []float64) {
 	exp(x, y)
diff --git a/mat/internal/matfuncs/log_amd64.go b/mat/internal/matfuncs/log_amd64.go
index 90e718c..09ebc96 100644
--- a/mat/internal/matfuncs/log_amd64.go
+++ b/mat/internal/matfuncs/log_amd64.go
@@ -18,15 +18,11 @@ func Log32(x, y []float32) {
 		_ = y[len(x)-1]
 		max := len(x) - 8
 		for i := 0; i <= max; i += 8 {
-			LogAVX32(x[i:], y[i:])
-		}
-
-		if max > 0 {
-			for i, v := range x[:max+1] {
-				if v == 0.0 {
-					y[i] = float32(math.Inf(-1))
-				}
+			if !inLogRange(x[i : i+8]) {
+				log(x[i:i+8], y[i:i+8])
+				continue
 			}
+			LogAVX32(x[i:], y[i:])
 		}
 
 		mod := len(x) % 8
@@ -40,15 +36,11 @@ func Log32(x, y []float32) {
 	_ = y[len(x)-1]
 	max := len(x) - 4
 	for i := 0; i <= max; i += 4 {
-		LogSSE32(x[i:], y[i:])
-	}
-
-	if max > 0 {
-		for i, v := range x[:max+1] {
-			if v == 0.0 {
-				y[i] = float32(math.Inf(-1))
-			}
+		if !inLogRange(x[i : i+4]) {
+			log(x[i:i+4], y[i:i+4])
+			continue
 		}
+		LogSSE32(x[i:], y[i:])
 	}
 
 	mod := len(x) % 4
@@ -58,6 +50,18 @@ func Log32(x, y []float32) {
 	}
 }
 
+// inLogRange reports whether the assembly functions can compute the logarithm
+// of all the given values: they saturate zero, subnormal and infinite values,
+// and they don't propagate NaN.
+func inLogRange(x []float32) bool {
+	for _, v := range x {
+		if !(v >= 0x1p-126 && v <= math.MaxFloat32) {
+			return false
+		}
+	}
+	return true
+}
+
 // Log64 computes the natural logarithm of each element of x, storing the result in y (64 bits).
 func Log64(x, y []float64) {
 	log(x, y)
-- 
2.43.0


From f1b4ad7ad862d09a7fad9a6f631c5e6b1ce376be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:30 +0000
Subject: [PATCH 05/50] fix: avoid overflow in the softplus, swish, mish and
 GELU derivatives

---
 mat/gradfn/misc.go  | 46 +++++++++++++++++++++++++++------------------
 mat/gradfn/swish.go |  6 ++----
 2 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/mat/gradfn/misc.go b/mat/gradfn/misc.go
index 6271685..5645a78 100644
--- a/mat/gradfn/misc.go
+++ b/mat/gradfn/misc.go
@@ -399,7 +399,9 @@ func softPlus(_, _ int, v float64, alpha ...float64) float64 {
 	threshold := alpha[1]
 	beta := alpha[0]
 	if v <= threshold {
-		return (1 / beta) * math.Log(1+math.Exp(beta*v))
+		// log(1 + exp(x)), rearranged so that it doesn't overflow
+		x := beta * v
+		return (1 / beta) * (math.Max(x, 0) + math.Log1p(math.Exp(-math.Abs(x))))
 	}
 	if v > threshold {
 		return v
@@ -411,8 +413,7 @@ func softPlusDeriv(_, _ int, v float64, alpha ...float64) float64 {
 	threshold := alpha[1]
 	beta := alpha[0]
 	if v <= threshold {
-		exp := math.Exp(v * beta)
-		return exp / (exp + 1)
+		return sigmoid(v * beta)
 	}
 	if v > threshold {
 		return 1
@@ -471,14 +472,24 @@ func swishB(_, _ int, v float64, beta ...float64) float64 {
 
 func swishBDeriv(_, _ int, v float64, beta ...float64) float64 {
 	prod := v * beta[0]
-	exp := math.Exp(prod)
-	return exp * (exp + prod + 1) / ((exp + 1) * (exp + 1))
+	s := sigmoid(prod)
+	if s == 0 || s == 1 {
+		return s
+	}
+	return s + prod*s*(1-s)
 }
 
 func swishBBetaDeriv(v, beta float64) float64 {
-	prod := v * beta
-	exp := math.Exp(-prod)
-	return (v * v * exp) / ((exp + 1) * (exp + 1))
+	s := sigmoid(v * beta)
+	if s == 0 || s == 1 {
+		return 0
+	}
+	return v * v * s * (1 - s)
+}
+
+// sigmoid never overflows: the exponential saturates to +Inf or zero.
+func sigmoid(v float64) float64 {
+	return 1 / (1 + math.Exp(-v))
 }
 
 // Reference: "Mish: A Self Regularized Non-Monotonic Neural Activation Function" by Diganta Misra, 2019.
@@ -488,12 +499,8 @@ func mish(_, _ int, v float64) float64 {
 }
 
 func mishDeriv(_, _ int, v float64) float64 {
-	exp := math.Exp(v)
-	exp2 := math.Exp(2 * v)
-	exp3 := math.Exp(3 * v)
-	omega := 4.0*(v+1.0) + 4.0*exp2 + exp3 + exp*(4.0*v+6.0)
-	delta := 2*exp + exp2 + 2.0
-	return exp * (omega / (delta * delta))
+	t := math.Tanh(math.Log(1 + math.Exp(v)))
+	return t + v*sigmoid(v)*(1-t*t)
 }
 
 func gelu(_, _ int, v float64) float64 {
@@ -501,8 +508,11 @@ func gelu(_, _ int, v float64) float64 {
 }
 
 func geluDeriv(_, _ int, x float64) float64 {
-	x3 := math.Pow(x, 3)
-	return 0.5*math.Tanh(0.0356774*x3+0.797885*x) +
-		(0.0535161*x3+0.398942*x)*
-			math.Pow(1.0/math.Cosh(0.0356774*x3+0.797885*x), 2) + 0.5
+	k := math.Sqrt(2 / math.Pi)
+	t := math.Tanh(k * (x + 0.044715*math.Pow(x, 3)))
+	y := 0.5 * (1 + t)
+	if sech2 := 1 - t*t; sech2 > 0 {
+		y += 0.5 * x * sech2 * k * (1 + 3*0.044715*x*x)
+	}
+	return y
 }
diff --git a/mat/gradfn/swish.go b/mat/gradfn/swish.go
index 46925d6..4b6592f 100644
--- a/mat/gradfn/swish.go
+++ b/mat/gradfn/swish.go
@@ -6,7 +6,6 @@ package gradfn
 
 import (
 	"fmt"
-	"math"
 
 	"github.com/nlpodyssey/spago/mat"
 )
@@ -49,7 +48,6 @@ func (l *Swish[O]) Backward(gy mat.Tensor) error {
 }
 
 func swishDeriv(_, _ int, v float64) float64 {
-	exp := math.Exp(v)
-	expPlusOne := exp + 1
-	return exp * (expPlusOne + v) / (expPlusOne * expPlusOne)
+	s := sigmoid(v)
+	return s + v*s*(1-s)
 }
-- 
2.43.0


From edd656435449e1d0d128faaa072e7fe90190039f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 06/50] fix: propagate gradients to the scalar operands of
 activation functions

---
 mat/gradfn/celu.go       |  9 +++++++++
 mat/gradfn/elu.go        |  7 +++++++
 mat/gradfn/leakyrelu.go  |  4 ++++
 mat/gradfn/scalargrad.go | 31 +++++++++++++++++++++++++++++++
 mat/gradfn/selu.go       | 12 ++++++++++++
 mat/gradfn/softplus.go   |  9 +++++++++
 mat/gradfn/softshrink.go | 10 ++++++++++
 mat/gradfn/swishb.go     | 14 ++++----------
 mat/gradfn/threshold.go  |  8 ++++++++
 9 files changed, 94 insertions(+), 10 deletions(-)
 create mode 100644 mat/gradfn/scalargrad.go

diff --git a/mat/gradfn/celu.go b/mat/gradfn/celu.go
index be3fe0e..e3f9b02 100644
--- a/mat/gradfn/celu.go
+++ b/mat/gradfn/celu.go
@@ -6,6 +6,7 @@ package gradfn
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/nlpodyssey/spago/mat"
 )
@@ -45,5 +46,13 @@ func (r *CELU[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	alpha := r.alpha.Value().Item().F64()
+	accScalarGrad(r.alpha, r.x, gy, func(v float64) float64 {
+		if v > 0 {
+			return 0
+		}
+		e := math.Exp(v / alpha)
+		return e - 1 - v/alpha*e
+	})
 	return nil
 }
diff --git a/mat/gradfn/elu.go b/mat/gradfn/elu.go
index cc38b81..d8d4a80 100644
--- a/mat/gradfn/elu.go
+++ b/mat/gradfn/elu.go
@@ -6,6 +6,7 @@ package gradfn
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/nlpodyssey/spago/mat"
 )
@@ -46,5 +47,11 @@ func (r *ELU[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	accScalarGrad(r.alpha, r.x, gy, func(v float64) float64 {
+		if v > 0 {
+			return 0
+		}
+		return math.Exp(v) - 1
+	})
 	return nil
 }
diff --git a/mat/gradfn/leakyrelu.go b/mat/gradfn/leakyrelu.go
index 4899f43..f5d73fa 100644
--- a/mat/gradfn/leakyrelu.go
+++ b/mat/gradfn/leakyrelu.go
@@ -6,6 +6,7 @@ package gradfn
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/nlpodyssey/spago/mat"
 )
@@ -45,5 +46,8 @@ func (r *LeakyReLU[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	accScalarGrad(r.alpha, r.x, gy, func(v float64) float64 {
+		return math.Min(v, 0)
+	})
 	return nil
 }
diff --git a/mat/gradfn/scalargrad.go b/mat/gradfn/scalargrad.go
new file mode 100644
index 0000000..a47bd95
--- /dev/null
+++ b/mat/gradfn/scalargrad.go
@@ -0,0 +1,31 @@
+// Copyright 2020 spaGO Authors. All rights reserved.
+// Use of this source code is governed by a BSD-style
+// license that can be found in the LICENSE file.
+
+package gradfn
+
+import "github.com/nlpodyssey/spago/mat"
+
+// accScalarGrad accumulates the gradient of the scalar operand s of an
+// element-wise function of x, if s requires gradients. The argument deriv
+// is the derivative of one output element with respect to s, given the
+// corresponding element of x.
+func accScalarGrad(s, x, gy mat.Tensor, deriv func(v float64) float64) {
+	if !s.RequiresGrad() {
+		return
+	}
+	gyData := gy.Data().F64()
+	var sum float64
+	for i, v := range x.Value().Data().F64() {
+		sum += gyData[i] * deriv(v)
+	}
+	gs := s.Value().(mat.Matrix).ZerosLike()
+	gs.AddScalarInPlace(sum)
+	s.AccGrad(gs)
+}
+
+// zeroDeriv is the derivative with respect to a parameter, such as a
+// threshold, which the output doesn't depend on.
+func zeroDeriv(float64) float64 {
+	return 0
+}
diff --git a/mat/gradfn/selu.go b/mat/gradfn/selu.go
index 27a0555..0424235 100644
--- a/mat/gradfn/selu.go
+++ b/mat/gradfn/selu.go
@@ -6,6 +6,7 @@ package gradfn
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/nlpodyssey/spago/mat"
 )
@@ -54,5 +55,16 @@ func (r *SELU[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	alpha := r.alpha.Value().Item().F64()
+	scale := r.scale.Value().Item().F64()
+	accScalarGrad(r.alpha, r.x, gy, func(v float64) float64 {
+		if v > 0 {
+			return 0
+		}
+		return scale * (math.Exp(v) - 1)
+	})
+	accScalarGrad(r.scale, r.x, gy, func(v float64) float64 {
+		return selu(0, 0, v, alpha, 1)
+	})
 	return nil
 }
diff --git a/mat/gradfn/softplus.go b/mat/gradfn/softplus.go
index 75008f8..a147373 100644
--- a/mat/gradfn/softplus.go
+++ b/mat/gradfn/softplus.go
@@ -54,5 +54,14 @@ func (r *SoftPlus[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	beta := r.beta.Value().Item().F64()
+	threshold := r.threshold.Value().Item().F64()
+	accScalarGrad(r.beta, r.x, gy, func(v float64) float64 {
+		if v > threshold {
+			return 0
+		}
+		return (v*sigmoid(v*beta) - softPlus(0, 0, v, beta, threshold)) / beta
+	})
+	accScalarGrad(r.threshold, r.x, gy, zeroDeriv)
 	return nil
 }
diff --git a/mat/gradfn/softshrink.go b/mat/gradfn/softshrink.go
index ebfa3e9..14448d2 100644
--- a/mat/gradfn/softshrink.go
+++ b/mat/gradfn/softshrink.go
@@ -44,5 +44,15 @@ func (r *SoftShrink[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	lambda := r.lambda.Value().Item().F64()
+	accScalarGrad(r.lambda, r.x, gy, func(v float64) float64 {
+		if v < -lambda {
+			return 1
+		}
+		if v > lambda {
+			return -1
+		}
+		return 0
+	})
 	return nil
 }
diff --git a/mat/gradfn/swishb.go b/mat/gradfn/swishb.go
index 4f74250..7135da5 100644
--- a/mat/gradfn/swishb.go
+++ b/mat/gradfn/swishb.go
@@ -48,15 +48,9 @@ func (r *SwishB[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
-	if r.beta.RequiresGrad() {
-		gb := r.beta.Value().(mat.Matrix).ZerosLike()
-		// FIXME: avoid casting to specific type
-		for i, x := range r.x.Value().Data().F64() {
-			deriv := swishBBetaDeriv(x, r.beta.Value().Item().F64())
-			gyi := gy.(mat.Matrix).ScalarAt(i).F64()
-			gb.AddScalarInPlace(deriv * gyi)
-		}
-		r.beta.AccGrad(gb)
-	}
+	beta := r.beta.Value().Item().F64()
+	accScalarGrad(r.beta, r.x, gy, func(v float64) float64 {
+		return swishBBetaDeriv(v, beta)
+	})
 	return nil
 }
diff --git a/mat/gradfn/threshold.go b/mat/gradfn/threshold.go
index 16a42b4..8a9e55d 100644
--- a/mat/gradfn/threshold.go
+++ b/mat/gradfn/threshold.go
@@ -55,5 +55,13 @@ func (r *Threshold[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	t := r.threshold.Value().Item().F64()
+	accScalarGrad(r.threshold, r.x, gy, zeroDeriv)
+	accScalarGrad(r.k, r.x, gy, func(v float64) float64 {
+		if v > t {
+			return 0
+		}
+		return 1
+	})
 	return nil
 }
-- 
2.43.0


From 4cfadbcf8b3a92bf8f33fc0fefc128554b4cc5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 07/50] fix: max pooling of negative values and of non-square
 windows

---
 mat/gradfn/maxpooling.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/gradfn/maxpooling.go b/mat/gradfn/maxpooling.go
index 978edc2..9d36e97 100644
--- a/mat/gradfn/maxpooling.go
+++ b/mat/gradfn/maxpooling.go
@@ -52,11 +52,11 @@ func (r *MaxPooling[O]) Forward() (mat.Tensor, error) {
 
 	for row := 0; row < r.y.Shape()[0]; row++ {
 		for col := 0; col < r.y.Shape()[1]; col++ {
-			maximum := math.SmallestNonzeroFloat64
+			maximum := math.Inf(-1)
 
 			maxRows := (row * r.rows) + r.rows
 			for i := row * r.rows; i < maxRows; i++ {
-				maxCols := (col * r.cols) + r.rows
+				maxCols := (col * r.cols) + r.cols
 				for j := col * r.cols; j < maxCols; j++ {
 					// FIXME: avoid casting to specific type
 					val := xv.ScalarAt(i, j).F64()
-- 
2.43.0


From 44765826701f17c977f4713b1baf3795cb278374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 08/50] fix: give operand gradients the shape of the operand

---
 mat/gradfn/concat.go     | 2 +-
 mat/gradfn/max.go        | 4 ++--
 mat/gradfn/min.go        | 4 ++--
 mat/gradfn/reducemean.go | 2 +-
 mat/gradfn/reducesum.go  | 2 +-
 mat/gradfn/reshape.go    | 2 +-
 mat/gradfn/transpose.go  | 2 +-
 7 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/mat/gradfn/concat.go b/mat/gradfn/concat.go
index 2c51eb6..79d7f8f 100644
--- a/mat/gradfn/concat.go
+++ b/mat/gradfn/concat.go
@@ -56,7 +56,7 @@ func (r *Concat[O]) Backward(gy mat.Tensor) error {
 	xs := r.xs
 	for i, gx := range gy.(mat.Matrix).SplitV(sizes...) {
 		if xs[i].RequiresGrad() {
-			xs[i].AccGrad(gx)
+			xs[i].AccGrad(gx.ReshapeInPlace(xs[i].Value().Shape()...))
 		}
 	}
 	return nil
diff --git a/mat/gradfn/max.go b/mat/gradfn/max.go
index 679b574..467ed4c 100644
--- a/mat/gradfn/max.go
+++ b/mat/gradfn/max.go
@@ -56,7 +56,7 @@ func (r *Max[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x1.AccGrad(gx)
 	}
 	if r.x2.RequiresGrad() {
@@ -66,7 +66,7 @@ func (r *Max[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x2v.NewMatrix(mat.WithShape(x2v.Shape()...), mat.WithBacking(gxData))
 		r.x2.AccGrad(gx)
 	}
 
diff --git a/mat/gradfn/min.go b/mat/gradfn/min.go
index aee4a76..7f4feea 100644
--- a/mat/gradfn/min.go
+++ b/mat/gradfn/min.go
@@ -56,7 +56,7 @@ func (r *Min[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x1.AccGrad(gx)
 	}
 	if r.x2.RequiresGrad() {
@@ -66,7 +66,7 @@ func (r *Min[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x2v.NewMatrix(mat.WithShape(x2v.Shape()...), mat.WithBacking(gxData))
 		r.x2.AccGrad(gx)
 	}
 	return nil
diff --git a/mat/gradfn/reducemean.go b/mat/gradfn/reducemean.go
index 142a6fc..dd8c570 100644
--- a/mat/gradfn/reducemean.go
+++ b/mat/gradfn/reducemean.go
@@ -42,7 +42,7 @@ func (r *ReduceMean[O]) Backward(gy mat.Tensor) error {
 		x := r.x.Value().(mat.Matrix)
 		size := x.Size()
 		v := gy.Item().F64() / float64(size)
-		gx := x.NewMatrix(mat.WithShape(size), mat.WithBacking(mat.CreateInitializedSlice(size, v)))
+		gx := x.NewMatrix(mat.WithShape(x.Shape()...), mat.WithBacking(mat.CreateInitializedSlice(size, v)))
 		r.x.AccGrad(gx)
 	}
 	return nil
diff --git a/mat/gradfn/reducesum.go b/mat/gradfn/reducesum.go
index 7c186a4..51b8927 100644
--- a/mat/gradfn/reducesum.go
+++ b/mat/gradfn/reducesum.go
@@ -39,7 +39,7 @@ func (r *ReduceSum[O]) Backward(gy mat.Tensor) error {
 	}
 	if r.x.RequiresGrad() {
 		x := r.x.Value()
-		gx := x.(mat.Matrix).NewMatrix(mat.WithShape(x.Size()), mat.WithBacking(mat.CreateInitializedSlice(x.Size(), gy.Item().F64())))
+		gx := x.(mat.Matrix).NewMatrix(mat.WithShape(x.Shape()...), mat.WithBacking(mat.CreateInitializedSlice(x.Size(), gy.Item().F64())))
 		r.x.AccGrad(gx)
 	}
 	return nil
diff --git a/mat/gradfn/reshape.go b/mat/gradfn/reshape.go
index b38eef6..e9a0b44 100644
--- a/mat/gradfn/reshape.go
+++ b/mat/gradfn/reshape.go
@@ -39,7 +39,7 @@ func (r *Reshape[O]) Forward() (mat.Tensor, error) {
 
 // Backward computes the backward pass.
 func (r *Reshape[O]) Backward(gy mat.Tensor) error {
-	if gy.Shape()[1] != r.cols && gy.Shape()[0] != r.rows {
+	if gy.Shape()[1] != r.cols || gy.Shape()[0] != r.rows {
 		return fmt.Errorf("fn: matrices with not compatible size")
 	}
 	if r.x.RequiresGrad() {
diff --git a/mat/gradfn/transpose.go b/mat/gradfn/transpose.go
index 572bd31..bc0b7eb 100644
--- a/mat/gradfn/transpose.go
+++ b/mat/gradfn/transpose.go
@@ -34,7 +34,7 @@ func (r *Transpose[O]) Forward() (mat.Tensor, error) {
 
 // Backward computes the backward pass.
 func (r *Transpose[O]) Backward(gy mat.Tensor) error {
-	if r.x.Value().Shape()[1] != gy.Shape()[0] && r.x.Value().Shape()[0] != gy.Shape()[1] {
+	if r.x.Value().Shape()[1] != gy.Shape()[0] || r.x.Value().Shape()[0] != gy.Shape()[1] {
 		return fmt.Errorf("fn: matrices have incompatible dimensions")
 	}
 	if r.x.RequiresGrad() {
-- 
2.43.0


From a4366bfcd728252ae9387d8ec1e688b5f342a886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 09/50] fix: ScalarMax of negative values, and its gradient to
 operators which aren't the maximum

---
 mat/gradfn/scalarmax.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/mat/gradfn/scalarmax.go b/mat/gradfn/scalarmax.go
index 3de6fd9..5bad6ca 100644
--- a/mat/gradfn/scalarmax.go
+++ b/mat/gradfn/scalarmax.go
@@ -37,7 +37,7 @@ func (r *ScalarMax[O]) Forward() (mat.Tensor, error) {
 	for i, x := range r.xs {
 		// FIXME: avoid casting to specific type
 		val := x.Value().Item().F64()
-		if val > max {
+		if i == 0 || val > max {
 			max = val
 			argmax = i
 		}
@@ -51,9 +51,19 @@ func (r *ScalarMax[O]) Backward(gy mat.Tensor) error {
 	if !mat.IsScalar(gy) {
 		return fmt.Errorf("fn: the gradient had to be a scalar")
 	}
-	target := r.xs[r.argmax]
-	if target.RequiresGrad() {
-		target.AccGrad(gy)
+	for i, x := range r.xs {
+		if !x.RequiresGrad() {
+			continue
+		}
+		if i == r.argmax {
+			x.AccGrad(gy)
+			continue
+		}
+		// Unlike a matrix, an operator waits for one gradient from each of its
+		// dependents: the zero gradient must be delivered too.
+		if _, ok := mat.Tensor(x).(mat.Matrix); !ok {
+			x.AccGrad(x.Value().(mat.Matrix).ZerosLike())
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 9d73189d23a5a1f52f6812d2ec206bcc092e0d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 10/50] fix: right rotation by zero or by the whole size

---
 mat/gradfn/rotater.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mat/gradfn/rotater.go b/mat/gradfn/rotater.go
index b52ce2f..de5e6e1 100644
--- a/mat/gradfn/rotater.go
+++ b/mat/gradfn/rotater.go
@@ -43,6 +43,9 @@ func (r *RotateR[O]) Backward(gy mat.Tensor) error {
 
 func rotate(m mat.Matrix, i int) mat.Matrix {
 	size := m.Size()
+	if i %= size; i == 0 {
+		return m.Clone()
+	}
 	left := m.Slice(0, 0, i, 1)
 	right := m.Slice(i, 0, size, 1)
 	return m.NewConcatV(right, left)
-- 
2.43.0


From 48751293f1b8c7c034ee1759b517a7384f2ff6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 11/50] fix: SparseMax clipping to the input maximum

---
 mat/gradfn/sparsemax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/gradfn/sparsemax.go b/mat/gradfn/sparsemax.go
index 8c8a85e..1b6f451 100644
--- a/mat/gradfn/sparsemax.go
+++ b/mat/gradfn/sparsemax.go
@@ -39,7 +39,7 @@ func (r *SparseMax[O]) Forward() (mat.Tensor, error) {
 
 	_, _, _, tau := sparseMaxCommon(v)
 
-	v.SubScalarInPlace(tau).ClipInPlace(0, xMax)
+	v.SubScalarInPlace(tau).ClipInPlace(0, 1)
 
 	r.y = v
 	return v, nil
-- 
2.43.0


From b53084c2bd3a2f121fcc093a98a3aa16792726af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 12/50] fix: gradient shape of the column operands of
 AppendRows

---
 ag/operators.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ag/operators.go b/ag/operators.go
index 25e4443..098ffdf 100644
--- a/ag/operators.go
+++ b/ag/operators.go
@@ -39,7 +39,14 @@ func Affine(b, w1, x1 mat.Tensor, wxPairs ...mat.Tensor) mat.Tensor {
 
 // AppendRows returns a new operator node as a result of the gradfn.AppendRows function.
 func AppendRows(x mat.Tensor, vs ...mat.Tensor) mat.Tensor {
-	return NewOperator(gradfn.NewAppendRows(x, vs...)).Run()
+	rows := make([]mat.Tensor, len(vs))
+	for i, v := range vs {
+		rows[i] = v
+		if s := v.Value().Shape(); s[1] == 1 && s[0] > 1 {
+			rows[i] = T(v) // the function yields row gradients
+		}
+	}
+	return NewOperator(gradfn.NewAppendRows(x, rows...)).Run()
 }
 
 // At returns a new operator node as a result of the gradfn.At function.
-- 
2.43.0


From ca62f0dc9e7d145cbc90954cb3d5581f2b48ba87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 13/50] fix: Grad of a matrix without gradients is nil, as
 documented

---
 mat/dense_grad.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mat/dense_grad.go b/mat/dense_grad.go
index 8371618..607a6b7 100644
--- a/mat/dense_grad.go
+++ b/mat/dense_grad.go
@@ -13,6 +13,9 @@ func (d *Dense[T]) Value() Tensor {
 func (d *Dense[T]) Grad() Tensor {
 	d.gradMu.RLock()
 	defer d.gradMu.RUnlock()
+	if d.grad == nil {
+		return nil // avoid a non-nil Tensor holding a nil pointer
+	}
 	return d.grad
 }
 
-- 
2.43.0


From 3b093c08e5c9fa8c8b405537ab8ffa4058869e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 14/50] fix: accumulate gradients of another data type

---
 mat/dense_grad.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mat/dense_grad.go b/mat/dense_grad.go
index 607a6b7..8b418ff 100644
--- a/mat/dense_grad.go
+++ b/mat/dense_grad.go
@@ -25,7 +25,9 @@ func (d *Dense[T]) AccGrad(grad Tensor) {
 	d.gradMu.Lock()
 	defer d.gradMu.Unlock()
 	if d.grad == nil {
-		d.grad = grad.(Matrix).Clone().(*Dense[T])
+		// The gradient may have a different data type
+		d.grad = makeDense(malloc[T](grad.Size()), grad.Shape()...)
+		copy(d.grad.data, Data[T](grad))
 		return
 	}
 	d.grad.AddInPlace(grad.(Matrix))
-- 
2.43.0


From 6721a1de4dee7abba24763223ccc8fccee8f1548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 15/50] fix: a rejected Backward leaves the graph usable

---
 ag/backward.go | 11 ++++++++---
 ag/operator.go | 24 +++++++++++++++---------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/ag/backward.go b/ag/backward.go
index 484a0f3..6bab7bb 100644
--- a/ag/backward.go
+++ b/ag/backward.go
@@ -26,6 +26,13 @@ func Backward(xs ...mat.Tensor) error {
 		return nil
 	}
 
+	// Reject missing gradients before anything is modified, so that the graph stays usable.
+	for _, op := range ops {
+		if err := op.validateOutputGradient(); err != nil {
+			return err
+		}
+	}
+
 	// The three for loops below are intentionally executed in sequence.
 	// These steps must occur in this order, so the loops cannot be combined due to their sequential dependencies.
 
@@ -36,9 +43,7 @@ func Backward(xs ...mat.Tensor) error {
 
 	// 2. Assign the output gradients for each operator.
 	for _, op := range ops {
-		if err := op.assignOutputGradient(); err != nil {
-			return err
-		}
+		op.assignOutputGradient()
 	}
 
 	// 3. Process the backward pass for each operator in parallel using wait groups.
diff --git a/ag/operator.go b/ag/operator.go
index 49e2ce4..35f99c6 100644
--- a/ag/operator.go
+++ b/ag/operator.go
@@ -233,20 +233,26 @@ func (o *Operator) AccGrad(grad mat.Tensor) {
 	}
 }
 
-func (o *Operator) assignOutputGradient() error {
-	grad := o.Value().Grad()
+// validateOutputGradient returns an error if the operator doesn't have output
+// gradients and they can't be assigned automatically.
+func (o *Operator) validateOutputGradient() error {
+	if isNil(o.Value().Grad()) && o.Value().Size() != 1 {
+		return fmt.Errorf("ag: missing gradient for %v", o)
+	}
+	return nil
+}
 
-	if !isNil(grad) {
-		o.pendingGrads--
-		return nil
+func (o *Operator) assignOutputGradient() {
+	if !o.RequiresGrad() {
+		return // not part of the backward pass
 	}
 
-	if o.Value().Size() == 1 {
-		o.AccGrad(o.Value().(mat.Matrix).NewScalar(1.))
-		return nil
+	if !isNil(o.Value().Grad()) {
+		o.pendingGrads--
+		return
 	}
 
-	return fmt.Errorf("ag: missing gradient for %v", o)
+	o.AccGrad(o.Value().(mat.Matrix).NewScalar(1.))
 }
 
 func (o *Operator) prepareBackwardPass() {
-- 
2.43.0


From 92434089f6bbdcf3e45b9c30226a658e65c11094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 16/50] fix: UnmarshalBinary must not retain the caller's data

---
 mat/dense_marshaling.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mat/dense_marshaling.go b/mat/dense_marshaling.go
index 84e8dd6..169d5cb 100644
--- a/mat/dense_marshaling.go
+++ b/mat/dense_marshaling.go
@@ -128,9 +128,14 @@ func (d *Dense[T]) unmarshalBinaryFloat64(data []byte) error {
 	return nil
 }
 
+// bytesToSlice converts raw bytes to a new slice of the given length. The
+// bytes belong to the caller, and they might not be aligned to T.
 func bytesToSlice[T any](b []byte, length int) []T {
-	if len(b) == 0 {
+	if length == 0 {
 		return []T{}
 	}
-	return unsafe.Slice((*T)(unsafe.Pointer(&b[0])), length)
+	y := make([]T, length)
+	size := length * int(unsafe.Sizeof(y[0]))
+	copy(unsafe.Slice((*byte)(unsafe.Pointer(&y[0])), size), b[:size])
+	return y
 }
-- 
2.43.0


From 8edf16cb17e9bae036a7575a3997143c5e63df78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:07 +0000
Subject: [PATCH 17/50] fix: use the V weights for the previous sentence state
 in the S-LSTM input activation

---
 nn/gnn/slstm/slstm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nn/gnn/slstm/slstm.go b/nn/gnn/slstm/slstm.go
index 27ceb12..f3e6724 100644
--- a/nn/gnn/slstm/slstm.go
+++ b/nn/gnn/slstm/slstm.go
@@ -185,7 +185,7 @@ func (m *Model) computeVg(s *State, prevG mat.Tensor) {
 	s.VfPrevG = ag.Mul(m.CellGate.V, prevG)
 	s.VsPrevG = ag.Mul(m.SentCellGate.V, prevG)
 	s.VoPrevG = ag.Mul(m.OutputGate.V, prevG)
-	s.VuPrevG = ag.Mul(m.InputActivation.U, prevG)
+	s.VuPrevG = ag.Mul(m.InputActivation.V, prevG)
 }
 
 func (m *Model) updateHiddenNodes(s *State, prevH []mat.Tensor, prevC []mat.Tensor, prevG mat.Tensor) ([]mat.Tensor, []mat.Tensor) {
-- 
2.43.0


From 0c5e8a5e90cc99d4f842fb6c10dbe268f0998130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:12 +0000
Subject: [PATCH 18/50] fix: do not overwrite the operands of the heads'
 concatenation in multi-head attention

---
 nn/attention/multiheadattention/model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nn/attention/multiheadattention/model.go b/nn/attention/multiheadattention/model.go
index 546a885..d9e182c 100644
--- a/nn/attention/multiheadattention/model.go
+++ b/nn/attention/multiheadattention/model.go
@@ -96,14 +96,14 @@ func (m *Model) Forward(cache Cache, q, x []mat.Tensor) ([]mat.Tensor, [][]mat.T
 func (m *Model) project(heads [][]mat.Tensor, seqLen int) []mat.Tensor {
 	n := len(heads)
 	buf := make([]mat.Tensor, seqLen*n)
-	concat := buf[:0] // shares the same backing array with buf
+	concat := make([]mat.Tensor, seqLen)
 
 	for i := 0; i < seqLen; i++ {
 		buf2 := buf[i*n : i*n+n]
 		for j := 0; j < n; j++ {
 			buf2[j] = heads[j][i]
 		}
-		concat = append(concat, ag.Concat(buf2...))
+		concat[i] = ag.Concat(buf2...)
 	}
 	return m.OutputMerge.Forward(concat...)
 }
-- 
2.43.0


From 0b2aaa2a45afcd3ea2bfe55cc3c9fc5c704e6887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:35 +0000
Subject: [PATCH 19/50] fix: causal mask of queries that follow cached keys

---
 nn/attention/attention.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nn/attention/attention.go b/nn/attention/attention.go
index 511f5a0..e1166ac 100644
--- a/nn/attention/attention.go
+++ b/nn/attention/attention.go
@@ -15,6 +15,8 @@ import (
 // sequence to compute a representation of the same sequence.
 // This method requires that the query, the key and the value vectors have already been obtained
 // from the input sequence. The scaled factor is the square root of the dimension of the key vectors.
+// With the causal mask each query attends to the keys up to its own position; when there are more
+// keys than queries, the queries are those of the last positions.
 func ScaledDotProductAttention(q []mat.Tensor, k, v, scaleFactor mat.Tensor, useCausalMask bool) ([]mat.Tensor, []mat.Tensor) {
 	nodes := make([]mat.Tensor, len(q)*2)
 	attention := nodes[:len(q)]
@@ -22,6 +24,7 @@ func ScaledDotProductAttention(q []mat.Tensor, k, v, scaleFactor mat.Tensor, use
 
 	causalMaskEnabled := useCausalMask && len(q) > 1
 	kRows := k.Value().Shape()[0]
+	firstQuery := max(kRows-len(q), 0) // position of the first query: the keys before it come from a cache
 
 	kqi := make([]mat.Tensor, len(q))
 	for i, qi := range q {
@@ -32,7 +35,7 @@ func ScaledDotProductAttention(q []mat.Tensor, k, v, scaleFactor mat.Tensor, use
 		scores := ag.ProdScalar(kqii, scaleFactor)
 
 		if causalMaskEnabled {
-			causalMask := k.Value().(mat.Matrix).NewMatrix(mat.WithBacking(makeCausalMask(i, kRows))) // TODO: use external cache for causal mask?
+			causalMask := k.Value().(mat.Matrix).NewMatrix(mat.WithBacking(makeCausalMask(firstQuery+i, kRows))) // TODO: use external cache for causal mask?
 			scores = ag.Add(scores, causalMask)
 		}
 
-- 
2.43.0


From 618d1e2fddf8e4a7906de300dd90fe7b50b01f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:17 +0000
Subject: [PATCH 20/50] fix: compute the CRF's total score with the log-sum-exp
 trick

---
 nn/crf/crf.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/nn/crf/crf.go b/nn/crf/crf.go
index c85258d..dc4af38 100644
--- a/nn/crf/crf.go
+++ b/nn/crf/crf.go
@@ -65,7 +65,7 @@ func (m *Model) totalScore(predicted []mat.Tensor) mat.Tensor {
 		totalVector = m.totalScoreStep(totalVector, ag.SeparateVec(predicted[i]))
 	}
 	totalVector = m.totalScoreEnd(totalVector)
-	return ag.Log(ag.ReduceSum(ag.Concat(totalVector...)))
+	return ag.LogSumExp(totalVector...)
 }
 
 func (m *Model) totalScoreStart(stepVec mat.Tensor) []mat.Tensor {
@@ -79,24 +79,20 @@ func (m *Model) totalScoreStart(stepVec mat.Tensor) []mat.Tensor {
 func (m *Model) totalScoreEnd(stepVec []mat.Tensor) []mat.Tensor {
 	scores := make([]mat.Tensor, m.Size)
 	for i := 0; i < m.Size; i++ {
-		vecTrans := ag.Add(stepVec[i], ag.At(m.TransitionScores, i+1, 0))
-		scores[i] = ag.Add(scores[i], ag.Exp(vecTrans))
+		scores[i] = ag.Add(stepVec[i], ag.At(m.TransitionScores, i+1, 0))
 	}
 	return scores
 }
 
 func (m *Model) totalScoreStep(totalVec []mat.Tensor, stepVec []mat.Tensor) []mat.Tensor {
 	scores := make([]mat.Tensor, m.Size)
-	for i := 0; i < m.Size; i++ {
-		nodei := totalVec[i]
-		for j := 0; j < m.Size; j++ {
-			vecSum := ag.Add(nodei, stepVec[j])
-			vecTrans := ag.Add(vecSum, ag.At(m.TransitionScores, i+1, j+1))
-			scores[j] = ag.Add(scores[j], ag.Exp(vecTrans))
+	for j := 0; j < m.Size; j++ {
+		paths := make([]mat.Tensor, m.Size)
+		for i := 0; i < m.Size; i++ {
+			vecSum := ag.Add(totalVec[i], stepVec[j])
+			paths[i] = ag.Add(vecSum, ag.At(m.TransitionScores, i+1, j+1))
 		}
-	}
-	for i := 0; i < m.Size; i++ {
-		scores[i] = ag.Log(scores[i])
+		scores[j] = ag.LogSumExp(paths...)
 	}
 	return scores
 }
-- 
2.43.0


From 5254a4500f489a3ad7c14a60acc6e3e8301518b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:31 +0000
Subject: [PATCH 21/50] fix: parameter traversal must not stop at nil or
 unrelated elements

---
 nn/traversal.go | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/nn/traversal.go b/nn/traversal.go
index 90cb188..1b74767 100644
--- a/nn/traversal.go
+++ b/nn/traversal.go
@@ -30,7 +30,9 @@ type paramsTraversal struct {
 // walk iterates through all the parameters of m.
 func (pt paramsTraversal) walk(m any) {
 	if m, ok := m.(ParamsTraverser); ok {
-		m.TraverseParams(pt.paramsFunc)
+		if pt.paramsFunc != nil {
+			m.TraverseParams(pt.paramsFunc)
+		}
 		return
 	}
 	forEachField(m, func(field any, name string) {
@@ -46,10 +48,12 @@ func (pt paramsTraversal) walk(m any) {
 	})
 }
 
-func (pt paramsTraversal) walkStructOrPtr(item any, name string) bool {
+// walkStructOrPtr visits the given item. Items which are neither parameters
+// nor models, including nil ones, are ignored.
+func (pt paramsTraversal) walkStructOrPtr(item any, name string) {
 	v := reflect.ValueOf(item)
 	if v.Kind() == reflect.Ptr && v.Elem().Kind() != reflect.Struct {
-		return false
+		return
 	}
 	switch itemT := item.(type) {
 	case Module, *Module:
@@ -74,10 +78,7 @@ func (pt paramsTraversal) walkStructOrPtr(item any, name string) bool {
 		}
 	case *sync.Map:
 		pt.walkSyncMap(itemT, name)
-	default:
-		return false
 	}
-	return true
 }
 
 func (pt paramsTraversal) walkSyncMap(i *sync.Map, name string) {
@@ -94,11 +95,7 @@ func (pt paramsTraversal) walkSyncMap(i *sync.Map, name string) {
 		name := fmt.Sprintf("%s.%s", name, key)
 		switch reflect.ValueOf(value).Kind() {
 		case reflect.Struct, reflect.Ptr, reflect.Interface:
-			if !pt.walkStructOrPtr(value, name) {
-				return false
-			}
-		default:
-			return false // skip
+			pt.walkStructOrPtr(value, name)
 		}
 		return true
 	})
@@ -110,9 +107,7 @@ func (pt paramsTraversal) walkSlice(v reflect.Value, name string) {
 		p := v.Index(i)
 		switch p.Kind() {
 		case reflect.Struct, reflect.Ptr, reflect.Interface:
-			if !pt.walkStructOrPtr(p.Interface(), name) {
-				return
-			}
+			pt.walkStructOrPtr(p.Interface(), name)
 		default:
 			return // skip
 		}
@@ -135,9 +130,7 @@ func (pt paramsTraversal) walkMap(v reflect.Value, name string) {
 		name := fmt.Sprintf("%s.%s", name, key)
 		switch mapRange.Value().Kind() {
 		case reflect.Struct, reflect.Ptr, reflect.Interface:
-			if !pt.walkStructOrPtr(mapRange.Value().Interface(), name) {
-				return
-			}
+			pt.walkStructOrPtr(mapRange.Value().Interface(), name)
 		default:
 			return // skip
 		}
-- 
2.43.0


From 16418c115b331a1d54f37ff7551aadb828142b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 22/50] fix: send a parameter shared between sub-models to the
 optimizer only once

---
 nn/model.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nn/model.go b/nn/model.go
index b3df53e..99e24e3 100644
--- a/nn/model.go
+++ b/nn/model.go
@@ -28,14 +28,22 @@ func Apply(m Model, fn func(model Model)) {
 
 type ParamChannelFunc func(ctx context.Context) <-chan *Param
 
+// Parameters returns a function that sends each parameter of the model to a
+// channel, also exploring the sub-models recursively. A parameter which is
+// shared between sub-models is sent only once.
 func Parameters(m Model) ParamChannelFunc {
 	return func(ctx context.Context) <-chan *Param {
 		paramChan := make(chan *Param)
 
 		go func() {
 			defer close(paramChan)
+			visited := make(map[*Param]struct{})
 			paramsTraversal{
 				paramsFunc: func(param *Param) {
+					if _, ok := visited[param]; ok {
+						return
+					}
+					visited[param] = struct{}{}
 					select {
 					case <-ctx.Done():
 						return // Stop sending to the channel if context is done
-- 
2.43.0


From d0d26f6b78a638264f13e571c458898eace0c354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 23/50] fix: Optimize waits for the running updates before it
 returns

---
 optimizers/optimizer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optimizers/optimizer.go b/optimizers/optimizer.go
index 2da4d08..5bb1348 100644
--- a/optimizers/optimizer.go
+++ b/optimizers/optimizer.go
@@ -68,6 +68,7 @@ func (o *Optimizer) Optimize() error {
 		}
 	}
 
+	wg.Wait()
 	close(errCh)
 
 	if err, ok := <-errCh; ok {
-- 
2.43.0


From 44344d8e8b63b8ba9dba92eef620809bc4e1a15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 24/50] fix: gradient clipping ignores parameters without
 gradient

---
 optimizers/gradclipper/clipper.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/optimizers/gradclipper/clipper.go b/optimizers/gradclipper/clipper.go
index 95ee09a..73c608d 100644
--- a/optimizers/gradclipper/clipper.go
+++ b/optimizers/gradclipper/clipper.go
@@ -75,13 +75,16 @@ func (c *NormClipper) ClipGradients(parameters nn.ParamChannelFunc) {
 	}
 }
 
-// collectGradients collects all the gradients from the parameters channel and returns them as a slice.
+// collectGradients collects all the existing gradients from the parameters channel and returns them as a slice.
 func collectGradients(parameters nn.ParamChannelFunc) []mat.Tensor {
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
 
 	var allGrads []mat.Tensor
 	for param := range parameters(ctx) {
+		if !param.HasGrad() {
+			continue
+		}
 		allGrads = append(allGrads, param.Grad())
 	}
 	return allGrads
-- 
2.43.0


From dc469cd1cbffa98dca1acc56f21b11f8c305e115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:52 +0000
Subject: [PATCH 25/50] fix: total gradient norm must not overflow in the
 gradients' own type

---
 optimizers/gradclipper/clipper.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/optimizers/gradclipper/clipper.go b/optimizers/gradclipper/clipper.go
index 73c608d..9c77e03 100644
--- a/optimizers/gradclipper/clipper.go
+++ b/optimizers/gradclipper/clipper.go
@@ -45,19 +45,21 @@ func (c *NormClipper) validateNormType() {
 
 // calculateTotalNorm calculates the total norm based on NormType and matrices gs.
 func (c *NormClipper) calculateTotalNorm(gs []mat.Tensor) float64 {
-	var totalNorm float64
-	if math.IsInf(c.NormType, 1) {
-		for _, g := range gs {
-			totalNorm = math.Max(g.(mat.Matrix).Abs().Max().Item().F64(), totalNorm)
-		}
-	} else {
-		var sum float64
-		for _, g := range gs {
-			sum += g.(mat.Matrix).Abs().Pow(c.NormType).Sum().Item().F64()
+	var maxAbs float64
+	for _, g := range gs {
+		maxAbs = math.Max(g.(mat.Matrix).Abs().Max().Item().F64(), maxAbs)
+	}
+	if math.IsInf(c.NormType, 1) || maxAbs == 0 || math.IsInf(maxAbs, 1) {
+		return maxAbs
+	}
+	// Dividing by the maximum avoids the overflow and underflow of the powers.
+	var sum float64
+	for _, g := range gs {
+		for _, v := range g.Data().F64() {
+			sum += math.Pow(math.Abs(v)/maxAbs, c.NormType)
 		}
-		totalNorm = math.Pow(sum, 1/c.NormType)
 	}
-	return totalNorm
+	return maxAbs * math.Pow(sum, 1/c.NormType)
 }
 
 // ClipGradients clips the gradients, multiplying each parameter by the MaxNorm, divided by n-norm of the overall gradients.
-- 
2.43.0


From 5800e7515a15e392bd8220562cb8864f75b44ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:11 +0000
Subject: [PATCH 26/50] fix: learning-rate decay must end at the final rate

---
 optimizers/decay/exponential/exponential.go | 3 +++
 optimizers/decay/hyperbolic/hyperbolic.go   | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/optimizers/decay/exponential/exponential.go b/optimizers/decay/exponential/exponential.go
index 0b6a327..f7c60c7 100644
--- a/optimizers/decay/exponential/exponential.go
+++ b/optimizers/decay/exponential/exponential.go
@@ -30,6 +30,9 @@ func New(init, final float64, iter int) *Exponential {
 // Decay calculates the decay of the learning rate lr at time t.
 func (d *Exponential) Decay(lr float64, t int) float64 {
 	if t > 1 && lr > d.final {
+		if t >= d.times {
+			return d.final
+		}
 		return math.Exp((float64(d.times-t)*math.Log(lr) + math.Log(d.final)) / float64(d.times-t+1))
 	}
 	return lr
diff --git a/optimizers/decay/hyperbolic/hyperbolic.go b/optimizers/decay/hyperbolic/hyperbolic.go
index bdb9fcb..dfb3988 100644
--- a/optimizers/decay/hyperbolic/hyperbolic.go
+++ b/optimizers/decay/hyperbolic/hyperbolic.go
@@ -4,6 +4,8 @@
 
 package hyperbolic
 
+import "math"
+
 // Hyperbolic defines an hyperbolic decay depending on the time step
 //
 //	lr = lr / (1 + rate*t).
@@ -28,7 +30,7 @@ func New(init, final, rate float64) *Hyperbolic {
 // Decay calculates the decay of the learning rate lr at time t.
 func (d *Hyperbolic) Decay(lr float64, t int) float64 {
 	if t > 1 && d.rate > 0.0 && lr > d.final {
-		return d.init / (1.0 + d.rate*float64(t))
+		return math.Max(d.final, d.init/(1.0+d.rate*float64(t)))
 	}
 	return lr
 }
-- 
2.43.0


From 9e26dcf1f763facc4e26a7ccb8756c71d4285ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 27/50] fix: accumulate gradients on the embeddings of a
 decoded model

---
 nn/embedding/embedding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nn/embedding/embedding.go b/nn/embedding/embedding.go
index 9652c70..2e71154 100644
--- a/nn/embedding/embedding.go
+++ b/nn/embedding/embedding.go
@@ -19,6 +19,9 @@ type Embedding struct {
 func (e *Embedding) AccGrad(gx mat.Tensor) {
 	e.m.mu.Lock()
 	defer e.m.mu.Unlock()
+	if e.m.embedGradIdx == nil { // decoded model
+		e.m.embedGradIdx = make(map[int]struct{})
+	}
 	e.m.embedGradIdx[e.idx] = struct{}{}
 	e.Param.AccGrad(gx)
 }
-- 
2.43.0


From bc9cb01b10b4311f8909f0f350078083fff4761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 28/50] fix: embeddings whose gradient was consumed are no
 longer traversed

---
 nn/embedding/model.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/nn/embedding/model.go b/nn/embedding/model.go
index 4370535..0a17291 100644
--- a/nn/embedding/model.go
+++ b/nn/embedding/model.go
@@ -49,11 +49,27 @@ func New[T float.DType](size int, dim int) *Model {
 
 // TraverseParams allows embeddings with gradients to be traversed for optimization.
 func (m *Model) TraverseParams(callback func(param *nn.Param)) {
-	for idx := range m.embedGradIdx {
+	for _, idx := range m.indicesWithGrad() {
 		callback(m.Weights[idx])
 	}
 }
 
+// indicesWithGrad returns the indices of the embeddings that have a gradient.
+// It forgets the ones whose gradient was zeroed through the parameter itself.
+func (m *Model) indicesWithGrad() []int {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	indices := make([]int, 0, len(m.embedGradIdx))
+	for idx := range m.embedGradIdx {
+		if !m.Weights[idx].HasGrad() {
+			delete(m.embedGradIdx, idx)
+			continue
+		}
+		indices = append(indices, idx)
+	}
+	return indices
+}
+
 func (m *Model) Embedding(idx int) (*Embedding, error) {
 	if idx < 0 || idx >= m.Size {
 		return nil, nn.ErrInvalidIndex
@@ -102,9 +118,7 @@ func (m *Model) checkInput(input []int) error {
 }
 
 func (m *Model) CountEmbedWithGrad() int {
-	m.mu.Lock()
-	defer m.mu.Unlock()
-	return len(m.embedGradIdx)
+	return len(m.indicesWithGrad())
 }
 
 func (m *Model) ZeroGrad() {
-- 
2.43.0


From b9a4067de928b29a989e9f1decc1355934212c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 29/50] fix: the derivative of the power zero is zero
 everywhere

---
 mat/gradfn/pow.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mat/gradfn/pow.go b/mat/gradfn/pow.go
index 0d4ab3b..ce51b5a 100644
--- a/mat/gradfn/pow.go
+++ b/mat/gradfn/pow.go
@@ -40,6 +40,11 @@ func (r *Pow[O]) Backward(gy mat.Tensor) error {
 		return fmt.Errorf("fn: matrices have incompatible dimensions")
 	}
 	if r.x.RequiresGrad() {
+		if r.power == 0 {
+			// The result is constant (0 * x^-1 may not be a number)
+			r.x.AccGrad(r.x.Value().(mat.Matrix).ZerosLike())
+			return nil
+		}
 		gx := r.x.Value().(mat.Matrix).Pow(r.power - 1)
 		gx.ProdScalarInPlace(r.power).ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
-- 
2.43.0


From 0449ad6cafacc444d230aa103d8e456752751e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:53 +0000
Subject: [PATCH 30/50] fix: translate the scores of the sparsemax loss like
 those of sparsemax

---
 mat/gradfn/sparsemax_loss.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mat/gradfn/sparsemax_loss.go b/mat/gradfn/sparsemax_loss.go
index 4a1ca93..c40200d 100644
--- a/mat/gradfn/sparsemax_loss.go
+++ b/mat/gradfn/sparsemax_loss.go
@@ -13,7 +13,8 @@ import (
 // SparseMaxLoss function implementation, based on https://github.com/gokceneraslan/SparseMax.torch
 type SparseMaxLoss[O mat.Tensor] struct {
 	x   O
-	tau float64    // computed during the forward pass
+	max float64    // computed during the forward pass
+	tau float64    // computed during the forward pass, relative to max
 	y   mat.Matrix // computed during forward pass
 }
 
@@ -31,7 +32,11 @@ func (r *SparseMaxLoss[O]) Operands() []mat.Tensor {
 
 // Forward computes the output of the function.
 func (r *SparseMaxLoss[O]) Forward() (mat.Tensor, error) {
-	v := r.x.Value().(mat.Matrix).Clone()
+	x := r.x.Value().(mat.Matrix)
+	r.max = x.Max().Item().F64()
+
+	// translate the input by max for numerical stability
+	v := x.SubScalar(r.max)
 
 	zs, cumSumInput, bounds, tau := sparseMaxCommon(v)
 
@@ -60,7 +65,7 @@ func (r *SparseMaxLoss[O]) Backward(gy mat.Tensor) error {
 		gySum := gy.(mat.Matrix).Sum().Item().F64()
 
 		sparseMax := r.x.Value().(mat.Matrix).Apply(func(_, _ int, v float64) float64 {
-			return math.Max(0, v-tau) * gySum
+			return math.Max(0, v-r.max-tau) * gySum
 		})
 
 		gx := gy.(mat.Matrix).Sub(sparseMax)
-- 
2.43.0


From 3475ad696bbe6b503198211e605d905d4e8d682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:42 +0000
Subject: [PATCH 31/50] fix: compute log-softmax without taking the logarithm
 of an underflowed softmax

---
 ag/operators.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ag/operators.go b/ag/operators.go
index 098ffdf..4194bc5 100644
--- a/ag/operators.go
+++ b/ag/operators.go
@@ -508,7 +508,12 @@ func PositiveELU(x mat.Tensor) mat.Tensor {
 
 // LogSoftmax returns a new operator node as a result of Log(Softmax(x)).
 func LogSoftmax(x mat.Tensor) mat.Tensor {
-	return Log(Softmax(x))
+	if x.Value().Shape()[1] != 1 {
+		x = T(x) // the result of Softmax is a column vector
+	}
+	// The result doesn't depend on the maximum, subtracted for numerical stability
+	x = SubScalar(x, StopGrad(ReduceMax(x)))
+	return SubScalar(x, Log(ReduceSum(Exp(x))))
 }
 
 // LogSumExp "trick" computes the log of the sum of exponentials of input elements.
-- 
2.43.0


From 9b8d86c7f5766256993914dafe6c4e0a48d065dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:10 +0000
Subject: [PATCH 32/50] fix: gradient of the focal loss for a certain
 prediction and gamma below one

---
 losses/losses.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/losses/losses.go b/losses/losses.go
index 5ff529c..80c6f6c 100644
--- a/losses/losses.go
+++ b/losses/losses.go
@@ -59,7 +59,7 @@ func WeightedCrossEntropy(weights mat.Matrix) func(x mat.Tensor, c int) mat.Tens
 func FocalLoss(x mat.Tensor, c int, gamma float64) mat.Tensor {
 	ce := CrossEntropy(x, c)
 	p := ag.Exp(ag.Neg(ce))
-	sub := ag.ReverseSub(p, x.Value().(mat.Matrix).NewScalar(1))
+	sub := positive(ag.ReverseSub(p, x.Value().(mat.Matrix).NewScalar(1)))
 	a := ag.Pow(sub, gamma)
 	return ag.Prod(a, ce)
 }
@@ -75,13 +75,19 @@ func WeightedFocalLoss(weights mat.Matrix) func(x mat.Tensor, c int, gamma float
 	return func(x mat.Tensor, c int, gamma float64) mat.Tensor {
 		ce := CrossEntropy(x, c)
 		p := ag.Exp(ag.Neg(ce))
-		sub := ag.ReverseSub(p, x.Value().(mat.Matrix).NewScalar(1.0))
+		sub := positive(ag.ReverseSub(p, x.Value().(mat.Matrix).NewScalar(1.0)))
 		b := ag.Pow(sub, gamma)
 		fl := ag.Prod(b, ce)
 		return ag.ProdScalar(fl, weights.At(c))
 	}
 }
 
+// positive replaces zero with a tiny value, at which a power with exponent
+// less than one has a finite derivative.
+func positive(x mat.Tensor) mat.Tensor {
+	return ag.Max(x, x.Value().(mat.Matrix).NewScalar(1e-30))
+}
+
 // Perplexity computes the perplexity, implemented as exp over the cross-entropy.
 func Perplexity(x mat.Tensor, c int) mat.Tensor {
 	return ag.Exp(CrossEntropy(x, c))
-- 
2.43.0


From 5ddf9d219b40f981107824f7b8fa07c812c612f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:12 +0000
Subject: [PATCH 33/50] fix: NLL of predictions with zeros outside the target
 class

---
 losses/losses.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/losses/losses.go b/losses/losses.go
index 80c6f6c..669982e 100644
--- a/losses/losses.go
+++ b/losses/losses.go
@@ -30,6 +30,15 @@ func MSE(x mat.Tensor, y mat.Tensor, reduceMean bool) mat.Tensor {
 // NLL returns the loss of the input x respect to the target y.
 // The target is expected to be a one-hot vector.
 func NLL(x mat.Tensor, y mat.Tensor) mat.Tensor {
+	// Where the target is zero the logarithm, possibly infinite, doesn't count
+	unused := y.Value().(mat.Matrix).Apply(func(_, _ int, v float64) float64 {
+		if v == 0 {
+			return 1
+		}
+		return 0
+	})
+	used := unused.ProdScalar(-1).AddScalarInPlace(1)
+	x = ag.Add(ag.Prod(x, used), unused)
 	return ag.Neg(ag.ReduceSum(ag.Prod(y, ag.Log(x))))
 }
 
-- 
2.43.0


From f02ad6e924ed730aca60dc45c87908a792337312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 34/50] fix: let unique random choices include 0 and the zero
 of unfilled slots

---
 mat/rand/misc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/rand/misc.go b/mat/rand/misc.go
index b6bf3ce..e94b47c 100644
--- a/mat/rand/misc.go
+++ b/mat/rand/misc.go
@@ -51,7 +51,7 @@ func GetUniqueRandomInt(n, max int, valid func(r int) bool) []int {
 	a := make([]int, n)
 	for i := 0; i < n; i++ {
 		r := rand.Intn(max) // Warning: use global rand
-		for !valid(r) || contains(a, r) {
+		for !valid(r) || contains(a[:i], r) {
 			r = rand.Intn(max) // Warning: use global rand
 		}
 		a[i] = r
@@ -67,7 +67,7 @@ func GetUniqueRandomIndices(n int, indices []int, valid func(r int) bool) []int
 		// The generic type is irrelevant, since the given generator is nil.
 		// TODO: ugly API of ShuffleInPlace to be refactored
 		r := ShuffleInPlace(indices, nil)[0] // Warning: use global rand
-		for !valid(r) || contains(a, r) {
+		for !valid(r) || contains(a[:i], r) {
 			r = ShuffleInPlace(indices, nil)[0] // Warning: use global rand
 		}
 		a[i] = r
-- 
2.43.0


From 1e765922b466c3e0a9019a96dcb082c636d1555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 35/50] fix: Bernoulli masks hold only 0 and 1 when a draw
 rounds up to 1

---
 mat/rand/bernulli/bernulli.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mat/rand/bernulli/bernulli.go b/mat/rand/bernulli/bernulli.go
index 95fff23..a20edbd 100644
--- a/mat/rand/bernulli/bernulli.go
+++ b/mat/rand/bernulli/bernulli.go
@@ -5,8 +5,6 @@
 package bernulli
 
 import (
-	"math"
-
 	"github.com/nlpodyssey/spago/mat"
 	"github.com/nlpodyssey/spago/mat/float"
 	"github.com/nlpodyssey/spago/mat/rand"
@@ -20,11 +18,10 @@ func Distribution[T float.DType](r, c int, prob T, generator *rand.LockedRand) m
 	for i := 0; i < r; i++ {
 		for j := 0; j < c; j++ {
 			val := T(dist.Next())
-			fl := math.Floor(float64(val))
 			if val < prob {
-				out.SetScalar(float.Interface(fl), i, j)
+				out.SetScalar(float.Interface(0.0), i, j)
 			} else {
-				out.SetScalar(float.Interface(fl+1), i, j)
+				out.SetScalar(float.Interface(1.0), i, j)
 			}
 		}
 	}
-- 
2.43.0


From df08ff24bbb5ef6e4b4cfde69d8732265fe2ca40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 36/50] fix: nn.DumpToFile reports the error of closing the
 file

The deferred function assigned the close error to a variable that was not
the result, so a failed close (for example a delayed write error) was
reported as success.
---
 nn/gob.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nn/gob.go b/nn/gob.go
index de66e13..3fe0059 100644
--- a/nn/gob.go
+++ b/nn/gob.go
@@ -27,7 +27,7 @@ func Dump(obj any, w io.Writer) error {
 
 // DumpToFile saves a serialized object to a file.
 // See Dump for further details.
-func DumpToFile[T any](obj T, filename string) error {
+func DumpToFile[T any](obj T, filename string) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		return err
-- 
2.43.0


From 2779e051899a44d316ee8e2af3aa6cb4fae173a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:23 +0000
Subject: [PATCH 37/50] fix: formatting a matrix with a width larger than its
 values does not panic

The buffer of spaces used for the padding was as long as the longest
value, while a minimum width asks for more.
---
 mat/dense_formatting.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mat/dense_formatting.go b/mat/dense_formatting.go
index e8fd840..4edf20b 100644
--- a/mat/dense_formatting.go
+++ b/mat/dense_formatting.go
@@ -47,7 +47,12 @@ func (d *Dense[_]) Format(f fmt.State, c rune) {
 // format formats a non-empty Dense matrix
 func (d *Dense[_]) format(f fmt.State, c rune, precision int) {
 	maxWidths, maxWidth := d.formattingMaxColumnsWidth(f, c, precision)
-	spaceBuf := makeSpaceBuffer(maxWidth)
+	// The padding can be wider than any value, if a minimum width is given.
+	maxPadding := maxWidth
+	for _, w := range maxWidths {
+		maxPadding = maxInt(maxPadding, maxInt(w.left, w.right+1))
+	}
+	spaceBuf := makeSpaceBuffer(maxPadding)
 	buf := make([]byte, 0, maxWidth)
 	for row, index := 0, 0; row < d.shape[0]; row++ {
 		rowPrefix, rowSuffix := d.formattingRowPrefixAndSuffix(row)
-- 
2.43.0


From 65aa6d24f27f0dd00491fa03cad3805be8c49cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 38/50] fix: elements of float64 matrices are formatted as
 float64

They were rounded to float32 first: digits were lost, 1e300 printed as
+Inf and 5e-324 as 0.
---
 mat/dense_formatting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/dense_formatting.go b/mat/dense_formatting.go
index 4edf20b..71e9af0 100644
--- a/mat/dense_formatting.go
+++ b/mat/dense_formatting.go
@@ -148,7 +148,7 @@ func (d *Dense[_]) formattingMaxColumnsWidth(
 }
 
 func formatValue[T float.DType](buf []byte, val T, c rune, precision int) []byte {
-	return strconv.AppendFloat(buf[:0], float64(val), byte(c), precision, 32)
+	return strconv.AppendFloat(buf[:0], float64(val), byte(c), precision, float.Interface(val).BitSize())
 }
 
 func maxInt(a, b int) int {
-- 
2.43.0


From 2ef505892fbd6e4aa58db6e3e47f798e1e856b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 39/50] fix: InDelta is false if only one of two values is NaN

The comparison of the difference (NaN) with delta was always false, so
that NaN was within delta of every number.
---
 mat/float/floatslice.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/float/floatslice.go b/mat/float/floatslice.go
index 5ad7118..36d9225 100644
--- a/mat/float/floatslice.go
+++ b/mat/float/floatslice.go
@@ -106,8 +106,8 @@ func (fs floatSlice[T]) InDelta(other Slice, delta float64) bool {
 	o := SliceValueOf[T](other)
 	_ = o[len(fs)-1]
 	for i, v := range fs {
-		if math.Abs(float64(v-o[i])) > delta {
-			return false
+		if math.Abs(float64(v-o[i])) > delta || (v != v) != (o[i] != o[i]) {
+			return false // too far, or only one of them is NaN
 		}
 	}
 	return true
-- 
2.43.0


From b8f91ac130996279ad38e07d495b20e17b79b954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 40/50] fix: keep Range and SplitV within the elements of the
 vector

The bounds were those of the capacity of the backing array, so that a range
beyond the end of a vector gave elements which do not belong to it.
---
 mat/dense.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mat/dense.go b/mat/dense.go
index ded8b44..d07f1b0 100644
--- a/mat/dense.go
+++ b/mat/dense.go
@@ -1150,6 +1150,9 @@ func (d *Dense[T]) Range(start, end int) Matrix {
 	if end < 0 || start < 0 {
 		panic("mat: negative values for range indices are not allowed")
 	}
+	if end > len(d.data) { // the capacity can be larger
+		panic("mat: range indices out of bounds")
+	}
 	return NewDense[T](WithBacking(copySlice(d.data[start:end])))
 }
 
@@ -1169,10 +1172,10 @@ func (d *Dense[T]) SplitV(sizes ...int) []Matrix {
 			panic("mat: a negative size is not allowed")
 		}
 		startIndex := offset
-		offset = startIndex + size
-		if startIndex >= len(d.data) && offset > startIndex {
+		if size > len(d.data)-startIndex { // the capacity can be larger
 			panic("mat: sizes out of bounds")
 		}
+		offset = startIndex + size
 		out[i] = NewDense[T](WithBacking(copySlice(d.data[startIndex:offset])))
 	}
 	return out
-- 
2.43.0


From 9f06244cdca431baf5c568fd05dbe02bc9317e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 41/50] fix: reject shapes whose number of elements overflows

---
 mat/dense.go     |  4 ++--
 mat/dense_new.go | 16 ++++++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/mat/dense.go b/mat/dense.go
index d07f1b0..8799c59 100644
--- a/mat/dense.go
+++ b/mat/dense.go
@@ -252,7 +252,7 @@ func (d *Dense[T]) Reshape(shape ...int) Matrix {
 	if rows < 0 || cols < 0 {
 		panic("mat: negative values for rows and cols are not allowed")
 	}
-	if rows*cols != len(d.data) {
+	if sizeOverflows(rows, cols) || rows*cols != len(d.data) {
 		panic(fmt.Sprintf("mat: wrong matrix dimensions. Size (rows*cols) must be: %d", len(d.data)))
 	}
 
@@ -276,7 +276,7 @@ func (d *Dense[T]) ReshapeInPlace(shape ...int) Matrix {
 	if rows < 0 || cols < 0 {
 		panic("mat: negative values for rows and cols are not allowed")
 	}
-	if rows*cols != len(d.data) {
+	if sizeOverflows(rows, cols) || rows*cols != len(d.data) {
 		panic(fmt.Sprintf("mat: wrong matrix dimensions. Size (rows*cols) must be: %d", len(d.data)))
 	}
 	d.shape[0] = rows
diff --git a/mat/dense_new.go b/mat/dense_new.go
index 05c34a2..185f7e4 100644
--- a/mat/dense_new.go
+++ b/mat/dense_new.go
@@ -7,6 +7,7 @@ package mat
 import (
 	"fmt"
 	"log"
+	"math"
 
 	"github.com/nlpodyssey/spago/mat/float"
 )
@@ -121,9 +122,18 @@ func checkShape(shape ...int) error {
 			return fmt.Errorf("mat: negative value for shape is not allowed")
 		}
 	}
+	if len(shape) == 2 && sizeOverflows(shape[0], shape[1]) {
+		return fmt.Errorf("mat: shape is too large")
+	}
 	return nil
 }
 
+// sizeOverflows reports whether the number of elements of a matrix with the
+// given non-negative dimensions cannot be represented.
+func sizeOverflows(rows, cols int) bool {
+	return cols > 0 && rows > math.MaxInt/cols
+}
+
 func adjustShape(shape ...int) []int {
 	if len(shape) == 1 {
 		return []int{shape[0], 1}
@@ -168,6 +178,9 @@ func CreateIdentityMatrix[T float.DType](size int) []T {
 	if size < 0 {
 		panic("mat: a negative size is not allowed")
 	}
+	if sizeOverflows(size, size) {
+		panic("mat: size is too large")
+	}
 	out := malloc[T](size * size)
 	for i := 0; i < len(out); i += size + 1 {
 		out[i] = 1
@@ -179,6 +192,9 @@ func InitializeMatrix[T float.DType](rows, cols int, fn func(r, c int) T) []T {
 	if rows < 0 || cols < 0 {
 		panic("mat: a negative size is not allowed")
 	}
+	if sizeOverflows(rows, cols) {
+		panic("mat: size is too large")
+	}
 	out := malloc[T](rows * cols)
 	r := 0
 	c := 0
-- 
2.43.0


From 3fd7285b11d9fea6e0115b39777815a9737b324e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:11 +0000
Subject: [PATCH 42/50] fix: reject a first gradient that does not fit the
 matrix

Only further gradients were checked, when they were added up.
---
 mat/dense_grad.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mat/dense_grad.go b/mat/dense_grad.go
index 8b418ff..d751feb 100644
--- a/mat/dense_grad.go
+++ b/mat/dense_grad.go
@@ -24,6 +24,9 @@ func (d *Dense[T]) Grad() Tensor {
 func (d *Dense[T]) AccGrad(grad Tensor) {
 	d.gradMu.Lock()
 	defer d.gradMu.Unlock()
+	if !SameDims(d, grad) && !(IsVector(d) && IsVector(grad) && d.Size() == grad.Size()) {
+		panic("mat: matrices have incompatible dimensions")
+	}
 	if d.grad == nil {
 		// The gradient may have a different data type
 		d.grad = makeDense(malloc[T](grad.Size()), grad.Shape()...)
-- 
2.43.0


From 05e6ac4d8c72f5d575946fd2864f014237f902a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 43/50] fix: reject gradients whose shape does not fit the
 operator's output

AppendRows, MulT, MaxPooling and RotateR read only a part of such a gradient,
or failed in another goroutine, instead of returning an error.
---
 mat/gradfn/appendrows.go | 2 +-
 mat/gradfn/maxpooling.go | 4 ++++
 mat/gradfn/mult.go       | 7 ++++---
 mat/gradfn/rotater.go    | 9 ++++++++-
 4 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/mat/gradfn/appendrows.go b/mat/gradfn/appendrows.go
index a900581..242917d 100644
--- a/mat/gradfn/appendrows.go
+++ b/mat/gradfn/appendrows.go
@@ -41,7 +41,7 @@ func (a *AppendRows[O]) Forward() (mat.Tensor, error) {
 // Backward computes the backward pass.
 func (a *AppendRows[O]) Backward(gy mat.Tensor) error {
 	xVal := a.x.Value()
-	if gy.Shape()[0] != xVal.Shape()[0]+len(a.vs) {
+	if gy.Shape()[0] != xVal.Shape()[0]+len(a.vs) || gy.Shape()[1] != xVal.Shape()[1] {
 		panic("fn: matrices have incompatible dimensions")
 	}
 
diff --git a/mat/gradfn/maxpooling.go b/mat/gradfn/maxpooling.go
index 9d36e97..620c8e5 100644
--- a/mat/gradfn/maxpooling.go
+++ b/mat/gradfn/maxpooling.go
@@ -5,6 +5,7 @@
 package gradfn
 
 import (
+	"fmt"
 	"math"
 
 	"github.com/nlpodyssey/spago/mat"
@@ -88,6 +89,9 @@ func makeIntMatrix(indices []int) [][]int {
 
 // Backward computes the backward pass.
 func (r *MaxPooling[O]) Backward(gy mat.Tensor) error {
+	if !mat.SameDims(r.y, gy) {
+		return fmt.Errorf("fn: matrices have incompatible dimensions")
+	}
 	if r.x.RequiresGrad() {
 		gx := r.x.Value().(mat.Matrix).ZerosLike()
 		for row := 0; row < r.y.Shape()[0]; row++ {
diff --git a/mat/gradfn/mult.go b/mat/gradfn/mult.go
index e03f637..ce188f6 100644
--- a/mat/gradfn/mult.go
+++ b/mat/gradfn/mult.go
@@ -5,6 +5,7 @@
 package gradfn
 
 import (
+	"fmt"
 	"sync"
 
 	"github.com/nlpodyssey/spago/mat"
@@ -36,9 +37,9 @@ func (r *MulT[O]) Operands() []mat.Tensor {
 
 // Backward computes the backward pass.
 func (r *MulT[O]) Backward(gy mat.Tensor) error {
-	//if !(r.x1.Value().Shape()[0] == gy.Shape()[0] && r.x2.Value().Shape()[1] == gy.Shape()[1]) {
-	//	panic("fn: matrices with not compatible size")
-	//}
+	if !(r.x1.Value().Shape()[1] == gy.Shape()[0] && r.x2.Value().Shape()[1] == gy.Shape()[1]) {
+		return fmt.Errorf("fn: matrices with not compatible size")
+	}
 	var wg sync.WaitGroup
 	if r.x1.RequiresGrad() {
 		wg.Add(1)
diff --git a/mat/gradfn/rotater.go b/mat/gradfn/rotater.go
index de5e6e1..557d6f6 100644
--- a/mat/gradfn/rotater.go
+++ b/mat/gradfn/rotater.go
@@ -4,7 +4,11 @@
 
 package gradfn
 
-import "github.com/nlpodyssey/spago/mat"
+import (
+	"fmt"
+
+	"github.com/nlpodyssey/spago/mat"
+)
 
 // RotateR is a function to perform a right circular shift of a vector.
 type RotateR[O mat.Tensor] struct {
@@ -34,6 +38,9 @@ func (r *RotateR[O]) Forward() (mat.Tensor, error) {
 
 // Backward computes the backward pass.
 func (r *RotateR[O]) Backward(gy mat.Tensor) error {
+	if !mat.SameDims(r.x.Value(), gy) {
+		return fmt.Errorf("fn: matrices have incompatible dimensions")
+	}
 	if r.x.RequiresGrad() {
 		gx := rotate(gy.(mat.Matrix), r.i)
 		r.x.AccGrad(gx)
-- 
2.43.0


From 8d62de1aab1bffaaacf4ae0fd6eca42b5e01aee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 44/50] fix: replacing a param's value keeps whether it
 requires gradients

---
 nn/param.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nn/param.go b/nn/param.go
index 21c6b5e..56b2bb9 100644
--- a/nn/param.go
+++ b/nn/param.go
@@ -30,7 +30,12 @@ func (p *Param) WithGrad(value bool) *Param {
 	return p
 }
 
+// ReplaceValue replaces the value of the param, which requires gradients or not as before,
+// and discards its optimization state.
 func (p *Param) ReplaceValue(value mat.Matrix) {
+	if p.Matrix != nil && value != nil {
+		value.SetRequiresGrad(p.RequiresGrad())
+	}
 	p.Matrix = value
 	p.State = nil
 }
-- 
2.43.0


From e3603bf42e4f0d36cff401f02f43cb7a655262fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:18 +0000
Subject: [PATCH 45/50] fix: a weighted choice never picks an outcome of
 probability zero

---
 mat/rand/misc.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mat/rand/misc.go b/mat/rand/misc.go
index e94b47c..ec8ecfc 100644
--- a/mat/rand/misc.go
+++ b/mat/rand/misc.go
@@ -36,13 +36,18 @@ func WeightedChoice[T float.DType](dist []T) int {
 		panic(fmt.Sprintf("rand: unexpected type %T", T(0)))
 	}
 	var cumulativeProb T
+	last := 0
 	for i, prob := range dist {
 		cumulativeProb += prob
 		if rnd < cumulativeProb {
 			return i
 		}
+		if prob > 0 {
+			last = i
+		}
 	}
-	return 0
+	// The rounded sum of the probabilities can be smaller than one.
+	return last
 }
 
 // GetUniqueRandomInt generates n mutually exclusive integers up to max, using the default random source.
-- 
2.43.0


From 6a53670d95b59298a1e3adc745d7e00c753d790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:59 +0000
Subject: [PATCH 46/50] fix: layers of list inputs give no outputs for an empty
 list

---
 nn/gnn/slstm/slstm.go                               | 3 +++
 nn/normalization/batchnorm/batchnorm.go             | 3 +++
 nn/normalization/layernormsimple/layernormsimple.go | 3 +++
 nn/normalization/scalenorm/scalenorm.go             | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/nn/gnn/slstm/slstm.go b/nn/gnn/slstm/slstm.go
index f3e6724..2df5d45 100644
--- a/nn/gnn/slstm/slstm.go
+++ b/nn/gnn/slstm/slstm.go
@@ -130,6 +130,9 @@ func newGate3[T float.DType](size int) *HyperLinear3 {
 
 // Forward performs the forward step for each input node and returns the result.
 func (m *Model) Forward(xs ...mat.Tensor) []mat.Tensor {
+	if len(xs) == 0 {
+		return nil
+	}
 	steps := m.Config.Steps
 	n := len(xs)
 	h := make([][]mat.Tensor, steps)
diff --git a/nn/normalization/batchnorm/batchnorm.go b/nn/normalization/batchnorm/batchnorm.go
index c9a3db5..e6481f1 100644
--- a/nn/normalization/batchnorm/batchnorm.go
+++ b/nn/normalization/batchnorm/batchnorm.go
@@ -57,6 +57,9 @@ func (m *Model) Forward(xs ...mat.Tensor) []mat.Tensor {
 
 // ForwardT performs the forward step for each input node and returns the result.
 func (m *Model) ForwardT(xs ...mat.Tensor) []mat.Tensor {
+	if len(xs) == 0 {
+		return nil
+	}
 	meanVector := m.mean(xs)
 	devVector := m.stdDev(meanVector, xs)
 	m.updateBatchNormParameters(meanVector.Value().(mat.Matrix), devVector.Value().(mat.Matrix))
diff --git a/nn/normalization/layernormsimple/layernormsimple.go b/nn/normalization/layernormsimple/layernormsimple.go
index 88d491a..5f28333 100644
--- a/nn/normalization/layernormsimple/layernormsimple.go
+++ b/nn/normalization/layernormsimple/layernormsimple.go
@@ -34,6 +34,9 @@ func New() *Model {
 
 // Forward performs the forward step for each input node and returns the result.
 func (m *Model) Forward(xs ...mat.Tensor) []mat.Tensor {
+	if len(xs) == 0 {
+		return nil
+	}
 	ys := make([]mat.Tensor, len(xs))
 	eps := xs[0].Value().(mat.Matrix).NewScalar(1e-10)
 	for i, x := range xs {
diff --git a/nn/normalization/scalenorm/scalenorm.go b/nn/normalization/scalenorm/scalenorm.go
index 20af182..5252e9d 100644
--- a/nn/normalization/scalenorm/scalenorm.go
+++ b/nn/normalization/scalenorm/scalenorm.go
@@ -34,6 +34,9 @@ func New[T float.DType](size int) *Model {
 
 // Forward performs the forward step for each input node and returns the result.
 func (m *Model) Forward(xs ...mat.Tensor) []mat.Tensor {
+	if len(xs) == 0 {
+		return nil
+	}
 	eps := xs[0].Value().(mat.Matrix).NewScalar(1e-10)
 	ys := make([]mat.Tensor, len(xs))
 	for i, x := range xs {
-- 
2.43.0


From 86c8bbf4ae7b347acbad1cfbf7016935854eaeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:46 +0000
Subject: [PATCH 47/50] fix: Max and Min pass the gradient on where their
 operands are equal

---
 mat/gradfn/max.go | 3 ++-
 mat/gradfn/min.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mat/gradfn/max.go b/mat/gradfn/max.go
index 467ed4c..8503157 100644
--- a/mat/gradfn/max.go
+++ b/mat/gradfn/max.go
@@ -52,7 +52,8 @@ func (r *Max[O]) Backward(gy mat.Tensor) error {
 	if r.x1.RequiresGrad() {
 		gxData := make([]float64, n)
 		for i := 0; i < n; i++ {
-			if x1vData[i] > x2vData[i] {
+			// where the operands are equal, the result is the first one
+			if x1vData[i] >= x2vData[i] {
 				gxData[i] = gyData[i]
 			}
 		}
diff --git a/mat/gradfn/min.go b/mat/gradfn/min.go
index 7f4feea..1b23753 100644
--- a/mat/gradfn/min.go
+++ b/mat/gradfn/min.go
@@ -52,7 +52,8 @@ func (r *Min[O]) Backward(gy mat.Tensor) error {
 	if r.x1.RequiresGrad() {
 		gxData := make([]float64, n)
 		for i := 0; i < n; i++ {
-			if x1vData[i] < x2vData[i] {
+			// where the operands are equal, the result is the first one
+			if x1vData[i] <= x2vData[i] {
 				gxData[i] = gyData[i]
 			}
 		}
-- 
2.43.0


From 923058c18d5c2a28203a27bbd2762a32bbba5279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:44 +0000
Subject: [PATCH 48/50] fix: the gradient of max pooling over -Inf stays inside
 the window

---
 mat/gradfn/maxpooling.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mat/gradfn/maxpooling.go b/mat/gradfn/maxpooling.go
index 620c8e5..c926d90 100644
--- a/mat/gradfn/maxpooling.go
+++ b/mat/gradfn/maxpooling.go
@@ -54,6 +54,8 @@ func (r *MaxPooling[O]) Forward() (mat.Tensor, error) {
 	for row := 0; row < r.y.Shape()[0]; row++ {
 		for col := 0; col < r.y.Shape()[1]; col++ {
 			maximum := math.Inf(-1)
+			// a window of -Inf only has its first element as the maximum
+			r.argmaxI[row][col], r.argmaxJ[row][col] = row*r.rows, col*r.cols
 
 			maxRows := (row * r.rows) + r.rows
 			for i := row * r.rows; i < maxRows; i++ {
-- 
2.43.0


From 33dfa21fc828b8696780cec9e048aef43ed0efe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:41 +0000
Subject: [PATCH 49/50] fix: accumulate vector gradients of different
 orientations

---
 mat/dense_grad.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mat/dense_grad.go b/mat/dense_grad.go
index d751feb..2b9d99c 100644
--- a/mat/dense_grad.go
+++ b/mat/dense_grad.go
@@ -33,6 +33,9 @@ func (d *Dense[T]) AccGrad(grad Tensor) {
 		copy(d.grad.data, Data[T](grad))
 		return
 	}
+	if !SameDims(d.grad, grad) { // vectors of different orientations
+		grad = grad.(Matrix).Reshape(d.grad.shape...)
+	}
 	d.grad.AddInPlace(grad.(Matrix))
 }
 
-- 
2.43.0


From 166dad2e58976aa86acecea03f54fe7c06790580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:42 +0000
Subject: [PATCH 50/50] fix: drop the gradients of a matrix when it is decoded

---
 mat/dense_marshaling.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mat/dense_marshaling.go b/mat/dense_marshaling.go
index 169d5cb..ed227eb 100644
--- a/mat/dense_marshaling.go
+++ b/mat/dense_marshaling.go
@@ -82,6 +82,7 @@ func (d *Dense[T]) unmarshalBinaryFloat32(data []byte) error {
 	}
 
 	d.data = bytesToSlice[T](raw.DataBytes(), raw.DataLength())
+	d.ZeroGrad() // the gradients belonged to the previous content
 	return nil
 }
 
@@ -125,6 +126,7 @@ func (d *Dense[T]) unmarshalBinaryFloat64(data []byte) error {
 	}
 
 	d.data = bytesToSlice[T](raw.DataBytes(), raw.DataLength())
+	d.ZeroGrad() // the gradients belonged to the previous content
 	return nil
 }
 
-- 
2.43.0

