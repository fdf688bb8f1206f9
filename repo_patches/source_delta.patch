From a6a0c638a0a28e8ca907fb45c533389305b76a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 01/18] fix: back-propagate in topological order so shared
 results pass their gradient on once

---
 tensor/internal/gradtrack/back_propagation.go | 69 +++++++++++++++----
 1 file changed, 55 insertions(+), 14 deletions(-)

diff --git a/tensor/internal/gradtrack/back_propagation.go b/tensor/internal/gradtrack/back_propagation.go
index b95b706..911780a 100644
--- a/tensor/internal/gradtrack/back_propagation.go
+++ b/tensor/internal/gradtrack/back_propagation.go
@@ -17,34 +17,46 @@ func startEdge(t tensor.Tensor) (edge *backwardEdge) {
 }
 
 func backward(edge *backwardEdge) (err error) {
-	gctx := gradContextOf(edge.target)
+	// a tensor passes its gradient on only after all of its consumers have
+	// contributed to it; hence, each edge is followed exactly once
+	order := consumersFirst(edge.target)
 
-	if !gctx.tracked {
-		return nil
-	} else {
+	for _, gctx := range order {
 		gctx.bpdirty = true
 	}
 
-	grad, err := edge.gradFn()
-	if err != nil {
-		return
-	}
-
-	err = accumulateGrad(gctx, grad)
+	err = propagate(edge)
 	if err != nil {
 		return
 	}
 
-	for _, e := range gctx.backEdges {
-		err = backward(e)
-		if err != nil {
-			return
+	for _, gctx := range order {
+		for _, e := range gctx.backEdges {
+			err = propagate(e)
+			if err != nil {
+				return
+			}
 		}
 	}
 
 	return nil
 }
 
+func propagate(edge *backwardEdge) (err error) {
+	gctx := gradContextOf(edge.target)
+
+	if !gctx.tracked {
+		return nil
+	}
+
+	grad, err := edge.gradFn()
+	if err != nil {
+		return
+	}
+
+	return accumulateGrad(gctx, grad)
+}
+
 func accumulateGrad(gctx *GradContext, grad tensor.Tensor) (err error) {
 	if gctx.gradient == nil {
 		gctx.gradient = grad
@@ -57,3 +69,32 @@ func accumulateGrad(gctx *GradContext, grad tensor.Tensor) (err error) {
 
 	return nil
 }
+
+// consumersFirst returns contexts of the tracked tensors that t was computed
+// from (including t itself), ordered such that each one precedes its operands.
+func consumersFirst(t tensor.Tensor) (order []*GradContext) {
+	visited := make(map[*GradContext]bool)
+
+	var visit func(tensor.Tensor)
+	visit = func(t tensor.Tensor) {
+		gctx := gradContextOf(t)
+		if !gctx.tracked || visited[gctx] {
+			return
+		}
+
+		visited[gctx] = true
+		for _, e := range gctx.backEdges {
+			visit(e.target)
+		}
+
+		order = append(order, gctx)
+	}
+
+	visit(t)
+
+	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
+		order[i], order[j] = order[j], order[i]
+	}
+
+	return order
+}
-- 
2.43.0


From 9a5ac183b70c0394441560507482412abdb5d169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 02/18] fix: expand the gradient of Dot along the contracted
 dimension

---
 tensor/internal/gradtrack/gradients.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index bde4f97..c629c09 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -986,14 +986,24 @@ func Dot(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext)
 		backEdges: []*backwardEdge{
 			{
 				target: a,
-				gradFn: func() (tensor.Tensor, error) {
-					return y.Gradient().Mul(b)
+				gradFn: func() (o tensor.Tensor, err error) {
+					gy, err := reducerBroadcasted(y.Gradient(), a, len(a.Shape())-1)
+					if err != nil {
+						return
+					}
+
+					return gy.Mul(b)
 				},
 			},
 			{
 				target: b,
-				gradFn: func() (tensor.Tensor, error) {
-					return y.Gradient().Mul(a)
+				gradFn: func() (o tensor.Tensor, err error) {
+					gy, err := reducerBroadcasted(y.Gradient(), b, len(b.Shape())-1)
+					if err != nil {
+						return
+					}
+
+					return gy.Mul(a)
 				},
 			},
 		},
-- 
2.43.0


From 4157d0f1bd2322ca297314f409fd37261cb3dd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 03/18] fix: take the gradient of Patch's source from the block
 the source was written to

---
 tensor/internal/gradtrack/gradient_helpers.go | 13 +++++++++++++
 tensor/internal/gradtrack/gradients.go        |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/tensor/internal/gradtrack/gradient_helpers.go b/tensor/internal/gradtrack/gradient_helpers.go
index 17d3460..5be7452 100644
--- a/tensor/internal/gradtrack/gradient_helpers.go
+++ b/tensor/internal/gradtrack/gradient_helpers.go
@@ -23,3 +23,16 @@ func reducerBroadcasted(y tensor.Tensor, x tensor.Tensor, dim int) (o tensor.Ten
 
 	return o, nil
 }
+
+func completePatchIndex(index []tensor.Range, shape []int) (cidx []tensor.Range) {
+	cidx = make([]tensor.Range, len(shape))
+	for i, size := range shape {
+		if i >= len(index) || (index[i].From == 0 && index[i].To == 0) {
+			cidx[i] = tensor.Range{From: 0, To: size}
+		} else {
+			cidx[i] = index[i]
+		}
+	}
+
+	return cidx
+}
diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index c629c09..6ad70ac 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -67,6 +67,9 @@ func Patch(y tensor.Tensor, x tensor.Tensor, p tensor.Tensor, index []tensor.Ran
 		return NewGradContext(false)
 	}
 
+	// omitted and whole-dimension ranges stand for the block covered by p
+	index = completePatchIndex(index, p.Shape())
+
 	return &GradContext{
 		tracked: true,
 		backEdges: []*backwardEdge{
-- 
2.43.0


From 5568393f579fc58d1017f47d30fc55cffd39f34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:30 +0000
Subject: [PATCH 04/18] fix: keep a copy of the index in the gradient context
 of Slice

---
 tensor/internal/gradtrack/gradients.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index 6ad70ac..f581465 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -46,6 +46,9 @@ func Slice(y tensor.Tensor, x tensor.Tensor, index []tensor.Range) (gctx *GradCo
 		return NewGradContext(false)
 	}
 
+	// the given index belongs to the caller
+	index = append([]tensor.Range(nil), index...)
+
 	return &GradContext{
 		tracked: true,
 		backEdges: []*backwardEdge{
-- 
2.43.0


From faa5ab56e92c86613c64c459cbe27275ebfbd0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 05/18] fix: make the gradient of Pow with exponent zero zero
 for every base

---
 tensor/internal/gradtrack/gradients.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index f581465..9f3d06f 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -542,6 +542,11 @@ func Pow(y tensor.Tensor, x tensor.Tensor, a float64) (gctx *GradContext) {
 			{
 				target: x,
 				gradFn: func() (tensor.Tensor, error) {
+					// constant function, also at zero where x^-1 is not finite
+					if a == 0 {
+						return toZeros(x), nil
+					}
+
 					gy := y.Gradient()
 					gx := x.Pow(a - 1)
 					gx = gx.Scale(a)
-- 
2.43.0


From 1994faac139afb7d283107cd5fe9548ec1c27dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:53 +0000
Subject: [PATCH 06/18] fix: sum the gradient of an implicitly broadcast
 operand over its copies

---
 .../internal/cputensor/cputensor_helpers.go   | 27 ++++++++++++-------
 tensor/internal/gradtrack/gradients.go        | 24 +++++++++++++++++
 2 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/tensor/internal/cputensor/cputensor_helpers.go b/tensor/internal/cputensor/cputensor_helpers.go
index 6f1dc8a..ec9e9b3 100644
--- a/tensor/internal/cputensor/cputensor_helpers.go
+++ b/tensor/internal/cputensor/cputensor_helpers.go
@@ -3,6 +3,7 @@ package cputensor
 import (
 	"fmt"
 
+	"github.com/sahandsafizadeh/qeep/tensor/internal/gradtrack"
 	"github.com/sahandsafizadeh/qeep/tensor/internal/tensor"
 )
 
@@ -36,19 +37,16 @@ func assertCPUTensors(ts []tensor.Tensor) (cts []*CPUTensor, err error) {
 func broadcastForBinaryOp(ct1, ct2 *CPUTensor) (bct1, bct2 *CPUTensor, err error) {
 	shape := targetBroadcastDims(ct1.dims, ct2.dims)
 
-	t1, err := ct1.Broadcast(shape)
+	bct1, err = implicitBroadcast(ct1, shape)
 	if err != nil {
 		return
 	}
 
-	t2, err := ct2.Broadcast(shape)
+	bct2, err = implicitBroadcast(ct2, shape)
 	if err != nil {
 		return
 	}
 
-	bct1 = t1.(*CPUTensor)
-	bct2 = t2.(*CPUTensor)
-
 	return bct1, bct2, nil
 }
 
@@ -62,7 +60,7 @@ func broadcastForMatMul(ct1, ct2 *CPUTensor) (bct1, bct2 *CPUTensor, err error)
 	shape[lt-1] = ct1.dims[l1-1]
 	shape[lt-2] = ct1.dims[l1-2]
 
-	t1, err := ct1.Broadcast(shape)
+	bct1, err = implicitBroadcast(ct1, shape)
 	if err != nil {
 		return
 	}
@@ -70,17 +68,26 @@ func broadcastForMatMul(ct1, ct2 *CPUTensor) (bct1, bct2 *CPUTensor, err error)
 	shape[lt-1] = ct2.dims[l2-1]
 	shape[lt-2] = ct2.dims[l2-2]
 
-	t2, err := ct2.Broadcast(shape)
+	bct2, err = implicitBroadcast(ct2, shape)
 	if err != nil {
 		return
 	}
 
-	bct1 = t1.(*CPUTensor)
-	bct2 = t2.(*CPUTensor)
-
 	return bct1, bct2, nil
 }
 
+func implicitBroadcast(ct *CPUTensor, shape []int) (bct *CPUTensor, err error) {
+	t, err := ct.Broadcast(shape)
+	if err != nil {
+		return
+	}
+
+	bct = t.(*CPUTensor)
+	bct.gctx = gradtrack.ImplicitBroadcast(bct, ct)
+
+	return bct, nil
+}
+
 func targetBroadcastDims(dims1, dims2 []int) (dims []int) {
 	var small, large []int
 	if len(dims1) > len(dims2) {
diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index 9f3d06f..4935f29 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -252,6 +252,30 @@ func Broadcast(y tensor.Tensor, x tensor.Tensor) (gctx *GradContext) {
 	}
 }
 
+// ImplicitBroadcast is the gradient context of an operand that a binary operation
+// has expanded: the expanded copies are all the same operand, so their gradients
+// are summed up instead of averaged.
+func ImplicitBroadcast(y tensor.Tensor, x tensor.Tensor) (gctx *GradContext) {
+	gctx = Broadcast(y, x)
+
+	copies := float64(y.NElems()) / float64(x.NElems())
+
+	for _, edge := range gctx.backEdges {
+		averageFn := edge.gradFn
+
+		edge.gradFn = func() (o tensor.Tensor, err error) {
+			gy, err := averageFn()
+			if err != nil {
+				return
+			}
+
+			return gy.Scale(copies), nil
+		}
+	}
+
+	return gctx
+}
+
 func SumAlong(y tensor.Tensor, x tensor.Tensor, dim int) (gctx *GradContext) {
 	if anyIsBPDirty(x) {
 		return NewDirtyGradContext()
-- 
2.43.0


From c945af32a30e46ee6935d93936f0410146db49ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:54 +0000
Subject: [PATCH 07/18] fix: divide Softmax by the sum along the configured
 dimension

---
 component/layers/activations/softmax.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/component/layers/activations/softmax.go b/component/layers/activations/softmax.go
index d941710..d9ab619 100644
--- a/component/layers/activations/softmax.go
+++ b/component/layers/activations/softmax.go
@@ -46,6 +46,11 @@ func (c *Softmax) forward(x tensor.Tensor) (y tensor.Tensor, err error) {
 		return
 	}
 
+	s, err = s.UnSqueeze(c.dim)
+	if err != nil {
+		return
+	}
+
 	return x.Div(s)
 }
 
-- 
2.43.0


From e70fffc8293198462776c07f9b7db0391eaf3b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:24 +0000
Subject: [PATCH 08/18] fix: keep uniform draws below their upper bound

---
 tensor/internal/cputensor/initializers.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tensor/internal/cputensor/initializers.go b/tensor/internal/cputensor/initializers.go
index 7566020..2c24ab5 100644
--- a/tensor/internal/cputensor/initializers.go
+++ b/tensor/internal/cputensor/initializers.go
@@ -1,6 +1,10 @@
 package cputensor
 
-import "gonum.org/v1/gonum/stat/distuv"
+import (
+	"math"
+
+	"gonum.org/v1/gonum/stat/distuv"
+)
 
 func (t *CPUTensor) initWith(initFunc initializerFunc) {
 
@@ -45,7 +49,13 @@ func uniformRandomTensor(l, u float64, dims []int) (t *CPUTensor) {
 	t.dims = make([]int, len(dims))
 	copy(t.dims, dims)
 	t.initWith(func() any {
-		return distuv.Uniform{Min: l, Max: u}.Rand()
+		v := distuv.Uniform{Min: l, Max: u}.Rand()
+		if v >= u {
+			// scaling into a narrow range may have rounded up to the open bound
+			v = math.Nextafter(u, l)
+		}
+
+		return v
 	})
 
 	return t
-- 
2.43.0


From 3e97075a5bfb2d63b41d083ad2f8a808e5733468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 09/18] fix: reject nested data that is ragged below its first
 two levels

---
 tensor/internal/validator/initializers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensor/internal/validator/initializers.go b/tensor/internal/validator/initializers.go
index 89b137c..c737e22 100644
--- a/tensor/internal/validator/initializers.go
+++ b/tensor/internal/validator/initializers.go
@@ -71,7 +71,7 @@ func ValidateInputDataDimUnity(data any) (err error) {
 				return
 			}
 
-			if len(sub) != dim {
+			if len(sub) != dim || len(sub[0]) != len(v[0][0]) {
 				return dimUnityErr
 			}
 		}
@@ -88,7 +88,7 @@ func ValidateInputDataDimUnity(data any) (err error) {
 				return
 			}
 
-			if len(sub) != dim {
+			if len(sub) != dim || len(sub[0]) != len(v[0][0]) || len(sub[0][0]) != len(v[0][0][0]) {
 				return dimUnityErr
 			}
 		}
-- 
2.43.0


From 85dff0ac536f0a5339d650c49b749b7ad42c0c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:51 +0000
Subject: [PATCH 10/18] fix: report an unset SeedFunc of Input as an error

---
 component/layers/input.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/component/layers/input.go b/component/layers/input.go
index c85a765..4e52cab 100644
--- a/component/layers/input.go
+++ b/component/layers/input.go
@@ -32,5 +32,10 @@ func (c *Input) validateInputs(xs []tensor.Tensor) (err error) {
 		return
 	}
 
+	if c.SeedFunc == nil {
+		err = fmt.Errorf("expected 'SeedFunc' not to be nil")
+		return
+	}
+
 	return nil
 }
-- 
2.43.0


From 98c299b4d54097ebaf2f4cb675e0e98b2d1e9305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:51 +0000
Subject: [PATCH 11/18] fix: report unset weights of FC as an error

---
 component/layers/fc.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/component/layers/fc.go b/component/layers/fc.go
index 7c2bf74..6898c20 100644
--- a/component/layers/fc.go
+++ b/component/layers/fc.go
@@ -119,6 +119,11 @@ func (c *FC) toValidInputs(xs []tensor.Tensor) (x tensor.Tensor, err error) {
 		return
 	}
 
+	if c.Weight == nil || c.Bias == nil {
+		err = fmt.Errorf("expected 'Weight' and 'Bias' not to be nil")
+		return
+	}
+
 	x = xs[0]
 
 	if x == nil {
-- 
2.43.0


From 106dd7dd7d82e1f7744abfa281fcc7d5902349dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:34 +0000
Subject: [PATCH 12/18] fix: keep the gradient of Div's divisor in range for
 very large and small divisors

---
 tensor/internal/gradtrack/gradients.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index 4935f29..1e3072e 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -994,9 +994,14 @@ func Div(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext)
 					gy := y.Gradient()
 
 					n := a.Scale(-1)
-					d := b.Pow(2)
 
-					gb, err := n.Div(d)
+					// dividing twice, as the square of b may be out of range
+					gb, err := n.Div(b)
+					if err != nil {
+						return
+					}
+
+					gb, err = gb.Div(b)
 					if err != nil {
 						return
 					}
-- 
2.43.0


From c1c6426833a7bf583801da80be794b01a9450d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:44 +0000
Subject: [PATCH 13/18] fix: keep Softmax and its gradient in range for inputs
 of large magnitude

---
 component/layers/activations/softmax.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/component/layers/activations/softmax.go b/component/layers/activations/softmax.go
index d9ab619..c808154 100644
--- a/component/layers/activations/softmax.go
+++ b/component/layers/activations/softmax.go
@@ -39,6 +39,25 @@ func (c *Softmax) Forward(xs ...tensor.Tensor) (y tensor.Tensor, err error) {
 }
 
 func (c *Softmax) forward(x tensor.Tensor) (y tensor.Tensor, err error) {
+	m, err := x.MaxAlong(c.dim)
+	if err != nil {
+		return
+	}
+
+	m, err = m.UnSqueeze(c.dim)
+	if err != nil {
+		return
+	}
+
+	// shifting by a constant changes neither the result nor its derivative,
+	// but keeps the exponentials and their sum in range
+	m.ResetGradContext(false)
+
+	x, err = x.Sub(m)
+	if err != nil {
+		return
+	}
+
 	x = x.Exp()
 
 	s, err := x.SumAlong(c.dim)
-- 
2.43.0


From 2b28c1ea6f2a35348ca8dfb9673650c81437c566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 14/18] fix: add the fan values of Xavier initializers as
 floats so that large ones do not wrap around

---
 component/initializers/xavier_normal.go  | 2 +-
 component/initializers/xavier_uniform.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/component/initializers/xavier_normal.go b/component/initializers/xavier_normal.go
index 4df7b74..cc982ff 100644
--- a/component/initializers/xavier_normal.go
+++ b/component/initializers/xavier_normal.go
@@ -31,7 +31,7 @@ func NewXavierNormal(conf *XavierNormalConfig) (c *XavierNormal, err error) {
 }
 
 func (c *XavierNormal) Init(shape []int) (x tensor.Tensor, err error) {
-	s := math.Sqrt(2. / float64(c.fanIn+c.fanOut))
+	s := math.Sqrt(2. / (float64(c.fanIn) + float64(c.fanOut)))
 	return tensor.RandN(shape, 0., s, tensorInitConf())
 }
 
diff --git a/component/initializers/xavier_uniform.go b/component/initializers/xavier_uniform.go
index 575f73b..ff84e48 100644
--- a/component/initializers/xavier_uniform.go
+++ b/component/initializers/xavier_uniform.go
@@ -31,7 +31,7 @@ func NewXavierUniform(conf *XavierUniformConfig) (c *XavierUniform, err error) {
 }
 
 func (c *XavierUniform) Init(shape []int) (x tensor.Tensor, err error) {
-	r := math.Sqrt(6. / float64(c.fanIn+c.fanOut))
+	r := math.Sqrt(6. / (float64(c.fanIn) + float64(c.fanOut)))
 	return tensor.RandU(shape, -r, r, tensorInitConf())
 }
 
-- 
2.43.0


From 44c7448ef582edda48a9ec76fa09bee1ac768687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 15/18] fix: keep uniform draws finite over ranges wider than
 the largest float64

---
 tensor/internal/cputensor/initializers.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tensor/internal/cputensor/initializers.go b/tensor/internal/cputensor/initializers.go
index 2c24ab5..a2a54fd 100644
--- a/tensor/internal/cputensor/initializers.go
+++ b/tensor/internal/cputensor/initializers.go
@@ -48,8 +48,15 @@ func uniformRandomTensor(l, u float64, dims []int) (t *CPUTensor) {
 	t = new(CPUTensor)
 	t.dims = make([]int, len(dims))
 	copy(t.dims, dims)
+
+	// the width of a range that spans most of the float64 range would overflow
+	scale := 1.
+	if math.IsInf(u-l, 1) {
+		scale = 2.
+	}
+
 	t.initWith(func() any {
-		v := distuv.Uniform{Min: l, Max: u}.Rand()
+		v := scale * distuv.Uniform{Min: l / scale, Max: u / scale}.Rand()
 		if v >= u {
 			// scaling into a narrow range may have rounded up to the open bound
 			v = math.Nextafter(u, l)
-- 
2.43.0


From 2126807667d9bbed70ff210bca74052fefac0ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 16/18] fix: compare infinite elements of the same sign as
 equal

---
 tensor/internal/cputensor/operators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensor/internal/cputensor/operators.go b/tensor/internal/cputensor/operators.go
index f2c3fa6..2805530 100644
--- a/tensor/internal/cputensor/operators.go
+++ b/tensor/internal/cputensor/operators.go
@@ -47,7 +47,7 @@ func (t *CPUTensor) tanh() (o *CPUTensor) {
 func (t *CPUTensor) eq(u *CPUTensor) (o *CPUTensor) {
 	return applyBinaryFuncOnTensorsElemWise(t, u,
 		func(a, b float64) float64 {
-			if math.Abs(a-b) <= float64EqualityThreshold {
+			if a == b || math.Abs(a-b) <= float64EqualityThreshold {
 				return 1.
 			} else {
 				return 0.
@@ -58,7 +58,7 @@ func (t *CPUTensor) eq(u *CPUTensor) (o *CPUTensor) {
 func (t *CPUTensor) ne(u *CPUTensor) (o *CPUTensor) {
 	return applyBinaryFuncOnTensorsElemWise(t, u,
 		func(a, b float64) float64 {
-			if math.Abs(a-b) <= float64EqualityThreshold {
+			if a == b || math.Abs(a-b) <= float64EqualityThreshold {
 				return 0.
 			} else {
 				return 1.
-- 
2.43.0


From 37a39a29ae3e2941a72fd7ec931e5af7eba20a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 17/18] fix: keep the gradient of Sigmoid finite for inputs of
 large magnitude

---
 component/layers/activations/sigmoid.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/component/layers/activations/sigmoid.go b/component/layers/activations/sigmoid.go
index 4a47b80..929e1aa 100644
--- a/component/layers/activations/sigmoid.go
+++ b/component/layers/activations/sigmoid.go
@@ -24,16 +24,29 @@ func (c *Sigmoid) Forward(xs ...tensor.Tensor) (y tensor.Tensor, err error) {
 }
 
 func (c *Sigmoid) forward(x tensor.Tensor) (y tensor.Tensor, err error) {
-	_1 := x.Pow(0)
-	x = x.Scale(-1)
-	x = x.Exp()
+	_0 := x.Pow(0).Scale(0)
 
-	y, err = _1.Add(x)
+	// 1/(1+e^-x) expanded by e^min(x,0), so that neither
+	// an exponential nor its derivative gets out of range
+	a, err := _0.ElMin(x)
 	if err != nil {
 		return
 	}
 
-	return y.Pow(-1), nil
+	b, err := _0.ElMin(x.Scale(-1))
+	if err != nil {
+		return
+	}
+
+	a = a.Exp()
+	b = b.Exp()
+
+	s, err := a.Add(b)
+	if err != nil {
+		return
+	}
+
+	return a.Div(s)
 }
 
 /* ----- helpers ----- */
-- 
2.43.0


From e5acc2e10b72bc6166445de89bf0254ccaf84081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:00 +0000
Subject: [PATCH 18/18] fix: reject target shapes of Reshape whose number of
 elements wraps around

---
 tensor/internal/validator/shape_modifiers.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tensor/internal/validator/shape_modifiers.go b/tensor/internal/validator/shape_modifiers.go
index 05bc66a..ff9cc5a 100644
--- a/tensor/internal/validator/shape_modifiers.go
+++ b/tensor/internal/validator/shape_modifiers.go
@@ -15,7 +15,7 @@ func ValidateReshapeSourceDimsAgainstTargetDims(srcDims, dstDims []int) (err err
 	srcElems := dimsToNumElems(srcDims)
 	dstElems := dimsToNumElems(dstDims)
 
-	if dstElems != srcElems {
+	if dstElems != srcElems || exceedsNumElems(dstDims, srcElems) {
 		err = fmt.Errorf("expected number of elements in source and target tensors to match: (%d) != (%d)", srcElems, dstElems)
 		return
 	}
@@ -79,6 +79,19 @@ func ValidateBroadcastSourceDimsAgainstTargetDims(srcDims, dstDims []int) (err e
 
 /* ----- helpers ----- */
 
+// exceedsNumElems also accounts for products that wrap around.
+func exceedsNumElems(dims []int, elems int) (ok bool) {
+	for _, dim := range dims {
+		if dim > elems {
+			return true
+		}
+
+		elems /= dim
+	}
+
+	return false
+}
+
 func dimsToNumElems(dims []int) (elems int) {
 	elems = 1
 	for _, dim := range dims {
-- 
2.43.0

