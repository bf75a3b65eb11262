From c1bb6a35b3ca815e98b927c41805cff797939984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:47 +0000
Subject: [PATCH 01/48] fix: start each op call with undefined locals

push re-exposed the variables left behind by an earlier call at the same
stack depth, so a local that was not assigned on this path read a stale value.
---
 exec/context.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exec/context.go b/exec/context.go
index bf7b06b..8d92010 100644
--- a/exec/context.go
+++ b/exec/context.go
@@ -96,6 +96,8 @@ func (c *Context) push(fn *Function) {
 	}
 	c.frameSizes = append(c.frameSizes, len(fn.Locals))
 	c.stack = c.stack[:n+len(fn.Locals)]
+	// The slots may hold variables left over from an earlier call.
+	clear(c.stack[n:])
 }
 
 // pop pops the top frame from the stack.
-- 
2.43.0


From ac0e7b77177da8d225f722dc4a1847f0baf6f0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:47 +0000
Subject: [PATCH 02/48] fix: report indexed assignment to an undefined local
 variable

It crashed with a nil dereference.
---
 value/index.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/value/index.go b/value/index.go
index 718d617..8fb4f5a 100644
--- a/value/index.go
+++ b/value/index.go
@@ -81,6 +81,9 @@ func (ix *indexState) init(context Context, top, left Expr, lvarx *VarExpr, inde
 	if lvarx != nil {
 		if lvarx.Local >= 1 {
 			lvar = context.Local(lvarx.Local)
+			if lvar.value == nil {
+				Errorf("undefined local variable %q", lvarx.Name)
+			}
 		} else {
 			lvar = context.Global(lvarx.Name)
 			if lvar == nil {
-- 
2.43.0


From b8dc8b2b2224aab3c0a54e492482c226cffb180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:47 +0000
Subject: [PATCH 03/48] fix: shape of a matrix index with several elided
 dimensions

x[;1;] paired the elided dimensions with the wrong result axes, so for
x = 2 3 4 rho iota 24 it returned shape 4 2 instead of 2 4.
---
 value/index.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/value/index.go b/value/index.go
index 8fb4f5a..e3a3404 100644
--- a/value/index.go
+++ b/value/index.go
@@ -121,13 +121,14 @@ func (ix *indexState) init(context Context, top, left Expr, lvarx *VarExpr, inde
 		Errorf("too many dimensions in %s indexing shape %v", top.ProgString(), NewIntVector(ix.shape...))
 	}
 	// Replace nil index entries, created above, with iota(dimension).
-	j := 0
+	// The outShapeToUpdate list was built walking right-to-left.
+	j := len(outShapeToUpdate)
 	for i := range ix.indexes {
 		if missing[i] {
 			x := newIota(int(origin), ix.shape[i])
 			ix.indexes[i] = x
+			j--
 			ix.outShape[outShapeToUpdate[j]] = x.Len()
-			j++
 		}
 	}
 	ix.outShape = append(ix.outShape, ix.shape[len(index):]...)
-- 
2.43.0


From adab4631bfa7763d00092dd3854807c79d0249d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:47 +0000
Subject: [PATCH 04/48] fix: make indexed assignment with repeated indexes
 deterministic

With enough indexes the assignment ran in parallel, and which of several
values assigned to one cell survived depended on the schedule.
---
 value/index.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/value/index.go b/value/index.go
index e3a3404..4d1dc10 100644
--- a/value/index.go
+++ b/value/index.go
@@ -336,7 +336,9 @@ func IndexAssign(context Context, top, left Expr, lvarx *VarExpr, index []Expr,
 
 	copySize := int(size(ix.shape[ix.indexDim:]))
 	n := ix.outSize / copySize
-	pfor(true, copySize, n, func(lo, hi int) {
+	// If the elements being assigned differ, the order matters because
+	// the same index may appear more than once.
+	pfor(rscalar != nil, copySize, n, func(lo, hi int) {
 		if ix.indexVector != nil {
 			for i := lo; i < hi; i++ {
 				v := ix.indexVector.At(i).(*Vector)
-- 
2.43.0


From ba4dc93f89079b8e7a9449a29cd20bcaf7840e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:27 +0000
Subject: [PATCH 05/48] fix: div and mod must not negate their operands in
 place

x.Set(x) and x.Copy(x) do not make a copy, so after x = -7/2; x mod 2
the variable x held 7/2.
---
 value/eval.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index ee1fbc8..9a07336 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -957,13 +957,11 @@ func QuoRem(op string, c Context, a, b Value) (div, rem Value) {
 		x := a.toType(op, c.Config(), bigRatType).(BigRat).Rat
 		y := b.toType(op, c.Config(), bigRatType).(BigRat).Rat
 		if x.Sign() < 0 {
-			x = x.Set(x) // Copy x.
-			x.Neg(x)
+			x = new(big.Rat).Neg(x) // Do not modify the operand.
 			negX = true
 		}
 		if y.Sign() < 0 {
-			y = y.Set(y) // Copy y.
-			y.Neg(y)
+			y = new(big.Rat).Neg(y) // Do not modify the operand.
 			negY = true
 		}
 		quo := big.NewRat(1, 1).Quo(x, y)
@@ -984,13 +982,11 @@ func QuoRem(op string, c Context, a, b Value) (div, rem Value) {
 		x := a.toType(op, c.Config(), bigFloatType).(BigFloat).Float
 		y := b.toType(op, c.Config(), bigFloatType).(BigFloat).Float
 		if x.Sign() < 0 {
-			x = x.Copy(x)
-			x.Neg(x)
+			x = new(big.Float).Neg(x) // Do not modify the operand.
 			negX = true
 		}
 		if y.Sign() < 0 {
-			y = y.Copy(y)
-			y.Neg(y)
+			y = new(big.Float).Neg(y) // Do not modify the operand.
 			negY = true
 		}
 		quo := big.NewFloat(0).Quo(x, y)
-- 
2.43.0


From cd2863b0b9acdc45ec6786635f7d677684f14e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:27 +0000
Subject: [PATCH 06/48] fix: compute floating-point div and mod at the
 configured precision

big.NewFloat gives 53 bits whatever )prec says.
---
 value/eval.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index 9a07336..a7590d4 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -989,11 +989,15 @@ func QuoRem(op string, c Context, a, b Value) (div, rem Value) {
 			y = new(big.Float).Neg(y) // Do not modify the operand.
 			negY = true
 		}
-		quo := big.NewFloat(0).Quo(x, y)
+		quo := newFloat(c).Quo(x, y)
 		iquo, _ := quo.Int(nil)
-		// quo is the division, iquo is its integer truncation. Remainder is (quo-iquo)*y.
-		rem := quo.Sub(quo, big.NewFloat(0).SetInt(iquo))
-		rem.Mul(rem, y)
+		// quo is the division, iquo is its integer truncation. Remainder is x-iquo*y.
+		rem := newFloat(c).SetInt(iquo)
+		rem.Sub(x, rem.Mul(rem, y))
+		if rem.Sign() < 0 { // The division rounded up to an integer.
+			iquo.Sub(iquo, bigIntOne.Int)
+			rem.Add(rem, y)
+		}
 		if negX && rem.Sign() != 0 {
 			rem.Sub(y, rem)
 			iquo.Add(iquo, bigIntOne.Int)
-- 
2.43.0


From a4fa69ba69a517636057752c59dd004f3b076333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:27 +0000
Subject: [PATCH 07/48] fix: trigonometric functions must not modify their
 operand

sin, cos and tan reduced the argument in place, so x = -10.5; sin x changed x.
Cosine also skipped the reduction for negative arguments, so cos -1000 was
-5.5e355.
---
 value/sin.go  | 10 +++++-----
 value/sinh.go |  6 ++----
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/value/sin.go b/value/sin.go
index b40ce30..17fb175 100644
--- a/value/sin.go
+++ b/value/sin.go
@@ -35,7 +35,7 @@ func tan(c Context, v Value) Value {
 		}
 		v = u.real
 	}
-	x := floatSelf(c, v).Float
+	x := newFloat(c).Set(floatSelf(c, v).Float) // Do not modify the operand.
 	if x.IsInf() {
 		Errorf("tangent of infinity")
 	}
@@ -62,6 +62,7 @@ func floatSin(c Context, x *big.Float) *big.Float {
 	if x.IsInf() {
 		Errorf("sine of infinity")
 	}
+	x = newFloat(c).Set(x) // Do not modify the operand.
 	negate := false
 	if x.Sign() < 0 {
 		x.Neg(x)
@@ -87,6 +88,7 @@ func floatCos(c Context, x *big.Float) *big.Float {
 	if x.IsInf() {
 		Errorf("cosine of infinity")
 	}
+	x = newFloat(c).Abs(x) // Do not modify the operand. Cosine is even.
 	twoPiReduce(c, x)
 
 	// cos(x) = 1 - x²/2! + x⁴/4! - ...
@@ -184,11 +186,9 @@ func complexCos(c Context, v Complex) Value {
 
 func complexTan(c Context, v Complex) Value {
 	// Use the formula: tan(x+yi) = (sin(2x) + i sinh (2y))/(cos(2x) + cosh(2y))
-	x := floatSelf(c, v.real).Float
-	y := floatSelf(c, v.imag).Float
 	// Double them - all the arguments are 2X.
-	x.Mul(x, floatTwo)
-	y.Mul(y, floatTwo)
+	x := newFloat(c).Mul(floatSelf(c, v.real).Float, floatTwo)
+	y := newFloat(c).Mul(floatSelf(c, v.imag).Float, floatTwo)
 	sin2X := floatSin(c, x)
 	sinh2Y := floatSinh(c, y)
 	cos2X := floatCos(c, x)
diff --git a/value/sinh.go b/value/sinh.go
index e006585..a23967e 100644
--- a/value/sinh.go
+++ b/value/sinh.go
@@ -143,11 +143,9 @@ func complexCosh(c Context, v Complex) Value {
 func complexTanh(c Context, v Complex) Value {
 	// Use the formula: tanh(x+yi) = (sinh(2x) + i sin(2y)/(cosh(2x) + cos(2y))
 	// First turn v into (a + bi) where a and b are big.Floats.
-	x := floatSelf(c, v.real).Float
-	y := floatSelf(c, v.imag).Float
 	// Double them - all the arguments are 2X.
-	x.Mul(x, floatTwo)
-	y.Mul(y, floatTwo)
+	x := newFloat(c).Mul(floatSelf(c, v.real).Float, floatTwo)
+	y := newFloat(c).Mul(floatSelf(c, v.imag).Float, floatTwo)
 	sinh2X := floatSinh(c, x)
 	sin2Y := floatSin(c, y)
 	cosh2X := floatCosh(c, x)
-- 
2.43.0


From e7db5728ec6bf8c7a54ea080afaff3acda8f6af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:38 +0000
Subject: [PATCH 08/48] fix: rotate and transpose matrices with no elements

---
 value/matrix.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/value/matrix.go b/value/matrix.go
index 63fc2e6..40649da 100644
--- a/value/matrix.go
+++ b/value/matrix.go
@@ -454,8 +454,11 @@ func (m *Matrix) rotate(n int) Value {
 	if m.Rank() == 0 {
 		return &Matrix{}
 	}
-	elems := newVectorEditor(m.data.Len(), nil)
 	dim := m.shape[m.Rank()-1]
+	if dim == 0 {
+		return m
+	}
+	elems := newVectorEditor(m.data.Len(), nil)
 	n %= dim
 	if n < 0 {
 		n += dim
@@ -475,12 +478,12 @@ func (m *Matrix) vrotate(n int) Value {
 	if m.Rank() == 0 {
 		return &Matrix{}
 	}
-	if m.Rank() == 1 {
+	if m.Rank() == 1 || m.data.Len() == 0 {
 		return m
 	}
 
 	elems := newVectorEditor(m.data.Len(), nil)
-	dim := m.data.Len() / m.shape[0]
+	dim := m.ElemSize()
 
 	n *= dim
 	n %= m.data.Len()
@@ -507,6 +510,9 @@ func (m *Matrix) transpose(c Context) *Matrix {
 	if len(m.shape) == 2 {
 		data := newVectorEditor(m.data.Len(), nil)
 		xdim, ydim := m.shape[0], m.shape[1] // For new matrix.
+		if ydim == 0 {
+			return NewMatrix([]int{ydim, xdim}, m.data)
+		}
 		pfor(true, 1, data.Len(), func(lo, hi int) {
 			nx := lo / ydim
 			ny := lo % ydim
-- 
2.43.0


From 216f4b77832e43f8b866e2ab6a6b800be9bd8e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:38 +0000
Subject: [PATCH 09/48] fix: catenate matrices with no rows

---
 value/matrix.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/value/matrix.go b/value/matrix.go
index 40649da..d7ea675 100644
--- a/value/matrix.go
+++ b/value/matrix.go
@@ -664,16 +664,14 @@ func (x *Matrix) catenate(y *Matrix) *Matrix {
 		setShape(x, 1)
 		data.Resize(x.data.Len() + y.data.Len())
 		xsize := x.shape[len(x.shape)-1]
-		ysize := y.Size() / nrows
-		copyElems(xsize, xsize, ysize, ysize)
+		copyElems(xsize, xsize, 1, 1)
 
 	case x.Rank()+1 == y.Rank() && sameShape(x.shape, y.shape[:len(y.shape)-1]):
 		// elem, list
 		setShape(y, 1)
 		data.Resize(y.data.Len() + x.data.Len())
-		xsize := x.Size() / nrows
 		ysize := y.shape[len(y.shape)-1]
-		copyElems(xsize, xsize, ysize, ysize)
+		copyElems(1, 1, ysize, ysize)
 
 	case x.Rank() == 1 && x.shape[0] == 1 && y.Rank() > 1:
 		// scalar extension, list
-- 
2.43.0


From 935adae62a9dfa3a3ff333a35e3b49d9b6004583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:38 +0000
Subject: [PATCH 10/48] fix: decode, encode and iota of matrices with no
 elements

---
 value/binary.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/value/binary.go b/value/binary.go
index e0f578d..4139ee1 100644
--- a/value/binary.go
+++ b/value/binary.go
@@ -994,7 +994,7 @@ func init() {
 						Errorf("decode of length %d and shape %s", A.Len(), NewIntVector(B.shape...))
 					}
 					shape := B.shape[1:]
-					elems := newVectorEditor(B.data.Len()/B.shape[0], nil)
+					elems := newVectorEditor(size(shape), zero)
 					get := func(v *Vector, i int) Value {
 						if v.Len() == 1 {
 							return v.At(0)
@@ -1005,6 +1005,9 @@ func init() {
 					if B.shape[0] > n {
 						n = B.shape[0]
 					}
+					if A.Len() == 0 || B.shape[0] == 0 {
+						n = 0 // Like vectors, empty operands decode to zero.
+					}
 					pfor(true, n, elems.Len(), func(lo, hi int) {
 						for j := lo; j < hi; j++ {
 							result := Value(zero)
@@ -1043,7 +1046,7 @@ func init() {
 					// of how modulo arithmetic works.
 					const op = "encode"
 					A, B := u.(*Vector), v.(*Vector)
-					if A.AllChars() {
+					if A.Len() > 0 && A.AllChars() {
 						// Special case for times.
 						return encodeTime(c, A, B)
 					}
@@ -1178,14 +1181,14 @@ func init() {
 					if len(shape) == 0 {
 						shape = []int{1}
 					}
-					n := A.data.Len() / A.shape[0] // elements in each comparison
-					indices := newVectorEditor(B.data.Len()/n, nil)
-					pfor(true, n, B.data.Len()/n, func(lo, hi int) {
+					n := A.ElemSize() // elements in each comparison
+					indices := newVectorEditor(size(shape), nil)
+					pfor(true, n, indices.Len(), func(lo, hi int) {
 						for i := lo; i < hi; i++ {
 							indices.Set(i, Int(origin-1))
-							for j := 0; j < A.data.Len(); j += n {
-								if allEqual(c, A.data, j, B.data, i*n, n) {
-									indices.Set(i, Int(j/n+origin))
+							for j := 0; j < A.shape[0]; j++ {
+								if allEqual(c, A.data, j*n, B.data, i*n, n) {
+									indices.Set(i, Int(j+origin))
 									break
 								}
 							}
-- 
2.43.0


From 0bc62f306f0ba6518f6916423ed87322e294fda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:17 +0000
Subject: [PATCH 11/48] fix: sel, up and down of matrices with no rows

---
 value/binary.go | 8 +++++++-
 value/matrix.go | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/value/binary.go b/value/binary.go
index 4139ee1..3f53287 100644
--- a/value/binary.go
+++ b/value/binary.go
@@ -1523,7 +1523,13 @@ func init() {
 					result := m.data.sel(count.data, m.shape[len(m.shape)-1])
 					newShape := make([]int, len(m.shape))
 					copy(newShape, m.shape)
-					newShape[len(m.shape)-1] = result.Len() / size(m.shape[:len(m.shape)-1])
+					if rows := size(m.shape[:len(m.shape)-1]); rows > 0 {
+						newShape[len(m.shape)-1] = result.Len() / rows
+					} else {
+						// No data; select from a row to find the number of columns.
+						row := newIota(0, m.shape[len(m.shape)-1])
+						newShape[len(m.shape)-1] = row.sel(count.data, row.Len()).Len()
+					}
 					return NewMatrix(newShape, result)
 				},
 			},
diff --git a/value/matrix.go b/value/matrix.go
index d7ea675..ac9ca4f 100644
--- a/value/matrix.go
+++ b/value/matrix.go
@@ -491,7 +491,7 @@ func (m *Matrix) vrotate(n int) Value {
 		n += m.data.Len()
 	}
 
-	pfor(true, dim, m.data.Len()/dim, func(lo, hi int) {
+	pfor(true, dim, m.shape[0], func(lo, hi int) {
 		for i := lo; i < hi; i++ {
 			j := i * dim
 			n := (n + j) % m.data.Len()
@@ -1044,7 +1044,7 @@ func (m *Matrix) grade(c Context) *Vector {
 		x[i] = i
 	}
 	v := m.data
-	stride := v.Len() / m.shape[0]
+	stride := m.ElemSize()
 	sort.Slice(x, func(i, j int) bool {
 		i = x[i] * stride
 		j = x[j] * stride
-- 
2.43.0


From e21066d135398050506aed095ef2d0981217c8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:17 +0000
Subject: [PATCH 12/48] fix: report an inner product along an empty dimension

---
 value/eval.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/value/eval.go b/value/eval.go
index a7590d4..82cb779 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -264,6 +264,9 @@ func innerProduct(c Context, u Value, left, right string, v Value) Value {
 			Errorf("inner product: mismatched shapes %s and %s", NewIntVector(u.shape...), NewIntVector(v.shape...))
 		}
 		n := v.shape[0]
+		if n == 0 {
+			Errorf("empty inner product")
+		}
 		vstride := v.data.Len() / n
 		data := newVectorEditor(u.data.Len()/n*vstride, nil)
 		pfor(safeBinary(left) && safeBinary(right), 1, data.Len(), func(lo, hi int) {
-- 
2.43.0


From 35dbb570aaf148659b6472d532260c28d29a2780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:17 +0000
Subject: [PATCH 13/48] fix: index a matrix whose elements are empty

---
 value/index.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/value/index.go b/value/index.go
index 4d1dc10..9f72ecb 100644
--- a/value/index.go
+++ b/value/index.go
@@ -227,7 +227,10 @@ func Index(context Context, top, left Expr, index []Expr) Value {
 
 	data := newVectorEditor(ix.outSize, nil)
 	copySize := int(size(ix.shape[ix.indexDim:]))
-	n := data.Len() / copySize
+	n := 0
+	if copySize > 0 {
+		n = data.Len() / copySize
+	}
 
 	if ix.indexVector != nil {
 		for i, v := range ix.indexVector.All() {
@@ -335,7 +338,10 @@ func IndexAssign(context Context, top, left Expr, lvarx *VarExpr, index []Expr,
 	}
 
 	copySize := int(size(ix.shape[ix.indexDim:]))
-	n := ix.outSize / copySize
+	n := 0
+	if copySize > 0 {
+		n = ix.outSize / copySize
+	}
 	// If the elements being assigned differ, the order matters because
 	// the same index may appear more than once.
 	pfor(rscalar != nil, copySize, n, func(lo, hi int) {
-- 
2.43.0


From ffb7f322a2a532e73ea79a16f9173eea4de65efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:10 +0000
Subject: [PATCH 14/48] fix: do not append to a shape that other matrices may
 share

---
 value/eval.go   | 3 ++-
 value/matrix.go | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index 82cb779..98de745 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -9,6 +9,7 @@ import (
 	"iter"
 	"math/big"
 	"runtime"
+	"slices"
 	"strings"
 )
 
@@ -316,7 +317,7 @@ func outerProduct(c Context, u Value, op string, v Value) Value {
 				data.Set(x, c.EvalBinary(udata.At(x/vdata.Len()), op, vdata.At(x%vdata.Len())))
 			}
 		})
-		return NewMatrix(append(u.Shape(), v.Shape()...), data.Publish())
+		return NewMatrix(slices.Concat(u.Shape(), v.Shape()), data.Publish())
 	}
 	Errorf("can't do outer product on %s", whichType(u))
 	panic("not reached")
diff --git a/value/matrix.go b/value/matrix.go
index ac9ca4f..fb1c5bf 100644
--- a/value/matrix.go
+++ b/value/matrix.go
@@ -1033,7 +1033,7 @@ func (m *Matrix) mix(c Context) Value {
 			data.Append(elem)
 		}
 	}
-	return NewMatrix(append(m.shape, shape...), data.Publish())
+	return NewMatrix(slices.Concat(m.shape, shape), data.Publish())
 }
 
 // grade returns as a Vector the indexes that sort the rows of m
-- 
2.43.0


From c4eda9f423a2941babf6a1e2e3b7ea3431257dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:10 +0000
Subject: [PATCH 15/48] fix: do not parallelize or reassociate a user-defined
 op named like a built-in

---
 value/eval.go | 53 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index 98de745..952615e 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -167,21 +167,26 @@ func Product(c Context, u Value, op string, v Value) Value {
 }
 
 // safeBinary reports whether the binary operator op is safe to parallelize.
-func safeBinary(op string) bool {
+func safeBinary(c Context, op string) bool {
 	// ? uses the random number generator,
 	// which maintains global state.
-	return BinaryOps[op] != nil && op != "?"
+	// A user-defined op may share a built-in's name.
+	return BinaryOps[op] != nil && op != "?" && !c.UserDefined(op, true)
 }
 
 // safeUnary reports whether the unary operator op is safe to parallelize.
-func safeUnary(op string) bool {
-	// ? uses the random number generator,
+func safeUnary(c Context, op string) bool {
+	// ? and rand use the random number generator,
 	// which maintains global state.
-	return UnaryOps[op] != nil && op != "?"
+	// A user-defined op may share a built-in's name.
+	return UnaryOps[op] != nil && op != "?" && op != "rand" && !c.UserDefined(op, false)
 }
 
 // knownAssoc reports whether the binary op is known to be associative.
-func knownAssoc(op string) bool {
+func knownAssoc(c Context, op string) bool {
+	if c.UserDefined(op, true) {
+		return false
+	}
 	switch op {
 	case "+", "*", "min", "max", "or", "and", "xor", "|", "&", "^":
 		return true
@@ -270,7 +275,7 @@ func innerProduct(c Context, u Value, left, right string, v Value) Value {
 		}
 		vstride := v.data.Len() / n
 		data := newVectorEditor(u.data.Len()/n*vstride, nil)
-		pfor(safeBinary(left) && safeBinary(right), 1, data.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, left) && safeBinary(c, right), 1, data.Len(), func(lo, hi int) {
 			for x := lo; x < hi; x++ {
 				i := x / vstride * n
 				j := x % vstride
@@ -301,7 +306,7 @@ func outerProduct(c Context, u Value, op string, v Value) Value {
 	case *Vector:
 		v := v.(*Vector)
 		data := newVectorEditor(u.Len()*v.Len(), nil)
-		pfor(safeBinary(op), 1, data.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, data.Len(), func(lo, hi int) {
 			for x := lo; x < hi; x++ {
 				data.Set(x, c.EvalBinary(u.At(x/v.Len()), op, v.At(x%v.Len())))
 			}
@@ -312,7 +317,7 @@ func outerProduct(c Context, u Value, op string, v Value) Value {
 		udata := u.Data()
 		vdata := v.Data()
 		data := newVectorEditor(udata.Len()*vdata.Len(), nil)
-		pfor(safeBinary(op), 1, data.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, data.Len(), func(lo, hi int) {
 			for x := lo; x < hi; x++ {
 				data.Set(x, c.EvalBinary(udata.At(x/vdata.Len()), op, vdata.At(x%vdata.Len())))
 			}
@@ -349,7 +354,7 @@ func Reduce(c Context, op string, v Value) Value {
 		}
 		shape := v.shape[:v.Rank()-1]
 		data := newVectorEditor(size(shape), nil)
-		pfor(safeBinary(op), stride, data.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), stride, data.Len(), func(lo, hi int) {
 			for i := lo; i < hi; i++ {
 				index := stride * i
 				pos := index + stride - 1
@@ -393,7 +398,7 @@ func ReduceFirst(c Context, op string, v Value) Value {
 	}
 	shape := m.shape[1:m.Rank()]
 	data := newVectorEditor(size(shape), nil)
-	pfor(safeBinary(op), stride, data.Len(), func(lo, hi int) {
+	pfor(safeBinary(c, op), stride, data.Len(), func(lo, hi int) {
 		for i := lo; i < hi; i++ {
 			pos := i + m.data.Len() - stride
 			acc := m.data.At(pos)
@@ -424,7 +429,7 @@ func Scan(c Context, op string, v Value) Value {
 		// This is fundamentally O(n²) in the general case.
 		// We make it O(n) for known associative ops.
 		values.Set(0, v.At(0))
-		if knownAssoc(op) {
+		if knownAssoc(c, op) {
 			for i := 1; i < v.Len(); i++ {
 				values.Set(i, c.EvalBinary(values.At(i-1), op, v.At(i)))
 			}
@@ -444,13 +449,13 @@ func Scan(c Context, op string, v Value) Value {
 		}
 		data := newVectorEditor(v.data.Len(), nil)
 		nrows := size(v.shape[:len(v.shape)-1])
-		pfor(safeBinary(op), stride, nrows, func(lo, hi int) {
+		pfor(safeBinary(c, op), stride, nrows, func(lo, hi int) {
 			for i := lo; i < hi; i++ {
 				index := i * stride
 				// This is fundamentally O(n²) in the general case.
 				// We make it O(n) for known associative ops.
 				data.Set(index, v.data.At(index))
-				if knownAssoc(op) {
+				if knownAssoc(c, op) {
 					for j := 1; j < stride; j++ {
 						data.Set(index+j, c.EvalBinary(data.At(index+j-1), op, v.data.At(index+j)))
 					}
@@ -653,7 +658,7 @@ func Each(c Context, op string, v Value) Value {
 func unaryVectorOp(c Context, op string, i Value) Value {
 	u := i.(*Vector)
 	n := newVectorEditor(u.Len(), nil)
-	pfor(safeUnary(op), 1, n.Len(), func(lo, hi int) {
+	pfor(safeUnary(c, op), 1, n.Len(), func(lo, hi int) {
 		for k := lo; k < hi; k++ {
 			n.Set(k, c.EvalUnary(op, u.At(k)))
 		}
@@ -665,7 +670,7 @@ func unaryVectorOp(c Context, op string, i Value) Value {
 func unaryMatrixOp(c Context, op string, i Value) Value {
 	u := i.(*Matrix)
 	n := newVectorEditor(u.data.Len(), nil)
-	pfor(safeUnary(op), 1, n.Len(), func(lo, hi int) {
+	pfor(safeUnary(c, op), 1, n.Len(), func(lo, hi int) {
 		for k := lo; k < hi; k++ {
 			n.Set(k, c.EvalUnary(op, u.data.At(k)))
 		}
@@ -678,7 +683,7 @@ func binaryVectorOp(c Context, i Value, op string, j Value) Value {
 	u, v := i.(*Vector), j.(*Vector)
 	if u.Len() == 1 {
 		n := newVectorEditor(v.Len(), nil)
-		pfor(safeBinary(op), 1, n.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 			for k := lo; k < hi; k++ {
 				n.Set(k, c.EvalBinary(u.At(0), op, v.At(k)))
 			}
@@ -687,7 +692,7 @@ func binaryVectorOp(c Context, i Value, op string, j Value) Value {
 	}
 	if v.Len() == 1 {
 		n := newVectorEditor(u.Len(), nil)
-		pfor(safeBinary(op), 1, n.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 			for k := lo; k < hi; k++ {
 				n.Set(k, c.EvalBinary(u.At(k), op, v.At(0)))
 			}
@@ -696,7 +701,7 @@ func binaryVectorOp(c Context, i Value, op string, j Value) Value {
 	}
 	u.sameLength(v)
 	n := newVectorEditor(u.Len(), nil)
-	pfor(safeBinary(op), 1, n.Len(), func(lo, hi int) {
+	pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 		for k := lo; k < hi; k++ {
 			n.Set(k, c.EvalBinary(u.At(k), op, v.At(k)))
 		}
@@ -716,7 +721,7 @@ func binaryMatrixOp(c Context, i Value, op string, j Value) Value {
 		// Scalar op Matrix.
 		shape = v.shape
 		n = newVectorEditor(v.data.Len(), nil)
-		pfor(safeBinary(op), 1, n.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 			for k := lo; k < hi; k++ {
 				n.Set(k, c.EvalBinary(u.data.At(0), op, v.data.At(k)))
 			}
@@ -724,7 +729,7 @@ func binaryMatrixOp(c Context, i Value, op string, j Value) Value {
 	case isScalar(v):
 		// Matrix op Scalar.
 		n = newVectorEditor(u.data.Len(), nil)
-		pfor(safeBinary(op), 1, n.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 			for k := lo; k < hi; k++ {
 				n.Set(k, c.EvalBinary(u.data.At(k), op, v.data.At(0)))
 			}
@@ -734,7 +739,7 @@ func binaryMatrixOp(c Context, i Value, op string, j Value) Value {
 		shape = v.shape
 		n = newVectorEditor(v.data.Len(), nil)
 		dim := u.shape[0]
-		pfor(safeBinary(op), 1, n.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 			for k := lo; k < hi; k++ {
 				n.Set(k, c.EvalBinary(u.data.At(k%dim), op, v.data.At(k)))
 			}
@@ -743,7 +748,7 @@ func binaryMatrixOp(c Context, i Value, op string, j Value) Value {
 		// Matrix op Vector.
 		n = newVectorEditor(u.data.Len(), nil)
 		dim := v.shape[0]
-		pfor(safeBinary(op), 1, n.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 			for k := lo; k < hi; k++ {
 				n.Set(k, c.EvalBinary(u.data.At(k), op, v.data.At(k%dim)))
 			}
@@ -752,7 +757,7 @@ func binaryMatrixOp(c Context, i Value, op string, j Value) Value {
 		// Matrix op Matrix.
 		u.sameShape(v)
 		n = newVectorEditor(u.data.Len(), nil)
-		pfor(safeBinary(op), 1, n.Len(), func(lo, hi int) {
+		pfor(safeBinary(c, op), 1, n.Len(), func(lo, hi int) {
 			for k := lo; k < hi; k++ {
 				n.Set(k, c.EvalBinary(u.data.At(k), op, v.data.At(k)))
 			}
-- 
2.43.0


From a8b6c2c0fb273df7d8ab8179015a5a134de63d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:36 +0000
Subject: [PATCH 16/48] fix: compute rand at the configured floating-point
 precision

---
 value/unary.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/value/unary.go b/value/unary.go
index acc6ca4..99eb537 100644
--- a/value/unary.go
+++ b/value/unary.go
@@ -156,8 +156,8 @@ func bigFloatRand(c Context, f *big.Float) Value {
 	randInt := big.NewInt(0)
 	bigIntRand(c, randInt, max)
 	// Make it a float and normalize it.
-	x := big.NewFloat(0).SetInt(randInt)
-	x.Quo(x, big.NewFloat(0).SetInt(max))
+	x := newFloat(c).SetInt(randInt)
+	x.Quo(x, newFloat(c).SetInt(max))
 	// Finally, scale it up to [0, f).
 	x.Mul(x, f)
 	return BigFloat{x}
-- 
2.43.0


From ccee21648c0c9b92edac1f261348ba46b452a845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:36 +0000
Subject: [PATCH 17/48] fix: hold the random number lock while dealing with ?

---
 value/binary.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/value/binary.go b/value/binary.go
index 3f53287..acad106 100644
--- a/value/binary.go
+++ b/value/binary.go
@@ -938,7 +938,9 @@ func init() {
 					if A > B {
 						Errorf("left operand larger than right in %d?%d", A, B)
 					}
+					c.Config().LockRandom()
 					ints := c.Config().Random().Perm(int(B))
+					c.Config().UnlockRandom()
 					origin := c.Config().Origin()
 					res := newVectorEditor(int(A), nil)
 					for i := range res.Len() {
-- 
2.43.0


From 70fc06aaa82790330447a8bba7e3b325ef65759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:50 +0000
Subject: [PATCH 18/48] fix: built-ins must not call user-defined ops named
 like other built-ins

---
 value/complex.go | 6 +++---
 value/eval.go    | 2 +-
 value/unary.go   | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/value/complex.go b/value/complex.go
index 3197751..b4e6d34 100644
--- a/value/complex.go
+++ b/value/complex.go
@@ -193,9 +193,9 @@ func (c Complex) div(ctx Context, d Complex) Complex {
 func (c Complex) floor(ctx Context) Complex {
 	r := c.real
 	i := c.imag
-	b := NewComplex(ctx.EvalUnary("floor", r), ctx.EvalUnary("floor", i))
-	x := ctx.EvalBinary(r, "mod", one)
-	y := ctx.EvalBinary(i, "mod", one)
+	b := NewComplex(UnaryOps["floor"].EvalUnary(ctx, r), UnaryOps["floor"].EvalUnary(ctx, i))
+	x := BinaryOps["mod"].EvalBinary(ctx, r, one)
+	y := BinaryOps["mod"].EvalBinary(ctx, i, one)
 	if isTrue("floor", ctx.EvalBinary(one, ">", ctx.EvalBinary(x, "+", y))) {
 		return b
 	}
diff --git a/value/eval.go b/value/eval.go
index 952615e..8253845 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -888,7 +888,7 @@ func isTrue(fnName string, v Value) bool {
 
 // sgn is a wrapper for calling "sgn v".
 func sgn(c Context, v Value) int {
-	return int(c.EvalUnary("sgn", v).(Int))
+	return int(UnaryOps["sgn"].EvalUnary(c, v).(Int))
 }
 
 // inverse returns 1/v for any scalar value, errors otherwise.
diff --git a/value/unary.go b/value/unary.go
index 99eb537..02b5a2e 100644
--- a/value/unary.go
+++ b/value/unary.go
@@ -820,7 +820,7 @@ func init() {
 					return NewVectorSeq(flatten(v.(*Vector)))
 				},
 				matrixType: func(c Context, v Value) Value {
-					return c.EvalUnary("flatten", v.(*Matrix).data)
+					return NewVectorSeq(flatten(v.(*Matrix).data))
 				},
 			},
 		},
-- 
2.43.0


From 32c1aaa1a35670eb37ec0ded27923dc2a07034d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:12 +0000
Subject: [PATCH 19/48] fix: apply maxbits to powers of 2, shifts and
 factorials

---
 value/binary.go | 10 +++++++++-
 value/unary.go  | 11 ++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/value/binary.go b/value/binary.go
index acad106..9c274cb 100644
--- a/value/binary.go
+++ b/value/binary.go
@@ -133,8 +133,11 @@ func bigIntExp(c Context, i, j, k *big.Int) *big.Int {
 	if exp < 0 {
 		exp = -exp
 	}
+	// The result has more than exp bits. (Testing exp alone first avoids overflow in the product.)
+	mustFit(c.Config(), exp)
 	// "2" is just shift. math/big should do this, really.
 	if j.Cmp(bigIntTwo.Int) == 0 && exp >= 0 {
+		mustFit(c.Config(), exp+1)
 		return i.Lsh(big.NewInt(1), uint(exp))
 	}
 	mustFit(c.Config(), int64(j.BitLen())*exp)
@@ -523,6 +526,7 @@ func init() {
 					bMinusAFac := factorial(b - a)
 					bFac.Div(bFac, aFac)
 					bFac.Div(bFac, bMinusAFac)
+					mustFit(c.Config(), int64(bFac.BitLen()))
 					return BigInt{bFac}.shrink()
 				},
 			},
@@ -602,7 +606,11 @@ func init() {
 				bigIntType: func(c Context, u, v Value) Value {
 					i, j := u.(BigInt), v.(BigInt)
 					z := bigInt64(0)
-					z.Lsh(i.Int, shiftCount(j))
+					count := shiftCount(j)
+					if i.Sign() != 0 {
+						mustFit(c.Config(), i.BitLen()+int64(count))
+					}
+					z.Lsh(i.Int, count)
 					return z.shrink()
 				},
 				// TODO: lsh for bigfloat
diff --git a/value/unary.go b/value/unary.go
index 02b5a2e..571b38e 100644
--- a/value/unary.go
+++ b/value/unary.go
@@ -7,6 +7,7 @@ package value
 import (
 	"crypto/rand"
 	"fmt"
+	"math"
 	"math/big"
 )
 
@@ -404,7 +405,15 @@ func init() {
 			elementwise: true,
 			fn: [numType]unaryFn{
 				intType: func(c Context, v Value) Value {
-					return BigInt{factorial(int64(v.(Int)))}.shrink()
+					n := int64(v.(Int))
+					if n > 1 {
+						// Estimate first, to avoid a long calculation.
+						lg, _ := math.Lgamma(float64(n))
+						mustFit(c.Config(), int64(lg/math.Ln2))
+					}
+					fac := factorial(n)
+					mustFit(c.Config(), int64(fac.BitLen()))
+					return BigInt{fac}.shrink()
 				},
 			},
 		},
-- 
2.43.0


From a3c50fda8b98f30b4b7d3c2c14d453010c602a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:24 +0000
Subject: [PATCH 20/48] fix: results must use the smallest integer
 representation

---
 value/bigint.go | 4 ++--
 value/binary.go | 8 ++++----
 value/unary.go  | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/value/bigint.go b/value/bigint.go
index dd96492..512aac9 100644
--- a/value/bigint.go
+++ b/value/bigint.go
@@ -188,8 +188,8 @@ func trimEZeros(e byte, s string) string {
 
 // shrink shrinks, if possible, a BigInt down to an Int.
 func (i BigInt) shrink() Value {
-	if i.BitLen() < intBits {
-		return Int(i.Int64())
+	if i.BitLen() <= intBits {
+		return Int(i.Int64()).maybeBig()
 	}
 	return i
 }
diff --git a/value/binary.go b/value/binary.go
index 9c274cb..935dcb2 100644
--- a/value/binary.go
+++ b/value/binary.go
@@ -340,7 +340,7 @@ func init() {
 					if v.(Int) == 0 {
 						Errorf("division by zero")
 					}
-					return u.(Int) / v.(Int)
+					return (u.(Int) / v.(Int)).maybeBig()
 				},
 				bigIntType: func(c Context, u, v Value) Value {
 					if v.(BigInt).Sign() == 0 {
@@ -453,7 +453,7 @@ func init() {
 					}
 					x := u.(BigInt).Int
 					if x.Cmp(bigIntOne.Int) == 0 || x.Sign() == 0 {
-						return u
+						return u.shrink()
 					}
 					return binaryBigIntOp(u, bigIntExpOp(c), v)
 				},
@@ -1273,9 +1273,9 @@ func init() {
 				bigIntType: func(c Context, u, v Value) Value {
 					i, j := u.(BigInt), v.(BigInt)
 					if i.Cmp(j.Int) > 0 {
-						return u
+						return i.shrink()
 					}
-					return v
+					return j.shrink()
 				},
 				bigRatType: func(c Context, u, v Value) Value {
 					i, j := u.(BigRat), v.(BigRat)
diff --git a/value/unary.go b/value/unary.go
index 571b38e..d851e4a 100644
--- a/value/unary.go
+++ b/value/unary.go
@@ -290,7 +290,7 @@ func init() {
 			elementwise: true,
 			fn: [numType]unaryFn{
 				intType: func(c Context, v Value) Value {
-					return -v.(Int)
+					return (-v.(Int)).maybeBig()
 				},
 				bigIntType: func(c Context, v Value) Value {
 					return unaryBigIntOp(c, bigIntWrap((*big.Int).Neg), v)
@@ -478,7 +478,7 @@ func init() {
 					if i < 0 {
 						i = -i
 					}
-					return i
+					return i.maybeBig()
 				},
 				bigIntType: func(c Context, v Value) Value {
 					return unaryBigIntOp(c, bigIntWrap((*big.Int).Abs), v)
-- 
2.43.0


From c67d60aae80844da061ebac0851aeaaf5374f4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:14 +0000
Subject: [PATCH 21/48] fix: send trace, )var and )debug cpu output to the
 configured writers

---
 parse/function.go | 7 +++----
 parse/special.go  | 4 ++--
 run/run.go        | 2 +-
 value/eval.go     | 8 ++------
 4 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/parse/function.go b/parse/function.go
index 5c1a957..fedc1f0 100644
--- a/parse/function.go
+++ b/parse/function.go
@@ -5,8 +5,6 @@
 package parse
 
 import (
-	"fmt"
-
 	"robpike.io/ivy/exec"
 	"robpike.io/ivy/scan"
 	"robpike.io/ivy/value"
@@ -155,6 +153,7 @@ func (p *Parser) functionDefn() {
 }
 
 // function argument
+//
 //	name | '(' args ')'
 func (p *Parser) funcArg() value.Expr {
 	tok := p.next()
@@ -286,7 +285,7 @@ func walk(expr value.Expr, assign bool, f func(value.Expr, bool)) {
 	case *value.Vector:
 	case *value.Matrix:
 	default:
-		fmt.Printf("unknown %T in walk\n", e)
+		value.Errorf("internal error: unknown %T in walk", e)
 	}
 	f(expr, assign)
 }
@@ -300,6 +299,6 @@ func walkVars(expr value.Expr, f func(*value.VarExpr)) {
 			walkVars(e[i], f)
 		}
 	default:
-		fmt.Printf("unknown %T in variable list\n", e)
+		value.Errorf("internal error: unknown %T in variable list", e)
 	}
 }
diff --git a/parse/special.go b/parse/special.go
index 6beb0c8..f4c4a62 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -359,9 +359,9 @@ Switch:
 		if value == nil {
 			p.errorf("undefined global variable %q", name)
 		}
-		fmt.Printf("%s = ", name)
+		p.Printf("%s = ", name)
 		put(conf, conf.Output(), value.Value(), false)
-		fmt.Print("\n")
+		p.Println()
 	default:
 		p.errorf(")%s: not recognized", text)
 	}
diff --git a/run/run.go b/run/run.go
index 6722827..eac4ac8 100644
--- a/run/run.go
+++ b/run/run.go
@@ -93,7 +93,7 @@ func Run(p *parse.Parser, context value.Context, interactive bool) (success bool
 		if interactive {
 			if exprs != nil && conf.Debug("cpu") > 0 {
 				if real, _, _ := conf.CPUTime(); real != 0 {
-					fmt.Printf("(%s)\n", conf.PrintCPUTime())
+					fmt.Fprintf(writer, "(%s)\n", conf.PrintCPUTime())
 				}
 			}
 			fmt.Fprintln(writer)
diff --git a/value/eval.go b/value/eval.go
index 8253845..635b401 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -69,9 +69,7 @@ func (op *unaryOp) EvalUnary(c Context, v Value) Value {
 		}
 		Errorf("unary %s not implemented on type %s", op.name, which)
 	}
-	if c.Config().Tracing(2) {
-		fmt.Printf("\t%s> %s %s\n", c.TraceIndent(), op.name, v)
-	}
+	TraceUnary(c, 2, op.name, v)
 	return fn(c, v)
 }
 
@@ -124,9 +122,7 @@ func (op *binaryOp) EvalBinary(c Context, u, v Value) Value {
 		}
 		Errorf("binary %s not implemented on type %s", op.name, whichV)
 	}
-	if conf.Tracing(2) {
-		fmt.Printf("\t%s> %s %s %s\n", c.TraceIndent(), u, op.name, v)
-	}
+	TraceBinary(c, 2, u, op.name, v)
 	return fn(c, u, v)
 }
 
-- 
2.43.0


From 71e29b37e5683fe0a43956b489bc75d70d593731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:30 +0000
Subject: [PATCH 22/48] fix: release files and nesting depth when )get fails

---
 parse/special.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parse/special.go b/parse/special.go
index f4c4a62..ac644b6 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -386,15 +386,16 @@ func (p *Parser) runFromFile(context value.Context, name string) {
 	if err != nil {
 		p.errorf("%s", err)
 	}
+	defer fd.Close()
 	p.runFromReader(context, name, fd, true)
 }
 
 // runFromReader executes the contents of the io.Reader, identified by name.
 func (p *Parser) runFromReader(context value.Context, name string, reader io.Reader, stopOnError bool) {
-	runDepth++
-	if runDepth > 10 {
+	if runDepth >= 10 {
 		p.errorf("invocations of %q nested too deep", name)
 	}
+	runDepth++
 	defer func() {
 		runDepth--
 		err := recover()
@@ -417,10 +418,10 @@ func (p *Parser) runFromReader(context value.Context, name string, reader io.Rea
 }
 
 func (p *Parser) runUntilError(name string) error {
-	runDepth++
-	if runDepth > 10 {
+	if runDepth >= 10 {
 		p.errorf("get %q nested too deep", name)
 	}
+	runDepth++
 	defer func() {
 		runDepth--
 		err := recover()
-- 
2.43.0


From 4d37509601dbdbc2847bd5f3f5eee0f701fdc3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:30 +0000
Subject: [PATCH 23/48] fix: )prompt must report the prompt

---
 parse/special.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/special.go b/parse/special.go
index ac644b6..84c53e2 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -312,7 +312,7 @@ Switch:
 		conf.SetFloatPrec(uint(prec))
 	case "prompt":
 		if p.peek().Type == scan.EOF {
-			p.Printf("%q\n", conf.Format())
+			p.Printf("%q\n", conf.Prompt())
 			break Switch
 		}
 		conf.SetPrompt(p.getString())
-- 
2.43.0


From 32bbd485bf1895b75b4147e598e6df31122ac643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:21 +0000
Subject: [PATCH 24/48] fix: )get must run in and keep the input and output
 bases

---
 parse/special.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/special.go b/parse/special.go
index 84c53e2..326f2e8 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -222,11 +222,14 @@ Switch:
 		}
 		conf.SetFormat(p.getString())
 	case "get":
+		// Must restore ibase, obase for the file, which may then change them.
+		conf.SetBase(ibase, obase)
 		if p.peek().Type == scan.EOF {
 			p.runFromFile(p.context, defaultFile)
 		} else {
 			p.runFromFile(p.context, p.getString())
 		}
+		ibase, obase = conf.Base()
 	case "maxbits":
 		if p.peek().Type == scan.EOF {
 			p.Printf("%d\n", conf.MaxBits())
-- 
2.43.0


From 630c1c266a635cfe6e5b4ad8053496f8f84f0432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:21 +0000
Subject: [PATCH 25/48] fix: )save must close the parentheses of nested text
 vectors

---
 parse/save.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parse/save.go b/parse/save.go
index 847c312..7afda60 100644
--- a/parse/save.go
+++ b/parse/save.go
@@ -158,6 +158,7 @@ func sortSyms(syms map[string]*value.Var) []saveSym {
 func put(conf *config.Config, out io.Writer, val value.Value, withParens bool) {
 	if withParens {
 		fmt.Fprint(out, "(")
+		defer fmt.Fprint(out, ")")
 	}
 	switch val := val.(type) {
 	case value.Char:
@@ -203,7 +204,4 @@ func put(conf *config.Config, out io.Writer, val value.Value, withParens bool) {
 	default:
 		value.Errorf("internal error: can't save type %T", val)
 	}
-	if withParens {
-		fmt.Fprint(out, ")")
-	}
 }
-- 
2.43.0


From a57829c62c06c90c509911884b8eb127ce5cc4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:21 +0000
Subject: [PATCH 26/48] fix: )save must preserve one-element vectors

---
 parse/save.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/parse/save.go b/parse/save.go
index 7afda60..b37e4e3 100644
--- a/parse/save.go
+++ b/parse/save.go
@@ -187,6 +187,12 @@ func put(conf *config.Config, out io.Writer, val value.Value, withParens bool) {
 		fmt.Fprintf(out, "j")
 		put(conf, out, imag, false)
 	case *value.Vector:
+		if val.Len() == 1 {
+			// Otherwise it would be read back as a scalar.
+			fmt.Fprint(out, "box ")
+			put(conf, out, val.At(0), !value.IsScalarType(val.At(0)))
+			return
+		}
 		if val.AllChars() {
 			fmt.Fprintf(out, "%q", val.Sprint(conf))
 			return
@@ -198,8 +204,10 @@ func put(conf *config.Config, out io.Writer, val value.Value, withParens bool) {
 			put(conf, out, v, !value.IsScalarType(v))
 		}
 	case *value.Matrix:
-		put(conf, out, value.NewIntVector(val.Shape()...), false)
-		fmt.Fprint(out, " rho ")
+		for _, dim := range val.Shape() {
+			fmt.Fprintf(out, "%d ", dim)
+		}
+		fmt.Fprint(out, "rho ")
 		put(conf, out, val.Data(), false)
 	default:
 		value.Errorf("internal error: can't save type %T", val)
-- 
2.43.0


From ccbb0172b2c541932a746e4955e67b2fe935c72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:22 +0000
Subject: [PATCH 27/48] fix: report errors writing the )save file

---
 parse/save.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parse/save.go b/parse/save.go
index b37e4e3..d550e22 100644
--- a/parse/save.go
+++ b/parse/save.go
@@ -64,9 +64,16 @@ func save(c *exec.Context, file string) {
 		if err != nil {
 			value.Errorf("%s", err)
 		}
-		defer fd.Close()
 		buf := bufio.NewWriter(fd)
-		defer buf.Flush()
+		defer func() {
+			err := buf.Flush()
+			if cerr := fd.Close(); err == nil {
+				err = cerr
+			}
+			if err != nil {
+				value.Errorf("%s", err)
+			}
+		}()
 		out = buf
 	}
 
-- 
2.43.0


From db1da8850b4beee6db96a9a850918cda5db14c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:54 +0000
Subject: [PATCH 28/48] fix: a failed op definition must leave nothing behind

---
 parse/function.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse/function.go b/parse/function.go
index fedc1f0..7fe3c64 100644
--- a/parse/function.go
+++ b/parse/function.go
@@ -5,6 +5,8 @@
 package parse
 
 import (
+	"slices"
+
 	"robpike.io/ivy/exec"
 	"robpike.io/ivy/scan"
 	"robpike.io/ivy/value"
@@ -57,6 +59,7 @@ func (p *Parser) functionDefn() {
 	}
 
 	// Prepare to declare arguments.
+	defer p.context.ForgetAll()
 	argNames := make(map[string]bool)
 	declare := func(x *value.VarExpr) {
 		if x.Name == fn.Name {
@@ -89,8 +92,8 @@ func (p *Parser) functionDefn() {
 
 	// Define it, but prepare to undefine if there's trouble.
 	prevDefn := installMap[fn.Name]
+	prevDefs := slices.Clone(p.context.Defs)
 	p.context.Define(fn)
-	defer p.context.ForgetAll()
 	succeeded := false
 	defer func() {
 		if !succeeded {
@@ -99,6 +102,7 @@ func (p *Parser) functionDefn() {
 			} else {
 				installMap[fn.Name] = prevDefn
 			}
+			p.context.Defs = prevDefs
 		}
 	}()
 
-- 
2.43.0


From eaf7bc2f8883c87962655fc52d68e282799ef606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:54 +0000
Subject: [PATCH 29/48] fix: )debug parse crashed on the definition of a unary
 op

---
 parse/function.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse/function.go b/parse/function.go
index 7fe3c64..2b4a014 100644
--- a/parse/function.go
+++ b/parse/function.go
@@ -152,7 +152,11 @@ func (p *Parser) functionDefn() {
 	funcVars(fn)
 	succeeded = true
 	if p.context.Config().Debug("parse") > 0 {
-		p.Printf("op %s %s %s = %s\n", fn.Left.ProgString(), fn.Name, fn.Right.ProgString(), tree(fn.Body))
+		left := ""
+		if fn.Left != nil {
+			left = fn.Left.ProgString() + " "
+		}
+		p.Printf("op %s%s %s = %s\n", left, fn.Name, fn.Right.ProgString(), tree(fn.Body))
 	}
 }
 
-- 
2.43.0


From 245bcd74e50428ad1397e8275d6c30c3b50aee00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:18 +0000
Subject: [PATCH 30/48] fix: an assignment inside an expression must yield the
 assigned value

---
 exec/context.go |  3 +++
 value/eval.go   |  2 +-
 value/index.go  |  2 +-
 value/vector.go | 17 +++++++++++++++--
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/exec/context.go b/exec/context.go
index 8d92010..ee8297b 100644
--- a/exec/context.go
+++ b/exec/context.go
@@ -70,6 +70,7 @@ func (c *Context) Global(name string) *value.Var {
 
 // AssignGlobal assigns to the named global variable, creating it if needed.
 func (c *Context) AssignGlobal(name string, val value.Value) {
+	val = val.Inner()
 	v := c.Globals[name]
 	if v == nil {
 		c.Globals[name] = value.NewVar(name, val)
@@ -132,6 +133,7 @@ func (c *Context) Eval(exprs []value.Expr) []value.Value {
 
 // EvalUnary evaluates a unary operator, including reductions and scans.
 func (c *Context) EvalUnary(op string, right value.Value) value.Value {
+	right = right.Inner()
 	if len(op) > 1 {
 		switch op[len(op)-1] {
 		case '/':
@@ -187,6 +189,7 @@ func (c *Context) UserDefined(op string, isBinary bool) bool {
 
 // EvalBinary evaluates a binary operator, including products.
 func (c *Context) EvalBinary(left value.Value, op string, right value.Value) value.Value {
+	left, right = left.Inner(), right.Inner()
 	// Special handling for the equal and non-equal operators, which must avoid
 	// type conversions involving Char.
 	if op == "==" || op == "!=" {
diff --git a/value/eval.go b/value/eval.go
index 635b401..80cbc47 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -1024,7 +1024,7 @@ func EvalFunctionBody(context Context, fnName string, body []Expr) Value {
 	for _, e := range body {
 		if d, ok := e.(Decomposable); ok && d.Operator() == ":" {
 			left, right := d.Operands()
-			if isTrue(fnName, left.Eval(context)) {
+			if isTrue(fnName, left.Eval(context).Inner()) {
 				return right.Eval(context)
 			}
 			continue
diff --git a/value/index.go b/value/index.go
index 9f72ecb..a4fb568 100644
--- a/value/index.go
+++ b/value/index.go
@@ -92,7 +92,7 @@ func (ix *indexState) init(context Context, top, left Expr, lvarx *VarExpr, inde
 		}
 		ix.lhs = lvar.value
 	} else {
-		ix.lhs = left.Eval(context)
+		ix.lhs = left.Eval(context).Inner()
 	}
 	switch lhs := ix.lhs.(type) {
 	default:
diff --git a/value/vector.go b/value/vector.go
index d1c1562..5fc980e 100644
--- a/value/vector.go
+++ b/value/vector.go
@@ -71,10 +71,23 @@ func (v *vectorEditor) Len() int { return v.t.Len() }
 func (v *vectorEditor) At(i int) Value { return v.t.At(i) }
 
 // Set sets the i'th element of v to x.
-func (v *vectorEditor) Set(i int, x Value) { v.t.Set(i, x) }
+func (v *vectorEditor) Set(i int, x Value) {
+	if q, ok := x.(QuietValue); ok {
+		x = q.Inner()
+	}
+	v.t.Set(i, x)
+}
 
 // Append appends the values to v.
-func (v *vectorEditor) Append(values ...Value) { v.t.Append(values...) }
+func (v *vectorEditor) Append(values ...Value) {
+	if len(values) == 1 {
+		if q, ok := values[0].(QuietValue); ok {
+			v.t.Append(q.Inner())
+			return
+		}
+	}
+	v.t.Append(values...)
+}
 
 // Resize resizes v to have n elements.
 // The value of newly accessible elements is undefined.
-- 
2.43.0


From 9bb281308fe30e8b35390b4123238597d0434c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:15 +0000
Subject: [PATCH 31/48] fix: a rational or complex scalar promotes to a matrix
 like any other scalar

---
 value/bigrat.go  | 2 +-
 value/complex.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/value/bigrat.go b/value/bigrat.go
index 76fe665..ef0c1be 100644
--- a/value/bigrat.go
+++ b/value/bigrat.go
@@ -193,7 +193,7 @@ func (r BigRat) toType(op string, conf *config.Config, which valueType) Value {
 	case vectorType:
 		return oneElemVector(r)
 	case matrixType:
-		return NewMatrix([]int{1, 1}, NewVector(r))
+		return NewMatrix([]int{1}, NewVector(r))
 	}
 	Errorf("%s: cannot convert rational to %s", op, which)
 	return nil
diff --git a/value/complex.go b/value/complex.go
index b4e6d34..32800ac 100644
--- a/value/complex.go
+++ b/value/complex.go
@@ -76,7 +76,7 @@ func (c Complex) toType(op string, conf *config.Config, which valueType) Value {
 	case vectorType:
 		return oneElemVector(c)
 	case matrixType:
-		return NewMatrix([]int{1, 1}, NewVector(c))
+		return NewMatrix([]int{1}, NewVector(c))
 	}
 	Errorf("%s: cannot convert complex to %s", op, which)
 	return nil
-- 
2.43.0


From 433059ded19632f37c7fd33087f113c83b8e2e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:27 +0000
Subject: [PATCH 32/48] fix: list an op's complex constants in a form that can
 be read back

---
 value/complex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value/complex.go b/value/complex.go
index 32800ac..aa5a5af 100644
--- a/value/complex.go
+++ b/value/complex.go
@@ -47,7 +47,7 @@ func (c Complex) Sprint(conf *config.Config) string {
 }
 
 func (c Complex) ProgString() string {
-	return fmt.Sprintf("%sj%s", c.real, c.imag)
+	return fmt.Sprintf("%sj%s", c.real.ProgString(), c.imag.ProgString())
 }
 
 func (c Complex) Eval(Context) Value {
-- 
2.43.0


From dfbd5709c7c30e3f65b09150e2958f705d9c1c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:58 +0000
Subject: [PATCH 33/48] fix: decode of a time must not modify its seconds
 operand

---
 value/sys.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/value/sys.go b/value/sys.go
index f95ced6..d0a6552 100644
--- a/value/sys.go
+++ b/value/sys.go
@@ -285,10 +285,10 @@ func decodeTime(c Context, u, v *Vector) Value {
 func secNsec(fs *big.Float) (sec, nsec int64) {
 	var s big.Int
 	fs.Int(&s)
-	fs.Sub(fs, big.NewFloat(0).SetInt(&s))
-	fs.Mul(fs, big.NewFloat(1e9))
-	fs.Add(fs, big.NewFloat(0.5))
-	ns, _ := fs.Int64()
+	frac := new(big.Float).Sub(fs, big.NewFloat(0).SetInt(&s)) // Do not modify the operand.
+	frac.Mul(frac, big.NewFloat(1e9))
+	frac.Add(frac, big.NewFloat(0.5))
+	ns, _ := frac.Int64()
 	return s.Int64(), ns
 }
 
-- 
2.43.0


From dd7d12d7f8472791690903c6cf21cc1622916b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:10 +0000
Subject: [PATCH 34/48] fix: each must strip quiet results in one place

---
 value/eval.go   |  4 ++--
 value/vector.go | 10 +---------
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/value/eval.go b/value/eval.go
index 80cbc47..c2787e5 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -615,7 +615,7 @@ func BinaryEach(c Context, lv Value, op string, rv Value) Value {
 
 	for x := range lhs {
 		for y := range rhs {
-			data.Append(c.EvalBinary(x, innerOp, y))
+			data.Append(c.EvalBinary(x, innerOp, y).Inner())
 		}
 	}
 
@@ -641,7 +641,7 @@ func Each(c Context, op string, v Value) Value {
 
 	data := newVectorEditor(0, nil)
 	for x := range eachValue(v, d) {
-		data.Append(c.EvalUnary(op[:len(op)-d], x))
+		data.Append(c.EvalUnary(op[:len(op)-d], x).Inner())
 	}
 
 	if d == 1 {
diff --git a/value/vector.go b/value/vector.go
index 5fc980e..38da89d 100644
--- a/value/vector.go
+++ b/value/vector.go
@@ -79,15 +79,7 @@ func (v *vectorEditor) Set(i int, x Value) {
 }
 
 // Append appends the values to v.
-func (v *vectorEditor) Append(values ...Value) {
-	if len(values) == 1 {
-		if q, ok := values[0].(QuietValue); ok {
-			v.t.Append(q.Inner())
-			return
-		}
-	}
-	v.t.Append(values...)
-}
+func (v *vectorEditor) Append(values ...Value) { v.t.Append(values...) }
 
 // Resize resizes v to have n elements.
 // The value of newly accessible elements is undefined.
-- 
2.43.0


From d81a2624f820bdca4a6fb8ffa10025bc52b083f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:31 +0000
Subject: [PATCH 35/48] fix: the cache of zeros for printing raced between
 workers

---
 value/int.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/value/int.go b/value/int.go
index 2c00a2f..9df2a36 100644
--- a/value/int.go
+++ b/value/int.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"math/big"
 	"strconv"
+	"strings"
 
 	"robpike.io/ivy/config"
 )
@@ -135,13 +136,8 @@ func eFormat(verb byte, prec int, sign, str string, exp int) string {
 	return fmt.Sprintf("%s%s%s%s%c%+.2d", sign, str[0:1], period, str[1:], verb, exp)
 }
 
-var manyZeros = "0000000000"
-
 func zeros(prec int) string {
-	for len(manyZeros) < prec {
-		manyZeros += manyZeros
-	}
-	return manyZeros[:prec]
+	return strings.Repeat("0", prec)
 }
 
 func (i Int) Eval(Context) Value {
-- 
2.43.0


From 888133833f17637fd00f99edf40101946a49cfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:36 +0000
Subject: [PATCH 36/48] fix: the trace indentation cache raced between workers

---
 exec/context.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/exec/context.go b/exec/context.go
index ee8297b..dfb3c1f 100644
--- a/exec/context.go
+++ b/exec/context.go
@@ -108,15 +108,9 @@ func (c *Context) pop() {
 	c.stack = c.stack[:len(c.stack)-n]
 }
 
-var indent = "| "
-
 // TraceIndent returns an indentation marker showing the depth of the stack.
 func (c *Context) TraceIndent() string {
-	n := 2 * len(c.frameSizes)
-	if len(indent) < n {
-		indent = strings.Repeat("| ", n+10)
-	}
-	return indent[:n]
+	return strings.Repeat("| ", len(c.frameSizes))
 }
 
 // Eval evaluates a list of expressions.
-- 
2.43.0


From 1cb260c6a0cf168da76bf08b9fdff76ac127ccfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:12 +0000
Subject: [PATCH 37/48] fix: the configuration used by String was initialized
 by whichever worker came first

---
 value/value.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/value/value.go b/value/value.go
index 4bff6db..a04d74b 100644
--- a/value/value.go
+++ b/value/value.go
@@ -12,7 +12,15 @@ import (
 	"robpike.io/ivy/config"
 )
 
-var debugConf = &config.Config{} // For debugging, e.g. to call a String method.
+var debugConf = newDebugConf() // For debugging, e.g. to call a String method.
+
+// newDebugConf returns a configuration that is already initialized,
+// because several goroutines may use it at once.
+func newDebugConf() *config.Config {
+	conf := new(config.Config)
+	conf.FloatPrec()
+	return conf
+}
 
 type Value interface {
 	// String is for internal debugging only. It uses default configuration
-- 
2.43.0


From a7e580f13dc7ef1d215c74a20b8acc0bc3598788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:43 +0000
Subject: [PATCH 38/48] fix: an assignment after a printed expression does not
 change _

---
 run/run.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/run/run.go b/run/run.go
index eac4ac8..18a2707 100644
--- a/run/run.go
+++ b/run/run.go
@@ -85,7 +85,13 @@ func Run(p *parse.Parser, context value.Context, interactive bool) (success bool
 			conf.SetCPUTime(time.Since(start), user2-user, sys2-sys)
 		}
 		if printValues(conf, writer, values) {
-			context.AssignGlobal("_", values[len(values)-1])
+			// Save the last value printed; assignments and the like don't count.
+			for i := len(values) - 1; i >= 0; i-- {
+				if _, ok := values[i].(value.QuietValue); !ok {
+					context.AssignGlobal("_", values[i])
+					break
+				}
+			}
 		}
 		if !ok {
 			return true
-- 
2.43.0


From 9c1ec4f20f6aacdb737fb140be21572bed3fffe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:56 +0000
Subject: [PATCH 39/48] fix: report floating point errors in )get files and
 demos where they occur

Run handles big.ErrNaN but the file and demo runners did not: the location was
lost, and in the demo the whole program crashed.
---
 parse/special.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parse/special.go b/parse/special.go
index 326f2e8..1cf3779 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -10,6 +10,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math/big"
 	"os"
 	"sort"
 	"strings"
@@ -405,7 +406,8 @@ func (p *Parser) runFromReader(context value.Context, name string, reader io.Rea
 		if err == nil {
 			return
 		}
-		if err, ok := err.(value.Error); ok {
+		switch err.(type) {
+		case value.Error, big.ErrNaN: // ErrNaN is a floating point error from math/big.
 			fmt.Fprintf(p.context.Config().ErrOutput(), "%s%s\n", p.Loc(), err)
 			return
 		}
@@ -431,7 +433,8 @@ func (p *Parser) runUntilError(name string) error {
 		if err == nil {
 			return
 		}
-		if err, ok := err.(value.Error); ok {
+		switch err.(type) {
+		case value.Error, big.ErrNaN: // ErrNaN is a floating point error from math/big.
 			fmt.Fprintf(p.context.Config().ErrOutput(), "%s%s\n", p.Loc(), err)
 			return
 		}
-- 
2.43.0


From dc32c7405753114151dabc0a59ace0187cb0374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:54 +0000
Subject: [PATCH 40/48] fix: compute sqrt at the configured precision, not the
 operand's

MantExp gives its result the precision of its receiver, so the square root
of a number computed with another )prec was computed with that precision,
or did not converge.
---
 value/sqrt.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/value/sqrt.go b/value/sqrt.go
index 8d5ff4e..6772c05 100644
--- a/value/sqrt.go
+++ b/value/sqrt.go
@@ -61,8 +61,8 @@ func floatSqrt(c Context, x *big.Float) *big.Float {
 	// 	z = z - (z²-x)/2z
 	// z holds the result so far. A good starting point is to halve the exponent.
 	// Experiments show we converge in only a handful of iterations.
-	z := newFloat(c)
-	exp := x.MantExp(z)
+	z := newFloat(c).Set(x) // MantExp and SetMantExp copy the precision too.
+	exp := z.MantExp(z)
 	z.SetMantExp(z, exp/2)
 
 	// Intermediates, allocated once.
-- 
2.43.0


From 454e0a026653b9ee1d961e47ceb65b0f0653c414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:51 +0000
Subject: [PATCH 41/48] fix: precision of one context must not affect the
 constants of another

The constants used by the floating-point functions were package variables set
to the precision of whichever context was created, or changed its precision,
last. Keep them at full precision and round when using them.
---
 value/bigfloat.go |  6 ++---
 value/complex.go  |  4 ++--
 value/const.go    | 59 +++++++++++++++++------------------------------
 value/eval.go     |  2 +-
 value/unary.go    |  4 ++--
 5 files changed, 28 insertions(+), 47 deletions(-)

diff --git a/value/bigfloat.go b/value/bigfloat.go
index 061d83c..4697d1e 100644
--- a/value/bigfloat.go
+++ b/value/bigfloat.go
@@ -123,14 +123,12 @@ func (f BigFloat) Sprint(conf *config.Config) string {
 }
 
 // inverse returns 1/f
-func (f BigFloat) inverse() Value {
+func (f BigFloat) inverse(c Context) Value {
 	if f.Sign() == 0 {
 		Errorf("inverse of zero")
 	}
-	var one big.Float
-	one.Set(floatOne) // Avoid big.Float.Copy, which appears to have a sharing bug.
 	result := BigFloat{
-		Float: one.Quo(&one, f.Float),
+		Float: newFloat(c).Quo(floatOne, f.Float),
 	}.shrink()
 	return result
 }
diff --git a/value/complex.go b/value/complex.go
index aa5a5af..c0f513a 100644
--- a/value/complex.go
+++ b/value/complex.go
@@ -132,9 +132,9 @@ func (c Complex) phase(ctx Context) Value {
 	iPos := !isNegative(c.imag)
 	if rZero {
 		if iPos {
-			return BigFloat{floatPiBy2}
+			return BigFloat{newFloat(ctx).Set(floatPiBy2)}
 		}
-		return BigFloat{floatMinusPiBy2}
+		return BigFloat{newFloat(ctx).Set(floatMinusPiBy2)}
 	}
 	atan := atan(ctx, ctx.EvalBinary(c.imag, "/", c.real))
 	// Correct the quadrants. We lose sign information in the division.
diff --git a/value/const.go b/value/const.go
index 96e934c..8ee0d66 100644
--- a/value/const.go
+++ b/value/const.go
@@ -56,17 +56,17 @@ var (
 	minusOneOverTwoI Complex
 
 	// set to constPrecision
-	floatE          *big.Float
-	floatPi         *big.Float
-	floatPiBy2      *big.Float
-	floatMinusPiBy2 *big.Float
-	floatLog2       *big.Float
-	floatLog10      *big.Float
-	floatZero       *big.Float
-	floatOne        *big.Float
-	floatTwo        *big.Float
-	floatHalf       *big.Float
-	floatMinusOne   *big.Float
+	floatE          = constFloat(strE)
+	floatPi         = constFloat(strPi)
+	floatPiBy2      = new(big.Float).Quo(floatPi, floatTwo)
+	floatMinusPiBy2 = new(big.Float).Neg(floatPiBy2)
+	floatLog2       = constFloat(strLog2)
+	floatLog10      = constFloat(strLog10)
+	floatZero       = constFloat("0")
+	floatOne        = constFloat("1")
+	floatTwo        = constFloat("2")
+	floatHalf       = constFloat("0.5")
+	floatMinusOne   = constFloat("-1")
 )
 
 const strE = "2.7182818284590452353602874713526624977572470936999595749669676277240766303535475945713821785251664274274663919320030599218174135966290435729003342952605956307381323286279434907632338298807531952510190115738341879307021540891499348841675092447614606680822648001684774118537423454424371075390777449920695517027618386062613313845830007520449338265602976067371132007093287091274437470472306969772093101416928368190255151086574637721112523897844250569536967707854499699679468644549059879316368892300987931277361782154249992295763514822082698951936680331825288693984964651058209392398294887933203625094431173012381970684161403970198376793206832823764648042953118023287825098194558153017567173613320698112509961818815930416903515988885193458072738667385894228792284998920868058257492796104841984443634632449684875602336248270419786232090021609902353043699418491463140934317381436405462531520961836908887070167683964243781405927145635490613031072085103837505101157477041718986106873969655212671546889570350354021234078498193343210681701210056278802351930332247450158539047304199577770935036604169973297250886876966403555707162268447162560798826517871341951246652010305921236677194325278675398558944896970964097545918569563802363701621120477427228364896134225164450781824423529486363721417402388934412479635743702637552944483379980161254922785092577825620926226483262779333865664816277251640191059004916449982893150566047258027786318641551956532442586982946959308019152987211725563475463964479101459040905862984967912874068705048958586717479854667757573205681288459205413340539220001137863009455606881667400169842055804033637953764520304024322566135278369511778838638744396625322498506549958862342818997077332761717839280349465014345588970719425863987727547109629537415211151368350627526023264847287039207643100595841166120545297030236472549296669381151373227536450988890313602057248176585118063036442812314965507047510254465011727211555194866850800368532281831521960037356252794495158284188294787610852639813955990067376482922443752871846245780361929819713991475644882626039033814418232625150974827987779964373089970388867782271383605772978824125611907176639465070633045279546618550966661856647097113444740160704626215680717481877844371436988218559670959102596862002353718588748569652200050311734392073211390803293634479727355955277349071783793421637012050054513263835440001863239914907054797780566978533580489669062951194324730995876552368128590413832411607226029983305353708761389396391779574540161372236187893652605381558415871869255386061647798340254351284396129460352913325942794904337299085731580290958631382683291477116396337092400316894586360606458459251269946557248391865642097526850823075442545993769170419777800853627309417101634349076964237222943523661255725088147792231519747780605696725380171807763603462459278778465850656050780844211529697521890874019660906651803516501792504619501366585436632712549639908549144200014574760819302212066024330096412704894390397177195180699086998606636583232278709376502260"
@@ -85,40 +85,23 @@ func newFloat(c Context) *big.Float {
 	return newF(c.Config())
 }
 
+// Consts returns the values of e and pi at the configured precision.
 func Consts(c Context) (e, pi BigFloat) {
 	conf := c.Config()
 	if conf.FloatPrec() > constPrecisionInBits {
 		fmt.Fprintf(c.Config().ErrOutput(), "warning: precision too high; only have %d digits (%d bits) of precision for e and pi", constPrecisionInDigits, constPrecisionInBits)
 	}
-	floatZero = newF(conf).SetInt64(0)
-	floatOne = newF(conf).SetInt64(1)
-	floatTwo = newF(conf).SetInt64(2)
-	floatHalf = newF(conf).SetFloat64(0.5)
-	floatMinusOne = newF(conf).SetInt64(-1)
-	var ok bool
-	floatE, ok = newF(conf).SetString(strE)
-	if !ok {
-		panic("setting e")
-	}
-	floatPi, ok = newF(conf).SetString(strPi)
-	if !ok {
-		panic("setting pi")
-	}
-	floatPiBy2, ok = newF(conf).SetString(strPi)
-	if !ok {
-		panic("setting pi/2")
-	}
-	floatPiBy2.Quo(floatPiBy2, floatTwo)
-	floatMinusPiBy2 = newF(conf).Neg(floatPiBy2)
-	floatLog2, ok = newF(conf).SetString(strLog2)
-	if !ok {
-		panic("setting log(2)")
-	}
-	floatLog10, ok = newF(conf).SetString(strLog10)
+	return BigFloat{newF(conf).Set(floatE)}, BigFloat{newF(conf).Set(floatPi)}
+}
+
+// constFloat returns a constant with all the precision we have. The constants
+// are shared by all contexts, so they cannot depend on any one's configuration.
+func constFloat(s string) *big.Float {
+	f, ok := new(big.Float).SetPrec(constPrecisionInBits).SetString(s)
 	if !ok {
-		panic("setting log(10)")
+		panic("setting constant " + s)
 	}
-	return BigFloat{newF(conf).Set(floatE)}, BigFloat{newF(conf).Set(floatPi)}
+	return f
 }
 
 // -1/2i is remarkably hard to build.
diff --git a/value/eval.go b/value/eval.go
index c2787e5..5b2421d 100644
--- a/value/eval.go
+++ b/value/eval.go
@@ -897,7 +897,7 @@ func inverse(c Context, v Value) Value {
 	case BigRat:
 		return v.inverse()
 	case BigFloat:
-		return v.inverse()
+		return v.inverse(c)
 	case Complex:
 		return v.inverse(c)
 	}
diff --git a/value/unary.go b/value/unary.go
index d851e4a..4a0cf75 100644
--- a/value/unary.go
+++ b/value/unary.go
@@ -321,7 +321,7 @@ func init() {
 					return v.(BigRat).inverse()
 				},
 				bigFloatType: func(c Context, v Value) Value {
-					return v.(BigFloat).inverse()
+					return v.(BigFloat).inverse(c)
 				},
 				complexType: func(c Context, v Value) Value {
 					return v.(Complex).inverse(c).shrink()
@@ -343,7 +343,7 @@ func init() {
 					return v.(BigRat).inverse()
 				},
 				bigFloatType: func(c Context, v Value) Value {
-					return v.(BigFloat).inverse()
+					return v.(BigFloat).inverse(c)
 				},
 				complexType: func(c Context, v Value) Value {
 					return v.(Complex).inverse(c).shrink()
-- 
2.43.0


From 012923b729e985c2819aa0d0f90a2741c62d5268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:36 +0000
Subject: [PATCH 42/48] fix: count nested )get files per session, not per
 process

---
 config/config.go | 16 ++++++++++++++++
 parse/special.go | 15 ++++++++-------
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/config/config.go b/config/config.go
index 7a020e7..1b4001d 100644
--- a/config/config.go
+++ b/config/config.go
@@ -59,6 +59,7 @@ type Config struct {
 	inputBase  int
 	outputBase int
 	mobile     bool // Running on a mobile platform.
+	runDepth   int  // Nesting depth of )get and )demo.
 }
 
 func (c *Config) init() {
@@ -407,6 +408,21 @@ func (c *Config) SetMobile(mobile bool) {
 	c.mobile = mobile
 }
 
+// EnterRun records the start of a nested execution of a file. If they
+// are already nested max deep, it does nothing and returns false.
+func (c *Config) EnterRun(max int) bool {
+	if c.runDepth >= max {
+		return false
+	}
+	c.runDepth++
+	return true
+}
+
+// LeaveRun records the end of a nested execution of a file.
+func (c *Config) LeaveRun() {
+	c.runDepth--
+}
+
 // TimeZone returns the default time zone name.
 func (c *Config) TimeZone() string {
 	return c.timeZone
diff --git a/parse/special.go b/parse/special.go
index 1cf3779..affce34 100644
--- a/parse/special.go
+++ b/parse/special.go
@@ -382,7 +382,8 @@ func (p *Parser) getString() string {
 	return value.ParseString(p.need(scan.String).Text)
 }
 
-var runDepth = 0
+// maxRunDepth is the maximum nesting depth of )get and )demo.
+const maxRunDepth = 10
 
 // runFromFile executes the contents of the named file.
 func (p *Parser) runFromFile(context value.Context, name string) {
@@ -396,12 +397,12 @@ func (p *Parser) runFromFile(context value.Context, name string) {
 
 // runFromReader executes the contents of the io.Reader, identified by name.
 func (p *Parser) runFromReader(context value.Context, name string, reader io.Reader, stopOnError bool) {
-	if runDepth >= 10 {
+	conf := p.context.Config()
+	if !conf.EnterRun(maxRunDepth) {
 		p.errorf("invocations of %q nested too deep", name)
 	}
-	runDepth++
 	defer func() {
-		runDepth--
+		conf.LeaveRun()
 		err := recover()
 		if err == nil {
 			return
@@ -423,12 +424,12 @@ func (p *Parser) runFromReader(context value.Context, name string, reader io.Rea
 }
 
 func (p *Parser) runUntilError(name string) error {
-	if runDepth >= 10 {
+	conf := p.context.Config()
+	if !conf.EnterRun(maxRunDepth) {
 		p.errorf("get %q nested too deep", name)
 	}
-	runDepth++
 	defer func() {
-		runDepth--
+		conf.LeaveRun()
 		err := recover()
 		if err == nil {
 			return
-- 
2.43.0


From d4d54627054467ef6fcfa06177cc1344f19bfef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:03 +0000
Subject: [PATCH 43/48] fix: scanners of concurrent sessions raced on the table
 of digits

---
 scan/scan.go | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/scan/scan.go b/scan/scan.go
index 7563958..56457ed 100644
--- a/scan/scan.go
+++ b/scan/scan.go
@@ -555,7 +555,21 @@ func (l *Scanner) scanNumber(followingSlashOK, followingJOK bool) bool {
 	return true
 }
 
-var digits [36 + 1]string // base 36 is OK.
+var digits [36 + 1]string // base 36 is OK. Filled in by init; scanners may run concurrently.
+
+func init() {
+	for base := range digits {
+		if base <= 10 {
+			// Always accept a maximal string of numerals.
+			// Whatever the input base, if it's <= 10 let the parser
+			// decide if it's valid. This also helps us get the always-
+			// base-10 numbers for )specials.
+			digits[base] = decimal[:1+10]
+		} else {
+			digits[base] = decimal + lower[:1+base-10] + upper[:1+base-10]
+		}
+	}
+}
 
 const (
 	decimal = "_0123456789"
@@ -567,23 +581,7 @@ const (
 // Underscores are always admitted, but will only be accepted during
 // parsing (by strconv.ParseInt) if ibase is 0. This is consistent with Go.
 func digitsForBase(base int) string {
-	if base == 0 {
-		base = 10
-	}
-	d := digits[base]
-	if d == "" {
-		if base <= 10 {
-			// Always accept a maximal string of numerals.
-			// Whatever the input base, if it's <= 10 let the parser
-			// decide if it's valid. This also helps us get the always-
-			// base-10 numbers for )specials.
-			d = decimal[:1+10]
-		} else {
-			d = decimal + lower[:1+base-10] + upper[:1+base-10]
-		}
-		digits[base] = d
-	}
-	return d
+	return digits[base]
 }
 
 // lexQuote scans a quoted string.
-- 
2.43.0


From 71150ca66a2b6e70be0f0af1c92223201a20f6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:02 +0000
Subject: [PATCH 44/48] fix: decode times at the configured precision

---
 value/sys.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/value/sys.go b/value/sys.go
index d0a6552..a10868f 100644
--- a/value/sys.go
+++ b/value/sys.go
@@ -273,12 +273,12 @@ func decodeTime(c Context, u, v *Vector) Value {
 	// So we use UnixMilli, which spans a big enough range, and add the nanoseconds manually.
 	t := time.Date(year, time.Month(month), day, hour, min, int(sec), 0, loc)
 	t = t.In(c.Config().LocationAt(t))
-	var s, tmp big.Float
-	s.SetInt64(t.UnixMilli())
-	s.Mul(&s, tmp.SetInt64(1e6))
-	s.Add(&s, tmp.SetInt64(nsec))
-	s.Quo(&s, tmp.SetInt64(1e9))
-	return BigFloat{&s}
+	var tmp big.Float
+	s := newFloat(c).SetInt64(t.UnixMilli())
+	s.Mul(s, tmp.SetInt64(1e6))
+	s.Add(s, tmp.SetInt64(nsec))
+	s.Quo(s, tmp.SetInt64(1e9))
+	return BigFloat{s}
 }
 
 // secNsec converts a seconds value into whole seconds and nanoseconds.
-- 
2.43.0


From 103c900369a02a87449ed7773b55dafa2ac011e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:02 +0000
Subject: [PATCH 45/48] fix: rand of a rational at the configured precision

---
 value/unary.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/value/unary.go b/value/unary.go
index 4a0cf75..776604a 100644
--- a/value/unary.go
+++ b/value/unary.go
@@ -204,9 +204,7 @@ func init() {
 					return bigFloatRand(c, &x)
 				},
 				bigRatType: func(c Context, v Value) Value {
-					var x big.Float
-					x.SetRat(v.(BigRat).Rat)
-					return bigFloatRand(c, &x)
+					return bigFloatRand(c, newFloat(c).SetRat(v.(BigRat).Rat))
 				},
 				bigFloatType: func(c Context, v Value) Value {
 					return bigFloatRand(c, v.(BigFloat).Float)
-- 
2.43.0


From 17d86b4cbd4b714f1faaed6fe62ee878ee4cee25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:16 +0000
Subject: [PATCH 46/48] fix: e and pi kept the old precision when a command
 failed after changing it

---
 parse/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/parse.go b/parse/parse.go
index 827b126..ddf8d60 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -159,8 +159,8 @@ func (p *Parser) Line() ([]value.Expr, bool) {
 	case scan.EOF:
 		return nil, true
 	case scan.RightParen:
+		defer p.context.SetConstants() // The command may fail after changing the precision.
 		p.special()
-		p.context.SetConstants()
 		return nil, true
 	case scan.Op:
 		p.functionDefn()
-- 
2.43.0


From 8e25bb8b0f448e21baf40b94a5723edff4a88a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:32 +0000
Subject: [PATCH 47/48] fix: a failed op definition must not remove a variable
 of that name

---
 parse/function.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse/function.go b/parse/function.go
index 2b4a014..771794c 100644
--- a/parse/function.go
+++ b/parse/function.go
@@ -93,6 +93,7 @@ func (p *Parser) functionDefn() {
 	// Define it, but prepare to undefine if there's trouble.
 	prevDefn := installMap[fn.Name]
 	prevDefs := slices.Clone(p.context.Defs)
+	prevVar := p.context.Globals[fn.Name] // A variable that is zero is removed.
 	p.context.Define(fn)
 	succeeded := false
 	defer func() {
@@ -103,6 +104,9 @@ func (p *Parser) functionDefn() {
 				installMap[fn.Name] = prevDefn
 			}
 			p.context.Defs = prevDefs
+			if prevVar != nil {
+				p.context.Globals[fn.Name] = prevVar
+			}
 		}
 	}()
 
-- 
2.43.0


From 26c7cdebd45371d80f68139865a786598241f581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:50 +0000
Subject: [PATCH 48/48] fix: the condition of a conditional is read before its
 result is assigned

The documentation says a variable in an operator is global if it is read
before it is written. The condition of c : e is evaluated before e, but
its variables were looked at after those of e, so that x was local in
'x : x = 1' and any use failed as undefined.
---
 parse/function.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse/function.go b/parse/function.go
index 771794c..0cfd469 100644
--- a/parse/function.go
+++ b/parse/function.go
@@ -271,7 +271,9 @@ func walk(expr value.Expr, assign bool, f func(value.Expr, bool)) {
 	case *value.UnaryExpr:
 		walk(e.Right, false, f)
 	case *value.CondExpr:
-		walk(e.Cond, false, f)
+		// Unlike other operators, the left side is evaluated first.
+		walk(e.Cond.Left, false, f)
+		walk(e.Cond.Right, false, f)
 	case *value.BinaryExpr:
 		walk(e.Right, false, f)
 		walk(e.Left, e.Op == "=", f)
-- 
2.43.0

