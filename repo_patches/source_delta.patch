From f4221d601994c2922d0adcaf8ed1e17bd3f5adb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:31 +0000
Subject: [PATCH 001/115] fix: multiply by ln 2 in the symbolic derivative of
 log2

---
 operatorPointwise_unary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operatorPointwise_unary.go b/operatorPointwise_unary.go
index c6338b0..20eed10 100644
--- a/operatorPointwise_unary.go
+++ b/operatorPointwise_unary.go
@@ -266,7 +266,7 @@ func log2DiffExpr(x, y, gradY *Node) (retVal *Node, err error) {
 		return nil, errors.Wrap(err, "getConst failed")
 	}
 
-	if retVal, err = HadamardDiv(x, log2); err != nil {
+	if retVal, err = HadamardProd(x, log2); err != nil {
 		return nil, errors.Wrap(err, hadamardProdFail)
 	}
 	WithGroupName(gradClust)(retVal)
-- 
2.43.0


From 09937f51140963e59cde8e5e74b28901c9c576a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:00 +0000
Subject: [PATCH 002/115] fix: correct both derivatives of the inverse square
 root

---
 operatorPointwise_unary.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/operatorPointwise_unary.go b/operatorPointwise_unary.go
index 20eed10..46fe549 100644
--- a/operatorPointwise_unary.go
+++ b/operatorPointwise_unary.go
@@ -468,10 +468,10 @@ func inverseSqrtDiffExpr(x, y, gradY *Node) (retVal *Node, err error) {
 	if retVal, err = Cube(y); err != nil {
 		return nil, errors.Wrapf(err, cubeFail)
 	}
-	if retVal, err = HadamardProd(two, retVal); err != nil {
+	if retVal, err = HadamardProd(gradY, retVal); err != nil {
 		return nil, errors.Wrapf(err, hadamardProdFail)
 	}
-	if retVal, err = HadamardDiv(gradY, retVal); err != nil {
+	if retVal, err = HadamardDiv(retVal, two); err != nil {
 		return nil, errors.Wrapf(err, hadamardDivFail)
 	}
 	return Neg(retVal)
@@ -490,19 +490,20 @@ func inverseSqrtDiff(x, y *Node) (err error) {
 		return errors.Wrapf(err, doFail, cb)
 	}
 
-	mul := newElemBinOp(mulOpType, x, y)
-	if d, err = mul.Do(two.boundTo, d); err != nil {
-		return errors.Wrapf(err, doFail, mul)
+	div := newElemBinOp(divOpType, y, two)
+	if d, err = div.Do(d, two.boundTo); err != nil {
+		return errors.Wrapf(err, doFail, div)
 	}
 
-	div := newElemBinOp(divOpType, y, x)
-	if d, err = div.Do(ydv.d, d); err != nil {
-		return errors.Wrapf(err, doFail, div)
+	neg := newElemUnaryOp(negOpType, y)
+	if d, err = neg.Do(d); err != nil {
+		return errors.Wrapf(err, doFail, neg)
 	}
 
-	sub := newElemBinOp(subOpType, x, y)
-	if _, err = sub.Do(xdv.d, d); err != nil {
-		return errors.Wrapf(err, doFail, sub)
+	mul := newElemBinOp(mulOpType, y, y)
+	err = mul.IncrDo(xdv.d, d, ydv.d)
+	if err = checkErrSetDeriv(err, xdv); err != nil {
+		return errors.Wrapf(err, autodiffFail, x)
 	}
 	return nil
 }
-- 
2.43.0


From 12e46d510f35a16295730b210c077d4c77776163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:41 +0000
Subject: [PATCH 003/115] fix: use operand types of each product when
 differentiating powers automatically

---
 operatorPointwise_binary.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/operatorPointwise_binary.go b/operatorPointwise_binary.go
index ffb03d0..d333442 100644
--- a/operatorPointwise_binary.go
+++ b/operatorPointwise_binary.go
@@ -960,11 +960,12 @@ func hadamardPowDiff(ctx ExecutionContext, x, y, z *Node) (err error) {
 		return
 	}
 
-	mul := newEBOByType(mulOpType, TypeOf(ydv.Value), TypeOf(xdv.Value))
+	mul := newEBOByType(mulOpType, TypeOf(pow), TypeOf(ydv.Value))
 	if pow, err = mul.UnsafeDo(pow, ydv.Value); err != nil {
 		return
 	}
 
+	mul = newEBOByType(mulOpType, TypeOf(pow), TypeOf(zdv.d))
 	if err = mul.IncrDo(xdv.d, pow, zdv.d); err != nil {
 		var ver Valuer
 		var ok bool
@@ -981,9 +982,11 @@ func hadamardPowDiff(ctx ExecutionContext, x, y, z *Node) (err error) {
 	if logx, err = logOp.Do(xdv.Value); err != nil {
 		return
 	}
+	mul = newEBOByType(mulOpType, TypeOf(zdv.Value), TypeOf(logx))
 	if logx, err = mul.Do(zdv.Value, logx); err != nil {
 		return
 	}
+	mul = newEBOByType(mulOpType, TypeOf(logx), TypeOf(zdv.d))
 	if err = mul.IncrDo(ydv.d, logx, zdv.d); err != nil {
 		var ver Valuer
 		var ok bool
-- 
2.43.0


From 0f338fbe710bf8e8c1f37b758c8d1d0dcf0a445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:55 +0000
Subject: [PATCH 004/115] fix: derivatives of outer products

---
 operatorLinAlg.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/operatorLinAlg.go b/operatorLinAlg.go
index 69a4e68..adc90d4 100644
--- a/operatorLinAlg.go
+++ b/operatorLinAlg.go
@@ -261,8 +261,8 @@ func vecDotDiff(ctx ExecutionContext, transA, transB bool, x, y, z *Node) (err e
 
 func outerProdDiffExpr(transA, transB bool, x, y, z, gradZ *Node) (retVal Nodes, err error) {
 	var dzdx, dzdy *Node
-	if dzdx, err = Mul(x, gradZ); err == nil {
-		if dzdy, err = Mul(y, gradZ); err == nil {
+	if dzdx, err = Mul(gradZ, y); err == nil {
+		if dzdy, err = Mul(x, gradZ); err == nil {
 			retVal = Nodes{dzdx, dzdy}
 		} else {
 			return nil, errors.Wrap(err, "Failed to carry Mul()")
@@ -276,16 +276,21 @@ func outerProdDiffExpr(transA, transB bool, x, y, z, gradZ *Node) (retVal Nodes,
 func outerProdDiff(ctx ExecutionContext, transA, transB bool, x, y, z *Node) (err error) {
 	xdv, ydv, zdv := getDV3(x, y, z)
 
-	mul := newElemBinOp(mulOpType, x, z)
-	err = mul.IncrDo(xdv.d, xdv.Value, zdv.d)
-	err = mul.IncrDo(xdv.d, ydv.Value, zdv.d)
+	op := linAlgBinOp{
+		āBinaryOperator: matVecMulOperator,
+	}
+
+	// dzdx
+	err = op.IncrDo(xdv.d, zdv.d, ydv.Value)
 	if err = checkErrSetDeriv(err, xdv); err != nil {
 		return errors.Wrapf(err, autodiffFail, x)
 	}
 
-	err = mul.IncrDo(ydv.d, ydv.Value, zdv.d)
+	// dzdy
+	op.transA = true
+	err = op.IncrDo(ydv.d, zdv.d, xdv.Value)
 	if err = checkErrSetDeriv(err, ydv); err != nil {
-		return errors.Wrapf(err, autodiffFail, x)
+		return errors.Wrapf(err, autodiffFail, y)
 	}
 	return
 }
-- 
2.43.0


From 8c50b406a5b07320a954f0f621a05bff6d0224a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:55 +0000
Subject: [PATCH 005/115] fix: concatenation gradients on the interpreting
 machine follow the axis

---
 op_tensor.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index 0f6b09a..689c27b 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -1104,7 +1104,9 @@ func (op concatOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) erro
 		idv := in.boundTo.(*dualValue)
 		idvd := idv.d.(tensor.Tensor)
 
-		sliced, err := odvd.Slice(S(start, end))
+		slices := make([]tensor.Slice, op.axis+1)
+		slices[op.axis] = S(start, end)
+		sliced, err := odvd.Slice(slices...)
 		if err != nil {
 			return err
 		}
@@ -1114,7 +1116,16 @@ func (op concatOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) erro
 		switch st := sliced.(type) {
 		case *tensor.Dense:
 			d := idvd.(*tensor.Dense)
-			d.Add(st, tensor.UseUnsafe())
+			// slicing drops dimensions of size 1
+			if !st.Shape().Eq(d.Shape()) {
+				st = st.Materialize().(*tensor.Dense)
+				if err = st.Reshape(d.Shape().Clone()...); err != nil {
+					return errors.Wrapf(err, reshapeFail, d.Shape(), st.DataSize())
+				}
+			}
+			if _, err = d.Add(st, tensor.UseUnsafe()); err != nil {
+				return err
+			}
 		default:
 			return errors.Errorf(nyiTypeFail, "DoDiff (hack) ", st)
 		}
-- 
2.43.0


From cfeb89058ae3596ad473e51f125d0b363a853dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:55 +0000
Subject: [PATCH 006/115] fix: index selection passes the incoming gradient to
 its input

---
 op_by_indices.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/op_by_indices.go b/op_by_indices.go
index 79a838f..7db319f 100644
--- a/op_by_indices.go
+++ b/op_by_indices.go
@@ -101,29 +101,23 @@ func (op *byIndicesOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node)
 		return fmt.Errorf("byIndicesOp.DoDiff needs 2 arguments")
 	}
 
+	xdv := inputs[0].boundTo.(*dualValue)
 	odv := output.boundTo.(*dualValue)
-	odvd := odv.Value.(tensor.Tensor)
 
 	diffOp := &byIndicesOpDiffOp{op}
 
-	result, err := diffOp.Do(inputs[0].boundTo, inputs[1].boundTo)
+	result, err := diffOp.Do(xdv.Value, odv.d, inputs[1].Value())
 	if err != nil {
 		return err
 	}
 
-	err = result.(*tensor.Dense).Reshape(odvd.Shape()...)
+	add := newEBOByType(addOpType, TypeOf(xdv.d), TypeOf(result))
+	sum, err := add.UnsafeDo(xdv.d, result)
 	if err != nil {
 		return err
 	}
 
-	sum, err := odvd.(*tensor.Dense).Add(result.(*tensor.Dense), tensor.UseUnsafe())
-	if err != nil {
-		return err
-	}
-
-	odv.d = sum
-
-	return nil
+	return xdv.SetDeriv(sum)
 }
 
 // SymDiff applies the diff op. Implementation for SDOp interface.
-- 
2.43.0


From 6316b028c07a9ed58477eee895c4d912cfab91a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:48 +0000
Subject: [PATCH 007/115] fix: reshape adds to the gradient of its input
 instead of replacing it

---
 op_tensor.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index 689c27b..00552c3 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -1273,13 +1273,27 @@ func (op reshapeOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 	if grad, err = output.Grad(); err != nil {
 		return
 	}
-	T := grad.(tensor.Tensor)
-	if err = T.Reshape(op.from...); err != nil {
+	// the gradient of the output is left as it is
+	var d Value
+	if d, err = CloneValue(grad); err != nil {
+		return errors.Wrapf(err, cloneFail, grad)
+	}
+	if d, err = (reshapeOp{from: op.to, to: op.from}).UnsafeDo(d); err != nil {
 		return
 	}
-	input := inputs[0]
-	dv := input.boundTo.(*dualValue)
-	return dv.SetDeriv(T)
+	if T, ok := d.(tensor.Tensor); ok && T.IsScalar() {
+		if d, _ = anyToScalar(T.ScalarValue()); d == nil {
+			return errors.Errorf(nyiTypeFail, "reshape.DoDiff", T)
+		}
+	}
+
+	// accumulate
+	dv := inputs[0].boundTo.(*dualValue)
+	add := newEBOByType(addOpType, TypeOf(dv.d), TypeOf(d))
+	if d, err = add.UnsafeDo(dv.d, d); err != nil {
+		return errors.Wrapf(err, unsafeDoFail, add)
+	}
+	return dv.SetDeriv(d)
 }
 
 /* PRIVATE FUNCTIONS */
-- 
2.43.0


From bc0ba95bafe09ea68e0263eb83806ea365d682bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:48 +0000
Subject: [PATCH 008/115] fix: in-place arithmetic between one-element tensors
 and scalars no longer panics

---
 op_math.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/op_math.go b/op_math.go
index 36cd06d..30fd708 100644
--- a/op_math.go
+++ b/op_math.go
@@ -330,13 +330,15 @@ func (op elemBinOp) UnsafeDo(inputs ...Value) (retVal Value, err error) {
 
 	ashp, bshp := a.Shape(), b.Shape()
 
-	if !ashp.Eq(bshp) && ashp.TotalSize() == bshp.TotalSize() {
+	aT, aIsTensor := a.(tensor.Tensor)
+	bT, bIsTensor := b.(tensor.Tensor)
+	if aIsTensor && bIsTensor && !ashp.Eq(bshp) && ashp.TotalSize() == bshp.TotalSize() {
 		// temporarily reshape
-		var toReshape tensor.Tensor = b.(tensor.Tensor)
+		toReshape := bT
 		as := a
 		backup := b.Shape()
 		if bshp.Dims() < ashp.Dims() {
-			toReshape = a.(tensor.Tensor)
+			toReshape = aT
 			as = b
 			backup = a.Shape()
 		}
-- 
2.43.0


From cbc9ffb78ce08e1fc718beb60ba77a4cd88e10ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:45 +0000
Subject: [PATCH 009/115] fix: let the compiled machine produce the value of At
 nodes

atOp was marked as a statement, so the code generator emitted no instruction for it and the node was left without a value.
---
 op_tensor.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index 00552c3..504bdc0 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -65,8 +65,6 @@ func (op atOp) WriteHash(h hash.Hash) {
 
 func (op atOp) Hashcode() uint32 { return simpleHash(op) }
 
-func (op atOp) isStmt() bool { return true }
-
 type sizeOp struct {
 	axis, d int
 	val     int // if we know ahead of time what the size is...
-- 
2.43.0


From eb64e91b009002a7daf3b62503d52f8b5e8c631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:56 +0000
Subject: [PATCH 010/115] fix: reshaping must not hand out a value that shares
 memory with its input

The compiled machine may overwrite the result of an operation in place. Since Reshape returned a shallow clone, an in-place operation on the reshaped value also overwrote the tensor bound to the input.
---
 op_tensor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/op_tensor.go b/op_tensor.go
index 504bdc0..c75f7bb 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -1171,7 +1171,10 @@ func (op reshapeOp) Do(vals ...Value) (Value, error) {
 			if v.IsView() {
 				val = v.Materialize()
 			} else {
-				val = v.ShallowClone()
+				// the result may be overwritten in place, so it must not share memory with the input
+				if val, err = CloneValue(v); err != nil {
+					return nil, errors.Wrapf(err, cloneFail, vals[0])
+				}
 			}
 		} else {
 			if val, err = CloneValue(vals[0]); err != nil {
-- 
2.43.0


From acc6eadf53fde414658e4da893820360c3c98924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:35 +0000
Subject: [PATCH 011/115] fix: forget the cached roots of a graph when it is
 edited

Roots() kept its first answer forever, so nodes added afterwards were missing and former roots stayed in the list. The interpreting machine seeded gradients at such stale roots, and the clone of a graph whose roots had not been asked for reported none.
---
 graph.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/graph.go b/graph.go
index 9709ca7..a85246b 100644
--- a/graph.go
+++ b/graph.go
@@ -25,6 +25,8 @@ type ExprGraph struct {
 	constants Nodes
 	roots     Nodes
 	counter   uint
+
+	cachedRoots bool // roots was filled in by Roots() and is only valid until the next edit
 }
 
 // graphconopt sets options
@@ -124,10 +126,13 @@ func (g *ExprGraph) Clone() interface{} {
 		g2.constants[i] = mapping[n]
 	}
 
-	g2.roots = make(Nodes, len(g.roots))
-	for i, n := range g.roots {
-		g2.roots[i] = mapping[n]
+	if g.roots != nil {
+		g2.roots = make(Nodes, len(g.roots))
+		for i, n := range g.roots {
+			g2.roots[i] = mapping[n]
+		}
 	}
+	g2.cachedRoots = g.cachedRoots
 
 	g2.counter = g.counter
 	return g2
@@ -192,6 +197,15 @@ func (g *ExprGraph) addToAll(n *Node) {
 	g.all = append(g.all, n)
 	n.id = int64(g.counter)
 	g.counter++
+	g.forgetRoots()
+}
+
+// forgetRoots drops the roots found by an earlier call to Roots. The roots a subgraph was created with are kept.
+func (g *ExprGraph) forgetRoots() {
+	if g.cachedRoots {
+		g.roots = nil
+		g.cachedRoots = false
+	}
 }
 
 // RemoveNode removes n from the graph, as well as any edges attached to it. If the node
@@ -208,6 +222,7 @@ func (g *ExprGraph) RemoveNode(node graph.Node) {
 	delete(g.to, n)
 	g.evac[hash] = g.evac[hash].remove(n)
 	g.all = g.all.remove(n)
+	g.forgetRoots()
 }
 
 // SetEdge adds e, an edge from one node to another. If the nodes do not exist, they are added.
@@ -230,6 +245,7 @@ func (g *ExprGraph) SetEdge(e graph.Edge) {
 
 	// g.to[to] = g.to[to].Add(from)
 	g.to[to] = append(g.to[to], from)
+	g.forgetRoots()
 }
 
 // Roots returns a list of nodes that are not children of any other nodes
@@ -252,6 +268,7 @@ func (g *ExprGraph) Roots() (retVal Nodes) {
 		}
 	}
 	g.roots = retVal
+	g.cachedRoots = true
 	return retVal
 }
 
@@ -510,6 +527,7 @@ func (g *ExprGraph) removeAllEdgesFrom(n *Node) {
 	for k, ns := range g.to {
 		g.to[k] = ns.remove(n)
 	}
+	g.forgetRoots()
 }
 
 /* Graph interface */
-- 
2.43.0


From 6858b22147473b0b87734dbaded80f4ddce2d9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:36 +0000
Subject: [PATCH 012/115] fix: count the accumulated gradient of a scalar once
 when it meets a tensor

In automatic differentiation the gradient of a scalar operand of a tensor operation is computed per element and summed. The gradient accumulated by earlier uses was added to every element before summing, so a scalar used several times got a wrong gradient. Adding it in place also overwrote the gradient of the output.
---
 op_math.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/op_math.go b/op_math.go
index 30fd708..e48e16f 100644
--- a/op_math.go
+++ b/op_math.go
@@ -251,6 +251,22 @@ func (op elemBinOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 		return
 	}
 
+	// When a scalar input meets a tensor, its gradient is computed for every element and summed afterwards.
+	// What the scalar has accumulated so far must be counted only once, so it is put aside.
+	accumulated := make([]Value, len(inputs))
+	if !output.IsScalar() {
+		for i, in := range inputs {
+			indv := in.boundTo.(*dualValue)
+			if d, ok := indv.d.(Scalar); ok && in.IsScalar() {
+				accumulated[i] = d
+				if indv.d, err = CloneValue(d); err != nil {
+					return errors.Wrapf(err, cloneFail, d)
+				}
+				indv.d = ZeroValue(indv.d)
+			}
+		}
+	}
+
 	b := op.ʘBinaryOperator.binOpType()
 	if err = ʘBinOpDiffFns[b](ctx, inputs[0], inputs[1], output); err != nil {
 		if _, ok := err.(AutoDiffError); !ok {
@@ -260,7 +276,7 @@ func (op elemBinOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 	}
 
 	//handle scalar gradients
-	for _, in := range inputs {
+	for i, in := range inputs {
 		indv := in.boundTo.(*dualValue)
 		if _, ok := indv.d.(Scalar); in.IsScalar() && !ok {
 			indvdT := indv.d.(tensor.Tensor)
@@ -276,6 +292,15 @@ func (op elemBinOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 			d, _ = anyToScalar(t.ScalarValue())
 			indv.SetDeriv(d)
 		}
+
+		if accumulated[i] != nil {
+			add := newEBOByType(addOpType, TypeOf(accumulated[i]), TypeOf(indv.d))
+			var d Value
+			if d, err = add.Do(accumulated[i], indv.d); err != nil {
+				return errors.Wrapf(err, doFail, add)
+			}
+			indv.SetDeriv(d)
+		}
 	}
 	return
 }
-- 
2.43.0


From 8b3dd2a7162e8daf7d5db8172094a7a69851d21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:21 +0000
Subject: [PATCH 013/115] fix: remember the momentum and AdaGrad state of
 scalar parameters between steps

---
 solvers.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/solvers.go b/solvers.go
index c155358..daeb676 100644
--- a/solvers.go
+++ b/solvers.go
@@ -1121,6 +1121,8 @@ func (s *Momentum) Step(model []ValueGrad) (err error) {
 			c = c*momentum - eta*g
 			w += c
 
+			cached.Value, _ = anyToScalar(c)
+
 			*(weights.(*F32)) = F32(w)
 			*(grad.(*F32)) = F32(0.0)
 		case *F64:
@@ -1162,6 +1164,8 @@ func (s *Momentum) Step(model []ValueGrad) (err error) {
 			c = c*momentum - eta*g
 			w += c
 
+			cached.Value, _ = anyToScalar(c)
+
 			*(weights.(*F64)) = F64(w)
 			*(grad.(*F64)) = F64(0.0)
 		default:
@@ -1308,6 +1312,7 @@ func (s *AdaGradSolver) Step(model []ValueGrad) (err error) {
 			g = grad.(*F32).any()
 
 			c += g * g
+			cached.Value, _ = anyToScalar(c)
 
 			if s.useClip {
 				if g > clip {
@@ -1342,6 +1347,7 @@ func (s *AdaGradSolver) Step(model []ValueGrad) (err error) {
 			g = grad.(*F64).any()
 
 			c += g * g
+			cached.Value, _ = anyToScalar(c)
 
 			if s.useClip {
 				if g > clip {
-- 
2.43.0


From 23360b7164fcdc4c3978bb27afc14f5d8409fd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:50 +0000
Subject: [PATCH 014/115] fix: let the solver options reach the AdaGrad solver

---
 solvers.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/solvers.go b/solvers.go
index daeb676..29efb50 100644
--- a/solvers.go
+++ b/solvers.go
@@ -79,6 +79,9 @@ func WithL2Reg(l2reg float64) SolverOpt {
 		case *AdamW:
 			st.l2reg = l2reg
 			st.useL2Reg = true
+		case *AdaGradSolver:
+			st.l2reg = l2reg
+			st.useL2Reg = true
 		}
 	}
 	return f
@@ -132,6 +135,8 @@ func WithEps(eps float64) SolverOpt {
 			st.eps = eps
 		case *AdamW:
 			st.ɛ = eps
+		case *AdaGradSolver:
+			st.eps = eps
 		}
 	}
 	return f
@@ -159,6 +164,9 @@ func WithClip(clip float64) SolverOpt {
 		case *AdamW:
 			st.clip = clip
 			st.useClip = true
+		case *AdaGradSolver:
+			st.clip = clip
+			st.useClip = true
 		}
 	}
 	return f
@@ -180,6 +188,8 @@ func WithLearnRate(eta float64) SolverOpt {
 			st.eta = eta
 		case *AdamW:
 			st.η = eta
+		case *AdaGradSolver:
+			st.eta = eta
 		}
 	}
 	return f
-- 
2.43.0


From d8b83b82768077a294ea6ee9559efae4e21ed729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:26 +0000
Subject: [PATCH 015/115] fix: make AdamW follow its update rule and write the
 result to the parameter

---
 solvers.go | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/solvers.go b/solvers.go
index 29efb50..75979f5 100644
--- a/solvers.go
+++ b/solvers.go
@@ -1621,7 +1621,10 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 		if weights, grad, err = extractWeightGrad(n); err != nil {
 			return err
 		}
-		w := weights.(tensor.Tensor)
+		w, ok := weights.(tensor.Tensor)
+		if !ok {
+			return errors.Errorf(nyiTypeFail, "AdamW", weights)
+		}
 		g := grad.(tensor.Tensor)
 
 		st, ok := a.states[n]
@@ -1646,10 +1649,10 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 			decay = 1.0 - lr*wd
 			b1f := 1.0 - math.Pow(β1, it) // correction for beta
 			b2f := 1.0 - math.Pow(β2, it)
-			a1 = 1.0 - b1f
-			a2 = 1.0 - b2f // note here b2f is not sqrt'd
-			b1 = b1f
-			b2 = b2f
+			a1 = 1.0 - β1
+			a2 = 1.0 - β2
+			b1 = β1
+			b2 = β2
 			b2sqrt = math.Sqrt(b2f)
 			ss = -(lr / b1f)
 
@@ -1668,17 +1671,17 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 			decay = float32(1.0) - lr*wd
 			b1f := float32(1.0) - math32.Pow(β1, it) // correction for beta
 			b2f := float32(1.0) - math32.Pow(β2, it)
-			a1 = float32(1.0) - b1f
-			a2 = float32(1.0) - b2f // note here b2f is not sqrt'd
-			b1 = b1f
-			b2 = b2f
+			a1 = float32(1.0) - β1
+			a2 = float32(1.0) - β2
+			b1 = β1
+			b2 = β2
 			b2sqrt = math32.Sqrt(b2f)
 			ss = -(lr / b1f)
 
-			l1reg = a.l1reg
-			l2reg = a.l2reg
-			clip = a.clip
-			negClip = -a.clip
+			l1reg = float32(a.l1reg)
+			l2reg = float32(a.l2reg)
+			clip = float32(a.clip)
+			negClip = float32(-a.clip)
 
 		}
 		// regularization of gradients
@@ -1707,7 +1710,7 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 		var gSq tensor.Tensor
 
 		// θ_t =  (1 - ηλ)θ_t-1
-		if w, err = tensor.Mul(w, decay); err != nil {
+		if w, err = tensor.Mul(w, decay, tensor.UseUnsafe()); err != nil {
 			return err
 		}
 
-- 
2.43.0


From d5bd6af921b379f7e1c8899783ec5644158e03ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:13 +0000
Subject: [PATCH 016/115] fix: keep AdamW from overwriting gradients and
 parameters of one element

---
 solvers.go       |  4 ++--
 solvers_utils.go | 17 +++++++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/solvers.go b/solvers.go
index 75979f5..90d40ea 100644
--- a/solvers.go
+++ b/solvers.go
@@ -1718,7 +1718,7 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 		if st.expMA, err = tensor.Mul(st.expMA, b1, tensor.UseUnsafe()); err != nil {
 			return err
 		}
-		if _, err = tensor.Mul(g, a1, tensor.WithIncr(st.expMA)); err != nil {
+		if err = mulIncr(g, a1, st.expMA); err != nil {
 			return err
 		}
 
@@ -1729,7 +1729,7 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 		if gSq, err = tensor.Mul(g, g, tensor.UseUnsafe()); err != nil {
 			return err
 		}
-		if _, err = tensor.Mul(gSq, a2, tensor.WithIncr(st.expMASq)); err != nil {
+		if err = mulIncr(gSq, a2, st.expMASq); err != nil {
 			return err
 		}
 
diff --git a/solvers_utils.go b/solvers_utils.go
index 3ac320c..d170c26 100644
--- a/solvers_utils.go
+++ b/solvers_utils.go
@@ -12,17 +12,30 @@ func doL1Reg(w, g tensor.Tensor, l1reg interface{}) (err error) {
 	if l1regs, err = tensor.Sign(w); err != nil {
 		errors.Wrap(err, signFail)
 	}
-	if _, err = tensor.Mul(l1reg, l1regs, tensor.WithIncr(g)); err != nil {
+	if l1regs, err = tensor.Mul(l1reg, l1regs, tensor.UseUnsafe()); err != nil {
 		return errors.Wrap(err, pointWiseMulFail)
 	}
+	if _, err = tensor.Add(g, l1regs, tensor.UseUnsafe()); err != nil {
+		return errors.Wrap(err, addFail)
+	}
 	defer returnTensor(l1regs)
 	return nil
 }
 
 func doL2Reg(w, g tensor.Tensor, l2reg interface{}) (err error) {
-	if _, err = tensor.Mul(w, l2reg, tensor.WithIncr(g)); err != nil {
+	return mulIncr(w, l2reg, g)
+}
+
+// mulIncr does incr += t * s. Unlike passing tensor.WithIncr to tensor.Mul, it leaves t untouched if t has only one element.
+func mulIncr(t tensor.Tensor, s interface{}, incr tensor.Tensor) (err error) {
+	var prod tensor.Tensor
+	if prod, err = tensor.Mul(t, s); err != nil {
 		return errors.Wrap(err, pointWiseMulFail)
 	}
+	defer returnTensor(prod)
+	if _, err = tensor.Add(incr, prod, tensor.UseUnsafe()); err != nil {
+		return errors.Wrap(err, addFail)
+	}
 	return nil
 }
 
-- 
2.43.0


From e1a169e2f54f09005e06e6476119727534d06670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:13 +0000
Subject: [PATCH 017/115] fix: regularise the parameters, not their velocity,
 in the momentum solver

---
 solvers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solvers.go b/solvers.go
index 90d40ea..0192164 100644
--- a/solvers.go
+++ b/solvers.go
@@ -1032,7 +1032,7 @@ func (s *Momentum) Step(model []ValueGrad) (err error) {
 			// prep the regularization of gradients
 			var l1regs, l2regs tensor.Tensor
 			if s.useL1Reg {
-				if l1regs, err = tensor.Sign(cw); err != nil {
+				if l1regs, err = tensor.Sign(w); err != nil {
 					return errors.Wrap(err, signFail)
 				}
 
@@ -1048,7 +1048,7 @@ func (s *Momentum) Step(model []ValueGrad) (err error) {
 			}
 
 			if s.useL2Reg {
-				if l2regs, err = tensor.Mul(cw, l2reg); err != nil {
+				if l2regs, err = tensor.Mul(w, l2reg); err != nil {
 					return errors.Wrap(err, pointWiseMulFail)
 				}
 
-- 
2.43.0


From 7b42bd0ac2faed2944625087fd0d63937df91bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:13 +0000
Subject: [PATCH 018/115] fix: clip the gradients of scalar parameters in the
 RMSProp solver

---
 solvers.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/solvers.go b/solvers.go
index 0192164..71b1d73 100644
--- a/solvers.go
+++ b/solvers.go
@@ -381,6 +381,7 @@ func (s *RMSPropSolver) Step(model []ValueGrad) (err error) {
 			stepSize := float32(s.eta)
 			eps := float32(s.eps)
 			l2reg := float32(s.l2reg)
+			clip := float32(s.clip)
 
 			gs := grad.(*F32).any()
 			c := cw.any()
@@ -388,6 +389,14 @@ func (s *RMSPropSolver) Step(model []ValueGrad) (err error) {
 
 			cached.Value, _ = anyToScalar(c)
 
+			if s.useClip {
+				if gs > clip {
+					gs = clip
+				} else if gs < -clip {
+					gs = -clip
+				}
+			}
+
 			w := weights.(*F32).any()
 			upd := -stepSize*gs/math32.Sqrt(c+eps) - l2reg*w
 			w += upd
@@ -401,6 +410,7 @@ func (s *RMSPropSolver) Step(model []ValueGrad) (err error) {
 			stepSize := s.eta
 			eps := s.eps
 			l2reg := s.l2reg
+			clip := s.clip
 
 			gs := grad.(*F64).any()
 			c := cw.any()
@@ -408,6 +418,14 @@ func (s *RMSPropSolver) Step(model []ValueGrad) (err error) {
 
 			cached.Value, _ = anyToScalar(c)
 
+			if s.useClip {
+				if gs > clip {
+					gs = clip
+				} else if gs < -clip {
+					gs = -clip
+				}
+			}
+
 			w := weights.(*F64).any()
 			upd := -stepSize*gs/math.Sqrt(c+eps) - l2reg*w
 			w += upd
-- 
2.43.0


From 4afe7694e407b0eb90e63a69a870f5fd12f36c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:07 +0000
Subject: [PATCH 019/115] fix: compare and zero views by their elements, and
 shapes when testing closeness

---
 equalities.go   | 12 ++++++++++++
 values_utils.go |  9 ++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/equalities.go b/equalities.go
index 85b6d68..b2b64e3 100644
--- a/equalities.go
+++ b/equalities.go
@@ -84,12 +84,24 @@ func scalarClose(a, b Scalar) bool {
 	}
 }
 
+// contiguous returns a tensor whose data are exactly its elements in order. A view is materialized.
+func contiguous(t tensor.Tensor) tensor.Tensor {
+	if v, ok := t.(tensor.View); ok && v.IsMaterializable() {
+		return v.Materialize()
+	}
+	return t
+}
+
 func tensorClose(a, b tensor.Tensor) bool {
 	aDt := a.Dtype()
 	bDt := b.Dtype()
 	if aDt != bDt {
 		return false
 	}
+	if !a.Shape().Eq(b.Shape()) {
+		return false
+	}
+	a, b = contiguous(a), contiguous(b)
 
 	switch aDt {
 	case tensor.Float64:
diff --git a/values_utils.go b/values_utils.go
index abf4baa..0c54c6c 100644
--- a/values_utils.go
+++ b/values_utils.go
@@ -2,6 +2,7 @@ package gorgonia
 
 import (
 	"fmt"
+	"reflect"
 
 	"github.com/chewxy/hm"
 	"github.com/pkg/errors"
@@ -53,7 +54,7 @@ func ValueEq(a, b Value) bool {
 		return false
 	case tensor.Tensor:
 		if bt, ok := b.(tensor.Tensor); ok {
-			return at.Eq(bt)
+			return contiguous(at).Eq(contiguous(bt))
 			//log.Printf("at.info %#v, bt.info %#v", a.(*tensor.Dense).Info(), b.(*tensor.Dense).Info())
 		}
 		return false
@@ -156,6 +157,12 @@ func ZeroValue(v Value) Value {
 		*vt = false
 		return vt
 	case tensor.Tensor:
+		// zeroing a view must not touch what lies between its elements
+		if d, ok := vt.(*tensor.Dense); ok && d.IsMaterializable() {
+			if err := d.Memset(reflect.Zero(d.Dtype().Type).Interface()); err == nil {
+				return vt
+			}
+		}
 		vt.Zero()
 		return vt
 	case ZeroValuer:
-- 
2.43.0


From 78f25fdf2b84aed937c6370f0d310dc336165a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:10 +0000
Subject: [PATCH 020/115] fix: check the type and shape of plain Go values
 bound with Let

---
 gorgonia.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/gorgonia.go b/gorgonia.go
index 73e340e..8a87cf6 100644
--- a/gorgonia.go
+++ b/gorgonia.go
@@ -271,14 +271,7 @@ func UnsafeLet(n *Node, be interface{}) error {
 		}
 
 	case Value:
-		if !n.Shape().Eq(v.Shape()) {
-			return fmt.Errorf("Node's expected shape is %v. Got %v instead", n.Shape(), v.Shape())
-		}
-
-		if !n.Dtype().Eq(v.Dtype()) {
-			return errors.Errorf("Unable to let %v be %v. Expected Dtype of %v. Got %v instead", n.name, be, n.Dtype(), v.Dtype())
-		}
-		n.bind(v)
+		return letValue(n, v)
 	case *Node:
 		// Case of letOp
 		if _, ok := n.op.(letOp); ok {
@@ -290,12 +283,23 @@ func UnsafeLet(n *Node, be interface{}) error {
 		if val, _, _, err = anyToValue(be); err != nil {
 			return errors.Wrapf(err, anyToValueFail, be, be)
 		}
-
-		n.bind(val)
+		return letValue(n, val)
 	}
 	return nil
 }
 
+// letValue binds v to n if v has the shape and the Dtype of the node.
+func letValue(n *Node, v Value) error {
+	if !n.Shape().Eq(v.Shape()) {
+		return fmt.Errorf("Node's expected shape is %v. Got %v instead", n.Shape(), v.Shape())
+	}
+
+	if !n.Dtype().Eq(v.Dtype()) {
+		return errors.Errorf("Unable to let %v be %v. Expected Dtype of %v. Got %v instead", n.name, v, n.Dtype(), v.Dtype())
+	}
+	return n.bind(v)
+}
+
 // Set is the equivalent of doing this:
 //		a = b
 // where a and b are both variables
-- 
2.43.0


From 2288746cdf63544e0b8059c270d7d2793d8d3b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:10 +0000
Subject: [PATCH 021/115] fix: report an unbound input instead of panicking in
 the LispMachine

---
 vm_genera.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vm_genera.go b/vm_genera.go
index 7c1914b..3d1b106 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -309,6 +309,9 @@ func (m *lispMachine) forward() (err error) {
 		switch {
 		case n.isArg():
 			machineLogf("Unit() on input node")
+			if n.boundTo == nil {
+				return errors.Errorf("No value bound to node %v (%x)", n, n.ID())
+			}
 			if err = n.bind(dvUnit(n.boundTo)); err != nil {
 				return errors.Wrap(err, bindFail)
 			}
-- 
2.43.0


From 33dfb15a5be6331e454f964731a1b7e981752c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:10 +0000
Subject: [PATCH 022/115] fix: run the whole graph again after resetting a
 LispMachine

---
 vm_genera.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vm_genera.go b/vm_genera.go
index 3d1b106..a95f8c6 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -108,7 +108,7 @@ func (m *lispMachine) allowSetRootGrad()    { m.runFlags |= uint16(1) << spare3
 func (m *lispMachine) disallowSetRootGrad() { m.runFlags &= (^(uint16(1) << spare3)) }
 
 func (m *lispMachine) Reset() {
-	m.fwd = len(m.sorted) - 1
+	m.fwd = 0
 	m.bwd = len(m.q) - 1
 }
 
-- 
2.43.0


From 04a52492140586776409b64c2da7c2f6fa8d8171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:10 +0000
Subject: [PATCH 023/115] fix: stop running the LispMachine once an error has
 been reported

---
 vm_genera.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vm_genera.go b/vm_genera.go
index a95f8c6..9c9f6fa 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -269,6 +269,7 @@ func (m *lispMachine) runall(errChan chan error, doneChan chan struct{}) {
 
 	if err != nil {
 		errChan <- err
+		return
 	}
 
 	// send a synchronous signal, do all (if any) CUDA work before continuing with backprop
@@ -289,6 +290,7 @@ backward:
 	}
 	if err != nil {
 		errChan <- err
+		return
 	}
 	doneChan <- struct{}{}
 }
-- 
2.43.0


From ce7b0ac8f492697145b172cdbc28431c6c3814df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:32 +0000
Subject: [PATCH 024/115] fix: tell convolutions with different dilations apart

The hash of the im2col operation left out the dilation, so two convolutions of the same image that differ only in dilation and have the same output size were merged into one node.
---
 op_nn.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/op_nn.go b/op_nn.go
index 65dca26..ee01324 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -225,7 +225,7 @@ func (op im2colOp) CallsExtern() bool    { return false }
 func (op im2colOp) OverwritesInput() int { return -1 }
 
 func (op im2colOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "im2col:%d-%d-%d-%d-%d-%d", op.h, op.w, op.padH, op.padW, op.strideH, op.strideW)
+	fmt.Fprintf(h, "im2col:%d-%d-%d-%d-%d-%d-%d-%d", op.h, op.w, op.padH, op.padW, op.strideH, op.strideW, op.dilationH, op.dilationW)
 }
 
 func (op im2colOp) Hashcode() uint32 { return simpleHash(op) }
@@ -485,7 +485,8 @@ func (op col2imOp) CallsExtern() bool    { return false }
 func (op col2imOp) OverwritesInput() int { return -1 }
 
 func (op col2imOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "col2im:%d-%d-%d-%d-%d-%d", op.h, op.w, op.padH, op.padW, op.strideH, op.strideW)
+	fmt.Fprintf(h, "col2im:%d-%d-%d-%d-%d-%d-%d-%d-%d-%d-%d-%d", op.h, op.w, op.padH, op.padW, op.strideH, op.strideW, op.dilationH, op.dilationW,
+		op.unpaddedB, op.unpaddedC, op.unpaddedH, op.unpaddedW)
 }
 
 func (op col2imOp) Hashcode() uint32 { return simpleHash(op) }
-- 
2.43.0


From 835255ff492e5cf3fb81fdb72a2ec4a4e8174d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:14 +0000
Subject: [PATCH 025/115] fix: add to the gradient of a convolved image in the
 LispMachine

The gradient of im2col overwrote whatever the other uses of the image had contributed.
---
 op_nn.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/op_nn.go b/op_nn.go
index ee01324..a870d04 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -284,9 +284,15 @@ func (op im2colOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (err
 		im2colOp: op,
 	}
 
-	if _, err = diffOp.UsePreallocDo(imv.d, colv.d); err != nil {
+	var d Value
+	if d, err = diffOp.Do(colv.d); err != nil {
 		return errors.Wrapf(err, doFail, diffOp)
 	}
+
+	add := newEBOByType(addOpType, TypeOf(imv.d), TypeOf(d))
+	if _, err = add.UnsafeDo(imv.d, d); err != nil {
+		return errors.Wrapf(err, unsafeDoFail, add)
+	}
 	return
 }
 
-- 
2.43.0


From f449d5ad4298e1242b7ae6a0e1dc799cb2f9f631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:17 +0000
Subject: [PATCH 026/115] fix: average in AveragePool1D

It returned the maximum of each window.
---
 op_avg_pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/op_avg_pool.go b/op_avg_pool.go
index a142f97..55127bd 100644
--- a/op_avg_pool.go
+++ b/op_avg_pool.go
@@ -12,7 +12,7 @@ import (
 
 // AveragePool1D applies a average pool on the node x.
 func AveragePool1D(x *Node, kernel, pad, stride int) (*Node, error) {
-	return MaxPool2D(x, tensor.Shape{1, kernel}, []int{0, pad}, []int{1, stride})
+	return AveragePool2D(x, tensor.Shape{1, kernel}, []int{0, pad}, []int{1, stride})
 }
 
 // AveragePool2D applies the average operation to the given input
-- 
2.43.0


From 933eb946dd3414cc149b9fbb7dfa95fabf07a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:17 +0000
Subject: [PATCH 027/115] fix: divide by the size of the window in average
 pooling

The sum of a window was divided by the width of the image.
---
 op_avg_pool.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op_avg_pool.go b/op_avg_pool.go
index 55127bd..cbb6249 100644
--- a/op_avg_pool.go
+++ b/op_avg_pool.go
@@ -319,7 +319,7 @@ func (op *avgPoolOp) f32s(batches, channels, outH, outW, inH, inW,
 						}
 					}
 
-					outData[poolIndex] /= float32(inW)
+					outData[poolIndex] /= float32(op.h * op.w)
 				}
 			}
 			// skip by strides
@@ -370,7 +370,7 @@ func (op *avgPoolOp) f64s(batches, channels, outH, outW, inH, inW,
 						}
 					}
 
-					outData[poolIndex] /= float64(inW)
+					outData[poolIndex] /= float64(op.h * op.w)
 				}
 			}
 			// skip by strides
-- 
2.43.0


From d03235f7e5c13f5f7e63a5bb97e6fe1bc7e611bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:17 +0000
Subject: [PATCH 028/115] fix: spread the gradient of average pooling over each
 window

Only the last element of each window received a gradient, which was then pooled again.
---
 op_avg_pool.go | 36 ++++--------------------------------
 1 file changed, 4 insertions(+), 32 deletions(-)

diff --git a/op_avg_pool.go b/op_avg_pool.go
index cbb6249..bbb7cc5 100644
--- a/op_avg_pool.go
+++ b/op_avg_pool.go
@@ -518,15 +518,6 @@ func (op *avgPoolDiffOp) f32s(batches, channels, pooledH, pooledW, inH, inW int,
 		for c := 0; c < channels; c++ {
 			for ph := 0; ph < pooledH; ph++ {
 				for pw := 0; pw < pooledW; pw++ {
-					index := ph*pooledW + pw
-					inIndex := maskData[index]
-
-					inDiffData[inIndex] += outDiffData[index]
-				}
-			}
-
-			for ph := 0; ph < inH; ph++ {
-				for pw := 0; pw < inW; pw++ {
 					hStart := ph*op.strideH - padH
 					wStart := pw*op.strideW - padW
 					hEnd := minInt(hStart+op.h, inH)
@@ -534,18 +525,13 @@ func (op *avgPoolDiffOp) f32s(batches, channels, pooledH, pooledW, inH, inW int,
 					hStart = maxInt(hStart, 0)
 					wStart = maxInt(wStart, 0)
 
-					poolIndex := ph*inW + pw
-					total := float32(0.0)
+					d := outDiffData[ph*pooledW+pw] / float32(op.h*op.w)
 
 					for hi := hStart; hi < hEnd; hi++ {
 						for wi := wStart; wi < wEnd; wi++ {
-							i := hi*inW + wi
-
-							total += inDiffData[i]
+							inDiffData[hi*inW+wi] += d
 						}
 					}
-
-					inDiffData[poolIndex] = total / float32(inW)
 				}
 			}
 
@@ -578,15 +564,6 @@ func (op *avgPoolDiffOp) f64s(batches, channels, pooledH, pooledW, inH, inW int,
 		for c := 0; c < channels; c++ {
 			for ph := 0; ph < pooledH; ph++ {
 				for pw := 0; pw < pooledW; pw++ {
-					index := ph*pooledW + pw
-					inIndex := maskData[index]
-
-					inDiffData[inIndex] += outDiffData[index]
-				}
-			}
-
-			for ph := 0; ph < inH; ph++ {
-				for pw := 0; pw < inW; pw++ {
 					hStart := ph*op.strideH - padH
 					wStart := pw*op.strideW - padW
 					hEnd := minInt(hStart+op.h, inH)
@@ -594,18 +571,13 @@ func (op *avgPoolDiffOp) f64s(batches, channels, pooledH, pooledW, inH, inW int,
 					hStart = maxInt(hStart, 0)
 					wStart = maxInt(wStart, 0)
 
-					poolIndex := ph*inW + pw
-					total := float64(0.0)
+					d := outDiffData[ph*pooledW+pw] / float64(op.h*op.w)
 
 					for hi := hStart; hi < hEnd; hi++ {
 						for wi := wStart; wi < wEnd; wi++ {
-							i := hi*inW + wi
-
-							total += inDiffData[i]
+							inDiffData[hi*inW+wi] += d
 						}
 					}
-
-					inDiffData[poolIndex] = total / float64(inW)
 				}
 			}
 
-- 
2.43.0


From b497989075c2f68ee829e280a8e3d55c0e382be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:37 +0000
Subject: [PATCH 029/115] fix: add to the gradient of a pooled image in the
 LispMachine

The gradients of max and average pooling overwrote whatever the other uses of the image had contributed.
---
 op_avg_pool.go | 8 +++++++-
 op_nn.go       | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/op_avg_pool.go b/op_avg_pool.go
index bbb7cc5..a7e1a9e 100644
--- a/op_avg_pool.go
+++ b/op_avg_pool.go
@@ -216,9 +216,15 @@ func (op *avgPoolOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (e
 	op2 = *op
 	diff := &avgPoolDiffOp{op2}
 
-	if _, err = diff.UsePreallocDo(inputDV.d, inputDV.Value, outDV.Value, outDV.d); err != nil {
+	var d Value
+	if d, err = diff.Do(inputDV.Value, outDV.Value, outDV.d); err != nil {
 		return errors.Wrapf(err, doFail, diff)
 	}
+
+	add := newEBOByType(addOpType, TypeOf(inputDV.d), TypeOf(d))
+	if _, err = add.UnsafeDo(inputDV.d, d); err != nil {
+		return errors.Wrapf(err, unsafeDoFail, add)
+	}
 	return
 }
 
diff --git a/op_nn.go b/op_nn.go
index a870d04..86982c4 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -790,9 +790,15 @@ func (op *maxPoolOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (e
 	op2 = *op
 	diff := &maxPoolDiffOp{op2}
 
-	if _, err = diff.UsePreallocDo(inputDV.d, inputDV.Value, outDV.Value, outDV.d); err != nil {
+	var d Value
+	if d, err = diff.Do(inputDV.Value, outDV.Value, outDV.d); err != nil {
 		return errors.Wrapf(err, doFail, diff)
 	}
+
+	add := newEBOByType(addOpType, TypeOf(inputDV.d), TypeOf(d))
+	if _, err = add.UnsafeDo(inputDV.d, d); err != nil {
+		return errors.Wrapf(err, unsafeDoFail, add)
+	}
 	return
 }
 
-- 
2.43.0


From c1cb0e032b90f5ea1c2ee4f83ba46c6f2e0b66d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:38 +0000
Subject: [PATCH 030/115] fix: tell poolings with different explicit paddings
 apart

The hash left out the padding on two of the four sides, so poolings that differ only there were merged into one node.
---
 op_avg_pool.go | 8 ++++----
 op_nn.go       | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/op_avg_pool.go b/op_avg_pool.go
index a7e1a9e..2ae495c 100644
--- a/op_avg_pool.go
+++ b/op_avg_pool.go
@@ -159,9 +159,9 @@ func (op *avgPoolOp) ReturnsPtr() bool     { return false }
 func (op *avgPoolOp) CallsExtern() bool    { return false }
 func (op *avgPoolOp) OverwritesInput() int { return -1 }
 func (op *avgPoolOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "AvgPool{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d), stride: (%d, %d))",
+	fmt.Fprintf(h, "AvgPool{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d, %d, %d), explicit: %t, stride: (%d, %d))",
 		op.unpaddedB, op.unpaddedC, op.unpaddedH, op.unpaddedW,
-		op.h, op.w, op.padNorth, op.padWest, op.strideH, op.strideW)
+		op.h, op.w, op.padNorth, op.padSouth, op.padWest, op.padEast, op.explicitPadding, op.strideH, op.strideW)
 }
 
 func (op *avgPoolOp) Hashcode() uint32 { return simpleHash(op) }
@@ -421,9 +421,9 @@ func (op *avgPoolDiffOp) ReturnsPtr() bool     { return true }
 func (op *avgPoolDiffOp) CallsExtern() bool    { return false }
 func (op *avgPoolDiffOp) OverwritesInput() int { return -1 }
 func (op *avgPoolDiffOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "AvgPoolDiff{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d), stride: (%d, %d))",
+	fmt.Fprintf(h, "AvgPoolDiff{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d, %d, %d), explicit: %t, stride: (%d, %d))",
 		op.unpaddedB, op.unpaddedC, op.unpaddedH, op.unpaddedW,
-		op.h, op.w, op.padNorth, op.padWest, op.strideH, op.strideW)
+		op.h, op.w, op.padNorth, op.padSouth, op.padWest, op.padEast, op.explicitPadding, op.strideH, op.strideW)
 }
 
 func (op *avgPoolDiffOp) Hashcode() uint32 { return simpleHash(op) }
diff --git a/op_nn.go b/op_nn.go
index 86982c4..33f9794 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -733,9 +733,9 @@ func (op *maxPoolOp) ReturnsPtr() bool     { return false }
 func (op *maxPoolOp) CallsExtern() bool    { return false }
 func (op *maxPoolOp) OverwritesInput() int { return -1 }
 func (op *maxPoolOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "MaxPool{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d), stride: (%d, %d))",
+	fmt.Fprintf(h, "MaxPool{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d, %d, %d), explicit: %t, stride: (%d, %d))",
 		op.unpaddedB, op.unpaddedC, op.unpaddedH, op.unpaddedW,
-		op.h, op.w, op.padNorth, op.padWest, op.strideH, op.strideW)
+		op.h, op.w, op.padNorth, op.padSouth, op.padWest, op.padEast, op.explicitPadding, op.strideH, op.strideW)
 }
 
 func (op *maxPoolOp) Hashcode() uint32 { return simpleHash(op) }
@@ -1000,9 +1000,9 @@ func (op *maxPoolDiffOp) ReturnsPtr() bool     { return true }
 func (op *maxPoolDiffOp) CallsExtern() bool    { return false }
 func (op *maxPoolDiffOp) OverwritesInput() int { return -1 }
 func (op *maxPoolDiffOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "MaxPoolDiff{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d), stride: (%d, %d))",
+	fmt.Fprintf(h, "MaxPoolDiff{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d, %d, %d), explicit: %t, stride: (%d, %d))",
 		op.unpaddedB, op.unpaddedC, op.unpaddedH, op.unpaddedW,
-		op.h, op.w, op.padNorth, op.padWest, op.strideH, op.strideW)
+		op.h, op.w, op.padNorth, op.padSouth, op.padWest, op.padEast, op.explicitPadding, op.strideH, op.strideW)
 }
 
 func (op *maxPoolDiffOp) Hashcode() uint32 { return simpleHash(op) }
-- 
2.43.0


From cb4e8ff05e6c16a7a9586bffe4d36b6b7cc5bef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:38 +0000
Subject: [PATCH 031/115] fix: compute the gradient of upsampling in the
 LispMachine

The operation had a symbolic derivative only; the LispMachine silently left the gradient at zero.
---
 op_upsample.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/op_upsample.go b/op_upsample.go
index 750d78b..089b205 100644
--- a/op_upsample.go
+++ b/op_upsample.go
@@ -142,6 +142,26 @@ func (op *upsampleOp) SymDiff(inputs Nodes, output, grad *Node) (retVal Nodes, e
 	return Nodes{ret}, nil
 }
 
+// DoDiff calculates the diff and adds it to the gradient of the input.
+func (op *upsampleOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (err error) {
+	if err = checkArity(op, len(inputs)); err != nil {
+		return
+	}
+	inputDV, outDV := getDV(inputs[0], output)
+	diff := &upsampleDiffOp{*op}
+
+	var d Value
+	if d, err = diff.Do(inputDV.Value, outDV.Value, outDV.d); err != nil {
+		return errors.Wrapf(err, doFail, diff)
+	}
+
+	add := newEBOByType(addOpType, TypeOf(inputDV.d), TypeOf(d))
+	if _, err = add.UnsafeDo(inputDV.d, d); err != nil {
+		return errors.Wrapf(err, unsafeDoFail, add)
+	}
+	return
+}
+
 type upsampleDiffOp struct {
 	upsampleOp
 }
-- 
2.43.0


From bb5d21808da9f6cad71e7055fb3ca14d7d3e6682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:38 +0000
Subject: [PATCH 032/115] fix: return the error of a failed pooling instead of
 dereferencing nil

---
 nn.go          | 5 ++++-
 op_avg_pool.go | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/nn.go b/nn.go
index ee25fcb..9bab214 100644
--- a/nn.go
+++ b/nn.go
@@ -370,8 +370,11 @@ func MaxPool2D(x *Node, kernel tensor.Shape, pad, stride []int) (*Node, error) {
 
 	op := newMaxPoolOp(xShape, kernel, pad, stride)
 	retVal, err := ApplyOp(op, x)
+	if err != nil {
+		return nil, err
+	}
 	retVal.groups = retVal.groups.Upsert(group)
-	return retVal, err
+	return retVal, nil
 }
 
 // MaxPool1D applies a maxpool on the node x.
diff --git a/op_avg_pool.go b/op_avg_pool.go
index 2ae495c..6700145 100644
--- a/op_avg_pool.go
+++ b/op_avg_pool.go
@@ -68,9 +68,11 @@ func AveragePool2D(x *Node, kernel tensor.Shape, pad, stride []int) (*Node, erro
 
 	op := newAvgPoolOp(xShape, kernel, pad, stride)
 	retVal, err := ApplyOp(op, x)
+	if err != nil {
+		return nil, err
+	}
 	retVal.groups = retVal.groups.Upsert(group)
-
-	return retVal, err
+	return retVal, nil
 }
 
 type avgPoolOp struct {
-- 
2.43.0


From 175bbd688fe57a596206bd0f0534002f0bd0caa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:09:53 +0000
Subject: [PATCH 033/115] fix: report a non-differentiable operation instead of
 panicking

Grad indexed past the end of an empty list when the cost depends on an operation without a symbolic derivative.
---
 differentiation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/differentiation.go b/differentiation.go
index 3dd4655..8c307d9 100644
--- a/differentiation.go
+++ b/differentiation.go
@@ -34,6 +34,9 @@ func forwardDiffAnalysis(outputs, sortedNodes Nodes) (retVal NodeSet, err error)
 	for _, n := range sortedNodes {
 		if diffSet.Contains(n) && !n.isInput() {
 			diffs := n.diffWRT()
+			if len(diffs) < len(n.children) {
+				return nil, errors.Errorf("%v is not differentiable", n)
+			}
 			for j, child := range n.children {
 				d := diffs[j]
 				if d {
-- 
2.43.0


From 6d3fc74b7ba5774d9c35f9a8569aac3d7b26fe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:09:53 +0000
Subject: [PATCH 034/115] fix: compute the gradient of Max in the LispMachine

The operation had a symbolic derivative only; the LispMachine silently left the gradient at zero.
---
 op_reduction.go | 56 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/op_reduction.go b/op_reduction.go
index 8ae9339..2d07a73 100644
--- a/op_reduction.go
+++ b/op_reduction.go
@@ -161,6 +161,62 @@ func (op maxOp) SymDiff(inputs Nodes, output, gradNode *Node) (retVal Nodes, err
 	return
 }
 
+// DoDiff adds the gradient of the output to the gradient of those elements of the input that are the maximum.
+func (op maxOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (err error) {
+	if err = checkArity(op, len(inputs)); err != nil {
+		return
+	}
+	xdv, ydv := getDV(inputs[0], output)
+
+	x, ok := xdv.Value.(tensor.Tensor)
+	if !ok {
+		return errors.Errorf(nyiTypeFail, "maxOp.DoDiff()", xdv.Value)
+	}
+
+	// spread repeats a reduced value along the axes that were reduced
+	spread := func(v Value) (T tensor.Tensor, err error) {
+		T = tensor.New(tensor.Of(x.Dtype()), tensor.WithShape(x.Shape().Clone()...))
+		r, ok := v.(tensor.Tensor)
+		if !ok || r.IsScalar() {
+			return T, T.Memset(v.Data())
+		}
+		kept := x.Shape().Clone()
+		for _, a := range op.along {
+			kept[a] = 1
+		}
+		T = r.Clone().(tensor.Tensor)
+		if err = T.Reshape(kept...); err != nil {
+			return nil, err
+		}
+		for _, a := range op.along {
+			if T, err = tensor.Repeat(T, a, x.Shape()[a]); err != nil {
+				return nil, err
+			}
+		}
+		return T, nil
+	}
+
+	var y, dy, mask, d tensor.Tensor
+	if y, err = spread(ydv.Value); err != nil {
+		return errors.Wrapf(err, doFail, op)
+	}
+	if dy, err = spread(ydv.d); err != nil {
+		return errors.Wrapf(err, doFail, op)
+	}
+	if mask, err = tensor.ElEq(x, y, tensor.AsSameType()); err != nil {
+		return errors.Wrapf(err, doFail, op)
+	}
+	if d, err = tensor.Mul(mask, dy); err != nil {
+		return errors.Wrapf(err, doFail, op)
+	}
+
+	add := newEBOByType(addOpType, TypeOf(xdv.d), TypeOf(d))
+	if _, err = add.UnsafeDo(xdv.d, d); err != nil {
+		return errors.Wrapf(err, unsafeDoFail, add)
+	}
+	return
+}
+
 func (op maxOp) Do(inputs ...Value) (retVal Value, err error) {
 	return reductionDo(op, "max", (*tensor.Dense).Max, op.along, inputs...)
 }
-- 
2.43.0


From ef428ff91d3843391edd50c0f08df44bbc1ef31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:02 +0000
Subject: [PATCH 035/115] fix: report an operation the LispMachine cannot
 differentiate

Its inputs silently got a zero gradient.
---
 vm_genera.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/vm_genera.go b/vm_genera.go
index 9c9f6fa..a6bd335 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -502,6 +502,18 @@ func (m *lispMachine) forward() (err error) {
 			output: n,
 		}
 		m.q = append(m.q, instr)
+	} else if m.runBwd() && !n.isStmt {
+		// a derivative that cannot be computed must not be taken for zero
+		sop, isSDOp := op.Op.(SDOp)
+		differentiable := !isSDOp && len(n.children) > 0
+		if isSDOp {
+			for _, d := range sop.DiffWRT(len(n.children)) {
+				differentiable = differentiable || d
+			}
+		}
+		if differentiable {
+			return errors.Errorf("%v does not support automatic differentiation", n)
+		}
 	}
 	m.watchedLogf("Added to Queue")
 
-- 
2.43.0


From 9a813710624ddfa3af1e9666a08a596cd6087ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:58 +0000
Subject: [PATCH 036/115] fix: tell SoftMax and LogSoftMax of the same input
 apart

---
 op_softmax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/op_softmax.go b/op_softmax.go
index 42080f9..4244c63 100644
--- a/op_softmax.go
+++ b/op_softmax.go
@@ -49,7 +49,7 @@ func (op *softmaxOp) ReturnsPtr() bool { return false }
 
 func (op *softmaxOp) CallsExtern() bool { return false }
 
-func (op *softmaxOp) WriteHash(h hash.Hash) { fmt.Fprintf(h, "Softmax{%v}()", op.axis) }
+func (op *softmaxOp) WriteHash(h hash.Hash) { fmt.Fprintf(h, "Softmax{%v, %v}()", op.axis, op.isLog) }
 
 func (op *softmaxOp) Hashcode() uint32 { return simpleHash(op) }
 
-- 
2.43.0


From 09c2135a214fc7b57d0f0a03243a7072ef1be8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:58 +0000
Subject: [PATCH 037/115] fix: differentiate SoftMax of a column vector along
 the axis it was computed on

---
 op_softmax.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/op_softmax.go b/op_softmax.go
index 4244c63..6f15612 100644
--- a/op_softmax.go
+++ b/op_softmax.go
@@ -83,6 +83,19 @@ func (op *softmaxOp) checkInput(inputs ...Value) (tensor.Tensor, error) {
 	return in, nil
 }
 
+// resolveAxis returns the axis along which the values of the given shape are normalized.
+func (op *softmaxOp) resolveAxis(s tensor.Shape) int {
+	if op.axis != -1 {
+		return op.axis
+	}
+
+	if s.IsColVec() || (s.IsVector() && !s.IsRowVec()) {
+		return 0
+	}
+
+	return s.Dims() - 1 // default: last dim
+}
+
 func (op *softmaxOp) Do(inputs ...Value) (retVal Value, err error) {
 	inputTensor, err := op.checkInput(inputs...)
 	if err != nil {
@@ -102,15 +115,7 @@ func (op *softmaxOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, erro
 		return nil, fmt.Errorf("Can't check Softmax input: %w", err)
 	}
 
-	aShape := inputTensor.Shape()
-	axis := aShape.Dims() - 1 // default: last dim
-
-	if aShape.IsColVec() || (aShape.IsVector() && !aShape.IsRowVec()) {
-		axis = 0
-	}
-	if op.axis != -1 {
-		axis = op.axis
-	}
+	axis := op.resolveAxis(inputTensor.Shape())
 
 	if !op.isLog {
 		_, err = tensor.SoftMax(inputTensor, axis, tensor.WithReuse(prealloc.(tensor.Tensor)), tensor.UseUnsafe())
@@ -277,11 +282,13 @@ func (op *softmaxDiffOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value,
 		return nil, fmt.Errorf("Can't check SoftmaxDiff input: %w", err)
 	}
 
+	axis := op.resolveAxis(y.Shape())
+
 	if op.isLog {
-		return tensor.LogSoftMaxB(y, grad, op.axis, tensor.WithReuse(prealloc.(tensor.Tensor)), tensor.UseUnsafe())
+		return tensor.LogSoftMaxB(y, grad, axis, tensor.WithReuse(prealloc.(tensor.Tensor)), tensor.UseUnsafe())
 	}
 
-	return tensor.SoftMaxB(y, grad, op.axis, tensor.WithReuse(prealloc.(tensor.Tensor)), tensor.UseUnsafe())
+	return tensor.SoftMaxB(y, grad, axis, tensor.WithReuse(prealloc.(tensor.Tensor)), tensor.UseUnsafe())
 }
 
 // ensure it complies with the Op interface
-- 
2.43.0


From aaab913415015071bc5d256ae55c39a8b76dd1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:58 +0000
Subject: [PATCH 038/115] fix: leave the output's gradient alone when
 differentiating SoftMax

---
 op_softmax.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/op_softmax.go b/op_softmax.go
index 6f15612..d3c9758 100644
--- a/op_softmax.go
+++ b/op_softmax.go
@@ -148,14 +148,9 @@ func (op *softmaxOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) er
 		return err
 	}
 
-	sum, err := idvd.Add(result.(*tensor.Dense), tensor.UseUnsafe())
-	if err != nil {
-		return err
-	}
-
-	odv.d = sum
+	_, err = idvd.Add(result.(*tensor.Dense), tensor.UseUnsafe())
 
-	return nil
+	return err
 }
 
 // SymDiff applies the diff op. Implementation for SDOp interface.
-- 
2.43.0


From d375d6dac72e567e2ea41fca20843669b7276b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:58 +0000
Subject: [PATCH 039/115] fix: tell batch normalizations with different
 momentum or epsilon apart

---
 op_nn.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/op_nn.go b/op_nn.go
index 33f9794..848c776 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -1233,14 +1233,14 @@ func (op *BatchNormOp) OverwritesInput() int { return -1 }
 
 // WriteHash ...
 func (op *BatchNormOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "batchnorm-%1.1f-%1.1f", op.momentum, op.epsilon)
+	fmt.Fprintf(h, "batchnorm-%v-%v", op.momentum, op.epsilon)
 }
 
 // Hashcode ...
 func (op *BatchNormOp) Hashcode() uint32 { return simpleHash(op) }
 
 func (op *BatchNormOp) String() string {
-	return fmt.Sprintf("batchnorm-%1.1f-%1.1f", op.momentum, op.epsilon)
+	return fmt.Sprintf("batchnorm-%v-%v", op.momentum, op.epsilon)
 }
 
 // DoDiff does the gradient computation
@@ -1690,13 +1690,13 @@ func (op *batchnormDiffOp) Do(values ...Value) (Value, error) {
 // OverwritesInput is the same exact characteristics of batchnorm
 
 func (op *batchnormDiffOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "batchnormdiff-%1.1f-%1.1f", op.momentum, op.epsilon)
+	fmt.Fprintf(h, "batchnormdiff-%v-%v", op.momentum, op.epsilon)
 }
 
 func (op *batchnormDiffOp) Hashcode() uint32 { return simpleHash(op) }
 
 func (op *batchnormDiffOp) String() string {
-	return fmt.Sprintf("batchnormdiff-%1.1f-%1.1f", op.momentum, op.epsilon)
+	return fmt.Sprintf("batchnormdiff-%v-%v", op.momentum, op.epsilon)
 }
 
 func (op *batchnormDiffOp) DiffWRT(inputs int) []bool {
-- 
2.43.0


From 07d5235a730aa6faf4e0d50c57285767151bf856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:58 +0000
Subject: [PATCH 040/115] fix: differentiate batch normalization in the
 LispMachine

---
 op_nn.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/op_nn.go b/op_nn.go
index 848c776..b6ecf9a 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -1247,8 +1247,13 @@ func (op *BatchNormOp) String() string {
 func (op *BatchNormOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) error {
 	diff := &batchnormDiffOp{op}
 	xdv, ydv := getDV(inputs[0], output)
-	sdv, bdv := getDV(inputs[1], inputs[2])
-	_, err := diff.UsePreallocDo(xdv.d, xdv.Value, ydv.d, sdv.Value, bdv.Value)
+
+	dx, err := diff.Do(xdv.Value, ydv.d)
+	if err != nil {
+		return err
+	}
+
+	_, err = tensor.Add(xdv.d.(tensor.Tensor), dx.(tensor.Tensor), tensor.UseUnsafe())
 
 	return err
 }
-- 
2.43.0


From 06b009e3b0296c0235c34331d09f58746d003bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:58 +0000
Subject: [PATCH 041/115] fix: normalize the input rather than the preallocated
 output of a batch normalization

---
 op_nn.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/op_nn.go b/op_nn.go
index b6ecf9a..13d5683 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -1479,6 +1479,7 @@ func (op *BatchNormOp) f64s(input, output *tensor.Dense) (err error) {
 	}
 
 	// output = input * alpha + beta
+	inputF64s := input.Float64s()
 	outputF64s := output.Float64s()
 
 	if spatialDim == 1 {
@@ -1486,7 +1487,7 @@ func (op *BatchNormOp) f64s(input, output *tensor.Dense) (err error) {
 			for c := 0; c < channels; c++ {
 				i := s*channels + c
 
-				outputF64s[i] = outputF64s[i]*alpha[c] + beta[c]
+				outputF64s[i] = inputF64s[i]*alpha[c] + beta[c]
 			}
 		})
 	} else {
@@ -1495,7 +1496,7 @@ func (op *BatchNormOp) f64s(input, output *tensor.Dense) (err error) {
 				for d := 0; d < spatialDim; d++ {
 					i := s*channels*spatialDim + c*spatialDim + d
 
-					outputF64s[i] = outputF64s[i]*alpha[c] + beta[c]
+					outputF64s[i] = inputF64s[i]*alpha[c] + beta[c]
 				}
 			}
 		})
@@ -1626,6 +1627,7 @@ func (op *BatchNormOp) f32s(input, output *tensor.Dense) (err error) {
 	}
 
 	// output = input * alpha + beta
+	inputF32s := input.Float32s()
 	outputF32s := output.Float32s()
 
 	if spatialDim == 1 {
@@ -1633,7 +1635,7 @@ func (op *BatchNormOp) f32s(input, output *tensor.Dense) (err error) {
 			for c := 0; c < channels; c++ {
 				i := s*channels + c
 
-				outputF32s[i] = outputF32s[i]*alpha[c] + beta[c]
+				outputF32s[i] = inputF32s[i]*alpha[c] + beta[c]
 			}
 		})
 
@@ -1643,7 +1645,7 @@ func (op *BatchNormOp) f32s(input, output *tensor.Dense) (err error) {
 				for d := 0; d < spatialDim; d++ {
 					i := s*channels*spatialDim + c*spatialDim + d
 
-					outputF32s[i] = outputF32s[i]*alpha[c] + beta[c]
+					outputF32s[i] = inputF32s[i]*alpha[c] + beta[c]
 				}
 			}
 		})
-- 
2.43.0


From 32f450953ce0005320ea1ae7ddd521c5f6f179fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:58 +0000
Subject: [PATCH 042/115] fix: use the running variance in the gradient of an
 evaluating batch normalization of images

---
 op_nn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/op_nn.go b/op_nn.go
index 13d5683..a4ac508 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -1819,6 +1819,9 @@ func (op *batchnormDiffOp) f64s(input, prealloc, outGrad *tensor.Dense) (err err
 			}
 
 			invstd := 1 / math.Sqrt(float64(saveVariance[c])/float64(n)+float64(op.epsilon))
+			if !op.training {
+				invstd = 1 / math.Sqrt(runningVar[c]+op.epsilon)
+			}
 			k := float64(dotp*invstd*invstd) / float64(n)
 
 			// grad_mean = dySum / N
@@ -1930,6 +1933,9 @@ func (op *batchnormDiffOp) f32s(input, prealloc, outGrad *tensor.Dense) (err err
 			}
 
 			invstd := 1 / math32.Sqrt(saveVariance[c]/float32(n)+float32(op.epsilon))
+			if !op.training {
+				invstd = 1 / math32.Sqrt(runningVar[c]+float32(op.epsilon))
+			}
 			k := float32(dotp*invstd*invstd) / float32(n)
 
 			// grad_mean = dySum / N
-- 
2.43.0


From 41fe33db6ee23e6af2cafa2fabc7fbcae3ccba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:19:16 +0000
Subject: [PATCH 043/115] fix: merge the second moments of large groups in
 GroupNorm

---
 op_group_norm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op_group_norm.go b/op_group_norm.go
index 2bdd7d1..e5191ec 100644
--- a/op_group_norm.go
+++ b/op_group_norm.go
@@ -219,7 +219,7 @@ func (op *GroupNormOp) rowwiseMomentsF64(x []float64, n int, ddof int) (mean flo
 	}
 
 	for i := 1; i < depth; i++ {
-		op.addMomentsVecF64(m0stk[i], m1stk[i], m2stk[i], &m0stk[0], m1stk[0], m1stk[0])
+		op.addMomentsVecF64(m0stk[i], m1stk[i], m2stk[i], &m0stk[0], m1stk[0], m2stk[0])
 	}
 
 	var (
@@ -388,7 +388,7 @@ func (op *GroupNormOp) rowwiseMomentsF32(x []float32, n int, ddof int) (mean flo
 	}
 
 	for i := 1; i < depth; i++ {
-		op.addMomentsVecF32(m0stk[i], m1stk[i], m2stk[i], &m0stk[0], m1stk[0], m1stk[0])
+		op.addMomentsVecF32(m0stk[i], m1stk[i], m2stk[i], &m0stk[0], m1stk[0], m2stk[0])
 	}
 
 	var (
-- 
2.43.0


From e4d6d32c852146e7695c4458c320ba98b8ec08c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:19:16 +0000
Subject: [PATCH 044/115] fix: tell group normalizations with different epsilon
 apart

---
 op_group_norm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op_group_norm.go b/op_group_norm.go
index e5191ec..9b05250 100644
--- a/op_group_norm.go
+++ b/op_group_norm.go
@@ -74,7 +74,7 @@ func (op *GroupNormOp) WriteHash(h hash.Hash) {
 func (op *GroupNormOp) Hashcode() uint32 { return simpleHash(op) }
 
 func (op *GroupNormOp) String() string {
-	return fmt.Sprintf("GroupNorm{%d, %v}()", op.numGroups, op.numChannels)
+	return fmt.Sprintf("GroupNorm{%d, %v, %v}()", op.numGroups, op.numChannels, op.epsilon)
 }
 
 func (op *GroupNormOp) InferShape(inputs ...DimSizer) (tensor.Shape, error) {
@@ -526,7 +526,7 @@ func (op *groupNormDiffOp) WriteHash(h hash.Hash) {
 func (op *groupNormDiffOp) Hashcode() uint32 { return simpleHash(op) }
 
 func (op *groupNormDiffOp) String() string {
-	return fmt.Sprintf("groupNormDiff{%d, %v}()", op.numGroups, op.numChannels)
+	return fmt.Sprintf("groupNormDiff{%d, %v, %v}()", op.numGroups, op.numChannels, op.epsilon)
 }
 
 func (op *groupNormDiffOp) InferShape(inputs ...DimSizer) (tensor.Shape, error) {
-- 
2.43.0


From ac91243013ec52348a0f5d24cfba6d61f0904344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:19:16 +0000
Subject: [PATCH 045/115] fix: differentiate group normalization by the
 gradient of its output in the LispMachine

---
 op_group_norm.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/op_group_norm.go b/op_group_norm.go
index 9b05250..8dc1de3 100644
--- a/op_group_norm.go
+++ b/op_group_norm.go
@@ -472,19 +472,14 @@ func (op *GroupNormOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node)
 	idvd := idv.d.(*tensor.Dense)
 	diffOp := &groupNormDiffOp{op}
 
-	result, err := diffOp.Do(idv.Value, odv.Value, odv.d)
+	result, err := diffOp.Do(idv.Value, odv.d)
 	if err != nil {
 		return err
 	}
 
-	sum, err := idvd.Add(result.(*tensor.Dense), tensor.UseUnsafe())
-	if err != nil {
-		return err
-	}
+	_, err = idvd.Add(result.(*tensor.Dense), tensor.UseUnsafe())
 
-	odv.d = sum
-
-	return nil
+	return err
 }
 
 // SymDiff applies the diff op. Implementation for SDOp interface.
-- 
2.43.0


From aca9dee944c525be45a0c86bf621ce6f703a64df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:09 +0000
Subject: [PATCH 046/115] fix: compute Sparsemax and its gradients along the
 given axis on both machines

---
 op_sparsemax.go | 200 ++++++++++++++++++++++--------------------------
 1 file changed, 92 insertions(+), 108 deletions(-)

diff --git a/op_sparsemax.go b/op_sparsemax.go
index e1aebac..c7a88e5 100644
--- a/op_sparsemax.go
+++ b/op_sparsemax.go
@@ -44,13 +44,13 @@ func (op *sparsemaxOp) ReturnsPtr() bool { return false }
 func (op *sparsemaxOp) CallsExtern() bool { return false }
 
 func (op *sparsemaxOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "Sparsemax{}()")
+	fmt.Fprintf(h, "Sparsemax{%v}()", op.axis)
 }
 
 func (op *sparsemaxOp) Hashcode() uint32 { return simpleHash(op) }
 
 func (op *sparsemaxOp) String() string {
-	return fmt.Sprintf("Sparsemax{}()")
+	return fmt.Sprintf("Sparsemax{%v}()", op.axis)
 }
 
 func (op *sparsemaxOp) InferShape(inputs ...DimSizer) (tensor.Shape, error) {
@@ -88,16 +88,6 @@ func (op *sparsemaxOp) Do(inputs ...Value) (Value, error) {
 
 	inputShape := inputTensor.Shape()
 
-	if op.axis != -1 {
-		axes := make([]int, inputTensor.Dims())
-		axes[op.axis] = 1
-
-		inputTensor, err = tensor.Transpose(inputTensor, axes...)
-		if err != nil {
-			return nil, fmt.Errorf("error tranposing the input tensor: %w", err)
-		}
-	}
-
 	var output interface{}
 
 	switch inputTensor.Dtype() {
@@ -118,26 +108,48 @@ func (op *sparsemaxOp) Do(inputs ...Value) (Value, error) {
 	return tensor.New(tensor.Of(inputTensor.Dtype()), tensor.WithShape(inputShape.Clone()...), tensor.WithEngine(inputTensor.Engine()), tensor.WithBacking(output)), nil
 }
 
+// sparsemaxLanes lists the positions of the elements of a tensor lane by lane along the axis, and returns the size of a lane.
+// An axis of -1 is the last one.
+func sparsemaxLanes(s tensor.Shape, axis int) (order []int, size int) {
+	if axis == -1 {
+		axis = s.Dims() - 1
+	}
+
+	size = s[axis]
+	stride := tensor.ProdInts(s[axis+1:])
+	if stride == 0 {
+		stride = 1
+	}
+
+	order = make([]int, 0, s.TotalSize())
+	for start := 0; start < s.TotalSize(); start++ {
+		if (start/stride)%size != 0 {
+			continue
+		}
+
+		for j := 0; j < size; j++ {
+			order = append(order, start+j*stride)
+		}
+	}
+
+	return order, size
+}
+
 // FIXME: go2 generics
 func (op *sparsemaxOp) float32sparseMax(inputTensor tensor.Tensor) (interface{}, error) {
 	inputData := inputTensor.Data().([]float32)
-	dims := inputTensor.Dims()
+	order, to := sparsemaxLanes(inputTensor.Shape(), op.axis)
+	from := len(order) / to
 	it := 0
 
-	to := inputTensor.Shape()[dims-1]
-	from := tensor.Shape(inputTensor.Shape()[0 : dims-1]).TotalSize()
-	if from == 0 {
-		from = 1
-	}
-
 	maxValues := make([]float32, from)
 
 	for i := 0; i < from; i++ {
 		maxValue := float32(-math.MaxFloat32)
 
 		for j := 0; j < to; j++ {
-			if inputData[it] > maxValue {
-				maxValue = inputData[it]
+			if inputData[order[it]] > maxValue {
+				maxValue = inputData[order[it]]
 			}
 
 			it++
@@ -152,7 +164,7 @@ func (op *sparsemaxOp) float32sparseMax(inputTensor tensor.Tensor) (interface{},
 
 	for i := 0; i < from; i++ {
 		for j := 0; j < to; j++ {
-			stableInput[it] = inputData[it] - maxValues[i]
+			stableInput[it] = inputData[order[it]] - maxValues[i]
 			it++
 		}
 	}
@@ -203,7 +215,7 @@ func (op *sparsemaxOp) float32sparseMax(inputTensor tensor.Tensor) (interface{},
 			vF := stableInput[it]
 
 			if vF-thresholds[i] > 0 {
-				output[it] = vF - thresholds[i]
+				output[order[it]] = vF - thresholds[i]
 			}
 
 			it++
@@ -215,23 +227,18 @@ func (op *sparsemaxOp) float32sparseMax(inputTensor tensor.Tensor) (interface{},
 
 func (op *sparsemaxOp) float64sparseMax(inputTensor tensor.Tensor) (interface{}, error) {
 	inputData := inputTensor.Data().([]float64)
-	dims := inputTensor.Dims()
+	order, to := sparsemaxLanes(inputTensor.Shape(), op.axis)
+	from := len(order) / to
 	it := 0
 
-	to := inputTensor.Shape()[dims-1]
-	from := tensor.Shape(inputTensor.Shape()[0 : dims-1]).TotalSize()
-	if from == 0 {
-		from = 1
-	}
-
 	maxValues := make([]float64, from)
 
 	for i := 0; i < from; i++ {
 		maxValue := -math.MaxFloat64
 
 		for j := 0; j < to; j++ {
-			if inputData[it] > maxValue {
-				maxValue = inputData[it]
+			if inputData[order[it]] > maxValue {
+				maxValue = inputData[order[it]]
 			}
 
 			it++
@@ -246,7 +253,7 @@ func (op *sparsemaxOp) float64sparseMax(inputTensor tensor.Tensor) (interface{},
 
 	for i := 0; i < from; i++ {
 		for j := 0; j < to; j++ {
-			stableInput[it] = inputData[it] - maxValues[i]
+			stableInput[it] = inputData[order[it]] - maxValues[i]
 			it++
 		}
 	}
@@ -297,7 +304,7 @@ func (op *sparsemaxOp) float64sparseMax(inputTensor tensor.Tensor) (interface{},
 			vF := stableInput[it]
 
 			if vF-thresholds[i] > 0 {
-				output[it] = vF - thresholds[i]
+				output[order[it]] = vF - thresholds[i]
 			}
 
 			it++
@@ -309,32 +316,23 @@ func (op *sparsemaxOp) float64sparseMax(inputTensor tensor.Tensor) (interface{},
 
 // DoDiff calculates the diff and sets its value to the output node. Implementation for ADOp interface.
 func (op *sparsemaxOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) error {
-	if len(inputs) != 2 {
-		return fmt.Errorf("SparsemaxOp.DoDiff needs 2 arguments")
+	if len(inputs) != 1 {
+		return fmt.Errorf("SparsemaxOp.DoDiff needs 1 arguments")
 	}
 
 	odv := output.boundTo.(*dualValue)
-	odvd := odv.Value.(tensor.Tensor)
-	diffOp := &sparsemaxDiffOp{}
+	idv := inputs[0].boundTo.(*dualValue)
+	idvd := idv.d.(*tensor.Dense)
+	diffOp := &sparsemaxDiffOp{axis: op.axis}
 
-	result, err := diffOp.Do(odvd, inputs[1].boundTo)
+	result, err := diffOp.Do(odv.Value, odv.d)
 	if err != nil {
 		return err
 	}
 
-	err = result.(*tensor.Dense).Reshape(odvd.Shape()...)
-	if err != nil {
-		return err
-	}
-
-	sum, err := odvd.(*tensor.Dense).Add(result.(*tensor.Dense), tensor.UseUnsafe())
-	if err != nil {
-		return err
-	}
+	_, err = idvd.Add(result.(*tensor.Dense), tensor.UseUnsafe())
 
-	odv.d = sum
-
-	return nil
+	return err
 }
 
 // SymDiff applies the diff op. Implementation for SDOp interface.
@@ -346,7 +344,7 @@ func (op *sparsemaxOp) SymDiff(inputs Nodes, output, grad *Node) (Nodes, error)
 
 	t := output
 
-	diffOp := &sparsemaxDiffOp{}
+	diffOp := &sparsemaxDiffOp{axis: op.axis}
 	nodes := make(Nodes, 1)
 
 	nodes[0], err = ApplyOp(diffOp, t, grad)
@@ -364,10 +362,11 @@ func (op *sparsemaxOp) DiffWRT(inputs int) []bool {
 }
 
 type sparsemaxDiffOp struct {
+	axis int
 }
 
 func newSparsemaxOpDiff() *sparsemaxDiffOp {
-	return &sparsemaxDiffOp{}
+	return &sparsemaxDiffOp{axis: -1}
 }
 
 func (op *sparsemaxDiffOp) Arity() int {
@@ -379,13 +378,13 @@ func (op *sparsemaxDiffOp) ReturnsPtr() bool { return false }
 func (op *sparsemaxDiffOp) CallsExtern() bool { return false }
 
 func (op *sparsemaxDiffOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "SparsemaxDiff{}()")
+	fmt.Fprintf(h, "SparsemaxDiff{%v}()", op.axis)
 }
 
 func (op *sparsemaxDiffOp) Hashcode() uint32 { return simpleHash(op) }
 
 func (op *sparsemaxDiffOp) String() string {
-	return fmt.Sprintf("SparsemaxDiff{}()")
+	return fmt.Sprintf("SparsemaxDiff{%v}()", op.axis)
 }
 
 func (op *sparsemaxDiffOp) InferShape(inputs ...DimSizer) (tensor.Shape, error) {
@@ -438,14 +437,6 @@ func (op *sparsemaxDiffOp) checkInput(inputs ...Value) (*tensor.Dense, *tensor.D
 	return in, gradient, nil
 }
 
-func (op *sparsemaxDiffOp) mul(a tensor.Tensor, b tensor.Tensor) (tensor.Tensor, error) {
-	if a.Dims() != b.Dims() {
-		return tensor.Outer(a, b)
-	}
-
-	return tensor.Mul(a, b)
-}
-
 func (op *sparsemaxDiffOp) Do(inputs ...Value) (Value, error) {
 	inputTensor, gradTensor, err := op.checkInput(inputs...)
 	if err != nil {
@@ -456,59 +447,52 @@ func (op *sparsemaxDiffOp) Do(inputs ...Value) (Value, error) {
 		return nil, fmt.Errorf("sparsemaxDiffOp.Do inputs sizes should be equal")
 	}
 
-	var zero interface{}
-
-	if inputTensor.Dtype() == tensor.Float32 {
-		zero = float32(0.0)
-	} else {
-		zero = float64(0.0)
-	}
+	order, size := sparsemaxLanes(inputTensor.Shape(), op.axis)
+	result := tensor.New(tensor.Of(inputTensor.Dtype()), tensor.WithShape(inputTensor.Shape().Clone()...), tensor.WithEngine(inputTensor.Engine()))
 
-	nonZeros, err := inputTensor.ElNeScalar(zero, false, tensor.AsSameType())
-	if err != nil {
-		return nil, fmt.Errorf("sparsemaxDiffOp.Do failed to get non-zeros: %w", err)
-	}
-
-	mul, err := op.mul(nonZeros, gradTensor)
-	if err != nil {
-		return nil, fmt.Errorf("sparsemaxDiffOp.Do failed to mul grad tensor: %w", err)
-	}
-
-	a, err := tensor.Sum(mul, 1)
-	if err != nil {
-		return nil, err
-	}
+	switch inputTensor.Dtype() {
+	case tensor.Float64:
+		in, grad, out := inputTensor.Float64s(), gradTensor.Float64s(), result.Float64s()
 
-	b, err := tensor.Sum(nonZeros, 1)
-	if err != nil {
-		return nil, err
-	}
+		for it := 0; it < len(order); it += size {
+			lane := order[it : it+size]
+			sum, n := 0.0, 0.0
 
-	sum, err := tensor.Div(a, b)
-	if err != nil {
-		return nil, err
-	}
+			for _, i := range lane {
+				if in[i] != 0 {
+					sum += grad[i]
+					n++
+				}
+			}
 
-	if sum.Dims() == 1 && gradTensor.Dims() == 2 {
-		err := sum.Reshape(sum.Shape()[0], 1)
-		if err != nil {
-			return nil, err
+			for _, i := range lane {
+				if in[i] != 0 {
+					out[i] = grad[i] - sum/n
+				}
+			}
 		}
+	case tensor.Float32:
+		in, grad, out := inputTensor.Float32s(), gradTensor.Float32s(), result.Float32s()
 
-		sum, err = tensor.Repeat(sum, 1, gradTensor.Shape()[1])
-		if err != nil {
-			panic(err)
-		}
-	}
+		for it := 0; it < len(order); it += size {
+			lane := order[it : it+size]
+			sum, n := float32(0.0), float32(0.0)
 
-	sub, err := tensor.Sub(gradTensor, sum)
-	if err != nil {
-		return nil, err
-	}
+			for _, i := range lane {
+				if in[i] != 0 {
+					sum += grad[i]
+					n++
+				}
+			}
 
-	result, err := op.mul(nonZeros, sub)
-	if err != nil {
-		return nil, err
+			for _, i := range lane {
+				if in[i] != 0 {
+					out[i] = grad[i] - sum/n
+				}
+			}
+		}
+	default:
+		return nil, fmt.Errorf("invalid input type for SparsemaxDiff, expected float64 or float32, got: %v", inputTensor.Dtype())
 	}
 
 	return result, nil
-- 
2.43.0


From c6d0a666eb02af26bd239aaa97f09e177450fbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:31:18 +0000
Subject: [PATCH 047/115] fix: differentiate MinBetween and MaxBetween in the
 LispMachine

---
 op_minmaxBetween.go | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/op_minmaxBetween.go b/op_minmaxBetween.go
index 2661827..904588d 100644
--- a/op_minmaxBetween.go
+++ b/op_minmaxBetween.go
@@ -172,7 +172,7 @@ func minmaxAutoDiff(ctx ExecutionContext, a, b *Node, output *Node) (err error)
 	adv, bdv := getDV(a, b)
 	outdv := output.boundTo.(*dualValue)
 
-	eqOp := newElemBinOp(ltOpType, a, b)
+	eqOp := newElemBinOp(eqOpType, a, output)
 	eqOp.retSame = true
 	eq := &ExternalOp{
 		Op:               eqOp,
@@ -203,21 +203,38 @@ func minmaxAutoDiff(ctx ExecutionContext, a, b *Node, output *Node) (err error)
 		defer ctx.PutValue(dev, gradA)
 	}
 
-	mul := NewHadamardProdOp(a, output, ctx)
-	mul.Incr = gradA
+	if gradB, extra, err = b.GradOnDevice(dev, ctx.External); err != nil {
+		return errors.Wrapf(err, gradOnDeviceFail, b, dev)
+	}
+	if extra {
+		defer ctx.PutValue(dev, gradB)
+	}
 
-	var d Value
-	if d, err = mul.Do(gradOut, mask); err != nil {
-		return errors.Wrapf(err, "IncrDo gradA failed")
+	var dA, dB, d Value
+	mul := NewHadamardProdOp(a, output, ctx)
+	if dA, err = mul.Do(gradOut, mask); err != nil {
+		return errors.Wrap(err, "gradA failed")
 	}
-	adv.SetDeriv(d)
 
 	sub := NewSubOp(b, a, ctx)
-	sub.Incr = gradB
-	if d, err = sub.Do(gradOut, adv.d); err != nil {
-		return errors.Wrapf(err, "IncrDo gradB failed")
+	if dB, err = sub.Do(gradOut, dA); err != nil {
+		return errors.Wrap(err, "gradB failed")
 	}
-	bdv.SetDeriv(d)
-	return nil
 
+	add := NewAddOp(a, b, ctx)
+	add.UseUnsafe = true
+	if d, err = add.Do(gradA, dA); err != nil {
+		return errors.Wrap(err, "Unable to add to gradA")
+	}
+	if err = adv.SetDeriv(d); err != nil {
+		return err
+	}
+
+	if a == b {
+		gradB = adv.d
+	}
+	if d, err = add.Do(gradB, dB); err != nil {
+		return errors.Wrap(err, "Unable to add to gradB")
+	}
+	return bdv.SetDeriv(d)
 }
-- 
2.43.0


From 6545f739c70d247b361797373f8ba146dfcda644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:31:18 +0000
Subject: [PATCH 048/115] fix: tell dropouts with different probabilities apart

---
 op_dropout.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/op_dropout.go b/op_dropout.go
index de2ecfd..15aa19a 100644
--- a/op_dropout.go
+++ b/op_dropout.go
@@ -41,7 +41,7 @@ func (op *dropoutOp) WriteHash(h hash.Hash) { fmt.Fprintf(h, op.String()) }
 
 func (op *dropoutOp) Hashcode() uint32 { return simpleHash(op) }
 
-func (op *dropoutOp) String() string { return fmt.Sprintf("Dropout{training=%v}()", op.isTraining) }
+func (op *dropoutOp) String() string { return fmt.Sprintf("Dropout{%v, training=%v}()", op.probability, op.isTraining) }
 
 func (op *dropoutOp) InferShape(inputs ...DimSizer) (tensor.Shape, error) {
 	return inputs[0].(tensor.Shape), nil
-- 
2.43.0


From 0a3eb7f203ec705b91c95c23185ea1fe7ee38697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:31:18 +0000
Subject: [PATCH 049/115] fix: add to the gradient of an input of Dropout in
 the LispMachine

---
 op_dropout.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/op_dropout.go b/op_dropout.go
index 15aa19a..e6192fc 100644
--- a/op_dropout.go
+++ b/op_dropout.go
@@ -137,7 +137,12 @@ func (op *dropoutOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) er
 	diff := &dropoutDiffOp{op}
 	xdv, ydv := getDV(inputs[0], output)
 
-	_, err := diff.UsePreallocDo(xdv.d, xdv.Value, output.Value(), ydv.d)
+	dx, err := diff.Do(xdv.Value, output.Value(), ydv.d)
+	if err != nil {
+		return err
+	}
+
+	_, err = tensor.Add(xdv.d.(tensor.Tensor), dx.(tensor.Tensor), tensor.UseUnsafe())
 
 	return err
 }
-- 
2.43.0


From 9fb5b3e735c3019490763a71a17f9945567b4227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:31:18 +0000
Subject: [PATCH 050/115] fix: pass the gradient through Dropout unchanged when
 not training

---
 op_dropout.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/op_dropout.go b/op_dropout.go
index e6192fc..df7573c 100644
--- a/op_dropout.go
+++ b/op_dropout.go
@@ -216,6 +216,10 @@ func (op *dropoutDiffOp) UsePreallocDo(prealloc Value, inputs ...Value) (retVal
 
 	probability := op.probability
 
+	if !op.isTraining {
+		return Copy(result, outGrad)
+	}
+
 	switch input.Dtype() {
 	case Float64:
 		dy := outGrad.Float64s()
-- 
2.43.0


From c9c57bb326f13abb3444fb6638705e710dcfae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:53 +0000
Subject: [PATCH 051/115] fix: leave what a stabilized expression was built on
 as it was

Log(1+x) took 1+x out of the graph, and Log of a softmax turned the softmax
itself into a log softmax, which broke any other use of them. The other
rewrites left unused nodes behind that the LispMachine took for costs.
---
 node.go          |  2 ++
 perf.go          |  1 +
 stabilization.go | 88 +++++++++++++++++++++++-------------------------
 vm_genera.go     |  4 ++-
 4 files changed, 49 insertions(+), 46 deletions(-)

diff --git a/node.go b/node.go
index 74f6281..248a067 100644
--- a/node.go
+++ b/node.go
@@ -57,6 +57,7 @@ type Node struct {
 	unchanged     bool // has this node been modified
 	isStmt        bool // is this a statement node
 	ofInterest    bool // is this node of particular interest? (for debugging)
+	replaced      bool // has a stabler expression taken the place of what was to be built on this node?
 }
 
 // NodeConsOpt is a function that provides construction options for any Node.
@@ -428,6 +429,7 @@ func (n *Node) Clone() (retVal interface{}) {
 	n2.unchanged = n.unchanged
 	n2.isStmt = n.isStmt
 	n2.ofInterest = n.ofInterest
+	n2.replaced = n.replaced
 	return n2
 }
 
diff --git a/perf.go b/perf.go
index cd21b39..e7f09a8 100644
--- a/perf.go
+++ b/perf.go
@@ -40,6 +40,7 @@ func returnNode(n *Node) {
 	n.unchanged = false
 	n.isStmt = false
 	n.ofInterest = false
+	n.replaced = false
 
 	nodePool.Put(n)
 }
diff --git a/stabilization.go b/stabilization.go
index c81513b..668cbc6 100644
--- a/stabilization.go
+++ b/stabilization.go
@@ -70,10 +70,8 @@ func logStabilization(a *Node) (retVal *Node, err error) {
 		return a, noStabilizationErr{}
 	}
 
-	g := a.g
-	g.removeAllEdgesFrom(a) // remove all references
-	g.RemoveNode(a)
-	defer returnNode(a) // send it back to the pool, since it is literally useless now
+	// a is kept in the graph, as it may have other uses
+	a.replaced = true
 
 	if bot == subOpType {
 		if retVal, err = Neg(x); err == nil {
@@ -99,6 +97,7 @@ func exp1mStabilization(a, b *Node) (retVal *Node, err error) {
 		return nil, noStabilizationErr{}
 	}
 
+	a.replaced = true
 	op := newElemUnaryOp(expm1OpType, a.children[0])
 	return ApplyOp(op, a.children[0])
 }
@@ -118,6 +117,7 @@ func oneMinusSigmoidStabilization(a, b *Node) (retVal *Node, err error) {
 		return nil, noStabilizationErr{}
 	}
 
+	b.replaced = true
 	x := b.children[0]
 	if retVal, err = Neg(x); err == nil {
 		return Sigmoid(retVal)
@@ -136,6 +136,7 @@ func logSigmoidStabilization(a *Node) (retVal *Node, err error) {
 		return a, noStabilizationErr{}
 	}
 
+	a.replaced = true
 	x := a.children[0]
 	stabLogf("x : %v", x.Name())
 
@@ -164,6 +165,7 @@ func log1pExpStabilization(a *Node) (retVal *Node, err error) {
 		return a, noStabilizationErr{}
 	}
 
+	a.replaced = true
 	x := a.children[0]
 	stabLogf("OKKKKK")
 	return Softplus(x)
@@ -184,6 +186,7 @@ func log1pNegSigmoidStabilization(a *Node) (retVal *Node, err error) {
 		return a, noStabilizationErr{}
 	}
 
+	a.replaced = true
 	x := a.children[0].children[0]
 
 	stabLogf("x : %v", x.Name())
@@ -208,61 +211,55 @@ func logSoftmaxStabilization(a *Node) (retVal *Node, err error) {
 
 	switch op := a.op.(type) {
 	case *softmaxOp:
-		op.isLog = true
-		return a, nil
+		if op.isLog {
+			return a, noStabilizationErr{}
+		}
+		a.replaced = true
+		return logSoftmaxOf(op, a)
 	case elemBinOp:
 		if op.ʘBinaryOperator.binOpType() == mulOpType {
 			fst := a.children[0]
 			snd := a.children[1]
+			smop1, ok1 := fst.op.(*softmaxOp)
+			smop2, ok2 := snd.op.(*softmaxOp)
+			ok1 = ok1 && !smop1.isLog
+			ok2 = ok2 && !smop2.isLog
+			if !ok1 && !ok2 {
+				return a, noStabilizationErr{}
+			}
 
-			var hasSm bool
-			var smop1, smop2 *softmaxOp
-			if smop, ok := fst.op.(*softmaxOp); ok {
-				hasSm = true
-				smop1 = smop
+			var newFst, newSnd *Node
+			if ok1 {
+				newFst, err = logSoftmaxOf(smop1, fst)
+			} else {
+				newFst, err = Log(fst)
 			}
-			if smop, ok := snd.op.(*softmaxOp); ok {
-				hasSm = true
-				smop2 = smop
+			if err != nil {
+				return nil, err
 			}
-
-			if hasSm {
-				var newFst, newSnd *Node
-				switch {
-				case smop1 != nil && smop2 == nil:
-					smop1.isLog = true
-					newFst = fst
-					if newSnd, err = Log(snd); err != nil {
-						return nil, err
-					}
-				case smop1 == nil && smop2 != nil:
-					smop2.isLog = true
-					newSnd = snd
-					if newFst, err = Log(fst); err != nil {
-						return nil, err
-					}
-				case smop1 != nil && smop2 != nil:
-					smop1.isLog = true
-					smop2.isLog = true
-					newFst = fst
-					newSnd = snd
-				default:
-					return a, noStabilizationErr{}
-				}
-
-				// g := a.g
-				// g.removeAllEdgesFrom(a) // remove all references
-				// g.RemoveNode(a)
-				// returnNode(a) // send it back to the pool, since it is literally useless now
-				return Add(newFst, newSnd)
+			if ok2 {
+				newSnd, err = logSoftmaxOf(smop2, snd)
+			} else {
+				newSnd, err = Log(snd)
 			}
-
+			if err != nil {
+				return nil, err
+			}
+			a.replaced = true
+			return Add(newFst, newSnd)
 		}
 	}
 	return a, noStabilizationErr{}
 
 }
 
+// logSoftmaxOf is the logarithm of the result of a softmax, which itself is left as it is
+func logSoftmaxOf(op *softmaxOp, n *Node) (*Node, error) {
+	logOp := *op
+	logOp.isLog = true
+	return ApplyOp(&logOp, n.children[0])
+}
+
 /* Graph Optimizations */
 
 // negNegOptimization optimizes away -(-x) to just return x
@@ -276,6 +273,7 @@ func negNegOptimization(a *Node) (retVal *Node, err error) {
 		return a, noStabilizationErr{}
 	}
 
+	a.replaced = true
 	x := a.children[0]
 	return x, nil
 }
diff --git a/vm_genera.go b/vm_genera.go
index a6bd335..7370152 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -230,6 +230,8 @@ func (m *lispMachine) checkRoots() (err error) {
 		m.logf("roots: %v", m.g.Roots())
 		for _, root := range m.g.Roots() {
 			switch {
+			case root.replaced:
+				// it's not a cost
 			case m.setRootGrad() && !root.isStmt:
 				// check root's value
 				// if _, ok := root.boundTo.(*dualValue); !ok {
@@ -392,7 +394,7 @@ func (m *lispMachine) forward() (err error) {
 	m.watchedLogf(m.valueFmt, n.boundTo)
 
 	switch {
-	case (m.g.roots.Contains(n) || n.isRoot()) && !n.isStmt:
+	case (m.g.roots.Contains(n) || n.isRoot()) && !n.isStmt && !n.replaced:
 		machineLogf("Applying op %v to root", op)
 		if n.boundTo == nil {
 			machineLogf("dvBindVar")
-- 
2.43.0


From 6126e93cf141a4868797bb20f113a8c836d72dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:18 +0000
Subject: [PATCH 052/115] fix: tell constants apart by their values

Constants were merged by the name they print as, so that a float32 and a
float64 one, or large tensors with equal corners, became the same node.
---
 equalities.go | 10 ++++++++--
 graph.go      | 22 +++++++++++++++-------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/equalities.go b/equalities.go
index b2b64e3..e2be69e 100644
--- a/equalities.go
+++ b/equalities.go
@@ -175,13 +175,13 @@ func constEq(a, b constant) (ok bool) {
 			return
 		}
 
-		return bt == at
+		return scalarEq(at.v, bt.v)
 	case constantTensor:
 		var bt constantTensor
 		if bt, ok = b.(constantTensor); !ok {
 			return
 		}
-		return at.v.Eq(bt.v)
+		return TypeOf(at.v).Eq(TypeOf(bt.v)) && ValueEq(at.v, bt.v)
 	default:
 		panic("Not yet implemented")
 	}
@@ -204,6 +204,12 @@ func nodeEq(a, b *Node) bool {
 		return false
 	}
 
+	ac, aok := a.op.(constant)
+	bc, bok := b.op.(constant)
+	if aok && bok {
+		return constEq(ac, bc)
+	}
+
 	// hashcode is good for comparing Op (TODO: benchmark this vs reflect.DeepEq)
 	if a.op.Hashcode() != b.op.Hashcode() {
 		return false
diff --git a/graph.go b/graph.go
index a85246b..698ac68 100644
--- a/graph.go
+++ b/graph.go
@@ -148,7 +148,7 @@ func (g *ExprGraph) AddNode(n *Node) (retVal *Node) {
 	// check for node with the same name in the graph
 	// we don't update the graph if this is the case
 	for _, node := range g.constants {
-		if node.name == n.name && n.isConstant() {
+		if node.name == n.name && n.isConstant() && nodeEq(n, node) {
 			return node
 		}
 	}
@@ -162,6 +162,7 @@ func (g *ExprGraph) AddNode(n *Node) (retVal *Node) {
 					return e
 				}
 			}
+			n = g.ownConstant(n)
 			g.evac[hash] = append(g.evac[hash], n)
 			g.addToAll(n)
 			incrCC() // collision counter
@@ -169,6 +170,7 @@ func (g *ExprGraph) AddNode(n *Node) (retVal *Node) {
 		}
 
 		if !nodeEq(n, existing) {
+			n = g.ownConstant(n)
 			g.evac[hash] = Nodes{existing, n}
 			g.byHash[hash] = nil // to signal that it's collided
 			g.addToAll(n)
@@ -179,17 +181,23 @@ func (g *ExprGraph) AddNode(n *Node) (retVal *Node) {
 		return existing
 	}
 
-	if n.isConstant() {
-		n = n.clone()
-		g.constants = g.constants.Add(n)
-		n.g = g
-	}
-
+	n = g.ownConstant(n)
 	g.addToAll(n)
 	g.byHash[hash] = n
 	return n
 }
 
+// ownConstant returns a constant of the graph's own if n is a constant, as constants may be shared between graphs.
+func (g *ExprGraph) ownConstant(n *Node) *Node {
+	if !n.isConstant() {
+		return n
+	}
+	n = n.clone()
+	g.constants = g.constants.Add(n)
+	n.g = g
+	return n
+}
+
 func (g *ExprGraph) addToAll(n *Node) {
 	if n == nil {
 		panic("HELP! trying to add nil")
-- 
2.43.0


From 6e2bdfd2b71673cf190b445c864661f9be3a1747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:57 +0000
Subject: [PATCH 053/115] fix: hash the whole of a slice's bounds and step

---
 op_tensor.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index c75f7bb..7ff70a8 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -620,13 +620,13 @@ func (op sliceOp) WriteHash(h hash.Hash) {
 		return
 	}
 
-	if err := binary.Write(h, binary.LittleEndian, byte(op.Start())); err != nil {
+	if err := binary.Write(h, binary.LittleEndian, int64(op.Start())); err != nil {
 		panic(err)
 	}
-	if err := binary.Write(h, binary.LittleEndian, byte(op.End())); err != nil {
+	if err := binary.Write(h, binary.LittleEndian, int64(op.End())); err != nil {
 		panic(err)
 	}
-	if err := binary.Write(h, binary.LittleEndian, byte(op.Step())); err != nil {
+	if err := binary.Write(h, binary.LittleEndian, int64(op.Step())); err != nil {
 		panic(err)
 	}
 }
@@ -821,13 +821,13 @@ func (op sliceIncrOp) WriteHash(h hash.Hash) {
 		return
 	}
 
-	if err := binary.Write(h, binary.LittleEndian, byte(op.Start())); err != nil {
+	if err := binary.Write(h, binary.LittleEndian, int64(op.Start())); err != nil {
 		panic(err)
 	}
-	if err := binary.Write(h, binary.LittleEndian, byte(op.End())); err != nil {
+	if err := binary.Write(h, binary.LittleEndian, int64(op.End())); err != nil {
 		panic(err)
 	}
-	if err := binary.Write(h, binary.LittleEndian, byte(op.Step())); err != nil {
+	if err := binary.Write(h, binary.LittleEndian, int64(op.Step())); err != nil {
 		panic(err)
 	}
 }
-- 
2.43.0


From 47451715b50ce4920be262fc5b64783fa9e1ff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:25 +0000
Subject: [PATCH 054/115] fix: do not merge nodes whose hashes merely collide

Two different expressions whose hashes collide were taken for the same node,
both when added to a graph and when eliminating common subexpressions.
Compare their operands and operations as well.
---
 analysis.go   | 17 +++++++++--------
 equalities.go | 25 ++++++++++++++++++++++++-
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/analysis.go b/analysis.go
index aec5f39..425e680 100644
--- a/analysis.go
+++ b/analysis.go
@@ -8,7 +8,7 @@ import (
 // dataflow analysis
 
 type dataflow struct {
-	uniques map[uint32]*Node
+	uniques map[uint32]Nodes // nodes by their hash, which may collide
 
 	replacements map[*Node]*Node
 	intervals    map[*Node]*interval
@@ -20,7 +20,7 @@ type dataflow struct {
 
 func newdataflow() *dataflow {
 	df := new(dataflow)
-	df.uniques = make(map[uint32]*Node)
+	df.uniques = make(map[uint32]Nodes)
 	df.devTransChildren = make(map[*Node]Nodes)
 	df.devTransRepl = make(map[*Node]*Node)
 	return df
@@ -33,15 +33,16 @@ func (df *dataflow) vn(n *Node) (retVal *Node, unique bool) {
 	enterLogScope()
 	defer leaveLogScope()
 
-	node, ok := df.uniques[n.Hashcode()]
-
-	if ok {
-		return node, false
+	hash := n.Hashcode()
+	for _, node := range df.uniques[hash] {
+		if nodeEq(n, node) {
+			return node, false
+		}
 	}
 
 	compileLogf("adding a new unique")
 	// otherwise, add it to uniques, and then return itself
-	df.uniques[n.Hashcode()] = n
+	df.uniques[hash] = append(df.uniques[hash], n)
 
 	return n, true
 }
@@ -88,7 +89,7 @@ func analyze(g *ExprGraph, sorted Nodes) *dataflow {
 	compileLogf("Finding unique leaves")
 	df := newdataflow()
 	for _, n := range g.leaves {
-		df.uniques[n.Hashcode()] = n
+		df.vn(n)
 	}
 
 	// compileLogf("Common subexpression elimination")
diff --git a/equalities.go b/equalities.go
index e2be69e..9c63c42 100644
--- a/equalities.go
+++ b/equalities.go
@@ -1,6 +1,8 @@
 package gorgonia
 
 import (
+	"bytes"
+
 	"gorgonia.org/dawson"
 	"gorgonia.org/tensor"
 )
@@ -227,5 +229,26 @@ func nodeEq(a, b *Node) bool {
 		return false
 	}
 
-	return true
+	// hashes may collide
+	for i, child := range a.children {
+		if child != b.children[i] {
+			return false
+		}
+	}
+
+	return opEq(a.op, b.op)
+}
+
+// description collects what an Op writes to be hashed
+type description struct{ bytes.Buffer }
+
+func (d *description) Sum(b []byte) []byte { return append(b, d.Bytes()...) }
+func (d *description) Size() int           { return d.Len() }
+func (d *description) BlockSize() int      { return 1 }
+
+func opEq(a, b Op) bool {
+	var da, db description
+	a.WriteHash(&da)
+	b.WriteHash(&db)
+	return bytes.Equal(da.Bytes(), db.Bytes())
 }
-- 
2.43.0


From c2d8f39ff74fdb9a790a89f6f2898b2034e2a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:25 +0000
Subject: [PATCH 055/115] fix: pool the lowest value as any other

A window holding only the lowest value, or negative infinity, had no maximum,
and the gradient of such a pooling panicked.
---
 op_nn.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op_nn.go b/op_nn.go
index a4ac508..360b244 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -903,7 +903,7 @@ func (op *maxPoolOp) f32s(batches, channels, outH, outW, inH, inW,
 					for hi := hStart; hi < hEnd; hi++ {
 						for wi := wStart; wi < wEnd; wi++ {
 							i := hi*inW + wi
-							if inData[i] > outData[poolIndex] {
+							if maskData[poolIndex] == -1 || inData[i] > outData[poolIndex] {
 								outData[poolIndex] = inData[i]
 								maskData[poolIndex] = i
 							}
@@ -952,7 +952,7 @@ func (op *maxPoolOp) f64s(batches, channels, outH, outW, inH, inW,
 					for hi := hStart; hi < hEnd; hi++ {
 						for wi := wStart; wi < wEnd; wi++ {
 							i := hi*inW + wi
-							if inData[i] > outData[poolIndex] {
+							if maskData[poolIndex] == -1 || inData[i] > outData[poolIndex] {
 								outData[poolIndex] = inData[i]
 								maskData[poolIndex] = i
 							}
-- 
2.43.0


From 164fde44137c4a6d600b110a404a11218a1b5683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:44 +0000
Subject: [PATCH 056/115] fix: tell random nodes apart by their distributions

Random nodes were told apart by type and shape only, so that draws from
different distributions were merged into one node.
---
 equalities.go | 3 +++
 node.go       | 3 +++
 op_nn.go      | 2 +-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/equalities.go b/equalities.go
index 9c63c42..2664a28 100644
--- a/equalities.go
+++ b/equalities.go
@@ -199,6 +199,9 @@ func nodeEq(a, b *Node) bool {
 		if !b.isInput() {
 			return false
 		}
+		if a.isRandom() != b.isRandom() || (a.isRandom() && !opEq(a.op, b.op)) {
+			return false
+		}
 		return a.name == b.name
 	}
 
diff --git a/node.go b/node.go
index 248a067..c27e788 100644
--- a/node.go
+++ b/node.go
@@ -537,6 +537,9 @@ func (n *Node) WriteHash(h hash.Hash32) {
 
 	if n.isInput() {
 		h.Write([]byte(n.name))
+		if n.isRandom() {
+			n.op.WriteHash(h)
+		}
 	} else {
 
 		n.op.WriteHash(h)
diff --git a/op_nn.go b/op_nn.go
index 360b244..2795eec 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -149,7 +149,7 @@ func (op randomOp) ReturnsPtr() bool     { return false }
 func (op randomOp) CallsExtern() bool    { return false }
 func (op randomOp) OverwritesInput() int { return -1 }
 func (op randomOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "%d%v%f%f", op.which, op.shape, op.a, op.b)
+	fmt.Fprintf(h, "%d%v%v %v", op.which, op.shape, op.a, op.b)
 }
 
 func (op randomOp) Hashcode() uint32 { return simpleHash(op) }
-- 
2.43.0


From cfd24d684e84143348eb6374876e65c0509b60cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:25 +0000
Subject: [PATCH 057/115] fix: tell detection layers and sequence losses apart
 by all their settings

---
 op_ctc_loss.go | 4 ++--
 op_dropout.go  | 2 +-
 op_yolo.go     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/op_ctc_loss.go b/op_ctc_loss.go
index 08288be..65aa4ec 100644
--- a/op_ctc_loss.go
+++ b/op_ctc_loss.go
@@ -57,7 +57,7 @@ func (op *ctcLossOp) ReturnsPtr() bool { return false }
 func (op *ctcLossOp) CallsExtern() bool { return false }
 
 func (op *ctcLossOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "CTCLoss{}()")
+	fmt.Fprintf(h, "CTCLoss{%v}()", op.reduction)
 }
 
 func (op *ctcLossOp) Hashcode() uint32 { return simpleHash(op) }
@@ -520,7 +520,7 @@ type ctcLossDiffOp struct {
 func (op *ctcLossDiffOp) Arity() int { return 5 }
 
 func (op *ctcLossDiffOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, op.String())
+	fmt.Fprintf(h, "ctcLossDiff{%v}()", op.reduction)
 }
 
 func (op *ctcLossDiffOp) Hashcode() uint32 { return simpleHash(op) }
diff --git a/op_dropout.go b/op_dropout.go
index df7573c..e727357 100644
--- a/op_dropout.go
+++ b/op_dropout.go
@@ -276,7 +276,7 @@ func (op dropoutDiffOp) Hashcode() uint32 {
 	return h.Sum32()
 }
 
-func (op dropoutDiffOp) String() string { return fmt.Sprintf("dropoutDiffOp(%f)", op.probability) }
+func (op dropoutDiffOp) String() string { return fmt.Sprintf("dropoutDiffOp(%v)", op.probability) }
 
 // ensure it complies with the Op interface
 var (
diff --git a/op_yolo.go b/op_yolo.go
index c7327a7..6e2db68 100644
--- a/op_yolo.go
+++ b/op_yolo.go
@@ -69,7 +69,7 @@ func (op *yoloOp) ReturnsPtr() bool { return false }
 func (op *yoloOp) CallsExtern() bool { return false }
 
 func (op *yoloOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "YOLO{}(anchors: (%v))", op.anchors)
+	fmt.Fprintf(h, "YOLO{}(anchors: (%v), masks: %v, dimensions: %d, classes: %d, threshold: %v, training: %t)", op.anchors, op.masks, op.dimensions, op.numClasses, op.ignoreTresh, op.trainMode)
 }
 func (op *yoloOp) Hashcode() uint32 { return simpleHash(op) }
 
-- 
2.43.0


From 17395a9a1c4b6b386546d5afa6aa244f9d9e5df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:27 +0000
Subject: [PATCH 058/115] fix: draw uniform single precision weights from a
 uniform distribution

---
 weights.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weights.go b/weights.go
index 1df5ac9..57b2789 100644
--- a/weights.go
+++ b/weights.go
@@ -435,7 +435,7 @@ func GlorotEtAlU64(gain float64, s ...int) []float64 {
 //		math.Sqrt(2.0) for gain for weights that will be used in ReLU units
 //		math.Sqrt(2.0 / (1+alpha*alpha)) for ReLU that are leaky with alpha
 func GlorotEtAlU32(gain float64, s ...int) []float32 {
-	f64 := GlorotEtAlN64(gain, s...)
+	f64 := GlorotEtAlU64(gain, s...)
 	retVal := make([]float32, len(f64))
 	for i, v := range f64 {
 		retVal[i] = float32(v)
-- 
2.43.0


From d060bc0a19daadb7c13d69184a62de7fa861bf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:33 +0000
Subject: [PATCH 059/115] fix: apply dropout to storage handed in by the caller

---
 op_dropout.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/op_dropout.go b/op_dropout.go
index e727357..ce3451f 100644
--- a/op_dropout.go
+++ b/op_dropout.go
@@ -98,7 +98,7 @@ func (op *dropoutOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, erro
 		return inputTensor, nil
 	}
 
-	op.do(inputTensor.Data, prealloc.Data())
+	op.do(inputTensor.Data(), prealloc.Data())
 
 	return prealloc, nil
 }
@@ -113,6 +113,8 @@ func (op *dropoutOp) do(input, output interface{}) {
 			r := float32(op.rndGen())
 			if r < float32(keepProb) {
 				outputV[i] = d / float32(keepProb)
+			} else {
+				outputV[i] = 0
 			}
 		}
 	case []float64:
@@ -121,6 +123,8 @@ func (op *dropoutOp) do(input, output interface{}) {
 			r := op.rndGen()
 			if r < keepProb {
 				outputV[i] = d / keepProb
+			} else {
+				outputV[i] = 0
 			}
 		}
 	default:
-- 
2.43.0


From bed2414adc4224320a64d07c9aee2ec7f0baafa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:33 +0000
Subject: [PATCH 060/115] fix: accumulate batched products of one element each

---
 operatorLinAlg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operatorLinAlg.go b/operatorLinAlg.go
index adc90d4..5de785a 100644
--- a/operatorLinAlg.go
+++ b/operatorLinAlg.go
@@ -489,6 +489,9 @@ func batchedMatMul(a, b, c tensor.Tensor, transA, transB, incr bool) (retVal ten
 		if err := reshape("b", bs, innerB...); err != nil {
 			return nil, err
 		}
+		if err := reshape("c", cs, innerA[0], innerB[1]); err != nil {
+			return nil, err
+		}
 
 		var fo tensor.FuncOpt
 		if incr {
-- 
2.43.0


From 2ea510d05315c435f14ee63ef0ccf3a981520c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:03 +0000
Subject: [PATCH 061/115] fix: convert a scalar to a scalar

---
 op_types.go | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/op_types.go b/op_types.go
index 5d9f6e6..d4efb7c 100644
--- a/op_types.go
+++ b/op_types.go
@@ -103,11 +103,7 @@ func (op *dtConvOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, error
 				retData[i] = int(aData[i])
 			}
 		case float64:
-			retVal = tensor.New(
-				tensor.Of(tensor.Int),
-				tensor.WithShape(1),
-				tensor.WithBacking([]int{int(aData)}),
-			)
+			retVal = NewI(int(aData))
 		}
 	case op.from == tensor.Float32 && op.to == tensor.Int:
 		switch aData := a.Data().(type) {
@@ -117,11 +113,7 @@ func (op *dtConvOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, error
 				retData[i] = int(aData[i])
 			}
 		case float32:
-			retVal = tensor.New(
-				tensor.Of(tensor.Int),
-				tensor.WithShape(1),
-				tensor.WithBacking([]int{int(aData)}),
-			)
+			retVal = NewI(int(aData))
 		}
 	case op.from == tensor.Int && op.to == tensor.Float64:
 		switch aData := a.Data().(type) {
@@ -131,11 +123,7 @@ func (op *dtConvOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, error
 				retData[i] = float64(aData[i])
 			}
 		case int:
-			retVal = tensor.New(
-				tensor.Of(tensor.Float64),
-				tensor.WithShape(1),
-				tensor.WithBacking([]float64{float64(aData)}),
-			)
+			retVal = NewF64(float64(aData))
 		}
 	case op.from == tensor.Int && op.to == tensor.Float32:
 		switch aData := a.Data().(type) {
@@ -145,11 +133,7 @@ func (op *dtConvOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, error
 				retData[i] = float32(aData[i])
 			}
 		case int:
-			retVal = tensor.New(
-				tensor.Of(tensor.Float32),
-				tensor.WithShape(1),
-				tensor.WithBacking([]float32{float32(aData)}),
-			)
+			retVal = NewF32(float32(aData))
 		}
 	default:
 		return nil, errors.Errorf("Cannot do conversion %v", op.Type())
-- 
2.43.0


From 0d996c9cde7694aab867b22fbad14e13a2e783de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:09 +0000
Subject: [PATCH 062/115] fix: keep operands of one element intact when their
 product is added to a gradient

---
 operatorPointwise_binary.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/operatorPointwise_binary.go b/operatorPointwise_binary.go
index d333442..e4b1429 100644
--- a/operatorPointwise_binary.go
+++ b/operatorPointwise_binary.go
@@ -330,7 +330,8 @@ func (o tBinOp) UsePreallocDo(v Value, retSame bool, inputs ...Value) (retVal Va
 
 func (o tBinOp) IncrDo(incr Value, retSame bool, inputs ...Value) (err error) {
 	reuse, ok := incr.(tensor.Tensor)
-	if ok {
+	// a tensor of one element is treated as a scalar by the incrementing functions, which then overwrite it
+	if ok && reuse.Size() != 1 {
 		_, err = o.do(inputs, tensor.WithIncr(reuse))
 		return
 	}
@@ -351,6 +352,9 @@ func (o tBinOp) IncrDo(incr Value, retSame bool, inputs ...Value) (err error) {
 	if retVal, err = add.UnsafeDo(incr, retVal); err != nil {
 		return errors.Wrapf(err, unsafeDoFail, add)
 	}
+	if ok {
+		return nil
+	}
 
 	err = noIncrErr{retVal}
 	return
-- 
2.43.0


From b7a502978a72bdbfef1b18b367a3f6718091b690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:09 +0000
Subject: [PATCH 063/115] fix: execute an operation once when storage is
 provided

---
 execution.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/execution.go b/execution.go
index bb9ac53..5933a4d 100644
--- a/execution.go
+++ b/execution.go
@@ -93,7 +93,12 @@ func (op *ExternalOp) Do(vals ...Value) (Value, error) {
 			}
 		case op.Prealloc != nil:
 			if pd, ok := op.Op.(UsePreallocDoer); ok {
-				pd.UsePreallocDo(op.Prealloc, vals...)
+				if retVal, err := pd.UsePreallocDo(op.Prealloc, vals...); err == nil {
+					if retVal == op.Prealloc {
+						return retVal, nil
+					}
+					return Copy(op.Prealloc, retVal)
+				}
 			}
 			retVal, err := op.Op.Do(vals...)
 			if err != nil {
-- 
2.43.0


From 31712b88e8eb1437cd1057f50e82b7dbb9ce8a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:54 +0000
Subject: [PATCH 064/115] fix: list each edge once and in its direction

---
 graph.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index 698ac68..8df1ea5 100644
--- a/graph.go
+++ b/graph.go
@@ -517,10 +517,14 @@ func (g *ExprGraph) ToDot() string {
 func (g *ExprGraph) Edges() graph.Edges {
 	var edges []graph.Edge
 	for _, n := range g.all {
+		seen := NewNodeSet()
 		for _, toN := range g.to[n] {
+			if !seen.Add(toN) {
+				continue // the same expression was built several times, or uses n several times
+			}
 			edges = append(edges, edge{
-				from: n,
-				to:   toN,
+				from: toN,
+				to:   n,
 			})
 		}
 	}
-- 
2.43.0


From fccd9f427226c6c30436c1f18f39f2cd88233b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:54 +0000
Subject: [PATCH 065/115] fix: remove a node from all the indexes of a graph

---
 graph.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/graph.go b/graph.go
index 8df1ea5..04115f8 100644
--- a/graph.go
+++ b/graph.go
@@ -224,12 +224,23 @@ func (g *ExprGraph) RemoveNode(node graph.Node) {
 		return // if it's -1, it was never in the graph to begin with
 	}
 
+	if g.node(n.id) != n {
+		return
+	}
+
 	hash := n.Hashcode()
 
-	delete(g.byHash, hash)
+	if g.byHash[hash] == n {
+		delete(g.byHash, hash)
+	}
 	delete(g.to, n)
+	for _, child := range n.children {
+		g.to[child] = g.to[child].remove(n)
+	}
 	g.evac[hash] = g.evac[hash].remove(n)
 	g.all = g.all.remove(n)
+	g.leaves = g.leaves.remove(n)
+	g.constants = g.constants.remove(n)
 	g.forgetRoots()
 }
 
@@ -553,14 +564,15 @@ func (g *ExprGraph) Node(id int64) graph.Node {
 	// 	}
 	// }
 	// return nil
-	return g.node(id)
+	if n := g.node(id); n != nil {
+		return n
+	}
+	return nil
 }
 
 func (g *ExprGraph) node(id int64) *Node {
-	if idx, ok := g.byID[id]; ok {
-		if idx >= len(g.all) {
-			return nil
-		}
+	// positions shift when nodes are removed
+	if idx, ok := g.byID[id]; ok && idx < len(g.all) && g.all[idx].id == id {
 		return g.all[idx]
 	}
 	for i, n := range g.all {
-- 
2.43.0


From 18153cbcafe4148fbdf532df15fc380530e5d56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:27:04 +0000
Subject: [PATCH 066/115] fix: take the nodes below a single root when taking a
 part of a graph

---
 graph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index 04115f8..b17a3cf 100644
--- a/graph.go
+++ b/graph.go
@@ -749,7 +749,7 @@ func (g *ExprGraph) subgraph(ns Nodes, findMissing bool, opts ...Nodes) *ExprGra
 // otherwise, it treats ns as the subset of nodes to be included in the subgraph
 func (g *ExprGraph) Subgraph(ns ...*Node) *ExprGraph {
 	if len(ns) == 1 {
-		g.SubgraphRoots(ns[0])
+		return g.SubgraphRoots(ns[0])
 	}
 	return g.subgraph(ns, true)
 }
-- 
2.43.0


From 673c8aa06258cd7704abd565af36c5d5671cba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:01 +0000
Subject: [PATCH 067/115] fix: watch the first register for NaNs and Infs too

---
 vm_tape.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vm_tape.go b/vm_tape.go
index 4f3aa0d..03f3540 100644
--- a/vm_tape.go
+++ b/vm_tape.go
@@ -277,7 +277,7 @@ func (m *tapeMachine) runall(errChan chan error, doneChan chan struct{}) {
 		if m.watchNaN() {
 			writeTo := instr.writes().id
 			id := instr.ID()
-			if writeTo > 0 && id > 0 {
+			if writeTo >= 0 && id >= 0 {
 				v := m.getValue(instr.writes())
 				if v == nil {
 					err := errors.Errorf(nyiFail, "converting tensor.Memory to Value", "watchNaN")
@@ -297,7 +297,7 @@ func (m *tapeMachine) runall(errChan chan error, doneChan chan struct{}) {
 		if m.watchInf() {
 			writeTo := instr.writes().id
 			id := instr.ID()
-			if writeTo > 0 && id > 0 {
+			if writeTo >= 0 && id >= 0 {
 				v := m.getValue(instr.writes())
 				if v == nil {
 					err := errors.Errorf(nyiFail, "converting tensor.Memory to Value", "watchInf")
-- 
2.43.0


From 76b8d5caa39a72ba94fc5cc49b98e25fbe91ef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:14 +0000
Subject: [PATCH 068/115] fix: watch for NaNs and Infs among values which are
 not floats

---
 utils.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index ed7d394..25a0ffa 100644
--- a/utils.go
+++ b/utils.go
@@ -186,7 +186,9 @@ func hasInf(v Value, dev Device) bool {
 		}
 		return false
 	case *dualValue:
-		return hasInf(vt.Value, dev) || hasInf(vt.d, dev)
+		return hasInf(vt.Value, dev) || (vt.d != nil && hasInf(vt.d, dev))
+	case Scalar:
+		return false // only floats can be
 	default:
 		err := nyi("hasInf", v)
 		panic(err)
@@ -228,7 +230,9 @@ func hasNaN(v Value, dev Device) bool {
 		}
 		return false
 	case *dualValue:
-		return hasNaN(vt.Value, dev) || hasNaN(vt.d, dev)
+		return hasNaN(vt.Value, dev) || (vt.d != nil && hasNaN(vt.d, dev))
+	case Scalar:
+		return false // only floats can be
 	default:
 		err := nyi("hasNaN", vt)
 		panic(err)
-- 
2.43.0


From 9ae3d20849da08f626ad4c4abea67b7362e52ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:14 +0000
Subject: [PATCH 069/115] fix: report the node that failed in the lisp machine

---
 vm_genera.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vm_genera.go b/vm_genera.go
index 7370152..34f6fff 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -265,8 +265,11 @@ func (m *lispMachine) runall(errChan chan error, doneChan chan struct{}) {
 		goto backward
 	}
 
-	for err = nil; err == nil && m.fwd < len(m.sorted); m.fwd++ {
-		err = m.forward()
+	for m.fwd < len(m.sorted) {
+		if err = m.forward(); err != nil {
+			break // m.fwd is the node that failed
+		}
+		m.fwd++
 	}
 
 	if err != nil {
-- 
2.43.0


From db8e187188fc6d1ac96ed40a936bedd494dac7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:14 +0000
Subject: [PATCH 070/115] fix: watch for Infs in the lisp machine

---
 vm_genera.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/vm_genera.go b/vm_genera.go
index 34f6fff..2c3f5cc 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -528,6 +528,12 @@ func (m *lispMachine) forward() (err error) {
 		}
 	}
 
+	if m.watchInf() && !n.isStmt {
+		if hasInf(n.boundTo, dev) {
+			return errors.New("Inf found in value")
+		}
+	}
+
 	return
 }
 
@@ -581,6 +587,18 @@ func (m *lispMachine) backward() (err error) {
 			}
 		}
 	}
+
+	if m.watchInf() {
+		if hasInf(instr.output.boundTo, instr.ctx.Device) {
+			return errors.New("Inf found in value")
+		}
+
+		for _, in := range instr.inputs {
+			if hasInf(in.boundTo, instr.ctx.Device) {
+				return errors.New("Inf found in value")
+			}
+		}
+	}
 	return
 }
 
-- 
2.43.0


From a9780b7d25fff6981a53f98ecb7c9740e5534c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:51:34 +0000
Subject: [PATCH 071/115] fix: compute batched products before their values are
 bound or copied

---
 vm_tape_nocuda.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vm_tape_nocuda.go b/vm_tape_nocuda.go
index af8606e..f5c2685 100644
--- a/vm_tape_nocuda.go
+++ b/vm_tape_nocuda.go
@@ -96,6 +96,13 @@ func (instr *execOp) exec(m *tapeMachine) (err error) {
 	m.cpumem[dest] = v
 	node := m.p.g.Node(instr.id).(*Node)
 
+	// a batched BLAS may not have computed v yet, so it has to before v is looked at
+	if instr.op.CallsExtern() && (m.trace() || m.watchNaN() || m.watchInf() || (m.bindDV() && node.derivOf != nil)) {
+		if err = m.ExternMetadata.DoWork(); err != nil {
+			return errors.Wrap(err, "Failed to carry out batched work")
+		}
+	}
+
 	if m.trace() && (len(m.watchNodes) == 0 || m.watchNodes.Contains(node)) {
 		if err = node.bindCopy(v); err != nil {
 			return errors.Wrapf(err, "TraceExec failed to bind copy")
-- 
2.43.0


From 4e8b84f6b5d2f0c8a102cabfae9ecfd9feec45df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:20 +0000
Subject: [PATCH 072/115] fix: keep the values of the outputs of a compiled
 function

---
 analysis.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/analysis.go b/analysis.go
index 425e680..182111a 100644
--- a/analysis.go
+++ b/analysis.go
@@ -12,6 +12,7 @@ type dataflow struct {
 
 	replacements map[*Node]*Node
 	intervals    map[*Node]*interval
+	outputs      Nodes // the roots of the graph, whose values have to last
 
 	// tracks the special nodes' children and parents
 	devTransChildren map[*Node]Nodes
@@ -88,6 +89,7 @@ func analyze(g *ExprGraph, sorted Nodes) *dataflow {
 
 	compileLogf("Finding unique leaves")
 	df := newdataflow()
+	df.outputs = g.Roots()
 	for _, n := range g.leaves {
 		df.vn(n)
 	}
@@ -289,6 +291,16 @@ func (df *dataflow) buildIntervals(sorted Nodes) {
 		}
 	}
 
+	// a root of a subgraph may be used by other nodes, but its value is still wanted at the end
+	for _, n := range df.outputs {
+		if iv, ok := intervals[n]; ok && !iv.noUsePositions() {
+			iv.addUsePositions(instructions)
+		}
+		if iv, ok := intervals[df.replacements[n]]; ok && df.replacements[n] != n && !iv.noUsePositions() {
+			iv.addUsePositions(instructions)
+		}
+	}
+
 	for _, iv := range intervals {
 		iv.fix()
 	}
-- 
2.43.0


From aa3b37d0ecb033aa12b98755c9badc3ae8b30c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:20 +0000
Subject: [PATCH 073/115] fix: refuse to compile a function without inputs

---
 compile.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compile.go b/compile.go
index cf693c3..fe95b1b 100644
--- a/compile.go
+++ b/compile.go
@@ -67,6 +67,10 @@ func CompileFunction(g *ExprGraph, inputs, outputs Nodes) (prog *program, locMap
 	enterLogScope()
 	defer leaveLogScope()
 
+	if len(inputs) == 0 {
+		return nil, nil, errors.Errorf("Cannot compile a function that has no input nodes")
+	}
+
 	subgraph := g.ExactSubgraphRoots(outputs...)
 	var unused Nodes
 	for _, in := range inputs {
-- 
2.43.0


From d18e92d34525d705ebbfd8a73ad8f0a49b9486fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:20 +0000
Subject: [PATCH 074/115] fix: differentiate a second cost independently of the
 first

---
 differentiation.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/differentiation.go b/differentiation.go
index 8c307d9..529fbda 100644
--- a/differentiation.go
+++ b/differentiation.go
@@ -202,6 +202,12 @@ func Backpropagate(outputs, gradOutputs, wrt Nodes) (retVal Nodes, err error) {
 		nodeGradMap[n] = Nodes{gradOutputs[i]}
 	}
 
+	// derivatives found earlier may be those of other outputs
+	earlier := make(map[*Node]*Node)
+	for _, n := range sortedNodes {
+		earlier[n] = n.deriv
+	}
+
 	// "active" nodes are the ones that are differentially influenced by the inputs
 	// and also differentiably influence the outputs. These are the nodes where we need to call the
 	// "pullback" function to backpropagate derivatives
@@ -219,7 +225,8 @@ func Backpropagate(outputs, gradOutputs, wrt Nodes) (retVal Nodes, err error) {
 			continue
 		}
 
-		if node.deriv != nil {
+		// set by the differentiation of another node, see SetDerivOf
+		if node.deriv != nil && node.deriv != earlier[node] {
 			symdiffLogf("skipping %x - previously differentiated", node.ID())
 			nodeGradMap[node] = append(nodeGradMap[node], node.deriv)
 			continue
@@ -256,13 +263,17 @@ func Backpropagate(outputs, gradOutputs, wrt Nodes) (retVal Nodes, err error) {
 			}
 			symdiffLogf("reduced to... %x", n.ID())
 			// node.derives = append(node.derives, n)
-			n.derivOf = append(n.derivOf, node)
+			if !n.derivOf.Contains(node) {
+				n.derivOf = append(n.derivOf, node)
+			}
 			node.deriv = n
 			nodeGradMap[node] = Nodes{n}
 			// }
 		} else if len(nodeGradMap[node]) == 1 {
 			deriv := nodeGradMap[node][0]
-			deriv.derivOf = append(deriv.derivOf, node)
+			if !deriv.derivOf.Contains(node) {
+				deriv.derivOf = append(deriv.derivOf, node)
+			}
 			node.deriv = deriv
 		}
 
-- 
2.43.0


From 81bab47731352c2151a371ce3487f6ecc7d6dd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:49 +0000
Subject: [PATCH 075/115] fix: give scalars when reshaping to a scalar shape

---
 op_tensor.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index 7ff70a8..1b3d1e1 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -1188,8 +1188,11 @@ func (op reshapeOp) Do(vals ...Value) (Value, error) {
 		if err := val.(tensor.Tensor).Reshape(op.to...); err != nil {
 			return nil, err
 		}
-		return val, nil
+		return op.scalar(val)
 	case Scalar:
+		if op.to.IsScalar() {
+			return CloneValue(vals[0])
+		}
 		v0 := ScalarAsTensor(vals[0], op.to.Dims(), nil)
 		if err := v0.(tensor.Tensor).Reshape(op.to...); err != nil {
 			return nil, err
@@ -1200,6 +1203,16 @@ func (op reshapeOp) Do(vals ...Value) (Value, error) {
 	}
 }
 
+// scalar returns the reshaped value as a Scalar if it has been reshaped to a scalar shape
+func (op reshapeOp) scalar(val Value) (Value, error) {
+	T, ok := val.(tensor.Tensor)
+	if !ok || !op.to.IsScalar() {
+		return val, nil
+	}
+	retVal, _ := anyToScalar(T.ScalarValue())
+	return retVal, nil
+}
+
 func (op reshapeOp) ReturnsPtr() bool     { return true }
 func (op reshapeOp) CallsExtern() bool    { return false }
 func (op reshapeOp) OverwritesInput() int { return 0 }
@@ -1221,10 +1234,14 @@ func (op reshapeOp) UnsafeDo(vals ...Value) (Value, error) {
 	switch vals[0].(type) {
 	case tensor.Tensor:
 		val = vals[0]
-		err = val.(tensor.Tensor).Reshape(op.to...)
-
-		return val, err
+		if err = val.(tensor.Tensor).Reshape(op.to...); err != nil {
+			return nil, err
+		}
+		return op.scalar(val)
 	case Scalar:
+		if op.to.IsScalar() {
+			return vals[0], nil
+		}
 		v0 := ScalarAsTensor(vals[0], op.to.Dims(), nil)
 		if err := v0.(tensor.Tensor).Reshape(op.to...); err != nil {
 			return nil, err
@@ -1282,11 +1299,6 @@ func (op reshapeOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 	if d, err = (reshapeOp{from: op.to, to: op.from}).UnsafeDo(d); err != nil {
 		return
 	}
-	if T, ok := d.(tensor.Tensor); ok && T.IsScalar() {
-		if d, _ = anyToScalar(T.ScalarValue()); d == nil {
-			return errors.Errorf(nyiTypeFail, "reshape.DoDiff", T)
-		}
-	}
 
 	// accumulate
 	dv := inputs[0].boundTo.(*dualValue)
-- 
2.43.0


From 1110cf3c059930e51666dec31f9c5b69d416fe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:13 +0000
Subject: [PATCH 076/115] fix: keep the free list linked both ways when merging
 free blocks

---
 cuda/bfc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cuda/bfc.go b/cuda/bfc.go
index 95a2a5c..2949a1a 100644
--- a/cuda/bfc.go
+++ b/cuda/bfc.go
@@ -435,6 +435,9 @@ func (b *bfc) coalesce() {
 			case block.cap() == next.address:
 				block.size += next.size
 				block.next = next.next
+				if block.next != nil {
+					block.next.prev = block
+				}
 				next.next = nil
 				next.prev = nil // kill i
 
-- 
2.43.0


From 9489f51c644600fa5ecf8621c9492ab04b652d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:44:05 +0000
Subject: [PATCH 077/115] fix: announce the shape computed for vectors and
 matrices combined elementwise

---
 op_math.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/op_math.go b/op_math.go
index e48e16f..61aacc3 100644
--- a/op_math.go
+++ b/op_math.go
@@ -94,10 +94,10 @@ func (op elemBinOp) Type() hm.Type {
 	a := hm.TypeVariable('a')
 
 	var a0, a1, retType hm.Type
-	var arg0Dims int
+	var arg0IsTensor bool
 	switch arg0 := op.arg0.(type) {
 	case TensorType:
-		arg0Dims = arg0.Dims
+		arg0IsTensor = true
 		a0 = makeFromTensorType(arg0, a)
 		retType = makeFromTensorType(arg0, a)
 	default:
@@ -107,7 +107,7 @@ func (op elemBinOp) Type() hm.Type {
 
 	switch arg1 := op.arg1.(type) {
 	case TensorType:
-		if arg1.Dims >= arg0Dims {
+		if !arg0IsTensor { // otherwise the result has the shape of the left operand
 			retType = makeFromTensorType(arg1, a)
 		}
 		a1 = makeFromTensorType(arg1, a)
@@ -168,11 +168,7 @@ func (op elemBinOp) InferShape(inputs ...DimSizer) (retVal tensor.Shape, err err
 				if !x.Eq(y) {
 					return nil, errors.Errorf("Shape mismatch: %v and %v", x, y)
 				}
-				if x.Dims() > y.Dims() {
-					retVal = x
-				} else {
-					retVal = y
-				}
+				retVal = x
 			}
 		default:
 			retVal = x
-- 
2.43.0


From 56bf1ac4974107af1a92c92f1b25d4a26d0fb99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:44:56 +0000
Subject: [PATCH 078/115] fix: do not compute Boolean comparisons in place of
 their operands

---
 op_math.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/op_math.go b/op_math.go
index 61aacc3..552d5a3 100644
--- a/op_math.go
+++ b/op_math.go
@@ -304,6 +304,10 @@ func (op elemBinOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 func (op elemBinOp) ReturnsPtr() bool { return true }
 
 func (op elemBinOp) OverwritesInput() int {
+	// the operands cannot hold the Booleans a comparison may yield
+	if !op.isArith() && !op.retSame {
+		return -1
+	}
 	if _, ok := op.arg0.(TensorType); ok {
 		return 0
 	}
@@ -342,7 +346,7 @@ func (op elemBinOp) UsePreallocDo(prealloc Value, inputs ...Value) (retVal Value
 
 // Fulfils UnsafeDoer interface
 func (op elemBinOp) UnsafeDo(inputs ...Value) (retVal Value, err error) {
-	if !op.ReturnsPtr() {
+	if !op.ReturnsPtr() || (!op.isArith() && !op.retSame) {
 		return op.Do(inputs...)
 	}
 
-- 
2.43.0


From f7542c884ba567e48fdace141a439f316f346ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:44:56 +0000
Subject: [PATCH 079/115] fix: refuse to reduce twice along the same axis

---
 op_reduction.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/op_reduction.go b/op_reduction.go
index 2d07a73..10761bd 100644
--- a/op_reduction.go
+++ b/op_reduction.go
@@ -49,9 +49,12 @@ func reductionInferShape(along []int, in tensor.Shape) (tensor.Shape, error) {
 	}
 	shape := in.Clone()
 	for _, d := range along {
-		if d >= shape.Dims() {
+		if d < 0 || d >= shape.Dims() {
 			return nil, fmt.Errorf("shape error, along %d is not a valid axis for shape %v", d, in)
 		}
+		if shape[d] == 0 {
+			return nil, fmt.Errorf("shape error, along %d is given more than once for shape %v", d, in)
+		}
 		shape[d] = 0
 	}
 
-- 
2.43.0


From 5af206c01c3ba533406ae6aa229436491af7271f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:44:56 +0000
Subject: [PATCH 080/115] fix: refuse Sparsemax along an axis that is not there

---
 op_sparsemax.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/op_sparsemax.go b/op_sparsemax.go
index c7a88e5..adfb45f 100644
--- a/op_sparsemax.go
+++ b/op_sparsemax.go
@@ -55,6 +55,9 @@ func (op *sparsemaxOp) String() string {
 
 func (op *sparsemaxOp) InferShape(inputs ...DimSizer) (tensor.Shape, error) {
 	s := inputs[0].(tensor.Shape).Clone()
+	if op.axis < -1 || op.axis >= s.Dims() {
+		return nil, errors.Errorf("Sparsemax: %d is not a valid axis for shape %v", op.axis, s)
+	}
 	return s, nil
 }
 
-- 
2.43.0


From a8b0631192551f632dd840ecb234908c9927afdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:50:08 +0000
Subject: [PATCH 081/115] fix: reduce tensors of rank 4 and more along the axis
 asked for

---
 op_reduction.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/op_reduction.go b/op_reduction.go
index 10761bd..fb01e0b 100644
--- a/op_reduction.go
+++ b/op_reduction.go
@@ -11,6 +11,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"hash"
+	"sort"
 	"strings"
 
 	"github.com/chewxy/hm"
@@ -78,7 +79,7 @@ func reductionDo(op Op, s string, f func(*tensor.Dense, ...int) (*tensor.Dense,
 	switch t := at.(type) {
 	case *tensor.Dense:
 		var ret *tensor.Dense
-		if ret, err = f(t, along...); err == nil {
+		if ret, err = reduceAlong(f, t, along); err == nil {
 			if ret.IsScalar() {
 				retVal, _ = anyToScalar(ret.ScalarValue())
 			} else {
@@ -101,6 +102,30 @@ func reductionDo(op Op, s string, f func(*tensor.Dense, ...int) (*tensor.Dense,
 
 }
 
+// reduceAlong reduces t along the given axes. The reductions of package tensor are only right along a middle axis
+// when there are three, so tensors of higher rank are viewed as such, with the axis to be reduced in the middle.
+func reduceAlong(f func(*tensor.Dense, ...int) (*tensor.Dense, error), t *tensor.Dense, along []int) (retVal *tensor.Dense, err error) {
+	if t.Dims() <= 3 || len(along) == 0 || len(along) >= t.Dims() {
+		return f(t, along...)
+	}
+
+	axes := append([]int(nil), along...)
+	sort.Sort(sort.Reverse(sort.IntSlice(axes)))
+
+	shape := t.Shape().Clone()
+	retVal = t.Materialize().(*tensor.Dense).ShallowClone()
+	for _, axis := range axes {
+		if err = retVal.Reshape(shape[:axis].TotalSize(), shape[axis], shape[axis+1:].TotalSize()); err != nil {
+			return nil, err
+		}
+		if retVal, err = f(retVal, 1); err != nil {
+			return nil, err
+		}
+		shape = append(shape[:axis], shape[axis+1:]...)
+	}
+	return retVal, nil
+}
+
 type maxOp struct {
 	along axes
 	d     int
-- 
2.43.0


From 4ed53dacf0995ab2830edd957b5858a39494db59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:03:09 +0000
Subject: [PATCH 082/115] fix: announce the shape that slicing gives, and round
 stepped slices up along every axis

---
 op_tensor.go  | 139 ++++++++++++++++++++++++++++++++------------------
 operations.go |  21 ++++----
 2 files changed, 99 insertions(+), 61 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index 1b3d1e1..53c8a83 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -522,12 +522,77 @@ func (op *sliceOp) Type() hm.Type {
 
 func (op *sliceOp) InferShape(inputs ...DimSizer) (s tensor.Shape, err error) {
 	input := inputs[0].(tensor.Shape)
-	slices := make([]tensor.Slice, op.along+1)
-	slices[op.along] = op.Slice
+	if op.along >= input.Dims() {
+		return nil, errors.Errorf("Cannot slice shape %v along axis %d", input, op.along)
+	}
+
+	start, end, step, err := tensor.SliceDetails(op.Slice, input[op.along])
+	if err != nil {
+		return nil, err
+	}
+	size := end - start
+	if step > 1 {
+		size = (size + step - 1) / step
+	}
 
-	return input.S(slices...)
+	s = input.Clone()
+	switch {
+	case size < 1:
+		return nil, errors.Errorf("Nothing to slice from shape %v along axis %d", input, op.along)
+	case size == 1 && op.Slice != nil:
+		// the axis is dropped
+		s = append(s[:op.along], s[op.along+1:]...)
+	default:
+		s[op.along] = size
+	}
+	return s, nil
+}
+
+// slice selects a part of t. Package tensor rounds the number of elements down when stepping along the first axis,
+// and up along the others. So when they are to be rounded up along the first axis, another axis is put before it.
+func (op *sliceOp) slice(t tensor.Tensor) (retVal tensor.Tensor, err error) {
+	var slices []tensor.Slice
+	if T, ok := t.(*tensor.Dense); ok && op.Slice != nil && op.along == 0 && op.Step() > 1 {
+		expanded := T.ShallowClone()
+		if err = expanded.Reshape(append([]int{1}, T.Shape()...)...); err != nil {
+			return nil, err
+		}
+		slices = make([]tensor.Slice, expanded.Dims())
+		slices[1] = op
+		t = expanded
+	} else {
+		slices = make([]tensor.Slice, t.Dims())
+		if !op.all() {
+			slices[op.along] = op
+		}
+	}
+	if retVal, err = t.Slice(slices...); err != nil {
+		return nil, errors.Wrapf(err, sliceFail, slices)
+	}
+	return retVal, nil
+}
 
-	// return input.S(op.Slice)
+// incr adds to the part of t that is selected.
+func (op *sliceOp) incr(t *tensor.Dense, by Value) error {
+	v, err := op.slice(t)
+	if err != nil {
+		return err
+	}
+	switch i := by.(type) {
+	case *F64:
+		_, err = tensor.Add(v, i.any(), tensor.UseUnsafe())
+	case *F32:
+		_, err = tensor.Add(v, i.any(), tensor.UseUnsafe())
+	case *tensor.Dense:
+		if !i.Shape().Eq(v.Shape()) {
+			i = i.ShallowClone()
+			if err = i.Reshape(v.Shape()...); err != nil {
+				return err
+			}
+		}
+		_, err = tensor.Add(v, i, tensor.UseUnsafe())
+	}
+	return err
 }
 
 func (op *sliceOp) DiffWRT(i int) []bool {
@@ -580,23 +645,27 @@ func (op *sliceOp) Do(inputs ...Value) (retVal Value, err error) {
 	}
 
 	t := inputs[0]
-	// prep the slices
-	var slices []tensor.Slice
-	slices = make([]tensor.Slice, len(t.Shape()))
-
-	if !op.all() {
-		slices[op.along] = op
-	}
 	switch T := t.(type) {
 	case tensor.Tensor:
+		var s tensor.Shape
+		if s, err = op.InferShape(T.Shape()); err != nil {
+			return nil, err
+		}
 		var v tensor.Tensor
-		if v, err = T.Slice(slices...); err != nil {
-			return nil, errors.Wrapf(err, sliceFail, slices)
+		if v, err = op.slice(T); err != nil {
+			return nil, err
 		}
-		if v.IsScalar() {
+		switch {
+		case s.IsScalar():
 			retVal, _ = anyToScalar(v.ScalarValue())
-		} else {
-			retVal = v.(tensor.View).Materialize()
+		default:
+			v = v.(tensor.View).Materialize()
+			if v.Dims() != s.Dims() {
+				if err = v.Reshape(s...); err != nil {
+					return nil, err
+				}
+			}
+			retVal = v
 		}
 	case Scalar:
 		return nil, errors.New("Cannot slice a scalar value")
@@ -736,26 +805,11 @@ func (op sliceIncrOp) Do(inputs ...Value) (retVal Value, err error) {
 	t := inputs[0]
 	incr := inputs[1]
 
-	// prep the slices
-	slices := make([]tensor.Slice, op.d)
-	if !op.all() {
-		slices[op.along] = op
-	}
-
 	switch T := t.(type) {
 	case *tensor.Dense:
 		grad := tensor.NewDense(T.Dtype(), T.Shape().Clone())
-		var v tensor.Tensor
-		if v, err = grad.Slice(slices...); err != nil {
-			return nil, errors.Wrapf(err, sliceFail, slices)
-		}
-		switch i := incr.(type) {
-		case *F64:
-			tensor.Add(v, i.any(), tensor.UseUnsafe())
-		case *F32:
-			tensor.Add(v, i.any(), tensor.UseUnsafe())
-		case *tensor.Dense:
-			tensor.Add(v, i, tensor.UseUnsafe())
+		if err = op.incr(grad, incr); err != nil {
+			return nil, err
 		}
 		retVal = grad
 	case Scalar:
@@ -776,25 +830,10 @@ func (op sliceIncrOp) UsePreallocDo(prealloc Value, inputs ...Value) (retVal Val
 	}
 	incr := inputs[1]
 
-	// prep the slices
-	slices := make([]tensor.Slice, op.d)
-	if !op.all() {
-		slices[op.along] = op
-	}
-
 	switch T := prealloc.(type) {
 	case *tensor.Dense:
-		var v tensor.Tensor
-		if v, err = T.Slice(slices...); err != nil {
-			return nil, errors.Wrapf(err, sliceFail, slices)
-		}
-		switch i := incr.(type) {
-		case *F64:
-			tensor.Add(v, i.any(), tensor.UseUnsafe())
-		case *F32:
-			tensor.Add(v, i.any(), tensor.UseUnsafe())
-		case *tensor.Dense:
-			tensor.Add(v, i, tensor.UseUnsafe())
+		if err = op.incr(T, incr); err != nil {
+			return nil, err
 		}
 		retVal = T
 	case Scalar:
diff --git a/operations.go b/operations.go
index a437d36..fd0e21b 100644
--- a/operations.go
+++ b/operations.go
@@ -422,17 +422,16 @@ func Slice(n *Node, slices ...tensor.Slice) (retVal *Node, err error) {
 	}
 
 	retVal = n
-	var dimsChanged int
 	for i, s := range slices {
-		var along int
-		if i > 0 {
-			if prev := slices[i-1]; prev != nil {
-				if prev.End()-prev.Start() == 1 {
-					dimsChanged++
-				}
+		dimsChanged := n.shape.Dims() - retVal.shape.Dims()
+		along := i - dimsChanged
+
+		// a slice that selects only one position drops the axis, whatever its end and step
+		if s != nil {
+			if start, end, step, err := tensor.SliceDetails(s, retVal.shape[along]); err == nil && start < end && end-start <= step {
+				s = S(start)
 			}
 		}
-		along = i - dimsChanged
 
 		op := newSliceOp(s, along, retVal.Dims())
 		if retVal, err = ApplyOp(op, retVal); err != nil {
@@ -490,7 +489,7 @@ func Concat(axis int, ns ...*Node) (retVal *Node, err error) {
 		return
 	}
 
-	if axis >= d {
+	if axis < 0 || axis >= d {
 		err = errors.Errorf("Invalid axis. Nodes have %d dimensions. Axis is %d", d, axis)
 		return
 	}
@@ -503,11 +502,11 @@ func Concat(axis int, ns ...*Node) (retVal *Node, err error) {
 // TODO: port this back to Gorgonia and use Gorgonia's sli instead
 func Unconcat(a *Node, along int, n int) (Nodes, error) {
 	aShape := a.Shape()
-	if along < 0 || along > aShape.Dims() {
+	if along < 0 || along >= aShape.Dims() {
 		return nil, errors.Errorf("Unable to Unconcat a of shape %v along axis %d", aShape, along)
 	}
 
-	if aShape[along]%n != 0 {
+	if n < 1 || aShape[along]%n != 0 {
 		return nil, errors.Errorf("Axis %d of %v cannot be nicely split into %d parts", along, aShape, n)
 	}
 
-- 
2.43.0


From f2e062489c3e826452c812ee3a990039d1f36daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:03:22 +0000
Subject: [PATCH 083/115] fix: refuse elements at coordinates that are not
 there

---
 op_tensor.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index 53c8a83..72a5303 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -31,13 +31,25 @@ func (op atOp) Type() hm.Type {
 	return hm.NewFnType(tt, a)
 }
 
-func (op atOp) ReturnsPtr() bool                                        { return false }
-func (op atOp) OverwritesInput() int                                    { return -1 }
-func (op atOp) CallsExtern() bool                                       { return false }
-func (op atOp) InferShape(...DimSizer) (retVal tensor.Shape, err error) { return scalarShape, nil }
-func (op atOp) DiffWRT(i int) []bool                                    { return make([]bool, i) }
-func (op atOp) SymDiff(Nodes, *Node, *Node) (Nodes, error)              { return nil, nondiffErr(op) }
-func (op atOp) String() string                                          { return fmt.Sprintf("At(%v)", op.coordinates) }
+func (op atOp) ReturnsPtr() bool     { return false }
+func (op atOp) OverwritesInput() int { return -1 }
+func (op atOp) CallsExtern() bool    { return false }
+func (op atOp) InferShape(inputs ...DimSizer) (retVal tensor.Shape, err error) {
+	if s, ok := inputs[0].(tensor.Shape); ok {
+		if len(op.coordinates) != s.Dims() {
+			return nil, errors.Errorf("Expected %d coordinates for a shape of %v. Got %v instead", s.Dims(), s, op.coordinates)
+		}
+		for i, c := range op.coordinates {
+			if c < 0 || c >= s[i] {
+				return nil, errors.Errorf("Coordinates %v are not in a shape of %v", op.coordinates, s)
+			}
+		}
+	}
+	return scalarShape, nil
+}
+func (op atOp) DiffWRT(i int) []bool                       { return make([]bool, i) }
+func (op atOp) SymDiff(Nodes, *Node, *Node) (Nodes, error) { return nil, nondiffErr(op) }
+func (op atOp) String() string                             { return fmt.Sprintf("At(%v)", op.coordinates) }
 
 func (op atOp) Do(inputs ...Value) (retVal Value, err error) {
 	if err = checkArity(op, len(inputs)); err != nil {
-- 
2.43.0


From ddb69364d005f0fd1eaecc83f8a9bcfa8f56d1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:03:22 +0000
Subject: [PATCH 084/115] fix: refuse kernels that do not fit the padded image

---
 op_nn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/op_nn.go b/op_nn.go
index 2795eec..159319c 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -192,6 +192,12 @@ func (op im2colOp) InferShape(shapes ...DimSizer) (retVal tensor.Shape, err erro
 	}
 
 	if s, ok := shapes[0].(tensor.Shape); ok {
+		if s.Dims() != 4 {
+			return nil, errors.Errorf("expected an image with 4 dimensions. Got a shape of %v instead", s)
+		}
+		if s[2]+2*op.padH < op.dilationH*(op.h-1)+1 || s[3]+2*op.padW < op.dilationW*(op.w-1)+1 {
+			return nil, errors.Errorf("the kernel does not fit a padded image with shape %v", s)
+		}
 		return op.calcShape(s), nil
 	}
 	return nil, errors.Errorf("expected tensor.Shape. got %T instead", shapes[0])
-- 
2.43.0


From 69776c9b0c8e49c47cb64e98de0013ffd21e5843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:03:22 +0000
Subject: [PATCH 085/115] fix: refuse groups the channels cannot be split into

---
 op_group_norm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/op_group_norm.go b/op_group_norm.go
index 8dc1de3..ae7d1c8 100644
--- a/op_group_norm.go
+++ b/op_group_norm.go
@@ -79,6 +79,9 @@ func (op *GroupNormOp) String() string {
 
 func (op *GroupNormOp) InferShape(inputs ...DimSizer) (tensor.Shape, error) {
 	s := inputs[0].(tensor.Shape).Clone()
+	if s.Dims() < 2 || op.numGroups < 1 || s[1]%op.numGroups != 0 {
+		return nil, fmt.Errorf("cannot split the channels of an input with shape %v into %d groups", s, op.numGroups)
+	}
 
 	return s, nil
 }
-- 
2.43.0


From f6543e5262bbe8d6e07f92286a8ddc543dcf164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:06:59 +0000
Subject: [PATCH 086/115] fix: select by indices along any axis, and send
 gradients back to where they were selected

---
 op_by_indices.go | 90 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 87 insertions(+), 3 deletions(-)

diff --git a/op_by_indices.go b/op_by_indices.go
index 7db319f..9100d31 100644
--- a/op_by_indices.go
+++ b/op_by_indices.go
@@ -51,6 +51,9 @@ func (op *byIndicesOp) InferShape(inputs ...DimSizer) (tensor.Shape, error) {
 	if !i.IsVectorLike() {
 		return nil, errors.Errorf("Expected indices to be a vector-like. Got %v instead", i)
 	}
+	if op.axis >= s.Dims() {
+		return nil, errors.Errorf("Cannot select by indices on axis %d. Input has a shape of %v", op.axis, s)
+	}
 
 	s[op.axis] = i.TotalSize()
 
@@ -83,6 +86,10 @@ func (op *byIndicesOp) checkInput(inputs ...Value) (x, indices tensor.Tensor, er
 		return nil, nil, errors.Errorf("Expected indices to have tensor.Int as a Dtype. Got %T instead", indices.Dtype())
 	}
 
+	if op.axis >= x.Dims() {
+		return nil, nil, errors.Errorf("Cannot select by indices on axis %d. Input has a shape of %v", op.axis, x.Shape())
+	}
+
 	return x, indices, nil
 }
 
@@ -92,7 +99,67 @@ func (op *byIndicesOp) Do(inputs ...Value) (Value, error) {
 		return nil, fmt.Errorf("Can't check ByIndicesOp input: %w", err)
 	}
 
-	return tensor.ByIndices(inputTensor, indices, op.axis)
+	x, ok := inputTensor.(*tensor.Dense)
+	if !ok {
+		return tensor.ByIndices(inputTensor, indices, op.axis)
+	}
+	rows, err := op.rows(x)
+	if err != nil {
+		return nil, err
+	}
+	rowIndices, err := op.rowIndices(x.Shape(), indices)
+	if err != nil {
+		return nil, err
+	}
+	shape, err := op.InferShape(x.Shape(), indices.Shape())
+	if err != nil {
+		return nil, err
+	}
+
+	var retVal tensor.Tensor
+	if rows.Shape().TotalSize() == 1 {
+		retVal, err = tensor.Repeat(rows, 0, rowIndices.Shape()[0])
+	} else {
+		retVal, err = tensor.ByIndices(rows, rowIndices, 0)
+	}
+	if err != nil {
+		return nil, err
+	}
+	return retVal, retVal.Reshape(shape...)
+}
+
+// rows views t as a matrix with one row for each position up to the axis. Package tensor selects by indices along
+// other axes only for some shapes.
+func (op *byIndicesOp) rows(t *tensor.Dense) (*tensor.Dense, error) {
+	s := t.Shape()
+	retVal := t.Materialize().(*tensor.Dense).ShallowClone()
+	if err := retVal.Reshape(s[:op.axis+1].TotalSize(), s[op.axis+1:].TotalSize()); err != nil {
+		return nil, err
+	}
+	return retVal, nil
+}
+
+// rowIndices are the indices of the rows of a tensor of the shape that are selected.
+func (op *byIndicesOp) rowIndices(s tensor.Shape, indices tensor.Tensor) (*tensor.Dense, error) {
+	ixs, ok := indices.Data().([]int)
+	if !ok {
+		return nil, errors.Errorf("Expected indices to be ints. Got %T instead", indices.Data())
+	}
+	size := s[op.axis]
+	outer := s[:op.axis].TotalSize()
+	retVal := make([]int, 0, outer*len(ixs))
+	for o := 0; o < outer; o++ {
+		for _, ix := range ixs {
+			if ix < 0 {
+				return nil, errors.Errorf("Index %d is not on axis %d of a shape of %v", ix, op.axis, s)
+			}
+			if ix >= size {
+				ix = 0
+			}
+			retVal = append(retVal, o*size+ix)
+		}
+	}
+	return tensor.New(tensor.WithShape(len(retVal)), tensor.WithBacking(retVal)), nil
 }
 
 // DoDiff calculates the diff and sets its value to the output node. Implementation for ADOp interface.
@@ -229,12 +296,29 @@ func (op *byIndicesOpDiffOp) Do(inputs ...Value) (Value, error) {
 		return nil, fmt.Errorf("Can't check ByIndicesOpDiff input: %w", err)
 	}
 
-	output, err := tensor.ByIndicesB(inputTensor, gradTensor, indices, op.axis)
+	rows, err := op.rows(inputTensor)
+	if err != nil {
+		return nil, err
+	}
+	gradRows, err := op.rows(gradTensor)
+	if err != nil {
+		return nil, err
+	}
+	rowIndices, err := op.rowIndices(inputTensor.Shape(), indices)
 	if err != nil {
 		return nil, err
 	}
 
-	return output, nil
+	var output tensor.Tensor
+	if rows.Shape().TotalSize() == 1 {
+		output, err = gradRows.Sum(0)
+	} else {
+		output, err = tensor.ByIndicesB(rows, gradRows, rowIndices, 0)
+	}
+	if err != nil {
+		return nil, err
+	}
+	return output, output.Reshape(inputTensor.Shape().Clone()...)
 }
 
 // ensure it complies with the Op interface
-- 
2.43.0


From c0508494e635b4c9dc99c39cdf573ac59e65962b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:14 +0000
Subject: [PATCH 087/115] fix: let the concurrent machine run a graph without
 nodes

---
 x/vm/machine.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/x/vm/machine.go b/x/vm/machine.go
index 4fffe03..5ec8101 100644
--- a/x/vm/machine.go
+++ b/x/vm/machine.go
@@ -159,16 +159,13 @@ func (m *Machine) runAllNodes(ctx context.Context) error {
 		}(m.nodes[i])
 	}
 	errs := make([]nodeError, 0)
-	for e := range errC {
-		total--
+	for ; total > 0; total-- {
+		e := <-errC
 		if e.err != nil {
 			errs = append(errs, e)
 			// failfast, on error, cancel
 			cancel()
 		}
-		if total == 0 {
-			break
-		}
 	}
 	cancel()
 	close(errC)
-- 
2.43.0


From 1b910ef3538436bbad88d5097d1c29382fd36181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:33 +0000
Subject: [PATCH 088/115] fix: give variadic operations their inputs in the
 concurrent machine

---
 x/vm/node.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x/vm/node.go b/x/vm/node.go
index 7d6f577..6667130 100644
--- a/x/vm/node.go
+++ b/x/vm/node.go
@@ -111,10 +111,15 @@ func newOp(n *gorgonia.Node, hasOutputChan bool) *node {
 		outputC = make(chan gorgonia.Value, 0)
 
 	}
+	arity := n.Op().Arity()
+	if arity < 0 {
+		// variadic operations take as many inputs as the node has children
+		arity = n.Graph().From(n.ID()).Len()
+	}
 	return &node{
 		id:          n.ID(),
 		op:          n.Op(),
-		inputValues: make([]gorgonia.Value, n.Op().Arity()),
+		inputValues: make([]gorgonia.Value, arity),
 		inputC:      make(chan ioValue, 0),
 		outputC:     outputC,
 	}
-- 
2.43.0


From 52708f9ef34a7bb2edf585b4a7070f049d9c3b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:33 +0000
Subject: [PATCH 089/115] fix: execute operations without inputs in the
 concurrent machine

---
 x/vm/machine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/vm/machine.go b/x/vm/machine.go
index 5ec8101..c1eeb34 100644
--- a/x/vm/machine.go
+++ b/x/vm/machine.go
@@ -30,6 +30,10 @@ func NewMachine(g *gorgonia.ExprGraph) *Machine {
 		switch {
 		case op == nil:
 			nn = newInput(n)
+		case op.Arity() == 0 && n.Value() == nil && g.From(n.ID()).Len() == 0:
+			// nothing to wait for, but there is no value before the operation has been executed
+			nn = newInput(n)
+			nn.op = op
 		case op.Arity() == 0:
 			nn = newInput(n)
 		default:
-- 
2.43.0


From 400f71508f806c61b576477bb641be03824cb25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:34 +0000
Subject: [PATCH 090/115] fix: report inputs without values in the concurrent
 machine

---
 x/vm/machine.go | 1 +
 x/vm/node.go    | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/x/vm/machine.go b/x/vm/machine.go
index c1eeb34..e621d55 100644
--- a/x/vm/machine.go
+++ b/x/vm/machine.go
@@ -30,6 +30,7 @@ func NewMachine(g *gorgonia.ExprGraph) *Machine {
 		switch {
 		case op == nil:
 			nn = newInput(n)
+			nn.needsValue = true
 		case op.Arity() == 0 && n.Value() == nil && g.From(n.ID()).Len() == 0:
 			// nothing to wait for, but there is no value before the operation has been executed
 			nn = newInput(n)
diff --git a/x/vm/node.go b/x/vm/node.go
index 6667130..0965bd9 100644
--- a/x/vm/node.go
+++ b/x/vm/node.go
@@ -17,6 +17,7 @@ type node struct {
 	op             Doer
 	output         gorgonia.Value
 	outputC        chan gorgonia.Value
+	needsValue     bool // an input, which cannot be used without a value
 	receivedValues int
 	err            error
 	inputValues    []gorgonia.Value
@@ -37,6 +38,10 @@ func defaultState(_ context.Context, n *node) stateFn {
 	n.receivedValues = 0
 	n.err = nil
 	if n.op == nil {
+		if n.needsValue && n.output == nil {
+			n.err = errors.New("input has no value")
+			return nil
+		}
 		return emitOutput
 	}
 	return receiveInput
-- 
2.43.0


From bd50e8f48dc43f581b040a8bb4d96726627baf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:34:09 +0000
Subject: [PATCH 091/115] fix: negate the CTC loss of an empty target

---
 op_ctc_loss.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op_ctc_loss.go b/op_ctc_loss.go
index 65aa4ec..e417af5 100644
--- a/op_ctc_loss.go
+++ b/op_ctc_loss.go
@@ -259,7 +259,7 @@ func (op *ctcLossOp) f64s(logProbsT, prealloc, targetsT, inputLengthsT, targetLe
 		}
 
 		if targetLength == 0 {
-			negLogLikelihoodA[b] = logAlphaSection[(inputLength-1)*targetWidth]
+			negLogLikelihoodA[b] = -logAlphaSection[(inputLength-1)*targetWidth]
 		} else {
 			l1 := logAlphaSection[(inputLength-1)*targetWidth+targetLength*2]
 			l2 := logAlphaSection[(inputLength-1)*targetWidth+targetLength*2-1]
@@ -435,7 +435,7 @@ func (op *ctcLossOp) f32s(logProbsT, prealloc, targetsT, inputLengthsT, targetLe
 		}
 
 		if targetLength == 0 {
-			negLogLikelihoodA[b] = logAlphaSection[(inputLength-1)*targetWidth]
+			negLogLikelihoodA[b] = -logAlphaSection[(inputLength-1)*targetWidth]
 		} else {
 			l1 := logAlphaSection[(inputLength-1)*targetWidth+targetLength*2]
 			l2 := logAlphaSection[(inputLength-1)*targetWidth+targetLength*2-1]
-- 
2.43.0


From 3b78cd2c1d0f2ab1e9808fa3f54506d51b8638ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:36:49 +0000
Subject: [PATCH 092/115] fix: give the CTC loss as a scalar value so that it
 can be used further

---
 op_ctc_loss.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/op_ctc_loss.go b/op_ctc_loss.go
index e417af5..03abcf2 100644
--- a/op_ctc_loss.go
+++ b/op_ctc_loss.go
@@ -112,18 +112,26 @@ func (op *ctcLossOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, erro
 		return nil, fmt.Errorf("invalid type %v for inputLengths. it should be Int", targetLengthsT.Dtype())
 	}
 
-	var err error
+	loss := tensor.New(
+		tensor.Of(logProbsT.Dtype()),
+		tensor.WithShape(),
+	)
 
+	// the result is a scalar, as with any other operation of that type
 	switch logProbsT.Dtype() {
 	case Float64:
-		err = op.f64s(logProbsT, prealloc.(*tensor.Dense), targetsT, inputLengthsT, targetLengthsT)
+		if err := op.f64s(logProbsT, loss, targetsT, inputLengthsT, targetLengthsT); err != nil {
+			return nil, err
+		}
+		return NewF64(loss.Get(0).(float64)), nil
 	case Float32:
-		err = op.f32s(logProbsT, prealloc.(*tensor.Dense), targetsT, inputLengthsT, targetLengthsT)
+		if err := op.f32s(logProbsT, loss, targetsT, inputLengthsT, targetLengthsT); err != nil {
+			return nil, err
+		}
+		return NewF32(loss.Get(0).(float32)), nil
 	default:
 		return nil, nyi("CTCLoss Do", logProbsT.Dtype())
 	}
-
-	return prealloc, err
 }
 
 func (op *ctcLossOp) f64s(logProbsT, prealloc, targetsT, inputLengthsT, targetLengthsT *tensor.Dense) error {
@@ -479,14 +487,7 @@ func (op *ctcLossOp) f32s(logProbsT, prealloc, targetsT, inputLengthsT, targetLe
 }
 
 func (op *ctcLossOp) Do(inputs ...Value) (retVal Value, err error) {
-	logProbsT := inputs[0].(*tensor.Dense)
-
-	prealloc := tensor.New(
-		tensor.Of(logProbsT.Dtype()),
-		tensor.WithShape(),
-	)
-
-	return op.UsePreallocDo(prealloc, inputs...)
+	return op.UsePreallocDo(nil, inputs...)
 }
 
 // SymDiff applies the diff op. Implementation for SDOp interface.
-- 
2.43.0


From 9b6003b21297d8e6eb3e79bdcdd8aa611dd135a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:36:57 +0000
Subject: [PATCH 093/115] fix: zero the CTC gradient after the end of a
 sequence

---
 op_ctc_loss.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/op_ctc_loss.go b/op_ctc_loss.go
index 03abcf2..07d5643 100644
--- a/op_ctc_loss.go
+++ b/op_ctc_loss.go
@@ -739,6 +739,13 @@ func (op *ctcLossDiffOp) f64s(logProbsT, targetsT, inputLengthsT, targetLengthsT
 				}
 			}
 		}
+
+		// the loss does not depend on what follows the end of the sequence
+		for t := inputLength; t < inputSize; t++ {
+			for c := 0; c < numLabels; c++ {
+				gradSlice.SetAt(float64(0), t, c)
+			}
+		}
 	})
 
 	gradT.UT()
@@ -908,6 +915,13 @@ func (op *ctcLossDiffOp) f32s(logProbsT, targetsT, inputLengthsT, targetLengthsT
 				}
 			}
 		}
+
+		// the loss does not depend on what follows the end of the sequence
+		for t := inputLength; t < inputSize; t++ {
+			for c := 0; c < numLabels; c++ {
+				gradSlice.SetAt(float32(0), t, c)
+			}
+		}
 	})
 
 	gradT.UT()
-- 
2.43.0


From 9add1779d4846f97562e57b26f760419fbd26a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:41:51 +0000
Subject: [PATCH 094/115] fix: use the anchors chosen by the masks in YOLO

---
 op_yolo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op_yolo.go b/op_yolo.go
index 6e2db68..235a994 100644
--- a/op_yolo.go
+++ b/op_yolo.go
@@ -164,7 +164,7 @@ func (op *yoloOp) Do(inputs ...Value) (retVal Value, err error) {
 			if op.masks[i] >= numAnchors {
 				return nil, fmt.Errorf("Incorrect mask %v for anchors in YOLO layer", op.masks)
 			}
-			currentAnchors = append(currentAnchors, op.anchors[i*2], op.anchors[i*2+1])
+			currentAnchors = append(currentAnchors, op.anchors[op.masks[i]*2], op.anchors[op.masks[i]*2+1])
 		}
 		return op.evaluateYOLO_f32(inputTensor, batchSize, stride, gridSize, bboxAttributes, len(op.masks), currentAnchors)
 	}
@@ -193,7 +193,7 @@ func (op *yoloOp) Do(inputs ...Value) (retVal Value, err error) {
 		if op.masks[i] >= (len(op.anchors) / 2) {
 			return nil, fmt.Errorf("Incorrect mask %v for anchors in YOLO layer [Training mode]", op.masks)
 		}
-		currentAnchors = append(currentAnchors, op.anchors[i*2], op.anchors[i*2+1])
+		currentAnchors = append(currentAnchors, op.anchors[op.masks[i]*2], op.anchors[op.masks[i]*2+1])
 	}
 
 	targets := []float32{}
-- 
2.43.0


From 64c171dd070d87bea5bd95cee78750629b3d990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:41:51 +0000
Subject: [PATCH 095/115] fix: leave the input of YOLO as it was

---
 op_yolo.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/op_yolo.go b/op_yolo.go
index 235a994..d815079 100644
--- a/op_yolo.go
+++ b/op_yolo.go
@@ -166,6 +166,8 @@ func (op *yoloOp) Do(inputs ...Value) (retVal Value, err error) {
 			}
 			currentAnchors = append(currentAnchors, op.anchors[op.masks[i]*2], op.anchors[op.masks[i]*2+1])
 		}
+		// the evaluation reshapes and overwrites what it is given
+		inputTensor = inputTensor.Clone().(tensor.Tensor)
 		return op.evaluateYOLO_f32(inputTensor, batchSize, stride, gridSize, bboxAttributes, len(op.masks), currentAnchors)
 	}
 
-- 
2.43.0


From 365c4781ed118a1dabea822e6f5123a70652bbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:42:25 +0000
Subject: [PATCH 096/115] fix: evaluate YOLO on batches of more than one image

---
 op_yolo.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/op_yolo.go b/op_yolo.go
index d815079..3637b70 100644
--- a/op_yolo.go
+++ b/op_yolo.go
@@ -357,11 +357,11 @@ func (op *yoloOp) evaluateYOLO_f32(input tensor.Tensor, batchSize, stride, grid,
 	}
 
 	anchors := []float32{}
-	for i := 0; i < grid*grid; i++ {
+	for i := 0; i < batchSize*grid*grid; i++ {
 		anchors = append(anchors, currentAnchors...)
 	}
 
-	anchorsTensor := tensor.New(tensor.Of(inputNumericType), tensor.WithShape(1, grid*grid*numAnchors, 2))
+	anchorsTensor := tensor.New(tensor.Of(inputNumericType), tensor.WithShape(batchSize, grid*grid*numAnchors, 2))
 	for i := range anchors {
 		anchorsTensor.Set(i, anchors[i])
 	}
@@ -572,11 +572,11 @@ func (op *yoloOp) evaluateYOLO_f64(input tensor.Tensor, batchSize, stride, grid,
 	}
 
 	anchors := []float64{}
-	for i := 0; i < grid*grid; i++ {
+	for i := 0; i < batchSize*grid*grid; i++ {
 		anchors = append(anchors, currentAnchors...)
 	}
 
-	anchorsTensor := tensor.New(tensor.Of(inputNumericType), tensor.WithShape(1, grid*grid*numAnchors, 2))
+	anchorsTensor := tensor.New(tensor.Of(inputNumericType), tensor.WithShape(batchSize, grid*grid*numAnchors, 2))
 	for i := range anchors {
 		anchorsTensor.Set(i, anchors[i])
 	}
-- 
2.43.0


From a1410a13462c66f160455fecd8c03fd0c325c471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:06:43 +0000
Subject: [PATCH 097/115] fix: LogSumExp adds the maximum after taking the
 logarithm, along any axis

---
 operations.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/operations.go b/operations.go
index fd0e21b..a1f579a 100644
--- a/operations.go
+++ b/operations.go
@@ -170,13 +170,21 @@ func LogSumExp(a *Node, axis int) (retVal *Node, err error) {
 	if max, err = Max(a, axis); err != nil {
 		return nil, errors.Wrap(err, operationError)
 	}
-	if retVal, err = Sub(a, max); err == nil {
+	if max.IsScalar() {
+		retVal, err = Sub(a, max)
+	} else {
+		kept := a.Shape().Clone()
+		kept[axis] = 1
+		var lifted *Node
+		if lifted, err = Reshape(max, kept); err == nil {
+			retVal, err = BroadcastSub(a, lifted, nil, []byte{byte(axis)})
+		}
+	}
+	if err == nil {
 		if exp, err = Exp(retVal); err == nil {
 			if sum, err = Sum(exp, axis); err == nil {
-				if sum, err = Add(sum, max); err == nil {
-					if logSum, err = Log(sum); err == nil {
-						return Sum(logSum, axis)
-					}
+				if logSum, err = Log(sum); err == nil {
+					return Add(logSum, max)
 				}
 			}
 		}
-- 
2.43.0


From a93526c7d21ee343e946e945d07effc43c11954d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:06:44 +0000
Subject: [PATCH 098/115] fix: norms of odd order are of the absolute values

---
 operations.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/operations.go b/operations.go
index a1f579a..647bf3c 100644
--- a/operations.go
+++ b/operations.go
@@ -317,6 +317,12 @@ func Norm(a *Node, axis, p int) (retVal *Node, err error) {
 		return nil, errors.New("Cannot norm a non-floating point type")
 	}
 
+	if p%2 != 0 {
+		if a, err = Abs(a); err != nil {
+			return nil, errors.Wrap(err, operationError)
+		}
+	}
+
 	if retVal, err = Pow(a, b); err == nil {
 		if retVal, err = Sum(retVal, axis); err == nil {
 			if retVal, err = Pow(retVal, inv); err != nil {
-- 
2.43.0


From 040c0dc20522f43a085adb613c51a2386d9c6738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:20:42 +0000
Subject: [PATCH 099/115] fix: contractions over axes of one element and of
 operands of higher rank, and their gradients

The contraction of the tensor library took operands with an axis of one element for vectors and failed,
mixed up the axes of operands with four of them, and cannot contract over no axes, which gradients need.
---
 op_math.go | 177 +++++++++++++++++++++--------------------------------
 1 file changed, 69 insertions(+), 108 deletions(-)

diff --git a/op_math.go b/op_math.go
index 552d5a3..33447d6 100644
--- a/op_math.go
+++ b/op_math.go
@@ -918,7 +918,59 @@ func (op tensordotOp) Do(vals ...Value) (Value, error) {
 		return nil, errors.Wrap(err, "tensordot - valuesToTensors failed")
 	}
 
-	return tensor.Contract(ts[0], ts[1], op.aAxes, op.bAxes)
+	return contract(ts[0], ts[1], op.aAxes, op.bAxes)
+}
+
+// contract contracts a and b along the given axes, of which there may be none. It is a product of matrices, whatever
+// the extents of the axes are. If nothing is left the result is a vector of one element.
+func contract(a, b tensor.Tensor, aAxes, bAxes []int) (retVal tensor.Tensor, err error) {
+	var shape, aPattern, bPattern []int
+	k := 1
+	for i, axis := range aAxes {
+		if a.Shape()[axis] != b.Shape()[bAxes[i]] {
+			return nil, errors.Errorf("Cannot contract axes %v of shape %v with axes %v of shape %v", aAxes, a.Shape(), bAxes, b.Shape())
+		}
+		k *= a.Shape()[axis]
+	}
+	for axis, size := range a.Shape() {
+		if 0 > contains(aAxes, axis) {
+			aPattern = append(aPattern, axis)
+			shape = append(shape, size)
+		}
+	}
+	aPattern = append(aPattern, aAxes...)
+	bPattern = append(bPattern, bAxes...)
+	for axis, size := range b.Shape() {
+		if 0 > contains(bAxes, axis) {
+			bPattern = append(bPattern, axis)
+			shape = append(shape, size)
+		}
+	}
+	if len(shape) == 0 {
+		shape = append(shape, 1)
+	}
+
+	matrix := func(t tensor.Tensor, pattern []int, rows, cols int) (tensor.Tensor, error) {
+		t = contiguous(t).Clone().(tensor.Tensor)
+		if err := t.T(pattern...); err != nil {
+			return nil, err
+		}
+		if err := t.Transpose(); err != nil {
+			return nil, err
+		}
+		return t, t.Reshape(rows, cols)
+	}
+	var x, y tensor.Tensor
+	if x, err = matrix(a, aPattern, a.Shape().TotalSize()/k, k); err != nil {
+		return nil, err
+	}
+	if y, err = matrix(b, bPattern, k, b.Shape().TotalSize()/k); err != nil {
+		return nil, err
+	}
+	if retVal, err = tensor.MatMul(x, y); err != nil {
+		return nil, err
+	}
+	return retVal, retVal.Reshape(shape...)
 }
 
 func (op tensordotOp) ReturnsPtr() bool { return true }
@@ -943,6 +995,7 @@ func (op tensordotOp) String() string {
 func (op tensordotOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) error {
 	odv := output.boundTo.(*dualValue)
 	odvd := odv.d.(tensor.Tensor)
+	whole := len(op.aAxes) >= inputs[0].Dims() && len(op.bAxes) >= inputs[1].Dims() // nothing is left
 
 	for inNr, in := range inputs {
 		// abuse of language below: "i" up front will refer to current "in"
@@ -1003,20 +1056,11 @@ func (op tensordotOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) e
 
 		// Which axes of the other tensor and the output should be contracted?
 		// Other tensor: All axes that weren't contracted (with i ;-) ) in the original tensordot
-		// With the exception of scalars
-		dOtherAxes := make([]int, otherdvv.Dims())
-
-		if !otherdvv.Shape().IsScalarEquiv() {
-			var dOtherAxesIndex int
-
-			for axis := 0; axis < otherdvv.Dims(); axis++ {
-				if 0 > contains(otherAxes, axis) {
-					dOtherAxes[dOtherAxesIndex] = axis
-					dOtherAxesIndex++
-				}
+		dOtherAxes := make([]int, 0, otherdvv.Dims())
+		for axis := 0; axis < otherdvv.Dims(); axis++ {
+			if 0 > contains(otherAxes, axis) {
+				dOtherAxes = append(dOtherAxes, axis)
 			}
-
-			dOtherAxes = dOtherAxes[0:dOtherAxesIndex]
 		}
 
 		// Output: All axes which belong to other in the output of original tensordot, so this depends on input ordering
@@ -1043,53 +1087,13 @@ func (op tensordotOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) e
 			var err error
 
 			switch {
-			case odvdDense.Shape().IsScalarEquiv():
+			case whole && odvdDense.Shape().IsScalarEquiv():
 				tensordot, err = otherdvvDense.MulScalar(odvdDense, true)
-			case otherdvvDense.IsVector() && odvdDense.IsVector() && 0 == len(dOtherAxes): // TensorMul does not support creating matrix from two vectors
-				// Reformat vectors, so that MatMul will create a matrix from them
-				var otherdvvDenseShapeOld tensor.Shape
-				var odvdDenseShapeOld tensor.Shape
-
-				otherdvvDenseReshaped := false
-				if !otherdvvDense.IsColVec() {
-					otherdvvDenseShapeOld = otherdvvDense.Shape().Clone()
-
-					otherdvvVecDims, err := (otherdvvDense.AP.Shape()).DimSize(0)
-					if err != nil {
-						return err
-					}
-
-					otherdvvDenseReshaped = true
-					otherdvvDense.Reshape(otherdvvVecDims, 1)
-				}
-
-				odvdDenseReshaped := false
-				if !odvdDense.IsRowVec() {
-					odvdDenseShapeOld = odvdDense.Shape().Clone()
-					odvdDenseVecDims, err := (odvdDense.AP.Shape()).DimSize(0)
-
-					if err != nil {
-						return err
-					}
-
-					odvdDenseReshaped = true
-					odvdDense.Reshape(1, odvdDenseVecDims)
-				}
-
-				tensordot, err = otherdvvDense.MatMul(odvdDense)
-
-				// Undo Reshape
-				if otherdvvDenseReshaped {
-					otherdvvDense.Reshape(otherdvvDenseShapeOld...)
-				}
-
-				if odvdDenseReshaped {
-					odvdDense.Reshape(odvdDenseShapeOld...)
-				}
-
 			default:
-				tensordot, err = otherdvvDense.TensorMul(odvdDense, dOtherAxes, dOutputAxes)
-
+				var t tensor.Tensor
+				if t, err = contract(otherdvvDense, odvdDense, dOtherAxes, dOutputAxes); err == nil {
+					tensordot = t.(*tensor.Dense)
+				}
 			}
 
 			if err != nil {
@@ -1127,6 +1131,7 @@ func (op tensordotOp) SymDiff(inputs Nodes, output *Node, grad *Node) (retVal No
 	}
 
 	retVal = make(Nodes, len(inputs))
+	whole := len(op.aAxes) >= inputs[0].Dims() && len(op.bAxes) >= inputs[1].Dims() // nothing is left
 
 	for inNr, in := range inputs {
 		// abuse of language below: "i" up front will refer to current "in"
@@ -1179,18 +1184,11 @@ func (op tensordotOp) SymDiff(inputs Nodes, output *Node, grad *Node) (retVal No
 
 		// Which axes of the other tensor and the output should be contracted?
 		// Other tensor: All axes that weren't contracted (with i ;-) ) in the original tensordot
-		// With the exception of scalars
-		dOtherAxes := make([]int, other.Dims())
-		if !other.Shape().IsScalarEquiv() {
-			var dOtherAxesIndex int
-
-			for axis := 0; axis < other.Dims(); axis++ {
-				if 0 > contains(otherAxes, axis) {
-					dOtherAxes[dOtherAxesIndex] = axis
-					dOtherAxesIndex++
-				}
+		dOtherAxes := make([]int, 0, other.Dims())
+		for axis := 0; axis < other.Dims(); axis++ {
+			if 0 > contains(otherAxes, axis) {
+				dOtherAxes = append(dOtherAxes, axis)
 			}
-			dOtherAxes = dOtherAxes[0:dOtherAxesIndex]
 		}
 
 		// Grad: All axes which belong to other in the output of original tensordot, so this depends on input ordering
@@ -1210,7 +1208,7 @@ func (op tensordotOp) SymDiff(inputs Nodes, output *Node, grad *Node) (retVal No
 		// perform tensordot
 		var tensordot *Node
 		switch {
-		case grad.Shape().IsScalarEquiv():
+		case whole && grad.Shape().IsScalarEquiv():
 			if tensordot, err = HadamardProd(other, grad); err != nil {
 				err = SymDiffError{
 					nodes:  inputs,
@@ -1221,43 +1219,6 @@ func (op tensordotOp) SymDiff(inputs Nodes, output *Node, grad *Node) (retVal No
 				return nil, err
 			}
 
-		case other.Shape().IsVector() && grad.Shape().IsVector() && 0 == len(dOtherAxes): // TensorMul does not support creating matrix from two vectors
-			// Reformat vectors, so that MatMul will create a matrix from them
-			otherCorrectShape := other
-			if !other.IsColVec() {
-				otherVecDims, err := (other.Shape()).DimSize(0)
-				if err != nil {
-					err = SymDiffError{
-						nodes:  inputs,
-						single: other,
-						err:    errors.Wrap(err, "While getting .DimSize(0) of other, while SymDiff-ing. Nodes() returns the inputs, Node() returns `other`. There is no Grad or Grad map."),
-					}
-					return nil, err
-				}
-
-				if otherCorrectShape, err = Reshape(other, tensor.Shape{otherVecDims, 1}); err != nil {
-					return nil, err
-				}
-			}
-
-			gradCorrectShape := grad
-			if !grad.IsRowVec() {
-				gradVecDims, err := (grad.Shape()).DimSize(0)
-
-				if err != nil {
-					return nil, err
-				}
-
-				if gradCorrectShape, err = Reshape(grad, tensor.Shape{1, gradVecDims}); err != nil {
-					return nil, err
-				}
-			}
-
-			op := linAlgBinOp{āBinaryOperator: matMulOperator}
-			if tensordot, err = binOpNode(op, otherCorrectShape, gradCorrectShape); err != nil {
-				return nil, err
-			}
-
 		default:
 			tensordot, err = Tensordot(dOtherAxes, dGradAxes, other, grad)
 		}
-- 
2.43.0


From 2fa282661cb821cccacd79ba1b63f5ea2ee0c9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:47:44 +0000
Subject: [PATCH 100/115] fix: adding or subtracting a scalar does not give
 away the gradient of the result

The gradient of a sum of a scalar and a tensor was returned to the pool while
the result still held it, so that the second run of a lisp machine crashed.
---
 op_math.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/op_math.go b/op_math.go
index 33447d6..aa8c0fb 100644
--- a/op_math.go
+++ b/op_math.go
@@ -276,7 +276,10 @@ func (op elemBinOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 		indv := in.boundTo.(*dualValue)
 		if _, ok := indv.d.(Scalar); in.IsScalar() && !ok {
 			indvdT := indv.d.(tensor.Tensor)
-			defer returnTensor(indvdT)
+			// the gradient of the output may have been handed over as is
+			if Value(indvdT) != output.boundTo.(*dualValue).d {
+				defer returnTensor(indvdT)
+			}
 
 			var d Value
 			var t tensor.Tensor
-- 
2.43.0


From 663eec3c82023d7267a9e4428cf7f2fbb0d91420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:47:44 +0000
Subject: [PATCH 101/115] fix: dropout that drops nothing copies its input

The result was the input itself, and an operation working in place on the
result changed the input.
---
 op_dropout.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op_dropout.go b/op_dropout.go
index ce3451f..ecd6c68 100644
--- a/op_dropout.go
+++ b/op_dropout.go
@@ -78,7 +78,7 @@ func (op *dropoutOp) Do(inputs ...Value) (retVal Value, err error) {
 	}
 
 	if op.probability == 0.0 || !op.isTraining {
-		return inputTensor, nil
+		return CloneValue(inputTensor)
 	}
 
 	ret := tensor.New(tensor.WithShape(inputTensor.Shape().Clone()...), tensor.Of(inputTensor.Dtype()))
@@ -95,7 +95,7 @@ func (op *dropoutOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, erro
 	}
 
 	if op.probability == 0.0 || !op.isTraining {
-		return inputTensor, nil
+		return Copy(prealloc, inputTensor)
 	}
 
 	op.do(inputTensor.Data(), prealloc.Data())
-- 
2.43.0


From 4b53ce9d4fddc27793ea45bcfeeea25ba7ae4197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:50:19 +0000
Subject: [PATCH 102/115] fix: unbinding a node does not return its value to
 the pool

Nodes computed in place share a value, which was returned once for each of
them, so that the pool handed the same tensor out twice later.
---
 node.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/node.go b/node.go
index c27e788..204d0aa 100644
--- a/node.go
+++ b/node.go
@@ -724,17 +724,7 @@ func (n *Node) bindCopy(v Value) (err error) {
 
 // unbind releases the values back to the pool
 func (n *Node) unbind() {
-	if n.boundTo == nil {
-		return
-	}
-
-	if dv, ok := n.boundTo.(*dualValue); ok {
-		returnDV(dv)
-	}
-
-	if t, ok := n.boundTo.(tensor.Tensor); ok {
-		returnTensor(t)
-	}
+	// the value is not returned to the pool: other nodes, a machine or the caller may hold it too
 	n.boundTo = nil
 }
 
-- 
2.43.0


From 93679d8371327c2fc38ecaf72ca1b92fbbbf4fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:51:35 +0000
Subject: [PATCH 103/115] fix: building a node again does not clear the shapes
 others hold

The shape of the superfluous node was returned to the pool and zeroed, though
it was the shape of the bound value, or of the node that was kept when options
are used again.
---
 node.go | 2 +-
 perf.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index 204d0aa..7fee194 100644
--- a/node.go
+++ b/node.go
@@ -158,7 +158,7 @@ func WithValue(any interface{}) NodeConsOpt {
 
 		n.bind(v)
 		if n.shape == nil {
-			n.shape = v.Shape()
+			n.shape = v.Shape().Clone()
 		}
 	}
 	return f
diff --git a/perf.go b/perf.go
index e7f09a8..8705f4d 100644
--- a/perf.go
+++ b/perf.go
@@ -20,8 +20,8 @@ func returnNode(n *Node) {
 	}
 
 	// zero out any data in the node
+	// (the shape is not returned to its pool: a value, an option or another node may hold it too)
 	ReturnType(n.t)
-	tensor.ReturnInts(n.shape)
 
 	n.t = nil
 	n.shape = nil
-- 
2.43.0


From 5705675d9e7a0aecb20140bed19202d84feec9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:12:45 +0000
Subject: [PATCH 104/115] fix: views bound to a node are laid out in order

Many operations read the data of their operands directly.
Binding a strided view or a lazily transposed tensor gave them the wrong elements.
---
 equalities.go        | 9 +++++++++
 gorgonia.go          | 2 +-
 values_primitives.go | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/equalities.go b/equalities.go
index 2664a28..98bb174 100644
--- a/equalities.go
+++ b/equalities.go
@@ -86,6 +86,15 @@ func scalarClose(a, b Scalar) bool {
 	}
 }
 
+// compact returns v, or a copy of it if it is a view whose elements are not next to each other and in order.
+// Many of the operations read the data of their operands directly.
+func compact(v Value) Value {
+	if t, ok := v.(*tensor.Dense); ok && t.IsNativelyAccessible() && t.IsMaterializable() && t.RequiresIterator() && !t.IsMasked() {
+		return t.Materialize().(*tensor.Dense)
+	}
+	return v
+}
+
 // contiguous returns a tensor whose data are exactly its elements in order. A view is materialized.
 func contiguous(t tensor.Tensor) tensor.Tensor {
 	if v, ok := t.(tensor.View); ok && v.IsMaterializable() {
diff --git a/gorgonia.go b/gorgonia.go
index 8a87cf6..0446dd9 100644
--- a/gorgonia.go
+++ b/gorgonia.go
@@ -297,7 +297,7 @@ func letValue(n *Node, v Value) error {
 	if !n.Dtype().Eq(v.Dtype()) {
 		return errors.Errorf("Unable to let %v be %v. Expected Dtype of %v. Got %v instead", n.name, v, n.Dtype(), v.Dtype())
 	}
-	return n.bind(v)
+	return n.bind(compact(v))
 }
 
 // Set is the equivalent of doing this:
diff --git a/values_primitives.go b/values_primitives.go
index d8850cd..d78997a 100644
--- a/values_primitives.go
+++ b/values_primitives.go
@@ -318,7 +318,7 @@ func anyToScalar(any interface{}) (Scalar, tensor.Dtype) {
 func anyToValue(any interface{}) (val Value, t hm.Type, dt tensor.Dtype, err error) {
 	switch a := any.(type) {
 	case Value:
-		val = a
+		val = compact(a)
 		t = TypeOf(a)
 		dt = a.Dtype()
 		return
-- 
2.43.0


From 7349df9581f902696cedb84f27f84e45ff11f436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:13:59 +0000
Subject: [PATCH 105/115] fix: a batch normalization built again returns the
 operation that is in the graph

The operation returned for an expression the graph already had was never run.
Statistics and the training mode set on it had no effect.
---
 nn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nn.go b/nn.go
index 9bab214..9394538 100644
--- a/nn.go
+++ b/nn.go
@@ -432,6 +432,7 @@ func BatchNorm(x, scale, bias *Node, momentum, epsilon float64) (retVal, γ, β
 	if retVal, err = ApplyOp(op, x); err != nil {
 		return nil, nil, nil, nil, err
 	}
+	op = retVal.op.(*BatchNormOp) // the graph may already have the same normalization of x
 
 	retVal, err = Auto(BroadcastHadamardProd, scale, retVal)
 	if err != nil {
-- 
2.43.0


From 6ed2c75bac045b2a1a1c6f6967ebbb5842fc84fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:09:31 +0000
Subject: [PATCH 106/115] fix: gradient of a slice's gradient is that of the
 increment, not of the sliced tensor

---
 op_tensor.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index 72a5303..50d125d 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -770,7 +770,8 @@ func (op sliceIncrOp) DiffWRT(i int) []bool {
 		panic(err)
 	}
 
-	return []bool{true, false}
+	// the first input gives the result its shape only
+	return []bool{false, true}
 }
 
 func (op sliceIncrOp) SymDiff(inputs Nodes, outputNode, gradNode *Node) (retVal Nodes, err error) {
@@ -778,19 +779,13 @@ func (op sliceIncrOp) SymDiff(inputs Nodes, outputNode, gradNode *Node) (retVal
 	if slicedRes, err = ApplyOp(op.sliceOp, gradNode); err != nil {
 		return nil, errors.Wrap(err, operationError)
 	}
-	retVal = Nodes{gradNode, slicedRes}
+	retVal = Nodes{nil, slicedRes}
 
 	return
 }
 
 func (op sliceIncrOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (err error) {
-	xdv, ydv, zdv := getDV3(inputs[0], inputs[1], output)
-
-	// dzdx
-	add := newElemBinOp(addOpType, inputs[0], output)
-	if _, err = add.UnsafeDo(xdv.d, zdv.d); err != nil {
-		return errors.Wrapf(err, unsafeDoFail, add)
-	}
+	ydv, zdv := getDV(inputs[1], output)
 
 	// dzdy
 	var d Value
@@ -798,7 +793,7 @@ func (op sliceIncrOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (
 		return errors.Wrapf(err, doFail, op)
 	}
 
-	add = newElemBinOp(addOpType, inputs[1], output)
+	add := newElemBinOp(addOpType, inputs[1], output)
 	if _, err = add.UnsafeDo(ydv.d, d); err != nil {
 		return errors.Wrapf(err, doFail, add)
 	}
-- 
2.43.0


From 445e4cdcff60a4fa47703208d22b8cf72c639121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:10:52 +0000
Subject: [PATCH 107/115] fix: gradients of a convolution can be differentiated

---
 op_nn.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/op_nn.go b/op_nn.go
index 159319c..8e78ad6 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -492,6 +492,36 @@ func (op col2imOp) Do(inputs ...Value) (retVal Value, err error) {
 	return op.do(prealloc, im)
 }
 
+func (op col2imOp) SymDiff(inputs Nodes, output, grad *Node) (retVal Nodes, err error) {
+	if err = checkArity(op, len(inputs)); err != nil {
+		return
+	}
+
+	var ret *Node
+	if ret, err = ApplyOp(op.im2colOp, grad); err != nil {
+		return
+	}
+	return Nodes{ret}, nil
+}
+
+func (op col2imOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (err error) {
+	if err = checkArity(op, len(inputs)); err != nil {
+		return
+	}
+	colv, imv := getDV(inputs[0], output)
+
+	var d Value
+	if d, err = op.im2colOp.Do(imv.d); err != nil {
+		return errors.Wrapf(err, doFail, op.im2colOp)
+	}
+
+	add := newEBOByType(addOpType, TypeOf(colv.d), TypeOf(d))
+	if _, err = add.UnsafeDo(colv.d, d); err != nil {
+		return errors.Wrapf(err, unsafeDoFail, add)
+	}
+	return
+}
+
 func (op col2imOp) ReturnsPtr() bool     { return false }
 func (op col2imOp) CallsExtern() bool    { return false }
 func (op col2imOp) OverwritesInput() int { return -1 }
-- 
2.43.0


From 36b1e013a73f997a1758193c2d487964ad24faad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:10:52 +0000
Subject: [PATCH 108/115] fix: gradients of a selection by indices can be
 differentiated

---
 op_by_indices.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/op_by_indices.go b/op_by_indices.go
index 9100d31..12ce042 100644
--- a/op_by_indices.go
+++ b/op_by_indices.go
@@ -249,6 +249,34 @@ func (op *byIndicesOpDiffOp) Type() hm.Type {
 
 func (op *byIndicesOpDiffOp) OverwritesInput() int { return -1 }
 
+// DiffWRT is an implementation for the SDOp interface
+func (op *byIndicesOpDiffOp) DiffWRT(inputs int) []bool {
+	if inputs != op.Arity() {
+		panic(fmt.Sprintf("ByIndicesOpDiff operator needs %d inputs, got %d instead", op.Arity(), inputs))
+	}
+
+	// the first input gives the result its shape only
+	return []bool{false, true, false}
+}
+
+// SymDiff selects from the gradient. Implementation for SDOp interface.
+func (op *byIndicesOpDiffOp) SymDiff(inputs Nodes, output, grad *Node) (Nodes, error) {
+	err := checkArity(op, len(inputs))
+	if err != nil {
+		return nil, err
+	}
+
+	nodes := make(Nodes, op.Arity())
+	nodes[1], err = ApplyOp(op.byIndicesOp, grad, inputs[2])
+
+	return nodes, err
+}
+
+// DoDiff is not implemented for the diff op.
+func (op *byIndicesOpDiffOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) error {
+	return nyi("DoDiff", "byIndicesOpDiffOp")
+}
+
 func (op *byIndicesOpDiffOp) checkInput(inputs ...Value) (in, indices, gradient *tensor.Dense, err error) {
 	if err := checkArity(op, len(inputs)); err != nil {
 		return nil, nil, nil, err
-- 
2.43.0


From f13168fe6a3416606de3d8ebb6f37040550abfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:10:52 +0000
Subject: [PATCH 109/115] fix: differentiating the gradient of a normalisation
 is refused instead of taking it for a constant

---
 op_group_norm.go | 2 +-
 op_nn.go         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/op_group_norm.go b/op_group_norm.go
index ae7d1c8..5e39a28 100644
--- a/op_group_norm.go
+++ b/op_group_norm.go
@@ -744,7 +744,7 @@ func (op *groupNormDiffOp) SymDiff(inputs Nodes, output, grad *Node) (Nodes, err
 
 // DiffWRT is an implementation for the SDOp interface
 func (op *groupNormDiffOp) DiffWRT(inputs int) []bool {
-	return []bool{false, false}
+	return []bool{true, true}
 }
 
 // ensure it complies with the Op interface
diff --git a/op_nn.go b/op_nn.go
index 8e78ad6..bce5824 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -1744,7 +1744,7 @@ func (op *batchnormDiffOp) String() string {
 
 func (op *batchnormDiffOp) DiffWRT(inputs int) []bool {
 	// god help those who want to  do 2nd order differentiation on batchnorm
-	return []bool{false, false, false, false}
+	return []bool{true, true}
 }
 
 func (op *batchnormDiffOp) SymDiff(inputs Nodes, output *Node, grad *Node) (retVal Nodes, err error) {
-- 
2.43.0


From afb1c23e35b41a3958691716b2c297cf18ecf03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:13:54 +0000
Subject: [PATCH 110/115] fix: elementwise functions of numbers that are not
 floats are refused instead of crashing

---
 operations.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operations.go b/operations.go
index 647bf3c..2a3b35f 100644
--- a/operations.go
+++ b/operations.go
@@ -132,6 +132,9 @@ func Auto(op func(a, b *Node, leftPattern, rightPattern []byte) (*Node, error),
 /* UNARY STUFF */
 
 func unaryOpNode(op Op, a *Node) (retVal *Node, err error) {
+	if euo, ok := op.(elemUnaryOp); ok && euo.ʘUnaryOperator == nil {
+		return nil, errors.Errorf(nyiFail, "unaryOpNode", a.t)
+	}
 	stabLogf("Creating node for %v, a: %p %v", op, a, a)
 	enterLogScope()
 	defer leaveLogScope()
-- 
2.43.0


From 7761b556a5a0d58c88408cc22db2bf2aa39a77ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:16:07 +0000
Subject: [PATCH 111/115] fix: dividing a whole number by zero is reported
 instead of crashing

---
 operatorPointwise_binary.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/operatorPointwise_binary.go b/operatorPointwise_binary.go
index e4b1429..1c9a1f8 100644
--- a/operatorPointwise_binary.go
+++ b/operatorPointwise_binary.go
@@ -135,6 +135,9 @@ func (o scalarBinOp) Do(same bool, vals ...Value) (retVal Value, err error) {
 		case mulOpType:
 			r = NewI(a.any() * b.any())
 		case divOpType:
+			if b.any() == 0 {
+				return nil, errors.Errorf("scalarBinOp.Do() - Int: division by zero")
+			}
 			r = NewI(a.any() / b.any())
 		// case powOpType:
 		// 	r = math.Pow(a, b)
@@ -171,6 +174,9 @@ func (o scalarBinOp) Do(same bool, vals ...Value) (retVal Value, err error) {
 		case mulOpType:
 			r = NewI32(a.any() * b.any())
 		case divOpType:
+			if b.any() == 0 {
+				return nil, errors.Errorf("scalarBinOp.Do() - Int32: division by zero")
+			}
 			r = NewI32(a.any() / b.any())
 		// case powOpType:
 		// 	r = math.Pow(a, b)
@@ -207,6 +213,9 @@ func (o scalarBinOp) Do(same bool, vals ...Value) (retVal Value, err error) {
 		case mulOpType:
 			r = NewI64(a.any() * b.any())
 		case divOpType:
+			if b.any() == 0 {
+				return nil, errors.Errorf("scalarBinOp.Do() - Int64: division by zero")
+			}
 			r = NewI64(a.any() / b.any())
 		// case powOpType:
 		// 	r = math.Pow(a, b)
@@ -243,6 +252,9 @@ func (o scalarBinOp) Do(same bool, vals ...Value) (retVal Value, err error) {
 		case mulOpType:
 			r = NewU8(a.any() * b.any())
 		case divOpType:
+			if b.any() == 0 {
+				return nil, errors.Errorf("scalarBinOp.Do() - Byte: division by zero")
+			}
 			r = NewU8(a.any() / b.any())
 		// case powOpType:
 		// 	r = math.Pow(a, b)
-- 
2.43.0


From ce1a980f8c53baf21ee329f9ba915b1c5f4dc9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:32:45 +0000
Subject: [PATCH 112/115] fix: a tensor of one element bound to a scalar can be
 an operand beside other scalars

---
 equalities.go | 14 ++++++++++++++
 gorgonia.go   |  3 +++
 node.go       |  4 ++--
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/equalities.go b/equalities.go
index 98bb174..73ebdd5 100644
--- a/equalities.go
+++ b/equalities.go
@@ -95,6 +95,20 @@ func compact(v Value) Value {
 	return v
 }
 
+// unwrapScalar returns the number held by a tensor of one element. Operations on two scalars do not take such a tensor.
+func unwrapScalar(v Value) Value {
+	t, ok := v.(*tensor.Dense)
+	if !ok || !t.IsNativelyAccessible() || !t.Shape().IsScalarEquiv() {
+		return v
+	}
+	switch t.Dtype() {
+	case tensor.Float64, tensor.Float32, tensor.Int, tensor.Int64, tensor.Int32, tensor.Byte, tensor.Bool:
+		s, _ := anyToScalar(t.Get(0))
+		return s
+	}
+	return v
+}
+
 // contiguous returns a tensor whose data are exactly its elements in order. A view is materialized.
 func contiguous(t tensor.Tensor) tensor.Tensor {
 	if v, ok := t.(tensor.View); ok && v.IsMaterializable() {
diff --git a/gorgonia.go b/gorgonia.go
index 0446dd9..fc16a0c 100644
--- a/gorgonia.go
+++ b/gorgonia.go
@@ -297,6 +297,9 @@ func letValue(n *Node, v Value) error {
 	if !n.Dtype().Eq(v.Dtype()) {
 		return errors.Errorf("Unable to let %v be %v. Expected Dtype of %v. Got %v instead", n.name, v, n.Dtype(), v.Dtype())
 	}
+	if _, ok := n.t.(tensor.Dtype); ok {
+		v = unwrapScalar(v)
+	}
 	return n.bind(compact(v))
 }
 
diff --git a/node.go b/node.go
index 7fee194..627e35f 100644
--- a/node.go
+++ b/node.go
@@ -140,6 +140,7 @@ func WithValue(any interface{}) NodeConsOpt {
 	}
 
 	f := func(n *Node) {
+		v := v
 		if n.t == nil {
 			n.t = t
 		} else if !n.t.Eq(t) {
@@ -152,8 +153,7 @@ func WithValue(any interface{}) NodeConsOpt {
 			if !(ok1 && ok2 && v.Shape().IsScalarEquiv() && tt.Of == ndt) {
 				panic(fmt.Sprintf("TypeError: Want %v, Got %v instead (%T %T)", n.t, t, n.t, t)) // yes this is a runtime error
 			}
-			v.(tensor.Tensor).Reshape() // rehsape to scalar
-
+			v = unwrapScalar(v)
 		}
 
 		n.bind(v)
-- 
2.43.0


From bf78e776e58189f8bafd5eec8e38e2f0faecf207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:43:21 +0000
Subject: [PATCH 113/115] fix: a machine refuses to bind nodes of other graphs
 that have the number of one of its own

---
 vm_tape.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vm_tape.go b/vm_tape.go
index 03f3540..e1d5cf2 100644
--- a/vm_tape.go
+++ b/vm_tape.go
@@ -146,7 +146,7 @@ func (m *tapeMachine) LocMap() map[*Node]register { return m.locMap }
 
 // Let wraps the Let() function of the package, with additional checks that n is in the machine
 func (m *tapeMachine) Let(n *Node, be interface{}) (err error) {
-	if !m.p.g.Has(n.ID()) {
+	if m.p.g.node(n.ID()) != n {
 		return errors.Errorf("Node %v does not exist in this graph", n)
 	}
 
@@ -155,10 +155,10 @@ func (m *tapeMachine) Let(n *Node, be interface{}) (err error) {
 
 // Set wraps the Set() function of this package, with additional checks that both a and b are in the machine
 func (m *tapeMachine) Set(a, b *Node) (err error) {
-	if !m.p.g.Has(a.ID()) {
+	if m.p.g.node(a.ID()) != a {
 		return errors.Errorf("Node %v does not exist in this graph", a)
 	}
-	if !m.p.g.Has(b.ID()) {
+	if m.p.g.node(b.ID()) != b {
 		return errors.Errorf("Node %v does not exist in this graph", b)
 	}
 
-- 
2.43.0


From ce46bb30c33268f90a3d2388c8eea0eea4bdb3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:46:58 +0000
Subject: [PATCH 114/115] fix: a machine that only goes backward differentiates
 at the values of an earlier run

---
 vm_genera.go | 52 +++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/vm_genera.go b/vm_genera.go
index 2c3f5cc..7df8d0b 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -262,6 +262,10 @@ func (m *lispMachine) prepGraph() (err error) {
 func (m *lispMachine) runall(errChan chan error, doneChan chan struct{}) {
 	var err error
 	if !m.runFwd() {
+		if err = m.enqueueAll(); err != nil {
+			errChan <- err
+			return
+		}
 		goto backward
 	}
 
@@ -498,6 +502,28 @@ func (m *lispMachine) forward() (err error) {
 	m.watchedLogf("After:")
 	m.watchedLogf(m.valueFmt, n.boundTo)
 
+	if err = m.enqueue(n, op); err != nil {
+		return err
+	}
+	m.watchedLogf("Added to Queue")
+
+	if m.watchNaN() && !n.isStmt {
+		if hasNaN(n.boundTo, dev) {
+			return errors.New("NaN found in value")
+		}
+	}
+
+	if m.watchInf() && !n.isStmt {
+		if hasInf(n.boundTo, dev) {
+			return errors.New("Inf found in value")
+		}
+	}
+
+	return
+}
+
+// enqueue adds the differentiation of a node to the backpropagation queue.
+func (m *lispMachine) enqueue(n *Node, op *ExternalOp) error {
 	if aop, ok := op.Op.(ADOp); ok && m.runBwd() {
 		instr := adInstr{
 			ADOp: aop,
@@ -520,21 +546,25 @@ func (m *lispMachine) forward() (err error) {
 			return errors.Errorf("%v does not support automatic differentiation", n)
 		}
 	}
-	m.watchedLogf("Added to Queue")
+	return nil
+}
 
-	if m.watchNaN() && !n.isStmt {
-		if hasNaN(n.boundTo, dev) {
-			return errors.New("NaN found in value")
+// enqueueAll fills the backpropagation queue from a graph whose values were computed earlier.
+func (m *lispMachine) enqueueAll() (err error) {
+	m.q = m.q[:0]
+	for _, n := range m.sorted {
+		if _, ok := n.boundTo.(*dualValue); !ok && !n.isStmt {
+			return errors.Errorf("%v has no value to differentiate at. Execute the graph forwards with a LispMachine first", n)
 		}
-	}
-
-	if m.watchInf() && !n.isStmt {
-		if hasInf(n.boundTo, dev) {
-			return errors.New("Inf found in value")
+		if n.isInput() || n.isConstant() {
+			continue
+		}
+		if err = m.enqueue(n, NewExternalOp(n.op, ExecutionContext{m, n.dataOn}, nil)); err != nil {
+			return err
 		}
 	}
-
-	return
+	m.bwd = len(m.q) - 1
+	return nil
 }
 
 func (m *lispMachine) backward() (err error) {
-- 
2.43.0


From fbe6091403b27072e4af90f47df1db7dc5f426c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:00:27 +0000
Subject: [PATCH 115/115] fix: the drawing of a node's neighbourhood does not
 name nodes outside of it

---
 graph.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index b17a3cf..0cce378 100644
--- a/graph.go
+++ b/graph.go
@@ -442,10 +442,13 @@ func (g *ExprGraph) ToDot() string {
 				// collision found... what to do?
 				continue
 			}
+			if !g.all.Contains(n) {
+				continue // a subgraph shares the hashes of the graph it is of
+			}
 			if n.derivOf != nil {
 				id := fmt.Sprintf("Node_%p", n)
 				for _, derivOf := range n.derivOf {
-					if _, ok := g.to[derivOf]; !ok {
+					if _, ok := g.to[derivOf]; !ok || !g.all.Contains(derivOf) {
 						continue
 					}
 					ofID := fmt.Sprintf("Node_%p", derivOf)
-- 
2.43.0

