From aa694fdd77a57db2da9fc2db57a48ec3d8b74d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 01/83] fix: broadcast Sum and Mean inputs of different ranks

---
 crates/burn-onnx/src/burn/argument_helpers.rs | 11 +++++++++++
 crates/burn-onnx/src/burn/node/mean.rs        |  9 +++++++--
 crates/burn-onnx/src/burn/node/prelude.rs     |  1 +
 crates/burn-onnx/src/burn/node/sum.rs         |  9 +++++++--
 4 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/crates/burn-onnx/src/burn/argument_helpers.rs b/crates/burn-onnx/src/burn/argument_helpers.rs
index 4dabd2b..06af842 100644
--- a/crates/burn-onnx/src/burn/argument_helpers.rs
+++ b/crates/burn-onnx/src/burn/argument_helpers.rs
@@ -69,6 +69,17 @@ pub fn elem_cast_tokens(dtype: &DType) -> TokenStream {
     quote! { .elem::<#ty>() }
 }
 
+/// Prepend unit dimensions to an on-device value so that its rank matches `rank`, as ONNX
+/// multidirectional broadcasting requires. Values that are not on device are left alone.
+pub fn unsqueeze_to_rank(input: TokenStream, ty: &ArgType, rank: usize) -> TokenStream {
+    if !ty.is_on_device() || ty.rank() >= rank {
+        return input;
+    }
+    let dims: Vec<isize> = (0..rank - ty.rank()).map(|i| i as isize).collect();
+    let rank = rank.to_tokens();
+    quote! { #input.unsqueeze_dims::<#rank>(&[#(#dims),*]) }
+}
+
 /// Generate code to extract a native scalar from a on-device tensor.
 ///
 /// Produces: `<input>.into_scalar().elem::<T>()`
diff --git a/crates/burn-onnx/src/burn/node/mean.rs b/crates/burn-onnx/src/burn/node/mean.rs
index 67bd836..22c3637 100644
--- a/crates/burn-onnx/src/burn/node/mean.rs
+++ b/crates/burn-onnx/src/burn/node/mean.rs
@@ -10,9 +10,14 @@ impl NodeCodegen for onnx_ir::node::mean::MeanNode {
     }
 
     fn forward(&self, scope: &mut ScopeAtPosition<'_>) -> TokenStream {
-        let inputs = self.inputs.iter().map(|arg| scope.arg(arg));
+        let output_arg = self.outputs.first().unwrap();
+        let output = arg_to_ident(output_arg);
+        let rank = output_arg.ty.rank();
 
-        let output = arg_to_ident(self.outputs.first().unwrap());
+        let inputs = self
+            .inputs
+            .iter()
+            .map(|arg| unsqueeze_to_rank(scope.arg(arg), &arg.ty, rank));
         let inputs_len = self.inputs.len() as u32;
 
         quote! {
diff --git a/crates/burn-onnx/src/burn/node/prelude.rs b/crates/burn-onnx/src/burn/node/prelude.rs
index 97d6052..6685404 100644
--- a/crates/burn-onnx/src/burn/node/prelude.rs
+++ b/crates/burn-onnx/src/burn/node/prelude.rs
@@ -14,6 +14,7 @@
 pub(crate) use super::{NodeCodegen, arg_to_ident};
 pub(crate) use crate::burn::argument_helpers::{
     on_device_to_native, scalar_native_to_shape, scalar_tensor_to_shape, shape_to_native,
+    unsqueeze_to_rank,
 };
 
 // Re-export common burn-onnx types
diff --git a/crates/burn-onnx/src/burn/node/sum.rs b/crates/burn-onnx/src/burn/node/sum.rs
index f98d579..e532041 100644
--- a/crates/burn-onnx/src/burn/node/sum.rs
+++ b/crates/burn-onnx/src/burn/node/sum.rs
@@ -10,9 +10,14 @@ impl NodeCodegen for onnx_ir::node::sum::SumNode {
     }
 
     fn forward(&self, scope: &mut ScopeAtPosition<'_>) -> TokenStream {
-        let inputs = self.inputs.iter().map(|arg| scope.arg(arg));
+        let output_arg = self.outputs.first().unwrap();
+        let output = arg_to_ident(output_arg);
+        let rank = output_arg.ty.rank();
 
-        let output = arg_to_ident(self.outputs.first().unwrap());
+        let inputs = self
+            .inputs
+            .iter()
+            .map(|arg| unsqueeze_to_rank(scope.arg(arg), &arg.ty, rank));
 
         quote! {
             let #output = #(#inputs)+*;
-- 
2.43.0


From ca4fc8cf97d7e1417ec219d4b4743f65760453de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 02/83] fix: broadcast BitShift operands of different ranks

---
 crates/burn-onnx/src/burn/node/bitshift.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/burn-onnx/src/burn/node/bitshift.rs b/crates/burn-onnx/src/burn/node/bitshift.rs
index 2331a94..f14deca 100644
--- a/crates/burn-onnx/src/burn/node/bitshift.rs
+++ b/crates/burn-onnx/src/burn/node/bitshift.rs
@@ -22,6 +22,9 @@ impl NodeCodegen for onnx_ir::bitshift::BitShiftNode {
         let operation = match self.config.direction {
             onnx_ir::bitshift::Direction::Left => match (&lhs_arg.ty, &rhs_arg.ty) {
                 (lhs_ty, rhs_ty) if lhs_ty.is_on_device() && rhs_ty.is_on_device() => {
+                    let rank = lhs_ty.rank().max(rhs_ty.rank());
+                    let lhs = unsqueeze_to_rank(lhs, lhs_ty, rank);
+                    let rhs = unsqueeze_to_rank(rhs, rhs_ty, rank);
                     quote! { #lhs.bitwise_left_shift(#rhs) }
                 }
                 (lhs_ty, ArgType::ScalarNative(_)) if lhs_ty.is_on_device() => {
@@ -42,6 +45,9 @@ impl NodeCodegen for onnx_ir::bitshift::BitShiftNode {
             },
             onnx_ir::bitshift::Direction::Right => match (&lhs_arg.ty, &rhs_arg.ty) {
                 (lhs_ty, rhs_ty) if lhs_ty.is_on_device() && rhs_ty.is_on_device() => {
+                    let rank = lhs_ty.rank().max(rhs_ty.rank());
+                    let lhs = unsqueeze_to_rank(lhs, lhs_ty, rank);
+                    let rhs = unsqueeze_to_rank(rhs, rhs_ty, rank);
                     quote! { #lhs.bitwise_right_shift(#rhs) }
                 }
                 (lhs_ty, ArgType::ScalarNative(_)) if lhs_ty.is_on_device() => {
-- 
2.43.0


From cf75c90033a912f8addc26fc8b1221cc8e0dffba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:59 +0000
Subject: [PATCH 03/83] fix: divide an integer scalar by an integer tensor

---
 crates/burn-onnx/src/burn/node/div.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/burn-onnx/src/burn/node/div.rs b/crates/burn-onnx/src/burn/node/div.rs
index 6f70d64..603cd16 100644
--- a/crates/burn-onnx/src/burn/node/div.rs
+++ b/crates/burn-onnx/src/burn/node/div.rs
@@ -40,8 +40,12 @@ impl NodeCodegen for onnx_ir::node::arithmetic::DivNode {
             }
             (ArgType::ScalarNative(dtype), rhs_ty) if rhs_ty.is_on_device() => {
                 // Use the built-in Div impl: f32 / Tensor -> tensor.recip().mul_scalar(f32)
+                let rhs_dtype = rhs_ty.elem_type();
                 if dtype.is_float() {
                     quote! { #lhs / #rhs }
+                } else if rhs_dtype.is_int() || rhs_dtype.is_uint() {
+                    // Int tensors have no reciprocal
+                    quote! { #rhs.full_like(#lhs).div(#rhs) }
                 } else if dtype.is_int() || dtype.is_uint() {
                     let cast_type = match rhs_ty.elem_type() {
                         DType::F64 => quote! { f64 },
-- 
2.43.0


From 01fa5f11a8bdf2d096916694ea6f68fa10c5931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 04/83] fix: fuse MatMul+Add and Gemm into Linear only when the
 bias and weight fit a Linear module

The Add was absorbed although the MatMul result was also used elsewhere or was a
graph output, and whatever the shape of the other operand; a Gemm with a runtime
weight or bias became a Linear with random parameters.
---
 crates/onnx-ir/src/phases/node_conversion.rs | 68 +++++++++++++++++---
 1 file changed, 58 insertions(+), 10 deletions(-)

diff --git a/crates/onnx-ir/src/phases/node_conversion.rs b/crates/onnx-ir/src/phases/node_conversion.rs
index 8e1de43..48d970a 100644
--- a/crates/onnx-ir/src/phases/node_conversion.rs
+++ b/crates/onnx-ir/src/phases/node_conversion.rs
@@ -9,10 +9,10 @@ use std::{cell::RefCell, collections::HashMap, iter::Peekable, rc::Rc, slice::It
 
 use crate::{
     graph_state::GraphState,
-    ir::{ArgType, AttributeValue, NodeType, RawNode, TensorData, TensorDataExt},
+    ir::{ArgType, Argument, AttributeValue, NodeType, RawNode, TensorData, TensorDataExt},
     pipeline::Error,
     processor::get_processor_registry,
-    proto_conversion::convert_node_proto,
+    proto_conversion::{convert_node_proto, extract_node_outer_scope_references, sanitize_name},
     protos::{GraphProto, NodeProto},
 };
 
@@ -419,7 +419,7 @@ fn coalesce(
 ) {
     #[allow(clippy::single_match)]
     match node.node_type {
-        NodeType::Gemm => convert_gemm_to_linear(node),
+        NodeType::Gemm => convert_gemm_to_linear(node, graph_data),
         NodeType::MatMul => {
             convert_matmul_to_linear(node, nodes_iter, graph_data);
         }
@@ -432,7 +432,7 @@ fn coalesce(
 /// Note: The weight tensor is kept in its original ONNX layout [out_features, in_features].
 /// The burn-onnx layer is responsible for transposing the weights to Burn's expected
 /// layout [in_features, out_features] during code generation.
-fn convert_gemm_to_linear(node: &mut RawNode) {
+fn convert_gemm_to_linear(node: &mut RawNode, graph_data: &GraphState) {
     if node.outputs.len() != 1 {
         panic!("Gemm node must have 1 output");
     }
@@ -452,6 +452,21 @@ fn convert_gemm_to_linear(node: &mut RawNode) {
         return;
     }
 
+    // A Linear module stores its weight and bias, so both must be constants, and its bias is
+    // one value per output feature
+    let out_features = constant_shape(&node.inputs[1], graph_data).map(|shape| shape[0]);
+    let bias_ok = match node.inputs.get(2) {
+        Some(bias) if !bias.is_optional() => is_linear_bias(bias, out_features, graph_data),
+        _ => true,
+    };
+    if out_features.is_none() || !bias_ok {
+        log::debug!(
+            "Keeping Gemm node {} (weight or bias cannot be stored in a Linear module)",
+            node.name
+        );
+        return;
+    }
+
     let straight_linear = match (
         node.attrs.get("alpha"),
         node.attrs.get("beta"),
@@ -531,7 +546,9 @@ fn convert_matmul_to_linear(
     // Check the next node for potential conversion
     if let Some(peek_node) = iter_mut.peek() {
         let peek_node = convert_node_proto(peek_node, graph_data);
-        if is_add_node_with_bias(&peek_node, node, graph_data) {
+        // The Add may only absorb a result that nothing else needs
+        let used_elsewhere = is_used(&node.outputs[0].name, iter_mut.clone().skip(1), graph_data);
+        if !used_elsewhere && is_add_node_with_bias(&peek_node, node, graph_data) {
             convert_and_remove_add_node(&peek_node, node);
             log::debug!("Fused Add bias into Linear node {}", node.name);
 
@@ -541,6 +558,36 @@ fn convert_matmul_to_linear(
     }
 }
 
+/// Static shape of a constant argument, or None if it is not a constant of known shape
+fn constant_shape(arg: &Argument, graph_data: &GraphState) -> Option<Vec<usize>> {
+    if arg.is_constant() || graph_data.has_value(&arg.name) {
+        arg.ty.static_shape_known()
+    } else {
+        None
+    }
+}
+
+/// Check if an argument can be stored as the bias of a Linear module: a constant vector with
+/// one value per output feature
+fn is_linear_bias(arg: &Argument, out_features: Option<usize>, graph_data: &GraphState) -> bool {
+    arg.ty.rank() == 1
+        && constant_shape(arg, graph_data)
+            .is_some_and(|shape| shape.len() == 1 && Some(shape[0]) == out_features)
+}
+
+/// Check if a value is used by any of the nodes (or their subgraphs) or is a graph output
+fn is_used<'a>(
+    name: &str,
+    mut nodes: impl Iterator<Item = &'a NodeProto>,
+    graph_data: &GraphState,
+) -> bool {
+    graph_data.get_output_type(name).is_some()
+        || nodes.any(|node| {
+            node.input.iter().any(|i| sanitize_name(i) == name)
+                || extract_node_outer_scope_references(node).contains(name)
+        })
+}
+
 /// Check if the peeked node is an Add with bias for the current MatMul
 fn is_add_node_with_bias(
     peek_node: &RawNode,
@@ -552,11 +599,12 @@ fn is_add_node_with_bias(
         return false;
     }
 
-    // Check if one input is the matmul output and the other has a value
-    (peek_node.inputs[0].name == current_node.outputs[0].name
-        && graph_data.has_value(&peek_node.inputs[1].name))
-        || (peek_node.inputs[1].name == current_node.outputs[0].name
-            && graph_data.has_value(&peek_node.inputs[0].name))
+    // Check if one input is the matmul output and the other can be stored as a Linear bias
+    let out_features = constant_shape(&current_node.inputs[1], graph_data).map(|shape| shape[1]);
+    let output = &current_node.outputs[0].name;
+    let [lhs, rhs] = [&peek_node.inputs[0], &peek_node.inputs[1]];
+    (&lhs.name == output && is_linear_bias(rhs, out_features, graph_data))
+        || (&rhs.name == output && is_linear_bias(lhs, out_features, graph_data))
 }
 
 /// Merge the Add node's bias into the MatMul node
-- 
2.43.0


From fad366f3e8eac84a7c30a336e1d4fa87508d7e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 05/83] fix: accept a one-element tensor as the C input of Gemm

---
 crates/burn-onnx/src/burn/node/gemm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/burn-onnx/src/burn/node/gemm.rs b/crates/burn-onnx/src/burn/node/gemm.rs
index 03da5d7..cefbe20 100644
--- a/crates/burn-onnx/src/burn/node/gemm.rs
+++ b/crates/burn-onnx/src/burn/node/gemm.rs
@@ -46,7 +46,7 @@ impl NodeCodegen for onnx_ir::gemm::GemmNode {
         if let Some(c_input) = self.inputs.get(2) {
             // Get C as either tensor or scalar depending on its type
             let c = match &c_input.ty {
-                onnx_ir::ir::ArgType::Tensor(_) => {
+                onnx_ir::ir::ArgType::Tensor(_) | onnx_ir::ir::ArgType::ScalarTensor(_) => {
                     let c_tensor = scope.arg(c_input);
                     quote! { #c_tensor.unsqueeze() }
                 }
-- 
2.43.0


From df80ad42f1fe51524fded52d4ddda7ea0071d66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 06/83] fix: read scalar constants of every integer type

---
 crates/onnx-ir/src/ir/tensor_data_ext.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/ir/tensor_data_ext.rs b/crates/onnx-ir/src/ir/tensor_data_ext.rs
index 69a8613..dc0b8d2 100644
--- a/crates/onnx-ir/src/ir/tensor_data_ext.rs
+++ b/crates/onnx-ir/src/ir/tensor_data_ext.rs
@@ -90,7 +90,14 @@ impl TensorDataExt for burn_tensor::TensorData {
     fn to_i64_vec(&self) -> Result<Vec<i64>, burn_tensor::DataError> {
         use burn_tensor::DType;
         match self.dtype {
-            DType::I64 | DType::I32 => self.clone().convert::<i64>().to_vec(),
+            DType::I64
+            | DType::I32
+            | DType::I16
+            | DType::I8
+            | DType::U64
+            | DType::U32
+            | DType::U16
+            | DType::U8 => self.clone().convert::<i64>().to_vec(),
             other => Err(burn_tensor::DataError::TypeMismatch(format!(
                 "Cannot convert {:?} to Vec<i64>",
                 other
-- 
2.43.0


From fbcd82851cc6628e092b56b84b2bf6efe1ddeabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 07/83] fix: reduce over every dimension and ReduceLogSumExp
 without keepdims

Squeezing all dimensions asked for the wrong rank, and LogSumExp expanded a maximum whose
reduced dimensions were already dropped.
---
 crates/burn-onnx/src/burn/node/reduce.rs | 31 +++++++++++++++---------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/reduce.rs b/crates/burn-onnx/src/burn/node/reduce.rs
index ed70cf8..30a1f41 100644
--- a/crates/burn-onnx/src/burn/node/reduce.rs
+++ b/crates/burn-onnx/src/burn/node/reduce.rs
@@ -44,6 +44,7 @@ impl ReductionType {
         input: TokenStream,
         dims: Vec<usize>,
         keepdims: bool,
+        input_rank: usize,
         output_rank: usize,
     ) -> TokenStream {
         // Reducing along specified dimensions
@@ -54,11 +55,9 @@ impl ReductionType {
         if keepdims {
             reduced_input
         } else {
-            // Check if the result should be a scalar (rank 0)
-            if output_rank == 0 {
-                // For scalar outputs, we don't need to squeeze dims as the reduce operations
-                // should already return the correct rank
-                reduced_input
+            // Check if the result should be a scalar (every dimension is reduced)
+            if dims.len() == input_rank {
+                quote! { #reduced_input.reshape([1]) }
             } else {
                 // Squeezing dimensions for non-scalar outputs
                 // Use turbofish syntax to specify the output rank explicitly
@@ -89,11 +88,11 @@ impl ReductionType {
             } else {
                 // Reducing along all specific dimensions
                 dims = (0..input_rank).collect();
-                self.reduce_by_dims(input, dims, keepdims, output_rank)
+                self.reduce_by_dims(input, dims, keepdims, input_rank, output_rank)
             }
         } else {
             // Reducing along specific dimensions
-            self.reduce_by_dims(input, dims, keepdims, output_rank)
+            self.reduce_by_dims(input, dims, keepdims, input_rank, output_rank)
         }
     }
 }
@@ -289,22 +288,30 @@ macro_rules! impl_reduce_node {
                             _ => panic!("Reduce node input must be a tensor"),
                         };
 
+                        // Keep the reduced dimensions so that the maximum expands over the input
                         let input_max_reduced = ReductionType::Max.forward_reduce(
                             quote! { input_double.clone() },
                             dims.clone(),
-                            keepdims,
+                            true,
+                            input_rank,
                             input_rank,
-                            output_rank,
                         );
 
                         let exp_reduced = ReductionType::Sum.forward_reduce(
                             quote! { input_exp_reduced },
                             dims.clone(),
-                            keepdims,
+                            true,
+                            input_rank,
                             input_rank,
-                            output_rank,
                         );
 
+                        let squeezed = if keepdims || dims.is_empty() || dims.len() == input_rank {
+                            quote! {}
+                        } else {
+                            let dims_tokens = dims.to_tokens();
+                            quote! { .squeeze_dims::<#output_rank>(&#dims_tokens) }
+                        };
+
                         let input_reduced = quote! {
                             let input_dtype = #input.dtype();
                             let input_shape = #input.shape();
@@ -312,7 +319,7 @@ macro_rules! impl_reduce_node {
                             let input_max_reduced = #input_max_reduced;
                             let input_exp_reduced = (input_double - input_max_reduced.clone().expand(input_shape)).exp();
                             let exp_sum_reduced = #exp_reduced;
-                            (input_max_reduced + exp_sum_reduced.log())
+                            (input_max_reduced + exp_sum_reduced.log())#squeezed
                         };
 
                         match &input_arg.ty {
-- 
2.43.0


From 17d02227b4e3f61db15cb4d8cabd50d69765b519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 08/83] fix: accept an omitted zero point between MatMulInteger
 inputs

---
 crates/burn-onnx/src/burn/node/matmul_integer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/matmul_integer.rs b/crates/burn-onnx/src/burn/node/matmul_integer.rs
index 938a3ee..c2a192c 100644
--- a/crates/burn-onnx/src/burn/node/matmul_integer.rs
+++ b/crates/burn-onnx/src/burn/node/matmul_integer.rs
@@ -31,7 +31,8 @@ impl NodeCodegen for onnx_ir::matmulinteger::MatMulIntegerNode {
 
         // Centered inputs: cast to output dtype, subtract zero-points if provided.
         // When zero-points are absent (default 0), just cast without subtraction.
-        let lhs_centered = if let Some(zp_input) = self.inputs.get(2) {
+        let lhs_centered = if let Some(zp_input) = self.inputs.get(2).filter(|zp| !zp.is_optional())
+        {
             let zp = scope.arg(zp_input);
             let zp_expr = if lhs_rank > 1 {
                 quote! { (#zp).cast(#output_dtype).unsqueeze::<#lhs_rank>() }
@@ -43,7 +44,8 @@ impl NodeCodegen for onnx_ir::matmulinteger::MatMulIntegerNode {
             quote! { (#lhs).cast(#output_dtype) }
         };
 
-        let rhs_centered = if let Some(zp_input) = self.inputs.get(3) {
+        let rhs_centered = if let Some(zp_input) = self.inputs.get(3).filter(|zp| !zp.is_optional())
+        {
             let zp = scope.arg(zp_input);
             let zp_expr = if rhs_rank > 1 {
                 quote! { (#zp).cast(#output_dtype).unsqueeze::<#rhs_rank>() }
-- 
2.43.0


From 08eac32804b648100d273c67a3beb3e7318ed72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 09/83] fix: keep one-sized axes when slicing recurrent weights
 per direction

squeeze::<2>() drops every axis of size one, so hidden or input sizes of one made the
importer panic.
---
 crates/burn-onnx/src/burn/node/gru.rs  | 6 +++---
 crates/burn-onnx/src/burn/node/lstm.rs | 6 +++---
 crates/burn-onnx/src/burn/node/rnn.rs  | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/gru.rs b/crates/burn-onnx/src/burn/node/gru.rs
index 031af70..78158f1 100644
--- a/crates/burn-onnx/src/burn/node/gru.rs
+++ b/crates/burn-onnx/src/burn/node/gru.rs
@@ -80,19 +80,19 @@ fn collect_gru_snapshots(
         let w_dir = w_tensor
             .clone()
             .slice([dir_idx..dir_idx + 1, 0..3 * hidden_size, 0..input_size])
-            .squeeze::<2>(); // [3*hidden_size, input_size]
+            .squeeze_dim::<2>(0); // [3*hidden_size, input_size]
 
         // R shape: [num_directions, 3*hidden_size, hidden_size]
         let r_dir = r_tensor
             .clone()
             .slice([dir_idx..dir_idx + 1, 0..3 * hidden_size, 0..hidden_size])
-            .squeeze::<2>(); // [3*hidden_size, hidden_size]
+            .squeeze_dim::<2>(0); // [3*hidden_size, hidden_size]
 
         // B shape: [num_directions, 6*hidden_size]
         let b_dir = b_tensor.as_ref().map(|b| {
             b.clone()
                 .slice([dir_idx..dir_idx + 1, 0..6 * hidden_size])
-                .squeeze::<1>() // [6*hidden_size]
+                .squeeze_dim::<1>(0) // [6*hidden_size]
         });
 
         for (gate_idx, gate_name) in gate_names.iter().enumerate() {
diff --git a/crates/burn-onnx/src/burn/node/lstm.rs b/crates/burn-onnx/src/burn/node/lstm.rs
index f826c88..0c00bef 100644
--- a/crates/burn-onnx/src/burn/node/lstm.rs
+++ b/crates/burn-onnx/src/burn/node/lstm.rs
@@ -118,19 +118,19 @@ fn collect_lstm_snapshots(
         let w_dir = w_tensor
             .clone()
             .slice([dir_idx..dir_idx + 1, 0..4 * hidden_size, 0..input_size])
-            .squeeze::<2>(); // [4*hidden_size, input_size]
+            .squeeze_dim::<2>(0); // [4*hidden_size, input_size]
 
         // R shape: [num_directions, 4*hidden_size, hidden_size]
         let r_dir = r_tensor
             .clone()
             .slice([dir_idx..dir_idx + 1, 0..4 * hidden_size, 0..hidden_size])
-            .squeeze::<2>(); // [4*hidden_size, hidden_size]
+            .squeeze_dim::<2>(0); // [4*hidden_size, hidden_size]
 
         // B shape: [num_directions, 8*hidden_size]
         let b_dir = b_tensor.as_ref().map(|b| {
             b.clone()
                 .slice([dir_idx..dir_idx + 1, 0..8 * hidden_size])
-                .squeeze::<1>() // [8*hidden_size]
+                .squeeze_dim::<1>(0) // [8*hidden_size]
         });
 
         for (gate_idx, gate_name) in gate_names.iter().enumerate() {
diff --git a/crates/burn-onnx/src/burn/node/rnn.rs b/crates/burn-onnx/src/burn/node/rnn.rs
index bb399d8..6362a43 100644
--- a/crates/burn-onnx/src/burn/node/rnn.rs
+++ b/crates/burn-onnx/src/burn/node/rnn.rs
@@ -110,19 +110,19 @@ fn collect_rnn_snapshots(
         let w_dir = w_tensor
             .clone()
             .slice([dir_idx..dir_idx + 1, 0..hidden_size, 0..input_size])
-            .squeeze::<2>(); // [hidden_size, input_size]
+            .squeeze_dim::<2>(0); // [hidden_size, input_size]
 
         // R shape: [num_directions, hidden_size, hidden_size]
         let r_dir = r_tensor
             .clone()
             .slice([dir_idx..dir_idx + 1, 0..hidden_size, 0..hidden_size])
-            .squeeze::<2>(); // [hidden_size, hidden_size]
+            .squeeze_dim::<2>(0); // [hidden_size, hidden_size]
 
         // B shape: [num_directions, 2*hidden_size]
         let b_dir = b_tensor.as_ref().map(|b| {
             b.clone()
                 .slice([dir_idx..dir_idx + 1, 0..2 * hidden_size])
-                .squeeze::<1>() // [2*hidden_size]
+                .squeeze_dim::<1>(0) // [2*hidden_size]
         });
 
         let onnx_gate_idx = 0; // Rnn has only one gate
-- 
2.43.0


From bf85d9330b8ae482f587c7536359d7e17a0eb1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 10/83] fix: compare the axis of LayerNormalization with the
 rank of its input

A positive last axis was refused for inputs of rank two and more, and an axis before the
last was accepted when it was below the rank of the scale.
---
 crates/onnx-ir/src/node/layer_norm.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/onnx-ir/src/node/layer_norm.rs b/crates/onnx-ir/src/node/layer_norm.rs
index 6a057c7..17fc229 100644
--- a/crates/onnx-ir/src/node/layer_norm.rs
+++ b/crates/onnx-ir/src/node/layer_norm.rs
@@ -22,7 +22,7 @@
 use derive_new::new;
 use onnx_ir_derive::NodeBuilder;
 
-use crate::ir::{Argument, Node, RawNode};
+use crate::ir::{ArgType, Argument, Node, RawNode};
 use crate::processor::{
     InputSpec, NodeProcessor, NodeSpec, OutputPreferences, OutputSpec, ProcessError,
 };
@@ -124,7 +124,12 @@ impl NodeProcessor for LayerNormProcessor {
         // TODO: Validate stash_type is 1 or unspecified - Spec only defines stash_type=1 (float), other values undefined - burn/crates/onnx-ir/src/node/layer_norm.rs:132
         // TODO: Validate axis is within valid range for input tensor rank - Out of bounds axis should be rejected - burn/crates/onnx-ir/src/node/layer_norm.rs:132
 
-        if axis != -1 && axis != weight_shape.len() as i64 - 1 {
+        // A negative axis counts from the end of the input
+        let last_axis = match &node.inputs[0].ty {
+            ArgType::Tensor(tensor) => axis == -1 || axis == tensor.rank as i64 - 1,
+            _ => axis == -1,
+        };
+        if !last_axis || weight_shape.len() != 1 {
             return Err(ProcessError::Custom(
                 "LayerNorm: normalization is only supported on the last axis right now".to_string(),
             ));
-- 
2.43.0


From b19e503870c6f7aac9a49cb0692b9f1481ba48dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:22 +0000
Subject: [PATCH 11/83] fix: collect the fields and weights of Scan bodies

---
 crates/burn-onnx/src/burn/graph.rs | 32 ++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/crates/burn-onnx/src/burn/graph.rs b/crates/burn-onnx/src/burn/graph.rs
index af102f4..71704b3 100644
--- a/crates/burn-onnx/src/burn/graph.rs
+++ b/crates/burn-onnx/src/burn/graph.rs
@@ -95,7 +95,7 @@ impl BurnGraph {
                     snapshots.extend(node_snapshots);
                 }
 
-                // Recursively collect from nested If/Loop nodes
+                // Recursively collect from nested If/Loop/Scan nodes
                 if let Node::If(nested_if_node) = node {
                     collect_subgraph_snapshots_recursive(
                         &nested_if_node.config.then_branch,
@@ -113,6 +113,12 @@ impl BurnGraph {
                         field_name_counts,
                         snapshots,
                     );
+                } else if let Node::Scan(nested_scan_node) = node {
+                    collect_subgraph_snapshots_recursive(
+                        &nested_scan_node.config.body,
+                        field_name_counts,
+                        snapshots,
+                    );
                 }
             }
         }
@@ -125,7 +131,7 @@ impl BurnGraph {
                 snapshots.extend(node_snapshots);
             }
 
-            // Collect from subgraphs in If/Loop nodes
+            // Collect from subgraphs in If/Loop/Scan nodes
             if let Node::If(if_node) = node {
                 collect_subgraph_snapshots_recursive(
                     &if_node.config.then_branch,
@@ -143,6 +149,12 @@ impl BurnGraph {
                     &mut field_name_counts,
                     &mut snapshots,
                 );
+            } else if let Node::Scan(scan_node) = node {
+                collect_subgraph_snapshots_recursive(
+                    &scan_node.config.body,
+                    &mut field_name_counts,
+                    &mut snapshots,
+                );
             }
         }
 
@@ -396,7 +408,7 @@ impl BurnGraph {
                     all_fields.push((field.name.clone(), field.ty.clone(), Some(field.init)));
                 }
 
-                // Recursively collect from nested If/Loop nodes
+                // Recursively collect from nested If/Loop/Scan nodes
                 if let Node::If(nested_if_node) = burn_node {
                     collect_subgraph_fields_recursive(
                         &nested_if_node.config.then_branch,
@@ -414,6 +426,12 @@ impl BurnGraph {
                         field_name_counts,
                         all_fields,
                     );
+                } else if let Node::Scan(nested_scan_node) = burn_node {
+                    collect_subgraph_fields_recursive(
+                        &nested_scan_node.config.body,
+                        field_name_counts,
+                        all_fields,
+                    );
                 }
             }
         }
@@ -424,7 +442,7 @@ impl BurnGraph {
                 all_fields.push((field.name, field.ty, Some(field.init)));
             }
 
-            // Recursively collect fields from If/Loop node subgraphs
+            // Recursively collect fields from If/Loop/Scan node subgraphs
             // Note: Subgraph fields are NOT deduplicated - each branch has unique fields
             if let Node::If(if_node) = node {
                 collect_subgraph_fields_recursive(
@@ -443,6 +461,12 @@ impl BurnGraph {
                     &mut field_name_counts,
                     &mut all_fields,
                 );
+            } else if let Node::Scan(scan_node) = node {
+                collect_subgraph_fields_recursive(
+                    &scan_node.config.body,
+                    &mut field_name_counts,
+                    &mut all_fields,
+                );
             }
         }
 
-- 
2.43.0


From 2dc9661adeae998c9ee643aae8babab40a5ec986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:22 +0000
Subject: [PATCH 12/83] fix: pass values to a control-flow body that are also
 its node's inputs

---
 crates/onnx-ir/src/phases/node_conversion.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/crates/onnx-ir/src/phases/node_conversion.rs b/crates/onnx-ir/src/phases/node_conversion.rs
index 48d970a..74296d0 100644
--- a/crates/onnx-ir/src/phases/node_conversion.rs
+++ b/crates/onnx-ir/src/phases/node_conversion.rs
@@ -92,12 +92,6 @@ fn convert_nodes_impl(
                 let state = state_rc.borrow();
                 let mut scope_ref_names: Vec<String> = Vec::new();
                 for ref_name in outer_refs {
-                    // Skip references that are already in the node's inputs
-                    if node.inputs.iter().any(|i| i.name == ref_name) {
-                        log::debug!("Skipping '{}' - already in node inputs", ref_name);
-                        continue;
-                    }
-
                     // Create an argument for this outer-scope reference
                     // The type will be resolved from the parent graph
                     let arg = state.init_in(&ref_name);
-- 
2.43.0


From 2231648a0dc5da3ce50140cfb3b28847bbd2921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:22 +0000
Subject: [PATCH 13/83] fix: give every subgraph its own ownership scope and
 update loop state at once

---
 crates/burn-onnx/src/burn/node/if_node.rs     |  36 +----
 crates/burn-onnx/src/burn/node/loop_node.rs   | 126 ++++--------------
 crates/burn-onnx/src/burn/node/scan_node.rs   |  74 ++--------
 .../src/burn/node/subgraph_helper.rs          | 124 +++++++++--------
 crates/burn-onnx/src/burn/scope.rs            |  33 +++--
 5 files changed, 133 insertions(+), 260 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/if_node.rs b/crates/burn-onnx/src/burn/node/if_node.rs
index df2497b..5bfbd87 100644
--- a/crates/burn-onnx/src/burn/node/if_node.rs
+++ b/crates/burn-onnx/src/burn/node/if_node.rs
@@ -9,45 +9,24 @@ fn generate_branch_code(
     subgraph: &onnx_ir::OnnxGraph,
     outer_scope_inputs: &[Argument],
     scope_ref_names: &[String],
-    scope: &mut Scope,
-    node_position: usize,
 ) -> (TokenStream, TokenStream) {
     // For If branches, all scope_ref_names are genuine outer-scope references
     // (no filtering needed, unlike Loop/Scan)
     let exclude_names = HashSet::new();
 
-    // Collect names actually used in this branch to avoid unused variable warnings
-    let used_names = subgraph_helper::collect_subgraph_referenced_names(subgraph);
-
-    // Generate outer-scope bindings (only for names actually used in this branch)
-    let bindings = subgraph_helper::generate_outer_scope_bindings(
+    let (body, outputs) = subgraph_helper::generate_subgraph_code(
+        subgraph,
         outer_scope_inputs,
         scope_ref_names,
         &exclude_names,
-        Some(&used_names),
-        scope,
-        node_position,
     );
 
-    // Register subgraph scope
-    subgraph_helper::register_subgraph_scope(subgraph, scope, node_position);
-
-    // Generate forward code
-    let forward_code =
-        subgraph_helper::generate_subgraph_forward_code(subgraph, scope, node_position);
-
     // Generate output tuple
-    let output_names: Vec<_> = subgraph.outputs.iter().map(arg_to_ident).collect();
-    let output_tuple = if output_names.len() == 1 {
-        let out = &output_names[0];
+    let output_tuple = if outputs.len() == 1 {
+        let out = &outputs[0];
         quote! { #out }
     } else {
-        quote! { (#(#output_names),*) }
-    };
-
-    let body = quote! {
-        #bindings
-        #forward_code
+        quote! { (#(#outputs),*) }
     };
 
     (body, output_tuple)
@@ -89,20 +68,15 @@ impl NodeCodegen for onnx_ir::node::if_node::IfNode {
         let outer_scope_inputs: Vec<_> = self.inputs.iter().skip(1).cloned().collect();
 
         // Generate code for then and else branches
-        let node_position = scope.node_position();
         let (then_body, then_output) = generate_branch_code(
             &self.config.then_branch,
             &outer_scope_inputs,
             &self.config.scope_ref_names,
-            scope.scope(),
-            node_position,
         );
         let (else_body, else_output) = generate_branch_code(
             &self.config.else_branch,
             &outer_scope_inputs,
             &self.config.scope_ref_names,
-            scope.scope(),
-            node_position,
         );
 
         // Generate output variable declarations
diff --git a/crates/burn-onnx/src/burn/node/loop_node.rs b/crates/burn-onnx/src/burn/node/loop_node.rs
index 993e754..392f9b0 100644
--- a/crates/burn-onnx/src/burn/node/loop_node.rs
+++ b/crates/burn-onnx/src/burn/node/loop_node.rs
@@ -2,44 +2,6 @@ use super::prelude::*;
 use super::subgraph_helper;
 use std::collections::HashSet;
 
-/// Generate inline code for a loop body subgraph.
-///
-/// Loop body inputs (iter_num, cond, loop-carried vars) are excluded from
-/// outer-scope bindings since they're provided by the loop construct.
-fn generate_loop_body_code(
-    subgraph: &onnx_ir::OnnxGraph,
-    outer_scope_inputs: &[Argument],
-    scope_ref_names: &[String],
-    body_input_names: &HashSet<String>,
-    scope: &mut Scope,
-    node_position: usize,
-) -> TokenStream {
-    // Collect names actually used in this body to avoid unused variable warnings
-    let used_names = subgraph_helper::collect_subgraph_referenced_names(subgraph);
-
-    // Generate outer-scope bindings (excluding loop-provided body inputs, only for used names)
-    let bindings = subgraph_helper::generate_outer_scope_bindings(
-        outer_scope_inputs,
-        scope_ref_names,
-        body_input_names,
-        Some(&used_names),
-        scope,
-        node_position,
-    );
-
-    // Register subgraph scope
-    subgraph_helper::register_subgraph_scope(subgraph, scope, node_position);
-
-    // Generate forward code
-    let forward_code =
-        subgraph_helper::generate_subgraph_forward_code(subgraph, scope, node_position);
-
-    quote! {
-        #bindings
-        #forward_code
-    }
-}
-
 impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
     fn inputs(&self) -> &[Argument] {
         &self.inputs
@@ -139,36 +101,14 @@ impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
 
         // Body outputs: [cond_out, v_out..., scan_outputs...]
         let cond_out_name = arg_to_ident(&self.config.body.outputs[0]);
-        let loop_out_names: Vec<_> = self
-            .config
-            .body
-            .outputs
-            .iter()
-            .skip(1)
-            .take(num_loop_carried_outputs)
-            .map(arg_to_ident)
-            .collect();
 
         // Initialize loop-carried dependency variables
-        // Only mark as mutable if the variable is actually updated (different name from output)
         let mut init_stmts = quote! {};
-        for (idx, initial_arg) in v_initial_args.iter().enumerate() {
-            let var_name = &loop_var_names[idx];
-            let init_value = arg_to_ident(initial_arg);
-
-            // Check if this variable will be updated (different name means it gets assigned)
-            let needs_mut = idx < num_loop_carried_outputs
-                && loop_out_names.get(idx).is_some_and(|out| var_name != out);
-
-            if needs_mut {
-                init_stmts.extend(quote! {
-                    let mut #var_name = #init_value;
-                });
-            } else {
-                init_stmts.extend(quote! {
-                    let #var_name = #init_value;
-                });
-            }
+        for (var_name, initial_arg) in loop_var_names.iter().zip(v_initial_args.iter().copied()) {
+            let init_value = scope.arg(initial_arg);
+            init_stmts.extend(quote! {
+                let mut #var_name = #init_value;
+            });
         }
 
         // Initialize scan output collectors if any
@@ -207,40 +147,32 @@ impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
             .collect();
 
         // Generate loop body code
-        let node_position = scope.node_position();
-        let body_code = generate_loop_body_code(
+        let (body_code, body_outputs) = subgraph_helper::generate_subgraph_code(
             &self.config.body,
             &outer_scope_inputs,
             &self.config.scope_ref_names,
             &body_input_names,
-            scope.scope(),
-            node_position,
         );
 
-        // Update loop-carried variables after iteration
-        // Skip self-assignments when body passes through a value unchanged (same name)
-        let mut update_vars = quote! {};
-        for (idx, out_name) in loop_out_names.iter().enumerate() {
-            let var_name = &loop_var_names[idx];
-            if var_name != out_name {
-                update_vars.extend(quote! {
-                    #var_name = #out_name;
-                });
-            }
-        }
-
-        // Update condition from body output (skip if same name)
-        let update_cond = if cond_in_name != cond_out_name {
-            let cond_out_ty = &self.config.body.outputs[0].ty;
-            if let ArgType::ScalarTensor(dtype) = cond_out_ty {
+        // Update the condition and the loop-carried variables after iteration, all at once:
+        // an output may be the current value of another loop-carried variable.
+        let mut updated_vars = vec![];
+        let mut new_values = vec![];
+        if cond_in_name != cond_out_name {
+            let cond_out = body_outputs[0].clone();
+            updated_vars.push(&cond_in_name);
+            new_values.push(match &self.config.body.outputs[0].ty {
                 // ScalarTensor -> native bool
-                let convert = on_device_to_native(quote! { #cond_out_name }, dtype);
-                quote! { #cond_in_name = #convert; }
-            } else {
-                quote! { #cond_in_name = #cond_out_name; }
-            }
+                ArgType::ScalarTensor(dtype) => on_device_to_native(cond_out, dtype),
+                _ => cond_out,
+            });
+        }
+        updated_vars.extend(&loop_var_names);
+        new_values.extend_from_slice(&body_outputs[1..=num_loop_carried_outputs]);
+        let update_vars = if updated_vars.len() > 1 {
+            quote! { (#(#updated_vars),*) = (#(#new_values),*); }
         } else {
-            quote! {}
+            quote! { #(#updated_vars = #new_values;)* }
         };
 
         // Collect scan outputs - handle scalar vs tensor
@@ -350,25 +282,23 @@ impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
         };
 
         quote! {
-            #[allow(unused_variables, unused_assignments)]
+            #[allow(unused_variables, unused_assignments, clippy::self_assignment)]
             #output_decls = {
+                let __max_trip_count = #max_count;
+                #cond_init
                 #init_stmts
                 #scan_init
 
                 let mut #iter_name = 0_i64;
-                #cond_init
 
-                while #cond_in_name && #iter_name < #max_count {
+                while #cond_in_name && #iter_name < __max_trip_count {
                     #body_code
 
                     // Collect scan outputs from body outputs (before updating variables)
                     #collect_scans
 
-                    // Update loop-carried variables for next iteration
+                    // Update condition and loop-carried variables for next iteration
                     #update_vars
-
-                    // Update condition from body output for next iteration
-                    #update_cond
                     #iter_name += 1;
                 }
 
diff --git a/crates/burn-onnx/src/burn/node/scan_node.rs b/crates/burn-onnx/src/burn/node/scan_node.rs
index c846c08..3f42791 100644
--- a/crates/burn-onnx/src/burn/node/scan_node.rs
+++ b/crates/burn-onnx/src/burn/node/scan_node.rs
@@ -2,44 +2,6 @@ use super::prelude::*;
 use super::subgraph_helper;
 use std::collections::HashSet;
 
-/// Generate inline code for a scan body subgraph.
-///
-/// Scan body inputs (state variables and scan input elements) are excluded from
-/// outer-scope bindings since they're provided by the scan construct.
-fn generate_scan_body_code(
-    subgraph: &onnx_ir::OnnxGraph,
-    outer_scope_inputs: &[Argument],
-    scope_ref_names: &[String],
-    body_input_names: &HashSet<String>,
-    scope: &mut Scope,
-    node_position: usize,
-) -> TokenStream {
-    // Collect names actually used in this body to avoid unused variable warnings
-    let used_names = subgraph_helper::collect_subgraph_referenced_names(subgraph);
-
-    // Generate outer-scope bindings (excluding scan-provided body inputs, only for used names)
-    let bindings = subgraph_helper::generate_outer_scope_bindings(
-        outer_scope_inputs,
-        scope_ref_names,
-        body_input_names,
-        Some(&used_names),
-        scope,
-        node_position,
-    );
-
-    // Register subgraph scope
-    subgraph_helper::register_subgraph_scope(subgraph, scope, node_position);
-
-    // Generate forward code
-    let forward_code =
-        subgraph_helper::generate_subgraph_forward_code(subgraph, scope, node_position);
-
-    quote! {
-        #bindings
-        #forward_code
-    }
-}
-
 impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
     fn inputs(&self) -> &[Argument] {
         &self.inputs
@@ -93,7 +55,7 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
 
         for (idx, initial_arg) in initial_state_vars.iter().enumerate() {
             let var_name = &state_var_names[idx];
-            let init_value = arg_to_ident(initial_arg);
+            let init_value = scope.arg(initial_arg);
             init_stmts.extend(quote! {
                 let mut #var_name = #init_value;
             });
@@ -177,42 +139,32 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
             .collect();
 
         // Generate body code
-        let node_position = scope.node_position();
-        let body_code = generate_scan_body_code(
+        let (body_code, body_outputs) = subgraph_helper::generate_subgraph_code(
             &self.config.body,
             &outer_scope_inputs,
             &self.config.scope_ref_names,
             &body_input_names,
-            scope.scope(),
-            node_position,
         );
 
-        // Update state variables and collect scan outputs
         let mut update_stmts = quote! {};
 
-        // Update state variables (clone if there are scan outputs)
-        let should_clone = num_scan_outputs > 0;
-        for (idx, var_name) in state_var_names.iter().enumerate() {
-            let out_name = arg_to_ident(&self.config.body.outputs[idx]);
-            if should_clone {
-                update_stmts.extend(quote! {
-                    #var_name = #out_name.clone();
-                });
-            } else {
-                update_stmts.extend(quote! {
-                    #var_name = #out_name;
-                });
-            }
-        }
-
-        // Collect scan outputs
+        // Collect scan outputs (before updating the state variables)
         for (idx, collector) in scan_output_collectors.iter().enumerate() {
             let body_out_name = arg_to_ident(&self.config.body.outputs[num_state_vars + idx]);
             update_stmts.extend(quote! {
-                #collector.push(#body_out_name);
+                #collector.push(#body_out_name.clone());
             });
         }
 
+        // Update state variables, all at once: an output may be the current value of
+        // another state variable
+        let new_values = &body_outputs[..num_state_vars];
+        update_stmts.extend(if num_state_vars > 1 {
+            quote! { (#(#state_var_names),*) = (#(#new_values),*); }
+        } else {
+            quote! { #(#state_var_names = #new_values;)* }
+        });
+
         // Finalize scan outputs: reverse if needed, then stack into tensors
         let mut finalize_stmts = quote! {};
         let final_scan_output_names: Vec<_> = (0..num_scan_outputs)
diff --git a/crates/burn-onnx/src/burn/node/subgraph_helper.rs b/crates/burn-onnx/src/burn/node/subgraph_helper.rs
index 640c4ab..7bf3983 100644
--- a/crates/burn-onnx/src/burn/node/subgraph_helper.rs
+++ b/crates/burn-onnx/src/burn/node/subgraph_helper.rs
@@ -7,7 +7,7 @@ use std::collections::HashSet;
 ///
 /// This is used to filter outer-scope bindings so we only generate bindings
 /// for variables that are actually used within a specific subgraph branch.
-pub(super) fn collect_subgraph_referenced_names(subgraph: &onnx_ir::OnnxGraph) -> HashSet<String> {
+fn collect_subgraph_referenced_names(subgraph: &onnx_ir::OnnxGraph) -> HashSet<String> {
     let mut names = HashSet::new();
 
     // Collect all node input names
@@ -33,55 +33,49 @@ pub(super) fn collect_subgraph_referenced_names(subgraph: &onnx_ir::OnnxGraph) -
 /// Generate outer-scope reference bindings for a subgraph.
 ///
 /// Creates `let` bindings that map outer-scope values (from the parent graph)
-/// to the names used within the subgraph.
+/// to the names used within the subgraph. The outer value is always cloned, since
+/// other branches, later iterations or later nodes may still need it; the bound name
+/// is registered in the subgraph's own scope.
 ///
 /// # Parameters
 /// - `outer_scope_inputs`: The node inputs that provide values for outer-scope references
 /// - `scope_ref_names`: The original sanitized ONNX names that the subgraph uses
 /// - `exclude_names`: Names to exclude from binding generation (e.g., loop-provided variables)
-/// - `used_names`: Optional set of names actually used in this subgraph. If provided, only
-///   bindings for names in this set will be generated (avoids unused variable warnings).
-/// - `scope`: The parent scope for accessing outer values
-/// - `node_position`: The position of the control flow node in the graph
-pub(super) fn generate_outer_scope_bindings(
+/// - `used_names`: The names actually used in this subgraph. Only bindings for names in
+///   this set will be generated (avoids unused variable warnings).
+/// - `scope`: The scope of the subgraph
+fn generate_outer_scope_bindings(
     outer_scope_inputs: &[Argument],
     scope_ref_names: &[String],
     exclude_names: &HashSet<String>,
-    used_names: Option<&HashSet<String>>,
+    used_names: &HashSet<String>,
     scope: &mut Scope,
-    node_position: usize,
 ) -> TokenStream {
     let mut bindings = quote! {};
 
-    for (idx, scope_ref_name) in scope_ref_names.iter().enumerate() {
+    for (scope_ref_name, outer_input) in scope_ref_names.iter().zip(outer_scope_inputs) {
         // Skip names that should be excluded (e.g., loop-provided variables)
-        if exclude_names.contains(scope_ref_name) {
+        // and names not actually used in this subgraph
+        if exclude_names.contains(scope_ref_name) || !used_names.contains(scope_ref_name) {
             continue;
         }
 
-        // Skip names not actually used in this subgraph (if used_names filter is provided)
-        if let Some(used) = used_names
-            && !used.contains(scope_ref_name)
-        {
-            continue;
-        }
-
-        if let Some(outer_input) = outer_scope_inputs.get(idx) {
-            let var_name = quote::format_ident!("{}", scope_ref_name);
-            let outer_var = scope.at_position(node_position).arg(outer_input);
-
-            match &outer_input.ty {
-                ArgType::Tensor(_) | ArgType::ScalarTensor(_) => {
-                    bindings.extend(quote! {
-                        let #var_name = #outer_var.clone();
-                    });
-                }
-                ArgType::ScalarNative(_) => {
-                    bindings.extend(quote! {
-                        let #var_name = #outer_var;
-                    });
-                }
-                _ => {}
+        let var_name = quote::format_ident!("{}", scope_ref_name);
+        let outer_var = arg_to_ident(outer_input);
+
+        match &outer_input.ty {
+            ArgType::Tensor(_) | ArgType::ScalarTensor(_) => {
+                bindings.extend(quote! {
+                    let #var_name = #outer_var.clone();
+                });
+                let mut bound = outer_input.clone();
+                bound.name = scope_ref_name.clone();
+                scope.tensor_register_variable(&bound, 0);
+            }
+            ArgType::ScalarNative(_) | ArgType::Shape(_) => {
+                bindings.extend(quote! {
+                    let #var_name = #outer_var;
+                });
             }
         }
     }
@@ -93,26 +87,20 @@ pub(super) fn generate_outer_scope_bindings(
 ///
 /// This registers all subgraph tensors in the scope so they can be properly
 /// referenced and cloned during code generation.
-pub(super) fn register_subgraph_scope(
-    subgraph: &onnx_ir::OnnxGraph,
-    scope: &mut Scope,
-    node_position: usize,
-) {
+fn register_subgraph_scope(subgraph: &onnx_ir::OnnxGraph, scope: &mut Scope) {
     // Register subgraph inputs in scope
     for input in &subgraph.inputs {
         if matches!(&input.ty, ArgType::Tensor(_) | ArgType::ScalarTensor(_)) {
-            scope.tensor_register_variable(input, node_position);
+            scope.tensor_register_variable(input, 0);
         }
     }
 
     // Build scope for subgraph nodes: register outputs and future uses
     for (idx, node) in subgraph.nodes.iter().enumerate() {
-        let subgraph_node_pos = node_position + idx + 1;
-
         // Register node outputs
         for output in NodeCodegen::outputs(node) {
             if matches!(&output.ty, ArgType::Tensor(_) | ArgType::ScalarTensor(_)) {
-                scope.tensor_register_variable(output, subgraph_node_pos);
+                scope.tensor_register_variable(output, idx + 1);
             }
         }
 
@@ -127,32 +115,56 @@ pub(super) fn register_subgraph_scope(
             .filter(|arg| arg.is_dynamic() || arg.is_constant())
         {
             if matches!(&input.ty, ArgType::Tensor(_) | ArgType::ScalarTensor(_)) {
-                scope.tensor_register_future_use(input, subgraph_node_pos - 1);
+                scope.tensor_register_future_use(input, idx);
             }
         }
     }
 
     // Register future uses for subgraph outputs
     for output in &subgraph.outputs {
-        if let ArgType::Tensor(_) = &output.ty {
-            scope.tensor_register_future_use(output, node_position + subgraph.nodes.len());
+        if matches!(&output.ty, ArgType::Tensor(_) | ArgType::ScalarTensor(_)) {
+            scope.tensor_register_future_use(output, subgraph.nodes.len());
         }
     }
 }
 
-/// Generate forward code for all nodes in a subgraph.
-pub(super) fn generate_subgraph_forward_code(
+/// Generate inline code for a subgraph: outer-scope bindings followed by its nodes.
+///
+/// The subgraph gets a scope of its own, so that names of sibling branches, whose positions
+/// overlap, don't interfere with each other.
+///
+/// Returns the code and one expression per subgraph output, to be used once each and in order.
+pub(super) fn generate_subgraph_code(
     subgraph: &onnx_ir::OnnxGraph,
-    scope: &mut Scope,
-    node_position: usize,
-) -> TokenStream {
-    let mut code = quote! {};
+    outer_scope_inputs: &[Argument],
+    scope_ref_names: &[String],
+    exclude_names: &HashSet<String>,
+) -> (TokenStream, Vec<TokenStream>) {
+    let mut scope = Scope::nested();
+
+    // Collect names actually used in this subgraph to avoid unused variable warnings
+    let used_names = collect_subgraph_referenced_names(subgraph);
+
+    let mut code = generate_outer_scope_bindings(
+        outer_scope_inputs,
+        scope_ref_names,
+        exclude_names,
+        &used_names,
+        &mut scope,
+    );
+
+    register_subgraph_scope(subgraph, &mut scope);
 
     for (idx, node) in subgraph.nodes.iter().enumerate() {
-        let mut scope_at_pos = scope.at_position(node_position + idx + 1);
-        let node_code = NodeCodegen::forward(node, &mut scope_at_pos);
-        code.extend(node_code);
+        code.extend(NodeCodegen::forward(node, &mut scope.at_position(idx)));
     }
 
-    code
+    let mut scope = scope.at_position(subgraph.nodes.len());
+    let outputs = subgraph
+        .outputs
+        .iter()
+        .map(|output| scope.arg(output))
+        .collect();
+
+    (code, outputs)
 }
diff --git a/crates/burn-onnx/src/burn/scope.rs b/crates/burn-onnx/src/burn/scope.rs
index f8e3b9f..9fb8426 100644
--- a/crates/burn-onnx/src/burn/scope.rs
+++ b/crates/burn-onnx/src/burn/scope.rs
@@ -9,6 +9,8 @@ use super::node_traits::arg_to_ident;
 #[derive(Clone, Debug, Default)]
 pub struct Scope {
     variables: HashMap<String, TensorVariable>,
+    /// Whether unknown variables belong to an enclosing scope and have to be cloned.
+    nested: bool,
 }
 
 #[derive(Clone, Debug, new)]
@@ -18,6 +20,17 @@ struct TensorVariable {
 }
 
 impl Scope {
+    /// Create the scope of a subgraph.
+    ///
+    /// Variables that are not registered in it belong to the enclosing graph, which may still
+    /// need them, so every use of them is a clone.
+    pub fn nested() -> Self {
+        Self {
+            nested: true,
+            ..Default::default()
+        }
+    }
+
     /// Declare a new tensor variable.
     pub fn tensor_register_variable(&mut self, arg: &Argument, node_position: usize) {
         if let Some(variable) = self.variables.get_mut(&arg.name) {
@@ -42,7 +55,7 @@ impl Scope {
             if node_position >= variable.node_position {
                 variable.references += 1;
             }
-        } else {
+        } else if !self.nested {
             // Variable doesn't exist yet - register it (e.g., from nested subgraph)
             self.variables
                 .insert(arg.name.clone(), TensorVariable::new(1, node_position));
@@ -73,6 +86,11 @@ impl Scope {
                     #name
                 }
             }
+        } else if self.nested {
+            // Variable of an enclosing scope
+            quote! {
+                #name.clone()
+            }
         } else {
             // Variable doesn't exist in scope (e.g., from nested subgraph) - just use it
             quote! {
@@ -164,17 +182,4 @@ impl<'a> ScopeAtPosition<'a> {
             }
         }
     }
-
-    /// Get a reference to the underlying scope (for advanced usage)
-    ///
-    /// This is needed for complex nodes that need to manipulate the scope directly,
-    /// such as if/loop/scan nodes that need to register variables for subgraphs.
-    pub fn scope(&mut self) -> &mut Scope {
-        self.scope
-    }
-
-    /// Get the current node position
-    pub fn node_position(&self) -> usize {
-        self.node_position
-    }
 }
-- 
2.43.0


From 206bff3973bbeb4106f7d25542ee680d2d032554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:11 +0000
Subject: [PATCH 14/83] fix: return a value several times and keep scalar
 outputs that nodes still use

---
 crates/burn-onnx/src/burn/argument_helpers.rs | 16 ++++++++++++++--
 crates/burn-onnx/src/burn/graph.rs            | 15 ++++++++++++---
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/crates/burn-onnx/src/burn/argument_helpers.rs b/crates/burn-onnx/src/burn/argument_helpers.rs
index 06af842..4c6666e 100644
--- a/crates/burn-onnx/src/burn/argument_helpers.rs
+++ b/crates/burn-onnx/src/burn/argument_helpers.rs
@@ -159,8 +159,20 @@ pub fn codegen_return_expr(outputs: &[Argument]) -> TokenStream {
         let name = arg_ident(&outputs[0]);
         quote! { #name }
     } else {
-        let names: Vec<_> = outputs.iter().map(arg_ident).collect();
-        quote! { (#(#names),*) }
+        // A value returned several times has to be cloned, except for the last time
+        let values: Vec<_> = outputs
+            .iter()
+            .enumerate()
+            .map(|(i, output)| {
+                let name = arg_ident(output);
+                if output.ty.is_tensor() && outputs[i + 1..].iter().any(|o| o.name == output.name) {
+                    quote! { #name.clone() }
+                } else {
+                    quote! { #name }
+                }
+            })
+            .collect();
+        quote! { (#(#values),*) }
     }
 }
 
diff --git a/crates/burn-onnx/src/burn/graph.rs b/crates/burn-onnx/src/burn/graph.rs
index 71704b3..e2ea195 100644
--- a/crates/burn-onnx/src/burn/graph.rs
+++ b/crates/burn-onnx/src/burn/graph.rs
@@ -279,7 +279,10 @@ impl BurnGraph {
         // Register graph tensor output with the last node position
         self.graph_output_args
             .iter()
-            .filter(|arg| matches!(arg.ty, ArgType::Tensor(_) | ArgType::ScalarTensor(_)))
+            .filter(|arg| {
+                matches!(arg.ty, ArgType::Tensor(_) | ArgType::ScalarTensor(_))
+                    || self.boundary_output_conversions.contains_key(&arg.name)
+            })
             .for_each(|arg| {
                 self.scope.tensor_register_future_use(arg, self.nodes.len());
             });
@@ -579,8 +582,14 @@ impl BurnGraph {
         // Insert ScalarTensor -> ScalarNative conversions at graph boundary.
         // Internal nodes produce Tensor<B, 1> but the graph signature expects native types.
         let mut boundary_conversions = quote! {};
-        for arg in &self.graph_output_args {
-            if let Some(dtype) = self.boundary_output_conversions.get(&arg.name) {
+        for (i, arg) in self.graph_output_args.iter().enumerate() {
+            // A value returned several times is converted once
+            let converted = self.graph_output_args[..i]
+                .iter()
+                .any(|o| o.name == arg.name);
+            if let Some(dtype) = self.boundary_output_conversions.get(&arg.name)
+                && !converted
+            {
                 let name = crate::burn::arg_ident(arg);
                 let convert = crate::burn::on_device_to_native(quote! { #name }, dtype);
                 boundary_conversions.extend(quote! {
-- 
2.43.0


From dc071cc9e5bf9cf3c26dc78de2b692d11cd973f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:11 +0000
Subject: [PATCH 15/83] fix: unsqueeze scalars to any rank

---
 crates/burn-onnx/src/burn/node/unsqueeze.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/unsqueeze.rs b/crates/burn-onnx/src/burn/node/unsqueeze.rs
index 9b5251a..917a797 100644
--- a/crates/burn-onnx/src/burn/node/unsqueeze.rs
+++ b/crates/burn-onnx/src/burn/node/unsqueeze.rs
@@ -55,6 +55,13 @@ impl NodeCodegen for onnx_ir::unsqueeze::UnsqueezeNode {
                     _ => panic!("Unsupported tensor dtype: {:?}", output_tensor.dtype),
                 };
 
+                if input_ty.is_scalar_tensor() {
+                    // Held as a one-element tensor of rank 1: every output dim is 1
+                    return quote! {
+                        let #output: #output_type = #input.unsqueeze::<#output_rank>();
+                    };
+                }
+
                 quote! {
                     let #output: #output_type = #input.unsqueeze_dims::<#output_rank>(&#axes);
                 }
@@ -69,30 +76,30 @@ impl NodeCodegen for onnx_ir::unsqueeze::UnsqueezeNode {
                     dtype if dtype.is_int() || dtype.is_uint() => {
                         // Cast to i64 for TensorData, then from_data_dtype converts to target dtype
                         quote! {
-                            Tensor::<B, #output_rank, Int>::from_data_dtype(
+                            Tensor::<B, 1, Int>::from_data_dtype(
                                 burn::tensor::TensorData::from([#scalar_name as i64]),
                                 &self.device,
                                 #dtype_tokens
-                            ).unsqueeze()
+                            ).unsqueeze::<#output_rank>()
                         }
                     }
                     dtype if dtype.is_float() => {
                         // Cast to f64 for TensorData, then from_data_dtype converts to target dtype
                         quote! {
-                            Tensor::<B, #output_rank>::from_data_dtype(
+                            Tensor::<B, 1>::from_data_dtype(
                                 burn::tensor::TensorData::from([#scalar_name as f64]),
                                 &self.device,
                                 #dtype_tokens
-                            ).unsqueeze()
+                            ).unsqueeze::<#output_rank>()
                         }
                     }
                     dtype if dtype.is_bool() => {
                         quote! {
-                            Tensor::<B, #output_rank, Bool>::from_data_dtype(
+                            Tensor::<B, 1, Bool>::from_data_dtype(
                                 burn::tensor::TensorData::from([#scalar_name != 0]),
                                 &self.device,
                                 #dtype_tokens
-                            ).unsqueeze()
+                            ).unsqueeze::<#output_rank>()
                         }
                     }
                     _ => panic!("Unsupported tensor dtype: {:?}", output_tensor.dtype),
-- 
2.43.0


From fad24e72edbb9e31418ea483e094e715c69788e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:11 +0000
Subject: [PATCH 16/83] fix: power of integer scalars and of tensors with
 scalar tensors

---
 crates/burn-onnx/src/burn/node/pow.rs | 35 ++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/pow.rs b/crates/burn-onnx/src/burn/node/pow.rs
index 6d16afb..2bbea34 100644
--- a/crates/burn-onnx/src/burn/node/pow.rs
+++ b/crates/burn-onnx/src/burn/node/pow.rs
@@ -49,8 +49,9 @@ impl NodeCodegen for onnx_ir::pow::PowNode {
 
         let function = match (power_type, &lhs_arg.ty, &rhs_arg.ty) {
             (PowerType::Int, lhs_ty, rhs_ty) if lhs_ty.is_on_device() && rhs_ty.is_on_device() => {
-                let lhs_rank = lhs_ty.rank();
-                let rhs_rank = rhs_ty.rank();
+                // A scalar tensor is held with rank 1
+                let lhs_rank = lhs_ty.rank().max(1);
+                let rhs_rank = rhs_ty.rank().max(1);
                 if lhs_rank == rhs_rank {
                     quote! { #lhs.powi(#rhs) }
                 } else if lhs_rank > rhs_rank {
@@ -66,8 +67,9 @@ impl NodeCodegen for onnx_ir::pow::PowNode {
             (PowerType::Float, lhs_ty, rhs_ty)
                 if lhs_ty.is_on_device() && rhs_ty.is_on_device() =>
             {
-                let lhs_rank = lhs_ty.rank();
-                let rhs_rank = rhs_ty.rank();
+                // A scalar tensor is held with rank 1
+                let lhs_rank = lhs_ty.rank().max(1);
+                let rhs_rank = rhs_ty.rank().max(1);
                 if lhs_rank == rhs_rank {
                     quote! { #lhs.powf(#rhs) }
                 } else if lhs_rank > rhs_rank {
@@ -140,6 +142,31 @@ impl NodeCodegen for onnx_ir::pow::PowNode {
                 };
                 quote! { #base.powi(#rhs) }
             }
+            (PowerType::Int, ArgType::ScalarNative(dtype), rhs_ty)
+                if rhs_ty.is_on_device() && dtype.is_int() =>
+            {
+                let dtype_tokens = dtype.to_tokens();
+                let rhs_rank = rhs_ty.rank();
+                let base = if rhs_rank > 1 {
+                    let dims: Vec<isize> = (0..rhs_rank - 1).map(|i| i as isize).collect();
+                    quote! {
+                        Tensor::<B, 1, Int>::from_data_dtype(
+                            burn::tensor::TensorData::from([#lhs as i64]),
+                            &*self.device,
+                            #dtype_tokens
+                        ).unsqueeze_dims(&[#(#dims),*])
+                    }
+                } else {
+                    quote! {
+                        Tensor::<B, 1, Int>::from_data_dtype(
+                            burn::tensor::TensorData::from([#lhs as i64]),
+                            &*self.device,
+                            #dtype_tokens
+                        )
+                    }
+                };
+                quote! { #base.powi(#rhs) }
+            }
             // on_device + ScalarNative
             (PowerType::Int, _, ArgType::ScalarNative(_)) => quote! { #lhs.powi_scalar(#rhs) },
             (PowerType::Float, _, ArgType::ScalarNative(_)) => quote! { #lhs.powf_scalar(#rhs) },
-- 
2.43.0


From 28cd15bbaa921b20be0250b6192a2e6f4c931a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:11 +0000
Subject: [PATCH 17/83] fix: clamp the start and end of Shape to the rank

---
 crates/onnx-ir/src/node/shape.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/crates/onnx-ir/src/node/shape.rs b/crates/onnx-ir/src/node/shape.rs
index 1409e97..421acb8 100644
--- a/crates/onnx-ir/src/node/shape.rs
+++ b/crates/onnx-ir/src/node/shape.rs
@@ -124,14 +124,9 @@ impl NodeProcessor for ShapeProcessor {
             end_dim += rank as i64;
         }
 
-        // TODO: Missing clamping to [0, rank] as per ONNX spec - out-of-bounds positive values are not clamped.
-        // The spec explicitly states: "Values are clamped to [0, rank]" but implementation only normalizes negative indices.
-        // This could lead to panics or incorrect results when start/end exceed rank.
-        // Should add: start_dim = start_dim.max(0).min(rank); end_dim = end_dim.max(0).min(rank);
-
-        // Calculate dimensions
-        let start = start_dim as usize;
-        let end = end_dim as usize;
+        // Values are clamped to [0, rank], and an inverted range is empty
+        let start = start_dim.clamp(0, rank as i64) as usize;
+        let end = (end_dim.clamp(0, rank as i64) as usize).max(start);
 
         let config = ShapeConfig { start, end };
         Ok(config)
-- 
2.43.0


From 4d6fa89d29a01ef24cc513fec407fb0fded74b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:11 +0000
Subject: [PATCH 18/83] fix: fold dimensions gathered from a Shape with start
 and end

---
 crates/onnx-ir/src/simplify/constant_shape.rs | 36 +++++++------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/crates/onnx-ir/src/simplify/constant_shape.rs b/crates/onnx-ir/src/simplify/constant_shape.rs
index b2e799d..11a2b48 100644
--- a/crates/onnx-ir/src/simplify/constant_shape.rs
+++ b/crates/onnx-ir/src/simplify/constant_shape.rs
@@ -178,34 +178,17 @@ fn extract_constant_shape_dim(
     }
 
     // The Shape node's input must have a fully known static shape (all dims concrete)
-    let static_shape = shape_node.inputs[0].ty.static_shape_known()?;
-
-    // Account for Shape's start/end attributes (opset 15+)
-    let rank = static_shape.len();
-    let mut start = shape_node
-        .attrs
-        .get("start")
-        .map(|v| v.clone().into_i64())
-        .unwrap_or(0);
-    if start < 0 {
-        start += rank as i64;
-    }
-    let start = start.max(0) as usize;
+    let shape_values = extract_full_static_shape(shape_node)?;
 
     // Gather's index (input[1]) must be a constant scalar
     let mut index_val = gather.inputs[1].value()?.scalar_i64().ok()?;
 
     // Handle negative indices (relative to the sliced shape length)
-    let sliced_len = static_shape.len() - start;
     if index_val < 0 {
-        index_val += sliced_len as i64;
-    }
-    if index_val < 0 || index_val as usize >= sliced_len {
-        return None;
+        index_val += shape_values.len() as i64;
     }
 
-    let dim_idx = start + index_val as usize;
-    Some(static_shape[dim_idx] as i64)
+    shape_values.get(usize::try_from(index_val).ok()?).copied()
 }
 
 /// Extract the full static shape from a Shape node, accounting for start/end attributes.
@@ -231,7 +214,7 @@ fn extract_full_static_shape(shape_node: &RawNode) -> Option<Vec<i64>> {
     if end < 0 {
         end += rank as i64;
     }
-    let end = (end as usize).min(rank);
+    let end = (end.max(0) as usize).min(rank);
 
     if start >= end {
         return Some(vec![]);
@@ -318,9 +301,14 @@ fn extract_constant_shape_slice(
         end += shape_len;
     }
 
-    // Clamp to bounds
-    start = start.clamp(0, shape_len);
-    end = end.clamp(0, shape_len);
+    // Clamp to bounds (a negative step starts at the last element at most, and may run past the first)
+    if step > 0 {
+        start = start.clamp(0, shape_len);
+        end = end.clamp(0, shape_len);
+    } else {
+        start = start.clamp(-1, shape_len - 1);
+        end = end.clamp(-1, shape_len - 1);
+    }
 
     // Compute the sliced result
     let result: Vec<i64> = if step > 0 {
-- 
2.43.0


From cebb718d12979d8f108cbacad670c66639e56fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:11 +0000
Subject: [PATCH 19/83] fix: keep every random node when merging common
 subexpressions

---
 crates/onnx-ir/src/simplify/redundant_nodes.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/simplify/redundant_nodes.rs b/crates/onnx-ir/src/simplify/redundant_nodes.rs
index ae07372..b510b44 100644
--- a/crates/onnx-ir/src/simplify/redundant_nodes.rs
+++ b/crates/onnx-ir/src/simplify/redundant_nodes.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 
-use crate::ir::{AttributeValue, RawNode, ValueSource};
+use crate::ir::{AttributeValue, NodeType, RawNode, ValueSource};
 
 /// Eliminate redundant nodes (common subexpression elimination).
 ///
@@ -58,6 +58,19 @@ pub(crate) fn eliminate_redundant_nodes(mut nodes: Vec<RawNode>) -> Vec<RawNode>
 ///
 /// Nodes with graph-valued attributes get a unique key (not eligible for CSE).
 fn cse_key(node: &RawNode) -> String {
+    // Every random node draws its own values
+    if matches!(
+        node.node_type,
+        NodeType::RandomNormal
+            | NodeType::RandomNormalLike
+            | NodeType::RandomUniform
+            | NodeType::RandomUniformLike
+            | NodeType::Bernoulli
+            | NodeType::Multinomial
+    ) {
+        return format!("__unique__:{}", node.name);
+    }
+
     // Skip nodes with graph attributes (too complex to compare)
     for value in node.attrs.values() {
         if matches!(
-- 
2.43.0


From 6632fcf8922f41b4ef1d1c61e19054c02e3f695b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:11 +0000
Subject: [PATCH 20/83] fix: eliminate identity elements only when type and
 shape stay the same

---
 .../onnx-ir/src/simplify/identity_element.rs  | 51 ++++++++++++++++---
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/crates/onnx-ir/src/simplify/identity_element.rs b/crates/onnx-ir/src/simplify/identity_element.rs
index 06fa5b9..00bd5fe 100644
--- a/crates/onnx-ir/src/simplify/identity_element.rs
+++ b/crates/onnx-ir/src/simplify/identity_element.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 
-use crate::ir::{NodeType, RawNode, TensorDataExt};
+use crate::ir::{ArgType, Argument, NodeType, RawNode, TensorDataExt};
 
 /// Eliminate binary ops where one operand is an identity element.
 ///
@@ -14,7 +14,8 @@ use crate::ir::{NodeType, RawNode, TensorDataExt};
 /// When detected, rewires consumers to use the non-identity input directly.
 /// The eliminated node becomes dead and is cleaned up by dead node elimination.
 pub(crate) fn eliminate_identity_elements(mut nodes: Vec<RawNode>) -> Vec<RawNode> {
-    let mut rename: HashMap<String, String> = HashMap::new();
+    // output of an eliminated node -> the value that takes its place
+    let mut rename: HashMap<String, Argument> = HashMap::new();
 
     for node in &nodes {
         if node.inputs.len() != 2 || node.outputs.len() != 1 {
@@ -62,16 +63,18 @@ pub(crate) fn eliminate_identity_elements(mut nodes: Vec<RawNode>) -> Vec<RawNod
             _ => None,
         };
 
-        if let Some(keep_idx) = passthrough {
-            let keep_name = &node.inputs[keep_idx].name;
+        if let Some(keep_idx) = passthrough
+            && keeps_type_and_shape(node, keep_idx)
+        {
+            let keep = &node.inputs[keep_idx];
             log::debug!(
                 "Identity element elimination: {:?} '{}' (output '{}' -> input '{}')",
                 node.node_type,
                 node.name,
                 node.outputs[0].name,
-                keep_name,
+                keep.name,
             );
-            rename.insert(node.outputs[0].name.clone(), keep_name.clone());
+            rename.insert(node.outputs[0].name.clone(), keep.clone());
         }
     }
 
@@ -86,8 +89,8 @@ pub(crate) fn eliminate_identity_elements(mut nodes: Vec<RawNode>) -> Vec<RawNod
 
     for node in &mut nodes {
         for input in &mut node.inputs {
-            if let Some(new_name) = rename.get(&input.name) {
-                input.name = new_name.clone();
+            if let Some(kept) = rename.get(&input.name) {
+                *input = kept.clone();
             }
         }
     }
@@ -95,6 +98,38 @@ pub(crate) fn eliminate_identity_elements(mut nodes: Vec<RawNode>) -> Vec<RawNod
     nodes
 }
 
+/// Check if the result of a binary node has the type and shape of its input `keep_idx`, that is,
+/// whether the constant on the other side does not broadcast it.
+fn keeps_type_and_shape(node: &RawNode, keep_idx: usize) -> bool {
+    let keep = &node.inputs[keep_idx].ty;
+    let output = &node.outputs[0].ty;
+    if core::mem::discriminant(keep) != core::mem::discriminant(output)
+        || keep.rank() != output.rank()
+    {
+        return false;
+    }
+
+    let Some(data) = node.inputs[1 - keep_idx].value() else {
+        return false;
+    };
+    if data.shape.iter().all(|&d| d == 1) {
+        return true;
+    }
+
+    match keep {
+        ArgType::Shape(len) => data.shape.as_slice() == [*len],
+        ty => ty.static_shape_known().is_some_and(|shape| {
+            data.shape.len() <= shape.len()
+                && data
+                    .shape
+                    .iter()
+                    .rev()
+                    .zip(shape.iter().rev())
+                    .all(|(&c, &d)| c == 1 || c == d)
+        }),
+    }
+}
+
 /// Check if an argument is a constant where all elements equal `target`.
 ///
 /// Works for scalar constants and broadcast-compatible constant tensors.
-- 
2.43.0


From 94726bbc69350d788498409d3d253b94d9a7e7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:11 +0000
Subject: [PATCH 21/83] fix: keep the QK MatMul and reject vector scales when
 coalescing attention

---
 .../src/simplify/coalesce_attention.rs        | 48 +++++++++++++------
 crates/onnx-ir/src/simplify/mod.rs            |  8 ++--
 2 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/crates/onnx-ir/src/simplify/coalesce_attention.rs b/crates/onnx-ir/src/simplify/coalesce_attention.rs
index c4c1996..6799a25 100644
--- a/crates/onnx-ir/src/simplify/coalesce_attention.rs
+++ b/crates/onnx-ir/src/simplify/coalesce_attention.rs
@@ -47,15 +47,23 @@ pub(crate) fn coalesce_attention(mut nodes: Vec<RawNode>) -> Vec<RawNode> {
         }
     }
 
-    // Apply replacements
+    // Apply replacements. A corrective Transpose is an additional node: the QK MatMul it
+    // precedes may still be needed (as a graph output) and is left to dead node elimination.
+    let mut insertions: Vec<(usize, RawNode)> = Vec::new();
     for (idx, replacement) in replacements {
         if replacement.node_type == NodeType::Attention {
             log::info!(
                 "Simplification: coalescing SDPA pattern into Attention node '{}'",
                 replacement.name,
             );
+            nodes[idx] = replacement;
+        } else {
+            insertions.push((idx, replacement));
         }
-        nodes[idx] = replacement;
+    }
+    insertions.sort_by_key(|(idx, _)| *idx);
+    for (idx, inserted) in insertions.into_iter().rev() {
+        nodes.insert(idx, inserted);
     }
 
     nodes
@@ -65,7 +73,8 @@ pub(crate) fn coalesce_attention(mut nodes: Vec<RawNode>) -> Vec<RawNode> {
 ///
 /// Returns a list of `(node_index, replacement_node)` pairs if the pattern matches.
 /// Standard pattern produces one replacement (Attention node at final MatMul index).
-/// Pre-scaled pattern produces two (corrective K Transpose + Attention node).
+/// Pre-scaled pattern produces two (corrective K Transpose, to be inserted before the QK
+/// MatMul, + Attention node).
 fn try_match_sdpa(
     softmax_idx: usize,
     nodes: &[RawNode],
@@ -257,7 +266,7 @@ fn try_extract_scale<'a>(
     match node.node_type {
         NodeType::Div => {
             // Div(x, constant) -> scale = 1/constant
-            let divisor = node.inputs[1].value()?.scalar_f64().ok()?;
+            let divisor = constant_scalar(&node.inputs[1])?;
             if divisor == 0.0 {
                 return None;
             }
@@ -266,15 +275,11 @@ fn try_extract_scale<'a>(
         NodeType::Mul => {
             // Mul(x, constant) or Mul(constant, x) -> scale = constant
             // Try input[1] as constant first (more common)
-            if let Some(data) = node.inputs[1].value()
-                && let Ok(val) = data.scalar_f64()
-            {
+            if let Some(val) = constant_scalar(&node.inputs[1]) {
                 return Some((&node.inputs[0].name, val));
             }
             // Try input[0] as constant
-            if let Some(data) = node.inputs[0].value()
-                && let Ok(val) = data.scalar_f64()
-            {
+            if let Some(val) = constant_scalar(&node.inputs[0]) {
                 return Some((&node.inputs[1].name, val));
             }
             None
@@ -283,6 +288,15 @@ fn try_extract_scale<'a>(
     }
 }
 
+/// Get the value of a constant with exactly one element.
+fn constant_scalar(arg: &Argument) -> Option<f64> {
+    let data = arg.value()?;
+    if data.shape.iter().product::<usize>() != 1 {
+        return None;
+    }
+    data.scalar_f64().ok()
+}
+
 /// Build an Attention RawNode that replaces the final MatMul.
 fn build_attention_node(
     final_matmul: &RawNode,
@@ -429,7 +443,7 @@ fn try_standard_k_pattern(
 /// - Q_arg is Q after head-split transpose [B,H,S,D]
 /// - K_arg is K corrected to [B,H,S,D] via a new Transpose node
 /// - effective_scale is sqrt_scale^2 if extractable, None for default
-/// - extra_replacements contains the corrective Transpose placed at qk_matmul_idx
+/// - extra_replacements contains the corrective Transpose to insert before qk_matmul_idx
 #[allow(clippy::type_complexity)]
 fn try_prescaled_qk_pattern(
     qk_matmul: &RawNode,
@@ -465,6 +479,13 @@ fn try_prescaled_qk_pattern(
         return None;
     }
 
+    // A constant has to be a single value, not one per column
+    if q_mul.inputs[scalar_idx].value().is_some()
+        && constant_scalar(&q_mul.inputs[scalar_idx]).is_none()
+    {
+        return None;
+    }
+
     // Q's tensor input should come from a Transpose
     let q_tensor_name = &q_mul.inputs[q_tensor_idx].name;
     let q_transpose_idx = *producer.get(q_tensor_name.as_str())?;
@@ -524,10 +545,7 @@ fn try_prescaled_qk_pattern(
     };
 
     // Extract scale: effective_scale = sqrt_scale^2
-    let prescaled_scale = q_mul.inputs[scalar_idx]
-        .value()
-        .and_then(|data| data.scalar_f64().ok())
-        .map(|v| v * v);
+    let prescaled_scale = constant_scalar(&q_mul.inputs[scalar_idx]).map(|v| v * v);
 
     Some((
         q_arg,
diff --git a/crates/onnx-ir/src/simplify/mod.rs b/crates/onnx-ir/src/simplify/mod.rs
index b96ea32..9168658 100644
--- a/crates/onnx-ir/src/simplify/mod.rs
+++ b/crates/onnx-ir/src/simplify/mod.rs
@@ -97,8 +97,7 @@ pub(crate) fn simplify_graph(
         // Dead node elimination (cleans up nodes orphaned by pattern passes)
         nodes = eliminate_dead_nodes(nodes, &outputs);
 
-        let removed = node_count_before - nodes.len();
-        if removed == 0 {
+        if nodes.len() == node_count_before {
             log::debug!(
                 "Simplification: converged after {} iteration(s)",
                 iteration + 1
@@ -107,9 +106,10 @@ pub(crate) fn simplify_graph(
         }
 
         log::info!(
-            "Simplification: iteration {} removed {} node(s)",
+            "Simplification: iteration {} went from {} to {} node(s)",
             iteration + 1,
-            removed
+            node_count_before,
+            nodes.len()
         );
     }
 
-- 
2.43.0


From d411845a11a9e9da9e5c037e85284901696f077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:11 +0000
Subject: [PATCH 22/83] fix: fold constant arithmetic only when the shapes
 agree

---
 crates/onnx-ir/src/simplify/constant_fold.rs | 40 ++++++++++++--------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/crates/onnx-ir/src/simplify/constant_fold.rs b/crates/onnx-ir/src/simplify/constant_fold.rs
index af258f3..09ddc4a 100644
--- a/crates/onnx-ir/src/simplify/constant_fold.rs
+++ b/crates/onnx-ir/src/simplify/constant_fold.rs
@@ -133,7 +133,18 @@ fn eval_binary(node: &RawNode, op: BinaryOp) -> Option<(TensorData, ArgType)> {
 
     let dtype = lhs_data.dtype;
 
-    let shape = output_shape(&output_ty);
+    // Equal lengths are not enough: [2, 1] and [1, 2] broadcast to [2, 2]
+    let lhs_shape: &[usize] = &lhs_data.shape;
+    let rhs_shape: &[usize] = &rhs_data.shape;
+    let len = |shape: &[usize]| shape.iter().product::<usize>();
+    if len(lhs_shape) != 1 && len(rhs_shape) != 1 && lhs_shape != rhs_shape {
+        return None;
+    }
+
+    let shape = output_shape(&output_ty)?;
+    if len(&shape) != len(lhs_shape).max(len(rhs_shape)) {
+        return None;
+    }
 
     match dtype {
         DType::I64 => {
@@ -166,16 +177,13 @@ fn eval_binary(node: &RawNode, op: BinaryOp) -> Option<(TensorData, ArgType)> {
     }
 }
 
-/// Derive the output shape from the already-inferred output type.
-fn output_shape(output_ty: &ArgType) -> Vec<usize> {
+/// Derive the output shape from the already-inferred output type, if it is fully known.
+fn output_shape(output_ty: &ArgType) -> Option<Vec<usize>> {
     match output_ty {
-        ArgType::ScalarTensor(_) | ArgType::ScalarNative(_) => vec![],
-        ArgType::Shape(len) => vec![*len],
-        ArgType::Tensor(t) => t
-            .static_shape
-            .as_ref()
-            .and_then(|ss| ss.iter().copied().collect::<Option<Vec<_>>>())
-            .unwrap_or_default(),
+        ArgType::ScalarTensor(_) | ArgType::ScalarNative(_) => Some(vec![]),
+        ArgType::Shape(len) => Some(vec![*len]),
+        ArgType::Tensor(t) if t.rank == 0 => Some(vec![]),
+        ArgType::Tensor(t) => t.static_shape.as_ref()?.iter().copied().collect(),
     }
 }
 
@@ -201,7 +209,7 @@ fn apply_binary_i64(lhs: &[i64], rhs: &[i64], op: &BinaryOp) -> Option<Vec<i64>>
                 if b == 0 {
                     return None;
                 }
-                a / b
+                a.checked_div(b)?
             }
         };
         result.push(val);
@@ -238,12 +246,12 @@ fn apply_binary_f64(lhs: &[f64], rhs: &[f64], op: &BinaryOp) -> Option<Vec<f64>>
 fn eval_neg(node: &RawNode) -> Option<(TensorData, ArgType)> {
     let data = node.inputs[0].value()?;
     let output_ty = node.outputs[0].ty.clone();
-    let shape = output_shape(&output_ty);
+    let shape = output_shape(&output_ty)?;
 
     match data.dtype {
         DType::I64 => {
             let vals = data.to_i64_vec().ok()?;
-            let result: Vec<i64> = vals.iter().map(|v| -v).collect();
+            let result: Vec<i64> = vals.iter().map(|v| v.wrapping_neg()).collect();
             Some((TensorData::new(result, shape), output_ty))
         }
         DType::I32 => {
@@ -269,7 +277,7 @@ fn eval_neg(node: &RawNode) -> Option<(TensorData, ArgType)> {
 fn eval_sqrt(node: &RawNode) -> Option<(TensorData, ArgType)> {
     let data = node.inputs[0].value()?;
     let output_ty = node.outputs[0].ty.clone();
-    let shape = output_shape(&output_ty);
+    let shape = output_shape(&output_ty)?;
 
     match data.dtype {
         DType::F32 => {
@@ -290,7 +298,7 @@ fn eval_sqrt(node: &RawNode) -> Option<(TensorData, ArgType)> {
 fn eval_cast(node: &RawNode) -> Option<(TensorData, ArgType)> {
     let data = node.inputs[0].value()?;
     let output_ty = node.outputs[0].ty.clone();
-    let shape = output_shape(&output_ty);
+    let shape = output_shape(&output_ty)?;
 
     let target_dtype = match &output_ty {
         ArgType::ScalarTensor(d) | ArgType::ScalarNative(d) => *d,
@@ -354,7 +362,7 @@ fn eval_concat(node: &RawNode) -> Option<(TensorData, ArgType)> {
     let output_ty = node.outputs[0].ty.clone();
     let first_data = node.inputs[0].value()?;
     let dtype = first_data.dtype;
-    let shape = output_shape(&output_ty);
+    let shape = output_shape(&output_ty)?;
 
     let non_optional = || node.inputs.iter().filter(|arg| !arg.is_optional());
 
-- 
2.43.0


From e2143cb702a62b46b9cb69d2788e4a0ad4bc2404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:11 +0000
Subject: [PATCH 23/83] fix: broadcast static shapes with inputs of unknown
 shape

---
 crates/onnx-ir/src/processor.rs | 67 +++++++++++++++------------------
 1 file changed, 31 insertions(+), 36 deletions(-)

diff --git a/crates/onnx-ir/src/processor.rs b/crates/onnx-ir/src/processor.rs
index d72d4f5..b9f0c91 100644
--- a/crates/onnx-ir/src/processor.rs
+++ b/crates/onnx-ir/src/processor.rs
@@ -566,47 +566,42 @@ pub fn compute_broadcast_rank(inputs: &[crate::ir::Argument]) -> usize {
 pub fn compute_broadcast_static_shape(
     inputs: &[crate::ir::Argument],
 ) -> Option<Vec<Option<usize>>> {
-    let static_shapes: Vec<_> = inputs
-        .iter()
-        .filter_map(|input| input.ty.static_shape().cloned())
-        .collect();
-
-    if static_shapes.is_empty() {
-        return None;
-    }
+    use crate::ir::ArgType;
 
-    if static_shapes.len() == 1 {
-        let broadcast_rank = compute_broadcast_rank(inputs);
-        if broadcast_rank == static_shapes[0].len() {
-            return Some(static_shapes[0].clone());
-        }
-        return None;
-    }
+    // Nothing useful is known unless some static shape covers the broadcast rank
+    let broadcast_rank = compute_broadcast_rank(inputs);
+    inputs
+        .iter()
+        .filter_map(|input| input.ty.static_shape())
+        .find(|shape| shape.len() == broadcast_rank)?;
 
-    if static_shapes.windows(2).all(|w| w[0] == w[1]) {
-        return Some(static_shapes[0].clone());
-    }
+    // An input without a static shape may still decide any of the dims it covers
+    let shapes: Vec<Vec<Option<usize>>> = inputs
+        .iter()
+        .map(|input| match &input.ty {
+            ArgType::Tensor(tensor) => tensor
+                .static_shape
+                .clone()
+                .unwrap_or_else(|| vec![None; tensor.rank]),
+            ArgType::Shape(len) => vec![Some(*len)],
+            ArgType::ScalarTensor(_) | ArgType::ScalarNative(_) => vec![],
+        })
+        .collect();
 
-    let max_rank = static_shapes.iter().map(|s| s.len()).max()?;
-    let mut result: Vec<Option<usize>> = vec![Some(1); max_rank];
+    let mut result: Vec<Option<usize>> = vec![Some(1); broadcast_rank];
 
-    for shape in &static_shapes {
-        let offset = max_rank - shape.len();
-        for (i, dim) in shape.iter().enumerate() {
-            let result_idx = offset + i;
-            match (result[result_idx], *dim) {
-                (_, None) | (None, _) => {
-                    // If either dim is symbolic, result is symbolic
-                    result[result_idx] = None;
-                }
-                (Some(cur), Some(d)) => {
-                    if cur == 1 {
-                        result[result_idx] = Some(d);
-                    } else if d != 1 && d != cur {
-                        // Incompatible broadcast
-                        return None;
-                    }
+    for shape in &shapes {
+        let offset = broadcast_rank - shape.len();
+        for (current, dim) in result[offset..].iter_mut().zip(shape) {
+            match (*current, *dim) {
+                (Some(cur), Some(d)) if cur != 1 && d != 1 && cur != d => {
+                    // Incompatible broadcast
+                    return None;
                 }
+                // A dim other than 1 is the result, whatever the other inputs have
+                (_, Some(d)) if d != 1 => *current = Some(d),
+                (Some(1), None) => *current = None,
+                _ => {}
             }
         }
     }
-- 
2.43.0


From 3c54bfd6025580c204a96926895c4d45cbf5c0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:00 +0000
Subject: [PATCH 24/83] fix: compute the static output shape of Conv with
 auto_pad

---
 crates/onnx-ir/src/node/conv1d.rs  | 21 +++++-----
 crates/onnx-ir/src/node/conv2d.rs  | 55 +++++++++----------------
 crates/onnx-ir/src/node/conv3d.rs  | 64 +++++++++---------------------
 crates/onnx-ir/src/node/padding.rs | 25 ++++++++++++
 4 files changed, 71 insertions(+), 94 deletions(-)

diff --git a/crates/onnx-ir/src/node/conv1d.rs b/crates/onnx-ir/src/node/conv1d.rs
index 92faaaf..311e4ad 100644
--- a/crates/onnx-ir/src/node/conv1d.rs
+++ b/crates/onnx-ir/src/node/conv1d.rs
@@ -16,7 +16,7 @@ use crate::processor::{
     InputSpec, NodeProcessor, NodeSpec, OutputPreferences, OutputSpec, ProcessError,
 };
 
-use super::padding::{AutoPad, PaddingConfig1d, padding_config_1d};
+use super::padding::{AutoPad, PaddingConfig1d, padding_config_1d, window_output_size};
 
 /// Node representation for Conv1d operation
 #[derive(Debug, Clone, NodeBuilder)]
@@ -199,18 +199,15 @@ impl NodeProcessor for Conv1dProcessor {
                     .as_ref()
                     .and_then(|s| s.get(2).copied().flatten())?;
                 let (pad_left, pad_right) = config.padding.as_tuple();
-                let padding = pad_left + pad_right;
-                let dilation = config.dilation;
-                let kernel = config.kernel_size;
-                let stride = config.stride;
                 // L_out = floor((L_in + padding - dilation * (kernel - 1) - 1) / stride + 1)
-                let numerator = l_in as isize + padding as isize
-                    - dilation as isize * (kernel as isize - 1)
-                    - 1;
-                if numerator < 0 || stride == 0 {
-                    return None;
-                }
-                Some(numerator as usize / stride + 1)
+                window_output_size(
+                    l_in,
+                    config.kernel_size,
+                    config.stride,
+                    config.dilation,
+                    (pad_left, pad_right),
+                    &config.auto_pad,
+                )
             });
             Some(vec![batch, out_channels, l_out])
         };
diff --git a/crates/onnx-ir/src/node/conv2d.rs b/crates/onnx-ir/src/node/conv2d.rs
index e946e6f..cbc42c5 100644
--- a/crates/onnx-ir/src/node/conv2d.rs
+++ b/crates/onnx-ir/src/node/conv2d.rs
@@ -12,7 +12,7 @@ use derive_new::new;
 use onnx_ir_derive::NodeBuilder;
 
 use crate::ir::{ArgType, Argument, Node, RawNode, TensorType};
-use crate::node::padding::{AutoPad, PaddingConfig2d, padding_config_2d};
+use crate::node::padding::{AutoPad, PaddingConfig2d, padding_config_2d, window_output_size};
 use crate::processor::{
     InputSpec, NodeProcessor, NodeSpec, OutputPreferences, OutputSpec, ProcessError,
 };
@@ -193,45 +193,26 @@ impl NodeProcessor for Conv2dProcessor {
                         .and_then(|s| s.first().copied().flatten())
                 });
 
-            let compute_spatial = |dim_idx: usize,
-                                   kernel: usize,
-                                   stride: usize,
-                                   dilation: usize,
-                                   pad_begin: usize,
-                                   pad_end: usize|
-             -> Option<usize> {
-                let input_dim = tensor
-                    .static_shape
-                    .as_ref()
-                    .and_then(|s| s.get(dim_idx).copied().flatten())?;
-                let padding = pad_begin + pad_end;
-                let numerator = input_dim as isize + padding as isize
-                    - dilation as isize * (kernel as isize - 1)
-                    - 1;
-                if numerator < 0 || stride == 0 {
-                    return None;
-                }
-                Some(numerator as usize / stride + 1)
-            };
+            let compute_spatial =
+                |dim_idx: usize, config: &Self::Config, padding: (usize, usize)| {
+                    let input_dim = tensor
+                        .static_shape
+                        .as_ref()
+                        .and_then(|s| s.get(dim_idx).copied().flatten())?;
+                    window_output_size(
+                        input_dim,
+                        config.kernel_size[dim_idx - 2],
+                        config.stride[dim_idx - 2],
+                        config.dilation[dim_idx - 2],
+                        padding,
+                        &config.auto_pad,
+                    )
+                };
 
             let spatial = self.extract_config(node, _opset).ok().map(|config| {
                 let (pad_top, pad_left, pad_bottom, pad_right) = config.padding.as_tuple();
-                let h_out = compute_spatial(
-                    2,
-                    config.kernel_size[0],
-                    config.stride[0],
-                    config.dilation[0],
-                    pad_top,
-                    pad_bottom,
-                );
-                let w_out = compute_spatial(
-                    3,
-                    config.kernel_size[1],
-                    config.stride[1],
-                    config.dilation[1],
-                    pad_left,
-                    pad_right,
-                );
+                let h_out = compute_spatial(2, &config, (pad_top, pad_bottom));
+                let w_out = compute_spatial(3, &config, (pad_left, pad_right));
                 (h_out, w_out)
             });
             let (h_out, w_out) = spatial.unwrap_or((None, None));
diff --git a/crates/onnx-ir/src/node/conv3d.rs b/crates/onnx-ir/src/node/conv3d.rs
index f1f04eb..73594c8 100644
--- a/crates/onnx-ir/src/node/conv3d.rs
+++ b/crates/onnx-ir/src/node/conv3d.rs
@@ -13,7 +13,7 @@ use onnx_ir_derive::NodeBuilder;
 
 use crate::ir::{ArgType, Argument, Node, RawNode, TensorType};
 
-use crate::node::padding::{AutoPad, PaddingConfig3d, padding_config_3d};
+use crate::node::padding::{AutoPad, PaddingConfig3d, padding_config_3d, window_output_size};
 use crate::processor::{
     InputSpec, NodeProcessor, NodeSpec, OutputPreferences, OutputSpec, ProcessError,
 };
@@ -123,54 +123,28 @@ impl NodeProcessor for Conv3dProcessor {
                         .and_then(|s| s.first().copied().flatten())
                 });
 
-            let compute_spatial = |dim_idx: usize,
-                                   kernel: usize,
-                                   stride: usize,
-                                   dilation: usize,
-                                   pad_begin: usize,
-                                   pad_end: usize|
-             -> Option<usize> {
-                let input_dim = tensor
-                    .static_shape
-                    .as_ref()
-                    .and_then(|s| s.get(dim_idx).copied().flatten())?;
-                let padding = pad_begin + pad_end;
-                let numerator = input_dim as isize + padding as isize
-                    - dilation as isize * (kernel as isize - 1)
-                    - 1;
-                if numerator < 0 || stride == 0 {
-                    return None;
-                }
-                Some(numerator as usize / stride + 1)
-            };
+            let compute_spatial =
+                |dim_idx: usize, config: &Self::Config, padding: (usize, usize)| {
+                    let input_dim = tensor
+                        .static_shape
+                        .as_ref()
+                        .and_then(|s| s.get(dim_idx).copied().flatten())?;
+                    window_output_size(
+                        input_dim,
+                        config.kernel_size[dim_idx - 2],
+                        config.stride[dim_idx - 2],
+                        config.dilation[dim_idx - 2],
+                        padding,
+                        &config.auto_pad,
+                    )
+                };
 
             let spatial = self.extract_config(node, _opset).ok().map(|config| {
                 let (pad_front, pad_top, pad_left, pad_back, pad_bottom, pad_right) =
                     config.padding.as_tuple();
-                let d_out = compute_spatial(
-                    2,
-                    config.kernel_size[0],
-                    config.stride[0],
-                    config.dilation[0],
-                    pad_front,
-                    pad_back,
-                );
-                let h_out = compute_spatial(
-                    3,
-                    config.kernel_size[1],
-                    config.stride[1],
-                    config.dilation[1],
-                    pad_top,
-                    pad_bottom,
-                );
-                let w_out = compute_spatial(
-                    4,
-                    config.kernel_size[2],
-                    config.stride[2],
-                    config.dilation[2],
-                    pad_left,
-                    pad_right,
-                );
+                let d_out = compute_spatial(2, &config, (pad_front, pad_back));
+                let h_out = compute_spatial(3, &config, (pad_top, pad_bottom));
+                let w_out = compute_spatial(4, &config, (pad_left, pad_right));
                 (d_out, h_out, w_out)
             });
             let (d_out, h_out, w_out) = spatial.unwrap_or((None, None, None));
diff --git a/crates/onnx-ir/src/node/padding.rs b/crates/onnx-ir/src/node/padding.rs
index 4eb6682..0bf636b 100644
--- a/crates/onnx-ir/src/node/padding.rs
+++ b/crates/onnx-ir/src/node/padding.rs
@@ -53,6 +53,31 @@ impl fmt::Display for AutoPad {
     }
 }
 
+/// Size of one spatial dimension after sliding a convolution window over it.
+///
+/// `padding` is the explicit (begin, end) padding, which only counts without `auto_pad`.
+/// Returns `None` if the window does not fit.
+pub(crate) fn window_output_size(
+    input: usize,
+    kernel: usize,
+    stride: usize,
+    dilation: usize,
+    padding: (usize, usize),
+    auto_pad: &AutoPad,
+) -> Option<usize> {
+    if stride == 0 {
+        return None;
+    }
+    let (begin, end) = match auto_pad {
+        AutoPad::NotSet => padding,
+        AutoPad::Valid => (0, 0),
+        AutoPad::SameUpper | AutoPad::SameLower => return Some(input.div_ceil(stride)),
+    };
+    let window = dilation * kernel.checked_sub(1)? + 1;
+    let last = (input + begin + end).checked_sub(window)?;
+    Some(last / stride + 1)
+}
+
 /// Padding configuration for 1D operations such as convolution
 #[derive(Debug, Clone, PartialEq, Eq, Default)]
 pub enum PaddingConfig1d {
-- 
2.43.0


From d4e748cb271c4e831fa3a3d92aa0557369065069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:00 +0000
Subject: [PATCH 25/83] fix: keep input dimensions in the static shape of
 Expand

---
 crates/onnx-ir/src/node/expand.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/crates/onnx-ir/src/node/expand.rs b/crates/onnx-ir/src/node/expand.rs
index bf4efc0..a459353 100644
--- a/crates/onnx-ir/src/node/expand.rs
+++ b/crates/onnx-ir/src/node/expand.rs
@@ -114,10 +114,30 @@ impl NodeProcessor for ExpandProcessor {
             ExpandConfig::Static(shape) => {
                 // TODO: Validate shape values are positive or -1 per ONNX spec - Negative values other than -1 are invalid - Missing constraint validation
                 // TODO: Validate broadcasting rules - Per spec, input shape and target shape must be compatible for broadcasting - Missing broadcast validation
+                // Dimensions align from the right; a 1 in the shape keeps the input's dimension
+                let rank = shape.len();
+                let input_dim = |i: usize| match &node.inputs[0].ty {
+                    ArgType::Tensor(tensor) => match (i + tensor.rank).checked_sub(rank) {
+                        Some(axis) => tensor
+                            .static_shape
+                            .as_ref()
+                            .and_then(|s| s.get(axis).copied().flatten()),
+                        None => Some(1),
+                    },
+                    _ => Some(1),
+                };
+                let static_shape = shape
+                    .iter()
+                    .enumerate()
+                    .map(|(i, &dim)| match dim {
+                        -1 | 1 => input_dim(i),
+                        dim => Some(dim as usize),
+                    })
+                    .collect();
                 node.outputs[0].ty = ArgType::Tensor(TensorType {
                     dtype: input_elem_type,
-                    rank: shape.len(),
-                    static_shape: Some(shape.iter().map(|&dim| Some(dim as usize)).collect()),
+                    rank,
+                    static_shape: Some(static_shape),
                 });
             }
             ExpandConfig::Runtime(_) => {
-- 
2.43.0


From 7bb04861acd1f636e6bd5e8f70de898ea6dd3449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:00 +0000
Subject: [PATCH 26/83] fix: keep only dimensions equal in both branches in the
 static shape of If

---
 crates/onnx-ir/src/node/if_node.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/onnx-ir/src/node/if_node.rs b/crates/onnx-ir/src/node/if_node.rs
index 79dd0d4..b5b687a 100644
--- a/crates/onnx-ir/src/node/if_node.rs
+++ b/crates/onnx-ir/src/node/if_node.rs
@@ -123,6 +123,17 @@ impl NodeProcessor for IfProcessor {
             for (i, then_output) in then_outputs.iter().enumerate() {
                 if i < node.outputs.len() {
                     node.outputs[i].ty = then_output.ty.clone();
+                    // A dimension is known only if it is the same in both branches
+                    if let ArgType::Tensor(tensor) = &mut node.outputs[i].ty
+                        && let Some(shape) = &mut tensor.static_shape
+                    {
+                        let other = else_outputs[i].ty.static_shape();
+                        for (d, dim) in shape.iter_mut().enumerate() {
+                            if other.and_then(|s| s.get(d).copied().flatten()) != *dim {
+                                *dim = None;
+                            }
+                        }
+                    }
                 }
             }
         }
-- 
2.43.0


From 7091a2c78cbdd92b283c0f3accd16db0d09d3434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:00 +0000
Subject: [PATCH 27/83] fix: static shape of reductions over every dimension
 with keepdims

---
 crates/onnx-ir/src/node/reduce.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/node/reduce.rs b/crates/onnx-ir/src/node/reduce.rs
index d05ea41..148251a 100644
--- a/crates/onnx-ir/src/node/reduce.rs
+++ b/crates/onnx-ir/src/node/reduce.rs
@@ -224,7 +224,10 @@ impl NodeProcessor for ReduceProcessor {
                     return None;
                 }
 
-                if keepdims == 1 {
+                if keepdims == 1 && dims.is_empty() {
+                    // Every dimension is reduced
+                    Some(vec![Some(1); tensor_rank])
+                } else if keepdims == 1 {
                     for dim in &dims {
                         shape[*dim] = Some(1);
                     }
-- 
2.43.0


From d77461dd59baba72952cfe4005c4d2d7b64902f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:20 +0000
Subject: [PATCH 28/83] fix: consumers see the dimensions shape-changing
 operators really produce

MaxPool, GlobalAveragePool, ConvTranspose, Pad, Tile, Slice and Resize gave their
output the static shape of their input, so that Shape of such a value was folded to a
wrong constant and SAME padding after a pooling layer was computed for a wrong size.
---
 crates/onnx-ir/src/node/conv1d.rs            |  1 +
 crates/onnx-ir/src/node/conv2d.rs            |  1 +
 crates/onnx-ir/src/node/conv3d.rs            |  1 +
 crates/onnx-ir/src/node/conv_transpose1d.rs  | 22 +++++++++++++++++++
 crates/onnx-ir/src/node/conv_transpose2d.rs  | 23 ++++++++++++++++++++
 crates/onnx-ir/src/node/conv_transpose3d.rs  | 23 ++++++++++++++++++++
 crates/onnx-ir/src/node/global_avg_pool.rs   |  6 +++++
 crates/onnx-ir/src/node/max_pool1d.rs        | 21 +++++++++++++++++-
 crates/onnx-ir/src/node/max_pool2d.rs        | 22 ++++++++++++++++++-
 crates/onnx-ir/src/node/pad.rs               | 14 ++++++++++++
 crates/onnx-ir/src/node/padding.rs           | 14 ++++++++++--
 crates/onnx-ir/src/node/resize.rs            | 15 +++++++++++++
 crates/onnx-ir/src/node/slice.rs             | 15 +++++++++++++
 crates/onnx-ir/src/node/tile.rs              | 14 ++++++++++++
 crates/onnx-ir/src/phases/post_processing.rs | 22 ++++++++++++++++---
 crates/onnx-ir/src/phases/type_inference.rs  | 10 +++------
 crates/onnx-ir/src/processor.rs              | 17 +++++++++++++++
 crates/onnx-ir/src/registry.rs               | 23 +++++++++++++++++++-
 18 files changed, 249 insertions(+), 15 deletions(-)

diff --git a/crates/onnx-ir/src/node/conv1d.rs b/crates/onnx-ir/src/node/conv1d.rs
index 311e4ad..51c0c91 100644
--- a/crates/onnx-ir/src/node/conv1d.rs
+++ b/crates/onnx-ir/src/node/conv1d.rs
@@ -207,6 +207,7 @@ impl NodeProcessor for Conv1dProcessor {
                     config.dilation,
                     (pad_left, pad_right),
                     &config.auto_pad,
+                    false,
                 )
             });
             Some(vec![batch, out_channels, l_out])
diff --git a/crates/onnx-ir/src/node/conv2d.rs b/crates/onnx-ir/src/node/conv2d.rs
index cbc42c5..c29c787 100644
--- a/crates/onnx-ir/src/node/conv2d.rs
+++ b/crates/onnx-ir/src/node/conv2d.rs
@@ -206,6 +206,7 @@ impl NodeProcessor for Conv2dProcessor {
                         config.dilation[dim_idx - 2],
                         padding,
                         &config.auto_pad,
+                        false,
                     )
                 };
 
diff --git a/crates/onnx-ir/src/node/conv3d.rs b/crates/onnx-ir/src/node/conv3d.rs
index 73594c8..00d12a2 100644
--- a/crates/onnx-ir/src/node/conv3d.rs
+++ b/crates/onnx-ir/src/node/conv3d.rs
@@ -136,6 +136,7 @@ impl NodeProcessor for Conv3dProcessor {
                         config.dilation[dim_idx - 2],
                         padding,
                         &config.auto_pad,
+                        false,
                     )
                 };
 
diff --git a/crates/onnx-ir/src/node/conv_transpose1d.rs b/crates/onnx-ir/src/node/conv_transpose1d.rs
index ecd0a9f..89f6a1d 100644
--- a/crates/onnx-ir/src/node/conv_transpose1d.rs
+++ b/crates/onnx-ir/src/node/conv_transpose1d.rs
@@ -108,6 +108,28 @@ impl NodeProcessor for Convtranspose1dProcessor {
         Ok(())
     }
 
+    fn output_static_shape(&self, node: &RawNode, opset: usize) -> Option<Vec<Option<usize>>> {
+        let mut shape = crate::processor::input_static_shape(node);
+        let config = self.extract_config(node, opset).ok()?;
+        let weight_shape = node.inputs[1].value().map(|data| data.shape.to_vec());
+        for (axis, dim) in shape.iter_mut().enumerate().skip(1) {
+            *dim = if axis == 1 {
+                weight_shape
+                    .as_ref()
+                    .and_then(|s| Some(s.get(1)? * config.groups))
+            } else {
+                dim.and_then(|dim| {
+                    let size = dim.checked_sub(1)? * config.stride
+                        + config.dilation * config.kernel_size.checked_sub(1)?
+                        + config.padding_out
+                        + 1;
+                    size.checked_sub(2 * config.padding)
+                })
+            };
+        }
+        Some(shape)
+    }
+
     fn extract_config(&self, node: &RawNode, _opset: usize) -> Result<Self::Config, ProcessError> {
         let mut kernel_shape = Vec::new();
         let mut stride = vec![1]; // Default stride to 1
diff --git a/crates/onnx-ir/src/node/conv_transpose2d.rs b/crates/onnx-ir/src/node/conv_transpose2d.rs
index 3ea3108..9022846 100644
--- a/crates/onnx-ir/src/node/conv_transpose2d.rs
+++ b/crates/onnx-ir/src/node/conv_transpose2d.rs
@@ -109,6 +109,29 @@ impl NodeProcessor for Convtranspose2dProcessor {
         Ok(())
     }
 
+    fn output_static_shape(&self, node: &RawNode, opset: usize) -> Option<Vec<Option<usize>>> {
+        let mut shape = crate::processor::input_static_shape(node);
+        let config = self.extract_config(node, opset).ok()?;
+        let weight_shape = node.inputs[1].value().map(|data| data.shape.to_vec());
+        for (axis, dim) in shape.iter_mut().enumerate().skip(1) {
+            *dim = if axis == 1 {
+                weight_shape
+                    .as_ref()
+                    .and_then(|s| Some(s.get(1)? * config.groups))
+            } else {
+                let i = axis - 2;
+                dim.and_then(|dim| {
+                    let size = dim.checked_sub(1)? * config.stride[i]
+                        + config.dilation[i] * config.kernel_size[i].checked_sub(1)?
+                        + config.padding_out[i]
+                        + 1;
+                    size.checked_sub(2 * config.padding[i])
+                })
+            };
+        }
+        Some(shape)
+    }
+
     fn extract_config(&self, node: &RawNode, _opset: usize) -> Result<Self::Config, ProcessError> {
         let mut kernel_shape = Vec::new();
         let mut stride = vec![1, 1]; // Default stride to 1
diff --git a/crates/onnx-ir/src/node/conv_transpose3d.rs b/crates/onnx-ir/src/node/conv_transpose3d.rs
index b76d44b..3185c9d 100644
--- a/crates/onnx-ir/src/node/conv_transpose3d.rs
+++ b/crates/onnx-ir/src/node/conv_transpose3d.rs
@@ -82,6 +82,29 @@ impl NodeProcessor for Convtranspose3dProcessor {
         Ok(())
     }
 
+    fn output_static_shape(&self, node: &RawNode, opset: usize) -> Option<Vec<Option<usize>>> {
+        let mut shape = crate::processor::input_static_shape(node);
+        let config = self.extract_config(node, opset).ok()?;
+        let weight_shape = node.inputs[1].value().map(|data| data.shape.to_vec());
+        for (axis, dim) in shape.iter_mut().enumerate().skip(1) {
+            *dim = if axis == 1 {
+                weight_shape
+                    .as_ref()
+                    .and_then(|s| Some(s.get(1)? * config.groups))
+            } else {
+                let i = axis - 2;
+                dim.and_then(|dim| {
+                    let size = dim.checked_sub(1)? * config.stride[i]
+                        + config.dilation[i] * config.kernel_size[i].checked_sub(1)?
+                        + config.padding_out[i]
+                        + 1;
+                    size.checked_sub(2 * config.padding[i])
+                })
+            };
+        }
+        Some(shape)
+    }
+
     fn extract_config(&self, node: &RawNode, _opset: usize) -> Result<Self::Config, ProcessError> {
         let mut kernel_shape = Vec::new();
         let mut stride = vec![1, 1, 1]; // Default stride to 1
diff --git a/crates/onnx-ir/src/node/global_avg_pool.rs b/crates/onnx-ir/src/node/global_avg_pool.rs
index 6bc0c83..67e4d07 100644
--- a/crates/onnx-ir/src/node/global_avg_pool.rs
+++ b/crates/onnx-ir/src/node/global_avg_pool.rs
@@ -58,6 +58,12 @@ impl NodeProcessor for GlobalAveragePoolProcessor {
         Ok(())
     }
 
+    fn output_static_shape(&self, node: &RawNode, _opset: usize) -> Option<Vec<Option<usize>>> {
+        let mut shape = crate::processor::input_static_shape(node);
+        shape.iter_mut().skip(2).for_each(|dim| *dim = Some(1));
+        Some(shape)
+    }
+
     fn extract_config(&self, _node: &RawNode, _opset: usize) -> Result<Self::Config, ProcessError> {
         Ok(())
     }
diff --git a/crates/onnx-ir/src/node/max_pool1d.rs b/crates/onnx-ir/src/node/max_pool1d.rs
index e06f39a..f2443e1 100644
--- a/crates/onnx-ir/src/node/max_pool1d.rs
+++ b/crates/onnx-ir/src/node/max_pool1d.rs
@@ -33,7 +33,7 @@ use crate::{
     node::padding::padding_config_1d,
 };
 
-use super::padding::{AutoPad, PaddingConfig1d};
+use super::padding::{AutoPad, PaddingConfig1d, window_output_size};
 
 /// Configuration for MaxPool1d operations extracted from ONNX nodes
 #[derive(Debug, Clone, new)]
@@ -154,6 +154,25 @@ impl NodeProcessor for MaxPool1dProcessor {
         Ok(())
     }
 
+    fn output_static_shape(&self, node: &RawNode, opset: usize) -> Option<Vec<Option<usize>>> {
+        let mut shape = crate::processor::input_static_shape(node);
+        let config = self.extract_config(node, opset).ok()?;
+        if let Some(dim) = shape.get_mut(2) {
+            *dim = dim.and_then(|dim| {
+                window_output_size(
+                    dim,
+                    config.kernel_size,
+                    config.stride,
+                    config.dilation,
+                    config.padding.as_tuple(),
+                    &config.auto_pad,
+                    config.ceil_mode,
+                )
+            });
+        }
+        Some(shape)
+    }
+
     fn extract_config(&self, node: &RawNode, _opset: usize) -> Result<Self::Config, ProcessError> {
         let mut kernel_shape = Vec::new();
         let mut stride = vec![1];
diff --git a/crates/onnx-ir/src/node/max_pool2d.rs b/crates/onnx-ir/src/node/max_pool2d.rs
index 0be4776..82e60e8 100644
--- a/crates/onnx-ir/src/node/max_pool2d.rs
+++ b/crates/onnx-ir/src/node/max_pool2d.rs
@@ -27,7 +27,7 @@ use derive_new::new;
 use onnx_ir_derive::NodeBuilder;
 
 use crate::ir::{Argument, Node, RawNode};
-use crate::node::padding::{AutoPad, PaddingConfig2d, padding_config_2d};
+use crate::node::padding::{AutoPad, PaddingConfig2d, padding_config_2d, window_output_size};
 use crate::processor::{
     InputSpec, NodeProcessor, NodeSpec, OutputPreferences, OutputSpec, ProcessError,
 };
@@ -150,6 +150,26 @@ impl NodeProcessor for MaxPool2dProcessor {
         Ok(())
     }
 
+    fn output_static_shape(&self, node: &RawNode, opset: usize) -> Option<Vec<Option<usize>>> {
+        let mut shape = crate::processor::input_static_shape(node);
+        let config = self.extract_config(node, opset).ok()?;
+        let (top, left, bottom, right) = config.padding.as_tuple();
+        for (i, dim) in shape.iter_mut().skip(2).take(2).enumerate() {
+            *dim = dim.and_then(|dim| {
+                window_output_size(
+                    dim,
+                    config.kernel_size[i],
+                    config.strides[i],
+                    config.dilation[i],
+                    [(top, bottom), (left, right)][i],
+                    &config.auto_pad,
+                    config.ceil_mode,
+                )
+            });
+        }
+        Some(shape)
+    }
+
     fn extract_config(&self, node: &RawNode, _opset: usize) -> Result<Self::Config, ProcessError> {
         let mut kernel_shape = Vec::new();
         let mut strides = vec![1, 1];
diff --git a/crates/onnx-ir/src/node/pad.rs b/crates/onnx-ir/src/node/pad.rs
index 6efa21d..9378484 100644
--- a/crates/onnx-ir/src/node/pad.rs
+++ b/crates/onnx-ir/src/node/pad.rs
@@ -185,6 +185,20 @@ impl NodeProcessor for PadProcessor {
         Ok(())
     }
 
+    fn output_static_shape(&self, node: &RawNode, opset: usize) -> Option<Vec<Option<usize>>> {
+        let mut shape = crate::processor::input_static_shape(node);
+        let pads = match self.extract_config(node, opset).ok()?.pads {
+            PadInput::Static(pads) => pads,
+            PadInput::Runtime(_) => return None,
+        };
+        for (i, dim) in shape.iter_mut().enumerate() {
+            *dim = dim
+                .zip(pads.get(i))
+                .map(|(dim, (before, after))| dim + before + after);
+        }
+        Some(shape)
+    }
+
     fn extract_config(&self, node: &RawNode, _opset: usize) -> Result<Self::Config, ProcessError> {
         // Helper function to get mode
         fn get_mode(node: &RawNode) -> Result<PadMode, ProcessError> {
diff --git a/crates/onnx-ir/src/node/padding.rs b/crates/onnx-ir/src/node/padding.rs
index 0bf636b..e7bfe86 100644
--- a/crates/onnx-ir/src/node/padding.rs
+++ b/crates/onnx-ir/src/node/padding.rs
@@ -53,7 +53,7 @@ impl fmt::Display for AutoPad {
     }
 }
 
-/// Size of one spatial dimension after sliding a convolution window over it.
+/// Size of one spatial dimension after sliding a convolution or pooling window over it.
 ///
 /// `padding` is the explicit (begin, end) padding, which only counts without `auto_pad`.
 /// Returns `None` if the window does not fit.
@@ -64,6 +64,7 @@ pub(crate) fn window_output_size(
     dilation: usize,
     padding: (usize, usize),
     auto_pad: &AutoPad,
+    ceil_mode: bool,
 ) -> Option<usize> {
     if stride == 0 {
         return None;
@@ -75,7 +76,16 @@ pub(crate) fn window_output_size(
     };
     let window = dilation * kernel.checked_sub(1)? + 1;
     let last = (input + begin + end).checked_sub(window)?;
-    Some(last / stride + 1)
+    if !ceil_mode {
+        return Some(last / stride + 1);
+    }
+    // The last window has to start inside the input or the padding before it
+    let size = last.div_ceil(stride) + 1;
+    Some(if (size - 1) * stride >= input + begin {
+        size - 1
+    } else {
+        size
+    })
 }
 
 /// Padding configuration for 1D operations such as convolution
diff --git a/crates/onnx-ir/src/node/resize.rs b/crates/onnx-ir/src/node/resize.rs
index 1679e0e..b476b0e 100644
--- a/crates/onnx-ir/src/node/resize.rs
+++ b/crates/onnx-ir/src/node/resize.rs
@@ -420,6 +420,21 @@ impl NodeProcessor for ResizeProcessor {
         Ok(())
     }
 
+    fn output_static_shape(&self, node: &RawNode, opset: usize) -> Option<Vec<Option<usize>>> {
+        let mut shape = crate::processor::input_static_shape(node);
+        let config = self.extract_config(node, opset).ok()?;
+        for (i, dim) in shape.iter_mut().skip(2).enumerate() {
+            *dim = match (&config.sizes, &config.scales) {
+                (Some(ResizeSizes::Static(sizes)), _) => sizes.get(i).copied(),
+                (None, Some(ResizeScales::Static(scales))) => dim
+                    .zip(scales.get(i))
+                    .map(|(dim, scale)| (dim as f32 * scale).floor() as usize),
+                _ => None,
+            };
+        }
+        Some(shape)
+    }
+
     fn extract_config(&self, node: &RawNode, opset: usize) -> Result<Self::Config, ProcessError> {
         let mut mode: Option<ResizeMode> = None;
         // Opset 10 had no coordinate_transformation_mode (implicit asymmetric)
diff --git a/crates/onnx-ir/src/node/slice.rs b/crates/onnx-ir/src/node/slice.rs
index 85d8cce..9bef85a 100644
--- a/crates/onnx-ir/src/node/slice.rs
+++ b/crates/onnx-ir/src/node/slice.rs
@@ -222,6 +222,21 @@ impl NodeProcessor for SliceProcessor {
         Ok(())
     }
 
+    fn output_static_shape(&self, node: &RawNode, opset: usize) -> Option<Vec<Option<usize>>> {
+        let mut shape = crate::processor::input_static_shape(node);
+        let axes = match self.extract_config(node, opset).ok()?.axes {
+            Some(SliceInput::Static(axes)) => axes,
+            _ => return None,
+        };
+        // Only dimensions that are not sliced keep their size
+        for (i, dim) in shape.iter_mut().enumerate() {
+            if axes.contains(&(i as i64)) {
+                *dim = None;
+            }
+        }
+        Some(shape)
+    }
+
     fn extract_config(&self, node: &RawNode, _opset: usize) -> Result<Self::Config, ProcessError> {
         // For opset < 10, starts/ends/axes are attributes
         if node.inputs.len() < 2 {
diff --git a/crates/onnx-ir/src/node/tile.rs b/crates/onnx-ir/src/node/tile.rs
index a024c91..c1c2ed2 100644
--- a/crates/onnx-ir/src/node/tile.rs
+++ b/crates/onnx-ir/src/node/tile.rs
@@ -104,6 +104,20 @@ impl NodeProcessor for TileProcessor {
         Ok(())
     }
 
+    fn output_static_shape(&self, node: &RawNode, opset: usize) -> Option<Vec<Option<usize>>> {
+        let mut shape = crate::processor::input_static_shape(node);
+        let repeats = match self.extract_config(node, opset).ok()?.repeats {
+            TileInput::Static(repeats) => repeats,
+            TileInput::Runtime(_) => return None,
+        };
+        for (i, dim) in shape.iter_mut().enumerate() {
+            *dim = dim
+                .zip(repeats.get(i))
+                .and_then(|(dim, repeat)| dim.checked_mul(*repeat));
+        }
+        Some(shape)
+    }
+
     fn extract_config(&self, node: &RawNode, _opset: usize) -> Result<Self::Config, ProcessError> {
         // Extract repeats config (always an input, all opset versions)
         fn get_repeats(node: &RawNode) -> TileInput {
diff --git a/crates/onnx-ir/src/phases/post_processing.rs b/crates/onnx-ir/src/phases/post_processing.rs
index bbadc7c..a7e174b 100644
--- a/crates/onnx-ir/src/phases/post_processing.rs
+++ b/crates/onnx-ir/src/phases/post_processing.rs
@@ -11,7 +11,7 @@ use std::{
 
 use crate::{
     graph_state::GraphState,
-    ir::{Argument, NodeType, RawNode},
+    ir::{ArgType, Argument, NodeType, RawNode},
     processor::get_processor_registry,
     proto_conversion::DEFAULT_OPSET_VERSION,
 };
@@ -149,10 +149,14 @@ fn apply_noop_elimination(
 
     // Step 1: Build a map from output names to Arguments
     // This allows us to look up data_id and value_store when rewiring
+    let registry = get_processor_registry();
     let mut output_arg_map: HashMap<String, Argument> = HashMap::new();
     for node in nodes.iter() {
-        for output in &node.outputs {
-            output_arg_map.insert(output.name.clone(), output.clone());
+        let types = registry.consumer_types(node, DEFAULT_OPSET_VERSION);
+        for (output, (name, ty)) in node.outputs.iter().zip(types) {
+            let mut output = output.clone();
+            output.ty = ty;
+            output_arg_map.insert(name, output);
         }
     }
 
@@ -221,6 +225,18 @@ pub(crate) fn post_process(
         (result.0, result.1, result.2, node_output_map)
     };
 
+    // Graph outputs get the types a consumer of the value sees
+    let registry = get_processor_registry();
+    let consumer_types: HashMap<String, ArgType> = nodes
+        .iter()
+        .flat_map(|node| registry.consumer_types(node, DEFAULT_OPSET_VERSION))
+        .collect();
+    for output in outputs.iter_mut() {
+        if let Some(ty) = consumer_types.get(&output.name) {
+            output.ty = ty.clone();
+        }
+    }
+
     // No-op elimination (includes Identity nodes and any processor-declared no-ops)
     log::debug!("Starting no-op elimination");
     {
diff --git a/crates/onnx-ir/src/phases/type_inference.rs b/crates/onnx-ir/src/phases/type_inference.rs
index aa121e7..44cf6ff 100644
--- a/crates/onnx-ir/src/phases/type_inference.rs
+++ b/crates/onnx-ir/src/phases/type_inference.rs
@@ -85,7 +85,7 @@ pub(super) fn iterative_type_inference_with_preferences(
         if iteration > 1 {
             let output_types: HashMap<String, ArgType> = nodes
                 .iter()
-                .flat_map(|n| n.outputs.iter().map(|o| (o.name.clone(), o.ty.clone())))
+                .flat_map(|n| registry.consumer_types(n, opset))
                 .collect();
 
             for node in nodes.iter_mut() {
@@ -126,11 +126,7 @@ pub(super) fn iterative_type_inference_with_preferences(
 
             // Immediately sync this node's output types to downstream nodes' inputs
             // This allows downstream nodes to see correct types in the same iteration
-            let current_outputs: Vec<(String, ArgType)> = nodes[i]
-                .outputs
-                .iter()
-                .map(|o| (o.name.clone(), o.ty.clone()))
-                .collect();
+            let current_outputs = registry.consumer_types(&nodes[i], opset);
 
             for output_pair in &current_outputs {
                 let (output_name, output_ty) = output_pair;
@@ -156,7 +152,7 @@ pub(super) fn iterative_type_inference_with_preferences(
         // This handles cases where earlier nodes were updated by later nodes' outputs
         let output_types: HashMap<String, ArgType> = nodes
             .iter()
-            .flat_map(|n| n.outputs.iter().map(|o| (o.name.clone(), o.ty.clone())))
+            .flat_map(|n| registry.consumer_types(n, opset))
             .collect();
 
         for node in nodes.iter_mut() {
diff --git a/crates/onnx-ir/src/processor.rs b/crates/onnx-ir/src/processor.rs
index b9f0c91..8f69366 100644
--- a/crates/onnx-ir/src/processor.rs
+++ b/crates/onnx-ir/src/processor.rs
@@ -258,6 +258,14 @@ pub trait NodeProcessor: Send + Sync {
         )))
     }
 
+    /// Static shape of the first output as consumers of the node see it.
+    ///
+    /// Processors whose `infer_types()` gives the output the type of the input, although the
+    /// operation changes dimensions, override this to tell the dimensions that are really known.
+    fn output_static_shape(&self, node: &RawNode, _opset: usize) -> Option<Vec<Option<usize>>> {
+        node.outputs[0].ty.static_shape().cloned()
+    }
+
     /// Returns true if this node is a no-op (output equals input).
     ///
     /// When true, the node will be eliminated during post-processing and its output
@@ -549,6 +557,15 @@ pub fn same_as_input(node: &mut RawNode) {
     node.outputs[0].ty = node.inputs[0].ty.clone();
 }
 
+/// Known dimensions of the first input, as an empty list if there are none
+pub fn input_static_shape(node: &RawNode) -> Vec<Option<usize>> {
+    node.inputs[0]
+        .ty
+        .static_shape()
+        .cloned()
+        .unwrap_or_default()
+}
+
 /// Compute broadcast output rank from multiple inputs
 pub fn compute_broadcast_rank(inputs: &[crate::ir::Argument]) -> usize {
     use crate::ir::ArgType;
diff --git a/crates/onnx-ir/src/registry.rs b/crates/onnx-ir/src/registry.rs
index 7e9ccc2..8eddee9 100644
--- a/crates/onnx-ir/src/registry.rs
+++ b/crates/onnx-ir/src/registry.rs
@@ -3,7 +3,7 @@
 //! This module provides a centralized registry that maps ONNX node types
 //! to their corresponding processor implementations.
 
-use crate::ir::{Node, NodeType, RawNode};
+use crate::ir::{ArgType, Node, NodeType, RawNode};
 use crate::processor::{InputPreferences, NodeSpec, OutputPreferences, ProcessError};
 use std::collections::HashMap;
 
@@ -24,6 +24,7 @@ pub trait ProcessorMethods: Send + Sync {
         opset: usize,
         output_preferences: &OutputPreferences,
     ) -> Result<(), ProcessError>;
+    fn output_static_shape(&self, node: &RawNode, opset: usize) -> Option<Vec<Option<usize>>>;
     fn is_noop(&self, node: &RawNode) -> bool;
     fn build_node(&self, builder: RawNode, opset: usize) -> Node;
 }
@@ -55,6 +56,10 @@ impl<T: crate::processor::NodeProcessor> ProcessorMethods for T {
         crate::processor::NodeProcessor::infer_types(self, node, opset, output_preferences)
     }
 
+    fn output_static_shape(&self, node: &RawNode, opset: usize) -> Option<Vec<Option<usize>>> {
+        crate::processor::NodeProcessor::output_static_shape(self, node, opset)
+    }
+
     fn is_noop(&self, node: &RawNode) -> bool {
         crate::processor::NodeProcessor::is_noop(self, node)
     }
@@ -90,6 +95,22 @@ impl ProcessorRegistry {
         self.processors.contains_key(node_type)
     }
 
+    /// Types of the node's outputs as its consumers see them
+    pub fn consumer_types(&self, node: &RawNode, opset: usize) -> Vec<(String, ArgType)> {
+        let mut types: Vec<(String, ArgType)> = node
+            .outputs
+            .iter()
+            .map(|output| (output.name.clone(), output.ty.clone()))
+            .collect();
+        if let Some((_, ArgType::Tensor(tensor))) = types.first_mut() {
+            tensor.static_shape = self
+                .get(&node.node_type)
+                .output_static_shape(node, opset)
+                .filter(|shape| shape.len() == tensor.rank);
+        }
+        types
+    }
+
     /// Get the processor for a node type, or the default processor if not found
     pub fn get(&self, node_type: &NodeType) -> &dyn ProcessorMethods {
         self.processors
-- 
2.43.0


From 7ac54e62249126e3090ed0913ede5c7f938513de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:00 +0000
Subject: [PATCH 29/83] fix: refuse pads of the wrong length or below zero in
 every layer

Surplus pads were ignored, ConvTranspose1d cast negative pads to huge sizes, and
automatic padding of an empty input overflowed.
---
 crates/burn-onnx/src/burn/codegen.rs        |  4 ++--
 crates/onnx-ir/src/node/conv_transpose1d.rs |  5 +++++
 crates/onnx-ir/src/node/conv_transpose2d.rs |  6 +++++-
 crates/onnx-ir/src/node/conv_transpose3d.rs |  7 +++++--
 crates/onnx-ir/src/node/padding.rs          | 20 +++++++++++++-------
 5 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/crates/burn-onnx/src/burn/codegen.rs b/crates/burn-onnx/src/burn/codegen.rs
index 9718d8b..0803dc6 100644
--- a/crates/burn-onnx/src/burn/codegen.rs
+++ b/crates/burn-onnx/src/burn/codegen.rs
@@ -183,8 +183,8 @@ fn compute_auto_pad_1dim(
         AutoPad::SameUpper | AutoPad::SameLower => {
             let effective_kernel = (kernel - 1) * dilation + 1;
             let output_size = input_size.div_ceil(stride); // ceil(input/stride)
-            let total_pad =
-                ((output_size - 1) * stride + effective_kernel).saturating_sub(input_size);
+            let total_pad = (output_size.saturating_sub(1) * stride + effective_kernel)
+                .saturating_sub(input_size);
             let pad_small = total_pad / 2;
             let pad_big = total_pad - pad_small;
             match auto_pad {
diff --git a/crates/onnx-ir/src/node/conv_transpose1d.rs b/crates/onnx-ir/src/node/conv_transpose1d.rs
index 89f6a1d..c00ac77 100644
--- a/crates/onnx-ir/src/node/conv_transpose1d.rs
+++ b/crates/onnx-ir/src/node/conv_transpose1d.rs
@@ -158,6 +158,11 @@ impl NodeProcessor for Convtranspose1dProcessor {
                 "Asymmetric padding is not supported for ConvTranspose1d: {pads:?}"
             )));
         }
+        if pads[0] < 0 {
+            return Err(ProcessError::Custom(
+                "Negative pad values are not supported".to_string(),
+            ));
+        }
 
         let weight_shape = node.inputs[1]
             .value()
diff --git a/crates/onnx-ir/src/node/conv_transpose2d.rs b/crates/onnx-ir/src/node/conv_transpose2d.rs
index 9022846..37c1f46 100644
--- a/crates/onnx-ir/src/node/conv_transpose2d.rs
+++ b/crates/onnx-ir/src/node/conv_transpose2d.rs
@@ -158,7 +158,11 @@ impl NodeProcessor for Convtranspose2dProcessor {
         // FIXME: Padding order appears to be [top, left, bottom, right] per ONNX spec,
         // but variable names here suggest [left, top, right, bottom]
         // Verify the correct order and update variable names accordingly
-        let [left, top, right, bottom] = [pads[0], pads[1], pads[2], pads[3]];
+        let &[left, top, right, bottom] = pads.as_slice() else {
+            return Err(ProcessError::Custom(format!(
+                "Expected 4 pad values for ConvTranspose2d: {pads:?}"
+            )));
+        };
         if left < 0 || top < 0 || right < 0 || bottom < 0 {
             return Err(ProcessError::Custom(
                 "Negative pad values are not supported".to_string(),
diff --git a/crates/onnx-ir/src/node/conv_transpose3d.rs b/crates/onnx-ir/src/node/conv_transpose3d.rs
index 3185c9d..296fb36 100644
--- a/crates/onnx-ir/src/node/conv_transpose3d.rs
+++ b/crates/onnx-ir/src/node/conv_transpose3d.rs
@@ -141,8 +141,11 @@ impl NodeProcessor for Convtranspose3dProcessor {
         }
 
         // Check the pads are symmetric.
-        let [left, top, front, right, bottom, back] =
-            [pads[0], pads[1], pads[2], pads[3], pads[4], pads[5]];
+        let &[left, top, front, right, bottom, back] = pads.as_slice() else {
+            return Err(ProcessError::Custom(format!(
+                "Expected 6 pad values for ConvTranspose3d: {pads:?}"
+            )));
+        };
 
         if left < 0 || top < 0 || front < 0 || right < 0 || bottom < 0 || back < 0 {
             return Err(ProcessError::Custom(
diff --git a/crates/onnx-ir/src/node/padding.rs b/crates/onnx-ir/src/node/padding.rs
index e7bfe86..c734675 100644
--- a/crates/onnx-ir/src/node/padding.rs
+++ b/crates/onnx-ir/src/node/padding.rs
@@ -135,7 +135,7 @@ impl PaddingConfig1d {
 ///
 /// # Panics
 ///
-/// * If the padding is negative
+/// * If the padding is negative or has the wrong number of values
 ///
 /// # Returns
 ///
@@ -146,7 +146,10 @@ impl PaddingConfig1d {
 /// This function is used when the padding is specified as a list of integers,
 /// and not used when the padding is specified as a string, e.g. "SAME_UPPER".
 pub(crate) fn padding_config_1d(pads: &[i64]) -> PaddingConfig1d {
-    let [left, right] = [pads[0], pads[1]];
+    let (left, right) = match *pads {
+        [left, right, ref rest @ ..] if rest.iter().all(|&pad| pad == 0) => (left, right),
+        _ => panic!("Expected 2 pad values, got {}", pads.len()),
+    };
 
     if left < 0 || right < 0 {
         panic!("Negative pad values are not supported");
@@ -206,7 +209,7 @@ impl PaddingConfig2d {
 ///
 /// # Panics
 ///
-/// * If the padding is negative
+/// * If the padding is negative or has the wrong number of values
 ///
 /// # Returns
 ///
@@ -217,7 +220,9 @@ impl PaddingConfig2d {
 /// This function is used when the padding is specified as a list of integers,
 /// and not used when the padding is specified as a string, e.g. "SAME_UPPER".
 pub(crate) fn padding_config_2d(pads: &[i64]) -> PaddingConfig2d {
-    let [top, left, bottom, right] = [pads[0], pads[1], pads[2], pads[3]];
+    let &[top, left, bottom, right] = pads else {
+        panic!("Expected 4 pad values, got {}", pads.len());
+    };
 
     if left < 0 || right < 0 || top < 0 || bottom < 0 {
         panic!("Negative pad values are not supported");
@@ -284,7 +289,7 @@ impl PaddingConfig3d {
 ///
 /// # Panics
 ///
-/// * If the padding is negative
+/// * If the padding is negative or has the wrong number of values
 ///
 /// # Returns
 ///
@@ -295,8 +300,9 @@ impl PaddingConfig3d {
 /// This function is used when the padding is specified as a list of integers,
 /// and not used when the padding is specified as a string, e.g. "SAME_UPPER".
 pub(crate) fn padding_config_3d(pads: &[i64]) -> PaddingConfig3d {
-    let [front, top, left, back, bottom, right] =
-        [pads[0], pads[1], pads[2], pads[3], pads[4], pads[5]];
+    let &[front, top, left, back, bottom, right] = pads else {
+        panic!("Expected 6 pad values, got {}", pads.len());
+    };
 
     if left < 0 || right < 0 || top < 0 || bottom < 0 || front < 0 || back < 0 {
         panic!("Negative pad values are not supported");
-- 
2.43.0


From 75a2c5f7ab8ce162403bcd49d39e185a939aa961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:03 +0000
Subject: [PATCH 30/83] fix: tell values apart whose names differ only in
 characters an identifier loses

Values named "a.b" and "a_b" became one value, names without letters or digits became
missing optional inputs, and Rust keywords or names the importer itself gives to node
outputs produced code that does not compile or uses another value.
---
 crates/onnx-ir/src/lib.rs         |   1 +
 crates/onnx-ir/src/pipeline.rs    |  11 ++-
 crates/onnx-ir/src/value_names.rs | 133 ++++++++++++++++++++++++++++++
 3 files changed, 143 insertions(+), 2 deletions(-)
 create mode 100644 crates/onnx-ir/src/value_names.rs

diff --git a/crates/onnx-ir/src/lib.rs b/crates/onnx-ir/src/lib.rs
index a20fe02..61c1214 100644
--- a/crates/onnx-ir/src/lib.rs
+++ b/crates/onnx-ir/src/lib.rs
@@ -13,6 +13,7 @@ mod protos;
 mod registry;
 mod simplify;
 mod tensor_store;
+mod value_names;
 
 // Public API - only expose essentials
 pub use ir::*;
diff --git a/crates/onnx-ir/src/pipeline.rs b/crates/onnx-ir/src/pipeline.rs
index 81f395c..763407f 100644
--- a/crates/onnx-ir/src/pipeline.rs
+++ b/crates/onnx-ir/src/pipeline.rs
@@ -28,7 +28,10 @@ use std::{fmt, fs::File, path::Path};
 
 use protobuf::Message;
 
-use crate::{ir::OnnxGraph, processor::ProcessError, protos::ModelProto};
+use crate::{
+    ir::OnnxGraph, processor::ProcessError, protos::ModelProto,
+    value_names::make_value_names_distinct,
+};
 
 use super::phases::{
     finalization, initialization, node_conversion, post_processing, type_inference,
@@ -250,7 +253,7 @@ impl OnnxGraphBuilder {
         // Get the base directory for external data resolution
         let base_path = source_path.and_then(|p| p.parent());
 
-        let model: ModelProto =
+        let mut model: ModelProto =
             Message::parse_from_tokio_bytes(&buffer).map_err(|e| Error::InvalidFormat {
                 path: path_str.clone(),
                 error: e.to_string(),
@@ -264,6 +267,10 @@ impl OnnxGraphBuilder {
             });
         }
 
+        if let Some(graph) = model.graph.as_mut() {
+            make_value_names_distinct(graph);
+        }
+
         let graph = build_graph_with_options(&model, base_path, self.simplify)?;
 
         if let Some(path) = path_str {
diff --git a/crates/onnx-ir/src/value_names.rs b/crates/onnx-ir/src/value_names.rs
new file mode 100644
index 0000000..b5d8226
--- /dev/null
+++ b/crates/onnx-ir/src/value_names.rs
@@ -0,0 +1,133 @@
+//! Distinct identifiers for the values of a model
+//!
+//! ONNX value names are arbitrary strings, and values are told apart by their exact name.
+//! The IR and the generated code know them by their sanitized form, which may be the same for
+//! different values ("a.b" and "a_b"), empty, or not usable as an identifier. Such values are
+//! renamed before the graph is built; all other names stay as they are.
+
+use std::collections::{HashMap, HashSet};
+
+use crate::proto_conversion::sanitize_name;
+use crate::protos::GraphProto;
+
+/// Words that cannot name a variable in generated code
+const RESERVED: &[&str] = &[
+    "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate",
+    "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "gen", "if", "impl",
+    "in", "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref",
+    "return", "self", "static", "struct", "super", "trait", "true", "try", "type", "typeof",
+    "unsafe", "unsized", "use", "virtual", "where", "while", "yield",
+];
+
+/// Rename values so that the sanitized names of different values differ and are identifiers
+pub(crate) fn make_value_names_distinct(graph: &mut GraphProto) {
+    let mut names = ValueNames::default();
+    names.collect(graph);
+    if names.renamed.iter().any(|(old, new)| old != new) {
+        names.apply(graph);
+    }
+}
+
+#[derive(Default)]
+struct ValueNames {
+    /// New name of each value
+    renamed: HashMap<String, String>,
+    /// Sanitized names that are taken
+    taken: HashSet<String>,
+}
+
+impl ValueNames {
+    fn collect(&mut self, graph: &GraphProto) {
+        for input in &graph.input {
+            self.add(&input.name);
+        }
+        for initializer in &graph.initializer {
+            self.add(&initializer.name);
+        }
+        for node in &graph.node {
+            node.input.iter().for_each(|name| self.add(name));
+            node.output.iter().for_each(|name| self.add(name));
+            for attribute in &node.attribute {
+                attribute.g.iter().for_each(|graph| self.collect(graph));
+                attribute
+                    .graphs
+                    .iter()
+                    .for_each(|graph| self.collect(graph));
+            }
+        }
+        for output in &graph.output {
+            self.add(&output.name);
+        }
+    }
+
+    fn add(&mut self, name: &str) {
+        // Empty names stand for missing optional inputs and outputs
+        if name.is_empty() || self.renamed.contains_key(name) {
+            return;
+        }
+        let sanitized = sanitize_name(name);
+        let new = if self.is_free(&sanitized) {
+            name.to_string()
+        } else {
+            let stem = match sanitized.trim_matches('_') {
+                "" => "value",
+                stem => stem,
+            };
+            (2..)
+                .map(|n| sanitize_name(&format!("{stem}_v{n}")))
+                .find(|candidate| self.is_free(candidate))
+                .unwrap()
+        };
+        self.taken.insert(sanitize_name(&new));
+        self.renamed.insert(name.to_string(), new);
+    }
+
+    fn is_free(&self, sanitized: &str) -> bool {
+        !self.taken.contains(sanitized)
+            && !RESERVED.contains(&sanitized)
+            && !is_generated_name(sanitized)
+            && sanitized.contains(|c: char| c.is_ascii_alphanumeric())
+    }
+
+    fn apply(&self, graph: &mut GraphProto) {
+        for value in graph
+            .input
+            .iter_mut()
+            .chain(&mut graph.output)
+            .chain(&mut graph.value_info)
+        {
+            self.rename(&mut value.name);
+        }
+        for initializer in &mut graph.initializer {
+            self.rename(&mut initializer.name);
+        }
+        for node in &mut graph.node {
+            node.input.iter_mut().for_each(|name| self.rename(name));
+            node.output.iter_mut().for_each(|name| self.rename(name));
+            for attribute in &mut node.attribute {
+                if let Some(graph) = attribute.g.as_mut() {
+                    self.apply(graph);
+                }
+                attribute
+                    .graphs
+                    .iter_mut()
+                    .for_each(|graph| self.apply(graph));
+            }
+        }
+    }
+
+    fn rename(&self, name: &mut String) {
+        if let Some(new) = self.renamed.get(name) {
+            name.clone_from(new);
+        }
+    }
+}
+
+/// Names the importer itself gives to node outputs, such as "relu1_out1"
+fn is_generated_name(name: &str) -> bool {
+    name.rsplit_once("_out").is_some_and(|(node, index)| {
+        node.ends_with(|c: char| c.is_ascii_digit())
+            && !index.is_empty()
+            && index.chars().all(|c| c.is_ascii_digit())
+    })
+}
-- 
2.43.0


From 9f0d71aa6e4d78ae016b0fefc133e6de5aaadcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:29 +0000
Subject: [PATCH 31/83] fix: keep the variables of generated code apart from
 the model's values

A value named like a variable of the code of some node (`seq_len`, `shape`, `b`,
...) was hidden by it, so that the generated source did not compile or used the
wrong value.
---
 crates/burn-onnx/src/burn/node/loop_node.rs |   2 +-
 crates/burn-onnx/src/burn/node/scan_node.rs |  14 +-
 crates/onnx-ir/src/value_names.rs           | 145 ++++++++++++++++++++
 3 files changed, 153 insertions(+), 8 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/loop_node.rs b/crates/burn-onnx/src/burn/node/loop_node.rs
index 392f9b0..5ecf839 100644
--- a/crates/burn-onnx/src/burn/node/loop_node.rs
+++ b/crates/burn-onnx/src/burn/node/loop_node.rs
@@ -125,7 +125,7 @@ impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
         if num_scan_outputs > 0 {
             for i in 0..num_scan_outputs {
                 let collector_name = syn::Ident::new(
-                    &format!("scan_collector_{}", i),
+                    &format!("__scan_collector_{}", i),
                     proc_macro2::Span::call_site(),
                 );
                 scan_collectors.push(collector_name.clone());
diff --git a/crates/burn-onnx/src/burn/node/scan_node.rs b/crates/burn-onnx/src/burn/node/scan_node.rs
index 3f42791..a56b995 100644
--- a/crates/burn-onnx/src/burn/node/scan_node.rs
+++ b/crates/burn-onnx/src/burn/node/scan_node.rs
@@ -65,7 +65,7 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
         let scan_output_collectors: Vec<_> = (0..num_scan_outputs)
             .map(|i| {
                 syn::Ident::new(
-                    &format!("scan_output_collector_{}", i),
+                    &format!("__scan_output_collector_{}", i),
                     proc_macro2::Span::call_site(),
                 )
             })
@@ -78,7 +78,7 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
         }
 
         init_stmts.extend(quote! {
-            let seq_len = #seq_len_expr;
+            let __seq_len = #seq_len_expr;
         });
 
         // Extract scan input elements for current iteration
@@ -106,9 +106,9 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
             let scan_axis = self.config.scan_input_axes.get(idx).copied().unwrap_or(0) as usize;
 
             let iter_expr = if reverse {
-                quote! { seq_len - i - 1 }
+                quote! { __seq_len - __i - 1 }
             } else {
-                quote! { i }
+                quote! { __i }
             };
 
             // Get rank from tensor type
@@ -170,7 +170,7 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
         let final_scan_output_names: Vec<_> = (0..num_scan_outputs)
             .map(|i| {
                 syn::Ident::new(
-                    &format!("scan_output_{}", i),
+                    &format!("__scan_output_{}", i),
                     proc_macro2::Span::call_site(),
                 )
             })
@@ -223,7 +223,7 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
                 let #output_name = {
                     #init_stmts
 
-                    for i in 0..seq_len {
+                    for __i in 0..__seq_len {
                         #slice_stmts
                         #body_code
                         #update_stmts
@@ -239,7 +239,7 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
                 let (#(#all_output_names),*) = {
                     #init_stmts
 
-                    for i in 0..seq_len {
+                    for __i in 0..__seq_len {
                         #slice_stmts
                         #body_code
                         #update_stmts
diff --git a/crates/onnx-ir/src/value_names.rs b/crates/onnx-ir/src/value_names.rs
index b5d8226..1c9ef23 100644
--- a/crates/onnx-ir/src/value_names.rs
+++ b/crates/onnx-ir/src/value_names.rs
@@ -19,6 +19,148 @@ const RESERVED: &[&str] = &[
     "unsafe", "unsized", "use", "virtual", "where", "while", "yield",
 ];
 
+/// Variables of the code generated for a single node, which would hide a value of the same name
+const LOCAL_VARIABLES: &[&str] = &[
+    "_batch",
+    "_final_state",
+    "_hidden",
+    "_l",
+    "_output_seq",
+    "_scalar_tensor",
+    "actual_idx",
+    "argmax_result",
+    "argmin_result",
+    "b",
+    "batch_count",
+    "batch_data_stride",
+    "batch_first_input",
+    "batch_first_output",
+    "batch_size",
+    "bi",
+    "block_offsets",
+    "bool_array",
+    "c",
+    "canvas",
+    "channels",
+    "chunk",
+    "col_channels",
+    "coord",
+    "copy_len",
+    "cumsum_back",
+    "cumsum_result",
+    "d",
+    "data_dims",
+    "data_flat",
+    "data_strides",
+    "device",
+    "dim",
+    "dim_offset",
+    "dim_size",
+    "dims",
+    "dtype",
+    "end_data",
+    "end_idx",
+    "end_val",
+    "existing",
+    "exp_sum_reduced",
+    "final_state",
+    "flat_idx",
+    "flat_indices",
+    "flipped",
+    "float_array",
+    "float_mask",
+    "gathered",
+    "gru_output",
+    "h",
+    "head_size",
+    "i",
+    "idx",
+    "idx_strides",
+    "indices",
+    "indices_data",
+    "indices_dims",
+    "indices_expanded",
+    "indices_tensor",
+    "indices_values",
+    "input_dims",
+    "input_double",
+    "input_dtype",
+    "input_exp_reduced",
+    "input_flat",
+    "input_max_reduced",
+    "input_shape",
+    "j",
+    "k",
+    "k_dims",
+    "k_scaled",
+    "k_transpose",
+    "kv_sequence_length",
+    "leading_dim",
+    "len",
+    "li",
+    "lookup_idx",
+    "lookups_per_batch",
+    "num_updates",
+    "offset",
+    "onnx_shape",
+    "output_flat",
+    "output_seq",
+    "output_shape",
+    "output_size",
+    "q",
+    "q_dims",
+    "q_hidden_size",
+    "q_num_heads",
+    "q_scaled",
+    "q_sequence_length",
+    "r",
+    "remaining",
+    "reshaped",
+    "result_item",
+    "rhs_item",
+    "s",
+    "scales_array",
+    "scales_data",
+    "selected",
+    "seq_len",
+    "shape",
+    "shape_array",
+    "shape_data",
+    "shape_out",
+    "shape_tensor",
+    "si",
+    "sizes",
+    "sizes_array",
+    "sizes_data",
+    "slice",
+    "slice_size",
+    "sliced",
+    "split_tensors",
+    "start_data",
+    "start_idx",
+    "start_val",
+    "step",
+    "target_height",
+    "target_offset",
+    "target_width",
+    "tensor1d",
+    "total_data",
+    "total_data_size",
+    "total_size",
+    "total_slices",
+    "total_updates",
+    "update_slice",
+    "update_val",
+    "updates_dims",
+    "updates_flat",
+    "v",
+    "v_head_size",
+    "var",
+    "w",
+    "window_offsets",
+    "zeros",
+];
+
 /// Rename values so that the sanitized names of different values differ and are identifiers
 pub(crate) fn make_value_names_distinct(graph: &mut GraphProto) {
     let mut names = ValueNames::default();
@@ -85,7 +227,10 @@ impl ValueNames {
     fn is_free(&self, sanitized: &str) -> bool {
         !self.taken.contains(sanitized)
             && !RESERVED.contains(&sanitized)
+            && !LOCAL_VARIABLES.contains(&sanitized)
             && !is_generated_name(sanitized)
+            // Generated code uses such names for its own variables
+            && !sanitized.starts_with("__")
             && sanitized.contains(|c: char| c.is_ascii_alphanumeric())
     }
 
-- 
2.43.0


From 71f9a27333abb15977da19115fe696aba355ac8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:02 +0000
Subject: [PATCH 32/83] fix: honour the declared type of an output whose name
 is sanitized

The type was looked up by the original name among sanitized names, so that an
output called "Y" or "out.0" got the default type where its node's output type
comes from the declaration (OneHot).
---
 crates/onnx-ir/src/graph_state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/graph_state.rs b/crates/onnx-ir/src/graph_state.rs
index 62dc6af..eca54cc 100644
--- a/crates/onnx-ir/src/graph_state.rs
+++ b/crates/onnx-ir/src/graph_state.rs
@@ -425,9 +425,10 @@ impl GraphState {
 
     /// Get the type of a graph output by name
     pub(crate) fn get_output_type(&self, name: &str) -> Option<&crate::ir::ArgType> {
+        let sanitized = crate::proto_conversion::sanitize_name(name);
         self.outputs
             .iter()
-            .find(|out| out.name == name)
+            .find(|out| out.name == sanitized)
             .map(|out| &out.ty)
     }
 
-- 
2.43.0


From e1df9a6326daa14bfc29b964c789fb407a72b7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:24 +0000
Subject: [PATCH 33/83] fix: infinite bounds of Clip and non-finite constants
 of Pad

Clip panicked on an infinite bound and Pad generated `inf_f32`, which does not
compile.
---
 crates/burn-onnx/src/burn/node/clip.rs | 4 ++++
 crates/burn-onnx/src/burn/node/pad.rs  | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/burn-onnx/src/burn/node/clip.rs b/crates/burn-onnx/src/burn/node/clip.rs
index 997a94a..11efd52 100644
--- a/crates/burn-onnx/src/burn/node/clip.rs
+++ b/crates/burn-onnx/src/burn/node/clip.rs
@@ -29,6 +29,10 @@ impl NodeCodegen for onnx_ir::clip::ClipNode {
             None => None,
         };
 
+        // Bounds may be infinite
+        let min = min.map(super::super::codegen::f64_to_tokens);
+        let max = max.map(super::super::codegen::f64_to_tokens);
+
         if let Some(min) = min {
             if let Some(max) = max {
                 quote! {
diff --git a/crates/burn-onnx/src/burn/node/pad.rs b/crates/burn-onnx/src/burn/node/pad.rs
index 032c15e..536fd20 100644
--- a/crates/burn-onnx/src/burn/node/pad.rs
+++ b/crates/burn-onnx/src/burn/node/pad.rs
@@ -32,7 +32,11 @@ impl NodeCodegen for onnx_ir::pad::PadNode {
             onnx_ir::pad::PadMode::Constant => {
                 let constant_value = match &self.config.constant_value {
                     onnx_ir::pad::ConstantValueInput::Static(value) => {
-                        let literal = TokenStream::from_str(&format!("{}_f32", value)).unwrap();
+                        let literal = if value.is_finite() {
+                            TokenStream::from_str(&format!("{}_f32", value)).unwrap()
+                        } else {
+                            super::super::codegen::f32_to_tokens(*value)
+                        };
                         quote! { #literal }
                     }
                     onnx_ir::pad::ConstantValueInput::Runtime(runtime_ref) => {
-- 
2.43.0


From a9c2b7f7bf5758ab9a8c77bdd9859c68842c951d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:47 +0000
Subject: [PATCH 34/83] fix: refuse reductions over computed axes instead of
 reducing every dimension

---
 crates/onnx-ir/src/node/reduce.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/crates/onnx-ir/src/node/reduce.rs b/crates/onnx-ir/src/node/reduce.rs
index 148251a..6c40dc8 100644
--- a/crates/onnx-ir/src/node/reduce.rs
+++ b/crates/onnx-ir/src/node/reduce.rs
@@ -125,6 +125,13 @@ pub struct ReduceLogSumExpNode {
 
 pub(crate) struct ReduceProcessor;
 
+/// Whether the axes are an input whose value is not known
+fn has_computed_axes(node: &RawNode) -> bool {
+    node.inputs
+        .get(1)
+        .is_some_and(|axes| !axes.is_optional() && axes.value().is_none())
+}
+
 impl NodeProcessor for ReduceProcessor {
     type Config = ReduceConfig;
 
@@ -202,6 +209,22 @@ impl NodeProcessor for ReduceProcessor {
         let dims = config.dims.clone();
         let keepdims = if config.keepdims { 1 } else { 0 };
 
+        // Axes that are not known (yet) leave the reduced dimensions open
+        if has_computed_axes(node) {
+            if !config.keepdims {
+                return Err(ProcessError::Custom(format!(
+                    "{:?}: axes must be constant, computed axes are not supported",
+                    node.node_type
+                )));
+            }
+            node.outputs[0].ty = ArgType::Tensor(TensorType {
+                dtype: tensor_elem_type,
+                rank: tensor_rank,
+                static_shape: None,
+            });
+            return Ok(());
+        }
+
         // Determine if the output should be a scalar
         let should_be_scalar = keepdims == 0 && (dims.is_empty() || dims.len() == tensor_rank);
 
@@ -298,6 +321,14 @@ impl NodeProcessor for ReduceProcessor {
     }
 
     fn build_node(&self, builder: RawNode, opset: usize) -> Node {
+        // By now the axes must be known: without them every dimension would be reduced
+        assert!(
+            !has_computed_axes(&builder),
+            "{:?} ({}): axes must be constant, computed axes are not supported",
+            builder.node_type,
+            builder.name
+        );
+
         let config = self
             .extract_config(&builder, opset)
             .expect("Config extraction failed");
-- 
2.43.0


From 2f37d84fc19ebaecd712285562125b7d35e309ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:11 +0000
Subject: [PATCH 35/83] fix: state the rank of stacked scan outputs in the
 generated code

---
 crates/burn-onnx/src/burn/node/scan_node.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/burn-onnx/src/burn/node/scan_node.rs b/crates/burn-onnx/src/burn/node/scan_node.rs
index a56b995..d32f938 100644
--- a/crates/burn-onnx/src/burn/node/scan_node.rs
+++ b/crates/burn-onnx/src/burn/node/scan_node.rs
@@ -195,8 +195,13 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
             }
 
             let stack_axis = self.config.scan_output_axes.get(idx).copied().unwrap_or(0) as usize;
+            // The stacked rank cannot always be inferred from how the output is used
+            let rank = match &self.outputs[num_state_vars + idx].ty {
+                ArgType::Tensor(tensor) => tensor.rank.to_tokens(),
+                _ => quote! { _ },
+            };
             finalize_stmts.extend(quote! {
-                let #output_name = Tensor::stack(#collector.clone(), #stack_axis);
+                let #output_name = Tensor::stack::<#rank>(#collector.clone(), #stack_axis);
             });
         }
 
-- 
2.43.0


From dc54f7a8750f504ac9e972e1f56fb001110c43cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:09 +0000
Subject: [PATCH 36/83] fix: name nodes of subgraphs uniquely and order
 captured values deterministically

---
 crates/onnx-ir/src/phases/node_conversion.rs | 25 ++++++++++----------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/crates/onnx-ir/src/phases/node_conversion.rs b/crates/onnx-ir/src/phases/node_conversion.rs
index 74296d0..ad123a8 100644
--- a/crates/onnx-ir/src/phases/node_conversion.rs
+++ b/crates/onnx-ir/src/phases/node_conversion.rs
@@ -62,6 +62,9 @@ fn convert_nodes_impl(
         }
     };
 
+    // Names of nodes in subgraphs, when this graph counts its own names locally
+    let subgraph_registry = crate::graph_state::NameRegistry::new();
+
     let mut node_iter = nodes.iter().peekable();
 
     while let Some(node_proto) = node_iter.next() {
@@ -91,6 +94,9 @@ fn convert_nodes_impl(
                 );
                 let state = state_rc.borrow();
                 let mut scope_ref_names: Vec<String> = Vec::new();
+                // In a fixed order, since the order of a hash set differs between runs
+                let mut outer_refs: Vec<String> = outer_refs.into_iter().collect();
+                outer_refs.sort();
                 for ref_name in outer_refs {
                     // Create an argument for this outer-scope reference
                     // The type will be resolved from the parent graph
@@ -124,22 +130,12 @@ fn convert_nodes_impl(
             }
 
             // Pass the current graph's NameRegistry to ensure unique names across nested subgraphs
-            // If no registry exists, create one and initialize with current node counts
+            // If no registry exists, all subgraphs of this graph share one
             let parent_registry = if let Some(registry) = state_rc.borrow().name_registry().cloned()
             {
                 registry
             } else {
-                // Create new registry and initialize with current node name counters
-                let registry = crate::graph_state::NameRegistry::new();
-                // Initialize counters from the current graph's already-named nodes
-                // IMPORTANT: Increment by 1 to account for the current node which will be
-                // renamed later using the local counter
-                for (node_type, count) in &node_name_counter {
-                    registry.set_initial_counter(node_type, count + 1);
-                }
-                // Also account for the current node's type
-                registry.set_initial_counter(&node.node_type, 1);
-                registry
+                subgraph_registry.clone()
             };
 
             // Convert graph attributes - now creates DeferredGraph instead of building immediately
@@ -204,6 +200,11 @@ fn convert_nodes_impl(
         state_rc.borrow_mut().add_node(node);
     }
 
+    // Subgraphs are built later: their names continue after all names of this graph
+    for (node_type, count) in &node_name_counter {
+        subgraph_registry.set_initial_counter(node_type, count + 1);
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From b0ac4df93dff6bd2f73dee9525291dcef449666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:49 +0000
Subject: [PATCH 37/83] fix: reject references to values that are not defined
 before, also in subgraphs

---
 crates/onnx-ir/src/pipeline.rs | 46 ++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/crates/onnx-ir/src/pipeline.rs b/crates/onnx-ir/src/pipeline.rs
index 763407f..0918224 100644
--- a/crates/onnx-ir/src/pipeline.rs
+++ b/crates/onnx-ir/src/pipeline.rs
@@ -24,12 +24,14 @@
 //! ```
 
 use std::io::Read;
-use std::{fmt, fs::File, path::Path};
+use std::{collections::HashSet, fmt, fs::File, path::Path};
 
 use protobuf::Message;
 
 use crate::{
-    ir::OnnxGraph, processor::ProcessError, protos::ModelProto,
+    ir::OnnxGraph,
+    processor::ProcessError,
+    protos::{GraphProto, ModelProto},
     value_names::make_value_names_distinct,
 };
 
@@ -267,6 +269,8 @@ impl OnnxGraphBuilder {
             });
         }
 
+        check_references(&model.graph, &HashSet::new())?;
+
         if let Some(graph) = model.graph.as_mut() {
             make_value_names_distinct(graph);
         }
@@ -374,6 +378,44 @@ pub(crate) fn build_graph_builder_from_proto_with_outer_scope(
     ))
 }
 
+/// Check that every value is defined before it is used, in the graph and in all its subgraphs
+///
+/// `outer` holds the values of the enclosing graphs that are defined so far.
+fn check_references(graph: &GraphProto, outer: &HashSet<&str>) -> Result<(), Error> {
+    let mut defined = outer.clone();
+    defined.extend(graph.input.iter().map(|input| input.name.as_str()));
+    defined.extend(graph.initializer.iter().map(|init| init.name.as_str()));
+
+    for node in &graph.node {
+        for input in node.input.iter().filter(|input| !input.is_empty()) {
+            if !defined.contains(input.as_str()) {
+                return Err(Error::InvalidGraphStructure {
+                    reason: format!(
+                        "{} node '{}' uses '{}', which is not defined before it",
+                        node.op_type, node.name, input
+                    ),
+                });
+            }
+        }
+        for attribute in &node.attribute {
+            for subgraph in attribute.g.iter().chain(&attribute.graphs) {
+                check_references(subgraph, &defined)?;
+            }
+        }
+        defined.extend(node.output.iter().map(|output| output.as_str()));
+    }
+
+    for output in graph.output.iter().filter(|output| !output.name.is_empty()) {
+        if !defined.contains(output.name.as_str()) {
+            return Err(Error::InvalidGraphStructure {
+                reason: format!("Graph output '{}' is not defined", output.name),
+            });
+        }
+    }
+
+    Ok(())
+}
+
 /// Extract opset version from model (default ONNX domain)
 fn extract_opset_version(model: &ModelProto) -> Result<usize, Error> {
     model
-- 
2.43.0


From 0041694cce7e7275d1f4c49aee4252f5dce6a869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:56 +0000
Subject: [PATCH 38/83] fix: negate native boolean scalars

---
 crates/burn-onnx/src/burn/node/not.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/burn-onnx/src/burn/node/not.rs b/crates/burn-onnx/src/burn/node/not.rs
index 1e4bb34..6988731 100644
--- a/crates/burn-onnx/src/burn/node/not.rs
+++ b/crates/burn-onnx/src/burn/node/not.rs
@@ -10,9 +10,16 @@ impl NodeCodegen for onnx_ir::node::not::NotNode {
     }
 
     fn forward(&self, scope: &mut ScopeAtPosition<'_>) -> TokenStream {
-        let input = scope.arg(self.inputs.first().unwrap());
+        let input_arg = self.inputs.first().unwrap();
+        let input = scope.arg(input_arg);
         let output = arg_to_ident(self.outputs.first().unwrap());
 
+        if input_arg.ty.is_scalar_native() {
+            return quote! {
+                let #output = !#input;
+            };
+        }
+
         quote! {
             let #output = #input.bool_not();
         }
-- 
2.43.0


From bf96f267705dbc8354d33cf593dcd97d39e68316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:56 +0000
Subject: [PATCH 39/83] fix: casts of native scalars between integer types and
 to and from booleans

---
 crates/burn-onnx/src/burn/node/cast.rs | 35 +++++++++++++++-----------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/cast.rs b/crates/burn-onnx/src/burn/node/cast.rs
index 0ca42a4..3f88b36 100644
--- a/crates/burn-onnx/src/burn/node/cast.rs
+++ b/crates/burn-onnx/src/burn/node/cast.rs
@@ -1,5 +1,5 @@
 use super::prelude::*;
-use crate::burn::TensorKind;
+use crate::burn::{TensorKind, scalar_type_tokens};
 use onnx_ir::ir::DType;
 
 impl NodeCodegen for onnx_ir::cast::CastNode {
@@ -28,30 +28,37 @@ impl NodeCodegen for onnx_ir::cast::CastNode {
                     || (input_dtype.is_float()
                         && self.config.to.is_float()
                         && input_dtype != &DType::F64
-                        && self.config.to != DType::F64)
-                    || ((input_dtype.is_int() || input_dtype.is_uint())
-                        && (self.config.to.is_int() || self.config.to.is_uint()));
+                        && self.config.to != DType::F64);
 
                 if is_noop {
                     // No-op cast within same scalar "family".
                     quote! {
                         let #output = #input;
                     }
+                } else if self.config.to.is_bool() {
+                    let zero = if input_dtype.is_float() {
+                        quote! { 0.0 }
+                    } else {
+                        quote! { 0 }
+                    };
+                    quote! {
+                        let #output = #input != #zero;
+                    }
                 } else {
                     // Concrete Rust target type for the cast expression.
                     let ty = match self.config.to {
                         DType::F32 | DType::F16 => quote! { f32 },
-                        DType::F64 => quote! { f64 },
-                        DType::I32 => quote! { i32 },
-                        DType::I64 => quote! { i64 },
-                        DType::U16 => quote! { u16 },
-                        DType::I8 => quote! { i8 },
-                        DType::U8 => quote! { u8 },
-                        DType::Bool => quote! { bool },
-                        _ => panic!("Unsupported DType for Cast: {:?}", self.config.to),
+                        dtype => scalar_type_tokens(&dtype),
                     };
-                    quote! {
-                        let #output = #input as #ty;
+                    if input_dtype.is_bool() && self.config.to.is_float() {
+                        // `bool` converts to floats only by way of an integer
+                        quote! {
+                            let #output = #input as u8 as #ty;
+                        }
+                    } else {
+                        quote! {
+                            let #output = #input as #ty;
+                        }
                     }
                 }
             }
-- 
2.43.0


From 0b383e92dda51f9cc5dfe948e407cf8d85fbb135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:56 +0000
Subject: [PATCH 40/83] fix: comparing a shape with a scalar gives booleans

---
 crates/onnx-ir/src/node/comparison.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/onnx-ir/src/node/comparison.rs b/crates/onnx-ir/src/node/comparison.rs
index e58470f..450c1ff 100644
--- a/crates/onnx-ir/src/node/comparison.rs
+++ b/crates/onnx-ir/src/node/comparison.rs
@@ -46,7 +46,7 @@
 
 use onnx_ir_derive::NodeBuilder;
 
-use crate::ir::{Argument, DType, Node, RawNode};
+use crate::ir::{ArgType, Argument, DType, Node, RawNode, TensorType};
 use crate::processor::{
     ArgPreference, InputPreferences, InputSpec, NodeProcessor, NodeSpec, OutputPreferences,
     OutputSpec, ProcessError,
@@ -169,8 +169,16 @@ impl NodeProcessor for ComparisonProcessor {
             });
         }
 
-        node.outputs[0].ty =
-            crate::processor::broadcast_output_type(&node.inputs, Some(DType::Bool));
+        node.outputs[0].ty = match (&node.inputs[0].ty, &node.inputs[1].ty) {
+            // A shape compared with a scalar on the device is a tensor of booleans
+            (ArgType::Shape(len), ArgType::ScalarTensor(_))
+            | (ArgType::ScalarTensor(_), ArgType::Shape(len)) => ArgType::Tensor(TensorType {
+                dtype: DType::Bool,
+                rank: 1,
+                static_shape: Some(vec![Some(*len)]),
+            }),
+            _ => crate::processor::broadcast_output_type(&node.inputs, Some(DType::Bool)),
+        };
 
         Ok(())
     }
-- 
2.43.0


From 769d6dde1f4e7481f7a4d095ff0a0c1a67161b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:56 +0000
Subject: [PATCH 41/83] fix: gathering from a shape gives as many elements as
 there are indices

---
 crates/onnx-ir/src/node/gather.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/onnx-ir/src/node/gather.rs b/crates/onnx-ir/src/node/gather.rs
index 9301b7a..1e3d7fc 100644
--- a/crates/onnx-ir/src/node/gather.rs
+++ b/crates/onnx-ir/src/node/gather.rs
@@ -178,6 +178,12 @@ impl NodeProcessor for GatherProcessor {
                     // For Shape indices, use the actual shape rank (number of elements)
                     let output_shape_rank = match &node.inputs[1].ty {
                         ArgType::Shape(shape_rank) => *shape_rank,
+                        // One element per index, if their number is known
+                        ArgType::Tensor(TensorType {
+                            rank: 1,
+                            static_shape: Some(dims),
+                            ..
+                        }) => dims[0].unwrap_or(indices_rank),
                         ArgType::Tensor(_) => indices_rank, // For tensor indices, use computed rank
                         _ => indices_rank,
                     };
-- 
2.43.0


From 74bf46b195ca4cf7cb6aeee37137c49404c94293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:24 +0000
Subject: [PATCH 42/83] fix: remove a Reshape only if the sizes are known to
 stay the same

---
 crates/onnx-ir/src/node/reshape.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/node/reshape.rs b/crates/onnx-ir/src/node/reshape.rs
index c764d63..abae74a 100644
--- a/crates/onnx-ir/src/node/reshape.rs
+++ b/crates/onnx-ir/src/node/reshape.rs
@@ -256,7 +256,10 @@ impl NodeProcessor for ReshapeProcessor {
             && let (Some(in_shape), Some(out_shape)) =
                 (&input_t.static_shape, &output_t.static_shape)
         {
-            return in_shape == out_shape;
+            // With two unknown dimensions (or no elements) the sizes can still differ
+            return in_shape == out_shape
+                && in_shape.iter().filter(|dim| dim.is_none()).count() <= 1
+                && !in_shape.contains(&Some(0));
         }
 
         false
-- 
2.43.0


From 507183019c7092dfeba1f3ca88b084ef76f2a10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:53 +0000
Subject: [PATCH 43/83] fix: concatenate runtime integer tensors with shapes by
 their values

---
 crates/burn-onnx/src/burn/node/concat.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/burn-onnx/src/burn/node/concat.rs b/crates/burn-onnx/src/burn/node/concat.rs
index 69b1f22..65579e8 100644
--- a/crates/burn-onnx/src/burn/node/concat.rs
+++ b/crates/burn-onnx/src/burn/node/concat.rs
@@ -106,8 +106,14 @@ impl NodeCodegen for onnx_ir::concat::ConcatNode {
                     if input.ty.is_scalar() {
                         // Scalar: wrap in array and slice
                         shape_parts.push(quote! { &[#input_name][..] });
+                    } else if input.ty.is_tensor() {
+                        // Runtime tensor: read its values
+                        let tensor = scope.arg(input);
+                        shape_parts.push(quote! {
+                            &#tensor.to_data().convert::<i64>().into_vec::<i64>().unwrap()[..]
+                        });
                     } else {
-                        // Shape or tensor: already an array, just slice
+                        // Shape: already an array, just slice
                         shape_parts.push(quote! { &#input_name[..] });
                     }
                 }
-- 
2.43.0


From 207cd98121e624b741c0e61f583e74e16b179a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:53 +0000
Subject: [PATCH 44/83] fix: check external data locations of models opened by
 a bare file name, refuse locations that name no file

---
 crates/onnx-ir/src/external_data.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/crates/onnx-ir/src/external_data.rs b/crates/onnx-ir/src/external_data.rs
index 8921b7f..1a50818 100644
--- a/crates/onnx-ir/src/external_data.rs
+++ b/crates/onnx-ir/src/external_data.rs
@@ -152,8 +152,23 @@ impl ExternalDataInfo {
             }
         }
 
+        // Reject locations that do not name a file ("", ".", "./")
+        if self.location.file_name().is_none() {
+            return Err(format!(
+                "external_data location does not name a file: {:?}",
+                self.location
+            ));
+        }
+
         let resolved = base_path.join(&self.location);
 
+        // The directory of a bare file name is the current directory
+        let base_path = if base_path.as_os_str().is_empty() {
+            Path::new(".")
+        } else {
+            base_path
+        };
+
         // Extra safety: canonicalize and verify the resolved path is under base_path
         // This catches edge cases like symlinks pointing outside the base directory
         if let (Ok(canonical_base), Ok(canonical_resolved)) =
@@ -166,6 +181,14 @@ impl ExternalDataInfo {
             ));
         }
 
+        // A directory holds no tensor data
+        if resolved.is_dir() {
+            return Err(format!(
+                "external_data location is a directory: {:?}",
+                self.location
+            ));
+        }
+
         Ok(resolved)
     }
 }
-- 
2.43.0


From 38961e0035ab51df2a151310613b900d60df3a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:40 +0000
Subject: [PATCH 45/83] fix: refuse external data that its file or the tensor's
 shape contradicts, also for empty tensors

---
 crates/onnx-ir/src/graph_state.rs      |  7 +++++-
 crates/onnx-ir/src/proto_conversion.rs | 28 ++++++++++++++--------
 crates/onnx-ir/src/tensor_store.rs     | 32 ++++++++++++++++++--------
 3 files changed, 46 insertions(+), 21 deletions(-)

diff --git a/crates/onnx-ir/src/graph_state.rs b/crates/onnx-ir/src/graph_state.rs
index eca54cc..eb98cf7 100644
--- a/crates/onnx-ir/src/graph_state.rs
+++ b/crates/onnx-ir/src/graph_state.rs
@@ -18,7 +18,7 @@ use crate::ir::{ArgType, Argument, DataId, NodeType, RawNode, TensorData};
 use crate::proto_conversion::{
     argument_from_initializer, argument_from_initializer_lazy_with_context,
 };
-use crate::protos::{TensorProto, ValueInfoProto};
+use crate::protos::{TensorProto, ValueInfoProto, tensor_proto::DataLocation};
 use crate::tensor_store::TensorDataRef;
 
 use super::tensor_store::TensorStore;
@@ -567,6 +567,11 @@ fn process_initializers(
             let (arg, lazy_data) =
                 match argument_from_initializer_lazy_with_context(initializer.clone(), base_path) {
                     Ok((arg, lazy_data)) => (arg, lazy_data),
+                    Err(e)
+                        if initializer.data_location.enum_value() == Ok(DataLocation::EXTERNAL) =>
+                    {
+                        panic!("invalid external tensor '{}': {:?}", initializer.name, e)
+                    }
                     Err(_) => {
                         // Fallback to standard path for edge cases (scalars, empty tensors)
                         let (arg, data) = argument_from_initializer(initializer);
diff --git a/crates/onnx-ir/src/proto_conversion.rs b/crates/onnx-ir/src/proto_conversion.rs
index e77bfa2..8a1a79e 100644
--- a/crates/onnx-ir/src/proto_conversion.rs
+++ b/crates/onnx-ir/src/proto_conversion.rs
@@ -467,16 +467,15 @@ fn create_external_data_ref(
         .resolve_path(base)
         .map_err(ParseError::VariantNotFound)?;
 
-    // Calculate the length if not specified
-    // When length is not provided, we need to calculate it from shape and dtype
-    let length = external_info.length.unwrap_or_else(|| {
-        let num_elements: usize = if shape.is_empty() {
-            1 // scalar
-        } else {
-            shape.iter().product()
-        };
-        (num_elements * dtype.size()) as u64
-    });
+    // The length follows from shape and dtype; if it is specified, it has to agree
+    let expected = tensor_byte_len(&shape, dtype)? as u64;
+    let length = external_info.length.unwrap_or(expected);
+    if length != expected {
+        return Err(ParseError::VariantNotFound(format!(
+            "Tensor '{}' of shape {:?} and type {:?} has {} bytes, but its external data has length {}",
+            tensor.name, shape, dtype, expected, length
+        )));
+    }
 
     log::debug!(
         "Creating external data ref for '{}': file={}, offset={}, length={}",
@@ -495,6 +494,15 @@ fn create_external_data_ref(
     ))
 }
 
+/// Number of bytes of a tensor (an empty shape is a scalar)
+fn tensor_byte_len(shape: &[usize], dtype: DType) -> Result<usize, ParseError> {
+    shape
+        .iter()
+        .try_fold(dtype.size(), |n, &d| n.checked_mul(d))
+        .filter(|&n| n <= isize::MAX as usize)
+        .ok_or_else(|| ParseError::VariantNotFound(format!("invalid tensor shape {:?}", shape)))
+}
+
 /// Helper to convert a Vec of POD elements to bytes::Bytes
 fn vec_to_bytes<T: bytemuck::Pod>(data: &[T]) -> bytes::Bytes {
     bytes::Bytes::copy_from_slice(bytemuck::cast_slice(data))
diff --git a/crates/onnx-ir/src/tensor_store.rs b/crates/onnx-ir/src/tensor_store.rs
index 61d13c4..c58d2f8 100644
--- a/crates/onnx-ir/src/tensor_store.rs
+++ b/crates/onnx-ir/src/tensor_store.rs
@@ -146,21 +146,21 @@ impl TensorDataRef {
         let mmap = unsafe { memmap2::Mmap::map(&file)? };
 
         let start = offset as usize;
-        let end = start + length as usize;
+        let data = start
+            .checked_add(length as usize)
+            .and_then(|end| mmap.get(start..end));
 
-        if end > mmap.len() {
-            return Err(std::io::Error::new(
+        data.map(|d| d.to_vec()).ok_or_else(|| {
+            std::io::Error::new(
                 std::io::ErrorKind::UnexpectedEof,
                 format!(
-                    "External data range {}..{} exceeds file size {}",
-                    start,
-                    end,
+                    "External data of {} bytes at {} exceeds file size {}",
+                    length,
+                    offset,
                     mmap.len()
                 ),
-            ));
-        }
-
-        Ok(mmap[start..end].to_vec())
+            )
+        })
     }
 
     /// Load external data using standard file I/O
@@ -173,6 +173,18 @@ impl TensorDataRef {
             )
         });
 
+        // Don't allocate more than the file can fill
+        let size = file.metadata().map(|m| m.len()).unwrap_or(0);
+        if offset.checked_add(length).is_none_or(|end| end > size) {
+            panic!(
+                "External data of {} bytes at {} exceeds the size {} of '{}'",
+                length,
+                offset,
+                size,
+                file_path.display()
+            );
+        }
+
         file.seek(SeekFrom::Start(offset)).unwrap_or_else(|e| {
             panic!(
                 "Failed to seek to offset {} in '{}': {}",
-- 
2.43.0


From b7dcd121c8b1d52c4ee25fcddc24e68ff1abd051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:05 +0000
Subject: [PATCH 46/83] fix: refuse tensors whose data does not match their
 shape

---
 crates/onnx-ir/src/proto_conversion.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/onnx-ir/src/proto_conversion.rs b/crates/onnx-ir/src/proto_conversion.rs
index 8a1a79e..0085d27 100644
--- a/crates/onnx-ir/src/proto_conversion.rs
+++ b/crates/onnx-ir/src/proto_conversion.rs
@@ -341,6 +341,12 @@ pub fn tensor_data_ref_from_proto(
     tensor: TensorProto,
     base_path: Option<&Path>,
 ) -> Result<TensorDataRef, ParseError> {
+    if tensor.dims.iter().any(|&d| d < 0) {
+        return Err(ParseError::VariantNotFound(format!(
+            "Tensor '{}' has negative dimensions {:?}",
+            tensor.name, tensor.dims
+        )));
+    }
     let shape = convert_shape(tensor.dims.clone());
     let elem = element_type_from_proto(tensor.data_type).map_err(ParseError::VariantNotFound)?;
 
@@ -349,10 +355,23 @@ pub fn tensor_data_ref_from_proto(
         return create_external_data_ref(&tensor, base_path, shape, elem);
     }
 
+    let expected = tensor_byte_len(&shape, elem)?;
+    let check_len = |len: usize| {
+        if len == expected {
+            Ok(())
+        } else {
+            Err(ParseError::VariantNotFound(format!(
+                "Tensor of shape {:?} and type {:?} has {} bytes, but its data has {}",
+                shape, elem, expected, len
+            )))
+        }
+    };
+
     // Embedded data path: use raw_data directly when available (zero-copy from mmap)
     // Note: For Bool, raw bytes are stored as u8 (0 or 1) and will be reinterpreted
     // as bool during to_tensor_data(). TensorData::as_slice handles this via transmute.
     if !tensor.raw_data.is_empty() {
+        check_len(tensor.raw_data.len())?;
         match elem {
             DType::F32
             | DType::F64
@@ -427,6 +446,7 @@ pub fn tensor_data_ref_from_proto(
                 )));
             }
         };
+        check_len(raw_bytes.len())?;
         Ok(TensorDataRef::new(raw_bytes, shape, elem))
     }
 }
-- 
2.43.0


From fc2361010a303018754a5cc0a40983529e133dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:32 +0000
Subject: [PATCH 47/83] fix: refuse raw data of tensors without elements

---
 crates/onnx-ir/src/proto_conversion.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/onnx-ir/src/proto_conversion.rs b/crates/onnx-ir/src/proto_conversion.rs
index 0085d27..7c0c731 100644
--- a/crates/onnx-ir/src/proto_conversion.rs
+++ b/crates/onnx-ir/src/proto_conversion.rs
@@ -213,8 +213,11 @@ pub fn argument_from_initializer(initializer: &TensorProto) -> (Argument, Tensor
                 return (arg, td);
             }
 
-            // 2.b) Accept EMPTY tensors: dim_elems == 0 with payload_len == 0.
-            if dim_elems == 0 && payload_len == 0 && !dims.is_empty() {
+            // 2.b) Accept EMPTY tensors: dim_elems == 0 without any data.
+            let no_data = payload_len == 0
+                && initializer.raw_data.is_empty()
+                && initializer.uint64_data.is_empty();
+            if dim_elems == 0 && no_data && !dims.is_empty() {
                 // Map ONNX data_type -> DType.
                 // (Covers common types used in initializers; extend as needed.)
                 let dtype = element_type_from_proto(initializer.data_type).unwrap_or_else(|e| {
-- 
2.43.0


From a23779a993d9cbabc2f56ca3d57db12dc0db0242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:30 +0000
Subject: [PATCH 48/83] fix: do not fuse an Add with surplus outputs into
 Linear

---
 crates/onnx-ir/src/phases/node_conversion.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/phases/node_conversion.rs b/crates/onnx-ir/src/phases/node_conversion.rs
index ad123a8..4f0e43c 100644
--- a/crates/onnx-ir/src/phases/node_conversion.rs
+++ b/crates/onnx-ir/src/phases/node_conversion.rs
@@ -590,7 +590,10 @@ fn is_add_node_with_bias(
     graph_data: &GraphState,
 ) -> bool {
     // Check structural requirements first
-    if peek_node.node_type != NodeType::Add || peek_node.inputs.len() != 2 {
+    if peek_node.node_type != NodeType::Add
+        || peek_node.inputs.len() != 2
+        || peek_node.outputs.len() != 1
+    {
         return false;
     }
 
-- 
2.43.0


From ec3ad35e77ebdddc198c6a294ce741f54ce49958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:30 +0000
Subject: [PATCH 49/83] fix: refuse operators of other domains

---
 crates/onnx-ir/src/phases/node_conversion.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/phases/node_conversion.rs b/crates/onnx-ir/src/phases/node_conversion.rs
index 4f0e43c..087bef9 100644
--- a/crates/onnx-ir/src/phases/node_conversion.rs
+++ b/crates/onnx-ir/src/phases/node_conversion.rs
@@ -11,7 +11,7 @@ use crate::{
     graph_state::GraphState,
     ir::{ArgType, Argument, AttributeValue, NodeType, RawNode, TensorData, TensorDataExt},
     pipeline::Error,
-    processor::get_processor_registry,
+    processor::{ProcessError, get_processor_registry},
     proto_conversion::{convert_node_proto, extract_node_outer_scope_references, sanitize_name},
     protos::{GraphProto, NodeProto},
 };
@@ -39,6 +39,16 @@ fn convert_nodes_impl(
     state_rc: &Rc<RefCell<GraphState>>,
     opset_version: usize,
 ) -> Result<(), Error> {
+    // Operators of another domain have a meaning of their own, whatever their name
+    let unsupported: Vec<_> = nodes
+        .iter()
+        .filter(|n| !matches!(n.domain.as_str(), "" | "ai.onnx"))
+        .map(|n| format!("{}.{} (node '{}')", n.domain, n.op_type, n.name))
+        .collect();
+    if !unsupported.is_empty() {
+        return Err(Error::Processing(ProcessError::UnsupportedOps(unsupported)));
+    }
+
     let mut node_name_counter: HashMap<NodeType, usize> = HashMap::new();
 
     // Get the name registry (if available)
-- 
2.43.0


From 06e7f9c7e7290d33cf63e9bb6e78456d5c3aa60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:30 +0000
Subject: [PATCH 50/83] fix: refuse surplus inputs, and Tile without repeats

---
 crates/onnx-ir/src/node/clip.rs          | 2 +-
 crates/onnx-ir/src/node/constant.rs      | 2 +-
 crates/onnx-ir/src/node/gemm.rs          | 2 +-
 crates/onnx-ir/src/node/layer_norm.rs    | 2 +-
 crates/onnx-ir/src/node/linear.rs        | 2 +-
 crates/onnx-ir/src/node/matmulinteger.rs | 8 +++-----
 crates/onnx-ir/src/node/max_pool1d.rs    | 2 +-
 crates/onnx-ir/src/node/max_pool2d.rs    | 2 +-
 crates/onnx-ir/src/node/reshape.rs       | 2 +-
 crates/onnx-ir/src/node/slice.rs         | 2 +-
 crates/onnx-ir/src/node/split.rs         | 2 +-
 crates/onnx-ir/src/node/squeeze.rs       | 2 +-
 crates/onnx-ir/src/node/tile.rs          | 2 +-
 crates/onnx-ir/src/node/unsqueeze.rs     | 2 +-
 14 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/crates/onnx-ir/src/node/clip.rs b/crates/onnx-ir/src/node/clip.rs
index 34705d8..ac0c48e 100644
--- a/crates/onnx-ir/src/node/clip.rs
+++ b/crates/onnx-ir/src/node/clip.rs
@@ -61,7 +61,7 @@ impl NodeProcessor for ClipProcessor {
         NodeSpec {
             min_opset: 1,
             max_opset: None,
-            inputs: InputSpec::AtLeast(1),
+            inputs: InputSpec::Range(1, 3),
             outputs: OutputSpec::Exact(1),
         }
     }
diff --git a/crates/onnx-ir/src/node/constant.rs b/crates/onnx-ir/src/node/constant.rs
index 584b81a..7bd4e35 100644
--- a/crates/onnx-ir/src/node/constant.rs
+++ b/crates/onnx-ir/src/node/constant.rs
@@ -39,7 +39,7 @@ impl NodeProcessor for ConstantProcessor {
         NodeSpec {
             min_opset: 1,
             max_opset: None,
-            inputs: InputSpec::AtLeast(0),
+            inputs: InputSpec::Range(0, 1),
             outputs: OutputSpec::Exact(1),
         }
     }
diff --git a/crates/onnx-ir/src/node/gemm.rs b/crates/onnx-ir/src/node/gemm.rs
index f769533..0271be3 100644
--- a/crates/onnx-ir/src/node/gemm.rs
+++ b/crates/onnx-ir/src/node/gemm.rs
@@ -67,7 +67,7 @@ impl NodeProcessor for GemmProcessor {
         NodeSpec {
             min_opset: 1,
             max_opset: None,
-            inputs: InputSpec::AtLeast(2),
+            inputs: InputSpec::Range(2, 3),
             outputs: OutputSpec::Exact(1),
         }
     }
diff --git a/crates/onnx-ir/src/node/layer_norm.rs b/crates/onnx-ir/src/node/layer_norm.rs
index 17fc229..2faa50c 100644
--- a/crates/onnx-ir/src/node/layer_norm.rs
+++ b/crates/onnx-ir/src/node/layer_norm.rs
@@ -68,7 +68,7 @@ impl NodeProcessor for LayerNormProcessor {
         NodeSpec {
             min_opset: 17,
             max_opset: None,
-            inputs: InputSpec::AtLeast(2),
+            inputs: InputSpec::Range(2, 3),
             outputs: OutputSpec::Exact(1),
         }
     }
diff --git a/crates/onnx-ir/src/node/linear.rs b/crates/onnx-ir/src/node/linear.rs
index 2f95c1d..9115ab0 100644
--- a/crates/onnx-ir/src/node/linear.rs
+++ b/crates/onnx-ir/src/node/linear.rs
@@ -62,7 +62,7 @@ impl NodeProcessor for LinearProcessor {
         NodeSpec {
             min_opset: 1,
             max_opset: None,
-            inputs: InputSpec::AtLeast(2),
+            inputs: InputSpec::Range(2, 3),
             outputs: OutputSpec::Exact(1),
         }
     }
diff --git a/crates/onnx-ir/src/node/matmulinteger.rs b/crates/onnx-ir/src/node/matmulinteger.rs
index 4e6cef9..9e2b037 100644
--- a/crates/onnx-ir/src/node/matmulinteger.rs
+++ b/crates/onnx-ir/src/node/matmulinteger.rs
@@ -46,12 +46,10 @@ impl NodeProcessor for MatMulIntegerProcessor {
             });
         }
 
-        // FIXME: Spec mentions 2-4 inputs (A, B, a_zero_point optional, b_zero_point optional)
-        // but we only validate minimum 2 inputs. Should validate that we don't have more than 4 inputs
-        // and that the optional zero_point inputs have correct types (T1/T2).
+        // FIXME: We should validate that the optional zero_point inputs have correct types (T1/T2).
 
-        // Validate input count
-        if node.inputs.len() < 2 {
+        // Validate input count: A, B, a_zero_point (optional), b_zero_point (optional)
+        if node.inputs.len() < 2 || node.inputs.len() > 4 {
             return Err(ProcessError::InvalidInputCount {
                 expected: 2,
                 actual: node.inputs.len(),
diff --git a/crates/onnx-ir/src/node/max_pool1d.rs b/crates/onnx-ir/src/node/max_pool1d.rs
index f2443e1..d23c3dc 100644
--- a/crates/onnx-ir/src/node/max_pool1d.rs
+++ b/crates/onnx-ir/src/node/max_pool1d.rs
@@ -90,7 +90,7 @@ impl NodeProcessor for MaxPool1dProcessor {
         NodeSpec {
             min_opset: 1,
             max_opset: None,
-            inputs: InputSpec::AtLeast(1),
+            inputs: InputSpec::Exact(1),
             outputs: OutputSpec::Exact(1),
         }
     }
diff --git a/crates/onnx-ir/src/node/max_pool2d.rs b/crates/onnx-ir/src/node/max_pool2d.rs
index 82e60e8..ff2c36e 100644
--- a/crates/onnx-ir/src/node/max_pool2d.rs
+++ b/crates/onnx-ir/src/node/max_pool2d.rs
@@ -87,7 +87,7 @@ impl NodeProcessor for MaxPool2dProcessor {
         NodeSpec {
             min_opset: 1,
             max_opset: None,
-            inputs: InputSpec::AtLeast(1),
+            inputs: InputSpec::Exact(1),
             outputs: OutputSpec::Exact(1),
         }
     }
diff --git a/crates/onnx-ir/src/node/reshape.rs b/crates/onnx-ir/src/node/reshape.rs
index abae74a..faf5460 100644
--- a/crates/onnx-ir/src/node/reshape.rs
+++ b/crates/onnx-ir/src/node/reshape.rs
@@ -269,7 +269,7 @@ impl NodeProcessor for ReshapeProcessor {
         NodeSpec {
             min_opset: 1,
             max_opset: None,
-            inputs: InputSpec::AtLeast(1),
+            inputs: InputSpec::Range(1, 2),
             outputs: OutputSpec::Exact(1),
         }
     }
diff --git a/crates/onnx-ir/src/node/slice.rs b/crates/onnx-ir/src/node/slice.rs
index 9bef85a..1cd3902 100644
--- a/crates/onnx-ir/src/node/slice.rs
+++ b/crates/onnx-ir/src/node/slice.rs
@@ -112,7 +112,7 @@ impl NodeProcessor for SliceProcessor {
         NodeSpec {
             min_opset: 1,
             max_opset: None,
-            inputs: InputSpec::AtLeast(1),
+            inputs: InputSpec::Range(1, 5),
             outputs: OutputSpec::Exact(1),
         }
     }
diff --git a/crates/onnx-ir/src/node/split.rs b/crates/onnx-ir/src/node/split.rs
index a9fea6d..2877ba5 100644
--- a/crates/onnx-ir/src/node/split.rs
+++ b/crates/onnx-ir/src/node/split.rs
@@ -68,7 +68,7 @@ impl NodeProcessor for SplitProcessor {
         NodeSpec {
             min_opset: 1,
             max_opset: None,
-            inputs: InputSpec::AtLeast(1),
+            inputs: InputSpec::Range(1, 2),
             outputs: OutputSpec::Range(1, 2147483647),
         }
     }
diff --git a/crates/onnx-ir/src/node/squeeze.rs b/crates/onnx-ir/src/node/squeeze.rs
index 5c9431c..2414cda 100644
--- a/crates/onnx-ir/src/node/squeeze.rs
+++ b/crates/onnx-ir/src/node/squeeze.rs
@@ -60,7 +60,7 @@ impl NodeProcessor for SqueezeProcessor {
         NodeSpec {
             min_opset: 1,
             max_opset: None,
-            inputs: InputSpec::AtLeast(1),
+            inputs: InputSpec::Range(1, 2),
             outputs: OutputSpec::Exact(1),
         }
     }
diff --git a/crates/onnx-ir/src/node/tile.rs b/crates/onnx-ir/src/node/tile.rs
index c1c2ed2..a3d8879 100644
--- a/crates/onnx-ir/src/node/tile.rs
+++ b/crates/onnx-ir/src/node/tile.rs
@@ -69,7 +69,7 @@ impl NodeProcessor for TileProcessor {
         NodeSpec {
             min_opset: 1,
             max_opset: None,
-            inputs: InputSpec::AtLeast(1),
+            inputs: InputSpec::Exact(2),
             outputs: OutputSpec::Exact(1),
         }
     }
diff --git a/crates/onnx-ir/src/node/unsqueeze.rs b/crates/onnx-ir/src/node/unsqueeze.rs
index aef4822..f03b1b0 100644
--- a/crates/onnx-ir/src/node/unsqueeze.rs
+++ b/crates/onnx-ir/src/node/unsqueeze.rs
@@ -62,7 +62,7 @@ impl NodeProcessor for UnsqueezeProcessor {
         NodeSpec {
             min_opset: 1,
             max_opset: None,
-            inputs: InputSpec::AtLeast(1),
+            inputs: InputSpec::Range(1, 2),
             outputs: OutputSpec::Exact(1),
         }
     }
-- 
2.43.0


From dfe50313c0b44afd2fee785c800e9e9195962058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:30 +0000
Subject: [PATCH 51/83] fix: refuse required inputs left out with an empty name

---
 crates/onnx-ir/src/processor.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/onnx-ir/src/processor.rs b/crates/onnx-ir/src/processor.rs
index 8f69366..95225dd 100644
--- a/crates/onnx-ir/src/processor.rs
+++ b/crates/onnx-ir/src/processor.rs
@@ -395,6 +395,21 @@ fn validate_input_spec(node: &RawNode, opset: usize, spec: &InputSpec) -> Result
     // This ensures we only validate the original ONNX inputs, not extra scope refs
     let actual = get_onnx_input_count(node);
 
+    // Inputs that must be there cannot be left out with an empty name
+    if let InputSpec::Exact(required) | InputSpec::AtLeast(required) | InputSpec::Range(required, _) =
+        spec
+        && let Some(i) = node
+            .inputs
+            .iter()
+            .take(*required)
+            .position(|input| input.is_optional())
+    {
+        return Err(ProcessError::MissingInput(format!(
+            "input {i} of {:?} node '{}'",
+            node.node_type, node.name
+        )));
+    }
+
     match spec {
         InputSpec::Exact(expected) => {
             if actual != *expected {
-- 
2.43.0


From 0f9debb4e21d78bcebc818646432a06d1a64f405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:39 +0000
Subject: [PATCH 52/83] fix: embed weights also when the output directory is
 relative

---
 crates/burn-onnx/src/burn/graph.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/burn-onnx/src/burn/graph.rs b/crates/burn-onnx/src/burn/graph.rs
index e2ea195..da76374 100644
--- a/crates/burn-onnx/src/burn/graph.rs
+++ b/crates/burn-onnx/src/burn/graph.rs
@@ -321,6 +321,8 @@ impl BurnGraph {
         let file_size = std::fs::metadata(&file)
             .expect("Failed to read burnpack file metadata")
             .len() as usize;
+        // `include_bytes!` resolves a relative path against the generated source file
+        let file = std::path::absolute(file).expect("Failed to resolve burnpack file path");
         let file = file.to_str().unwrap();
 
         self.default = Some(quote! {
-- 
2.43.0


From a70a3386c132c2441c5ec2af167d6c28c7d62be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:39 +0000
Subject: [PATCH 53/83] fix: keep dotted model names apart

---
 crates/burn-onnx/src/model_gen.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/burn-onnx/src/model_gen.rs b/crates/burn-onnx/src/model_gen.rs
index ef3c6c1..0d6ad4b 100644
--- a/crates/burn-onnx/src/model_gen.rs
+++ b/crates/burn-onnx/src/model_gen.rs
@@ -331,7 +331,7 @@ impl ModelGen {
         let code = self.generate_burn_graph(graph, &out_file, top_comment);
 
         let code_str = format_tokens(code);
-        let source_code_file = out_file.with_extension("rs");
+        let source_code_file = add_extension(&out_file, "rs");
         log::info!("Writing source code to {}", source_code_file.display());
         fs::write(source_code_file, code_str).unwrap();
 
@@ -341,7 +341,7 @@ impl ModelGen {
     /// Write debug file in development mode.
     fn write_debug_file<T: std::fmt::Debug>(&self, out_file: &Path, extension: &str, content: &T) {
         let debug_content = format!("{content:#?}");
-        let debug_file = out_file.with_extension(extension);
+        let debug_file = add_extension(out_file, extension);
         log::debug!("Writing debug file: {debug_file:?}");
         fs::write(debug_file, debug_content).unwrap();
     }
@@ -353,7 +353,7 @@ impl ModelGen {
         out_file: &Path,
         top_comment: Option<String>,
     ) -> proc_macro2::TokenStream {
-        let bpk_file = out_file.with_extension("bpk");
+        let bpk_file = add_extension(out_file, "bpk");
         graph
             .into_burn()
             .with_burnpack(bpk_file, self.embed_states)
@@ -363,6 +363,15 @@ impl ModelGen {
     }
 }
 
+/// Append an extension to a path, keeping the part of the file name after a dot
+/// (unlike [`Path::with_extension`], which would replace it).
+fn add_extension(path: &Path, extension: &str) -> PathBuf {
+    let mut path = path.as_os_str().to_owned();
+    path.push(".");
+    path.push(extension);
+    path.into()
+}
+
 #[derive(Debug)]
 struct ParsedOnnxGraph(OnnxGraph);
 
-- 
2.43.0


From bd4374f2be0cb02e301ce060c51e9d3439f73564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:39 +0000
Subject: [PATCH 54/83] fix: refuse models of the same name in one call

---
 crates/burn-onnx/src/model_gen.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/burn-onnx/src/model_gen.rs b/crates/burn-onnx/src/model_gen.rs
index 0d6ad4b..a38c1b8 100644
--- a/crates/burn-onnx/src/model_gen.rs
+++ b/crates/burn-onnx/src/model_gen.rs
@@ -1,4 +1,5 @@
 use std::{
+    collections::HashMap,
     env,
     fs::{self, create_dir_all},
     path::{Path, PathBuf},
@@ -282,6 +283,19 @@ impl ModelGen {
 
         create_dir_all(&out_dir).unwrap();
 
+        // Models of the same name would overwrite each other's files
+        let mut names = HashMap::new();
+        for input in self.inputs.iter() {
+            let other = names.insert(input.file_stem().unwrap(), input);
+            if let Some(other) = other.filter(|other| *other != input) {
+                panic!(
+                    "Models '{}' and '{}' have the same name, generate them into different directories",
+                    other.display(),
+                    input.display()
+                );
+            }
+        }
+
         for input in self.inputs.iter() {
             let file_name = input.file_stem().unwrap();
             let out_file: PathBuf = out_dir.join(file_name);
-- 
2.43.0


From d90005b34adcb89bcf976c8d12e31c738c74bdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:24 +0000
Subject: [PATCH 55/83] fix: tell tensor attributes apart when merging
 duplicate nodes

---
 .../onnx-ir/src/simplify/redundant_nodes.rs   | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/onnx-ir/src/simplify/redundant_nodes.rs b/crates/onnx-ir/src/simplify/redundant_nodes.rs
index b510b44..ec92d14 100644
--- a/crates/onnx-ir/src/simplify/redundant_nodes.rs
+++ b/crates/onnx-ir/src/simplify/redundant_nodes.rs
@@ -99,12 +99,28 @@ fn cse_key(node: &RawNode) -> String {
     let input_names: Vec<&str> = node.inputs.iter().map(|i| i.name.as_str()).collect();
 
     // Sort attributes by key for deterministic comparison
-    let mut attrs: Vec<(&String, &AttributeValue)> = node.attrs.iter().collect();
-    attrs.sort_by_key(|(k, _)| *k);
+    let mut attrs: Vec<(&String, String)> = node
+        .attrs
+        .iter()
+        .map(|(name, value)| (name, attribute_key(value)))
+        .collect();
+    attrs.sort();
 
     format!("{:?}|{:?}|{:?}", node.node_type, input_names, attrs)
 }
 
+/// Part of the CSE key for an attribute value. The debug format of a tensor leaves out most of
+/// its data, so the bytes are part of the key as well.
+fn attribute_key(value: &AttributeValue) -> String {
+    let tensors = match value {
+        AttributeValue::Tensor(tensor) => std::slice::from_ref(tensor),
+        AttributeValue::Tensors(tensors) => tensors.as_slice(),
+        _ => &[],
+    };
+    let bytes: Vec<&[u8]> = tensors.iter().map(|tensor| &tensor.bytes[..]).collect();
+    format!("{value:?}{bytes:?}")
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 0a0a42a94491985fb85c12256a316b6b94bd9708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:36 +0000
Subject: [PATCH 56/83] fix: boolean attention masks of any rank beside a QK
 output

---
 crates/burn-onnx/src/burn/node/attention.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/burn-onnx/src/burn/node/attention.rs b/crates/burn-onnx/src/burn/node/attention.rs
index 853f14f..ec8092d 100644
--- a/crates/burn-onnx/src/burn/node/attention.rs
+++ b/crates/burn-onnx/src/burn/node/attention.rs
@@ -330,8 +330,9 @@ fn forward_custom(
                 }
                 dtype if dtype.is_float() => mask_arg,
                 dtype if dtype.is_bool() => {
+                    let rank = t.rank;
                     quote! {{
-                        let float_mask = Tensor::<B, 2>::zeros([shape[2], shape[3]], &#mask_arg.device());
+                        let float_mask = Tensor::<B, #rank>::zeros(#mask_arg.dims(), &#mask_arg.device());
                         float_mask.mask_fill(#mask_arg.bool_not(), f32::NEG_INFINITY)
                     }}
                 }
-- 
2.43.0


From 2709f517002efb37da6a5af1d47434af13cb7c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:36 +0000
Subject: [PATCH 57/83] fix: QK output after the soft cap when there is no soft
 cap

---
 crates/burn-onnx/src/burn/node/attention.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/burn-onnx/src/burn/node/attention.rs b/crates/burn-onnx/src/burn/node/attention.rs
index ec8092d..497625a 100644
--- a/crates/burn-onnx/src/burn/node/attention.rs
+++ b/crates/burn-onnx/src/burn/node/attention.rs
@@ -404,6 +404,7 @@ fn forward_custom(
     } else {
         quote! {
             let #capped = #qk;
+            #qk_matmul_c
         }
     };
 
-- 
2.43.0


From 3df296506e7031648bb5306b9e8f04383e2a2de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:49 +0000
Subject: [PATCH 58/83] fix: reductions that noop_with_empty_axes turns into
 the identity

---
 crates/onnx-ir/src/node/reduce.rs | 38 +++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/crates/onnx-ir/src/node/reduce.rs b/crates/onnx-ir/src/node/reduce.rs
index 6c40dc8..cb961bb 100644
--- a/crates/onnx-ir/src/node/reduce.rs
+++ b/crates/onnx-ir/src/node/reduce.rs
@@ -23,6 +23,7 @@ use derive_new::new;
 use onnx_ir_derive::NodeBuilder;
 
 use crate::ir::{ArgType, Argument, Node, NodeType, RawNode, TensorType};
+use crate::node::identity::IdentityNode;
 use crate::processor::{
     InputSpec, NodeProcessor, NodeSpec, OutputPreferences, OutputSpec, ProcessError,
 };
@@ -125,6 +126,15 @@ pub struct ReduceLogSumExpNode {
 
 pub(crate) struct ReduceProcessor;
 
+/// Whether nothing is reduced: no axes are given and noop_with_empty_axes is set
+fn is_noop(node: &RawNode, config: &ReduceConfig) -> bool {
+    config.dims.is_empty()
+        && node
+            .attrs
+            .get("noop_with_empty_axes")
+            .is_some_and(|value| value.clone().into_i64() != 0)
+}
+
 /// Whether the axes are an input whose value is not known
 fn has_computed_axes(node: &RawNode) -> bool {
     node.inputs
@@ -225,6 +235,12 @@ impl NodeProcessor for ReduceProcessor {
             return Ok(());
         }
 
+        // Without axes, noop_with_empty_axes asks for the input as it is
+        if is_noop(node, &config) {
+            node.outputs[0].ty = node.inputs[0].ty.clone();
+            return Ok(());
+        }
+
         // Determine if the output should be a scalar
         let should_be_scalar = keepdims == 0 && (dims.is_empty() || dims.len() == tensor_rank);
 
@@ -333,6 +349,28 @@ impl NodeProcessor for ReduceProcessor {
             .extract_config(&builder, opset)
             .expect("Config extraction failed");
 
+        if is_noop(&builder, &config) {
+            // The element-wise part of the other reductions remains
+            assert!(
+                matches!(
+                    builder.node_type,
+                    NodeType::ReduceMax
+                        | NodeType::ReduceMin
+                        | NodeType::ReduceMean
+                        | NodeType::ReduceSum
+                        | NodeType::ReduceProd
+                ),
+                "{:?} ({}): noop_with_empty_axes without axes is not supported",
+                builder.node_type,
+                builder.name
+            );
+            return Node::Identity(IdentityNode {
+                name: builder.name,
+                inputs: builder.inputs.into_iter().take(1).collect(),
+                outputs: builder.outputs,
+            });
+        }
+
         match builder.node_type {
             NodeType::ReduceMax => Node::ReduceMax(ReduceMaxNode {
                 name: builder.name,
-- 
2.43.0


From 2ac8578aff3e9052cdc7b37a294309656cec193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:01 +0000
Subject: [PATCH 59/83] fix: Gemm with a double precision number as its C input

---
 crates/burn-onnx/src/burn/node/gemm.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/gemm.rs b/crates/burn-onnx/src/burn/node/gemm.rs
index cefbe20..048decf 100644
--- a/crates/burn-onnx/src/burn/node/gemm.rs
+++ b/crates/burn-onnx/src/burn/node/gemm.rs
@@ -58,8 +58,13 @@ impl NodeCodegen for onnx_ir::gemm::GemmNode {
             };
 
             // Apply beta scaling to C
-            let scaled_c = match beta {
-                1.0 => c,
+            let scaled_c = match (beta, &c_input.ty) {
+                (1.0, _) => c,
+                // A native number is multiplied by one of its own type
+                (_, onnx_ir::ir::ArgType::ScalarNative(DType::F64)) => {
+                    let beta = beta as f64;
+                    quote! { (#c) * #beta }
+                }
                 _ => quote! { (#c) * #beta },
             };
 
-- 
2.43.0


From fb70cda17e0e35b12617cc7d9552f840adf28b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:28 +0000
Subject: [PATCH 60/83] fix: Where of numbers on the device

---
 crates/burn-onnx/src/burn/node/where_op.rs | 24 +++++++++++-----------
 crates/onnx-ir/src/node/where_op.rs        |  7 +++++++
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/where_op.rs b/crates/burn-onnx/src/burn/node/where_op.rs
index e8da95f..98bfc86 100644
--- a/crates/burn-onnx/src/burn/node/where_op.rs
+++ b/crates/burn-onnx/src/burn/node/where_op.rs
@@ -79,18 +79,17 @@ impl NodeCodegen for onnx_ir::where_op::WhereNode {
                         quote! { #name }
                     }
                 };
-                let x_expr = if x_arg.ty.is_on_device() {
-                    scope.arg(x_arg)
-                } else {
-                    let name = arg_to_ident(x_arg);
-                    quote! { #name }
-                };
-                let y_expr = if y_arg.ty.is_on_device() {
-                    scope.arg(y_arg)
-                } else {
-                    let name = arg_to_ident(y_arg);
-                    quote! { #name }
+                let mut branch = |arg: &Argument| match &output_arg.ty {
+                    // Either number may still have to be put on the device
+                    ArgType::ScalarTensor(dtype) => where_input_as_tensor(arg, 1, *dtype, scope),
+                    _ if arg.ty.is_on_device() => scope.arg(arg),
+                    _ => {
+                        let name = arg_to_ident(arg);
+                        quote! { #name }
+                    }
                 };
+                let x_expr = branch(x_arg);
+                let y_expr = branch(y_arg);
 
                 quote! {
                     let #output = if #cond_expr {
@@ -182,7 +181,8 @@ fn where_input_as_tensor(
             if broadcast_rank > 1 {
                 let dims_to_unsqueeze: Vec<isize> =
                     (0..broadcast_rank - 1).map(|d| d as isize).collect();
-                quote! { #tensor.unsqueeze_dims(&[#(#dims_to_unsqueeze),*]) }
+                let rank = broadcast_rank.to_tokens();
+                quote! { #tensor.unsqueeze_dims::<#rank>(&[#(#dims_to_unsqueeze),*]) }
             } else {
                 tensor
             }
diff --git a/crates/onnx-ir/src/node/where_op.rs b/crates/onnx-ir/src/node/where_op.rs
index ba14d20..54c3813 100644
--- a/crates/onnx-ir/src/node/where_op.rs
+++ b/crates/onnx-ir/src/node/where_op.rs
@@ -131,6 +131,13 @@ impl NodeProcessor for WhereProcessor {
         // Determine output type
         if output_rank == 0 {
             node.outputs[0].ty = ArgType::ScalarNative(elem_type);
+        } else if node.inputs.iter().all(|input| input.ty.is_scalar()) {
+            // Numbers on the device have one element, but no dimension
+            node.outputs[0].ty = if x.is_on_device() || y.is_on_device() {
+                ArgType::ScalarTensor(elem_type)
+            } else {
+                ArgType::ScalarNative(elem_type)
+            };
         } else if should_output_shape(x, y, output_rank, &elem_type) {
             // If both inputs are Shape types and output is 1D int64, preserve Shape type
             let shape_size = get_shape_size(x).max(get_shape_size(y));
-- 
2.43.0


From 6644ab32f583e38f44c3ce4c7f88ca5c9ab2a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:57 +0000
Subject: [PATCH 61/83] fix: Slice with bounds computed at run time: axes,
 steps, negative and missing values

---
 crates/burn-onnx/src/burn/node/slice.rs | 454 ++++++++----------------
 1 file changed, 139 insertions(+), 315 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/slice.rs b/crates/burn-onnx/src/burn/node/slice.rs
index 83008dd..8dd44d8 100644
--- a/crates/burn-onnx/src/burn/node/slice.rs
+++ b/crates/burn-onnx/src/burn/node/slice.rs
@@ -40,6 +40,13 @@ fn generate_tensor_slice(
     let input = scope.arg(input_arg);
     let mut ranges = vec![quote! { .. }; rank];
 
+    // The generated slice selects dimensions and steps when it is compiled
+    for (name, input) in [("axes", &node.config.axes), ("steps", &node.config.steps)] {
+        if let Some(onnx_ir::slice::SliceInput::Runtime(_)) = input {
+            panic!("Slice {name} must be known at compile time");
+        }
+    }
+
     // Build slice ranges based on parameter types
     match (&node.config.starts, &node.config.ends) {
         // Both static: simple case
@@ -114,349 +121,166 @@ fn generate_tensor_slice(
             }
         }
 
-        // Both runtime shapes: multi-dimensional slicing
+        // Both scalars: use as single axis slice
         (
             onnx_ir::slice::SliceInput::Runtime(start_ref),
             onnx_ir::slice::SliceInput::Runtime(end_ref),
-        ) => {
-            let start_arg = &node.inputs[start_ref.input_index];
-            let end_arg = &node.inputs[end_ref.input_index];
-
-            if let (ArgType::Shape(start_rank), ArgType::Shape(end_rank)) =
-                (&start_arg.ty, &end_arg.ty)
-            {
-                let start_name = arg_to_ident(start_arg);
-                let end_name = arg_to_ident(end_arg);
-
-                // Check if axes are provided
-                if let Some(onnx_ir::slice::SliceInput::Static(ref axes)) = node.config.axes {
-                    // Apply slicing to specified axes (already normalized by onnx-ir)
-                    let num_dims = axes.len().min(*start_rank).min(*end_rank);
-                    for i in 0..num_dims {
-                        let axis_idx = axes[i] as usize;
-                        if axis_idx < rank {
-                            let idx = proc_macro2::Literal::usize_unsuffixed(i);
-                            ranges[axis_idx] = quote! { #start_name[#idx]..#end_name[#idx] };
-                        }
-                    }
-                } else {
-                    // No axes provided - use default behavior
-                    let num_dims = start_rank.min(end_rank).min(&rank);
-                    for (i, range) in ranges.iter_mut().enumerate().take(*num_dims) {
-                        let idx = proc_macro2::Literal::usize_unsuffixed(i);
-                        *range = quote! { #start_name[#idx]..#end_name[#idx] };
-                    }
-                }
-            } else if matches!(
-                (&start_arg.ty, &end_arg.ty),
-                (ArgType::Tensor(_), ArgType::Tensor(_))
-            ) {
-                // Both 1D tensors: extract values from tensors at runtime
-                let start_name = arg_to_ident(start_arg);
-                let end_name = arg_to_ident(end_arg);
-
-                // Generate code to extract values from tensors
-                let start_data_var = quote! { start_data };
-                let start_vec_var = quote! { start_vec };
-                let end_data_var = quote! { end_data };
-                let end_vec_var = quote! { end_vec };
-
-                // Check if axes are provided (from onnx-ir with ONNX spec defaults)
-                if let Some(onnx_ir::slice::SliceInput::Static(ref axes)) = node.config.axes {
-                    // Build ranges respecting the axes
-                    let mut ranges = vec![quote! { .. }; rank];
-                    for (idx, &axis) in axes.iter().enumerate() {
-                        let axis_idx = axis as usize;
-                        if axis_idx < rank {
-                            let vec_idx = proc_macro2::Literal::usize_unsuffixed(idx);
-                            ranges[axis_idx] = quote! {
-                                #start_vec_var[#vec_idx] as usize..#end_vec_var[#vec_idx] as usize
-                            };
-                        }
-                    }
-
-                    return quote! {
-                        let #start_data_var = #start_name.to_data();
-                        let #start_vec_var: alloc::vec::Vec<i64> = #start_data_var.iter::<i64>().collect();
-                        let #end_data_var = #end_name.to_data();
-                        let #end_vec_var: alloc::vec::Vec<i64> = #end_data_var.iter::<i64>().collect();
-                        let #output = #input.slice(s![#(#ranges),*]);
-                    };
-                } else {
-                    // No axes - slice all dimensions (ONNX spec default would have provided axes)
-                    panic!("Axes must be provided by onnx-ir for tensor slice");
-                }
-            } else if matches!(
-                (&start_arg.ty, &end_arg.ty),
-                (
-                    ArgType::ScalarNative(_) | ArgType::ScalarTensor(_),
-                    ArgType::ScalarNative(_) | ArgType::ScalarTensor(_)
-                )
-            ) {
-                // Both scalars: use as single axis slice
-                let start_name = arg_to_ident(start_arg);
-                let end_name = arg_to_ident(end_arg);
-
-                // Get the axis to slice (provided by onnx-ir with ONNX spec defaults)
-                let axis_idx = match &node.config.axes {
-                    Some(onnx_ir::slice::SliceInput::Static(axes)) => {
-                        *axes.first().expect("Axes array is empty for scalar slice") as usize
-                    }
-                    _ => panic!("Axes must be Static for scalar slice"),
-                };
-
-                if axis_idx < rank {
-                    ranges[axis_idx] = quote! { (#start_name as usize)..(#end_name as usize) };
-                }
-            } else {
-                // Mixed types: Shape/Tensor combination
-                let start_name = arg_to_ident(start_arg);
-                let end_name = arg_to_ident(end_arg);
-
-                // Determine the number of dims we can safely index
-                let start_rank = start_arg.ty.rank();
-                let end_rank = end_arg.ty.rank();
-                let num_slice_dims = start_rank.min(end_rank);
-
-                // Need to extract tensor values at runtime
-                let start_is_tensor = start_arg.ty.is_tensor();
-                let end_is_tensor = end_arg.ty.is_tensor();
-
-                let start_vec_var = quote! { start_vec };
-                let end_vec_var = quote! { end_vec };
-
-                // Build the extraction code
-                let mut extraction_code = quote! {};
-
-                if start_is_tensor {
-                    extraction_code = quote! {
-                        #extraction_code
-                        let start_data = #start_name.to_data();
-                        let #start_vec_var: alloc::vec::Vec<i64> = start_data.iter::<i64>().collect();
-                    };
-                }
-
-                if end_is_tensor {
-                    extraction_code = quote! {
-                        #extraction_code
-                        let end_data = #end_name.to_data();
-                        let #end_vec_var: alloc::vec::Vec<i64> = end_data.iter::<i64>().collect();
-                    };
-                }
-
-                // Check if axes are provided
-                if let Some(onnx_ir::slice::SliceInput::Static(ref axes)) = node.config.axes {
-                    // Apply slicing to specified axes only
-                    let mut ranges = vec![quote! { .. }; rank];
-
-                    for (i, &axis) in axes.iter().enumerate() {
-                        let axis_idx = axis as usize;
-                        if axis_idx < rank {
-                            let idx = proc_macro2::Literal::usize_unsuffixed(i);
-                            let start_expr = if start_is_tensor {
-                                quote! { #start_vec_var[#idx] as usize }
-                            } else {
-                                quote! { #start_name[#idx] as usize }
-                            };
-                            let end_expr = if end_is_tensor {
-                                quote! { #end_vec_var[#idx] as usize }
-                            } else {
-                                quote! { #end_name[#idx] as usize }
-                            };
-                            ranges[axis_idx] = quote! { #start_expr..#end_expr };
-                        }
-                    }
-
-                    return quote! {
-                        #extraction_code
-                        let #output = #input.slice(s![#(#ranges),*]);
-                    };
-                } else {
-                    // No axes provided - apply to first N dimensions
-                    let range_exprs: Vec<_> = (0..rank)
-                        .map(|i| {
-                            if i < num_slice_dims {
-                                let idx = proc_macro2::Literal::usize_unsuffixed(i);
-                                let start_expr = if start_is_tensor {
-                                    quote! { #start_vec_var[#idx] as usize }
-                                } else {
-                                    quote! { #start_name[#idx] as usize }
-                                };
-                                let end_expr = if end_is_tensor {
-                                    quote! { #end_vec_var[#idx] as usize }
-                                } else {
-                                    quote! { #end_name[#idx] as usize }
-                                };
-                                quote! { #start_expr..#end_expr }
-                            } else {
-                                quote! { .. }
-                            }
-                        })
-                        .collect();
+        ) if node.inputs[start_ref.input_index].ty.is_scalar()
+            && node.inputs[end_ref.input_index].ty.is_scalar() =>
+        {
+            let start_name = arg_to_ident(&node.inputs[start_ref.input_index]);
+            let end_name = arg_to_ident(&node.inputs[end_ref.input_index]);
+            let axis_idx = scalar_slice_axis(node);
 
-                    return quote! {
-                        #extraction_code
-                        let #output = #input.slice(s![#(#range_exprs),*]);
-                    };
-                }
+            if axis_idx < rank {
+                ranges[axis_idx] = quote! { (#start_name as usize)..(#end_name as usize) };
             }
         }
 
-        // Static start, runtime end
+        // Static start, scalar end
         (
             onnx_ir::slice::SliceInput::Static(starts),
             onnx_ir::slice::SliceInput::Runtime(end_ref),
-        ) => {
-            let end_arg = &node.inputs[end_ref.input_index];
-
-            match &end_arg.ty {
-                ArgType::Shape(end_rank) => {
-                    let end_name = arg_to_ident(end_arg);
-
-                    // Check if axes are provided
-                    if let Some(onnx_ir::slice::SliceInput::Static(ref axes)) = node.config.axes {
-                        // Apply slicing to specified axes (already normalized by onnx-ir)
-                        let num_dims = axes.len().min(starts.len()).min(*end_rank);
-                        for i in 0..num_dims {
-                            let axis_idx = axes[i] as usize;
-                            if axis_idx < rank {
-                                let start = starts[i].to_tokens();
-                                let idx = proc_macro2::Literal::usize_unsuffixed(i);
-                                ranges[axis_idx] = quote! { #start..#end_name[#idx] };
-                            }
-                        }
-                    } else {
-                        // No axes provided - use default behavior
-                        let num_dims = starts.len().min(*end_rank).min(rank);
-                        for (i, range) in ranges.iter_mut().enumerate().take(num_dims) {
-                            let start = starts[i].to_tokens();
-                            let idx = proc_macro2::Literal::usize_unsuffixed(i);
-                            *range = quote! { #start..#end_name[#idx] };
-                        }
-                    }
-                }
-                ArgType::Tensor(_) => {
-                    // Static start, 1D tensor end
-                    let end_name = arg_to_ident(end_arg);
+        ) if node.inputs[end_ref.input_index].ty.is_scalar() => {
+            let end_name = arg_to_ident(&node.inputs[end_ref.input_index]);
+            let axis_idx = scalar_slice_axis(node);
+
+            if axis_idx < rank {
+                // Use the first start value (starts[0]) for the specified axis
+                let start = starts.first().expect("Starts array is empty").to_tokens();
+                ranges[axis_idx] = quote! { #start..(#end_name as usize) };
+            }
+        }
 
-                    // Generate code to extract values from end tensor
-                    let end_data_var = quote! { end_data };
-                    let end_vec_var = quote! { end_vec };
+        // Shapes, 1D tensors and constants in any combination
+        (starts, ends) => {
+            let starts = SliceBounds::new(node, starts, "__slice_starts");
+            let ends = SliceBounds::new(node, ends, "__slice_ends");
 
-                    // Build ranges for each dimension
-                    let range_exprs: Vec<_> = (0..rank)
-                        .map(|i| {
-                            let idx = proc_macro2::Literal::usize_unsuffixed(i);
-                            if i < starts.len() {
-                                let start = Literal::i64_suffixed(starts[i]);
-                                quote! {
-                                    #start as usize..#end_vec_var[#idx] as usize
-                                }
-                            } else {
-                                quote! { .. }
-                            }
-                        })
-                        .collect();
+            let len = match (starts.len, ends.len) {
+                (Some(starts), Some(ends)) => Some(starts.min(ends)),
+                (starts, ends) => starts.or(ends),
+            };
+            // The first dimensions are sliced unless axes are provided (already normalized by onnx-ir)
+            let axes: Vec<i64> = match &node.config.axes {
+                Some(onnx_ir::slice::SliceInput::Static(axes)) => axes.clone(),
+                _ => (0..len.expect("Slice without axes needs a known number of starts or ends")
+                    as i64)
+                    .collect(),
+            };
+            let steps: &[i64] = match &node.config.steps {
+                Some(onnx_ir::slice::SliceInput::Static(steps)) => steps,
+                _ => &[],
+            };
 
-                    return quote! {
-                        let #end_data_var = #end_name.to_data();
-                        let #end_vec_var: alloc::vec::Vec<i64> = #end_data_var.iter::<i64>().collect();
-                        let #output = #input.slice(s![#(#range_exprs),*]);
+            for (i, &axis) in axes.iter().enumerate().take(len.unwrap_or(axes.len())) {
+                let axis_idx = axis as usize;
+                if axis_idx < rank {
+                    let start = starts.value(i);
+                    let end = ends.value(i);
+                    ranges[axis_idx] = match steps.get(i) {
+                        None | Some(1) => quote! { #start..#end },
+                        Some(step) => {
+                            let step = step.to_tokens();
+                            quote! { #start..#end;#step }
+                        }
                     };
                 }
-                ArgType::ScalarNative(_) | ArgType::ScalarTensor(_) => {
-                    // Static start, scalar end
-                    let end_name = arg_to_ident(end_arg);
+            }
 
-                    // Get the axis to slice (provided by onnx-ir with ONNX spec defaults)
-                    let axis_idx = match &node.config.axes {
-                        Some(onnx_ir::slice::SliceInput::Static(axes)) => {
-                            *axes.first().expect("Axes array is empty for scalar slice") as usize
-                        }
-                        _ => panic!("Axes must be Static for scalar slice"),
+            let (starts, ends) = (starts.extraction, ends.extraction);
+            if starts.is_some() || ends.is_some() {
+                return quote! {
+                    let #output = {
+                        #starts
+                        #ends
+                        #input.slice(s![#(#ranges),*])
                     };
-
-                    if axis_idx < rank {
-                        // Use the first start value (starts[0]) for the specified axis
-                        let start = starts.first().expect("Starts array is empty").to_tokens();
-                        ranges[axis_idx] = quote! { #start..(#end_name as usize) };
-                    }
-                }
+                };
             }
         }
+    }
 
-        // Runtime start, static end
-        (
-            onnx_ir::slice::SliceInput::Runtime(start_ref),
-            onnx_ir::slice::SliceInput::Static(ends),
-        ) => {
-            let start_arg = &node.inputs[start_ref.input_index];
-
-            match &start_arg.ty {
-                ArgType::Shape(start_rank) => {
-                    let start_name = arg_to_ident(start_arg);
-
-                    // Check if axes are provided
-                    if let Some(onnx_ir::slice::SliceInput::Static(ref axes)) = node.config.axes {
-                        // Apply slicing to specified axes (already normalized by onnx-ir)
-                        let num_dims = axes.len().min(*start_rank).min(ends.len());
-                        for i in 0..num_dims {
-                            let axis_idx = axes[i] as usize;
-                            if axis_idx < rank {
-                                let idx = proc_macro2::Literal::usize_unsuffixed(i);
-                                let end = ends[i].to_tokens();
-                                ranges[axis_idx] = quote! { #start_name[#idx]..#end };
-                            }
-                        }
-                    } else {
-                        // No axes provided - use default behavior
-                        let ends_len = ends.len();
-                        let num_dims = start_rank.min(&ends_len).min(&rank);
-                        for (i, range) in ranges.iter_mut().enumerate().take(*num_dims) {
-                            let idx = proc_macro2::Literal::usize_unsuffixed(i);
-                            let end = ends[i].to_tokens();
-                            *range = quote! { #start_name[#idx]..#end };
-                        }
-                    }
-                }
-                ArgType::Tensor(_) => {
-                    // 1D tensor start, static end
-                    let start_name = arg_to_ident(start_arg);
+    quote! {
+        let #output = #input.slice(s![#(#ranges),*]);
+    }
+}
 
-                    // Generate code to extract values from start tensor
-                    let start_data_var = quote! { start_data };
-                    let start_vec_var = quote! { start_vec };
+/// The axis sliced by scalar bounds (provided by onnx-ir with ONNX spec defaults)
+fn scalar_slice_axis(node: &onnx_ir::slice::SliceNode) -> usize {
+    match &node.config.axes {
+        Some(onnx_ir::slice::SliceInput::Static(axes)) => {
+            *axes.first().expect("Axes array is empty for scalar slice") as usize
+        }
+        _ => panic!("Axes must be Static for scalar slice"),
+    }
+}
 
-                    // Build ranges for each dimension
-                    let range_exprs: Vec<_> = (0..rank)
-                        .map(|i| {
-                            let idx = proc_macro2::Literal::usize_unsuffixed(i);
-                            if i < ends.len() {
-                                let end = Literal::i64_suffixed(ends[i]);
-                                quote! {
-                                    #start_vec_var[#idx] as usize..#end as usize
-                                }
-                            } else {
-                                quote! { .. }
-                            }
-                        })
-                        .collect();
+/// The starts or the ends of a tensor slice, as i64 expressions.
+struct SliceBounds {
+    /// Number of values, when known
+    len: Option<usize>,
+    /// Expression for each value when they are constants
+    constants: Option<Vec<TokenStream>>,
+    /// Name of the array that holds the values otherwise
+    name: proc_macro2::Ident,
+    /// Code that reads the values of a tensor into that array
+    extraction: Option<TokenStream>,
+}
 
-                    return quote! {
-                        let #start_data_var = #start_name.to_data();
-                        let #start_vec_var: alloc::vec::Vec<i64> = #start_data_var.iter::<i64>().collect();
-                        let #output = #input.slice(s![#(#range_exprs),*]);
-                    };
-                }
-                ArgType::ScalarNative(_) | ArgType::ScalarTensor(_) => {
-                    panic!("Unsupported runtime start type for slice")
+impl SliceBounds {
+    fn new(
+        node: &onnx_ir::slice::SliceNode,
+        input: &onnx_ir::slice::SliceInput,
+        tensor_name: &str,
+    ) -> Self {
+        let mut bounds = Self {
+            len: None,
+            constants: None,
+            name: Ident::new(tensor_name, Span::call_site()),
+            extraction: None,
+        };
+        match input {
+            onnx_ir::slice::SliceInput::Static(values) => {
+                bounds.len = Some(values.len());
+                bounds.constants = Some(values.iter().map(|v| v.to_tokens()).collect());
+            }
+            onnx_ir::slice::SliceInput::Runtime(input_ref) => {
+                let arg = &node.inputs[input_ref.input_index];
+                match &arg.ty {
+                    ArgType::Shape(rank) => {
+                        bounds.len = Some(*rank);
+                        bounds.name = arg_to_ident(arg);
+                    }
+                    ArgType::Tensor(tensor) => {
+                        let array = &bounds.name;
+                        let tensor_ident = arg_to_ident(arg);
+                        bounds.len = tensor
+                            .static_shape
+                            .as_ref()
+                            .and_then(|s| s.first().copied().flatten());
+                        bounds.extraction = Some(quote! {
+                            let #array: alloc::vec::Vec<i64> = #tensor_ident.to_data().iter::<i64>().collect();
+                        });
+                    }
+                    ArgType::ScalarNative(_) | ArgType::ScalarTensor(_) => {
+                        panic!("Unsupported runtime start type for slice")
+                    }
                 }
             }
         }
+        bounds
     }
 
-    quote! {
-        let #output = #input.slice(s![#(#ranges),*]);
+    fn value(&self, i: usize) -> TokenStream {
+        match &self.constants {
+            Some(values) => values[i].clone(),
+            None => {
+                let name = &self.name;
+                let i = Literal::usize_unsuffixed(i);
+                quote! { #name[#i] }
+            }
+        }
     }
 }
 
-- 
2.43.0


From 52d65e442683b5473fe6e2cddc7a9c7e9d48e04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:57 +0000
Subject: [PATCH 62/83] fix: Expand of device scalars and to shapes shorter
 than the input

---
 crates/burn-onnx/src/burn/node/expand.rs | 42 +++++++++++++++++++-----
 crates/onnx-ir/src/node/expand.rs        | 15 ++++++---
 2 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/expand.rs b/crates/burn-onnx/src/burn/node/expand.rs
index 4c9ed2a..19eb738 100644
--- a/crates/burn-onnx/src/burn/node/expand.rs
+++ b/crates/burn-onnx/src/burn/node/expand.rs
@@ -17,27 +17,53 @@ impl NodeCodegen for onnx_ir::expand::ExpandNode {
         let output = arg_to_ident(output_arg);
         let output_rank = output_arg.ty.rank();
 
-        let shape = match &self.config {
-            onnx_ir::expand::ExpandConfig::Static(s) => s.to_tokens(),
+        // The shape may be shorter than the input, whose leading dimensions are then kept
+        let (shape_rank, shape) = match &self.config {
+            onnx_ir::expand::ExpandConfig::Static(s) => (s.len(), s.to_tokens()),
             onnx_ir::expand::ExpandConfig::Runtime(r) => {
                 let shape_arg = &self.inputs[r.input_index];
                 match &shape_arg.ty {
-                    ArgType::Tensor(_) => {
+                    ArgType::Tensor(tensor) => {
                         let name = arg_to_ident(shape_arg);
-                        quote! {
-                            TryInto::<[i64; #output_rank]>::try_into(
+                        let shape_rank = tensor
+                            .static_shape
+                            .as_ref()
+                            .and_then(|s| s.first().copied().flatten())
+                            .unwrap_or(output_rank);
+                        let shape = quote! {
+                            TryInto::<[i64; #shape_rank]>::try_into(
                                 #name.to_data().convert::<i64>().as_slice().unwrap()
                             ).unwrap()
-                        }
+                        };
+                        (shape_rank, shape)
                     }
-                    ArgType::Shape(_) => {
+                    ArgType::Shape(rank) => {
                         let name = arg_to_ident(shape_arg);
-                        quote! { #name }
+                        (*rank, quote! { #name })
                     }
                     _ => panic!("Invalid shape source {:?}", shape_arg.ty),
                 }
             }
         };
+        let shape = if shape_rank < output_rank {
+            let missing = output_rank - shape_rank;
+            quote! {
+                {
+                    let mut shape = [1i64; #output_rank];
+                    shape[#missing..].copy_from_slice(&#shape);
+                    shape
+                }
+            }
+        } else {
+            shape
+        };
+
+        // A scalar on the device already is a tensor with dims [1]
+        if input_arg.ty.is_scalar_tensor() {
+            return quote! {
+                let #output = #input.expand(#shape);
+            };
+        }
 
         // For scalar inputs, materialize as rank-1 tensor and expand directly.
         // No max-semantics loop needed since a scalar always has dim [1].
diff --git a/crates/onnx-ir/src/node/expand.rs b/crates/onnx-ir/src/node/expand.rs
index a459353..32ac87c 100644
--- a/crates/onnx-ir/src/node/expand.rs
+++ b/crates/onnx-ir/src/node/expand.rs
@@ -109,13 +109,20 @@ impl NodeProcessor for ExpandProcessor {
             }
         };
 
+        // A shape shorter than the input keeps the leading dimensions of the input
+        let input_rank = match &node.inputs[0].ty {
+            ArgType::Tensor(tensor) => tensor.rank,
+            _ => 0,
+        };
+
         // Determine output type based on config
         match config {
             ExpandConfig::Static(shape) => {
                 // TODO: Validate shape values are positive or -1 per ONNX spec - Negative values other than -1 are invalid - Missing constraint validation
                 // TODO: Validate broadcasting rules - Per spec, input shape and target shape must be compatible for broadcasting - Missing broadcast validation
                 // Dimensions align from the right; a 1 in the shape keeps the input's dimension
-                let rank = shape.len();
+                let rank = shape.len().max(input_rank);
+                let missing = rank - shape.len();
                 let input_dim = |i: usize| match &node.inputs[0].ty {
                     ArgType::Tensor(tensor) => match (i + tensor.rank).checked_sub(rank) {
                         Some(axis) => tensor
@@ -126,8 +133,8 @@ impl NodeProcessor for ExpandProcessor {
                     },
                     _ => Some(1),
                 };
-                let static_shape = shape
-                    .iter()
+                let static_shape = std::iter::repeat_n(&1, missing)
+                    .chain(&shape)
                     .enumerate()
                     .map(|(i, &dim)| match dim {
                         -1 | 1 => input_dim(i),
@@ -172,7 +179,7 @@ impl NodeProcessor for ExpandProcessor {
 
                 node.outputs[0].ty = ArgType::Tensor(TensorType {
                     dtype: input_elem_type,
-                    rank: output_rank,
+                    rank: output_rank.max(input_rank),
                     static_shape: None,
                 });
             }
-- 
2.43.0


From dac68551320600b0c29b4204ecb6e03d63e522cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:57 +0000
Subject: [PATCH 63/83] fix: Gather of one number with a constant index that
 counts from the end

---
 crates/burn-onnx/src/burn/node/gather.rs | 62 +++++++++++++-----------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/gather.rs b/crates/burn-onnx/src/burn/node/gather.rs
index 6a125e1..73d93bc 100644
--- a/crates/burn-onnx/src/burn/node/gather.rs
+++ b/crates/burn-onnx/src/burn/node/gather.rs
@@ -41,6 +41,29 @@ fn scalar_index_to_ident(
     }
 }
 
+/// The scalar index of a tensor gather: either a resolved literal or the runtime variable.
+fn scalar_index_value(
+    index_arg: &Argument,
+    scope: &mut super::super::scope::ScopeAtPosition<'_>,
+) -> proc_macro2::TokenStream {
+    index_arg
+        .value()
+        .and_then(|v| v.scalar_i64().ok())
+        .map(|resolved| {
+            let lit = proc_macro2::Literal::i64_unsuffixed(resolved);
+            quote! { #lit }
+        })
+        .unwrap_or_else(|| {
+            if index_arg.ty.is_scalar_tensor() {
+                let tensor = scope.arg(index_arg);
+                on_device_to_native(quote! { #tensor }, &index_arg.ty.elem_type())
+            } else {
+                let index = arg_to_ident(index_arg);
+                quote! { #index }
+            }
+        })
+}
+
 fn forward_shape_gather(
     node: &onnx_ir::gather::GatherNode,
     scope: &mut super::super::scope::ScopeAtPosition<'_>,
@@ -215,18 +238,10 @@ fn forward_tensor_gather(
             // Gathering a single element, keep as Tensor<B, 1> on device (no GPU stall)
             match &index_arg.ty {
                 ArgType::ScalarNative(_) | ArgType::ScalarTensor(_) => {
-                    let index = if index_arg.ty.is_scalar_tensor() {
-                        let tensor = scope.arg(index_arg);
-                        on_device_to_native(quote! { #tensor }, &index_arg.ty.elem_type())
-                    } else {
-                        let ident = arg_to_ident(index_arg);
-                        quote! { #ident }
-                    };
+                    // The slice also takes indices that count from the end
+                    let index = scalar_index_value(index_arg, scope);
                     quote! {
-                        let #output = {
-                            let indices = Tensor::<B, 1, _>::from_data([#index], &*self.device);
-                            Tensor::select(#input, #dim, indices)
-                        };
+                        let #output = #input.slice(s![#index]);
                     }
                 }
                 _ => panic!(
@@ -240,6 +255,13 @@ fn forward_tensor_gather(
             let scalar_ty = scalar_type_tokens(dtype);
             match &index_arg.ty {
                 ArgType::ScalarNative(_) | ArgType::ScalarTensor(_) => {
+                    if index_arg.value().is_some() {
+                        // The slice also takes indices that count from the end
+                        let index = scalar_index_value(index_arg, scope);
+                        return quote! {
+                            let #output = #input.slice(s![#index]).into_scalar().elem::<#scalar_ty>();
+                        };
+                    }
                     let index = if index_arg.ty.is_scalar_tensor() {
                         let tensor = scope.arg(index_arg);
                         on_device_to_native(quote! { #tensor }, &index_arg.ty.elem_type())
@@ -268,23 +290,7 @@ fn forward_tensor_gather(
                     let output_rank = input_rank - 1;
                     let axis = node.config.axis;
 
-                    // Either a resolved literal or the runtime variable
-                    let index_token = index_arg
-                        .value()
-                        .and_then(|v| v.scalar_i64().ok())
-                        .map(|resolved| {
-                            let lit = proc_macro2::Literal::i64_unsuffixed(resolved);
-                            quote! { #lit }
-                        })
-                        .unwrap_or_else(|| {
-                            if index_arg.ty.is_scalar_tensor() {
-                                let tensor = scope.arg(index_arg);
-                                on_device_to_native(quote! { #tensor }, &index_arg.ty.elem_type())
-                            } else {
-                                let index = arg_to_ident(index_arg);
-                                quote! { #index }
-                            }
-                        });
+                    let index_token = scalar_index_value(index_arg, scope);
 
                     let slice_args = (0..input_rank)
                         .map(|i| {
-- 
2.43.0


From cc8b5e081683d288b098dafbbd9a979821e78c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:57 +0000
Subject: [PATCH 64/83] fix: Reshape of a native scalar to more than one
 dimension

---
 crates/burn-onnx/src/burn/node/reshape.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/reshape.rs b/crates/burn-onnx/src/burn/node/reshape.rs
index baafa52..6d4a987 100644
--- a/crates/burn-onnx/src/burn/node/reshape.rs
+++ b/crates/burn-onnx/src/burn/node/reshape.rs
@@ -132,12 +132,11 @@ impl NodeCodegen for onnx_ir::reshape::ReshapeNode {
                                 // Create a 1-element tensor from scalar with explicit dtype,
                                 // then reshape to target shape (which must also be 1 element total)
                                 let shape_values = shape_values.to_tokens();
-                                let output_rank = tensor_type.rank;
                                 let dtype_tokens = tensor_type.dtype.to_tokens();
 
                                 if tensor_type.dtype.is_float() {
                                     quote! {
-                                        let #output = Tensor::<B, #output_rank>::from_data_dtype(
+                                        let #output = Tensor::<B, 1usize>::from_data_dtype(
                                             burn::tensor::TensorData::from([#input_name as f64]),
                                             &*self.device,
                                             #dtype_tokens
@@ -146,7 +145,7 @@ impl NodeCodegen for onnx_ir::reshape::ReshapeNode {
                                 } else if tensor_type.dtype.is_int() || tensor_type.dtype.is_uint()
                                 {
                                     quote! {
-                                        let #output = Tensor::<B, #output_rank, Int>::from_data_dtype(
+                                        let #output = Tensor::<B, 1usize, Int>::from_data_dtype(
                                             burn::tensor::TensorData::from([#input_name as i64]),
                                             &*self.device,
                                             #dtype_tokens
@@ -160,7 +159,7 @@ impl NodeCodegen for onnx_ir::reshape::ReshapeNode {
                                         quote! { #input_name != 0 }
                                     };
                                     quote! {
-                                        let #output = Tensor::<B, #output_rank, Bool>::from_data_dtype(
+                                        let #output = Tensor::<B, 1usize, Bool>::from_data_dtype(
                                             burn::tensor::TensorData::from([#bool_expr]),
                                             &*self.device,
                                             #dtype_tokens
-- 
2.43.0


From 81e94a7df215f79fd7de8afe7112a5a091ef3ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:57 +0000
Subject: [PATCH 65/83] fix: Unsqueeze of a native boolean

---
 crates/burn-onnx/src/burn/node/unsqueeze.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/unsqueeze.rs b/crates/burn-onnx/src/burn/node/unsqueeze.rs
index 917a797..19b5cdd 100644
--- a/crates/burn-onnx/src/burn/node/unsqueeze.rs
+++ b/crates/burn-onnx/src/burn/node/unsqueeze.rs
@@ -66,7 +66,7 @@ impl NodeCodegen for onnx_ir::unsqueeze::UnsqueezeNode {
                     let #output: #output_type = #input.unsqueeze_dims::<#output_rank>(&#axes);
                 }
             }
-            (ArgType::ScalarNative(_scalar_type), ArgType::Tensor(output_tensor)) => {
+            (ArgType::ScalarNative(scalar_type), ArgType::Tensor(output_tensor)) => {
                 let scalar_name = arg_to_ident(input_arg);
                 let output_rank = output_tensor.rank.to_tokens();
                 let dtype_tokens = output_tensor.dtype.to_tokens();
@@ -94,9 +94,14 @@ impl NodeCodegen for onnx_ir::unsqueeze::UnsqueezeNode {
                         }
                     }
                     dtype if dtype.is_bool() => {
+                        let bool_expr = if scalar_type.is_bool() {
+                            quote! { #scalar_name }
+                        } else {
+                            quote! { #scalar_name != 0 }
+                        };
                         quote! {
                             Tensor::<B, 1, Bool>::from_data_dtype(
-                                burn::tensor::TensorData::from([#scalar_name != 0]),
+                                burn::tensor::TensorData::from([#bool_expr]),
                                 &self.device,
                                 #dtype_tokens
                             ).unsqueeze::<#output_rank>()
-- 
2.43.0


From a71dc790fea447b1f3c37eac684358b83d2affe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:47 +0000
Subject: [PATCH 66/83] fix: Slice with an empty axes input counts as having
 none

---
 crates/onnx-ir/src/node/slice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/onnx-ir/src/node/slice.rs b/crates/onnx-ir/src/node/slice.rs
index 1cd3902..c7838dc 100644
--- a/crates/onnx-ir/src/node/slice.rs
+++ b/crates/onnx-ir/src/node/slice.rs
@@ -290,8 +290,8 @@ impl NodeProcessor for SliceProcessor {
             index: usize,
         ) -> Result<Option<SliceInput>, ProcessError> {
             let input = match node.inputs.get(index) {
-                Some(i) => i,
-                None => return Ok(None),
+                Some(i) if !i.is_optional() => i,
+                _ => return Ok(None),
             };
 
             // Check if this is a Shape type (preferred for Slice parameters)
-- 
2.43.0


From fc76c0c33455de235384ff314811a31c63660ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:47 +0000
Subject: [PATCH 67/83] fix: Reshape of shapes and native numbers to a shape
 computed at run time

---
 crates/burn-onnx/src/burn/node/reshape.rs | 37 ++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/crates/burn-onnx/src/burn/node/reshape.rs b/crates/burn-onnx/src/burn/node/reshape.rs
index 6d4a987..3e02ce2 100644
--- a/crates/burn-onnx/src/burn/node/reshape.rs
+++ b/crates/burn-onnx/src/burn/node/reshape.rs
@@ -214,7 +214,42 @@ impl NodeCodegen for onnx_ir::reshape::ReshapeNode {
                 let shape_arg = &self.inputs[shape_ref.input_index];
                 use onnx_ir::ir::ArgType;
 
-                let input = scope.arg(input_arg);
+                // A shape that stays one-dimensional keeps its values
+                if input_arg.ty.is_shape() && output_arg.ty.is_shape() {
+                    let input = arg_to_ident(input_arg);
+                    return quote! {
+                        let #output = #input;
+                    };
+                }
+
+                // Shapes and native scalars become a tensor first
+                let input = match &input_arg.ty {
+                    ArgType::Shape(_) | ArgType::ScalarNative(_) => {
+                        let input = arg_to_ident(input_arg);
+                        let dtype = match &input_arg.ty {
+                            ArgType::Shape(_) => onnx_ir::ir::DType::I64,
+                            ty => ty.elem_type(),
+                        };
+                        let dtype_tokens = dtype.to_tokens();
+                        let kind = match dtype {
+                            _ if dtype.is_bool() => quote! { , Bool },
+                            _ if dtype.is_float() => quote! {},
+                            _ => quote! { , Int },
+                        };
+                        let values = match &input_arg.ty {
+                            ArgType::Shape(_) => quote! { #input },
+                            _ => quote! { [#input] },
+                        };
+                        quote! {
+                            Tensor::<B, 1 #kind>::from_data_dtype(
+                                burn::tensor::TensorData::from(#values),
+                                &*self.device,
+                                #dtype_tokens
+                            )
+                        }
+                    }
+                    _ => scope.arg(input_arg),
+                };
 
                 match &shape_arg.ty {
                     ArgType::Shape(_) => {
-- 
2.43.0


From 0bc6e07e68381436f07bb4e5c2b9b759dfd7566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:02 +0000
Subject: [PATCH 68/83] fix: Resize of other ranks, with batch or channel
 sizes, and 1-D with run-time sizes or scales

---
 crates/burn-onnx/src/burn/node/resize.rs | 66 +++++++++++++-----------
 crates/onnx-ir/src/node/resize.rs        | 27 ++++++++++
 2 files changed, 64 insertions(+), 29 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/resize.rs b/crates/burn-onnx/src/burn/node/resize.rs
index 62c44cf..663784c 100644
--- a/crates/burn-onnx/src/burn/node/resize.rs
+++ b/crates/burn-onnx/src/burn/node/resize.rs
@@ -144,6 +144,34 @@ impl NodeCodegen for onnx_ir::node::resize::ResizeNode {
             };
             let align_corners = self.config.coordinate_transformation_mode == "align_corners";
 
+            // A 1-D resize is a 2-D resize of an image of height 1
+            let rank = input_arg.ty.rank();
+            let targets = match rank {
+                3 => vec![(quote! { target_width }, quote! { 2 })],
+                _ => vec![
+                    (quote! { target_height }, quote! { 2 }),
+                    (quote! { target_width }, quote! { 3 }),
+                ],
+            };
+            let (targets, indices): (Vec<_>, Vec<_>) = targets.into_iter().unzip();
+            let interpolate = {
+                let (input, height, squeeze) = match rank {
+                    3 => (
+                        quote! { #input.unsqueeze_dim::<4>(2) },
+                        quote! { 1 },
+                        quote! { .squeeze_dim::<3>(2) },
+                    ),
+                    _ => (input.clone(), quote! { target_height }, quote! {}),
+                };
+                quote! {
+                    burn::tensor::module::interpolate(
+                        #input,
+                        [#height, target_width],
+                        burn::tensor::ops::InterpolateOptions::new(#mode).with_align_corners(#align_corners)
+                    )#squeeze
+                }
+            };
+
             // Handle runtime sizes or scales input
             // Per ONNX spec: either sizes or scales must be provided (mutually exclusive)
             if let Some(ResizeSizes::Runtime(sizes_ref)) = &self.config.sizes {
@@ -153,16 +181,11 @@ impl NodeCodegen for onnx_ir::node::resize::ResizeNode {
                 match &sizes_arg.ty {
                     ArgType::Shape(_) => {
                         let sizes_name = arg_to_ident(sizes_arg);
-                        // Extract the last 2 dimensions from the shape (H, W for 2D resize)
+                        // Extract the spatial dimensions from the shape (H, W for 2D resize)
                         quote! {
                             let #output = {
-                                let target_height = #sizes_name[2] as usize;
-                                let target_width = #sizes_name[3] as usize;
-                                burn::tensor::module::interpolate(
-                                    #input,
-                                    [target_height, target_width],
-                                    burn::tensor::ops::InterpolateOptions::new(#mode).with_align_corners(#align_corners)
-                                )
+                                #(let #targets = #sizes_name[#indices] as usize;)*
+                                #interpolate
                             };
                         }
                     }
@@ -172,13 +195,8 @@ impl NodeCodegen for onnx_ir::node::resize::ResizeNode {
                             let #output = {
                                 let sizes_data = #sizes_name.to_data().convert::<i64>();
                                 let sizes_array = sizes_data.as_slice::<i64>().unwrap();
-                                let target_height = sizes_array[2] as usize;
-                                let target_width = sizes_array[3] as usize;
-                                burn::tensor::module::interpolate(
-                                    #input,
-                                    [target_height, target_width],
-                                    burn::tensor::ops::InterpolateOptions::new(#mode).with_align_corners(#align_corners)
-                                )
+                                #(let #targets = sizes_array[#indices] as usize;)*
+                                #interpolate
                             };
                         }
                     }
@@ -196,13 +214,8 @@ impl NodeCodegen for onnx_ir::node::resize::ResizeNode {
                         quote! {
                             let #output = {
                                 let input_dims = #input.dims();
-                                let target_height = ((input_dims[2] as f64) * (#scales_name[2] as f64)) as usize;
-                                let target_width = ((input_dims[3] as f64) * (#scales_name[3] as f64)) as usize;
-                                burn::tensor::module::interpolate(
-                                    #input,
-                                    [target_height, target_width],
-                                    burn::tensor::ops::InterpolateOptions::new(#mode).with_align_corners(#align_corners)
-                                )
+                                #(let #targets = ((input_dims[#indices] as f64) * (#scales_name[#indices] as f64)) as usize;)*
+                                #interpolate
                             };
                         }
                     }
@@ -214,13 +227,8 @@ impl NodeCodegen for onnx_ir::node::resize::ResizeNode {
                                 let input_dims = #input.dims();
                                 let scales_data = #scales_name.to_data().convert::<f32>();
                                 let scales_array = scales_data.as_slice::<f32>().unwrap();
-                                let target_height = ((input_dims[2] as f64) * (scales_array[2] as f64)) as usize;
-                                let target_width = ((input_dims[3] as f64) * (scales_array[3] as f64)) as usize;
-                                burn::tensor::module::interpolate(
-                                    #input,
-                                    [target_height, target_width],
-                                    burn::tensor::ops::InterpolateOptions::new(#mode).with_align_corners(#align_corners)
-                                )
+                                #(let #targets = ((input_dims[#indices] as f64) * (scales_array[#indices] as f64)) as usize;)*
+                                #interpolate
                             };
                         }
                     }
diff --git a/crates/onnx-ir/src/node/resize.rs b/crates/onnx-ir/src/node/resize.rs
index b476b0e..7326ab4 100644
--- a/crates/onnx-ir/src/node/resize.rs
+++ b/crates/onnx-ir/src/node/resize.rs
@@ -414,6 +414,33 @@ impl NodeProcessor for ResizeProcessor {
             ));
         }
 
+        // The generated code resizes the spatial dims of (N, C, W) and (N, C, H, W) inputs
+        let rank = node.inputs[0].ty.rank();
+        if !(3..=4).contains(&rank) {
+            return Err(ProcessError::Custom(format!(
+                "Resize: inputs of rank {rank} are not supported"
+            )));
+        }
+        let batch_and_channels = |index: usize| -> Option<Vec<f64>> {
+            let data = node.inputs.get(index)?.value()?;
+            Some(data.iter::<f64>().take(2).collect())
+        };
+        let (scales_index, sizes_index) = if opset < 11 { (1, 4) } else { (2, 3) };
+        let scaled = batch_and_channels(scales_index)
+            .is_some_and(|scales| scales.iter().any(|&scale| scale != 1.0));
+        let shape = crate::processor::input_static_shape(node);
+        let sized = batch_and_channels(sizes_index).is_some_and(|sizes| {
+            sizes
+                .iter()
+                .zip(&shape)
+                .any(|(&size, dim)| dim.is_some_and(|dim| dim as f64 != size))
+        });
+        if scaled || sized {
+            return Err(ProcessError::Custom(
+                "Resize: resizing the batch or channel dimension is not supported".to_string(),
+            ));
+        }
+
         // Infer output type
         crate::processor::same_as_input(node);
 
-- 
2.43.0


From 349f116c728d96bb166de1eb1f9cb79735ef8b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:07 +0000
Subject: [PATCH 69/83] fix: integer Mod of native numbers takes the sign of
 the divisor

---
 crates/burn-onnx/src/burn/node/modulo.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/modulo.rs b/crates/burn-onnx/src/burn/node/modulo.rs
index e2fbeaa..905f756 100644
--- a/crates/burn-onnx/src/burn/node/modulo.rs
+++ b/crates/burn-onnx/src/burn/node/modulo.rs
@@ -84,11 +84,21 @@ impl NodeCodegen for onnx_ir::modulo::ModNode {
                     let #output = #lhs.#mod_op(#rhs);
                 }
             }
-            (ArgType::ScalarNative(_), ArgType::ScalarNative(_)) => {
+            (ArgType::ScalarNative(dtype), ArgType::ScalarNative(_)) => {
                 let lhs = arg_to_ident(lhs_arg);
                 let rhs = arg_to_ident(rhs_arg);
-                quote! {
-                    let #output = #lhs % #rhs;
+                if self.config.fmod || !dtype.is_int() {
+                    quote! {
+                        let #output = #lhs % #rhs;
+                    }
+                } else {
+                    // The result takes the sign of the divisor
+                    quote! {
+                        let #output = match #lhs.wrapping_rem(#rhs) {
+                            __rem if __rem != 0 && (__rem < 0) != (#rhs < 0) => __rem + #rhs,
+                            __rem => __rem,
+                        };
+                    }
                 }
             }
             (ArgType::ScalarNative(dtype), rhs_ty) if rhs_ty.is_on_device() => {
-- 
2.43.0


From 9793bcdd0da6ef86ef88cbbccc10b3ed3b2a92c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:07 +0000
Subject: [PATCH 70/83] fix: IsInf of numbers on the device

---
 crates/burn-onnx/src/burn/node/is_inf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/burn-onnx/src/burn/node/is_inf.rs b/crates/burn-onnx/src/burn/node/is_inf.rs
index 92809d8..8d4154a 100644
--- a/crates/burn-onnx/src/burn/node/is_inf.rs
+++ b/crates/burn-onnx/src/burn/node/is_inf.rs
@@ -25,7 +25,7 @@ impl NodeCodegen for onnx_ir::is_inf::IsInfNode {
                     (false, false) => quote! { false },
                 }
             }
-            ArgType::Tensor(_) => {
+            ArgType::Tensor(_) | ArgType::ScalarTensor(_) => {
                 match (self.config.detect_negative, self.config.detect_positive) {
                     (true, true) => quote! { #input.is_inf() },
                     (false, true) => {
-- 
2.43.0


From 207ce393c2ea9739aca9e423053e08653fa3a3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:07 +0000
Subject: [PATCH 71/83] fix: Pad with a constant computed at run time that is
 not float32

---
 crates/burn-onnx/src/burn/node/pad.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/burn-onnx/src/burn/node/pad.rs b/crates/burn-onnx/src/burn/node/pad.rs
index 536fd20..87ce5df 100644
--- a/crates/burn-onnx/src/burn/node/pad.rs
+++ b/crates/burn-onnx/src/burn/node/pad.rs
@@ -42,7 +42,7 @@ impl NodeCodegen for onnx_ir::pad::PadNode {
                     onnx_ir::pad::ConstantValueInput::Runtime(runtime_ref) => {
                         let arg = &self.inputs[runtime_ref.input_index];
                         let value = scope.arg(arg);
-                        match &arg.ty {
+                        let value = match &arg.ty {
                             ArgType::Tensor(t) if t.rank == 0 => {
                                 quote! { #value.into_scalar() }
                             }
@@ -61,6 +61,11 @@ impl NodeCodegen for onnx_ir::pad::PadNode {
                             ArgType::Shape(_) => {
                                 panic!("Pad: constant_value cannot be a shape")
                             }
+                        };
+                        match arg.ty.elem_type() {
+                            DType::F32 => value,
+                            DType::F16 | DType::BF16 => quote! { #value.to_f32() },
+                            _ => quote! { #value as f32 },
                         }
                     }
                 };
-- 
2.43.0


From 40e0c390d46f09edcef825fa39eccac4dea7b9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:34 +0000
Subject: [PATCH 72/83] fix: values that If, Loop and Scan take and yield in
 different representations

A number, a shape or a list of numbers can be native or on the device, and each
subgraph infers its own; convert where they meet. Scan also takes 1-D inputs
and yields numbers.
---
 crates/burn-onnx/src/burn/argument_helpers.rs | 48 +++++++++++++
 crates/burn-onnx/src/burn/node/if_node.rs     | 11 +++
 crates/burn-onnx/src/burn/node/loop_node.rs   | 25 +++++--
 crates/burn-onnx/src/burn/node/prelude.rs     |  4 +-
 crates/burn-onnx/src/burn/node/scan_node.rs   | 67 +++++++++++++----
 crates/onnx-ir/src/node/if_node.rs            | 26 ++++++-
 crates/onnx-ir/src/node/loop_node.rs          | 20 +++---
 crates/onnx-ir/src/node/scan_node.rs          | 71 ++++++++-----------
 crates/onnx-ir/src/processor.rs               | 14 +++-
 9 files changed, 212 insertions(+), 74 deletions(-)

diff --git a/crates/burn-onnx/src/burn/argument_helpers.rs b/crates/burn-onnx/src/burn/argument_helpers.rs
index 4c6666e..1e7a686 100644
--- a/crates/burn-onnx/src/burn/argument_helpers.rs
+++ b/crates/burn-onnx/src/burn/argument_helpers.rs
@@ -116,6 +116,54 @@ pub fn shape_to_native(input: TokenStream, dtype: &DType) -> TokenStream {
     quote! { #input[0] as #ty }
 }
 
+/// Generate code to convert a value from one representation of the same ONNX value to another,
+/// as when it enters or leaves a subgraph whose types were inferred on their own.
+///
+/// Returns the input unchanged if there is nothing to convert.
+pub fn convert_representation(input: TokenStream, from: &ArgType, to: &ArgType) -> TokenStream {
+    match (from, to) {
+        (ArgType::ScalarTensor(dtype), ArgType::ScalarNative(_)) => {
+            on_device_to_native(input, dtype)
+        }
+        (ArgType::ScalarNative(dtype), ArgType::ScalarTensor(_)) => {
+            on_device_from_array(quote! { [#input] }, dtype)
+        }
+        (ArgType::Shape(_), ArgType::Tensor(_)) => on_device_from_array(input, &DType::I64),
+        (ArgType::Tensor(_), ArgType::Shape(rank)) => {
+            let rank = rank.to_tokens();
+            quote! {
+                {
+                    let __shape: [i64; #rank] = #input
+                        .into_data()
+                        .iter::<i64>()
+                        .collect::<alloc::vec::Vec<_>>()
+                        .try_into()
+                        .unwrap();
+                    __shape
+                }
+            }
+        }
+        _ => input,
+    }
+}
+
+/// Generate code for a 1-D tensor with the elements of an array.
+fn on_device_from_array(array: TokenStream, dtype: &DType) -> TokenStream {
+    let kind = match dtype {
+        dtype if dtype.is_float() => quote! { Float },
+        dtype if dtype.is_bool() => quote! { Bool },
+        _ => quote! { Int },
+    };
+    let dtype = dtype.to_tokens();
+    quote! {
+        Tensor::<B, 1, burn::tensor::#kind>::from_data_dtype(
+            burn::tensor::TensorData::from(#array),
+            &*self.device,
+            #dtype
+        )
+    }
+}
+
 /// Get the argument identifier
 pub fn arg_ident(arg: &Argument) -> Ident {
     Ident::new(&arg.name, Span::call_site())
diff --git a/crates/burn-onnx/src/burn/node/if_node.rs b/crates/burn-onnx/src/burn/node/if_node.rs
index 5bfbd87..da897a9 100644
--- a/crates/burn-onnx/src/burn/node/if_node.rs
+++ b/crates/burn-onnx/src/burn/node/if_node.rs
@@ -9,6 +9,7 @@ fn generate_branch_code(
     subgraph: &onnx_ir::OnnxGraph,
     outer_scope_inputs: &[Argument],
     scope_ref_names: &[String],
+    node_outputs: &[Argument],
 ) -> (TokenStream, TokenStream) {
     // For If branches, all scope_ref_names are genuine outer-scope references
     // (no filtering needed, unlike Loop/Scan)
@@ -21,6 +22,14 @@ fn generate_branch_code(
         &exclude_names,
     );
 
+    // The branches may represent the same output in different ways
+    let outputs: Vec<_> = outputs
+        .into_iter()
+        .zip(&subgraph.outputs)
+        .zip(node_outputs)
+        .map(|((value, from), to)| convert_representation(value, &from.ty, &to.ty))
+        .collect();
+
     // Generate output tuple
     let output_tuple = if outputs.len() == 1 {
         let out = &outputs[0];
@@ -72,11 +81,13 @@ impl NodeCodegen for onnx_ir::node::if_node::IfNode {
             &self.config.then_branch,
             &outer_scope_inputs,
             &self.config.scope_ref_names,
+            &self.outputs,
         );
         let (else_body, else_output) = generate_branch_code(
             &self.config.else_branch,
             &outer_scope_inputs,
             &self.config.scope_ref_names,
+            &self.outputs,
         );
 
         // Generate output variable declarations
diff --git a/crates/burn-onnx/src/burn/node/loop_node.rs b/crates/burn-onnx/src/burn/node/loop_node.rs
index 5ecf839..cca92cb 100644
--- a/crates/burn-onnx/src/burn/node/loop_node.rs
+++ b/crates/burn-onnx/src/burn/node/loop_node.rs
@@ -104,8 +104,14 @@ impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
 
         // Initialize loop-carried dependency variables
         let mut init_stmts = quote! {};
-        for (var_name, initial_arg) in loop_var_names.iter().zip(v_initial_args.iter().copied()) {
-            let init_value = scope.arg(initial_arg);
+        let loop_vars = &self.config.body.inputs[2..];
+        for ((var_name, var), initial_arg) in loop_var_names
+            .iter()
+            .zip(loop_vars)
+            .zip(v_initial_args.iter().copied())
+        {
+            let init_value =
+                convert_representation(scope.arg(initial_arg), &initial_arg.ty, &var.ty);
             init_stmts.extend(quote! {
                 let mut #var_name = #init_value;
             });
@@ -168,7 +174,14 @@ impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
             });
         }
         updated_vars.extend(&loop_var_names);
-        new_values.extend_from_slice(&body_outputs[1..=num_loop_carried_outputs]);
+        new_values.extend(
+            body_outputs
+                .into_iter()
+                .zip(&self.config.body.outputs)
+                .skip(1)
+                .zip(loop_vars)
+                .map(|((value, output), var)| convert_representation(value, &output.ty, &var.ty)),
+        );
         let update_vars = if updated_vars.len() > 1 {
             quote! { (#(#updated_vars),*) = (#(#new_values),*); }
         } else {
@@ -249,7 +262,11 @@ impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
                         }
                     });
                 }
-                ArgType::Tensor(_) | ArgType::ScalarTensor(_) => {
+                ArgType::ScalarTensor(_) => {
+                    // Each is a 1-D tensor of its own; as above, a dimension is added
+                    output_values.push(quote! { Tensor::cat(#collector, 0).unsqueeze_dim::<2>(1) });
+                }
+                ArgType::Tensor(_) => {
                     // Concatenate tensors
                     output_values.push(quote! { Tensor::cat(#collector, 0) });
                 }
diff --git a/crates/burn-onnx/src/burn/node/prelude.rs b/crates/burn-onnx/src/burn/node/prelude.rs
index 6685404..e8717cd 100644
--- a/crates/burn-onnx/src/burn/node/prelude.rs
+++ b/crates/burn-onnx/src/burn/node/prelude.rs
@@ -13,8 +13,8 @@
 /// Re-export common traits and helpers from parent module
 pub(crate) use super::{NodeCodegen, arg_to_ident};
 pub(crate) use crate::burn::argument_helpers::{
-    on_device_to_native, scalar_native_to_shape, scalar_tensor_to_shape, shape_to_native,
-    unsqueeze_to_rank,
+    convert_representation, on_device_to_native, scalar_native_to_shape, scalar_tensor_to_shape,
+    shape_to_native, unsqueeze_to_rank,
 };
 
 // Re-export common burn-onnx types
diff --git a/crates/burn-onnx/src/burn/node/scan_node.rs b/crates/burn-onnx/src/burn/node/scan_node.rs
index d32f938..d1269a3 100644
--- a/crates/burn-onnx/src/burn/node/scan_node.rs
+++ b/crates/burn-onnx/src/burn/node/scan_node.rs
@@ -55,7 +55,11 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
 
         for (idx, initial_arg) in initial_state_vars.iter().enumerate() {
             let var_name = &state_var_names[idx];
-            let init_value = scope.arg(initial_arg);
+            let init_value = convert_representation(
+                scope.arg(initial_arg),
+                &initial_arg.ty,
+                &self.config.body.inputs[idx].ty,
+            );
             init_stmts.extend(quote! {
                 let mut #var_name = #init_value;
             });
@@ -116,14 +120,23 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
                 panic!("Scan input must be tensor");
             };
             let input_rank = tensor_ty.rank;
-            let output_rank = input_rank - 1;
 
-            // Slice along scan axis and squeeze to remove that dimension
+            // Slice along scan axis and remove that dimension
+            let slice = quote! {
+                #tensor_name.clone().slice_dim(#scan_axis, #iter_expr..#iter_expr + 1)
+            };
+            let element = if input_rank > 1 {
+                let output_rank = input_rank - 1;
+                quote! { #slice.squeeze_dim::<#output_rank>(#scan_axis) }
+            } else {
+                convert_representation(
+                    slice,
+                    &ArgType::ScalarTensor(tensor_ty.dtype),
+                    &self.config.body.inputs[num_state_vars + idx].ty,
+                )
+            };
             slice_stmts.extend(quote! {
-                let #var_name = #tensor_name
-                    .clone()
-                    .slice_dim(#scan_axis, #iter_expr..#iter_expr + 1)
-                    .squeeze_dim::<#output_rank>(#scan_axis);
+                let #var_name = #element;
             });
         }
 
@@ -150,15 +163,39 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
 
         // Collect scan outputs (before updating the state variables)
         for (idx, collector) in scan_output_collectors.iter().enumerate() {
-            let body_out_name = arg_to_ident(&self.config.body.outputs[num_state_vars + idx]);
+            let body_out = &self.config.body.outputs[num_state_vars + idx];
+            let body_out_name = arg_to_ident(body_out);
+            // Elements are collected as tensors
+            let element = match &body_out.ty {
+                ArgType::ScalarNative(dtype) => convert_representation(
+                    quote! { #body_out_name },
+                    &body_out.ty,
+                    &ArgType::ScalarTensor(*dtype),
+                ),
+                ArgType::Shape(rank) => convert_representation(
+                    quote! { #body_out_name },
+                    &body_out.ty,
+                    &ArgType::Tensor(onnx_ir::ir::TensorType::new(
+                        DType::I64,
+                        1,
+                        Some(vec![Some(*rank)]),
+                    )),
+                ),
+                _ => quote! { #body_out_name.clone() },
+            };
             update_stmts.extend(quote! {
-                #collector.push(#body_out_name.clone());
+                #collector.push(#element);
             });
         }
 
         // Update state variables, all at once: an output may be the current value of
         // another state variable
-        let new_values = &body_outputs[..num_state_vars];
+        let new_values: Vec<_> = body_outputs
+            .into_iter()
+            .zip(&self.config.body.outputs)
+            .zip(&self.config.body.inputs[..num_state_vars])
+            .map(|((value, output), var)| convert_representation(value, &output.ty, &var.ty))
+            .collect();
         update_stmts.extend(if num_state_vars > 1 {
             quote! { (#(#state_var_names),*) = (#(#new_values),*); }
         } else {
@@ -200,8 +237,14 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
                 ArgType::Tensor(tensor) => tensor.rank.to_tokens(),
                 _ => quote! { _ },
             };
-            finalize_stmts.extend(quote! {
-                let #output_name = Tensor::stack::<#rank>(#collector.clone(), #stack_axis);
+            finalize_stmts.extend(match &self.config.body.outputs[num_state_vars + idx].ty {
+                // Each number is a 1-D tensor of its own
+                ArgType::ScalarNative(_) | ArgType::ScalarTensor(_) => quote! {
+                    let #output_name = Tensor::cat(#collector.clone(), 0);
+                },
+                _ => quote! {
+                    let #output_name = Tensor::stack::<#rank>(#collector.clone(), #stack_axis);
+                },
             });
         }
 
diff --git a/crates/onnx-ir/src/node/if_node.rs b/crates/onnx-ir/src/node/if_node.rs
index b5b687a..df13a88 100644
--- a/crates/onnx-ir/src/node/if_node.rs
+++ b/crates/onnx-ir/src/node/if_node.rs
@@ -19,6 +19,24 @@ use crate::processor::{
     build_outer_scope_from_inputs,
 };
 
+/// The type of an output for which the branches yield values of the given types.
+///
+/// It is that of the then branch, unless only the other can hold the values of both: a shape has
+/// a known number of dimensions.
+fn branch_type(then_type: &ArgType, else_type: &ArgType) -> ArgType {
+    match (then_type, else_type) {
+        (ArgType::Shape(_), ArgType::Tensor(_)) => else_type.clone(),
+        (ArgType::Shape(then_rank), ArgType::Shape(else_rank)) if then_rank != else_rank => {
+            ArgType::Tensor(crate::ir::TensorType {
+                dtype: crate::ir::DType::I64,
+                rank: 1,
+                static_shape: None,
+            })
+        }
+        _ => then_type.clone(),
+    }
+}
+
 /// Configuration for If operation
 #[derive(Debug, Clone, new)]
 pub struct IfConfig {
@@ -115,14 +133,16 @@ impl NodeProcessor for IfProcessor {
 
         // If outputs don't exist yet, create them from branch outputs
         if node.outputs.is_empty() {
-            for then_output in &then_outputs {
-                node.outputs.push(then_output.clone());
+            for (then_output, else_output) in then_outputs.iter().zip(&else_outputs) {
+                let mut output = then_output.clone();
+                output.ty = branch_type(&then_output.ty, &else_output.ty);
+                node.outputs.push(output);
             }
         } else {
             // Update types for existing outputs (preserves names set by add_node)
             for (i, then_output) in then_outputs.iter().enumerate() {
                 if i < node.outputs.len() {
-                    node.outputs[i].ty = then_output.ty.clone();
+                    node.outputs[i].ty = branch_type(&then_output.ty, &else_outputs[i].ty);
                     // A dimension is known only if it is the same in both branches
                     if let ArgType::Tensor(tensor) = &mut node.outputs[i].ty
                         && let Some(shape) = &mut tensor.static_shape
diff --git a/crates/onnx-ir/src/node/loop_node.rs b/crates/onnx-ir/src/node/loop_node.rs
index 22e7582..8bcb1cf 100644
--- a/crates/onnx-ir/src/node/loop_node.rs
+++ b/crates/onnx-ir/src/node/loop_node.rs
@@ -249,9 +249,11 @@ impl NodeProcessor for LoopProcessor {
                 let mut output = body_output.clone();
 
                 // Scan outputs get concatenated, adding a dimension at axis 0
-                if i >= num_loop_carried_outputs {
-                    output.ty = add_concat_dimension(output.ty);
-                }
+                output.ty = if i >= num_loop_carried_outputs {
+                    add_concat_dimension(output.ty)
+                } else {
+                    crate::processor::carried_type(&body_inputs[2 + i].ty, output.ty)
+                };
 
                 node.outputs.push(output);
             }
@@ -259,14 +261,14 @@ impl NodeProcessor for LoopProcessor {
             // Update types for existing outputs
             for (i, body_output) in body_outputs.iter().skip(1).enumerate() {
                 if i < node.outputs.len() {
-                    let mut ty = body_output.ty.clone();
+                    let ty = body_output.ty.clone();
 
                     // Scan outputs get concatenated, adding a dimension at axis 0
-                    if i >= num_loop_carried_outputs {
-                        ty = add_concat_dimension(ty);
-                    }
-
-                    node.outputs[i].ty = ty;
+                    node.outputs[i].ty = if i >= num_loop_carried_outputs {
+                        add_concat_dimension(ty)
+                    } else {
+                        crate::processor::carried_type(&body_inputs[2 + i].ty, ty)
+                    };
                 }
             }
         }
diff --git a/crates/onnx-ir/src/node/scan_node.rs b/crates/onnx-ir/src/node/scan_node.rs
index cca038a..7762942 100644
--- a/crates/onnx-ir/src/node/scan_node.rs
+++ b/crates/onnx-ir/src/node/scan_node.rs
@@ -19,6 +19,20 @@ use crate::processor::{
     NodeProcessor, OutputPreferences, ProcessError, build_outer_scope_from_inputs,
 };
 
+/// The type of a scan output: its elements stacked, so one dimension more than each of them.
+fn sequence_type(element: &ArgType) -> ArgType {
+    let (dtype, rank) = match element {
+        ArgType::ScalarNative(dtype) | ArgType::ScalarTensor(dtype) => (*dtype, 0),
+        ArgType::Shape(_) => (crate::ir::DType::I64, 1),
+        ArgType::Tensor(tensor) => (tensor.dtype, tensor.rank),
+    };
+    ArgType::Tensor(crate::ir::TensorType {
+        dtype,
+        rank: rank + 1,
+        static_shape: None,
+    })
+}
+
 /// Configuration for Scan operation
 #[derive(Debug, Clone, new)]
 pub struct ScanConfig {
@@ -77,6 +91,7 @@ impl NodeProcessor for ScanProcessor {
         let num_state_vars = onnx_input_count - num_scan_inputs;
 
         // Get body outputs to determine output types
+        let body_inputs = config.body.inputs.clone();
         let body_outputs = config.body.outputs.clone();
 
         // Body outputs = [state_vars_out..., scan_outputs...]
@@ -97,60 +112,30 @@ impl NodeProcessor for ScanProcessor {
 
         if node.outputs.is_empty() {
             // Create outputs: first the final state variables
-            for body_output in body_outputs.iter().take(num_state_vars) {
-                node.outputs.push(body_output.clone());
+            for (body_input, body_output) in
+                body_inputs.iter().zip(&body_outputs).take(num_state_vars)
+            {
+                let mut output = body_output.clone();
+                output.ty = crate::processor::carried_type(&body_input.ty, output.ty);
+                node.outputs.push(output);
             }
 
             // Then the scan output sequences
-            // Scan outputs have rank increased by 1 compared to body outputs
             for body_scan_output in body_outputs.iter().skip(num_state_vars) {
                 let mut output = body_scan_output.clone();
                 output.name = format!("{}_sequence", body_scan_output.name);
-
-                // Increase rank by 1 for sequence dimension
-                match &body_scan_output.ty {
-                    ArgType::Tensor(body_tensor) => {
-                        output.ty = ArgType::Tensor(crate::ir::TensorType {
-                            dtype: body_tensor.dtype,
-                            rank: body_tensor.rank + 1,
-                            static_shape: None, // Dynamic shape for now
-                        });
-                    }
-                    _ => {
-                        // Keep same type if not a tensor
-                    }
-                }
-
+                output.ty = sequence_type(&body_scan_output.ty);
                 node.outputs.push(output);
             }
         } else {
             // Update types for existing outputs
-            for (output, body_output) in node
-                .outputs
-                .iter_mut()
-                .zip(body_outputs.iter())
-                .take(num_state_vars)
+            for (i, (output, body_output)) in node.outputs.iter_mut().zip(&body_outputs).enumerate()
             {
-                output.ty = body_output.ty.clone();
-            }
-
-            // Update scan output sequence types
-            for i in num_state_vars..node.outputs.len() {
-                let body_idx = i;
-                if body_idx < body_outputs.len() {
-                    match &body_outputs[body_idx].ty {
-                        ArgType::Tensor(body_tensor) => {
-                            node.outputs[i].ty = ArgType::Tensor(crate::ir::TensorType {
-                                dtype: body_tensor.dtype,
-                                rank: body_tensor.rank + 1,
-                                static_shape: None,
-                            });
-                        }
-                        _ => {
-                            node.outputs[i].ty = body_outputs[body_idx].ty.clone();
-                        }
-                    }
-                }
+                output.ty = if i < num_state_vars {
+                    crate::processor::carried_type(&body_inputs[i].ty, body_output.ty.clone())
+                } else {
+                    sequence_type(&body_output.ty)
+                };
             }
         }
 
diff --git a/crates/onnx-ir/src/processor.rs b/crates/onnx-ir/src/processor.rs
index 95225dd..ddfb7aa 100644
--- a/crates/onnx-ir/src/processor.rs
+++ b/crates/onnx-ir/src/processor.rs
@@ -3,7 +3,7 @@
 //! This module defines the `NodeProcessor` trait with support for type preferences
 //! and proper error handling.
 
-use crate::ir::{Node, RawNode};
+use crate::ir::{ArgType, Node, RawNode};
 use std::collections::HashMap;
 
 // Re-export registry types for backward compatibility
@@ -494,6 +494,18 @@ fn validate_output_spec(
     Ok(())
 }
 
+/// The type of a value that a loop or scan carries from one iteration to the next.
+///
+/// It is what the body yields, except that it keeps the representation (native number, shape,
+/// tensor) that the body takes, which may see no iteration at all.
+pub(crate) fn carried_type(taken: &ArgType, yielded: ArgType) -> ArgType {
+    if core::mem::discriminant(taken) == core::mem::discriminant(&yielded) {
+        yielded
+    } else {
+        taken.clone()
+    }
+}
+
 /// Get the count of original ONNX inputs (excluding outer-scope references)
 ///
 /// For control flow nodes (If, Loop, Scan), outer-scope references used by subgraphs
-- 
2.43.0


From 974a8d2e80bd8f725a025962becb8ac652ae67bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:28 +0000
Subject: [PATCH 73/83] fix: arithmetic of shapes with a shape of one element

It repeats, as ONNX multidirectional broadcasting requires.
---
 crates/burn-onnx/src/burn/argument_helpers.rs | 10 ++++++++++
 crates/burn-onnx/src/burn/node/add.rs         | 19 ++++++++++++-------
 crates/burn-onnx/src/burn/node/div.rs         | 19 ++++++++++++-------
 crates/burn-onnx/src/burn/node/mul.rs         | 19 ++++++++++++-------
 crates/burn-onnx/src/burn/node/prelude.rs     |  4 ++--
 crates/burn-onnx/src/burn/node/sub.rs         | 19 ++++++++++++-------
 crates/onnx-ir/src/processor.rs               |  3 ++-
 7 files changed, 62 insertions(+), 31 deletions(-)

diff --git a/crates/burn-onnx/src/burn/argument_helpers.rs b/crates/burn-onnx/src/burn/argument_helpers.rs
index 1e7a686..5b98373 100644
--- a/crates/burn-onnx/src/burn/argument_helpers.rs
+++ b/crates/burn-onnx/src/burn/argument_helpers.rs
@@ -164,6 +164,16 @@ fn on_device_from_array(array: TokenStream, dtype: &DType) -> TokenStream {
     }
 }
 
+/// Generate code that repeats the only element of a shape so that it has `to` of them, as ONNX
+/// multidirectional broadcasting requires. Other shapes are left alone.
+pub fn broadcast_shape(input: TokenStream, from: usize, to: usize) -> TokenStream {
+    if from != 1 || to == 1 {
+        return input;
+    }
+    let to = to.to_tokens();
+    quote! { [#input[0]; #to] }
+}
+
 /// Get the argument identifier
 pub fn arg_ident(arg: &Argument) -> Ident {
     Ident::new(&arg.name, Span::call_site())
diff --git a/crates/burn-onnx/src/burn/node/add.rs b/crates/burn-onnx/src/burn/node/add.rs
index 6c7fcc8..d0d9cc7 100644
--- a/crates/burn-onnx/src/burn/node/add.rs
+++ b/crates/burn-onnx/src/burn/node/add.rs
@@ -42,15 +42,20 @@ impl NodeCodegen for onnx_ir::node::arithmetic::AddNode {
                 quote! { #lhs + #rhs }
             }
             (ArgType::ScalarNative(_), ArgType::ScalarNative(_)) => quote! { #lhs + #rhs },
-            (ArgType::Shape(_), ArgType::Shape(_)) => quote! {
-                {
-                    let mut result = #lhs;
-                    for (result_item, rhs_item) in result.iter_mut().zip(#rhs.iter()) {
-                        *result_item = result_item.saturating_add(*rhs_item);
+            (ArgType::Shape(lhs_rank), ArgType::Shape(rhs_rank)) => {
+                let rank = *lhs_rank.max(rhs_rank);
+                let lhs = broadcast_shape(lhs.clone(), *lhs_rank, rank);
+                let rhs = broadcast_shape(rhs.clone(), *rhs_rank, rank);
+                quote! {
+                    {
+                        let mut result = #lhs;
+                        for (result_item, rhs_item) in result.iter_mut().zip(#rhs.iter()) {
+                            *result_item = result_item.saturating_add(*rhs_item);
+                        }
+                        result
                     }
-                    result
                 }
-            },
+            }
             (ArgType::Shape(_), rhs_ty) if rhs_ty.is_scalar() => {
                 let scalar_expr = if rhs_ty.is_scalar_tensor() {
                     on_device_to_native(rhs.clone(), &rhs_ty.elem_type())
diff --git a/crates/burn-onnx/src/burn/node/div.rs b/crates/burn-onnx/src/burn/node/div.rs
index 603cd16..42b0e61 100644
--- a/crates/burn-onnx/src/burn/node/div.rs
+++ b/crates/burn-onnx/src/burn/node/div.rs
@@ -57,15 +57,20 @@ impl NodeCodegen for onnx_ir::node::arithmetic::DivNode {
                 }
             }
             (ArgType::ScalarNative(_), ArgType::ScalarNative(_)) => quote! { #lhs / #rhs },
-            (ArgType::Shape(_), ArgType::Shape(_)) => quote! {
-                {
-                    let mut result = #lhs;
-                    for (result_item, rhs_item) in result.iter_mut().zip(#rhs.iter()) {
-                        *result_item = if *rhs_item != 0 { *result_item / *rhs_item } else { *result_item };
+            (ArgType::Shape(lhs_rank), ArgType::Shape(rhs_rank)) => {
+                let rank = *lhs_rank.max(rhs_rank);
+                let lhs = broadcast_shape(lhs.clone(), *lhs_rank, rank);
+                let rhs = broadcast_shape(rhs.clone(), *rhs_rank, rank);
+                quote! {
+                    {
+                        let mut result = #lhs;
+                        for (result_item, rhs_item) in result.iter_mut().zip(#rhs.iter()) {
+                            *result_item = if *rhs_item != 0 { *result_item / *rhs_item } else { *result_item };
+                        }
+                        result
                     }
-                    result
                 }
-            },
+            }
             (ArgType::Shape(_), rhs_ty) if rhs_ty.is_scalar() => {
                 let scalar_expr = if rhs_ty.is_scalar_tensor() {
                     on_device_to_native(rhs.clone(), &rhs_ty.elem_type())
diff --git a/crates/burn-onnx/src/burn/node/mul.rs b/crates/burn-onnx/src/burn/node/mul.rs
index 2884a78..2af7b67 100644
--- a/crates/burn-onnx/src/burn/node/mul.rs
+++ b/crates/burn-onnx/src/burn/node/mul.rs
@@ -42,15 +42,20 @@ impl NodeCodegen for onnx_ir::node::arithmetic::MulNode {
                 quote! { #lhs * #rhs }
             }
             (ArgType::ScalarNative(_), ArgType::ScalarNative(_)) => quote! { #lhs * #rhs },
-            (ArgType::Shape(_), ArgType::Shape(_)) => quote! {
-                {
-                    let mut result = #lhs;
-                    for (result_item, rhs_item) in result.iter_mut().zip(#rhs.iter()) {
-                        *result_item = result_item.saturating_mul(*rhs_item);
+            (ArgType::Shape(lhs_rank), ArgType::Shape(rhs_rank)) => {
+                let rank = *lhs_rank.max(rhs_rank);
+                let lhs = broadcast_shape(lhs.clone(), *lhs_rank, rank);
+                let rhs = broadcast_shape(rhs.clone(), *rhs_rank, rank);
+                quote! {
+                    {
+                        let mut result = #lhs;
+                        for (result_item, rhs_item) in result.iter_mut().zip(#rhs.iter()) {
+                            *result_item = result_item.saturating_mul(*rhs_item);
+                        }
+                        result
                     }
-                    result
                 }
-            },
+            }
             (ArgType::Shape(_), rhs_ty) if rhs_ty.is_scalar() => {
                 let scalar_expr = if rhs_ty.is_scalar_tensor() {
                     on_device_to_native(rhs.clone(), &rhs_ty.elem_type())
diff --git a/crates/burn-onnx/src/burn/node/prelude.rs b/crates/burn-onnx/src/burn/node/prelude.rs
index e8717cd..3de86a1 100644
--- a/crates/burn-onnx/src/burn/node/prelude.rs
+++ b/crates/burn-onnx/src/burn/node/prelude.rs
@@ -13,8 +13,8 @@
 /// Re-export common traits and helpers from parent module
 pub(crate) use super::{NodeCodegen, arg_to_ident};
 pub(crate) use crate::burn::argument_helpers::{
-    convert_representation, on_device_to_native, scalar_native_to_shape, scalar_tensor_to_shape,
-    shape_to_native, unsqueeze_to_rank,
+    broadcast_shape, convert_representation, on_device_to_native, scalar_native_to_shape,
+    scalar_tensor_to_shape, shape_to_native, unsqueeze_to_rank,
 };
 
 // Re-export common burn-onnx types
diff --git a/crates/burn-onnx/src/burn/node/sub.rs b/crates/burn-onnx/src/burn/node/sub.rs
index 2c4fd2e..33abc28 100644
--- a/crates/burn-onnx/src/burn/node/sub.rs
+++ b/crates/burn-onnx/src/burn/node/sub.rs
@@ -42,15 +42,20 @@ impl NodeCodegen for onnx_ir::node::arithmetic::SubNode {
             (ArgType::ScalarNative(_), rhs_ty) if rhs_ty.is_on_device() => {
                 quote! { #lhs - #rhs }
             }
-            (ArgType::Shape(_), ArgType::Shape(_)) => quote! {
-                {
-                    let mut result = #lhs;
-                    for (result_item, rhs_item) in result.iter_mut().zip(#rhs.iter()) {
-                        *result_item = result_item.saturating_sub(*rhs_item);
+            (ArgType::Shape(lhs_rank), ArgType::Shape(rhs_rank)) => {
+                let rank = *lhs_rank.max(rhs_rank);
+                let lhs = broadcast_shape(lhs.clone(), *lhs_rank, rank);
+                let rhs = broadcast_shape(rhs.clone(), *rhs_rank, rank);
+                quote! {
+                    {
+                        let mut result = #lhs;
+                        for (result_item, rhs_item) in result.iter_mut().zip(#rhs.iter()) {
+                            *result_item = result_item.saturating_sub(*rhs_item);
+                        }
+                        result
                     }
-                    result
                 }
-            },
+            }
             (ArgType::Shape(_), rhs_ty) if rhs_ty.is_scalar() => {
                 let scalar_expr = if rhs_ty.is_scalar_tensor() {
                     on_device_to_native(rhs.clone(), &rhs_ty.elem_type())
diff --git a/crates/onnx-ir/src/processor.rs b/crates/onnx-ir/src/processor.rs
index ddfb7aa..25d3bff 100644
--- a/crates/onnx-ir/src/processor.rs
+++ b/crates/onnx-ir/src/processor.rs
@@ -681,10 +681,11 @@ pub fn broadcast_output_type(
     if has_shape && !has_real_tensor {
         let shape_rank = inputs
             .iter()
-            .find_map(|input| match &input.ty {
+            .filter_map(|input| match &input.ty {
                 ArgType::Shape(rank) => Some(*rank),
                 _ => None,
             })
+            .max()
             .expect("Shape input must exist");
 
         return ArgType::Shape(shape_rank);
-- 
2.43.0


From 7905e835057b3c874ea60376b86eb0003d711c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:37 +0000
Subject: [PATCH 74/83] fix: element types of random tensors

RandomNormalLike and RandomUniformLike have the type of their input unless dtype
says otherwise, and what is drawn is of the recorded type.
---
 .../burn-onnx/src/burn/node/random_normal.rs  | 14 +++++-
 .../src/burn/node/random_normal_like.rs       | 28 ++++++++++--
 .../burn-onnx/src/burn/node/random_uniform.rs | 14 +++++-
 .../src/burn/node/random_uniform_like.rs      |  5 +--
 crates/onnx-ir/src/node/random_like.rs        | 43 +++++++++++--------
 5 files changed, 77 insertions(+), 27 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/random_normal.rs b/crates/burn-onnx/src/burn/node/random_normal.rs
index 2f467eb..aacedc2 100644
--- a/crates/burn-onnx/src/burn/node/random_normal.rs
+++ b/crates/burn-onnx/src/burn/node/random_normal.rs
@@ -22,8 +22,18 @@ impl NodeCodegen for onnx_ir::node::random::RandomNormalNode {
         let std_deviation = self.config.scale;
         let dist = quote! { Distribution::Normal(#mean, #std_deviation) };
 
-        quote! {
-            let #output = Tensor::random(#shape, #dist, &*self.device);
+        match &self.outputs[0].ty {
+            // Tensors are created with the default float type
+            ArgType::Tensor(tensor) if tensor.dtype != DType::F32 => {
+                let rank = tensor.rank.to_tokens();
+                let dtype = tensor.dtype.to_tokens();
+                quote! {
+                    let #output = Tensor::<B, #rank>::random(#shape, #dist, &*self.device).cast(#dtype);
+                }
+            }
+            _ => quote! {
+                let #output = Tensor::random(#shape, #dist, &*self.device);
+            },
         }
     }
 
diff --git a/crates/burn-onnx/src/burn/node/random_normal_like.rs b/crates/burn-onnx/src/burn/node/random_normal_like.rs
index f764506..84cc57c 100644
--- a/crates/burn-onnx/src/burn/node/random_normal_like.rs
+++ b/crates/burn-onnx/src/burn/node/random_normal_like.rs
@@ -1,5 +1,29 @@
 use super::prelude::*;
 
+/// Generate code for a tensor like `input` with samples of `dist`, of the element type of `output`.
+pub(super) fn random_like(
+    input: TokenStream,
+    input_ty: &ArgType,
+    dist: TokenStream,
+    output: Ident,
+    output_ty: &ArgType,
+) -> TokenStream {
+    let (input_dtype, output_dtype) = (input_ty.elem_type(), output_ty.elem_type());
+    let input = if input_dtype.is_float() {
+        input
+    } else {
+        quote! { #input.float() }
+    };
+    let cast = (input_dtype != output_dtype).then(|| {
+        let dtype = output_dtype.to_tokens();
+        quote! { .cast(#dtype) }
+    });
+
+    quote! {
+        let #output = #input.random_like(#dist)#cast;
+    }
+}
+
 impl NodeCodegen for onnx_ir::node::random_like::RandomNormalLikeNode {
     fn inputs(&self) -> &[Argument] {
         &self.inputs
@@ -18,9 +42,7 @@ impl NodeCodegen for onnx_ir::node::random_like::RandomNormalLikeNode {
         let std_deviation = self.config.scale;
         let dist = quote! { Distribution::Normal(#mean, #std_deviation) };
 
-        quote! {
-            let #output = #input.random_like(#dist);
-        }
+        random_like(input, &self.inputs[0].ty, dist, output, &self.outputs[0].ty)
     }
 
     fn register_imports(&self, imports: &mut BurnImports) {
diff --git a/crates/burn-onnx/src/burn/node/random_uniform.rs b/crates/burn-onnx/src/burn/node/random_uniform.rs
index 65e4bdb..d7f3a7f 100644
--- a/crates/burn-onnx/src/burn/node/random_uniform.rs
+++ b/crates/burn-onnx/src/burn/node/random_uniform.rs
@@ -22,8 +22,18 @@ impl NodeCodegen for onnx_ir::node::random::RandomUniformNode {
         let high = self.config.high;
         let dist = quote! { Distribution::Uniform(#low, #high) };
 
-        quote! {
-            let #output = Tensor::random(#shape, #dist, &*self.device);
+        match &self.outputs[0].ty {
+            // Tensors are created with the default float type
+            ArgType::Tensor(tensor) if tensor.dtype != DType::F32 => {
+                let rank = tensor.rank.to_tokens();
+                let dtype = tensor.dtype.to_tokens();
+                quote! {
+                    let #output = Tensor::<B, #rank>::random(#shape, #dist, &*self.device).cast(#dtype);
+                }
+            }
+            _ => quote! {
+                let #output = Tensor::random(#shape, #dist, &*self.device);
+            },
         }
     }
 
diff --git a/crates/burn-onnx/src/burn/node/random_uniform_like.rs b/crates/burn-onnx/src/burn/node/random_uniform_like.rs
index cf239a1..b308dd5 100644
--- a/crates/burn-onnx/src/burn/node/random_uniform_like.rs
+++ b/crates/burn-onnx/src/burn/node/random_uniform_like.rs
@@ -1,4 +1,5 @@
 use super::prelude::*;
+use super::random_normal_like::random_like;
 
 impl NodeCodegen for onnx_ir::node::random_like::RandomUniformLikeNode {
     fn inputs(&self) -> &[Argument] {
@@ -18,9 +19,7 @@ impl NodeCodegen for onnx_ir::node::random_like::RandomUniformLikeNode {
         let high = self.config.high;
         let dist = quote! { Distribution::Uniform(#low, #high) };
 
-        quote! {
-            let #output = #input.random_like(#dist);
-        }
+        random_like(input, &self.inputs[0].ty, dist, output, &self.outputs[0].ty)
     }
 
     fn register_imports(&self, imports: &mut BurnImports) {
diff --git a/crates/onnx-ir/src/node/random_like.rs b/crates/onnx-ir/src/node/random_like.rs
index a2a614b..e8cba94 100644
--- a/crates/onnx-ir/src/node/random_like.rs
+++ b/crates/onnx-ir/src/node/random_like.rs
@@ -88,27 +88,36 @@ impl NodeProcessor for RandomLikeProcessor {
         // These attributes are documented but not validated or extracted into config
         // TODO: Spec also mentions 'seed' attribute that is not validated
 
-        let dtype = node
-            .attrs
-            .get("dtype")
-            .map(|val| DataType::from_i32(val.clone().into_i32()).unwrap())
-            .unwrap_or(DataType::FLOAT);
-
-        let elem_type = match dtype {
-            DataType::FLOAT => DType::F32,
-            DataType::FLOAT16 => DType::F16,
-            DataType::DOUBLE => DType::F64,
-            _ => {
-                return Err(ProcessError::InvalidAttribute {
-                    name: "dtype".to_string(),
-                    reason: format!("Tensor with type {dtype:?} not supported for random output"),
-                });
-            }
+        let dtype = match node.attrs.get("dtype") {
+            Some(val) => match DataType::from_i32(val.clone().into_i32()).unwrap() {
+                DataType::FLOAT => DType::F32,
+                DataType::FLOAT16 => DType::F16,
+                DataType::DOUBLE => DType::F64,
+                dtype => {
+                    return Err(ProcessError::InvalidAttribute {
+                        name: "dtype".to_string(),
+                        reason: format!(
+                            "Tensor with type {dtype:?} not supported for random output"
+                        ),
+                    });
+                }
+            },
+            // Per ONNX spec, the output has the type of the input if dtype is not given
+            None => match &node.inputs[0].ty {
+                ArgType::Tensor(tensor) if !tensor.dtype.is_float() => {
+                    return Err(ProcessError::InvalidAttribute {
+                        name: "dtype".to_string(),
+                        reason: format!("required for an input of type {:?}", tensor.dtype),
+                    });
+                }
+                ArgType::Tensor(tensor) => tensor.dtype,
+                _ => DType::F32,
+            },
         };
 
         if let ArgType::Tensor(tensor) = &node.inputs[0].ty {
             node.outputs[0].ty = ArgType::Tensor(TensorType {
-                dtype: elem_type,
+                dtype,
                 rank: tensor.rank,
                 static_shape: tensor.static_shape.clone(),
             });
-- 
2.43.0


From 1d6f74f879e0e87e8de4f4e69d05abe1cc03a55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:54 +0000
Subject: [PATCH 75/83] fix: refuse Attention inputs past past_value

---
 crates/onnx-ir/src/node/attention.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/onnx-ir/src/node/attention.rs b/crates/onnx-ir/src/node/attention.rs
index 4fb82cf..9bf2370 100644
--- a/crates/onnx-ir/src/node/attention.rs
+++ b/crates/onnx-ir/src/node/attention.rs
@@ -85,6 +85,11 @@ impl NodeProcessor for AttentionProcessor {
                 actual: node.inputs.len(),
             });
         }
+        if node.inputs.iter().skip(6).any(|input| !input.is_optional()) {
+            return Err(ProcessError::Custom(
+                "Attention: the nonpad_kv_seqlen input is not supported".to_string(),
+            ));
+        }
         if node.outputs.is_empty() {
             return Err(ProcessError::InvalidOutputCount {
                 expected: 1,
-- 
2.43.0


From 2cc3f9f738042b5fe31fa02cdb3e1496f530e07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:02 +0000
Subject: [PATCH 76/83] fix: refuse activation parameters that LSTM and RNN do
 not apply

---
 crates/onnx-ir/src/node/lstm.rs | 45 ++++++++++++++++++++++++++++++++-
 crates/onnx-ir/src/node/rnn.rs  |  2 ++
 2 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/node/lstm.rs b/crates/onnx-ir/src/node/lstm.rs
index 4678c01..88b38d4 100644
--- a/crates/onnx-ir/src/node/lstm.rs
+++ b/crates/onnx-ir/src/node/lstm.rs
@@ -9,7 +9,7 @@
 //! - **Opset 7**: Added `layout` attribute
 //! - **Opset 14**: Added `layout` attribute with batch-first option
 
-use crate::ir::{ArgType, Argument, Node, RawNode, TensorType};
+use crate::ir::{ArgType, Argument, Attributes, Node, RawNode, TensorType};
 use crate::processor::{
     InputSpec, NodeProcessor, NodeSpec, OutputPreferences, OutputSpec, ProcessError,
 };
@@ -88,6 +88,48 @@ impl std::str::FromStr for LstmActivationFunction {
     }
 }
 
+/// Checks that `activation_alpha` and `activation_beta` hold the default parameters of the
+/// given activations. The layers always use these defaults, so other values are rejected.
+pub(crate) fn check_activation_parameters(
+    attrs: &Attributes,
+    activations: &[String],
+) -> Result<(), ProcessError> {
+    let names: Vec<String> = activations.iter().map(|a| a.to_lowercase()).collect();
+    let defaults = |alpha: bool| -> Vec<f32> {
+        names
+            .iter()
+            .filter_map(|name| match (name.as_str(), alpha) {
+                ("hardsigmoid", true) => Some(0.2),
+                ("hardsigmoid", false) => Some(0.5),
+                ("leakyrelu", true) => Some(0.01),
+                _ => None,
+            })
+            .collect()
+    };
+
+    for (name, defaults) in [
+        ("activation_alpha", defaults(true)),
+        ("activation_beta", defaults(false)),
+    ] {
+        let Some(value) = attrs.get(name) else {
+            continue;
+        };
+        let values = value.clone().into_f32s();
+        let is_default = values
+            .iter()
+            .all(|value| defaults.iter().all(|default| value == default));
+        if !is_default {
+            return Err(ProcessError::InvalidAttribute {
+                name: name.to_string(),
+                reason: format!(
+                    "only the default parameters of the activations are supported, got {values:?}"
+                ),
+            });
+        }
+    }
+    Ok(())
+}
+
 impl std::str::FromStr for LstmDirection {
     type Err = ProcessError;
 
@@ -460,6 +502,7 @@ impl NodeProcessor for LstmProcessor {
             node.attrs.get("activations")
         {
             let acts = activations.clone().into_strings();
+            check_activation_parameters(&node.attrs, &acts)?;
             if acts.is_empty() {
                 // Empty means use defaults
                 (
diff --git a/crates/onnx-ir/src/node/rnn.rs b/crates/onnx-ir/src/node/rnn.rs
index f71b6d7..e02e47b 100644
--- a/crates/onnx-ir/src/node/rnn.rs
+++ b/crates/onnx-ir/src/node/rnn.rs
@@ -1,4 +1,5 @@
 use crate::ir::{ArgType, Argument, Node, RawNode, TensorType};
+use crate::node::lstm::check_activation_parameters;
 use crate::processor::{
     InputSpec, NodeProcessor, NodeSpec, OutputPreferences, OutputSpec, ProcessError,
 };
@@ -377,6 +378,7 @@ impl NodeProcessor for RnnProcessor {
         // f = hidden activation
         let hidden_activation = if let Some(activations) = node.attrs.get("activations") {
             let acts = activations.clone().into_strings();
+            check_activation_parameters(&node.attrs, &acts)?;
             if acts.is_empty() {
                 // Empty means use defaults
                 RnnActivationFunction::Tanh
-- 
2.43.0


From 1beac3ef8d611094a5a1722bfa48e7dc1ab9d514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:08 +0000
Subject: [PATCH 77/83] fix: element types of Bernoulli outputs

A dtype outside five element types (FLOAT16, UINT8, ...) silently gave the
output the type of the input.
---
 crates/onnx-ir/src/node/bernoulli.rs | 40 +++++++++++++++++++---------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/crates/onnx-ir/src/node/bernoulli.rs b/crates/onnx-ir/src/node/bernoulli.rs
index 2ed0d97..c62924a 100644
--- a/crates/onnx-ir/src/node/bernoulli.rs
+++ b/crates/onnx-ir/src/node/bernoulli.rs
@@ -64,19 +64,33 @@ impl NodeProcessor for BernoulliProcessor {
         let static_shape = tensor.static_shape.clone();
 
         // Infer elem type based on the dtype attribute
-        let dtype = node
-            .attrs
-            .get("dtype")
-            .map(|val| DataType::from_i32(val.clone().into_i32()).unwrap());
-
-        let elem_type = dtype.map_or(tensor.dtype, |dtype| match dtype {
-            DataType::FLOAT => DType::F32,
-            DataType::INT32 => DType::I32,
-            DataType::INT64 => DType::I64,
-            DataType::DOUBLE => DType::F64,
-            DataType::BOOL => DType::Bool,
-            _ => tensor.dtype, // Fallback to input type for unsupported dtype
-        });
+        let elem_type = match node.attrs.get("dtype") {
+            Some(dtype) => {
+                let code = dtype.clone().into_i32();
+                match DataType::from_i32(code) {
+                    Some(DataType::FLOAT) => DType::F32,
+                    Some(DataType::DOUBLE) => DType::F64,
+                    Some(DataType::FLOAT16) => DType::F16,
+                    Some(DataType::BFLOAT16) => DType::BF16,
+                    Some(DataType::INT8) => DType::I8,
+                    Some(DataType::INT16) => DType::I16,
+                    Some(DataType::INT32) => DType::I32,
+                    Some(DataType::INT64) => DType::I64,
+                    Some(DataType::UINT8) => DType::U8,
+                    Some(DataType::UINT16) => DType::U16,
+                    Some(DataType::UINT32) => DType::U32,
+                    Some(DataType::UINT64) => DType::U64,
+                    Some(DataType::BOOL) => DType::Bool,
+                    _ => {
+                        return Err(ProcessError::InvalidAttribute {
+                            name: "dtype".to_string(),
+                            reason: format!("unsupported element type: {code}"),
+                        });
+                    }
+                }
+            }
+            None => tensor.dtype,
+        };
 
         node.outputs[0].ty = ArgType::Tensor(TensorType {
             dtype: elem_type,
-- 
2.43.0


From 1880ed43e0334f79b1d1e137297d9a25ce8f2470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:08 +0000
Subject: [PATCH 78/83] fix: zero points per row in MatMulInteger

A vector of zero points of the left matrix was subtracted from its columns.
---
 crates/burn-onnx/src/burn/node/matmul_integer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/burn-onnx/src/burn/node/matmul_integer.rs b/crates/burn-onnx/src/burn/node/matmul_integer.rs
index c2a192c..a06d824 100644
--- a/crates/burn-onnx/src/burn/node/matmul_integer.rs
+++ b/crates/burn-onnx/src/burn/node/matmul_integer.rs
@@ -34,7 +34,13 @@ impl NodeCodegen for onnx_ir::matmulinteger::MatMulIntegerNode {
         let lhs_centered = if let Some(zp_input) = self.inputs.get(2).filter(|zp| !zp.is_optional())
         {
             let zp = scope.arg(zp_input);
-            let zp_expr = if lhs_rank > 1 {
+            // A vector has one zero point per row of the left matrix
+            let per_row = matches!(&zp_input.ty, onnx_ir::ir::ArgType::Tensor(t) if t.rank == 1);
+            let zp_expr = if per_row && lhs_rank > 2 {
+                quote! { (#zp).cast(#output_dtype).unsqueeze_dim::<2>(1).unsqueeze::<#lhs_rank>() }
+            } else if per_row && lhs_rank == 2 {
+                quote! { (#zp).cast(#output_dtype).unsqueeze_dim::<2>(1) }
+            } else if lhs_rank > 1 {
                 quote! { (#zp).cast(#output_dtype).unsqueeze::<#lhs_rank>() }
             } else {
                 quote! { (#zp).cast(#output_dtype) }
-- 
2.43.0


From 3119a819e0cddc5952c7eb4871066fc157ae6f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:00 +0000
Subject: [PATCH 79/83] fix: broadcast shapes with tensors of a higher rank

Arithmetic and comparison of a Shape with a tensor of rank 2 or more generated
code that does not compile.
---
 crates/burn-onnx/src/burn/argument_helpers.rs   | 8 ++++++++
 crates/burn-onnx/src/burn/node/add.rs           | 6 ++++--
 crates/burn-onnx/src/burn/node/div.rs           | 6 ++++--
 crates/burn-onnx/src/burn/node/equal.rs         | 6 ++++--
 crates/burn-onnx/src/burn/node/greater.rs       | 6 ++++--
 crates/burn-onnx/src/burn/node/greater_equal.rs | 6 ++++--
 crates/burn-onnx/src/burn/node/lower.rs         | 6 ++++--
 crates/burn-onnx/src/burn/node/lower_equal.rs   | 6 ++++--
 crates/burn-onnx/src/burn/node/mul.rs           | 6 ++++--
 crates/burn-onnx/src/burn/node/prelude.rs       | 2 +-
 crates/burn-onnx/src/burn/node/sub.rs           | 6 ++++--
 11 files changed, 45 insertions(+), 19 deletions(-)

diff --git a/crates/burn-onnx/src/burn/argument_helpers.rs b/crates/burn-onnx/src/burn/argument_helpers.rs
index 5b98373..8fd39f6 100644
--- a/crates/burn-onnx/src/burn/argument_helpers.rs
+++ b/crates/burn-onnx/src/burn/argument_helpers.rs
@@ -174,6 +174,14 @@ pub fn broadcast_shape(input: TokenStream, from: usize, to: usize) -> TokenStrea
     quote! { [#input[0]; #to] }
 }
 
+/// Generate the call that gives a shape held as a vector the rank of a tensor it is broadcast with
+pub fn unsqueeze_shape_to(rank: usize) -> Option<TokenStream> {
+    (rank > 1).then(|| {
+        let rank = rank.to_tokens();
+        quote! { .unsqueeze::<#rank>() }
+    })
+}
+
 /// Get the argument identifier
 pub fn arg_ident(arg: &Argument) -> Ident {
     Ident::new(&arg.name, Span::call_site())
diff --git a/crates/burn-onnx/src/burn/node/add.rs b/crates/burn-onnx/src/burn/node/add.rs
index d0d9cc7..5dbebd2 100644
--- a/crates/burn-onnx/src/burn/node/add.rs
+++ b/crates/burn-onnx/src/burn/node/add.rs
@@ -92,22 +92,24 @@ impl NodeCodegen for onnx_ir::node::arithmetic::AddNode {
             }
             (ArgType::Shape(_), rhs_ty) if rhs_ty.is_on_device() => {
                 let dtype_tokens = rhs_ty.elem_type().to_tokens();
+                let unsqueeze = unsqueeze_shape_to(rhs_ty.rank());
                 quote! {
                     Tensor::<B, 1, burn::tensor::Int>::from_data_dtype(
                         burn::tensor::TensorData::from(&#lhs as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ).add(#rhs)
+                    )#unsqueeze.add(#rhs)
                 }
             }
             (lhs_ty, ArgType::Shape(_)) if lhs_ty.is_on_device() => {
                 let dtype_tokens = lhs_ty.elem_type().to_tokens();
+                let unsqueeze = unsqueeze_shape_to(lhs_ty.rank());
                 quote! {
                     #lhs.add(Tensor::<B, 1, burn::tensor::Int>::from_data_dtype(
                         burn::tensor::TensorData::from(&#rhs as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ))
+                    )#unsqueeze)
                 }
             }
             _ => unreachable!(
diff --git a/crates/burn-onnx/src/burn/node/div.rs b/crates/burn-onnx/src/burn/node/div.rs
index 42b0e61..43c8bc4 100644
--- a/crates/burn-onnx/src/burn/node/div.rs
+++ b/crates/burn-onnx/src/burn/node/div.rs
@@ -107,22 +107,24 @@ impl NodeCodegen for onnx_ir::node::arithmetic::DivNode {
             }
             (ArgType::Shape(_), rhs_ty) if rhs_ty.is_on_device() => {
                 let dtype_tokens = rhs_ty.elem_type().to_tokens();
+                let unsqueeze = unsqueeze_shape_to(rhs_ty.rank());
                 quote! {
                     Tensor::<B, 1, burn::tensor::Int>::from_data_dtype(
                         burn::tensor::TensorData::from(&#lhs as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ).div(#rhs)
+                    )#unsqueeze.div(#rhs)
                 }
             }
             (lhs_ty, ArgType::Shape(_)) if lhs_ty.is_on_device() => {
                 let dtype_tokens = lhs_ty.elem_type().to_tokens();
+                let unsqueeze = unsqueeze_shape_to(lhs_ty.rank());
                 quote! {
                     #lhs.div(Tensor::<B, 1, burn::tensor::Int>::from_data_dtype(
                         burn::tensor::TensorData::from(&#rhs as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ))
+                    )#unsqueeze)
                 }
             }
             _ => unreachable!(
diff --git a/crates/burn-onnx/src/burn/node/equal.rs b/crates/burn-onnx/src/burn/node/equal.rs
index 9d93f02..5a31bc2 100644
--- a/crates/burn-onnx/src/burn/node/equal.rs
+++ b/crates/burn-onnx/src/burn/node/equal.rs
@@ -55,26 +55,28 @@ impl NodeCodegen for onnx_ir::comparison::EqualNode {
             },
             (ArgType::Shape(_), rhs_ty) if rhs_ty.is_on_device() => {
                 let dtype_tokens = rhs_ty.elem_type().to_tokens();
+                let unsqueeze = unsqueeze_shape_to(rhs_ty.rank());
                 quote! {
                     {
                         let shape_tensor = Tensor::<B, 1, Int>::from_data_dtype(
                             burn::tensor::TensorData::from(#lhs_value.as_slice()),
                             &*self.device,
                             #dtype_tokens
-                        );
+                        )#unsqueeze;
                         shape_tensor.equal(#rhs_value)
                     }
                 }
             }
             (lhs_ty, ArgType::Shape(_)) if lhs_ty.is_on_device() => {
                 let dtype_tokens = lhs_ty.elem_type().to_tokens();
+                let unsqueeze = unsqueeze_shape_to(lhs_ty.rank());
                 quote! {
                     {
                         let shape_tensor = Tensor::<B, 1, Int>::from_data_dtype(
                             burn::tensor::TensorData::from(#rhs_value.as_slice()),
                             &*self.device,
                             #dtype_tokens
-                        );
+                        )#unsqueeze;
                         #lhs_value.equal(shape_tensor)
                     }
                 }
diff --git a/crates/burn-onnx/src/burn/node/greater.rs b/crates/burn-onnx/src/burn/node/greater.rs
index 3de59d3..ae68f97 100644
--- a/crates/burn-onnx/src/burn/node/greater.rs
+++ b/crates/burn-onnx/src/burn/node/greater.rs
@@ -44,22 +44,24 @@ impl NodeCodegen for onnx_ir::comparison::GreaterNode {
             }
             (ArgType::Shape(_), rhs_ty) if rhs_ty.is_on_device() => {
                 let dtype_tokens = rhs_ty.elem_type().to_tokens();
+                let unsqueeze = unsqueeze_shape_to(rhs_ty.rank());
                 quote! {
                     Tensor::<B, 1, burn::tensor::Int>::from_data_dtype(
                         burn::tensor::TensorData::from(&#lhs_value as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ).greater(#rhs_value)
+                    )#unsqueeze.greater(#rhs_value)
                 }
             }
             (lhs_ty, ArgType::Shape(_)) if lhs_ty.is_on_device() => {
                 let dtype_tokens = lhs_ty.elem_type().to_tokens();
+                let unsqueeze = unsqueeze_shape_to(lhs_ty.rank());
                 quote! {
                     #lhs_value.greater(Tensor::<B, 1, burn::tensor::Int>::from_data_dtype(
                         burn::tensor::TensorData::from(&#rhs_value as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ))
+                    )#unsqueeze)
                 }
             }
             (ArgType::ScalarNative(_), ArgType::ScalarNative(_)) => {
diff --git a/crates/burn-onnx/src/burn/node/greater_equal.rs b/crates/burn-onnx/src/burn/node/greater_equal.rs
index 6850ae3..8514fb1 100644
--- a/crates/burn-onnx/src/burn/node/greater_equal.rs
+++ b/crates/burn-onnx/src/burn/node/greater_equal.rs
@@ -44,22 +44,24 @@ impl NodeCodegen for onnx_ir::comparison::GreaterOrEqualNode {
             }
             (ArgType::Shape(_), rhs_ty) if rhs_ty.is_on_device() => {
                 let dtype_tokens = rhs_ty.elem_type().to_tokens();
+                let unsqueeze = unsqueeze_shape_to(rhs_ty.rank());
                 quote! {
                     Tensor::<B, 1, burn::tensor::Int>::from_data_dtype(
                         burn::tensor::TensorData::from(&#lhs_value as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ).greater_equal(#rhs_value)
+                    )#unsqueeze.greater_equal(#rhs_value)
                 }
             }
             (lhs_ty, ArgType::Shape(_)) if lhs_ty.is_on_device() => {
                 let dtype_tokens = lhs_ty.elem_type().to_tokens();
+                let unsqueeze = unsqueeze_shape_to(lhs_ty.rank());
                 quote! {
                     #lhs_value.greater_equal(Tensor::<B, 1, burn::tensor::Int>::from_data_dtype(
                         burn::tensor::TensorData::from(&#rhs_value as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ))
+                    )#unsqueeze)
                 }
             }
             (ArgType::ScalarNative(_), ArgType::ScalarNative(_)) => {
diff --git a/crates/burn-onnx/src/burn/node/lower.rs b/crates/burn-onnx/src/burn/node/lower.rs
index e39c434..0d84c07 100644
--- a/crates/burn-onnx/src/burn/node/lower.rs
+++ b/crates/burn-onnx/src/burn/node/lower.rs
@@ -44,22 +44,24 @@ impl NodeCodegen for onnx_ir::comparison::LessNode {
             }
             (ArgType::Shape(_), rhs_ty) if rhs_ty.is_on_device() => {
                 let dtype_tokens = rhs_ty.elem_type().to_tokens();
+                let unsqueeze = unsqueeze_shape_to(rhs_ty.rank());
                 quote! {
                     Tensor::<B, 1, burn::tensor::Int>::from_data_dtype(
                         burn::tensor::TensorData::from(&#lhs_value as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ).lower(#rhs_value)
+                    )#unsqueeze.lower(#rhs_value)
                 }
             }
             (lhs_ty, ArgType::Shape(_)) if lhs_ty.is_on_device() => {
                 let dtype_tokens = lhs_ty.elem_type().to_tokens();
+                let unsqueeze = unsqueeze_shape_to(lhs_ty.rank());
                 quote! {
                     #lhs_value.lower(Tensor::<B, 1, burn::tensor::Int>::from_data_dtype(
                         burn::tensor::TensorData::from(&#rhs_value as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ))
+                    )#unsqueeze)
                 }
             }
             (ArgType::ScalarNative(_), ArgType::ScalarNative(_)) => {
diff --git a/crates/burn-onnx/src/burn/node/lower_equal.rs b/crates/burn-onnx/src/burn/node/lower_equal.rs
index 6d9820a..dfcf75f 100644
--- a/crates/burn-onnx/src/burn/node/lower_equal.rs
+++ b/crates/burn-onnx/src/burn/node/lower_equal.rs
@@ -44,22 +44,24 @@ impl NodeCodegen for onnx_ir::comparison::LessOrEqualNode {
             }
             (ArgType::Shape(_), rhs_ty) if rhs_ty.is_on_device() => {
                 let dtype_tokens = rhs_ty.elem_type().to_tokens();
+                let unsqueeze = unsqueeze_shape_to(rhs_ty.rank());
                 quote! {
                     Tensor::<B, 1, burn::tensor::Int>::from_data_dtype(
                         burn::tensor::TensorData::from(&#lhs_value as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ).lower_equal(#rhs_value)
+                    )#unsqueeze.lower_equal(#rhs_value)
                 }
             }
             (lhs_ty, ArgType::Shape(_)) if lhs_ty.is_on_device() => {
                 let dtype_tokens = lhs_ty.elem_type().to_tokens();
+                let unsqueeze = unsqueeze_shape_to(lhs_ty.rank());
                 quote! {
                     #lhs_value.lower_equal(Tensor::<B, 1, burn::tensor::Int>::from_data_dtype(
                         burn::tensor::TensorData::from(&#rhs_value as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ))
+                    )#unsqueeze)
                 }
             }
             (ArgType::ScalarNative(_), ArgType::ScalarNative(_)) => {
diff --git a/crates/burn-onnx/src/burn/node/mul.rs b/crates/burn-onnx/src/burn/node/mul.rs
index 2af7b67..dcb11ae 100644
--- a/crates/burn-onnx/src/burn/node/mul.rs
+++ b/crates/burn-onnx/src/burn/node/mul.rs
@@ -92,22 +92,24 @@ impl NodeCodegen for onnx_ir::node::arithmetic::MulNode {
             }
             (ArgType::Shape(_), rhs_ty) if rhs_ty.is_on_device() => {
                 let dtype_tokens = rhs_ty.elem_type().to_tokens();
+                let unsqueeze = unsqueeze_shape_to(rhs_ty.rank());
                 quote! {
                     Tensor::<B, 1, burn::tensor::Int>::from_data_dtype(
                         burn::tensor::TensorData::from(&#lhs as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ).mul(#rhs)
+                    )#unsqueeze.mul(#rhs)
                 }
             }
             (lhs_ty, ArgType::Shape(_)) if lhs_ty.is_on_device() => {
                 let dtype_tokens = lhs_ty.elem_type().to_tokens();
+                let unsqueeze = unsqueeze_shape_to(lhs_ty.rank());
                 quote! {
                     #lhs.mul(Tensor::<B, 1, burn::tensor::Int>::from_data_dtype(
                         burn::tensor::TensorData::from(&#rhs as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ))
+                    )#unsqueeze)
                 }
             }
             _ => unreachable!(
diff --git a/crates/burn-onnx/src/burn/node/prelude.rs b/crates/burn-onnx/src/burn/node/prelude.rs
index 3de86a1..a1ed8ce 100644
--- a/crates/burn-onnx/src/burn/node/prelude.rs
+++ b/crates/burn-onnx/src/burn/node/prelude.rs
@@ -14,7 +14,7 @@
 pub(crate) use super::{NodeCodegen, arg_to_ident};
 pub(crate) use crate::burn::argument_helpers::{
     broadcast_shape, convert_representation, on_device_to_native, scalar_native_to_shape,
-    scalar_tensor_to_shape, shape_to_native, unsqueeze_to_rank,
+    scalar_tensor_to_shape, shape_to_native, unsqueeze_shape_to, unsqueeze_to_rank,
 };
 
 // Re-export common burn-onnx types
diff --git a/crates/burn-onnx/src/burn/node/sub.rs b/crates/burn-onnx/src/burn/node/sub.rs
index 33abc28..86731b2 100644
--- a/crates/burn-onnx/src/burn/node/sub.rs
+++ b/crates/burn-onnx/src/burn/node/sub.rs
@@ -92,22 +92,24 @@ impl NodeCodegen for onnx_ir::node::arithmetic::SubNode {
             }
             (ArgType::Shape(_), rhs_ty) if rhs_ty.is_on_device() => {
                 let dtype_tokens = rhs_ty.elem_type().to_tokens();
+                let unsqueeze = unsqueeze_shape_to(rhs_ty.rank());
                 quote! {
                     Tensor::<B, 1, burn::tensor::Int>::from_data_dtype(
                         burn::tensor::TensorData::from(&#lhs as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ).sub(#rhs)
+                    )#unsqueeze.sub(#rhs)
                 }
             }
             (lhs_ty, ArgType::Shape(_)) if lhs_ty.is_on_device() => {
                 let dtype_tokens = lhs_ty.elem_type().to_tokens();
+                let unsqueeze = unsqueeze_shape_to(lhs_ty.rank());
                 quote! {
                     #lhs.sub(Tensor::<B, 1, burn::tensor::Int>::from_data_dtype(
                         burn::tensor::TensorData::from(&#rhs as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ))
+                    )#unsqueeze)
                 }
             }
             _ => unreachable!(
-- 
2.43.0


From 274a2dc18af39aff2a881587bd936b423a987369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:00 +0000
Subject: [PATCH 80/83] fix: reject a power of a shape that the generated code
 cannot compute

Pow of a Shape and a scalar generated code that does not compile.
---
 crates/burn-onnx/src/burn/node/pow.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/pow.rs b/crates/burn-onnx/src/burn/node/pow.rs
index 2bbea34..03feae4 100644
--- a/crates/burn-onnx/src/burn/node/pow.rs
+++ b/crates/burn-onnx/src/burn/node/pow.rs
@@ -168,8 +168,12 @@ impl NodeCodegen for onnx_ir::pow::PowNode {
                 quote! { #base.powi(#rhs) }
             }
             // on_device + ScalarNative
-            (PowerType::Int, _, ArgType::ScalarNative(_)) => quote! { #lhs.powi_scalar(#rhs) },
-            (PowerType::Float, _, ArgType::ScalarNative(_)) => quote! { #lhs.powf_scalar(#rhs) },
+            (PowerType::Int, lhs_ty, ArgType::ScalarNative(_)) if lhs_ty.is_on_device() => {
+                quote! { #lhs.powi_scalar(#rhs) }
+            }
+            (PowerType::Float, lhs_ty, ArgType::ScalarNative(_)) if lhs_ty.is_on_device() => {
+                quote! { #lhs.powf_scalar(#rhs) }
+            }
             (pt, lhs, rhs) => panic!(
                 "Unsupported pow type combination: power_type={pt:?}, lhs={lhs:?}, rhs={rhs:?}"
             ),
-- 
2.43.0


From 61b55c2ea553a64ee4add3d783d0b29810e67d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:36 +0000
Subject: [PATCH 81/83] fix: product of two vectors

MatMul and MatMulInteger of two vectors are a scalar, the generated code
multiplied them as matrices.
---
 crates/burn-onnx/src/burn/node/matmul.rs         | 5 +++++
 crates/burn-onnx/src/burn/node/matmul_integer.rs | 6 ++++++
 crates/onnx-ir/src/node/matmul.rs                | 6 ++++++
 crates/onnx-ir/src/node/matmulinteger.rs         | 6 ++++++
 4 files changed, 23 insertions(+)

diff --git a/crates/burn-onnx/src/burn/node/matmul.rs b/crates/burn-onnx/src/burn/node/matmul.rs
index 15dea3f..27b9ffa 100644
--- a/crates/burn-onnx/src/burn/node/matmul.rs
+++ b/crates/burn-onnx/src/burn/node/matmul.rs
@@ -39,6 +39,7 @@ impl NodeCodegen for onnx_ir::matmul::MatMulNode {
         };
         let output_rank = match &output_arg.ty {
             ArgType::Tensor(t) => t.rank,
+            ArgType::ScalarTensor(_) => 0,
             _ => panic!("output must be a tensor"),
         };
 
@@ -87,6 +88,10 @@ impl NodeCodegen for onnx_ir::matmul::MatMulNode {
                     }
                 }
             }
+            // Dot product of two vectors
+            Ordering::Equal if output_arg.ty.is_scalar() => quote! {
+                let #output = #lhs.mul(#rhs).sum();
+            },
             Ordering::Equal => quote! {
                 let #output = #lhs.matmul(#rhs);
             },
diff --git a/crates/burn-onnx/src/burn/node/matmul_integer.rs b/crates/burn-onnx/src/burn/node/matmul_integer.rs
index a06d824..d2fdcef 100644
--- a/crates/burn-onnx/src/burn/node/matmul_integer.rs
+++ b/crates/burn-onnx/src/burn/node/matmul_integer.rs
@@ -107,6 +107,12 @@ impl NodeCodegen for onnx_ir::matmulinteger::MatMulIntegerNode {
                     }
                 }
             }
+            // Dot product of two vectors
+            std::cmp::Ordering::Equal if self.outputs[0].ty.is_scalar() => {
+                quote! {
+                    let #output = (#lhs_centered).mul(#rhs_centered).sum();
+                }
+            }
             std::cmp::Ordering::Equal => {
                 quote! {
                     let #output = (#lhs_centered).matmul(#rhs_centered);
diff --git a/crates/onnx-ir/src/node/matmul.rs b/crates/onnx-ir/src/node/matmul.rs
index 9781517..2b56a84 100644
--- a/crates/onnx-ir/src/node/matmul.rs
+++ b/crates/onnx-ir/src/node/matmul.rs
@@ -104,6 +104,12 @@ impl NodeProcessor for MatMulProcessor {
                 // When A is 2D and B is 1D: A[M, K] x B[K] -> valid
                 // Higher dimensional cases use broadcasting on batch dimensions
 
+                // The product of two vectors is a scalar
+                if a.rank == 1 && b.rank == 1 {
+                    node.outputs[0].ty = ArgType::ScalarTensor(a.dtype);
+                    return Ok(());
+                }
+
                 let mut out_rank = max(a.rank, b.rank);
                 if (a.rank >= 2 && b.rank == 1) || (a.rank == 1 && b.rank >= 2) {
                     out_rank -= 1;
diff --git a/crates/onnx-ir/src/node/matmulinteger.rs b/crates/onnx-ir/src/node/matmulinteger.rs
index 9e2b037..5ea88f1 100644
--- a/crates/onnx-ir/src/node/matmulinteger.rs
+++ b/crates/onnx-ir/src/node/matmulinteger.rs
@@ -66,6 +66,12 @@ impl NodeProcessor for MatMulIntegerProcessor {
 
         match (&node.inputs[0].ty, &node.inputs[1].ty) {
             (ArgType::Tensor(a), ArgType::Tensor(b)) => {
+                // The product of two vectors is a scalar
+                if a.rank == 1 && b.rank == 1 {
+                    node.outputs[0].ty = ArgType::ScalarTensor(DType::I32);
+                    return Ok(());
+                }
+
                 let mut out_rank = max(a.rank, b.rank);
 
                 // Special cases: vector–matrix or matrix–vector reduces rank by 1
-- 
2.43.0


From 10fd4fd7477efb92df662da82c724c144a5539e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:51 +0000
Subject: [PATCH 82/83] fix: mask output of Dropout

---
 crates/burn-onnx/src/burn/node/dropout.rs    | 16 ++++++++++++++
 crates/onnx-ir/src/node/dropout.rs           | 23 +++++++++++---------
 crates/onnx-ir/src/phases/post_processing.rs | 13 ++++++++++-
 3 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/dropout.rs b/crates/burn-onnx/src/burn/node/dropout.rs
index 66f12d4..f26275a 100644
--- a/crates/burn-onnx/src/burn/node/dropout.rs
+++ b/crates/burn-onnx/src/burn/node/dropout.rs
@@ -33,8 +33,24 @@ impl NodeCodegen for onnx_ir::dropout::DropoutNode {
         let output = arg_to_ident(self.outputs.first().unwrap());
         let field = Ident::new(&self.name, Span::call_site());
 
+        // Inference drops nothing, so the mask is set everywhere
+        let mask = self
+            .outputs
+            .get(1)
+            .filter(|mask| !mask.name.is_empty())
+            .map(|mask| {
+                let name = arg_to_ident(mask);
+                let ones = quote! { #output.ones_like() };
+                if mask.ty.elem_type().is_bool() {
+                    quote! { let #name = #ones.bool(); }
+                } else {
+                    quote! { let #name = #ones; }
+                }
+            });
+
         quote! {
             let #output = self.#field.forward(#input);
+            #mask
         }
     }
 
diff --git a/crates/onnx-ir/src/node/dropout.rs b/crates/onnx-ir/src/node/dropout.rs
index d9f180d..8368690 100644
--- a/crates/onnx-ir/src/node/dropout.rs
+++ b/crates/onnx-ir/src/node/dropout.rs
@@ -18,7 +18,7 @@
 use derive_new::new;
 use onnx_ir_derive::NodeBuilder;
 
-use crate::ir::{Argument, Node, RawNode, RuntimeInputRef, TensorDataExt};
+use crate::ir::{ArgType, Argument, DType, Node, RawNode, RuntimeInputRef, TensorDataExt};
 use crate::processor::{
     InputSpec, NodeProcessor, NodeSpec, OutputPreferences, OutputSpec, ProcessError, same_as_input,
 };
@@ -94,7 +94,7 @@ impl NodeProcessor for DropoutProcessor {
     fn infer_types(
         &self,
         node: &mut RawNode,
-        _opset: usize,
+        opset: usize,
         _output_preferences: &OutputPreferences,
     ) -> Result<(), ProcessError> {
         // TODO: Validate input count based on opset version - Opset 1-11 has 1 input, Opset 12+ can have up to 3 inputs (data, ratio, training_mode) - Missing opset-specific validation
@@ -102,16 +102,19 @@ impl NodeProcessor for DropoutProcessor {
         // First output: same type as input
         same_as_input(node);
 
-        // Second output (mask): boolean tensor with same shape as input, if present
+        // Second output (mask): same shape as input, boolean since opset 10, if present
         if node.outputs.len() == 2 {
-            let input_type = &node.inputs[0].ty;
-            if let crate::ir::ArgType::Tensor(input_tensor) = input_type {
-                node.outputs[1].ty = crate::ir::ArgType::Tensor(crate::ir::TensorType {
-                    dtype: crate::ir::DType::Bool,
-                    rank: input_tensor.rank,
-                    static_shape: input_tensor.static_shape.clone(),
-                });
+            let mut mask_type = node.inputs[0].ty.clone();
+            if opset >= 10 {
+                match &mut mask_type {
+                    ArgType::Tensor(tensor) => tensor.dtype = DType::Bool,
+                    ArgType::ScalarTensor(dtype) | ArgType::ScalarNative(dtype) => {
+                        *dtype = DType::Bool
+                    }
+                    ArgType::Shape(_) => {}
+                }
             }
+            node.outputs[1].ty = mask_type;
         }
 
         Ok(())
diff --git a/crates/onnx-ir/src/phases/post_processing.rs b/crates/onnx-ir/src/phases/post_processing.rs
index a7e174b..698796b 100644
--- a/crates/onnx-ir/src/phases/post_processing.rs
+++ b/crates/onnx-ir/src/phases/post_processing.rs
@@ -240,7 +240,18 @@ pub(crate) fn post_process(
     // No-op elimination (includes Identity nodes and any processor-declared no-ops)
     log::debug!("Starting no-op elimination");
     {
-        let elimination_plan = plan_noop_elimination(&nodes, &node_output_map, simplify);
+        let mut elimination_plan = plan_noop_elimination(&nodes, &node_output_map, simplify);
+        // A node whose further outputs are used (the mask of a Dropout) stays for their sake
+        let used: HashSet<&str> = nodes
+            .iter()
+            .flat_map(|node| &node.inputs)
+            .chain(&outputs)
+            .map(|arg| arg.name.as_str())
+            .collect();
+        elimination_plan.nodes_to_remove.retain(|&idx| {
+            let mut further = nodes[idx].outputs.iter().skip(1);
+            !further.any(|out| used.contains(out.name.as_str()))
+        });
         apply_noop_elimination(&mut nodes, &mut outputs, elimination_plan);
     }
 
-- 
2.43.0


From 66d1bd06260a63aa697c250ec12d3321e2968769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:58 +0000
Subject: [PATCH 83/83] fix: refuse BatchNormalization in training mode

---
 crates/burn-onnx/src/burn/node/batch_norm.rs |  5 +++++
 crates/onnx-ir/src/node/batch_norm.rs        | 12 +++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/batch_norm.rs b/crates/burn-onnx/src/burn/node/batch_norm.rs
index 59f7349..a575ebe 100644
--- a/crates/burn-onnx/src/burn/node/batch_norm.rs
+++ b/crates/burn-onnx/src/burn/node/batch_norm.rs
@@ -43,6 +43,11 @@ impl NodeCodegen for BatchNormalizationNode {
     fn forward(&self, scope: &mut ScopeAtPosition<'_>) -> TokenStream {
         let output = arg_to_ident(self.outputs.first().unwrap());
 
+        // Further outputs (running and saved statistics) are those of the training mode
+        if self.outputs.iter().skip(1).any(|out| !out.name.is_empty()) {
+            panic!("BatchNormalization: training mode is not supported");
+        }
+
         match &self.config {
             BatchNormConfig::Static(_) => {
                 let input = scope.arg(self.inputs.first().unwrap());
diff --git a/crates/onnx-ir/src/node/batch_norm.rs b/crates/onnx-ir/src/node/batch_norm.rs
index cbeee8e..55cacb2 100644
--- a/crates/onnx-ir/src/node/batch_norm.rs
+++ b/crates/onnx-ir/src/node/batch_norm.rs
@@ -100,14 +100,20 @@ impl NodeProcessor for BatchNormProcessor {
         _output_preferences: &OutputPreferences,
     ) -> Result<(), ProcessError> {
         // TODO: Add validation for unexpected attributes
-        // FIXME: Check training_mode attribute - spec mentions it but implementation doesn't validate it
-        // According to spec, training mode outputs mean/var/saved_mean/saved_var which are not currently handled
-        // TODO: Add test coverage for training_mode=1 case - spec says outputs 5 tensors but only 1 output validated
+        // TODO: Add test coverage for training_mode=1 case
         // TODO: Validate epsilon and momentum ranges - negative epsilon would be invalid, momentum should be [0,1]
         // TODO: Add test for mismatched input tensor shapes - scale/bias/mean/var must match channels dimension
         // TODO: Add test for wrong input tensor ranks - spec requires scale/bias/mean/var to be 1D
         // TODO: Validate input[3] and input[4] are actually mean and variance tensors (rank 1)
 
+        // In training mode the node normalizes by the statistics of the batch
+        let training_mode = node.attrs.get("training_mode");
+        if training_mode.is_some_and(|mode| mode.clone().into_i64() != 0) {
+            return Err(ProcessError::Custom(
+                "BatchNormalization: training mode is not supported".to_string(),
+            ));
+        }
+
         // Extract input tensor type
         let tensor = match &node.inputs[0].ty {
             ArgType::Tensor(tensor) => tensor,
-- 
2.43.0

