From e0301d5e37e33dd5f14e20dbf8e942b2512714ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 001/102] fix: ceil_mode padding of max pooling (wrong extra
 padding with symmetric padding or when the last window is dropped)

---
 tinynn/converter/operators/torch/base.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/tinynn/converter/operators/torch/base.py b/tinynn/converter/operators/torch/base.py
index d37a98a..1a1a4b9 100644
--- a/tinynn/converter/operators/torch/base.py
+++ b/tinynn/converter/operators/torch/base.py
@@ -527,7 +527,6 @@ class OperatorConverter(ABC):
                 assert type(ops[1]) is tfl.MaxPool2dOperator, 'ceil_mode=True for AvgPool not supported'
                 fill_nan = True
                 ceil_pad = get_pool_ceil_padding(input_tensor, kernel_size, stride, padding)
-                ceil_pad = list(np.add(ceil_pad, padding))
 
         if pad_h + pad_w > 0:
             pad = [[0, 0], [pad_h, pad_h], [pad_w, pad_w], [0, 0]]
@@ -772,19 +771,11 @@ def get_pool_ceil_padding(input, kernel_size, stride, padding):
         else ceiled_output_dim[i]
         for i in range(0, len(ceiled_output_dim))
     ]
+    # extra padding needed at the end, on top of the symmetric one
     padding_ceil = [
-        0
-        if (stride[i] == 1)
-        else (kernel_size[i] - (dim[i] + 2 * padding[i] - ((ceiled_output_dim[i] - 1) * stride[i] + 1)))
+        max(0, (ceiled_output_dim[i] - 1) * stride[i] + kernel_size[i] - (dim[i] + 2 * padding[i]))
         for i in range(0, len(padding))
     ]
-    # ensure padding is not > kernel_size
-    padding_ceil = [
-        (int(padding_ceil[i]) if padding_ceil[i] < kernel_size[i] - 1 else int(kernel_size[i] - 1))
-        if ((padding_ceil[i] + 2 * padding[i]) >= (kernel_size[i]))
-        else int(padding_ceil[i])
-        for i in range(0, len(padding_ceil))
-    ]
     return padding_ceil
 
 
-- 
2.43.0


From 1dea80bb3235c52dceb0b9695f2942bfbfb20ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 002/102] fix: avg_pool2d accepted divisor_override equal to
 one kernel side instead of the kernel area

---
 tinynn/converter/operators/torch/aten.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index f3e75c3..7b1ba5b 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -1044,8 +1044,8 @@ class ATenAvgPool2dOperator(ATenAvgPool2dSchema):
         count_include_pad = self.input_tensors[5] in (True, 1)
 
         assert (
-            divisor_override is None or divisor_override == kernel_h == kernel_w
-        ), "Only divisor_override == kernel_h == kernel_w is supported"
+            divisor_override is None or divisor_override == kernel_h * kernel_w
+        ), "Only divisor_override == kernel_h * kernel_w is supported"
 
         padding = tfl_schema.Padding.VALID
 
-- 
2.43.0


From cd63a3d1ca8157748bc222067122348659531f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 003/102] fix: max pooling used SAME padding for even kernels,
 which pads the wrong side

---
 tinynn/converter/operators/torch/aten.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index 7b1ba5b..0c310c4 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -1488,7 +1488,11 @@ class ATenMaxPool2dOperator(ATenMaxPool2dSchema):
         assert dilation_h == dilation_w == 1, "Only dilation == 1 is supported"
 
         add_pad_op = not (
-            stride_h == stride_w == 1 and pad_h == kernel_h // 2 and pad_w == kernel_w // 2 and not ceil_mode
+            stride_h == stride_w == 1
+            and kernel_h % 2 == kernel_w % 2 == 1
+            and pad_h == kernel_h // 2
+            and pad_w == kernel_w // 2
+            and not ceil_mode
         )
         padding = tfl_schema.Padding.SAME
         if add_pad_op:
-- 
2.43.0


From 5c71fb89e6b961d98ff91a0c5e64c538b8ed1d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 004/102] fix: padding / count_include_pad of 1-D pooling was
 applied around the reshapes instead of around the 2-D pooling

---
 tinynn/converter/operators/torch/aten.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index 0c310c4..7a20ceb 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -1026,7 +1026,6 @@ class ATenAvgPool2dOperator(ATenAvgPool2dSchema):
         outputs = self.to_tfl_tensors(self.output_names, self.output_tensors)
 
         if isinstance(self, ATenAvgPool1dOperator):
-            print(self.input_tensors[2])
             kernel_h, kernel_w = self.input_tensors[1][0], 1
             if self.input_tensors[2]:
                 stride_h, stride_w = self.input_tensors[2][0], 1
@@ -1053,20 +1052,20 @@ class ATenAvgPool2dOperator(ATenAvgPool2dSchema):
         pre_ops = []
         ops = [avgpool_op]
         post_ops = []
-        offset = 0
         if isinstance(self, ATenAvgPool1dOperator):
             ops = self.wrap_ops_with_1d_2d_reshapes(ops)
             pre_ops = ops[:1]
             post_ops = ops[2:]
             ops = ops[1:2]
-            offset = -1
         ops = self.wrap_ops_with_nhwc_nchw_transposes(ops)
-        ops = pre_ops + ops + post_ops
         self.handle_padding(padding_h, padding_w, 1, ops, ceil_mode)
 
-        if not count_include_pad:
+        if not count_include_pad and divisor_override is None:
+            ones = torch.ones_like(self.input_tensors[0])
+            if isinstance(self, ATenAvgPool1dOperator):
+                ones = ones.unsqueeze(-1)
             mask = 1.0 / torch.nn.functional.avg_pool2d(
-                torch.ones_like(self.input_tensors[0]),
+                ones,
                 (kernel_h, kernel_w),
                 (stride_h, stride_w),
                 (padding_h, padding_w),
@@ -1075,11 +1074,12 @@ class ATenAvgPool2dOperator(ATenAvgPool2dSchema):
             )
             mask_permuted = mask.permute(0, 2, 3, 1)
             mask_t = self.create_attr_tensor(mask_permuted)
-            before_mask = outputs[0].tensor / mask_permuted
+            actual_out = ops[-2].outputs[0]
+            before_mask = actual_out.tensor / mask_permuted
             before_mask_t = self.create_transform_tensor(before_mask)
-            actual_out = ops[offset - 2].outputs[0]
-            ops[offset - 2].outputs[0] = before_mask_t
-            ops.insert(offset - 1, tfl.MulOperator([before_mask_t, mask_t], [actual_out]))
+            ops[-2].outputs[0] = before_mask_t
+            ops.insert(-1, tfl.MulOperator([before_mask_t, mask_t], [actual_out]))
+        ops = pre_ops + ops + post_ops
 
         for op in ops:
             graph_converter.add_operator(op)
@@ -1508,9 +1508,9 @@ class ATenMaxPool2dOperator(ATenMaxPool2dSchema):
             post_ops = ops[2:]
             ops = ops[1:2]
         ops = self.wrap_ops_with_nhwc_nchw_transposes(ops)
-        ops = pre_ops + ops + post_ops
         if add_pad_op:
             self.handle_padding(pad_h, pad_w, 1, ops, ceil_mode)
+        ops = pre_ops + ops + post_ops
 
         for op in ops:
             graph_converter.add_operator(op)
-- 
2.43.0


From b15b7798362bec69bec29294008ae935d378fdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 005/102] fix: im2col swapped the paddings of height and width

---
 tinynn/converter/operators/torch/aten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index 7a20ceb..bf76063 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -4431,7 +4431,7 @@ class ATenIm2colOperator(ATenIm2colSchema):
         padding_h, padding_w = self.input_tensors[3]
         stride_h, stride_w = self.input_tensors[4]
 
-        orig_pad = np.array([padding_h, padding_h, padding_w, padding_w], dtype='int32').reshape(-1, 2)
+        orig_pad = np.array([padding_w, padding_w, padding_h, padding_h], dtype='int32').reshape(-1, 2)
         pad_fill = np.zeros((input_tensor.tensor.ndim - orig_pad.shape[0], 2), dtype='int32')
         pad_arr = np.flip(np.concatenate((orig_pad, pad_fill)), 0)
         pad_tensor = self.create_attr_tensor(pad_arr)
-- 
2.43.0


From 3a6c7d883db5bef2929eb6af289d5ef35418d303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 006/102] fix: layer_norm without weight or bias crashed the
 converter

---
 tinynn/converter/operators/torch/aten.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index bf76063..c815c47 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -2440,8 +2440,10 @@ class ATenLayerNormOperator(ATenLayerNormSchema):
         self.run(node)
         input_tensor = self.find_or_create_input(0, graph_converter)
         normalized_shape = self.input_tensors[1]
-        weight_tensor = self.find_or_create_input(2, graph_converter)
-        bias_tensor = self.find_or_create_input(3, graph_converter)
+        weight_tensor, bias_tensor = [
+            self.find_or_create_input(i, graph_converter) if self.input_tensors[i] is not None else None
+            for i in (2, 3)
+        ]
         eps = self.input_tensors[4]
 
         ops = []
@@ -2470,11 +2472,17 @@ class ATenLayerNormOperator(ATenLayerNormSchema):
         norm = self.create_transform_tensor(numerator.tensor / denominator.tensor)
         ops.append(tfl.DivOperator([numerator, denominator], [norm]))
 
-        mul_out = self.create_transform_tensor(norm.tensor * weight_tensor.tensor)
-        ops.append(tfl.MulOperator([norm, weight_tensor], [mul_out]))
+        if weight_tensor is not None:
+            mul_out = self.create_transform_tensor(norm.tensor * weight_tensor.tensor)
+            ops.append(tfl.MulOperator([norm, weight_tensor], [mul_out]))
+        else:
+            mul_out = norm
 
         outputs = self.to_tfl_tensors(self.output_names, self.output_tensors)
-        ops.append(tfl.AddOperator([mul_out, bias_tensor], outputs))
+        if bias_tensor is not None:
+            ops.append(tfl.AddOperator([mul_out, bias_tensor], outputs))
+        else:
+            ops[-1].outputs = outputs
 
         for op in ops:
             graph_converter.add_operator(op)
-- 
2.43.0


From a54a1e28c834cf584905ab8974cf0fda29cb7d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 007/102] fix: sum/cumsum of int32 tensors declared int64
 outputs for int32 data

---
 tinynn/converter/operators/torch/aten.py |  3 ++-
 tinynn/converter/operators/torch/base.py | 24 +++++++++++++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index c815c47..94ac12a 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -3854,7 +3854,7 @@ class ATenSumOperator(ATenSumSchema):
         super().parse(node, attrs, args, graph_converter)
 
         self.run(node)
-        self.handle_reduce(tfl.SumOperator, args, graph_converter, False)
+        self.handle_reduce(tfl.SumOperator, args, graph_converter, False, promote=True)
 
 
 class ATenProdOperator(ATenProdSchema):
@@ -4169,6 +4169,7 @@ class ATenCumsumOperator(ATenCumsumSchema):
             dim += input_tensor.ndim
 
         input_tensor = self.find_or_create_input(0, graph_converter)
+        input_tensor = self.cast_promoted_input(input_tensor, graph_converter)
         dim_tensor = self.create_attr_tensor(np.array([dim], dtype='int32'))
 
         inputs = [input_tensor, dim_tensor]
diff --git a/tinynn/converter/operators/torch/base.py b/tinynn/converter/operators/torch/base.py
index 1a1a4b9..da42618 100644
--- a/tinynn/converter/operators/torch/base.py
+++ b/tinynn/converter/operators/torch/base.py
@@ -588,7 +588,26 @@ class OperatorConverter(ABC):
         constant_tensor = self.create_attr_tensor(constant_arr)
         return constant_tensor
 
-    def handle_reduce(self, converter_class, input_args, graph_converter, transpose_opt, *args, **kwargs):
+    def cast_promoted_input(self, input_tensor, graph_converter):
+        # e.g. `torch.sum` and `torch.cumsum` promote integers to int64
+        src_dtype, dst_dtype = self.input_tensors[0].dtype, self.output_tensors[0].dtype
+        if src_dtype == dst_dtype or dst_dtype != torch.int64:
+            return input_tensor
+
+        casted = self.create_transform_tensor(input_tensor.tensor.astype('int64'))
+        graph_converter.add_operator(
+            tfl.CastOperator(
+                [input_tensor],
+                [casted],
+                tfl.torch_tflite_dtype_mappings[src_dtype],
+                tfl.torch_tflite_dtype_mappings[dst_dtype],
+            )
+        )
+        return casted
+
+    def handle_reduce(
+        self, converter_class, input_args, graph_converter, transpose_opt, *args, promote=False, **kwargs
+    ):
         input_tensor = self.find_or_create_input(0, graph_converter)
 
         if 'dim' in input_args and 'keepdim' in input_args:
@@ -607,6 +626,9 @@ class OperatorConverter(ABC):
             if dim < 0:
                 dims[idx] += input_tensor.tensor.ndim
 
+        if promote:
+            input_tensor = self.cast_promoted_input(input_tensor, graph_converter)
+
         ops = []
         transpose = False
 
-- 
2.43.0


From ed12aeadd79b720e96789a6d990a10c1b8662e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 008/102] fix: atan2 with broadcasting produced a model that
 TFLite refuses

---
 tinynn/converter/operators/torch/aten.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index 94ac12a..c971a03 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -1644,6 +1644,30 @@ class ATenAtan2Operator(ATenAtan2Schema):
         super().parse(node, attrs, args, graph_converter)
 
         self.run(node)
+
+        # TFLite ATAN2 doesn't broadcast
+        output_shape = list(self.output_tensors[0].shape)
+        for i in range(2):
+            if list(self.input_tensors[i].shape) != output_shape:
+                inp_t = self.find_or_create_input(i, graph_converter)
+                expanded = self.input_tensors[i].expand(output_shape).contiguous()
+                if inp_t.buffer is None:
+                    new_shape = [1] * (len(output_shape) - len(inp_t.shape)) + list(inp_t.shape)
+                    new_shape_arr = np.array(new_shape, dtype='int32')
+                    new_shape_tensor = self.create_attr_tensor(new_shape_arr)
+                    reshaped = self.create_transform_tensor(np.reshape(inp_t.tensor, new_shape_arr))
+                    graph_converter.add_operator(
+                        tfl.ReshapeOperator([inp_t, new_shape_tensor], [reshaped], new_shape_arr)
+                    )
+                    repeats = [y // x for x, y in zip(new_shape, output_shape)]
+                    repeats_tensor = self.create_attr_tensor(np.array(repeats, dtype='int32'))
+                    new_inp = self.create_transform_tensor(expanded)
+                    graph_converter.add_operator(tfl.TileOperator([reshaped, repeats_tensor], [new_inp]))
+                else:
+                    new_inp = self.create_attr_tensor(expanded)
+                self.input_names[i] = new_inp.name
+                self.input_tensors[i] = expanded
+
         self.elementwise_binary(tfl.Atan2Operator, graph_converter, False)
 
 
-- 
2.43.0


From 8a13abaa8fb542030a8279b48a9450d07b553fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 009/102] fix: arithmetic on integer tensors truncated float
 operands and true division

---
 tinynn/converter/operators/torch/aten.py | 10 +++++-----
 tinynn/converter/operators/torch/base.py | 12 ++++++++++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index c971a03..37f0e1a 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -1293,7 +1293,7 @@ class ATenSubOperator(ATenSubSchema):
         assert alpha == 1, "Only alpha == 1 is supported"
 
         if type(other) in (int, float, bool):
-            self.input_tensors[1] = torch.tensor([other], dtype=self.input_tensors[0].dtype)
+            self.input_tensors[1] = self.torch_tensor_from_operand(other)
         elif not isinstance(other, torch.Tensor):
             assert False, "other should have type int, float, tensor in aten::sub(input, other)"
 
@@ -1311,7 +1311,7 @@ class ATenRsubOperator(ATenRsubSchema):
         assert alpha == 1, "Only alpha == 1 is supported"
 
         if type(other) in (int, float, bool):
-            self.input_tensors[1] = torch.tensor([other], dtype=self.input_tensors[0].dtype)
+            self.input_tensors[1] = self.torch_tensor_from_operand(other)
         elif not isinstance(other, torch.Tensor):
             assert False, "other should have type int, float, tensor in aten::rsub(input, other)"
 
@@ -1349,7 +1349,7 @@ class ATenMulOperator(ATenMulSchema):
         other = self.input_tensors[1]
 
         if type(other) in (int, float):
-            self.input_tensors[1] = torch.tensor([other], dtype=self.input_tensors[0].dtype)
+            self.input_tensors[1] = self.torch_tensor_from_operand(other)
         elif not isinstance(other, torch.Tensor):
             assert False, "other should have type int, float, tensor in aten::mul(input, other)"
 
@@ -1419,7 +1419,7 @@ class ATenDivOperator(ATenDivSchema):
 
         other = self.input_tensors[1]
         if type(other) in (int, float):
-            self.input_tensors[1] = torch.tensor([other], dtype=self.input_tensors[0].dtype)
+            self.input_tensors[1] = self.torch_tensor_from_operand(other)
         elif not isinstance(other, torch.Tensor):
             assert False, "other should have type int, float, tensor in aten::div(input, other)"
 
@@ -2172,7 +2172,7 @@ class ATenAddOperator(ATenAddSchema):
         assert alpha == 1, "Only alpha == 1 is supported"
 
         if type(other) in (int, float, bool):
-            self.input_tensors[1] = torch.tensor([other], dtype=self.input_tensors[0].dtype)
+            self.input_tensors[1] = self.torch_tensor_from_operand(other)
         elif not isinstance(other, torch.Tensor):
             assert False, "other should have type int, float, tensor in aten::add(input, other)"
 
diff --git a/tinynn/converter/operators/torch/base.py b/tinynn/converter/operators/torch/base.py
index da42618..79d2bb6 100644
--- a/tinynn/converter/operators/torch/base.py
+++ b/tinynn/converter/operators/torch/base.py
@@ -336,6 +336,10 @@ class OperatorConverter(ABC):
     def elementwise_binary(self, converter_class, graph_converter, autocast, *args, **kwargs):
         if autocast:
             result_dtype = torch.promote_types(self.input_tensors[0].dtype, self.input_tensors[1].dtype)
+            # e.g. true division of integers
+            output_dtype = self.output_tensors[0].dtype
+            if output_dtype.is_floating_point and not result_dtype.is_floating_point:
+                result_dtype = output_dtype
             for i in range(2):
                 t = self.input_tensors[i]
                 if result_dtype != t.dtype:
@@ -716,6 +720,14 @@ class OperatorConverter(ABC):
             elif self.q_type == np.int16:
                 return torch.quantize_per_tensor(tensor, tensor[0] / 127, 128, torch.quint8)
 
+    def torch_tensor_from_operand(self, value):
+        # Scalar operand of an arithmetic operator, the type of which follows the first input,
+        # except that a float promotes integral tensors
+        dtype = self.input_tensors[0].dtype
+        if type(value) is float and dtype in (torch.bool, torch.uint8, torch.int8, torch.int16, torch.int32, torch.int64):
+            dtype = torch.float32
+        return torch.tensor([value], dtype=dtype)
+
     def torch_tensor_from_scalar(self, ref_tensor: torch.Tensor, src_tensor: torch.Tensor):
         tgt_tensor = src_tensor
         if not isinstance(src_tensor, torch.Tensor):
-- 
2.43.0


From fc9cf289a13131a13a56b1e97e7d2df37d089e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 010/102] fix: rounding_mode of torch.div was ignored

---
 tinynn/converter/operators/torch/aten.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index 37f0e1a..f99643e 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -1423,6 +1423,14 @@ class ATenDivOperator(ATenDivSchema):
         elif not isinstance(other, torch.Tensor):
             assert False, "other should have type int, float, tensor in aten::div(input, other)"
 
+        rounding_mode = self.input_tensors[2] if len(self.input_tensors) > 2 else None
+        if rounding_mode == 'floor':
+            self.elementwise_binary(tfl.FloorDivOperator, graph_converter, True)
+            return
+        if rounding_mode == 'trunc':
+            # The TFLite DIV operator truncates only for integers
+            assert not self.output_tensors[0].is_floating_point(), 'rounding_mode="trunc" is not supported for floats'
+
         self.elementwise_binary(tfl.DivOperator, graph_converter, True)
 
 
-- 
2.43.0


From 86b4fdcba7d3a430ae609de2cd9351d7b9ba4fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 011/102] fix: matmul with a vector on the right emitted no
 operator, leaving a broken graph

---
 tinynn/converter/operators/torch/aten.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index f99643e..ac659bf 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -1542,6 +1542,8 @@ class ATenMatmulOperator(ATenMatmulSchema):
                 graph_converter.add_operator(tfl.FullyConnectedOperator(inputs, outputs, keepNumDims=keep_dims))
             elif weight_tensor.tensor.ndim >= 2 and weight_tensor.tensor.ndim <= 5:
                 self.elementwise_binary(tfl.BatchMatmulOperator, graph_converter, False)
+            else:
+                self.unimplemented(node, attrs, args)
         else:
             self.unimplemented(node, attrs, args)
 
-- 
2.43.0


From 2c03447c5c56b3e45464af9914af88cafbe020a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 012/102] fix: detach() of an activation was baked into the
 model as a constant

---
 tinynn/converter/operators/torch/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/torch/__init__.py b/tinynn/converter/operators/torch/__init__.py
index aa5245a..b90d7ed 100644
--- a/tinynn/converter/operators/torch/__init__.py
+++ b/tinynn/converter/operators/torch/__init__.py
@@ -223,7 +223,7 @@ OPERATOR_CONVERTER_DICT: typing.Dict[str, OperatorConverter] = {
     # non tracking
     "aten::Int": TrackConstantOperator,
     "aten::zeros": NoTrackOperator,
-    "aten::detach": NoTrackOperator,
+    "aten::detach": ATenCloneOperator,
     "aten::size": NoTrackOperator,
     "aten::arange": NoTrackOperator,
     "aten::ones": NoTrackOperator,
-- 
2.43.0


From 22c2861c492ff24ae8860b6e5334753ca3ed617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 013/102] fix: conv3d with a single channel was mistaken for a
 depthwise convolution

---
 tinynn/converter/operators/tflite/transformable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/tflite/transformable.py b/tinynn/converter/operators/tflite/transformable.py
index b24554e..1b0e0bb 100644
--- a/tinynn/converter/operators/tflite/transformable.py
+++ b/tinynn/converter/operators/tflite/transformable.py
@@ -250,7 +250,7 @@ class GenericConvOperator(TransformableOperator):
         elif weight_dim not in (4, 5):
             assert False, "Only Conv[Transpose]1d/2d/3d is supported"
 
-        if weight_tensor.shape[1] == 1 and weight_tensor.shape[0] == self.groups:
+        if weight_tensor.shape[1] == 1 and weight_tensor.shape[0] == self.groups and (weight_dim != 5 or self.groups > 1):
             if weight_dim in (3, 4):
                 conv_op = tfl_ops.DepthwiseConv2dOperator(
                     self.inputs,
-- 
2.43.0


From afb8b5a0a4c42e8c0c64c250d3e1566f6ea0a52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 014/102] fix: negative constant padding produced an invalid
 model instead of being rejected

---
 tinynn/converter/operators/torch/aten.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index ac659bf..1c42293 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -934,6 +934,8 @@ class ATenConstantPadNdOperator(ATenConstantPadNdSchema):
         pads = self.input_tensors[1]
         constant_value = self.input_tensors[2]
 
+        assert all(x >= 0 for x in pads), "Negative paddings are not supported"
+
         orig_pad = np.array(pads, dtype='int32').reshape(-1, 2)
         pad_fill = np.zeros((input_tensor.tensor.ndim - orig_pad.shape[0], 2), dtype='int32')
         pad_arr = np.flip(np.concatenate((orig_pad, pad_fill)), 0)
@@ -4342,6 +4344,8 @@ class ATenPadOperator(ATenPadSchema):
         op_cls_dict = {'constant': (tfl.PadOperator, tfl.Padv2Operator), 'reflect': (tfl.MirrorPadOperator, None)}
         assert mode in op_cls_dict, f"Unknown mode for aten::pad : {mode}"
 
+        assert all(x >= 0 for x in pads), "Negative paddings are not supported"
+
         orig_pad = np.array(pads, dtype='int32').reshape(-1, 2)
         pad_fill = np.zeros((input_tensor.tensor.ndim - orig_pad.shape[0], 2), dtype='int32')
         pad_arr = np.flip(np.concatenate((orig_pad, pad_fill)), 0)
-- 
2.43.0


From fbdee12dfdc7b1fc037b28a9d8ed2d144937a86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 015/102] fix: alpha, beta and non-vector inputs of
 addmm/addbmm/baddbmm were silently ignored

---
 tinynn/converter/operators/torch/aten.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index 1c42293..d97c2df 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -1696,8 +1696,12 @@ class ATenAddmmOperator(ATenAddmmSchema):
         super().parse(node, attrs, args, graph_converter)
 
         self.run(node)
+        assert all(x == 1 for x in self.input_tensors[3:5]), "Only alpha == beta == 1 is supported"
         bias_tensor, input_tensor, weight_tensor = [self.find_or_create_input(i, graph_converter) for i in range(3)]
         assert len(weight_tensor.shape) == 2, "Weight of AddMM should be 2D"
+        assert (
+            bias_tensor.tensor.size == bias_tensor.shape[-1] == weight_tensor.shape[1]
+        ), "Bias of AddMM should be a row vector"
 
         perm = [1, 0]
         perm_tensor = self.create_attr_tensor(np.array(perm, dtype='int32'))
@@ -4556,6 +4560,7 @@ class ATenAddbmmOperator(ATenAddbmmSchema):
         self.run(node)
         input_tensor, batch1_tensor, batch2_tensor = [self.find_or_create_input(i, graph_converter) for i in range(3)]
         output_tensors = self.to_tfl_tensors(self.output_names, self.output_tensors)
+        assert all(x == 1 for x in self.input_tensors[3:5]), "Only alpha == beta == 1 is supported"
         assert (
             batch1_tensor.tensor.ndim == batch2_tensor.tensor.ndim == 3
         ), "batch1 and batch2 must be 3-D tensors each containing the same number of matrices"
@@ -4578,6 +4583,7 @@ class ATenBaddbmmOperator(ATenBaddbmmSchema):
         self.run(node)
         input_tensor, batch1_tensor, batch2_tensor = [self.find_or_create_input(i, graph_converter) for i in range(3)]
         output_tensors = self.to_tfl_tensors(self.output_names, self.output_tensors)
+        assert all(x == 1 for x in self.input_tensors[3:5]), "Only alpha == beta == 1 is supported"
         assert (
             batch1_tensor.tensor.ndim == batch2_tensor.tensor.ndim == 3
         ), "batch1 and batch2 must be 3-D tensors each containing the same number of matrices"
-- 
2.43.0


From e8ec5ca896e68984fa40d7dfc25addfe309515b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 016/102] fix: unused outputs of UNPACK got the wrong shape
 when a transpose passes through it

---
 tinynn/converter/operators/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index f6f7e06..f62cb92 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -2017,7 +2017,7 @@ class GraphOptimizer(object):
                 # For unused tensors, we perform inplace shape updates
                 if op_out.name in skip_names:
                     orig_shape = np.array(op_out.shape, dtype='int32')
-                    new_shape = orig_shape[inv_perm_arr]
+                    new_shape = orig_shape[inv_perm_arr_post]
                     op_out.shape = tuple(new_shape.tolist())
                     continue
 
-- 
2.43.0


From ac99d5ffee5601a61cc5582a80dae28ab5379f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 017/102] fix: transposes and reshapes were moved through
 GATHER with non-vector or dynamic indices

---
 tinynn/converter/operators/optimize.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index f62cb92..ea6c4af 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -3963,8 +3963,12 @@ def is_elementwise_unary_op(op_code: ExtendedOperator, op: tfl.BaseOperator):
         ExtendedOperator.SLICE,
         ExtendedOperator.STRIDED_SLICE,
         ExtendedOperator.TILE,
-        ExtendedOperator.GATHER,
         ExtendedOperator.ABS,
+    ) or (
+        # Only GATHER with a vector of indices preserves the layout of its (first) input
+        op_code == ExtendedOperator.GATHER
+        and len(op.inputs[1].shape) == 1
+        and op.inputs[0].buffer is None
     ) or is_elementwise_reduce_op(op_code, op)
 
 
-- 
2.43.0


From d18d2890dc082c7d1e0ecd3626ff7053b768ecbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 018/102] fix: index_put with values of more than one dimension
 produced an invalid TILE

---
 tinynn/converter/operators/torch/aten.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index d97c2df..00a8f6e 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -3606,7 +3606,10 @@ class ATenIndexPutOperator(ATenIndexPutSchema):
         val_tensor = self.find_or_create_input(2, graph_converter)
         actual_val = val_tensor
         orig_val_shape = val_tensor.shape
-        target_val_shape = index_tensor.shape[:-1]
+        # The values are broadcast to the shape of the indexed region, and then flattened as the indices
+        target_val_shape = np.broadcast_shapes(*[tuple(x.shape) for x in indices_tensors])
+        target_val_shape += tuple(input_tensor.shape[len(indices_tensors) :])
+        flat_val_shape = tuple(index_tensor.shape[:-1])
         if orig_val_shape != target_val_shape:
             if val_tensor.buffer is None:
                 new_shape = orig_val_shape
@@ -3634,6 +3637,18 @@ class ATenIndexPutOperator(ATenIndexPutSchema):
             else:
                 actual_val = self.create_attr_tensor(np.broadcast_to(val_tensor.tensor, target_val_shape))
 
+        if target_val_shape != flat_val_shape:
+            flat_val = np.reshape(actual_val.tensor, flat_val_shape)
+            if actual_val.buffer is None:
+                flat_shape_tensor = self.create_attr_tensor(np.array(flat_val_shape, dtype='int32'))
+                flat_val_tensor = self.create_transform_tensor(flat_val)
+                graph_converter.add_operator(
+                    tfl.ReshapeOperator([actual_val, flat_shape_tensor], [flat_val_tensor], flat_shape_tensor.tensor)
+                )
+                actual_val = flat_val_tensor
+            else:
+                actual_val = self.create_attr_tensor(flat_val)
+
         shape_tensor = self.create_attr_tensor(np.array(input_tensor.shape, dtype='int32'))
 
         if input_tensor.buffer is None or index_tensor.buffer is None:
-- 
2.43.0


From b70a2ff39718a21dcb2218a1401ea7faa8aeb477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 019/102] fix: GATHER with dynamic indices was removed as a
 no-op if the traced indices happened to be 0,1,2,...

---
 tinynn/converter/operators/optimize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index ea6c4af..6de952d 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -4057,6 +4057,7 @@ def is_ending_with_noop_edge(edge: ig.Edge, graph_converter: ig.Graph, branch: b
             )
             or (
                 target_vertex['node_type'] == ExtendedOperator.GATHER
+                and target_vertex['op'].inputs[1].buffer is not None
                 and target_vertex['op'].inputs[0].shape == target_vertex['op'].outputs[0].shape
                 and (np.diff(target_vertex['op'].inputs[1].tensor) == 1).all()
             )
-- 
2.43.0


From 702bbc45cdec945f13c9d26ef9b3e675dc0c4e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 020/102] fix: index_put of a constant folded the values of the
 traced input into the model

---
 tinynn/converter/operators/torch/aten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index 00a8f6e..bc1af38 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -3658,7 +3658,7 @@ class ATenIndexPutOperator(ATenIndexPutSchema):
             transformed_index = tuple(index_tensor.tensor[..., i] for i in range(index_tensor.shape[-1]))
             old_val_tensor = self.create_attr_tensor(input_tensor.tensor[transformed_index])
 
-        if actual_val.buffer is None:
+        if actual_val.buffer is None or old_val_tensor.buffer is None:
             update_tensor = self.create_transform_tensor(actual_val.tensor - old_val_tensor.tensor)
             graph_converter.add_operator(tfl.SubOperator([actual_val, old_val_tensor], [update_tensor]))
         else:
-- 
2.43.0


From 96883357e442fc49cdcb48bf7337c14000300283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:58 +0000
Subject: [PATCH 021/102] fix: negative constant indices of index_put produced
 a model that TFLite cannot run

---
 tinynn/converter/operators/torch/aten.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index bc1af38..fde4f0d 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -3594,6 +3594,8 @@ class ATenIndexPutOperator(ATenIndexPutSchema):
                     actual_idx_t = index_casted
                 new_indices.append(actual_idx_t)
             else:
+                # Negative indices are not supported in TFLite
+                actual_idx = np.where(actual_idx < 0, actual_idx + input_tensor.shape[i], actual_idx)
                 new_indices.append(self.create_attr_tensor(actual_idx.astype(np.int32)))
 
         index_arr = np.stack([x.tensor for x in new_indices], 1)
-- 
2.43.0


From 225cf232299c8a1bbc46f3ccbdf935a3de7f8f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:11 +0000
Subject: [PATCH 022/102] fix: the reshape/transpose passthrough pass crashed
 on nodes that are connected to outputs

---
 tinynn/converter/operators/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 6de952d..69eacc1 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -1377,7 +1377,7 @@ class GraphOptimizer(object):
                         continue
                     next_node = self.graph.graph.vs[edge.target]
 
-                    if 'direction' in next_node['op'].extra_hints:
+                    if next_node['op'] is not None and 'direction' in next_node['op'].extra_hints:
                         next_node['op'].extra_hints.pop('direction')
                 continue
 
-- 
2.43.0


From e00cdabaeef51ad097ea45ae68054cf7e1af0b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 023/102] fix: permute with negative dimensions was mistaken
 for a no-op or another permutation by the optimizer

---
 tinynn/converter/operators/torch/aten.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index fde4f0d..c649058 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -2170,7 +2170,8 @@ class ATenPermuteOperator(ATenPermuteSchema):
 
         self.run(node)
         input_tensor = self.find_or_create_input(0, graph_converter)
-        attr_tensor = self.create_attr_tensor(np.array(self.input_tensors[1], dtype='int32'))
+        perm = [x + input_tensor.tensor.ndim if x < 0 else x for x in self.input_tensors[1]]
+        attr_tensor = self.create_attr_tensor(np.array(perm, dtype='int32'))
 
         inputs = [input_tensor, attr_tensor]
         outputs = self.to_tfl_tensors(self.output_names, self.output_tensors)
-- 
2.43.0


From f2d31f2c6e6492ca32a82184774085bb08bb5f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 024/102] fix: chained no-ops between the input and the output
 crashed the optimizer

---
 tinynn/converter/operators/optimize.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 69eacc1..111db00 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -1173,16 +1173,25 @@ class GraphOptimizer(object):
 
     @class_conditional(lambda self: self.level >= GraphOptimizer.COMMON_OPTIMIZE)
     def remove_noop_pass(self, branch: bool = False):
-        edges = self.graph.graph.es.select(
-            functools.partial(is_ending_with_noop_edge, graph_converter=self.graph.graph, branch=branch)
-        )
-        filtered_pairs = [[self.graph.graph.vs[x.source], self.graph.graph.vs[x.target]] for x in edges]
+        while True:
+            edges = self.graph.graph.es.select(
+                functools.partial(is_ending_with_noop_edge, graph_converter=self.graph.graph, branch=branch)
+            )
+            filtered_pairs = [[self.graph.graph.vs[x.source], self.graph.graph.vs[x.target]] for x in edges]
 
-        # Try to fuse the edges
-        if not branch:
-            filtered_pairs = fuse_connected_edges(filtered_pairs)
+            if branch:
+                # Chained no-ops are eliminated one after another
+                tails = {n[-1].index for n in filtered_pairs}
+                filtered_pairs = [n for n in filtered_pairs if n[0].index not in tails]
+            else:
+                # Try to fuse the edges
+                filtered_pairs = fuse_connected_edges(filtered_pairs)
 
-        elinimate_sequences(self.graph, filtered_pairs)
+            num_nodes = self.graph.graph.vcount()
+            elinimate_sequences(self.graph, filtered_pairs)
+
+            if not branch or self.graph.graph.vcount() == num_nodes:
+                break
 
     @class_conditional(lambda self: self.level >= GraphOptimizer.COMMON_OPTIMIZE)
     def fuse_wrapped_reshape_within_transpose_pass(self):
-- 
2.43.0


From 68ba3003b038d8cc89ed3bf1868d6e470bd51c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:44 +0000
Subject: [PATCH 025/102] fix: the reshape passthrough pass crashed on
 PAD/SLICE/TILE/reduce operators that involve several dims

---
 tinynn/converter/operators/optimize.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 111db00..8b05980 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -2150,6 +2150,22 @@ class GraphOptimizer(object):
             dim_indice = op_input_dims(op)
             input_indices = op_input_indices(op)
 
+            # Multiple dims are not supported
+            if dim_indice is None and (
+                node['node_type']
+                in (
+                    ExtendedOperator.PAD,
+                    ExtendedOperator.PADV2,
+                    ExtendedOperator.MIRROR_PAD,
+                    ExtendedOperator.SLICE,
+                    ExtendedOperator.STRIDED_SLICE,
+                    ExtendedOperator.TILE,
+                )
+                or is_elementwise_reduce_op(node['node_type'], op)
+                or (node['node_type'] == ExtendedOperator.PRELU and op.inputs[1].tensor.ndim != 1)
+            ):
+                continue
+
             prev_nodes = []
             cand_shapes = dict()
             cand_next_shapes = dict()
-- 
2.43.0


From dcc21ee5cb9adcdf2f1ec02173f22d8ed8aaf687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:26 +0000
Subject: [PATCH 026/102] fix: max_transpose_dims produced wrong or broken
 transposes (inverted permutation, dims of size 1, chained transposes)

---
 tinynn/converter/operators/optimize.py | 41 +++++++++++++++-----------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 8b05980..c3331e6 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -2677,6 +2677,10 @@ class GraphOptimizer(object):
             )
         )
 
+        # Make sure the nodes are topologically sorted
+        topo_order = {idx: i for i, idx in enumerate(self.graph.graph.topological_sorting(mode='out'))}
+        vertices = sorted(vertices, key=lambda x: topo_order[x.index])
+
         remove_ids = []
         ops = []
         restore_mapping = []
@@ -2702,8 +2706,7 @@ class GraphOptimizer(object):
             restore_mapping.append(restore_nodes)
             remove_ids.append(trans.index)
 
-        # Make sure the nodes are topologically sorted
-        sorted_ops = [node['op'] for node in sorted(vertices, key=lambda x: int(re.search(r'\d+', x['name'])[0]))]
+        sorted_ops = [node['op'] for node in vertices]
 
         # Delete nodes before transformation in the graph
         self.graph.graph.delete_vertices(remove_ids)
@@ -2717,27 +2720,29 @@ class GraphOptimizer(object):
             perm = perm_tensor.tensor
             output_shape = output_tensor.shape
 
-            last_perm = None
-            last_dim = None
-            cum_dim = None
+            # The position of each input dim in the output, ignoring the dims of size 1 that don't affect the data layout
+            positions = {p: i for i, p in enumerate(p for p in perm.tolist() if input_shape[p] != 1)}
+
+            last_pos = None
             new_shape = []
             new_perm = []
-            for d, p in zip(input_shape, perm):
-                if last_dim is None and last_perm is None:
-                    cum_dim = d
+            for i, d in enumerate(input_shape):
+                if d == 1:
+                    continue
+
+                pos = positions[i]
+                if last_pos is not None and pos - last_pos == 1:
+                    # Dims that stay adjacent in the output can be merged
+                    new_shape[-1] *= d
                 else:
-                    if p - last_perm == 1 or d == 1 or cum_dim == 1:
-                        cum_dim *= d
-                    else:
-                        new_shape.append(cum_dim)
-                        new_perm.append(last_perm)
-                        cum_dim = d
+                    new_shape.append(d)
+                    new_perm.append(pos)
 
-                last_dim = d
-                last_perm = p
+                last_pos = pos
 
-            new_shape.append(cum_dim)
-            new_perm.append(last_perm)
+            if len(new_shape) == 0:
+                new_shape.append(1)
+                new_perm.append(0)
 
             new_perm_arr = np.argsort(new_perm).astype('int32')
 
-- 
2.43.0


From 0126728be5caaa66647411435181842bb0fbc314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:55 +0000
Subject: [PATCH 027/102] fix: weights of PRELU were broken when a transpose
 involving the batch dim is moved through it

---
 tinynn/converter/operators/optimize.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index c3331e6..9d6bc5d 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -2080,11 +2080,22 @@ class GraphOptimizer(object):
             elif node['node_type'] == ExtendedOperator.PRELU:
                 old_weight = op.inputs[1].tensor
                 if old_weight.ndim != 1:
-                    assert old_weight.ndim + 1 == len(inv_perm_arr)
-                    new_perm = np.argsort(np.argsort(inv_perm_arr[1:]))
+                    weight_t = op.inputs[1]
+                    if old_weight.ndim + 1 == len(inv_perm_arr) and inv_perm_arr[0] == 0:
+                        new_perm = np.argsort(np.argsort(inv_perm_arr[1:]))
+                    else:
+                        # The batch dim is involved, so the weight needs to have the same rank as the input
+                        if old_weight.ndim < len(inv_perm_arr):
+                            full_shape = [1] * (len(inv_perm_arr) - old_weight.ndim) + list(old_weight.shape)
+                            full_shape_t = self.create_attr_tensor(np.array(full_shape, dtype='int32'))
+                            weight_t = self.create_transform_tensor(np.reshape(old_weight, full_shape))
+                            self.graph.add_operator(
+                                tfl.ReshapeOperator([op.inputs[1], full_shape_t], [weight_t], full_shape)
+                            )
+                        new_perm = inv_perm_arr
                     new_perm_t = self.create_attr_tensor(np.array(new_perm, dtype='int32'))
-                    new_weight = self.create_transform_tensor(np.transpose(old_weight, new_perm))
-                    self.graph.add_operator(tfl.TransposeOperator([op.inputs[1], new_perm_t], [new_weight]))
+                    new_weight = self.create_transform_tensor(np.transpose(weight_t.tensor, new_perm))
+                    self.graph.add_operator(tfl.TransposeOperator([weight_t, new_perm_t], [new_weight]))
                     actions.append((self.graph.replace_operator_input, (node, 1, new_weight, True)))
             elif node['node_type'] in (ExtendedOperator.SLICE, ExtendedOperator.STRIDED_SLICE):
                 for i, t in enumerate(op.inputs[1:]):
@@ -2456,8 +2467,8 @@ class GraphOptimizer(object):
                 if old_weight.ndim != 1:
                     new_dim = prev_shape.index(-1)
                     old_dim = next_shape.index(-1)
-                    new_shape = np.ones(len(prev_shape) - 1, dtype='int32')
-                    new_shape[new_dim - 1] = old_weight.shape[old_dim - 1]
+                    new_shape = np.ones(len(prev_shape), dtype='int32')
+                    new_shape[new_dim] = old_weight.shape[old_dim - len(next_shape)]
                     new_shape_t = self.create_attr_tensor(new_shape)
                     new_weight = self.create_transform_tensor(np.reshape(old_weight, new_shape))
                     self.graph.add_operator(tfl.ReshapeOperator([op.inputs[1], new_shape_t], [new_weight], new_shape))
@@ -4366,7 +4377,7 @@ def op_input_dims(op: tfl.BaseOperator):
         w_shape = np.array(op.inputs[1].shape, dtype='int32')
         nonzero_idx = np.nonzero(w_shape != 1)[0]
         if nonzero_idx.size == 1:
-            dim_indices = nonzero_idx[0] + 1
+            dim_indices = nonzero_idx[0] + len(op.inputs[0].shape) - len(op.inputs[1].shape)
     elif isinstance(op, (tfl.SliceOperator, tfl.StridedSliceOperator, tfl.TileOperator)):
         old_shape = np.array(op.inputs[0].shape)
         new_shape = np.array(op.outputs[0].shape)
-- 
2.43.0


From 408d66e04d8d7fb866f730620b1dd3deefea833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:34 +0000
Subject: [PATCH 028/102] fix: unused outputs of SPLIT were left without
 tensors if other outputs are concatenated or stacked

---
 tinynn/converter/operators/optimize.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 9d6bc5d..6da5521 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -3442,21 +3442,21 @@ class GraphOptimizer(object):
         all_tensors = set(self.graph.graph.es['label'])
         names = []
         for node in filtered_nodes:
-            output_names = node['outputs']
+            output_names = list(node['outputs'])
 
             # Recognizes the pattern SPLIT -> (RESHAPE, ..., RESHAPE)
             if not list_unpack_names.isdisjoint(set(output_names)):
-                output_names = []
+                reshape_names = []
                 outdegree = 0
                 for edge in node.out_edges():
                     target_vertex = edge.target_vertex
                     if target_vertex['node_type'] == ExtendedOperator.RESHAPE:
                         outdegree += target_vertex.outdegree()
-                        output_names.append(target_vertex['outputs'][0])
+                        reshape_names.append(target_vertex['outputs'][0])
 
-                    # Only nodes with partially unused tensors are supported
-                    if outdegree == 0:
-                        continue
+                # Only nodes with partially unused tensors are supported
+                if outdegree > 0:
+                    output_names.extend(reshape_names)
 
             for out in output_names:
                 if out not in all_tensors:
-- 
2.43.0


From 0f43f6bc310d0443dbad0953cca5cae4b9d4284e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:51 +0000
Subject: [PATCH 029/102] fix: the fused activation of grouped transposed
 convolutions was dropped by the rewrite

---
 tinynn/converter/operators/optimize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 6da5521..37f1651 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -2964,6 +2964,7 @@ class GraphOptimizer(object):
                         padding=conv.padding,
                         strideH=conv.strideH,
                         strideW=conv.strideW,
+                        fusedActivationFunction=conv.fusedActivationFunction,
                     )
                 )
 
-- 
2.43.0


From 822468da6b653bfa2c89ac69ca75d5ff6425bfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:51 +0000
Subject: [PATCH 030/102] fix: zero padding before max pooling was fused as
 SAME padding, which pads with the lowest value

---
 tinynn/converter/operators/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 37f1651..e978f9d 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -3714,7 +3714,7 @@ def is_padding_fusable_edge(edge: ig.Edge, graph_converter: ig.Graph):
     return (
         source_vertex['node_type'] in (ExtendedOperator.PAD, ExtendedOperator.PADV2)
         and (
-            len(source_vertex['op'].inputs) == 2
+            (len(source_vertex['op'].inputs) == 2 and target_vertex['node_type'] != ExtendedOperator.MAX_POOL_2D)
             or (
                 len(source_vertex['op'].inputs) == 3
                 and source_vertex['op'].inputs[2].dtype == np.dtype('float32')
-- 
2.43.0


From eec33e8d9e016c6a378abf2078e9cbbe72f3cf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:51 +0000
Subject: [PATCH 031/102] fix: batch-norm was fused into a following
 convolution with padding

---
 tinynn/converter/operators/optimize.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index e978f9d..e0e9d3c 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -215,8 +215,11 @@ class GraphOptimizer(object):
             bn = seq[0]['op']
             conv = seq[1]['op']
 
-            skip = bn.inputs[0].quantization is not None or (
-                conv.inputs[1].shape[1] == 1 and conv.inputs[1].shape[0] == conv.groups and conv.groups > 1
+            # The offsets of batch-norm don't apply to the padded elements, so it cannot be fused if there's any padding
+            skip = (
+                bn.inputs[0].quantization is not None
+                or (conv.inputs[1].shape[1] == 1 and conv.inputs[1].shape[0] == conv.groups and conv.groups > 1)
+                or any(p != 0 for p in conv.padding)
             )
             return skip
 
-- 
2.43.0


From 01f0f162cdbcd27ebbca83daf2167c7165a32a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:03 +0000
Subject: [PATCH 032/102] fix: batch-norm fusion scaled the wrong weights of
 grouped transposed convolutions

---
 tinynn/converter/operators/optimize.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index e0e9d3c..5c56a27 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -139,9 +139,9 @@ class GraphOptimizer(object):
             eps = bn['op'].eps
 
             # Fuse conv/fc and batch-norm
-            new_weight = fuse_bn_weight(
-                eps, bn_w, bn_var, activ_w, conv['node_type'] == ExtendedOperator.GENERIC_DECONV
-            )
+            is_deconv = conv['node_type'] == ExtendedOperator.GENERIC_DECONV
+            groups = conv['op'].groups if is_deconv else 1
+            new_weight = fuse_bn_weight(eps, bn_w, bn_var, activ_w, is_deconv, groups)
             new_bias = fuse_bn_bias(eps, bn_w, bn_var, bn_mean, bn_b, activ_b)
 
             # New attribute tensors
@@ -4430,7 +4430,13 @@ def op_input_indices(op: tfl.BaseOperator):
     return input_indices
 
 
-def fuse_bn_weight(eps, scale, var, weight, transpose):
+def fuse_bn_weight(eps, scale, var, weight, transpose, groups=1):
+    if transpose and groups > 1:
+        # The layout of the weight is (groups * in_channels_per_group, out_channels_per_group, ...)
+        inv = 1 / np.sqrt(var + eps)
+        scales = np.repeat((scale * inv).reshape(groups, -1), weight.shape[0] // groups, axis=0)
+        return weight * scales.reshape(list(weight.shape[:2]) + [1] * (len(weight.shape) - 2))
+
     if transpose:
         shape = [1, -1] + [1] * (len(weight.shape) - 2)
     else:
-- 
2.43.0


From f30236f442ca3587c8a9588de0bb5f99ea95fddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:03 +0000
Subject: [PATCH 033/102] fix: batch-norm on dim 1 was fused into a
 multi-dimensional fully-connected operator along the last dim

---
 tinynn/converter/operators/optimize.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 5c56a27..0856054 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -3685,6 +3685,11 @@ def is_bn_fusable_edge(edge: ig.Edge, graph_converter: ig.Graph):
         source_vertex['node_type']
         in (ExtendedOperator.GENERIC_CONV, ExtendedOperator.GENERIC_DECONV, ExtendedOperator.FULLY_CONNECTED)
         and target_vertex['node_type'] == ExtendedOperator.BATCH_NORM
+        # The channel dim of batch-norm is the last dim of fully-connected only for 2-D tensors
+        and (
+            source_vertex['node_type'] != ExtendedOperator.FULLY_CONNECTED
+            or len(target_vertex['op'].inputs[0].shape) == 2
+        )
         and source_vertex.outdegree() == 1
         and target_vertex['op'].inputs[1].buffer is not None
         and target_vertex['op'].inputs[2].buffer is not None
-- 
2.43.0


From 5f46226909e9f1a5fa3b39ea8bf31618dfe125a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:28 +0000
Subject: [PATCH 034/102] fix: channel selections around convolutions were
 fused as if they were permutations within a single group

---
 tinynn/converter/operators/optimize.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 0856054..1b3b72b 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -4322,6 +4322,8 @@ def is_conv2d_gather_edge(edge: ig.Edge, graph_converter: ig.Graph):
         and target_vertex['op'].inputs[1].buffer is not None
         and target_vertex['op'].axis == 3
         and source_vertex['op'].inputs[1].tensor.shape[0] == target_vertex['op'].inputs[1].tensor.shape[0]
+        # The output channels of grouped convolutions are not interchangeable
+        and source_vertex['op'].inputs[1].tensor.shape[3] == source_vertex['op'].inputs[0].shape[3]
     )
 
 
@@ -4336,6 +4338,10 @@ def is_gather_conv2d_edge(edge: ig.Edge, graph_converter: ig.Graph):
         and source_vertex['op'].inputs[1].buffer is not None
         and source_vertex['op'].axis == 3
         and source_vertex['op'].inputs[1].tensor.shape[0] == target_vertex['op'].inputs[1].tensor.shape[3]
+        # The indices should be a permutation of all the channels
+        and np.array_equal(
+            np.sort(source_vertex['op'].inputs[1].tensor), np.arange(source_vertex['op'].inputs[0].shape[3])
+        )
     )
 
 
-- 
2.43.0


From 11e964b5258b1c3c84dfca6c196f4719c663262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:56 +0000
Subject: [PATCH 035/102] fix: the division of a square root by another tensor
 was fused as if the square root were the divisor

---
 tinynn/converter/operators/optimize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 1b3b72b..5d2c52d 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -480,6 +480,7 @@ class GraphOptimizer(object):
             if (
                 div_op.inputs[0].buffer is not None
                 and np.all(div_op.inputs[0].tensor == 1.0)
+                and tuple(div_op.inputs[1].shape) == tuple(div_op.outputs[0].shape)
                 and div['op'].fusedActivationFunction == ActivationFunctionType.NONE
             ):
                 new_output = div['outputs'][0]
@@ -4352,6 +4353,7 @@ def is_reciprocal_sqrt_edge(edge: ig.Edge, graph_converter: ig.Graph):
     return (
         source_vertex['node_type'] == ExtendedOperator.SQRT
         and target_vertex['node_type'] == ExtendedOperator.DIV
+        and target_vertex['op'].inputs[1].name == source_vertex['outputs'][0]
         and source_vertex.outdegree() == 1
     )
 
-- 
2.43.0


From be2079f2a2c8ccef19437c4f73dbe837f097c76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:56 +0000
Subject: [PATCH 036/102] fix: fusing batch-norm into a following convolution
 with one output channel broke the bias

---
 tinynn/converter/operators/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 5d2c52d..cf9657c 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -4490,8 +4490,8 @@ def fuse_rev_bn_bias(eps, scale, var, mean, bn_b, activ_b, weight):
         offset_b = np.matmul(weight.sum(reduced_dims), fused_b.reshape(-1, 1)).reshape(-1)
 
     if activ_b is not None:
-        if activ_b.shape != mean.shape and activ_b.ndim == 1 and activ_b.size == 1:
-            activ_b = activ_b.repeat(mean.size)
+        if activ_b.shape != offset_b.shape and activ_b.ndim == 1 and activ_b.size == 1:
+            activ_b = activ_b.repeat(offset_b.size)
         return activ_b + offset_b
     else:
         return offset_b
-- 
2.43.0


From 4f6795e91642729f4b103901e9ccf0cebe53d2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:35 +0000
Subject: [PATCH 037/102] fix: fusing batch-norm into a following grouped
 convolution crashed

---
 tinynn/converter/operators/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index cf9657c..e944e9f 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -218,7 +218,7 @@ class GraphOptimizer(object):
             # The offsets of batch-norm don't apply to the padded elements, so it cannot be fused if there's any padding
             skip = (
                 bn.inputs[0].quantization is not None
-                or (conv.inputs[1].shape[1] == 1 and conv.inputs[1].shape[0] == conv.groups and conv.groups > 1)
+                or conv.groups > 1
                 or any(p != 0 for p in conv.padding)
             )
             return skip
-- 
2.43.0


From 6b3c485230948d5b21bbf50a28bb37f294ffdf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:05 +0000
Subject: [PATCH 038/102] fix: PACK with an axis moved by a transpose
 transposed its inputs wrongly

---
 tinynn/converter/operators/optimize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index e944e9f..c96f85f 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -1985,10 +1985,10 @@ class GraphOptimizer(object):
                 perm_arr_post = perm_arr
                 inv_perm_arr_post = inv_perm_arr
 
-                perm_arr = perm_arr_post[perm_arr_post != op.axis]
-                perm_arr[perm_arr > op.axis] -= 1
+                inv_perm_arr = inv_perm_arr_post[inv_perm_arr_post != op.axis]
+                inv_perm_arr[inv_perm_arr > op.axis] -= 1
 
-                inv_perm_arr = np.argsort(perm_arr).astype('int32')
+                perm_arr = np.argsort(inv_perm_arr).astype('int32')
             else:
                 perm_arr_post = perm_arr
                 inv_perm_arr_post = inv_perm_arr
-- 
2.43.0


From 2855099766c4bc1190247287c907a4b81450aed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:41 +0000
Subject: [PATCH 039/102] fix: consecutive GATHERs with ascending indices were
 removed as if they selected everything

---
 tinynn/converter/operators/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index c96f85f..2157dbf 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -809,7 +809,8 @@ class GraphOptimizer(object):
             else:
                 hint = None
 
-            remove_first = np.array_equal(new_perm, np.sort(new_perm))
+            first_op = seq[0]['op']
+            remove_first = np.array_equal(new_perm, np.arange(first_op.inputs[0].shape[first_op.axis]))
             return remove_first, (new_perm, hint)
 
         def _remove_first_action(first_node, last_node, custom_data):
-- 
2.43.0


From 33e72d4efe8d91f4bd7096a68f48eba57bf7ce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:07 +0000
Subject: [PATCH 040/102] fix: transposes of lower-rank inputs were moved
 through broadcasting operators

---
 tinynn/converter/operators/optimize.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 2157dbf..85d68e5 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -1935,6 +1935,12 @@ class GraphOptimizer(object):
             if self.level >= GraphOptimizer.BRANCH_OPTIMIZE_EXTENDED and 'down' in next_hints:
                 continue
 
+            # With broadcasting, the transposes of the inputs with fewer dims cannot be moved to the output
+            op_rank = max(len(t.shape) for t in [op.inputs[i] for i in input_indices] + list(op.outputs))
+            cand_perms = {k: v for k, v in cand_perms.items() if len(k) >= op_rank}
+            if len(cand_perms) == 0:
+                continue
+
             cur_transpose_size = sum(cand_perms.values()) + num_reshape_transpose
             new_transpose_size = (
                 len(prev_nodes) + len(next_nodes) - num_constant_nodes - cur_transpose_size + num_reshape_transpose
-- 
2.43.0


From a6cc39fc020eaa06763c23ae2f159362242ccfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:32 +0000
Subject: [PATCH 041/102] fix: transpose-reshape-transpose was fused into a
 reshape although it permutes the data

---
 tinynn/converter/operators/optimize.py | 53 +++-----------------------
 1 file changed, 6 insertions(+), 47 deletions(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 85d68e5..faa981c 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -1226,8 +1226,12 @@ class GraphOptimizer(object):
             if not is_simple_reshape(orig_shape, new_shape):
                 return True
 
-            new_perm = fuse_transpose_perms_extended(seq)
-            return (new_perm != np.sort(new_perm)).any()
+            # The sequence is a reshape if and only if the order of the elements is preserved
+            orig_indices = np.arange(np.prod(seq[0]['op'].inputs[0].shape, dtype='int64'))
+            indices = orig_indices.reshape(seq[0]['op'].inputs[0].shape)
+            indices = indices.transpose(seq[0]['op'].inputs[1].tensor).reshape(new_shape)
+            indices = indices.transpose(seq[2]['op'].inputs[1].tensor)
+            return not np.array_equal(indices.flatten(), orig_indices)
 
         def _remove_last_pred(seq):
             orig_tensor = seq[0]['op'].inputs[0].tensor
@@ -4546,51 +4550,6 @@ def fuse_transpose_perms(seq: typing.Iterable[ig.Vertex]):
     return cur_perm
 
 
-def fuse_transpose_perms_extended(seq: typing.Iterable[ig.Vertex]):
-    cur_perm = None
-    # Reverse the sequence if dim is expanding
-    if seq[1]['node_type'] == ExtendedOperator.RESHAPE:
-        if len(seq[1]['op'].inputs[0].shape) < len(seq[1]['op'].outputs[0].shape):
-            seq = list(reversed(list(seq)))
-    for node in seq:
-        if node['node_type'] == ExtendedOperator.TRANSPOSE:
-            next_perm = node['op'].inputs[1].tensor
-            if cur_perm is None:
-                cur_perm = next_perm
-            else:
-                cur_perm = cur_perm[next_perm]
-        elif node['node_type'] == ExtendedOperator.RESHAPE:
-            if len(seq[1]['op'].inputs[0].shape) > len(seq[1]['op'].outputs[0].shape):
-                old_shape = node['op'].inputs[0].shape
-                new_shape = node['op'].outputs[0].shape
-            else:
-                new_shape = node['op'].inputs[0].shape
-                old_shape = node['op'].outputs[0].shape
-
-            if old_shape != new_shape:
-                if len(old_shape) != len(new_shape):
-                    new_shape_padded = list(new_shape) + [None] * (len(old_shape) - len(new_shape))
-                    next_perm = []
-                    new_idx = 0
-                    while new_idx < len(new_shape):
-                        for old, item in zip(old_shape, cur_perm):
-                            if old == new_shape_padded[new_idx] and item not in next_perm:
-                                next_perm.append(item)
-                                new_idx += 1
-                    cur_perm = np.argsort(next_perm)
-                else:
-                    mapping = {}
-                    for i in range(len(new_shape)):
-                        mapping.setdefault(new_shape[i], [])
-                        mapping[new_shape[i]].append(i)
-                    next_perm = [0] * len(old_shape)
-                    for i in range(len(old_shape)):
-                        next_perm[i] = mapping[old_shape[i]].pop(0)
-                    cur_perm = cur_perm[next_perm]
-
-    return cur_perm
-
-
 def fuse_connected_edges(
     filtered_pairs: typing.List[typing.Iterable[ig.Vertex]],
 ) -> typing.List[typing.Iterable[ig.Vertex]]:
-- 
2.43.0


From 86fc9806cc5f993b3883d84e47e8099fb12508d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:03 +0000
Subject: [PATCH 042/102] fix: tracing fails when a list of non-leaf tensors is
 passed as a keyword argument

---
 tinynn/graph/tracer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index 730c07b..7f488ba 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -658,7 +658,8 @@ class TraceFunction(object):
                     arg_str.append(f"{k}={v}")
 
         self.args_parsed = copy.deepcopy(arg_str)
-        self.kwargs = copy.deepcopy(kwargs)
+        # Don't use deepcopy here, since it is not supported by non-leaf tensors
+        self.kwargs = dict(kwargs)
         self.args_parsed_origin = copy.deepcopy(self.args_parsed)
         self.args_to_string(self.args_parsed)
 
-- 
2.43.0


From 99dcab04e48b8869ccb8665f9735ac3ec3eeeeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:03 +0000
Subject: [PATCH 043/102] fix: indexing with a list is traced as indexing with
 a tuple

---
 tinynn/graph/quantization/quantizer.py | 2 +-
 tinynn/graph/tracer.py                 | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index f9b0662..cbed43f 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -2407,7 +2407,7 @@ class QATQuantizer(object):
                     slices.append(slice(None, None, s))
 
             with override_current_trace_graph(graph):
-                new_func = TraceFunction('torch.Tensor.__getitem__', True).parse_args(t, slices)
+                new_func = TraceFunction('torch.Tensor.__getitem__', True).parse_args(t, tuple(slices))
 
                 graph.module_unique_name_dict[id(new_func)] = f'rewritten_pool_{idx}'
                 graph.module_original_name_dict[id(new_func)] = f'rewritten_pool_{idx}'
diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index 7f488ba..6a8648a 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -645,6 +645,10 @@ class TraceFunction(object):
         self.prev_tensors.clear()
         arg_str = _parse_args(args)
 
+        if self.func_type == '__getitem__' and len(args) > 1 and type(args[1]) is list:
+            # x[[0, 1]] is not x[0, 1]
+            arg_str[1] = [arg_str[1]]
+
         kw_items = kwargs.items()
         if kw_items:
             kw_keys, kw_vals = zip(*kw_items)
-- 
2.43.0


From 70409952c6fb5f1ef4facbd44a7981ed7b552c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:52 +0000
Subject: [PATCH 044/102] fix: generated code fails on arithmetic between an
 item of a shape and a float

---
 tinynn/graph/tracer.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index 6a8648a..9eff164 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -106,6 +106,19 @@ if __name__ == "__main__":
 # Special math operators
 SPECIAL_OPERATORS = ['add', 'and', 'div', 'floordiv', 'lshift', 'mul', 'or', 'pow', 'rshift', 'sub', 'xor', 'truediv']
 
+# Arithmetic operators that should be written in the infix form, because the first operand, e.g. an item of a shape,
+# may not be a tensor in the generated code, and `int.__pow__(2, -0.5)` returns `NotImplemented`
+INFIX_OPERATORS = {
+    '__add__': '+',
+    '__sub__': '-',
+    '__mul__': '*',
+    '__truediv__': '/',
+    '__floordiv__': '//',
+    '__mod__': '%',
+    '__pow__': '**',
+}
+REVERSED_INFIX_OPERATORS = {f'__r{name[2:]}': op for name, op in INFIX_OPERATORS.items()}
+
 
 # Global objects
 
@@ -503,6 +516,14 @@ class TraceFunction(object):
                     if not args.startswith('[') and not args.endswith(']'):
                         args = f'[{args}]'
                     expr = f'{{}}{args}'.format(*tensor_names)
+                elif self.func_type in INFIX_OPERATORS:
+                    op = INFIX_OPERATORS[self.func_type]
+                    expr = f'{{}} {op} {self.args_template_no_self}'.format(*tensor_names)
+                elif self.func_type in REVERSED_INFIX_OPERATORS:
+                    # The arguments are filled in the order of appearance
+                    op = REVERSED_INFIX_OPERATORS[self.func_type]
+                    other = self.args_template_no_self.format(*tensor_names[1:])
+                    expr = f'({other}) {op} {tensor_names[0]}'
                 else:
                     full_template = f'{{}}.{self.func_type}({self.args_template_no_self})'
                     expr = full_template.format(*tensor_names)
-- 
2.43.0


From 95083a91344f0a8be45867846990da5aebd87f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:11 +0000
Subject: [PATCH 045/102] fix: dead graph elimination removes in-place
 operations on tensors that are still in use

---
 tinynn/graph/tracer.py | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index 9eff164..9df9e29 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -285,6 +285,26 @@ class TraceNode(object):
         else:
             return f'{type(self.module).__module__}.{type(self.module).__name__}'
 
+    def is_in_place(self) -> bool:
+        """Judges whether it is an in-place operation on its first input or not"""
+        if type(self.module) is TraceFunction:
+            func_type = self.module.func_type
+            if func_type.startswith('__'):
+                in_place = func_type.startswith('__i') and func_type[3:-2] in SPECIAL_OPERATORS
+            else:
+                in_place = func_type.endswith('_') or self.module.kwargs.get('inplace', False) is True
+                if not in_place and self.module.full_name.startswith('torch.nn.functional.'):
+                    # The activation functions in Python, in which `inplace` may be passed in as a positional argument
+                    func = getattr(torch.nn.functional, func_type, None)
+                    if inspect.isfunction(func):
+                        parameters = list(inspect.signature(func).parameters)
+                        if 'inplace' in parameters:
+                            pos = parameters.index('inplace')
+                            in_place = self.module.args_parsed[pos : pos + 1] == ['True']
+        else:
+            in_place = getattr(self.module, 'inplace', False) is True
+        return in_place and len(self.prev_tensors) > 0 and isinstance(self.prev_tensors[0], torch.Tensor)
+
     def __hash__(self) -> str:
         """Uses the unique name as the hash for the node"""
         return self.unique_name
@@ -2087,6 +2107,23 @@ class TraceGraph(object):
         for i in self.output_nodes:
             self.__active_detection(i)
 
+        # In-place operations on the tensors that are still in use are not dead, even if their outputs are not used
+        def base_tensor(t):
+            return t if t._base is None else t._base
+
+        in_place_nodes = [n for n in self.forward_nodes if n.is_in_place()]
+        changed = len(in_place_nodes) > 0
+        while changed:
+            changed = False
+            active_bases = set()
+            for n in self.input_nodes + self.forward_nodes + self.constant_nodes:
+                if n.active:
+                    active_bases.update(id(base_tensor(t)) for t in n.next_tensors if isinstance(t, torch.Tensor))
+            for n in in_place_nodes:
+                if not n.active and id(base_tensor(n.prev_tensors[0])) in active_bases:
+                    self.__active_detection(n)
+                    changed = True
+
         active_input_nodes = [i for i in self.input_nodes if i.active]
         active_forward_nodes = [i for i in self.forward_nodes if i.active]
 
-- 
2.43.0


From afa809fe684a3905e08f4b09500cb521386ddaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 046/102] fix: in-place activation functions in
 torch.nn.functional are not traced

---
 tinynn/graph/configs/torch_func_override_2_0.yml | 8 ++++++++
 tinynn/graph/configs/torch_func_override_2_4.yml | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/tinynn/graph/configs/torch_func_override_2_0.yml b/tinynn/graph/configs/torch_func_override_2_0.yml
index 5975b1f..53fc626 100644
--- a/tinynn/graph/configs/torch_func_override_2_0.yml
+++ b/tinynn/graph/configs/torch_func_override_2_0.yml
@@ -1300,6 +1300,7 @@ torch.nn.functional:
 - binary_cross_entropy
 - binary_cross_entropy_with_logits
 - celu
+- celu_
 - channel_shuffle
 - conv1d
 - conv2d
@@ -1317,6 +1318,7 @@ torch.nn.functional:
 - dropout2d
 - dropout3d
 - elu
+- elu_
 - embedding
 - embedding_bag
 - feature_alpha_dropout
@@ -1335,6 +1337,7 @@ torch.nn.functional:
 - hardsigmoid
 - hardswish
 - hardtanh
+- hardtanh_
 - hinge_embedding_loss
 - huber_loss
 - instance_norm
@@ -1343,6 +1346,7 @@ torch.nn.functional:
 - l1_loss
 - layer_norm
 - leaky_relu
+- leaky_relu_
 - linear
 - local_response_norm
 - log_sigmoid
@@ -1379,9 +1383,12 @@ torch.nn.functional:
 - prelu
 - relu
 - relu6
+- relu_
 - rrelu
+- rrelu_
 - scaled_dot_product_attention
 - selu
+- selu_
 - sigmoid
 - silu
 - smooth_l1_loss
@@ -1394,6 +1401,7 @@ torch.nn.functional:
 - tanh
 - tanhshrink
 - threshold
+- threshold_
 - triplet_margin_loss
 - triplet_margin_with_distance_loss
 - unfold
diff --git a/tinynn/graph/configs/torch_func_override_2_4.yml b/tinynn/graph/configs/torch_func_override_2_4.yml
index b4436e7..82338b8 100644
--- a/tinynn/graph/configs/torch_func_override_2_4.yml
+++ b/tinynn/graph/configs/torch_func_override_2_4.yml
@@ -1331,6 +1331,7 @@ torch.nn.functional:
 - binary_cross_entropy
 - binary_cross_entropy_with_logits
 - celu
+- celu_
 - channel_shuffle
 - conv1d
 - conv2d
@@ -1348,6 +1349,7 @@ torch.nn.functional:
 - dropout2d
 - dropout3d
 - elu
+- elu_
 - embedding
 - embedding_bag
 - feature_alpha_dropout
@@ -1366,6 +1368,7 @@ torch.nn.functional:
 - hardsigmoid
 - hardswish
 - hardtanh
+- hardtanh_
 - hinge_embedding_loss
 - huber_loss
 - instance_norm
@@ -1374,6 +1377,7 @@ torch.nn.functional:
 - l1_loss
 - layer_norm
 - leaky_relu
+- leaky_relu_
 - linear
 - local_response_norm
 - log_sigmoid
@@ -1411,10 +1415,13 @@ torch.nn.functional:
 - prelu
 - relu
 - relu6
+- relu_
 - rms_norm
 - rrelu
+- rrelu_
 - scaled_dot_product_attention
 - selu
+- selu_
 - sigmoid
 - silu
 - smooth_l1_loss
@@ -1427,6 +1434,7 @@ torch.nn.functional:
 - tanh
 - tanhshrink
 - threshold
+- threshold_
 - triplet_margin_loss
 - triplet_margin_with_distance_loss
 - unfold
-- 
2.43.0


From 06aad997df6049e208e06752fcafe4e60603b1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:33 +0000
Subject: [PATCH 047/102] fix: RNN and other derived modules keep the patched
 __setattr__ after tracing

---
 tinynn/graph/tracer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index 9df9e29..059a409 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -1357,10 +1357,14 @@ def patch_modules(objects, names, gens):
         names = (names,)
         gens = (gens,)
     pre_patched_values = {}
+    # Read all the original values before patching, because they may be inherited from another module to be patched
     for obj in objects:
-        for name, gen in zip(names, gens):
+        for name in names:
             key = qualified_name(obj, name, short=True)
             pre_patched_values[key] = getattr(obj, name)
+    for obj in objects:
+        for name, gen in zip(names, gens):
+            key = qualified_name(obj, name, short=True)
             generated_wrapper_modules.setdefault(key, gen(pre_patched_values[key], key))
             if key == 'torch.Size.__new__':
                 pre_patched_values[key] = patch_new(obj, generated_wrapper_modules[key])
-- 
2.43.0


From 7ca9490758b3cc1a77068a23b653b1c67bb0ee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 048/102] fix: pruning fails on PReLU with a single parameter

---
 tinynn/graph/modifier.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index 91c8a82..642067e 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -1141,12 +1141,19 @@ class PReLUChannelModifier(Modifier):
             self.masker().set_in_remove_idx(remove_idx)
             self.masker().set_ot_remove_idx(remove_idx)
 
+            # A single parameter is shared by all the channels
+            if self.module().num_parameters == 1:
+                return
+
             self.weight_mask["weight"][remove_idx] = 0
 
             self.masker().register_mask("weight", self.weight_mask["weight"])
 
     def modify_input(self, remove_idx):
         bn = self.node.module
+        if bn.num_parameters == 1:
+            return
+
         preserve_idx = complementary_list([i for i in range(self.weight_mask["weight"].shape[0])], remove_idx)
 
         if bn.weight.shape[0] != len(preserve_idx):
-- 
2.43.0


From b401c08f7d33717dbd79779553909aa4c5142382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 049/102] fix: pruning fails on depthwise convolutions that are
 not affected by any prunable operation

---
 tinynn/graph/modifier.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index 642067e..2ce4fa3 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -3380,10 +3380,9 @@ class GraphChannelModifier(object):
 
     def unregister_masker(self):
         mask_applied = False
-        for sub_graph in self.sub_graphs.values():
-            for m in sub_graph.modifiers:
-                m.reset_mask()
-                mask_applied = m.mask_applied or mask_applied
+        for m in self.modifiers.values():
+            m.reset_mask()
+            mask_applied = m.mask_applied or mask_applied
 
         for n in self.graph.forward_nodes:
             if hasattr(n.module, "masker"):
-- 
2.43.0


From 5438da92ef9b9b19000204debb1c943138a1d2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 050/102] fix: pruning fails on normalization and PReLU layers
 that are not affected by any prunable operation

---
 tinynn/graph/modifier.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index 2ce4fa3..5a1715d 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -792,7 +792,11 @@ class Modifier(object):
         """Obtain the input tensor pruning information from the pruning information of other operators"""
 
         pruned_idx = set()
-        input_modify_dim = self.dim_changes_info.get_tensor_choices(self.pre_tensors()[0])[0]
+        input_choices = self.dim_changes_info.get_tensor_choices(self.pre_tensors()[0])
+        if not input_choices:
+            return [], 0.0
+
+        input_modify_dim = input_choices[0]
 
         for center_name, _ in self.dim_changes_info.centers.items():
             center = modifiers[center_name]
-- 
2.43.0


From f370d4946f0f148b77a439173109ec119ccff108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 051/102] fix: pruning rewrites the arguments of split
 operations that are not pruned

---
 tinynn/graph/modifier.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index 5a1715d..4dcc79c 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -1322,6 +1322,9 @@ class SplitModifier(ReIndexModifier):
     def apply_mask(self, modifiers):
         # Input parameters also need to be regenerated after pruning
         remove_idx = self.dim_changes_info.pruned_idx_i
+        if len(remove_idx) == 0:
+            return
+
         args_parsed = self.node.module.args_parsed_origin
 
         if len(args_parsed) > 1:
-- 
2.43.0


From 97687a539d78633873f801da0df2af38f9c66c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 052/102] fix: pruning fails or removes wrong channels behind a
 spatial sum

---
 tinynn/graph/modifier.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index 4dcc79c..8e1eef9 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -1288,6 +1288,17 @@ class ReIndexModifier(Modifier):
                     m.dim_change_forward(center, tensor_o, dim_change_o, dim_transform, None)
 
 
+class SumModifier(ReIndexModifier):
+    def calc_dim_changes(self) -> typing.List[typing.Tuple[typing.List, torch.Tensor]]:
+        changes = super().calc_dim_changes()
+
+        # Undo the scaling of the summation, so that the tensors still hold the indices of the channels
+        for _, tensor_o in changes:
+            tensor_o.data.div_(self.pre_tensors()[0].numel() // tensor_o.numel())
+
+        return changes
+
+
 class SplitModifier(ReIndexModifier):
     def __init__(self, node: TraceNode):
         super(SplitModifier, self).__init__(node)
@@ -2559,7 +2570,7 @@ CHANNEL_MODIFIERS = {
     'split': SplitModifier,
     'chunk': ReIndexModifier,
     'mean': ReIndexModifier,
-    'sum': ReIndexModifier,
+    'sum': SumModifier,
     'getitem': ReIndexModifier,
     nn.PixelShuffle: ReIndexModifier,
     nn.RNN: RNNChannelModifier,
-- 
2.43.0


From 79daf81699e3772b6f62ce214a4b418609da64ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 053/102] fix: pruning removes all the channels of small layers

---
 tinynn/graph/modifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index 8e1eef9..0b88b5e 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -2878,7 +2878,8 @@ class SubGraph(object):
 
                     pruned_leaf_idx = set()
                     while current_sparsity < sparsity[center.unique_name()]:
-                        if len(valid_importance) == 0:
+                        # At least one channel has to be kept
+                        if len(valid_importance) <= 1:
                             break
                         unimportance_idx = valid_importance.pop(0)
                         constraint = unimportance_idx[0]
-- 
2.43.0


From c98844a2d5f8b0b1b80d873d035deff7912cc3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 054/102] fix: pruning removes different numbers of channels
 from the groups of a grouped convolution

---
 tinynn/graph/modifier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index 0b88b5e..e610fb0 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -2860,6 +2860,9 @@ class SubGraph(object):
 
                     leaf_importance.append((constraint, importance_))
 
+                # All the groups of a leaf must be pruned equally, so the delta is only carried over to other centers
+                leaf_delta_idx_prev = leaf_delta_idx.get(leaf.unique_name(), 0)
+
                 for group in self.leaf_group[leaf.unique_name()]:
                     valid_importance = []
                     for i in leaf_importance:
@@ -2898,7 +2901,7 @@ class SubGraph(object):
                                 break
 
                         current_sparsity = (
-                            len(pruned_leaf_idx) + len(constraint) + leaf_delta_idx.get(leaf.unique_name(), 0)
+                            len(pruned_leaf_idx) + len(constraint) + leaf_delta_idx_prev
                         ) / total_idx
 
                         pruned_leaf_idx.update(constraint)
-- 
2.43.0


From 5e8df0e8514d98f0c9ff7eb7f373aead46e5f5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 055/102] fix: pruning breaks models that combine pruned
 tensors with tensors that cannot be pruned, e.g. the network inputs

---
 tinynn/graph/modifier.py       | 31 +++++++++++++++++++++++++++++++
 tinynn/prune/oneshot_pruner.py |  5 +++++
 2 files changed, 36 insertions(+)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index e610fb0..24ed31a 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -815,6 +815,31 @@ class Modifier(object):
 
         return pruned_idx, sparsity
 
+    def aligned_dims(self) -> typing.List[int]:
+        """The dimensions (counted from the end) in which all the inputs must have the same size after pruning"""
+
+        # Only elementwise operators use this class directly
+        if type(self) is not Modifier or len(self.next_tensors()) != 1:
+            return []
+
+        output_tensor = self.next_tensors()[0]
+        choices = self.dim_changes_info.get_tensor_choices(output_tensor) or []
+        return [i - len(output_tensor.shape) for i in choices]
+
+    def has_unprunable_operand(self) -> bool:
+        """Whether a pruned tensor is combined with a tensor that cannot be pruned, e.g. a network input"""
+
+        for dim in self.aligned_dims():
+            for t in self.pre_tensors(non_constant=True):
+                if len(t.shape) < -dim or t.shape[dim] == 1:
+                    continue
+
+                choices = self.dim_changes_info.tensor_choices.get(id(t), None) or []
+                if id(t) not in self.dim_changes_info.tensor_changes or dim + len(t.shape) not in choices:
+                    return True
+
+        return False
+
     def calc_idx_group(self):
         return None
 
@@ -1481,6 +1506,12 @@ class ReshapeModifier(ReIndexModifier):
 
 
 class CatModifier(Modifier):
+    def aligned_dims(self) -> typing.List[int]:
+        output_tensor = self.next_tensors()[0]
+        rank = len(output_tensor.shape)
+        choices = self.dim_changes_info.get_tensor_choices(output_tensor) or []
+        return [i - rank for i in choices if i != self.dim % rank]
+
     def __init__(self, node: TraceNode):
         super(CatModifier, self).__init__(node)
 
diff --git a/tinynn/prune/oneshot_pruner.py b/tinynn/prune/oneshot_pruner.py
index ecea2f2..f7155ad 100644
--- a/tinynn/prune/oneshot_pruner.py
+++ b/tinynn/prune/oneshot_pruner.py
@@ -84,6 +84,11 @@ class OneShotChannelPruner(BasePruner):
                     exclude = True
                     break
 
+                # The channels of e.g. network inputs cannot be pruned, so does everything that is aligned with them
+                if m.has_unprunable_operand():
+                    exclude = True
+                    break
+
             if exclude:
                 sub_graph.skip = True
 
-- 
2.43.0


From 93ea3d55afead2f5841982c662cca65f0a0f7f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 056/102] fix: pruning breaks depthwise transposed convolutions

---
 tinynn/graph/modifier.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index 24ed31a..7eabbaa 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -2493,6 +2493,10 @@ class ConvChannelModifier(Modifier):
 
 class TransConvChannelModifier(ConvChannelModifier):
     def register_mask(self, modifiers, importance, sparsity):
+        if is_dw_conv(self.module()):
+            super().register_mask(modifiers, importance, sparsity)
+            return
+
         if self.dim_changes_info.pruned_idx_i:
             remove_idx = self.dim_changes_info.pruned_idx_i
             self.weight_mask["weight"][
@@ -2517,6 +2521,10 @@ class TransConvChannelModifier(ConvChannelModifier):
         self.masker().register_mask("weight", self.weight_mask["weight"])
 
     def modify_input(self, remove_idx):
+        if is_dw_conv(self.module()):
+            super().modify_input(remove_idx)
+            return
+
         conv = self.node.module
         preserve_idx = complementary_list([i for i in range(self.weight_mask["weight"].shape[0])], remove_idx)
 
@@ -2526,6 +2534,10 @@ class TransConvChannelModifier(ConvChannelModifier):
             conv.in_channels = len(preserve_idx)
 
     def modify_output(self, remove_idx):
+        if is_dw_conv(self.module()):
+            super().modify_output(remove_idx)
+            return
+
         conv = self.node.module
         preserve_idx = complementary_list([i for i in range(self.weight_mask["weight"].shape[1])], remove_idx)
 
-- 
2.43.0


From 3b700f44c34ba97ec43e688d6d469e2e1c8a8d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 057/102] fix: pruning rewrites the constant shape of reshape
 with the wrong size

---
 tinynn/graph/modifier.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index 7eabbaa..890c6ba 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -1478,7 +1478,7 @@ class ReshapeModifier(ReIndexModifier):
                 pruned_idx, sparsity = self.get_pruned_idx(modifiers)
 
                 output_shape = deepcopy(self.changed_shape)
-                output_shape[output_modify_dim] = int(output_shape[output_modify_dim] * sparsity)
+                output_shape[output_modify_dim] -= int(round(output_shape[output_modify_dim] * sparsity))
                 self.args_parsed()[1] = [str(i) for i in output_shape]
                 self.node.module.args_to_string(deepcopy(self.args_parsed()))
 
@@ -1493,9 +1493,7 @@ class ReshapeModifier(ReIndexModifier):
                 pruned_idx, sparsity = self.get_pruned_idx(modifiers)
 
                 output_shape = deepcopy(self.changed_shape)
-                output_shape[output_modify_dim] = output_shape[output_modify_dim] - int(
-                    output_shape[output_modify_dim] * sparsity
-                )
+                output_shape[output_modify_dim] -= int(round(output_shape[output_modify_dim] * sparsity))
                 if self.args_parsed()[1][output_modify_dim].isdigit():
                     self.args_parsed()[1][output_modify_dim] = str(output_shape[output_modify_dim])
                 self.node.module.args_to_string(deepcopy(self.args_parsed()))
-- 
2.43.0


From 1470044c9b41c5c128027330f0847cc0d9c2082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 058/102] fix: pruning fails for the functional form of average
 pooling

---
 tinynn/graph/modifier.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index 890c6ba..c76ffeb 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -2587,6 +2587,7 @@ CHANNEL_MODIFIERS = {
     nn.AdaptiveAvgPool2d: PoolingModifier,
     nn.MaxPool2d: PoolingModifier,
     'adaptive_avg_pool2d': PoolingModifier,
+    'avg_pool2d': PoolingModifier,
     'max_pool2d': PoolingModifier,
     'pad': PaddingModifier,
     nn.Upsample: PoolingModifier,
-- 
2.43.0


From ba08783150d316771177e1d18d05e109b3c1751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 059/102] fix: pruning masks the wrong dimension of linear
 layers that are pruned along a non-feature dimension

---
 tinynn/graph/modifier.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index c76ffeb..c9a021c 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -1710,12 +1710,18 @@ class LinearChannelModifier(Modifier):
         return True
 
     def register_mask(self, modifiers, importance, sparsity):
-        if self.dim_changes_info.pruned_idx_i:
+        if (
+            self.dim_changes_info.pruned_idx_i
+            and self.dim_changes_info.get_tensor_choices(self.input_tensor) == [self.dim_c]
+        ):
             remove_idx = self.dim_changes_info.pruned_idx_i
             self.weight_mask["weight"][:, remove_idx] = 0
             self.masker().set_in_remove_idx(remove_idx)
 
-        if self.dim_changes_info.pruned_idx_o:
+        if (
+            self.dim_changes_info.pruned_idx_o
+            and self.dim_changes_info.get_tensor_choices(self.output_tensor) == [self.dim_c]
+        ):
             remove_idx = self.dim_changes_info.pruned_idx_o
             self.weight_mask["weight"][remove_idx, :] = 0
             self.masker().set_ot_remove_idx(remove_idx)
-- 
2.43.0


From cf718188005296b4f41297e1476af4a2d41cb1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 060/102] fix: the random pruning metric only considers some of
 the hidden units of recurrent layers

---
 tinynn/graph/modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index c9a021c..52e3b05 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -100,7 +100,7 @@ def random(tensor, module):
         return torch.randperm(tensor.shape[1])
     if type(module) in [nn.GRU, nn.LSTM, nn.RNN]:
         assert isinstance(tensor, (tuple, list))
-        return torch.randperm(tensor[0].shape[1])
+        return torch.randperm(tensor[0].shape[0])
 
 
 def l1_norm(tensor, module):
-- 
2.43.0


From 8d807d548cd8410f6f2581a65fb9c018ecdd566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 061/102] fix: pruning of matmul fails with a KeyError while
 choosing the dimension

---
 tinynn/graph/modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index 52e3b05..e7563b8 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -1608,7 +1608,7 @@ class MatMulModifier(Modifier):
                         break
                     else:
                         del tensor_changes[id(input_tensor)]
-                        del tensor_changes[id(output_tensor)]
+                        tensor_changes.pop(id(output_tensor), None)
 
                 if not valid:
                     return False
-- 
2.43.0


From da573ddafa00a0e83523e08d15f1fc16ef3e72bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 062/102] fix: pruning computes wrong sizes for split with a
 list of sizes

---
 tinynn/graph/modifier.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index e7563b8..b24eff8 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -1331,16 +1331,15 @@ class SplitModifier(ReIndexModifier):
         # TODO：Get pruning information from center node
         self.prunable = True
 
-        self.split_dict = OrderedDict()
         self.split_dim = self.get_split_dim(self.node)
 
-        start = end = 0
+        # The range of channels for each of the outputs
+        self.split_ranges = []
+
+        start = 0
         for t in self.node.next_tensors:
-            end += t.shape[self.split_dim]
-            for n in self.node.next_nodes:
-                for t_ in n.prev_tensors:
-                    if torch.equal(t, t_):
-                        self.split_dict[n.unique_name] = (start, end)
+            end = start + t.shape[self.split_dim]
+            self.split_ranges.append((start, end))
             start = end
 
         self.ot_channel = [t.shape[self.split_dim] for t in self.node.next_tensors]
@@ -1368,8 +1367,8 @@ class SplitModifier(ReIndexModifier):
                 ch = [int(i) for i in args_parsed[1]]
                 ch_new = []
 
-                for k, v in self.split_dict.items():
-                    origin_ch = [i for i in range(v[0], v[1])]
+                for start, end in self.split_ranges:
+                    origin_ch = [i for i in range(start, end)]
 
                     for idx in remove_idx:
                         if idx in origin_ch:
-- 
2.43.0


From 252b001c682e3a0cf5416839056ec53026e481e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 063/102] fix: pruning permutes the surviving weights

---
 tinynn/graph/modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index b24eff8..1174dd3 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -12,7 +12,7 @@ log = get_logger(__name__)
 
 
 def complementary_list(a, b):
-    return list(set(a).difference(set(b)))
+    return sorted(set(a).difference(set(b)))
 
 
 def get_smallest_k(lst, k, offset=0):
-- 
2.43.0


From 33eee9d189ef7b0874710a7739d34162ec0b630c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 064/102] fix: layers joined to several pruning groups are
 pruned inconsistently

---
 tinynn/graph/modifier.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index 1174dd3..1309c31 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -2643,10 +2643,12 @@ class SubGraph(object):
     modifiers: typing.List[Modifier]
     leaf: typing.List[Modifier]
 
-    def __init__(self, center: Modifier, modifiers=None):
+    def __init__(self, center: Modifier, modifiers=None, center_names=None):
         self.center = center
         self.modifiers = modifiers if modifiers is not None else []
         self.modifiers_dict = {m.unique_name(): m for m in self.modifiers}
+        # The centers whose outputs are pruned in this subgraph
+        self.center_names = set(center_names) if center_names is not None else {center}
         self.leaf = list()
         self.dependent_centers = set()
         self.center_constraint = OrderedDict()
@@ -3007,7 +3009,7 @@ class SubGraph(object):
             leaf_constraint[leaf.unique_name()] = list(leaf.dim_changes_info.constraints_i.values())[0]
 
             for center_name, constraints in leaf_constraint[leaf.unique_name()].items():
-                if center_name not in self.modifiers_dict.keys():
+                if center_name not in self.center_names:
                     continue
 
                 leaf_constraint_len[leaf.unique_name()] = len(constraints[0])
@@ -3037,7 +3039,7 @@ class SubGraph(object):
             # center_constraint loses the constraint mapping information between center
             # and leaf, so use the original leaf_constraint
             for center_name, constraints in leaf_constraint[leaf.unique_name()].items():
-                if center_name not in self.modifiers_dict:
+                if center_name not in self.center_names:
                     continue
 
                 if center_name not in center_to_leaf:
@@ -3082,7 +3084,7 @@ class SubGraph(object):
             # can get dependencies between each other
             leaf_center_constraints = {}
             for center_name in leaf_to_center.keys():
-                if center_name not in self.modifiers_dict:
+                if center_name not in self.center_names:
                     continue
                 leaf_center_constraints[center_name] = []
                 for leaf_idx_constraint in leaf_constraint_all:
@@ -3399,8 +3401,15 @@ class SubGraphDivider(object):
                         del sub_graphs[redirect_center]
                         center_mapping[redirect_center] = main_center
 
+        center_names = {center_name: [center_name] for center_name in sub_graphs}
+        for redundant_center in center_mapping:
+            main_center = redundant_center
+            while main_center in center_mapping:
+                main_center = center_mapping[main_center]
+            center_names[main_center].append(redundant_center)
+
         for center_name, modifiers in sub_graphs.items():
-            self.sub_graphs[center_name] = SubGraph(center_name, modifiers).build()
+            self.sub_graphs[center_name] = SubGraph(center_name, modifiers, center_names[center_name]).build()
 
     def divide(self) -> typing.Dict[str, SubGraph]:
         log.info("Start tracking tensor dimension changes...")
-- 
2.43.0


From 8b2bc88a2d19ee80ad3eeed0cb567f0b27cb9dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 065/102] fix: coupled layers are pruned inconsistently when
 several of them are concatenated

---
 tinynn/graph/modifier.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index 1309c31..0e19bab 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -2813,7 +2813,15 @@ class SubGraph(object):
         pruned_center_constraint_all = {}
         calculated_center_constraint_all = {}
 
-        for center in center_list:
+        remaining_centers = list(center_list)
+        while len(remaining_centers) > 0:
+            # The centers that depend on the calculated ones come first, so that the results can be propagated by them
+            center = next(
+                (c for c in remaining_centers if calculated_center_constraint_all.get(c.unique_name(), set()) - {-1}),
+                remaining_centers[0],
+            )
+            remaining_centers.remove(center)
+
             calculated_constraint = calculated_center_constraint_all.get(center.unique_name(), set())
             constraint_need_prune = []
 
-- 
2.43.0


From 445fc2c7fcd482b2d0a63adaf29ec5e27a61c81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 066/102] fix: pruning removes parameters of LayerNorm when a
 dimension it does not normalize is pruned

---
 tinynn/graph/modifier.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index 0e19bab..98e12a9 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -1199,6 +1199,12 @@ class NormChannelModifier(Modifier):
     def register_mask(self, modifiers, importance, sparsity):
         pruned_idx, sparsity = self.get_pruned_idx(modifiers)
 
+        if isinstance(self.module(), nn.LayerNorm):
+            # LayerNorm has parameters for the last dimension only
+            input_tensor = self.pre_tensors()[0]
+            if self.dim_changes_info.get_tensor_choices(input_tensor) != [len(input_tensor.shape) - 1]:
+                pruned_idx = []
+
         self.dim_changes_info.pruned_idx_i = pruned_idx
         self.dim_changes_info.pruned_idx_o = pruned_idx
         if len(pruned_idx) > 0:
-- 
2.43.0


From 1193bc85588aa846b67edf3f131e2c23b9815f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:45 +0000
Subject: [PATCH 067/102] fix: PyTorch stays patched and hooks are left behind
 when tracing or building a model fails

---
 tinynn/graph/tracer.py | 148 ++++++++++++++++++++++++-----------------
 1 file changed, 87 insertions(+), 61 deletions(-)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index 059a409..110040d 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -782,8 +782,10 @@ def no_catch():
         yield False
     else:
         lock(True)
-        yield True
-        lock(False)
+        try:
+            yield True
+        finally:
+            lock(False)
 
 
 @contextlib.contextmanager
@@ -793,8 +795,10 @@ def no_catch_handle_func():
         yield False
     else:
         handle_func_lock(True)
-        yield True
-        handle_func_lock(False)
+        try:
+            yield True
+        finally:
+            handle_func_lock(False)
 
 
 def args_as_string(args, kwargs):
@@ -1346,8 +1350,10 @@ def patch(object, name, gen, *args, **kwargs):
 
     pre_patched_value = getattr(object, name)
     setattr(object, name, gen(pre_patched_value, *args, **kwargs))
-    yield object
-    setattr(object, name, pre_patched_value)
+    try:
+        yield object
+    finally:
+        setattr(object, name, pre_patched_value)
 
 
 @contextlib.contextmanager
@@ -1371,15 +1377,17 @@ def patch_modules(objects, names, gens):
             else:
                 setattr(obj, name, generated_wrapper_modules[key])
 
-    yield objects
-    for obj in objects:
-        for name in names:
-            key = qualified_name(obj, name, short=True)
-            pre_patched_value = pre_patched_values[key]
-            if key == 'torch.Size.__new__':
-                revert_new(obj, pre_patched_value)
-            else:
-                setattr(obj, name, pre_patched_value)
+    try:
+        yield objects
+    finally:
+        for obj in objects:
+            for name in names:
+                key = qualified_name(obj, name, short=True)
+                pre_patched_value = pre_patched_values[key]
+                if key == 'torch.Size.__new__':
+                    revert_new(obj, pre_patched_value)
+                else:
+                    setattr(obj, name, pre_patched_value)
 
 
 @contextlib.contextmanager
@@ -1410,16 +1418,18 @@ def patch_funcs(object_dicts, gens):
                             key, gen(pre_patched_value_dict[key], key, hasattr(obj, '__module__'))
                         )
                         setattr(obj, name, generated_wrapper_funcs[key])
-    yield object_dict
-    for object_dict, gen in zip(object_dicts, gens):
-        for obj, names in object_dict.items():
-            for name in names:
-                key = qualified_name(obj, name)
-                if key == 'torch.Tensor.__getitem__':
+    try:
+        yield object_dict
+    finally:
+        for object_dict, gen in zip(object_dicts, gens):
+            for obj, names in object_dict.items():
+                for name in names:
                     key = qualified_name(obj, name)
-                    revert_getitem(obj, pre_patched_value_dict[key])
-                else:
-                    setattr(obj, name, pre_patched_value_dict[key])
+                    if key == 'torch.Tensor.__getitem__':
+                        key = qualified_name(obj, name)
+                        revert_getitem(obj, pre_patched_value_dict[key])
+                    else:
+                        setattr(obj, name, pre_patched_value_dict[key])
 
 
 def get_constructor_args(actual_class_type):
@@ -1794,22 +1804,28 @@ def hook_modules(module):
     hooks.append(module.register_forward_pre_hook(_model_pre_tracer))
     hooks.append(module.register_forward_hook(_model_tracer))
 
-    yield module
-
-    for hook in hooks:
-        hook.remove()
+    try:
+        yield module
+    finally:
+        for hook in hooks:
+            hook.remove()
+        # The post hooks are not executed when the forward process fails
+        lock(False)
+        skip_modules.clear()
 
 
 @contextlib.contextmanager
 def tracer_context():
     """Basic context manager for tracing"""
-    yield True
-    lock(False)
-    module_constructor_traced.clear()
-    module_constructor_lines.clear()
-    module_constructor_weakrefs.clear()
-    original_values_for_tracked_objects.clear()
-    skip_modules.clear()
+    try:
+        yield True
+    finally:
+        lock(False)
+        module_constructor_traced.clear()
+        module_constructor_lines.clear()
+        module_constructor_weakrefs.clear()
+        original_values_for_tracked_objects.clear()
+        skip_modules.clear()
 
 
 @contextlib.contextmanager
@@ -1823,8 +1839,10 @@ def model_constructor_tracer():
 def ignore_mod_param_update_warning():
     if not mod_param_update_warning_ignore():
         mod_param_update_warning_ignore(True)
-        yield True
-        mod_param_update_warning_ignore(False)
+        try:
+            yield True
+        finally:
+            mod_param_update_warning_ignore(False)
     else:
         yield False
 
@@ -1852,8 +1870,10 @@ def override_current_trace_graph(new_graph: 'TraceGraph') -> 'TraceGraph':
     """Simple context manager for creating a new TraceGraph"""
     old_graph = current_graph.get_value()
     current_graph(new_graph)
-    yield current_graph.get_value()
-    current_graph(old_graph)
+    try:
+        yield current_graph.get_value()
+    finally:
+        current_graph(old_graph)
 
 
 @contextlib.contextmanager
@@ -2092,11 +2112,12 @@ class TraceGraph(object):
 
             original_state_dict = copy.deepcopy(self.module.state_dict())
 
-            with patch_helper(wrap_tracking_modules=self.patch_torch_size):
-                with hook_modules(self.module):
-                    self.module(*actual_input)
-
-            self.module.load_state_dict(original_state_dict)
+            try:
+                with patch_helper(wrap_tracking_modules=self.patch_torch_size):
+                    with hook_modules(self.module):
+                        self.module(*actual_input)
+            finally:
+                self.module.load_state_dict(original_state_dict)
 
             if self.eliminate_dead_graph:
                 self.eliminate_dead_graph_pass()
@@ -2313,10 +2334,11 @@ class TraceGraph(object):
     @contextlib.contextmanager
     def __numbering_context(self):
         """A simple context manager for numbering nodes"""
-        yield True
-
-        self.global_functions.clear()
-        self.global_nodes.clear()
+        try:
+            yield True
+        finally:
+            self.global_functions.clear()
+            self.global_nodes.clear()
 
     def __gen_init_code(self) -> str:
         """Generates the code for the init function for a `nn.Module`"""
@@ -3374,19 +3396,21 @@ def patch_helper(
     if wrap_tracking_modules:
         tracking_module_manager = patch_modules(tracking_modules, '__new__', new_init_tracking_gen)
         tracking_module_manager.__enter__()
-    yield True
-    if wrap_modules:
-        module_manager.__exit__(None, None, None)
-        modules_overrided(False)
-    if wrap_funcs:
-        func_manager.__exit__(None, None, None)
-        funcs_overrided(False)
-    if wrap_creation_funcs:
-        creation_func_manager.__exit__(None, None, None)
-        creation_funcs_overrided(False)
-    if wrap_tracking_modules:
-        tracking_module_manager.__exit__(None, None, None)
-        tracking_modules_overrided(False)
+    try:
+        yield True
+    finally:
+        if wrap_modules:
+            module_manager.__exit__(None, None, None)
+            modules_overrided(False)
+        if wrap_funcs:
+            func_manager.__exit__(None, None, None)
+            funcs_overrided(False)
+        if wrap_creation_funcs:
+            creation_func_manager.__exit__(None, None, None)
+            creation_funcs_overrided(False)
+        if wrap_tracking_modules:
+            tracking_module_manager.__exit__(None, None, None)
+            tracking_modules_overrided(False)
 
 
 def check_types(values: typing.Iterable) -> bool:
@@ -3460,3 +3484,5 @@ def trace(
             log.error(f'outputs: {[n.unique_name for n in current_graph().output_nodes]}')
             log.error(f'constants: {[n.unique_name for n in current_graph().constant_nodes]}')
         quit()
+    finally:
+        current_graph(None)
-- 
2.43.0


From 6f4343b8266760ba072ce51205dd843eb4897fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:33 +0000
Subject: [PATCH 068/102] fix: modules, parameters or intermediate values with
 similar names are mixed up in the traced graph

---
 tinynn/graph/tracer.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index 110040d..b0c139e 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -251,11 +251,21 @@ class TraceNode(object):
         self.quantized = False
 
         # Numbering of the name of the node
-        if cur_graph.global_nodes.get(self.unique_name) is not None:
-            cur_graph.global_nodes[self.unique_name] += 1
-            self.unique_name = "_".join([self.unique_name, str(cur_graph.global_nodes[self.unique_name])])
-        else:
+        # The names of the modules are reserved, and the numbered names should not be taken by the others
+        base_name = self.unique_name
+        reserved_names = cur_graph.module_unique_name_dict.values()
+        if base_name in cur_graph.global_nodes or (
+            not isinstance(module, nn.Module) and base_name in reserved_names
+        ):
+            idx = cur_graph.global_nodes.get(base_name, 0) + 1
+            while f'{base_name}_{idx}' in cur_graph.global_nodes or f'{base_name}_{idx}' in reserved_names:
+                idx += 1
+            if base_name in cur_graph.global_nodes:
+                cur_graph.global_nodes[base_name] = idx
+            self.unique_name = f'{base_name}_{idx}'
             cur_graph.global_nodes[self.unique_name] = 0
+        else:
+            cur_graph.global_nodes[base_name] = 0
 
     def type(self):
         """Returns the original name of the function or the type of the module"""
@@ -1999,18 +2009,25 @@ class TraceGraph(object):
 
     def __tag_nodes(self) -> None:
         """Gives the modules and the submodules a unique name"""
+        # Tag the module itself
+        self.module_unique_name_dict[id(self.module)] = type(self.module).__name__
+
         # Tag submodules
         for n, m in self.module.named_modules():
+            if m is self.module:
+                continue
             n = n.replace(".", "_")
             n = n.replace("-", "_")
             n = n.replace("/", "_")
             n = n.replace(";", "_")
             n = 'module_' + n if n.isnumeric() else n
+            # Different paths may be mapped to the same name, e.g. `conv.1` and `conv_1`
+            base_name, idx = n, 0
+            while n in self.module_unique_name_dict.values():
+                idx += 1
+                n = f'{base_name}_{idx}'
             self.module_unique_name_dict[id(m)] = n
 
-        # Tag the module itself
-        self.module_unique_name_dict[id(self.module)] = type(self.module).__name__
-
         for n, p in self.module.named_parameters():
             n = n.replace(".", "_")
             n = n.replace("-", "_")
-- 
2.43.0


From 081e96e707bfe0408826abadf5fd936b31ded784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:45 +0000
Subject: [PATCH 069/102] fix: LayerNorm without bias is generated with a bias

---
 tinynn/graph/tracer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index b0c139e..2a97928 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -1524,7 +1524,11 @@ def gen_module_constrctor_line(module, mod_cache=None):
     else:
         with patch(module_cls, '__getattribute__', new_module_getattr_gen, name, mod_cache):
             if getattr(module_cls, '__repr__') == getattr(torch.nn.Module, '__repr__'):
-                result = f'{name}({module.extra_repr()})'
+                args = module.extra_repr()
+                # The optional bias is not included in `extra_repr`
+                if module_cls is torch.nn.LayerNorm and module.elementwise_affine and module.bias is None:
+                    args += ', bias=False'
+                result = f'{name}({args})'
             else:
                 ns = '.'.join(name.split('.')[:-1])
                 result = f'{ns}.{repr(module)}'
-- 
2.43.0


From e6f95010c043318c7de27b8ef11eeee77e4a7042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 070/102] fix: PRELU was moved through a reshape to more
 dimensions than it supports

---
 tinynn/converter/operators/optimize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index faa981c..37c3e33 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -2336,6 +2336,10 @@ class GraphOptimizer(object):
             if len(cand_shapes) == 0:
                 continue
 
+            # PRELU supports at most 4 dims
+            if node['node_type'] == ExtendedOperator.PRELU and max(len(x) for x in cand_shapes) > 4:
+                continue
+
             if self.level >= GraphOptimizer.BRANCH_OPTIMIZE_EXTENDED and 'down' in next_hints:
                 continue
 
-- 
2.43.0


From a170b88ac5ab6df3fb64f2477ba02bf662a51e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 071/102] fix: a model generated in quick succession may be
 loaded from the bytecode of another one

---
 tinynn/util/util.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/tinynn/util/util.py b/tinynn/util/util.py
index 6db37cd..6d6d755 100644
--- a/tinynn/util/util.py
+++ b/tinynn/util/util.py
@@ -1,3 +1,4 @@
+import importlib.machinery
 import importlib.util
 import logging
 import os
@@ -228,6 +229,17 @@ def import_from(module: str, name: str):
     return getattr(module, name)
 
 
+class UncachedLoader(importlib.machinery.SourceFileLoader):
+    """Loads a source file without the bytecode cache
+
+    The cache is validated with the size of the source and its modification time in seconds, so for the files that are
+    generated in quick succession, it may belong to the previous one.
+    """
+
+    def path_stats(self, path):
+        raise OSError('the bytecode cache is disabled')
+
+
 def import_from_path(module: str, path: str, name: str):
     """Import a module with the given name and path (Equivalent of `from module import name`)
 
@@ -240,7 +252,7 @@ def import_from_path(module: str, path: str, name: str):
         The imported class, function, and etc
     """
 
-    spec = importlib.util.spec_from_file_location(module, path)
+    spec = importlib.util.spec_from_file_location(module, path, loader=UncachedLoader(module, path))
     foo = importlib.util.module_from_spec(spec)
     spec.loader.exec_module(foo)
     sys.modules[module] = foo
-- 
2.43.0


From 6ea68bfbea9b020efef6c2aa3959fee890b24087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 072/102] fix: inserting a node for one of the tensors between
 two nodes leaves a broken graph

---
 tinynn/graph/tracer.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index 2a97928..4f42f70 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -2900,9 +2900,15 @@ class TraceGraph(object):
             new_node.prev_indices.append(pidx if move_idx else None)
 
         # Make output nodes connects to the new node
-        for idx in range(len(next_node.prev_nodes) - remaining_count):
-            if next_node.prev_nodes[idx] == prev_node:
-                next_node.prev_nodes[idx] = new_node
+        if remaining_count > 0 and len(next_node.prev_nodes) == len(next_node.prev_tensors):
+            moved_ptrs = {id(t) for t in prev_tensors}
+            for idx, t in enumerate(next_node.prev_tensors):
+                if next_node.prev_nodes[idx] == prev_node and id(t) in moved_ptrs:
+                    next_node.prev_nodes[idx] = new_node
+        else:
+            for idx in range(len(next_node.prev_nodes) - remaining_count):
+                if next_node.prev_nodes[idx] == prev_node:
+                    next_node.prev_nodes[idx] = new_node
 
         # Update tensors in output nodes
         index_mapping = []
@@ -2921,7 +2927,7 @@ class TraceGraph(object):
         for prev_node in new_node.prev_nodes:
             if remaining_count > 0:
                 if new_node not in prev_node.next_nodes:
-                    prev_node.next_tensors.append(new_node)
+                    prev_node.next_nodes.append(new_node)
             else:
                 for i, n in enumerate(prev_node.next_nodes):
                     if n == next_node:
-- 
2.43.0


From 8133d00e93897d7dafe51e335a9238e8f20bf0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 073/102] fix: modules are generated with the constructors of
 deleted modules

---
 tinynn/graph/tracer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index 4f42f70..98588ad 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -2131,6 +2131,13 @@ class TraceGraph(object):
                         new_input = new_input.to(device=device)
                     actual_input[i] = new_input
 
+            # Drop the constructor lines of the deleted modules, whose identities may be used by other modules now
+            for m_id in list(module_constructor_lines):
+                ref = module_constructor_weakrefs.get(m_id, None)
+                if ref is None or ref() is None:
+                    del module_constructor_lines[m_id]
+                    module_constructor_traced.discard(m_id)
+
             original_state_dict = copy.deepcopy(self.module.state_dict())
 
             try:
-- 
2.43.0


From 3e9446c472a4b499b134d142c61017e60a0a9e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 074/102] fix: post-training quantization fails with the onnx
 and tensorrt backends

---
 tinynn/graph/quantization/quantizer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index cbed43f..414aa19 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -3669,10 +3669,13 @@ class PostQuantizer(QATQuantizer):
         """
 
         log.info('setting qat backend and call prepare_qat')
+        actual_backend = backend
+        if backend in ('onnx', 'tensorrt'):
+            actual_backend = 'qnnpack'
         if not self.legacy_fq or LooseVersion(torch.__version__) < '1.12.0':
-            qconfig = torch_q.get_default_qconfig(backend)
+            qconfig = torch_q.get_default_qconfig(actual_backend)
         else:
-            qconfig = torch_q.get_default_qconfig(backend, 0)
+            qconfig = torch_q.get_default_qconfig(actual_backend, 0)
         qconfig_c = None
         if self.backend == 'qnnpack':
             if not self.asymmetric:
@@ -3726,7 +3729,7 @@ class PostQuantizer(QATQuantizer):
                 else:
                     qconfig = torch_q.QConfig(alg_asym_fq, qconfig.weight)
 
-        torch.backends.quantized.engine = backend
+        torch.backends.quantized.engine = actual_backend
         graph.module.qconfig = qconfig
         if self.backend == 'qnnpack':
             if qconfig_c is not None:
-- 
2.43.0


From c8a16954b260906df68b64e7e9d6b1a4e9a1e226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 075/102] fix: layers are fused for quantization though the
 values between them are used elsewhere or the batch norm has no parameters

---
 tinynn/graph/quantization/quantizer.py | 33 ++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 414aa19..ffa4585 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -3001,8 +3001,37 @@ class QATQuantizer(object):
         if current_rules is None:
             return False
 
+        def _is_mergeable(cur_node, next_node, classes):
+            # Tell whether a node could be fused with the following nodes of the given classes
+
+            cur_module = cur_node.module
+            if next_node is not None:
+                # The result of the node is gone if it is fused, so it should not be used by any other node
+                if len(cur_node.next_nodes) > 1:
+                    return False
+
+                # If the modules are shared, then they should be used together everywhere
+                for n in [] if graph is None else graph.forward_nodes:
+                    if n.module is cur_module:
+                        if len(n.next_nodes) != 1 or n.next_nodes[0].module is not next_node.module:
+                            return False
+                    elif n.module is next_node.module:
+                        if len(n.prev_nodes) != 1 or n.prev_nodes[0].module is not cur_module:
+                            return False
+
+            if isinstance(cur_module, nn.modules.batchnorm._BatchNorm):
+                return cur_module.affine and cur_module.track_running_stats
+
+            # The scales of the batch norm are not aligned with the weights
+            if isinstance(cur_module, nn.modules.conv._ConvTransposeNd) and cur_module.groups > 1:
+                return not any(isinstance(x, type) and issubclass(x, nn.modules.batchnorm._BatchNorm) for x in classes)
+
+            return True
+
         cur_node = node
+        next_node = None
         names = []
+        classes = []
         final_names = []
         current_state = False
         while True:
@@ -3016,6 +3045,8 @@ class QATQuantizer(object):
             cur_class = type(cur_module)
             if isinstance(cur_module, TraceFunction):
                 cur_class = cur_module.kind
+            if not _is_mergeable(cur_node, next_node, classes):
+                break
             prev_nodes = cur_node.prev_nodes
             log.debug(f'cur: {cur_class}')
             if cur_class in current_rules or cur_class == nn.Identity:
@@ -3032,12 +3063,14 @@ class QATQuantizer(object):
                     current_state, current_rules = current_rules[cur_class]
                     log.debug(f'dict: {current_rules}, {current_state}')
                     names.append(cur_name)
+                    classes.append(cur_class)
                     if current_state is True:
                         log.debug(f'update best: {names}')
                         final_names.clear()
                         final_names.extend(names)
                 if len(cur_node.prev_nodes) != 1:
                     break
+                next_node = cur_node
                 cur_node = cur_node.prev_nodes[0]
             else:
                 if cur_class == nn.ConvTranspose2d:
-- 
2.43.0


From bc99381163b8923157e576ed06071b8c1830630c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 076/102] fix: BatchNorm1d on two-dimensional inputs can't be
 quantized

---
 tinynn/graph/quantization/quantizer.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index ffa4585..71cc1d0 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -2521,6 +2521,25 @@ class QATQuantizer(object):
                 graph.module_unique_name_dict[id(new_bn)] = f'rewritten_bn2d_{idx}'
                 graph.module_original_name_dict[id(new_bn)] = f'rewritten_bn2d_{idx}'
 
+                if node.prev_tensors[0].dim() == 2:
+                    with override_current_trace_graph(graph):
+                        graph.replace_node_module(node, new_bn)
+
+                        prev_func = TraceFunction('torch.Tensor.__getitem__', prefix='rewritten_bn2d_').parse_args(
+                            node.prev_tensors[0], (Ellipsis, None, None)
+                        )
+                        next_func = TraceFunction('torch.flatten', prefix='rewritten_bn2d_').parse_args(
+                            node.next_tensors[0], 1
+                        )
+
+                    node.next_tensors[0].unsqueeze_(2).unsqueeze_(2)
+
+                    prev_out = node.prev_tensors[0][..., None, None]
+                    graph.insert_between(node.prev_nodes[0], node, prev_func, [prev_out], True)
+                    next_out = torch.flatten(node.next_tensors[0], 1)
+                    graph.insert_after(node, next_func, [next_out])
+                    continue
+
                 with override_current_trace_graph(graph):
                     graph.replace_node_module(node, new_bn)
 
-- 
2.43.0


From 3d8940f5fa78215a165e8aa8bf690a83a218c6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 077/102] fix: the slope of F.leaky_relu passed by keyword is
 lost in quantization

---
 tinynn/graph/quantization/quantizer.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 71cc1d0..287d06d 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -2192,14 +2192,18 @@ class QATQuantizer(object):
             elif node.module.kind in ('elu', 'leaky_relu'):
                 if hasattr(node.module, 'args_string_no_self'):
 
-                    def _parse_args(alpha=1.0, *args, **kwargs):  # noqa: F811
-                        return alpha
-
-                    alpha = eval(f'_parse_args({node.module.args_string_no_self})')
                     if node.module.kind == 'leaky_relu':
-                        new_func = klass(alpha, inplace=inplace)
+
+                        def _parse_args(negative_slope=0.01, *args, **kwargs):  # noqa: F811
+                            return negative_slope
+
                     else:
-                        new_func = klass(alpha, inplace=inplace)
+
+                        def _parse_args(alpha=1.0, *args, **kwargs):  # noqa: F811
+                            return alpha
+
+                    alpha = eval(f'_parse_args({node.module.args_string_no_self})')
+                    new_func = klass(alpha, inplace=inplace)
                 else:
                     alpha = None
                     if node.module.kind == 'leaky_relu':
-- 
2.43.0


From 21b40431a4da459ff277c3034a2410ae07392639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 078/102] fix: inplace operations are not inplace any more in
 the models rewritten for quantization

---
 tinynn/graph/quantization/quantizer.py | 39 +++++++++++++++++---------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 287d06d..7b6d184 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -1699,7 +1699,7 @@ class QATQuantizer(object):
         neg_nodes = graph.filter_forward_nodes(_is_neg_node)
         log.info(f'rewriting neg for {[node.unique_name for node in neg_nodes]}')
         for idx, node in enumerate(neg_nodes):
-            node.module.func_type = '__mul__'
+            node.module.func_type = '__imul__' if node.module.func_type == 'neg_' else '__mul__'
             node.module.kind = 'mul'
 
             full_name_parts = node.module.full_name.split('.')
@@ -1900,8 +1900,7 @@ class QATQuantizer(object):
         unfusable_add_nodes = []  # noqa: F841
         log.info(f'rewriting add/mul/cat for {[node.unique_name for node in convertible_nodes]}')
         for idx, node in enumerate(convertible_nodes):
-            old_full_name = node.module.full_name  # noqa: F841
-            old_is_class = node.module.is_class  # noqa: F841
+            old_func_type = node.module.func_type
 
             op_kind = node.module.kind
             float_functional = nnq.FloatFunctional()
@@ -1938,7 +1937,7 @@ class QATQuantizer(object):
             node.module.func_type = op_type
             node.module.full_name = f'self.{module_name}.{op_type}'
             # Inplace operations
-            if node.module.func_type in ['__iadd__', '__imul__', 'add_', 'mul_']:
+            if old_func_type in ['__iadd__', '__imul__', 'add_', 'mul_']:
                 node.module.add_alias(node.module.tensor_names[0])
                 q = queue.Queue()
                 q.put(node.prev_nodes[0])
@@ -2028,19 +2027,19 @@ class QATQuantizer(object):
             def _parse_args(min=None, max=None, *args, **kwargs):
                 return min, max
 
-            min, max = eval(f'_parse_args({node.module.args_string_no_self})')
+            min_val, max_val = eval(f'_parse_args({node.module.args_string_no_self})')
 
             kind = None
-            if min == 0.0:
-                if max is None:
+            if min_val == 0.0:
+                if max_val is None:
                     kind = 'relu'
-                elif max == 6.0:
+                elif max_val == 6.0:
                     kind = 'relu6'
 
             if kind is None:
-                if max is None:
+                if max_val is None:
                     kind = 'clamp_min'
-                elif min is None:
+                elif min_val is None:
                     kind = 'clamp_max'
                 else:
                     kind = 'clamp_with_fusion'
@@ -2050,17 +2049,17 @@ class QATQuantizer(object):
                 node.module.func_type = node.module.func_type.replace('clamp', kind)
                 node.module.full_name = '.'.join(node.module.full_name.split('.')[:-1] + [node.module.func_type])
 
-                if max is None:
-                    arg_str = f'{min}'
+                if max_val is None:
+                    arg_str = f'{min_val}'
                 else:
-                    arg_str = f'{max}'
+                    arg_str = f'{max_val}'
             elif kind == 'clamp_with_fusion':
                 node.module.is_class = False
                 node.module.kind = kind
                 node.module.func_type = node.module.func_type.replace('clamp', kind)
                 node.module.full_name = f'tinynn.graph.quantization.utils.{node.module.func_type}'
 
-                arg_str = f'{min}, {max}'
+                arg_str = f'{min_val}, {max_val}'
             else:
                 inplace = node.module.func_type == f'{node.module.kind}_'
                 node.module.kind = kind
@@ -3006,6 +3005,18 @@ class QATQuantizer(object):
             elif node.kind() in ('add', 'mul', 'cat') or node.kind() in FUNCTIONAL_MODULE_MAPPING:
                 self.effective_layers.append(name)
 
+        # Refresh the aliases of the inplace operations, since the nodes they refer to may have been rewritten
+        for node in graph.forward_nodes:
+            if type(node.module) is TraceFunction and node.module.get_aliases() is not None:
+                aliases = [node.module.tensor_names[0]]
+                n = node.prev_nodes[0]
+                while getattr(n.module, 'inplace', False):
+                    aliases.insert(0, n.prev_node_unique_name(0))
+                    n = n.prev_nodes[0]
+                if type(n.module) is TraceFunction:
+                    aliases = (n.module.get_aliases() or []) + aliases
+                node.module.aliases = [name for name in aliases if '[' not in name]
+
         graph.quantized = True
         graph.recompute_forward_order()
 
-- 
2.43.0


From 01db840e2762e6d88ba7878223841018b5d8b655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 079/102] fix: alpha, other, rounding_mode and repeated
 operands of arithmetic functions are mishandled in quantization

---
 tinynn/graph/quantization/quantizer.py | 76 +++++++++++++++++---------
 1 file changed, 51 insertions(+), 25 deletions(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 7b6d184..6f94859 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -1710,6 +1710,12 @@ class QATQuantizer(object):
             with override_current_trace_graph(graph):
                 node.module.parse_args(node.prev_tensors[0], -1.0)
 
+        def _scalar_operand(module):
+            # The operand of a binary function that is not a tensor, e.g. `1` in `x + 1` and `torch.sub(x, other=1)`
+            if 'other' in module.kwargs:
+                return module.kwargs['other']
+            return eval(module.args_parsed_origin[1])
+
         def _is_div_node(node: TraceNode, custom_data):
             cur_module = node.module
             cur_class = type(cur_module)
@@ -1721,6 +1727,7 @@ class QATQuantizer(object):
                     and len(cur_module.prev_tensors) == 1
                     and torch.is_floating_point(cur_module.prev_tensors[0])
                     and cur_module.func_type != '__rtruediv__'
+                    and cur_module.kwargs.get('rounding_mode', None) is None
                     and torch.is_floating_point(node.next_tensors[0])
                     and node.prev_nodes[0].kind() not in ('size', 'shape')
                     and self.layerwise_config.get(node.unique_name, True)
@@ -1744,12 +1751,7 @@ class QATQuantizer(object):
 
             node.module.full_name = '.'.join(full_name_parts)
 
-            # Here we make a simple guess, if dot is in the string, then it's a floating number.
-            # Otherwise, it is an integral number.
-            if '.' in node.module.args_string_no_self:
-                other_arg = float(node.module.args_string_no_self)
-            else:
-                other_arg = int(node.module.args_string_no_self)
+            other_arg = _scalar_operand(node.module)
 
             with override_current_trace_graph(graph):
                 node.module.parse_args(node.prev_tensors[0], 1.0 / other_arg)
@@ -1758,8 +1760,14 @@ class QATQuantizer(object):
             cur_module = node.module
             cur_class = type(cur_module)
             if cur_class == TraceFunction:
+                # `x - x` is left alone, because the second operand can't be told from the first one
+                if len(cur_module.prev_tensors) == 2 and cur_module.prev_tensors[0] is cur_module.prev_tensors[1]:
+                    return False
+                # `x + y * alpha`
+                if cur_module.kind == 'add' and cur_module.kwargs.get('alpha', 1) == 1:
+                    return False
                 return (
-                    cur_module.kind == 'sub'
+                    cur_module.kind in ('sub', 'add')
                     and torch.is_floating_point(cur_module.prev_tensors[0])
                     and torch.is_floating_point(node.next_tensors[0])
                     and self.layerwise_config.get(node.unique_name, True)
@@ -1773,20 +1781,22 @@ class QATQuantizer(object):
             full_name_parts = node.module.full_name.split('.')
             full_name_parts[-1] = node.module.func_type
 
+            # The second operand is multiplied with it
+            multiplier = node.module.kwargs.get('alpha', 1)
+            if node.module.kind == 'sub':
+                multiplier = -multiplier
+
+            add_type = '__iadd__' if op_type in ('__isub__', 'sub_', 'add_') else '__add__'
+
             if len(node.module.prev_tensors) == 1 and node.module.func_type != '__rsub__':
-                node.module.func_type = '__add__'
+                other_arg = _scalar_operand(node.module)
+
+                node.module.func_type = add_type
                 node.module.kind = 'add'
                 node.module.full_name = '.'.join(full_name_parts)
 
-                # Here we make a simple guess, if dot is in the string, then it's a floating number.
-                # Otherwise, it is an integral number.
-                if '.' in node.module.args_string_no_self or 'e' in node.module.args_string_no_self:
-                    other_arg = float(node.module.args_string_no_self)
-                else:
-                    other_arg = int(node.module.args_string_no_self)
-
                 with override_current_trace_graph(graph):
-                    node.module.parse_args(node.prev_tensors[0], -other_arg)
+                    node.module.parse_args(node.prev_tensors[0], multiplier * other_arg)
             elif len(node.module.prev_tensors) == 2 and len(node.prev_nodes) == 2:
                 new_fullname_parts = copy.deepcopy(full_name_parts)
                 new_fullname_parts[-1] = '__mul__'
@@ -1794,13 +1804,15 @@ class QATQuantizer(object):
                 current_tensor = node.prev_tensors[0]
                 input_node = node.prev_nodes[1]
                 input_tensor = node.prev_tensors[1]
-                output_tensor = input_tensor * -1
+                output_tensor = input_tensor * multiplier
 
                 with override_current_trace_graph(graph):
-                    trace_func = TraceFunction(new_fullname, True, prefix='fuse_').parse_args(input_tensor, -1)
-                    graph.insert_between(input_node, node, trace_func, [output_tensor], True)
+                    trace_func = TraceFunction(new_fullname, True, prefix='fuse_').parse_args(input_tensor, multiplier)
+                    graph.insert_between(
+                        input_node, node, trace_func, [output_tensor], True, tensor_ptrs=set([id(input_tensor)])
+                    )
 
-                    node.module.func_type = '__add__'
+                    node.module.func_type = add_type
                     node.module.kind = 'add'
 
                     full_name_parts[-1] = node.module.func_type
@@ -1817,11 +1829,6 @@ class QATQuantizer(object):
                 input_tensor = node.prev_tensors[0]
                 output_tensor = input_tensor * -1
 
-                if '.' in node.module.args_string_no_self:
-                    other_arg = float(node.module.args_string_no_self)
-                else:
-                    other_arg = int(node.module.args_string_no_self)
-
                 with override_current_trace_graph(graph):
                     trace_func = TraceFunction(new_fullname, True, prefix='fuse_').parse_args(input_tensor, -1)
                     graph.insert_between(input_node, node, trace_func, [output_tensor], True)
@@ -1847,6 +1854,12 @@ class QATQuantizer(object):
         stack_nodes = graph.filter_forward_nodes(_is_stack_node)
 
         for idx, node in enumerate(stack_nodes):
+            if 'tensors' in node.module.kwargs:
+                with override_current_trace_graph(graph):
+                    node.module.parse_args(
+                        list(node.prev_tensors), node.module.kwargs.get('dim', node.module.kwargs.get('axis', 0))
+                    )
+
             args = getattr(node.module, 'args_string_no_self', '')
             if ',' in args:
                 log.error('rewrite doesn\'t support multiple args for torch.stack')
@@ -1894,6 +1907,7 @@ class QATQuantizer(object):
                     and torch.is_floating_point(node.next_tensors[0])
                     and self.layerwise_config.get(node.unique_name, True)
                     and all((torch.is_floating_point(pt) for pt in node.prev_tensors))
+                    and 'alpha' not in cur_module.kwargs
                 )
 
         convertible_nodes = graph.filter_forward_nodes(_is_convertible_node)
@@ -1934,6 +1948,18 @@ class QATQuantizer(object):
                 # Don't check anything for other OPs.
                 # It is simply too complex for us.
                 op_type = op_kind
+            # The functions of FloatFunctional don't accept other names of the arguments
+            node_kwargs = node.module.kwargs
+            with override_current_trace_graph(graph):
+                if 'other' in node_kwargs or 'input' in node_kwargs:
+                    operands = list(node.prev_tensors)
+                    if prev_tensor_size == 1:
+                        operands.append(_scalar_operand(node.module))
+                    node.module.parse_args(*operands)
+                elif 'tensors' in node_kwargs or 'axis' in node_kwargs:
+                    node.module.parse_args(
+                        list(node.prev_tensors), node_kwargs.get('dim', node_kwargs.get('axis', 0))
+                    )
             node.module.func_type = op_type
             node.module.full_name = f'self.{module_name}.{op_type}'
             # Inplace operations
-- 
2.43.0


From d60f5c0fb74f32ab3bba1a131cb7e7275362484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 080/102] fix: quantization fails with an inplace addition
 before ReLU6, and with a padded tensor that is broadcast

---
 tinynn/graph/quantization/quantizer.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 6f94859..8ac4e9c 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -1175,7 +1175,20 @@ class QATQuantizer(object):
         log.debug(f'Extra q postprocess for nodes: {quant_list}')
 
         rev_dict = dict((v, k) for k, v in graph.module_original_name_dict.items())
+        def _is_activ_requantized(activ_name):
+            # Tell whether the activation is followed by the nodes that are inserted by the rewrite pass
+            if activ_name in rev_dict:
+                activ_name = graph.module_unique_name_dict[rev_dict[activ_name]]
+            for cls in (torch_q.DeQuantStub, torch_q.QuantStub):
+                next_nodes = graph.nodes_map[activ_name].next_nodes
+                if len(next_nodes) == 0 or not isinstance(next_nodes[0].module, cls):
+                    return False
+                activ_name = next_nodes[0].unique_name
+            return True
+
         for quant_nodes in quant_list:
+            if not _is_activ_requantized(quant_nodes[-1]):
+                continue
             for orig_name in quant_nodes:
                 if orig_name in rev_dict:
                     new_mod, _ = graph.get_submodule_with_parent_from_name(orig_name, self.inplace)
@@ -2371,7 +2384,8 @@ class QATQuantizer(object):
                         trace_func = TraceFunction('torch.Tensor.contiguous', True, prefix='fuse_').parse_args(
                             shared_tensors[0]
                         )
-                    next_tensors = [x.contiguous() for x in shared_tensors]
+                    # `contiguous` may return the tensor itself, which already belongs to the previous node
+                    next_tensors = [x.clone(memory_format=torch.contiguous_format) for x in shared_tensors]
                     graph.insert_between(n, node, trace_func, next_tensors, True)
 
         # Remove non-leaf `.data` nodes
-- 
2.43.0


From a6b092bcef0f00893f33b6276eb0ff83f3f3a338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 081/102] fix: LayerNorm and RMSNorm without parameters can't
 be quantized

---
 tinynn/graph/quantization/modules.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/tinynn/graph/quantization/modules.py b/tinynn/graph/quantization/modules.py
index d78dea3..1983862 100644
--- a/tinynn/graph/quantization/modules.py
+++ b/tinynn/graph/quantization/modules.py
@@ -95,8 +95,8 @@ class QLayerNorm(nn.Module):
     def __init__(self, layernorm: nn.LayerNorm) -> None:
         super().__init__()
         self.mean_dims = tuple(range(-len(layernorm.normalized_shape), 0))
-        self.weight = torch.nn.Parameter(layernorm.weight.data.detach().clone())
-        self.bias = torch.nn.Parameter(layernorm.bias.data.detach().clone())
+        self.weight = None if layernorm.weight is None else torch.nn.Parameter(layernorm.weight.data.detach().clone())
+        self.bias = None if layernorm.bias is None else torch.nn.Parameter(layernorm.bias.data.detach().clone())
         self.eps = layernorm.eps
 
         self.q_rsqrt = torch_q.QuantStub()
@@ -127,20 +127,21 @@ class QLayerNorm(nn.Module):
         std_inverse = torch.rsqrt(fdq_var_eps)
         q_std_inverse = self.q_rsqrt(std_inverse)
 
-        weight_fq = self.q_weight(self.weight)
-        bias_fq = self.q_bias(self.bias)
         norm = self.f_mul_1.mul(diff, q_std_inverse)
-        weight_fq_expand = weight_fq.expand_as(norm)
-        norm_alpha = self.f_mul_2.mul(norm, weight_fq_expand)
-        bias_fq_expand = bias_fq.expand_as(norm_alpha)
-        return self.f_add_2.add(norm_alpha, bias_fq_expand)
+        if self.weight is not None:
+            weight_fq = self.q_weight(self.weight)
+            norm = self.f_mul_2.mul(norm, weight_fq.expand_as(norm))
+        if self.bias is not None:
+            bias_fq = self.q_bias(self.bias)
+            norm = self.f_add_2.add(norm, bias_fq.expand_as(norm))
+        return norm
 
 
 class QRMSNorm(nn.Module):
     def __init__(self, rmsnorm: 'nn.RMSNorm') -> None:
         super().__init__()
         self.mean_dims = tuple(range(-len(rmsnorm.normalized_shape), 0))
-        self.weight = torch.nn.Parameter(rmsnorm.weight.data.detach().clone())
+        self.weight = None if rmsnorm.weight is None else torch.nn.Parameter(rmsnorm.weight.data.detach().clone())
         self.eps = rmsnorm.eps
 
         self.q_rsqrt = torch_q.QuantStub()
@@ -168,7 +169,8 @@ class QRMSNorm(nn.Module):
         rms_inverse = torch.rsqrt(fdq_rms_pre)
         q_rms = self.q_rsqrt(rms_inverse)
 
-        weight_fq = self.q_weight(self.weight)
         norm = self.f_mul_1.mul(input, q_rms)
-        weight_fq_expand = weight_fq.expand_as(norm)
-        return self.f_mul_2.mul(norm, weight_fq_expand)
+        if self.weight is None:
+            return norm
+        weight_fq = self.q_weight(self.weight)
+        return self.f_mul_2.mul(norm, weight_fq.expand_as(norm))
-- 
2.43.0


From 59e9966a223972fae41d48ae86158dd50c384d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 082/102] fix: functional dropout is always active in the
 models quantized for TensorRT

---
 tinynn/graph/quantization/quantizer.py | 66 ++++++++++++++------------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 8ac4e9c..2141cff 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -1478,6 +1478,39 @@ class QATQuantizer(object):
                     observer.quant_min = quant_min
                     observer.quant_max = quant_max
 
+    def rewrite_functional_dropout(self, graph: TraceGraph) -> None:
+        """Rewrites dropout as nn.Dropout() for models in training mode"""
+
+        def _is_dropout_functional_node(node: TraceNode, custom_data):
+            cur_module = node.module
+            cur_class = type(cur_module)
+            if cur_class == TraceFunction:
+                return cur_module.kind == 'dropout' and self.layerwise_config.get(node.unique_name, True)
+
+        def _dropout_args(p=0.5, training=True, inplace=False):
+            return p, training, inplace
+
+        dropout_nodes_to_rewrite = graph.filter_forward_nodes(_is_dropout_functional_node)
+        log.info(f'rewriting dropout for {[node.unique_name for node in dropout_nodes_to_rewrite]}')
+        for idx, node in enumerate(dropout_nodes_to_rewrite):
+            args = getattr(node.module, 'args_string_no_self', '')
+            p, _, inplace = eval(f'_dropout_args({args})')
+            kind = node.module.kind
+            inplace = node.module.func_type == f'{kind}_' or inplace
+            dropout_cls = nn.Dropout
+            new_dropout = dropout_cls(p, inplace=inplace)
+
+            graph.module_unique_name_dict[id(new_dropout)] = f'rewritten_{kind}_{idx}'
+            graph.module_original_name_dict[id(new_dropout)] = f'rewritten_{kind}_{idx}'
+
+            if inplace:
+                arg_str = f'{p}, inplace={inplace}'
+            else:
+                arg_str = f'{p}'
+
+            module_constructor_lines[id(new_dropout)] = f'{qualified_name(dropout_cls)}({arg_str})'
+            graph.replace_node_module(node, new_dropout)
+
     def rewrite_quantize_graph_for_tensorrt(self, graph: TraceGraph) -> None:
         """Rewrites the computation graph for TensorRT quantization"""
 
@@ -1492,6 +1525,8 @@ class QATQuantizer(object):
         def _is_observed_nodes_for_tensorrt(node, custom_data):
             return node.kind() in processed_types
 
+        self.rewrite_functional_dropout(graph)
+
         observed_nodes = graph.filter_forward_nodes(_is_observed_nodes_for_tensorrt)
         node_map = dict()
         for idx, node in enumerate(observed_nodes):
@@ -2327,36 +2362,7 @@ class QATQuantizer(object):
             module_constructor_lines[id(new_func)] = f'{qualified_name(relu_cls)}({arg_str})'
             graph.replace_node_module(node, new_func)
 
-        # Rewrite dropout as nn.Dropout() for models in training mode
-        def _is_dropout_functional_node(node: TraceNode, custom_data):
-            cur_module = node.module
-            cur_class = type(cur_module)
-            if cur_class == TraceFunction:
-                return cur_module.kind == 'dropout' and self.layerwise_config.get(node.unique_name, True)
-
-        def _dropout_args(p=0.5, training=True, inplace=False):
-            return p, training, inplace
-
-        dropout_nodes_to_rewrite = graph.filter_forward_nodes(_is_dropout_functional_node)
-        log.info(f'rewriting dropout for {[node.unique_name for node in dropout_nodes_to_rewrite]}')
-        for idx, node in enumerate(dropout_nodes_to_rewrite):
-            args = getattr(node.module, 'args_string_no_self', '')
-            p, _, inplace = eval(f'_dropout_args({args})')
-            kind = node.module.kind
-            inplace = node.module.func_type == f'{kind}_' or inplace
-            dropout_cls = nn.Dropout
-            new_dropout = dropout_cls(p, inplace=inplace)
-
-            graph.module_unique_name_dict[id(new_dropout)] = f'rewritten_{kind}_{idx}'
-            graph.module_original_name_dict[id(new_dropout)] = f'rewritten_{kind}_{idx}'
-
-            if inplace:
-                arg_str = f'{p}, inplace={inplace}'
-            else:
-                arg_str = f'{p}'
-
-            module_constructor_lines[id(new_dropout)] = f'{qualified_name(dropout_cls)}({arg_str})'
-            graph.replace_node_module(node, new_dropout)
+        self.rewrite_functional_dropout(graph)
 
         # Add contiguous nodes for partially-supported OPs
         # Some of the operations support quantization, but they only accept contiguous input tensors.
-- 
2.43.0


From 0164a8e2da82aa5fd6edc56a21a9e657d344a55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 083/102] fix: the modules added by the inplace rewrite for
 quantization are in training mode

---
 tinynn/graph/quantization/quantizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 2141cff..27c829e 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -509,6 +509,9 @@ class QATQuantizer(object):
 
             if self.inplace:
                 rewritten_model = self.model
+
+                # The modules that are added during the rewrite should be in the same mode as well
+                self.set_model_mode(rewritten_model)
             else:
                 # Import the new model
                 rewritten_model = import_from_path(model_ns, model_code_path, model_name_q)()
-- 
2.43.0


From 766be213b116c4bf43b79595031d18e3ccc63961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 084/102] fix: additions with alpha before ReLU are fused for
 quantization though there is no fused counterpart

---
 tinynn/graph/quantization/quantizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 27c829e..45fa113 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -2169,6 +2169,9 @@ class QATQuantizer(object):
                 # So we don't fuse the nodes under such circumstances.
                 if cur_module.kind != 'add' or len(node.next_nodes) != 1:
                     return False
+                # The functions that couldn't be rewritten (e.g. those with `alpha`) have no fused counterparts
+                if not cur_module.full_name.startswith('self.'):
+                    return False
                 # The input for the add operations should be two tensors.
                 if len(node.prev_tensors) != 2:
                     return False
-- 
2.43.0


From 31e0848366f8b74f8567235a1f1ff25803e11706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 085/102] fix: batch norm is fused with the next convolution
 though it is padded, and wrongly if it is grouped

---
 tinynn/graph/quantization/quantizer.py |  9 +++++++++
 tinynn/graph/quantization/utils.py     | 17 ++++++++++-------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 45fa113..bfe568b 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -3106,6 +3106,15 @@ class QATQuantizer(object):
                             return False
 
             if isinstance(cur_module, nn.modules.batchnorm._BatchNorm):
+                # The padded values are not shifted by the batch norm, so they can't be represented with a bias
+                if len(classes) > 0 and classes[-1] is nn.Conv2d:
+                    while type(next_node.module) is nn.Identity:
+                        next_node = next_node.next_nodes[0]
+                    conv = next_node.module
+                    if conv.padding_mode == 'zeros' and conv.padding != 'valid':
+                        if isinstance(conv.padding, str) or any(x != 0 for x in conv.padding):
+                            return False
+
                 return cur_module.affine and cur_module.track_running_stats
 
             # The scales of the batch norm are not aligned with the weights
diff --git a/tinynn/graph/quantization/utils.py b/tinynn/graph/quantization/utils.py
index f47d833..9942752 100644
--- a/tinynn/graph/quantization/utils.py
+++ b/tinynn/graph/quantization/utils.py
@@ -32,17 +32,20 @@ def fuse_bn_conv_weights(conv_w, conv_b, bn_rm, bn_rv, bn_eps, bn_w, bn_b):
         bn_b = torch.zeros_like(bn_rm)
     bn_var_rsqrt = torch.rsqrt(bn_rv + bn_eps)
 
-    shape = [1, -1] + [1] * (len(conv_w.shape) - 2)
+    # The input channels of each of the output channels
+    groups = bn_rm.shape[0] // conv_w.shape[1]
+    channels_per_group = conv_w.shape[0] // groups
+
+    def per_weight(t):
+        return t.reshape(groups, -1).repeat_interleave(channels_per_group, dim=0)
+
+    shape = list(conv_w.shape[:2]) + [1] * (len(conv_w.shape) - 2)
     reduced_dims = [i for i in range(len(conv_w.shape)) if i > 1]
 
     fused_b = bn_b - bn_rm * bn_var_rsqrt * bn_w
+    offset_b = (conv_w.sum(dim=reduced_dims) * per_weight(fused_b)).sum(dim=1)
 
-    if conv_w.shape[1] == 1 and bn_rm.shape[0] > 1:
-        offset_b = (conv_w.sum(dim=reduced_dims) * fused_b.reshape(-1, 1)).reshape(-1)
-    else:
-        offset_b = conv_w.sum(dim=reduced_dims).matmul(fused_b.reshape(-1, 1)).reshape(-1)
-
-    fused_conv_w = conv_w * (bn_w * bn_var_rsqrt).reshape(shape)
+    fused_conv_w = conv_w * per_weight(bn_w * bn_var_rsqrt).reshape(shape)
     fused_conv_b = conv_b + offset_b
 
     return torch.nn.Parameter(fused_conv_w, conv_w.requires_grad), torch.nn.Parameter(
-- 
2.43.0


From 48ed5f26d0b91c2d7d34b352ce42c76288fa9a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 086/102] fix: functional dropout whose result is the output
 can't be rewritten for TensorRT

---
 tinynn/graph/tracer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index 98588ad..50f50c8 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -753,6 +753,10 @@ class TraceFunction(object):
 
     def replace_tensor_name(self, old_name, new_name):
         """Replaces the specific tensor name with the given one"""
+        # The output nodes have no arguments
+        if self.tensor_names is None:
+            return
+
         for i, name in enumerate(self.tensor_names):
             if name == old_name:
                 self.tensor_names[i] = new_name
-- 
2.43.0


From bbe2c4236d8dbeb02022a605b3b4760a2192516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:11 +0000
Subject: [PATCH 087/102] fix: per-channel fake-quantization with the rounding
 mode of TFLite fails or uses the scales of other channels

---
 tinynn/graph/quantization/fake_quantize.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tinynn/graph/quantization/fake_quantize.py b/tinynn/graph/quantization/fake_quantize.py
index 5c241a8..0aabf1b 100644
--- a/tinynn/graph/quantization/fake_quantize.py
+++ b/tinynn/graph/quantization/fake_quantize.py
@@ -46,7 +46,14 @@ class FakeQuantizeTFLite(torch.quantization.FakeQuantize):
             if observer_enabled:
                 torch.quantization.disable_observer(self)
 
-            X = X + self.scale * 1e-6 * torch.sign(X.detach())
+            scale = self.scale
+            if scale.numel() > 1:
+                # Per-channel scales
+                shape = [1] * X.dim()
+                shape[self.ch_axis] = -1
+                scale = scale.reshape(shape)
+
+            X = X + scale * 1e-6 * torch.sign(X.detach())
             X = super().forward(X)
 
             if observer_enabled:
-- 
2.43.0


From 95cb78f6373f91dfb71488ad01d8f03d2f2e47f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:52 +0000
Subject: [PATCH 088/102] fix: negation of asymmetrically quantized tensors
 saturates; concatenation of int8 tensors with different scales is invalid

---
 tinynn/converter/operators/torch/quantized.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/torch/quantized.py b/tinynn/converter/operators/torch/quantized.py
index de38d05..fd73b5a 100644
--- a/tinynn/converter/operators/torch/quantized.py
+++ b/tinynn/converter/operators/torch/quantized.py
@@ -19,7 +19,8 @@ class QuantizedMulScalarOperator(QuantizedMulScalarSchema):
         super().parse(node, attrs, args, graph_converter)
 
         is_neg = False
-        if self.input_tensors[1] in (-1, -1.0):
+        # The result has the same quantization parameters as the input, if it is quantized symmetrically
+        if self.input_tensors[1] in (-1, -1.0) and self.input_tensors[0].q_zero_point() == 128:
             self.input_tensors[1] *= -1
             is_neg = True
 
@@ -173,6 +174,18 @@ class QuantizedCatOperator(QuantizedCatSchema):
         )
         outputs = self.to_tfl_tensors(self.output_names, self.output_tensors)
 
+        if self.q_type != np.uint8:
+            # The inputs are requantized in the kernels for uint8 only
+            for i, inp in enumerate(inputs):
+                if inp.quantization is None or outputs[0].quantization is None:
+                    continue
+                if (inp.quantization.scale, inp.quantization.zero_point) != (
+                    outputs[0].quantization.scale,
+                    outputs[0].quantization.zero_point,
+                ):
+                    inputs[i] = self.create_transform_tensor(inp.tensor, quantization=outputs[0].quantization)
+                    graph_converter.add_operator(tfl.QuantizeOperator([inp], [inputs[i]]))
+
         graph_converter.add_operator(tfl.ConcatenationOperator(inputs, outputs, dim))
 
 
-- 
2.43.0


From 20893210a0b7c6eabb59cdad044979b0ff9d3b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 089/102] fix: per-channel quantized group convolutions are
 rewritten with the scales of all of the groups

---
 tinynn/converter/operators/optimize.py | 27 ++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 37c3e33..9125ae6 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -2858,14 +2858,20 @@ class GraphOptimizer(object):
                 for arr in np.split(output_tensor.tensor, num_chunks, 3)
             ]
             weights = [
-                self.create_attr_tensor(arr, quantization=weight_tensor.quantization)
-                for arr in np.split(weight_tensor.tensor, num_chunks, 0)
+                self.create_attr_tensor(arr, quantization=q)
+                for arr, q in zip(
+                    np.split(weight_tensor.tensor, num_chunks, 0),
+                    split_quantization(weight_tensor.quantization, num_chunks, 0),
+                )
             ]
 
             if bias_tensor is not None:
                 biases = [
-                    self.create_attr_tensor(arr, quantization=bias_tensor.quantization)
-                    for arr in np.split(bias_tensor.tensor, num_chunks, 0)
+                    self.create_attr_tensor(arr, quantization=q)
+                    for arr, q in zip(
+                        np.split(bias_tensor.tensor, num_chunks, 0),
+                        split_quantization(bias_tensor.quantization, num_chunks, 0),
+                    )
                 ]
             else:
                 biases = [None] * num_chunks
@@ -3844,6 +3850,19 @@ def is_high_dim_transpose_node(vertex: ig.Vertex, graph_converter: ig.Graph, max
     return vertex['node_type'] == ExtendedOperator.TRANSPOSE and vertex['op'].inputs[1].tensor.size > max_transpose_dims
 
 
+def split_quantization(quantization, num_chunks, dim):
+    """Splits the quantization parameters of a tensor, which is split along the given dim"""
+    if quantization is None or quantization.dim != dim:
+        return [quantization] * num_chunks
+
+    return [
+        tfl.QuantizationParameters(scale.tolist(), zero_point.tolist(), dim)
+        for scale, zero_point in zip(
+            np.split(np.array(quantization.scale), num_chunks), np.split(np.array(quantization.zero_point), num_chunks)
+        )
+    ]
+
+
 def is_group_conv_node(vertex: ig.Vertex, graph_converter: ig.Graph):
     return (
         vertex['node_type'] == ExtendedOperator.CONV_2D
-- 
2.43.0


From ff07b14a94b09a9871195bd7c8f9a354ca08c4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:06 +0000
Subject: [PATCH 090/102] fix: inserting a node for an intermediate value that
 is a view fails after an inplace operation

---
 tinynn/graph/tracer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index 50f50c8..d499d6c 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -2753,7 +2753,7 @@ class TraceGraph(object):
             next_tensors = [None] * len(node.next_tensors)
         for t, new_t in zip(node.next_tensors, next_tensors):
             if new_t is None:
-                new_t = t.clone()
+                new_t = t.detach().clone()
             self.tensor_pre_node_dict[id(new_t)] = new_node.unique_name
             new_node.prev_tensors.append(t)
             new_node.next_tensors.append(new_t)
@@ -2804,7 +2804,7 @@ class TraceGraph(object):
         new_node = TraceNode(module_or_func, cur_graph=self)
 
         if next_tensors is None:
-            next_tensors = [t.clone() for t in prev_tensors]
+            next_tensors = [t.detach().clone() for t in prev_tensors]
 
         for new_t, new_i in zip(next_tensors, prev_indices):
             self.tensor_pre_node_dict[id(new_t)] = new_node.unique_name
@@ -2902,7 +2902,7 @@ class TraceGraph(object):
 
         for idx, (t, new_t, pidx) in enumerate(zip(prev_tensors, next_tensors, prev_indices)):
             if new_t is None:
-                new_t = t.clone()
+                new_t = t.detach().clone()
                 next_tensors[idx] = new_t
 
             self.tensor_pre_node_dict[id(new_t)] = new_node.unique_name
@@ -3025,7 +3025,7 @@ class TraceGraph(object):
                 next_indices = [None] * len(prev_tensors)
             for t, new_t, ind, n_ind in zip(prev_tensors, next_tensors, prev_indices, next_indices):
                 if new_t is None:
-                    new_t = t.clone()
+                    new_t = t.detach().clone()
                 self.tensor_pre_node_dict[id(new_t)] = new_node.unique_name
                 new_node.prev_tensors.append(t)
                 new_node.next_tensors.append(new_t)
-- 
2.43.0


From 4ab4aff95ea35c0bf74dcb64c50b73ac4323df87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:06 +0000
Subject: [PATCH 091/102] fix: quantized ELU with alpha is converted as if
 alpha were 1

---
 tinynn/converter/operators/torch/quantized.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tinynn/converter/operators/torch/quantized.py b/tinynn/converter/operators/torch/quantized.py
index fd73b5a..018af9d 100644
--- a/tinynn/converter/operators/torch/quantized.py
+++ b/tinynn/converter/operators/torch/quantized.py
@@ -420,6 +420,8 @@ class QuantizedEluOperator(QuantizedEluSchema):
 
         self.run(node)
 
+        assert self.input_tensors[3] == 1.0, "Only alpha == 1 is supported"
+
         # Only int8 kernel is supported
         if self.q_type == np.int8:
             self.elementwise_unary(tfl.EluOperator, graph_converter)
-- 
2.43.0


From ded304de69e7b6a627dca1ef8ae4405036d5fd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:06 +0000
Subject: [PATCH 092/102] fix: ReLU is lost while converting quantized batch
 norm with ReLU

---
 tinynn/converter/operators/torch/quantized.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/torch/quantized.py b/tinynn/converter/operators/torch/quantized.py
index 018af9d..482ab46 100644
--- a/tinynn/converter/operators/torch/quantized.py
+++ b/tinynn/converter/operators/torch/quantized.py
@@ -227,7 +227,11 @@ class QuantizedBatchNorm2dReluOperator(QuantizedBatchNorm2dReluSchema):
         outputs = self.to_tfl_tensors(self.output_names, self.output_tensors)
 
         ops = self.wrap_ops_with_dequant_quants(
-            [tfl.BatchNormOperator(inputs, outputs, eps, tfl_schema.ActivationFunctionType.RELU)]
+            [
+                tfl.BatchNormOperator(
+                    inputs, outputs, eps, fusedActivationFunction=tfl_schema.ActivationFunctionType.RELU
+                )
+            ]
         )
         for op in ops:
             graph_converter.add_operator(op)
-- 
2.43.0


From fcc88a39d77dfa74bb16bb6b88f1fc40990b394e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:07 +0000
Subject: [PATCH 093/102] fix: quantization parameters are lost while
 converting expand, repeat, flip, stack, indexing and pixel shuffle of
 quantized tensors

---
 tinynn/converter/operators/torch/aten.py | 36 ++++++++++++++++++------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index c649058..fd6366f 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -1404,7 +1404,9 @@ class ATenFlipOperator(ATenFlipSchema):
         else:
             actual_input = self.find_or_create_input(0, graph_converter)
             for dim in dims[:-1]:
-                transform = self.create_transform_tensor(np.flip(actual_input.tensor, dim))
+                transform = self.create_transform_tensor(
+                    np.flip(actual_input.tensor, dim), quantization=actual_input.quantization
+                )
                 dim_tensor = self.create_attr_tensor(np.array([dim], dtype='int32'))
                 graph_converter.add_operator(tfl.ReverseV2Operator([actual_input, dim_tensor], [transform]))
                 actual_input = transform
@@ -1751,7 +1753,9 @@ class ATenStackOperator(ATenStackSchema):
             ops.append(tfl.PackOperator(orig_inputs, outputs, len(orig_inputs), dim))
         else:
             inputs = [
-                self.create_transform_tensor(np.expand_dims(orig_inputs[i].tensor, dim))
+                self.create_transform_tensor(
+                    np.expand_dims(orig_inputs[i].tensor, dim), quantization=orig_inputs[i].quantization
+                )
                 for i in range(len(orig_inputs))
             ]
             attrs = [self.create_attr_tensor(np.array(t.shape, dtype='int32')) for t in inputs]
@@ -2807,7 +2811,9 @@ class ATenIndexOperator(ATenIndexSchema):
                 if i == len(filtered_dims) - 1:
                     actual_output = outputs[0]
                 else:
-                    actual_output = self.create_transform_tensor(np.take(actual_input.tensor, idx.tensor, axis=dim))
+                    actual_output = self.create_transform_tensor(
+                        np.take(actual_input.tensor, idx.tensor, axis=dim), quantization=actual_input.quantization
+                    )
 
                 graph_converter.add_operator(tfl.GatherOperator([actual_input, idx], [actual_output], axis=dim))
 
@@ -2889,7 +2895,9 @@ class ATenRepeatOperator(ATenRepeatSchema):
                 new_shape = [1] * (len(repeats) - len(input_shape)) + list(input_shape)
                 new_shape_arr = np.array(new_shape, dtype='int32')
                 new_shape_tensor = self.create_attr_tensor(new_shape_arr)
-                reshaped = self.create_transform_tensor(np.reshape(input_tensor.tensor, new_shape_arr))
+                reshaped = self.create_transform_tensor(
+                    np.reshape(input_tensor.tensor, new_shape_arr), quantization=input_tensor.quantization
+                )
                 actual_input = reshaped
                 ops.append(tfl.ReshapeOperator([input_tensor, new_shape_tensor], [reshaped], new_shape_arr))
             repeat_tensor = self.create_attr_tensor(np.array(repeats, dtype='int32'))
@@ -2948,7 +2956,9 @@ class ATenRepeatInterleaveOperator(ATenRepeatInterleaveSchema):
         if dim is None and len(input_tensor.shape) > 1:
             new_shape = (input_tensor.tensor.size,)
             shape_tensor = self.create_attr_tensor(np.array(new_shape, dtype='int32'))
-            actual_input = self.create_transform_tensor(np.reshape(input_tensor.tensor, new_shape))
+            actual_input = self.create_transform_tensor(
+                np.reshape(input_tensor.tensor, new_shape), quantization=input_tensor.quantization
+            )
             graph_converter.add_operator(tfl.ReshapeOperator([input_tensor, shape_tensor], [actual_input], new_shape))
 
         inputs = [actual_input, actual_indices]
@@ -3243,7 +3253,9 @@ class ATenPixelShuffleOperator(ATenPixelShuffleSchema):
         bs = upscale_factor
         perm = np.arange(c).reshape(c // (bs**2), bs, bs).transpose(1, 2, 0).flatten()
         if not np.array_equal(np.sort(perm), perm):
-            reordered = self.create_transform_tensor(ops[0].outputs[0].tensor[:, :, :, perm])
+            reordered = self.create_transform_tensor(
+                ops[0].outputs[0].tensor[:, :, :, perm], quantization=ops[0].outputs[0].quantization
+            )
             indices = self.create_attr_tensor(perm.astype('int32'))
             gather_op = tfl.GatherOperator([ops[0].outputs[0], indices], [reordered], axis=3)
             ops[1].inputs[0] = reordered
@@ -3277,7 +3289,9 @@ class ATenPixelUnshuffleOperator(ATenPixelUnshuffleSchema):
         bs = downscale_factor
         perm = np.arange(c * (bs**2)).reshape(bs, bs, c).transpose(2, 0, 1).flatten()
         if not np.array_equal(np.sort(perm), perm):
-            reordered = self.create_transform_tensor(ops[1].outputs[0].tensor[:, :, :, perm])
+            reordered = self.create_transform_tensor(
+                ops[1].outputs[0].tensor[:, :, :, perm], quantization=ops[1].outputs[0].quantization
+            )
             indices = self.create_attr_tensor(perm.astype('int32'))
             gather_op = tfl.GatherOperator([reordered, indices], [ops[1].outputs[0]], axis=3)
             ops.insert(2, gather_op)
@@ -3343,7 +3357,9 @@ class ATenExpandOperator(ATenExpandSchema):
                 new_shape = [1] * (len(output_shape) - len(input_shape)) + list(input_shape)
                 new_shape_arr = np.array(new_shape, dtype='int32')
                 new_shape_tensor = self.create_attr_tensor(new_shape_arr)
-                reshaped = self.create_transform_tensor(np.reshape(input_tensor.tensor, new_shape_arr))
+                reshaped = self.create_transform_tensor(
+                    np.reshape(input_tensor.tensor, new_shape_arr), quantization=input_tensor.quantization
+                )
                 actual_input = reshaped
                 reshape_op = tfl.ReshapeOperator([input_tensor, new_shape_tensor], [reshaped], new_shape_arr)
                 reshape_op.extra_hints['direction'] = 'up'
@@ -4674,7 +4690,9 @@ class ATenBroadcastTensorsOperator(ATenBroadcastTensorsSchema):
                 new_shape = [1] * (len(output_shape) - len(input_shape)) + list(input_shape)
                 new_shape_arr = np.array(new_shape, dtype='int32')
                 new_shape_tensor = self.create_attr_tensor(new_shape_arr)
-                reshaped = self.create_transform_tensor(np.reshape(inp.tensor, new_shape_arr))
+                reshaped = self.create_transform_tensor(
+                    np.reshape(inp.tensor, new_shape_arr), quantization=inp.quantization
+                )
                 actual_input = reshaped
                 reshape_op = tfl.ReshapeOperator([inp, new_shape_tensor], [reshaped], new_shape_arr)
                 reshape_op.extra_hints['direction'] = 'up'
-- 
2.43.0


From f79523f11aeb76b45d04bb01c0fc4c1731f7aabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:15 +0000
Subject: [PATCH 094/102] fix: bounds of quantized hardtanh are not quantized

---
 tinynn/converter/operators/torch/aten.py | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index fd6366f..2722a14 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -1264,24 +1264,7 @@ class ATenHardtanhOperator(ATenHardtanhSchema):
 
         self.run(node)
 
-        min_value, max_value = self.input_tensors[1:]
-        if min_value == 0 and max_value == 6:
-            self.elementwise_unary(tfl.Relu6Operator, graph_converter)
-        else:
-            ops = []
-            input_tensor = self.find_or_create_input(0, graph_converter)
-            inter_tensor = self.create_transform_tensor(
-                np.where(input_tensor.tensor > min_value, input_tensor.tensor, min_value)
-            )
-            min_value_tensor = self.create_attr_tensor(np.array([min_value], dtype=input_tensor.dtype))
-            ops.append(tfl.MaximumOperator([input_tensor, min_value_tensor], [inter_tensor]))
-
-            outputs = self.to_tfl_tensors(self.output_names, self.output_tensors)
-            max_value_tensor = self.create_attr_tensor(np.array([max_value], dtype=input_tensor.dtype))
-            ops.append(tfl.MinimumOperator([inter_tensor, max_value_tensor], outputs))
-
-            for op in ops:
-                graph_converter.add_operator(op)
+        ATenClampOperator.parse_common(self, node, attrs, args, graph_converter)
 
 
 class ATenSubOperator(ATenSubSchema):
@@ -2340,7 +2323,7 @@ class ATenClampOperator(ATenClampSchema):
         self.parse_common(node, attrs, args, graph_converter)
 
     def parse_common(self, node, attrs, args, graph_converter):
-        if type(self) is ATenClampOperator:
+        if type(self) in (ATenClampOperator, ATenHardtanhOperator):
             min_value, max_value = self.input_tensors[1:]
         elif type(self) is ATenClampMinOperator:
             min_value, max_value = self.input_tensors[1], None
-- 
2.43.0


From 70d57e0d1bec1e5288ca345d3beee84b90b2ca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:15 +0000
Subject: [PATCH 095/102] fix: quantized average pooling with
 count_include_pad=False fails without paddings

---
 tinynn/converter/operators/torch/aten.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index 2722a14..6a60a7a 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -1062,7 +1062,11 @@ class ATenAvgPool2dOperator(ATenAvgPool2dSchema):
         ops = self.wrap_ops_with_nhwc_nchw_transposes(ops)
         self.handle_padding(padding_h, padding_w, 1, ops, ceil_mode)
 
-        if not count_include_pad and divisor_override is None:
+        no_padding = padding_h == 0 and padding_w == 0 and not ceil_mode
+        if not count_include_pad and divisor_override is None and not no_padding:
+            assert not self.input_tensors[0].is_quantized, (
+                "count_include_pad=False is not supported for quantized average pooling with paddings"
+            )
             ones = torch.ones_like(self.input_tensors[0])
             if isinstance(self, ATenAvgPool1dOperator):
                 ones = ones.unsqueeze(-1)
-- 
2.43.0


From 47db07e41a8886fcfd98e1d0e185069a3770d4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 096/102] fix: the padding value of quantized tensors is
 quantized as uint8 and has no scale

---
 tinynn/converter/operators/torch/aten.py | 26 +++++++++++++++---------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index 6a60a7a..7b5f944 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -945,15 +945,18 @@ class ATenConstantPadNdOperator(ATenConstantPadNdSchema):
         outputs = self.to_tfl_tensors(self.output_names, self.output_tensors)
         if constant_value not in (0, 0.0):
             output = outputs[0]
+            constant_arr = np.array([constant_value], dtype='float32')
             if output.quantization is None:
-                constant_arr = np.array([constant_value], dtype='float32')
+                constant_tensor = self.create_attr_tensor(constant_arr)
             else:
-                float_arr = torch.tensor([constant_value], dtype=torch.float32)
-                constant_arr = torch.quantize_per_tensor(
-                    float_arr, output.quantization.scale, output.quantization.zero_point, torch.quint8
+                constant_tensor = self.create_attr_tensor(
+                    self.quantize_numpy(
+                        constant_arr, output.quantization.scale, output.quantization.zero_point, output.dtype
+                    ),
+                    quantization=output.quantization,
                 )
 
-            inputs.append(self.create_attr_tensor(constant_arr))
+            inputs.append(constant_tensor)
 
             graph_converter.add_operator(tfl.Padv2Operator(inputs, outputs))
         else:
@@ -4380,15 +4383,18 @@ class ATenPadOperator(ATenPadSchema):
         outputs = self.to_tfl_tensors(self.output_names, self.output_tensors)
         if constant_value not in (0, 0.0, None):
             output = outputs[0]
+            constant_arr = np.array([constant_value], dtype='float32')
             if output.quantization is None:
-                constant_arr = np.array([constant_value], dtype='float32')
+                constant_tensor = self.create_attr_tensor(constant_arr)
             else:
-                float_arr = torch.tensor([constant_value], dtype=torch.float32)
-                constant_arr = torch.quantize_per_tensor(
-                    float_arr, output.quantization.scale, output.quantization.zero_point, torch.quint8
+                constant_tensor = self.create_attr_tensor(
+                    self.quantize_numpy(
+                        constant_arr, output.quantization.scale, output.quantization.zero_point, output.dtype
+                    ),
+                    quantization=output.quantization,
                 )
 
-            inputs.append(self.create_attr_tensor(constant_arr))
+            inputs.append(constant_tensor)
 
             graph_converter.add_operator(op_cls_dict[mode][1](inputs, outputs))
         else:
-- 
2.43.0


From b4540f72332305312268a9bc98bab66bf80eb26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 097/102] fix: conversion fails on requantized values that are
 dequantized

---
 tinynn/converter/operators/optimize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 9125ae6..8114dd3 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -4266,6 +4266,7 @@ def is_dequant_quant_fusable_edge(edge: ig.Edge, graph_converter: ig.Graph, q_fi
     if q_first:
         cond = (
             source_vertex['node_type'] == ExtendedOperator.QUANTIZE
+            and source_vertex['op'].inputs[0].quantization is None
             and target_vertex['node_type'] == ExtendedOperator.DEQUANTIZE
         )
 
-- 
2.43.0


From 457b1fde04b6f4e6706f43753e7d3a7fd46fd30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 098/102] fix: rewrite_quantizable generates operators for DIV,
 SUM, MINIMUM and MAXIMUM that TFLite rejects or computes wrongly

---
 tinynn/converter/operators/optimize.py | 36 ++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 8114dd3..0baf2bb 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -1645,6 +1645,7 @@ class GraphOptimizer(object):
                     if (
                         node['node_type'] in (ExtendedOperator.MINIMUM, ExtendedOperator.MAXIMUM)
                         and i != 0
+                        and op.inputs[0].name in q_tensors
                         and prev_node_name not in self.graph.q_mapping
                     ):
                         f_tensor = self.graph.tensor_map[prev_node_name]
@@ -1669,6 +1670,21 @@ class GraphOptimizer(object):
                     if prev_node_name in self.graph.q_mapping:
                         skip_names.append(prev_node_name)
 
+            # There is no quantized kernel for DIV with floating-point constants
+            if node['node_type'] == ExtendedOperator.DIV and len(input_indices) < 2:
+                continue
+
+            # The inputs and the outputs of the quantized kernels for MINIMUM and MAXIMUM share the same scale
+            io_tensor = None
+            if node['node_type'] in (ExtendedOperator.MINIMUM, ExtendedOperator.MAXIMUM):
+                in_names = [op.inputs[i].name for i in input_indices]
+                in_tensors = [q_tensors.get(x, self.graph.q_mapping.get(x)) for x in in_names]
+                if any(x is None or x.quantization is None for x in in_tensors) or any(
+                    not is_same_scale(x, in_tensors[0]) for x in in_tensors
+                ):
+                    continue
+                io_tensor = in_tensors[0]
+
             next_nodes = []
             next_edges = []
             out_nodes = []
@@ -1688,14 +1704,22 @@ class GraphOptimizer(object):
                     name = next_node['op'].inputs[0].name
                     q_tensor = next_node['op'].outputs[0]
                     assert q_tensor.quantization is not None
-                    if node['node_type'] in (
+                    if io_tensor is not None:
+                        if q_tensor.dtype != io_tensor.dtype:
+                            skip = True
+                        elif not is_same_scale(q_tensor, io_tensor):
+                            q_tensor = self.create_transform_tensor(
+                                q_tensor.tensor, quantization=io_tensor.quantization
+                            )
+                    elif node['node_type'] in (
                         ExtendedOperator.BATCH_MATMUL,
                         ExtendedOperator.ABS,
                         ExtendedOperator.RSQRT,
                     ):
                         if q_tensor.dtype not in (np.dtype('int8'), np.dtype('int16')):
                             skip = True
-                    elif node['node_type'] == ExtendedOperator.DIV:
+                    elif node['node_type'] in (ExtendedOperator.DIV, ExtendedOperator.SUM):
+                        # The kernel for SUM reads int8 data as uint8 while requantizing
                         if q_tensor.dtype != np.dtype('uint8'):
                             skip = True
                     elif node['node_type'] == ExtendedOperator.SOFTMAX:
@@ -4057,6 +4081,14 @@ def is_elementwise_unary_op(op_code: ExtendedOperator, op: tfl.BaseOperator):
     ) or is_elementwise_reduce_op(op_code, op)
 
 
+def is_same_scale(tensor: tfl.Tensor, other: tfl.Tensor):
+    return (
+        tensor.dtype == other.dtype
+        and tensor.quantization.scale == other.quantization.scale
+        and tensor.quantization.zero_point == other.quantization.zero_point
+    )
+
+
 def is_quantizable_rewrite_op(op_code: ExtendedOperator, op: tfl.BaseOperator, with_lstm: bool):
     return op_code in (
         ExtendedOperator.BATCH_MATMUL,
-- 
2.43.0


From 4a74edc4bb5856cd55d09ed02f728d017ff836e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 099/102] fix: conversion fails on output nodes fused with
 dequantize nodes when the last operator is rewritten

---
 tinynn/converter/operators/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/graph.py b/tinynn/converter/operators/graph.py
index 95dc57c..b05155f 100644
--- a/tinynn/converter/operators/graph.py
+++ b/tinynn/converter/operators/graph.py
@@ -376,7 +376,8 @@ class CommonGraph(object):
                 ), f'next tensor name mismatches: {tensor_name} vs {next_tensor["name"]}'
                 self.graph.add_edge(connect_node, next_op, name=tensor_name, label=tensor_name)
             else:
-                assert next_tensor['name'].startswith(
+                # The name has no suffix if the output node was a dequantize node that got fused
+                assert next_tensor['name'] == tensor_name or next_tensor['name'].startswith(
                     tensor_name + '_output'
                 ), f'output tensor and node name mismatches: {tensor_name} vs {next_tensor["name"]}'
                 self.graph.add_edge(connect_node, next_op, name=next_tensor['name'], label=tensor_name)
-- 
2.43.0


From ff74ef2c1cc84d4eabe4ada27b5e230634d9b6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:51 +0000
Subject: [PATCH 100/102] fix: converting for the PyTorch backend removes the
 activation after an addition without replacement

---
 tinynn/graph/quantization/quantizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index bfe568b..8a3b715 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -1192,6 +1192,9 @@ class QATQuantizer(object):
         for quant_nodes in quant_list:
             if not _is_activ_requantized(quant_nodes[-1]):
                 continue
+            # The activation can't be dropped if there is nothing before it that takes over its range
+            if quant_nodes[0] not in rev_dict:
+                continue
             for orig_name in quant_nodes:
                 if orig_name in rev_dict:
                     new_mod, _ = graph.get_submodule_with_parent_from_name(orig_name, self.inplace)
-- 
2.43.0


From 4000db477a2feaf1fc848a71ea65850da3527c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:11 +0000
Subject: [PATCH 101/102] fix: converting for the PyTorch backend removes the
 activations of symmetric quantized models

---
 tinynn/graph/quantization/quantizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 8a3b715..8965b50 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -3386,7 +3386,8 @@ class QATQuantizer(object):
 
             setattr(q_model, dq_name, nn.Identity())
             setattr(q_model, q_name, nn.Identity())
-            if activ_name is not None:
+            # The negative values are not cut off by the range if it is symmetric
+            if activ_name is not None and self.asymmetric:
                 setattr(q_model, activ_name, nn.Identity())
 
         if type(self).__name__ == 'QATQuantizer':
-- 
2.43.0


From 56a01ae614c979eb33a6d3afe5fc7543058bcfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:47 +0000
Subject: [PATCH 102/102] fix: rewrite_quantizable skips sums of int8 tensors
 that need no requantization

---
 tinynn/converter/operators/optimize.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 0baf2bb..12018c4 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -1718,10 +1718,21 @@ class GraphOptimizer(object):
                     ):
                         if q_tensor.dtype not in (np.dtype('int8'), np.dtype('int16')):
                             skip = True
-                    elif node['node_type'] in (ExtendedOperator.DIV, ExtendedOperator.SUM):
-                        # The kernel for SUM reads int8 data as uint8 while requantizing
+                    elif node['node_type'] == ExtendedOperator.DIV:
                         if q_tensor.dtype != np.dtype('uint8'):
                             skip = True
+                    elif node['node_type'] == ExtendedOperator.SUM:
+                        # The kernel for SUM reads int8 data as uint8 while requantizing
+                        if q_tensor.dtype != np.dtype('uint8'):
+                            in_name = op.inputs[0].name
+                            in_tensor = q_tensors.get(in_name, self.graph.q_mapping.get(in_name))
+                            if (
+                                in_tensor is None
+                                or in_tensor.quantization is None
+                                or not is_same_scale(q_tensor, in_tensor)
+                                or q_tensor.quantization.zero_point != 0
+                            ):
+                                skip = True
                     elif node['node_type'] == ExtendedOperator.SOFTMAX:
                         if q_tensor.dtype == np.dtype('int8'):
                             if (
-- 
2.43.0

