From ebb7d4f8776f5d313081eae64fb7c74bfac61cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 01/33] fix: pad the spatial axes, not the channels, with
 data_format='channels_first'

GroupTransforms swallowed data_format, so its EquivariantPadding always
computed and applied padding as if the data were channels_last.
---
 groco/layers/group_transforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index d4d231c..3f3741f 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -53,6 +53,7 @@ class GroupTransforms:
             allow_non_equivariance=allow_non_equivariance,
             kernel_size=kernel_size,
             dimensions=dimensions,
+            data_format=data_format,
             transpose=transpose,
             **kwargs,
         )
-- 
2.43.0


From 5dce21e625a57ea366075241d98a05662dd053d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 02/33] fix: compute pooling padding with the default strides
 keras uses (pool_size)

Without explicit strides the padding was computed for stride 1, so no padding
was added (and no error raised) where the pooling windows do not fit evenly.
---
 groco/layers/pooling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 94bdcc4..1573c40 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -37,6 +37,9 @@ class GroupPooling(Layer):
         super().__init__()
 
         self.dimensions = dimensions
+        # as in keras, strides default to the pool size
+        if kwargs.get("strides") is None:
+            kwargs["strides"] = pool_size
         self.group_transforms = GroupTransforms(
             allow_non_equivariance=allow_non_equivariance,
             kernel_size=pool_size,
-- 
2.43.0


From c2dcb72183f970c8eca248c52cb362df2c8b58d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 03/33] fix: take the dilation rate into account when computing
 equivariant padding

---
 groco/layers/padding.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 80716c9..7cb4063 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -27,6 +27,7 @@ class EquivariantPadding(Layer):
         allow_non_equivariance: bool, whether to allow non-equivariant padding.
         data_format: string, one of 'channels_last', 'channels_first'.
         transpose: bool, whether the layer is a transposed convolution.
+        dilation_rate: int or tuple of int, the dilation rate of the convolution.
     """
 
     def __init__(
@@ -38,6 +39,7 @@ class EquivariantPadding(Layer):
         allow_non_equivariance=False,
         data_format="channels_last",
         transpose=False,
+        dilation_rate=1,
         **kwargs,
     ):
         self.padding_option = self.format_padding_option(padding)
@@ -57,6 +59,14 @@ class EquivariantPadding(Layer):
             else tuple(kernel_size for _ in range(self.dimensions)),
             "int32",
         )
+        # with dilation the kernel covers (kernel_size - 1) * dilation_rate + 1 pixels
+        dilation_rates = ops.cast(
+            dilation_rate
+            if isinstance(dilation_rate, tuple)
+            else tuple(dilation_rate for _ in range(self.dimensions)),
+            "int32",
+        )
+        self.kernel_sizes = (self.kernel_sizes - 1) * dilation_rates + 1
         self.data_format = data_format
         self.transpose = transpose
         # set during build
-- 
2.43.0


From dbfdc4f273df3a592185666714fb297a272446f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 04/33] fix: raise the intended padding ValueError for
 same_equiv

The message builder called a method that does not exist.
---
 groco/layers/padding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 7cb4063..aa0f23c 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -188,6 +188,6 @@ class EquivariantPadding(Layer):
             f"strides: {tuple(self.strides)},\n"
         )
         if self.padding_option == "SAME_EQUIV":
-            same_padding = self.compute_same_padding(spatial_shape)
+            same_padding = self.compute_built_in_padding(spatial_shape)
             message += f"built-in same padding: {tuple(same_padding)}"
         return message
-- 
2.43.0


From 708286220c9b2666ee2b0f1b8ed9f565a412663b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 05/33] fix: determine the equivariant padding from the actual
 input size

The padding was fixed by the first input's size, silently spoiling equivariance
for inputs of another size. It is now found per input, with plain integer
arithmetic so that this also works inside a traced call.
---
 groco/layers/padding.py | 66 ++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 37 deletions(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index aa0f23c..c4b1714 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -1,5 +1,6 @@
 from keras import ops
 from keras.layers import Layer
+import numpy as np
 
 
 class EquivariantPadding(Layer):
@@ -47,26 +48,12 @@ class EquivariantPadding(Layer):
 
         self.allow_non_equivariance = allow_non_equivariance
         self.dimensions = dimensions
-        self.strides = ops.cast(
-            strides
-            if isinstance(strides, tuple)
-            else tuple(strides for _ in range(self.dimensions)),
-            "int32",
-        )
-        self.kernel_sizes = ops.cast(
-            kernel_size
-            if isinstance(kernel_size, tuple)
-            else tuple(kernel_size for _ in range(self.dimensions)),
-            "int32",
+        self.strides = np.broadcast_to(np.array(strides, dtype="int32"), (self.dimensions,))
+        self.kernel_sizes = np.broadcast_to(
+            np.array(kernel_size, dtype="int32"), (self.dimensions,)
         )
         # with dilation the kernel covers (kernel_size - 1) * dilation_rate + 1 pixels
-        dilation_rates = ops.cast(
-            dilation_rate
-            if isinstance(dilation_rate, tuple)
-            else tuple(dilation_rate for _ in range(self.dimensions)),
-            "int32",
-        )
-        self.kernel_sizes = (self.kernel_sizes - 1) * dilation_rates + 1
+        self.kernel_sizes = (self.kernel_sizes - 1) * np.array(dilation_rate, dtype="int32") + 1
         self.data_format = data_format
         self.transpose = transpose
         # set during build
@@ -76,33 +63,38 @@ class EquivariantPadding(Layer):
         super().__init__()
 
     def call(self, inputs):
-        if self.needs_padding:
-            return ops.pad(inputs, self.equivariant_padding)
+        # the padding depends on the size of the inputs, which may not be the one built with
+        padding = self.find_padding(inputs.shape)
+        if padding is not None:
+            return ops.pad(inputs, padding)
         else:
             return inputs
 
     def build(self, input_shape):
+        self.equivariant_padding = self.find_padding(input_shape)
+        self.needs_padding = self.equivariant_padding is not None
+
+    def find_padding(self, input_shape):
+        """Return the padding that inputs of this shape need, None if they don't need any."""
         if self.padding_option in ["SAME", "VALID"] and self.allow_non_equivariance:
-            self.needs_padding = False
-            return
+            return None
 
         if self.data_format == "channels_last":
-            spatial_shape = ops.cast(input_shape[1 : 1 + self.dimensions], "int32")
+            spatial_shape = np.array(input_shape[1 : 1 + self.dimensions], dtype="int32")
         else:
-            spatial_shape = ops.cast(input_shape[2:], "int32")
+            spatial_shape = np.array(input_shape[2:], dtype="int32")
         extra_padding, total_padding = self.compute_equivariant_padding(spatial_shape)
 
-        self.needs_padding = ops.any(extra_padding != 0)
-        if not self.needs_padding:
-            return
+        if not np.any(extra_padding != 0):
+            return None
         elif self.padding_option in ["SAME", "VALID"]:
             raise self.non_equivariant_error(spatial_shape)
 
         # if the stride is even the padding can still be odd, no padding will maintain equivariance
-        if ops.any(total_padding % 2 != 0):
+        if np.any(total_padding % 2 != 0):
             raise self.padding_parity_error(spatial_shape)
 
-        self.equivariant_padding = self.split_padding(extra_padding)
+        return self.split_padding(extra_padding)
 
     def compute_equivariant_padding(self, spatial_shape):
         built_in_padding = self.compute_built_in_padding(spatial_shape)
@@ -111,12 +103,14 @@ class EquivariantPadding(Layer):
 
     def compute_built_in_padding(self, spatial_shape):
         if self.padding_option in ["SAME", "SAME_EQUIV"]:
-            return ops.relu(self.kernel_sizes - self.strides + (-spatial_shape % self.strides))
+            return np.maximum(
+                self.kernel_sizes - self.strides + (-spatial_shape % self.strides), 0
+            )
         else:
             if self.transpose:
-                return ops.relu(self.strides - self.kernel_sizes)
+                return np.maximum(self.strides - self.kernel_sizes, 0)
             else:
-                return ops.zeros_like(self.kernel_sizes)
+                return np.zeros_like(self.kernel_sizes)
 
     def compute_extra_padding(self, spatial_shape, built_in_padding):
         extra_padding = (-(spatial_shape + built_in_padding - self.kernel_sizes)) % self.strides
@@ -129,18 +123,16 @@ class EquivariantPadding(Layer):
     def split_padding(self, paddings):
         # add 0 at both ends, not to pad the batch and channel axes
         if self.data_format == "channels_last":
-            paddings = ops.pad(paddings, [[1, 1]])
+            paddings = np.pad(paddings, [[1, 1]])
         else:
-            paddings = ops.pad(paddings, [[2, 0]])
+            paddings = np.pad(paddings, [[2, 0]])
 
         # paddings may be odd if the 'same' paddings are too, must make sure to do this opposite to 'same' padding
         # to make the total padding the same on both sides
         pads_after = paddings // 2
         pads_before = paddings - pads_after
 
-        return ops.concatenate(
-            [ops.expand_dims(pads_before, axis=1), ops.expand_dims(pads_after, axis=1)], axis=1
-        )
+        return np.stack([pads_before, pads_after], axis=1).tolist()
 
     def get_config(self):
         return {
-- 
2.43.0


From 0c718ec55062a7f219682cedd8e8e0da0ef70841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 06/33] fix: pad transposed 'same_equiv' convolutions on the
 correct side

An odd extra padding compounded the asymmetric crop instead of cancelling it,
which broke equivariance for stride 1 with an even kernel size.
---
 groco/layers/padding.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index c4b1714..4578f44 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -131,6 +131,9 @@ class EquivariantPadding(Layer):
         # to make the total padding the same on both sides
         pads_after = paddings // 2
         pads_before = paddings - pads_after
+        # transposed 'same' convolutions crop their output the other way around
+        if self.transpose:
+            pads_before, pads_after = pads_after, pads_before
 
         return np.stack([pads_before, pads_after], axis=1).tolist()
 
-- 
2.43.0


From 6d28c46f9c4373c0c987eb357852f9bb99fb6783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 07/33] fix: let the padding follow the dtype policy of the
 layer it is part of

It cast its inputs to the global policy's dtype, so that convolutions with a
reduced precision `dtype` argument failed whenever called.
---
 groco/layers/padding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 4578f44..9c8b41b 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -41,6 +41,7 @@ class EquivariantPadding(Layer):
         data_format="channels_last",
         transpose=False,
         dilation_rate=1,
+        dtype=None,
         **kwargs,
     ):
         self.padding_option = self.format_padding_option(padding)
@@ -60,7 +61,7 @@ class EquivariantPadding(Layer):
         self.equivariant_padding = None
         self.needs_padding = None
 
-        super().__init__()
+        super().__init__(dtype=dtype)
 
     def call(self, inputs):
         # the padding depends on the size of the inputs, which may not be the one built with
-- 
2.43.0


From 4dbc638c4472be49525a06cc9bc7dbf50b5cdbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 08/33] fix: don't mix zero padding with built-in padding in
 same_equiv pooling

When the built-in 'same' padding is odd, zeros on one side were balanced by
built-in padding on the other. Pooling ignores the latter but not the former,
so the result was not equivariant.
---
 groco/layers/padding.py | 9 +++++++++
 groco/layers/pooling.py | 8 +++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 9c8b41b..e94592b 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -29,6 +29,8 @@ class EquivariantPadding(Layer):
         data_format: string, one of 'channels_last', 'channels_first'.
         transpose: bool, whether the layer is a transposed convolution.
         dilation_rate: int or tuple of int, the dilation rate of the convolution.
+        pooling: bool, whether the layer is a pooling layer, in which case if any extra padding
+            is needed this layer also does the built-in padding.
     """
 
     def __init__(
@@ -42,6 +44,7 @@ class EquivariantPadding(Layer):
         transpose=False,
         dilation_rate=1,
         dtype=None,
+        pooling=False,
         **kwargs,
     ):
         self.padding_option = self.format_padding_option(padding)
@@ -57,6 +60,7 @@ class EquivariantPadding(Layer):
         self.kernel_sizes = (self.kernel_sizes - 1) * np.array(dilation_rate, dtype="int32") + 1
         self.data_format = data_format
         self.transpose = transpose
+        self.pooling = pooling
         # set during build
         self.equivariant_padding = None
         self.needs_padding = None
@@ -95,6 +99,11 @@ class EquivariantPadding(Layer):
         if np.any(total_padding % 2 != 0):
             raise self.padding_parity_error(spatial_shape)
 
+        # unlike in convolutions, built-in padding of pooling layers is not equivalent to zeros,
+        # so mixing the two would not be symmetric
+        if self.pooling:
+            extra_padding = total_padding
+
         return self.split_padding(extra_padding)
 
     def compute_equivariant_padding(self, spatial_shape):
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 1573c40..cd3d17c 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -1,3 +1,5 @@
+import math
+
 from keras import ops
 from keras.layers import (
     AveragePooling1D,
@@ -59,11 +61,15 @@ class GroupPooling(Layer):
         else:
             pool_layer = MaxPooling3D if self.pool_type == "max" else AveragePooling3D
         self.pooling = pool_layer(pool_size=pool_size, **kwargs)
+        # for inputs that have already been fully padded
+        self.padded_pooling = pool_layer(pool_size=pool_size, **{**kwargs, "padding": "valid"})
 
     def call(self, inputs):
         inputs = self.group_transforms.subgroup_pooling(inputs, self.pool_type)
+        unpadded_size = math.prod(inputs.shape[1:])
         inputs = self.group_transforms.merge_group_axis_and_pad(inputs)
-        outputs = self.pooling(inputs)
+        is_padded = math.prod(inputs.shape[1:]) != unpadded_size
+        outputs = self.padded_pooling(inputs) if is_padded else self.pooling(inputs)
         return self.group_transforms.restore_group_axis(outputs)
 
     def build(self, input_shape):
-- 
2.43.0


From 62ed7d9802ea890b91970486a94575589b4789c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 09/33] fix: compute the output shape of group convolutions
 correctly

It had the full group's order rather than that of the acting subgroup in the
group axis, ignored the equivariant padding, and ignored its argument.
---
 groco/layers/conv2d.py           |  2 +-
 groco/layers/conv2d_transpose.py |  2 +-
 groco/layers/conv3d.py           |  2 +-
 groco/layers/conv3d_transpose.py |  2 +-
 groco/layers/group_transforms.py | 17 +++++++++++++++--
 5 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/groco/layers/conv2d.py b/groco/layers/conv2d.py
index 60dc8b9..53ce14d 100644
--- a/groco/layers/conv2d.py
+++ b/groco/layers/conv2d.py
@@ -81,7 +81,7 @@ class GroupConv2D(Conv2D):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
+        input_shape_merged = self.group_transforms.merge_and_pad_shape(input_shape)
         output_shape = super().compute_output_shape(input_shape_merged)
         return self.group_transforms.correct_output_shape(output_shape)
 
diff --git a/groco/layers/conv2d_transpose.py b/groco/layers/conv2d_transpose.py
index b5c12e6..38ec504 100644
--- a/groco/layers/conv2d_transpose.py
+++ b/groco/layers/conv2d_transpose.py
@@ -79,6 +79,6 @@ class GroupConv2DTranspose(Conv2DTranspose):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
+        input_shape_merged = self.group_transforms.merge_and_pad_shape(input_shape)
         output_shape = super().compute_output_shape(input_shape_merged)
         return self.group_transforms.correct_output_shape(output_shape)
diff --git a/groco/layers/conv3d.py b/groco/layers/conv3d.py
index edb1485..86892c4 100644
--- a/groco/layers/conv3d.py
+++ b/groco/layers/conv3d.py
@@ -81,7 +81,7 @@ class GroupConv3D(Conv3D):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
+        input_shape_merged = self.group_transforms.merge_and_pad_shape(input_shape)
         output_shape = super().compute_output_shape(input_shape_merged)
         return self.group_transforms.correct_output_shape(output_shape)
 
diff --git a/groco/layers/conv3d_transpose.py b/groco/layers/conv3d_transpose.py
index 2445d47..6719dd6 100644
--- a/groco/layers/conv3d_transpose.py
+++ b/groco/layers/conv3d_transpose.py
@@ -85,6 +85,6 @@ class GroupConv3DTranspose(Conv3DTranspose):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
+        input_shape_merged = self.group_transforms.merge_and_pad_shape(input_shape)
         output_shape = super().compute_output_shape(input_shape_merged)
         return self.group_transforms.correct_output_shape(output_shape)
diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 3f3741f..71b175a 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -215,11 +215,24 @@ class GroupTransforms:
 
         return indices
 
+    def merge_and_pad_shape(self, input_shape):
+        """The shape of inputs with the given shape after `merge_group_axis_and_pad`."""
+        shape = list(input_shape)
+        if len(shape) == self.dimensions + 3:
+            channels_axis = 1 if self.data_format == "channels_first" else self.dimensions + 2
+            shape = utils.merge_shapes(shape, self.group_axis, channels_axis)
+        padding = self.equivariant_padding.find_padding(shape)
+        if padding is not None:
+            shape = [s if sum(p) == 0 else s + sum(p) for s, p in zip(shape, padding)]
+        return tuple(shape)
+
     def correct_output_shape(self, output_shape):
         """Insert the group axis in the correct place."""
         output_shape = list(output_shape)
-        return (
-            output_shape[: self.group_axis] + [self.group.order] + output_shape[self.group_axis :]
+        return tuple(
+            output_shape[: self.group_axis]
+            + [len(self.group.subgroup[self.acting_group])]
+            + output_shape[self.group_axis :]
         )
 
     def get_config(self):
-- 
2.43.0


From ff773b8a390dde487edfaa3fb9767e55dc472a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:48 +0000
Subject: [PATCH 10/33] fix: restore layer attributes after failing calls and
 with concurrent calls

---
 groco/utils/misc.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/groco/utils/misc.py b/groco/utils/misc.py
index 992e9e1..0e0f1f1 100644
--- a/groco/utils/misc.py
+++ b/groco/utils/misc.py
@@ -1,15 +1,26 @@
+from functools import wraps
+from threading import RLock
+
+
 def backup_and_restore(attribute_names):
     """
     Decorator that backs up given attributes, runs the function, and then restores the backed up values.
+
+    The values are restored even if the function fails, and concurrent calls wait for each other,
+    so none of them sees, or backs up, the values temporarily set by another.
     """
+    lock = RLock()
 
     def decorator(function):
+        @wraps(function)
         def wrapper(self, inputs):
-            backup = {name: getattr(self, name) for name in attribute_names}
-            result = function(self, inputs)
-            for name in attribute_names:
-                setattr(self, name, backup[name])
-            return result
+            with lock:
+                backup = {name: getattr(self, name) for name in attribute_names}
+                try:
+                    return function(self, inputs)
+                finally:
+                    for name in attribute_names:
+                        setattr(self, name, backup[name])
 
         return wrapper
 
-- 
2.43.0


From acb633698905adcf21ef76b4033edcf3b1ad258a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:48 +0000
Subject: [PATCH 11/33] fix: accept subgroup=None, the documented default

---
 groco/layers/group_transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 71b175a..0f7137a 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -44,7 +44,7 @@ class GroupTransforms:
         self.separable = separable
 
         self.group = group if isinstance(group, Group) else group_dict[group]
-        self.subgroup = group_dict[self.group.parse_subgroup(subgroup)]
+        self.subgroup = group_dict[self.group.parse_subgroup(subgroup or "")]
         self.domain_group, self.acting_group = self.group.name, self.subgroup.name
         if transpose:
             self.domain_group, self.acting_group = self.acting_group, self.domain_group
-- 
2.43.0


From 7cd90fde5cb3aedff35617085ebd5dbe903b9428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:48 +0000
Subject: [PATCH 12/33] fix: add the missing subgroup P2 of P2MM

---
 groco/groups/wallpaper_groups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/groco/groups/wallpaper_groups.py b/groco/groups/wallpaper_groups.py
index f209b73..e41c8fe 100644
--- a/groco/groups/wallpaper_groups.py
+++ b/groco/groups/wallpaper_groups.py
@@ -148,8 +148,8 @@ P2MM = Group(
     order=4,
     inverses=[0, 1, 2, 3],
     composition=[[0, 1, 2, 3], [1, 0, 3, 2], [2, 3, 0, 1], [3, 2, 1, 0]],
-    subgroup={"P2MM": [0, 1, 2, 3], "PMh": [0, 2], "PMw": [0, 1], "P1": [0]},
-    cosets={"P2MM": [0], "PMh": [0, 1], "PMw": [0, 2], "P1": [0, 1, 2, 3]},
+    subgroup={"P2MM": [0, 1, 2, 3], "PMh": [0, 2], "PMw": [0, 1], "P2": [0, 3], "P1": [0]},
+    cosets={"P2MM": [0], "PMh": [0, 1], "PMw": [0, 2], "P2": [0, 1], "P1": [0, 1, 2, 3]},
     action=P2MM_action,
 )
 PMh = Group(
-- 
2.43.0


From 03f21f6e5e5c3580a6db1788d31c9dc75047b2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:48 +0000
Subject: [PATCH 13/33] fix: use all of the spatial_axes in the action of Oh,
 not just the first

---
 groco/groups/space_groups.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/groco/groups/space_groups.py b/groco/groups/space_groups.py
index 7748923..e6483d3 100644
--- a/groco/groups/space_groups.py
+++ b/groco/groups/space_groups.py
@@ -10,13 +10,12 @@ Oh_parameters = list(itertools.product(Oh_permutation_tuples, Oh_flip_axes))
 
 
 def Oh_action(signal, spatial_axes=(0, 1, 2), new_group_axis=3):
-    offset = spatial_axes[0]
-    prefix = tuple(range(offset))
-    suffix = tuple(range(offset + 3, ops.ndim(signal)))
-    Oh_params = [
-        (prefix + tuple(p + offset for p in perm) + suffix, [f + offset for f in flip])
-        for (perm, flip) in Oh_parameters
-    ]
+    Oh_params = []
+    for perm, flip in Oh_parameters:
+        axes = list(range(ops.ndim(signal)))
+        for axis, p in zip(spatial_axes, perm):
+            axes[axis] = spatial_axes[p]
+        Oh_params.append((axes, [spatial_axes[f] for f in flip]))
     transformed_signals = []
     for perm, flip in Oh_params:
         transformed_signal = signal
-- 
2.43.0


From f29637c2c0502523bd8d8b75f1b83b7798655cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:04 +0000
Subject: [PATCH 14/33] fix: support negative axes in group actions

---
 groco/groups/group.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/groco/groups/group.py b/groco/groups/group.py
index 8a6e856..8355c77 100644
--- a/groco/groups/group.py
+++ b/groco/groups/group.py
@@ -72,6 +72,13 @@ class Group:
         Returns:
             Tensor of the signal acted on by the group.
         """
+        ndim = len(signal.shape)
+        spatial_axes = tuple(axis + ndim if axis < 0 else axis for axis in spatial_axes)
+        if new_group_axis < 0:
+            new_group_axis += ndim + 1  # the output has an extra axis
+        if group_axis is not None and group_axis < 0:
+            group_axis += ndim
+
         acting_group, domain_group = self.parse_subgroups(acting_group, domain_group)
         action = self._action_on_group if domain_group else self._action_on_grid
         signal = action(
@@ -135,6 +142,8 @@ class Group:
         return signal
 
     def upsample(self, signal, group_axis, domain_group):
+        if group_axis < 0:
+            group_axis += len(signal.shape)
         domain_group_indices = self.subgroup[domain_group]
         zeros = ops.zeros(
             shape=signal.shape[:group_axis] + (1,) + signal.shape[group_axis + 1 :],
-- 
2.43.0


From 2c10f7c45f31c497c228ccde23cf2f870411ceec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:04 +0000
Subject: [PATCH 15/33] fix: handle a mix of positive and negative axes in
 move_axis_to_left_of

---
 groco/utils/tensor_manips.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/groco/utils/tensor_manips.py b/groco/utils/tensor_manips.py
index 20d41cc..677f1ab 100644
--- a/groco/utils/tensor_manips.py
+++ b/groco/utils/tensor_manips.py
@@ -32,6 +32,9 @@ def move_axis_to_left_of(tensor: KerasTensor, moved_axis: int, target_axis: int)
     Returns:
         The tensor with its axes moved.
     """
+    ndim = len(tensor.shape)
+    moved_axis = moved_axis + ndim if moved_axis < 0 else moved_axis
+    target_axis = target_axis + ndim if target_axis < 0 else target_axis
     # in this case after removing moved_axis, target_axis shifts left by one
     if moved_axis < target_axis:
         target_axis -= 1
-- 
2.43.0


From 57eec4c0ddf2d5fab18ee89ecc892abdff8f2fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 16/33] fix: use zeros outside of the subgroup in the kernel of
 transposed convolutions

---
 groco/layers/group_transforms.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 0f7137a..0b9c61e 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -101,7 +101,9 @@ class GroupTransforms:
         (height, width, domain_group.order * channels_in, channels_out) ->
         (height, width, domain_group.order * channels_in, acting_group.order * channels_out)
         """
-        return ops.take(ops.reshape(kernel, [-1]), indices=self._transformed_kernel_indices, axis=0)
+        # index 0 is reserved for the zeros outside of the domain group
+        flat_kernel = ops.pad(ops.reshape(kernel, [-1]), [[1, 0]])
+        return ops.take(flat_kernel, indices=self._transformed_kernel_indices, axis=0)
 
     def restore_group_axis(self, outputs):
         """
@@ -181,7 +183,8 @@ class GroupTransforms:
         if self.transpose:
             kernel = ops.swapaxes(kernel, -1, -2)
 
-        indices = utils.get_index_tensor(kernel)
+        # index 0 is reserved for the zeros outside of the domain group
+        indices = utils.get_index_tensor(kernel) + 1
 
         kwargs = {
             "new_group_axis": self.dimensions,
-- 
2.43.0


From 41b70044b23849dce0883e469dfdf358a0d43c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 17/33] fix: accept upper case valid_equiv and same_equiv, like
 other padding options

---
 groco/layers/padding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index e94592b..4f438de 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -48,7 +48,7 @@ class EquivariantPadding(Layer):
         **kwargs,
     ):
         self.padding_option = self.format_padding_option(padding)
-        self.built_in_padding_option = padding[:-6] if padding.endswith("_equiv") else padding
+        self.built_in_padding_option = self.padding_option.removesuffix("_EQUIV").lower()
 
         self.allow_non_equivariance = allow_non_equivariance
         self.dimensions = dimensions
-- 
2.43.0


From ffb3ecd09f319b8ed0b8cc3602f78d9239361e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 18/33] fix: default to the data_format of the keras config,
 like the underlying keras layers

---
 groco/layers/group_transforms.py | 5 +++--
 groco/layers/pooling.py          | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 0b9c61e..56d6687 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -1,4 +1,4 @@
-from keras import ops
+from keras import config, ops
 from keras.layers import Layer
 
 from groco import utils
@@ -30,7 +30,7 @@ class GroupTransforms:
         group,
         kernel_size,
         dimensions: int,
-        data_format="channels_last",
+        data_format=None,
         allow_non_equivariance: bool = False,
         subgroup="",
         transpose=False,
@@ -39,6 +39,7 @@ class GroupTransforms:
     ):
         super().__init__()
 
+        data_format = data_format or config.image_data_format()
         self.dimensions = dimensions
         self.transpose = transpose
         self.separable = separable
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index cd3d17c..289ec9b 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -100,7 +100,7 @@ class GlobalGroupPooling(Layer):
             pool_layer = GlobalMaxPooling3D if self.pool_type == "max" else GlobalAveragePooling3D
         self.pooling = pool_layer(**kwargs)
 
-        if "data_format" in kwargs and kwargs["data_format"] == "channels_first":
+        if self.pooling.data_format == "channels_first":
             self.group_axis = self.dimensions + 2
             self.channels_axis = 1
         else:
-- 
2.43.0


From 26866e1d23b8eae1f35ff4245904aabbd39a980b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:20 +0000
Subject: [PATCH 19/33] fix: keep the channel groups of convolutions with
 groups > 1 separate from the point group

---
 groco/layers/group_transforms.py | 34 ++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 56d6687..b5cad3e 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -1,5 +1,6 @@
 from keras import config, ops
 from keras.layers import Layer
+import numpy as np
 
 from groco import utils
 from groco.groups import Group, group_dict
@@ -35,6 +36,7 @@ class GroupTransforms:
         subgroup="",
         transpose=False,
         separable=False,
+        groups=1,
         **kwargs,
     ):
         super().__init__()
@@ -43,6 +45,7 @@ class GroupTransforms:
         self.dimensions = dimensions
         self.transpose = transpose
         self.separable = separable
+        self.groups = groups
 
         self.group = group if isinstance(group, Group) else group_dict[group]
         self.subgroup = group_dict[self.group.parse_subgroup(subgroup or "")]
@@ -64,6 +67,8 @@ class GroupTransforms:
         # axes refer to input
         self.channels_axis = 1 if self.data_format == "channels_first" else self.dimensions + 1
         self.group_axis = self.dimensions + 1 + (self.data_format == "channels_first")
+        # the channels axis once the group axis is merged with it
+        self.merged_axis = self.channels_axis
 
         # set during build
         self.group_valued_input = None
@@ -87,6 +92,8 @@ class GroupTransforms:
             inputs = utils.merge_axes(
                 inputs, merged_axis=self.group_axis, target_axis=self.channels_axis
             )
+            if self.groups > 1:
+                inputs = self._exchange_channels(inputs, self.domain_group, axis=self.merged_axis)
         inputs = self.equivariant_padding(inputs)
         return inputs
 
@@ -118,10 +125,28 @@ class GroupTransforms:
         if self.group_valued_input and self.data_format == "channels_last":
             group_channels_axis -= 1
         factor = len(self.group.subgroup[self.acting_group])
+        if self.groups > 1:
+            outputs = self._exchange_channels(
+                outputs, self.acting_group, axis=self.merged_axis, restore=True
+            )
         out = utils.split_axes(outputs, left_size=factor, right_axis=group_channels_axis)
         out = ops.moveaxis(out, group_channels_axis, self.group_axis)
         return out
 
+    def _exchange_channels(self, tensor, point_group: str, axis: int, restore=False):
+        """
+        With `groups` > 1, exchange the order of the point group and the channel groups within the
+        merged channels, as the underlying layer has the channel groups as the slowest index:
+        (point_group.order, groups, channels // groups) ->
+        (groups, point_group.order, channels // groups)
+
+        If `restore`, do the inverse.
+        """
+        size, order = tensor.shape[axis], len(self.group.subgroup[point_group])
+        shape = (self.groups, order, -1) if restore else (order, self.groups, -1)
+        indices = np.reshape(np.swapaxes(np.reshape(np.arange(size), shape), 0, 1), -1)
+        return ops.take(tensor, indices=indices, axis=axis)
+
     def subgroup_pooling(self, inputs, pool_type: str):
         """
         Pool in the group direction, over a set of coset representatives, keeping the subgroup.
@@ -150,6 +175,11 @@ class GroupTransforms:
                 f"expected {order}."
             )
 
+            if input_shape[self.channels_axis] % self.groups != 0:
+                raise ValueError(
+                    f"The number of input channels, {input_shape[self.channels_axis]}, "
+                    f"is not divisible by groups={self.groups}."
+                )
             reshaped_input = utils.merge_shapes(
                 input_shape, merged_axis=self.group_axis, target_axis=self.channels_axis
             )
@@ -175,6 +205,8 @@ class GroupTransforms:
         indices = utils.get_index_tensor(bias)
         order = len(self.group.subgroup[self.acting_group])
         indices = ops.concatenate([indices for _ in range(order)], axis=0)
+        if self.groups > 1:
+            indices = self._exchange_channels(indices, self.acting_group, axis=-1)
         return indices
 
     def _compute_transformed_kernel_indices(self, kernel):
@@ -213,6 +245,8 @@ class GroupTransforms:
         # Merge the acting group axis with the out_channel axis, resulting in shape:
         # (*spatial, domain_group.order * in_channels, acting_group.order * out_channels)
         indices = utils.merge_axes(indices, merged_axis=-3, target_axis=-1)
+        if self.groups > 1:
+            indices = self._exchange_channels(indices, self.acting_group, axis=-1)
 
         if self.transpose:
             indices = ops.swapaxes(indices, -1, -2)
-- 
2.43.0


From c81d19aeb7312d756947b61a93a17c6edf483e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 20/33] fix: don't silently spoil equivariance with different
 sizes on axes mixed by the group

---
 groco/layers/group_transforms.py | 28 ++++++++++++++++++++++++++++
 groco/layers/padding.py          |  5 ++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index b5cad3e..404970b 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -186,8 +186,36 @@ class GroupTransforms:
         else:
             reshaped_input = input_shape
         self.reshaped_input = reshaped_input
+        self._check_axes_treated_equally()
         self.equivariant_padding.build(reshaped_input)
 
+    def _check_axes_treated_equally(self):
+        """Spatial axes that the group mixes need the same kernel size, strides and dilation rate."""
+        padding = self.equivariant_padding
+        sizes = list(zip(padding.kernel_sizes, padding.strides, padding.dilation_rates))
+        if padding.allow_non_equivariance or len(set(sizes)) == 1:
+            return
+        point_group = self.subgroup.name if self.group_valued_input else self.acting_group
+        # these are distinct per axis, but symmetric in reflections
+        squares = [(x - 1) ** 2 for x in np.indices((3,) * self.dimensions)]
+        for axis, square in enumerate(squares):
+            transformed_squares = self.group.action(
+                ops.convert_to_tensor(square),
+                spatial_axes=tuple(range(self.dimensions)),
+                acting_group=point_group,
+                domain_group=None,
+            )
+            for transformed_square in ops.convert_to_numpy(transformed_squares):
+                for other_axis, other_square in enumerate(squares):
+                    is_mixed = np.array_equal(transformed_square, other_square)
+                    if is_mixed and sizes[axis] != sizes[other_axis]:
+                        raise ValueError(
+                            f"Group {point_group} mixes spatial axes {axis} and {other_axis}, their "
+                            "kernel/pool sizes, strides and dilation rates should be the same.\n"
+                            "If you insist on breaking equivariance, use "
+                            "`allow_non_equivariance=True`."
+                        )
+
     def build_conv(self, kernel, bias, use_bias):
         if use_bias:
             self._repeated_bias_indices = self._compute_repeated_bias_indices(bias)
diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 4f438de..c8c8615 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -56,8 +56,11 @@ class EquivariantPadding(Layer):
         self.kernel_sizes = np.broadcast_to(
             np.array(kernel_size, dtype="int32"), (self.dimensions,)
         )
+        self.dilation_rates = np.broadcast_to(
+            np.array(dilation_rate, dtype="int32"), (self.dimensions,)
+        )
         # with dilation the kernel covers (kernel_size - 1) * dilation_rate + 1 pixels
-        self.kernel_sizes = (self.kernel_sizes - 1) * np.array(dilation_rate, dtype="int32") + 1
+        self.kernel_sizes = (self.kernel_sizes - 1) * self.dilation_rates + 1
         self.data_format = data_format
         self.transpose = transpose
         self.pooling = pooling
-- 
2.43.0


From 745395cfde6021cecf88109d68145370901c5828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 21/33] fix: reject inputs to group pooling layers that are not
 signals on the group

---
 groco/layers/pooling.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 289ec9b..7e44ea3 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -11,6 +11,7 @@ from keras.layers import (
     GlobalMaxPooling1D,
     GlobalMaxPooling2D,
     GlobalMaxPooling3D,
+    InputSpec,
     Layer,
     MaxPooling1D,
     MaxPooling2D,
@@ -74,6 +75,15 @@ class GroupPooling(Layer):
 
     def build(self, input_shape):
         self.group_transforms.build(input_shape)
+        if not self.group_transforms.group_valued_input:
+            raise ValueError(
+                f"Expected a signal on the group, with {self.dimensions + 3} axes, "
+                f"got input shape {input_shape}."
+            )
+        group_axis = self.group_transforms.group_axis
+        self.input_spec = InputSpec(
+            ndim=self.dimensions + 3, axes={group_axis: input_shape[group_axis]}
+        )
         self.pooling.build(self.group_transforms.reshaped_input)
         self.group_transforms.build_pool()
 
@@ -125,12 +135,17 @@ class GlobalGroupPooling(Layer):
             return outputs
 
     def build(self, input_shape):
-        if len(input_shape) == self.dimensions + 3:
-            reshaped_input = utils.merge_shapes(
-                input_shape,
-                merged_axis=self.group_axis,
-                target_axis=self.channels_axis,
+        if len(input_shape) != self.dimensions + 3:
+            raise ValueError(
+                f"Expected a signal on the group, with {self.dimensions + 3} axes, "
+                f"got input shape {input_shape}."
             )
+        self.input_spec = InputSpec(ndim=self.dimensions + 3)
+        reshaped_input = utils.merge_shapes(
+            input_shape,
+            merged_axis=self.group_axis,
+            target_axis=self.channels_axis,
+        )
         self.pooling.build(reshaped_input)
 
     def get_config(self):
-- 
2.43.0


From c431cc355e8ffdc4033d404a5c0248ebe15e5529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 22/33] fix: make the configuration of all layers complete and
 serializable

---
 groco/layers/group_transforms.py |  9 ++++++---
 groco/layers/padding.py          | 26 ++++++++++++++++++--------
 groco/layers/pooling.py          | 14 ++++++++++++--
 3 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 404970b..56e272d 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -302,9 +302,12 @@ class GroupTransforms:
         )
 
     def get_config(self):
-        config = {"group": self.group, "subgroup": self.subgroup.name}
-        config.update(self.equivariant_padding.get_config())
-        return config
+        return {
+            "group": self.group.name,
+            "subgroup": self.subgroup.name,
+            "padding": self.equivariant_padding.padding_option.lower(),
+            "allow_non_equivariance": self.equivariant_padding.allow_non_equivariance,
+        }
 
     def prepare_call(self, kernel, bias, filters, inputs, use_bias):
         inputs = self.merge_group_axis_and_pad(inputs)
diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index c8c8615..675a4f0 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -44,6 +44,7 @@ class EquivariantPadding(Layer):
         transpose=False,
         dilation_rate=1,
         dtype=None,
+        name=None,
         pooling=False,
         **kwargs,
     ):
@@ -68,7 +69,7 @@ class EquivariantPadding(Layer):
         self.equivariant_padding = None
         self.needs_padding = None
 
-        super().__init__(dtype=dtype)
+        super().__init__(dtype=dtype, name=name)
 
     def call(self, inputs):
         # the padding depends on the size of the inputs, which may not be the one built with
@@ -151,13 +152,22 @@ class EquivariantPadding(Layer):
         return np.stack([pads_before, pads_after], axis=1).tolist()
 
     def get_config(self):
-        return {
-            "kernel_size": self.kernel_size,
-            "strides": self.strides,
-            "padding": self.padding,
-            "allow_non_equivariance": self.allow_non_equivariance,
-            "dimensions": self.dimensions,
-        }
+        config = super().get_config()
+        undilated_kernel_sizes = (self.kernel_sizes - 1) // self.dilation_rates + 1
+        config.update(
+            {
+                "kernel_size": undilated_kernel_sizes.tolist(),
+                "dimensions": self.dimensions,
+                "strides": self.strides.tolist(),
+                "padding": self.padding_option.lower(),
+                "allow_non_equivariance": self.allow_non_equivariance,
+                "data_format": self.data_format,
+                "transpose": self.transpose,
+                "dilation_rate": self.dilation_rates.tolist(),
+                "pooling": self.pooling,
+            }
+        )
+        return config
 
     @staticmethod
     def format_padding_option(padding_option):
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 7e44ea3..12ad115 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -22,6 +22,14 @@ from groco import utils
 from groco.layers.group_transforms import GroupTransforms
 
 
+def _pop_layer_arguments(kwargs):
+    """
+    The arguments of the layer itself, as opposed to its pooling layer. The dtype is for both.
+    """
+    names = [name for name in ("name", "trainable") if name in kwargs]
+    return {"dtype": kwargs.get("dtype"), **{name: kwargs.pop(name) for name in names}}
+
+
 class GroupPooling(Layer):
     """
     Base group pooling layer. Only meant to be subclassed.
@@ -37,7 +45,7 @@ class GroupPooling(Layer):
         pool_size=2,
         **kwargs
     ):
-        super().__init__()
+        super().__init__(**_pop_layer_arguments(kwargs))
 
         self.dimensions = dimensions
         # as in keras, strides default to the pool size
@@ -89,6 +97,7 @@ class GroupPooling(Layer):
 
     def get_config(self):
         config = self.pooling.get_config()
+        config.update(super().get_config())
         config.update(self.group_transforms.get_config())
         return config
 
@@ -99,7 +108,7 @@ class GlobalGroupPooling(Layer):
     """
 
     def __init__(self, dimensions: int, pool_type: str, **kwargs):
-        super().__init__()
+        super().__init__(**_pop_layer_arguments(kwargs))
         self.dimensions = dimensions
         self.pool_type = pool_type
         if self.dimensions == 1:
@@ -150,6 +159,7 @@ class GlobalGroupPooling(Layer):
 
     def get_config(self):
         config = self.pooling.get_config()
+        config.update(super().get_config())
         return config
 
 
-- 
2.43.0


From ab63171ce2405664a323c2ad78716dec329977c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:13 +0000
Subject: [PATCH 23/33] fix: don't scramble input and output channels of the
 kernel in transposed convolutions

---
 groco/layers/group_transforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 56e272d..c9d04da 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -241,12 +241,12 @@ class GroupTransforms:
         """
         Compute a tensor of indices used to gather from the kernel to produce the group action on it.
         """
-        if self.transpose:
-            kernel = ops.swapaxes(kernel, -1, -2)
-
         # index 0 is reserved for the zeros outside of the domain group
         indices = utils.get_index_tensor(kernel) + 1
 
+        if self.transpose:
+            indices = ops.swapaxes(indices, -1, -2)
+
         kwargs = {
             "new_group_axis": self.dimensions,
             "spatial_axes": tuple(d for d in range(self.dimensions)),
-- 
2.43.0


From fe168683ce952d070cb9f79fe33314a3b33e9d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:05 +0000
Subject: [PATCH 24/33] fix: let layers be called after being frozen

---
 groco/utils/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/groco/utils/misc.py b/groco/utils/misc.py
index 0e0f1f1..3f82e4b 100644
--- a/groco/utils/misc.py
+++ b/groco/utils/misc.py
@@ -20,7 +20,8 @@ def backup_and_restore(attribute_names):
                     return function(self, inputs)
                 finally:
                     for name in attribute_names:
-                        setattr(self, name, backup[name])
+                        # not with setattr, as keras refuses variables that were frozen after build
+                        object.__setattr__(self, name, backup[name])
 
         return wrapper
 
-- 
2.43.0


From 23a12fbfb5995c271b8d3dd48e074e2b2f2ca964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:35 +0000
Subject: [PATCH 25/33] fix: reject signals on another group in convolutions
 that were built already

---
 groco/layers/conv2d.py           | 5 ++++-
 groco/layers/conv2d_transpose.py | 5 ++++-
 groco/layers/conv3d.py           | 5 ++++-
 groco/layers/conv3d_transpose.py | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/groco/layers/conv2d.py b/groco/layers/conv2d.py
index 53ce14d..27acd36 100644
--- a/groco/layers/conv2d.py
+++ b/groco/layers/conv2d.py
@@ -73,7 +73,10 @@ class GroupConv2D(Conv2D):
                 channel_axis = 1
             else:
                 channel_axis = -1
-            self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+            self.input_spec.axes = {
+                channel_axis: input_shape[self.group_transforms.channels_axis],
+                self.group_transforms.group_axis: input_shape[self.group_transforms.group_axis],
+            }
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/conv2d_transpose.py b/groco/layers/conv2d_transpose.py
index 38ec504..b54c3cf 100644
--- a/groco/layers/conv2d_transpose.py
+++ b/groco/layers/conv2d_transpose.py
@@ -71,7 +71,10 @@ class GroupConv2DTranspose(Conv2DTranspose):
                 channel_axis = 1
             else:
                 channel_axis = -1
-            self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+            self.input_spec.axes = {
+                channel_axis: input_shape[self.group_transforms.channels_axis],
+                self.group_transforms.group_axis: input_shape[self.group_transforms.group_axis],
+            }
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/conv3d.py b/groco/layers/conv3d.py
index 86892c4..c5df929 100644
--- a/groco/layers/conv3d.py
+++ b/groco/layers/conv3d.py
@@ -73,7 +73,10 @@ class GroupConv3D(Conv3D):
                 channel_axis = 1
             else:
                 channel_axis = -1
-            self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+            self.input_spec.axes = {
+                channel_axis: input_shape[self.group_transforms.channels_axis],
+                self.group_transforms.group_axis: input_shape[self.group_transforms.group_axis],
+            }
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/conv3d_transpose.py b/groco/layers/conv3d_transpose.py
index 6719dd6..68accbc 100644
--- a/groco/layers/conv3d_transpose.py
+++ b/groco/layers/conv3d_transpose.py
@@ -77,7 +77,10 @@ class GroupConv3DTranspose(Conv3DTranspose):
                 channel_axis = 1
             else:
                 channel_axis = -1
-            self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+            self.input_spec.axes = {
+                channel_axis: input_shape[self.group_transforms.channels_axis],
+                self.group_transforms.group_axis: input_shape[self.group_transforms.group_axis],
+            }
 
     def get_config(self):
         config = super().get_config()
-- 
2.43.0


From e00249945972c27859cbc315bcc4dc7895399dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:35 +0000
Subject: [PATCH 26/33] fix: raise an error when acting on signals that are not
 on the given domain group

---
 groco/groups/group.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/groco/groups/group.py b/groco/groups/group.py
index 8355c77..7bfbb08 100644
--- a/groco/groups/group.py
+++ b/groco/groups/group.py
@@ -122,6 +122,11 @@ class Group:
         """
         acting_group_order = len(self.subgroup[acting_group])
         domain_group_order = len(self.subgroup[domain_group])
+        if signal.shape[group_axis] != domain_group_order:
+            raise ValueError(
+                f"Signal is not on {domain_group}, expected size {domain_group_order} "
+                f"in group axis {group_axis}, got shape {signal.shape}."
+            )
         # fill in zeroes outside of domain group if necessary
         if domain_group_order < self.order:
             signal = self.upsample(signal, group_axis, domain_group)
-- 
2.43.0


From b5bbcede1fed05e26d2045bc8583a9cbe7d0b535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:35 +0000
Subject: [PATCH 27/33] fix: reject subgroups that are not contained in the
 group

---
 groco/layers/group_transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index c9d04da..a2cfb37 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -49,6 +49,8 @@ class GroupTransforms:
 
         self.group = group if isinstance(group, Group) else group_dict[group]
         self.subgroup = group_dict[self.group.parse_subgroup(subgroup or "")]
+        if self.subgroup.name not in self.group.subgroup:
+            raise ValueError(f"{self.subgroup.name} is not a subgroup of {self.group.name}.")
         self.domain_group, self.acting_group = self.group.name, self.subgroup.name
         if transpose:
             self.domain_group, self.acting_group = self.acting_group, self.domain_group
-- 
2.43.0


From 69b2be3d5ff3a489815ed713ef0c3232a4c3283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 28/33] fix: reject layer inputs that are not on the group
 without relying on assert

With python -O asserts are removed, and inputs of any group order gave a result.
---
 groco/layers/group_transforms.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index a2cfb37..2480e1f 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -172,10 +172,11 @@ class GroupTransforms:
 
         if self.group_valued_input:
             order = len(self.group.subgroup[self.domain_group])
-            assert input_shape[self.group_axis] == order, (
-                f"Got input shape {input_shape[self.group_axis]} in group axis {self.group_axis},"
-                f"expected {order}."
-            )
+            if input_shape[self.group_axis] != order:
+                raise ValueError(
+                    f"Got input shape {input_shape[self.group_axis]} in group axis "
+                    f"{self.group_axis}, expected {order}."
+                )
 
             if input_shape[self.channels_axis] % self.groups != 0:
                 raise ValueError(
-- 
2.43.0


From c2d138155eeada13d75cae586c7c19d84633d12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 29/33] fix: describe the composition table that groups are
 made from as it is used

Tables made according to the former description, with the inverse of the first element, give
the wrong action.
---
 groco/groups/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groco/groups/group.py b/groco/groups/group.py
index 7bfbb08..a8c2405 100644
--- a/groco/groups/group.py
+++ b/groco/groups/group.py
@@ -12,7 +12,7 @@ class Group:
         order: int, the number of elements in the group.
         inverses: 1d tensor indicating the inverse of element i at position i.
         composition: 2d tensor with entry composition[r][c] the index of the group element
-            obtained by composing the inverse of the rth element with the cth element.
+            obtained by composing the rth element with the cth element, acting with the latter first.
         subgroup: dictionary from subgroup strings to indices representing the elements in
             the subgroup.
         cosets: dictionary from subgroup strings to indices representing the elementary coset
-- 
2.43.0


From 34d371fe12d155c6201df4503fa9b308f8d01457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:32 +0000
Subject: [PATCH 30/33] fix: order the signal as the group when acting on a
 subgroup with all its elements in another order

---
 groco/groups/group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/groco/groups/group.py b/groco/groups/group.py
index a8c2405..110dd79 100644
--- a/groco/groups/group.py
+++ b/groco/groups/group.py
@@ -127,8 +127,8 @@ class Group:
                 f"Signal is not on {domain_group}, expected size {domain_group_order} "
                 f"in group axis {group_axis}, got shape {signal.shape}."
             )
-        # fill in zeroes outside of domain group if necessary
-        if domain_group_order < self.order:
+        # fill in zeroes outside of domain group and order its elements as in the group, if necessary
+        if list(self.subgroup[domain_group]) != list(range(self.order)):
             signal = self.upsample(signal, group_axis, domain_group)
 
         # action on grid
-- 
2.43.0


From fe8e94b65f98745ee3692963316e55cb198b1cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:12 +0000
Subject: [PATCH 31/33] fix: let layers be built after a build that failed

---
 groco/layers/group_transforms.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 2480e1f..a7d183a 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -54,6 +54,7 @@ class GroupTransforms:
         self.domain_group, self.acting_group = self.group.name, self.subgroup.name
         if transpose:
             self.domain_group, self.acting_group = self.acting_group, self.domain_group
+        self.input_group = self.domain_group  # the domain group of signals on the group
 
         self.equivariant_padding = EquivariantPadding(
             allow_non_equivariance=allow_non_equivariance,
@@ -164,9 +165,15 @@ class GroupTransforms:
     def build(self, input_shape):
         # apart from the spatial dimensions, there are feature and batch axes
         # if there is a third axis, it is the group axis and the input is a signal on the group
+        if len(input_shape) not in (self.dimensions + 2, self.dimensions + 3):
+            raise ValueError(
+                f"Expected a signal on the grid, with {self.dimensions + 2} axes, or on the group, "
+                f"with {self.dimensions + 3} axes, got input shape {input_shape}."
+            )
         self.group_valued_input = len(input_shape) == self.dimensions + 3
-        if not self.group_valued_input:
-            self.domain_group = None
+        # not starting from the current values, as there may have been a build before that failed
+        self.domain_group = self.input_group if self.group_valued_input else None
+        self.channels_axis = self.merged_axis
         if self.data_format == "channels_last" and self.group_valued_input:
             self.channels_axis += 1
 
-- 
2.43.0


From 91c2be45ac0c703f674d0ff3c20988af934c86ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:55 +0000
Subject: [PATCH 32/33] fix: check the input size of convolutions before
 setting anything in build

---
 groco/layers/conv2d.py | 1 +
 groco/layers/conv3d.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/groco/layers/conv2d.py b/groco/layers/conv2d.py
index 27acd36..a65e903 100644
--- a/groco/layers/conv2d.py
+++ b/groco/layers/conv2d.py
@@ -66,6 +66,7 @@ class GroupConv2D(Conv2D):
 
     def build(self, input_shape):
         self.group_transforms.build(input_shape)
+        self.compute_output_shape(input_shape)  # raises an error before setting anything
         super().build(self.group_transforms.reshaped_input)
         self.group_transforms.build_conv(self.kernel, self.bias, self.use_bias)
         if self.group_transforms.group_valued_input:
diff --git a/groco/layers/conv3d.py b/groco/layers/conv3d.py
index c5df929..5e91936 100644
--- a/groco/layers/conv3d.py
+++ b/groco/layers/conv3d.py
@@ -66,6 +66,7 @@ class GroupConv3D(Conv3D):
 
     def build(self, input_shape):
         self.group_transforms.build(input_shape)
+        self.compute_output_shape(input_shape)  # raises an error before setting anything
         super().build(self.group_transforms.reshaped_input)
         self.group_transforms.build_conv(self.kernel, self.bias, self.use_bias)
         if self.group_transforms.group_valued_input:
-- 
2.43.0


From 75b06c51fd6871e164e3263a7589c8d4b953e92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:15 +0000
Subject: [PATCH 33/33] fix: check the number of axes of symbolic inputs of
 convolutions too

---
 groco/layers/conv2d.py           | 1 +
 groco/layers/conv2d_transpose.py | 1 +
 groco/layers/conv3d.py           | 1 +
 groco/layers/conv3d_transpose.py | 1 +
 4 files changed, 4 insertions(+)

diff --git a/groco/layers/conv2d.py b/groco/layers/conv2d.py
index a65e903..8e8598a 100644
--- a/groco/layers/conv2d.py
+++ b/groco/layers/conv2d.py
@@ -69,6 +69,7 @@ class GroupConv2D(Conv2D):
         self.compute_output_shape(input_shape)  # raises an error before setting anything
         super().build(self.group_transforms.reshaped_input)
         self.group_transforms.build_conv(self.kernel, self.bias, self.use_bias)
+        self.input_spec.ndim = len(input_shape)
         if self.group_transforms.group_valued_input:
             if self.data_format == "channels_first":
                 channel_axis = 1
diff --git a/groco/layers/conv2d_transpose.py b/groco/layers/conv2d_transpose.py
index b54c3cf..039be93 100644
--- a/groco/layers/conv2d_transpose.py
+++ b/groco/layers/conv2d_transpose.py
@@ -66,6 +66,7 @@ class GroupConv2DTranspose(Conv2DTranspose):
         self.group_transforms.build(input_shape)
         super().build(self.group_transforms.reshaped_input)
         self.group_transforms.build_conv(self.kernel, self.bias, self.use_bias)
+        self.input_spec.ndim = len(input_shape)
         if self.group_transforms.group_valued_input:
             if self.data_format == "channels_first":
                 channel_axis = 1
diff --git a/groco/layers/conv3d.py b/groco/layers/conv3d.py
index 5e91936..8f6a9ed 100644
--- a/groco/layers/conv3d.py
+++ b/groco/layers/conv3d.py
@@ -69,6 +69,7 @@ class GroupConv3D(Conv3D):
         self.compute_output_shape(input_shape)  # raises an error before setting anything
         super().build(self.group_transforms.reshaped_input)
         self.group_transforms.build_conv(self.kernel, self.bias, self.use_bias)
+        self.input_spec.ndim = len(input_shape)
         if self.group_transforms.group_valued_input:
             if self.data_format == "channels_first":
                 channel_axis = 1
diff --git a/groco/layers/conv3d_transpose.py b/groco/layers/conv3d_transpose.py
index 68accbc..bc3fbcd 100644
--- a/groco/layers/conv3d_transpose.py
+++ b/groco/layers/conv3d_transpose.py
@@ -72,6 +72,7 @@ class GroupConv3DTranspose(Conv3DTranspose):
         self.group_transforms.build(input_shape)
         super().build(self.group_transforms.reshaped_input)
         self.group_transforms.build_conv(self.kernel, self.bias, self.use_bias)
+        self.input_spec.ndim = len(input_shape)
         if self.group_transforms.group_valued_input:
             if self.data_format == "channels_first":
                 channel_axis = 1
-- 
2.43.0

