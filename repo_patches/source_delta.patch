From 78eca33a1c5826ea3474f1f2d36f950a0795d9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 01/21] fix: record inference mode when a network is switched
 to inference

---
 src/network.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network.rs b/src/network.rs
index f8e5557..ccb6a72 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -195,7 +195,7 @@ impl Network {
         }
     }
     pub fn switch_to_inference(&mut self) {
-        self.run_state = NetworkRunState::Training;
+        self.run_state = NetworkRunState::Inference;
         for layer in self.layers.iter_mut() {
             layer.switch_to_inference();
         }
-- 
2.43.0


From e7dbc88754987df5d178c7f61c7d9ce50e84464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:19 +0000
Subject: [PATCH 02/21] fix: reject windows that do not fit and zero strides
 instead of panicking

---
 src/tensor.rs                        | 6 ++++++
 src/tensor/helper.rs                 | 8 ++++++++
 src/tensor/operations/convolution.rs | 3 +++
 3 files changed, 17 insertions(+)

diff --git a/src/tensor.rs b/src/tensor.rs
index fa0498a..f307cc6 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -449,6 +449,9 @@ impl Tensor {
         kernel_shape: &TensorShape,
         stride: u32,
     ) -> bool {
+        if !image_shape.fits_window(kernel_shape, stride) {
+            return false;
+        }
         if (image_shape.di - kernel_shape.di) % stride != 0 {
             return false;
         }
@@ -487,6 +490,9 @@ impl Tensor {
 
         // Check if the mask fitst in the image given the stride
         // We assume that the image is properly padded
+        if !image_shape.fits_window(mask_shape, stride) {
+            return false;
+        }
         if (image_shape.di - mask_shape.di) % stride != 0 {
             return false;
         }
diff --git a/src/tensor/helper.rs b/src/tensor/helper.rs
index 636e185..77c7fbe 100644
--- a/src/tensor/helper.rs
+++ b/src/tensor/helper.rs
@@ -55,6 +55,14 @@ impl TensorShape {
         return true;
     }
 
+    // Check if a non-empty window fits inside the first two dimensions and can be moved around with the given stride
+    pub fn fits_window(self: &Self, window: &TensorShape, stride: u32) -> bool {
+        if stride == 0 || window.di == 0 || window.dj == 0 {
+            return false;
+        }
+        return window.di <= self.di && window.dj <= self.dj;
+    }
+
     pub fn get(self: &Self) -> (u32, u32, u32) {
         return (self.di, self.dj, self.dk);
     }
diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index b695c8f..1294f0b 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -18,6 +18,9 @@ pub fn check_convolution_dimensions(
 
     // Check if the kernel fitst in the image given the stride
     // We assume that the image is properly padded
+    if !image_shape.fits_window(kernel_shape, stride) {
+        return Err("Kernel does not fit inside the image or the stride is zero");
+    }
     if (image_shape.di - kernel_shape.di) % stride != 0 {
         return Err("First dimensions of kernel and shape do not match with stride");
     }
-- 
2.43.0


From 1eafc3454f65989d480677e30086719393e443c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:20 +0000
Subject: [PATCH 03/21] fix: visit exactly the covering output positions in
 convolution_backprop_outgoing_gradient

---
 src/tensor/operations/convolution.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index 1294f0b..6d01a46 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -218,15 +218,21 @@ pub fn convolution_backprop_outgoing_gradient(
                 for k in 0..incoming_gradient_shape.dk {
                     let kernel = &(kernels[k as usize]);
                     let kernel_shape = kernel.get_shape();
-                    let i_start = (a as i32 - kernel_shape.di as i32) / stride as i32 + 1;
-                    // Now converting to unsigned
-                    let i_start = i_start.max(0) as u32;
+                    // Output positions whose kernel window covers this position
+                    let i_start = if a < kernel_shape.di {
+                        0
+                    } else {
+                        (a - kernel_shape.di) / stride + 1
+                    };
                     let mut i_stop = a / stride + 1;
-                    i_stop = i_stop.min(kernel_shape.di);
-                    let j_start = (b as i32 - kernel_shape.dj as i32) / stride as i32 + 1;
-                    let j_start = j_start.max(0) as u32;
+                    i_stop = i_stop.min(incoming_gradient_shape.di);
+                    let j_start = if b < kernel_shape.dj {
+                        0
+                    } else {
+                        (b - kernel_shape.dj) / stride + 1
+                    };
                     let mut j_stop = b / stride + 1;
-                    j_stop = j_stop.min(kernel_shape.dj);
+                    j_stop = j_stop.min(incoming_gradient_shape.dj);
                     for j in j_start..j_stop {
                         for i in i_start..i_stop {
                             let incoming_gradient_id = incoming_gradients
-- 
2.43.0


From 8033ade138bfffaeab858f803798f7995c304981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:22 +0000
Subject: [PATCH 04/21] fix: only use a kernel's own output channel when
 computing its gradient

---
 src/tensor/operations/convolution.rs | 29 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index 6d01a46..af983e8 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -285,21 +285,20 @@ pub fn convolution_backprop_kernel(
             for l in 0..kernel_shape.di {
                 let mut convolution_result: f32 = 0.0;
 
-                // Loop over incoming gradient dimensions and multiply - add
-                for k in 0..result_shape.dk {
-                    for j in 0..result_shape.dj {
-                        for i in 0..result_shape.di {
-                            let incoming_gradient_id = incoming_gradients
-                                .get_data_index(&TensorIndex { i: i, j: j, k: k })
-                                as usize;
-                            let image_id = image.get_data_index(&TensorIndex {
-                                i: l + i * stride,
-                                j: m + j * stride,
-                                k: n,
-                            }) as usize;
-                            convolution_result += image.data[image_id]
-                                * incoming_gradients.data[incoming_gradient_id];
-                        }
+                // Loop over the incoming gradient of this kernel's own channel and multiply - add
+                let k = kernel_channel;
+                for j in 0..result_shape.dj {
+                    for i in 0..result_shape.di {
+                        let incoming_gradient_id = incoming_gradients
+                            .get_data_index(&TensorIndex { i: i, j: j, k: k })
+                            as usize;
+                        let image_id = image.get_data_index(&TensorIndex {
+                            i: l + i * stride,
+                            j: m + j * stride,
+                            k: n,
+                        }) as usize;
+                        convolution_result +=
+                            image.data[image_id] * incoming_gradients.data[incoming_gradient_id];
                     }
                 }
                 let kernel_gradient_id =
-- 
2.43.0


From d9b9fcdc1f7d296e31f1c5cb3ce87e8a8d84ee33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:52 +0000
Subject: [PATCH 05/21] fix: propagate the relu masked gradient through the
 convolutional layer

---
 src/layer/convolutional.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index da6669c..79cd20f 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -244,7 +244,7 @@ impl Layer for ConvolutionalLayer {
         // kernel gradients
         for i in 0..self.kernels.len() {
             tensor::operations::convolution::convolution_backprop_kernel(
-                incoming_gradient,
+                &self.relu_mask,
                 input,
                 self.stride,
                 i as u32,
@@ -254,7 +254,7 @@ impl Layer for ConvolutionalLayer {
 
         // Outgoing gradient
         tensor::operations::convolution::convolution_backprop_outgoing_gradient(
-            incoming_gradient,
+            &self.relu_mask,
             &self.kernels,
             self.stride,
             outgoing_gradient,
-- 
2.43.0


From f22b0ccd27fba7e836cf5f8128df0ef9732210a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:54 +0000
Subject: [PATCH 06/21] fix: compute and clear the bias gradients of the
 convolutional layer

---
 src/layer/convolutional.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 79cd20f..4bfa6cd 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -1,5 +1,5 @@
 use super::SerializedLayer;
-use crate::tensor::helper::TensorShape;
+use crate::tensor::helper::{TensorIndex, TensorShape};
 use crate::tensor::{self, Tensor};
 use crate::{layer::Layer, network::NetworkRunState};
 use std::collections::HashMap;
@@ -238,6 +238,21 @@ impl Layer for ConvolutionalLayer {
         tensor::Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
 
         // Bias gradient
+        // Every output item of a channel directly depends on the bias of that channel
+        let gradient_shape = self.relu_mask.get_shape();
+        for channel in 0..self.bias_gradients.len() {
+            let mut bias_gradient: f32 = 0.0;
+            for j in 0..gradient_shape.dj {
+                for i in 0..gradient_shape.di {
+                    bias_gradient += self.relu_mask.get_item(&TensorIndex {
+                        i: i,
+                        j: j,
+                        k: channel as u32,
+                    });
+                }
+            }
+            self.bias_gradients[channel].fill_with_value(bias_gradient);
+        }
 
         // Biases don't affect gradient propagation
 
@@ -282,6 +297,9 @@ impl Layer for ConvolutionalLayer {
         for v in &mut self.kernel_gradients {
             v.fill_with_value(0.0);
         }
+        for v in &mut self.bias_gradients {
+            v.fill_with_value(0.0);
+        }
     }
 
     fn switch_to_inference(self: &mut Self) {
-- 
2.43.0


From ba31da40b8b8d54b7d77a4019590b7df8a6f2258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:56 +0000
Subject: [PATCH 07/21] fix: report backward passes in inference mode or with
 mismatched gradient shapes

---
 src/layer/convolutional.rs   | 6 ++++++
 src/layer/fully_connected.rs | 3 +++
 src/layer/max_pool.rs        | 8 ++++++++
 src/layer/softmax.rs         | 6 ++++++
 4 files changed, 23 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 4bfa6cd..d5a499e 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -233,6 +233,12 @@ impl Layer for ConvolutionalLayer {
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
+        if self.run_state != NetworkRunState::Training {
+            return Err("Can only do backprop in training mode");
+        }
+        if incoming_gradient.get_shape() != self.output_shape {
+            return Err("Incoming gradient shape does not match the output shape");
+        }
         // Relu backprop
         // This repurposes the relu mask
         tensor::Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 41bf0ed..ecc3492 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -174,6 +174,9 @@ impl Layer for FullyConnectedLayer {
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
         if self.run_state == NetworkRunState::Training {
+            if incoming_gradient.get_shape() != self.get_output_shape() {
+                return Err("Incoming gradient shape does not match the output shape");
+            }
             // Apply the relu backrop
             Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
 
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index d59b72a..bb50b7e 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -171,6 +171,14 @@ impl Layer for MaxPoolLayer {
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
+        if self.run_state != NetworkRunState::Training {
+            return Err("Can only do backprop in training mode");
+        }
+        if incoming_gradient.get_shape() != self.output_shape
+            || outgoing_gradient.get_shape() != self.input_shape
+        {
+            return Err("Gradient shapes do not match the layer shapes");
+        }
         // Make sure the outgoing gradient is clean
         outgoing_gradient.fill_with_value(0.0);
         // Perform the backprop
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 104f436..f37144e 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -117,6 +117,12 @@ impl Layer for SoftmaxLayer {
         if self.run_state == NetworkRunState::Inference {
             return Err("Can only do backprop in training mode");
         }
+        if output.get_shape() != self.shape
+            || incoming_gradient.get_shape() != self.shape
+            || outgoing_gradient.get_shape() != self.shape
+        {
+            return Err("Gradient shapes do not match the layer shape");
+        }
         // softmax Transoped @ incoming gradient -> yields 1x1x1 tensors
         Tensor::matrix_multiply_transpose_first(
             output,
-- 
2.43.0


From 1d9b5a3313056ffb3fcfa342f5a1965157ac3b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 08/21] fix: report forward passes with mismatched shapes
 instead of silently skipping them

---
 src/layer/fully_connected.rs | 5 +++++
 src/layer/max_pool.rs        | 3 +++
 src/layer/softmax.rs         | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index ecc3492..814a202 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -147,6 +147,11 @@ impl FullyConnectedLayer {
 
 impl Layer for FullyConnectedLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        if input.get_shape() != self.get_input_shape()
+            || output.get_shape() != self.get_output_shape()
+        {
+            return Err("Input or output shape does not match the layer shapes");
+        }
         match self.run_state {
             NetworkRunState::Inference => {
                 // Take the faster multiply add relu in 1 go
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index bb50b7e..176c022 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -147,6 +147,9 @@ impl MaxPoolLayer {
 
 impl Layer for MaxPoolLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        if input.get_shape() != self.input_shape || output.get_shape() != self.output_shape {
+            return Err("Input or output shape does not match the layer shapes");
+        }
         match self.run_state {
             NetworkRunState::Inference => {
                 Tensor::max_pool(input, &self.mask_shape, self.stride, output);
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index f37144e..89ebce7 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -104,6 +104,9 @@ impl SoftmaxLayer {
 
 impl Layer for SoftmaxLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        if input.get_shape() != self.shape || output.get_shape() != self.shape {
+            return Err("Input or output shape does not match the layer shape");
+        }
         Tensor::softmax(input, output);
         return Ok(());
     }
-- 
2.43.0


From e65a9e4b56c39c2c9d90aca1ce4a2f0f8f2e2523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:13 +0000
Subject: [PATCH 09/21] fix: resize the training buffers when a layer is
 refilled

---
 src/layer/convolutional.rs | 5 +++++
 src/layer/max_pool.rs      | 2 ++
 src/layer/softmax.rs       | 6 +++---
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index d5a499e..7975663 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -136,6 +136,8 @@ impl ConvolutionalLayer {
         self.input_shape = input_shape;
         self.output_shape = output_shape;
         self.stride = stride;
+        // Update the helper tensors
+        self.update_gradient_and_intermediate_tensors();
         return Ok(());
     }
     fn load_from_serialized_data(
@@ -194,6 +196,9 @@ impl ConvolutionalLayer {
 
 impl Layer for ConvolutionalLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        if input.get_shape() != self.input_shape || output.get_shape() != self.output_shape {
+            return Err("Input or output shape does not match the layer shapes");
+        }
         match self.run_state {
             NetworkRunState::Inference => {
                 // Do the fast single function version
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index 176c022..bf7e4bb 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -99,6 +99,8 @@ impl MaxPoolLayer {
         self.mask_shape = mask_shape;
         self.stride = stride;
         self.name = name.clone();
+        // Update the helper list
+        self.update_gradient_and_intermediate_tensors();
 
         return Ok(());
     }
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 89ebce7..6e2bc97 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -91,14 +91,14 @@ impl SoftmaxLayer {
         let shape_data = data
             .get(&SoftMaxSerialKeys::Shape)
             .expect("Cannot access shape data");
-        self.shape = bincode::deserialize(shape_data).expect("Cannot deserialize shape data");
+        let shape: TensorShape = bincode::deserialize(shape_data).expect("Cannot deserialize shape data");
 
         let name_data = data
             .get(&SoftMaxSerialKeys::Name)
             .expect("Cannot access name data");
-        self.name = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
 
-        return Ok(());
+        return self.fill_from_state(shape, &name);
     }
 }
 
-- 
2.43.0


From 1746603e84c19351309845af83dac60f087c2c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:40 +0000
Subject: [PATCH 10/21] fix: reject inconsistent kernels and biases when
 filling a convolutional layer

---
 src/layer/convolutional.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 7975663..845e7e7 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -113,6 +113,18 @@ impl ConvolutionalLayer {
                 return Err("All kernels in kernel list should have the same shape");
             }
         }
+        if kernel_shape.dk != input_shape.dk {
+            return Err("Kernel depth does not match the input depth");
+        }
+        // Check there is a single bias value for every kernel
+        if biases.len() != kernels.len() {
+            return Err("There should be exactly one bias for every kernel");
+        }
+        for b in &biases {
+            if b.get_shape() != TensorShape::new_1d(1) {
+                return Err("All biases in bias list should be 1x1x1 tensors");
+            }
+        }
         if !Tensor::does_kernel_stride_fit_image(&input_shape, &kernel_shape, stride) {
             return Err("Kernel does not fit in image with given stride");
         }
-- 
2.43.0


From 3d24d1c80088fb0f666b7bc9b5aae31e0ae01997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 11/21] fix: reject layer shapes whose number of items
 overflows

---
 src/layer/convolutional.rs | 7 +++++++
 src/layer/max_pool.rs      | 3 +++
 src/layer/softmax.rs       | 3 +++
 src/tensor/helper.rs       | 8 ++++++++
 4 files changed, 21 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 845e7e7..37f4ad5 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -140,6 +140,13 @@ impl ConvolutionalLayer {
             dk: output_depth,
         };
 
+        if kernels.len() > u32::MAX as usize
+            || input_shape.checked_total_size().is_none()
+            || output_shape.checked_total_size().is_none()
+        {
+            return Err("Input or output shape is too large");
+        }
+
         // All ready for assignment
 
         self.name = name.clone();
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index bf7e4bb..5371a82 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -86,6 +86,9 @@ impl MaxPoolLayer {
         if !Tensor::does_kernel_stride_fit_image(&input_shape, &mask_shape, stride) {
             return Err("Mask does not fit in image with given stride");
         }
+        if input_shape.checked_total_size().is_none() {
+            return Err("Input shape is too large");
+        }
         let (dim0, dim1) = Tensor::get_convolution_dim_fit(&input_shape, &mask_shape, stride);
 
         let output_shape = TensorShape {
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 6e2bc97..2a70100 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -70,6 +70,9 @@ impl SoftmaxLayer {
         shape: TensorShape,
         name: &String,
     ) -> Result<(), &'static str> {
+        if shape.checked_total_size().is_none() {
+            return Err("Shape is too large");
+        }
         self.shape = shape;
         self.name = name.clone();
         self.update_gradient_and_intermediate_tensors();
diff --git a/src/tensor/helper.rs b/src/tensor/helper.rs
index 77c7fbe..e97d79b 100644
--- a/src/tensor/helper.rs
+++ b/src/tensor/helper.rs
@@ -41,6 +41,14 @@ impl TensorShape {
         return self.di * self.dj * self.dk;
     }
 
+    // Calculate the total size if both the size and the strides can be represented
+    pub fn checked_total_size(self: &Self) -> Option<u32> {
+        return match self.di.checked_mul(self.dj) {
+            Some(slice_size) => slice_size.checked_mul(self.dk),
+            None => None,
+        };
+    }
+
     pub fn fits_index(self: &Self, index: &TensorIndex) -> bool {
         // Check if an index fits in a certain shape
         if index.i >= self.di {
-- 
2.43.0


From 09338ef800cdc405b850d8750cd3a245065b2df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:43 +0000
Subject: [PATCH 12/21] fix: report the depth of the weights in the fully
 connected input shape

---
 src/layer/fully_connected.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 814a202..3a994ef 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -217,7 +217,7 @@ impl Layer for FullyConnectedLayer {
         return TensorShape {
             di: self.weights.get_shape().dj,
             dj: 1,
-            dk: 1,
+            dk: self.weights.get_shape().dk,
         };
     }
 
-- 
2.43.0


From 7ef0f6bfc721e1bbc7f2c89ea2be516829f02087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 13/21] fix: track an origin inside the window when no item is
 larger than negative infinity

---
 src/tensor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index f307cc6..1b60db9 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -571,7 +571,12 @@ impl Tensor {
 
                     let output_ti = TensorIndex { i: i, j: j, k: k };
                     let output_index = result.get_data_index(&output_ti);
-                    let mut input_index: u32 = 0;
+                    // Start from the first item in the window, no other item has to be larger than negative infinity
+                    let mut input_index: u32 = image.get_data_index(&TensorIndex {
+                        i: i * stride,
+                        j: j * stride,
+                        k,
+                    });
 
                     for jj in 0..mask_shape.dj {
                         for ii in 0..mask_shape.di {
-- 
2.43.0


From e4f39118e0faf9eefbc915709a4bb93ade90c3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 14/21] fix: shift the softmax inputs so large inputs do not
 overflow

---
 src/tensor.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index 1b60db9..fd8590b 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -602,9 +602,16 @@ impl Tensor {
 
     pub fn softmax(input: &Tensor, output: &mut Tensor) {
         if input.get_shape() == output.get_shape() {
+            // Shift all items by the largest one so the exponentials can not overflow
+            let mut max = f32::NEG_INFINITY;
+            for i in 0..input.data.len() {
+                if input.data[i] > max {
+                    max = input.data[i];
+                }
+            }
             let mut sum = 0.0;
             for i in 0..input.data.len() {
-                let exp = input.data[i].exp();
+                let exp = (input.data[i] - max).exp();
                 output.data[i] = exp;
                 sum += exp;
             }
-- 
2.43.0


From ffc3abff26c1acd68980cf8114afccde98aa8beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 15/21] fix: return an error instead of panicking when layer
 data can not be deserialized

---
 src/layer/convolutional.rs   | 10 +++++-----
 src/layer/fully_connected.rs |  6 +++---
 src/layer/max_pool.rs        |  8 ++++----
 src/layer/softmax.rs         |  4 ++--
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 37f4ad5..691b71d 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -184,30 +184,30 @@ impl ConvolutionalLayer {
             .get(&ConvolutionalSerialKeys::Kernels)
             .expect("Cannot access kernels data");
         let kernels: Vec<Tensor> =
-            bincode::deserialize(kernels_data).expect("Cannot deserialize kernels data");
+            bincode::deserialize(kernels_data).map_err(|_e| "Cannot deserialize kernels data")?;
 
         let biases_data = data
             .get(&ConvolutionalSerialKeys::Biases)
             .expect("Cannot access biases data");
         let biases: Vec<Tensor> =
-            bincode::deserialize(biases_data).expect("Cannot deserialize biases data");
+            bincode::deserialize(biases_data).map_err(|_e| "Cannot deserialize biases data")?;
 
         let input_shape_data = data
             .get(&ConvolutionalSerialKeys::InputShape)
             .expect("Cannot access input shape data");
         let input_shape: TensorShape =
-            bincode::deserialize(input_shape_data).expect("Cannot deserialize input shape data");
+            bincode::deserialize(input_shape_data).map_err(|_e| "Cannot deserialize input shape data")?;
 
         let stride_data = data
             .get(&ConvolutionalSerialKeys::Stride)
             .expect("Cannot access stride data");
         let stride: u32 =
-            bincode::deserialize(&stride_data).expect("Cannot deserialize stride data");
+            bincode::deserialize(&stride_data).map_err(|_e| "Cannot deserialize stride data")?;
 
         let name_data = data
             .get(&ConvolutionalSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).map_err(|_e| "Cannot deserialize name data")?;
 
         return self.fill_from_state(kernels, biases, input_shape, stride, &name);
     }
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 3a994ef..3dc64f0 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -129,17 +129,17 @@ impl FullyConnectedLayer {
             .get(&FullyConnectedSerialKeys::Weights)
             .expect("Cannot access weigths shape data");
         let weights: Tensor =
-            bincode::deserialize(weights_data).expect("Cannot deserialize weights data");
+            bincode::deserialize(weights_data).map_err(|_e| "Cannot deserialize weights data")?;
 
         let bias_data = data
             .get(&FullyConnectedSerialKeys::Bias)
             .expect("Cannot access input shape data");
-        let bias: Tensor = bincode::deserialize(bias_data).expect("Cannot deserialize bias data");
+        let bias: Tensor = bincode::deserialize(bias_data).map_err(|_e| "Cannot deserialize bias data")?;
 
         let name_data = data
             .get(&FullyConnectedSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).map_err(|_e| "Cannot deserialize name data")?;
 
         return self.fill_from_state(weights, bias, &name);
     }
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index 5371a82..ad02aa5 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -130,22 +130,22 @@ impl MaxPoolLayer {
             .get(&MaxPoolSerialKeys::MaskShape)
             .expect("Cannot access mask shape data");
         let mask_shape: TensorShape =
-            bincode::deserialize(mask_shape_data).expect("Cannot deserialize mask shape data");
+            bincode::deserialize(mask_shape_data).map_err(|_e| "Cannot deserialize mask shape data")?;
         let input_shape_data = data
             .get(&MaxPoolSerialKeys::InputShape)
             .expect("Cannot access input shape data");
         let input_shape: TensorShape =
-            bincode::deserialize(input_shape_data).expect("Cannot deserialize input shape data");
+            bincode::deserialize(input_shape_data).map_err(|_e| "Cannot deserialize input shape data")?;
         let stride_data = data
             .get(&MaxPoolSerialKeys::Stride)
             .expect("Cannot access stride data");
         let stride: u32 =
-            bincode::deserialize(&stride_data).expect("Cannot deserialize stride data");
+            bincode::deserialize(&stride_data).map_err(|_e| "Cannot deserialize stride data")?;
 
         let name_data = data
             .get(&MaxPoolSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).map_err(|_e| "Cannot deserialize name data")?;
         return self.fill_from_state(input_shape, mask_shape, stride, &name);
     }
 }
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 2a70100..0d7beae 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -94,12 +94,12 @@ impl SoftmaxLayer {
         let shape_data = data
             .get(&SoftMaxSerialKeys::Shape)
             .expect("Cannot access shape data");
-        let shape: TensorShape = bincode::deserialize(shape_data).expect("Cannot deserialize shape data");
+        let shape: TensorShape = bincode::deserialize(shape_data).map_err(|_e| "Cannot deserialize shape data")?;
 
         let name_data = data
             .get(&SoftMaxSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).map_err(|_e| "Cannot deserialize name data")?;
 
         return self.fill_from_state(shape, &name);
     }
-- 
2.43.0


From 3a971f2f32caf6c34b8c92009dfb6b2b97dc41e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 16/21] fix: reject inconsistent tensors when deserializing

---
 src/tensor.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/tensor.rs b/src/tensor.rs
index fd8590b..3400afc 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -10,12 +10,42 @@ use std::error::Error;
 use std::fs;
 
 #[derive(Debug, Clone, Serialize, Deserialize)]
+#[serde(try_from = "UnvalidatedTensor")]
 pub struct Tensor {
     strides: TensorStride,
     shape: TensorShape,
     data: Vec<f32>,
 }
 
+// Deserialized tensor parts which are not known to be consistent yet
+#[derive(Deserialize)]
+struct UnvalidatedTensor {
+    strides: TensorStride,
+    shape: TensorShape,
+    data: Vec<f32>,
+}
+
+impl TryFrom<UnvalidatedTensor> for Tensor {
+    type Error = &'static str;
+    fn try_from(parts: UnvalidatedTensor) -> Result<Tensor, &'static str> {
+        let total_size = match parts.shape.checked_total_size() {
+            Some(size) => size,
+            None => return Err("Tensor shape is too large"),
+        };
+        if parts.strides != TensorStride::new_from_shape(&parts.shape) {
+            return Err("Tensor strides do not match the tensor shape");
+        }
+        if parts.data.len() != total_size as usize {
+            return Err("Tensor data does not match the tensor shape");
+        }
+        return Ok(Tensor {
+            strides: parts.strides,
+            shape: parts.shape,
+            data: parts.data,
+        });
+    }
+}
+
 impl PartialEq for Tensor {
     fn eq(&self, other: &Self) -> bool {
         if self.shape != other.shape {
-- 
2.43.0


From 36b36c77a2c806c4ae6104c3484145462cfc65a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 17/21] fix: reject fully connected weights whose input shape
 overflows

---
 src/layer/fully_connected.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 3dc64f0..2244202 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -92,6 +92,14 @@ impl FullyConnectedLayer {
         if bias_shape.dj != 1 {
             return Err("The second dimension of bias must be 1");
         }
+        let input_shape = TensorShape {
+            di: weight_shape.dj,
+            dj: 1,
+            dk: weight_shape.dk,
+        };
+        if input_shape.checked_total_size().is_none() {
+            return Err("Input shape is too large");
+        }
 
         //ready to assign
         self.weights = weights;
-- 
2.43.0


From 54c7c3ba2ee71c781e30e7af84e781aeefbf56eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 18/21] fix: check all shapes before a backward pass changes
 any gradient

---
 src/layer/convolutional.rs   | 7 +++++--
 src/layer/fully_connected.rs | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 691b71d..664bbdd 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -260,8 +260,11 @@ impl Layer for ConvolutionalLayer {
         if self.run_state != NetworkRunState::Training {
             return Err("Can only do backprop in training mode");
         }
-        if incoming_gradient.get_shape() != self.output_shape {
-            return Err("Incoming gradient shape does not match the output shape");
+        if incoming_gradient.get_shape() != self.output_shape
+            || input.get_shape() != self.input_shape
+            || outgoing_gradient.get_shape() != self.input_shape
+        {
+            return Err("Input or gradient shapes do not match the layer shapes");
         }
         // Relu backprop
         // This repurposes the relu mask
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 2244202..b527fab 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -187,8 +187,11 @@ impl Layer for FullyConnectedLayer {
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
         if self.run_state == NetworkRunState::Training {
-            if incoming_gradient.get_shape() != self.get_output_shape() {
-                return Err("Incoming gradient shape does not match the output shape");
+            if incoming_gradient.get_shape() != self.get_output_shape()
+                || input.get_shape() != self.get_input_shape()
+                || outgoing_gradient.get_shape() != self.get_input_shape()
+            {
+                return Err("Input or gradient shapes do not match the layer shapes");
             }
             // Apply the relu backrop
             Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
-- 
2.43.0


From fc6932fe022267bfaef76678c3c4187980f26be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 19/21] fix: size the bias of a new fully connected layer like
 its weights

---
 src/layer/fully_connected.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index b527fab..02abc94 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -49,11 +49,7 @@ impl FullyConnectedLayer {
     pub fn new(input_size: u32, output_size: u32, name: &String) -> FullyConnectedLayer {
         let mut fcl = FullyConnectedLayer::empty();
         let weights = Tensor::new(TensorShape::new(output_size, input_size, 1));
-        let bias: Tensor = Tensor::new(TensorShape {
-            di: output_size,
-            dj: 1,
-            dk: 1,
-        });
+        let bias: Tensor = Tensor::new(TensorShape::new(output_size, 1, 1));
         fcl.fill_from_state(weights, bias, name).unwrap();
         return fcl;
     }
-- 
2.43.0


From 2cb2f0d5210e09ef1af7a5b5e3495065dbbf954c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 20/21] fix: reject kernel shapes whose number of items
 overflows when creating a convolutional layer

---
 src/layer/convolutional.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 664bbdd..1b262c7 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -56,6 +56,10 @@ impl ConvolutionalLayer {
         output_depth: u32,
         name: &String,
     ) -> Result<ConvolutionalLayer, &'static str> {
+        if kernel_shape.checked_total_size().is_none() {
+            return Err("Kernel shape is too large");
+        }
+
         // Create empty layer
         let mut new_layer = ConvolutionalLayer::empty();
 
-- 
2.43.0


From c1ce530a96033fa1e24e6797c8322a565cbe0c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 21/21] hooks: read access to private training buffers behind
 cfg verif_hooks

---
 src/layer/convolutional.rs   | 8 ++++++++
 src/layer/fully_connected.rs | 8 ++++++++
 src/layer/max_pool.rs        | 8 ++++++++
 src/lib.rs                   | 3 +++
 src/network.rs               | 8 ++++++++
 5 files changed, 35 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 1b262c7..6399c6d 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -383,6 +383,14 @@ impl Layer for ConvolutionalLayer {
     }
 }
 
+// Read access to the private training buffers, only compiled with --cfg verif_hooks
+#[cfg(verif_hooks)]
+impl ConvolutionalLayer {
+    pub fn verif_buffers(self: &Self) -> (&Vec<Tensor>, &Vec<Tensor>, &Tensor) {
+        return (&self.kernel_gradients, &self.bias_gradients, &self.relu_mask);
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 02abc94..f2df17c 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -288,6 +288,14 @@ impl Layer for FullyConnectedLayer {
     }
 }
 
+// Read access to the private training buffers, only compiled with --cfg verif_hooks
+#[cfg(verif_hooks)]
+impl FullyConnectedLayer {
+    pub fn verif_buffers(self: &Self) -> (&Tensor, &Tensor, &Tensor) {
+        return (&self.weights_gradients, &self.bias_gradients, &self.relu_mask);
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index ad02aa5..13b106d 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -261,6 +261,14 @@ impl Layer for MaxPoolLayer {
     }
 }
 
+// Read access to the private training buffers, only compiled with --cfg verif_hooks
+#[cfg(verif_hooks)]
+impl MaxPoolLayer {
+    pub fn verif_buffers(self: &Self) -> &Vec<u32> {
+        return &self.max_pool_origin;
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/lib.rs b/src/lib.rs
index bdf9415..ba39359 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,6 @@
+// verif_hooks is set by the verification machinery only
+#![allow(unexpected_cfgs)]
+
 pub mod tensor;
 
 pub mod layer;
diff --git a/src/network.rs b/src/network.rs
index ccb6a72..1bc53da 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -290,6 +290,14 @@ impl Network {
     }
 }
 
+// Read access to the private training buffers, only compiled with --cfg verif_hooks
+#[cfg(verif_hooks)]
+impl Network {
+    pub fn verif_buffers(self: &Self) -> &Vec<Tensor> {
+        return &self.intermediate_gradients;
+    }
+}
+
 #[cfg(test)]
 mod test {
 
-- 
2.43.0

