From 430935bb1515d450fd751f345b2658cdaf67df03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 01/25] fix: switching a network to inference records inference
 as its run state

---
 src/network.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network.rs b/src/network.rs
index f8e5557..ccb6a72 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -195,7 +195,7 @@ impl Network {
         }
     }
     pub fn switch_to_inference(&mut self) {
-        self.run_state = NetworkRunState::Training;
+        self.run_state = NetworkRunState::Inference;
         for layer in self.layers.iter_mut() {
             layer.switch_to_inference();
         }
-- 
2.43.0


From c57b703af97ba7983fe5a3e20c747db00ef87585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 02/25] fix: the kernel gradient only uses the incoming
 gradient of the kernel's own channel

---
 src/tensor/operations/convolution.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index b695c8f..a983432 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -276,8 +276,8 @@ pub fn convolution_backprop_kernel(
             for l in 0..kernel_shape.di {
                 let mut convolution_result: f32 = 0.0;
 
-                // Loop over incoming gradient dimensions and multiply - add
-                for k in 0..result_shape.dk {
+                // Loop over the kernel's own channel of the incoming gradient and multiply - add
+                for k in kernel_channel..kernel_channel + 1 {
                     for j in 0..result_shape.dj {
                         for i in 0..result_shape.di {
                             let incoming_gradient_id = incoming_gradients
-- 
2.43.0


From c45bfbadb0338e217f610be70412f41d52ee26a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 03/25] fix: the convolution input gradient visits exactly the
 windows that cover an element

---
 src/tensor/operations/convolution.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index a983432..bbd7a14 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -215,15 +215,17 @@ pub fn convolution_backprop_outgoing_gradient(
                 for k in 0..incoming_gradient_shape.dk {
                     let kernel = &(kernels[k as usize]);
                     let kernel_shape = kernel.get_shape();
-                    let i_start = (a as i32 - kernel_shape.di as i32) / stride as i32 + 1;
+                    let i_start =
+                        (a as i64 - kernel_shape.di as i64).div_euclid(stride as i64) + 1;
                     // Now converting to unsigned
                     let i_start = i_start.max(0) as u32;
                     let mut i_stop = a / stride + 1;
-                    i_stop = i_stop.min(kernel_shape.di);
-                    let j_start = (b as i32 - kernel_shape.dj as i32) / stride as i32 + 1;
+                    i_stop = i_stop.min(incoming_gradient_shape.di);
+                    let j_start =
+                        (b as i64 - kernel_shape.dj as i64).div_euclid(stride as i64) + 1;
                     let j_start = j_start.max(0) as u32;
                     let mut j_stop = b / stride + 1;
-                    j_stop = j_stop.min(kernel_shape.dj);
+                    j_stop = j_stop.min(incoming_gradient_shape.dj);
                     for j in j_start..j_stop {
                         for i in i_start..i_stop {
                             let incoming_gradient_id = incoming_gradients
-- 
2.43.0


From 45bedf0009e49be88e34722b042fd9c3e93d37cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 04/25] fix: refuse a zero stride and oversized kernels or
 masks instead of panicking

---
 src/tensor.rs                        | 8 ++++++++
 src/tensor/operations/convolution.rs | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/src/tensor.rs b/src/tensor.rs
index fa0498a..6f8cda9 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -449,6 +449,9 @@ impl Tensor {
         kernel_shape: &TensorShape,
         stride: u32,
     ) -> bool {
+        if stride == 0 || kernel_shape.di > image_shape.di || kernel_shape.dj > image_shape.dj {
+            return false;
+        }
         if (image_shape.di - kernel_shape.di) % stride != 0 {
             return false;
         }
@@ -485,6 +488,11 @@ impl Tensor {
             return false;
         }
 
+        // The mask can't be larger than the image and needs to move
+        if stride == 0 || mask_shape.di > image_shape.di || mask_shape.dj > image_shape.dj {
+            return false;
+        }
+
         // Check if the mask fitst in the image given the stride
         // We assume that the image is properly padded
         if (image_shape.di - mask_shape.di) % stride != 0 {
diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index bbd7a14..55ccd28 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -16,6 +16,11 @@ pub fn check_convolution_dimensions(
         return Err("Third dimension of image and shpe don't match");
     }
 
+    // The kernel can't be larger than the image and needs to move
+    if stride == 0 || kernel_shape.di > image_shape.di || kernel_shape.dj > image_shape.dj {
+        return Err("Kernel does not fit in image");
+    }
+
     // Check if the kernel fitst in the image given the stride
     // We assume that the image is properly padded
     if (image_shape.di - kernel_shape.di) % stride != 0 {
-- 
2.43.0


From 52b1fdb3c5f85bcaaa85c4acd868856424f54827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 05/25] fix: a convolutional layer refuses kernels and biases
 it can't run with

---
 src/layer/convolutional.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index da6669c..c82016c 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -113,6 +113,18 @@ impl ConvolutionalLayer {
                 return Err("All kernels in kernel list should have the same shape");
             }
         }
+        if kernel_shape.dk != input_shape.dk {
+            return Err("Third dimension of kernels and input don't match");
+        }
+        // Check there is a single bias value for every kernel
+        if biases.len() != kernels.len() {
+            return Err("Number of biases does not match number of kernels");
+        }
+        for b in &biases {
+            if b.get_shape() != TensorShape::new_1d(1) {
+                return Err("Every bias should be a 1x1x1 tensor");
+            }
+        }
         if !Tensor::does_kernel_stride_fit_image(&input_shape, &kernel_shape, stride) {
             return Err("Kernel does not fit in image with given stride");
         }
-- 
2.43.0


From d195b72f5078a04cae2cb4770f05eaf3dadae97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 06/25] fix: reconfiguring a layer in training mode resizes its
 training buffers

---
 src/layer/convolutional.rs | 2 ++
 src/layer/max_pool.rs      | 2 ++
 src/layer/softmax.rs       | 7 ++++---
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index c82016c..86886ac 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -148,6 +148,8 @@ impl ConvolutionalLayer {
         self.input_shape = input_shape;
         self.output_shape = output_shape;
         self.stride = stride;
+        // Update the helper tensors
+        self.update_gradient_and_intermediate_tensors();
         return Ok(());
     }
     fn load_from_serialized_data(
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index d59b72a..cc45f21 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -99,6 +99,8 @@ impl MaxPoolLayer {
         self.mask_shape = mask_shape;
         self.stride = stride;
         self.name = name.clone();
+        // Update the helper data
+        self.update_gradient_and_intermediate_tensors();
 
         return Ok(());
     }
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 104f436..5f1ec7a 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -91,14 +91,15 @@ impl SoftmaxLayer {
         let shape_data = data
             .get(&SoftMaxSerialKeys::Shape)
             .expect("Cannot access shape data");
-        self.shape = bincode::deserialize(shape_data).expect("Cannot deserialize shape data");
+        let shape: TensorShape =
+            bincode::deserialize(shape_data).expect("Cannot deserialize shape data");
 
         let name_data = data
             .get(&SoftMaxSerialKeys::Name)
             .expect("Cannot access name data");
-        self.name = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
 
-        return Ok(());
+        return self.fill_from_state(shape, &name);
     }
 }
 
-- 
2.43.0


From 75d49d511262d9e2391455cb6d669a0c59fc60ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 07/25] fix: a fully connected layer reports the depth of its
 input

---
 src/layer/fully_connected.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 41bf0ed..4adc6b1 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -209,7 +209,7 @@ impl Layer for FullyConnectedLayer {
         return TensorShape {
             di: self.weights.get_shape().dj,
             dj: 1,
-            dk: 1,
+            dk: self.weights.get_shape().dk,
         };
     }
 
-- 
2.43.0


From a12391c9381268fa3c2098d3b151a143b95caedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 08/25] fix: a fully connected backward pass keeps the
 rectifier mask and is refused as a whole

---
 src/layer/fully_connected.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 4adc6b1..625eeb6 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -174,14 +174,21 @@ impl Layer for FullyConnectedLayer {
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
         if self.run_state == NetworkRunState::Training {
-            // Apply the relu backrop
-            Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
+            if input.get_shape() != self.get_input_shape()
+                || incoming_gradient.get_shape() != self.get_output_shape()
+                || outgoing_gradient.get_shape() != self.get_input_shape()
+            {
+                return Err("Tensor shapes do not match the layer");
+            }
+            // Apply the relu backrop, keeping the mask for a next backward pass
+            let mut masked_gradient = self.relu_mask.clone();
+            Tensor::multiply_elementwise_self(&mut masked_gradient, incoming_gradient);
 
             // bias gradient
-            Tensor::add_to_self(&mut self.bias_gradients, &self.relu_mask);
+            Tensor::add_to_self(&mut self.bias_gradients, &masked_gradient);
             // weights gradient
             Tensor::matrix_multiply_transpose_second(
-                &self.relu_mask,
+                &masked_gradient,
                 input,
                 &mut self.weights_gradients_intermediate,
             )?;
@@ -192,7 +199,7 @@ impl Layer for FullyConnectedLayer {
             // outgoing gradient
             Tensor::matrix_multiply_transpose_first(
                 &self.weights,
-                &self.relu_mask,
+                &masked_gradient,
                 outgoing_gradient,
             )?;
             return Ok(());
-- 
2.43.0


From 9457276f1edacc5ed966172210c9f4502341a1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:39 +0000
Subject: [PATCH 09/25] fix: clearing gradients keeps what the last forward
 pass stored for backpropagation

---
 src/layer/fully_connected.rs | 1 -
 src/layer/max_pool.rs        | 4 +---
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 625eeb6..ff4a9b4 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -246,7 +246,6 @@ impl Layer for FullyConnectedLayer {
         self.weights_gradients_intermediate.fill_with_value(0.0);
         self.weights_gradients.fill_with_value(0.0);
         self.bias_gradients.fill_with_value(0.0);
-        self.relu_mask.fill_with_value(0.0);
     }
 
     fn get_serialized(self: &Self) -> SerializedLayer {
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index cc45f21..aefbaa4 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -227,9 +227,7 @@ impl Layer for MaxPoolLayer {
     }
 
     fn clear_gradients(self: &mut Self) {
-        for v in self.max_pool_origin.iter_mut() {
-            *v = 0;
-        }
+        // There are no parameters, and the origins belong to the last forward pass
     }
 
     fn switch_to_inference(self: &mut Self) {
-- 
2.43.0


From 9ad4ec4dc89e83d4aa993b1998ee6f6628e969d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 10/25] fix: a convolutional backward pass applies the
 rectifier mask and is refused in inference mode

---
 src/layer/convolutional.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 86886ac..cf8309e 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -247,9 +247,18 @@ impl Layer for ConvolutionalLayer {
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
-        // Relu backprop
-        // This repurposes the relu mask
-        tensor::Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
+        if self.run_state != NetworkRunState::Training {
+            return Err("Can only do backprop in training mode");
+        }
+        if input.get_shape() != self.input_shape
+            || incoming_gradient.get_shape() != self.output_shape
+            || outgoing_gradient.get_shape() != self.input_shape
+        {
+            return Err("Tensor shapes do not match the layer");
+        }
+        // Relu backprop, keeping the mask for a next backward pass
+        let mut masked_gradient = self.relu_mask.clone();
+        tensor::Tensor::multiply_elementwise_self(&mut masked_gradient, incoming_gradient);
 
         // Bias gradient
 
@@ -258,7 +267,7 @@ impl Layer for ConvolutionalLayer {
         // kernel gradients
         for i in 0..self.kernels.len() {
             tensor::operations::convolution::convolution_backprop_kernel(
-                incoming_gradient,
+                &masked_gradient,
                 input,
                 self.stride,
                 i as u32,
@@ -268,7 +277,7 @@ impl Layer for ConvolutionalLayer {
 
         // Outgoing gradient
         tensor::operations::convolution::convolution_backprop_outgoing_gradient(
-            incoming_gradient,
+            &masked_gradient,
             &self.kernels,
             self.stride,
             outgoing_gradient,
-- 
2.43.0


From b5018f1b0145f1812ae947ddfd9914a89b0255b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 11/25] fix: convolutional layers accumulate kernel and bias
 gradients until cleared

---
 src/layer/convolutional.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index cf8309e..208a1db 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -1,5 +1,5 @@
 use super::SerializedLayer;
-use crate::tensor::helper::TensorShape;
+use crate::tensor::helper::{TensorIndex, TensorShape};
 use crate::tensor::{self, Tensor};
 use crate::{layer::Layer, network::NetworkRunState};
 use std::collections::HashMap;
@@ -263,16 +263,33 @@ impl Layer for ConvolutionalLayer {
         // Bias gradient
 
         // Biases don't affect gradient propagation
+        for i in 0..self.biases.len() {
+            let mut bias_gradient = Tensor::new(TensorShape::new_1d(1));
+            let mut total = 0.0;
+            for b in 0..self.output_shape.dj {
+                for a in 0..self.output_shape.di {
+                    total += masked_gradient.get_item(&TensorIndex {
+                        i: a,
+                        j: b,
+                        k: i as u32,
+                    });
+                }
+            }
+            bias_gradient.fill_with_value(total);
+            Tensor::add_to_self(&mut self.bias_gradients[i], &bias_gradient);
+        }
 
         // kernel gradients
         for i in 0..self.kernels.len() {
+            let mut kernel_gradient = Tensor::new(self.kernels[i].get_shape());
             tensor::operations::convolution::convolution_backprop_kernel(
                 &masked_gradient,
                 input,
                 self.stride,
                 i as u32,
-                &mut self.kernel_gradients[i],
+                &mut kernel_gradient,
             )?;
+            Tensor::add_to_self(&mut self.kernel_gradients[i], &kernel_gradient);
         }
 
         // Outgoing gradient
@@ -305,6 +322,9 @@ impl Layer for ConvolutionalLayer {
         for v in &mut self.kernel_gradients {
             v.fill_with_value(0.0);
         }
+        for v in &mut self.bias_gradients {
+            v.fill_with_value(0.0);
+        }
     }
 
     fn switch_to_inference(self: &mut Self) {
-- 
2.43.0


From 85c709367edd422d2335f48ad6bb40b28fd3e36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 12/25] fix: a forward pass with tensors of the wrong shape is
 an error in every layer

---
 src/layer/convolutional.rs   | 3 +++
 src/layer/fully_connected.rs | 3 +++
 src/layer/max_pool.rs        | 3 +++
 src/layer/softmax.rs         | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 208a1db..4ca4509 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -208,6 +208,9 @@ impl ConvolutionalLayer {
 
 impl Layer for ConvolutionalLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        if input.get_shape() != self.input_shape || output.get_shape() != self.output_shape {
+            return Err("Tensor shapes do not match the layer");
+        }
         match self.run_state {
             NetworkRunState::Inference => {
                 // Do the fast single function version
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index ff4a9b4..cdf0c33 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -147,6 +147,9 @@ impl FullyConnectedLayer {
 
 impl Layer for FullyConnectedLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        if input.get_shape() != self.get_input_shape() || output.get_shape() != self.get_output_shape() {
+            return Err("Tensor shapes do not match the layer");
+        }
         match self.run_state {
             NetworkRunState::Inference => {
                 // Take the faster multiply add relu in 1 go
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index aefbaa4..774a273 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -149,6 +149,9 @@ impl MaxPoolLayer {
 
 impl Layer for MaxPoolLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        if input.get_shape() != self.input_shape || output.get_shape() != self.output_shape {
+            return Err("Tensor shapes do not match the layer");
+        }
         match self.run_state {
             NetworkRunState::Inference => {
                 Tensor::max_pool(input, &self.mask_shape, self.stride, output);
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 5f1ec7a..c9562b5 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -105,6 +105,9 @@ impl SoftmaxLayer {
 
 impl Layer for SoftmaxLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        if input.get_shape() != self.shape || output.get_shape() != self.shape {
+            return Err("Tensor shapes do not match the layer");
+        }
         Tensor::softmax(input, output);
         return Ok(());
     }
-- 
2.43.0


From 6e3de84e13cc8abaeaf281044aafbca90ccba09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 13/25] fix: max pool backpropagation is refused in inference
 mode and for wrong shapes

---
 src/layer/max_pool.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index 774a273..8e948af 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -176,6 +176,14 @@ impl Layer for MaxPoolLayer {
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
+        if self.run_state != NetworkRunState::Training {
+            return Err("Can only do backprop in training mode");
+        }
+        if incoming_gradient.get_shape() != self.output_shape
+            || outgoing_gradient.get_shape() != self.input_shape
+        {
+            return Err("Tensor shapes do not match the layer");
+        }
         // Make sure the outgoing gradient is clean
         outgoing_gradient.fill_with_value(0.0);
         // Perform the backprop
-- 
2.43.0


From 349958a8e5157f58bde6509d98054583a663f335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:37 +0000
Subject: [PATCH 14/25] fix: softmax backpropagation works for every shape the
 layer accepts

---
 src/layer/softmax.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index c9562b5..a2047c6 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -4,7 +4,7 @@ use std::collections::HashMap;
 
 use crate::layer::Layer;
 use crate::network::NetworkRunState;
-use crate::tensor::helper::TensorShape;
+use crate::tensor::helper::{TensorIndex, TensorShape};
 use crate::tensor::Tensor;
 
 use super::SerializedLayer;
@@ -121,19 +121,31 @@ impl Layer for SoftmaxLayer {
         if self.run_state == NetworkRunState::Inference {
             return Err("Can only do backprop in training mode");
         }
-        // softmax Transoped @ incoming gradient -> yields 1x1x1 tensors
-        Tensor::matrix_multiply_transpose_first(
-            output,
-            incoming_gradient,
-            &mut self.intermediate1,
-        )?;
+        if output.get_shape() != self.shape
+            || incoming_gradient.get_shape() != self.shape
+            || outgoing_gradient.get_shape() != self.shape
+        {
+            return Err("Tensor shapes do not match the layer");
+        }
+        // softmax times incoming gradient summed over all elements -> yields 1x1x1 tensors
+        let mut total = 0.0;
+        for k in 0..self.shape.dk {
+            for j in 0..self.shape.dj {
+                for i in 0..self.shape.di {
+                    let index = TensorIndex { i: i, j: j, k: k };
+                    total += output.get_item(&index) * incoming_gradient.get_item(&index);
+                }
+            }
+        }
+        self.intermediate1.fill_with_value(total);
 
         // Invert
         Tensor::scale_self(&mut self.intermediate1, -1.0);
 
         // Multiply with output
 
-        Tensor::matrix_multiply(output, &self.intermediate1, &mut self.intermediate2);
+        let scalar = self.intermediate1.get_item(&TensorIndex::zero());
+        Tensor::scale(output, scalar, &mut self.intermediate2);
 
         // Element wise multiplication for diagonal elements
         Tensor::multiply_elementwise(&output, incoming_gradient, outgoing_gradient);
-- 
2.43.0


From 9b182c507209153e3ff66c342fd69d6fc3496c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 15/25] fix: softmax does not overflow or vanish for large
 inputs

---
 src/tensor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index 6f8cda9..58e4240 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -599,9 +599,14 @@ impl Tensor {
 
     pub fn softmax(input: &Tensor, output: &mut Tensor) {
         if input.get_shape() == output.get_shape() {
+            // Shift by the largest value so the exponentials can't all over- or underflow
+            let mut max = f32::NEG_INFINITY;
+            for v in input.data.iter() {
+                max = max.max(*v);
+            }
             let mut sum = 0.0;
             for i in 0..input.data.len() {
-                let exp = input.data[i].exp();
+                let exp = (input.data[i] - max).exp();
                 output.data[i] = exp;
                 sum += exp;
             }
-- 
2.43.0


From 7cb9e1d180b838ce1d652451bf38217cd636a3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 16/25] fix: the origin of a max pooled element always lies in
 its own window

---
 src/tensor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index 58e4240..14b963c 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -573,7 +573,12 @@ impl Tensor {
 
                     let output_ti = TensorIndex { i: i, j: j, k: k };
                     let output_index = result.get_data_index(&output_ti);
-                    let mut input_index: u32 = 0;
+                    // Even if nothing exceeds negative infinity the origin is in the window
+                    let mut input_index = image.get_data_index(&TensorIndex {
+                        i: i * stride,
+                        j: j * stride,
+                        k,
+                    });
 
                     for jj in 0..mask_shape.dj {
                         for ii in 0..mask_shape.di {
-- 
2.43.0


From d4ad1f2969e384990db2b5785db952e2a59a1286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 17/25] fix: add_from_index_list changes nothing when it
 reports an error

---
 src/tensor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index 14b963c..fb6644c 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -159,10 +159,12 @@ impl Tensor {
             return Err("Index list is too long");
         }
         let t2_items = tensor2.get_shape().total_size();
-        for (t1_index, t2_index) in index_list.iter().enumerate() {
+        for t2_index in index_list.iter() {
             if *t2_index >= t2_items {
                 return Err("Tensor 2 index out of bounds");
             }
+        }
+        for (t1_index, t2_index) in index_list.iter().enumerate() {
             tensor2.data[*t2_index as usize] += tensor1.data[t1_index]
         }
 
-- 
2.43.0


From da7929516103b50ee779a52b49a865b59ba4f87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 18/25] fix: damaged layer data is an error instead of a panic

---
 src/layer/convolutional.rs   | 10 +++++-----
 src/layer/fully_connected.rs |  6 +++---
 src/layer/max_pool.rs        |  8 ++++----
 src/layer/softmax.rs         |  4 ++--
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 4ca4509..e2cff7c 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -177,30 +177,30 @@ impl ConvolutionalLayer {
             .get(&ConvolutionalSerialKeys::Kernels)
             .expect("Cannot access kernels data");
         let kernels: Vec<Tensor> =
-            bincode::deserialize(kernels_data).expect("Cannot deserialize kernels data");
+            bincode::deserialize(kernels_data).map_err(|_| "Cannot deserialize kernels data")?;
 
         let biases_data = data
             .get(&ConvolutionalSerialKeys::Biases)
             .expect("Cannot access biases data");
         let biases: Vec<Tensor> =
-            bincode::deserialize(biases_data).expect("Cannot deserialize biases data");
+            bincode::deserialize(biases_data).map_err(|_| "Cannot deserialize biases data")?;
 
         let input_shape_data = data
             .get(&ConvolutionalSerialKeys::InputShape)
             .expect("Cannot access input shape data");
         let input_shape: TensorShape =
-            bincode::deserialize(input_shape_data).expect("Cannot deserialize input shape data");
+            bincode::deserialize(input_shape_data).map_err(|_| "Cannot deserialize input shape data")?;
 
         let stride_data = data
             .get(&ConvolutionalSerialKeys::Stride)
             .expect("Cannot access stride data");
         let stride: u32 =
-            bincode::deserialize(&stride_data).expect("Cannot deserialize stride data");
+            bincode::deserialize(&stride_data).map_err(|_| "Cannot deserialize stride data")?;
 
         let name_data = data
             .get(&ConvolutionalSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
 
         return self.fill_from_state(kernels, biases, input_shape, stride, &name);
     }
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index cdf0c33..88ea2b8 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -129,17 +129,17 @@ impl FullyConnectedLayer {
             .get(&FullyConnectedSerialKeys::Weights)
             .expect("Cannot access weigths shape data");
         let weights: Tensor =
-            bincode::deserialize(weights_data).expect("Cannot deserialize weights data");
+            bincode::deserialize(weights_data).map_err(|_| "Cannot deserialize weights data")?;
 
         let bias_data = data
             .get(&FullyConnectedSerialKeys::Bias)
             .expect("Cannot access input shape data");
-        let bias: Tensor = bincode::deserialize(bias_data).expect("Cannot deserialize bias data");
+        let bias: Tensor = bincode::deserialize(bias_data).map_err(|_| "Cannot deserialize bias data")?;
 
         let name_data = data
             .get(&FullyConnectedSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
 
         return self.fill_from_state(weights, bias, &name);
     }
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index 8e948af..c2094e9 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -127,22 +127,22 @@ impl MaxPoolLayer {
             .get(&MaxPoolSerialKeys::MaskShape)
             .expect("Cannot access mask shape data");
         let mask_shape: TensorShape =
-            bincode::deserialize(mask_shape_data).expect("Cannot deserialize mask shape data");
+            bincode::deserialize(mask_shape_data).map_err(|_| "Cannot deserialize mask shape data")?;
         let input_shape_data = data
             .get(&MaxPoolSerialKeys::InputShape)
             .expect("Cannot access input shape data");
         let input_shape: TensorShape =
-            bincode::deserialize(input_shape_data).expect("Cannot deserialize input shape data");
+            bincode::deserialize(input_shape_data).map_err(|_| "Cannot deserialize input shape data")?;
         let stride_data = data
             .get(&MaxPoolSerialKeys::Stride)
             .expect("Cannot access stride data");
         let stride: u32 =
-            bincode::deserialize(&stride_data).expect("Cannot deserialize stride data");
+            bincode::deserialize(&stride_data).map_err(|_| "Cannot deserialize stride data")?;
 
         let name_data = data
             .get(&MaxPoolSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
         return self.fill_from_state(input_shape, mask_shape, stride, &name);
     }
 }
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index a2047c6..42329ba 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -92,12 +92,12 @@ impl SoftmaxLayer {
             .get(&SoftMaxSerialKeys::Shape)
             .expect("Cannot access shape data");
         let shape: TensorShape =
-            bincode::deserialize(shape_data).expect("Cannot deserialize shape data");
+            bincode::deserialize(shape_data).map_err(|_| "Cannot deserialize shape data")?;
 
         let name_data = data
             .get(&SoftMaxSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
 
         return self.fill_from_state(shape, &name);
     }
-- 
2.43.0


From 5d9d31a4043cc606a13241b01c8aa8616259ca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 19/25] fix: reading a tensor refuses inconsistent shape,
 strides and data

---
 src/tensor.rs        | 26 ++++++++++++++++++++++++++
 src/tensor/helper.rs |  5 +++++
 2 files changed, 31 insertions(+)

diff --git a/src/tensor.rs b/src/tensor.rs
index fb6644c..707c185 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -10,12 +10,38 @@ use std::error::Error;
 use std::fs;
 
 #[derive(Debug, Clone, Serialize, Deserialize)]
+#[serde(try_from = "UncheckedTensor")]
 pub struct Tensor {
     strides: TensorStride,
     shape: TensorShape,
     data: Vec<f32>,
 }
 
+// What is read from serialized data, before its parts are known to be consistent
+#[derive(Deserialize)]
+struct UncheckedTensor {
+    strides: TensorStride,
+    shape: TensorShape,
+    data: Vec<f32>,
+}
+
+impl std::convert::TryFrom<UncheckedTensor> for Tensor {
+    type Error = &'static str;
+
+    fn try_from(unchecked: UncheckedTensor) -> Result<Tensor, Self::Error> {
+        if unchecked.shape.checked_total_size().map(|t| t as usize) != Some(unchecked.data.len())
+            || unchecked.strides != TensorStride::new_from_shape(&unchecked.shape)
+        {
+            return Err("Tensor shape, strides and data are not consistent");
+        }
+        return Ok(Tensor {
+            strides: unchecked.strides,
+            shape: unchecked.shape,
+            data: unchecked.data,
+        });
+    }
+}
+
 impl PartialEq for Tensor {
     fn eq(&self, other: &Self) -> bool {
         if self.shape != other.shape {
diff --git a/src/tensor/helper.rs b/src/tensor/helper.rs
index 636e185..ff9d970 100644
--- a/src/tensor/helper.rs
+++ b/src/tensor/helper.rs
@@ -41,6 +41,11 @@ impl TensorShape {
         return self.di * self.dj * self.dk;
     }
 
+    // Calculate the total size, if it can be represented
+    pub fn checked_total_size(self: &Self) -> Option<u32> {
+        return self.di.checked_mul(self.dj)?.checked_mul(self.dk);
+    }
+
     pub fn fits_index(self: &Self, index: &TensorIndex) -> bool {
         // Check if an index fits in a certain shape
         if index.i >= self.di {
-- 
2.43.0


From aa9aa0a747e4463b0863318f046fb1163fdf7238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 20/25] fix: a failed load leaves the network as it was

---
 src/network.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/network.rs b/src/network.rs
index ccb6a72..237a291 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -95,7 +95,19 @@ impl Network {
     pub fn load_from_file(self: &mut Self, filename: &String) -> Result<(), Box<dyn Error>> {
         let file_content = fs::read(filename)?;
         let sn: SerializedNetwork = bincode::deserialize(&file_content)?;
-        sn.populate_network(self)?;
+        // Remember the current network so a failed load leaves it as it was
+        let number_of_layers = self.layers.len();
+        let number_of_states = self.intermediate_states.len();
+        let number_of_gradients = self.intermediate_gradients.len();
+        let (input_shape, output_shape) = (self.input_shape, self.output_shape);
+        if let Err(message) = sn.populate_network(self) {
+            self.layers.truncate(number_of_layers);
+            self.intermediate_states.truncate(number_of_states);
+            self.intermediate_gradients.truncate(number_of_gradients);
+            self.input_shape = input_shape;
+            self.output_shape = output_shape;
+            return Err(message.into());
+        }
         return Ok(());
     }
 
-- 
2.43.0


From 9f3237cfe8556e578e25092dde4a477a993ceae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 21/25] fix: refuse layers whose shapes overflow the size of a
 tensor

---
 src/network.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/network.rs b/src/network.rs
index 237a291..de3d841 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -115,6 +115,13 @@ impl Network {
         self: &mut Self,
         mut layer: T,
     ) -> Result<(), &'static str> {
+        // Make sure tensors of the layer's shapes can exist
+        if layer.get_input_shape().checked_total_size().is_none()
+            || layer.get_output_shape().checked_total_size().is_none()
+        {
+            return Err("Layer input or output shape is too large");
+        }
+
         // Make sure the new layer is in the correct state
         match self.run_state {
             NetworkRunState::Inference => {
-- 
2.43.0


From cf23f1063059fff26f8b30d4d3c4d16e70cf98f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 22/25] fix: refuse kernels and masks without elements

---
 src/tensor.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index 707c185..f30ddc7 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -477,7 +477,10 @@ impl Tensor {
         kernel_shape: &TensorShape,
         stride: u32,
     ) -> bool {
-        if stride == 0 || kernel_shape.di > image_shape.di || kernel_shape.dj > image_shape.dj {
+        if stride == 0 || kernel_shape.di == 0 || kernel_shape.dj == 0 {
+            return false;
+        }
+        if kernel_shape.di > image_shape.di || kernel_shape.dj > image_shape.dj {
             return false;
         }
         if (image_shape.di - kernel_shape.di) % stride != 0 {
@@ -517,7 +520,10 @@ impl Tensor {
         }
 
         // The mask can't be larger than the image and needs to move
-        if stride == 0 || mask_shape.di > image_shape.di || mask_shape.dj > image_shape.dj {
+        if stride == 0 || mask_shape.di == 0 || mask_shape.dj == 0 {
+            return false;
+        }
+        if mask_shape.di > image_shape.di || mask_shape.dj > image_shape.dj {
             return false;
         }
 
-- 
2.43.0


From 44e9af5f4f40712d3c51fcf8f2bdf3f6cd117461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 23/25] hook: read access to parameter gradients under cfg
 rn_mc

---
 src/layer/convolutional.rs   | 10 ++++++++++
 src/layer/fully_connected.rs |  8 ++++++++
 src/lib.rs                   |  2 ++
 3 files changed, 20 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index e2cff7c..6d935fe 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -206,6 +206,16 @@ impl ConvolutionalLayer {
     }
 }
 
+#[cfg(rn_mc)]
+impl ConvolutionalLayer {
+    // Model checking hook: the accumulated gradients, kernels first, then biases
+    pub fn mc_parameter_gradients(self: &Self) -> Vec<Tensor> {
+        let mut gradients = self.kernel_gradients.clone();
+        gradients.extend(self.bias_gradients.iter().cloned());
+        return gradients;
+    }
+}
+
 impl Layer for ConvolutionalLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
         if input.get_shape() != self.input_shape || output.get_shape() != self.output_shape {
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 88ea2b8..7c3e3fb 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -145,6 +145,14 @@ impl FullyConnectedLayer {
     }
 }
 
+#[cfg(rn_mc)]
+impl FullyConnectedLayer {
+    // Model checking hook: the accumulated gradients of the weights, then of the bias
+    pub fn mc_parameter_gradients(self: &Self) -> Vec<Tensor> {
+        return vec![self.weights_gradients.clone(), self.bias_gradients.clone()];
+    }
+}
+
 impl Layer for FullyConnectedLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
         if input.get_shape() != self.get_input_shape() || output.get_shape() != self.get_output_shape() {
diff --git a/src/lib.rs b/src/lib.rs
index bdf9415..9fe9637 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+// rn_mc is set from outside by the model checking harness
+#![allow(unexpected_cfgs)]
 pub mod tensor;
 
 pub mod layer;
-- 
2.43.0


From 8fbf0cbd38380508e22a7c79fe9e8073fab5c3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 24/25] fix: an unconfigured convolutional layer is a working
 1x1x1 layer

---
 src/layer/convolutional.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 6d935fe..d0bae18 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -72,9 +72,10 @@ impl ConvolutionalLayer {
     }
 
     pub fn empty() -> Self {
+        // A single 1x1x1 kernel, in line with the shapes below
         let cl = ConvolutionalLayer {
-            kernels: vec![],
-            biases: vec![],
+            kernels: vec![Tensor::empty()],
+            biases: vec![Tensor::empty()],
             kernel_gradients: vec![],
             bias_gradients: vec![],
             relu_mask: Tensor::empty(),
-- 
2.43.0


From 63a703930d8b11c39d4d7995986fbec147be436f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 25/25] fix: a fully connected layer can be created without
 outputs

---
 src/layer/fully_connected.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 7c3e3fb..eb3e51d 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -49,11 +49,7 @@ impl FullyConnectedLayer {
     pub fn new(input_size: u32, output_size: u32, name: &String) -> FullyConnectedLayer {
         let mut fcl = FullyConnectedLayer::empty();
         let weights = Tensor::new(TensorShape::new(output_size, input_size, 1));
-        let bias: Tensor = Tensor::new(TensorShape {
-            di: output_size,
-            dj: 1,
-            dk: 1,
-        });
+        let bias: Tensor = Tensor::new(TensorShape::new(output_size, 1, 1));
         fcl.fill_from_state(weights, bias, name).unwrap();
         return fcl;
     }
-- 
2.43.0

