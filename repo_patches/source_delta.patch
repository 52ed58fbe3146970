From 04672d7d1fe42609e685ccd54766e52b96b750f0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:03 +0000
Subject: [PATCH 01/60] fix: global max pooling skipped the first column of
 every row but the first

---
 pico-cnn/layers/pooling/global_max_pooling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico-cnn/layers/pooling/global_max_pooling.cpp b/pico-cnn/layers/pooling/global_max_pooling.cpp
index 96f52f9..2a1930e 100644
--- a/pico-cnn/layers/pooling/global_max_pooling.cpp
+++ b/pico-cnn/layers/pooling/global_max_pooling.cpp
@@ -27,7 +27,7 @@ void pico_cnn::naive::GlobalMaxPooling::pool(pico_cnn::naive::Tensor *input, pic
                                                num_channels, height, width);
 
                 for (uint32_t row = 0; row < height; row++) {
-                    for (uint32_t col = 1; col < width; col++) {
+                    for (uint32_t col = 0; col < width; col++) {
 
                         candidate = input->access(batch, channel, row, col, num_channels, height, width);
 
@@ -48,7 +48,7 @@ void pico_cnn::naive::GlobalMaxPooling::pool(pico_cnn::naive::Tensor *input, pic
                                                num_channels, width);
 
                 for (uint32_t row = 0; row < height; row++) {
-                    for (uint32_t col = 1; col < width; col++) {
+                    for (uint32_t col = 0; col < width; col++) {
 
                         candidate = input->access(batch, channel, col, num_channels, width);
 
-- 
2.43.0


From a127a493271984a149cef1a1a1544d20511eca8b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:27 +0000
Subject: [PATCH 02/60] fix: max pooling let zero padding win over negative
 inputs

---
 pico-cnn/layers/pooling/max_pooling.h | 5 +++++
 pico-cnn/layers/pooling/pooling.cpp   | 2 +-
 pico-cnn/layers/pooling/pooling.h     | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pico-cnn/layers/pooling/max_pooling.h b/pico-cnn/layers/pooling/max_pooling.h
index 4bd2236..a56d047 100644
--- a/pico-cnn/layers/pooling/max_pooling.h
+++ b/pico-cnn/layers/pooling/max_pooling.h
@@ -6,6 +6,8 @@
 #ifndef PICO_CNN_MAX_POOLING_H
 #define PICO_CNN_MAX_POOLING_H
 
+#include <limits>
+
 #include "../../parameters.h"
 #include "../../tensor.h"
 #include "../layer.h"
@@ -21,6 +23,9 @@ namespace pico_cnn {
 
         private:
             void pool(Tensor *input, Tensor *output) override;
+
+            // Padded positions must never win against real input elements.
+            fp_t padding_value() const override { return -std::numeric_limits<fp_t>::infinity(); }
         };
     }
 }
diff --git a/pico-cnn/layers/pooling/pooling.cpp b/pico-cnn/layers/pooling/pooling.cpp
index f9a413b..85cf001 100644
--- a/pico-cnn/layers/pooling/pooling.cpp
+++ b/pico-cnn/layers/pooling/pooling.cpp
@@ -38,7 +38,7 @@ void pico_cnn::naive::Pooling::run(pico_cnn::naive::Tensor *input, pico_cnn::nai
         Tensor *input_tensor;
 
         if (padding_) {
-            input_tensor = input->expand_with_padding(padding_);
+            input_tensor = input->expand_with_padding(padding_, padding_value());
         } else {
             input_tensor = input;
         }
diff --git a/pico-cnn/layers/pooling/pooling.h b/pico-cnn/layers/pooling/pooling.h
index 56b0012..fd66323 100644
--- a/pico-cnn/layers/pooling/pooling.h
+++ b/pico-cnn/layers/pooling/pooling.h
@@ -22,6 +22,9 @@ namespace pico_cnn {
         protected:
             virtual void pool(Tensor *input, Tensor *output) = 0;
 
+            // Value of the padded positions.
+            virtual fp_t padding_value() const { return 0.0; }
+
             uint32_t *kernel_size_;
             uint32_t *stride_;
             uint32_t *padding_;
-- 
2.43.0


From 9916e4a743a0cc6f799224ae674326ba3b793f80 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:27 +0000
Subject: [PATCH 03/60] fix: average pooling without counted padding read
 missing or too large paddings

---
 pico-cnn/layers/pooling/average_pooling.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pico-cnn/layers/pooling/average_pooling.cpp b/pico-cnn/layers/pooling/average_pooling.cpp
index ba80c79..d4b7c42 100644
--- a/pico-cnn/layers/pooling/average_pooling.cpp
+++ b/pico-cnn/layers/pooling/average_pooling.cpp
@@ -5,7 +5,8 @@ pico_cnn::naive::AveragePooling::AveragePooling(std::string name, uint32_t id, p
                                                 bool count_include_pad) :
                                                 Pooling(name, id, op, kernel_size, stride, padding) {
 
-    count_include_pad_ = count_include_pad;
+    // Without padding both modes are the same.
+    count_include_pad_ = count_include_pad || !padding;
 }
 
 void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_cnn::naive::Tensor *output) {
@@ -89,8 +90,8 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
                             }
 
                             // center case
-                            if (output_channel_row >= padding_[0] && output_channel_row < output_channel_height - padding_[2] &&
-                                output_channel_column >= padding_[1] && output_channel_column < output_channel_width - padding_[3]) {
+                            if (output_channel_row >= padding_[0] && output_channel_row + padding_[2] < output_channel_height &&
+                                output_channel_column >= padding_[1] && output_channel_column + padding_[3] < output_channel_width) {
 
                                 output->access(batch, channel, output_channel_row, output_channel_column,
                                                num_channels, output_height, output_width) = pixel / ((fp_t) (kernel_size_[0] * kernel_size_[1]));
@@ -187,7 +188,7 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
                         }
 
                         // center case
-                        if (output_channel_column >= padding_[0] && output_channel_column < output_channel_width - padding_[1]) {
+                        if (output_channel_column >= padding_[0] && output_channel_column + padding_[1] < output_channel_width) {
 
                             output->access(batch, channel, output_channel_column,
                                            num_channels, output_width) = pixel / ((fp_t) (kernel_size_[0]));
-- 
2.43.0


From 0d3fff571a9b45eb6642e2c90beb20ad8e65d3a3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:08 +0000
Subject: [PATCH 04/60] fix: softmax overflowed to NaN for large inputs

---
 pico-cnn/layers/activation_functions/softmax.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pico-cnn/layers/activation_functions/softmax.cpp b/pico-cnn/layers/activation_functions/softmax.cpp
index b36f32d..1097809 100644
--- a/pico-cnn/layers/activation_functions/softmax.cpp
+++ b/pico-cnn/layers/activation_functions/softmax.cpp
@@ -19,12 +19,19 @@ namespace pico_cnn {
 
             uint32_t num_elements = input->num_elements();
 
+            // Subtracting the maximum keeps the exponentials from overflowing.
+            long double maximum = -INFINITY;
+
+            for(uint32_t i = 0; i < num_elements; i++) {
+                maximum = MAX(maximum, (long double)input->access_blob(i));
+            }
+
             for(uint32_t i = 0; i < num_elements; i++) {
-                denominator += expl((long double)input->access_blob(i));
+                denominator += expl((long double)input->access_blob(i) - maximum);
             }
 
             for(uint32_t i = 0; i < num_elements; i++) {
-                output->access_blob(i) = (fp_t)(expl((long double)input->access_blob(i)) / denominator);
+                output->access_blob(i) = (fp_t)(expl((long double)input->access_blob(i) - maximum) / denominator);
             }
         }
     }
-- 
2.43.0


From 6455879878c8214e1afae5201ac861bb9a209a48 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:08 +0000
Subject: [PATCH 05/60] fix: parameterized ReLU read past the end of a slope
 tensor smaller than its input

---
 pico-cnn/layers/activation_functions/relu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico-cnn/layers/activation_functions/relu.cpp b/pico-cnn/layers/activation_functions/relu.cpp
index 68ab883..6f4440b 100644
--- a/pico-cnn/layers/activation_functions/relu.cpp
+++ b/pico-cnn/layers/activation_functions/relu.cpp
@@ -44,7 +44,7 @@ namespace pico_cnn {
         }
 
         void ParameterizedReLU::run(Tensor *input, Tensor *output) {
-            if (input->num_dimensions() != slope_->num_dimensions()){
+            if (input->num_dimensions() != slope_->num_dimensions() || input->num_elements() != slope_->num_elements()){
                 PRINT_ERROR_AND_DIE("Broadcasting is not supported at the moment.")
             } else {
                 this->activate(input, output);
-- 
2.43.0


From ec3ab44de98af5db0a4cc94bc4ce84ff3a8771fb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:08 +0000
Subject: [PATCH 06/60] fix: tensor equality ignored the number of dimensions
 and read past the shorter shape

---
 pico-cnn/tensor.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pico-cnn/tensor.h b/pico-cnn/tensor.h
index e86c6c1..22c8461 100644
--- a/pico-cnn/tensor.h
+++ b/pico-cnn/tensor.h
@@ -92,6 +92,10 @@ namespace pico_cnn {
             void mul_with_factor(Tensor *other, fp_t factor);
 
             bool operator ==(const Tensor &other) const {
+                if (num_dimensions_ != other.num_dimensions_) {
+                    PRINT_ERROR("Number of dimensions does not match: " << num_dimensions_ << " != " << other.num_dimensions_)
+                    return false;
+                }
                 for (uint32_t i = 0; i < num_dimensions_; i++) {
                     if(shape_[i] != other.shape_[i]) {
                         PRINT_ERROR("Shape does not match at position " << i << ": " << shape_[i] << " != " << other.shape_[i])
-- 
2.43.0


From 682340560ab66d249d950b4d5be7eaeb79ab6589 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:23 +0000
Subject: [PATCH 07/60] fix: concatenation overwrote 2D inputs and copied only
 the first batch

---
 pico-cnn/tensor.cpp | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/pico-cnn/tensor.cpp b/pico-cnn/tensor.cpp
index 34fc60b..e9dde36 100644
--- a/pico-cnn/tensor.cpp
+++ b/pico-cnn/tensor.cpp
@@ -377,29 +377,23 @@ namespace pico_cnn {
 
             // concatenate along channels
             if(dimension == 1) {
-                uint32_t output_channel_counter = 0;
+                // A 2D tensor is (batches, channels).
+                const uint32_t num_batches = shape_[0];
+                const uint32_t batch_size = num_elements_ / num_batches;
+                uint32_t offset = 0;
 
                 for(uint32_t input_id = 0; input_id < num_inputs; input_id++){
 
                     Tensor *input = inputs[input_id];
 
-                    //uint32_t num_batches = input->num_batches();
-                    uint32_t num_input_channels = input->num_channels();
-                    uint32_t input_channel_size = input->height() * input->width();
+                    const uint32_t input_batch_size = input->num_elements() / num_batches;
 
-                    fp_t *input_channel_ptr;
-                    fp_t *output_channel_ptr;
-
-                    for (uint32_t input_channel = 0; input_channel < num_input_channels; input_channel++) {
-
-                        input_channel_ptr = input->get_ptr_to_channel(0, input_channel);
-                        output_channel_ptr = this->get_ptr_to_channel(0, output_channel_counter+input_channel);
-
-                        std::memcpy(output_channel_ptr,
-                                    input_channel_ptr,
-                                    input_channel_size * sizeof(fp_t));
+                    for (uint32_t batch = 0; batch < num_batches; batch++) {
+                        std::memcpy(data_ + batch * batch_size + offset,
+                                    input->data_ + batch * input_batch_size,
+                                    input_batch_size * sizeof(fp_t));
                     }
-                    output_channel_counter += num_input_channels;
+                    offset += input_batch_size;
                 }
 
             } else {
-- 
2.43.0


From 030c3ca09cee1489a25d658b44e669b31dd9d098 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:46 +0000
Subject: [PATCH 08/60] fix: reading a missing weights or reference file
 crashed

---
 pico-cnn/io/read_binary_reference_data.cpp | 6 ++++++
 pico-cnn/io/read_binary_weights.cpp        | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/pico-cnn/io/read_binary_reference_data.cpp b/pico-cnn/io/read_binary_reference_data.cpp
index 125fe60..b7473cf 100644
--- a/pico-cnn/io/read_binary_reference_data.cpp
+++ b/pico-cnn/io/read_binary_reference_data.cpp
@@ -131,6 +131,9 @@ int32_t read_binary_reference_input_data(const char* path_to_sample_data, pico_c
             return 1;
         }
         PRINT_DEBUG(end_marker)
+    } else {
+        PRINT_ERROR("ERROR: Could not open file: " << path_to_sample_data)
+        return 1;
     }
     fclose(binary_file);
 
@@ -229,6 +232,9 @@ int32_t read_binary_reference_output_data(const char* path_to_sample_data, pico_
             return 1;
         }
         PRINT_DEBUG(end_marker)
+    } else {
+        PRINT_ERROR("ERROR: Could not open file: " << path_to_sample_data)
+        return 1;
     }
     fclose(binary_file);
 
diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 4f253b5..8e94f02 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -382,6 +382,9 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
         }
         PRINT_DEBUG(end_marker)
 
+    } else {
+        PRINT_ERROR("ERROR: Could not open weights file: " << path_to_weights_file)
+        return 1;
     }
     fclose(binary_file);
     return 0;
-- 
2.43.0


From 7155fabcaf4402cb0c4b72152122a23599b18246 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:46 +0000
Subject: [PATCH 09/60] fix: truncated weights and reference files freed arrays
 with free() and leaked the file

---
 pico-cnn/io/read_binary_reference_data.cpp |  5 +++--
 pico-cnn/io/read_binary_weights.cpp        | 18 +++++++++---------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/pico-cnn/io/read_binary_reference_data.cpp b/pico-cnn/io/read_binary_reference_data.cpp
index b7473cf..5c5b6e5 100644
--- a/pico-cnn/io/read_binary_reference_data.cpp
+++ b/pico-cnn/io/read_binary_reference_data.cpp
@@ -102,7 +102,8 @@ int32_t read_binary_reference_input_data(const char* path_to_sample_data, pico_c
 
             if(numbers_read != height*width) {
                 PRINT_ERROR("ERROR reading data. numbers_read = " << numbers_read)
-                free(values);
+                delete[] values;
+                fclose(binary_file);
                 return 1;
             } else {
                 #ifdef DEBUG
@@ -202,7 +203,7 @@ int32_t read_binary_reference_output_data(const char* path_to_sample_data, pico_
 
         if(fread((void*)values, sizeof(float), num_outputs, binary_file) != num_outputs) {
             PRINT_ERROR("ERROR reading output values.")
-            free(values);
+            delete[] values;
             fclose(binary_file);
             return 1;
         }
diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 8e94f02..04a25aa 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -125,7 +125,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                         for (uint32_t in_ch = 0; in_ch < num_input_channels; in_ch++) {
                             if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
                                 PRINT_ERROR("ERROR while reading kernel values.")
-                                free(values);
+                                delete[] values;
                                 fclose(binary_file);
                                 return 1;
                             }
@@ -152,7 +152,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
                         PRINT_ERROR("ERROR while reading bias values.")
-                        free(bias_values);
+                        delete[] bias_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -178,7 +178,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) gamma_values, sizeof(float), num_gamma, binary_file) != num_gamma) {
                         PRINT_ERROR("ERROR while reading gamma values.")
-                        free(gamma_values);
+                        delete[] gamma_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -203,7 +203,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) beta_values, sizeof(float), num_beta, binary_file) != num_beta) {
                         PRINT_ERROR("ERROR while reading beta values.")
-                        free(beta_values);
+                        delete[] beta_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -228,7 +228,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) mean_values, sizeof(float), num_mean, binary_file) != num_mean) {
                         PRINT_ERROR("ERROR while reading mean values.")
-                        free(mean_values);
+                        delete[] mean_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -253,7 +253,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) variance_values, sizeof(float), num_variance, binary_file) != num_variance) {
                         PRINT_ERROR("ERROR while reading variance values.")
-                        free(variance_values);
+                        delete[] variance_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -299,7 +299,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 for(kernel = 0; kernel < num_kernels; kernel++) {
                     if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
                         PRINT_ERROR("ERROR while reading kernel values.")
-                        free(values);
+                        delete[] values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -323,7 +323,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
                         PRINT_ERROR("ERROR while reading bias values.")
-                        free(bias_values);
+                        delete[] bias_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -347,7 +347,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
                         PRINT_ERROR("ERROR while reading bias values.")
-                        free(bias_values);
+                        delete[] bias_values;
                         fclose(binary_file);
                         return 1;
                     }
-- 
2.43.0


From f940e3baffc67992f0c444d583a28f36794c4dac Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:20 +0000
Subject: [PATCH 10/60] fix: names of 100 or more characters in a weights file
 overflowed the stack

---
 pico-cnn/io/read_binary_weights.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 04a25aa..68dc537 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -33,9 +33,10 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 fclose(binary_file);
                 return 1;
             }
-            buffer[i] = c;
+            if(i < sizeof(buffer))
+                buffer[i] = c;
         }
-        buffer[i-1] = '\0'; //terminate string correctly
+        buffer[MIN(i, sizeof(buffer))-1] = '\0'; //terminate string correctly
 
         PRINT_DEBUG(buffer)
 
@@ -67,9 +68,10 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                     fclose(binary_file);
                     return 1;
                 }
-                buffer[i] = c;
+                if(i < sizeof(buffer))
+                    buffer[i] = c;
             }
-            buffer[i-1] = '\0'; //terminate string correctly
+            buffer[MIN(i, sizeof(buffer))-1] = '\0'; //terminate string correctly
 
             // Read layer type
             char buffer_layer_type[100];
@@ -81,9 +83,10 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                     fclose(binary_file);
                     return 1;
                 }
-                buffer_layer_type[i] = c;
+                if(i < sizeof(buffer_layer_type))
+                    buffer_layer_type[i] = c;
             }
-            buffer_layer_type[i-1] = '\0'; //terminate string correctly
+            buffer_layer_type[MIN(i, sizeof(buffer_layer_type))-1] = '\0'; //terminate string correctly
 
             PRINT_DEBUG("Layer " << layer << ": " << buffer << " of type: " << buffer_layer_type)
 
-- 
2.43.0


From 2c3c4400c14635354a68db317f1ca498bf2dfa27 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:20 +0000
Subject: [PATCH 11/60] fix: a shared Gemm or MatMul kernel in a weights file
 terminated the process

---
 pico-cnn/io/read_binary_weights.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 68dc537..5abd12e 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -293,25 +293,28 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                 PRINT_DEBUG("Num kernels: " << num_kernels << ", height: " << kernel_height << ", width: " << kernel_width << ", kernel_idx: " << kernel_idx)
 
-                uint32_t kernel;
-                auto *values = new fp_t[kernel_height*kernel_width]();
+                if(num_kernels > 1) {
+                    PRINT_ERROR("ERROR: Number of kernels > 1")
+                    fclose(binary_file);
+                    return 1;
+                }
 
-                if(num_kernels != 1)
-                    PRINT_ERROR_AND_DIE("Number of kernels != 1")
+                // No kernel: it is shared with a previous layer.
+                if(num_kernels) {
+                    auto *values = new fp_t[kernel_height*kernel_width]();
 
-                for(kernel = 0; kernel < num_kernels; kernel++) {
                     if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
                         PRINT_ERROR("ERROR while reading kernel values.")
                         delete[] values;
                         fclose(binary_file);
                         return 1;
                     }
-                    std::memcpy((*kernels)[kernel_idx]->get_ptr_to_channel(0, kernel), values, kernel_height*kernel_width*sizeof(fp_t));
-                }
+                    std::memcpy((*kernels)[kernel_idx]->get_ptr_to_channel(0, 0), values, kernel_height*kernel_width*sizeof(fp_t));
 
-                kernel_idx++;
+                    kernel_idx++;
 
-                delete[] values;
+                    delete[] values;
+                }
 
                 uint32_t num_biases = 0;
                 if(fread((void *) &num_biases, sizeof(num_biases), 1, binary_file) != 1) {
-- 
2.43.0


From 4f967962f75192d241c520e148dec4795288deb7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:23 +0000
Subject: [PATCH 12/60] fix: counts in a weights file were not checked against
 the tensors they are stored into

---
 onnx_import/backend.py              |  9 +++--
 pico-cnn/io/read_binary_weights.cpp | 58 +++++++++++++++++++++++++++++
 pico-cnn/io/read_binary_weights.h   |  6 +++
 3 files changed, 70 insertions(+), 3 deletions(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 7625688..0e73f36 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -318,9 +318,12 @@ class BackendRep(backend_base.BackendRep):
                         else:
                             num_kernels += 1
 
-        """The arrays kernels and biases will be used to pass only two variables to read_binary_weights"""
-        constructor_code += "    kernels = new pico_cnn::naive::Tensor*[{}]();\n".format(num_kernels)
-        constructor_code += "    biases = new pico_cnn::naive::Tensor*[{}]();\n\n".format(num_biases)
+        """
+        The arrays kernels and biases will be used to pass only two variables to read_binary_weights.
+        They are terminated by a nullptr.
+        """
+        constructor_code += "    kernels = new pico_cnn::naive::Tensor*[{}]();\n".format(num_kernels + 1)
+        constructor_code += "    biases = new pico_cnn::naive::Tensor*[{}]();\n\n".format(num_biases + 1)
 
         pos = -1
         pos_kernel = -1
diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 5abd12e..bd2706c 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -1,5 +1,18 @@
 #include "read_binary_weights.h"
 
+// Checks that the next tensor exists and holds exactly the number of values the file provides for it.
+static bool fits(pico_cnn::naive::Tensor *tensor, uint64_t num_values) {
+    return tensor && tensor->num_elements() == num_values;
+}
+
+// Additionally checks the kernel layout expected by get_ptr_to_channel().
+static bool fits(pico_cnn::naive::Tensor *tensor, uint32_t num_output_channels, uint32_t num_input_channels,
+                 uint32_t height, uint32_t width) {
+    return tensor && (tensor->num_dimensions() == 4 || tensor->num_dimensions() == 3) &&
+           tensor->num_batches() == num_output_channels && tensor->num_channels() == num_input_channels &&
+           tensor->height() == height && tensor->width() == width;
+}
+
 int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::Tensor ***kernels, pico_cnn::naive::Tensor ***biases) {
 
     FILE *binary_file;
@@ -122,6 +135,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                             kernel_width << ", kernel_idx: " << kernel_idx)
 
                 if(kernel_height != 0 && kernel_width != 0 && num_output_channels != 0 && num_input_channels != 0) {
+                    if(!fits((*kernels)[kernel_idx], num_output_channels, num_input_channels, kernel_height, kernel_width)) {
+                        PRINT_ERROR("ERROR: Kernel does not match the network. kernel_idx: " << kernel_idx)
+                        fclose(binary_file);
+                        return 1;
+                    }
                     auto *values = new fp_t[kernel_height*kernel_width]();
 
                     for (uint32_t out_ch = 0; out_ch < num_output_channels; out_ch++) {
@@ -151,6 +169,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of biases: " << num_biases)
 
                 if (num_biases) {
+                    if(!fits((*biases)[bias_idx], num_biases)) {
+                        PRINT_ERROR("ERROR: Number of values does not match the network. bias_idx: " << bias_idx)
+                        fclose(binary_file);
+                        return 1;
+                    }
                     auto *bias_values = new fp_t[num_biases]();
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
@@ -177,6 +200,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of gamma values: " << num_gamma)
 
                 if(num_gamma) {
+                    if(!fits((*biases)[bias_idx], num_gamma)) {
+                        PRINT_ERROR("ERROR: Number of values does not match the network. bias_idx: " << bias_idx)
+                        fclose(binary_file);
+                        return 1;
+                    }
                     auto* gamma_values = new fp_t[num_gamma]();
 
                     if(fread((void *) gamma_values, sizeof(float), num_gamma, binary_file) != num_gamma) {
@@ -202,6 +230,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of beta values: " << num_beta)
 
                 if(num_beta) {
+                    if(!fits((*biases)[bias_idx], num_beta)) {
+                        PRINT_ERROR("ERROR: Number of values does not match the network. bias_idx: " << bias_idx)
+                        fclose(binary_file);
+                        return 1;
+                    }
                     auto *beta_values = new fp_t[num_beta]();
 
                     if(fread((void *) beta_values, sizeof(float), num_beta, binary_file) != num_beta) {
@@ -227,6 +260,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of mean values: " << num_mean)
 
                 if(num_mean) {
+                    if(!fits((*biases)[bias_idx], num_mean)) {
+                        PRINT_ERROR("ERROR: Number of values does not match the network. bias_idx: " << bias_idx)
+                        fclose(binary_file);
+                        return 1;
+                    }
                     auto *mean_values = new fp_t[num_mean]();
 
                     if(fread((void *) mean_values, sizeof(float), num_mean, binary_file) != num_mean) {
@@ -252,6 +290,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of variance values: " << num_variance)
 
                 if(num_variance) {
+                    if(!fits((*biases)[bias_idx], num_variance)) {
+                        PRINT_ERROR("ERROR: Number of values does not match the network. bias_idx: " << bias_idx)
+                        fclose(binary_file);
+                        return 1;
+                    }
                     auto *variance_values = new fp_t[num_variance]();
 
                     if(fread((void *) variance_values, sizeof(float), num_variance, binary_file) != num_variance) {
@@ -301,6 +344,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                 // No kernel: it is shared with a previous layer.
                 if(num_kernels) {
+                    if(!fits((*kernels)[kernel_idx], (uint64_t) kernel_height * kernel_width)) {
+                        PRINT_ERROR("ERROR: Kernel does not match the network. kernel_idx: " << kernel_idx)
+                        fclose(binary_file);
+                        return 1;
+                    }
                     auto *values = new fp_t[kernel_height*kernel_width]();
 
                     if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
@@ -325,6 +373,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of biases: " << num_biases)
 
                 if(num_biases) {
+                    if(!fits((*biases)[bias_idx], num_biases)) {
+                        PRINT_ERROR("ERROR: Number of values does not match the network. bias_idx: " << bias_idx)
+                        fclose(binary_file);
+                        return 1;
+                    }
                     auto *bias_values = new fp_t[num_biases]();
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
@@ -349,6 +402,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of biases: " << num_biases)
 
                 if (num_biases) {
+                    if(!fits((*biases)[bias_idx], num_biases)) {
+                        PRINT_ERROR("ERROR: Number of values does not match the network. bias_idx: " << bias_idx)
+                        fclose(binary_file);
+                        return 1;
+                    }
                     auto *bias_values = new fp_t[num_biases]();
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
diff --git a/pico-cnn/io/read_binary_weights.h b/pico-cnn/io/read_binary_weights.h
index 426caf6..2adb599 100644
--- a/pico-cnn/io/read_binary_weights.h
+++ b/pico-cnn/io/read_binary_weights.h
@@ -15,6 +15,12 @@
 
 #include "../tensor.h"
 
+/**
+ * Reads a weights file into the tensors of a network.
+ * @param kernels nullptr-terminated array of kernel tensors
+ * @param biases nullptr-terminated array of bias (and other one-dimensional parameter) tensors
+ * @return 0 on success, 1 if the file cannot be read or does not match the tensors
+ */
 int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::Tensor ***kernels, pico_cnn::naive::Tensor ***biases);
 
 #endif //PICO_CNN_READ_BINARY_WEIGHTS_H
-- 
2.43.0


From 4a5910a5bfe2a9e36632fd7af6736769d5e69535 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:35 +0000
Subject: [PATCH 13/60] fix: truncated MNIST files were not detected

---
 pico-cnn/io/read_mnist.cpp | 46 ++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/pico-cnn/io/read_mnist.cpp b/pico-cnn/io/read_mnist.cpp
index 9e458d1..bcca26c 100644
--- a/pico-cnn/io/read_mnist.cpp
+++ b/pico-cnn/io/read_mnist.cpp
@@ -15,10 +15,10 @@ uint32_t read_mnist_images(const char* path_to_mnist_images, fp_t*** mnist_image
     images = fopen(path_to_mnist_images, "r");
 
     if(images != nullptr) {
-        uint32_t magic_number;
-        uint32_t num_images_provided;
-        uint32_t height;
-        uint32_t width;
+        uint32_t magic_number = 0;
+        uint32_t num_images_provided = 0;
+        uint32_t height = 0;
+        uint32_t width = 0;
         fp_t range = fabs(lower_bound - upper_bound);
 
         uint32_t i;
@@ -38,7 +38,11 @@ uint32_t read_mnist_images(const char* path_to_mnist_images, fp_t*** mnist_image
         fread(&height, sizeof(height), 1, images);
         height = change_endianess(height);
 
-        fread(&width, sizeof(width), 1, images);
+        // truncated header
+        if(fread(&width, sizeof(width), 1, images) != 1) {
+            fclose(images);
+            return 0;
+        }
         width = change_endianess(width);
 
         // if there are less images in the dataset than requested reduce
@@ -54,12 +58,22 @@ uint32_t read_mnist_images(const char* path_to_mnist_images, fp_t*** mnist_image
         for(i = 0; i < num_images; i++) {
 
             // allocate memory for single image
-            (*mnist_images)[i] = (fp_t*) malloc((width+2*padding)*(height+2*padding)*sizeof(fp_t));
+            (*mnist_images)[i] = (fp_t*) malloc(((size_t)width+2*padding)*((size_t)height+2*padding)*sizeof(fp_t));
 
             uint32_t row, column;
-            uint8_t buffer[width*height];
+            const size_t num_pixels = (size_t)width*height;
+            uint8_t *buffer = (uint8_t*) malloc(num_pixels);
             // store single image
-            fread(&buffer, 1, height*width, images);
+            if((*mnist_images)[i] == nullptr || buffer == nullptr || fread(buffer, 1, num_pixels, images) != num_pixels) {
+                free(buffer);
+                for(uint32_t j = 0; j <= i; j++) {
+                    free((*mnist_images)[j]);
+                }
+                free(*mnist_images);
+                *mnist_images = nullptr;
+                fclose(images);
+                return 0;
+            }
 
             for(row = 0; row < height+2*padding; row++) {
                 for(column = 0; column < width+2*padding; column++) {
@@ -72,6 +86,8 @@ uint32_t read_mnist_images(const char* path_to_mnist_images, fp_t*** mnist_image
                     }
                 }
             }
+
+            free(buffer);
         }
 
         fclose(images);
@@ -88,8 +104,8 @@ uint32_t read_mnist_labels(const char* path_to_mnist_labels, uint8_t** mnist_lab
     labels = fopen(path_to_mnist_labels, "r");
 
     if(labels != nullptr) {
-        uint32_t magic_number;
-        uint32_t num_labels_provided;
+        uint32_t magic_number = 0;
+        uint32_t num_labels_provided = 0;
 
         uint32_t i;
 
@@ -116,8 +132,14 @@ uint32_t read_mnist_labels(const char* path_to_mnist_labels, uint8_t** mnist_lab
 
         // start reading images
         for(i = 0; i < num_labels; i++) {
-            uint8_t label = getc(labels);
-            (*mnist_labels)[i] = label;
+            int32_t label = getc(labels);
+            if(label == EOF) {
+                free(*mnist_labels);
+                *mnist_labels = nullptr;
+                fclose(labels);
+                return 0;
+            }
+            (*mnist_labels)[i] = (uint8_t) label;
         }
 
         fclose(labels);
-- 
2.43.0


From 7cdd5208c75f25f4d58ecd702043565f1a52c3bf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:19 +0000
Subject: [PATCH 14/60] fix: truncated means files were accepted

---
 pico-cnn/io/read_means.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pico-cnn/io/read_means.cpp b/pico-cnn/io/read_means.cpp
index eb0b9f9..6433200 100644
--- a/pico-cnn/io/read_means.cpp
+++ b/pico-cnn/io/read_means.cpp
@@ -25,13 +25,25 @@ int32_t read_means(const char* path_to_means_file, fp_t* means) {
         //fread(means, sizeof(fp_t), 3, means_file);
 
         fp_t mean;
-        fscanf(means_file, "%a\n", &mean);
+        if(fscanf(means_file, "%a\n", &mean) != 1) {
+            PRINT_ERROR("Failed to read mean.")
+            fclose(means_file);
+            return 1;
+        }
         means[0] = mean;
 
-        fscanf(means_file, "%a\n", &mean);
+        if(fscanf(means_file, "%a\n", &mean) != 1) {
+            PRINT_ERROR("Failed to read mean.")
+            fclose(means_file);
+            return 1;
+        }
         means[1] = mean;
 
-        fscanf(means_file, "%a\n", &mean);
+        if(fscanf(means_file, "%a\n", &mean) != 1) {
+            PRINT_ERROR("Failed to read mean.")
+            fclose(means_file);
+            return 1;
+        }
         means[2] = mean;
 
         fclose(means_file);
-- 
2.43.0


From 93204c93e4e5702c3ecdf334364a950dfda8a45a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:19 +0000
Subject: [PATCH 15/60] fix: ImageNet labels ignored the requested number and
 cut labels without newline

---
 pico-cnn/io/read_imagenet_labels.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pico-cnn/io/read_imagenet_labels.cpp b/pico-cnn/io/read_imagenet_labels.cpp
index 2918d19..3a4d96e 100644
--- a/pico-cnn/io/read_imagenet_labels.cpp
+++ b/pico-cnn/io/read_imagenet_labels.cpp
@@ -6,20 +6,25 @@ int32_t read_imagenet_labels(const char* path_to_imagenet_labels, char*** imagen
 
     if(labels_file != nullptr) {
 
-        (*imagenet_labels) = (char**) malloc(1000*sizeof(char*));
+        (*imagenet_labels) = (char**) malloc(num_labels*sizeof(char*));
 
-        char buffer[255];
-        int32_t i = 0;
-        int32_t label_length;
+        char *buffer = nullptr;
+        size_t buffer_size = 0;
+        uint32_t i = 0;
+        ssize_t label_length;
 
-        while(fgets(buffer, 255, labels_file)) {
-            label_length = strlen(buffer);
-            (*imagenet_labels)[i] = (char*) malloc((label_length)*sizeof(char));
-            strncpy((*imagenet_labels)[i], buffer, label_length-1);
-            (*imagenet_labels)[i][label_length-1] = '\0';
+        while(i < num_labels && (label_length = getline(&buffer, &buffer_size, labels_file)) > 0) {
+            // the last line may lack a newline
+            if(buffer[label_length-1] == '\n') {
+                label_length--;
+            }
+            (*imagenet_labels)[i] = (char*) malloc((label_length+1)*sizeof(char));
+            memcpy((*imagenet_labels)[i], buffer, label_length);
+            (*imagenet_labels)[i][label_length] = '\0';
             i++;
         }
 
+        free(buffer);
         fclose(labels_file);
         return i;
     }
-- 
2.43.0


From 8d33928d33a0094e8c342202ee699e355d5c4947 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:19 +0000
Subject: [PATCH 16/60] fix: ImageNet validation labels missed the last label
 and read uninitialised characters

---
 pico-cnn/io/read_imagenet_validation_labels.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pico-cnn/io/read_imagenet_validation_labels.cpp b/pico-cnn/io/read_imagenet_validation_labels.cpp
index f301f95..68052b4 100644
--- a/pico-cnn/io/read_imagenet_validation_labels.cpp
+++ b/pico-cnn/io/read_imagenet_validation_labels.cpp
@@ -9,17 +9,22 @@ int32_t read_imagenet_validation_labels(const char* path_to_imagenet_validation_
         (*imagenet_validation_labels) = (uint32_t*) malloc((num_labels+1)*sizeof(uint32_t));
 
         char buffer[255];
-        char label_buffer[6];
         uint32_t i = 1;
 
-        while(fgets(buffer, 255, labels_file) && i < num_labels) {
-            memcpy(label_buffer, &buffer[FILE_NAME_LENGTH+1], 4);
-            (*imagenet_validation_labels)[i] = (uint32_t) atoi(label_buffer);
+        while(i <= num_labels && fgets(buffer, 255, labels_file)) {
+            // line without label
+            if(strlen(buffer) <= FILE_NAME_LENGTH+1) {
+                free(*imagenet_validation_labels);
+                (*imagenet_validation_labels) = nullptr;
+                fclose(labels_file);
+                return 0;
+            }
+            (*imagenet_validation_labels)[i] = (uint32_t) atoi(&buffer[FILE_NAME_LENGTH+1]);
             i++;
         }
 
         fclose(labels_file);
-        return i;
+        return i-1;
     }
 
     return 0;
-- 
2.43.0


From d75735f20d6743cec0234b85d8d3be9ca68263dd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:19 +0000
Subject: [PATCH 17/60] fix: PGM images outside -1000..1000 or with a single
 value were written wrongly

---
 pico-cnn/io/write_pgm.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pico-cnn/io/write_pgm.cpp b/pico-cnn/io/write_pgm.cpp
index 9e2cf3a..7eff2d5 100644
--- a/pico-cnn/io/write_pgm.cpp
+++ b/pico-cnn/io/write_pgm.cpp
@@ -3,8 +3,8 @@
 int32_t write_pgm(const fp_t* image, const uint16_t height, const uint16_t width, const char* pgm_path) {
 
     // determine max gray value
-    fp_t max_gray_value = -1000;
-    fp_t min_gray_value = 1000;
+    fp_t max_gray_value = -INFINITY;
+    fp_t min_gray_value = INFINITY;
     uint16_t row, column;
 
     for(row = 0; row < height; row++) {
@@ -18,7 +18,12 @@ int32_t write_pgm(const fp_t* image, const uint16_t height, const uint16_t width
         }
     }
 
-    fp_t gray_value_range = fabsf(min_gray_value - max_gray_value);
+    // the range of two floats may exceed the largest float
+    double gray_value_range = (double) max_gray_value - min_gray_value;
+    // a constant image is black
+    if(gray_value_range == 0) {
+        gray_value_range = 1;
+    }
 
     FILE* pgm_file;
     pgm_file = fopen(pgm_path, "w+");
@@ -39,7 +44,7 @@ int32_t write_pgm(const fp_t* image, const uint16_t height, const uint16_t width
     for(row = 0; row < height; row++) {
         for(column = 0; column < width; column++) {
             // normalize
-            uint8_t pixel = (uint8_t) ( ( (image[row*width+column]-min_gray_value) / gray_value_range ) * 255.0f );
+            uint8_t pixel = (uint8_t) ( ( ((double) image[row*width+column]-min_gray_value) / gray_value_range ) * 255.0f );
             fputc(pixel, pgm_file);
         }
     }
-- 
2.43.0


From 2bb0c0a3e9e9f095e254afd5a6b8c4b52ae435b7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:20 +0000
Subject: [PATCH 18/60] fix: failed writes of PGM and float files were reported
 as success

---
 pico-cnn/io/write_float.cpp | 6 +++++-
 pico-cnn/io/write_pgm.cpp   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pico-cnn/io/write_float.cpp b/pico-cnn/io/write_float.cpp
index eb42011..d1c27d7 100644
--- a/pico-cnn/io/write_float.cpp
+++ b/pico-cnn/io/write_float.cpp
@@ -24,7 +24,11 @@ int32_t write_float(const fp_t* image, const uint16_t height, const uint16_t wid
         }
     }
 
-    fclose(float_file);
+    const bool failed = ferror(float_file);
+
+    if(fclose(float_file) != 0 || failed) {
+        return 1;
+    }
 
     return 0;
 }
diff --git a/pico-cnn/io/write_pgm.cpp b/pico-cnn/io/write_pgm.cpp
index 7eff2d5..77cdd15 100644
--- a/pico-cnn/io/write_pgm.cpp
+++ b/pico-cnn/io/write_pgm.cpp
@@ -50,7 +50,11 @@ int32_t write_pgm(const fp_t* image, const uint16_t height, const uint16_t width
     }
 
 
-    fclose(pgm_file);
+    const bool failed = ferror(pgm_file);
+
+    if(fclose(pgm_file) != 0 || failed) {
+        return 1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 19bade9f0a99a244d1a5bc83cd7fb00035aeeb8f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:20 +0000
Subject: [PATCH 19/60] fix: PGM files lost white space pixels, needed a
 comment and were accepted when truncated

---
 pico-cnn/io/read_pgm.cpp | 45 ++++++++++++++++++++++++++++------------
 pico-cnn/io/read_pgm.h   |  1 +
 2 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/pico-cnn/io/read_pgm.cpp b/pico-cnn/io/read_pgm.cpp
index 0e0b55c..a8bd3d2 100644
--- a/pico-cnn/io/read_pgm.cpp
+++ b/pico-cnn/io/read_pgm.cpp
@@ -9,9 +9,7 @@ int32_t read_pgm(fp_t** image, const char* pgm_path, const uint8_t padding, cons
 
         char buffer[100];
 
-        fgets(buffer, 100, pgm_file);
-
-        if(strcmp(buffer,"P5\n") != 0) {
+        if(fgets(buffer, 100, pgm_file) == nullptr || strcmp(buffer,"P5\n") != 0) {
             fclose(pgm_file);
             return 1;
         }
@@ -20,17 +18,31 @@ int32_t read_pgm(fp_t** image, const char* pgm_path, const uint8_t padding, cons
 
         fp_t range = fabs(lower_bound - upper_bound);
 
-        // skip comment
-        fgets(buffer, 100, pgm_file);
-        // read dimensions
-        fscanf(pgm_file, "%hu %hu\n", width, height);
-        // read max gray value
-        fscanf(pgm_file, "%hhu\n", &max_gray_value);
+        // skip comments
+        int32_t c;
+        while((c = fgetc(pgm_file)) == '#') {
+            while(c != '\n' && c != EOF) {
+                c = fgetc(pgm_file);
+            }
+        }
+        ungetc(c, pgm_file);
 
-        (*image) = (fp_t*) malloc(((*height)+2*padding) * ((*width)+2*padding) * sizeof(fp_t));
+        // read dimensions and max gray value, which a single white space separates from the pixels
+        if(fscanf(pgm_file, "%hu %hu", width, height) != 2 || fscanf(pgm_file, "%hhu", &max_gray_value) != 1 ||
+           !isspace(fgetc(pgm_file))) {
+            fclose(pgm_file);
+            return 1;
+        }
+
+        (*image) = (fp_t*) malloc(((size_t)(*height)+2*padding) * ((size_t)(*width)+2*padding) * sizeof(fp_t));
+
+        if((*image) == nullptr) {
+            fclose(pgm_file);
+            return 1;
+        }
 
-        uint16_t row, column;
-        uint8_t pixel;
+        size_t row, column;
+        int32_t pixel;
 
         for(row = 0; row < (*height)+2*padding; row++) {
             for(column = 0; column < (*width)+2*padding; column++) {
@@ -39,7 +51,14 @@ int32_t read_pgm(fp_t** image, const char* pgm_path, const uint8_t padding, cons
                 } else if(column < padding || column >= (*width)+padding) {
                     (*image)[row*((*width)+2*padding)+column] = lower_bound;
                 } else {
-                    pixel = (uint8_t) fgetc(pgm_file);
+                    pixel = fgetc(pgm_file);
+                    // truncated file
+                    if(pixel == EOF) {
+                        free(*image);
+                        (*image) = nullptr;
+                        fclose(pgm_file);
+                        return 1;
+                    }
                     (*image)[row*((*width)+2*padding)+column] = (((pixel / 255.0f) * range) + lower_bound);
                 }
             }
diff --git a/pico-cnn/io/read_pgm.h b/pico-cnn/io/read_pgm.h
index 38fa366..f6d98f6 100644
--- a/pico-cnn/io/read_pgm.h
+++ b/pico-cnn/io/read_pgm.h
@@ -9,6 +9,7 @@
 #define PICO_CNN_READ_PGM_H
 
 #include "../parameters.h"
+#include <cctype>
 #include <cstdio>
 #include <cstdint>
 #include <cstdlib>
-- 
2.43.0


From 4e80848d31d7d6d502a92c616f93d7b97242f40e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:44 +0000
Subject: [PATCH 20/60] fix: JPEG images wider than 21845 pixels overflowed the
 row buffer

---
 pico-cnn/io/read_jpeg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico-cnn/io/read_jpeg.cpp b/pico-cnn/io/read_jpeg.cpp
index e460bc7..5338aed 100644
--- a/pico-cnn/io/read_jpeg.cpp
+++ b/pico-cnn/io/read_jpeg.cpp
@@ -14,7 +14,7 @@ int32_t read_jpeg(fp_t*** image, const char* jpeg_path, const fp_t lower_bound,
         struct jpeg_error_mgr jerr;
 
         JSAMPARRAY jpeg_buffer;
-        uint16_t row_stride;
+        uint32_t row_stride;
         uint32_t pos = 0;
 
         cinfo.err = jpeg_std_error(&jerr);
-- 
2.43.0


From 4b86d0ab3a77eab6cfe28909480344fb9471c3f8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:10 +0000
Subject: [PATCH 21/60] fix: generated 1-D layers passed arrays shorter than
 the constructors read

---
 .../code_templates/conv/pico_cnn_conv1d_alloc.cpp      |  6 +++---
 .../code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp  | 10 +++++-----
 .../code_templates/pool/pico_cnn_max_pool1d_alloc.cpp  | 10 +++++-----
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/onnx_import/code_templates/conv/pico_cnn_conv1d_alloc.cpp b/onnx_import/code_templates/conv/pico_cnn_conv1d_alloc.cpp
index 6ae3194..2f1fec1 100644
--- a/onnx_import/code_templates/conv/pico_cnn_conv1d_alloc.cpp
+++ b/onnx_import/code_templates/conv/pico_cnn_conv1d_alloc.cpp
@@ -1,6 +1,6 @@
 {% if padding_needed %}
-    uint32_t {{identifier}}_padding[2] = { {{padding.0}}, {{padding.1}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
+    uint32_t {{identifier}}_padding[4] = { {{padding.0}}, {{padding.1}}, 0, 0 };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 1 };
     uint32_t {{identifier}}_groups = {{num_groups}};
 
     {{identifier}}_layer = new pico_cnn::naive::Convolution("{{name}}", 0, pico_cnn::op_type::Conv,
@@ -12,7 +12,7 @@
                                                    {% endif %}
                                                    {{identifier}}_padding, {{identifier}}_stride, {{identifier}}_groups);
 {% else %}
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 1 };
     uint32_t {{identifier}}_groups = {{num_groups}};
 
     {{identifier}}_layer = new pico_cnn::naive::Convolution("{{name}}", 0, pico_cnn::op_type::Conv,
diff --git a/onnx_import/code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp b/onnx_import/code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp
index b22c7bc..a38be41 100644
--- a/onnx_import/code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp
+++ b/onnx_import/code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp
@@ -1,13 +1,13 @@
 {% if padding_needed %}
-    uint32_t {{identifier}}_kernel_shape[1] = { {{kernel_shape.0}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
-    uint32_t {{identifier}}_padding[2] = { {{padding.0}}, {{padding.1}} };
+    uint32_t {{identifier}}_kernel_shape[2] = { {{kernel_shape.0}}, 1 };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 1 };
+    uint32_t {{identifier}}_padding[4] = { {{padding.0}}, {{padding.1}}, 0, 0 };
 
     {{identifier}}_layer = new pico_cnn::naive::AveragePooling("{{name}}", 0, pico_cnn::op_type::AveragePool,
                                                   {{identifier}}_kernel_shape, {{identifier}}_stride, {{identifier}}_padding, {{count_include_pad}});
 {% else %}
-    uint32_t {{identifier}}_kernel_shape[1] = { {{kernel_shape.0}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
+    uint32_t {{identifier}}_kernel_shape[2] = { {{kernel_shape.0}}, 1 };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 1 };
 
     {{identifier}}_layer = new pico_cnn::naive::AveragePooling("{{name}}", 0, pico_cnn::op_type::AveragePool,
                                                   {{identifier}}_kernel_shape, {{identifier}}_stride, nullptr, {{count_include_pad}});
diff --git a/onnx_import/code_templates/pool/pico_cnn_max_pool1d_alloc.cpp b/onnx_import/code_templates/pool/pico_cnn_max_pool1d_alloc.cpp
index 3b2cb05..a355caf 100644
--- a/onnx_import/code_templates/pool/pico_cnn_max_pool1d_alloc.cpp
+++ b/onnx_import/code_templates/pool/pico_cnn_max_pool1d_alloc.cpp
@@ -1,13 +1,13 @@
 {% if padding_needed %}
-    uint32_t {{identifier}}_kernel_shape[1] = { {{kernel_shape.0}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
-    uint32_t {{identifier}}_padding[2] = { {{padding.0}}, {{padding.1}} };
+    uint32_t {{identifier}}_kernel_shape[2] = { {{kernel_shape.0}}, 1 };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 1 };
+    uint32_t {{identifier}}_padding[4] = { {{padding.0}}, {{padding.1}}, 0, 0 };
 
     {{identifier}}_layer = new pico_cnn::naive::MaxPooling("{{name}}", 0, pico_cnn::op_type::MaxPool,
                                                   {{identifier}}_kernel_shape, {{identifier}}_stride, {{identifier}}_padding);
 {% else %}
-    uint32_t {{identifier}}_kernel_shape[1] = { {{kernel_shape.0}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
+    uint32_t {{identifier}}_kernel_shape[2] = { {{kernel_shape.0}}, 1 };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 1 };
 
     {{identifier}}_layer = new pico_cnn::naive::MaxPooling("{{name}}", 0, pico_cnn::op_type::MaxPool,
                                                   {{identifier}}_kernel_shape, {{identifier}}_stride, nullptr);
-- 
2.43.0


From e43d6696e2d3e292606a630dd0b0bf601a43ac5b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:10 +0000
Subject: [PATCH 22/60] fix: AveragePool without pads (1-D, or 2-D with a
 kernel of width 1) aborted the import

---
 onnx_import/pico_cnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 2732484..c3de88a 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -655,7 +655,7 @@ class AveragePool1D(BaseLayer):
 
         kernel_stride = attrs["strides"]
 
-        padding = attrs["pads"]
+        padding = attrs.get("pads", (0, 0))
         padding_needed = False
         for num in padding:
             if num != 0:
-- 
2.43.0


From d614f668e9af0e738c21f5a40b6060fccb852b16 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:11 +0000
Subject: [PATCH 23/60] fix: padding with 0 left stale values in the border of
 a reused tensor

---
 pico-cnn/tensor.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pico-cnn/tensor.cpp b/pico-cnn/tensor.cpp
index e9dde36..9bc2c62 100644
--- a/pico-cnn/tensor.cpp
+++ b/pico-cnn/tensor.cpp
@@ -299,10 +299,8 @@ namespace pico_cnn {
             uint32_t height = this->height();
             uint32_t width = this->width();
 
-            if(initializer != 0.0) {
-                for (uint32_t i = 0; i < dest->num_elements(); i++) {
-                    dest->access_blob(i) = initializer;
-                }
+            for (uint32_t i = 0; i < dest->num_elements(); i++) {
+                dest->access_blob(i) = initializer;
             }
 
             if (dest->num_dimensions_ == 4) {
-- 
2.43.0


From 502aec36459bb409a14c453cd066d1a51250e10e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:55 +0000
Subject: [PATCH 24/60] fix: constants of rank other than 1 in Add and Gemm
 bias were written in a format the reader rejects

---
 onnx_import/backend.py       | 10 ++++++++--
 onnx_import/compute_graph.py |  6 ++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 0e73f36..052c262 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -178,6 +178,9 @@ class BackendRep(backend_base.BackendRep):
 
                 data = node.input_tensors[input]
 
+                if node.is_bias(input):
+                    data = data.flatten()
+
                 # if node.op_type == "MatMul":
                 #     data = data.transpose()
 
@@ -313,7 +316,7 @@ class BackendRep(backend_base.BackendRep):
                     else:
                         tensor = node.input_tensors[input]
                         buffers_allocated.append(input)
-                        if len(tensor.shape) == 1:
+                        if len(tensor.shape) == 1 or node.is_bias(input):
                             num_biases += 1
                         else:
                             num_kernels += 1
@@ -354,7 +357,8 @@ class BackendRep(backend_base.BackendRep):
                     buffers_allocated.append(input)
 
                     tensor = node.input_tensors[input]
-                    if len(tensor.shape) == 1:
+                    is_bias = len(tensor.shape) == 1 or node.is_bias(input)
+                    if is_bias:
                         pos_bias += 1
                     else:
                         pos_kernel += 1
@@ -373,6 +377,8 @@ class BackendRep(backend_base.BackendRep):
                     impl = functionality[0].create(buffer, pos, pos_kernel, pos_bias)
 
                     if impl:
+                        if is_bias:
+                            impl.attributes['buffer_type'] = "bias"
                         constructor_code += impl.generate_code()
                         constructor_code += "\n"
 
diff --git a/onnx_import/compute_graph.py b/onnx_import/compute_graph.py
index 9c5a986..55f2b13 100644
--- a/onnx_import/compute_graph.py
+++ b/onnx_import/compute_graph.py
@@ -85,6 +85,12 @@ class ComputeNode(object):
             name = node.op_type + "_".join(node.output)
         return ComputeNode(name, node.op_type, attrs, list(node.input), list(node.output))
 
+    def is_bias(self, name: str) -> bool:
+        """
+        Addends and biases of any shape are stored as a plain list of values in the weights file.
+        """
+        return self.op_type == "Add" or (self.op_type == "Gemm" and name in self.inputs[2:])
+
 
 class ComputeGraph(object):
     """
-- 
2.43.0


From 16ca9b7a072e187356114adda9c2bf0690023547 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:38 +0000
Subject: [PATCH 25/60] fix: Gemm with transA set or without transB was
 imported as if it had neither

---
 onnx_import/pico_cnn.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index c3de88a..4103e5e 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -224,14 +224,12 @@ class FullyConnected(BaseLayer):
             if node.attrs['beta'] != 1.0:
                 print("ERROR: Generation of Gemm layer aborted: beta = {}".format(node.attrs['beta']))
                 return None
-        if 'tranA' in node.attrs:
-            if node.attrs['transA'] != 0:
-                print("ERROR: Generation of Gemm layer aborted: tranA = {}".format(node.attrs['tranA']))
-                return None
-        if 'tranB' in node.attrs:
-            if node.attrs['transB'] != 1:
-                print("ERROR: Generation of Gemm layer aborted: tranB = {}".format(node.attrs['tranB']))
-                return None
+        if node.attrs.get('transA', 0) != 0:
+            print("ERROR: Generation of Gemm layer aborted: transA = {}".format(node.attrs['transA']))
+            return None
+        if node.attrs.get('transB', 0) != 1:
+            print("ERROR: Generation of Gemm layer aborted: transB = {}".format(node.attrs.get('transB', 0)))
+            return None
 
         input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
         weight_buffer = memory_manager.get_buffer(graph, node.inputs[1])
-- 
2.43.0


From 654861e5274f81fc9e833f0f98f163a52f812335 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:38 +0000
Subject: [PATCH 26/60] fix: Gemm with several input rows or a broadcast bias
 was imported although the layer supports neither

---
 onnx_import/pico_cnn.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 4103e5e..8fac539 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -238,6 +238,13 @@ class FullyConnected(BaseLayer):
             bias_buffer = memory_manager.get_buffer(graph, node.inputs[2])
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        if input_buffer.shape[0] != 1:
+            print("ERROR: Generation of Gemm layer aborted: input shape {}".format(input_buffer.shape))
+            return None
+        if bias_buffer and reduce_mult(bias_buffer.shape) != reduce_mult(output_buffer.shape):
+            print("ERROR: Generation of Gemm layer aborted: bias shape {}".format(bias_buffer.shape))
+            return None
+
         operation = cls(node, graph)
 
         identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')
-- 
2.43.0


From ec70261527646968210c356df984fbb9b17fb1d2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:38 +0000
Subject: [PATCH 27/60] fix: MatMul with several input rows or batched operands
 was imported as a vector product

---
 onnx_import/pico_cnn.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 8fac539..ac6004c 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -527,6 +527,11 @@ class MatMul(BaseLayer):
         input_size = reduce_mult(input_buffer.shape)
         output_size = reduce_mult(output_buffer.shape)
 
+        if reduce_mult(input_buffer.shape[:-1]) != 1 or len(weight_buffer.shape) != 2:
+            print("ERROR: MatMul is only supported for a vector and a matrix, not for shapes {} and {}".format(
+                input_buffer.shape, weight_buffer.shape))
+            return None
+
         operation = cls(node, graph)
 
         identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')
-- 
2.43.0


From d34d03caa0b10226fb15ae7c36250ecfd8f612e8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:38 +0000
Subject: [PATCH 28/60] fix: dilated convolutions and dilated, ceil-mode or
 automatically padded pools were imported as plain ones

---
 onnx_import/pico_cnn.py | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index ac6004c..38b14b8 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -45,6 +45,26 @@ class BaseLayer(object):
         pass
 
 
+def check_window_attributes(node):
+    """
+    Aborts the code generation if the window of a convolution or pooling node cannot be represented.
+    :param node: ComputeNode object of a convolution or pooling layer
+    :return:
+    """
+    if any(dilation != 1 for dilation in node.attrs.get("dilations", [])):
+        print("ERROR: {}: dilations are currently not supported".format(node.name))
+        exit(1)
+    if node.attrs.get("ceil_mode", 0) != 0:
+        print("ERROR: {}: ceil_mode is currently not supported".format(node.name))
+        exit(1)
+    if node.attrs.get("auto_pad", b"NOTSET") != b"NOTSET":
+        print("ERROR: {}: auto padding is currently not supported".format(node.name))
+        exit(1)
+    if any(num < 0 for num in node.attrs.get("pads", [])):
+        print("ERROR: {}: negative padding is currently not supported".format(node.name))
+        exit(1)
+
+
 class Conv2D(BaseLayer):
     """
     2-dimensional convolution layer.
@@ -87,7 +107,7 @@ class Conv2D(BaseLayer):
 
         kernel_shape = attrs["kernel_shape"]
         stride = attrs["strides"]
-        # dilation = attrs["dilations"][0]
+        check_window_attributes(node)
 
         num_groups = attrs.get("group", 1)
 
@@ -152,7 +172,7 @@ class Conv1D(BaseLayer):
 
         kernel_shape = attrs["kernel_shape"]
         stride = attrs["strides"]
-        # dilation = attrs["dilations"][0]
+        check_window_attributes(node)
 
         num_groups = attrs.get("group", 1)
 
@@ -292,6 +312,8 @@ class MaxPool2D(BaseLayer):
             print("{} is not a 2DMaxPool".format(node.name))
             return None
 
+        check_window_attributes(node)
+
         input_id = node.inputs[0]
         input_shape = graph.get_shape(input_id)
 
@@ -347,6 +369,8 @@ class MaxPool1D(BaseLayer):
             print("{} is not a 1DMaxPool".format(node.name))
             return None
 
+        check_window_attributes(node)
+
         input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
@@ -604,6 +628,8 @@ class AveragePool2D(BaseLayer):
             print("{} is not a 2DAvgPool".format(node.name))
             return None
 
+        check_window_attributes(node)
+
         input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
@@ -660,6 +686,8 @@ class AveragePool1D(BaseLayer):
             print("{} is not a 1DAvgPool".format(node.name))
             return None
 
+        check_window_attributes(node)
+
         input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
-- 
2.43.0


From 12aad877eab77de6f11f96eb9a91b108d919da5a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:38 +0000
Subject: [PATCH 29/60] fix: Softmax over several rows was imported although
 the layer normalizes over all values

---
 onnx_import/pico_cnn.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 38b14b8..2c13cee 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1105,6 +1105,13 @@ class Softmax(BaseLayer):
         input_buffers = [memory_manager.get_buffer(graph, i) for i in node.inputs]
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        # The layer normalizes over all values of its input
+        axis = attrs.get("axis", 1)
+        if reduce_mult(input_buffers[0].shape[:axis]) != 1:
+            print("ERROR: {}: Softmax along axis {} of shape {} is not supported".format(
+                node.name, axis, input_buffers[0].shape))
+            return None
+
         operation = cls(node, graph)
 
         identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')
-- 
2.43.0


From ccb59fed9e6b0b4318a90d47ed4d31c3282a5964 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:38 +0000
Subject: [PATCH 30/60] fix: LRN with a bias other than 1 or an even size was
 imported as if bias were 1 and the window symmetric

---
 onnx_import/pico_cnn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 2c13cee..b0c9066 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1151,6 +1151,10 @@ class LocalResponseNormalization(BaseLayer):
         input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        if attrs.get("bias", 1.0) != 1.0 or attrs["size"] % 2 == 0:
+            print("ERROR: {}: LRN is only supported with bias = 1 and an odd size".format(node.name))
+            return None
+
         operation = cls(node, graph)
 
         identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')
-- 
2.43.0


From 68a4d15084602a877659b073501bb304a291e6ed Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:38 +0000
Subject: [PATCH 31/60] fix: Pad with negative pads wrote outside of the
 tensors; error messages of Pad

---
 onnx_import/pico_cnn.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index b0c9066..523abd0 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1229,16 +1229,20 @@ class Pad(BaseLayer):
         value = attrs['value']
 
         if mode != 'constant':
-            print("ERROR: Pad layer only supported in mode constant (not: {}).").format(mode)
+            print("ERROR: Pad layer only supported in mode constant (not: {}).".format(mode))
+            exit(1)
+
+        if any(num < 0 for num in pads):
+            print("ERROR: Negative padding is not supported. pads = {}".format(pads))
             exit(1)
 
         if len(input_shape) == 4:
             if pads[0] != 0 or pads[1] != 0 or pads[4] != 0 or pads[5] != 0:
-                print("ERROR: Padding only supported for height and width dimension. pads = {}").format(pads)
+                print("ERROR: Padding only supported for height and width dimension. pads = {}".format(pads))
                 exit(1)
         elif len(input_shape) == 3:
             if pads[0] != 0 or pads[1] != 0 or pads[3] != 0 or pads[4] != 0:
-                print("ERROR: Padding only supported for height and width dimension. pads = {}").format(pads)
+                print("ERROR: Padding only supported for height and width dimension. pads = {}".format(pads))
                 exit(1)
         elif len(input_shape) == 2:
             pass
-- 
2.43.0


From c1b117e15d4a524cafc919f873c4db8d37f2b021 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:38 +0000
Subject: [PATCH 32/60] fix: Mul by a factor of shape (1,) generated code that
 does not compile

---
 onnx_import/pico_cnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 523abd0..ee4fb2d 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -602,7 +602,7 @@ class Mul(BaseLayer):
 
         operation.attributes['input_buffer'] = input_buffer
         operation.attributes['output_buffer'] = output_buffer
-        operation.attributes['factor'] = factor
+        operation.attributes['factor'] = factor.item()
 
         return operation
 
-- 
2.43.0


From 170efcc6ae19d5a5d695d54b8ffe08e11e3086c7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:30 +0000
Subject: [PATCH 33/60] fix: Add of operands of different sizes was imported
 although the generated code cannot broadcast

---
 onnx_import/pico_cnn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index ee4fb2d..e54093e 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1051,7 +1051,8 @@ class Add(BaseLayer):
         input_shapes = [b.shape for b in input_buffers]
         for shape in input_shapes:
             if shape != input_shapes[0]:
-                if len(input_shapes[0]) <= 2 and len(shape) <= 2:
+                if len(input_shapes[0]) <= 2 and len(shape) <= 2 \
+                        and reduce_mult(input_shapes[0]) == reduce_mult(shape) == reduce_mult(output_buffer.shape):
                     print("Broadcasting, but it still works without doing anything...")
                 else:
                     # TODO: This needs a better solution!!!
-- 
2.43.0


From 35eff3a0a763474e5e289d1516a1501d38960185 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:30 +0000
Subject: [PATCH 34/60] fix: Conv and BatchNormalization of several batches and
 2-D BatchNormalization generated networks that exit when run

---
 onnx_import/pico_cnn.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index e54093e..e49966d 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -98,6 +98,10 @@ class Conv2D(BaseLayer):
             print("{} is not a 2DConvolution".format(node.name))
             return None
 
+        if input_shape[0] != 1:
+            print("ERROR: {}: convolution is only supported for batch_size 1".format(node.name))
+            return None
+
         if input_shape[2] != input_shape[3]:
             print("WARNING: Not a squared input image ({}x{})!!!".format(input_shape[2], input_shape[3]))
 
@@ -170,6 +174,10 @@ class Conv1D(BaseLayer):
             print("{} is not a 1DConvolution".format(node.name))
             return None
 
+        if input_shape[0] != 1:
+            print("ERROR: {}: convolution is only supported for batch_size 1".format(node.name))
+            return None
+
         kernel_shape = attrs["kernel_shape"]
         stride = attrs["strides"]
         check_window_attributes(node)
@@ -479,6 +487,10 @@ class BatchNorm(BaseLayer):
 
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        if len(input_buffer.shape) not in (3, 4) or input_buffer.shape[0] != 1:
+            print("ERROR: {}: BatchNormalization is not supported for shape {}".format(node.name, input_buffer.shape))
+            return None
+
         operation = cls(node, graph)
 
         identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')
-- 
2.43.0


From 9bf61b6137cc41b4ca4a8e29811508cfde9f120a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:30 +0000
Subject: [PATCH 35/60] fix: infinite limits of Clip and infinite values of Pad
 and Mul generated code that does not compile

---
 onnx_import/pico_cnn.py | 10 +++++-----
 onnx_import/utils.py    |  5 +++++
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index e49966d..0463b98 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1,6 +1,6 @@
 """ All operator related code will be generated from the corresponding operator classes. """
 from ir import *
-from utils import reduce_mult
+from utils import float_literal, reduce_mult
 
 from jinja2 import Environment, FileSystemLoader
 
@@ -535,8 +535,8 @@ class Clip(BaseLayer):
         operation.attributes['identifier'] = identifier
         operation.attributes['input_buffer'] = input_buffer
         operation.attributes['output_buffer'] = output_buffer
-        operation.attributes['min'] = attrs['min']
-        operation.attributes['max'] = attrs['max']
+        operation.attributes['min'] = float_literal(attrs['min'])
+        operation.attributes['max'] = float_literal(attrs['max'])
 
         return operation
 
@@ -614,7 +614,7 @@ class Mul(BaseLayer):
 
         operation.attributes['input_buffer'] = input_buffer
         operation.attributes['output_buffer'] = output_buffer
-        operation.attributes['factor'] = factor.item()
+        operation.attributes['factor'] = float_literal(factor.item())
 
         return operation
 
@@ -1273,7 +1273,7 @@ class Pad(BaseLayer):
         operation.attributes['input_buffer'] = input_buffer
         operation.attributes['output_buffer'] = output_buffer
         operation.attributes['padding'] = pads
-        operation.attributes['initializer'] = value
+        operation.attributes['initializer'] = float_literal(value)
 
         return operation
 
diff --git a/onnx_import/utils.py b/onnx_import/utils.py
index db3185b..97d7163 100644
--- a/onnx_import/utils.py
+++ b/onnx_import/utils.py
@@ -4,5 +4,10 @@ from functools import reduce
 __author__ = "Christoph Gerum (University of Tuebingen, Chair for Embedded Systems)"
 
 
+def float_literal(value: float) -> str:
+    """The value as it can be written in the generated code."""
+    return str(value).replace("inf", "INFINITY")
+
+
 def reduce_mult(data: Iterable[int]) -> int:
     return reduce(lambda x, y: x * y, data, 1)
-- 
2.43.0


From a7b65d09b0bcc49fcf228f31a790c7e07813c48f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:30 +0000
Subject: [PATCH 36/60] fix: parameters used twice by the same node were
 missing in the weights file

---
 onnx_import/backend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 052c262..63836dd 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -168,7 +168,9 @@ class BackendRep(backend_base.BackendRep):
             else:
                 continue
 
-            for num, input in enumerate(node.input_tensors):
+            parameters = [input for input in node.inputs if input in node.input_tensors]
+
+            for num, input in enumerate(parameters):
 
                 if input in buffers_written:
                     write_buffer = False
@@ -268,7 +270,7 @@ class BackendRep(backend_base.BackendRep):
 
                 # This handles the case that no bias values are available in the onnx file.
                 # So we need to add num_biases = 0 into the binary file.
-                if len(node.input_tensors) == 1 and node.op_type != "Add":
+                if len(parameters) == 1 and node.op_type != "Add":
                     # print("No biases in onnx file.")
                     weights_packed.append(struct.pack('i', 0))
 
-- 
2.43.0


From 97fa6238e839394ba914c9624c86cc3b40c6c630 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:30 +0000
Subject: [PATCH 37/60] fix: Reshape that drops trailing dimensions was removed
 as if it kept the shape

---
 onnx_import/backend.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 63836dd..996ab6c 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -66,16 +66,8 @@ class BackendRep(backend_base.BackendRep):
             if node.op_type == "Reshape":
                 input_state = constant_states[node.inputs[0]]
                 reshape_state = constant_states[node.inputs[1]]
-                is_nop = False
-                if reshape_state.value is not None:
-                    for i, dim in enumerate(reshape_state.value):
-                        if dim == -1 and i == len(reshape_state.value):
-                            is_nop = True
-                        elif i < len(input_state.shape) and dim == input_state.shape[i]:
-                            is_nop = True
-                        else:
-                            is_nop = False
-                            break
+                is_nop = reshape_state.value is not None and input_state.shape is not None \
+                    and tuple(reshape_state.value) == tuple(input_state.shape)
 
                 if is_nop:
                     removed_input = node.inputs[0]
-- 
2.43.0


From 5c4573f6f91cb2579b032be95883f66c4ae637e5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:30 +0000
Subject: [PATCH 38/60] fix: Unsqueeze was removed although it changes the
 shape of its output

---
 onnx_import/backend.py  | 12 ------------
 onnx_import/pico_cnn.py | 11 +++++++++++
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 996ab6c..da1f678 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -51,18 +51,6 @@ class BackendRep(backend_base.BackendRep):
     def _remove_nops(self, graph, constant_states):
         # Remove nop nodes
         for node in list(graph.nodes):
-            if node.op_type == "Unsqueeze":
-                inp = node.inputs[0]
-                out = node.outputs[0]
-
-                print("Removing nop", node.name)
-                graph.nodes.remove(node)
-
-                for node in graph.nodes:
-                    for num, input in enumerate(node.inputs):
-                        if input == out:
-                            node.inputs[num] = inp
-
             if node.op_type == "Reshape":
                 input_state = constant_states[node.inputs[0]]
                 reshape_state = constant_states[node.inputs[1]]
diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 0463b98..c4f4294 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1220,6 +1220,17 @@ class Squeeze(BaseLayer):
 OperationRegistry.register(Squeeze)
 
 
+class Unsqueeze(Squeeze):
+    """
+    Insert single-dimensional entries into the shape of a tensor.
+    """
+    name = "UnsqueezeGeneric"
+    operator = "Unsqueeze"
+
+
+OperationRegistry.register(Unsqueeze)
+
+
 class Pad(BaseLayer):
     name = "PicoCNNPad"
     operator = "Pad"
-- 
2.43.0


From 84a972a067c4620bf74f44221ebdbb86242e7ddb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:17 +0000
Subject: [PATCH 39/60] fix: constants where the generated code has no place
 for them generated code that does not compile or load its weights

---
 onnx_import/backend.py | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index da1f678..3d4e0b9 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -48,6 +48,43 @@ class BackendRep(backend_base.BackendRep):
             if is_constant:
                 graph.remove_node(node)
 
+    def _check_edges(self, graph):
+        """
+        Aborts the code generation if a node reads a value that does not exist when the generated code is executed.
+        :param graph: ComputeGraph of the parsed onnx model.
+        :return:
+        """
+        # Positions at which the weights file (or, for Reshape and Mul, the generated code) can hold constants
+        parameter_inputs = {"Conv": (1, 2), "Gemm": (1, 2), "MatMul": (1,), "BatchNormalization": (1, 2, 3, 4),
+                            "Transpose": (0,), "Add": (0, 1), "Reshape": (1,), "Mul": (1,)}
+
+        available = {input.name for input in graph.inputs}
+
+        for node in graph.nodes:
+            for num, input in enumerate(node.inputs):
+                if node.op_type == "Reshape" and num == 1:
+                    continue
+                if input in node.input_tensors:
+                    if num in parameter_inputs.get(node.op_type, ()):
+                        continue
+                    print("ERROR: {}: constant input {} is not supported".format(node.name, input))
+                    exit(1)
+                if input not in available:
+                    print("ERROR: {}: input {} is not computed by the generated code".format(node.name, input))
+                    exit(1)
+            if len(node.outputs) != 1:
+                print("ERROR: {}: multiple outputs are not supported".format(node.name))
+                exit(1)
+            if node.op_type == "Add" and all(input in node.input_tensors for input in node.inputs):
+                print("ERROR: {}: sums of constants are not supported".format(node.name))
+                exit(1)
+            available.update(node.outputs)
+
+        for output in graph.outputs:
+            if graph.is_input(output.name) or output.name not in available:
+                print("ERROR: output {} is not computed by the generated code".format(output.name))
+                exit(1)
+
     def _remove_nops(self, graph, constant_states):
         # Remove nop nodes
         for node in list(graph.nodes):
@@ -519,6 +556,7 @@ class BackendRep(backend_base.BackendRep):
 
         self._remove_constants(graph, constant_states)
         self._remove_nops(graph, constant_states)
+        self._check_edges(graph)
 
         # Add shape information from constant propagation:
         for var, res in constant_states.items():
-- 
2.43.0


From 8ca597472b290705fcd4e2e0f4f77078f3720ea4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:17 +0000
Subject: [PATCH 40/60] fix: names that are not unique or not usable as C++
 identifiers generated code that does not compile

---
 onnx_import/backend.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 3d4e0b9..ddfeb63 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -11,6 +11,7 @@ import onnx
 from onnx import ModelProto
 
 import os
+import re
 import struct
 
 __author__ = "Christoph Gerum, Alexander Jung (University of Tuebingen, Chair for Embedded Systems)"
@@ -48,6 +49,32 @@ class BackendRep(backend_base.BackendRep):
             if is_constant:
                 graph.remove_node(node)
 
+    def _check_names(self, graph):
+        """
+        Aborts the code generation if the names in the graph do not result in unique identifiers of the generated code.
+        :param graph: ComputeGraph of the parsed onnx model.
+        :return:
+        """
+        identifiers = ["input_" + input.name for input in graph.inputs]
+        buffers = set()
+        for node in graph.nodes:
+            buffers.update(node.input_tensors)
+            buffers.update(node.outputs)
+            identifiers += [node.name + suffix for suffix in ("_layer", "_padding")] + ["inputs_" + node.name]
+        identifiers += [("output_" if graph.is_output(name) else "buffer_") + name for name in sorted(buffers)]
+
+        used = {}
+        for name in identifiers:
+            identifier = re.sub("[./:]", "_", name)
+            if not re.fullmatch("[A-Za-z_][A-Za-z0-9_]*", identifier):
+                print("ERROR: the name {!r} cannot be used in the generated code".format(name))
+                exit(1)
+            if identifier in used:
+                print("ERROR: the names {!r} and {!r} cannot be told apart in the generated code".format(
+                    used[identifier], name))
+                exit(1)
+            used[identifier] = name
+
     def _check_edges(self, graph):
         """
         Aborts the code generation if a node reads a value that does not exist when the generated code is executed.
@@ -557,6 +584,7 @@ class BackendRep(backend_base.BackendRep):
         self._remove_constants(graph, constant_states)
         self._remove_nops(graph, constant_states)
         self._check_edges(graph)
+        self._check_names(graph)
 
         # Add shape information from constant propagation:
         for var, res in constant_states.items():
-- 
2.43.0


From ac9f992d1ac56105c749b27a3fd3ff01c987f7f6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:34 +0000
Subject: [PATCH 41/60] fix: LRN of other than 4-D data generated networks that
 exit when run

---
 onnx_import/pico_cnn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index c4f4294..4eef2fb 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1164,6 +1164,10 @@ class LocalResponseNormalization(BaseLayer):
         input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        if len(input_buffer.shape) != 4:
+            print("ERROR: {}: LRN is not supported for shape {}".format(node.name, input_buffer.shape))
+            return None
+
         if attrs.get("bias", 1.0) != 1.0 or attrs["size"] % 2 == 0:
             print("ERROR: {}: LRN is only supported with bias = 1 and an odd size".format(node.name))
             return None
-- 
2.43.0


From adde32f2a0b3330b1d2fdecb706d1f349cd0995b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:34 +0000
Subject: [PATCH 42/60] fix: computed kernels next to a constant bias and the
 network input as kernel generated unusable code

---
 onnx_import/backend.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index ddfeb63..ea9f9ef 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -92,13 +92,18 @@ class BackendRep(backend_base.BackendRep):
                 if node.op_type == "Reshape" and num == 1:
                     continue
                 if input in node.input_tensors:
-                    if num in parameter_inputs.get(node.op_type, ()):
+                    if num in parameter_inputs.get(node.op_type, ()) \
+                            and (node.op_type != "Transpose" or len(node.input_tensors[input].shape) == 2):
                         continue
                     print("ERROR: {}: constant input {} is not supported".format(node.name, input))
                     exit(1)
                 if input not in available:
                     print("ERROR: {}: input {} is not computed by the generated code".format(node.name, input))
                     exit(1)
+                if num > 0 and node.op_type in ("Conv", "Gemm", "MatMul", "BatchNormalization") \
+                        and (graph.is_input(input) or len(node.input_tensors) > 0 and num == 1):
+                    print("ERROR: {}: input {} has to be constant".format(node.name, input))
+                    exit(1)
             if len(node.outputs) != 1:
                 print("ERROR: {}: multiple outputs are not supported".format(node.name))
                 exit(1)
-- 
2.43.0


From 95502cb322d351c6f42d00a074b3a89a79d5d73d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:12 +0000
Subject: [PATCH 43/60] fix: Concat of computed shapes of several values
 aborted the import

---
 onnx_import/constprop.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/onnx_import/constprop.py b/onnx_import/constprop.py
index 1d7776b..e6fe100 100644
--- a/onnx_import/constprop.py
+++ b/onnx_import/constprop.py
@@ -299,13 +299,12 @@ def constant_propagation(graph):
                 input_states.append(state_dict[i].value)
                 input_shapes.append(state_dict[i].shape)
         
-            out = ConstPropState(None, input_shapes[0] if None not in input_shapes else None)
+            out = ConstPropState(None, None)
 
-            # TODO: Is this first case even possible? If not, remove it!
-            if None not in input_states:
+            if all(state is not None for state in input_states):
                 res = np.concatenate(input_states, axis=axis)
                 out = ConstPropState(res, res.shape)
-            else:
+            elif all(shape is not None for shape in input_shapes):
                 dummy_inputs = [np.zeros(shape) for shape in input_shapes]
                 res = np.concatenate(dummy_inputs, axis=axis)
                 # TODO: Should the value of 'out' be something different than 'None'?
-- 
2.43.0


From a9b6e4384419e4b046abdf450d5e43571aa765e9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:45 +0000
Subject: [PATCH 44/60] fix: input data generated from wav files for 4-D inputs
 could not be read back

---
 util/generate_reference_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/generate_reference_data.py b/util/generate_reference_data.py
index 283997d..e3f2d63 100644
--- a/util/generate_reference_data.py
+++ b/util/generate_reference_data.py
@@ -109,8 +109,8 @@ def main():
         packed_input.append(struct.pack('{}s'.format(len(magic_input)), magic_input))
         packed_input.append(struct.pack('i', input_shape[0]))  # Number of batches
         packed_input.append(struct.pack('i', input_shape[1]))  # Number of channels
-        packed_input.append(struct.pack('i', 1))  # Channel height
-        packed_input.append(struct.pack('i', input_shape[2]))  # Channel width
+        packed_input.append(struct.pack('i', input_shape[2] if len(input_shape) == 4 else 1))  # Channel height
+        packed_input.append(struct.pack('i', input_shape[-1]))  # Channel width
         packed_input.append(struct.pack('f' * len(input_data), *input_data))  # Data
 
         tupac = bytes("end\n", "ascii")
-- 
2.43.0


From 9b567bcd66998e85689f829e344fc9d8d0734322 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:45 +0000
Subject: [PATCH 45/60] fix: paths of 1024 or more characters overflowed the
 stack in the generated programs

---
 .../code_templates/main_program/dummy_input.cpp       |  3 +--
 .../code_templates/main_program/reference_input.cpp   | 11 +++--------
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/onnx_import/code_templates/main_program/dummy_input.cpp b/onnx_import/code_templates/main_program/dummy_input.cpp
index 9d50311..0112dce 100644
--- a/onnx_import/code_templates/main_program/dummy_input.cpp
+++ b/onnx_import/code_templates/main_program/dummy_input.cpp
@@ -24,8 +24,7 @@ int32_t main(int32_t argc, char** argv) {
 
     std::srand(std::time(0));
 
-    char weights_path[1024];
-    strcpy(weights_path, argv[1]);
+    const char *weights_path = argv[1];
 
     int32_t RUNS = atoi(argv[2]);
 
diff --git a/onnx_import/code_templates/main_program/reference_input.cpp b/onnx_import/code_templates/main_program/reference_input.cpp
index 1a6bfa6..6cd78bb 100644
--- a/onnx_import/code_templates/main_program/reference_input.cpp
+++ b/onnx_import/code_templates/main_program/reference_input.cpp
@@ -20,14 +20,9 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    char weights_path[1024];
-    strcpy(weights_path, argv[1]);
-
-    char sample_input_path[1024];
-    strcpy(sample_input_path, argv[2]);
-
-    char sample_output_path[1024];
-    strcpy(sample_output_path, argv[3]);
+    const char *weights_path = argv[1];
+    const char *sample_input_path = argv[2];
+    const char *sample_output_path = argv[3];
 
     {% if num_input_dims == 4 %}
     auto input_tensor = new pico_cnn::naive::Tensor({{num_input_batches}}, {{num_input_channels}}, {{input_channel_height}}, {{input_channel_width}});
-- 
2.43.0


From 9ef6d0b644ba1dbd3ddfafd17399162ae051ce55 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 46/60] fix: MNIST examples wrote behind their path buffers

---
 examples/lenet.cpp                   | 11 ++++-------
 examples/mnist_mlp.cpp               | 11 ++++-------
 examples/mnist_simple_perceptron.cpp | 11 ++++-------
 3 files changed, 12 insertions(+), 21 deletions(-)

diff --git a/examples/lenet.cpp b/examples/lenet.cpp
index b3c7637..6064ac0 100644
--- a/examples/lenet.cpp
+++ b/examples/lenet.cpp
@@ -49,16 +49,13 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    char weights_path[1024];
-    char mnist_path[1024];
-
-    strcpy(weights_path, argv[1]);
-    strcpy(mnist_path, argv[2]);
+    const char* weights_path = argv[1];
+    const char* mnist_path = argv[2];
 
     uint32_t i, j;
 
     // read mnist t10k images
-    char t10k_images_path[strlen(mnist_path) + 20];
+    char t10k_images_path[strlen(mnist_path) + 24];
     t10k_images_path[0] = '\0';
     strcat(t10k_images_path, mnist_path);
     strcat(t10k_images_path, "/t10k-images.idx3-ubyte");
@@ -76,7 +73,7 @@ int32_t main(int32_t argc, char** argv) {
     }
 
     // read t10k labels
-    char t10k_labels_path[strlen(mnist_path) + 20];
+    char t10k_labels_path[strlen(mnist_path) + 24];
     t10k_labels_path[0] = '\0';
     strcat(t10k_labels_path, mnist_path);
     strcat(t10k_labels_path, "/t10k-labels.idx1-ubyte");
diff --git a/examples/mnist_mlp.cpp b/examples/mnist_mlp.cpp
index de4cf1b..3e58f5c 100644
--- a/examples/mnist_mlp.cpp
+++ b/examples/mnist_mlp.cpp
@@ -48,16 +48,13 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    char weights_path[1024];
-    char mnist_path[1024];
-
-    strcpy(weights_path, argv[1]);
-    strcpy(mnist_path, argv[2]);
+    const char* weights_path = argv[1];
+    const char* mnist_path = argv[2];
 
     uint32_t i, j;
 
     // read mnist t10k images
-    char t10k_images_path[strlen(mnist_path) + 20];
+    char t10k_images_path[strlen(mnist_path) + 24];
     t10k_images_path[0] = '\0';
     strcat(t10k_images_path, mnist_path);
     strcat(t10k_images_path, "/t10k-images.idx3-ubyte");
@@ -75,7 +72,7 @@ int32_t main(int32_t argc, char** argv) {
     }
 
     // read t10k labels
-    char t10k_labels_path[strlen(mnist_path) + 20];
+    char t10k_labels_path[strlen(mnist_path) + 24];
     t10k_labels_path[0] = '\0';
     strcat(t10k_labels_path, mnist_path);
     strcat(t10k_labels_path, "/t10k-labels.idx1-ubyte");
diff --git a/examples/mnist_simple_perceptron.cpp b/examples/mnist_simple_perceptron.cpp
index b424eaf..bcecf39 100644
--- a/examples/mnist_simple_perceptron.cpp
+++ b/examples/mnist_simple_perceptron.cpp
@@ -48,16 +48,13 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    char weights_path[1024];
-    char mnist_path[1024];
-
-    strcpy(weights_path, argv[1]);
-    strcpy(mnist_path, argv[2]);
+    const char* weights_path = argv[1];
+    const char* mnist_path = argv[2];
 
     uint32_t i, j;
 
     // read mnist t10k images
-    char t10k_images_path[strlen(mnist_path) + 20];
+    char t10k_images_path[strlen(mnist_path) + 24];
     t10k_images_path[0] = '\0';
     strcat(t10k_images_path, mnist_path);
     strcat(t10k_images_path, "/t10k-images.idx3-ubyte");
@@ -75,7 +72,7 @@ int32_t main(int32_t argc, char** argv) {
     }
 
     // read t10k labels
-    char t10k_labels_path[strlen(mnist_path) + 20];
+    char t10k_labels_path[strlen(mnist_path) + 24];
     t10k_labels_path[0] = '\0';
     strcat(t10k_labels_path, mnist_path);
     strcat(t10k_labels_path, "/t10k-labels.idx1-ubyte");
-- 
2.43.0


From 48e64e00a8d3499ae5e1a40b3732e853294b69f8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 47/60] fix: MNIST examples read behind a data set of fewer
 than 1000 images

---
 examples/lenet.cpp                   | 6 +++---
 examples/mnist_mlp.cpp               | 6 +++---
 examples/mnist_simple_perceptron.cpp | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/examples/lenet.cpp b/examples/lenet.cpp
index 6064ac0..6cf5daa 100644
--- a/examples/lenet.cpp
+++ b/examples/lenet.cpp
@@ -125,7 +125,7 @@ int32_t main(int32_t argc, char** argv) {
 
     PRINT_INFO("Starting CNN");
 
-    for(i = 0; i < NUM; i++) {
+    for(i = 0; i < num_t10k_images; i++) {
 
         std::memcpy(input_tensor->data_, t10k_images[i], 1*1*28*28*sizeof(fp_t));
         net->run(input_tensor, output_tensor);
@@ -160,7 +160,7 @@ int32_t main(int32_t argc, char** argv) {
 
     delete net;
 
-    for(i = 0; i < NUM; i++) {
+    for(i = 0; i < num_t10k_images; i++) {
         free(t10k_images[i]);
     }
 
@@ -171,7 +171,7 @@ int32_t main(int32_t argc, char** argv) {
     delete output_tensor;
 
     // calculate and print results
-    fp_t error_rate = 1.0-((fp_t) correct_predictions/((fp_t) NUM));
+    fp_t error_rate = 1.0-((fp_t) correct_predictions/((fp_t) num_t10k_images));
 
     #ifdef INFO
 
diff --git a/examples/mnist_mlp.cpp b/examples/mnist_mlp.cpp
index 3e58f5c..cc66382 100644
--- a/examples/mnist_mlp.cpp
+++ b/examples/mnist_mlp.cpp
@@ -124,7 +124,7 @@ int32_t main(int32_t argc, char** argv) {
 
     PRINT_INFO("Starting CNN");
 
-    for(i = 0; i < NUM; i++) {
+    for(i = 0; i < num_t10k_images; i++) {
 
         std::memcpy(input_tensor->data_, t10k_images[i], 1*1*28*28*sizeof(fp_t));
         net->run(input_tensor, output_tensor);
@@ -159,7 +159,7 @@ int32_t main(int32_t argc, char** argv) {
 
     delete net;
 
-    for(i = 0; i < NUM; i++) {
+    for(i = 0; i < num_t10k_images; i++) {
         free(t10k_images[i]);
     }
 
@@ -170,7 +170,7 @@ int32_t main(int32_t argc, char** argv) {
     delete output_tensor;
 
     // calculate and print results
-    fp_t error_rate = 1.0-((fp_t) correct_predictions/((fp_t) NUM));
+    fp_t error_rate = 1.0-((fp_t) correct_predictions/((fp_t) num_t10k_images));
 
     #ifdef INFO
 
diff --git a/examples/mnist_simple_perceptron.cpp b/examples/mnist_simple_perceptron.cpp
index bcecf39..b496e71 100644
--- a/examples/mnist_simple_perceptron.cpp
+++ b/examples/mnist_simple_perceptron.cpp
@@ -124,7 +124,7 @@ int32_t main(int32_t argc, char** argv) {
 
     PRINT_INFO("Starting CNN");
 
-    for(i = 0; i < NUM; i++) {
+    for(i = 0; i < num_t10k_images; i++) {
 
         std::memcpy(input_tensor->data_, t10k_images[i], 1*1*28*28*sizeof(fp_t));
         net->run(input_tensor, output_tensor);
@@ -159,7 +159,7 @@ int32_t main(int32_t argc, char** argv) {
 
     delete net;
 
-    for(i = 0; i < NUM; i++) {
+    for(i = 0; i < num_t10k_images; i++) {
         free(t10k_images[i]);
     }
 
@@ -170,7 +170,7 @@ int32_t main(int32_t argc, char** argv) {
     delete output_tensor;
 
     // calculate and print results
-    fp_t error_rate = 1.0-((fp_t) correct_predictions/((fp_t) NUM));
+    fp_t error_rate = 1.0-((fp_t) correct_predictions/((fp_t) num_t10k_images));
 
     #ifdef INFO
 
-- 
2.43.0


From 9c8aee3e9f12da3bae492a92973b5f3488176b85 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 48/60] fix: MNIST examples wrote outside the confusion matrix
 for labels above 9

---
 examples/lenet.cpp                   | 7 +++++++
 examples/mnist_mlp.cpp               | 7 +++++++
 examples/mnist_simple_perceptron.cpp | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/examples/lenet.cpp b/examples/lenet.cpp
index 6cf5daa..fb9a206 100644
--- a/examples/lenet.cpp
+++ b/examples/lenet.cpp
@@ -90,6 +90,13 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
+    for(i = 0; i < num_t10k_labels; i++) {
+        if(t10k_labels[i] > 9) {
+            PRINT_ERROR("Label " << (uint32_t) t10k_labels[i] << " of image " << i << " is not a digit")
+            return 1;
+        }
+    }
+
     // make pgm of original image
     #ifdef DEBUG
     write_pgm(t10k_images[INDEX], 28, 28, "input.pgm");
diff --git a/examples/mnist_mlp.cpp b/examples/mnist_mlp.cpp
index cc66382..4e6b697 100644
--- a/examples/mnist_mlp.cpp
+++ b/examples/mnist_mlp.cpp
@@ -89,6 +89,13 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
+    for(i = 0; i < num_t10k_labels; i++) {
+        if(t10k_labels[i] > 9) {
+            PRINT_ERROR("Label " << (uint32_t) t10k_labels[i] << " of image " << i << " is not a digit")
+            return 1;
+        }
+    }
+
     // make pgm of original image
     #ifdef DEBUG
     write_pgm(t10k_images[INDEX], 28, 28, "input.pgm");
diff --git a/examples/mnist_simple_perceptron.cpp b/examples/mnist_simple_perceptron.cpp
index b496e71..100fc61 100644
--- a/examples/mnist_simple_perceptron.cpp
+++ b/examples/mnist_simple_perceptron.cpp
@@ -89,6 +89,13 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
+    for(i = 0; i < num_t10k_labels; i++) {
+        if(t10k_labels[i] > 9) {
+            PRINT_ERROR("Label " << (uint32_t) t10k_labels[i] << " of image " << i << " is not a digit")
+            return 1;
+        }
+    }
+
     // make pgm of original image
     #ifdef DEBUG
     write_pgm(t10k_images[INDEX], 28, 28, "input.pgm");
-- 
2.43.0


From cdf9781c3f7466b05c444b02adcfacee6e6cf1c8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 49/60] fix: ImageNet examples wrote behind their path buffers

---
 examples/alexnet.cpp | 13 ++++---------
 examples/vgg.cpp     | 13 ++++---------
 2 files changed, 8 insertions(+), 18 deletions(-)

diff --git a/examples/alexnet.cpp b/examples/alexnet.cpp
index 350fa1f..e2e7c84 100644
--- a/examples/alexnet.cpp
+++ b/examples/alexnet.cpp
@@ -55,15 +55,10 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    char weights_path[1024];
-    char means_path[1024];
-    char labels_path[1024];
-    char jpeg_path[1024];
-
-    strcpy(weights_path, argv[1]);
-    strcpy(means_path, argv[2]);
-    strcpy(labels_path, argv[3]);
-    strcpy(jpeg_path, argv[4]);
+    const char* weights_path = argv[1];
+    const char* means_path = argv[2];
+    const char* labels_path = argv[3];
+    const char* jpeg_path = argv[4];
 
     uint32_t i;
 
diff --git a/examples/vgg.cpp b/examples/vgg.cpp
index 631fd5a..d2cf8b9 100644
--- a/examples/vgg.cpp
+++ b/examples/vgg.cpp
@@ -55,15 +55,10 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    char weights_path[1024];
-    char means_path[1024];
-    char labels_path[1024];
-    char jpeg_path[1024];
-
-    strcpy(weights_path, argv[1]);
-    strcpy(means_path, argv[2]);
-    strcpy(labels_path, argv[3]);
-    strcpy(jpeg_path, argv[4]);
+    const char* weights_path = argv[1];
+    const char* means_path = argv[2];
+    const char* labels_path = argv[3];
+    const char* jpeg_path = argv[4];
 
     uint32_t i;
 
-- 
2.43.0


From 4f3bed386b5401ce72b2c203a6f8e4d805645ab0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 50/60] fix: ImageNet examples overran their buffers for images
 that are not 224x224

---
 examples/alexnet.cpp | 5 +++++
 examples/vgg.cpp     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/examples/alexnet.cpp b/examples/alexnet.cpp
index e2e7c84..6dc05ab 100644
--- a/examples/alexnet.cpp
+++ b/examples/alexnet.cpp
@@ -108,6 +108,11 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
+    if(height != IMAGE_SIZE || width != IMAGE_SIZE) {
+        PRINT_ERROR("Image is " << width << "x" << height << " instead of " << IMAGE_SIZE << "x" << IMAGE_SIZE)
+        return 1;
+    }
+
     // substract mean from each channel
     fp_t** input = (fp_t**) malloc(3*sizeof(fp_t*));
     input[0] = (fp_t*) malloc(IMAGE_SIZE*IMAGE_SIZE*sizeof(fp_t));
diff --git a/examples/vgg.cpp b/examples/vgg.cpp
index d2cf8b9..df5f562 100644
--- a/examples/vgg.cpp
+++ b/examples/vgg.cpp
@@ -106,6 +106,11 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
+    if(height != IMAGE_SIZE || width != IMAGE_SIZE) {
+        PRINT_ERROR("Image is " << width << "x" << height << " instead of " << IMAGE_SIZE << "x" << IMAGE_SIZE)
+        return 1;
+    }
+
     // substract mean from each channel
     fp_t** input = (fp_t**) malloc(3*sizeof(fp_t*));
     input[0] = (fp_t*) malloc(IMAGE_SIZE*IMAGE_SIZE*sizeof(fp_t));
-- 
2.43.0


From 8eb24df600ec8a93d099ae81189a38b19bdfd6e3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 51/60] fix: model check reported a match without reference
 outputs to compare

---
 util/check_onnx_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/check_onnx_model.py b/util/check_onnx_model.py
index 193c424..934e440 100644
--- a/util/check_onnx_model.py
+++ b/util/check_onnx_model.py
@@ -61,6 +61,8 @@ def main():
     outputs = list(backend.run_model(model, inputs, device='CPU'))
 
     # Compare the results with reference outputs.
+    assert len(ref_outputs) == len(outputs), \
+        "{} reference outputs for {} outputs of the network".format(len(ref_outputs), len(outputs))
     for ref_o, o in zip(ref_outputs, outputs):
         np.testing.assert_almost_equal(ref_o, o, decimal=4)
 
-- 
2.43.0


From 089496dc294e3bae9829453c7cd129713353e157 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 52/60] fix: MNIST examples rounded the error rate to one digit
 and wrote debug files in every build

---
 examples/lenet.cpp                   | 4 ++--
 examples/mnist_mlp.cpp               | 4 ++--
 examples/mnist_simple_perceptron.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/examples/lenet.cpp b/examples/lenet.cpp
index fb9a206..a00fc37 100644
--- a/examples/lenet.cpp
+++ b/examples/lenet.cpp
@@ -98,7 +98,7 @@ int32_t main(int32_t argc, char** argv) {
     }
 
     // make pgm of original image
-    #ifdef DEBUG
+    #if DEBUG
     write_pgm(t10k_images[INDEX], 28, 28, "input.pgm");
     write_float(t10k_images[INDEX], 28, 28, "input.float");
     #endif
@@ -150,7 +150,7 @@ int32_t main(int32_t argc, char** argv) {
             correct_predictions++;
         }
 
-        #ifdef DEBUG
+        #if DEBUG
         if(i == 0) {
 
             std::cout << std::setprecision(1);
diff --git a/examples/mnist_mlp.cpp b/examples/mnist_mlp.cpp
index 4e6b697..469c629 100644
--- a/examples/mnist_mlp.cpp
+++ b/examples/mnist_mlp.cpp
@@ -97,7 +97,7 @@ int32_t main(int32_t argc, char** argv) {
     }
 
     // make pgm of original image
-    #ifdef DEBUG
+    #if DEBUG
     write_pgm(t10k_images[INDEX], 28, 28, "input.pgm");
     write_float(t10k_images[INDEX], 28, 28, "input.float");
     #endif
@@ -149,7 +149,7 @@ int32_t main(int32_t argc, char** argv) {
             correct_predictions++;
         }
 
-        #ifdef DEBUG
+        #if DEBUG
         if(i == 0) {
 
             std::cout << std::setprecision(1);
diff --git a/examples/mnist_simple_perceptron.cpp b/examples/mnist_simple_perceptron.cpp
index 100fc61..c168cec 100644
--- a/examples/mnist_simple_perceptron.cpp
+++ b/examples/mnist_simple_perceptron.cpp
@@ -97,7 +97,7 @@ int32_t main(int32_t argc, char** argv) {
     }
 
     // make pgm of original image
-    #ifdef DEBUG
+    #if DEBUG
     write_pgm(t10k_images[INDEX], 28, 28, "input.pgm");
     write_float(t10k_images[INDEX], 28, 28, "input.float");
     #endif
@@ -149,7 +149,7 @@ int32_t main(int32_t argc, char** argv) {
             correct_predictions++;
         }
 
-        #ifdef DEBUG
+        #if DEBUG
         if(i == 0) {
 
             std::cout << std::setprecision(1);
-- 
2.43.0


From dbd14669da95be1db00391de92108c3570d98804 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 53/60] fix: convolution of a tensor of unsupported rank
 printed an error and returned leftover output

---
 pico-cnn/layers/convolution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico-cnn/layers/convolution.cpp b/pico-cnn/layers/convolution.cpp
index 0994463..c309c34 100644
--- a/pico-cnn/layers/convolution.cpp
+++ b/pico-cnn/layers/convolution.cpp
@@ -33,7 +33,7 @@ namespace pico_cnn {
         void Convolution::run(Tensor *input, Tensor *output) {
 
             if (input->num_dimensions() != 4 && input->num_dimensions() != 3) {
-                PRINT_ERROR("Not implemented for Tensor with number of dimensions: " << input->num_dimensions());
+                PRINT_ERROR_AND_DIE("Not implemented for Tensor with number of dimensions: " << input->num_dimensions());
             }
 
             uint32_t num_batches = input->num_batches();
-- 
2.43.0


From bd58994b38e180dffc2a4e83139efd0df948efd1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:37 +0000
Subject: [PATCH 54/60] fix: average pooling divided by a negative element
 count for windows inside the padding

---
 pico-cnn/layers/pooling/average_pooling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico-cnn/layers/pooling/average_pooling.cpp b/pico-cnn/layers/pooling/average_pooling.cpp
index d4b7c42..a366326 100644
--- a/pico-cnn/layers/pooling/average_pooling.cpp
+++ b/pico-cnn/layers/pooling/average_pooling.cpp
@@ -112,7 +112,7 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
 
                                 divisor = div_row * div_col;
 
-                                if (divisor == 0) {
+                                if (div_row <= 0 || div_col <= 0) {
                                     PRINT_ERROR("ERROR: Division by zero! Aborting execution.")
                                     exit(1);
                                 }
@@ -204,7 +204,7 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
 
                             divisor = div_col;
 
-                            if (divisor == 0) {
+                            if (div_col <= 0) {
                                 PRINT_ERROR("ERROR: Division by zero! Aborting execution.")
                                 exit(1);
                             }
-- 
2.43.0


From d40c9ba9860a0e4051c8d0b57b5ec702615f3722 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 55/60] fix: grouped convolutions with more than 65535 groups
 computed channel offsets that overflowed

---
 pico-cnn/layers/convolution.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pico-cnn/layers/convolution.cpp b/pico-cnn/layers/convolution.cpp
index c309c34..f40a7e8 100644
--- a/pico-cnn/layers/convolution.cpp
+++ b/pico-cnn/layers/convolution.cpp
@@ -63,15 +63,15 @@ namespace pico_cnn {
             for (uint32_t batch = 0; batch < num_batches; batch++) {
 
                 for (uint32_t g = 0; g < num_groups_; g++) {
-                    for (uint32_t i = g * num_output_channels / num_groups_;
-                         i < (g + 1) * num_output_channels / num_groups_; i++) {
+                    for (uint32_t i = g * (num_output_channels / num_groups_);
+                         i < (g + 1) * (num_output_channels / num_groups_); i++) {
 
                         if (input_tensor->num_dimensions() == 4) {
-                            this->convolve(input_tensor, output, g * num_input_channels / num_groups_, i, 0,
+                            this->convolve(input_tensor, output, g * (num_input_channels / num_groups_), i, 0,
                                            num_input_channels, input_height, input_width,
                                            num_output_channels, output_height, output_width, num_kernel_input_channel);
                         } else if (input_tensor->num_dimensions() == 3) {
-                            this->convolve_1d(input_tensor, output, g * num_input_channels / num_groups_, i, 0,
+                            this->convolve_1d(input_tensor, output, g * (num_input_channels / num_groups_), i, 0,
                                            num_input_channels, input_width,
                                            num_output_channels, output_width, num_kernel_input_channel);
                         }
@@ -80,7 +80,7 @@ namespace pico_cnn {
                         if (num_input_channels > num_groups_) {
                             uint32_t cnt = 1;
 
-                            for (uint32_t j = g * num_input_channels / num_groups_ + 1;
+                            for (uint32_t j = g * (num_input_channels / num_groups_) + 1;
                                  j < (g + 1) * (num_input_channels / num_groups_); j++) {
 
 
-- 
2.43.0


From 4f06d1a3ee6c29ada9079825dbf769f14e6758e2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:19 +0000
Subject: [PATCH 56/60] Restore the example programs to their original state
 (recorded as known findings instead)

---
 examples/alexnet.cpp                 | 18 +++++++++---------
 examples/lenet.cpp                   | 28 ++++++++++++----------------
 examples/mnist_mlp.cpp               | 28 ++++++++++++----------------
 examples/mnist_simple_perceptron.cpp | 28 ++++++++++++----------------
 examples/vgg.cpp                     | 18 +++++++++---------
 5 files changed, 54 insertions(+), 66 deletions(-)

diff --git a/examples/alexnet.cpp b/examples/alexnet.cpp
index 6dc05ab..350fa1f 100644
--- a/examples/alexnet.cpp
+++ b/examples/alexnet.cpp
@@ -55,10 +55,15 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    const char* weights_path = argv[1];
-    const char* means_path = argv[2];
-    const char* labels_path = argv[3];
-    const char* jpeg_path = argv[4];
+    char weights_path[1024];
+    char means_path[1024];
+    char labels_path[1024];
+    char jpeg_path[1024];
+
+    strcpy(weights_path, argv[1]);
+    strcpy(means_path, argv[2]);
+    strcpy(labels_path, argv[3]);
+    strcpy(jpeg_path, argv[4]);
 
     uint32_t i;
 
@@ -108,11 +113,6 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    if(height != IMAGE_SIZE || width != IMAGE_SIZE) {
-        PRINT_ERROR("Image is " << width << "x" << height << " instead of " << IMAGE_SIZE << "x" << IMAGE_SIZE)
-        return 1;
-    }
-
     // substract mean from each channel
     fp_t** input = (fp_t**) malloc(3*sizeof(fp_t*));
     input[0] = (fp_t*) malloc(IMAGE_SIZE*IMAGE_SIZE*sizeof(fp_t));
diff --git a/examples/lenet.cpp b/examples/lenet.cpp
index a00fc37..b3c7637 100644
--- a/examples/lenet.cpp
+++ b/examples/lenet.cpp
@@ -49,13 +49,16 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    const char* weights_path = argv[1];
-    const char* mnist_path = argv[2];
+    char weights_path[1024];
+    char mnist_path[1024];
+
+    strcpy(weights_path, argv[1]);
+    strcpy(mnist_path, argv[2]);
 
     uint32_t i, j;
 
     // read mnist t10k images
-    char t10k_images_path[strlen(mnist_path) + 24];
+    char t10k_images_path[strlen(mnist_path) + 20];
     t10k_images_path[0] = '\0';
     strcat(t10k_images_path, mnist_path);
     strcat(t10k_images_path, "/t10k-images.idx3-ubyte");
@@ -73,7 +76,7 @@ int32_t main(int32_t argc, char** argv) {
     }
 
     // read t10k labels
-    char t10k_labels_path[strlen(mnist_path) + 24];
+    char t10k_labels_path[strlen(mnist_path) + 20];
     t10k_labels_path[0] = '\0';
     strcat(t10k_labels_path, mnist_path);
     strcat(t10k_labels_path, "/t10k-labels.idx1-ubyte");
@@ -90,15 +93,8 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    for(i = 0; i < num_t10k_labels; i++) {
-        if(t10k_labels[i] > 9) {
-            PRINT_ERROR("Label " << (uint32_t) t10k_labels[i] << " of image " << i << " is not a digit")
-            return 1;
-        }
-    }
-
     // make pgm of original image
-    #if DEBUG
+    #ifdef DEBUG
     write_pgm(t10k_images[INDEX], 28, 28, "input.pgm");
     write_float(t10k_images[INDEX], 28, 28, "input.float");
     #endif
@@ -132,7 +128,7 @@ int32_t main(int32_t argc, char** argv) {
 
     PRINT_INFO("Starting CNN");
 
-    for(i = 0; i < num_t10k_images; i++) {
+    for(i = 0; i < NUM; i++) {
 
         std::memcpy(input_tensor->data_, t10k_images[i], 1*1*28*28*sizeof(fp_t));
         net->run(input_tensor, output_tensor);
@@ -150,7 +146,7 @@ int32_t main(int32_t argc, char** argv) {
             correct_predictions++;
         }
 
-        #if DEBUG
+        #ifdef DEBUG
         if(i == 0) {
 
             std::cout << std::setprecision(1);
@@ -167,7 +163,7 @@ int32_t main(int32_t argc, char** argv) {
 
     delete net;
 
-    for(i = 0; i < num_t10k_images; i++) {
+    for(i = 0; i < NUM; i++) {
         free(t10k_images[i]);
     }
 
@@ -178,7 +174,7 @@ int32_t main(int32_t argc, char** argv) {
     delete output_tensor;
 
     // calculate and print results
-    fp_t error_rate = 1.0-((fp_t) correct_predictions/((fp_t) num_t10k_images));
+    fp_t error_rate = 1.0-((fp_t) correct_predictions/((fp_t) NUM));
 
     #ifdef INFO
 
diff --git a/examples/mnist_mlp.cpp b/examples/mnist_mlp.cpp
index 469c629..de4cf1b 100644
--- a/examples/mnist_mlp.cpp
+++ b/examples/mnist_mlp.cpp
@@ -48,13 +48,16 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    const char* weights_path = argv[1];
-    const char* mnist_path = argv[2];
+    char weights_path[1024];
+    char mnist_path[1024];
+
+    strcpy(weights_path, argv[1]);
+    strcpy(mnist_path, argv[2]);
 
     uint32_t i, j;
 
     // read mnist t10k images
-    char t10k_images_path[strlen(mnist_path) + 24];
+    char t10k_images_path[strlen(mnist_path) + 20];
     t10k_images_path[0] = '\0';
     strcat(t10k_images_path, mnist_path);
     strcat(t10k_images_path, "/t10k-images.idx3-ubyte");
@@ -72,7 +75,7 @@ int32_t main(int32_t argc, char** argv) {
     }
 
     // read t10k labels
-    char t10k_labels_path[strlen(mnist_path) + 24];
+    char t10k_labels_path[strlen(mnist_path) + 20];
     t10k_labels_path[0] = '\0';
     strcat(t10k_labels_path, mnist_path);
     strcat(t10k_labels_path, "/t10k-labels.idx1-ubyte");
@@ -89,15 +92,8 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    for(i = 0; i < num_t10k_labels; i++) {
-        if(t10k_labels[i] > 9) {
-            PRINT_ERROR("Label " << (uint32_t) t10k_labels[i] << " of image " << i << " is not a digit")
-            return 1;
-        }
-    }
-
     // make pgm of original image
-    #if DEBUG
+    #ifdef DEBUG
     write_pgm(t10k_images[INDEX], 28, 28, "input.pgm");
     write_float(t10k_images[INDEX], 28, 28, "input.float");
     #endif
@@ -131,7 +127,7 @@ int32_t main(int32_t argc, char** argv) {
 
     PRINT_INFO("Starting CNN");
 
-    for(i = 0; i < num_t10k_images; i++) {
+    for(i = 0; i < NUM; i++) {
 
         std::memcpy(input_tensor->data_, t10k_images[i], 1*1*28*28*sizeof(fp_t));
         net->run(input_tensor, output_tensor);
@@ -149,7 +145,7 @@ int32_t main(int32_t argc, char** argv) {
             correct_predictions++;
         }
 
-        #if DEBUG
+        #ifdef DEBUG
         if(i == 0) {
 
             std::cout << std::setprecision(1);
@@ -166,7 +162,7 @@ int32_t main(int32_t argc, char** argv) {
 
     delete net;
 
-    for(i = 0; i < num_t10k_images; i++) {
+    for(i = 0; i < NUM; i++) {
         free(t10k_images[i]);
     }
 
@@ -177,7 +173,7 @@ int32_t main(int32_t argc, char** argv) {
     delete output_tensor;
 
     // calculate and print results
-    fp_t error_rate = 1.0-((fp_t) correct_predictions/((fp_t) num_t10k_images));
+    fp_t error_rate = 1.0-((fp_t) correct_predictions/((fp_t) NUM));
 
     #ifdef INFO
 
diff --git a/examples/mnist_simple_perceptron.cpp b/examples/mnist_simple_perceptron.cpp
index c168cec..b424eaf 100644
--- a/examples/mnist_simple_perceptron.cpp
+++ b/examples/mnist_simple_perceptron.cpp
@@ -48,13 +48,16 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    const char* weights_path = argv[1];
-    const char* mnist_path = argv[2];
+    char weights_path[1024];
+    char mnist_path[1024];
+
+    strcpy(weights_path, argv[1]);
+    strcpy(mnist_path, argv[2]);
 
     uint32_t i, j;
 
     // read mnist t10k images
-    char t10k_images_path[strlen(mnist_path) + 24];
+    char t10k_images_path[strlen(mnist_path) + 20];
     t10k_images_path[0] = '\0';
     strcat(t10k_images_path, mnist_path);
     strcat(t10k_images_path, "/t10k-images.idx3-ubyte");
@@ -72,7 +75,7 @@ int32_t main(int32_t argc, char** argv) {
     }
 
     // read t10k labels
-    char t10k_labels_path[strlen(mnist_path) + 24];
+    char t10k_labels_path[strlen(mnist_path) + 20];
     t10k_labels_path[0] = '\0';
     strcat(t10k_labels_path, mnist_path);
     strcat(t10k_labels_path, "/t10k-labels.idx1-ubyte");
@@ -89,15 +92,8 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    for(i = 0; i < num_t10k_labels; i++) {
-        if(t10k_labels[i] > 9) {
-            PRINT_ERROR("Label " << (uint32_t) t10k_labels[i] << " of image " << i << " is not a digit")
-            return 1;
-        }
-    }
-
     // make pgm of original image
-    #if DEBUG
+    #ifdef DEBUG
     write_pgm(t10k_images[INDEX], 28, 28, "input.pgm");
     write_float(t10k_images[INDEX], 28, 28, "input.float");
     #endif
@@ -131,7 +127,7 @@ int32_t main(int32_t argc, char** argv) {
 
     PRINT_INFO("Starting CNN");
 
-    for(i = 0; i < num_t10k_images; i++) {
+    for(i = 0; i < NUM; i++) {
 
         std::memcpy(input_tensor->data_, t10k_images[i], 1*1*28*28*sizeof(fp_t));
         net->run(input_tensor, output_tensor);
@@ -149,7 +145,7 @@ int32_t main(int32_t argc, char** argv) {
             correct_predictions++;
         }
 
-        #if DEBUG
+        #ifdef DEBUG
         if(i == 0) {
 
             std::cout << std::setprecision(1);
@@ -166,7 +162,7 @@ int32_t main(int32_t argc, char** argv) {
 
     delete net;
 
-    for(i = 0; i < num_t10k_images; i++) {
+    for(i = 0; i < NUM; i++) {
         free(t10k_images[i]);
     }
 
@@ -177,7 +173,7 @@ int32_t main(int32_t argc, char** argv) {
     delete output_tensor;
 
     // calculate and print results
-    fp_t error_rate = 1.0-((fp_t) correct_predictions/((fp_t) num_t10k_images));
+    fp_t error_rate = 1.0-((fp_t) correct_predictions/((fp_t) NUM));
 
     #ifdef INFO
 
diff --git a/examples/vgg.cpp b/examples/vgg.cpp
index df5f562..631fd5a 100644
--- a/examples/vgg.cpp
+++ b/examples/vgg.cpp
@@ -55,10 +55,15 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    const char* weights_path = argv[1];
-    const char* means_path = argv[2];
-    const char* labels_path = argv[3];
-    const char* jpeg_path = argv[4];
+    char weights_path[1024];
+    char means_path[1024];
+    char labels_path[1024];
+    char jpeg_path[1024];
+
+    strcpy(weights_path, argv[1]);
+    strcpy(means_path, argv[2]);
+    strcpy(labels_path, argv[3]);
+    strcpy(jpeg_path, argv[4]);
 
     uint32_t i;
 
@@ -106,11 +111,6 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    if(height != IMAGE_SIZE || width != IMAGE_SIZE) {
-        PRINT_ERROR("Image is " << width << "x" << height << " instead of " << IMAGE_SIZE << "x" << IMAGE_SIZE)
-        return 1;
-    }
-
     // substract mean from each channel
     fp_t** input = (fp_t**) malloc(3*sizeof(fp_t*));
     input[0] = (fp_t*) malloc(IMAGE_SIZE*IMAGE_SIZE*sizeof(fp_t));
-- 
2.43.0


From 5302c5ab1d3fab11885d25cfbc65da34a33c9e61 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:19 +0000
Subject: [PATCH 57/60] fix: import of a model with an unsupported layer
 reported success and kept outdated generated code

---
 onnx_import/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index ea9f9ef..17a4b92 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -721,7 +721,7 @@ class BackendRep(backend_base.BackendRep):
 
             else:
                 print("ERROR: Unsupported layer: {}! Aborting code generation.".format(node.op_type))
-                return 1
+                exit(1)
 
         self.constructor_code += layer_allocation_code + "\n"
         self.destructor_code += layer_deletion_code + "\n"
-- 
2.43.0


From 124ef49cb622850c04ddd49d381914c609bb8bd6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:19 +0000
Subject: [PATCH 58/60] fix: reference file parser reported success for
 unsupported tensors

---
 util/parse_onnx_reference_files.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/parse_onnx_reference_files.py b/util/parse_onnx_reference_files.py
index e4fec18..4ced139 100644
--- a/util/parse_onnx_reference_files.py
+++ b/util/parse_onnx_reference_files.py
@@ -42,7 +42,7 @@ def main():
 
         if len(tensor_array.shape) != 4 or tensor_array.shape[0] != 1:
             print("ERROR: Unsupported input shape: {}".format(tensor_array.shape))
-            return
+            exit(1)
         else:
             tensor_shape = tensor_array.shape
 
@@ -84,7 +84,7 @@ def main():
 
         if len(tensor_array.shape) != 2 or tensor_array.shape[0] != 1:
             print("ERROR: Unsupported output shape: {}".format(tensor_array.shape))
-            return
+            exit(1)
         else:
             tensor_shape = tensor_array.shape
 
-- 
2.43.0


From 3a0702504e7ff3adaf3b3b04fcb9c7c64e6a2574 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:07 +0000
Subject: [PATCH 59/60] fix: draw new random input for every run of the dummy
 program

With GENERATE_ONCE = 0 the generator was seeded again with the current second
before each run, so all runs within a second used the same input. It is seeded
once at the start of the program.
---
 onnx_import/code_templates/main_program/dummy_input.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/onnx_import/code_templates/main_program/dummy_input.cpp b/onnx_import/code_templates/main_program/dummy_input.cpp
index 0112dce..359e8f6 100644
--- a/onnx_import/code_templates/main_program/dummy_input.cpp
+++ b/onnx_import/code_templates/main_program/dummy_input.cpp
@@ -76,8 +76,6 @@ int32_t main(int32_t argc, char** argv) {
         PRINT_DEBUG("Run " << run+1 << " of " << RUNS)
 
         if(!GENERATE_ONCE) {
-            srand(time(NULL));
-
             for(uint32_t element = 0; element < input_tensor->num_elements(); element++) {
                 input_tensor->access_blob(element) = urand(LOWER_BOUND, UPPER_BOUND);
             }
-- 
2.43.0


From 463b93969bdc8439012bb899d900eaed7bffc518 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 60/60] fix: set the batch size on the network's input, not on
 the first listed one

Models may list their parameters before the input. The first extent of a
parameter was set to 1 instead, or the import failed for a scalar parameter.
---
 onnx_import/onnx_to_pico_cnn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_import/onnx_to_pico_cnn.py b/onnx_import/onnx_to_pico_cnn.py
index e7a5494..a021bb3 100644
--- a/onnx_import/onnx_to_pico_cnn.py
+++ b/onnx_import/onnx_to_pico_cnn.py
@@ -14,7 +14,9 @@ def onnx_to_pico_cnn(onnx_model, model_name):
 
     # print(onnx_model.graph)
     # Set input batch size to 1
-    onnx_model.graph.input[0].type.tensor_type.shape.dim[0].dim_value = 1
+    parameters = {initializer.name for initializer in onnx_model.graph.initializer}
+    network_input = next((i for i in onnx_model.graph.input if i.name not in parameters), onnx_model.graph.input[0])
+    network_input.type.tensor_type.shape.dim[0].dim_value = 1
     onnx_model.graph.output[0].type.tensor_type.shape.dim[0].dim_param = "?"
     # onnx_model.graph.output[0].type.tensor_type.shape.dim[0].dim_value = 1
     # inputs = onnx_model.graph.input
-- 
2.43.0

