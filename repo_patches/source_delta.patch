From f4f3604012caccc403762ec36538d7213760053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 01/22] fix: match remote results to the request they answer

---
 demo/demo_lib/demo_lib/fpga.py | 42 ++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/demo/demo_lib/demo_lib/fpga.py b/demo/demo_lib/demo_lib/fpga.py
index 541aea2..c9ae4a9 100644
--- a/demo/demo_lib/demo_lib/fpga.py
+++ b/demo/demo_lib/demo_lib/fpga.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import json
 import logging
 import threading
+import uuid
 from abc import abstractmethod
 from dataclasses import dataclass
 from typing import Any, Generic, Protocol, TypeVar
@@ -24,6 +25,16 @@ class InferFPGA(Protocol):
         ...
 
 
+class _PendingRequest:
+    """Synchronization state of the one request that is waiting for its result"""
+
+    def __init__(self, id: str, n_rows: int) -> None:
+        self.id = id
+        self.n_rows = n_rows
+        self.result: np.ndarray | None = None
+        self.event = threading.Event()
+
+
 class InferFPGAMQTT(InferFPGA):
     def __init__(
         self,
@@ -45,8 +56,7 @@ class InferFPGAMQTT(InferFPGA):
         self._qos = qos
 
         # Async result synchronization
-        self._result: np.ndarray | None = None
-        self._result_event = threading.Event()
+        self._pending: _PendingRequest | None = None
         self._max_batch_size = max_batch_size
         self._timeout = timeout
 
@@ -61,28 +71,36 @@ class InferFPGAMQTT(InferFPGA):
 
         chunk_resuts = []
 
-        for i, chunk in enumerate(np.array_split(x, n_splits)):
-            # Clear the result sync event & buffer
-            self._result_event.clear()
-            self._result = None
+        for chunk in np.array_split(x, n_splits):
+            # The id is unique, a late result of another request can not be mistaken
+            # for the result of this one.
+            request = _PendingRequest(uuid.uuid4().hex, len(chunk))
+            self._pending = request
 
-            input_ = Input.from_numpy(str(i), chunk)
+            input_ = Input.from_numpy(request.id, chunk)
             input_json = json.dumps({"input": input_.as_kv()})
             self._client.publish(self._infer_topic, input_json, qos=self._qos)
-            was_timeout = not self._result_event.wait(timeout=self._timeout)
-            if self._result is None:
+            was_timeout = not request.event.wait(timeout=self._timeout)
+            if request.result is None:
                 raise RuntimeError(
                     f"Result is None, synchronization failed. {'Reason timeout' if was_timeout else ''}"
                 )
-            chunk_resuts.append(self._result)
+            chunk_resuts.append(request.result)
         return np.concatenate(chunk_resuts)
 
     @log_exception(logger=logger)
     def on_result(self, _client: Client, _: None, message: MQTTMessage) -> None:
         res_dict = json.loads(message.payload.decode("utf-8"))
         res = Output.from_kv(res_dict)
-        self._result = res.as_numpy()
-        self._result_event.set()  # notify that a result is ready
+        request = self._pending
+        if request is None or res.id != request.id:
+            logger.warning("Ignoring a result that was not requested, id: %s", res.id)
+            return
+        result = res.as_numpy()
+        if not np.issubdtype(result.dtype, np.number) or len(result) != request.n_rows:
+            raise ValueError(f"Invalid result, {result.dtype}{result.shape}")
+        request.result = result
+        request.event.set()  # notify that a result is ready
 
 
 class LossFPGA(InferFPGA):
-- 
2.43.0


From 0997a24dc865396f8fb6d7f3d93bed6eb36add4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 02/22] fix: split remote batches that are short or not
 divisible by the batch size

---
 demo/demo_lib/demo_lib/fpga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demo/demo_lib/demo_lib/fpga.py b/demo/demo_lib/demo_lib/fpga.py
index c9ae4a9..c7c5ffd 100644
--- a/demo/demo_lib/demo_lib/fpga.py
+++ b/demo/demo_lib/demo_lib/fpga.py
@@ -67,7 +67,7 @@ class InferFPGAMQTT(InferFPGA):
 
         self._client.publish(self._model_topic, json_net, qos=self._qos)
 
-        n_splits = len(x) // self._max_batch_size
+        n_splits = max(1, -(-len(x) // self._max_batch_size))
 
         chunk_resuts = []
 
-- 
2.43.0


From 2ad56d123f156f1f64744a7bde6af2f679ddaffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 03/22] fix: subscribe again to the result topic after a
 reconnection

---
 demo/demo_lib/demo_lib/fpga.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/demo/demo_lib/demo_lib/fpga.py b/demo/demo_lib/demo_lib/fpga.py
index c7c5ffd..dc3c22f 100644
--- a/demo/demo_lib/demo_lib/fpga.py
+++ b/demo/demo_lib/demo_lib/fpga.py
@@ -48,6 +48,7 @@ class InferFPGAMQTT(InferFPGA):
     ) -> None:
 
         self._client = mqtt_client
+        self._result_topic = result_topic
         self._client.subscribe(result_topic, qos=0)
         self._client.message_callback_add(result_topic, self.on_result)
 
@@ -65,6 +66,8 @@ class InferFPGAMQTT(InferFPGA):
 
         json_net = json.dumps(net.schema)
 
+        # A clean session loses its subscriptions on every reconnection
+        self._client.subscribe(self._result_topic, qos=0)
         self._client.publish(self._model_topic, json_net, qos=self._qos)
 
         n_splits = max(1, -(-len(x) // self._max_batch_size))
@@ -114,6 +117,7 @@ class LossFPGA(InferFPGA):
     ):
         # attributes
         self._client = mqtt_client
+        self._result_topic = result_topic
         self._model_topic = model_topic
         self._qos = qos
         self._timeout = timeout
@@ -129,6 +133,8 @@ class LossFPGA(InferFPGA):
     def __call__(self, net: Network) -> float:
         self._result_event.clear()
         json_net = json.dumps(net.schema)
+        # A clean session loses its subscriptions on every reconnection
+        self._client.subscribe(self._result_topic, qos=0)
         self._client.publish(self._model_topic, json_net, qos=self._qos)
 
         was_timeout = not self._result_event.wait(timeout=self._timeout)
-- 
2.43.0


From e92a5a3fe339dbe4a6c08506889d05427448d419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 04/22] fix: normalise the ONNX softmax over each row instead
 of the whole batch

---
 inference_engine/itcl_inference_engine/layers/onnx/softmax.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/layers/onnx/softmax.py b/inference_engine/itcl_inference_engine/layers/onnx/softmax.py
index 06a19f5..7ee8957 100644
--- a/inference_engine/itcl_inference_engine/layers/onnx/softmax.py
+++ b/inference_engine/itcl_inference_engine/layers/onnx/softmax.py
@@ -32,4 +32,5 @@ class Softmax(IOperator):
             np.ndarray: Float32 output tensor (Each value should be between 0 and 1)
         """
 
-        return np.exp(input_) / np.sum(np.exp(input_))
+        exp = np.exp(input_)
+        return exp / np.sum(exp, axis=-1, keepdims=True)
-- 
2.43.0


From 4c98d10c033fbe8e73afb0df36d73ab518337965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 05/22] fix: calculate the base rounding in the precision and
 with the zero point of the quantization

---
 .../equalizers/adaround/irounding_policy.py           | 11 +++++++++--
 quantizer/itcl_quantizer/tensor_extractor/tensor.py   |  4 ++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/irounding_policy.py b/quantizer/itcl_quantizer/equalizers/adaround/irounding_policy.py
index 3d05b3d..0a3bd90 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/irounding_policy.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/irounding_policy.py
@@ -20,14 +20,21 @@ class IRoundingPolicy(Protocol):
         ...
 
 
-def get_base_rounding(tensor: np.ndarray, scale: float) -> np.ndarray:
+def get_base_rounding(
+    tensor: np.ndarray, scale: float, zero_point: int = 0
+) -> np.ndarray:
     """Get the Round To Nearest rounding policy of a float tensor
 
+    The scaled tensor is calculated exactly as Quantization.quantize does. With another
+    precision, a value next to an integer is rounded to the wrong side.
+
     Args:
         tensor (np.ndarray): Tensor to get the policy from.
+        scale (float): Scale of the tensor
+        zero_point (int): Zero Point of the tensor
 
     Returns:
         np.ndarray: _description_
     """
-    tensor = tensor / scale
+    tensor = np.array(tensor).astype(np.float64) / scale + zero_point
     return np.where(np.floor(tensor + 0.5) > tensor, 1, 0)
diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 58e7d0f..2852f6d 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -57,7 +57,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         self._fn = fn
 
         self._rounding_policy = get_base_rounding(
-            quant.float_activation(fn, input_s, input_zp), output_s
+            quant.float_activation(fn, input_s, input_zp), output_s, output_zp
         )
         self._create()
 
@@ -390,7 +390,7 @@ class NodeTensorTensor(IRoundingPolicy, NodeTensorBase):
         self.__dict__ = node.__dict__.copy()
         self._fp_tensor = fp_tensor
         self._rounding_policy = self._og_rounding_policy = get_base_rounding(
-            fp_tensor, self.scale
+            fp_tensor, self.scale, self.zero_point
         )
         self._quantized = self.quant.quantize(fp_tensor, self.zero_point, self.scale)
 
-- 
2.43.0


From f14c567d9e84cb4c3db6e9b1fac5f891f4af1245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 06/22] fix: keep the annealed rounding when its loss is zero

---
 quantizer/itcl_quantizer/equalizers/adaround/annealer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/annealer.py b/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
index 23cbbda..d5d71c2 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
@@ -128,7 +128,7 @@ class RoundingAnnealer(Annealer, IRoundOptimizer):
             Tuple[List[np.ndarray], float]: _description_
         """
         neigh, energy = super().anneal()
-        return self._to_minima(neigh, energy or sys.maxsize)
+        return self._to_minima(neigh, sys.maxsize if energy is None else energy)
 
     def energy(self) -> float:
         """Function that calculates the energy or loss
-- 
2.43.0


From 3c7d5c366408cd51277cefeb733951d3d299c872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 07/22] fix: let the optimizers reach the LSTM layer

---
 .../tensor_extractor/keras/layers/keras_lstm.py             | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 156767e..467a1a8 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -517,7 +517,7 @@ class KerasLSTM(AbstractLayer):
             input_data=lstm_states.result,
             out_node=hidden_node,
             operators=[lstm_op],
-            layer=self._layer,
+            layer=self,
         )
 
         if is_debug_mode():
@@ -561,7 +561,9 @@ class KerasLSTM(AbstractLayer):
             ],
         )
 
-        AdaRound(optimizer_factory(), cost_fn, self, results).round(tensors)
+        AdaRound(
+            optimizer_factory(), cost_fn, self, results, float_input=None
+        ).round(tensors)
 
 
 class MinMaxList(list):
-- 
2.43.0


From e42c8453d1f3b6aa1abfcbe68b6d75c34ff0a737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 08/22] fix: rebuild an activation table when its output
 parameters or rounding change

---
 .../tensor_extractor/keras/layers/activations.py      | 11 ++++++++++-
 quantizer/itcl_quantizer/tensor_extractor/tensor.py   |  2 ++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
index d5d3890..d7f9bab 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
@@ -77,7 +77,8 @@ def quantize_activation_node(
         )
 
     # Create and save the LUT (if possible)
-    if activation_name in LUT_FUNCTIONS and not skip_lut:
+    has_lut = activation_name in LUT_FUNCTIONS and not skip_lut
+    if has_lut:
         activation_name += "LUT"
         input_node.with_lut(fn, out_s, out_zp)
 
@@ -89,6 +90,14 @@ def quantize_activation_node(
         .exclude_tensor()
     )
 
+    if has_lut:
+        # On output scale/zero point update: Rebuild the LUT of the input node
+        output_node.on_quant_param_update.append(
+            lambda _: input_node.LUT._update_out_qparams(
+                output_node.scale, output_node.zero_point
+            )
+        )
+
     operator = Operator(
         activation_name, activation_name, [input_node], [output_node], fn
     )
diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 2852f6d..2ea7bcc 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -98,6 +98,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         """
         self._output_s = output_s
         self._output_zp = output_zp
+        self._create()
 
     @property
     def offset(
@@ -155,6 +156,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
     @rounding_policy.setter
     def rounding_policy(self, policy: np.ndarray):
         self._rounding_policy = policy
+        self._create()
 
     def as_json(self) -> LUTJson:
         """Serializes the LUT class as a serializable dictionary k:str, v: Any
-- 
2.43.0


From 92780ed435bd03c251c0b33a6fa674d2eed0c479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:51 +0000
Subject: [PATCH 09/22] fix: return the QUBO rounding as binary integers

---
 quantizer/itcl_quantizer/equalizers/adaround/qubo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/qubo.py b/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
index 1ab2674..b9dd998 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
@@ -241,7 +241,7 @@ class QUBOAnnealer(IRoundOptimizer):
         #Redondeo_Kernel = np.random.choice([0, 1], size=(OutputDimension, InputDimension))
         #Redondeo_Bias = np.random.choice([0, 1], size=(OutputDimension))
         
-        tensors=[Redondeo_Kernel,Redondeo_Bias]
+        tensors=[Redondeo_Kernel.astype(int),Redondeo_Bias.astype(int)]
 
         
         '''
-- 
2.43.0


From 5c03f4a9fb44fb03b3e9a10cb2691ac425ca7af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 10/22] fix: give every description of a network its own tables
 and attributes

---
 quantizer/itcl_quantizer/tensor_extractor/operator.py | 3 ++-
 quantizer/itcl_quantizer/tensor_extractor/tensor.py   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/operator.py b/quantizer/itcl_quantizer/tensor_extractor/operator.py
index c87e660..2e04109 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/operator.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/operator.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from typing import Any, Callable, Generic, TypeVar
 from typing_extensions import Self
 from itcl_quantization.json.specification import Operator as JsonOperator, Attribute
@@ -66,7 +67,7 @@ class Operator(Generic[T, E], ISerializable):
             "description": self._description or self.name,
             "inputs": [t.as_json() for t in self.inputs],
             "outputs": [t.as_json() for t in self.outputs],
-            "attributes": self.attributes,
+            "attributes": deepcopy(self.attributes),
         }
 
     def __getitem__(self, item: str) -> Any:
diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 2ea7bcc..7b0066c 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -167,7 +167,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         reduced = self._reduced.serialize() if self._reduced is not None else None
 
         return {
-            "LUT": self._LUT,
+            "LUT": list(self._LUT),
             "reduced_LUT": reduced,
             "offset": self._offset,
         }
-- 
2.43.0


From c2d803c5cfa38c8906659c21b0f4f72f4b426be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 11/22] fix: build the QUBO problem with the precision of the
 quantization

---
 quantizer/itcl_quantizer/equalizers/adaround/qubo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/qubo.py b/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
index b9dd998..7d99bad 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
@@ -64,6 +64,9 @@ class QUBOAnnealer(IRoundOptimizer):
   
         dense_layer: KerasDense = self._layer  # type: ignore
         kernel, bias = dense_layer.get_weights()
+        # Same precision as the quantization, the integer parts have to match
+        kernel = np.array(kernel, dtype=np.float64)
+        bias = np.array(bias, dtype=np.float64)
         input_f = self._input_data
         input_f = np.array(input_f)
         output_f = self._results.input_data
-- 
2.43.0


From c9b1a78a0080ed2df733583363fb056d6cdeca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 12/22] fix: fit the QUBO rounding to the output before the
 activation

---
 quantizer/itcl_quantizer/equalizers/adaround/qubo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/qubo.py b/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
index 7d99bad..47acea7 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
@@ -69,9 +69,6 @@ class QUBOAnnealer(IRoundOptimizer):
         bias = np.array(bias, dtype=np.float64)
         input_f = self._input_data
         input_f = np.array(input_f)
-        output_f = self._results.input_data
-        output_f = np.array(output_f)
-        # output_f = TODO
          
         kernel_roundp = tensors[0]  # todo: update
         bias_roundp = tensors[1]  # todo: update
@@ -80,6 +77,9 @@ class QUBOAnnealer(IRoundOptimizer):
 
         q_dense_op = self._results.operators[0]
     
+        # The rounding is fit to the output of the dense operator, before its activation
+        output_f = np.array(q_dense_op.layer(self._input_data))
+
         q_kernel = q_dense_op.inputs[1]
         kernel_s, kernel_zp = q_kernel.scale, q_kernel.zero_point
         q_bias = q_dense_op.inputs[2]
-- 
2.43.0


From 1af2e4ac460ab49b4c8ebda765282bc7bb80917f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 13/22] fix: hand the data after a fused ReLU to the next layer

---
 .../tensor_extractor/keras/layers/activations.py               | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
index d7f9bab..c3eeebd 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
@@ -55,6 +55,9 @@ def quantize_activation_node(
     activation_name = activation_name.upper()
 
     if activation_name in SKIP_FUNCTIONS:
+        # The ReLUs are fused into the previous operator: its output is the activated data
+        if activation_name in ("RELU", "RELU6"):
+            return None, np.array(fn(input_data))
         return None, input_data
 
     # Override the function if possible
-- 
2.43.0


From f39b7e043c19e65b8066f3966abdbdb3528e2bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 14/22] fix: replace the model file only when the new one is
 complete

---
 .../tensor_extractor/keras/keras_builder.py   | 34 +++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/keras_builder.py b/quantizer/itcl_quantizer/tensor_extractor/keras/keras_builder.py
index 3f442c1..3c63ffa 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/keras_builder.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/keras_builder.py
@@ -1,5 +1,8 @@
+import contextlib
 import json
 import logging
+import os
+import uuid
 from typing import Callable, cast
 
 import numpy as np
@@ -99,12 +102,39 @@ def build(
         if adanet_cfg := cfg.ada_round_net:
             AdaroundNet(network, loss_fn, adanet_cfg.build).round()
 
-    with open(output_path, "w", encoding="utf-8") as f:
-        json.dump(network.as_json(), f)
+    _write_json(network.as_json(), output_path)
 
     return network
 
 
+def _write_json(obj, output_path: str) -> None:
+    """Write a JSON file, replacing the previous one only when the new one is complete
+
+    Args:
+      obj: The JSON serializable object
+      output_path (str): The path of the file
+    """
+    # The file a link points to is replaced, not the link
+    path = os.path.realpath(output_path)
+    if os.path.exists(path) and not os.path.isfile(path):
+        # Pipes and devices can not be replaced
+        with open(path, "w", encoding="utf-8") as f:
+            json.dump(obj, f)
+        return
+
+    tmp_path = f"{path}.{uuid.uuid4().hex}.tmp"
+    try:
+        with open(tmp_path, "w", encoding="utf-8") as f:
+            json.dump(obj, f)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(tmp_path, path)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.remove(tmp_path)
+        raise
+
+
 def get_layer_quantizer(layer, cfg: QuantizerCfg):
     name: str = layer.name
 
-- 
2.43.0


From 7012b72f17482a3d782ccc20a57dffce7b27b7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:04 +0000
Subject: [PATCH 15/22] fix: reject a remote result whose shape is not the one
 it states

---
 demo/demo_lib/demo_lib/fpga.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/demo/demo_lib/demo_lib/fpga.py b/demo/demo_lib/demo_lib/fpga.py
index dc3c22f..f6bb14e 100644
--- a/demo/demo_lib/demo_lib/fpga.py
+++ b/demo/demo_lib/demo_lib/fpga.py
@@ -100,6 +100,8 @@ class InferFPGAMQTT(InferFPGA):
             logger.warning("Ignoring a result that was not requested, id: %s", res.id)
             return
         result = res.as_numpy()
+        if list(result.shape) != list(res.shape):  # reshape takes -1 as a wildcard
+            raise ValueError(f"Invalid shape, {res.shape}")
         if not np.issubdtype(result.dtype, np.number) or len(result) != request.n_rows:
             raise ValueError(f"Invalid result, {result.dtype}{result.shape}")
         request.result = result
-- 
2.43.0


From f755bb49d19338d194a949413d63dbf0819cdee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:32 +0000
Subject: [PATCH 16/22] fix: replace a converted model only when the new one is
 complete

---
 core/itcl_quantization/json/files.py          | 32 +++++++++++++++++++
 model_converters/keras2json/_main.py          |  8 ++---
 .../tflite2json/itcl_tflite2json/__init__.py  |  5 ++-
 .../itcl_tflite2json/_tflite2json.py          |  5 ++-
 4 files changed, 38 insertions(+), 12 deletions(-)
 create mode 100644 core/itcl_quantization/json/files.py

diff --git a/core/itcl_quantization/json/files.py b/core/itcl_quantization/json/files.py
new file mode 100644
index 0000000..9f33ab7
--- /dev/null
+++ b/core/itcl_quantization/json/files.py
@@ -0,0 +1,32 @@
+import contextlib
+import json
+import os
+import uuid
+
+
+def write_json(obj, output_path: str) -> None:
+    """Write a JSON file, replacing the previous one only when the new one is complete
+
+    Args:
+      obj: The JSON serializable object
+      output_path (str): The path of the file
+    """
+    # The file a link points to is replaced, not the link
+    path = os.path.realpath(output_path)
+    if os.path.exists(path) and not os.path.isfile(path):
+        # Pipes and devices can not be replaced
+        with open(path, "w", encoding="utf-8") as f:
+            json.dump(obj, f)
+        return
+
+    tmp_path = f"{path}.{uuid.uuid4().hex}.tmp"
+    try:
+        with open(tmp_path, "w", encoding="utf-8") as f:
+            json.dump(obj, f)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(tmp_path, path)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.remove(tmp_path)
+        raise
diff --git a/model_converters/keras2json/_main.py b/model_converters/keras2json/_main.py
index 2e15110..2e83534 100644
--- a/model_converters/keras2json/_main.py
+++ b/model_converters/keras2json/_main.py
@@ -1,4 +1,4 @@
-import json
+from itcl_quantization.json.files import write_json
 from tensorflow import keras
 from keras2json import convert
 from pathlib import Path
@@ -14,11 +14,7 @@ def _main():
 
         network = convert(model)
 
-        with open(out_path, "w") as f:
-            json.dump(
-                network,
-                f,
-            )
+        write_json(network, out_path)
 
         print(f"Generated model at {out_path}")
 
diff --git a/model_converters/tflite2json/itcl_tflite2json/__init__.py b/model_converters/tflite2json/itcl_tflite2json/__init__.py
index 8df13c6..1818279 100644
--- a/model_converters/tflite2json/itcl_tflite2json/__init__.py
+++ b/model_converters/tflite2json/itcl_tflite2json/__init__.py
@@ -1,9 +1,9 @@
-import json
 import os
 import tensorflow.lite as tfl
 from typing import Dict
 from itcl_tflite2json.operators.BaseOperator import BaseOperator
 from itcl_tflite2json.operators.FullyConnected import FullyConnectedOperator
+from itcl_quantization.json.files import write_json
 from itcl_quantization.json.specification import (
     JsonNetwork,
     Operator as OperatorJson,
@@ -59,8 +59,7 @@ def convert(input_model: str, output_model: str):
             "output": outputs_operators,
         }
         print("Writing to:", output_model)
-        with open(output_model, "w") as f:
-            json.dump(network, f)
+        write_json(network, output_model)
 
 
 
diff --git a/model_converters/tflite2json/itcl_tflite2json/_tflite2json.py b/model_converters/tflite2json/itcl_tflite2json/_tflite2json.py
index 33b163c..f2eb427 100644
--- a/model_converters/tflite2json/itcl_tflite2json/_tflite2json.py
+++ b/model_converters/tflite2json/itcl_tflite2json/_tflite2json.py
@@ -1,9 +1,9 @@
-import json
 import os
 import tensorflow.lite as tfl
 from typing import Dict
 from itcl_tflite2json.operators.BaseOperator import BaseOperator
 from itcl_tflite2json.operators.FullyConnected import FullyConnectedOperator
+from itcl_quantization.json.files import write_json
 from itcl_quantization.json.specification import (
     JsonNetwork,
     Operator as OperatorJson,
@@ -87,8 +87,7 @@ def main():
             }
 
             print("Writing to:", out)
-            with open(out, "w") as f:
-                json.dump(network, f)
+            write_json(network, out)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 26e885a34b32e9eb66ecbe607f332bf9566dbe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:32 +0000
Subject: [PATCH 17/22] fix: convert only the ONNX models and keep the previous
 result when a conversion fails

---
 model_converters/onnx2json/2json.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/model_converters/onnx2json/2json.py b/model_converters/onnx2json/2json.py
index 4dacdcd..b6abf2e 100644
--- a/model_converters/onnx2json/2json.py
+++ b/model_converters/onnx2json/2json.py
@@ -1,23 +1,22 @@
-import json
 import os
 from typing import List
 import onnx
 from helpers.graph import OnnxGraph
 from helpers.nodeBuilders.buildBaseNode import layer_info_to_tensor
+from itcl_quantization.json.files import write_json
 from itcl_quantization.json.specification import JsonNetwork, Node
 
 
 def main():
-    model = onnx.load("../../models/mnist/uint8/mnist_tanh_uint8.onnx")
-
-
     for model in os.listdir("../../models/mnist/uint8"):
+        # The converted models are in the same folder
+        if not model.endswith(".onnx"):
+            continue
+
         input = os.path.join("../../models/mnist/uint8", model)
         output = input.replace("onnx", "json")
 
-        with open(output, "w") as f:
-            model = onnx.load(input)
-            json.dump(model2json(model), f)
+        write_json(model2json(onnx.load(input)), output)
 
 
 
-- 
2.43.0


From ed128fe03196afd3ba38586925467273a5a05411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:32 +0000
Subject: [PATCH 18/22] fix: give a Keras layer without bias one zero for each
 unit

---
 model_converters/keras2json/keras2json/layers/dense.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/keras2json/keras2json/layers/dense.py b/model_converters/keras2json/keras2json/layers/dense.py
index 67f8625..4e00b88 100644
--- a/model_converters/keras2json/keras2json/layers/dense.py
+++ b/model_converters/keras2json/keras2json/layers/dense.py
@@ -19,7 +19,7 @@ class Dense(ILayer):
         if len(weights) > 1:
             self._bias: np.ndarray = np.array(weights[1])
         else:
-            self._bias = np.zeros(len(self._kernel))
+            self._bias = np.zeros(self._kernel.shape[-1])
 
     def _dense(self) -> Operator :
 
-- 
2.43.0


From fb7273bf00391249ac5a3fe833b1e47cdd930c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:32 +0000
Subject: [PATCH 19/22] fix: find the first tensor of an ONNX graph

---
 .../onnx2json/helpers/nodeBuilders/buildBaseNode.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py b/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
index 6885aeb..8d604c1 100644
--- a/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
+++ b/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
@@ -81,7 +81,7 @@ def build_base_node(model, tensor_id) -> Node:
     id2idx = {init.name: i for i, init in enumerate(model.graph.value_info)}
     idx = id2idx.get(tensor_id)
     
-    if idx: # The tensor id is expected to be in the model
+    if idx is not None: # The tensor id is expected to be in the model
         layer_info = model.graph.value_info[idx]
 
     # Some tensors, like the input and output tensors, are not in the model body
-- 
2.43.0


From eab6ba1b5b19f8e1fb3c8312692e51f29fe7de04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:32 +0000
Subject: [PATCH 20/22] fix: describe the outputs of an ONNX model, not its
 inputs again

---
 model_converters/onnx2json/2json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/onnx2json/2json.py b/model_converters/onnx2json/2json.py
index b6abf2e..0d14f82 100644
--- a/model_converters/onnx2json/2json.py
+++ b/model_converters/onnx2json/2json.py
@@ -28,7 +28,7 @@ def model2json(model) -> JsonNetwork:
         "engine": "ONNX",
         "graph": graph.build_graph(),
         "input": [{"zero_point": None, "scale": None, "tensor":  layer_info_to_tensor(_in)} for _in in model.graph.input],
-        "output": [{"zero_point": None, "scale": None, "tensor":  layer_info_to_tensor(_out)} for _out in model.graph.input],
+        "output": [{"zero_point": None, "scale": None, "tensor":  layer_info_to_tensor(_out)} for _out in model.graph.output],
     }
 
 
-- 
2.43.0


From 0c1eaf68ed2692964bf1766e22a52f4fc136176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:26 +0000
Subject: [PATCH 21/22] fix: let the FPGA demo end when its main thread fails

The thread of the MQTT client kept the process alive for ever after an error.
---
 demo/x3_fpga/quantize_x3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demo/x3_fpga/quantize_x3.py b/demo/x3_fpga/quantize_x3.py
index 8bfedac..5270458 100644
--- a/demo/x3_fpga/quantize_x3.py
+++ b/demo/x3_fpga/quantize_x3.py
@@ -74,7 +74,7 @@ def main(
     logging.getLogger("itcl_quantizer").setLevel(logging.WARNING)
 
     client = create_client("quantizer", "admin", "admin", "localhost", 1883, 60)
-    mqtt_thread = Thread(target=client.loop_forever)
+    mqtt_thread = Thread(target=client.loop_forever, daemon=True)
     mqtt_thread.start()
     infer_fpga_client = InferFPGAMQTT(
         client,
-- 
2.43.0


From c5ad4454809520728f53b67592afba44a1f09db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:26 +0000
Subject: [PATCH 22/22] fix: flush the reported loss of the FPGA demo

The program leaves with os._exit, which loses it when the output is a pipe or a file.
---
 demo/x3_fpga/quantize_x3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demo/x3_fpga/quantize_x3.py b/demo/x3_fpga/quantize_x3.py
index 5270458..0f5cdf6 100644
--- a/demo/x3_fpga/quantize_x3.py
+++ b/demo/x3_fpga/quantize_x3.py
@@ -141,7 +141,8 @@ def main(
     )
     seq_net = net.as_sequential_network()
 
-    print(f"Quant Loss: {loss_fn(seq_net)}")
+    # os._exit does not flush the output.
+    print(f"Quant Loss: {loss_fn(seq_net)}", flush=True)
 
     os._exit(0)
 
-- 
2.43.0

