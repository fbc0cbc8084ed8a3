From 7dba853d93c40a6ac2f72f3ffed702ca1dc13d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 01/30] fix: honour a stop request when max_num_steps is set

Trainer._run_post_step() checked the stop flag only if max_num_steps was None,
so request_stop() was ignored until the last step of the training.
---
 src/fairseq2/trainer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 42459c0..baa8840 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -682,7 +682,8 @@ class Trainer(Task):
         if self._max_num_steps is not None:
             if self._step_nr >= self._max_num_steps:
                 return _TrainerState.END_OF_TRAINING
-        elif self._stop_requested:
+
+        if self._stop_requested:
             return _TrainerState.STOP_REQUESTED
 
         self._maybe_save_checkpoint(blocking=False)
-- 
2.43.0


From e106b8b18ee4e4239c17c40084943061de86fada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 02/30] fix: complete a pending checkpoint save when training
 stops

If the checkpoint of the last step was already being saved asynchronously when
the end of data was reached, Trainer._stop() returned without committing it and
the checkpoint was left behind in its temporary directory.
---
 src/fairseq2/trainer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index baa8840..72acca6 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -717,6 +717,10 @@ class Trainer(Task):
         else:
             self._maybe_save_checkpoint(blocking=True)
 
+            self._maybe_complete_checkpoint_save_operation()
+
+            self._maybe_complete_hg_export_operation()
+
         return _TrainerState.STOPPED
 
     def _early_stop(self) -> _TrainerState:
-- 
2.43.0


From 89b81f5060e220daf7474815eebefb876e85e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 03/30] fix: do not count an overflowed step when a stop is
 requested

The optimizer step was skipped, but the final checkpoint was saved with the
number of the step that was never taken.
---
 src/fairseq2/trainer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 72acca6..f6bb16c 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -667,15 +667,15 @@ class Trainer(Task):
             log.info("Overflow detected at step {}, ignoring gradient, decreasing loss scale from {:g} to {:g}.", self._step_nr, result.old_scale, result.new_scale)  # fmt: skip
 
     def _repeat_step(self, progress_task: ProgressTask) -> _TrainerState:
-        if self._stop_requested:
-            return _TrainerState.STOP_REQUESTED
-
         log.debug("Repeating step {}.", self._step_nr)
 
         self._step_nr -= 1
 
         progress_task.step(-1)
 
+        if self._stop_requested:
+            return _TrainerState.STOP_REQUESTED
+
         return _TrainerState.DATA_LOAD
 
     def _run_post_step(self) -> _TrainerState:
-- 
2.43.0


From 31acdb33e25c2d914af9454758acc59ad2f564ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:30 +0000
Subject: [PATCH 04/30] fix: reject a rank that equals the size of the gang in
 create_gang()

The check (and its message) requires ranks to be less than the gang size, but
let `rank == gang_size` pass.
---
 src/fairseq2/gang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/gang.py b/src/fairseq2/gang.py
index feda04b..3fbd8d4 100644
--- a/src/fairseq2/gang.py
+++ b/src/fairseq2/gang.py
@@ -638,7 +638,7 @@ def _check_ranks(ranks: Sequence[int], gang_size: int) -> None:
         raise ValueError("Ranks in `ranks` must be unique.")
 
     for idx, rank in enumerate(ranks):
-        if rank < 0 or rank > gang_size:
+        if rank < 0 or rank >= gang_size:
             raise ValueError(
                 f"Rank at index {idx} in `ranks` must be greater than or equal to 0 and less than the size of the gang ({gang_size}), but is {rank} instead."
             )
-- 
2.43.0


From 7381d90a0ca4c737dd267fcf75ce71bd1f48c9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:30 +0000
Subject: [PATCH 05/30] fix: check that the coordinator is rank 0 in all
 parallel gangs

`and` binds tighter than `or`, so a coordinator with a non-zero rank in only one
of the tensor and pipeline parallel gangs was accepted.
---
 src/fairseq2/gang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/gang.py b/src/fairseq2/gang.py
index 3fbd8d4..798c5e1 100644
--- a/src/fairseq2/gang.py
+++ b/src/fairseq2/gang.py
@@ -689,7 +689,7 @@ class Gangs(Closable):
 
     def __post_init__(self) -> None:
         if self.root.rank == 0:
-            if self.dp.rank != 0 or self.tp.rank != 0 and self.pp.rank != 0:
+            if self.dp.rank != 0 or self.tp.rank != 0 or self.pp.rank != 0:
                 raise ValueError(
                     "Coordinator process of the root gang (i.e. `root.rank == 0`) must be rank 0 in all parallel gangs."
                 )
-- 
2.43.0


From dc16d1ad336f409eee6dbab8852b61ed4212170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:45 +0000
Subject: [PATCH 06/30] fix: do not count source elements as target elements in
 Seq2SeqBatch

Without a target mask num_target_elements was set to num_elements, which includes
the elements of the source sequences.
---
 src/fairseq2/datasets/batch.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/fairseq2/datasets/batch.py b/src/fairseq2/datasets/batch.py
index 28618fe..a69e95b 100644
--- a/src/fairseq2/datasets/batch.py
+++ b/src/fairseq2/datasets/batch.py
@@ -505,9 +505,7 @@ class Seq2SeqBatch(SupportsDeviceTransfer):
 
         self._target_mask = target_mask
 
-        if target_mask is None:
-            self._num_target_elements = self._num_elements
-        else:
+        if target_mask is not None:
             self._num_target_elements = int(target_mask.sum())
 
         self._example = example
-- 
2.43.0


From ce8d972adcd67c6d2ecde0147d94a69afd7d9d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 07/30] fix: skip pre-validation if the trainer has no
 validator

Trainer._pre_validate() tested the bound method instead of the validator, so
validate_at_start without a validator failed with an InternalError.
---
 src/fairseq2/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index f6bb16c..6d2079d 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -466,7 +466,7 @@ class Trainer(Task):
                         self._state = self._stop()
 
     def _pre_validate(self) -> _TrainerState:
-        if self._validate is not None:
+        if self._validator is not NOOP_VALIDATOR:
             self._validate()
 
         return _TrainerState.DATA_LOAD
-- 
2.43.0


From 455a6d33284ec2e02713ef490cd21fb3d1b8aa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 08/30] fix: resume training in the data epoch it was
 interrupted in

A checkpoint taken in the middle of the last data epoch was treated as the end of
the training, and one taken at the end of an epoch repeated that epoch number
although its data reader was already reset for the next one.
---
 src/fairseq2/trainer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 6d2079d..2692e27 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -410,7 +410,7 @@ class Trainer(Task):
                 return _TrainerState.STOPPED
 
         if self._max_num_data_epochs is not None:
-            if self._data_epoch_nr >= self._max_num_data_epochs:
+            if self._data_epoch_nr > self._max_num_data_epochs:
                 return _TrainerState.STOPPED
 
         return _TrainerState.DATA_LOAD
@@ -1172,9 +1172,19 @@ class _TrainerProxy(Stateful):
 
         base_wall_time = self._trainer._base_wall_time + wall_time
 
+        data_epoch_nr = self._trainer._data_epoch_nr
+
+        # At the end of a data epoch the data reader is already reset. Training
+        # has to resume from the next epoch.
+        if self._trainer._state in (
+            _TrainerState.END_OF_DATA_EPOCH,
+            _TrainerState.END_OF_DATA,
+        ):
+            data_epoch_nr += 1
+
         state_dict: dict[str, object] = {
             "_step_nr": self._trainer._step_nr,
-            "_data_epoch_nr": self._trainer._data_epoch_nr,
+            "_data_epoch_nr": data_epoch_nr,
             "_lr_scheduler": self._trainer._lr_scheduler.state_dict(),
             "_fp16_loss_scaler": self._trainer._fp16_loss_scaler.state_dict(),
             "_rng_bag": self._trainer._rng_bag.state_dict(),
-- 
2.43.0


From 27f1593959bf6895899a513b474ae6c5abdf5d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:39 +0000
Subject: [PATCH 09/30] fix: ignore directories that are not checkpoints when
 listing step numbers

---
 src/fairseq2/checkpoint/manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fairseq2/checkpoint/manager.py b/src/fairseq2/checkpoint/manager.py
index d54491e..2012b02 100644
--- a/src/fairseq2/checkpoint/manager.py
+++ b/src/fairseq2/checkpoint/manager.py
@@ -726,6 +726,10 @@ class StandardCheckpointManager(CheckpointManager):
                 except ValueError:
                     continue
 
+                # `int()` also accepts names such as 'step_01' or 'step_1_0'.
+                if step_dir.name != f"step_{step_nr}":
+                    continue
+
                 if exclude_model_only:
                     trainer_dir = step_dir.joinpath("trainer")
 
-- 
2.43.0


From 102bd08fb5758bfd5332e35295ad25fffcb1da97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 10/30] fix: report overflows of very small loss scales

An absolute tolerance of 1e-5 hides every change of a loss scale below 2e-5: an
overflow at such a scale is reported as a normal step and the minimum scale is
not enforced.
---
 src/fairseq2/optim/fp16_loss_scaler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/optim/fp16_loss_scaler.py b/src/fairseq2/optim/fp16_loss_scaler.py
index 50cce15..5f7be66 100644
--- a/src/fairseq2/optim/fp16_loss_scaler.py
+++ b/src/fairseq2/optim/fp16_loss_scaler.py
@@ -215,7 +215,7 @@ class StandardFloat16LossScaler(Float16LossScaler):
 
         new_scale = self._grad_scaler.get_scale()
 
-        if math.isclose(new_scale, old_scale, rel_tol=1.3e-6, abs_tol=1e-5):
+        if math.isclose(new_scale, old_scale, rel_tol=1.3e-6):
             return Float16LossScaleResult(old_scale, new_scale)
 
         if new_scale > old_scale:
-- 
2.43.0


From ad24e73506b8cc89083918bbc04a8ccc02a344df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 11/30] fix: start growing cosine annealing cycles at their
 exact step

---
 src/fairseq2/optim/lr_schedulers/cosine_annealing.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/optim/lr_schedulers/cosine_annealing.py b/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
index b70444e..8a15630 100644
--- a/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
+++ b/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
@@ -120,7 +120,13 @@ class CosineAnnealingLR(AbstractLRScheduler):
             mul = self.cycle_mul
 
             # Solve the equation \sum_{i=0}^{n} len(cycle_i) + x = step for n.
-            cycle_nr = int(math.log(1 - curr_step / self.cycle_len * (1 - mul), mul))
+            x = 1 - curr_step / self.cycle_len * (1 - mul)
+
+            cycle_nr = int(math.log(x, mul))
+
+            # `log()` can fall short of the exact value at the start of a cycle.
+            if mul > 1 and mul ** (cycle_nr + 1) <= x:
+                cycle_nr += 1
 
             cycle_len = int(mul**cycle_nr * self.cycle_len)
 
-- 
2.43.0


From dd4c768e6adc691a156b5b9db1c6e11f5e150c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:36 +0000
Subject: [PATCH 12/30] fix: size the value cache of attention states by the
 value head dimension

---
 src/fairseq2/models/transformer/multihead_attention.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fairseq2/models/transformer/multihead_attention.py b/src/fairseq2/models/transformer/multihead_attention.py
index 07b6f66..a998883 100644
--- a/src/fairseq2/models/transformer/multihead_attention.py
+++ b/src/fairseq2/models/transformer/multihead_attention.py
@@ -680,7 +680,7 @@ class FullAttentionState(AttentionState):
         init_capacity = 0 if capacity_increment else max_seq_len
 
         self._k = k.new_empty((batch_size, init_capacity, num_heads, head_dim))
-        self._v = v.new_empty((batch_size, init_capacity, num_heads, head_dim))
+        self._v = v.new_empty((batch_size, init_capacity, num_heads, v.size(3)))
 
         self._seq_len = 0
 
@@ -722,7 +722,7 @@ class FullAttentionState(AttentionState):
         capacity = ((new_seq_len + inc - 1) // inc) * inc
 
         k = self._k.new_empty((batch_size, capacity, num_heads, head_dim))
-        v = self._v.new_empty((batch_size, capacity, num_heads, head_dim))
+        v = self._v.new_empty((batch_size, capacity, num_heads, self._v.size(3)))
 
         if self._seq_len > 0:
             k[:, : self._seq_len] = self._k[:, : self._seq_len]
@@ -809,7 +809,7 @@ class LocalAttentionState(AttentionState):
         init_capacity = 0 if capacity_increment else self._attn_window_len
 
         self._k = k.new_empty((batch_size, init_capacity, num_heads, head_dim))
-        self._v = v.new_empty((batch_size, init_capacity, num_heads, head_dim))
+        self._v = v.new_empty((batch_size, init_capacity, num_heads, v.size(3)))
 
         self._seq_len = 0
 
@@ -866,7 +866,7 @@ class LocalAttentionState(AttentionState):
         capacity = min(((new_seq_len + inc - 1) // inc) * inc, self._attn_window_len)
 
         k = self._k.new_empty((batch_size, capacity, num_heads, head_dim))
-        v = self._v.new_empty((batch_size, capacity, num_heads, head_dim))
+        v = self._v.new_empty((batch_size, capacity, num_heads, self._v.size(3)))
 
         if self._seq_len > 0:
             k[:, : self._seq_len] = self._k[:, : self._seq_len]
-- 
2.43.0


From eb315722e0a471ff6ed1f1fa62ec38996d234a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:19 +0000
Subject: [PATCH 13/30] fix: keep the most recent steps when several are
 appended to a partial attention window

---
 src/fairseq2/models/transformer/multihead_attention.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/transformer/multihead_attention.py b/src/fairseq2/models/transformer/multihead_attention.py
index a998883..5161c3a 100644
--- a/src/fairseq2/models/transformer/multihead_attention.py
+++ b/src/fairseq2/models/transformer/multihead_attention.py
@@ -836,8 +836,13 @@ class LocalAttentionState(AttentionState):
             if copy_len == self._attn_window_len:
                 pos = 0
             else:
-                self._k = torch.roll(self._k, shifts=-copy_len, dims=1)
-                self._v = torch.roll(self._v, shifts=-copy_len, dims=1)
+                # The window might not be full yet if more than one step is appended.
+                cache_len = min(self._seq_len, self._attn_window_len)
+
+                shift = cache_len + copy_len - self._attn_window_len
+
+                self._k = torch.roll(self._k, shifts=-shift, dims=1)
+                self._v = torch.roll(self._v, shifts=-shift, dims=1)
 
                 pos = self._attn_window_len - copy_len
         else:
-- 
2.43.0


From 23f513c3d8aa6b884be393462dd64b6aacf36c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 14/30] fix: keep source and target lengths of a split packed
 Seq2SeqBatch in step

If the last target sequence has a single element, its length is removed, but the
length of its source sequence was kept and the batch could not be constructed.
---
 src/fairseq2/datasets/batch.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/datasets/batch.py b/src/fairseq2/datasets/batch.py
index a69e95b..881d558 100644
--- a/src/fairseq2/datasets/batch.py
+++ b/src/fairseq2/datasets/batch.py
@@ -512,6 +512,8 @@ class Seq2SeqBatch(SupportsDeviceTransfer):
 
     def as_auto_regressive(self) -> tuple[Seq2SeqBatch, SequenceBatch]:
         """Trims the batch to train an auto-regressive model."""
+        source_seq_lens = self._source_seq_lens
+
         if self._packed:
             seqs = self._target_seqs[:-1]
 
@@ -524,6 +526,9 @@ class Seq2SeqBatch(SupportsDeviceTransfer):
                     )
 
                 del seq_lens[-1]
+
+                # The source of a trimmed target sequence becomes padding.
+                source_seq_lens = source_seq_lens[:-1]
             else:
                 seq_lens[-1] -= 1
         else:
@@ -541,7 +546,7 @@ class Seq2SeqBatch(SupportsDeviceTransfer):
 
         batch = Seq2SeqBatch(
             self._source_seqs,
-            self._source_seq_lens,
+            source_seq_lens,
             seqs,
             seq_lens,
             packed=self._packed,
-- 
2.43.0


From 10400b28d2c74aafbe3f0544a097cb68dbc22ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 15/30] fix: report cyclic base assets as an asset card error

Retrieving an asset whose base assets form a cycle recursed until RecursionError.
---
 src/fairseq2/assets/store.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/assets/store.py b/src/fairseq2/assets/store.py
index d861107..b65ec67 100644
--- a/src/fairseq2/assets/store.py
+++ b/src/fairseq2/assets/store.py
@@ -113,10 +113,10 @@ class StandardAssetStore(AssetStore):
         if not name:
             return None
 
-        return self._do_retrieve_card(name, name, envs)
+        return self._do_retrieve_card(name, name, envs, {name})
 
     def _do_retrieve_card(
-        self, name: str, leaf_name: str, envs: list[str]
+        self, name: str, leaf_name: str, envs: list[str], visited: Set[str]
     ) -> AssetCard | None:
         metadata = self._maybe_get_metadata(f"{name}@")
         if metadata is None:
@@ -139,7 +139,14 @@ class StandardAssetStore(AssetStore):
         if not isinstance(base_name, str):
             base_card = None
         else:
-            base_card = self._do_retrieve_card(base_name, leaf_name, envs)
+            if base_name in visited:
+                msg = f"Base assets of the {leaf_name} asset card form a cycle that includes {base_name}."
+
+                raise AssetCardError(leaf_name, msg)
+
+            base_card = self._do_retrieve_card(
+                base_name, leaf_name, envs, visited | {base_name}
+            )
 
         return AssetCard(name, metadata, base_card)
 
-- 
2.43.0


From e558c170ae3fa96fafff123b4552e65d2d8093aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 16/30] fix: resolve relative pathnames of inherited asset card
 fields against their own card

A relative pathname in a base card was resolved against the directory of the
derived card.
---
 src/fairseq2/assets/card.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/assets/card.py b/src/fairseq2/assets/card.py
index 3bf6c92..bfbb751 100644
--- a/src/fairseq2/assets/card.py
+++ b/src/fairseq2/assets/card.py
@@ -49,7 +49,7 @@ class AssetCard:
             except KeyError:
                 pass
             else:
-                return AssetCardField(name, self, value)
+                return AssetCardField(name, self, value, owner=card)
 
             card = card.base
 
@@ -84,10 +84,22 @@ class AssetCard:
 
 @final
 class AssetCardField:
-    def __init__(self, name: str, card: AssetCard, value: object) -> None:
+    def __init__(
+        self,
+        name: str,
+        card: AssetCard,
+        value: object,
+        *,
+        owner: AssetCard | None = None,
+    ) -> None:
+        """
+        :param owner: The card that defines the field; ``card`` or one of its
+            base cards. If ``None``, defaults to ``card``.
+        """
         self._name = name
         self._card = card
         self._value = value
+        self._owner = card if owner is None else owner
 
     @property
     def value(self) -> object:
@@ -116,7 +128,7 @@ class AssetCardField:
             raise AssetCardError(self._card.name, msg) from None
 
         if not path.is_absolute():
-            base_path = self._card.metadata.get("__base_path__")
+            base_path = self._owner.metadata.get("__base_path__")
             if not isinstance(base_path, Path):
                 msg = f"{self._name} field of the {self._card.name} asset card is a relative pathname and cannot be converted to a URI."
 
-- 
2.43.0


From 661adcadfbed2acd89f99dc4a0990554767609e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 17/30] fix: keep the sanitized base name and the entries of
 in-memory asset metadata

The sanitized base name was not stored, so a base name with surrounding spaces was
not found; the name was removed from the caller's entries, so that they could not
be loaded twice.
---
 src/fairseq2/assets/metadata_provider.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/assets/metadata_provider.py b/src/fairseq2/assets/metadata_provider.py
index c4e46c5..c1431e8 100644
--- a/src/fairseq2/assets/metadata_provider.py
+++ b/src/fairseq2/assets/metadata_provider.py
@@ -241,7 +241,10 @@ def load_in_memory_asset_metadata(
 ) -> AssetMetadataProvider:
     metadata = {}
 
-    for idx, asset_metadata in enumerate(entries):
+    for idx, entry in enumerate(entries):
+        # Do not modify the entry of the caller.
+        asset_metadata = dict(entry)
+
         name = asset_metadata.pop("name", None)
         if not name:
             msg = f"Asset at index {idx} in `metadata` must have a name."
@@ -277,6 +280,8 @@ def load_in_memory_asset_metadata(
 
                 raise AssetMetadataError(source, msg)
 
+            asset_metadata["base"] = base_name
+
         metadata[name] = asset_metadata
 
     return CachedAssetMetadataProvider(source, metadata)
-- 
2.43.0


From c23015eb9eb5a73a3a9497c1b2ee1fe2cefde9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 18/30] fix: apply the attention window when keys outnumber the
 queries that fit in it

---
 src/fairseq2/models/transformer/attention_bias.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index 7150de0..7a78733 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -76,7 +76,7 @@ class CausalAttentionBias(AttentionBias):
         self, q_len: int, k_len: int, device: Device, dtype: DataType
     ) -> Tensor:
         if self.attn_window_len is None:
-            attn_window_len = q_len
+            attn_window_len = k_len
         else:
             attn_window_len = self.attn_window_len
 
@@ -190,7 +190,7 @@ class ALiBiAttentionBias(AttentionBias):
             causal_bias = _create_causal_bias_tensor(
                 q_len,
                 k_len,
-                q_len,
+                k_len,
                 from_bottom_right=True,
                 device=device,
                 dtype=dtype,
@@ -224,7 +224,7 @@ def _create_causal_bias_tensor(
 
     bias.tril_(diagonal=d)
 
-    if attn_window_len < q_len:
+    if attn_window_len < k_len:
         bias.triu_(diagonal=d - attn_window_len + 1)
 
     bias.log_()
-- 
2.43.0


From 031de48171f78f7e2aed7768923a82e7850abff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 19/30] fix: mask keys out of the chunk of a query with minus
 infinity in ChunkedAttentionBias

---
 .../models/transformer/attention_bias.py      | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index 7a78733..febcc02 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -121,23 +121,25 @@ class ChunkedAttentionBias(AttentionBias):
     def create_bias_tensor(
         self, q_len: int, k_len: int, device: Device, dtype: DataType
     ) -> Tensor:
-        if q_len != k_len:
-            raise ValueError(f"`q_len` and `k_len` must be equal: {q_len} != {k_len}")
+        if q_len > k_len:
+            raise ValueError(
+                f"`q_len` must be less than or equal to `k_len`: {q_len} > {k_len}"
+            )
+
+        # The queries are the last `q_len` positions of the keys.
+        # (S, 1)
+        q_pos = torch.arange(k_len - q_len, k_len, device=device).unsqueeze(1)
 
-        # (S, S)
-        block_pos = (
-            torch.arange(q_len, device=device).unsqueeze(0) // self.attn_chunk_size
-        ) - (torch.arange(q_len, device=device).unsqueeze(1) // self.attn_chunk_size)
-        token_pos = torch.arange(q_len, device=device).unsqueeze(0) - torch.arange(
-            q_len, device=device
-        ).unsqueeze(1)
+        # (1, S_kv)
+        k_pos = torch.arange(k_len, device=device).unsqueeze(0)
 
-        mask: Tensor = (block_pos == 0) & (token_pos <= 0)
+        # (S, S_kv)
+        block_pos = (k_pos // self.attn_chunk_size) - (q_pos // self.attn_chunk_size)
 
-        mask = mask.to(dtype)
+        mask: Tensor = (block_pos == 0) & (k_pos - q_pos <= 0)
 
-        # (S, S)
-        return mask
+        # (S, S_kv)
+        return mask.to(dtype).log_()
 
     def __repr__(self) -> str:
         return f"ChunkedAttentionBias(attn_chunk_size={self.attn_chunk_size})"
-- 
2.43.0


From 3e325df3a21facb1f8ea1607fbd41af48fe11da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 20/30] fix: do not omit the attention bias of a single query
 that may not attend to all keys

---
 src/fairseq2/models/transformer/attention_bias.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index febcc02..5c369e8 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -383,8 +383,15 @@ def maybe_get_attention_bias_tensor(
             return None
 
     if isinstance(bias, CausalAttentionBias) or isinstance(bias, ChunkedAttentionBias):
-        if not q_layout.packed:
-            if q_layout.max_seq_len == 1:
+        if isinstance(bias, CausalAttentionBias):
+            span = bias.attn_window_len
+        else:
+            span = bias.attn_chunk_size
+
+        # A single query attends to all keys if none of them is padding and all
+        # of them are within its window or chunk.
+        if not q_layout.packed and not k_layout.packed and not k_layout.padded:
+            if q_layout.width == 1 and (span is None or k_layout.width <= span):
                 return None
 
     return _get_attention_bias_tensor(  # type: ignore[no-any-return]
-- 
2.43.0


From 6dc0be0015cb5babdd1d3c613c1615251480781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 21/30] fix: support head-specific attention biases for packed
 and padded batches

---
 src/fairseq2/models/transformer/attention_bias.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index 5c369e8..b9aacbb 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -313,13 +313,19 @@ def _create_block_bias_tensor(
 
     for (q_begin, q_end), (k_begin, k_end) in zip(q_seq_ranges, k_seq_ranges):
         if prev_q_end != q_begin and prev_k_end != k_begin:  # pad
-            tensor[prev_q_end:q_begin, prev_k_end:k_begin] = 0.0
+            tensor[..., prev_q_end:q_begin, prev_k_end:k_begin] = 0.0
 
         if q_begin != q_end and k_begin != k_end:
-            tensor[q_begin:q_end, k_begin:k_end] = bias.create_bias_tensor(
+            block = bias.create_bias_tensor(
                 q_end - q_begin, k_end - k_begin, device, dtype
             )
 
+            if block.ndim > tensor.ndim:  # head-specific bias
+                # (S, S_kv) -> (H, S, S_kv)
+                tensor = tensor.repeat(block.size(0), 1, 1)
+
+            tensor[..., q_begin:q_end, k_begin:k_end] = block
+
         prev_q_end = q_end
         prev_k_end = k_end
 
-- 
2.43.0


From 87c8018a9cd38fd09cfc0b3344eb4c0075ad5aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 22/30] fix: avoid NaNs in the attention of padding queries if
 no key is padding

---
 src/fairseq2/models/transformer/attention_bias.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index b9aacbb..edaa118 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -312,8 +312,13 @@ def _create_block_bias_tensor(
     prev_k_end = 0
 
     for (q_begin, q_end), (k_begin, k_end) in zip(q_seq_ranges, k_seq_ranges):
-        if prev_q_end != q_begin and prev_k_end != k_begin:  # pad
-            tensor[..., prev_q_end:q_begin, prev_k_end:k_begin] = 0.0
+        if prev_q_end != q_begin:  # pad
+            if prev_k_end != k_begin:
+                tensor[..., prev_q_end:q_begin, prev_k_end:k_begin] = 0.0
+            else:
+                # There are no padding keys; let the padding queries attend to
+                # all keys to avoid NaNs.
+                tensor[..., prev_q_end:q_begin, :] = 0.0
 
         if q_begin != q_end and k_begin != k_end:
             block = bias.create_bias_tensor(
-- 
2.43.0


From 0c92c6693ae07700cd617095d58c19a315a0e0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 23/30] fix: limit the attention window of Flash SDPAs to
 attn_window_len keys

---
 src/fairseq2/models/transformer/sdpa/flash2.py | 2 +-
 src/fairseq2/models/transformer/sdpa/flash3.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/transformer/sdpa/flash2.py b/src/fairseq2/models/transformer/sdpa/flash2.py
index 2b9b01b..6a759d2 100644
--- a/src/fairseq2/models/transformer/sdpa/flash2.py
+++ b/src/fairseq2/models/transformer/sdpa/flash2.py
@@ -80,7 +80,7 @@ class Flash2SDPA(SDPA):
 
             attn_window_len = self.bias.attn_window_len
             if attn_window_len is not None:
-                left_window = attn_window_len
+                left_window = attn_window_len - 1  # without the query
             else:
                 left_window = -1
 
diff --git a/src/fairseq2/models/transformer/sdpa/flash3.py b/src/fairseq2/models/transformer/sdpa/flash3.py
index b337579..2415cf7 100644
--- a/src/fairseq2/models/transformer/sdpa/flash3.py
+++ b/src/fairseq2/models/transformer/sdpa/flash3.py
@@ -84,7 +84,7 @@ class Flash3SDPA(SDPA):
 
             attn_window_len = self.bias.attn_window_len
             if attn_window_len is not None:
-                lhs_window_size = attn_window_len
+                lhs_window_size = attn_window_len - 1  # without the query
             else:
                 lhs_window_size = -1
         else:
-- 
2.43.0


From a1e073701ecbab0a5d42e76ee5397a26245d7eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 24/30] fix: do not process the scores of prompt steps in
 sequence generators

---
 src/fairseq2/generation/beam_search/generator.py | 15 +++++++++++++++
 src/fairseq2/generation/sampling/generator.py    | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/fairseq2/generation/beam_search/generator.py b/src/fairseq2/generation/beam_search/generator.py
index 70cb709..bdd6f8f 100644
--- a/src/fairseq2/generation/beam_search/generator.py
+++ b/src/fairseq2/generation/beam_search/generator.py
@@ -608,6 +608,12 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
             lprobs[:, : self._eos_idx]       = -torch.inf  # fmt: skip
             lprobs[:,   self._eos_idx + 1 :] = -torch.inf  # fmt: skip
         else:
+            # Prompt steps are not generated, they should retain their scores.
+            if self._step_nr < self._max_prompt_len:
+                prompt_lprobs = lprobs.clone()
+            else:
+                prompt_lprobs = None
+
             # Process `lprobs` in-place if requested.
             for processor in self._step_processors:
                 processor(self._seqs[:, : self._step_nr], lprobs, lprob=True)
@@ -624,6 +630,15 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
             if self._step_nr < self._min_seq_len - 1:
                 lprobs[:, self._eos_idx] = -torch.inf
 
+            if prompt_lprobs is not None:
+                if self._prompt_mask is None:
+                    raise InternalError("`_prompt_mask` is `None`.")
+
+                # (N, 1)
+                mask = self._prompt_mask[:, self._step_nr].unsqueeze(-1)
+
+                lprobs = torch.where(mask, prompt_lprobs, lprobs)
+
         batch_offset = 0
 
         new_beam_sizes: list[int] = []
diff --git a/src/fairseq2/generation/sampling/generator.py b/src/fairseq2/generation/sampling/generator.py
index 754fbf7..3099d4e 100644
--- a/src/fairseq2/generation/sampling/generator.py
+++ b/src/fairseq2/generation/sampling/generator.py
@@ -621,6 +621,12 @@ class _AbstractSamplingSequenceGeneratorOp(ABC):
             # (N)
             vocab_indices = self._seqs.new_full((batch_size,), self._eos_idx)
         else:
+            # Prompt steps are not generated, they should retain their scores.
+            if self._step_nr < self._max_prompt_len:
+                prompt_probs = probs.clone()
+            else:
+                prompt_probs = None
+
             # Process `probs` in-place if requested.
             for processor in self._step_processors:
                 processor(self._seqs[:, : self._step_nr], probs)
@@ -637,6 +643,15 @@ class _AbstractSamplingSequenceGeneratorOp(ABC):
             if self._step_nr < self._min_seq_len - 1:
                 probs[:, self._eos_idx] = 0
 
+            if prompt_probs is not None:
+                if self._prompt_mask is None:
+                    raise InternalError("`_prompt_mask` is `None`.")
+
+                # (N, 1)
+                mask = self._prompt_mask[:, self._step_nr].unsqueeze(-1)
+
+                probs = torch.where(mask, prompt_probs, probs)
+
             # (N)
             vocab_indices = self._sampler.sample(probs)
 
-- 
2.43.0


From 357c2cedf663f64018e1057b11c5110a7be4128e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 25/30] fix: do not finish beam search hypotheses that are not
 allowed to end

---
 src/fairseq2/generation/beam_search/generator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fairseq2/generation/beam_search/generator.py b/src/fairseq2/generation/beam_search/generator.py
index bdd6f8f..752efae 100644
--- a/src/fairseq2/generation/beam_search/generator.py
+++ b/src/fairseq2/generation/beam_search/generator.py
@@ -738,6 +738,11 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
         # (2 x B)
         eos_mask = next_step.vocab_indices == self._eos_idx
 
+        # Ignore candidates that are not allowed (e.g. EOS before the minimum
+        # sequence length). They can be in `next_step` if there are not enough
+        # other candidates.
+        eos_mask &= next_step.scores != -torch.inf
+
         # Consider EOS only when it's among the top `beam_size` indices.
         # (F)
         eos_seq_indices = next_step.seq_indices[: self._beam_size].masked_select(
-- 
2.43.0


From ac7d399e49e4ff6e55b00dfda744b86e72f5dea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 26/30] fix: exclude the prompt from the first step score of
 beam search hypotheses

---
 src/fairseq2/generation/beam_search/generator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/generation/beam_search/generator.py b/src/fairseq2/generation/beam_search/generator.py
index 752efae..cf69a71 100644
--- a/src/fairseq2/generation/beam_search/generator.py
+++ b/src/fairseq2/generation/beam_search/generator.py
@@ -794,8 +794,8 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
         # Do not keep `seqs` in memory.
         seq = seq.clone()
 
-        # (S_out)
-        step_scores = self._step_scores[seq_idx, start_step:seq_len]
+        # (S)
+        step_scores = self._step_scores[seq_idx, :seq_len]
 
         # Similar to `seqs`, do not keep `step_scores` in memory.
         step_scores = step_scores.clone()
@@ -803,6 +803,9 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
         # Convert from cumulative to per-step scores.
         step_scores[1:] = step_scores[1:] - step_scores[:-1]
 
+        # (S_out)
+        step_scores = step_scores[start_step:].clone()
+
         if self._normalize_scores:
             # Since the first step's score is always 0, do not include it in
             # the normalization.
-- 
2.43.0


From 0b478923f2c9c2f6eb74d5f9003ea7946ca12fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 27/30] fix: never have a negative UNK probability in sampling

---
 src/fairseq2/generation/sampling/generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fairseq2/generation/sampling/generator.py b/src/fairseq2/generation/sampling/generator.py
index 3099d4e..aa73c0f 100644
--- a/src/fairseq2/generation/sampling/generator.py
+++ b/src/fairseq2/generation/sampling/generator.py
@@ -635,6 +635,9 @@ class _AbstractSamplingSequenceGeneratorOp(ABC):
             if self._unk_idx is not None:
                 probs[:, self._unk_idx] -= self._unk_penalty
 
+                # The penalty can exceed the probability of UNK.
+                probs[:, self._unk_idx].clamp_(min=0)
+
             # Never allow PAD.
             if self._pad_idx is not None:
                 probs[:, self._pad_idx] = 0
-- 
2.43.0


From d241279005b27c27c6c8a76bc10f8489cfac362c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 28/30] fix: consider the candidates of all sequences of a beam
 with a small vocabulary

---
 src/fairseq2/generation/beam_search/algo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/generation/beam_search/algo.py b/src/fairseq2/generation/beam_search/algo.py
index 31f407c..be9a22c 100644
--- a/src/fairseq2/generation/beam_search/algo.py
+++ b/src/fairseq2/generation/beam_search/algo.py
@@ -102,6 +102,8 @@ class StandardBeamSearchAlgorithm(BeamSearchAlgorithm):
         lprobs = lprobs.view(-1)
 
         # (2 x B)
-        top_scores, top_indices = torch.topk(lprobs, k=min(2 * beam_size, vocab_size))
+        top_scores, top_indices = torch.topk(
+            lprobs, k=min(2 * beam_size, lprobs.size(0))
+        )
 
         return BeamStep(top_indices // vocab_size, top_indices % vocab_size, top_scores)
-- 
2.43.0


From 943dd183c8ff7e28b345693f9e60378b0acfe6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 29/30] fix: fan out the source sequences in seq2seq sampling
 without prefill

---
 src/fairseq2/generation/sampling/generator.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/fairseq2/generation/sampling/generator.py b/src/fairseq2/generation/sampling/generator.py
index aa73c0f..eb3897e 100644
--- a/src/fairseq2/generation/sampling/generator.py
+++ b/src/fairseq2/generation/sampling/generator.py
@@ -900,6 +900,25 @@ class _SamplingSeq2SeqGeneratorOp(_AbstractSamplingSequenceGeneratorOp):
         self._source_seqs = source_seqs
         self._source_seqs_layout = source_seqs_layout
 
+    @override
+    def _prepare_state(self) -> None:
+        super()._prepare_state()
+
+        # If there was no prefill, the source sequences have not been encoded
+        # yet, so they have to be fanned out as well.
+        if self._num_gens > 1 and self._min_prompt_len == 1:
+            seq_lens = self._source_seqs_layout.seq_lens
+
+            # (P, *) -> (P x G, *)
+            self._source_seqs = repeat_interleave(
+                self._source_seqs, dim=0, repeat=self._num_gens
+            )
+
+            self._source_seqs_layout = BatchLayout.of(
+                self._source_seqs,
+                [seq_len for seq_len in seq_lens for _ in range(self._num_gens)],
+            )
+
     @override
     def _decode(self, seqs: Tensor) -> Tensor:
         # We never pad during incremental decoding.
-- 
2.43.0


From db2ae6173a904b7f92097013f69c6b41724159a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:40 +0000
Subject: [PATCH 30/30] fix: do not lift bans on UNK with a negative UNK
 penalty in sampling

---
 src/fairseq2/generation/sampling/generator.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/fairseq2/generation/sampling/generator.py b/src/fairseq2/generation/sampling/generator.py
index eb3897e..b2cca5f 100644
--- a/src/fairseq2/generation/sampling/generator.py
+++ b/src/fairseq2/generation/sampling/generator.py
@@ -627,17 +627,18 @@ class _AbstractSamplingSequenceGeneratorOp(ABC):
             else:
                 prompt_probs = None
 
-            # Process `probs` in-place if requested.
-            for processor in self._step_processors:
-                processor(self._seqs[:, : self._step_nr], probs)
-
-            # Apply UNK penalty.
+            # Apply UNK penalty before the processors so that a negative penalty does
+            # not lift a ban on UNK.
             if self._unk_idx is not None:
                 probs[:, self._unk_idx] -= self._unk_penalty
 
                 # The penalty can exceed the probability of UNK.
                 probs[:, self._unk_idx].clamp_(min=0)
 
+            # Process `probs` in-place if requested.
+            for processor in self._step_processors:
+                processor(self._seqs[:, : self._step_nr], probs)
+
             # Never allow PAD.
             if self._pad_idx is not None:
                 probs[:, self._pad_idx] = 0
-- 
2.43.0

