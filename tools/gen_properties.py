"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    anchors = {
        "files": ["src/fairseq2/" + f for f in files],
        "mechanism": [{"name": n, "where": "src/fairseq2/" + w} for n, w in mech],
        "observe_at": [observe],
        "hook_needed": None,
    }
    if state:
        anchors["state"] = [{"name": state}]
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors=anchors))


# ------------------------------------------------------------------ trainer
p("T01", "Publish/validate/checkpoint fire exactly on their configured schedule",
  "At the end of an ordinary training step, metric publishing, validation and checkpointing each happen if and only if their step interval is set, the step number exceeds their 'after' threshold and is a multiple of the interval; at a data epoch boundary the same rule applies to the epoch number, except that an action already taken for that very step is not repeated. When training ends because the step limit is reached or a stop is requested, each action happens unconditionally; when it ends because data runs out each action happens unless its step schedule already made it happen for that step, and when it ends by early stopping the same holds for checkpointing. Nothing fires during pre-training validation.",
  ["inputs", "configurations"],
  "Every step number, epoch number, threshold, interval (set or unset) and trainer phase.",
  "No repository test constructs a trainer; the space of (phase, step, epoch, after, every) combinations is unbounded and only a universally quantified argument covers it.",
  ["trainer.py"],
  [("schedule decision", "trainer.py:_should_do"), ("users of the decision", "trainer.py:_maybe_save_checkpoint, _maybe_publish_metrics, _maybe_validate")],
  "calls made on the checkpoint manager, metric recorder and validator")

p("T02", "Training stops at its limits and honours a stop request",
  "A training run never performs more successful optimizer updates than the configured step limit and never reads past the configured number of data epochs; the step counter advances by exactly one per successful update. When a stop is requested while a step is being read or run, no further batch is read after it; when the request arrives during publishing, checkpointing or validation, at most the one following step is still performed and nothing is read after it, whatever other limits are configured. The run leaves its loop only in the stopped state and then reports a requested or early stop to its caller.",
  ["histories", "configurations", "schedules"],
  "Every sequence of data-epoch ends, gradient overflows and stop requests, and every combination of configured limits.",
  "Requires reasoning over all interleavings of stop requests with the trainer's state machine; there is no trainer test at all.",
  ["trainer.py"],
  [("state machine", "trainer.py:_do_run"), ("post step transition", "trainer.py:_run_post_step"), ("epoch boundary", "trainer.py:_handle_end_of_data_epoch"), ("overflow repeat", "trainer.py:_repeat_step")],
  "number of optimizer steps and data reader reads; exception raised by the run")

p("T03", "Saving and restoring trainer state round-trips every component",
  "The trainer state written to a checkpoint contains the step number, the data epoch number, accumulated wall time (the data epoch number being the one training continues in), and the states of the learning rate scheduler, loss scaler, random number generators and metrics. Restoring such a state gives each of those components exactly the state that was saved for it, and accumulated wall time carries over as previous runs plus the elapsed time of the saving run. A state with a missing, mistyped or unexpected entry is rejected with an error rather than loaded silently.",
  ["inputs", "histories"],
  "Every step, epoch, wall time and component state; every state dictionary with a missing, extra or wrongly typed entry.",
  "Resume correctness depends on all components at once for arbitrary values; no test saves and restores a trainer.",
  ["trainer.py"],
  [("state proxy", "trainer.py:_TrainerProxy.state_dict"), ("state proxy", "trainer.py:_TrainerProxy.load_state_dict")],
  "state dictionary handed to the checkpoint manager and state of the trainer's components after loading")

p("T04", "An overflowed step is undone: no scheduler advance, no metrics, same number",
  "If the loss scaler reports a gradient overflow for a step, the updates made to the metrics during that step are rolled back, the learning rate scheduler does not advance, and the step is retried under the same step number; otherwise the metrics are kept, the scheduler advances exactly once and the step counts. Within a step every micro-batch is processed exactly once in reading order, gradients are zeroed once after the optimizer ran, and if the loss scale is already at its minimum the run fails with an error naming the step.",
  ["histories", "inputs"],
  "Every sequence of overflowing and successful steps and every number of micro-batches per step.",
  "Needs arbitrary overflow histories and micro-batch counts; no test drives the training step.",
  ["trainer.py"],
  [("training step", "trainer.py:_do_run_step"), ("retry", "trainer.py:_repeat_step"), ("explosion", "trainer.py:_inspect_fp16_scale_result")],
  "calls on metric bag, scheduler, scaler and optimizer; step number")

p("T05", "No checkpoint save is left pending when training ends",
  "Whenever training ends, for whatever reason, a checkpoint save that was started asynchronously has been completed and made visible before the run returns. If a checkpoint is due at the final step it has been saved by then.",
  ["histories", "schedules", "configurations"],
  "Every way for a run to end (step limit, end of data, early stop, requested stop), with or without validation, and with or without an asynchronous save in flight.",
  "Depends on the coincidence of an asynchronous save with the end of training; nothing in the test suite runs the trainer.",
  ["trainer.py"],
  [("shutdown", "trainer.py:_stop"), ("early stop", "trainer.py:_early_stop"), ("completion", "trainer.py:_maybe_complete_checkpoint_save_operation")],
  "pending state of the checkpoint manager when the run returns")

p("T06", "Gradient accumulation synchronises and scales the loss exactly once",
  "With synchronisation-free accumulation enabled, gradients are synchronised across data-parallel replicas in the last micro-batch of a step and in no other; when disabled they are synchronised in every micro-batch. If the training unit reports a target count, gradients are normalised once per step by the total of the counts over all micro-batches if that is positive; if it reports none, each micro-batch loss is divided by the number of micro-batches and no normalisation takes place.",
  ["inputs", "configurations"],
  "Every number of micro-batches, every target count per micro-batch, and both accumulation modes.",
  "An unbounded loop over micro-batches with a numeric fold; never exercised by tests.",
  ["trainer.py"],
  [("accumulation loop", "trainer.py:_do_run_step"), ("no-sync decision", "trainer.py:_maybe_no_sync")],
  "losses passed to backward, no-sync contexts entered, count passed to gradient normalisation")

p("T07", "Early stopping and model evaluation bookkeeping agree on all processes",
  "Only the first process consults the early stopping policy, and every process then takes the same decision; a step is reported to the policy at most once per validation score. Validation always runs with the model in evaluation mode and the model is back in training mode afterwards; the score of a validation is recorded for the checkpoint of that step exactly when a checkpoint is due at that step.",
  ["histories", "configurations"],
  "Every validation score, rank, gang size and configured schedule.",
  "Tests run with a single process and never construct a trainer.",
  ["trainer.py"],
  [("early stop", "trainer.py:_maybe_request_early_stop"), ("validation", "trainer.py:_validate")],
  "calls on the early stopper, gang broadcast, model mode switches and score saving")

# ------------------------------------------------------------------ checkpoints
p("C01", "Checkpoint retention deletes exactly the stale checkpoints",
  "Given the saved checkpoints and the retention settings, the checkpoints reported stale are exactly those that are not the most recent one, not among the last N, not among the N with the best scores and not at a multiple of the configured step interval, in ascending order. With no retention setting nothing is stale; if there are checkpoints, a setting that is zero or negative is rejected. Among equally scored checkpoints the later one is preferred, and checkpoints without a recorded score never qualify as best.",
  ["inputs", "histories"],
  "Every set of checkpoint step numbers, every assignment of scores (or none) to them, and every combination of retention settings.",
  "Quantifies over unbounded sets of step numbers and scores; the checkpoint manager has no tests.",
  ["checkpoint/manager.py", "trainer.py"],
  [("stale set", "checkpoint/manager.py:get_stale_step_numbers"), ("scores", "checkpoint/manager.py:_do_load_scores"), ("deletion", "trainer.py:_delete_stale_checkpoints")],
  "return value of the stale query and the delete calls of the trainer")

p("C02", "A checkpoint becomes visible only after every process wrote its part",
  "On a local file system all files of a checkpoint are written under a temporary name and the checkpoint appears under its final name by a single rename that the first process performs after a barrier that all processes enter only once their files are fully written; no process returns from the commit before the rename. A checkpoint under its temporary name is never listed, counted as the latest, or loaded. Callbacks announcing a saved checkpoint run only after it is visible.",
  ["crash_points", "schedules", "configurations"],
  "Every process rank, every crash point between the start of a save and its commit, blocking and asynchronous saves, and any pre-existing directory content.",
  "Crash points and cross-process orderings cannot be sampled by unit tests, and the suite has none for checkpoints.",
  ["checkpoint/manager.py"],
  [("commit", "checkpoint/manager.py:_commit_checkpoint"), ("staging", "checkpoint/manager.py:_begin_checkpoint, _save_state_files"), ("listing", "checkpoint/manager.py:get_step_numbers")],
  "file system operations and barriers in order", state="checkpoint directory")

p("C03", "Each process reloads exactly the state files written for its shard",
  "For every parallel topology and step number, the file a process loads for the trainer, model, optimizer or data reader state is, after commit, the file written by the process with the same position (for model and optimizer: the same pipeline, tensor and shard position). Two processes that both write a given kind of state write different files, and for every position at least one process writes the file. Trainer state is written by every process and training data state by every process that is first in its tensor-parallel group (training data state is considered for a single pipeline stage).",
  ["configurations", "inputs"],
  "Every world size and every consistent assignment of root, data, replicated, sharded, tensor and pipeline ranks; every step number.",
  "Needs all multi-dimensional topologies and rank combinations; tests run in a single process.",
  ["checkpoint/manager.py"],
  [("save naming", "checkpoint/manager.py:_record_trainer_state, _record_model_state, _record_optimizer_state, _record_data_reader_state"), ("load naming", "checkpoint/manager.py:load_trainer_state, load_model_state, load_optimizer_state, load_data_reader_state, _load_state_dict")],
  "paths passed to the tensor file dumper and loader")

p("C04", "Deleting a checkpoint removes only that checkpoint, and can keep its model",
  "Deleting a checkpoint removes its directory, its temporary directory and its score, and touches no file of any other checkpoint. When asked to keep the model, the model files, exported model and hook output as well as the score survive and everything else of that checkpoint goes, so it is no longer resumable. Only the first process modifies the file system and every process waits for it.",
  ["inputs", "histories"],
  "Every step number, every directory content and every rank.",
  "Quantifies over arbitrary directory contents; no test exists.",
  ["checkpoint/manager.py"],
  [("delete", "checkpoint/manager.py:delete_checkpoint")],
  "paths passed to the file system's remove operations", state="checkpoint directory")

p("C05", "Listing checkpoints reports committed step numbers in ascending order",
  "The list of available checkpoints consists exactly of the step numbers of the committed checkpoint directories, in ascending order without duplicates; with model-only checkpoints excluded it consists exactly of those that also hold trainer state. The last step number is the largest of the list, or none if the list is empty.",
  ["inputs", "histories"],
  "Every content of the checkpoint directory, including temporary directories, plain files and foreign names, in any listing order.",
  "Directory contents and enumeration orders are unbounded; no test exists.",
  ["checkpoint/manager.py"],
  [("listing", "checkpoint/manager.py:get_step_numbers"), ("latest", "checkpoint/manager.py:maybe_get_last_step_number")],
  "return values", state="checkpoint directory")

# ------------------------------------------------------------------ gangs
p("G01", "Parallel gangs partition the world consistently",
  "For every world size divisible by the tensor-parallel size, the tensor-parallel groups and the data-parallel groups each partition the set of process ranks, every tensor-parallel group consists of consecutive ranks, and any tensor-parallel group meets any data-parallel group in exactly one rank. Each process is placed in exactly the two groups containing its own rank, at the position its rank has there, so that its global rank is recovered from the two positions. The same holds for the sharded and replicated subdivision of the data-parallel group; sizes that do not divide are rejected. All processes make the same sub-gangs in the same order.",
  ["configurations", "inputs"],
  "Every world size, rank, tensor-parallel size and intra-node size.",
  "Tests run with one process, while the guarantee ranges over all world sizes and group sizes.",
  ["gang.py"],
  [("parallel gangs", "gang.py:create_parallel_gangs"), ("fsdp gangs", "gang.py:create_fsdp_gangs")],
  "rank lists passed to sub-gang creation and positions of the resulting gangs")

p("G02", "Gang construction rejects ranks and layouts that cannot exist",
  "A gang is created only if its rank lies in [0, size); a sub-gang is created only from ranks that all lie in [0, size) and that do not repeat. A set of gangs is accepted only if the process that is first in the whole world is also first in its data-, tensor- and pipeline-parallel gangs.",
  ["inputs", "configurations"],
  "Every rank, size, rank list, and every combination of positions in the individual gangs.",
  "A boundary condition over all integers and lists; no test covers gang validation.",
  ["gang.py"],
  [("rank check", "gang.py:AbstractGang"), ("sub-gang", "gang.py:_check_ranks, create_gang"), ("gangs", "gang.py:Gangs.__post_init__")],
  "ValueError raised or gang constructed")

p("G03", "Context-scoped defaults nest and are always restored",
  "Entering a scope that changes the default device, data type or current gangs makes exactly that value the current one inside the scope, and leaving the scope, normally or by an exception, restores the value that was current before. Nested scopes therefore behave as a stack, never leak into the surrounding code, and change nothing for other threads.",
  ["histories", "fault_sequences"],
  "Every nesting and every exit path of scopes.",
  "Exit by exception at any nesting depth is not sampled by tests.",
  ["gang.py", "device.py", "data_type.py"],
  [("gangs", "gang.py:GangContext"), ("device", "device.py:DeviceContext"), ("data type", "data_type.py")],
  "current value before, inside and after the scope")

# ------------------------------------------------------------------ data
p("D01", "Data-parallel readers agree on batch counts and on the end of the data",
  "In every iteration the processes of a data-parallel group end together: all of them return a list of batches or all of them signal the end of the data. With synchronisation until the first end every process returns exactly the smallest number of batches available to any of them, and the data ends exactly when that number is zero; with synchronisation until the last end every process returns all batches that it has, possibly none, and the data ends exactly when no process has any; without synchronisation each process goes by its own number. What a process returns are the next batches of its own pipeline in order, never more than the configured number of accumulated batches, and no incomplete group if remainders are dropped. After the end of the data the reader keeps signalling it without reading until it is reset or given a state, and then reads again; a failing pipeline is reported as a read error.",
  ["schedules", "configurations", "histories"],
  "Every number of processes, every number of batches left on each, every accumulation size and synchronisation mode.",
  "Cross-process agreement for all combinations of remaining batches cannot be sampled in single-process tests.",
  ["datasets/data_reader.py"],
  [("iteration", "datasets/data_reader.py:__next__")],
  "lists returned and StopIteration per process")

p("D02", "Length buckets cover every admissible length within the element budget",
  "The buckets created for a maximum element count and a range of sequence lengths are (number of sequences, length) pairs of strictly increasing length, all within the range and the last one of the maximum length, so every admissible length fits a bucket. Every bucket's number of sequences is at least one and never exceeds the element budget together with its length; a sequence of any admissible length falls into a bucket that holds the largest number of sequences of that length the budget allows, rounded down to a multiple of the requested number where one multiple fits, and a bucket other than the last is as long as its number of sequences allows. Parameters for which no such buckets exist are rejected.",
  ["inputs", "configurations"],
  "Every maximum element count, minimum and maximum length and multiple.",
  "A loop over all lengths for arbitrary integer parameters; tests check isolated values only.",
  ["data/data_pipeline.py"],
  [("bucket sizes", "data/data_pipeline.py:create_bucket_sizes")],
  "returned list of (number of sequences, length) pairs")

p("B01", "A batch layout describes exactly the non-padding positions of its batch",
  "A batch layout has the width of its batch, holds the lengths it was given (or full ones) with their least and greatest, marks itself padded if and only if some position of the batch is padding, and rejects dimensions and lengths that cannot fit the given shape. Its position indices have the shape of the batch; they count 0,1,2,... along every sequence - in packed batches restarting at every sequence start - and are a sentinel on padding. Its sequence boundaries are the running totals of the lengths in packed batches and the row starts otherwise; the tensor forms equal the lists. A layout of a batch tensor is that of its leading dimensions.",
  ["inputs"],
  "Every batch width, batch size and list of sequence lengths, packed or padded.",
  "Lists of lengths of arbitrary size and value; nothing tests layouts directly.",
  ["nn/batch_layout.py"],
  [("layout", "nn/batch_layout.py:BatchLayout.__init__"), ("of a batch", "nn/batch_layout.py:BatchLayout.of")],
  "public attributes of the layout")

p("B02", "Batch accounting counts real elements and target elements correctly",
  "A sequence batch reports as element count the total of its sequence lengths, as example count the number of its sequences, and as padding the remaining positions; a sequence-to-sequence batch reports source plus target elements as elements and only the target elements as target elements. With a target mask the target count is the number of unmasked positions. Shapes, lengths and masks that do not fit each other are rejected. Splitting a batch for next-token prediction leaves the batch as it is and returns an input without the last and targets (and their mask) without the first position: unpacked, every sequence is one shorter; packed, the stream is shifted as a whole and its last sequence becomes one shorter, or is dropped with its source if that was its only element. Sequences that would become empty otherwise are rejected.",
  ["inputs"],
  "Every batch shape, list of lengths, packed or padded form, with and without target mask.",
  "Gradient and metric normalisation depend on these counts for all shapes; no tests exist.",
  ["datasets/batch.py"],
  [("sequence batch", "datasets/batch.py:SequenceBatch"), ("seq2seq batch", "datasets/batch.py:Seq2SeqBatch"), ("next-token split", "datasets/batch.py:as_auto_regressive")],
  "public counters and tensors of the batches")

# ------------------------------------------------------------------ optim
p("L01", "Learning rate schedules follow their closed forms at every step",
  "For every step the learning rate of every parameter group equals the schedule's documented closed form. During warm-up the cosine, inverse-square-root, polynomial and tri-stage schedules rise linearly from the start rate at step zero to the base rate, which they have when warm-up ends; Noam rises linearly from zero to the base rate divided by the square root of the warm-up length. Afterwards Noam and the inverse square root decay with the inverse square root of the step; the polynomial schedule follows the given power of the remaining fraction of steps; the tri-stage schedule holds the base rate and then decays exponentially; the cosine schedule follows a half cosine in every cycle, each starting at its exact step, with lengths and rates growing by constant factors. No rate leaves the interval between its group's base and final rate (in the cycle, for cosine), and polynomial and tri-stage keep the final rate after the last step. Schedules without a valid warm-up or with shares that do not add up, and per-group rates that are not one per group, are rejected.",
  ["inputs", "configurations"],
  "Every step number, warm-up length, total and cycle length, growth factor above one, and rates of any number of parameter groups.",
  "Existing tests check particular step counts; the closed form must hold at every step for every configuration.",
  ["optim/lr_schedulers/cosine_annealing.py", "optim/lr_schedulers/noam.py", "optim/lr_schedulers/myle.py", "optim/lr_schedulers/polynomial_decay.py", "optim/lr_schedulers/tri_stage.py", "optim/lr_schedulers/lr_scheduler.py"],
  [("schedules", "optim/lr_schedulers/*.py:_compute_lrs"), ("per-group rates", "optim/lr_schedulers/lr_scheduler.py:get_per_param_group")],
  "learning rates returned by the schedulers")

# ------------------------------------------------------------------ loss scaling
p("F01", "The loss scaler classifies every step and keeps the scale in range",
  "After each step the loss scaler reports an overflow if and only if the scale was reduced, reports growth if and only if it was raised, and reports an explosion exactly when a reduction would fall below the minimum scale, in which case the scale is put at the minimum. With reduced precision disabled it runs the optimizer unscaled and always reports a normal step.",
  ["histories", "inputs"],
  "Every old and new scale value, minimum scale, and every sequence of overflows.",
  "Needs arbitrary scale histories; CPU tests never enable loss scaling.",
  ["optim/fp16_loss_scaler.py"],
  [("result", "optim/fp16_loss_scaler.py:_update_scale, run_optimizer_step")],
  "returned result record and scale")

# ------------------------------------------------------------------ nn / generation
p("I01", "Incremental decoding stays below its step limit and caches what was appended",
  "The decoding step counter grows by exactly the requested amount and stays below the maximum number of steps; an increment that would reach it is rejected without changing the counter. After every append a full key/value cache returns exactly the keys and values appended so far, in order, and a local one exactly those of the last steps of its window, however many steps are appended at a time and whatever their value dimension; after a reorder row i is the former row at the i-th given index for every cached step. A state bag returns for a module the state last stored for it, provided that it is of the requested class, and reorders the state of every module exactly once.",
  ["histories", "inputs"],
  "Every sequence of appends and reorders, any step sizes, batch sizes and index vectors; a full cache without a capacity increment up to its maximum length.",
  "An invariant over unbounded append/reorder histories; no test covers it.",
  ["nn/incremental_state.py", "models/transformer/multihead_attention.py"],
  [("counter", "nn/incremental_state.py:increment_step_nr"), ("bag", "nn/incremental_state.py:set_state, maybe_get_state, reorder"), ("caches", "models/transformer/multihead_attention.py:FullAttentionState, LocalAttentionState")],
  "returned tensors and counters")

p("N01", "Top-p and top-k sampling only ever draw permitted vocabulary entries",
  "Top-k sampling draws only from the k most probable entries; top-p sampling draws only from the smallest set of most probable entries whose cumulative probability exceeds p (all entries if none does), which always contains the most probable entry. The draw probabilities are the original ones restricted to that set and renormalised, the result is an index into the original vocabulary, and the given probabilities are not changed.",
  ["inputs"],
  "Every probability vector and every p and k.",
  "Ranges over all probability vectors; a random sampler's support cannot be established by sampling.",
  ["generation/sampling/sampler.py"],
  [("samplers", "generation/sampling/sampler.py:TopPSampler, TopKSampler")],
  "distribution handed to the multinomial draw and index mapping")

p("N02", "Repeat blocking bans exactly the tokens that would repeat an n-gram",
  "With n-gram repeat blocking a token's score is set to minus infinity (its probability to zero) if and only if appending it to the sequence would complete an n-gram that already occurs in that sequence; all other scores and the sequences are unchanged. Banned-sequence processing does the same for exactly the final tokens of banned sequences whose other tokens end the current sequence; an empty banned sequence and an n-gram size of zero are rejected.",
  ["inputs"],
  "Every sequence, n-gram size, vocabulary and set of banned sequences.",
  "Existing tests check a few sequences; the guarantee is over all of them.",
  ["generation/step_processor.py"],
  [("processors", "generation/step_processor.py")],
  "scores after processing")

p("N03", "Generation respects its length limits and end-of-sequence rules",
  "A generator never produces a sequence longer than the configured maximum (counted from the longest prompt of the batch and cut to the model's own maximum), never ends a sequence before the minimum length, and ends every sequence that reaches the maximum. Sequences begin with their prompt, which is scored by the model alone; padding and banned tokens are never generated, and the sampler is never given a negative probability. Each step decodes exactly the token before it. A beam search keeps the best candidates over all sequences of a beam; the number of finished hypotheses per prompt never exceeds the beam size (or requested number), their step scores and score are those of their own tokens, and they are returned best score first.",
  ["inputs", "histories", "configurations"],
  "Every prompt length, minimum and maximum length setting, and decoder output.",
  "Decoder outputs and lengths are unbounded; there are no generator tests.",
  ["generation/sampling/generator.py", "generation/beam_search/generator.py"],
  [("length limits", "generation/*/generator.py:__init__"), ("step", "generation/*/generator.py:_step")],
  "scores after the step's masking and sequences returned")

# ------------------------------------------------------------------ state / infra
p("M01", "Metric updates are transactional",
  "Between the beginning of a metric transaction and its end every metric update can be undone: rolling back restores every metric to its state at the beginning, committing keeps the updates, and either closes the transaction. Beginning twice, or committing or rolling back without a transaction, is rejected, and a metric can be registered only under a new name.",
  ["histories"],
  "Every sequence of begin, update, commit and rollback calls and every set of metrics.",
  "Histories are unbounded and untested.",
  ["metrics/bag.py"],
  [("transaction", "metrics/bag.py:begin_updates, commit_updates, rollback_updates")],
  "metric states and errors raised")

p("R01", "Temporary seeding never disturbs the surrounding random state",
  "Inside a temporary seeding scope every managed random generator is seeded with the given seed; when the scope ends, normally or by an exception, every generator continues exactly as if the scope had never been entered. Saving and loading the generators' states restores each generator's own state, and a state with the wrong number of generators is rejected.",
  ["histories", "fault_sequences"],
  "Every set of generators, every seed and every exit path.",
  "Exit paths and generator sets are not enumerated by tests.",
  ["utils/rng.py"],
  [("bag", "utils/rng.py:RngBag")],
  "generator states before, inside and after the scope")

p("A01", "Asset lookup honours environments and base cards",
  "Looking up an asset by name returns its plain metadata overridden by the first matching environment: the one named explicitly (`name@env`, none for `name@`), otherwise the user environment before the default one. A field absent from a card is taken from the nearest card in its chain of base cards that has it, and a card's own field always wins; a relative pathname is resolved against the directory of the card that defines it. Unknown assets, cyclic or missing bases, and names registered by two sources are reported as errors.",
  ["configurations", "inputs"],
  "Every set of registered assets, environments, and base chains of any depth.",
  "Chains and environment lists are unbounded; tests use a few handmade cards.",
  ["assets/store.py", "assets/card.py"],
  [("store", "assets/store.py:retrieve_card"), ("card fields", "assets/card.py:maybe_get_field, field")],
  "card returned, field values, errors")

p("K01", "Configuration merging applies overrides exactly and nothing else",
  "Merging an override into a base configuration yields the override's value wherever the override defines one, and the base's value everywhere else, recursively; deletion and insertion directives remove and add exactly the named keys. An override mapping is merged into a base mapping and into nothing where the base has none; an inserted key wins over an override of the same name. Neither input is modified, a merged mapping shares no mutable part with either, and malformed directives are rejected.",
  ["inputs", "configurations"],
  "Every pair of nested configurations.",
  "Nested structures are unbounded.",
  ["utils/merge.py", "utils/config.py"],
  [("merge", "utils/config.py:ConfigMerger")],
  "merged configuration")

p("Q01", "Attention masks admit exactly the permitted query/key pairs",
  "Under causal attention a query may attend exactly to the keys up to its own position (queries being the last positions of the key sequence when keys outnumber them); under windowed attention only to those within the window, its own position included, and under chunked attention only to those of its chunk; everything else gets minus infinity. In packed batches queries attend only to keys of their own sequence, and queries of real positions never to padding keys. A bias is left out only if every pair is permitted, and every attention implementation applies it as it is.",
  ["inputs"],
  "Every number of queries and keys, every window size and every layout.",
  "Tests check small shapes; the claim is for every shape and window.",
  ["models/transformer/attention_bias.py", "models/transformer/sdpa/naive.py", "models/transformer/sdpa/torch.py", "models/transformer/sdpa/flash2.py", "models/transformer/sdpa/flash3.py"],
  [("bias", "models/transformer/attention_bias.py"), ("attention", "models/transformer/sdpa")],
  "bias tensor entries, operands handed to the attention kernels")

p("P01", "Tensor-parallel shards tile the full parameter without gap or overlap",
  "Splitting a linear or embedding parameter over a tensor-parallel group gives each process a contiguous slice; slices of different processes do not overlap and together restore the full parameter in order of rank when unsharded. The sharded module computes what the full module computes on every process (or this process's slice of it, where so configured), and its gradients are the slices of the full module's gradients. Dimensions not divisible by the group size are rejected. Resharding a checkpoint parameter from one group size to another gives each process of the new group exactly its slice of the full parameter, and a parameter that is not sharded is taken whole.",
  ["configurations", "inputs"],
  "Every dimension and group size.",
  "Tests run with one process.",
  ["nn/projection.py", "nn/embedding.py", "ops/tensor_parallel.py", "model_checkpoint/common.py", "model_checkpoint/native.py"],
  [("collectives", "ops/tensor_parallel.py:reduce, reduce_on_backward, gather, scatter"), ("resharding", "model_checkpoint/common.py:reshard_tensor"), ("sharding", "nn/projection.py:ColumnShardedLinear, RowShardedLinear"), ("embedding", "nn/embedding.py:VocabShardedEmbedding, ShardedEmbedding")],
  "local shard shapes and ranges")

p("V01", "The reported best validation score is the best one seen",
  "After any sequence of validation runs the best score and best step reported are those of the best score so far under the metric's own direction, the earliest step winning ties, and each run's score is reported as produced. A restored validator continues from the recorded scores.",
  ["histories"],
  "Every sequence of scores and either direction of the metric.",
  "Unbounded score histories; untested.",
  ["validator.py"],
  [("validator", "validator.py:StandardValidator")],
  "values handed to the metric recorder and returned")

p("U01", "Dependency resolution picks the registered provider and caches singletons",
  "Resolving a type, optionally under a key, returns the object supplied by the provider registered for exactly that type and key, and a provider registered as singleton is run successfully at most once however often and through whichever dependency it is requested. A second registration for the same type and key, and any registration after the first resolution, is rejected without effect. Resolving all of a type returns the objects of all its registrations in order, and the keys of a type are listed in the order of registration. Missing providers, providers that supply nothing and dependency cycles are reported as errors; an optional resolution yields nothing only if its own provider is missing or supplies nothing, never because of a deeper failure.",
  ["histories", "configurations"],
  "Every sequence of registrations and resolutions.",
  "Registration and resolution histories are unbounded.",
  ["runtime/dependency.py"],
  [("container", "runtime/dependency.py:DependencyContainer")],
  "instances returned, factory call counts and errors")

p("W01", "Stopwatch time accumulates exactly the running intervals",
  "A stopwatch's elapsed time is the total of the intervals during which it ran since it was last reset; it does not count time while stopped, starting a running watch is rejected without effect, stopping a stopped watch has no effect, and resetting while running restarts the count from zero.",
  ["histories"],
  "Every sequence of start, stop, reset and read operations at any clock values.",
  "Unbounded operation histories.",
  ["utils/stopwatch.py"],
  [("stopwatch", "utils/stopwatch.py:Stopwatch")],
  "elapsed time reported")

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P))
