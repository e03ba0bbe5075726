From 3d6b149114410010ab462e5fac39fbb9674109f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 01/33] fix: fbld: don't crash in @tail and @plain after an
 earlier error

An argument whose evaluation failed is NULL; TailOf and MapPlain
dereferenced it, unlike HeadOf.
---
 fbld/eval.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fbld/eval.c b/fbld/eval.c
index cdf9f07..1af5dcc 100644
--- a/fbld/eval.c
+++ b/fbld/eval.c
@@ -320,6 +320,11 @@ static bool HeadOf(FbldMarkup* m, char* out)
  */
 static bool TailOf(FbldMarkup* m, FbldMarkup** out)
 {
+  if (m == NULL) {
+    // There must have already been some error message reported. Bail out.
+    return false;
+  }
+
   switch (m->tag) {
     case FBLD_MARKUP_PLAIN: {
       if (m->text->str[0] == '\0') {
@@ -460,6 +465,11 @@ static bool Eq(FbldMarkup* a, FbldMarkup* b, bool* eq)
  */
 static FbldMarkup* MapPlain(const char* f, FbldMarkup* m)
 {
+  if (m == NULL) {
+    // There must have already been some error message reported. Bail out.
+    return NULL;
+  }
+
   switch (m->tag) {
     case FBLD_MARKUP_PLAIN: {
       FbldMarkup* n = FbldAlloc(FbldMarkup);
-- 
2.43.0


From b79e961b4bd07d1be23703addaa0b348c3b10e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 02/33] fix: fbld: leave room for the terminator when joining
 empty texts

Joining two empty plain texts asked for a zero sized buffer and tripped
the capacity assertion.
---
 fbld/markup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbld/markup.c b/fbld/markup.c
index 0149f9d..7029743 100644
--- a/fbld/markup.c
+++ b/fbld/markup.c
@@ -153,7 +153,7 @@ static bool TextOfMarkup(FbldMarkup* markup, FbldText** text, size_t* capacity)
       size_t src_size = strlen(markup->text->str);
       if (src_size >= *capacity) {
         size_t size = strlen((*text)->str) + *capacity;
-        size_t nsize = 2 * (strlen((*text)->str) + src_size);
+        size_t nsize = 2 * (strlen((*text)->str) + src_size) + 1;
         *text = FbldReAllocRaw(*text, sizeof(FbldText) + nsize);
         *capacity = nsize - size;
         assert(src_size < *capacity);
-- 
2.43.0


From 5fea772218f8ca1e1998103c1e060b6b7ddfb95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 03/33] fix: fbld: report end of input in a same line argument

The parser tried to advance past the end of input and hit an assertion
instead of reporting the missing newline.
---
 fbld/parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbld/parse.c b/fbld/parse.c
index 8de0cc5..6c5c568 100644
--- a/fbld/parse.c
+++ b/fbld/parse.c
@@ -416,7 +416,8 @@ static FbldMarkup* ParseInline(Lex* lex, InlineContext context)
     }
 
     if (context == SAME_LINE_ARG
-        && (Is(lex, "\n") || Is(lex, " @\n") || Is(lex, " @@\n"))) {
+        && (IsEnd(lex)
+          || Is(lex, "\n") || Is(lex, " @\n") || Is(lex, " @@\n"))) {
       break;
     }
 
-- 
2.43.0


From 32486b39d88ea3dfa36d4b4641ce3ce3ed857fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 04/33] fix: fbld: end @ifneq and @plain arity diagnostics with
 a newline

---
 fbld/eval.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbld/eval.c b/fbld/eval.c
index 1af5dcc..ceb76cb 100644
--- a/fbld/eval.c
+++ b/fbld/eval.c
@@ -781,7 +781,7 @@ static bool Eval(Cmd* cmd)
 
             if (strcmp(command, "ifneq") == 0) {
               if (markup->markups.size != 4) {
-                FbldReportError("expected 4 arguments to @ifneq, but got %i",
+                FbldReportError("expected 4 arguments to @ifneq, but got %i\n",
                     markup->text->loc, markup->markups.size);
                 error = true;
                 cmd = cmd->next;
@@ -831,7 +831,7 @@ static bool Eval(Cmd* cmd)
 
             if (strcmp(command, "plain") == 0) {
               if (markup->markups.size != 2) {
-                FbldReportError("expected 2 argument to @plain, but got %i",
+                FbldReportError("expected 2 argument to @plain, but got %i\n",
                     markup->text->loc, markup->markups.size);
                 error = true;
                 cmd = cmd->next;
-- 
2.43.0


From 6c695461bd38fc6202504a84237c74efe8af0c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 05/33] fix: initialize the list of extra chunks of a new
 heap's first frame

FbleFreeValueHeap walks the chunks of every frame, including the root frame,
whose chunks field was left uninitialized.
---
 lib/value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/value.c b/lib/value.c
index 0c64381..a2a7ebd 100644
--- a/lib/value.c
+++ b/lib/value.c
@@ -994,7 +994,7 @@ FbleValueHeap* FbleNewValueHeap()
   Clear(&heap->top->alloced);
   heap->top->top = (intptr_t)(heap->top + 1);
   heap->top->max = CHUNK_SIZE + (intptr_t)heap->stack;
-  heap->chunks = NULL;
+  heap->top->chunks = NULL;
 
   heap->gc.min_gen = heap->top->min_gen;
   heap->gc.gen = heap->top->gen;
-- 
2.43.0


From fed31506c477b32a0e11a0fe6fadd03f35927e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 06/33] fix: finish collecting in FbleValueFullGc

The loop stopped as soon as the last frame's objects had been handed to the
collector, before they were traversed and the unreachable ones freed.
---
 lib/value.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/value.c b/lib/value.c
index a2a7ebd..bf62b86 100644
--- a/lib/value.c
+++ b/lib/value.c
@@ -1827,6 +1827,9 @@ void* FbleNativeValueData(FbleValue* value)
 void FbleValueFullGc(FbleValueHeap* heap)
 {
   while (!(heap->gc.next == NULL
+      && IsEmpty(&heap->gc.marked)
+      && IsEmpty(&heap->gc.unmarked)
+      && IsEmpty(&heap->gc.free)
       && IsEmpty(&heap->gc.frame->marked)
       && IsEmpty(&heap->gc.frame->unmarked))) {
     IncrGc(heap);
-- 
2.43.0


From 12d4766d15331bc704ce2a15988a9e1d9cd590f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:17 +0000
Subject: [PATCH 07/33] fix: allocate values larger than half a stack chunk
 without overflowing it

The first object of a new chunk was placed one object size past its start, and
an object larger than a chunk was allocated in a chunk of the standard size.
---
 lib/value.c | 54 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/lib/value.c b/lib/value.c
index bf62b86..d79b2ca 100644
--- a/lib/value.c
+++ b/lib/value.c
@@ -345,6 +345,7 @@ typedef struct {
 #define NewGcValueExtra(heap, frame, T, tag, count) ((T*) NewGcValueRaw(heap, frame, tag, sizeof(T) + count * sizeof(FbleValue*)))
 
 static void* StackAlloc(FbleValueHeap* heap, size_t size);
+static void ReleaseChunks(FbleValueHeap* heap, Frame* frame);
 static FbleValue* NewValueRaw(FbleValueHeap* heap, ValueTag tag, size_t size);
 static FbleValue* NewGcValueRaw(FbleValueHeap* heap, Frame* frame, ValueTag tag, size_t size);
 static void FreeGcValue(FbleValue* value);
@@ -361,9 +362,13 @@ static FbleValue* StrictValue(FbleValue* value);
 /**
  * @struct[Chunk] A chunk of allocated stack space.
  *  @field[Chunk*][next] The next chunk in the list.
+ *  @field[size_t][size]
+ *   The size of the chunk in bytes. CHUNK_SIZE except for chunks allocated
+ *   for a single object too big to fit in CHUNK_SIZE.
  */
 typedef struct Chunk {
   struct Chunk* next;
+  size_t size;
 } Chunk;
 
 /**
@@ -611,16 +616,21 @@ static void* StackAlloc(FbleValueHeap* heap, size_t size)
   Frame* frame = heap->top;
   if (frame->max < frame->top + size) {
     Chunk* chunk = heap->chunks;
-    if (chunk == NULL) {
-      chunk = (Chunk*)FbleAllocRaw(CHUNK_SIZE);
+    if (chunk == NULL || size > CHUNK_SIZE - sizeof(Chunk)) {
+      size_t chunk_size = CHUNK_SIZE;
+      if (size > CHUNK_SIZE - sizeof(Chunk)) {
+        chunk_size = size + sizeof(Chunk);
+      }
+      chunk = (Chunk*)FbleAllocRaw(chunk_size);
+      chunk->size = chunk_size;
     } else {
       heap->chunks = chunk->next;
     }
 
     chunk->next = frame->chunks;
     frame->chunks = chunk;
-    frame->top = size + (intptr_t)(chunk + 1);
-    frame->max = CHUNK_SIZE + (intptr_t)chunk;
+    frame->top = (intptr_t)(chunk + 1);
+    frame->max = chunk->size + (intptr_t)chunk;
   }
 
   void* result = (void*)frame->top;
@@ -628,6 +638,28 @@ static void* StackAlloc(FbleValueHeap* heap, size_t size)
   return result;
 }
 
+/**
+ * @func[ReleaseChunks] Releases the stack chunks used by a frame.
+ *  @arg[FbleValueHeap*][heap] The heap the frame belongs to.
+ *  @arg[Frame*][frame] The frame to release the chunks of.
+ *  @sideeffects
+ *   Moves the frame's chunks to the heap's list of unused chunks, or frees
+ *   them if they are not of the standard size.
+ */
+static void ReleaseChunks(FbleValueHeap* heap, Frame* frame)
+{
+  while (frame->chunks != NULL) {
+    Chunk* chunk = frame->chunks;
+    frame->chunks = chunk->next;
+    if (chunk->size == CHUNK_SIZE) {
+      chunk->next = heap->chunks;
+      heap->chunks = chunk;
+    } else {
+      FbleFree(chunk);
+    }
+  }
+}
+
 /**
  * @func[NewValueRaw] Allocates a new value on the stack.
  *  @arg[FbleValueHeap*][heap] The heap to allocate to.
@@ -1123,12 +1155,7 @@ FbleValue* FblePopFrame(FbleValueHeap* heap, FbleValue* value)
     }
   }
 
-  while (top->chunks != NULL) {
-    Chunk* chunk = top->chunks;
-    top->chunks = chunk->next;
-    chunk->next = heap->chunks;
-    heap->chunks = chunk;
-  }
+  ReleaseChunks(heap, top);
 
   if (heap->gc.next == NULL || heap->gc.next == top) {
     heap->gc.next = heap->top;
@@ -1180,12 +1207,7 @@ static void CompactFrame(FbleValueHeap* heap, bool merge, size_t n, FbleValue**
 
   heap->top->top = (intptr_t)(heap->top + 1);
   heap->top->max = heap->top->caller->max;
-  while (heap->top->chunks != NULL) {
-    Chunk* chunk = heap->top->chunks;
-    heap->top->chunks = chunk->next;
-    chunk->next = heap->chunks;
-    heap->chunks = chunk;
-  }
+  ReleaseChunks(heap, heap->top);
 
   MoveAllTo(&heap->top->unmarked, &heap->top->marked);
   MoveAllTo(&heap->top->unmarked, &heap->top->alloced);
-- 
2.43.0


From f143f0540c4d155464c4020d123c4fc17fb5bbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:03 +0000
Subject: [PATCH 08/33] fix: Charge the root profile block once per sample

If the root block is itself called, its time was charged twice, which
made the report's times exceed the time sampled.
---
 lib/profile.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/profile.c b/lib/profile.c
index 6dad20d..619af6e 100644
--- a/lib/profile.c
+++ b/lib/profile.c
@@ -645,6 +645,11 @@ void FbleProfileSample(FbleProfileThread* thread, uint64_t time)
   // Charge calls in the stack for their time.
   bool block_seen[thread->profile->blocks.size];
   memset(block_seen, 0, thread->profile->blocks.size * sizeof(bool));
+
+  // The root block is always on the stack, whether or not something called it.
+  block_seen[FBLE_ROOT_BLOCK_ID] = true;
+  thread->profile->blocks.xs[FBLE_ROOT_BLOCK_ID]->block.time += time;
+
   for (size_t i = 0; i < thread->sample.size; ++i) {
     Sample* sample = thread->sample.xs + i;
     FbleCallData* data = sample->call;
@@ -655,8 +660,6 @@ void FbleProfileSample(FbleProfileThread* thread, uint64_t time)
     }
     data->time += time;
   }
-
-  thread->profile->blocks.xs[FBLE_ROOT_BLOCK_ID]->block.time += time;
 }
 
 // See documentation in fble-profile.h.
-- 
2.43.0


From 562050e142f41f41f49140d4bab7ab883b58b1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:38 +0000
Subject: [PATCH 09/33] fix: Use the main block for the main function of
 interpreted programs

It was attributed to the root block, so profiles of interpreted and
compiled programs differed.
---
 lib/link.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/link.c b/lib/link.c
index 7a331f7..b7fb27a 100644
--- a/lib/link.c
+++ b/lib/link.c
@@ -99,7 +99,7 @@ static FbleValue* LinkInterpreted(FbleValueHeap* heap, FbleProfile* profile, Fbl
   FbleAppendToVector(code->instrs, &return_instr->_base);
 
   // Wrap that all up into an FbleFuncValue.
-  FbleValue* linked = FbleNewInterpretedFuncValue(heap, code, 0, funcs);
+  FbleValue* linked = FbleNewInterpretedFuncValue(heap, code, main_id, funcs);
   FbleFreeCode(code);
   FbleFreeCompiledProgram(compiled);
   return linked;
-- 
2.43.0


From 9ff4959b19163f8f81e228890ca094de64817d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 10/33] fix: Don't enter a function again when calling it
 through a partial application

Calling a partially applied function entered the function's profile block
twice and nested an extra call on the C stack.
---
 lib/value.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/value.c b/lib/value.c
index d79b2ca..4423223 100644
--- a/lib/value.c
+++ b/lib/value.c
@@ -1505,7 +1505,11 @@ static FbleValue* PartialApplyImpl(
   FbleValue* nargs[argc];
   memcpy(nargs, function->statics + 1, s * sizeof(FbleValue*));
   memcpy(nargs + s, args, a * sizeof(FbleValue*));
-  return FbleCall(heap, profile, function->statics[0], argc, nargs);
+
+  // The caller already entered the profiling block and pushed the frame that
+  // we need to run the function.
+  FbleFunction* func = FbleFuncValueFunction(function->statics[0]);
+  return func->executable.run(heap, profile, func, nargs);
 }
 
 /**
-- 
2.43.0


From ff38d8a5ad30a127c3c4d0960ef7564b8b79bfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:12 +0000
Subject: [PATCH 11/33] fix: Tail call a function's result with the arguments
 it didn't take

Looping with tail calls that pass more arguments than the function takes
used space on the C stack for every iteration.
---
 lib/value.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/value.c b/lib/value.c
index 4423223..0fc0a9e 100644
--- a/lib/value.c
+++ b/lib/value.c
@@ -1597,6 +1597,12 @@ static FbleValue* TailCall(FbleValueHeap* heap, FbleProfileThread* profile)
       EnsureTailCallArgsSpace(gTailCallData.argc + num_unused);
       memcpy(gTailCallData.func_and_args + 1 + gTailCallData.argc, unused, num_unused * sizeof(FbleValue*));
       gTailCallData.argc += num_unused;
+    } else if (num_unused > 0 && FbleFuncValueFunction(result) != NULL) {
+      // Tail call the result with the unused args.
+      EnsureTailCallArgsSpace(num_unused);
+      gTailCallData.argc = num_unused;
+      gTailCallData.func_and_args[0] = result;
+      memcpy(gTailCallData.func_and_args + 1, unused, num_unused * sizeof(FbleValue*));
     } else if (num_unused > 0 && result != NULL) {
       return FblePopFrame(heap, FbleCall(heap, profile, result, num_unused, unused));
     } else {
-- 
2.43.0


From c5f7205771de1f57278ff8345dfe426b1ae9bb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:59 +0000
Subject: [PATCH 12/33] fix: Bound the memory of recursion through function
 arguments

A loop that tail calls itself through an argument (or a partially applied
function) never compacted its frame, so it used memory proportional to the
number of iterations.
---
 lib/value.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/lib/value.c b/lib/value.c
index 0fc0a9e..c64379c 100644
--- a/lib/value.c
+++ b/lib/value.c
@@ -62,6 +62,9 @@
 // We can merge as many stack frames as we want, so long as we don't incur
 // more than constant memory overhead from doing so. In practice we merge 
 // all stack frames until we encounter a recursive function recursive call.
+// Because functions can also recurse by being passed as an argument to
+// themselves, we limit the number of calls whose allocations are shared with
+// any one frame.
 //
 // Garbage Collection
 // ------------------
@@ -359,6 +362,9 @@ static FbleValue* StrictValue(FbleValue* value);
 // We allocate memory for the stack in 1MB chunks.
 #define CHUNK_SIZE (1024 * 1024)
 
+// The most calls and tail calls that may share a frame with another call.
+#define MAX_SHARED 64
+
 /**
  * @struct[Chunk] A chunk of allocated stack space.
  *  @field[Chunk*][next] The next chunk in the list.
@@ -379,6 +385,9 @@ typedef struct Chunk {
  *   optimization, we avoid pushing and popping new frames for each function
  *   call. This keeps track of how many calls we've done without pushing a new
  *   frame.
+ *  @field[size_t][shared]
+ *   The number of calls and tail calls that have shared this frame since it
+ *   was pushed or compacted, including those that have returned already.
  *  @field[uint64_t][min_gen]
  *   Objects allocated before entering this stack frame have generation less
  *   than min_gen.
@@ -408,6 +417,7 @@ typedef struct Chunk {
 struct Frame {
   struct Frame* caller;
   size_t merges;
+  size_t shared;
 
   uint64_t min_gen;
   uint64_t gen;
@@ -1018,6 +1028,7 @@ FbleValueHeap* FbleNewValueHeap()
 
   heap->top->caller = NULL;
   heap->top->merges = 0;
+  heap->top->shared = 0;
   heap->top->min_gen = 0;
   heap->top->gen = 0;
   heap->top->max_gen = 1;
@@ -1079,10 +1090,12 @@ void FbleFreeValueHeap(FbleValueHeap* heap)
 }
 
 // See documentation of FblePushFrame in fble-value.h
-// If merge is true, reuse the same allocation space as the caller frame.
+// If merge is true, reuse the same allocation space as the caller frame, unless
+// too many calls have shared that already.
 static void PushFrame(FbleValueHeap* heap, bool merge)
 {
-  if (merge) {
+  if (merge && heap->top->shared < MAX_SHARED) {
+    heap->top->shared++;
     heap->top->merges++;
     return;
   }
@@ -1093,6 +1106,7 @@ static void PushFrame(FbleValueHeap* heap, bool merge)
   Clear(&callee->marked);
   Clear(&callee->alloced);
   callee->merges = 0;
+  callee->shared = 0;
   callee->min_gen = heap->top->max_gen;
   callee->gen = heap->top->max_gen;
   callee->max_gen = callee->gen + 1;
@@ -1170,7 +1184,9 @@ FbleValue* FblePopFrame(FbleValueHeap* heap, FbleValue* value)
  *  the given list of saved values.
  *
  *  @arg[FbleValueHeap*][heap] The heap.
- *  @arg[bool][merge] If true, skip compaction.
+ *  @arg[bool][merge]
+ *   If true, skip compaction, unless too many calls have shared the frame
+ *   already.
  *  @arg[size_t][n] The number of save values.
  *  @arg[FbleValue**][save] Values to save.
  *
@@ -1181,7 +1197,8 @@ FbleValue* FblePopFrame(FbleValueHeap* heap, FbleValue* value)
  */
 static void CompactFrame(FbleValueHeap* heap, bool merge, size_t n, FbleValue** save)
 {
-  if (merge) {
+  if (merge && heap->top->shared < MAX_SHARED) {
+    heap->top->shared++;
     return;
   }
 
@@ -1197,6 +1214,7 @@ static void CompactFrame(FbleValueHeap* heap, bool merge, size_t n, FbleValue**
     save[i] = GcRealloc(heap, save[i]);
   }
 
+  heap->top->shared = 0;
   heap->top->gen = heap->top->max_gen;
   heap->top->max_gen = heap->top->gen + 1;
 
-- 
2.43.0


From 3e02be69d96c75016331ab49eea8deaae4c0d399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:49 +0000
Subject: [PATCH 13/33] fix: Don't require a select to have targets other than
 its default

Selecting from a union with a single field compiles to a select whose
only branch is the default.
---
 lib/interpret.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/interpret.c b/lib/interpret.c
index 992dc5d..4a6cc47 100644
--- a/lib/interpret.c
+++ b/lib/interpret.c
@@ -165,7 +165,6 @@ static FbleValue* Interpret(
         }
 
         // Binary search for the matching tag.
-        assert(select_instr->targets.size > 0);
         size_t target = select_instr->default_;
         size_t lo = 0;
         size_t hi = select_instr->targets.size;
-- 
2.43.0


From 75316b3aa6f5d81cc36b4e8271afa1414de5f37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:57 +0000
Subject: [PATCH 14/33] fix: Reject modules and module paths followed by other
 text

The parser reported the error, but the result was used anyway.
---
 lib/parse.y | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/parse.y b/lib/parse.y
index 247419c..a9cd9d2 100644
--- a/lib/parse.y
+++ b/lib/parse.y
@@ -933,8 +933,14 @@ FbleExpr* FbleParse(FbleString* filename, FbleModulePathV* deps)
     .start_token = PARSE_PROGRAM
   };
   FbleExpr* result = NULL;
-  yyparse(&lex, &result, deps);
+  int error = yyparse(&lex, &result, deps);
   fclose(fin);
+
+  // The parser sets the result before it knows nothing else follows.
+  if (error != 0 && result != NULL) {
+    FbleFreeExpr(result);
+    return NULL;
+  }
   return result;
 }
 
@@ -957,13 +963,17 @@ FbleModulePath* FbleParseModulePath(const char* string)
 
   FbleModulePathV path;
   FbleInitVector(path);
-  yyparse(&lex, NULL, &path);
+  int error = yyparse(&lex, NULL, &path);
   FbleFreeLoc(lex.loc);
 
   FbleModulePath* result = NULL;
   assert(path.size < 2);
   if (path.size > 0) {
     result = path.xs[0];
+    if (error != 0) {
+      FbleFreeModulePath(result);
+      result = NULL;
+    }
   }
   FbleFreeVector(path);
   return result;
-- 
2.43.0


From cb37af535b75d8eb981241818c2864c2973a0fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:15 +0000
Subject: [PATCH 15/33] fix: Don't take a NUL character in a module for the end
 of the file

---
 lib/parse.y | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/parse.y b/lib/parse.y
index a9cd9d2..9d55c70 100644
--- a/lib/parse.y
+++ b/lib/parse.y
@@ -852,6 +852,11 @@ static int yylex(YYSTYPE* lvalp, YYLTYPE* llocp, Lex* lex)
     return END;
   }
 
+  if (lex->c == '\0') {
+    ReadNextChar(lex);
+    return YYUNDEF;
+  }
+
   if (IsPunctuationChar(lex->c)) {
     int c = lex->c;
     ReadNextChar(lex);
-- 
2.43.0


From e8ee457dc15434272dcdf15dadf82c28d941336f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:35 +0000
Subject: [PATCH 16/33] fix: Don't crash on a struct copy whose argument fails
 to type check

---
 lib/typecheck.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/typecheck.c b/lib/typecheck.c
index 4464903..505bbba 100644
--- a/lib/typecheck.c
+++ b/lib/typecheck.c
@@ -1318,6 +1318,10 @@ static Tc TypeCheckExprWithCleaner(FbleTypeHeap* th, Scope* scope, FbleExpr* exp
         error = error || (args[j].type == NULL);
       }
 
+      if (error) {
+        return TC_FAILED;
+      }
+
       size_t fieldc = struct_type->fields.size;
       FbleStructCopyTc* struct_copy = FbleNewTc(FbleStructCopyTc, FBLE_STRUCT_COPY_TC, expr->loc);
       struct_copy->source = FbleCopyTc(src.tc);
-- 
2.43.0


From aba669ecf0c279cad849474307621cadf4794f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:52 +0000
Subject: [PATCH 17/33] fix: Don't overflow a buffer compiling non-ASCII names

The bytes of a non-ASCII character are negative where char is signed, and
the label made of them was longer than the buffer it was written to.
---
 lib/aarch64.c | 4 ++--
 lib/c.c       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/aarch64.c b/lib/aarch64.c
index 0ef546c..e3cbdec 100644
--- a/lib/aarch64.c
+++ b/lib/aarch64.c
@@ -1118,7 +1118,7 @@ static void SanitizeString(const char* str, char* dst)
   dst[0] = '\0';
   for (const char* p = str; *p != '\0'; p++) {
     char x[5];
-    sprintf(x, isalnum((unsigned char)*p) ? "%c" : "_%02x_", *p);
+    sprintf(x, isalnum((unsigned char)*p) ? "%c" : "_%02x_", (unsigned char)*p);
     strcat(dst, x);
   }
 }
@@ -1172,7 +1172,7 @@ static FbleString* LabelForPath(FbleModulePath* path)
         sprintf(translated, "%c", *p);
         strcat(name, translated);
       } else {
-        sprintf(translated, "_%02x_", *p);
+        sprintf(translated, "_%02x_", (unsigned char)*p);
         strcat(name, translated);
       }
     }
diff --git a/lib/c.c b/lib/c.c
index b8510b5..08f13f9 100644
--- a/lib/c.c
+++ b/lib/c.c
@@ -613,7 +613,7 @@ static void SanitizeString(const char* str, char* dst)
   dst[0] = '\0';
   for (const char* p = str; *p != '\0'; p++) {
     char x[5];
-    sprintf(x, isalnum((unsigned char)*p) ? "%c" : "_%02x_", *p);
+    sprintf(x, isalnum((unsigned char)*p) ? "%c" : "_%02x_", (unsigned char)*p);
     strcat(dst, x);
   }
 }
@@ -666,7 +666,7 @@ static FbleString* LabelForPath(FbleModulePath* path)
         sprintf(translated, "%c", *p);
         strcat(name, translated);
       } else {
-        sprintf(translated, "_%02x_", *p);
+        sprintf(translated, "_%02x_", (unsigned char)*p);
         strcat(name, translated);
       }
     }
-- 
2.43.0


From b416a996128d3861ac5501964a80a8911e776a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:12 +0000
Subject: [PATCH 18/33] fix: Escape the source path in the generated C code

A path with a double quote made the generated code not compile, and the
path was used as part of a format string.
---
 lib/c.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/c.c b/lib/c.c
index 08f13f9..be2f304 100644
--- a/lib/c.c
+++ b/lib/c.c
@@ -700,8 +700,9 @@ void FbleGenerateC(FILE* fout, FbleCompiledModule* module)
 
   fprintf(fout, "static void ReportAbort(const char* msg, int line, int col)\n");
   fprintf(fout, "{\n");
-  fprintf(fout, "  fprintf(stderr, \"%s:%%d:%%d: error: %%s\\n\", line, col, msg);\n",
-      module->path->loc.source->str);
+  fprintf(fout, "  fprintf(stderr, \"%%s:%%d:%%d: error: %%s\\n\", ");
+  StringLit(fout, module->path->loc.source->str);
+  fprintf(fout, ", line, col, msg);\n");
   fprintf(fout, "}\n");
 
   // Generate prototypes for all the run functions.
-- 
2.43.0


From 34379ef37d9da23d499c38d2dc58365e08ef292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:19 +0000
Subject: [PATCH 19/33] fix: Allow abstract casts whatever package type
 expression is used

Whether a cast was allowed depended on the abstract type having been made
from the same package type object as the cast, not from the same package.
---
 lib/type.c      | 46 ++++++++++++++++++++++++++++------------------
 lib/type.h      | 25 +++++++++++++++++++------
 lib/typecheck.c |  8 +-------
 3 files changed, 48 insertions(+), 31 deletions(-)

diff --git a/lib/type.c b/lib/type.c
index 39bc904..7211cad 100644
--- a/lib/type.c
+++ b/lib/type.c
@@ -59,7 +59,7 @@ static FbleType* Normal(FbleTypeHeap* heap, FbleType* type, TypeList* normalizin
 static bool HasParam(FbleType* type, FbleType* param);
 static bool HasParam_(FbleType* type, FbleType* param);
 static FbleType* Subst(FbleTypeHeap* heap, FbleType* src, FbleType* param, FbleType* arg, TypePairs* tps);
-static bool TypesEqual(FbleTypeHeap* heap, FbleTypeAssignmentV vars, FbleType* a, FbleType* b, TypePairs* eq);
+static bool TypesEqual(FbleTypeHeap* heap, FbleTypeAssignmentV vars, FbleModulePath* open, FbleType* a, FbleType* b, TypePairs* eq);
 
 /**
  * @func[LevelAdjustedKind]
@@ -580,6 +580,9 @@ static FbleType* Subst(FbleTypeHeap* heap, FbleType* type, FbleType* param, Fble
  * @func[TypesEqual] Infers types and checks for type equality.
  *  @arg[FbleTypeHeap*][heap] Heap to use for allocations
  *  @arg[FbleTypeAssignmentV][vars] Variables for type inference.
+ *  @arg[FbleModulePath*][open]
+ *   The path of the package whose abstract types are considered equal to their
+ *   underlying types. May be NULL.
  *  @arg[FbleType*][a] The first type, abstract in the type variables. Borrowed.
  *  @arg[FbleType*][b] The second type, which should be concrete. Borrowed.
  *  @arg[TypePairs*][eq]
@@ -591,7 +594,7 @@ static FbleType* Subst(FbleTypeHeap* heap, FbleType* type, FbleType* param, Fble
  *  @sideeffects
  *   Sets value of assignments to type variables to make the types equal.
  */
-static bool TypesEqual(FbleTypeHeap* heap, FbleTypeAssignmentV vars, FbleType* a, FbleType* b, TypePairs* eq)
+static bool TypesEqual(FbleTypeHeap* heap, FbleTypeAssignmentV vars, FbleModulePath* open, FbleType* a, FbleType* b, TypePairs* eq)
 {
   a = FbleNormalType(heap, a);
 
@@ -628,12 +631,12 @@ static bool TypesEqual(FbleTypeHeap* heap, FbleTypeAssignmentV vars, FbleType* a
     .next = eq,
   };
 
-  // For abstract cast, compare underlying types if the package types aren't
-  // opaque.
+  // For abstract cast, compare underlying types if the abstract types
+  // belong to the open package.
   if (a->tag == FBLE_ABSTRACT_TYPE) {
     FbleAbstractType* aa = (FbleAbstractType*)a;
-    if (!aa->package->opaque) {
-      bool equal = TypesEqual(heap, vars, aa->type, b, &neq);
+    if (open != NULL && FbleModulePathsEqual(aa->package->path, open)) {
+      bool equal = TypesEqual(heap, vars, open, aa->type, b, &neq);
       FbleReleaseType(heap, a);
       FbleReleaseType(heap, b);
       return equal;
@@ -642,8 +645,8 @@ static bool TypesEqual(FbleTypeHeap* heap, FbleTypeAssignmentV vars, FbleType* a
 
   if (b->tag == FBLE_ABSTRACT_TYPE) {
     FbleAbstractType* ab = (FbleAbstractType*)b;
-    if (!ab->package->opaque) {
-      bool equal = TypesEqual(heap, vars, a, ab->type, &neq);
+    if (open != NULL && FbleModulePathsEqual(ab->package->path, open)) {
+      bool equal = TypesEqual(heap, vars, open, a, ab->type, &neq);
       FbleReleaseType(heap, a);
       FbleReleaseType(heap, b);
       return equal;
@@ -674,7 +677,7 @@ static bool TypesEqual(FbleTypeHeap* heap, FbleTypeAssignmentV vars, FbleType* a
           return false;
         }
 
-        if (!TypesEqual(heap, vars, dta->fields.xs[i].type, dtb->fields.xs[i].type, &neq)) {
+        if (!TypesEqual(heap, vars, open, dta->fields.xs[i].type, dtb->fields.xs[i].type, &neq)) {
           FbleReleaseType(heap, a);
           FbleReleaseType(heap, b);
           return false;
@@ -690,8 +693,8 @@ static bool TypesEqual(FbleTypeHeap* heap, FbleTypeAssignmentV vars, FbleType* a
       FbleFuncType* fta = (FbleFuncType*)a;
       FbleFuncType* ftb = (FbleFuncType*)b;
 
-      bool result = TypesEqual(heap, vars, fta->arg, ftb->arg, &neq)
-        && TypesEqual(heap, vars, fta->rtype, ftb->rtype, &neq);
+      bool result = TypesEqual(heap, vars, open, fta->arg, ftb->arg, &neq)
+        && TypesEqual(heap, vars, open, fta->rtype, ftb->rtype, &neq);
 
       FbleReleaseType(heap, a);
       FbleReleaseType(heap, b);
@@ -719,7 +722,7 @@ static bool TypesEqual(FbleTypeHeap* heap, FbleTypeAssignmentV vars, FbleType* a
         .b = ptb->arg,
         .next = &neq
       };
-      bool result = TypesEqual(heap, vars, pta->body, ptb->body, &pneq);
+      bool result = TypesEqual(heap, vars, open, pta->body, ptb->body, &pneq);
       FbleReleaseType(heap, a);
       FbleReleaseType(heap, b);
       return result;
@@ -728,8 +731,8 @@ static bool TypesEqual(FbleTypeHeap* heap, FbleTypeAssignmentV vars, FbleType* a
     case FBLE_POLY_APPLY_TYPE: {
       FblePolyApplyType* pa = (FblePolyApplyType*)a;
       FblePolyApplyType* pb = (FblePolyApplyType*)b;
-      bool result = TypesEqual(heap, vars, pa->poly, pb->poly, &neq)
-                 && TypesEqual(heap, vars, pa->arg, pb->arg, &neq);
+      bool result = TypesEqual(heap, vars, open, pa->poly, pb->poly, &neq)
+                 && TypesEqual(heap, vars, open, pa->arg, pb->arg, &neq);
       FbleReleaseType(heap, a);
       FbleReleaseType(heap, b);
       return result;
@@ -747,8 +750,8 @@ static bool TypesEqual(FbleTypeHeap* heap, FbleTypeAssignmentV vars, FbleType* a
     case FBLE_ABSTRACT_TYPE: {
       FbleAbstractType* aa = (FbleAbstractType*)a;
       FbleAbstractType* ab = (FbleAbstractType*)b;
-      bool result = TypesEqual(heap, vars, &aa->package->_base, &ab->package->_base, &neq)
-                 && TypesEqual(heap, vars, aa->type, ab->type, &neq);
+      bool result = TypesEqual(heap, vars, open, &aa->package->_base, &ab->package->_base, &neq)
+                 && TypesEqual(heap, vars, open, aa->type, ab->type, &neq);
       FbleReleaseType(heap, a);
       FbleReleaseType(heap, b);
       return result;
@@ -767,7 +770,7 @@ static bool TypesEqual(FbleTypeHeap* heap, FbleTypeAssignmentV vars, FbleType* a
     case FBLE_TYPE_TYPE: {
       FbleTypeType* tta = (FbleTypeType*)a;
       FbleTypeType* ttb = (FbleTypeType*)b;
-      bool result = TypesEqual(heap, vars, tta->type, ttb->type, &neq);
+      bool result = TypesEqual(heap, vars, open, tta->type, ttb->type, &neq);
       FbleReleaseType(heap, a);
       FbleReleaseType(heap, b);
       return result;
@@ -1112,7 +1115,14 @@ bool FbleTypesEqual(FbleTypeHeap* heap, FbleType* a, FbleType* b)
 // See documentation in type.h.
 bool FbleTypeInfer(FbleTypeHeap* heap, FbleTypeAssignmentV vars, FbleType* abstract, FbleType* concrete)
 {
-  return TypesEqual(heap, vars, abstract, concrete, NULL);
+  return TypesEqual(heap, vars, NULL, abstract, concrete, NULL);
+}
+
+// See documentation in type.h.
+bool FbleTypesCastable(FbleTypeHeap* heap, FbleModulePath* package, FbleType* a, FbleType* b)
+{
+  FbleTypeAssignmentV vars = { .size = 0, .xs = NULL };
+  return TypesEqual(heap, vars, package, a, b, NULL);
 }
 
 // See documentation in type.h
diff --git a/lib/type.h b/lib/type.h
index 13ccaa6..b6f1464 100644
--- a/lib/type.h
+++ b/lib/type.h
@@ -105,16 +105,10 @@ typedef struct {
  * @struct[FblePackageType] A package type.
  *  @field[FbleType][_base] FbleType base class.
  *  @field[FbleMOdulePath*][path] The package path.
- *  @field[bool][opaque]
- *   Helper flag. Used to control whether or not an abstract type associated
- *   with this package type is considered equal to its underlying type. It is
- *   temporarily set to false while testing type equality for abstract cast
- *   expressions.
  */
 typedef struct {
   FbleType _base;
   FbleModulePath* path;
-  bool opaque;
 } FblePackageType;
 
 /**
@@ -537,6 +531,25 @@ FbleType* FbleListElementType(FbleTypeHeap* heap, FbleType* type);
  */
 bool FbleTypesEqual(FbleTypeHeap* heap, FbleType* a, FbleType* b);
 
+/**
+ * @func[FbleTypesCastable] Tests whether types are equal within a package.
+ *  Abstract types of the package are considered equal to their underlying
+ *  types.
+ *
+ *  @arg[FbleTypeHeap*][heap] Heap to use for allocations.
+ *  @arg[FbleModulePath*][package] The path of the package.
+ *  @arg[FbleType*][a] The first type
+ *  @arg[FbleType*][b] The second type
+ *
+ *  @returns[bool]
+ *   True if a value of one type can be cast to the other type within the
+ *   package.
+ *
+ *  @sideeffects
+ *   None.
+ */
+bool FbleTypesCastable(FbleTypeHeap* heap, FbleModulePath* package, FbleType* a, FbleType* b);
+
 /**
  * @func[FbleTypeInfer] Infers type values.
  *  Infers type values for the given type variables to make the abstract type
diff --git a/lib/typecheck.c b/lib/typecheck.c
index 505bbba..2f555ce 100644
--- a/lib/typecheck.c
+++ b/lib/typecheck.c
@@ -1852,12 +1852,7 @@ static Tc TypeCheckExprWithCleaner(FbleTypeHeap* th, Scope* scope, FbleExpr* exp
         return TC_FAILED;
       }
 
-      assert(package->opaque);
-      package->opaque = false;
-      bool legal = FbleTypesEqual(th, target, value.type);
-      package->opaque = true;
-
-      if (!legal) {
+      if (!FbleTypesCastable(th, package->path, target, value.type)) {
         ReportError(expr->loc, "cannot cast value of type %t to %t\n", value.type, target);
         return TC_FAILED;
       }
@@ -2238,7 +2233,6 @@ static FbleType* TypeCheckTypeWithCleaner(FbleTypeHeap* th, Scope* scope, FbleTy
       FblePackageTypeExpr* e = (FblePackageTypeExpr*)type;
       FblePackageType* t = FbleNewType(th, FblePackageType, FBLE_PACKAGE_TYPE, type->loc);
       t->path = FbleCopyModulePath(e->path);
-      t->opaque = true;
       return &t->_base;
     }
 
-- 
2.43.0


From f5e1c593aa6b8efe353fdbcd2e5d2effdb7dabb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:39 +0000
Subject: [PATCH 20/33] fix: Don't infer types that depend on parameters of an
 inner type

The inferred type referred to the type parameter of the polymorphic type of
the argument outside of that type, and the argument was accepted.
---
 lib/type.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/type.c b/lib/type.c
index 7211cad..ed6be26 100644
--- a/lib/type.c
+++ b/lib/type.c
@@ -603,8 +603,14 @@ static bool TypesEqual(FbleTypeHeap* heap, FbleTypeAssignmentV vars, FbleModuleP
     if (a == vars.xs[i].var) {
       FbleReleaseType(heap, a);
 
-      // We can infer the value of type a is b.
+      // We can infer the value of type a is b, unless b depends on a type
+      // parameter of a polymorphic type that we are inside of.
       if (vars.xs[i].value == NULL) {
+        for (TypePairs* pairs = eq; pairs != NULL; pairs = pairs->next) {
+          if (pairs->b->tag == FBLE_VAR_TYPE && HasParam(b, pairs->b)) {
+            return false;
+          }
+        }
         vars.xs[i].value = FbleRetainType(heap, b);
         return true;
       }
-- 
2.43.0


From b537df1fb484005ed735edc5090871421a42d9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:41 +0000
Subject: [PATCH 21/33] fix: Only eta-reduce polymorphic types whose function
 doesn't use the parameter

Eta-reducing <@ T@> { M@<T@, T@>; } to M@<T@> made T@ escape, so that types
that are equal were found to be different.
---
 lib/type.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/type.c b/lib/type.c
index ed6be26..38874a0 100644
--- a/lib/type.c
+++ b/lib/type.c
@@ -259,16 +259,24 @@ static FbleType* Normal(FbleTypeHeap* heap, FbleType* type, TypeList* normalizin
     case FBLE_POLY_TYPE: {
       FblePolyType* poly = (FblePolyType*)type;
 
-      // eta-reduce (\x -> f x) ==> f
+      // eta-reduce (\x -> f x) ==> f, if x does not occur in f.
       FblePolyApplyType* pat = (FblePolyApplyType*)Normal(heap, poly->body, &nn);
       if (pat == NULL) {
         return NULL;
       }
 
-      if (pat->_base.tag == FBLE_POLY_APPLY_TYPE && pat->arg == poly->arg) {
-        FbleType* normal = FbleRetainType(heap, pat->poly);
-        FbleReleaseType(heap, &pat->_base);
-        return normal;
+      if (pat->_base.tag == FBLE_POLY_APPLY_TYPE && !HasParam(pat->poly, poly->arg)) {
+        FbleType* arg = Normal(heap, pat->arg, &nn);
+        bool reduce = (arg == poly->arg);
+        if (arg != NULL) {
+          FbleReleaseType(heap, arg);
+        }
+
+        if (reduce) {
+          FbleType* normal = FbleRetainType(heap, pat->poly);
+          FbleReleaseType(heap, &pat->_base);
+          return normal;
+        }
       }
 
       FbleReleaseType(heap, &pat->_base);
-- 
2.43.0


From c3b630a6c0455a9249bf45311bc7173948f968b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:34 +0000
Subject: [PATCH 22/33] fix: Substitute the argument of a poly apply type at
 most once

A type that refers back to itself through the argument of a polymorphic type,
such as @ E@ = P@<E@>, had a new normal form each time it was normalized, so
comparing it to another type recursed without bound.
---
 lib/type.c | 13 ++++++++++---
 lib/type.h |  5 +++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/type.c b/lib/type.c
index 38874a0..e8ec7c6 100644
--- a/lib/type.c
+++ b/lib/type.c
@@ -160,6 +160,7 @@ void FbleTypeRefs(FbleTypeHeap* heap, FbleType* type)
       FblePolyApplyType* pat = (FblePolyApplyType*)type;
       Ref(heap, type, pat->poly);
       Ref(heap, type, pat->arg);
+      Ref(heap, type, pat->subst);
       break;
     }
 
@@ -291,10 +292,14 @@ static FbleType* Normal(FbleTypeHeap* heap, FbleType* type, TypeList* normalizin
       }
 
       if (poly->_base.tag == FBLE_POLY_TYPE) {
-        FbleType* subst = Subst(heap, poly->body, poly->arg, pat->arg, NULL);
-        FbleType* result = Normal(heap, subst, &nn);
+        if (pat->subst == NULL) {
+          pat->subst = Subst(heap, poly->body, poly->arg, pat->arg, NULL);
+          FbleTypeAddRef(heap, &pat->_base, pat->subst);
+          FbleReleaseType(heap, pat->subst);
+        }
+
+        FbleType* result = Normal(heap, pat->subst, &nn);
         FbleReleaseType(heap, &poly->_base);
-        FbleReleaseType(heap, subst);
         return result;
       }
 
@@ -509,6 +514,7 @@ static FbleType* Subst(FbleTypeHeap* heap, FbleType* type, FbleType* param, Fble
       FbleType* sarg = Subst(heap, pat->arg, param, arg, tps);
 
       FblePolyApplyType* spat = FbleNewType(heap, FblePolyApplyType, FBLE_POLY_APPLY_TYPE, pat->_base.loc);
+      spat->subst = NULL;
       spat->poly = poly;
       FbleTypeAddRef(heap, &spat->_base, spat->poly);
       spat->arg = sarg;
@@ -1028,6 +1034,7 @@ FbleType* FbleNewPolyApplyType(FbleTypeHeap* heap, FbleLoc loc, FbleType* poly,
   }
 
   FblePolyApplyType* pat = FbleNewType(heap, FblePolyApplyType, FBLE_POLY_APPLY_TYPE, loc);
+  pat->subst = NULL;
   pat->poly = poly;
   FbleTypeAddRef(heap, &pat->_base, pat->poly);
   pat->arg = arg;
diff --git a/lib/type.h b/lib/type.h
index b6f1464..37426b3 100644
--- a/lib/type.h
+++ b/lib/type.h
@@ -182,11 +182,16 @@ typedef struct {
  *  @field[FbleType][_base] FbleType base class.
  *  @field[FbleType*][poly] The poly to apply.
  *  @field[FbleType*][arg] Argument to the poly.
+ *  @field[FbleType*][subst]
+ *   The body of the poly with arg substituted for its parameter. NULL if that
+ *   hasn't been computed yet. We compute it at most once, so that a type which
+ *   refers back to itself through the argument has finitely many normal forms.
  */
 typedef struct {
   FbleType _base;
   FbleType* poly;
   FbleType* arg;
+  FbleType* subst;
 } FblePolyApplyType;
 
 /**
-- 
2.43.0


From b90264cfe3e54af37903a1ac64da7771b0bfd438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:35 +0000
Subject: [PATCH 23/33] fix: accept the most negative 64-bit integer in
 FbleNewIntValue

Negating INT64_MIN overflows, and the assertion that the magnitude is positive
failed. Compute magnitudes as unsigned 64-bit integers.
---
 pkgs/core/int.fble.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkgs/core/int.fble.c b/pkgs/core/int.fble.c
index 06c9ed0..160b8d0 100644
--- a/pkgs/core/int.fble.c
+++ b/pkgs/core/int.fble.c
@@ -9,13 +9,13 @@
 
 #include <fble/fble-value.h>   // for FbleValue, etc.
 
-static FbleValue* MakeIntP(FbleValueHeap* heap, int64_t x);
-static int64_t ReadIntP(FbleValue* num);
+static FbleValue* MakeIntP(FbleValueHeap* heap, uint64_t x);
+static uint64_t ReadIntP(FbleValue* num);
 
 /**
  * @func[MakeIntP] Makes an FbleValue of type @l{/Core/Int/Core/IntP%.IntP@}.
  *  @arg[FbleValueHeap*][heap] The heap to use for allocations.
- *  @arg[int64_t][x] The integer value. Must be greater than 0.
+ *  @arg[uint64_t][x] The integer value. Must be greater than 0.
  *
  *  @returns[FbleValue*]
  *   An FbleValue for the integer.
@@ -23,7 +23,7 @@ static int64_t ReadIntP(FbleValue* num);
  *  @sideeffects
  *   Allocates a value on the heap.
  */
-static FbleValue* MakeIntP(FbleValueHeap* heap, int64_t x)
+static FbleValue* MakeIntP(FbleValueHeap* heap, uint64_t x)
 {
   assert(x > 0);
   if (x == 1) {
@@ -38,14 +38,14 @@ static FbleValue* MakeIntP(FbleValueHeap* heap, int64_t x)
  * @func[ReadIntP] Reads a number of type @l{/Core/Int/Core/IntP%.IntP@}.
  *  @arg[FbleValue*][x] The value of the number.
  *
- *  @returns[int64_t]
+ *  @returns[uint64_t]
  *   The number x represented as an integer.
  *
  *  @sideeffects
  *   Behavior is undefined if the int value cannot be represented using the C
  *   int64_t type, for example because it is too large.
  */
-static int64_t ReadIntP(FbleValue* x)
+static uint64_t ReadIntP(FbleValue* x)
 {
   switch (FbleUnionValueTag(x)) {
     case 0: return 1;
@@ -59,7 +59,7 @@ static int64_t ReadIntP(FbleValue* x)
 FbleValue* FbleNewIntValue(FbleValueHeap* heap, int64_t x)
 {
   if (x < 0) {
-    FbleValue* p = MakeIntP(heap, -x);
+    FbleValue* p = MakeIntP(heap, -(uint64_t)x);
     FbleValue* result = FbleNewUnionValue(heap, 0, p);
     return result;
   }
-- 
2.43.0


From cf97eaa27be1f22dce7b6e3b6e2f6a16575e5281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:59 +0000
Subject: [PATCH 24/33] fix: fble-compile: print usage errors to stderr, not
 into the output

---
 bin/fble-compile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/fble-compile.c b/bin/fble-compile.c
index fa06b97..4e1e927 100644
--- a/bin/fble-compile.c
+++ b/bin/fble-compile.c
@@ -77,7 +77,7 @@ int main(int argc, const char* argv[])
   }
 
   if (error) {
-    fprintf(stdout, "Try --help for usage.\n");
+    fprintf(stderr, "Try --help for usage.\n");
     FbleFreeModuleArg(module_arg);
     return EX_USAGE;
   }
-- 
2.43.0


From ab7c319d0352f21910b9f4242e66419dd0e1ae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:59 +0000
Subject: [PATCH 25/33] fix: fble-perf-profile: reject unknown arguments
 instead of looping forever

---
 bin/fble-perf-profile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/fble-perf-profile.c b/bin/fble-perf-profile.c
index cb4d1b3..054a93d 100644
--- a/bin/fble-perf-profile.c
+++ b/bin/fble-perf-profile.c
@@ -165,6 +165,7 @@ int main(int argc, const char* argv[])
     }
     if (FbleParseBoolArg("-v", &version, &argc, &argv, &error)) continue;
     if (FbleParseBoolArg("--version", &version, &argc, &argv, &error)) continue;
+    if (FbleParseInvalidArg(&argc, &argv, &error)) continue;
   }
 
   if (version) {
-- 
2.43.0


From cb08f6bbb27d6986eeeeb5311cb7750c3be96ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:59 +0000
Subject: [PATCH 26/33] fix: fble-perf-profile: leave room for the terminator
 of a line

---
 bin/fble-perf-profile.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/bin/fble-perf-profile.c b/bin/fble-perf-profile.c
index 054a93d..1df7c7a 100644
--- a/bin/fble-perf-profile.c
+++ b/bin/fble-perf-profile.c
@@ -29,11 +29,28 @@ typedef struct {
   const char** xs;
 } StringV;
 
+static void Append(String* line, char c);
 static bool GetLine(FILE* file, String* line);
 static FbleBlockId GetBlockId(FbleProfile* profile, char* name);
 static void Sample(FbleProfile* profile, FbleProfileThread* thread, StringV* squashes, int count, char* s);
 int main(int argc, const char* argv[]);
 
+/**
+ * @func[Append] Adds a character to the end of a line.
+ *  @arg[String*][line] The line to add to.
+ *  @arg[char][c] The character to add.
+ *  @sideeffects
+ *   Adds the character to the line, growing the line's buffer if needed.
+ */
+static void Append(String* line, char c)
+{
+  if (line->size == line->capacity) {
+    line->capacity = 2 * (line->capacity + 1);
+    line->chars = realloc(line->chars, line->capacity * sizeof(char));
+  }
+  line->chars[line->size++] = c;
+}
+
 /**
  * @func[GetLine] Reads a line of input from a file.
  *  @arg[FILE*][file] The file to read from.
@@ -48,14 +65,13 @@ static bool GetLine(FILE* file, String* line)
 
   int c = fgetc(file);
   while (c != EOF && c != '\n') {
-    if (line->size == line->capacity) {
-      line->capacity = 2 * (line->capacity + 1);
-      line->chars = realloc(line->chars, line->capacity * sizeof(char));
-    }
-    line->chars[line->size++] = c;
+    Append(line, c);
     c = fgetc(file);
   }
-  line->chars[line->size] = '\0';
+
+  // Add the terminating nul without counting it in the size of the line.
+  Append(line, '\0');
+  line->size--;
   return c == '\n';
 }
 
-- 
2.43.0


From a01eb0c37f085db5f67934942c7370e0b2309479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:59 +0000
Subject: [PATCH 27/33] fix: fble-perf-profile: free the profile when the
 report can't be parsed

---
 bin/fble-perf-profile.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/fble-perf-profile.c b/bin/fble-perf-profile.c
index 1df7c7a..5935c04 100644
--- a/bin/fble-perf-profile.c
+++ b/bin/fble-perf-profile.c
@@ -223,6 +223,9 @@ int main(int argc, const char* argv[])
     int count;
     if (sscanf(line.chars, "%i", &count) != 1) {
       fprintf(stderr, "Unable to parse profile report.\n");
+      free(line.chars);
+      FbleFreeProfileThread(thread);
+      FbleFreeProfile(profile);
       FbleFree(squashes.xs);
       return EX_FAIL;
     }
-- 
2.43.0


From 42afd1c0b2d8c5fddadc75d7d8c024dc0276f6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:59 +0000
Subject: [PATCH 28/33] fix: fbld: don't abort on an input file that can't be
 opened

---
 fbld/parse.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/fbld/parse.c b/fbld/parse.c
index 6c5c568..7858a4f 100644
--- a/fbld/parse.c
+++ b/fbld/parse.c
@@ -3,7 +3,6 @@
 #include <ctype.h>    // for isalnum
 #include <stdbool.h>  // for false
 #include <stdio.h>    // for FILE, feof, etc.
-#include <stdlib.h>   // for abort
 #include <string.h>   // for strcpy
 
 #include "alloc.h"
@@ -25,6 +24,7 @@ const char END = '\x03';
  *  @field[char*][next] A buffer for storing the next characters in the input.
  *  @field[size_t][next_size] The number of characters in next.
  *  @field[size_t][next_capacity] The allocated size of next.
+ *  @field[bool][failed] True if an input file could not be opened.
  */
 typedef struct {
   const char** inputs;
@@ -36,6 +36,7 @@ typedef struct {
   char* next;
   size_t next_size;
   size_t next_capacity;
+  bool failed;
 } Lex;
 
 // The context we are parsing inline text from.
@@ -81,7 +82,7 @@ static char GetC(Lex* lex)
 
   while (lex->next_size == 0 && c == EOF) {
     const char* filename = *lex->inputs;
-    if (filename == NULL) {
+    if (filename == NULL || lex->failed) {
       // We've finished processing all the inputs.
       return END;
     }
@@ -97,8 +98,9 @@ static char GetC(Lex* lex)
     } else {
       lex->fin = fopen(filename, "r");
       if (lex->fin == NULL) {
-        fprintf(stderr, "ERROR: unable to open '%s' for reading\n", filename); 
-        abort();
+        fprintf(stderr, "ERROR: unable to open '%s' for reading\n", filename);
+        lex->failed = true;
+        return END;
       }
     }
     lex->loc.file = filename;
@@ -707,9 +709,14 @@ FbldMarkup* FbldParse(const char** inputs)
     .next = FbldAllocArray(char, 4),
     .next_size = 0,
     .next_capacity = 4,
+    .failed = false,
   };
 
   FbldMarkup* parsed = ParseBlock(&lex);
+  if (lex.failed) {
+    FbldFreeMarkup(parsed);
+    parsed = NULL;
+  }
 
   if (lex.fin != NULL) {
     fclose(lex.fin);
-- 
2.43.0


From 2f44fcae253ed0f57feef9434af75861d9668d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:59 +0000
Subject: [PATCH 29/33] fix: aarch64: split up constants that don't fit in an
 instruction

---
 lib/aarch64.c | 143 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 109 insertions(+), 34 deletions(-)

diff --git a/lib/aarch64.c b/lib/aarch64.c
index e3cbdec..3e05e16 100644
--- a/lib/aarch64.c
+++ b/lib/aarch64.c
@@ -72,6 +72,9 @@ static LabelId StaticNames(FILE* fout, LabelId* label_id, FbleNameV names);
 static LabelId StaticModulePath(FILE* fout, LabelId* label_id, FbleModulePath* path);
 static void StaticGeneratedModule(FILE* fout, LabelId* label_id, FbleCompiledModule* module);
 
+static void MovImm(FILE* fout, const char* rdst, size_t value);
+static void AddImm(FILE* fout, const char* op, const char* rdst, const char* rsrc, size_t value);
+static void Access(FILE* fout, const char* op, const char* reg, const char* rbase, size_t offset);
 static void GetFrameVar(FILE* fout, const char* rdst, FbleVar index);
 static void SetFrameVar(FILE* fout, const char* rsrc, FbleLocalIndex index);
 static void DoAbort(FILE* fout, size_t func_id, size_t pc, const char* lmsg, FbleLoc loc);
@@ -385,6 +388,73 @@ static void StaticGeneratedModule(FILE* fout, LabelId* label_id, FbleCompiledMod
   FbleFreeString(module_name);
 }
 
+/**
+ * @func[MovImm] Generates code to set a register to a constant.
+ *  The mov instruction is limited to constants that fit in 16 bits.
+ *  @arg[FILE*][fout] The output stream.
+ *  @arg[const char*][rdst] The name of the register to set.
+ *  @arg[size_t][value] The value to set the register to.
+ *
+ *  @sideeffects
+ *   Writes to the output stream.
+ */
+static void MovImm(FILE* fout, const char* rdst, size_t value)
+{
+  fprintf(fout, "  mov %s, %zi\n", rdst, value & 0xFFFF);
+  for (size_t shift = 16; shift < 64; shift += 16) {
+    size_t part = (value >> shift) & 0xFFFF;
+    if (part != 0) {
+      fprintf(fout, "  movk %s, %zi, lsl %zi\n", rdst, part, shift);
+    }
+  }
+}
+
+/**
+ * @func[AddImm] Generates code to add or subtract a constant.
+ *  The add and sub instructions are limited to constants that fit in 12 bits,
+ *  optionally shifted by 12 bits.
+ *  @arg[FILE*][fout] The output stream.
+ *  @arg[const char*][op] The instruction to use: "add" or "sub".
+ *  @arg[const char*][rdst] The name of the register to write.
+ *  @arg[const char*][rsrc] The name of the register to add to.
+ *  @arg[size_t][value] The value to add.
+ *
+ *  @sideeffects
+ *   Writes to the output stream.
+ */
+static void AddImm(FILE* fout, const char* op, const char* rdst, const char* rsrc, size_t value)
+{
+  assert(value < (1 << 24) && "TODO: handle larger constants");
+  if (value >= 4096) {
+    fprintf(fout, "  %s %s, %s, %zi, lsl 12\n", op, rdst, rsrc, value / 4096);
+    rsrc = rdst;
+  }
+  fprintf(fout, "  %s %s, %s, %zi\n", op, rdst, rsrc, value % 4096);
+}
+
+/**
+ * @func[Access] Generates code to load or store a register.
+ *  The ldr and str instructions are limited to offsets that fit in 12 bits
+ *  when divided by 8. May overwrite the contents of register x10.
+ *  @arg[FILE*][fout] The output stream.
+ *  @arg[const char*][op] The instruction to use: "ldr" or "str".
+ *  @arg[const char*][reg] The name of the register to load or store.
+ *  @arg[const char*][rbase] The name of the register with the base address.
+ *  @arg[size_t][offset] The offset in bytes from the base address.
+ *
+ *  @sideeffects
+ *   Writes to the output stream.
+ */
+static void Access(FILE* fout, const char* op, const char* reg, const char* rbase, size_t offset)
+{
+  if (offset < 8 * 4096) {
+    fprintf(fout, "  %s %s, [%s, #%zi]\n", op, reg, rbase, offset);
+  } else {
+    MovImm(fout, "x10", offset);
+    fprintf(fout, "  %s %s, [%s, x10]\n", op, reg, rbase);
+  }
+}
+
 /**
  * @func[GetFrameVar]
  * @ Generates code to read var from the current frame into register rdst.
@@ -399,7 +469,7 @@ static void StaticGeneratedModule(FILE* fout, LabelId* label_id, FbleCompiledMod
 static void GetFrameVar(FILE* fout, const char* rdst, FbleVar var)
 {
   static const char* regs[] = { "R_STATICS", "R_ARGS", "R_LOCALS" };
-  fprintf(fout, "  ldr %s, [%s, #%zi]\n", rdst, regs[var.tag], sizeof(FbleValue*) * var.index);
+  Access(fout, "ldr", rdst, regs[var.tag], sizeof(FbleValue*) * var.index);
 }
 
 /**
@@ -414,7 +484,7 @@ static void GetFrameVar(FILE* fout, const char* rdst, FbleVar var)
  */
 static void SetFrameVar(FILE* fout, const char* rsrc, FbleLocalIndex index)
 {
-  fprintf(fout, "  str %s, [R_LOCALS, #%zi]\n", rsrc, sizeof(FbleValue*) * index);
+  Access(fout, "str", rsrc, "R_LOCALS", sizeof(FbleValue*) * index);
 }
 
 /**
@@ -439,8 +509,8 @@ static void DoAbort(FILE* fout, size_t func_id, size_t pc, const char* lmsg, Fbl
   SanitizeString(loc.source->str, label);
   Adr(fout, "x2", ".L.loc.%s", label);
 
-  fprintf(fout, "  mov x3, %zi\n", loc.line);
-  fprintf(fout, "  mov x4, %zi\n", loc.col);
+  MovImm(fout, "x3", loc.line);
+  MovImm(fout, "x4", loc.col);
   Adr(fout, "x5", "%s", lmsg);
   fprintf(fout, "  bl fprintf\n");
 
@@ -539,7 +609,12 @@ static void EmitSearch(Context* context, Interval* interval)
   size_t mid = interval->num_targets / 2;
   size_t mid_tag = interval->targets[mid].tag;
   size_t mid_target = interval->targets[mid].target;
-  fprintf(fout, "  cmp x0, %zi\n", mid_tag);
+  if (mid_tag < 4096) {
+    fprintf(fout, "  cmp x0, %zi\n", mid_tag);
+  } else {
+    MovImm(fout, "x1", mid_tag);
+    fprintf(fout, "  cmp x0, x1\n");
+  }
   fprintf(fout, "  b.eq .Lr.%04zx.%zi\n", func_id, mid_target);
 
   Interval low = {
@@ -624,26 +699,26 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
 
       // Allocate space for the arguments array on the stack.
       size_t sp_offset = StackBytesForCount(argc);
-      fprintf(fout, "  sub SP, SP, %zi\n", sp_offset);
+      AddImm(fout, "sub", "SP", "SP", sp_offset);
       for (size_t i = 0; i < argc; ++i) {
         GetFrameVar(fout, "x0", struct_instr->args.xs[i]);
-        fprintf(fout, "  str x0, [SP, #%zi]\n", sizeof(FbleValue*) * i);
+        Access(fout, "str", "x0", "SP", sizeof(FbleValue*) * i);
       };
 
       fprintf(fout, "  mov x0, R_HEAP\n");
-      fprintf(fout, "  mov x1, %zi\n", argc);
+      MovImm(fout, "x1", argc);
       fprintf(fout, "  mov x2, SP\n");
       fprintf(fout, "  bl FbleNewStructValue\n");
       SetFrameVar(fout, "x0", struct_instr->dest);
 
-      fprintf(fout, "  add SP, SP, #%zi\n", sp_offset);
+      AddImm(fout, "add", "SP", "SP", sp_offset);
       return;
     }
 
     case FBLE_UNION_VALUE_INSTR: {
       FbleUnionValueInstr* union_instr = (FbleUnionValueInstr*)instr;
       fprintf(fout, "  mov x0, R_HEAP\n");
-      fprintf(fout, "  mov x1, %zi\n", union_instr->tag);
+      MovImm(fout, "x1", union_instr->tag);
       GetFrameVar(fout, "x2", union_instr->arg);
       fprintf(fout, "  bl FbleNewUnionValue\n");
       SetFrameVar(fout, "x0", union_instr->dest);
@@ -653,7 +728,7 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
     case FBLE_STRUCT_ACCESS_INSTR: {
       FbleAccessInstr* access_instr = (FbleAccessInstr*)instr;
       GetFrameVar(fout, "x0", access_instr->obj);
-      fprintf(fout, "  mov x1, #%zi\n", access_instr->tag);
+      MovImm(fout, "x1", access_instr->tag);
       fprintf(fout, "  bl FbleStructValueField\n");
       SetFrameVar(fout, "x0", access_instr->dest);
       fprintf(fout, "  cbz x0, .Lo.%04zx.%zi.u\n", func_id, pc);
@@ -664,7 +739,7 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
       FbleAccessInstr* access_instr = (FbleAccessInstr*)instr;
 
       GetFrameVar(fout, "x0", access_instr->obj);
-      fprintf(fout, "  mov x1, #%zi\n", access_instr->tag);
+      MovImm(fout, "x1", access_instr->tag);
       fprintf(fout, "  bl FbleUnionValueField\n");
       SetFrameVar(fout, "x0", access_instr->dest);
 
@@ -726,20 +801,20 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
 
       // Allocate space for the statics array on the stack.
       size_t sp_offset = StackBytesForCount(func_instr->code->executable.num_statics);
-      fprintf(fout, "  sub SP, SP, %zi\n", sp_offset);
+      AddImm(fout, "sub", "SP", "SP", sp_offset);
       for (size_t i = 0; i < func_instr->code->executable.num_statics; ++i) {
         GetFrameVar(fout, "x0", func_instr->scope.xs[i]);
-        fprintf(fout, "  str x0, [SP, #%zi]\n", sizeof(FbleValue*) * i);
+        Access(fout, "str", "x0", "SP", sizeof(FbleValue*) * i);
       }
 
       fprintf(fout, "  mov x0, R_HEAP\n");
       Adr(fout, "x1", ".Lr.%04zx.%zi.exe", func_id, pc);
-      fprintf(fout, "  add x2, R_PROFILE_BLOCK_ID, #%zi\n", func_instr->profile_block_offset);
+      AddImm(fout, "add", "x2", "R_PROFILE_BLOCK_ID", func_instr->profile_block_offset);
       fprintf(fout, "  mov x3, SP\n");
       fprintf(fout, "  bl FbleNewFuncValue\n");
       SetFrameVar(fout, "x0", func_instr->dest);
 
-      fprintf(fout, "  add SP, SP, #%zi\n", sp_offset);
+      AddImm(fout, "add", "SP", "SP", sp_offset);
       return;
     }
 
@@ -748,21 +823,21 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
 
       // Allocate space for the arguments array on the stack.
       size_t sp_offset = StackBytesForCount(call_instr->args.size);
-      fprintf(fout, "  sub SP, SP, %zi\n", sp_offset);
+      AddImm(fout, "sub", "SP", "SP", sp_offset);
       for (size_t i = 0; i < call_instr->args.size; ++i) {
         GetFrameVar(fout, "x0", call_instr->args.xs[i]);
-        fprintf(fout, "  str x0, [SP, #%zi]\n", sizeof(FbleValue*) * i);
+        Access(fout, "str", "x0", "SP", sizeof(FbleValue*) * i);
       }
 
       fprintf(fout, "  mov x0, R_HEAP\n");
       fprintf(fout, "  mov x1, R_PROFILE\n");
       GetFrameVar(fout, "x2", call_instr->func);
-      fprintf(fout, "  mov x3, %zi\n", call_instr->args.size);
+      MovImm(fout, "x3", call_instr->args.size);
       fprintf(fout, "  mov x4, SP\n");          // args
 
       fprintf(fout, "  bl FbleCall\n");
       SetFrameVar(fout, "x0", call_instr->dest);
-      fprintf(fout, "  add SP, SP, #%zi\n", sp_offset);
+      AddImm(fout, "add", "SP", "SP", sp_offset);
       fprintf(fout, "  cbz x0, .Lo.%04zx.%zi.abort\n", func_id, pc);
       return;
     }
@@ -781,16 +856,16 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
 
       // Set up the arguments.
       size_t sp_offset = StackBytesForCount(call_instr->args.size);
-      fprintf(fout, "  sub SP, SP, %zi\n", sp_offset);
+      AddImm(fout, "sub", "SP", "SP", sp_offset);
       for (size_t i = 0; i < call_instr->args.size; ++i) {
         GetFrameVar(fout, "x9", call_instr->args.xs[i]);
-        fprintf(fout, "  str x9, [SP, #%zi]\n", sizeof(FbleValue*) * i);
+        Access(fout, "str", "x9", "SP", sizeof(FbleValue*) * i);
       }
-      fprintf(fout, "  mov x3, %zi\n", call_instr->args.size);
+      MovImm(fout, "x3", call_instr->args.size);
       fprintf(fout, "  mov x4, SP\n");              // args
 
       fprintf(fout, "  bl FbleTailCall\n");
-      fprintf(fout, "  add SP, SP, #%zi\n", sp_offset);
+      AddImm(fout, "add", "SP", "SP", sp_offset);
 
       fprintf(fout, "  b .Lr.%04zx.exit\n", func_id);
       return;
@@ -848,19 +923,19 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
 
       // Allocate space on the stack for the array of arguments.
       size_t sp_offset = StackBytesForCount(argc);
-      fprintf(fout, "  sub SP, SP, #%zi\n", sp_offset);
+      AddImm(fout, "sub", "SP", "SP", sp_offset);
       for (size_t i = 0; i < argc; ++i) {
         GetFrameVar(fout, "x9", list_instr->args.xs[i]);
-        fprintf(fout, "  str x9, [SP, #%zi]\n", 8 * i);
+        Access(fout, "str", "x9", "SP", 8 * i);
       }
 
       fprintf(fout, "  mov x0, R_HEAP\n");
-      fprintf(fout, "  mov x1, %zi\n", argc);
+      MovImm(fout, "x1", argc);
       fprintf(fout, "  mov x2, SP\n");
       fprintf(fout, "  bl FbleNewListValue\n");
 
       SetFrameVar(fout, "x0", list_instr->dest);
-      fprintf(fout, "  add SP, SP, #%zi\n", sp_offset);
+      AddImm(fout, "add", "SP", "SP", sp_offset);
       return;
     }
 
@@ -878,7 +953,7 @@ static void EmitInstr(FILE* fout, FbleNameV profile_blocks, size_t func_id, size
       fprintf(fout, "  .text\n");
       fprintf(fout, "  .align 2\n");
       fprintf(fout, "  mov x0, R_HEAP\n");
-      fprintf(fout, "  mov x1, %zi\n", argc);
+      MovImm(fout, "x1", argc);
       Adr(fout, "x2", ".Lr.%04zx.%zi.letters", func_id, pc);
       fprintf(fout, "  bl FbleNewLiteralValue\n");
       SetFrameVar(fout, "x0", literal_instr->dest);
@@ -915,7 +990,7 @@ static void EmitOutlineCode(FILE* fout, size_t func_id, size_t pc, FbleInstr* in
         case FBLE_PROFILE_ENTER_OP: {
           fprintf(fout, "  mov x0, R_PROFILE\n");
           fprintf(fout, "  mov x1, R_PROFILE_BLOCK_ID\n");
-          fprintf(fout, "  add x1, x1, #%zi\n", op->arg);
+          AddImm(fout, "add", "x1", "x1", op->arg);
           fprintf(fout, "  bl FbleProfileEnterBlock\n");
           break;
         }
@@ -923,7 +998,7 @@ static void EmitOutlineCode(FILE* fout, size_t func_id, size_t pc, FbleInstr* in
         case FBLE_PROFILE_REPLACE_OP: {
           fprintf(fout, "  mov x0, R_PROFILE\n");
           fprintf(fout, "  mov x1, R_PROFILE_BLOCK_ID\n");
-          fprintf(fout, "  add x1, x1, #%zi\n", op->arg);
+          AddImm(fout, "add", "x1", "x1", op->arg);
           fprintf(fout, "  bl FbleProfileReplaceBlock\n");
           break;
         }
@@ -936,7 +1011,7 @@ static void EmitOutlineCode(FILE* fout, size_t func_id, size_t pc, FbleInstr* in
 
         case FBLE_PROFILE_SAMPLE_OP: {
           fprintf(fout, "  mov x0, R_PROFILE\n");
-          fprintf(fout, "  mov x1, #%zi\n", op->arg);
+          MovImm(fout, "x1", op->arg);
           fprintf(fout, "  bl FbleProfileRandomSample\n");
           break;
         }
@@ -1041,7 +1116,7 @@ static void EmitCode(FILE* fout, FbleNameV profile_blocks, FbleCode* code)
 
   // Set up stack and frame pointer.
   size_t sp_offset = StackBytesForCount(code->num_locals);
-  fprintf(fout, "  sub SP, SP, %zi\n", sp_offset);
+  AddImm(fout, "sub", "SP", "SP", sp_offset);
   fprintf(fout, "  stp FP, LR, [SP, #-%zi]!\n", sizeof(RunStackFrame));
   fprintf(fout, "  mov FP, SP\n");
 
@@ -1070,7 +1145,7 @@ static void EmitCode(FILE* fout, FbleNameV profile_blocks, FbleCode* code)
   fprintf(fout, "  ldp R_ARGS, R_STATICS, [SP, #%zi]\n", offsetof(RunStackFrame, r_args_save));
   fprintf(fout, "  ldp R_PROFILE_BLOCK_ID, R_PROFILE, [SP, #%zi]\n", offsetof(RunStackFrame, r_profile_block_id_save));
   fprintf(fout, "  ldp FP, LR, [SP], #%zi\n", sizeof(RunStackFrame));
-  fprintf(fout, "  add SP, SP, #%zi\n", sp_offset);
+  AddImm(fout, "add", "SP", "SP", sp_offset);
   fprintf(fout, "  ret\n");
 
   // Emit code that's outside of the main execution path.
-- 
2.43.0


From f71c6a23276ec484d48bb845ff8da5764a566b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:59 +0000
Subject: [PATCH 30/33] fix: aarch64: escape the strings in generated code

---
 lib/aarch64.c | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/lib/aarch64.c b/lib/aarch64.c
index 3e05e16..1ee7e31 100644
--- a/lib/aarch64.c
+++ b/lib/aarch64.c
@@ -66,6 +66,7 @@ typedef struct {
 static void AddLoc(const char* source, LocV* locs);
 static void CollectBlocksAndLocs(FbleCodeV* blocks, LocV* locs, FbleCode* code);
 
+static void Quoted(FILE* fout, const char* string);
 static void StringLit(FILE* fout, const char* string);
 static LabelId StaticString(FILE* fout, LabelId* label_id, const char* string);
 static LabelId StaticNames(FILE* fout, LabelId* label_id, FbleNameV names);
@@ -219,16 +220,16 @@ static void CollectBlocksAndLocs(FbleCodeV* blocks, LocV* locs, FbleCode* code)
 }
 
 /**
- * @func[StringLit] Declares a string literal.
+ * @func[Quoted] Outputs a quoted string.
  *  @arg[FILE*][fout] The file to write to.
  *  @arg[const char*][string] The contents of the string to write.
- *  
+ *
  *  @sideeffects
- *   Adds a .string statement to the output file.
+ *   Outputs the string in double quotes, with special characters escaped.
  */
-static void StringLit(FILE* fout, const char* string)
+static void Quoted(FILE* fout, const char* string)
 {
-  fprintf(fout, "  .string \"");
+  fprintf(fout, "\"");
   for (const char* p = string; *p; p++) {
     switch (*p) {
       case '\n': fprintf(fout, "\\n"); break;
@@ -237,9 +238,24 @@ static void StringLit(FILE* fout, const char* string)
       default: fprintf(fout, "%c", *p); break;
     }
   }
-  fprintf(fout, "\"\n");
+  fprintf(fout, "\"");
 }
-
+
+/**
+ * @func[StringLit] Declares a string literal.
+ *  @arg[FILE*][fout] The file to write to.
+ *  @arg[const char*][string] The contents of the string to write.
+ *  
+ *  @sideeffects
+ *   Adds a .string statement to the output file.
+ */
+static void StringLit(FILE* fout, const char* string)
+{
+  fprintf(fout, "  .string ");
+  Quoted(fout, string);
+  fprintf(fout, "\n");
+}
+
 /**
  * @func[StaticString] Outputs code to declare a static FbleString value.
  *  @arg[FILE*][fout] The file to write to
@@ -1269,7 +1285,9 @@ void FbleGenerateAArch64(FILE* fout, FbleCompiledModule* module)
 
   CollectBlocksAndLocs(&blocks, &locs, module->code);
 
-  fprintf(fout, "  .file 1 \"%s\"\n", module->path->loc.source->str);
+  fprintf(fout, "  .file 1 ");
+  Quoted(fout, module->path->loc.source->str);
+  fprintf(fout, "\n");
 
   // Common things we hold in callee saved registers for Run and Abort
   // functions.
@@ -1303,7 +1321,8 @@ void FbleGenerateAArch64(FILE* fout, FbleCompiledModule* module)
   for (size_t i = 0; i < locs.size; ++i) {
     char label[SizeofSanitizedString(locs.xs[i])];
     SanitizeString(locs.xs[i], label);
-    fprintf(fout, ".L.loc.%s:\n  .string \"%s\"\n", label, locs.xs[i]);
+    fprintf(fout, ".L.loc.%s:\n", label);
+    StringLit(fout, locs.xs[i]);
   }
 
   fprintf(fout, "  .text\n");
@@ -1337,10 +1356,9 @@ void FbleGenerateAArch64(FILE* fout, FbleCompiledModule* module)
   fprintf(fout, "  .uleb128 1\n");       // abbrev code for compile_unit
   fprintf(fout, "  .8byte .L.low_pc\n");  // low_pc value.
   fprintf(fout, "  .8byte .L.high_pc\n"); // high_pc value.
-  fprintf(fout, "  .string \"%s\"\n",    // source file name.
-      module->path->loc.source->str);    
+  StringLit(fout, module->path->loc.source->str); // source file name.
   fprintf(fout, "  .4byte .L.debug_line\n");          // stmt_list offset.
-  fprintf(fout, "  .string \"%s\"\n", cwd); // compilation directory.
+  StringLit(fout, cwd);                         // compilation directory.
   fprintf(fout, "  .string \"FBLE\"\n"); // producer.
 
   // FbleValue* type entry
@@ -1364,8 +1382,7 @@ void FbleGenerateAArch64(FILE* fout, FbleCompiledModule* module)
     SanitizeString(function_block.name->str, function_label);
 
     fprintf(fout, "  .uleb128 2\n");       // abbrev code for subprogram.
-    fprintf(fout, "  .string \"%s\"\n",    // source function name.
-        function_block.name->str);
+    StringLit(fout, function_block.name->str); // source function name.
 
     // low_pc and high_pc attributes.
     fprintf(fout, "  .8byte %s.%04zx\n", function_label, func_id);
-- 
2.43.0


From 3cb6a1d5617271858e2925486baf445e0efe574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:02 +0000
Subject: [PATCH 31/33] fix: aarch64: the generated main returns through its
 own epilogue

---
 lib/aarch64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/aarch64.c b/lib/aarch64.c
index 1ee7e31..89dd8fd 100644
--- a/lib/aarch64.c
+++ b/lib/aarch64.c
@@ -1534,7 +1534,7 @@ void FbleGenerateAArch64Main(FILE* fout, const char* main, FbleModulePath* path)
 
   Adr(fout, "x3", "%s", main);
 
-  fprintf(fout, "  br x3\n");
+  fprintf(fout, "  blr x3\n");
   fprintf(fout, "  ldp FP, LR, [SP], #16\n");
   fprintf(fout, "  ret\n");
 }
-- 
2.43.0


From 12f01bfbfdca8681a7f537487c86ce31014f9756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:43 +0000
Subject: [PATCH 32/33] fix: an app's tick requested for before time 0 is
 delivered at once

---
 pkgs/app/app.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkgs/app/app.c b/pkgs/app/app.c
index 11a5092..7caf514 100644
--- a/pkgs/app/app.c
+++ b/pkgs/app/app.c
@@ -348,13 +348,13 @@ static FbleValue* EffectImpl(
 
   switch (FbleUnionValueTag(effect)) {
     case 0: {
-      int tick = FbleIntValueAccess(FbleUnionValueArg(effect));
+      int64_t tick = FbleIntValueAccess(FbleUnionValueArg(effect));
 
+      // Compute in int64_t: a negative tick could otherwise take the unsigned
+      // time below 0, for a tick that is delivered only weeks later.
       Uint32 now = SDL_GetTicks();
-      app->time += tick;
-      if (app->time < now) {
-        app->time = now;
-      }
+      int64_t time = app->time + tick;
+      app->time = (time < (int64_t)now) ? now : (Uint32)time;
       SDL_AddTimer(app->time - now, OnTimer, NULL);
       break;
     }
-- 
2.43.0


From 76ce6947365083072fc3280385e44b314a64b2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:58:30 +0000
Subject: [PATCH 33/33] fix: reverse-complement complements D, and upper-cases
 w and d

---
 .../Games/BenchmarkGame/ReverseComplement.fble   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkgs/games/Games/BenchmarkGame/ReverseComplement.fble b/pkgs/games/Games/BenchmarkGame/ReverseComplement.fble
index eac1a80..17c8c21 100644
--- a/pkgs/games/Games/BenchmarkGame/ReverseComplement.fble
+++ b/pkgs/games/Games/BenchmarkGame/ReverseComplement.fble
@@ -33,14 +33,14 @@
 
 (Char@) { Char@; } ComplementCode = (Char@ c) {
   c.?(
-    A: Chars.T, B: Chars.V, C: Chars.G, G: Chars.C,
-    H: Chars.D, K: Chars.M, M: Chars.K, N: Chars.N,
-    R: Chars.Y, S: Chars.S, T: Chars.A, U: Chars.A,
-    V: Chars.B, Y: Chars.R,
-    a: Chars.T, b: Chars.V, c: Chars.G, g: Chars.C,
-    h: Chars.D, k: Chars.M, m: Chars.K, n: Chars.N,
-    r: Chars.Y, s: Chars.S, t: Chars.A, u: Chars.A,
-    v: Chars.B, y: Chars.R);
+    A: Chars.T, B: Chars.V, C: Chars.G, D: Chars.H,
+    G: Chars.C, H: Chars.D, K: Chars.M, M: Chars.K,
+    N: Chars.N, R: Chars.Y, S: Chars.S, T: Chars.A,
+    U: Chars.A, V: Chars.B, W: Chars.W, Y: Chars.R,
+    a: Chars.T, b: Chars.V, c: Chars.G, d: Chars.H,
+    g: Chars.C, h: Chars.D, k: Chars.M, m: Chars.K,
+    n: Chars.N, r: Chars.Y, s: Chars.S, t: Chars.A,
+    u: Chars.A, v: Chars.B, w: Chars.W, y: Chars.R);
   c;
 };
 
-- 
2.43.0

