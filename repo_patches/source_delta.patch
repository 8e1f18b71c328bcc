From 51a433c1078d3c8b307b06ae17277653237f3f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 01/64] fix: only treat the whole identifier __LINE__ as the
 line number

---
 scanner.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scanner.c b/scanner.c
index c3762ae..52228fd 100644
--- a/scanner.c
+++ b/scanner.c
@@ -256,7 +256,8 @@ static Token identifier() {
         }
     }
 
-    if (type == TOKEN_IDENTIFIER && memcmp(current->source+current->tokenStartIdx, "__LINE__", length) == 0) {
+    if (type == TOKEN_IDENTIFIER && length == strlen("__LINE__") &&
+            memcmp(current->source+current->tokenStartIdx, "__LINE__", length) == 0) {
         Token token = makeToken(TOKEN_NUMBER);
         char *numBuf = (char*)calloc(1, 8);
         ASSERT_MEM(numBuf);
-- 
2.43.0


From 0020513b012481745b2a8e2c199106e486bbde73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 02/64] fix: modulo by a divisor that truncates to 0 raises,
 and by -1 does not trap

---
 compiler.c | 5 ++++-
 vm.c       | 9 +++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/compiler.c b/compiler.c
index 613d016..8d61194 100644
--- a/compiler.c
+++ b/compiler.c
@@ -432,10 +432,13 @@ static Value foldConstant(Iseq *seq, Insn *cur, Insn *bin, Insn *ain) {
             }
             return NUMBER_VAL(aNum / bNum);
         case OP_MODULO:
-            if (bNum == 0.00) {
+            if ((int)bNum == 0) {
                 fprintf(stderr, "[Warning]: Divide by 0 found on line %d during constant folding\n", bin->lineno);
                 return UNDEF_VAL;
             }
+            if ((int)bNum == -1) { // INT_MIN % -1 traps
+                return NUMBER_VAL(0);
+            }
             return NUMBER_VAL((int)aNum % (int)bNum);
         case OP_BITOR:
             return NUMBER_VAL((double)((int)aNum | (int)bNum));
diff --git a/vm.c b/vm.c
index 928b982..15447d9 100644
--- a/vm.c
+++ b/vm.c
@@ -2385,11 +2385,16 @@ static InterpretResult vm_run() {
       Value b = VM_PEEK(0);\
       Value a = VM_PEEK(1);\
       if (IS_NUMBER(a) && IS_NUMBER(b)) {\
-          if (UNLIKELY(((opcode == OP_DIVIDE || opcode == OP_MODULO) && AS_NUMBER(b) == 0.00))) {\
+          if (UNLIKELY((opcode == OP_DIVIDE || opcode == OP_MODULO) && (type)AS_NUMBER(b) == 0)) {\
               throwErrorFmt(lxErrClass, "Can't divide by 0");\
           }\
           VM_POP();\
-          VM_PUSHSWAP(NUMBER_VAL((type)AS_NUMBER(a) op (type)AS_NUMBER(b)));\
+          if (opcode == OP_MODULO && (type)AS_NUMBER(b) == -1) {\
+              /* INT_MIN % -1 traps */\
+              VM_PUSHSWAP(NUMBER_VAL(0));\
+          } else {\
+              VM_PUSHSWAP(NUMBER_VAL((type)AS_NUMBER(a) op (type)AS_NUMBER(b)));\
+          }\
       } else if (IS_INSTANCE_LIKE(a)) {\
           ObjInstance *inst = AS_INSTANCE(a);\
           ObjString *methodName = methodNameForBinop(opcode);\
-- 
2.43.0


From e2fab4fe35ff0551b3930177012e00154458d8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 03/64] fix: no crash on a binary operator that has no operator
 method

---
 vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vm.c b/vm.c
index 15447d9..c5310e6 100644
--- a/vm.c
+++ b/vm.c
@@ -2403,7 +2403,7 @@ static InterpretResult vm_run() {
             callable = instanceFindMethod(inst, methodName);\
           }\
           if (UNLIKELY(!callable)) {\
-              throwErrorFmt(lxNameErrClass, "Method %s#%s not found for operation '%s'", className(inst->klass), methodName->chars, #op);\
+              throwErrorFmt(lxNameErrClass, "Method %s#%s not found for operation '%s'", className(inst->klass), methodName ? methodName->chars : "(none)", #op);\
           }\
           callCallable(OBJ_VAL(callable), 1, true, NULL);\
       } else {\
-- 
2.43.0


From 11de80135af2baee922119aa160fbd68c9f80986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 04/64] fix: 0 and -0 are equal

---
 value.c | 3 +++
 vm.c    | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/value.c b/value.c
index 1958653..e32e5ab 100644
--- a/value.c
+++ b/value.c
@@ -494,6 +494,9 @@ bool valEqual(Value a, Value b) {
             if (IS_INSTANCE_LIKE(a)) {
                 return AS_BOOL(callMethod(AS_OBJ(a), vm.opEqualsString, 1, &b, NULL));
             }
+            if (IS_NUMBER(a) && IS_NUMBER(b)) {
+                return a == b || AS_NUMBER(a) == AS_NUMBER(b);
+            }
             return a == b;
         }
     }
diff --git a/vm.c b/vm.c
index c5310e6..16442a8 100644
--- a/vm.c
+++ b/vm.c
@@ -881,7 +881,7 @@ static bool isValueOpEqual(Value lhs, Value rhs) {
         return AS_OBJ(lhs) == AS_OBJ(rhs);
     } else if (IS_NUMBER(lhs)) { // 2 numbers, same values are equal
 #ifdef NAN_TAGGING
-        return lhs == rhs;
+        return IS_NUMBER(rhs) && AS_NUMBER(lhs) == AS_NUMBER(rhs);
 #else
         return AS_NUMBER(lhs) == AS_NUMBER(rhs);
 #endif
-- 
2.43.0


From 9e39cff5e13446b81fcbd743bd9c02886c0487d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 05/64] fix: the optimizer keeps jumps, breaks, catch tables
 and default arguments pointing at the right code

---
 chunk.h    |   1 +
 compiler.c | 177 ++++++++++++++++++++++++-----------------------------
 vm.c       |  21 +++----
 3 files changed, 90 insertions(+), 109 deletions(-)

diff --git a/chunk.h b/chunk.h
index 6b4b09a..3734b2c 100644
--- a/chunk.h
+++ b/chunk.h
@@ -59,6 +59,7 @@ typedef struct NodeLvl {
 #define INSN_FL_NUMBER 1
 #define INSN_FL_BREAK 2
 #define INSN_FL_CONTINUE 4
+#define INSN_FL_DEFAULT_ARG 8 // part of the code for a default argument
 // single instruction
 typedef struct Insn {
     bytecode_t code;
diff --git a/compiler.c b/compiler.c
index 8d61194..ac53c9d 100644
--- a/compiler.c
+++ b/compiler.c
@@ -494,63 +494,81 @@ static void patchJumpInsnWithOffset(Insn *jump, int offset) {
     jump->operands[0] += offset;
 }
 
-/* Remove the given instruction. If there's a forward jump to this instruction or
- * to an instruction after it, the jump needs to be patched. If there's a backwards jump
- * to this instruction or to an instruction before it, the jump needs to be patched.
+// Jumps whose target is known as an instruction
+static bool isForwardJump(Insn *in) {
+    return isJump(in) || in->code == OP_BREAK;
+}
+
+// Finds out the target instruction of every forward jump, before any instruction is
+// removed or altered.
+static void resolveJumpTargets(Iseq *seq) {
+    Insn *in = seq->insns;
+    int pos = 0;
+    while (in) {
+        if (isForwardJump(in)) {
+            if (in->code == OP_BREAK) {
+                in->jumpTo = insnAtOffset(seq, pos + (int)in->operands[0]);
+            } else if (!in->jumpTo && in->jumpToPrev) {
+                in->jumpTo = in->jumpToPrev->next;
+            }
+            in->jumpToPrev = NULL;
+            if (in->jumpTo) in->jumpTo->isLabel = true;
+        }
+        pos += in->numOperands+1;
+        in = in->next;
+    }
+}
+
+/* The size (in words) of the given instruction changes by `delta`: patch the jumps that
+ * go over it, and the catch table rows that point after it. A forward jump to the
+ * instruction itself is unaffected, a backwards jump (loop) to it does go over it.
  */
-static void rmInsnAndPatchJumps(Iseq *seq, Insn *insn) {
+static void patchOffsetsAround(Iseq *seq, Insn *insn, int delta) {
     int insnIdx = iseqInsnIndex(seq, insn);
     ASSERT(insnIdx >= 0);
-    OPT_DEBUG(2, "rmInsnAndPatchLabels insnIdx: %d\n", insnIdx);
     Insn *in = seq->insns;
     int idx = 0;
+    int pos = 0;
+    int insnPos = 0;
     while (in) {
-        if (in == insn) { // it will be removed at the end of the function
-            in = in->next;
-            idx++;
-            continue;
-        }
-        // jump instruction found before removed instruction, if it jumps
-        // to the removed instruction or after it, then patch the jump
-        if (idx < insnIdx && isJump(in)) {
-            OPT_DEBUG(2, "Found jump at %d", idx);
-            ASSERT(in->jumpTo || in->jumpToPrev);
-            Insn *jumpTo = in->jumpTo;
-            if (!jumpTo) {
-                jumpTo = in->jumpToPrev->next;
-            }
-            ASSERT(jumpTo);
-            int jumpToIndex = iseqInsnIndex(seq, jumpTo);
-            ASSERT(jumpToIndex >= 0);
-            OPT_DEBUG(2, "Jump to index: %d", jumpToIndex);
-            if (jumpToIndex >= insnIdx) {
-                if (jumpToIndex == insnIdx) {
-                    in->jumpTo = insn->next; // TODO: might be last instruction, in which case the jump should be removed
-                }
-                OPT_DEBUG(2, "Patching jump, offset before: %d", in->operands[0]);
-                patchJumpInsnWithOffset(in, -(insn->numOperands+1));
-                OPT_DEBUG(2, "Patched jump, offset after: %d", in->operands[0]);
+        if (in == insn) {
+            insnPos = pos;
+        } else if (idx < insnIdx && isForwardJump(in) && in->jumpTo) {
+            if (iseqInsnIndex(seq, in->jumpTo) > insnIdx) {
+                patchJumpInsnWithOffset(in, delta);
             }
-        // loop instruction found after removed instruction, if it jumps
-        // to the removed instruction or before it, then patch the loop
-        } else if (idx > insnIdx && isLoop(in)) {
-            OPT_DEBUG(2, "Found loop at %d", idx);
-            ASSERT(in->jumpTo);
-            int jumpToIndex = iseqInsnIndex(seq, in->jumpTo);
-            ASSERT(jumpToIndex >= 0);
-            OPT_DEBUG(2, "Jump to index: %d", jumpToIndex);
-            if (jumpToIndex <= insnIdx) {
-                if (jumpToIndex == insnIdx) {
-                    in->jumpTo = insn->next;
-                }
-                OPT_DEBUG(2, "Patching jump, offset before: %d", in->operands[0]);
-                patchJumpInsnWithOffset(in, -(insn->numOperands+1));
-                OPT_DEBUG(2, "Patched jump, offset after: %d", in->operands[0]);
+        } else if (idx > insnIdx && isLoop(in) && in->jumpTo) {
+            if (iseqInsnIndex(seq, in->jumpTo) <= insnIdx) {
+                patchJumpInsnWithOffset(in, delta);
             }
         }
+        pos += in->numOperands+1;
         in = in->next;
         idx++;
     }
+    for (CatchTable *row = seq->catchTbl; row; row = row->next) {
+        if (row->ifrom > insnPos) row->ifrom += delta;
+        if (row->ito > insnPos) row->ito += delta;
+        if (row->itarget > insnPos) row->itarget += delta;
+    }
+}
+
+/* Remove the given instruction. If there's a forward jump to an instruction after it,
+ * the jump needs to be patched. If there's a backwards jump to this instruction or to an
+ * instruction before it, the jump needs to be patched. Jumps to the instruction itself
+ * now go to the next one.
+ */
+static void rmInsnAndPatchJumps(Iseq *seq, Insn *insn) {
+    patchOffsetsAround(seq, insn, -(insn->numOperands+1));
+    for (Insn *in = seq->insns; in; in = in->next) {
+        if (in != insn && in->jumpTo == insn) {
+            ASSERT(insn->next);
+            in->jumpTo = insn->next;
+        }
+    }
+    if (insn->isLabel && insn->next) {
+        insn->next->isLabel = true;
+    }
     iseqRmInsn(seq, insn);
 }
 
@@ -567,8 +585,11 @@ static int replaceJumpInsn(Iseq *seq, Insn *jumpInsn) {
             }
         case OP_JUMP_IF_FALSE:
             if (!jumpInsn->isLabel) {
+                patchOffsetsAround(seq, jumpInsn, -jumpInsn->numOperands);
+                seq->wordCount -= jumpInsn->numOperands;
                 jumpInsn->code = OP_POP;
                 jumpInsn->numOperands = 0;
+                jumpInsn->jumpTo = NULL;
             }
             return 0;
         default:
@@ -635,58 +656,10 @@ static void addInsnOperand(Iseq *seq, Insn *insn, bytecode_t operand) {
     if (insn->numOperands == MAX_INSN_OPERANDS) {
         UNREACHABLE("too many operands"); // TODO: error out
     }
+    patchOffsetsAround(seq, insn, 1);
     insn->operands[insn->numOperands] = operand;
     insn->numOperands+=1;
     seq->wordCount += 1;
-    int insnIdx = iseqInsnIndex(seq, insn);
-    ASSERT(insnIdx >= 0);
-    Insn *in = seq->insns;
-    int idx = 0;
-    while (in) {
-        if (in == insn) {
-            in = in->next;
-            idx++;
-            continue;
-        }
-        // jump instruction found before altered instruction, if it jumps
-        // to the altered instruction or after it, then patch the jump
-        if (idx < insnIdx && isJump(in)) {
-            OPT_DEBUG(2, "Found jump at %d", idx);
-            Insn *jumpTo = in->jumpTo;
-            if (!jumpTo) {
-                jumpTo = in->jumpToPrev->next;
-            }
-            ASSERT(jumpTo);
-            int jumpToIndex = iseqInsnIndex(seq, jumpTo);
-            ASSERT(jumpToIndex >= 0);
-            OPT_DEBUG(2, "Jump to index: %d", jumpToIndex);
-            if (jumpToIndex >= insnIdx) {
-                if (jumpToIndex == insnIdx) {
-                    in->jumpTo = insn->next; // TODO: might be last instruction, in which case the jump should be removed
-                    in->jumpToPrev = NULL;
-                }
-                OPT_DEBUG(2, "Patching jump, offset before: %d", in->operands[0]);
-                patchJumpInsnWithOffset(in, 1);
-                OPT_DEBUG(2, "Patched jump, offset after: %d", in->operands[0]);
-            }
-        } else if (idx > insnIdx && isLoop(in)) {
-            OPT_DEBUG(2, "Found loop at %d", idx);
-            ASSERT(in->jumpTo);
-            int jumpToIndex = iseqInsnIndex(seq, in->jumpTo);
-            ASSERT(jumpToIndex >= 0);
-            OPT_DEBUG(2, "Jump to index: %d", jumpToIndex);
-            if (jumpToIndex <= insnIdx) {
-                if (jumpToIndex == insnIdx) {
-                    in->jumpTo = insn->next;
-                }
-                OPT_DEBUG(2, "Patching jump, offset before: %d\n", in->operands[0]);
-                patchJumpInsnWithOffset(in, 1);
-                OPT_DEBUG(2, "Patched jump, offset after: %d\n", in->operands[0]);
-            }
-        }
-        in = in->next;
-        idx++;
-    }
 }
 
 static void optimizeIseq(Iseq *iseq) {
@@ -695,14 +668,22 @@ static void optimizeIseq(Iseq *iseq) {
     Insn *prev = NULL;
     Insn *prevp = NULL;
     int idx = 0;
+    resolveJumpTargets(iseq);
     while (cur) {
         COMP_TRACE("optimize idx %d", idx);
+        // skipped over by the VM by a fixed amount
+        if (cur->flags & INSN_FL_DEFAULT_ARG) {
+            cur = cur->next;
+            idx++;
+            continue;
+        }
         prev = cur->prev; // can be NULL
         prevp = NULL;
         // constant folding, ex: turn 2+2 into 4
         if (isBinOp(cur)) {
             if (prev && ((prevp = prev->prev) != NULL)) {
-                if (isNumConstOp(prev) && isNumConstOp(prevp)) {
+                if (isNumConstOp(prev) && isNumConstOp(prevp) &&
+                        !isJumpTarget(prev) && !isJumpTarget(cur)) {
                     COMP_TRACE("constant folding candidate found");
                     Value newVal = foldConstant(iseq, cur, prev, prevp);
                     if (IS_UNDEF(newVal)) { // such as divide by 0
@@ -768,7 +749,7 @@ static void optimizeIseq(Iseq *iseq) {
 
         // 1+1; OP_CONSTANT '2', OP_POP => nothing (unused constant expression)
         if (!compilerOpts.noRemoveUnusedExpressions) {
-            if (isPop(cur) && (prev && noSideEffectsConst(prev))) {
+            if (isPop(cur) && !isJumpTarget(cur) && (prev && noSideEffectsConst(prev))) {
                 Insn *next = cur->next;
                 // OP_BLOCK_CONTINUE takes the popped value from previous pop, so needs it
                 if (!next || next->code != OP_BLOCK_CONTINUE) {
@@ -1612,6 +1593,10 @@ static ObjFunction *emitFunction(Node *n, FunctionType ftype) {
             emitOp0(OP_POP);
             Insn *insnAfter = currentIseq()->tail;
             size_t codeDiff = iseqInsnWordDiff(insnBefore, insnAfter);
+            Insn *insnDefault = insnBefore ? insnBefore->next : currentIseq()->insns;
+            for (; insnDefault; insnDefault = insnDefault->next) {
+                insnDefault->flags |= INSN_FL_DEFAULT_ARG;
+            }
             // TODO: use ALLOCATE, and make sure to free when freeing the node
             ParamNodeInfo *paramNodeInfo = xcalloc(1, sizeof(ParamNodeInfo));
             ASSERT_MEM(paramNodeInfo);
diff --git a/vm.c b/vm.c
index 16442a8..21fab03 100644
--- a/vm.c
+++ b/vm.c
@@ -1840,19 +1840,14 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
         Node *param = NULL;
         int pi = 0;
         int unused = numDefaultArgsUnused;
-        vec_foreach_rev(params, param, pi) {
-            if (param->type.kind == PARAM_NODE_SPLAT) continue;
-            if (param->type.kind == PARAM_NODE_BLOCK) continue;
-            if (param->type.kind == PARAM_NODE_DEFAULT_ARG) {
-                size_t offset = ((ParamNodeInfo*)param->data)->defaultArgIPOffset;
-                VM_DEBUG(2, "default param found: offset=%d", (int)offset);
-                funcOffset += offset;
-                unused--;
-                if (unused == 0) break;
-            } else {
-                ASSERT(0); // unreachable, default args should be last args, not including splat or block arg
-                break;
-            }
+        // the given arguments are for the first default arguments
+        vec_foreach(params, param, pi) {
+            if (param->type.kind != PARAM_NODE_DEFAULT_ARG) continue;
+            size_t offset = ((ParamNodeInfo*)param->data)->defaultArgIPOffset;
+            VM_DEBUG(2, "default param found: offset=%d", (int)offset);
+            funcOffset += offset;
+            unused--;
+            if (unused == 0) break;
         }
     }
 
-- 
2.43.0


From 344fce4428fd576a4bf300ab6086b642441ef91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 06/64] fix: continue pops the loop body's locals and runs a
 for loop's increment

---
 compiler.c | 45 +++++++++++++++++++--------------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/compiler.c b/compiler.c
index ac53c9d..6c5618d 100644
--- a/compiler.c
+++ b/compiler.c
@@ -930,28 +930,16 @@ static inline bool isContinue(Insn *in) {
             (in->flags & INSN_FL_CONTINUE) != 0);
 }
 
-static Insn *getInsnTail(int tail_index) {
-    Insn *cur = currentIseq()->tail;
-    int idx = tail_index;
-    while (cur && idx > 0) {
-        cur = cur->prev;
-        idx--;
-    }
-    return cur;
-}
-
+// Continues found after `a` jump to the next emitted instruction, `b` is the last
+// emitted one. Continues of inner loops are already patched.
 static void patchContinuesBetween(Insn *a, Insn *b) {
   Insn *cur = a;
-  while (cur != b) {
-    if (isContinue(cur)) {
-      int insn_tail_index = cur->extra; // number of pops to keep
-      Insn *jumpTo = getInsnTail(insn_tail_index);
-      if (insn_tail_index > 0) {
-          ASSERT(isPopType2(jumpTo));
-      }
-      patchJump(cur, -1, jumpTo);
-      COMP_TRACE("jump offset found, patching continue (pops=%d)", insn_tail_index);
+  while (cur) {
+    if (isContinue(cur) && cur->operands[0] == 0) {
+      patchJump(cur, -1, NULL);
+      COMP_TRACE("jump offset found, patching continue");
     }
+    if (cur == b) break;
     cur = cur->next;
   }
 }
@@ -2068,13 +2056,13 @@ static void emitNode(Node *n) {
         loopLocalCount = oldLoopLocalCount;
 
         curLoopType = lastLoopType;
+        patchContinuesBetween(forJump, currentIseq()->tail);
         Node *incrExpr = n->children->data[2];
         if (incrExpr) {
             emitNode(incrExpr);
         }
         emitLoop(beforeTest);
         patchJump(forJump, -1, NULL);
-        // TODO: patch continues
         patchBreaks(forJump, currentIseq()->tail, 2); // breaks go after the previous loop
         loopStart = oldLoopStart;
         breakBlock = oldBreakBlock;
@@ -2169,13 +2157,18 @@ static void emitNode(Node *n) {
                 emitOp0(OP_POP);
             }
             emitOp0(OP_BLOCK_CONTINUE);
-        } else if (curLoopType == LOOP_T_FOREACH) {
-            Insn *in = emitJump(OP_JUMP);
-            in->flags = INSN_FL_CONTINUE;
-            in->extra = current->localCount-loopLocalCount;
         } else {
-            ASSERT(curLoopType == LOOP_T_WHILE || curLoopType == LOOP_T_FOR);
-            emitLoop(loopStart); // WHILE or FOR
+            // pop the locals declared in the loop body
+            for (int i = loopLocalCount; i < current->localCount; i++) {
+                emitOp0(OP_POP);
+            }
+            if (curLoopType == LOOP_T_WHILE) {
+                emitLoop(loopStart);
+            } else { // go on with the increment (for) or the next value (foreach)
+                ASSERT(curLoopType == LOOP_T_FOR || curLoopType == LOOP_T_FOREACH);
+                Insn *in = emitJump(OP_JUMP);
+                in->flags = INSN_FL_CONTINUE;
+            }
         }
         break;
     }
-- 
2.43.0


From c865a929c49d9d5ddca95e2fc480482b5057ee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 07/64] fix: pop the bound error variable before leaving a
 catch clause followed by another clause

---
 compiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler.c b/compiler.c
index 6c5618d..f0fa4ae 100644
--- a/compiler.c
+++ b/compiler.c
@@ -2474,6 +2474,7 @@ static void emitNode(Node *n) {
                     /*if (catchStmt->children->length > 2) {*/
                     /*emitOp0(OP_POP); // pop the bound error variable*/
                     /*}*/
+                    popScope(COMPILE_SCOPE_TRY); // pops the error variable, so must come before the jump
                     // don't emit a jump at the end of the final catch statement, or if
                     // the next child after this one is an ensure block
                     if (i < n->children->length-1) {
@@ -2483,7 +2484,6 @@ static void emitNode(Node *n) {
                             vec_push(&vjumps, jumpStart);
                         }
                     }
-                    popScope(COMPILE_SCOPE_TRY);
                 } else { // ensure or else stmt
                     if (catchStmt->type.kind == TRY_ELSE_STMT) {
                         ASSERT(jumpToEnd);
-- 
2.43.0


From 10f056a0303196facd7d3bce7c5083b007de984d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 08/64] fix: a caught error drops the try block's locals and
 temporaries from the stack

---
 chunk.c    | 6 +++++-
 chunk.h    | 6 +++++-
 compiler.c | 6 ++++--
 vm.c       | 7 +++++++
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/chunk.c b/chunk.c
index a342295..9596dcc 100644
--- a/chunk.c
+++ b/chunk.c
@@ -207,12 +207,14 @@ int iseqAddCatchRow(
     int ifrom,
     int ito,
     int itarget,
+    int stackDepth,
     Value catchVal
 ) {
     CatchTable *tblRow = ALLOCATE(CatchTable, 1);
     tblRow->ifrom = ifrom;
     tblRow->ito = ito;
     tblRow->itarget = itarget;
+    tblRow->stackDepth = stackDepth;
     tblRow->catchVal = catchVal;
     tblRow->isEnsure = false;
     tblRow->isEnsureRunning = false;
@@ -238,12 +240,14 @@ int iseqAddEnsureRow(
     Iseq *seq,
     int ifrom,
     int ito,
-    int itarget
+    int itarget,
+    int stackDepth
 ) {
     CatchTable *tblRow = ALLOCATE(CatchTable, 1);
     tblRow->ifrom = ifrom;
     tblRow->ito = ito;
     tblRow->itarget = itarget;
+    tblRow->stackDepth = stackDepth;
     tblRow->catchVal = NIL_VAL;
     tblRow->isEnsure = true;
     tblRow->isEnsureRunning = false;
diff --git a/chunk.h b/chunk.h
index 3734b2c..0225049 100644
--- a/chunk.h
+++ b/chunk.h
@@ -26,6 +26,7 @@ typedef struct CatchTable {
     struct CatchTable *next; // next row in the catch table
     bool isEnsure; // is an ensure block
     bool isEnsureRunning;
+    int stackDepth; // locals live at the start of the try block, or -1
 } CatchTable;
 
 /**
@@ -101,6 +102,7 @@ int addCatchRow(
     int ifrom,
     int ito,
     int itarget,
+    int stackDepth,
     Value catchVal
 );
 
@@ -117,13 +119,15 @@ int iseqAddCatchRow(
     int ifrom,
     int ito,
     int itarget,
+    int stackDepth,
     Value catchVal
 );
 int iseqAddEnsureRow(
     Iseq *seq,
     int ifrom,
     int ito,
-    int itarget
+    int itarget,
+    int stackDepth
 );
 
 // debugging
diff --git a/compiler.c b/compiler.c
index f0fa4ae..d9c67c4 100644
--- a/compiler.c
+++ b/compiler.c
@@ -2413,6 +2413,8 @@ static void emitNode(Node *n) {
         vec_void_t vjumps;
         vec_init(&vjumps);
         int ifrom = iseq->wordCount; // start of try block
+        // eval'd code shares its locals with the binding's function
+        int stackDepth = current->type == FUN_TYPE_EVAL ? -1 : current->localCount;
         emitNode(n->children->data[0]); // try block
         bool skipJumpToEnd = false;
         if (n->children->length == 2) {
@@ -2458,7 +2460,7 @@ static void emitNode(Node *n) {
                     STRING_SET_STATIC(className);
                     double catchTblRowIdx = (double)iseqAddCatchRow(
                             iseq, ifrom, ito,
-                            itarget, OBJ_VAL(className)
+                            itarget, stackDepth, OBJ_VAL(className)
                             );
                     pushScope(COMPILE_SCOPE_TRY);
                     // given variable expression to bind to (Ex: (catch Error err))
@@ -2503,7 +2505,7 @@ static void emitNode(Node *n) {
                             patchJump(jump, -1, currentIseq()->tail);
                         }
                         vec_clear(&vjumps);
-                        double catchTblRowIdx = iseqAddEnsureRow(iseq, ifrom, ito, itarget);
+                        double catchTblRowIdx = iseqAddEnsureRow(iseq, ifrom, ito, itarget, stackDepth);
                         bytecode_t rethrowIfArg = makeConstant(NUMBER_VAL(catchTblRowIdx), CONST_T_NUMLIT);
                         pushScope(COMPILE_SCOPE_TRY);
                         emitNode(vec_last(ensureStmt->children)); // ensure block
diff --git a/vm.c b/vm.c
index 21fab03..16301c5 100644
--- a/vm.c
+++ b/vm.c
@@ -2136,6 +2136,13 @@ NORETURN void throwError(Value self) {
         ASSERT(ipNew);
         ASSERT(catchRow);
         catchRow->lastThrownValue = self;
+        if (catchRow->stackDepth >= 0) { // drop the try block's locals and temporaries
+            Value *newTop = getFrame()->slots + catchRow->stackDepth;
+            if (EC->stackTop > newTop) {
+                closeUpvalues(newTop);
+                EC->stackTop = newTop;
+            }
+        }
         getFrame()->ip = ipNew;
         DBG_ASSERT(getFrame()->closure->function->chunk->catchTbl);
         DBG_ASSERT(getFrame()->jmpBufSet);
-- 
2.43.0


From 3e340512e3f53c1ce956bd02f03d7a9b0e38701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:21 +0000
Subject: [PATCH 09/64] fix: a try block inside a block, eval or required
 script catches errors thrown in it

---
 vm.c | 61 +++++++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/vm.c b/vm.c
index 16301c5..b219ffd 100644
--- a/vm.c
+++ b/vm.c
@@ -1990,11 +1990,24 @@ Value callSuper(int argCount, Value *args, CallInfo *cinfo) {
     return NIL_VAL;
 }
 
+// Has the search for a catch block reached the C code that set up the given
+// error tag? Native frames share the chunk of the function that called them.
+static bool atErrTag(ErrTagInfo *tag) {
+    CallFrame *frame = getFrame();
+    while (frame && (frame->isCCall || !frame->closure)) {
+        if (frame == tag->frame) return true;
+        frame = frame->prev;
+    }
+    return false;
+}
+
 /**
  * When thrown (OP_THROW), find any surrounding try { } catch { } block with
- * the proper class to catch.
+ * the proper class to catch. If `tag` is given, only look at the frames inside
+ * of the C code that set up the tag.
  */
-static bool findThrowJumpLoc(ObjClass *klass, bytecode_t **ipOut, CatchTable **rowFound) {
+static bool findThrowJumpLoc(ObjClass *klass, ErrTagInfo *tag, bytecode_t **ipOut, CatchTable **rowFound) {
+    if (tag && atErrTag(tag)) return false;
     LxThread *th = vm.curThread;
     CatchTable *tbl = currentChunk()->catchTbl;
     CatchTable *row = tbl;
@@ -2021,6 +2034,10 @@ static bool findThrowJumpLoc(ObjClass *klass, bytecode_t **ipOut, CatchTable **r
                   return true;
                 }
             }
+            // scripts and evals have their tag in their own frame
+            if (tag && getFrame() == tag->frame) {
+                return false;
+            }
             if (th->v_ecs.length == 0 || (th->v_ecs.length == 1 && EC->frameCount == 1)) {
                 return false;
             }
@@ -2038,6 +2055,7 @@ static bool findThrowJumpLoc(ObjClass *klass, bytecode_t **ipOut, CatchTable **r
                 EC->stackTop = getFrame()->slots;
                 popFrame();
                 VM_DEBUG(2, "frame popped");
+                if (tag && atErrTag(tag)) return false;
                 row = currentChunk()->catchTbl;
                 ensureRow = NULL;
                 continue;
@@ -2107,6 +2125,23 @@ static ErrTagInfo *findErrTag(ObjClass *klass) {
     return NULL;
 }
 
+NORETURN static void jumpToCatchRow(Value err, bytecode_t *ipNew, CatchTable *catchRow) {
+    ASSERT(ipNew);
+    ASSERT(catchRow);
+    catchRow->lastThrownValue = err;
+    if (catchRow->stackDepth >= 0) { // drop the try block's locals and temporaries
+        Value *newTop = getFrame()->slots + catchRow->stackDepth;
+        if (EC->stackTop > newTop) {
+            closeUpvalues(newTop);
+            EC->stackTop = newTop;
+        }
+    }
+    getFrame()->ip = ipNew;
+    DBG_ASSERT(getFrame()->closure->function->chunk->catchTbl);
+    DBG_ASSERT(getFrame()->jmpBufSet);
+    longjmp(getFrame()->jmpBuf, JUMP_PERFORMED);
+}
+
 NORETURN void throwError(Value self) {
     VM_DEBUG(2, "throwing error");
     ASSERT(vm.inited);
@@ -2123,6 +2158,11 @@ NORETURN void throwError(Value self) {
     bytecode_t *ipNew = NULL;
     ErrTagInfo *errInfo = NULL;
     if ((errInfo = findErrTag(klass))) {
+        // break, continue and return from blocks can't be caught by scripts
+        if (!IS_SUBCLASS(klass, lxBlockIterErrClass) &&
+                findThrowJumpLoc(klass, errInfo, &ipNew, &catchRow)) {
+            jumpToCatchRow(self, ipNew, catchRow);
+        }
         VM_DEBUG(2, "longjmping to errinfo tag");
         longjmp(errInfo->jmpBuf, JUMP_PERFORMED);
     }
@@ -2132,21 +2172,8 @@ NORETURN void throwError(Value self) {
         th->cCallThrew = true;
         longjmp(th->cCallJumpBuf, JUMP_PERFORMED);
     }
-    if (findThrowJumpLoc(klass, &ipNew, &catchRow)) {
-        ASSERT(ipNew);
-        ASSERT(catchRow);
-        catchRow->lastThrownValue = self;
-        if (catchRow->stackDepth >= 0) { // drop the try block's locals and temporaries
-            Value *newTop = getFrame()->slots + catchRow->stackDepth;
-            if (EC->stackTop > newTop) {
-                closeUpvalues(newTop);
-                EC->stackTop = newTop;
-            }
-        }
-        getFrame()->ip = ipNew;
-        DBG_ASSERT(getFrame()->closure->function->chunk->catchTbl);
-        DBG_ASSERT(getFrame()->jmpBufSet);
-        longjmp(getFrame()->jmpBuf, JUMP_PERFORMED);
+    if (findThrowJumpLoc(klass, NULL, &ipNew, &catchRow)) {
+        jumpToCatchRow(self, ipNew, catchRow);
     } else {
         ASSERT(rootVMLoopJumpBufSet);
         longjmp(rootVMLoopJumpBuf, JUMP_PERFORMED);
-- 
2.43.0


From d27184a0c860ac3a03a478e56de4387b26201695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:18 +0000
Subject: [PATCH 10/64] fix: an ensure block runs once for the innermost try
 and rethrows only its own error

---
 chunk.c    |  2 --
 chunk.h    |  1 -
 compiler.c | 12 +++++++++---
 debug.c    |  4 ++--
 vm.c       | 40 +++++++++++++++-------------------------
 5 files changed, 26 insertions(+), 33 deletions(-)

diff --git a/chunk.c b/chunk.c
index 9596dcc..549f083 100644
--- a/chunk.c
+++ b/chunk.c
@@ -217,7 +217,6 @@ int iseqAddCatchRow(
     tblRow->stackDepth = stackDepth;
     tblRow->catchVal = catchVal;
     tblRow->isEnsure = false;
-    tblRow->isEnsureRunning = false;
     memset(&tblRow->lastThrownValue, 0, sizeof(Value));
     tblRow->next = NULL;
 
@@ -250,7 +249,6 @@ int iseqAddEnsureRow(
     tblRow->stackDepth = stackDepth;
     tblRow->catchVal = NIL_VAL;
     tblRow->isEnsure = true;
-    tblRow->isEnsureRunning = false;
     memset(&tblRow->lastThrownValue, 0, sizeof(Value));
     tblRow->next = NULL;
 
diff --git a/chunk.h b/chunk.h
index 0225049..a51ad03 100644
--- a/chunk.h
+++ b/chunk.h
@@ -25,7 +25,6 @@ typedef struct CatchTable {
 
     struct CatchTable *next; // next row in the catch table
     bool isEnsure; // is an ensure block
-    bool isEnsureRunning;
     int stackDepth; // locals live at the start of the try block, or -1
 } CatchTable;
 
diff --git a/compiler.c b/compiler.c
index d9c67c4..ec821fb 100644
--- a/compiler.c
+++ b/compiler.c
@@ -2505,11 +2505,17 @@ static void emitNode(Node *n) {
                             patchJump(jump, -1, currentIseq()->tail);
                         }
                         vec_clear(&vjumps);
-                        double catchTblRowIdx = iseqAddEnsureRow(iseq, ifrom, ito, itarget, stackDepth);
-                        bytecode_t rethrowIfArg = makeConstant(NUMBER_VAL(catchTblRowIdx), CONST_T_NUMLIT);
                         pushScope(COMPILE_SCOPE_TRY);
+                        // The error to rethrow is a hidden local. It's nil if the ensure
+                        // block is entered normally, otherwise the VM pushes it.
+                        emitOp0(OP_NIL);
+                        itarget = iseq->wordCount;
+                        iseqAddEnsureRow(iseq, ifrom, ito, itarget, stackDepth);
+                        Token errTok = syntheticToken("(ensure)");
+                        bytecode_t errSlot = (bytecode_t)declareVariable(&errTok);
+                        emitOp2(OP_SET_LOCAL, errSlot, identifierConstant(&errTok));
                         emitNode(vec_last(ensureStmt->children)); // ensure block
-                        emitOp1(OP_RETHROW_IF_ERR, rethrowIfArg);
+                        emitOp1(OP_RETHROW_IF_ERR, errSlot);
                         popScope(COMPILE_SCOPE_TRY);
                     }
                 }
diff --git a/debug.c b/debug.c
index ccffebb..420fc8b 100644
--- a/debug.c
+++ b/debug.c
@@ -703,7 +703,6 @@ int printDisassembledInstruction(FILE *f, Chunk *chunk, int i, vec_funcp_t *func
         case OP_PROP_GET:
         case OP_PROP_SET:
         case OP_GET_THROWN:
-        case OP_RETHROW_IF_ERR:
         case OP_GET_SUPER:
         case OP_REGEX:
             return printConstantInstruction(f, opName(byte), chunk, i);
@@ -787,6 +786,7 @@ int printDisassembledInstruction(FILE *f, Chunk *chunk, int i, vec_funcp_t *func
         case OP_TO_BLOCK:
             return printSimpleInstruction(f, opName(byte), i);
         case OP_POP_N:
+        case OP_RETHROW_IF_ERR:
             return printByteInstruction(f, opName(byte), chunk, i);
         case OP_POP_DEBUG:
             return printOpPopDebugInstruction(f, opName(byte), chunk, i);
@@ -819,7 +819,6 @@ static int disassembledInstruction(ObjString *buf, Chunk *chunk, int i, vec_func
         case OP_PROP_GET:
         case OP_PROP_SET:
         case OP_GET_THROWN:
-        case OP_RETHROW_IF_ERR:
         case OP_GET_SUPER:
         case OP_REGEX:
             return constantInstruction(buf, opName(byte), chunk, i);
@@ -901,6 +900,7 @@ static int disassembledInstruction(ObjString *buf, Chunk *chunk, int i, vec_func
         case OP_TO_BLOCK:
             return simpleInstruction(buf, opName(byte), i);
         case OP_POP_N:
+        case OP_RETHROW_IF_ERR:
             return byteInstruction(buf, opName(byte), chunk, i);
         default: {
             ASSERT(0);
diff --git a/vm.c b/vm.c
index b219ffd..37c5de9 100644
--- a/vm.c
+++ b/vm.c
@@ -2014,26 +2014,10 @@ static bool findThrowJumpLoc(ObjClass *klass, ErrTagInfo *tag, bytecode_t **ipOu
     int currentIpOff = (int)(getFrame()->ip - currentChunk()->code);
     bool poppedEC = false;
     VM_DEBUG(2, "findthrowjumploc");
-    CatchTable *ensureRow = NULL;
     while (row || EC->frameCount >= 1) {
         VM_DEBUG(2, "framecount: %d, num ECs: %d", EC->frameCount, th->v_ecs.length);
         if (row == NULL) { // no more catch table rows, pop a call frame
             VM_DEBUG(2, "row null");
-            if (ensureRow) {
-                if (ensureRow->isEnsureRunning) {
-                    ensureRow->isEnsureRunning = false;
-                } else {
-                  // found target ensure
-                  *ipOut = currentChunk()->code + ensureRow->itarget;
-                  *rowFound = ensureRow;
-                  while (getFrame()->isCCall) {
-                    popFrame();
-                  }
-                  ensureRow->isEnsureRunning = true;
-                  VM_DEBUG(2, "Catch jump location found (ensure)");
-                  return true;
-                }
-            }
             // scripts and evals have their tag in their own frame
             if (tag && getFrame() == tag->frame) {
                 return false;
@@ -2046,7 +2030,6 @@ static bool findThrowJumpLoc(ObjClass *klass, ErrTagInfo *tag, bytecode_t **ipOu
                 poppedEC = true;
                 ASSERT(EC->stackTop > getFrame()->slots);
                 row = currentChunk()->catchTbl;
-                ensureRow = NULL;
                 continue;
             } else { // more frames in this context to go through
                 ASSERT(EC->frameCount > 1);
@@ -2057,13 +2040,21 @@ static bool findThrowJumpLoc(ObjClass *klass, ErrTagInfo *tag, bytecode_t **ipOu
                 VM_DEBUG(2, "frame popped");
                 if (tag && atErrTag(tag)) return false;
                 row = currentChunk()->catchTbl;
-                ensureRow = NULL;
                 continue;
             }
         }
         // jump to location in catch row, if catch found
         if (row->isEnsure) {
-            ensureRow = row;
+            // covers the try block and its catch and else blocks
+            if (poppedEC || (currentIpOff > row->ifrom && currentIpOff <= row->itarget)) {
+                *ipOut = currentChunk()->code + row->itarget;
+                *rowFound = row;
+                while (getFrame()->isCCall) {
+                    popFrame();
+                }
+                VM_DEBUG(2, "Catch jump location found (ensure)");
+                return true;
+            }
             row = row->next;
             continue;
         }
@@ -2136,6 +2127,7 @@ NORETURN static void jumpToCatchRow(Value err, bytecode_t *ipNew, CatchTable *ca
             EC->stackTop = newTop;
         }
     }
+    if (catchRow->isEnsure) push(err); // rethrown at the end of the ensure block
     getFrame()->ip = ipNew;
     DBG_ASSERT(getFrame()->closure->function->chunk->catchTbl);
     DBG_ASSERT(getFrame()->jmpBufSet);
@@ -3469,12 +3461,10 @@ find_instance_method:
           DISPATCH_BOTTOM();
       }
       CASE_OP(RETHROW_IF_ERR): {
-          Value catchTblIdx = READ_CONSTANT();
-          ASSERT(IS_NUMBER(catchTblIdx));
-          double idx = AS_NUMBER(catchTblIdx);
-          CatchTable *ensureRow = getCatchTableRow((int)idx);
-          if (ensureRow->isEnsureRunning && !IS_NIL(th->lastErrorThrown)) {
-              throwError(th->lastErrorThrown);
+          bytecode_t slot = READ_WORD();
+          Value err = frame->slots[slot];
+          if (!IS_NIL(err)) {
+              throwError(err);
           }
           DISPATCH_BOTTOM();
       }
-- 
2.43.0


From 8e073eb50d86e3b2a7a79cf95cc5cd42e4c5855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 11/64] fix: a function called from a block returns to the
 block

---
 vm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vm.c b/vm.c
index 37c5de9..2feb3ee 100644
--- a/vm.c
+++ b/vm.c
@@ -3190,7 +3190,9 @@ find_instance_method:
       CASE_OP(RETURN): {
           // this is if we're in a block given by (&block), and we returned
           // (explicitly or implicitly)
-          if (!getFrame()->isEval && th->v_blockStack.length > 0) {
+          // (functions called by the block return as usual)
+          BlockStackEntry *bentry = vec_last_or(&th->v_blockStack, NULL);
+          if (!getFrame()->isEval && bentry && bentry->frame == getFrame()) {
               ObjString *key = INTERN("ret");
               VM_POP();
               Value ret;
-- 
2.43.0


From 5434b8ab38e0dc8317a935e0a25e535f6a0eb979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:16 +0000
Subject: [PATCH 12/64] fix: a captured variable assigned by a closure or block
 is seen by the function that owns it

---
 object.c  |  2 ++
 object.h  |  5 +++++
 runtime.c |  2 +-
 vm.c      | 17 ++++++++++++++---
 vm.h      |  2 +-
 5 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/object.c b/object.c
index dc1f4ad..258ec63 100644
--- a/object.c
+++ b/object.c
@@ -329,6 +329,8 @@ ObjUpvalue *newUpvalue(Value *slot, int flags) {
     ObjUpvalue *upvalue = ALLOCATE_OBJ(ObjUpvalue, OBJ_T_UPVALUE, flags);
     upvalue->closed = NIL_VAL;
     upvalue->value = slot; // stack slot
+    upvalue->scope = NULL; // set by captureUpvalue()
+    upvalue->slot = 0;
     upvalue->next = NULL; // it's the caller's responsibility to link it
     return upvalue;
 }
diff --git a/object.h b/object.h
index f10fb2a..be519b0 100644
--- a/object.h
+++ b/object.h
@@ -174,6 +174,11 @@ typedef struct ObjUpvalue {
   // the stack into here. field [value] is then be changed to point to this.
   Value closed;
 
+  // While the upvalue is open, the scope and local slot of the variable: the
+  // running function reads its locals from there. NULL once closed.
+  struct ObjScope *scope;
+  int slot;
+
   // Open upvalues are stored in a linked list.
   struct ObjUpvalue *next;
 } ObjUpvalue;
diff --git a/runtime.c b/runtime.c
index b1ff811..48d8c9e 100644
--- a/runtime.c
+++ b/runtime.c
@@ -319,7 +319,7 @@ static void fillClosureUpvalues(ObjClosure *block, ObjClosure *outer, CallFrame
     for (int i = 0; i < blockFn->upvalueCount; i++) {
         uint8_t index = blockFn->upvaluesInfo[i].index;
         if (blockFn->upvaluesInfo[i].isLocal) {
-            block->upvalues[i] = captureUpvalue(frame->slots+index);
+            block->upvalues[i] = captureUpvalue(frame, index);
         } else {
             DBG_ASSERT(outer->upvalues);
             block->upvalues[i] = outer->upvalues[index];
diff --git a/vm.c b/vm.c
index 2feb3ee..c918078 100644
--- a/vm.c
+++ b/vm.c
@@ -2258,12 +2258,15 @@ void printVMStack(FILE *f, LxThread *th) {
     fprintf(f, "\n");
 }
 
-ObjUpvalue *captureUpvalue(Value *local) {
+ObjUpvalue *captureUpvalue(CallFrame *frame, int slot) {
+    Value *local = frame->slots + slot;
     LxThread *th = vm.curThread;
     ObjInstance *threadInst = FIND_THREAD_INSTANCE(th->tid);
     ASSERT(threadInst);
     if (th->openUpvalues == NULL) {
         th->openUpvalues = newUpvalue(local, NEWOBJ_FLAG_NONE);
+        th->openUpvalues->scope = frame->scope;
+        th->openUpvalues->slot = slot;
         OBJ_WRITE(OBJ_VAL(threadInst), OBJ_VAL(th->openUpvalues));
         return th->openUpvalues;
     }
@@ -2292,6 +2295,8 @@ ObjUpvalue *captureUpvalue(Value *local) {
     // it already. Make a new one and link it in in the right place to keep the
     // list sorted.
     ObjUpvalue *createdUpvalue = newUpvalue(local, NEWOBJ_FLAG_NONE);
+    createdUpvalue->scope = frame->scope;
+    createdUpvalue->slot = slot;
     OBJ_WRITE(OBJ_VAL(threadInst), OBJ_VAL(createdUpvalue));
     createdUpvalue->next = upvalue;
 
@@ -2315,6 +2320,7 @@ static void closeUpvalues(Value *last) {
         // Copy the value into the upvalue itself and point the upvalue to it.
         upvalue->closed = *upvalue->value;
         upvalue->value = &upvalue->closed;
+        upvalue->scope = NULL;
 
         // Pop it off the open upvalue list.
         th->openUpvalues = upvalue->next;
@@ -2810,7 +2816,12 @@ vmLoop:
           bytecode_t slot = READ_WORD();
           bytecode_t varName = READ_WORD(); // for debugging
           (void)varName;
-          *frame->closure->upvalues[slot]->value = peek(0);
+          ObjUpvalue *upvalue = frame->closure->upvalues[slot];
+          *upvalue->value = peek(0);
+          // the function that owns the variable is still running
+          if (upvalue->scope && upvalue->slot < upvalue->scope->localsTable.size) {
+              upvalue->scope->localsTable.tbl[upvalue->slot] = peek(0);
+          }
           DISPATCH_BOTTOM();
       }
       CASE_OP(CLOSE_UPVALUE): {
@@ -2892,7 +2903,7 @@ vmLoop:
               bytecode_t index = READ_WORD();
               if (isLocal) {
                   // Make an new upvalue to close over the parent's local variable.
-                  closure->upvalues[i] = captureUpvalue(getFrame()->slots + index);
+                  closure->upvalues[i] = captureUpvalue(getFrame(), index);
               } else {
                   // Use the same upvalue as the current call frame.
                   closure->upvalues[i] = getFrame()->closure->upvalues[index];
diff --git a/vm.h b/vm.h
index f15822f..38cd3f1 100644
--- a/vm.h
+++ b/vm.h
@@ -380,7 +380,7 @@ Value callSuper(int argCount, Value *args, struct CallInfo *cinfo);
 }
 
 // upvalues
-ObjUpvalue *captureUpvalue(Value *local);
+ObjUpvalue *captureUpvalue(CallFrame *frame, int slot);
 
 // iterators
 Value createIterator(Value iterable);
-- 
2.43.0


From 87273589fe91860e2ce0057a295c2f8dd20c4d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:48 +0000
Subject: [PATCH 13/64] fix: a compound assignment to a property evaluates its
 object once

---
 compiler.c    | 6 ++++--
 debug.c       | 4 ++++
 opcodes.h.inc | 1 +
 vm.c          | 5 +++++
 4 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/compiler.c b/compiler.c
index ec821fb..1e23ad3 100644
--- a/compiler.c
+++ b/compiler.c
@@ -2337,8 +2337,10 @@ static void emitNode(Node *n) {
     // ex: obj.prop = 1
     // (propGet (var o) prop)
     case PROP_SET_BINOP_EXPR: {
-        emitNode(n->children->data[0]->children->data[0]);
-        emitNode(n->children->data[0]);
+        Node *propNode = n->children->data[0];
+        emitNode(propNode->children->data[0]); // the object, evaluated only once
+        emitOp0(OP_DUP);
+        emitOp1(OP_PROP_GET, identifierConstant(&propNode->tok));
         emitNode(n->children->data[1]);
         emitBinaryOp(n->tok);
         emitOp1(OP_PROP_SET, identifierConstant(&n->children->data[0]->tok));
diff --git a/debug.c b/debug.c
index 420fc8b..5db04ef 100644
--- a/debug.c
+++ b/debug.c
@@ -164,6 +164,8 @@ const char *opName(OpCode code) {
         return "OP_OR";
     case OP_POP:
         return "OP_POP";
+    case OP_DUP:
+        return "OP_DUP";
     case OP_POP_CREF:
         return "OP_POP_CREF";
     case OP_POP_N:
@@ -769,6 +771,7 @@ int printDisassembledInstruction(FILE *f, Chunk *chunk, int i, vec_funcp_t *func
         case OP_AND:
         case OP_OR:
         case OP_POP:
+        case OP_DUP:
         case OP_POP_CREF:
         case OP_LEAVE:
         case OP_THROW:
@@ -883,6 +886,7 @@ static int disassembledInstruction(ObjString *buf, Chunk *chunk, int i, vec_func
         case OP_AND:
         case OP_OR:
         case OP_POP:
+        case OP_DUP:
         case OP_POP_CREF:
         case OP_LEAVE:
         case OP_THROW:
diff --git a/opcodes.h.inc b/opcodes.h.inc
index 9137623..39ec951 100644
--- a/opcodes.h.inc
+++ b/opcodes.h.inc
@@ -66,6 +66,7 @@ OPCODE(AND)
 OPCODE(OR)
 
 OPCODE(POP)
+OPCODE(DUP)
 OPCODE(POP_CREF)
 OPCODE(POP_N)
 OPCODE(POP_DEBUG)
diff --git a/vm.c b/vm.c
index c918078..bc7edba 100644
--- a/vm.c
+++ b/vm.c
@@ -2747,6 +2747,11 @@ vmLoop:
           VM_POP();
           DISPATCH_BOTTOM();
       }
+      CASE_OP(DUP): {
+          Value top = VM_PEEK(0);
+          VM_PUSH(top);
+          DISPATCH_BOTTOM();
+      }
       CASE_OP(POP_DEBUG): {
           Value reason = READ_CONSTANT();
           (void)reason;
-- 
2.43.0


From 14d24425a385f0b9eaf384a4e5d6895c4ab6d5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 14/64] fix: return in a function or method defined inside a
 block compiles

---
 compiler.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler.c b/compiler.c
index 1e23ad3..3d33e69 100644
--- a/compiler.c
+++ b/compiler.c
@@ -1630,6 +1630,8 @@ static ObjFunction *emitFunction(Node *n, FunctionType ftype) {
     if (ftype == FUN_TYPE_BLOCK) {
         blockDepth++;
         breakBlock = true;
+    } else { // a return in it leaves the function, even if it's inside a block
+        breakBlock = false;
     }
     eLoopType oldLoopType = curLoopType;
     curLoopType = LOOP_T_BLOCK;
@@ -1637,8 +1639,8 @@ static ObjFunction *emitFunction(Node *n, FunctionType ftype) {
     curLoopType = oldLoopType;
     if (ftype == FUN_TYPE_BLOCK) {
         blockDepth--;
-        breakBlock = oldBreakBlock;
     }
+    breakBlock = oldBreakBlock;
     popScope(stype);
     func = endCompiler();
     ASSERT(func->chunk);
-- 
2.43.0


From dd2f897ca8ad36e5e828228f6d9bbfa493355829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:52 +0000
Subject: [PATCH 15/64] fix: escapes and unterminated interpolations in string
 literals keep their text

---
 parser.c  | 4 ++--
 scanner.c | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser.c b/parser.c
index cb2bef6..72a51aa 100644
--- a/parser.c
+++ b/parser.c
@@ -1559,8 +1559,8 @@ static Node *primary() {
             beg = end+1;
         }
         if (vnodes.length > 0) {
-            char *restStart = end+1;
-            int restLen = (str+strlen(str))-end;
+            char *restStart = beg; // past the last interpolated expression
+            int restLen = strlen(restStart);
             char *rest = calloc(1, restLen+1);
             ASSERT_MEM(rest);
             strncpy(rest, restStart, restLen);
diff --git a/scanner.c b/scanner.c
index 52228fd..d1b726d 100644
--- a/scanner.c
+++ b/scanner.c
@@ -136,8 +136,10 @@ static void strReplace(char *str, char *substr, char replace) {
     char *found = NULL;
     int len = strlen(substr);
     int difflen = len-1;
-    while ((found = strstr(str, substr)) != NULL) {
+    char *from = str; // don't look again at text that was already replaced
+    while ((found = strstr(from, substr)) != NULL) {
         *found = replace;
+        from = found+1;
         if (len != 1) {
             int left = strlen(str)-(found-str);
             memmove(found+1, found+1+difflen, left-(difflen+1));
-- 
2.43.0


From 1ac0ddbcebebab3d567c8fb23c46372754ecacd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 16/64] fix: a heredoc ends only at its own pattern and may be
 empty or long

---
 scanner.c | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/scanner.c b/scanner.c
index d1b726d..76769e3 100644
--- a/scanner.c
+++ b/scanner.c
@@ -403,14 +403,15 @@ static Token singleQuotedString(bool isStatic) {
     return tok;
 }
 
-static void scanLine(char *buf, size_t lineMax, size_t *sizeOut) {
+// Scans up to the end of the line, returns the number of characters scanned
+static size_t scanLine(void) {
   char c;
   size_t i = 0;
   while ((c = peek()) && c != '\n' && c != '\r') {
-    buf[i++] = c;
+    i++;
     advance();
   }
-  *sizeOut = i;
+  return i;
 }
 
 static void scanNewline(void) {
@@ -419,32 +420,24 @@ static void scanNewline(void) {
 }
 
 static Token heredocString(void) {
-    char patBuf[100];
-    memset(patBuf, 0, 100);
-#define LINE_MAX 4096
-    char line[LINE_MAX];
-    size_t lineLen = 0;
-    char c;
-    int patBufi = 0;
     // scan the heredoc pattern until newline
-    while ((c = peek()) && c != '\n' && c != '\r') {
-        patBuf[patBufi++] = c;
-        advance();
-    }
+    int patStart = current->currentIndex;
+    int patLen = (int)scanLine();
     scanNewline();
-    if (strlen(patBuf) == 0) {
+    if (patLen == 0) {
         return errorToken("Heredoc needs a pattern after <<<");
     }
     current->tokenStartIdx = current->currentIndex;
     // scan the lines of the string
     while (!isAtEndGetMore()) {
-        scanLine(line, LINE_MAX, &lineLen);
-#undef LINE_MAX
-        if (strncmp(line, patBuf, patBufi) == 0) { // end of heredoc
-            int extraLen = lineLen-patBufi;
+        int lineStart = current->currentIndex;
+        int lineLen = (int)scanLine();
+        if (lineLen >= patLen && strncmp(current->source+lineStart,
+                    current->source+patStart, patLen) == 0) { // end of heredoc
+            int extraLen = lineLen-patLen;
             Token tok = makeToken(TOKEN_STRING_DQUOTE);
-            tok.length -= (extraLen+patBufi);
-            ASSERT(tok.length > 0);
+            tok.length -= (extraLen+patLen);
+            ASSERT(tok.length >= 0);
             // unscan the ';' or ');' after the pattern, if on the same line
             current->currentIndex -= extraLen;
 
-- 
2.43.0


From df519d71557f5551c3b7381d49fb1ecc0abbd9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:33 +0000
Subject: [PATCH 17/64] fix: Map#each visits every entry, merge checks its
 argument's type first

---
 map.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/map.c b/map.c
index 47088ad..7b6157c 100644
--- a/map.c
+++ b/map.c
@@ -250,8 +250,8 @@ static Value lxMapMerge(int argCount, Value *args) {
     CHECK_ARITY("Map#merge", 2, 2, argCount);
     Value self = args[0];
     Value other = args[1];
-    Table *otherMap = AS_MAP(other)->table;
     CHECK_ARG_IS_A(other, lxMapClass, 1);
+    Table *otherMap = AS_MAP(other)->table;
     Value ret = callMethod(AS_OBJ(self), INTERN("dup"), 0, NULL, NULL);
     Table *retMap = AS_MAP(ret)->table;
     Entry e; int idx = 0;
@@ -268,9 +268,9 @@ static Value lxMapMergeWith(int argCount, Value *args) {
     CHECK_ARITY("Map#mergeWith", 2, 2, argCount);
     Value self = args[0];
     Value other = args[1];
+    CHECK_ARG_IS_A(other, lxMapClass, 1);
     Table *myMap = AS_MAP(self)->table;
     Table *otherMap = AS_MAP(other)->table;
-    CHECK_ARG_IS_A(other, lxMapClass, 1);
     if (isFrozen(AS_OBJ(self))) {
         throwErrorFmt(lxErrClass, "%s", "Map is frozen, cannot modify");
     }
@@ -347,7 +347,11 @@ static Value lxMapEach(int argCount, Value *args) {
     }
     volatile BlockStackEntry *bentry = NULL;
     while (true) {
-        if (startIdx == map->count) {
+        // startIdx is an index into the table's entries, not all are in use
+        while (startIdx <= map->capacityMask && IS_UNDEF(map->entries[startIdx].key)) {
+            startIdx++;
+        }
+        if (startIdx > map->capacityMask) {
             return *args;
         }
         SETUP_BLOCK(block, bentry, status, th->errInfo)
-- 
2.43.0


From 018e9d913b4bf84f1b64cbad41b538a274959c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:17 +0000
Subject: [PATCH 18/64] fix: foreach visits nil and false elements

---
 compiler.c    |  5 +++--
 debug.c       |  3 +++
 opcodes.h.inc |  1 +
 runtime.c     | 19 +++++++++++++------
 runtime.h     |  1 +
 vm.c          | 13 +++++++++++--
 6 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/compiler.c b/compiler.c
index 3d33e69..629af20 100644
--- a/compiler.c
+++ b/compiler.c
@@ -470,6 +470,7 @@ static bool isJump(Insn *in) {
         case OP_JUMP_IF_TRUE:
         case OP_JUMP_IF_TRUE_PEEK:
         case OP_JUMP_IF_FALSE_PEEK:
+        case OP_JUMP_IF_UNDEF_PEEK:
             return true;
         default:
             return false;
@@ -2093,8 +2094,8 @@ static void emitNode(Node *n) {
         emitOp0(OP_ITER); // push iterator to stack
         int beforeIterNext = currentIseq()->wordCount+2;
         emitOp0(OP_ITER_NEXT);
-        // TODO: op_jump_if_undef? Otherwise, nil or false marks end of iteration
-        Insn *iterDone = emitJump(OP_JUMP_IF_FALSE_PEEK);
+        // nil and false are elements like any other, undef marks the end
+        Insn *iterDone = emitJump(OP_JUMP_IF_UNDEF_PEEK);
         bytecode_t slotNum = 0; int slotIdx = 0;
         int setOp = numVars > 1 ? OP_UNPACK_SET_LOCAL : OP_SET_LOCAL;
         vec_foreach(&v_slots, slotNum, slotIdx) {
diff --git a/debug.c b/debug.c
index 5db04ef..8a8bed7 100644
--- a/debug.c
+++ b/debug.c
@@ -177,6 +177,7 @@ const char *opName(OpCode code) {
     case OP_JUMP_IF_TRUE:
         return "OP_JUMP_IF_TRUE";
     case OP_JUMP_IF_FALSE_PEEK:
+    case OP_JUMP_IF_UNDEF_PEEK:
         return "OP_JUMP_IF_FALSE_P";
     case OP_JUMP_IF_TRUE_PEEK:
         return "OP_JUMP_IF_TRUE_P";
@@ -733,6 +734,7 @@ int printDisassembledInstruction(FILE *f, Chunk *chunk, int i, vec_funcp_t *func
         case OP_JUMP_IF_FALSE:
         case OP_JUMP_IF_TRUE:
         case OP_JUMP_IF_FALSE_PEEK:
+        case OP_JUMP_IF_UNDEF_PEEK:
         case OP_JUMP_IF_TRUE_PEEK:
             return printJumpInstruction(f, opName(byte), chunk, i);
         case OP_LOOP:
@@ -850,6 +852,7 @@ static int disassembledInstruction(ObjString *buf, Chunk *chunk, int i, vec_func
         case OP_JUMP_IF_FALSE:
         case OP_JUMP_IF_TRUE:
         case OP_JUMP_IF_FALSE_PEEK:
+        case OP_JUMP_IF_UNDEF_PEEK:
         case OP_JUMP_IF_TRUE_PEEK:
             return jumpInstruction(buf, opName(byte), chunk, i);
         case OP_LOOP:
diff --git a/opcodes.h.inc b/opcodes.h.inc
index 39ec951..2a8db99 100644
--- a/opcodes.h.inc
+++ b/opcodes.h.inc
@@ -82,6 +82,7 @@ OPCODE(JUMP)
 OPCODE(JUMP_IF_FALSE)
 OPCODE(JUMP_IF_TRUE)
 OPCODE(JUMP_IF_FALSE_PEEK)
+OPCODE(JUMP_IF_UNDEF_PEEK)
 OPCODE(JUMP_IF_TRUE_PEEK)
 OPCODE(LOOP)
 OPCODE(BREAK)
diff --git a/runtime.c b/runtime.c
index 48d8c9e..c8b555c 100644
--- a/runtime.c
+++ b/runtime.c
@@ -1228,9 +1228,8 @@ Value lxIteratorInit(int argCount, Value *args) {
     return self;
 }
 
-Value lxIteratorNext(int argCount, Value *args) {
-    CHECK_ARITY("Iterator#next", 1, 1, argCount);
-    Value self = args[0];
+// Returns undef at the end of the iteration
+Value lxIteratorNextOrUndef(Value self) {
     ObjInstance *selfObj = AS_INSTANCE(self);
     ObjInternal *internalObj = selfObj->internal;
     Iterator *iter = internalGetData(internalObj);
@@ -1240,7 +1239,7 @@ Value lxIteratorNext(int argCount, Value *args) {
     if (iter->flags & FLAG_ITER_ARRAY) {
         int nextIdx = ++(iter->index);
         if (nextIdx >= ARRAY_SIZE(iterable)) {
-            return NIL_VAL;
+            return UNDEF_VAL;
         } else {
             Value ret = ARRAY_GET(iterable, nextIdx);
             ASSERT(!IS_UNDEF(ret));
@@ -1250,7 +1249,7 @@ Value lxIteratorNext(int argCount, Value *args) {
         Table *map = AS_MAP(iterable)->table;
         int nextIdx = ++(iter->index);
         if (nextIdx >= map->count) {
-            return NIL_VAL;
+            return UNDEF_VAL;
         } else {
             int realIndex = -1;
             Entry e = tableNthEntry(map, nextIdx, &realIndex);
@@ -1265,13 +1264,21 @@ Value lxIteratorNext(int argCount, Value *args) {
             }
         }
     } else if (iter->flags & FLAG_ITER_INSTANCE) {
-        return callMethod(AS_OBJ(iterable), INTERN("iterNext"), 0, NULL, NULL);
+        // a user-defined iterNext() marks the end with nil (or false)
+        Value ret = callMethod(AS_OBJ(iterable), INTERN("iterNext"), 0, NULL, NULL);
+        return isTruthy(ret) ? ret : UNDEF_VAL;
     } else {
         UNREACHABLE("bug, typeof val: %s", typeOfVal(iterable));
     }
     UNREACHABLE(__func__);
 }
 
+Value lxIteratorNext(int argCount, Value *args) {
+    CHECK_ARITY("Iterator#next", 1, 1, argCount);
+    Value ret = lxIteratorNextOrUndef(args[0]);
+    return IS_UNDEF(ret) ? NIL_VAL : ret;
+}
+
 
 Value lxErrInit(int argCount, Value *args) {
     CHECK_ARITY("Error#init", 1, 2, argCount);
diff --git a/runtime.h b/runtime.h
index cbbccee..910a750 100644
--- a/runtime.h
+++ b/runtime.h
@@ -138,6 +138,7 @@ extern ObjNative *nativeMapInit;
 // class Iterator
 Value lxIteratorInit(int argCount, Value *args);
 Value lxIteratorNext(int argCount, Value *args);
+Value lxIteratorNextOrUndef(Value self);
 //Value lxIteratorRewind(int argCount, Value *args);
 //Value lxIteratorIsAtEnd(int argCount, Value *args);
 extern ObjNative *nativeIteratorInit;
diff --git a/vm.c b/vm.c
index bc7edba..a8e7b0a 100644
--- a/vm.c
+++ b/vm.c
@@ -345,7 +345,7 @@ static bool isIterator(Value val) {
 }
 
 static Value iteratorNext(Value iterator) {
-    return lxIteratorNext(1, &iterator);
+    return lxIteratorNextOrUndef(iterator);
 }
 
 // NOTE: argument must be an iterable type (see isIterableType);
@@ -2946,6 +2946,16 @@ vmLoop:
           VM_CHECK_INTS(th);
           DISPATCH_BOTTOM();
       }
+      CASE_OP(JUMP_IF_UNDEF_PEEK): { // end of foreach
+          Value cond = VM_PEEK(0);
+          bytecode_t ipOffset = READ_WORD();
+          if (IS_UNDEF(cond)) {
+              DBG_ASSERT(ipOffset > 0);
+              frame->ip += (ipOffset-1);
+          }
+          VM_CHECK_INTS(th);
+          DISPATCH_BOTTOM();
+      }
       CASE_OP(JUMP_IF_TRUE_PEEK): {
           Value cond = VM_PEEK(0);
           bytecode_t ipOffset = READ_WORD();
@@ -3250,7 +3260,6 @@ find_instance_method:
           Value iterator = VM_PEEK(0);
           ASSERT(isIterator(iterator));
           Value next = iteratorNext(iterator);
-          ASSERT(!IS_UNDEF(next));
           VM_PUSH(next);
           DISPATCH_BOTTOM();
       }
-- 
2.43.0


From a3a6ca5f7e5f98e58e0d01b085f9fdbed128d4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 19/64] fix: Array#pushFront keeps every element

---
 value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.c b/value.c
index e32e5ab..e1917b9 100644
--- a/value.c
+++ b/value.c
@@ -57,7 +57,7 @@ void writeValueArrayBeg(ValueArray *array, Value value) {
 
     Value *dest = array->values+1;
     Value *src = array->values;
-    memmove(dest, src, sizeof(Value));
+    memmove(dest, src, sizeof(Value) * array->count);
     array->values[0] = value;
     array->count++;
 }
-- 
2.43.0


From b13456c91ca5ae04d87714d4fa89b043ab0ce0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 20/64] fix: Array.fill of no elements is empty, deleteAt a
 negative index finds nothing

---
 array.c  | 7 ++-----
 object.c | 2 +-
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/array.c b/array.c
index 80f9f84..a6f11d2 100644
--- a/array.c
+++ b/array.c
@@ -312,12 +312,9 @@ static Value lxArrayFillStatic(int argCount, Value *args) {
     Value ret = OBJ_VAL(newInstance(lxAryClass, NEWOBJ_FLAG_NONE));
     ObjArray *selfObj = AS_ARRAY(ret);
     ValueArray *ary = &selfObj->valAry;
-    if (capaNum > 1) {
-        initValueArrayWithCapa(ary, capaNum);
+    initValueArrayWithCapa(ary, capaNum);
+    if (capaNum > 0) {
         writeValueArrayBulk(ary, 0, (size_t)capaNum, fill);
-    } else {
-        initValueArray(ary);
-        writeValueArrayEnd(ary, fill);
     }
     OBJ_WRITE(ret, fill);
     return ret;
diff --git a/object.c b/object.c
index 258ec63..c84fbb0 100644
--- a/object.c
+++ b/object.c
@@ -947,7 +947,7 @@ bool arrayDeleteAt(Value self, int idx, Value *found) {
     }
     arrayDedup(AS_ARRAY(self));
     ValueArray *ary = &AS_ARRAY(self)->valAry;
-    if (ary->count > idx) {
+    if (idx >= 0 && ary->count > idx) {
         Value val = ary->values[idx];
         removeValueArray(ary, idx);
         *found = val;
-- 
2.43.0


From cffe4e76638ce35cdcebc4367b25c14652f20eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 21/64] fix: assigning to an element of an array or sorting it
 leaves the array literal alone

---
 array.c  | 1 +
 object.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/array.c b/array.c
index a6f11d2..2035dfb 100644
--- a/array.c
+++ b/array.c
@@ -256,6 +256,7 @@ static Value lxArrayOpIndexSet(int argCount, Value *args) {
     if (isFrozen((Obj*)selfObj)) {
         throwErrorFmt(lxErrClass, "%s", "Array is frozen, cannot modify");
     }
+    arrayDedup(selfObj); // don't modify the literal
     ValueArray *ary = &selfObj->valAry;
     int idx = (int)AS_NUMBER(num);
     if (idx < 0) {
diff --git a/object.c b/object.c
index c84fbb0..e90b1d1 100644
--- a/object.c
+++ b/object.c
@@ -815,6 +815,7 @@ static int valCmpBlock(const void *a, const void *b) {
 Value arraySort(Value aryVal) {
     Value ret = arrayDup(aryVal);
     ObjArray *retAry = AS_ARRAY(ret);
+    arrayDedup(retAry); // don't modify the literal
     ValueArray valAry = retAry->valAry;
     Value *values = valAry.values;
     qsort(values, valAry.count, sizeof(Value), valCmp);
@@ -824,6 +825,7 @@ Value arraySort(Value aryVal) {
 Value arraySortBy(Value aryVal) {
     Value ret = arrayDup(aryVal);
     ObjArray *retAry = AS_ARRAY(ret);
+    arrayDedup(retAry); // don't modify the literal
     ValueArray valAry = retAry->valAry;
     Value *values = valAry.values;
     qsort(values, valAry.count, sizeof(Value), valCmpBlock);
-- 
2.43.0


From b0d373ebeed9092171e44cd6b3207d47c49d41f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:12 +0000
Subject: [PATCH 22/64] fix: strings with equal hashes are equal only if their
 characters are

---
 object.c | 2 +-
 table.c  | 3 ---
 value.c  | 4 ++--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/object.c b/object.c
index e90b1d1..ce70da9 100644
--- a/object.c
+++ b/object.c
@@ -157,7 +157,7 @@ void pushString(Value self, Value pushed) {
 bool objStringEquals(ObjString *a, ObjString *b) {
     DBG_ASSERT(a && b);
     if (a->length != b->length) return false;
-    if (a->hash > 0 && b->hash > 0) return a->hash == b->hash;
+    if (a->hash > 0 && b->hash > 0 && a->hash != b->hash) return false;
     return strcmp(a->chars, b->chars) == 0;
 }
 
diff --git a/table.c b/table.c
index fd83380..142acd5 100644
--- a/table.c
+++ b/table.c
@@ -203,9 +203,6 @@ ObjString *tableFindString(Table *table, const char* chars, size_t length,
         if (UNLIKELY(IS_UNDEF(entry->key))) return NULL;
         if (IS_STRING(entry->key)) {
             ObjString *stringKey = AS_STRING(entry->key);
-            if (stringKey->hash && stringKey->hash == hash) {
-                return stringKey;
-            }
             if (stringKey->length == length &&
                     memcmp(stringKey->chars, chars, length) == 0) {
                 // We found it.
diff --git a/value.c b/value.c
index e1917b9..8aac794 100644
--- a/value.c
+++ b/value.c
@@ -486,8 +486,8 @@ bool valEqual(Value a, Value b) {
             if (IS_STRING(a) && IS_STRING(b)) {
                 ObjString *aStr = AS_STRING(a);
                 ObjString *bStr = AS_STRING(b);
-                if (aStr->hash && bStr->hash) {
-                    return aStr->hash == bStr->hash;
+                if (aStr->hash && bStr->hash && aStr->hash != bStr->hash) {
+                    return false;
                 }
                 return aStr->length == bStr->length && strcmp(aStr->chars, bStr->chars) == 0;
             }
-- 
2.43.0


From 10a8c95c2bf817728b329035ef9c560b0b4f6124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:18 +0000
Subject: [PATCH 23/64] fix: flush stdout before the process exits, so that
 output to a pipe or file is not lost

---
 process.c | 1 +
 vm.c      | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/process.c b/process.c
index fc22a55..998233a 100644
--- a/process.c
+++ b/process.c
@@ -34,6 +34,7 @@ static Value lxForkStatic(int argCount, Value *args) {
             throwArgErrorFmt("Expected argument 1 to be callable, is: %s", typeOfVal(func));
         }
     }
+    fflush(stdout); // don't let the child write it again
     pid_t pid = fork();
     if (pid < 0) { // error, TODO: should throw?
         return NUMBER_VAL(-1);
diff --git a/vm.c b/vm.c
index a8e7b0a..29e1195 100644
--- a/vm.c
+++ b/vm.c
@@ -4024,6 +4024,7 @@ NORETURN void stopVM(int status) {
         }
         vm.exited = true;
         vm.numLivingThreads--;
+        fflush(stdout); // _exit() doesn't do it
         // NOTE: pthread_exit in last thread always exits with 0, so have to call _exit manually
         _exit(th->exitStatus);
     } else {
@@ -4062,6 +4063,7 @@ NORETURN void _stopVM(int status) {
         }
         vm.exited = true;
         vm.numLivingThreads--;
+        fflush(stdout);
         _exit(status);
     }
 }
-- 
2.43.0


From ce1b2cc7db863197c59bd50a659e3162f4a7cda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:57 +0000
Subject: [PATCH 24/64] fix: String methods check their arguments, compact
 keeps a single character, padRight leaves the literal alone

---
 object.c |  3 +++
 string.c | 30 +++++++++++++++++++-----------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/object.c b/object.c
index ce70da9..e223a11 100644
--- a/object.c
+++ b/object.c
@@ -846,6 +846,9 @@ void stringInsertAt(Value self, Value insert, size_t at, bool replaceAt) {
     }
     ObjString *selfBuf = AS_STRING(self);
     ObjString *insertBuf = AS_STRING(insert);
+    if (at > selfBuf->length) {
+        throwArgErrorFmt("%s", "index too big");
+    }
     insertObjString(selfBuf, insertBuf, at, replaceAt);
 }
 
diff --git a/string.c b/string.c
index 6b6ac1a..640a380 100644
--- a/string.c
+++ b/string.c
@@ -100,6 +100,7 @@ static Value lxStringOpMul(int argCount, Value *args) {
     }
     ObjString *lhsBuf = dupString(AS_STRING(self));
     int num = AS_NUMBER(rhs);
+    if (num <= 0) return OBJ_VAL(emptyString());
     num--; // because "string" * 1 == "string"
     while (num > 0) {
       pushObjString(lhsBuf, AS_STRING(self));
@@ -226,6 +227,9 @@ static Value lxStringSplit(int argCount, Value *args) {
     char *hay = AS_CSTRING(self);
     char *needle = AS_CSTRING(pat);
     char *end = hay + strlen(hay);
+    if (*needle == '\0') {
+        throwArgErrorFmt("%s", "can't split on an empty string");
+    }
 
     char *res = NULL;
     // ex: hay: "hello,,there", needle: ",,"
@@ -256,6 +260,13 @@ static Value lxStringPadRight(int argCount, Value *args) {
     if (newLen <= oldLen) {
       return self;
     }
+    if (padStr->length == 0) {
+        throwArgErrorFmt("%s", "padding cannot be empty");
+    }
+    if (isFrozen(AS_OBJ(self))) {
+        throwErrorFmt(lxErrClass, "%s", "String is frozen, cannot modify");
+    }
+    dedupString(selfStr);
     int bytesToPad = newLen - oldLen;
     while (bytesToPad > 0) {
       pushCString(selfStr, padStr->chars, 1);
@@ -309,16 +320,14 @@ static Value lxStringCompact(int argCount, Value *args) {
     char *orig = AS_CSTRING(self);
     ObjString *new = copyString("", 0, NEWOBJ_FLAG_NONE);
     char *start = orig;
-    char *end = start + strlen(orig)-1;
-    while (start < end && isspace(*start)) {
+    char *end = start + strlen(orig);
+    while (start < end && isspace((unsigned char)*start)) {
       start++;
     }
-    while (end > start && isspace(*end)) {
+    while (end > start && isspace((unsigned char)end[-1])) {
       end--;
     }
-    if (start < end) {
-      pushCString(new, start, end-start+1);
-    }
+    pushCString(new, start, end-start);
     return OBJ_VAL(new);
 }
 
@@ -328,13 +337,11 @@ static Value lxStringCompactLeft(int argCount, Value *args) {
     char *orig = AS_CSTRING(self);
     ObjString *new = copyString("", 0, NEWOBJ_FLAG_NONE);
     char *start = orig;
-    char *end = start + strlen(orig)-1;
-    while (start < end && isspace(*start)) {
+    char *end = start + strlen(orig);
+    while (start < end && isspace((unsigned char)*start)) {
       start++;
     }
-    if (start < end) {
-      pushCString(new, start, end-start+1);
-    }
+    pushCString(new, start, end-start);
     return OBJ_VAL(new);
 }
 
@@ -342,6 +349,7 @@ static Value lxStringIndex(int argCount, Value *args) {
     CHECK_ARITY("String#index", 2, 2, argCount);
     Value self = args[0];
     Value needleVal = args[1];
+    CHECK_ARG_IS_A(needleVal, lxStringClass, 1);
     char *hay = AS_CSTRING(self);
     char *needle = AS_CSTRING(needleVal);
     char *found = strstr(hay, needle);
-- 
2.43.0


From 4c5cfc013856f4559e87f413023f617f77a7d640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:44 +0000
Subject: [PATCH 25/64] fix: a return without value in a script and an
 assignment to a property of super compile or are rejected, not aborted on

---
 compiler.c |  3 +++
 parser.c   | 12 +-----------
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/compiler.c b/compiler.c
index 629af20..c6f1267 100644
--- a/compiler.c
+++ b/compiler.c
@@ -2372,6 +2372,9 @@ static void emitNode(Node *n) {
             } else {
                 if (current->type == FUN_TYPE_BLOCK) {
                     emitOp0(OP_BLOCK_CONTINUE);
+                } else if (current->type == FUN_TYPE_TOP_LEVEL) {
+                    emitOp0(OP_NIL);
+                    emitOp0(OP_RETURN);
                 } else {
                     emitReturn(current);
                 }
diff --git a/parser.c b/parser.c
index 72a51aa..9ee4141 100644
--- a/parser.c
+++ b/parser.c
@@ -1109,17 +1109,7 @@ static Node *assignment() {
             freeNode(lval, false);
             TRACE_END("indexGetExpr");
         } else if (nodeKind(lval) == SUPER_EXPR) {
-            ASSERT(0); // FIXME
-            TRACE_START("propAccessExpr (super.)");
-            node_type_t propsetT = {
-                .type = NODE_EXPR,
-                .kind = PROP_SET_EXPR,
-            };
-            ret = createNode(propsetT, lval->tok, NULL);
-            nodeAddChild(ret, lval);
-            nodeAddChild(ret, rval);
-            TRACE_END("propAccessExpr (super.)");
-            // TODO turn into propset
+            errorAtCurrent("cannot assign to a property of super");
         } else {
             errorAtCurrent("invalid assignment lvalue");
         }
-- 
2.43.0


From 325b29f32122e691f46f8e90fa93af8f3f5369d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:57 +0000
Subject: [PATCH 26/64] fix: two dots in a row are a syntax error instead of
 skipping a character, even past the end

---
 scanner.c | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/scanner.c b/scanner.c
index 76769e3..b12825e 100644
--- a/scanner.c
+++ b/scanner.c
@@ -467,7 +467,6 @@ static Token heredocString(void) {
 }
 
 Token scanToken(void) {
-  again:
   skipWhitespace();
 
   current->tokenStartIdx = current->currentIndex;
@@ -499,14 +498,7 @@ Token scanToken(void) {
         }
     }
     case ',': return makeToken(TOKEN_COMMA);
-    case '.': {
-        if (current->afterDot) {
-            advance();
-            goto again;
-        } else {
-            return makeToken(TOKEN_DOT);
-        }
-    }
+    case '.': return makeToken(TOKEN_DOT);
     case '-': {
         if (match('>')) return makeToken(TOKEN_ARROW);
         return makeToken(TOKEN_MINUS);
-- 
2.43.0


From 4acc1e4f7363aa4fd61cf378249db8d9f76530e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:22 +0000
Subject: [PATCH 27/64] fix: the result of a block is kept alive while the
 error that carries it out is made, and so are names a class or an object
 stores

---
 object.c |  1 +
 vm.c     | 19 ++++++++++++-------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/object.c b/object.c
index e223a11..9757cc6 100644
--- a/object.c
+++ b/object.c
@@ -1091,6 +1091,7 @@ void setProp(Value self, ObjString *propName, Value val) {
     DBG_ASSERT(IS_INSTANCE_LIKE(self));
     ObjInstance *inst = AS_INSTANCE(self);
     OBJ_WRITE(self, val);
+    OBJ_WRITE(self, OBJ_VAL(propName));
     tableSet(inst->fields, OBJ_VAL(propName), val);
 }
 
diff --git a/vm.c b/vm.c
index 29e1195..f2e036f 100644
--- a/vm.c
+++ b/vm.c
@@ -1115,6 +1115,7 @@ void propertySet(ObjInstance *obj, ObjString *propName, Value rval) {
         pop();
     } else {
         tableSet(obj->fields, OBJ_VAL(propName), rval);
+        OBJ_WRITE(OBJ_VAL(obj), OBJ_VAL(propName));
         if (IS_OBJ(rval)) {
             OBJ_WRITE(OBJ_VAL(obj), rval);
         }
@@ -1156,6 +1157,7 @@ void defineMethod(Value classOrMod, ObjString *name, Value method) {
         (void)klassName;
         VM_DEBUG(2, "defining method '%s' in class '%s'", name->chars, klassName);
         tableSet(CLASSINFO(klass)->methods, OBJ_VAL(name), method);
+        OBJ_WRITE(OBJ_VAL(klass), OBJ_VAL(name));
         OBJ_WRITE(OBJ_VAL(klass), method);
         GC_OLD(AS_OBJ(method));
         Value methodName = OBJ_VAL(name);
@@ -1166,6 +1168,7 @@ void defineMethod(Value classOrMod, ObjString *name, Value method) {
         (void)modName;
         VM_DEBUG(2, "defining method '%s' in module '%s'", name->chars, modName);
         tableSet(CLASSINFO(mod)->methods, OBJ_VAL(name), method);
+        OBJ_WRITE(OBJ_VAL(mod), OBJ_VAL(name));
         OBJ_WRITE(OBJ_VAL(mod), method);
         GC_OLD(AS_OBJ(method));
     } else {
@@ -1184,6 +1187,7 @@ static void defineStaticMethod(ObjString *name) {
     ObjClass *metaClass = singletonClass(AS_OBJ(classOrMod));
     VM_DEBUG(2, "defining static method '%s#%s'", CLASSINFO(metaClass)->name->chars, name->chars);
     tableSet(CLASSINFO(metaClass)->methods, OBJ_VAL(name), method);
+    OBJ_WRITE(OBJ_VAL(metaClass), OBJ_VAL(name));
     OBJ_WRITE(OBJ_VAL(metaClass), method);
     GC_OLD(AS_OBJ(method));
     pop(); // function
@@ -1202,12 +1206,14 @@ static void defineGetter(ObjString *name) {
         ObjClass *klass = AS_CLASS(classOrMod);
         VM_DEBUG(2, "defining getter '%s'", name->chars);
         tableSet(CLASSINFO(klass)->getters, OBJ_VAL(name), method);
+        OBJ_WRITE(OBJ_VAL(klass), OBJ_VAL(name));
         OBJ_WRITE(OBJ_VAL(klass), method);
         GC_OLD(AS_OBJ(method));
     } else {
         ObjModule *mod = AS_MODULE(classOrMod);
         VM_DEBUG(2, "defining getter '%s'", name->chars);
         tableSet(CLASSINFO(mod)->getters, OBJ_VAL(name), method);
+        OBJ_WRITE(OBJ_VAL(mod), OBJ_VAL(name));
         OBJ_WRITE(OBJ_VAL(mod), method);
         GC_OLD(AS_OBJ(method));
     }
@@ -1226,12 +1232,14 @@ static void defineSetter(ObjString *name) {
         ObjClass *klass = AS_CLASS(classOrMod);
         VM_DEBUG(2, "defining setter '%s'", name->chars);
         tableSet(CLASSINFO(klass)->setters, OBJ_VAL(name), method);
+        OBJ_WRITE(OBJ_VAL(klass), OBJ_VAL(name));
         OBJ_WRITE(OBJ_VAL(klass), method);
         GC_OLD(AS_OBJ(method));
     } else {
         ObjModule *mod = AS_MODULE(classOrMod);
         VM_DEBUG(2, "defining setter '%s'", name->chars);
         tableSet(CLASSINFO(mod)->setters, OBJ_VAL(name), method);
+        OBJ_WRITE(OBJ_VAL(mod), OBJ_VAL(name));
         OBJ_WRITE(OBJ_VAL(mod), method);
         GC_OLD(AS_OBJ(method));
     }
@@ -3006,8 +3014,10 @@ vmLoop:
           } else {
               ret = NIL_VAL;
           }
+          VM_PUSH(ret); // root it, newError() can trigger GC
           Value err = newError(lxContinueBlockErrClass, NIL_VAL);
           setProp(err, key, ret);
+          VM_POP();
           throwError(err); // blocks catch this, not propagated
           DISPATCH_BOTTOM();
       }
@@ -3220,15 +3230,10 @@ find_instance_method:
           BlockStackEntry *bentry = vec_last_or(&th->v_blockStack, NULL);
           if (!getFrame()->isEval && bentry && bentry->frame == getFrame()) {
               ObjString *key = INTERN("ret");
-              VM_POP();
-              Value ret;
-              if (th->lastValue) {
-                  ret = *th->lastValue;
-              } else {
-                  ret = NIL_VAL;
-              }
+              Value ret = VM_PEEK(0); // popped below, newError() can trigger GC
               Value err = newError(lxContinueBlockErrClass, NIL_VAL);
               setProp(err, key, ret);
+              VM_POP();
               throwError(err); // blocks catch this, not propagated
               // not reached
           }
-- 
2.43.0


From 0ce9058442192bd6e45914fce7032aaf125e9d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:22 +0000
Subject: [PATCH 28/64] fix: a collection no longer frees the nodes of a
 program whose functions are still in use, or looks at a native function's
 freed class

---
 memory.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/memory.c b/memory.c
index 579a1db..159cc19 100644
--- a/memory.c
+++ b/memory.c
@@ -984,7 +984,9 @@ void freeObject(Obj *obj) {
             vec_deinit(&func->scopes);
             vec_deinit(&func->variables);
             FREE_SIZE(sizeof(Upvalue)*LX_MAX_UPVALUES, func->upvaluesInfo);
-            if (func->programNode) {
+            // functions compiled from the program can outlive it, and they use
+            // its nodes (parameters)
+            if (func->programNode && inFinalFree) {
                 freeNode(func->programNode, true);
             }
             GC_TRACE_DEBUG(5, "Freeing ObjFunction: p=%p", obj);
@@ -1009,10 +1011,6 @@ void freeObject(Obj *obj) {
         }
         case OBJ_T_NATIVE_FUNCTION: {
             GC_TRACE_DEBUG(5, "Freeing ObjNative: p=%p", obj);
-            if (!inFinalFree) { // method override
-                ObjNative *native = (ObjNative*)obj; (void)native;
-                GC_TRACE_DEBUG(5, "Freeing ObjNative: p=%p, class=%s", obj, className((ObjClass*)native->klass));
-            }
             obj->type = OBJ_T_NONE;
             break;
         }
-- 
2.43.0


From ce5e115d059b5a1fbd8443a71c101b707248214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:22 +0000
Subject: [PATCH 29/64] fix: match data is kept alive while its captures are
 made

---
 regex.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regex.c b/regex.c
index 79fea0a..62c295a 100644
--- a/regex.c
+++ b/regex.c
@@ -86,8 +86,10 @@ static Value lxRegexMatch(int argCount, Value *args) {
               NUMBER_VAL(mdata.match_len)
           };
           Value md = callFunctionValue(OBJ_VAL(lxMatchDataClass), 2, mdArgs);
+          hideFromGC(AS_OBJ(md)); // not on the stack anymore
           matchDataSetRegex(md, self);
           matchDataPopulateCaptures(md);
+          unhideFromGC(AS_OBJ(md));
           return md;
         } else {
             return NUMBER_VAL(mdata.match_start);
-- 
2.43.0


From f3650b107d533a8a4ec4ee54c753b458a2a2c97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:22 +0000
Subject: [PATCH 30/64] fix: values set through a binding are recorded for
 young collections

---
 binding.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/binding.c b/binding.c
index 289937a..dbb29a8 100644
--- a/binding.c
+++ b/binding.c
@@ -111,10 +111,12 @@ static Value lxBindingLocalVariableSet(int argCount, Value *args) {
     if (!res) {
         slotVal = NUMBER_VAL(func->localsTable.count+1);
         tableSet(&func->localsTable, name, slotVal);
+        OBJ_WRITE(OBJ_VAL(func), name);
     }
     int slot = AS_NUMBER(slotVal);
     growLocalsTable(binding->scope, slot+1);
     binding->scope->localsTable.tbl[slot] = val;
+    OBJ_WRITE(OBJ_VAL(binding->scope), val);
     return val;
 }
 
-- 
2.43.0


From bf2d6b4aa371a24a1c9636b412a71e1e619f1a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:11 +0000
Subject: [PATCH 31/64] fix: young collections keep what remembered objects
 refer to, and open upvalues and singleton classes' names stay alive

---
 memory.c | 18 ++++++++++++++++--
 object.c |  4 +++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/memory.c b/memory.c
index 159cc19..8099b42 100644
--- a/memory.c
+++ b/memory.c
@@ -417,12 +417,19 @@ void collectYoungGarbage() {
                 if (frame->scope) {
                     grayObject(TO_OBJ(frame->scope));
                 }
+                if (frame->callInfo && frame->callInfo->blockInstance) {
+                    grayObject(TO_OBJ(frame->callInfo->blockInstance));
+                }
+                if (frame->callInfo && frame->callInfo->blockFunction) {
+                    grayObject(TO_OBJ(frame->callInfo->blockFunction));
+                }
             }
         }
         if (th->openUpvalues) {
             ObjUpvalue *up = th->openUpvalues;
             while (up) {
                 ASSERT(up->value);
+                grayObject(TO_OBJ(up)); // closed later on, even if its closure is gone
                 grayValue(*up->value);
                 up = up->next;
             }
@@ -438,6 +445,12 @@ void collectYoungGarbage() {
     int numCollected = 0;
     ObjAny *newFreeList = freeList;
 
+    // remembered objects stay, so what they refer to has to stay too
+    Obj *remembered = NULL; int remIdx = 0;
+    vec_foreach(&rememberSet, remembered, remIdx) {
+        grayObject(remembered);
+    }
+
     int grayCount = vm.grayCount;
     while (grayCount > 0) {
         // Pop an item from the gray stack.
@@ -847,7 +860,7 @@ void blackenObject(Obj *obj) {
             ObjMap *map = (ObjMap*)obj;
             grayObject((Obj*)map->klass);
             if (map->singletonKlass) {
-                grayObject((Obj*)map->klass);
+                grayObject((Obj*)map->singletonKlass);
             }
             if (map->finalizerFunc) {
                 grayObject(map->finalizerFunc);
@@ -861,7 +874,7 @@ void blackenObject(Obj *obj) {
             ObjRegex *reObj = (ObjRegex*)obj;
             grayObject((Obj*)reObj->klass);
             if (reObj->singletonKlass) {
-                grayObject((Obj*)reObj->klass);
+                grayObject((Obj*)reObj->singletonKlass);
             }
             if (reObj->finalizerFunc) {
                 grayObject(reObj->finalizerFunc);
@@ -1324,6 +1337,7 @@ void collectGarbage(void) {
             ObjUpvalue *up = th->openUpvalues;
             while (up) {
                 ASSERT(up->value);
+                grayObject(TO_OBJ(up)); // closed later on, even if its closure is gone
                 grayValue(*up->value);
                 up = up->next;
                 numOpenUpsFound++;
diff --git a/object.c b/object.c
index 9757cc6..294ff55 100644
--- a/object.c
+++ b/object.c
@@ -1172,8 +1172,9 @@ ObjClass *classSingletonClass(ObjClass *klass) {
     if (CLASSINFO(klass)->name) {
         name = dupString(CLASSINFO(klass)->name);
         GC_OLD(TO_OBJ(name));
+        hideFromGC((Obj*)name);
     } else {
-        name = copyString("(anon)", 6, NEWOBJ_FLAG_OLD);
+        name = hiddenString("(anon)", 6, NEWOBJ_FLAG_OLD);
     }
     pushCString(name, " (meta)", 7);
     ObjClass *meta = newClass(name, (ObjClass*)CLASSINFO(klass)->superclass, NEWOBJ_FLAG_OLD);
@@ -1181,6 +1182,7 @@ ObjClass *classSingletonClass(ObjClass *klass) {
     CLASSINFO(meta)->singletonOf = (Obj*)klass;
     klass->singletonKlass = meta;
     OBJ_WRITE(OBJ_VAL(klass), OBJ_VAL(meta));
+    unhideFromGC((Obj*)name);
     return meta;
 }
 
-- 
2.43.0


From e165f2b4aac5f291bd898529a07fdb11742005e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:11 +0000
Subject: [PATCH 32/64] fix: match captures are marked as a value, and bindings
 record what they refer to

---
 binding.c | 5 ++++-
 regex.c   | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/binding.c b/binding.c
index dbb29a8..d5807d6 100644
--- a/binding.c
+++ b/binding.c
@@ -38,6 +38,7 @@ static Value lxBindingInit(int argCount, Value *args) {
     LxBinding *binding = ALLOCATE(LxBinding, 1);
     CallFrame *frame = getFrame()->prev;
     binding->scope = frame->scope;
+    OBJ_WRITE(self, OBJ_VAL(frame->scope));
 
     LxThread *th = THREAD();
     vec_init(&binding->v_crefStack);
@@ -114,7 +115,9 @@ static Value lxBindingLocalVariableSet(int argCount, Value *args) {
         OBJ_WRITE(OBJ_VAL(func), name);
     }
     int slot = AS_NUMBER(slotVal);
-    growLocalsTable(binding->scope, slot+1);
+    if (slot+1 > binding->scope->localsTable.size) {
+        growLocalsTable(binding->scope, slot+1);
+    }
     binding->scope->localsTable.tbl[slot] = val;
     OBJ_WRITE(OBJ_VAL(binding->scope), val);
     return val;
diff --git a/regex.c b/regex.c
index 62c295a..8b6264a 100644
--- a/regex.c
+++ b/regex.c
@@ -46,6 +46,7 @@ static LxMatchData *getMatchData(Value self) {
 static void matchDataSetRegex(Value md, Value regex) {
   LxMatchData *lmd = getMatchData(md);
   lmd->re = AS_REGEX(regex);
+  OBJ_WRITE(md, regex);
 }
 
 static void matchDataPopulateCaptures(Value md) {
@@ -65,6 +66,7 @@ static void matchDataPopulateCaptures(Value md) {
         gn = gn->next;
     }
     lmd->captures = captures;
+    OBJ_WRITE(md, captures);
 }
 
 static Value lxRegexMatch(int argCount, Value *args) {
@@ -106,7 +108,7 @@ static void markInternalMatchData(Obj *obj) {
         grayObject(TO_OBJ(md->re));
     }
     if (md->captures != NIL_VAL) {
-        grayObject(TO_OBJ(md->captures));
+        grayValue(md->captures);
     }
 }
 
-- 
2.43.0


From d3374e5f1f142fc83d18f7ca9f0178e3de28d090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:11 +0000
Subject: [PATCH 33/64] fix: variables written through a closure or seen by a
 binding are recorded for young collections, and results of calls made by C
 functions stay alive

---
 vm.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/vm.c b/vm.c
index f2e036f..510afc6 100644
--- a/vm.c
+++ b/vm.c
@@ -1246,6 +1246,15 @@ static void defineSetter(ObjString *name) {
     pop(); // function
 }
 
+// The result of a call made by a C function is kept until the function returns,
+// like the objects it makes itself.
+static inline void rootCallResult(Value ret) {
+    CallFrame *frame = getFrameOrNull();
+    if (IS_OBJ(ret) && frame && frame->isCCall) {
+        vec_push(&vm.curThread->stackObjects, AS_OBJ(ret));
+    }
+}
+
 // Call method on instance, args are NOT expected to be pushed on to stack by
 // caller, nor is the instance. `argCount` does not include the implicit instance argument.
 // Return value is pushed to stack and returned.
@@ -1259,6 +1268,7 @@ Value callVMMethod(ObjInstance *instance, Value callable, int argCount, Value *a
     VM_DEBUG(3, "call begin");
     callCallable(callable, argCount, true, cinfo); // pushes return value to stack
     VM_DEBUG(3, "call end");
+    rootCallResult(peek(0));
     return peek(0);
 }
 
@@ -1314,6 +1324,7 @@ Value callFunctionValue(Value callable, int argCount, Value *args) {
         push(args[i]);
     }
     callCallable(callable, argCount, false, NULL);
+    rootCallResult(peek(0));
     return pop();
 }
 
@@ -2327,6 +2338,7 @@ static void closeUpvalues(Value *last) {
 
         // Copy the value into the upvalue itself and point the upvalue to it.
         upvalue->closed = *upvalue->value;
+        OBJ_WRITE(OBJ_VAL(upvalue), upvalue->closed);
         upvalue->value = &upvalue->closed;
         upvalue->scope = NULL;
 
@@ -2787,6 +2799,9 @@ vmLoop:
             growLocalsTable(scope, (int)slot+1);
           }
           scope->localsTable.tbl[slot] = VM_PEEK(0); // locals are popped at end of scope by VM
+          if (IS_OLD_OBJ(TO_OBJ(scope))) { // a binding can outlive the frame
+              OBJ_WRITE(OBJ_VAL(scope), VM_PEEK(0));
+          }
           frame->slots[slot] = VM_PEEK(0);
           DISPATCH_BOTTOM();
       }
@@ -2804,7 +2819,13 @@ vmLoop:
           }
           Value val = unpackValue(peek(peekIdx+unpackIdx), unpackIdx);
           frame->slots[slot] = val; // locals are popped at end of scope by VM
-          frame->scope->localsTable.tbl[slot] = val;
+          if ((int)slot+1 > scope->localsTable.size) {
+            growLocalsTable(scope, (int)slot+1);
+          }
+          scope->localsTable.tbl[slot] = val;
+          if (IS_OLD_OBJ(TO_OBJ(scope))) { // a binding can outlive the frame
+              OBJ_WRITE(OBJ_VAL(scope), val);
+          }
           DISPATCH_BOTTOM();
       }
       CASE_OP(GET_LOCAL): {
@@ -2831,6 +2852,7 @@ vmLoop:
           (void)varName;
           ObjUpvalue *upvalue = frame->closure->upvalues[slot];
           *upvalue->value = peek(0);
+          OBJ_WRITE(OBJ_VAL(upvalue), *upvalue->value);
           // the function that owns the variable is still running
           if (upvalue->scope && upvalue->slot < upvalue->scope->localsTable.size) {
               upvalue->scope->localsTable.tbl[upvalue->slot] = peek(0);
@@ -2917,6 +2939,7 @@ vmLoop:
               if (isLocal) {
                   // Make an new upvalue to close over the parent's local variable.
                   closure->upvalues[i] = captureUpvalue(getFrame(), index);
+                  OBJ_WRITE(OBJ_VAL(closure), OBJ_VAL(closure->upvalues[i]));
               } else {
                   // Use the same upvalue as the current call frame.
                   closure->upvalues[i] = getFrame()->closure->upvalues[index];
-- 
2.43.0


From 7b511214625775019d397a5450b2c49ece9bdd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:17 +0000
Subject: [PATCH 34/64] fix: the names of keyword arguments in a call are kept
 after its source is freed

---
 compiler.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/compiler.c b/compiler.c
index c6f1267..1c7c950 100644
--- a/compiler.c
+++ b/compiler.c
@@ -1458,6 +1458,15 @@ static void emitIn(Node *n) {
     inINBlock = oldIn;
 }
 
+// The token's text is in the source, which is gone when the code runs
+static Token keptToken(Token *tok) {
+    char *str = tokStr(tok);
+    Token kept = *tok;
+    kept.lexeme = ALLOCATE(char, strlen(str)+1);
+    strcpy(kept.lexeme, str);
+    return kept;
+}
+
 static CallInfo *emitCall(Node *n) {
     int nArgs = n->children->length-1;
     // arbitrary, but we don't want the VM op stack to blow by pushing a whole
@@ -1496,7 +1505,7 @@ static CallInfo *emitCall(Node *n) {
         i = 0; int idx = 0;
         vec_foreach(n->children, arg, i) {
             if (arg->type.kind == KWARG_IN_CALL_STMT) {
-                callInfoData->kwargNames[idx] = arg->tok;
+                callInfoData->kwargNames[idx] = keptToken(&arg->tok);
                 idx++;
             }
         }
@@ -1528,7 +1537,7 @@ static CallInfo *emitCall(Node *n) {
         i = 0; int idx = 0;
         vec_foreach(n->children, arg, i) {
             if (arg->type.kind == KWARG_IN_CALL_STMT) {
-                callInfoData->kwargNames[idx] = arg->tok;
+                callInfoData->kwargNames[idx] = keptToken(&arg->tok);
                 idx++;
             }
         }
-- 
2.43.0


From 78f1f8d187c5b6ca97f5813a7f227195b7b9cb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:17 +0000
Subject: [PATCH 35/64] fix: blocks see the variables of the function they're
 written in and belong to one call, and arguments are bound to the parameters
 they're for

---
 array.c   |  19 ++--
 block.c   |   9 +-
 map.c     |  19 ++--
 memory.c  |  12 +--
 runtime.c | 143 +++++---------------------
 vm.c      | 296 +++++++++++++++++++++++++++++++-----------------------
 vm.h      |   8 +-
 7 files changed, 224 insertions(+), 282 deletions(-)

diff --git a/array.c b/array.c
index 2035dfb..dfa170d 100644
--- a/array.c
+++ b/array.c
@@ -331,15 +331,7 @@ static Value lxArrayEach(int argCount, Value *args) {
     volatile int iterStart = 0;
     volatile LxThread *th = vm.curThread;
     volatile BlockIterFunc fn = getFrame()->callInfo->blockIterFunc;
-    volatile Obj *block = NULL;
-    volatile ObjInstance *blockInstance = NULL;
-    blockInstance = getBlockArg(getFrame());
-    if (blockInstance) {
-        block = blockCallableBlock(OBJ_VAL(blockInstance));
-    }
-    if (!block && getFrame()->callInfo) {
-        block = (Obj*)(getFrame()->callInfo->blockFunction);
-    }
+    volatile Obj *block = frameBlockCallable(getFrame());
     if (!block) {
         throwErrorFmt(lxErrClass, "no block given");
     }
@@ -383,7 +375,14 @@ static Value lxArrayEach(int argCount, Value *args) {
 
     VALARRAY_FOREACH_START(ary, el, iterStart, valIdx) {
         iterStart++;
-        yieldFromC(1, (Value*)&el, TO_INSTANCE(blockInstance));
+        Value ret = yieldFromC(1, (Value*)&el, NULL);
+        if (fn) { // returned from a native function, others throw
+            int iterFlags = 0;
+            fn(1, (Value*)&el, ret, getFrame()->callInfo, &iterFlags);
+            if (iterFlags & ITER_FLAG_STOP) {
+                return NIL_VAL;
+            }
+        }
     }
     return *args;
 }
diff --git a/block.c b/block.c
index e98398c..fceaaa0 100644
--- a/block.c
+++ b/block.c
@@ -41,11 +41,7 @@ Obj *blockCallableBlock(Value block) {
 }
 
 ObjInstance *getBlockArg(CallFrame *frame) {
-    if (frame->callInfo) {
-        return frame->callInfo->blockInstance;
-    } else {
-        return NULL;
-    }
+    return frame->blockInstance;
 }
 
 static Value lxBlockInit(int argCount, Value *args) {
@@ -80,7 +76,6 @@ static Value lxBlockYield(int argCount, Value *args) {
     SETUP_BLOCK(block, bentry, status, th->errInfo)
     if (status == TAG_NONE) {
     } else if (status == TAG_RAISE) {
-        pop();
         ObjInstance *errInst = AS_INSTANCE(th->lastErrorThrown);
         ASSERT(errInst);
         if (errInst->klass == lxBreakBlockErrClass) {
@@ -94,7 +89,7 @@ static Value lxBlockYield(int argCount, Value *args) {
         }
     }
     callCallable(callable, argCount-1, false, NULL);
-    UNREACHABLE("block didn't longjmp?"); // blocks should always longjmp out
+    return pop(); // called a native function, others longjmp out
 }
 
 void Init_BlockClass() {
diff --git a/map.c b/map.c
index 7b6157c..ea9f698 100644
--- a/map.c
+++ b/map.c
@@ -333,15 +333,7 @@ static Value lxMapEach(int argCount, Value *args) {
     volatile int startIdx = 0;
     volatile BlockIterFunc fn = getFrame()->callInfo->blockIterFunc;
     volatile Value yieldArgs[2];
-    volatile Obj *block = NULL;
-    volatile ObjInstance *blockInstance = NULL;
-    blockInstance = getBlockArg(getFrame());
-    if (blockInstance) {
-        block = blockCallableBlock(OBJ_VAL(blockInstance));
-    }
-    if (!block && getFrame()->callInfo) {
-        block = (Obj*)(getFrame()->callInfo->blockFunction);
-    }
+    volatile Obj *block = frameBlockCallable(getFrame());
     if (!block) {
         throwErrorFmt(lxErrClass, "no block given");
     }
@@ -392,7 +384,14 @@ static Value lxMapEach(int argCount, Value *args) {
         startIdx++;
         yieldArgs[0] = e.key;
         yieldArgs[1] = e.value;
-        yieldFromC(2, (Value*)yieldArgs, TO_INSTANCE(blockInstance));
+        Value ret = yieldFromC(2, (Value*)yieldArgs, NULL);
+        if (fn) { // returned from a native function, others throw
+            int iterFlags = 0;
+            fn(2, (Value*)yieldArgs, ret, getFrame()->callInfo, &iterFlags);
+            if (iterFlags & ITER_FLAG_STOP) {
+                return NIL_VAL;
+            }
+        }
     })
     return self;
 }
diff --git a/memory.c b/memory.c
index 8099b42..359bfac 100644
--- a/memory.c
+++ b/memory.c
@@ -364,7 +364,6 @@ void collectYoungGarbage() {
         BlockStackEntry *bentry = NULL; int bidx = 0;
         vec_foreach(&th->v_blockStack, bentry, bidx) {
             grayObject((Obj*)bentry->callable);
-            grayObject((Obj*)bentry->cachedBlockClosure);
             grayObject((Obj*)bentry->blockInstance);
         }
     }
@@ -417,9 +416,8 @@ void collectYoungGarbage() {
                 if (frame->scope) {
                     grayObject(TO_OBJ(frame->scope));
                 }
-                if (frame->callInfo && frame->callInfo->blockInstance) {
-                    grayObject(TO_OBJ(frame->callInfo->blockInstance));
-                }
+                grayObject(TO_OBJ(frame->blockClosure));
+                grayObject(TO_OBJ(frame->blockInstance));
                 if (frame->callInfo && frame->callInfo->blockFunction) {
                     grayObject(TO_OBJ(frame->callInfo->blockFunction));
                 }
@@ -1269,7 +1267,6 @@ void collectGarbage(void) {
         BlockStackEntry *bentry = NULL; int bidx = 0;
         vec_foreach(&th->v_blockStack, bentry, bidx) {
             grayObject((Obj*)bentry->callable);
-            grayObject((Obj*)bentry->cachedBlockClosure);
             grayObject((Obj*)bentry->blockInstance);
         }
         vec_extend(&v_stackObjs, &th->stackObjects);
@@ -1324,9 +1321,8 @@ void collectGarbage(void) {
                     grayObject(TO_OBJ(frame->scope));
                 if (frame->nativeFunc)
                     grayObject(TO_OBJ(frame->nativeFunc));
-                if (frame->callInfo && frame->callInfo->blockInstance) {
-                    grayObject(TO_OBJ(frame->callInfo->blockInstance));
-                }
+                grayObject(TO_OBJ(frame->blockClosure));
+                grayObject(TO_OBJ(frame->blockInstance));
                 if (frame->callInfo && frame->callInfo->blockFunction) {
                     grayObject(TO_OBJ(frame->callInfo->blockFunction));
                 }
diff --git a/runtime.c b/runtime.c
index c8b555c..df31992 100644
--- a/runtime.c
+++ b/runtime.c
@@ -296,96 +296,31 @@ Value lxSleep(int argCount, Value *args) {
     return NIL_VAL;
 }
 
-static inline ObjClosure *closureFromFn(ObjFunction *func) {
-    return newClosure(func, NEWOBJ_FLAG_NONE);
-}
-
-static inline CallFrame *getOuterClosureFrame() {
-    CallFrame *frame = getFrame()->prev;
-    while (frame) {
-        if (!frame->closure) {
-            frame = frame->prev;
-            continue;
-        }
-        return frame;
+// The callable of the block given to the function of this frame, NULL if none
+Obj *frameBlockCallable(CallFrame *frame) {
+    if (frame->blockClosure) {
+        return TO_OBJ(frame->blockClosure);
+    } else if (frame->blockInstance) {
+        return blockCallable(OBJ_VAL(frame->blockInstance));
     }
     return NULL;
 }
 
-static void fillClosureUpvalues(ObjClosure *block, ObjClosure *outer, CallFrame *frame) {
-    ObjFunction *blockFn = block->function;
-    ASSERT(blockFn);
-    ASSERT(frame);
-    for (int i = 0; i < blockFn->upvalueCount; i++) {
-        uint8_t index = blockFn->upvaluesInfo[i].index;
-        if (blockFn->upvaluesInfo[i].isLocal) {
-            block->upvalues[i] = captureUpvalue(frame, index);
-        } else {
-            DBG_ASSERT(outer->upvalues);
-            block->upvalues[i] = outer->upvalues[index];
-            DBG_ASSERT(block->upvalues[i]);
-        }
-    }
-}
-
-static ObjClosure *getCFrameBlockClosure() {
-    BlockStackEntry *bentry = vec_last_or(&THREAD()->v_blockStack, NULL);
-    Obj *block = NULL;
-    if (bentry) {
-        block = bentry->callable;
-    }
-    if (!block) {
-        throwErrorFmt(lxErrClass, "Cannot yield, no block given");
-    }
-    if (bentry->cachedBlockClosure) {
-        return bentry->cachedBlockClosure;
-    }
-    ObjClosure *blockClosure = closureFromFn((ObjFunction*)block);
-    blockClosure->isBlock = true;
-    CallFrame *frame = getOuterClosureFrame();
-    ASSERT(frame);
-    ObjClosure *lastClosure = frame->closure;
-    ASSERT(lastClosure);
-    fillClosureUpvalues(blockClosure, lastClosure, frame);
-    bentry->cachedBlockClosure = blockClosure;
-    return blockClosure;
-}
-
 Value lxYield(int argCount, Value *args) {
-    CallFrame *frame = getFrame()->prev;
-    ASSERT(frame->callInfo);
-    Obj *block = (Obj*)frame->callInfo->blockFunction;
-    if (!block && !frame->callInfo->blockInstance) {
+    Obj *blkCallable = frameBlockCallable(getFrame()->prev);
+    if (!blkCallable) {
         throwErrorFmt(lxErrClass, "Cannot yield, no block given");
     }
-    Value callable = NIL_VAL;
-    if (block) {
-        DBG_ASSERT(IS_FUNCTION(OBJ_VAL(block)));
-        ObjClosure *blockClosure = NULL;
-        blockClosure = closureFromFn((ObjFunction*)block);
-        blockClosure->isBlock = true;
-        CallFrame *outerFrame = getOuterClosureFrame();
-        ObjClosure *outerClosure = outerFrame->closure;
-        ASSERT(outerClosure);
-        fillClosureUpvalues(blockClosure, outerClosure, outerFrame);
-        callable = OBJ_VAL(blockClosure);
-        push(callable);
-    } else if (frame->callInfo->blockInstance) {
-        ObjInstance *blockInst = frame->callInfo->blockInstance;
-        Obj *blkCallable = blockCallable(OBJ_VAL(blockInst));
-        if (blkCallable->type == OBJ_T_CLOSURE) {
-            block = blkCallable;
-        }
-        callable = OBJ_VAL(blkCallable);
-        push(callable);
-    }
+    volatile Obj *block = blkCallable->type == OBJ_T_CLOSURE ? blkCallable : NULL;
+    volatile Value callable = OBJ_VAL(blkCallable);
+    push(callable);
     for (int i = 0; i < argCount; i++) {
         push(args[i]);
     }
     CallInfo cinfo;
     memset(&cinfo, 0, sizeof(cinfo));
     cinfo.argc = argCount;
-    cinfo.isYield = true; // tell callCallable to adjust frame stack in popFrame()
+    cinfo.isYield = true; // there are no arity checks
     volatile int status = 0;
     volatile LxThread *th = THREAD();
     volatile BlockStackEntry *bentry = NULL;
@@ -411,15 +346,11 @@ Value lxYield(int argCount, Value *args) {
 }
 
 bool blockGiven() {
-    CallInfo *cinfo = getFrame()->callInfo;
-    if (!cinfo) return false;
-    return (cinfo->blockFunction != NULL || cinfo->blockInstance != NULL);
+    return frameBlockCallable(getFrame()) != NULL;
 }
 
 Value lxBlockGiven(int argCount, Value *args) {
-    CallInfo *cinfo = getFrame()->prev->callInfo;
-    if (!cinfo) return FALSE_VAL;
-    return BOOL_VAL(cinfo->blockFunction != NULL || cinfo->blockInstance != NULL);
+    return BOOL_VAL(frameBlockCallable(getFrame()->prev) != NULL);
 }
 
 Value yieldBlock(int argCount, Value *args) {
@@ -435,33 +366,12 @@ Value yieldBlockCatch(int argCount, Value *args, Value *err) {
     volatile int status = 0;
     volatile LxThread *th = vm.curThread;
     volatile BlockStackEntry *bentry = NULL;
-    CallFrame *frame = getFrame();
-
-    volatile Obj *block = (Obj*)frame->callInfo->blockFunction;
-    if (!block && !frame->callInfo->blockInstance) {
+    Obj *blkCallable = frameBlockCallable(getFrame());
+    if (!blkCallable) {
         throwErrorFmt(lxErrClass, "Cannot yield, no block given");
     }
-    volatile Value callable = NIL_VAL;
-    if (block) {
-        DBG_ASSERT(IS_FUNCTION(OBJ_VAL(block)));
-        ObjClosure *blockClosure = NULL;
-        blockClosure = closureFromFn((ObjFunction*)block);
-        blockClosure->isBlock = true;
-        CallFrame *outerFrame = getOuterClosureFrame();
-        ObjClosure *outerClosure = outerFrame->closure;
-        ASSERT(outerClosure);
-        fillClosureUpvalues(blockClosure, outerClosure, outerFrame);
-        callable = OBJ_VAL(blockClosure);
-        push(callable);
-    } else if (frame->callInfo->blockInstance) {
-        ObjInstance *blockInst = frame->callInfo->blockInstance;
-        Obj *blkCallable = blockCallable(OBJ_VAL(blockInst));
-        if (blkCallable->type == OBJ_T_CLOSURE) {
-            block = blkCallable;
-        }
-        callable = OBJ_VAL(blkCallable);
-        push(callable);
-    }
+    volatile Obj *block = blkCallable->type == OBJ_T_CLOSURE ? blkCallable : NULL;
+    volatile Value callable = OBJ_VAL(blkCallable);
 
     if (block) {
         SETUP_BLOCK(block, bentry, status, th->errInfo)
@@ -488,6 +398,7 @@ Value yieldBlockCatch(int argCount, Value *args, Value *err) {
     memset(&cinfo, 0, sizeof(cinfo));
     cinfo.isYield = true,
     cinfo.argc = argCount;
+    push(callable);
     for (int i = 0; i < argCount; i++) {
         push(args[i]);
     }
@@ -496,16 +407,11 @@ Value yieldBlockCatch(int argCount, Value *args, Value *err) {
 }
 
 Value yieldFromC(int argCount, Value *args, ObjInstance *blockObj) {
-    Value callable;
-    if (blockObj) {
-        Obj *blkCallable = NULL;
-        blkCallable = blockCallable(OBJ_VAL(blockObj));
-        callable = OBJ_VAL(blkCallable);
-    } else {
-        ObjClosure *blkClosure = NULL;
-        blkClosure = getCFrameBlockClosure();
-        callable = OBJ_VAL(blkClosure);
+    Obj *blkCallable = blockObj ? blockCallable(OBJ_VAL(blockObj)) : frameBlockCallable(getFrame());
+    if (!blkCallable) {
+        throwErrorFmt(lxErrClass, "Cannot yield, no block given");
     }
+    Value callable = OBJ_VAL(blkCallable);
     push(callable);
     for (int i = 0; i < argCount; i++) {
         push(args[i]);
@@ -520,9 +426,8 @@ Value yieldFromC(int argCount, Value *args, ObjInstance *blockObj) {
     memset(&cinfo, 0, sizeof(cinfo));
     cinfo.argc = argCount,
     cinfo.blockFunction = NULL,
-    cinfo.isYield = true, // tell callCallable to adjust frame stack in popFrame()
+    cinfo.isYield = true, // there are no arity checks
     cinfo.blockIterFunc = NULL,
-    cinfo.blockInstance = blockObj,
     callCallable(callable, argCount, false, &cinfo);
     return pop(); // if got here, was a native function
 }
diff --git a/vm.c b/vm.c
index 510afc6..4bf71e7 100644
--- a/vm.c
+++ b/vm.c
@@ -1351,8 +1351,6 @@ void popFrame(void) {
     CallFrame *frame = getFrame();
     Value *newTop = frame->slots;
     VM_DEBUG(2, "popping callframe (%s)", frame->isCCall ? "native" : "non-native");
-    int stackAdjust = frame->stackAdjustOnPop;
-    /*VM_DEBUG("stack adjust: %d", stackAdjust);*/
     unwindErrInfo(frame);
     if (frame->isCCall) {
         DBG_ASSERT(th->inCCall > 0);
@@ -1386,11 +1384,6 @@ void popFrame(void) {
                 tableSet(&EC->roGlobals, OBJ_VAL(vm.funcString), OBJ_VAL(vm.anonString));
             }
         }
-        if (stackAdjust > 0) {
-            if (EC->stackTop-stackAdjust > EC->stack) {
-                EC->stackTop -= stackAdjust;
-            }
-        }
     }
     VM_DEBUG(3, "/popframe");
     ASSERT_VALID_STACK();
@@ -1458,12 +1451,8 @@ static void pushNativeFrame(ObjNative *native) {
 }
 
 // sets up VM/C call jumpbuf if not set, and calls the native function
-static Value captureNativeError(ObjNative *nativeFunc, int argCount, Value *args, CallInfo *cinfo) {
+static Value captureNativeError(ObjNative *nativeFunc, int argCount, Value *args) {
     LxThread *th = vm.curThread;
-    if (cinfo && cinfo->blockInstance) {
-        DBG_ASSERT(argCount > 0); // at least the block argument
-        argCount--; // block arg is implicit
-    }
     if (th->inCCall == 0) {
         VM_DEBUG(2, "setting VM/C error jump buf");
         int jumpRes = setjmp(th->cCallJumpBuf);
@@ -1487,24 +1476,82 @@ static Value captureNativeError(ObjNative *nativeFunc, int argCount, Value *args
     }
 }
 
-static inline bool checkFunctionArity(ObjFunction *func, int argCount, CallInfo *cinfo) {
+static inline const char *arityFunctionName(ObjFunction *func) {
+    return func->name ? func->name->chars : "(anon)";
+}
+
+// argCount is the number of positional arguments
+static inline void checkFunctionArity(ObjFunction *func, int argCount) {
     int arityMin = func->arity;
-    int arityMax = arityMin + func->numDefaultArgs + func->numKwargs + (func->hasBlockArg ? 1 : 0);
-    char *funcName = "(anon)";
-    if (func->name) {
-        funcName = func->name->chars;
-    }
+    int arityMax = arityMin + func->numDefaultArgs + func->numKwargs;
     if (func->hasRestArg) arityMax = 20; // TODO: make a #define
     if (UNLIKELY(argCount < arityMin || argCount > arityMax)) {
         if (arityMin == arityMax) {
             throwArgErrorFmt("%s: Expected %d arguments but got %d.",
-                    funcName, arityMin, argCount);
+                    arityFunctionName(func), arityMin, argCount);
         } else {
             throwArgErrorFmt("%s: Expected %d-%d arguments but got %d.",
-                    funcName, arityMin, arityMax, argCount);
+                    arityFunctionName(func), arityMin, arityMax, argCount);
         }
     }
-    return true;
+}
+
+static inline Node *nextKeywordParam(vec_nodep_t *params, int *pi) {
+    while (*pi < params->length) {
+        Node *param = params->data[(*pi)++];
+        if (param->type.kind == PARAM_NODE_KWARG) return param;
+    }
+    return NULL;
+}
+
+// Surplus positional arguments (numSurplus) are for the first keyword parameters
+static void checkFunctionKeywords(ObjFunction *func, CallInfo *callInfo, int numSurplus) {
+    vec_nodep_t *params = (vec_nodep_t*)nodeGetData(func->funcNode);
+    int numFound = 0;
+    int pi = 0;
+    Node *param = NULL;
+    while ((param = nextKeywordParam(params, &pi)) != NULL) {
+        char *kwname = tokStr(&param->tok);
+        int numGiven = numSurplus-- > 0 ? 1 : 0;
+        for (int i = 0; i < callInfo->numKwargs; i++) {
+            if (strcmp(kwname, tokStr(&callInfo->kwargNames[i])) == 0) {
+                numGiven++;
+                numFound++;
+            }
+        }
+        if (UNLIKELY(numGiven > 1)) {
+            throwArgErrorFmt("%s: Keyword argument '%s' given more than once.",
+                    arityFunctionName(func), kwname);
+        } else if (UNLIKELY(numGiven == 0 && (!param->children || param->children->length == 0))) {
+            throwArgErrorFmt("%s: Missing keyword argument '%s'.",
+                    arityFunctionName(func), kwname);
+        }
+    }
+    if (UNLIKELY(numFound < callInfo->numKwargs)) {
+        throwArgErrorFmt("%s: Unknown keyword argument given.", arityFunctionName(func));
+    }
+}
+
+// The closure of the block literal given to the function about to be called, if any
+static ObjClosure *newBlockClosure(CallInfo *callInfo) {
+    CallFrame *frame = getFrame();
+    ObjFunction *func = callInfo->blockFunction;
+    if (LIKELY(!func)) {
+        return NULL;
+    }
+    if (frame->isCCall) { // the C function passes on the block given to it
+        return frame->blockClosure;
+    }
+    ObjClosure *closure = newClosure(func, NEWOBJ_FLAG_NONE);
+    closure->isBlock = true;
+    hideFromGC(TO_OBJ(closure));
+    for (int i = 0; i < func->upvalueCount; i++) {
+        Upvalue *info = &func->upvaluesInfo[i];
+        closure->upvalues[i] = info->isLocal ? captureUpvalue(frame, info->index) : frame->closure->upvalues[info->index];
+        OBJ_WRITE(OBJ_VAL(closure), OBJ_VAL(closure->upvalues[i]));
+    }
+    unhideFromGC(TO_OBJ(closure));
+    return closure;
 }
 
 static void setupLocalsTable(CallFrame *frame) {
@@ -1552,22 +1599,24 @@ void growLocalsTable(ObjScope *scope, int size) {
 // argCount of 0. If the callable is a class (constructor), this function creates the
 // new instance and puts it in the proper spot in the stack. The return value
 // is pushed to the stack.
+static CallInfo noCallInfo;
+
 static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo *callInfo) {
     LxThread *th = vm.curThread;
-    Value blockInstance = NIL_VAL;
-    bool blockInstancePopped = false;
-    Value poppedBlockInstance = NIL_VAL;
-    if (argCount > 0 && callInfo) {
-        if (IS_A_BLOCK(peek(0))) {
-            Value blkObj = peek(0);
-            callInfo->blockInstance = AS_INSTANCE(blkObj);
-            blockInstance = blkObj;
-        }
+    ObjInstance *blockInstance = NULL; // from &blk
+    ObjClosure *blockClosure; // from a literal
+    bool blockOnStack = argCount > 0 && callInfo && IS_A_BLOCK(peek(0));
+    if (!callInfo) { // called from C
+        callInfo = &noCallInfo;
+    }
+    if (blockOnStack) {
+        blockInstance = AS_INSTANCE(peek(0));
+    } else {
+        blockInstance = callInfo->blockInstance;
     }
-    if (callInfo && callInfo->blockInstance && !IS_A_BLOCK(peek(0))) {
-        push(OBJ_VAL(callInfo->blockInstance));
-        blockInstance = peek(0);
-        argCount++;
+    CallFrame *caller = getFrame();
+    if (!blockInstance && caller->isCCall && callInfo == caller->callInfo) {
+        blockInstance = caller->blockInstance; // passed on by a C function
     }
 
     ObjClosure *closure = NULL;
@@ -1613,6 +1662,7 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
             if (IS_NATIVE_FUNCTION(initializer)) {
                 ObjNative *nativeInit = AS_NATIVE_FUNCTION(initializer);
                 ASSERT(nativeInit->function);
+                blockClosure = newBlockClosure(callInfo);
                 pushNativeFrame(nativeInit);
                 volatile CallFrame *newFrame = getFrame();
                 DBG_ASSERT(instance);
@@ -1623,10 +1673,15 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
                     pushCref(newFrame->klass);
                 }
                 newFrame->callInfo = callInfo;
+                newFrame->blockClosure = blockClosure;
+                newFrame->blockInstance = blockInstance;
+                Value *initArgs = EC->stackTop-argCount-1;
+                volatile size_t initSlots = initArgs-EC->stack;
                 VM_DEBUG(2, "calling native initializer for class %s with %d args", klassName, argCount);
-                Value val = captureNativeError(nativeInit, argCount+1, EC->stackTop-argCount-1, callInfo);
+                // the block is implicit
+                Value val = captureNativeError(nativeInit, argCount+1-(blockOnStack ? 1 : 0), initArgs);
                 th = vm.curThread;
-                newFrame->slots = EC->stackTop-argCount-1;
+                newFrame->slots = EC->stack+initSlots;
                 if (UNLIKELY(th->returnedFromNativeErr)) {
                     th->returnedFromNativeErr = false;
                     VM_DEBUG(2, "native initializer returned from error");
@@ -1683,8 +1738,7 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
         } else {
             argCountActual++;
         }
-        volatile int argci = argCount;
-        volatile int argcActuali = argCountActual;
+        blockClosure = newBlockClosure(callInfo);
         pushNativeFrame(TO_NATIVE(native));
         volatile CallFrame *newFrame = getFrame();
         volatile VMExecContext *ec = EC;
@@ -1698,9 +1752,14 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
             pushCref(newFrame->klass);
         }
         newFrame->callInfo = callInfo;
-        volatile Value val = captureNativeError(TO_NATIVE(native), argci, EC->stackTop-argci, callInfo);
+        newFrame->blockClosure = blockClosure;
+        newFrame->blockInstance = blockInstance;
+        // what the function leaves on the stack goes too
+        volatile size_t nativeSlots = EC->stackTop-argCountActual-EC->stack;
+        // the block is implicit
+        volatile Value val = captureNativeError(TO_NATIVE(native), argCount-(blockOnStack ? 1 : 0), EC->stackTop-argCount);
         th = vm.curThread;
-        newFrame->slots = ec->stackTop - argcActuali;
+        newFrame->slots = ec->stack + nativeSlots;
         if (th->returnedFromNativeErr) {
             VM_DEBUG(2, "Returned from native function %s with error", native->name->chars);
             th->returnedFromNativeErr = false;
@@ -1739,49 +1798,52 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
     // non-native function/method (defined in lox code)
     ASSERT(closure);
     ObjFunction *func = closure->function;
-    if (closure->isBlock || (callInfo && callInfo->blockInstance)) {
-        // no arity check
-    } else {
-        checkFunctionArity(func, argCount, callInfo);
+    vec_nodep_t *params = (vec_nodep_t*)nodeGetData(func->funcNode);
+
+    int numPositional = argCount - (blockOnStack ? 1 : 0) - (func->numKwargs > 0 ? callInfo->numKwargs : 0);
+    bool isBlock = closure->isBlock || callInfo->isYield; // these take any number of arguments
+    if (!isBlock) {
+        checkFunctionArity(func, numPositional);
+    }
+    int numSurplus = func->hasRestArg ? 0 : numPositional - (func->arity + func->numDefaultArgs);
+    if (func->numKwargs > 0) {
+        checkFunctionKeywords(func, callInfo, numSurplus);
     }
 
-    vec_nodep_t *params = (vec_nodep_t*)nodeGetData(func->funcNode);
+    blockClosure = newBlockClosure(callInfo);
+    if (blockClosure) {
+        hideFromGC(TO_OBJ(blockClosure));
+    }
+    if (blockOnStack) { // goes after the other arguments
+        hideFromGC(TO_OBJ(blockInstance));
+        pop();
+    }
 
+    // keyword arguments are the last ones, in the order of the call
     Value kwargsMap = NIL_VAL;
-    // keyword arg processing
-    if (func->numKwargs > 0 && callInfo) {
-        ASSERT(params);
-        if (!IS_NIL(blockInstance) && IS_A_BLOCK(peek(0))) {
-            argCount--;
-            poppedBlockInstance = pop();
-            hideFromGC(AS_OBJ(poppedBlockInstance));
-            blockInstancePopped = true;
-        }
+    if (func->numKwargs > 0) {
         kwargsMap = newMap();
         hideFromGC(AS_OBJ(kwargsMap)); // unhidden when pushed below
-        Node *param = NULL;
-        int pi = 0;
         for (int i = callInfo->numKwargs-1; i >= 0; i--) {
-            vec_foreach(params, param, pi) {
-                if (param->type.kind == PARAM_NODE_KWARG) {
-                    char *kwname = tokStr(&param->tok);
-                    ObjString *kwStr = INTERN(kwname);
-                    // keyword argument given, is on stack, we pop it off
-                    if (strcmp(kwname, tokStr(callInfo->kwargNames+i)) == 0) {
-                        mapSet(kwargsMap, OBJ_VAL(kwStr), pop());
-                    }
-                    // when keyword argument not given, we need to add UNDEF_VAL to
-                    // stack later
-                }
-            }
+            mapSet(kwargsMap, OBJ_VAL(INTERN(tokStr(&callInfo->kwargNames[i]))), peek(0));
+            pop();
+        }
+        int pi = 0;
+        for (int i = numSurplus; i > 0; i--) {
+            Node *param = nextKeywordParam(params, &pi);
+            if (!param) break;
+            mapSet(kwargsMap, OBJ_VAL(INTERN(tokStr(&param->tok))), peek(i-1));
         }
     }
 
-    if (func->numDefaultArgs > 0 && !IS_NIL(blockInstance) && !blockInstancePopped && IS_A_BLOCK(peek(0))) {
-        poppedBlockInstance = pop();
-        hideFromGC(AS_OBJ(poppedBlockInstance));
+    argCount = numPositional;
+    while (argCount < func->arity) { // only blocks
+        push(NIL_VAL);
+        argCount++;
+    }
+    for (int i = 0; i < numSurplus; i++) {
+        pop();
         argCount--;
-        blockInstancePopped = true;
     }
 
     // default arg processing
@@ -1791,49 +1853,37 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
 
     for (int i = 0; i < numDefaultArgsUsed; i++) {
         push(NIL_VAL);
+        argCount++;
     }
 
     // rest argument processing (splats)
-    bool hasRestArg = func->hasRestArg;
-    int numRestArgs = 0;
-    int argCountWithRestAry = argCount;
-    if (hasRestArg && argCount > (func->arity + func->numDefaultArgs)) {
-        numRestArgs = argCount - (func->arity + func->numDefaultArgs);
-        if (numRestArgs > 0) {
-            Value restAry = newArray();
-            for (int i = numRestArgs; i > 0; i--) {
-                Value arg = peek(i-1);
-                arrayPush(restAry, arg);
-                argCountWithRestAry--;
-            }
-            for (int i = numRestArgs; i > 0; i--) { pop(); }
-            push(restAry);
-            argCountWithRestAry++;
-        } else {
-            ASSERT(0);
-        }
-    // empty rest arg
-    } else if (hasRestArg) {
+    if (func->hasRestArg) {
+        int numRestArgs = argCount - (func->arity + func->numDefaultArgs);
         Value restAry = newArray();
+        for (int i = numRestArgs; i > 0; i--) {
+            arrayPush(restAry, peek(i-1));
+        }
+        for (int i = numRestArgs; i > 0; i--) {
+            pop();
+            argCount--;
+        }
         push(restAry);
-        argCountWithRestAry++;
+        argCount++;
     }
 
-    int numKwargsNotGiven = 0;
-    if (func->numKwargs > 0 && callInfo) {
+    if (func->numKwargs > 0) {
         Node *param = NULL;
         int pi = 0;
         vec_foreach(params, param, pi) {
             if (param->type.kind == PARAM_NODE_KWARG) {
-                char *kwname = tokStr(&param->tok);
-                ObjString *kwStr = INTERN(kwname);
+                ObjString *kwStr = INTERN(tokStr(&param->tok));
                 Value val;
                 if (MAP_GET(kwargsMap, OBJ_VAL(kwStr), &val)) {
                     push(val);
                 } else {
-                    push(UNDEF_VAL);
-                    numKwargsNotGiven++;
+                    push(UNDEF_VAL); // see OP_CHECK_KEYWORD
                 }
+                argCount++;
             }
         }
     }
@@ -1846,11 +1896,9 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
     size_t funcOffset = 0;
     VM_DEBUG(2,
         "arity: %d, defaultArgs: %d, defaultsUsed: %d\n"
-        "defaultsUnused: %d, numRestArgs: %d, argCount: %d\n"
-        "kwargsAvail: %d, kwargsGiven: %d",
+        "defaultsUnused: %d, argCount: %d, kwargsAvail: %d\n",
         func->arity, func->numDefaultArgs, numDefaultArgsUsed,
-        numDefaultArgsUnused, numRestArgs, argCount,
-        func->numKwargs, func->numKwargs-numKwargsNotGiven
+        numDefaultArgsUnused, argCount, func->numKwargs
     );
 
     // skip default argument code in function that's unused
@@ -1870,28 +1918,21 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
         }
     }
 
-    if (func->hasBlockArg && callInfo->blockFunction && IS_NIL(blockInstance)) {
-        // TODO: get closure created here with upvals!
-        Value blockClosure = OBJ_VAL(newClosure(callInfo->blockFunction, NEWOBJ_FLAG_NONE));
-        hideFromGC(AS_OBJ(blockClosure));
-        Obj *blkClosure = AS_OBJ(blockClosure);
-        push(newBlock(blkClosure));
-        unhideFromGC(AS_OBJ(blockClosure));
-        argCountWithRestAry++;
-    } else if (func->hasBlockArg && IS_NIL(blockInstance)) {
-        push(NIL_VAL);
-        argCountWithRestAry++;
-    }
-
-    if (blockInstancePopped) {
-        push(blockInstance);
-        unhideFromGC(AS_OBJ(poppedBlockInstance));
-        argCountWithRestAry++;
+    if (func->hasBlockArg) {
+        if (blockInstance) {
+            push(OBJ_VAL(blockInstance));
+        } else if (blockClosure) {
+            push(newBlock(TO_OBJ(blockClosure)));
+        } else {
+            push(NIL_VAL);
+        }
+        argCount++;
     }
 
     if (func->numKwargs > 0) {
         push(kwargsMap);
         unhideFromGC(AS_OBJ(kwargsMap));
+        argCount++;
     }
 
     // add frame
@@ -1906,6 +1947,14 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
         }
     }
     frame->callInfo = callInfo;
+    frame->blockClosure = blockClosure;
+    frame->blockInstance = blockInstance;
+    if (blockClosure) {
+        unhideFromGC(TO_OBJ(blockClosure));
+    }
+    if (blockOnStack) {
+        unhideFromGC(TO_OBJ(blockInstance));
+    }
     if (instance && !frameClass) {
         frameClass = instance->klass;
     }
@@ -1922,12 +1971,8 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
     frame->start = parentStart;
     frame->isCCall = false;
     frame->nativeFunc = NULL;
-    if (callInfo && callInfo->isYield) {
-        frame->stackAdjustOnPop = (callInfo->argc+1);
-    }
     // +1 to include either the called function (for non-methods) or the receiver (for methods)
-    frame->slots = EC->stackTop - (argCountWithRestAry + numDefaultArgsUsed + 1) -
-        (func->numKwargs > 0 ? numKwargsNotGiven+1 : 0);
+    frame->slots = EC->stackTop - (argCount + 1);
     setupLocalsTable(frame);
     if (frame->name) {
         tableSet(&EC->roGlobals, OBJ_VAL(vm.funcString), OBJ_VAL(frame->name));
@@ -3927,7 +3972,6 @@ BlockStackEntry *addBlockEntry(Obj *callable) {
     DBG_ASSERT(callable);
     BlockStackEntry *entry = ALLOCATE(BlockStackEntry, 1);
     entry->callable = callable; // closure or native
-    entry->cachedBlockClosure = NULL;
     entry->blockInstance = NULL;
     entry->frame = NULL;
     vec_push(&THREAD()->v_blockStack, entry);
diff --git a/vm.h b/vm.h
index 38cd3f1..c1a0f30 100644
--- a/vm.h
+++ b/vm.h
@@ -52,8 +52,9 @@ typedef struct CallFrame {
     bool jmpBufSet;
     struct CallFrame *prev;
     struct BlockStackEntry *blockEntry; // if block, this is the block info
-    int stackAdjustOnPop;
     struct CallInfo *callInfo;
+    ObjClosure *blockClosure; // block literal given to the function, if any
+    ObjInstance *blockInstance; // block given with &, if any
 } CallFrame; // represents a local scope (block, function, etc)
 
 typedef enum ErrTag {
@@ -68,6 +69,7 @@ typedef struct ErrTagInfo {
     CallFrame *frame;
     struct ErrTagInfo *prev;
     struct BlockStackEntry *bentry;
+    size_t stackSize; // see SETUP_BLOCK
     Value caughtError;
 } ErrTagInfo;
 
@@ -108,7 +110,6 @@ typedef enum ThreadStatus {
 
 typedef struct BlockStackEntry {
     Obj *callable; // ObjClosure or ObjNative
-    ObjClosure *cachedBlockClosure;
     ObjInstance *blockInstance;
     CallFrame *frame;
 } BlockStackEntry;
@@ -331,6 +332,7 @@ static inline ErrTagInfo *addErrInfo(ObjClass *errClass) {
 
 // blocks
 BlockStackEntry *addBlockEntry(Obj *closureOrNative);
+Obj *frameBlockCallable(CallFrame *frame);
 void popBlockEntryUntil(BlockStackEntry *bentry);
 void popBlockEntry(BlockStackEntry *bentry);
 bool blockGiven(void);
@@ -365,6 +367,7 @@ Value callSuper(int argCount, Value *args, struct CallInfo *cinfo);
     ErrTagInfo *einfo = addErrInfo(lxErrClass);\
     bentry = (volatile BlockStackEntry*)addBlockEntry(TO_OBJ(block));\
     einfo->bentry = (BlockStackEntry*)bentry;\
+    einfo->stackSize = EC->stackTop - EC->stack;\
     int jmpres = 0;\
     if ((jmpres = setjmp(errInf->jmpBuf)) == JUMP_SET) {\
         status = TAG_NONE;\
@@ -372,6 +375,7 @@ Value callSuper(int argCount, Value *args, struct CallInfo *cinfo);
         popBlockEntryUntil((BlockStackEntry*)bentry);\
         unwindJumpRecover(errInf);\
         ASSERT(th->errInfo == errInf);\
+        EC->stackTop = EC->stack + errInf->stackSize;\
         errInf->status = TAG_RAISE;\
         errInf->caughtError = th->lastErrorThrown;\
         status = TAG_RAISE;\
-- 
2.43.0


From fd44d2fe8733859e2d9f553e38547c47279bfb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:48 +0000
Subject: [PATCH 36/64] fix: splatted arguments belong to their own call, and
 too deep recursion throws an error instead of overflowing the stacks

---
 compiler.c |   6 +++
 compiler.h |   1 +
 thread.c   |   4 +-
 vm.c       | 122 ++++++++++++++++++++++++++++++-----------------------
 vm.h       |  10 +++--
 5 files changed, 85 insertions(+), 58 deletions(-)

diff --git a/compiler.c b/compiler.c
index 1c7c950..25ad418 100644
--- a/compiler.c
+++ b/compiler.c
@@ -1504,6 +1504,9 @@ static CallInfo *emitCall(Node *n) {
         callInfoData->usesSplat = usesSplat;
         i = 0; int idx = 0;
         vec_foreach(n->children, arg, i) {
+            if (arg->type.kind == SPLAT_EXPR && i > 0) {
+                callInfoData->splatArgs |= 1 << (i-1);
+            }
             if (arg->type.kind == KWARG_IN_CALL_STMT) {
                 callInfoData->kwargNames[idx] = keptToken(&arg->tok);
                 idx++;
@@ -1536,6 +1539,9 @@ static CallInfo *emitCall(Node *n) {
         callInfoData->usesSplat = usesSplat;
         i = 0; int idx = 0;
         vec_foreach(n->children, arg, i) {
+            if (arg->type.kind == SPLAT_EXPR && i > 0) {
+                callInfoData->splatArgs |= 1 << (i-1);
+            }
             if (arg->type.kind == KWARG_IN_CALL_STMT) {
                 callInfoData->kwargNames[idx] = keptToken(&arg->tok);
                 idx++;
diff --git a/compiler.h b/compiler.h
index 6e550ec..536e75d 100644
--- a/compiler.h
+++ b/compiler.h
@@ -128,6 +128,7 @@ typedef struct CallInfo {
     int argc;
     int numKwargs;
     bool usesSplat;
+    unsigned splatArgs; // bit N: the Nth argument is splatted
     Token kwargNames[LX_MAX_KWARGS];
     // for blocks
     ObjFunction *blockFunction; // lox block given as argument to fn
diff --git a/thread.c b/thread.c
index a049511..3cefc75 100644
--- a/thread.c
+++ b/thread.c
@@ -145,11 +145,11 @@ static void LxThreadSetup(LxThread *th) {
     th->inCCall = 0;
     th->cCallThrew = false;
     th->returnedFromNativeErr = false;
+    th->stackOverflowing = false;
     memset(&th->cCallJumpBuf, 0, sizeof(jmp_buf));
     th->cCallJumpBufSet = false;
     th->vmRunLvl = 0;
     th->mutexCounter = 0;
-    th->lastSplatNumArgs = -1;
     th->tlsMap = NULL;
     pthread_mutex_init(&th->sleepMutex, NULL);
     pthread_cond_init(&th->sleepCond, NULL);
@@ -220,9 +220,9 @@ static ObjInstance *newThreadSetup(LxThread *parentThread) {
     th->cCallJumpBufSet = false;
     th->cCallThrew = false;
     th->returnedFromNativeErr = false;
+    th->stackOverflowing = false;
     memset(&th->cCallJumpBuf, 0, sizeof(jmp_buf));
     th->vmRunLvl = 0;
-    th->lastSplatNumArgs = -1;
 
     th->status = THREAD_READY;
     th->tid = 0; // unknown, not yet created
diff --git a/vm.c b/vm.c
index 4bf71e7..be4b7f4 100644
--- a/vm.c
+++ b/vm.c
@@ -397,13 +397,13 @@ static inline void push_EC(bool allocateStack) {
     initTable(&ectx->roGlobals);
     ectx->frameCount = 0;
     if (allocateStack) {
-      ectx->stack = ALLOCATE(Value, STACK_INITIAL);
-      ectx->stack_capa = STACK_INITIAL;
+      ectx->stack = ALLOCATE(Value, STACK_MAX+STACK_RESERVE);
+      ectx->stack_capa = STACK_MAX+STACK_RESERVE;
       ectx->stackAllocated = true;
       ectx->stackTop = ectx->stack;
     }
-    ectx->frames = ALLOCATE(CallFrame, FRAMES_INITIAL);
-    ectx->frames_capa = FRAMES_INITIAL;
+    ectx->frames = ALLOCATE(CallFrame, FRAMES_MAX+FRAMES_RESERVE);
+    ectx->frames_capa = FRAMES_MAX+FRAMES_RESERVE;
     vec_push(&th->v_ecs, ectx);
     th->ec = ectx; // EC = ectx
 }
@@ -654,7 +654,22 @@ bool VMLoadedScript(char *fname) {
     return false;
 }
 
-#define ASSERT_VALID_STACK() DBG_ASSERT(EC->stackTop >= EC->stack && EC->stackTop < EC->stack + STACK_MAX)
+#define ASSERT_VALID_STACK() DBG_ASSERT(EC->stackTop >= EC->stack && EC->stackTop <= EC->stack + EC->stack_capa)
+
+void setBacktrace(Value err);
+
+// The value or call frame stack is at its maximum
+static void stackOverflow(LxThread *th) {
+    if (th->stackOverflowing) { // there's a reserve for this
+        return;
+    }
+    th->stackOverflowing = true;
+    Value err = newError(lxErrClass, OBJ_VAL(INTERN("Stack overflow")));
+    th->lastErrorThrown = err; // keep it alive
+    setBacktrace(err);
+    th->stackOverflowing = false;
+    throwError(err);
+}
 
 static inline bool isOpStackEmpty(void) {
     ASSERT_VALID_STACK();
@@ -671,15 +686,7 @@ void push(Value value) {
     ASSERT_VALID_STACK();
     register VMExecContext *ctx = EC;
     if (UNLIKELY(ctx->stackTop >= ctx->stack + STACK_MAX)) {
-        errorPrintScriptBacktrace("Stack overflow.");
-        int status = 1;
-        vm.curThread->status = THREAD_ZOMBIE;
-        vm.numLivingThreads--;
-        pthread_exit(&status);
-    }
-    if (UNLIKELY(ctx->stackTop >= ctx->stack + ctx->stack_capa)) {
-        ctx->stack = GROW_ARRAY(ctx->stack, Value, ctx->stack_capa, ctx->stack_capa*2);
-        ctx->stack_capa *= 2;
+        stackOverflow(vm.curThread);
     }
     if (IS_OBJ(value)) {
         DBG_ASSERT(AS_OBJ(value)->type != OBJ_T_NONE);
@@ -692,11 +699,7 @@ void push(Value value) {
 static inline void vm_push(register LxThread *th, register VMExecContext *ctx, Value value) {
     ASSERT_VALID_STACK();
     if (UNLIKELY(ctx->stackTop >= ctx->stack + STACK_MAX)) {
-        errorPrintScriptBacktrace("Stack overflow.");
-        int status = 1;
-        th->status = THREAD_ZOMBIE;
-        vm.numLivingThreads--;
-        pthread_exit(&status);
+        stackOverflow(th);
     }
     if (IS_OBJ(value)) {
         DBG_ASSERT(AS_OBJ(value)->type != OBJ_T_NONE);
@@ -1393,12 +1396,7 @@ CallFrame *pushFrame(ObjFunction *userFunc) {
     DBG_ASSERT(vm.inited);
     register VMExecContext *ec = EC;
     if (UNLIKELY(ec->frameCount >= FRAMES_MAX)) {
-        throwErrorFmt(lxErrClass, "Stackoverflow, max number of call frames (%d)", FRAMES_MAX);
-        UNREACHABLE_RETURN(NULL);
-    }
-    if (UNLIKELY(ec->frameCount >= ec->frames_capa)) {
-        ec->frames = GROW_ARRAY(ec->frames, CallFrame, ec->frames_capa, ec->frames_capa*2);
-        ec->frames_capa *= 2;
+        stackOverflow(vm.curThread);
     }
     CallFrame *prev = getFrameOrNull();
     CallFrame *frame = &ec->frames[ec->frameCount++];
@@ -1429,10 +1427,6 @@ static void pushNativeFrame(ObjNative *native) {
     DBG_ASSERT(vm.inited);
     DBG_ASSERT(native);
     VM_DEBUG(2, "Pushing native callframe for %s", native->name->chars);
-    if (UNLIKELY(EC->frameCount == FRAMES_MAX)) {
-        errorPrintScriptBacktrace("Stack overflow.");
-        return;
-    }
     CallFrame *prevFrame = getFrame();
     CallFrame *newFrame = pushFrame(NULL);
     newFrame->closure = prevFrame->closure;
@@ -1484,9 +1478,11 @@ static inline const char *arityFunctionName(ObjFunction *func) {
 static inline void checkFunctionArity(ObjFunction *func, int argCount) {
     int arityMin = func->arity;
     int arityMax = arityMin + func->numDefaultArgs + func->numKwargs;
-    if (func->hasRestArg) arityMax = 20; // TODO: make a #define
-    if (UNLIKELY(argCount < arityMin || argCount > arityMax)) {
-        if (arityMin == arityMax) {
+    if (UNLIKELY(argCount < arityMin || (argCount > arityMax && !func->hasRestArg))) {
+        if (func->hasRestArg) {
+            throwArgErrorFmt("%s: Expected at least %d arguments but got %d.",
+                    arityFunctionName(func), arityMin, argCount);
+        } else if (arityMin == arityMax) {
             throwArgErrorFmt("%s: Expected %d arguments but got %d.",
                     arityFunctionName(func), arityMin, argCount);
         } else {
@@ -1554,6 +1550,38 @@ static ObjClosure *newBlockClosure(CallInfo *callInfo) {
     return closure;
 }
 
+// Replace the splatted arrays among the arguments on the stack by their
+// elements. Returns the number of arguments there are then.
+static int expandSplats(CallInfo *callInfo, int numArgs) {
+    size_t total = 0;
+    for (int i = 0; i < numArgs; i++) {
+        Value arg = peek(numArgs-1-i);
+        total += (callInfo->splatArgs & (1 << i)) ? ARRAY_SIZE(arg) : 1;
+    }
+    if (UNLIKELY(EC->stackTop + total >= EC->stack + STACK_MAX)) {
+        stackOverflow(vm.curThread);
+    }
+    Value *args = xcalloc(total+1, sizeof(Value));
+    ASSERT_MEM(args);
+    size_t n = 0;
+    for (int i = 0; i < numArgs; i++) {
+        Value arg = peek(numArgs-1-i);
+        if (callInfo->splatArgs & (1 << i)) {
+            for (int j = 0; j < ARRAY_SIZE(arg); j++) {
+                args[n++] = ARRAY_GET(arg, j);
+            }
+        } else {
+            args[n++] = arg;
+        }
+    }
+    EC->stackTop -= numArgs;
+    for (size_t i = 0; i < total; i++) {
+        push(args[i]);
+    }
+    xfree(args);
+    return (int)total;
+}
+
 static void setupLocalsTable(CallFrame *frame) {
     int localsSize = EC->stackTop - frame->slots;
     // this shouldn't occur, but just in case
@@ -1789,11 +1817,6 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
         UNREACHABLE("bad callable value given to callCallable: %s", typeOfVal(callable));
     }
 
-    if (UNLIKELY(EC->frameCount >= FRAMES_MAX)) {
-        errorPrintScriptBacktrace("Stack overflow.");
-        return false;
-    }
-
     VM_DEBUG(2, "doCallCallable found closure");
     // non-native function/method (defined in lox code)
     ASSERT(closure);
@@ -3112,10 +3135,10 @@ vmLoop:
       }
       CASE_OP(CALL): {
           bytecode_t numArgs = READ_WORD();
-          if (th->lastSplatNumArgs >= 0) {
-              numArgs += th->lastSplatNumArgs;
-              numArgs--;
-              th->lastSplatNumArgs = -1;
+          Value callInfoVal = READ_CONSTANT();
+          CallInfo *callInfo = internalGetData(AS_INTERNAL(callInfoVal));
+          if (UNLIKELY(callInfo->usesSplat)) {
+              numArgs = expandSplats(callInfo, numArgs);
           }
           Value callableVal = VM_PEEK(numArgs);
           if (UNLIKELY(!isCallable(callableVal))) {
@@ -3124,8 +3147,6 @@ vmLoop:
               }
               throwErrorFmt(lxTypeErrClass, "Tried to call uncallable object (type=%s)", typeOfVal(callableVal));
           }
-          Value callInfoVal = READ_CONSTANT();
-          CallInfo *callInfo = internalGetData(AS_INTERNAL(callInfoVal));
           callCallable(callableVal, numArgs, false, callInfo);
           ASSERT_VALID_STACK();
           DISPATCH_BOTTOM();
@@ -3149,10 +3170,8 @@ vmLoop:
           bytecode_t numArgs = READ_WORD();
           Value callInfoVal = READ_CONSTANT();
           CallInfo *callInfo = internalGetData(AS_INTERNAL(callInfoVal));
-          if (th->lastSplatNumArgs >= 0) {
-              numArgs += th->lastSplatNumArgs;
-              numArgs--; // the splat arg counts as an argument in `numArgs`
-              th->lastSplatNumArgs = -1;
+          if (UNLIKELY(callInfo->usesSplat)) {
+              numArgs = expandSplats(callInfo, numArgs);
           }
           Value instanceVal = VM_PEEK(numArgs);
           if (IS_CLASS(instanceVal) || IS_MODULE(instanceVal)) {
@@ -3237,15 +3256,14 @@ find_instance_method:
           DISPATCH_BOTTOM();
       }
       CASE_OP(SPLAT_ARRAY): {
-          Value ary = VM_POP();
+          Value ary = VM_PEEK(0);
           if (UNLIKELY(!IS_AN_ARRAY(ary))) {
               throwErrorFmt(lxTypeErrClass, "Splatted expression must evaluate to an Array (type=%s)",
                       typeOfVal(ary));
           }
-          th->lastSplatNumArgs = ARRAY_SIZE(ary); // can be 0
-          for (int i = 0; i < th->lastSplatNumArgs; i++) {
-              VM_PUSH(ARRAY_GET(ary, i));
-          }
+          // its elements now, the call takes them once all arguments are known
+          Value copy = arrayDup(ary);
+          VM_PUSHSWAP(copy);
           DISPATCH_BOTTOM();
       }
       CASE_OP(GET_SUPER): {
diff --git a/vm.h b/vm.h
index c1a0f30..4d594ca 100644
--- a/vm.h
+++ b/vm.h
@@ -16,10 +16,12 @@
 extern "C" {
 #endif
 
-#define STACK_INITIAL 256
-#define STACK_MAX 1024
-#define FRAMES_INITIAL 64
+// Frames and values are pointed to, so these stacks can't be moved. An error is
+// thrown at the maximum, the reserve is for making it.
+#define STACK_MAX (16*1024)
+#define STACK_RESERVE 256
 #define FRAMES_MAX 1024
+#define FRAMES_RESERVE 32
 
 #ifndef NDEBUG
 #define THREAD_DEBUG(lvl, ...) thread_debug(lvl, __VA_ARGS__)
@@ -141,10 +143,10 @@ typedef struct LxThread {
     int inCCall;
     bool cCallThrew;
     bool returnedFromNativeErr;
+    bool stackOverflowing; // making the error for it
     jmp_buf cCallJumpBuf;
     bool cCallJumpBufSet;
     int vmRunLvl; // how many calls to vm_run() are in the current thread's native stack
-    int lastSplatNumArgs;
     // stack of object pointers created during C function calls. When
     // control returns to the VM, these are popped. Stack objects aren't
     // collected during GC.
-- 
2.43.0


From 1c2ca57e3c6389a8ea109117fd892d7b10d6a44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:05 +0000
Subject: [PATCH 37/64] fix: a closure keeps its own loop variables when the
 loop is left or continued, and loops in blocks pop their locals

---
 compiler.c | 60 ++++++++++++++++++++++++++++++++++++++++++------------
 vm.c       |  3 +++
 2 files changed, 50 insertions(+), 13 deletions(-)

diff --git a/compiler.c b/compiler.c
index 25ad418..a68f524 100644
--- a/compiler.c
+++ b/compiler.c
@@ -63,6 +63,7 @@ static int blockDepth = 0;
 static bool breakBlock = false;
 static Scope *curScope = NULL;
 static int loopLocalCount = 0; // for continue statement
+static int loopBreakLocalCount = 0; // for break statement
 static int nextInsnIsLabel = false;
 
 CompilerOpts compilerOpts; // [external]
@@ -269,15 +270,27 @@ static void popLocal(Local *local) {
     }
 }
 
+// The scope of a block's parameters or of its whole body: the block's value is
+// the last popped value, so its locals are left for popFrame().
+static inline bool isBlockBodyScope(CompileScopeType stype) {
+    if (current->type != FUN_TYPE_BLOCK) return false;
+    if (stype == COMPILE_SCOPE_FUNCTION) return true;
+    return stype == COMPILE_SCOPE_BLOCK && curScope->parent &&
+        curScope->parent->type == COMPILE_SCOPE_FUNCTION;
+}
+
 static void popScope(CompileScopeType stype) {
     COMP_TRACE("popScope: %s (depth=%d)", compileScopeName(stype), current->scopeDepth);
+    bool popLocals = !isBlockBodyScope(stype);
     while (current->localCount > 0 && current->locals[current->localCount - 1].depth >= current->scopeDepth) {
         Local *local = &current->locals[current->localCount-1];
-        if (local->isUpvalue) {
+        if (!popLocals) {
+            // do nothing
+        } else if (local->isUpvalue) {
             COMP_TRACE("popScope closing upvalue");
             emitCloseUpvalue();
         } else {
-            if (current->type != FUN_TYPE_BLOCK && local->popOnScopeEnd) {
+            if (local->popOnScopeEnd) {
                 COMP_TRACE("popScope emitting OP_POP");
                 popLocal(local);
             }
@@ -881,8 +894,17 @@ static inline Insn *emitJump(OpCode jumpOp) {
     return emitOp1(jumpOp, 0); // patched later
 }
 
+// pop a loop's local at the end of an iteration, closures keep their own variable
+static void popLoopLocal(int slot) {
+    if (current->locals[slot].isUpvalue) {
+        emitCloseUpvalue();
+    } else {
+        emitOp0(OP_POP);
+    }
+}
+
 static inline Insn *emitBreak(void) {
-    Insn *br = emitOp2(OP_BREAK, 0, current->localCount - loopLocalCount); // patched later
+    Insn *br = emitOp2(OP_BREAK, 0, current->localCount - loopBreakLocalCount); // patched later
     return br;
 }
 
@@ -2032,9 +2054,11 @@ static void emitNode(Node *n) {
         pushScope(COMPILE_SCOPE_WHILE);
 
         int oldLoopLocalCount = loopLocalCount;
-        loopLocalCount = current->localCount;
+        int oldLoopBreakLocalCount = loopBreakLocalCount;
+        loopLocalCount = loopBreakLocalCount = current->localCount;
         emitNode(n->children->data[1]); // while block
         loopLocalCount = oldLoopLocalCount;
+        loopBreakLocalCount = oldLoopBreakLocalCount;
 
         curLoopType = oldLoopType;
         loopLabel->jumpTo = whileJumpStart;
@@ -2069,9 +2093,11 @@ static void emitNode(Node *n) {
 
         curLoopType = LOOP_T_FOR;
         int oldLoopLocalCount = loopLocalCount;
-        loopLocalCount = current->localCount;
+        int oldLoopBreakLocalCount = loopBreakLocalCount;
+        loopLocalCount = loopBreakLocalCount = current->localCount;
         emitNode(forBlock);
         loopLocalCount = oldLoopLocalCount;
+        loopBreakLocalCount = oldLoopBreakLocalCount;
 
         curLoopType = lastLoopType;
         patchContinuesBetween(forJump, currentIseq()->tail);
@@ -2127,26 +2153,33 @@ static void emitNode(Node *n) {
         curLoopType = LOOP_T_FOREACH;
 
         int oldLoopLocalCount = loopLocalCount;
+        int oldLoopBreakLocalCount = loopBreakLocalCount;
         loopLocalCount = current->localCount;
+        // a break goes to where the iterator value (array) is popped
+        loopBreakLocalCount = current->localCount - (numVars > 1 ? numVars : 0);
         emitNode(n->children->data[i]); // foreach block
         loopLocalCount = oldLoopLocalCount;
+        loopBreakLocalCount = oldLoopBreakLocalCount;
 
         curLoopType = lastLoopType;
         Insn *afterForeach = currentIseq()->tail;
         patchContinuesBetween(beforeForeach, afterForeach);
-        if (numVars == 1) {
-            emitOp0(OP_POP); // pop the iterator value
+        int firstSlot = current->localCount - numVars;
+        bool isCaptured = current->locals[firstSlot].isUpvalue;
+        for (int j = numVars-1; j >= 0; j--) {
+            popLoopLocal(firstSlot + j); // pop the iterator value(s)
         }
         if (numVars > 1) {
-            for (int j = 0; j < numVars; j++) {
-                emitOp0(OP_POP); // pop the iterator values
-            }
             emitOp0(OP_POP); // pop the iterator value array, for unpack
         }
         emitLoop(beforeIterNext);
         popScope(COMPILE_SCOPE_FOREACH);
         patchJump(iterDone, -1, NULL);
-        emitOp0(OP_POP); // pop the iterator value
+        if (numVars == 1 && isCaptured) {
+            emitCloseUpvalue(); // pop the iterator value, also after a break
+        } else {
+            emitOp0(OP_POP);
+        }
         patchBreaks(beforeForeach, currentIseq()->tail, 0);
         emitOp0(OP_POP); // pop the iterator
         vec_deinit(&v_slots);
@@ -2177,8 +2210,8 @@ static void emitNode(Node *n) {
             emitOp0(OP_BLOCK_CONTINUE);
         } else {
             // pop the locals declared in the loop body
-            for (int i = loopLocalCount; i < current->localCount; i++) {
-                emitOp0(OP_POP);
+            for (int i = current->localCount-1; i >= loopLocalCount; i--) {
+                popLoopLocal(i);
             }
             if (curLoopType == LOOP_T_WHILE) {
                 emitLoop(loopStart);
@@ -2588,6 +2621,7 @@ static void initializeCompiler(void) {
     breakBlock = false;
     curScope = NULL;
     loopLocalCount = 0;
+    loopBreakLocalCount = 0;
     nextInsnIsLabel = false;
 }
 
diff --git a/vm.c b/vm.c
index be4b7f4..9bab615 100644
--- a/vm.c
+++ b/vm.c
@@ -3085,6 +3085,9 @@ vmLoop:
           bytecode_t ipOffset = READ_WORD();
           ASSERT(ipOffset > 0);
           bytecode_t numPops = READ_WORD();
+          if (numPops > 0) {
+              closeUpvalues(EC->stackTop - numPops);
+          }
           while (numPops > 0) {
               VM_POP(); numPops--;
           }
-- 
2.43.0


From 2285852bda00134ea8be796d7fe623d70694714c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:06 +0000
Subject: [PATCH 38/64] fix: too deeply nested code is a syntax error instead
 of overflowing the stack, and so is a syntax error in an evaluated class body
 or a REPL's first token

---
 nodes.c  |  7 ++++-
 nodes.h  |  1 +
 parser.c | 78 +++++++++++++++++++++++++++++++++++++++++++++++++++-----
 parser.h |  1 +
 4 files changed, 80 insertions(+), 7 deletions(-)

diff --git a/nodes.c b/nodes.c
index b717d32..9a7f36c 100644
--- a/nodes.c
+++ b/nodes.c
@@ -14,6 +14,7 @@ Node *createNode(node_type_t type, Token tok, vec_nodep_t *children) {
     n->tok = tok;
     n->data = NULL;
     n->freeDataCb = NULL;
+    n->depth = 1;
     if (children == NULL) {
         n->children = ALLOCATE(vec_nodep_t, 1);
         vec_init(n->children);
@@ -26,8 +27,12 @@ Node *createNode(node_type_t type, Token tok, vec_nodep_t *children) {
 void nodeAddChild(Node *node, Node *child) {
     ASSERT_MEM(node->children);
     vec_push(node->children, child);
-    if (child != NULL)
+    if (child != NULL) {
         child->parent = node;
+        if (node->depth <= child->depth) {
+            node->depth = child->depth + 1;
+        }
+    }
 }
 
 void nodeForeachChild(Node *node, NodeCallback cb) {
diff --git a/nodes.h b/nodes.h
index 447cc47..96d3852 100644
--- a/nodes.h
+++ b/nodes.h
@@ -189,6 +189,7 @@ typedef struct sNode {
     struct sNode *parent;
     void *data; // used in some circumstances, but try to avoid it
     NodeFreeDataCallback freeDataCb;
+    int depth; // of the tree under this node
 } Node;
 
 extern int astDetailLevel; // for printing AST
diff --git a/parser.c b/parser.c
index 9ee4141..3bc95b7 100644
--- a/parser.c
+++ b/parser.c
@@ -53,6 +53,7 @@ void initParser(Parser *p) {
     vec_init(&p->peekBuf);
     vec_init(&p->v_errMessages);
     p->inCallExpr = false;
+    p->depth = 0;
 }
 
 void freeParser(Parser *p) {
@@ -189,6 +190,27 @@ static bool match(TokenType type) {
   return true;
 }
 
+// The parser, the compiler and freeNode() recurse on nested code
+#define MAX_NESTING 1000
+#define MAX_TREE_DEPTH 2000
+
+static void enterNested(void) {
+    if (++current->depth > MAX_NESTING) {
+        errorAtCurrent("Code is nested too deeply");
+    }
+}
+
+static void leaveNested(void) {
+    current->depth--;
+}
+
+// long chains (1+1+1+...) are parsed in a loop, but are deep trees
+static void checkTreeDepth(Node *n) {
+    if (n && n->depth > MAX_TREE_DEPTH) {
+        error("Code is nested too deeply");
+    }
+}
+
 // forward decls
 static Node *declaration(void);
 static Node *varDeclaration(void);
@@ -226,32 +248,42 @@ Node *parseExpression(Parser *p) {
 
 Node *parseMaybePartialStatement(Parser *p, GetMoreSourceFn fn) {
     getMoreSourceFn = fn;
-    Parser *oldCurrent = current;
+    volatile Parser *oldCurrent = current;
     current = p;
-    advance(); // prime parser with parser.current
     TRACE_START("parseStatement");
     int jumpRes = setjmp(current->errJmpBuf);
     if (jumpRes == JUMP_PERFORMED) { // jumped, had error
         ASSERT(current->panicMode);
         current = (Parser*)oldCurrent;
+        getMoreSourceFn = NULL;
         TRACE_END("parse (error)");
         return NULL;
     }
+    advance(); // prime parser with parser.current
     Node *ret = declaration();
+    checkTreeDepth(ret);
     TRACE_END("parseStatement");
-    current = oldCurrent;
+    current = (Parser*)oldCurrent;
     getMoreSourceFn = NULL;
     return ret;
 }
 
 Node *parseClass(Parser *p) {
-    Parser *oldCurrent = current;
+    volatile Parser *oldCurrent = current;
     current = p;
-    advance(); // prime parser with parser.current
     TRACE_START("parseClass");
+    int jumpRes = setjmp(current->errJmpBuf);
+    if (jumpRes == JUMP_PERFORMED) { // jumped, had error
+        ASSERT(current->panicMode);
+        current = (Parser*)oldCurrent;
+        TRACE_END("parseClass (error)");
+        return NULL;
+    }
+    advance(); // prime parser with parser.current
     Node *ret = classOrModuleBody("classBody");
+    checkTreeDepth(ret);
     TRACE_END("parseClass");
-    current = oldCurrent;
+    current = (Parser*)oldCurrent;
     return ret;
 }
 
@@ -307,6 +339,7 @@ Node *parse(Parser *p) {
     TRACE_START("parse");
     while (!isAtEnd()) {
         Node *stmt = declaration();
+        checkTreeDepth(stmt);
         ASSERT(stmt->type.type == NODE_STMT);
         nodeAddChild(ret, stmt);
     }
@@ -330,7 +363,16 @@ static void freeSuperTokenCallback(Node *node) {
     FREE(Token, node->data);
 }
 
+static Node *declarationOrStatement(void);
+
 static Node *declaration(void) {
+    enterNested();
+    Node *ret = declarationOrStatement();
+    leaveNested();
+    return ret;
+}
+
+static Node *declarationOrStatement(void) {
     TRACE_START("declaration");
     if (match(TOKEN_VAR)) {
         Node *ret = varDeclaration();
@@ -476,7 +518,9 @@ static Node *statement() {
         if (match(TOKEN_ELSE)) {
             Token elseTok = current->previous;
             if (check(TOKEN_IF)) { // else if
+                enterNested();
                 Node *elseStmt = statement();
+                leaveNested();
                 nodeAddChild(ifNode, elseStmt);
             } else {
                 consume(TOKEN_LEFT_BRACE, "Expected '{' after 'else'");
@@ -1030,6 +1074,12 @@ static Node *funDeclaration(ParseFunctionType fnType) {
     Node *funcNode = createNode(funcType, nameTok, NULL);
     nodeAddData(funcNode, (void*)paramNodes, freeParamNodesDataCb);
     nodeAddChild(funcNode, blockNode);
+    Node *paramNode = NULL; int paramIdx = 0;
+    vec_foreach(paramNodes, paramNode, paramIdx) {
+        if (funcNode->depth <= paramNode->depth) {
+            funcNode->depth = paramNode->depth + 1;
+        }
+    }
     TRACE_END("funDeclaration");
     return funcNode;
 }
@@ -1073,7 +1123,9 @@ static Node *assignment() {
     Node *lval = logicOr();
     if (match(TOKEN_EQUAL)) { // regular assignment
         Token eqTok = current->previous;
+        enterNested();
         Node *rval = assignment(); // assignment goes right to left in precedence (a = (b = c))
+        leaveNested();
         Node *ret = NULL;
         if (nodeKind(lval) == VARIABLE_EXPR || nodeKind(lval) == CONSTANT_EXPR) {
             TRACE_START("assignExpr");
@@ -1120,7 +1172,9 @@ static Node *assignment() {
             advance();
             Token opTok = current->previous;
             advance();
+            enterNested();
             Node *rval = assignment(); // assignment goes right to left in precedence (a *= (b += c))
+            leaveNested();
             TRACE_START("propAccessExpr");
             node_type_t propsetT = {
                 .type = NODE_EXPR,
@@ -1139,7 +1193,9 @@ static Node *assignment() {
         advance(); // past binary op
         Token opTok = current->previous;
         advance(); // past equal
+        enterNested();
         Node *rval = assignment(); // assignment goes right to left in precedence (a *= (b += c))
+        leaveNested();
         node_type_t opT = {
             .type = NODE_EXPR,
             .kind = BINARY_ASSIGN_EXPR,
@@ -1313,6 +1369,7 @@ static Node *multiplication() {
 // precedence from right to left (!!a) == (!(!a))
 static Node *unary() {
     TRACE_START("unary");
+    enterNested();
     if (match(TOKEN_BANG) || match(TOKEN_MINUS)) {
         Token unTok = current->previous;
         node_type_t unT = {
@@ -1322,10 +1379,12 @@ static Node *unary() {
         Node *unNode = createNode(unT, unTok, NULL);
         nodeAddChild(unNode, unary()); // slurp up from right
         TRACE_END("unary");
+        leaveNested();
         return unNode;
     }
     Node *ret = call();
     TRACE_END("unary");
+    leaveNested();
     return ret;
 }
 
@@ -1468,6 +1527,12 @@ static Node *stringTogetherNodesBinop(vec_void_t *nodes, TokenType ttype, char *
             last = binop;
         }
     }
+    // children were added top down
+    vec_foreach(nodes, n, i) {
+        if (ret->depth < n->depth + i + 1) {
+            ret->depth = n->depth + i + 1;
+        }
+    }
     return ret;
 }
 
@@ -1502,6 +1567,7 @@ static Node *primary() {
             setScanner(newScan);
             Parser newParser;
             initParser(&newParser);
+            newParser.depth = oldParser->depth;
             int jmpres = 0;
             if ((jmpres = setjmp(newParser.errJmpBuf)) == JUMP_SET) {
                 // do nothing
diff --git a/parser.h b/parser.h
index 362e09b..5f50921 100644
--- a/parser.h
+++ b/parser.h
@@ -18,6 +18,7 @@ typedef struct sParser {
   Token previous;
   vec_tok_t peekBuf;
   bool inCallExpr;
+  int depth; // of nested code
 
   vec_void_t v_errMessages; // list of ObjStrings
   bool hadError;
-- 
2.43.0


From 81d5c5a0522b57024b5a40f335780341ea17d49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:22 +0000
Subject: [PATCH 39/64] fix: this, constants, locals, errors and loops in
 class, module and in bodies, and super in functions, static methods and
 objects' own methods

---
 chunk.c       |  10 +++-
 chunk.h       |   8 ++-
 compiler.c    |  33 +++++++---
 compiler.h    |   4 ++
 debug.c       |   4 ++
 memory.c      |   3 +
 object.c      |  28 +++++++++
 object.h      |   2 +
 opcodes.h.inc |   1 +
 vm.c          | 162 ++++++++++++++++++++++++++++++--------------------
 vm.h          |   2 +
 11 files changed, 182 insertions(+), 75 deletions(-)

diff --git a/chunk.c b/chunk.c
index 549f083..c303379 100644
--- a/chunk.c
+++ b/chunk.c
@@ -208,6 +208,8 @@ int iseqAddCatchRow(
     int ito,
     int itarget,
     int stackDepth,
+    int thisDepth,
+    int crefDepth,
     Value catchVal
 ) {
     CatchTable *tblRow = ALLOCATE(CatchTable, 1);
@@ -215,6 +217,8 @@ int iseqAddCatchRow(
     tblRow->ito = ito;
     tblRow->itarget = itarget;
     tblRow->stackDepth = stackDepth;
+    tblRow->thisDepth = thisDepth;
+    tblRow->crefDepth = crefDepth;
     tblRow->catchVal = catchVal;
     tblRow->isEnsure = false;
     memset(&tblRow->lastThrownValue, 0, sizeof(Value));
@@ -240,13 +244,17 @@ int iseqAddEnsureRow(
     int ifrom,
     int ito,
     int itarget,
-    int stackDepth
+    int stackDepth,
+    int thisDepth,
+    int crefDepth
 ) {
     CatchTable *tblRow = ALLOCATE(CatchTable, 1);
     tblRow->ifrom = ifrom;
     tblRow->ito = ito;
     tblRow->itarget = itarget;
     tblRow->stackDepth = stackDepth;
+    tblRow->thisDepth = thisDepth;
+    tblRow->crefDepth = crefDepth;
     tblRow->catchVal = NIL_VAL;
     tblRow->isEnsure = true;
     memset(&tblRow->lastThrownValue, 0, sizeof(Value));
diff --git a/chunk.h b/chunk.h
index a51ad03..5133954 100644
--- a/chunk.h
+++ b/chunk.h
@@ -26,6 +26,8 @@ typedef struct CatchTable {
     struct CatchTable *next; // next row in the catch table
     bool isEnsure; // is an ensure block
     int stackDepth; // locals live at the start of the try block, or -1
+    int thisDepth; // class, module and in bodies of the function the try block is in
+    int crefDepth; // class and module bodies of the function the try block is in
 } CatchTable;
 
 /**
@@ -119,6 +121,8 @@ int iseqAddCatchRow(
     int ito,
     int itarget,
     int stackDepth,
+    int thisDepth,
+    int crefDepth,
     Value catchVal
 );
 int iseqAddEnsureRow(
@@ -126,7 +130,9 @@ int iseqAddEnsureRow(
     int ifrom,
     int ito,
     int itarget,
-    int stackDepth
+    int stackDepth,
+    int thisDepth,
+    int crefDepth
 );
 
 // debugging
diff --git a/compiler.c b/compiler.c
index a68f524..ee1eef7 100644
--- a/compiler.c
+++ b/compiler.c
@@ -1413,6 +1413,24 @@ static void defineVariable(Token *name, bytecode_t arg, bool checkDecl) {
   }
 }
 
+// The body of a class, module or in statement: the value pushed by its first
+// instruction is in the fake local's slot. Loops around it can't be left from it.
+static void emitClassBody(Node *n, bool isIn) {
+    eLoopType oldLoopType = curLoopType;
+    curLoopType = LOOP_T_NONE;
+    current->thisDepth++;
+    if (!isIn) current->crefDepth++;
+    addFakeLocal(false);
+    if (isIn) {
+        emitNode(n->children->data[1]);
+    } else {
+        emitChildren(n);
+    }
+    current->thisDepth--;
+    if (!isIn) current->crefDepth--;
+    curLoopType = oldLoopType;
+}
+
 static void emitClass(Node *n) {
     bytecode_t nameConstant = identifierConstant(&n->tok);
     ClassCompiler cComp;
@@ -1432,8 +1450,7 @@ static void emitClass(Node *n) {
         emitOp1(OP_CLASS, nameConstant); // VM gets the class name
     }
 
-    addFakeLocal(false); // fake local corresponds to `this` (slot 0)
-    emitChildren(n); // block node with methods and other declarations
+    emitClassBody(n, false); // block node with methods and other declarations
 
     popScope(COMPILE_SCOPE_CLASS);
 
@@ -1454,7 +1471,7 @@ static void emitModule(Node *n) {
 
     emitOp1(OP_MODULE, nameConstant);
     pushScope(COMPILE_SCOPE_MODULE);
-    emitChildren(n);
+    emitClassBody(n, false);
     popScope(COMPILE_SCOPE_MODULE);
 
     // define the local or global variable for the class itself
@@ -1474,9 +1491,9 @@ static void emitIn(Node *n) {
     emitOp0(OP_IN); // sets vm.self properly
     inINBlock = true;
     pushScope(COMPILE_SCOPE_IN);
-    emitNode(n->children->data[1]); // block
+    emitClassBody(n, true);
     popScope(COMPILE_SCOPE_IN);
-    emitOp0(OP_POP);
+    emitOp0(OP_POP_THIS);
     inINBlock = oldIn;
 }
 
@@ -2516,7 +2533,8 @@ static void emitNode(Node *n) {
                     STRING_SET_STATIC(className);
                     double catchTblRowIdx = (double)iseqAddCatchRow(
                             iseq, ifrom, ito,
-                            itarget, stackDepth, OBJ_VAL(className)
+                            itarget, stackDepth, current->thisDepth, current->crefDepth,
+                            OBJ_VAL(className)
                             );
                     pushScope(COMPILE_SCOPE_TRY);
                     // given variable expression to bind to (Ex: (catch Error err))
@@ -2566,7 +2584,8 @@ static void emitNode(Node *n) {
                         // block is entered normally, otherwise the VM pushes it.
                         emitOp0(OP_NIL);
                         itarget = iseq->wordCount;
-                        iseqAddEnsureRow(iseq, ifrom, ito, itarget, stackDepth);
+                        iseqAddEnsureRow(iseq, ifrom, ito, itarget, stackDepth,
+                                current->thisDepth, current->crefDepth);
                         Token errTok = syntheticToken("(ensure)");
                         bytecode_t errSlot = (bytecode_t)declareVariable(&errTok);
                         emitOp2(OP_SET_LOCAL, errSlot, identifierConstant(&errTok));
diff --git a/compiler.h b/compiler.h
index 536e75d..e5f445d 100644
--- a/compiler.h
+++ b/compiler.h
@@ -97,6 +97,10 @@ typedef struct Compiler {
   // scope (global scope)
   int scopeDepth;
 
+  // The class, module and in bodies we're in, in this function
+  int thisDepth;
+  int crefDepth; // only class and module bodies
+
   Iseq iseq; // Generated instructions for the function
   Table constTbl;
 
diff --git a/debug.c b/debug.c
index 8a8bed7..27f53b2 100644
--- a/debug.c
+++ b/debug.c
@@ -168,6 +168,8 @@ const char *opName(OpCode code) {
         return "OP_DUP";
     case OP_POP_CREF:
         return "OP_POP_CREF";
+    case OP_POP_THIS:
+        return "OP_POP_THIS";
     case OP_POP_N:
         return "OP_POP_N";
     case OP_POP_DEBUG:
@@ -775,6 +777,7 @@ int printDisassembledInstruction(FILE *f, Chunk *chunk, int i, vec_funcp_t *func
         case OP_POP:
         case OP_DUP:
         case OP_POP_CREF:
+        case OP_POP_THIS:
         case OP_LEAVE:
         case OP_THROW:
         case OP_INDEX_GET:
@@ -891,6 +894,7 @@ static int disassembledInstruction(ObjString *buf, Chunk *chunk, int i, vec_func
         case OP_POP:
         case OP_DUP:
         case OP_POP_CREF:
+        case OP_POP_THIS:
         case OP_LEAVE:
         case OP_THROW:
         case OP_INDEX_GET:
diff --git a/memory.c b/memory.c
index 359bfac..2951016 100644
--- a/memory.c
+++ b/memory.c
@@ -779,6 +779,9 @@ void blackenObject(Obj *obj) {
             if (func->name) {
                 grayObject(TO_OBJ(func->name));
             }
+            if (func->method) {
+                grayObject(TO_OBJ(func->method));
+            }
             grayTable(&func->localsTable);
             LocalVariable *var; int idx = 0;
             vec_foreach(&func->variables, var, idx) {
diff --git a/object.c b/object.c
index 294ff55..5d17bf6 100644
--- a/object.c
+++ b/object.c
@@ -281,6 +281,7 @@ ObjFunction *newFunction(Chunk *chunk, struct sNode *funcNode, FunctionType ftyp
     function->localCount = 0;
     function->name = NULL;
     function->klass = NULL;
+    function->method = NULL;
     function->funcNode = funcNode;
     function->programNode = NULL;
     function->isSingletonMethod = false;
@@ -674,6 +675,33 @@ Obj *classFindStaticMethod(ObjClass *obj, ObjString *name) {
     return NULL;
 }
 
+// static method of a class that is the next one after the one of `klass`
+Obj *classFindSuperStaticMethod(ObjClass *obj, ObjClass *klass, ObjString *name) {
+    Obj *cur = TO_OBJ(obj);
+    while (cur && cur != TO_OBJ(klass)) {
+        cur = CLASS_SUPER(cur);
+    }
+    if (!cur) return NULL;
+    Value method;
+    cur = CLASS_SUPER(cur);
+    while (cur) {
+        ObjClass *meta = cur->type == OBJ_T_ICLASS ?
+            ((ObjIClass*)cur)->mod->singletonKlass : ((ObjClass*)cur)->singletonKlass;
+        if (meta && tableGet(CLASS_METHOD_TBL(TO_OBJ(meta)), OBJ_VAL(name), &method)) {
+            return AS_OBJ(method);
+        }
+        cur = CLASS_SUPER(cur);
+    }
+    cur = TO_OBJ(obj->klass);
+    while (cur) {
+        if (tableGet(CLASS_METHOD_TBL(cur), OBJ_VAL(name), &method)) {
+            return AS_OBJ(method);
+        }
+        cur = CLASS_SUPER(cur);
+    }
+    return NULL;
+}
+
 void setObjectFinalizer(ObjInstance *obj, Obj *callable) {
     ASSERT(isCallable(OBJ_VAL(callable)));
     if (obj->finalizerFunc == NULL) {
diff --git a/object.h b/object.h
index be519b0..8fbf524 100644
--- a/object.h
+++ b/object.h
@@ -136,6 +136,7 @@ typedef struct ObjFunction {
   vec_void_t scopes;
   vec_void_t variables;
   Obj *klass; // ObjClass* or ObjModule* (if method)
+  struct ObjFunction *method; // method the function is written in, if any
   struct sNode *funcNode;
   struct sNode *programNode;
   struct Upvalue *upvaluesInfo;
@@ -662,6 +663,7 @@ Obj *instanceFindMethod(ObjInstance *obj, ObjString *name);
 Obj *instanceFindMethodOrRaise(ObjInstance *obj, ObjString *name);
 Obj *instanceFindGetter(ObjInstance *obj, ObjString *name);
 Obj *instanceFindSetter(ObjInstance *obj, ObjString *name);
+Obj *classFindSuperStaticMethod(ObjClass *obj, ObjClass *klass, ObjString *name);
 Obj *classFindStaticMethod(ObjClass *obj, ObjString *name);
 bool instanceIsA(ObjInstance *inst, ObjClass *klass);
 bool isSubclass(ObjClass *subklass, ObjClass *superklass);
diff --git a/opcodes.h.inc b/opcodes.h.inc
index 2a8db99..06b92cf 100644
--- a/opcodes.h.inc
+++ b/opcodes.h.inc
@@ -68,6 +68,7 @@ OPCODE(OR)
 OPCODE(POP)
 OPCODE(DUP)
 OPCODE(POP_CREF)
+OPCODE(POP_THIS)
 OPCODE(POP_N)
 OPCODE(POP_DEBUG)
 
diff --git a/vm.c b/vm.c
index 9bab615..68a9afc 100644
--- a/vm.c
+++ b/vm.c
@@ -761,7 +761,6 @@ static inline void setThis(unsigned n) {
         ASSERT(0);
     }
     th->thisObj = AS_OBJ(*(ctx->stackTop-1-n));
-    getFrame()->instance = (ObjInstance*)th->thisObj;
     vec_push(&th->v_thisStack, th->thisObj);
     DBG_ASSERT(th->thisObj);
 }
@@ -769,7 +768,6 @@ static inline void setThis(unsigned n) {
 static inline void pushThis(Obj *this) {
     register LxThread *th = vm.curThread;
     th->thisObj = this;
-    getFrame()->instance = (ObjInstance*)th->thisObj;
     vec_push(&th->v_thisStack, th->thisObj);
 }
 
@@ -782,7 +780,17 @@ static inline void popThis() {
      } else {
         th->thisObj = NULL;
      }
-    getFrame()->instance = TO_INSTANCE(th->thisObj);
+}
+
+// leave the class bodies and methods entered since there were that many
+static void unwindThis(int numThis, int numCrefs) {
+    register LxThread *th = vm.curThread;
+    while (th->v_thisStack.length > numThis) {
+        popThis();
+    }
+    while (th->v_crefStack.length > numCrefs) {
+        (void)vec_pop(&th->v_crefStack);
+    }
 }
 
 static inline void pushCref(ObjClass *klass) {
@@ -977,8 +985,8 @@ static void showUncaughtError(Value err) {
         msgStr = VAL_TO_STRING(msg)->chars;
     }
     Value bt = getProp(err, INTERN("backtrace"));
-    ASSERT(!IS_NIL(bt));
-    int btSz = ARRAY_SIZE(bt);
+    // break and continue outside of blocks have none, scripts can set it
+    int btSz = IS_AN_ARRAY(bt) ? ARRAY_SIZE(bt) : 0;
     fprintf(stderr, "Uncaught error, class: %s\n", className);
     if (msgStr) {
         fprintf(stderr, "Message: \"%s\"\n", msgStr);
@@ -1051,18 +1059,9 @@ static inline bool isThrowable(Value val) {
     return IS_AN_ERROR(val);
 }
 
-bool lookupMethod(ObjInstance *obj, Obj *klass, ObjString *propName, MethodType mtype, Value *ret, bool lookInGivenClass) {
-    Obj *givenClass = klass;
-    if (klass == TO_OBJ(obj->klass) && obj->singletonKlass) {
-        klass = TO_OBJ(obj->singletonKlass);
-    }
+static bool lookupMethodFrom(Obj *classLookup, ObjString *propName, MethodType mtype, Value *ret) {
     Value key = OBJ_VAL(propName);
-    Obj *classLookup = klass;
     while (classLookup) {
-        if (!lookInGivenClass && classLookup == givenClass) {
-            classLookup = CLASS_SUPER(classLookup);
-            continue;
-        }
         Table *mtable;
         if (mtype == METHOD_TYPE_METHOD) {
             mtable = CLASS_METHOD_TBL(classLookup);
@@ -1080,6 +1079,16 @@ bool lookupMethod(ObjInstance *obj, Obj *klass, ObjString *propName, MethodType
     return false;
 }
 
+bool lookupMethod(ObjInstance *obj, Obj *klass, ObjString *propName, MethodType mtype, Value *ret, bool lookInGivenClass) {
+    Obj *start = klass;
+    if (!lookInGivenClass) {
+        start = CLASS_SUPER(klass);
+    } else if (klass == TO_OBJ(obj->klass) && obj->singletonKlass) {
+        start = TO_OBJ(obj->singletonKlass);
+    }
+    return lookupMethodFrom(start, propName, mtype, ret);
+}
+
 static InterpretResult vm_run0(void);
 static InterpretResult vm_run(void);
 
@@ -1183,7 +1192,7 @@ static void defineStaticMethod(ObjString *name) {
     Value method = peek(0); // function
     ASSERT(IS_CLOSURE(method));
     ObjFunction *func = AS_CLOSURE(method)->function;
-    Value classOrMod = peek(1);
+    Value classOrMod = OBJ_VAL(vm.curThread->thisObj);
     ASSERT(IS_CLASS(classOrMod) || IS_MODULE(classOrMod));
     func->klass = AS_OBJ(classOrMod);
     func->isSingletonMethod = true;
@@ -1199,7 +1208,7 @@ static void defineStaticMethod(ObjString *name) {
 static void defineGetter(ObjString *name) {
     Value method = peek(0); // function
     ASSERT(IS_CLOSURE(method));
-    Value classOrMod = peek(1);
+    Value classOrMod = OBJ_VAL(vm.curThread->thisObj);
     ASSERT(IS_CLASS(classOrMod) || IS_MODULE(classOrMod));
     ObjFunction *func = AS_CLOSURE(method)->function;
     if (func) {
@@ -1226,7 +1235,7 @@ static void defineGetter(ObjString *name) {
 static void defineSetter(ObjString *name) {
     Value method = peek(0); // function
     ASSERT(IS_CLOSURE(method));
-    Value classOrMod = peek(1);
+    Value classOrMod = OBJ_VAL(vm.curThread->thisObj);
     ObjFunction *func = AS_CLOSURE(method)->function;
     if (func) {
       func->klass = AS_OBJ(classOrMod);
@@ -1364,15 +1373,7 @@ void popFrame(void) {
     } else {
         closeUpvalues(newTop);
     }
-    if (frame->klass != NULL) {
-        ASSERT(th->v_crefStack.length > 0);
-        VM_DEBUG(3, "popping cref from popFrame");
-        (void)vec_pop(&th->v_crefStack);
-    }
-    if (frame->instance != NULL) {
-        VM_DEBUG(3, "popping this from popFrame");
-        popThis();
-    }
+    unwindThis(frame->numThis, frame->numCrefs);
     frame->scope = NULL;
     EC->frameCount--;
     frame = getFrameOrNull(); // prev frame
@@ -1404,6 +1405,8 @@ CallFrame *pushFrame(ObjFunction *userFunc) {
     frame->callLine = curLine;
     frame->file = ec->filename;
     frame->prev = prev;
+    frame->numThis = vm.curThread->v_thisStack.length;
+    frame->numCrefs = vm.curThread->v_crefStack.length;
     BlockStackEntry *bentry = vec_last_or(&vm.curThread->v_blockStack, NULL);
     if (bentry && bentry->frame == NULL) {
         bentry->frame = frame;
@@ -2214,6 +2217,9 @@ NORETURN static void jumpToCatchRow(Value err, bytecode_t *ipNew, CatchTable *ca
             EC->stackTop = newTop;
         }
     }
+    CallFrame *frame = getFrame();
+    unwindThis(frame->numThis + (frame->instance ? 1 : 0) + catchRow->thisDepth,
+            frame->numCrefs + (frame->klass ? 1 : 0) + catchRow->crefDepth);
     if (catchRow->isEnsure) push(err); // rethrown at the end of the ensure block
     getFrame()->ip = ipNew;
     DBG_ASSERT(getFrame()->closure->function->chunk->catchTbl);
@@ -2855,6 +2861,11 @@ vmLoop:
           popThis();
           DISPATCH_BOTTOM();
       }
+      CASE_OP(POP_THIS): {
+          VM_POP();
+          popThis();
+          DISPATCH_BOTTOM();
+      }
       CASE_OP(POP_N): {
           VM_POPN((int)READ_WORD());
           DISPATCH_BOTTOM();
@@ -2998,6 +3009,11 @@ vmLoop:
           Value funcVal = READ_CONSTANT();
           ASSERT(IS_FUNCTION(funcVal));
           ObjFunction *func = AS_FUNCTION(funcVal);
+          ObjFunction *outer = getFrame()->closure->function;
+          func->method = outer->klass ? outer : outer->method; // for `super`
+          if (func->method) {
+              OBJ_WRITE(OBJ_VAL(func), OBJ_VAL(func->method));
+          }
           ObjClosure *closure = newClosure(func, NEWOBJ_FLAG_NONE);
           VM_PUSH(OBJ_VAL(closure));
 
@@ -3271,43 +3287,44 @@ find_instance_method:
       }
       CASE_OP(GET_SUPER): {
           Value methodName = READ_CONSTANT();
-          ASSERT(th->thisObj);
-          Value instanceVal = OBJ_VAL(th->thisObj);
-          ASSERT(IS_INSTANCE_LIKE(instanceVal));
+          ObjFunction *func = frame->closure->function;
+          if (!func->klass) { // function written in a method
+              func = func->method;
+          }
           // FIXME: should be frame->closure->klass, functions can be used in multiple classes
-          ObjClass *klass = (ObjClass*)frame->closure->function->klass; // NOTE: class or module
-          ASSERT(klass);
-          ObjIClass *iclassFound = NULL;
-          if (TO_OBJ(klass)->type == OBJ_T_MODULE) {
-              ObjModule *mod = (ObjModule*)klass;
-              klass = AS_INSTANCE(instanceVal)->klass;
-              Obj *iclass = TO_OBJ(klass);
-              while (iclass != TO_OBJ(mod)) {
-                  iclass = CLASSINFO(iclass)->superclass;
-                  if (iclass->type == OBJ_T_CLASS) {
-                      // do nothing
-                  } else if (iclass->type == OBJ_T_ICLASS) {
-                      iclassFound = (ObjIClass*)iclass;
-                      iclass = TO_OBJ(((ObjIClass*)iclass)->mod);
-                  }
-              }
-              ASSERT(iclass == TO_OBJ(mod));
-              klass = (ObjClass*)iclassFound;
+          ObjClass *klass = func ? (ObjClass*)func->klass : NULL; // NOTE: class or module
+          if (UNLIKELY(!klass || !th->thisObj || !IS_INSTANCE_LIKE(OBJ_VAL(th->thisObj)))) {
+              throwErrorFmt(lxErrClass, "'super' can only be used in methods");
           }
-          bool found;
-          Value method;
-          enum MethodType mtype = METHOD_TYPE_METHOD;
-          if (frame->closure->function->ftype == FUN_TYPE_GETTER) {
-              mtype = METHOD_TYPE_GETTER;
+          Value instanceVal = OBJ_VAL(th->thisObj);
+          Obj *superMethod = NULL;
+          if (func->isSingletonMethod) {
+              if (IS_CLASS(instanceVal) && TO_OBJ(klass)->type == OBJ_T_CLASS) {
+                  superMethod = classFindSuperStaticMethod(AS_CLASS(instanceVal), klass,
+                          AS_STRING(methodName));
+              }
+          } else {
+              ObjInstance *inst = AS_INSTANCE(instanceVal);
+              Obj *iclass = TO_OBJ(inst->singletonKlass ? inst->singletonKlass : inst->klass);
+              // the class itself, or the included module
+              while (iclass && iclass != TO_OBJ(klass) && !(iclass->type == OBJ_T_ICLASS &&
+                          TO_OBJ(((ObjIClass*)iclass)->mod) == TO_OBJ(klass))) {
+                  iclass = CLASS_SUPER(iclass);
+              }
+              enum MethodType mtype = METHOD_TYPE_METHOD;
+              if (func->ftype == FUN_TYPE_GETTER) {
+                  mtype = METHOD_TYPE_GETTER;
+              }
+              Value method;
+              if (iclass && lookupMethodFrom(CLASS_SUPER(iclass), AS_STRING(methodName), mtype, &method)) {
+                  superMethod = AS_OBJ(method);
+              }
           }
-          found = lookupMethod(
-                  AS_INSTANCE(instanceVal), TO_OBJ(klass),
-                  AS_STRING(methodName), mtype, &method, false);
-          if (UNLIKELY(!found)) {
+          if (UNLIKELY(!superMethod)) {
               throwErrorFmt(lxErrClass, "Could not find method '%s' for 'super'",
                       AS_CSTRING(methodName));
           }
-          ObjBoundMethod *bmethod = newBoundMethod(AS_INSTANCE(instanceVal), AS_OBJ(method), NEWOBJ_FLAG_NONE);
+          ObjBoundMethod *bmethod = newBoundMethod(AS_INSTANCE(instanceVal), superMethod, NEWOBJ_FLAG_NONE);
           VM_PUSH(OBJ_VAL(bmethod));
           DISPATCH_BOTTOM();
       }
@@ -3485,7 +3502,7 @@ find_instance_method:
           ObjString *methStr = AS_STRING(methodName);
           Value method = peek(0); // function
           ASSERT(IS_CLOSURE(method));
-          Value classOrMod = peek(1);
+          Value classOrMod = OBJ_VAL(th->thisObj);
           ASSERT(IS_CLASS(classOrMod) || IS_MODULE(classOrMod));
           defineMethod(classOrMod, methStr, method);
           pop(); // function
@@ -3790,6 +3807,8 @@ static Value doVMEval(char *src, char *filename, int lineno, ObjInstance *instan
     int oldOpts = compilerOpts.noRemoveUnusedExpressions;
     compilerOpts.noRemoveUnusedExpressions = true;
     VMExecContext *old_ectx = EC;
+    int numThis = THREAD()->v_thisStack.length;
+    int numCrefs = THREAD()->v_crefStack.length;
     push_EC(false);
     VMExecContext *ectx = EC;
     ectx->evalContext = true;
@@ -3846,7 +3865,10 @@ static Value doVMEval(char *src, char *filename, int lineno, ObjInstance *instan
         result == INTERPRET_OK ? "OK" : "RAISE");
     // `EC != ectx` if an error occured in the eval, and propagated out
     // due to being caught in a surrounding context or never being caught.
-    if (EC == ectx) pop_EC();
+    if (EC == ectx) {
+        if (result != INTERPRET_OK) unwindThis(numThis, numCrefs);
+        pop_EC();
+    }
     ASSERT(getFrame() == oldFrame);
     if (result == INTERPRET_OK) {
         return val;
@@ -3867,6 +3889,8 @@ static Value doVMBindingEval(LxBinding *binding, char *src, char *filename, int
     CompileErr err = COMPILE_ERR_NONE;
     int oldOpts = compilerOpts.noRemoveUnusedExpressions;
     compilerOpts.noRemoveUnusedExpressions = true;
+    int numThis = THREAD()->v_thisStack.length;
+    int numCrefs = THREAD()->v_crefStack.length;
     push_EC(true);
     resetStack();
     VMExecContext *ectx = EC;
@@ -3890,6 +3914,11 @@ static Value doVMBindingEval(LxBinding *binding, char *src, char *filename, int
     VM_DEBUG(1, "%s", "Pushing initial binding eval callframe");
     // TODO: this pushFrame() allocates a new scope, but then just re-uses the parent scope.
     // We could just skip allocation of scope for this frame.
+    LxThread *th = THREAD();
+    vec_void_t old_cref_stack;
+    memcpy(&old_cref_stack, &th->v_crefStack, sizeof(vec_void_t));
+    memcpy(&th->v_crefStack, &binding->v_crefStack, sizeof(vec_void_t));
+    int bindingCrefs = th->v_crefStack.length;
     CallFrame *frame = pushFrame(func); // FIXME: wasted a OBJ_T_SCOPE allocation
     frame->scope = scope;
     frame->start = 0;
@@ -3906,11 +3935,6 @@ static Value doVMBindingEval(LxBinding *binding, char *src, char *filename, int
     frame->instance = TO_INSTANCE(binding->thisObj); // should be scope->instance
     frame->klass = NULL; // should be scope->klass
 
-    LxThread *th = THREAD();
-    vec_void_t old_cref_stack;
-    memcpy(&old_cref_stack, &th->v_crefStack, sizeof(vec_void_t));
-    memcpy(&th->v_crefStack, &binding->v_crefStack, sizeof(vec_void_t));
-
     setupPerScriptROGlobals(filename);
 
     ErrTag status = TAG_NONE;
@@ -3918,6 +3942,9 @@ static Value doVMBindingEval(LxBinding *binding, char *src, char *filename, int
 
     vm_protect(vm_run_protect, NULL, NULL, &status);
 
+    // classes entered by the code can have moved its elements
+    memcpy(&binding->v_crefStack, &th->v_crefStack, sizeof(vec_void_t));
+    binding->v_crefStack.length = bindingCrefs;
     memcpy(&th->v_crefStack, &old_cref_stack, sizeof(vec_void_t));
 
     if (status == TAG_RAISE) {
@@ -3929,7 +3956,10 @@ static Value doVMBindingEval(LxBinding *binding, char *src, char *filename, int
         result == INTERPRET_OK ? "OK" : "RAISE");
     // `EC != ectx` if an error occured in the eval, and propagated out
     // due to being caught in a surrounding context or never being caught.
-    if (EC == ectx) pop_EC();
+    if (EC == ectx) {
+        if (result != INTERPRET_OK) unwindThis(numThis, numCrefs);
+        pop_EC();
+    }
     ASSERT(getFrame() == oldFrame);
     if (result == INTERPRET_OK) {
         return val;
diff --git a/vm.h b/vm.h
index 4d594ca..0b0265f 100644
--- a/vm.h
+++ b/vm.h
@@ -42,6 +42,8 @@ typedef struct CallFrame {
     ObjScope *scope;
     ObjInstance *instance; // if function is a method
     ObjClass *klass; // if function is a method
+    int numThis; // length of v_thisStack before the frame
+    int numCrefs; // length of v_crefStack before the frame
 
     // Native (C) function fields
     bool isCCall; // native call, callframe created for C (native) function call
-- 
2.43.0


From 716a17792bb3923a175dfb9735be2486155a3e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:28 +0000
Subject: [PATCH 40/64] fix: an uncaught error whose message or backtrace was
 set to another kind of value is shown instead of crashing

---
 vm.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vm.c b/vm.c
index 68a9afc..e1eeeca 100644
--- a/vm.c
+++ b/vm.c
@@ -981,8 +981,12 @@ static void showUncaughtError(Value err) {
     }
     Value msg = getProp(err, INTERN("message"));
     char *msgStr = NULL;
-    if (!IS_NIL(msg)) {
-        msgStr = VAL_TO_STRING(msg)->chars;
+    if (IS_STRING(msg)) {
+        msgStr = AS_CSTRING(msg);
+    } else if (!IS_OBJ(msg) && !IS_NIL(msg)) {
+        msgStr = valueToString(msg, hiddenString, NEWOBJ_FLAG_NONE)->chars;
+    } else if (!IS_NIL(msg)) { // scripts can set it to any value
+        msgStr = (char*)typeOfVal(msg);
     }
     Value bt = getProp(err, INTERN("backtrace"));
     // break and continue outside of blocks have none, scripts can set it
@@ -995,7 +999,8 @@ static void showUncaughtError(Value err) {
     }
     fprintf(stderr, "Backtrace:\n");
     for (int i = 0; i < btSz; i++) {
-        fprintf(stderr, "%s", VAL_TO_STRING(ARRAY_GET(bt, i))->chars);
+        Value line = ARRAY_GET(bt, i);
+        if (IS_STRING(line)) fprintf(stderr, "%s", AS_CSTRING(line));
     }
 
     THREAD()->hadError = true;
-- 
2.43.0


From 26f98e227f6c7e11182107042b51739854773df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:22 +0000
Subject: [PATCH 41/64] fix: super in a module that's included more than once,
 in modules' static methods; getters and static methods from extend();
 constants and superClass of classes with included modules; strings without
 contents when init() isn't run

---
 object.c  | 53 +++++++++++++++++++++++++++++++----------------
 object.h  |  6 ++++--
 runtime.c | 44 +++++++++++++++++++--------------------
 string.c  |  3 +++
 vm.c      | 62 +++++++++++++++++++++++++++++++++++++++----------------
 vm.h      |  1 +
 6 files changed, 108 insertions(+), 61 deletions(-)

diff --git a/object.c b/object.c
index 5d17bf6..5baedd7 100644
--- a/object.c
+++ b/object.c
@@ -496,7 +496,11 @@ ObjInstance *newInstance(ObjClass *klass, int flags) {
     if (LIKELY(vm.inited)) {
         DBG_ASSERT(klass);
         if (IS_SUBCLASS(klass, lxStringClass)) {
-            return (ObjInstance*)allocateString(NULL, 0, klass, flags);
+            // empty until init() is called
+            ObjString *string = allocateString(NULL, 0, klass, flags);
+            string->chars = INTERN("")->chars;
+            STRING_SET_SHARED(string);
+            return (ObjInstance*)string;
         } else if (IS_SUBCLASS(klass, lxAryClass)) {
             return (ObjInstance*)allocateArray(klass, flags);
         } else if (IS_SUBCLASS(klass, lxMapClass)) {
@@ -547,6 +551,7 @@ ObjBoundMethod *newBoundMethod(ObjInstance *receiver, Obj *callable, int flags)
     );
     bmethod->receiver = OBJ_VAL(receiver);
     bmethod->callable = callable;
+    bmethod->foundIn = NULL;
     OBJ_WRITE(OBJ_VAL(bmethod), OBJ_VAL(receiver));
     OBJ_WRITE(OBJ_VAL(bmethod), OBJ_VAL(callable));
     return bmethod;
@@ -602,15 +607,18 @@ Obj *instanceFindGetter(ObjInstance *obj, ObjString *name) {
     }
     Value getter;
     Value nameVal = OBJ_VAL(name);
+    bool inExtended = false;
     while (klass) {
         Table *mtable = CLASS_GETTER_TBL(klass);
         if (tableGet(mtable, nameVal, &getter)) {
             return AS_OBJ(getter);
         }
-        if (klass == TO_OBJ(obj->singletonKlass)) {
+        bool inSingleton = klass == TO_OBJ(obj->singletonKlass) || inExtended;
+        klass = CLASS_SUPER(klass);
+        // the modules that extend the object come after its singleton class
+        inExtended = inSingleton && klass && klass->type == OBJ_T_ICLASS;
+        if (inSingleton && !inExtended) {
             klass = TO_OBJ(obj->klass);
-        } else {
-            klass = CLASS_SUPER(klass);
         }
     }
     return NULL;
@@ -644,6 +652,19 @@ Obj *instanceFindMethodOrRaise(ObjInstance *obj, ObjString *name) {
     return method;
 }
 
+// In the singleton class, or a module that extends the class
+static Obj *findInSingleton(ObjClass *meta, ObjString *name) {
+    Value method;
+    Obj *klass = TO_OBJ(meta);
+    while (klass && (klass == TO_OBJ(meta) || klass->type == OBJ_T_ICLASS)) {
+        if (tableGet(CLASS_METHOD_TBL(klass), OBJ_VAL(name), &method)) {
+            return AS_OBJ(method);
+        }
+        klass = CLASS_SUPER(klass);
+    }
+    return NULL;
+}
+
 Obj *classFindStaticMethod(ObjClass *obj, ObjString *name) {
     Value method;
     Obj *klass = (Obj*)obj;
@@ -655,11 +676,9 @@ Obj *classFindStaticMethod(ObjClass *obj, ObjString *name) {
         } else {
             lookupClass = ((ObjClass*)klass)->singletonKlass;
         }
-        if (lookupClass) {
-            Table *mtable = CLASS_METHOD_TBL((Obj*)lookupClass);
-            if (tableGet(mtable, OBJ_VAL(name), &method)) {
-                return AS_OBJ(method);
-            }
+        Obj *found = findInSingleton(lookupClass, name);
+        if (found) {
+            return found;
         }
         klass = CLASS_SUPER(klass);
     }
@@ -676,19 +695,17 @@ Obj *classFindStaticMethod(ObjClass *obj, ObjString *name) {
 }
 
 // static method of a class that is the next one after the one of `klass`
-Obj *classFindSuperStaticMethod(ObjClass *obj, ObjClass *klass, ObjString *name) {
-    Obj *cur = TO_OBJ(obj);
-    while (cur && cur != TO_OBJ(klass)) {
-        cur = CLASS_SUPER(cur);
-    }
-    if (!cur) return NULL;
+// `from`: class or included module, the method is looked up after it
+Obj *classFindSuperStaticMethod(ObjClass *obj, Obj *from, ObjString *name, Obj **foundIn) {
     Value method;
-    cur = CLASS_SUPER(cur);
+    Obj *cur = CLASS_SUPER(from);
     while (cur) {
         ObjClass *meta = cur->type == OBJ_T_ICLASS ?
             ((ObjIClass*)cur)->mod->singletonKlass : ((ObjClass*)cur)->singletonKlass;
-        if (meta && tableGet(CLASS_METHOD_TBL(TO_OBJ(meta)), OBJ_VAL(name), &method)) {
-            return AS_OBJ(method);
+        Obj *found = findInSingleton(meta, name);
+        if (found) {
+            *foundIn = cur;
+            return found;
         }
         cur = CLASS_SUPER(cur);
     }
diff --git a/object.h b/object.h
index 8fbf524..2425c6a 100644
--- a/object.h
+++ b/object.h
@@ -242,7 +242,8 @@ typedef struct ObjModule {
   ClassInfo *classInfo;
 } ObjModule;
 
-#define CLASS_SUPER(klass)      (((Obj*)klass)->type == OBJ_T_CLASS ? CLASSINFO((klass))->superclass : ((ObjIClass*) (klass))->superklass)
+// NULL for modules
+#define CLASS_SUPER(klass)      (((Obj*)klass)->type == OBJ_T_ICLASS ? ((ObjIClass*) (klass))->superklass : CLASSINFO((klass))->superclass)
 #define CLASS_METHOD_TBL(klass) (((klass)->type == OBJ_T_CLASS || (klass)->type == OBJ_T_MODULE) ? (CLASSINFO((klass))->methods) : (CLASSINFO(((ObjIClass*) (klass))->mod)->methods))
 #define CLASS_GETTER_TBL(klass) (((klass)->type == OBJ_T_CLASS || (klass)->type == OBJ_T_MODULE) ? (CLASSINFO((klass))->getters) : (CLASSINFO(((ObjIClass*) (klass))->mod)->getters))
 #define CLASS_SETTER_TBL(klass) (((klass)->type == OBJ_T_CLASS || (klass)->type == OBJ_T_MODULE) ? (CLASSINFO((klass))->setters) : (CLASSINFO(((ObjIClass*) (klass))->mod)->setters))
@@ -340,6 +341,7 @@ typedef struct ObjBoundMethod {
   Obj object;
   Value receiver;
   Obj *callable; // ObjClosure* or ObjNative*
+  Obj *foundIn; // super: the ancestor that the method was found in
 } ObjBoundMethod;
 
 // is big enough to represent any object
@@ -663,7 +665,7 @@ Obj *instanceFindMethod(ObjInstance *obj, ObjString *name);
 Obj *instanceFindMethodOrRaise(ObjInstance *obj, ObjString *name);
 Obj *instanceFindGetter(ObjInstance *obj, ObjString *name);
 Obj *instanceFindSetter(ObjInstance *obj, ObjString *name);
-Obj *classFindSuperStaticMethod(ObjClass *obj, ObjClass *klass, ObjString *name);
+Obj *classFindSuperStaticMethod(ObjClass *obj, Obj *from, ObjString *name, Obj **foundIn);
 Obj *classFindStaticMethod(ObjClass *obj, ObjString *name);
 bool instanceIsA(ObjInstance *inst, ObjClass *klass);
 bool isSubclass(ObjClass *subklass, ObjClass *superklass);
diff --git a/runtime.c b/runtime.c
index df31992..80cb499 100644
--- a/runtime.c
+++ b/runtime.c
@@ -111,11 +111,18 @@ void addConstantUnder(const char *name, Value constVal, Value owner) {
     }
 }
 
+// constants of a class, or of the module if it's an included one
+static Table *constantTbl(ObjClass *klass) {
+    if (TO_OBJ(klass)->type == OBJ_T_ICLASS) {
+        return CLASSINFO(((ObjIClass*)klass)->mod)->constants;
+    }
+    return CLASSINFO(klass)->constants;
+}
+
 // NOTE: `klass` can be NULL, in which case only `vm.constants` is checked.
 // Also, `name` can be a qualified constant, ex: `My::Error`.
 bool findConstantUnder(ObjClass *klass, ObjString *name, Value *valOut) {
     ObjClass *origKlass = klass;
-    Obj *baseConstant = NULL;
     ObjString *origName = name;
     int qualifiedParts = 1;
     if ((qualifiedParts = constantQualifiedParts(name)) > 1) {
@@ -124,9 +131,7 @@ bool findConstantUnder(ObjClass *klass, ObjString *name, Value *valOut) {
         name = qualifiedPart;
     }
     while (klass) {
-        if (tableGet(CLASSINFO(klass)->constants, OBJ_VAL(name), valOut)) {
-            baseConstant = AS_OBJ(*valOut);
-            if (qualifiedParts == 1) return true;
+        if (tableGet(constantTbl(klass), OBJ_VAL(name), valOut)) {
             goto foundBase;
         }
         klass = TO_CLASS(CLASS_SUPER(klass));
@@ -134,37 +139,30 @@ bool findConstantUnder(ObjClass *klass, ObjString *name, Value *valOut) {
     while (origKlass && (klass = TO_CLASS(CLASSINFO(origKlass)->under))) {
         origKlass = klass;
         while (klass) {
-            if (tableGet(CLASSINFO(klass)->constants, OBJ_VAL(name), valOut)) {
-                baseConstant = AS_OBJ(*valOut);
-                if (qualifiedParts == 1) return true;
+            if (tableGet(constantTbl(klass), OBJ_VAL(name), valOut)) {
                 goto foundBase;
             }
-            klass = TO_CLASS(CLASSINFO(klass)->superclass);
+            klass = TO_CLASS(CLASS_SUPER(klass));
         }
     }
-    if (tableGet(&vm.constants, OBJ_VAL(name), valOut)) {
-        baseConstant = AS_OBJ(*valOut);
-        if (qualifiedParts == 1) return true;
-        goto foundBase;
+    if (!tableGet(&vm.constants, OBJ_VAL(name), valOut)) {
+        return false;
     }
 
-foundBase:
-    if (!baseConstant) { return false; }
-    ASSERT(qualifiedParts > 1);
+foundBase:;
     int partsProcessed = 1;
     while (partsProcessed < qualifiedParts) {
+        if (!IS_CLASS(*valOut) && !IS_MODULE(*valOut)) {
+            return false;
+        }
         ObjString *partName = constantQualifiedPart(origName, partsProcessed+1);
-        /*fprintf(stderr, "Qualified part (partName): \"%s\"\n", partName->chars);*/
         ASSERT(partName);
-        if (tableGet(CLASSINFO(TO_CLASS(baseConstant))->constants, OBJ_VAL(partName), valOut)) {
-            baseConstant = AS_OBJ(*valOut);
-            partsProcessed++;
-        } else {
+        if (!tableGet(CLASSINFO(AS_CLASS(*valOut))->constants, OBJ_VAL(partName), valOut)) {
             return false;
         }
+        partsProcessed++;
     }
-    ASSERT(baseConstant);
-    return partsProcessed == qualifiedParts;
+    return true;
 }
 
 int constantQualifiedParts(ObjString *name) {
@@ -963,7 +961,7 @@ Value lxClassGetSuperclass(int argCount, Value *args) {
         if (superClass->type == OBJ_T_CLASS) { // found
             break;
         } else { // iclass (module)
-            klass = CLASS_SUPER(superClass);
+            klass = superClass;
         }
     }
     if (superClass) {
diff --git a/string.c b/string.c
index 640a380..1985768 100644
--- a/string.c
+++ b/string.c
@@ -35,6 +35,7 @@ static Value lxStringInit(int argCount, Value *args) {
         selfStr->chars = otherStr->chars;
         STRING_SET_SHARED(selfStr);
     } else {
+        STRING_UNSET_SHARED(selfStr);
         if (otherStr->chars) {
             selfStr->chars = ALLOCATE(char, otherStr->capacity+1);
             memcpy(selfStr->chars, otherStr->chars, selfStr->length+1);
@@ -140,6 +141,7 @@ static Value lxStringDup(int argCount, Value *args) {
     ObjString *dupStr = AS_STRING(dup);
     STRING_UNSET_STATIC(dupStr);
     STRING_UNSET_INTERNED(dupStr);
+    STRING_UNSET_SHARED(dupStr);
     OBJ_UNSET_FROZEN(dupStr);
     dupStr->capacity = selfStr->capacity;
     dupStr->hash = selfStr->hash;
@@ -371,6 +373,7 @@ static Value lxStringStaticParseInt(int argCount, Value *args) {
 void Init_StringClass() {
     ObjClass *stringClass = addGlobalClass("String", lxObjClass);
     lxStringClass = stringClass;
+    INTERN(""); // what new strings contain, see newInstance()
     ObjClass *stringClassStatic = classSingletonClass(stringClass);
     nativeStringInit = addNativeMethod(stringClass, "init", lxStringInit);
 
diff --git a/vm.c b/vm.c
index e1eeeca..d878c01 100644
--- a/vm.c
+++ b/vm.c
@@ -1064,7 +1064,8 @@ static inline bool isThrowable(Value val) {
     return IS_AN_ERROR(val);
 }
 
-static bool lookupMethodFrom(Obj *classLookup, ObjString *propName, MethodType mtype, Value *ret) {
+// Returns the class or module the method was found in, or NULL
+static Obj *lookupMethodFrom(Obj *classLookup, ObjString *propName, MethodType mtype, Value *ret) {
     Value key = OBJ_VAL(propName);
     while (classLookup) {
         Table *mtable;
@@ -1077,11 +1078,29 @@ static bool lookupMethodFrom(Obj *classLookup, ObjString *propName, MethodType m
             mtable = CLASS_SETTER_TBL(classLookup);
         }
         if (tableGet(mtable, key, ret)) {
-            return true;
+            return classLookup;
         }
         classLookup = CLASS_SUPER(classLookup);
     }
-    return false;
+    return NULL;
+}
+
+// The class or included module of the method that `super` is used in, going up from the
+// class given. A module can be in there more than once.
+static Obj *superLookupStart(ObjFunction *method, ObjClass *klass, Value from) {
+    CallFrame *frame = getFrame();
+    while (frame && !(frame->closure && frame->closure->function == method)) {
+        frame = frame->prev;
+    }
+    if (frame && frame->foundIn) {
+        return frame->foundIn;
+    }
+    Obj *cur = AS_OBJ(from);
+    while (cur && cur != TO_OBJ(klass) && !(cur->type == OBJ_T_ICLASS &&
+                TO_OBJ(((ObjIClass*)cur)->mod) == TO_OBJ(klass))) {
+        cur = CLASS_SUPER(cur);
+    }
+    return cur;
 }
 
 bool lookupMethod(ObjInstance *obj, Obj *klass, ObjString *propName, MethodType mtype, Value *ret, bool lookInGivenClass) {
@@ -1091,7 +1110,7 @@ bool lookupMethod(ObjInstance *obj, Obj *klass, ObjString *propName, MethodType
     } else if (klass == TO_OBJ(obj->klass) && obj->singletonKlass) {
         start = TO_OBJ(obj->singletonKlass);
     }
-    return lookupMethodFrom(start, propName, mtype, ret);
+    return lookupMethodFrom(start, propName, mtype, ret) != NULL;
 }
 
 static InterpretResult vm_run0(void);
@@ -1298,7 +1317,7 @@ Value callMethod(Obj *obj, ObjString *methodName, int argCount, Value *args, Cal
         }
         if (UNLIKELY(!callable)) {
             ObjString *className = CLASSINFO(instance->klass)->name;
-            const char *classStr = className->chars ? className->chars : "(anon)";
+            const char *classStr = className ? className->chars : "(anon)";
             // TODO: show full class name
             throwErrorFmt(lxErrClass, "instance method '%s#%s' not found", classStr, methodName->chars);
         }
@@ -1637,7 +1656,8 @@ void growLocalsTable(ObjScope *scope, int size) {
 // is pushed to the stack.
 static CallInfo noCallInfo;
 
-static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo *callInfo) {
+// foundIn: for calls of super, see ObjBoundMethod
+static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo *callInfo, Obj *foundIn) {
     LxThread *th = vm.curThread;
     ObjInstance *blockInstance = NULL; // from &blk
     ObjClosure *blockClosure; // from a literal
@@ -1752,7 +1772,7 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
         Obj *callable = bmethod->callable; // native function or user-defined function (ObjClosure)
         instanceVal = bmethod->receiver;
         EC->stackTop[-argCount - 1] = instanceVal;
-        return doCallCallable(OBJ_VAL(callable), argCount, true, callInfo);
+        return doCallCallable(OBJ_VAL(callable), argCount, true, callInfo, bmethod->foundIn);
     } else if (IS_NATIVE_FUNCTION(callable)) {
 #ifndef NDEBUG
         if (GET_OPTION(debugVMLvl) >= 2) {
@@ -1989,6 +2009,7 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
     if (instance && !frameClass) {
         frameClass = instance->klass;
     }
+    frame->foundIn = foundIn;
     frame->klass = frameClass;
     if (frame->klass) {
         pushCref(frame->klass);
@@ -2024,7 +2045,7 @@ bool callCallable(Value callable, int argCount, bool isMethod, CallInfo *info) {
     DBG_ASSERT(vm.inited);
     LxThread *th = vm.curThread;
     int lenBefore = th->stackObjects.length;
-    bool ret = doCallCallable(callable, argCount, isMethod, info);
+    bool ret = doCallCallable(callable, argCount, isMethod, info, NULL);
 
     // allow collection of new stack-created objects if they're not rooted now
     th->stackObjects.length = lenBefore;
@@ -2163,6 +2184,10 @@ static bool findThrowJumpLoc(ObjClass *klass, ErrTagInfo *tag, bytecode_t **ipOu
             row = row->next;
             continue;
         }
+        if (!IS_CLASS(klassFound)) { // any other value
+            row = row->next;
+            continue;
+        }
         VM_DEBUG(2, "a class found for row: %s", classNameFull(AS_CLASS(klassFound))->chars);
         if (IS_SUBCLASS(klass, AS_CLASS(klassFound))) {
             VM_DEBUG(2, "good class found for row");
@@ -3303,25 +3328,25 @@ find_instance_method:
           }
           Value instanceVal = OBJ_VAL(th->thisObj);
           Obj *superMethod = NULL;
+          Obj *foundIn = NULL;
           if (func->isSingletonMethod) {
-              if (IS_CLASS(instanceVal) && TO_OBJ(klass)->type == OBJ_T_CLASS) {
-                  superMethod = classFindSuperStaticMethod(AS_CLASS(instanceVal), klass,
-                          AS_STRING(methodName));
+              if (IS_CLASS(instanceVal)) {
+                  Obj *iclass = superLookupStart(func, klass, instanceVal);
+                  if (iclass) {
+                      superMethod = classFindSuperStaticMethod(AS_CLASS(instanceVal), iclass,
+                              AS_STRING(methodName), &foundIn);
+                  }
               }
           } else {
               ObjInstance *inst = AS_INSTANCE(instanceVal);
-              Obj *iclass = TO_OBJ(inst->singletonKlass ? inst->singletonKlass : inst->klass);
-              // the class itself, or the included module
-              while (iclass && iclass != TO_OBJ(klass) && !(iclass->type == OBJ_T_ICLASS &&
-                          TO_OBJ(((ObjIClass*)iclass)->mod) == TO_OBJ(klass))) {
-                  iclass = CLASS_SUPER(iclass);
-              }
+              Obj *iclass = superLookupStart(func, klass,
+                  OBJ_VAL(inst->singletonKlass ? inst->singletonKlass : inst->klass));
               enum MethodType mtype = METHOD_TYPE_METHOD;
               if (func->ftype == FUN_TYPE_GETTER) {
                   mtype = METHOD_TYPE_GETTER;
               }
               Value method;
-              if (iclass && lookupMethodFrom(CLASS_SUPER(iclass), AS_STRING(methodName), mtype, &method)) {
+              if (iclass && (foundIn = lookupMethodFrom(CLASS_SUPER(iclass), AS_STRING(methodName), mtype, &method))) {
                   superMethod = AS_OBJ(method);
               }
           }
@@ -3330,6 +3355,7 @@ find_instance_method:
                       AS_CSTRING(methodName));
           }
           ObjBoundMethod *bmethod = newBoundMethod(AS_INSTANCE(instanceVal), superMethod, NEWOBJ_FLAG_NONE);
+          bmethod->foundIn = foundIn;
           VM_PUSH(OBJ_VAL(bmethod));
           DISPATCH_BOTTOM();
       }
diff --git a/vm.h b/vm.h
index 0b0265f..4edad7d 100644
--- a/vm.h
+++ b/vm.h
@@ -42,6 +42,7 @@ typedef struct CallFrame {
     ObjScope *scope;
     ObjInstance *instance; // if function is a method
     ObjClass *klass; // if function is a method
+    Obj *foundIn; // called by super, see ObjBoundMethod
     int numThis; // length of v_thisStack before the frame
     int numCrefs; // length of v_crefStack before the frame
 
-- 
2.43.0


From 3b5071aed0af9a216f2b71753147fdb62c529cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:59 +0000
Subject: [PATCH 42/64] fix: threads: uncaught errors end only the thread,
 mutexes are released when their thread ends and handed over without lost
 wakeups, unlock by another thread is an error, Thread#throw after a caught
 error and on itself, joining twice, caught errors and __FUNC__ not shared
 between threads, removing ended threads

---
 memory.c |  4 +++-
 thread.c | 43 ++++++++++++++++++++++++++++++++++---------
 vm.c     | 15 ++++++++-------
 vm.h     |  1 +
 4 files changed, 46 insertions(+), 17 deletions(-)

diff --git a/memory.c b/memory.c
index 2951016..2dcafa3 100644
--- a/memory.c
+++ b/memory.c
@@ -353,6 +353,7 @@ void collectYoungGarbage() {
             grayObject(th->thisObj);
         }
         grayValue(th->lastErrorThrown);
+        grayValue(th->errorToThrow);
         VMExecContext *ctx = NULL; int k = 0;
         vec_foreach(&th->v_ecs, ctx, k) {
             grayTable(&ctx->roGlobals);
@@ -1259,6 +1260,7 @@ void collectGarbage(void) {
             grayObject(TO_OBJ(th->tlsMap));
         }
         grayValue(th->lastErrorThrown);
+        grayValue(th->errorToThrow);
         VMExecContext *ctx = NULL; int k = 0;
         vec_foreach(&th->v_ecs, ctx, k) {
             grayTable(&ctx->roGlobals);
@@ -1277,7 +1279,7 @@ void collectGarbage(void) {
 
     int zombieIdx; int zidx = 0;
     vec_foreach(&v_zombies, zombieIdx, zidx) {
-        vec_splice(&vm.threads, zombieIdx, 1);
+        vec_splice(&vm.threads, zombieIdx-zidx, 1);
     }
     vec_deinit(&v_zombies);
 
diff --git a/thread.c b/thread.c
index 3cefc75..16cd7f7 100644
--- a/thread.c
+++ b/thread.c
@@ -209,6 +209,13 @@ static ObjInstance *newThreadSetup(LxThread *parentThread) {
         newCtx->stackTop--; // for the two current stack objects that newThread() creates
         newCtx->stackTop--;
         newCtx->frameCount = 1;
+        newCtx->frames[0].slots = newCtx->stack + (ctx->frames[0].slots-ctx->stack);
+        // stands for newThread(), errors don't reach the script that called it
+        newCtx->frames[0].isCCall = true;
+        newCtx->frames[0].nativeFunc = getFrame()->nativeFunc;
+        newCtx->frames[0].jmpBufSet = false;
+        initTable(&newCtx->roGlobals);
+        tableAddAll(&ctx->roGlobals, &newCtx->roGlobals);
         newCtx->lastValue = NULL;
         vec_push(&th->v_ecs, newCtx);
     }
@@ -239,6 +246,11 @@ void exitingThread(LxThread *th) {
     LxThreadCleanup(th);
 }
 
+static void *callThreadFunc(void *arg) {
+    callCallable(OBJ_VAL(arg), 0, false, NULL);
+    return NULL;
+}
+
 static void *runCallableInNewThread(void *arg) {
     NewThreadArgs *tArgs = (NewThreadArgs*)arg;
     pthread_t tid = pthread_self();
@@ -271,7 +283,12 @@ static void *runCallableInNewThread(void *arg) {
     }
     THREAD_DEBUG(2, "calling callable %lu", pthread_self());
     th->status = THREAD_RUNNING;
-    callCallable(OBJ_VAL(closure), 0, false, NULL);
+    ErrTag status = TAG_NONE;
+    vm_protect(callThreadFunc, closure, NULL, &status);
+    if (status == TAG_RAISE) { // ends only this thread
+        showUncaughtError(vm.curThread->lastErrorThrown);
+        stopVM(1);
+    }
     THREAD_DEBUG(2, "Exiting thread (returned) %lu", pthread_self());
     stopVM(0); // actually just exits the thread if it's not the main thread
 }
@@ -320,6 +337,9 @@ Value lxJoinThread(int argCount, Value *args) {
     ASSERT(th->tid != 0);
     THREAD_DEBUG(2, "Joining thread id %lu\n", th->tid);
     int ret = 0;
+    if (th->joined) { // it already ended
+        return NIL_VAL;
+    }
 
     pthread_t tid = th->tid;
     releaseGVL(THREAD_STOPPED);
@@ -333,10 +353,7 @@ Value lxJoinThread(int argCount, Value *args) {
     THREAD_DEBUG(2, "Joined thread id %lu, acquiring GVL\n", tid);
     acquireGVL();
     THREAD_DEBUG(2, "Joined thread id %lu\n", tid);
-    th = FIND_THREAD(tid);
-    if (th) {
-        th->joined = true;
-    }
+    th->joined = true;
     return NIL_VAL;
 }
 
@@ -423,8 +440,11 @@ static Value lxThreadThrow(int argCount, Value *args) {
     CHECK_ARG_IS_A(err, lxErrClass, 1);
     LxThread *th = THREAD_GETHIDDEN(self);
     Value ret = NIL_VAL;
+    if (th == vm.curThread) {
+        throwError(err);
+    }
     if (th->status == THREAD_SLEEPING || th->status == THREAD_STOPPED || th->status == THREAD_RUNNING) {
-        if (IS_NIL(th->lastErrorThrown)) {
+        if (IS_NIL(th->errorToThrow)) {
             th->errorToThrow = err;
         }
         threadSchedule(th);
@@ -500,7 +520,10 @@ static void setupMutex(LxMutex *mutex) {
 static void lockFunc(LxMutex *mutex, LxThread *th) {
     pthread_mutex_lock(&mutex->lock); // can block
     mutex->waiting++;
-    pthread_cond_wait(&mutex->cond, &mutex->lock);
+    // it can be unlocked before this waits, or locked again by another thread before this wakes up
+    while (mutex->owner != NULL) {
+        pthread_cond_wait(&mutex->cond, &mutex->lock);
+    }
     mutex->waiting--;
     th->mutexCounter++;
     THREAD_DEBUG(1, "Thread %lu LOCKED mutex", th->tid);
@@ -514,7 +537,6 @@ static void lockMutex(LxMutex *mutex) {
     LxThread *th = vm.curThread;
     if (mutex->owner == NULL) {
         THREAD_DEBUG(1, "Thread %lu LOCKED mutex (no contention)", th->tid);
-        ASSERT(mutex->waiting == 0);
         mutex->owner = th;
         th->mutexCounter++;
         vec_push(&th->lockedMutexes, mutex);
@@ -558,7 +580,10 @@ void threadForceUnlockMutex(LxThread *th, LxMutex *mutex) {
 static void unlockMutex(LxMutex *mutex) {
     pthread_mutex_lock(&mutex->lock);
     LxThread *th = vm.curThread;
-    ASSERT(mutex->owner == th); // TODO: throw error
+    if (mutex->owner != th) {
+        pthread_mutex_unlock(&mutex->lock);
+        throwErrorFmt(lxErrClass, "Tried to unlock a mutex that isn't locked by the current thread");
+    }
     mutex->owner = NULL;
     vec_remove(&th->lockedMutexes, mutex);
     THREAD_DEBUG(1, "Thread %lu unlocking mutex...", th->tid);
diff --git a/vm.c b/vm.c
index d878c01..4df39ce 100644
--- a/vm.c
+++ b/vm.c
@@ -971,7 +971,7 @@ void errorPrintScriptBacktrace(const char *format, ...) {
     resetStack();
 }
 
-static void showUncaughtError(Value err) {
+void showUncaughtError(Value err) {
     ObjString *classNameObj = classNameFull(AS_INSTANCE(err)->klass);
     char *className = NULL;
     if (classNameObj) {
@@ -3622,11 +3622,13 @@ find_instance_method:
           ASSERT(IS_NUMBER(catchTblIdx));
           double idx = AS_NUMBER(catchTblIdx);
           CatchTable *tblRow = getCatchTableRow((int)idx);
-          if (UNLIKELY(!isThrowable(tblRow->lastThrownValue))) { // bug
-              fprintf(stderr, "Non-throwable found (BUG): %s\n", typeOfVal(tblRow->lastThrownValue));
+          (void)tblRow;
+          // NOTE: the catch table is shared by all threads
+          if (UNLIKELY(!isThrowable(th->lastErrorThrown))) { // bug
+              fprintf(stderr, "Non-throwable found (BUG): %s\n", typeOfVal(th->lastErrorThrown));
               ASSERT(0);
           }
-          VM_PUSH(tblRow->lastThrownValue);
+          VM_PUSH(th->lastErrorThrown);
           DISPATCH_BOTTOM();
       }
       CASE_OP(RETHROW_IF_ERR): {
@@ -4166,6 +4168,7 @@ NORETURN void stopVM(int status) {
     if (th == vm.mainThread) {
         vm.exiting = true;
         th->exitStatus = status;
+        forceUnlockMutexes(th); // other threads can't exit while it holds one
         THREAD_DEBUG(1, "Main thread exiting with %d (PID=%d)", status, getpid());
         THREAD_DEBUG(1, "Terminating unjoined threads");
         terminateThreads();
@@ -4182,6 +4185,7 @@ NORETURN void stopVM(int status) {
         // NOTE: pthread_exit in last thread always exits with 0, so have to call _exit manually
         _exit(th->exitStatus);
     } else {
+        forceUnlockMutexes(th);
         exitingThread(th);
         th->exitStatus = status;
         if (th->detached && vm.numDetachedThreads > 0) {
@@ -4192,9 +4196,6 @@ NORETURN void stopVM(int status) {
         }
         th->status = THREAD_ZOMBIE;
         vm.numLivingThreads--;
-        if (th->mutexCounter > 0) {
-            forceUnlockMutexes(th);
-        }
         th->mutexCounter = 0;
         releaseGVL(THREAD_ZOMBIE);
         pthread_exit(&status);
diff --git a/vm.h b/vm.h
index 4edad7d..0dc616a 100644
--- a/vm.h
+++ b/vm.h
@@ -349,6 +349,7 @@ Value yieldBlockCatch(int argCount, Value *args, Value *err);
 // callable if it's not a method, or the instance if it is. Argcount does not
 // include the instance, if it's a method. `cinfo` can be NULL.
 bool callCallable(Value callable, int argCount, bool isMethod, struct CallInfo *cinfo);
+void showUncaughtError(Value err);
 // higher-level call function, but callable must be provided. Return value is
 // pushed to stack. argCount does not include instance.
 Value callVMMethod(
-- 
2.43.0


From a6e5b47a142a065b313812830767ef2961584f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:12 +0000
Subject: [PATCH 43/64] hook: CLOX_VERIF lets a harness decide when threads
 switch

---
 vm.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vm.h b/vm.h
index 0dc616a..1673f47 100644
--- a/vm.h
+++ b/vm.h
@@ -111,7 +111,12 @@ typedef enum ThreadStatus {
     THREAD_ZOMBIE,
 } ThreadStatus;
 
+#ifdef CLOX_VERIF // thread switches are up to the verification harness
+int verifOpsUntilSwitch(void);
+#define THREAD_OPS_UNTIL_SWITCH verifOpsUntilSwitch()
+#else
 #define THREAD_OPS_UNTIL_SWITCH 10000
+#endif
 
 typedef struct BlockStackEntry {
     Obj *callable; // ObjClosure or ObjNative
-- 
2.43.0


From 9e95b0aef3046b71eca4d2ad94427158d84ef5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:50 +0000
Subject: [PATCH 44/64] fix: finalizers and exit handlers that throw or exit
 crashed the VM

Finalizers ran in the middle of the sweep, and objects allocated or saved
by them were swept or lost. They're now called at the end of the run, with
the object kept for that run. Errors in finalizers and exit handlers are
shown, exit() in an exit handler doesn't rerun the handlers.
---
 memory.c | 113 ++++++++++++++++++++++++++++---------------------------
 vm.c     |  62 ++++++++++++++++++++++++++----
 vm.h     |   1 +
 3 files changed, 113 insertions(+), 63 deletions(-)

diff --git a/memory.c b/memory.c
index 2dcafa3..c565e91 100644
--- a/memory.c
+++ b/memory.c
@@ -1191,13 +1191,15 @@ static void callFinalizer(Obj *obj) {
     ObjInstance *instance = (ObjInstance*)obj;
     Value instanceVal = OBJ_VAL(obj);
     GC_TRACE_DEBUG(3, "Calling finalizer");
+    bool prevInGC = inGC, prevDontGC = dontGC;
     inGC = false; // so we can allocate objects in the function
     dontGC = true;
-    callFunctionValue(OBJ_VAL(instance->finalizerFunc), 1, &instanceVal);
-    inGC = true;
-    dontGC = false;
+    Obj *func = instance->finalizerFunc;
     instance->finalizerFunc = NULL;
     activeFinalizers--;
+    callFunctionShowError(OBJ_VAL(func), 1, &instanceVal);
+    inGC = prevInGC;
+    dontGC = prevDontGC;
 }
 
 // Full collection single-phase mark and sweep
@@ -1210,7 +1212,7 @@ void collectGarbage(void) {
         fprintf(stderr, "Non-zero graycount? %d\n", vm.grayCount);
         ASSERT(vm.grayCount == 0);
     }
-    if (!GCOn || OPTION_T(disableGC)) {
+    if (!GCOn || dontGC || OPTION_T(disableGC)) {
         GC_TRACE_DEBUG(1, "GC run skipped (GC OFF)");
         return;
     }
@@ -1418,6 +1420,30 @@ void collectGarbage(void) {
     }
     GC_TRACE_DEBUG(3, "Done blackening references");
 
+    // Unreachable objects with finalizers (and what they refer to) are kept in
+    // this run, the finalizers are called at its end
+    vec_void_t v_finalize;
+    vec_init(&v_finalize);
+    if (UNLIKELY(activeFinalizers > 0)) {
+        for (int i = 0; i < heapsUsed; i++) {
+            for (ObjAny *slot = heapList[i]; slot < heapList[i] + HEAP_SLOTS; slot++) {
+                Obj *obj = (Obj*)slot;
+                if (obj->type == OBJ_T_NONE || OBJ_IS_DARK(obj) || OBJ_IS_HIDDEN(obj) || !hasFinalizer(obj)) {
+                    continue;
+                }
+                vec_push(&v_finalize, obj);
+            }
+        }
+        Obj *finObj = NULL; int finIdx = 0;
+        vec_foreach(&v_finalize, finObj, finIdx) {
+            hideFromGC(finObj);
+            grayObject(finObj);
+        }
+        while (vm.grayCount > 0) {
+            blackenObject(vm.grayStack[--vm.grayCount]);
+        }
+    }
+
     GC_TRACE_DEBUG(2, "Begin FREE process");
     // Collect the white (unmarked) objects.
     int iter = 0; (void)iter;
@@ -1427,18 +1453,12 @@ void collectGarbage(void) {
 
     ObjAny *p, *pend;
 
-    int phase = 1; // call finalizers in phase 1
     vec_void_t vFreeHeaps;
     vec_init(&vFreeHeaps);
-    freeList = NULL; // build up a new free list in phase 2
-    if (activeFinalizers == 0) {
-        phase = 2;
-    }
+    freeList = NULL; // build up a new free list
     bool hasOtherFreeishHeap = false;
-freeLoop:
     for (int i = 0; i < heapsUsed; i++) {
-        ObjAny *newFreeList = NULL;
-        if (phase == 2) newFreeList = freeList;
+        ObjAny *newFreeList = freeList;
         p = heapList[i];
         if (UNLIKELY(!p)) {
             fprintf(stderr, "NULL heap page? %p, i=%d, heapsUsed: %d, heapListSize: %d\n", p, i, heapsUsed, heapListSize);
@@ -1450,7 +1470,7 @@ freeLoop:
         while (p < pend) {
             Obj *obj = (Obj*)p;
             if (obj->type == OBJ_T_NONE) {
-                if (phase == 2) objectsFree++;
+                objectsFree++;
                 p++;
                 continue;
             }
@@ -1458,57 +1478,31 @@ freeLoop:
             int rootedCStack = -1;
             vec_find(&v_stackObjs, obj, rootedCStack);
             if (!OBJ_IS_DARK(obj) && !OBJ_IS_HIDDEN(obj)) {
-                if (phase == 2) { // phase 2, reclaim unmarked objects
-                    if (rootedCStack == -1) {
-                        numObjectsFreed++;
-                        obj->nextFree = newFreeList;
-                        freeObject(obj);
-                        newFreeList = p;
-                        numObjectsFreed++;
-                    } else {
-                        GC_TRACE_DEBUG(4, "Skipped freeing stack object: p=%p", obj);
-                    }
-                } else { // phase 1, call finalizers
-                    ASSERT(phase == 1);
-                    if (rootedCStack == -1) {
-                        if (UNLIKELY(hasFinalizer(obj))) {
-                            ASSERT(((ObjInstance*) obj)->finalizerFunc->type != OBJ_T_NONE);
-                            callFinalizer(obj);
-                            if (activeFinalizers == 0) {
-                                phase = 2; i = 0;
-                                goto freeLoop;
-                            }
-                        }
-                    }
+                if (rootedCStack == -1) {
+                    numObjectsFreed++;
+                    obj->nextFree = newFreeList;
+                    freeObject(obj);
+                    newFreeList = p;
+                    numObjectsFreed++;
+                } else {
+                    GC_TRACE_DEBUG(4, "Skipped freeing stack object: p=%p", obj);
                 }
             } else if (OBJ_IS_HIDDEN(obj) && !OBJ_IS_DARK(obj)) { // keep
-                if (phase == 2) {
-                    numObjectsHiddenNotMarked++;
-                }
+                numObjectsHiddenNotMarked++;
             } else { // unmark for next run
-                if (phase == 2) {
-                    GCPromoteOnce(obj);
-                    OBJ_UNSET_DARK(obj);
-                    numObjectsKept++;
-                }
+                GCPromoteOnce(obj);
+                OBJ_UNSET_DARK(obj);
+                numObjectsKept++;
             }
             p++;
         }
 
-        if (phase == 2) {
-            freeList = newFreeList;
-            if (objectsFree == HEAP_SLOTS) {
-                vec_push(&vFreeHeaps, heapList[i]);
-            } else if (objectsFree >= (HEAP_SLOTS/2)) {
-                hasOtherFreeishHeap = true;
-            }
+        freeList = newFreeList;
+        if (objectsFree == HEAP_SLOTS) {
+            vec_push(&vFreeHeaps, heapList[i]);
+        } else if (objectsFree >= (HEAP_SLOTS/2)) {
+            hasOtherFreeishHeap = true;
         }
-
-    }
-    if (phase == 1) {
-        phase = 2; i = 0;
-        freeList = NULL;
-        goto freeLoop;
     }
 
     bool freedHeap = false;
@@ -1543,6 +1537,13 @@ freeLoop:
     inGC = false;
     inFullGC = false;
     vm.grayCount = 0;
+
+    Obj *finObj = NULL; int finIdx = 0;
+    vec_foreach(&v_finalize, finObj, finIdx) {
+        callFinalizer(finObj);
+        unhideFromGC(finObj);
+    }
+    vec_deinit(&v_finalize);
 }
 
 // Force free all objects, regardless of noGC field on the object.
diff --git a/vm.c b/vm.c
index 4df39ce..eb722aa 100644
--- a/vm.c
+++ b/vm.c
@@ -971,7 +971,7 @@ void errorPrintScriptBacktrace(const char *format, ...) {
     resetStack();
 }
 
-void showUncaughtError(Value err) {
+static void printUncaughtError(Value err) {
     ObjString *classNameObj = classNameFull(AS_INSTANCE(err)->klass);
     char *className = NULL;
     if (classNameObj) {
@@ -1002,7 +1002,10 @@ void showUncaughtError(Value err) {
         Value line = ARRAY_GET(bt, i);
         if (IS_STRING(line)) fprintf(stderr, "%s", AS_CSTRING(line));
     }
+}
 
+void showUncaughtError(Value err) {
+    printUncaughtError(err);
     THREAD()->hadError = true;
     resetStack();
 }
@@ -4124,14 +4127,58 @@ void *vm_protect(vm_cb_func func, void *arg, ObjClass *errClass, ErrTag *status)
     return NULL;
 }
 
+static void *callPushedFunction(void *argCount) {
+    int argc = *(int*)argCount;
+    callCallable(peek(argc), argc, false, NULL);
+    return NULL;
+}
+
+// Calls a function on behalf of the VM (exit handler, finalizer). Uncaught
+// errors in it are shown, and don't propagate to what the program was doing.
+// Returns whether it ran to its end.
+bool callFunctionShowError(Value callable, int argCount, Value *args) {
+    LxThread *th = THREAD();
+    Value *stackTop = EC->stackTop;
+    int vmRunLvl = th->vmRunLvl;
+    Value lastErrorThrown = th->lastErrorThrown;
+    push(lastErrorThrown); // keep it alive
+    bool noFrame = getFrameOrNull() == NULL;
+    if (noFrame) { // after an uncaught error
+        ObjFunction *func = newFunction(NULL, NULL, FUN_TYPE_TOP_LEVEL, NEWOBJ_FLAG_OLD);
+        hideFromGC(TO_OBJ(func));
+        CallFrame *frame = pushFrame(func);
+        frame->ip = func->chunk->code;
+        frame->slots = EC->stackTop;
+        frame->closure = newClosure(func, NEWOBJ_FLAG_OLD);
+        unhideFromGC(TO_OBJ(func));
+    }
+    push(callable);
+    for (int i = 0; i < argCount; i++) {
+        push(args[i]);
+    }
+    ErrTag status = TAG_NONE;
+    vm_protect(callPushedFunction, &argCount, NULL, &status);
+    if (status == TAG_RAISE) {
+        ErrTagInfo *info = th->errInfo;
+        printUncaughtError(info->caughtError);
+        popErrInfo();
+        FREE(ErrTagInfo, info);
+    }
+    if (noFrame) popFrame();
+    EC->stackTop = stackTop;
+    th->vmRunLvl = vmRunLvl;
+    th->lastErrorThrown = lastErrorThrown;
+    return status == TAG_NONE;
+}
+
 void runAtExitHooks(void) {
+    LxThread *th = vm.curThread;
     vm.exited = false;
-    ObjClosure *func = NULL;
-    int i = 0;
-    vec_foreach_rev(&vm.exitHandlers, func, i) {
-        push(OBJ_VAL(func));
-        callCallable(OBJ_VAL(func), 0, false, NULL);
-        pop();
+    while (vm.exitHandlers.length > 0) {
+        ObjClosure *func = vec_pop(&vm.exitHandlers); // it can exit() itself
+        if (!callFunctionShowError(OBJ_VAL(func), 0, NULL) && th->exitStatus == 0) {
+            th->exitStatus = 1;
+        }
     }
 }
 
@@ -4174,6 +4221,7 @@ NORETURN void stopVM(int status) {
         terminateThreads();
         THREAD_DEBUG(1, "Running atexit hooks");
         runAtExitHooks();
+        terminateThreads(); // hooks can start threads
         th->status = THREAD_ZOMBIE;
         freeVM();
         if (GET_OPTION(profileGC)) {
diff --git a/vm.h b/vm.h
index 1673f47..6664128 100644
--- a/vm.h
+++ b/vm.h
@@ -368,6 +368,7 @@ Value callMethod(Obj *instance, ObjString *methodName, int argCount, Value *args
 // Nothing should be pushed to stack. On return, value is popped from stack.
 // Callable should not be a method.
 Value callFunctionValue(Value callable, int argCount, Value *args);
+bool callFunctionShowError(Value callable, int argCount, Value *args);
 // Must be called from native C callframe only. Value is returned, popped from
 // stack. `args` does not include `self`, and `cinfo` can be NULL.
 Value callSuper(int argCount, Value *args, struct CallInfo *cinfo);
-- 
2.43.0


From 03121c41d764f03a2f4ffde67a41075a814cfc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:50 +0000
Subject: [PATCH 45/64] fix: Module#init and Class#init on a named module or
 class aborted or renamed it

---
 runtime.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/runtime.c b/runtime.c
index 80cb499..e2105aa 100644
--- a/runtime.c
+++ b/runtime.c
@@ -866,7 +866,9 @@ Value lxModuleInit(int argCount, Value *args) {
     CHECK_ARG_IS_A(name, lxStringClass, 1);
     ObjString *nameStr = AS_STRING(name);
     ObjModule *mod = AS_MODULE(self);
-    ASSERT(CLASSINFO(mod)->name == NULL);
+    if (CLASSINFO(mod)->name != NULL) {
+        throwErrorFmt(lxErrClass, "Module already has a name: %s", CLASSINFO(mod)->name->chars);
+    }
     ObjString *nameCpy = dupString(nameStr);
     CLASSINFO(mod)->name = nameCpy;
     return self;
@@ -909,6 +911,12 @@ Value lxClassInit(int argCount, Value *args) {
         CHECK_ARG_IS_INSTANCE_OF(args[2], lxClassClass, 2);
         superClass = AS_CLASS(args[2]);
     }
+    if (CLASSINFO(klass)->name) {
+        throwErrorFmt(lxErrClass, "Class already has a name: %s", CLASSINFO(klass)->name->chars);
+    }
+    if (superClass && IS_SUBCLASS(superClass, klass)) {
+        throwArgErrorFmt("%s", "A class can't be its own superclass");
+    }
     CLASSINFO(klass)->name = name;
     CLASSINFO(klass)->superclass = (Obj*)superClass;
     if (superClass) {
-- 
2.43.0


From 1c5ccd9d150f14fc06c63cda44a9432dfb8d94d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:55 +0000
Subject: [PATCH 46/64] fix: using a builtin object that isn't initialized
 crashed (init() without super, dup)

---
 binding.c |  5 ++---
 block.c   |  5 ++++-
 dir.c     |  2 +-
 io.c      |  5 +----
 object.h  |  9 +++++----
 regex.c   | 17 +++++++++++------
 runtime.c | 13 ++++++++++---
 socket.c  |  5 +----
 thread.c  |  5 +----
 time.c    |  6 ++----
 10 files changed, 38 insertions(+), 34 deletions(-)

diff --git a/binding.c b/binding.c
index d5807d6..4e0a702 100644
--- a/binding.c
+++ b/binding.c
@@ -64,9 +64,7 @@ static Value lxBindingInit(int argCount, Value *args) {
 }
 
 static LxBinding *getBinding(Value b) {
-    ObjInstance *bindObj = AS_INSTANCE(b);
-    ObjInternal *i = bindObj->internal;
-    return (LxBinding*)i->data;
+    return (LxBinding*)instanceGetData(b);
 }
 
 static Value lxBindingLocalVariables(int argCount, Value *args) {
@@ -155,6 +153,7 @@ static Value lxBindingEval(int argCount, Value *args) {
     Value self = args[0];
     LxBinding *binding = getBinding(self);
     Value src = args[1];
+    CHECK_ARG_IS_A(src, lxStringClass, 1);
     char *csrc = VAL_TO_STRING(src)->chars;
     if (strlen(csrc) == 0) {
         return NIL_VAL;
diff --git a/block.c b/block.c
index fceaaa0..bbaad3f 100644
--- a/block.c
+++ b/block.c
@@ -22,7 +22,7 @@ static void markInternalBlock(Obj *internalObj) {
 }
 
 static inline LxBlock *blockGetHidden(Value block) {
-    return (LxBlock*) AS_INSTANCE(block)->internal->data;
+    return (LxBlock*)instanceGetData(block);
 }
 
 Obj *blockCallable(Value block) {
@@ -48,6 +48,9 @@ static Value lxBlockInit(int argCount, Value *args) {
     CHECK_ARITY("Block#init", 2, 2, argCount);
     Value self = args[0];
     Value callableVal = args[1];
+    if (!isCallable(callableVal)) {
+        throwArgErrorFmt("Expected argument 1 to be a callable, got: %s", typeOfVal(callableVal));
+    }
     ObjInstance *selfObj = AS_INSTANCE(self);
     ObjInternal *internalObj = newInternalObject(false, NULL, 0, markInternalBlock, NULL, NEWOBJ_FLAG_NONE);
     hideFromGC(TO_OBJ(internalObj));
diff --git a/dir.c b/dir.c
index 0fa5ab2..7a4456d 100644
--- a/dir.c
+++ b/dir.c
@@ -19,7 +19,7 @@ typedef struct LxDir {
 } LxDir;
 
 static inline LxDir *dirGetHidden(Value dir) {
-    return (LxDir*)AS_INSTANCE(dir)->internal->data;
+    return (LxDir*)instanceGetData(dir);
 }
 
 static void freeInternalDir(Obj *internalObj) {
diff --git a/io.c b/io.c
index 721536d..74eb5da 100644
--- a/io.c
+++ b/io.c
@@ -33,10 +33,7 @@ static void freeInternalFile(Obj *obj) {
 }
 
 LxFile *fileGetHidden(Value io) {
-    ObjInstance *inst = AS_INSTANCE(io);
-    ObjInternal *internalObj = inst->internal;
-    LxFile *f = (LxFile*)internalGetData(internalObj);
-    return f;
+    return (LxFile*)instanceGetData(io);
 }
 
 LxFile *initIOAfterOpen(Value ioVal, ObjString *fname, int fd, int mode, int oflags) {
diff --git a/object.h b/object.h
index 2425c6a..404d664 100644
--- a/object.h
+++ b/object.h
@@ -537,6 +537,9 @@ Value getProp(Value self, ObjString *propName);
 static inline void *internalGetData(ObjInternal *obj) {
     return obj->data;
 }
+// Data of an instance of a builtin class. Throws if it doesn't have any, when
+// a subclass's init() didn't call super.
+void *instanceGetData(Value instance);
 void setObjectFinalizer(ObjInstance *obj, Obj *callable);
 
 // arrays
@@ -589,8 +592,7 @@ Value newMap(void);
 Value  newMapConstant(void);
 bool mapEquals(Value map, Value other);
 static inline Table *mapGetHidden(Value mapVal) {
-    ObjInstance *inst = AS_INSTANCE(mapVal);
-    return (Table*)inst->internal->data;
+    return (Table*)instanceGetData(mapVal);
 }
 static inline bool mapGet(Value mapVal, Value key, Value *ret) {
     Table *map = AS_MAP(mapVal)->table;
@@ -627,8 +629,7 @@ static inline void mapClear(Value mapVal) {
 // threads
 Value newThread(void);
 static inline struct LxThread *threadGetHidden(Value thread) {
-    ObjInternal *i = AS_INSTANCE(thread)->internal;
-    return (struct LxThread*)i->data;
+    return (struct LxThread*)instanceGetData(thread);
 }
 
 Value mapDup(Value other);
diff --git a/regex.c b/regex.c
index 8b6264a..e864290 100644
--- a/regex.c
+++ b/regex.c
@@ -26,10 +26,18 @@ static Value lxRegexInit(int argCount, Value *args) {
     return *args;
 }
 
+static Regex *getRegex(Value self) {
+    Regex *re = AS_REGEX(self)->regex;
+    if (UNLIKELY(!re)) {
+        throwErrorFmt(lxErrClass, "%s object is not initialized", className(AS_INSTANCE(self)->klass));
+    }
+    return re;
+}
+
 static Value lxRegexInspect(int argCount, Value *args) {
     CHECK_ARITY("Regex#inspect", 1, 1, argCount);
     Value self = args[0];
-    Regex *re = AS_REGEX(self)->regex;
+    Regex *re = getRegex(self);
     ObjString *buf = emptyString();
     pushCStringFmt(buf, "%s", "#<Regex %\"");
     pushCString(buf, re->src, strlen(re->src));
@@ -38,9 +46,7 @@ static Value lxRegexInspect(int argCount, Value *args) {
 }
 
 static LxMatchData *getMatchData(Value self) {
-    ObjInstance *selfInst = AS_INSTANCE(self);
-    ObjInternal *internal = selfInst->internal;
-    return (LxMatchData*)internal->data;
+    return (LxMatchData*)instanceGetData(self);
 }
 
 static void matchDataSetRegex(Value md, Value regex) {
@@ -78,8 +84,7 @@ static Value lxRegexMatch(int argCount, Value *args) {
     if (argCount == 3) {
       giveMatchData = isTruthy(args[2]);
     }
-    Regex *re = AS_REGEX(*args)->regex;
-    DBG_ASSERT(re);
+    Regex *re = getRegex(self);
     MatchData mdata = regex_match(re, AS_STRING(str)->chars);
     if (mdata.matched) {
       if (giveMatchData) {
diff --git a/runtime.c b/runtime.c
index e2105aa..e87a47f 100644
--- a/runtime.c
+++ b/runtime.c
@@ -1141,9 +1141,7 @@ Value lxIteratorInit(int argCount, Value *args) {
 
 // Returns undef at the end of the iteration
 Value lxIteratorNextOrUndef(Value self) {
-    ObjInstance *selfObj = AS_INSTANCE(self);
-    ObjInternal *internalObj = selfObj->internal;
-    Iterator *iter = internalGetData(internalObj);
+    Iterator *iter = instanceGetData(self);
     DBG_ASSERT(iter);
     ObjInstance *iterableObj = iter->instance;
     Value iterable = OBJ_VAL(iterableObj);
@@ -1267,6 +1265,15 @@ Value lxGCSetFinalizer(int argCount, Value *args) {
     return NIL_VAL;
 }
 
+void *instanceGetData(Value instance) {
+    ObjInstance *obj = AS_INSTANCE(instance);
+    ObjInternal *internal = obj->internal;
+    if (UNLIKELY(!internal || !internal->data)) {
+        throwErrorFmt(lxErrClass, "%s object is not initialized", className(obj->klass));
+    }
+    return internal->data;
+}
+
 bool checkArity(int min, int max, int actual) {
     return min <= actual && (max >= actual || max == -1);
 }
diff --git a/socket.c b/socket.c
index 7d4ae8c..cbe4799 100644
--- a/socket.c
+++ b/socket.c
@@ -259,10 +259,7 @@ static void freeInternalAddrInfo(Obj *obj) {
 }
 
 static LxAddrInfo *getAddrInfoHidden(Value addrInfoVal) {
-    ObjInstance *addrInfoInst = AS_INSTANCE(addrInfoVal);
-    ObjInternal *internal = addrInfoInst->internal;
-    LxAddrInfo *lai = internal->data;
-    return lai;
+    return (LxAddrInfo*)instanceGetData(addrInfoVal);
 }
 
 static Value makeNewAddrInfo(struct addrinfo *ai) {
diff --git a/thread.c b/thread.c
index 16cd7f7..701ca8f 100644
--- a/thread.c
+++ b/thread.c
@@ -597,10 +597,7 @@ static void unlockMutex(LxMutex *mutex) {
 }
 
 static LxMutex *mutexGetHidden(Value mutex) {
-    ObjInternal *internal = AS_INSTANCE(mutex)->internal;
-    LxMutex *m = (LxMutex*)internal->data;
-    ASSERT(m);
-    return m;
+    return (LxMutex*)instanceGetData(mutex);
 }
 
 static Value lxMutexInit(int argCount, Value *args) {
diff --git a/time.c b/time.c
index 2e72f03..20d625d 100644
--- a/time.c
+++ b/time.c
@@ -65,13 +65,11 @@ ObjClass *lxTimeClass;
 ObjClass *lxTimerClass;
 
 static inline LxTime *timeGetHidden(Value timeVal) {
-    ObjInternal *internal = AS_INSTANCE(timeVal)->internal;
-    return (LxTime*)internal->data;
+    return (LxTime*)instanceGetData(timeVal);
 }
 
 static inline LxTimer *timerGethidden(Value timerVal) {
-    ObjInternal *internal = AS_INSTANCE(timerVal)->internal;
-    return (LxTimer*)internal->data;
+    return (LxTimer*)instanceGetData(timerVal);
 }
 
 static Value lxTimeInit(int argCount, Value *args) {
-- 
2.43.0


From c894bae8678dafa207b5aa9806ea71be1535e928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:42 +0000
Subject: [PATCH 47/64] fix: unpacking a non-array in foreach, singleton
 classes of strings/arrays/maps and a thread joining itself crashed or hung

---
 object.c | 4 ++++
 thread.c | 3 +++
 vm.c     | 4 ++--
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/object.c b/object.c
index 5baedd7..a653560 100644
--- a/object.c
+++ b/object.c
@@ -1184,6 +1184,10 @@ char *instanceClassName(ObjInstance *obj) {
 ObjClass *singletonClass(Obj *obj) {
     switch (obj->type) {
         case OBJ_T_INSTANCE:
+        case OBJ_T_STRING:
+        case OBJ_T_ARRAY:
+        case OBJ_T_MAP:
+        case OBJ_T_REGEX:
             return instanceSingletonClass((ObjInstance*)obj);
         case OBJ_T_CLASS:
             return classSingletonClass((ObjClass*)obj);
diff --git a/thread.c b/thread.c
index 701ca8f..7bf9fb0 100644
--- a/thread.c
+++ b/thread.c
@@ -340,6 +340,9 @@ Value lxJoinThread(int argCount, Value *args) {
     if (th->joined) { // it already ended
         return NIL_VAL;
     }
+    if (th == vm.curThread) {
+        throwErrorFmt(lxErrClass, "A thread can't join itself");
+    }
 
     pthread_t tid = th->tid;
     releaseGVL(THREAD_STOPPED);
diff --git a/vm.c b/vm.c
index eb722aa..d8b8883 100644
--- a/vm.c
+++ b/vm.c
@@ -2462,8 +2462,8 @@ static Value unpackValue(Value val, bytecode_t idx) {
             return NIL_VAL;
         }
     } else {
-        fprintf(stderr, "[BUG]: type: %s\n", typeOfVal(val));
-        UNREACHABLE("type: %s", typeOfVal(val)); // FIXME: throw typeerror
+        throwErrorFmt(lxTypeErrClass, "Can't unpack a value of type %s, must be an array", typeOfVal(val));
+        UNREACHABLE_RETURN(NIL_VAL);
     }
 }
 
-- 
2.43.0


From debe3bff06662cf05adf8200071b399524ef8092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:08 +0000
Subject: [PATCH 48/64] fix: random(0.5) divided by zero

---
 rand.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rand.c b/rand.c
index 72e3850..7237f47 100644
--- a/rand.c
+++ b/rand.c
@@ -1,6 +1,7 @@
 #include <stdlib.h>
 #include <sys/time.h>
 #include <errno.h>
+#include <limits.h>
 #include "object.h"
 #include "vm.h"
 #include "runtime.h"
@@ -17,10 +18,11 @@ static Value lxRandom(int argCount, Value *args) {
         CHECK_ARG_BUILTIN_TYPE(maxVal, IS_NUMBER_FUNC, "number", 1);
         double max = AS_NUMBER(maxVal);
         if (max < 0) max = -max;
-        if (max == 0) {
+        long maxInt = max < LONG_MAX ? (long)max : LONG_MAX; // LONG_MAX for NaN too
+        if (maxInt == 0) {
             return NUMBER_VAL(0);
         } else {
-            return NUMBER_VAL(res % (int)max);
+            return NUMBER_VAL(res % maxInt);
         }
     } else {
         return NUMBER_VAL(res);
-- 
2.43.0


From 918af3a76e2e1d2572ca35ae3271eaf79b3a53cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:08 +0000
Subject: [PATCH 49/64] fix: init() changed frozen strings, arrays and maps,
 String#init of itself read freed memory

---
 array.c  | 3 +++
 map.c    | 3 +++
 string.c | 7 ++++++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/array.c b/array.c
index dfa170d..c1cc3d9 100644
--- a/array.c
+++ b/array.c
@@ -16,6 +16,9 @@ static Value lxArrayInit(int argCount, Value *args) {
     Value self = *args;
     DBG_ASSERT(IS_AN_ARRAY(self));
     ObjArray *selfObj = AS_ARRAY(self);
+    if (isFrozen((Obj*)selfObj)) {
+        throwErrorFmt(lxErrClass, "%s", "Array is frozen, cannot modify");
+    }
     ValueArray *ary = &selfObj->valAry;
     int capa = argCount-1;
     if (capa > 1) {
diff --git a/map.c b/map.c
index ea9f698..68e04a9 100644
--- a/map.c
+++ b/map.c
@@ -20,6 +20,9 @@ static Value lxMapInit(int argCount, Value *args) {
     Value self = args[0];
     ObjMap *selfObj = AS_MAP(self);
     Table *map = selfObj->table;
+    if (isFrozen((Obj*)selfObj)) {
+        throwErrorFmt(lxErrClass, "%s", "Map is frozen, cannot modify");
+    }
 
     if (argCount == 1) {
         return self;
diff --git a/string.c b/string.c
index 1985768..ad1a1da 100644
--- a/string.c
+++ b/string.c
@@ -18,6 +18,9 @@ static Value lxStringInit(int argCount, Value *args) {
     Value self = *args;
     ObjString *selfStr = AS_STRING(self);
     ObjString *otherStr = NULL;
+    if (isFrozen(AS_OBJ(self))) {
+        throwErrorFmt(lxErrClass, "%s", "String is frozen, cannot modify");
+    }
     if (argCount == 1) {
         otherStr = INTERN("");
     } else {
@@ -27,10 +30,12 @@ static Value lxStringInit(int argCount, Value *args) {
             otherStr = AS_STRING(args[1]);
         }
     }
+    if (otherStr == selfStr) {
+        return self;
+    }
     selfStr->capacity = otherStr->capacity;
     selfStr->hash = otherStr->hash;
     selfStr->length = otherStr->length;
-    OBJ_UNSET_FROZEN(selfStr);
     if (STRING_IS_INTERNED(otherStr) && otherStr->chars) {
         selfStr->chars = otherStr->chars;
         STRING_SET_SHARED(selfStr);
-- 
2.43.0


From c28b2b918314e49a227b25103421834f066c869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:08 +0000
Subject: [PATCH 50/64] fix: Object.extend(mod) crashed

---
 object.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/object.c b/object.c
index a653560..e98a7a8 100644
--- a/object.c
+++ b/object.c
@@ -450,7 +450,9 @@ void setupIClass(ObjIClass *iclass) {
         CLASSINFO(iclass->klass)->superclass = (Obj*)iclass;
         OBJ_WRITE(OBJ_VAL(iclass->klass), OBJ_VAL(iclass));
         iclass->superklass = origSuper;
-        OBJ_WRITE(OBJ_VAL(iclass), OBJ_VAL(iclass->superklass));
+        if (iclass->superklass) {
+            OBJ_WRITE(OBJ_VAL(iclass), OBJ_VAL(iclass->superklass));
+        }
         iclass->isSetup = true;
     }
 }
-- 
2.43.0


From 4b0b8a8434878400f87b7a5b0fa5527999fe7311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:08 +0000
Subject: [PATCH 51/64] fix: classof() of a native function and re-initializing
 the current thread crashed

---
 runtime.c | 2 +-
 thread.c  | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/runtime.c b/runtime.c
index e87a47f..b0f9387 100644
--- a/runtime.c
+++ b/runtime.c
@@ -222,7 +222,7 @@ Value lxTypeof(int argCount, Value *args) {
 
 Value lxClassof(int argCount, Value *args) {
     CHECK_ARITY("classof", 1, 1, argCount);
-    if (IS_OBJ(*args)) {
+    if (IS_OBJ(*args) && IS_INSTANCE_LIKE(*args)) {
         return OBJ_VAL(AS_INSTANCE(*args)->klass);
     } else {
         return NIL_VAL;
diff --git a/thread.c b/thread.c
index 7bf9fb0..ae4f9cb 100644
--- a/thread.c
+++ b/thread.c
@@ -334,7 +334,9 @@ Value lxJoinThread(int argCount, Value *args) {
     CHECK_ARG_IS_A(threadVal, lxThreadClass, 1);
     LxThread *th = THREAD_GETHIDDEN(threadVal);
     ASSERT(th);
-    ASSERT(th->tid != 0);
+    if (th->tid == 0) {
+        throwErrorFmt(lxErrClass, "Thread hasn't been started");
+    }
     THREAD_DEBUG(2, "Joining thread id %lu\n", th->tid);
     int ret = 0;
     if (th->joined) { // it already ended
@@ -391,6 +393,9 @@ Value lxThreadInit(int argCount, Value *args) {
     callSuper(0, NULL, NULL);
     Value self = *args;
     ObjInstance *selfObj = AS_INSTANCE(self);
+    if (selfObj->internal) {
+        throwErrorFmt(lxErrClass, "Thread is already initialized");
+    }
     ObjInternal *internalObj = newInternalObject(false, NULL, sizeof(LxThread), NULL, NULL, NEWOBJ_FLAG_NONE);
     LxThread *th = ALLOCATE(LxThread, 1);
     LxThreadSetup(th);
-- 
2.43.0


From 0d0b34a997ca5b8361950580b77b59f509e139c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:51 +0000
Subject: [PATCH 52/64] fix: in the REPL, an uncaught error jumped into a
 function that had returned and left the thread's state as it was

---
 vm.c | 51 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/vm.c b/vm.c
index d8b8883..c0845e5 100644
--- a/vm.c
+++ b/vm.c
@@ -2486,24 +2486,49 @@ static ObjString *methodNameForBinop(OpCode code) {
     }
 }
 
+// After an uncaught error, nothing is running anymore
+static void resetThreadState(void) {
+    LxThread *th = THREAD();
+    while (th->errInfo) {
+        ErrTagInfo *prev = th->errInfo->prev;
+        FREE(ErrTagInfo, th->errInfo);
+        th->errInfo = prev;
+    }
+    while (th->v_blockStack.length > 0) {
+        BlockStackEntry *bentry = vec_pop(&th->v_blockStack);
+        FREE(BlockStackEntry, bentry);
+    }
+    unwindThis(0, 0);
+    vec_clear(&th->stackObjects);
+    th->inCCall = 0;
+    th->cCallThrew = false;
+    th->cCallJumpBufSet = false;
+    th->returnedFromNativeErr = false;
+    th->vmRunLvl = 0;
+}
+
 static InterpretResult vm_run0() {
     if (CLOX_OPTION_T(parseOnly) || CLOX_OPTION_T(compileOnly)) {
         return INTERPRET_OK;
     }
 
-    if (!rootVMLoopJumpBufSet) {
-        ASSERT(vm.curThread->vmRunLvl == 0);
-        int jumpRes = setjmp(rootVMLoopJumpBuf);
-        rootVMLoopJumpBufSet = true;
-        if (jumpRes == JUMP_SET) {
-            VM_DEBUG(1, "VM set rootVMLoopJumpBuf");
-        } else {
-            VM_DEBUG(1, "VM caught error in rootVMLoopJumpBuf");
-            showUncaughtError(THREAD()->lastErrorThrown);
-            return INTERPRET_RUNTIME_ERROR;
-        }
-    }
-    return vm_run();
+    // NOTE: there's one run after the other in the REPL
+    vm.curThread->vmRunLvl = 0;
+    int jumpRes = setjmp(rootVMLoopJumpBuf);
+    rootVMLoopJumpBufSet = true;
+    if (jumpRes == JUMP_SET) {
+        VM_DEBUG(1, "VM set rootVMLoopJumpBuf");
+    } else {
+        VM_DEBUG(1, "VM caught error in rootVMLoopJumpBuf");
+        rootVMLoopJumpBufSet = false;
+        closeUpvalues(EC->stack);
+        showUncaughtError(THREAD()->lastErrorThrown);
+        resetThreadState();
+        return INTERPRET_RUNTIME_ERROR;
+    }
+    InterpretResult result = vm_run();
+    rootVMLoopJumpBufSet = false;
+    return result;
 }
 
 /**
-- 
2.43.0


From 6760ea29c58adaad1ac179e29d5186046ff29856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:51 +0000
Subject: [PATCH 53/64] fix: init() changed frozen errors and regexes

---
 regex.c   | 3 +++
 runtime.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/regex.c b/regex.c
index e864290..9bf7165 100644
--- a/regex.c
+++ b/regex.c
@@ -15,6 +15,9 @@ static Value lxRegexInit(int argCount, Value *args) {
     CHECK_ARITY("Regex#init", 2, 2, argCount);
     Value reStr = args[1];
     CHECK_ARG_IS_A(reStr, lxStringClass, 1);
+    if (isFrozen(AS_OBJ(*args))) {
+        throwErrorFmt(lxErrClass, "Regex is frozen, cannot modify");
+    }
     Regex *re = ALLOCATE(Regex, 1);
     regex_init(re, AS_STRING(reStr)->chars, NULL);
     AS_REGEX(*args)->regex = re;
diff --git a/runtime.c b/runtime.c
index b0f9387..30c9b6a 100644
--- a/runtime.c
+++ b/runtime.c
@@ -1202,6 +1202,9 @@ Value lxErrInit(int argCount, Value *args) {
     } else {
         msg = NIL_VAL;
     }
+    if (isFrozen(AS_OBJ(self))) {
+        throwErrorFmt(lxErrClass, "Error is frozen, cannot modify");
+    }
     setProp(self, INTERN("message"), msg);
     return self;
 }
-- 
2.43.0


From 09c96b6207e34693b2075fa1392715a537d8abb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:12 +0000
Subject: [PATCH 54/64] fix: Array#sortBy treated block results between -1 and
 1 as equal

---
 object.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/object.c b/object.c
index e98a7a8..28136ee 100644
--- a/object.c
+++ b/object.c
@@ -856,7 +856,8 @@ static int valCmpBlock(const void *a, const void *b) {
     if (!IS_NUMBER(res)) {
         throwErrorFmt(lxTypeErrClass, "sort block must return a number");
     }
-    return (int)AS_NUMBER(res);
+    double num = AS_NUMBER(res);
+    return num < 0 ? -1 : num > 0;
 }
 
 Value arraySort(Value aryVal) {
-- 
2.43.0


From 26f8ff5c23ff7bf1bb552a658e33fe4bcd5b0d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:12 +0000
Subject: [PATCH 55/64] fix: Map#merge's write barrier was on the argument, not
 on the new map

---
 map.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/map.c b/map.c
index 68e04a9..e291c65 100644
--- a/map.c
+++ b/map.c
@@ -260,8 +260,8 @@ static Value lxMapMerge(int argCount, Value *args) {
     Entry e; int idx = 0;
     TABLE_FOREACH(otherMap, e, idx, {
         tableSet(retMap, e.key, e.value);
-        OBJ_WRITE(other, e.key);
-        OBJ_WRITE(other, e.value);
+        OBJ_WRITE(ret, e.key);
+        OBJ_WRITE(ret, e.value);
     });
     return ret;
 }
-- 
2.43.0


From 725157bf6cb0010709d442e4de5b1d5c39d077f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:13 +0000
Subject: [PATCH 56/64] fix: exit handlers and finalizers aborted or were
 skipped after an uncaught error

---
 vm.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vm.c b/vm.c
index c0845e5..1b35f9f 100644
--- a/vm.c
+++ b/vm.c
@@ -4166,13 +4166,18 @@ bool callFunctionShowError(Value callable, int argCount, Value *args) {
     Value *stackTop = EC->stackTop;
     int vmRunLvl = th->vmRunLvl;
     Value lastErrorThrown = th->lastErrorThrown;
+    bool hadError = th->hadError;
+    th->hadError = false; // or nothing would run
     push(lastErrorThrown); // keep it alive
     bool noFrame = getFrameOrNull() == NULL;
     if (noFrame) { // after an uncaught error
         ObjFunction *func = newFunction(NULL, NULL, FUN_TYPE_TOP_LEVEL, NEWOBJ_FLAG_OLD);
         hideFromGC(TO_OBJ(func));
+        for (int i = 0; i < 3; i++) { // stands for a call instruction
+            writeChunkWord(func->chunk, OP_NIL, 1, 0, 0);
+        }
         CallFrame *frame = pushFrame(func);
-        frame->ip = func->chunk->code;
+        frame->ip = func->chunk->code + 2;
         frame->slots = EC->stackTop;
         frame->closure = newClosure(func, NEWOBJ_FLAG_OLD);
         unhideFromGC(TO_OBJ(func));
@@ -4193,6 +4198,7 @@ bool callFunctionShowError(Value callable, int argCount, Value *args) {
     EC->stackTop = stackTop;
     th->vmRunLvl = vmRunLvl;
     th->lastErrorThrown = lastErrorThrown;
+    th->hadError = hadError;
     return status == TAG_NONE;
 }
 
-- 
2.43.0


From b22745b3b24ec4eb1ee3dccb0ea2466d5a59a639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:46 +0000
Subject: [PATCH 57/64] fix: eval() and Binding#eval found local variables in
 the wrong slots, overwrote temporaries and closed variables of running
 functions

---
 compiler.c | 70 ++++++++++++++++++++++++++++++++++++++----------------
 compiler.h |  4 ++--
 debug.c    |  2 +-
 debugger.c |  2 +-
 thread.c   |  1 +
 vm.c       | 42 ++++++++++++++++++++++----------
 vm.h       |  1 +
 7 files changed, 85 insertions(+), 37 deletions(-)

diff --git a/compiler.c b/compiler.c
index ee1eef7..835772a 100644
--- a/compiler.c
+++ b/compiler.c
@@ -565,6 +565,16 @@ static void patchOffsetsAround(Iseq *seq, Insn *insn, int delta) {
         if (row->ito > insnPos) row->ito += delta;
         if (row->itarget > insnPos) row->itarget += delta;
     }
+    // where variables are visible (see compile_eval_src)
+    LocalVariable *var; int i = 0;
+    vec_foreach(&current->function->variables, var, i) {
+        if (var->bytecode_declare_start > insnPos) var->bytecode_declare_start += delta;
+    }
+    Scope *scope; i = 0;
+    vec_foreach(&current->function->scopes, scope, i) {
+        if (scope->bytecode_start > insnPos) scope->bytecode_start += delta;
+        if (scope->bytecode_end > insnPos) scope->bytecode_end += delta;
+    }
 }
 
 /* Remove the given instruction. If there's a forward jump to an instruction after it,
@@ -1268,12 +1278,37 @@ static void initCompiler(
     COMP_TRACE("/initCompiler");
 }
 
-// Initializes a new compiler for a function, and sets it as the `current`
+// Gives the local in the given slot its name (NULL: can't be referenced)
+static void setEvalLocal(int slot, ObjString *name) {
+    while (current->localCount <= slot) {
+        Local *local = &current->locals[incrLocalCount(current)];
+        local->name.lexeme = "";
+        local->name.length = 0;
+        local->depth = current->scopeDepth;
+        local->popOnScopeEnd = true;
+        local->isUpvalue = false;
+    }
+    if (name) {
+        Local *local = &current->locals[slot];
+        local->name.lexeme = name->chars;
+        local->name.length = strlen(name->chars);
+        // an eval() in the evaluated code sees it too
+        LocalVariable *var = ALLOCATE(LocalVariable, 1);
+        var->name = name;
+        var->scope = NULL;
+        var->slot = slot;
+        var->bytecode_declare_start = -1;
+        vec_push(&current->function->variables, var);
+    }
+}
+
+// Initializes a new compiler for eval()'d code, and sets it as the `current`
 // function compiler.
 static void initEvalCompiler(
     Compiler *compiler, // new compiler
     ObjFunction *in_func,
-    bytecode_t *ip_at
+    bytecode_t *ip_at,
+    int numSlots
 ) {
     COMP_TRACE("initCompiler");
     memset(compiler, 0, sizeof(*compiler));
@@ -1321,18 +1356,17 @@ static void initEvalCompiler(
     int bytecode_at = ip_at - in_func->chunk->code;
     LocalVariable *var; int varidx = 0;
     vec_foreach(&in_func->variables, var, varidx) {
-        VM_DEBUG(2, "Maybe adding local %s to eval callframe", var->name->chars);
-        if (var->bytecode_declare_start < bytecode_at) {
+        if (var->bytecode_declare_start < bytecode_at &&
+                (!var->scope || bytecode_at <= var->scope->bytecode_end)) {
             VM_DEBUG(2, "adding local %s to eval callframe", var->name->chars);
-            Local *local = &current->locals[incrLocalCount(current)];
-            local->name.lexeme = var->name->chars;
-            local->name.length = strlen(var->name->chars);
-            local->depth = current->scopeDepth;
-            local->popOnScopeEnd = true;
-            local->isUpvalue = false;
-        } else {
+            setEvalLocal(var->slot, var->name);
         }
     }
+    // New variables are put above the values that are on the stack already
+    if (numSlots > UINT8_MAX) numSlots = UINT8_MAX;
+    if (numSlots > current->localCount) {
+        setEvalLocal(numSlots-1, NULL);
+    }
 
     COMP_TRACE("/initCompiler");
 }
@@ -1387,12 +1421,7 @@ static void initBindingEvalCompiler(
 
     Entry e; int varidx = 0;
     TABLE_FOREACH(&scope->function->localsTable, e, varidx, {
-        Local *local = &current->locals[incrLocalCount(current)];
-        local->name.lexeme = AS_CSTRING(e.key);
-        local->name.length = strlen(local->name.lexeme);
-        local->depth = current->scopeDepth;
-        local->isUpvalue = false;
-        local->popOnScopeEnd = true;
+        setEvalLocal((int)AS_NUMBER(e.value), AS_STRING(e.key));
     });
 
     COMP_TRACE("/initCompiler");
@@ -2713,7 +2742,7 @@ ObjFunction *compile_node(Node *program, CompileErr *err) {
     }
 }
 
-ObjFunction *compile_eval_src(char *src, CompileErr *err, ObjInstance *instance, ObjFunction *func_in, bytecode_t *ip_at) {
+ObjFunction *compile_eval_src(char *src, CompileErr *err, ObjInstance *instance, ObjFunction *func_in, bytecode_t *ip_at, int numSlots) {
     initScanner(&scanner, src);
     Parser p;
     initParser(&p);
@@ -2745,7 +2774,7 @@ ObjFunction *compile_eval_src(char *src, CompileErr *err, ObjInstance *instance,
     Compiler mainCompiler;
     top = &mainCompiler;
     ClassCompiler classCompiler;
-    initEvalCompiler(&mainCompiler, func_in, ip_at);
+    initEvalCompiler(&mainCompiler, func_in, ip_at, numSlots);
     if (compilingClassBody) {
         currentClassOrModule = &classCompiler;
         classCompiler.name = syntheticToken(instance->klass->classInfo->name->chars);
@@ -2778,7 +2807,7 @@ ObjFunction *compile_eval_src(char *src, CompileErr *err, ObjInstance *instance,
     }
 }
 
-ObjFunction *compile_binding_eval_src(char *src, CompileErr *err, ObjScope *scope) {
+ObjFunction *compile_binding_eval_src(char *src, CompileErr *err, ObjScope *scope, int *numLocals) {
     initScanner(&scanner, src);
     Parser p;
     initParser(&p);
@@ -2803,6 +2832,7 @@ ObjFunction *compile_binding_eval_src(char *src, CompileErr *err, ObjScope *scop
     Compiler mainCompiler;
     top = &mainCompiler;
     initBindingEvalCompiler(&mainCompiler, scope);
+    *numLocals = mainCompiler.localCount;
     CompileScopeType stype = COMPILE_SCOPE_FUNCTION;
     if (scope->function->ftype == FUN_TYPE_TOP_LEVEL) {
       stype = COMPILE_SCOPE_MAIN;
diff --git a/compiler.h b/compiler.h
index e5f445d..83ed260 100644
--- a/compiler.h
+++ b/compiler.h
@@ -156,8 +156,8 @@ extern CompilerOpts compilerOpts;
 
 ObjFunction *compile_src(char *src, CompileErr *err);
 ObjFunction *compile_node(Node *n, CompileErr *err);
-ObjFunction *compile_eval_src(char *src, CompileErr *err, ObjInstance *instance, ObjFunction *func_in, bytecode_t *ip_at);
-ObjFunction *compile_binding_eval_src(char *src, CompileErr *err, ObjScope *scope);
+ObjFunction *compile_eval_src(char *src, CompileErr *err, ObjInstance *instance, ObjFunction *func_in, bytecode_t *ip_at, int numSlots);
+ObjFunction *compile_binding_eval_src(char *src, CompileErr *err, ObjScope *scope, int *numLocals);
 ObjFunction *compile_file(char *fname, CompileErr *err);
 
 void grayCompilerRoots(void);
diff --git a/debug.c b/debug.c
index 27f53b2..d60d0d5 100644
--- a/debug.c
+++ b/debug.c
@@ -289,7 +289,7 @@ void printFunctionTables(FILE *f, ObjFunction *func) {
   vec_foreach(&func->variables, var, idx) {
       ASSERT(var->name);
       char *name = var->name->chars;
-      ASSERT(var->scope);
+      if (!var->scope) continue; // of the function that called eval()
       const char *scope_name = compileScopeName(var->scope->type);
       int slot = var->slot;
       fprintf(f, "%s: %d (%s [%d-%d])\n", name, slot, scope_name,
diff --git a/debugger.c b/debugger.c
index 6907cda..1e07fd9 100644
--- a/debugger.c
+++ b/debugger.c
@@ -206,7 +206,7 @@ void enterDebugger(Debugger *dbg, char *filename, int lineno, int ndepth, int nw
             int ipAt = frame->ip - func->chunk->code;
             LocalVariable *var; int vidx = 0;
             vec_foreach(&func->variables, var, vidx) {
-                if (var->bytecode_declare_start <= ipAt && ipAt <= var->scope->bytecode_end) {
+                if (var->bytecode_declare_start <= ipAt && (!var->scope || ipAt <= var->scope->bytecode_end)) {
                     fprintf(stdout, "%s: ", var->name->chars);
                     int slot = var->slot;
                     Value val = frame->scope->localsTable.tbl[slot];
diff --git a/thread.c b/thread.c
index ae4f9cb..c238361 100644
--- a/thread.c
+++ b/thread.c
@@ -206,6 +206,7 @@ static ObjInstance *newThreadSetup(LxThread *parentThread) {
         newCtx->frames_capa = ctx->frames_capa;
         memcpy(newCtx->frames, ctx->frames, sizeof(CallFrame)*ctx->frames_capa);
         newCtx->stackTop = newCtx->stack + (ctx->stackTop-ctx->stack);
+        newCtx->evalTop = NULL;
         newCtx->stackTop--; // for the two current stack objects that newThread() creates
         newCtx->stackTop--;
         newCtx->frameCount = 1;
diff --git a/vm.c b/vm.c
index 1b35f9f..f0f6993 100644
--- a/vm.c
+++ b/vm.c
@@ -1388,7 +1388,7 @@ void popFrame(void) {
     LxThread *th = vm.curThread;
     ASSERT(EC->frameCount >= 1);
     CallFrame *frame = getFrame();
-    Value *newTop = frame->slots;
+    Value *newTop = frame->isEval ? EC->evalTop : frame->slots;
     VM_DEBUG(2, "popping callframe (%s)", frame->isCCall ? "native" : "non-native");
     unwindErrInfo(frame);
     if (frame->isCCall) {
@@ -2436,12 +2436,18 @@ ObjUpvalue *captureUpvalue(CallFrame *frame, int slot) {
     return createdUpvalue;
 }
 
-// Close the upvalues that are going to get popped off the stack
+// Close the upvalues that are going to get popped off the stack of the current
+// execution context (others have stacks of their own).
 // param `last` is the stackTop after popFrame()
 static void closeUpvalues(Value *last) {
-    LxThread *th = vm.curThread;
-    while (th->openUpvalues != NULL && th->openUpvalues->value >= last) {
-        ObjUpvalue *upvalue = th->openUpvalues;
+    Value *end = EC->stack + EC->stack_capa;
+    ObjUpvalue **link = &vm.curThread->openUpvalues;
+    while (*link != NULL && (*link)->value >= last) {
+        ObjUpvalue *upvalue = *link;
+        if (upvalue->value >= end) {
+            link = &upvalue->next;
+            continue;
+        }
 
         // Copy the value into the upvalue itself and point the upvalue to it.
         upvalue->closed = *upvalue->value;
@@ -2449,8 +2455,8 @@ static void closeUpvalues(Value *last) {
         upvalue->value = &upvalue->closed;
         upvalue->scope = NULL;
 
-        // Pop it off the open upvalue list.
-        th->openUpvalues = upvalue->next;
+        // Take it off the open upvalue list.
+        *link = upvalue->next;
     }
 }
 
@@ -3406,7 +3412,7 @@ find_instance_method:
           ASSERT(!getFrame()->isCCall);
           Value *newTop = getFrame()->slots;
           if (getFrame()->isEval) {
-            newTop = getFrame()->slots+1;
+            newTop = EC->evalTop;
           }
           popFrame();
           EC->stackTop = newTop;
@@ -3846,7 +3852,10 @@ InterpretResult loadScript(ObjFunction *func, char *filename) {
     vm_protect(vm_run_protect, NULL, NULL, &status);
     // `EC != ectx` if an error occured in the script, and propagated out
     // due to being caught in a calling script or never being caught.
-    if (EC == ectx) pop_EC();
+    if (EC == ectx) {
+        closeUpvalues(EC->stack);
+        pop_EC();
+    }
     ASSERT(oldFrame == getFrame());
     if (status == TAG_RAISE) {
         rethrowErrInfo(THREAD()->errInfo);
@@ -3862,7 +3871,7 @@ static Value doVMEval(char *src, char *filename, int lineno, ObjInstance *instan
     bool oldFrameIsEval = oldFrame->isCCall;
     if (oldFrameIsEval) {
       VM_DEBUG(1, "oldFrame is c call: %s", callFrameName(prevFrame));
-      prevFrame = prevFrame->prev;
+      while (prevFrame->isCCall) prevFrame = prevFrame->prev;
     }
     CompileErr err = COMPILE_ERR_NONE;
     int oldOpts = compilerOpts.noRemoveUnusedExpressions;
@@ -3874,12 +3883,14 @@ static Value doVMEval(char *src, char *filename, int lineno, ObjInstance *instan
     VMExecContext *ectx = EC;
     ectx->evalContext = true;
     ectx->stack = oldFrame->slots;
-    ectx->stack_capa = old_ectx->stack_capa;
+    ectx->stack_capa = old_ectx->stack_capa - (ectx->stack - old_ectx->stack);
     ectx->stackTop = old_ectx->stackTop;
+    ectx->evalTop = ectx->stackTop;
     VM_DEBUG(1, "VM eval called in func '%s', ip: %d", callFrameName(prevFrame),
         prevFrame->ip - prevFrame->closure->function->chunk->code);
 
-    ObjFunction *func = compile_eval_src(src, &err, instance, prevFrame->closure->function, prevFrame->ip);
+    ObjFunction *func = compile_eval_src(src, &err, instance, prevFrame->closure->function, prevFrame->ip,
+            (int)(ectx->stackTop - ectx->stack) + (instance ? 1 : 0));
 
     compilerOpts.noRemoveUnusedExpressions = oldOpts;
     if (err != COMPILE_ERR_NONE || !func) {
@@ -3956,8 +3967,10 @@ static Value doVMBindingEval(LxBinding *binding, char *src, char *filename, int
     resetStack();
     VMExecContext *ectx = EC;
     ectx->evalContext = true;
+    ectx->evalTop = ectx->stack;
     VM_DEBUG(1, "Calling binding VM eval");
-    ObjFunction *func = compile_binding_eval_src(src, &err, scope);
+    int numLocals = 0;
+    ObjFunction *func = compile_binding_eval_src(src, &err, scope, &numLocals);
     compilerOpts.noRemoveUnusedExpressions = oldOpts;
 
     if (err != COMPILE_ERR_NONE || !func) {
@@ -3985,6 +3998,9 @@ static Value doVMBindingEval(LxBinding *binding, char *src, char *filename, int
     frame->start = 0;
     frame->ip = func->chunk->code;
     frame->slots = EC->stack;
+    for (int i = 0; i < numLocals; i++) { // closures find them on the stack
+        push(i < scope->localsTable.size ? scope->localsTable.tbl[i] : NIL_VAL);
+    }
     frame->closure = newClosure(func, NEWOBJ_FLAG_OLD);
     unhideFromGC(TO_OBJ(func));
     frame->isCCall = false;
diff --git a/vm.h b/vm.h
index 6664128..e44fb5b 100644
--- a/vm.h
+++ b/vm.h
@@ -96,6 +96,7 @@ typedef struct VMExecContext {
     Table roGlobals; // per-script readonly global vars (ex: __FILE__)
     ObjString *filename;
     Value *lastValue;
+    Value *evalTop; // top of the stack when eval() was called
     bool evalContext; // is executing eval()
     bool loadContext; // is executing 'loadScript' or 'requireScript'
     bool stackAllocated;
-- 
2.43.0


From 067b9c1a357bfb035fd2578ad3a84414e4d16e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:47 +0000
Subject: [PATCH 58/64] fix: print showed classes and modules as instances, and
 arrays that contain themselves without a comma

---
 array.c | 12 ++++++------
 value.c |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/array.c b/array.c
index c1cc3d9..c9a25f8 100644
--- a/array.c
+++ b/array.c
@@ -214,13 +214,13 @@ static Value lxArrayToString(int argCount, Value *args) {
         Value elVal = ary->values[i];
         if (IS_OBJ(elVal) && (AS_OBJ(elVal) == selfObj)) {
             pushCString(bufRet, "[...]", 5);
-            continue;
-        }
-        if (IS_OBJ(elVal)) {
-            DBG_ASSERT(AS_OBJ(elVal)->type > OBJ_T_NONE);
+        } else {
+            if (IS_OBJ(elVal)) {
+                DBG_ASSERT(AS_OBJ(elVal)->type > OBJ_T_NONE);
+            }
+            ObjString *buf = valueToString(elVal, copyString, NEWOBJ_FLAG_NONE);
+            pushCString(bufRet, buf->chars, strlen(buf->chars));
         }
-        ObjString *buf = valueToString(elVal, copyString, NEWOBJ_FLAG_NONE);
-        pushCString(bufRet, buf->chars, strlen(buf->chars));
         if (i < (ary->count-1)) {
             pushCString(bufRet, ",", 1);
         }
diff --git a/value.c b/value.c
index 8aac794..aa60b60 100644
--- a/value.c
+++ b/value.c
@@ -124,7 +124,7 @@ int printValue(FILE *file, Value value, bool canCallMethods, int maxLen) {
             } else {
                 return fprintf(file, "<fun %.*s>", PRINTNUM(6, maxLen), func->name->chars);
             }
-        } else if (IS_INSTANCE_LIKE(value)) {
+        } else if (IS_INSTANCE_LIKE(value) && !IS_CLASS(value) && !IS_MODULE(value)) {
             ObjInstance *inst = AS_INSTANCE(value);
             Obj *callable = NULL;
             if (canCallMethods) {
-- 
2.43.0


From b91047699fa491e7cdada5f30f49550c92f74cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:41 +0000
Subject: [PATCH 59/64] fix: loading a script left its file open

---
 compiler.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler.c b/compiler.c
index 835772a..c12d71c 100644
--- a/compiler.c
+++ b/compiler.c
@@ -2868,12 +2868,14 @@ ObjFunction *compile_file(char *fname, CompileErr *err) {
     int res = fstat(fd, &st);
     if (res != 0) {
         *err = COMPILE_ERR_ERRNO;
+        close(fd);
         return NULL;
     }
     // TODO: free this buf or have function own it
     char *buf = xcalloc(1, st.st_size+1);
     ASSERT_MEM(buf);
     res = (int)read(fd, buf, st.st_size);
+    close(fd);
     if (res == -1) {
         *err = COMPILE_ERR_ERRNO;
         xfree(buf);
-- 
2.43.0


From 302fd575a06f99e2093bfea89e9da67802c30a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:41 +0000
Subject: [PATCH 60/64] fix: loading a script with a long name overflowed
 buffers, and a missing file was a syntax error

---
 runtime.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/runtime.c b/runtime.c
index 30c9b6a..411b89b 100644
--- a/runtime.c
+++ b/runtime.c
@@ -549,6 +549,9 @@ static Value loadScriptHelper(Value fname, bool checkLoaded) {
     bool triedCurdir = false;
     bool fileFound = false;
     if (isAbsFile) {
+        if (strlen(cfile) >= SCRIPT_PATH_MAX) {
+            throwErrorFmt(lxLoadErrClass, "%s", "File name too long");
+        }
         memcpy(pathbuf, cfile, strlen(cfile));
         fileFound = true;
     } else {
@@ -559,6 +562,9 @@ static Value loadScriptHelper(Value fname, bool checkLoaded) {
                 continue;
             }
             char *dir = VAL_TO_STRING(el)->chars;
+            if (!dir[0] || strlen(dir) >= SCRIPT_DIR_MAX) {
+                continue;
+            }
             memset(pathbuf, 0, SCRIPT_PATH_MAX);
             memcpy(pathbuf, dir, strlen(dir));
             if (strncmp(pathbuf, ".", 1) == 0) { // "./path/to/file.lox"
@@ -577,6 +583,9 @@ static Value loadScriptHelper(Value fname, bool checkLoaded) {
             if (dir[strlen(dir)-1] != pathSeparator) { // add trailing '/'
                 strncat(pathbuf, &pathSeparator, 1);
             }
+            if (strlen(pathbuf) + strlen(cfile) >= SCRIPT_PATH_MAX) {
+                continue;
+            }
             strcat(pathbuf, cfile);
             bool isReadable = false;
             bool triedAddingLoxExt = false;
@@ -621,6 +630,9 @@ readableCheck:
         if (func) {
             unhideFromGC(TO_OBJ(func));
         }
+        if (err == COMPILE_ERR_ERRNO) {
+            throwErrorFmt(lxLoadErrClass, "File '%s' can't be read", cfile);
+        }
         throwErrorFmt(lxSyntaxErrClass, "%s", "Syntax error");
     }
     ObjString *fpath = copyString(pathbuf, strlen(pathbuf), NEWOBJ_FLAG_OLD);
-- 
2.43.0


From 0c082a21bb1f3c0378a027aaf5f98d1920e4ca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:27 +0000
Subject: [PATCH 61/64] fix: constants were looked up where code was called
 from instead of where it was written

---
 memory.c |  1 +
 object.c |  1 +
 object.h |  1 +
 vm.c     | 77 ++++++++++++++++++++++++++++++++++++--------------------
 vm.h     |  1 +
 5 files changed, 54 insertions(+), 27 deletions(-)

diff --git a/memory.c b/memory.c
index c565e91..46924a4 100644
--- a/memory.c
+++ b/memory.c
@@ -794,6 +794,7 @@ void blackenObject(Obj *obj) {
             GC_TRACE_DEBUG(5, "Blackening closure %p", obj);
             ObjClosure *closure = (ObjClosure*)obj;
             grayObject((Obj*)closure->function);
+            grayObject((Obj*)closure->cref);
             for (int i = 0; i < closure->upvalueCount; i++) {
                 grayObject((Obj*)closure->upvalues[i]); // closed upvalues
             }
diff --git a/object.c b/object.c
index 28136ee..d3e5408 100644
--- a/object.c
+++ b/object.c
@@ -322,6 +322,7 @@ ObjClosure *newClosure(ObjFunction *func, int flags) {
     closure->upvalues = upvalues;
     closure->upvalueCount = func->upvalueCount;
     closure->isBlock = false;
+    closure->cref = NULL;
     GC_PROMOTE(closure, GC_GEN_YOUNG_MAX);
     return closure;
 }
diff --git a/object.h b/object.h
index 404d664..816629b 100644
--- a/object.h
+++ b/object.h
@@ -190,6 +190,7 @@ typedef struct ObjClosure {
   ObjUpvalue **upvalues;
   int upvalueCount; // always same as function->upvalueCount
   bool isBlock;
+  struct ObjClass *cref; // class or module it was written in, for constant lookup
 } ObjClosure;
 
 typedef Value (*NativeFn)(int argCount, Value *args);
diff --git a/vm.c b/vm.c
index f0f6993..ee52896 100644
--- a/vm.c
+++ b/vm.c
@@ -797,6 +797,11 @@ static inline void pushCref(ObjClass *klass) {
     vec_push(&vm.curThread->v_crefStack, klass);
 }
 
+// class or module whose body or methods we're in, NULL at the top level
+static inline ObjClass *currentCref(void) {
+    return (ObjClass*)vec_last_or(&vm.curThread->v_crefStack, NULL);
+}
+
 Value *getLastValue(void) {
     if (isOpStackEmpty()) {
         return EC->lastValue;
@@ -1558,6 +1563,23 @@ static void checkFunctionKeywords(ObjFunction *func, CallInfo *callInfo, int num
     }
 }
 
+static void setClosureCref(ObjClosure *closure) {
+    closure->cref = currentCref();
+    if (closure->cref) {
+        OBJ_WRITE(OBJ_VAL(closure), OBJ_VAL(closure->cref));
+    }
+}
+
+// Finds the constant in the class or module the running code was written in,
+// or, if it isn't defined there, in the class of the method's receiver.
+static bool findConstant(ObjString *name, Value *valOut) {
+    if (findConstantUnder(currentCref(), name, valOut)) {
+        return true;
+    }
+    ObjClass *klass = getFrame()->klass;
+    return klass && findConstantUnder(klass, name, valOut);
+}
+
 // The closure of the block literal given to the function about to be called, if any
 static ObjClosure *newBlockClosure(CallInfo *callInfo) {
     CallFrame *frame = getFrame();
@@ -1570,6 +1592,7 @@ static ObjClosure *newBlockClosure(CallInfo *callInfo) {
     }
     ObjClosure *closure = newClosure(func, NEWOBJ_FLAG_NONE);
     closure->isBlock = true;
+    setClosureCref(closure);
     hideFromGC(TO_OBJ(closure));
     for (int i = 0; i < func->upvalueCount; i++) {
         Upvalue *info = &func->upvaluesInfo[i];
@@ -1729,6 +1752,7 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
                 vec_push(&th->v_thisStack, TO_OBJ(instance));
                 newFrame->klass = frameClass;
                 if (newFrame->klass) {
+                    newFrame->ownCrefs = 1;
                     pushCref(newFrame->klass);
                 }
                 newFrame->callInfo = callInfo;
@@ -1808,6 +1832,7 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
         }
         newFrame->klass = frameClass;
         if (newFrame->klass) {
+            newFrame->ownCrefs = 1;
             pushCref(newFrame->klass);
         }
         newFrame->callInfo = callInfo;
@@ -2014,9 +2039,8 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
     }
     frame->foundIn = foundIn;
     frame->klass = frameClass;
-    if (frame->klass) {
-        pushCref(frame->klass);
-    }
+    frame->ownCrefs = 1;
+    pushCref(closure->cref); // can be NULL
     if (funcOffset > 0) {
         VM_DEBUG(2, "Func offset due to optargs: %d", (int)funcOffset);
     }
@@ -2178,11 +2202,7 @@ static bool findThrowJumpLoc(ObjClass *klass, ErrTagInfo *tag, bytecode_t **ipOu
             continue;
         }
         Value klassFound;
-        ObjClass *cref = NULL;
-        if (vm.curThread->v_crefStack.length > 0) {
-            cref = (ObjClass*)vec_last(&vm.curThread->v_crefStack);
-        }
-        if (!findConstantUnder(cref, AS_STRING(row->catchVal), &klassFound)) {
+        if (!findConstant(AS_STRING(row->catchVal), &klassFound)) {
             VM_DEBUG(2, "a class not found for row, next row");
             row = row->next;
             continue;
@@ -2252,7 +2272,7 @@ NORETURN static void jumpToCatchRow(Value err, bytecode_t *ipNew, CatchTable *ca
     }
     CallFrame *frame = getFrame();
     unwindThis(frame->numThis + (frame->instance ? 1 : 0) + catchRow->thisDepth,
-            frame->numCrefs + (frame->klass ? 1 : 0) + catchRow->crefDepth);
+            frame->numCrefs + frame->ownCrefs + catchRow->crefDepth);
     if (catchRow->isEnsure) push(err); // rethrown at the end of the ensure block
     getFrame()->ip = ipNew;
     DBG_ASSERT(getFrame()->closure->function->chunk->catchTbl);
@@ -3010,11 +3030,8 @@ vmLoop:
       CASE_OP(GET_CONST): {
           Value varName = READ_CONSTANT();
           Value val;
-          ObjClass *cref = NULL;
-          if (th->v_crefStack.length > 0) {
-              cref = TO_CLASS(vec_last(&th->v_crefStack));
-          }
-          if (findConstantUnder(cref, AS_STRING(varName), &val)) {
+          ObjClass *cref = currentCref();
+          if (findConstant(AS_STRING(varName), &val)) {
               VM_PUSH(val);
               DISPATCH_BOTTOM();
           }
@@ -3024,7 +3041,7 @@ vmLoop:
               Value requireScriptFn = NIL_VAL;
               tableGet(&vm.globals, OBJ_VAL(INTERN("requireScript")), &requireScriptFn);
               callFunctionValue(requireScriptFn, 1, &autoloadPath);
-              if (findConstantUnder(cref, AS_STRING(varName), &val)) {
+              if (findConstant(AS_STRING(varName), &val)) {
                   VM_PUSH(val);
                   DISPATCH_BOTTOM();
               }
@@ -3061,8 +3078,8 @@ vmLoop:
       CASE_OP(SET_CONST): {
           Value constName = READ_CONSTANT();
           Value val = VM_PEEK(0);
-          if (th->v_crefStack.length > 0) {
-              Value ownerKlass = OBJ_VAL(vec_last(&th->v_crefStack));
+          if (currentCref()) {
+              Value ownerKlass = OBJ_VAL(currentCref());
               addConstantUnder(AS_STRING(constName)->chars, val, ownerKlass);
           } else {
               tableSet(&vm.constants, constName, val);
@@ -3079,6 +3096,7 @@ vmLoop:
               OBJ_WRITE(OBJ_VAL(func), OBJ_VAL(func->method));
           }
           ObjClosure *closure = newClosure(func, NEWOBJ_FLAG_NONE);
+          setClosureCref(closure);
           VM_PUSH(OBJ_VAL(closure));
 
           for (int i = 0; i < closure->upvalueCount; i++) {
@@ -3444,8 +3462,8 @@ find_instance_method:
           Value existingClass;
           Value ownerClass = NIL_VAL;
           Table *constantTbl = &vm.constants;
-          if (th->v_crefStack.length > 0) {
-              ownerClass = OBJ_VAL(vec_last(&th->v_crefStack));
+          if (currentCref()) {
+              ownerClass = OBJ_VAL(currentCref());
               constantTbl = CLASSINFO(AS_CLASS(ownerClass))->constants;
           }
 
@@ -3464,7 +3482,7 @@ find_instance_method:
           ObjClass *klass = newClass(AS_STRING(classNm), lxObjClass, NEWOBJ_FLAG_OLD);
           VM_PUSH(OBJ_VAL(klass));
           setThis(0);
-          if (th->v_crefStack.length > 0) {
+          if (currentCref()) {
               addConstantUnder(className(klass), OBJ_VAL(klass), ownerClass);
               CLASSINFO(klass)->under = AS_OBJ(ownerClass);
           } else {
@@ -3478,8 +3496,8 @@ find_instance_method:
           Value existingMod;
           Value ownerClass = NIL_VAL;
           Table *constantTbl = &vm.constants;
-          if (th->v_crefStack.length > 0) {
-              ownerClass = OBJ_VAL(vec_last(&th->v_crefStack));
+          if (currentCref()) {
+              ownerClass = OBJ_VAL(currentCref());
               constantTbl = CLASSINFO(AS_CLASS(ownerClass))->constants;
           }
           if (tableGet(constantTbl, modName, &existingMod)) {
@@ -3497,7 +3515,7 @@ find_instance_method:
           ObjModule *mod = newModule(AS_STRING(modName), NEWOBJ_FLAG_OLD);
           VM_PUSH(OBJ_VAL(mod));
           setThis(0);
-          if (th->v_crefStack.length > 0) {
+          if (currentCref()) {
               addConstantUnder(className(TO_CLASS(mod)), OBJ_VAL(mod), ownerClass);
               CLASSINFO(mod)->under = AS_OBJ(ownerClass);
           } else {
@@ -3511,8 +3529,8 @@ find_instance_method:
           Value superclass =  VM_POP();
           Value ownerClass = NIL_VAL;
           Table *constantTbl = &vm.constants;
-          if (th->v_crefStack.length > 0) {
-              ownerClass = OBJ_VAL(vec_last(&th->v_crefStack));
+          if (currentCref()) {
+              ownerClass = OBJ_VAL(currentCref());
               constantTbl = CLASSINFO(AS_CLASS(ownerClass))->constants;
           }
           if (!IS_CLASS(superclass)) {
@@ -3536,7 +3554,7 @@ find_instance_method:
               AS_CLASS(superclass),
               NEWOBJ_FLAG_OLD
           );
-          if (th->v_crefStack.length > 0) {
+          if (currentCref()) {
               addConstantUnder(AS_STRING(classNm)->chars, OBJ_VAL(klass), ownerClass);
               CLASSINFO(klass)->under = AS_OBJ(ownerClass);
           } else {
@@ -3831,6 +3849,8 @@ InterpretResult loadScript(ObjFunction *func, char *filename) {
     ASSERT(func);
     Chunk *chunk = func->chunk;
     CallFrame *oldFrame = getFrame();
+    int numThis = THREAD()->v_thisStack.length;
+    int numCrefs = THREAD()->v_crefStack.length;
     push_EC(true);
     resetStack();
     VMExecContext *ectx = EC;
@@ -3845,6 +3865,8 @@ InterpretResult loadScript(ObjFunction *func, char *filename) {
     unhideFromGC(TO_OBJ(func));
     frame->isCCall = false;
     frame->nativeFunc = NULL;
+    frame->ownCrefs = 1;
+    pushCref(NULL); // wherever it's loaded from
 
     setupPerScriptROGlobals(filename);
 
@@ -3854,6 +3876,7 @@ InterpretResult loadScript(ObjFunction *func, char *filename) {
     // due to being caught in a calling script or never being caught.
     if (EC == ectx) {
         closeUpvalues(EC->stack);
+        unwindThis(numThis, numCrefs);
         pop_EC();
     }
     ASSERT(oldFrame == getFrame());
@@ -3921,7 +3944,7 @@ static Value doVMEval(char *src, char *filename, int lineno, ObjInstance *instan
     frame->isEval = true;
     frame->nativeFunc = NULL;
     frame->instance = NULL;
-    frame->klass = NULL;
+    frame->klass = prevFrame->klass;
 
     setupPerScriptROGlobals(filename);
 
diff --git a/vm.h b/vm.h
index e44fb5b..a74c3c3 100644
--- a/vm.h
+++ b/vm.h
@@ -45,6 +45,7 @@ typedef struct CallFrame {
     Obj *foundIn; // called by super, see ObjBoundMethod
     int numThis; // length of v_thisStack before the frame
     int numCrefs; // length of v_crefStack before the frame
+    int ownCrefs; // number of classes pushed onto it when the frame was entered
 
     // Native (C) function fields
     bool isCCall; // native call, callframe created for C (native) function call
-- 
2.43.0


From 56ebcaa1845421753750123209b720b4fa1600e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:22 +0000
Subject: [PATCH 62/64] fix: & on a block was a TypeError

---
 vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vm.c b/vm.c
index ee52896..d375ce0 100644
--- a/vm.c
+++ b/vm.c
@@ -3224,7 +3224,7 @@ vmLoop:
       }
       CASE_OP(TO_BLOCK): {
           Value func = VM_PEEK(0);
-          if (IS_NIL(func)) { // &nil works fine, just returns nil
+          if (IS_NIL(func) || IS_A_BLOCK(func)) { // &nil works fine, just returns nil
               DISPATCH_BOTTOM();
           }
           if (UNLIKELY(!isCallable(func))) {
-- 
2.43.0


From 6fbdc29556294d1d048fcc2592a3001b1f4b99bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:44 +0000
Subject: [PATCH 63/64] fix: super failed in methods of several classes:
 aliased, defined at runtime, or defined by code that runs twice

---
 memory.c  |  5 ++--
 object.c  | 27 +++++++++++++++--
 object.h  |  5 ++--
 runtime.c |  5 +++-
 value.c   |  4 +--
 vm.c      | 90 +++++++++++++++++++++++--------------------------------
 vm.h      |  1 +
 7 files changed, 74 insertions(+), 63 deletions(-)

diff --git a/memory.c b/memory.c
index 46924a4..d6824fd 100644
--- a/memory.c
+++ b/memory.c
@@ -780,9 +780,6 @@ void blackenObject(Obj *obj) {
             if (func->name) {
                 grayObject(TO_OBJ(func->name));
             }
-            if (func->method) {
-                grayObject(TO_OBJ(func->method));
-            }
             grayTable(&func->localsTable);
             LocalVariable *var; int idx = 0;
             vec_foreach(&func->variables, var, idx) {
@@ -795,6 +792,8 @@ void blackenObject(Obj *obj) {
             ObjClosure *closure = (ObjClosure*)obj;
             grayObject((Obj*)closure->function);
             grayObject((Obj*)closure->cref);
+            grayObject(closure->klass);
+            grayObject((Obj*)closure->method);
             for (int i = 0; i < closure->upvalueCount; i++) {
                 grayObject((Obj*)closure->upvalues[i]); // closed upvalues
             }
diff --git a/object.c b/object.c
index d3e5408..4a5faed 100644
--- a/object.c
+++ b/object.c
@@ -280,8 +280,6 @@ ObjFunction *newFunction(Chunk *chunk, struct sNode *funcNode, FunctionType ftyp
     function->upvalueCount = 0;
     function->localCount = 0;
     function->name = NULL;
-    function->klass = NULL;
-    function->method = NULL;
     function->funcNode = funcNode;
     function->programNode = NULL;
     function->isSingletonMethod = false;
@@ -323,10 +321,35 @@ ObjClosure *newClosure(ObjFunction *func, int flags) {
     closure->upvalueCount = func->upvalueCount;
     closure->isBlock = false;
     closure->cref = NULL;
+    closure->klass = NULL;
+    closure->method = NULL;
     GC_PROMOTE(closure, GC_GEN_YOUNG_MAX);
     return closure;
 }
 
+// Shares its variables with the closure given
+ObjClosure *dupClosure(ObjClosure *closure) {
+    ObjClosure *copy = newClosure(closure->function, NEWOBJ_FLAG_NONE);
+    for (int i = 0; i < closure->upvalueCount; i++) {
+        copy->upvalues[i] = closure->upvalues[i];
+        OBJ_WRITE(OBJ_VAL(copy), OBJ_VAL(copy->upvalues[i]));
+    }
+    copy->isBlock = closure->isBlock;
+    copy->cref = closure->cref;
+    copy->klass = closure->klass;
+    copy->method = closure->method;
+    if (copy->cref) {
+        OBJ_WRITE(OBJ_VAL(copy), OBJ_VAL(copy->cref));
+    }
+    if (copy->klass) {
+        OBJ_WRITE(OBJ_VAL(copy), OBJ_VAL(copy->klass));
+    }
+    if (copy->method) {
+        OBJ_WRITE(OBJ_VAL(copy), OBJ_VAL(copy->method));
+    }
+    return copy;
+}
+
 ObjUpvalue *newUpvalue(Value *slot, int flags) {
     ObjUpvalue *upvalue = ALLOCATE_OBJ(ObjUpvalue, OBJ_T_UPVALUE, flags);
     upvalue->closed = NIL_VAL;
diff --git a/object.h b/object.h
index 816629b..5517957 100644
--- a/object.h
+++ b/object.h
@@ -135,8 +135,6 @@ typedef struct ObjFunction {
   Table localsTable; // maps variable names to slot indices
   vec_void_t scopes;
   vec_void_t variables;
-  Obj *klass; // ObjClass* or ObjModule* (if method)
-  struct ObjFunction *method; // method the function is written in, if any
   struct sNode *funcNode;
   struct sNode *programNode;
   struct Upvalue *upvaluesInfo;
@@ -191,6 +189,8 @@ typedef struct ObjClosure {
   int upvalueCount; // always same as function->upvalueCount
   bool isBlock;
   struct ObjClass *cref; // class or module it was written in, for constant lookup
+  Obj *klass; // ObjClass* or ObjModule* (if method)
+  struct ObjClosure *method; // method it was written in, if any
 } ObjClosure;
 
 typedef Value (*NativeFn)(int argCount, Value *args);
@@ -656,6 +656,7 @@ ObjNative *newNative(ObjString *name, NativeFn function, int flags);
 ObjBoundMethod *newBoundMethod(ObjInstance *receiver, Obj *callable, int flags);
 ObjInternal *newInternalObject(bool isRealObject, void *data, size_t dataSz, GCMarkFunc markFn, GCFreeFunc freeFn, int flags);
 ObjClosure *newClosure(ObjFunction *function, int flags);
+ObjClosure  *dupClosure(ObjClosure *closure);
 ObjUpvalue *newUpvalue(Value *slot, int flags);
 ObjScope *newScope(ObjFunction *userFunc);
 
diff --git a/runtime.c b/runtime.c
index 411b89b..b0abadc 100644
--- a/runtime.c
+++ b/runtime.c
@@ -1060,7 +1060,7 @@ Value lxClassAliasMethod(int argCount, Value *args) {
     if (!method) {
         throwErrorFmt(lxArgErrClass, "Method '%s' not found for aliasMethod", AS_CSTRING(oldName));
     }
-    defineMethod(klass, AS_STRING(newName), OBJ_VAL(method));
+    addMethod(klass, AS_STRING(newName), OBJ_VAL(method));
     return NIL_VAL;
 }
 
@@ -1091,6 +1091,9 @@ Value lxClassDefineMethod(int argCount, Value *args) {
     if (!isCallable(func)) {
         throwErrorFmt(lxArgErrClass, "Method must be a callable");
     }
+    if (IS_CLOSURE(func)) { // it can be made a method of other classes too
+        func = OBJ_VAL(dupClosure(AS_CLOSURE(func)));
+    }
     defineMethod(self, AS_STRING(name), func);
     return self;
 }
diff --git a/value.c b/value.c
index aa60b60..e605430 100644
--- a/value.c
+++ b/value.c
@@ -572,8 +572,8 @@ void fillCallableName(Value callable, char *buf, size_t buflen) {
         }
     } else if (IS_CLOSURE(callable)) {
         ObjFunction *func = AS_CLOSURE(callable)->function;
-        if (func->klass) {
-            ObjClass *klass = (ObjClass*)func->klass;
+        if (AS_CLOSURE(callable)->klass) {
+            ObjClass *klass = (ObjClass*)AS_CLOSURE(callable)->klass;
             char *classNm = className(klass);
             bool isStatic = func->isSingletonMethod;
             snprintf(buf, buflen, "%s%c%s", classNm, isStatic ? '.' : '#',
diff --git a/vm.c b/vm.c
index d375ce0..20f864f 100644
--- a/vm.c
+++ b/vm.c
@@ -1093,19 +1093,24 @@ static Obj *lookupMethodFrom(Obj *classLookup, ObjString *propName, MethodType m
     return NULL;
 }
 
+static inline bool isClassOrIncludes(Obj *cur, Obj *klass) {
+    return cur == klass || (cur->type == OBJ_T_ICLASS &&
+            TO_OBJ(((ObjIClass*)cur)->mod) == klass);
+}
+
 // The class or included module of the method that `super` is used in, going up from the
 // class given. A module can be in there more than once.
-static Obj *superLookupStart(ObjFunction *method, ObjClass *klass, Value from) {
+static Obj *superLookupStart(ObjClosure *method, Obj *klass, Value from) {
     CallFrame *frame = getFrame();
-    while (frame && !(frame->closure && frame->closure->function == method)) {
+    while (frame && frame->closure != method) {
         frame = frame->prev;
     }
-    if (frame && frame->foundIn) {
+    // an alias can be found in another class than the one of the method
+    if (frame && frame->foundIn && isClassOrIncludes(frame->foundIn, klass)) {
         return frame->foundIn;
     }
     Obj *cur = AS_OBJ(from);
-    while (cur && cur != TO_OBJ(klass) && !(cur->type == OBJ_T_ICLASS &&
-                TO_OBJ(((ObjIClass*)cur)->mod) == TO_OBJ(klass))) {
+    while (cur && !isClassOrIncludes(cur, klass)) {
         cur = CLASS_SUPER(cur);
     }
     return cur;
@@ -1166,35 +1171,21 @@ void propertySet(ObjInstance *obj, ObjString *propName, Value rval) {
     }
 }
 
-static ObjFunction *funcFromCallable(Value callable) {
-  if (IS_FUNCTION(callable)) { return AS_FUNCTION(callable); }
-  if (IS_CLASS(callable)) {
-    Obj *methodObj = instanceFindMethod(AS_INSTANCE(callable), INTERN("init"));
-    if (!methodObj) { return NULL; }
-    Value method = OBJ_VAL(methodObj);
-    return funcFromCallable(method);
-  } else if (IS_CLOSURE(callable)) {
-    return AS_CLOSURE(callable)->function;
-  } else if (IS_NATIVE_FUNCTION(callable)) {
-    return NULL;
-  } else if (IS_BOUND_METHOD(callable)) {
-    ObjBoundMethod *bmethod = AS_BOUND_METHOD(callable);
-    Obj *callable = bmethod->callable; // native function or user-defined function (ObjClosure)
-    return funcFromCallable(OBJ_VAL(callable));
-  } else {
-    UNREACHABLE_RETURN(NULL);
-  }
+static void setMethodClass(ObjClosure *closure, Value classOrMod) {
+    closure->klass = AS_OBJ(classOrMod);
+    OBJ_WRITE(OBJ_VAL(closure), classOrMod);
 }
 
 void defineMethod(Value classOrMod, ObjString *name, Value method) {
-    ASSERT(isCallable(method));
-    ObjFunction *func = funcFromCallable(method);
-    // FIXME: a function can be attached to multiple classes because of
-    // runtime defineMethod(). I don't think this field should exist anymore,
-    // not sure if it's currently used anywhere.
-    if (func) {
-      func->klass = AS_OBJ(classOrMod);
+    if (IS_CLOSURE(method)) {
+        setMethodClass(AS_CLOSURE(method), classOrMod);
     }
+    addMethod(classOrMod, name, method);
+}
+
+// The method can be one of another class (or a bound method), its class doesn't change
+void addMethod(Value classOrMod, ObjString *name, Value method) {
+    ASSERT(isCallable(method));
     if (IS_CLASS(classOrMod)) {
         ObjClass *klass = AS_CLASS(classOrMod);
         const char *klassName = CLASSINFO(klass)->name ? CLASSINFO(klass)->name->chars : "(anon)";
@@ -1226,7 +1217,7 @@ static void defineStaticMethod(ObjString *name) {
     ObjFunction *func = AS_CLOSURE(method)->function;
     Value classOrMod = OBJ_VAL(vm.curThread->thisObj);
     ASSERT(IS_CLASS(classOrMod) || IS_MODULE(classOrMod));
-    func->klass = AS_OBJ(classOrMod);
+    setMethodClass(AS_CLOSURE(method), classOrMod);
     func->isSingletonMethod = true;
     ObjClass *metaClass = singletonClass(AS_OBJ(classOrMod));
     VM_DEBUG(2, "defining static method '%s#%s'", CLASSINFO(metaClass)->name->chars, name->chars);
@@ -1242,10 +1233,7 @@ static void defineGetter(ObjString *name) {
     ASSERT(IS_CLOSURE(method));
     Value classOrMod = OBJ_VAL(vm.curThread->thisObj);
     ASSERT(IS_CLASS(classOrMod) || IS_MODULE(classOrMod));
-    ObjFunction *func = AS_CLOSURE(method)->function;
-    if (func) {
-      func->klass = AS_OBJ(classOrMod);
-    }
+    setMethodClass(AS_CLOSURE(method), classOrMod);
     if (IS_CLASS(classOrMod)) {
         ObjClass *klass = AS_CLASS(classOrMod);
         VM_DEBUG(2, "defining getter '%s'", name->chars);
@@ -1268,10 +1256,7 @@ static void defineSetter(ObjString *name) {
     Value method = peek(0); // function
     ASSERT(IS_CLOSURE(method));
     Value classOrMod = OBJ_VAL(vm.curThread->thisObj);
-    ObjFunction *func = AS_CLOSURE(method)->function;
-    if (func) {
-      func->klass = AS_OBJ(classOrMod);
-    }
+    setMethodClass(AS_CLOSURE(method), classOrMod);
     if (IS_CLASS(classOrMod)) {
         ObjClass *klass = AS_CLASS(classOrMod);
         VM_DEBUG(2, "defining setter '%s'", name->chars);
@@ -3090,13 +3075,13 @@ vmLoop:
           Value funcVal = READ_CONSTANT();
           ASSERT(IS_FUNCTION(funcVal));
           ObjFunction *func = AS_FUNCTION(funcVal);
-          ObjFunction *outer = getFrame()->closure->function;
-          func->method = outer->klass ? outer : outer->method; // for `super`
-          if (func->method) {
-              OBJ_WRITE(OBJ_VAL(func), OBJ_VAL(func->method));
-          }
           ObjClosure *closure = newClosure(func, NEWOBJ_FLAG_NONE);
           setClosureCref(closure);
+          ObjClosure *outer = getFrame()->closure;
+          closure->method = outer->klass ? outer : outer->method; // for `super`
+          if (closure->method) {
+              OBJ_WRITE(OBJ_VAL(closure), OBJ_VAL(closure->method));
+          }
           VM_PUSH(OBJ_VAL(closure));
 
           for (int i = 0; i < closure->upvalueCount; i++) {
@@ -3369,21 +3354,20 @@ find_instance_method:
       }
       CASE_OP(GET_SUPER): {
           Value methodName = READ_CONSTANT();
-          ObjFunction *func = frame->closure->function;
-          if (!func->klass) { // function written in a method
-              func = func->method;
+          ObjClosure *closure = frame->closure;
+          if (!closure->klass) { // function written in a method
+              closure = closure->method;
           }
-          // FIXME: should be frame->closure->klass, functions can be used in multiple classes
-          ObjClass *klass = func ? (ObjClass*)func->klass : NULL; // NOTE: class or module
+          Obj *klass = closure ? closure->klass : NULL; // NOTE: class or module
           if (UNLIKELY(!klass || !th->thisObj || !IS_INSTANCE_LIKE(OBJ_VAL(th->thisObj)))) {
               throwErrorFmt(lxErrClass, "'super' can only be used in methods");
           }
           Value instanceVal = OBJ_VAL(th->thisObj);
           Obj *superMethod = NULL;
           Obj *foundIn = NULL;
-          if (func->isSingletonMethod) {
+          if (closure->function->isSingletonMethod) {
               if (IS_CLASS(instanceVal)) {
-                  Obj *iclass = superLookupStart(func, klass, instanceVal);
+                  Obj *iclass = superLookupStart(closure, klass, instanceVal);
                   if (iclass) {
                       superMethod = classFindSuperStaticMethod(AS_CLASS(instanceVal), iclass,
                               AS_STRING(methodName), &foundIn);
@@ -3391,10 +3375,10 @@ find_instance_method:
               }
           } else {
               ObjInstance *inst = AS_INSTANCE(instanceVal);
-              Obj *iclass = superLookupStart(func, klass,
+              Obj *iclass = superLookupStart(closure, klass,
                   OBJ_VAL(inst->singletonKlass ? inst->singletonKlass : inst->klass));
               enum MethodType mtype = METHOD_TYPE_METHOD;
-              if (func->ftype == FUN_TYPE_GETTER) {
+              if (closure->function->ftype == FUN_TYPE_GETTER) {
                   mtype = METHOD_TYPE_GETTER;
               }
               Value method;
diff --git a/vm.h b/vm.h
index a74c3c3..7ccb44b 100644
--- a/vm.h
+++ b/vm.h
@@ -423,6 +423,7 @@ void propertySet(ObjInstance *obj, ObjString *propName, Value rval);
 bool lookupMethod(ObjInstance *obj, Obj *klass, ObjString *methodName, MethodType mtype, Value *ret, bool lookInGivenClass);
 Obj *findMethod(Obj *klass, ObjString *methodName);
 void defineMethod(Value classOrMod, ObjString *name, Value method);
+void addMethod(Value classOrMod, ObjString *name, Value method);
 
 // debug
 void printVMStack(FILE *f, LxThread *th);
-- 
2.43.0


From b4aee7eb9540d75ffe9b80abf5b54cdcfa0daaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:43 +0000
Subject: [PATCH 64/64] fix: a collection during Binding#eval read a freed list
 of classes

---
 vm.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vm.c b/vm.c
index 20f864f..b1de767 100644
--- a/vm.c
+++ b/vm.c
@@ -3998,8 +3998,11 @@ static Value doVMBindingEval(LxBinding *binding, char *src, char *filename, int
     LxThread *th = THREAD();
     vec_void_t old_cref_stack;
     memcpy(&old_cref_stack, &th->v_crefStack, sizeof(vec_void_t));
-    memcpy(&th->v_crefStack, &binding->v_crefStack, sizeof(vec_void_t));
-    int bindingCrefs = th->v_crefStack.length;
+    vec_init(&th->v_crefStack); // a copy, the code pushes to it
+    ObjClass *bindingCref = NULL; int crefIdx = 0;
+    vec_foreach(&binding->v_crefStack, bindingCref, crefIdx) {
+        vec_push(&th->v_crefStack, bindingCref);
+    }
     CallFrame *frame = pushFrame(func); // FIXME: wasted a OBJ_T_SCOPE allocation
     frame->scope = scope;
     frame->start = 0;
@@ -4026,9 +4029,7 @@ static Value doVMBindingEval(LxBinding *binding, char *src, char *filename, int
 
     vm_protect(vm_run_protect, NULL, NULL, &status);
 
-    // classes entered by the code can have moved its elements
-    memcpy(&binding->v_crefStack, &th->v_crefStack, sizeof(vec_void_t));
-    binding->v_crefStack.length = bindingCrefs;
+    vec_deinit(&th->v_crefStack);
     memcpy(&th->v_crefStack, &old_cref_stack, sizeof(vec_void_t));
 
     if (status == TAG_RAISE) {
-- 
2.43.0

