From 0873e5d59b2719a074560f165a84e32d27219b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:34 +0000
Subject: [PATCH 01/87] fix: break and continue inside an any block leave the
 block's scope too (endless loop)

---
 modelchecker/thread.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 6ab6506..9de2c46 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -773,6 +773,10 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		for !(strings.HasSuffix(currentFrame.pc, ".ForStmt") || strings.HasSuffix(currentFrame.pc, ".WhileStmt")) {
 			currentFrame.pc = RemoveLastBlock(currentFrame.pc)
 			currentFrame.scope = currentFrame.scope.parent
+			if strings.HasSuffix(currentFrame.pc, ".AnyStmt") {
+				// An any statement with a block has a scope of its own around the block's scope.
+				currentFrame.scope = currentFrame.scope.parent
+			}
 		}
 		currentFrame.scope = currentFrame.scope.parent
 		currentFrame.pc = RemoveLastLoop(currentFrame.pc)
@@ -785,6 +789,10 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 				break
 			}
 			currentFrame.scope = currentFrame.scope.parent
+			if strings.HasSuffix(currentFrame.pc, ".AnyStmt") {
+				// An any statement with a block has a scope of its own around the block's scope.
+				currentFrame.scope = currentFrame.scope.parent
+			}
 		}
 		currentFrame.pc = currentFrame.pc + ".Block.$"
 		return nil, false
-- 
2.43.0


From a0d58893371548c5a3d71c8f43c647e11b189cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:00 +0000
Subject: [PATCH 02/87] fix: pass and x = oneof directly in a oneof block do
 not run the next alternative too

---
 modelchecker/thread.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 9de2c46..673073d 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -586,6 +586,10 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 	if stmt.PyStmt != nil {
 		if stmt.PyStmt.GetCode() == "pass" {
 			t.Process.Enable()
+			if flow := currentFrame.scope.flow; flow == ast.Flow_FLOW_ONEOF || flow == ast.Flow_FLOW_PARALLEL {
+				// The statement that follows is another alternative, not the next statement.
+				return t.executeEndOfStatement()
+			}
 			t.currentFrame().pc = t.FindNextProgramCounter()
 			return nil, false
 		}
@@ -713,6 +717,9 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 
 			if stmt.AnyStmt.Block != nil {
 				fork.currentThread().currentFrame().pc = fmt.Sprintf("%s.AnyStmt.Block", currentFrame.pc)
+			} else if currentFrame.scope.flow == ast.Flow_FLOW_ONEOF {
+				// The statement that follows is another alternative, not the next statement.
+				fork.currentThread().currentFrame().pc = EndOfBlock(currentFrame.pc)
 			} else {
 				fork.currentThread().currentFrame().pc = t.FindNextProgramCounter()
 			}
-- 
2.43.0


From 473e096b5c8983c776b44bdfe31fad43d7a34ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 03/87] fix: number role instances per process, not with a
 counter shared by all explored branches

---
 lib/starlark_role.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/starlark_role.go b/lib/starlark_role.go
index d247ec4..7f4edee 100644
--- a/lib/starlark_role.go
+++ b/lib/starlark_role.go
@@ -204,11 +204,13 @@ func CreateRoleBuiltin(astRole *ast.Role, symmetric bool, roles *[]*Role) *starl
 	return starlark.NewBuiltin(name, func(t *starlark.Thread, b *starlark.Builtin,
 		args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 		params := FromKeywords(starlark.String("params"), kwargs)
-		nextRef := roleRefs[name]
-		if roleRefs[name] > 0 {
-			roleRefs[name]++
-		} else {
-			roleRefs[name] = 1
+		// Number the instances within this process only: a counter shared by all branches would
+		// give the same instance a different reference depending on the exploration order.
+		nextRef := int64(0)
+		for _, role := range *roles {
+			if role.Name == name && role.GetRef() >= nextRef {
+				nextRef = role.GetRef() + 1
+			}
 		}
 		fields := FromStringDict(starlark.String("fields"), starlark.StringDict{})
 		initValues := FromStringDict(starlark.String("init_values"), starlark.StringDict{})
-- 
2.43.0


From db0a4685aa92458c33c298c952266656ac58f97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 04/87] fix: nested blocks as alternatives of oneof and
 parallel blocks; parallel yield points keep their identity

---
 modelchecker/protopath.go |  7 +++++-
 modelchecker/thread.go    | 46 +++++++++++++++++++++++++++++++--------
 2 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/modelchecker/protopath.go b/modelchecker/protopath.go
index a282779..bd5e032 100644
--- a/modelchecker/protopath.go
+++ b/modelchecker/protopath.go
@@ -212,7 +212,12 @@ func RemoveLastSegment(path string, substr string) string {
 }
 
 func EndOfBlock(path string) string {
-	return replaceLastStmts(path, "$")
+	matches := re.FindAllStringIndex(path, -1)
+	if matches == nil {
+		return path
+	}
+	// The statement that ended may be a nested one (".IfStmt.Branches[0]"): that part goes as well.
+	return path[:matches[len(matches)-1][0]] + "$"
 }
 
 func replaceLastStmts(input, replacement string) string {
diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 673073d..d7fa0a6 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -276,6 +276,9 @@ type CallFrame struct {
 	FileIndex int
 	// pc is the program counter, pointing at the next instruction to execute.
 	pc string
+	// parallelBlock is set between two statements of a parallel block, where pc is empty: the path of the
+	// block, with a suffix if this is a yield point.
+	parallelBlock string
 
 	// Name is the full path of the function/action being executed.
 	Name string
@@ -307,6 +310,7 @@ func (c *CallFrame) HashCode() string {
 	// if program counter is at different stmts.
 	h := c.scope.Hash()
 	h.Write([]byte(c.pc))
+	h.Write([]byte(c.parallelBlock))
 	if c.obj != nil {
 		h.Write([]byte(c.obj.RefString()))
 	}
@@ -326,6 +330,7 @@ func (c *CallFrame) Clone(refs map[starlark.Value]starlark.Value, permutations m
 	newFrame := &CallFrame{
 		FileIndex:            c.FileIndex,
 		pc:                   c.pc,
+		parallelBlock:        c.parallelBlock,
 		Name:                 c.Name,
 		scope:                newScope,
 		vars:                 newVars,
@@ -470,7 +475,10 @@ func (t *Thread) Execute() ([]*Process, bool) {
 	defer t.Process.propagateEnabled()
 	for t.Stack.Len() > 0 {
 		for t.currentFrame().pc == "" || strings.HasSuffix(t.currentFrame().pc, ".Block.$") {
-			yield = t.executeEndOfBlock()
+			forks, yield = t.executeEndOfBlockWithForks()
+			if len(forks) > 0 {
+				return forks, yield
+			}
 			if yield {
 				if !hasNonEndOfBlockStmts && t.Process.GetThreadsCount() < initialThreads && t.Process.Parent != nil && t.Process.Parent.Enabled {
 					t.Process.Fairness = t.Fairness
@@ -521,7 +529,11 @@ func (t *Thread) Execute() ([]*Process, bool) {
 				return forks, true
 			}
 			for t.Stack.Len() > 0 && (t.currentFrame().pc == "" || strings.HasSuffix(t.currentFrame().pc, ".Block.$")) {
-				t.executeEndOfBlock()
+				// When the block was one statement of a parallel block, its siblings are still to run.
+				forks, _ = t.executeEndOfBlockWithForks()
+				if len(forks) > 0 {
+					break
+				}
 			}
 
 			return forks, true
@@ -1187,6 +1199,12 @@ func removeElement[T any](slice []T, index int) []T {
 func (t *Thread) executeEndOfStatement() ([]*Process, bool) {
 	enabled := t.Process.Enabled
 	currentFrame := t.currentFrame()
+	if parent := currentFrame.scope.parent; strings.HasSuffix(currentFrame.pc, ".AnyStmt") && parent != nil &&
+		(parent.flow == ast.Flow_FLOW_ONEOF || parent.flow == ast.Flow_FLOW_PARALLEL) {
+		// The any statement is itself one alternative of the enclosing block; that block's rule applies.
+		currentFrame.scope = parent
+		currentFrame.pc = RemoveLastSegment(currentFrame.pc, ".AnyStmt")
+	}
 	switch currentFrame.scope.flow {
 	case ast.Flow_FLOW_ATOMIC:
 		currentFrame.pc = t.FindNextProgramCounter()
@@ -1225,6 +1243,10 @@ func (t *Thread) executeEndOfStatement() ([]*Process, bool) {
 			forks = append(forks, fork)
 		}
 		currentFrame.pc = ""
+		currentFrame.parallelBlock = blockPath
+		if enabled {
+			currentFrame.parallelBlock += ":yield"
+		}
 		return forks, enabled
 	default:
 		panic(fmt.Sprintf("Unknown flow type at %s", t.currentPc()))
@@ -1232,9 +1254,16 @@ func (t *Thread) executeEndOfStatement() ([]*Process, bool) {
 }
 
 func (t *Thread) executeEndOfBlock() bool {
+	_, yield := t.executeEndOfBlockWithForks()
+	return yield
+}
+
+// executeEndOfBlockWithForks also returns the alternatives to continue with, when the block that ended
+// is one of the statements of a parallel block.
+func (t *Thread) executeEndOfBlockWithForks() ([]*Process, bool) {
 	frame := t.currentFrame()
 	if frame == nil {
-		return false
+		return nil, false
 	}
 	for {
 
@@ -1270,7 +1299,7 @@ func (t *Thread) executeEndOfBlock() bool {
 
 			if t.Stack.Len() == 0 {
 				t.Process.removeCurrentThread()
-				return true
+				return nil, true
 			} else {
 				frame = t.currentFrame()
 				// if protobuf is of type Function then it is a function call.
@@ -1299,8 +1328,7 @@ func (t *Thread) executeEndOfBlock() bool {
 					}
 					t.Process.updateAllVariablesInScope(returnedVars)
 					t.Process.RecordReturn(t.currentFrame(), oldFrame, starlark.None, oldScope.flow)
-					_, yield := t.executeEndOfStatement()
-					return yield
+					return t.executeEndOfStatement()
 				}
 
 			}
@@ -1308,7 +1336,7 @@ func (t *Thread) executeEndOfBlock() bool {
 		frame.pc = RemoveLastBlock(t.currentPc())
 		forks, yield := t.executeEndOfStatement()
 		if len(forks) > 0 || yield {
-			return yield
+			return forks, yield
 		}
 
 		if t.currentPc() != "" {
@@ -1318,9 +1346,9 @@ func (t *Thread) executeEndOfBlock() bool {
 	if frame.scope.flow == ast.Flow_FLOW_SERIAL ||
 		frame.scope.flow == ast.Flow_FLOW_PARALLEL {
 		// Only yield if there was at least one executable statement
-		return t.Process.Enabled
+		return nil, t.Process.Enabled
 	}
-	return false
+	return nil, false
 }
 
 func (t *Thread) CopyInitValuesForEphemeralFields(oldFrame *CallFrame) {
-- 
2.43.0


From 314af2dd042f618541ddba4397009d9124ffe396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 05/87] fix: a call directly in a oneof action of a role no
 longer dereferences nil

---
 modelchecker/thread.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index d7fa0a6..aab3912 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -1021,7 +1021,11 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 			}
 			newFrame.callerAssignVarNames = stmt.CallStmt.Vars
 			t.Process.Labels = append(t.Process.Labels, newFrame.Name+".call")
-			t.Process.RecordCall(frame, newFrame, parentScope.flow)
+			callerFlow := ast.Flow_FLOW_ONEOF // of an action that is oneof at its outermost level
+			if parentScope != nil {
+				callerFlow = parentScope.flow
+			}
+			t.Process.RecordCall(frame, newFrame, callerFlow)
 
 			if stub == nil /*|| (stub.Channel.IsSynchronous() && stub.Channel.IsOrdered())*/ {
 				// TODO: Handle args
-- 
2.43.0


From 6639e44e26c0bd203e1baaab7d394ea173a21dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 06/87] fix: a choice point is not the same state as a yield
 point with the same variables and program counters

---
 modelchecker/processor.go | 12 ++++++++++++
 modelchecker/thread.go    |  6 +-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index cf59137..d8c2ea1 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -195,6 +195,11 @@ type Process struct {
 	// Not propagated by Fork(): children start with IsYield=false.
 	IsYield bool `json:"-"`
 
+	// choicePoint: true when execution stopped at a choice instead of a yield
+	// point. Other threads may not run there, so it is a different state from
+	// the yield point with the same variables and program counters.
+	choicePoint bool
+
 	Roles    []*lib.Role          `json:"roles"`
 	Channels map[int]*lib.Channel `json:"channels"`
 
@@ -424,6 +429,8 @@ func (p *Process) CloneWithRefs(permutations map[*lib.SymmetricValue][]*lib.Symm
 		Parent:    p,
 		Evaluator: p.Evaluator,
 
+		choicePoint: p.choicePoint,
+
 		durabilitySpec: p.durabilitySpec,
 		guidedTrace:    p.guidedTrace,
 
@@ -608,6 +615,9 @@ func (p *Process) HashCode() string {
 	}
 
 	h := sha256.New()
+	if p.choicePoint {
+		h.Write([]byte("choice"))
+	}
 
 	// Use the Current thread's hash first, not the index
 	currentThreadHash := ""
@@ -2009,6 +2019,7 @@ func (p *Processor) probeNextStates(process *Process) []*NextTransition {
 			if n.ThreadProgress {
 				n.Enable()
 			}
+			n.choicePoint = !yield
 			h := n.HashCode()
 			if seenIntermediate[h] {
 				continue
@@ -2366,6 +2377,7 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 		}
 	}
 
+	node.choicePoint = !yield
 	other, found, canonicalHash := p.findVisitedSymmetric(node)
 	if p.experimentalNoGraph {
 		// No-graph mode: visited stores hashes only (values are nil). Skip
diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index aab3912..dd804db 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -276,8 +276,7 @@ type CallFrame struct {
 	FileIndex int
 	// pc is the program counter, pointing at the next instruction to execute.
 	pc string
-	// parallelBlock is set between two statements of a parallel block, where pc is empty: the path of the
-	// block, with a suffix if this is a yield point.
+	// parallelBlock is the path of the block, set between two statements of a parallel block (pc is empty there).
 	parallelBlock string
 
 	// Name is the full path of the function/action being executed.
@@ -1248,9 +1247,6 @@ func (t *Thread) executeEndOfStatement() ([]*Process, bool) {
 		}
 		currentFrame.pc = ""
 		currentFrame.parallelBlock = blockPath
-		if enabled {
-			currentFrame.parallelBlock += ":yield"
-		}
 		return forks, enabled
 	default:
 		panic(fmt.Sprintf("Unknown flow type at %s", t.currentPc()))
-- 
2.43.0


From 93e25e20f75edf4f204d1361e7b676f6b9e24832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 07/87] fix: the arguments of a function in progress are part
 of the state's identity

---
 modelchecker/thread.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index dd804db..a27016b 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -310,6 +310,13 @@ func (c *CallFrame) HashCode() string {
 	h := c.scope.Hash()
 	h.Write([]byte(c.pc))
 	h.Write([]byte(c.parallelBlock))
+	if len(c.vars) > 0 {
+		args, err := StringDictToJson(c.vars)
+		if err != nil {
+			panic(err)
+		}
+		h.Write(args)
+	}
 	if c.obj != nil {
 		h.Write([]byte(c.obj.RefString()))
 	}
-- 
2.43.0


From bb38bdee1ae434b60c6c0e5e8578e35634eea654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 08/87] fix: check transition assertions and refinement between
 yield points and not at choices inside a step

---
 main.go                    |  4 ++++
 modelchecker/invariants.go | 38 ++++++++++++++++++++++++++++++++++----
 modelchecker/processor.go  |  9 +++++----
 3 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/main.go b/main.go
index 58b645c..468b131 100644
--- a/main.go
+++ b/main.go
@@ -428,6 +428,10 @@ func ComposeTransitions(f *ast.File, joinHashes modelchecker.JoinHashes, roots [
 				processFrom := modelchecker.NewProcess("yield", []*ast.File{f}, nil)
 				processFrom.Enable()
 				processFrom.Heap = modelchecker.NewComposedHeap(composedFrom)
+				for _, t := range ts {
+					processFrom.Roles = append(processFrom.Roles, t.First.Roles...)
+					processTo.Roles = append(processTo.Roles, t.Second.Roles...)
+				}
 				processTo.Parent = processFrom
 				failedTransitionInvariants := modelchecker.CheckTransitionInvariants(processTo)
 				if len(failedTransitionInvariants) > 0 && len(failedTransitionInvariants[0]) > 0 {
diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index d6104ac..c055bb8 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -1,6 +1,7 @@
 package modelchecker
 
 import (
+	"bytes"
 	ast "fizz/proto"
 	"fmt"
 	"maps"
@@ -28,7 +29,8 @@ func CheckRefinement(process *Process, refinement *ast.Refinement, joinHashes Jo
 	if process.Parent == nil {
 		return true
 	}
-	if process.Heap.CachedHashCode == process.Parent.Heap.CachedHashCode && process.Parent.Heap.CachedHashCode != "" {
+	before := process.previousYield()
+	if process.sameStateVariables(before) {
 		return true
 	}
 	fnName := ""
@@ -38,7 +40,7 @@ func CheckRefinement(process *Process, refinement *ast.Refinement, joinHashes Jo
 			break
 		}
 	}
-	fromState := ExecFunction(process.Parent.CloneForAssert(nil, 0), fnName).String()
+	fromState := ExecFunction(before.CloneForAssert(nil, 0), fnName).String()
 	toState := ExecFunction(process.CloneForAssert(nil, 0), fnName).String()
 
 	key := HashKey(fromState + "," + toState)
@@ -50,11 +52,39 @@ func CheckRefinement(process *Process, refinement *ast.Refinement, joinHashes Jo
 	return true
 }
 
+// previousYield returns the process at the yield point from which the current
+// step started. The processes in between, where execution stopped only to make
+// a non-deterministic choice, are not observable states.
+func (p *Process) previousYield() *Process {
+	before := p.Parent
+	for before.choicePoint && before.Parent != nil {
+		before = before.Parent
+	}
+	return before
+}
+
+// sameStateVariables reports whether the state variables, including the fields
+// of the roles, are the same in both processes.
+func (p *Process) sameStateVariables(other *Process) bool {
+	if len(p.Roles) != len(other.Roles) || p.Heap.ToJson() != other.Heap.ToJson() {
+		return false
+	}
+	for i, role := range p.Roles {
+		a, errA := role.MarshalJSON()
+		b, errB := other.Roles[i].MarshalJSON()
+		if errA != nil || errB != nil || !bytes.Equal(a, b) {
+			return false
+		}
+	}
+	return true
+}
+
 func CheckTransitionInvariants(process *Process) map[int][]int {
 	if process.Parent == nil {
 		return nil
 	}
-	if process.Heap.CachedHashCode == process.Parent.Heap.CachedHashCode && process.Parent.Heap.CachedHashCode != "" {
+	if process.sameStateVariables(process.previousYield()) {
+		// Stutter step: satisfied by definition.
 		return nil
 	}
 	results := make(map[int][]int)
@@ -227,7 +257,7 @@ func CheckTransitionAssertion(process *Process, invariant *ast.Invariant, index
 	}
 	cloned := process.CloneForAssert(nil, 0)
 	cloned.Heap.state[afterParam] = starlarkstruct.FromStringDict(starlark.String(afterParam), cloned.Heap.state)
-	cloned.Heap.state[beforeParam] = starlarkstruct.FromStringDict(starlark.String(beforeParam), process.Parent.Heap.state)
+	cloned.Heap.state[beforeParam] = starlarkstruct.FromStringDict(starlark.String(beforeParam), process.previousYield().Heap.state)
 
 	return execAssertionFunction(cloned, index, invariant)
 }
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index d8c2ea1..76df3ed 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2347,14 +2347,15 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	// So, we might miss some invariants. However, since the yield points are
 	// determined by the statement, and we include program counter in the hash code,
 	// this may not be an issue.
-	if node.actionDepth > 0 {
+	//
+	// Transitions go from one yield point to the next: where execution stopped
+	// only to make a non-deterministic choice there is no transition to check.
+	if yield && node.actionDepth > 0 {
 		failedInvariants := CheckTransitionInvariants(node.Process)
 		if len(failedInvariants[0]) > 0 {
 			node.Inbound[0].FailedInvariants = failedInvariants
 			if !p.config.ContinuePathOnInvariantFailures {
-				if yield {
-					node.Name = "yield"
-				}
+				node.Name = "yield"
 				node.Attach()
 				p.intermediateStates.ClearAll()
 				return true, false
-- 
2.43.0


From d3d8cf4281ccbae7ca980fedeed736b66489791e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 09/87] fix: a choice in the middle of a step is a different
 state for each origin when transitions are checked

---
 modelchecker/invariants.go | 37 ++++++++++++++++++++++++++++---------
 modelchecker/processor.go  |  7 +++++++
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index c055bb8..327b4bb 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -1,7 +1,6 @@
 package modelchecker
 
 import (
-	"bytes"
 	ast "fizz/proto"
 	"fmt"
 	"maps"
@@ -66,17 +65,37 @@ func (p *Process) previousYield() *Process {
 // sameStateVariables reports whether the state variables, including the fields
 // of the roles, are the same in both processes.
 func (p *Process) sameStateVariables(other *Process) bool {
-	if len(p.Roles) != len(other.Roles) || p.Heap.ToJson() != other.Heap.ToJson() {
-		return false
+	return p.Heap.ToJson() == other.Heap.ToJson() && p.rolesJson() == other.rolesJson()
+}
+
+// rolesJson returns the fields of all the roles.
+func (p *Process) rolesJson() string {
+	var buf strings.Builder
+	for _, role := range p.Roles {
+		bytes, err := role.MarshalJSON()
+		if err != nil {
+			panic(err)
+		}
+		buf.Write(bytes)
+		buf.WriteByte('\n')
 	}
-	for i, role := range p.Roles {
-		a, errA := role.MarshalJSON()
-		b, errB := other.Roles[i].MarshalJSON()
-		if errA != nil || errB != nil || !bytes.Equal(a, b) {
-			return false
+	return buf.String()
+}
+
+// hasTransitionChecks reports whether the steps between yield points are
+// checked: by a transition assertion or for a refinement.
+func (p *Process) hasTransitionChecks() bool {
+	for _, file := range p.Files {
+		if len(file.Refinements) > 0 {
+			return true
+		}
+		for _, invariant := range file.Invariants {
+			if invariant.Block != nil && slices.Contains(invariant.TemporalOperators, "transition") {
+				return true
+			}
 		}
 	}
-	return true
+	return false
 }
 
 func CheckTransitionInvariants(process *Process) map[int][]int {
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 76df3ed..28236ca 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -617,6 +617,13 @@ func (p *Process) HashCode() string {
 	h := sha256.New()
 	if p.choicePoint {
 		h.Write([]byte("choice"))
+		if p.Parent != nil && p.hasTransitionChecks() {
+			// The choice is in the middle of a transition: where the transition
+			// started matters when it is checked at the next yield point.
+			before := p.previousYield()
+			h.Write([]byte(before.Heap.ToJson()))
+			h.Write([]byte(before.rolesJson()))
+		}
 	}
 
 	// Use the Current thread's hash first, not the index
-- 
2.43.0


From e132a4425bdd2161d65a054aec438ec34b817638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 10/87] fix: deadlock detection attributed choice points shared
 by several states to the first one only

---
 modelchecker/markovchain.go | 76 ++++++++++++-------------------------
 1 file changed, 25 insertions(+), 51 deletions(-)

diff --git a/modelchecker/markovchain.go b/modelchecker/markovchain.go
index e7c092e..79d35b3 100644
--- a/modelchecker/markovchain.go
+++ b/modelchecker/markovchain.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"github.com/fizzbee-io/fizzbee/lib"
 	"math"
+	"slices"
 	"strings"
 )
 
@@ -487,36 +488,22 @@ func traverseDFS(node *Node, visited map[*Node]bool, result *[]*Node, yield *int
 func traverseBFS(rootNode *Node, maxActions int64) ([]*Node, []string, *Node, int) {
 	msgs := make([]string, 0)
 	msgSet := make(map[string]int)
-	type stat struct {
-		index int
-		deadNode *Node
-		livePaths int
-	}
-	visited := make(map[*Node]*stat)
+	visited := make(map[*Node]bool)
 	var result []*Node
-	type queuedEntry struct {
-		node *Node
-		yieldNode *Node
-	}
-	queue := lib.NewQueue[*queuedEntry]()
-	queue.Enqueue(&queuedEntry{
-		node:      rootNode,
-		yieldNode: rootNode,
-	})
+	queue := lib.NewQueue[*Node]()
+	queue.Enqueue(rootNode)
 	yield := 0
 	maxDepth := 0
 	for queue.Count() > 0 {
-		entry, _ := queue.Dequeue()
-		node := entry.node
-		if _, ok := visited[node]; ok {
+		node, _ := queue.Dequeue()
+		if visited[node] {
 			continue
 		}
-		visited[node] = &stat{}
+		visited[node] = true
 
 		if node.Process != nil && !node.Process.Enabled {
 			continue
 		}
-		visited[node].index = len(result)
 		result = append(result, node)
 		if node.Name == "yield" {
 			yield++
@@ -525,34 +512,16 @@ func traverseBFS(rootNode *Node, maxActions int64) ([]*Node, []string, *Node, in
 			maxDepth = node.forkDepth
 		}
 		enabledLinks := make([]*Link, 0)
-		crashLinks := 0
 		for _, link := range node.Outbound {
 			if !link.Node.Enabled {
 				continue
 			}
 			enabledLinks = append(enabledLinks, link)
-			if link.IsCrashLink() {
-				crashLinks++
-			}
 		}
 		node.Outbound = enabledLinks
 
-		if len(enabledLinks)-crashLinks == 0 && visited[entry.yieldNode].deadNode == nil {
-			visited[entry.yieldNode].deadNode = node
-		}
-
 		for _, link := range node.Outbound {
-			yieldNode := entry.yieldNode
-			if link.Node.Name == "yield" || link.Node.Name == "init" || link.Node.Name == "crash" {
-				if !link.IsCrashLink() {
-					visited[yieldNode].livePaths++
-				}
-				yieldNode = link.Node
-			}
-			queue.Enqueue(&queuedEntry{
-				node:      link.Node,
-				yieldNode: yieldNode,
-			})
+			queue.Enqueue(link.Node)
 
 			if link.Type == "action" {
 				if node == link.Node || node.HashCode() == link.Node.HashCode() {
@@ -608,18 +577,6 @@ func traverseBFS(rootNode *Node, maxActions int64) ([]*Node, []string, *Node, in
 			}
 		}
 	}
-	var deadlock *Node
-	for _, node := range result {
-		entry := visited[node]
-		if entry.deadNode != nil && entry.livePaths == 0 && (node.Process == nil || (node.Stats != nil && node.Stats.TotalActions < int(maxActions))) {
-			// Return the yield node itself (not the dead non-yield node) so the
-			// deadlock trace stops at the meaningful stuck state rather than
-			// pointing into a dead nondeterministic branch.
-			deadlock = node
-			break
-		}
-	}
-
 	// Remove non-yield nodes that cannot reach any yield/init/crash node.
 	// Such nodes arise when a nondeterministic choice (oneof) creates branches
 	// that are all subsequently disabled by a require statement.
@@ -668,5 +625,22 @@ func traverseBFS(rootNode *Node, maxActions int64) ([]*Node, []string, *Node, in
 		result = filtered
 	}
 
+	// What is left are the steps that can be completed. A state without any
+	// (other than a crash) is a deadlock. The choice points in the middle of a
+	// step are not states, and may be shared by steps from several states.
+	var deadlock *Node
+	for _, node := range result {
+		if node.Name != "yield" && node.Name != "init" && node.Name != "crash" {
+			continue
+		}
+		if slices.ContainsFunc(node.Outbound, func(link *Link) bool { return !link.IsCrashLink() }) {
+			continue
+		}
+		if node.Process == nil || (node.Stats != nil && node.Stats.TotalActions < int(maxActions)) {
+			deadlock = node
+			break
+		}
+	}
+
 	return result, msgs, deadlock, yield
 }
-- 
2.43.0


From 807514669cc688eb1f3af5d65c1b2b5f1a2552d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:02 +0000
Subject: [PATCH 11/87] fix: states reached through a choice in a step that was
 not enabled yet were dropped from the result

---
 modelchecker/markovchain.go | 96 ++++++++++++++++++-------------------
 1 file changed, 46 insertions(+), 50 deletions(-)

diff --git a/modelchecker/markovchain.go b/modelchecker/markovchain.go
index 79d35b3..c0c9b58 100644
--- a/modelchecker/markovchain.go
+++ b/modelchecker/markovchain.go
@@ -485,9 +485,53 @@ func traverseDFS(node *Node, visited map[*Node]bool, result *[]*Node, yield *int
 	}
 }
 
+// findAliveNodes returns the enabled states, and the nodes in the middle of a
+// step that reach one. A nondeterministic choice can be in the middle of a step
+// that is not enabled yet, and some or all of its alternatives can be disabled
+// by a require statement: what counts is whether the step can be completed.
+func findAliveNodes(rootNode *Node) map[*Node]bool {
+	alive := make(map[*Node]bool)
+	reverseAdj := make(map[*Node][]*Node)
+	visited := map[*Node]bool{rootNode: true}
+	queue := lib.NewQueue[*Node]()
+	queue.Enqueue(rootNode)
+	backQueue := lib.NewQueue[*Node]()
+	for queue.Count() > 0 {
+		node, _ := queue.Dequeue()
+		if node.Name == "yield" || node.Name == "init" || node.Name == "crash" {
+			if node.Process != nil && !node.Process.Enabled {
+				continue
+			}
+			alive[node] = true
+			backQueue.Enqueue(node)
+		}
+		for _, link := range node.Outbound {
+			reverseAdj[link.Node] = append(reverseAdj[link.Node], node)
+			if !visited[link.Node] {
+				visited[link.Node] = true
+				queue.Enqueue(link.Node)
+			}
+		}
+	}
+	for backQueue.Count() > 0 {
+		node, _ := backQueue.Dequeue()
+		for _, parent := range reverseAdj[node] {
+			if !alive[parent] {
+				alive[parent] = true
+				backQueue.Enqueue(parent)
+				if parent.Process != nil {
+					parent.Process.Enabled = true
+				}
+			}
+		}
+	}
+	return alive
+}
+
 func traverseBFS(rootNode *Node, maxActions int64) ([]*Node, []string, *Node, int) {
 	msgs := make([]string, 0)
 	msgSet := make(map[string]int)
+	alive := findAliveNodes(rootNode)
 	visited := make(map[*Node]bool)
 	var result []*Node
 	queue := lib.NewQueue[*Node]()
@@ -501,7 +545,7 @@ func traverseBFS(rootNode *Node, maxActions int64) ([]*Node, []string, *Node, in
 		}
 		visited[node] = true
 
-		if node.Process != nil && !node.Process.Enabled {
+		if !alive[node] {
 			continue
 		}
 		result = append(result, node)
@@ -513,7 +557,7 @@ func traverseBFS(rootNode *Node, maxActions int64) ([]*Node, []string, *Node, in
 		}
 		enabledLinks := make([]*Link, 0)
 		for _, link := range node.Outbound {
-			if !link.Node.Enabled {
+			if !alive[link.Node] {
 				continue
 			}
 			enabledLinks = append(enabledLinks, link)
@@ -577,54 +621,6 @@ func traverseBFS(rootNode *Node, maxActions int64) ([]*Node, []string, *Node, in
 			}
 		}
 	}
-	// Remove non-yield nodes that cannot reach any yield/init/crash node.
-	// Such nodes arise when a nondeterministic choice (oneof) creates branches
-	// that are all subsequently disabled by a require statement.
-	// We detect them via backward BFS from yield nodes: any non-yield node not
-	// reachable backwards from a yield is dead and should be excluded from the
-	// result and from all Outbound link lists.
-	// Note: ExtractFailurePath uses Inbound pointers, so modifying Outbound is safe.
-	{
-		aliveSet := make(map[*Node]bool)
-		reverseAdj := make(map[*Node][]*Node)
-		for _, node := range result {
-			if node.Name == "yield" || node.Name == "init" || node.Name == "crash" {
-				aliveSet[node] = true
-			}
-			for _, link := range node.Outbound {
-				reverseAdj[link.Node] = append(reverseAdj[link.Node], node)
-			}
-		}
-		backQueue := lib.NewQueue[*Node]()
-		for node := range aliveSet {
-			backQueue.Enqueue(node)
-		}
-		for backQueue.Count() > 0 {
-			node, _ := backQueue.Dequeue()
-			for _, parent := range reverseAdj[node] {
-				if !aliveSet[parent] {
-					aliveSet[parent] = true
-					backQueue.Enqueue(parent)
-				}
-			}
-		}
-		filtered := result[:0]
-		for _, node := range result {
-			if !aliveSet[node] {
-				continue
-			}
-			filteredLinks := node.Outbound[:0]
-			for _, link := range node.Outbound {
-				if aliveSet[link.Node] {
-					filteredLinks = append(filteredLinks, link)
-				}
-			}
-			node.Outbound = filteredLinks
-			filtered = append(filtered, node)
-		}
-		result = filtered
-	}
-
 	// What is left are the steps that can be completed. A state without any
 	// (other than a crash) is a deadlock. The choice points in the middle of a
 	// step are not states, and may be shared by steps from several states.
-- 
2.43.0


From 12e0bcf401ace651dc6d023cd8580c7ace0bdbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:39 +0000
Subject: [PATCH 12/87] fix: a guided trace was reported as fully executed when
 several executions matched a prefix of it

---
 modelchecker/trace.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modelchecker/trace.go b/modelchecker/trace.go
index 45bca93..611f113 100644
--- a/modelchecker/trace.go
+++ b/modelchecker/trace.go
@@ -148,7 +148,9 @@ func (p *Processor) ShouldScheduleNode(node *Node) bool {
 	// Schedule only if link name matches
 	if linkName == expectedLinkName {
 		node.guidedTrace.Advance()
-		p.guidedTrace.Advance()
+		// The processor's copy tells how far the trace was followed, by any
+		// of the executions that match it.
+		p.guidedTrace.currentIndex = max(p.guidedTrace.currentIndex, node.guidedTrace.currentIndex)
 		return true
 	}
 
-- 
2.43.0


From cbd1073dca48499ad5da088c75d5dcff9a6275e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 13/87] fix: number threads per process, not with a counter
 shared by all runs and explored branches

---
 modelchecker/processor.go | 8 ++++++++
 modelchecker/thread.go    | 4 +---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 28236ca..d2b4cb5 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -217,6 +217,8 @@ type Process struct {
 	ChoiceFairness   ast.FairnessLevel         `json:"-"`
 	durabilitySpec   *DurabilitySpec
 	guidedTrace      GuidedTrace
+	// threadCount: the number of threads started so far in this execution
+	threadCount int
 
 	topLevelVars []string
 }
@@ -358,6 +360,7 @@ func (p *Process) Fork() *Process {
 
 		durabilitySpec: p.durabilitySpec,
 		guidedTrace:    p.guidedTrace,
+		threadCount:    p.threadCount,
 
 		Children:    []*Process{},
 		Files:       p.Files,
@@ -433,6 +436,7 @@ func (p *Process) CloneWithRefs(permutations map[*lib.SymmetricValue][]*lib.Symm
 
 		durabilitySpec: p.durabilitySpec,
 		guidedTrace:    p.guidedTrace,
+		threadCount:    p.threadCount,
 
 		Children:    []*Process{},
 		Files:       p.Files,
@@ -507,6 +511,10 @@ func (p *Process) propagateEnabled() {
 
 func (p *Process) NewThread() *Thread {
 	thread := NewThread(p, p.Files, 0, "")
+	// Numbered per process: a counter shared by all the explored branches
+	// would make the state depend on what was explored before it.
+	p.threadCount++
+	thread.Id = p.threadCount
 	for i, t := range p.Threads {
 		if t == nil {
 			//fmt.Println("Reusing thread slot", i)
diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index a27016b..0cb2372 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -14,14 +14,12 @@ import (
 	"slices"
 	"sort"
 	"strings"
-	"sync/atomic"
 
 	"go.starlark.net/starlark"
 	"go.starlark.net/starlarkstruct"
 	"google.golang.org/protobuf/proto"
 )
 
-var nextActionId = atomic.Int32{}
 
 type Heap struct {
 	state          starlark.StringDict
@@ -400,7 +398,7 @@ type Thread struct {
 func NewThread(Process *Process, files []*ast.File, fileIndex int, action string) *Thread {
 	stack := NewCallStack()
 	frame := &CallFrame{FileIndex: fileIndex, pc: action}
-	t := &Thread{Id: int(nextActionId.Add(1)), Process: Process, Files: files, Stack: stack}
+	t := &Thread{Process: Process, Files: files, Stack: stack}
 	t.pushFrame(frame)
 	return t
 }
-- 
2.43.0


From defe3bf74d75267cb942b7b4c27c8cf650af5c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 14/87] fix: the no-graph mode reported a deadlock in states
 whose successors were all known

---
 modelchecker/processor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index d2b4cb5..758a42a 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2401,7 +2401,9 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 		// that would otherwise re-promote a not-yet-enabled visited entry —
 		// in no_graph mode we don't keep the existing Node to compare.
 		if found {
-			// Pure dedup hit; the current node won't be retained either.
+			// Pure dedup hit; the current node won't be retained either. It
+			// is a live successor all the same (see below).
+			p.dedupHitsInExpansion++
 			return false, false
 		}
 		p.visited[canonicalHash] = nil
-- 
2.43.0


From fdb38f8fc0d5f3f3943ab9c52085874ae1068471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 15/87] fix: a guided trace counted steps that were scheduled
 but not enabled as executed

---
 modelchecker/processor.go | 5 +++++
 modelchecker/trace.go     | 3 ---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 758a42a..812e217 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2337,6 +2337,11 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	if node.ThreadProgress {
 		node.Enable()
 	}
+	if p.guidedTrace != nil {
+		// The processor's copy tells how far the trace was followed, by any
+		// of the executions that match it.
+		p.guidedTrace.currentIndex = max(p.guidedTrace.currentIndex, node.guidedTrace.currentIndex)
+	}
 	// Add the labels from the process to the inbound links
 	// This must be done even for duplicate nodes
 	// The labels for the outbound links are added when the node is merged/attached
diff --git a/modelchecker/trace.go b/modelchecker/trace.go
index 611f113..0ded75b 100644
--- a/modelchecker/trace.go
+++ b/modelchecker/trace.go
@@ -148,9 +148,6 @@ func (p *Processor) ShouldScheduleNode(node *Node) bool {
 	// Schedule only if link name matches
 	if linkName == expectedLinkName {
 		node.guidedTrace.Advance()
-		// The processor's copy tells how far the trace was followed, by any
-		// of the executions that match it.
-		p.guidedTrace.currentIndex = max(p.guidedTrace.currentIndex, node.guidedTrace.currentIndex)
 		return true
 	}
 
-- 
2.43.0


From e67ad12850cd901fec2f846875b4222feff34ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:39 +0000
Subject: [PATCH 16/87] fix: simulation reported a deadlock when the last of
 several possible steps had only disabled alternatives

---
 modelchecker/processor.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 812e217..922c411 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2230,9 +2230,9 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 			p.queue.Clear(prevLen)
 		}
 
-		if node.Process != nil && !node.Process.Enabled && prevLen == 0 && len(node.Inbound[0].Node.Outbound) == 0 {
+		if node.Process != nil && !node.Process.Enabled && prevLen == 0 && !node.lastYield().hasCompletedStep() {
 			if !liveness && p.config.GetDeadlockDetection() {
-				failedNode = node.Inbound[0].Node
+				failedNode = node.lastYield()
 				break
 			} else if liveness && p.config.GetDeadlockDetection() {
 				// The if condition shouldn't have been required, but there is a small edge case not handled so far.
@@ -2266,6 +2266,28 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 	return p.Init, failedNode, err
 }
 
+// lastYield returns the state in which the step that leads to the node starts.
+func (n *Node) lastYield() *Node {
+	from := n.Inbound[0].Node
+	for from.choicePoint && len(from.Inbound) > 0 {
+		from = from.Inbound[0].Node
+	}
+	return from
+}
+
+// hasCompletedStep reports whether some step from this state was completed.
+func (n *Node) hasCompletedStep() bool {
+	for _, link := range n.Outbound {
+		if link.IsCrashLink() {
+			continue
+		}
+		if !link.Node.choicePoint || link.Node.hasCompletedStep() {
+			return true
+		}
+	}
+	return false
+}
+
 func processPreInit(init *Node, stmts []*ast.Statement, preinitHookContent string) {
 	thread := init.NewThread()
 	thread.currentFrame().pc = fmt.Sprintf("Stmts[%d]", 0)
-- 
2.43.0


From 309cb1989b4668856359a9361bedc9675dc77ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:39 +0000
Subject: [PATCH 17/87] fix: a transition violation in the no-graph mode
 dereferenced nil

---
 modelchecker/processor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 922c411..5a98340 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2398,7 +2398,9 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 			node.Inbound[0].FailedInvariants = failedInvariants
 			if !p.config.ContinuePathOnInvariantFailures {
 				node.Name = "yield"
-				node.Attach()
+				if !p.experimentalNoGraph {
+					node.Attach()
+				}
 				p.intermediateStates.ClearAll()
 				return true, false
 			}
-- 
2.43.0


From fb64d9e7facd98e5e5e687558169801b875d9801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 18/87] fix: simulation reported a deadlock in states where
 only max_actions prevents further steps

---
 modelchecker/processor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 5a98340..c2261af 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2232,6 +2232,10 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 
 		if node.Process != nil && !node.Process.Enabled && prevLen == 0 && !node.lastYield().hasCompletedStep() {
 			if !liveness && p.config.GetDeadlockDetection() {
+				if node.lastYield().actionDepth >= int(p.config.Options.MaxActions) {
+					// Not stuck: no further action may be started.
+					break
+				}
 				failedNode = node.lastYield()
 				break
 			} else if liveness && p.config.GetDeadlockDetection() {
-- 
2.43.0


From cafcaeeaa7a2502e665494e4447c95cb4d239fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 19/87] fix: the processed-queue mode named choice points
 inside a thread's step 'yield'

---
 modelchecker/processor.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index c2261af..f7f6aab 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -958,6 +958,11 @@ type Node struct {
 	// yield-point is popped and expanded. Nil for OLD-mode nodes.
 	yieldForks []*Process `json:"-"`
 
+	// yieldName: in the same mode, the name the node had when it reached
+	// yield. The successors are scheduled under that name, as in OLD mode:
+	// only true yield-points may be called "yield".
+	yieldName string `json:"-"`
+
 	// pathTail: in experimental no-graph mode, a lightweight linked-list
 	// node holding the action / link name that produced this node, plus a
 	// pointer to its parent's pathTail. Used for reconstructing a failure
@@ -1343,6 +1348,7 @@ func (p *Processor) publishYieldPoint(yp *Node, forks []*Process) {
 	p.uniqueYieldCount++
 	if p.experimentalProcessedQueue {
 		yp.yieldForks = forks
+		yp.yieldName = yp.Name
 		p.expandedYieldPoints = append(p.expandedYieldPoints, yp)
 		return
 	}
@@ -1704,6 +1710,8 @@ func (p *Processor) startProcessedQueue() (init *Node, failedNode *Node, err err
 
 		// Replay the deferred YieldNode/YieldFork to schedule yp's
 		// successor action-starts into pendingActionStarts.
+		name := yp.Name
+		yp.Name = yp.yieldName
 		if len(yp.yieldForks) > 0 {
 			for _, fork := range yp.yieldForks {
 				p.YieldFork(yp, fork)
@@ -1711,6 +1719,7 @@ func (p *Processor) startProcessedQueue() (init *Node, failedNode *Node, err err
 		} else {
 			p.YieldNode(yp)
 		}
+		yp.Name = name
 		// yieldForks no longer needed; release for GC.
 		yp.yieldForks = nil
 
-- 
2.43.0


From 0bb7994e06516bbf6af2fd110a8563cd800cac3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 20/87] fix: strict liveness examined only some of the cycles
 and missed violations (or searched for ever)

---
 modelchecker/invariants.go | 621 +++++++++++++++++--------------------
 1 file changed, 285 insertions(+), 336 deletions(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index 327b4bb..d0e8fa5 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -616,225 +616,328 @@ type CycleCallbackResult struct {
 }
 type CycleCallback func(path []*Link, cycles int) (bool, *CycleCallbackResult)
 
+// AlwaysEventuallyFinal looks for a fair infinite execution that visits good
+// states only finitely often, that is, one that stays among the other states.
 func AlwaysEventuallyFinal(nodes []*Node, root *Node, predicate Predicate) ([]*Link, bool) {
-	f := func(path []*Link, cycles int) (bool, *CycleCallbackResult) {
-		mergeNode := path[len(path)-1].Node
-		mergeIndex := -1
-		// iterate over the path in order to find the earliest merge node forming the largest cycle
-		// Then check if the property holds in that cycle
-		for i := 0; i < len(path)-1; i++ {
-			if path[i].Node == mergeNode {
-				mergeIndex = i
-				for j := i + 1; j < len(path); j++ {
-					relevant, value := predicate(path[j].Node)
-					if relevant && value {
-						return true, nil
-					}
-				}
-				break
-			}
-
-		}
-		if mergeIndex == -1 {
-			//fmt.Println("No merge node found")
-			return true, nil
-		}
-
-		//fmt.Println("Live node NOT FOUND in the path")
-		isFair, cycleCallbackResult := isFairCycle(path[mergeIndex:], false)
-		if isFair {
-			//fmt.Println("Fair cycle found")
-			//isFairCycle(path[mergeIndex:], true)
-			return false, nil
-		} else {
-			//fmt.Println("Not a fair cycle, and has fair exit link")
-			return true, cycleCallbackResult
+	candidates := make([]*Node, 0, len(nodes))
+	for _, node := range nodes {
+		if relevant, value := predicate(node); !relevant || !value {
+			candidates = append(candidates, node)
 		}
 	}
-	return CycleFinderFinal(nodes, root, f)
+	return failureFromFairComponent(candidates, root, func(n *Node) bool { return true })
 }
 
+// EventuallyAlwaysFinal looks for a fair infinite execution that visits a bad
+// state infinitely often.
 func EventuallyAlwaysFinal(nodes []*Node, root *Node, predicate Predicate) ([]*Link, bool) {
-	f := func(path []*Link, cycles int) (bool, *CycleCallbackResult) {
-		mergeNode := path[len(path)-1].Node
-		mergeIndex := 0
-		deadNodeFound := false
-
-		// iterate over the path in order to find the earliest merge node forming the largest cycle
-		// Then check if the property holds in that cycle
-		for i := 0; i < len(path)-1; i++ {
-			if path[i].Node == mergeNode {
-				mergeIndex = i
-				for j := i + 1; j < len(path); j++ {
-					relevant, value := predicate(path[j].Node)
-					if relevant && !value {
-						deadNodeFound = true
-						break
-					}
-				}
-				break
+	return failureFromFairComponent(nodes, root, func(n *Node) bool {
+		relevant, value := predicate(n)
+		return relevant && !value
+	})
+}
+
+func failureFromFairComponent(candidates []*Node, root *Node, required func(*Node) bool) ([]*Link, bool) {
+	component := findFairComponent(candidates, required)
+	if component == nil {
+		return nil, true
+	}
+	start := component.pickStart(required)
+	return append(ExtractFailurePath(start, root), component.cycle(start)...), false
+}
+
+// fairComponent is a set of nodes that a fair infinite execution can visit
+// infinitely often: strongly connected, and satisfying every fairness
+// constraint when all of it is visited over and over.
+type fairComponent struct {
+	order   []*Node // in the order of the candidates
+	members map[*Node]bool
+	// For each fair link name, how many of the nodes where fairness is checked
+	// have such a link, and whether such a link stays inside.
+	enabled map[string]int
+	taken   map[string]bool
+	level   map[string]ast.FairnessLevel
+	points  int
+	inside  int // number of links that stay inside
+}
+
+// findFairComponent returns a set of the candidate nodes that includes a
+// required one, and that some fair infinite execution visits infinitely often.
+// It returns nil if there is none.
+//
+// A strongly connected component in which a strongly fair link is available
+// but always leaves the component cannot be stayed in unless the nodes having
+// that link are avoided, so these are removed and the rest is searched again.
+// A weakly fair link has to be taken only when it is available in all the nodes.
+func findFairComponent(candidates []*Node, required func(*Node) bool) *fairComponent {
+	for _, scc := range stronglyConnectedComponents(candidates) {
+		if !slices.ContainsFunc(scc, required) {
+			continue
+		}
+		c := newFairComponent(scc)
+		if c.inside == 0 && !c.canStutter() {
+			continue
+		}
+		fair := true
+		avoid := make(map[string]bool)
+		for name, count := range c.enabled {
+			if c.taken[name] {
+				continue
+			}
+			if c.level[name] == ast.FairnessLevel_FAIRNESS_LEVEL_STRONG {
+				avoid[name] = true
+			} else if count == c.points {
+				fair = false
 			}
 		}
-
-		if deadNodeFound {
-			isFair, cycleCallbackResult := isFairCycle(path[mergeIndex:], false)
-			if isFair {
-				//fmt.Println("Fair cycle found")
-				return false, nil
-			} else {
-				//fmt.Println("Not a fair cycle, and has fair exit link")
-				return true, cycleCallbackResult
+		if !fair {
+			continue
+		}
+		if len(avoid) == 0 {
+			return c
+		}
+		rest := make([]*Node, 0, len(scc))
+		for _, node := range scc {
+			if !slices.ContainsFunc(fairLinks(node), func(f fairLink) bool { return avoid[f.name] }) {
+				rest = append(rest, node)
 			}
-			//return false, nil
 		}
-		return true, nil
-
-		//fmt.Println("Dead node NOT FOUND in the path")
+		if found := findFairComponent(rest, required); found != nil {
+			return found
+		}
 	}
-	return CycleFinderFinal(nodes, root, f)
+	return nil
+}
+
+type fairLink struct {
+	link  *Link
+	name  string
+	level ast.FairnessLevel
+}
+
+func isFairnessPoint(node *Node) bool {
+	return node.Name == "init" || node.Name == "yield" || node.Name == "crash"
 }
 
-func isFairCycle(path []*Link, debugLog bool) (bool, *CycleCallbackResult) {
-	strongFairLinksInChain := map[string]bool{}
-	strongFairLinksOutOfChain := map[string]bool{}
-
-	weakFairLinksInChain := map[string]bool{}
-	weakFairLinksOutOfChain := map[string]bool{}
-
-	chainLen := len(path)
-	firstYield := -1
-	prevNodeHasNonCrashLink := false
-	nextNodeIsCrash := false
-	if debugLog {
-		for i, link := range path {
-			//node := link.Node
-			fmt.Println("i :", i, "Link.Name", link.Name /*"Node:", node.String(),*/, "choice fairness", link.ChoiceFairness)
+// fairLinks returns the outgoing links that are subject to a fairness constraint.
+func fairLinks(node *Node) []fairLink {
+	if !isFairnessPoint(node) {
+		if len(node.Outbound) == 0 || !strings.HasPrefix(node.Outbound[0].Name, "Any:") ||
+			node.Outbound[0].ChoiceFairness == ast.FairnessLevel_FAIRNESS_LEVEL_UNKNOWN ||
+			node.Outbound[0].ChoiceFairness == ast.FairnessLevel_FAIRNESS_LEVEL_UNFAIR {
+			return nil
 		}
-		fmt.Println("Checking fairness")
 	}
-	for i, link := range path {
-		node := link.Node
-		unvisitedWeakFairLinksOutOfChain := map[string]bool{}
+	result := make([]fairLink, 0)
+	for _, link := range node.Outbound {
+		name, level, _ := fairnessLinkName(node, link)
+		if level == ast.FairnessLevel_FAIRNESS_LEVEL_STRONG || level == ast.FairnessLevel_FAIRNESS_LEVEL_WEAK {
+			result = append(result, fairLink{link, name, level})
+		}
+	}
+	return result
+}
 
-		if debugLog {
-			fmt.Println(i, ": link: ", link.Name, "Node:", node.String(), "choice fairness", link.ChoiceFairness)
+func newFairComponent(scc []*Node) *fairComponent {
+	c := &fairComponent{
+		order:   scc,
+		members: make(map[*Node]bool),
+		enabled: make(map[string]int),
+		taken:   make(map[string]bool),
+		level:   make(map[string]ast.FairnessLevel),
+	}
+	for _, node := range scc {
+		c.members[node] = true
+	}
+	for _, node := range scc {
+		if isFairnessPoint(node) {
+			c.points++
 		}
-		if nextNodeIsCrash && prevNodeHasNonCrashLink {
-			if debugLog {
-				fmt.Println("Loop with a crash node, but previous node has non-crash link")
+		for _, link := range node.Outbound {
+			if c.stays(link) {
+				c.inside++
 			}
-			return false, nil
 		}
-		isChoiceLink := false
-		if node.Name != "init" && node.Name != "yield" && node.Name != "crash" {
-			if debugLog {
-				fmt.Println("Node is not init or yield")
+		names := make(map[string]bool)
+		for _, f := range fairLinks(node) {
+			names[f.name] = true
+			c.level[f.name] = f.level
+			if c.stays(f.link) {
+				c.taken[f.name] = true
 			}
+		}
+		for name := range names {
+			c.enabled[name]++
+		}
+	}
+	return c
+}
 
-			if len(node.Outbound) <= 0 || !strings.HasPrefix(node.Outbound[0].Name, "Any:") ||
-				node.Outbound[0].ChoiceFairness == ast.FairnessLevel_FAIRNESS_LEVEL_UNKNOWN ||
-				node.Outbound[0].ChoiceFairness == ast.FairnessLevel_FAIRNESS_LEVEL_UNFAIR {
-				if debugLog {
-					fmt.Println("Not a fair Any choice node")
-				}
-				continue
+// stays tells whether a link from a member can be taken without leaving. Crashes
+// do not happen infinitely often.
+func (c *fairComponent) stays(link *Link) bool {
+	return !link.IsCrashLink() && c.members[link.Node]
+}
+
+// canStutter tells whether an execution may stop in a component without links:
+// only if nothing is in progress, or bound to happen.
+func (c *fairComponent) canStutter() bool {
+	node := c.order[0]
+	return isFairnessPoint(node) && !slices.ContainsFunc(node.Outbound, func(l *Link) bool {
+		return strings.HasPrefix(l.Name, "thread-")
+	})
+}
 
+func (c *fairComponent) pickStart(required func(*Node) bool) *Node {
+	i := slices.IndexFunc(c.order, func(n *Node) bool { return isFairnessPoint(n) && required(n) })
+	if i < 0 {
+		i = slices.IndexFunc(c.order, required)
+	}
+	return c.order[i]
+}
+
+// cycle returns links from start back to itself that satisfy every fairness constraint.
+func (c *fairComponent) cycle(start *Node) []*Link {
+	if c.inside == 0 {
+		return []*Link{{Node: start, Name: "stutter"}}
+	}
+	path := make([]*Link, 0)
+	node := start
+	extend := func(links []*Link) {
+		path = append(path, links...)
+		node = path[len(path)-1].Node
+	}
+	// Take each of the fair links that can be taken without leaving.
+	for _, member := range c.order {
+		for _, f := range fairLinks(member) {
+			if !c.stays(f.link) || !c.taken[f.name] {
+				continue
 			}
-			isChoiceLink = true
-			if debugLog {
-				fmt.Println("Fair Any choice node")
+			if member != node {
+				extend(c.path(node, func(n *Node) bool { return n == member }))
 			}
+			extend([]*Link{f.link})
+			delete(c.taken, f.name)
 		}
-		if debugLog {
-			fmt.Println("isChoiceLink", isChoiceLink)
-		}
-		if firstYield == -1 {
-			firstYield = i
+	}
+	// Visit a node where the other ones are not available.
+	names := make([]string, 0, len(c.level))
+	for name := range c.level {
+		names = append(names, name)
+	}
+	slices.Sort(names)
+	for _, name := range names {
+		if c.level[name] == ast.FairnessLevel_FAIRNESS_LEVEL_WEAK && c.enabled[name] < c.points {
+			without := func(n *Node) bool {
+				return isFairnessPoint(n) && !slices.ContainsFunc(fairLinks(n), func(f fairLink) bool { return f.name == name })
+			}
+			if !without(start) && !slices.ContainsFunc(path, func(l *Link) bool { return without(l.Node) }) {
+				extend(c.path(node, without))
+			}
 		}
-		prevNodeHasNonCrashLink = false
-		for _, outLink := range node.Outbound {
-			//if outLink.IsCrashLink() {
-			//	// TODO: Reevaluate if this this check here is still required
-			//	if debugLog {
-			//		fmt.Println("Skipping crash link", outLink.Name)
-			//	}
-			//	continue
-			//}
-			linkName, fairness, _ := fairnessLinkName(node, outLink)
-			if debugLog {
-				fmt.Println("Outlink:", outLink.Name, outLink.Fairness, outLink.Labels, outLink.Node.Name, outLink.ChoiceFairness, linkName, fairness)
+	}
+	if node != start || len(path) == 0 {
+		extend(c.path(node, func(n *Node) bool { return n == start }))
+	}
+	return path
+}
+
+// path returns a shortest path, of at least one link, inside the component.
+func (c *fairComponent) path(from *Node, to func(*Node) bool) []*Link {
+	type step struct {
+		parent *step
+		link   *Link
+	}
+	visited := make(map[*Node]bool)
+	queue := lib.NewQueue[*step]()
+	queue.Enqueue(&step{link: &Link{Node: from}})
+	for queue.Count() > 0 {
+		s, _ := queue.Dequeue()
+		for _, link := range s.link.Node.Outbound {
+			if !c.stays(link) || visited[link.Node] {
+				continue
 			}
-			if !isCrashLinkName(linkName) {
-				prevNodeHasNonCrashLink = true
-			} else if outLink.Node == path[(i+1)%chainLen].Node && outLink == path[(i+1)%chainLen] {
-				nextNodeIsCrash = true
+			visited[link.Node] = true
+			next := &step{s, link}
+			if !to(link.Node) {
+				queue.Enqueue(next)
+				continue
 			}
-			if fairness == ast.FairnessLevel_FAIRNESS_LEVEL_STRONG {
-				if outLink.Node == path[(i+1)%chainLen].Node && outLink == path[(i+1)%chainLen] {
-					// outlink points to the next node in the chain
-					// It satisfies the strong fairness condition for that action
-					strongFairLinksInChain[linkName] = true
-					delete(strongFairLinksOutOfChain, linkName)
-				} else if _, ok := strongFairLinksInChain[linkName]; !ok {
-					strongFairLinksOutOfChain[linkName] = true
-				}
-			} else if fairness == ast.FairnessLevel_FAIRNESS_LEVEL_WEAK {
-				if outLink.Node == path[(i+1)%chainLen].Node && outLink == path[(i+1)%chainLen] {
-					if debugLog {
-						fmt.Println("Weak Fair link in chain", linkName, outLink.Node.Name)
-					}
-					weakFairLinksInChain[linkName] = true
-					delete(unvisitedWeakFairLinksOutOfChain, linkName)
-				} else if _, ok := weakFairLinksInChain[linkName]; !ok {
-					if debugLog {
-						fmt.Println("Weak Fair link out of chain", linkName, outLink.Node.Name)
-					}
-					unvisitedWeakFairLinksOutOfChain[linkName] = true
-				}
+			path := make([]*Link, 0)
+			for ; next.parent != nil; next = next.parent {
+				path = append(path, next.link)
 			}
+			slices.Reverse(path)
+			return path
 		}
-		if debugLog {
-			fmt.Println("Unvisited weak fair links out of chain", unvisitedWeakFairLinksOutOfChain)
+	}
+	panic("The component is not strongly connected")
+}
+
+// stronglyConnectedComponents groups the nodes, using the links between them
+// other than crashes (Tarjan's algorithm). Nodes and components keep the order
+// of the argument.
+func stronglyConnectedComponents(nodes []*Node) [][]*Node {
+	position := make(map[*Node]int, len(nodes))
+	for i, node := range nodes {
+		position[node] = i
+	}
+	data := make(map[*Node]*tarjanData, len(nodes))
+	sccs := make([][]*Node, 0)
+	var stack []*Node
+	type visit struct {
+		node *Node
+		next int
+	}
+	for _, node := range nodes {
+		if data[node] != nil {
+			continue
 		}
-		if i == firstYield {
-			weakFairLinksOutOfChain = unvisitedWeakFairLinksOutOfChain
-		} else {
-			for k, _ := range weakFairLinksOutOfChain {
-				if isChoiceLink != strings.HasPrefix(k, "Any:") {
-					if debugLog {
-						fmt.Println("Not deleting weak Fair link out of chain", k, isChoiceLink)
-					}
+		calls := []*visit{{node: node}}
+		for len(calls) > 0 {
+			call := calls[len(calls)-1]
+			d := data[call.node]
+			if d == nil {
+				d = &tarjanData{index: len(data), lowLink: len(data), onStack: true}
+				data[call.node] = d
+				stack = append(stack, call.node)
+			}
+			if call.next < len(call.node.Outbound) {
+				link := call.node.Outbound[call.next]
+				call.next++
+				if _, ok := position[link.Node]; !ok || link.IsCrashLink() {
 					continue
 				}
-				if _, ok := unvisitedWeakFairLinksOutOfChain[k]; !ok {
-					if debugLog {
-						fmt.Println("Deleting weak Fair link out of chain", k, isChoiceLink)
-					}
-					delete(weakFairLinksOutOfChain, k)
+				if t := data[link.Node]; t == nil {
+					calls = append(calls, &visit{node: link.Node})
+				} else if t.onStack {
+					d.lowLink = min(d.lowLink, t.index)
 				}
+				continue
 			}
-
-		}
-		if debugLog {
-			fmt.Println("weakFairLinksOutOfChain", weakFairLinksOutOfChain)
+			calls = calls[:len(calls)-1]
+			if len(calls) > 0 {
+				parent := data[calls[len(calls)-1].node]
+				parent.lowLink = min(parent.lowLink, d.lowLink)
+			}
+			if d.lowLink != d.index {
+				continue
+			}
+			i := len(stack) - 1
+			for stack[i] != call.node {
+				i--
+			}
+			scc := slices.Clone(stack[i:])
+			stack = stack[:i]
+			for _, member := range scc {
+				data[member].onStack = false
+			}
+			slices.SortFunc(scc, func(a, b *Node) int { return position[a] - position[b] })
+			sccs = append(sccs, scc)
 		}
 	}
-	if debugLog {
-		fmt.Println("strong out: ", len(strongFairLinksOutOfChain),
-			", strong in: ", len(strongFairLinksInChain),
-			", weak out: ", len(weakFairLinksOutOfChain),
-			", weak in: ", len(weakFairLinksInChain))
-		fmt.Println("Strong Fair Links in chain:", strongFairLinksInChain)
-		fmt.Println("Strong Fair Links out of chain:", strongFairLinksOutOfChain)
-		fmt.Println("Weak Fair Links in chain:", weakFairLinksInChain)
-		fmt.Println("Weak Fair Links out of chain:", weakFairLinksOutOfChain)
-		fmt.Println("Checking fairness done. Is Fair:", !(len(strongFairLinksOutOfChain) > 0 || len(weakFairLinksOutOfChain) > 0))
-	}
-	if len(strongFairLinksOutOfChain) > 0 || len(weakFairLinksOutOfChain) > 0 {
-		cycleCallbackResult := findMissingLinks(path, strongFairLinksOutOfChain, weakFairLinksOutOfChain)
-		return false, cycleCallbackResult
-	}
-	return true, nil
+	slices.SortFunc(sccs, func(a, b []*Node) int { return position[a[0]] - position[b[0]] })
+	return sccs
 }
 
 func fairnessLinkName(node *Node, outLink *Link) (string, ast.FairnessLevel, bool) {
@@ -858,160 +961,6 @@ func fairnessLinkName(node *Node, outLink *Link) (string, ast.FairnessLevel, boo
 	return linkName, fairness, isChoiceLink
 }
 
-func findMissingLinks(path []*Link, strongFairLinksOutOfChain map[string]bool, weakFairLinksOutOfChain map[string]bool) *CycleCallbackResult {
-	missingLinks := make([]*lib.Pair[*Node, []*Link], 0)
-	for _, link := range path {
-		node := link.Node
-		nodeMissingLinks := make([]*Link, 0)
-		for _, outLink := range node.Outbound {
-			linkName, fairness, _ := fairnessLinkName(node, outLink)
-			if fairness == ast.FairnessLevel_FAIRNESS_LEVEL_STRONG {
-				if _, ok := strongFairLinksOutOfChain[linkName]; ok {
-					nodeMissingLinks = append(nodeMissingLinks, outLink)
-				}
-			} else if fairness == ast.FairnessLevel_FAIRNESS_LEVEL_WEAK {
-				if _, ok := weakFairLinksOutOfChain[linkName]; ok {
-					nodeMissingLinks = append(nodeMissingLinks, outLink)
-				}
-			}
-		}
-		if len(nodeMissingLinks) > 0 {
-			pair := lib.NewPair(node, nodeMissingLinks)
-			missingLinks = append(missingLinks, &pair)
-		}
-	}
-	return &CycleCallbackResult{missingLinks: missingLinks}
-
-}
-
-func CycleFinderFinal(nodes []*Node, root *Node, callback CycleCallback) ([]*Link, bool) {
-	visited := make(map[*Node]bool)
-	globalVisited := make(map[*Node]bool)
-	rootLink := InitNodeToLink(root)
-	path := []*Link{rootLink}
-
-	for _, node := range nodes {
-		if visited[node] {
-			continue
-		}
-		if node == root {
-			path = []*Link{rootLink}
-		} else {
-			//continue
-			link := InitNodeToLink(node)
-			link.Name = "crash"
-			path = []*Link{link}
-		}
-
-		failedPath, isLive := cycleFinderHelper(node, callback, visited, 0, path, globalVisited)
-		if !isLive {
-			//fmt.Println("CycleFinderFinal: failedPath found in node", node.String())
-			failedPathFull := ExtractFailurePath(node, root)
-
-			return append(failedPathFull, failedPath[1:]...), isLive
-		}
-	}
-	return nil, true
-}
-
-func cycleFinderHelper(node *Node, callback CycleCallback, visited map[*Node]bool, cycles int, path []*Link, globalVisited map[*Node]bool) ([]*Link, bool) {
-	if visited[node] {
-		//fmt.Println("\n\nCycle detected in the path:")
-		////fmt.Println("Path:", path)
-		////fmt.Println("Cycle found")
-		//for i, link := range path {
-		//	fmt.Println(i, link.Name, link.Node.HashCode(), link.Node.String())
-		//
-		//}
-		//fmt.Println("Visited node", node.HashCode(), node.String())
-		isLive, result := callback(path, cycles)
-		//fmt.Println("Is live:", isLive, "Result:", result)
-		if !isLive || result == nil || len(path) > 200 || cycles > 5 {
-			return path, isLive
-		}
-		for _, links := range result.missingLinks {
-			//fmt.Println("Missing links from node", i, links.First.String())
-			for _, l := range links.Second {
-				//fmt.Println(j, l.Name, l.Node.String())
-				// Find the next larger cycle including the missing link one by one.
-				// That is, copy path, and visited, globalVisited and recursively call cycleFinderHelper for each of the missing link/node
-
-				pathCopy := slices.Clone(path)
-				visitedCopy := maps.Clone(visited)
-				// Add the links from last node in path to the missing link.
-				for k1, oldLink := range path {
-					if oldLink.Node == path[len(path)-1].Node {
-						for _, oldLink2 := range path[k1+1:] {
-							pathCopy = append(pathCopy, oldLink2)
-							if oldLink2.Node == links.First {
-								break
-							}
-						}
-						break
-					}
-				}
-
-				pathCopy = append(pathCopy, l)
-				//globalVisitedCopy := maps.Clone(globalVisited)
-				failedPath, success := cycleFinderHelper(l.Node, callback, visitedCopy, cycles+1, pathCopy, globalVisited)
-				if !success {
-					return failedPath, false
-				}
-			}
-
-		}
-		return path, isLive
-	}
-
-	visited[node] = true
-	if globalVisited[node] {
-		//fmt.Println("Skipping node", node.String())
-		return nil, true
-	}
-	globalVisited[node] = true
-	hasFair := false
-	pendingAction := false
-	for _, link := range node.Outbound {
-		if link.Fairness == ast.FairnessLevel_FAIRNESS_LEVEL_STRONG ||
-			link.Fairness == ast.FairnessLevel_FAIRNESS_LEVEL_WEAK {
-			hasFair = true
-		}
-		if strings.HasPrefix(link.Name, "thread-") {
-			pendingAction = true
-		}
-	}
-
-	if (node.Name == "yield" || node.Name == "crash" || node.Name == "init") && !hasFair && !pendingAction {
-		pathCopy := slices.Clone(path)
-		pathCopy = append(pathCopy, &Link{
-			Node: node,
-			Name: "stutter",
-		})
-
-		isLive, _ := callback(pathCopy, cycles)
-		if !isLive {
-			return pathCopy, false
-		}
-
-	}
-	// Traverse outbound links
-	for _, link := range node.Outbound {
-		if link.IsCrashLink() {
-			//fmt.Println("Skipping crash link", link.Name, "from node", node.String(), "to node", link.Node.String())
-			continue
-		}
-		pathCopy := slices.Clone(path)
-		visitedCopy := maps.Clone(visited)
-		pathCopy = append(pathCopy, link)
-		failedPath, success := cycleFinderHelper(link.Node, callback, visitedCopy, cycles, pathCopy, globalVisited)
-		if !success {
-			return failedPath, false
-		}
-	}
-
-	return nil, true
-}
-
 func CycleFinderFinalBfs(node *Node, callback CycleCallback) ([]*Link, bool) {
 	visited := make(map[*Node]bool)
 	path := make([]*Link, 0)
-- 
2.43.0


From cd808d559dc5a31f5c1a1072c675ac993043af9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:54 +0000
Subject: [PATCH 21/87] fix: eventual liveness reported choices in the middle
 of an unfair step as states without a way to a good one

---
 modelchecker/invariants.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index d0e8fa5..235452c 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -436,8 +436,13 @@ func AlwaysEventuallyFast(nodes []*Node, predicate Predicate) ([]*Link, bool) {
 		}
 		visited[node] = true
 		for _, link := range node.Inbound {
-			if visited[link.Node] || link.Node == node ||
-				(link.Fairness != ast.FairnessLevel_FAIRNESS_LEVEL_STRONG && link.Fairness != ast.FairnessLevel_FAIRNESS_LEVEL_WEAK) {
+			if visited[link.Node] || link.Node == node {
+				continue
+			}
+			// Fairness tells which steps will be started; a step in the middle of
+			// its choices will be completed in any case.
+			if link.Node.IsYieldNode() &&
+				link.Fairness != ast.FairnessLevel_FAIRNESS_LEVEL_STRONG && link.Fairness != ast.FairnessLevel_FAIRNESS_LEVEL_WEAK {
 				continue
 			}
 			delete(falseNodes, link.Node)
-- 
2.43.0


From b9f433ad0b3b3ea27cb4f715041ca85b20921fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:50 +0000
Subject: [PATCH 22/87] fix: eventual liveness of 'eventually always' crashed
 in models with a state without steps

---
 modelchecker/invariants.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index 235452c..48e53fc 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -565,10 +565,6 @@ func EventuallyAlwaysFast(nodes []*Node, predicate Predicate) ([]*Link, bool) {
 	visited := make(map[*Node]bool)
 	queue := lib.NewQueue[*Node]()
 	for _, node := range nodes {
-		if len(node.Outbound) == 0 {
-			fmt.Println("Deadlock detected, at node: ", node.String())
-			panic("Deadlock detected, at node: " + node.String())
-		}
 		relevant, value := predicate(node)
 		if relevant && !value {
 			queue.Enqueue(node)
-- 
2.43.0


From 40b0d13e52232ede8e576ca7ed4ee21ade3b5a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:59 +0000
Subject: [PATCH 23/87] fix: eventual liveness reported a random one of several
 counterexamples

---
 modelchecker/invariants.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index 48e53fc..bc4f80f 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -452,7 +452,10 @@ func AlwaysEventuallyFast(nodes []*Node, predicate Predicate) ([]*Link, bool) {
 	if len(falseNodes) > 0 {
 		var closestDeadNode *Node
 
-		for node, _ := range falseNodes {
+		for _, node := range nodes {
+			if !falseNodes[node] {
+				continue
+			}
 			//fmt.Println("-\n",node.String(), count)
 			if closestDeadNode == nil || (closestDeadNode.GetThreadsCount() > 0 && node.GetThreadsCount() == 0) {
 				closestDeadNode = node
-- 
2.43.0


From 11647e0675ec17a1bf18b13e17ba1b58b1248e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 24/87] fix: choice points in a step taken after a crash were
 treated as crash states (roles crashed in the middle of atomic steps)

---
 modelchecker/processor.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index f7f6aab..1d20f93 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1173,6 +1173,15 @@ func (n *Node) ForkForAlternatePaths(process *Process, name string) *Node {
 	return forkNode
 }
 
+// clearCrashName names a step that starts in a crash state after its link. It
+// would otherwise inherit the name "crash", and a place where it stops in the
+// middle of a step to make a choice would be taken for another crash state.
+func (n *Node) clearCrashName(name string) {
+	if n.Process.Name == "crash" {
+		n.Process.Name = name
+	}
+}
+
 type Processor struct {
 	Init               *Node
 	Files              []*ast.File
@@ -3248,6 +3257,7 @@ func (p *Processor) YieldNode(node *Node) {
 		}
 		name := fmt.Sprintf("thread-%d", i)
 		newNode := node.ForkForAlternatePaths(thread.Process.Fork(), name)
+		newNode.clearCrashName(name)
 		newNode.Current = i
 		newNode.Inbound[len(newNode.Inbound)-1].ReqId = i
 		newNode.ThreadProgress = true
@@ -3299,6 +3309,7 @@ func (p *Processor) YieldFork(node *Node, process *Process) {
 		}
 		name := fmt.Sprintf("thread-%d", i)
 		newNode := node.ForkForAlternatePaths(thread.Process.Fork(), name)
+		newNode.clearCrashName(name)
 		newNode.Current = i
 		newNode.Inbound[len(newNode.Inbound)-1].ReqId = i
 		newNode.ThreadProgress = true
@@ -3328,6 +3339,7 @@ func (p *Processor) scheduleChannelMessages(node *Node) {
 		for j, _ := range msgs {
 			linkName := fmt.Sprintf("channel-%d-message-%d", i, j)
 			newNode := node.ForkForAlternatePaths(node.Process.Fork(), linkName)
+			newNode.clearCrashName(linkName)
 			newMsg := newNode.ChannelMessages[i][j]
 			newNode.ChannelMessages[i] = append(newNode.ChannelMessages[i][:j], newNode.ChannelMessages[i][j+1:]...)
 			thread := newNode.Process.NewThread()
-- 
2.43.0


From 04c4700e2c9bb65b544193d21e71e982f2dd704d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 25/87] fix: a crash of a role instance removed the threads of
 all instances of the role

---
 modelchecker/processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 1d20f93..1601ce8 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2613,7 +2613,7 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 		return nil, nil
 	}
 	for i, thread := range crashNode.Threads {
-		if thread == nil || thread.currentFrame().obj == nil || thread.currentFrame().obj.Name != role.Name {
+		if thread == nil || thread.currentFrame().obj == nil || thread.currentFrame().obj.RefStringShort() != role.RefStringShort() {
 			continue
 		}
 		crashNode.removeThread(i)
-- 
2.43.0


From 46a6d4827664b75865054329c747153224763c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 26/87] fix: roles did not crash in a state that was first
 reached by a crash and later by a step

---
 modelchecker/processor.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 1601ce8..234790a 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1195,6 +1195,7 @@ type Processor struct {
 	random             rand.Rand
 	Seed               int64
 	durabilitySpec     *DurabilitySpec
+	crashFailed        *Node // a crash state that failed an invariant, found while a step was merged into a known state
 	isTest             bool
 	hashes             JoinHashes
 	guidedTrace        *GuidedTrace
@@ -1616,6 +1617,15 @@ func (p *Processor) expandToYield(node *Node, startTime time.Time, prevCount *in
 		if p.guidedTrace != nil {
 			p.visited = make(map[string]*Node)
 		}
+		if crashed := p.crashFailed; crashed != nil {
+			p.crashFailed = nil
+			if crashFailedNode == nil {
+				crashFailedNode = crashed
+			}
+			if !p.config.ContinueOnInvariantFailures {
+				break
+			}
+		}
 
 		// no_graph mode disables crash simulation: crashRole/crashThread
 		// rely on visited/Attach/Inbound to register the crash variant in
@@ -2467,6 +2477,11 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 				if p.shouldThreadCrash(other) {
 					p.crashThread(other)
 				}
+				// The state was only known as the result of a crash so far, where
+				// no role crashes. Now that a step ends there, roles can crash too.
+				if p.config.Options.GetCrashOnYield() && node.Enabled {
+					p.crashFailed = p.crashProcess(other)
+				}
 			}
 			node.Duplicate(other, yield)
 			// Count this as a "live successor" signal for the early
-- 
2.43.0


From 3f2a5b42239a9545ae066509f65f1a047035334d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:27 +0000
Subject: [PATCH 27/87] fix: after a crash an ephemeral field referred to
 outdated copies of role instances

---
 modelchecker/clone.go     | 12 +++++++++++-
 modelchecker/processor.go | 18 +++++++++++++++++-
 modelchecker/thread.go    |  2 +-
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/modelchecker/clone.go b/modelchecker/clone.go
index e86df9b..cd9b4d3 100644
--- a/modelchecker/clone.go
+++ b/modelchecker/clone.go
@@ -255,6 +255,16 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 			if err != nil {
 				return nil, err
 			}
+			// The initial values may refer to role instances: the clones' ones.
+			// (Permuted clones are made to compute hashes, which do not include them.)
+			initValues := r.InitValues
+			if permutations == nil {
+				cloned, err := deepCloneStarlarkValue(r.InitValues, refs)
+				if err != nil {
+					return nil, err
+				}
+				initValues = cloned.(*lib.Struct)
+			}
 			newRole := &lib.Role{
 				ID:          id,
 				Name:        prefix,
@@ -263,7 +273,7 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 				Fields:      fields.(*lib.Struct),
 				Methods:     r.Methods,
 				RoleMethods: r.RoleMethods,
-				InitValues:  r.InitValues,
+				InitValues:  initValues,
 			}
 			refs[value] = newRole
 			return newRole, nil
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 234790a..aedfbee 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -490,6 +490,18 @@ func MapRoleValuesInOrder(m map[starlark.Value]starlark.Value, oldList []*lib.Ro
 	return r
 }
 
+// roleRefs maps each role instance to itself: values cloned with it keep
+// referring to the instances of this process.
+func (p *Process) roleRefs() map[starlark.Value]starlark.Value {
+	refs := make(map[starlark.Value]starlark.Value, len(p.Roles))
+	for _, role := range p.Roles {
+		if role != nil {
+			refs[role] = role
+		}
+	}
+	return refs
+}
+
 func (p *Process) Enable() {
 	if !p.Enabled {
 		p.propagateEnabled()
@@ -3638,8 +3650,12 @@ func (p *Processor) ResetEphemeralVariables(node *Node, oldRole *lib.Role) {
 	if role == nil {
 		return
 	}
+	initValues, err := deepCloneStarlarkValue(role.InitValues, node.Process.roleRefs())
+	if err != nil {
+		panic(err)
+	}
 	for _, fieldName := range role.InitValues.AttrNames() {
-		attr, _ := role.InitValues.Attr(fieldName)
+		attr, _ := initValues.(*lib.Struct).Attr(fieldName)
 		role.Fields.SetField(fieldName, attr)
 	}
 }
diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 0cb2372..4341d7e 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -1358,7 +1358,7 @@ func (t *Thread) executeEndOfBlockWithForks() ([]*Process, bool) {
 
 func (t *Thread) CopyInitValuesForEphemeralFields(oldFrame *CallFrame) {
 	fields := oldFrame.obj.Fields
-	fieldsCloned, err := deepCloneStarlarkValue(fields, nil)
+	fieldsCloned, err := deepCloneStarlarkValue(fields, t.Process.roleRefs())
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 4529f94acf548c08ebb99228bde23c1162418c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 28/87] fix: a crash of another role left the thread of a
 parallel block stuck between its statements

---
 modelchecker/processor.go | 52 ++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index aedfbee..d97d161 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -970,6 +970,10 @@ type Node struct {
 	// yield-point is popped and expanded. Nil for OLD-mode nodes.
 	yieldForks []*Process `json:"-"`
 
+	// crashForks: while the crashes at a yield point are explored, the
+	// alternatives a parallel block continues with from there.
+	crashForks []*Process `json:"-"`
+
 	// yieldName: in the same mode, the name the node had when it reached
 	// yield. The successors are scheduled under that name, as in OLD mode:
 	// only true yield-points may be called "yield".
@@ -1653,6 +1657,7 @@ func (p *Processor) expandToYield(node *Node, startTime time.Time, prevCount *in
 				break
 			}
 		}
+		finalNode.crashForks = nil // no longer needed; release for GC
 		if p.intermediateStates.Len() == 0 {
 			break
 		}
@@ -2492,7 +2497,9 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 				// The state was only known as the result of a crash so far, where
 				// no role crashes. Now that a step ends there, roles can crash too.
 				if p.config.Options.GetCrashOnYield() && node.Enabled {
+					other.crashForks = forks
 					p.crashFailed = p.crashProcess(other)
+					other.crashForks = nil
 				}
 			}
 			node.Duplicate(other, yield)
@@ -2552,6 +2559,7 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 		// AFTER scheduling, restoring pre-ef25c33 ordering for the Name
 		// label while keeping ef25c33's trace-extend fix via IsYield.
 		node.Process.IsYield = true
+		node.crashForks = forks
 
 		// In OLD mode this immediately schedules successor action-starts. In
 		// NEW (experimentalProcessedQueue) mode it instead saves the forks
@@ -2620,6 +2628,7 @@ func (p *Processor) crashRoles(node *Node, safeRolesList []*lib.Role) *Node {
 				continue
 			}
 			failedNode = p.crashRoles(crashNode, slices.Clone(append(safeRolesList, role)))
+			crashNode.crashForks = nil
 			if failedNode != nil {
 				return failedNode
 			}
@@ -2639,15 +2648,18 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 	if !p.ShouldScheduleNode(crashNode) {
 		return nil, nil
 	}
-	for i, thread := range crashNode.Threads {
-		if thread == nil || thread.currentFrame().obj == nil || thread.currentFrame().obj.RefStringShort() != role.RefStringShort() {
-			continue
+	p.removeRoleState(crashFork, role)
+	crashNode.Enable()
+	// A thread of another role goes on with the alternatives of its parallel
+	// block. (Only the thread that just ran can have stopped between them.)
+	if len(node.crashForks) > 0 && crashFork.Threads[node.Current] != nil {
+		for _, fork := range node.crashForks {
+			crashed := fork.Fork()
+			crashed.Name = fork.Name
+			p.removeRoleState(crashed, role)
+			crashNode.crashForks = append(crashNode.crashForks, crashed)
 		}
-		crashNode.removeThread(i)
 	}
-	// Reset ephemeral variables
-	p.ResetEphemeralVariables(crashNode, role)
-	crashNode.Enable()
 
 	failedInvariants := CheckInvariantsWithProber(crashFork, p.makeProber(crashFork))
 	if len(failedInvariants[0]) > 0 {
@@ -2667,13 +2679,25 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 	crashNode.Attach()
 	p.visited[canonicalHash] = crashNode
 
-	// Crash variants have no forks (single deterministic crash continuation),
-	// so pass nil. In NEW mode the crash yield-point is queued like any
-	// other; in OLD mode YieldNode runs immediately.
-	p.publishYieldPoint(crashNode, nil)
+	// In NEW mode the crash yield-point is queued like any other; in OLD mode
+	// YieldNode or YieldFork runs immediately.
+	p.publishYieldPoint(crashNode, crashNode.crashForks)
 	return crashNode, nil
 }
 
+// removeRoleState removes what a role instance loses in a crash: its running
+// threads and its ephemeral fields.
+func (p *Processor) removeRoleState(process *Process, role *lib.Role) {
+	for i, thread := range process.Threads {
+		if thread == nil || thread.currentFrame().obj == nil || thread.currentFrame().obj.RefStringShort() != role.RefStringShort() {
+			continue
+		}
+		process.removeThread(i)
+	}
+	// Reset ephemeral variables
+	p.ResetEphemeralVariables(process, role)
+}
+
 func (p *Processor) crashThread(node *Node) {
 	crashFork := node.Process.Fork()
 	crashFork.Name = "crash"
@@ -3639,9 +3663,9 @@ func (p *Processor) checkAlwaysEventually(fileIndex, invariantIndex int, node *N
 	return currentNode, false
 }
 
-func (p *Processor) ResetEphemeralVariables(node *Node, oldRole *lib.Role) {
+func (p *Processor) ResetEphemeralVariables(process *Process, oldRole *lib.Role) {
 	var role *lib.Role
-	for _, r := range node.Roles {
+	for _, r := range process.Roles {
 		if r.RefStringShort() == oldRole.RefStringShort() {
 			role = r
 			break
@@ -3650,7 +3674,7 @@ func (p *Processor) ResetEphemeralVariables(node *Node, oldRole *lib.Role) {
 	if role == nil {
 		return
 	}
-	initValues, err := deepCloneStarlarkValue(role.InitValues, node.Process.roleRefs())
+	initValues, err := deepCloneStarlarkValue(role.InitValues, process.roleRefs())
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 92b2f6278da7504fcf6b23a30a750b8ac15836c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:00 +0000
Subject: [PATCH 29/87] fix: states with different initial values for ephemeral
 fields (what a crash resets to) were merged

---
 modelchecker/durability.go |  1 +
 modelchecker/processor.go  | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/modelchecker/durability.go b/modelchecker/durability.go
index be18139..5a659cd 100644
--- a/modelchecker/durability.go
+++ b/modelchecker/durability.go
@@ -14,6 +14,7 @@ type RoleDurabilitySpec struct {
 
 type DurabilitySpec struct {
 	RoleDurabilitySpec map[string]RoleDurabilitySpec
+	crashes            bool // crashes are explored
 }
 
 // HasDurabilitySpec returns true if the role has a durability spec.
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index d97d161..91d065f 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -671,6 +671,14 @@ func (p *Process) HashCode() string {
 			panic(err)
 		}
 		h.Write(bytes)
+		// What a crash resets the role to, if the role can crash.
+		if p.durabilitySpec != nil && p.durabilitySpec.crashes && len(role.InitValues.AttrNames()) > 0 {
+			bytes, err := role.InitValues.MarshalJSON()
+			if err != nil {
+				panic(err)
+			}
+			h.Write(bytes)
+		}
 	}
 	// hash the heap variables as well
 	heapHash := p.Heap.HashCode()
@@ -1448,7 +1456,10 @@ func NewProcessorWithVisitedTracking(files []*ast.File, options *ast.StateSpaceO
 		intermediateStates = lib.NewQueue[*Node]()
 	}
 	lib.ClearRoleRefs()
-	durabilitySpec := &DurabilitySpec{RoleDurabilitySpec: make(map[string]RoleDurabilitySpec)}
+	durabilitySpec := &DurabilitySpec{
+		RoleDurabilitySpec: make(map[string]RoleDurabilitySpec),
+		crashes:            options.GetOptions().GetCrashOnYield(),
+	}
 	mc := NewModelChecker("example")
 	for _, file := range files {
 		for _, role := range file.Roles {
-- 
2.43.0


From cafa2fb7e20b19a45f7e7411d37df8fe1b403ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:59 +0000
Subject: [PATCH 30/87] fix: an empty list has one permutation (none made
 symmetry translations of a domain without values vanish)

---
 lib/permutations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/permutations.go b/lib/permutations.go
index 6b83c19..a0079a6 100644
--- a/lib/permutations.go
+++ b/lib/permutations.go
@@ -2,7 +2,7 @@ package lib
 
 // permute generates all permutations of the array and appends them to the result.
 func permute[T any](arr []T, l int, r int, result *[][]T) {
-    if l == r {
+    if l >= r {
         // Append a copy of the current permutation to the result.
         perm := make([]T, len(arr))
         copy(perm, arr)
-- 
2.43.0


From 7b977c9fe6ea0599377a61ad0677c9589b5fa8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:59 +0000
Subject: [PATCH 31/87] fix: Queue.Empty and Stack.Empty called themselves
 forever

---
 lib/queue.go | 2 +-
 lib/stack.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/queue.go b/lib/queue.go
index 328a328..e6419d3 100644
--- a/lib/queue.go
+++ b/lib/queue.go
@@ -47,7 +47,7 @@ func (q *Queue[T]) Len() int {
 }
 
 func (q *Queue[T]) Empty() bool {
-    return q.Empty()
+    return q.Count() == 0
 }
 
 func NewQueue[T any]() *Queue[T] {
diff --git a/lib/stack.go b/lib/stack.go
index 9972469..a21a701 100644
--- a/lib/stack.go
+++ b/lib/stack.go
@@ -39,7 +39,7 @@ func (s *Stack[T]) ClearAll() {
 }
 
 func (s *Stack[T]) Empty() bool {
-	return s.Empty()
+	return s.Len() == 0
 }
 
 func NewStack[T any]() *Stack[T] {
-- 
2.43.0


From ffae9198c18705795b885606e6c402e1fbd7275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:59 +0000
Subject: [PATCH 32/87] fix: itertools.chain always failed, product shared
 tuples and ignored repeat, permutations required r

---
 lib/starlark_itertools.go | 40 +++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/lib/starlark_itertools.go b/lib/starlark_itertools.go
index bd6a24d..a58370c 100644
--- a/lib/starlark_itertools.go
+++ b/lib/starlark_itertools.go
@@ -18,12 +18,15 @@ var ItertoolsModule = &starlarkstruct.Module{
 }
 
 func itertoolsChain(thread *starlark.Thread, fn *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
-	var iterables []starlark.Iterable
-	if err := starlark.UnpackArgs("chain", args, kwargs, "*", &iterables); err != nil {
-		return nil, err
+	if len(kwargs) > 0 {
+		return nil, fmt.Errorf("chain: unexpected keyword arguments")
 	}
 	var result []starlark.Value
-	for _, iterable := range iterables {
+	for i, arg := range args {
+		iterable, ok := arg.(starlark.Iterable)
+		if !ok {
+			return nil, fmt.Errorf("chain: argument %d is not iterable", i)
+		}
 		iter := iterable.Iterate()
 		defer iter.Done()
 		var v starlark.Value
@@ -74,8 +77,8 @@ func itertoolsCombinations(thread *starlark.Thread, fn *starlark.Builtin, args s
 
 func itertoolsPermutations(thread *starlark.Thread, fn *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	var iterable starlark.Iterable
-	var r int
-	if err := starlark.UnpackArgs("permutations", args, kwargs, "iterable", &iterable, "r", &r); err != nil {
+	var rValue starlark.Value = starlark.None
+	if err := starlark.UnpackArgs("permutations", args, kwargs, "iterable", &iterable, "r?", &rValue); err != nil {
 		return nil, err
 	}
 
@@ -87,6 +90,13 @@ func itertoolsPermutations(thread *starlark.Thread, fn *starlark.Builtin, args s
 		items = append(items, v)
 	}
 	n := len(items)
+	r := n // by default, permutations of all the elements
+	if rValue != starlark.None {
+		var err error
+		if r, err = starlark.AsInt32(rValue); err != nil {
+			return nil, fmt.Errorf("permutations: for parameter r: %v", err)
+		}
+	}
 	if r > n || r < 0 {
 		return starlark.NewList(nil), nil
 	}
@@ -120,6 +130,13 @@ func itertoolsPermutations(thread *starlark.Thread, fn *starlark.Builtin, args s
 }
 
 func itertoolsProduct(thread *starlark.Thread, fn *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
+	repeat := 1
+	if err := starlark.UnpackArgs("product", nil, kwargs, "repeat?", &repeat); err != nil {
+		return nil, err
+	}
+	if repeat < 0 {
+		return nil, fmt.Errorf("product: repeat argument cannot be negative")
+	}
 	iterables := make([]starlark.Iterable, len(args))
 	for i, arg := range args {
 		iter, ok := arg.(starlark.Iterable)
@@ -140,11 +157,18 @@ func itertoolsProduct(thread *starlark.Thread, fn *starlark.Builtin, args starla
 		}
 	}
 
+	distinct := pools
+	pools = make([][]starlark.Value, 0, len(distinct)*repeat)
+	for i := 0; i < repeat; i++ {
+		pools = append(pools, distinct...)
+	}
+
 	var result []starlark.Value
 	var product func(int, []starlark.Value)
 	product = func(depth int, acc []starlark.Value) {
 		if depth == len(pools) {
-			result = append(result, starlark.Tuple(acc))
+			// acc's memory is reused for the next tuples.
+			result = append(result, append(starlark.Tuple{}, acc...))
 			return
 		}
 		for _, val := range pools[depth] {
@@ -170,7 +194,7 @@ func itertoolsCombinationsWithReplacement(thread *starlark.Thread, fn *starlark.
 		items = append(items, v)
 	}
 	n := len(items)
-	if r < 0 || n == 0 {
+	if r < 0 || (n == 0 && r > 0) {
 		return starlark.NewList(nil), nil
 	}
 
-- 
2.43.0


From d72cbebadfabb04367af6253214fb5c7219f75f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:20 +0000
Subject: [PATCH 33/87] fix: ordinal fresh() at an end halved the remaining
 space and failed after 61 values

---
 lib/symmetry.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/lib/symmetry.go b/lib/symmetry.go
index 4fcbcc7..ceb4546 100644
--- a/lib/symmetry.go
+++ b/lib/symmetry.go
@@ -13,8 +13,28 @@ import (
 const (
 	ordinalMax int64 = math.MaxInt64 / 2 // Use half of int64 range to keep ordinal values positive
 	ordinalMid int64 = ordinalMax / 2
+	// ordinalStep is the distance between values added one after the other at an
+	// end of an ordinal domain. It leaves room for about 2^13 of them at each end,
+	// and for 48 halvings between two neighbours.
+	ordinalStep int64 = 1 << 48
 )
 
+// ordinalAfter returns a value between last and the upper end of an ordinal domain.
+func ordinalAfter(last int64) (int64, error) {
+	if ordinalMax-last > ordinalStep {
+		return last + ordinalStep, nil
+	}
+	return midpoint(last, ordinalMax)
+}
+
+// ordinalBefore returns a value between the lower end of an ordinal domain and first.
+func ordinalBefore(first int64) (int64, error) {
+	if first > ordinalStep {
+		return first - ordinalStep, nil
+	}
+	return midpoint(0, first)
+}
+
 // midpoint returns lo + (hi - lo) / 2. Returns error if hi - lo < 2.
 func midpoint(lo, hi int64) (int64, error) {
 	if hi <= lo || hi-lo < 2 {
@@ -408,10 +428,10 @@ func (s *Segment) fresh(thread *starlark.Thread, _ *starlark.Builtin, args starl
 		newID, err = midpoint(0, ordinalMax)
 	} else if s.IsHead {
 		// (0, Right)
-		newID, err = midpoint(0, s.Right)
+		newID, err = ordinalBefore(s.Right)
 	} else if s.IsTail {
 		// (Left, ordinalMax)
-		newID, err = midpoint(s.Left, ordinalMax)
+		newID, err = ordinalAfter(s.Left)
 	} else {
 		// (Left, Right)
 		newID, err = midpoint(s.Left, s.Right)
@@ -563,8 +583,8 @@ func (d *SymmetryDomain) fresh(thread *starlark.Thread, _ *starlark.Builtin, arg
 			// Empty domain: midpoint(0, ordinalMax)
 			nextID, err = midpoint(0, ordinalMax)
 		} else {
-			// Append after max: midpoint(maxID, ordinalMax)
-			nextID, err = midpoint(maxID, ordinalMax)
+			// Append after max
+			nextID, err = ordinalAfter(maxID)
 		}
 		if err != nil {
 			return nil, fmt.Errorf("ordinal symmetry overflow: %v", err)
-- 
2.43.0


From d94066fdcab52f0ec7ba9fd53bc80a72bf6e4aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:20 +0000
Subject: [PATCH 34/87] fix: enum of a value that is not a string panicked

---
 lib/starlark_types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 50d6d22..6130a42 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -169,6 +169,9 @@ func NewSymmetricValues(values []*SymmetricValue) *SymmetricValues {
 
 func MakeEnum(_ *starlark.Thread, _ *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	for _, arg := range args {
+		if _, ok := arg.(starlark.String); !ok {
+			return nil, fmt.Errorf("enum: got %s, want string", arg.Type())
+		}
 		kwargs = append(kwargs, starlark.Tuple{arg, arg})
 	}
 	return starlarkstruct.FromKeywords(starlark.String("enum"), kwargs), nil
-- 
2.43.0


From 3c96f7782a65dd0e2c65018532f577534805445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:20 +0000
Subject: [PATCH 35/87] fix: genericmap(mapping) and update() added equal keys
 twice; items() changed with the map

---
 lib/starlark_types.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 6130a42..c6d8765 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -217,14 +217,18 @@ func updateDict(dict *GenericMap, args starlark.Tuple, kwargs []starlark.Tuple)
 		if mapping, ok := arg.(starlark.IterableMapping); ok {
 			items := mapping.Items()
 			for _, item := range items {
-				dict.entries = append(dict.entries, item)
+				if err := dict.SetKey(item[0], item[1]); err != nil {
+					return err
+				}
 			}
 		} else {
 			return fmt.Errorf("genericmap: got %s, want mapping", arg.Type())
 		}
 	}
 	for _, kwarg := range kwargs {
-		dict.entries = append(dict.entries, kwarg)
+		if err := dict.SetKey(kwarg[0], kwarg[1]); err != nil {
+			return err
+		}
 	}
 	return nil
 }
@@ -310,11 +314,12 @@ func (g *GenericMap) Get(key starlark.Value) (v starlark.Value, found bool, err
 }
 
 func (g *GenericMap) SetKey(key, value starlark.Value) error {
-	for _, entry := range g.entries {
+	for i, entry := range g.entries {
 		if eq, err := starlark.Equal(entry[0], key); err != nil {
 			return fmt.Errorf("%s: %v", "genericmap", err)
 		} else if eq {
-			entry[1] = value
+			// A new tuple: items() may have handed out the old one.
+			g.entries[i] = starlark.Tuple{entry[0], value}
 			return nil
 		}
 	}
-- 
2.43.0


From b6a3651fb0434abdbe9cfcbad32b0a7f7d1c3fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:20 +0000
Subject: [PATCH 36/87] fix: genericset < and <= were true for incomparable
 sets; methods without arguments dereferenced nil; symmetric_difference with
 repeated elements

---
 lib/starlark_types.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index c6d8765..f5f8be7 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -593,8 +593,7 @@ func (g *GenericSet) CompareSameType(op syntax.Token, y_ starlark.Value, depth i
 		defer iter.Done()
 		return x.IsSuperset(iter)
 	case syntax.LE: // subset
-		gt, err := y.CompareSameType(syntax.GT, x, depth)
-		return !gt, err
+		return y.CompareSameType(syntax.GE, x, depth)
 	case syntax.GT: // proper superset
 		if x.Len() <= y.Len() {
 			return false, nil
@@ -603,8 +602,7 @@ func (g *GenericSet) CompareSameType(op syntax.Token, y_ starlark.Value, depth i
 		defer iter.Done()
 		return x.IsSuperset(iter)
 	case syntax.LT: // proper subset
-		ge, err := y.CompareSameType(syntax.GE, x, depth)
-		return !ge, err
+		return y.CompareSameType(syntax.GT, x, depth)
 	default:
 		return false, fmt.Errorf("%s %s %s not implemented", x.Type(), op, y.Type())
 	}
@@ -770,12 +768,18 @@ func (s *GenericSet) SymmetricDifference(other starlark.Iterator) (starlark.Valu
 	diff := s.clone()
 	var x starlark.Value
 	for other.Next(&x) {
-		found, err := diff.Delete(x)
+		// Look x up in s, not diff: other may repeat an element.
+		found, err := s.Has(x)
 		if err != nil {
 			return nil, err
 		}
-		if !found {
-			diff.Insert(x)
+		if found {
+			_, err = diff.Delete(x)
+		} else {
+			err = diff.Insert(x)
+		}
+		if err != nil {
+			return nil, err
 		}
 	}
 	return diff, nil
@@ -819,6 +823,9 @@ func set_difference(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple
 	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &other); err != nil {
 		return nil, err
 	}
+	if other == nil {
+		return b.Receiver().(*GenericSet).clone(), nil
+	}
 	iter := other.Iterate()
 	defer iter.Done()
 	diff, err := b.Receiver().(*GenericSet).Difference(iter)
@@ -835,6 +842,9 @@ func set_intersection(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tup
 	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &other); err != nil {
 		return nil, err
 	}
+	if other == nil {
+		return b.Receiver().(*GenericSet).clone(), nil
+	}
 	iter := other.Iterate()
 	defer iter.Done()
 	diff, err := b.Receiver().(*GenericSet).Intersection(iter)
@@ -858,7 +868,7 @@ func set_issubset(thread *starlark.Thread, b *starlark.Builtin, args starlark.Tu
 // https://github.com/google/starlark-go/blob/master/doc/spec.md#set_issuperset.
 func set_issuperset(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	var other starlark.Iterable
-	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &other); err != nil {
+	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 1, &other); err != nil {
 		return nil, err
 	}
 	iter := other.Iterate()
@@ -919,7 +929,7 @@ func set_remove(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kw
 // https://github.com/google/starlark-go/blob/master/doc/spec.md#set·symmetric_difference.
 func set_symmetric_difference(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	var other starlark.Iterable
-	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &other); err != nil {
+	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 1, &other); err != nil {
 		return nil, err
 	}
 	iter := other.Iterate()
@@ -937,6 +947,9 @@ func set_union(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwa
 	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &iterable); err != nil {
 		return nil, err
 	}
+	if iterable == nil {
+		return b.Receiver().(*GenericSet).clone(), nil
+	}
 	iter := iterable.Iterate()
 	defer iter.Done()
 	union, err := b.Receiver().(*GenericSet).Union(iter)
-- 
2.43.0


From e868a125efa007ad79913b67b8054528bf027659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:20 +0000
Subject: [PATCH 37/87] fix: equality of bags with equal elements of different
 text; bag.add_all(itself) did not end

---
 lib/starlark_types.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index f5f8be7..d706426 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -1024,17 +1024,29 @@ func bagEqual(elems []starlark.Value, elems2 []starlark.Value, depth int) (bool,
 	if len(elems) != len(elems2) {
 		return false, nil
 	}
-	for i, elem := range elems {
-		eq, err := starlark.EqualDepth(elem, elems2[i], depth)
-		if err != nil {
-			return false, err
+	// Equal elements need not be at the same position: the elements are ordered
+	// by their text, and equal elements can have different texts.
+	matched := make([]bool, len(elems2))
+	for _, elem := range elems {
+		found := false
+		for j, other := range elems2 {
+			if matched[j] {
+				continue
+			}
+			eq, err := starlark.EqualDepth(elem, other, depth-1)
+			if err != nil {
+				return false, err
+			}
+			if eq {
+				matched[j], found = true, true
+				break
+			}
 		}
-		if !eq {
+		if !found {
 			return false, nil
 		}
 	}
 	return true, nil
-
 }
 
 func (b *Bag) Attr(name string) (starlark.Value, error) {
@@ -1116,10 +1128,15 @@ func (b *Bag) Insert(val starlark.Value) error {
 }
 
 func (b *Bag) InsertAll(v starlark.Iterable) error {
+	// Collect the elements first: v can be this bag.
+	var elems []starlark.Value
 	iter := v.Iterate()
 	defer iter.Done()
 	var x starlark.Value
 	for iter.Next(&x) {
+		elems = append(elems, x)
+	}
+	for _, x := range elems {
 		if err := b.Insert(x); err != nil {
 			return err
 		}
-- 
2.43.0


From 0eaf9128fb38d66d90431d405c01467049fa691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:20 +0000
Subject: [PATCH 38/87] fix: ordinal values supported arithmetic (they are only
 ordered)

---
 lib/starlark_types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index d706426..63057ba 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -1444,8 +1444,8 @@ func (s *SymmetricValue) Binary(op syntax.Token, y starlark.Value, side starlark
 	if s.Kind == SymmetryKindRotational {
 		return s.binaryRotational(op, y, side)
 	}
-	if s.Kind != SymmetryKindInterval && s.Kind != SymmetryKindOrdinal {
-		return nil, nil // nominal doesn't support arithmetic
+	if s.Kind != SymmetryKindInterval {
+		return nil, nil // nominal and ordinal don't support arithmetic
 	}
 
 	if op == syntax.PLUS {
-- 
2.43.0


From ff0cd431261cbf2ccea7ed487d077101df7f8d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:41 +0000
Subject: [PATCH 39/87] fix: maps with equal keys that are collections built in
 another order were different states

---
 lib/jsonmarshaller.go | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/lib/jsonmarshaller.go b/lib/jsonmarshaller.go
index 683eb7a..d2ee98d 100644
--- a/lib/jsonmarshaller.go
+++ b/lib/jsonmarshaller.go
@@ -96,6 +96,43 @@ func MarshalJSON(obj interface{}) ([]byte, error) {
 	return json.Marshal(obj)
 }
 
+// hasUnorderedPart returns whether the value is or contains a collection whose String()
+// depends on the order its elements were added in.
+func hasUnorderedPart(v starlark.Value, depth int) bool {
+	switch v.Type() {
+	case "set", "genericset", "bag", "dict", "genericmap", "record", "struct":
+		return true
+	case "list", "tuple":
+		if depth > 20 {
+			return false
+		}
+		iter := v.(starlark.Iterable).Iterate()
+		defer iter.Done()
+		var x starlark.Value
+		for iter.Next(&x) {
+			if hasUnorderedPart(x, depth+1) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
+// canonicalizeKeys replaces the keys whose String() is not the same for equal keys.
+func canonicalizeKeys(items []starlark.Tuple, depth int) error {
+	for i, item := range items {
+		if hasUnorderedPart(item[0], depth) {
+			key, err := MarshalJSONStarlarkValue(item[0], depth)
+			if err != nil {
+				return err
+			}
+			// A new tuple: a genericmap hands out its own entries.
+			items[i] = starlark.Tuple{starlark.String(key), item[1]}
+		}
+	}
+	return nil
+}
+
 func MarshalJSONStarlarkValue(m starlark.Value, depth int) ([]byte, error) {
 	// TODO: using depth to limit the depth of recursion for json export to handle circular references.
 	// Ideally, this should be dealt with by managing the visited nodes in the graph.
@@ -160,6 +197,9 @@ func MarshalJSONStarlarkValue(m starlark.Value, depth int) ([]byte, error) {
 		return []byte(buf.String()), nil
 	case "genericmap", "dict":
 		items := m.(starlark.IterableMapping).Items()
+		if err := canonicalizeKeys(items, depth+1); err != nil {
+			return nil, err
+		}
 		// Sort items by key to have deterministic output
 		sort.Slice(items, func(i, j int) bool {
 			// Marshal keys to JSON and compare strings for more robust sorting
-- 
2.43.0


From 0e17bd75dd60694b1a769788070ecbdf3816d79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:52 +0000
Subject: [PATCH 40/87] fix: frames with equal values left in a loop's range
 were different when the values' texts differ

---
 modelchecker/thread.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 4341d7e..544ff97 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -204,7 +204,12 @@ func (s *Scope) Hash() hash.Hash {
 	}
 	h.Write(vars)
 	h.Write([]byte(fmt.Sprintln(sortedCopy(s.skipstmts))))
-	h.Write([]byte(fmt.Sprintln(s.loopRange)))
+	// Not fmt.Sprint: equal values can have different texts.
+	loopRange, err := lib.MarshalJSON(starlark.Tuple(s.loopRange))
+	if err != nil {
+		panic(err)
+	}
+	h.Write(loopRange)
 	return h
 }
 
-- 
2.43.0


From bd0e68d9e7fa4647f3c6892edea2860e49db6ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:35 +0000
Subject: [PATCH 41/87] fix: role instances that refer to each other in their
 fields made the checker overflow its stack

---
 modelchecker/clone.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/modelchecker/clone.go b/modelchecker/clone.go
index cd9b4d3..9f13951 100644
--- a/modelchecker/clone.go
+++ b/modelchecker/clone.go
@@ -247,35 +247,35 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 		if cached, ok := refs[value]; ok {
 			return cached, nil
 		} else {
+			newRole := &lib.Role{
+				ID:          id,
+				Name:        prefix,
+				Symmetric:   r.IsSymmetric(),
+				Methods:     r.Methods,
+				RoleMethods: r.RoleMethods,
+				InitValues:  r.InitValues,
+			}
+			// Before its fields are cloned: they can refer to the role itself.
+			refs[value] = newRole
 			params, err := deepCloneStarlarkValueWithPermutations(r.Params, refs, permutations, alt)
 			if err != nil {
 				return nil, err
 			}
+			newRole.Params = params.(*lib.Struct)
 			fields, err := deepCloneStarlarkValueWithPermutations(r.Fields, refs, permutations, alt)
 			if err != nil {
 				return nil, err
 			}
+			newRole.Fields = fields.(*lib.Struct)
 			// The initial values may refer to role instances: the clones' ones.
 			// (Permuted clones are made to compute hashes, which do not include them.)
-			initValues := r.InitValues
 			if permutations == nil {
 				cloned, err := deepCloneStarlarkValue(r.InitValues, refs)
 				if err != nil {
 					return nil, err
 				}
-				initValues = cloned.(*lib.Struct)
+				newRole.InitValues = cloned.(*lib.Struct)
 			}
-			newRole := &lib.Role{
-				ID:          id,
-				Name:        prefix,
-				Symmetric:   r.IsSymmetric(),
-				Params:      params.(*lib.Struct),
-				Fields:      fields.(*lib.Struct),
-				Methods:     r.Methods,
-				RoleMethods: r.RoleMethods,
-				InitValues:  initValues,
-			}
-			refs[value] = newRole
 			return newRole, nil
 		}
 	default:
-- 
2.43.0


From fe1d37d7d36da0361d20daeb33e8773fc9e0c669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:59 +0000
Subject: [PATCH 42/87] fix: printing role instances that refer to each other
 overflowed the stack

---
 lib/starlark_role.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/starlark_role.go b/lib/starlark_role.go
index 7f4edee..b59ecc7 100644
--- a/lib/starlark_role.go
+++ b/lib/starlark_role.go
@@ -56,6 +56,9 @@ type Role struct {
 	RoleMethods map[string]*starlark.Builtin
 	InitValues  *Struct
 
+	// printing is set while String() is in progress.
+	printing bool
+
 	// Ref field is removed. Use GetRef() to retrieve the integer ID from the ID field.
 }
 
@@ -127,6 +130,12 @@ func (r *Role) AttrNames() []string {
 }
 
 func (r *Role) String() string {
+	if r.printing {
+		// A field refers back to this role.
+		return r.RefString()
+	}
+	r.printing = true
+	defer func() { r.printing = false }()
 	b := strings.Builder{}
 	b.WriteString(fmt.Sprintf("role %s#%d (", r.Name, r.GetRef()))
 	if len(r.Params.AttrNames()) > 0 {
-- 
2.43.0


From 2436e99c4d6621f53e331659e569cf51ce42067b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:57 +0000
Subject: [PATCH 43/87] fix: after Init, a global variable and a role field no
 longer referred to the same object

---
 modelchecker/thread.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 544ff97..ec15571 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -1287,12 +1287,13 @@ func (t *Thread) executeEndOfBlockWithForks() ([]*Process, bool) {
 
 			if action, ok := protobuf.(*ast.Action); ok {
 				if action.Name == "Init" {
-					roleRefs := make(map[starlark.Value]starlark.Value)
-					for _, role := range t.Process.Roles {
-						roleRefs[role] = role
-					}
-					variables := oldScope.GetAllVisibleVariables(roleRefs)
+					// Not copies: the fields of roles may refer to the same objects.
+					variables := starlark.StringDict{}
+					oldScope.getAllVisibleVariablesToDictNoCopy(variables)
 					for s, value := range variables {
+						if typ := value.Type(); typ == "builtin_function_or_method" || typ == "module" || typ == "failed_module" {
+							continue
+						}
 						if !t.Process.Heap.globals.Has(s) && slices.Contains(t.Process.topLevelVars, s) {
 							t.Process.Heap.insert(s, value)
 						}
-- 
2.43.0


From 1085d8d97bc30051149db0cd66fdbf87b6382f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:57 +0000
Subject: [PATCH 44/87] fix: mutable values inside a struct were shared between
 all states

---
 modelchecker/clone.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/modelchecker/clone.go b/modelchecker/clone.go
index 9f13951..a09c173 100644
--- a/modelchecker/clone.go
+++ b/modelchecker/clone.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/fizzbee-io/fizzbee/lib"
 	"go.starlark.net/starlark"
+	"go.starlark.net/starlarkstruct"
 )
 
 func deepCloneStarlarkValue(value starlark.Value, refs map[starlark.Value]starlark.Value) (starlark.Value, error) {
@@ -25,13 +26,23 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 	// "builtin_function_or_method".
 	switch value.Type() {
 
-	case "NoneType", "int", "float", "bool", "string", "bytes", "function", "range", "struct", "symmetric_values", "Channel", "symmetry_domain":
+	case "NoneType", "int", "float", "bool", "string", "bytes", "function", "range", "symmetric_values", "Channel", "symmetry_domain":
 		//case starlark.Bool, starlark.String, starlark.Int:
 		// For simple values, just return a copy
-		// Also starlark struct is immutable
 		// symmetry_domain is stateless configuration (Name, Limit, DomainType)
 		return value, nil
 
+	case "struct":
+		// The attributes of a struct cannot be assigned, but the values can be mutable.
+		v := value.(*starlarkstruct.Struct)
+		attrs := starlark.StringDict{}
+		v.ToStringDict(attrs)
+		if allScalars(attrs) {
+			return value, nil
+		}
+		newVal := starlarkstruct.FromStringDict(v.Constructor(), CloneDict(attrs, refs, permutations, alt))
+		refs[value] = newVal
+		return newVal, nil
 	case "model_value":
 		// ModelValue is now a pointer type - clone it as a reference
 		v := value.(*lib.ModelValue)
@@ -283,6 +294,17 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 	}
 }
 
+func allScalars(dict starlark.StringDict) bool {
+	for _, v := range dict {
+		switch v.Type() {
+		case "NoneType", "int", "float", "bool", "string", "bytes":
+		default:
+			return false
+		}
+	}
+	return true
+}
+
 func deepCloneStringDict(v *starlark.Dict, refs map[starlark.Value]starlark.Value,
 	src map[*lib.SymmetricValue][]*lib.SymmetricValue, alt int) (*starlark.Dict, error) {
 
-- 
2.43.0


From 152a006b825c04d9f9000da4ea15ce1dfb7446d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:04 +0000
Subject: [PATCH 45/87] fix: fresh() did not see symmetric values stored inside
 a struct

---
 modelchecker/state_visitor.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/modelchecker/state_visitor.go b/modelchecker/state_visitor.go
index 866674d..d426e90 100644
--- a/modelchecker/state_visitor.go
+++ b/modelchecker/state_visitor.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/fizzbee-io/fizzbee/lib"
 	"go.starlark.net/starlark"
+	"go.starlark.net/starlarkstruct"
 )
 
 // StateVisitor defines the interface for visiting state elements during traversal
@@ -106,7 +107,7 @@ func visitStarlarkValue(value starlark.Value, visitor StateVisitor, visited map[
 
 	switch value.Type() {
 	case "NoneType", "int", "float", "bool", "string", "bytes", "function",
-		"builtin_function_or_method", "range", "struct", "symmetric_values",
+		"builtin_function_or_method", "range", "symmetric_values",
 		"model_value", "Channel":
 		return
 
@@ -180,6 +181,13 @@ func visitStarlarkValue(value starlark.Value, visitor StateVisitor, visited map[
 			visitStarlarkValue(val, visitor, visited)
 		}
 
+	case "struct":
+		attrs := starlark.StringDict{}
+		value.(*starlarkstruct.Struct).ToStringDict(attrs)
+		for _, val := range attrs {
+			visitStarlarkValue(val, visitor, visited)
+		}
+
 	case "role":
 		role := value.(*lib.Role)
 		if role.IsSymmetric() {
-- 
2.43.0


From cde605e068a4bcaad250092fe142f93b59bf461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:04 +0000
Subject: [PATCH 46/87] fix: the value chosen by any, or taken by a parallel
 for, was not the object that the variables refer to

---
 modelchecker/processor.go |  5 ++++-
 modelchecker/thread.go    | 29 +++++++++--------------------
 2 files changed, 13 insertions(+), 21 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 91d065f..fc7ed03 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -349,8 +349,11 @@ func (p *Process) IsYieldNode() bool {
 }
 
 func (p *Process) Fork() *Process {
-	refs := make(map[starlark.Value]starlark.Value)
+	return p.forkWithRefs(make(map[starlark.Value]starlark.Value))
+}
 
+// forkWithRefs is Fork, and leaves in refs the clone of each of the objects that were cloned.
+func (p *Process) forkWithRefs(refs map[starlark.Value]starlark.Value) *Process {
 	p2 := &Process{
 		Name:      p.Name,
 		Heap:      p.Heap.Clone(refs, nil, 0),
diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index ec15571..dc1bfdf 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -704,17 +704,13 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		var x starlark.Value
 		for iter.Next(&x) {
 			//fmt.Printf("anyVariable: x: %s\n", x.String())
-			fork := t.Process.Fork()
+			refs := make(map[starlark.Value]starlark.Value)
+			fork := t.Process.forkWithRefs(refs)
 			fork.Name = fmt.Sprintf("Any:%s=%s", stmt.AnyStmt.LoopVars[0], x.String())
 			fork.ChoiceFairness = stmt.AnyStmt.Fairness.GetLevel()
-			if r, ok := x.(*lib.Role); ok {
-				for _, role := range fork.Roles {
-					if r.RefString() == role.RefString() {
-						x = role
-						break
-					}
-				}
-			}
+			// The element as this fork sees it: its variables refer to clones of the parent's objects.
+			x, err = deepCloneStarlarkValue(x, refs)
+			fork.PanicOnError(stmt.AnyStmt.GetSourceInfo(), "Error copying the element", err)
 			if stmt.AnyStmt.Block == nil {
 				fork.updateVariable(stmt.AnyStmt.LoopVars[0], x)
 			} else {
@@ -1157,18 +1153,11 @@ func (t *Thread) executeForStatement() ([]*Process, bool) {
 		// This is a subtle difference, but it will be important in the future for performance analysis. After all,
 		// if anyone uses parallel flow, it is to speed up.
 		fork := t.Process.Fork()
-		if r, ok := x.(*lib.Role); ok {
-			for _, role := range fork.Roles {
-				if r.RefString() == role.RefString() {
-					x = role
-					break
-				}
-			}
-		}
-		fork.currentThread().currentFrame().scope.vars[scope.loopVars[0]] = x
+		forkScope := fork.currentThread().currentFrame().scope
+		// The elements as this fork sees them: its variables refer to clones of the parent's objects.
+		forkScope.vars[scope.loopVars[0]] = forkScope.loopRange[i]
 		fork.Name = fmt.Sprintf("For:%s", x.String())
-		newSlice := removeElement(scope.loopRange, i)
-		fork.currentThread().currentFrame().scope.loopRange = newSlice
+		forkScope.loopRange = removeElement(forkScope.loopRange, i)
 
 		forks = append(forks, fork)
 	}
-- 
2.43.0


From 6c1654349fd5d71e76d140022210fb96631b199d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:29 +0000
Subject: [PATCH 47/87] fix: a transition assertion that changed 'before'
 changed the explored state

---
 modelchecker/invariants.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index bc4f80f..c53f650 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -276,7 +276,7 @@ func CheckTransitionAssertion(process *Process, invariant *ast.Invariant, index
 	}
 	cloned := process.CloneForAssert(nil, 0)
 	cloned.Heap.state[afterParam] = starlarkstruct.FromStringDict(starlark.String(afterParam), cloned.Heap.state)
-	cloned.Heap.state[beforeParam] = starlarkstruct.FromStringDict(starlark.String(beforeParam), process.previousYield().Heap.state)
+	cloned.Heap.state[beforeParam] = starlarkstruct.FromStringDict(starlark.String(beforeParam), process.previousYield().CloneForAssert(nil, 0).Heap.state)
 
 	return execAssertionFunction(cloned, index, invariant)
 }
-- 
2.43.0


From 2669fb9e5a4ad0971742af2403be9261507337fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:04 +0000
Subject: [PATCH 48/87] fix: a role used as a mapping key is written as a
 reference

A role keyed in a dict held by its own field made the JSON marshaller recurse until the
stack overflowed, and the state identity depended on the whole contents of the key.
---
 lib/jsonmarshaller.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/jsonmarshaller.go b/lib/jsonmarshaller.go
index d2ee98d..589564e 100644
--- a/lib/jsonmarshaller.go
+++ b/lib/jsonmarshaller.go
@@ -100,7 +100,7 @@ func MarshalJSON(obj interface{}) ([]byte, error) {
 // depends on the order its elements were added in.
 func hasUnorderedPart(v starlark.Value, depth int) bool {
 	switch v.Type() {
-	case "set", "genericset", "bag", "dict", "genericmap", "record", "struct":
+	case "set", "genericset", "bag", "dict", "genericmap", "record", "struct", "role":
 		return true
 	case "list", "tuple":
 		if depth > 20 {
@@ -121,7 +121,10 @@ func hasUnorderedPart(v starlark.Value, depth int) bool {
 // canonicalizeKeys replaces the keys whose String() is not the same for equal keys.
 func canonicalizeKeys(items []starlark.Tuple, depth int) error {
 	for i, item := range items {
-		if hasUnorderedPart(item[0], depth) {
+		if role, ok := item[0].(*Role); ok {
+			// A reference, as anywhere else in a value: the role can hold this very mapping.
+			items[i] = starlark.Tuple{starlark.String(role.RefString()), item[1]}
+		} else if hasUnorderedPart(item[0], depth) {
 			key, err := MarshalJSONStarlarkValue(item[0], depth)
 			if err != nil {
 				return err
-- 
2.43.0


From b32525f80b5e7d0adc96df892468edd29e2870cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:04 +0000
Subject: [PATCH 49/87] fix: symmetry reduction of materialized ordinal and
 interval domains

All values of a materialized domain exist, so states using different positions of it are
not alike; only the mirror image is, when reflection is on.
---
 modelchecker/processor.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index fc7ed03..46e6899 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2991,7 +2991,25 @@ func getSymmetryPermutations(process *Process) (*Process, map[starlark.Value]sta
 				canonical[j] = lib.NewSymmetricValueWithKind(prefix, int64(j), kind)
 			}
 
-			if kind == lib.SymmetryKindOrdinal {
+			if domain := domainMap[prefix]; domain != nil && domain.Materialize &&
+				(kind == lib.SymmetryKindOrdinal || kind == lib.SymmetryKindInterval) {
+				// All values of the domain exist, so values at different positions are not alike
+				// and only the mirror image is an equivalent state.
+				start := int64(0)
+				if kind == lib.SymmetryKindInterval {
+					start = int64(domain.Start)
+				}
+				reflected := make([]*lib.SymmetricValue, len(used))
+				for j, v := range used {
+					canonical[j] = lib.NewSymmetricValueWithKind(prefix, v.GetId()-start, kind)
+					reflected[j] = lib.NewSymmetricValueWithKind(prefix, int64(domain.Limit)-1-(v.GetId()-start), kind)
+				}
+				postProcessingMappings = append(postProcessingMappings, staticMapping{used: used, canonical: canonical})
+				if domain.Reflection {
+					extraMappingForPost[len(postProcessingMappings)-1] = len(rotationalExtraMappings)
+					rotationalExtraMappings = append(rotationalExtraMappings, []staticMapping{{used: used, canonical: reflected}})
+				}
+			} else if kind == lib.SymmetryKindOrdinal {
 				domain := domainMap[prefix]
 				if domain != nil && domain.Reflection {
 					// Ordinal with reflection: forward (0..N-1) and reverse (N-1..0)
-- 
2.43.0


From 62d831d30c2dada91704b7ed8f512258d91cebac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:53 +0000
Subject: [PATCH 50/87] fix: cloning a role held by a bag of its own field

---
 modelchecker/clone.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modelchecker/clone.go b/modelchecker/clone.go
index a09c173..32d64f8 100644
--- a/modelchecker/clone.go
+++ b/modelchecker/clone.go
@@ -265,6 +265,9 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 				Methods:     r.Methods,
 				RoleMethods: r.RoleMethods,
 				InitValues:  r.InitValues,
+				// Empty for now: a bag orders its elements by their text.
+				Params: lib.FromStringDict(r.Params.Constructor(), starlark.StringDict{}),
+				Fields: lib.FromStringDict(r.Fields.Constructor(), starlark.StringDict{}),
 			}
 			// Before its fields are cloned: they can refer to the role itself.
 			refs[value] = newRole
-- 
2.43.0


From 19a5fc040da5306c11c323a2abf762bfad7fc48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:41 +0000
Subject: [PATCH 51/87] fix: symmetry reduction merged choices in the middle of
 transitions from different states

A choice point is identified together with the state its transition started from when there
are transition assertions, but that state was not renamed with it.
---
 modelchecker/processor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 46e6899..0a122d9 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2778,7 +2778,10 @@ func (p *Processor) findVisitedSymmetric(node *Node) (*Node, bool, string) {
 	// system (MBT): links reference concrete identities, and a canonically
 	// renamed destination state would not match them. Exact-duplicate
 	// states still dedup via the plain hash.
-	if p.simulation || p.disableSymmetryReduction {
+	// A choice in the middle of a transition that is going to be checked is not
+	// renamed either: the state where the transition started would have to be
+	// renamed with it.
+	if p.simulation || p.disableSymmetryReduction || node.choicePoint && node.hasTransitionChecks() {
 		hash := node.HashCode()
 		other, ok := p.visited[hash]
 		return other, ok, hash
-- 
2.43.0


From a5ca58bb654b14963305afbfc71ec12c25034383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:37 +0000
Subject: [PATCH 52/87] fix: next_states() in the middle of a parallel block

---
 modelchecker/processor.go | 179 +++++++++++++++++++++-----------------
 1 file changed, 97 insertions(+), 82 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 0a122d9..0294935 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1526,7 +1526,7 @@ func (p *Processor) InitializeNode() (*Node, *Node, error) {
 		}
 		process.Enable()
 		process.Heap.state = globals
-		failed := CheckInvariantsWithProber(process, p.makeProber(process))
+		failed := CheckInvariantsWithProber(process, p.makeProber(process, nil))
 		if len(failed[0]) > 0 {
 			p.Init.Process.FailedInvariants = failed
 			if !p.config.ContinuePathOnInvariantFailures {
@@ -1911,12 +1911,12 @@ func (p *Processor) printPeakSummary() {
 // makeProber wraps probeNextStates in a lazily-evaluated, memoized closure.
 // The probe runs only if some assertion actually calls next_states(), and at
 // most once per checked state even when multiple assertions call it.
-func (p *Processor) makeProber(process *Process) NextStatesProber {
+func (p *Processor) makeProber(process *Process, forks []*Process) NextStatesProber {
 	var cache []*NextTransition
 	done := false
 	return func() []*NextTransition {
 		if !done {
-			cache = p.probeNextStates(process)
+			cache = p.probeNextStates(process, forks)
 			done = true
 		}
 		return cache
@@ -1967,13 +1967,13 @@ type NextTransition struct {
 //
 // Crash variants are intentionally excluded: a crash is not a witness that
 // an action is possible.
-func (p *Processor) probeNextStates(process *Process) []*NextTransition {
+//
+// forks are the alternatives the current thread goes on with when it stopped
+// between the statements of a parallel block (see publishYieldPoint).
+func (p *Processor) probeNextStates(process *Process, forks []*Process) []*NextTransition {
 	snapshot := lib.SnapshotGlobalRefs()
 	defer lib.RestoreGlobalRefs(snapshot)
 
-	// Temp wrapper node; ForkForAction/ForkForAlternatePaths only read it.
-	base := &Node{Process: process}
-
 	type probeStart struct {
 		node   *Node
 		name   string
@@ -1984,88 +1984,103 @@ func (p *Processor) probeNextStates(process *Process) []*NextTransition {
 	}
 	starts := make([]*probeStart, 0)
 
-	// 1. Continuations of in-flight threads (non-atomic actions mid-way).
-	for i, thread := range process.Threads {
-		if thread == nil || thread.currentPc() == "" {
-			continue
+	bases := forks
+	if len(bases) == 0 {
+		bases = []*Process{process}
+	}
+	for _, base := range bases {
+		// A step enables the processes it was forked from: fork from a copy,
+		// so that probing leaves no trace on the explored ones.
+		process := new(Process)
+		*process = *base
+		process.Parent = nil
+		process.Children = nil
+		// Temp wrapper node; ForkForAction/ForkForAlternatePaths only read it.
+		base := &Node{Process: process}
+
+		// 1. Continuations of in-flight threads (non-atomic actions mid-way).
+		for i, thread := range process.Threads {
+			if thread == nil || thread.currentPc() == "" {
+				continue
+			}
+			name := fmt.Sprintf("thread-%d", i)
+			nn := base.ForkForAlternatePaths(process.Fork(), name)
+			nn.Current = i
+			nn.ThreadProgress = true
+			starts = append(starts, &probeStart{node: nn, name: name, kind: "thread"})
+		}
+
+		// 2. Pending channel message deliveries (mirrors scheduleChannelMessages).
+		for i, msgs := range process.ChannelMessages {
+			for j := range msgs {
+				linkName := fmt.Sprintf("channel-%d-message-%d", i, j)
+				nn := base.ForkForAlternatePaths(process.Fork(), linkName)
+				newMsg := nn.ChannelMessages[i][j]
+				nn.ChannelMessages[i] = append(nn.ChannelMessages[i][:j], nn.ChannelMessages[i][j+1:]...)
+				thread := nn.Process.NewThread()
+				thread.Stack.Pop()
+				thread.Stack.Push(newMsg.Frame())
+				starts = append(starts, &probeStart{node: nn, name: linkName, kind: "channel"})
+			}
 		}
-		name := fmt.Sprintf("thread-%d", i)
-		nn := base.ForkForAlternatePaths(thread.Process.Fork(), name)
-		nn.Current = i
-		nn.ThreadProgress = true
-		starts = append(starts, &probeStart{node: nn, name: name, kind: "thread"})
-	}
 
-	// 2. Pending channel message deliveries (mirrors scheduleChannelMessages).
-	for i, msgs := range process.ChannelMessages {
-		for j := range msgs {
-			linkName := fmt.Sprintf("channel-%d-message-%d", i, j)
-			nn := base.ForkForAlternatePaths(process.Fork(), linkName)
-			newMsg := nn.ChannelMessages[i][j]
-			nn.ChannelMessages[i] = append(nn.ChannelMessages[i][:j], nn.ChannelMessages[i][j+1:]...)
+		// 3. Fresh global actions (mirrors scheduleAction, minus the cap checks).
+		for i, action := range p.Files[0].Actions {
+			if action.Name == "Init" {
+				continue
+			}
+			nn := base.ForkForAction(nil, nil, action)
 			thread := nn.Process.NewThread()
-			thread.Stack.Pop()
-			thread.Stack.Push(newMsg.Frame())
-			starts = append(starts, &probeStart{node: nn, name: linkName, kind: "channel"})
+			frame := thread.currentFrame()
+			frame.pc = fmt.Sprintf("Actions[%d]", i)
+			frame.Name = action.Name
+			starts = append(starts, &probeStart{node: nn, name: action.Name, kind: "action", action: action.Name})
 		}
-	}
 
-	// 3. Fresh global actions (mirrors scheduleAction, minus the cap checks).
-	for i, action := range p.Files[0].Actions {
-		if action.Name == "Init" {
-			continue
-		}
-		nn := base.ForkForAction(nil, nil, action)
-		thread := nn.Process.NewThread()
-		frame := thread.currentFrame()
-		frame.pc = fmt.Sprintf("Actions[%d]", i)
-		frame.Name = action.Name
-		starts = append(starts, &probeStart{node: nn, name: action.Name, kind: "action", action: action.Name})
-	}
-
-	// 4. Fresh role actions for every live role instance.
-	if len(process.Roles) > 0 {
-		roleMap := make(map[string]int)
-		for i, role := range p.Files[0].Roles {
-			roleMap[role.Name] = i
-		}
-		for _, role := range process.Roles {
-			if role == nil {
-				continue
-			}
-			roleIndex, ok := roleMap[role.Name]
-			if !ok {
-				continue
+		// 4. Fresh role actions for every live role instance.
+		if len(process.Roles) > 0 {
+			roleMap := make(map[string]int)
+			for i, role := range p.Files[0].Roles {
+				roleMap[role.Name] = i
 			}
-			roleAst := p.Files[0].Roles[roleIndex]
-			for i, action := range roleAst.Actions {
-				if action.Name == "Init" {
+			for _, role := range process.Roles {
+				if role == nil {
 					continue
 				}
-				nn := base.ForkForAction(nil, role, action)
-				thread := nn.Process.NewThread()
-				frame := thread.currentFrame()
-				for _, r := range nn.Roles {
-					if r != nil && r.RefStringShort() == role.RefStringShort() {
-						frame.obj = r
-						break
-					}
-				}
-				if frame.obj == nil {
-					// Role no longer reachable in this state (mirrors the
-					// same filter in scheduleAction).
+				roleIndex, ok := roleMap[role.Name]
+				if !ok {
 					continue
 				}
-				frame.pc = fmt.Sprintf("Roles[%d].Actions[%d]", roleIndex, i)
-				frame.Name = role.Name + "." + action.Name
-				starts = append(starts, &probeStart{
-					node:   nn,
-					name:   role.RefStringShort() + "." + action.Name,
-					kind:   "action",
-					role:   role.RefStringShort(),
-					roleId: role.GetId(),
-					action: action.Name,
-				})
+				roleAst := p.Files[0].Roles[roleIndex]
+				for i, action := range roleAst.Actions {
+					if action.Name == "Init" {
+						continue
+					}
+					nn := base.ForkForAction(nil, role, action)
+					thread := nn.Process.NewThread()
+					frame := thread.currentFrame()
+					for _, r := range nn.Roles {
+						if r != nil && r.RefStringShort() == role.RefStringShort() {
+							frame.obj = r
+							break
+						}
+					}
+					if frame.obj == nil {
+						// Role no longer reachable in this state (mirrors the
+						// same filter in scheduleAction).
+						continue
+					}
+					frame.pc = fmt.Sprintf("Roles[%d].Actions[%d]", roleIndex, i)
+					frame.Name = role.Name + "." + action.Name
+					starts = append(starts, &probeStart{
+						node:   nn,
+						name:   role.RefStringShort() + "." + action.Name,
+						kind:   "action",
+						role:   role.RefStringShort(),
+						roleId: role.GetId(),
+						action: action.Name,
+					})
+				}
 			}
 		}
 	}
@@ -2534,7 +2549,7 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	}
 	var failedInvariants map[int][]int
 	if yield {
-		failedInvariants = CheckInvariantsWithProber(node.Process, p.makeProber(node.Process))
+		failedInvariants = CheckInvariantsWithProber(node.Process, p.makeProber(node.Process, forks))
 	}
 	if len(failedInvariants[0]) > 0 {
 		//panic(fmt.Sprintf("Invariant failed: %v", failedInvariants))
@@ -2675,7 +2690,7 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 		}
 	}
 
-	failedInvariants := CheckInvariantsWithProber(crashFork, p.makeProber(crashFork))
+	failedInvariants := CheckInvariantsWithProber(crashFork, p.makeProber(crashFork, crashNode.crashForks))
 	if len(failedInvariants[0]) > 0 {
 		crashNode.Process.FailedInvariants = failedInvariants
 		if !p.config.ContinuePathOnInvariantFailures {
@@ -2722,7 +2737,7 @@ func (p *Processor) crashThread(node *Node) {
 	}
 	// TODO: We could just copy the failed invariants from the parent
 	// instead of checking again
-	CheckInvariantsWithProber(crashFork, p.makeProber(crashFork))
+	CheckInvariantsWithProber(crashFork, p.makeProber(crashFork, nil))
 	if node.Process.Enabled {
 		crashNode.Enable()
 	}
-- 
2.43.0


From 2d8ed2fa295fd37fc001e36cace33acae00cfe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:37 +0000
Subject: [PATCH 53/87] fix: the arguments of a recorded call were written in
 random order

---
 modelchecker/processor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 0294935..2c74b27 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -921,8 +921,8 @@ func (p *Process) RecordCall(callerFrame *CallFrame, receiverFrame *CallFrame, f
 	if receiverFrame.obj != nil {
 		msg.Receivers = []string{receiverFrame.obj.RefStringShort()}
 	}
-	for name, value := range receiverFrame.vars {
-		str := strings.ReplaceAll(value.String(), lib.SymmetryPrefix, "")
+	for _, name := range receiverFrame.vars.Keys() {
+		str := strings.ReplaceAll(receiverFrame.vars[name].String(), lib.SymmetryPrefix, "")
 		msg.Values = append(msg.Values, &ast.NameValue{Name: name, Value: str})
 	}
 	if flow != ast.Flow_FLOW_ATOMIC {
-- 
2.43.0


From 658b117ff5bd8e3007fe73449ffbe1ef1c2f49cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:37 +0000
Subject: [PATCH 54/87] fix: roles waiting for a call crashed after another
 role had

---
 modelchecker/processor.go | 61 +++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 35 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 2c74b27..f9424c2 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2608,9 +2608,12 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 }
 
 func (p *Processor) crashProcess(node *Node) *Node {
-	// For each thread, iterate over the stack frames from the deepest to the top.
-	// find all the roles that present in the nested layers of the stack frames, but not at the top in each thread.
-	safeRolesList := make([]*lib.Role, 0)
+	return p.crashRoles(node, nil)
+}
+
+// waitingRoles finds the roles that present in the nested layers of the stack frames, but not at the top, of some thread.
+func waitingRoles(node *Node) []*lib.Role {
+	waiting := make([]*lib.Role, 0)
 	for _, thread := range node.GetThreads() {
 		frames := thread.Stack.RawArray()
 		if len(frames) <= 1 {
@@ -2622,45 +2625,33 @@ func (p *Processor) crashProcess(node *Node) *Node {
 			if role == nil || role == topFrame.obj {
 				continue
 			}
-			safeRolesList = append(safeRolesList, role)
+			waiting = append(waiting, role)
 		}
 	}
-	roleMap := make(map[string]int)
-	for i, role := range p.Files[0].Roles {
-		roleMap[role.Name] = i
-	}
-	failedNode := p.crashRoles(node, slices.Clone(safeRolesList))
-	if failedNode != nil {
-		return failedNode
-	}
-	//for _, role := range node.Roles {
-	//	if !slices.Contains(safeRolesList, role) {
-	//		failedNode := p.crashRoles(node, role, slices.Clone(safeRolesList))
-	//		if failedNode != nil {
-	//			return failedNode
-	//		}
-	//	}
-	//}
-	return nil
+	return waiting
 }
 
-func (p *Processor) crashRoles(node *Node, safeRolesList []*lib.Role) *Node {
+// crashRoles crashes any of the roles, and then any of the others. The roles that crashed already are
+// given by their reference, as those of a crashed node are copies.
+func (p *Processor) crashRoles(node *Node, crashed []string) *Node {
 	var failedNode *Node
 	var crashNode *Node
+	waiting := waitingRoles(node)
 	for _, role := range node.Roles {
-		if !slices.Contains(safeRolesList, role) {
-			crashNode, failedNode = p.crashRole(node, role)
-			if failedNode != nil {
-				return failedNode
-			}
-			if crashNode == nil {
-				continue
-			}
-			failedNode = p.crashRoles(crashNode, slices.Clone(append(safeRolesList, role)))
-			crashNode.crashForks = nil
-			if failedNode != nil {
-				return failedNode
-			}
+		if role == nil || slices.Contains(waiting, role) || slices.Contains(crashed, role.RefString()) {
+			continue
+		}
+		crashNode, failedNode = p.crashRole(node, role)
+		if failedNode != nil {
+			return failedNode
+		}
+		if crashNode == nil {
+			continue
+		}
+		failedNode = p.crashRoles(crashNode, append(slices.Clone(crashed), role.RefString()))
+		crashNode.crashForks = nil
+		if failedNode != nil {
+			return failedNode
 		}
 	}
 	return failedNode
-- 
2.43.0


From 249e890af07459b1501d1e85cab630c5c94ab7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:16 +0000
Subject: [PATCH 55/87] fix: channel ids counted up from one execution to the
 next

---
 lib/starlark_channels.go  | 15 ++++-----------
 lib/starlark_role.go      |  8 +++-----
 modelchecker/processor.go |  4 ++--
 3 files changed, 9 insertions(+), 18 deletions(-)

diff --git a/lib/starlark_channels.go b/lib/starlark_channels.go
index 5a1c80f..69a02e3 100644
--- a/lib/starlark_channels.go
+++ b/lib/starlark_channels.go
@@ -5,14 +5,6 @@ import (
     "go.starlark.net/starlark"
 )
 
-var (
-    nextChannelId = 0
-)
-
-func ClearChannelRefs() {
-    nextChannelId = 0
-}
-
 // Channel represents a custom Starlark object
 type Channel struct {
     Id       int    `json:"id"`
@@ -96,9 +88,10 @@ func CreateChannelBuiltin(channels map[int]*Channel) *starlark.Builtin {
             return nil, fmt.Errorf("unsupported channel configuration: ordering=%q, delivery=%q, blocking=%q."+
                 " Only (unordered, exactly_once, fire_and_forget) channel is supported at this moment", ordering, delivery, blocking)
         }
-        newChannel := &Channel{Id: nextChannelId, ordering: ordering, delivery: delivery, blocking: blocking}
-        channels[nextChannelId] = newChannel
-        nextChannelId++
+        // Like the ids of roles, channel ids depend on the state only.
+        id := len(channels)
+        newChannel := &Channel{Id: id, ordering: ordering, delivery: delivery, blocking: blocking}
+        channels[id] = newChannel
         return newChannel, nil
     })
 }
diff --git a/lib/starlark_role.go b/lib/starlark_role.go
index b59ecc7..3cd6dd6 100644
--- a/lib/starlark_role.go
+++ b/lib/starlark_role.go
@@ -23,14 +23,13 @@ func ClearRoleRefs() {
 }
 
 // GlobalRefsSnapshot captures the package-level allocation counters that
-// action execution mutates as a side effect (role refs, channel ids).
+// action execution mutates as a side effect (role refs).
 // Speculative execution that will be discarded (e.g. the next_states()
 // assertion probe) must snapshot before executing and restore after, so the
 // discarded runs don't shift the ref numbering of subsequent real
 // exploration.
 type GlobalRefsSnapshot struct {
-	roleRefs      map[string]int64
-	nextChannelId int
+	roleRefs map[string]int64
 }
 
 func SnapshotGlobalRefs() GlobalRefsSnapshot {
@@ -38,12 +37,11 @@ func SnapshotGlobalRefs() GlobalRefsSnapshot {
 	for k, v := range roleRefs {
 		copied[k] = v
 	}
-	return GlobalRefsSnapshot{roleRefs: copied, nextChannelId: nextChannelId}
+	return GlobalRefsSnapshot{roleRefs: copied}
 }
 
 func RestoreGlobalRefs(s GlobalRefsSnapshot) {
 	roleRefs = s.roleRefs
-	nextChannelId = s.nextChannelId
 }
 
 type Role struct {
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index f9424c2..d4b1724 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -395,7 +395,7 @@ func (p *Process) forkWithRefs(refs map[starlark.Value]starlark.Value) *Process
 	}
 	p2.Threads = clonedThreads
 	p2.Roles = MapRoleValuesInOrder(refs, p.Roles)
-	p2.Channels = make(map[int]*lib.Channel)
+	p2.Channels = maps.Clone(p.Channels)
 	p2.ChannelMessages = make(map[int][]*ChannelMessage)
 	for i, msgs := range p.ChannelMessages {
 		p2.ChannelMessages[i] = make([]*ChannelMessage, len(msgs))
@@ -465,7 +465,7 @@ func (p *Process) CloneWithRefs(permutations map[*lib.SymmetricValue][]*lib.Symm
 	}
 	p2.Threads = clonedThreads
 	p2.Roles = MapRoleValuesInOrder(refs, p.Roles)
-	p2.Channels = make(map[int]*lib.Channel)
+	p2.Channels = maps.Clone(p.Channels)
 	p2.ChannelMessages = make(map[int][]*ChannelMessage)
 	for i, msgs := range p.ChannelMessages {
 		p2.ChannelMessages[i] = make([]*ChannelMessage, len(msgs))
-- 
2.43.0


From 35a50fdf665f0f223fa2704409798f2990b65e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:23 +0000
Subject: [PATCH 56/87] fix: role instances that only pending channel messages
 refer to were lost

---
 modelchecker/processor.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index d4b1724..9944eec 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -394,7 +394,6 @@ func (p *Process) forkWithRefs(refs map[starlark.Value]starlark.Value) *Process
 		clonedThreads[i].Process = p2
 	}
 	p2.Threads = clonedThreads
-	p2.Roles = MapRoleValuesInOrder(refs, p.Roles)
 	p2.Channels = maps.Clone(p.Channels)
 	p2.ChannelMessages = make(map[int][]*ChannelMessage)
 	for i, msgs := range p.ChannelMessages {
@@ -403,6 +402,8 @@ func (p *Process) forkWithRefs(refs map[starlark.Value]starlark.Value) *Process
 			p2.ChannelMessages[i][j] = msg.Clone(refs, nil, 0)
 		}
 	}
+	// After the messages: some instances are referred to by messages only.
+	p2.Roles = MapRoleValuesInOrder(refs, p.Roles)
 	if p.RotationalLastAllocated != nil {
 		p2.RotationalLastAllocated = make(map[string]int64, len(p.RotationalLastAllocated))
 		for k, v := range p.RotationalLastAllocated {
@@ -464,7 +465,6 @@ func (p *Process) CloneWithRefs(permutations map[*lib.SymmetricValue][]*lib.Symm
 		clonedThreads[i].Process = p2
 	}
 	p2.Threads = clonedThreads
-	p2.Roles = MapRoleValuesInOrder(refs, p.Roles)
 	p2.Channels = maps.Clone(p.Channels)
 	p2.ChannelMessages = make(map[int][]*ChannelMessage)
 	for i, msgs := range p.ChannelMessages {
@@ -473,6 +473,8 @@ func (p *Process) CloneWithRefs(permutations map[*lib.SymmetricValue][]*lib.Symm
 			p2.ChannelMessages[i][j] = msg.Clone(refs, permutations, alt)
 		}
 	}
+	// After the messages: some instances are referred to by messages only.
+	p2.Roles = MapRoleValuesInOrder(refs, p.Roles)
 	return p2
 }
 
-- 
2.43.0


From 41dd9a223c001131df60ebd6664a8920c9592a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:23 +0000
Subject: [PATCH 57/87] fix: messages delivered in the middle of a parallel
 block lost its thread

---
 modelchecker/processor.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 9944eec..dc9764d 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -3361,7 +3361,7 @@ func (p *Processor) YieldNode(node *Node) {
 			p.enqueueScheduled(newNode)
 		}
 	}
-	p.scheduleChannelMessages(node)
+	p.scheduleChannelMessages(node, node.Process)
 	if node.actionDepth >= int(p.config.Options.MaxActions) ||
 		node.GetThreadsCount() >= int(p.config.Options.MaxConcurrentActions) {
 		return
@@ -3413,7 +3413,7 @@ func (p *Processor) YieldFork(node *Node, process *Process) {
 			p.enqueueScheduled(newNode)
 		}
 	}
-	p.scheduleChannelMessages(node)
+	p.scheduleChannelMessages(node, process)
 	if node.actionDepth >= int(p.config.Options.MaxActions) ||
 		process.GetThreadsCount() >= int(p.config.Options.MaxConcurrentActions) {
 
@@ -3428,11 +3428,16 @@ func (p *Processor) YieldFork(node *Node, process *Process) {
 	}
 }
 
-func (p *Processor) scheduleChannelMessages(node *Node) {
-	for i, msgs := range node.ChannelMessages {
-		for j, _ := range msgs {
+func (p *Processor) scheduleChannelMessages(node *Node, process *Process) {
+	channelKeys := make([]int, 0, len(process.ChannelMessages))
+	for k := range process.ChannelMessages {
+		channelKeys = append(channelKeys, k)
+	}
+	sort.Ints(channelKeys)
+	for _, i := range channelKeys {
+		for j := range process.ChannelMessages[i] {
 			linkName := fmt.Sprintf("channel-%d-message-%d", i, j)
-			newNode := node.ForkForAlternatePaths(node.Process.Fork(), linkName)
+			newNode := node.ForkForAlternatePaths(process.Fork(), linkName)
 			newNode.clearCrashName(linkName)
 			newMsg := newNode.ChannelMessages[i][j]
 			newNode.ChannelMessages[i] = append(newNode.ChannelMessages[i][:j], newNode.ChannelMessages[i][j+1:]...)
-- 
2.43.0


From d59892dfa614a27a189f57dee9c76b6e88813a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:23 +0000
Subject: [PATCH 58/87] fix: a message handler that returns a value crashed the
 checker

---
 modelchecker/thread.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index dc1bfdf..b9738e7 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -862,8 +862,10 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 					t.Process.Returns[convertToFunction(function).Name] = val
 				} else if _, ok := action.(*ast.Role); ok {
 					actionPath = pathComp[0] + "." + pathComp[1]
-					action1 = GetProtoFieldByPath(fileAst, actionPath).(*ast.Action)
-					t.Process.Returns[oldFrame.obj.RefStringShort()+"."+convertToAction(action1).Name] = val
+					// A role function at the bottom of the stack handles a channel message: nobody waits for its value.
+					if action1, ok := GetProtoFieldByPath(fileAst, actionPath).(*ast.Action); ok {
+						t.Process.Returns[oldFrame.obj.RefStringShort()+"."+action1.Name] = val
+					}
 					t.Process.Enable()
 				} else {
 					panic(fmt.Sprintf("Unknown protobuf type: %T, value %v at path %s", action, action, currentFrame.pc))
-- 
2.43.0


From 414531ef0cd12157f00bc4c949fa32d62c48c654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:24 +0000
Subject: [PATCH 59/87] fix: a pre-init hook was ignored when the model has no
 constants

---
 modelchecker/processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index dc9764d..ac652e4 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1516,7 +1516,7 @@ func (p *Processor) InitializeNode() (*Node, *Node, error) {
 	process.Modules = modules
 	p.Init = NewNode(process)
 
-	if len(p.Files[0].Stmts) > 0 {
+	if len(p.Files[0].Stmts) > 0 || p.preinitHookContent != "" {
 		processPreInit(p.Init, p.Files[0].Stmts, p.preinitHookContent)
 	}
 
-- 
2.43.0


From cee19092e146af07518630cba3cb713840e20eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:24 +0000
Subject: [PATCH 60/87] fix: functions did not see the constants overridden by
 the pre-init hook

---
 modelchecker/processor.go | 14 ++++++++++++++
 modelchecker/starlark.go  | 22 ++++++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index ac652e4..5651176 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2411,6 +2411,20 @@ func processPreInit(init *Node, stmts []*ast.Statement, preinitHookContent strin
 			panic(fmt.Sprintf("Error executing preinit hook: %v", err))
 		}
 
+		// Functions look up globals where they were defined: define those the
+		// hook left alone again, for them to see the overridden constants.
+		for _, stmt := range stmts {
+			name, ok := init.Process.Evaluator.definedFunction(stmt.GetPyStmt())
+			if !ok {
+				continue
+			}
+			if function, ok := globals[name].(*starlark.Function); !ok || hookGlobals[name] != function {
+				continue
+			}
+			_, err := init.Process.Evaluator.ExecPyStmt(stmt.GetSourceInfo().GetFileName(), stmt.GetPyStmt(), hookGlobals)
+			init.Process.PanicOnError(stmt.GetSourceInfo(), fmt.Sprintf("Error executing statement: %s", stmt.GetPyStmt().GetCode()), err)
+		}
+
 		// Copy back only top-level vars (may have been overridden by the hook)
 		for _, name := range init.Process.topLevelVars {
 			if v, ok := hookGlobals[name]; ok {
diff --git a/modelchecker/starlark.go b/modelchecker/starlark.go
index acd62cb..aa2b889 100644
--- a/modelchecker/starlark.go
+++ b/modelchecker/starlark.go
@@ -88,3 +88,25 @@ func (e *Evaluator) ExecPyStmtWithContext(filename string, stmt *ast.PyStmt, pre
 	}
 	return true, nil
 }
+
+// definedFunction returns the name of the function that the statement (def, or
+// the assignment of a lambda) defines.
+func (e *Evaluator) definedFunction(stmt *ast.PyStmt) (string, bool) {
+	if stmt == nil {
+		return "", false
+	}
+	f, err := e.options.Parse("", stmt.Code, 0)
+	if err != nil || len(f.Stmts) != 1 {
+		return "", false
+	}
+	switch s := f.Stmts[0].(type) {
+	case *syntax.DefStmt:
+		return s.Name.Name, true
+	case *syntax.AssignStmt:
+		_, lambda := s.RHS.(*syntax.LambdaExpr)
+		if name, ok := s.LHS.(*syntax.Ident); ok && lambda && s.Op == syntax.EQ {
+			return name.Name, true
+		}
+	}
+	return "", false
+}
-- 
2.43.0


From 2c4b3797c5f62b77677c95981480e60bafefa0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:42 +0000
Subject: [PATCH 61/87] fix: reporting a failure in a parallel action crashed

---
 modelchecker/thread.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index b9738e7..6f09963 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -1391,6 +1391,10 @@ type CodeSnippet interface {
 }
 
 func (t *Thread) CurrentPcSourceInfo() *ast.SourceInfo {
+	if t.currentPc() == "" {
+		// All that is left of a parallel block is its alternatives.
+		return &ast.SourceInfo{}
+	}
 	protoMsg := GetProtoFieldByPath(t.currentFileAst(), t.currentPc())
 	if protoMsg == nil {
 		return &ast.SourceInfo{}
-- 
2.43.0


From ae7b7ff8364fbc358f5d24b35a913b41e064fb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:25 +0000
Subject: [PATCH 62/87] fix: liveness given as a yaml boolean, as documented,
 was rejected

---
 modelchecker/options.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/modelchecker/options.go b/modelchecker/options.go
index 749e962..ae38178 100644
--- a/modelchecker/options.go
+++ b/modelchecker/options.go
@@ -1,13 +1,18 @@
 package modelchecker
 
 import (
+	"encoding/json"
 	"fizz/proto"
 	"github.com/fizzbee-io/fizzbee/lib"
+	"os"
 )
 
 func ReadOptionsFromYaml(filename string) (*proto.StateSpaceOptions, error) {
-	msg := &proto.StateSpaceOptions{}
-	err := lib.ReadProtoFromFile(filename, msg)
+	contents, err := os.ReadFile(filename)
+	if err != nil {
+		return nil, err
+	}
+	msg, err := ReadOptionsFromYamlString(string(contents))
 	if err != nil {
 		return nil, err
 	}
@@ -25,7 +30,22 @@ func ReadOptionsFromYaml(filename string) (*proto.StateSpaceOptions, error) {
 
 func ReadOptionsFromYamlString(contents string) (*proto.StateSpaceOptions, error) {
 	msg := &proto.StateSpaceOptions{}
-	err := lib.ReadProtoFromBytes([]byte(contents), msg)
+	jsonBytes, err := lib.YamlToJson([]byte(contents))
+	if err != nil {
+		return nil, err
+	}
+	// liveness may be given as a yaml boolean as well as a string.
+	var fields map[string]json.RawMessage
+	if err = json.Unmarshal(jsonBytes, &fields); err != nil {
+		return nil, err
+	}
+	if l := string(fields["liveness"]); l == "true" || l == "false" {
+		fields["liveness"] = json.RawMessage(`"` + l + `"`)
+		if jsonBytes, err = json.Marshal(fields); err != nil {
+			return nil, err
+		}
+	}
+	err = lib.ReadProtoFromBytes(jsonBytes, msg)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 2eab8f1dfe800a74796794de7fe2759d6055a464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:25 +0000
Subject: [PATCH 63/87] fix: options that consist of comments only were
 rejected

---
 modelchecker/options.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modelchecker/options.go b/modelchecker/options.go
index ae38178..a5c949a 100644
--- a/modelchecker/options.go
+++ b/modelchecker/options.go
@@ -39,6 +39,9 @@ func ReadOptionsFromYamlString(contents string) (*proto.StateSpaceOptions, error
 	if err = json.Unmarshal(jsonBytes, &fields); err != nil {
 		return nil, err
 	}
+	if fields == nil { // nothing but comments
+		return msg, nil
+	}
 	if l := string(fields["liveness"]); l == "true" || l == "false" {
 		fields["liveness"] = json.RawMessage(`"` + l + `"`)
 		if jsonBytes, err = json.Marshal(fields); err != nil {
-- 
2.43.0


From 1ce6a151c4c332d95d4d0ace87373e025bd818fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:20 +0000
Subject: [PATCH 64/87] fix: a front matter with its own max_actions kept the
 concurrency limit derived from the one in fizz.yaml

---
 main.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 468b131..91c5ec9 100644
--- a/main.go
+++ b/main.go
@@ -1008,7 +1008,15 @@ func applyDefaultStateOptions(stateConfig *ast.StateSpaceOptions) {
 func loadStateOptions(dirPath string, f *ast.FrontMatter) *ast.StateSpaceOptions {
 	configFileName := filepath.Join(dirPath, "fizz.yaml")
 	fmt.Println("configFileName:", configFileName)
-	stateConfig, err := modelchecker.ReadOptionsFromYaml(configFileName)
+	var stateConfig *ast.StateSpaceOptions
+	contents, err := os.ReadFile(configFileName)
+	if err == nil {
+		// Unlike ReadOptionsFromYaml, this leaves the options that are not given to the front matter.
+		stateConfig, err = modelchecker.ReadOptionsFromYamlString(string(contents))
+	}
+	if err == nil && stateConfig.Options == nil {
+		stateConfig.Options = &ast.Options{}
+	}
 	if err != nil {
 		if errors.Is(err, os.ErrNotExist) {
 			if isPlayground {
-- 
2.43.0


From 2a728e33356b65e7a3348914cb31226aca9dc16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:53 +0000
Subject: [PATCH 65/87] fix: a simulation dropped actions after a crash whose
 step starts with a choice, and reported a deadlock

---
 modelchecker/processor.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 5651176..7087385 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2255,11 +2255,10 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 				p.intermediateStates.ClearAll()
 				break
 			}
-			if !inCrashPath {
-				if p.intermediateStates.Len() == 0 {
-					break
-				}
+			if p.intermediateStates.Len() != 0 {
 				node, _ = p.intermediateStates.Remove()
+			} else if !inCrashPath {
+				break
 			} else {
 				hasAnotherCrashAction := false
 				var anotherCrashNode *Node
-- 
2.43.0


From 2d41d81ba3d77b3659f0409636d5f217e7f87945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:45 +0000
Subject: [PATCH 66/87] fix: the first simulation run of a model with liveness
 assertions switched crashes off for the runs after it

---
 modelchecker/processor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 7087385..99f9ae5 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2190,7 +2190,8 @@ func (p *Processor) StartSimulation() (init *Node, failedNode *Node, err error)
 			//fmt.Println("Max actions reached, switching to liveness", p.config.Options.MaxActions)
 			liveness = true
 			p.config.Options.MaxActions = 2 * maxActions
-			*p.config.Options.CrashOnYield = false
+			noCrash := false
+			p.config.Options.CrashOnYield = &noCrash
 		} else if (liveness || !livenessEnabled) && node.actionDepth > int(p.config.Options.MaxActions) {
 			//fmt.Println("Max actions reached", p.config.Options.MaxActions)
 			continue
-- 
2.43.0


From 19b9d55b3a02608d0a8b4250ad1cdf5968bbe6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:37 +0000
Subject: [PATCH 67/87] fix: quotes in the value of a choice or in a return
 value broke the dot files

---
 modelchecker/graph.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/modelchecker/graph.go b/modelchecker/graph.go
index 55d3731..4d9fb4f 100644
--- a/modelchecker/graph.go
+++ b/modelchecker/graph.go
@@ -281,6 +281,14 @@ func removeMergeNodes(currentNode *Node, parentNode *Node, visited map[*Node]boo
 	return removed
 }
 
+// escapeDotLabel quotes a text so that it can be put between double quotes in a
+// dot file. The text can contain escaped quotes itself (in the values of choices
+// and in the return values).
+func escapeDotLabel(label string) string {
+	label = strings.ReplaceAll(label, "\\", "\\\\")
+	return strings.ReplaceAll(label, "\"", "\\\"")
+}
+
 func GenerateDotFile(node *Node, visited map[*Node]bool) string {
 	re := regexp.MustCompile(`\\+`)
 	dotGraph := "digraph G {\n"
@@ -337,7 +345,7 @@ func GenerateDotFile(node *Node, visited map[*Node]bool) string {
 			if len(child.ThreadsMap) > 0 {
 				label += fmt.Sprintf("\n ThreadsMap: %v", child.ThreadsMap)
 			}
-			label = strings.ReplaceAll(label, "\"", "\\\"")
+			label = escapeDotLabel(label)
 			edgewidth := 1
 			edgecolor := "black"
 
@@ -426,7 +434,7 @@ func GenerateFailurePath(nodes []*Link, name string, invariant *InvariantPositio
 		}
 
 		if parentID != "" {
-			label := strings.ReplaceAll(link.Name, "\"", "\\\"")
+			label := escapeDotLabel(link.Name)
 			edgewidth := 1
 			edgecolor := "black"
 
-- 
2.43.0


From afbbe1bef4098cb6c098f33d65c7e85a229944b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:37 +0000
Subject: [PATCH 68/87] fix: the links of the saved error path lacked their
 type and thread map

---
 modelchecker/graph.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/modelchecker/graph.go b/modelchecker/graph.go
index 4d9fb4f..2b0ebe9 100644
--- a/modelchecker/graph.go
+++ b/modelchecker/graph.go
@@ -174,15 +174,21 @@ func GenerateErrorPathProtoOfJson(errorPath []*Link, pathPrefix string) ([]strin
 	for i, outboundLink := range errorPath[1:] {
 		outLinkName := outboundLink.Name
 		outLinkName = strings.ReplaceAll(outLinkName, lib.SymmetryPrefix, "")
+		intMap := make(map[int64]int64)
+		for k, v := range outboundLink.ThreadsMap {
+			intMap[int64(k)] = int64(v)
+		}
 		protoLink := &proto.Link{
-			ReqId:    int64(outboundLink.ReqId),
-			Src:      int64(i),
-			Dest:     int64(i + 1),
-			Name:     outboundLink.Name,
-			Labels:   outboundLink.Labels,
-			Messages: outboundLink.Messages,
-			Weight:   1.0,
-			Returns:  returnsToNameValues(outboundLink.Returns),
+			ReqId:           int64(outboundLink.ReqId),
+			Src:             int64(i),
+			Dest:            int64(i + 1),
+			Name:            outLinkName,
+			Labels:          outboundLink.Labels,
+			Messages:        outboundLink.Messages,
+			Weight:          1.0,
+			NewToOldThreads: intMap,
+			Type:            outboundLink.Type,
+			Returns:         returnsToNameValues(outboundLink.Returns),
 		}
 		links = append(links, protoLink)
 
-- 
2.43.0


From 145e2493a55b01104147dbab47e38853264b95ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:37 +0000
Subject: [PATCH 69/87] fix: the communication diagram was written in random
 order

---
 modelchecker/graph.go | 47 +++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/modelchecker/graph.go b/modelchecker/graph.go
index 2b0ebe9..383c4c3 100644
--- a/modelchecker/graph.go
+++ b/modelchecker/graph.go
@@ -526,8 +526,9 @@ func GenerateCommunicationGraph(messages []string) string {
 		}
 	}
 
-	for roleName, replicated := range roleNames {
-		if replicated {
+	// The same messages give the same diagram: nothing is written in the order of a map.
+	for _, roleName := range sortedKeys(roleNames) {
+		if roleNames[roleName] {
 			// Add a html type node table to represent replicated service
 			// for example, if there are multiple instances of Participant, we will have
 			//     "Participant" [shape=none label=<
@@ -543,17 +544,21 @@ func GenerateCommunicationGraph(messages []string) string {
 			builder.WriteString("      </table>>]\n")
 		}
 	}
-	for p, m := range uniqueMessages {
+	pairs := make([]lib.Pair[string, string], 0, len(uniqueMessages))
+	for p := range uniqueMessages {
+		pairs = append(pairs, p)
+	}
+	sort.Slice(pairs, func(i, j int) bool {
+		if pairs[i].First != pairs[j].First {
+			return pairs[i].First < pairs[j].First
+		}
+		return pairs[i].Second < pairs[j].Second
+	})
+	for _, p := range pairs {
 		sender := p.First
 		receiver := p.Second
 		// Concatenate all the messages
-		label := ""
-		for message := range m {
-			if label != "" {
-				label += ", "
-			}
-			label += message
-		}
+		label := strings.Join(sortedKeys(uniqueMessages[p]), ", ")
 		// add a edge between sender and receiver
 		senderPorts := []string{}
 		if roleNames[sender] {
@@ -575,7 +580,8 @@ func GenerateCommunicationGraph(messages []string) string {
 		}
 	}
 
-	for receiver, actions := range uniqueActions {
+	for _, receiver := range sortedKeys(uniqueActions) {
+		actions := uniqueActions[receiver]
 		// for each receiver, add the actions
 		// - if the action is unfair add a hidden node and add an edge from the action to the receiver with action name as label
 		// - if there is at least one fair action, add a html table hidden node with one row for each action with no label and port name as action name
@@ -583,8 +589,8 @@ func GenerateCommunicationGraph(messages []string) string {
 
 		// Add a hidden node for each action
 		hasFairAction := false
-		for action, fairness := range actions {
-
+		for _, action := range sortedKeys(actions) {
+			fairness := actions[action]
 			if fairness == proto.FairnessLevel_FAIRNESS_LEVEL_UNKNOWN || fairness == proto.FairnessLevel_FAIRNESS_LEVEL_UNFAIR {
 				actionNodeName := fmt.Sprintf("action%s%s", receiver, action)
 				builder.WriteString(fmt.Sprintf("  \"%s\" [label=\"\" shape=\"none\"]\n", actionNodeName))
@@ -595,7 +601,8 @@ func GenerateCommunicationGraph(messages []string) string {
 		}
 		if hasFairAction {
 			builder.WriteString(fmt.Sprintf("  \"FairAction%s\" [shape=none label=<<table cellpadding=\"14\" cellspacing=\"8\" style=\"invisible\"><tr>\n", receiver))
-			for action, fairness := range actions {
+			for _, action := range sortedKeys(actions) {
+				fairness := actions[action]
 				if !(fairness == proto.FairnessLevel_FAIRNESS_LEVEL_UNKNOWN || fairness == proto.FairnessLevel_FAIRNESS_LEVEL_UNFAIR) {
 					builder.WriteString(fmt.Sprintf("      <td port=\"%s\"></td>\n", action))
 				}
@@ -603,7 +610,8 @@ func GenerateCommunicationGraph(messages []string) string {
 			builder.WriteString("      </tr></table>>]\n")
 			// Make the FairAction node at the same rank as the receiver
 			builder.WriteString(fmt.Sprintf("  { rank=same; \"%s\"; \"FairAction%s\"; }\n", receiver, receiver))
-			for action, fairness := range actions {
+			for _, action := range sortedKeys(actions) {
+				fairness := actions[action]
 				if !(fairness == proto.FairnessLevel_FAIRNESS_LEVEL_UNKNOWN || fairness == proto.FairnessLevel_FAIRNESS_LEVEL_UNFAIR) {
 					builder.WriteString(fmt.Sprintf("  \"FairAction%s\":%s -> \"%s\" [label=\"%s\"];\n", receiver, action, receiver, action))
 				}
@@ -615,6 +623,15 @@ func GenerateCommunicationGraph(messages []string) string {
 	return builder.String()
 }
 
+func sortedKeys[V any](m map[string]V) []string {
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func ReverseLink(node *Node, link *Link) *Link {
 	// Shallow copy link.
 	// change the link.Node to node
-- 
2.43.0


From 36bc1a41df2f3a8b6d41b599ac53879835d40df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:37 +0000
Subject: [PATCH 70/87] fix: calls made by an action that changes nothing were
 missing from the communication diagram

---
 modelchecker/markovchain.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/modelchecker/markovchain.go b/modelchecker/markovchain.go
index c0c9b58..b127835 100644
--- a/modelchecker/markovchain.go
+++ b/modelchecker/markovchain.go
@@ -567,10 +567,9 @@ func traverseBFS(rootNode *Node, maxActions int64) ([]*Node, []string, *Node, in
 		for _, link := range node.Outbound {
 			queue.Enqueue(link.Node)
 
-			if link.Type == "action" {
-				if node == link.Node || node.HashCode() == link.Node.HashCode() {
-					continue
-				}
+			// An action that changes nothing is not part of the communication
+			// diagram, the calls it makes are.
+			if link.Type == "action" && node != link.Node && node.HashCode() != link.Node.HashCode() {
 				messageKey := link.Name
 				if _, ok := msgSet[messageKey]; ok {
 					msgSet[messageKey]++
-- 
2.43.0


From d0a3938f65f7d116065e17d5facae174e089d7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:37 +0000
Subject: [PATCH 71/87] fix: names of steps were not escaped in
 error-states.html

---
 modelchecker/visualization.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modelchecker/visualization.go b/modelchecker/visualization.go
index 4e0b67b..f10e20c 100644
--- a/modelchecker/visualization.go
+++ b/modelchecker/visualization.go
@@ -42,9 +42,10 @@ func writeRow(tmpl *template.Template, file *os.File, rowNum, lineNum int, name
 	if nodeName != "yield" {
 		nodeName = ""
 	}
-	contentStr := name
+	// the name of a choice has its value, which can be any text
+	contentStr := html.EscapeString(name)
 	if lineNum > 0 {
-		contentStr = fmt.Sprintf("%s<br><p id=\"line-%d-ref\" class=\"line-num\">Next Instr: %d<p>", name, lineNum, lineNum)
+		contentStr = fmt.Sprintf("%s<br><p id=\"line-%d-ref\" class=\"line-num\">Next Instr: %d<p>", contentStr, lineNum, lineNum)
 	}
 	if isEnd {
 		contentStr += "<br><span style=\"color: gray; font-weight: 100;\">(thread ended)</span>"
-- 
2.43.0


From dbf8457842d144be7279f612079de506e8cb842e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:10 +0000
Subject: [PATCH 72/87] fix: the Go plugin panicked on unsigned integers in
 states and return values

---
 mbt/lib/go/plugin_service.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mbt/lib/go/plugin_service.go b/mbt/lib/go/plugin_service.go
index d11e3d9..2875ae0 100644
--- a/mbt/lib/go/plugin_service.go
+++ b/mbt/lib/go/plugin_service.go
@@ -495,8 +495,10 @@ func fromAnyToProtoValue(value any) *pb.Value {
 	switch rv.Kind() {
 	case reflect.String:
 		return &pb.Value{Kind: &pb.Value_StrValue{StrValue: rv.String()}}
-	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return &pb.Value{Kind: &pb.Value_IntValue{IntValue: rv.Int()}}
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return &pb.Value{Kind: &pb.Value_IntValue{IntValue: int64(rv.Uint())}}
 	case reflect.Bool:
 		return &pb.Value{Kind: &pb.Value_BoolValue{BoolValue: rv.Bool()}}
 	case reflect.Map:
-- 
2.43.0


From d1b168b18f60defe63c4d3bf85f1c7f40ad17831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:10 +0000
Subject: [PATCH 73/87] fix: a request for an unknown action crashed the Go
 plugin

---
 mbt/lib/go/plugin_service.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbt/lib/go/plugin_service.go b/mbt/lib/go/plugin_service.go
index 2875ae0..a5a720d 100644
--- a/mbt/lib/go/plugin_service.go
+++ b/mbt/lib/go/plugin_service.go
@@ -298,6 +298,9 @@ func (s *FizzBeeMbtPluginServer) newCommand(req *pb.ExecuteActionRequest) (*Exec
 	roleId := req.GetRole().GetRoleId()
 	actionName := req.GetActionName()
 	action := s.actions[roleName][actionName]
+	if action == nil {
+		return nil, fmt.Errorf("action %s not found for role %s", actionName, roleName)
+	}
 	var instance Role
 	var err error
 	if roleName == "" {
-- 
2.43.0


From ad671c8ca19b26cb935adf1e1c0f697cc3a94e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:50 +0000
Subject: [PATCH 74/87] fix: actions after an unimplemented one in a sequence
 were reported as OK without being executed

---
 mbt/lib/go/plugin_service.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbt/lib/go/plugin_service.go b/mbt/lib/go/plugin_service.go
index a5a720d..2c57b1a 100644
--- a/mbt/lib/go/plugin_service.go
+++ b/mbt/lib/go/plugin_service.go
@@ -210,7 +210,8 @@ func (s *FizzBeeMbtPluginServer) executeSequencesSequential(
 
 func (s *FizzBeeMbtPluginServer) executeSequence(cmds []*ExecuteActionCommand, seqIdx int) error {
 	for actIdx, cmd := range cmds {
-		if err := s.executeCommand(cmd); err != nil {
+		// An action that is not implemented is reported as such, the remaining ones of the sequence are still due
+		if err := s.executeCommand(cmd); err != nil && !errors.Is(err, ErrNotImplemented) {
 			return fmt.Errorf(
 				"execution failed: sequence index %d, action index %d: %w",
 				seqIdx, actIdx, err,
-- 
2.43.0


From 8a17ef6f75be612d2c74d18ecd6120b710634fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:22 +0000
Subject: [PATCH 75/87] fix: composition gave up at transitions that only some
 of the specs have

---
 main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 91c5ec9..6cb501f 100644
--- a/main.go
+++ b/main.go
@@ -382,8 +382,8 @@ func ComposeTransitions(f *ast.File, joinHashes modelchecker.JoinHashes, roots [
 		}
 	}
 	for key, sets := range joinHashes {
-		if len(sets) < 2 {
-			return fmt.Errorf("need at least 2 transition sets for key %s", key)
+		if len(sets) < len(roots) {
+			continue // at least one of the specs has no such transition
 		}
 
 		failedNode, failedTransition := cartesianProduct(sets, func(ts []lib.Pair[*modelchecker.Node, *modelchecker.Node]) (*ComposedNode, *ComposedTransition) {
-- 
2.43.0


From 91b3ebb4917306b2f4165730a2c8ce64d661b224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:46 +0000
Subject: [PATCH 76/87] fix: a violated transition assertion of a composition
 crashed the checker

---
 main.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/main.go b/main.go
index 6cb501f..3bdf397 100644
--- a/main.go
+++ b/main.go
@@ -1256,11 +1256,11 @@ func GenerateTransitionFailurePath(from, to *ComposedNode, composition *ast.Comp
 
 	// Virtual merge node for FROM
 	mergedFromID := "\"composite_before\""
-	addCompositeNode(builder, mergedFromID, lastFromNodeIDs)
+	addCompositeNode(&builder, mergedFromID, "Composite before", lastFromNodeIDs)
 
 	// Virtual merge node for TO
 	mergedToID := "\"composite_after\""
-	addCompositeNode(builder, mergedToID, lastToNodeIDs)
+	addCompositeNode(&builder, mergedToID, "Composite after", lastToNodeIDs)
 	builder.WriteString(fmt.Sprintf("  %s -> %s [style=dashed, color=red];\n", mergedFromID, mergedToID))
 	builder.WriteString("}\n")
 	dotStr := builder.String()
@@ -1270,10 +1270,10 @@ func GenerateTransitionFailurePath(from, to *ComposedNode, composition *ast.Comp
 	}
 }
 
-func addCompositeNode(builder strings.Builder, mergedFromID string, lastFromNodeIDs []string) {
-	builder.WriteString(fmt.Sprintf("  %s [label=\"Composite before\", shape=doubleoctagon, style=filled, fillcolor=orange];\n", mergedFromID))
-	for _, id := range lastFromNodeIDs {
-		builder.WriteString(fmt.Sprintf("  %s -> %s [arrowhead=none, style=dashed, color=gray];\n", id, mergedFromID))
+func addCompositeNode(builder *strings.Builder, mergedID string, label string, lastNodeIDs []string) {
+	builder.WriteString(fmt.Sprintf("  %s [label=\"%s\", shape=doubleoctagon, style=filled, fillcolor=orange];\n", mergedID, label))
+	for _, id := range lastNodeIDs {
+		builder.WriteString(fmt.Sprintf("  %s -> %s [arrowhead=none, style=dashed, color=gray];\n", id, mergedID))
 	}
 }
 
-- 
2.43.0


From d4abd74721df53236674095f7134c309d3dceb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:10 +0000
Subject: [PATCH 77/87] fix: a violated refinement was not reported when other
 choices of the same step remained

---
 modelchecker/processor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 99f9ae5..349fde0 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2502,6 +2502,11 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 		if len(node.Process.Files[0].Refinements) > 0 {
 			result := CheckRefinement(node.Process, p.Files[0].Refinements[0], p.hashes)
 			if !result {
+				node.Name = "yield"
+				if !p.experimentalNoGraph {
+					node.Attach()
+				}
+				p.intermediateStates.ClearAll()
 				return true, false
 			}
 		}
-- 
2.43.0


From a22df85c179adaf840e393d2791c08a1b3889aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:10 +0000
Subject: [PATCH 78/87] fix: transitions of a spec through a shared choice
 point were missing from composition and refinement

---
 main.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/main.go b/main.go
index 3bdf397..631fa27 100644
--- a/main.go
+++ b/main.go
@@ -502,7 +502,12 @@ func ParseFunctionRef(input string) (string, string, error) {
 }
 
 func populateJoinHashes(joinHashes modelchecker.JoinHashes, i int, root *modelchecker.Node, fileRef string, fnRef string) {
-	visited := make(map[*modelchecker.Node]bool)
+	type step struct {
+		from, current *modelchecker.Node
+	}
+	// Nodes between two yield points are visited once for every yield point they
+	// are reached from, as each of those has its own transitions through them.
+	visited := make(map[step]bool)
 
 	var dfs func(from *modelchecker.Node, current *modelchecker.Node)
 	dfs = func(from *modelchecker.Node, current *modelchecker.Node) {
@@ -510,15 +515,17 @@ func populateJoinHashes(joinHashes modelchecker.JoinHashes, i int, root *modelch
 		if from != nil && current.IsYieldNode() {
 			addToJoinHashes(joinHashes, i, from, current, fnRef)
 		}
-		if visited[current] {
+		if current.IsYieldNode() {
+			from = current // update 'from' for child traversal
+		}
+		if visited[step{from, current}] {
 			return
 		}
-		visited[current] = true
+		visited[step{from, current}] = true
 
 		if current.IsYieldNode() {
 			// Add stuttering (to, to) link for new Nodes discovered
 			addToJoinHashes(joinHashes, i, current, current, fnRef)
-			from = current // update 'from' for child traversal
 		}
 
 		for _, child := range current.Outbound {
-- 
2.43.0


From 20caadf0ba46faf8f77c879a471ae6d8a02eac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:10 +0000
Subject: [PATCH 79/87] fix: composition took steps that only change fields of
 roles for stuttering

---
 main.go                    | 2 +-
 modelchecker/invariants.go | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/main.go b/main.go
index 631fa27..8f8d33f 100644
--- a/main.go
+++ b/main.go
@@ -390,7 +390,7 @@ func ComposeTransitions(f *ast.File, joinHashes modelchecker.JoinHashes, roots [
 			// Check if all transitions are stuttering
 			allStuttering := true
 			for _, t := range ts {
-				if t.First.Heap.HashCode() != t.Second.Heap.HashCode() {
+				if !t.First.SameStateVariables(t.Second.Process) {
 					allStuttering = false
 					break
 				}
diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index c53f650..15dc004 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -29,7 +29,7 @@ func CheckRefinement(process *Process, refinement *ast.Refinement, joinHashes Jo
 		return true
 	}
 	before := process.previousYield()
-	if process.sameStateVariables(before) {
+	if process.SameStateVariables(before) {
 		return true
 	}
 	fnName := ""
@@ -62,9 +62,9 @@ func (p *Process) previousYield() *Process {
 	return before
 }
 
-// sameStateVariables reports whether the state variables, including the fields
+// SameStateVariables reports whether the state variables, including the fields
 // of the roles, are the same in both processes.
-func (p *Process) sameStateVariables(other *Process) bool {
+func (p *Process) SameStateVariables(other *Process) bool {
 	return p.Heap.ToJson() == other.Heap.ToJson() && p.rolesJson() == other.rolesJson()
 }
 
@@ -102,7 +102,7 @@ func CheckTransitionInvariants(process *Process) map[int][]int {
 	if process.Parent == nil {
 		return nil
 	}
-	if process.sameStateVariables(process.previousYield()) {
+	if process.SameStateVariables(process.previousYield()) {
 		// Stutter step: satisfied by definition.
 		return nil
 	}
-- 
2.43.0


From 304e3fd459a4523d216b416f4fc12bf552c50864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:21 +0000
Subject: [PATCH 80/87] fix: probabilities that add up to 1 were rejected for
 rounding errors

---
 modelchecker/perf_checker.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modelchecker/perf_checker.go b/modelchecker/perf_checker.go
index 702cabe..498f0d6 100644
--- a/modelchecker/perf_checker.go
+++ b/modelchecker/perf_checker.go
@@ -33,7 +33,8 @@ func genTransitionMatrix(nodes []*Node, model *proto.PerformanceModel) [][]float
             totalProb += linkProb
             linkProbabilities[outboundLink] = linkProb
         }
-        if totalProb > 1.0 {
+        // Probabilities that add up to 1 may exceed it by a rounding error.
+        if totalProb > 1.0+1e-9 {
             panic("Total probability for a node cannot exceed 1")
         }
         if totalProb == 0 {
-- 
2.43.0


From 9f2ee4c0eae81e51181e382ad3675a55bdf4d804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:21 +0000
Subject: [PATCH 81/87] fix: the cost of reaching a live state ignored the
 probabilities of the performance model

---
 modelchecker/markovchain.go  | 8 ++++----
 modelchecker/perf_checker.go | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/modelchecker/markovchain.go b/modelchecker/markovchain.go
index b127835..af9fc50 100644
--- a/modelchecker/markovchain.go
+++ b/modelchecker/markovchain.go
@@ -217,7 +217,7 @@ func FindAbsorptionCosts(root *Node, perfModel *proto.PerformanceModel, fileId i
 	//fmt.Println("Yields", yields)
 	yields += 1 // Add the root node
 
-	transitionMatrix := createAbsorptionTransitionMatrix(nodes, fileId, invariantId)
+	transitionMatrix := createAbsorptionTransitionMatrix(nodes, perfModel, fileId, invariantId)
 	//printMatrix(transitionMatrix)
 	initialDistribution := make([]float64, len(nodes))
 	for i, _ := range initialDistribution {
@@ -232,8 +232,8 @@ func FindAbsorptionCosts(root *Node, perfModel *proto.PerformanceModel, fileId i
 	return steadstate, histogram
 }
 
-func createAbsorptionTransitionMatrix(nodes []*Node, fileId int, invariantId int) [][]float64 {
-	transitionMatrix := createTransitionMatrix(nodes)
+func createAbsorptionTransitionMatrix(nodes []*Node, perfModel *proto.PerformanceModel, fileId int, invariantId int) [][]float64 {
+	transitionMatrix := genTransitionMatrix(nodes, perfModel)
 	//fmt.Printf("\nTransition Matrix:\n%v\n", transitionMatrix)
 
 	//printMatrix(transitionMatrix)
@@ -265,7 +265,7 @@ func checkLivenessAndCost(root *Node, perfModel *proto.PerformanceModel, fileId
 	fmt.Println("Yields", yields)
 	yields += 1 // Add the root node
 
-	transitionMatrix := createAbsorptionTransitionMatrix(nodes, fileId, invariantId)
+	transitionMatrix := createAbsorptionTransitionMatrix(nodes, perfModel, fileId, invariantId)
 	//printMatrix(transitionMatrix)
 	initialDistribution := make([]float64, len(nodes))
 	for i, _ := range initialDistribution {
diff --git a/modelchecker/perf_checker.go b/modelchecker/perf_checker.go
index 498f0d6..588541d 100644
--- a/modelchecker/perf_checker.go
+++ b/modelchecker/perf_checker.go
@@ -28,7 +28,7 @@ func genTransitionMatrix(nodes []*Node, model *proto.PerformanceModel) [][]float
             }
             linkProb := 0.0
             for _, label := range outboundLink.Labels {
-                linkProb += model.Configs[label].GetProbability()
+                linkProb += model.GetConfigs()[label].GetProbability()
             }
             totalProb += linkProb
             linkProbabilities[outboundLink] = linkProb
-- 
2.43.0


From 03e4d23e0579a7eb29df97353fc93d638baba648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:21 +0000
Subject: [PATCH 82/87] fix: steps after a live state was reached were added to
 the cost of reaching it

---
 modelchecker/markovchain.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modelchecker/markovchain.go b/modelchecker/markovchain.go
index af9fc50..4acfd80 100644
--- a/modelchecker/markovchain.go
+++ b/modelchecker/markovchain.go
@@ -145,6 +145,12 @@ func markovChainAnalysis(nodes []*Node, perfModel *proto.PerformanceModel, trans
 	for counterName, matrix := range matrices {
 		m := transpose(matrix)
 		expectedCounterMatrices[counterName] = multiplyMatrices(m, transitionMatrix)
+		// A state that is never left, as the states where an analysis stops, has no more costs.
+		for i := range transitionMatrix {
+			if transitionMatrix[i][i] == 1.0 {
+				expectedCounterMatrices[counterName][i][i] = 0.0
+			}
+		}
 		//rawCounterMatrices[counterName] = m
 		mean[counterName] = 0.0
 		rawCounters[counterName] = 0.0
-- 
2.43.0


From 06c062f54e8e295a0a94dffd06a46406941a2b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:37 +0000
Subject: [PATCH 83/87] fix: the expected cost of several transitions between
 the same states was wrong

---
 modelchecker/perf_checker.go | 79 +++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 38 deletions(-)

diff --git a/modelchecker/perf_checker.go b/modelchecker/perf_checker.go
index 588541d..6afc423 100644
--- a/modelchecker/perf_checker.go
+++ b/modelchecker/perf_checker.go
@@ -18,39 +18,8 @@ func genTransitionMatrix(nodes []*Node, model *proto.PerformanceModel) [][]float
         if len(node.Outbound) == 0 {
             matrix[indexMap[node]][indexMap[node]] = 1.0
         }
-        totalProb := 0.0
-        missingCount := 0
-        linkProbabilities := make(map[*Link]float64)
-        for _, outboundLink := range node.Outbound {
-            if len(outboundLink.Labels) == 0 {
-                missingCount++
-                continue
-            }
-            linkProb := 0.0
-            for _, label := range outboundLink.Labels {
-                linkProb += model.GetConfigs()[label].GetProbability()
-            }
-            totalProb += linkProb
-            linkProbabilities[outboundLink] = linkProb
-        }
-        // Probabilities that add up to 1 may exceed it by a rounding error.
-        if totalProb > 1.0+1e-9 {
-            panic("Total probability for a node cannot exceed 1")
-        }
-        if totalProb == 0 {
-            missingCount = len(node.Outbound)
-        }
-        missingProb := 0.0
-        if missingCount > 0 {
-            missingProb = (1.0 - totalProb) / float64(missingCount)
-        }
-        for _, outboundLink := range node.Outbound {
-            prob,found := linkProbabilities[outboundLink]
-            if found && totalProb > 0 {
-                matrix[indexMap[node]][indexMap[outboundLink.Node]] += prob
-            } else {
-                matrix[indexMap[node]][indexMap[outboundLink.Node]] += missingProb
-            }
+        for i, prob := range linkProbabilities(node, model) {
+            matrix[indexMap[node]][indexMap[node.Outbound[i].Node]] += prob
         }
 
     }
@@ -58,6 +27,37 @@ func genTransitionMatrix(nodes []*Node, model *proto.PerformanceModel) [][]float
     return matrix
 }
 
+// linkProbabilities returns the probability of each of the outbound links.
+func linkProbabilities(node *Node, model *proto.PerformanceModel) []float64 {
+    totalProb := 0.0
+    missingCount := 0
+    probabilities := make([]float64, len(node.Outbound))
+    for i, outboundLink := range node.Outbound {
+        if len(outboundLink.Labels) == 0 {
+            missingCount++
+            continue
+        }
+        for _, label := range outboundLink.Labels {
+            probabilities[i] += model.GetConfigs()[label].GetProbability()
+        }
+        totalProb += probabilities[i]
+    }
+    // Probabilities that add up to 1 may exceed it by a rounding error.
+    if totalProb > 1.0+1e-9 {
+        panic("Total probability for a node cannot exceed 1")
+    }
+    if totalProb == 0 {
+        missingCount = len(node.Outbound)
+    }
+    for i, outboundLink := range node.Outbound {
+        if totalProb == 0 || len(outboundLink.Labels) == 0 {
+            probabilities[i] = (1.0 - totalProb) / float64(missingCount)
+        }
+    }
+    return probabilities
+}
+
+// genCounterMatrices returns for each counter the expected value of the transitions between each two nodes.
 func genCounterMatrices(nodes []*Node, model *proto.PerformanceModel) map[string][][]float64 {
     matrices := make(map[string][][]float64)
     if model == nil {
@@ -77,11 +77,13 @@ func genCounterMatrices(nodes []*Node, model *proto.PerformanceModel) map[string
     }
 
     for _, node := range nodes {
-        if len(node.Outbound) == 0 {
-            continue
+        probabilities := linkProbabilities(node, model)
+        totalProbs := make(map[*Node]float64)
+        for i, outboundLink := range node.Outbound {
+            totalProbs[outboundLink.Node] += probabilities[i]
         }
-        for _, outboundLink := range node.Outbound {
-            if len(outboundLink.Labels) == 0 {
+        for i, outboundLink := range node.Outbound {
+            if probabilities[i] == 0 {
                 continue
             }
             for _, label := range outboundLink.Labels {
@@ -90,7 +92,8 @@ func genCounterMatrices(nodes []*Node, model *proto.PerformanceModel) map[string
                     continue
                 }
                 for name, counter := range config.Counters {
-                    matrices[name][indexMap[node]][indexMap[outboundLink.Node]] += counter.GetNumeric()
+                    share := probabilities[i] / totalProbs[outboundLink.Node]
+                    matrices[name][indexMap[node]][indexMap[outboundLink.Node]] += share * counter.GetNumeric()
                 }
             }
 
-- 
2.43.0


From 0ba6757fcbc57da7c7ea74ceb6d2d31aeb615036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:19 +0000
Subject: [PATCH 84/87] fix: a guided trace did not go on after a crash without
 effect, and did not count crashes

---
 modelchecker/processor.go | 14 +++++++-------
 modelchecker/trace.go     |  8 ++++++++
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 349fde0..8a92d67 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2453,11 +2453,7 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	if node.ThreadProgress {
 		node.Enable()
 	}
-	if p.guidedTrace != nil {
-		// The processor's copy tells how far the trace was followed, by any
-		// of the executions that match it.
-		p.guidedTrace.currentIndex = max(p.guidedTrace.currentIndex, node.guidedTrace.currentIndex)
-	}
+	p.traceFollowed(node)
 	// Add the labels from the process to the inbound links
 	// This must be done even for duplicate nodes
 	// The labels for the outbound links are added when the node is merged/attached
@@ -2689,6 +2685,7 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 	if !p.ShouldScheduleNode(crashNode) {
 		return nil, nil
 	}
+	p.traceFollowed(crashNode)
 	p.removeRoleState(crashFork, role)
 	crashNode.Enable()
 	// A thread of another role goes on with the alternatives of its parallel
@@ -2713,7 +2710,8 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 		crashNode.Enable()
 	}
 	other, ok, canonicalHash := p.findVisitedSymmetric(crashNode)
-	if ok {
+	// (A crash without effect still is a step of a trace.)
+	if ok && p.guidedTrace == nil {
 		crashNode.Duplicate(other, true)
 		return nil, nil
 	}
@@ -2747,6 +2745,7 @@ func (p *Processor) crashThread(node *Node) {
 	if !p.ShouldScheduleNode(crashNode) {
 		return
 	}
+	p.traceFollowed(crashNode)
 	// TODO: We could just copy the failed invariants from the parent
 	// instead of checking again
 	CheckInvariantsWithProber(crashFork, p.makeProber(crashFork, nil))
@@ -2754,7 +2753,8 @@ func (p *Processor) crashThread(node *Node) {
 		crashNode.Enable()
 	}
 	other, ok, canonicalHash := p.findVisitedSymmetric(crashNode)
-	if ok {
+	// (A crash without effect still is a step of a trace.)
+	if ok && p.guidedTrace == nil {
 		crashNode.Duplicate(other, true)
 		return
 	}
diff --git a/modelchecker/trace.go b/modelchecker/trace.go
index 0ded75b..5f51af7 100644
--- a/modelchecker/trace.go
+++ b/modelchecker/trace.go
@@ -93,6 +93,14 @@ func (t *GuidedTrace) GetCurrentIndex() int {
 	return t.currentIndex
 }
 
+// traceFollowed notes that an execution got as far as the node. The processor's copy of the trace tells how
+// far it was followed, by any of the executions that match it.
+func (p *Processor) traceFollowed(node *Node) {
+	if p.guidedTrace != nil {
+		p.guidedTrace.currentIndex = max(p.guidedTrace.currentIndex, node.guidedTrace.currentIndex)
+	}
+}
+
 // ShouldScheduleNode determines if a node should be scheduled based on the trace
 // Returns true if the node should be added to the queue
 // This is called before adding nodes to the queue to filter based on trace
-- 
2.43.0


From 5a3fb9a95d64eb86d07e150f622ccc8fcefb7ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:15 +0000
Subject: [PATCH 85/87] fix: an action called crash or init was taken for a
 crash or the initial state

---
 modelchecker/processor.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 8a92d67..6c105ea 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1052,11 +1052,8 @@ type Link struct {
 }
 
 func (l *Link) IsCrashLink() bool {
-	return isCrashLinkName(l.Name)
-}
-
-func isCrashLinkName(linkName string) bool {
-	return linkName == "crash" || strings.HasPrefix(linkName, "crash-role")
+	// An action can be called crash as well.
+	return l.Type != "action" && (l.Name == "crash" || strings.HasPrefix(l.Name, "crash-role"))
 }
 func (l *Link) HasFailedInvariants() bool {
 	if l == nil || l.FailedInvariants == nil {
@@ -1182,6 +1179,10 @@ func (n *Node) ForkForAction(process *Process, role *lib.Role, action *ast.Actio
 		stacktrace:  captureStackTrace(),
 	}
 	forkNode.Process.Name = actionName
+	if actionName == "crash" || actionName == "init" {
+		// The nodes of these names are the states after a crash and Init.
+		forkNode.Process.Name = "action " + actionName
+	}
 	forkNode.Inbound = append(forkNode.Inbound, &Link{Node: n, Type: "action", Name: actionName})
 	forkNode.Process.Stats.Increment(actionName)
 	return forkNode
-- 
2.43.0


From b4ef48c2356aa58160206b104cbaf3a333d308d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:25 +0000
Subject: [PATCH 86/87] fix: states with an infinite float or nan could not be
 written as JSON

---
 lib/jsonmarshaller.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/jsonmarshaller.go b/lib/jsonmarshaller.go
index 589564e..d63db12 100644
--- a/lib/jsonmarshaller.go
+++ b/lib/jsonmarshaller.go
@@ -3,6 +3,7 @@ package lib
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -152,7 +153,13 @@ func MarshalJSONStarlarkValue(m starlark.Value, depth int) ([]byte, error) {
 		return json.Marshal(m.(starlark.String).GoString())
 	case "bytes":
 		return json.Marshal(string(m.(starlark.Bytes)))
-	case "int", "float":
+	case "float":
+		if f := float64(m.(starlark.Float)); math.IsInf(f, 0) || math.IsNaN(f) {
+			// There is no such number in JSON.
+			return json.Marshal("float(" + m.String() + ")")
+		}
+		return []byte(m.String()), nil
+	case "int":
 		return []byte(m.String()), nil
 	case "list", "range", "tuple":
 		iter := m.(starlark.Iterable).Iterate()
-- 
2.43.0


From 92830f27e5d4dc6eb1c672a3ff64b550ee1b2362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:25 +0000
Subject: [PATCH 87/87] fix: texts that differ only in bytes that are not UTF-8
 were the same state

---
 lib/jsonmarshaller.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/jsonmarshaller.go b/lib/jsonmarshaller.go
index d63db12..c3c1b47 100644
--- a/lib/jsonmarshaller.go
+++ b/lib/jsonmarshaller.go
@@ -7,6 +7,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"go.starlark.net/starlark"
 	"go.starlark.net/starlarkstruct"
@@ -137,6 +138,15 @@ func canonicalizeKeys(items []starlark.Tuple, depth int) error {
 	return nil
 }
 
+// marshalText writes a text as a JSON string. Bytes that are not UTF-8 would all be
+// replaced by the same character, and states that differ in them be the same.
+func marshalText(s string) ([]byte, error) {
+	if !utf8.ValidString(s) {
+		s = string(utf8.RuneError) + strconv.QuoteToASCII(s)
+	}
+	return json.Marshal(s)
+}
+
 func MarshalJSONStarlarkValue(m starlark.Value, depth int) ([]byte, error) {
 	// TODO: using depth to limit the depth of recursion for json export to handle circular references.
 	// Ideally, this should be dealt with by managing the visited nodes in the graph.
@@ -150,9 +160,9 @@ func MarshalJSONStarlarkValue(m starlark.Value, depth int) ([]byte, error) {
 	case "bool":
 		return json.Marshal(m.Truth())
 	case "string":
-		return json.Marshal(m.(starlark.String).GoString())
+		return marshalText(m.(starlark.String).GoString())
 	case "bytes":
-		return json.Marshal(string(m.(starlark.Bytes)))
+		return marshalText(string(m.(starlark.Bytes)))
 	case "float":
 		if f := float64(m.(starlark.Float)); math.IsInf(f, 0) || math.IsNaN(f) {
 			// There is no such number in JSON.
-- 
2.43.0

