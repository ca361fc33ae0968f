From 3a9f6af7ebdb3a262c3164f54d90623b8fc7dc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 01/17] fix: LRU cache of capacity one dereferenced a null list
 neighbour on insertion

---
 cpp/common/lru_cache.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cpp/common/lru_cache.h b/cpp/common/lru_cache.h
index 036e4dd..e35f2b3 100644
--- a/cpp/common/lru_cache.h
+++ b/cpp/common/lru_cache.h
@@ -124,11 +124,14 @@ class LruCache {
 
   Entry* GetNewHead() {
     // Remove tail element.
-    auto new_tail = tail_->pred;
-    new_tail->succ = nullptr;
     if (index_.size() >= entries_.size()) {
       index_.erase(tail_->key);
     }
+    if (head_ == tail_) {
+      return head_;  // With a single entry the list does not change.
+    }
+    auto new_tail = tail_->pred;
+    new_tail->succ = nullptr;
     auto result = tail_;
     tail_ = new_tail;
 
-- 
2.43.0


From 47179594420055521fb0ea3322ea232e9e38a54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:28 +0000
Subject: [PATCH 02/17] fix: Revision.UnmarshalJSON accepted text around
 Revision(N)

---
 go/tosca/revisions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/tosca/revisions.go b/go/tosca/revisions.go
index 821d80d..74816de 100644
--- a/go/tosca/revisions.go
+++ b/go/tosca/revisions.go
@@ -72,7 +72,7 @@ func (r *Revision) UnmarshalJSON(data []byte) error {
 		revision = R13_Cancun
 	default:
 		// read Revision(X) format and extract the number.
-		reg := regexp.MustCompile(`Revision\(([0-9]+)\)`)
+		reg := regexp.MustCompile(`^Revision\(([0-9]+)\)$`)
 		substring := reg.FindAllStringSubmatch(s, 1)
 		if substring == nil {
 			return &json.UnmarshalTypeError{}
-- 
2.43.0


From aba3a6590e73946c44012f2d9d17d1c138c220c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:22 +0000
Subject: [PATCH 03/17] fix: lfvm fused SWAP2_SWAP1_POP_JUMP truncated jump
 destinations beyond 31 bits

---
 go/interpreter/lfvm/super_instructions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/go/interpreter/lfvm/super_instructions.go b/go/interpreter/lfvm/super_instructions.go
index 5ce7b50..bdc9483 100644
--- a/go/interpreter/lfvm/super_instructions.go
+++ b/go/interpreter/lfvm/super_instructions.go
@@ -11,6 +11,7 @@
 package lfvm
 
 import (
+	"math"
 	"math/bits"
 
 	"github.com/holiman/uint256"
@@ -121,6 +122,10 @@ func opSwap2_Swap1_Pop_Jump(c *context) error {
 	top := c.stack.pop()
 	c.stack.pop()
 	trg := c.stack.peek()
+	// overflow check
+	if !trg.IsUint64() || trg.Uint64() > math.MaxInt32 {
+		return errInvalidJump
+	}
 	c.pc = int32(trg.Uint64()) - 1
 	*trg = *top
 	return checkJumpDest(c)
-- 
2.43.0


From fd58e9a4b5a0425bbd851c26c870c03063247a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:22 +0000
Subject: [PATCH 04/17] fix: lfvm JUMP_TO landed at the wrong position in code
 longer than 65535 bytes

---
 go/interpreter/lfvm/instructions.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/go/interpreter/lfvm/instructions.go b/go/interpreter/lfvm/instructions.go
index 2677064..37b40fb 100644
--- a/go/interpreter/lfvm/instructions.go
+++ b/go/interpreter/lfvm/instructions.go
@@ -68,8 +68,15 @@ func opJumpi(c *context) error {
 }
 
 func opJumpTo(c *context) {
+	// The argument provides the lower 16 bits of the jump destination. Since all
+	// instructions between a JUMP_TO and its destination are NOOPs, the destination
+	// is the first succeeding position with matching lower bits that is not a NOOP.
+	destination := c.pc&^math.MaxUint16 | int32(c.code[c.pc].arg)
+	for destination <= c.pc || (int(destination) < len(c.code) && c.code[destination].opcode == NOOP) {
+		destination += math.MaxUint16 + 1
+	}
 	// Update the PC to the jump destination -1 since interpreter will increase PC by 1 afterward.
-	c.pc = int32(c.code[c.pc].arg) - 1
+	c.pc = destination - 1
 }
 
 func opPop(c *context) {
-- 
2.43.0


From c9c6af77235c0e9b58dcb9b10550bf34ea17d0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:22 +0000
Subject: [PATCH 05/17] fix: lfvm conversion dropped the byte behind a PC
 instruction beyond 16-bit positions

---
 go/interpreter/lfvm/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/interpreter/lfvm/converter.go b/go/interpreter/lfvm/converter.go
index 4870ac5..350905c 100644
--- a/go/interpreter/lfvm/converter.go
+++ b/go/interpreter/lfvm/converter.go
@@ -185,7 +185,7 @@ func appendInstructions(res *codeBuilder, pos int, code []byte, withSuperInstruc
 	if toscaOpCode == vm.PC {
 		if pos > math.MaxUint16 {
 			res.appendCode(INVALID)
-			return 1
+			return 0
 		}
 		res.appendOp(PC, uint16(pos))
 		return 0
-- 
2.43.0


From 220441806477eb041ec0ff0434e991fe7020ee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:10 +0000
Subject: [PATCH 06/17] fix: floria charged for the gas of creations it rejects
 for their init code size

---
 go/processor/floria/processor.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/go/processor/floria/processor.go b/go/processor/floria/processor.go
index d83080c..79ed4f0 100644
--- a/go/processor/floria/processor.go
+++ b/go/processor/floria/processor.go
@@ -64,6 +64,11 @@ func (p *processor) Run(
 		return tosca.Receipt{}, nil
 	}
 
+	if blockParameters.Revision >= tosca.R12_Shanghai && transaction.Recipient == nil &&
+		len(transaction.Input) > maxInitCodeSize {
+		return tosca.Receipt{}, nil
+	}
+
 	if err := buyGas(transaction, context); err != nil {
 		return tosca.Receipt{}, nil
 	}
@@ -74,11 +79,6 @@ func (p *processor) Run(
 	}
 	gas -= intrinsicGas
 
-	if blockParameters.Revision >= tosca.R12_Shanghai && transaction.Recipient == nil &&
-		len(transaction.Input) > maxInitCodeSize {
-		return tosca.Receipt{}, nil
-	}
-
 	transactionParameters := tosca.TransactionParameters{
 		Origin:     transaction.Sender,
 		GasPrice:   transaction.GasPrice,
-- 
2.43.0


From c9fab6af12dd526ade40a58cf20cb0f00974bc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:10 +0000
Subject: [PATCH 07/17] fix: floria wrapped gas costs beyond 256 bits around
 and executed the transaction

---
 go/processor/floria/processor.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/processor.go b/go/processor/floria/processor.go
index 79ed4f0..ca129b3 100644
--- a/go/processor/floria/processor.go
+++ b/go/processor/floria/processor.go
@@ -14,6 +14,7 @@ import (
 	"fmt"
 
 	"github.com/Fantom-foundation/Tosca/go/tosca"
+	"github.com/holiman/uint256"
 )
 
 const (
@@ -271,7 +272,14 @@ func setupGasBilling(transaction tosca.Transaction) tosca.Gas {
 }
 
 func buyGas(transaction tosca.Transaction, context tosca.TransactionContext) error {
-	gas := transaction.GasPrice.Scale(uint64(transaction.GasLimit))
+	cost, overflow := new(uint256.Int).MulOverflow(
+		transaction.GasPrice.ToUint256(),
+		uint256.NewInt(uint64(transaction.GasLimit)),
+	)
+	if overflow {
+		return fmt.Errorf("gas costs exceed 256 bits: %v * %v", transaction.GasLimit, transaction.GasPrice)
+	}
+	gas := tosca.ValueFromUint256(cost)
 
 	// Buy gas
 	senderBalance := context.GetBalance(transaction.Sender)
-- 
2.43.0


From 0dbf8b93882e6716e5893ba66ae5ceee7476dc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:10 +0000
Subject: [PATCH 08/17] fix: floria kept the effects of contract creations that
 fail

---
 go/processor/floria/run_context.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 64f6c15..e499189 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -67,7 +67,6 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		}
 
 		r.SetNonce(parameters.Sender, r.GetNonce(parameters.Sender)+1)
-		r.SetNonce(createdAddress, 1)
 		recipient = createdAddress
 	}
 
@@ -77,6 +76,10 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 
 	snapshot := r.CreateSnapshot()
 
+	if kind == tosca.Create || kind == tosca.Create2 {
+		r.SetNonce(createdAddress, 1)
+	}
+
 	// StaticCall and DelegateCall do not transfer value
 	if kind != tosca.StaticCall && kind != tosca.DelegateCall {
 		if err := transferValue(r, parameters.Value, parameters.Sender, recipient); err != nil {
@@ -125,13 +128,16 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 	} else if kind == tosca.Create || kind == tosca.Create2 {
 		code := result.Output
 		if len(code) > maxCodeSize {
+			r.RestoreSnapshot(snapshot)
 			return tosca.CallResult{}, nil
 		}
 		if r.blockParameters.Revision >= tosca.R10_London && len(code) > 0 && code[0] == 0xEF {
+			r.RestoreSnapshot(snapshot)
 			return tosca.CallResult{}, nil
 		}
 		createGas := tosca.Gas(len(result.Output) * createGasCostPerByte)
 		if result.GasLeft < createGas {
+			r.RestoreSnapshot(snapshot)
 			return tosca.CallResult{}, nil
 		}
 		result.GasLeft -= createGas
-- 
2.43.0


From cfe40f23a7e20622c34d34a25f6307152e09f6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:10 +0000
Subject: [PATCH 09/17] fix: floria kept the value and the gas of failing calls
 to precompiled contracts

---
 go/processor/floria/precompiled.go | 5 ++++-
 go/processor/floria/run_context.go | 6 ++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/precompiled.go b/go/processor/floria/precompiled.go
index 7433356..2dbe7df 100644
--- a/go/processor/floria/precompiled.go
+++ b/go/processor/floria/precompiled.go
@@ -27,9 +27,12 @@ func handlePrecompiledContract(revision tosca.Revision, input tosca.Data, addres
 	}
 	gas -= tosca.Gas(gasCost)
 	output, err := contract.Run(input)
+	if err != nil { // precompiled contracts only return errors on invalid input
+		return tosca.CallResult{}, true
+	}
 
 	return tosca.CallResult{
-		Success: err == nil, // precompiled contracts only return errors on invalid input
+		Success: true,
 		Output:  output,
 		GasLeft: gas,
 	}, true
diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index e499189..48d7816 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -91,11 +91,17 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 	output, isStatePrecompiled := handleStateContract(
 		r, parameters.Sender, parameters.Recipient, parameters.Input, parameters.Gas)
 	if isStatePrecompiled {
+		if !output.Success {
+			r.RestoreSnapshot(snapshot)
+		}
 		return output, nil
 	}
 	output, isPrecompiled := handlePrecompiledContract(
 		r.blockParameters.Revision, parameters.Input, recipient, parameters.Gas)
 	if isPrecompiled {
+		if !output.Success {
+			r.RestoreSnapshot(snapshot)
+		}
 		return output, nil
 	}
 
-- 
2.43.0


From 99ecda4092c84f9755e6f369cdc71bcd7b7b2e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:10 +0000
Subject: [PATCH 10/17] fix: floria did not run precompiled contracts for
 CALLCODE and DELEGATECALL

---
 go/processor/floria/run_context.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 48d7816..5ebeb42 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -96,8 +96,12 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		}
 		return output, nil
 	}
+	codeAddress := recipient
+	if kind == tosca.DelegateCall || kind == tosca.CallCode {
+		codeAddress = parameters.CodeAddress
+	}
 	output, isPrecompiled := handlePrecompiledContract(
-		r.blockParameters.Revision, parameters.Input, recipient, parameters.Gas)
+		r.blockParameters.Revision, parameters.Input, codeAddress, parameters.Gas)
 	if isPrecompiled {
 		if !output.Success {
 			r.RestoreSnapshot(snapshot)
-- 
2.43.0


From a26057a0618409d81e95bb5c23a3d6d121cb45de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:10 +0000
Subject: [PATCH 11/17] fix: floria ran precompiled contracts priced beyond 63
 bits and added gas

---
 go/processor/floria/precompiled.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/processor/floria/precompiled.go b/go/processor/floria/precompiled.go
index 2dbe7df..926e9e5 100644
--- a/go/processor/floria/precompiled.go
+++ b/go/processor/floria/precompiled.go
@@ -22,7 +22,7 @@ func handlePrecompiledContract(revision tosca.Revision, input tosca.Data, addres
 		return tosca.CallResult{}, false
 	}
 	gasCost := contract.RequiredGas(input)
-	if gas < tosca.Gas(gasCost) {
+	if gas < 0 || uint64(gas) < gasCost {
 		return tosca.CallResult{}, true
 	}
 	gas -= tosca.Gas(gasCost)
-- 
2.43.0


From 5b6c11fca72e50907e99d827c11e05cc84949ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:10 +0000
Subject: [PATCH 12/17] fix: floria state contract truncated nonce increments
 to 64 bits

---
 go/processor/floria/state_contract.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/go/processor/floria/state_contract.go b/go/processor/floria/state_contract.go
index 0d062ed..1b65507 100644
--- a/go/processor/floria/state_contract.go
+++ b/go/processor/floria/state_contract.go
@@ -228,19 +228,19 @@ func executeStateContractIncNonce(state tosca.WorldState, sender tosca.Address,
 
 	account := tosca.Address(input[12:32])
 	value := tosca.Value(input[32:64])
-	valueUint := big.NewInt(0).SetBytes(value[:]).Uint64()
+	valueBig := big.NewInt(0).SetBytes(value[:])
 
 	if account == sender {
 		// Origin nonce shouldn't change during his transaction
 		return 0, ErrExecutionReverted
 	}
 
-	if valueUint <= 0 || 256 <= valueUint {
+	if valueBig.Sign() <= 0 || valueBig.Cmp(big.NewInt(256)) >= 0 {
 		// Don't allow large nonce increasing to prevent a nonce overflow
 		return 0, ErrExecutionReverted
 	}
 
-	state.SetNonce(account, state.GetNonce(account)+valueUint)
+	state.SetNonce(account, state.GetNonce(account)+valueBig.Uint64())
 
 	return gas, nil
 }
-- 
2.43.0


From 8ee5efb0413b53854c7dc6bcd7dcbeb5b587d47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:09 +0000
Subject: [PATCH 13/17] fix: evmzero reported the gas refund of executions that
 failed or reverted

---
 cpp/vm/evmzero/evmzero.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cpp/vm/evmzero/evmzero.cc b/cpp/vm/evmzero/evmzero.cc
index 0781950..5467af6 100644
--- a/cpp/vm/evmzero/evmzero.cc
+++ b/cpp/vm/evmzero/evmzero.cc
@@ -163,10 +163,14 @@ class VM : public evmc_vm {
       std::copy(interpreter_result.return_data.begin(), interpreter_result.return_data.end(), output_data);
     }
 
+    // The effects of an execution that failed or reverted are rolled back, and
+    // with them the refunds earned by those effects.
+    const auto status_code = ToEvmcStatusCode(interpreter_result.state);
+
     return {
-        .status_code = ToEvmcStatusCode(interpreter_result.state),
+        .status_code = status_code,
         .gas_left = interpreter_result.remaining_gas,
-        .gas_refund = interpreter_result.refunded_gas,
+        .gas_refund = status_code == EVMC_SUCCESS ? interpreter_result.refunded_gas : 0,
         .output_data = output_data,
         .output_size = interpreter_result.return_data.size(),
         .release = [](const evmc_result* result) { delete[] result->output_data; },
-- 
2.43.0


From 126532ad6047c57f98a15909a796a5a40345f1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:09 +0000
Subject: [PATCH 14/17] fix: lfvm hash cache read a cached hash after releasing
 the lock

---
 go/interpreter/lfvm/hash_cache.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/interpreter/lfvm/hash_cache.go b/go/interpreter/lfvm/hash_cache.go
index f6b651d..7430a2e 100644
--- a/go/interpreter/lfvm/hash_cache.go
+++ b/go/interpreter/lfvm/hash_cache.go
@@ -108,8 +108,11 @@ func (h *hashCache[K]) getHash(key K) tosca.Hash {
 			h.head.pred = entry
 			h.head = entry
 		}
+		// The hash needs to be fetched while holding the lock since the entry
+		// may be evicted and reused for another key once the lock is released.
+		hash := entry.hash
 		h.lock.Unlock()
-		return entry.hash
+		return hash
 	}
 
 	// Compute the hash without holding the lock.
-- 
2.43.0


From 2f04099945d1a5d0988f42250a26279fb21e1cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:30 +0000
Subject: [PATCH 15/17] fix: ct solvers generated values outside of the domain
 of signed types below 64 bits

---
 go/ct/gen/interval_solver.go | 12 +++++++++---
 go/ct/gen/range_solver.go    |  7 ++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/go/ct/gen/interval_solver.go b/go/ct/gen/interval_solver.go
index 900a98c..068fe69 100644
--- a/go/ct/gen/interval_solver.go
+++ b/go/ct/gen/interval_solver.go
@@ -121,7 +121,7 @@ func (s *IntervalSolver[T]) Generate(rnd *rand.Rand) (T, error) {
 
 	domainSize := uint64(0)
 	for _, interval := range s.intervals {
-		domainSize += uint64(interval.high - interval.low + 1)
+		domainSize += interval.size()
 	}
 
 	if domainSize == 0 { // the domain is the full uint64 domain
@@ -130,10 +130,10 @@ func (s *IntervalSolver[T]) Generate(rnd *rand.Rand) (T, error) {
 
 	sample := rnd.Uint64n(domainSize)
 	for _, interval := range s.intervals {
-		if uint64(interval.high-interval.low+1) > sample {
+		if interval.size() > sample {
 			return interval.low + T(sample), nil
 		}
-		sample -= uint64(interval.high - interval.low + 1)
+		sample -= interval.size()
 	}
 	return 0, fmt.Errorf("internal error")
 }
@@ -170,6 +170,12 @@ func (i *interval[T]) isEmpty() bool {
 	return i.low > i.high
 }
 
+// size returns the number of values in the interval modulo 2^64. The limits
+// are converted first since their difference may exceed the range of T.
+func (i *interval[T]) size() uint64 {
+	return uint64(i.high) - uint64(i.low) + 1
+}
+
 type relation int
 
 const (
diff --git a/go/ct/gen/range_solver.go b/go/ct/gen/range_solver.go
index 12de676..1e09b08 100644
--- a/go/ct/gen/range_solver.go
+++ b/go/ct/gen/range_solver.go
@@ -75,11 +75,12 @@ func (s *RangeSolver[T]) Generate(rnd *rand.Rand) (T, error) {
 	if s.min > s.max {
 		return 0, ErrUnsatisfiable
 	}
-	diff := s.max - s.min
-	if uint64(diff) == math.MaxUint64 {
+	// The limits are converted first since their difference may exceed the range of T.
+	diff := uint64(s.max) - uint64(s.min)
+	if diff == math.MaxUint64 {
 		return T(rnd.Uint64()), nil
 	}
-	return T(rnd.Uint64n(uint64(diff)+1)) + s.min, nil
+	return T(rnd.Uint64n(diff+1)) + s.min, nil
 }
 
 func (s *RangeSolver[T]) String() string {
-- 
2.43.0


From f9428ccf336f20aa593d5004dae301d22d4cb1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:24 +0000
Subject: [PATCH 16/17] fix: EVMC failures and exceeded call depths are failed
 executions, not interpreter errors

---
 go/interpreter/evmc/evmc_interpreter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/go/interpreter/evmc/evmc_interpreter.go b/go/interpreter/evmc/evmc_interpreter.go
index a0000ae..48f05cb 100644
--- a/go/interpreter/evmc/evmc_interpreter.go
+++ b/go/interpreter/evmc/evmc_interpreter.go
@@ -106,12 +106,14 @@ func (e *EvmcInterpreter) Run(params tosca.Parameters) (tosca.Result, error) {
 		// This is to be processed as a successful execution.
 		res.Success = false // < signal that execution reverted
 		return res, nil
-	case evmc.Error(C.EVMC_OUT_OF_GAS),
+	case evmc.Failure,
+		evmc.Error(C.EVMC_OUT_OF_GAS),
 		evmc.Error(C.EVMC_INVALID_INSTRUCTION),
 		evmc.Error(C.EVMC_UNDEFINED_INSTRUCTION),
 		evmc.Error(C.EVMC_BAD_JUMP_DESTINATION),
 		evmc.Error(C.EVMC_INVALID_MEMORY_ACCESS),
 		evmc.Error(C.EVMC_STATIC_MODE_VIOLATION),
+		evmc.Error(C.EVMC_CALL_DEPTH_EXCEEDED),
 		evmc.Error(C.EVMC_STACK_OVERFLOW),
 		evmc.Error(C.EVMC_STACK_UNDERFLOW):
 		// These are errors in the executed contract, but not VM errors.
-- 
2.43.0


From ed53abf75f481592833dd8ea434f7c43af801476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:19 +0000
Subject: [PATCH 17/17] fix: geth adapter recognises precompiled contracts by
 all bytes of their address, including 0x0a

---
 go/geth_adapter/adapter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/go/geth_adapter/adapter.go b/go/geth_adapter/adapter.go
index 689c281..b0e184c 100644
--- a/go/geth_adapter/adapter.go
+++ b/go/geth_adapter/adapter.go
@@ -615,11 +615,11 @@ func bigIntToWord(value *big.Int) (tosca.Word, error) {
 }
 
 func isPrecompiledContract(recipient tosca.Address) bool {
-	// the addresses 1-9 are precompiled contracts
-	for i := 0; i < 18; i++ {
+	// the addresses 1-10 are precompiled contracts (10 since Cancun)
+	for i := 0; i < 19; i++ {
 		if recipient[i] != 0 {
 			return false
 		}
 	}
-	return 1 <= recipient[19] && recipient[19] <= 9
+	return 1 <= recipient[19] && recipient[19] <= 10
 }
-- 
2.43.0

