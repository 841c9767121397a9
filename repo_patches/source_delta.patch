From bc704fbd0b738471f5370c88819b7968a8283b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 01/38] fix: data addresses wrap at 2^32 in hash, message and
 word reads

Loads, stores and tape reads already wrap around the end of the address
space; the poseidon2, panic and trace-log ecalls and load_u32 computed
base + offset with overflow, aborting the host in debug builds and
reading the wrong (or no) bytes in release builds.
---
 runner/src/ecall.rs     | 8 ++++----
 runner/src/poseidon2.rs | 2 +-
 runner/src/state.rs     | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/runner/src/ecall.rs b/runner/src/ecall.rs
index afef451..23f9ab3 100644
--- a/runner/src/ecall.rs
+++ b/runner/src/ecall.rs
@@ -103,8 +103,8 @@ impl<F: RichField> State<F> {
         let msg_ptr = self.get_register_value(REG_A1);
         let msg_len = self.get_register_value(REG_A2);
         let mut msg_vec = vec![];
-        for addr in msg_ptr..(msg_ptr + msg_len) {
-            msg_vec.push(self.load_u8(addr));
+        for i in 0..msg_len {
+            msg_vec.push(self.load_u8(msg_ptr.wrapping_add(i)));
         }
         panic!(
             "VM panicked with msg: {}",
@@ -120,8 +120,8 @@ impl<F: RichField> State<F> {
         let msg_ptr = self.get_register_value(REG_A1);
         let msg_len = self.get_register_value(REG_A2);
         let mut msg_vec = vec![];
-        for addr in msg_ptr..(msg_ptr + msg_len) {
-            msg_vec.push(self.load_u8(addr));
+        for i in 0..msg_len {
+            msg_vec.push(self.load_u8(msg_ptr.wrapping_add(i)));
         }
         log::debug!(
             "VM TRACE LOG: {}",
diff --git a/runner/src/poseidon2.rs b/runner/src/poseidon2.rs
index c87cfea..23ad7ae 100644
--- a/runner/src/poseidon2.rs
+++ b/runner/src/poseidon2.rs
@@ -89,7 +89,7 @@ impl<F: RichField> State<F> {
         let input_len = self.get_register_value(REG_A2);
         let output_ptr = self.get_register_value(REG_A3);
         let input: Vec<F> = (0..input_len)
-            .map(|i| F::from_canonical_u8(self.load_u8(input_ptr + i)))
+            .map(|i| F::from_canonical_u8(self.load_u8(input_ptr.wrapping_add(i))))
             .collect();
         let (hash, sponge_data) =
             hash_n_to_m_no_pad::<F, Poseidon2Permutation<F>>(input.as_slice());
diff --git a/runner/src/state.rs b/runner/src/state.rs
index 06d1d93..7753755 100644
--- a/runner/src/state.rs
+++ b/runner/src/state.rs
@@ -396,7 +396,7 @@ impl<F: RichField> State<F> {
         const WORD_SIZE: usize = 4;
         let mut bytes = [0_u8; WORD_SIZE];
         for (i, byte) in (0_u32..).zip(bytes.iter_mut()) {
-            *byte = self.load_u8(addr + i);
+            *byte = self.load_u8(addr.wrapping_add(i));
         }
         u32::from_le_bytes(bytes)
     }
-- 
2.43.0


From 873e9cb60a4d25a1103acd249c666163f35abaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 02/38] fix: merkle root of leaves that differ in the top
 address bit

---
 sdk/src/common/merkle.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sdk/src/common/merkle.rs b/sdk/src/common/merkle.rs
index 7c80e3e..5226e98 100644
--- a/sdk/src/common/merkle.rs
+++ b/sdk/src/common/merkle.rs
@@ -22,11 +22,14 @@ fn merkleize_step(hashes: &mut Vec<(u64, Poseidon2Hash)>, height_incr: u32) -> u
     let mut next_height_incr = u32::MAX;
 
     hashes.entries(.., |e| {
+        // An increment of the full width brings everything to the root
+        let ancestor = |addr: u64| addr.checked_shr(height_incr).unwrap_or_default();
+
         let Some(mut left) = e.remove() else { return };
-        left.0 >>= height_incr;
+        left.0 = ancestor(left.0);
 
         while let Some(mut right) = e.remove() {
-            right.0 >>= height_incr;
+            right.0 = ancestor(right.0);
 
             // Combine the two items and insert the result
             if left.0 == right.0 {
@@ -38,7 +41,7 @@ fn merkleize_step(hashes: &mut Vec<(u64, Poseidon2Hash)>, height_incr: u32) -> u
                 // Make sure to get a new left item
                 let Some(next) = e.remove() else { return };
                 right = next;
-                right.0 >>= height_incr;
+                right.0 = ancestor(right.0);
             } else {
                 let Ok(_) = e.try_insert_outside(left) else {
                     unreachable!()
-- 
2.43.0


From 0142d5d9f9089994cdd17ba9b9918d08d438bec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:39 +0000
Subject: [PATCH 03/38] fix: canonical event order follows the numeric address
 the event tree uses

---
 sdk/src/native/eventtape.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdk/src/native/eventtape.rs b/sdk/src/native/eventtape.rs
index e1e4ad8..f7ea7fa 100644
--- a/sdk/src/native/eventtape.rs
+++ b/sdk/src/native/eventtape.rs
@@ -51,7 +51,11 @@ impl OrderedEvents {
             .zip(0usize..)
             .map(|((_, canonical_event), idx)| (*canonical_event, idx))
             .collect::<Vec<(CanonicalEvent, usize)>>();
-        canonically_sorted.sort();
+        // The tree over the events is addressed by number
+        canonically_sorted.sort_by_key(|&(canonical_event, idx)| {
+            let address = u64::from_le_bytes(canonical_event.address.inner());
+            (address, canonical_event, idx)
+        });
         canonically_sorted
     }
 
-- 
2.43.0


From 161f57e6879fce26dfdf5e709787694b676794eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:46 +0000
Subject: [PATCH 04/38] fix: writes to read-only CSRs do not decode, so an
 aborting guest stops at unimp

---
 runner/src/decode.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runner/src/decode.rs b/runner/src/decode.rs
index b0c64c4..3590b2d 100644
--- a/runner/src/decode.rs
+++ b/runner/src/decode.rs
@@ -239,13 +239,15 @@ pub fn decode_instruction(pc: u32, word: u32) -> Result<Instruction, DecodingErr
             (0x0, 0x1) => nop,
             // For RISC-V this would be (Op::CSRRW, itype),
             // but so far we implemented it as a no-op.
-            (0x1, _) => nop,
+            // Writes to read-only CSRs are illegal; that includes `unimp`, which
+            // must not let a program that has aborted run on.
+            (0x1, csr) if csr < 0xC00 => nop,
             // For RISC-V this would be (Op::CSRRS, itype),
             // but so far we implemented it as a no-op.
             (0x2, _) => nop,
             // For RISC-V this would be (Op::CSRRWI, itype),
             // but so far we implemented it as a no-op.
-            (0x5, _) => nop,
+            (0x5, csr) if csr < 0xC00 => nop,
             _ => return default(),
         },
         // For RISC-V its JAL, but we handle it as JALR.
-- 
2.43.0


From a8fbe8d654c00eb19b6a80b0a0d70fa8abd0fa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:42 +0000
Subject: [PATCH 05/38] fix: reading past the end of an input tape returns the
 bytes that are left

---
 sdk/src/mozakvm/inputtape.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/src/mozakvm/inputtape.rs b/sdk/src/mozakvm/inputtape.rs
index 17b979f..0b7feb4 100644
--- a/sdk/src/mozakvm/inputtape.rs
+++ b/sdk/src/mozakvm/inputtape.rs
@@ -65,7 +65,8 @@ impl std::io::Read for RandomAccessEcallTape {
         };
 
         // Populate partial buf from newly fetched bytes via `ECALL`
-        buf[populatable_from_internal_buf..].clone_from_slice(&self.internal_buf[old_len..]);
+        buf[populatable_from_internal_buf..serviced_bytes]
+            .clone_from_slice(&self.internal_buf[old_len..]);
         self.read_offset += serviced_bytes;
 
         Ok(serviced_bytes)
-- 
2.43.0


From f57c4f044b5368b45e9a3913dc1867b88cf6d06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:47 +0000
Subject: [PATCH 06/38] fix: receive does not skip calls the program itself is
 recorded as making

---
 sdk/src/mozakvm/calltape.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/sdk/src/mozakvm/calltape.rs b/sdk/src/mozakvm/calltape.rs
index e1d175a..be2cd9d 100644
--- a/sdk/src/mozakvm/calltape.rs
+++ b/sdk/src/mozakvm/calltape.rs
@@ -93,6 +93,16 @@ impl Call for CallTape {
             // Mark this as "processed" regardless of what happens next.
             self.index += 1;
 
+            // First, ensure that we are not the caller: our own calls are not ours
+            // to skip, we have to `send` them. And no-one can call themselves. (Even
+            // if they can w.r.t. self-calling extension, the `caller` field would
+            // remain distinct)
+            let caller: ProgramIdentifier = zcd_cpcmsg
+                .caller
+                .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
+                .unwrap();
+            assert!(caller != self.self_prog_id);
+
             // Well, once we are sure that we were not the caller, we can
             // either be a callee in which case we process and send information
             // back or we continue searching.
@@ -102,15 +112,6 @@ impl Call for CallTape {
                 .unwrap();
 
             if self.self_prog_id == callee {
-                // First, ensure that we are not the caller, no-one can call
-                // themselves. (Even if they can w.r.t. self-calling extension,
-                // the `caller` field would remain distinct)
-                let caller: ProgramIdentifier = zcd_cpcmsg
-                    .caller
-                    .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
-                    .unwrap();
-                assert!(caller != self.self_prog_id);
-
                 // Before accepting, make sure that caller was a part of castlist
                 assert!(self.is_casted_actor(&caller));
 
-- 
2.43.0


From b6b7b8dd41b902d8c556c01baddd685ce54e868d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:21 +0000
Subject: [PATCH 07/38] fix: without a system tape a guest gets empty tapes
 instead of none

---
 cli/src/runner.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cli/src/runner.rs b/cli/src/runner.rs
index 25df3cb..cf6d1b6 100644
--- a/cli/src/runner.rs
+++ b/cli/src/runner.rs
@@ -66,11 +66,10 @@ pub fn raw_tapes_from_system_tape<F: std::io::Read>(
     sys: Option<F>,
     self_prog_id: ProgramIdentifier,
 ) -> RawTapes {
-    if sys.is_none() {
-        return RawTapes::default();
-    }
-
-    let sys = &deserialize_system_tape(sys.unwrap()).unwrap();
+    // Guests read (empty) lists from their tapes even when there is nothing on them
+    let sys = &sys.map_or_else(SystemTape::default, |sys| {
+        deserialize_system_tape(sys).unwrap()
+    });
 
     let cast_list = sys
         .call_tape
-- 
2.43.0


From 781aa0c0d46f054cf29a9fc51044c7dd42eafdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 08/38] fix: constrain the cubes the Poseidon2 s-boxes are
 computed from

The columns `s_box_input_qube_*` hold the cube of each s-box input, so that
x^7 stays within degree 3, but no constraint tied them to that input: a
prover could put any value there and obtain any digest.
---
 circuits/src/poseidon2/stark.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/circuits/src/poseidon2/stark.rs b/circuits/src/poseidon2/stark.rs
index 9d3f240..5ad7938 100644
--- a/circuits/src/poseidon2/stark.rs
+++ b/circuits/src/poseidon2/stark.rs
@@ -149,10 +149,9 @@ fn generate_constraints<'a, V: Copy, U: Poseidon2>(
     for r in 0..(ROUNDS_F / 2) {
         add_rc::<V, U, STATE_SIZE>(&mut state, r);
         for (i, item) in state.iter_mut().enumerate() {
-            sbox_p(
-                item,
-                &lv.s_box_input_qube_first_full_rounds[r * STATE_SIZE + i],
-            );
+            let qube = lv.s_box_input_qube_first_full_rounds[r * STATE_SIZE + i];
+            constraints.always(*item * *item * *item - qube);
+            sbox_p(item, &qube);
         }
         matmul_external12(&mut state);
         for (i, state_i) in state.iter_mut().enumerate() {
@@ -164,7 +163,9 @@ fn generate_constraints<'a, V: Copy, U: Poseidon2>(
     // partial rounds
     for i in 0..ROUNDS_P {
         state[0] += from_u64(<U as Poseidon2>::RC12_MID[i]);
-        sbox_p(&mut state[0], &lv.s_box_input_qube_partial_rounds[i]);
+        let qube = lv.s_box_input_qube_partial_rounds[i];
+        constraints.always(state[0] * state[0] * state[0] - qube);
+        sbox_p(&mut state[0], &qube);
         matmul_internal12::<V, U, STATE_SIZE>(&mut state);
         constraints.always(state[0] - lv.state0_after_partial_rounds[i]);
         state[0] = lv.state0_after_partial_rounds[i];
@@ -181,10 +182,9 @@ fn generate_constraints<'a, V: Copy, U: Poseidon2>(
         let r = (ROUNDS_F / 2) + i;
         add_rc::<V, U, STATE_SIZE>(&mut state, r);
         for (j, item) in state.iter_mut().enumerate() {
-            sbox_p(
-                item,
-                &lv.s_box_input_qube_second_full_rounds[i * STATE_SIZE + j],
-            );
+            let qube = lv.s_box_input_qube_second_full_rounds[i * STATE_SIZE + j];
+            constraints.always(*item * *item * *item - qube);
+            sbox_p(item, &qube);
         }
         matmul_external12(&mut state);
         for (j, state_j) in state.iter_mut().enumerate() {
-- 
2.43.0


From 3d6f58a8dcc2cb2f0eff08f7c399db2a28e0525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 09/38] fix: range check the difference SLT and SLTU compare by

`less_than` is only as good as the range check on `abs_diff`, which was done
for branches but not for SLT and SLTU: their result could be either value.
---
 circuits/src/cpu/columns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index a41ff47..f1ba42d 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -307,7 +307,7 @@ pub fn rangecheck_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>>
         (CPU.remainder_slack, divs),
         (CPU.dst_value, ops.add + ops.sub + ops.jalr),
         (CPU.inst.pc, ops.jalr),
-        (CPU.abs_diff, ops.bge + ops.blt),
+        (CPU.abs_diff, ops.bge + ops.blt + ops.slt),
         (CPU.product_high_limb, muls),
         (CPU.product_low_limb, muls),
         // apply range constraints for the sign bits of each operand
-- 
2.43.0


From aa93e8991df1ba42ce9923951367b0fa9ccf38ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 10/38] fix: range check the operands of a taken BLTU

The table for taken BLTU branches relies on a range check of op2 - op1 - 1 to
show op1 < op2, but that range check was never looked up, so any BLTU could be
claimed to be taken.
---
 circuits/src/stark/mozak_stark.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuits/src/stark/mozak_stark.rs b/circuits/src/stark/mozak_stark.rs
index 847534a..b32cd8b 100644
--- a/circuits/src/stark/mozak_stark.rs
+++ b/circuits/src/stark/mozak_stark.rs
@@ -708,6 +708,7 @@ impl Lookups for RangecheckTable {
             memory::columns::rangecheck_looking(),
             cpu::columns::rangecheck_looking(),
             ops::add::columns::rangecheck_looking(),
+            ops::blt_taken::columns::rangecheck_looking(),
             register,
         ]
         .collect();
-- 
2.43.0


From 0f25d02eb61b55d52914c99477dd891557a5fe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 11/38] fix: the sign of a quotient is a bit

`quotient_sign` stands for 0 or 1 in the division constraints, but nothing
said so: with other field elements DIVU, REMU and SRL had other results.
---
 circuits/src/cpu/div.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuits/src/cpu/div.rs b/circuits/src/cpu/div.rs
index 65a5468..b568f1d 100644
--- a/circuits/src/cpu/div.rs
+++ b/circuits/src/cpu/div.rs
@@ -50,6 +50,7 @@ pub(crate) fn constraints<'a, P: Copy>(
     );
 
     // We also need to make sure quotient_sign and remainder_sign are set correctly.
+    cb.always(quotient_sign.is_binary());
     cb.always(remainder_sign.is_binary());
     cb.always(dividend_sign.is_binary());
 
-- 
2.43.0


From 084cf898b29d4e6fdadaf881656c81acb27e8369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 12/38] fix: LW and SW transfer the word itself

Only byte and halfword accesses had their register value tied to the value in
memory; the result of LW and the word written by SW were the prover's choice.
---
 circuits/src/cpu/memory.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuits/src/cpu/memory.rs b/circuits/src/cpu/memory.rs
index a47622d..bac4800 100644
--- a/circuits/src/cpu/memory.rs
+++ b/circuits/src/cpu/memory.rs
@@ -27,6 +27,10 @@ pub(crate) fn signed_constraints<'a, P: Copy>(
     // `mem_access_raw` in case `dst_sign_bit` is set
     cb.always(lv.inst.ops.lh * (lv.dst_value - (lv.mem_value_raw + lv.dst_sign_bit * 0xFFFF_0000)));
 
+    // For full words, the register value and the memory value are the same.
+    cb.always(lv.inst.ops.lw * (lv.dst_value - lv.mem_value_raw));
+    cb.always(lv.inst.ops.sw * (lv.op1_value - lv.mem_value_raw));
+
     let and_gadget = and_gadget(&lv.xor);
     // SB/SH uses only least significant 8/16 bit from RS1 register.
     cb.always((lv.inst.ops.sb + lv.inst.ops.sh) * (and_gadget.input_a - lv.op1_value));
-- 
2.43.0


From b0eff8d70ca2d4050d6cc57e4039e0db89b0aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 13/38] fix: look up the masks of SB and SH in the Xor table

SB and SH compute the bytes they store with the AND gadget, which is only
sound for rows that are looked up in the Xor table; theirs were not.
---
 circuits/src/cpu/columns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index f1ba42d..0116aee 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -411,7 +411,7 @@ pub fn lookup_for_storage_tables() -> TableWithTypedOutput<StorageDeviceCtl<Colu
 impl<T: core::ops::Add<Output = T>> OpSelectors<T> {
     #[must_use]
     pub fn ops_that_use_xor(self) -> T {
-        self.xor + self.or + self.and + self.srl + self.sll + self.sra
+        self.xor + self.or + self.and + self.srl + self.sll + self.sra + self.sb + self.sh
     }
 
     pub fn ops_that_shift(self) -> T { self.sll + self.srl + self.sra }
-- 
2.43.0


From 234dbc22ac67aa226ce471c4d6401a3ef114665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 14/38] fix: bind the signedness of loads to the program

LB and LBU (and LH and LHU) differ only in `is_dst_signed`, which was left out
of the instruction data that is looked up in the program, so one could stand
in for the other. The flags also have to be bits for the packing of the
instruction data to be unambiguous.
---
 circuits/src/cpu/columns.rs           | 3 ++-
 circuits/src/cpu/signed_comparison.rs | 6 ++++++
 circuits/src/program/columns.rs       | 5 +++--
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index 0116aee..84d3588 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -450,7 +450,8 @@ pub fn lookup_for_program_rom() -> TableWithTypedOutput<ProgramRom<Column>> {
                 [
                     ColumnWithTypedInput::ascending_sum(inst.ops),
                     inst.is_op1_signed,
-                    inst.is_op2_signed,
+                    // Both are bits, so they can share one entry.
+                    inst.is_op2_signed + inst.is_dst_signed * 2,
                     inst.rs1_selected,
                     inst.rs2_selected,
                     inst.rd_selected,
diff --git a/circuits/src/cpu/signed_comparison.rs b/circuits/src/cpu/signed_comparison.rs
index 6c4130b..b015519 100644
--- a/circuits/src/cpu/signed_comparison.rs
+++ b/circuits/src/cpu/signed_comparison.rs
@@ -27,6 +27,12 @@ pub(crate) fn signed_constraints<'a, P: Copy>(
     lv: &CpuState<Expr<'a, P>>,
     cb: &mut ConstraintBuilder<Expr<'a, P>>,
 ) {
+    // The program lookup packs these flags together with the rest of the
+    // instruction; that is only unambiguous as long as they are bits.
+    cb.always(lv.inst.is_op1_signed.is_binary());
+    cb.always(lv.inst.is_op2_signed.is_binary());
+    cb.always(lv.inst.is_dst_signed.is_binary());
+
     cb.always(lv.op1_sign_bit.is_binary());
     cb.always(lv.op2_sign_bit.is_binary());
 
diff --git a/circuits/src/program/columns.rs b/circuits/src/program/columns.rs
index 52ddd76..0ef4205 100644
--- a/circuits/src/program/columns.rs
+++ b/circuits/src/program/columns.rs
@@ -19,7 +19,7 @@ pub struct ProgramRom<T> {
     pub pc: T,
     /// `inst_data` include:
     /// - ops: This is an internal opcode, not the opcode from RISC-V
-    /// - `is_op1_signed` and `is_op2_signed`
+    /// - `is_op1_signed`, and `is_op2_signed` together with `is_dst_signed`
     /// - `rs1_select`, `rs2_select`, and `rd_select`
     /// - `imm_value`
     pub inst_data: T,
@@ -42,7 +42,8 @@ impl<F: RichField> From<Instruction<F>> for ProgramRom<F> {
                 [
                     ascending_sum(inst.ops),
                     inst.is_op1_signed,
-                    inst.is_op2_signed,
+                    // Both are bits, so they can share one entry.
+                    inst.is_op2_signed + inst.is_dst_signed * F::TWO,
                     inst.rs1_selected,
                     inst.rs2_selected,
                     inst.rd_selected,
-- 
2.43.0


From bb53b0c596eafe74797da85d839009e68ff59214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 15/38] fix: the next program counter is determined in every
 row

`new_pc` was constrained with `transition`, which leaves out the last row of
the table, but the relation is within a row and rows may come in any order:
the instruction in the last row could continue anywhere.
---
 circuits/src/cpu/jalr.rs  | 2 +-
 circuits/src/cpu/stark.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuits/src/cpu/jalr.rs b/circuits/src/cpu/jalr.rs
index 2b31e23..e2dcc41 100644
--- a/circuits/src/cpu/jalr.rs
+++ b/circuits/src/cpu/jalr.rs
@@ -28,7 +28,7 @@ pub(crate) fn constraints<'a, P: Copy>(
 
     // Check: the wrapped op1, op2 sum is set as new `pc`.
     // As values are u32 range checked, this makes the value choice deterministic.
-    cb.transition(lv.inst.ops.jalr * (new_pc - jump_target) * (new_pc - wrapped_jump_target));
+    cb.always(lv.inst.ops.jalr * (new_pc - jump_target) * (new_pc - wrapped_jump_target));
 }
 
 #[cfg(test)]
diff --git a/circuits/src/cpu/stark.rs b/circuits/src/cpu/stark.rs
index d34744c..229bb64 100644
--- a/circuits/src/cpu/stark.rs
+++ b/circuits/src/cpu/stark.rs
@@ -34,7 +34,7 @@ impl<F, const D: usize> HasNamedColumns for CpuStark<F, D> {
 /// Ensure that if opcode is straight line, then program counter is incremented
 /// by 4.
 fn pc_ticks_up<'a, P: Copy>(lv: &CpuState<Expr<'a, P>>, cb: &mut ConstraintBuilder<Expr<'a, P>>) {
-    cb.transition(lv.inst.ops.is_straightline() * (lv.new_pc - (lv.inst.pc + 4)));
+    cb.always(lv.inst.ops.is_straightline() * (lv.new_pc - (lv.inst.pc + 4)));
 }
 
 /// Enforce that selectors of opcode are one-hot encoded.
-- 
2.43.0


From 5ffc09ed0349c01d9b667a639e53312f3e98e14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 16/38] fix: a register is initialised only once

A second init row for the same register would start a second sequence of
accesses at clock 0, and every read could choose between the two.
---
 circuits/src/register/general/stark.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/circuits/src/register/general/stark.rs b/circuits/src/register/general/stark.rs
index bb36756..e26ff29 100644
--- a/circuits/src/register/general/stark.rs
+++ b/circuits/src/register/general/stark.rs
@@ -78,6 +78,11 @@ fn generate_constraints<'a, T: Copy>(
     // Constraint 5: Address either stays the same or increments by 1.
     constraints.transition((nv.addr - lv.addr) * (nv.addr - lv.addr - 1));
 
+    // An init starts a new address, or merely repeats the init just before: no
+    // register is initialised to two values, or in the middle of its accesses.
+    constraints.transition(nv.ops.is_init * (nv.addr - lv.addr - 1) * (nv.value - lv.value));
+    constraints.transition(nv.ops.is_init * (nv.addr - lv.addr - 1) * (1 - lv.ops.is_init));
+
     // Constraint 6: addresses go from 1 to 31.
     constraints.first_row(lv.addr - 1);
     constraints.last_row(lv.addr - 31);
-- 
2.43.0


From 32a32be745afec0df1746e88d4182ebe9314555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 17/38] fix: a sponge runs to its end and keeps its output
 address

A row of a Poseidon2 sponge that does not generate the output has to be
followed by another row of the same sponge, or the digest is never written.
The output address was only bound to its register in the first row of a
sponge, but is used in the last.
---
 circuits/src/poseidon2_sponge/stark.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuits/src/poseidon2_sponge/stark.rs b/circuits/src/poseidon2_sponge/stark.rs
index e16fdc4..92e074d 100644
--- a/circuits/src/poseidon2_sponge/stark.rs
+++ b/circuits/src/poseidon2_sponge/stark.rs
@@ -85,6 +85,10 @@ fn generate_constraints<'a, T: Copy>(
     // and input_addr increases by RATE
     constraints.transition(not_last_sponge * (lv.input_addr - (nv.input_addr - rate_scalar)));
 
+    // the next row belongs to the same sponge, and writes to the same place.
+    constraints.always(not_last_sponge * (1 - nv.ops.is_permute));
+    constraints.transition(not_last_sponge * (nv.output_addr - lv.output_addr));
+
     // For each init_permute capacity bits are zero.
     for i in rate..state_size {
         constraints.always(lv.ops.is_init_permute * (lv.preimage[i as usize] - 0));
-- 
2.43.0


From 7ad9b4144220f3460b5fe520765e215812c95c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 18/38] fix: bind the address of event tape reads to register
 a1

`register_looking` listed every tape but the event tape, whose data could
therefore be written to any address.
---
 circuits/src/storage_device/columns.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/circuits/src/storage_device/columns.rs b/circuits/src/storage_device/columns.rs
index 281531b..1bfa94c 100644
--- a/circuits/src/storage_device/columns.rs
+++ b/circuits/src/storage_device/columns.rs
@@ -8,8 +8,9 @@ use crate::cross_table_lookup::{Column, ColumnWithTypedInput};
 use crate::memory::columns::MemoryCtl;
 use crate::register::RegisterCtl;
 use crate::stark::mozak_stark::{
-    CallTapeTable, CastListCommitmentTapeTable, EventsCommitmentTapeTable, SelfProgIdTapeTable,
-    StorageDevicePrivateTable, StorageDevicePublicTable, TableKind, TableWithTypedOutput,
+    CallTapeTable, CastListCommitmentTapeTable, EventTapeTable, EventsCommitmentTapeTable,
+    SelfProgIdTapeTable, StorageDevicePrivateTable, StorageDevicePublicTable, TableKind,
+    TableWithTypedOutput,
 };
 use crate::tape_commitments::columns::TapeCommitmentCTL;
 
@@ -109,6 +110,7 @@ pub fn register_looking() -> Vec<TableWithTypedOutput<RegisterCtl<Column>>> {
         StorageDevicePrivateTable::new(data, COL_MAP.ops.is_storage_device),
         StorageDevicePublicTable::new(data, COL_MAP.ops.is_storage_device),
         CallTapeTable::new(data, COL_MAP.ops.is_storage_device),
+        EventTapeTable::new(data, COL_MAP.ops.is_storage_device),
         EventsCommitmentTapeTable::new(data, COL_MAP.ops.is_storage_device),
         CastListCommitmentTapeTable::new(data, COL_MAP.ops.is_storage_device),
         SelfProgIdTapeTable::new(data, COL_MAP.ops.is_storage_device),
-- 
2.43.0


From 83f7112ca9693b0e619cbcd7378c620b2de7710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 19/38] fix: memory rows of a storage device belong to its
 reads

Rows that write device data to memory could stand on their own, at any clock
and address, and a sequence of them could be cut short or change its clock.
Conversely, a read of zero bytes followed by a read of more had no valid
trace, because the constraint for the rows in a sequence also applied to two
adjacent reads.
---
 circuits/src/storage_device/stark.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/circuits/src/storage_device/stark.rs b/circuits/src/storage_device/stark.rs
index 6ed9de2..564fa2f 100644
--- a/circuits/src/storage_device/stark.rs
+++ b/circuits/src/storage_device/stark.rs
@@ -70,9 +70,19 @@ fn generate_constraints<'a, T: Copy>(
     //  1) is_binary(storage_device or memory)
     //  2) if nv.is_storage_device() == 1: lv.size == 0
 
-    // If lv.is_storage_device() == 1 && nv.size != 0:
-    //      nv.is_lv_and_nv_are_memory_rows == 1
-    constraints.always(lv.ops.is_storage_device * nv.size * (nv.is_lv_and_nv_are_memory_rows - 1));
+    // If lv is a memory row that is not the last one of its sequence, then:
+    //      lv.is_lv_and_nv_are_memory_rows == 1
+    constraints
+        .always(lv.ops.is_memory_store * lv.size * (lv.is_lv_and_nv_are_memory_rows - 1));
+
+    // A memory row always continues the sequence of the row before:
+    // same clock, one byte less to go.
+    constraints.first_row(lv.ops.is_memory_store);
+    constraints.transition(nv.ops.is_memory_store * (1 - lv.is_executed()));
+    constraints.transition(nv.ops.is_memory_store * (nv.clk - lv.clk));
+    constraints.transition(nv.ops.is_memory_store * (nv.size - (lv.size - 1)));
+    // And as long as there are bytes to go, another memory row follows.
+    constraints.always(lv.is_executed() * lv.size * (nv.ops.is_memory_store - 1));
 
     constraints
 }
-- 
2.43.0


From a0c1a8cbfc5bd426543e117bc2538dedfe184f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:59 +0000
Subject: [PATCH 20/38] fix: DIV and REM of -31 by -1 can be proved

The special case meant for -2^31 / -1 was written `-2 ^ 31`, which is the
exclusive or -31, and made the trace of -31 / -1 invalid. The overflow case it
was meant for satisfies the constraints without it.
---
 circuits/src/cpu/generation.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/circuits/src/cpu/generation.rs b/circuits/src/cpu/generation.rs
index 7f4f2a8..d01bac6 100644
--- a/circuits/src/cpu/generation.rs
+++ b/circuits/src/cpu/generation.rs
@@ -276,12 +276,8 @@ fn generate_div_row<F: RichField>(row: &mut CpuState<F>, inst: &Instruction, aux
         row.quotient_value = from_u32(quotient_full_range as u32);
         row.quotient_sign = F::from_bool(quotient_full_range.is_negative());
         row.skip_check_quotient_sign = F::from_bool(quotient_full_range == 0);
-        if dividend_full_range == -2 ^ 31 && divisor_full_range == -1 {
-            // Special case for dividend == -2^31, divisor == -1:
-            // quotient_sign == 1 (quotient = -2^31).
-            row.skip_check_quotient_sign = F::ONE;
-            row.quotient_sign = F::ONE;
-        }
+        // Note: the overflow case of dividend == -2^31, divisor == -1 needs no special
+        // treatment: its quotient 2^31 is non-negative, as the signs say.
         let remainder = dividend_full_range - quotient_full_range * divisor_full_range;
         let remainder_abs = remainder.unsigned_abs();
         row.remainder_value = from_u32(remainder as u32);
-- 
2.43.0


From f86e7ffbc0f370cf2e732ca6d468dd74719e03c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:11 +0000
Subject: [PATCH 21/38] fix: a system call continues with the next instruction

The program counter after an ECALL other than HALT was not constrained at
all: a proof could continue anywhere.
---
 circuits/src/cpu/ecall.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuits/src/cpu/ecall.rs b/circuits/src/cpu/ecall.rs
index 2bb38b3..a7838f3 100644
--- a/circuits/src/cpu/ecall.rs
+++ b/circuits/src/cpu/ecall.rs
@@ -19,6 +19,9 @@ pub(crate) fn constraints<'a, P: Copy>(
     }
     cb.always(lv.inst.ops.ecall - ecalls.iter().sum::<Expr<'a, P>>());
     cb.always(lv.ecall_selectors.is_halt * (lv.op1_value - i64::from(ecall::HALT)));
+    // HALT stays where it is, every other system call goes on with the next
+    // instruction.
+    cb.always(lv.inst.ops.ecall * (lv.new_pc - lv.inst.pc - (1 - lv.ecall_selectors.is_halt) * 4));
     storage_device_constraints(lv, cb);
     poseidon2_constraints(lv, cb);
 }
-- 
2.43.0


From 6b4424758c13a0956a242a352c480662a79354f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 22/38] fix: the accesses of the first register begin with an
 init too

The register table could start with a read of x1, so x1 needed no initial
value.
---
 circuits/src/register/general/stark.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuits/src/register/general/stark.rs b/circuits/src/register/general/stark.rs
index e26ff29..ffa6ce9 100644
--- a/circuits/src/register/general/stark.rs
+++ b/circuits/src/register/general/stark.rs
@@ -85,6 +85,7 @@ fn generate_constraints<'a, T: Copy>(
 
     // Constraint 6: addresses go from 1 to 31.
     constraints.first_row(lv.addr - 1);
+    constraints.first_row(1 - lv.ops.is_init);
     constraints.last_row(lv.addr - 31);
 
     constraints
-- 
2.43.0


From f3a15a74961696dfa393754698fdbb9a13939dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:41 +0000
Subject: [PATCH 23/38] fix: load only the segments an executable marks
 loadable

---
 runner/src/elf.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runner/src/elf.rs b/runner/src/elf.rs
index 8818314..365ea8c 100644
--- a/runner/src/elf.rs
+++ b/runner/src/elf.rs
@@ -200,6 +200,7 @@ impl Program {
     ) -> HashMap<u32, u8> {
         segments
             .iter()
+            .filter(|program_header| program_header.p_type == elf::abi::PT_LOAD)
             .filter(|program_header| check_program_flags(program_header.p_flags, program_header))
             .map(|program_header| -> anyhow::Result<_> {
                 let file_size: usize = program_header.p_filesz.try_into()?;
-- 
2.43.0


From ab9667476c14cadb41041a1f972fad14094b25cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:41 +0000
Subject: [PATCH 24/38] fix: load executable segments that are also writable as
 data

---
 runner/src/elf.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runner/src/elf.rs b/runner/src/elf.rs
index 365ea8c..83336ef 100644
--- a/runner/src/elf.rs
+++ b/runner/src/elf.rs
@@ -170,7 +170,10 @@ impl Program {
         ));
 
         let rw_memory = Data(Program::extract_elf_data(
-            |flags, _| flags == elf::abi::PF_R | elf::abi::PF_W,
+            |flags, _| {
+                (flags & elf::abi::PF_R == elf::abi::PF_R)
+                    && (flags & elf::abi::PF_W == elf::abi::PF_W)
+            },
             input,
             &segments,
         ));
-- 
2.43.0


From 718c5178f909b40a086cb398f08083ed97eb1a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:41 +0000
Subject: [PATCH 25/38] fix: wrap around when loading at the top of the address
 space

---
 runner/src/code.rs |  4 ++--
 runner/src/elf.rs  | 22 ++++++++++++++--------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/runner/src/code.rs b/runner/src/code.rs
index 8b57b3e..e51d08d 100644
--- a/runner/src/code.rs
+++ b/runner/src/code.rs
@@ -39,8 +39,8 @@ impl From<&HashMap<u32, u8>> for Code {
         fn load_u32(m: &HashMap<u32, u8>, addr: u32) -> u32 {
             const WORD_SIZE: usize = 4;
             let mut bytes = [0_u8; WORD_SIZE];
-            for (i, byte) in (addr..).zip(bytes.iter_mut()) {
-                *byte = m.get(&i).copied().unwrap_or_default();
+            for (i, byte) in (0..).zip(bytes.iter_mut()) {
+                *byte = m.get(&addr.wrapping_add(i)).copied().unwrap_or_default();
             }
             u32::from_le_bytes(bytes)
         }
diff --git a/runner/src/elf.rs b/runner/src/elf.rs
index 83336ef..f6015dc 100644
--- a/runner/src/elf.rs
+++ b/runner/src/elf.rs
@@ -49,7 +49,11 @@ impl From<HashMap<u32, u32>> for Program {
         }
         let image: HashMap<u32, u8> = image
             .iter()
-            .flat_map(move |(k, v)| (*k..).zip(v.to_le_bytes()))
+            .flat_map(move |(k, v)| {
+                (0..)
+                    .zip(v.to_le_bytes())
+                    .map(|(i, byte)| (k.wrapping_add(i), byte))
+            })
             .collect::<HashMap<u32, u8>>();
         Self {
             entry_point: 0_u32,
@@ -81,9 +85,9 @@ impl From<HashMap<u32, u32>> for Data {
             image
                 .iter()
                 .flat_map(move |(k, v)| {
-                    (u64::from(*k)..)
-                        .map(|k| u32::try_from(k).unwrap())
+                    (0..)
                         .zip(v.to_le_bytes())
+                        .map(|(i, byte)| (k.wrapping_add(i), byte))
                 })
                 .collect(),
         )
@@ -213,11 +217,13 @@ impl Program {
 
                 let min_size = min(file_size, mem_size);
                 let max_size = max(file_size, mem_size);
-                Ok((vaddr..).zip(
-                    chain!(&input[offset..][..min_size], repeat(&0u8))
-                        .take(max_size)
-                        .copied(),
-                ))
+                Ok((0..)
+                    .zip(
+                        chain!(&input[offset..][..min_size], repeat(&0u8))
+                            .take(max_size)
+                            .copied(),
+                    )
+                    .map(move |(i, byte)| (vaddr.wrapping_add(i), byte)))
             })
             .flatten_ok()
             .try_collect()
-- 
2.43.0


From 4b5ff9449f39d129a11c4f0b4b895ba7a75c810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:41 +0000
Subject: [PATCH 26/38] fix: allow branch addresses above all 64 bits of an
 address

---
 node/src/block_proposer.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/node/src/block_proposer.rs b/node/src/block_proposer.rs
index 74f3bf8..b0e39c0 100644
--- a/node/src/block_proposer.rs
+++ b/node/src/block_proposer.rs
@@ -127,6 +127,14 @@ impl PartialOrd<BranchAddress> for BranchAddress {
     }
 }
 
+/// Shift out the bottom `n` bits, where shifting out all 64 bits is fine (`0`)
+fn shr(addr: u64, n: usize) -> u64 {
+    u32::try_from(n)
+        .ok()
+        .and_then(|n| addr.checked_shr(n))
+        .unwrap_or(0)
+}
+
 impl BranchAddress {
     /// Initialize the `BranchAddress` to the root node
     #[must_use]
@@ -182,7 +190,7 @@ impl BranchAddress {
     /// If we've reached the bottom, return an `Address` instead
     #[must_use]
     pub fn parent(mut self, n: usize) -> Self {
-        self.addr.0 >>= n;
+        self.addr.0 = shr(self.addr.0, n);
         self.height += n;
         self
     }
@@ -220,7 +228,7 @@ impl BranchAddress {
 
         // Check if child actually descends from parent
         let delta = parent.height - child.height;
-        let child_addr = child.addr.0 >> delta;
+        let child_addr = shr(child.addr.0, delta);
         match (child_addr.cmp(&parent.addr.0), lhs_is_parent) {
             (Ordering::Less, false) | (Ordering::Greater, true) =>
                 return BranchAddressComparison::RightCousin,
@@ -229,12 +237,11 @@ impl BranchAddress {
             (Ordering::Equal, _) => {}
         }
 
-        let addr = Address(child.addr.0 & ((1 << delta) - 1));
-        match (addr.next(delta - 1).1, lhs_is_parent) {
-            (Dir::Left, true) => BranchAddressComparison::LeftChild,
-            (Dir::Right, true) => BranchAddressComparison::RightChild,
-            (Dir::Left, false) => BranchAddressComparison::LeftParent,
-            (Dir::Right, false) => BranchAddressComparison::RightParent,
+        match (shr(child.addr.0, delta - 1) & 1 == 0, lhs_is_parent) {
+            (true, true) => BranchAddressComparison::LeftChild,
+            (false, true) => BranchAddressComparison::RightChild,
+            (true, false) => BranchAddressComparison::LeftParent,
+            (false, false) => BranchAddressComparison::RightParent,
         }
     }
 }
-- 
2.43.0


From d475fa6f92c5b5b1302dcf9881ff1068e841055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:41 +0000
Subject: [PATCH 27/38] fix: bring state tree branches up to date when
 finalizing prunes a child

---
 node/src/block_proposer/state.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/node/src/block_proposer/state.rs b/node/src/block_proposer/state.rs
index 5406091..5d410bd 100644
--- a/node/src/block_proposer/state.rs
+++ b/node/src/block_proposer/state.rs
@@ -465,7 +465,11 @@ impl AuxStateData {
     }
 
     fn finalize(&self, root: &mut SparseMerkleBranch) {
-        self.finalize_branch(root, BranchAddress::root(root.height));
+        let outcome = self.finalize_branch(root, BranchAddress::root(root.height));
+        // The root itself can't be pruned, so it has to be brought up to date
+        if let FinalizeOutcome::Prune = outcome {
+            self.recalc_branch_helper(root);
+        }
     }
 
     fn finalize_branch(
@@ -473,6 +477,10 @@ impl AuxStateData {
         branch: &mut SparseMerkleBranch,
         addr: BranchAddress,
     ) -> FinalizeOutcome {
+        let children =
+            |branch: &SparseMerkleBranch| (branch.left.is_some(), branch.right.is_some());
+        let before = children(branch);
+
         let left_outcome = if let Some(mut left) = branch.left.take() {
             let outcome = match (&mut *left, addr.child(Dir::Left)) {
                 (SparseMerkleNode::Branch(branch), Ok(addr)) => self.finalize_branch(branch, addr),
@@ -501,7 +509,11 @@ impl AuxStateData {
             FinalizeOutcome::Prune
         };
 
-        let outcome = left_outcome + right_outcome;
+        let outcome = match left_outcome + right_outcome {
+            // Losing a child changes a branch even if what is left of it is unchanged
+            FinalizeOutcome::NoOp if children(branch) != before => FinalizeOutcome::Recalc,
+            outcome => outcome,
+        };
 
         if let FinalizeOutcome::Recalc = outcome {
             self.recalc_branch_helper(branch);
-- 
2.43.0


From 59011946f0a5ab5c4b5836d0d62ec86ff951460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:51 +0000
Subject: [PATCH 28/38] fix: find a program's place in casts of every length

---
 node/src/block_proposer/transactions.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/node/src/block_proposer/transactions.rs b/node/src/block_proposer/transactions.rs
index 377001d..0238a30 100644
--- a/node/src/block_proposer/transactions.rs
+++ b/node/src/block_proposer/transactions.rs
@@ -446,6 +446,26 @@ impl AuxTransactionData {
     }
 }
 
+/// The path to the leaf at `index` in the tree `reduce_tree` builds from
+/// `count` leaves: the left part of `count` leaves is the biggest power of two
+/// below it.
+fn cast_path(mut index: usize, mut count: usize) -> Option<AddressPath<usize>> {
+    let (mut addr, mut bits) = (0, 0);
+    while count > 1 {
+        let left = count.next_power_of_two() / 2;
+        addr <<= 1;
+        bits += 1;
+        if index < left {
+            count = left;
+        } else {
+            addr |= 1;
+            index -= left;
+            count -= left;
+        }
+    }
+    AddressPath::path(addr, bits)
+}
+
 pub struct TransactionAccumulator<'a> {
     aux: &'a AuxTransactionData,
     ongoing_tx: HashMap<OngoingTxKey, OngoingTx>,
@@ -691,10 +711,9 @@ impl<'a> TransactionAccumulator<'a> {
                 v.insert(OngoingTx { nodes })
             }
             Entry::Occupied(mut o) => {
-                let bits = usize::BITS - cast_list.len().leading_zeros();
                 self.aux.insert_program(
                     &mut o.get_mut().nodes,
-                    AddressPath::path(cast_index, bits as usize),
+                    cast_path(cast_index, cast_list.len()),
                     event_tree,
                     proof,
                 )?;
-- 
2.43.0


From 85a4fff0a8ca7bb62c8e8ffe03c8973b12acf9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:51 +0000
Subject: [PATCH 29/38] fix: merge several events at one address across
 programs and transactions

---
 node/src/block_proposer/transactions.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/node/src/block_proposer/transactions.rs b/node/src/block_proposer/transactions.rs
index 0238a30..c7537a8 100644
--- a/node/src/block_proposer/transactions.rs
+++ b/node/src/block_proposer/transactions.rs
@@ -295,6 +295,11 @@ impl AuxTransactionData {
         let leaf_circuit = &self.merge_leaf_circuit;
         let branch_circuit = &self.merge_branch_circuit;
         let comparison = left.address().compare(right.address());
+        // Both hold all the events of one and the same leaf address
+        if comparison == Equal && left.address().height == 0 {
+            let (proof, event) = self.simple_merge(left, right);
+            return (Either::Left(Cow::Owned(proof)), event);
+        }
         match (left, right, comparison) {
             // Unreachable states
             // LHS-Leaf and RHS-Leaf at different heights
@@ -303,13 +308,13 @@ impl AuxTransactionData {
             | (
                 EventNode::Leaf { .. },
                 EventNode::Branch { .. },
-                Equal | LeftSibling | RightSibling | LeftChild | RightChild,
+                Equal | LeftChild | RightChild,
             )
             // LHS-Branch below RHS-Leaf
             | (
                 EventNode::Branch { .. },
                 EventNode::Leaf { .. },
-                Equal | LeftSibling | RightSibling | LeftParent | RightParent,
+                Equal | LeftParent | RightParent,
             ) => unreachable!(),
 
             // Simple merges
-- 
2.43.0


From cc41a0b46718fcda042f9f6f25a3ca0b3315615c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:51 +0000
Subject: [PATCH 30/38] fix: refuse program proofs made for another place or
 transaction

---
 node/src/block_proposer/transactions.rs | 33 ++++++++++++++++---------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/node/src/block_proposer/transactions.rs b/node/src/block_proposer/transactions.rs
index c7537a8..7a2b45b 100644
--- a/node/src/block_proposer/transactions.rs
+++ b/node/src/block_proposer/transactions.rs
@@ -626,6 +626,16 @@ impl<'a> TransactionAccumulator<'a> {
         );
         let event_tree = event_tree.map(|x| x.1);
 
+        let cast_root = reduce_tree(
+            cast_list.iter().map(|p| p.0),
+            |x| x,
+            |x| x,
+            Poseidon2Hash::two_to_one,
+        )
+        .unwrap()
+        .to_u64s()
+        .map(F::from_canonical_u64);
+
         // Delay the proof calculation
         let proof = || {
             let event_branch = &self.aux.event_branch_circuit;
@@ -653,23 +663,22 @@ impl<'a> TransactionAccumulator<'a> {
                 }
             };
 
-            self.aux.program_leaf_circuit.prove(
+            let proof = self.aux.program_leaf_circuit.prove(
                 &self.aux.program_branch_circuit,
                 program_verifier,
                 program_proof,
                 event_root_proof,
-            )
-        };
+            )?;
 
-        let cast_root = reduce_tree(
-            cast_list.iter().map(|p| p.0),
-            |x| x,
-            |x| x,
-            Poseidon2Hash::two_to_one,
-        )
-        .unwrap()
-        .to_u64s()
-        .map(F::from_canonical_u64);
+            // Make sure the proof is for this place in this transaction
+            if proof.program_id().elements != id.0.to_u64s().map(F::from_noncanonical_u64) {
+                bail!("proof was not for program {id:?}");
+            }
+            if proof.call_list() != call_tape || proof.cast_root() != cast_root {
+                bail!("proof was not for transaction {call_tape:?} {cast_root:?}");
+            }
+            Ok(proof)
+        };
 
         let key = OngoingTxKey {
             cast_root,
-- 
2.43.0


From 32d7ba73e841a39e5764496bd076307e1b0cde0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:54 +0000
Subject: [PATCH 31/38] fix: stamp what is only read with its own last update

---
 node/src/block_proposer/matches.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/src/block_proposer/matches.rs b/node/src/block_proposer/matches.rs
index 9dca78b..ee3eb95 100644
--- a/node/src/block_proposer/matches.rs
+++ b/node/src/block_proposer/matches.rs
@@ -182,7 +182,7 @@ impl<'a> Matches<'a> {
                 let (old, new) = objs(addr);
                 let val = LeafWitnessValue {
                     block_height,
-                    last_updated: new.last_updated.to_canonical_u64(),
+                    last_updated: old.last_updated.to_canonical_u64(),
                     old_owner: old.constraint_owner,
                     new_owner: new.constraint_owner,
                     old_data: old.data,
-- 
2.43.0


From 7650f0f4576ca7f3075381a65549be32b4622252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:54 +0000
Subject: [PATCH 32/38] fix: let only the owner write an object, and hold
 ensures to the new data

---
 recproofs/src/circuits/match_delta.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recproofs/src/circuits/match_delta.rs b/recproofs/src/circuits/match_delta.rs
index 4b29dee..ddb79e3 100644
--- a/recproofs/src/circuits/match_delta.rs
+++ b/recproofs/src/circuits/match_delta.rs
@@ -179,7 +179,9 @@ where
             .get_target(&targets.accumulate_event.public_inputs);
         builder.connect(compare_delta_targets.object_flags, acc_flags);
         let acc_flags = SplitFlags::split(&mut builder, acc_flags);
+        let has_new_data = builder.is_nonzero(acc_flags.new_data);
         let has_owner = builder.is_nonzero(acc_flags.owner);
+        let has_old_owner = builder.or(acc_flags.write, has_owner);
         // old owner
         {
             let acc_old_owner = accumulate_event_circuit
@@ -190,7 +192,7 @@ where
             maybe_connect(
                 &mut builder,
                 compare_delta_targets.old_owner,
-                has_owner,
+                has_old_owner,
                 acc_old_owner,
             );
         }
@@ -232,7 +234,7 @@ where
             maybe_connect(
                 &mut builder,
                 compare_delta_targets.new_data,
-                acc_flags.write,
+                has_new_data,
                 acc_new_data,
             );
         }
-- 
2.43.0


From 1dc7aea1b884fab1c5026e33e6019eac391c5939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:01 +0000
Subject: [PATCH 33/38] fix: require that verified recursions are over the
 node's own circuits

---
 recproofs/src/circuits/match_delta.rs         |  9 +++++++++
 recproofs/src/circuits/merge/embed.rs         |  8 ++++++++
 recproofs/src/circuits/verify_block/core.rs   | 16 ++++++++++++++++
 recproofs/src/circuits/verify_program/core.rs | 11 +++++++++++
 recproofs/src/circuits/verify_tx/core.rs      |  8 ++++++++
 5 files changed, 52 insertions(+)

diff --git a/recproofs/src/circuits/match_delta.rs b/recproofs/src/circuits/match_delta.rs
index ddb79e3..07e5a50 100644
--- a/recproofs/src/circuits/match_delta.rs
+++ b/recproofs/src/circuits/match_delta.rs
@@ -153,6 +153,15 @@ where
             &verifier,
             &accumulate_event_circuit.circuit.common,
         );
+        // recursion verifier
+        {
+            let acc_verifier = accumulate_event_circuit
+                .unbounded
+                .indices
+                .verifier
+                .get_target(&targets.accumulate_event.public_inputs);
+            builder.connect_verifier_data(&acc_verifier, &verifier);
+        }
         // event hash
         {
             let acc_event_hash = accumulate_event_circuit
diff --git a/recproofs/src/circuits/merge/embed.rs b/recproofs/src/circuits/merge/embed.rs
index 2371701..c87d1c0 100644
--- a/recproofs/src/circuits/merge/embed.rs
+++ b/recproofs/src/circuits/merge/embed.rs
@@ -148,6 +148,14 @@ impl SubCircuitInputs {
         let verifier = builder.constant_verifier_data(&circuit.verifier_only);
         builder.verify_proof::<C>(&proof, &verifier, &circuit.common);
 
+        // Ensure the recursion was over the branch circuit
+        let recursion_verifier = mc
+            .unbounded
+            .indices
+            .verifier
+            .get_target(&proof.public_inputs);
+        builder.connect_verifier_data(&recursion_verifier, &verifier);
+
         let a_present = mc.merge.indices.a_present.get_target(&proof.public_inputs);
         let b_present = mc.merge.indices.b_present.get_target(&proof.public_inputs);
         let merged_present = mc
diff --git a/recproofs/src/circuits/verify_block/core.rs b/recproofs/src/circuits/verify_block/core.rs
index de46523..b97ae9c 100644
--- a/recproofs/src/circuits/verify_block/core.rs
+++ b/recproofs/src/circuits/verify_block/core.rs
@@ -278,6 +278,14 @@ impl<const D: usize> TxVerifierTargets<D> {
         let verifier = builder.constant_verifier_data(&circuit.verifier_only);
         builder.verify_proof::<C>(&proof, &verifier, &circuit.common);
 
+        // Ensure the recursion was over the branch circuit
+        let recursion_verifier = tx
+            .unbounded
+            .indices
+            .verifier
+            .get_target(&proof.public_inputs);
+        builder.connect_verifier_data(&recursion_verifier, &verifier);
+
         let events_present = tx
             .events
             .indices
@@ -346,6 +354,14 @@ impl<const D: usize> MatchDeltaVerifierTargets<D> {
         let verifier = builder.constant_verifier_data(&circuit.verifier_only);
         builder.verify_proof::<C>(&proof, &verifier, &circuit.common);
 
+        // Ensure the recursion was over the branch circuit
+        let recursion_verifier = md
+            .unbounded
+            .indices
+            .verifier
+            .get_target(&proof.public_inputs);
+        builder.connect_verifier_data(&recursion_verifier, &verifier);
+
         let event_root = md
             .event_hash
             .indices
diff --git a/recproofs/src/circuits/verify_program/core.rs b/recproofs/src/circuits/verify_program/core.rs
index 8fceda9..f51da6b 100644
--- a/recproofs/src/circuits/verify_program/core.rs
+++ b/recproofs/src/circuits/verify_program/core.rs
@@ -208,6 +208,17 @@ impl<C: GenericConfig<D>, const D: usize> EventRootVerifierTargets<C, D> {
         let verifier = select_verifier(builder, events_present, &real_verifier, &zero_verifier);
         builder.verify_proof::<C>(&event_root_proof, &verifier, &circuit.common);
 
+        // Ensure the recursion was over the branch circuit. The zero circuit has no
+        // recursion.
+        let recursion_verifier = event_root_circuit
+            .unbounded
+            .indices
+            .verifier
+            .get_target(&event_root_proof.public_inputs);
+        let recursion_verifier_calc =
+            select_verifier(builder, events_present, &real_verifier, &recursion_verifier);
+        builder.connect_verifier_data(&recursion_verifier, &recursion_verifier_calc);
+
         let event_owner = event_root_circuit
             .event_owner
             .indices
diff --git a/recproofs/src/circuits/verify_tx/core.rs b/recproofs/src/circuits/verify_tx/core.rs
index e32114b..3048736 100644
--- a/recproofs/src/circuits/verify_tx/core.rs
+++ b/recproofs/src/circuits/verify_tx/core.rs
@@ -40,6 +40,14 @@ impl<const D: usize> ProgramSetVerifierTargets<D> {
 
         builder.verify_proof::<C>(&program_set_proof, &verifier, &circuit.common);
 
+        // Ensure the recursion was over the branch circuit
+        let recursion_verifier = program
+            .unbounded
+            .indices
+            .verifier
+            .get_target(&program_set_proof.public_inputs);
+        builder.connect_verifier_data(&recursion_verifier, &verifier);
+
         let events_present = program
             .events
             .indices
-- 
2.43.0


From 8bce32e321eab912ceb67069aee89e0bf3374d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:01 +0000
Subject: [PATCH 34/38] fix: refuse to verify recursions over other circuits

---
 recproofs/src/circuits/accumulate_delta.rs | 6 +++++-
 recproofs/src/circuits/build_event_root.rs | 6 +++++-
 recproofs/src/circuits/match_delta.rs      | 6 +++++-
 recproofs/src/circuits/merge.rs            | 6 +++++-
 recproofs/src/circuits/verify_block.rs     | 6 +++++-
 recproofs/src/circuits/verify_program.rs   | 6 +++++-
 recproofs/src/circuits/verify_tx.rs        | 6 +++++-
 7 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/recproofs/src/circuits/accumulate_delta.rs b/recproofs/src/circuits/accumulate_delta.rs
index f9d4b5e..772933c 100644
--- a/recproofs/src/circuits/accumulate_delta.rs
+++ b/recproofs/src/circuits/accumulate_delta.rs
@@ -2,7 +2,7 @@
 
 use std::marker::PhantomData;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use enumflags2::BitFlags;
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::{HashOut, RichField};
@@ -331,6 +331,10 @@ where
     }
 
     pub fn verify(&self, proof: BranchProof<F, C, D>) -> Result<()> {
+        ensure!(
+            proof.verifier() == self.circuit.verifier_only,
+            "Recursion was not over this circuit"
+        );
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/build_event_root.rs b/recproofs/src/circuits/build_event_root.rs
index b362638..b336e45 100644
--- a/recproofs/src/circuits/build_event_root.rs
+++ b/recproofs/src/circuits/build_event_root.rs
@@ -2,7 +2,7 @@
 
 use std::marker::PhantomData;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::{HashOut, RichField};
 use plonky2::iop::target::Target;
@@ -396,6 +396,10 @@ where
     }
 
     pub fn verify(&self, proof: BranchProof<F, C, D>) -> Result<()> {
+        ensure!(
+            proof.verifier() == self.circuit.verifier_only,
+            "Recursion was not over this circuit"
+        );
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/match_delta.rs b/recproofs/src/circuits/match_delta.rs
index 07e5a50..bc126b1 100644
--- a/recproofs/src/circuits/match_delta.rs
+++ b/recproofs/src/circuits/match_delta.rs
@@ -3,7 +3,7 @@
 
 use std::marker::PhantomData;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::{HashOut, RichField};
 use plonky2::iop::witness::{PartialWitness, WitnessWrite};
@@ -494,6 +494,10 @@ where
     }
 
     pub fn verify(&self, proof: BranchProof<F, C, D>) -> Result<()> {
+        ensure!(
+            proof.verifier() == self.circuit.verifier_only,
+            "Recursion was not over this circuit"
+        );
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/merge.rs b/recproofs/src/circuits/merge.rs
index ce7490b..6c249d7 100644
--- a/recproofs/src/circuits/merge.rs
+++ b/recproofs/src/circuits/merge.rs
@@ -8,7 +8,7 @@
 
 use std::marker::PhantomData;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::{HashOut, RichField};
 use plonky2::iop::witness::PartialWitness;
@@ -270,6 +270,10 @@ where
     }
 
     pub fn verify(&self, proof: BranchProof<F, C, D>) -> Result<()> {
+        ensure!(
+            proof.verifier() == self.circuit.verifier_only,
+            "Recursion was not over this circuit"
+        );
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/verify_block.rs b/recproofs/src/circuits/verify_block.rs
index 8a67225..fc5a747 100644
--- a/recproofs/src/circuits/verify_block.rs
+++ b/recproofs/src/circuits/verify_block.rs
@@ -2,7 +2,7 @@
 
 use std::marker::PhantomData;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use itertools::Either;
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::{HashOut, RichField};
@@ -356,6 +356,10 @@ where
     }
 
     pub fn verify(&self, proof: BlockProof<F, C, D>) -> Result<()> {
+        ensure!(
+            proof.verifier() == self.circuit.verifier_only,
+            "Recursion was not over this circuit"
+        );
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/verify_program.rs b/recproofs/src/circuits/verify_program.rs
index 601e711..22b58bc 100644
--- a/recproofs/src/circuits/verify_program.rs
+++ b/recproofs/src/circuits/verify_program.rs
@@ -2,7 +2,7 @@
 
 use std::marker::PhantomData;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::{HashOut, RichField, NUM_HASH_OUT_ELTS};
 use plonky2::iop::witness::PartialWitness;
@@ -426,6 +426,10 @@ where
     }
 
     pub fn verify(&self, proof: BranchProof<F, C, D>) -> Result<()> {
+        ensure!(
+            proof.verifier() == self.circuit.verifier_only,
+            "Recursion was not over this circuit"
+        );
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/verify_tx.rs b/recproofs/src/circuits/verify_tx.rs
index 5330e82..8a6fbce 100644
--- a/recproofs/src/circuits/verify_tx.rs
+++ b/recproofs/src/circuits/verify_tx.rs
@@ -2,7 +2,7 @@
 
 use std::marker::PhantomData;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::{HashOut, RichField};
 use plonky2::iop::witness::PartialWitness;
@@ -256,6 +256,10 @@ where
     }
 
     pub fn verify(&self, proof: BranchProof<F, C, D>) -> Result<()> {
+        ensure!(
+            proof.verifier() == self.circuit.verifier_only,
+            "Recursion was not over this circuit"
+        );
         self.circuit.verify(proof.proof)
     }
 }
-- 
2.43.0


From 133b1950fc8703728cfd9b15f0dbac33cf1ba2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:48 +0000
Subject: [PATCH 35/38] fix: draw the challenges after the public values

The values of the public sub-tables (the event and cast list commitments) are
reduced with the challenges of the cross table lookups and compared with the
ends of the running sums. None of the provers and verifiers observed the
values before drawing these challenges, so that other values with the same
reduction could be put in place of the values of an existing proof.
---
 circuits/src/public_sub_table.rs         | 85 +++++++++++++++++-------
 circuits/src/stark/batch_prover.rs       | 24 +++++--
 circuits/src/stark/batch_verifier.rs     |  8 ++-
 circuits/src/stark/proof.rs              | 10 ++-
 circuits/src/stark/prover.rs             | 24 +++++--
 circuits/src/stark/recursive_verifier.rs | 43 ++++++++----
 6 files changed, 139 insertions(+), 55 deletions(-)

diff --git a/circuits/src/public_sub_table.rs b/circuits/src/public_sub_table.rs
index 9d901a1..f154684 100644
--- a/circuits/src/public_sub_table.rs
+++ b/circuits/src/public_sub_table.rs
@@ -16,8 +16,10 @@ use plonky2::field::extension::Extendable;
 use plonky2::field::polynomial::PolynomialValues;
 use plonky2::field::types::Field;
 use plonky2::hash::hash_types::RichField;
+use plonky2::iop::challenger::{Challenger, RecursiveChallenger};
 use plonky2::iop::target::Target;
 use plonky2::plonk::circuit_builder::CircuitBuilder;
+use plonky2::plonk::config::{AlgebraicHasher, Hasher};
 use plonky2::plonk::plonk_common::reduce_with_powers_circuit;
 
 use crate::cross_table_lookup::{partial_sums, CtlData, CtlZData};
@@ -115,31 +117,65 @@ impl PublicSubTable {
     }
 }
 
+/// Get the `PublicSubTableValues` of every `PublicSubTable`.
 #[must_use]
 #[allow(clippy::module_name_repetitions)]
-pub fn public_sub_table_data_and_values<F: RichField, const D: usize>(
+pub fn public_sub_table_values<F: RichField>(
     trace_poly_values: &TableKindArray<Vec<PolynomialValues<F>>>,
     public_sub_tables: &[PublicSubTable],
-    ctl_challenges: &GrandProductChallengeSet<F>,
-) -> (
-    TableKindArray<CtlData<F>>,
-    TableKindArray<Vec<PublicSubTableValues<F>>>,
+) -> TableKindArray<Vec<PublicSubTableValues<F>>> {
+    let mut public_sub_table_values_per_table = all_kind!(|_kind| Vec::default());
+    for public_sub_table in public_sub_tables {
+        public_sub_table_values_per_table[public_sub_table.table.kind]
+            .push(public_sub_table.get_values(trace_poly_values));
+    }
+    public_sub_table_values_per_table
+}
+
+/// Add the public values to the challenger entropy pool. This has to happen
+/// before drawing the challenges used to reduce them: otherwise the values
+/// could be picked to fit the challenges.
+pub(crate) fn observe_public_values<F: RichField, H: Hasher<F>>(
+    challenger: &mut Challenger<F, H>,
+    public_inputs: &[F],
+    public_sub_table_values: &TableKindArray<Vec<PublicSubTableValues<F>>>,
+) {
+    challenger.observe_elements(public_inputs);
+    for row in public_sub_table_values.iter().flatten().flatten() {
+        challenger.observe_elements(row);
+    }
+}
+
+/// Circuit version of `observe_public_values`.
+pub(crate) fn observe_public_values_circuit<
+    F: RichField + Extendable<D>,
+    H: AlgebraicHasher<F>,
+    const D: usize,
+>(
+    challenger: &mut RecursiveChallenger<F, H, D>,
+    public_inputs: &[Target],
+    public_sub_table_values_targets: &TableKindArray<Vec<PublicSubTableValuesTarget>>,
 ) {
+    challenger.observe_elements(public_inputs);
+    for row in public_sub_table_values_targets.iter().flatten().flatten() {
+        challenger.observe_elements(row);
+    }
+}
+
+#[must_use]
+#[allow(clippy::module_name_repetitions)]
+pub fn public_sub_table_data<F: RichField, const D: usize>(
+    trace_poly_values: &TableKindArray<Vec<PolynomialValues<F>>>,
+    public_sub_tables: &[PublicSubTable],
+    ctl_challenges: &GrandProductChallengeSet<F>,
+) -> TableKindArray<CtlData<F>> {
     let mut public_sub_table_data_per_table = all_kind!(|_kind| CtlData::default());
-    let mut public_sub_table_values_per_table = all_kind!(|_kind| Vec::default());
     for (&challenge, public_sub_table) in iproduct!(&ctl_challenges.challenges, public_sub_tables) {
         public_sub_table_data_per_table[public_sub_table.table.kind]
             .zs_columns
             .push(public_sub_table.get_ctlz_data(trace_poly_values, challenge));
     }
-    for public_sub_table in public_sub_tables {
-        public_sub_table_values_per_table[public_sub_table.table.kind]
-            .push(public_sub_table.get_values(trace_poly_values));
-    }
-    (
-        public_sub_table_data_per_table,
-        public_sub_table_values_per_table,
-    )
+    public_sub_table_data_per_table
 }
 
 /// For each `PublicSubTableValues`, returns the compressed value
@@ -185,20 +221,24 @@ pub fn reduce_public_sub_table_targets<F: RichField + Extendable<D>, const D: us
     builder.add_many(all_targets)
 }
 
-pub fn public_sub_table_values_and_reduced_targets<F: RichField + Extendable<D>, const D: usize>(
+pub fn public_sub_table_values_targets<F: RichField + Extendable<D>, const D: usize>(
     builder: &mut CircuitBuilder<F, D>,
     public_sub_tables: &[PublicSubTable],
-    ctl_challenges: &GrandProductChallengeSet<Target>,
-) -> (
-    TableKindArray<Vec<PublicSubTableValuesTarget>>,
-    TableKindArray<Vec<Target>>,
-) {
+) -> TableKindArray<Vec<PublicSubTableValuesTarget>> {
     let mut public_sub_table_values_targets = TableKindArray::<Vec<_>>::default();
     for public_sub_table in public_sub_tables {
         let targets = public_sub_table.to_targets(builder);
         public_sub_table_values_targets[public_sub_table.table.kind].push(targets);
     }
+    public_sub_table_values_targets
+}
 
+pub fn reduced_public_sub_table_targets<F: RichField + Extendable<D>, const D: usize>(
+    builder: &mut CircuitBuilder<F, D>,
+    public_sub_tables: &[PublicSubTable],
+    public_sub_table_values_targets: &TableKindArray<Vec<PublicSubTableValuesTarget>>,
+    ctl_challenges: &GrandProductChallengeSet<Target>,
+) -> TableKindArray<Vec<Target>> {
     let mut reduced_public_sub_table_targets = TableKindArray::<Vec<_>>::default();
 
     for challenge in &ctl_challenges.challenges {
@@ -213,8 +253,5 @@ pub fn public_sub_table_values_and_reduced_targets<F: RichField + Extendable<D>,
                 .push(reduce_public_sub_table_targets(builder, challenge, targets));
         }
     }
-    (
-        public_sub_table_values_targets,
-        reduced_public_sub_table_targets,
-    )
+    reduced_public_sub_table_targets
 }
diff --git a/circuits/src/stark/batch_prover.rs b/circuits/src/stark/batch_prover.rs
index 7902312..89cb1c9 100644
--- a/circuits/src/stark/batch_prover.rs
+++ b/circuits/src/stark/batch_prover.rs
@@ -1,5 +1,6 @@
 #![allow(clippy::too_many_lines)]
 
+use std::borrow::Borrow;
 use std::collections::HashMap;
 
 use anyhow::{ensure, Result};
@@ -37,7 +38,9 @@ use super::proof::{BatchProof, StarkOpeningSet, StarkProof};
 use crate::cross_table_lookup::ctl_utils::debug_ctl;
 use crate::cross_table_lookup::{cross_table_lookup_data, CtlData};
 use crate::generation::{debug_traces, generate_traces};
-use crate::public_sub_table::public_sub_table_data_and_values;
+use crate::public_sub_table::{
+    observe_public_values, public_sub_table_data, public_sub_table_values,
+};
 use crate::stark::mozak_stark::{all_kind, all_starks, PublicInputs};
 use crate::stark::permutation::challenge::GrandProductChallengeTrait;
 use crate::stark::poly::compute_quotient_polys;
@@ -445,6 +448,14 @@ where
     let bmt_trace_cap = batch_trace_commitments.batch_merkle_tree.cap.clone();
     challenger.observe_cap(&bmt_trace_cap);
 
+    let public_sub_table_values =
+        public_sub_table_values(&traces_poly_values, &mozak_stark.public_sub_tables);
+    observe_public_values(
+        &mut challenger,
+        public_inputs.borrow(),
+        &public_sub_table_values,
+    );
+
     let ctl_challenges = challenger.get_grand_product_challenge_set(config.num_challenges);
     let ctl_data_per_table = timed!(
         timing,
@@ -456,12 +467,11 @@ where
         )
     );
 
-    let (public_sub_table_data_per_table, public_sub_table_values) =
-        public_sub_table_data_and_values::<F, D>(
-            &traces_poly_values,
-            &mozak_stark.public_sub_tables,
-            &ctl_challenges,
-        );
+    let public_sub_table_data_per_table = public_sub_table_data::<F, D>(
+        &traces_poly_values,
+        &mozak_stark.public_sub_tables,
+        &ctl_challenges,
+    );
 
     let (proofs, batch_stark_proof) = batch_prove_with_commitments(
         mozak_stark,
diff --git a/circuits/src/stark/batch_verifier.rs b/circuits/src/stark/batch_verifier.rs
index 182d048..731532f 100644
--- a/circuits/src/stark/batch_verifier.rs
+++ b/circuits/src/stark/batch_verifier.rs
@@ -15,7 +15,7 @@ use super::mozak_stark::{
     all_kind, all_starks, MozakStark, TableKind, TableKindArray, TableKindSetBuilder,
 };
 use crate::cross_table_lookup::{verify_cross_table_lookups_and_public_sub_tables, CtlCheckVars};
-use crate::public_sub_table::reduce_public_sub_tables_values;
+use crate::public_sub_table::{observe_public_values, reduce_public_sub_tables_values};
 use crate::stark::batch_prover::{
     batch_fri_instances, batch_reduction_arity_bits, sort_degree_bits,
 };
@@ -47,7 +47,11 @@ where
     }
     challenger.observe_cap(&all_proof.batch_stark_proof.trace_cap);
 
-    // TODO: Observe public values.
+    observe_public_values(
+        &mut challenger,
+        all_proof.public_inputs.borrow(),
+        &all_proof.public_sub_table_values,
+    );
 
     let ctl_challenges = challenger.get_grand_product_challenge_set(config.num_challenges);
 
diff --git a/circuits/src/stark/proof.rs b/circuits/src/stark/proof.rs
index bcbca47..a1e34a9 100644
--- a/circuits/src/stark/proof.rs
+++ b/circuits/src/stark/proof.rs
@@ -1,3 +1,5 @@
+use std::borrow::Borrow;
+
 use itertools::{chain, Itertools};
 use mozak_sdk::common::types::ProgramIdentifier;
 use mozak_sdk::core::constants::DIGEST_BYTES;
@@ -21,7 +23,7 @@ use serde::{Deserialize, Serialize};
 use starky::config::StarkConfig;
 
 use super::mozak_stark::{all_kind, PublicInputs, TableKind, TableKindArray};
-use crate::public_sub_table::PublicSubTableValues;
+use crate::public_sub_table::{observe_public_values, PublicSubTableValues};
 use crate::stark::permutation::challenge::{GrandProductChallengeSet, GrandProductChallengeTrait};
 
 #[allow(clippy::module_name_repetitions)]
@@ -397,7 +399,11 @@ impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> A
             challenger.observe_cap(&proof.trace_cap);
         }
 
-        // TODO: Observe public values.
+        observe_public_values(
+            &mut challenger,
+            self.public_inputs.borrow(),
+            &self.public_sub_table_values,
+        );
 
         let ctl_challenges = challenger.get_grand_product_challenge_set(config.num_challenges);
         challenger.compact();
diff --git a/circuits/src/stark/prover.rs b/circuits/src/stark/prover.rs
index e1a7362..9d6b559 100644
--- a/circuits/src/stark/prover.rs
+++ b/circuits/src/stark/prover.rs
@@ -1,5 +1,6 @@
 #![allow(clippy::too_many_lines)]
 
+use std::borrow::Borrow;
 use std::fmt::Display;
 
 use anyhow::{ensure, Result};
@@ -33,7 +34,9 @@ use super::proof::{AllProof, StarkOpeningSet, StarkProof};
 use crate::cross_table_lookup::ctl_utils::debug_ctl;
 use crate::cross_table_lookup::{cross_table_lookup_data, CtlData};
 use crate::generation::{debug_traces, generate_traces};
-use crate::public_sub_table::public_sub_table_data_and_values;
+use crate::public_sub_table::{
+    observe_public_values, public_sub_table_data, public_sub_table_values,
+};
 use crate::stark::mozak_stark::PublicInputs;
 use crate::stark::permutation::challenge::GrandProductChallengeTrait;
 use crate::stark::poly::compute_quotient_polys;
@@ -141,6 +144,14 @@ where
         challenger.observe_cap(cap);
     }
 
+    let public_sub_table_values =
+        public_sub_table_values(traces_poly_values, &mozak_stark.public_sub_tables);
+    observe_public_values(
+        &mut challenger,
+        public_inputs.borrow(),
+        &public_sub_table_values,
+    );
+
     let ctl_challenges = challenger.get_grand_product_challenge_set(config.num_challenges);
     let ctl_data_per_table = timed!(
         timing,
@@ -152,12 +163,11 @@ where
         )
     );
 
-    let (public_sub_table_data_per_table, public_sub_table_values) =
-        public_sub_table_data_and_values::<F, D>(
-            traces_poly_values,
-            &mozak_stark.public_sub_tables,
-            &ctl_challenges,
-        );
+    let public_sub_table_data_per_table = public_sub_table_data::<F, D>(
+        traces_poly_values,
+        &mozak_stark.public_sub_tables,
+        &ctl_challenges,
+    );
 
     let proofs = timed!(
         timing,
diff --git a/circuits/src/stark/recursive_verifier.rs b/circuits/src/stark/recursive_verifier.rs
index a127163..f20f836 100644
--- a/circuits/src/stark/recursive_verifier.rs
+++ b/circuits/src/stark/recursive_verifier.rs
@@ -37,7 +37,8 @@ use crate::cross_table_lookup::{
     verify_cross_table_lookups_and_public_sub_table_circuit, CrossTableLookup, CtlCheckVarsTarget,
 };
 use crate::public_sub_table::{
-    public_sub_table_values_and_reduced_targets, PublicSubTable, PublicSubTableValuesTarget,
+    observe_public_values_circuit, public_sub_table_values_targets,
+    reduced_public_sub_table_targets, PublicSubTable, PublicSubTableValuesTarget,
 };
 use crate::stark::batch_prover::{
     batch_fri_instances_target, batch_reduction_arity_bits, sort_degree_bits,
@@ -338,18 +339,26 @@ where
     }
     challenger.observe_cap(&batch_stark_proof_target.trace_cap);
 
+    let public_sub_table_values_targets =
+        public_sub_table_values_targets(&mut builder, &mozak_stark.public_sub_tables);
+    observe_public_values_circuit(
+        &mut challenger,
+        &stark_proof_with_pis_target[TableKind::CpuSkeleton].public_inputs,
+        &public_sub_table_values_targets,
+    );
+
     let ctl_challenges = get_grand_product_challenge_set_target(
         &mut builder,
         &mut challenger,
         inner_config.num_challenges,
     );
 
-    let (public_sub_table_values_targets, reduced_public_sub_table_targets) =
-        public_sub_table_values_and_reduced_targets(
-            &mut builder,
-            &mozak_stark.public_sub_tables,
-            &ctl_challenges,
-        );
+    let reduced_public_sub_table_targets = reduced_public_sub_table_targets(
+        &mut builder,
+        &mozak_stark.public_sub_tables,
+        &public_sub_table_values_targets,
+        &ctl_challenges,
+    );
 
     verify_cross_table_lookups_and_public_sub_table_circuit(
         &mut builder,
@@ -599,18 +608,26 @@ where
         challenger.observe_cap(&pi.proof.trace_cap);
     }
 
+    let public_sub_table_values_targets =
+        public_sub_table_values_targets(&mut builder, &mozak_stark.public_sub_tables);
+    observe_public_values_circuit(
+        &mut challenger,
+        &stark_proof_with_pis_target[TableKind::CpuSkeleton].public_inputs,
+        &public_sub_table_values_targets,
+    );
+
     let ctl_challenges = get_grand_product_challenge_set_target(
         &mut builder,
         &mut challenger,
         inner_config.num_challenges,
     );
 
-    let (public_sub_table_values_targets, reduced_public_sub_table_targets) =
-        public_sub_table_values_and_reduced_targets(
-            &mut builder,
-            &mozak_stark.public_sub_tables,
-            &ctl_challenges,
-        );
+    let reduced_public_sub_table_targets = reduced_public_sub_table_targets(
+        &mut builder,
+        &mozak_stark.public_sub_tables,
+        &public_sub_table_values_targets,
+        &ctl_challenges,
+    );
 
     verify_cross_table_lookups_and_public_sub_table_circuit(
         &mut builder,
-- 
2.43.0


From 717f089cec7ad0cea7f2e031aceaaf7da33cc3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:34 +0000
Subject: [PATCH 36/38] fix: check the shape of the openings of batched tables

batch_verify_proof only checked the shape of the tables proven on their own.
Constraints are checked per chunk of the openings of the quotient polynomials,
so leaving these openings out skipped the constraints of a table (for the last
table of its size, the batched FRI proof still holds when the quotient
polynomials are zero).
---
 circuits/src/stark/batch_verifier.rs | 10 ++++++++-
 circuits/src/stark/verifier.rs       | 33 +++++++++++++++++++---------
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/circuits/src/stark/batch_verifier.rs b/circuits/src/stark/batch_verifier.rs
index 731532f..473475b 100644
--- a/circuits/src/stark/batch_verifier.rs
+++ b/circuits/src/stark/batch_verifier.rs
@@ -22,7 +22,9 @@ use crate::stark::batch_prover::{
 use crate::stark::permutation::challenge::GrandProductChallengeTrait;
 use crate::stark::proof::{BatchProof, StarkProof, StarkProofChallenges};
 use crate::stark::prover::get_program_id;
-use crate::stark::verifier::{verify_quotient_polynomials, verify_stark_proof_with_challenges};
+use crate::stark::verifier::{
+    validate_openings_shape, verify_quotient_polynomials, verify_stark_proof_with_challenges,
+};
 
 #[allow(clippy::too_many_lines)]
 pub fn batch_verify_proof<F, C, const D: usize>(
@@ -145,6 +147,12 @@ where
                 ensure!(false);
             }
         } else {
+            validate_openings_shape(
+                stark,
+                &all_proof.proofs[kind],
+                config,
+                ctl_vars_per_table[kind].len(),
+            )?;
             // Verifying quotient polynomials of the batched stark proof (for all starks but
             // public starks). Batched FRI proof for the openings to be done later.
             verify_quotient_polynomials(
diff --git a/circuits/src/stark/verifier.rs b/circuits/src/stark/verifier.rs
index 6aade2c..3244636 100644
--- a/circuits/src/stark/verifier.rs
+++ b/circuits/src/stark/verifier.rs
@@ -236,21 +236,12 @@ where
         trace_cap,
         ctl_zs_cap,
         quotient_polys_cap,
-        openings,
+        openings: _,
         // The shape of the opening proof will be checked in the FRI verifier (see
         // validate_fri_proof_shape), so we ignore it here.
         opening_proof: _,
     } = proof;
 
-    let StarkOpeningSet {
-        local_values,
-        next_values,
-        ctl_zs,
-        ctl_zs_next,
-        ctl_zs_last,
-        quotient_polys,
-    } = openings;
-
     let degree_bits = proof.recover_degree_bits(config);
     let fri_params = config.fri_params(degree_bits);
     let cap_height = fri_params.config.cap_height;
@@ -259,6 +250,28 @@ where
     ensure!(ctl_zs_cap.height() == cap_height);
     ensure!(quotient_polys_cap.height() == cap_height);
 
+    validate_openings_shape(stark, proof, config, num_ctl_zs)
+}
+
+pub(crate) fn validate_openings_shape<F, C, S, const D: usize>(
+    stark: &S,
+    proof: &StarkProof<F, C, D>,
+    config: &StarkConfig,
+    num_ctl_zs: usize,
+) -> anyhow::Result<()>
+where
+    F: RichField + Extendable<D>,
+    C: GenericConfig<D, F = F>,
+    S: Stark<F, D>, {
+    let StarkOpeningSet {
+        local_values,
+        next_values,
+        ctl_zs,
+        ctl_zs_next,
+        ctl_zs_last,
+        quotient_polys,
+    } = &proof.openings;
+
     ensure!(local_values.len() == S::COLUMNS);
     ensure!(next_values.len() == S::COLUMNS);
     ensure!(ctl_zs.len() == num_ctl_zs);
-- 
2.43.0


From 2f2a291827eecaeeb944923b161187355b74e944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:10 +0000
Subject: [PATCH 37/38] fix: check the shape of the public values of a proof

Rows of other lengths with the same reduction, further sub-tables and
sub-tables of other tables were accepted by the native verifiers.
---
 circuits/src/public_sub_table.rs     | 25 ++++++++++++++++++++++++-
 circuits/src/stark/batch_verifier.rs |  9 ++++++++-
 circuits/src/stark/verifier.rs       |  9 ++++++++-
 3 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/circuits/src/public_sub_table.rs b/circuits/src/public_sub_table.rs
index f154684..c482b39 100644
--- a/circuits/src/public_sub_table.rs
+++ b/circuits/src/public_sub_table.rs
@@ -11,7 +11,8 @@
 //! CTL to `combine`, since the procedure is preceded by commitment to trace
 //! polynomials already
 #![allow(clippy::module_name_repetitions)]
-use itertools::{iproduct, Itertools};
+use anyhow::{ensure, Result};
+use itertools::{iproduct, zip_eq, Itertools};
 use plonky2::field::extension::Extendable;
 use plonky2::field::polynomial::PolynomialValues;
 use plonky2::field::types::Field;
@@ -132,6 +133,28 @@ pub fn public_sub_table_values<F: RichField>(
     public_sub_table_values_per_table
 }
 
+/// Check that there are exactly the sub-tables, rows and columns that
+/// `public_sub_tables` asks for.
+pub(crate) fn validate_public_sub_table_values_shape<F>(
+    public_sub_tables: &[PublicSubTable],
+    public_sub_table_values: &TableKindArray<Vec<PublicSubTableValues<F>>>,
+) -> Result<()> {
+    for (values, kind) in public_sub_table_values.each_ref().with_kind().iter() {
+        let expected = public_sub_tables
+            .iter()
+            .filter(|public_sub_table| public_sub_table.table.kind == *kind)
+            .collect_vec();
+        ensure!(values.len() == expected.len());
+        for (rows, public_sub_table) in zip_eq(values.iter(), expected) {
+            ensure!(rows.len() == public_sub_table.num_rows);
+            ensure!(rows
+                .iter()
+                .all(|row| row.len() == public_sub_table.table.columns.len()));
+        }
+    }
+    Ok(())
+}
+
 /// Add the public values to the challenger entropy pool. This has to happen
 /// before drawing the challenges used to reduce them: otherwise the values
 /// could be picked to fit the challenges.
diff --git a/circuits/src/stark/batch_verifier.rs b/circuits/src/stark/batch_verifier.rs
index 473475b..72365dc 100644
--- a/circuits/src/stark/batch_verifier.rs
+++ b/circuits/src/stark/batch_verifier.rs
@@ -15,7 +15,9 @@ use super::mozak_stark::{
     all_kind, all_starks, MozakStark, TableKind, TableKindArray, TableKindSetBuilder,
 };
 use crate::cross_table_lookup::{verify_cross_table_lookups_and_public_sub_tables, CtlCheckVars};
-use crate::public_sub_table::{observe_public_values, reduce_public_sub_tables_values};
+use crate::public_sub_table::{
+    observe_public_values, reduce_public_sub_tables_values, validate_public_sub_table_values_shape,
+};
 use crate::stark::batch_prover::{
     batch_fri_instances, batch_reduction_arity_bits, sort_degree_bits,
 };
@@ -40,6 +42,11 @@ where
     <C as GenericConfig<D>>::Hasher: AlgebraicHasher<F>, {
     debug!("Starting Batch Verify");
 
+    validate_public_sub_table_values_shape(
+        &mozak_stark.public_sub_tables,
+        &all_proof.public_sub_table_values,
+    )?;
+
     let sorted_degree_bits = sort_degree_bits(public_table_kinds, degree_bits);
 
     let mut challenger = Challenger::<F, C::Hasher>::new();
diff --git a/circuits/src/stark/verifier.rs b/circuits/src/stark/verifier.rs
index 3244636..f8b7f65 100644
--- a/circuits/src/stark/verifier.rs
+++ b/circuits/src/stark/verifier.rs
@@ -17,7 +17,9 @@ use starky::stark::{LookupConfig, Stark};
 use super::mozak_stark::{all_starks, MozakStark, TableKind, TableKindSetBuilder};
 use super::proof::AllProof;
 use crate::cross_table_lookup::{verify_cross_table_lookups_and_public_sub_tables, CtlCheckVars};
-use crate::public_sub_table::reduce_public_sub_tables_values;
+use crate::public_sub_table::{
+    reduce_public_sub_tables_values, validate_public_sub_table_values_shape,
+};
 use crate::stark::poly::eval_vanishing_poly;
 use crate::stark::proof::{AllProofChallenges, StarkOpeningSet, StarkProof, StarkProofChallenges};
 use crate::stark::prover::get_program_id;
@@ -34,6 +36,11 @@ where
     <C as GenericConfig<D>>::Hasher: AlgebraicHasher<F>, {
     debug!("Starting Verify");
 
+    validate_public_sub_table_values_shape(
+        &mozak_stark.public_sub_tables,
+        &all_proof.public_sub_table_values,
+    )?;
+
     let AllProofChallenges {
         stark_challenges,
         ctl_challenges,
-- 
2.43.0


From 2d006769762dc6b4116550f6c28c492bd9db7943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:15 +0000
Subject: [PATCH 38/38] fix: refuse guest allocations past the end of the
 address space

The bump pointer of the guest's allocator wrapped around past 2^32, so a
large request was granted beyond the end of the address space and later
blocks overlapped the program and earlier blocks. Such requests now get
a null pointer, as GlobalAlloc prescribes.
---
 sdk/src/core/alloc.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/sdk/src/core/alloc.rs b/sdk/src/core/alloc.rs
index 6398a98..0e3e482 100644
--- a/sdk/src/core/alloc.rs
+++ b/sdk/src/core/alloc.rs
@@ -23,16 +23,20 @@ pub extern "C" fn alloc_aligned(bytes: usize, align: usize) -> *mut u8 {
         heap_pos = unsafe { core::ptr::from_ref::<u8>(&_end).cast::<u8>() as usize };
     }
 
-    let offset = heap_pos & (align - 1);
-    if offset != 0 {
-        heap_pos += align - offset;
-    }
-
-    let ptr = heap_pos as *mut u8;
-    heap_pos += bytes;
-
-    unsafe { HEAP_POS = heap_pos };
-    ptr
+    // The heap must not wrap around the end of the address space, where it would
+    // overlap what is already in use.  A request that has no room is refused.
+    let Some(start) = heap_pos
+        .checked_add(align - 1)
+        .map(|pos| pos & !(align - 1))
+    else {
+        return core::ptr::null_mut();
+    };
+    let Some(end) = start.checked_add(bytes) else {
+        return core::ptr::null_mut();
+    };
+
+    unsafe { HEAP_POS = end };
+    start as *mut u8
 }
 
 use core::alloc::{GlobalAlloc, Layout};
-- 
2.43.0

