From 13dd020bd1c920193bfd23b14f470680f0b9a313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:46 +0000
Subject: [PATCH 01/21] fix: constrain the initial running product and running
 sum cells

The first cell of every running product / running sum column was a plain
advice cell, so a prover could start all of them at zero and make every
permutation and running sum equality hold vacuously.
---
 ckb_bf_base/src/input_table.rs       |  2 +-
 ckb_bf_base/src/instruction_table.rs |  4 ++--
 ckb_bf_base/src/main_config.rs       |  3 +++
 ckb_bf_base/src/memory_table.rs      |  2 +-
 ckb_bf_base/src/output_table.rs      |  2 +-
 ckb_bf_base/src/processor_table.rs   | 10 +++++-----
 ckb_bf_base/src/program_table.rs     |  2 +-
 7 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/ckb_bf_base/src/input_table.rs b/ckb_bf_base/src/input_table.rs
index a79371c..16d52d4 100644
--- a/ckb_bf_base/src/input_table.rs
+++ b/ckb_bf_base/src/input_table.rs
@@ -65,7 +65,7 @@ impl InputTable for InputTableConfig {
             || "Load input table",
             |mut region| {
                 // init rs_0
-                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(Fr::zero()))?;
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, Fr::zero())?;
                 let len = region.assign_advice(
                     || "Input length",
                     self.input_len,
diff --git a/ckb_bf_base/src/instruction_table.rs b/ckb_bf_base/src/instruction_table.rs
index d245cd9..0e87729 100644
--- a/ckb_bf_base/src/instruction_table.rs
+++ b/ckb_bf_base/src/instruction_table.rs
@@ -148,8 +148,8 @@ impl InstructionTable for InstructionTableConfig {
             || "Load Instruction Table",
             |mut region| {
                 let mut prp_prev =
-                    region.assign_advice(|| "prp", self.prp, 0, || Value::known(challenges.inst_prp_init))?;
-                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(Fr::zero()))?;
+                    region.assign_advice_from_constant(|| "prp", self.prp, 0, challenges.inst_prp_init)?;
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, Fr::zero())?;
                 let instruction_matrix = &matrix.instruction_matrix;
                 self.s_prp_adhoc.enable(&mut region, instruction_matrix.len())?;
                 for (idx, row) in instruction_matrix.iter().enumerate() {
diff --git a/ckb_bf_base/src/main_config.rs b/ckb_bf_base/src/main_config.rs
index 8358f41..188cf32 100644
--- a/ckb_bf_base/src/main_config.rs
+++ b/ckb_bf_base/src/main_config.rs
@@ -39,6 +39,9 @@ impl<const RANGE: usize> MainTable for MainConfig<RANGE> {
         cs.enable_equality(code);
         let input = cs.instance_column();
         cs.enable_equality(input);
+        // Fixed column holding the initial values of the running products and sums
+        let constants = cs.fixed_column();
+        cs.enable_constant(constants);
         // First phase gates and tables
         let p_config = ProcessorTableConfig::configure(cs);
         let m_config = MemoryTableConfig::configure(cs);
diff --git a/ckb_bf_base/src/memory_table.rs b/ckb_bf_base/src/memory_table.rs
index 0a29020..15f5ada 100644
--- a/ckb_bf_base/src/memory_table.rs
+++ b/ckb_bf_base/src/memory_table.rs
@@ -107,7 +107,7 @@ impl MemoryTable for MemoryTableConfig {
             |mut region| {
                 // init prp
                 let mut prp_prev =
-                    region.assign_advice(|| "prp", self.prp, 0, || Value::known(challenges.mem_prp_init))?;
+                    region.assign_advice_from_constant(|| "prp", self.prp, 0, challenges.mem_prp_init)?;
                 let memory_matrix = &matrix.memory_matrix;
                 for (idx, row) in memory_matrix.iter().enumerate() {
                     if idx < memory_matrix.len() - 1 {
diff --git a/ckb_bf_base/src/output_table.rs b/ckb_bf_base/src/output_table.rs
index db47791..f1452ca 100644
--- a/ckb_bf_base/src/output_table.rs
+++ b/ckb_bf_base/src/output_table.rs
@@ -55,7 +55,7 @@ impl OutputTable for OutputTableConfig {
             || "Load output table",
             |mut region| {
                 // init rs_0
-                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(Fr::zero()))?;
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, Fr::zero())?;
                 let output_matrix = &matrix.output_matrix;
                 for (idx, v) in output_matrix.iter().enumerate() {
                     self.s_rs.enable(&mut region, idx)?;
diff --git a/ckb_bf_base/src/processor_table.rs b/ckb_bf_base/src/processor_table.rs
index 1ea21e6..10f5e31 100644
--- a/ckb_bf_base/src/processor_table.rs
+++ b/ckb_bf_base/src/processor_table.rs
@@ -320,17 +320,17 @@ impl<const RANGE: usize> ProcessorTable for ProcessorTableConfig<RANGE> {
             |mut region| {
                 // init prp and rs
                 let mut mem_prp_prev =
-                    region.assign_advice(|| "mem prp", self.mem_prp, 0, || Value::known(challenges.mem_prp_init))?;
-                let mut inst_prp_prev = region.assign_advice(
+                    region.assign_advice_from_constant(|| "mem prp", self.mem_prp, 0, challenges.mem_prp_init)?;
+                let mut inst_prp_prev = region.assign_advice_from_constant(
                     || "inst prp",
                     self.inst_prp,
                     0,
-                    || Value::known(challenges.inst_prp_init),
+                    challenges.inst_prp_init,
                 )?;
                 let mut output_rs_prev =
-                    region.assign_advice(|| "output rs", self.output_rs, 0, || Value::known(Fr::zero()))?;
+                    region.assign_advice_from_constant(|| "output rs", self.output_rs, 0, Fr::zero())?;
                 let mut input_rs_prev =
-                    region.assign_advice(|| "input rs", self.input_rs, 0, || Value::known(Fr::zero()))?;
+                    region.assign_advice_from_constant(|| "input rs", self.input_rs, 0, Fr::zero())?;
                 let processor_matrix = &matrix.processor_matrix;
                 // B condition is enabled only for the first row
                 self.s_b.enable(&mut region, 0)?;
diff --git a/ckb_bf_base/src/program_table.rs b/ckb_bf_base/src/program_table.rs
index 8a9ec0b..2012959 100644
--- a/ckb_bf_base/src/program_table.rs
+++ b/ckb_bf_base/src/program_table.rs
@@ -76,7 +76,7 @@ impl ProgramTable for ProgramTableConfig {
                     || Value::known(Fr::from(matrix.program.len() as u64)),
                 )?;
 
-                let mut rs_prev = region.assign_advice(|| "rs", self.code_rs, 0, || Value::known(Fr::zero()))?;
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.code_rs, 0, Fr::zero())?;
                 for idx in 0..matrix.program.len() {
                     self.s_rs.enable(&mut region, idx)?;
                     let code =
-- 
2.43.0


From 49c2bd39de4117e307045de720eef2dd8727a847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:25 +0000
Subject: [PATCH 02/21] fix: compare running sums at the last row their gates
 cover

The code, input and output running sums of the instruction and processor
tables were extended by one cell past the last row whose transition gate is
enabled, and that unconstrained cell was the one compared with the program,
input and output tables, so neither the public program nor the public input
was bound to the execution.
---
 ckb_bf_base/src/instruction_table.rs | 5 ++++-
 ckb_bf_base/src/processor_table.rs   | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/ckb_bf_base/src/instruction_table.rs b/ckb_bf_base/src/instruction_table.rs
index 0e87729..93ee326 100644
--- a/ckb_bf_base/src/instruction_table.rs
+++ b/ckb_bf_base/src/instruction_table.rs
@@ -181,7 +181,10 @@ impl InstructionTable for InstructionTableConfig {
                     } else {
                         rs_prev.value().map(|x| *x)
                     };
-                    rs_prev = region.assign_advice(|| "code rs", self.rs, idx + 1, || rs)?;
+                    // The running sum gate is not enabled on the last row, so its sum ends there
+                    if idx < instruction_matrix.len() - 1 {
+                        rs_prev = region.assign_advice(|| "code rs", self.rs, idx + 1, || rs)?;
+                    }
                 }
                 Ok((rs_prev, prp_prev))
             },
diff --git a/ckb_bf_base/src/processor_table.rs b/ckb_bf_base/src/processor_table.rs
index 10f5e31..dafeed2 100644
--- a/ckb_bf_base/src/processor_table.rs
+++ b/ckb_bf_base/src/processor_table.rs
@@ -372,8 +372,11 @@ impl<const RANGE: usize> ProcessorTable for ProcessorTableConfig<RANGE> {
                     };
                     mem_prp_prev = region.assign_advice(|| "mem_prp", self.mem_prp, idx + 1, || mem_prp)?;
                     inst_prp_prev = region.assign_advice(|| "inst prp", self.inst_prp, idx + 1, || inst_prp)?;
-                    output_rs_prev = region.assign_advice(|| "output rs", self.output_rs, idx + 1, || output_rs)?;
-                    input_rs_prev = region.assign_advice(|| "input rs", self.input_rs, idx + 1, || input_rs)?;
+                    // The running sum gates are not enabled on the last row, so the sums end there
+                    if idx < processor_matrix.len() - 1 {
+                        output_rs_prev = region.assign_advice(|| "output rs", self.output_rs, idx + 1, || output_rs)?;
+                        input_rs_prev = region.assign_advice(|| "input rs", self.input_rs, idx + 1, || input_rs)?;
+                    }
                 }
                 Ok((mem_prp_prev, output_rs_prev, input_rs_prev, inst_prp_prev))
             },
-- 
2.43.0


From 4b2665c03d6f22b0da085dcea2ae57edf3593a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:25 +0000
Subject: [PATCH 03/21] fix: start running sums at one so that leading zeros
 count

Starting at zero, a running sum is the same for a sequence and for that
sequence with zeros put in front of it, so a leading NUL input byte could be
added or dropped.
---
 ckb_bf_base/src/input_table.rs       | 2 +-
 ckb_bf_base/src/instruction_table.rs | 2 +-
 ckb_bf_base/src/output_table.rs      | 2 +-
 ckb_bf_base/src/processor_table.rs   | 4 ++--
 ckb_bf_base/src/program_table.rs     | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ckb_bf_base/src/input_table.rs b/ckb_bf_base/src/input_table.rs
index 16d52d4..23b0b4e 100644
--- a/ckb_bf_base/src/input_table.rs
+++ b/ckb_bf_base/src/input_table.rs
@@ -65,7 +65,7 @@ impl InputTable for InputTableConfig {
             || "Load input table",
             |mut region| {
                 // init rs_0
-                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, Fr::zero())?;
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, Fr::one())?;
                 let len = region.assign_advice(
                     || "Input length",
                     self.input_len,
diff --git a/ckb_bf_base/src/instruction_table.rs b/ckb_bf_base/src/instruction_table.rs
index 93ee326..f1499a5 100644
--- a/ckb_bf_base/src/instruction_table.rs
+++ b/ckb_bf_base/src/instruction_table.rs
@@ -149,7 +149,7 @@ impl InstructionTable for InstructionTableConfig {
             |mut region| {
                 let mut prp_prev =
                     region.assign_advice_from_constant(|| "prp", self.prp, 0, challenges.inst_prp_init)?;
-                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, Fr::zero())?;
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, Fr::one())?;
                 let instruction_matrix = &matrix.instruction_matrix;
                 self.s_prp_adhoc.enable(&mut region, instruction_matrix.len())?;
                 for (idx, row) in instruction_matrix.iter().enumerate() {
diff --git a/ckb_bf_base/src/output_table.rs b/ckb_bf_base/src/output_table.rs
index f1452ca..6cf7d97 100644
--- a/ckb_bf_base/src/output_table.rs
+++ b/ckb_bf_base/src/output_table.rs
@@ -55,7 +55,7 @@ impl OutputTable for OutputTableConfig {
             || "Load output table",
             |mut region| {
                 // init rs_0
-                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, Fr::zero())?;
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, Fr::one())?;
                 let output_matrix = &matrix.output_matrix;
                 for (idx, v) in output_matrix.iter().enumerate() {
                     self.s_rs.enable(&mut region, idx)?;
diff --git a/ckb_bf_base/src/processor_table.rs b/ckb_bf_base/src/processor_table.rs
index dafeed2..5b9d85c 100644
--- a/ckb_bf_base/src/processor_table.rs
+++ b/ckb_bf_base/src/processor_table.rs
@@ -328,9 +328,9 @@ impl<const RANGE: usize> ProcessorTable for ProcessorTableConfig<RANGE> {
                     challenges.inst_prp_init,
                 )?;
                 let mut output_rs_prev =
-                    region.assign_advice_from_constant(|| "output rs", self.output_rs, 0, Fr::zero())?;
+                    region.assign_advice_from_constant(|| "output rs", self.output_rs, 0, Fr::one())?;
                 let mut input_rs_prev =
-                    region.assign_advice_from_constant(|| "input rs", self.input_rs, 0, Fr::zero())?;
+                    region.assign_advice_from_constant(|| "input rs", self.input_rs, 0, Fr::one())?;
                 let processor_matrix = &matrix.processor_matrix;
                 // B condition is enabled only for the first row
                 self.s_b.enable(&mut region, 0)?;
diff --git a/ckb_bf_base/src/program_table.rs b/ckb_bf_base/src/program_table.rs
index 2012959..856fe1f 100644
--- a/ckb_bf_base/src/program_table.rs
+++ b/ckb_bf_base/src/program_table.rs
@@ -76,7 +76,7 @@ impl ProgramTable for ProgramTableConfig {
                     || Value::known(Fr::from(matrix.program.len() as u64)),
                 )?;
 
-                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.code_rs, 0, Fr::zero())?;
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.code_rs, 0, Fr::one())?;
                 for idx in 0..matrix.program.len() {
                     self.s_rs.enable(&mut region, idx)?;
                     let code =
-- 
2.43.0


From 472776155d8cdfa4d7085ad6db1919cba96ee3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:25 +0000
Subject: [PATCH 04/21] fix: tie the program and input length cells to the
 number of cells read

The length cells were free advice, so the public length could be any number,
whatever number of public program and input cells the circuit covers.
---
 ckb_bf_base/src/input_table.rs   | 6 +++---
 ckb_bf_base/src/program_table.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ckb_bf_base/src/input_table.rs b/ckb_bf_base/src/input_table.rs
index 23b0b4e..2086b72 100644
--- a/ckb_bf_base/src/input_table.rs
+++ b/ckb_bf_base/src/input_table.rs
@@ -1,6 +1,6 @@
 use crate::utils::*;
 use ckb_bf_vm::matrix::Matrix;
-use halo2_proofs::circuit::{Layouter, Value};
+use halo2_proofs::circuit::Layouter;
 use halo2_proofs::halo2curves::bn256::Fr;
 use halo2_proofs::plonk::*;
 use halo2_proofs::poly::Rotation;
@@ -66,11 +66,11 @@ impl InputTable for InputTableConfig {
             |mut region| {
                 // init rs_0
                 let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, Fr::one())?;
-                let len = region.assign_advice(
+                let len = region.assign_advice_from_constant(
                     || "Input length",
                     self.input_len,
                     0,
-                    || Value::known(Fr::from(matrix.input_matrix.len() as u64)),
+                    Fr::from(matrix.input_matrix.len() as u64),
                 )?;
                 for idx in 0..matrix.input_matrix.len() {
                     self.s_rs.enable(&mut region, idx)?;
diff --git a/ckb_bf_base/src/program_table.rs b/ckb_bf_base/src/program_table.rs
index 856fe1f..0f7adb9 100644
--- a/ckb_bf_base/src/program_table.rs
+++ b/ckb_bf_base/src/program_table.rs
@@ -1,6 +1,6 @@
 use crate::utils::*;
 use ckb_bf_vm::matrix::Matrix;
-use halo2_proofs::circuit::{Layouter, Value};
+use halo2_proofs::circuit::Layouter;
 use halo2_proofs::halo2curves::bn256::Fr;
 use halo2_proofs::plonk::*;
 use halo2_proofs::poly::Rotation;
@@ -69,11 +69,11 @@ impl ProgramTable for ProgramTableConfig {
                 // The solution here is to let prover provide the program length, expose the
                 // program length as public
                 // And use constraint_instance to make sure the length is correct
-                let len = region.assign_advice(
+                let len = region.assign_advice_from_constant(
                     || "Program length",
                     self.program_len,
                     0,
-                    || Value::known(Fr::from(matrix.program.len() as u64)),
+                    Fr::from(matrix.program.len() as u64),
                 )?;
 
                 let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.code_rs, 0, Fr::one())?;
-- 
2.43.0


From 1345f2ac1316749e824d5f15bc7e4d06392955d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:26 +0000
Subject: [PATCH 05/21] fix: constrain the next instruction column of the
 instruction table

Nothing related ni to the program, so the target of every taken jump was up
to the prover.
---
 ckb_bf_base/src/instruction_table.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ckb_bf_base/src/instruction_table.rs b/ckb_bf_base/src/instruction_table.rs
index f1499a5..bf19d36 100644
--- a/ckb_bf_base/src/instruction_table.rs
+++ b/ckb_bf_base/src/instruction_table.rs
@@ -70,6 +70,15 @@ impl InstructionTable for InstructionTableConfig {
             let s_i = vc.query_selector(s_i);
             vec![s_i * (next_ip.clone() - cur_ip.clone() - one.clone()) * (next_ni.clone() - cur_ni.clone())]
         });
+
+        cs.create_gate("I3: If ip increases by 1, then ni is the next ci.", |vc| {
+            let cur_ip = vc.query_advice(ip, Rotation::cur());
+            let next_ip = vc.query_advice(ip, Rotation::next());
+            let cur_ni = vc.query_advice(ni, Rotation::cur());
+            let next_ci = vc.query_advice(ci, Rotation::next());
+            let s_i = vc.query_selector(s_i);
+            vec![s_i * (next_ip - cur_ip) * (next_ci - cur_ni)]
+        });
         Self {
             ip,
             ci,
-- 
2.43.0


From 8f4c31c1c9717fea367fd65ee14b655bf8b08a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:26 +0000
Subject: [PATCH 06/21] fix: constrain the first and last row of the
 instruction table

The table could start at any ip, so the program could be entered in the
middle, and its last row, which stands for the end of the program, could hold
an instruction that is not part of the program.
---
 ckb_bf_base/src/instruction_table.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ckb_bf_base/src/instruction_table.rs b/ckb_bf_base/src/instruction_table.rs
index bf19d36..3bfeebd 100644
--- a/ckb_bf_base/src/instruction_table.rs
+++ b/ckb_bf_base/src/instruction_table.rs
@@ -28,6 +28,7 @@ pub struct InstructionTableConfig {
     s_prp_adhoc: Selector,
     s_rs: Selector,
     s_i: Selector, // Selector for condition I category (Instruction Table)
+    s_b: Selector, // Selector for the boundary condition on the first row
 }
 
 impl InstructionTable for InstructionTableConfig {
@@ -45,6 +46,13 @@ impl InstructionTable for InstructionTableConfig {
         let s_rs = cs.selector();
         let s_prp_adhoc = cs.selector();
         let s_i = cs.selector();
+        let s_b = cs.selector();
+
+        cs.create_gate("B: ip_0 = 0", |vc| {
+            let ip = vc.query_advice(ip, Rotation::cur());
+            let s_b = vc.query_selector(s_b);
+            vec![s_b * ip]
+        });
 
         cs.create_gate("I0: Instruction pointer increases by 0 or 1", |vc| {
             let cur_ip = vc.query_advice(ip, Rotation::cur());
@@ -86,6 +94,7 @@ impl InstructionTable for InstructionTableConfig {
             prp,
             rs,
             s_i,
+            s_b,
             s_prp,
             s_prp_adhoc,
             s_rs,
@@ -139,6 +148,8 @@ impl InstructionTable for InstructionTableConfig {
             let s_prp_adhoc = vc.query_selector(self.s_prp_adhoc);
             let [alpha, d, e, f] = challenges.get_inst_prp_challenges().map(|c| vc.query_challenge(c));
             vec![
+                s_prp_adhoc.clone() * ci_prev.clone(),
+                s_prp_adhoc.clone() * ni_prev.clone(),
                 s_prp_adhoc
                     * (prp_cur.clone() - prp_prev.clone() * (alpha - d * ip_prev.clone() - e * ci_prev - f * ni_prev)),
             ]
@@ -160,6 +171,7 @@ impl InstructionTable for InstructionTableConfig {
                     region.assign_advice_from_constant(|| "prp", self.prp, 0, challenges.inst_prp_init)?;
                 let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, Fr::one())?;
                 let instruction_matrix = &matrix.instruction_matrix;
+                self.s_b.enable(&mut region, 0)?;
                 self.s_prp_adhoc.enable(&mut region, instruction_matrix.len())?;
                 for (idx, row) in instruction_matrix.iter().enumerate() {
                     if idx < instruction_matrix.len() - 1 {
-- 
2.43.0


From a03b347ec51a2afb97cb05839277a4db3f6c32e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:26 +0000
Subject: [PATCH 07/21] fix: constrain the first row of the memory table

Nothing fixed the lowest cell of the memory table, so a program that moves
left of cell 0 was accepted, and read a value of the prover's choice there.
---
 ckb_bf_base/src/memory_table.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ckb_bf_base/src/memory_table.rs b/ckb_bf_base/src/memory_table.rs
index 15f5ada..d226146 100644
--- a/ckb_bf_base/src/memory_table.rs
+++ b/ckb_bf_base/src/memory_table.rs
@@ -24,6 +24,7 @@ pub struct MemoryTableConfig {
     mv: Column<Advice>,
     prp: Column<Advice>,
     s_m: Selector, // selector for condition m category (memory table)
+    s_b: Selector, // selector for the boundary condition on the first row
     s_prp: Selector,
 }
 
@@ -38,6 +39,14 @@ impl MemoryTable for MemoryTableConfig {
         cs.enable_equality(prp);
         let s_m = cs.selector();
         let s_prp = cs.selector();
+        let s_b = cs.selector();
+
+        cs.create_gate("B: memory starts at cell 0, which holds 0", |vc| {
+            let mp = vc.query_advice(mp, Rotation::cur());
+            let mv = vc.query_advice(mv, Rotation::cur());
+            let s_b = vc.query_selector(s_b);
+            vec![s_b.clone() * mp, s_b * mv]
+        });
 
         cs.create_gate("M0: memory pointer either increase by one or by zero", |vc| {
             let cur_mp = vc.query_advice(mp, Rotation::cur());
@@ -77,6 +86,7 @@ impl MemoryTable for MemoryTableConfig {
             mv,
             prp,
             s_m,
+            s_b,
             s_prp,
         }
     }
@@ -109,6 +119,7 @@ impl MemoryTable for MemoryTableConfig {
                 let mut prp_prev =
                     region.assign_advice_from_constant(|| "prp", self.prp, 0, challenges.mem_prp_init)?;
                 let memory_matrix = &matrix.memory_matrix;
+                self.s_b.enable(&mut region, 0)?;
                 for (idx, row) in memory_matrix.iter().enumerate() {
                     if idx < memory_matrix.len() - 1 {
                         // M condition is enabled except last row
-- 
2.43.0


From d69459335249195c67f63a5fa5df2c596d2a3a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:30 +0000
Subject: [PATCH 08/21] fix: require the accesses of a memory cell to be in
 clock order

Rows of one cell could be put in any order that changes the value only
between adjacent cycles, so a read could return a value written later.
---
 ckb_bf_base/src/memory_table.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/ckb_bf_base/src/memory_table.rs b/ckb_bf_base/src/memory_table.rs
index d226146..fe65677 100644
--- a/ckb_bf_base/src/memory_table.rs
+++ b/ckb_bf_base/src/memory_table.rs
@@ -23,6 +23,7 @@ pub struct MemoryTableConfig {
     mp: Column<Advice>,
     mv: Column<Advice>,
     prp: Column<Advice>,
+    clk_table: TableColumn, // Lookup table ensure clk never decreases within a cell
     s_m: Selector, // selector for condition m category (memory table)
     s_b: Selector, // selector for the boundary condition on the first row
     s_prp: Selector,
@@ -37,7 +38,8 @@ impl MemoryTable for MemoryTableConfig {
         let mv = cs.advice_column_in(FirstPhase);
         let prp = cs.advice_column_in(SecondPhase);
         cs.enable_equality(prp);
-        let s_m = cs.selector();
+        let clk_table = cs.lookup_table_column();
+        let s_m = cs.complex_selector();
         let s_prp = cs.selector();
         let s_b = cs.selector();
 
@@ -80,11 +82,21 @@ impl MemoryTable for MemoryTableConfig {
             let s_m = vc.query_selector(s_m);
             vec![s_m * (next_mp.clone() - cur_mp.clone()) * (next_mv)]
         });
+
+        cs.lookup("M3: If mp is unchanged, then clk does not decrease.", |vc| {
+            let cur_mp = vc.query_advice(mp, Rotation::cur());
+            let next_mp = vc.query_advice(mp, Rotation::next());
+            let cur_clk = vc.query_advice(clk, Rotation::cur());
+            let next_clk = vc.query_advice(clk, Rotation::next());
+            let s_m = vc.query_selector(s_m);
+            vec![(s_m * (one.clone() - (next_mp - cur_mp)) * (next_clk - cur_clk), clk_table)]
+        });
         Self {
             clk,
             mp,
             mv,
             prp,
+            clk_table,
             s_m,
             s_b,
             s_prp,
@@ -112,6 +124,15 @@ impl MemoryTable for MemoryTableConfig {
     ) -> Result<BFCell, Error> {
         // Read challenges
         let [alpha, d, e, f] = challenges.get_mem_prp_challenges().map(|c| layouter.get_challenge(c));
+        layouter.assign_table(
+            || "load clk table",
+            |mut table| {
+                for value in 0..=matrix.memory_matrix.len() {
+                    table.assign_cell(|| "clk", self.clk_table, value, || Value::known(Fr::from(value as u64)))?;
+                }
+                Ok(())
+            },
+        )?;
         layouter.assign_region(
             || "Load Memory Table",
             |mut region| {
-- 
2.43.0


From 0c6a01d7c825b2665d6fc8be6468050580ae54d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:08 +0000
Subject: [PATCH 09/21] fix: count the unusable rows when choosing the circuit
 size

A run whose instruction table filled all but the last few rows of a power of
two made the prover panic with NotEnoughRowsAvailable.
---
 ckb_bf_prover/src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ckb_bf_prover/src/main.rs b/ckb_bf_prover/src/main.rs
index e58063c..58b1a99 100644
--- a/ckb_bf_prover/src/main.rs
+++ b/ckb_bf_prover/src/main.rs
@@ -7,7 +7,9 @@ use ckb_bf_vm::code;
 use ckb_bf_vm::interpreter::Interpreter;
 use halo2_proofs::halo2curves::bn256::{Bn256, Fr, G1Affine};
 use halo2_proofs::halo2curves::FieldExt;
-use halo2_proofs::plonk::{create_proof, keygen_pk, keygen_vk, verify_proof, VerifyingKey};
+use halo2_proofs::plonk::{
+    create_proof, keygen_pk, keygen_vk, verify_proof, Circuit, ConstraintSystem, VerifyingKey,
+};
 use halo2_proofs::poly::commitment::{Params, ParamsProver};
 use halo2_proofs::poly::kzg::commitment::{KZGCommitmentScheme, ParamsKZG, ParamsVerifierKZG};
 use halo2_proofs::poly::kzg::multiopen::{ProverSHPLONK, VerifierSHPLONK};
@@ -147,9 +149,12 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
     }
     i.set_code(code.clone());
     i.run();
+    // some rows at the end of every column are not usable by the circuit
+    let mut cs = ConstraintSystem::default();
+    MyCircuit::<Fr, { DOMAIN }>::configure(&mut cs);
     // the bf lookup table has k=8
     let k = std::cmp::max(
-        i.matrix.instruction_matrix.len().next_power_of_two().trailing_zeros(),
+        (i.matrix.instruction_matrix.len() + cs.minimum_rows()).next_power_of_two().trailing_zeros(),
         9,
     );
 
-- 
2.43.0


From 1e61491a3fc06e21209eb138248f93973b1f6414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:57 +0000
Subject: [PATCH 10/21] fix: do not require instance cells to be assigned in
 regions in the mock prover

---
 halo2_proofs/src/dev.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/halo2_proofs/src/dev.rs b/halo2_proofs/src/dev.rs
index dcd40b7..2ff90cb 100644
--- a/halo2_proofs/src/dev.rs
+++ b/halo2_proofs/src/dev.rs
@@ -732,7 +732,10 @@ impl<F: FieldExt> MockProver<F> {
                                 let cell_row = ((gate_row + n + cell.rotation.0) % n) as usize;
 
                                 // Check that it was assigned!
-                                if r.cells.get(&(cell.column, cell_row)).is_some() {
+                                // (Instance cells are not assigned in regions.)
+                                if cell.column.column_type() == &Any::Instance
+                                    || r.cells.get(&(cell.column, cell_row)).is_some()
+                                {
                                     None
                                 } else {
                                     Some(VerifyFailure::CellNotAssigned {
@@ -1094,7 +1097,10 @@ impl<F: FieldExt> MockProver<F> {
                                             ((gate_row + n + cell.rotation.0) % n) as usize;
 
                                         // Check that it was assigned!
-                                        if r.cells.contains_key(&(cell.column, cell_row)) {
+                                        // (Instance cells are not assigned in regions.)
+                                        if cell.column.column_type() == &Any::Instance
+                                            || r.cells.contains_key(&(cell.column, cell_row))
+                                        {
                                             None
                                         } else {
                                             Some(VerifyFailure::CellNotAssigned {
-- 
2.43.0


From 27d05c437120aa8b5373d743e26e4cd120fbeaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:42 +0000
Subject: [PATCH 11/21] fix: multiopen verifiers reject conflicting evaluations
 of one commitment at one point

SHPLONK and IPA merge the queries of a commitment at a point and kept only
one of the claimed evaluations, so the other one was not opened at all (for
example rotations that coincide modulo the domain size).
---
 .../src/poly/ipa/multiopen/verifier.rs        |  5 ++++-
 .../poly/kzg/multiopen/shplonk/verifier.rs    |  5 ++++-
 halo2_proofs/src/poly/query.rs                | 20 +++++++++++++++++++
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/halo2_proofs/src/poly/ipa/multiopen/verifier.rs b/halo2_proofs/src/poly/ipa/multiopen/verifier.rs
index 0c4888f..587adb7 100644
--- a/halo2_proofs/src/poly/ipa/multiopen/verifier.rs
+++ b/halo2_proofs/src/poly/ipa/multiopen/verifier.rs
@@ -13,7 +13,7 @@ use crate::poly::commitment::{Params, Verifier, MSM};
 use crate::poly::ipa::commitment::{IPACommitmentScheme, ParamsIPA, ParamsVerifierIPA};
 use crate::poly::ipa::msm::MSMIPA;
 use crate::poly::ipa::strategy::GuardIPA;
-use crate::poly::query::{CommitmentReference, VerifierQuery};
+use crate::poly::query::{claims_agree, CommitmentReference, VerifierQuery};
 use crate::poly::strategy::VerificationStrategy;
 use crate::poly::Error;
 use crate::transcript::{EncodedChallenge, TranscriptRead};
@@ -54,6 +54,9 @@ impl<'params, C: CurveAffine> Verifier<'params, IPACommitmentScheme<C>>
         // polynomial terms linearly independent.
         let x_2: ChallengeX2<_> = transcript.squeeze_challenge_scalar();
 
+        if !claims_agree(queries.clone()) {
+            return Err(Error::OpeningError);
+        }
         let (commitment_map, point_sets) = construct_intermediate_sets(queries);
 
         // Compress the commitments and expected evaluations at x together.
diff --git a/halo2_proofs/src/poly/kzg/multiopen/shplonk/verifier.rs b/halo2_proofs/src/poly/kzg/multiopen/shplonk/verifier.rs
index f6845f7..5052c55 100644
--- a/halo2_proofs/src/poly/kzg/multiopen/shplonk/verifier.rs
+++ b/halo2_proofs/src/poly/kzg/multiopen/shplonk/verifier.rs
@@ -15,7 +15,7 @@ use crate::poly::kzg::msm::DualMSM;
 use crate::poly::kzg::msm::{PreMSM, MSMKZG};
 use crate::poly::kzg::strategy::{AccumulatorStrategy, GuardKZG, SingleStrategy};
 use crate::poly::query::Query;
-use crate::poly::query::{CommitmentReference, VerifierQuery};
+use crate::poly::query::{claims_agree, CommitmentReference, VerifierQuery};
 use crate::poly::strategy::VerificationStrategy;
 use crate::poly::{
     commitment::{Params, ParamsVerifier},
@@ -64,6 +64,9 @@ where
     where
         I: IntoIterator<Item = VerifierQuery<'com, E::G1Affine, MSMKZG<E>>> + Clone,
     {
+        if !claims_agree(queries.clone()) {
+            return Err(Error::OpeningError);
+        }
         let intermediate_sets = construct_intermediate_sets(queries);
         let (rotation_sets, super_point_set) = (
             intermediate_sets.rotation_sets,
diff --git a/halo2_proofs/src/poly/query.rs b/halo2_proofs/src/poly/query.rs
index d66a488..f6a06ad 100644
--- a/halo2_proofs/src/poly/query.rs
+++ b/halo2_proofs/src/poly/query.rs
@@ -4,6 +4,7 @@ use super::commitment::{Blind, CommitmentScheme, Params, MSM};
 use crate::{
     arithmetic::eval_polynomial,
     poly::{commitment, Coeff, Polynomial},
+    Vec,
 };
 use ff::Field;
 use halo2curves::CurveAffine;
@@ -17,6 +18,25 @@ pub trait Query<F>: Sized + Clone + Send + Sync {
     fn get_commitment(&self) -> Self::Commitment;
 }
 
+/// Whether the queries never claim two different evaluations of the same
+/// commitment at the same point.
+///
+/// Multiopen verifiers that merge the queries of a commitment at a point must
+/// check this first: they keep only one of the claimed evaluations.
+pub(crate) fn claims_agree<F: PartialEq, Q: Query<F>>(queries: impl IntoIterator<Item = Q>) -> bool
+where
+    Q::Eval: PartialEq,
+{
+    let queries: Vec<Q> = queries.into_iter().collect();
+    queries.iter().enumerate().all(|(i, a)| {
+        queries[..i].iter().all(|b| {
+            a.get_commitment() != b.get_commitment()
+                || a.get_point() != b.get_point()
+                || a.get_eval() == b.get_eval()
+        })
+    })
+}
+
 /// A polynomial query at a point
 #[derive(Debug, Clone)]
 pub struct ProverQuery<'com, C: CurveAffine> {
-- 
2.43.0


From f185831d8e0b911eb417aa9d334b85faf5913d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:28 +0000
Subject: [PATCH 12/21] fix: derive batching factors from the batched proofs

AccumulatorStrategy scaled the accumulator by a constant (42 for IPA, the
first value of a fixed-seed generator for KZG), so two invalid proofs whose
errors cancel under that factor passed a batch.
---
 halo2_proofs/src/poly/ipa/msm.rs      | 11 ++++++++++
 halo2_proofs/src/poly/ipa/strategy.rs | 17 +++++++++------
 halo2_proofs/src/poly/kzg/strategy.rs | 26 ++++++++++++++--------
 halo2_proofs/src/poly/strategy.rs     | 31 ++++++++++++++++++++++++++-
 4 files changed, 68 insertions(+), 17 deletions(-)

diff --git a/halo2_proofs/src/poly/ipa/msm.rs b/halo2_proofs/src/poly/ipa/msm.rs
index 0f5b0e9..27b14eb 100644
--- a/halo2_proofs/src/poly/ipa/msm.rs
+++ b/halo2_proofs/src/poly/ipa/msm.rs
@@ -38,6 +38,17 @@ impl<'a, C: CurveAffine> MSMIPA<'a, C> {
         }
     }
 
+    /// The scalars of `w`, `u` and the generators in `g`.
+    pub(crate) fn fixed_scalars(&self) -> Vec<C::Scalar> {
+        let mut scalars = vec![C::Scalar::zero(); self.params.n as usize + 2];
+        if let Some(g_scalars) = &self.g_scalars {
+            scalars[2..].copy_from_slice(g_scalars);
+        }
+        scalars[0] = self.w_scalar.unwrap_or_else(C::Scalar::zero);
+        scalars[1] = self.u_scalar.unwrap_or_else(C::Scalar::zero);
+        scalars
+    }
+
     /// Add another multiexp into this one
     pub fn add_msm(&mut self, other: &Self) {
         for (x, (scalar, y)) in other.other.iter() {
diff --git a/halo2_proofs/src/poly/ipa/strategy.rs b/halo2_proofs/src/poly/ipa/strategy.rs
index 6e3f96c..cd392d5 100644
--- a/halo2_proofs/src/poly/ipa/strategy.rs
+++ b/halo2_proofs/src/poly/ipa/strategy.rs
@@ -10,7 +10,7 @@ use crate::{
     plonk::Error,
     poly::{
         commitment::MSM,
-        strategy::{Guard, VerificationStrategy},
+        strategy::{batching_challenge, Guard, VerificationStrategy},
     },
     transcript::EncodedChallenge,
     vec, Vec,
@@ -99,12 +99,15 @@ impl<'params, C: CurveAffine>
         mut self,
         f: impl FnOnce(MSMIPA<'params, C>) -> Result<GuardIPA<'params, C>, Error>,
     ) -> Result<Self::Output, Error> {
-        self.msm.scale(C::Scalar::from(42));
-        let guard = f(self.msm)?;
-
-        Ok(Self {
-            msm: guard.use_challenges(),
-        })
+        let msm = f(MSMIPA::new(self.msm.params))?.use_challenges();
+
+        // The factor depends on everything that is batched, the new proof included, so that
+        // no proof can be made to cancel the error of another one.
+        let fixed = [self.msm.fixed_scalars(), msm.fixed_scalars()].concat();
+        let factor = batching_challenge(&[&self.msm, &msm], &fixed)?;
+        self.msm.scale(factor);
+        self.msm.add_msm(&msm);
+        Ok(self)
     }
 
     /// Finalizes the batch and checks its validity.
diff --git a/halo2_proofs/src/poly/kzg/strategy.rs b/halo2_proofs/src/poly/kzg/strategy.rs
index b169332..c9c3b38 100644
--- a/halo2_proofs/src/poly/kzg/strategy.rs
+++ b/halo2_proofs/src/poly/kzg/strategy.rs
@@ -11,7 +11,7 @@ use crate::{
     poly::{
         commitment::{Verifier, MSM},
         ipa::msm::MSMIPA,
-        strategy::{Guard, VerificationStrategy},
+        strategy::{batching_challenge, Guard, VerificationStrategy},
     },
     transcript::{EncodedChallenge, TranscriptRead},
 };
@@ -104,14 +104,22 @@ where
         mut self,
         f: impl FnOnce(V::MSMAccumulator) -> Result<V::Guard, Error>,
     ) -> Result<Self::Output, Error> {
-        self.msm_accumulator
-            .scale(E::Scalar::random(crate::get_rng()));
-
-        // Guard is updated with new msm contributions
-        let guard = f(self.msm_accumulator)?;
-        Ok(Self {
-            msm_accumulator: guard.msm_accumulator,
-        })
+        let guard = f(DualMSM::new(self.msm_accumulator.params))?;
+
+        // The factor depends on everything that is batched, the new proof included, so that
+        // no proof can be made to cancel the error of another one.
+        let factor = batching_challenge::<E::G1Affine, _>(
+            &[
+                &self.msm_accumulator.left,
+                &self.msm_accumulator.right,
+                &guard.msm_accumulator.left,
+                &guard.msm_accumulator.right,
+            ],
+            &[],
+        )?;
+        self.msm_accumulator.scale(factor);
+        self.msm_accumulator.add_msm(guard.msm_accumulator);
+        Ok(self)
     }
 
     fn finalize(self) -> bool {
diff --git a/halo2_proofs/src/poly/strategy.rs b/halo2_proofs/src/poly/strategy.rs
index 36480d3..2fcc805 100644
--- a/halo2_proofs/src/poly/strategy.rs
+++ b/halo2_proofs/src/poly/strategy.rs
@@ -1,12 +1,41 @@
+use group::{Curve, Group};
 use halo2curves::CurveAffine;
 use rand_core::RngCore;
 
 use super::commitment::{CommitmentScheme, Verifier, MSM};
 use crate::{
     plonk::Error,
-    transcript::{EncodedChallenge, TranscriptRead},
+    transcript::{
+        Blake2bWrite, Challenge255, EncodedChallenge, Transcript, TranscriptRead,
+        TranscriptWriterBuffer,
+    },
+    Vec,
 };
 
+/// Derives a batching factor from all terms of the given MSMs, where `fixed` are the scalars of
+/// their fixed bases.
+pub(crate) fn batching_challenge<C: CurveAffine, M: MSM<C>>(
+    msms: &[&M],
+    fixed: &[C::Scalar],
+) -> Result<C::Scalar, Error> {
+    let mut transcript = Blake2bWrite::<Vec<u8>, C, Challenge255<C>>::init(Vec::new());
+    for msm in msms {
+        let (scalars, bases) = (msm.scalars(), msm.bases());
+        transcript.common_scalar(C::Scalar::from(scalars.len() as u64))?;
+        for (scalar, base) in scalars.into_iter().zip(bases) {
+            // A term on the identity contributes nothing.
+            if !bool::from(base.is_identity()) {
+                transcript.common_scalar(scalar)?;
+                transcript.common_point(base.to_affine())?;
+            }
+        }
+    }
+    for scalar in fixed {
+        transcript.common_scalar(*scalar)?;
+    }
+    Ok(transcript.squeeze_challenge().get_scalar())
+}
+
 /// Guards is unfinished verification result. Implement this to construct various
 /// verification strategies such as aggregation and recursion.
 pub trait Guard<Scheme: CommitmentScheme> {
-- 
2.43.0


From bf96eeb615285fb01bf954268884fe5aa05800ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:30 +0000
Subject: [PATCH 13/21] fix: Fq6::is_zero looks at all three coefficients

---
 halo2curves/src/bn256/fq6.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/halo2curves/src/bn256/fq6.rs b/halo2curves/src/bn256/fq6.rs
index cbf8cb1..4679d6e 100644
--- a/halo2curves/src/bn256/fq6.rs
+++ b/halo2curves/src/bn256/fq6.rs
@@ -401,7 +401,7 @@ impl Field for Fq6 {
     }
 
     fn is_zero(&self) -> Choice {
-        self.c0.is_zero() & self.c1.is_zero()
+        self.c0.is_zero() & self.c1.is_zero() & self.c2.is_zero()
     }
 
     fn square(&self) -> Self {
-- 
2.43.0


From ee317a80279f881d5a7d728cdc2bdab47119c2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:30 +0000
Subject: [PATCH 14/21] fix: Fq2::from_bytes and from_repr refuse non-canonical
 input instead of panicking

---
 halo2curves/src/bn256/fq2.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/halo2curves/src/bn256/fq2.rs b/halo2curves/src/bn256/fq2.rs
index 56a5674..033851f 100644
--- a/halo2curves/src/bn256/fq2.rs
+++ b/halo2curves/src/bn256/fq2.rs
@@ -133,13 +133,7 @@ impl Fq2 {
     pub fn from_bytes(bytes: &[u8; 64]) -> CtOption<Fq2> {
         let c0 = Fq::from_bytes(bytes[0..32].try_into().unwrap());
         let c1 = Fq::from_bytes(bytes[32..64].try_into().unwrap());
-        CtOption::new(
-            Fq2 {
-                c0: c0.unwrap(),
-                c1: c1.unwrap(),
-            },
-            c0.is_some() & c1.is_some(),
-        )
+        c0.and_then(|c0| c1.map(|c1| Fq2 { c0, c1 }))
     }
 
     /// Converts an element of `Fq` into a byte representation in
@@ -551,7 +545,7 @@ impl ff::PrimeField for Fq2 {
         let c0 = Fq::from_bytes(&repr.0[..32].try_into().unwrap());
         let c1 = Fq::from_bytes(&repr.0[32..].try_into().unwrap());
         // Disallow overflow representation
-        CtOption::new(Fq2::new(c0.unwrap(), c1.unwrap()), Choice::from(1))
+        c0.and_then(|c0| c1.map(|c1| Fq2::new(c0, c1)))
     }
 
     fn to_repr(&self) -> Self::Repr {
-- 
2.43.0


From 47d6effeec9376c994a2b23695d09effae480f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:30 +0000
Subject: [PATCH 15/21] fix: read_raw checks that curve points lie on the curve

---
 halo2curves/src/derive/curve.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/halo2curves/src/derive/curve.rs b/halo2curves/src/derive/curve.rs
index d8d6c98..99ee120 100644
--- a/halo2curves/src/derive/curve.rs
+++ b/halo2curves/src/derive/curve.rs
@@ -512,7 +512,11 @@ macro_rules! new_curve_impl {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
                 let z = $base::read_raw(reader)?;
-                Ok(Self { x, y, z })
+                let res = Self { x, y, z };
+                // Check that the point is on the curve.
+                bool::from(res.is_on_curve())
+                    .then(|| res)
+                    .ok_or("Invalid curve point encoding")
             }
             fn write_raw<W: crate::io::Write>(&self, writer: &mut W) -> crate::io::Result<()> {
                 self.x.write_raw(writer)?;
@@ -677,7 +681,11 @@ macro_rules! new_curve_impl {
             fn read_raw<R: crate::io::Read>(reader: &mut R) -> crate::io::Result<Self> {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
-                Ok(Self { x, y })
+                let res = Self { x, y };
+                // Check that the point is on the curve.
+                bool::from(res.is_on_curve())
+                    .then(|| res)
+                    .ok_or("Invalid curve point encoding")
             }
             fn write_raw<W: crate::io::Write>(&self, writer: &mut W) -> crate::io::Result<()> {
                 self.x.write_raw(writer)?;
-- 
2.43.0


From 7fece5226d32b4d3a26c30a364bdc5818c90ca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:30 +0000
Subject: [PATCH 16/21] fix: compressed points with stray bits in the sign byte
 are refused

---
 halo2curves/src/derive/curve.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/halo2curves/src/derive/curve.rs b/halo2curves/src/derive/curve.rs
index 99ee120..b5f6ab0 100644
--- a/halo2curves/src/derive/curve.rs
+++ b/halo2curves/src/derive/curve.rs
@@ -612,8 +612,12 @@ macro_rules! new_curve_impl {
                 tmp[$compressed_size - 1] &= 0b0111_1111;
                 let mut xbytes = [0u8; $base::size()];
                 xbytes.copy_from_slice(&tmp[ ..$base::size()]);
+                // Bits that belong to neither the sign nor the coordinate must be zero.
+                let canonical = tmp[$base::size()..]
+                    .iter()
+                    .fold(Choice::from(1u8), |acc, byte| acc & byte.ct_eq(&0u8));
 
-                $base::from_bytes(&xbytes).and_then(|x| {
+                $base::from_bytes(&xbytes).and_then(|x| CtOption::new(x, canonical)).and_then(|x| {
                     CtOption::new(Self::identity(), x.is_zero() & (!ysign)).or_else(|| {
                         let x3 = x.square() * x;
                         (x3 + $name::curve_constant_b()).sqrt().and_then(|y| {
-- 
2.43.0


From b3ae8ca9ef2edaf0a6ea95820d299b99101bc954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:30 +0000
Subject: [PATCH 17/21] fix: VerifyingKey and ProvingKey to_bytes do not panic

---
 halo2_proofs/src/plonk.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/halo2_proofs/src/plonk.rs b/halo2_proofs/src/plonk.rs
index 764f06b..1aee4e1 100644
--- a/halo2_proofs/src/plonk.rs
+++ b/halo2_proofs/src/plonk.rs
@@ -149,9 +149,8 @@ where
 
 impl<C: CurveAffine> VerifyingKey<C> {
     fn bytes_length(&self) -> usize {
-        // Xiaowen: TODO bytes_length cannot work due to CurveAffine doesn't have a serialization
-        // trait and hence size of selector_assignments cannot be calcualted.
-        panic!("Should not be called");
+        // Xiaowen: TODO CurveAffine doesn't have a serialization trait and hence the size of
+        // selector_assignments cannot be calculated: this is a lower bound, used as a capacity.
         8 + (self.fixed_commitments.len() * C::default().to_bytes().as_ref().len())
             + self.permutation.bytes_length()
     }
-- 
2.43.0


From 61d8aa6ee4b6f792a64edae862bc5c4f4fb5f058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:30 +0000
Subject: [PATCH 18/21] fix: selectors of a verifying key are read in the
 format they were written in

---
 halo2_proofs/src/plonk.rs                            | 4 +++-
 halo2_proofs/src/plonk/circuit.rs                    | 2 +-
 halo2_proofs/src/plonk/circuit/compress_selectors.rs | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/halo2_proofs/src/plonk.rs b/halo2_proofs/src/plonk.rs
index 1aee4e1..b72ca2e 100644
--- a/halo2_proofs/src/plonk.rs
+++ b/halo2_proofs/src/plonk.rs
@@ -119,7 +119,9 @@ where
         let mut length = [0u8; 4];
         reader.read_exact(&mut length)?;
         let length = u32::from_be_bytes(length) as usize;
-        let selector_assignments = (0..length).map(|_| SelectorAssignment::read(reader).unwrap()).collect::<Vec<_>>();
+        let selector_assignments = (0..length)
+            .map(|_| SelectorAssignment::read(reader, format))
+            .collect::<Result<Vec<_>, _>>()?;
         let cs = cs.ckb_recreate_side_effect(selector_assignments.clone());
 
         Ok(Self::from_parts(
diff --git a/halo2_proofs/src/plonk/circuit.rs b/halo2_proofs/src/plonk/circuit.rs
index 497da2e..275883c 100644
--- a/halo2_proofs/src/plonk/circuit.rs
+++ b/halo2_proofs/src/plonk/circuit.rs
@@ -782,7 +782,7 @@ impl<F: SerdePrimeField> Expression<F> {
         reader.read_exact(&mut typ)?;
         let expression = match typ[0] {
             0x00 => {
-                let scalar = F::read(reader, format).unwrap();
+                let scalar = F::read(reader, format)?;
                 Ok(Expression::Constant(scalar))
             }
             0x01 => {
diff --git a/halo2_proofs/src/plonk/circuit/compress_selectors.rs b/halo2_proofs/src/plonk/circuit/compress_selectors.rs
index d50b391..95f5f0f 100644
--- a/halo2_proofs/src/plonk/circuit/compress_selectors.rs
+++ b/halo2_proofs/src/plonk/circuit/compress_selectors.rs
@@ -42,14 +42,14 @@ impl<F: SerdePrimeField> SelectorAssignment<F> {
         Ok(())
     }
 
-    pub fn read<R: io::Read>(reader: &mut R) -> io::Result<Self> {
+    pub fn read<R: io::Read>(reader: &mut R, format: SerdeFormat) -> io::Result<Self> {
         let mut selector = [0u8; 4];
         reader.read_exact(&mut selector)?;
         let selector = u32::from_be_bytes(selector) as usize;
         let mut combination_index = [0u8; 4];
         reader.read_exact(&mut combination_index)?;
         let combination_index = u32::from_be_bytes(combination_index) as usize;
-        let expression = Expression::read(reader, SerdeFormat::RawBytes).unwrap();
+        let expression = Expression::read(reader, format)?;
         Ok(Self {
             selector,
             combination_index,
-- 
2.43.0


From e3e13dea1e04a3d821376409325b4c4e5e65585e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:54 +0000
Subject: [PATCH 19/21] fix: reject public values that do not fit in the table
 under every commitment scheme

verify_proof compared the length of the public values with the usable rows
only for schemes that commit to them (IPA). With KZG a vector that no prover
can use, such as the proven one padded with zeros past the usable rows, was
accepted.
---
 halo2_proofs/src/plonk/verifier.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/halo2_proofs/src/plonk/verifier.rs b/halo2_proofs/src/plonk/verifier.rs
index f1a431b..6d5a3c9 100644
--- a/halo2_proofs/src/plonk/verifier.rs
+++ b/halo2_proofs/src/plonk/verifier.rs
@@ -44,6 +44,12 @@ pub fn verify_proof<
         if instances.len() != vk.cs.num_instance_columns {
             return Err(Error::InvalidInstances);
         }
+        // Check that every instance fits in the usable rows, as the prover does
+        for instance in instances.iter() {
+            if instance.len() > params.n() as usize - (vk.cs.blinding_factors() + 1) {
+                return Err(Error::InstanceTooLarge);
+            }
+        }
     }
 
     let instance_commitments = if V::QUERY_INSTANCE {
@@ -53,18 +59,15 @@ pub fn verify_proof<
                 instance
                     .iter()
                     .map(|instance| {
-                        if instance.len() > params.n() as usize - (vk.cs.blinding_factors() + 1) {
-                            return Err(Error::InstanceTooLarge);
-                        }
                         let mut poly = instance.to_vec();
                         poly.resize(params.n() as usize, Scheme::Scalar::zero());
                         let poly = vk.domain.lagrange_from_vec(poly);
 
-                        Ok(params.commit_lagrange(&poly, Blind::default()).to_affine())
+                        params.commit_lagrange(&poly, Blind::default()).to_affine()
                     })
-                    .collect::<Result<Vec<_>, _>>()
+                    .collect::<Vec<_>>()
             })
-            .collect::<Result<Vec<_>, _>>()?
+            .collect::<Vec<_>>()
     } else {
         vec![vec![]; instances.len()]
     };
-- 
2.43.0


From 547d80c33533ceb6e39c3a02e95f13566ce43e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:41 +0000
Subject: [PATCH 20/21] fix: VerifyingKey::read refuses a circuit size beyond
 the two-adicity of the field instead of allocating without end

---
 halo2_proofs/src/plonk.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/halo2_proofs/src/plonk.rs b/halo2_proofs/src/plonk.rs
index b72ca2e..e179669 100644
--- a/halo2_proofs/src/plonk.rs
+++ b/halo2_proofs/src/plonk.rs
@@ -104,6 +104,9 @@ where
         let mut k = [0u8; 4];
         reader.read_exact(&mut k)?;
         let k = u32::from_be_bytes(k);
+        if k > C::Scalar::S {
+            return Err("circuit size k exceeds the two-adicity of the field");
+        }
         let (domain, cs, _) = keygen::create_domain::<C, ConcreteCircuit>(k);
         let mut num_fixed_columns = [0u8; 4];
         reader.read_exact(&mut num_fixed_columns)?;
-- 
2.43.0


From b9686092d2206f571dbe63d74f3a2dec25e18924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:43 +0000
Subject: [PATCH 21/21] fix: variable-base multiplication ties the base used in
 incomplete addition to the base being multiplied

---
 halo2_gadgets/src/ecc/chip/mul/incomplete.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/halo2_gadgets/src/ecc/chip/mul/incomplete.rs b/halo2_gadgets/src/ecc/chip/mul/incomplete.rs
index 9d99759..92b352a 100644
--- a/halo2_gadgets/src/ecc/chip/mul/incomplete.rs
+++ b/halo2_gadgets/src/ecc/chip/mul/incomplete.rs
@@ -305,8 +305,16 @@ impl<const NUM_BITS: usize> Config<NUM_BITS> {
             zs.push(Z(z.clone()));
 
             // Assign `x_p`, `y_p`
-            region.assign_advice(|| "x_p", self.double_and_add.x_p, row + offset, || x_p)?;
-            region.assign_advice(|| "y_p", self.y_p, row + offset, || y_p)?;
+            if row == 0 {
+                // The gates keep the base constant over the rows; the first row ties it
+                // to the base that is being multiplied.
+                base.x
+                    .copy_advice(|| "x_p", region, self.double_and_add.x_p, offset)?;
+                base.y.copy_advice(|| "y_p", region, self.y_p, offset)?;
+            } else {
+                region.assign_advice(|| "x_p", self.double_and_add.x_p, row + offset, || x_p)?;
+                region.assign_advice(|| "y_p", self.y_p, row + offset, || y_p)?;
+            }
 
             // If the bit is set, use `y`; if the bit is not set, use `-y`
             let y_p = y_p
-- 
2.43.0

