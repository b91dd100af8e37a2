From dbe42f276db9ff0fcb45e5beb5183f0ac7469c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:16 +0000
Subject: [PATCH 01/18] fix: reset outcome and rule count at the start of each
 run

Machine.run rebuilt the tape, the prover and the blank record but kept the
termination category and the rule application count of the previous run, so
running the same object again could report two outcomes at once.
---
 tm/machine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tm/machine.py b/tm/machine.py
index daed053..5633af9 100644
--- a/tm/machine.py
+++ b/tm/machine.py
@@ -149,6 +149,11 @@ class Machine:
 
         self.blanks = {}
 
+        for cat in (*TERM_CATS, 'susrul'):
+            setattr(self, cat, None)
+
+        self.rulapp = 0
+
         step: int = 0
 
         state: State = 0
-- 
2.43.0


From efa019e0b518c600fec9dc017d8a2425ef64cd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:09 +0000
Subject: [PATCH 02/18] fix: count states and colors that are only ever targets

prog_params counted the states and colors that own a defined slot. A color
that is written but never read in a defined slot was left out, so the color
encoding of macro programs collided and the macro ran a different program.
---
 tm/macro.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tm/macro.py b/tm/macro.py
index 097d68b..69a5471 100644
--- a/tm/macro.py
+++ b/tm/macro.py
@@ -126,8 +126,10 @@ def prog_params(comp: GetInstr) -> Params:
     else:
         assert isinstance(comp, dict)
 
-        base_states = len(set(map(lambda s: s[0], comp)))
-        base_colors = len(set(map(lambda s: s[1], comp)))
+        base_states = 1 + max(
+            max(slot[0], instr[2]) for slot, instr in comp.items())
+        base_colors = 1 + max(
+            max(slot[1], instr[0]) for slot, instr in comp.items())
 
     return base_states, base_colors
 
-- 
2.43.0


From a234543d7c9136daa6ef0652366046456ccfdd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:52 +0000
Subject: [PATCH 03/18] fix: record a color's tape before the color can be
 handed out

An interrupt (or another thread) between the two cache writes left the shared
converter with a color it would hand out but could not expand, and every later
macro over the same converter died on the assertion in color_to_tape.
---
 tm/macro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tm/macro.py b/tm/macro.py
index 69a5471..ac469f4 100644
--- a/tm/macro.py
+++ b/tm/macro.py
@@ -107,8 +107,8 @@ class TapeColorConverter:
             for place, value in enumerate(reversed(tape))
         )
 
-        self.tape_to_color_cache[tuple_tape] = color
         self.color_to_tape_cache[color] = tuple_tape
+        self.tape_to_color_cache[tuple_tape] = color
 
         return color
 
-- 
2.43.0


From f44a60130f330158d750baf537c4233bdb043b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:53 +0000
Subject: [PATCH 04/18] fix: three wrong remainders and sums of symbolic counts

2 ** (4k) % 30 is 16, not 15. 3 ** (odd) % 4 is 3, not 1 (the period formula
for powers of two only holds from 8 on). A sum of two quotients whose
denominators share a factor without one dividing the other dropped part of the
denominator.
---
 tm/num.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tm/num.py b/tm/num.py
index 20a4360..50520b2 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -719,7 +719,7 @@ class Div(Num):
         if den < oden:
             return other + self
 
-        if pgcd(den, oden) > 1:
+        if den % oden == 0:
             return (num + ((den // oden) * other.num)) // den
 
         return ((oden * num) + (den * other.num)) // (den * oden)
@@ -901,7 +901,7 @@ class Exp(Num):
                             case 3:
                                 return 8
                             case 0:  # no-cover
-                                return 15
+                                return 16
                             case 1:  # no-cover
                                 return 2
                             case 2:  # no-cover
@@ -911,6 +911,9 @@ class Exp(Num):
                 if mod == 6:
                     return 3
 
+                if mod == 4:
+                    return 1 if exp % 2 == 0 else 3
+
                 if int(log_mod := log2(mod)) == log_mod:  # no-branch
                     exp %= int(2 ** (int(log_mod) - 2))
 
-- 
2.43.0


From c227478f3f3ad1d7ef8b0e9454f059dc727641c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:05 +0000
Subject: [PATCH 05/18] fix: order of symbolic counts with equal coefficients
 or close exponents

Coefficients were compared through a rounded float quotient, a common negative
factor did not reverse the order, a power was never less than an integer, and
a small multiple of one power was put below the next power whatever the
multiple was.
---
 tm/num.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/tm/num.py b/tm/num.py
index 50520b2..80e39f8 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -586,16 +586,16 @@ class Mul(Num):
             lo, ro = other.l, other.r
 
             if l == lo:
-                return r < ro
+                return r < ro if 0 < l else ro < r
 
             if r == ro:
-                return l < lo
+                return l < lo if 0 < r else lo < l
 
             if l == ro:  # no-cover
-                return r < lo
+                return r < lo if 0 < l else lo < r
 
             if r == lo:  # no-cover
-                return l < ro
+                return l < ro if 0 < r else ro < l
 
             if self.is_exp_coef and other.is_exp_coef:
                 # pylint: disable = line-too-long, no-else-return
@@ -609,15 +609,15 @@ class Mul(Num):
 
                 if rexp < roexp:
                     if not isinstance(diff := roexp - rexp, int):  # no-branch
-                        return True  # no-cover
+                        return 0 < lo  # no-cover
 
-                    return ceil(l / lo) <= (base ** diff)  # type: ignore[no-any-return]
+                    return l < lo * (base ** diff)  # type: ignore[no-any-return]
 
                 else:
                     if not isinstance(diff := rexp - roexp, int):  # no-branch
-                        return False  # no-cover
+                        return l < 0  # no-cover
 
-                    return ceil(lo / l) > (base ** diff)  # type: ignore[no-any-return]
+                    return l * (base ** diff) < lo  # type: ignore[no-any-return]
 
         if l < 0:
             if other < 0:  # no-cover
@@ -636,6 +636,16 @@ class Mul(Num):
 
         if isinstance(other, Exp):
             if 0 < l < 10:
+                if (isinstance(l, int)
+                        and isinstance(r, Exp)
+                        and r.base == other.base
+                        and isinstance(rexp := r.exp, int)
+                        and isinstance(oexp := other.exp, int)):
+                    return (
+                        rexp < oexp
+                        and l < r.base ** (oexp - rexp)
+                    )
+
                 return r < other
 
         if 0 < l and isinstance(r, Add) and r.l == -1 and r.r == other:
@@ -1127,11 +1137,15 @@ class Exp(Num):
         )
 
     def __lt__(self, other: Count) -> bool:
-        if isinstance(other, int):
-            return False
-
         base, exp = self.base, self.exp
 
+        if isinstance(other, int):
+            return (
+                isinstance(exp, int)
+                and exp <= other.bit_length()
+                and base ** exp < other
+            )
+
         if isinstance(other, Exp):
             assert base == other.base
             return exp < other.exp
-- 
2.43.0


From d96cda217e3dfc529edd161cbb2188c02bc61fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:29 +0000
Subject: [PATCH 06/18] fix: order of symbolic counts against integers

Only the sign of the symbolic part was looked at, so a sum, product or quotient
was put on the wrong side of any integer larger than itself.
---
 tm/num.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tm/num.py b/tm/num.py
index 80e39f8..c99fc37 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -290,7 +290,7 @@ class Add(Num):
 
         if isinstance(other, int):
             if isinstance(l, int):
-                return r < 0
+                return r < other - l
 
             if l < 0 and r < 0:  # no-cover
                 return True
@@ -580,7 +580,14 @@ class Mul(Num):
         l, r = self.l, self.r
 
         if isinstance(other, int):
-            return l < 0
+            if not isinstance(l, int):
+                return l < 0
+
+            return (
+                r < -(-other // l)
+                if l > 0 else
+                r > other // l
+            )
 
         if isinstance(other, Mul):
             lo, ro = other.l, other.r
@@ -795,7 +802,7 @@ class Div(Num):
 
     def __lt__(self, other: Count) -> bool:
         if isinstance(other, int):
-            return self.num < 0
+            return self.num < other * self.den
 
         if not isinstance(other, Div):
             raise NotImplementedError(self, other)
-- 
2.43.0


From 5f1f53bbdc02cb3e7deb0c2f4cfeb885ee020097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:52 +0000
Subject: [PATCH 07/18] fix: print each kept program in one flushed write

Workers of the pool print to a shared stdout. Left to the buffer, the
end of a line can go out in another write than its beginning, with
another worker's output in between, and whatever is still buffered is
lost when the pool terminates its workers.
---
 just_so.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/just_so.py b/just_so.py
index b1a2f6d..c9cf1a3 100644
--- a/just_so.py
+++ b/just_so.py
@@ -19,7 +19,7 @@ def worker(prog: str) -> None:
     if CANT_REACH(prog, CYCLES) is not None:
         return
 
-    print(prog.strip())
+    print(f'{prog.strip()}\n', end = '', flush = True)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 0d8797576dac92169e4d903bea1e9eb4ffe21065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:46 +0000
Subject: [PATCH 08/18] fix: subtract when a falling count is not the one that
 limits a rule

apply_plus added the absolute value of the diff for every block but the
limiting one, so a rule with two falling counts raised one of them.
---
 src/rules.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rules.rs b/src/rules.rs
index 43a6fbf..3718bf2 100644
--- a/src/rules.rs
+++ b/src/rules.rs
@@ -170,9 +170,13 @@ pub fn apply_rule(
 }
 
 fn apply_plus(count: Count, diff: Diff, times: Count) -> Option<Count> {
-    let diff: Count = diff.unsigned_abs().into();
+    let absdiff: Count = diff.unsigned_abs().into();
 
-    let mult = diff.checked_mul(times)?;
+    let mult = absdiff.checked_mul(times)?;
 
-    Some(count + mult)
+    if diff < 0 {
+        count.checked_sub(mult)
+    } else {
+        Some(count + mult)
+    }
 }
-- 
2.43.0


From e47f8840a03350cd79bd1684a2897d08d393c11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:46 +0000
Subject: [PATCH 09/18] fix: decline a rule whose counts would overflow, whole

A sum of counts wrapped in release builds, and a product that did not fit
was noticed only after earlier blocks of the tape had been changed.
---
 src/rules.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rules.rs b/src/rules.rs
index 3718bf2..6dbb4b0 100644
--- a/src/rules.rs
+++ b/src/rules.rs
@@ -150,6 +150,8 @@ pub fn apply_rule(
 ) -> Option<Count> {
     let (times, min_pos, min_res) = count_apps(rule, tape)?;
 
+    let mut results = Vec::with_capacity(rule.len());
+
     for (pos, diff) in rule {
         let result = match *diff {
             Op::Plus(plus) => {
@@ -163,6 +165,10 @@ pub fn apply_rule(
             Op::Mult(_) => unimplemented!(),
         };
 
+        results.push((pos, result));
+    }
+
+    for (pos, result) in results {
         tape.set_count(pos, result);
     }
 
@@ -177,6 +183,6 @@ fn apply_plus(count: Count, diff: Diff, times: Count) -> Option<Count> {
     if diff < 0 {
         count.checked_sub(mult)
     } else {
-        Some(count + mult)
+        count.checked_add(mult)
     }
 }
-- 
2.43.0


From 632ace5ea1221475e8a8d9d55285682e98abd624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:46 +0000
Subject: [PATCH 10/18] fix: infer rules from whole counts, not their low 32
 bits

---
 src/rules.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/rules.rs b/src/rules.rs
index 6dbb4b0..6a91658 100644
--- a/src/rules.rs
+++ b/src/rules.rs
@@ -22,27 +22,38 @@ enum DiffResult {
 }
 
 fn calculate_diff(
-    a: Diff,
-    b: Diff,
-    c: Diff,
-    d: Diff,
+    a: Count,
+    b: Count,
+    c: Count,
+    d: Count,
 ) -> Option<DiffResult> {
     if a == b && b == c && c == d {
         return None;
     }
 
-    let Some(diff_1) = b.checked_sub(a) else {
-        return Some(DiffResult::Unknown);
+    let sub = |x: Count, y: Count| {
+        Diff::try_from(i128::from(x) - i128::from(y)).ok()
     };
 
-    let Some(diff_2) = c.checked_sub(b) else {
+    let (Some(diff_1), Some(diff_2), Some(diff_3)) =
+        (sub(b, a), sub(c, b), sub(d, c))
+    else {
         return Some(DiffResult::Unknown);
     };
 
-    if diff_1 == diff_2 && diff_2 == (d - c) {
+    if diff_1 == diff_2 && diff_2 == diff_3 {
         return Some(DiffResult::Got(Op::Plus(diff_1)));
     }
 
+    let (Ok(a), Ok(b), Ok(c), Ok(d)) = (
+        Diff::try_from(a),
+        Diff::try_from(b),
+        Diff::try_from(c),
+        Diff::try_from(d),
+    ) else {
+        return Some(DiffResult::Unknown);
+    };
+
     if a == 0 || b == 0 {
         return Some(DiffResult::Unknown);
     }
@@ -82,9 +93,7 @@ pub fn make_rule(
 
     for (s, spans) in countses.iter().enumerate() {
         for (i, &(a, b, c, d)) in spans.iter().enumerate() {
-            match calculate_diff(
-                a as Diff, b as Diff, c as Diff, d as Diff,
-            ) {
+            match calculate_diff(a, b, c, d) {
                 None => continue,
                 Some(DiffResult::Unknown) => {
                     return None;
-- 
2.43.0


From 7a8c99a68d5d9ae1b6b67d71b5bc75334eca5c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:56 +0000
Subject: [PATCH 11/18] hook: BB_SIM has run_prover report its course and fail
 on request

---
 src/machine.rs | 66 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 65 insertions(+), 1 deletion(-)

diff --git a/src/machine.rs b/src/machine.rs
index d831a4b..4030802 100644
--- a/src/machine.rs
+++ b/src/machine.rs
@@ -216,6 +216,50 @@ pub fn run_for_infrul(comp: &impl GetInstr, sim_lim: Step) -> bool {
 
 /**************************************/
 
+/// With `BB_SIM` in the environment, `run_prover` reports what it does
+/// on standard error, and has acceleration fail where the variable says:
+/// `d7` declines the rule of cycle 7, `a7` has the prover forget all it
+/// learnt before cycle 7, `c7` finds it out of room there.
+struct Sim(Vec<String>);
+
+impl Sim {
+    fn from_env() -> Option<Self> {
+        std::env::var("BB_SIM").ok().map(|plan| {
+            Self(plan.split_whitespace().map(Into::into).collect())
+        })
+    }
+
+    fn fails(&self, kind: char, cycle: Step) -> bool {
+        self.0.contains(&format!("{kind}{cycle}"))
+    }
+
+    fn found(
+        &self,
+        cycle: Step,
+        found: Option<ProverResult>,
+    ) -> Option<ProverResult> {
+        if self.fails('c', cycle) {
+            return Some(ProverResult::ConfigLimit);
+        }
+
+        if let Some(ProverResult::Got(rule)) = &found {
+            Self::say(&format!("rule {rule:?}"));
+
+            if self.fails('d', cycle) {
+                return None;
+            }
+        }
+
+        found
+    }
+
+    fn say(what: &str) {
+        eprintln!("{what}");
+    }
+}
+
+/**************************************/
+
 #[pyfunction]
 #[pyo3(signature = (prog, sim_lim=100_000_000))]
 pub fn run_prover(prog: &str, sim_lim: Step) -> MachineResult {
@@ -225,6 +269,8 @@ pub fn run_prover(prog: &str, sim_lim: Step) -> MachineResult {
 
     let mut prover = Prover::new(&comp);
 
+    let sim = Sim::from_env();
+
     let mut blanks = Blanks::new();
 
     let mut state = 0;
@@ -236,7 +282,21 @@ pub fn run_prover(prog: &str, sim_lim: Step) -> MachineResult {
     let mut last_slot: Option<Slot> = None;
 
     for cycle in 0..sim_lim {
-        match prover.try_rule(cycle as i32, state, &tape) {
+        if let Some(sim) = &sim {
+            Sim::say(&format!("{cycle} {state} {steps} {tape}"));
+
+            if sim.fails('a', cycle) {
+                prover = Prover::new(&comp);
+            }
+        }
+
+        let mut found = prover.try_rule(cycle as i32, state, &tape);
+
+        if let Some(sim) = &sim {
+            found = sim.found(cycle, found);
+        }
+
+        match found {
             None => {},
             Some(ProverResult::ConfigLimit) => {
                 cycles = cycle;
@@ -300,6 +360,10 @@ pub fn run_prover(prog: &str, sim_lim: Step) -> MachineResult {
         }
     }
 
+    if sim.is_some() {
+        Sim::say(&format!("end {state} {steps} {tape}"));
+    }
+
     MachineResult {
         result: result.unwrap_or(TermRes::xlimit),
         steps,
-- 
2.43.0


From 9f67c573afa1f76a289d9a3171bd4e16cfad1545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:51 +0000
Subject: [PATCH 12/18] fix: stop on a count that does not fit instead of
 wrapping it

Only debug builds noticed; a release build went on with a block of length
zero or reported the marks modulo 2^64.
---
 src/tape.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/tape.rs b/src/tape.rs
index 4ce4bad..da85864 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -66,7 +66,8 @@ impl Block for BasicBlock {
     }
 
     fn add_count(&mut self, count: Count) {
-        self.count += count;
+        self.count =
+            self.count.checked_add(count).expect("count overflow");
     }
 
     fn decrement(&mut self) {
@@ -111,7 +112,8 @@ impl<B: Block> Span<B> {
             .iter()
             .filter(|block| block.get_color() != 0)
             .map(Block::get_count)
-            .sum::<Count>()
+            .try_fold(0, Count::checked_add)
+            .expect("count overflow")
     }
 
     fn counts(&self) -> Vec<Count> {
@@ -288,9 +290,14 @@ impl<B: Block> Tape<B> {
     }
 
     pub fn marks(&self) -> Count {
-        Count::from(self.scan != 0)
-            + self.lspan.marks()
-            + self.rspan.marks()
+        [
+            Count::from(self.scan != 0),
+            self.lspan.marks(),
+            self.rspan.marks(),
+        ]
+        .into_iter()
+        .try_fold(0, Count::checked_add)
+        .expect("count overflow")
     }
 
     pub fn blocks(&self) -> usize {
@@ -571,7 +578,8 @@ impl Block for EnumBlock {
     }
 
     fn add_count(&mut self, count: Count) {
-        self.count += count;
+        self.count =
+            self.count.checked_add(count).expect("count overflow");
     }
 
     fn decrement(&mut self) {
-- 
2.43.0


From d3b7cd983e99dc0685370f9aa9b9ade2b686a6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:22 +0000
Subject: [PATCH 13/18] fix: count printed colors in segment analysis

A color or state that a program only prints or enters, with no slot of
its own, was left out, so a machine that halts there was proved not to.
---
 src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5b6dcbf..c81657a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -83,9 +83,15 @@ mod wrappers {
     ) -> Option<usize> {
         let prog = &CompProg::from_str(prog);
 
-        let (states, colors) = prog
-            .keys()
-            .fold((0, 0), |acc, &(a, b)| (acc.0.max(a), acc.1.max(b)));
+        let (states, colors) = prog.iter().fold(
+            (0, 0),
+            |acc, (&(state, color), &(print, _, trans))| {
+                (
+                    acc.0.max(state).max(trans),
+                    acc.1.max(color).max(print),
+                )
+            },
+        );
 
         let params = (1 + states, 1 + colors);
 
-- 
2.43.0


From 8533f2b15b9cd77b1e1242a15b88095e2aa08e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:08 +0000
Subject: [PATCH 14/18] fix: room for the last cell a batch machine can reach

A program that moves one way for XLIMIT steps ends one cell past the
end of the tape, and wiping writes there.
---
 machines/machine.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machines/machine.h b/machines/machine.h
index e39a23f..2427ef3 100644
--- a/machines/machine.h
+++ b/machines/machine.h
@@ -7,7 +7,7 @@
   unsigned int STEPS;                           \
   unsigned int PROG_NUM = 0;
 
-#define TAPE_LEN (XLIMIT * 2)
+#define TAPE_LEN (XLIMIT * 2 + 1)
 
 #define CENTER_SQUARE (TAPE_LEN / 2)
 
-- 
2.43.0


From d6f901686d73d23b38ee3efe2409656977bc7a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:08 +0000
Subject: [PATCH 15/18] fix: count the last step of a spin-out in B in 2-4

INSTRUCTION checks for recurrence itself, after counting the step, as
all the other states and machines do.
---
 machines/2-4.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/machines/2-4.c b/machines/2-4.c
index 9093f44..9e59f2f 100644
--- a/machines/2-4.c
+++ b/machines/2-4.c
@@ -45,7 +45,6 @@ int main (void) {
               a3c, a3s, a3t);
 
  B:
-  CHECK_RECUR(b0s, b0t, 1);
   INSTRUCTION(1, b0c, b0s, b0t,
               b1c, b1s, b1t,
               b2c, b2s, b2t,
-- 
2.43.0


From 20cceff7f77a25f3664967eb45b854a7b86205a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:08 +0000
Subject: [PATCH 16/18] fix: answer a last program without a newline

The batch machines took the missing newline for the missing program.
---
 machines/machine.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/machines/machine.h b/machines/machine.h
index 2427ef3..f522944 100644
--- a/machines/machine.h
+++ b/machines/machine.h
@@ -90,10 +90,10 @@
 #define SHIFT_CONV 'L'
 #define TRANS_CONV 'A'
 
-#define READ_BOUND    if (NEXT == EOF) goto EXIT;
-#define READ_COLOR(C) C = NEXT - COLOR_CONV;
+#define READ_BOUND    NEXT;
+#define READ_COLOR(C) if ((C = NEXT) == EOF) goto EXIT; C -= COLOR_CONV;
 #define READ_SHIFT(S) S = NEXT == SHIFT_CONV ? L : R;
-#define READ_TRANS(T) T = NEXT - TRANS_CONV;
+#define READ_TRANS(T) if ((T = NEXT) == EOF) goto EXIT; T -= TRANS_CONV;
 
 #define READ_ACTION(C, S, T) {                  \
     READ_COLOR(C);                              \
-- 
2.43.0


From 3837ed8e84f9648e4d7f4a44cd8b5833352fa0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:51 +0000
Subject: [PATCH 17/18] fix: strip lines before drawing them

The newline ended up in the graph's label and split the name of the
picture in two, the second half of which dot took for an input file.
---
 dump_graphs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dump_graphs.py b/dump_graphs.py
index 50f5901..3c63596 100644
--- a/dump_graphs.py
+++ b/dump_graphs.py
@@ -8,7 +8,9 @@ from tools.dot import make_dot
 if __name__ == '__main__':
     _, path = tempfile.mkstemp()
 
-    for prog in sys.stdin:
+    for line in sys.stdin:
+        prog = line.strip()
+
         with open(path, 'w') as temp:
             temp.write(make_dot(prog))
 
-- 
2.43.0


From 9397158a5870bfdb50c158b1161ba30a8773d267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:59 +0000
Subject: [PATCH 18/18] fix: stop on a sweep that does not fit instead of
 wrapping it

Sweeping over a block of 2^64 - 1 cells together with the scanned one left
a block of length zero.
---
 src/tape.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tape.rs b/src/tape.rs
index da85864..7024e41 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -135,7 +135,8 @@ impl<B: Block> Span<B> {
             (skip && !self.blank() && self.0[0].get_color() == scan)
                 .then(|| self.0.remove(0))
                 .as_ref()
-                .map_or_else(|| 1, |block| 1 + block.get_count());
+                .map_or(Some(1), |block| block.get_count().checked_add(1))
+                .expect("count overflow");
 
         let next_scan = if self.blank() {
             0
-- 
2.43.0

