From f474e051d65eb325b47fd5b59f357f8040314b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:20 +0000
Subject: [PATCH 01/29] fix: parser must not panic on non-ASCII input or
 unparsable truth values

---
 src/NarseseParser.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index f14a838..e08833d 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -22,23 +22,19 @@ use crate::TermApi::*;
 pub fn parseNarseseRetTv(narsese:&mut String, tv:&mut Tv) {
   *tv = Tv{f:1.0,c:0.9}; // set TV to default
   
-  if narsese.len() > 0 && narsese.chars().nth(narsese.len()-1).unwrap() == '}' {
-    for revIdx in 1..narsese.len() { // scan for '{'
-      let idx = narsese.len() - revIdx; // compute index from back
+  if narsese.ends_with('}') {
+    if let Some(idx) = narsese.rfind('{') { // scan for '{'
+      let tvStr = &narsese[idx+1..narsese.len()-1];
+      let splitted:Vec<&str> = tvStr.split(" ").collect();
       
-      if narsese.chars().nth(idx).unwrap() == '{' {
-        let tvStr = &narsese[idx+1..narsese.len()-1];
-        let splitted:Vec<&str> = tvStr.split(" ").collect();
-        
-        if splitted.len() == 2 { // must have two values
-          // TODO< handle error better >
-          let f = splitted[0].parse::<f64>().unwrap();
-          let c = splitted[1].parse::<f64>().unwrap();
-          *narsese = narsese[..idx].to_string(); // cut away
-          *tv = Tv{f:f,c:c};
-          return;
+      if splitted.len() == 2 { // must have two values
+        match (splitted[0].parse::<f64>(), splitted[1].parse::<f64>()) {
+          (Ok(f), Ok(c)) => {
+            *narsese = narsese[..idx].to_string(); // cut away
+            *tv = Tv{f:f,c:c};
+          },
+          _ => {} // is not a TV, leave it to the parser to reject it
         }
-        return;
       }
     }
   }
@@ -73,8 +69,8 @@ pub fn parseNarsese(narsese:&String) -> Option<(Term, Tv, EnumPunctation, bool)>
     return None; // can't parse empty string!
   }
   
-  let punctationChar = narsese2.chars().nth(narsese2.len()-1).unwrap();
-  let narseseInner = narsese2[..narsese2.len()-1].to_string();
+  let punctationChar = narsese2.pop().unwrap(); // last char, can be multibyte
+  let narseseInner = narsese2;
   
   let punctation = match punctationChar {
     '.' => {EnumPunctation::JUGEMENT},
-- 
2.43.0


From fd65de0977f319a986317c282e60dc2e1832fb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:20 +0000
Subject: [PATCH 02/29] fix: reject truth values outside of f in [0,1] and c in
 [0,1)

---
 src/NarseseParser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index e08833d..14db308 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -29,11 +29,11 @@ pub fn parseNarseseRetTv(narsese:&mut String, tv:&mut Tv) {
       
       if splitted.len() == 2 { // must have two values
         match (splitted[0].parse::<f64>(), splitted[1].parse::<f64>()) {
-          (Ok(f), Ok(c)) => {
+          (Ok(f), Ok(c)) if f >= 0.0 && f <= 1.0 && c >= 0.0 && c < 1.0 => {
             *narsese = narsese[..idx].to_string(); // cut away
             *tv = Tv{f:f,c:c};
           },
-          _ => {} // is not a TV, leave it to the parser to reject it
+          _ => {} // is not a valid TV, leave it to the parser to reject it
         }
       }
     }
-- 
2.43.0


From 0f8d3323294a7bcf8a17e354b8c7dc1cc2418c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:20 +0000
Subject: [PATCH 03/29] fix: input facade must not panic on non-ASCII lines or
 bad step counts

---
 src/NarInputFacade.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/NarInputFacade.rs b/src/NarInputFacade.rs
index 5807805..329113b 100644
--- a/src/NarInputFacade.rs
+++ b/src/NarInputFacade.rs
@@ -25,11 +25,11 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     trimNewline(&mut input);
 
     // TODO< trim comment by // away   >
-    if input.len() >= 2 && &input[..2] == "//" { // is commented line?
+    if input.starts_with("//") { // is commented line?
         // ignore
     }
     
-    else if input.len() >= 3 && &input[..3] == "!sp" { // step procedural
+    else if input.starts_with("!sp") { // step procedural
         //let mut nCycles = 1;
         //if input.len() > 5 && false { // parse number of cycles
         //    // TODO< check if it was parsed fine! >
@@ -45,11 +45,16 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     else if input == "!spB" { // step procedural B
         NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
     }
-    else if input.len() >= 2 && &input[..2] == "!s" {
+    else if input.starts_with("!s") {
         let mut nCycles = 1;
         if input.len() > 2 { // parse number of cycles
-            // TODO< check if it was parsed fine! >
-            nCycles = input[2..].parse::<i64>().unwrap();
+            nCycles = match input[2..].trim().parse::<i64>() {
+                Ok(n) => {n},
+                Err(_) => {
+                    println!("ERR - couldn't parse number of cycles!");
+                    return retInfo;
+                }
+            };
         }
         for _i in 0..nCycles {
             cycle(nar);
@@ -58,7 +63,7 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     else if input == "!dtf" { // delcarative tasks flush
         flushTasks(&*nar.mem.read());
     }
-    else if input.len() >= 5 && &input[..5] == "!por " { // procedural op register --- register op, argument is type/name of op, 2nd argument is name of op
+    else if input.starts_with("!por ") { // procedural op register --- register op, argument is type/name of op, 2nd argument is name of op
         let args:Vec<&str> = input[5..].split_whitespace().collect();
         if args.len() == 1 {
             let argOpType:String = args[0].to_string();
@@ -95,7 +100,7 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
         nar.procNar.cfgEnBabbling = true;
     }
 
-    else if input.len() > 6 && &input[..6] == "!.nlp " {
+    else if input.len() > 6 && input.starts_with("!.nlp ") {
         let natural = &input[6..].to_string();
         NarModuleNlp3::process(nar, &natural);
     }
-- 
2.43.0


From 304e6c0510d46a3df27c895eaf76b6059a641def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:20 +0000
Subject: [PATCH 04/29] fix: random variable name indexed past the end of its
 alphabet

---
 src/NarInfProcedural.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarInfProcedural.rs b/src/NarInfProcedural.rs
index c3e861f..729c347 100644
--- a/src/NarInfProcedural.rs
+++ b/src/NarInfProcedural.rs
@@ -218,7 +218,7 @@ fn intro_vars(t: &Term, repl: &Term,  rng: &mut rand::rngs::ThreadRng) -> Vec<Te
 fn create_random_varname(rng: &mut rand::rngs::ThreadRng) -> Term {
     let mut name: String = "Q".to_string();
     for _i in 0..24 {
-        let v = "012456789ABCDEF".chars().nth(rng.gen_range(0..16)).unwrap();
+        let v = "012456789ABCDEF".chars().nth(rng.gen_range(0..15)).unwrap();
         name += &v.to_string();
     }
     Term::IndepVar(name)
-- 
2.43.0


From 3caf363889726cb5a47a98958ee52b31f9316fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:28 +0000
Subject: [PATCH 05/29] fix: store worker died when a relation was told without
 a interval

---
 src/NarProc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarProc.rs b/src/NarProc.rs
index 41d6db7..68b41ea 100644
--- a/src/NarProc.rs
+++ b/src/NarProc.rs
@@ -403,7 +403,7 @@ pub fn narInit() -> ProcNar {
                         
                         if !checkOverlap(&iEE.stamp, &evidenceSentence.stamp) { // evidence must no overlap!
                             if
-                                iEE.expDt.unwrap() >= evidenceSentence.expDt.unwrap() && // check for greater because we want to count evidence for longer intervals too, because longer ones are "included"
+                                iEE.expDt.unwrap_or(0) >= evidenceSentence.expDt.unwrap_or(0) && // relations which were told don't have a interval; check for greater because we want to count evidence for longer intervals too, because longer ones are "included"
                                 
                                 // does impl seq match?
                                 checkEqTerm(&iEE.term, &evidenceSentence.term)
-- 
2.43.0


From 763a3ea6c3f83290e59d1cf90ce96d6ce6bc112a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:29 +0000
Subject: [PATCH 06/29] fix: swap truth values together with the premises in
 binary inference

---
 src/NarWorkingCycle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index 0088f03..38fe696 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -741,7 +741,7 @@ pub fn infBinary(a: &Term, aPunct:EnumPunctation, aTv:&Option<Tv>, b: &Term, bPu
     let mut res = vec![];
     *wereRulesApplied = false; // because no rules were applied yet
     res.extend(infBinaryInner(&a, aPunct, &aTv, &b, bPunct, &bTv, wereRulesApplied).iter().cloned());
-    res.extend(infBinaryInner(&b, bPunct, &aTv, &a, aPunct, &bTv, wereRulesApplied).iter().cloned());
+    res.extend(infBinaryInner(&b, bPunct, &bTv, &a, aPunct, &aTv, wereRulesApplied).iter().cloned());
     res
 }
 
-- 
2.43.0


From 0147dc7576332f7a55c94e32f01dee5d292d45e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:29 +0000
Subject: [PATCH 07/29] fix: product to image rule is only valid for products
 with two components

---
 src/NarWorkingCycle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index 38fe696..545038c 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -137,7 +137,7 @@ pub fn infStructProd0(a: &Term, punct:EnumPunctation, aTv: &Option<Tv>) -> Optio
     match a {
         Term::Stmt(Copula::INH, prod, pred) => {
             match &**prod {
-                Term::Prod(arr) => {
+                Term::Prod(arr) if arr.len() == 2 => {
                     let prod0 = &arr[0];
                     let prod1 = &arr[1];
 
-- 
2.43.0


From 810ad85fbd8c99364f9e23ccc2f26ad23f942c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:29 +0000
Subject: [PATCH 08/29] fix: deadlock of task listing with the derivation
 worker

---
 src/NarWorkingCycle.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index 545038c..4aeed47 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -1981,7 +1981,8 @@ pub fn debugCreditsOfTasks(mem: &Mem2) -> Vec<String> {
     
     // debug credit of tasks
     {
-        for iTask in &mem.shared.read().judgementTasks {
+        let sharedGuard = mem.shared.read(); // is only taken once because a recursive read can deadlock with a waiting writer
+        for iTask in &sharedGuard.judgementTasks {
             let taskSentenceAsStr = convSentenceTermPunctToStr(&iTask.read().sentence, true);
             
             let mut taskAsStr = taskSentenceAsStr.clone();
@@ -1991,7 +1992,7 @@ pub fn debugCreditsOfTasks(mem: &Mem2) -> Vec<String> {
                 taskAsStr = format!("{} {}", taskAsStr, NarStamp::convToStr(&iTask.read().sentence.stamp));
             }
 
-            res.push(format!("task  {}  credit={}", taskAsStr, taskCalcCredit(&iTask.read(), mem.shared.read().cycleCounter.load(Ordering::Relaxed))));
+            res.push(format!("task  {}  credit={}", taskAsStr, taskCalcCredit(&iTask.read(), sharedGuard.cycleCounter.load(Ordering::Relaxed))));
         }
     }
 
-- 
2.43.0


From 483b8783d7ce655db4cad61b57bd73ad83111b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:29 +0000
Subject: [PATCH 09/29] fix: revision and storage of a belief must be one
 atomic step

---
 src/NarWorkingCycle.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index 4aeed47..b982cdb 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -1416,7 +1416,7 @@ pub fn populateTaskByTermLookup(judgementTasksByTerm:Arc<RwLock< HashMap<Term, V
 /// tries to revise the belief if possible
 ///
 /// returns Some with the conclusion if it has done revision
-pub fn memReviseBelief(mem:Arc<RwLock<NarMem::Mem>>, sentence:&Sentence) -> Option<Sentence> {
+pub fn memReviseBelief(mem:&mut NarMem::Mem, sentence:&Sentence) -> Option<Sentence> {
     // MECHANISM< belief revision
     // revises beliefs if the term matches and if the stamps don't overlap
     // >
@@ -1430,7 +1430,7 @@ pub fn memReviseBelief(mem:Arc<RwLock<NarMem::Mem>>, sentence:&Sentence) -> Opti
         EnumPunctation::JUGEMENT => {
             
             for iTerm in retSubterms(&*sentence.term) { // enumerate all terms, we need to do this to add the sentence to all relevant names
-                match mem.write().concepts.get_mut(&iTerm.clone()) {
+                match mem.concepts.get_mut(&iTerm.clone()) {
                     Some(arcConcept) => {
                         match Arc::get_mut(arcConcept) {
                             Some(concept) => {
@@ -1536,19 +1536,18 @@ pub fn memAddTask(shared:Arc<RwLock<DeclarativeShared>>, sentence:&Sentence, cal
     let mut toAddToTasks = vec![sentence.clone()];
     
     // try to revise
-    let revisionConcl:Option<Sentence> = memReviseBelief(Arc::clone(&shared.read().mem), sentence);
-    let wasRevised = revisionConcl.is_some();
-    match revisionConcl {
-        Some(revConcl) => {
-            toAddToTasks.push(revConcl.clone());
-        },
-        None => {}
-    }
-
-
-    if !wasRevised {
-        // add it only if it wasn't revised
-        NarMem::storeInConcepts(&mut shared.read().mem.write(), sentence, cfg__nConceptBeliefs, currentTime); // store sentence in memory, adressed by concepts
+    {
+        let sharedGuard = shared.read();
+        let mut memGuard = sharedGuard.mem.write(); // is held over revision and storage because another thread could add the same term in between
+        match memReviseBelief(&mut memGuard, sentence) {
+            Some(revConcl) => {
+                toAddToTasks.push(revConcl.clone());
+            },
+            None => {
+                // add it only if it wasn't revised
+                NarMem::storeInConcepts(&mut memGuard, sentence, cfg__nConceptBeliefs, currentTime); // store sentence in memory, adressed by concepts
+            }
+        }
     }
 
     for iToAddToTasks in &toAddToTasks {
-- 
2.43.0


From cd0aa0e7e7c10d2e8239a740224d4d2baa9b1ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:29 +0000
Subject: [PATCH 10/29] fix: add task to working tasks and lookup in one atomic
 step

---
 src/NarWorkingCycle.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index b982cdb..e70c20a 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -1582,14 +1582,10 @@ pub fn memAddTask(shared:Arc<RwLock<DeclarativeShared>>, sentence:&Sentence, cal
                 
     
                 let taskArc = Arc::new(RwLock::new(task));
-                {
-                    shared.write().judgementTasks.push(Arc::clone(&taskArc));    
-                }
-    
-    
+                let mut sharedGuard = shared.write(); // is held over both because a flush in between would leave a stale entry in the lookup
+                sharedGuard.judgementTasks.push(Arc::clone(&taskArc));
                 
                 // populate hashmap lookup
-                let sharedGuard = shared.read();
                 populateTaskByTermLookup(Arc::clone(&sharedGuard.judgementTasksByTerm), &iToAddToTasks.term, &taskArc);
             },
             EnumPunctation::QUESTION => {
-- 
2.43.0


From ac7f04ef7573bafdea541f9eef231705b6e27342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:51 +0000
Subject: [PATCH 11/29] fix: reject temporal judgement without a sequence
 instead of panicking

---
 src/Nar.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Nar.rs b/src/Nar.rs
index 3c761a7..247afcd 100644
--- a/src/Nar.rs
+++ b/src/Nar.rs
@@ -100,6 +100,11 @@ pub fn inputT2(nar:&mut Nar, term:&Term, punct:EnumPunctation, tv:&Tv, isEvent:b
             //memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
         }
         else if punct == EnumPunctation::JUGEMENT {
+            if !NarProc::is_seq(&NarProc::retSubj(term)) { // only knowledge of the form <(...) =/> ...> is supported
+                println!("ERR : form is not supported!");
+                return;
+            }
+
             // add to temporal knowledge
             sentence.evi = Some(Evidence::CNT{pos:10,cnt:10}); // we need to transcribe TV
                                                             // TODO< transcribe TV in a better way, we need to approximate freq and conf! >
-- 
2.43.0


From 58a3ef4edc6f5b5c4343b5ec99bb1f2be44c1a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:05 +0000
Subject: [PATCH 12/29] fix: decision making must ignore relations which don't
 end with a op instead of panicking

---
 src/NarGoalSystem.rs | 3 ++-
 src/NarProc.rs       | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index c377a02..b0f41c7 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -30,6 +30,7 @@ use crate::NarMem;
 use crate::NarUnify;
 use crate::NarInfProcedural;
 use crate::Utils::{enforce};
+use crate::TermUtils::decodeOp;
 use crate::NarStamp::newStamp;
 use crate::NarWorkingCycle::Task2;
 use crate::NarWorkingCycle::QHandler;
@@ -656,7 +657,7 @@ pub fn selHighestExpGoalByState(goalSystem: &GoalSystem, state:&Term) -> (f64, O
     for iv in &retEntries(goalSystem) {
         match &(*(iv.read().sentence).term) {
             
-            Term::Seq(seq) if seq.len() >= 1 => {
+            Term::Seq(seq) if seq.len() >= 1 && decodeOp(&seq[seq.len()-1]).is_some() => { // last must be a op, else it can't get executed
                 // try to unify first part of sequence with observed state
                 // we can only consider if it matches!
                 let asgnmts:Option<Vec<NarUnify::Asgnment>> = NarUnify::unify(&retSubSeqAsSeqOrTerm(&seq[..seq.len()-1]), &state);
diff --git a/src/NarProc.rs b/src/NarProc.rs
index 68b41ea..76ecfb1 100644
--- a/src/NarProc.rs
+++ b/src/NarProc.rs
@@ -748,7 +748,7 @@ pub fn narStep1(nar:&mut ProcNar, declMem:&Option<Arc<RwLock<Mem2>>>) {
                                             }
 
                                             match unifiedSeqOpt {
-                                                Some(unifiedSeq) => { // must always have a value!
+                                                Some(unifiedSeq) if is_seqAndLastOp(&unifiedSeq) => { // must be executable
                                                     let firstExecEvidence = Arc::clone(&execEvidence[0]);
                                                     let exp: f64 = Tv::calcExp(&carriedGoalTv);
 
@@ -774,7 +774,7 @@ pub fn narStep1(nar:&mut ProcNar, declMem:&Option<Arc<RwLock<Mem2>>>) {
                                                         }
                                                     }
                                                 },
-                                                None => {}
+                                                _ => {}
                                             }
 
                                             break; // break because we found a goal which was hit
-- 
2.43.0


From 51c3aceeef410a2ef9131d0ea475da9266f50778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:05 +0000
Subject: [PATCH 13/29] fix: nlpRel0 op must not panic on products without two
 components

---
 src/OpLib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OpLib.rs b/src/OpLib.rs
index cbda5f8..545349e 100644
--- a/src/OpLib.rs
+++ b/src/OpLib.rs
@@ -104,7 +104,7 @@ impl NarProc::Op for Op__nlp_rel_0 {
         let rewrittenRel:Term = match rel.clone() {
             Term::Stmt(Copula::INH, subj, pred) => {
                 match *subj {
-                    Term::Prod(arr) => {
+                    Term::Prod(arr) if arr.len() == 2 => {
                         let right:Term = (*arr[1]).clone();
                         let rewrittenRight:Term = match right {
                             Term::Seq(arr) if arr.len() == 3 && checkEqTerm(&arr[1], &Term::Name("and".to_string())) => {
-- 
2.43.0


From 6787c1b82e6423ca31ead5f4a24a555dd312f2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:11 +0000
Subject: [PATCH 14/29] fix: natural language command must not panic without a
 usable model, on unknown words or on a second use

---
 src/ModNlpA.rs | 73 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 59 insertions(+), 14 deletions(-)

diff --git a/src/ModNlpA.rs b/src/ModNlpA.rs
index a6c89d1..33b36b1 100644
--- a/src/ModNlpA.rs
+++ b/src/ModNlpA.rs
@@ -113,7 +113,7 @@ fn nn_load() -> Result<(NeuralNetwork)> {
         })?;
 
         for i_val in val_iter {
-            n_layers = i_val.unwrap();
+            n_layers = i_val?;
         }
     }
     n_layers += 1;
@@ -127,7 +127,7 @@ fn nn_load() -> Result<(NeuralNetwork)> {
             })?;
 
             for i_val in val_iter {
-                n_neurons = i_val.unwrap();
+                n_neurons = i_val?;
             }
         }
         n_neurons += 1;
@@ -154,7 +154,7 @@ fn nn_load() -> Result<(NeuralNetwork)> {
             let mut neuron: WeightBias = WeightBias{bias:(0.0,0.0),weights:vec![],};
 
             for i_val in val_iter {
-                let i_val2 = i_val.unwrap();
+                let i_val2 = i_val?;
 
 
                 if i_val2.valueid == -1 { // it is the bias
@@ -594,8 +594,21 @@ fn network_test() {
 // /param stimulus_words the actual words of the stimulus
 // /return (control sequence which was returned from the NN, extracted relations)
 pub fn network_run(stimulus_words: &[String]) -> (Vec<i64>, Vec<Relation>) {
-    let nn:NeuralNetwork = nn_load().unwrap();
+    let nn:NeuralNetwork = match nn_load() {
+        Ok(nn) if check_nn(&nn) => {nn},
+        _ => {
+            println!("ERR - couldn't load NN from nn_nlp0.db!");
+            return (vec![], vec![]);
+        }
+    };
 
+    let pos: Vec<String> = match conv_tokens_to_poss(&stimulus_words) {
+        Some(pos) => {pos},
+        None => {
+            println!("ERR - sentence contains unknown word!");
+            return (vec![], vec![]);
+        }
+    };
 
     { // debug: print weights
         let mut str2:String = "".to_string();
@@ -615,18 +628,20 @@ pub fn network_run(stimulus_words: &[String]) -> (Vec<i64>, Vec<Relation>) {
     use std::io::prelude::*;
 
 
+    // logging to the file is best effort
     let mut file = OpenOptions::new()
-        .create_new(true)
-        .write(true)
+        .create(true)
         .append(true)
         .open("logX.txt")
-        .unwrap();
+        .ok();
 
     // function to log text to console and log file
     let mut log = |s: &String| {
         println!("{}", &s);
-        if let Err(e) = writeln!(file, "{}", &s) {
-            eprintln!("Couldn't write to file: {}", e);
+        if let Some(file) = &mut file {
+            if let Err(e) = writeln!(file, "{}", &s) {
+                eprintln!("Couldn't write to file: {}", e);
+            }
         }
     };
 
@@ -634,7 +649,6 @@ pub fn network_run(stimulus_words: &[String]) -> (Vec<i64>, Vec<Relation>) {
 
     let mut extracted_relations: Vec<Relation> = vec![]; // array of extracted relations
     
-    let pos: Vec<String> = conv_tokens_to_poss(&stimulus_words);
     println!("pos = {:?}", &pos); // DGB pos
 
     let mut current_stimulus: Vec<i64> = prot_pos0(pos); //prot_pos0(vec!["NNP".to_string(), "VBZ".to_string(), "JJ".to_string(), "CC".to_string(), "JJ".to_string()]);
@@ -665,6 +679,18 @@ pub fn network_run(stimulus_words: &[String]) -> (Vec<i64>, Vec<Relation>) {
         }
 
         
+        // how many words does the action refer to?
+        let n_needed_words:usize = match current_action_idx {
+            1 => 3,
+            4 => 4,
+            2 | 3 | 7 => 5,
+            _ => 0
+        };
+        if stimulus_words.len() < n_needed_words {
+            log(&format!("[d5 ] sentence is to short for action"));
+            break;
+        }
+
         { // debug + build relations
             if current_action_idx == 0 { // is FIN action? then we are done with interpreting actions
                 // do nothing
@@ -739,6 +765,21 @@ pub fn network_run(stimulus_words: &[String]) -> (Vec<i64>, Vec<Relation>) {
     (control_log, extracted_relations)
 }
 
+// check if the (loaded) network has the structure which is expected by network_run()
+fn check_nn(nn:&NeuralNetwork) -> bool {
+    if nn.layers.len() != 2 {
+        return false;
+    }
+    let n_in:usize = conv_seq_to_nninput(&Seq{seq:vec![], outonehot:-1/*dummy*/}).len();
+    let n_hidden:usize = nn.layers[0].neurons.len();
+    let n_out:usize = nn.layers[1].neurons.len();
+    let n_actions_max:usize = 34 - pos_ret_codes() as usize; // codes of actions must be encodable
+
+    n_hidden > 0 && n_out > 0 && n_out <= n_actions_max &&
+        nn.layers[0].neurons.iter().all(|iv| iv.weights.len() == n_in) &&
+        nn.layers[1].neurons.iter().all(|iv| iv.weights.len() == n_hidden)
+}
+
 /// structure for an relation extracted from natural language
 pub struct Relation {
     pub head: String, // head
@@ -897,7 +938,7 @@ pub fn conv_seq_to_nninput(seq:&Seq) -> Vec<(f64,f64)> {
 
         let seq2_len = seq.seq.len();
 
-        for seq2_idx in 0..seq2_len { // iterate from end of sequence to beginning
+        for seq2_idx in seq2_len.saturating_sub(len_codes)..seq2_len { // only the last part of to long sequences is encoded // iterate from end of sequence to beginning
             // TODO< don't iterate over maximal capacity of encoding!
             
             
@@ -1038,7 +1079,8 @@ pub fn prot_pos0(cls:Vec<String>) -> Vec<i64> {
 
 
 // convert words to part of speech
-pub fn conv_tokens_to_poss(tokens:&[String]) -> Vec<String> {
+// /return None if a word is not known
+pub fn conv_tokens_to_poss(tokens:&[String]) -> Option<Vec<String>> {
     let mut res = vec![];
     for i_token in tokens {
         if      i_token == &"Tom".to_string() {res.push("NNP".to_string());}
@@ -1067,8 +1109,11 @@ pub fn conv_tokens_to_poss(tokens:&[String]) -> Vec<String> {
         else if i_token == &"Cat".to_string() {res.push("NN".to_string());} // is this right?
 
         else if i_token == &"want".to_string() {res.push("VBT".to_string());} // not always right
-        else {panic!(format!("unknown word \"{}\"", &i_token));}
+        else {
+            println!("unknown word \"{}\"", &i_token);
+            return None;
+        }
     }
-    res
+    Some(res)
 }
 
-- 
2.43.0


From 06d2dc18428d66b5cde53301aa6657a856ecf357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:21 +0000
Subject: [PATCH 15/29] fix: storing the NN must not lose or truncate the
 stored network when it is interrupted

---
 src/ModNlpA.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/ModNlpA.rs b/src/ModNlpA.rs
index 33b36b1..9a0c0f7 100644
--- a/src/ModNlpA.rs
+++ b/src/ModNlpA.rs
@@ -40,18 +40,16 @@
 
 //use std::sync::Arc;
 
-use std::path::Path;
 use std::fs;
 use rusqlite::{Connection, Result, params};
 
 // stores the NN as a sqlite database
 fn nn_store(nn:&NeuralNetwork) -> Result<()> {
-    fs::remove_file("nn_nlp0.db");
+    // the new network is written to another file and replaces the old network only when it is complete
+    fs::remove_file("nn_nlp0.db.tmp");
+    fs::remove_file("nn_nlp0.db.tmp-journal");
 
-    // make sure the file doesn't exist anymore
-    while Path::new("nn_nlp0.db").exists() {};
-
-    let conn = Connection::open("nn_nlp0.db")?;
+    let mut conn = Connection::open("nn_nlp0.db.tmp")?;
 
     // nnid : id of the neural network: functionality can later on be used to store multiple neural networks in the same database
     conn.execute(
@@ -66,8 +64,7 @@ fn nn_store(nn:&NeuralNetwork) -> Result<()> {
         [],
     )?;
 
-    // make faster write
-    conn.execute("PRAGMA synchronous=OFF;",[])?;
+    let conn2 = conn.transaction()?; // one transaction for all, because it's faster
 
     for i_idx_layer in 0..nn.layers.len() {
         let ilayer = &nn.layers[i_idx_layer];
@@ -76,14 +73,14 @@ fn nn_store(nn:&NeuralNetwork) -> Result<()> {
             let iNeuron = &ilayer.neurons[i_idx_neuron];
 
             // store bias
-            conn.execute(
+            conn2.execute(
                 "INSERT INTO weights (nnid,layer,neuronidx,valueid,value) values (?1,?2,?3,?4,?5)",
                 params![0, i_idx_layer, i_idx_neuron, -1, iNeuron.bias.0],
             )?;
             println!("store {} {} {} {}", i_idx_layer, i_idx_neuron, -1, iNeuron.bias.0);
 
             for i_idx in 0..iNeuron.weights.len() {
-                conn.execute(
+                conn2.execute(
                     "INSERT INTO weights (nnid,layer,neuronidx,valueid,value) values (?1,?2,?3,?4,?5)",
                     params![0, i_idx_layer, i_idx_neuron, i_idx, iNeuron.weights[i_idx as usize].0],
                 )?;
@@ -93,6 +90,13 @@ fn nn_store(nn:&NeuralNetwork) -> Result<()> {
         }
     }
 
+    conn2.commit()?;
+    conn.close().map_err(|(_, e)| e)?;
+
+    if let Err(e) = fs::rename("nn_nlp0.db.tmp", "nn_nlp0.db") {
+        println!("ERR - couldn't store NN: {}", e);
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 9495062d107bf1fedd2fc7246d578948ae9625e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:46 +0000
Subject: [PATCH 16/29] fix: confidence must not get rounded up to 1.0

---
 src/Tv.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Tv.rs b/src/Tv.rs
index 22ddb51..e065998 100644
--- a/src/Tv.rs
+++ b/src/Tv.rs
@@ -65,7 +65,8 @@ pub fn neg(a:&Tv)->Tv {
 
 pub fn w2c(w:f64) -> f64 {
     let h=1.0;
-    w / (w + h)
+    let c:f64 = w / (w + h);
+    c.min(1.0 - f64::EPSILON) // confidence is by definition below 1.0, but the division can get rounded up to 1.0
 }
 
 pub fn c2w(c:f64) -> f64 {
-- 
2.43.0


From 4e68587aacbb80a15a6916b678bd2065ea48a5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:32 +0000
Subject: [PATCH 17/29] fix: eternal and temporal questions must get added as
 tasks, link procedural memory for temporal Q&A

---
 src/Nar.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Nar.rs b/src/Nar.rs
index 247afcd..5f34a56 100644
--- a/src/Nar.rs
+++ b/src/Nar.rs
@@ -45,9 +45,13 @@ pub fn createNar() -> Nar {
     let cfg__nConceptBeliefs = 20;
     let cfg__maxComplexity = 64;
 
+    let procNar = NarProc::narInit();
+    let mem = createMem2(cfg__maxComplexity, cfg__nConceptBeliefs);
+    mem.read().shared.write().procMem = Arc::clone(&procNar.evidenceMem); // link procedural memory for temporal Q&A
+
     Nar{
-        procNar:NarProc::narInit(),
-        mem:createMem2(cfg__maxComplexity, cfg__nConceptBeliefs),
+        procNar:procNar,
+        mem:mem,
         currentTime:AtomicI64::new(0),
         cfgVerbosityInput:0, // enable verbose input by default
         cfg__nConceptBeliefs:cfg__nConceptBeliefs,
@@ -96,8 +100,7 @@ pub fn inputT2(nar:&mut Nar, term:&Term, punct:EnumPunctation, tv:&Tv, isEvent:b
 
     if isTemporal {
         if punct == EnumPunctation::QUESTION { // temporal Q&A
-            // quesion was already added
-            //memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
+            memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
         }
         else if punct == EnumPunctation::JUGEMENT {
             if !NarProc::is_seq(&NarProc::retSubj(term)) { // only knowledge of the form <(...) =/> ...> is supported
@@ -119,12 +122,9 @@ pub fn inputT2(nar:&mut Nar, term:&Term, punct:EnumPunctation, tv:&Tv, isEvent:b
         if punct == EnumPunctation::GOAL {
             println!("ERR : eternal goals are not supported!");
         }
-        else if punct == EnumPunctation::JUGEMENT {
+        else { // is judgement or question
             memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
         }
-        else {
-            println!("ERR : form is not supported!");
-        }
     }
 }
 
-- 
2.43.0


From 734966693ac32c2a49c0ecfccba32cf34118e987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:39 +0000
Subject: [PATCH 18/29] fix: failed connection attempt must not end the server

---
 src/NarServer.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/NarServer.rs b/src/NarServer.rs
index f15ebd2..f318647 100644
--- a/src/NarServer.rs
+++ b/src/NarServer.rs
@@ -28,8 +28,17 @@ async fn acceptLoop(addr: impl ToSocketAddrs + async_std::net::ToSocketAddrs, tx
     let mut incoming = listener.incoming();
     
     while let Some(stream) = incoming.next().await {
-        let stream = stream?;
-        println!("Accepting from: {}", stream.peer_addr()?);
+        let stream = match stream {
+            Ok(stream) => {stream},
+            Err(err) => { // a failed connection attempt must not end the server
+                println!("Accepting failed: {}", err);
+                continue;
+            }
+        };
+        match stream.peer_addr() {
+            Ok(addr) => {println!("Accepting from: {}", addr);},
+            Err(err) => {println!("Accepting from unknown: {}", err);} // client is already gone
+        }
         let _handle = task::spawn(connectionLoop(stream, tx.clone(), global.clone()));
     }
 
-- 
2.43.0


From 3553060deff96958849d056726f18786235c5f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:39 +0000
Subject: [PATCH 19/29] fix: server sent the last broadcasted message of a
 client again

---
 src/NarServer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarServer.rs b/src/NarServer.rs
index f318647..2d82970 100644
--- a/src/NarServer.rs
+++ b/src/NarServer.rs
@@ -67,7 +67,7 @@ async fn connectionLoop(stream: TcpStream, tx: Sender<String>, global:Arc<Mutex<
             let data = global.lock().unwrap(); // unwrap to panic if it can't unlock
             for iItem in &data.arr { // iterate over global items and send to writer
                 if iItem.0 >= myIdCounter { // is it a message which this tread didn't yet observe?
-                    myIdCounter = iItem.0; // update counter so the message is next time ignored
+                    myIdCounter = iItem.0+1; // update counter so the message is next time ignored
                     let bcastedMsg:String = iItem.1.clone(); // copy broadcasted string to local variable
                     toSend.push(bcastedMsg);
                 }
-- 
2.43.0


From eac230adb62c0e3991daa1d5779f6bab3a57a622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:39 +0000
Subject: [PATCH 20/29] fix: server must send broadcasted messages completely

---
 src/NarServer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarServer.rs b/src/NarServer.rs
index 2d82970..58376fb 100644
--- a/src/NarServer.rs
+++ b/src/NarServer.rs
@@ -76,7 +76,7 @@ async fn connectionLoop(stream: TcpStream, tx: Sender<String>, global:Arc<Mutex<
         
         for iLine in &toSend {
             // send broadcasted to stream
-            writer.write((iLine.to_owned()+"\n").as_bytes()).await;
+            writer.write_all((iLine.to_owned()+"\n").as_bytes()).await;
             writer.flush().await;
         }
 
-- 
2.43.0


From 791cfe8ae40f7d4e94f5c4b162cf6e1dd9189fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:39 +0000
Subject: [PATCH 21/29] fix: answers must not grow the messages of the server
 without limit

---
 src/NarServer.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/NarServer.rs b/src/NarServer.rs
index 58376fb..2c5f93d 100644
--- a/src/NarServer.rs
+++ b/src/NarServer.rs
@@ -107,6 +107,20 @@ pub struct Global {
     pub idCounter:i64,
 }
 
+/// add message to the messages which are sent to all clients
+fn broadcast(global:&Arc<Mutex<Global>>, msg:&String) {
+    let mut data = global.lock().unwrap(); // unwrap to panic when it can't unlock
+    let idCounter = data.idCounter;
+    data.arr.push((idCounter, msg.clone()));
+    data.idCounter+=1;
+
+    // limit size of data
+    let dataMaxLength = 50;
+    if data.arr.len() > dataMaxLength {
+        data.arr = data.arr[data.arr.len()-dataMaxLength..].to_vec();
+    }
+}
+
 pub fn run() {
     let (tx, rx) = channel();
     let global:Arc<Mutex<Global>> = Arc::new(Mutex::new(Global{arr:Vec::new(),idCounter:0}));
@@ -123,16 +137,7 @@ pub fn run() {
             let mut quit = false;
             let resLines: Vec<String> = NarInputFacade::input(&mut nar, &received, &mut quit);
             for iLine in &resLines {
-                let mut data = global.lock().unwrap(); // unwrap to panic when it can't unlock
-                let idCounter = data.idCounter;
-                data.arr.push((idCounter, iLine.clone()));
-                data.idCounter+=1;
-
-                // limit size of data
-                let dataMaxLength = 50;
-                if data.arr.len() > dataMaxLength {
-                    data.arr = data.arr[data.arr.len()-dataMaxLength..].to_vec();
-                }
+                broadcast(&global, iLine);
             }
 
             for iLine in &resLines {
@@ -159,10 +164,7 @@ impl QHandler for QHandlerImpl {
         // print question and send answer
         let msg = "TRACE answer: ".to_owned() + &convTermToStr(&question) + "? " + &convSentenceTermPunctToStr(&answer, true);
 
-        let mut data = self.global.lock().unwrap(); // unwrap to panic when it can't unlock
-        let idCounter = data.idCounter;
-        data.arr.push((idCounter, msg.clone()));
-        data.idCounter+=1;
+        broadcast(&self.global, &msg);
     }
 }
 
-- 
2.43.0


From 1453a668529f56177314165c98a260d7663070f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:42 +0000
Subject: [PATCH 22/29] fix: same goals were added again and again, which
 crowded out the other goals

---
 src/NarGoalSystem.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index b0f41c7..3b18acd 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -267,6 +267,7 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
         // * so we have to find the group with the same term if the group exists and add it there or
         // * add it as a new group
         
+        let mut isInGroup = false;
         { // try to search for group by e.sentence.term
             for iGroup in &mut chosenBatch.groups { // iterate over groups by term
                 if checkEqTerm(&iGroup.term, &e.read().sentence.term) { // found entry?
@@ -274,18 +275,21 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
                     e.write().accDesirability = newAcc; // update
     
                     iGroup.entries.push(Arc::clone(&e)); // add entry
-                    return;
+                    isInGroup = true;
+                    break;
                 }
             }
         }
     
-        { // case to add it as a new group
+        if !isInGroup { // case to add it as a new group
             chosenBatch.groups.push(EntryFoldedByTerm {
                     term:(*(e.read().sentence.term)).clone(),
                     entries:vec![Arc::clone(&e)],
                 }
             );
+        }
 
+        { // remember by term, every entry has to be found to be able to reject the same goal
             match goalSystem.write().entriesByTerm.get_mut(&e.read().sentence.term) {
                 Some(arr) => {
                     
@@ -293,7 +297,7 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
                     for iItem in arr.read().iter() {
                         let borrowedItem = iItem.read();
                         if checkEqTerm(&borrowedItem.sentence.term, &e.read().sentence.term) && 
-                           NarStamp::checkOverlap(&borrowedItem.sentence.stamp, &e.read().sentence.stamp) {
+                           NarStamp::checkSame(&borrowedItem.sentence.stamp, &e.read().sentence.stamp) {
                             exists = true;
                             break; // OPT
                         }
-- 
2.43.0


From fcc9f990f123c593b8a04e24d0b986419d6ad089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:20 +0000
Subject: [PATCH 23/29] fix: interactive session must end at the end of input
 and must not tear a line when a read fails

---
 src/NarInteractive.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/NarInteractive.rs b/src/NarInteractive.rs
index 630dae7..da26705 100644
--- a/src/NarInteractive.rs
+++ b/src/NarInteractive.rs
@@ -9,11 +9,15 @@ pub fn runInteractive(nar:&mut Nar) {
     let repeatLastInput = true; // repeat command by just pressing enter with empty input?
 
     let mut lastInput = "".to_string(); // used to repeat command by just pressing enter with empty input
+    let mut input2 = String::new(); // is kept over a failed read because the line may be already read partially
     loop {
-        let mut input2 = String::new();
         match io::stdin().read_line(&mut input2) {
+            Ok(0) if input2.is_empty() => {
+                break; // end of input
+            }
             Ok(_) => {
                 let mut input = input2.clone();
+                input2.clear();
                 trimNewline(&mut input);
                 
                 if repeatLastInput {
@@ -37,7 +41,12 @@ pub fn runInteractive(nar:&mut Nar) {
                     break;
                 }
             }
-            Err(error) => println!("error: {}", error),
+            Err(error) => {
+                println!("error: {}", error);
+                if error.kind() == io::ErrorKind::InvalidData {
+                    input2.clear(); // line is not valid text
+                }
+            }
         }
     }
 }
-- 
2.43.0


From 19c00f2eb04399d80f8cbc2917390cae216ef3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:20 +0000
Subject: [PATCH 24/29] fix: loading of a file must end when the file can't be
 read

---
 src/NarUtilReadn.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/NarUtilReadn.rs b/src/NarUtilReadn.rs
index 987926c..3ba932e 100644
--- a/src/NarUtilReadn.rs
+++ b/src/NarUtilReadn.rs
@@ -13,10 +13,17 @@ pub fn readNarseseFile(nar: &mut Nar, path:&String, quit:&mut bool) {
     if let Ok(lines) = read_lines(path) {
         // Consumes the iterator, returns an (Optional) String
         for line in lines {
-            if let Ok(line2) = line {
-                NarInputFacade::input(nar, &line2, quit); // pass line into facade
-                if *quit {
-                    break; // break reading of file because we are exiting anyways
+            match line {
+                Ok(line2) => {
+                    NarInputFacade::input(nar, &line2, quit); // pass line into facade
+                    if *quit {
+                        break; // break reading of file because we are exiting anyways
+                    }
+                },
+                Err(ref err) if err.kind() == io::ErrorKind::InvalidData => {}, // ignore line which is not valid text
+                Err(err) => { // must end because the error may never go away
+                    println!("ERR - couldn't read file {}: {}", path, err);
+                    break;
                 }
             }
         }
-- 
2.43.0


From 2a5027760802313f1fdaea0ec5e9c12e15239ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:51 +0000
Subject: [PATCH 25/29] fix: interactive session tore a line when a read failed
 inside of a character

---
 src/NarInteractive.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/NarInteractive.rs b/src/NarInteractive.rs
index da26705..e60128c 100644
--- a/src/NarInteractive.rs
+++ b/src/NarInteractive.rs
@@ -1,6 +1,7 @@
 // interactive NAR
 
 use std::io;
+use std::io::BufRead;
 use crate::Nar::*;
 use crate::NarInputFacade;
 
@@ -9,15 +10,23 @@ pub fn runInteractive(nar:&mut Nar) {
     let repeatLastInput = true; // repeat command by just pressing enter with empty input?
 
     let mut lastInput = "".to_string(); // used to repeat command by just pressing enter with empty input
-    let mut input2 = String::new(); // is kept over a failed read because the line may be already read partially
+    let mut input2: Vec<u8> = Vec::new(); // is kept over a failed read because the line may be already read partially
     loop {
-        match io::stdin().read_line(&mut input2) {
+        let res = io::stdin().lock().read_until(b'\n', &mut input2);
+        match res {
             Ok(0) if input2.is_empty() => {
                 break; // end of input
             }
             Ok(_) => {
-                let mut input = input2.clone();
+                let line = String::from_utf8(input2.clone());
                 input2.clear();
+                let mut input = match line {
+                    Ok(line) => line,
+                    Err(error) => { // line is not valid text
+                        println!("error: {}", error);
+                        continue;
+                    }
+                };
                 trimNewline(&mut input);
                 
                 if repeatLastInput {
@@ -41,12 +50,7 @@ pub fn runInteractive(nar:&mut Nar) {
                     break;
                 }
             }
-            Err(error) => {
-                println!("error: {}", error);
-                if error.kind() == io::ErrorKind::InvalidData {
-                    input2.clear(); // line is not valid text
-                }
-            }
+            Err(error) => println!("error: {}", error),
         }
     }
 }
-- 
2.43.0


From 7e11c1b215865432fdda0d11f5a65e665beb76f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:00 +0000
Subject: [PATCH 26/29] fix: chaos environment panicked because the declarative
 memory was not passed to the procedural reasoner

---
 src/ProcChaosEntry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProcChaosEntry.rs b/src/ProcChaosEntry.rs
index 218c733..5ae621e 100644
--- a/src/ProcChaosEntry.rs
+++ b/src/ProcChaosEntry.rs
@@ -39,7 +39,7 @@ pub fn procChaosEntry() {
 
         nar.procNar.trace.event_happened( Rc::new(NarProc::SimpleSentence {name:Term::Name(format!("{}",t)),evi:nar.procNar.t,occT:nar.procNar.t}) );
 
-        NarProc::narStep1(&mut nar.procNar, &None);
+        NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
         
         
         
-- 
2.43.0


From a854d8f5381dfb75420d1a1c08462fa5533310ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:22 +0000
Subject: [PATCH 27/29] hook: short training under cfg(narsim) for simulation
 of storing of the network

---
 src/ModNlpA.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ModNlpA.rs b/src/ModNlpA.rs
index 9a0c0f7..c9d55dc 100644
--- a/src/ModNlpA.rs
+++ b/src/ModNlpA.rs
@@ -473,7 +473,10 @@ pub fn train() {
         //let pieces_of_compute = 120; // worked fine
         let pieces_of_compute = 90; //90; // smaller training for testing
 
-        let epoch_max:i64 = 5000000*pieces_of_compute; // how many epochs do we train?
+        let mut epoch_max:i64 = 5000000*pieces_of_compute; // how many epochs do we train?
+        if cfg!(narsim) { // hook: simulation trains only shortly
+            epoch_max = std::env::var("NARSIM_EPOCHS").ok().and_then(|iv| iv.parse().ok()).unwrap_or(0);
+        }
 
         for i_epoch in 0..epoch_max {
             if i_epoch == epoch_max/5 { // 1/5 of compute reached?
-- 
2.43.0


From 961246d9d55bce91e04bd8b836ce0306cbfcfe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:26 +0000
Subject: [PATCH 28/29] fix: loading of the network must reject a file with an
 absurd number of layers or neurons

---
 src/ModNlpA.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ModNlpA.rs b/src/ModNlpA.rs
index c9d55dc..78e0b30 100644
--- a/src/ModNlpA.rs
+++ b/src/ModNlpA.rs
@@ -120,6 +120,9 @@ fn nn_load() -> Result<(NeuralNetwork)> {
             n_layers = i_val?;
         }
     }
+    if n_layers < 0 || n_layers > 10 { // must check because the file may not contain a NN
+        return Err(rusqlite::Error::IntegralValueOutOfRange(0, n_layers));
+    }
     n_layers += 1;
 
     for i_idx_layer in 0..n_layers {
@@ -134,6 +137,9 @@ fn nn_load() -> Result<(NeuralNetwork)> {
                 n_neurons = i_val?;
             }
         }
+        if n_neurons < 0 || n_neurons > 1000 { // must check because the file may not contain a NN
+            return Err(rusqlite::Error::IntegralValueOutOfRange(0, n_neurons));
+        }
         n_neurons += 1;
 
         let mut this_layer: Layer = Layer{neurons:vec![]};
-- 
2.43.0


From c7f0ae43aad13ddb6a012f604877d127225b17bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:56 +0000
Subject: [PATCH 29/29] fix: sampling of goals always took the last goal of a
 group which isn't the first one

---
 src/NarGoalSystem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index 3b18acd..141310f 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -562,7 +562,7 @@ pub fn sample(goalSystem: &GoalSystem, rng: &mut rand::rngs::ThreadRng) -> Optio
         if des2+sum > selPriority { // is the range of the selection inside this "group"?
 
             use crate::BinSearch::binSearch;
-            let selEntry3: Arc<RwLock<Entry>> = binSearch(&iv.entries, selPriority);
+            let selEntry3: Arc<RwLock<Entry>> = binSearch(&iv.entries, selPriority-sum); // relative to the group because accDesirability is
             let selEntry2 = selEntry3.read();
             selEntry = Some((Arc::clone(&selEntry2.sentence), selEntry2.depth));
             break;
-- 
2.43.0

