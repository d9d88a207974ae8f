From 5b67dc451dc8d6f6560b5a03b3fec708ebf87c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 01/31] fix: keep every pivot of a BSR string, so that no
 derivation is lost

---
 gen/golang/gll/bsr/bsr.go | 64 +++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 20 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index f80fa28..083df03 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -72,7 +72,7 @@ Set contains the set of Binary Subtree Representations (BSR).
 type Set struct {
     slotEntries   map[BSR]bool
     ntSlotEntries map[ntSlot][]BSR
-    stringEntries map[stringKey]*stringBSR
+    stringEntries map[stringKey][]*stringBSR
     rightExtent   int
     lex           *lexer.Lexer
 
@@ -113,7 +113,7 @@ func New(startSymbol symbols.NT, l *lexer.Lexer) *Set {
     return &Set{
         slotEntries:   make(map[BSR]bool),
         ntSlotEntries: make(map[ntSlot][]BSR),
-        stringEntries: make(map[stringKey]*stringBSR),
+        stringEntries: make(map[stringKey][]*stringBSR),
         rightExtent:   0,
         lex:           l,
         startSym:      startSymbol,
@@ -213,9 +213,11 @@ func (s *Set) GetRoots() (roots []BSR) {
 // GetAllStrings returns all string elements with symbols = str,
 // left extent = lext and right extent = rext
 func (s *Set) GetAllStrings(str symbols.Symbols, lext, rext int) (strs []*stringBSR) {
-    for _, s := range s.stringEntries {
-        if s.Symbols.Equal(str) && s.leftExtent == lext && s.rightExtent == rext {
-            strs = append(strs, s)
+    for _, entries := range s.stringEntries {
+        for _, s := range entries {
+            if s.Symbols.Equal(str) && s.leftExtent == lext && s.rightExtent == rext {
+                strs = append(strs, s)
+            }
         }
     }
     return
@@ -234,19 +236,21 @@ func (s *Set) getNTBSRs() BSRs {
 
 func (s *Set) getStringBSRs() stringBSRs {
     bsrs := make(stringBSRs, 0, len(s.stringEntries))
-    for _, bsr := range s.stringEntries {
-        bsrs = append(bsrs, bsr)
+    for _, entries := range s.stringEntries {
+        bsrs = append(bsrs, entries...)
     }
     sort.Sort(bsrs)
     return bsrs
 }
 
-func (s *Set) getString(symbols symbols.Symbols, leftExtent, rightExtent int) *stringBSR {
-    // fmt.Printf("Set.getString(%s,%d,%d)\n", symbols, leftExtent, rightExtent)
+// getStrings returns the string BSRs of symbols with the given extents: one for
+// each pivot.
+func (s *Set) getStrings(symbols symbols.Symbols, leftExtent, rightExtent int) []*stringBSR {
+    // fmt.Printf("Set.getStrings(%s,%d,%d)\n", symbols, leftExtent, rightExtent)
 
-    strBsr, exist := s.stringEntries[getStringKey(symbols, leftExtent, rightExtent)]
+    strBsrs, exist := s.stringEntries[getStringKey(symbols, leftExtent, rightExtent)]
     if exist {
-        return strBsr
+        return strBsrs
     }
 
     panic(fmt.Sprintf("Error: no string %s left extent=%d right extent=%d\n",
@@ -263,7 +267,13 @@ func (s *Set) insert(bsr bsr) {
         nt := ntSlot{b.Label.Head(), b.leftExtent, b.rightExtent}
         s.ntSlotEntries[nt] = append(s.ntSlotEntries[nt], b)
     case *stringBSR:
-        s.stringEntries[b.key()] = b
+        key := b.key()
+        for _, b1 := range s.stringEntries[key] {
+            if b1.pivot == b.pivot {
+                return
+            }
+        }
+        s.stringEntries[key] = append(s.stringEntries[key], b)
     default:
         panic(fmt.Sprintf("Invalid type %T", bsr))
     }
@@ -354,19 +364,33 @@ func (b BSR) GetNTChildrenI(i int) []BSR {
         return b.set.getNTSlot(b.Label.Symbols()[i], b.pivot, b.rightExtent)
     }
 
-    // Walk to pos i from the right
+    // Walk to pos i from the right, following every pivot of each string
     symbols := b.Label.Symbols()[:b.Label.Pos()-1]
-    str := b.set.getString(symbols, b.leftExtent, b.pivot)
+    strs := b.set.getStrings(symbols, b.leftExtent, b.pivot)
     for len(symbols) > i+1 && len(symbols) > 2 {
         symbols = symbols[:len(symbols)-1]
-        str = b.set.getString(symbols, str.leftExtent, str.pivot)
+        prefixes, pivots := []*stringBSR{}, map[int]bool{}
+        for _, str := range strs {
+            if !pivots[str.pivot] {
+                pivots[str.pivot] = true
+                prefixes = append(prefixes,
+                    b.set.getStrings(symbols, str.leftExtent, str.pivot)...)
+            }
+        }
+        strs = prefixes
     }
 
-    bsrs := []BSR{}
-    if i == 0 {
-        bsrs = b.set.getNTSlot(b.Label.Symbols()[i], str.leftExtent, str.pivot)
-    } else {
-        bsrs = b.set.getNTSlot(b.Label.Symbols()[i], str.pivot, str.rightExtent)
+    bsrs, done := []BSR{}, map[ntSlot]bool{}
+    for _, str := range strs {
+        ext := ntSlot{leftExtent: str.pivot, rightExtent: str.rightExtent}
+        if i == 0 {
+            ext = ntSlot{leftExtent: str.leftExtent, rightExtent: str.pivot}
+        }
+        if !done[ext] {
+            done[ext] = true
+            bsrs = append(bsrs,
+                b.set.getNTSlot(b.Label.Symbols()[i], ext.leftExtent, ext.rightExtent)...)
+        }
     }
 
     // fmt.Println(bsrs)
-- 
2.43.0


From f0e76209e19e00d1e5b6d688f9838f6c67d0da4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:43 +0000
Subject: [PATCH 02/31] fix: record each BSR of a non-terminal once

---
 gen/golang/gll/bsr/bsr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index 083df03..71abdc3 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -263,6 +263,9 @@ func (s *Set) insert(bsr bsr) {
     }
     switch b := bsr.(type) {
     case BSR:
+        if s.slotEntries[b] {
+            return
+        }
         s.slotEntries[b] = true
         nt := ntSlot{b.Label.Head(), b.leftExtent, b.rightExtent}
         s.ntSlotEntries[nt] = append(s.ntSlotEntries[nt], b)
-- 
2.43.0


From 5aa0fd5f9bcacea8d65aa45190b6996fcbd708a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 03/31] fix: ToSPPF must not overwrite the symbols of grammar
 slots

---
 gen/golang/gll/bsr/bsr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index 71abdc3..bf6373a 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -653,7 +653,8 @@ func (pf *Set) ToSPPF() *sppf.SymbolNode {
                 // for each (α,i,k, j)∈Υ { mkPN(X ::=α·δ,i,k, j,G) } } } }
                 alpha, delta := in.Body[:in.Pos], in.Body[in.Pos:]
                 for _, str := range pf.GetAllStrings(alpha, in.Lext, in.Rext) {
-                    body := append(str.Symbols, delta...)
+                    // Do not append to str.Symbols, which is a slice of the grammar slot's symbols
+                    body := append(append(symbols.Symbols{}, str.Symbols...), delta...)
                     in.Children = append(in.Children,
                         bld.mkPN(in.NT, body, in.Pos, str.leftExtent, str.pivot, str.rightExtent))
                 }
-- 
2.43.0


From feaed7a349b9954311bf8c664ff1ce9f8c78e99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:07 +0000
Subject: [PATCH 04/31] fix: report a parse error when only a prefix of the
 input is a sentence

---
 gen/golang/gll/parser.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gen/golang/gll/parser.go b/gen/golang/gll/parser.go
index 8f66094..43ffefe 100644
--- a/gen/golang/gll/parser.go
+++ b/gen/golang/gll/parser.go
@@ -171,6 +171,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 		}
 	}
 	if !p.bsrSet.Contain(symbols.NT_{{.StartSymbol}}, 0, m) {
+		p.incompleteParseErrors()
 		p.sortParseErrors()
 		return nil, p.parseErrors
 	}
@@ -456,6 +457,17 @@ func (p *parser) parseError(slot slot.Label, i int, expected map[token.Type]stri
 	p.parseErrors = append(p.parseErrors, pe)
 }
 
+// incompleteParseErrors adds an error for every prefix of the input, which was
+// parsed as the start symbol
+func (p *parser) incompleteParseErrors() {
+	for _, b := range p.bsrSet.GetAll() {
+		if b.Label.Head() == symbols.NT_{{.StartSymbol}} && b.LeftExtent() == 0 {
+			p.parseError(b.Label, b.RightExtent(),
+				map[token.Type]string{token.EOF: token.EOF.ID()})
+		}
+	}
+}
+
 func (p *parser) sortParseErrors() {
 	sort.Slice(p.parseErrors,
 		func(i, j int) bool {
-- 
2.43.0


From a4e7ec11f459f261479b9f33cf5b1596694ad1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:04 +0000
Subject: [PATCH 05/31] fix: propagate contexts to a fixpoint in the LR(1)
 closure

---
 lr1/states/state.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lr1/states/state.go b/lr1/states/state.go
index 25d9a13..e26ddb0 100644
--- a/lr1/states/state.go
+++ b/lr1/states/state.go
@@ -76,8 +76,9 @@ func (this *State) Closure() *State {
 				if oldCfgGrp := this.GetGroup(newCfgGrp); oldCfgGrp == nil {
 					this.Add(newCfgGrp)
 					cgList = append(cgList, newCfgGrp)
-				} else {
-					oldCfgGrp.AddContext(newCfgGrp.ContextSet.List...)
+				} else if oldCfgGrp.ContextSet.Add(newCfgGrp.ContextSet.List...) {
+					// the new context must reach the groups derived from oldCfgGrp
+					cgList = append(cgList, oldCfgGrp)
 				}
 			}
 		}
-- 
2.43.0


From 0bcfbe7b3df66781b6fb9bc1061a2339934221ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:40 +0000
Subject: [PATCH 06/31] fix: propagate merged contexts to all successor states
 in Pager's algorithm

A state whose context grew by a merge was not revisited, and its new
context reached only its direct successors. Weak compatibility is a
condition on each pair of items of the two states.
---
 lr1/pgm/states.go | 116 +++++++++++++---------------------------------
 1 file changed, 32 insertions(+), 84 deletions(-)

diff --git a/lr1/pgm/states.go b/lr1/pgm/states.go
index 8856541..2db954e 100644
--- a/lr1/pgm/states.go
+++ b/lr1/pgm/states.go
@@ -13,23 +13,22 @@ func States(symbols []string, lr0items *items.Items, first *first.First) *states
 	}
 	s.NewState0(symbols, lr0items, first, states.NewConfigGroup(lr0items.List[0], "$"))
 	symSuccessors := symbolsuccessors.NewSymbolSuccessors()
-	for si := 0; si < len(s.List); si++ {
+	// The states whose transitions must be (re)computed
+	for pending := []*states.State{s.List[0]}; len(pending) > 0; {
+		state := pending[0]
+		pending = pending[1:]
 		st_trans := make([]states.Transition, 0, 4)
-		for _, trans := range s.List[si].Next().List() {
+		for _, trans := range state.Next().List() {
 			merged := false
 			for _, snum := range symSuccessors[trans.Sym] {
 				if weaklyCompatibleStates(s.List[snum], trans.State) {
 					merged = true
-					newStates := mergeStates(s.List[snum], trans.State)
-					for sym, states := range newStates {
-						for _, state := range states {
-							s.List = append(s.List, state)
-							state.Number = len(s.List) - 1
-							symSuccessors[sym] = append(symSuccessors[sym], state.Number)
-						}
+					if mergeStates(s.List[snum], trans.State) {
+						// The new context must be propagated to the successors
+						pending = append(pending, s.List[snum])
 					}
-
 					st_trans = append(st_trans, states.Transition{Sym: trans.Sym, State: s.List[snum]})
+					break
 				}
 			}
 			if !merged {
@@ -37,67 +36,22 @@ func States(symbols []string, lr0items *items.Items, first *first.First) *states
 				s.List = append(s.List, trans.State)
 				trans.State.Number = len(s.List) - 1
 				symSuccessors[trans.Sym] = append(symSuccessors[trans.Sym], trans.State.Number)
+				pending = append(pending, trans.State)
 			}
 		}
-		s.List[si].Transitions = states.NewTransitionsList(st_trans, symbols)
+		state.Transitions = states.NewTransitionsList(st_trans, symbols)
 	}
 	// s.GenActions()
 	return s
 }
 
-func makeContext(from *states.ConfigGroupSet, to *states.ConfigGroupSet) *states.ConfigGroupSet {
-	newNucleus := to.CloneFromCore()
-	for _, cfg := range from.List() {
-		if toCfg := newNucleus.GetGroupByCore(cfg.Item.NextItem); toCfg != nil {
-			toCfg.AddContext(cfg.ContextSet.List...)
-		}
-	}
-	return newNucleus
-}
-
-func mergeStates(this *states.State, that *states.State) (newStates map[string][]*states.State) {
-	oldNucleus := this.Nucleus.Clone()
-	mergeCfgGrpSet(this.Nucleus, that.Nucleus)
-	this.NonNucleus = states.NewConfigGroupSet()
-	this.Closure()
-	cfgDiff := this.Nucleus.ContextDiff(oldNucleus)
-	cfgDiff.Add(this.NonNucleus.List()...)
-	return propagateContext(this, cfgDiff)
-}
-
 /*
-The context of all config groups in that, which give context to the nucleus group of this,
-is merged into the nucleus of this.
+Merge the contexts of that into this. Return true iff this has new context.
 */
-func mergeContext(this *states.State, thatNucleus *states.ConfigGroupSet) {
-	for _, grp := range thatNucleus.List() {
-		this.Nucleus.GetGroup(grp).AddContext(grp.ContextSet.List...)
-	}
-	this.NonNucleus = states.NewConfigGroupSet()
-	this.Closure()
-}
-
-/*
-Return a map of (symbol:*states.State) of newly generated states. Each new state has minus the same number as the one it replaces.
-For example: The existing set has number 10 and the new state -10. The caller of this function must resolve
-the state numbers as other sets may still have valid transitions to the original.
-*/
-func propagateContext(this *states.State, expandedNucleusCfGrps *states.ConfigGroupSet) (newStates map[string][]*states.State) {
-	newStates = make(map[string][]*states.State)
-	if this.Transitions == nil {
-		return
-	}
-	for _, t := range this.Transitions.List() {
-		sym, nextState := t.Sym, t.State
-		newNucleus := makeContext(expandedNucleusCfGrps, nextState.Nucleus)
-		if weaklyCompatibleCfgGrpSet(nextState.Nucleus, newNucleus) {
-			mergeContext(nextState, newNucleus)
-		} else {
-			newState := this.NextSymbol(sym)
-			newState.Number = -nextState.Number
-			this.Transitions.Replace(sym, newState)
-			newStates[sym] = append(newStates[sym], newState)
-		}
+func mergeStates(this *states.State, that *states.State) (newContext bool) {
+	if newContext = mergeCfgGrpSet(this.Nucleus, that.Nucleus); newContext {
+		this.NonNucleus = states.NewConfigGroupSet()
+		this.Closure()
 	}
 	return
 }
@@ -106,28 +60,29 @@ func weaklyCompatibleStates(this *states.State, that *states.State) bool {
 	return weaklyCompatibleCfgGrpSet(this.Nucleus, that.Nucleus)
 }
 
-func mergeCfgGrpSet(this *states.ConfigGroupSet, that *states.ConfigGroupSet) {
+func mergeCfgGrpSet(this *states.ConfigGroupSet, that *states.ConfigGroupSet) (newContext bool) {
 	for _, cfGrp := range this.List() {
-		if diffContext := that.GetGroup(cfGrp).ContextSet.Diff(cfGrp.ContextSet); diffContext.Size() > 0 {
-			cfGrp.ContextSet.Add(diffContext.List...)
+		if cfGrp.ContextSet.Add(that.GetGroup(cfGrp).ContextSet.List...) {
+			newContext = true
 		}
 	}
+	return
 }
 
+/*
+Two sets with the same core are weakly compatible iff every pair of items has disjoint contexts
+across the two sets, or overlapping contexts in one of the sets.
+*/
 func weaklyCompatibleCfgGrpSet(this *states.ConfigGroupSet, that *states.ConfigGroupSet) bool {
 	if !this.CoreEqual(that) {
 		return false
 	}
-	if contextMutuallyDisjunct(this, that) {
-		return true
-	}
-	return !contextInternallyDisjunct(this) || !contextInternallyDisjunct(that)
-}
-
-func contextMutuallyDisjunct(this *states.ConfigGroupSet, that *states.ConfigGroupSet) bool {
-	for _, thisCfgGrp := range this.List() {
-		for _, thatCfgGrp := range that.List() {
-			if thisCfgGrp.HashKey() != thatCfgGrp.HashKey() && len(thisCfgGrp.ContextSet.Intersection(thatCfgGrp.ContextSet)) > 0 {
+	for i, thisI := range this.List() {
+		thatI := that.GetGroup(thisI)
+		for _, thisJ := range this.List()[i+1:] {
+			thatJ := that.GetGroup(thisJ)
+			if (overlap(thisI, thatJ) || overlap(thatI, thisJ)) &&
+				!overlap(thisI, thisJ) && !overlap(thatI, thatJ) {
 				return false
 			}
 		}
@@ -135,13 +90,6 @@ func contextMutuallyDisjunct(this *states.ConfigGroupSet, that *states.ConfigGro
 	return true
 }
 
-func contextInternallyDisjunct(this *states.ConfigGroupSet) bool {
-	for i := 0; i < len(this.List())-1; i++ {
-		for j := i + 1; j < len(this.List()); j++ {
-			if len(this.List()[i].ContextSet.Intersection(this.List()[j].ContextSet)) > 0 {
-				return false
-			}
-		}
-	}
-	return true
+func overlap(this *states.ConfigGroup, that *states.ConfigGroup) bool {
+	return len(this.ContextSet.Intersection(that.ContextSet)) > 0
 }
-- 
2.43.0


From bb3aad145acfffd7543a9d8286c1be0f4eb3fb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 07/31] fix: report a conflict between accept and reduce
 instead of panicking

---
 lr1/action/action.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lr1/action/action.go b/lr1/action/action.go
index 3bdc614..2945fec 100644
--- a/lr1/action/action.go
+++ b/lr1/action/action.go
@@ -111,10 +111,11 @@ func (this Shift) Equal(act Action) bool {
 }
 
 func (this Accept) ResolveConflict(that Action) Action {
-	if _, ok := that.(Error); ok {
+	switch that.(type) {
+	case Error, Reduce:
 		return this
 	}
-	panic(fmt.Sprintf("Cannot have LR1 conflict with Accept."))
+	panic(fmt.Sprintf("Cannot have LR1 conflict of Accept with %T.", that))
 }
 
 func (Error) ResolveConflict(that Action) Action {
@@ -138,7 +139,7 @@ func (this Shift) ResolveConflict(that Action) Action {
 func (this Reduce) ResolveConflict(that Action) Action {
 	switch that := that.(type) {
 	case Accept:
-		panic(fmt.Sprintf("Impossible conflict: Shift(%d)/Accept", int(this)))
+		return that
 	case Shift:
 		return that
 	case Error:
-- 
2.43.0


From fc329483be5f53f2b594d849166414f99ee7d3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:50 +0000
Subject: [PATCH 08/31] fix: say that LR(1) conflicts were resolved when they
 were, and only then

---
 lr1/gen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lr1/gen.go b/lr1/gen.go
index ac75b73..092cd01 100644
--- a/lr1/gen.go
+++ b/lr1/gen.go
@@ -52,12 +52,12 @@ func Gen(g *ast.GoGLL) ([]*basicprod.Production, *states.States, action.Actions)
 
 func handleConflicts(conflicts [][]*action.Conflict, states *states.States) {
 	if numConflicts(conflicts) > 0 {
-		fmt.Printf("%d LR(1) conflicts. See LR1_conflicts.txt", numConflicts(conflicts))
+		fmt.Printf("%d LR(1) conflicts. See LR1_conflicts.txt\n", numConflicts(conflicts))
 		writeConflicts(conflicts)
 		if !*cfg.AutoResolveLRConf {
-			fmt.Println("LR(1) conflicts were automatically resolved")
 			os.Exit(1)
 		}
+		fmt.Println("LR(1) conflicts were automatically resolved")
 	}
 }
 
-- 
2.43.0


From 0f52cc27f03c3347880b30d64cccce4ea7ab72b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:48 +0000
Subject: [PATCH 09/31] fix: terminate when a repeated lexical group contains a
 nullable one

---
 lex/item/item.go | 73 ++++++++++++++++++++++++++++--------------------
 1 file changed, 42 insertions(+), 31 deletions(-)

diff --git a/lex/item/item.go b/lex/item/item.go
index b18b9e3..c8357d9 100644
--- a/lex/item/item.go
+++ b/lex/item/item.go
@@ -100,45 +100,56 @@ func (i *Item) Clone() *Item {
 func (i *Item) Emoves() []*Item {
 	// fmt.Println("Emoves:", i)
 
-	after := []*Item{i}
-	for changed := true; changed; {
-		// fmt.Println(" Again")
-		before := after
-		after = []*Item{}
-		changed = false
-		for _, item := range before {
-			// fmt.Println("  ", item)
-
-			switch {
-			case item.atBeforeBracket():
-				for j := range item.Symbol().(*ast.LexBracket).Alternates {
-					item1 := &Item{
-						Rule: item.Rule,
-						Pos:  item.Pos.Clone().Push(j).Push(0),
-					}
-					after = append(after, item1)
-					switch item1.getCurrentBracket().Type {
-					case ast.LexOptional, ast.LexZeroOrMore:
-						after = append(after, item1.afterCurrentBracket())
-					}
+	after := []*Item{}
+	// pending contains every item reached, each one once: the brackets of a
+	// nullable expression inside a repeated one lead back to themselves.
+	pending := []*Item{i}
+	add := func(items ...*Item) {
+		for _, item := range items {
+			if !contain(pending, item) {
+				pending = append(pending, item)
+			}
+		}
+	}
+	for j := 0; j < len(pending); j++ {
+		item := pending[j]
+		// fmt.Println("  ", item)
+
+		switch {
+		case item.atBeforeBracket():
+			for j := range item.Symbol().(*ast.LexBracket).Alternates {
+				item1 := &Item{
+					Rule: item.Rule,
+					Pos:  item.Pos.Clone().Push(j).Push(0),
 				}
-				changed = true
-			case item.atEndOfBracket():
-				switch item.getCurrentBracket().Type {
-				case ast.LexZeroOrMore, ast.LexOneOrMore:
-					after = append(after, item.beforeCurrentBracket())
+				add(item1)
+				switch item1.getCurrentBracket().Type {
+				case ast.LexOptional, ast.LexZeroOrMore:
+					add(item1.afterCurrentBracket())
 				}
-				after = append(after, item.afterCurrentBracket())
-				changed = true
-			default:
-				after = append(after, item)
 			}
+		case item.atEndOfBracket():
+			switch item.getCurrentBracket().Type {
+			case ast.LexZeroOrMore, ast.LexOneOrMore:
+				add(item.beforeCurrentBracket())
+			}
+			add(item.afterCurrentBracket())
+		default:
+			after = append(after, item)
 		}
 	}
 	return after
 }
 
-// Equal is true if i and other have the same rule and position.
+func contain(items []*Item, item *Item) bool {
+	for _, item1 := range items {
+		if item1.Equal(item) {
+			return true
+		}
+	}
+	return false
+}
+
 func (i *Item) Equal(other *Item) bool {
 	return i.Rule.ID() == other.Rule.ID() &&
 		i.Pos.Equal(other.Pos)
-- 
2.43.0


From f9cae616833e51273309f4eb129e0c63b2c85333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:17 +0000
Subject: [PATCH 10/31] fix: lexer events for overlapping character classes are
 exclusive and complete

---
 ast/lex.go                |  36 ++++
 gen/golang/lexer/lexer.go |   7 +
 gen/rust/lexer/lexer.go   |   7 +
 lex/items/event/event.go  | 419 ++++++++++++++++----------------------
 lex/items/items.go        |   4 +-
 5 files changed, 224 insertions(+), 249 deletions(-)

diff --git a/ast/lex.go b/ast/lex.go
index 6fc4c8d..fd62aed 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -56,6 +56,12 @@ type CharLiteral struct {
 	Literal []rune
 }
 
+// Intersection matches the characters that match all of Symbols. It does not
+// occur in a grammar but as the event of a transition of the lexer FSA.
+type Intersection struct {
+	Symbols []LexBase
+}
+
 type LexBracket struct {
 	leftBracket *token.Token
 	Type        BracketType
@@ -80,6 +86,7 @@ type LexBase interface {
 func (*Any) isLexBase()          {}
 func (*AnyOf) isLexBase()        {}
 func (*CharLiteral) isLexBase()  {}
+func (*Intersection) isLexBase() {}
 func (*Not) isLexBase()          {}
 func (*UnicodeClass) isLexBase() {}
 func (*UnicodeSet) isLexBase()   {}
@@ -99,6 +106,7 @@ type LexSymbol interface {
 func (*Any) isLexSymbol()          {}
 func (*AnyOf) isLexSymbol()        {}
 func (*CharLiteral) isLexSymbol()  {}
+func (*Intersection) isLexSymbol() {}
 func (*LexBracket) isLexSymbol()   {}
 func (*Not) isLexSymbol()          {}
 func (*UnicodeClass) isLexSymbol() {}
@@ -230,6 +238,34 @@ func (c *CharLiteral) Lext() int {
 	return c.tok.Lext()
 }
 
+func (i *Intersection) Equal(other LexBase) bool {
+	i1, ok := other.(*Intersection)
+	if !ok || len(i.Symbols) != len(i1.Symbols) {
+		return false
+	}
+	for j, sym := range i.Symbols {
+		if !sym.Equal(i1.Symbols[j]) {
+			return false
+		}
+	}
+	return true
+}
+
+func (i *Intersection) Lext() int {
+	return i.Symbols[0].Lext()
+}
+
+func (i *Intersection) String() string {
+	w := new(bytes.Buffer)
+	for j, sym := range i.Symbols {
+		if j > 0 {
+			fmt.Fprint(w, " & ")
+		}
+		fmt.Fprint(w, sym)
+	}
+	return w.String()
+}
+
 func (l *LexBracket) LeftBracket() string {
 	switch l.Type {
 	case LexGroup:
diff --git a/gen/golang/lexer/lexer.go b/gen/golang/lexer/lexer.go
index 038e9ce..07185b9 100644
--- a/gen/golang/lexer/lexer.go
+++ b/gen/golang/lexer/lexer.go
@@ -21,6 +21,7 @@ import (
 	"bytes"
 	"fmt"
 	"path/filepath"
+	"strings"
 	"text/template"
 
 	"github.com/goccmack/gogll/v3/ast"
@@ -112,6 +113,12 @@ func getCondition(event ast.LexBase) string {
 			return "r == '\\''"
 		}
 		return fmt.Sprintf("r == %s", cstr)
+	case *ast.Intersection:
+		conds := make([]string, len(e.Symbols))
+		for i, sym := range e.Symbols {
+			conds[i] = getCondition(sym)
+		}
+		return strings.Join(conds, " && ")
 	case *ast.Not:
 		return fmt.Sprintf("not(r, %s)", e.Set)
 	case *ast.UnicodeClass:
diff --git a/gen/rust/lexer/lexer.go b/gen/rust/lexer/lexer.go
index 7c71543..4bc28e8 100644
--- a/gen/rust/lexer/lexer.go
+++ b/gen/rust/lexer/lexer.go
@@ -20,6 +20,7 @@ package lexer
 import (
 	"bytes"
 	"fmt"
+	"strings"
 	"text/template"
 
 	"github.com/goccmack/gogll/v3/ast"
@@ -108,6 +109,12 @@ func getCondition(event ast.LexBase) string {
 		return fmt.Sprintf("any(c, %s)", toSlice(e.Set))
 	case *ast.CharLiteral:
 		return fmt.Sprintf("c == %s", string(e.Literal))
+	case *ast.Intersection:
+		conds := make([]string, len(e.Symbols))
+		for i, sym := range e.Symbols {
+			conds[i] = getCondition(sym)
+		}
+		return strings.Join(conds, " && ")
 	case *ast.Not:
 		return fmt.Sprintf("not(c, %s)", toSlice(e.Set))
 	case *ast.UnicodeClass:
diff --git a/lex/items/event/event.go b/lex/items/event/event.go
index eefc68e..11c10b3 100644
--- a/lex/items/event/event.go
+++ b/lex/items/event/event.go
@@ -20,292 +20,230 @@ Package event implements the events that cause transitions between FSA states.
 * Unicode classes: number, letter, upcase, lowcase, space
 * Ranges: any, anyof, not
 * CharLit
+
+The events of an item set may overlap, e.g. letter and any "aé1". The transitions
+of an FSA state have to be exclusive. Therefore an Event is a combination of the
+symbols after the place markers of the items: it occurs for the characters that
+match exactly those symbols.
 */
 package event
 
 import (
 	"fmt"
-	"os"
 	"sort"
+	"strings"
 	"unicode"
 
 	"github.com/goccmack/gogll/v3/ast"
 	"github.com/goccmack/gogll/v3/lex/item"
-	"github.com/goccmack/gogll/v3/util/runeset"
 )
 
-// TriState has range: {True, False, Undefined}
-type TriState int
-
-const (
-	// Undefined is a TriState value
-	Undefined TriState = iota
-	// False is a TriState value
-	False
-	// True is a TriState value
-	True
-)
+// Event causes the transition to the next FSA state.
+type Event struct {
+	// Condition is true for all characters that match Symbols.
+	Condition ast.LexBase
+	symbols   []ast.LexBase
+}
 
-type eventPair struct {
-	a, b ast.LexBase
+// Includes returns true iff symbol matches the characters of e
+func (e *Event) Includes(symbol ast.LexBase) bool {
+	return contains(e.symbols, symbol)
 }
 
 // GetOrdered returns the set of unique transition events for items, ordered
-// by the event precedence.
-func GetOrdered(items ...*item.Item) (events []ast.LexBase) {
-	events = getEvents(items...)
-	incompatibleEvents := []eventPair{}
-	for i := 0; i < len(events)-1; i++ {
-		for j := i + 1; j < len(events); j++ {
-			if Subset(events[i], events[j]) == Undefined &&
-				Subset(events[j], events[i]) == Undefined {
-				incompatibleEvents = append(incompatibleEvents,
-					eventPair{events[i], events[j]})
-			}
-		}
+// by the event precedence: an event with more symbols comes first. Therefore
+// the first event, of which the condition is true for a character, contains
+// all the symbols matching that character.
+func GetOrdered(items ...*item.Item) (events []*Event) {
+	symbols := getSymbols(items...)
+	samples := getSamples(symbols)
+
+	matches := make([]string, len(samples))
+	done := make(map[string]bool)
+	ms := getMatchers(symbols)
+	for i, r := range samples {
+		matches[i] = getMatch(ms, r)
 	}
-	if len(incompatibleEvents) > 0 {
-		fail(items, incompatibleEvents)
+	for _, m := range matches {
+		if !done[m] && strings.Contains(m, "1") {
+			done[m] = true
+			events = append(events, newEvent(symbols, m, matches))
+		}
 	}
-	sortEvents(events)
+	sort.SliceStable(events, func(i, j int) bool {
+		return len(events[i].symbols) > len(events[j].symbols)
+	})
 	return
 }
 
-// Subset returns True if a is a subset of b, False if a is not a subset of b,
-// and Undefined if the subset relationship is not defined between a and b
-func Subset(a, b ast.LexBase) TriState {
-	switch a1 := a.(type) {
-	case *ast.Any:
-		_, ok := b.(*ast.Any)
-		return toTriState(ok)
-
-	case *ast.AnyOf:
-		switch b1 := b.(type) {
-		case *ast.Any:
-			return True
-		case *ast.AnyOf:
-			return toTriState(a1.Set.Subset(b1.Set))
-		case *ast.CharLiteral:
-			return toTriState(a1.Set.Contains(b1.Char()))
-		case *ast.Not:
-			return toTriState(!a1.Set.Subset(b1.Set))
-		case *ast.UnicodeClass:
-			return toTriState(unicodeClassContains(b1, a1.Set.Elements()...))
-		case *ast.UnicodeSet:
-			return toTriState(b1.ContainsRunes(a1.Set.Elements()...))
-		default:
-			panic("Invalid")
-		}
-
-	case *ast.CharLiteral:
-		switch b1 := b.(type) {
-		case *ast.Any:
-			return True
-		case *ast.AnyOf:
-			return toTriState(b1.Set.Contains(a1.Char()))
-		case *ast.CharLiteral:
-			return toTriState(a1.Char() == b1.Char())
-		case *ast.Not:
-			return toTriState(!b1.Set.Contains(a1.Char()))
-		case *ast.UnicodeClass:
-			return toTriState(unicodeClassContains(b1, a1.Char()))
-		case *ast.UnicodeSet:
-			return toTriState(b1.ContainsRune(a1.Char()))
-		default:
-			panic("Invalid")
-		}
-
-	case *ast.Not:
-		switch b1 := b.(type) {
-		case *ast.Any:
-			return True
-		case *ast.AnyOf:
-			return Undefined
-		case *ast.CharLiteral:
-			return False
-		case *ast.Not:
-			return toTriState(b1.Set.Subset(a1.Set))
-		case *ast.UnicodeClass:
-			return Undefined
-		case *ast.UnicodeSet:
-			return Undefined
-		default:
-			panic("Invalid")
-		}
-
-	case *ast.UnicodeClass:
-		switch b1 := b.(type) {
-		case *ast.Any:
-			return True
-		case *ast.AnyOf:
-			return Undefined
-		case *ast.CharLiteral:
-			return False
-		case *ast.Not:
-			return False
-		case *ast.UnicodeClass:
-			return toTriState(a1.Type == b1.Type ||
-				(b1.Type == ast.Letter && (a1.Type == ast.Lowcase || a1.Type == ast.Upcase)))
-		case *ast.UnicodeSet:
-			return toTriState(b1.ContainsClass(a1))
-		default:
-			panic("Invalid")
+func newEvent(symbols []ast.LexBase, match string, matches []string) *Event {
+	e := &Event{}
+	conds := []ast.LexBase{}
+	for i, sym := range symbols {
+		if match[i] == '1' {
+			e.symbols = append(e.symbols, sym)
+			if !implied(i, match, matches) {
+				conds = append(conds, sym)
+			}
 		}
+	}
+	if len(conds) == 1 {
+		e.Condition = conds[0]
+	} else {
+		e.Condition = &ast.Intersection{Symbols: conds}
+	}
+	return e
+}
 
-	case *ast.UnicodeSet:
-		switch b1 := b.(type) {
-		case *ast.Any:
-			return True
-		case *ast.AnyOf:
-			return Undefined
-		case *ast.CharLiteral:
-			return False
-		case *ast.Not:
-			return False
-		case *ast.UnicodeClass:
-			return toTriState(b1.ContainsSet(a1))
-		case *ast.UnicodeSet:
-			return toTriState(b1.ContainsSet(a1))
-		default:
-			panic("Invalid")
+// implied returns true iff another symbol of match matches a subset of the
+// characters of symbol i. Of symbols that match the same characters only the
+// last is not implied.
+func implied(i int, match string, matches []string) bool {
+	for j := range match {
+		if j != i && match[j] == '1' &&
+			subset(j, i, matches) && (j > i || !subset(i, j, matches)) {
+			return true
 		}
-
-	default:
-		panic("Invalid")
 	}
+	return false
 }
 
-func anyOf(r rune, rs *runeset.RuneSet) bool {
-	return rs.Contains(r)
+// subset returns true iff symbol i matches a subset of the characters of
+// symbol j
+func subset(i, j int, matches []string) bool {
+	for _, m := range matches {
+		if m[i] == '1' && m[j] != '1' {
+			return false
+		}
+	}
+	return true
 }
 
-func contains(events []ast.LexBase, event ast.LexBase) bool {
-	for _, ev := range events {
-		if ev.Equal(event) {
+func contains(symbols []ast.LexBase, symbol ast.LexBase) bool {
+	for _, sym := range symbols {
+		if sym.Equal(symbol) {
 			return true
 		}
 	}
 	return false
 }
 
-func getEvents(items ...*item.Item) (events []ast.LexBase) {
+func getSymbols(items ...*item.Item) (symbols []ast.LexBase) {
 	for _, item := range items {
-		event := item.Symbol()
-		if event != nil {
-			if !contains(events, event.(ast.LexBase)) {
-				events = append(events, event.(ast.LexBase))
+		symbol := item.Symbol()
+		if symbol != nil {
+			if !contains(symbols, symbol.(ast.LexBase)) {
+				symbols = append(symbols, symbol.(ast.LexBase))
 			}
 		}
 	}
 	return
 }
 
-func noneOf(r rune, rs *runeset.RuneSet) bool {
-	return !rs.Contains(r)
+// getMatch returns a string with '1' for every matcher matching r
+func getMatch(matchers []matcher, r rune) string {
+	m := make([]byte, len(matchers))
+	for i, match := range matchers {
+		m[i] = '0'
+		if match(r) {
+			m[i] = '1'
+		}
+	}
+	return string(m)
 }
 
-// sort events from most to least specific class
-func sortEvents(events []ast.LexBase) {
-	sort.Slice(events, func(i, j int) bool {
-		switch e1 := events[i].(type) {
-		case *ast.Any:
-			return false
-		case *ast.AnyOf:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return e1.Set.Subset(e2.Set)
-			case *ast.CharLiteral:
-				return e1.Set.Contains(e2.Char())
-			case *ast.Not:
-				return e1.Set.Subset(e2.Set)
-			case *ast.UnicodeClass:
-				return unicodeClassContains(e2, e1.Set.Elements()...)
-			case *ast.UnicodeSet:
-				return e2.ContainsRunes(e1.Set.Elements()...)
-			default:
-				panic("Invalid")
+// getSamples returns at least one character for every combination of symbols
+// that can match a character.
+func getSamples(symbols []ast.LexBase) (samples []rune) {
+	listed := make(map[rune]bool)
+	list := func(runes ...rune) {
+		for _, r := range runes {
+			if !listed[r] {
+				listed[r] = true
+				samples = append(samples, r)
 			}
+		}
+	}
+	classes := []ast.LexBase{}
+	for _, sym := range symbols {
+		switch s := sym.(type) {
+		case *ast.AnyOf:
+			list(s.Set.Elements()...)
 		case *ast.CharLiteral:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return true
-			case *ast.CharLiteral:
-				return e1.Char() < e2.Char()
-			case *ast.Not:
-				return true
-			case *ast.UnicodeClass:
-				return true
-			case *ast.UnicodeSet:
-				return true
-			default:
-				panic("Invalid")
-			}
+			list(s.Char())
 		case *ast.Not:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return false
-			case *ast.CharLiteral:
-				return false
-			case *ast.Not:
-				return e1.Set.Subset(e2.Set)
-			case *ast.UnicodeClass:
-				return false
-			case *ast.UnicodeSet:
-				return false
-			default:
-				panic("Invalid")
-			}
-		case *ast.UnicodeClass:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return false
-			case *ast.CharLiteral:
-				return false
-			case *ast.Not:
-				return !unicodeClassContains(e1, e2.Set.Elements()...)
-			case *ast.UnicodeClass:
-				return e2.Type == ast.Letter && (e1.Type == ast.Lowcase || e1.Type == ast.Upcase)
-			case *ast.UnicodeSet:
-				return e2.ContainsClass(e1)
-			default:
-				panic("Invalid")
-			}
-		case *ast.UnicodeSet:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return false
-			case *ast.CharLiteral:
-				return false
-			case *ast.Not:
-				return !e1.ContainsRunes(e2.Set.Elements()...)
-			case *ast.UnicodeClass:
-				return e2.ContainsSet(e1)
-			case *ast.UnicodeSet:
-				return e2.ContainsSet(e1)
-			default:
-				panic("Invalid")
+			list(s.Set.Elements()...)
+		case *ast.UnicodeClass, *ast.UnicodeSet:
+			classes = append(classes, s)
+		}
+	}
+	// The characters not listed differ only in the classes they belong to
+	for _, runes := range partition(classes) {
+		for _, r := range runes {
+			if !listed[r] {
+				samples = append(samples, r)
+				break
 			}
-		default:
-			panic("Invalid")
 		}
-	})
+	}
+	return
 }
 
-func toTriState(b bool) TriState {
-	if b {
-		return True
+// partitions caches the result of partition
+var partitions = make(map[string][][]rune)
+
+// partition divides all characters into sets belonging to the same classes
+func partition(classes []ast.LexBase) (parts [][]rune) {
+	key := fmt.Sprint(classes)
+	if parts, ok := partitions[key]; ok {
+		return parts
+	}
+	index := make(map[string]int)
+	ms := getMatchers(classes)
+	for r := rune(0); r <= unicode.MaxRune; r++ {
+		m := getMatch(ms, r)
+		i, ok := index[m]
+		if !ok {
+			i = len(parts)
+			index[m] = i
+			parts = append(parts, nil)
+		}
+		parts[i] = append(parts[i], r)
+	}
+	partitions[key] = parts
+	return
+}
+
+// A matcher returns true iff its symbol matches r
+type matcher func(r rune) bool
+
+func getMatchers(symbols []ast.LexBase) []matcher {
+	ms := make([]matcher, len(symbols))
+	for i, sym := range symbols {
+		ms[i] = getMatcher(sym)
+	}
+	return ms
+}
+
+func getMatcher(symbol ast.LexBase) matcher {
+	switch s := symbol.(type) {
+	case *ast.Any:
+		return func(r rune) bool { return true }
+	case *ast.AnyOf:
+		return s.Set.Contains
+	case *ast.CharLiteral:
+		return func(r rune) bool { return s.Char() == r }
+	case *ast.Not:
+		return func(r rune) bool { return !s.Set.Contains(r) }
+	case *ast.UnicodeClass:
+		return func(r rune) bool { return unicodeClassContains(s, r) }
+	case *ast.UnicodeSet:
+		incl, excl := s.GetRangeTables()
+		return func(r rune) bool {
+			return unicode.In(r, incl...) && !unicode.In(r, excl...)
+		}
 	}
-	return False
+	panic("Invalid")
 }
 
 func unicodeClassContains(c *ast.UnicodeClass, rs ...rune) bool {
@@ -331,16 +269,3 @@ func unicodeClassContains(c *ast.UnicodeClass, rs ...rune) bool {
 	}
 	return true
 }
-
-func fail(items []*item.Item, incomatibleEvents []eventPair) {
-	fmt.Println("Error in lexer events")
-	fmt.Println("  Set:")
-	for _, item := range items {
-		fmt.Println("    ", item)
-	}
-	fmt.Println("  Incompatible events:")
-	for _, ee := range incomatibleEvents {
-		fmt.Println("    ", ee.a, " ", ee.b)
-	}
-	os.Exit(1)
-}
diff --git a/lex/items/items.go b/lex/items/items.go
index 8b6add6..930b59b 100644
--- a/lex/items/items.go
+++ b/lex/items/items.go
@@ -176,14 +176,14 @@ func (set *Set) nextSets() (sets []*Set) {
 		newSet := &Set{}
 		for _, item := range set.set {
 			if sym := item.Symbol(); sym != nil {
-				if event.Subset(ev, sym.(ast.LexBase)) == event.True {
+				if ev.Includes(sym.(ast.LexBase)) {
 					newSet.Add(item.Next().Emoves()...)
 				}
 			}
 		}
 		set.Transitions = append(set.Transitions,
 			&Transition{
-				Event: ev,
+				Event: ev.Condition,
 				To:    newSet,
 			})
 		sets = append(sets, newSet)
-- 
2.43.0


From 57f9fefaf7b635435e2babc2733a92a263032c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:49 +0000
Subject: [PATCH 11/31] fix: two Unicode sets are equal only if each contains
 the ranges of the other

---
 ast/lex.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ast/lex.go b/ast/lex.go
index fd62aed..43736e3 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -476,6 +476,11 @@ func (u UnicodeRanges) Equal(other UnicodeRanges) bool {
 			return false
 		}
 	}
+	for _, rng := range other {
+		if !u.Contain(rng) {
+			return false
+		}
+	}
 	return true
 }
 
-- 
2.43.0


From 40567f4b8c1c3082513e7a5e6a25751be15f87ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:17 +0000
Subject: [PATCH 12/31] fix: generate the same files for the same grammar on
 every run

---
 ast/ast.go                     | 2 +-
 gen/firstfollow/firstfollow.go | 6 +++---
 lex/items/items.go             | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 0368357..8fcf0de 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -90,7 +90,7 @@ func (g *GoGLL) GetSyntaxRule(nt string) *SyntaxRule {
 }
 
 func (g *GoGLL) GetSymbols() []string {
-	return append(g.Terminals.Elements(), g.NonTerminals.Elements()...)
+	return append(g.Terminals.ElementsSorted(), g.NonTerminals.ElementsSorted()...)
 }
 
 func (g *GoGLL) StartSymbol() string {
diff --git a/gen/firstfollow/firstfollow.go b/gen/firstfollow/firstfollow.go
index 312bdf1..4fafd98 100644
--- a/gen/firstfollow/firstfollow.go
+++ b/gen/firstfollow/firstfollow.go
@@ -49,21 +49,21 @@ func genFirstSets(w io.Writer, g *ast.GoGLL, ff *frstflw.FF) {
 
 func genFirstSet(w io.Writer, symbol string, ff *frstflw.FF) {
 	fmt.Fprintf(w, "%s: ", symbol)
-	for _, s := range ff.FirstOfSymbol(symbol).Elements() {
+	for _, s := range ff.FirstOfSymbol(symbol).ElementsSorted() {
 		fmt.Fprintf(w, `%s `, s)
 	}
 	fmt.Fprintln(w)
 }
 
 func genFollowSets(w io.Writer, g *ast.GoGLL, ff *frstflw.FF) {
-	for _, s := range g.NonTerminals.Elements() {
+	for _, s := range g.NonTerminals.ElementsSorted() {
 		genFollowSet(w, s, ff)
 	}
 }
 
 func genFollowSet(w io.Writer, nt string, ff *frstflw.FF) {
 	fmt.Fprintf(w, "Follow(%s): ", nt)
-	for _, s := range ff.Follow(nt).Elements() {
+	for _, s := range ff.Follow(nt).ElementsSorted() {
 		fmt.Fprintf(w, `%s `, s)
 	}
 	fmt.Fprintln(w)
diff --git a/lex/items/items.go b/lex/items/items.go
index 930b59b..2208cca 100644
--- a/lex/items/items.go
+++ b/lex/items/items.go
@@ -218,8 +218,8 @@ func set0(g *ast.GoGLL) *Set {
 	for _, rule := range g.LexRules {
 		s0.add(item.New(rule).Emoves()...)
 	}
-	for _, sl := range g.StringLiterals {
-		s0.add(item.New(stringLitToRule(sl)))
+	for _, sl := range g.GetStringLiterals() {
+		s0.add(item.New(stringLitToRule(g.StringLiterals[sl])))
 	}
 	return s0
 }
-- 
2.43.0


From 87aa57198dd9729147bc022b161aa9148f266e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:43 +0000
Subject: [PATCH 13/31] fix: LiteralStripEscape returns a newline for \n and
 keeps a trailing backslash

---
 gen/golang/token/token.go | 4 ++--
 token/token.go            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gen/golang/token/token.go b/gen/golang/token/token.go
index 473db7e..013c87e 100644
--- a/gen/golang/token/token.go
+++ b/gen/golang/token/token.go
@@ -148,7 +148,7 @@ func (t *Token) LiteralStripEscape() []rune {
 	lit := t.Literal()
 	strip := make([]rune, 0, len(lit))
 	for i := 0; i < len(lit); i++ {
-		if lit[i] == '\\' {
+		if lit[i] == '\\' && i+1 < len(lit) {
 			i++
 			switch lit[i] {
 			case 't':
@@ -156,7 +156,7 @@ func (t *Token) LiteralStripEscape() []rune {
 			case 'r':
 				strip = append(strip, '\r')
 			case 'n':
-				strip = append(strip, '\r')
+				strip = append(strip, '\n')
 			default:
 				strip = append(strip, lit[i])
 			}
diff --git a/token/token.go b/token/token.go
index f20e796..2445015 100755
--- a/token/token.go
+++ b/token/token.go
@@ -69,7 +69,7 @@ func (t *Token) LiteralStripEscape() []rune {
 	lit := t.Literal()
 	strip := make([]rune, 0, len(lit))
 	for i := 0; i < len(lit); i++ {
-		if lit[i] == '\\' {
+		if lit[i] == '\\' && i+1 < len(lit) {
 			i++
 			switch lit[i] {
 			case 't':
@@ -77,7 +77,7 @@ func (t *Token) LiteralStripEscape() []rune {
 			case 'r':
 				strip = append(strip, '\r')
 			case 'n':
-				strip = append(strip, '\r')
+				strip = append(strip, '\n')
 			default:
 				strip = append(strip, lit[i])
 			}
-- 
2.43.0


From 4834c2129593bc20933ff25188a0a7eeb5aceae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:33 +0000
Subject: [PATCH 14/31] fix: the LR(1) parser calls the AST function of an
 empty alternate, as any other

---
 gen/golang/lr1/parser/productionstable.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/gen/golang/lr1/parser/productionstable.go b/gen/golang/lr1/parser/productionstable.go
index b9a27aa..344b644 100644
--- a/gen/golang/lr1/parser/productionstable.go
+++ b/gen/golang/lr1/parser/productionstable.go
@@ -50,16 +50,11 @@ func getProdsTab(pkg string, prods []*basicprod.Production, states *states.State
 		data.ProdTab[i].String = fmt.Sprintf("`%s`", prod.String())
 		data.ProdTab[i].Id = prod.Head
 		data.ProdTab[i].NTType = int(symbols.GetNTType(prod.Head))
-		if len(prod.Body.Symbols) == 0 {
-			data.ProdTab[i].NumSymbols = 0
-			data.ProdTab[i].ReduceFunc = fmt.Sprintf("nil, nil")
-		} else {
-			data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
-			data.ProdTab[i].ReduceFunc = fmt.Sprintf("%s%d(%s)",
-				prod.Head,
-				prod.Alternate,
-				getParamIDs(len(prod.Body.Symbols)))
-		}
+		data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
+		data.ProdTab[i].ReduceFunc = fmt.Sprintf("%s%d(%s)",
+			prod.Head,
+			prod.Alternate,
+			getParamIDs(len(prod.Body.Symbols)))
 	}
 
 	return data
-- 
2.43.0


From 2d8fd8ff9230689d8538b111a841992e1ed0cb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:24 +0000
Subject: [PATCH 15/31] fix: know the Unicode categories by all their
 documented names, and need less memory for character classes

---
 ast/lex.go               | 19 ++++++++
 lex/items/event/event.go | 93 +++++++++++++++++++++++++++++++++++-----
 2 files changed, 102 insertions(+), 10 deletions(-)

diff --git a/ast/lex.go b/ast/lex.go
index 43736e3..5cc5217 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -545,10 +545,29 @@ func rangeTableInRangeTable(a, b *unicode.RangeTable) bool {
 	return true
 }
 
+// categoryNames are the categories, which are not known by their names to
+// unicode.Categories
+var categoryNames = map[string]*unicode.RangeTable{
+	"Digit":  unicode.Digit,
+	"Letter": unicode.Letter,
+	"Lower":  unicode.Lower,
+	"Mark":   unicode.Mark,
+	"Number": unicode.Number,
+	"Other":  unicode.Other,
+	"Punct":  unicode.Punct,
+	"Space":  unicode.Space,
+	"Symbol": unicode.Symbol,
+	"Title":  unicode.Title,
+	"Upper":  unicode.Upper,
+}
+
 // GetRangeTable returns the category or property RangeTable of r
 func (u *UnicodeRange) GetRangeTable() *unicode.RangeTable {
 	switch u.Type {
 	case UnicodeCategory:
+		if tab := categoryNames[u.Range]; tab != nil {
+			return tab
+		}
 		if unicode.Categories[u.Range] == nil {
 			panic(u.Range)
 		}
diff --git a/lex/items/event/event.go b/lex/items/event/event.go
index 11c10b3..c16252b 100644
--- a/lex/items/event/event.go
+++ b/lex/items/event/event.go
@@ -178,42 +178,115 @@ func getSamples(symbols []ast.LexBase) (samples []rune) {
 		}
 	}
 	// The characters not listed differ only in the classes they belong to
-	for _, runes := range partition(classes) {
-		for _, r := range runes {
+	for _, ranges := range partition(classes) {
+		if r, ok := notListed(ranges, listed); ok {
+			samples = append(samples, r)
+		}
+	}
+	return
+}
+
+// notListed returns a character of ranges that is not listed
+func notListed(ranges []runeRange, listed map[rune]bool) (r rune, ok bool) {
+	for _, rng := range ranges {
+		for r := rng.lo; r <= rng.hi; r++ {
 			if !listed[r] {
-				samples = append(samples, r)
-				break
+				return r, true
 			}
 		}
 	}
-	return
+	return 0, false
+}
+
+type runeRange struct {
+	lo, hi rune
 }
 
 // partitions caches the result of partition
-var partitions = make(map[string][][]rune)
+var partitions = make(map[string][][]runeRange)
 
 // partition divides all characters into sets belonging to the same classes
-func partition(classes []ast.LexBase) (parts [][]rune) {
+func partition(classes []ast.LexBase) (parts [][]runeRange) {
 	key := fmt.Sprint(classes)
 	if parts, ok := partitions[key]; ok {
 		return parts
 	}
 	index := make(map[string]int)
 	ms := getMatchers(classes)
-	for r := rune(0); r <= unicode.MaxRune; r++ {
-		m := getMatch(ms, r)
+	bounds := getBounds(classes)
+	for j, lo := range bounds {
+		hi := unicode.MaxRune
+		if j+1 < len(bounds) {
+			hi = bounds[j+1] - 1
+		}
+		m := getMatch(ms, lo)
 		i, ok := index[m]
 		if !ok {
 			i = len(parts)
 			index[m] = i
 			parts = append(parts, nil)
 		}
-		parts[i] = append(parts[i], r)
+		parts[i] = append(parts[i], runeRange{lo, hi})
 	}
 	partitions[key] = parts
 	return
 }
 
+// getBounds returns the first character of every range of characters that
+// belong to the same classes, in ascending order.
+func getBounds(classes []ast.LexBase) (bounds []rune) {
+	isBound := map[rune]bool{0: true}
+	add := func(lo, hi, stride rune) {
+		if stride == 1 {
+			isBound[lo], isBound[hi+1] = true, true
+			return
+		}
+		for r := lo; r <= hi; r += stride {
+			isBound[r], isBound[r+1] = true, true
+		}
+	}
+	for _, class := range classes {
+		for _, tab := range getRangeTables(class) {
+			for _, rng := range tab.R16 {
+				add(rune(rng.Lo), rune(rng.Hi), rune(rng.Stride))
+			}
+			for _, rng := range tab.R32 {
+				add(rune(rng.Lo), rune(rng.Hi), rune(rng.Stride))
+			}
+		}
+	}
+	for r := range isBound {
+		if r <= unicode.MaxRune {
+			bounds = append(bounds, r)
+		}
+	}
+	sort.Slice(bounds, func(i, j int) bool { return bounds[i] < bounds[j] })
+	return
+}
+
+// getRangeTables returns the tables that decide which characters belong to class
+func getRangeTables(class ast.LexBase) []*unicode.RangeTable {
+	switch c := class.(type) {
+	case *ast.UnicodeClass:
+		switch c.Type {
+		case ast.Letter:
+			return []*unicode.RangeTable{unicode.Letter}
+		case ast.Upcase:
+			return []*unicode.RangeTable{unicode.Upper}
+		case ast.Lowcase:
+			return []*unicode.RangeTable{unicode.Lower}
+		case ast.Number:
+			return []*unicode.RangeTable{unicode.Number}
+		case ast.Space:
+			return []*unicode.RangeTable{unicode.White_Space}
+		}
+	case *ast.UnicodeSet:
+		incl, excl := c.GetRangeTables()
+		return append(incl, excl...)
+	}
+	panic("Invalid")
+}
+
 // A matcher returns true iff its symbol matches r
 type matcher func(r rune) bool
 
-- 
2.43.0


From 33af5fd9587e5d7f4eeb0561f7aade5f4ba1ec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:25 +0000
Subject: [PATCH 16/31] fix: recognise adjacent fences of markdown and keep
 tabs outside code blocks

---
 gen/golang/lexer/lexer.go | 13 ++++---------
 lexer/lexer.go            | 13 ++++---------
 2 files changed, 8 insertions(+), 18 deletions(-)

diff --git a/gen/golang/lexer/lexer.go b/gen/golang/lexer/lexer.go
index 07185b9..caab969 100644
--- a/gen/golang/lexer/lexer.go
+++ b/gen/golang/lexer/lexer.go
@@ -318,17 +318,12 @@ func loadMd(input []rune) {
 				input[i+j] = ' '
 			}
 			i += 3
+			continue
 		}
-		if i < len(input) {
-			if text {
-				if input[i] == '\n' {
-					input[i] = '\n'
-				} else {
-					input[i] = ' '
-				}
-			}
-			i += 1
+		if text && input[i] != '\n' && input[i] != '\t' {
+			input[i] = ' '
 		}
+		i += 1
 	}
 }
 
diff --git a/lexer/lexer.go b/lexer/lexer.go
index 5bb0edd..7d84ccb 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -146,17 +146,12 @@ func loadMd(input []rune) {
 				input[i+j] = ' '
 			}
 			i += 3
+			continue
 		}
-		if i < len(input) {
-			if text {
-				if input[i] == '\n' {
-					input[i] = '\n'
-				} else {
-					input[i] = ' '
-				}
-			}
-			i += 1
+		if text && input[i] != '\n' && input[i] != '\t' {
+			input[i] = ' '
 		}
+		i += 1
 	}
 }
 
-- 
2.43.0


From 5821c34c459e50e46623547484dce94da9beb945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 17/31] fix: an LR(1) run removes only files that gogll writes

---
 lr1/gen.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lr1/gen.go b/lr1/gen.go
index 092cd01..84507aa 100644
--- a/lr1/gen.go
+++ b/lr1/gen.go
@@ -140,11 +140,9 @@ func statesString(states *states.States, actions action.Actions) []byte {
 	return w.Bytes()
 }
 
+// removeOldFiles removes the reports written by an earlier run, and nothing else
 func removeOldFiles() {
-	os.Remove(path.Join(cfg.BaseDir, "basic_productions.txt"))
 	os.Remove(path.Join(cfg.BaseDir, "CFG_items.txt"))
-	os.Remove(path.Join(cfg.BaseDir, "CFG_symbols.txt"))
-	os.Remove(path.Join(cfg.BaseDir, "first.txt"))
 	os.Remove(path.Join(cfg.BaseDir, "LR1_states.txt"))
 	os.Remove(path.Join(cfg.BaseDir, "LR1_conflicts.txt"))
 }
-- 
2.43.0


From fe35518c56c123a591fdae1954e54241d2e5ca1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 18/31] fix: say so when the source file does not exist,
 instead of panicking

---
 cfg/cfg.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cfg/cfg.go b/cfg/cfg.go
index 710e311..b376504 100644
--- a/cfg/cfg.go
+++ b/cfg/cfg.go
@@ -96,6 +96,11 @@ func getSourceFile() {
 		fail("Source file required")
 	}
 	SrcFile = flag.Arg(0)
+	if f, err := os.Stat(SrcFile); err != nil {
+		fail(err.Error())
+	} else if f.IsDir() {
+		fail(SrcFile + " is a directory")
+	}
 }
 
 func fail(msg string) {
-- 
2.43.0


From 5053ec119c2fb191f161e27cdc902fc36e1918dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:38 +0000
Subject: [PATCH 19/31] fix: refuse a rule that is never called before writing
 any file

---
 gen/golang/gll/parser.go | 6 ++++++
 main.go                  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/gen/golang/gll/parser.go b/gen/golang/gll/parser.go
index 43ffefe..7c64394 100644
--- a/gen/golang/gll/parser.go
+++ b/gen/golang/gll/parser.go
@@ -42,6 +42,12 @@ type gen struct {
 	ff *frstflw.FF
 }
 
+// Check fails if the parser cannot be generated, before anything is
+func Check(g *ast.GoGLL, ff *frstflw.FF) {
+	gn := &gen{g: g, ff: ff}
+	gn.getFollowData()
+}
+
 func Gen(g *ast.GoGLL, gs *gslot.GSlot, ff *frstflw.FF) {
 	parserDir := path.Join(cfg.BaseDir, "parser")
 	gn := &gen{g, gs, ff}
diff --git a/main.go b/main.go
index 6b239f5..69fd0e1 100644
--- a/main.go
+++ b/main.go
@@ -82,6 +82,9 @@ func main() {
 	gs := gslot.New(g, ff)
 
 	lexSets := items.New(g)
+	if *cfg.Go && *cfg.GLL {
+		gengogll.Check(g, ff)
+	}
 	if cfg.Verbose {
 		gensymbols.Gen(g)
 		genff.Gen(g, ff)
-- 
2.43.0


From 8830b2e623ffa318f04bebd105860921558fc801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 20/31] fix: the LR(1) AST skeleton function of an empty
 alternate takes no parameters

---
 gen/golang/lr1/ast/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/golang/lr1/ast/ast.go b/gen/golang/lr1/ast/ast.go
index 71aa95c..069846a 100644
--- a/gen/golang/lr1/ast/ast.go
+++ b/gen/golang/lr1/ast/ast.go
@@ -137,7 +137,7 @@ import(
 
 {{range $bprod := .BasicProds}}{{$bp := $bprod}}
 // {{$bp.Comment}}
-func {{$bp.ID}}({{range $i, $p := $bp.Params}}{{if ne $i 0}}, {{end}}p{{$i}}{{end}} interface{})(interface{}, error){
+func {{$bp.ID}}({{range $i, $p := $bp.Params}}{{if ne $i 0}}, {{end}}p{{$i}}{{end}}{{if $bp.Params}} interface{}{{end}})(interface{}, error){
     fmt.Println("ast.{{$bprod.ID}} is unimplemented")
     return nil, nil
 }
-- 
2.43.0


From 306fea31c0456437d9eeab3e2ed4569412cdf38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 21/31] fix: LR(1) tables compile when a literal contains a
 backtick or the end of a comment

---
 gen/golang/lr1/parser/actionrow.go        | 6 +++---
 gen/golang/lr1/parser/productionstable.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gen/golang/lr1/parser/actionrow.go b/gen/golang/lr1/parser/actionrow.go
index f320ecc..8f8a101 100644
--- a/gen/golang/lr1/parser/actionrow.go
+++ b/gen/golang/lr1/parser/actionrow.go
@@ -55,11 +55,11 @@ func getActionRowData(prods []*basicprod.Production, state *states.State, action
 			var actStr string
 			switch act := actions[sym.Literal()].(type) {
 			case action.Accept:
-				actStr = fmt.Sprintf("accept(true),\t\t/* %s */", sym)
+				actStr = fmt.Sprintf("accept(true),\t\t// %s", sym)
 			case action.Reduce:
-				actStr = fmt.Sprintf("reduce(%d),\t\t/* %s, reduce: %s */", int(act), sym, prods[int(act)].Head)
+				actStr = fmt.Sprintf("reduce(%d),\t\t// %s, reduce: %s", int(act), sym, prods[int(act)].Head)
 			case action.Shift:
-				actStr = fmt.Sprintf("shift(%d),\t\t/* %s */", int(act), sym)
+				actStr = fmt.Sprintf("shift(%d),\t\t// %s", int(act), sym)
 			default:
 				panic(fmt.Sprintf("Unknown action type: %T", act))
 			}
diff --git a/gen/golang/lr1/parser/productionstable.go b/gen/golang/lr1/parser/productionstable.go
index 344b644..9db20db 100644
--- a/gen/golang/lr1/parser/productionstable.go
+++ b/gen/golang/lr1/parser/productionstable.go
@@ -47,7 +47,7 @@ func getProdsTab(pkg string, prods []*basicprod.Production, states *states.State
 		ProdTab: make([]prodTabEntry, len(prods)),
 	}
 	for i, prod := range prods {
-		data.ProdTab[i].String = fmt.Sprintf("`%s`", prod.String())
+		data.ProdTab[i].String = fmt.Sprintf("%q", prod.String())
 		data.ProdTab[i].Id = prod.Head
 		data.ProdTab[i].NTType = int(symbols.GetNTType(prod.Head))
 		data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
-- 
2.43.0


From fc1915cb10bb9873ebf12a2844d4681d0576051c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 22/31] fix: refuse a literal with any white space the lexer
 skips

---
 ast/lex.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ast/lex.go b/ast/lex.go
index 5cc5217..bb5d688 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -380,8 +380,7 @@ func (n *Not) String() string {
 
 func (sl *StringLit) ContainsWhiteSpace() bool {
 	for _, r := range sl.tok.LiteralStripEscape() {
-		switch r {
-		case ' ', '\t', '\n', '\r':
+		if unicode.IsSpace(r) {
 			return true
 		}
 	}
-- 
2.43.0


From fd2416e1c9a868dbb49b16dfdaf1217d2108423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 23/31] fix: an LR(1) error lists the tokens expected where it
 was found, also with a terminal named error

---
 gen/golang/lr1/parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gen/golang/lr1/parser/parser.go b/gen/golang/lr1/parser/parser.go
index dc82045..da40ca2 100644
--- a/gen/golang/lr1/parser/parser.go
+++ b/gen/golang/lr1/parser/parser.go
@@ -245,9 +245,10 @@ func (p *Parser) Parse() (res interface{}, err error) {
 		// fmt.Printf("S%d %s %s\n", p.stack.top(), p.nextToken, action)
 
 		if action == nil {
+			parseErr := p.newError(nil) // of the stack before recovery
 			if recovered, errAttrib := p.Error(nil); !recovered {
 				p.nextToken = errAttrib.ErrorToken
-				return nil, p.newError(nil)
+				return nil, parseErr
 			}
 			if action = actionTab[p.stack.top()].actions[p.nextToken.Type()]; action == nil {
 				panic("Error recovery led to invalid action")
-- 
2.43.0


From 9d3a5dac41f0c4f4172460cee3c36cdde9b9e771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:42 +0000
Subject: [PATCH 24/31] fix: -bs prints BSR statistics, as its help text says

---
 main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.go b/main.go
index 69fd0e1..865e305 100644
--- a/main.go
+++ b/main.go
@@ -74,6 +74,10 @@ func main() {
 		os.Exit(1)
 	}
 
+	if *cfg.BSRStats && *cfg.GLL {
+		fmt.Printf("%d BSRs\n", len(bsrSet.GetAll()))
+	}
+
 	g := ast.Build(bsrSet.GetRoot(), lex, cfg.SrcFile)
 	sc.Go(g, lex)
 	symbols.Init(g)
-- 
2.43.0


From f5e9606d93a311e53a551b20481162420d335e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 25/31] fix: generated Go code compiles when the grammar
 contains NUL or a byte order mark

---
 gen/golang/gll/parser.go                  | 5 +++--
 gen/golang/gll/slots/slots.go             | 3 ++-
 gen/golang/gll/symbols/symbols.go         | 2 +-
 gen/golang/lexer/lexer.go                 | 3 ++-
 gen/golang/lr1/ast/ast.go                 | 3 ++-
 gen/golang/lr1/parser/actiontable.go      | 3 ++-
 gen/golang/lr1/parser/gototable.go        | 3 ++-
 gen/golang/lr1/parser/productionstable.go | 3 ++-
 gen/golang/token/token.go                 | 2 +-
 gen/golang/utils/utils.go                 | 9 +++++++++
 10 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/gen/golang/gll/parser.go b/gen/golang/gll/parser.go
index 7c64394..a68ad32 100644
--- a/gen/golang/gll/parser.go
+++ b/gen/golang/gll/parser.go
@@ -30,6 +30,7 @@ import (
 	"github.com/goccmack/gogll/v3/gen/golang/gll/slots"
 	"github.com/goccmack/gogll/v3/gen/golang/gll/sppf"
 	"github.com/goccmack/gogll/v3/gen/golang/gll/symbols"
+	"github.com/goccmack/gogll/v3/gen/golang/utils"
 	"github.com/goccmack/gogll/v3/gslot"
 	"github.com/goccmack/goutil/ioutil"
 )
@@ -68,10 +69,10 @@ func (g *gen) genParser(parserDir string) {
 	if err = tmpl.Execute(buf, data); err != nil {
 		parseErrorError(err)
 	}
-	fmtSrc, err := format.Source(buf.Bytes())
+	fmtSrc, err := format.Source(utils.GoSource(buf.Bytes()))
 	if err != nil {
 		fmt.Printf("Error formatting generated parsers: %s\n", err)
-		fmtSrc = buf.Bytes()
+		fmtSrc = utils.GoSource(buf.Bytes())
 	}
 	fname := path.Join(parserDir, "parser.go")
 	if err := ioutil.WriteFile(fname, []byte(fmtSrc)); err != nil {
diff --git a/gen/golang/gll/slots/slots.go b/gen/golang/gll/slots/slots.go
index 00fd29b..77800ce 100644
--- a/gen/golang/gll/slots/slots.go
+++ b/gen/golang/gll/slots/slots.go
@@ -21,6 +21,7 @@ import (
 
 	"github.com/goccmack/gogll/v3/ast"
 	"github.com/goccmack/gogll/v3/frstflw"
+	"github.com/goccmack/gogll/v3/gen/golang/utils"
 	"github.com/goccmack/gogll/v3/gslot"
 	"github.com/goccmack/goutil/ioutil"
 )
@@ -34,7 +35,7 @@ func Gen(slotFile string, g *ast.GoGLL, gs *gslot.GSlot, ff *frstflw.FF) {
 	if err = tmpl.Execute(buf, data); err != nil {
 		panic(err)
 	}
-	if err := ioutil.WriteFile(slotFile, buf.Bytes()); err != nil {
+	if err := ioutil.WriteFile(slotFile, utils.GoSource(buf.Bytes())); err != nil {
 		panic(err)
 	}
 }
diff --git a/gen/golang/gll/symbols/symbols.go b/gen/golang/gll/symbols/symbols.go
index f618d97..e8fd439 100644
--- a/gen/golang/gll/symbols/symbols.go
+++ b/gen/golang/gll/symbols/symbols.go
@@ -38,7 +38,7 @@ func Gen(fname string, g *ast.GoGLL) {
 	if err := tmpl.Execute(buf, getData(g)); err != nil {
 		panic(err)
 	}
-	if err := ioutil.WriteFile(fname, buf.Bytes()); err != nil {
+	if err := ioutil.WriteFile(fname, utils.GoSource(buf.Bytes())); err != nil {
 		panic(err)
 	}
 }
diff --git a/gen/golang/lexer/lexer.go b/gen/golang/lexer/lexer.go
index caab969..6d04249 100644
--- a/gen/golang/lexer/lexer.go
+++ b/gen/golang/lexer/lexer.go
@@ -26,6 +26,7 @@ import (
 
 	"github.com/goccmack/gogll/v3/ast"
 	"github.com/goccmack/gogll/v3/cfg"
+	"github.com/goccmack/gogll/v3/gen/golang/utils"
 	"github.com/goccmack/gogll/v3/lex/items"
 	"github.com/goccmack/gogll/v3/symbols"
 	"github.com/goccmack/goutil/ioutil"
@@ -55,7 +56,7 @@ func Gen(g *ast.GoGLL, ls *items.Sets) {
 		panic(err)
 	}
 	lexFile := filepath.Join(cfg.BaseDir, "lexer", "lexer.go")
-	if err = ioutil.WriteFile(lexFile, buf.Bytes()); err != nil {
+	if err = ioutil.WriteFile(lexFile, utils.GoSource(buf.Bytes())); err != nil {
 		panic(err)
 	}
 }
diff --git a/gen/golang/lr1/ast/ast.go b/gen/golang/lr1/ast/ast.go
index 069846a..81773f6 100644
--- a/gen/golang/lr1/ast/ast.go
+++ b/gen/golang/lr1/ast/ast.go
@@ -26,6 +26,7 @@ import (
 
 	"github.com/goccmack/gogll/v3/ast"
 	"github.com/goccmack/gogll/v3/cfg"
+	"github.com/goccmack/gogll/v3/gen/golang/utils"
 	"github.com/goccmack/gogll/v3/lr1/basicprod"
 	"github.com/goccmack/goutil/ioutil"
 )
@@ -63,7 +64,7 @@ func Gen(pkg string, bprods []*basicprod.Production) {
 	if err := tmpl.Execute(buf, getData(pkg, bprods)); err != nil {
 		panic(err)
 	}
-	if err := ioutil.WriteFile(fname, buf.Bytes()); err != nil {
+	if err := ioutil.WriteFile(fname, utils.GoSource(buf.Bytes())); err != nil {
 		panic(err)
 	}
 }
diff --git a/gen/golang/lr1/parser/actiontable.go b/gen/golang/lr1/parser/actiontable.go
index 806a7be..01eeab1 100644
--- a/gen/golang/lr1/parser/actiontable.go
+++ b/gen/golang/lr1/parser/actiontable.go
@@ -19,6 +19,7 @@ import (
 	"path"
 	"text/template"
 
+	"github.com/goccmack/gogll/v3/gen/golang/utils"
 	"github.com/goccmack/gogll/v3/lr1/action"
 	"github.com/goccmack/gogll/v3/lr1/basicprod"
 	"github.com/goccmack/gogll/v3/lr1/states"
@@ -32,7 +33,7 @@ func genActionTable(pkg, outDir string, prods []*basicprod.Production, states *s
 	}
 	wr := new(bytes.Buffer)
 	tmpl.Execute(wr, getActionTableData(pkg, prods, states, actions))
-	if err := ioutil.WriteFile(path.Join(outDir, "parser", "actiontable.go"), wr.Bytes()); err != nil {
+	if err := ioutil.WriteFile(path.Join(outDir, "parser", "actiontable.go"), utils.GoSource(wr.Bytes())); err != nil {
 		panic(err)
 	}
 }
diff --git a/gen/golang/lr1/parser/gototable.go b/gen/golang/lr1/parser/gototable.go
index bff5122..db5932f 100644
--- a/gen/golang/lr1/parser/gototable.go
+++ b/gen/golang/lr1/parser/gototable.go
@@ -19,6 +19,7 @@ import (
 	"path"
 	"text/template"
 
+	"github.com/goccmack/gogll/v3/gen/golang/utils"
 	"github.com/goccmack/gogll/v3/lr1/states"
 	"github.com/goccmack/gogll/v3/symbols"
 	"github.com/goccmack/goutil/ioutil"
@@ -33,7 +34,7 @@ func genGotoTable(outDir string, states *states.States) {
 	if err := tmpl.Execute(wr, getGotoTableData(states)); err != nil {
 		panic(err)
 	}
-	if err := ioutil.WriteFile(path.Join(outDir, "parser", "gototable.go"), wr.Bytes()); err != nil {
+	if err := ioutil.WriteFile(path.Join(outDir, "parser", "gototable.go"), utils.GoSource(wr.Bytes())); err != nil {
 		panic(err)
 	}
 }
diff --git a/gen/golang/lr1/parser/productionstable.go b/gen/golang/lr1/parser/productionstable.go
index 9db20db..3ac6359 100644
--- a/gen/golang/lr1/parser/productionstable.go
+++ b/gen/golang/lr1/parser/productionstable.go
@@ -22,6 +22,7 @@ import (
 	"text/template"
 
 	"github.com/goccmack/gogll/v3/cfg"
+	"github.com/goccmack/gogll/v3/gen/golang/utils"
 	"github.com/goccmack/gogll/v3/lr1/basicprod"
 	"github.com/goccmack/gogll/v3/lr1/states"
 	"github.com/goccmack/gogll/v3/symbols"
@@ -36,7 +37,7 @@ func genProductionsTable(pkg string, prods []*basicprod.Production, states *stat
 	}
 	wr := new(bytes.Buffer)
 	tmpl.Execute(wr, getProdsTab(pkg, prods, states))
-	if err = ioutil.WriteFile(fname, wr.Bytes()); err != nil {
+	if err = ioutil.WriteFile(fname, utils.GoSource(wr.Bytes())); err != nil {
 		panic(err)
 	}
 }
diff --git a/gen/golang/token/token.go b/gen/golang/token/token.go
index 013c87e..1c66d9c 100644
--- a/gen/golang/token/token.go
+++ b/gen/golang/token/token.go
@@ -49,7 +49,7 @@ func Gen(g *ast.GoGLL) {
 	if err != nil {
 		panic(err)
 	}
-	if err = ioutil.WriteFile(tokenFile(g.Package.GetString()), buf.Bytes()); err != nil {
+	if err = ioutil.WriteFile(tokenFile(g.Package.GetString()), utils.GoSource(buf.Bytes())); err != nil {
 		panic(err)
 	}
 }
diff --git a/gen/golang/utils/utils.go b/gen/golang/utils/utils.go
index 0885381..d673389 100644
--- a/gen/golang/utils/utils.go
+++ b/gen/golang/utils/utils.go
@@ -1,5 +1,14 @@
 package utils
 
+import "bytes"
+
+// GoSource returns src with the characters that Go does not allow in source
+// code, NUL and the byte order mark, written as escape sequences.
+func GoSource(src []byte) []byte {
+	src = bytes.ReplaceAll(src, []byte{0}, []byte(`\x00`))
+	return bytes.ReplaceAll(src, []byte("\uFEFF"), []byte(`\uFEFF`))
+}
+
 // Escape returns a copy of s with all "\t\r\n\\ escaped
 func Escape(s string) string {
 	rs := []rune(s)
-- 
2.43.0


From 8cbc2a3660713bedba072f22b7614ea61318329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 26/31] fix: ReportAmbiguous terminates on cyclic forests and
 says what it found below the root

---
 gen/golang/gll/bsr/bsr.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index bf6373a..0a4a07c 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -553,14 +553,19 @@ func (s *Set) ReportAmbiguous() {
     }
     for i, b := range s.GetRoots() {
         fmt.Println("In root", i)
-        if !s.report(b) {
+        if !s.report(b, map[BSR]bool{}) {
             fmt.Println("No ambiguous BSRs")
         }
     }
 }
 
-// report return true iff at least one ambigous BSR was found
-func (s *Set) report(b BSR) bool {
+// report return true iff at least one ambigous BSR was found. done contains
+// the BSRs which have been reported: a cyclic forest contains b below b.
+func (s *Set) report(b BSR, done map[BSR]bool) bool {
+    if done[b] {
+        return false
+    }
+    done[b] = true
     ambiguous := false
     for i, sym := range b.Label.Symbols() {
         ln, col := s.getLineColumn(b.LeftExtent())
@@ -575,7 +580,9 @@ func (s *Set) report(b BSR) bool {
                 }
             }
             for _, b1 := range b.GetNTChildrenI(i) {
-                s.report(b1)
+                if s.report(b1, done) {
+                    ambiguous = true
+                }
             }
         }
     }
-- 
2.43.0


From 1be6b2297da2f623cab20fecd92625001ec05724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 27/31] fix: a string BSR prints the text of its own extent

---
 gen/golang/gll/bsr/bsr.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index 0a4a07c..d952496 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -517,8 +517,12 @@ func (s stringBSR) Empty() bool {
 
 // String returns a string representation of s
 func (s stringBSR) String() string {
+    srcStr := "ℇ"
+    if s.leftExtent < s.rightExtent {
+        srcStr = s.set.lex.GetString(s.LeftExtent(), s.RightExtent()-1)
+    }
     return fmt.Sprintf("%s,%d,%d,%d - %s", &s.Symbols, s.leftExtent, s.pivot,
-        s.rightExtent, s.set.lex.GetString(s.LeftExtent(), s.RightExtent()))
+        s.rightExtent, srcStr)
 }
 
 func (s *Set) getNTSlot(sym symbols.Symbol, leftExtent, rightExtent int) (bsrs []BSR) {
-- 
2.43.0


From 4601dfd0dd54f186f14044a314abae883eadcd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 28/31] =?UTF-8?q?fix:=20a=20literal=20"=E2=84=87"=20is=20n?=
 =?UTF-8?q?o=20longer=20taken=20for=20the=20empty=20string=20by=20the=20LR?=
 =?UTF-8?q?(1)=20FIRST=20sets?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 lr1/first/first.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lr1/first/first.go b/lr1/first/first.go
index 9235402..f205752 100644
--- a/lr1/first/first.go
+++ b/lr1/first/first.go
@@ -9,6 +9,10 @@ import (
 	"github.com/goccmack/gogll/v3/symbols"
 )
 
+// empty is the empty string in a FIRST set. It contains a space, which no
+// symbol of a grammar may contain, so that it is never mistaken for a literal.
+const empty = "ℇ "
+
 type First struct {
 	// key: symbol
 	symbol map[string]FirstSet
@@ -66,12 +70,12 @@ func (this *First) firstTerms(alt *ast.SyntaxAlternate) (first FirstSet) {
 			first, _ = first.Add(term.ID())
 			return
 		case *ast.NT:
-			if f := this.symbol[term.ID()]; !f.Contain("ℇ") {
+			if f := this.symbol[term.ID()]; !f.Contain(empty) {
 				first, _ = first.Add(f...)
 				return
 			} else {
 				for _, sym := range f {
-					if sym != "ℇ" {
+					if sym != empty {
 						first, _ = first.Add(sym)
 					}
 				}
@@ -83,7 +87,7 @@ func (this *First) firstTerms(alt *ast.SyntaxAlternate) (first FirstSet) {
 			panic("Invalid")
 		}
 	}
-	first, _ = first.Add("ℇ")
+	first, _ = first.Add(empty)
 	return
 }
 
@@ -94,9 +98,9 @@ func (this *First) FirstString(s []string, context ...string) (fs FirstSet) {
 	}
 	frst := make(FirstSet, 0, 4)
 	deriveEmpty := true
-	for i := 0; deriveEmpty && i < len(s); deriveEmpty, i = frst.Contain("ℇ"), i+1 {
+	for i := 0; deriveEmpty && i < len(s); deriveEmpty, i = frst.Contain(empty), i+1 {
 		frst = this.FirstSymbol(s[i])
-		fs, _ = fs.Add(frst.Min("ℇ")...)
+		fs, _ = fs.Add(frst.Min(empty)...)
 	}
 	if deriveEmpty {
 		fs, _ = fs.Add(context...)
-- 
2.43.0


From 04235b24060b1e19f12b5ad160054837fba8b119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 29/31] =?UTF-8?q?fix:=20a=20literal=20"=CF=B5"=20is=20no?=
 =?UTF-8?q?=20longer=20taken=20for=20the=20empty=20string=20by=20the=20FIR?=
 =?UTF-8?q?ST=20and=20FOLLOW=20sets?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 frstflw/frstflw.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frstflw/frstflw.go b/frstflw/frstflw.go
index d858475..b1a27c6 100644
--- a/frstflw/frstflw.go
+++ b/frstflw/frstflw.go
@@ -20,7 +20,9 @@ import (
 	"github.com/goccmack/goutil/stringslice"
 )
 
-const Empty = "ϵ"
+// Empty is the empty string in a FIRST set. It contains a space, which no
+// symbol of a grammar may contain, so that it is never mistaken for a literal.
+const Empty = "ϵ "
 
 type FF struct {
 	// Key=symbol, Value is first set of symbol
-- 
2.43.0


From af3c4805b453899e52b9b371c3360dd4358d3f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:21 +0000
Subject: [PATCH 30/31] fix: a character literal of a backslash or a line break
 is written as a Go rune

---
 ast/lex.go                | 3 ++-
 gen/golang/lexer/lexer.go | 7 ++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/ast/lex.go b/ast/lex.go
index bb5d688..3ae98f2 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -200,7 +200,8 @@ func NewCharLiteral(tok *token.Token, literal []rune) *CharLiteral {
 }
 
 func (c *CharLiteral) Char() rune {
-	if c.Literal[1] == '\\' {
+	// '\' is an unescaped backslash
+	if c.Literal[1] == '\\' && len(c.Literal) > 3 {
 		switch c.Literal[2] {
 		case '\'':
 			return '\''
diff --git a/gen/golang/lexer/lexer.go b/gen/golang/lexer/lexer.go
index 6d04249..6b4ad69 100644
--- a/gen/golang/lexer/lexer.go
+++ b/gen/golang/lexer/lexer.go
@@ -21,6 +21,7 @@ import (
 	"bytes"
 	"fmt"
 	"path/filepath"
+	"strconv"
 	"strings"
 	"text/template"
 
@@ -109,11 +110,7 @@ func getCondition(event ast.LexBase) string {
 	case *ast.AnyOf:
 		return fmt.Sprintf("any(r, %s)", e.Set)
 	case *ast.CharLiteral:
-		cstr := string(e.Literal)
-		if cstr == "'''" {
-			return "r == '\\''"
-		}
-		return fmt.Sprintf("r == %s", cstr)
+		return fmt.Sprintf("r == %s", strconv.QuoteRune(e.Char()))
 	case *ast.Intersection:
 		conds := make([]string, len(e.Symbols))
 		for i, sym := range e.Symbols {
-- 
2.43.0


From c6fd1ecc1c38c218ee401fd54ef31072a99725b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 31/31] fix: a lexical rule that is used in other rules is not
 overwritten by them

---
 ast/build.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast/build.go b/ast/build.go
index 4395f06..6bb676e 100644
--- a/ast/build.go
+++ b/ast/build.go
@@ -197,7 +197,8 @@ func (bld *builder) getLexRuleBody(tokid *token.Token) []LexSymbol {
 	if lexRule == nil {
 		bld.fail(fmt.Errorf("token %s not defined yet", tokid.LiteralString()), tokid.Lext())
 	}
-	return lexRule.RegExp.Symbols
+	// A copy, because the caller appends to it
+	return append([]LexSymbol{}, lexRule.RegExp.Symbols...)
 }
 
 // LexSymbol
-- 
2.43.0

