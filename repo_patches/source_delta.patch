From dc5fecd3a9c215161d1353eec1f2471ea7939bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:59 +0000
Subject: [PATCH 01/36] fix: solve policies of decisions that influence nothing
 instead of panicking

---
 ve/ve.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ve/ve.go b/ve/ve.go
index 65e536f..3893398 100644
--- a/ve/ve.go
+++ b/ve/ve.go
@@ -2,7 +2,6 @@ package ve
 
 import (
 	"cmp"
-	"fmt"
 	"slices"
 )
 
@@ -288,13 +287,13 @@ func (ve *VE) solvePolicies(decisions []Variable, single bool) map[Variable][2]*
 			fmt.Println(f)
 		}*/
 
-		if len(factors) == 0 {
-			panic(fmt.Sprintf("found no factors containing variable %d and its parents", dec.id))
-		}
-
 		// TODO: check that multiplying when multiple factors are remaining is correct!
 		var fac *Factor
-		if len(factors) == 1 {
+		if len(factors) == 0 {
+			// The decision influences nothing, so all its outcomes are equally good.
+			f := ve.variables.CreateFactor([]Variable{dec}, nil)
+			fac = &f
+		} else if len(factors) == 1 {
 			fac = factors[0]
 		} else {
 			f := ve.variables.Product(factors...)
-- 
2.43.0


From b1fc1d20b5329b121310a56d2d0c96cb1723992d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:39 +0000
Subject: [PATCH 02/36] fix: keep query variables that are contained in no
 factor in the result

---
 ve/ve.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/ve/ve.go b/ve/ve.go
index 3893398..0e01cd8 100644
--- a/ve/ve.go
+++ b/ve/ve.go
@@ -254,10 +254,35 @@ func (ve *VE) solve(evidence []Evidence, query []Variable, utility bool, utility
 	}
 
 	ve.eliminateHidden(evidence, query, false)
+	ve.addMissingQuery(evidence, query)
 
 	return ve.summarize()
 }
 
+// addMissingQuery adds constant factors for query variables that are not contained in any factor.
+func (ve *VE) addMissingQuery(evidence []Evidence, query []Variable) {
+	for _, q := range query {
+		if slices.ContainsFunc(evidence, func(ev Evidence) bool { return ev.Variable.Is(q) }) {
+			continue
+		}
+		found := false
+		for _, f := range ve.factors {
+			if slices.ContainsFunc(f.variables, q.Is) {
+				found = true
+				break
+			}
+		}
+		if found {
+			continue
+		}
+		f := ve.variables.CreateFactor([]Variable{q}, nil)
+		for i := range f.data {
+			f.data[i] = 1
+		}
+		ve.factors[f.id] = &f
+	}
+}
+
 // SolvePolicies solves decision policies.
 //
 // Solves only the last decision if single is true.
-- 
2.43.0


From e08ac795ef622eade0fd1608ee2b6a394b84ec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:04 +0000
Subject: [PATCH 03/36] fix: convert evidence also before the first query

---
 network.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/network.go b/network.go
index ffc915b..c2f4435 100644
--- a/network.go
+++ b/network.go
@@ -393,15 +393,16 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 // As an example, say we have a variable with outcomes [yes, no]. Given evidence "yes" (index 0):
 // we get the following probabilities: [1, 0].
 func (n *Network) ToEvidence(variable string, value string) ([]float64, error) {
-	vv, ok := n.variableNames[variable]
-	if !ok {
+	varIdx := slices.IndexFunc(n.variables, func(v Variable) bool { return v.Name == variable })
+	if varIdx < 0 {
 		return nil, fmt.Errorf("evidence variable %s not found", variable)
 	}
-	idx := slices.Index(vv.Variable.Outcomes, value)
+	outcomes := n.variables[varIdx].Outcomes
+	idx := slices.Index(outcomes, value)
 	if idx < 0 {
 		return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, variable)
 	}
-	probs := make([]float64, len(vv.Variable.Outcomes))
+	probs := make([]float64, len(outcomes))
 	probs[idx] = 1.0
 	return probs, nil
 }
-- 
2.43.0


From 707d1aeec485e648c419c6120faaf7207bfecd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:04 +0000
Subject: [PATCH 04/36] fix: initialize the factor of variables that are given
 without one

---
 network.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/network.go b/network.go
index c2f4435..f45a7a1 100644
--- a/network.go
+++ b/network.go
@@ -147,6 +147,8 @@ func (n *Network) prepareVariables() error {
 		v := &n.variables[i]
 		idx := slices.IndexFunc(n.factors, func(f Factor) bool { return f.For == v.Name })
 		if idx < 0 {
+			// no factor given, so the variable has no parents and no table
+			v.Factor = &Factor{For: v.Name, columns: len(v.Outcomes)}
 			continue
 		}
 		v.Factor = &n.factors[idx]
-- 
2.43.0


From 2fdf34af224fb637eac3d80a631d568f1d7feee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:20 +0000
Subject: [PATCH 05/36] fix: reject factors of unknown variables, multiple
 factors and duplicate parents

---
 network.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/network.go b/network.go
index f45a7a1..a9d43e9 100644
--- a/network.go
+++ b/network.go
@@ -143,6 +143,10 @@ func (n *Network) prepareVariables() error {
 		outcomes[v.Name] = len(v.Outcomes)
 	}
 
+	if err := n.checkFactors(varNames); err != nil {
+		return err
+	}
+
 	for i := range n.variables {
 		v := &n.variables[i]
 		idx := slices.IndexFunc(n.factors, func(f Factor) bool { return f.For == v.Name })
@@ -167,6 +171,27 @@ func (n *Network) prepareVariables() error {
 	return n.prepareUtilityNodes(varNames)
 }
 
+// checkFactors checks that factors are for existing variables, with at most one per variable.
+func (n *Network) checkFactors(varNames map[string]*Variable) error {
+	hasFactor := make(map[string]bool, len(n.factors))
+	for i := range n.factors {
+		f := &n.factors[i]
+		if _, ok := varNames[f.For]; !ok {
+			return fmt.Errorf("variable %s for factor not found", f.For)
+		}
+		if hasFactor[f.For] {
+			return fmt.Errorf("multiple factors for variable %s", f.For)
+		}
+		hasFactor[f.For] = true
+		for j, g := range f.Given {
+			if slices.Contains(f.Given[:j], g) {
+				return fmt.Errorf("duplicate parent variable %s of %s", g, f.For)
+			}
+		}
+	}
+	return nil
+}
+
 // prepareUtilityNodes, called from prepareVariables.
 func (n *Network) prepareUtilityNodes(varNames map[string]*Variable) error {
 	n.totalUtilityIndex = -1
-- 
2.43.0


From fbedc71b770e4d40d413478ca783b80c2ac50640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:45 +0000
Subject: [PATCH 06/36] fix: reject variables without outcomes or with too many
 of them

---
 network.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/network.go b/network.go
index a9d43e9..1a7ba4f 100644
--- a/network.go
+++ b/network.go
@@ -2,6 +2,7 @@ package bbn
 
 import (
 	"fmt"
+	"math"
 	"os"
 	"path/filepath"
 	"slices"
@@ -139,6 +140,9 @@ func (n *Network) prepareVariables() error {
 		if _, ok := varNames[v.Name]; ok {
 			return fmt.Errorf("duplicate variable name %s", v.Name)
 		}
+		if len(v.Outcomes) < 1 || len(v.Outcomes) > math.MaxUint16 {
+			return fmt.Errorf("variable %s has %d outcomes; must have 1 to %d", v.Name, len(v.Outcomes), math.MaxUint16)
+		}
 		varNames[v.Name] = v
 		outcomes[v.Name] = len(v.Outcomes)
 	}
-- 
2.43.0


From 31369c927ed4a91d7a3f42b294fcd248be1e6c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:46 +0000
Subject: [PATCH 07/36] fix: reject tables of the wrong size when creating a
 network

---
 network.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/network.go b/network.go
index 1a7ba4f..0309a6e 100644
--- a/network.go
+++ b/network.go
@@ -172,7 +172,34 @@ func (n *Network) prepareVariables() error {
 		}
 	}
 
-	return n.prepareUtilityNodes(varNames)
+	if err := n.prepareUtilityNodes(varNames); err != nil {
+		return err
+	}
+	return n.checkTables()
+}
+
+// checkTables checks that the sizes of tables match the outcomes of their variables.
+// Tables can be missing, except for the total utility node.
+func (n *Network) checkTables() error {
+	for i := range n.variables {
+		v := &n.variables[i]
+		size := v.Factor.columns
+		if i != n.totalUtilityIndex {
+			if len(v.Factor.Table) == 0 {
+				continue
+			}
+			for _, o := range v.Factor.outcomes {
+				size *= o
+				if size > len(v.Factor.Table) {
+					break
+				}
+			}
+		}
+		if size != len(v.Factor.Table) {
+			return fmt.Errorf("number of values in table for variable %s does not match its outcomes and parents, got %d", v.Name, len(v.Factor.Table))
+		}
+	}
+	return nil
 }
 
 // checkFactors checks that factors are for existing variables, with at most one per variable.
-- 
2.43.0


From 6c00c2b58bbf8daf40a3a51cc329488ffd20834a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:48 +0000
Subject: [PATCH 08/36] fix: reject networks with cycles

---
 network.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/network.go b/network.go
index 0309a6e..9770c3f 100644
--- a/network.go
+++ b/network.go
@@ -172,12 +172,46 @@ func (n *Network) prepareVariables() error {
 		}
 	}
 
+	if err := n.checkCycles(varNames); err != nil {
+		return err
+	}
 	if err := n.prepareUtilityNodes(varNames); err != nil {
 		return err
 	}
 	return n.checkTables()
 }
 
+// checkCycles checks that no variable is its own ancestor.
+func (n *Network) checkCycles(varNames map[string]*Variable) error {
+	const visiting, done = 1, 2
+	state := make(map[string]int, len(n.variables))
+
+	var visit func(v *Variable) error
+	visit = func(v *Variable) error {
+		switch state[v.Name] {
+		case done:
+			return nil
+		case visiting:
+			return fmt.Errorf("variable %s is part of a cycle", v.Name)
+		}
+		state[v.Name] = visiting
+		for _, g := range v.Factor.Given {
+			if err := visit(varNames[g]); err != nil {
+				return err
+			}
+		}
+		state[v.Name] = done
+		return nil
+	}
+
+	for i := range n.variables {
+		if err := visit(&n.variables[i]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // checkTables checks that the sizes of tables match the outcomes of their variables.
 // Tables can be missing, except for the total utility node.
 func (n *Network) checkTables() error {
-- 
2.43.0


From 159bd963cc9df25cba1049ba1365e61cb3af4a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:02 +0000
Subject: [PATCH 09/36] fix: reject utility parents of other nodes and
 utilities missing in total utility

---
 network.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/network.go b/network.go
index 9770c3f..530376a 100644
--- a/network.go
+++ b/network.go
@@ -178,7 +178,11 @@ func (n *Network) prepareVariables() error {
 	if err := n.prepareUtilityNodes(varNames); err != nil {
 		return err
 	}
-	return n.checkTables()
+	if err := n.checkTables(); err != nil {
+		return err
+	}
+	_, err := n.prepareUtilityWeights()
+	return err
 }
 
 // checkCycles checks that no variable is its own ancestor.
@@ -263,6 +267,11 @@ func (n *Network) prepareUtilityNodes(varNames map[string]*Variable) error {
 	for i := range n.variables {
 		v := &n.variables[i]
 		if v.NodeType != ve.UtilityNode {
+			for _, parent := range v.Factor.Given {
+				if varNames[parent].NodeType == ve.UtilityNode {
+					return fmt.Errorf("utility node %s can't be a parent of %s, which is no utility node", parent, v.Name)
+				}
+			}
 			continue
 		}
 		hasUtilParents := false
-- 
2.43.0


From 58e0fdd2ee110fcc97697ead02d6d2a1fa49ec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:15 +0000
Subject: [PATCH 10/36] fix: return the row for the parent outcomes from
 Factor.Row

---
 network.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/network.go b/network.go
index 530376a..d4015a3 100644
--- a/network.go
+++ b/network.go
@@ -40,10 +40,11 @@ func (f *Factor) Row(indices []int) ([]float64, bool) {
 	if !ok {
 		return nil, false
 	}
-	return f.Table[idx : idx+f.columns], true
+	start := idx * f.columns
+	return f.Table[start : start+f.columns], true
 }
 
-// rowIndex returns a row starting index for the
+// rowIndex returns a row index for the
 // given outcome indices of given/parent variables.
 //
 // Returns False as second argument in case of missing data in the argument (i.e. -1).
-- 
2.43.0


From 45cc52e98eb48a97519b68fc5f6cb5fc625d1557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:17 +0000
Subject: [PATCH 11/36] fix: count utility samples once in training

---
 training.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/training.go b/training.go
index d097f03..a93e1dd 100644
--- a/training.go
+++ b/training.go
@@ -98,7 +98,6 @@ func (t *Trainer) AddSample(sample []int, utility []float64) {
 				continue
 			}
 			t.data[i][idx][0] += u
-			t.counter[i][idx]++
 		} else {
 			s := sample[i]
 			if s < 0 {
-- 
2.43.0


From 5906953510e46af4abe7b9bbefd1699eedaa61a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:40 +0000
Subject: [PATCH 12/36] fix: accept missing utility values in training data

---
 internal/tui/training.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tui/training.go b/internal/tui/training.go
index 9fcd7e4..90f194a 100644
--- a/internal/tui/training.go
+++ b/internal/tui/training.go
@@ -52,6 +52,7 @@ func TrainNetwork(net *bbn.Network, nodes []bbn.Variable, dataFile, noData strin
 				var err error
 				if record[idx] == noData {
 					utility[i] = math.NaN()
+					continue
 				}
 				utility[i], err = strconv.ParseFloat(record[idx], 64)
 				if err != nil {
-- 
2.43.0


From e7b4fdd3fc6359d2b97f090c9af9be6518a2552b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:42 +0000
Subject: [PATCH 13/36] fix: leave weights of the total utility node untouched
 in training

---
 internal/tui/training.go | 11 +++++++++--
 training.go              | 12 +++++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/internal/tui/training.go b/internal/tui/training.go
index 90f194a..4a8fcf6 100644
--- a/internal/tui/training.go
+++ b/internal/tui/training.go
@@ -29,7 +29,7 @@ func TrainNetwork(net *bbn.Network, nodes []bbn.Variable, dataFile, noData strin
 		return nil, err
 	}
 
-	indices, isUtility, outcomes, err := prepare(nodes, header, noData)
+	indices, isUtility, outcomes, err := prepare(nodes, net.TotalUtilityIndex(), header, noData)
 	if err != nil {
 		return nil, err
 	}
@@ -48,6 +48,9 @@ func TrainNetwork(net *bbn.Network, nodes []bbn.Variable, dataFile, noData strin
 		}
 
 		for i, idx := range indices {
+			if i == net.TotalUtilityIndex() {
+				continue
+			}
 			if isUtility[i] {
 				var err error
 				if record[idx] == noData {
@@ -73,11 +76,15 @@ func TrainNetwork(net *bbn.Network, nodes []bbn.Variable, dataFile, noData strin
 	return train.UpdateNetwork()
 }
 
-func prepare(nodes []bbn.Variable, header []string, noData string) (indices []int, isUtility []bool, outcomes []map[string]int, err error) {
+func prepare(nodes []bbn.Variable, totalUtility int, header []string, noData string) (indices []int, isUtility []bool, outcomes []map[string]int, err error) {
 	indices = make([]int, len(nodes))
 	isUtility = make([]bool, len(nodes))
 	outcomes = make([]map[string]int, len(nodes))
 	for i, node := range nodes {
+		if i == totalUtility {
+			// weights are not trained
+			continue
+		}
 		idx := slices.Index(header, node.Name)
 		if idx < 0 {
 			err = fmt.Errorf("no column '%s' in training data file", node.Name)
diff --git a/training.go b/training.go
index a93e1dd..637b57d 100644
--- a/training.go
+++ b/training.go
@@ -71,7 +71,7 @@ func (t *Trainer) AddSample(sample []int, utility []float64) {
 	nodes := t.network.Variables()
 
 	for i, node := range nodes {
-		if node.NodeType == ve.DecisionNode {
+		if !t.isTrained(i) {
 			continue
 		}
 
@@ -115,6 +115,9 @@ func (t *Trainer) UpdateNetwork() (*Network, error) {
 	nodes := t.network.Variables()
 
 	for i, node := range nodes {
+		if !t.isTrained(i) {
+			continue
+		}
 		data := t.data[i]
 
 		cols := node.Factor.columns
@@ -132,3 +135,10 @@ func (t *Trainer) UpdateNetwork() (*Network, error) {
 
 	return t.network, nil
 }
+
+// isTrained tells whether the table of the node at the given index is trained.
+// This is not the case for decisions, and for the weights of the total utility node.
+func (t *Trainer) isTrained(index int) bool {
+	return index != t.network.TotalUtilityIndex() &&
+		t.network.Variables()[index].NodeType != ve.DecisionNode
+}
-- 
2.43.0


From d90af279c53b0b792748003384ec68fe7a4b6b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:32 +0000
Subject: [PATCH 14/36] fix: respect the no-data value when training in bbni

---
 internal/tui/app.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tui/app.go b/internal/tui/app.go
index bfacebd..933b5ab 100644
--- a/internal/tui/app.go
+++ b/internal/tui/app.go
@@ -44,6 +44,7 @@ func New(path string, evidence map[string]string, trainingFile, noData string, c
 		file:         path,
 		trainingFile: trainingFile,
 		csvDelimiter: csvDelimiter,
+		noData:       noData,
 		evidence:     evidence,
 	}
 }
-- 
2.43.0


From fdfaa09b0f6f1c12f122dcf2fb207b77995fac8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:33 +0000
Subject: [PATCH 15/36] fix: reset the selected state when selecting a node by
 mouse

---
 internal/tui/input.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 92ac2a2..3c2d84d 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -206,7 +206,7 @@ func (a *App) mouseInputGraph(action tview.MouseAction, event *tcell.EventMouse)
 		x, y := a.mousePosInGraph(event.Position())
 		for i, node := range a.nodes {
 			if node.Bounds().Contains(x, y) {
-				a.selectedNode = i
+				a.selectNode(i)
 				if outcome, ok := node.SelectedOutcome(x, y); ok {
 					a.selectedState = outcome
 					if err := a.inputEnter(); err != nil {
@@ -222,7 +222,7 @@ func (a *App) mouseInputGraph(action tview.MouseAction, event *tcell.EventMouse)
 		x, y := a.mousePosInGraph(event.Position())
 		for i, node := range a.nodes {
 			if node.Bounds().Contains(x, y) {
-				a.selectedNode = i
+				a.selectNode(i)
 				a.render(true)
 				a.showTable()
 				break
@@ -288,6 +288,14 @@ func (a *App) mousePosInGraph(x, y int) (int, int) {
 	return x - boxX + scrollX, y - boxY + scrollY
 }
 
+// selectNode selects the node with the given index, and its first state if it was not selected before.
+func (a *App) selectNode(index int) {
+	if index != a.selectedNode {
+		a.selectedState = 0
+	}
+	a.selectedNode = index
+}
+
 func (a *App) selectNextNode() {
 	a.selectedNode = (a.selectedNode + 1) % len(a.nodes)
 	a.selectedState = 0
-- 
2.43.0


From ada9bae7ef4b0ae78480693d3c1aab1f055ca63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:35 +0000
Subject: [PATCH 16/36] fix: write info text and node colors in ToYAML

---
 yml.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yml.go b/yml.go
index 4527cca..93b906f 100644
--- a/yml.go
+++ b/yml.go
@@ -146,12 +146,14 @@ func ToYAML(network *Network) ([]byte, error) {
 			Type:     nodeTypeNames[v.NodeType],
 			Outcomes: v.Outcomes,
 			Position: v.Position,
+			Color:    v.Color,
 			Table:    table,
 		}
 	}
 
 	net := networkYaml{
 		Name:      network.Name(),
+		Info:      network.Info(),
 		Variables: variables,
 	}
 
-- 
2.43.0


From a256f068509980bf6a1ddfdabc23156affb3cfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:36 +0000
Subject: [PATCH 17/36] fix: load XML variables without definition, reject
 multiple definitions

---
 xml.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xml.go b/xml.go
index 2c2d591..156fc4a 100644
--- a/xml.go
+++ b/xml.go
@@ -46,13 +46,19 @@ func FromBIFXML(content []byte) (*Network, error) {
 	defs := map[string]*definitionXml{}
 	for i := range bifNet.Network.Definitions {
 		def := &bifNet.Network.Definitions[i]
+		if _, ok := defs[def.For]; ok {
+			return nil, fmt.Errorf("multiple definitions for node '%s'", def.For)
+		}
 		defs[def.For] = def
 	}
 
 	variables := make([]Variable, len(bifNet.Network.Variables))
 	factors := []Factor{}
 	for i, variable := range bifNet.Network.Variables {
-		def := defs[variable.Name]
+		def, ok := defs[variable.Name]
+		if !ok {
+			def = &definitionXml{For: variable.Name}
+		}
 
 		columns := len(variable.Outcomes)
 		tableValues := strings.Fields(def.Table)
-- 
2.43.0


From 2df658f27080d792200508b76a6f536f0cf9a7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:50 +0000
Subject: [PATCH 18/36] fix: reject XML definitions of unknown variables

---
 xml.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xml.go b/xml.go
index 156fc4a..bb20604 100644
--- a/xml.go
+++ b/xml.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/xml"
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 )
@@ -49,6 +50,9 @@ func FromBIFXML(content []byte) (*Network, error) {
 		if _, ok := defs[def.For]; ok {
 			return nil, fmt.Errorf("multiple definitions for node '%s'", def.For)
 		}
+		if !slices.ContainsFunc(bifNet.Network.Variables, func(v variableXml) bool { return v.Name == def.For }) {
+			return nil, fmt.Errorf("node '%s' for definition not found", def.For)
+		}
 		defs[def.For] = def
 	}
 
-- 
2.43.0


From 5ed9198287d2204ac229605f3512bcc7cf3f69c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:52 +0000
Subject: [PATCH 19/36] fix: return independent logic factors from logic.Get

---
 logic/factor.go | 78 ++++++++++++++++++++++++++-----------------------
 1 file changed, 41 insertions(+), 37 deletions(-)

diff --git a/logic/factor.go b/logic/factor.go
index 2bc0dc3..013303a 100644
--- a/logic/factor.go
+++ b/logic/factor.go
@@ -13,55 +13,59 @@ type Factor interface {
 // Primarily used for deserialization.
 func Get(name string) (Factor, bool) {
 	f, ok := factors[name]
-	return f, ok
+	if !ok {
+		return nil, false
+	}
+	// always create a new instance, as arguments can be set
+	return f(), true
 }
 
-var factors = map[string]Factor{
-	"not": Not(),
+var factors = map[string]func() Factor{
+	"not": Not,
 
-	"and":         And(),
-	"not-and":     NotAnd(),
-	"and-not":     AndNot(),
-	"not-and-not": NotAndNot(),
+	"and":         And,
+	"not-and":     NotAnd,
+	"and-not":     AndNot,
+	"not-and-not": NotAndNot,
 
-	"or":         Or(),
-	"not-or":     NotOr(),
-	"or-not":     OrNot(),
-	"not-or-not": NotOrNot(),
+	"or":         Or,
+	"not-or":     NotOr,
+	"or-not":     OrNot,
+	"not-or-not": NotOrNot,
 
-	"xor": XOr(),
+	"xor": XOr,
 
-	"cond":         Cond(),
-	"not-cond":     NotCond(),
-	"cond-not":     CondNot(),
-	"not-cond-not": NotCondNot(),
+	"cond":         Cond,
+	"not-cond":     NotCond,
+	"cond-not":     CondNot,
+	"not-cond-not": NotCondNot,
 
-	"bicond": BiCond(),
+	"bicond": BiCond,
 
-	"if-then":         IfThen(),
-	"if-not-then":     IfNotThen(),
-	"if-then-not":     IfThenNot(),
-	"if-not-then-not": IfNotThenNot(),
+	"if-then":         IfThen,
+	"if-not-then":     IfNotThen,
+	"if-then-not":     IfThenNot,
+	"if-not-then-not": IfNotThenNot,
 
-	"equals":     Equals(),
-	"equals-not": EqualsNot(),
+	"equals":     Equals,
+	"equals-not": EqualsNot,
 
-	"count-true":  CountTrue(),
-	"count-false": CountFalse(),
+	"count-true":  CountTrue,
+	"count-false": CountFalse,
 
-	"count-is":      CountIs(0),
-	"count-less":    CountLess(0),
-	"count-greater": CountGreater(0),
+	"count-is":      func() Factor { return CountIs(0) },
+	"count-less":    func() Factor { return CountLess(0) },
+	"count-greater": func() Factor { return CountGreater(0) },
 
-	"given":      Given(0),
-	"given-not":  GivenNot(0),
-	"given-excl": GivenExcl(0),
+	"given":      func() Factor { return Given(0) },
+	"given-not":  func() Factor { return GivenNot(0) },
+	"given-excl": func() Factor { return GivenExcl(0) },
 
-	"outcome-is":      OutcomeIs(0, 0),
-	"outcome-is-not":  OutcomeIsNot(0, 0),
-	"outcome-either":  OutcomeEither(nil, 0),
-	"outcome-less":    OutcomeLess(0, 0),
-	"outcome-greater": OutcomeGreater(0, 0),
+	"outcome-is":      func() Factor { return OutcomeIs(0, 0) },
+	"outcome-is-not":  func() Factor { return OutcomeIsNot(0, 0) },
+	"outcome-either":  func() Factor { return OutcomeEither(nil, 0) },
+	"outcome-less":    func() Factor { return OutcomeLess(0, 0) },
+	"outcome-greater": func() Factor { return OutcomeGreater(0, 0) },
 
-	"bits": Bits(),
+	"bits": Bits,
 }
-- 
2.43.0


From 438878012784cf070d1ba3aabd41d29d7088fa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:50 +0000
Subject: [PATCH 20/36] fix: count parents from the first one in 'given' logic
 operators, check the index

---
 logic/given.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/logic/given.go b/logic/given.go
index c103e34..4929406 100644
--- a/logic/given.go
+++ b/logic/given.go
@@ -24,12 +24,16 @@ func (f *givenFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenFactor) Table(given int) ([]float64, error) {
+	mask, err := parentMask(f.Index, given)
+	if err != nil {
+		return nil, err
+	}
 	rows := uint(1) << uint(given) // 2^given
 	table := make([]float64, rows*2)
 
 	var i uint
 	for i = 0; i < rows; i++ {
-		isTrue := (i & (1 << f.Index)) == 0
+		isTrue := (i & mask) == 0
 		if isTrue {
 			table[i*2] = 1
 		} else {
@@ -59,12 +63,16 @@ func (f *givenNotFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenNotFactor) Table(given int) ([]float64, error) {
+	mask, err := parentMask(f.Index, given)
+	if err != nil {
+		return nil, err
+	}
 	rows := uint(1) << uint(given) // 2^given
 	table := make([]float64, rows*2)
 
 	var i uint
 	for i = 0; i < rows; i++ {
-		isFalse := (i & (1 << f.Index)) != 0
+		isFalse := (i & mask) != 0
 		if isFalse {
 			table[i*2] = 1
 		} else {
@@ -94,12 +102,16 @@ func (f *givenExclFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenExclFactor) Table(given int) ([]float64, error) {
+	mask, err := parentMask(f.Index, given)
+	if err != nil {
+		return nil, err
+	}
 	rows := uint(1) << uint(given) // 2^given
 	table := make([]float64, rows*2)
 
 	var i uint
 	for i = 0; i < rows; i++ {
-		isTrue := (i & (1 << f.Index)) == 0
+		isTrue := (i & mask) == 0
 		if !isTrue {
 			table[i*2+1] = 1
 			continue
@@ -107,10 +119,11 @@ func (f *givenExclFactor) Table(given int) ([]float64, error) {
 
 		otherTrue := false
 		for j := 0; j < given; j++ {
-			if j == f.Index {
+			other := uint(1) << j
+			if other == mask {
 				continue
 			}
-			if (i & (1 << j)) == 0 {
+			if (i & other) == 0 {
 				otherTrue = true
 				break
 			}
@@ -123,3 +136,12 @@ func (f *givenExclFactor) Table(given int) ([]float64, error) {
 	}
 	return table, nil
 }
+
+// parentMask returns the bit that encodes the outcome of the parent at the given index in table row indices.
+// The last parent varies fastest, so it is represented by the lowest bit.
+func parentMask(index, given int) (uint, error) {
+	if index < 0 || index >= given {
+		return 0, fmt.Errorf("logic operator's parent index %d is out of range for %d operands", index, given)
+	}
+	return uint(1) << (given - 1 - index), nil
+}
-- 
2.43.0


From f9be00e05057135cb68075e0bc1657d698a6e43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:52 +0000
Subject: [PATCH 21/36] fix: reject invalid outcome indices and counts in
 'outcome' logic operators

---
 logic/outcome.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/logic/outcome.go b/logic/outcome.go
index f46a26b..e736575 100644
--- a/logic/outcome.go
+++ b/logic/outcome.go
@@ -2,6 +2,7 @@ package logic
 
 import (
 	"fmt"
+	"math"
 )
 
 type outcomeIsFactor struct {
@@ -31,6 +32,9 @@ func (f *outcomeIsFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	if err := checkOutcomes(f.Length, f.Length-1, f.Index); err != nil {
+		return nil, err
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Length; i++ {
@@ -69,6 +73,9 @@ func (f *outcomeIsNotFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	if err := checkOutcomes(f.Length, f.Length-1, f.Index); err != nil {
+		return nil, err
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Length; i++ {
@@ -107,6 +114,9 @@ func (f *outcomeEitherFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	if err := checkOutcomes(f.Length, f.Length-1, f.Indices...); err != nil {
+		return nil, err
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Length; i++ {
@@ -148,6 +158,9 @@ func (f *outcomeLessFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	if err := checkOutcomes(f.Length, f.Length, f.Index); err != nil {
+		return nil, err
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Index; i++ {
@@ -188,6 +201,9 @@ func (f *outcomeGreaterFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	if err := checkOutcomes(f.Length, f.Length, f.Index); err != nil {
+		return nil, err
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Index; i++ {
@@ -199,3 +215,16 @@ func (f *outcomeGreaterFactor) Table(given int) ([]float64, error) {
 
 	return table, nil
 }
+
+// checkOutcomes checks that the number of outcomes is valid, and that indices are in [0, max].
+func checkOutcomes(length, max int, indices ...int) error {
+	if length < 1 || length > math.MaxUint16 {
+		return fmt.Errorf("logic operator can't use %d as number of outcomes", length)
+	}
+	for _, idx := range indices {
+		if idx < 0 || idx > max {
+			return fmt.Errorf("logic operator's outcome index %d is out of range for %d outcomes", idx, length)
+		}
+	}
+	return nil
+}
-- 
2.43.0


From 75f33f9f1452c33628447e95fcf158474dae732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:53 +0000
Subject: [PATCH 22/36] fix: reject operand numbers that logic operators can't
 build a table for

---
 logic/bits.go   |  3 +++
 logic/count.go  |  9 +++++++++
 logic/factor.go | 14 ++++++++++++++
 logic/given.go  |  3 +++
 logic/simple.go |  6 ++++++
 5 files changed, 35 insertions(+)

diff --git a/logic/bits.go b/logic/bits.go
index d9f8b4f..012dc99 100644
--- a/logic/bits.go
+++ b/logic/bits.go
@@ -19,6 +19,9 @@ func (f *bitsFactor) SetArgs(args ...int) error {
 }
 
 func (f *bitsFactor) Table(given int) ([]float64, error) {
+	if err := checkOperands(given, maxOperands/2); err != nil {
+		return nil, err
+	}
 	rows := uint(1) << uint(given) // 2^given
 	cols := uint(1) << uint(given) // 2^given
 	table := make([]float64, int(rows*cols))
diff --git a/logic/count.go b/logic/count.go
index f471034..bc7f2bc 100644
--- a/logic/count.go
+++ b/logic/count.go
@@ -49,6 +49,9 @@ func (f *countFactor) SetArgs(args ...int) error {
 }
 
 func (f *countFactor) Table(given int) ([]float64, error) {
+	if err := checkOperands(given, maxOperands); err != nil {
+		return nil, err
+	}
 	rows := uint(1) << uint(given) // 2^given
 	table := make([]float64, rows*2)
 
@@ -79,6 +82,9 @@ func (f *countTrueFactor) SetArgs(args ...int) error {
 }
 
 func (f *countTrueFactor) Table(given int) ([]float64, error) {
+	if err := checkOperands(given, maxOperands); err != nil {
+		return nil, err
+	}
 	rows := uint(1) << uint(given) // 2^given
 	cols := given + 1
 	table := make([]float64, int(rows)*cols)
@@ -106,6 +112,9 @@ func (f *countFalseFactor) SetArgs(args ...int) error {
 }
 
 func (f *countFalseFactor) Table(given int) ([]float64, error) {
+	if err := checkOperands(given, maxOperands); err != nil {
+		return nil, err
+	}
 	rows := uint(1) << uint(given) // 2^given
 	cols := given + 1
 	table := make([]float64, int(rows)*cols)
diff --git a/logic/factor.go b/logic/factor.go
index 013303a..cefb10f 100644
--- a/logic/factor.go
+++ b/logic/factor.go
@@ -1,5 +1,11 @@
 package logic
 
+import "fmt"
+
+// maxOperands is the maximum number of parents of a logic factor.
+// The size of tables is exponential in the number of parents.
+const maxOperands = 30
+
 // Factor is an interface for logic factors.
 type Factor interface {
 	// Table returns the CPT for the given number of parent variables.
@@ -69,3 +75,11 @@ var factors = map[string]func() Factor{
 
 	"bits": Bits,
 }
+
+// checkOperands checks that the number of parents is in [0, max].
+func checkOperands(given, max int) error {
+	if given < 0 || given > max {
+		return fmt.Errorf("logic operator can't use %d operands; allowed are 0 to %d", given, max)
+	}
+	return nil
+}
diff --git a/logic/given.go b/logic/given.go
index 4929406..158a79f 100644
--- a/logic/given.go
+++ b/logic/given.go
@@ -143,5 +143,8 @@ func parentMask(index, given int) (uint, error) {
 	if index < 0 || index >= given {
 		return 0, fmt.Errorf("logic operator's parent index %d is out of range for %d operands", index, given)
 	}
+	if err := checkOperands(given, maxOperands); err != nil {
+		return 0, err
+	}
 	return uint(1) << (given - 1 - index), nil
 }
diff --git a/logic/simple.go b/logic/simple.go
index 72e7571..802a2c9 100644
--- a/logic/simple.go
+++ b/logic/simple.go
@@ -12,6 +12,9 @@ func (f *boolFactor) SetArgs(args ...int) error {
 }
 
 func (f *boolFactor) Table(given int) ([]float64, error) {
+	if err := checkOperands(given, maxOperands); err != nil {
+		return nil, err
+	}
 	arr := *f
 	if len(arr) != 1<<given { // 2^given
 		return nil, fmt.Errorf("logic operator requires %d operands, but %d were given", len(arr)/2, given)
@@ -38,6 +41,9 @@ func (f *floatFactor) SetArgs(args ...int) error {
 }
 
 func (f *floatFactor) Table(given int) ([]float64, error) {
+	if err := checkOperands(given, maxOperands); err != nil {
+		return nil, err
+	}
 	arr := *f
 	if len(arr) != 1<<(given+1) { // 2^(given+1)
 		return nil, fmt.Errorf("logic operator requires %d operands, but %d were given", len(arr)/4, given)
-- 
2.43.0


From c685ddc364a1ed6fd819e4a20855c755fb892c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:34 +0000
Subject: [PATCH 23/36] fix: return errors for invalid evidence, query and
 utility variables

---
 network.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/network.go b/network.go
index d4015a3..664a895 100644
--- a/network.go
+++ b/network.go
@@ -459,6 +459,9 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 		if !ok {
 			return nil, fmt.Errorf("evidence variable %s not found", name)
 		}
+		if vv.Variable.NodeType == ve.UtilityNode {
+			return nil, fmt.Errorf("utility variable %s can't be used as evidence", name)
+		}
 		idx := slices.Index(vv.Variable.Outcomes, value)
 		if idx < 0 {
 			return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, name)
@@ -472,6 +475,12 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 		if !ok {
 			return nil, fmt.Errorf("query variable %s not found", name)
 		}
+		if vv.Variable.NodeType == ve.UtilityNode {
+			return nil, fmt.Errorf("utility variable %s can't be used as query variable", name)
+		}
+		if _, isEvidence := evidence[name]; isEvidence {
+			return nil, fmt.Errorf("query variable %s is also given as evidence", name)
+		}
 		q[i] = vv.VeVariable
 	}
 
@@ -482,6 +491,9 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 			if !ok {
 				return nil, fmt.Errorf("utility query variable %s not found", utilityVar)
 			}
+			if u.Variable.NodeType != ve.UtilityNode {
+				return nil, fmt.Errorf("utility query variable %s is not a utility variable", utilityVar)
+			}
 			util = &u.VeVariable
 		}
 		return n.ve.SolveUtility(ev, q, util), nil
-- 
2.43.0


From 666678f73d98e1dc1d661581afcd30555a618172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:36 +0000
Subject: [PATCH 24/36] fix: detect duplicate variable IDs in ve.Variables

---
 ve/variables.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ve/variables.go b/ve/variables.go
index eacaf05..cb6bc78 100644
--- a/ve/variables.go
+++ b/ve/variables.go
@@ -25,6 +25,7 @@ func (v *Variables) AddVariable(id int, nodeType NodeType, outcomes uint16) Vari
 	if _, ok := v.ids[id]; ok {
 		panic(fmt.Sprintf("there is already a variable with ID %d", id))
 	}
+	v.ids[id] = true
 	v.variables = append(v.variables,
 		Variable{
 			id:       id,
-- 
2.43.0


From d08e965b8eb3dcd1cc54935dc29c86a15285552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:37 +0000
Subject: [PATCH 25/36] fix: don't panic when deriving policies from undefined
 utilities

---
 ve/variables.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ve/variables.go b/ve/variables.go
index cb6bc78..8d1be05 100644
--- a/ve/variables.go
+++ b/ve/variables.go
@@ -202,7 +202,10 @@ func (v *Variables) Policy(f *Factor, variable Variable) Factor {
 		}
 
 		if len(maxIndices) == 0 {
-			panic("no utility values to derive policy")
+			// no comparable utility values (i.e. NaN), so there is no best outcome
+			for c := range rowData {
+				maxIndices = append(maxIndices, c)
+			}
 		}
 
 		probValue := 1.0 / float64(len(maxIndices))
-- 
2.43.0


From dfca92714821dfaf437982564f2f4687968a7292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:35 +0000
Subject: [PATCH 26/36] fix: don't drop the factor of a variable with an empty
 name

---
 network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/network.go b/network.go
index 664a895..9e0b0e8 100644
--- a/network.go
+++ b/network.go
@@ -560,7 +560,7 @@ func (n *Network) toVE(evidence map[string]string) (*ve.VE, map[string]*variable
 	factors := make([]ve.Factor, 0, len(n.factors))
 	for _, f := range n.factors {
 		// skip factor for total utility
-		if f.For == totalUtilityName {
+		if n.totalUtilityIndex >= 0 && f.For == totalUtilityName {
 			continue
 		}
 		// get primary variable
-- 
2.43.0


From 495ed2b9b177930de82ffde628f9f2aac5900571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:16 +0000
Subject: [PATCH 27/36] fix: preserve all text when writing YAML

---
 yml.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/yml.go b/yml.go
index 93b906f..0bb6c94 100644
--- a/yml.go
+++ b/yml.go
@@ -30,8 +30,20 @@ var nodeTypeNames = map[ve.NodeType]string{
 	ve.UtilityNode:  UtilityNodeType,
 }
 
+// textYaml is text that is quoted if YAML's literal style would not preserve it.
+type textYaml string
+
+// MarshalYAML implements [yaml.Marshaler].
+func (t textYaml) MarshalYAML() (any, error) {
+	s := string(t)
+	if strings.HasPrefix(s, "\n") || strings.ContainsAny(s, "\t\r\u0085\u2028\u2029") {
+		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: s, Style: yaml.DoubleQuotedStyle}, nil
+	}
+	return s, nil
+}
+
 type variableYaml struct {
-	Variable string      // Name of the node.
+	Variable textYaml    // Name of the node.
 	Given    []string    `yaml:",flow,omitempty"`
 	Type     string      `yaml:",omitempty"`      // Type of the node [nature, decision, utility]
 	Outcomes []string    `yaml:",flow"`           // Names of the node's possible states.
@@ -42,8 +54,8 @@ type variableYaml struct {
 }
 
 type networkYaml struct {
-	Name      string
-	Info      string `yaml:",omitempty"`
+	Name      textYaml
+	Info      textYaml `yaml:",omitempty"`
 	Variables []variableYaml
 }
 
@@ -67,7 +79,7 @@ func FromYAML(content []byte) (*Network, error) {
 			return nil, fmt.Errorf("unknown node type %s", v.Type)
 		}
 		variables[i] = Variable{
-			Name:     v.Variable,
+			Name:     string(v.Variable),
 			NodeType: tp,
 			Outcomes: v.Outcomes,
 			Position: v.Position,
@@ -80,13 +92,13 @@ func FromYAML(content []byte) (*Network, error) {
 		}
 
 		factors = append(factors, Factor{
-			For:   v.Variable,
+			For:   string(v.Variable),
 			Given: v.Given,
 			Table: table,
 		})
 	}
 
-	return New(net.Name, net.Info, variables, factors)
+	return New(string(net.Name), string(net.Info), variables, factors)
 }
 
 func toTable(v *variableYaml) ([]float64, error) {
@@ -141,7 +153,7 @@ func ToYAML(network *Network) ([]byte, error) {
 		}
 
 		variables[i] = variableYaml{
-			Variable: v.Name,
+			Variable: textYaml(v.Name),
 			Given:    v.Factor.Given,
 			Type:     nodeTypeNames[v.NodeType],
 			Outcomes: v.Outcomes,
@@ -152,8 +164,8 @@ func ToYAML(network *Network) ([]byte, error) {
 	}
 
 	net := networkYaml{
-		Name:      network.Name(),
-		Info:      network.Info(),
+		Name:      textYaml(network.Name()),
+		Info:      textYaml(network.Info()),
 		Variables: variables,
 	}
 
-- 
2.43.0


From 2871fb6c86d28a401d9dc592d8c68430875858d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:33 +0000
Subject: [PATCH 28/36] fix: don't let 'outcome-either' share the indices of
 the caller

---
 logic/outcome.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/logic/outcome.go b/logic/outcome.go
index e736575..e471627 100644
--- a/logic/outcome.go
+++ b/logic/outcome.go
@@ -3,6 +3,7 @@ package logic
 import (
 	"fmt"
 	"math"
+	"slices"
 )
 
 type outcomeIsFactor struct {
@@ -96,7 +97,7 @@ type outcomeEitherFactor struct {
 // Argument count is the total number of possible outcomes of the parent.
 func OutcomeEither(idx []int, count int) Factor {
 	return &outcomeEitherFactor{
-		Indices: idx,
+		Indices: slices.Clone(idx),
 		Length:  count,
 	}
 }
@@ -105,7 +106,7 @@ func (f *outcomeEitherFactor) SetArgs(args ...int) error {
 	if len(args) < 2 {
 		return fmt.Errorf("logic operator expects at least 2 argument (index..., length), got %d", len(args))
 	}
-	f.Indices = args[:len(args)-1]
+	f.Indices = slices.Clone(args[:len(args)-1])
 	f.Length = args[len(args)-1]
 	return nil
 }
-- 
2.43.0


From ba94451f1e21f64c2323f5cc5c4e1855784795f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:32 +0000
Subject: [PATCH 29/36] fix: draw nodes in their color also at the start of
 lines

---
 internal/tui/render.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tui/render.go b/internal/tui/render.go
index 81eee17..0b1bab4 100644
--- a/internal/tui/render.go
+++ b/internal/tui/render.go
@@ -139,9 +139,9 @@ func (a *App) clearCanvas() {
 
 func (a *App) updateCanvas() {
 	builder := strings.Builder{}
-	var prevColor Color
 	for i, runes := range a.canvas {
 		cols := a.colors[i]
+		prevColor := White // Each line starts with the default color.
 
 		for j, r := range runes {
 			c := cols[j]
-- 
2.43.0


From 752d448f56d05bdc4a435c67f68b319d29ecda1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:33 +0000
Subject: [PATCH 30/36] fix: ignore digits other than 0-9 instead of crashing

---
 internal/tui/input.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 3c2d84d..6f7a8d1 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -314,7 +314,8 @@ func (a *App) selectPreviousNode() {
 func (a *App) selectNodeOutcome(index string) {
 	idx, err := strconv.Atoi(index)
 	if err != nil {
-		panic(err)
+		// A digit other than 0-9.
+		return
 	}
 	idx -= 1
 	if idx >= 0 && idx < len(a.nodes[a.selectedNode].Node().Outcomes) {
-- 
2.43.0


From a6f4c97533ed4e907b151a8ad880cc1cc2d83e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:34 +0000
Subject: [PATCH 31/36] fix: draw nodes with negative positions at the border
 instead of crashing

---
 internal/tui/input.go | 3 +--
 internal/tui/node.go  | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 6f7a8d1..788f751 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -119,8 +119,7 @@ func (a *App) moveNode(event *tcell.EventKey) *tcell.EventKey {
 		b.X += dx
 		b.Y += dy
 
-		p := a.network.Variables()[a.selectedNode].Position
-		a.network.Variables()[a.selectedNode].Position = [2]int{p[0] + dx, p[1] + dy}
+		a.network.Variables()[a.selectedNode].Position = [2]int{b.X, b.Y}
 
 		if createCanvas {
 			a.createCanvas()
diff --git a/internal/tui/node.go b/internal/tui/node.go
index 75e7414..3e86107 100644
--- a/internal/tui/node.go
+++ b/internal/tui/node.go
@@ -48,8 +48,8 @@ func NewNode(n bbn.Variable) Node {
 	}
 
 	bounds := Bounds{
-		X: n.Position[0],
-		Y: n.Position[1],
+		X: max(n.Position[0], 0),
+		Y: max(n.Position[1], 0),
 		W: max(maxStateLen+bars+9, titleLength) + 4,
 		H: len(n.Outcomes) + 3,
 	}
-- 
2.43.0


From ba5a2a964566e4f3dcf7ef63607f944a11bce4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:35 +0000
Subject: [PATCH 32/36] fix: report networks without variables instead of
 crashing on key presses

---
 internal/tui/app.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/tui/app.go b/internal/tui/app.go
index 933b5ab..668ff31 100644
--- a/internal/tui/app.go
+++ b/internal/tui/app.go
@@ -57,6 +57,9 @@ func (a *App) Run() error {
 
 	a.network = net
 	nodes := a.network.Variables()
+	if len(nodes) == 0 {
+		return fmt.Errorf("network %s has no variables", net.Name())
+	}
 
 	if a.trainingFile != "" {
 		a.network, err = TrainNetwork(net, nodes, a.trainingFile, a.noData, a.csvDelimiter)
-- 
2.43.0


From 082efde7f0aa8b42eb661457d7ce88a1521d6064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:37 +0000
Subject: [PATCH 33/36] fix: report unknown node colors instead of crashing

---
 cmd/bbn/inference.go |  6 +++---
 internal/tui/app.go  |  6 ++++--
 internal/tui/node.go | 12 ++++++++++++
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/cmd/bbn/inference.go b/cmd/bbn/inference.go
index 4e5d922..b26c5f1 100644
--- a/cmd/bbn/inference.go
+++ b/cmd/bbn/inference.go
@@ -72,9 +72,9 @@ func runInferenceCommand(path string, evidence []string) ([]bbn.Variable, map[st
 	}
 
 	nodes := net.Variables()
-	tuiNodes := make([]tui.Node, len(nodes))
-	for i, n := range nodes {
-		tuiNodes[i] = tui.NewNode(n)
+	tuiNodes, err := tui.NewNodes(nodes)
+	if err != nil {
+		return nil, nil, nil, err
 	}
 
 	_, err = net.SolvePolicies(true)
diff --git a/internal/tui/app.go b/internal/tui/app.go
index 668ff31..115587f 100644
--- a/internal/tui/app.go
+++ b/internal/tui/app.go
@@ -68,10 +68,12 @@ func (a *App) Run() error {
 		}
 	}
 
-	a.nodes = make([]Node, len(nodes))
+	a.nodes, err = NewNodes(nodes)
+	if err != nil {
+		return err
+	}
 	a.nodesByName = make(map[string]int, len(nodes))
 	for i, n := range nodes {
-		a.nodes[i] = NewNode(n)
 		a.nodesByName[n.Name] = i
 	}
 
diff --git a/internal/tui/node.go b/internal/tui/node.go
index 3e86107..4ef6c6e 100644
--- a/internal/tui/node.go
+++ b/internal/tui/node.go
@@ -30,6 +30,18 @@ type node struct {
 	barsX  int
 }
 
+// NewNodes creates the nodes for the given variables.
+func NewNodes(variables []bbn.Variable) ([]Node, error) {
+	nodes := make([]Node, len(variables))
+	for i, n := range variables {
+		if _, err := nodeColor(&n); err != nil {
+			return nil, err
+		}
+		nodes[i] = NewNode(n)
+	}
+	return nodes, nil
+}
+
 func NewNode(n bbn.Variable) Node {
 	maxStateLen := 0
 	for _, state := range n.Outcomes {
-- 
2.43.0


From 12afa71fff4d9a3395d7ac7aa94fbeac70862a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:08 +0000
Subject: [PATCH 34/36] fix: show names in square brackets in bbni instead of
 taking them for color tags

---
 internal/tui/input.go  | 2 +-
 internal/tui/render.go | 9 +++++++--
 internal/tui/table.go  | 4 ++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 788f751..be4c9ad 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -170,7 +170,7 @@ func (a *App) showTable() {
 
 	a.tableDialog.SetRows(0, data.GetRowCount()+5, 0)
 	a.table.SetContent(&data)
-	a.table.SetTitle(" " + node.Name + " ")
+	a.table.SetTitle(" " + tview.Escape(node.Name) + " ")
 	a.pages.ShowPage("Table")
 
 	a.app.SetFocus(a.table)
diff --git a/internal/tui/render.go b/internal/tui/render.go
index 0b1bab4..3d0663c 100644
--- a/internal/tui/render.go
+++ b/internal/tui/render.go
@@ -2,6 +2,8 @@ package tui
 
 import (
 	"strings"
+
+	"github.com/rivo/tview"
 )
 
 func (a *App) render(isUpdate bool) {
@@ -142,15 +144,18 @@ func (a *App) updateCanvas() {
 	for i, runes := range a.canvas {
 		cols := a.colors[i]
 		prevColor := White // Each line starts with the default color.
+		start := 0
 
-		for j, r := range runes {
+		for j := range runes {
 			c := cols[j]
 			if c != prevColor {
+				builder.WriteString(tview.Escape(string(runes[start:j])))
 				builder.WriteString(ColorTags[c])
+				start = j
 			}
-			builder.WriteRune(r)
 			prevColor = c
 		}
+		builder.WriteString(tview.Escape(string(runes[start:])))
 		builder.WriteString(ColorTags[White])
 
 		if i < len(a.canvas)-1 {
diff --git a/internal/tui/table.go b/internal/tui/table.go
index 57032db..b630988 100644
--- a/internal/tui/table.go
+++ b/internal/tui/table.go
@@ -35,7 +35,7 @@ func NewTable(nodes []Node, index int, nodesByName map[string]int) Table {
 
 func (t *Table) GetCell(row, column int) *tview.TableCell {
 	if row == 0 {
-		cell := tview.NewTableCell(t.header[column])
+		cell := tview.NewTableCell(tview.Escape(t.header[column]))
 		cell.SetAlign(tview.AlignCenter)
 		cell.SetExpansion(1)
 		return cell
@@ -54,7 +54,7 @@ func (t *Table) GetCell(row, column int) *tview.TableCell {
 		}
 		parent := t.nodes[t.nodesByName[node.Node().Factor.Given[column]]].Node()
 		text := parent.Outcomes[(row/stride)%len(parent.Outcomes)]
-		cell := tview.NewTableCell(text)
+		cell := tview.NewTableCell(tview.Escape(text))
 		cell.SetAlign(tview.AlignRight)
 		return cell
 	}
-- 
2.43.0


From cc9175aa9f648f1f304b0b8e7ad0f4b2906736c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:26 +0000
Subject: [PATCH 35/36] fix: keep large utilities within their nodes in bbni

---
 internal/tui/node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/tui/node.go b/internal/tui/node.go
index 4ef6c6e..e09e9c9 100644
--- a/internal/tui/node.go
+++ b/internal/tui/node.go
@@ -241,6 +241,9 @@ func (n *node) drawUtility(probs []float64) {
 			text = []rune("         ???")
 		} else {
 			text = []rune(fmt.Sprintf("%12.3f", p))
+			if len(text) > 12 {
+				text = []rune(fmt.Sprintf("%12.5g", p))
+			}
 		}
 		copy(n.runes[i+2][n.barsX+1:], text)
 	}
-- 
2.43.0


From 29dc9dfc761daa37dc6c72bdab109cc245c9f3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:03 +0000
Subject: [PATCH 36/36] fix: a click in the graph reaches the node that is
 visible there

---
 internal/tui/input.go | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index be4c9ad..2dae19c 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -203,29 +203,23 @@ func (a *App) mouseInputGraph(action tview.MouseAction, event *tcell.EventMouse)
 
 	if action == tview.MouseLeftClick {
 		x, y := a.mousePosInGraph(event.Position())
-		for i, node := range a.nodes {
-			if node.Bounds().Contains(x, y) {
-				a.selectNode(i)
-				if outcome, ok := node.SelectedOutcome(x, y); ok {
-					a.selectedState = outcome
-					if err := a.inputEnter(); err != nil {
-						panic(err)
-					}
+		if i, ok := a.nodeAt(x, y); ok {
+			a.selectNode(i)
+			if outcome, ok := a.nodes[i].SelectedOutcome(x, y); ok {
+				a.selectedState = outcome
+				if err := a.inputEnter(); err != nil {
+					panic(err)
 				}
-				a.render(true)
-				break
 			}
+			a.render(true)
 		}
 		return tview.MouseConsumed, nil
 	} else if action == tview.MouseRightClick {
 		x, y := a.mousePosInGraph(event.Position())
-		for i, node := range a.nodes {
-			if node.Bounds().Contains(x, y) {
-				a.selectNode(i)
-				a.render(true)
-				a.showTable()
-				break
-			}
+		if i, ok := a.nodeAt(x, y); ok {
+			a.selectNode(i)
+			a.render(true)
+			a.showTable()
 		}
 		return tview.MouseConsumed, nil
 	}
@@ -287,6 +281,17 @@ func (a *App) mousePosInGraph(x, y int) (int, int) {
 	return x - boxX + scrollX, y - boxY + scrollY
 }
 
+// nodeAt returns the index of the node that is visible at the given position in the graph.
+// Where nodes overlap, later ones are drawn over earlier ones.
+func (a *App) nodeAt(x, y int) (int, bool) {
+	for i := len(a.nodes) - 1; i >= 0; i-- {
+		if a.nodes[i].Bounds().Contains(x, y) {
+			return i, true
+		}
+	}
+	return -1, false
+}
+
 // selectNode selects the node with the given index, and its first state if it was not selected before.
 func (a *App) selectNode(index int) {
 	if index != a.selectedNode {
-- 
2.43.0

