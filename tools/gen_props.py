#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

p("C01", "Posterior marginals are exact",
  "For every valid network without unsolved decisions, every set of evidence and every query variable, the marginal distribution a query returns equals the conditional distribution of that variable given the evidence under the joint distribution the network's row-normalised tables define (a row of zeros makes its parent combination impossible), up to floating-point rounding. The answer has one entry per outcome, in declaration order, is non-negative and sums to one. Evidence that has probability zero yields not-a-number for every queried variable, never a fabricated distribution.",
  ["inputs"], "all networks (any DAG shape, number of outcomes, parents, tables incl. zeros and un-normalised rows), all evidence sets, all query sets",
  "The tests query a handful of small hand-written networks (sprinkler, umbrella, oil, ...) with one or two evidence sets; an error that needs a particular parent count, outcome count, elimination order or zero pattern is never reached.",
  ["network.go", "ve/ve.go", "ve/variables.go", "ve/factor.go"],
  [("evidence restriction, hidden-variable elimination and final product", "ve/ve.go (solve, eliminateHidden, removeHidden, multiplyAll)"),
   ("row normalisation when building the solver", "network.go (toVE), ve/variables.go (NormalizeFor)"),
   ("marginalise and normalise the result", "network.go (SolveQuery)")],
  ["Network.SolveQuery result map"])

p("C02", "Joint query factor equals P(query, evidence)",
  "The factor a query returns next to the marginals ranges over exactly the queried variables and its value at every assignment is the probability of that assignment together with the evidence; with no query variables it is the probability of the evidence. Taking marginals of it, normalising it and reordering it by variable name preserve those values: the marginal is the sum over the other variables, normalising divides by the total, and reordering puts the named variables in front in the given order with the last named one at the end.",
  ["inputs"], "all networks, evidence sets, query sets (size 0 to all variables, any order), all reorderings",
  "Tests look at the marginal map of one query variable; the joint factor is only inspected once for one network, and reordering once on an all-nil table.",
  ["network.go", "ve/ve.go", "ve/variables.go"],
  [("final product over remaining factors", "ve/ve.go (multiplyAll)"), ("Marginal, Normalize, Rearrange wrappers", "network.go")],
  ["Network.SolveQuery factor, Network.Marginal/Normalize/Rearrange"])

p("C03", "Expected utilities are exact, weighted by the total-utility node",
  "For every network with utility variables and every evidence, solving utility gives, for each assignment of the query variables, the sum over all other variables of probability times utility: for one named utility variable only that variable's utility, otherwise the sum of all utilities, each multiplied by its weight when the network has a total-utility variable. Dividing by the matching probability factor gives the conditional expected utility, which is not-a-number for impossible evidence. This holds after solving policies, and before it for decisions that are given as evidence or queried along with the variables they observe.",
  ["inputs"], "all networks with 1..n utility variables, optional total-utility node with any weights and parent order, all evidence and query sets, solved and unsolved decisions",
  "Tests check a few scalar utilities on fixed example networks; weights are tested in one network only.",
  ["network.go", "ve/ve.go", "ve/variables.go"],
  [("weighting and summing utility factors", "ve/ve.go (sumUtilities, removeUtilities)"), ("weights from the total-utility node", "network.go (prepareUtilityWeights)"), ("NormalizeUtility", "network.go")],
  ["Network.SolveUtility, Network.NormalizeUtility"])

p("C04", "Solved policies maximise expected utility",
  "For every decision network whose decisions are ordered and remember earlier observations and decisions (or have no observations at all), the policies found - step by step or all at once - attain the maximum total expected utility over all strategies, with weights of a total-utility variable applied. Every policy is, for each combination of its condition variables, a probability distribution over the decision's outcomes that puts weight only on utility-maximising outcomes and splits it evenly between exact ties. Every decision gets a policy, conditioned only on what was observable.",
  ["inputs"], "all influence diagrams with 1..3 ordered decisions with perfect recall or without observations, both solving modes, any tables incl. ties and zero-probability observations",
  "Tests compare the policy table of five fixed example networks; no test compares with the optimum over strategies.",
  ["network.go", "ve/ve.go", "ve/variables.go"],
  [("backward induction over decisions in topological order", "ve/ve.go (solvePolicies, getDecisions, getDecisionParents)"), ("arg-max with tie splitting", "ve/variables.go (Policy)"), ("insertion of found policies as factors", "network.go (SolvePolicies, policyFactors)")],
  ["Network.SolvePolicies result; expected utility under the result"],
  [("policies", "policies found so far, used as factors in later queries", "network.go Network.policies")])

p("C05", "Solved policies are obeyed by queries unless overridden",
  "After policies were solved, probability and utility queries behave as if each decision were a chance variable whose table is its policy, and decision evidence is conditioned on like any other observation. With policies ignored, a decision that is given as evidence is an intervention: its policy is dropped and every other decision still follows its policy. Solving policies again gives the same policies, not ones based on the previous ones, and after tables were changed or trained the policies of the changed tables.",
  ["inputs", "histories"], "all decision networks, all evidence mixing decisions and chance variables, both settings of the ignore flag, repeated solving",
  "One test on one network uses the ignore flag; no test combines several decisions, evidence on some of them, and queries on others.",
  ["network.go"],
  [("solved decisions become chance variables", "network.go (toVE)"), ("policy factors dropped for decision evidence", "network.go (policyFactors)")],
  ["Network.SolveQuery, Network.SolveUtility after Network.SolvePolicies"],
  [("policies", "policies of solved decisions", "network.go Network.policies")])

p("C06", "Answers do not depend on how the network is written down",
  "Two networks that differ only in the order in which variables or factors are declared, the order of a variable's parents or outcomes (with tables permuted to match), positive scaling of chance-table rows, or the names of variables and outcomes give the same marginals, utilities and policies, after mapping names back. For decisions the relative order of decision variables is kept.",
  ["inputs"], "all networks and all permutations/renamings/scalings of their description, all evidence and queries",
  "Every test network is declared parents-first in one order, so order dependence is invisible.",
  ["network.go", "ve/ve.go", "ve/variables.go", "ve/factor.go"],
  [("variables addressed by id and index", "ve/variable.go, ve/variables.go"), ("Rearrange of factors", "ve/variables.go")],
  ["Network.SolveQuery, SolveUtility, SolvePolicies on both descriptions"])

p("C07", "Queries are read-only and history-independent",
  "The answer to a query, utility request or policy request depends only on the network and on whether policies were solved, never on which requests - valid or failing - were made before, on the same network or repeatedly. No request changes its arguments or the network's variables or tables, modifying arguments or returned results (marginals, factors, policies) afterwards never changes any later answer, and no later request changes a result that was returned.",
  ["histories"], "all sequences of query/utility/policy/rearrange/serialise calls with valid and invalid arguments, interleaved with mutation of returned results",
  "Tests make one or two calls on a fresh network; sequences with aliasing or leftover state are not sampled.",
  ["network.go", "ve/ve.go", "ve/variables.go"],
  [("a fresh solver is built for every request", "network.go (solve, toVE)"), ("operations copy data", "ve/variables.go")],
  ["results of every call in the history, Network.Variables tables"],
  [("ve, variableNames, policies", "solver state kept between calls", "network.go Network")])

p("C08", "Factor algebra follows its mathematical definition",
  "Restricting, summing out, multiplying, adding, marginalising, normalising (overall or per variable), inverting, reordering and policy derivation on factors give at every assignment the value their mathematical definition over assignments prescribes, over exactly the expected set of variables. Operands are never changed, results never share storage with operands, and every factor has a distinct identity. Operations that are not defined for their operands (a variable that is not in the factor, an observation out of range, data of the wrong size) are refused by a panic.",
  ["inputs", "histories"], "all factors over any variables (sparse and unordered ids, 0..5 variables, 1..12 outcomes), all operation sequences",
  "Tests check each operation on one or two factors with two or three binary variables.",
  ["ve/variables.go", "ve/factor.go"],
  [("operation implementations using multi-index increment", "ve/variables.go")],
  ["ve.Variables operations, ve.Factor.Get/Data/Variables"])

p("C09", "Table addressing is a consistent row-major bijection",
  "For every factor, converting outcome indices to a position and back is a bijection onto the table in which the first variable varies slowest; getting, setting and row access address the same cells, and missing data (-1) is reported instead of addressed. A network factor's row for given parent outcomes is the slice of its table that belongs to that parent combination, sharing memory with the table. Addressing with the wrong number of indices is refused by a panic.",
  ["inputs"], "all factor shapes and all index tuples, incl. missing data markers",
  "Tests check single positions of one shape; the network-level row accessor is tested for a factor without parents only.",
  ["ve/factor.go", "network.go"],
  [("Index, IndexWithNoData, Outcomes, RowIndex, Row", "ve/factor.go"), ("Factor.Row, rowIndex", "network.go")],
  ["ve.Factor and bbn.Factor accessors"])

p("C10", "The low-level solver is exact for arbitrary factors",
  "Used directly with any set of chance variables with arbitrary identifiers and any non-negative factors that together mention all of them, the variable-elimination solver returns the product of all factors with non-query variables summed out and evidence fixed; with utility variables it returns the weighted sum of utilities times that product. Its policies maximise the remaining utility for every combination of the decision's observations, in single-step mode for the last decision only. A variable identifier already in use is refused.",
  ["inputs"], "all factor graphs incl. several factors per variable, un-normalised factors, sparse identifiers; all evidence/query sets",
  "Tests use one umbrella-like network with ids 0..n in declaration order.",
  ["ve/ve.go", "ve/variables.go", "ve/variable.go"],
  [("VE.SolveQuery/SolveUtility/SolvePolicies", "ve/ve.go"), ("AddVariable", "ve/variables.go")],
  ["ve.VE results"])

p("C11", "Writing a network and reading it back loses nothing",
  "Serialising any network to YAML and loading the result gives a network with the same name, info text, variables in the same order with the same types, outcomes, positions and colours, the same parents and exactly equal table values, and hence the same answers. Serialising again gives the same text, and serialising does not change the network.",
  ["inputs"], "all networks incl. names that look like YAML syntax, numbers or booleans, multi-line info, unicode, extreme floats, empty tables",
  "One test serialises one network and compares nothing but absence of errors / a single round.",
  ["yml.go", "network.go"],
  [("ToYAML / FromYAML", "yml.go")],
  ["FromYAML(ToYAML(net)) compared field by field"])

p("C12", "Files are loaded faithfully, in both formats",
  "Loading a YAML or BIF-XML document gives exactly the variables, outcomes, types, parents, positions (pixels in XML, two per column and twelve per row) and tables the document states, in document order, independent of formatting, of the order of definitions and of the spelling of numbers; the file reader chooses the format by extension, ignoring case, and gives the same network as parsing the content. The same network written in either format gives the same answers.",
  ["inputs"], "all documents describing a valid network in either format, with formatting variations; all file extensions",
  "Tests load the shipped examples and check that no error occurs.",
  ["yml.go", "xml.go", "network.go"],
  [("FromYAML, toTable", "yml.go"), ("FromBIFXML, parsePosition", "xml.go"), ("FromFile", "network.go")],
  ["Network.Variables after loading; query results of both formats"])

p("C13", "Malformed networks are rejected with an error, never a crash",
  "Building or loading a network never panics, whatever the input (within available memory). Definitions that cannot describe a network - cycles, unknown or duplicate variables, tables of the wrong size, utility variables without parents or with mixed parents, inconsistent total-utility variables, variables without outcomes, unknown types, operators, fields or syntax - are rejected with an error. Every network that is accepted with complete tables can be queried, serialised, re-loaded and solved without a panic.",
  ["inputs"], "all byte strings given to the loaders and all variable/factor lists given to the constructor (mutations of valid ones)",
  "Tests try three or four malformed definitions.",
  ["network.go", "yml.go", "xml.go", "logic/factor.go"],
  [("validation in the constructor", "network.go (prepareVariables, prepareUtilityNodes)"), ("strict decoding", "yml.go, xml.go")],
  ["error/panic of New, FromYAML, FromBIFXML, FromFile and of requests on accepted networks"])

p("C14", "Invalid requests are answered with an error",
  "Evidence or queries that name an unknown variable or outcome, a utility variable, or query a variable that is also given as evidence, and utility requests for something that is not a utility variable, return an error and no result instead of panicking or giving an answer. After such a request the network answers valid requests as before. Converting a valid variable/outcome pair to evidence works at any time, including before any request, and gives one at the outcome and zero elsewhere.",
  ["inputs", "histories"], "all invalid evidence/query arguments at any point of a request history",
  "Tests try one unknown variable and one unknown outcome.",
  ["network.go"],
  [("argument lookup in solve and ToEvidence", "network.go")],
  ["errors of SolveQuery, SolveUtility, ToEvidence"])

p("C15", "Logic operators produce their documented truth tables",
  "For every logic operator, argument and number of parents it accepts, the generated table is exactly the documented function of the parents: the first outcome is true, rows run over the parents with the first parent varying slowest, parents are counted from zero in the declared order, and each row is a distribution over the declared outcomes. The same table results from the operator's constructor, from looking it up by name, and from a network file, where operator names may be in upper or lower case, and a query on a logic variable with known parents gives that function's value.",
  ["inputs"], "all operators, all argument values, 0..6 parents, all parent assignments",
  "Tests check each operator for one argument and one parent count (the argument in the middle, so mirror images agree).",
  ["logic/simple.go", "logic/count.go", "logic/given.go", "logic/outcome.go", "logic/bits.go", "logic/factor.go", "yml.go"],
  [("Table implementations", "logic/*.go"), ("operator lookup and argument parsing", "yml.go (toTable), logic/factor.go (Get)")],
  ["logic.Factor.Table, FromYAML + SolveQuery"])

p("C16", "Logic operators are independent and validate their arguments",
  "Two operators obtained by name never influence each other: setting the arguments of one changes no table obtained from another, and tables returned can be modified without affecting later ones. Wrong numbers of arguments or operands and indices, values or lengths that cannot refer to a parent or outcome are rejected with an error; no argument makes an operator panic.",
  ["inputs", "histories"], "all interleavings of lookup, argument setting and table creation over all operators, all integer arguments",
  "Tests use one operator at a time with valid arguments.",
  ["logic/factor.go", "logic/given.go", "logic/outcome.go", "logic/count.go", "logic/simple.go"],
  [("operator registry", "logic/factor.go (Get)"), ("SetArgs / Table validation", "logic/*.go")],
  ["logic.Get, SetArgs, Table"],
  [("factors", "registry of operators", "logic/factor.go")])

p("C17", "Training gives relative frequencies and mean utilities",
  "After training, every row of a chance variable's table holds the relative frequencies of its outcomes among the samples with that row's parent outcomes, and every entry of a utility variable's table the mean of the utility values of the samples with that row's parent outcomes. Samples missing the variable or one of its parents are left out for that variable only; decision variables and the weights of a total-utility variable are not trained. Updating fails with an error exactly if some row to be trained has no usable sample, and the order of samples is irrelevant.",
  ["inputs", "histories"], "all networks, all sample sequences incl. missing values",
  "Tests train one chance network and check a few entries; utility training is tested only by a commented-out test.",
  ["training.go", "network.go"],
  [("AddSample, UpdateNetwork", "training.go"), ("row addressing", "network.go (rowIndex)")],
  ["tables of the network returned by Trainer.UpdateNetwork"],
  [("data, counter", "sums and counts per row", "training.go Trainer")])

p("C18", "The train command turns CSV data into a correctly trained network file",
  "The train command prints a network file that loads to the input network - same name, info, variables, outcomes, positions, colours, parents - with tables equal to the relative frequencies and means in the CSV data, matched by column name in any column order, with extra columns ignored, any delimiter, and the no-data value treated as missing, also for utilities. Missing columns, unknown outcomes, unparsable utilities, untrained rows, ambiguous no-data values and unreadable files give exit code 1 with an error message and no network, never a crash.",
  ["inputs", "configurations"], "all networks and CSV contents, column orders, quoting, delimiters, no-data values",
  "The command's tests are commented out.",
  ["cmd/bbn/train.go", "internal/tui/training.go", "training.go", "yml.go"],
  [("TrainNetwork, prepare", "internal/tui/training.go"), ("trainCommand", "cmd/bbn/train.go")],
  ["exit code and standard output of the bbn binary"])

p("C19", "The inference command prints the correct numbers",
  "For every network file and evidence, the inference command prints one block per variable in file order: its outcome names and below them the posterior probabilities in percent (given the evidence and following solved policies), marked with '+' for evidence; for utility variables the conditional expected utility, the total utility, and for a total-utility variable the weighted parts and the total. Impossible evidence shows as not-a-number, and invalid files or evidence give exit code 1 with an error message, never a crash.",
  ["inputs"], "all network files (both formats) and all evidence arguments",
  "One test runs the command's inner function once and checks for no error.",
  ["cmd/bbn/inference.go", "internal/tui/solve.go", "internal/tui/util.go", "network.go"],
  [("Solve", "internal/tui/solve.go"), ("printing", "cmd/bbn/inference.go")],
  ["exit code and standard output of the bbn binary"])

p("C20", "The interactive display always matches the evidence entered",
  "At every point of an interactive session, the numbers and bars shown in the nodes are the posterior probabilities and expected utilities for exactly the evidence that results from the key presses and clicks so far, with policies followed or ignored as toggled; the markers show which node and outcome are selected and which nodes have evidence; and each node is drawn where it is placed and in its colour (without one: white, utilities green, decisions blue), with lines ending in arrows that lead to it from its parents. Enter or a click on an outcome sets it as evidence, replaces the node's other evidence, or clears it if already set, and where nodes overlap a click goes to the one on top; utility nodes never take evidence.",
  ["histories", "inputs"], "all event sequences (tab, backtab, space, digits, enter, p, clicks anywhere, dialogs opened and closed) on all networks and initial evidence",
  "The interactive application has no test beyond box geometry.",
  ["internal/tui/app.go", "internal/tui/input.go", "internal/tui/node.go", "internal/tui/render.go", "internal/tui/solve.go"],
  [("inputMainPanel, inputEnter, mouseInputGraph", "internal/tui/input.go"), ("Render", "internal/tui/node.go")],
  ["terminal cells of the bbni binary after each event"],
  [("evidence, selectedNode, selectedState, ignorePolicies", "session state", "internal/tui/app.go App")])

p("C21", "The table view shows the variable's table or policy",
  "The table opened for a node lists its parents and outcomes as header, and one line per combination of parent outcomes with the first parent varying slowest, showing the chance table row-normalised in percent, the utility values, or, for a decision, its solved policy. Opening it by key or right click shows the table of the selected node, at any point of the session.",
  ["histories", "inputs"], "all networks and nodes, opened after any event sequence",
  "No test covers the table view.",
  ["internal/tui/table.go", "internal/tui/input.go", "internal/tui/app.go"],
  [("Table.GetCell", "internal/tui/table.go"), ("showTable", "internal/tui/input.go")],
  ["terminal cells of the bbni binary while the table is open"])

p("C22", "Interactive sessions never crash; moving and saving are exact",
  "No sequence of supported keys and mouse clicks crashes the interactive application or changes a node's table. Moving a node changes only that node's position by one cell per key press, never to negative coordinates, and the box is drawn and clickable where it now is. Saving writes, next to the input file, a network file that loads to the current network - after training, if training data was given - with the current positions, and never touches the input file. Network files, evidence, options or training data that cannot be used are refused with exit code 1 and an error message before anything is shown.",
  ["histories", "inputs"], "all sequences of supported keys, clicks, moves and saves, on all networks with optional training data, delimiter and no-data value",
  "No test drives the application.",
  ["internal/tui/app.go", "internal/tui/input.go", "internal/tui/render.go", "internal/tui/bounds.go", "internal/tui/training.go", "cmd/bbni/main.go"],
  [("moveNode, saveNetwork", "internal/tui/input.go"), ("createCanvas, renderNodes, renderEdges", "internal/tui/app.go, render.go")],
  ["exit status of the bbni binary, terminal cells, the saved file"])

p("C23", "Independent networks can be used concurrently",
  "Networks that were built or loaded separately can be built, queried, solved, trained and serialised from different goroutines at the same time: each gives the same results as when used alone, and there are no data races. This includes loading network files with logic operators concurrently.",
  ["schedules", "inputs"], "all interleavings of operations on separately built networks",
  "Tests are sequential and run without the race detector.",
  ["logic/factor.go", "yml.go", "network.go", "ve/variables.go"],
  [("no shared mutable state between networks", "logic/factor.go, network.go, ve/*.go")],
  ["results per goroutine, race detector reports"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))
