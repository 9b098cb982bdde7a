"""What each check runs: package, size per tier (percent of the counts in the Go code), rule of non-triviality."""

CHECKS = {
    "C01": {"pkg": "core", "quick": 5000, "thorough": 60000,
            "rule": "generated network + evidence + query against enumeration of all assignments (message passing for large trees); non-trivial: evidence and query non-empty (and the network has an edge)"},
    "C02": {"pkg": "core", "quick": 8000, "thorough": 100000,
            "rule": "generated network + evidence + query, joint factor compared cell by cell; non-trivial: at least two query variables and an edge"},
    "C03": {"pkg": "core", "quick": 4000, "thorough": 50000,
            "rule": "generated network with utilities + evidence + query against probability-weighted sums over all assignments; non-trivial: evidence or query non-empty"},
    "C04": {"pkg": "core", "quick": 2500, "thorough": 30000,
            "rule": "generated decision network against backward induction and, if small, enumeration of all strategies; non-trivial: a decision exists and the network has at least two edges (without observations: at least two decisions)"},
    "C05": {"pkg": "core", "quick": 2500, "thorough": 30000,
            "rule": "generated decision network, solved, then queries with policies followed or ignored; non-trivial: some decision is given as evidence (solving again: at least two decisions)"},
    "C06": {"pkg": "core", "quick": 2500, "thorough": 30000,
            "rule": "generated network and an equivalent re-description of it; non-trivial: the network has an edge"},
    "C07": {"pkg": "core", "quick": 7000, "thorough": 80000,
            "rule": "generated network + history of requests, modifications of results in between; non-trivial: at least three kinds of steps"},
    "C08": {"pkg": "core", "quick": 12000, "thorough": 150000,
            "rule": "generated sequences of factor operations against functions over assignments; non-trivial: at least two kinds of operations in the sequence"},
    "C09": {"pkg": "core", "quick": 8000, "thorough": 150000,
            "rule": "generated factors, every cell addressed, and rows of network factors; non-trivial: at least two variables (rows: at least one edge)"},
    "C10": {"pkg": "core", "quick": 9000, "thorough": 100000,
            "rule": "generated variables and factors given to the solver directly; non-trivial: at least two factors and a variable that is summed out (policies: a decision; identifiers: a repeated one)"},
    "C11": {"pkg": "core", "quick": 1500, "thorough": 20000,
            "rule": "generated network (arbitrary text, extreme numbers, missing tables) written, read back, written again; non-trivial: at least two variables and an edge"},
    "C12": {"pkg": "core", "quick": 2000, "thorough": 25000,
            "rule": "generated documents in many spellings of both formats against the network they were generated from; non-trivial: the network has an edge"},
    "C13": {"pkg": "core", "quick": 600, "thorough": 10000, "fuzz": ["FuzzYAML", "FuzzXML"],
            "rule": "generated malformed definitions, arbitrary definitions against a reference validator, and mutated documents (thorough: also coverage-guided fuzzing of documents); non-trivial: a defect was planted, the document was mutated, or at least two variables are defined"},
    "C14": {"pkg": "core", "quick": 8000, "thorough": 100000,
            "rule": "generated network + invalid requests of each kind between valid ones; non-trivial: all invalid requests, and conversions to evidence in networks of at least two variables"},
    "C15": {"pkg": "core", "quick": 3000, "thorough": 40000,
            "rule": "generated operators, arguments and numbers of parents, and network files with logic variables, against truth tables; non-trivial: at least one parent"},
    "C16": {"pkg": "core", "quick": 20000, "thorough": 400000,
            "rule": "generated histories over several operator instances with valid and invalid arguments; non-trivial: some operator is used through two instances; for single operators: arguments are given"},
    "C17": {"pkg": "core", "quick": 3000, "thorough": 100000,
            "rule": "generated network + samples with missing values against counted frequencies and means; non-trivial: training succeeds and the network has an edge"},
    "C18": {"pkg": "core", "tools": ["bbn"], "quick": 240, "thorough": 3000,
            "technique": "property-based testing with rapid of the bbn program: generated network files and CSV data against counted frequencies and means",
            "rule": "generated network file + CSV data + flags, run through the bbn program; non-trivial: training succeeds and the network has an edge; all invalid inputs"},
    "C19": {"pkg": "core", "tools": ["bbn"], "quick": 240, "thorough": 3000,
            "technique": "property-based testing with rapid of the bbn program: generated network files and evidence against enumeration",
            "rule": "generated network file + evidence flags, run through the bbn program; non-trivial: evidence is given and the network has an edge; all invalid inputs"},
    "C20": {"pkg": "core", "tools": ["bbni"], "quick": 320, "thorough": 4000,
            "technique": "model-based testing with rapid of the bbni program: generated event sequences on an in-memory screen against a model of the session",
            "rule": "generated network file + initial evidence + up to 25 events, the whole screen compared after each event; non-trivial: at least three kinds of events"},
    "C21": {"pkg": "core", "tools": ["bbni"], "quick": 240, "thorough": 3000,
            "technique": "model-based testing with rapid of the bbni program: tables opened in generated sessions, read from an in-memory screen",
            "rule": "generated network file (sometimes trained) + up to 25 events, every opened table read cell by cell; non-trivial: tables of at least two nodes were read"},
    "C22": {"pkg": "core", "tools": ["bbni"], "quick": 320, "thorough": 4000,
            "technique": "model-based testing with rapid of the bbni program: generated event sequences with moves and saves on an in-memory screen, saved files compared with the model",
            "rule": "generated network file (sometimes trained) + event sequence; non-trivial: at least one move and one save; for arbitrary keys and clicks: at least 10 events; all inputs that must be refused"},
    "C23": {"pkg": "core", "race": True, "quick": 400, "thorough": 8000,
            "technique": "property-based testing with rapid under the race detector: generated concurrent jobs against the same jobs alone",
            "rule": "two to five generated networks, each loaded, queried, solved, trained, serialised in a goroutine of its own, four times over; non-trivial: all"},
}
