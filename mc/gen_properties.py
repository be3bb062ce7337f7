#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the file stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": observe, "hook_needed": None}})

prop("C01", "Compiling an SDD to a PSDD preserves the Boolean function",
  "Converting any SDD (over the whole vtree, or over a sub-vtree with its variables renamed) gives a PSDD that is consistent with exactly the partial assignments that extend to a model of the SDD, whose model count is the number of models, and whose conversion back to an SDD is the same function. The false SDD gives no PSDD and the true SDD gives one that admits everything. Nothing else that already lives in the same manager, and neither vtree, is altered by the conversion.",
  ["inputs", "programs", "configurations"], "every Boolean function, every vtree (shape and variable order), every placement of the sub-vtree, variable renaming and flag",
  "Tests convert a handful of fixed CNF-like constraints on one balanced vtree; the property quantifies over all functions and vtrees.",
  ["src/psdd_manager.cpp", "src/psdd_node.cpp"],
  [("ConvertSddToPsdd / FromSdd", "src/psdd_manager.cpp"), ("NormalizePsddNode / GetTrueNode", "src/psdd_manager.cpp"), ("IsConsistent, ModelCount, ConvertPsddNodeToSddNode, SetActivationFlag", "src/psdd_node.cpp")],
  ["returned node's IsConsistent / ModelCount / SDD conversion", "vtree data after the call"],
  [{"name": "vtree data tags", "meaning": "temporary map from SDD vtree to PSDD vtree nodes", "where": "TagSddVtreeWithPsddVtree"}])

prop("C02", "A CNF file compiles to exactly the models of its clauses",
  "Reading a CNF (any legal layout: header, comment and blank lines, several clauses on one line, a clause closed by 0 or by the end of the line) yields its clauses, and compiling it for a manager yields a PSDD whose models are exactly the assignments satisfying every clause, or no PSDD when there is none. The same holds for clauses given in memory, for any vtree and any variable numbering.",
  ["inputs", "programs"], "every clause set and text layout, every vtree and variable numbering",
  "Tests compile one or two fixed CNFs; layouts, tautologies, duplicate literals, empty clauses and sparse variable numbers are never tried.",
  ["src/cnf.cpp", "include/psdd/cnf.h"],
  [("CNF(filename) parser", "src/cnf.cpp"), ("ConstructSddFromCnf / Compile", "src/cnf.cpp")],
  ["CNF::clauses()", "models of the compiled PSDD"])

prop("C03", "Probability of evidence equals the brute-force sum",
  "For every PSDD with locally normalised parameters and every complete or partial assignment, the evaluated probability equals the sum of the probabilities of all complete assignments that extend it; with no evidence it is one, and for an impossible assignment it is zero. It stays right in the log domain for probabilities far below the smallest double.",
  ["inputs", "programs"], "every PSDD structure and parametrisation, every evidence set and value, every variable numbering",
  "Tests evaluate complete assignments on a few circuits; partial evidence, zero parameters, shared nodes, sparse variable numbers and underflow are not covered.",
  ["src/psdd_node.cpp", "src/psdd_parameter.cpp"],
  [("Evaluate (bottom-up, cached by node)", "src/psdd_node.cpp"), ("log-space sum and product", "src/psdd_parameter.cpp")],
  ["psdd_node_util::Evaluate"])

prop("C04", "Single-variable marginals equal the brute-force marginals",
  "For every locally normalised PSDD the marginal query reports, for each variable of the circuit, exactly the probability that the variable is false and that it is true under the PSDD's distribution, the two summing to one. No variable is missing and none is invented.",
  ["inputs", "programs"], "every PSDD structure (shared sub-circuits, single-element nodes, leaves as roots) and parametrisation",
  "Tests compare marginals on a few fixed models; sharing patterns and zero parameters decide whether derivative accumulation is right.",
  ["src/psdd_node.cpp"], [("GetMarginals (top-down derivatives)", "src/psdd_node.cpp")], ["psdd_node_util::GetMarginals"])

prop("C05", "The most probable explanation is a true maximiser",
  "For every PSDD the MPE query returns a complete assignment whose probability equals the reported value, and no assignment has a larger probability. The result does not mention variables outside the circuit.",
  ["inputs", "programs"], "every PSDD structure and parametrisation, including ties and zero parameters",
  "Tests check three fixed circuits; ties, near-ties, zero weights, shared nodes and deep chains are not covered.",
  ["src/psdd_node.cpp"], [("GetMPESolution (max-product and traceback)", "src/psdd_node.cpp")], ["psdd_node_util::GetMPESolution"])

prop("C06", "Multiplying two PSDDs gives their normalised product and constant",
  "For PSDDs p and q of one vtree, the product operation returns r and Z with Z*r(x) = p(x)*q(x) for every complete assignment x, with r normalised and Z the sum of all products. It returns no PSDD and Z = 0 exactly when p and q have no assignment in common, and an absent (false) operand behaves like the zero function. The operands are left unchanged.",
  ["inputs", "programs"], "every pair of PSDDs on every vtree, supports overlapping in every way, zero parameters included",
  "Tests multiply a few pairs with overlapping positive supports; disjoint and partially disjoint supports, zero parameters and chained products are not enumerated.",
  ["src/psdd_manager.cpp"], [("Multiply / MultiplyWithCache / ComputationCache", "src/psdd_manager.cpp")], ["result node and constant"])

prop("C07", "Learned parameters are exactly the smoothed context counts",
  "Learning from a complete dataset gives, at every decision node and every free-variable leaf, parameters equal to (number of examples reaching that branch in context + pseudo-count) divided by the total over the branches, and a locally normalised model of the same support structure, for any number of examples including none. Running it again on the same inputs, or after learning from other data, gives the same result, and the input structure and the data are unchanged.",
  ["inputs", "histories", "programs"], "every structure, every multiset of examples (inside and outside the support), every pseudo-count including zero, every sequence of learning calls",
  "Tests learn from two fixed datasets; counts that cross word or chunk boundaries, examples outside the support, repeated runs and zero pseudo-counts are not covered.",
  ["src/psdd_manager.cpp", "src/psdd_node.cpp"],
  [("LearnPsddParameters (batched upward/downward pass)", "src/psdd_manager.cpp"), ("data counts on nodes", "src/psdd_node.cpp")],
  ["parameters of the returned PSDD"],
  [{"name": "batched values and data counts", "meaning": "per-node scratch state that must be clean between runs", "where": "include/psdd/psdd_node.h"}])

prop("C08", "A PSDD written to a file reads back as the same distribution",
  "Writing any PSDD and reading the file into a manager with the same vtree, even in another process, gives the same structure and support with every parameter equal up to the six printed decimals of its logarithm, zero parameters included. Reading it back into the same manager twice gives the identical node, the file lists children before parents and the root last with the declared node count, and writing leaves the PSDD unchanged.",
  ["inputs", "programs"], "every PSDD structure, root position in the vtree and parameter value (zero, one, tiny), every variable numbering",
  "Tests round-trip a few normalised circuits; zero parameters, leaf roots, sub-vtree roots and very small probabilities are not covered.",
  ["src/psdd_node.cpp", "src/psdd_manager.cpp"], [("WritePsddToFile", "src/psdd_node.cpp"), ("ReadPsddFile", "src/psdd_manager.cpp")], ["file content", "node returned by ReadPsddFile"])

prop("C09", "Equal requests give the identical node, different requests distinct nodes",
  "Within one manager, asking for a literal, a free-variable leaf or a decision with the same flag, content and parameters always returns the identical node, and asking for anything that differs (sign, variable, flag, either leaf parameter, any child, any element parameter, number of elements) never returns a node with other content than was asked for. This holds whatever was created before, in whatever order, and after garbage collection, and the order in which a decision's elements are listed does not matter.",
  ["histories", "inputs"], "every sequence of node requests and collections on a manager",
  "Tests create a few nodes in one order; a canonical store fails only for particular pairs of keys met in a particular order.",
  ["src/psdd_unique_table.cpp", "src/psdd_manager.cpp", "src/psdd_node.cpp"],
  [("unique table comparator", "src/psdd_unique_table.cpp"), ("element sorting in the decision constructor", "src/psdd_node.cpp")],
  ["pointer identity and content of returned nodes"],
  [{"name": "per-vtree ordered sets", "meaning": "the canonical nodes", "where": "PsddUniqueTableImp"}])

prop("C10", "Collection never touches live nodes and releases all others",
  "After any history of node creation, compilation, multiplication, learning and collection, every node reachable from the roots passed to a collection is still the same node with the same content, still canonical and usable for every operation. Nodes reachable from no root are gone from the manager and their memory is released, so repeating the same work and collecting does not grow memory; destroying the manager releases everything it made.",
  ["histories"], "every sequence of operations, choices of roots and collections",
  "The unit tests never collect (the source says TODO: testing this function); use-after-free and leaks depend on the history.",
  ["src/psdd_unique_table.cpp", "src/psdd_manager.cpp"], [("DeleteUnusedPsddNodes / GetCoveredPsddNodes", "src/psdd_unique_table.cpp, src/psdd_node.cpp"), ("~PsddManager", "src/psdd_manager.cpp")],
  ["content of live nodes", "live heap blocks", "address sanitizer"])

prop("C11", "Queries do not disturb the model or each other",
  "The answer of every query (evaluation, marginals, MPE, model count, consistency, size, export, conversion to SDD, sampling with a given random stream) on a PSDD depends only on that PSDD and the arguments: it is the same whatever queries, learning runs, multiplications or sampling runs were made before, on this PSDD or on one sharing nodes with it. Queries never change structure or parameters.",
  ["histories"], "every sequence of queries and transformations over PSDDs sharing nodes",
  "Each unit test makes one query on a fresh model; leftover per-node scratch state shows only in sequences.",
  ["src/psdd_node.cpp", "src/psdd_manager.cpp"], [("user data / activation flag / data counts reset after each algorithm", "src/psdd_node.cpp, src/psdd_manager.cpp")],
  ["answers of all queries after any prefix"],
  [{"name": "user data, activation flag, data counts, batched values", "meaning": "scratch state on shared nodes", "where": "include/psdd/psdd_node.h"}])

prop("C12", "Sampling follows the model for every stream of random draws",
  "For every possible sequence of uniform draws, including the extreme values, sampling a normalised PSDD terminates without aborting, returns an assignment of positive probability that sets no foreign variable, and every assignment is returned for a set of draw sequences whose measure equals its probability.",
  ["inputs", "fault_sequences"], "every normalised PSDD and every sequence of generator outputs in [0,1), any generator range",
  "Tests cannot enumerate the generator; boundary draws have probability near zero under a real generator.",
  ["src/psdd_node.cpp", "include/psdd/random_double_generator.h"], [("DirectSample of literal, decision and leaf nodes", "src/psdd_node.cpp")], ["sampled assignment"])

prop("C13", "Parameter sampling keeps the structure and normalises the draws",
  "Sampling parameters for one or several PSDDs returns, for each given root in order, a PSDD with the same structure and support in which every decision and every free-variable leaf has parameters proportional to positive draws from the generator, each draw used once, and summing to one. Nodes shared between the given roots stay shared, roots may contain each other, and the inputs are unchanged.",
  ["inputs", "programs"], "every PSDD or list of PSDDs (sharing, nesting, repetition) and every stream of positive draws",
  "Tests sample one circuit with one seed; lists of roots, nested roots and extreme draws are not covered.",
  ["src/psdd_manager.cpp", "src/psdd_node.cpp"], [("SampleParametersForMultiplePsdds", "src/psdd_manager.cpp"), ("SerializePsddNodes (several roots)", "src/psdd_node.cpp")], ["returned nodes"])

prop("C14", "Probability values obey log-space arithmetic consistently",
  "Sums, products and quotients of probability values agree with real arithmetic for every combination of zero, one, tiny, huge and ordinary values, and compound assignment gives the same value as the corresponding binary operator in every observable respect. Equality, order and hash depend only on the value, never on how it was computed; equal values have equal hashes, exactly one of less, equal and greater holds, and the order is transitive.",
  ["histories", "inputs"], "every sequence of operations on every value",
  "Tests use parameters only through a few circuits; order and equality after compound assignment and at zero are never checked.",
  ["src/psdd_parameter.cpp"], [("operators and the rounded hash used for comparison", "src/psdd_parameter.cpp")], ["PsddParameter operators"])

prop("C15", "Embedding a PSDD in a larger vtree or other manager preserves it",
  "Loading a PSDD into a manager whose vtree contains its vtree, or lifting a node to an ancestor in the vtree, gives a well-formed PSDD for the target vtree with the same distribution on the original variables and every value of the added variables allowed, with the requested flag; the source is unchanged. The result is the same whether or not the target already holds related nodes.",
  ["inputs", "programs", "configurations"], "every PSDD, every position of its vtree inside the target vtree, same or other manager, every flag",
  "Tests load one circuit into one manager of the same shape.",
  ["src/psdd_manager.cpp"], [("LoadPsddNode / NormalizePsddNode / GetTrueNode / GetConformedPsddDecisionNode", "src/psdd_manager.cpp")], ["returned node"])

prop("C16", "Vtree utilities return exactly the asked-for vtree and leave no trace",
  "Copying, renaming, projecting and locating sub-vtrees return a vtree with exactly the expected shape, leaves and positions; traversals list every node once, parents first, or the leaves from left to right. The input vtree is unchanged (shape and positions, and no data is left in it), a projection keeps precisely the requested variables in their relative structure, and a sub-vtree is found exactly when its variables are exactly those requested.",
  ["inputs", "configurations"], "every vtree and every non-empty variable subset and renaming",
  "Tests check two vtrees of one shape and two variable sets.",
  ["src/psdd_node.cpp"], [("vtree_util functions", "src/psdd_node.cpp")], ["returned vtrees and lists"],
  [{"name": "vtree data pointers", "meaning": "scratch used while copying", "where": "vtree_util"}])

prop("C17", "A compiled network is the normalised product of its factors",
  "For every Markov or Bayesian network file (any factor scopes, constants with an empty scope and networks without factors included, any entry layout and zero entries) and every vtree over its variables, each compiled factor and each of the three network compilation strategies gives a normalised PSDD p and constant Z with Z*p(x) equal to the product of the factor entries selected by x, for every x, whatever the collection frequency and whatever the compiler was asked before. A network whose product is zero everywhere gives no PSDD and Z = 0.",
  ["inputs", "configurations", "programs"], "every network, variable order in scopes, vtree, compilation strategy and collection frequency",
  "The compiler needs two libraries that are absent in the test build, so no test runs it; zeros and scope orders need enumeration.",
  ["src/pgm_compiler.cpp", "src/uai_network.cpp"], [("compile_factor, compile_network, compile_network_dc, compile_network_with_vtree", "src/pgm_compiler.cpp"), ("read_file", "src/uai_network.cpp")], ["returned node and constant"])

prop("C18", "Every constructed vtree contains each network variable exactly once",
  "Each vtree construction method (elimination order, join tree, hypergraph partition) returns, for every network (including variables in no factor), every working directory and every answer of the ordering, decomposition or partitioning library that meets its contract, a well-formed vtree whose leaves are exactly the network's variables, each once. Construction terminates for every such answer.",
  ["inputs", "configurations", "fault_sequences"], "every network hypergraph and every legal answer of the external library",
  "The three tests for this are not even linked offline and rely on one answer of the library.",
  ["src/minfill_vtree.cpp", "src/jointree_vtree.cpp", "src/hypergraph_decomposition_vtree.cpp"],
  [("VtreeFromGraph", "src/minfill_vtree.cpp"), ("post-order assembly", "src/jointree_vtree.cpp"), ("PartitionGraph / FactorGraphToVtree", "src/hypergraph_decomposition_vtree.cpp")], ["returned vtree"])

prop("C19", "Delimited data is read and written exactly, with no memory error",
  "For every byte sequence the delimited-text reader terminates without touching memory it does not own, and for well-formed input (quoted fields, doubled quotes, embedded delimiters and line breaks, CRLF, last line with or without a line end, any delimiter, optional header) it returns exactly the rows and fields. Loading a dataset counts every row once, keeps the exact multiset of rows, and writing it and reading it back gives the same multiset; a load replaces what the object held.",
  ["inputs", "histories"], "every short text over the special characters, every field length and count, every sequence of load, add and write",
  "No test reads a delimited file at all; quoting and end-of-input combinations need enumeration.",
  ["src/csvparser.c", "src/binary_data.cpp"], [("_CsvParser_getRow state machine", "src/csvparser.c"), ("BinaryData::ReadFile / WriteFile / AddRecord", "src/binary_data.cpp")], ["rows and fields", "data(), data_size(), variable_size()"])

prop("C20", "Sparse JSON data becomes exactly the valid examples",
  "Reading a sparse JSON dataset yields one record per valid example with exactly the listed variables true, skips every example that is not a list of (whole) variable numbers between one and the declared number of variables, and names a skipped example by its position. A document without the required fields (or with fields of another type) yields no dataset.",
  ["inputs"], "every short document: example shapes, variable numbers in and out of range, duplicates, order",
  "No test reads a JSON file.",
  ["src/binary_data.cpp"], [("ReadSparseDataJsonFile", "src/binary_data.cpp")], ["data(), data_size(), variable_size()"])

prop("C21", "The inference tool reports the correct posterior answers",
  "For every model file, vtree file, CNF evidence file and combination of query options, the inference program reports the most probable assignment, its probability and the marginals of the model conditioned on the evidence, lists every variable, and says UNSATISFIED exactly when the evidence is impossible. It ends normally for every such input.",
  ["inputs", "configurations"], "every model, vtree, evidence and option combination",
  "No test runs the program.",
  ["psdd_inference_main.cpp", "src/cnf.cpp", "src/psdd_manager.cpp"], [("main", "psdd_inference_main.cpp")], ["standard output and exit status"])

prop("C22", "The network compiler tool writes a model equal to the network",
  "For every network file and vtree method the compiler program writes a model and a vtree that read back as the normalised product of the factors and prints the logarithm of its constant; for a network with no possible assignment it ends normally and prints UNSATISFIED. A method other than 1, 2 and 4 names a vtree file, and the model uses that vtree. The tool's outputs are usable as inputs of the inference tool.",
  ["inputs", "configurations"], "every network, vtree method and library answer",
  "The program cannot be linked in the test build, so nothing runs it.",
  ["uai_compiler.cpp", "src/pgm_compiler.cpp"], [("main", "uai_compiler.cpp")], ["output files, standard output and exit status"])

prop("C23", "Missing or unreadable input is never taken for empty input",
  "Whenever an input file named by the caller (model, evidence, network, data) is missing, cannot be opened or cannot be read (at its beginning or later), or a network file ends before its tables do, the operation or program stops with an error and a message instead of continuing as if the file were empty or had ended there.",
  ["fault_sequences", "configurations"], "every entry point that reads a file, each way the open can fail",
  "No test passes a missing file.",
  ["src/cnf.cpp", "src/binary_data.cpp", "src/psdd_manager.cpp", "src/uai_network.cpp", "psdd_inference_main.cpp", "uai_compiler.cpp"],
  [("open checks", "src/psdd_manager.cpp, src/cnf.cpp, src/binary_data.cpp, src/uai_network.cpp")], ["exit status, error stream"])

prop("C24", "Every question about what a PSDD admits gets the same answer",
  "For every PSDD whose parameters are positive, all ways to ask about its support agree with its structure, for every complete and partial assignment: each consistency query (by node, by serialised nodes, by map, by bits), whether the evaluated probability is positive, the model count (exact, however large), the marks set for a complete assignment on every node, and the conversion to an SDD over any vtree, variable renaming and SDD manager (also one that minimises and collects by itself). Marks and data left by earlier calls change nothing, and the conversion leaves no data in the nodes and keeps nothing alive in the SDD manager.",
  ["inputs", "programs", "configurations"], "every circuit of the families and each of its nodes, every assignment, every target vtree and renaming",
  "Tests ask a few of these questions about a few circuits and never compare the answers; no test converts into an automatic SDD manager.",
  ["src/psdd_node.cpp"],
  [("IsConsistent (five forms)", "src/psdd_node.cpp"), ("ModelCount", "src/psdd_node.cpp"), ("SetActivationFlag", "src/psdd_node.cpp"), ("ConvertPsddNodeToSddNode", "src/psdd_node.cpp")],
  ["answers of the queries", "activation_flag() of every node", "models of the SDD"])

prop("C25", "Any sequence of model operations gives the models the algebra says",
  "Compiling, building, learning, multiplying, conditioning on a literal, writing and reading, loading into another manager, sampling parameters, collecting, converting to an SDD and back and lifting a part compose: whatever was done before in the managers involved, with whatever flags, each operation applied to the result of any other gives the model (weights, support, constant, or the false result) that follows from the tables of its operands, every query on it is right, and all models still held keep theirs.",
  ["histories", "programs"], "every sequence of operations up to the depth bound, on two managers",
  "Tests apply one operation to one fresh circuit; errors that need two operations in a row (a result that is malformed in a way only the next operation notices, or a table left in a bad state) are out of reach.",
  ["src/psdd_manager.cpp", "src/psdd_node.cpp", "src/psdd_unique_table.cpp", "src/cnf.cpp"],
  [("Multiply, LearnPsddParameters, LoadPsddNode, NormalizePsddNode, SampleParameters, ReadPsddFile, DeleteUnusedPsddNodes", "src/psdd_manager.cpp"), ("unique table", "src/psdd_unique_table.cpp")],
  ["weights of every model held", "answers of all queries"])

prop("C26", "The cost of every operation follows circuit size, not paths",
  "Queries (probability, evidence, most likely assignments, marginals, consistency, model counts), sampling, learning, multiplication, loading into another manager, reading and writing, conversion to and from SDDs and collection finish on circuits in which nodes are shared by exponentially many paths: their work is bounded by the size of the circuits involved (for multiplication by the product of the sizes).",
  ["automata"], "every 2-state and 3-state automaton, as a shared circuit over 60 variables, on three vtree shapes",
  "All circuits in the tests are so small that following every path is affordable; a lost memo table or visited mark keeps every answer right and makes the library unusable.",
  ["src/psdd_manager.cpp", "src/psdd_node.cpp", "src/psdd_unique_table.cpp"],
  [("Multiply, LoadPsddNode, ConvertSddToPsdd, ReadPsddFile", "src/psdd_manager.cpp"), ("Evaluate, IsConsistent, GetMarginals, GetMPESolution, ModelCount, SetActivationFlag, SerializePsddNodes", "src/psdd_node.cpp")],
  ["termination within a wide time limit", "log weights on shared circuits"])

prop("C27", "No operation does anything undefined on valid input",
  "On every valid input, whatever the order of the operations, no function of the library and neither program reads or writes outside an object or a container, uses freed or never written memory, follows a null pointer, overflows a signed integer, shifts by too much, converts a number to a type that cannot hold it, fails an assertion or lets an exception escape; and no answer depends on what the memory held before.",
  ["sanitizer reports", "memory contents"], "all members of the small families, every operation, two fillings of memory",
  "Undefined behaviour usually gives the right answer in a test; it shows on one input size, one compiler or one state of the heap.",
  ["src/psdd_manager.cpp", "src/psdd_node.cpp", "src/psdd_parameter.cpp", "src/psdd_unique_table.cpp", "src/cnf.cpp", "src/pgm_compiler.cpp", "src/uai_network.cpp", "src/binary_data.cpp", "src/csvparser.c"],
  [("CalculateHashValue", "src/psdd_node.cpp"), ("PsddParameter", "src/psdd_parameter.cpp"), ("CsvParser_getRow", "src/csvparser.c")],
  ["absence of sanitizer reports", "equality of all answers over two fillings of memory"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
