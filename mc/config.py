"""What each property's check is made of."""

PROGRAMS = {"psdd_inference": "psdd_inference_main.cpp", "uai_compiler": "uai_compiler.cpp"}

COMMON_ASSUMPTIONS = [
    "g++ 13 -O1 with assertions, the prebuilt libsdd.a and libgmp are trusted",
    "inputs outside the documented preconditions (see DESIGN.md) are not explored",
]

PROPERTIES = {
    "C%02d" % k: {"source": "c%02d.cpp" % k} for k in range(1, 28)
}

for k in ("C10", "C19"):
    PROPERTIES[k]["variant"] = "asan"
    PROPERTIES[k]["assumptions"] = ["the address sanitizer reports every access to freed memory that happens"]

PROPERTIES["C27"].update({"variant": "debug", "programs": ["psdd_inference", "uai_compiler"],
                          "assumptions": ["the sanitizers report every undefined access that happens in code built with them"]})
PROPERTIES["C21"]["programs"] = ["psdd_inference"]
PROPERTIES["C22"]["programs"] = ["psdd_inference", "uai_compiler"]
PROPERTIES["C23"]["programs"] = ["psdd_inference", "uai_compiler"]

# property -> what its check assures
CLAIMED = {
    "C01": "Every Boolean function of the families under every vtree and placement, against truth tables.",
    "C02": "Every clause list and every rendering of it as text up to the bounds, against an independent reading.",
    "C03": "Every PSDD of the families below, every complete and partial assignment, against table sums.",
    "C04": "Every PSDD of the families, all marginals, against table sums.",
    "C05": "Every PSDD of the families, against the maximum over all assignments.",
    "C06": "Every pair of PSDDs of the families, against the product of the tables.",
    "C07": "Every structure and every dataset of the families, against counts made by an independent walk.",
    "C08": "Every PSDD of the families, in the same manager and in another process, against its own structure and table.",
    "C09": "Every sequence of requests and collections up to the depth bound, against a dictionary of what was asked for.",
    "C10": "Every history of operations and collections up to the depth bound on the real manager under the address sanitizer.",
    "C11": "Every sequence of queries and transformations up to the depth bound, against the answers on a fresh copy.",
    "C12": "Every sequence of draws from a grid including the extremes, on every PSDD of the families, measure against probability.",
    "C13": "Every PSDD and list of roots of the families with draws that identify themselves in the results.",
    "C14": "Every expression up to the depth bound over an alphabet of extreme values, against long double logs.",
    "C15": "Every PSDD of the families, every position of its vtree in a larger one and every flag, against the extended table.",
    "C16": "Every vtree up to the bound, every node and subset of it, against an independent implementation.",
    "C17": "Every network of the families, vtree, strategy and collection frequency, against the product of the tables.",
    "C18": "Every network of the families and every answer of the stand-in libraries, against the set of variables.",
    "C19": "Every byte sequence, rendering of rows and history of a dataset up to the bounds, under the address sanitizer.",
    "C20": "Every document of the families, against an independent reading of the lists it was written from.",
    "C21": "The real program on every model, evidence and option combination of the families, against tables.",
    "C22": "The real program on every network, vtree file, method and stand-in library answer of the families, against tables.",
    "C23": "Every entry point and program with every way its input can fail to open, and a failure at every read.",
    "C24": "Every PSDD with positive parameters of the families, every question about its support, against a walk of its structure.",
    "C26": "Every automaton with few states as a shared circuit with more than 2^50 paths, every operation.",
    "C27": "Every operation on every member of small families, sanitized, twice over memory that held different bytes.",
    "C25": "Every sequence of operations up to the depth bound on two managers, against tables computed step by step.",
}
UNCLAIMED = {}
