"""Notes for MANIFEST.json."""
NA = {}
PBT = "property-based testing (Hypothesis, shrinking to a replay file): "
TECH = {
    "C01": "generated line lists and requests against a reference selection",
    "C02": "generated lines and filters against the sets the statement allows",
    "C03": "stateful histories of edits against a list model",
    "C04": "differential against an independent NIST equation; round trip and monotonicity",
    "C05": "differential of every entry point against reference conversion",
    "C06": "generated points and limits against direct enumeration",
    "C07": "generated points against a direct count; histories of merges",
    "C08": "stateful round trips through files and memory against snapshots",
    "C09": "stateful histories of configuration calls against a model",
    "C10": "stateful histories of edits against the set of all pairs",
    "C11": "generated problems against a reference candidate set and ranking",
    "C12": "generated fits; every result recomputed from coefficients and matches",
    "C13": "generated fits under constraints, with the sample solutions recorded",
    "C14": "differential runs with irrelevant operations in between, bit identity",
    "C15": "generated instruments with known truth, success judged over the family",
    "C16": "generated degenerate problems with samples counted and a time limit",
    "C17": "generated initial solutions against an independent score",
    "C18": "stateful histories of known pairs; recorded samples of the fits",
    "C19": "generated fits evaluated in numpy's bases; differential between bases",
    "C20": "generated matching problems against a reachability model",
    "C21": "stateful histories of edits against a sorted-list model",
    "C22": "differential against least squares; metamorphic scaling and permutation",
    "C23": "stateful histories; forward evaluation of the inverted pixels",
    "C24": "rendered spectra with known centres; invariants on arbitrary spectra",
    "C25": "state and argument fingerprints around generated plots; second drawing equal",
    "C26": "figures read back against recomputed data",
    "C27": "histories of plot calls against directory contents and file types",
    "C28": "stateful histories of setters and fits against a dictionary model",
    "C29": "fingerprints of arguments and results over generated calls; differential with overwriting",
}
TECH = {k: PBT + v for k, v in TECH.items()}
NOTES = {}
