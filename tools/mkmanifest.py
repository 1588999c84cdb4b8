"""Writes /verif/MANIFEST.json from the table of claimed checks."""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
IR = "LLVM IR of the task functions (all helpers and kernels inlined), argument-specialised"
CLAIMED = {
    "C01": ("effect analysis: memory reads/writes of each task implementation vs declared access modes",
            "Covers every (task insertion, codelet, CPU implementation) scenario found by abstract interpretation of the submit functions; loops summarised to may-read/may-write per buffer. Accesses whose base is not a task buffer are counted as undecided."),
    "C02": ("must-write dataflow analysis on the task implementations",
            "Loop nests recognised as complete coverage of the destination extents; assumes the loop trip counts are the extents given at submission."),
    "C03": ("argument-block dataflow between submit functions and implementations",
            "Symbolic propagation of each submit parameter through the argument block to its uses; decides identity and order, not arithmetic meaning."),
    "C04": ("control-flow dominance: insertion status checked on all paths", "All task insertion call sites."),
    "C06": ("abstract interpretation: event order of each blocking wrapper", "All blocking tile and tensor wrappers; each must call its own asynchronous form with its own parameters in order and wait for all tasks on every normal path."),
    "C07": ("abstract interpretation: no throw of an argument error is ordered after a task insertion", "All asynchronous operations; loops summarised."),
    "C08": ("abstract interpretation of operation preambles: path conditions vs a table of required operand relations",
            "Ranks are concrete (up to 3, thorough 4), extents symbolic; every normal path must establish each required equality and range."),
    "C09": ("abstract interpretation of task insertion loops, expanded on concrete tilings, vs the index correspondence of each operation", "Ranks up to 3 (thorough 4), 1 to 3 tiles per dimension; nothing is executed."),
    "C10": ("abstract interpretation of task insertion loops: coefficients of successive updates of each output tile", "Ranks up to 3 (thorough 4), 1 to 3 tiles per dimension."),
    "C12": ("type-flow analysis of codelet selection and implementation instantiation", "All codelets and all typed calls between layers."),
    "C13": ("dependence analysis of footprint functions", "Footprints must depend on every size field the implementation's trip counts depend on."),
    "C14": ("access-range analysis: polynomial access summaries of compiled task functions instantiated with the sizes found by abstract interpretation of each operation", "Ranks up to 3 (thorough 4), 1 to 3 tiles per dimension with distinct extents; nothing is executed. Positions chosen by index data range over the indexed dimension; copies with computed offsets only partly decided."),
    "C15": ("guard/dominance analysis of integer narrowing", "Every narrowing to the BLAS integer type in submit and implementation functions."),
    "C16": ("effect and purity analysis of the call graph of task implementations", "External calls judged by a table of known library functions."),
    "C17": ("coefficient dataflow of reduction accesses", "Reduction coefficients evaluated per scenario."),
    "C20": ("abstract interpretation of the Python dispatch functions vs the compiled signatures", "Every operation of tensor.py for every combination of operand element types; defaults included."),
    "C21": ("syntax-tree query: every binding definition with the function the compiler resolved", "All bindings of the module definition."),
    "C27": ("precision-flow analysis: narrowing conversions in double precision instances", "All double precision instances in all layers."),
}
PY = "abstract interpretation of the Python package"
NOTE = "All layers, losses, optimizers, models and the pipeline in the configurations listed in the evidence (shapes and tilings concrete, tensor contents symbolic); nothing is imported or executed. "
CLAIMED.update({
    "C22": (PY + ": typestate of every created tensor", NOTE + "Every tensor created by the object must be unregistered by its unregister method, none of anyone else's, no use afterwards."),
    "C24": (PY + ": interval bookkeeping of data tags", NOTE),
    "C25": (PY + ": dataflow between save_state, the stored dictionary and load_state", NOTE),
    "C26": (PY + ": object reachability and dataflow of parameters, gradients and state", NOTE),
    "C30": (PY + ": order of events against the dependence order of the layers", NOTE + "Batch counts up to 2 x 2 x 2."),
    "C31": (PY + ": coefficient of the previous contents of each gradient", NOTE),
    "C43": (PY + " into a symbolic tensor algebra, whose normal forms are differentiated and compared", NOTE + "The meaning of each tensor operation is taken from its documentation."),
    "C45": (PY + ": names, attributes, signatures and operand relations on all paths", NOTE),
    "C46": (PY + " into a symbolic algebra: normal form of one step compared with the update rule", NOTE),
    "C47": (PY + " into a symbolic tensor algebra: normal form compared with that of the documented function", NOTE),
})
OBJ = "object-precise abstract interpretation of the C++ core classes"
CLAIMED.update({
    "C05": (OBJ + ", with every status call of the runtime failing or not", "Every call site of acquisition, configuration and start functions in the library and the extension module."),
    "C11": (OBJ + ": contents of every codelet structure after the library-wide start and after sequences of restrictions", "All codelets; ten sequences of restrictions, thorough also for every combination of implementations."),
    "C18": (OBJ + ": typestate of handles and acquisitions over lifetime scenarios with an exception at each stage", "30 lifetime scenarios in every access mode and the NumPy exchange functions."),
    "C19": (OBJ + " with symbolic extents and indices: path conditions vs membership in the shape", "Ranks 0 to 3 (thorough 4); tensors of 1 to 4 tiles."),
    "C23": (OBJ + ": bytes copied on each path of the NumPy exchange functions, and query of their bindings", "Tiles of 0 to 3 dimensions (thorough 4), tensors of 1 to 4 tiles with symbolic extents."),
})
CLAIMED.update({
    "C40": ("formula extraction from LLVM IR of the kernels (induction over loops) and comparison with reference formulas in a normal form of exact arithmetic",
            "All CPU kernels but randn and subcopy; all paths and sizes. Rounding, overflow and NaN are not modelled, except that divisors must not vanish where the formula is defined. A difference is a violation only with values at which it shows."),
})
CLAIMED.update({
    "C44": ("dataflow of value kinds (zero, finite, infinite, not a number) over LLVM IR of the kernels, path by path, with path conditions as facts",
            "All kernels with exponentials or logarithms. Arguments of exponentials are assumed representable. A value that may be infinite is a violation only with finite inputs for which it is."),
    "C48": ("dataflow of growth classes over LLVM IR of the kernels, path by path, with path conditions as facts", "Kernels that compute norms or normalizations. A square of unscaled data is a violation only with finite inputs for which the result is not finite."),
    "C49": ("effect extraction from LLVM IR of task implementations (ordered BLAS and kernel calls over symbolic buffers, induction over batches) and comparison with reference formulas",
            "gemm, axpy, nrm2, scal_inplace and the four fused attention tasks, in every element type; all sizes, batch counts, coefficients and transpositions."),
    "C50": ("symbolic first-order rounding errors followed through the affine maps of loop bodies, extracted from LLVM IR of the kernels path by path", "The six kernels with compensated summation. An error that repetition of a path leaves in the result is a violation."),
    "C51": ("abstract interpretation of the syntax tree with elements as symbols that name their source", "Where every element of a destination comes from, for enumerated small tilings; starting indices and strides of the kernel are symbolic."),
    "C52": ("abstract interpretation of the syntax tree with a domain of affine maps over the state of the generator", "Positions of random numbers as polynomials in symbolic starts and extents; the form of the Box-Muller expression and its range."),
})
NA = {
    "C41": "Equality of results over tilings and schedules is a relational numerical property; the structural parts are decided as C01, C02, C09, C10, C16, C17.",
    "C42": "This build has no message passing layer: the transfer calls are compiled to nothing, so the code that would decide it is absent.",
}


def main():
    props = [json.loads(l)["id"] for l in open(V / "properties.jsonl")]
    checks, na = [], []
    for p in props:
        if p in CLAIMED:
            t, note = CLAIMED[p][:2]
            checks.append({"property": p,
                           "quick_cmd": "python3 check.py %s --tier quick" % p,
                           "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                           "technique": t, "level": "other", "level_note": note})
        else:
            na.append({"property": p, "reason": NA.get(p, "No check has been built for it yet.")})
    m = {"version": 1, "setup_cmd": "python3 -m nnlib.build", "checks": checks,
         "not_applicable": na}
    (V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
    print(len(checks), "claimed,", len(na), "not applicable")


if __name__ == "__main__":
    main()
