"""Technique and level note per property (used by manifest.py)."""
MON = "runtime monitoring: generated code is compiled and run on random models; an output monitor compares every value with an independent ONNX evaluator"
SIM = "Randomised exploration of models and inputs; burn itself is replaced by a calibrated stand-in, so numerics of burn kernels are not covered."
IR = "runtime monitoring: a monitor hooked on the public IR checks every imported graph of random models against a specification (offline checker over the recorded graph)"
RND = "Randomised exploration of models; bounds on model size and operator set as listed in the evidence."
TECH = {f"C0{i}": (MON, SIM) for i in (1, 2, 3, 4, 5, 6, 7)}
TECH.update({
    "C08": ("runtime monitoring: recorded types, ranks and static shapes of imported graphs are checked against the values seen in reference executions", RND),
    "C09": ("runtime monitoring: bytes of constants and stored weights observed after import and in generated code are compared with the bytes written into the file", RND),
    "C10": ("runtime monitoring: imports of hostile external-data references in a scratch directory with every open recorded by an interposed C library shim; a trace checker flags every open outside the model's directory and compares the data read", RND),
    "C11": ("sanitizers and fault injection: mutated and truncated models parsed under AddressSanitizer, overflow checks, allocation and time limits; a monitor checks the outcome", "Randomised mutation; the sanitizer sees the importer and its dependencies, not burn."),
    "C12": ("runtime monitoring: repeated and concurrent imports (threads, processes, hash seeds) with an equality checker over graphs, sources and weight files", RND),
    "C13": ("runtime monitoring: signature and outputs of compiled generated models compared with the declared interface", RND),
    "C14": (IR, RND), "C15": (IR + "; the three entry points are compared", RND), "C16": ("runtime monitoring: models with unsupported constructs are imported; the monitor requires a refusal", RND),
    "C17": ("runtime monitoring: rustc and the weight loader are the oracle for generated sources of random graphs, names and literals", SIM),
    "C18": ("runtime monitoring: models are generated under all options and invocations; files left, sources, weight files, parameters loaded by each constructor and executed outputs are compared with those of the model generated alone", SIM),
    "C19": ("runtime monitoring: token-sequence and comment oracle over formatted sources, with hang detection", RND),
    "C20": ("runtime monitoring: padding observed through executed windows against the ONNX definition; refusal monitor for wrong specifications", SIM),
    "C22": ("runtime monitoring: executed models measure their own samples (mean, variance, quantile, bounds, independence of nodes) within six standard errors", SIM),
    "C23": (MON + "; models of operator set versions 1 to 15 and 22 to 24", SIM),
    "C21": (IR + "; liveness is recomputed independently", RND),
})
