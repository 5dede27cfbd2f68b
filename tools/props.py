#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (the table is the source)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)


GEN = "burn_onnx::ModelGen -> generated .rs/.bpk, compiled and executed"
IR = "onnx_ir::OnnxGraphBuilder parse result (OnnxGraph)"
NODE = "crates/onnx-ir/src/node/"
BN = "crates/burn-onnx/src/burn/node/"

prop("C01", "Generated element-wise code computes the ONNX values",
     "For every valid model built from supported element-wise operators (arithmetic, comparison, logical, bitwise, activation, rounding, cast, clip, where and the like), the Rust code generated for it, run on any inputs of the declared types, returns for every graph output the values that the ONNX operator definitions give. This includes multidirectional broadcasting between different ranks, scalar operands, constant operands on either side, all supported dtypes and every attribute the operator accepts. A result may differ only by floating-point rounding.",
     ["inputs", "programs"], "all models over the supported element-wise operators x all input values",
     "onnx-tests has one or two fixed models per operator with one input each; operand order, broadcasting, dtype and attribute combinations multiply far beyond them, and onnx-tests cannot even be built in this sandbox.",
     [NODE + "arithmetic.rs", NODE + "clip.rs", NODE + "cast.rs", BN + "add.rs", BN + "where_op.rs", BN + "clip.rs", "crates/burn-onnx/src/burn/argument_helpers.rs"],
     [("node processors extract configs and infer types", NODE), ("per-node code generation", BN)], [GEN])
prop("C02", "Generated data-movement code computes the ONNX values",
     "For every valid model built from supported shape- and index-manipulating operators (reshape, transpose, slice, concat, split, gather/scatter families, pad, tile, expand, squeeze/unsqueeze, flatten, space/depth rearrangement, one-hot, triangular, eye and similar), the generated code returns exactly the ONNX-defined elements in the ONNX-defined shape. This holds for negative axes and indices, steps, defaulted and optional inputs, and for arguments given either as attributes, as constants or at run time where the importer accepts them.",
     ["inputs", "programs"], "all models over the supported data-movement operators x all inputs",
     "Fixed fixtures pick one axis, one index sign and one rank per operator.",
     [NODE + "slice.rs", NODE + "reshape.rs", NODE + "gather.rs", NODE + "pad.rs", BN + "slice.rs", BN + "split.rs", BN + "scatter_nd.rs", BN + "gathernd.rs"],
     [("axis/index normalisation", NODE), ("per-node code generation", BN)], [GEN])
prop("C03", "Generated reduction and linear-algebra code computes the ONNX values",
     "For every valid model built from supported reductions, arg-reductions, cumulative sums, top-k, softmax-like normalisations, matrix products (MatMul, Gemm, integer MatMul, attention), the generated code returns the ONNX-defined values and shapes. This holds for every axis set, keepdims setting, broadcasting batch shape, transposition, scaling and bias form the importer accepts, whether or not operands are constants.",
     ["inputs", "programs"], "all models over the supported reduction/linear-algebra operators x all inputs",
     "Fixtures fix one axis/keepdims/transposition combination and one rank pairing each.",
     [NODE + "reduce.rs", NODE + "gemm.rs", NODE + "matmul.rs", NODE + "topk.rs", "crates/onnx-ir/src/phases/node_conversion.rs", BN + "reduce.rs", BN + "gemm.rs", BN + "linear.rs", BN + "matmul.rs", BN + "attention.rs"],
     [("Gemm/MatMul to Linear conversion and bias fusion", "crates/onnx-ir/src/phases/node_conversion.rs"), ("axes normalisation", NODE + "reduce.rs")], [GEN])
prop("C04", "Generated neural-network layers compute the ONNX values",
     "For every valid model built from supported layer operators (convolutions and transposed convolutions in 1-3 dimensions, pooling, global pooling, batch/instance/group/layer normalisation, resize, grid sampling, PRelu, dropout at inference, recurrent layers), the generated code with its stored weights returns the ONNX-defined values. Strides, dilations, groups, explicit and automatic (possibly asymmetric) padding, missing biases, epsilons, directions and the other accepted attributes are all honoured; an attribute value that is not implemented is rejected rather than ignored.",
     ["inputs", "programs"], "all accepted attribute/weight/shape combinations of the layer operators x all inputs",
     "One fixture per layer with one or two attribute settings; padding/stride/dilation/group/direction combinations are exponentially many.",
     [NODE + "conv2d.rs", NODE + "padding.rs", NODE + "lstm.rs", NODE + "resize.rs", BN + "conv2d.rs", BN + "lstm.rs", BN + "batch_norm.rs", BN + "resize.rs"],
     [("attribute extraction into layer configs", NODE), ("weights mapped to module fields", BN), ("auto_pad resolution", NODE + "padding.rs")], [GEN])
prop("C05", "Control flow with subgraphs computes the ONNX values",
     "For every valid model using If, Loop or Scan, including nested ones and bodies that capture values of enclosing graphs, the generated code returns the ONNX-defined values: only the chosen branch counts, loops honour trip count, initial condition and the body's condition, and carried values and scan outputs come back in order and complete.",
     ["inputs", "programs", "histories"], "all supported control-flow graphs x inputs, trip counts and conditions",
     "A handful of fixed fixtures; capture structure, nesting and zero/early-exit iterations are unbounded.",
     [NODE + "if_node.rs", NODE + "loop_node.rs", NODE + "scan_node.rs", BN + "if_node.rs", BN + "loop_node.rs", BN + "scan_node.rs", BN + "subgraph_helper.rs", "crates/onnx-ir/src/ir/graph.rs"],
     [("deferred subgraph conversion with outer-scope capture", "crates/onnx-ir/src/pipeline.rs, src/ir/graph.rs"), ("branch/loop code generation", BN)], [GEN])
prop("C06", "Shape arithmetic and scalar values keep their ONNX meaning",
     "Values derived from tensor shapes (Shape with start/end, Size, and arithmetic, gathering, slicing, concatenation, casting, reduction, comparison on them) and rank-0 values are carried through the generated code with the ONNX-defined numbers, and every operator that consumes them (Reshape, Expand, Slice, ConstantOfShape, Range, Tile, Resize, Gather and so on) behaves as if it had been given the equivalent tensor.",
     ["inputs", "programs"], "all chains of shape/scalar operators feeding shape-consuming operators x all input shapes",
     "Whether a value is held as a native array, native scalar or tensor depends on the whole chain of operators; tests exercise single links.",
     [NODE + "shape.rs", NODE + "concat.rs", NODE + "constant_of_shape.rs", NODE + "range.rs", BN + "shape.rs", BN + "concat.rs", BN + "reshape.rs", BN + "cast.rs", "crates/onnx-ir/src/ir/argument.rs"],
     [("ArgType Shape/Scalar propagation", "crates/onnx-ir/src/ir/argument.rs"), ("input preferences", "crates/onnx-ir/src/phases/type_inference.rs")], [GEN])
prop("C07", "Simplification never changes what a model computes",
     "For every valid model, the graph and code produced with simplification enabled compute the same outputs, under the same input/output names, order, and types, as with simplification disabled; simplification may neither turn an accepted model into a rejected one nor drop or merge values that can differ.",
     ["inputs", "programs", "configurations"], "all models (in particular ones resembling but not matching the rewrite patterns) x all inputs, simplify on/off",
     "The simplify tests use matching patterns; soundness is about near misses (shared values, other attributes, other axes, graph outputs inside the pattern) which are unbounded.",
     ["crates/onnx-ir/src/simplify/" + f for f in ("mod.rs", "redundant_nodes.rs", "constant_fold.rs", "identity_element.rs", "idempotent.rs", "permute_reshape.rs", "coalesce_attention.rs", "dead_nodes.rs", "constant_shape.rs")],
     [("fix-point of rewrite passes", "crates/onnx-ir/src/simplify/mod.rs")], [GEN, IR])
prop("C08", "Inferred types, ranks and static shapes are never wrong",
     "For every valid model and every value in it, the element type and rank recorded by the importer are those the value has in every execution, and each statically known dimension (or shape length) equals the actual one in every execution that satisfies the declared input shapes. Missing or misleading intermediate shape annotations do not change this.",
     ["inputs", "programs"], "all models x all admissible input shapes",
     "Tests compare inferred types with hand-written expectations on small nodes; wrong static shapes only show when dimensions are symbolic, 1, or partially known.",
     ["crates/onnx-ir/src/processor.rs", "crates/onnx-ir/src/phases/type_inference.rs", NODE + "broadcast helpers and *.rs", "crates/onnx-ir/src/ir/argument.rs"],
     [("per-operator infer_types", NODE), ("iterative type inference", "crates/onnx-ir/src/phases/type_inference.rs"), ("broadcast static shapes", "crates/onnx-ir/src/processor.rs")], [IR],
     [("ArgType", "dtype, rank, static_shape per value", "crates/onnx-ir/src/ir/argument.rs")])
prop("C09", "Weights and constants reach the generated model bit for bit",
     "Every initializer and constant of a supported element type arrives in the model with exactly the shape, element type and element values of the ONNX file, in whichever encoding the file stores it (typed fields, raw bytes, external files with any offset and length) and whichever way the importer carries it (stored weights, inlined literal, lifted attribute). Weights are stored once each, under the path the generated model loads them from, with none missing or left over.",
     ["inputs", "programs"], "all tensors of supported dtype, shape and encoding, any bit pattern",
     "Fixtures hold a few small benign float/int tensors; NaN payloads, extremes, half types, empty and rank-0 tensors and offsets are not sampled.",
     ["crates/onnx-ir/src/tensor_store.rs", "crates/onnx-ir/src/proto_conversion.rs", "crates/onnx-ir/src/ir/tensor_data_ext.rs", "crates/burn-onnx/src/burn/graph.rs", "crates/burn-onnx/src/burn/node_traits.rs", BN + "constant.rs"],
     [("tensor decoding", "crates/onnx-ir/src/proto_conversion.rs"), ("lazy tensor store", "crates/onnx-ir/src/tensor_store.rs"), ("burnpack snapshots", "crates/burn-onnx/src/burn/node_traits.rs")], [GEN, IR])
prop("C10", "External data references cannot escape the model's directory",
     "A location in an external-data reference is accepted only if it denotes a file inside the directory of the model file: empty, absolute, rooted or parent-escaping locations are rejected with an error and no file outside that directory is opened because of the text of the location. Accepted references resolve to exactly the named file relative to the model's directory, with the given offset and length; malformed offsets and lengths and a missing location are errors rather than defaults.",
     ["inputs"], "all location/offset/length strings and directory layouts",
     "Unit tests list a few traversal strings; the set of path spellings is unbounded.",
     ["crates/onnx-ir/src/external_data.rs", "crates/onnx-ir/src/tensor_store.rs"],
     [("path validation", "crates/onnx-ir/src/external_data.rs"), ("external load", "crates/onnx-ir/src/tensor_store.rs")], ["OnnxGraphBuilder::parse_file on crafted models; opened files"])
prop("C11", "Malformed model bytes are rejected without memory errors or hangs",
     "Whatever bytes are presented as a model (truncated, corrupted, adversarial lengths and offsets, missing fields, external data shorter than claimed), parsing ends promptly with an error or an unwinding panic, or yields a model; it never reads out of bounds, aborts the process, allocates without relation to the input size, or loops. Whenever tensor data is inconsistent with its declared shape, no model whose weights are silently truncated or padded results.",
     ["inputs", "fault_sequences"], "all byte strings and external files",
     "Tests only feed well-formed fixtures.",
     ["crates/onnx-ir/src/pipeline.rs", "crates/onnx-ir/src/tensor_store.rs", "crates/onnx-ir/src/proto_conversion.rs"],
     [("protobuf parse", "crates/onnx-ir/src/pipeline.rs"), ("memory-mapped access", "crates/onnx-ir/src/pipeline.rs, tensor_store.rs")], ["sanitizer reports, exit status, peak memory, parse results"])
prop("C12", "Import is deterministic",
     "Importing the same model with the same options always yields the same graph, byte-identical source and identical stored weights, regardless of process, hash seeds, previous imports in the same process, or other imports running concurrently in other threads.",
     ["schedules", "histories", "programs"], "all models x runs, processes, thread interleavings",
     "Each test imports once; hash-map iteration order and cross-import state only show over repetitions.",
     ["crates/onnx-ir/src/pipeline.rs", "crates/onnx-ir/src/graph_state.rs", "crates/onnx-ir/src/simplify/mod.rs", "crates/burn-onnx/src/burn/graph.rs", "crates/burn-onnx/src/burn/imports.rs"],
     [("ordered traversals", "crates/onnx-ir/src/phases/"), ("sorted imports", "crates/burn-onnx/src/burn/imports.rs")], [GEN, IR])
prop("C13", "The model's interface is preserved",
     "The imported graph and the generated forward function take exactly the model's runtime inputs (declared inputs that are not initializers) and return exactly its declared outputs, in declaration order, with types matching the declared element type and rank, also when inputs are unused, an output is directly an input, an initializer or a constant, one value is output several times, or names are not valid or unique Rust identifiers.",
     ["inputs", "programs"], "all models with arbitrary interface shapes and names",
     "Tests have regular names and each output produced by its own node.",
     ["crates/onnx-ir/src/graph_state.rs", "crates/onnx-ir/src/phases/initialization.rs", "crates/onnx-ir/src/phases/finalization.rs", "crates/burn-onnx/src/burn/graph.rs"],
     [("input/output bookkeeping", "crates/onnx-ir/src/graph_state.rs"), ("forward signature generation", "crates/burn-onnx/src/burn/graph.rs")], [GEN, IR])
prop("C14", "The imported graph is well formed",
     "Every imported graph, at every nesting level, defines each value exactly once, lists nodes so that every value is defined (as an input, earlier node output, stored constant, or value of an enclosing graph) before it is used, has uniquely named nodes, and contains no dangling reference; models whose nodes are not in topological order or that lack an opset are rejected.",
     ["programs"], "all models, all simplification settings",
     "Tests look at particular nodes of particular results, never at the whole graph invariant.",
     ["crates/onnx-ir/src/pipeline.rs", "crates/onnx-ir/src/graph_state.rs", "crates/onnx-ir/src/phases/", "crates/onnx-ir/src/simplify/"],
     [("topological check", "crates/onnx-ir/src/pipeline.rs"), ("renaming", "crates/onnx-ir/src/graph_state.rs")], [IR])
prop("C15", "All ways of opening a model agree",
     "Parsing a model from a file, from a byte slice and from a reader, with or without memory mapping, gives the same graph with the same constants (as far as external data is reachable), or fails in all of them; data handed out stays valid and unchanged after the source bytes, reader or builder are gone.",
     ["inputs", "configurations", "histories"], "all models x entry points x lifetimes",
     "Tests use one entry point per model and drop nothing early.",
     ["crates/onnx-ir/src/pipeline.rs", "crates/onnx-ir/src/tensor_store.rs"],
     [("mmap'ed buffer shared by reference count", "crates/onnx-ir/src/pipeline.rs"), ("lazy tensor store", "crates/onnx-ir/src/tensor_store.rs")], [IR])
prop("C16", "Unsupported constructs are rejected, never silently mis-imported",
     "A model that uses an operator the importer does not know, an operator below its minimum supported opset, a required input that is missing, too many or too few inputs or outputs, or an attribute value the importer documents as unsupported, is refused with an error (or panic) that occurs during import; it never yields code.",
     ["programs"], "all models containing at least one such construct",
     "Each processor has a test for some of its own rejections; combinations of operator, opset and arity are not swept.",
     ["crates/onnx-ir/src/processor.rs", "crates/onnx-ir/src/registry.rs", NODE + "*.rs", NODE + "unsupported.rs"],
     [("NodeSpec validation of opset and arity", "crates/onnx-ir/src/processor.rs"), ("per-node checks", NODE)], [IR, GEN])
prop("C17", "Generated source always compiles and loads",
     "Whenever generation succeeds for a valid model, the generated source file is a valid Rust module that type-checks against the public burn API, whatever sharing of values between nodes (each value is cloned wherever it is used again), node and tensor names, literal values and graph size, and its constructors load the stored weights without error.",
     ["programs"], "all valid models",
     "Tests compare token snapshots or build a few fixed models; use-after-move, name clashes and invalid literals depend on the whole graph.",
     ["crates/burn-onnx/src/burn/graph.rs", "crates/burn-onnx/src/burn/scope.rs", "crates/burn-onnx/src/burn/argument_helpers.rs", "crates/burn-onnx/src/burn/codegen.rs"],
     [("clone insertion by remaining uses", "crates/burn-onnx/src/burn/scope.rs"), ("literal rendering", "crates/burn-onnx/src/burn/codegen.rs")], [GEN])
prop("C18", "Generation options only change what they say",
     "Embedding weights or reading them from a file, development mode, script or command-line invocation, and generating several models in one call do not change the generated computation: every input model yields its own source and weight file named after it, each with its own weights, and a model loaded by any generated constructor has identical parameters.",
     ["configurations", "programs"], "all option combinations x sets of models",
     "Tests use one configuration.",
     ["crates/burn-onnx/src/model_gen.rs", "crates/burn-onnx/src/burn/graph.rs", "crates/burn-onnx/src/bin/onnx2burn.rs"],
     [("output naming", "crates/burn-onnx/src/model_gen.rs"), ("from_file/from_embedded/default constructors", "crates/burn-onnx/src/burn/graph.rs")], [GEN])
prop("C19", "Source formatting preserves the program and the top comment",
     "Formatting generated code never changes it: the formatted text lexes to the same token sequence as its input for every token stream, terminates for every input including ones that are not valid Rust, and keeps comments and requested blank lines where they were placed.",
     ["inputs"], "all token streams",
     "Unit tests format a handful of snippets.",
     ["crates/burn-onnx/src/formatter.rs", "crates/burn-onnx/src/burn/graph.rs"],
     [("token-based formatter", "crates/burn-onnx/src/formatter.rs")], ["burn_onnx::format_tokens"])
prop("C20", "Padding specifications resolve to the ONNX-defined padding",
     "For every pads attribute of the right length, and every auto_pad mode with any input size, kernel, stride and dilation, the resolved padding is the one ONNX defines (per-axis begin/end amounts, the odd element on the side the mode names); negative, wrongly sized or unsupported specifications are errors, and no combination overflows or panics.",
     ["inputs"], "all pads vectors, auto_pad modes and geometry",
     "Unit tests cover a few vectors per dimension.",
     [NODE + "padding.rs", NODE + "conv1d.rs", NODE + "conv2d.rs", NODE + "max_pool2d.rs", BN + "conv2d.rs"],
     [("padding_config_* functions", NODE + "padding.rs")], ["onnx_ir::node::padding functions and layer configs"])
prop("C21", "Unused computation is removed and nothing else",
     "At the top level of the simplified graph every node contributes to some graph output or has a side condition that keeps it, and no node, constant or initializer that contributes to an output (directly, through a subgraph capture, or as a further output of a multi-output node) is removed; unused initializers are never stored with the weights.",
     ["programs"], "all models, all liveness patterns including captures by nested subgraphs",
     "Tests check particular removals, not that removal is exactly liveness.",
     ["crates/onnx-ir/src/simplify/dead_nodes.rs", "crates/onnx-ir/src/phases/finalization.rs", "crates/onnx-ir/src/phases/post_processing.rs"],
     [("dead node elimination", "crates/onnx-ir/src/simplify/dead_nodes.rs"), ("unused constant removal", "crates/onnx-ir/src/phases/finalization.rs")], [IR, GEN])
prop("C22", "Random operators draw from the declared distribution",
     "For every valid model using RandomNormal, RandomUniform, their -Like forms or Bernoulli, the generated code yields tensors of the declared (or, by default, the input's) element type and of the declared shape, whose elements are independent draws from the declared distribution (mean and scale, low and high, per-element probability), and two random nodes are never merged into one: each draws its own numbers, with and without simplification.",
     ["inputs", "programs"], "all attributes x shapes x element types, over the randomness itself",
     "Tests compare shapes only, as single samples have no expected values; type, range, moments and independence need many samples per model.",
     [NODE + "random.rs", NODE + "random_like.rs", NODE + "bernoulli.rs", BN + "random_normal.rs", BN + "random_uniform.rs", BN + "random_normal_like.rs", BN + "random_uniform_like.rs", BN + "bernoulli.rs"],
     [("random nodes are not pure", "crates/onnx-ir/src/simplify"), ("distribution attributes", NODE + "random.rs")], [GEN])

prop("C23", "Operators mean what their version says",
     "For every operator set version from 1 to 24, a model's operators are imported with the meaning that version gives them: attributes that later became inputs, defaults and type sets that changed, one-sided broadcasting with its own attributes, and axes that used to split a shape in two yield the values defined for that version, or the model is refused with an error; they are never computed by the rules of another version.",
     ["inputs", "programs"], "all operator set versions x operators x attributes",
     "Tests compare imported graphs of one small model per version; they execute almost none of them and at one set of attributes.",
     [NODE + "softmax.rs", NODE + "slice.rs", NODE + "squeeze.rs", NODE + "reduce.rs", NODE + "split.rs", NODE + "pad.rs", NODE + "dropout.rs", "crates/onnx-ir/src/processor.rs"],
     [("version-dependent attribute and input handling", NODE + "squeeze.rs"), ("version ranges", "crates/onnx-ir/src/processor.rs")], [GEN])


def main():
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")


if __name__ == "__main__":
    main()
