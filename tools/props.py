#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G, W, S = "groco/groups/group.py", "groco/groups/wallpaper_groups.py", "groco/groups/space_groups.py"
T, P, L = "groco/layers/group_transforms.py", "groco/layers/padding.py", "groco/layers/pooling.py"
C2, C3 = "groco/layers/conv2d.py", "groco/layers/conv3d.py"
C2T, C3T = "groco/layers/conv2d_transpose.py", "groco/layers/conv3d_transpose.py"
CONVS, TRANSPOSED = [C2, C3], [C2T, C3T]
M, TM, E = "groco/utils/misc.py", "groco/utils/tensor_manips.py", "groco/utils/equivariance.py"
LAYERS = [C2, C2T, C3, C3T, L, T, P]

PROPS = [
 dict(id="C01", title="Named groups are exactly the symmetries they are documented to be",
  statement="Every group that is offered by name acts on a grid, through its elements in their documented order, by exactly the rotations and reflections of the grid that define the symmetry group of that name: all of them, each once, no others, and the identity first. This holds for grids of every size the group maps onto itself, and not just for images in which some elements happen to look alike.",
  over=["inputs", "configurations"], text="all 11 groups, every element, every grid size, every signal",
  why="Tests act with the groups on one fixed signal and mostly compare the library to itself; a permuted, duplicated or replaced element that still forms a consistent table goes unnoticed.",
  files=[W, S], mech=[("actions of the wallpaper groups", W), ("action of Oh and element order", S)], observe=["result of acting with a group on a signal on the grid"],
  tech="runtime monitor: observed action of every element vs signed-permutation-matrix oracle"),
 dict(id="C02", title="Composition and inverses tables agree with the action",
  statement="For any two elements of a group, acting with one after the other on any signal equals acting once with the element the composition table gives for them, and acting with the inverse given by the table undoes the action. The composition is associative with the first element as its identity.",
  over=["inputs", "configurations"], text="all pairs and triples of elements of all groups, on every signal",
  why="Tests compare the tables for a few signals and groups; the whole of group equivariance rests on every single entry, for all 48*48 products of the largest group as well as for tables derived for subgroups.",
  files=[G, W, S], mech=[("composition and inverses, given or derived from the parent", G)], observe=["composition and inverses tables", "results of repeated actions"],
  tech="runtime monitor: homomorphism checker on observed actions, all pairs; table invariants on all triples"),
 dict(id="C03", title="Acting on a signal on the grid only moves it, as the group element says",
  statement="Acting on a signal on the grid, with any (sub)group, any number of further axes and any choice of the spatial axes and of the axis for the group elements, positive or negative, gives for every acting element exactly the correspondingly rotated or reflected signal. Values and data type are those of the signal, nothing is mixed between the other axes, and the signal itself is not changed.",
  over=["inputs", "configurations"], text="all groups and acting subgroups, ranks, axes, grid sizes, data types",
  why="Tests use one layout of axes and square float signals; mistakes in handling permuted, negative or interleaved axes appear only in other combinations.",
  files=[G, W, S, TM], mech=[("axis normalisation and action on the grid", G)], observe=["result of an action"],
  tech="runtime monitor: elementwise comparison of observed actions to numpy oracle"),
 dict(id="C04", title="Acting on a signal on the group is the regular representation",
  statement="Acting with an element g on a signal on a group moves it on the grid and at the same time carries the value at h to gh. For a signal on a subgroup that is acted on by a larger group the signal counts as zero outside of the subgroup, and the result is read off on that subgroup; this holds for all acting groups, domains, positions of the axes and data types, and the data type is kept.",
  over=["inputs", "configurations"], text="all (group, acting subgroup, domain subgroup) triples and axis layouts",
  why="Tests cover the full group and few axis layouts; the combinations of acting and domain subgroups and axes number in the thousands.",
  files=[G, TM], mech=[("action on the group and flat composition indices", G), ("zero extension", G)], observe=["result of an action"],
  tech="runtime monitor: elementwise comparison of observed actions to numpy oracle"),
 dict(id="C05", title="Subgroups, cosets and derived groups are consistent with their parents",
  statement="Every documented subgroup relation between the named groups is available under its name and consists of exactly the elements of that subgroup in the subgroup's own order, is closed under composition, and its coset representatives partition the group. A subgroup used by name inside a larger group acts exactly as that group does on its own, and extending a signal from it puts every value at its element and zeros elsewhere. A group derived from a parent group has the structure it inherits.",
  over=["inputs", "configurations"], text="all (group, subgroup) pairs, all signals",
  why="The tables are hand written or derived by index translation; tests look at some of the pairs only, and an error in one entry only matters for networks that use that pair.",
  files=[G, W, S], mech=[("derivation of subgroups, cosets and compositions from the parent", G)], observe=["subgroup and coset tables", "actions within and outside of the parent"],
  tech="runtime monitor: structural invariants of the live tables and differential observation of actions"),
 dict(id="C06", title="Group convolutions are equivariant",
  statement="For every group and subgroup, acting on the input of a group convolution, lifting or between signals on the group, with any element of the acting subgroup and then convolving equals convolving and then acting on the output. This holds for all kernel sizes, strides, dilation rates, channel groups, paddings, weights, data formats and input sizes the layer accepts without opting out of equivariance.",
  over=["inputs", "configurations"], text="all accepted configurations of the 2D and 3D layers, all weights and inputs, all group elements",
  why="Tests check a handful of kernel sizes and strides on one input size per group; equivariance fails in corners (parity of sizes, anisotropic settings, channel groups, subgroups) that they do not reach.",
  files=[*CONVS, T, P], mech=[("transformed kernel indices", T), ("equivariant padding", P)], observe=["output of a layer call for transformed and original inputs"],
  tech="runtime monitor: exact equivariance oracle on observed layer calls with integer data"),
 dict(id="C07", title="Group convolutions compute the documented convolution",
  statement="The output of a group convolution at each group element is the plain convolution of the (padded) input with the kernel transformed by that element, plus the bias, followed by the activation, with channels and group elements in their documented places. The parameters are a single kernel and bias shared by all elements, so their number does not grow with the acting group.",
  over=["inputs", "configurations"], text="all accepted configurations, all weights and inputs",
  why="Tests establish shapes and equivariance, which also hold for convolutions with wrongly ordered channels, elements or kernels; none compares values with an independent definition.",
  files=[*CONVS, T, P], mech=[("kernel and bias index tensors, merging and splitting of the group axis", T)], observe=["output of a layer call", "weights of the layer"],
  tech="runtime monitor: every output value vs independent numpy reference, exact in integer arithmetic"),
 dict(id="C08", title="Layers are translation equivariant and local",
  statement="Shifting the input of a convolution or pooling layer by a multiple of its stride shifts the output accordingly away from the borders. A change of one pixel only changes outputs whose window contains it, in the same batch item.",
  over=["inputs", "configurations"], text="all layer configurations, shifts and changed pixels",
  why="No test shifts inputs or perturbs single pixels.",
  files=LAYERS, mech=[("merging of the group axis before, and splitting after the underlying layer", T)], observe=["output of layer calls on shifted and perturbed inputs"],
  tech="runtime monitor: metamorphic shift and locality oracles on observed layer calls"),
 dict(id="C09", title="Transposed group convolutions are equivariant",
  statement="With stride 1, or with strides equal to the kernel size and valid padding, acting on the input of a transposed group convolution and then applying it equals applying it and then acting on the output. This holds for inputs on the grid or on any subgroup, for all elements of that subgroup and all kernels, paddings, data formats and input sizes accepted without opting out of equivariance.",
  over=["inputs", "configurations"], text="all configurations within the documented restrictions, all weights, inputs, group elements",
  why="Tests use few sizes and mostly square settings and one subgroup per group.",
  files=[*TRANSPOSED, T, P], mech=[("exchanged acting and domain groups, transformed kernel", T), ("padding of transposed convolutions", P)], observe=["output of a layer call for transformed and original inputs"],
  tech="runtime monitor: exact equivariance oracle on observed layer calls with integer data"),
 dict(id="C10", title="Transposed group convolutions compute the documented operation",
  statement="The output of a transposed group convolution at each element of the full group is the plain transposed convolution of the input with the kernel transformed by that element, with the input zero outside of the subgroup it lives on, plus bias and activation. Channels, group elements and borders are in their documented places.",
  over=["inputs", "configurations"], text="all configurations within the documented restrictions, all weights and inputs",
  why="Tests establish shapes and equivariance only; equivariant but wrong results (scrambled channels, values from outside the subgroup) pass them.",
  files=[*TRANSPOSED, T, P], mech=[("kernel index tensor of transposed convolutions", T)], observe=["output of a layer call"],
  tech="runtime monitor: every output value vs independent numpy reference, exact in integer arithmetic"),
 dict(id="C11", title="Group pooling is equivariant",
  statement="For every group and subgroup, acting on the input of a max or average group pooling layer with any element of the subgroup and then pooling equals pooling and then acting on the output, as a signal on the subgroup. This holds for all pool sizes, strides, paddings and input sizes accepted without opting out; global group pooling is invariant.",
  over=["inputs", "configurations"], text="all accepted configurations, all inputs and elements",
  why="Tests use pool size 2 with few sizes; padding and stride corners break equivariance for only some sizes and elements.",
  files=[L, T, P], mech=[("pooling over cosets", T), ("choice of padded pooling", L)], observe=["output of a layer call for transformed and original inputs"],
  tech="runtime monitor: equivariance oracle on observed pooling calls"),
 dict(id="C12", title="Group pooling pools exactly over cosets and windows",
  statement="Each output of a group pooling layer is the maximum or average over the coset of its subgroup element and over its spatial window, and over nothing else: each value of a coset counts once. Padding that was requested as in Keras does not contribute, and extra padding for equivariance contributes zeros, as documented.",
  over=["inputs", "configurations"], text="all groups, subgroups, pooling configurations and inputs",
  why="Tests check shapes and equivariance; pooling over the wrong coset or including padding is equivariant as well.",
  files=[L, T, P], mech=[("pooling indices", T), ("padding of pooling layers", P)], observe=["output of a layer call"],
  tech="runtime monitor: every output value vs independent numpy reference"),
 dict(id="C13", title="Global group pooling pools over all of space and the group",
  statement="Global group pooling returns, per batch item and channel, the maximum or mean over all spatial positions and all group elements, in both data formats, with or without keeping the pooled dimensions. The result does not change when the input is transformed.",
  over=["inputs", "configurations"], text="all dimensions, sizes, group orders, data formats, options and inputs",
  why="Tests check one size and format and the shape.",
  files=[L], mech=[("global pooling over group and space", L)], observe=["output of a layer call"],
  tech="runtime monitor: output values vs independent numpy reference"),
 dict(id="C14", title="Equivariant padding is minimal and centred, or an error",
  statement="The equivariance preserving paddings add, per axis and on both sides equally, the smallest amount that lets the windows tile the input symmetrically; where plain padding is already symmetric nothing is added. Where no such amount exists a ValueError is raised, whatever the kernel size, stride, dilation, input size and data format.",
  over=["inputs", "configurations"], text="all kernel sizes, strides, dilations, sizes, paddings, data formats",
  why="Tests cover a fixed list of 1D sizes, of which the outcome depends on sizes modulo strides and parities, per axis.",
  files=[P], mech=[("computation of the padding per axis", P)], observe=["output shapes, values and errors of padded layers and of the padding layer"],
  tech="runtime monitor: observed padding vs brute-force minimal symmetric padding"),
 dict(id="C15", title="Equivariance is never given up silently; opting out gives plain Keras",
  statement="Without opting out, a layer asked for plain padding, or for settings that break the symmetry, either gives the result of exactly these settings, which is then equivariant, or raises a ValueError, when called on any input size. When opting out with plain padding, the result is the one of the plain Keras layer with the same padding; with an equivariance preserving padding, opting out has no effect.",
  over=["inputs", "configurations"], text="all configurations and sizes, with plain padding, with and without opting out",
  why="The guarantee is about all sizes that reach a layer after it was built; tests look at a few sizes at build.",
  files=[P, T, L], mech=[("refusal of plain padding that breaks equivariance", P), ("check that mixed axes are treated equally", T)], observe=["error or output of layer calls"],
  tech="runtime monitor: either-equivariant-or-refused oracle, and differential observation of plain Keras"),
 dict(id="C16", title="Both data formats compute the same",
  statement="A layer with channels first gives, for the same weights and the correspondingly transposed input, the transposed output of the layer with channels last, with the group axis in its documented place. This holds whether the format is given to the layer or configured as the default of Keras.",
  over=["inputs", "configurations"], text="all layers and configurations",
  why="Tests use channels last nearly everywhere.",
  files=LAYERS, mech=[("positions of the channels and group axes", T)], observe=["outputs in both formats"],
  tech="runtime monitor: differential observation of twin layers"),
 dict(id="C17", title="Predicted shapes are the actual shapes",
  statement="The output shape a layer predicts, before or after being built, for its own or another input size and with unknown batch size, and the shape of its symbolic output, are the shape of the actual output. That is the documented shape, with the group axis of the size of the output group.",
  over=["inputs", "configurations"], text="all layers, configurations and input sizes",
  why="Tests check some predicted shapes for channels last.",
  files=LAYERS, mech=[("shape prediction with merged group axis and padding", T)], observe=["predicted, symbolic and actual shapes"],
  tech="runtime monitor: predicted and symbolic shapes vs observed shapes"),
 dict(id="C18", title="A result depends on the current input only",
  statement="The output of a layer for an input does not depend on what it was called with or built for before, in particular on other spatial sizes or batch sizes: for every size it does what a fresh layer with the same weights would do, including the refusal of sizes that break equivariance. Neither other layers in the same process nor other items of the batch influence it.",
  over=["histories", "inputs", "configurations"], text="all histories of inputs of different sizes, all layers",
  why="Tests call each layer with the size it was built for; state kept from the first call only shows for later, different inputs.",
  files=LAYERS, mech=[("padding computed from the actual input", P)], observe=["outputs and errors over histories of calls"],
  tech="runtime monitor: history oracle, each call compared to a fresh reference"),
 dict(id="C19", title="Calls, also failing ones, leave layers and groups as they were",
  statement="A call, whether it succeeds, is given unsuitable input, or is interrupted by an error anywhere inside, leaves the layer's weights, parameter count, attributes and configuration, the groups and the input as they were. The next call gives the same result as if the failed call had never happened.",
  over=["histories", "fault_sequences", "configurations"], text="all layers and points of failure during a call",
  why="The layers replace their own weights during a call; tests never let a call fail.",
  files=[*CONVS, *TRANSPOSED, M, T], state=[("kernel, bias and filters", "temporarily replaced during a call", C2)], mech=[("restoring of replaced attributes", M)], observe=["state of layer and groups before and after calls with injected faults"],
  tech="runtime monitor with fault injection: state snapshots around successful and failing calls"),
 dict(id="C20", title="Concurrent calls do not disturb each other",
  statement="When layers, including one and the same layer, are called from several threads at once, every call returns what it would have returned on its own; likewise when groups are used, or different layers are made, built and called, in several threads at once. Afterwards the layers' weights and attributes are as before, and no call is lost or blocks forever.",
  over=["schedules", "inputs", "configurations"], text="all interleavings of calls, and of uses of groups and new layers, from several threads",
  why="Tests are single threaded; serving a model from several threads interleaves the temporary replacement of weights.",
  files=[*CONVS, *TRANSPOSED, M], state=[("kernel, bias and filters", "temporarily replaced during a call", C2)], mech=[("lock around calls that replace attributes", M)], observe=["start, end and result of every concurrent call"],
  tech="runtime monitor: concurrent stress with injected delays, event log checked against sequential results"),
 dict(id="C21", title="Gradients and training are those of the documented operation",
  statement="Gradients of a layer with respect to its weights and inputs are the derivatives of the documented operation, with contributions of all group elements summed in the shared kernel and bias. Training through the Keras API updates exactly these weights, keeps their number and shapes, and a trained layer is as equivariant as an untrained one.",
  over=["inputs", "configurations", "histories"], text="all layers, weights, inputs and training steps",
  why="No test looks at gradients; one fits a model but only checks that it runs.",
  files=LAYERS, mech=[("differentiable gathering of kernel and bias", T)], observe=["gradients and weights before and after training steps"],
  tech="runtime monitor: observed gradients and update steps vs adjoint identities of the reference"),
 dict(id="C22", title="Networks of group layers are equivariant or invariant as a whole",
  statement="A network of group convolutions, transposed convolutions and pooling layers with matching groups, interleaved with pointwise layers and channel-wise normalisation, is equivariant to the smallest group used in it. If it ends in global group pooling its output is invariant.",
  over=["programs", "inputs", "configurations"], text="all networks composed of the layers, all weights and inputs",
  why="One test has one network of a fixed architecture; conventions have to match between every pair of layers, groups and subgroups.",
  files=LAYERS, mech=[("common conventions for signals on subgroups", T)], observe=["outputs of networks for transformed and original inputs"],
  tech="runtime monitor: equivariance oracle on randomly composed networks"),
 dict(id="C23", title="Layers survive configuration, cloning and saving",
  statement="A layer recreated from its configuration, by cloning, or by saving and loading a model behaves identically: same outputs for the same weights, same configuration, same refusals. The configuration is serializable and complete for all options, and freezing a layer does not change what it computes.",
  over=["configurations", "histories"], text="all layers with all combinations of options",
  why="No test saves or recreates a layer; an option missing from the configuration silently reverts to its default.",
  files=LAYERS, mech=[("configuration of layers", T), ("configuration of pooling layers", L)], observe=["configuration, outputs and refusals of original and recreated layers"],
  tech="runtime monitor: differential observation of original and recreated layers"),
 dict(id="C24", title="Layers follow their dtype policy",
  statement="With any floating dtype or mixed precision policy, given to the layer or set globally, a layer's weights have the policy's variable dtype, its output the compute dtype, and its values are those of the documented operation within the precision of that dtype, whatever the dtype of the input.",
  over=["inputs", "configurations"], text="all layers, dtype policies and input dtypes",
  why="Tests use float32 only.",
  files=LAYERS, mech=[("dtype passed on to padding and pooling", P)], observe=["dtypes and values of outputs and weights"],
  tech="runtime monitor: observed dtypes and values vs policy and numpy reference"),
 dict(id="C25", title="All Keras backends compute the same",
  statement="Group actions, convolutions and pooling give the same results on every Keras backend. In particular they do not rely on how a backend treats indices that are out of range.",
  over=["inputs", "configurations"], text="all operations and configurations, on every backend",
  why="Tests run on one backend; JAX silently clips or fills for out of range indices where others raise or misbehave.",
  files=[G, TM, T, L, P], mech=[("use of backend agnostic operations only", T)], observe=["results on the numpy backend of Keras, which indexes strictly"],
  tech="runtime monitor: same oracles on a second, strictly indexing backend (index sanitizer)"),
 dict(id="C26", title="Signals and arguments that do not fit are rejected",
  statement="A signal that does not live on the group a layer, action or equivariance check expects, by its number of axes, group order or channels, at the first or any later call, is rejected with an error and never gives a result. The same goes for unknown groups, paddings, and groups named as subgroup that are not contained in the group.",
  over=["inputs", "configurations", "histories"], text="all misfitting shapes, groups and subgroups for all layers and actions",
  why="Tests use fitting signals; because the group axis is merged with channels, and JAX tolerates out of range indices, misfits can otherwise pass unnoticed as plausible shapes.",
  files=[G, T, L, E, *CONVS, *TRANSPOSED], mech=[("checks when building a layer", T), ("input specification of built layers", C2), ("check of signals on domain groups", G)], observe=["error or result of misfitting calls"],
  tech="runtime monitor: rejection oracle on misfits derived from accepted configurations"),
 dict(id="C27", title="The equivariance check reports the true deviation",
  statement="The equivariance check returns exactly the largest absolute difference, over all elements of the acting group and all positions, between transforming before and after applying the given function. This holds for any function, acting, domain and target subgroup, including none, and any axes, so that no broken element or position is missed and nothing equivariant is blamed.",
  over=["inputs", "configurations"], text="all callables, signals, groups, subgroups and axes",
  why="Tests use it on equivariant layers, where returning zero passes, and trust it in turn.",
  files=[E], mech=[("batched comparison over the acting group", E)], observe=["returned deviation"],
  tech="runtime monitor: returned deviation vs brute force over elements"),
 dict(id="C28", title="Axis utilities move, merge and split exactly the named axes",
  statement="Moving, merging and splitting axes, of tensors and of shapes, affects exactly the named axes, positive or negative, in any order, keeps all values in their documented order, and merging and splitting undo each other.",
  over=["inputs"], text="all ranks, shapes and pairs of axes",
  why="They are only tested indirectly, in the few layouts the layers use.",
  files=[TM], mech=[("axis manipulations", TM)], observe=["results of the utilities"],
  tech="runtime monitor: results vs numpy oracle"),
 dict(id="C29", title="All modes of execution compute the same",
  statement="Calling a built layer eagerly, under just-in-time compilation, functionally without side effects, vectorised, within loops, branches and other function transformations or wrappers, or within a compiled Keras model for prediction gives the same result.",
  over=["inputs", "configurations"], text="all layers, configurations and modes of execution",
  why="Tests call layers eagerly or fit one model; values computed at trace time from shapes or kept from an earlier trace only show in other modes.",
  files=LAYERS, mech=[("indices precomputed at build, padding from static shapes", T)], observe=["outputs in all modes"],
  tech="runtime monitor: differential observation of execution modes vs reference"),
 dict(id="C30", title="Groups made by users behave as the named ones do",
  statement="A group made from its order, composition table, action on the grid, subgroups and coset representatives, in any dimension, with any name and any order of its elements after the identity, or derived from a parent that lists it as a subgroup, acts on signals on the grid and on itself or its subgroups as the group that it describes: inverses, subgroups and cosets of derived groups, zero extension, and the equivariance check included.",
  over=["inputs", "configurations"], text="all finite groups of symmetries of a grid, their subgroups, orders of elements, signals and axes",
  why="Tests only have the named groups, whose element orders, subgroups and dimensions are special: code that happens to work for these need not for others.",
  files=[G, E], mech=[("deriving what is not given", G), ("action on the group", G)], observe=["tables of the group", "results of actions, calls of the given action"],
  tech="runtime monitor: observed actions and tables of random groups vs matrix oracle"),
 dict(id="C31", title="Initialisers, regularizers and constraints act once on shared weights",
  statement="Initialisers, regularizers, constraints and freezing given to a convolution apply to its one shared kernel and bias, each exactly once and with the same meaning as for a plain Keras layer with the group axis merged into the input channels: same initial values for the same seed, same losses, same effect of a training step. They are not multiplied by the group order and do not see the transformed weights; activity regularizers see the output.",
  over=["configurations", "inputs"], text="all convolutions, options and weights",
  why="No test sets any of these options.",
  files=[*CONVS, *TRANSPOSED, T, M], mech=[("weights temporarily replaced by transformed ones", M)], observe=["initial weights", "losses", "shapes regularizers are called with", "weights after a training step"],
  tech="runtime monitor: hooked regularizers and observed training steps vs plain Keras layers"),
 dict(id="C32", title="Results do not depend on how the process runs",
  statement="Groups and layers compute the same in every process: whatever part of the package is imported first, whatever the hash seed and locale, with and without assertions (python -O), with just-in-time compilation disabled, with strict shape promotion and in double precision mode. Double precision layers are exact to double precision.",
  over=["configurations", "inputs"], text="all ways to start and configure a process, with all groups, layers and inputs",
  why="Tests run in one process configuration.",
  files=[*LAYERS, G, W, S, TM, M, E], mech=[("imports between the parts of the package", "groco/groups/__init__.py"), ("index tensors", TM)], observe=["results in processes of their own"],
  tech="runtime monitor: oracles of the other checks in separately configured processes"),
 dict(id="C33", title="Repeated use accumulates nothing",
  statement="However often layers and groups are called, also unsuccessfully, compiled, differentiated or trained with, and however many of them are made and dropped, what they keep in memory does not grow: doing the same work again leaves no more arrays, layers or groups alive than before. Inputs and results are not kept after a call, and layers and groups are freed with the last reference to them.",
  over=["histories", "configurations"], text="all repeated sequences of calls, with all layers, groups and inputs",
  why="A test makes a layer and calls it once; what is left behind only matters after thousands of calls.",
  files=[*LAYERS, M, G, E], mech=[("weights temporarily replaced by transformed ones", M), ("tables and indices kept by layers and groups", T)], observe=["arrays, layers and groups alive between rounds of the same calls"],
  tech="runtime monitor: live object and buffer counts over repeated rounds, weak references to inputs, results and layers"),
 dict(id="C34", title="A layer whose first uses fail can be used afterwards",
  statement="If the first uses of a layer fail - signals of a wrong number of axes, group order, number of channels or size, given to it by a call, a build, a functional or a sequential model, or errors on the way - it can afterwards be used with a signal that fits, and then is, in weights, results, predicted shapes and configuration, the layer it would have been without them.",
  over=["histories", "configurations", "inputs"], text="all sequences of failing first uses of all layers, in all configurations",
  why="Tests expect an error at most once, and then drop the layer.",
  files=[*LAYERS, "groco/layers/padding.py"], mech=[("axes, domain group and paddings set when a layer is built", T), ("weights and input specification", "groco/layers/conv2d.py")], observe=["first result, weights and configuration of layers after failing uses"],
  tech="runtime monitor: failing first uses injected, then exact comparison with the reference"),
]

with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                   "observe_at": p["observe"], "hook_needed": None}
        if "state" in p:
            anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        assert len(p["title"]) <= 80, p["title"]
        fh.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": anchors,
        }) + "\n")

NOTE = ("Held on the executions actually observed (counts in the evidence file): random and stress workloads over "
        "the configuration space, each execution decided by the monitor; nothing is claimed about others.")
manifest = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [
        {"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} --tier quick",
         "thorough_cmd": f"python3 run.py {p['id']} --tier thorough", "evidence_file": f"evidence/{p['id']}.json",
         "technique": p["tech"], "level": "exploration", "level_note": NOTE}
        for p in PROPS
    ],
    "not_applicable": [],
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(manifest, fh, indent=1)
    fh.write("\n")
