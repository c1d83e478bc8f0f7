#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md, the harness sources, known-findings.jsonl and seeded/."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = lambda *a: os.path.join(here, *a)
props = [json.loads(l) for l in open(P("properties.jsonl"))]
# per property: what is executed symbolically, oracle, what lies outside the bounds, cost of the quick tier
T = {
"C01": ("building, compiling (sorting, dataflow, register allocation, code generation) and running on the tape machine all programs of two and three operations of a catalogue over shared operands, with several outputs, read-outs and constants; the catalogue's operations on inputs that are transposed or sliced, in the graph or as bound",
        "the program evaluated directly by the harness on the same symbolic inputs (`hlp.V`), element by element",
        "programs of more than about a dozen nodes, shapes beyond 3x3", "about 70 s"),
"C02": ("the same program on the tape machine with derived gradients and on the interpreting machine, in one go or forward and backward apart; every operation of a catalogue of about 190 operation and shape combinations", "equality of the two, node by node and gradient by gradient",
        "programs of more than three operations (gradients are costly)", "about 60 s"),
"C03": ("every differentiable elementwise operation on both machines, both widths, tensor/tensor, tensor/scalar and scalar/tensor, also with a constant on either side", "derivative of the forward term",
        "points where the function is not differentiable; more than two elements (the kernels treat elements alike)", "5 s"),
"C04": ("each operation followed by a weighted sum with symbolic weights (so that the upstream gradient is arbitrary) on both machines; symbolic gradients of the squares of such gradients", "derivative of the forward term; shape of the gradient",
        "rank above 4, extents above 4", "20 s"),
"C05": ("sharing patterns, request subsets and orders, several costs, gradients of gradients (of every operation of the catalogue), recurrent use; gradients attached for every choice of inputs; results that are no scalars; every operation of a catalogue of about 190 operation and shape combinations with other uses of its inputs, and with inputs that are transposed or sliced (in the graph or when bound)", "derivative of the forward term",
        "patterns not in the list; third derivatives", "13 s"),
"C06": ("runs of programs whose operations can be executed in place, with late uses of early values, read-outs, views of the caller's arrays, several runs; every operation of a catalogue of about 190 operation and shape combinations followed by an operation in place", "the caller's tensors hold the same terms as before; read-outs equal the expression",
        "more than three runs, more than six in-place operations in a row", "25 s"),
"C07": ("every operation of the catalogue with symbolic extents and parameters, in range or not, and every node of its gradient", "the announced shape and type equal those of the value; refusals are accepted, crashes while running are not",
        "extents beyond the stated (mostly 3 or 4), rank above 4", "90 s"),
"C08": ("broadcast operations for every choice of repeated axes, operands with extent-1 axes or without the axis", "explicit replication of the operands in the harness; derivative of the forward term",
        "rank above 4, extents above 3", "25 s"),
"C09": ("shape operations with every parameter", "index arithmetic in the harness (`hlp.Arr`)", "rank above 4, extents above 6", "6 s"),
"C10": ("reductions over every ordered list of axes, norms of orders 1 to 4 and infinity, log-sum-exp along every axis", "nested aggregates in the harness; for maxima an upper bound that is attained", "rank above 5", "20 s"),
"C11": ("convolution over kernel/pad/stride/dilation settings per axis, batches, channels, filters; also by the package of layers", "the convolution sum; derivative of it", "images above 4x4 per axis setting, groups", "10 s"),
"C12": ("pooling and upsampling over kernel/pad/stride settings, symmetric and asymmetric padding", "the window aggregate; derivative of it", "windows beyond 3x3", "30-60 s"),
"C13": ("softmax, log-softmax, sparsemax along every axis; batch and group normalisation in sequences of training and evaluating runs, built once or twice", "the defining equations; for sparsemax the projection's optimality conditions; derivative of the forward term", "lanes of more than 3 elements (group normalisation: 400)", "35 s"),
"C14": ("the composite helpers on both machines, dropout with symbolic draws", "the documented formula; its derivative", "the region in which mish and softplus switch to an approximation", "9 s"),
"C15": ("solver steps with symbolic coefficients, parameters and gradients", "the published recurrence, written in the harness", "more than three steps", "4 s"),
"C16": ("solver steps under every combination of options", "the rule applied to the gradient modified as documented", "more than two steps", "20-40 s"),
"C17": ("sequences of runs on one machine with fresh symbolic inputs, in every way of going on after a run (reset, rebinding, closing the machine, unbinding results or everything, a solver step); every operation of a catalogue of about 190 operation and shape combinations", "a fresh machine given the last inputs", "more than three runs", "30 s"),
"C18": ("pairs of expressions in one graph that differ in one respect; inputs and constants built again with values and options used again; grids of convolution and pooling settings; groups of catalogue operations on the same inputs", "the value of each equals its value when built alone; equal ones are one node", "more than two at once; inputs whose hashes collide are two known pairs", "10-20 s"),
"C19": ("sequences of edits chosen symbolically, clones (with read-outs and gradients) and subgraphs, walks, and operations that are refused", "a naive model of the graph (sets of nodes and edges) kept by the harness", "more than four edits", "30 s"),
"C20": ("binding of every kind of value to every kind of input, then running; gradients given with inputs; slices moved between runs; bindings made through a machine; tensors of one element for scalars", "acceptance exactly when type and shape agree; the value computed is that of the accepted binding", "rank above 3", "30 s"),
"C21": ("clone, copy, zero and comparison of every value kind, contiguous and strided, then writes", "elementwise equality; isolation", "more than 4 elements", "6 s"),
"C22": ("every initialiser and random node with the draws symbolic", "the documented function of the draw", "distribution of the draws", "11 s"),
"C23": ("a failing operation (forward or backward) at a symbolic position, watched values, unbound inputs, schedules of the machine's goroutines, batched products", "an error is returned, names the failing node, and the next good run is right", "more than two failures, more than two preemptions", "70 s"),
"C24": ("histories of reservations, requests and returns with symbolic sizes", "interval model: inside, aligned, disjoint, everything available again at the end", "histories of more than 7 steps", "40-70 s"),
"C25": ("every chain of two (thorough: three) of twenty operations, the rewritten patterns and near misses, shared and read, with the rewriting switched on or off", "the expression as written", "chains of more than three", "40-60 s"),
"C26": ("products with operands given directly, transposed, sliced or reshaped; contractions over every choice of axes of operands up to rank 4, extents of one included", "nested sums", "extents above 5", "20 s"),
"C27": ("each operation's plain, preallocated, in-place and incrementing mode, with symbolic contents of the storage", "the plain mode (respectively the sum)", "operations that do not offer a mode", "10 s"),
"C28": ("functions compiled for every set of outputs, machines on extracted parts, two functions in turn, with gradients; whole graphs compiled beforehand", "the full graph", "graphs of more than three operations", "60-80 s"),
"C29": ("the concurrent machine: programs of two operations, gradients, drawn values, a failing operation, cancellation, missing values, schedules that deviate from round robin", "nested-loop formulas; an error is returned", "more than two deviations (one in most configurations), readouts (this machine does not perform them)", "60 s"),
"C30": ("the recursions over extended targets, values and gradients, both widths", "the sum over all labellings that collapse to the target, and its derivative", "longer sequences, more labels, targets no labelling can give, the gradient of the mean (an existing test expects it unscaled)", "60 s"),
"C31": ("the decoding of predictions into boxes; larger grids with some of the predictions symbolic", "the formulas per image, cell and anchor", "the training mode, predictions outside (-14, 14)", "40 s"),
"C32": ("each lifting applied to every form of operand, with functions that succeed or fail; chains with a failure at every position; collecting nodes", "which function is called with what, the node of the plain function, the first error; derivative of the forward term", "longer chains, functions of more than two operands", "14 s"),
"C33": ("runs on machines with every set of observing options; printing of graphs, nodes, values and programs between the steps", "the expression's value; derivative of the forward term; the numbers of nodes and roots", "what is printed; the drawing package (it draws through map iterators of a library that reach into the runtime)", "35 s"),
"C34": ("elementwise operations, reductions, operations of shape and programs of three operations on each whole number type; numbers are bit-vectors, so that wrapping is decided exactly", "arithmetic of the type in the harness; for a zero divisor an error", "integers of other widths (the library has no scalars of them), larger tensors, the interpreting machine (it refuses most tensors of whole numbers)", "18 s"),
"C35": ("the whole loading of both kinds of files with symbolic bytes in them; opening, reading and closing files is done by functions of the harness interface under the engine and on real files in a scratch directory when replayed", "the bytes written by the harness, scaled by the documented formula; an error for every fault", "larger pictures, more than three of them, labels that are not digits, errors of the file system other than a missing file", "25 s"),
"C36": ("the text of a drawing produced by the whole chain down to the drawing library, with extents left symbolic in the labels; read back into vertices, boxes and edges", "the nodes and operands of the graph as it was built; for values and gradients the same graph without drawing it", "the colours and positions of the drawing, values shown in the older descriptions, graphs of more than two operations and their gradients", "45 s"),
}
def doc(path):
    out, cur, flags = [], [], set()
    for l in open(path):
        if l.startswith("//"):
            t = l[2:].strip()
            if t.startswith("vsym:"): flags |= set(t[5:].split())
            elif t: cur.append(t)
        else:
            m = re.match(r"func (H\w*)\(\)", l)
            if m:
                d = " ".join(cur); d = re.sub(r"^" + m.group(1) + r":\s*", "", d)
                if d and not " ".join(cur).startswith(m.group(1)): d = ""
                out.append((m.group(1), d, "thorough" in flags))
            cur, flags = [], set()
    return out
parts = []
for p in props:
    i = p["id"]; what, oracle, outside, cost = T[i]
    s = [f"### {i} {p['title']}", "", p["statement"], "",
         f"* Executed symbolically: {what}.", f"* Oracle: {oracle}.", f"* Outside the bounds: {outside}.", f"* Cost (quick): {cost}.",
         f"* Why tests do not reach it: {p['why_tests_cant']}", "* Harnesses:"]
    plain = []
    for f in sorted(glob.glob(P("harness", i.lower(), "*.go"))):
        for n, d, th in doc(f):
            if not d: plain.append(n); continue
            s.append(f"  * `{n}`{' (thorough tier)' if th else ''}: {d}")
    if plain: s.append("  * one each for: " + ", ".join("`%s`" % n for n in plain))
    parts.append("\n".join(s))
fixed, known = [], []
for l in open(P("known-findings.jsonl")):
    l = l.strip()
    if l.startswith("fixed:"):
        m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l); fixed.append(m.groups())
    elif l.startswith("{"):
        k = json.loads(l); known.append(f"* {k['property']} `{k['harness']}`: {k['what']}")
fixed.sort()
F = f"Open (reported as KNOWN-FINDING, exit 0):\n\n" + "\n".join(known) + f"\n\nFixed ({len(fixed)}):\n\n" + "\n".join(f"* {a} `{b}`: {c}" for a, b, c in fixed)
S = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(P("tools", "caught.json"))) if os.path.exists(P("tools", "caught.json")) else {}
for d in sorted(glob.glob(P("seeded", "*", "meta.json"))):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    S.append(f"| `{n}` | {m['property']} | {m['needs']} | {caught.get(n, m['property'])} |")
mut = open(P("tools", "mutation.md")).read() if os.path.exists(P("tools", "mutation.md")) else ""
t = open(P("tools", "design.md")).read()
for k, v in (("PROPERTIES", "\n\n".join(parts)), ("FINDINGS", F), ("SEEDED", "\n".join(S)), ("MUTATION", mut)):
    t = t.replace("@@" + k + "@@", v)
open(P("DESIGN.md"), "w").write(t.rstrip() + "\n")
