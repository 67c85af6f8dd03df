"""Writes DESIGN.md: the method, one section per property, findings, experiments."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get("VERIF_REPO", "/repo"), HERE, os.path.join(HERE, "tools")]
from props import P  # noqa

# property -> (what is specified and the oracle, why solver checking reaches further than tests)
HOW = {
 "C01": ("The layer is run on symbolic coefficients and inputs. Oracle: `ref.piecewise`, an independent exact-rational evaluation of the piecewise Lagrange interpolant at Chebyshev-Lobatto nodes (segment choice by comparisons, cardinal functions from products). Jobs: every order/segment pair of a grid, a 2-wise covering array of (order, segments, shape, length, period, batch rank), defaults, large segment counts, factory construction.",),
 "C02": ("x and a step d are both symbolic; the assertion is |f(x+d)-f(x)| <= L*d + 0.02 with L an explicit Lipschitz bound of the reference polynomial. Every boundary is crossed because x ranges over the whole domain and d over all small steps.",),
 "C03": ("As C01 with the discontinuous reference; additionally coefficients of other segments are free symbols, so any influence of theirs is a counterexample.",),
 "C04": ("Oracle: product over inputs of (1 + reference link), minus one, plus bias and minus (1-alpha) times the sum. Links are polynomial, piecewise or linear; the bases are also called directly with alpha.",),
 "C05": ("`backward()` of the real code runs under the same interpreter, with symbolic upstream gradients; `.grad` is compared with the reference cardinal value (coefficient gradients; exactly zero for other segments) and with the exact derivative polynomial (input gradients). Convolutions: the same per window position.",),
 "C06": ("Every random draw of the constructor is a fresh symbol in its range and every uninitialised buffer (`torch.empty`) is a free symbol; assertions: all coefficients of a link are equal, within [0, magnitude/inputs], and different links use different draws (decided by asking for a model in which they differ).",),
 "C07": ("`random.random` draws are symbols in [0,1], stale coefficients are symbols; the reference line through the global node positions must reproduce every coefficient, slope and offset bounds are asserted for every draw.",),
 "C08": ("Target coefficients are compared with the reference function of the source at the target's nodes; then both layers are run on the same symbolic input and compared; source coefficients are compared with their symbols afterwards.",),
 "C09": ("As C08 with a different number of segments: node positions are global positions of the target, the reference evaluates the source there; when segments subdivide, function equality for every input.",),
 "C10": ("Source and target networks with symbolic coefficients in every layer; each piecewise layer of the target is compared with its partner as in C08/C09 and the networks' outputs are compared on symbolic inputs.",),
 "C11": ("Oracle `window`: a loop over output positions, channels and kernel cells written from the definition, with the source pixel found by an explicit padding rule (zeros contribute nothing, reflect, replicate, circular) and the C01/C03 link reference. 2-wise covering of all settings.",),
 "C12": ("Oracle: scatter of each pixel's link values to the output positions its kernel cells reach; output size from the definition. Geometry grid over stride/padding/dilation/output padding/kernel.",),
 "C13": ("Oracle: the series in the uninterpreted sine and cosine of exact symbolic angles; shifting by whole lengths uses the 2 pi periodicity law of the engine.",),
 "C14": ("Oracle: reflection written with the floor of the symbolic input plus a symbolic integer number of double periods; layers: with and without period on the same coefficients.",),
 "C15": ("Oracle: the definition evaluated on the sample's elements by comparisons (maximum by exhaustive case split over orderings and ties), square roots as exact algebraic atoms (s*s = sum of squares).",),
 "C16": ("The module is run on a batch and on each sample alone in the same symbolic world; outputs must be equal for every content of all samples.",),
 "C17": ("Oracle: a scalar Lion step per coefficient guarded by gradient != 0, iterated along the history; sign and zero tests of symbolic gradients enumerate every sparsity pattern. Coefficients without gradient must be identical expressions.",),
 "C18": ("Oracle: pairwise update of boundary neighbours from their old values; all other coefficients unchanged, for symbolic coefficients.",),
 "C19": ("Oracle: the set of rows (coordinates and the pairwise combinations at evenly spaced angles), matched to the outputs; transform networks are checked compositionally (every elementary layer is a cut point, see below) with all of their options.",),
 "C20": ("exp, tanh, sigmoid are uninterpreted with positivity, monotonicity and addition laws; the oracle builds the scores, the share of each key and the average by loops. 0/1 masks are symbolic, so every mask pattern is one of the solver's cases.",),
 "C21": ("As C20 per head with slices of the projected features written out by index; masks, previous alignments and positional embeddings symbolic.",),
 "C22": ("Compositional: while the network runs, each elementary layer's output (and, behind normalisations, its input) is replaced by fresh symbols; what a layer computes is compared with the C01/C03/C04/C13 reference for that position's documented order, segments and length, what it is given with the documented combination of earlier outputs. Both hold for every value of the fresh symbols, hence for the composition.",),
 "C23": ("As C22 with the convolution references; pooling and flattening by index; compute_sizes with a symbolic integer input length against the size of a chain of windows.",),
 "C24": ("Normal draws are symbols; encoder and decoder are small linear stand-ins with symbolic weights; loss and KL divergence compared with the sums by definition, non-negativity by the exp law exp(t) >= 1 + t.",),
 "C25": ("Children's outputs are cut points; product/sum of them, gradients of both by the product rule.",),
 "C26": ("Symbolic position and symbolic segment index; assertions: the segment's ends enclose the position, x_local and x_global are inverse and affine, forward equals the reference at exactly that segment. Segment counts up to 1000 through integer symbols.",),
 "C27": ("Oracle: tensor product of one dimensional cardinal functions; the cell by comparisons per dimension.",),
 "C28": ("The symbolic contents of inputs, parameters, buffers and earlier results are compared before and after evaluations; the second evaluation must give the same expressions; state_dict and deepcopy transfers likewise.",),
 "C29": ("Oracle: sine/cosine of position times the exact frequencies; the other embeddings against the layer references.",),
 "C30": ("Lightning modules with symbolic inputs, coefficients and all label assignments; loss by the definition with exp/log laws, accuracy by comparisons of symbolic logits; the network built by select_network is compared layer by layer.",),
 "C32": ("The forward result is an exact expression; its symbolic partial derivative (`alg.gradient`, product/chain rule over the atoms) is compared with the symbolic `.grad` autograd produced by executing the real backward pass.",),
}

INTRO = """# Solver-based checking of high-order-layers-torch

## Method

`engine/` executes the repository's real Python code under a torch dispatch
mode. Every tensor a property leaves open carries, next to its native value, an
array of exact symbolic expressions: multivariate polynomials with rational
coefficients over solver variables, and atoms for what is not polynomial
(floor/trunc, division, square root, exp, log, sin, cos, tanh). Each ATen
operator the code reaches - forward, in place, view and backward alike - is
interpreted on these expressions. Python control flow is the real one; each
data dependent decision (comparison, index, `.long()`, sort order) is a branch:
the side not taken is handed to z3 and, when feasible, explored on its own path
with the solver's model as the witness. Float constants of the code (nodes,
denominators, frequencies) enter as the exact rationals the floats are; the
arithmetic between them is over the reals.

At the end of a path the property is a set of assertions over the symbolic
result, and z3 decides each of them for every value of every variable in the
bounds: `|code - reference| <= tol` (1e-3 unless stated) or exact equality. The
property holds for a configuration when all feasible paths are exhausted and
all negated assertions are unsatisfiable. Nothing is translated or cached: the
encoding is whatever the code in /repo does when the check runs, which is why
refactorings do not matter and changes of behaviour do.

A satisfiable assertion gives a model. The harness is then run a second time
on the unmodified code with plain torch tensors holding that model (`replay.py`
repeats this from the file named in the VIOLATION line). Only a failure
reproduced by the plain run is reported. Models at points float32 cannot
hold exactly (a boundary at a third, say) have to be reproduced at neighbouring
representable points, so that float rounding at a segment boundary is never
reported. The converse check runs too: path witnesses (up to 25 per job) are
executed with plain tensors, compared with the symbolic values, and must
satisfy the property.

Exit codes: 0 when no violation was found, 1 with VIOLATION, 2 (no verdict)
when more than half of the jobs could not be decided (unsupported operator,
solver unknown, budget). Undecided jobs are counted in the evidence; on the
current tree there are none in the quick tier.

### Laws the engine uses

- Differences are first brought to a rational normal form (`ratform.py`) over
  the atoms; a difference that cancels is confirmed by z3 on the two sides as
  they were built (`_confirm`), so the solver has the last word.
- floor/trunc: bounded integers, `n <= t < n+1`, case split when they occur
  nonlinearly. Division: `q*d = n` with a non-zero denominator (division by
  zero follows IEEE rules). Square root: `s >= 0, s*s = t`.
- exp/log: positivity, monotonicity, exp(0)=1, exp(a+b)=exp(a)exp(b), log is
  the inverse, exp(t) >= 1+t. sin/cos: bounds, parity, 2 pi periodicity,
  Lipschitz constant one. tanh, sigmoid: range, monotonicity, derivative.
  Arguments that differ by float rounding only are identified through the
  Lipschitz bound (`_near`), with the difference inside the tolerance.
- Random draws (`uniform_`, `rand`, `randn`, `random.random`) are variables in
  their range; `torch.empty` returns free variables.
- Interval coefficients below 2^-48 are rounded with the error added to the
  tolerance (`_round_poly`); variables are recentred to [-1,1] to help z3.

### Cut points

Networks are decided compositionally (`checks/netlib.py`): each elementary
layer's output, and behind a normalisation also its input, is replaced by
fresh variables. The layer is compared with its reference on what it was given,
the wiring is compared with the documented one on the fresh values. This is the
assume/guarantee argument of C19, C22, C23, C25 and C30.

### Bounds

Shapes, orders, segment counts and options are concrete per job; inputs,
coefficients, draws, masks, gradients and histories are symbolic. Option
spaces are covered 2-wise (`common.covering`: every pair of option values occurs
in some job). In a tensor usually one or two elements range over the whole
domain while the rest are symbolic inside one segment ("pinned"), which keeps
the number of paths at (segments + 2) instead of its power. The thorough tier
raises orders, segments, shapes and the number of free elements.

Outside all bounds: other devices, half precision, float rounding below the
tolerance, infinities and NaN as inputs, inputs so large that `.long()`
overflows.

## Properties
"""

OUTRO = """
## Genuine defects

All were repaired with "fix:" commits in /repo and are listed in
known_findings.json; each was first reported by the check of its property on
the original tree and replayed on the real code. There is no open known finding.

{fixed}

Behaviour that is odd but not claimed as a property (left as it is):

- rescale_output and the like are ignored by the fully connected factory;
  FourierSeries drops its extra keyword arguments (so weight magnitude and
  device); select_network ignores periodicity and scale for `high_order`.
- SwitchLayer does not pass a period to its children; C25 states the product of
  its children only.
- `refine` of discontinuous layers raises NotImplementedError-like by design.
- smooth_discontinuous_layer of order 1 (one node is both boundaries), tail
  focus with focus 0/None, grouped convolutions, the lazy layer norm's
  state_dict before its first use, an unused uninitialised `Function.result`
  parameter, positions_from_mesh with size 1 (division by zero) and the empty
  class HighOrderMLPMixerBlock are outside.

False alarms met on the way, and what was done about them: assertions at
segment boundaries that float32 cannot represent (replays now need a
representable neighbour); contiguous/to/reshape inside composite operators lost
symbolic contents (the copy is decomposed now); the statement of C18 was
corrected from "factor" to "half the factor on each side".

## Planted bugs

`seeded/` holds one directory per bug, made with tools/plant.py, which confirms
in a scratch copy that the patch applies, the build and the stable tests pass,
the demonstration passes without and fails with the patch, and the check of
its property reports it. All of them are caught by the check of the property
they were written for:

{seeds}

## Experiments

- Mutation testing (tools/mutate.py: operators, constants, comparisons, slices,
  arguments in every function of the package; mutants that fail the tests are
  dropped). Survivors were read one by one; the ones that change behaviour led
  to: default arguments checked explicitly, settings covered 2-wise instead of
  by hand-picked examples, kernel/stride/dilation grids for C12, padding modes
  for C11, alpha of the product bases for C04, options of the transform
  networks for C19, per layer options of refinement for C10, every mask in
  C20/C21, and C32.
- Refactorings: three trees with the package rewritten without changing
  behaviour (gather instead of fancy indexing, helpers extracted, loops
  vectorised or unrolled, einsum replaced by tensordot or broadcasting, scatter
  instead of index assignment, reflection by floor/minimum/abs, other
  association of the segment arithmetic, aminmax/amax, sums of squares instead
  of norm). All checks stay quiet on all three; a few jobs are undecided there
  (never a majority).
- A comment at the end of a file and a statement without effect leave every
  check quiet (part of vcheck).

## Not applicable

{na}
"""


def main():
    out = [INTRO]
    seeds = {}
    root = os.path.join(HERE, "seeded")
    for d in sorted(os.listdir(root)) if os.path.isdir(root) else []:
        m = json.load(open(os.path.join(root, d, "meta.json")))
        seeds.setdefault(m["property"], []).append((d, m["what_it_breaks"], m["needs"]))
    for p in P:
        i = p["id"]
        if not p.get("claimed", True):
            continue
        mod = importlib.import_module("checks." + i.lower())
        out.append(f"### {i}: {p['title']}\n\n{HOW[i][0]}\n")
        out.append(f"Bounds: {mod.BOUNDS} Outside: {mod.OUTSIDE}.")
        cost = COST.get(i)
        if cost:
            out.append(f"Cost: {cost['jobs']} jobs, {cost['obligations']} obligations, {cost['queries']} solver queries, about {cost['wall']} s (quick tier, 8 cores).")
        out.append(f"Beyond the tests: {p['why_tests_cant']}\n")
    fixed = "\n".join("- " + f[7:] for f in json.load(open(os.path.join(HERE, "known_findings.json")))["fixed"])
    sl = "\n".join(f"- {k}: `{d}` - {w} (needs: {n})" for k in sorted(seeds) for d, w, n in seeds[k])
    na = "\n".join(f"- {p['id']} ({p['title']}): {p['reason']}." for p in P if not p.get("claimed", True))
    out.append(OUTRO.format(fixed=fixed, seeds=sl, na=na))
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))


COST = {}
try:
    COST = json.load(open(os.path.join(HERE, "tools", "cost.json")))
except OSError:
    pass
if __name__ == "__main__":
    main()
