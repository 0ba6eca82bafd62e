"""Writes MANIFEST.json from the checks that exist (run after adding a check)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CIRC = "TLA+ circuit specification (TLC) with trace checking of the real model"
NOTE_CIRC = ("Circuit.tla states the density exactly (integer arithmetic); TLC judges every recorded result of the real "
             "model, built on a grid of configurations and random ones, against it. Bounded to small circuits and to "
             "recorded executions; frequencies are judged with a 6-sigma style interval. ")
T = {
 "C01": (CIRC, NOTE_CIRC + "All inputs of each instance up to a cap."),
 "C02": (CIRC + "; conservation laws in DistTrace.tla", NOTE_CIRC + "Sums over all assignments, tails up to 1e8."),
 "C03": (CIRC, NOTE_CIRC + "All or random missing patterns through NaN, lists and both."),
 "C04": ("TLA+ sampler state machine (TLC) and trace checking of sample histograms", NOTE_CIRC + "The sampling state "
         "machine Sampler.tla is model checked on the same circuits."),
 "C05": ("TLA+ sampler state machine (TLC) and trace checking of conditional histograms", NOTE_CIRC + ""),
 "C06": (CIRC, NOTE_CIRC), "C07": (CIRC, NOTE_CIRC), "C08": (CIRC, NOTE_CIRC + "Differentiable samples at default hard settings."),
 "C16": (CIRC, NOTE_CIRC + "Returned parameters are decoded to leaf numbers."),
 "C17": (CIRC, NOTE_CIRC + "Weights that are perfect squares make tempered weights exact integers."),
 "C23": (CIRC, NOTE_CIRC + "Gradients of all sum weights compared with edge posteriors computed in the specification."),
}
SESS = "TLA+ session state machine (TLC): enumerated call histories replayed into the model, recorded traces checked"
NOTE_SESS = ("Session.tla is the state of a model object as its user sees it; TLC enumerates short histories and simulates "
             "long ones (SessionGen), they are replayed into eleven real models with fault injection, and the recorded "
             "observations are checked (SessionTrace). Values are compared as identities with fresh reference objects. ")
for i in ("C09", "C10", "C11", "C12", "C22"):
    T[i] = (SESS, NOTE_SESS)
T["C19"] = ("TLA+ specification of histogram leaves (PwlTrace) with trace checking",
            "Exact integer histograms; densities at quarter-bin positions, sample counts per quarter bin, modes.")
T["C13"] = ("TLA+ configuration lattice (Config, TLC) enumerated and replayed into the constructor",
            "TLC enumerates every field's boundary values around valid configurations with the required verdict; every one is "
            "constructed and used, and the recorded outcome is checked by ConfigTrace. Bounded to the lattice.")
T["C14"] = ("TLA+ dropout specification (Dropout, TLC): all admissible masks enumerated, recorded frequencies checked",
            "Small circuits; the exact distribution of training likelihoods over all admissible masks, laws checked by TLC.")
T["C18"] = ("TLA+ scope-cover specification (MultiScopes) and circuit traces of real models",
            "TLC enumerates scope lists with their verdict; densities, samples and completions per feature as in C01-C07.")
T["C20"] = ("TLA+ mixture routing specification (MixtureTrace over CircuitTrace) with trace checking",
            NOTE_CIRC + "Centroids are integers so that nearest components are exact; components are drawn by integer weights.")
T["C24"] = ("TLA+ wiring state machine (Wiring, TLC): its terminal states are the distribution of wirings; recorded and probed "
            "wirings checked (WiringTrace)",
            "The construction is model checked for small sizes; real models up to 131 features are recorded, probed through "
            "forward calls, counted over thousands of constructions and followed through call histories.")
T["C25"] = ("TLA+ specification of training steps (Training over LogCircuit) with trace checking of the real Lightning modules",
            "Losses and accuracies of recorded steps are recomputed exactly from the circuit specification in fixed point.")
T["C26"] = ("TLA+ index stream state machine (Stream, TLC): enumerated histories replayed, recorded streams and epochs checked",
            "TLC enumerates histories of opening, reading and disturbing several samplers; long streams, permutation "
            "frequencies, loader epochs and offline data sets are recorded and checked by StreamTrace.")
T["C21"] = (CIRC, NOTE_CIRC + "ConvPc models become circuits whose pixels are leaf regions with sum and pooling layers; exact and "
            "logarithmic instances, normalisation, samples, completions, repeated calls.")
T["C15"] = ("TLA+ leaf distributions (Leaves, TLC checks their laws) with trace checking of real models with a single path",
            "Exact masses, log-densities, modes and sample counts of every leaf, channel, feature and repetition; Gaussian "
            "densities in fixed point, samples against the distribution function, covariances of multivariate leaves.")
T["C27"] = ("TLA+ specification of quantisation (Quant, TLC) with trace checking of the real preprocessing",
            "Every pixel value, bit depth and leaf kind is recorded and judged; TLC checks the level arithmetic exhaustively.")
T["C28"] = ("TLA+ splits state machine (Splits, TLC): its laws judge recorded splits, standardisation and loaders (SplitsTrace)",
            "TLC deals the rows of small sources in every way; the real loaders read sources that stand in for torchvision and "
            "scikit-learn, whose rows carry their own number.")
T["C29"] = ("TLA+ accumulation state machine (InitStats, TLC); recorded initialisations judged by InitTrace",
            "TLC reads small columns in every batching; real initialisations of models and mixtures are recorded and judged per leaf.")
T["C30"] = (CIRC, NOTE_CIRC + "Stacks of product, cross product, root product and sum layers become circuits with \"pool\" and "
            "\"cross\" layers; exact and logarithmic instances, the sampler state machine, samples, completions, gradients.")
EXTRA = os.path.join(HERE, "tools", "techniques.json")
if os.path.exists(EXTRA):
    for k, v in json.load(open(EXTRA)).items():
        T[k] = tuple(v)
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i + ".py")) and i in T:
        tech, note, *lvl = T[i]
        checks.append(dict(property=i, quick_cmd=f"{PY} checks/{i}.py", thorough_cmd=f"VERIF_TIER=thorough {PY} checks/{i}.py",
                           technique=tech, level=lvl[0] if lvl else "model_checking", level_note=note.strip()))
    else:
        na.append(dict(property=i, reason="The specification and check for this property are not built yet."))
json.dump(dict(version=1, setup_cmd=f"{PY} tools/setup.py", checks=checks, not_applicable=na,
               notes="All checks import the code from /repo's working tree; nothing is built. No hooks in /repo."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
