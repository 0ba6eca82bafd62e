"""Writes KNOWN_FINDINGS.json (edit this file, not the JSON)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
 ("C02", "weights below the smallest float [einsum]",
  "the einsum layer exponentiates its weights in float32: if every child pair that fits an observation has a weight "
  "below 2^-149, the log-likelihood is -inf instead of the (finite) true value; linsum and linsum2 are exact"),
 ("C13", "mvn with num_features not divisible by cardinality",
  "a MultivariateNormal leaf whose cardinality does not divide num_features is accepted, but every forward call raises "
  "(the incomplete last group is padded along the wrong dimension and by the wrong amount); there is no small repair, "
  "as a padded Gaussian is not a density of the remaining features"),
]
FIXED = [l.split("|") for l in """
C09|ba07deb|sampling_context restored evidence only on success: a call that raised leaked its evidence into later calls
C21|c6943c1|conditional sampling of ConvPc called a method that does not exist, and left state behind on failure
C06|e413a01|class of an unconditional sample was not uniform for models with several classes
C06|95644ce|with evidence the class was not drawn from the class posterior
C06|02cc945|lists of class indices and differentiable sampling with classes failed
C01|01a8f8b|FactorizedLeaf ignored its random wiring if every region has a single feature
C04|c137bcb|FactorizedLeafSimple (bottom-up) sampling selected wrong leaves
C16|d200712|return_leaf_params with differentiable sampling failed for one repetition
C16|5b515b4|bottom-up return_leaf_params failed
C16|0f94b59|bottom-up return_leaf_params failed for leaves with several parameters
C18|ebd1abd|multi-distribution leaf returned parameters in list order instead of feature order
C18|622fd00|multi-distribution scope lists not covering each feature once were accepted
C15|a0516d6|Bernoulli leaves sampled with the wrong probability
C07|963651a|the mode of a binomial leaf with success probability one was total_count + 1
C13|f9efff8|check_valid skipped a bound that is zero
C15|45212f6|RatNormal ignored max_mean of zero
C27|365be38|categorical leaves had n_bits instead of 2^n_bits bins
C19|f54b4a1|use of the removed np.infty / domain upper bound failed
C14|9cf1732|dropout of linsum and sum layers could remove every child of a sum
C14|5a43637|dropout of linsum2 layers dropped outputs (replacing densities) instead of children of sums
C14|a30010d|einsum layers ignored the configured dropout
C04|93ac679|linsum2 sampling with an odd number of regions failed
C13|bfb25a7|bottom-up structure of depth 0 failed
C03|a4b5e5c|NaN entries together with listed scopes gave wrong results
C15|af6d417|multivariate normal sampling was wrong
C13|c991bc9|bottom-up structure with multivariate leaves was accepted but did not work
C12|96c6f6d|non-contiguous image batches failed
C21|f707c8d|ConvPc ignored marginalized scopes
C20|2995b4f|Mixture.forward ignored marginalized scopes
C20|158ab8e|Mixture assigned partially observed rows to wrong components
C20|de54b5a|Mixture failed or gave NaN for empty clusters
C20|6c59e53|unconditional MPE of a mixture returned the wrong number of rows
C20|e04128b|Mixture ignored the seed
C20|1cc9bc8|Mixture returned rows out of order
C21|4504b83|ConvPc completions had the wrong layout
C19|02dfb09|piecewise linear leaves over discrete domains sampled values off the domain
C19|721f386|piecewise linear leaves over discrete domains that are not evenly spaced were not normalised
C19|a7acf9d|piecewise linear initialisation failed for an empty cluster
C25|33f4402|preprocessing for binomial leaves scaled the caller's batch in place
C22|d3efc95|models could not be copied while their leaf cache held tensors with gradients
C22|0fd12ce|mixtures of several channels could not be restored from their state dict
C19|597af2a|continuous piecewise linear leaves sampled uniformly within segments instead of from the linear density
C22|c8ea934|piecewise linear functions were missing from the state dict
C28|9bc9cf4|the number of classes of the digits data set was missing
C28|3bf7f27|fmnist-16 has a shape and a number of classes but could not be loaded
C28|3b585f5|sizes of the training and validation parts of svhn and lsun did not always add up, so that loading failed
C21|b672fee|ConvPc failed with a single leaf channel
C29|846ea1b|init_einet_stats gave NaN variances for batches of one row and weighted batches unequally
C29|fc54328|init_einet_stats failed for the bottom-up structure
C25|b409e59|the script's test run failed on batches of one row
C30|b480c2e|product layers could not be sampled
C30|f3600d9|CrossProductLayer failed for an odd number of features
""".strip().splitlines()]
json.dump(dict(findings=[dict(property=p, key=k, what=w) for p, k, w in FINDINGS],
               fixed=[f"fixed: property={p} {c} {w}" for p, c, w in FIXED]),
          open(os.path.join(HERE, "KNOWN_FINDINGS.json"), "w"), indent=1)
