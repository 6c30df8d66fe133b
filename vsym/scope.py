"""What the checks assume and what lies outside their bounds (written to the evidence)."""
ASSUMPTIONS = [
  "Floating point numbers are exact reals: rounding, overflow and underflow are not "
  "modelled (division by zero and NaN made by the code are), except in the harnesses "
  "called floats, which use IEEE single precision",
  "JAX transformations (jit, vmap, scan, cond, grad, pmap, host callbacks) follow their "
  "documented semantics; jit caching, XLA and devices are not executed symbolically",
  "Random generators return any value of their documented range; equal keys give equal "
  "values and different keys give independent ones",
  "User functions (likelihood, prior, potential) are pure functions of their arguments",
]
OUTSIDE = {
  'P01': ["data sets of more than the listed numbers of observations",
          "the TensorFlow loader (it has no ordered pipelines)"],
  'P02': ["the statistical distribution of the drawn rows",
          "TensorFlow itself, of which the pipeline operations are modelled",
          "host data loaders inside vmap"],
  'P03': ["caches of more than the listed numbers of batches"],
  'P04': ["checkpoints of the TensorFlow loader",
          "pickling of checkpoints by the user"],
  'P05': ["more preemptions inside the host callbacks than listed",
          "more than the listed numbers of devices and requests"],
  'P06': ["likelihoods that are not deterministic",
          "full potentials of unbatched mappings with information=True"],
  'P07': ["burn-in longer than the run", "step size schedules written by the user"],
  'P08': ["crashes of the process while saving",
          "names of variables that contain '/'",
          "JSONCollector.finished, which documents not to wait for the chains"],
  'P09': ["dictionary keys containing '/' and keys that are not strings",
          "haiku FlatMapping (haiku is not installed)"],
  'P10': ["convergence to the posterior (a statistical statement)",
          "friction below the noise estimate, which the code corrects heuristically"],
  'P11': ["ergodicity and stationarity of the chain (follow on paper from the "
          "published acceptance probability)"],
  'P12': ["more than two chains", "stationarity of the exchange process"],
  'P13': ["default keys, which are shared by all chains for which the user gives no "
          "key (the ready-made samplers give every chain its own, see P16)",
          "the quality of the generator"],
  'P14': ["convergence of the estimates",
          "dense matrices of more than two parameters where an eigendecomposition is "
          "needed"],
  'P15': ["numerical dtype promotion", "real devices for pmap"],
  'P16': ["the components themselves (other properties)",
          "default arguments chosen by the authors"],
}
