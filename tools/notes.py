DEFAULT_TECH = ('symbolic execution of the real kymatio code (symbolic NumPy arrays; traced aten graph / jaxpr / '
                'TensorFlow graph), equality with an independent specification decided by z3, counterexamples replayed')
DEFAULT_LEVEL = 'all input values within the stated size/configuration bounds; real arithmetic'
TECH = {}
LEVEL = {}
NA = {
    'C33': 'the CUDA kernels are cupy/scikit-cuda source strings; cupy, scikit-cuda and a GPU are absent, so neither '
           'encoding validation nor replay of a counterexample is possible here',
    'C34': 'an analytic statement over all signals and deformations with the real transcendental filter values; no '
           'finite solver query of reachable size expresses it',
}
