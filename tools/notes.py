NOTE.update({
 "C02": "TLC completes squares exactly for 420 (6000) random integrands in up to five variables and checks that every order of integration arrives at the same value; each is compared to the code on grids of parameters and limits.",
 "C03": "Defining integrals evaluated exactly by TLC for random models (times, hyperparameters and inducing points are rationals); order of integration, symmetry and Cauchy-Schwarz are invariants.",
 "C04": "Defining integrals evaluated exactly by TLC piecewise as sums of complex exponentials; order of integration and reality are invariants. One recorded finding (0/0 where alpha - gamma = lambda exactly).",
 "C05": "TLC explores every order of the resolution rules for every combination of given arguments (confluence, termination); constructions of random values are replayed.",
 "C06": "Exact answers to every sequence of three (four) questions about two random distributions; invariant HistoryFree.",
 "C07": "Bound, updates and fixed points from first principles in a finite-dimensional model (TLC proves the formulas equal on random cases); scripts replayed on the code, and recorded states of fits of the real models judged by TLC.",
 "C08": "Moments from first principles in a finite-dimensional model; scripts replayed on the code, and predictions of the real models judged by TLC.",
 "C09": "Conditionals and normalisers from first principles; invariance of the Gibbs sweep is a TLC invariant; recorded chains of the real code, with their randomness, judged by TLC.",
 "C10": "All histories of 4 (5) operations for the frame conditions; random histories of 28 steps replayed, every held object re-examined after each step. Values are terms: equal terms must be equal results.",
 "C11": "All schemes, fixed parameters, options and histories of 3 (4) fits and conditionings on the specification; a selection of each replayed on stub and real models.",
 "C12": "All histories of 4 (5) operations; random histories with two files replayed; contents of files and all answers compared.",
 "C13": "Reversibility checked for all slices on a discrete circle; recorded runs of the real sampler in adversarial environments must be behaviours of the specification.",
 "C14": "Summaries of all short sample sequences exactly; histories of conditioning with stored samples for the predictions.",
 "C15": "All short series exhaustively; spectra and minimum-phase filters on transforms with rational cosines.",
 "C16": "Random walks of matrices with known spectra under rational rotations; polynomials with known Hessians; densities with known modes.",
 "C17": "As C10, with the random states in the terms.",
 "C18": "Random series of 6 (12) sessions over one directory replayed with training replaced by a stand-in, and real runs; provenance of every variable in every file.",
 "C19": "Conditional second moments from first principles in a finite-dimensional model; recorded prior draws judged by TLC and by statistics with 6 sigma bounds.",
 "C20": "All orders of moves in the unconstrained space and assignments; domains, transforms and instances compared after each.",
 "C21": "All selections and options on the specification; a random selection replayed on the real analysis, the contents of every panel compared to predictions of the posteriors.",
 "C22": "Random sequences of 6 (12) retellings on the specification, which proves that the path does not matter and that dimensions follow from the equations; answers of the real models in both tellings compared.",
})
