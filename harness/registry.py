"""Which driver decides which property."""
import causal
import config
import cov
import dataset
import fit
import linear
import nonlinear
import objects
import perstep
import primitives
import represent
import sampling
import sigma
import threads

TV = "TLA+ specification of the Kalman filter and smoother (exact rational arithmetic) model checked with TLC; trace validation of the real code's results on TLC-generated scenarios"
EMT = "TLA+ specification of EM (exact rational arithmetic) model checked with TLC (moments, maximality, monotonicity); trace validation of the parameters recorded from the real em on TLC-generated scenarios"
UT = "TLA+ specification of the unscented filters and smoothers model checked with TLC (exact on affine models); trace validation of the real code's results on TLC-generated scenarios with polynomial and rational functions"
ST = "TLA+ specification of ancestral sampling model checked with TLC; validation of paths the real code draws: noises recovered from them must lie in the range of their covariances and have the moments specified"
CT = "TLA+ specification of causality (reports are a function of the observations so far), refinement by the filter machine model checked with TLC; validation of recorded runs of the real code on TLC-generated scenarios with differing continuations"
GT = "TLA+ specification of dimension inference and defaults, all constructions explored exhaustively with TLC; each tried on the real code and the outcome validated; results with omitted parameters validated against the Kalman, EM and unscented specifications"
VT = "TLA+ specification of the Kalman filter, validity and monotonicity of its covariances model checked with TLC (exact arithmetic); validation of recorded covariances, long and badly conditioned, by exact pivoting"
DT = "TLA+ specification of the data set's fields and of the Kalman filter, model checked with TLC; validation of the fields load_robot returns and of the estimates computed from them over all 501 steps"
OT = "TLA+ specification of filter objects (heap of shared and copied parameter values, results, generators) model checked with TLC; validation of histories recorded from the real code, the histories generated by TLC"
PT = "TLA+ specification of the factorisations as in-place machines (U D U', rank one updates) model checked with TLC over small integer matrices; validation of recorded calls of the real routines in exact arithmetic, on TLC-generated scenarios"
HT = "TLA+ specification of overlapping queries (refinement of module Objects: linearizable, results as alone), all interleavings of small programs model checked with TLC; validation of histories recorded from the real code under thread schedules generated by TLC"
CHECKS = {
    "C01": (linear.c01, TV),
    "C02": (linear.c02, TV),
    "C03": (linear.c03, TV),
    "C04": (linear.c04, TV),
    "C05": (linear.c05, TV),
    "C06": (linear.c06, TV),
    "C07": (fit.c07, EMT),
    "C08": (fit.c08, EMT),
    "C09": (fit.c09, EMT),
    "C10": (perstep.c10, TV),
    "C11": (config.c11, GT),
    "C12": (objects.c12, OT),
    "C13": (represent.c13, TV),
    "C14": (cov.c14, VT),
    "C15": (sampling.c15, ST),
    "C16": (sigma.c16, TV),
    "C17": (nonlinear.c17, UT),
    "C18": (nonlinear.c18, UT),
    "C19": (causal.c19, CT),
    "C20": (objects.c20, OT),
    "C22": (dataset.c22, DT),
    "C21": (objects.c21, OT),
    "C23": (primitives.c23, PT),
    "C24": (threads.c24, HT),
}

NOTES = {
    "": "The specification is checked exhaustively with TLC on small models with exact arithmetic; the real code is bound to it by "
        "validating what it returns on scenarios generated by TLC, up to floating point rounding. Assurance for the code is that of the "
        "scenarios explored (seeded, reproducible). Trusted: TLC, the Java evaluation of module Rat (itself checked by RatTest), the recorder.",
}
NOT_YET = {}
