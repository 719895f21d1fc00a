SPECIFICATION Spec
CONSTANTS Bits = 0  MaxT = 3
CONSTANT Dims <- Dims11
INVARIANTS FilterIsConditional PredictIsConditional SmootherIsConditional LikelihoodIsEvidence CovarianceValid SmootherStartsAtFilter
PROPERTY ForwardAppends
CHECK_DEADLOCK FALSE
