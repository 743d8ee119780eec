--------------------------- MODULE TranscriptMC ---------------------------
EXTENDS Transcript, IOUtils
Which == IOEnv.WHICH
StepsMC == IF Which = "range" THEN RangeSteps(2) ELSE IF Which = "product" THEN ProductSteps(2, 2) ELSE EqualSteps
DepsMC == Required(StepsMC)
\* vacuity: leaving out any single input lets the adversary violate the order
Leaky == \A ch \in Challenges(StepsMC) : \A mm \in DepsMC[ch] : mm \in Before(StepsMC, ch)
=============================================================================
