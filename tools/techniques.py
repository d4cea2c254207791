t("C16 C17 C26 C29 C30 C40", "TLA+ model Twin checked with TLC (2-safety of paired runs) + trace validation of paired real runs (TwinTrace)", DESIGN + BIND + TRUST)
t("C18", "TLA+ model Pool checked with TLC (all completion orders) + schedules replayed on real thread pools + trace validation (PoolTrace)", DESIGN + BIND + TRUST)
t("C19", "TLA+ model Spmd checked with TLC (all rank interleavings, liveness) + schedules replayed on in-process ranks + trace validation (SpmdTrace)", DESIGN + BIND + TRUST)
t("C08", "TLA+ model Feas checked with TLC + trace validation of real runs (FeasTrace)", DESIGN + BIND + TRUST)
t("C10", "TLA+ model DEMove/DEModel checked with TLC + trials of real runs resolved into member combinations and validated by DETrace", DESIGN + BIND + TRUST)
t("C11", "TLA+ model PSOMove/PSOModel checked with TLC + trace validation of real moves (PSOTrace)", DESIGN + BIND + TRUST)
t("C12", "TLA+ model Restart/RestartModel checked with TLC + behaviour replay + trace validation (RestartTrace)", DESIGN + BIND + TRUST)
t("C13", "TLA+ model NACell/NAModel checked with TLC + trace validation of nearest-model relations (NATrace)", DESIGN + BIND + TRUST)
t("C14", "TLA+ model InitPop/InitModel checked with TLC + trace validation of first populations (InitTrace)", DESIGN + BIND + TRUST)
t("C15", "TLA+ model Gauss/GaussModel checked with TLC + trace validation of generation centres and 7-sigma integer statistics (GaussTrace)", DESIGN + BIND + TRUST)
t("C20", "TLA+ model Fault checked with TLC (every fault point) + faults injected into real runs + trace validation (FaultTrace)", DESIGN + BIND + TRUST)
t("C21", "TLA+ model Alias checked with TLC + trace validation of before/after snapshots (PureTrace)", DESIGN + BIND + TRUST)
t("C22", "TLA+ models ChainModel/Metropolis checked with TLC + behaviour replay + trace validation incl. 7-sigma integer statistics (ChainTrace)", DESIGN + BIND + TRUST)
t("C23", "TLA+ models ChainModel/Metropolis/Leap checked with TLC + behaviour replay + trace validation of leapfrog residuals and lotteries (ChainTrace)", DESIGN + BIND + TRUST)
t("C24", "TLA+ model ChainModel checked with TLC + behaviour replay + trace validation (ChainTrace)", DESIGN + BIND + TRUST)
t("C25", "TLA+ decision table Config enumerated by TLC (every configuration up to two deviations) and replayed as real calls", DESIGN + BIND + TRUST)
t("C27", "TLA+ model ResultObj checked with TLC, every operation sequence replayed + random sequences validated (ResultTrace)", DESIGN + BIND + TRUST)
t("C28", "TLA+ model Bench (integer lattice) checked with TLC, lattice points replayed + trace validation of values and relations (BenchTrace)", DESIGN + BIND + TRUST)
REF = "floating-point reference of the published update feeds distances to the trace specification (trusted projection), which also recomputes the law in fixed point on small runs; trusts numpy's least squares and eigen decomposition; well-conditioned generations with distinct values only"
t("C31", "TLA+ model Adapt/AdaptModel checked with TLC + sampling distribution reconstructed from real runs and validated by CmaTrace (fixed-point published update, age of the decomposition)", REF)
t("C32", "TLA+ model Adapt/AdaptModel checked with TLC + penalty weights reconstructed from real runs and validated by BndTrace (history, phase and growth recomputed in TLA+)", REF)
t("C33", "TLA+ model Adapt/AdaptModel checked with TLC + sampling distribution reconstructed from real runs and validated by VdTrace (two-point path recomputed in TLA+)", REF)
t("C34", "TLA+ model Binding checked with TLC (every way of passing arguments) and replayed as pairs of real calls on TwinTrace; result fields on FieldsTrace", DESIGN + BIND + TRUST)
t("C35", "TLA+ models Draws/DrawModel checked with TLC (exact weights of the lotteries) + trace validation of outcome counts read off real runs (DrawTrace)", DESIGN + BIND + "counts within six standard deviations; " + TRUST)
t("C36", "TLA+ models StopRule/StopModel checked with TLC + replay of its schedules of selection + trace validation (StopTrace)", DESIGN + BIND + "sigma, C and p_c are followed by a floating-point reference on the points the run evaluated; " + TRUST)
t("C37", "TLA+ model Session checked with TLC (all interleavings and nestings; a shared-memory variant is refuted) + its schedules replayed on real calls in threads and in callbacks, validated by SessionTrace", DESIGN + BIND + TRUST)
t("C38", "TLA+ model Horizon checked with TLC + pairs of real runs validated in lockstep by HorizonTrace", DESIGN + BIND + TRUST)
t("C39", "TLA+ models Schedule/ScheduleModel checked with TLC + its collapse scenarios replayed + trace validation (ScheduleTrace)", DESIGN + BIND + "the exponential and the radius are evaluated in floating point by the harness (decisions within 1e-9 are left open)")
