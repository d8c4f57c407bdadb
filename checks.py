"""What decides each property. Engines: A controlled schedules, B stress, C Miri, D poll-level programs, E sanitizers."""
RULE_A = "Engine A: seeded schedules (random walk and priority-based) of simulated threads over the instrumented atomics; a case is non-trivial when it contains at least one preemption beyond start-up; distinct = different sequence of (switch position, thread) or of observed events."
RULE_D = "Engine D: random programs over scripted leaves; non-trivial when at least one leaf was pending or an item flowed; distinct = different sequence of observed polls, wake-ups and events."
RULE_AC = RULE_A + " Miri: one interpreted execution per seed."
TA = "controlled-schedule runtime monitoring (instrumented atomics) + Miri many-seeds"
TD = "poll-level runtime monitors against an executable reference model"
NA = "Held on the schedules and histories explored (counts in the evidence); sequentially consistent interleavings by the controlled scheduler, weak memory and data races only as far as Miri's sampled executions reach."
ND = "Held on the generated programs and wake orders (counts in the evidence); trusts the reference model and the scripted leaves."
WAKE = "lost wake-up|not woken|polled after|not finished|spins|no progress"
OWN = "never dropped|dropped twice|used after|leak|after its last handle"
MEM = "dropped twice|used after free|moved|torn"
LEVELS = {}
NOT_APPLICABLE = {}
CHECKS = {
    "C01": dict(bins=["c01"], scale_native=8, miri=[("m01", 1000, 12000)], rule=RULE_AC, technique=TA, note=NA),
    "C02": dict(bins=["c02"], scale_native=8, miri=[("m02", 1000, 12000)], rule=RULE_AC, technique=TA, note=NA),
    "C03": dict(bins=["c03"], scale_native=8, miri=[("m03", 800, 8000)], rule=RULE_AC, technique=TA, note=NA),
    "C04": dict(bins=["c04"], scale_native=8, miri=[("m03", 400, 8000)], rule=RULE_AC, technique=TA, note=NA),
    "C05": dict(bins=["c05"], scale_native=8, miri=[("m03", 400, 8000)], rule=RULE_AC, technique=TA, note=NA),
    "C06": dict(bins=["c06"], scale_native=8, miri=[("m06", 800, 10000)], rule=RULE_AC, technique=TA, note=NA),
    "C07": dict(bins=["c07"], scale_native=8, miri=[("m07", 800, 10000)], rule=RULE_AC, technique=TA, note=NA),
    "C08": dict(bins=["c08"], scale_native=8, miri=[("m08", 800, 10000)], rule=RULE_AC, technique=TA, note=NA),
    "C09": dict(bins=["c09"], miri=[("m09", 800, 10000)], rule=RULE_AC, technique=TA, note=NA),
    "C10": dict(bins=["c10"], rule=RULE_D, technique=TD, note=ND),
    "C11": dict(bins=["c11"], rule=RULE_A + " " + RULE_D, technique="controlled-schedule runtime monitoring (instrumented atomics) + poll-level monitors", note=NA),
    "C12": dict(bins=["c12"], miri=[("m12", 600, 10000)], rule=RULE_AC, technique=TA, note=NA),
    "C13": dict(bins=["c13"], miri=[("m12", 600, 10000)], rule=RULE_AC, technique=TA, note=NA),
    "C14": dict(bins=["c14"], rule=RULE_D, technique=TD, note=ND),
    "C15": dict(bins=["c15"], rule=RULE_D, technique=TD, note=ND),
    "C16": dict(bins=["c16"], rule=RULE_D, technique=TD, note=ND),
    "C17": dict(bins=["c17"], rule=RULE_D, technique=TD, note=ND),
    "C18": dict(bins=["c18"], rule=RULE_D, technique=TD, note=ND),
    "C19": dict(bins=["c19"], rule=RULE_D, technique=TD, note=ND),
    "C21": dict(bins=["c21"], rule=RULE_D, technique=TD, note=ND),
    "C22": dict(bins=["c22"], rule=RULE_D, technique=TD, note=ND),
    "C23": dict(bins=["c23"], rule=RULE_D, technique=TD, note=ND),
    "C24": dict(bins=["c24"], rule=RULE_D, technique=TD, note=ND),
    "C25": dict(bins=["c25"], miri=[("m25", 600, 8000)], rule=RULE_AC, technique=TA + " + native stress with delay injection", note=NA),
    "C26": dict(bins=["c26"], miri=[("m26", 500, 6000)], rule=RULE_AC, technique=TA + " + native stress with delay injection", note=NA),
    "C20": dict(bins=[("c20", None, None)] + [(b, s, WAKE) for b, s in (("c10", .3), ("c11", .3), ("c14", 1), ("c15", 1), ("c16", .5), ("c17", 1), ("c18", 1), ("c19", 1), ("c21", .3), ("c22", .2), ("c23", .3), ("c24", .2))],
        rule=RULE_D, technique=TD, note=ND),
    "C27": dict(bins=[("c27", 1.5, None)] + [(b, s, OWN) for b, s in (("c02", 1), ("c03", 1), ("c05", 1), ("c06", 1), ("c08", 1), ("c09", .2), ("c11", .1), ("c12", .3), ("c13", .3), ("c20", .1), ("c22", .1), ("c25", .1), ("c26", .1))],
        rule=RULE_A + " " + RULE_D, technique="drop-accounting monitors over random programs cut, panicked and cancelled at random points + controlled schedules", note=ND),
    "C28": dict(bins=["c28"], scale_native=4,
        miri=[("m28", 200, 2500), ("m01", 100, 2000), ("m02", 100, 2000), ("m03", 120, 2000), ("m06", 100, 2000), ("m07", 80, 2000), ("m08", 100, 2000), ("m09", 120, 2000), ("m12", 80, 2000), ("m25", 80, 1000), ("m26", 80, 1000), ("m29", 100, 2000)],
        sanitizers=["asan", "tsan"],
        bins_asan=[("c28", .5, None)] + [(b, s, MEM) for b, s in (("c01", 1), ("c02", 1), ("c03", 1), ("c05", 1), ("c06", 1), ("c07", 1), ("c08", 1), ("c09", .1), ("c11", .1), ("c12", .1), ("c13", .1), ("c23", .03), ("c24", .03), ("c25", .06), ("c26", .06), ("c27", .1), ("c29", 1), ("c30", 1))],
        bins_tsan=["c28"], scale_tsan=3,
        rule="Native, AddressSanitizer and ThreadSanitizer: one case per seed, real threads (c28) or simulated threads and scripted programs (others); distinct = different sequence of observed events. Miri: one interpreted execution per seed.",
        technique="Miri (many seeds, weak memory, aliasing models) + AddressSanitizer + ThreadSanitizer over concurrent and address-sensitive workloads", note="No undefined behaviour, data race or moved pinned value on the executions observed (counts in the evidence)."),
    "C29": dict(bins=["c29"], scale_native=40, miri=[("m29", 800, 8000)], rule=RULE_AC, technique=TA + " of waker and task-object reference counts", note=NA),
    "C30": dict(bins=["c30"], scale_native=10, sanitizers=["asan"], rule=RULE_D, technique=TD + " + AddressSanitizer", note=ND),
}
