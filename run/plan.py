"""Which stages decide which property."""
from stages import mc, seq, tour, conc, olc, free, multi, bulk

TRUST = ["TLC 1.8.0 evaluates the specifications correctly",
         "the harness records calls, results and allocator traffic faithfully"]

SEQ_TECH = "TLA+ model checking (TLC) and trace validation of recorded real histories against the specification"
SEQ_NOTE = ("TLC decides every recorded history of the real library against CongeeMap/Art; "
            "coverage of the code is bounded by the histories generated")
NOT_YET = {}

# the reclamation scheme on its own; with blocks coming back one epoch early
# TLC has to object
EPOCH = [mc("Epoch", cfg="Epoch_two.cfg"), mc("Epoch", cfg="EpochMut_early.cfg", expect="Abstraction", workers=1),
         mc("Epoch", cfg="Epoch_live.cfg", workers=1),
         mc("Epoch", cfg="Epoch_three.cfg", tiers=("thorough",), workers=8, timeout=3000)]
# how the four node classes represent a map from bytes to children
SLOTS = [mc("SlotsMC"), mc("SlotsMC", cfg="SlotsGoal_free.cfg", expect="FreeInOrder", workers=1),
         mc("SlotsMC", cfg="SlotsGoal_direct.cfg", expect="NeverDirect", workers=1)]

# who owns which block when several trees share allocators and threads
MULTI = [mc("Multi", workers=2)] + [
    mc("Multi", cfg="MultiMut_%s.cfg" % r, expect=e, workers=1)
    for r, e in [("drop_frees_retired", "Balance"), ("drop_forgets", "Balance"), ("exit_forgets", "Balance"),
                 ("release_to_home", "NoComplaint")]] + [
    mc("Multi", cfg="Multi_deep.cfg", tiers=("thorough",), workers=8, timeout=3000, heap="10g")]

PLAN = {
    "C01": dict(level="model_checking", stages=[mc("ArtMC_a")] + SLOTS + [seq("point"), tour("point"), bulk()],
                assumptions=TRUST),
    "C02": dict(level="model_checking", stages=[mc("ArtMC_b")] + SLOTS[:1] + [seq("range"), tour("range"), bulk()], assumptions=TRUST),
    "C03": dict(level="model_checking", stages=[olc(["point_q"], ["point", "three", "two"], ["get_miss_unchecked", "check_ignores_lock", "unlink_without_leaf_lock", "grow_without_obsolete"]), conc("point"), free("point")], assumptions=TRUST),
    "C04": dict(level="model_checking", stages=[olc(["rmw_q"], ["point", "two"], ["relock_in_place", "version_comes_round"]), seq("rmw"), conc("rmw"), free("rmw")], assumptions=TRUST),
    "C05": dict(level="model_checking", stages=[olc(["scan_q"], ["scan", "three"], ["scan_slots_unchecked", "scan_end_unchecked"]), conc("range"), free("range")], assumptions=TRUST),
    "C06": dict(level="model_checking", stages=[olc(["point_q"], ["point", "scan", "three"], ["free_at_once"])] + EPOCH + [conc("reclaim", rec=True, lin=False), conc("stats", rec=True, lin=False, q_secs=5)], assumptions=TRUST),
    "C07": dict(level="model_checking", stages=[olc(["point_q"], ["two"], ["race_leaks_leaf"]), seq("mem"), tour("mem"), conc("mem", q_secs=6), free("mem", q_secs=3), bulk()], assumptions=TRUST),
    "C08": dict(level="model_checking", stages=[olc(["fault_q"], ["fault"], ["oom_keeps_lock"]), seq("oom"), tour("oom"), seq("oomdef", q_events=24000, q_secs=3), conc("fault", q_secs=6), free("fault", q_secs=3)],
                assumptions=TRUST),
    "C09": dict(level="model_checking", stages=[seq("drain"), tour("drain"), conc("mem", q_secs=6), free("mem", q_secs=3), bulk()], assumptions=TRUST),
    "C10": dict(level="model_checking", stages=[olc(["empty_q"], ["empty"], ["empty_without_recheck"]), seq("empty"), tour("empty"), conc("empty"), free("empty"), bulk()], assumptions=TRUST),
    "C11": dict(level="model_checking", stages=[mc("ArtMC_c"), seq("stats"), tour("stats"), conc("stats"), free("stats", q_secs=3), bulk()], assumptions=TRUST),
    "C12": dict(level="model_checking", stages=[olc(["live_q"], ["live"], ["parent_stays_locked"]), conc("progress"), free("progress")], assumptions=TRUST),
    "C13": dict(level="model_checking", stages=[olc(["fault_q"], ["fault"]), seq("panic"), tour("panic"), conc("panic"), free("panic", q_secs=3)], assumptions=TRUST),
    "C14": dict(level="model_checking", stages=[mc("ArtMC_c")] + SLOTS + [seq("shape"), tour("shape")], assumptions=TRUST),
    "C15": dict(level="model_checking", stages=[olc(["point_q"], ["two"], ["race_leaks_leaf"])] + EPOCH + [seq("mem", check="C15"), tour("mem", check="C15"), conc("mem", q_secs=6), free("mem", q_secs=3), bulk()], assumptions=TRUST),
    "C16": dict(level="model_checking", stages=MULTI + [multi()], assumptions=TRUST),
}

for q in PLAN.values():
    q.setdefault("technique", SEQ_TECH)
    q.setdefault("note", SEQ_NOTE)
