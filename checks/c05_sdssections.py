PID = "C05"
TECHNIQUE = "TLA+ specification of SDS files as sections of items; TLC replays every recorded history of appends, selective loads, filters and concatenations"
LEVEL_NOTE = ("Histories of appended sections, overwrites, concatenations, loads of named items and row-filtered reads on real files are replayed step by step on "
              "Sds.tla, which gives the rows of every section in order, with invalid rows where a section lacks an item. Trusts TLC and the value coding.")
TRACE = "SdsTrace"
MODELS = [{"spec": "SdsMC", "workers": 3}]
ASSUMPTIONS = ["row filters are given for datasets whose items have equal numbers of rows"]
from c06_sdsstack import stacking


def drive(rec, shard, nshards, tier):
    rec.emit("begin", {}, {})
    for rep in range(20 if tier == "quick" else 250):
        stacking(rec, True, rep % 10 == 9)
