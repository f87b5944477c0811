"""What decides each property: drivers recorded and validated, models checked."""
PROPS = {}
for _id in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C10"):
    PROPS[_id] = {"traces": [(_id, "KVTrace")], "models": []}
for _id in ("C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C30"):
    PROPS[_id] = {"traces": [(_id, "GeoIndexTrace")], "models": []}
for _id in ("C21", "C22", "C25"):
    PROPS[_id] = {"traces": [(_id, "CoverTrace")], "models": []}
PROPS["C23"] = {"traces": [("C23", "GeoJSONTrace")], "models": []}
PROPS["C24"] = {"traces": [("C24", "RejectTrace")], "models": []}
for _id in ("C26", "C27"):
    PROPS[_id] = {"traces": [(_id, "CellsTrace")], "models": []}
PROPS["C28"] = {"traces": [("C28", "HttpTrace")], "models": [], "bins": {"MAPDEBUGGER": "github.com/akhenakh/oureadb/cmd/mapdebugger"}}
PROPS["C09"] = {"traces": [("C09", "ConcTrace")], "models": []}
PROPS["C29"] = {"traces": [("C29", "IndexConcTrace")], "models": []}
PROPS["C10"]["traces"].append(("C10conc", "ConcTrace"))
PROPS["C11"] = {"traces": [("C11", "LifecycleTrace")], "models": []}
PROPS["C08"] = {"traces": [("C08", "DurableTrace")], "models": [], "crash": True}

# models checked exhaustively whose behaviours are made on the real code
for _id, _m in (("C01", "MCKVbatch"), ("C02", "MCKVfail"), ("C03", "MCKVbatch"), ("C04", "MCKVsnap"),
                ("C05", "MCKViter"), ("C06", "MCKVbatch"), ("C07", "MCKVmulti"), ("C10", "MCKVcompact")):
    PROPS[_id]["scripts"] = [_m]
for _id, _m in (("C12", "MCGeoFlat"), ("C13", "MCGeoPoint"), ("C16", "MCGeoTime"), ("C18", "MCGeoMix"), ("C19", "MCGeoMix"), ("C20", "MCGeoMix"), ("C30", "MCGeoMix"),
                ("C26", "MCCellSets"), ("C27", "MCCellText"), ("C14", "MCRegion"), ("C15", "MCRegion"), ("C17", "MCRegion")):
    PROPS[_id]["scripts"] = [_m]
PROPS["C11"]["scripts"] = ["MCLifeBolt", "MCLifeLevel"]

# models of how the code does it, checked exhaustively; and those of how it must
# not be done, which the same specification has to refute
def _impl(ids, spec, cfgs, refuted):
    for i in ids:
        PROPS[i].setdefault("models", []).extend((spec, spec + c) for c in cfgs)
        PROPS[i].setdefault("refuted", []).extend((spec, spec + c) for c in refuted)

_impl(["C02", "C03"], "ImplBatch", [""], ["_keepmerges", "_direct", "_last"])
_impl(["C05"], "ImplIter", [""], ["_unclamped", "_noend"])
_impl(["C08"], "ImplWal", [""], ["_nosync", "_half", "_nocut", "_head"])
_impl(["C08"], "ImplShadow", [""], ["_onesync", "_onemeta", "_reuse", "_nosync"])
_impl(["C09"], "MCImplConc", ["_lock", "_optimistic"], ["_nolock", "_lockmerges", "_blind"])
_impl(["C29", "C30"], "ImplIndexConc", ["_whole"], ["_percell", "_buffer", "_kept"])
_impl(["C12", "C13", "C18"], "ImplIndex", ["_point"], ["_last"])
_impl(["C16"], "ImplIndex", ["_time"], ["_signed", "_direct"])
