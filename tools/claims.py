REPLAY = "replayed as SQL in the extension built from the working tree"
def tla(mods, how=""): return f"TLA+ (TLC): exhaustive and seeded random behaviours of {mods}, {REPLAY}{how}"
SCOPE = "Exhaustive within a small scope (stated in DESIGN.md and the evidence) plus seeded random larger behaviours; TLC checks the operational model against the definition within the scope; trusts TLC, PostgreSQL 16 and the driver's comparison. "
PENDING = {}
CLAIMS = {
 "C01": (tla("TwoStep.tla", " and through the aggregates' own transition, combine, serialize, deserialize and final functions"), "model_checking", SCOPE),
 "C02": (tla("RollTree.tla"), "model_checking", SCOPE),
 "C03": (tla("Storage.tla"), "model_checking", SCOPE),
 "C04": (tla("Window.tla"), "model_checking", SCOPE),
 "C05": (tla("Counter.tla"), "model_checking", SCOPE),
 "C06": (tla("Counter.tla (Gauge)"), "model_checking", SCOPE),
 "C12": (tla("NMost.tla"), "model_checking", SCOPE),
 "C08": (tla("TimeWeight.tla"), "model_checking", SCOPE),
 "C11": (tla("Candle.tla"), "model_checking", SCOPE),
 "C09": (tla("State.tla"), "model_checking", SCOPE),
 "C10": (tla("Heartbeat.tla"), "model_checking", SCOPE),
 "C17": (tla("Stats.tla"), "model_checking", SCOPE),
 "C07": (tla("CounterWindow.tla"), "model_checking", SCOPE),
 "C14": (tla("Hll.tla"), "model_checking", SCOPE),
 "C15": (tla("Udd.tla"), "model_checking", SCOPE),
 "C16": (tla("Digest.tla"), "model_checking", SCOPE),
 "C13": (tla("Freq.tla and Cms.tla"), "model_checking", SCOPE),
 "C18": (tla("Pipeline.tla"), "model_checking", SCOPE),
 "C19": (tla("Lambda.tla"), "model_checking", SCOPE),
 "C20": (tla("Lttb.tla and Asap.tla"), "model_checking", SCOPE),
 "C21": (tla("Calendar.tla"), "model_checking", SCOPE),
 "C22": (tla("Saturate.tla"), "model_checking", SCOPE),
 "C23": (tla("Render.tla"), "model_checking", SCOPE),
 "C24": ("TLA+ (TLC): exhaustive and seeded random histories of Upgrade.tla, replayed in PostgreSQL with the scripts that tools/post-install of the working tree makes of the working tree's install script", "model_checking", SCOPE + "Earlier versions' install scripts are not in the repository: they are the present one without what became stable later (harness/stable.json). "),
}
