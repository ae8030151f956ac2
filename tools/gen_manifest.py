#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification model-checked with TLC, bound to the code by TLC trace validation"
SAMP = "exhaustive on the specification within the bounds of the cfg; sampled on the code"
CLAIMED = {
 "C01": ("History.tla (undo/redo/remember/collect state machine) checked by TLC; all short and many random command sequences on the real Caretaker validated as behaviours of it",
         "exhaustive on the specification within the bounds of the cfg; sampled plus exhaustive-short on the code"),
 "C02": ("History.tla closest-recorded-state rule checked by TLC; recorded executions of real originators validated against it",
         "exhaustive on the specification within the bounds of the cfg; sampled plus exhaustive-short on the code"),
 "C03": ("History.tla reachability/collection invariants and action properties checked by TLC; recorded executions validated against it",
         "exhaustive on the specification within the bounds of the cfg; sampled on the code"),
 "C04": ("Pipeline.tla (sessions: situations, linear history, loading) checked by TLC; random multi-document sessions of the real application validated against it, every situation having to show one and the same model", SAMP),
 "C05": ("Pipeline.tla step navigation checked by TLC; random navigation sessions validated against it and against references made of the fifteen steps called directly", SAMP),
 "C06": ("Pipeline.tla rewinding/re-running checked by TLC; digests of the whole model of random sessions validated to be a function of the situation", SAMP),
 "C07": ("Pipeline.tla edits (Canon: an edit equals loading with it) checked by TLC; random edit sessions of the real application, a quarter of them through the graphical interface, validated against it and against references edited directly", SAMP),
 "C08": ("DetectColinear/SolveColinear of Meshing.tla; the real steps on random boards with user edits are validated as transitions of it", SAMP),
 "C09": ("exact rational sweep (Buried) of Meshing.tla decides which edges are covered; the real steps on random boards are validated against it", SAMP),
 "C10": ("AddFixed/Individual of Meshing.tla; the real steps on random boards with user edits are validated as transitions of it", SAMP),
 "C11": ("MergeClose of Meshing.tla replays every recorded merge and the final state of the real step", SAMP),
 "C12": ("MakeIntervals of Meshing.tla; the real step on random policies is validated as a transition of it", SAMP),
 "C13": ("MakeMesh of Meshing.tla (grading, middle, pairs, order); the real lines of random boards are validated against it", SAMP),
 "C14": ("Geometry.tla: textbook definitions checked for their own laws by TLC; answers of the real code on all small and many random operands validated against them", SAMP),
 "C15": ("Geometry.tla (outward sides) and AdjustEdges of Meshing.tla; real polygons and boards validated against them", SAMP),
 "C16": ("FindAngles/FindZones/SolveAngles/AnglePolicies/AttachIntervals/RefineZones of Meshing.tla; the real steps on random boards validated against them", SAMP),
 "C17": ("Document.tla (what a document means) with its laws checked by TLC; what the application holds after reading random documents validated against it", SAMP),
 "C18": ("Document.tla (materials, background, parameters, lines, refusal) checked by TLC; random documents and runs of the program validated against it", SAMP),
 "C19": ("Files.tla (the program as a transition on a folder) checked by TLC; folders before and after runs of the real program validated against it, the lines against what the mesher makes of the same body", SAMP),
 "C20": ("Files.tla and Document.tla (parameters written, read and effective) checked by TLC; chains of runs of the real program, and documents read, validated against them", SAMP),
 "C21": ("Files.tla (refusals, overwriting, failures to write) checked by TLC; runs of the real program on folders, with missing folders, full devices and size limits, validated against it", SAMP),
 "C22": ("Files.tla (options, precedence) checked by TLC; command lines, and documents read with options, on the real program validated against it", SAMP),
 "C23": ("Log.tla (sinks, interactive sink, delivery) checked by TLC; all short and many random command sequences on the real logger validated against it", "exhaustive on the specification within the bounds of the cfg; sampled plus exhaustive-short on the code"),
 "C24": ("Pipeline.tla (sessions, enabled commands, opening, refusal) checked by TLC; random sessions of the real graphical interface (offscreen) validated against it, views compared with the model after each command", SAMP),
 "C25": ("Editor.tla (opening, saving, answers, closing, files changed behind the window) checked by TLC; behaviours drawn from the model by TLC are replayed in the real window (offscreen), questions, files and visibility validated against it", "exhaustive on the specification within the bounds of the cfg; drawn from the specification by TLC on the code"),
 "C27": ("Pipeline.tla says which steps every command performs (Ran.., ReportsOK), checked by TLC; the progress reports recorded during random sessions of the real application, of its graphical interface and of the program run from the command line are validated against it", SAMP),
 "C26": ("Report.tla (what the reports of a model say) checked by TLC on models that grow and change; the real reports, made in the middle of random sessions, validated against it", SAMP),
}
NOT_APPLICABLE = {}
NOTES = "python3 tools/check.py ID [quick|thorough]; technique everywhere: " + TECH
def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    na = []
    for p in props:
        if p["id"] not in CLAIMED:
            na.append(dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "check under construction")))
    m = dict(version=1, setup_cmd="python3 tools/setup.py",
             hooks=dict(guard="OEMSH_VERIF", enable="no hook is needed: harnesses drive public interfaces only", source_commits=[]),
             checks=[dict(property=k, quick_cmd="python3 tools/check.py %s quick" % k, thorough_cmd="python3 tools/check.py %s thorough" % k,
                          technique="TLA+/TLC: " + v[0], level="model_checking", level_note=v[1]) for k, v in sorted(CLAIMED.items())],
             not_applicable=na, notes=NOTES)
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
if __name__ == "__main__":
    main()
