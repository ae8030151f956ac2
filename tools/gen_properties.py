#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code because it is easier to review than one-line JSON)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
                     hook_needed=None)))

SM="src/utils/state_management.cpp"; SH="src/utils/state_management.hpp"; AP="src/app/openemsh.cpp"
BD="src/domain/board.cpp"; CM="src/domain/conflict_manager.cpp"; PM="src/domain/meshline_policy_manager.cpp"
PC="src/infra/parsers/parser_from_csx.cpp"; SC="src/infra/serializers/serializer_to_csx.cpp"

p("C01","Undo and redo walk one linear history of remembered points",
  "Undoing n steps from the newest remembered point lands on the point remembered n steps earlier, redoing lands back on the points that were undone in the same order, and undoing or redoing n steps at once equals doing it one step at a time n times. The answers to 'can n steps be undone/redone' are exact: such a request is carried out if and only if the answer was yes, and changes nothing otherwise. Making or remembering a new point after an undo discards exactly the undone points from the history, so that a following undo returns to the point that was current before the new one.",
  ["histories"],"Every finite sequence of: create a point, jump (with or without remembering), remember, undo n, redo n, pin, unpin, annotate, collect garbage, reset.",
  "Existing tests exercise a handful of hand-written sequences of at most ten operations; the guarantee is over all interleavings of navigation commands.",
  [SM,SH],[("Caretaker::undo/redo/can_undo/can_redo",SM),("Caretaker::stop_browsing_user_history",SM),("Caretaker::remember_current_timepoint",SM)],
  ["Caretaker public API"],[("user_history","sequence of remembered points",SH),("user_history_browser","position while undone",SH)])
p("C02","Every object shows the state it had at the current point of history",
  "After any jump, undo or redo, each tracked object that existed on the branch shows the state recorded at the closest point, from the current point back towards the root, at which a state of that object was recorded, and its initial state if there is none. States recorded on another branch are never visible, and returning to a point always shows the same states again.",
  ["histories"],"Every tree of points, every assignment of object states to points recorded as they are created, and every order of jumps, undos, redos and garbage collections, including objects created late.",
  "Tests go through one fixed tree; deferred restoration, insertion order and collection interact over unbounded histories.",
  [SH,SM,"src/utils/tree_node.cpp"],[("Originator::go/actually_go (deferred)",SH),("Originator::set_state",SH),("TreeNode::common_ancestor","src/utils/tree_node.cpp")],
  ["Originator::get_current_state","Originator::get_current_timepoint"])
p("C03","History garbage collection removes all and only what is unreachable",
  "A collection removes every point of history that is neither current, remembered, pinned nor an ancestor of such a point, together with its annotation and the states recorded there, and nothing else: retained points, their annotations and the states visible from them are unchanged. With automatic collection on, abandoning undone points or releasing a pin leaves no unreachable point behind; with it off nothing disappears until a collection is requested.",
  ["histories"],"Every sequence of point creations, jumps, undo/redo, pins, unpins, annotations and explicit or automatic collections.",
  "The tests check one tree of twelve points and two hand-written triggers.",
  [SM,SH,"src/utils/tree_node.cpp"],[("Caretaker::garbage_collector",SM),("Originator::erase",SH),("TreeNode::erase_from_descendants","src/utils/tree_node.cpp")],
  ["TreeNode::cluster of the root","Caretaker::get_annotation","Originator::get_available_states"])
p("C04","Loading a document starts from a clean history",
  "Whatever was done before, after a document is loaded nothing can be undone or redone, no step counts as done, no trace of the previous document remains in the history, and processing it gives the same result as processing it in a fresh session.",
  ["histories","inputs"],"Every sequence of sessions (load, run, step, navigate, edit) followed by loading any document, including the same one.",
  "No test loads a second document after navigating; the session state is global.",
  [AP,SM],[("OpenEMSH::parse",AP),("Caretaker::reset",SM)],["OpenEMSH public API after parse()"])
p("C05","Step navigation runs every step once, in order, and back",
  "Repeatedly asking for the next step performs the fifteen processing steps in their fixed order, each exactly once, whatever the document contains, ends with the same mesh as running everything at once, and the offer of a next or previous step is made exactly when one exists. Going to the previous step returns to the situation just before the most recent step was performed, so that asking for the next step again performs that step again.",
  ["histories","inputs"],"Every document (including those for which some steps have nothing to do) and every sequence of next step, previous step, run from step, run all, undo and redo.",
  "Tests run the steps on one document and never step over a step that has nothing to do.",
  [AP,"src/app/steps.hpp"],[("OpenEMSH::run/run_next_step/go_before_previous_step/can_*",AP),("annotation of the current point before each step",AP)],
  ["OpenEMSH::get_current_step","Board getters"])
p("C06","Rewinding restores the whole model and re-running reproduces the result",
  "After going back (previous step, undo, or rewinding before a step) every observable part of the model, including conflicts, fixed lines and diagonals, is what it was when that point was first reached. Running again from there gives exactly the same conflicts, policies, intervals and mesh as the first time.",
  ["histories","inputs"],"Every document and every sequence of runs, rewinds before any step, undos, redos and re-runs.",
  "No test compares the model before and after a rewind, and none re-runs a step on a restored model.",
  [AP,BD,CM,PM],[("every model object is registered with the history",BD),("states are only written at new points",SH)],
  ["full projection of the Board through its getters"])
p("C07","An edit is equivalent to meshing the edited input",
  "Rewinding before the step that consumes a piece of data, changing that data (global parameters, an edge's meshing flag, a policy, an interval) and re-running from that step yields a model in which the change is in effect and everything computed from it is recomputed, independent of what had been computed before; undoing returns the model to what it was before the edit. An edit that is cancelled, or that enters what is no value of the item (no number, or one outside its domain such as a maximum gap that is not positive or a smoothness below 1), changes nothing.",
  ["histories","inputs"],"Every document, every editable item and value, any number of successive edits, interleaved with undo and redo.",
  "Edits are only reachable from the graphical interface, which has no tests.",
  [AP,"src/ui/qt/main_window.cpp","src/ui/qt/edit/edit_model_global.cpp"],[("MainWindow::handle_edition_from","src/ui/qt/main_window.cpp"),("OpenEMSH::go_before + run_from_step",AP)],
  ["Board getters after rewinding, editing, re-running"])
p("C08","Colinear edges are grouped and meshed as one",
  "Among the non diagonal edges of one plane, all the edges lying on the same line, when there are at least two, and only those, end up in one colinear conflict. Solving it yields exactly one policy at the coordinate of that line, chosen only from the outward directions (reversed where flagged so) of the member edges still to be meshed: centred line if one has no direction, halves if both directions occur, thirds on the side of the only direction otherwise, and no policy if no member is to be meshed.",
  ["inputs"],"Every set of polygons in every plane, every subset of edges marked not to be meshed or reversed.",
  "Tests cover a few fixed polygons in one plane; grouping is over all pairs and orders.",
  [BD,CM,"src/domain/conflicts/conflict_colinear_edges.cpp"],[("Board::detect_colinear_edges",BD),("ConflictManager::add_colinear_edges",CM),("ConflictColinearEdges::auto_solve","src/domain/conflicts/conflict_colinear_edges.cpp")],
  ["Board::get_conflicts_colinear_edges","Board::get_meshline_policies"])
p("C09","Edges buried in higher priority shapes are not meshed, others are",
  "An edge along an axis is dismissed from meshing if and only if it is entirely covered by the inside or the boundary of shapes of the same plane with greater or equal priority whose extents along the normal of the plane touch or overlap its own, boundaries facing the same direction as the edge not counting as covering it. Partially covered edges stay as they were, and an edge already excluded from meshing is never included again.",
  ["inputs"],"Every arrangement of polygons, priorities and extents in every plane.",
  "Tests use a few arrangements of two or three polygons; coverage is a union over all shapes and intersection orders.",
  [BD,CM,"src/domain/conflicts/conflict_edge_in_polygon.cpp"],[("Board::detect_edges_in_polygons",BD),("ConflictEdgeInPolygon::auto_solve","src/domain/conflicts/conflict_edge_in_polygon.cpp")],
  ["Board::get_conflicts_edge_in_polygons","Edge::to_mesh after the step"])
p("C10","Every meshable edge gets exactly one policy and no other edge gets any",
  "Once individual edges are processed, every edge still to be meshed that lies along an axis is represented by exactly one policy, on the axis perpendicular to it and at its coordinate: the policy of its colinear group if it has one, otherwise a thirds policy of its own turned towards its outward side (reversed when flagged so). Edges not to be meshed, and diagonal edges, yield no policy. Every fixed line asked for is represented by exactly one centred line policy at its coordinate.",
  ["inputs"],"Every set of polygons, meshing and reversal flags.",
  "Unit tests look at single fixtures; the guarantee quantifies over all edges of all inputs.",
  [BD,PM],[("Board::detect_individual_edges",BD),("MeshlinePolicyManager::add_meshline_policy",PM)],["Board::get_meshline_policies and their origins"])
p("C11","Policies too close to each other are merged until none remain",
  "After proximity resolution no two enabled policies of an axis are closer than or exactly at the proximity limit. The merge always takes a closest pair of enabled neighbours first, disables both, and adds one policy whose kind, direction and position follow the merge table (centred lines win and keep their position, otherwise the middle; equal directions keep the direction, different kinds or directions become halves); disabled policies never reappear and untouched ones are unchanged.",
  ["inputs"],"Every multiset of policies of every kind, direction, position and enablement, and every proximity limit.",
  "Tests cover pairwise tables and a few chains; the result of cascaded merges depends on the whole set.",
  [PM,CM,"src/domain/conflicts/conflict_too_close_meshline_policies.cpp"],[("detect_closest_meshline_policies",PM),("ConflictTooCloseMeshlinePolicies::auto_solve","src/domain/conflicts/conflict_too_close_meshline_policies.cpp")],
  ["Board::get_meshline_policies","Board::get_conflicts_too_close_meshline_policies"])
p("C12","Intervals tile the space between enabled policies",
  "On each axis the intervals are exactly the gaps between enabled policies at consecutive distinct coordinates: sorted, without hole or overlap, ignoring disabled policies, each knowing its true middle and half length and the parameters in force.",
  ["inputs"],"Every multiset of enabled and disabled policies and every set of global parameters.",
  "Tests use one or two fixed policy lists.",
  [PM,"src/domain/mesh/interval.cpp"],[("MeshlinePolicyManager::detect_intervals",PM)],["Board::get_intervals"])
p("C13","The mesh honours the maximum gap, growth, line count and policy rules",
  "On every axis the mesh lines are in increasing order, no gap exceeds the maximum distance, and every enabled centred-line policy has its line and every halves or thirds policy has, in the intervals on either side of it, its line at one half, or one third outside and two thirds inside, of its spacing. Lines are distinct unless policies are superimposed. In each half of each interval there is a line at the middle, at least the required number of lines, and going from the policy to the middle no gap exceeds the previous one (or the spacing of the policy for the first one) multiplied by the smoothness factor.",
  ["inputs"],"Every set of policies and of parameters (maximum gap, smoothness in ]1;2], minimal line count).",
  "Tests check a few intervals with fixed numbers; lines result from an iterative numeric search shared between neighbours.",
  ["src/domain/mesh/interval.cpp","src/domain/mesh/meshline_policy.cpp",PM],[("Interval::auto_solve_d / auto_solve_smoothness / mesh","src/domain/mesh/interval.cpp"),("MeshlinePolicyManager::mesh",PM)],["Board::get_meshlines"])
p("C14","Geometric relations of points, segments and polygons are exact",
  "The relation of two segments (apart, crossing, colinear, overlapping), the relation of a point to a segment and to a polygon (in, on, out), the intersection of crossing segments and the common part and union of overlapping ones agree with plane geometry, do not depend on the order or orientation in which the operands are given, and hold for polygons of any shape, orientation and vertex order.",
  ["inputs"],"All segments, points and simple polygons on the integer grid within the bound.",
  "Tests enumerate some dozens of positions; degenerate alignments (rays through vertices, touching ends) are combinatorial.",
  ["src/domain/geometrics/segment.cpp","src/domain/geometrics/polygon.cpp","src/domain/geometrics/range.cpp","src/domain/geometrics/bounding.cpp"],
  [("Segment::relation_to, intersection, overlap, merge","src/domain/geometrics/segment.cpp"),("Polygon::relation_to","src/domain/geometrics/polygon.cpp")],["return values"])
p("C15","Outward sides of edges follow geometry and materials",
  "Every axis-aligned edge of a simple polygon knows on which side the outside of the polygon lies, independent of vertex order, and diagonal edges have no such side. An edge is flagged for reversal if and only if the dominant material just outside it (that of the highest priority, then most conductive, shape whose bounding box holds what lies just beyond the edge and whose extent along the normal touches the polygon's; the background if none) ranks above the polygon's own material.",
  ["inputs"],"Every set of polygons, materials, priorities, extents and backgrounds in every plane.",
  "Tests have a few polygons; ranking and adjacency combine over all neighbours.",
  ["src/domain/geometrics/polygon.cpp","src/domain/material.cpp",BD],[("Polygon::detect_edge_normal","src/domain/geometrics/polygon.cpp"),("Board::adjust_edges_to_materials, find_ambient_material",BD),("Material comparison","src/domain/material.cpp")],["Edge::normal, Edge::to_reverse"])
p("C16","Diagonals: every vertex and crossing is found and every zone is refined",
  "Each polygon vertex touching a diagonal edge, and each crossing of a diagonal edge, between its ends, with an edge of another polygon, yields exactly one angle at that very point. On each axis the connected extents of the diagonal edges to be meshed form the diagonal zones; a mesh line is wanted at both ends of a zone and at the angles inside it that are at least as open as the minimal angle of the zone, and every angle yields a halves policy on both axes, in force exactly where wanted. Every interval whose middle lies inside a zone is attached to it, and it to the interval, and takes the maximum gap of a zone it is attached to; other intervals are unchanged.",
  ["inputs"],"Every set of polygons with and without diagonal edges in every plane, and all diagonal parameters.",
  "Tests have a couple of fixtures; run detection and zone attachment depend on the whole arrangement.",
  [BD,"src/domain/geometrics/angle.cpp","src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp","src/utils/vector_utils.hpp"],
  [("Board::detect_diagonal_angles / detect_diagonal_zones",BD),("ConflictDiagonalOrCircularZone::solve_*","src/domain/conflicts/conflict_diagonal_or_circular_zone.cpp")],["Board::get_angles","Board::get_conflicts_diagonal_or_circular_zones","Board::get_intervals"])
p("C17","CSX geometry is imported faithfully",
  "Every supported primitive of every relevant property of a document yields, in each plane that is not excluded and where it is not flat away, one polygon with the primitive's projected corners, its extent along the plane's normal, its priority, material and name; excluded planes and ignored properties yield none; points and flat polygons ask for fixed lines; unsupported or transformed primitives are reported and skipped without affecting the others.",
  ["inputs"],"All documents built from the supported primitives (finite coordinates, non-negative priorities), materials, attribute orders and plane exclusions.",
  "The CSX reader has no unit tests at all.",
  [PC,"src/infra/parsers/csxcad_layer/point_3d.cpp"],[("ParserFromCsx parse_primitive_*",PC)],["Board::get_polygons after parse"])
p("C18","Documents supply materials, parameters and fixed lines; bad ones are refused",
  "Property kinds map to the right material kind and colours, the background and the mesher parameters stored in a document are read, and pre-existing grid lines become fixed lines if and only if asked for. A document that cannot be read, is not XML, is not a CSX document or asks to be read with parameters or lines no mesh can be made with is refused with an error instead of producing a mesh.",
  ["inputs"],"All documents with any subset of parameters, materials and grids, in any order, and malformed ones.",
  "The CSX reader has no unit tests at all.",
  [PC],[("ParserFromCsx::run, parse_property, parse_grid, parse_oemsh",PC)],["Board::global_params, Board::find_ambient_material, policies"])
p("C19","Saving writes the mesh and leaves the rest of the document intact",
  "The saved document is the input document with only its grid (and, if asked for, its mesher parameters) replaced: each included axis lists exactly the computed lines (or policy lines, or both, as asked) in increasing order, excluded axes list none, and every other element, attribute, comment and (non blank) text is preserved. Saving again with the same options, or saving a document that was itself the result, changes nothing else.",
  ["inputs","configurations"],"All documents, all combinations of output options.",
  "Saving has no unit tests.",
  [SC],[("SerializerToCsx::run/visit",SC)],["the written file"])
p("C20","Parameters survive a save and reload",
  "Mesher parameters saved in a document are read back with the same values when it is loaded again, they then take effect on meshing, and saving without them removes them.",
  ["inputs","configurations"],"All parameter values accepted by the interface.",
  "Neither side has unit tests.",
  [SC,PC],[("SerializerToCsx with_oemsh_params",SC),("ParserFromCsx::parse_oemsh",PC)],["Board::global_params after reload"])
p("C21","Nothing is overwritten without consent and failures are reported",
  "In command line mode an existing output file, whatever the format written, is only overwritten with the force option; otherwise the run fails and the file's bytes are unchanged. No other file is ever changed. The exit status is success if and only if the requested output was completely written.",
  ["configurations","fault_sequences","inputs"],"All combinations of input/output paths, existing or missing files, grids, formats, force, and write failures (missing directory, read only, full device).",
  "The command line front end and saving have no tests.",
  ["src/main.cpp",AP,SC],[("OpenEMSH::is_about_overwriting",AP),("main","src/main.cpp"),("SerializerToCsx::run",SC)],["exit status","output file"])
p("C22","Parameters come from the command line, then the document, then defaults",
  "Each mesher parameter has the value given on the command line if any, otherwise the one stored in the document if any, otherwise the default, independently of the other parameters; out of range values and unknown options are refused before anything is written.",
  ["configurations","inputs"],"All subsets of command line options and document parameters.",
  "The command line front end has no tests.",
  ["src/ui/cli/cli.cpp",PC,AP],[("cli()","src/ui/cli/cli.cpp"),("override_from_cli",AP)],["OpenEMSH::get_params, Board::global_params, exit status"])
p("C23","Log messages reach the right sinks and questions get one answer",
  "A message without destination, or whose destination is not a registered sink, reaches every registered sink exactly once and unchanged, and the answer that comes back is that of the interactive sink, if there is one; a message for a registered sink reaches only that sink, whose answer comes back. At most one sink at a time is the interactive one and knows it: the one last asked for. An identifier keeps its first sink. The command line sink shows informations only when verbose and everything else always; where it is the interactive one, it asks a question that offers answers until one of these is typed, and answers nothing if there is nobody left to type.",
  ["histories"],"All sequences of sink registrations, changes of the interactive sink, and messages with and without destinations and questions.",
  "Tests register one or two sinks.",
  ["src/utils/logger.cpp","src/utils/logger.hpp"],[("Logger::log/register_sink","src/utils/logger.cpp")],["sinks"])
p("C24","The graphical interface keeps history, views and buttons consistent",
  "Whatever sequence of step, undo, redo, run and edit commands is issued in the graphical interface, the undo, redo, next and previous commands are enabled exactly when they would do something, the displayed views are those of the current point of history (every item of the model and no other, the lines where they are, the number of cells) and agree with the display buttons, a cancelled or invalid edit changes nothing, opening a document starts a fresh history, and a document that is refused leaves no command enabled that needs one.",
  ["histories"],"All command sequences in the main window and all edit dialog inputs.",
  "The graphical interface has no tests.",
  ["src/ui/qt/main_window.cpp","src/ui/qt/edit/edit_model.cpp"],[("MainWindow::go_to_or_make_current_state, update_navigation_buttons_visibility","src/ui/qt/main_window.cpp"),("EditModel::try_to_commit","src/ui/qt/edit/edit_model.cpp")],["QAction state","scene contents"])
p("C25","The window saves only where agreed and loses no work silently",
  "In the graphical interface saving writes the document with the mesh shown, and nothing else, to the file the document goes to (the last one it was read from or saved as, or the one given on the command line once confirmed); a file that exists is replaced only if the user agrees to it or agreed beforehand, a no or a failure leaves every file as it was, and a failure is told. Closing with a mesh that is in no file asks first, and the window goes only when the user gives the work up or the save succeeded; a document that could not be opened is never saved. Handing the mesh over to the viewer changes none of this.",
  ["histories","fault_sequences","inputs"],"All sequences of opening, work, saving, saving as, exporting and closing, all answers, and files changed, missing or not writable in between.",
  "The graphical interface has no tests, and what is asked and written depends on the whole history of the window.",
  ["src/ui/qt/main_window.cpp",AP],[("MainWindow::save_csx_file, on_a_file_save_triggered, on_a_file_save_as_triggered, closeEvent","src/ui/qt/main_window.cpp"),("OpenEMSH::is_about_overwriting, write",AP)],["message boxes","files on disk","window visibility"])
p("C26","Reports tell the model as it is, whole and unambiguously",
  "At any point of a session, whatever was edited, undone or redone, the PlantUML report holds one box for each polygon, edge, conflict (edge in polygon, colinear, too close), policy, interval and line of the model and no other, lying in its plane or axis (edges in their polygon), with its attributes, and exactly the links between those that refer to each other, each leading between boxes that are in the report. The text report lists exactly the edge in polygon and colinear conflicts with the edges, polygons and ranges they involve and how they were solved. Reporting changes nothing in the model nor in its history.",
  ["inputs","histories"],"Every document, every point of its processing, and every sequence of steps, edits, undos and redos before the report.",
  "No test reads a report.",
  ["src/infra/serializers/serializer_to_plantuml.cpp","src/infra/serializers/serializer_to_prettyprint.cpp",AP],[("SerializerToPlantuml::visit","src/infra/serializers/serializer_to_plantuml.cpp"),("SerializerToPrettyprint::visit","src/infra/serializers/serializer_to_prettyprint.cpp"),("OpenEMSH::write",AP)],["output file with -f plantuml","standard error with -f prettyprint"])
p("C27","Progress reports tell the step at work and add up",
  "Whatever is run, from wherever, after whatever edits, undos and redos, the progress reports made while a command is carried out name, out of fifteen, exactly the steps it performs, in order (0 while a document is read), every step reporting at least once; the count of a report never goes back nor past the end it announced, and every report comes to an end. Commands that perform no step report nothing. On the command line progress is shown when -v is given and only then; the status bar of the window shows the same step, message, length and count.",
  ["inputs","histories"],"Every document and every sequence of steps, runs, rewinds, edits, undos and redos.",
  "No test registers a progress bar nor runs a step with one.",
  ["src/utils/progress.cpp",AP,"src/ui/qt/progress.cpp","src/main.cpp","src/domain/board.cpp","src/domain/conflict_manager.cpp","src/domain/meshline_policy_manager.cpp"],[("OpenEMSH::get_current_step",AP),("OpenEMSH::run",AP),("Progress::Bar","src/utils/progress.cpp"),("ProgressBar::tick","src/ui/qt/progress.cpp")],["progress on standard error with -v","progress in the status bar of the window"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
