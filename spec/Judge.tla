-------------------------------- MODULE Judge -------------------------------
(* Recorded events that are judged by themselves.                           *)
EXTENDS JudgeText, JudgeSources, JudgeSignals, JudgeGas, JudgeObjects, BinTrees, Files

JudgeEvent(ev, E) ==
  CASE ev.e = "meet"      -> JudgeMeet(ev)
    [] ev.e = "member"    -> JudgeMember(ev)
    [] ev.e = "index"     -> JudgeIndex(ev, E)
    [] ev.e = "salvo"     -> JudgeSalvo(ev, E)
    [] ev.e = "turn"      -> JudgeTurn(ev, E)
    [] ev.e = "axisangle" -> JudgeAxisAngle(ev)
    [] ev.e = "align"     -> JudgeAlign(ev)
    [] ev.e = "affine"    -> JudgeAffine(ev)
    [] ev.e = "untouched" -> JudgeUntouched(ev)
    [] ev.e = "angle"     -> JudgeAngle(ev)
    [] ev.e = "project"   -> JudgeProject(ev)
    [] ev.e = "unit"      -> JudgeUnit(ev)
    [] ev.e = "distance"  -> JudgeDistance(ev)
    [] ev.e = "precision" -> JudgePrecision(ev)
    [] ev.e = "repr"      -> JudgeRepr(ev)
    [] ev.e = "table"     -> JudgeTable(ev)
    [] ev.e = "spaced"    -> JudgeSpaced(ev)
    [] ev.e = "profiling" -> JudgeProfiling(ev)
    [] ev.e = "sides"     -> JudgeSides(ev)
    [] ev.e = "bundle"    -> JudgeBundle(ev)
    [] ev.e = "resolution" -> JudgeResolution(ev)
    [] ev.e = "colour"    -> JudgeColour(ev)
    [] ev.e = "savgol"    -> JudgeSavgol(ev)
    [] ev.e = "average"   -> JudgeAverage(ev)
    [] ev.e = "nearest"   -> JudgeNearest(ev)
    [] ev.e = "loginterp" -> JudgeLogInterp(ev)
    [] ev.e = "energy"    -> JudgeEnergy(ev)
    [] ev.e = "fermi"     -> JudgeFermi(ev)
    [] ev.e = "fermiapprox" -> JudgeFermiApprox(ev)
    [] ev.e = "concentration" -> JudgeConcentration(ev)
    [] ev.e = "entropy"   -> JudgeEntropy(ev)
    [] ev.e = "round"     -> JudgeRound(ev)
    [] ev.e = "rectangle" -> JudgeRectangle(ev)
    [] ev.e = "name"      -> JudgeName(ev)
    [] ev.e = "frame"     -> JudgeFrame(ev)
    [] ev.e = "twin"      -> JudgeTwin(ev)
    [] ev.e = "circle"    -> JudgeCircle(ev)
    [] ev.e = "corners"   -> JudgeCorners(ev)
    [] ev.e = "ball"      -> JudgeBall(ev)
    [] ev.e = "equalaxes" -> JudgeEqualAxes(ev)
    [] ev.e = "patch"     -> JudgePatch(ev)
    [] ev.e = "default"   -> JudgeDefault(ev)
    [] ev.e = "marker"    -> JudgeMarker(ev)
    [] ev.e = "tree"      -> JudgeTree(ev)
    [] ev.e = "files"     -> JudgeFiles(ev)
=============================================================================
