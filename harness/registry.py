"""Which suites and models decide which property: SUITES[property][suite] = (recorder, episodes quick, thorough)."""
import tracer_suites
import shape_suites
import vector_suites
import text_suites
import source_suites
import signal_suites
import tree_suites
import files_suites
import object_suites
import gas_suites
import models

SUITES = {}
MODELS = {}
ASSUMPTIONS = {}
COMMON = [
    "spec/*.tla is evaluated by TLC with the BigNum operators overridden by java/BigNum.java (compared with their TLA+ definitions by SelfTest_BigNum at setup)",
    "decisions within rounding distance of an edge, tangent, tie or coincidence may go either way (exact worlds excepted)",
]


def suite(prop, name, f, quick, thorough):
    SUITES.setdefault(prop, {})[name] = (f, quick, thorough)


for m in (tracer_suites, shape_suites, vector_suites, text_suites, source_suites, signal_suites, tree_suites,
          files_suites, object_suites, gas_suites):
    m.register(suite)


def model(prop, m):
    MODELS.setdefault(prop, []).append(m)


models.register(model)
