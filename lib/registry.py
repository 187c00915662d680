"""Which monitors decide which property."""
CHECKS = {}
NOT_APPLICABLE = {}
DBL = ("EDYN_DOUBLE_PRECISION",)


def C(pid, **kw):
    CHECKS[pid] = kw


def netx(name, part, scale, extra=()):
    """Components, shapes, constraints and packets (double precision only in the thorough tier)."""
    ex = (f"-DVF_PART={part}",) + tuple(extra)
    return [dict(name=name, harness="s11nx.cpp", config="asanl", sources="net", extra=ex, scale=scale),
            dict(name=name + "_d", harness="s11nx.cpp", config="asanl", sources="net", extra=ex, defs=DBL, thorough_only=True, scale=scale)]


def prec(name, harness, part=None, scale=1.0, dscale=None, **kw):
    """The same monitors in single and double precision, under ASan+UBSan."""
    ex = (f"-DVF_PART={part}",) if part else ()
    return [dict(name=name, harness=harness, config="asan", extra=ex, scale=scale, **kw),
            dict(name=name + "_d", harness=harness, config="asan", extra=ex, defs=DBL,
                 scale=scale / 2 if dscale is None else dscale, **kw)]


FP = "IEEE-754 arithmetic without contraction; tolerances scale with the rounding unit of the precision under test"
C("C01",
  rule="a case is a concurrent execution whose job history (producer/consumer counts, job counts, delay plan) differs; trivial ones (no concurrent producer or consumer) are not counted",
  runs=[dict(name="par1", harness="parallel.cpp", config="plain", extra=("-DVF_PART=1",), scale=4),
        dict(name="par1", harness="parallel.cpp", config="tsan", extra=("-DVF_PART=1",), scale=2)],
  assumptions=["a job that has not run 20 s after submission to idle workers, twice in a row, is lost"])
C("C02",
  rule="a case is a life cycle (workers, submissions, moment of stop, restarts, delay plan); distinct by those parameters and the number of jobs that ran",
  runs=[dict(name="par2", harness="parallel.cpp", config="plain", extra=("-DVF_PART=2",), scale=4),
        dict(name="par2", harness="parallel.cpp", config="tsan", extra=("-DVF_PART=2",), scale=2)],
  assumptions=["a thread that has not ended 20 s after stop(), twice in a row, never ends"])
C("C04", rule="distinct encodings (hash of the bytes written)",
  runs=prec("s11n1", "s11n.cpp", 1, sources="mini", scale=3) + netx("net1", 1, 1),
  assumptions=["<entt/core/ident.hpp> is replaced by a one-line stand-in (the archives only include it)"])
C("C05", rule="distinct byte strings decoded",
  runs=prec("s11n2", "s11n.cpp", 2, sources="mini") + netx("net2", 2, 1, ("-DEDYN_DISABLE_ASSERT",)),
  assumptions=["<entt/core/ident.hpp> is replaced by a one-line stand-in (the archives only include it)"])
C("C06", rule="distinct object sets, tree shapes and queries", runs=prec("tree", "meshtree.cpp", 1, scale=8), assumptions=[FP])
C("C07", rule="distinct meshes (hash of the vertices)", runs=prec("mesh", "meshtree.cpp", 2, scale=16), assumptions=[FP])
C("C08", rule="distinct generated configurations of the two shapes (hash of all coordinates)",
  runs=prec("closest", "closest.cpp", scale=24), assumptions=[FP])
C("C09", rule="distinct generated configurations whose verdict is outside the rounding band",
  runs=prec("intersect", "intersect.cpp", scale=12), assumptions=[FP])
C("C10", rule="distinct shape/orientation/direction triples", runs=prec("support1", "support.cpp", 1, scale=16), assumptions=[FP])
C("C11", rule="distinct point sets or polygon/query pairs", runs=prec("support2", "support.cpp", 2, scale=16), assumptions=[FP])
C("C12", rule="distinct operand tuples", runs=prec("rotation", "rotation.cpp", scale=12), assumptions=[FP])
C("C13", rule="distinct insertion histories", runs=prec("insertion", "insertion.cpp", scale=20), assumptions=[FP])
C("C14", rule="distinct rows or row systems", runs=prec("cont4", "containers.cpp", 4, scale=12), assumptions=[FP])
C("C15", rule="distinct operation histories", runs=prec("cont1", "containers.cpp", 1, scale=20)[:1])
C("C16", rule="distinct pairs, tables and coefficient tuples", runs=prec("cont2", "containers.cpp", 2, scale=2))
C("C28", rule="distinct sequences of virtual time advances and delays", runs=prec("clock", "clock.cpp", scale=4)[:1], assumptions=["the clock and sleep calls of libc are replaced by a virtual clock in all but the last section"])
C("C18", rule="distinct delivery histories", runs=prec("cont3", "containers.cpp", 3, scale=16)[:1])

C("C17", rule="distinct shapes (hash of their dimensions, placements and masses)", runs=prec("mass", "mass.cpp", 1, sources="geo", scale=6), assumptions=[FP, "EnTT is replaced by the stand-in in minientt/ (the code under test does not use it beyond type definitions)"])
C("C19", rule="distinct polyhedra and OBJ files", runs=prec("mesh2", "mass.cpp", 2, sources="geo", scale=2), assumptions=[FP, "polyhedra are given with planar faces wound counter-clockwise, as the API requires", "EnTT is replaced by the stand-in in minientt/"])
MINI = "EnTT is replaced by the stand-in in minientt/"
C("C20", rule="distinct histories of insertions, moves and removals", runs=prec("dtree", "graph.cpp", 2, sources="graph", scale=20), assumptions=[FP, MINI])
C("C23", rule="distinct histories of node and edge operations", runs=prec("graph", "graph.cpp", 1, sources="graph", scale=40)[:1], assumptions=[MINI])


def full(name, harness, part, scale, dscale=None):
    """Monitors of the whole engine (double precision only in the thorough tier)."""
    ex = (f"-DVF_PART={part}",) if part else ()
    return [dict(name=name, harness=harness, config="asanl", sources="full", extra=ex, scale=scale, timeout=400),
            dict(name=name + "_d", harness=harness, config="asanl", sources="full", extra=ex, defs=DBL, thorough_only=True,
                 scale=scale if dscale is None else dscale)]


C("C22", rule="distinct segments that hit and query boxes", runs=full("query", "query.cpp", None, 16) + prec("intersect", "intersect.cpp", scale=4), assumptions=[FP, MINI, "segments start outside of all shapes"])
C("C24", rule="distinct histories of edits (sequence of operations)", runs=full("structure", "sim.cpp", 1, 32) + prec("graph", "graph.cpp", 1, sources="graph", scale=2)[:1] + prec("insertion", "insertion.cpp", scale=4), assumptions=[MINI, "sequential execution mode"])
C("C25", rule="distinct scenes (hash of initial velocities, masses and step count)", runs=full("motion", "sim.cpp", 2, 12) + prec("cont4", "containers.cpp", 4, scale=4), assumptions=[MINI, "sequential execution mode"])
C("C26", rule="distinct schedules of updates, pauses and single steps", runs=full("time", "sim.cpp", 3, 16), assumptions=[MINI, "sequential execution mode"])
C("C27", rule="distinct joints (hash of pivots, masses and parameters)", runs=full("joints", "sim.cpp", 4, 6) + prec("cont4", "containers.cpp", 4, scale=4), assumptions=[MINI, "sequential execution mode"])
C("C29", rule="distinct histories of edits (sequence of operations)", runs=full("pairs", "sim.cpp", 5, 12), assumptions=[MINI, "sequential and sequential multi-threaded execution modes"])
C("C30", rule="distinct scenes and numbers of steps",
  runs=full("twice", "sim.cpp", 6, 16) + [dict(name="twice_t", harness="sim.cpp", config="tsan", sources="full", extra=("-DVF_PART=6",), scale=3, timeout=500),
                                           dict(name="pairs_t", harness="sim.cpp", config="tsan", sources="full", extra=("-DVF_PART=5",), scale=2, thorough_only=True)],
  assumptions=[MINI, "sequential and sequential multi-threaded execution modes"])
C("C31", rule="distinct histories of edits (sequence of operations)",
  runs=full("async", "sim.cpp", 7, 24) + [dict(name="async_t", harness="sim.cpp", config="tsan", sources="full", extra=("-DVF_PART=7",), scale=8, timeout=400)],
  assumptions=[MINI, "asynchronous execution mode; joints keep at least one dynamic body"])
C("C03", rule="distinct plans of messages and orders of arrival",
  runs=[dict(name="msg", harness="message.cpp", config="plain", sources="msg", extra=("-DVF_PART=1",), scale=16),
        dict(name="msg", harness="message.cpp", config="asanl", sources="msg", extra=("-DVF_PART=1",), scale=4),
        dict(name="msg", harness="message.cpp", config="tsan", sources="msg", extra=("-DVF_PART=1",), scale=8)],
  assumptions=[MINI])
C("C21", rule="distinct histories of edits (sequence of operations)", runs=full("replica", "message.cpp", 2, 40), assumptions=[MINI])
