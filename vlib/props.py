"""What each property's check explores."""
from .gen import *
from .suites import *
from . import mc

ASSUME = ["the specification in /verif/spec states the intended behaviour",
          "TLC, the Go toolchain and the harness' translation between messages and specification values are trusted"]

PROPS = {}


def prop(pid, level, rule, judged=None, assumptions=()):
    def deco(f):
        def run(r):
            r.judged = judged
            f(r)
        PROPS[pid] = {"level": level, "rule": rule, "run": run, "assumptions": ASSUME + list(assumptions)}
        return f
    return deco


GRAPH = {"Check", "CheckMatrix"}
POLICY = {"CreatePolicy", "UpdatePolicy", "DeletePolicy", "GetPolicy", "ListPolicyIds"}
RELS = {"SetRelationship", "DeleteRelationship", "GetRelationship", "FindRelationships", "DeleteRelationships"}
TAIL = " Distinct by the full sequence of requests and responses; non-trivial: holds at least one judged event."
MC = "model_checking"


@prop("C01", MC, "random policies over all operators and rules with random relationship graphs; every node x subject is checked." + TAIL, GRAPH)
def c01(r):
    g = Gen(r.seed, "C01")
    r.conform(joined_graphs(g), "graphs with joined names")
    r.conform(twin_scripts(g, "check") + twin_scripts(g, "check", "q" * g.choice([40, 90, 250])), "graphs with similar names")
    r.conform([operator_script(g, i) for i in range(r.pick(150, 3000))], "operator grouping")
    r.conform([graph_script(g, i) for i in range(r.pick(900, 12000))], "random graphs")
    r.conform([large_script(g, i, n, "check") for i, n in enumerate(r.pick((150, 600, 1200, 5000), (150, 600, 3000, 20000)))], "many relationships", op_timeout=120)
    r.conform([long_script(g, i, n) for i, n in enumerate(r.pick((1500, 3000), (1500, 3000) * 8))], "long lives")
    r.conform(mc.transitions(r, "graph", not r.quick, limit=r.pick(1500, 40000), g=g), "all transitions of universe graph")


@prop("C02", MC, "cyclic, deep and heavily shared graphs in several insertion orders; every node x subject is checked." + TAIL, GRAPH)
def c02(r):
    g = Gen(r.seed, "C02")
    r.conform(shared_scripts(g, not r.quick), "shared and deep graphs", op_timeout=40)
    r.conform(joined_graphs(g), "graphs with joined names")
    r.conform([cyclic_script(g, i) for i in range(r.pick(700, 9000))], "cyclic graphs")
    r.conform(mc.transitions(r, "cycle", not r.quick, limit=r.pick(1500, 40000), g=g), "all transitions of universe cycle")


@prop("C03", MC, "interleaved histories over pairs of policy ids, both observed completely after every change." + TAIL)
def c03(r):
    g = Gen(r.seed, "C03")
    r.control = project_policies
    pairs = [(a, b) for a in PIDS for b in PIDS if a < b]
    g.shuffle(pairs)
    n = r.pick(len(pairs), len(pairs) * 8)
    scripts = [isolation_script(g, i, pairs[i % len(pairs)]) for i in range(n)]
    scripts += [isolation_script(g, i, near_ids(g)) for i in range(r.pick(120, 1500))]
    r.conform_projected(scripts, "each of two policies", lambda s: sorted({pid_of(x) for x in s["steps"]} - {None}), pid_of)
    r.conform(scripts, "pairs of policies")
    twins = twin_policies(g) + twin_policies(g, "q" * g.choice([40, 90, 250]))
    r.conform_projected(twins, "each of two similar policies", lambda s: sorted({pid_of(x) for x in s["steps"]} - {None}), pid_of)
    r.conform(twins, "similar policies")
    r.conform([many_policies(g, i, r.pick(60, 300)) for i in range(2)], "many policies")
    r.conform(mc.transitions(r, "life"), "all transitions of universe life")


@prop("C04", MC, "histories over relationships with names chosen to collide, observed by get, find, check and dump." + TAIL,
      {"SetRelationship", "DeleteRelationship", "GetRelationship", "FindRelationships", "Check", "CheckMatrix", "Dump"})
def c04(r):
    g = Gen(r.seed, "C04")
    r.conform(twin_scripts(g, "find") + twin_scripts(g, "find", "q" * g.choice([40, 90, 250])), "similar names")
    r.conform([map_script(g, i) for i in range(r.pick(500, 7000))], "colliding names")
    r.conform([poll_script(g, i) for i in range(r.pick(60, 600))], "the same questions again")
    r.conform([long_script(g, i, n) for i, n in enumerate(r.pick((1500, 3000), (1500, 3000) * 8))], "long lives")
    r.conform(big_scripts(g), "large data", batch=8)
    r.conform([large_script(g, i, n, "map") for i, n in enumerate(r.pick((150, 400, 1200, 5000), (150, 400, 1200, 3000, 20000)))], "many relationships", op_timeout=120)
    r.conform(mc.transitions(r, "rels", not r.quick), "all transitions of universe rels")


@prop("C05", MC, "every object x relation x subject kind, defined or not, against random restrictions and their updates." + TAIL,
      RELS | {"GetPolicy", "CheckMatrix"})
def c05(r):
    g = Gen(r.seed, "C05")
    r.conform(joined_scripts(g), "joined names")
    r.conform(large_admission(g, r.pick((30, 100, 300), (30, 100, 300, 700))), "long restriction lists")
    r.conform([admission_script(g, i) for i in range(r.pick(350, 5000))], "admission")
    r.conform(mc.transitions(r, "admit", not r.quick), "all transitions of universe admit")


@prop("C06", MC, "definitions with zero or more defects at random positions, created and updated." + TAIL,
      POLICY | {"FindRelationships"})
def c06(r):
    g = Gen(r.seed, "C06")
    r.conform([defect_script(g, i) for i in range(r.pick(600, 9000))], "defective definitions")
    r.conform([repeated_exprs(g, i) for i in range(r.pick(60, 1000))], "repeated expressions")
    r.conform(large_defects(g, r.pick((10, 40, 100), (10, 40, 100, 250)), r.pick(8, 60)), "large definitions", batch=100)
    r.conform(mc.transitions(r, "define", not r.quick), "all transitions of universe define")


@prop("C07", MC, "histories of creating, updating, deleting and listing policies with relationships." + TAIL, POLICY | RELS | GRAPH)
def c07(r):
    g = Gen(r.seed, "C07")
    r.conform([lifecycle_script(g, i) for i in range(r.pick(600, 8000))], "life cycles")
    r.conform(part_scripts(g, r.pick(25, 400)), "updates of one part")
    r.conform([poll_script(g, i) for i in range(r.pick(80, 800))], "the same questions again")
    r.conform([long_script(g, i, n) for i, n in enumerate(r.pick((1500, 3000), (1500, 3000) * 8))], "long lives")
    r.conform(big_scripts(g), "large data", batch=8)
    r.conform([large_script(g, i, n, "life") for i, n in enumerate(r.pick((150, 400, 1200, 5000), (150, 400, 1200, 3000, 20000)))], "many relationships", op_timeout=120)
    r.conform([many_policies(g, i, n) for i, n in enumerate(r.pick((40, 130, 270, 1100), (40, 130, 270, 1100, 3000)))], "many policies")
    r.conform(mc.transitions(r, "life"), "all transitions of universe life")


@prop("C08", MC, "selector products over random relationship sets, in memory, builder and wire form." + TAIL,
      {"FindRelationships", "DeleteRelationships", "GetRelationship"})
def c08(r):
    g = Gen(r.seed, "C08")
    r.conform(twin_scripts(g, "find") + twin_scripts(g, "find", "q" * g.choice([40, 90, 250])), "similar names")
    r.conform([selector_script(g, i) for i in range(r.pick(400, 6000))], "selectors")
    r.conform([large_script(g, i, n, "find") for i, n in enumerate(r.pick((150, 400, 1200, 5000), (150, 400, 1200, 3000, 20000)))], "many relationships", op_timeout=120)
    r.conform(mc.transitions(r, "rels", not r.quick), "all transitions of universe rels")


@prop("C09", MC, "token sequences up to a length, character sequences, random sentences and near-sentences; truth tables of "
      "what was parsed; printed trees." + TAIL, {"CreatePolicy", "UpdatePolicy", "CheckMatrix", "PrintExpr"})
def c09(r):
    g = Gen(r.seed, "C09")
    r.conform(token_scripts(g, 4 if r.quick else 5), "all short token sequences", batch=600)
    r.conform(char_scripts(g, 3 if r.quick else 4), "all short character sequences", batch=600)
    r.conform(mc.words(r, r.pick(7, 9), g, r.pick(3000, 40000)), "sentences and near sentences", batch=600)
    r.conform([sentence_script(g, i) for i in range(r.pick(250, 4000))], "sentences")
    r.conform(long_sentences(g, r.pick((12, 35, 80), (12, 35, 80, 160))), "long sentences", op_timeout=120)


@prop("C10", MC, "YAML documents of random policies in random layouts, malformed documents, and the same policy given as a message." + TAIL,
      POLICY | RELS | GRAPH)
def c10(r):
    g = Gen(r.seed, "C10")
    r.control = structured
    r.conform([yaml_script(g, i) for i in range(r.pick(900, 9000))], "documents")
    r.conform(type_scripts(g), "type lists")
    r.conform(large_documents(g, r.pick((10, 40, 100), (10, 40, 100, 300))), "long documents")


@prop("C11", MC, "explanations and expansions of random and cyclic graphs in every format." + TAIL, {"Explain", "Expand"})
def c11(r):
    g = Gen(r.seed, "C11")
    r.conform(joined_graphs(g, True), "graphs with joined names")
    r.conform(twin_scripts(g, "explain"), "graphs with similar names")
    r.conform([explain_script(g, i) for i in range(r.pick(400, 6000))], "goal trees")
    r.conform(deep_pictures(g, r.pick(1, 2)), "deep and wide graphs", op_timeout=60)
    for u in ("graph", "cycle"):
        r.conform(mc.pictures(r, u, not r.quick, g, r.pick(250, 12000)), "states of universe " + u)


@prop("C12", MC, "dumps of random, cyclic, shared and disconnected relationship sets with arbitrary names." + TAIL, {"Dump"})
def c12(r):
    g = Gen(r.seed, "C12")
    r.conform(twin_scripts(g, "dump") + twin_scripts(g, "dump", "q" * g.choice([40, 90, 250])), "similar names")
    r.conform([dump_script(g, i) for i in range(r.pick(600, 8000))], "dumps")
    r.conform([large_script(g, i, n, "dump") for i, n in enumerate(r.pick((150, 600, 1200, 5000), (150, 600, 2000, 12000)))], "many relationships", op_timeout=120)
    r.conform(mc.transitions(r, "rels", not r.quick, reads=[dump("p")]), "all transitions of universe rels")
    r.conform(mc.pictures(r, "cycle", not r.quick, g, r.pick(300, 6000), [dump("p")]), "states of universe cycle")


@prop("C13", MC, "two or three clients whose storage operations are scheduled one at a time: all single preemptions, some double "
      "ones and random schedules, and unscheduled runs. Distinct by call/return history; non-trivial: two requests overlap.")
def c13(r):
    g = Gen(r.seed, "C13")
    mc.store(r)
    r.conform_concurrent(pair_scripts(g), "pairs of requests", op_timeout=15)
    r.conform_concurrent([concurrent_script(g, i) for i in range(r.pick(100, 1500))], "scheduled clients", op_timeout=15)
    r.conform_concurrent([free_script(g, i, b) for i in range(r.pick(10, 60)) for b in ("mem", "ord", "default")], "free clients", op_timeout=30)
    r.conform_parallel(parallel_scripts(g, r.pick(4, 60)), "readers at full speed", op_timeout=60)
    r.conform_parallel(own_scripts(g, r.pick(4, 60)), "clients with policies of their own", op_timeout=60)
    r.conform_parallel(cold_scripts(g, r.pick(3, 30), 150), "clients after a restart", op_timeout=60)
    # what a conflicting access to memory does is undefined, even where it does no harm today
    ways = ("direct", "grpc", "grpc2")
    r.conform_parallel(cold_scripts(g, r.pick(2, 12), 50, ways), "clients after a restart, watched for races", op_timeout=120, race=True)
    r.conform_parallel([dict(s, repeat=r.pick(2, 6)) for s in parallel_scripts(g, r.pick(4, 24), ways) + own_scripts(g, r.pick(4, 24), ways)],
                       "clients at full speed, watched for races", op_timeout=120, race=True)
    r.conform_concurrent([free_script(g, i, b) for i in range(r.pick(3, 24)) for b in ("mem", "ord", "default", "leveldb")],
                         "free clients, watched for races", op_timeout=120, race=True)


@prop("C14", MC, "every storage operation of a request as the point of failure or crash, followed by observation, retry and recreation." + TAIL)
def c14(r):
    g = Gen(r.seed, "C14")
    mc.store(r)
    r.control = lambda s, at: [{k: v for k, v in s.items() if k != "sweep"}]
    r.conform([fault_script(g, i) for i in range(r.pick(260, 3000))], "failure points", batch=600)
    r.conform(read_fault_scripts(g, r.pick(100, 1500)), "failing reads", batch=600)
    r.conform(mc.faults(r, g, r.pick(350, 4000)), "failures in every state of universe faults", batch=600)
    r.control = None
    r.conform([kill_script(g, i) for i in range(r.pick(40, 800))], "a killed server")


@prop("C15", MC, "histories with restarts at random points on every backend." + TAIL)
def c15(r):
    g = Gen(r.seed, "C15")
    r.control = lambda s, at: [dict(s, backend="ord", steps=[x for x in s["steps"] if x["op"] != "Reopen"])]
    r.conform([restart_script(g, i) for i in range(r.pick(400, 5000))], "restarts and backends")
    r.conform(interrupted(g, everything(g, r.pick(12, 150)), .15), "histories of all kinds")
    r.conform([daemon_script(g, i) for i in range(r.pick(40, 600))], "a server which is killed and started again")
    r.conform([dict(s, backend=b) for b in ("leveldb", "ord") for s in big_scripts(g, restarts=True)], "large data", batch=8)
    r.conform([dict(large_script(g, i, n, "restart"), backend=b) for i, (n, b) in enumerate(((400, "ord"), (400, "mem"), (400, "leveldb"), (r.pick(5000, 15000), "leveldb")))],
              "many relationships", op_timeout=120)
    r.conform([dict(s, backend=b, steps=[y for x in s["steps"] for y in ([reopen(), x] if b != "default" and g.chance(.01) else [x])])
               for i, b in enumerate(("leveldb", "ord", "mem", "default")) for s in [long_script(g, i, r.pick(1200, 4000))]], "long lives")
    r.conform(mc.restarts(r, g, r.pick(300, 4000)), "restarts in states of the universes")


@prop("C16", MC, "messages with absent, empty and unset parts, of every method, in states with policies and relationships." + TAIL)
def c16(r):
    g = Gen(r.seed, "C16")
    r.conform([partial_script(g, i) for i in range(r.pick(600, 9000))], "partial messages")
    r.conform([abandoned_script(g, i) for i in range(r.pick(150, 3000))], "abandoned requests", batch=600)


@prop("C17", MC, "histories sent over connections of one server and by direct calls." + TAIL)
def c17(r):
    g = Gen(r.seed, "C17")
    r.control = lambda s, at: [dict(s, steps=[{k: v for k, v in x.items() if k != "via"} for x in s["steps"]])]
    r.conform([network_script(g, i) for i in range(r.pick(300, 4000))], "network")
    r.conform(remotely(g, twin_policies(g), ("grpc", "grpc", "grpc2", "direct")), "similar policies")
    r.conform(remotely(g, everything(g, r.pick(12, 150)), ("grpc", "grpc", "grpc2", "direct")), "histories of all kinds")
    r.conform([daemon_script(g, i) for i in range(r.pick(25, 300))], "the server program")
    r.conform([cli_script(g, i) for i in range(r.pick(25, 300))], "the command line client")
    r.conform([poll_script(g, i, ("grpc", "grpc2", "direct")) for i in range(r.pick(120, 1200))], "the same questions again")
    r.conform(big_scripts(g, ("grpc", "grpc2", "direct")), "large data", batch=8)
    r.conform([long_script(g, i, n, ("grpc", "grpc2", "direct")) for i, n in enumerate(r.pick((1500, 3000), (1500, 3000) * 8))], "long lives")
    r.conform_parallel(parallel_scripts(g, r.pick(4, 24), ("grpc", "grpc2", "direct")), "readers at full speed", op_timeout=60)
    r.conform_parallel(own_scripts(g, r.pick(4, 24), ("grpc", "grpc2", "direct")), "clients with policies of their own", op_timeout=60)
    r.conform_parallel(cold_scripts(g, r.pick(2, 20), 100, ("grpc", "grpc2", "direct")), "clients after a restart", op_timeout=60)
    r.conform(mc.remote(r, g, r.pick(300, 4000)), "requests in states of universes life and rels")
