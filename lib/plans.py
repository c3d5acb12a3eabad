"""What each property's check consists of. Everything a run does is listed here: the modules model-checked (with
constants and properties), the behaviours generated, the drivers (implementations) they are performed on, and the
trace specification the recordings are validated against."""

PLANS = {}


def plan(id, **kw):
    PLANS[id] = dict(id=id, **kw)


def get(id):
    return PLANS[id]


# ---- C01, C02: LRU cache -------------------------------------------------------------------------
def lru_drivers(mode, n):
    return [dict(name=k, src="lru.cpp", args=[k, mode, str(n)]) for k in ("int", "str", "tracked")]


plan("C01", title="A bounded cache forgets exactly the least recently used entry",
     mc=[dict(module="LRU", constants=dict(N=4, Wide=False, Vals={1}, Caps={0, 1, 2, 3}), thorough=dict(N=6, Caps={0, 1, 2, 3, 4, 5}),
              invariants=["TypeOK", "Bounded", "NoRepeat", "AgesArePositions", "ValuesOfResidents"],
              properties=["ForgetsOldestOnly", "ValuesNeverChange"]),
         dict(module="LRU", constants=dict(N=3, Wide=False, Vals={1, 2}, Caps={0, 1, 2}), thorough=dict(N=4, Caps={0, 1, 2, 3}),
              properties=["RefinesStore"]),
         dict(module="LRUAges", constants=dict(N=3, Wide=False, Vals={1}, Caps={0, 1, 2, 3}), thorough=dict(N=4, Caps={0, 1, 2, 3, 4}),
              constraints=["ClockBound"], invariants=["Permutation", "AgesByUse"],
              properties=["EvictsLeastRecent", "RefinesLRU"])],
     gen=[dict(module="LRUGen", kind="cover", constants=dict(N=5, Wide=False, Vals={1}, Caps={0, 1, 2, 3}, Depth=40), only=["int", "str", "tracked"],
               thorough=dict(Caps={0, 1, 2, 3, 4, 5, 6})),
          dict(module="LRUGen", kind="all", constants=dict(N=5, Wide=False, Vals={1}, Caps={1, 2, 3}, Depth=4), tier="thorough", only=["int"]),
          dict(module="LRUGen", kind="sim", constants=dict(N=5, Wide=False, Vals={1}, Caps={2, 3, 4, 5, 1000000003}, Depth=120), num=60, num_thorough=1500, only=["int", "str", "tracked"]),
          dict(module="LRUGen", kind="sim", constants=dict(N=330, Wide=True, Vals={1, 2, 3}, Caps={9, 64, 128, 256, 257, 300}, Depth=40), num=25, num_thorough=200, only=[k + "-wide" for k in ("int", "str", "tracked")]),
          dict(module="LRUGen", kind="sim", constants=dict(N=65610, Wide=True, Vals={1, 2, 3}, Caps={65600, 65601}, Depth=14), num=1, num_thorough=4, only=["int-vast"])],
     drivers=[dict(name="int-vast", src="lru.cpp", args=["int", "wide", "65610"], constants=dict(N=65610, Wide=True), nosan=True, opt=["-O2"])] + lru_drivers("lru", 5) + [dict(name=k + "-wide", src="lru.cpp", args=[k, "wide", "330"], constants=dict(N=330, Wide=True)) for k in ("int", "str", "tracked")], trace="LRUTrace", trace_cfg=dict(constants=dict(N=5, Wide=False, Vals={1}, Caps={1})),
     note="Exhaustive over the model (5 labels, capacities 0-3; thorough 6 and 0-6): the age algorithm refines the recency order. Every transition of that model and random long histories are performed on the real cache for three label/value types and validated step by step, also in caches of up to 330 and of 65600 entries and with capacities beyond 2^32; beyond these bounds it is sampling. Trusts TLC, the driver's projection, and ASan/UBSan for memory errors.",
     expect=["put -> ok", "put -> throw", "get -> ok", "get -> throw", "age -> throw", "new -> throw", "fill", "touch", "again", "copied", "become"])

plan("C02", title="Cache lookups return what was stored, and refused calls change nothing",
     mc=[dict(module="LRUStore", constants=dict(N=3, Vals={1, 2}, Caps={0, 1}), thorough=dict(N=3, Vals={1, 2, 3}),
              invariants=["TypeOK", "AgesOfResidents"],
              properties=["RefusalChangesNothing", "FaultChangesNothing", "ValuesNeverChange"])],
     gen=[dict(module="LRUStoreGen", kind="sim", constants=dict(N=3, Vals={1, 2}, Caps={1, 2, 3, 1000000002}, Depth=60), num=100, num_thorough=500, only=["int", "str", "tracked"]),
          dict(module="LRUGen", kind="sim", constants=dict(N=330, Wide=True, Vals={1, 2, 3}, Caps={9, 64, 128, 256, 257, 300}, Depth=40), num=25, num_thorough=200, only=[k + "-wide" for k in ("int", "str", "tracked")])],
     drivers=lru_drivers("store", 3) + [dict(name=k + "-wide", src="lru.cpp", args=[k, "store", "330"], constants=dict(N=330, Vals={1, 2, 3})) for k in ("int", "str", "tracked")], trace="LRUStoreTrace", trace_cfg=dict(constants=dict(N=3, Vals={1, 2, 3}, Caps={1})),
     note="Exhaustive over the model with any eviction choice (3 labels); random histories, also in caches of up to 330 entries and with capacities beyond 2^32, including values aliased from the cache and copies that throw at each of the first four copy points are performed on the real cache (sanitised) and validated. Trusts TLC and the driver's projection.",
     expect=["putfrom -> ok", "putfrom -> throw", "putfault -> fault", "putfault -> throw", "get -> ok", "copied", "become", "fill", "touch", "again"])


# ---- C03, C04: arrays ----------------------------------------------------------------------------
def array_drivers(kinds, mode):
    return [dict(name=k, src="array.cpp", args=[k, "3", mode]) for k in kinds]


def graph_gen(name, full):
    only = [name + "-" + t for t in ("int", "str", "tracked")]
    return [dict(module="GraphGen", kind="cover", constants=dict(N=2, Big=2, Full=full, Depth=30), thorough=dict(N=3), only=only),
            dict(module="GraphGen", kind="sim", constants=dict(N=6, Big=4, Full=full, Depth=60), num=60, num_thorough=1000, only=only),
            dict(module="GraphGen", kind="sim", constants=dict(N=40, Big=30, Full=full, Depth=60), num=6, num_thorough=100, only=only)]


def graph_drivers(kind, name, full):
    return [dict(name=name + "-" + t, src="graph.cpp", args=[kind, t], trace="GraphTrace",
                 trace_cfg=dict(constants=dict(N=40, Big=30, Full=full))) for t in ("int", "str", "tracked")]


def tree_drivers(kind, trace, constants, name="tree-", **more):
    """Arrays whose elements hold arrays of the same type, and likewise lists."""
    return [dict(more, name=name + v, src="tree.cpp", args=[kind, v, "2"], trace=trace,
                 trace_cfg=dict(constants=dict(constants, S=2, M=14, Vals={1}, Life=1 if v == "tracked" else 0))) for v in ("int", "tracked")]


plan("C03", title="Arrays behave as independent sequences of values",
     mc=[dict(module="ArrayValGen", spec="GSpec", constants=dict(S=2, M=2, Vals={1, 2}, Faults=set(), Depth=50), thorough=dict(S=3, Vals={1}), invariants=["TypeOK"], properties=["GStep"], constraints=["Short"], view="GView")],
     gen=[dict(module="ArrayValGen", kind="cover", constants=dict(S=2, M=2, Vals={1}, Faults=set(), Depth=30), constraints=["Short"]),
          dict(module="ArrayValGen", kind="sim", constants=dict(S=3, M=7, Vals={1, 2, 3}, Faults=set(), Depth=80), constraints=["Short"], num=40, num_thorough=800),
          dict(module="ArrayValGen", kind="sim", constants=dict(S=3, M=300, Vals={1, 2, 3}, Faults=set(), Depth=80), constraints=["Short"], num=12, num_thorough=300),
          dict(module="ArrayValGen", kind="sim", constants=dict(S=2, M=70000, Vals={1, 2, 3}, Faults=set(), Depth=12), num=6, num_thorough=40, only=["int", "str"])],
     drivers=array_drivers(("int", "str", "tracked", "mark"), "values"), trace="ArrayValTrace", trace_cfg=dict(constants=dict(S=3, M=7, Vals={1}, Faults=set(), Mixes="<- TMixes")),
     epilogue=[["end"]],
     note="Exhaustive over the model for two arrays up to size 2; every transition of it and random histories over three arrays up to size 7, and with sizes of up to 300 and of up to 70000 (often next to a power of two) and huge indexes, are performed on arrays of int, String, a tracked type and a plain type whose equality ignores some of its bytes, and validated step by step. Moved-from arrays may be empty, unchanged or exchanged. Beyond these bounds it is sampling. Trusts TLC and the driver's projection.",
     expect=["mksub", "mkconv", "mkexpl", "rszs", "swap", "at -> throw", "athi", "mkpr", "mkprarr", "wr -> throw", "mv", "mkhuge", "rszhuge"])

plan("C04", title="Array elements and storage are released exactly once, even when copying fails",
     mc=[dict(module="ArrayValGen", spec="GSpec", constants=dict(S=2, M=2, Vals={1}, Faults={1, 2}, Depth=50), thorough=dict(Vals={1, 2}),
              invariants=["TypeOK"], properties=["GStep"], constraints=["Short"], view="GView"),
         dict(module="ArrayTreeGen", spec="GSpec", constants=dict(Lists="FALSE", S=1, M=4, Vals={1, 2}, Faults=set(), Life=1, Depth=50), thorough=dict(M=5), properties=["GStep"], view="GView")],
     gen=[dict(module="ArrayValGen", kind="cover", constants=dict(S=2, M=2, Vals={1}, Faults={1, 2, 3}, Depth=30), thorough=dict(Vals={1, 2}), constraints=["Short"], session=60, share=0.3, only=["tracked"]),
          dict(module="ArrayValGen", kind="cover", constants=dict(S=2, M=2, Vals={1}, Faults=set(), Depth=30), constraints=["Short"], session=60, only=["int", "str"]),
          dict(module="ArrayValGen", kind="sim", constants=dict(S=3, M=7, Vals={1, 2, 3}, Faults={1, 2, 3, 4, 5, 6}, Depth=60), constraints=["Short"], num=60, num_thorough=800, only=["tracked", "mover"]),
          dict(module="ArrayValGen", kind="sim", constants=dict(S=3, M=40, Vals={1, 2, 3}, Faults={1, 2, 9, 17, 20, 33}, Depth=60), constraints=["Short"], num=12, num_thorough=300, only=["tracked", "mover"]),
          dict(module="ArrayTreeGen", kind="cover", constants=dict(Lists="FALSE", S=1, M=3, Vals={1}, Faults=set(), Life=1, Depth=30), thorough=dict(M=4), only=["tree-int", "tree-tracked"]),
          dict(module="ArrayTreeGen", kind="sim", constants=dict(Lists="FALSE", S=2, M=14, Vals={1, 2, 3}, Faults={1, 2, 3, 5, 9}, Life=1, Depth=60), num=30, num_thorough=600, only=["tree-tracked"])],
     drivers=array_drivers(("int", "str", "tracked", "mover"), "account") + tree_drivers("array", "ArrayTreeTrace", dict(Faults=set(), Lists="FALSE")), trace="ArrayValTrace", trace_cfg=dict(constants=dict(S=3, M=7, Vals={1}, Faults=set(), Mixes="<- TMixes")),
     epilogue=[["end"]],
     note="As C03, with every element construction and assignment of an operation made to fail in turn (element types count lives, dead uses and injected failures, one of them loses its value when moved from; arrays whose elements hold arrays are assigned from arrays within them; operator new/delete count the library's own blocks), and with sizes that no storage holds: after each session nothing may be left. Which elements an interrupted overwrite has reached is nondeterministic in the specification. Trusts TLC, ASan/UBSan and the counters.",
     expect=["mksub", "mkconv", "mkexpl", "rszs", "swap", "at -> throw", "athi", "mkpr", "mkprarr", "wr -> throw", "mv", "mkhuge", "rszhuge", "fault -> fault", "end", "grow", "copy", "move", "swap", "resize", "fcopy -> fault"])

plan("C05", title="Shared arrays alias their elements and release them with the last owner",
     mc=[dict(module="SharedArrGen", spec="GSpec", constants=dict(S=3, M=2, Vals={1}, Life=1, Depth=50), thorough=dict(S=3, Vals={1, 2}),
              invariants=["TypeOK", "NothingKept"], properties=["GStep"], view="GView"),
         dict(module="SharedTreeGen", spec="GSpec", constants=dict(S=2, M=3, B=6, Vals={1}, Life=1, Depth=50), thorough=dict(M=4), invariants=["NothingKept", "NoCycle"], properties=["GStep"], view="GView")],
     gen=[dict(module="SharedTreeGen", kind="cover", constants=dict(S=1, M=3, B=5, Vals={1}, Life=1, Depth=30), thorough=dict(S=2), only=["tree-int", "tree-tracked"]),
          dict(module="SharedTreeGen", kind="sim", constants=dict(S=2, M=9, B=12, Vals={1, 2, 3}, Life=1, Depth=60), num=25, num_thorough=500, only=["tree-int", "tree-tracked"]),
          dict(module="SharedArrGen", kind="cover", constants=dict(S=3, M=1, Vals={1, 2}, Life=1, Depth=30), thorough=dict(M=2, Vals={1}), only=["int", "tracked"]),
          dict(module="SharedArrGen", kind="sim", constants=dict(S=4, M=3, Vals={1, 2, 3}, Life=1, Depth=80), num=40, num_thorough=800, only=["int", "tracked"]),
          dict(module="SharedArrGen", kind="sim", constants=dict(S=4, M=300, Vals={1, 2, 3}, Life=1, Depth=60), num=8, num_thorough=200, only=["int", "tracked"]),
          dict(module="SharedArrGen", kind="sim", constants=dict(S=3, M=70000, Vals={1, 2, 3}, Life=1, Depth=10), num=4, num_thorough=40, only=["int", "tracked"])],
     drivers=[dict(name="tracked", src="shared_array.cpp", args=["tracked", "4"], constants=dict(Life=1)),
              dict(name="int", src="shared_array.cpp", args=["int", "4"], constants=dict(Life=0))] + tree_drivers("shared", "SharedTreeTrace", dict(B=12)),
     trace="SharedArrTrace", trace_cfg=dict(constants=dict(S=4, M=3, Vals={1}, Life=1)), epilogue=[["end"]],
     note="Exhaustive over the model (three variables, sizes up to 2); every transition and random histories over four variables, with crowds of up to 70000 owners and sizes up to 300 and up to 70000, are performed on SharedArray<Tracked> and SharedArray<int>, with element copies failing on demand and sizes that no storage holds, and arrays held by elements of arrays, also of the one assigned to, over all such trees of up to three elements and random ones of up to nine, with the number of living elements compared after every step and storage accounted at the end. Not covered: concurrent use (the count is not atomic and nothing promises it). Trusts TLC, ASan/UBSan and the counters.",
     expect=["mkn", "mknx", "mklist", "mkcopy", "cp", "asgl", "del", "wr", "crowd", "end", "fmkn -> fault", "fmknx -> fault", "fmklist -> fault", "fasgl -> fault", "huge", "grow", "copy", "set"])

# ---- C06 .. C09: containers --------------------------------------------------------------------------
KINDS = ("int", "str", "tracked")
plan("C06", title="List building operations give exactly the sequence asked for",
     mc=[dict(module="ListOpsGen", spec="GSpec", constants=dict(S=2, M=3, Vals={1, 2}, Linked="FALSE", Depth=50), properties=["GStep"], constraints=["Short"], view="GView"),
         dict(module="ArrayTreeGen", spec="GSpec", constants=dict(Lists="TRUE", S=1, M=4, Vals={1, 2}, Faults=set(), Life=1, Depth=50), thorough=dict(M=5), properties=["GStep"], view="GView")],
     gen=[dict(module="ArrayTreeGen", kind="cover", constants=dict(Lists="TRUE", S=1, M=4, Vals={1}, Faults=set(), Life=1, Depth=30), thorough=dict(M=5), only=["treelist-int", "treelist-tracked", "treelinked-int", "treelinked-tracked"]),
          dict(module="ArrayTreeGen", kind="sim", constants=dict(Lists="TRUE", S=2, M=30, Vals={1, 2, 3}, Faults=set(), Life=1, Depth=20), num=40, num_thorough=600, only=["treelist-int", "treelist-tracked", "treelinked-int", "treelinked-tracked"]),
          dict(module="ListOpsGen", kind="cover", constants=dict(S=2, M=2, Vals={1, 2}, Linked="FALSE", Depth=30), thorough=dict(M=3), constraints=["Short"], only=["list-int", "list-str", "list-tracked"]),
          dict(module="ListOpsGen", kind="cover", constants=dict(S=2, M=2, Vals={1, 2}, Linked="TRUE", Depth=30), thorough=dict(M=3), constraints=["Short"], only=["linked-int", "linked-str", "linked-tracked"]),
          dict(module="ListOpsGen", kind="sim", constants=dict(S=3, M=40, Vals={1, 2, 3}, Linked="FALSE", Depth=60), constraints=["Short"], num=30, num_thorough=600, only=["list-int", "list-str", "list-tracked"]),
          dict(module="ListOpsGen", kind="sim", constants=dict(S=3, M=40, Vals={1, 2, 3}, Linked="TRUE", Depth=60), constraints=["Short"], num=30, num_thorough=600, only=["linked-int", "linked-str", "linked-tracked"]),
          dict(module="ListOpsGen", kind="sim", constants=dict(S=3, M=300, Vals={1, 2, 3}, Linked="FALSE", Depth=60), num=30, num_thorough=300, only=["list-int", "list-str", "list-tracked"]),
          dict(module="ListOpsGen", kind="sim", constants=dict(S=3, M=300, Vals={0, 1}, Linked="FALSE", Depth=60), num=15, num_thorough=300, only=["list-bool", "list-byte", "list-wide"]),
          dict(module="ListOpsGen", kind="sim", constants=dict(S=3, M=300, Vals={0, 1}, Linked="TRUE", Depth=60), num=10, num_thorough=200, only=["linked-bool", "linked-byte", "linked-wide"]),
          dict(module="ListOpsGen", kind="sim", constants=dict(S=3, M=300, Vals={1, 2, 3}, Linked="TRUE", Depth=60), num=20, num_thorough=200, only=["linked-int", "linked-str", "linked-tracked"]),
          dict(module="ListOpsGen", kind="sim", constants=dict(S=2, M=70000, Vals={1, 2, 3}, Linked="FALSE", Depth=10), num=5, num_thorough=40, only=["list-int", "list-str"]),
          dict(module="ListOpsGen", kind="sim", constants=dict(S=2, M=70000, Vals={1, 2, 3}, Linked="TRUE", Depth=10), num=3, num_thorough=40, only=["linked-int"])],
     drivers=[dict(name="list-" + k, src="list.cpp", args=["list", k, "3"]) for k in KINDS + ("bool", "byte", "wide")] +
             [dict(name="linked-" + k, src="list.cpp", flags=["-DDRIVE_LINKED"], args=["linked", k, "3"]) for k in KINDS + ("bool", "byte", "wide")] +
             tree_drivers("list", "ArrayTreeTrace", dict(Faults=set(), Lists="TRUE"), "treelist-", flags=["-DDRIVE_LISTS"]) +
             tree_drivers("linked", "ArrayTreeTrace", dict(Faults=set(), Lists="TRUE"), "treelinked-", flags=["-DDRIVE_LISTS"]),
     trace="ListOpsTrace", trace_cfg=dict(constants=dict(S=3, M=40, Vals={1}, Linked="FALSE")), epilogue=[["end"]],
     note="Exhaustive over the model for two lists of up to three elements; every transition and random histories over three lists of up to 40, of up to 300 and of up to 70000 elements are performed on List and LinkedList of int, String, Tracked, bool, signed char and a large aligned type. Lists held by elements of lists, also of the one appended to, are appended over all trees of up to four elements and random ones of up to 30. Functions applied are a fixed set with logged calls. Trusts TLC and the driver's projection.",
     expect=["of", "rep", "def", "vec", "init", "conv", "expl", "range", "copy", "app", "appown", "applist", "conc", "cat", "cat1", "apply", "elem", "elem2 -> ok", "grow", "app1"])

plan("C07", title="Set operations are mathematical set algebra",
     mc=[dict(module="SetAlgGen", spec="GSpec", constants=dict(S=2, U=3, Depth=50), properties=["GStep"], view="GView")],
     gen=[dict(module="SetAlgGen", kind="cover", constants=dict(S=2, U=3, Depth=30), thorough=dict(U=4), only=list(KINDS)),
          dict(module="SetAlgGen", kind="sim", constants=dict(S=3, U=6, Depth=80), num=40, num_thorough=800, only=list(KINDS)),
          dict(module="SetAlgGen", kind="sim", constants=dict(S=3, U=45, Depth=80), num=15, num_thorough=300, only=[k + "-large" for k in KINDS]),
          dict(module="SetAlgGen", kind="sim", constants=dict(S=3, U=300, Depth=50), num=4, num_thorough=100, only=[k + "-huge" for k in KINDS])] + graph_gen("family", "FALSE"),
     drivers=graph_drivers("set", "family", "FALSE") + [dict(name=k, src="set.cpp", args=[k, "3"]) for k in KINDS] + [dict(name=k + "-large", src="set.cpp", args=[k, "3"], constants=dict(U=45)) for k in KINDS] + [dict(name=k + "-huge", src="set.cpp", args=[k, "3"], constants=dict(U=300)) for k in KINDS],
     trace="SetAlgTrace", trace_cfg=dict(constants=dict(S=3, U=6)), epilogue=[["end"]],
     note="Exhaustive over the model for every pair of subsets of a three-element universe (also a set combined with itself); every transition and random histories over three sets of elements out of six, out of 45 and out of 300 are performed on Set<int>, Set<String> and Set<Tracked>. Trusts TLC and the driver's projection.",
     expect=["vec", "range", "init", "conv", "setconv", "setexpl", "copy", "ins", "adjoin", "rem1", "rem", "frem", "remvec", "res", "fres", "join", "inter", "intervec", "diff", "has", "sub", "disj", "disjvec", "apply", "list"])

plan("C08", title="Map operations keep existing entries and report keys and values exactly",
     mc=[dict(module="MapOpsGen", spec="GSpec", constants=dict(S=2, K=3, Vals={1}, Depth=50), thorough=dict(Vals={1, 2}), properties=["GStep"], view="GView"),
         dict(module="GraphGen", spec="GSpec", constants=dict(N=3, Big=3, Full="TRUE", Depth=50), properties=["GStep"], view="GView")],
     gen=[dict(module="MapOpsGen", kind="cover", constants=dict(S=2, K=2, Vals={1}, Depth=30), thorough=dict(Vals={1, 2}), only=list(KINDS)),
          dict(module="MapOpsGen", kind="sim", constants=dict(S=3, K=4, Vals={1, 2, 3}, Depth=80), num=60, num_thorough=1000, only=list(KINDS)),
          dict(module="MapOpsGen", kind="sim", constants=dict(S=3, K=30, Vals={1, 2, 3}, Depth=80), num=15, num_thorough=300, only=[k + "-large" for k in KINDS]),
          dict(module="MapOpsGen", kind="sim", constants=dict(S=3, K=300, Vals={1, 2, 3}, Depth=50), num=4, num_thorough=100, only=[k + "-huge" for k in KINDS])] + graph_gen("graph", "TRUE"),
     drivers=graph_drivers("map", "graph", "TRUE") + [dict(name=k, src="map.cpp", args=[k, "3"]) for k in KINDS] + [dict(name=k + "-large", src="map.cpp", args=[k, "3"], constants=dict(K=30)) for k in KINDS] + [dict(name=k + "-huge", src="map.cpp", args=[k, "3"], constants=dict(K=300)) for k in KINDS],
     trace="MapOpsTrace", trace_cfg=dict(constants=dict(S=3, K=4, Vals={1})), epilogue=[["end"]],
     note="Exhaustive over the model for two maps over three keys; every transition of a smaller instance and random histories over three maps of four, of thirty and of 300 keys are performed on Map<int,int>, Map<String,String> and Map<Tracked,Tracked>. Trusts TLC and the driver's projection.",
     expect=["make", "conv", "copy", "insp", "inskv", "insstd", "fins", "adjoin", "join", "put", "idx", "setval -> ok", "setval -> throw", "cidx -> throw", "cidx -> ok", "get -> throw", "val -> throw", "cval -> throw", "has", "keys", "vals", "remk", "remown", "resk"])

plan("C09", title="Container conversions and element classification preserve content",
     mc=[dict(module="ConvGen", spec="GSpec", constants=dict(V=3, M=4, C=7, Depth=2), properties=["GStep"], view="GView")],
     gen=[dict(module="ConvGen", kind="cover", constants=dict(V=3, M=3, C=5, Depth=2), thorough=dict(V=3, M=5, C=8), session=400),
          dict(module="ConvGen", kind="sim", constants=dict(V=5, M=14, C=12, Depth=120), num=15, num_thorough=600),
          dict(module="ConvGen", kind="sim", constants=dict(V=40, M=40, C=30, Depth=120), num=10, num_thorough=300),
          dict(module="ConvGen", kind="sim", constants=dict(V=40, M=70000, C=30, Depth=30), num=2, num_thorough=20)],
     drivers=[dict(name=k, src="conv.cpp", args=[k]) for k in KINDS],
     trace="ConvTrace", trace_cfg=dict(constants=dict(V=3, M=3, C=5)), epilogue=[["end"]],
     note="Every sequence up to length 3 over 3 values (thorough 5) through every conversion, every increasing index list below 5 (thorough 8), and random longer ones (up to 70000 elements), each on int, String and Tracked elements with conversions logged. The functions are stateless; the model enumerates them. Trusts TLC and the driver's projection.",
     expect=["array1", "list1", "arrayvec", "arrayarray", "listvec", "listarray", "arraycopy", "linkedstd", "arrayconv", "arrayexpl", "listconv", "listexpl", "linkedlist",
             "linkedlinked", "setvec", "setcopy", "setconv", "listset", "setlist", "setsetconv", "setsetexpl", "unique", "dups", "compl"])

# ---- C10, C11: text ---------------------------------------------------------------------------------
ALLFLAGS = {1, 2, 3, 4, 5, 6}
plan("C10", title="Containers print in one fixed unambiguous format",
     mc=[dict(module="PrintGen", spec="GSpec", constants=dict(N=2, R=2, Flags=ALLFLAGS, Depth=4), properties=["GStep"], view="GView")],
     gen=[dict(module="PrintGen", kind="cover", constants=dict(N=2, R=2, Flags={1, 5}, Depth=3), thorough=dict(N=3, Flags=ALLFLAGS), session=1000),
          dict(module="PrintGen", kind="sim", constants=dict(N=1, R=14, Flags=ALLFLAGS, Depth=120), num=30, num_thorough=1500),
          dict(module="PrintGen", kind="sim", constants=dict(N=1, R=300, Flags=ALLFLAGS, Depth=60), num=12, num_thorough=200),
          dict(module="PrintGen", kind="sim", constants=dict(N=1, R=5000, Flags=ALLFLAGS, Depth=60), num=2, num_thorough=20)],
     drivers=[dict(name="print", src="print.cpp")],
     trace="PrintTrace", trace_cfg=dict(constants=dict(N=1, R=2, Flags={1})), epilogue=[["end"]],
     note="The text of a value is a recursive function of its type, the value and the stream's state in the specification. Every value up to two elements (thorough three) of 35 types nested up to three deep, through printing, text conversion and the range writers with five delimiter styles, under different stream states, and random longer values (up to 300, some up to 5000 elements); the text, the container afterwards and the stream's state are compared. Element types are int, bool, String and a writable class; field widths are not modelled. Trusts TLC and the driver's projection.",
     expect=["fmt", "put -> ok", "tostring", "tostr", "seq", "pseq", "pshare", "aseq", "lseq", "mseq", "mpseq", "mpshare", "cseq", "writer", "write"])

plan("C11", title="Reading a sequence accepts exactly well-formed text and rejects the rest",
     mc=[dict(module="SeqTextGen", spec="GSpec", constants=dict(L=5, Alpha={91, 93, 44, 49, 45, 32}, R=3, Depth=2), thorough=dict(L=6), properties=["GStep"], view="GView")],
     gen=[dict(module="SeqTextGen", kind="cover", constants=dict(L=4, Alpha={91, 93, 44, 49, 45, 32, 120}, R=3, Depth=2), thorough=dict(L=5), session=1000),
          dict(module="SeqTextGen", kind="sim", constants=dict(L=0, Alpha={91}, R=12, Depth=100), num=60, num_thorough=1500),
          dict(module="SeqTextGen", kind="sim", constants=dict(L=0, Alpha={91}, R=300, Depth=60), num=8, num_thorough=200),
          dict(module="SeqTextGen", kind="sim", constants=dict(L=0, Alpha={91}, R=4100, Depth=40), num=2, num_thorough=20)],
     drivers=[dict(name="read", src="read.cpp")],
     trace="SeqTextTrace", trace_cfg=dict(constants=dict(L=0, Alpha={91}, R=3)), epilogue=[["end"]],
     note="Every text up to 4 characters (thorough 5) over brackets, separator, digit, sign, blank and letter, and random well-formed and damaged longer texts (up to 300, some up to 4100 items) with three delimiter styles, read into vector, List, LinkedList and nested vectors; the grammar in the specification is the oracle. Items are whole numbers within int range. Trusts TLC and the driver's projection.",
     expect=["read -> ok", "read -> fail", "round -> ok"])

# ---- C12 .. C14: lazy objects, handles ---------------------------------------------------------------
plan("C12", title="A lazy object is created at most once, on first use, and then never changes",
     mc=[dict(module="LazyObjGen", spec="GSpec", constants=dict(S=3, F=2, Depth=50), invariants=["TypeOK", "OneMaker"], properties=["GStep"], view="GView")],
     gen=[dict(module="LazyObjGen", kind="cover", constants=dict(S=3, F=1, Depth=30), thorough=dict(F=2)),
          dict(module="LazyObjGen", kind="sim", constants=dict(S=4, F=2, Depth=120), num=60, num_thorough=2000)],
     drivers=[dict(name=k, src="lazy.cpp", args=[k, "4", "2"]) for k in ("exact", "const", "base")],
     trace="LazyObjTrace", trace_cfg=dict(constants=dict(S=4, F=2)), epilogue=[["end"]],
     note="Exhaustive over the model with three lazy variables and two creating functions whose calls fail on demand; every transition and random histories over four variables are performed on Lazy<Obj>, Lazy<const Obj> and Lazy<Base>, with living objects and calls of the function compared at every step and storage accounted at the end. Concurrent first accesses are not covered: nothing in the class promises them. Trusts TLC and the driver's projection.",
     expect=["make -> ok", "copy -> ok", "move -> ok", "asg -> ok", "masg -> ok", "del -> ok", "get -> ok", "get -> throw", "crowd -> ok", "crowd -> throw"])

plan("C13", title="Handles have value semantics: a change through one is never seen through another",
     mc=[dict(module="HandleValGen", spec="GSpec", constants=dict(S=3, Vals={1, 2}, Depth=50), thorough=dict(S=4), invariants=["TypeOK"], properties=["GStep"], view="GView")],
     gen=[dict(module="HandleValGen", kind="cover", constants=dict(S=2, Vals={1, 2}, Depth=30), thorough=dict(S=3)),
          dict(module="HandleValGen", kind="sim", constants=dict(S=4, Vals={1, 2, 3}, Depth=120), num=200, num_thorough=5000)],
     drivers=[dict(name="handle", src="handle.cpp", args=["4"])],
     trace="HandleValTrace", trace_cfg=dict(constants=dict(S=4, Vals={1})), epilogue=[["end"]],
     note="Exhaustive over the model with three handles: eight ways to make a handle, copies, moves, assignments, eleven reading and six modifying accesses, with copying of objects failing on demand; every transition over two handles and random histories over four are performed on Handle<Shape>, comparing sharing, values, living objects and storage. Whether an object held by one handle only is copied before a change is left open. References kept across a copy of the handle are outside the property. Trusts TLC and the driver's projection.",
     expect=["mk -> ok", "mk -> throw", "mk2 -> ok", "cp -> ok", "mv -> ok", "asg -> ok", "masg -> ok", "del -> ok", "rd -> ok", "wr -> ok", "wr -> throw", "crowd -> ok", "crowd -> throw"])

plan("C14", title="Dynamic handle casts succeed exactly when the held object has the type asked for",
     mc=[dict(module="HandleCastGen", spec="GSpec", constants=dict(S=2, Vals={1}, Depth=50), thorough=dict(Vals={1, 2}), properties=["GStep"], view="GView")],
     gen=[dict(module="HandleCastGen", kind="cover", constants=dict(S=1, Vals={1, 2}, Depth=30), thorough=dict(S=2, Vals={1})),
          dict(module="HandleCastGen", kind="sim", constants=dict(S=3, Vals={1, 2, 3}, Depth=100), num=60, num_thorough=2000)],
     drivers=[dict(name="cast", src="cast.cpp", args=["3"]), dict(name="bare", src="cast.cpp", args=["3"], flags=["-DVERIF_BARE"])],
     trace="HandleCastTrace", trace_cfg=dict(constants=dict(S=3, Vals={1})), epilogue=[["end"]],
     note="The class hierarchy (derivation chain, unrelated branch, multiple inheritance, two wrapped types, an ambiguous base) is a relation in the specification, once with an interface that can be written and once with one that cannot; every pair of held type and requested type is tried through four extractions and four casts, and random histories with changes between, comparing success, the value reached, that the address lies in the held object, the diagnostic and the handle afterwards. Trusts TLC and the driver's projection.",
     expect=["xc -> ok", "xc -> badcast", "xm -> ok", "xm -> badcast", "xk -> ok", "xk -> badcast", "xp -> ok", "xp -> null", "ch -> ok", "ch -> badcast", "cc -> ok", "cc -> badcast", "cd -> ok", "cd -> badcast", "cw -> ok", "cw -> badcast"])

# ---- C15, C16: binary words -----------------------------------------------------------------------------
plan("C15", title="Binary words obey word algebra",
     mc=[dict(module="BWordGen", spec="GSpec", constants=dict(S=3, M=3, R=3, Depth=50), thorough=dict(M=4), invariants=["Laws"], properties=["GStep"], constraints=["Short"], view="GView")],
     gen=[dict(module="BWordGen", kind="cover", constants=dict(S=2, M=3, R=3, Depth=30), thorough=dict(M=4), constraints=["Short"]),
          dict(module="BWordGen", kind="sim", constants=dict(S=3, M=3, R=40, Depth=60), num=100, num_thorough=3000),
          dict(module="BWordGen", kind="sim", constants=dict(S=3, M=3, R=600, Depth=100), num=50, num_thorough=400),
          dict(module="BWordGen", kind="sim", constants=dict(S=2, M=3, R=70000, Depth=14), num=4, num_thorough=40)],
     drivers=[dict(name="bword", src="bword.cpp", args=["3"])],
     trace="BWordTrace", trace_cfg=dict(constants=dict(S=3, M=3, R=3)), epilogue=[["end"]],
     note="Exhaustive over the model for three words of up to three bits, where the laws of the order and of the prefix and subword relations are checked as invariants; every transition over two words and random histories with words of up to 40 bits, of 600 bits and more and of up to 70000, biased to long partial matches and to words that differ in one bit, all relations between all words asked at once, are performed on BinaryWord. Trusts TLC and the driver's projection.",
     expect=["mk", "def", "cp", "asg", "bit", "word", "erase", "back -> ok", "prefix", "sub", "less", "eq", "bytes", "rel"])

plan("C16", title="Binary words survive writing and reading",
     mc=[dict(module="BWTextGen", spec="GSpec", constants=dict(L=4, Alpha={48, 49, 91, 93, 44, 101, 32, 120}, R=3, Depth=3), thorough=dict(L=5), properties=["GStep"], view="GView")],
     gen=[dict(module="BWTextGen", kind="cover", constants=dict(L=3, Alpha={48, 49, 91, 93, 44, 101, 32, 120}, R=3, Depth=2), thorough=dict(L=5), session=1000),
          dict(module="BWTextGen", kind="sim", constants=dict(L=0, Alpha={91}, R=20, Depth=100), num=80, num_thorough=2000),
          dict(module="BWTextGen", kind="sim", constants=dict(L=0, Alpha={91}, R=520, Depth=60), num=8, num_thorough=200)],
     drivers=[dict(name="bwtext", src="bwtext.cpp")],
     trace="BWTextTrace", trace_cfg=dict(constants=dict(L=0, Alpha={91}, R=3)), epilogue=[["end"]],
     note="Every text up to three characters (thorough five) over digits, brackets, separator, e, blank and a letter, and random well-formed and damaged longer texts (words of up to 520 bits, and some of up to 100000), read and constructed from; words written under six stream states; words written one after another in both forms and read back. Two adjacent digits inside brackets are left open. Trusts TLC and the driver's projection.",
     expect=["fmt", "write", "read -> ok", "read -> fail", "read -> none", "make -> ok", "make -> fail", "many", "huge"])

# ---- C17: coded variants ---------------------------------------------------------------------------------
plan("C17", title="A coded variant visits exactly the alternative its code names",
     mc=[dict(module="CodedVarGen", spec="GSpec", constants=dict(Slots=1, MaxN=16, Depth=50), properties=["GStep"], view="GView")],
     gen=[dict(module="CodedVarGen", kind="cover", constants=dict(Slots=1, MaxN=16, Depth=30), options=dict(session=400), only=["variant1"]),
          dict(module="CodedVarGen", kind="sim", constants=dict(Slots=2, MaxN=16, Depth=100), num=20, num_thorough=600, only=["variant2"])],
     drivers=[dict(name="variant1", src="variant.cpp", args=["1"], constants=dict(Slots=1)), dict(name="variant2", src="variant.cpp", args=["2"])],
     trace="CodedVarTrace", trace_cfg=dict(constants=dict(Slots=2, MaxN=16)), epilogue=[["end"]],
     note="All variants of 0 to 16 alternatives with three kinds of codes (an enumeration, characters, numbers of either sign), every code of 18 and one besides: made from the code and from the alternative, visited with visitors returning a value, a reference and nothing, in a child process first, where aborting is observed. Complete for the model. Trusts TLC and the driver's projection.",
     expect=["code", "alt", "odd", "cp -> ok", "holds -> ok", "val -> ok", "val -> abort", "ref -> ok", "ref -> abort", "void -> ok", "void -> abort"])

# ---- C18: iterators ----------------------------------------------------------------------------------------
FAMS = dict(ra=dict(N=3, S=2), fwd=dict(N=3, S=2), pair=dict(N=2, S=2), far=dict(N=3, S=2))
plan("C18", title="Iterator facades obey iterator arithmetic",
     mc=[dict(module="IterGen", spec="GSpec", constants=dict(Fam=f, Vals={1, 2}, Depth=50, **c), properties=["GStep"], constraints=["OnMarks"], view="GView") for f, c in FAMS.items()],
     gen=[dict(module="IterGen", kind="cover", constants=dict(Fam=f, Vals={1, 2}, Depth=30, **c), constraints=["OnMarks"], only=[f + "-small"]) for f, c in FAMS.items()] +
         [dict(module="IterGen", kind="sim", constants=dict(Fam=f, Vals={1, 2, 3, 4}, Depth=100, S=3, N=20), num=15, num_thorough=800, only=[f + "-large"]) for f in FAMS],
     drivers=[dict(name=f + "-small", src="iter.cpp", args=[f, "2", str(c["N"])], constants=dict(Fam=f, **c)) for f, c in FAMS.items()] +
             [dict(name=f + "-large", src="iter.cpp", args=[f, "3", "20"], constants=dict(Fam=f, S=3, N=20)) for f in FAMS],
     trace="IterTrace", trace_cfg=dict(constants=dict(Vals={1})), epilogue=[["end"]],
     note="Exhaustive over the model for two iterators in a sequence of three (pairs: two): all steps, distances of either sign, comparisons, reads and writes; every transition and random histories of three iterators in a sequence of twenty are performed on iterators built on IteratorFacade (random access, forward) and on PairIterator; positions and distances around powers of two up to 2^62 on an iterator over the integers. Trusts TLC and the driver's projection.",
     expect=["set", "cp", "plus -> ok", "minus -> ok", "pluseq -> ok", "minuseq -> ok", "next -> ok", "inc -> ok", "dec -> ok", "postinc -> ok", "readinc -> ok", "deref -> ok", "arrow -> ok", "write -> ok", "cmp", "walk -> ok",
             "advance -> ok", "equal", "equalconst", "conv", "print"])

# ---- C19: ranges -------------------------------------------------------------------------------------------
plan("C19", title="An index range enumerates exactly the integers from start to stop",
     mc=[dict(module="IndexRangeGen", spec="GSpec", constants=dict(S=1, I=0, W=8, Span={0}, Few=False, Depth=50), invariants=["Wf"], properties=["GStep"], constraints=["Close"], view="GView"),
         dict(module="IndexRangeGen", spec="GSpec", constants=dict(S=1, I=2, W=8, Span={0}, Few=True, Depth=50), invariants=["Wf"], properties=["GStep"], constraints=["Close"], view="GView")],
     gen=[dict(module="IndexRangeGen", kind="cover", constants=dict(S=1, I=0, W=8, Span={0}, Few=False, Depth=30), constraints=["Close"], only=["range1"]),
          dict(module="IndexRangeGen", kind="cover", constants=dict(S=1, I=1, W=8, Span={0}, Few=True, Depth=30), constraints=["Close"], only=["range2"]),
          dict(module="IndexRangeGen", kind="sim", constants=dict(S=2, I=2, W=200, Span=set(range(0, 40)) | {190, 200, 201, 65535, 65536}, Few=False, Depth=120), num=30, num_thorough=2000, only=["range3"])],
     drivers=[dict(name="range1", src="range.cpp", args=["1", "0", "8"], constants=dict(S=1, I=0, W=8)),
              dict(name="range2", src="range.cpp", args=["1", "1", "8"], constants=dict(S=1, I=1, W=8)),
              dict(name="range3", src="range.cpp", args=["2", "2", "200"], constants=dict(S=2, I=2, W=200))],
     trace="IndexRangeTrace", trace_cfg=dict(constants=dict(Span={0}, Few=True)), epilogue=[["end"]],
     note="Numbers are exact 64-bit values in the specification. Every pair of thirteen boundary values (0, powers of two, the top of the range) as start and stop, every query and index, and random ranges anywhere with walks of up to 200 indices, are performed on Range, range() and RangeIterator. Trusts TLC and the driver's projection.",
     expect=["mk -> ok", "range2 -> ok", "range1 -> ok", "cp", "ask", "at -> ok", "last -> ok", "for -> ok", "iter -> ok", "begin", "finish", "inc -> ok", "deref", "ne"])

# ---- C20: random numbers -------------------------------------------------------------------------------------
TYPES = {1, 2, 3, 4, 5, 6, 7, 8, 11, 12}
plan("C20", title="Randomisers draw only from their interval, and from all of it, evenly",
     mc=[dict(module="RandomsGen", spec="GSpec", constants=dict(S=1, Types=TYPES, Depth=50), invariants=["Wf"], properties=["GStep"], view="GView")],
     gen=[dict(module="RandomsGen", kind="cover", constants=dict(S=1, Types=TYPES, Depth=30), only=["random1"]),
          dict(module="RandomsGen", kind="sim", constants=dict(S=3, Types=TYPES, Depth=60), num=20, num_thorough=1000, only=["random3"])],
     drivers=[dict(name="random1", src="random.cpp", args=["1"], constants=dict(S=1)),
              dict(name="random3", src="random.cpp", args=["3"], constants=dict(S=3))],
     trace="RandomsTrace", trace_cfg=dict(constants=dict(Types={1})), epilogue=[["end"]], once=True,
     note="Which values a draw may give is the specification's set, so any value inside is accepted and any outside rejected; evenness and independence are judged by the specification from counts over many draws, within seven standard deviations (a false alarm is less likely than one in 10^11 per count). Every transition of the model for ten element types and random histories with several generators are performed. The random engine's lowest and highest output are forced, so that the ends of the interval are met. Trusts TLC and the driver's counting.",
     expect=["mk", "cp", "draw -> ok", "force -> ok", "many -> ok", "hist -> ok", "pair -> ok", "fresh -> ok", "gens", "procs"])

# ---- C21: stopwatches ----------------------------------------------------------------------------------------
plan("C21", title="A stopwatch reports exactly the time between its last restart and its last click",
     mc=[dict(module="WatchGen", spec="GSpec", constants=dict(S=1, Units={1, 1000, 1000000}, Passes={1, 6, 8}, Jumps={1, 2}, Depth=50), constraints=["Soon", "Near"], invariants=["NeverNegative"], properties=["GStep"], view="GView")],
     gen=[dict(module="WatchGen", kind="cover", constants=dict(S=1, Units={1, 1000, 1000000}, Passes={1, 6}, Jumps={1, 2}, Depth=30), constraints=["Soon", "Near"], only=["watch1"]),
          dict(module="WatchGen", kind="sim", constants=dict(S=3, Units={1, 1000, 1000000}, Passes=set(range(1, 13)), Jumps={1, 2, 3, 4, 5}, Depth=120), constraints=["Early"], num=60, num_thorough=4000, only=["watch3"])],
     drivers=[dict(name="watch1", src="watch.cpp", args=["1"], constants=dict(S=1)),
              dict(name="watch3", src="watch.cpp", args=["3"], constants=dict(S=3))],
     trace="WatchTrace", trace_cfg=dict(constants=dict(Units={1}, Passes={1}, Jumps={1})), epilogue=[["end"]],
     note="The clocks are replaced at link level, so that time passes exactly as the specification says, including wall-clock jumps, and slow clock reads. Exhaustive over one watch with all units; every transition and random long histories of three watches are performed on the real class and validated to the nanosecond. Trusts TLC and the replaced clock functions.",
     expect=["pass", "jump", "make", "cp", "restart -> ok", "click -> ok", "slowrestart -> ok", "slowclick -> ok", "chain -> ok", "secs -> ok"])

# ---- C22: assertions and warnings ------------------------------------------------------------------------------
plan("C22", title="Assertions throw exactly when the condition is false, and say what failed",
     mc=[dict(module="MacrosGen", spec="GSpec", constants=dict(Debug=d, Sites={1, 2}, Depth=50), properties=["GStep"], view="GView") for d in (True, False)],
     gen=[dict(module="MacrosGen", kind="cover", constants=dict(Debug=d, Sites={1}, Depth=30), options=dict(session=400), only=["debug" if d else "release"]) for d in (True, False)] +
         [dict(module="MacrosGen", kind="sim", constants=dict(Debug=d, Sites={1, 2, 3}, Depth=150), num=20, num_thorough=30, only=["debug" if d else "release"]) for d in (True, False)],
     drivers=[dict(name="debug", src="macros.cpp", constants=dict(Debug=True)), dict(name="release", src="macros.cpp", flags=["-DNDEBUG"], constants=dict(Debug=False))],
     trace="MacrosTrace", trace_cfg=dict(constants=dict(Sites={1, 2, 3})), epilogue=[["end"]],
     note="Every macro with every combination of operand values, evaluation counts, throwing operands, names that the macro itself might use, use as an unbraced statement, repeated sites, long conditions and explanations, assertions within explanations and in several threads at once, and both build modes: every transition of the model and random long histories are performed on the real macros and the thrown text (file, line, function, expression, message) validated. Trusts TLC and the driver's parsing of the text.",
     expect=[m + " -> throw" for m in ("assert", "assertmsg", "pre", "premsg", "dassert", "dassertmsg", "dpre", "equal", "failmsg", "notimpl")] + [m + " -> none" for m in ("assert", "assertmsg", "pre", "premsg", "dassert", "dassertmsg", "dpre", "equal", "unreached")] +
            ["raise -> runtime", "raise -> logic", "raise -> own", "notify", "warn", "error", "once", "deprecated", "nonce", "ndeprecated", "both", "threads"])

# ---- C23: the test framework --------------------------------------------------------------------------------------
plan("C23", title="The test framework counts and reports every failed check and no passed one",
     mc=[dict(module="TestFwGen", spec="GSpec", constants=dict(Max=2, Depth=3), properties=["GStep"], view="GView")],
     gen=[dict(module="TestFwGen", kind="cover", constants=dict(Max=2, Depth=10), thorough=dict(Max=4), options=dict(session=400)),
          dict(module="TestFwGen", kind="sim", constants=dict(Max=4, Depth=150), num=30, num_thorough=1000)],
     drivers=[dict(name="testfw", src="testfw.cpp")],
     trace="TestFwTrace", trace_cfg=dict(constants=dict(Max=2)), epilogue=[["end"]],
     note="Every test macro with passing, failing and throwing operands, operands of all kinds (integers, wide integers, reals and NaN, short and long texts, a class) and names the macros use, and checks within checks: every transition of the model and random long histories are performed, and the verdict, the failure count, how often operands were evaluated and the printed report validated. Trusts TLC and the driver's parsing of the report.",
     expect=["check", "checkwarn", "same", "sameas", "equal", "equals", "notequal", "less", "binary", "unary", "assert", "within", "compare", "rescompare", "static", "concept", "sametype", "equivtype", "try -> next", "evaluate -> next", "assign -> next", "call -> next",
             "execute -> next", "execute -> escaped", "print", "declare -> next", "declare -> escaped", "named -> next", "assignconstruct", "construct", "defconstruct", "throws -> next", "fail -> next", "skip", "title", "comment", "warn", "notify", "class", "clean", "nested -> next", "nested -> escaped", "walk"])

# ---- C24: stack traces ----------------------------------------------------------------------------------------------
STACK = dict(src="stack.cpp", repo_src=["src/stack_trace.cpp"], opt=["-O1", "-fno-optimize-sibling-calls", "-fno-omit-frame-pointer"])
plan("C24", title="A stack trace lists the active calls and disturbs nothing",
     mc=[dict(module="CallStackGen", spec="GSpec", constants=dict(Enabled=e, Deepest=3, Runs={2}, Depth=50), properties=["GStep"], view="GView") for e in (True, False)],
     gen=[dict(module="CallStackGen", kind="cover", constants=dict(Enabled=True, Deepest=3, Runs={2}, Depth=30), thorough=dict(Deepest=4)),
          dict(module="CallStackGen", kind="sim", constants=dict(Enabled=True, Deepest=160, Runs={5, 20, 60, 110}, Depth=60), num=20, num_thorough=800)],
     drivers=[dict(name="traced", flags=["-DENABLE_STACK_TRACE", "-rdynamic"], libs=["-ldl"], constants=dict(Enabled=True), **STACK),
              dict(name="silent", flags=["-rdynamic"], libs=["-ldl"], constants=dict(Enabled=False), **STACK)],
     trace="CallStackTrace", trace_cfg=dict(constants=dict(Deepest=160, Runs={5})), epilogue=[["end"]],
     note="Call chains up to depth 160 with named, anonymous-namespace, member and unnamed (static C) functions, built with and without ENABLE_STACK_TRACE: every transition of the model up to depth 3 (thorough 4) and random deep histories; the lines are compared with the calls active by name and order, up to two helper lines more allowed. Trusts TLC, backtrace() and the build flags that keep every call on the stack.",
     expect=["call", "run", "ret", "trace"])

# ---- C25: reference tuples --------------------------------------------------------------------------------------------
def tuple_drivers(kinds, nv, ns):
    return [dict(name=k, src="tuple.cpp", opt=["-O0"], flags=["-DKIND=" + k], args=[k, str(nv), str(ns)]) for k in kinds]


plan("C25", title="Reference tuples assign through to exactly the named variables",
     mc=[dict(module="TuplesGen", spec="GSpec", constants=dict(NV=3, S=1, Sizes={1, 2, 3}, Vals={1}, Repeats=False, Depth=50), invariants=["TypeOK"], properties=["GStep"], view="GView"),
         dict(module="TuplesGen", spec="GSpec", constants=dict(NV=2, S=1, Sizes={1, 2}, Vals={0, 1}, Repeats=True, Depth=50), invariants=["TypeOK"], properties=["GStep"], view="GView")],
     gen=[dict(module="TuplesGen", kind="cover", constants=dict(NV=3, S=1, Sizes={2}, Vals={1}, Repeats=False, Depth=30), thorough=dict(Vals={0, 1}), constraints=["OneKept"], only=["int"]),
          dict(module="TuplesGen", kind="sim", constants=dict(NV=7, S=2, Sizes={1, 2, 3, 4, 5, 6, 7}, Vals={1, 2, 3, 4, 5, 6, 7}, Repeats=False, Depth=100), num=60, num_thorough=2000),
          dict(module="TuplesGen", kind="sim", constants=dict(NV=7, S=2, Sizes={2, 3, 4, 5}, Vals={1, 2, 3, 4, 5, 6, 7}, Repeats=True, Depth=100), num=20, num_thorough=500)],
     drivers=tuple_drivers(("int", "str", "tracked"), 7, 2), trace="TuplesTrace", trace_cfg=dict(constants=dict(NV=7, S=2, Sizes={1}, Vals={1}, Repeats=True)), epilogue=[["end"]],
     note="Exhaustive over the model for three variables (a variable named twice holds one of the components given to it). Every transition of that model with pairs and 2-tuples, and random histories over seven variables with tuples of 1-7 components (values made, converted, named or read from the variables themselves; kept reference tuples; every accessor on lvalues, constants and rvalues, with the address of what it gives), are performed for three variable types. Assigning between reference tuples that share a variable is not specified. Trusts TLC and the driver's projection.",
     expect=["set", "hold", "asg", "perm", "asgs -> ok", "asgref -> ok", "asgval -> ok", "rget -> ok", "rput -> ok", "mk", "mkfrom -> ok", "vget -> ok", "vput -> ok", "vtake -> ok", "types"])

# ---- C26: questions about types ---------------------------------------------------------------------------------------
LISTQ = {"oneof", "index", "allsame", "first", "second"}
TYPEQ = {"converts", "assigns", "call", "returns", "nocall", "strip"}
SYMQ = {"symbolic", "symbolic1"}
RESTQ = {"kind", "copies", "same", "constructs", "derives", "call2", "result", "arith", "inplace", "logic", "negate", "can"}
plan("C26", title="Type queries agree with the list of types and the rules of the language",
     mc=[dict(module="TypeQGen", spec="GSpec", constants=dict(Lengths={0, 1, 2, 3, 4, 5, 6}, Asked=LISTQ, Depth=2), properties=["GStep"], view="GView"),
         dict(module="TypeQGen", spec="GSpec", constants=dict(Lengths={0}, Asked=TYPEQ | RESTQ | SYMQ, Depth=2), properties=["GStep"], view="GView")],
     gen=[dict(module="TypeQGen", kind="cover", constants=dict(Lengths={0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 33}, Asked=LISTQ, Depth=2), options=dict(session=1000), only=["lists", "lists2"]),
          dict(module="TypeQGen", kind="cover", constants=dict(Lengths={0}, Asked=TYPEQ, Depth=2), options=dict(session=1000), only=["types"]),
          dict(module="TypeQGen", kind="cover", constants=dict(Lengths={0}, Asked=RESTQ, Depth=2), options=dict(session=1000), only=["rest"]),
          dict(module="TypeQGen", kind="cover", constants=dict(Lengths={0}, Asked=SYMQ, Depth=2), options=dict(session=1000), only=["symbols"])],
     drivers=[dict(name=k, src="typeq.cpp", opt=["-O0"], nosan=True, flags=["-DPART=" + str(i + 1)]) for i, k in enumerate(("lists", "lists2", "types", "rest", "symbols"))],
     trace="TypeQTrace", trace_cfg=dict(constants=dict(Lengths={0}, Asked=LISTQ | TYPEQ | RESTQ | SYMQ)), epilogue=[["end"]],
     note="All type lists up to length 4 over four types (5 over three, 6-7 over two, 8 to 33 with one or two that differ) for two alphabets, and all pairs of 65 types (thirteen base types, five forms) for each query, and the arithmetic queries on symbols whose operators only write down what was done, against an explicit table of the rules in the specification. The queries are evaluated by the compiler; the driver reads out the answers. Trusts TLC and that table.",
     expect=sorted(LISTQ | TYPEQ | RESTQ | SYMQ))
