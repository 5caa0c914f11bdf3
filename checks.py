"""Which harness run decides which property, and how the harness is built for it."""
CORE = ["engine.cpp", "exact.cpp", "gen.cpp", "spaces.cpp", "alloc.cpp"]
REL = ["-O2", "-DNDEBUG", "-w"]  # as the Release build of the repository, assertions off

VARIANTS = {
    # the library as users build it
    "paths": {"cxx": "g++", "flags": REL, "harness": CORE + ["props_paths.cpp"]},
    "global": {"cxx": "g++", "flags": REL, "ref": True, "harness": CORE + ["props_paths.cpp", "props_global.cpp"]},
    "filter": {"cxx": "g++", "flags": REL, "harness": CORE + ["props_filter.cpp"]},
    "seq": {"cxx": "g++", "flags": REL, "harness": CORE + ["props_seq.cpp"]},
    "blocks": {"cxx": "g++", "flags": REL, "harness": CORE + ["props_internal.cpp"]},
    # sanitizers; assertions of the library enabled
    "asan": {"cxx": "clang++", "flags": ["-O1", "-g1", "-w", "-fno-omit-frame-pointer",
                                         "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
             "libflags": ["-D_GLIBCXX_ASSERTIONS"], "harness": CORE + ["props_seq.cpp"]},
    "tsan": {"cxx": "clang++", "flags": ["-O1", "-g1", "-w", "-DNDEBUG", "-fsanitize=thread"],
             "harness": CORE + ["props_seq.cpp"]},
    "msan": {"cxx": "clang++", "flags": ["-O1", "-g1", "-w", "-DNDEBUG", "-fno-omit-frame-pointer",
                                         "-fsanitize=memory"],
             "harflags": ["-fsanitize-ignorelist={H}/msan_ignore.inc"], "harness": CORE + ["props_seq.cpp"]},
}


def R(name, variant, quick, thorough, **kw):
    return dict(name=name, variant=variant, quick=quick, thorough=thorough, **kw)


def C(*runs):
    return {"level": "exploration", "runs": list(runs)}


CHECKS = {
    "C01": C(R("goal_reached", "paths", 3000000, 120000000)),
    "C02": C(R("endpoint_curvature", "paths", 3000000, 120000000)),
    "C03": C(R("curvature_bounds", "paths", 3000000, 120000000)),
    "C04": C(R("curvature_continuity", "paths", 2000000, 80000000)),
    "C05": C(R("driving_direction", "paths", 3000000, 120000000)),
    "C06": C(R("distance_is_length", "paths", 2400000, 100000000)),
    "C07": C(R("g1_optimal", "global", 2400000, 80000000)),
    "C08": C(R("shortest_family", "global", 2000000, 60000000)),
    "C09": C(R("path_sampling", "paths", 900000, 40000000)),
    "C10": C(R("interpolation", "paths", 700000, 30000000)),
    "C11": C(R("symmetry", "global", 3000000, 80000000)),
    "C12": C(R("belief_model", "filter", 500000, 15000000)),
    "C13": C(R("belief_valid", "filter", 500000, 15000000)),
    "C14": C(R("history", "seq", 60000, 3000000), R("threads", "seq", 60000, 2000000),
             R("threads", "tsan", 4000, 200000, jobs=4)),
    "C15": C(R("totality", "seq", 300000, 10000000), R("totality", "asan", 60000, 2000000),
             R("totality", "msan", 60000, 2000000)),
    "C16": C(R("numerics", "blocks", 6000000, 400000000)),
    "C17": C(R("jacobians", "blocks", 6000000, 400000000)),
    "C18": C(R("turns", "blocks", 6000000, 400000000)),
    "C19": C(R("start_equals_goal", "paths", 2400000, 60000000)),
    "C20": C(R("consistency", "global", 1600000, 40000000)),
}
