STUBS = {
    "sim": "pthread/futex/clock/disk/heap of the simulator instead of the operating system (scheduling, time, storage and memory behave as the seed decides)",
    "utl": "stand-ins for the utl, cista libraries, which are not in the sandbox (containers, parsers, logging)",
}
HDR = dict(stubs=["utl"])
BUNDLES = {
    "selftest": dict(scenarios=["sim/selftest.cc"]),
    "co": dict(scenarios=["scenarios/co.cc"], **HDR),
    "files": dict(scenarios=["scenarios/files.cc"], **HDR),
}
CO_REAL = ["generator, coro_it, recursive_generator, coro_map, collect and fmap from include/soro/utls/coroutine, compiled unchanged",
           "the C++ coroutine runtime of g++-12"]
FILE_REAL = ["binary_buffer_to_file.h, file_to_binary_buffer.h, loaded_file.h, compiled unchanged", "libstdc++ iostreams and std::filesystem down to their system calls"]
PROPS = {
    "C01": dict(technique="random producer programs, interleaved consumers", bundle="co", real=CO_REAL, nontrivial="at least one sequence of the run yields an element",
                state="(elements drawn, sequences in flight)"),
    "C02": dict(technique="producer exceptions and allocation failures", bundle="co", real=CO_REAL, nontrivial="some producer yields an element or fails",
                state="(elements drawn, sequences in flight)"),
    "C03": dict(technique="abandonment, moves and failures on a checked heap", bundle="co", real=CO_REAL, nontrivial="all sequences were created and destroyed on the simulated heap",
                state="(elements drawn, sequences in flight)"),
    "F01": dict(technique="in-memory disk with write faults", bundle="files", real=FILE_REAL, nontrivial="a non-empty file was written or the write was refused",
                state="(size, reported failure) of each file"),
    "F02": dict(technique="in-memory disk with read faults", bundle="files", real=FILE_REAL, nontrivial="a non-empty or missing file was read",
                state="(size, reader, reported failure) of each file"),
}
BUNDLES["rail"] = dict(scenarios=["scenarios/rail.cc", "scenarios/infra.cc", "scenarios/runtime.cc", "scenarios/toolmain.cc"], repo=["src"], flags=['-DTOOL_MAIN="{REPO}/tools/export_exclusion_graph/src/export_exclusion_graph.cc"', '-DREPO_DIR="{REPO}"'], stubs=["utl"])
RAIL_REAL = ["all of src/ compiled unchanged: infrastructure, exclusion, ordering, runtime, timetable", "the small infrastructure of resources/, parsed by the real parser before the runs"]
PROPS["X01"] = dict(technique="seeded interleavings of the exclusion workers, disk faults", bundle="rail", real=RAIL_REAL, nontrivial="at least two routes", state="(routes, workers, exclusion sets)")
PROPS["X02"] = dict(technique="seeded timetables and worker schedules against a pairwise model", bundle="rail", real=RAIL_REAL, nontrivial="at least two trips", state="(nodes, trips, edges)")
PROPS["T01"] = dict(technique="simulated trains with delays and stalls on the real order", bundle="rail", real=RAIL_REAL, nontrivial="at least two trips", state="(train, position) entered", probes=["route usages driven"])
PROPS["T02"] = dict(technique="lost and foreign edges injected into the order", bundle="rail", real=RAIL_REAL, nontrivial="at least one trip", state="(nodes, shortest cycle, unordered pair)")
BUNDLES["kss"] = dict(scenarios=["scenarios/kss.cc"], repo=["src"], flags=['-DREPO_DIR="{REPO}"'], stubs=["utl"])
KSS_REAL = ["all of src/ compiled unchanged, pugixml, libstdc++ iostreams and std::filesystem", "the small infrastructure of resources/, parsed by the real parser before the runs"]
PROPS["X03"] = dict(technique="generated timetable directories against an independent reader", bundle="kss", real=KSS_REAL, nontrivial="at least one train in the directory", state="(trains, accepted, rejected by reason)")
PROPS["F04"] = dict(technique="disk, allocation and thread faults during the import", bundle="kss", real=KSS_REAL, nontrivial="at least one train in the directory", state="(trains, fault reported)")
INFRA_REAL = ["all of src/ compiled unchanged, pugixml, libstdc++ iostreams and std::filesystem"]
PROPS["I01"] = dict(technique="generated infrastructures against an independent model", bundle="rail", real=INFRA_REAL, nontrivial="at least two station routes", state="(stations, sections, station routes, interlocking routes)")
PROPS["I02"] = dict(technique="generated infrastructures against an independent model", bundle="rail", real=INFRA_REAL, nontrivial="at least two station routes", state="(stations, sections, station routes, interlocking routes)")
PROPS["I03"] = dict(technique="generated infrastructures against an independent model", bundle="rail", real=INFRA_REAL, nontrivial="at least two interlocking routes", state="(stations, sections, station routes, interlocking routes)")
PROPS["F03"] = dict(technique="disk, allocation and thread faults during the import", bundle="rail", real=INFRA_REAL, nontrivial="at least two station routes", state="(size of the infrastructure, fault reported)")
PROPS["R01"] = dict(technique="random trains, places and limits against a reference course; side by side in simulated threads", bundle="rail", real=RAIL_REAL, nontrivial="at least one train was calculated", state="times of a train", probes=["trains calculated", "trains refused", "limits from the last signal on a way", "of these, stricter than the limit before", "of these, over a stop and a signal sharing its place"])

BUNDLES["web"] = dict(scenarios=["scenarios/web.cc", "scenarios/webmain.cc"], repo=["src", "web/server/src"], skip=["web/server/src/main.cc"],
                      flags=['-DREPO_DIR="{REPO}"', '-DWEB_MAIN="{REPO}/web/server/src/main.cc"', "-DBOOST_BEAST_USE_STD_STRING_VIEW=1", "-I{REPO}/web/server/include", "-include", "{V}/shim/web_prelude.h"], stubs=["utl", "web"])
STUBS["web"] = "stand-ins for the net, tiles and guess libraries, which are not in the sandbox (HTTP connection and routing, tile database, fuzzy matching)"
WEB_REAL = ["all of src/ and web/server/src/ compiled unchanged (main.cc in S01), with Boost.Beast messages, cereal, pugixml, libstdc++ iostreams and std::filesystem"]
PROPS["W01"] = dict(technique="generated deployments, random requests against an independent reading of the same data", bundle="web", real=WEB_REAL, nontrivial="the server served", state="(sizes of the infrastructures, timetables)", probes=["interpolated borders", "searches with results", "orderings of more than three nodes", "tiles"])
PROPS["W02"] = dict(technique="malformed and unknown requests among good ones", bundle="web", real=WEB_REAL, nontrivial="the server served", state="(sizes of the infrastructures, timetables)")
PROPS["X04"] = dict(technique="worker schedules and disk faults against an independent reading of the OSM file", bundle="web", real=WEB_REAL, nontrivial="an infrastructure was exported", state="(elements, stations)", probes=["interpolated borders"])
PROPS["S01"] = dict(technique="kills, disk faults and restarts of the server on a surviving disk", bundle="web", real=WEB_REAL, nontrivial="the server was started at least twice", state="(deployment; point of the kill, how the process ended)")
PROPS["X05"] = dict(technique="disk, allocation and thread faults during the export, started by the tool's own main", bundle="rail", real=INFRA_REAL + ["tools/export_exclusion_graph with its main"], nontrivial="at least two interlocking routes", state="(size of the infrastructure, exit status, fault injected)")
