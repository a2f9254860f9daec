EX = "src/infrastructure/exclusion/"
OR = "src/simulation/ordering/"
NA = []
def more(P):
    T = []
    T.append(P("X01", "Mutual exclusion of interlocking routes is computed exactly",
      "For every set of interlocking routes, the elements each route locks, the graph of routes that exclude each other and the mapping from routes to exclusion sets are exact: two routes exclude each other exactly if they lock a common element and neither starts where the other ends. The sets of routes behave as sets under membership, count, iteration, insertion, union, difference and comparison. The result does not depend on the number of worker threads (also when it is unknown), their schedule or the heap. An exclusion set file that cannot be read is reported, never read as fewer sets.",
      ["inputs", "schedules", "fault_sequences", "configurations"], "every subset and numbering of the routes of an infrastructure, every number of workers and interleaving of them, every exclusion set file and disk fault while it is read",
      "The existing tests compare one infrastructure on the host's number of cores; worker partitions, interleavings and file errors are not varied.",
      [EX + f for f in ("exclusion_elements.cc", "get_exclusion_graph.cc", "get_exclusion.cc", "exclusion_set.cc", "read_cliques.cc")],
      [("routes are split into one contiguous part per worker", EX + "exclusion_elements.cc"), ("rows of the exclusion graph are computed per worker", EX + "get_exclusion.cc, get_exclusion_graph.cc")],
      [("closed_/open_ elements", "elements a route locks, with and without its ends", "exclusion_elements"), ("exclusion graph", "row per route of the routes it excludes", "exclusion_graph")],
      ["get_exclusion()"]))
    T.append(P("X02", "The ordering graph orders all conflicting route usages by time",
      "For every timetable and time window, the ordering graph holds exactly the trips of the asked trains (of all, if none are named) running within the window, one node per interlocking route in travel order. Any two usages of the same or of excluding routes are ordered, the earlier entry first; the order is acyclic; edges are recorded at both ends, each with a reason, none implied by others. The graph is the same for any number of workers and schedule.",
      ["inputs", "schedules", "configurations"], "every timetable (also simultaneous entries, several trips per day, trips past midnight, service days outside the window), filter, number of workers and interleaving",
      "The tests order one or two timetables and check edges along one exclusion set; simultaneous entries and trips around the window's edges are not sampled.",
      [OR + f for f in ("ordering_graph.cc", "remove_transitive_edges.cc")] + ["src/timetable/train.cc", "include/soro/timetable/bitfield.h"],
      [("usages of each exclusion set are sorted by entry time and chained", OR + "ordering_graph.cc"), ("transitive reduction", OR + "remove_transitive_edges.cc"), ("departures(interval)", "src/timetable/train.cc")],
      [("nodes_", "usage of a route by a trip with in and out edges", "ordering_graph"), ("trip_to_nodes_", "nodes of each trip", "ordering_graph")],
      ["constructor of ordering_graph"]))
    T.append(P("T01", "Trains driven along the order never collide and all arrive",
      "Trains that enter a route only after all predecessors of that usage in the ordering graph have left theirs never use routes that exclude each other at the same time, whatever the delays; each follows its own path, found by walking from node to next node, and every train finishes once stalls are over.",
      ["schedules", "fault_sequences", "inputs"], "every timetable, every delay and stall of every train, every order in which trains that may proceed do so",
      "No test drives trains along the graph; delays and interleavings are unbounded.",
      [OR + "ordering_graph.cc", OR + "remove_transitive_edges.cc", "include/soro/simulation/ordering/ordering_graph.h"],
      [("in_ edges gate the entry into a route", OR + "ordering_graph.cc"), ("ordering_node::next", OR + "ordering_graph.cc")],
      [("in_", "usages that must be over before this one begins", "ordering_node")], ["ordering_node::next, in_, out_"]))
    T.append(P("T02", "Checks of an ordering graph tell the truth about it",
      "On any ordering graph, also one with lost or foreign edges, get_cycle reports a cycle exactly if there is one, and then a real one of minimal length in edge order; get_cycles finds one for every node on a cycle; and has_exclusion_paths denies exactly the graphs in which two usages of an exclusion set have no order.",
      ["inputs", "fault_sequences"], "every graph arising from a timetable by losing and gaining edges",
      "The tests run the checks on intact graphs only, where a check that always passes looks right.",
      [OR + "get_cycle.cc", OR + "check_exclusion_paths.cc"],
      [("breadth first search per node", OR + "get_cycle.cc"), ("reachability of neighbours within an exclusion set", OR + "check_exclusion_paths.cc")],
      [], ["get_cycle(), get_cycles(), has_exclusion_paths()"]))
    KS = "src/timetable/parsers/kss/parse_kss_timetable.cc"
    T.append(P("X03", "Timetable import is complete, as written, and accounts for every train",
      "Importing a timetable directory yields every train its files describe, with the number, service days, stop times, break-in, characteristics and path written there, numbered in file name order; the trips it has, and those running in a window of time, are those of its service days; walking a train visits the places of its way from its first to its last stop, each stop and passing time at its place. A train that cannot be used is left out as a whole and counted in the import report with its reason. Files of other formats in the directory change nothing, the order in which the operating system lists the directory changes nothing, and the import always ends; a truncated file or services no calendar of 512 days can hold end it with an error.",
      ["inputs", "schedules", "configurations"], "every directory of timetable files (any number, order of listing, foreign and damaged files between them), every train they describe, including unusable ones of each kind",
      "The tests import two fixed directories of well-formed trains; directory order, foreign files, unusable trains and unusual service days are not sampled.",
      [KS, "src/timetable/parsers/station_route_to_interlocking_route.cc", "include/soro/base/error.h", "src/timetable/bitfield.cc", "src/timetable/timetable.cc"],
      [("one rejection reason per train, counted", KS + ", include/soro/base/error.h"), ("station routes are matched to interlocking routes", "src/timetable/parsers/station_route_to_interlocking_route.cc"), ("service days as bits of the year", "src/timetable/bitfield.cc")],
      [("trains", "id, number, path, sequence points, service days of each imported train", "base_timetable")],
      ["timetable constructor", "import report in the log"]))
    T.append(P("F04", "A fault during timetable import is reported, never a smaller timetable",
      "When an import of a timetable directory returns normally it has imported exactly what the files hold, whatever the disk, the memory or the operating system did meanwhile: failing opens, reads and directory listings, short reads, refused memory or threads end the import with an error. An import after the fault is over succeeds and gives the full timetable.",
      ["fault_sequences", "inputs", "schedules"], "every fault kind (open, read, stat, listing, short read, allocation, thread creation) at every point of the import of every directory",
      "Tests import from a working disk with enough memory.",
      [KS, "include/soro/utls/file/loaded_file.h", "include/soro/utls/file/file_to_binary_buffer.h", "src/timetable/timetable.cc"],
      [("file reads report failures", "include/soro/utls/file/*.h"), ("failures of one file's import reach the caller", KS)],
      [("trains", "imported trains", "base_timetable")], ["timetable constructor: return or exception"]))
    IS = "src/infrastructure/parsers/iss/"
    T.append(P("I01", "Infrastructure import yields exactly the network the files describe",
      "Importing an infrastructure (by its directory or its Index.xml) yields every station, section, element, border, line, default value, train series and position its files describe, with the data, place, direction and order written there (the elements of a station around its position, in the shape of its plan), and joins them exactly as described: from every place, the next, the branching-off and the previous place are the right ones. The result is the same on every import, whatever the order of listing, the heap or the schedule. A truncated or missing file, or exclusion sets of unknown routes, end the import with an error.",
      ["inputs", "schedules", "configurations", "fault_sequences"], "every network of stations, tracks, switches, crosses, borders and track elements, every spelling of it in files, every choice of import options, every truncation or loss of a file",
      "The tests import a few fixed networks and check selected elements; other shapes of network and damaged files are not sampled.",
      [IS + f for f in ("parse_iss.cc", "parse_track_element.cc", "iss_files.cc", "parse_helpers.cc")] + ["src/infrastructure/layout/layout_to_gps.cc", "src/infrastructure/parsers/parse_station_coords.cc", "src/infrastructure/regulatory_data.cc", "src/infrastructure/line.cc", "src/rolling_stock/parse_train_series.cc", "src/infrastructure/station/station.cc"],
      [("sections are read in both directions and joined at section elements", IS + "parse_iss.cc"), ("the index lists all files", IS + "iss_files.cc"), ("borders of neighbouring stations are paired", IS + "parse_iss.cc"), ("positions are interpolated between neighbours", "src/infrastructure/layout/layout_to_gps.cc")],
      [("graph_", "elements, nodes, sections of the network", "infrastructure_t"), ("stations_", "stations with their sections, borders, elements", "infrastructure_t")],
      ["constructor of infrastructure: result or exception"]))
    T.append(P("I02", "Station routes lead exactly along the way and limits described",
      "Every station route of the files is imported with its way from start to end along the decisions at switches, its main signals, omitted elements, halts, checkpoint, attributes, extra speed limits, length and neighbouring stations. Walking it, whole or any part, visits its places in order, marks exactly the omitted ones, and gives each extra speed limit exactly at its place. Its successors and predecessors are exactly the station routes that continue it.",
      ["inputs", "schedules"], "every station route over every network (ends at borders, track ends, halts or other elements; loops; shared ways), every part of it walked",
      "The tests look at selected routes of fixed networks; partial walks over omitted elements with limits are not sampled.",
      ["src/infrastructure/station/station_route.cc", "src/infrastructure/station/station_route_graph.cc", IS + "parse_iss.cc", IS + "parse_station_route.cc", "include/soro/infrastructure/station/station_route.h"],
      [("from_to fast-forwards limits and omitted elements", "src/infrastructure/station/station_route.cc"), ("ways are shared between routes", IS + "parse_iss.cc"), ("routes meeting at borders or inner ends", "src/infrastructure/station/station_route_graph.cc")],
      [("path_", "nodes, main signals, ETCS starts and ends", "station_route"), ("station_route_graph_", "successors and predecessors", "infrastructure_t")],
      ["station_route::iterate, from, to, from_to"]))
    T.append(P("I03", "Interlocking routes are exactly the ways from signal to signal",
      "The interlocking holds exactly the ways from one main signal to the next (or from or to the end of the tracks) that the station routes allow, each once. The indices by first and last node, by halt, by station route and by station list exactly the interlocking routes concerned. Walking a route, whole or any part, visits its places in order.",
      ["inputs", "schedules"], "every network with its station routes: ways over several stations, without signals, with omitted signals, with several signals inside one station route",
      "The tests count routes of fixed networks; chains of station routes without signals and omitted signals are not sampled.",
      ["src/infrastructure/interlocking/get_interlocking.cc", "src/infrastructure/interlocking/interlocking_route.cc", "include/soro/infrastructure/interlocking/interlocking_route.h"],
      [("station routes are chained until a main signal", "src/infrastructure/interlocking/get_interlocking.cc"), ("walks skip to an offset in the first and stop at one in the last station route", "src/infrastructure/interlocking/interlocking_route.cc")],
      [("interlocking_", "routes and their indices", "infrastructure_t")], ["interlocking_route::iterate, from, to, from_to, contains"]))
    T.append(P("F03", "A fault during infrastructure import is reported, never a smaller network",
      "When an import of an infrastructure returns normally it has imported exactly what the files hold, whatever the disk, the memory or the operating system did meanwhile: failing opens, reads, mappings and status queries, short reads, refused memory or threads end the import with an error. An import after the fault is over succeeds and gives the whole network.",
      ["fault_sequences", "inputs", "schedules"], "every fault kind (open, read, stat, mmap, short read, allocation, thread creation) at every point of the import of every network",
      "Tests import from a working disk with enough memory.",
      [IS + "parse_iss.cc", IS + "iss_files.cc", "include/soro/utls/file/loaded_file.h", "src/infrastructure/exclusion/read_cliques.cc", "src/infrastructure/parsers/parse_station_coords.cc"],
      [("file reads report failures", "include/soro/utls/file/*.h"), ("files listed in the index must exist", IS + "iss_files.cc")],
      [("infrastructure_t", "imported network", "infrastructure.h")], ["constructor of infrastructure: return or exception"]))
    T.append(P("R01", "Running times respect the timetable, the limits and the train",
      "For every train whose forces can move it along its way and whose brakes can hold it to the limits there, the calculation of running times gives, for every recorded element that is not omitted between the first and the last stop, in the order of the way, one time of arrival and one of departure. Times never go back; the train leaves the first stop on its scheduled departure, leaves no later stop before its scheduled departure or before its minimum stop time is over, and stands nowhere else. Nowhere does it go faster than its own maximum or the limit in force, where a limit announced from the last signal on holds from that signal on; and, up to the step of the calculation, the times are those of a train that between signals, halts and changes of the limit speeds up as its forces allow, holds the speed it may have and brakes as its brakes allow. The times do not depend on what else is calculated meanwhile, and the calculation always ends.",
      ["inputs", "schedules"], "every network with any places of elements (also several at one kilometrage) and any limits, every train (vehicles, weight, maximum, stops and minimum stop times), every choice of recorded elements, calculations side by side",
      "The tests calculate a few fixed trains and compare single values; shared kilometrages, limits announced from the last signal and trains too weak for their load are not sampled.",
      ["src/runtime/interval.cc", "src/runtime/runtime.cc", "src/runtime/runtime_physics.cc", "src/timetable/train.cc", "src/infrastructure/interlocking/interlocking_route.cc"],
      [("borders at signals, halts and limits; limits from the last signal applied backwards", "src/runtime/interval.cc"), ("acceleration, coasting and braking phases; departure after schedule and minimum stop time", "src/runtime/runtime.cc"), ("phases in steps of time", "src/runtime/runtime_physics.cc")],
      [("times_", "arrival and departure at each recorded element", "soro::runtime::timestamps")], ["runtime_calculation: times or exception"]))
    W = "web/server/src/modules/"
    T.append(P("W01", "The server answers every request with exactly what it serves",
      "Every request for an infrastructure, station, station route, interlocking route, exclusion set, element, timetable, ordering, search, bounding box or tile that exists is answered once, with status 200 (204 for an empty tile) and a well-formed document that says exactly what the loaded infrastructures and timetables say: names, ids, ways in order, positions, boxes, members and data of elements, trips and their order within the asked window. A search for part of a name gives exactly the things whose name holds it. The answer does not depend on the requests before it or the schedule of the server's start.",
      ["inputs", "histories", "schedules", "configurations"], "every set of infrastructures and timetables in the source directories, every sequence of requests",
      "The server has tests for the OSM export only; no test sends a request.",
      [W + "infrastructure/serve_" + f for f in ("bounding_box.cc", "element.cc", "exclusion_set.cc", "interlocking_route.cc", "station.cc", "station_route.cc")] + [W + "search/search_module.cc", W + "search/serve_search.cc", W + "ordering/ordering_module.cc", W + "ordering/serve_ordering_graph.cc", W + "timetable/timetable_module.cc", W + "tiles/tiles_module.cc", "web/server/src/soro_server.cc"],
      [("one handler per route", "web/server/src/soro_server.cc"), ("search indices built at the start", W + "search/search_module.cc"), ("answers are written with cereal", "web/server/include/soro/server/cereal/json_archive.h")],
      [("infrastructures, timetables", "what was loaded at the start", "infrastructure_module, timetable_module")], ["HTTP response of each request"]))
    T.append(P("W02", "Requests for what does not exist are refused and disturb nothing",
      "A request naming an unknown infrastructure, station, route, element, exclusion set or timetable, an id that is too large, not a number or overflows, an inverted or malformed window, an unsupported method or path is answered once with a client error status; it is never answered with data, never ends the server, and every later good request is answered as if it had not been sent.",
      ["inputs", "histories"], "every history of malformed, unknown and good requests against every deployment",
      "No test sends a request; the space of malformed requests and the state they could leave behind is unbounded.",
      ["web/server/src/soro_server.cc", "include/soro/utls/parse_int.h", W + "infrastructure/serve_element.cc", W + "infrastructure/serve_exclusion_set.cc", W + "timetable/serve_timetable.cc", W + "ordering/serve_ordering_graph.cc"],
      [("ids are parsed and checked against the tables", W + "infrastructure/*.cc"), ("unknown names are not found", W + "infrastructure/infrastructure_module.cc, " + W + "timetable/timetable_module.cc")],
      [], ["HTTP response of each request"]))
    O = W + "tiles/osm_export/"
    T.append(P("X04", "The OSM export holds the whole network, or reports why not",
      "An export that returns normally has written a well-formed OSM file with every element and every station exactly once, at its position and with its data; with ways between exactly the neighbouring elements, interpolated by a line of points exactly between stations; with distinct ids and finite coordinates. This holds for any number of worker threads and any schedule. A file that cannot be written completely is reported, and what is found under its name afterwards is the old or the new file, never a part.",
      ["inputs", "schedules", "fault_sequences", "configurations"], "every network, every number of workers and interleaving of them, every disk fault while the file is written",
      "The tests export one network to memory and compare node counts; worker partitions, other networks and failing disks are not sampled.",
      [O + "osm_export.cc", O + "interpolation.cc", W + "tiles/tiles_module.cc"],
      [("elements are split into one part per worker", O + "osm_export.cc"), ("the file is written aside and renamed", O + "osm_export.cc")],
      [("osm document", "nodes and ways of the network", "export_to_osm")], ["export_and_write(): return or exception, and the file"]))
    T.append(P("S01", "A server that was killed or met a fault starts again and serves the whole truth",
      "Whatever happens to the server while it starts (killed between any two disk operations, disk full, failing reads, writes or renames, refused threads or memory), and whichever of the files it generated are removed between two starts, the next start on the surviving disk without further faults succeeds, and the OSM files, tiles, stations, timetables and all other answers it gives are those of the infrastructures and timetables in the source directories, never those of a half-written file.",
      ["crash_points", "fault_sequences", "histories", "schedules"], "every sequence of starts, each killed at any disk operation or hit by any fault, with and without regeneration, over every deployment",
      "No test starts the server; crash points and what they leave behind are not reachable by unit tests.",
      ["web/server/src/soro_server.cc", W + "tiles/tiles_module.cc", W + "tiles/import/import.cc", O + "osm_export.cc", W + "infrastructure/infrastructure_module.cc", W + "timetable/timetable_module.cc"],
      [("derived files are reused when they are complete and not older than their source", W + "tiles/tiles_module.cc")],
      [("osm and tile files", "durable state derived from the sources", "server resource directory")], ["start of the server, then HTTP responses and OSM files"]))
    T.append(P("X05", "The exclusion graph export is complete, or reports why not",
      "An export of the exclusion graph that ends successfully has written one line for every interlocking route, in order, that names exactly the earlier routes it excludes, ascending, each pair once in the whole file, whatever was under that name before. This holds for any number of workers and schedule. Whatever the disk, the memory or the operating system did meanwhile, an export that could not write all of it ends with an error, and the next one on a working disk succeeds.",
      ["inputs", "schedules", "fault_sequences", "configurations"], "every network, every number of workers and interleaving of them, every fault while the network is read or the file is written",
      "No test runs the exporter; empty graphs, loops of routes and failing disks are not sampled.",
      ["tools/export_exclusion_graph/src/export_exclusion_graph.cc", "src/infrastructure/exclusion/get_exclusion.cc", "src/infrastructure/exclusion/get_exclusion_graph.cc"],
      [("each pair is written at its later route", "tools/export_exclusion_graph/src/export_exclusion_graph.cc")],
      [("exclusion graph file", "lines of neighbours", "write_out")], ["exit status of the tool and the file"]))
    return T
