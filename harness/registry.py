CHECKS = {}


def check(pid, traces, rule, models=(), level="model_checking", assumptions=()):
    CHECKS[pid] = dict(traces=traces, rule=rule, models=list(models), level=level, assumptions=list(assumptions))


def T(module, gen, quick, thorough, **kw):
    return dict(module=module, gen=gen, quick=quick, thorough=thorough, **kw)


CAMS = "random and special cameras (3 projections, 2 orientation classes, 3 lenses) x batches of random and special points; an event is one call of the implementation, distinct by its arguments and result"
check("C01", [T("T_Camera", "d_camera:c01", (8, 360), (16, 1440))], CAMS)
check("C02", [T("T_Camera", "d_camera:c02", (8, 270), (16, 1080))], CAMS)
check("C03", [T("T_Camera", "d_camera:c03", (8, 270), (16, 1080))], CAMS)
check("C08", [T("T_Camera", "d_camera:c08", (8, 360), (16, 1440))], CAMS)
check("C04", [T("T_Camera", "d_batch:c04", (8, 54), (16, 216))], "every public point transformation called with a batch, with each point alone and with the same points in another container")
check("C10", [T("T_Geo", "d_geo:c10", (8, 1500), (16, 6000))], "random and special pairs of GPS points (poles, date line, antipodes, equal points, 2 and 3 components, single/batch/broadcast)")
check("C11", [T("T_Geo", "d_geo:c11_text", (4, 40), (12, 200)), T("T_Geo", "d_geo:c11_notations", (4, 3), (12, 12), cases="text")],
      "all documented formats x special coordinates; every notation of the design model instantiated with random numbers", models=[("text", "d_geo:m_text")])
check("C12", [T("T_Geo", "d_geo:c12", (8, 270), (16, 1080))], "random cameras with GPS position set in several ways x batches of points in space, GPS and image")
check("C13", [T("T_Lines", "d_lines:c13", (8, 360), (16, 1500))], "random triangle soups with hits in a row, copies behind the origin, shuffled and turned triangles; pixels of random cameras on meshes")
check("C14", [T("T_Lines", "d_lines:c14", (8, 810), (16, 3240))], "random, integer, parallel, meeting and degenerate lines; triangles, quadrilaterals and walls; single and batch")
check("C15", [T("T_Lines", "d_lines:c15", (8, 540), (16, 2160))], "random pairs of cameras (shared or own projection and lens) looking at the same region x points, pixel pairs and correspondences")
check("C26", [T("T_Lines", "d_lines:c26", (8, 40), (16, 240))], "random pairs of equal cameras in general position, reconstructed from 30-80 exact correspondences; judged if the essential matrix estimated for the same pixels is accurate")
check("C20", [T("T_View", "d_view:c20", (8, 540), (16, 2160))], "random cameras rotated four times in a row, random groups (own or shared orientations) scaled twice, with points around the cameras")
check("C21", [T("T_View", "d_view:c21_objects", (6, 500), (12, 2000)), T("T_View", "d_view:c21_lut", (6, 100), (12, 400))],
      "random cameras x upright and lying objects at random and axis-aligned positions, scalar and per-object Z; area tables of small images")
check("C22", [T("T_View", "d_view:c22", (8, 225), (16, 900))], "random cameras with small images: horizon in default, listed and single columns, borders of several spacings, both cones")
check("C09", [T("T_Init", "d_init:c09_args", (8, 6000), (16, 0), cases="args"), T("T_Init", "d_init:c09_views", (2, 400), (8, 2000))],
      "every combination of constructor arguments of the design model (sampled in the quick tier, all in the thorough tier) with random values; field of view conversions of random projections",
      models=[("args", "d_init:m_intrinsics")])
check("C05", [T("T_Store", "d_store:c05", (8, 120), (16, 480)),
              T("T_Store", "d_replay:replay", (8, 200), (16, 1200), cases="store", extra=dict(pid="C05"))],
      "every sequence of two operations (three in the thorough tier) of the design model on four small set-ups (sampled), and random histories (seeded) of operations on worlds of 2-6 projections, orientations, lenses, cameras and groups with shared parts: assignments, uncertain values, defaults, resets, fits, samples, GPS, save and load through any view of a parameter, favouring parameters touched before; after every operation rays, images and intrinsics of all cameras are compared with the geometry of the current parameters",
      models=[("store", "d_replay:m05")])
check("C06", [T("T_Store", "d_store:c06", (8, 120), (16, 480)),
              T("T_Store", "d_replay:replay", (8, 200), (16, 1200), cases="store", extra=dict(pid="C06"))],
      "every sequence of two operations (three in the thorough tier) of the design model on four small set-ups (sampled), and random histories (seeded) of operations on worlds of 2-6 projections, orientations, lenses, cameras and groups with shared parts: the same operations; after each one the parameter is read through every view and further parameters at random, names of unknown attributes included",
      models=[("store", "d_replay:m06")])
check("C07", [T("T_Store", "d_store:c07", (8, 78), (16, 312)),
              T("T_Store", "d_replay:replay", (8, 200), (16, 1200), cases="store", extra=dict(pid="C07"))],
      "every sequence of two operations (three in the thorough tier) of the design model on four small set-ups (sampled), and random histories (seeded) of operations on worlds of 2-6 projections, orientations, lenses, cameras and groups with shared parts: save, changes, load into the same, another or a new camera, repeatedly; all parameters and rays are compared after each load",
      models=[("store", "d_replay:m07")])
check("C19", [T("T_Store", "d_store:c19", (8, 108), (16, 432)), T("T_Store", "d_store:c19_stat", (4, 3), (8, 40)),
              T("T_Store", "d_replay:replay", (8, 200), (16, 1200), cases="store", extra=dict(pid="C19"))],
      "every sequence of two operations (three in the thorough tier) of the design model on four small set-ups (sampled), and random histories (seeded) of operations on worlds of 2-6 projections, orientations, lenses, cameras and groups with shared parts: uncertain assignments, samples, means, plain assignments, fits, resets and traces; reads and rays after each; and statistics of 400 draws and of rows drawn from traces",
      models=[("store", "d_replay:m19")])
check("C23", [T("T_Store", "d_store:c23", (8, 108), (16, 432)),
              T("T_Store", "d_replay:replay", (8, 200), (16, 1200), cases="store", extra=dict(pid="C23"))],
      "every sequence of two operations (three in the thorough tier) of the design model on four small set-ups (sampled), and random histories (seeded) of operations on worlds of 2-6 projections, orientations, lenses, cameras and groups with shared parts: groups of lists and single projections, orientations and lenses of several lengths, operations through the group, members and parts",
      models=[("store", "d_replay:m23")])
check("C16", [T("T_Store", "d_maps:c16", (8, 48), (16, 200)), T("T_Store", "d_maps:c16_cases", (8, 20), (16, 0), cases="maps")],
      "histories of three operations of the design model of kept images (sampled in the quick tier), and random histories (seeded) of operations on worlds of 2-6 projections, orientations, lenses, cameras and groups with shared parts: small and very wide images, top views and undistorted images with repeated and changed arguments between parameter changes; every pixel compared with the geometry and with a fresh camera",
      models=[("maps", "d_maps:m_maps")])
check("C17", [T("T_Store", "d_terms:c17", (8, 72), (16, 300))], "random histories of cameras and groups with information terms added and cleared and parameters changed in between; every evaluation compared with the sum of the terms in force")
check("C27", [T("T_Store", "d_info:c27", (8, 40), (16, 200))], "random histories of cameras with information added, cleared, traces set and parameters changed in between; everything drawn by every plot of the fit information and of a trace, and every trace summary, judged")
check("C18", [T("T_Store", "d_chain:c18", (8, 12), (16, 120)), T("T_Store", "d_chain:c18_script", (8, 60), (16, 0), cases="chain")],
      "random histories with chains on cameras and groups and direct chains with known targets (normal densities, walls of zero probability, bounds, prior traces); every sequence of proposal classes of the design model replayed with a scripted target",
      models=[("chain", "d_chain:m_chain")])
check("C25", [T("T_Store", "d_chain:c25", (8, 108), (16, 432))], "random histories with fits of cameras and groups to known targets (with and without valid starts) and to information terms")
check("C24", [T("T_Sensor", "d_sensor:c24", (8, 200), (16, 0), cases="sensor")],
      "every history of lookups with faults of the design model (sampled in the quick tier) replayed on the real code with random databases, models and EXIF data; the network is a stand-in, a full disk is a file size limit, a crash kills a forked process",
      models=[("sensor", "d_sensor:m_sensor")])
check("C28", [T("T_Scene", "d_scene:c28", (8, 24), (16, 240))], "random scenes with cubes, rectangles, grids and own lines, cameras set and moved between the plots, cameras of several sizes rendered in a row; epipolar plots of random camera pairs; every line and marker drawn judged")
