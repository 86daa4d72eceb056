#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (run by hand after an edit)."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook}})

prop("P01", "Hazard tiles cover every grid point of the region exactly once",
     "For every wind-field grid, hazard region and tile size, the tiles of the hazard calculation lie inside the region's grid, overlap nowhere and together contain every grid point of the region. "
     "The return-level results of a tile are stored at exactly the grid points of that tile.",
     ["inputs", "configurations"],
     "all grid sizes, tile sizes (larger, smaller, non-dividing, equal) and region offsets",
     "Tests build one or two concrete grids; the claim is for every combination of grid length and tile length, including remainders.",
     ["hazard/__init__.py"],
     [("TileGrid.tileGrid / getGridLimit", "hazard/__init__.py"), ("getTiles / getTileLimits", "hazard/__init__.py"),
      ("HazardCalculator.dumpHazardFromTiles placement", "hazard/__init__.py")],
     [("x/y tile start and end arrays", "half-open grid index ranges of each tile column and row", "hazard/__init__.py::TileGrid")],
     ["TileGrid.getGridLimit(k)", "return-level grids written by the hazard module"])

prop("P02", "Parallel hazard run: every tile once, any arrival order, same answer",
     "For every number of tiles and processes and every order in which worker results arrive, the hazard master hands each tile to exactly one worker, stores every returned tile, sends each worker exactly one stop message and then returns. "
     "The stored grids equal those of a serial run.",
     ["schedules", "configurations"],
     "all worker counts, tile counts and all arrival orders of worker messages",
     "Tests run in one process; arrival order and worker counts are never varied.",
     ["hazard/__init__.py"],
     [("master/worker dispatch", "hazard/__init__.py::HazardCalculator.dumpHazardFromTiles")],
     [("w, terminated, p", "next tile, stopped workers, active workers", "hazard/__init__.py")],
     ["messages sent and received by rank 0", "grids after the loop"])

prop("P03", "Return levels never fall with return period and respect the fill value",
     "At a grid point where the block-maxima fit is accepted, the return level never decreases when the return period grows; where there is no positive wind, too few records or the fit is rejected, every return level is the fill value. "
     "For the peaks-over-threshold fit, return level and recurrence interval are inverse functions of each other, and a rejected fit yields the fill value for all levels and parameters.",
     ["inputs"],
     "all samples, all sets of return periods, all fitted parameters in the admissible range",
     "Tests compare a handful of fitted numbers with stored values.",
     ["hazard/evd.py", "hazard/GPD.py"],
     [("gevfit return levels", "hazard/evd.py::gevfit"), ("gpdReturnLevel / gpdRecurrenceIntervals / gpdfit", "hazard/GPD.py")],
     observe=["arrays returned by the fit functions"])

prop("P04", "Hazard curves at each grid cell use only that cell's own records",
     "For every tile of simulated wind records, the fitted return levels, location, scale and shape stored for a grid cell are the fit of that cell's own records, for every cell of the tile, and cells that never see wind are left at their initial value. "
     "This holds for each of the extreme value methods on offer.",
     ["inputs", "configurations"],
     "all tile shapes, record counts, and every extreme value method",
     "Tests fit a single series; index mix-ups between cells, rows and records need unequal dimensions and distinguishable cells.",
     ["hazard/__init__.py"],
     [("calculateGEV / calculateEMP / calculateGPD / calculatePower", "hazard/__init__.py")],
     observe=["return-level, location, scale, shape arrays of a tile"])

prop("P05", "Swath maxima: peak gust with its own direction, and minimum pressure",
     "Over a storm's passage, the gust reported at each grid cell is the largest gust of any time step that reached the cell, the reported wind components and bearing are those of a time step with that gust, and the reported pressure is the lowest of any such time step. "
     "Cells no time step reached keep the no-wind values. Combining several storms into one field obeys the same rule.",
     ["inputs", "histories"],
     "all sequences of time steps and positions, all grids, any number of storms",
     "Tests check a stored swath for one storm; maxima, components and pressure must agree cell by cell for every history.",
     ["wind/__init__.py"],
     [("WindfieldAroundTrack.regionalExtremes", "wind/__init__.py"), ("WindfieldGenerator.calculateExtremesFromTrackfile", "wind/__init__.py")],
     [("gust, bearing, UU, VV, P", "running extremes over the region grid", "wind/__init__.py")],
     ["returned swath arrays", "variables in gust files"])

prop("P06", "Wind-field restart recomputes exactly the missing or incomplete files",
     "When a wind-field run is restarted after a failure at any point, every storm whose gust file is missing, empty, unreadable or lacks any of the required variables is recomputed and saved, and only storms whose file is complete are skipped. "
     "Every storm has its own file name, and all saved fields of a storm are written with the same north-south orientation.",
     ["crash_points", "histories", "inputs"],
     "all subsets of present, absent, empty, unreadable or partial files; all track numbers",
     "Tests never interrupt a run; which files exist and in what state is a history, not a unit-test fixture.",
     ["wind/__init__.py"],
     [("gustFileComplete, gustFilename, dumpGustsFromTracks, saveGustToFile", "wind/__init__.py")],
     observe=["set of storms recomputed", "grids handed to the file writer"])

prop("P07", "Gradient winds rotate with the hemisphere and mirror across the equator",
     "For every storm and every distance, the gradient wind of the Jelesnianski, Rankine, Holland and Holland-2010 profiles for a storm in one hemisphere is the exact negative of that for the mirrored storm in the other hemisphere. "
     "Outside the core the wind blows in the sense of that hemisphere's rotation, and for the Jelesnianski and Rankine profiles it never exceeds the storm's maximum wind, which is attained at the radius of maximum wind.",
     ["inputs"],
     "all latitudes, radii, pressures and peakedness values in the physical range",
     "Tests evaluate stored profiles for one southern storm.",
     ["wind/windmodels.py"],
     [("velocity methods of the profile classes", "wind/windmodels.py")],
     observe=["velocity arrays"])

prop("P08", "Compiled and interpreted kernels compute the same fields",
     "For every storm and grid, the compiled kernels for storm-relative distance and bearing, Holland velocity, vorticity and pressure and the Kepert boundary-layer wind compute, at every grid point, the same mathematical expression as the interpreted code they replace.",
     ["inputs", "configurations"],
     "all inputs with a storm off the equator; build with and without the extensions",
     "Tests compare each build with stored numbers for a few storms; agreement for all inputs is never checked.",
     ["wind/windmodels.f90", "wind/windmodels.py", "Utilities/maputils.f90", "Utilities/maputils.py", "PressureInterface/pressureProfile.f90", "PressureInterface/pressureProfile.py"],
     [("fhollandvel, fhollandvort, fkerpert", "wind/windmodels.f90"), ("beardist", "Utilities/maputils.f90"), ("fhollandpressure", "PressureInterface/pressureProfile.f90")],
     observe=["arrays filled by the kernels"])

prop("P09", "Maximum wind and pressure deficit relations are inverse and validated",
     "For every named wind-pressure relation, the pressure deficit derived from a maximum wind speed reproduces that wind speed, and a deeper storm never has a weaker maximum wind. "
     "An environmental pressure below the central pressure or an unknown relation is rejected with an error instead of returning a number.",
     ["inputs"],
     "all pressures, speeds, peakedness and density values in range, all relation names",
     "Tests compare stored values at a few points.",
     ["wind/vmax.py"],
     [("vmax / pDiff", "wind/vmax.py")],
     observe=["returned speed / deficit or raised error"])

prop("P10", "Pressure profiles stay between central and environmental pressure",
     "For every storm and distance, each parametric pressure profile returns a value between the storm's central and environmental pressure, and for the Holland-type and Willoughby profiles the pressure never falls as the distance from the centre grows.",
     ["inputs"],
     "all radii, deficits, and peakedness values in range",
     "Tests compare stored profiles.",
     ["PressureInterface/pressureProfile.py"],
     [("PrsProfile methods", "PressureInterface/pressureProfile.py")],
     observe=["pressure arrays"])

prop("P11", "Only valid synthetic tracks are kept, numbered consecutively",
     "A simulation returns exactly the requested number of tracks, numbered consecutively within the simulation. "
     "Every returned track is non-empty, lasts at least twelve hours, starts with a pressure deficit of more than 1 hPa, is deeper than its surroundings at every step, has a radius of maximum wind strictly between 5 and 500 km at every step and below 100 km at genesis, and lies strictly inside the inner region when one is configured.",
     ["inputs", "histories"],
     "all random sequences, all track shapes, with or without an inner region",
     "Tests fix a seed; rejection logic must hold for every random draw.",
     ["TrackGenerator/TrackGenerator.py"],
     [("TrackGenerator.generateTracks accept/reject filter", "TrackGenerator/TrackGenerator.py")],
     [("results, j", "accepted tracks and their count", "TrackGenerator/TrackGenerator.py")],
     ["tracks returned by a simulation"])

prop("P12", "A synthetic track evolves step by step and never leaves the domain",
     "At every step of a synthetic track the new position is the previous one moved by the previous step's bearing and distance, age grows by exactly one time step, and the distance is speed times time step. "
     "Every returned position lies inside the track domain, a step that violates the validity rules ends the track before it is recorded, and over land the pressure follows the landfall decay while over sea it follows the accumulated rate of change.",
     ["inputs", "histories"],
     "all random sequences, all domains and time steps, any mix of land and sea",
     "Tests fix seeds and compare one track.",
     ["TrackGenerator/TrackGenerator.py"],
     [("TrackGenerator._singleTrack", "TrackGenerator/TrackGenerator.py"), ("TrackGenerator._notValidTrackStep", "TrackGenerator/TrackGenerator.py")],
     observe=["columns of a generated track"])

prop("P13", "Work is split so that every item is done by exactly one process",
     "For every number of processes and every list of work items, the shares given to the processes are disjoint and together contain every item, in every module that splits work between processes. "
     "When a wind-field run has several track files, every track of every file is processed exactly once across all processes.",
     ["configurations", "inputs"],
     "all process counts and item counts",
     "Tests run with one process.",
     ["TrackGenerator/TrackGenerator.py", "wind/__init__.py"],
     [("balanced", "TrackGenerator/TrackGenerator.py"), ("balanced", "wind/__init__.py"), ("loadTracksFromFiles", "wind/__init__.py")],
     observe=["items processed per rank"])

prop("P14", "Simulations draw only from their own seeded random stream",
     "The random numbers a simulation uses come only from the stream seeded for that simulation, so its tracks do not depend on which process runs it or on what ran before. "
     "Streams of different simulations in a run are seeded differently.",
     ["schedules", "configurations", "histories"],
     "all assignments of simulations to processes, all orders of simulations in a process",
     "Tests run single simulations in one process.",
     ["TrackGenerator/TrackGenerator.py", "TrackGenerator/trackLandfall.py", "Utilities/tcrandom.py"],
     [("normal/uniform/logistic/lognorm/ppf helpers", "TrackGenerator/TrackGenerator.py"), ("landfall decay", "TrackGenerator/trackLandfall.py"), ("Random", "Utilities/tcrandom.py")],
     observe=["calls on the global random generator"])

prop("P15", "Grid cell numbers identify cells uniquely and contain their points",
     "For every domain with whole-degree limits and whole-degree cell size that divides it, every point of the domain is given the number of a cell whose bounds contain it, the number is between zero and the largest cell number, and converting a cell number to its corner and back gives the same number. "
     "Points outside the domain and invalid cell numbers are rejected with an error.",
     ["inputs", "configurations"],
     "all domains (including those straddling the equator or the prime meridian), cell sizes and points",
     "Tests use one southern-hemisphere domain.",
     ["Utilities/stats.py"],
     [("getCellNum, getCellLonLat, validCellNum, maxCellNum", "Utilities/stats.py")],
     observe=["returned cell numbers and coordinates"])

prop("P16", "Cell statistics use exactly the observations inside the cell's search box",
     "The sample used for a grid cell consists of exactly the observations located inside the cell's final search box with missing values removed, the box contains the cell and stays inside the domain, and the box is enlarged until the sample is larger than the required minimum. "
     "A cell number outside the domain is rejected, and a sample is never returned when the domain holds too few observations.",
     ["inputs", "configurations"],
     "all observation sets, domains, cell sizes and minimum sample sizes",
     "Tests use one data set and a few cells.",
     ["StatInterface/GenerateDistributions.py", "StatInterface/generateStats.py"],
     [("extractParameter, _expandCell, _checkGridLimits", "StatInterface/GenerateDistributions.py"), ("extractParameter", "StatInterface/generateStats.py")],
     [("north/south/east/west", "current search box", "StatInterface/GenerateDistributions.py")],
     ["parameter sample of a cell"])

prop("P17", "Cumulative distributions are monotone, end at one, and sampling inverts them",
     "A cumulative distribution built from non-negative densities never decreases and ends at exactly one. "
     "A value drawn from a distribution is one of its tabulated values, its cumulative probability is the smallest not below the uniform draw, so the chance of each value equals its probability mass.",
     ["inputs"],
     "all density tables and all uniform draws",
     "Tests use stored tables and a few draws.",
     ["Utilities/stats.py", "StatInterface/SamplingParameters.py", "StatInterface/SamplingOrigin.py", "TrackGenerator/TrackGenerator.py"],
     [("cdf, cdf2d", "Utilities/stats.py"), ("ppf", "TrackGenerator/TrackGenerator.py"), ("SamplingParameters.generateOneSample", "StatInterface/SamplingParameters.py")],
     observe=["sampled values"])

prop("P18", "Input tracks: per-storm derived quantities never cross storm boundaries",
     "For every best-track input, speeds, bearings, ages, pressure changes, wind speeds and other rates derived for an observation use only that observation and earlier ones of the same storm. "
     "The first observation of every storm gets the missing value for speed, bearing and rates and age zero, so nothing mixes two storms.",
     ["inputs"],
     "all sequences of storms and observations, including storms with a single observation",
     "Tests use one data file.",
     ["Utilities/loadData.py", "DataProcess/DataProcess.py"],
     [("getSpeedBearing, getPressure handling, getTimeDelta", "Utilities/loadData.py"), ("DataProcess rates", "DataProcess/DataProcess.py")],
     observe=["derived fields"])

prop("P19", "Unit conversions are consistent, invertible and leave the input unchanged",
     "Converting a quantity between any two supported units of the same kind and back returns the original quantity to within the precision of the tabulated factors, conversion preserves order, and an unknown unit pair leaves the value as it is. "
     "The caller's data are never modified.",
     ["inputs", "programs"],
     "all supported unit pairs and all values",
     "Tests convert stored values for some pairs, one direction each.",
     ["Utilities/metutils.py"],
     [("convert table", "Utilities/metutils.py::convert")],
     observe=["converted values"])

prop("P20", "The track domain contains the hazard region and every relevant storm track",
     "The track domain computed from the input storms contains the hazard region, and contains every recorded position of every storm from its start to its last visit to the region. "
     "Its limits are whole degrees, and the hazard region itself is left as it was.",
     ["inputs", "configurations"],
     "all storm sets with at least one position, and all regions",
     "Tests use one data set and region.",
     ["DataProcess/CalcTrackDomain.py"],
     [("CalcTrackDomain.calcDomainFromTracks", "DataProcess/CalcTrackDomain.py")],
     observe=["domain limits"])

prop("P21", "Local wind uses the multiplier of the sector the wind blows from",
     "For every wind vector, the direction assigned to a grid cell is its meteorological bearing in degrees, and the local wind speed is the regional speed times the site multiplier of exactly one of the eight compass sectors: the one containing that bearing. "
     "No bearing is left without a sector.",
     ["inputs"],
     "all wind vectors, including those on and near sector boundaries and just west of north",
     "Tests use a few vectors away from the boundaries.",
     ["ProcessMultipliers/processMultipliers.py"],
     [("calculateBearing, processMult", "ProcessMultipliers/processMultipliers.py")],
     observe=["local wind grid"])

prop("P22", "Segmented multiplier processing covers every pixel once and terminates",
     "For every raster size and segment size, the processing segments are disjoint, inside the raster and together cover every pixel. "
     "For every number of worker threads and every interleaving, each segment is processed exactly once and all workers finish.",
     ["inputs", "schedules"],
     "all raster and segment sizes; all interleavings of the workers",
     "Tests run one raster with one interleaving.",
     ["ProcessMultipliers/processMultipliers.py"],
     [("segment queue and workers", "ProcessMultipliers/processMultipliers.py")],
     observe=["segments processed", "worker termination"])

prop("P23", "Hazard database stores for each location the nearest grid cell's values",
     "For every event and every location in the simulation domain, the stored wind speed, components and pressure are those of the grid point nearest to the location in that event's wind field; the stored return period wind speeds, their limits and the fitted parameters are likewise those of the nearest grid point of the hazard. "
     "For every number of worker processes and arrival order, each event file is processed exactly once and every worker stops.",
     ["schedules", "inputs"],
     "all grids, locations, worker counts and arrival orders",
     "Tests use one location set in one process.",
     ["database/__init__.py", "Utilities/maputils.py"],
     [("processEvents / loadWindfieldFile / processHazard / setLocations", "database/__init__.py"), ("find_index", "Utilities/maputils.py")],
     observe=["rows inserted in the database"])

prop("P24", "Station time series keep every sample and report true extremes",
     "Every value sampled at a station is kept, in order, however many there are. "
     "The reported maximum-wind record and minimum-pressure record of a station are records of the time step with the largest wind speed and the lowest pressure of its series.",
     ["histories", "inputs"],
     "all series lengths and values",
     "Tests sample a couple of steps.",
     ["Utilities/timeseries.py", "Utilities/dynarray.py"],
     [("Timeseries.extract / sample / shutdown", "Utilities/timeseries.py"), ("DynamicRecArray.append", "Utilities/dynarray.py")],
     [("size, length", "capacity and used part of the growing array", "Utilities/dynarray.py")],
     ["station output"])

prop("P25", "L-moment estimates are correct and fits satisfy their defining equations",
     "For every sample, the first two sample L-moments and the L-skewness returned by the general and by the specialised estimator agree with the definition by probability-weighted moments, and the second L-moment is never negative. "
     "The generalised Pareto and generalised extreme value parameters fitted from L-moments reproduce those L-moments (the latter the L-skewness to five digits), and infeasible L-moments give no parameters.",
     ["inputs"],
     "all samples and all L-moment triples",
     "Tests compare stored numbers.",
     ["Utilities/lmomentFit.py"],
     [("samlmu, samlmu3, pelgev, pelgpa", "Utilities/lmomentFit.py")],
     observe=["returned moments / parameters"])

prop("P26", "A processed input file is skipped only if it is unchanged since",
     "A file is reported as already processed, by its modification date or by the signature of its content, just if that very value was the last one recorded for the same directory and name. "
     "Recording a file never removes or alters the record of another file, and the registry written to disk and read back is the same registry.",
     ["histories"],
     "all sequences of record, query, save and load operations",
     "Tests record one file.",
     ["Utilities/process.py"],
     [("pAlreadyProcessed, pWriteProcessedFile, pGetProcessedFiles, pSetProcessedEntry", "Utilities/process.py")],
     observe=["answers to 'already processed?'"])

prop("P27", "Nearest-grid-point lookup and angle conversions are exact",
     "For every coordinate array and value, the grid index found for the value is that of an element at minimal distance. "
     "Bearing and mathematical angle conversions are inverse to each other for every angle and return values in a single turn.",
     ["inputs"],
     "all ascending coordinate arrays and values inside or outside their range; all angles",
     "Tests use a few values.",
     ["Utilities/maputils.py"],
     [("find_index, find_nearest, bearing2theta, theta2bearing", "Utilities/maputils.py")],
     observe=["returned index / angle"])

prop("P28", "Annual frequency counts each storm that starts in the domain once",
     "The genesis frequency is the number of storms that start inside the track domain before the last (possibly incomplete) year of the record, divided by the number of those years and given to two decimals. "
     "Each storm counts once, in its own year, and storms that start outside the domain never contribute.",
     ["inputs"],
     "all storm records that span at least two years, and all domains",
     "Tests use one data set.",
     ["DataProcess/CalcFrequency.py"],
     [("CalcFrequency.calc", "DataProcess/CalcFrequency.py")],
     observe=["frequency value"])

prop("P29", "A simulated year's maximum field is the cell-wise maximum of its storms",
     "For every set of gust files, the records handed to the hazard fit are the cell-wise maximum over exactly the files of each simulated year when annual maxima are requested, and one record per file otherwise. "
     "A year without storms contributes zero wind.",
     ["inputs", "configurations"],
     "all numbers of files and years, and all tile positions",
     "Tests load one small set of files.",
     ["hazard/__init__.py"],
     [("aggregateWindFields, loadFilesFromPath, loadFile", "hazard/__init__.py")],
     observe=["record array given to the fit"])

prop("P30", "Configuration values survive being written and read back",
     "Every configuration written to a file and read again yields the same typed values, and values missing from a file take their documented defaults.",
     ["configurations"],
     "all option values of every supported type",
     "Tests load one configuration file.",
     ["Utilities/config.py"],
     [("ConfigParser typed getters and defaults", "Utilities/config.py")],
     observe=["values returned by the typed accessors"])

prop("P31", "Track evaluation handles every track file once on any number of processes",
     "For every number of track files and processes and every order in which results arrive, each evaluation of synthetic tracks (density, pressure, longitude crossings, landfall rates) processes every track file exactly once, keeps exactly one result per file, sends every worker one stop message and ends. "
     "The set of results kept is the same as with one process.",
     ["inputs", "schedules"],
     "all numbers of track files including none, all numbers of processes, all arrival orders",
     "Tests run in one process and never evaluate a set of track files.",
     ["Evaluate/trackDensity.py", "Evaluate/pressureDistribution.py", "Evaluate/longitudeCrossing.py", "Evaluate/landfallRates.py"],
     [("synthetic (master and worker loops)", "Evaluate/trackDensity.py"), ("synthetic", "Evaluate/pressureDistribution.py"), ("synthetic", "Evaluate/longitudeCrossing.py"), ("synthetic, processResults, setOutput", "Evaluate/landfallRates.py")],
     observe=["arrays given to the statistics", "messages sent to each worker"])

prop("P32", "Inside tests and line crossings agree with plane geometry",
     "For every closed polygon, in either direction of its vertices, a point not on its boundary is reported inside exactly when a half line from it crosses an odd number of edges. "
     "For every pair of segments the reported intersection state is the true one and the reported point lies on both. "
     "Every track step that meets a line of longitude between the latitude limits is counted once at its crossing latitude, as eastward or westward according to the direction of the step.",
     ["inputs"],
     "all polygons, points, segments, tracks and gate positions",
     "Tests use one polygon, one circle and one line.",
     ["Utilities/Intersections.py", "Evaluate/longitudeCrossing.py"],
     [("inLand, _cnPnPoly, _wnPnPoly, _isLeft, Crossings.LineLine", "Utilities/Intersections.py"), ("LongitudeCrossing.findCrossings", "Evaluate/longitudeCrossing.py")],
     observe=["inside test", "intersection state and point", "crossings counted per line of longitude"])

prop("P33", "Every time step's wind field is handed on and recorded at its own points",
     "Each time step of a storm inside the region is handed on exactly once, in order of time, with its own date, gust, wind components and pressure and the coordinates of exactly the grid points at which the field enters the swath. "
     "When the evolution of the wind field is recorded, every time step gets one layer with its time, its fields stand at exactly those grid points of a grid equal to that of the swath, and the same values are passed on unchanged to the stations.",
     ["inputs", "histories"],
     "all storms, regions, margins and resolutions in whole hundredths of a degree (region and margin a whole number of steps), both extents of the local field",
     "The one test of the recorder uses three made-up windows; no test checks what the storm passes to it.",
     ["wind/__init__.py", "wind/writer.py"],
     [("WindfieldAroundTrack.regionalExtremes, WindfieldGenerator.calculateExtremesFromTrack", "wind/__init__.py"), ("WriteFoliationCallback", "wind/writer.py")],
     observe=["arguments of the function called at each time step", "layers of the evolution file"])

prop("P34", "Saved tracks come back as the same storms and none near the region is lost",
     "Tracks saved to a track file and read back are the same storms in the same order, each with its identity and, at every record, its date to the second, position, motion, pressures and size; tracks without records are left out. "
     "Saving changes nothing in the tracks saved, whatever unit of time and calendar are chosen. "
     "When tracks are picked for a region, each one with a position within the margin of the region is kept and each one wholly beyond one side of it is not.",
     ["inputs", "histories", "configurations"],
     "all lists of tracks with any number of records, all units of time and calendars, all regions and margins",
     "One test reads a stored file; no test saves tracks and reads them back, and none compares the tracks before and after saving.",
     ["Utilities/track.py", "wind/__init__.py"],
     [("ncSaveTracks, ncReadTrackData", "Utilities/track.py"), ("inRegion, filterTracks", "wind/__init__.py")],
     observe=["tracks read from a file just saved", "tracks in memory after saving", "tracks left after picking"])

prop("P35", "Gridded result files hold each field under its own name at its own points",
     "Whatever gridded results are saved (return levels and their fit, statistics of the cells, coefficients of the track model, density of origins, evaluation of tracks), the file has each field under its own name with the values calculated, in the precision of the file, at the coordinates they were calculated for. "
     "A file of any dimensions and variables holds for every one of them its own values and attributes, and a variable whose values do not fit its dimensions is refused.",
     ["inputs", "configurations"],
     "all sizes of grids, all values, any number of dimensions and variables",
     "Tests of the writer use one small grid; no test looks into the files of the hazard, statistics, track model or evaluation.",
     ["Utilities/nctools.py", "hazard/__init__.py", "StatInterface/generateStats.py", "StatInterface/KDEOrigin.py", "TrackGenerator/TrackGenerator.py", "Evaluate/trackDensity.py", "Evaluate/genesisDensity.py",
      "Evaluate/pressureDistribution.py", "Evaluate/longitudeCrossing.py"],
     [("ncSaveGrid, ncCreateDim, ncCreateVar", "Utilities/nctools.py"), ("HazardCalculator.saveHazard, TileGrid.getDomainExtent", "hazard/__init__.py"), ("GenerateStats.save", "StatInterface/generateStats.py"),
      ("KDEOrigin.generateKDE, generateCdf", "StatInterface/KDEOrigin.py"), ("TrackGenerator.dumpAllCellCoefficients", "TrackGenerator/TrackGenerator.py"), ("save", "Evaluate/trackDensity.py")],
     observe=["contents of the files written"])

prop("P36", "The wind field of a step is what the chosen models give for that step's storm",
     "At every step of a track the wind and pressure field is the one the chosen models give for the storm's own position, motion, pressures and size at that step, each in the unit the model expects, with the chosen shape parameters and angle of maximum wind, at distances and directions taken from the storm's centre to the points of the grid. "
     "Every choice of the configuration (models, shape parameters, angle, margin, resolution, domain) reaches the models unchanged, whatever its value.",
     ["inputs", "configurations"],
     "all storms, all steps, all combinations of wind profile, wind field and pressure models, all settings",
     "Tests run each model alone with hand-written parameters; no test follows a configured value or a record of a track to the model.",
     ["wind/__init__.py", "wind/windmodels.py", "PressureInterface/pressureProfile.py"],
     [("WindfieldAroundTrack.__init__, localWindField, polarGridAroundEye, pressureProfile", "wind/__init__.py"), ("WindfieldGenerator.__init__, calculateExtremesFromTrack, run", "wind/__init__.py")],
     observe=["arguments the models receive", "fields of a time step"])

prop("P37", "Each simulated quantity is drawn from statistics of that quantity's own data",
     "Every observation of the input reaches the data of its own quantity, beside the position it was made at and the mark whether it begins a storm; the values that begin storms are exactly those of the first records. "
     "The statistics and distributions of speed, bearing, pressure, size, day and their changes are made from the data of that quantity at its positions, treated as an angle or as periodic exactly when it is one. "
     "The simulation uses for every quantity the statistics and distributions made for it, cell by cell.",
     ["inputs", "configurations"],
     "all input data sets, all numbers of records and cells, all distributions",
     "Tests exercise each estimate alone with data of its own; which file of one stage feeds which quantity of the next is decided by names that no test follows.",
     ["DataProcess/DataProcess.py", "StatInterface/StatInterface.py", "StatInterface/GenerateDistributions.py", "StatInterface/generateStats.py", "TrackGenerator/TrackGenerator.py"],
     [("processData, _lonLat, _pressure, _rmax, _juliandays", "DataProcess/DataProcess.py"), ("calcCellStatistics, cdfCell*, kdeGenesisDate", "StatInterface/StatInterface.py"),
      ("allDistributions", "StatInterface/GenerateDistributions.py"), ("loadCellStatistics, loadInitialConditionDistributions", "TrackGenerator/TrackGenerator.py")],
     observe=["files written by the processing of the input", "distributions and statistics held by the simulation"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
